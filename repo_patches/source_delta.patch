From c7f8731916b53576dddbd602d7aa6d53d89af7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 001/108] fix: report lines that cannot be read while
 preprocessing

The error of the scanner was never checked, so that a document with a line
exceeding the capacity of the scanner was silently truncated.
---
 pkg/parser/document_preprocessing.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index d748195..aa66d24 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -77,6 +77,9 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 			}
 		}
 	}
+	if err := scanner.Err(); err != nil {
+		return "", errors.Wrapf(err, "failed to read %s", ctx.filename)
+	}
 	return b.String(), nil
 }
 
-- 
2.43.0


From dd4b6555ed274cab954428e040be4da3caa48e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 002/108] fix: ignore end tags without start tag in included
 files

They caused a nil pointer dereference.
---
 pkg/parser/document_preprocessing.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index aa66d24..3367f60 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -412,7 +412,11 @@ func readWithinTags(path string, scanner *bufio.Scanner, content *strings.Builde
 			}
 		}
 		if endTag, ok := fl.GetEndTag(); ok {
-			currentRanges[endTag.Value].EndLine = lineNumber
+			if r, found := currentRanges[endTag.Value]; found {
+				r.EndLine = lineNumber
+			} else {
+				log.Warnf("unexpected end tag '%s' at line %d of include file: %s", endTag.Value, lineNumber, path)
+			}
 		}
 		if expectedRanges.Match(lineNumber, currentRanges) && !fl.HasTag() {
 			_, err := content.Write(scanner.Bytes())
-- 
2.43.0


From f799b7cdebc755043fc314812083adf44ffe0542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 003/108] fix: do not interpret lines excluded by a condition

Attribute declarations and file inclusions had an effect even though the
condition of the enclosing directive was false.
---
 pkg/parser/document_preprocessing.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index 3367f60..a88c808 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -43,6 +43,14 @@ func preprocess(ctx *ParseContext, source io.Reader) (string, error) {
 			// if log.IsLevelEnabled(log.DebugLevel) {
 			// 	log.Debugf("checking element of type '%T'", element)
 			// }
+			if !b.enabled {
+				// content is excluded by a condition: only keep track of the nested conditions
+				switch element.(type) {
+				case types.ConditionalInclusion, *types.EndOfCondition:
+				default:
+					continue
+				}
+			}
 			switch e := element.(type) {
 			case *types.AttributeDeclaration:
 				ctx.attributes.set(e.Name, e.Value)
-- 
2.43.0


From e46874b9567946e1ec26e7249a0fe3c5c7f12f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 004/108] fix: keep the level of included sections within
 bounds

A negative "leveloffset" could cause a negative repeat count (panic), and a huge one
an excessive allocation.
---
 pkg/types/types.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index d75f6d7..55e71b4 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2427,9 +2427,18 @@ func NewRawSection(level int, rawText string) (*RawSection, error) {
 	}, nil
 }
 
+// OffsetLevel changes the level of this section. Levels below 0 do not exist, and
+// there's no section above level 5: any greater level is equivalent to 6.
 func (s *RawSection) OffsetLevel(offset int) {
-	s.RawText = strings.Replace(s.RawText, strings.Repeat("=", s.Level+1)+" ", strings.Repeat("=", s.Level+1+offset)+" ", 1)
-	s.Level = s.Level + offset
+	level := s.Level + offset
+	switch {
+	case level < 0:
+		level = 0
+	case level > 6:
+		level = 6
+	}
+	s.RawText = strings.Replace(s.RawText, strings.Repeat("=", s.Level+1)+" ", strings.Repeat("=", level+1)+" ", 1)
+	s.Level = level
 }
 
 func (s *RawSection) Stringify() string {
-- 
2.43.0


From e919795b397b2b9e0f6574255623377269308bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:02 +0000
Subject: [PATCH 005/108] fix: limit the depth of file inclusions

A file including itself, directly or not, caused an endless recursion.
---
 pkg/parser/context.go                | 2 ++
 pkg/parser/document_preprocessing.go | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/pkg/parser/context.go b/pkg/parser/context.go
index 350500f..4081fc0 100644
--- a/pkg/parser/context.go
+++ b/pkg/parser/context.go
@@ -13,6 +13,7 @@ type ParseContext struct {
 	filename     string
 	opts         []Option
 	levelOffsets levelOffsets
+	includeDepth int // depth of the file inclusion being processed
 	attributes   *contextAttributes
 	userMacros   map[string]configuration.MacroTemplate
 	counters     map[string]interface{}
@@ -45,6 +46,7 @@ func (c *ParseContext) Clone() *ParseContext {
 		filename:     c.filename,
 		opts:         options(c.opts).clone(),
 		levelOffsets: c.levelOffsets.clone(),
+		includeDepth: c.includeDepth,
 		attributes:   c.attributes.clone(),
 		userMacros:   c.userMacros,
 		counters:     c.counters,
diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index a88c808..bd4a7e0 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -124,6 +124,9 @@ func (t *blockDelimiterTracker) withinDelimitedBlock() Option {
 	return GlobalStore(withinDelimitedBlockKey, len(t.stack) > 0)
 }
 
+// maxIncludeDepth the maximum depth of nested file inclusions (in particular when a file includes itself)
+const maxIncludeDepth = 64
+
 // replace the content of this FileInclusion element the content of the target file
 // note: there is a trade-off here: we include the whole content of the file in the current
 // fragment, making it potentially big, but at the same time we ensure that the context
@@ -137,6 +140,10 @@ func includeFile(ctx *ParseContext, incl *types.FileInclusion) (string, error) {
 		}
 		incl.GetLocation().SetPath(l)
 	}
+	if ctx.includeDepth >= maxIncludeDepth {
+		return "", errors.Errorf("Unresolved directive in %s - %s: maximum include depth of %d exceeded", ctx.filename, incl.RawText, maxIncludeDepth)
+	}
+	ctx.includeDepth++
 	content, adoc, err := contentOf(ctx, incl)
 	if err != nil {
 		return "", err
-- 
2.43.0


From a7f79894abbaa161021639c2b220c5a183657637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 006/108] fix: do not change the working directory while
 including files

The working directory belongs to the whole process: changing it disturbed the other
conversions (and the host program). It was not needed, since paths are absolute.
---
 pkg/parser/document_preprocessing.go | 37 ++++++----------------------
 1 file changed, 8 insertions(+), 29 deletions(-)

diff --git a/pkg/parser/document_preprocessing.go b/pkg/parser/document_preprocessing.go
index bd4a7e0..1bdf61c 100644
--- a/pkg/parser/document_preprocessing.go
+++ b/pkg/parser/document_preprocessing.go
@@ -489,46 +489,25 @@ func readAll(scanner *bufio.Scanner, content *strings.Builder) error {
 }
 
 func open(path string) (*os.File, string, func(), error) {
-	wd, err := os.Getwd()
-	if err != nil {
-		return nil, "", func() {}, err
-	}
 	absPath, err := filepath.Abs(path)
 	if err != nil {
-		return nil, "", func() {
-			log.Debugf("restoring current working dir to: %s", wd)
-			if err := os.Chdir(wd); err != nil { // restore the previous working directory
-				log.WithError(err).Error("failed to restore previous working directory")
-			}
-		}, err
+		return nil, "", func() {}, err
 	}
+	// the directory must exist (same error as the one when changing the working directory)
 	dir := filepath.Dir(absPath)
-	// TODO: we could skip the Chdir part if we retain the absPath in the context,
-	// and use `filepath.Join` to compute the abspath of the file to include
-	if err = os.Chdir(dir); err != nil {
-		return nil, "", func() {
-			log.Debugf("restoring current working dir to: %s", wd)
-			if err := os.Chdir(wd); err != nil { // restore the previous working directory
-				log.WithError(err).Error("failed to restore previous working directory")
-			}
-		}, err
+	if _, err := os.Stat(dir); err != nil {
+		if e, ok := err.(*os.PathError); ok {
+			e.Op = "chdir"
+		}
+		return nil, "", func() {}, err
 	}
 	// read the file per-se
 	// log.Debugf("opening '%s'", absPath)
 	f, err := os.Open(absPath)
 	if err != nil {
-		return nil, absPath, func() {
-			log.Debugf("restoring current working dir to: %s", wd)
-			if err := os.Chdir(wd); err != nil { // restore the previous working directory
-				log.WithError(err).Error("failed to restore previous working directory")
-			}
-		}, err
+		return nil, absPath, func() {}, err
 	}
 	return f, absPath, func() {
-		log.Debugf("restoring current working dir to: %s", wd)
-		if err := os.Chdir(wd); err != nil { // restore the previous working directory
-			log.WithError(err).Error("failed to restore previous working directory")
-		}
 		if err := f.Close(); err != nil {
 			log.WithError(err).Errorf("failed to close file '%s'", absPath)
 		}
-- 
2.43.0


From 223437bdb4c8ce0121fe6eb99d16490a053e4b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:05 +0000
Subject: [PATCH 007/108] fix: do not alter the attributes of the configuration
 while rendering

Attributes declared in a document leaked into the conversion of the following documents
when the same configuration was used (and caused data races when used concurrently).
---
 pkg/renderer/sgml/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index e284204..78ba245 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -24,7 +24,7 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 	ctx := &context{
 		config:            config,
 		counters:          make(map[string]int),
-		attributes:        config.Attributes,
+		attributes:        config.Attributes.Clone(), // do not alter the attributes of the caller
 		elementReferences: doc.ElementReferences,
 		hasHeader:         header != nil,
 	}
-- 
2.43.0


From 97e01b835004eabf34aa7744935b0944b166dfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 008/108] fix: let the attributes of the caller win while
 rendering

A declaration or reset in the document, or the default captions, replaced the value
given by the caller during the rendering (but not during the parsing).
---
 pkg/renderer/sgml/context.go  | 35 +++++++++++++++++++++++++++++------
 pkg/renderer/sgml/elements.go |  6 +++---
 pkg/renderer/sgml/sgml.go     |  8 ++++----
 3 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index 78ba245..b4de92b 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -29,24 +29,47 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 		hasHeader:         header != nil,
 	}
 	// TODO: add other attributes from https://docs.asciidoctor.org/asciidoc/latest/attributes/document-attributes-ref/#builtin-attributes-i18n
-	ctx.attributes[types.AttrFigureCaption] = "Figure"
-	ctx.attributes[types.AttrExampleCaption] = "Example"
-	ctx.attributes[types.AttrTableCaption] = "Table"
-	ctx.attributes[types.AttrVersionLabel] = "version"
+	ctx.setAttribute(types.AttrFigureCaption, "Figure")
+	ctx.setAttribute(types.AttrExampleCaption, "Example")
+	ctx.setAttribute(types.AttrTableCaption, "Table")
+	ctx.setAttribute(types.AttrVersionLabel, "version")
 	// also, expand authors and revision
 	if header != nil {
 		if authors := header.Authors(); authors != nil {
-			ctx.attributes.AddAll(authors.Expand())
+			ctx.setAttributes(authors.Expand())
 		}
 
 		if revision := header.Revision(); revision != nil {
-			ctx.attributes.AddAll(revision.Expand())
+			ctx.setAttributes(revision.Expand())
 
 		}
 	}
 	return ctx
 }
 
+// setAttribute sets the given attribute, unless it was set by the caller (in the configuration)
+func (ctx *context) setAttribute(name string, value interface{}) {
+	if ctx.config.Attributes.Has(name) {
+		return
+	}
+	ctx.attributes[name] = value
+}
+
+// setAttributes sets the given attributes, except those set by the caller (in the configuration)
+func (ctx *context) setAttributes(attributes types.Attributes) {
+	for name, value := range attributes {
+		ctx.setAttribute(name, value)
+	}
+}
+
+// unsetAttribute removes the given attribute, unless it was set by the caller (in the configuration)
+func (ctx *context) unsetAttribute(name string) {
+	if ctx.config.Attributes.Has(name) {
+		return
+	}
+	delete(ctx.attributes, name)
+}
+
 func (ctx *context) UseUnicode() bool {
 	return ctx.attributes.GetAsBoolWithDefault(types.AttrUnicode, true)
 }
diff --git a/pkg/renderer/sgml/elements.go b/pkg/renderer/sgml/elements.go
index c03a25e..ad9ff86 100644
--- a/pkg/renderer/sgml/elements.go
+++ b/pkg/renderer/sgml/elements.go
@@ -103,13 +103,13 @@ func (r *sgmlRenderer) renderElement(ctx *context, element interface{}) (string,
 	case *types.PredefinedAttribute:
 		return r.renderPredefinedAttribute(e)
 	case *types.AttributeDeclaration:
-		ctx.attributes[e.Name] = e.Value
+		ctx.setAttribute(e.Name, e.Value)
 		return "", nil
 	case *types.AttributeReset:
-		delete(ctx.attributes, e.Name)
+		ctx.unsetAttribute(e.Name)
 		return "", nil
 	case *types.FrontMatter:
-		ctx.attributes.AddAll(e.Attributes)
+		ctx.setAttributes(e.Attributes)
 		return "", nil
 	default:
 		return "", errors.Errorf("unsupported type of element: %T", element)
diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index 04a604b..b68f053 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -53,9 +53,9 @@ func Render(doc *types.Document, config *configuration.Configuration, output io.
 		for _, e := range header.Elements {
 			switch e := e.(type) {
 			case *types.AttributeDeclaration:
-				ctx.attributes[e.Name] = e.Value
+				ctx.setAttribute(e.Name, e.Value)
 			case *types.AttributeReset:
-				delete(ctx.attributes, e.Name)
+				ctx.unsetAttribute(e.Name)
 			}
 		}
 	}
@@ -64,9 +64,9 @@ elements:
 	for _, e := range doc.Elements {
 		switch e := e.(type) {
 		case *types.AttributeDeclaration:
-			ctx.attributes[e.Name] = e.Value
+			ctx.setAttribute(e.Name, e.Value)
 		case *types.AttributeReset:
-			delete(ctx.attributes, e.Name)
+			ctx.unsetAttribute(e.Name)
 		default:
 			break elements
 		}
-- 
2.43.0


From 749bb14be8d53aee507dc574cc2768aac0204e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 009/108] fix: copy the attributes given to WithAttributes

The map of the caller was retained and modified by the other settings, so that
configurations made from the same map interfered. It also caused a write to a nil map when
no attribute was given.
---
 pkg/configuration/configuration.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/configuration/configuration.go b/pkg/configuration/configuration.go
index 69ab6c2..262539e 100644
--- a/pkg/configuration/configuration.go
+++ b/pkg/configuration/configuration.go
@@ -65,7 +65,7 @@ func WithLastUpdated(value time.Time) Setting {
 // WithAttributes function to set the `attribute overrides`
 func WithAttributes(attrs map[string]interface{}) Setting {
 	return func(config *Configuration) {
-		config.Attributes = attrs
+		config.Attributes = types.Attributes(attrs).Clone() // other settings should not alter the given attributes
 	}
 }
 
-- 
2.43.0


From 2cd2704c9195863756f6b9927cc2791db77070dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 010/108] fix: do not alter the configuration of the caller

The last-updated time and the document type of one document were retained in the
configuration and applied to the following ones.
---
 libasciidoc.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/libasciidoc.go b/libasciidoc.go
index 91de0a4..f40d3be 100644
--- a/libasciidoc.go
+++ b/libasciidoc.go
@@ -41,8 +41,9 @@ func ConvertFile(output io.Writer, config *configuration.Configuration) (types.M
 	if err != nil {
 		return types.Metadata{}, errors.Wrapf(err, "error opening %s", config.Filename)
 	}
-	config.LastUpdated = stat.ModTime()
-	return Convert(file, output, config)
+	c := *config // do not alter the configuration of the caller
+	c.LastUpdated = stat.ModTime()
+	return Convert(file, output, &c)
 }
 
 // Convert converts the content of the given reader `r` into a full output document, written in the given writer `output`.
@@ -79,7 +80,10 @@ func Convert(source io.Reader, output io.Writer, config *configuration.Configura
 	if len(problems) > 0 {
 		// if any problem found, change the doctype to render the document as a regular article
 		log.Warnf("changing doctype to 'article' because problems were found in the document: %v", problems)
-		config.Attributes[types.AttrDocType] = "article" // switch to `article` rendering (in case it was a manpage with problems)
+		c := *config // do not alter the configuration of the caller
+		c.Attributes = config.Attributes.Clone()
+		c.Attributes[types.AttrDocType] = "article" // switch to `article` rendering (in case it was a manpage with problems)
+		config = &c
 		for _, problem := range problems {
 			switch problem.Severity {
 			case validator.Error:
-- 
2.43.0


From e9738b9721ae09af917a5004813b07398784b79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 011/108] fix: validate manpages without the expected sections

Validation of a manpage with less than 2 elements caused an index out of range, and a
"Name" section whose only element was not a paragraph caused the rendering to panic.
---
 pkg/validator/validator.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pkg/validator/validator.go b/pkg/validator/validator.go
index b706076..7732e3b 100644
--- a/pkg/validator/validator.go
+++ b/pkg/validator/validator.go
@@ -49,17 +49,17 @@ func validateManpage(doc *types.Document) []Problem {
 		})
 	}
 	elements := doc.BodyElements()
-	if nameSection, ok := assertThatElement(elements[0]).isSection(withLevel(1), withTitle("name")); !ok {
+	if nameSection, ok := assertThatElement(elementAt(elements, 0)).isSection(withLevel(1), withTitle("name")); !ok {
 		problems = append(problems, Problem{
 			Severity: Error,
 			Message:  "manpage document is missing the 'Name' section",
 		})
-	} else if ok := assertThatElements(nameSection.Elements).haveCount(1); !ok {
+	} else if ok := assertThatElements(nameSection.Elements).haveSingleParagraph(); !ok {
 		problems = append(problems, Problem{
 			Severity: Error,
 			Message:  "'Name' section should contain a single paragraph",
 		})
-	} else if _, ok := assertThatElement(elements[1]).isSection(withLevel(1), withTitle("synopsis")); !ok {
+	} else if _, ok := assertThatElement(elementAt(elements, 1)).isSection(withLevel(1), withTitle("synopsis")); !ok {
 		problems = append(problems, Problem{
 			Severity: Error,
 			Message:  "manpage document is missing the 'Synopsis' section",
@@ -120,6 +120,18 @@ type elementsAssertion struct {
 	elements []interface{}
 }
 
-func (e elementsAssertion) haveCount(count int) bool {
-	return len(e.elements) == count
+func (e elementsAssertion) haveSingleParagraph() bool {
+	if len(e.elements) != 1 {
+		return false
+	}
+	_, ok := e.elements[0].(*types.Paragraph)
+	return ok
+}
+
+// elementAt returns the element at the given index, or nil if there is none
+func elementAt(elements []interface{}, index int) interface{} {
+	if index < len(elements) {
+		return elements[index]
+	}
+	return nil
 }
-- 
2.43.0


From 6ea34f1ea949edc49491733b89f561e5dbb89031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 012/108] fix: render manpages which do not have the expected
 sections as articles

A document which declares itself as a manpage is not validated, and caused a panic
unless its first element was a section starting with a paragraph.
---
 pkg/renderer/sgml/sgml.go | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index b68f053..5893d13 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -216,7 +216,13 @@ func trimLineFeedSuffix(content string) string {
 func (r *sgmlRenderer) splitAndRender(ctx *context, doc *types.Document) (string, string, error) {
 	switch ctx.attributes.GetAsStringWithDefault(types.AttrDocType, "article") {
 	case "manpage":
-		return r.splitAndRenderForManpage(ctx, doc)
+		elements := doc.BodyElements()
+		if nameSection, description, ok := lookupManpageName(elements); ok {
+			return r.splitAndRenderForManpage(ctx, doc, nameSection, description, elements[1:])
+		}
+		// the doctype may have been set in a document which was not validated as a manpage
+		log.Warn("rendering the document as an article: the manpage has no 'Name' section with a paragraph")
+		return r.splitAndRenderForArticle(ctx, doc)
 	default:
 		return r.splitAndRenderForArticle(ctx, doc)
 	}
@@ -239,30 +245,41 @@ func (r *sgmlRenderer) splitAndRenderForArticle(ctx *context, doc *types.Documen
 	return renderedHeader, renderedContent, nil
 }
 
+// lookupManpageName returns the 'Name' section and its first paragraph
+func lookupManpageName(elements []interface{}) (*types.Section, *types.Paragraph, bool) {
+	if len(elements) == 0 {
+		return nil, nil, false
+	}
+	nameSection, ok := elements[0].(*types.Section)
+	if !ok || len(nameSection.Elements) == 0 {
+		return nil, nil, false
+	}
+	description, ok := nameSection.Elements[0].(*types.Paragraph)
+	return nameSection, description, ok
+}
+
 // splits the document with the header elements on one side
 // and the other elements (table of contents, with preamble, content) on the other side
-func (r *sgmlRenderer) splitAndRenderForManpage(ctx *context, doc *types.Document) (string, string, error) {
+func (r *sgmlRenderer) splitAndRenderForManpage(ctx *context, doc *types.Document, nameSection *types.Section, description *types.Paragraph, elements []interface{}) (string, string, error) {
 	log.Debugf("rendering manpage (within HTML/Body: %t)", ctx.config.WrapInHTMLBodyElement)
-	elements := doc.BodyElements()
-	nameSection := elements[0].(*types.Section) // TODO: enforce
 	if ctx.config.WrapInHTMLBodyElement {
 		header, _ := doc.Header()
-		renderedHeader, err := r.renderManpageHeader(ctx, header, nameSection)
+		renderedHeader, err := r.renderManpageHeader(ctx, header, nameSection, description)
 		if err != nil {
 			return "", "", err
 		}
-		renderedContent, err := r.renderDocumentBody(ctx, elements[1:], doc.TableOfContents, doc.Footnotes)
+		renderedContent, err := r.renderDocumentBody(ctx, elements, doc.TableOfContents, doc.Footnotes)
 		if err != nil {
 			return "", "", err
 		}
 		return renderedHeader, renderedContent, nil
 	}
 	// in that case, we still want to display the name section
-	renderedHeader, err := r.renderManpageHeader(ctx, nil, nameSection)
+	renderedHeader, err := r.renderManpageHeader(ctx, nil, nameSection, description)
 	if err != nil {
 		return "", "", err
 	}
-	renderedContent, err := r.renderDocumentBody(ctx, elements[1:], doc.TableOfContents, doc.Footnotes)
+	renderedContent, err := r.renderDocumentBody(ctx, elements, doc.TableOfContents, doc.Footnotes)
 	if err != nil {
 		return "", "", err
 	}
@@ -347,7 +364,7 @@ func (r *sgmlRenderer) renderDocumentHeaderTitle(ctx *context, header *types.Doc
 	return r.renderElements(ctx, header.Title)
 }
 
-func (r *sgmlRenderer) renderManpageHeader(ctx *context, header *types.DocumentHeader, nameSection *types.Section) (string, error) {
+func (r *sgmlRenderer) renderManpageHeader(ctx *context, header *types.DocumentHeader, nameSection *types.Section, description *types.Paragraph) (string, error) {
 	renderedHeader, err := r.renderDocumentHeaderTitle(ctx, header)
 	if err != nil {
 		return "", err
@@ -356,7 +373,6 @@ func (r *sgmlRenderer) renderManpageHeader(ctx *context, header *types.DocumentH
 	if err != nil {
 		return "", err
 	}
-	description := nameSection.Elements[0].(*types.Paragraph) // TODO: type check
 	if description.Attributes == nil {
 		description.Attributes = types.Attributes{}
 	}
-- 
2.43.0


From 90ad72f8c23f96cb66a9c926358268f58978a78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:32 +0000
Subject: [PATCH 013/108] fix: support authors without name

An author with an email only caused a nil pointer dereference.
---
 pkg/types/types.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 55e71b4..2c5e130 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -331,7 +331,9 @@ elements:
 				if email, ok := e.Value.(string); ok {
 					if result == nil {
 						result = DocumentAuthors{
-							&DocumentAuthor{},
+							&DocumentAuthor{
+								DocumentAuthorFullName: &DocumentAuthorFullName{},
+							},
 						}
 					}
 					result[0].Email = email
@@ -490,7 +492,9 @@ type DocumentAuthor struct {
 
 // NewDocumentAuthor initializes a new DocumentAuthor
 func NewDocumentAuthor(fullName, email interface{}) (*DocumentAuthor, error) {
-	author := &DocumentAuthor{}
+	author := &DocumentAuthor{
+		DocumentAuthorFullName: &DocumentAuthorFullName{},
+	}
 	if fullName, ok := fullName.(*DocumentAuthorFullName); ok {
 		author.DocumentAuthorFullName = fullName
 	}
-- 
2.43.0


From 17c1d6701b662b83485a5a309d5c7bf61849d240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 014/108] fix: reference the sections whose title is empty

They were given the same identifier, and the conversion failed if there was a table of
contents.
---
 pkg/types/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 2c5e130..5c6a6c7 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2579,8 +2579,8 @@ var _ Referencable = &Section{}
 
 func (s *Section) Reference(refs ElementReferences) {
 	id := s.Attributes.GetAsStringWithDefault(AttrID, "")
-	if id != "" && s.Title != nil {
-		refs[id] = s.Title
+	if id != "" {
+		refs[id] = s.Title // may be empty (once attributes are substituted)
 	}
 }
 
-- 
2.43.0


From b242dadfc125734f6a8c2bb02d30ac4a6eee4541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 015/108] fix: support an empty title for the table of contents

The conversion failed if the attribute had no value.
---
 pkg/renderer/sgml/table_of_contents.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/renderer/sgml/table_of_contents.go b/pkg/renderer/sgml/table_of_contents.go
index ba14ddf..20c77f1 100644
--- a/pkg/renderer/sgml/table_of_contents.go
+++ b/pkg/renderer/sgml/table_of_contents.go
@@ -101,6 +101,8 @@ func (r *sgmlRenderer) renderTableOfContentsTitle(ctx *context) (string, error)
 		return "Table of Contents", nil // default value // TODO: use a constant?
 	}
 	switch title := title.(type) {
+	case nil:
+		return "", nil // attribute without value
 	case string:
 		return title, nil
 	case []interface{}:
-- 
2.43.0


From 6b6e04dbdb05e43acf7994bec484ec17f9ed6d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 016/108] fix: support references to attributes whose value is
 not a text

A reference to an empty attribute in a section title, or to an attribute such as
"authors", caused the whole conversion to fail.
---
 .../document_processing_apply_substitutions.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 61a53e0..157dd7c 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -559,11 +559,29 @@ func valueForAttributeRef(ctx *ParseContext, a *types.AttributeReference) (inter
 		return s, true, err
 	case *types.DocumentAuthorFullName:
 		return v.FullName(), true, nil
+	case types.DocumentAuthors:
+		return authorNames(v), true, nil
+	case []*types.DocumentAuthor:
+		return authorNames(v), true, nil
+	case *types.DocumentRevision:
+		return v.Revnumber, true, nil
+	case nil:
+		return "", true, nil // attribute without value
+	case bool, int, int64, float64:
+		return fmt.Sprint(v), true, nil // set by the caller (or in the front-matter)
 	default:
 		return v, true, nil
 	}
 }
 
+func authorNames(authors []*types.DocumentAuthor) string {
+	names := make([]string, len(authors))
+	for i, author := range authors {
+		names[i] = author.FullName()
+	}
+	return strings.Join(names, ", ")
+}
+
 func valueForCounter(ctx *ParseContext, c *types.CounterSubstitution) (string, error) {
 	counter := ctx.counters[c.Name]
 	if counter == nil {
-- 
2.43.0


From 184ea9ac3effc48f49a58a9728d88b4976243520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 017/108] fix: support section titles which are empty once
 attributes are substituted

It caused an index out of range.
---
 pkg/types/types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 5c6a6c7..306b918 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2497,6 +2497,10 @@ func (s *Section) SetTitle(title []interface{}) {
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("setting section title: %s", spew.Sdump(title))
 	}
+	if len(title) == 0 {
+		s.Title = nil // may happen once attributes are substituted
+		return
+	}
 	// inline ID attribute foud at the end is *moved* at the attributes level of the section
 	if id, ok := title[len(title)-1].(*Attribute); ok {
 		sectionID := stringify(id.Value)
-- 
2.43.0


From c2b6eb053b819d6d934e2497c3bcaf4e42fe9937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 018/108] fix: collect the footnotes wherever they occur

Footnotes in delimited blocks, tables, quoted text, titles, elements attached to lists, or
other footnotes were not collected, and caused the conversion to fail.
---
 pkg/types/types.go | 134 +++++++++++++++++++++++++++++++++------------
 1 file changed, 99 insertions(+), 35 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 306b918..32546b7 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -384,6 +384,14 @@ func (h *DocumentHeader) SetTitle(title []interface{}) {
 	h.Title = title
 }
 
+var _ WithFootnotes = &DocumentHeader{}
+
+// SubstituteFootnotes replaces the footnotes in the title
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (h *DocumentHeader) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotes(h.Title, notes)
+}
+
 var _ WithElements = &DocumentHeader{}
 
 func (h *DocumentHeader) GetElements() []interface{} {
@@ -1021,6 +1029,16 @@ type ListContinuation struct {
 	Element interface{}
 }
 
+var _ WithFootnotes = &ListContinuation{}
+
+// SubstituteFootnotes replaces the footnotes in the attached element
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (c *ListContinuation) SubstituteFootnotes(notes *Footnotes) {
+	if e, ok := c.Element.(WithFootnotes); ok {
+		e.SubstituteFootnotes(notes)
+	}
+}
+
 func NewListContinuation(offset int, Element interface{}) (*ListContinuation, error) {
 	return &ListContinuation{
 		Offset:  offset,
@@ -1151,11 +1169,8 @@ var _ WithFootnotes = &CalloutListElement{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (e *CalloutListElement) SubstituteFootnotes(notes *Footnotes) {
-	for _, e := range e.Elements {
-		if e, ok := e.(WithFootnotes); ok {
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	substituteFootnotesInTitle(e.Attributes, notes)
+	substituteFootnotes(e.Elements, notes)
 }
 
 const (
@@ -1284,11 +1299,8 @@ var _ WithFootnotes = &OrderedListElement{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (e *OrderedListElement) SubstituteFootnotes(notes *Footnotes) {
-	for _, e := range e.Elements {
-		if e, ok := e.(WithFootnotes); ok {
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	substituteFootnotesInTitle(e.Attributes, notes)
+	substituteFootnotes(e.Elements, notes)
 }
 
 // OrderedListElementPrefix the prefix used to construct an OrderedListElement
@@ -1450,11 +1462,8 @@ var _ WithFootnotes = &UnorderedListElement{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (e *UnorderedListElement) SubstituteFootnotes(notes *Footnotes) {
-	for _, e := range e.Elements {
-		if e, ok := e.(WithFootnotes); ok {
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	substituteFootnotesInTitle(e.Attributes, notes)
+	substituteFootnotes(e.Elements, notes)
 }
 
 // UnorderedListElementCheckStyle the check style that applies on an unordered list item
@@ -1714,16 +1723,9 @@ var _ WithFootnotes = &LabeledListElement{}
 // SubstituteFootnotes replaces the footnotes in the list element
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (e *LabeledListElement) SubstituteFootnotes(notes *Footnotes) {
-	for i, element := range e.Term {
-		if note, ok := element.(*Footnote); ok {
-			e.Term[i] = notes.Reference(note)
-		}
-	}
-	for _, element := range e.Elements {
-		if e, ok := element.(WithFootnotes); ok {
-			e.SubstituteFootnotes(notes)
-		}
-	}
+	substituteFootnotesInTitle(e.Attributes, notes)
+	substituteFootnotes(e.Term, notes)
+	substituteFootnotes(e.Elements, notes)
 }
 
 // ------------------------------------------
@@ -1830,11 +1832,8 @@ var _ WithFootnotes = &Paragraph{}
 // SubstituteFootnotes replaces the footnotes in the paragraph lines
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (p *Paragraph) SubstituteFootnotes(notes *Footnotes) {
-	for i, element := range p.Elements {
-		if note, ok := element.(*Footnote); ok {
-			p.Elements[i] = notes.Reference(note)
-		}
-	}
+	substituteFootnotesInTitle(p.Attributes, notes)
+	substituteFootnotes(p.Elements, notes)
 }
 
 // ------------------------------------------
@@ -2049,6 +2048,14 @@ func (i *ImageBlock) GetLocation() *Location {
 	return i.Location
 }
 
+var _ WithFootnotes = &ImageBlock{}
+
+// SubstituteFootnotes replaces the footnotes in the title
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (i *ImageBlock) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotesInTitle(i.Attributes, notes)
+}
+
 var _ Referencable = &ImageBlock{}
 
 func (i *ImageBlock) Reference(refs ElementReferences) {
@@ -2169,6 +2176,29 @@ type WithFootnotes interface {
 	SubstituteFootnotes(existing *Footnotes)
 }
 
+// substituteFootnotes replaces the footnotes in the given elements (and in the elements that they contain)
+// with footnote references.
+func substituteFootnotes(elements []interface{}, notes *Footnotes) {
+	for i, element := range elements {
+		switch e := element.(type) {
+		case *Footnote:
+			elements[i] = notes.Reference(e)
+		case WithFootnotes:
+			e.SubstituteFootnotes(notes)
+		}
+	}
+}
+
+// substituteFootnotesInTitle replaces the footnotes in the title of a block
+func substituteFootnotesInTitle(attributes Attributes, notes *Footnotes) {
+	switch title := attributes[AttrTitle].(type) {
+	case *Footnote:
+		attributes[AttrTitle] = notes.Reference(title)
+	case []interface{}:
+		substituteFootnotes(title, notes)
+	}
+}
+
 // Footnotes the footnotes of a document. Footnotes are "collected"
 // during the parsing phase and displayed at the bottom of the document
 // during the rendering.
@@ -2210,6 +2240,7 @@ func (f *Footnotes) Reference(note *Footnote) *FootnoteReference {
 		note.ID = f.sequence.nextVal()
 		f.Notes = append(f.Notes, note)
 		r.ID = note.ID
+		substituteFootnotes(note.Elements, f) // footnotes in this footnote
 	} else if id, found := f.indexOf(note); found {
 		r.ID = id
 		r.Duplicate = true
@@ -2398,6 +2429,15 @@ func (b *DelimitedBlock) mapAttributes() {
 	}
 }
 
+var _ WithFootnotes = &DelimitedBlock{}
+
+// SubstituteFootnotes replaces the footnotes in the block (title and elements)
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (b *DelimitedBlock) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotesInTitle(b.Attributes, notes)
+	substituteFootnotes(b.Elements, notes)
+}
+
 var _ Referencable = &DelimitedBlock{}
 
 func (b *DelimitedBlock) Reference(refs ElementReferences) {
@@ -2601,11 +2641,7 @@ var _ WithFootnotes = &Section{}
 // SubstituteFootnotes replaces the footnotes in the section title
 // with footnote references. The footnotes are stored in the given 'notes' param
 func (s *Section) SubstituteFootnotes(notes *Footnotes) {
-	for i, element := range s.Title {
-		if note, ok := element.(*Footnote); ok {
-			s.Title[i] = notes.Reference(note)
-		}
-	}
+	substituteFootnotes(s.Title, notes)
 }
 
 // ------------------------------------------
@@ -2785,6 +2821,14 @@ func NewQuotedText(kind QuotedTextKind, elements ...interface{}) (*QuotedText, e
 	}, nil
 }
 
+var _ WithFootnotes = &QuotedText{}
+
+// SubstituteFootnotes replaces the footnotes in the quoted text
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (t *QuotedText) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotes(t.Elements, notes)
+}
+
 var _ WithElements = &QuotedText{}
 
 // GetElements returns this QuotedText's elements
@@ -3891,6 +3935,16 @@ func (t *Table) rows() ([]interface{}, bool, bool) {
 	return rows, header, footer
 }
 
+var _ WithFootnotes = &Table{}
+
+// SubstituteFootnotes replaces the footnotes in the title and in the cells
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (t *Table) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotesInTitle(t.Attributes, notes)
+	rows, _, _ := t.rows()
+	substituteFootnotes(rows, notes)
+}
+
 var _ Referencable = &Table{}
 
 func (t *Table) Reference(refs ElementReferences) {
@@ -4092,6 +4146,16 @@ func NewTableRow(elements []interface{}) (*TableRow, error) {
 	}, nil
 }
 
+var _ WithFootnotes = &TableRow{}
+
+// SubstituteFootnotes replaces the footnotes in the cells
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (r *TableRow) SubstituteFootnotes(notes *Footnotes) {
+	for _, c := range r.Cells {
+		substituteFootnotes(c.Elements, notes)
+	}
+}
+
 var _ WithElements = &TableRow{}
 
 func (r *TableRow) GetAttributes() Attributes {
-- 
2.43.0


From c3f0078f7160793d8e2d684ea954d6920d865740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 019/108] fix: render all kinds of elements in verse paragraphs

Special characters caused a nil function call, and other elements such as cross references
caused the conversion to fail.
---
 pkg/renderer/sgml/delimited_block_verse.go | 2 +-
 pkg/renderer/sgml/render_plain_text.go     | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/renderer/sgml/delimited_block_verse.go b/pkg/renderer/sgml/delimited_block_verse.go
index 6254420..d7b1bef 100644
--- a/pkg/renderer/sgml/delimited_block_verse.go
+++ b/pkg/renderer/sgml/delimited_block_verse.go
@@ -46,7 +46,7 @@ func (r *sgmlRenderer) renderVerseBlock(ctx *context, b *types.DelimitedBlock) (
 
 func (r *sgmlRenderer) renderVerseParagraph(ctx *context, p *types.Paragraph) (string, error) {
 	log.Debug("rendering verse paragraph...")
-	content, err := RenderParagraphElements(p)
+	content, err := r.renderElements(ctx, p.Elements)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render verse paragraph lines")
 	}
diff --git a/pkg/renderer/sgml/render_plain_text.go b/pkg/renderer/sgml/render_plain_text.go
index 9a9c4fd..ff318d8 100644
--- a/pkg/renderer/sgml/render_plain_text.go
+++ b/pkg/renderer/sgml/render_plain_text.go
@@ -30,7 +30,9 @@ func WithoutEscape() Option {
 }
 
 func RenderParagraphElements(p *types.Paragraph) (string, error) {
-	r := &plaintextRenderer{}
+	r := &plaintextRenderer{
+		escape: escapeString,
+	}
 	buf := &strings.Builder{}
 	for _, e := range p.Elements {
 		renderedElement, err := r.render(e)
-- 
2.43.0


From 4b293ca254fec6628a46563cb3b72c1b392d2dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 020/108] fix: support predefined attributes in the title of
 the document

The conversion failed.
---
 pkg/renderer/sgml/render_plain_text.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/renderer/sgml/render_plain_text.go b/pkg/renderer/sgml/render_plain_text.go
index ff318d8..04e2509 100644
--- a/pkg/renderer/sgml/render_plain_text.go
+++ b/pkg/renderer/sgml/render_plain_text.go
@@ -72,6 +72,8 @@ func (r *plaintextRenderer) render(element interface{}) (string, error) {
 		return r.escape(e.Name), nil
 	case *types.Symbol:
 		return r.renderSymbol(e)
+	case *types.PredefinedAttribute:
+		return predefinedAttribute(e.Name), nil
 	case *types.StringElement:
 		return e.Content, nil
 	case *types.FootnoteReference:
-- 
2.43.0


From cb96bd06bca13fbcd88269f81987fccb1e0be031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 021/108] fix: support tables without column or with a single
 row

A null column multiplier, or a table whose only row is the header or the footer, caused a
division by zero or an index out of range.
---
 pkg/types/types.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 32546b7..23519f0 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -3902,17 +3902,20 @@ func (t *Table) SetColumnDefinitions(cols []interface{}) {
 			size += c.Multiplier
 		}
 	}
+	if size <= 0 {
+		return // no (valid) column definition
+	}
 	log.Debugf("re-organizing table in rows of %d cells", size)
 	// reorganize rows/columns
 
 	rows, header, footer := t.rows()
 	t.Rows = organizeTableCells(rows, size)
 	// restore header and footer
-	if header || t.Attributes.HasOption("header") {
+	if len(t.Rows) > 0 && (header || t.Attributes.HasOption("header")) {
 		t.Header = t.Rows[0]
 		t.Rows = t.Rows[1:]
 	}
-	if footer || t.Attributes.HasOption("footer") {
+	if len(t.Rows) > 0 && (footer || t.Attributes.HasOption("footer")) {
 		t.Footer = t.Rows[len(t.Rows)-1]
 		t.Rows = t.Rows[:len(t.Rows)-1]
 	}
@@ -4079,11 +4082,16 @@ func (t *Table) Columns() ([]*TableColumn, error) {
 	}
 	// add empty entries if the first row has more cells than the number of column than what's specified in the `cols` attribute
 	// (also works when the `cols` attribute is missing/empty)
-	if len(t.Rows) > 0 && len(t.Rows[0].Cells) > len(result) {
-		m := len(t.Rows[0].Cells) - len(result)
-		for i := 0; i < m; i++ {
-			col := newDefaultTableColumn()
-			result = append(result, col)
+	// and use the header or the footer if there is no other row
+	rows, _, _ := t.rows()
+	if len(t.Rows) > 0 {
+		rows = []interface{}{t.Rows[0]}
+	}
+	for _, row := range rows {
+		if row, ok := row.(*TableRow); ok {
+			for len(result) < len(row.Cells) {
+				result = append(result, newDefaultTableColumn())
+			}
 		}
 	}
 	// unless table is set with "full autowidth"
-- 
2.43.0


From 8544f78fe91c333514491f8db7c14b0c47234dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 022/108] fix: render tables which have a header or a footer
 only

Their content was dropped.
---
 pkg/renderer/sgml/html5/table.go  | 2 +-
 pkg/renderer/sgml/xhtml5/table.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/renderer/sgml/html5/table.go b/pkg/renderer/sgml/html5/table.go
index 5d3e8c7..7fc5b22 100644
--- a/pkg/renderer/sgml/html5/table.go
+++ b/pkg/renderer/sgml/html5/table.go
@@ -10,7 +10,7 @@ const (
 		"{{ if .Width }} style=\"width: {{ .Width }}%;\"{{ end }}" +
 		">\n" +
 		"{{ if .Title }}<caption class=\"title\">{{ .Caption }}{{ .Title }}</caption>\n{{ end }}" +
-		"{{ if .Body }}" +
+		"{{ if or .Header .Body .Footer }}" +
 		"<colgroup>\n" +
 		"{{ range $i, $w := .Columns }}<col" +
 		"{{ if $w.Width }} style=\"width: {{ $w.Width }}%;\"{{ end }}" +
diff --git a/pkg/renderer/sgml/xhtml5/table.go b/pkg/renderer/sgml/xhtml5/table.go
index 8ffd7db..5123ba7 100644
--- a/pkg/renderer/sgml/xhtml5/table.go
+++ b/pkg/renderer/sgml/xhtml5/table.go
@@ -10,7 +10,7 @@ const (
 		"{{ if .Width }} style=\"width: {{ .Width }}%;\"{{ end }}" +
 		">\n" +
 		"{{ if .Title }}<caption class=\"title\">{{ .Caption }}{{ .Title }}</caption>\n{{ end }}" +
-		"{{ if .Body }}" +
+		"{{ if or .Header .Body .Footer }}" +
 		"<colgroup>\n" +
 		"{{ range $i, $w := .Columns }}<col" +
 		"{{ if $w.Width }} style=\"width: {{ $w.Width }}%;\"{{ end }}" +
-- 
2.43.0


From 38d2b57d1044cfbc16193a63ac2b647dfa04b18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 023/108] fix: render the roles of literal blocks within their
 class

The roles were emitted after the closing quote of the `class` attribute.
---
 pkg/renderer/sgml/html5/delimited_block_literal_tmpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/html5/delimited_block_literal_tmpl.go b/pkg/renderer/sgml/html5/delimited_block_literal_tmpl.go
index 58802e1..1bde785 100644
--- a/pkg/renderer/sgml/html5/delimited_block_literal_tmpl.go
+++ b/pkg/renderer/sgml/html5/delimited_block_literal_tmpl.go
@@ -2,7 +2,7 @@ package html5
 
 const (
 	literalBlockTmpl = `<div {{ if .ID }}id="{{ .ID }}" {{ end }}` +
-		"class=\"literalblock\"{{ if .Roles }} {{ .Roles }}{{ end }}>\n" +
+		"class=\"literalblock{{ if .Roles }} {{ .Roles }}{{ end }}\">\n" +
 		"{{ if .Title }}<div class=\"title\">{{ .Title }}</div>\n{{ end }}" +
 		"<div class=\"content\">\n" +
 		"<pre>{{ .Content }}</pre>\n" +
-- 
2.43.0


From 522c0c059735379e60e16e0b9660b67bf1326f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 024/108] fix: render icons without alternate text

The closing quote of the `alt` attribute was emitted even when there was none to render.
---
 pkg/renderer/sgml/html5/icon.go  | 2 +-
 pkg/renderer/sgml/xhtml5/icon.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/renderer/sgml/html5/icon.go b/pkg/renderer/sgml/html5/icon.go
index d9a35a5..c35eeda 100644
--- a/pkg/renderer/sgml/html5/icon.go
+++ b/pkg/renderer/sgml/html5/icon.go
@@ -12,7 +12,7 @@ const (
 		`</span>`
 
 	iconImageTmpl = `<img src="{{ .Src }}"` +
-		`{{ if .Alt }} alt="{{ .Alt }}{{ end }}"` +
+		`{{ if .Alt }} alt="{{ .Alt }}"{{ end }}` +
 		`{{ if .Width }} width="{{ .Width }}"{{ end }}` +
 		`{{ if .Height }} height="{{ .Height }}"{{ end }}` +
 		`{{ if .Title }} title="{{ .Title }}"{{ end }}` +
diff --git a/pkg/renderer/sgml/xhtml5/icon.go b/pkg/renderer/sgml/xhtml5/icon.go
index d431554..a9202e6 100644
--- a/pkg/renderer/sgml/xhtml5/icon.go
+++ b/pkg/renderer/sgml/xhtml5/icon.go
@@ -9,7 +9,7 @@ const (
 	// Only the img tag needs to be made XHTML safe.
 
 	iconImageTmpl = `<img src="{{ .Src }}"` +
-		`{{ if .Alt }} alt="{{ .Alt }}{{ end }}"` +
+		`{{ if .Alt }} alt="{{ .Alt }}"{{ end }}` +
 		`{{ if .Width }} width="{{ .Width }}"{{ end }}` +
 		`{{ if .Height }} height="{{ .Height }}"{{ end }}` +
 		`{{ if .Title }} title="{{ .Title }}"{{ end }}` +
-- 
2.43.0


From 70f72a0996f067832f7f1600ecb90a41d732d1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 025/108] fix: emit well-formed markdown quotes with the XHTML
 backend

The template inherited from the HTML backend contains an unclosed `<br>`.
---
 .../delimited_block_markdown_quote_tmpl.go      | 17 +++++++++++++++++
 pkg/renderer/sgml/xhtml5/xhtml5.go              |  1 +
 2 files changed, 18 insertions(+)
 create mode 100644 pkg/renderer/sgml/xhtml5/delimited_block_markdown_quote_tmpl.go

diff --git a/pkg/renderer/sgml/xhtml5/delimited_block_markdown_quote_tmpl.go b/pkg/renderer/sgml/xhtml5/delimited_block_markdown_quote_tmpl.go
new file mode 100644
index 0000000..1ae08a8
--- /dev/null
+++ b/pkg/renderer/sgml/xhtml5/delimited_block_markdown_quote_tmpl.go
@@ -0,0 +1,17 @@
+package xhtml5
+
+const (
+	markdownQuoteBlockTmpl = `<div {{ if .ID }}id="{{ .ID }}" {{ end }}` +
+		"class=\"quoteblock{{ if .Roles }} {{ .Roles }}{{ end }}\">\n" +
+		"{{ if .Title }}<div class=\"title\">{{ .Title }}</div>\n{{ end }}" +
+		"<blockquote>\n" +
+		"{{ if .Content }}<div class=\"paragraph\">\n" +
+		"<p>{{ .Content }}</p>\n" +
+		"</div>\n{{ end }}" +
+		"</blockquote>\n" +
+		"{{ if .Attribution.First }}<div class=\"attribution\">\n" +
+		"&#8212; {{ .Attribution.First }}" +
+		"{{ if .Attribution.Second }}<br/>\n<cite>{{ .Attribution.Second }}</cite>{{ end }}\n" +
+		"</div>\n{{ end }}" +
+		"</div>\n"
+)
diff --git a/pkg/renderer/sgml/xhtml5/xhtml5.go b/pkg/renderer/sgml/xhtml5/xhtml5.go
index a379e0e..b4eac58 100644
--- a/pkg/renderer/sgml/xhtml5/xhtml5.go
+++ b/pkg/renderer/sgml/xhtml5/xhtml5.go
@@ -22,6 +22,7 @@ func Render(doc *types.Document, config *configuration.Configuration, output io.
 	templates.IconImage = iconImageTmpl
 	templates.InlineImage = inlineImageTmpl
 	templates.LabeledListHorizontalElement = labeledListHorizontalItemTmpl
+	templates.MarkdownQuoteBlock = markdownQuoteBlockTmpl
 	templates.Table = tableTmpl
 	templates.ThematicBreak = thematicBreakTmpl
 	templates.QuoteBlock = quoteBlockTmpl
-- 
2.43.0


From 4b2c4c00c6f2cd97ee7c7cf0b2739806cc93917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 026/108] fix: render the description of the document with the
 XHTML backend

The `description` attribute was only rendered with the HTML backend.
---
 pkg/renderer/sgml/xhtml5/article.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/renderer/sgml/xhtml5/article.go b/pkg/renderer/sgml/xhtml5/article.go
index cf8983d..17ddc75 100644
--- a/pkg/renderer/sgml/xhtml5/article.go
+++ b/pkg/renderer/sgml/xhtml5/article.go
@@ -8,6 +8,7 @@ const (
 		"<meta http-equiv=\"X-UA-Compatible\" content=\"IE=edge\"/>\n" +
 		"<meta name=\"viewport\" content=\"width=device-width, initial-scale=1.0\"/>\n" +
 		"{{ if .Generator }}<meta name=\"generator\" content=\"{{ .Generator }}\"/>\n{{ end }}" +
+		"{{ if .Description }}<meta name=\"description\" content=\"{{ .Description }}\"/>\n{{ end }}" +
 		"{{ if .Authors }}<meta name=\"author\" content=\"{{ .Authors }}\"/>\n{{ end }}" +
 		"{{ range $css := .CSS }}<link type=\"text/css\" rel=\"stylesheet\" href=\"{{ $css }}\"/>\n{{ end }}" +
 		"<title>{{ .Title }}</title>\n" +
-- 
2.43.0


From 5e6e95ab21625cbe980defadb20fc27ad25ca30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 027/108] fix: emit well-formed interactive check lists with
 the XHTML backend

The checkboxes were not closed, and had an attribute without value.
---
 pkg/renderer/sgml/html5/checkbox.go  |  5 +++++
 pkg/renderer/sgml/html5/templates.go |  1 +
 pkg/renderer/sgml/paragraph.go       | 26 +++++++++++++++++++-------
 pkg/renderer/sgml/sgml_renderer.go   | 11 +++++++++++
 pkg/renderer/sgml/table.go           |  6 +++++-
 pkg/renderer/sgml/templates.go       |  1 +
 pkg/renderer/sgml/xhtml5/checkbox.go |  5 +++++
 pkg/renderer/sgml/xhtml5/xhtml5.go   |  1 +
 8 files changed, 48 insertions(+), 8 deletions(-)
 create mode 100644 pkg/renderer/sgml/html5/checkbox.go
 create mode 100644 pkg/renderer/sgml/xhtml5/checkbox.go

diff --git a/pkg/renderer/sgml/html5/checkbox.go b/pkg/renderer/sgml/html5/checkbox.go
new file mode 100644
index 0000000..15fc3af
--- /dev/null
+++ b/pkg/renderer/sgml/html5/checkbox.go
@@ -0,0 +1,5 @@
+package html5
+
+const (
+	checkboxTmpl = `<input type="checkbox" data-item-complete="{{ if .Checked }}1{{ else }}0{{ end }}"{{ if .Checked }} checked{{ end }}> `
+)
diff --git a/pkg/renderer/sgml/html5/templates.go b/pkg/renderer/sgml/html5/templates.go
index c30ba49..be1186e 100644
--- a/pkg/renderer/sgml/html5/templates.go
+++ b/pkg/renderer/sgml/html5/templates.go
@@ -20,6 +20,7 @@ var templates = sgml.Templates{
 	CalloutList:                  calloutListTmpl,
 	CalloutListElement:           calloutListElementTmpl,
 	CalloutRef:                   calloutRefTmpl,
+	Checkbox:                     checkboxTmpl,
 	DocumentDetails:              documentDetailsTmpl,
 	DocumentAuthorDetails:        documentAuthorDetailsTmpl,
 	EmbeddedParagraph:            embeddedParagraphTmpl,
diff --git a/pkg/renderer/sgml/paragraph.go b/pkg/renderer/sgml/paragraph.go
index 6c7ad27..f4cdb91 100644
--- a/pkg/renderer/sgml/paragraph.go
+++ b/pkg/renderer/sgml/paragraph.go
@@ -87,6 +87,10 @@ func (r *sgmlRenderer) renderEmbeddedParagraph(ctx *context, p *types.Paragraph,
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render embedded paragraph content")
 	}
+	checkStyle, err := r.renderCheckStyle(p.Attributes[types.AttrCheckStyle])
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render embedded paragraph content")
+	}
 	return r.execute(r.embeddedParagraph, struct {
 		Context    *context
 		CheckStyle string
@@ -95,7 +99,7 @@ func (r *sgmlRenderer) renderEmbeddedParagraph(ctx *context, p *types.Paragraph,
 	}{
 		Context:    ctx,
 		Class:      class,
-		CheckStyle: renderCheckStyle(p.Attributes[types.AttrCheckStyle]),
+		CheckStyle: checkStyle,
 		Content:    trimSpaces(content),
 	})
 }
@@ -114,22 +118,30 @@ func trimSpaces(content string) string {
 	return contentBuf.String()
 }
 
-func renderCheckStyle(style interface{}) string {
+func (r *sgmlRenderer) renderCheckStyle(style interface{}) (string, error) {
 	// default checkboxes
 	switch style {
 	case types.Checked:
-		return "&#10003; "
+		return "&#10003; ", nil
 	case types.CheckedInteractive:
-		return `<input type="checkbox" data-item-complete="1" checked> `
+		return r.renderCheckbox(true)
 	case types.Unchecked:
-		return "&#10063; "
+		return "&#10063; ", nil
 	case types.UncheckedInteractive:
-		return `<input type="checkbox" data-item-complete="0"> `
+		return r.renderCheckbox(false)
 	default:
-		return ""
+		return "", nil
 	}
 }
 
+func (r *sgmlRenderer) renderCheckbox(checked bool) (string, error) {
+	return r.execute(r.checkbox, struct {
+		Checked bool
+	}{
+		Checked: checked,
+	})
+}
+
 func (r *sgmlRenderer) renderElementTitle(ctx *context, attrs types.Attributes) (string, error) {
 	title, found := attrs[types.AttrTitle]
 	if !found {
diff --git a/pkg/renderer/sgml/sgml_renderer.go b/pkg/renderer/sgml/sgml_renderer.go
index a6ae59f..a5c0c7e 100644
--- a/pkg/renderer/sgml/sgml_renderer.go
+++ b/pkg/renderer/sgml/sgml_renderer.go
@@ -40,6 +40,9 @@ type sgmlRenderer struct {
 	calloutRefOnce sync.Once
 	calloutRefTmpl *texttemplate.Template
 
+	checkboxOnce sync.Once
+	checkboxTmpl *texttemplate.Template
+
 	embeddedParagraphOnce sync.Once
 	embeddedParagraphTmpl *texttemplate.Template
 
@@ -342,6 +345,14 @@ func (r *sgmlRenderer) calloutRef() (*texttemplate.Template, error) {
 	return r.calloutRefTmpl, err
 }
 
+func (r *sgmlRenderer) checkbox() (*texttemplate.Template, error) {
+	var err error
+	r.checkboxOnce.Do(func() {
+		r.checkboxTmpl, err = r.newTemplate("Checkbox", r.templates.Checkbox, err)
+	})
+	return r.checkboxTmpl, err
+}
+
 func (r *sgmlRenderer) embeddedParagraph() (*texttemplate.Template, error) {
 	var err error
 	r.embeddedParagraphOnce.Do(func() {
diff --git a/pkg/renderer/sgml/table.go b/pkg/renderer/sgml/table.go
index 75819f4..4173358 100644
--- a/pkg/renderer/sgml/table.go
+++ b/pkg/renderer/sgml/table.go
@@ -292,6 +292,10 @@ func (r *sgmlRenderer) renderTableCellBlock(ctx *context, element interface{}) (
 		if err != nil {
 			return "", errors.Wrap(err, "unable to render table cell paragraph content")
 		}
+		checkStyle, err := r.renderCheckStyle(e.Attributes[types.AttrCheckStyle])
+		if err != nil {
+			return "", errors.Wrap(err, "unable to render table cell paragraph content")
+		}
 		result, err := r.execute(r.embeddedParagraph, struct {
 			Context    *context
 			ID         string // TODO: not used in template?
@@ -304,7 +308,7 @@ func (r *sgmlRenderer) renderTableCellBlock(ctx *context, element interface{}) (
 			ID:         r.renderElementID(e.Attributes),
 			Title:      title,
 			Class:      "tableblock",
-			CheckStyle: renderCheckStyle(e.Attributes[types.AttrCheckStyle]),
+			CheckStyle: checkStyle,
 			Content:    string(content),
 		})
 		if err != nil {
diff --git a/pkg/renderer/sgml/templates.go b/pkg/renderer/sgml/templates.go
index 7a57551..61590b1 100644
--- a/pkg/renderer/sgml/templates.go
+++ b/pkg/renderer/sgml/templates.go
@@ -12,6 +12,7 @@ type Templates struct {
 	CalloutList                  string
 	CalloutListElement           string
 	CalloutRef                   string
+	Checkbox                     string
 	EmbeddedParagraph            string
 	DocumentDetails              string
 	DocumentAuthorDetails        string
diff --git a/pkg/renderer/sgml/xhtml5/checkbox.go b/pkg/renderer/sgml/xhtml5/checkbox.go
new file mode 100644
index 0000000..fc8be44
--- /dev/null
+++ b/pkg/renderer/sgml/xhtml5/checkbox.go
@@ -0,0 +1,5 @@
+package xhtml5
+
+const (
+	checkboxTmpl = `<input type="checkbox" data-item-complete="{{ if .Checked }}1{{ else }}0{{ end }}"{{ if .Checked }} checked="checked"{{ end }}/> `
+)
diff --git a/pkg/renderer/sgml/xhtml5/xhtml5.go b/pkg/renderer/sgml/xhtml5/xhtml5.go
index b4eac58..d51d229 100644
--- a/pkg/renderer/sgml/xhtml5/xhtml5.go
+++ b/pkg/renderer/sgml/xhtml5/xhtml5.go
@@ -15,6 +15,7 @@ func Render(doc *types.Document, config *configuration.Configuration, output io.
 	// XHTML5 overrides of HTML5.
 	templates.Article = articleTmpl
 	templates.BlockImage = blockImageTmpl
+	templates.Checkbox = checkboxTmpl
 	templates.LineBreak = lineBreakTmpl
 	templates.DocumentAuthorDetails = documentAuthorDetailsTmpl
 	templates.DocumentDetails = documentDetailsTmpl
-- 
2.43.0


From 00866cf58f6667139f5ed951a83ebff909d9bb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 028/108] fix: generate distinct ids for sections whose titles
 only differ by their case

The ids of sections are rendered in lower case, so those of sections such as
`Foo` and `foo` were the same in the output.
---
 pkg/types/types.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 23519f0..7973fbf 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2590,7 +2590,7 @@ func (s *Section) ResolveID(attrs Attributes, refs ElementReferences) error {
 			id = base + "_" + strconv.Itoa(i)
 			log.Debugf("updated section id to '%s' (to avoid duplicate refs)", s.Attributes[AttrID])
 		}
-		if _, exists := refs[id]; !exists {
+		if !isReferenced(id, refs) {
 			s.Attributes[AttrID] = id
 			break
 		}
@@ -2598,6 +2598,17 @@ func (s *Section) ResolveID(attrs Attributes, refs ElementReferences) error {
 	return nil
 }
 
+// isReferenced checks if there is a reference for the given id, regardless of its case
+// (since the ids of the sections are rendered in lower case)
+func isReferenced(id string, refs ElementReferences) bool {
+	for ref := range refs {
+		if strings.EqualFold(ref, id) {
+			return true
+		}
+	}
+	return false
+}
+
 // resolveID resolves/updates the "ID" attribute in the section (in case the title changed after some document attr substitution)
 func (s *Section) resolveID(attrs Attributes) (string, error) {
 	if s.Attributes == nil {
-- 
2.43.0


From 99257fbb0ee9c74c898ba9e055cf01ec611743aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 029/108] fix: stop parsing when the fragment with an error
 cannot be sent

The parsing routine was blocked forever if the consumer of the fragments was gone.
---
 pkg/parser/document_processing_parse_fragments.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/document_processing_parse_fragments.go b/pkg/parser/document_processing_parse_fragments.go
index c90cfea..4461feb 100644
--- a/pkg/parser/document_processing_parse_fragments.go
+++ b/pkg/parser/document_processing_parse_fragments.go
@@ -42,7 +42,11 @@ func ParseDocumentFragments(ctx *ParseContext, source io.Reader, done <-chan int
 			}
 			if err != nil {
 				log.WithError(err).Error("error while parsing")
-				resultStream <- types.NewErrorFragment(p, err)
+				select {
+				case <-done:
+					log.Debug("exiting the document parsing routine")
+				case resultStream <- types.NewErrorFragment(p, err):
+				}
 				break parsing
 			}
 			if element == nil {
-- 
2.43.0


From 296b356670b26cf9742ed4d63c6ff83e6f92d9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 030/108] fix: process the inline attributes independently of
 each other

Processing the text of a link removed the macros from the substitutions of the
attributes (and elements) which happened to be processed afterwards, and
attributes are processed in a random order.
---
 pkg/parser/document_processing_apply_substitutions.go | 1 +
 pkg/parser/document_substitutions.go                  | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 157dd7c..06da6bd 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -316,6 +316,7 @@ func reparseInlineAttributes(ctx *ParseContext, element types.WithAttributes, su
 			attrs[k] = types.Reduce(v)
 		case types.AttrInlineLinkText:
 			// same as above, but do not allow for inline macros (eg: links)
+			subs := subs.clone() // do not alter the substitutions of the other attributes
 			if err := subs.remove(Macros); err != nil {
 				return err
 			}
diff --git a/pkg/parser/document_substitutions.go b/pkg/parser/document_substitutions.go
index 53a38ad..bf7adf8 100644
--- a/pkg/parser/document_substitutions.go
+++ b/pkg/parser/document_substitutions.go
@@ -87,6 +87,14 @@ type substitutions struct {
 	sequence []string
 }
 
+func (s *substitutions) clone() *substitutions {
+	sequence := make([]string, len(s.sequence))
+	copy(sequence, s.sequence)
+	return &substitutions{
+		sequence: sequence,
+	}
+}
+
 func newSubstitutions(b types.WithElements) (*substitutions, error) {
 	// look-up the optional `subs` attribute in the element
 	attrSub, found := b.GetAttributes().GetAsString(types.AttrSubstitutions)
-- 
2.43.0


From fe016c409cc32a0fe80a991c4cdda9ce9094d98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 031/108] fix: do not render the addresses of elements

Attributes with special characters or quoted text were rendered as the addresses
of their elements when a text was expected.
---
 pkg/types/attributes.go  |  9 ++++++---
 pkg/types/types.go       |  4 ++--
 pkg/types/types_utils.go | 10 ++++++++++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/pkg/types/attributes.go b/pkg/types/attributes.go
index 2a89e9d..c10b38c 100644
--- a/pkg/types/attributes.go
+++ b/pkg/types/attributes.go
@@ -538,10 +538,13 @@ func (a Attributes) GetAsStringWithDefault(key, defaultValue string) string {
 		if value == nil {
 			return "" // nil present means attribute was reset
 		}
-		if value, ok := value.(string); ok {
+		switch value := value.(type) {
+		case string:
 			return value
-		} else if v, ok := a[key]; ok {
-			return fmt.Sprintf("%v", v)
+		case []interface{}:
+			return stringify(value) // and not the addresses of the elements
+		default:
+			return fmt.Sprintf("%v", value)
 		}
 	}
 	return defaultValue
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 7973fbf..e07d705 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2060,8 +2060,8 @@ var _ Referencable = &ImageBlock{}
 
 func (i *ImageBlock) Reference(refs ElementReferences) {
 	id := i.Attributes.GetAsStringWithDefault(AttrID, "")
-	title := i.Attributes.GetAsStringWithDefault(AttrTitle, "")
-	if id != "" && title != "" {
+	title := i.Attributes[AttrTitle]
+	if id != "" && title != nil {
 		refs[id] = title
 	}
 }
diff --git a/pkg/types/types_utils.go b/pkg/types/types_utils.go
index 71281cb..25b4f43 100644
--- a/pkg/types/types_utils.go
+++ b/pkg/types/types_utils.go
@@ -157,6 +157,16 @@ func stringify(element interface{}) string {
 		return element.Content
 	case *SpecialCharacter:
 		return element.Name
+	case *Symbol:
+		return element.Name
+	case *PredefinedAttribute:
+		return "{" + element.Name + "}"
+	case *QuotedText:
+		return stringify(element.Elements)
+	case *InlineLink:
+		return element.Location.ToDisplayString()
+	case *InlinePassthrough:
+		return stringify(element.Elements)
 	case *AttributeReference: // TODO: should never happen?
 		return "{" + element.Name + "}"
 	default:
-- 
2.43.0


From 1f42ec33e2af39502c34dbe415f055e045259634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 032/108] fix: lock the attributes of the context while writing

A read lock is not sufficient.
---
 pkg/parser/context.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/parser/context.go b/pkg/parser/context.go
index 4081fc0..e545cb5 100644
--- a/pkg/parser/context.go
+++ b/pkg/parser/context.go
@@ -113,8 +113,8 @@ func (a *contextAttributes) getAsIntWithDefault(k string, defaultValue int) int
 }
 
 func (a *contextAttributes) set(k string, v interface{}) {
-	a.mutex.RLock() // TODO: needed? each go routine has its own context
-	defer a.mutex.RUnlock()
+	a.mutex.Lock() // TODO: needed? each go routine has its own context
+	defer a.mutex.Unlock()
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("setting context attribute: %s -> %s", k, spew.Sdump(v))
 	}
@@ -122,14 +122,14 @@ func (a *contextAttributes) set(k string, v interface{}) {
 }
 
 func (a *contextAttributes) unset(k string) {
-	a.mutex.RLock()
-	defer a.mutex.RUnlock()
+	a.mutex.Lock()
+	defer a.mutex.Unlock()
 	delete(a.attributes, k)
 }
 
 func (a *contextAttributes) setAll(attrs map[string]interface{}) {
-	a.mutex.RLock()
-	defer a.mutex.RUnlock()
+	a.mutex.Lock()
+	defer a.mutex.Unlock()
 	for k, v := range attrs {
 		a.attributes[k] = v
 	}
-- 
2.43.0


From 416105b870c4c3932632561180ca83969499df1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 033/108] fix: number the sections when requested by the caller

The `sectnums` and `numbered` attributes of the caller were ignored, and those of
the document were used instead.
---
 pkg/renderer/sgml/sgml.go |  5 ++++-
 pkg/types/types.go        | 19 +++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index 5893d13..00cf654 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -71,7 +71,10 @@ elements:
 			break elements
 		}
 	}
-	if ctx.sectionNumbering, err = doc.SectionNumbers(); err != nil {
+	if ctx.config.Attributes.Has(types.AttrSectionNumbering) || ctx.config.Attributes.Has(types.AttrNumbered) {
+		// set by the caller, hence regardless of the declarations in the document
+		ctx.sectionNumbering = doc.AllSectionNumbers()
+	} else if ctx.sectionNumbering, err = doc.SectionNumbers(); err != nil {
 		return metadata, errors.Wrapf(err, "unable to render full document")
 	}
 
diff --git a/pkg/types/types.go b/pkg/types/types.go
index e07d705..9ac0bf2 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -163,6 +163,25 @@ func (d *Document) SectionNumbers() (SectionNumbers, error) {
 	return numbers, err
 }
 
+// AllSectionNumbers returns the numbers of all sections, regardless of the declarations in the document
+func (d *Document) AllSectionNumbers() SectionNumbers {
+	result := SectionNumbers{}
+	numberSections(d.Elements, "", result)
+	return result
+}
+
+func numberSections(elements []interface{}, prefix string, result SectionNumbers) {
+	counter := 0
+	for _, e := range elements {
+		if e, ok := e.(*Section); ok {
+			counter++
+			n := prefix + strconv.Itoa(counter)
+			result[e.GetID()] = n
+			numberSections(e.Elements, n+".", result)
+		}
+	}
+}
+
 func traverseElements(elements []interface{}, enabled bool, prefix string) (map[string]string, bool, error) {
 	result := map[string]string{}
 	counter := 0
-- 
2.43.0


From edcce92c6254951e114d0c1d897d7384aab3f9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 034/108] fix: support all kinds of front-matter values in
 attribute references

Referencing an attribute whose value is a list, a map, a large number or a date
failed, and the content of the paragraph was lost.
---
 pkg/parser/document_processing_apply_substitutions.go | 2 +-
 pkg/renderer/sgml/render_plain_text.go                | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 06da6bd..dcc66a6 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -568,7 +568,7 @@ func valueForAttributeRef(ctx *ParseContext, a *types.AttributeReference) (inter
 		return v.Revnumber, true, nil
 	case nil:
 		return "", true, nil // attribute without value
-	case bool, int, int64, float64:
+	case bool, int, int64, uint64, float64, time.Time, map[interface{}]interface{}:
 		return fmt.Sprint(v), true, nil // set by the caller (or in the front-matter)
 	default:
 		return v, true, nil
diff --git a/pkg/renderer/sgml/render_plain_text.go b/pkg/renderer/sgml/render_plain_text.go
index 04e2509..fd2b3e2 100644
--- a/pkg/renderer/sgml/render_plain_text.go
+++ b/pkg/renderer/sgml/render_plain_text.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"strconv"
 	"strings"
+	"time"
 
 	"github.com/bytesparadise/libasciidoc/pkg/types"
 
@@ -76,6 +77,10 @@ func (r *plaintextRenderer) render(element interface{}) (string, error) {
 		return predefinedAttribute(e.Name), nil
 	case *types.StringElement:
 		return e.Content, nil
+	case string:
+		return e, nil
+	case nil, bool, int, int64, uint64, float64, time.Time, map[interface{}]interface{}:
+		return fmt.Sprint(e), nil // values of the front-matter
 	case *types.FootnoteReference:
 		return r.renderFootnoteReference(e)
 	case *types.InlinePassthrough:
-- 
2.43.0


From 271e45ed4cee189a1432ba6ec67c3290b5f1ea26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 035/108] fix: render all kinds of inline elements as plain
 text

The conversion failed when the title of the document (or the value of an attribute)
had elements such as a cross reference or a button.
---
 pkg/renderer/sgml/render_plain_text.go | 42 +++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/render_plain_text.go b/pkg/renderer/sgml/render_plain_text.go
index fd2b3e2..0cfb463 100644
--- a/pkg/renderer/sgml/render_plain_text.go
+++ b/pkg/renderer/sgml/render_plain_text.go
@@ -85,6 +85,24 @@ func (r *plaintextRenderer) render(element interface{}) (string, error) {
 		return r.renderFootnoteReference(e)
 	case *types.InlinePassthrough:
 		return r.renderInlinePassthrough(e)
+	case *types.InternalCrossReference:
+		return r.renderInternalCrossReference(e)
+	case *types.ExternalCrossReference:
+		return r.renderExternalCrossReference(e)
+	case *types.IndexTerm:
+		return r.renderInlineElements(e.Term)
+	case *types.ConcealedIndexTerm:
+		return "", nil
+	case *types.InlineButton:
+		return "[" + e.Attributes.GetAsStringWithDefault(types.AttrButtonLabel, "") + "]", nil
+	case *types.InlineMenu:
+		return strings.Join(e.Path, " > "), nil
+	case *types.UserMacro:
+		return e.RawText, nil
+	case *types.LineBreak:
+		return "\n", nil
+	case *types.Callout:
+		return "(" + strconv.Itoa(e.Ref) + ")", nil
 	default:
 		return "", errors.Errorf("unable to render plain string for element of type '%T'", e)
 	}
@@ -137,10 +155,32 @@ func (r *plaintextRenderer) renderInlineLink(l *types.InlineLink) (string, error
 	}
 }
 
+func (r *plaintextRenderer) renderInternalCrossReference(xref *types.InternalCrossReference) (string, error) {
+	switch label := xref.Label.(type) {
+	case string:
+		return label, nil
+	case []interface{}:
+		return r.render(label)
+	default:
+		return fmt.Sprintf("[%s]", xref.ID), nil
+	}
+}
+
+func (r *plaintextRenderer) renderExternalCrossReference(xref *types.ExternalCrossReference) (string, error) {
+	switch label := xref.Attributes[types.AttrXRefLabel].(type) {
+	case string:
+		return label, nil
+	case []interface{}:
+		return r.render(label)
+	default:
+		return defaultXrefLabel(xref), nil
+	}
+}
+
 func (r *plaintextRenderer) renderFootnoteReference(note *types.FootnoteReference) (string, error) {
 	if note.ID != types.InvalidFootnoteReference {
 		// valid case for a footnote with content, with our without an explicit reference
 		return `<sup class="footnote">[` + strconv.Itoa(note.ID) + `]</sup>`, nil
 	}
-	return "", fmt.Errorf("unable to render missing footnote")
+	return `<sup class="footnoteref red">[` + r.escape(note.Ref) + `]</sup>`, nil
 }
-- 
2.43.0


From e6e3e2b7ffe8e4afa9782c16147693b60b33f87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 036/108] fix: restore the list nesting when a list element
 cannot be rendered

The context was left within a list when rendering failed.
---
 pkg/renderer/sgml/elements.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/renderer/sgml/elements.go b/pkg/renderer/sgml/elements.go
index ad9ff86..bc29960 100644
--- a/pkg/renderer/sgml/elements.go
+++ b/pkg/renderer/sgml/elements.go
@@ -31,12 +31,12 @@ func (r *sgmlRenderer) renderListElements(ctx *context, elements []interface{})
 			ctx.withinList++
 		}
 		renderedElement, err := r.renderElement(ctx, element)
-		if err != nil {
-			return "", errors.Wrap(err, "unable to render a list element")
-		}
 		if i == 0 {
 			ctx.withinList--
 		}
+		if err != nil {
+			return "", errors.Wrap(err, "unable to render a list element")
+		}
 		buff.WriteString(renderedElement)
 	}
 	return buff.String(), nil
-- 
2.43.0


From f57d50cb5147d657390a1ab7f6d6b42876465fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 037/108] fix: render source blocks with a highlighter and
 custom substitutions

The conversion failed when the content had other elements than plain text.
---
 pkg/renderer/sgml/delimited_block_source.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pkg/renderer/sgml/delimited_block_source.go b/pkg/renderer/sgml/delimited_block_source.go
index 75150fa..941da8f 100644
--- a/pkg/renderer/sgml/delimited_block_source.go
+++ b/pkg/renderer/sgml/delimited_block_source.go
@@ -155,16 +155,15 @@ func (r *sgmlRenderer) renderSourceLine(_ *context, line interface{}) (string, [
 	callouts := make([]*types.Callout, 0, len(elements))
 	for _, e := range elements {
 		switch e := e.(type) {
-		case *types.StringElement, *types.SpecialCharacter:
+		case *types.Callout:
+			callouts = append(callouts, e)
+		default:
+			// other inline elements when custom substitutions were applied
 			s, err := RenderPlainText(e, WithoutEscape())
 			if err != nil {
 				return "", nil, err
 			}
 			result.WriteString(s)
-		case *types.Callout:
-			callouts = append(callouts, e)
-		default:
-			return "", nil, fmt.Errorf("unexpected type of element: '%T'", line)
 		}
 	}
 	return result.String(), callouts, nil
-- 
2.43.0


From 76ec1feba09a5887ca6c419f6098c9d078ecf203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 038/108] fix: escape the raw texts of inline elements rendered
 as plain text

The label of buttons, the path of menus and the text of user macros are raw.
---
 pkg/renderer/sgml/render_plain_text.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/renderer/sgml/render_plain_text.go b/pkg/renderer/sgml/render_plain_text.go
index 0cfb463..8ac85b7 100644
--- a/pkg/renderer/sgml/render_plain_text.go
+++ b/pkg/renderer/sgml/render_plain_text.go
@@ -94,11 +94,11 @@ func (r *plaintextRenderer) render(element interface{}) (string, error) {
 	case *types.ConcealedIndexTerm:
 		return "", nil
 	case *types.InlineButton:
-		return "[" + e.Attributes.GetAsStringWithDefault(types.AttrButtonLabel, "") + "]", nil
+		return r.escape("[" + e.Attributes.GetAsStringWithDefault(types.AttrButtonLabel, "") + "]"), nil
 	case *types.InlineMenu:
-		return strings.Join(e.Path, " > "), nil
+		return r.escape(strings.Join(e.Path, " > ")), nil
 	case *types.UserMacro:
-		return e.RawText, nil
+		return r.escape(e.RawText), nil
 	case *types.LineBreak:
 		return "\n", nil
 	case *types.Callout:
-- 
2.43.0


From 514dd64620e4a7c6942d4106cb937206d43883d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 039/108] fix: report outputs which cannot be written

The command skipped the files whose output could not be created (or failed to
convert them into a nil file), and ignored errors when closing the outputs.
---
 cmd/libasciidoc/root_cmd.go | 60 +++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/cmd/libasciidoc/root_cmd.go b/cmd/libasciidoc/root_cmd.go
index 27a188b..10d3bfd 100644
--- a/cmd/libasciidoc/root_cmd.go
+++ b/cmd/libasciidoc/root_cmd.go
@@ -10,6 +10,7 @@ import (
 	"github.com/bytesparadise/libasciidoc"
 	"github.com/bytesparadise/libasciidoc/pkg/configuration"
 
+	"github.com/pkg/errors"
 	pkgprofile "github.com/pkg/profile"
 	log "github.com/sirupsen/logrus"
 	"github.com/spf13/cobra"
@@ -54,20 +55,23 @@ func NewRootCmd() *cobra.Command {
 			}
 			attrs := parseAttributes(attributes)
 			for _, sourcePath := range args {
-				out, close := getOut(cmd, sourcePath, outputName)
-				if out != nil {
-					defer close() //nolint:errcheck
-					// log.Debugf("Starting to process file %v", path)
-					config := configuration.NewConfiguration(
-						configuration.WithFilename(sourcePath),
-						configuration.WithAttributes(attrs),
-						configuration.WithCSS(css),
-						configuration.WithBackEnd(backend),
-						configuration.WithHeaderFooter(!noHeaderFooter))
-					_, err := libasciidoc.ConvertFile(out, config)
-					if err != nil {
-						return err
-					}
+				out, close, err := getOut(cmd, sourcePath, outputName)
+				if err != nil {
+					return err
+				}
+				// log.Debugf("Starting to process file %v", path)
+				config := configuration.NewConfiguration(
+					configuration.WithFilename(sourcePath),
+					configuration.WithAttributes(attrs),
+					configuration.WithCSS(css),
+					configuration.WithBackEnd(backend),
+					configuration.WithHeaderFooter(!noHeaderFooter))
+				_, err = libasciidoc.ConvertFile(out, config)
+				if closeErr := close(); err == nil {
+					err = closeErr
+				}
+				if err != nil {
+					return err
 				}
 			}
 			return nil
@@ -97,29 +101,27 @@ func newCloseFileFunc(c io.Closer) closeFunc {
 	}
 }
 
-func getOut(cmd *cobra.Command, sourcePath, outputName string) (io.Writer, closeFunc) {
+func getOut(cmd *cobra.Command, sourcePath, outputName string) (io.Writer, closeFunc, error) {
 	if outputName == "-" {
 		// outfile is STDOUT
-		return cmd.OutOrStdout(), defaultCloseFunc()
+		return cmd.OutOrStdout(), defaultCloseFunc(), nil
 	} else if outputName != "" {
 		// outfile is specified in the command line
-		outfile, e := os.Create(outputName)
-		if e != nil {
-			log.Warnf("Cannot create output file - %v, skipping", outputName)
-		}
-		return outfile, newCloseFileFunc(outfile)
+		return createOut(outputName)
 	} else if sourcePath != "" {
 		// outfile is based on sourcePath
 		path, _ := filepath.Abs(sourcePath)
-		outname := strings.TrimSuffix(path, filepath.Ext(path)) + ".html"
-		outfile, err := os.Create(outname)
-		if err != nil {
-			log.Warnf("Cannot create output file - %v, skipping", outname)
-			return nil, nil
-		}
-		return outfile, newCloseFileFunc(outfile)
+		return createOut(strings.TrimSuffix(path, filepath.Ext(path)) + ".html")
+	}
+	return cmd.OutOrStdout(), defaultCloseFunc(), nil
+}
+
+func createOut(outname string) (io.Writer, closeFunc, error) {
+	outfile, err := os.Create(outname)
+	if err != nil {
+		return nil, nil, errors.Wrapf(err, "cannot create output file")
 	}
-	return cmd.OutOrStdout(), defaultCloseFunc()
+	return outfile, newCloseFileFunc(outfile), nil
 }
 
 // converts the `name`, `!name` and `name=value` into a map
-- 
2.43.0


From 80e44a510761e11a5cafd5f8728109198290b204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:02 +0000
Subject: [PATCH 040/108] fix: keep the complete value of the attribute options

The text after a second `=` was lost.
---
 cmd/libasciidoc/root_cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/libasciidoc/root_cmd.go b/cmd/libasciidoc/root_cmd.go
index 10d3bfd..7854a2d 100644
--- a/cmd/libasciidoc/root_cmd.go
+++ b/cmd/libasciidoc/root_cmd.go
@@ -128,7 +128,7 @@ func createOut(outname string) (io.Writer, closeFunc, error) {
 func parseAttributes(attributes []string) map[string]interface{} {
 	result := make(map[string]interface{}, len(attributes))
 	for _, attr := range attributes {
-		data := strings.Split(attr, "=")
+		data := strings.SplitN(attr, "=", 2)
 		if len(data) > 1 {
 			result[data[0]] = data[1]
 		} else {
-- 
2.43.0


From 521985f59ab11bb52b0f4f8ff3e0c208ede4bd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 041/108] fix: refuse to overwrite the source file

When the source file had an `.html` extension (or was the target of the `-o`
option), it was truncated before being read and the command succeeded.
---
 cmd/libasciidoc/root_cmd.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/libasciidoc/root_cmd.go b/cmd/libasciidoc/root_cmd.go
index 7854a2d..6219b05 100644
--- a/cmd/libasciidoc/root_cmd.go
+++ b/cmd/libasciidoc/root_cmd.go
@@ -107,16 +107,22 @@ func getOut(cmd *cobra.Command, sourcePath, outputName string) (io.Writer, close
 		return cmd.OutOrStdout(), defaultCloseFunc(), nil
 	} else if outputName != "" {
 		// outfile is specified in the command line
-		return createOut(outputName)
+		return createOut(sourcePath, outputName)
 	} else if sourcePath != "" {
 		// outfile is based on sourcePath
 		path, _ := filepath.Abs(sourcePath)
-		return createOut(strings.TrimSuffix(path, filepath.Ext(path)) + ".html")
+		return createOut(sourcePath, strings.TrimSuffix(path, filepath.Ext(path)) + ".html")
 	}
 	return cmd.OutOrStdout(), defaultCloseFunc(), nil
 }
 
-func createOut(outname string) (io.Writer, closeFunc, error) {
+func createOut(sourcePath, outname string) (io.Writer, closeFunc, error) {
+	// do not lose the content of the source file before it is read
+	if source, err := os.Stat(sourcePath); err == nil {
+		if out, err := os.Stat(outname); err == nil && os.SameFile(source, out) {
+			return nil, nil, errors.Errorf("input file and output file cannot be the same: %s", outname)
+		}
+	}
 	outfile, err := os.Create(outname)
 	if err != nil {
 		return nil, nil, errors.Wrapf(err, "cannot create output file")
-- 
2.43.0


From 0654cc90b4279e31eeaba4e54dc727e60980389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:48 +0000
Subject: [PATCH 042/108] fix: close the last row of horizontal lists

The row of a term without description was left open when no other term
followed: the output was not well formed.
---
 pkg/renderer/sgml/html5/labeled_list.go  | 2 +-
 pkg/renderer/sgml/list.go                | 9 ++++++---
 pkg/renderer/sgml/xhtml5/labeled_list.go | 2 +-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkg/renderer/sgml/html5/labeled_list.go b/pkg/renderer/sgml/html5/labeled_list.go
index cc03070..d5459c1 100644
--- a/pkg/renderer/sgml/html5/labeled_list.go
+++ b/pkg/renderer/sgml/html5/labeled_list.go
@@ -20,7 +20,7 @@ const (
 	labeledListHorizontalElementTmpl = "{{ if not .Continuation }}<tr>\n" +
 		"<td class=\"hdlist1\">\n{{ else }}<br>\n{{ end }}" +
 		"{{ .Term }}\n" +
-		"{{ if .Content }}</td>\n<td class=\"hdlist2\">\n{{ .Content }}</td>\n</tr>\n{{ end }}"
+		"{{ if or .Content .Last }}</td>\n<td class=\"hdlist2\">\n{{ .Content }}</td>\n</tr>\n{{ end }}"
 
 	qAndAListTmpl = "<div{{ if .ID }} id=\"{{ .ID }}\"{{ end }} " +
 		"class=\"qlist qanda{{ if .Roles }} {{ .Roles }}{{ end }}\"" +
diff --git a/pkg/renderer/sgml/list.go b/pkg/renderer/sgml/list.go
index 3cf5c62..d631ca2 100644
--- a/pkg/renderer/sgml/list.go
+++ b/pkg/renderer/sgml/list.go
@@ -204,12 +204,13 @@ func (r *sgmlRenderer) renderLabeledList(ctx *context, l *types.List) (string, e
 
 	content := &strings.Builder{}
 	cont := false
-	for _, element := range l.Elements {
+	for i, element := range l.Elements {
 		e, ok := element.(*types.LabeledListElement)
 		if !ok {
 			return "", errors.Errorf("unable to render labeled list element of type '%T'", element)
 		}
-		if cont, err = r.renderLabeledListItem(ctx, itemTmpl, content, cont, e); err != nil {
+		last := i == len(l.Elements)-1
+		if cont, err = r.renderLabeledListItem(ctx, itemTmpl, content, cont, last, e); err != nil {
 			return "", errors.Wrap(err, "unable to render labeled list")
 		}
 	}
@@ -280,7 +281,7 @@ func (r *sgmlRenderer) getLabeledListTmpl(l *types.List) (*texttemplate.Template
 	return listTmpl, listElementTmpl, nil
 }
 
-func (r *sgmlRenderer) renderLabeledListItem(ctx *context, tmpl *texttemplate.Template, w io.Writer, continuation bool, element *types.LabeledListElement) (bool, error) {
+func (r *sgmlRenderer) renderLabeledListItem(ctx *context, tmpl *texttemplate.Template, w io.Writer, continuation bool, last bool, element *types.LabeledListElement) (bool, error) {
 
 	term, err := r.renderInlineElements(ctx, element.Term)
 	if err != nil {
@@ -295,10 +296,12 @@ func (r *sgmlRenderer) renderLabeledListItem(ctx *context, tmpl *texttemplate.Te
 		Term         string
 		Content      string
 		Continuation bool
+		Last         bool
 	}{
 		Context:      ctx,
 		Term:         string(term),
 		Continuation: continuation,
+		Last:         last,
 		Content:      string(content),
 	})
 	return content == "", err
diff --git a/pkg/renderer/sgml/xhtml5/labeled_list.go b/pkg/renderer/sgml/xhtml5/labeled_list.go
index 7933bb4..408f2d7 100644
--- a/pkg/renderer/sgml/xhtml5/labeled_list.go
+++ b/pkg/renderer/sgml/xhtml5/labeled_list.go
@@ -4,5 +4,5 @@ const (
 	labeledListHorizontalItemTmpl = "{{ if not .Continuation }}<tr>\n" +
 		"<td class=\"hdlist1\">\n{{ else }}<br/>\n{{ end }}" +
 		"{{ .Term }}\n" +
-		"{{ if .Content }}</td>\n<td class=\"hdlist2\">\n{{ .Content }}</td>\n</tr>\n{{ end }}"
+		"{{ if or .Content .Last }}</td>\n<td class=\"hdlist2\">\n{{ .Content }}</td>\n</tr>\n{{ end }}"
 )
-- 
2.43.0


From c1206001ac42f8885dddad931fa8144ad1796915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 043/108] fix: close the element of menus without item

The end tag was within the block which is skipped when the path of the menu
is empty.
---
 pkg/renderer/sgml/html5/inline_menu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/html5/inline_menu.go b/pkg/renderer/sgml/html5/inline_menu.go
index 917c428..c5d112c 100644
--- a/pkg/renderer/sgml/html5/inline_menu.go
+++ b/pkg/renderer/sgml/html5/inline_menu.go
@@ -15,7 +15,7 @@ const (
 		`{{ else }}&#160;<b class="caret">&#8250;</b> <b class="submenu">{{ $element }}</b>` +
 		`{{ end }}` +
 		`{{ end }}` +
-		`</span>` +
 		`{{ end }}` +
+		`</span>` +
 		`{{ end }}`
 )
-- 
2.43.0


From a7f010cc9365e9a4d6dc150d198675ebd7b6cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 044/108] fix: link to the anchors as they are rendered

The anchors of the sections only are in lower case, but all cross
references were. Also, the special characters were escaped in the anchors,
but not in the links.
---
 pkg/renderer/sgml/context.go               | 15 +++++++++++++++
 pkg/renderer/sgml/cross_reference.go       |  9 +++++----
 pkg/renderer/sgml/html5/cross_reference.go |  2 +-
 pkg/renderer/sgml/table_of_contents.go     |  3 ++-
 4 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/pkg/renderer/sgml/context.go b/pkg/renderer/sgml/context.go
index b4de92b..5a2482d 100644
--- a/pkg/renderer/sgml/context.go
+++ b/pkg/renderer/sgml/context.go
@@ -1,6 +1,8 @@
 package sgml
 
 import (
+	"strings"
+
 	"github.com/bytesparadise/libasciidoc/pkg/configuration"
 	"github.com/bytesparadise/libasciidoc/pkg/types"
 )
@@ -16,6 +18,7 @@ type context struct {
 	elementReferences    types.ElementReferences
 	hasHeader            bool
 	sectionNumbering     types.SectionNumbers
+	sectionIDs           map[string]bool // in lower case
 }
 
 // newContext returns a new rendering context for the given document.
@@ -27,6 +30,10 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 		attributes:        config.Attributes.Clone(), // do not alter the attributes of the caller
 		elementReferences: doc.ElementReferences,
 		hasHeader:         header != nil,
+		sectionIDs:        make(map[string]bool),
+	}
+	for id := range doc.AllSectionNumbers() {
+		ctx.sectionIDs[strings.ToLower(id)] = true
 	}
 	// TODO: add other attributes from https://docs.asciidoctor.org/asciidoc/latest/attributes/document-attributes-ref/#builtin-attributes-i18n
 	ctx.setAttribute(types.AttrFigureCaption, "Figure")
@@ -47,6 +54,14 @@ func newContext(doc *types.Document, config *configuration.Configuration) *conte
 	return ctx
 }
 
+// anchor returns the anchor of the element with the given ID, as it is rendered: in lower case if the element is a section
+func (ctx *context) anchor(id string) string {
+	if lower := strings.ToLower(id); ctx.sectionIDs[lower] {
+		return lower
+	}
+	return id
+}
+
 // setAttribute sets the given attribute, unless it was set by the caller (in the configuration)
 func (ctx *context) setAttribute(name string, value interface{}) {
 	if ctx.config.Attributes.Has(name) {
diff --git a/pkg/renderer/sgml/cross_reference.go b/pkg/renderer/sgml/cross_reference.go
index bfaa767..5b8a2a6 100644
--- a/pkg/renderer/sgml/cross_reference.go
+++ b/pkg/renderer/sgml/cross_reference.go
@@ -3,6 +3,7 @@ package sgml
 import (
 	"path/filepath"
 	"strings"
+	texttemplate "text/template"
 
 	"github.com/bytesparadise/libasciidoc/pkg/types"
 
@@ -56,7 +57,7 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 		Href  string
 		Label string
 	}{
-		Href:  xrefID,
+		Href:  texttemplate.HTMLEscapeString(ctx.anchor(xrefID)),
 		Label: label,
 	})
 }
@@ -79,7 +80,7 @@ func (r *sgmlRenderer) renderExternalCrossReference(ctx *context, xref *types.Ex
 		Href  string
 		Label string
 	}{
-		Href:  getCrossReferenceLocation(xref),
+		Href:  texttemplate.HTMLEscapeString(getCrossReferenceLocation(ctx, xref)),
 		Label: label,
 	})
 }
@@ -93,11 +94,11 @@ func defaultXrefLabel(xref *types.ExternalCrossReference) string {
 	return loc[:len(loc)-len(ext)] + ".html"
 }
 
-func getCrossReferenceLocation(xref *types.ExternalCrossReference) string {
+func getCrossReferenceLocation(ctx *context, xref *types.ExternalCrossReference) string {
 	loc := xref.Location.ToDisplayString()
 	ext := filepath.Ext(loc)
 	if ext == "" { // internal reference
-		return "#" + loc
+		return "#" + ctx.anchor(loc)
 	}
 	return loc[:len(loc)-len(ext)] + ".html" // TODO output extension
 }
diff --git a/pkg/renderer/sgml/html5/cross_reference.go b/pkg/renderer/sgml/html5/cross_reference.go
index 7be4da8..0488cb2 100644
--- a/pkg/renderer/sgml/html5/cross_reference.go
+++ b/pkg/renderer/sgml/html5/cross_reference.go
@@ -1,6 +1,6 @@
 package html5
 
 const (
-	internalCrossReferenceTmpl = `<a href="#{{ toLower .Href }}">{{ .Label }}</a>`
+	internalCrossReferenceTmpl = `<a href="#{{ .Href }}">{{ .Label }}</a>`
 	externalCrossReferenceTmpl = `<a href="{{ .Href }}">{{ .Label }}</a>`
 )
diff --git a/pkg/renderer/sgml/table_of_contents.go b/pkg/renderer/sgml/table_of_contents.go
index 20c77f1..03e9aee 100644
--- a/pkg/renderer/sgml/table_of_contents.go
+++ b/pkg/renderer/sgml/table_of_contents.go
@@ -2,6 +2,7 @@ package sgml
 
 import (
 	"strings"
+	texttemplate "text/template"
 
 	"github.com/bytesparadise/libasciidoc/pkg/types"
 	"github.com/davecgh/go-spew/spew"
@@ -146,7 +147,7 @@ func (r *sgmlRenderer) renderTableOfContentsEntry(ctx *context, entry *types.ToC
 		Content string
 	}{
 		Number:  entry.Number,
-		ID:      entry.ID,
+		ID:      texttemplate.HTMLEscapeString(entry.ID), // as in the titles of the sections
 		Title:   entry.Title,
 		Content: content,
 	})
-- 
2.43.0


From a171fef5c1384d2541978f65a4783f2c478bac2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 045/108] fix: escape the ID of the links

The ID of a link was written as it is in the attribute, while the cross
references to it are escaped.
---
 pkg/renderer/sgml/link.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/renderer/sgml/link.go b/pkg/renderer/sgml/link.go
index c8003c7..3ad8b69 100644
--- a/pkg/renderer/sgml/link.go
+++ b/pkg/renderer/sgml/link.go
@@ -10,7 +10,6 @@ import (
 func (r *sgmlRenderer) renderLink(ctx *context, l *types.InlineLink) (string, error) {
 	text := ""
 	class := ""
-	id := l.Attributes.GetAsStringWithDefault(types.AttrID, "")
 	roles, err := r.renderElementRoles(ctx, l.Attributes)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render link")
@@ -46,7 +45,7 @@ func (r *sgmlRenderer) renderLink(ctx *context, l *types.InlineLink) (string, er
 		Target   string
 		NoOpener bool
 	}{
-		ID:       id,
+		ID:       r.renderElementID(l.Attributes),
 		URL:      htmlEscaper.Replace(l.Location.ToString()),
 		Text:     text,
 		Class:    class,
-- 
2.43.0


From afa2da775209b390bbf4651ee42fbcef171c3015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 046/108] fix: number the example blocks which have a title
 only

The counter of the example blocks was incremented for blocks without a
title, whose caption is not rendered: the first caption could be "Example 2".
---
 pkg/renderer/sgml/delimited_block_example.go | 28 +++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/pkg/renderer/sgml/delimited_block_example.go b/pkg/renderer/sgml/delimited_block_example.go
index d0f5be7..1380e47 100644
--- a/pkg/renderer/sgml/delimited_block_example.go
+++ b/pkg/renderer/sgml/delimited_block_example.go
@@ -21,24 +21,26 @@ func (r *sgmlRenderer) renderExampleBlock(ctx *context, b *types.DelimitedBlock)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render example block roles")
 	}
-	c, found := b.Attributes.GetAsString(types.AttrCaption)
-	if !found {
-		c, found = ctx.attributes.GetAsString(types.AttrExampleCaption)
-		if found && c != "" {
-			c += " {counter:example-number}. "
-		}
-	}
-	// TODO: Replace this hack when we have attribute substitution fully working
-	if strings.Contains(c, "{counter:example-number}") {
-		number = ctx.GetAndIncrementExampleBlockCounter()
-		c = strings.ReplaceAll(c, "{counter:example-number}", strconv.Itoa(number))
-	}
 	title, err := r.renderElementTitle(ctx, b.Attributes)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render example block title")
 	}
 	caption := &strings.Builder{}
-	caption.WriteString(c)
+	if title != "" {
+		c, found := b.Attributes.GetAsString(types.AttrCaption)
+		if !found {
+			c, found = ctx.attributes.GetAsString(types.AttrExampleCaption)
+			if found && c != "" {
+				c += " {counter:example-number}. "
+			}
+		}
+		// TODO: Replace this hack when we have attribute substitution fully working
+		if strings.Contains(c, "{counter:example-number}") {
+			number = ctx.GetAndIncrementExampleBlockCounter()
+			c = strings.ReplaceAll(c, "{counter:example-number}", strconv.Itoa(number))
+		}
+		caption.WriteString(c)
+	}
 	return r.execute(r.exampleBlock, struct {
 		Context       *context
 		ID            string
-- 
2.43.0


From 5b49ad8c8e88a13ae5cc5b149c2be6e41fa94df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:58 +0000
Subject: [PATCH 047/108] fix: use the names of the authors set by the caller

The `author` meta element had the name which is in the document, although the `author` attribute was set by the caller.
---
 pkg/renderer/sgml/sgml.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index 00cf654..907667d 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"path/filepath"
+	"strconv"
 	"strings"
 	texttemplate "text/template"
 
@@ -309,12 +310,19 @@ func (r *sgmlRenderer) renderDocumentID(doc *types.Document) string {
 	return ""
 }
 
-func (r *sgmlRenderer) renderAuthors(_ *context, doc *types.Document) string { // TODO: pass header instead of doc
+func (r *sgmlRenderer) renderAuthors(ctx *context, doc *types.Document) string { // TODO: pass header instead of doc
 	if header, _ := doc.Header(); header != nil {
 		if a := header.Authors(); a != nil {
 			authorStrs := make([]string, len(a))
 			for i, author := range a {
 				authorStrs[i] = author.FullName()
+				key := types.AttrAuthor
+				if i > 0 {
+					key += "_" + strconv.Itoa(i+1)
+				}
+				if name, found := ctx.config.Attributes.GetAsString(key); found {
+					authorStrs[i] = name // set by the caller
+				}
 			}
 			return strings.Join(authorStrs, "; ")
 
-- 
2.43.0


From fb0e01bff4aff60808142c4a34f4d804f604917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:39 +0000
Subject: [PATCH 048/108] fix: enable the UI macros when the caller sets
 `experimental`

The `experimental` attribute set by the caller (e.g.: with `-a experimental`)
was ignored, and a document could unset it.
---
 pkg/parser/context.go                                 | 1 +
 pkg/parser/document_processing_apply_substitutions.go | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/context.go b/pkg/parser/context.go
index e545cb5..51d3907 100644
--- a/pkg/parser/context.go
+++ b/pkg/parser/context.go
@@ -29,6 +29,7 @@ func NewParseContext(config *configuration.Configuration, options ...Option) *Pa
 		GlobalStore(documentHeaderKey, true),
 		GlobalStore(usermacrosKey, config.Macros),
 		GlobalStore(enabledSubstitutionsKey, normalSubstitutions()),
+		enableExperimentalMacros(config.Attributes.Has(types.AttrExperimental)),
 	}
 	opts = append(opts, options...)
 	return &ParseContext{
diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index dcc66a6..4a743df 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -109,7 +109,8 @@ func applySubstitutionsOnAttributeDeclaration(ctx *ParseContext, b *types.Attrib
 	b.Value = v
 	ctx.attributes.set(b.Name, b.Value)
 	if b.Name == types.AttrExperimental {
-		ctx.opts = append(ctx.opts, enableExperimentalMacros(true)) // TODO: add `ctx.ExperimentalMacrosEnabled()` instead?
+		_, enabled := ctx.attributes.get(types.AttrExperimental)
+		ctx.opts = append(ctx.opts, enableExperimentalMacros(enabled)) // TODO: add `ctx.ExperimentalMacrosEnabled()` instead?
 	}
 	return nil
 }
@@ -117,7 +118,8 @@ func applySubstitutionsOnAttributeDeclaration(ctx *ParseContext, b *types.Attrib
 func applySubstitutionsOnAttributeReset(ctx *ParseContext, b *types.AttributeReset, _ ...Option) error {
 	ctx.attributes.unset(b.Name)
 	if b.Name == types.AttrExperimental {
-		ctx.opts = append(ctx.opts, enableExperimentalMacros(false))
+		_, enabled := ctx.attributes.get(types.AttrExperimental) // remains enabled if it was set by the caller
+		ctx.opts = append(ctx.opts, enableExperimentalMacros(enabled))
 	}
 	return nil
 }
-- 
2.43.0


From 9b55de379ad0772758c871a9cd37950adb3ed3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:39 +0000
Subject: [PATCH 049/108] fix: validate the documents which declare that they
 are manual pages

The problems of a document with `:doctype: manpage` were only reported (and the
document rendered as an article) when the doctype was set by the caller.
---
 libasciidoc.go | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/libasciidoc.go b/libasciidoc.go
index f40d3be..057a0b3 100644
--- a/libasciidoc.go
+++ b/libasciidoc.go
@@ -71,8 +71,7 @@ func Convert(source io.Reader, output io.Writer, config *configuration.Configura
 	}
 	emdOfParse = time.Now()
 	// validate the document
-	doctype := config.Attributes.GetAsStringWithDefault(types.AttrDocType, "article")
-	problems, err := validator.Validate(doc, doctype)
+	problems, err := validator.Validate(doc, doctype(doc, config))
 	if err != nil {
 		return types.Metadata{}, err
 	}
@@ -103,3 +102,35 @@ func Convert(source io.Reader, output io.Writer, config *configuration.Configura
 	return metadata, nil
 
 }
+
+// doctype returns the type which the document will be rendered with:
+// the one set by the caller, or the one declared in the header or at the top of the document
+func doctype(doc *types.Document, config *configuration.Configuration) string {
+	if config.Attributes.Has(types.AttrDocType) {
+		return config.Attributes.GetAsStringWithDefault(types.AttrDocType, "article")
+	}
+	attrs := types.Attributes{}
+	// returns `false` if the element is not a declaration (or a reset) of an attribute
+	process := func(e interface{}) bool {
+		switch e := e.(type) {
+		case *types.AttributeDeclaration:
+			attrs[e.Name] = e.Value
+		case *types.AttributeReset:
+			delete(attrs, e.Name)
+		default:
+			return false
+		}
+		return true
+	}
+	if header, _ := doc.Header(); header != nil {
+		for _, e := range header.Elements {
+			process(e)
+		}
+	}
+	for _, e := range doc.Elements {
+		if !process(e) {
+			break
+		}
+	}
+	return attrs.GetAsStringWithDefault(types.AttrDocType, "article")
+}
-- 
2.43.0


From dcd241b5235474b88f4fbad8582793426147662d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:11 +0000
Subject: [PATCH 050/108] fix: report output files which cannot be located

When the absolute path of the source could not be determined (for example because
the working directory was removed), the failure was ignored and the output was
written in a file named `.html`.
---
 cmd/libasciidoc/root_cmd.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/libasciidoc/root_cmd.go b/cmd/libasciidoc/root_cmd.go
index 6219b05..f0f4d3e 100644
--- a/cmd/libasciidoc/root_cmd.go
+++ b/cmd/libasciidoc/root_cmd.go
@@ -110,7 +110,10 @@ func getOut(cmd *cobra.Command, sourcePath, outputName string) (io.Writer, close
 		return createOut(sourcePath, outputName)
 	} else if sourcePath != "" {
 		// outfile is based on sourcePath
-		path, _ := filepath.Abs(sourcePath)
+		path, err := filepath.Abs(sourcePath)
+		if err != nil {
+			return nil, nil, errors.Wrapf(err, "cannot locate output file")
+		}
 		return createOut(sourcePath, strings.TrimSuffix(path, filepath.Ext(path)) + ".html")
 	}
 	return cmd.OutOrStdout(), defaultCloseFunc(), nil
-- 
2.43.0


From 398f386ad0f46750eee510f0d245c0cc6e36c4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:19 +0000
Subject: [PATCH 051/108] fix: ignore comments within inline elements

A comment line in the middle of a quoted text, link, footnote, etc. ended in the
output as the placeholder which was used to parse the paragraph (or the document was
refused because of it).
---
 ...document_processing_apply_substitutions.go | 36 +++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 4a743df..2990f6b 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -640,6 +640,10 @@ func parseWithSubstitutions(content interface{}, subs *substitutions, opts ...Op
 	if err != nil {
 		return nil, err
 	}
+	if !placeholders.commentsFound(elements) {
+		// some comments are within inline elements
+		return parseWithSubstitutions(withoutComments(content), subs, opts...)
+	}
 	elements, err = placeholders.restore(elements)
 	if err != nil {
 		return nil, err
@@ -770,6 +774,38 @@ func (p *placeholders) add(element interface{}) *types.ElementPlaceHolder {
 
 }
 
+// checks that all comments have their own placeholder in the given elements (as opposed to being in the content of other elements)
+func (p *placeholders) commentsFound(elements []interface{}) bool {
+	comments := 0
+	for _, e := range p.elements {
+		if _, ok := e.(*types.SinglelineComment); ok {
+			comments++
+		}
+	}
+	for _, e := range elements {
+		if e, ok := e.(*types.ElementPlaceHolder); ok {
+			if _, ok := p.elements[e.Ref].(*types.SinglelineComment); ok {
+				comments--
+			}
+		}
+	}
+	return comments == 0
+}
+
+func withoutComments(content interface{}) interface{} {
+	elements, ok := content.([]interface{})
+	if !ok {
+		return content
+	}
+	result := make([]interface{}, 0, len(elements))
+	for _, e := range elements {
+		if _, ok := e.(*types.SinglelineComment); !ok {
+			result = append(result, e)
+		}
+	}
+	return result
+}
+
 // replace the placeholders with their original element in the given elements
 func (p *placeholders) restore(elements []interface{}) ([]interface{}, error) {
 	for i, e := range elements {
-- 
2.43.0


From 2f76576115b4b3d77b23aeae3eec9fc3c6c14dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:47 +0000
Subject: [PATCH 052/108] fix: support the characters of the placeholders in
 documents

Documents with a number between replacement characters (`\uFFFD1\uFFFD`) were refused,
or another element was rendered instead of these characters.
---
 ...document_processing_apply_substitutions.go | 37 ++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 2990f6b..50c0039 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -685,6 +685,7 @@ func serialize(content interface{}) ([]byte, *placeholders, error) {
 	case string:
 		return []byte(content), placeholders, nil
 	case []interface{}:
+		placeholders.reserve(content)
 		result := bytes.NewBuffer(nil)
 		for _, element := range content {
 			switch element := element.(type) {
@@ -753,6 +754,13 @@ func serializePlainText(content interface{}) (string, error) {
 	}
 }
 
+const (
+	// placeholderDelimiter the character around the ref of the placeholders
+	placeholderDelimiter = "\uFFFD"
+	// maxReservedRef to avoid overflows
+	maxReservedRef = 1 << 30
+)
+
 type placeholders struct {
 	seq      int
 	elements map[string]interface{}
@@ -765,6 +773,26 @@ func newPlaceholders() *placeholders {
 	}
 }
 
+// skips the refs which are already used in the texts
+func (p *placeholders) reserve(elements []interface{}) {
+	for _, element := range elements {
+		var text string
+		switch element := element.(type) {
+		case *types.RawLine:
+			text = element.Content
+		case string:
+			text = element
+		case *types.StringElement:
+			text = element.Content
+		}
+		for _, ref := range strings.Split(text, placeholderDelimiter) {
+			if seq, err := strconv.Atoi(ref); err == nil && seq > p.seq && seq < maxReservedRef {
+				p.seq = seq
+			}
+		}
+	}
+}
+
 func (p *placeholders) add(element interface{}) *types.ElementPlaceHolder {
 	p.seq++
 	p.elements[strconv.Itoa(p.seq)] = element
@@ -811,7 +839,14 @@ func (p *placeholders) restore(elements []interface{}) ([]interface{}, error) {
 	for i, e := range elements {
 		switch e := e.(type) {
 		case *types.ElementPlaceHolder:
-			elements[i] = p.elements[e.Ref]
+			original, found := p.elements[e.Ref]
+			if !found {
+				// characters of the document
+				original = &types.StringElement{
+					Content: e.String(),
+				}
+			}
+			elements[i] = original
 		case types.WithElements:
 			elmts, err := p.restore(e.GetElements())
 			if err != nil {
-- 
2.43.0


From 2f6a64fd52547df77a2bb4d3f6583367af8793b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:48 +0000
Subject: [PATCH 053/108] fix: close comment blocks with the delimiter which
 opened them

a delimiter with another length closed the comment block, whose remaining lines were rendered
---
 pkg/parser/parser.go  | 22806 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |    14 +-
 2 files changed, 11627 insertions(+), 11193 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 9d89b05..181e3a4 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2860, col: 10, offset: 90451},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2860, col: 10, offset: 90451},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2882, col: 8, offset: 90849},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2869, col: 12, offset: 90622},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2869, col: 13, offset: 90623},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2869, col: 13, offset: 90623},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2869, col: 20, offset: 90630},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2869, col: 29, offset: 90639},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2879, col: 8, offset: 90799},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2879, col: 9, offset: 90800,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2860, col: 10, offset: 90451},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2860, col: 10, offset: 90451},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2882, col: 8, offset: 90849},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2869, col: 12, offset: 90622},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2869, col: 13, offset: 90623},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2869, col: 13, offset: 90623},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2869, col: 20, offset: 90630},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2869, col: 29, offset: 90639},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2879, col: 8, offset: 90799},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2879, col: 9, offset: 90800,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2860, col: 10, offset: 90451},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2860, col: 10, offset: 90451},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2879, col: 8, offset: 90799},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2879, col: 9, offset: 90800,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2860, col: 10, offset: 90451},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2860, col: 10, offset: 90451},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2879, col: 8, offset: 90799},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2879, col: 9, offset: 90800,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2844, col: 12, offset: 90066},
+																pos: position{line: 2852, col: 12, offset: 90278},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2852, col: 13, offset: 90279},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2852, col: 13, offset: 90279},
 																			expr: &litMatcher{
-																				pos:        position{line: 2844, col: 13, offset: 90067},
+																				pos:        position{line: 2852, col: 13, offset: 90279},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2844, col: 18, offset: 90072},
+																			pos: position{line: 2852, col: 18, offset: 90284},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2844, col: 18, offset: 90072},
+																				pos:        position{line: 2852, col: 18, offset: 90284},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2860, col: 10, offset: 90451},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2860, col: 10, offset: 90451},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2860, col: 10, offset: 90451},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2860, col: 10, offset: 90451},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2844, col: 12, offset: 90066},
+																pos: position{line: 2852, col: 12, offset: 90278},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2852, col: 13, offset: 90279},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2852, col: 13, offset: 90279},
 																			expr: &litMatcher{
-																				pos:        position{line: 2844, col: 13, offset: 90067},
+																				pos:        position{line: 2852, col: 13, offset: 90279},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2844, col: 18, offset: 90072},
+																			pos: position{line: 2852, col: 18, offset: 90284},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2844, col: 18, offset: 90072},
+																				pos:        position{line: 2852, col: 18, offset: 90284},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2860, col: 10, offset: 90451},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2860, col: 10, offset: 90451},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2879, col: 8, offset: 90799},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2879, col: 9, offset: 90800,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2860, col: 10, offset: 90451},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2860, col: 10, offset: 90451},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2879, col: 8, offset: 90799},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2879, col: 9, offset: 90800,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 724, col: 5, offset: 23042},
 													expr: &charClassMatcher{
-														pos:        position{line: 2742, col: 13, offset: 87334},
+														pos:        position{line: 2750, col: 13, offset: 87546},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2860, col: 10, offset: 90451},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2860, col: 10, offset: 90451},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2882, col: 8, offset: 90849},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2869, col: 12, offset: 90622},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2869, col: 13, offset: 90623},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2869, col: 13, offset: 90623},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2869, col: 20, offset: 90630},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2869, col: 29, offset: 90639},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 749, col: 8, offset: 23934},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2860, col: 10, offset: 90451},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2860, col: 10, offset: 90451},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2882, col: 8, offset: 90849},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2869, col: 12, offset: 90622},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2869, col: 13, offset: 90623},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2869, col: 13, offset: 90623},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2869, col: 20, offset: 90630},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2869, col: 29, offset: 90639},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 760, col: 52, offset: 24346},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2860, col: 10, offset: 90451},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2860, col: 10, offset: 90451},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2882, col: 8, offset: 90849},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2869, col: 12, offset: 90622},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2869, col: 13, offset: 90623},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2869, col: 13, offset: 90623},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2869, col: 20, offset: 90630},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2869, col: 29, offset: 90639},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 756, col: 8, offset: 24180},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2860, col: 10, offset: 90451},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2860, col: 10, offset: 90451},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2882, col: 8, offset: 90849},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2869, col: 12, offset: 90622},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2869, col: 13, offset: 90623},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2869, col: 13, offset: 90623},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2869, col: 20, offset: 90630},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2869, col: 29, offset: 90639},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 771, col: 8, offset: 24718},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2860, col: 10, offset: 90451},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2860, col: 10, offset: 90451},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2882, col: 8, offset: 90849},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2869, col: 12, offset: 90622},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2869, col: 13, offset: 90623},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2869, col: 13, offset: 90623},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2869, col: 20, offset: 90630},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2869, col: 29, offset: 90639},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 785, col: 8, offset: 25194},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2860, col: 10, offset: 90451},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2860, col: 10, offset: 90451},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2882, col: 8, offset: 90849},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2869, col: 12, offset: 90622},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2869, col: 13, offset: 90623},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2869, col: 13, offset: 90623},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2869, col: 20, offset: 90630},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2869, col: 29, offset: 90639},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 792, col: 8, offset: 25446},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2860, col: 10, offset: 90451},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2860, col: 10, offset: 90451},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2882, col: 8, offset: 90849},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2869, col: 12, offset: 90622},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2869, col: 13, offset: 90623},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2869, col: 13, offset: 90623},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2869, col: 20, offset: 90630},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2869, col: 29, offset: 90639},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 799, col: 8, offset: 25696},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2860, col: 10, offset: 90451},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2860, col: 10, offset: 90451},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2882, col: 8, offset: 90849},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2869, col: 12, offset: 90622},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2869, col: 13, offset: 90623},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2869, col: 13, offset: 90623},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2869, col: 20, offset: 90630},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2869, col: 29, offset: 90639},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 806, col: 8, offset: 25942},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2860, col: 10, offset: 90451},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2860, col: 10, offset: 90451},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2882, col: 8, offset: 90849},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2869, col: 12, offset: 90622},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2869, col: 13, offset: 90623},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2869, col: 13, offset: 90623},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2869, col: 20, offset: 90630},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2869, col: 29, offset: 90639},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2856, col: 11, offset: 90300},
+													pos: position{line: 2864, col: 11, offset: 90512},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2856, col: 11, offset: 90300},
+														pos: position{line: 2864, col: 11, offset: 90512},
 														expr: &charClassMatcher{
-															pos:        position{line: 2856, col: 11, offset: 90300},
+															pos:        position{line: 2864, col: 11, offset: 90512},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2802, col: 14, offset: 88832},
+													pos: position{line: 2810, col: 14, offset: 89044},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2802, col: 14, offset: 88832},
+														pos: position{line: 2810, col: 14, offset: 89044},
 														expr: &charClassMatcher{
-															pos:        position{line: 2802, col: 14, offset: 88832},
+															pos:        position{line: 2810, col: 14, offset: 89044},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2879, col: 8, offset: 90799},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2879, col: 9, offset: 90800,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2879, col: 8, offset: 90799},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2879, col: 9, offset: 90800,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2806, col: 17, offset: 88902},
+												pos: position{line: 2814, col: 17, offset: 89114},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2806, col: 17, offset: 88902},
+													pos:   position{line: 2814, col: 17, offset: 89114},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2831, col: 5, offset: 89568},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2831, col: 5, offset: 89568},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2831, col: 14, offset: 89577},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2832, col: 9, offset: 89587},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2832, col: 9, offset: 89587},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2832, col: 9, offset: 89587},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2832, col: 9, offset: 89587},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2832, col: 10, offset: 89588},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2833, col: 9, offset: 89616},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2833, col: 10, offset: 89617},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2836, col: 11, offset: 89829},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2836, col: 11, offset: 89829},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2836, col: 19, offset: 89837},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2836, col: 21, offset: 89839},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2836, col: 21, offset: 89839},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2860, col: 10, offset: 90451},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2860, col: 10, offset: 90451},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2836, col: 28, offset: 89846},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -3045,27 +3045,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1206, col: 23, offset: 37184},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1206, col: 23, offset: 37184},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1204, col: 32, offset: 37152},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1206, col: 51, offset: 37212},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1206, col: 56, offset: 37217},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1206, col: 56, offset: 37217},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1206, col: 56, offset: 37217},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3075,7 +3075,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1204, col: 32, offset: 37152},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2839, col: 11, offset: 89966},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2839, col: 11, offset: 89966},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2860, col: 10, offset: 90451},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2860, col: 10, offset: 90451},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2882, col: 8, offset: 90849},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2869, col: 12, offset: 90622},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2869, col: 13, offset: 90623},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2869, col: 13, offset: 90623},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2869, col: 20, offset: 90630},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2869, col: 29, offset: 90639},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2879, col: 8, offset: 90799},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2879, col: 9, offset: 90800,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2844, col: 12, offset: 90066},
+																				pos: position{line: 2852, col: 12, offset: 90278},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2844, col: 13, offset: 90067},
+																					pos: position{line: 2852, col: 13, offset: 90279},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2844, col: 13, offset: 90067},
+																							pos: position{line: 2852, col: 13, offset: 90279},
 																							expr: &litMatcher{
-																								pos:        position{line: 2844, col: 13, offset: 90067},
+																								pos:        position{line: 2852, col: 13, offset: 90279},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2844, col: 18, offset: 90072},
+																							pos: position{line: 2852, col: 18, offset: 90284},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2844, col: 18, offset: 90072},
+																								pos:        position{line: 2852, col: 18, offset: 90284},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2844, col: 12, offset: 90066},
+																				pos: position{line: 2852, col: 12, offset: 90278},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2844, col: 13, offset: 90067},
+																					pos: position{line: 2852, col: 13, offset: 90279},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2844, col: 13, offset: 90067},
+																							pos: position{line: 2852, col: 13, offset: 90279},
 																							expr: &litMatcher{
-																								pos:        position{line: 2844, col: 13, offset: 90067},
+																								pos:        position{line: 2852, col: 13, offset: 90279},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2844, col: 18, offset: 90072},
+																							pos: position{line: 2852, col: 18, offset: 90284},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2844, col: 18, offset: 90072},
+																								pos:        position{line: 2852, col: 18, offset: 90284},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2844, col: 12, offset: 90066},
+																		pos: position{line: 2852, col: 12, offset: 90278},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2852, col: 13, offset: 90279},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2844, col: 13, offset: 90067},
+																					pos: position{line: 2852, col: 13, offset: 90279},
 																					expr: &litMatcher{
-																						pos:        position{line: 2844, col: 13, offset: 90067},
+																						pos:        position{line: 2852, col: 13, offset: 90279},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2844, col: 18, offset: 90072},
+																					pos: position{line: 2852, col: 18, offset: 90284},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2844, col: 18, offset: 90072},
+																						pos:        position{line: 2852, col: 18, offset: 90284},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2844, col: 12, offset: 90066},
+																									pos: position{line: 2852, col: 12, offset: 90278},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2844, col: 13, offset: 90067},
+																										pos: position{line: 2852, col: 13, offset: 90279},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2844, col: 13, offset: 90067},
+																												pos: position{line: 2852, col: 13, offset: 90279},
 																												expr: &litMatcher{
-																													pos:        position{line: 2844, col: 13, offset: 90067},
+																													pos:        position{line: 2852, col: 13, offset: 90279},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2844, col: 18, offset: 90072},
+																												pos: position{line: 2852, col: 18, offset: 90284},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2844, col: 18, offset: 90072},
+																													pos:        position{line: 2852, col: 18, offset: 90284},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2844, col: 12, offset: 90066},
+																									pos: position{line: 2852, col: 12, offset: 90278},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2844, col: 13, offset: 90067},
+																										pos: position{line: 2852, col: 13, offset: 90279},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2844, col: 13, offset: 90067},
+																												pos: position{line: 2852, col: 13, offset: 90279},
 																												expr: &litMatcher{
-																													pos:        position{line: 2844, col: 13, offset: 90067},
+																													pos:        position{line: 2852, col: 13, offset: 90279},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2844, col: 18, offset: 90072},
+																												pos: position{line: 2852, col: 18, offset: 90284},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2844, col: 18, offset: 90072},
+																													pos:        position{line: 2852, col: 18, offset: 90284},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2844, col: 12, offset: 90066},
+																							pos: position{line: 2852, col: 12, offset: 90278},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2844, col: 13, offset: 90067},
+																								pos: position{line: 2852, col: 13, offset: 90279},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2844, col: 13, offset: 90067},
+																										pos: position{line: 2852, col: 13, offset: 90279},
 																										expr: &litMatcher{
-																											pos:        position{line: 2844, col: 13, offset: 90067},
+																											pos:        position{line: 2852, col: 13, offset: 90279},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2844, col: 18, offset: 90072},
+																										pos: position{line: 2852, col: 18, offset: 90284},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2844, col: 18, offset: 90072},
+																											pos:        position{line: 2852, col: 18, offset: 90284},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 12, offset: 90066},
+														pos: position{line: 2852, col: 12, offset: 90278},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2844, col: 13, offset: 90067},
+															pos: position{line: 2852, col: 13, offset: 90279},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2852, col: 13, offset: 90279},
 																	expr: &litMatcher{
-																		pos:        position{line: 2844, col: 13, offset: 90067},
+																		pos:        position{line: 2852, col: 13, offset: 90279},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2844, col: 18, offset: 90072},
+																	pos: position{line: 2852, col: 18, offset: 90284},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2844, col: 18, offset: 90072},
+																		pos:        position{line: 2852, col: 18, offset: 90284},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2844, col: 12, offset: 90066},
+														pos: position{line: 2852, col: 12, offset: 90278},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2844, col: 13, offset: 90067},
+															pos: position{line: 2852, col: 13, offset: 90279},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2852, col: 13, offset: 90279},
 																	expr: &litMatcher{
-																		pos:        position{line: 2844, col: 13, offset: 90067},
+																		pos:        position{line: 2852, col: 13, offset: 90279},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2844, col: 18, offset: 90072},
+																	pos: position{line: 2852, col: 18, offset: 90284},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2844, col: 18, offset: 90072},
+																		pos:        position{line: 2852, col: 18, offset: 90284},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2844, col: 12, offset: 90066},
+												pos: position{line: 2852, col: 12, offset: 90278},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2844, col: 13, offset: 90067},
+													pos: position{line: 2852, col: 13, offset: 90279},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2844, col: 13, offset: 90067},
+															pos: position{line: 2852, col: 13, offset: 90279},
 															expr: &litMatcher{
-																pos:        position{line: 2844, col: 13, offset: 90067},
+																pos:        position{line: 2852, col: 13, offset: 90279},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2844, col: 18, offset: 90072},
+															pos: position{line: 2852, col: 18, offset: 90284},
 															expr: &charClassMatcher{
-																pos:        position{line: 2844, col: 18, offset: 90072},
+																pos:        position{line: 2852, col: 18, offset: 90284},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2879, col: 8, offset: 90799},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2879, col: 9, offset: 90800,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2746, col: 14, offset: 87408},
+																		pos: position{line: 2754, col: 14, offset: 87620},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2746, col: 14, offset: 87408},
+																			pos: position{line: 2754, col: 14, offset: 87620},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2746, col: 14, offset: 87408},
+																				pos:        position{line: 2754, col: 14, offset: 87620},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2746, col: 14, offset: 87408},
+																				pos: position{line: 2754, col: 14, offset: 87620},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2746, col: 14, offset: 87408},
+																					pos: position{line: 2754, col: 14, offset: 87620},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2746, col: 14, offset: 87408},
+																						pos:        position{line: 2754, col: 14, offset: 87620},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2746, col: 14, offset: 87408},
+																							pos: position{line: 2754, col: 14, offset: 87620},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2746, col: 14, offset: 87408},
+																								pos: position{line: 2754, col: 14, offset: 87620},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2746, col: 14, offset: 87408},
+																									pos:        position{line: 2754, col: 14, offset: 87620},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2746, col: 14, offset: 87408},
+																									pos: position{line: 2754, col: 14, offset: 87620},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2746, col: 14, offset: 87408},
+																										pos: position{line: 2754, col: 14, offset: 87620},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2746, col: 14, offset: 87408},
+																											pos:        position{line: 2754, col: 14, offset: 87620},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2879, col: 8, offset: 90799},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2879, col: 9, offset: 90800,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2746, col: 14, offset: 87408},
+																pos: position{line: 2754, col: 14, offset: 87620},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2746, col: 14, offset: 87408},
+																	pos: position{line: 2754, col: 14, offset: 87620},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2746, col: 14, offset: 87408},
+																		pos:        position{line: 2754, col: 14, offset: 87620},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2746, col: 14, offset: 87408},
+																pos: position{line: 2754, col: 14, offset: 87620},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2746, col: 14, offset: 87408},
+																	pos: position{line: 2754, col: 14, offset: 87620},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2746, col: 14, offset: 87408},
+																		pos:        position{line: 2754, col: 14, offset: 87620},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2882, col: 8, offset: 90849},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2869, col: 12, offset: 90622},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2869, col: 13, offset: 90623},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2869, col: 13, offset: 90623},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2869, col: 20, offset: 90630},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2869, col: 29, offset: 90639},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2879, col: 8, offset: 90799},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2879, col: 9, offset: 90800,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2877, col: 11, offset: 90785},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2877, col: 13, offset: 90787,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2860, col: 10, offset: 90451},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2860, col: 10, offset: 90451},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2882, col: 8, offset: 90849},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2869, col: 12, offset: 90622},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2869, col: 13, offset: 90623},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2869, col: 13, offset: 90623},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2869, col: 20, offset: 90630},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2869, col: 29, offset: 90639},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2879, col: 8, offset: 90799},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2879, col: 9, offset: 90800,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2860, col: 10, offset: 90451},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2860, col: 10, offset: 90451},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2882, col: 8, offset: 90849},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2869, col: 12, offset: 90622},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2869, col: 13, offset: 90623},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2869, col: 13, offset: 90623},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2869, col: 20, offset: 90630},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2869, col: 29, offset: 90639},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2879, col: 8, offset: 90799},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2879, col: 9, offset: 90800,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 677, col: 14, offset: 21489},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2869, col: 11, offset: 90573},
+														pos: position{line: 2877, col: 11, offset: 90785},
 														expr: &anyMatcher{
-															line: 2869, col: 13, offset: 90575,
+															line: 2877, col: 13, offset: 90787,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 677, col: 21, offset: 21496},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2860, col: 10, offset: 90451},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2860, col: 10, offset: 90451},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2882, col: 8, offset: 90849},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2869, col: 12, offset: 90622},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2869, col: 13, offset: 90623},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2869, col: 13, offset: 90623},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2869, col: 20, offset: 90630},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2869, col: 29, offset: 90639},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2879, col: 8, offset: 90799},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2879, col: 9, offset: 90800,
 																},
 															},
 														},
@@ -4416,88 +4416,92 @@ var g = &grammar{
 											expr: &seqExpr{
 												pos: position{line: 820, col: 5, offset: 26324},
 												exprs: []interface{}{
-													&actionExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
-														run: (*parser).callonDocumentFragment77,
-														expr: &seqExpr{
+													&labeledExpr{
+														pos:   position{line: 820, col: 5, offset: 26324},
+														label: "start",
+														expr: &actionExpr{
 															pos: position{line: 740, col: 5, offset: 23584},
-															exprs: []interface{}{
-																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23584},
-																	label: "delimiter",
-																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
-																		run: (*parser).callonDocumentFragment80,
-																		expr: &seqExpr{
+															run: (*parser).callonDocumentFragment78,
+															expr: &seqExpr{
+																pos: position{line: 740, col: 5, offset: 23584},
+																exprs: []interface{}{
+																	&labeledExpr{
+																		pos:   position{line: 740, col: 5, offset: 23584},
+																		label: "delimiter",
+																		expr: &actionExpr{
 																			pos: position{line: 740, col: 16, offset: 23595},
-																			exprs: []interface{}{
-																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23595},
-																					val:        "////",
-																					ignoreCase: false,
-																					want:       "\"////\"",
-																				},
-																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23602},
-																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23602},
-																						val:        "/",
+																			run: (*parser).callonDocumentFragment81,
+																			expr: &seqExpr{
+																				pos: position{line: 740, col: 16, offset: 23595},
+																				exprs: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 740, col: 16, offset: 23595},
+																						val:        "////",
 																						ignoreCase: false,
-																						want:       "\"/\"",
+																						want:       "\"////\"",
+																					},
+																					&zeroOrMoreExpr{
+																						pos: position{line: 740, col: 23, offset: 23602},
+																						expr: &litMatcher{
+																							pos:        position{line: 740, col: 23, offset: 23602},
+																							val:        "/",
+																							ignoreCase: false,
+																							want:       "\"/\"",
+																						},
 																					},
 																				},
 																			},
 																		},
 																	},
-																},
-																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23686},
-																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonDocumentFragment86,
-																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
-																			val:        "[\\t ]",
-																			chars:      []rune{'\t', ' '},
-																			ignoreCase: false,
-																			inverted:   false,
+																	&zeroOrMoreExpr{
+																		pos: position{line: 742, col: 8, offset: 23686},
+																		expr: &actionExpr{
+																			pos: position{line: 2860, col: 10, offset: 90451},
+																			run: (*parser).callonDocumentFragment87,
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2860, col: 10, offset: 90451},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
 																		},
 																	},
-																},
-																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
-																	alternatives: []interface{}{
-																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonDocumentFragment89,
-																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
-																				alternatives: []interface{}{
-																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
-																						val:        "\n",
-																						ignoreCase: false,
-																						want:       "\"\\n\"",
-																					},
-																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
-																						val:        "\r\n",
-																						ignoreCase: false,
-																						want:       "\"\\r\\n\"",
-																					},
-																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
-																						val:        "\r",
-																						ignoreCase: false,
-																						want:       "\"\\r\"",
+																	&choiceExpr{
+																		pos: position{line: 2882, col: 8, offset: 90849},
+																		alternatives: []interface{}{
+																			&actionExpr{
+																				pos: position{line: 2869, col: 12, offset: 90622},
+																				run: (*parser).callonDocumentFragment90,
+																				expr: &choiceExpr{
+																					pos: position{line: 2869, col: 13, offset: 90623},
+																					alternatives: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							val:        "\n",
+																							ignoreCase: false,
+																							want:       "\"\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							val:        "\r\n",
+																							ignoreCase: false,
+																							want:       "\"\\r\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							val:        "\r",
+																							ignoreCase: false,
+																							want:       "\"\\r\"",
+																						},
 																					},
 																				},
 																			},
-																		},
-																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
-																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																			&notExpr{
+																				pos: position{line: 2879, col: 8, offset: 90799},
+																				expr: &anyMatcher{
+																					line: 2879, col: 9, offset: 90800,
+																				},
 																			},
 																		},
 																	},
@@ -4505,145 +4509,162 @@ var g = &grammar{
 															},
 														},
 													},
+													&andCodeExpr{
+														pos: position{line: 821, col: 5, offset: 26363},
+														run: (*parser).callonDocumentFragment97,
+													},
 													&labeledExpr{
-														pos:   position{line: 821, col: 5, offset: 26355},
+														pos:   position{line: 824, col: 5, offset: 26455},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 831, col: 5, offset: 26641},
+															pos: position{line: 839, col: 5, offset: 26853},
 															expr: &actionExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
-																run: (*parser).callonDocumentFragment98,
+																pos: position{line: 839, col: 6, offset: 26854},
+																run: (*parser).callonDocumentFragment100,
 																expr: &seqExpr{
-																	pos: position{line: 831, col: 6, offset: 26642},
+																	pos: position{line: 839, col: 6, offset: 26854},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 831, col: 6, offset: 26642},
+																			pos: position{line: 839, col: 6, offset: 26854},
 																			expr: &choiceExpr{
-																				pos: position{line: 828, col: 29, offset: 26584},
+																				pos: position{line: 832, col: 5, offset: 26695},
 																				alternatives: []interface{}{
-																					&actionExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
-																						run: (*parser).callonDocumentFragment102,
-																						expr: &seqExpr{
-																							pos: position{line: 740, col: 5, offset: 23584},
-																							exprs: []interface{}{
-																								&labeledExpr{
-																									pos:   position{line: 740, col: 5, offset: 23584},
-																									label: "delimiter",
-																									expr: &actionExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
-																										run: (*parser).callonDocumentFragment105,
-																										expr: &seqExpr{
-																											pos: position{line: 740, col: 16, offset: 23595},
-																											exprs: []interface{}{
-																												&litMatcher{
-																													pos:        position{line: 740, col: 16, offset: 23595},
-																													val:        "////",
-																													ignoreCase: false,
-																													want:       "\"////\"",
+																					&seqExpr{
+																						pos: position{line: 832, col: 5, offset: 26695},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 832, col: 5, offset: 26695},
+																								label: "end",
+																								expr: &actionExpr{
+																									pos: position{line: 740, col: 5, offset: 23584},
+																									run: (*parser).callonDocumentFragment106,
+																									expr: &seqExpr{
+																										pos: position{line: 740, col: 5, offset: 23584},
+																										exprs: []interface{}{
+																											&labeledExpr{
+																												pos:   position{line: 740, col: 5, offset: 23584},
+																												label: "delimiter",
+																												expr: &actionExpr{
+																													pos: position{line: 740, col: 16, offset: 23595},
+																													run: (*parser).callonDocumentFragment109,
+																													expr: &seqExpr{
+																														pos: position{line: 740, col: 16, offset: 23595},
+																														exprs: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 740, col: 16, offset: 23595},
+																																val:        "////",
+																																ignoreCase: false,
+																																want:       "\"////\"",
+																															},
+																															&zeroOrMoreExpr{
+																																pos: position{line: 740, col: 23, offset: 23602},
+																																expr: &litMatcher{
+																																	pos:        position{line: 740, col: 23, offset: 23602},
+																																	val:        "/",
+																																	ignoreCase: false,
+																																	want:       "\"/\"",
+																																},
+																															},
+																														},
+																													},
 																												},
-																												&zeroOrMoreExpr{
-																													pos: position{line: 740, col: 23, offset: 23602},
-																													expr: &litMatcher{
-																														pos:        position{line: 740, col: 23, offset: 23602},
-																														val:        "/",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 742, col: 8, offset: 23686},
+																												expr: &actionExpr{
+																													pos: position{line: 2860, col: 10, offset: 90451},
+																													run: (*parser).callonDocumentFragment115,
+																													expr: &charClassMatcher{
+																														pos:        position{line: 2860, col: 10, offset: 90451},
+																														val:        "[\\t ]",
+																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
-																														want:       "\"/\"",
+																														inverted:   false,
 																													},
 																												},
 																											},
-																										},
-																									},
-																								},
-																								&zeroOrMoreExpr{
-																									pos: position{line: 742, col: 8, offset: 23686},
-																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
-																										run: (*parser).callonDocumentFragment111,
-																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
-																											val:        "[\\t ]",
-																											chars:      []rune{'\t', ' '},
-																											ignoreCase: false,
-																											inverted:   false,
-																										},
-																									},
-																								},
-																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
-																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
-																											run: (*parser).callonDocumentFragment114,
-																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																											&choiceExpr{
+																												pos: position{line: 2882, col: 8, offset: 90849},
 																												alternatives: []interface{}{
-																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
-																														val:        "\n",
-																														ignoreCase: false,
-																														want:       "\"\\n\"",
-																													},
-																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
-																														val:        "\r\n",
-																														ignoreCase: false,
-																														want:       "\"\\r\\n\"",
+																													&actionExpr{
+																														pos: position{line: 2869, col: 12, offset: 90622},
+																														run: (*parser).callonDocumentFragment118,
+																														expr: &choiceExpr{
+																															pos: position{line: 2869, col: 13, offset: 90623},
+																															alternatives: []interface{}{
+																																&litMatcher{
+																																	pos:        position{line: 2869, col: 13, offset: 90623},
+																																	val:        "\n",
+																																	ignoreCase: false,
+																																	want:       "\"\\n\"",
+																																},
+																																&litMatcher{
+																																	pos:        position{line: 2869, col: 20, offset: 90630},
+																																	val:        "\r\n",
+																																	ignoreCase: false,
+																																	want:       "\"\\r\\n\"",
+																																},
+																																&litMatcher{
+																																	pos:        position{line: 2869, col: 29, offset: 90639},
+																																	val:        "\r",
+																																	ignoreCase: false,
+																																	want:       "\"\\r\"",
+																																},
+																															},
+																														},
 																													},
-																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
-																														val:        "\r",
-																														ignoreCase: false,
-																														want:       "\"\\r\"",
+																													&notExpr{
+																														pos: position{line: 2879, col: 8, offset: 90799},
+																														expr: &anyMatcher{
+																															line: 2879, col: 9, offset: 90800,
+																														},
 																													},
 																												},
 																											},
 																										},
-																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
-																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
-																											},
-																										},
 																									},
 																								},
 																							},
+																							&andCodeExpr{
+																								pos: position{line: 833, col: 5, offset: 26726},
+																								run: (*parser).callonDocumentFragment125,
+																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2879, col: 8, offset: 90799},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2879, col: 9, offset: 90800,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26672},
+																			pos:   position{line: 840, col: 5, offset: 26884},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentFragment124,
+																				run: (*parser).callonDocumentFragment129,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2877, col: 11, offset: 90785},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2877, col: 13, offset: 90787,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
-																								run: (*parser).callonDocumentFragment129,
+																								pos: position{line: 2806, col: 13, offset: 88977},
+																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2806, col: 13, offset: 88977},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2806, col: 13, offset: 88977},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4653,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonDocumentFragment133,
+																									pos: position{line: 2869, col: 12, offset: 90622},
+																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4683,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -4699,104 +4720,121 @@ var g = &grammar{
 															},
 														},
 													},
-													&zeroOrOneExpr{
-														pos: position{line: 822, col: 5, offset: 26389},
-														expr: &choiceExpr{
-															pos: position{line: 828, col: 29, offset: 26584},
-															alternatives: []interface{}{
-																&actionExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
-																	run: (*parser).callonDocumentFragment142,
-																	expr: &seqExpr{
-																		pos: position{line: 740, col: 5, offset: 23584},
+													&labeledExpr{
+														pos:   position{line: 825, col: 5, offset: 26489},
+														label: "end",
+														expr: &zeroOrOneExpr{
+															pos: position{line: 825, col: 9, offset: 26493},
+															expr: &choiceExpr{
+																pos: position{line: 832, col: 5, offset: 26695},
+																alternatives: []interface{}{
+																	&seqExpr{
+																		pos: position{line: 832, col: 5, offset: 26695},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 740, col: 5, offset: 23584},
-																				label: "delimiter",
+																				pos:   position{line: 832, col: 5, offset: 26695},
+																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
-																					run: (*parser).callonDocumentFragment145,
+																					pos: position{line: 740, col: 5, offset: 23584},
+																					run: (*parser).callonDocumentFragment150,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 16, offset: 23595},
+																						pos: position{line: 740, col: 5, offset: 23584},
 																						exprs: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 740, col: 16, offset: 23595},
-																								val:        "////",
-																								ignoreCase: false,
-																								want:       "\"////\"",
+																							&labeledExpr{
+																								pos:   position{line: 740, col: 5, offset: 23584},
+																								label: "delimiter",
+																								expr: &actionExpr{
+																									pos: position{line: 740, col: 16, offset: 23595},
+																									run: (*parser).callonDocumentFragment153,
+																									expr: &seqExpr{
+																										pos: position{line: 740, col: 16, offset: 23595},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 740, col: 16, offset: 23595},
+																												val:        "////",
+																												ignoreCase: false,
+																												want:       "\"////\"",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 740, col: 23, offset: 23602},
+																												expr: &litMatcher{
+																													pos:        position{line: 740, col: 23, offset: 23602},
+																													val:        "/",
+																													ignoreCase: false,
+																													want:       "\"/\"",
+																												},
+																											},
+																										},
+																									},
+																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 740, col: 23, offset: 23602},
-																								expr: &litMatcher{
-																									pos:        position{line: 740, col: 23, offset: 23602},
-																									val:        "/",
-																									ignoreCase: false,
-																									want:       "\"/\"",
+																								pos: position{line: 742, col: 8, offset: 23686},
+																								expr: &actionExpr{
+																									pos: position{line: 2860, col: 10, offset: 90451},
+																									run: (*parser).callonDocumentFragment159,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2860, col: 10, offset: 90451},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
 																								},
 																							},
-																						},
-																					},
-																				},
-																			},
-																			&zeroOrMoreExpr{
-																				pos: position{line: 742, col: 8, offset: 23686},
-																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
-																					run: (*parser).callonDocumentFragment151,
-																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
-																						val:        "[\\t ]",
-																						chars:      []rune{'\t', ' '},
-																						ignoreCase: false,
-																						inverted:   false,
-																					},
-																				},
-																			},
-																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
-																				alternatives: []interface{}{
-																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
-																						run: (*parser).callonDocumentFragment154,
-																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
-																							alternatives: []interface{}{
-																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
-																									val:        "\n",
-																									ignoreCase: false,
-																									want:       "\"\\n\"",
-																								},
-																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
-																									val:        "\r\n",
-																									ignoreCase: false,
-																									want:       "\"\\r\\n\"",
-																								},
-																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
-																									val:        "\r",
-																									ignoreCase: false,
-																									want:       "\"\\r\"",
+																							&choiceExpr{
+																								pos: position{line: 2882, col: 8, offset: 90849},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2869, col: 12, offset: 90622},
+																										run: (*parser).callonDocumentFragment162,
+																										expr: &choiceExpr{
+																											pos: position{line: 2869, col: 13, offset: 90623},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2869, col: 13, offset: 90623},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2869, col: 20, offset: 90630},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2869, col: 29, offset: 90639},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
+																												},
+																											},
+																										},
+																									},
+																									&notExpr{
+																										pos: position{line: 2879, col: 8, offset: 90799},
+																										expr: &anyMatcher{
+																											line: 2879, col: 9, offset: 90800,
+																										},
+																									},
 																								},
 																							},
 																						},
 																					},
-																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
-																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
-																						},
-																					},
 																				},
 																			},
+																			&andCodeExpr{
+																				pos: position{line: 833, col: 5, offset: 26726},
+																				run: (*parser).callonDocumentFragment169,
+																			},
 																		},
 																	},
-																},
-																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
-																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																	&notExpr{
+																		pos: position{line: 2879, col: 8, offset: 90799},
+																		expr: &anyMatcher{
+																			line: 2879, col: 9, offset: 90800,
+																		},
 																	},
 																},
 															},
@@ -4806,17 +4844,17 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 840, col: 5, offset: 26825},
-											run: (*parser).callonDocumentFragment163,
+											pos: position{line: 848, col: 5, offset: 27037},
+											run: (*parser).callonDocumentFragment172,
 											expr: &seqExpr{
-												pos: position{line: 840, col: 5, offset: 26825},
+												pos: position{line: 848, col: 5, offset: 27037},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 840, col: 5, offset: 26825},
+														pos:   position{line: 848, col: 5, offset: 27037},
 														label: "start",
 														expr: &actionExpr{
 															pos: position{line: 747, col: 5, offset: 23832},
-															run: (*parser).callonDocumentFragment166,
+															run: (*parser).callonDocumentFragment175,
 															expr: &seqExpr{
 																pos: position{line: 747, col: 5, offset: 23832},
 																exprs: []interface{}{
@@ -4825,7 +4863,7 @@ var g = &grammar{
 																		label: "delimiter",
 																		expr: &actionExpr{
 																			pos: position{line: 747, col: 16, offset: 23843},
-																			run: (*parser).callonDocumentFragment169,
+																			run: (*parser).callonDocumentFragment178,
 																			expr: &seqExpr{
 																				pos: position{line: 747, col: 16, offset: 23843},
 																				exprs: []interface{}{
@@ -4851,10 +4889,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 749, col: 8, offset: 23934},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment175,
+																			pos: position{line: 2860, col: 10, offset: 90451},
+																			run: (*parser).callonDocumentFragment184,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2860, col: 10, offset: 90451},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4863,28 +4901,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2882, col: 8, offset: 90849},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment178,
+																				pos: position{line: 2869, col: 12, offset: 90622},
+																				run: (*parser).callonDocumentFragment187,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2869, col: 13, offset: 90623},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2869, col: 13, offset: 90623},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2869, col: 20, offset: 90630},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2869, col: 29, offset: 90639},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4893,9 +4931,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2879, col: 8, offset: 90799},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2879, col: 9, offset: 90800,
 																				},
 																			},
 																		},
@@ -4905,34 +4943,34 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 841, col: 5, offset: 26864},
-														run: (*parser).callonDocumentFragment185,
+														pos: position{line: 849, col: 5, offset: 27076},
+														run: (*parser).callonDocumentFragment194,
 													},
 													&labeledExpr{
-														pos:   position{line: 844, col: 5, offset: 26956},
+														pos:   position{line: 852, col: 5, offset: 27168},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 859, col: 4, offset: 27353},
+															pos: position{line: 867, col: 4, offset: 27565},
 															expr: &actionExpr{
-																pos: position{line: 859, col: 5, offset: 27354},
-																run: (*parser).callonDocumentFragment188,
+																pos: position{line: 867, col: 5, offset: 27566},
+																run: (*parser).callonDocumentFragment197,
 																expr: &seqExpr{
-																	pos: position{line: 859, col: 5, offset: 27354},
+																	pos: position{line: 867, col: 5, offset: 27566},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 859, col: 5, offset: 27354},
+																			pos: position{line: 867, col: 5, offset: 27566},
 																			expr: &choiceExpr{
-																				pos: position{line: 852, col: 5, offset: 27196},
+																				pos: position{line: 860, col: 5, offset: 27408},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 852, col: 5, offset: 27196},
+																						pos: position{line: 860, col: 5, offset: 27408},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 852, col: 5, offset: 27196},
+																								pos:   position{line: 860, col: 5, offset: 27408},
 																								label: "end",
 																								expr: &actionExpr{
 																									pos: position{line: 747, col: 5, offset: 23832},
-																									run: (*parser).callonDocumentFragment194,
+																									run: (*parser).callonDocumentFragment203,
 																									expr: &seqExpr{
 																										pos: position{line: 747, col: 5, offset: 23832},
 																										exprs: []interface{}{
@@ -4941,7 +4979,7 @@ var g = &grammar{
 																												label: "delimiter",
 																												expr: &actionExpr{
 																													pos: position{line: 747, col: 16, offset: 23843},
-																													run: (*parser).callonDocumentFragment197,
+																													run: (*parser).callonDocumentFragment206,
 																													expr: &seqExpr{
 																														pos: position{line: 747, col: 16, offset: 23843},
 																														exprs: []interface{}{
@@ -4967,10 +5005,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 749, col: 8, offset: 23934},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
-																													run: (*parser).callonDocumentFragment203,
+																													pos: position{line: 2860, col: 10, offset: 90451},
+																													run: (*parser).callonDocumentFragment212,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2860, col: 10, offset: 90451},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4979,28 +5017,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2882, col: 8, offset: 90849},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
-																														run: (*parser).callonDocumentFragment206,
+																														pos: position{line: 2869, col: 12, offset: 90622},
+																														run: (*parser).callonDocumentFragment215,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2869, col: 13, offset: 90623},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2869, col: 13, offset: 90623},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2869, col: 20, offset: 90630},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2869, col: 29, offset: 90639},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5009,9 +5047,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2879, col: 8, offset: 90799},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2879, col: 9, offset: 90800,
 																														},
 																													},
 																												},
@@ -5021,45 +5059,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 853, col: 5, offset: 27227},
-																								run: (*parser).callonDocumentFragment213,
+																								pos: position{line: 861, col: 5, offset: 27439},
+																								run: (*parser).callonDocumentFragment222,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2879, col: 8, offset: 90799},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2879, col: 9, offset: 90800,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 860, col: 5, offset: 27384},
+																			pos:   position{line: 868, col: 5, offset: 27596},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentFragment217,
+																				run: (*parser).callonDocumentFragment226,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2877, col: 11, offset: 90785},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2877, col: 13, offset: 90787,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
-																								run: (*parser).callonDocumentFragment222,
+																								pos: position{line: 2806, col: 13, offset: 88977},
+																								run: (*parser).callonDocumentFragment231,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2806, col: 13, offset: 88977},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2806, col: 13, offset: 88977},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5069,28 +5107,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonDocumentFragment226,
+																									pos: position{line: 2869, col: 12, offset: 90622},
+																									run: (*parser).callonDocumentFragment235,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5099,9 +5137,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -5116,22 +5154,22 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 845, col: 5, offset: 26990},
+														pos:   position{line: 853, col: 5, offset: 27202},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 845, col: 9, offset: 26994},
+															pos: position{line: 853, col: 9, offset: 27206},
 															expr: &choiceExpr{
-																pos: position{line: 852, col: 5, offset: 27196},
+																pos: position{line: 860, col: 5, offset: 27408},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 852, col: 5, offset: 27196},
+																		pos: position{line: 860, col: 5, offset: 27408},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 852, col: 5, offset: 27196},
+																				pos:   position{line: 860, col: 5, offset: 27408},
 																				label: "end",
 																				expr: &actionExpr{
 																					pos: position{line: 747, col: 5, offset: 23832},
-																					run: (*parser).callonDocumentFragment238,
+																					run: (*parser).callonDocumentFragment247,
 																					expr: &seqExpr{
 																						pos: position{line: 747, col: 5, offset: 23832},
 																						exprs: []interface{}{
@@ -5140,7 +5178,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 747, col: 16, offset: 23843},
-																									run: (*parser).callonDocumentFragment241,
+																									run: (*parser).callonDocumentFragment250,
 																									expr: &seqExpr{
 																										pos: position{line: 747, col: 16, offset: 23843},
 																										exprs: []interface{}{
@@ -5166,10 +5204,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 749, col: 8, offset: 23934},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonDocumentFragment247,
+																									pos: position{line: 2860, col: 10, offset: 90451},
+																									run: (*parser).callonDocumentFragment256,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2860, col: 10, offset: 90451},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5178,28 +5216,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2882, col: 8, offset: 90849},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonDocumentFragment250,
+																										pos: position{line: 2869, col: 12, offset: 90622},
+																										run: (*parser).callonDocumentFragment259,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2869, col: 13, offset: 90623},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2869, col: 13, offset: 90623},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2869, col: 20, offset: 90630},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2869, col: 29, offset: 90639},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5208,9 +5246,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2879, col: 8, offset: 90799},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2879, col: 9, offset: 90800,
 																										},
 																									},
 																								},
@@ -5220,15 +5258,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 853, col: 5, offset: 27227},
-																				run: (*parser).callonDocumentFragment257,
+																				pos: position{line: 861, col: 5, offset: 27439},
+																				run: (*parser).callonDocumentFragment266,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2879, col: 8, offset: 90799},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2879, col: 9, offset: 90800,
 																		},
 																	},
 																},
@@ -5239,17 +5277,17 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 952, col: 5, offset: 29676},
-											run: (*parser).callonDocumentFragment260,
+											pos: position{line: 960, col: 5, offset: 29888},
+											run: (*parser).callonDocumentFragment269,
 											expr: &seqExpr{
-												pos: position{line: 952, col: 5, offset: 29676},
+												pos: position{line: 960, col: 5, offset: 29888},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 952, col: 5, offset: 29676},
+														pos:   position{line: 960, col: 5, offset: 29888},
 														label: "delimiter",
 														expr: &actionExpr{
 															pos: position{line: 760, col: 26, offset: 24320},
-															run: (*parser).callonDocumentFragment263,
+															run: (*parser).callonDocumentFragment272,
 															expr: &seqExpr{
 																pos: position{line: 760, col: 26, offset: 24320},
 																exprs: []interface{}{
@@ -5264,7 +5302,7 @@ var g = &grammar{
 																		label: "language",
 																		expr: &actionExpr{
 																			pos: position{line: 764, col: 13, offset: 24456},
-																			run: (*parser).callonDocumentFragment267,
+																			run: (*parser).callonDocumentFragment276,
 																			expr: &oneOrMoreExpr{
 																				pos: position{line: 764, col: 14, offset: 24457},
 																				expr: &charClassMatcher{
@@ -5280,10 +5318,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 760, col: 52, offset: 24346},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment271,
+																			pos: position{line: 2860, col: 10, offset: 90451},
+																			run: (*parser).callonDocumentFragment280,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2860, col: 10, offset: 90451},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5292,28 +5330,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2882, col: 8, offset: 90849},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment274,
+																				pos: position{line: 2869, col: 12, offset: 90622},
+																				run: (*parser).callonDocumentFragment283,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2869, col: 13, offset: 90623},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2869, col: 13, offset: 90623},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2869, col: 20, offset: 90630},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2869, col: 29, offset: 90639},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5322,9 +5360,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2879, col: 8, offset: 90799},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2879, col: 9, offset: 90800,
 																				},
 																			},
 																		},
@@ -5334,34 +5372,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 953, col: 5, offset: 29722},
+														pos:   position{line: 961, col: 5, offset: 29934},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 966, col: 5, offset: 30195},
+															pos: position{line: 974, col: 5, offset: 30407},
 															expr: &actionExpr{
-																pos: position{line: 966, col: 6, offset: 30196},
-																run: (*parser).callonDocumentFragment283,
+																pos: position{line: 974, col: 6, offset: 30408},
+																run: (*parser).callonDocumentFragment292,
 																expr: &seqExpr{
-																	pos: position{line: 966, col: 6, offset: 30196},
+																	pos: position{line: 974, col: 6, offset: 30408},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 966, col: 6, offset: 30196},
+																			pos: position{line: 974, col: 6, offset: 30408},
 																			expr: &seqExpr{
-																				pos: position{line: 963, col: 34, offset: 30143},
+																				pos: position{line: 971, col: 34, offset: 30355},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 963, col: 34, offset: 30143},
+																						pos:        position{line: 971, col: 34, offset: 30355},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 963, col: 40, offset: 30149},
+																						pos: position{line: 971, col: 40, offset: 30361},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
-																							run: (*parser).callonDocumentFragment289,
+																							pos: position{line: 2860, col: 10, offset: 90451},
+																							run: (*parser).callonDocumentFragment298,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2860, col: 10, offset: 90451},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5370,28 +5408,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2882, col: 8, offset: 90849},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonDocumentFragment292,
+																								pos: position{line: 2869, col: 12, offset: 90622},
+																								run: (*parser).callonDocumentFragment301,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2869, col: 13, offset: 90623},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2869, col: 13, offset: 90623},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2869, col: 20, offset: 90630},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2869, col: 29, offset: 90639},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5400,9 +5438,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2879, col: 8, offset: 90799},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2879, col: 9, offset: 90800,
 																								},
 																							},
 																						},
@@ -5411,30 +5449,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 967, col: 5, offset: 30231},
+																			pos:   position{line: 975, col: 5, offset: 30443},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentFragment300,
+																				run: (*parser).callonDocumentFragment309,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2877, col: 11, offset: 90785},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2877, col: 13, offset: 90787,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
-																								run: (*parser).callonDocumentFragment305,
+																								pos: position{line: 2806, col: 13, offset: 88977},
+																								run: (*parser).callonDocumentFragment314,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2806, col: 13, offset: 88977},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2806, col: 13, offset: 88977},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5444,28 +5482,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonDocumentFragment309,
+																									pos: position{line: 2869, col: 12, offset: 90622},
+																									run: (*parser).callonDocumentFragment318,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5474,9 +5512,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -5491,23 +5529,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 954, col: 5, offset: 29761},
+														pos: position{line: 962, col: 5, offset: 29973},
 														expr: &seqExpr{
-															pos: position{line: 963, col: 34, offset: 30143},
+															pos: position{line: 971, col: 34, offset: 30355},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 963, col: 34, offset: 30143},
+																	pos:        position{line: 971, col: 34, offset: 30355},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 963, col: 40, offset: 30149},
+																	pos: position{line: 971, col: 40, offset: 30361},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonDocumentFragment320,
+																		pos: position{line: 2860, col: 10, offset: 90451},
+																		run: (*parser).callonDocumentFragment329,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2860, col: 10, offset: 90451},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5516,28 +5554,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2882, col: 8, offset: 90849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonDocumentFragment323,
+																			pos: position{line: 2869, col: 12, offset: 90622},
+																			run: (*parser).callonDocumentFragment332,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2869, col: 13, offset: 90623},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2869, col: 13, offset: 90623},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2869, col: 20, offset: 90630},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2869, col: 29, offset: 90639},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5546,9 +5584,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2879, col: 8, offset: 90799},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2879, col: 9, offset: 90800,
 																			},
 																		},
 																	},
@@ -5560,17 +5598,17 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 868, col: 5, offset: 27537},
-											run: (*parser).callonDocumentFragment330,
+											pos: position{line: 876, col: 5, offset: 27749},
+											run: (*parser).callonDocumentFragment339,
 											expr: &seqExpr{
-												pos: position{line: 868, col: 5, offset: 27537},
+												pos: position{line: 876, col: 5, offset: 27749},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 868, col: 5, offset: 27537},
+														pos:   position{line: 876, col: 5, offset: 27749},
 														label: "start",
 														expr: &actionExpr{
 															pos: position{line: 754, col: 5, offset: 24079},
-															run: (*parser).callonDocumentFragment333,
+															run: (*parser).callonDocumentFragment342,
 															expr: &seqExpr{
 																pos: position{line: 754, col: 5, offset: 24079},
 																exprs: []interface{}{
@@ -5579,7 +5617,7 @@ var g = &grammar{
 																		label: "delimiter",
 																		expr: &actionExpr{
 																			pos: position{line: 754, col: 16, offset: 24090},
-																			run: (*parser).callonDocumentFragment336,
+																			run: (*parser).callonDocumentFragment345,
 																			expr: &seqExpr{
 																				pos: position{line: 754, col: 16, offset: 24090},
 																				exprs: []interface{}{
@@ -5605,10 +5643,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 756, col: 8, offset: 24180},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment342,
+																			pos: position{line: 2860, col: 10, offset: 90451},
+																			run: (*parser).callonDocumentFragment351,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2860, col: 10, offset: 90451},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5617,28 +5655,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2882, col: 8, offset: 90849},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment345,
+																				pos: position{line: 2869, col: 12, offset: 90622},
+																				run: (*parser).callonDocumentFragment354,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2869, col: 13, offset: 90623},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2869, col: 13, offset: 90623},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2869, col: 20, offset: 90630},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2869, col: 29, offset: 90639},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5647,9 +5685,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2879, col: 8, offset: 90799},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2879, col: 9, offset: 90800,
 																				},
 																			},
 																		},
@@ -5659,34 +5697,34 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 869, col: 5, offset: 27575},
-														run: (*parser).callonDocumentFragment352,
+														pos: position{line: 877, col: 5, offset: 27787},
+														run: (*parser).callonDocumentFragment361,
 													},
 													&labeledExpr{
-														pos:   position{line: 872, col: 5, offset: 27667},
+														pos:   position{line: 880, col: 5, offset: 27879},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 887, col: 5, offset: 28057},
+															pos: position{line: 895, col: 5, offset: 28269},
 															expr: &actionExpr{
-																pos: position{line: 887, col: 6, offset: 28058},
-																run: (*parser).callonDocumentFragment355,
+																pos: position{line: 895, col: 6, offset: 28270},
+																run: (*parser).callonDocumentFragment364,
 																expr: &seqExpr{
-																	pos: position{line: 887, col: 6, offset: 28058},
+																	pos: position{line: 895, col: 6, offset: 28270},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 887, col: 6, offset: 28058},
+																			pos: position{line: 895, col: 6, offset: 28270},
 																			expr: &choiceExpr{
-																				pos: position{line: 880, col: 5, offset: 27901},
+																				pos: position{line: 888, col: 5, offset: 28113},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 880, col: 5, offset: 27901},
+																						pos: position{line: 888, col: 5, offset: 28113},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 880, col: 5, offset: 27901},
+																								pos:   position{line: 888, col: 5, offset: 28113},
 																								label: "end",
 																								expr: &actionExpr{
 																									pos: position{line: 754, col: 5, offset: 24079},
-																									run: (*parser).callonDocumentFragment361,
+																									run: (*parser).callonDocumentFragment370,
 																									expr: &seqExpr{
 																										pos: position{line: 754, col: 5, offset: 24079},
 																										exprs: []interface{}{
@@ -5695,7 +5733,7 @@ var g = &grammar{
 																												label: "delimiter",
 																												expr: &actionExpr{
 																													pos: position{line: 754, col: 16, offset: 24090},
-																													run: (*parser).callonDocumentFragment364,
+																													run: (*parser).callonDocumentFragment373,
 																													expr: &seqExpr{
 																														pos: position{line: 754, col: 16, offset: 24090},
 																														exprs: []interface{}{
@@ -5721,10 +5759,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 756, col: 8, offset: 24180},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
-																													run: (*parser).callonDocumentFragment370,
+																													pos: position{line: 2860, col: 10, offset: 90451},
+																													run: (*parser).callonDocumentFragment379,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2860, col: 10, offset: 90451},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5733,28 +5771,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2882, col: 8, offset: 90849},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
-																														run: (*parser).callonDocumentFragment373,
+																														pos: position{line: 2869, col: 12, offset: 90622},
+																														run: (*parser).callonDocumentFragment382,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2869, col: 13, offset: 90623},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2869, col: 13, offset: 90623},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2869, col: 20, offset: 90630},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2869, col: 29, offset: 90639},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5763,9 +5801,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2879, col: 8, offset: 90799},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2879, col: 9, offset: 90800,
 																														},
 																													},
 																												},
@@ -5775,45 +5813,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 881, col: 5, offset: 27931},
-																								run: (*parser).callonDocumentFragment380,
+																								pos: position{line: 889, col: 5, offset: 28143},
+																								run: (*parser).callonDocumentFragment389,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2879, col: 8, offset: 90799},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2879, col: 9, offset: 90800,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 888, col: 5, offset: 28087},
+																			pos:   position{line: 896, col: 5, offset: 28299},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentFragment384,
+																				run: (*parser).callonDocumentFragment393,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2877, col: 11, offset: 90785},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2877, col: 13, offset: 90787,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
-																								run: (*parser).callonDocumentFragment389,
+																								pos: position{line: 2806, col: 13, offset: 88977},
+																								run: (*parser).callonDocumentFragment398,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2806, col: 13, offset: 88977},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2806, col: 13, offset: 88977},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5823,28 +5861,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonDocumentFragment393,
+																									pos: position{line: 2869, col: 12, offset: 90622},
+																									run: (*parser).callonDocumentFragment402,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5853,9 +5891,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -5870,22 +5908,22 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 873, col: 5, offset: 27700},
+														pos:   position{line: 881, col: 5, offset: 27912},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 873, col: 9, offset: 27704},
+															pos: position{line: 881, col: 9, offset: 27916},
 															expr: &choiceExpr{
-																pos: position{line: 880, col: 5, offset: 27901},
+																pos: position{line: 888, col: 5, offset: 28113},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 880, col: 5, offset: 27901},
+																		pos: position{line: 888, col: 5, offset: 28113},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 880, col: 5, offset: 27901},
+																				pos:   position{line: 888, col: 5, offset: 28113},
 																				label: "end",
 																				expr: &actionExpr{
 																					pos: position{line: 754, col: 5, offset: 24079},
-																					run: (*parser).callonDocumentFragment405,
+																					run: (*parser).callonDocumentFragment414,
 																					expr: &seqExpr{
 																						pos: position{line: 754, col: 5, offset: 24079},
 																						exprs: []interface{}{
@@ -5894,7 +5932,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 754, col: 16, offset: 24090},
-																									run: (*parser).callonDocumentFragment408,
+																									run: (*parser).callonDocumentFragment417,
 																									expr: &seqExpr{
 																										pos: position{line: 754, col: 16, offset: 24090},
 																										exprs: []interface{}{
@@ -5920,10 +5958,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 756, col: 8, offset: 24180},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonDocumentFragment414,
+																									pos: position{line: 2860, col: 10, offset: 90451},
+																									run: (*parser).callonDocumentFragment423,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2860, col: 10, offset: 90451},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5932,28 +5970,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2882, col: 8, offset: 90849},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonDocumentFragment417,
+																										pos: position{line: 2869, col: 12, offset: 90622},
+																										run: (*parser).callonDocumentFragment426,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2869, col: 13, offset: 90623},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2869, col: 13, offset: 90623},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2869, col: 20, offset: 90630},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2869, col: 29, offset: 90639},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5962,9 +6000,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2879, col: 8, offset: 90799},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2879, col: 9, offset: 90800,
 																										},
 																									},
 																								},
@@ -5974,15 +6012,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 881, col: 5, offset: 27931},
-																				run: (*parser).callonDocumentFragment424,
+																				pos: position{line: 889, col: 5, offset: 28143},
+																				run: (*parser).callonDocumentFragment433,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2879, col: 8, offset: 90799},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2879, col: 9, offset: 90800,
 																		},
 																	},
 																},
@@ -5993,17 +6031,17 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 896, col: 5, offset: 28242},
-											run: (*parser).callonDocumentFragment427,
+											pos: position{line: 904, col: 5, offset: 28454},
+											run: (*parser).callonDocumentFragment436,
 											expr: &seqExpr{
-												pos: position{line: 896, col: 5, offset: 28242},
+												pos: position{line: 904, col: 5, offset: 28454},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 896, col: 5, offset: 28242},
+														pos:   position{line: 904, col: 5, offset: 28454},
 														label: "start",
 														expr: &actionExpr{
 															pos: position{line: 769, col: 5, offset: 24616},
-															run: (*parser).callonDocumentFragment430,
+															run: (*parser).callonDocumentFragment439,
 															expr: &seqExpr{
 																pos: position{line: 769, col: 5, offset: 24616},
 																exprs: []interface{}{
@@ -6012,7 +6050,7 @@ var g = &grammar{
 																		label: "delimiter",
 																		expr: &actionExpr{
 																			pos: position{line: 769, col: 16, offset: 24627},
-																			run: (*parser).callonDocumentFragment433,
+																			run: (*parser).callonDocumentFragment442,
 																			expr: &seqExpr{
 																				pos: position{line: 769, col: 16, offset: 24627},
 																				exprs: []interface{}{
@@ -6038,10 +6076,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 771, col: 8, offset: 24718},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment439,
+																			pos: position{line: 2860, col: 10, offset: 90451},
+																			run: (*parser).callonDocumentFragment448,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2860, col: 10, offset: 90451},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6050,28 +6088,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2882, col: 8, offset: 90849},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment442,
+																				pos: position{line: 2869, col: 12, offset: 90622},
+																				run: (*parser).callonDocumentFragment451,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2869, col: 13, offset: 90623},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2869, col: 13, offset: 90623},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2869, col: 20, offset: 90630},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2869, col: 29, offset: 90639},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6080,9 +6118,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2879, col: 8, offset: 90799},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2879, col: 9, offset: 90800,
 																				},
 																			},
 																		},
@@ -6092,34 +6130,34 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 897, col: 5, offset: 28281},
-														run: (*parser).callonDocumentFragment449,
+														pos: position{line: 905, col: 5, offset: 28493},
+														run: (*parser).callonDocumentFragment458,
 													},
 													&labeledExpr{
-														pos:   position{line: 900, col: 5, offset: 28373},
+														pos:   position{line: 908, col: 5, offset: 28585},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 915, col: 5, offset: 28771},
+															pos: position{line: 923, col: 5, offset: 28983},
 															expr: &actionExpr{
-																pos: position{line: 915, col: 6, offset: 28772},
-																run: (*parser).callonDocumentFragment452,
+																pos: position{line: 923, col: 6, offset: 28984},
+																run: (*parser).callonDocumentFragment461,
 																expr: &seqExpr{
-																	pos: position{line: 915, col: 6, offset: 28772},
+																	pos: position{line: 923, col: 6, offset: 28984},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 915, col: 6, offset: 28772},
+																			pos: position{line: 923, col: 6, offset: 28984},
 																			expr: &choiceExpr{
-																				pos: position{line: 908, col: 5, offset: 28613},
+																				pos: position{line: 916, col: 5, offset: 28825},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 908, col: 5, offset: 28613},
+																						pos: position{line: 916, col: 5, offset: 28825},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 908, col: 5, offset: 28613},
+																								pos:   position{line: 916, col: 5, offset: 28825},
 																								label: "end",
 																								expr: &actionExpr{
 																									pos: position{line: 769, col: 5, offset: 24616},
-																									run: (*parser).callonDocumentFragment458,
+																									run: (*parser).callonDocumentFragment467,
 																									expr: &seqExpr{
 																										pos: position{line: 769, col: 5, offset: 24616},
 																										exprs: []interface{}{
@@ -6128,7 +6166,7 @@ var g = &grammar{
 																												label: "delimiter",
 																												expr: &actionExpr{
 																													pos: position{line: 769, col: 16, offset: 24627},
-																													run: (*parser).callonDocumentFragment461,
+																													run: (*parser).callonDocumentFragment470,
 																													expr: &seqExpr{
 																														pos: position{line: 769, col: 16, offset: 24627},
 																														exprs: []interface{}{
@@ -6154,10 +6192,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 771, col: 8, offset: 24718},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
-																													run: (*parser).callonDocumentFragment467,
+																													pos: position{line: 2860, col: 10, offset: 90451},
+																													run: (*parser).callonDocumentFragment476,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2860, col: 10, offset: 90451},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6166,28 +6204,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2882, col: 8, offset: 90849},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
-																														run: (*parser).callonDocumentFragment470,
+																														pos: position{line: 2869, col: 12, offset: 90622},
+																														run: (*parser).callonDocumentFragment479,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2869, col: 13, offset: 90623},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2869, col: 13, offset: 90623},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2869, col: 20, offset: 90630},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2869, col: 29, offset: 90639},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6196,9 +6234,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2879, col: 8, offset: 90799},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2879, col: 9, offset: 90800,
 																														},
 																													},
 																												},
@@ -6208,45 +6246,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 909, col: 5, offset: 28644},
-																								run: (*parser).callonDocumentFragment477,
+																								pos: position{line: 917, col: 5, offset: 28856},
+																								run: (*parser).callonDocumentFragment486,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2879, col: 8, offset: 90799},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2879, col: 9, offset: 90800,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 916, col: 5, offset: 28802},
+																			pos:   position{line: 924, col: 5, offset: 29014},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentFragment481,
+																				run: (*parser).callonDocumentFragment490,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2877, col: 11, offset: 90785},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2877, col: 13, offset: 90787,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
-																								run: (*parser).callonDocumentFragment486,
+																								pos: position{line: 2806, col: 13, offset: 88977},
+																								run: (*parser).callonDocumentFragment495,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2806, col: 13, offset: 88977},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2806, col: 13, offset: 88977},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6256,28 +6294,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonDocumentFragment490,
+																									pos: position{line: 2869, col: 12, offset: 90622},
+																									run: (*parser).callonDocumentFragment499,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6286,9 +6324,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -6303,22 +6341,22 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 901, col: 5, offset: 28407},
+														pos:   position{line: 909, col: 5, offset: 28619},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 901, col: 9, offset: 28411},
+															pos: position{line: 909, col: 9, offset: 28623},
 															expr: &choiceExpr{
-																pos: position{line: 908, col: 5, offset: 28613},
+																pos: position{line: 916, col: 5, offset: 28825},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 908, col: 5, offset: 28613},
+																		pos: position{line: 916, col: 5, offset: 28825},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 908, col: 5, offset: 28613},
+																				pos:   position{line: 916, col: 5, offset: 28825},
 																				label: "end",
 																				expr: &actionExpr{
 																					pos: position{line: 769, col: 5, offset: 24616},
-																					run: (*parser).callonDocumentFragment502,
+																					run: (*parser).callonDocumentFragment511,
 																					expr: &seqExpr{
 																						pos: position{line: 769, col: 5, offset: 24616},
 																						exprs: []interface{}{
@@ -6327,7 +6365,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 769, col: 16, offset: 24627},
-																									run: (*parser).callonDocumentFragment505,
+																									run: (*parser).callonDocumentFragment514,
 																									expr: &seqExpr{
 																										pos: position{line: 769, col: 16, offset: 24627},
 																										exprs: []interface{}{
@@ -6353,10 +6391,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 771, col: 8, offset: 24718},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonDocumentFragment511,
+																									pos: position{line: 2860, col: 10, offset: 90451},
+																									run: (*parser).callonDocumentFragment520,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2860, col: 10, offset: 90451},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6365,28 +6403,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2882, col: 8, offset: 90849},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonDocumentFragment514,
+																										pos: position{line: 2869, col: 12, offset: 90622},
+																										run: (*parser).callonDocumentFragment523,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2869, col: 13, offset: 90623},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2869, col: 13, offset: 90623},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2869, col: 20, offset: 90630},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2869, col: 29, offset: 90639},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6395,9 +6433,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2879, col: 8, offset: 90799},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2879, col: 9, offset: 90800,
 																										},
 																									},
 																								},
@@ -6407,15 +6445,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 909, col: 5, offset: 28644},
-																				run: (*parser).callonDocumentFragment521,
+																				pos: position{line: 917, col: 5, offset: 28856},
+																				run: (*parser).callonDocumentFragment530,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2879, col: 8, offset: 90799},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2879, col: 9, offset: 90800,
 																		},
 																	},
 																},
@@ -6426,17 +6464,17 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 924, col: 5, offset: 28957},
-											run: (*parser).callonDocumentFragment524,
+											pos: position{line: 932, col: 5, offset: 29169},
+											run: (*parser).callonDocumentFragment533,
 											expr: &seqExpr{
-												pos: position{line: 924, col: 5, offset: 28957},
+												pos: position{line: 932, col: 5, offset: 29169},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 924, col: 5, offset: 28957},
+														pos:   position{line: 932, col: 5, offset: 29169},
 														label: "start",
 														expr: &actionExpr{
 															pos: position{line: 783, col: 5, offset: 25092},
-															run: (*parser).callonDocumentFragment527,
+															run: (*parser).callonDocumentFragment536,
 															expr: &seqExpr{
 																pos: position{line: 783, col: 5, offset: 25092},
 																exprs: []interface{}{
@@ -6445,7 +6483,7 @@ var g = &grammar{
 																		label: "delimiter",
 																		expr: &actionExpr{
 																			pos: position{line: 783, col: 16, offset: 25103},
-																			run: (*parser).callonDocumentFragment530,
+																			run: (*parser).callonDocumentFragment539,
 																			expr: &seqExpr{
 																				pos: position{line: 783, col: 16, offset: 25103},
 																				exprs: []interface{}{
@@ -6471,10 +6509,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 8, offset: 25194},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment536,
+																			pos: position{line: 2860, col: 10, offset: 90451},
+																			run: (*parser).callonDocumentFragment545,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2860, col: 10, offset: 90451},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6483,28 +6521,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2882, col: 8, offset: 90849},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment539,
+																				pos: position{line: 2869, col: 12, offset: 90622},
+																				run: (*parser).callonDocumentFragment548,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2869, col: 13, offset: 90623},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2869, col: 13, offset: 90623},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2869, col: 20, offset: 90630},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2869, col: 29, offset: 90639},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6513,9 +6551,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2879, col: 8, offset: 90799},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2879, col: 9, offset: 90800,
 																				},
 																			},
 																		},
@@ -6525,34 +6563,34 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 925, col: 5, offset: 28996},
-														run: (*parser).callonDocumentFragment546,
+														pos: position{line: 933, col: 5, offset: 29208},
+														run: (*parser).callonDocumentFragment555,
 													},
 													&labeledExpr{
-														pos:   position{line: 928, col: 5, offset: 29088},
+														pos:   position{line: 936, col: 5, offset: 29300},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 943, col: 5, offset: 29486},
+															pos: position{line: 951, col: 5, offset: 29698},
 															expr: &actionExpr{
-																pos: position{line: 943, col: 6, offset: 29487},
-																run: (*parser).callonDocumentFragment549,
+																pos: position{line: 951, col: 6, offset: 29699},
+																run: (*parser).callonDocumentFragment558,
 																expr: &seqExpr{
-																	pos: position{line: 943, col: 6, offset: 29487},
+																	pos: position{line: 951, col: 6, offset: 29699},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 943, col: 6, offset: 29487},
+																			pos: position{line: 951, col: 6, offset: 29699},
 																			expr: &choiceExpr{
-																				pos: position{line: 936, col: 5, offset: 29328},
+																				pos: position{line: 944, col: 5, offset: 29540},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 936, col: 5, offset: 29328},
+																						pos: position{line: 944, col: 5, offset: 29540},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 936, col: 5, offset: 29328},
+																								pos:   position{line: 944, col: 5, offset: 29540},
 																								label: "end",
 																								expr: &actionExpr{
 																									pos: position{line: 783, col: 5, offset: 25092},
-																									run: (*parser).callonDocumentFragment555,
+																									run: (*parser).callonDocumentFragment564,
 																									expr: &seqExpr{
 																										pos: position{line: 783, col: 5, offset: 25092},
 																										exprs: []interface{}{
@@ -6561,7 +6599,7 @@ var g = &grammar{
 																												label: "delimiter",
 																												expr: &actionExpr{
 																													pos: position{line: 783, col: 16, offset: 25103},
-																													run: (*parser).callonDocumentFragment558,
+																													run: (*parser).callonDocumentFragment567,
 																													expr: &seqExpr{
 																														pos: position{line: 783, col: 16, offset: 25103},
 																														exprs: []interface{}{
@@ -6587,10 +6625,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 785, col: 8, offset: 25194},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
-																													run: (*parser).callonDocumentFragment564,
+																													pos: position{line: 2860, col: 10, offset: 90451},
+																													run: (*parser).callonDocumentFragment573,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2860, col: 10, offset: 90451},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6599,28 +6637,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2882, col: 8, offset: 90849},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
-																														run: (*parser).callonDocumentFragment567,
+																														pos: position{line: 2869, col: 12, offset: 90622},
+																														run: (*parser).callonDocumentFragment576,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2869, col: 13, offset: 90623},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2869, col: 13, offset: 90623},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2869, col: 20, offset: 90630},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2869, col: 29, offset: 90639},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6629,9 +6667,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2879, col: 8, offset: 90799},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2879, col: 9, offset: 90800,
 																														},
 																													},
 																												},
@@ -6641,45 +6679,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 937, col: 5, offset: 29359},
-																								run: (*parser).callonDocumentFragment574,
+																								pos: position{line: 945, col: 5, offset: 29571},
+																								run: (*parser).callonDocumentFragment583,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2879, col: 8, offset: 90799},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2879, col: 9, offset: 90800,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 944, col: 5, offset: 29517},
+																			pos:   position{line: 952, col: 5, offset: 29729},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentFragment578,
+																				run: (*parser).callonDocumentFragment587,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2877, col: 11, offset: 90785},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2877, col: 13, offset: 90787,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
-																								run: (*parser).callonDocumentFragment583,
+																								pos: position{line: 2806, col: 13, offset: 88977},
+																								run: (*parser).callonDocumentFragment592,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2806, col: 13, offset: 88977},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2806, col: 13, offset: 88977},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6689,28 +6727,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonDocumentFragment587,
+																									pos: position{line: 2869, col: 12, offset: 90622},
+																									run: (*parser).callonDocumentFragment596,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6719,9 +6757,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -6736,22 +6774,22 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 929, col: 5, offset: 29122},
+														pos:   position{line: 937, col: 5, offset: 29334},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 929, col: 9, offset: 29126},
+															pos: position{line: 937, col: 9, offset: 29338},
 															expr: &choiceExpr{
-																pos: position{line: 936, col: 5, offset: 29328},
+																pos: position{line: 944, col: 5, offset: 29540},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 936, col: 5, offset: 29328},
+																		pos: position{line: 944, col: 5, offset: 29540},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 936, col: 5, offset: 29328},
+																				pos:   position{line: 944, col: 5, offset: 29540},
 																				label: "end",
 																				expr: &actionExpr{
 																					pos: position{line: 783, col: 5, offset: 25092},
-																					run: (*parser).callonDocumentFragment599,
+																					run: (*parser).callonDocumentFragment608,
 																					expr: &seqExpr{
 																						pos: position{line: 783, col: 5, offset: 25092},
 																						exprs: []interface{}{
@@ -6760,7 +6798,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 783, col: 16, offset: 25103},
-																									run: (*parser).callonDocumentFragment602,
+																									run: (*parser).callonDocumentFragment611,
 																									expr: &seqExpr{
 																										pos: position{line: 783, col: 16, offset: 25103},
 																										exprs: []interface{}{
@@ -6786,10 +6824,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 785, col: 8, offset: 25194},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonDocumentFragment608,
+																									pos: position{line: 2860, col: 10, offset: 90451},
+																									run: (*parser).callonDocumentFragment617,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2860, col: 10, offset: 90451},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6798,28 +6836,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2882, col: 8, offset: 90849},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonDocumentFragment611,
+																										pos: position{line: 2869, col: 12, offset: 90622},
+																										run: (*parser).callonDocumentFragment620,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2869, col: 13, offset: 90623},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2869, col: 13, offset: 90623},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2869, col: 20, offset: 90630},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2869, col: 29, offset: 90639},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6828,9 +6866,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2879, col: 8, offset: 90799},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2879, col: 9, offset: 90800,
 																										},
 																									},
 																								},
@@ -6840,15 +6878,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 937, col: 5, offset: 29359},
-																				run: (*parser).callonDocumentFragment618,
+																				pos: position{line: 945, col: 5, offset: 29571},
+																				run: (*parser).callonDocumentFragment627,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2879, col: 8, offset: 90799},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2879, col: 9, offset: 90800,
 																		},
 																	},
 																},
@@ -6859,41 +6897,41 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 975, col: 5, offset: 30400},
-											run: (*parser).callonDocumentFragment621,
+											pos: position{line: 983, col: 5, offset: 30612},
+											run: (*parser).callonDocumentFragment630,
 											expr: &seqExpr{
-												pos: position{line: 975, col: 5, offset: 30400},
+												pos: position{line: 983, col: 5, offset: 30612},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 975, col: 5, offset: 30400},
+														pos:   position{line: 983, col: 5, offset: 30612},
 														label: "firstLine",
 														expr: &actionExpr{
-															pos: position{line: 982, col: 5, offset: 30659},
-															run: (*parser).callonDocumentFragment624,
+															pos: position{line: 990, col: 5, offset: 30871},
+															run: (*parser).callonDocumentFragment633,
 															expr: &seqExpr{
-																pos: position{line: 982, col: 5, offset: 30659},
+																pos: position{line: 990, col: 5, offset: 30871},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 982, col: 5, offset: 30659},
+																		pos: position{line: 990, col: 5, offset: 30871},
 																		expr: &actionExpr{
 																			pos: position{line: 677, col: 14, offset: 21489},
-																			run: (*parser).callonDocumentFragment627,
+																			run: (*parser).callonDocumentFragment636,
 																			expr: &seqExpr{
 																				pos: position{line: 677, col: 14, offset: 21489},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2877, col: 11, offset: 90785},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2877, col: 13, offset: 90787,
 																						},
 																					},
 																					&zeroOrMoreExpr{
 																						pos: position{line: 677, col: 21, offset: 21496},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
-																							run: (*parser).callonDocumentFragment632,
+																							pos: position{line: 2860, col: 10, offset: 90451},
+																							run: (*parser).callonDocumentFragment641,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2860, col: 10, offset: 90451},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -6902,28 +6940,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2882, col: 8, offset: 90849},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonDocumentFragment635,
+																								pos: position{line: 2869, col: 12, offset: 90622},
+																								run: (*parser).callonDocumentFragment644,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2869, col: 13, offset: 90623},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2869, col: 13, offset: 90623},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2869, col: 20, offset: 90630},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2869, col: 29, offset: 90639},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -6932,9 +6970,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2879, col: 8, offset: 90799},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2879, col: 9, offset: 90800,
 																								},
 																							},
 																						},
@@ -6944,21 +6982,21 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 983, col: 5, offset: 30674},
+																		pos:        position{line: 991, col: 5, offset: 30886},
 																		val:        "> ",
 																		ignoreCase: false,
 																		want:       "\"> \"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 984, col: 5, offset: 30684},
+																		pos:   position{line: 992, col: 5, offset: 30896},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
-																			run: (*parser).callonDocumentFragment644,
+																			pos: position{line: 2810, col: 14, offset: 89044},
+																			run: (*parser).callonDocumentFragment653,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2802, col: 14, offset: 88832},
+																				pos: position{line: 2810, col: 14, offset: 89044},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2802, col: 14, offset: 88832},
+																					pos:        position{line: 2810, col: 14, offset: 89044},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -6968,28 +7006,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2882, col: 8, offset: 90849},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment648,
+																				pos: position{line: 2869, col: 12, offset: 90622},
+																				run: (*parser).callonDocumentFragment657,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2869, col: 13, offset: 90623},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2869, col: 13, offset: 90623},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2869, col: 20, offset: 90630},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2869, col: 29, offset: 90639},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6998,9 +7036,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2879, col: 8, offset: 90799},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2879, col: 9, offset: 90800,
 																				},
 																			},
 																		},
@@ -7010,40 +7048,40 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 976, col: 5, offset: 30437},
+														pos:   position{line: 984, col: 5, offset: 30649},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 976, col: 16, offset: 30448},
+															pos: position{line: 984, col: 16, offset: 30660},
 															expr: &choiceExpr{
-																pos: position{line: 976, col: 17, offset: 30449},
+																pos: position{line: 984, col: 17, offset: 30661},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 982, col: 5, offset: 30659},
-																		run: (*parser).callonDocumentFragment658,
+																		pos: position{line: 990, col: 5, offset: 30871},
+																		run: (*parser).callonDocumentFragment667,
 																		expr: &seqExpr{
-																			pos: position{line: 982, col: 5, offset: 30659},
+																			pos: position{line: 990, col: 5, offset: 30871},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 982, col: 5, offset: 30659},
+																					pos: position{line: 990, col: 5, offset: 30871},
 																					expr: &actionExpr{
 																						pos: position{line: 677, col: 14, offset: 21489},
-																						run: (*parser).callonDocumentFragment661,
+																						run: (*parser).callonDocumentFragment670,
 																						expr: &seqExpr{
 																							pos: position{line: 677, col: 14, offset: 21489},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2869, col: 11, offset: 90573},
+																									pos: position{line: 2877, col: 11, offset: 90785},
 																									expr: &anyMatcher{
-																										line: 2869, col: 13, offset: 90575,
+																										line: 2877, col: 13, offset: 90787,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 677, col: 21, offset: 21496},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
-																										run: (*parser).callonDocumentFragment666,
+																										pos: position{line: 2860, col: 10, offset: 90451},
+																										run: (*parser).callonDocumentFragment675,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2860, col: 10, offset: 90451},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7052,28 +7090,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2882, col: 8, offset: 90849},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
-																											run: (*parser).callonDocumentFragment669,
+																											pos: position{line: 2869, col: 12, offset: 90622},
+																											run: (*parser).callonDocumentFragment678,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2869, col: 13, offset: 90623},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2869, col: 13, offset: 90623},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2869, col: 20, offset: 90630},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2869, col: 29, offset: 90639},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7082,9 +7120,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2879, col: 8, offset: 90799},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2879, col: 9, offset: 90800,
 																											},
 																										},
 																									},
@@ -7094,21 +7132,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 983, col: 5, offset: 30674},
+																					pos:        position{line: 991, col: 5, offset: 30886},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 984, col: 5, offset: 30684},
+																					pos:   position{line: 992, col: 5, offset: 30896},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2802, col: 14, offset: 88832},
-																						run: (*parser).callonDocumentFragment678,
+																						pos: position{line: 2810, col: 14, offset: 89044},
+																						run: (*parser).callonDocumentFragment687,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2802, col: 14, offset: 88832},
+																							pos: position{line: 2810, col: 14, offset: 89044},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2802, col: 14, offset: 88832},
+																								pos:        position{line: 2810, col: 14, offset: 89044},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7118,28 +7156,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2882, col: 8, offset: 90849},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
-																							run: (*parser).callonDocumentFragment682,
+																							pos: position{line: 2869, col: 12, offset: 90622},
+																							run: (*parser).callonDocumentFragment691,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2869, col: 13, offset: 90623},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2869, col: 13, offset: 90623},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2869, col: 20, offset: 90630},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2869, col: 29, offset: 90639},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7148,9 +7186,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2879, col: 8, offset: 90799},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2879, col: 9, offset: 90800,
 																							},
 																						},
 																					},
@@ -7159,21 +7197,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1784, col: 5, offset: 57605},
-																		run: (*parser).callonDocumentFragment689,
+																		pos: position{line: 1792, col: 5, offset: 57817},
+																		run: (*parser).callonDocumentFragment698,
 																		expr: &seqExpr{
-																			pos: position{line: 1784, col: 5, offset: 57605},
+																			pos: position{line: 1792, col: 5, offset: 57817},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1784, col: 5, offset: 57605},
+																					pos:   position{line: 1792, col: 5, offset: 57817},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2802, col: 14, offset: 88832},
-																						run: (*parser).callonDocumentFragment692,
+																						pos: position{line: 2810, col: 14, offset: 89044},
+																						run: (*parser).callonDocumentFragment701,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2802, col: 14, offset: 88832},
+																							pos: position{line: 2810, col: 14, offset: 89044},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2802, col: 14, offset: 88832},
+																								pos:        position{line: 2810, col: 14, offset: 89044},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7183,32 +7221,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1785, col: 5, offset: 57629},
-																					run: (*parser).callonDocumentFragment695,
+																					pos: position{line: 1793, col: 5, offset: 57841},
+																					run: (*parser).callonDocumentFragment704,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2882, col: 8, offset: 90849},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
-																							run: (*parser).callonDocumentFragment697,
+																							pos: position{line: 2869, col: 12, offset: 90622},
+																							run: (*parser).callonDocumentFragment706,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2869, col: 13, offset: 90623},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2869, col: 13, offset: 90623},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2869, col: 20, offset: 90630},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2869, col: 29, offset: 90639},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7217,9 +7255,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2879, col: 8, offset: 90799},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2879, col: 9, offset: 90800,
 																							},
 																						},
 																					},
@@ -7235,17 +7273,17 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 997, col: 5, offset: 30949},
-											run: (*parser).callonDocumentFragment704,
+											pos: position{line: 1005, col: 5, offset: 31161},
+											run: (*parser).callonDocumentFragment713,
 											expr: &seqExpr{
-												pos: position{line: 997, col: 5, offset: 30949},
+												pos: position{line: 1005, col: 5, offset: 31161},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 997, col: 5, offset: 30949},
+														pos:   position{line: 1005, col: 5, offset: 31161},
 														label: "start",
 														expr: &actionExpr{
 															pos: position{line: 776, col: 5, offset: 24861},
-															run: (*parser).callonDocumentFragment707,
+															run: (*parser).callonDocumentFragment716,
 															expr: &seqExpr{
 																pos: position{line: 776, col: 5, offset: 24861},
 																exprs: []interface{}{
@@ -7254,7 +7292,7 @@ var g = &grammar{
 																		label: "delimiter",
 																		expr: &actionExpr{
 																			pos: position{line: 776, col: 16, offset: 24872},
-																			run: (*parser).callonDocumentFragment710,
+																			run: (*parser).callonDocumentFragment719,
 																			expr: &litMatcher{
 																				pos:        position{line: 776, col: 16, offset: 24872},
 																				val:        "--",
@@ -7266,10 +7304,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 778, col: 8, offset: 24949},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment713,
+																			pos: position{line: 2860, col: 10, offset: 90451},
+																			run: (*parser).callonDocumentFragment722,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2860, col: 10, offset: 90451},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7278,28 +7316,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2882, col: 8, offset: 90849},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment716,
+																				pos: position{line: 2869, col: 12, offset: 90622},
+																				run: (*parser).callonDocumentFragment725,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2869, col: 13, offset: 90623},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2869, col: 13, offset: 90623},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2869, col: 20, offset: 90630},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2869, col: 29, offset: 90639},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7308,9 +7346,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2879, col: 8, offset: 90799},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2879, col: 9, offset: 90800,
 																				},
 																			},
 																		},
@@ -7320,24 +7358,24 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 998, col: 5, offset: 30985},
+														pos:   position{line: 1006, col: 5, offset: 31197},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1008, col: 5, offset: 31253},
+															pos: position{line: 1016, col: 5, offset: 31465},
 															expr: &actionExpr{
-																pos: position{line: 1008, col: 6, offset: 31254},
-																run: (*parser).callonDocumentFragment725,
+																pos: position{line: 1016, col: 6, offset: 31466},
+																run: (*parser).callonDocumentFragment734,
 																expr: &seqExpr{
-																	pos: position{line: 1008, col: 6, offset: 31254},
+																	pos: position{line: 1016, col: 6, offset: 31466},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1008, col: 6, offset: 31254},
+																			pos: position{line: 1016, col: 6, offset: 31466},
 																			expr: &choiceExpr{
-																				pos: position{line: 1005, col: 26, offset: 31202},
+																				pos: position{line: 1013, col: 26, offset: 31414},
 																				alternatives: []interface{}{
 																					&actionExpr{
 																						pos: position{line: 776, col: 5, offset: 24861},
-																						run: (*parser).callonDocumentFragment729,
+																						run: (*parser).callonDocumentFragment738,
 																						expr: &seqExpr{
 																							pos: position{line: 776, col: 5, offset: 24861},
 																							exprs: []interface{}{
@@ -7346,7 +7384,7 @@ var g = &grammar{
 																									label: "delimiter",
 																									expr: &actionExpr{
 																										pos: position{line: 776, col: 16, offset: 24872},
-																										run: (*parser).callonDocumentFragment732,
+																										run: (*parser).callonDocumentFragment741,
 																										expr: &litMatcher{
 																											pos:        position{line: 776, col: 16, offset: 24872},
 																											val:        "--",
@@ -7358,10 +7396,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 778, col: 8, offset: 24949},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
-																										run: (*parser).callonDocumentFragment735,
+																										pos: position{line: 2860, col: 10, offset: 90451},
+																										run: (*parser).callonDocumentFragment744,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2860, col: 10, offset: 90451},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7370,28 +7408,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2882, col: 8, offset: 90849},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
-																											run: (*parser).callonDocumentFragment738,
+																											pos: position{line: 2869, col: 12, offset: 90622},
+																											run: (*parser).callonDocumentFragment747,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2869, col: 13, offset: 90623},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2869, col: 13, offset: 90623},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2869, col: 20, offset: 90630},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2869, col: 29, offset: 90639},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7400,9 +7438,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2879, col: 8, offset: 90799},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2879, col: 9, offset: 90800,
 																											},
 																										},
 																									},
@@ -7411,39 +7449,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2879, col: 8, offset: 90799},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2879, col: 9, offset: 90800,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1009, col: 5, offset: 31281},
+																			pos:   position{line: 1017, col: 5, offset: 31493},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentFragment748,
+																				run: (*parser).callonDocumentFragment757,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2877, col: 11, offset: 90785},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2877, col: 13, offset: 90787,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
-																								run: (*parser).callonDocumentFragment753,
+																								pos: position{line: 2806, col: 13, offset: 88977},
+																								run: (*parser).callonDocumentFragment762,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2806, col: 13, offset: 88977},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2806, col: 13, offset: 88977},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7453,28 +7491,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonDocumentFragment757,
+																									pos: position{line: 2869, col: 12, offset: 90622},
+																									run: (*parser).callonDocumentFragment766,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7483,9 +7521,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -7500,16 +7538,16 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 999, col: 5, offset: 31016},
+														pos:   position{line: 1007, col: 5, offset: 31228},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 999, col: 9, offset: 31020},
+															pos: position{line: 1007, col: 9, offset: 31232},
 															expr: &choiceExpr{
-																pos: position{line: 1005, col: 26, offset: 31202},
+																pos: position{line: 1013, col: 26, offset: 31414},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 776, col: 5, offset: 24861},
-																		run: (*parser).callonDocumentFragment767,
+																		run: (*parser).callonDocumentFragment776,
 																		expr: &seqExpr{
 																			pos: position{line: 776, col: 5, offset: 24861},
 																			exprs: []interface{}{
@@ -7518,7 +7556,7 @@ var g = &grammar{
 																					label: "delimiter",
 																					expr: &actionExpr{
 																						pos: position{line: 776, col: 16, offset: 24872},
-																						run: (*parser).callonDocumentFragment770,
+																						run: (*parser).callonDocumentFragment779,
 																						expr: &litMatcher{
 																							pos:        position{line: 776, col: 16, offset: 24872},
 																							val:        "--",
@@ -7530,10 +7568,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 778, col: 8, offset: 24949},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonDocumentFragment773,
+																						pos: position{line: 2860, col: 10, offset: 90451},
+																						run: (*parser).callonDocumentFragment782,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2860, col: 10, offset: 90451},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7542,28 +7580,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2882, col: 8, offset: 90849},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
-																							run: (*parser).callonDocumentFragment776,
+																							pos: position{line: 2869, col: 12, offset: 90622},
+																							run: (*parser).callonDocumentFragment785,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2869, col: 13, offset: 90623},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2869, col: 13, offset: 90623},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2869, col: 20, offset: 90630},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2869, col: 29, offset: 90639},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7572,9 +7610,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2879, col: 8, offset: 90799},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2879, col: 9, offset: 90800,
 																							},
 																						},
 																					},
@@ -7583,9 +7621,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2879, col: 8, offset: 90799},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2879, col: 9, offset: 90800,
 																		},
 																	},
 																},
@@ -7596,17 +7634,17 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1017, col: 5, offset: 31444},
-											run: (*parser).callonDocumentFragment785,
+											pos: position{line: 1025, col: 5, offset: 31656},
+											run: (*parser).callonDocumentFragment794,
 											expr: &seqExpr{
-												pos: position{line: 1017, col: 5, offset: 31444},
+												pos: position{line: 1025, col: 5, offset: 31656},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1017, col: 5, offset: 31444},
+														pos:   position{line: 1025, col: 5, offset: 31656},
 														label: "start",
 														expr: &actionExpr{
 															pos: position{line: 790, col: 5, offset: 25344},
-															run: (*parser).callonDocumentFragment788,
+															run: (*parser).callonDocumentFragment797,
 															expr: &seqExpr{
 																pos: position{line: 790, col: 5, offset: 25344},
 																exprs: []interface{}{
@@ -7615,7 +7653,7 @@ var g = &grammar{
 																		label: "delimiter",
 																		expr: &actionExpr{
 																			pos: position{line: 790, col: 16, offset: 25355},
-																			run: (*parser).callonDocumentFragment791,
+																			run: (*parser).callonDocumentFragment800,
 																			expr: &seqExpr{
 																				pos: position{line: 790, col: 16, offset: 25355},
 																				exprs: []interface{}{
@@ -7641,10 +7679,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 792, col: 8, offset: 25446},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment797,
+																			pos: position{line: 2860, col: 10, offset: 90451},
+																			run: (*parser).callonDocumentFragment806,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2860, col: 10, offset: 90451},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7653,28 +7691,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2882, col: 8, offset: 90849},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment800,
+																				pos: position{line: 2869, col: 12, offset: 90622},
+																				run: (*parser).callonDocumentFragment809,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2869, col: 13, offset: 90623},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2869, col: 13, offset: 90623},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2869, col: 20, offset: 90630},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2869, col: 29, offset: 90639},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7683,9 +7721,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2879, col: 8, offset: 90799},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2879, col: 9, offset: 90800,
 																				},
 																			},
 																		},
@@ -7695,34 +7733,34 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1018, col: 5, offset: 31487},
-														run: (*parser).callonDocumentFragment807,
+														pos: position{line: 1026, col: 5, offset: 31699},
+														run: (*parser).callonDocumentFragment816,
 													},
 													&labeledExpr{
-														pos:   position{line: 1021, col: 5, offset: 31579},
+														pos:   position{line: 1029, col: 5, offset: 31791},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1036, col: 5, offset: 32009},
+															pos: position{line: 1044, col: 5, offset: 32221},
 															expr: &actionExpr{
-																pos: position{line: 1036, col: 6, offset: 32010},
-																run: (*parser).callonDocumentFragment810,
+																pos: position{line: 1044, col: 6, offset: 32222},
+																run: (*parser).callonDocumentFragment819,
 																expr: &seqExpr{
-																	pos: position{line: 1036, col: 6, offset: 32010},
+																	pos: position{line: 1044, col: 6, offset: 32222},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1036, col: 6, offset: 32010},
+																			pos: position{line: 1044, col: 6, offset: 32222},
 																			expr: &choiceExpr{
-																				pos: position{line: 1029, col: 5, offset: 31843},
+																				pos: position{line: 1037, col: 5, offset: 32055},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1029, col: 5, offset: 31843},
+																						pos: position{line: 1037, col: 5, offset: 32055},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1029, col: 5, offset: 31843},
+																								pos:   position{line: 1037, col: 5, offset: 32055},
 																								label: "end",
 																								expr: &actionExpr{
 																									pos: position{line: 790, col: 5, offset: 25344},
-																									run: (*parser).callonDocumentFragment816,
+																									run: (*parser).callonDocumentFragment825,
 																									expr: &seqExpr{
 																										pos: position{line: 790, col: 5, offset: 25344},
 																										exprs: []interface{}{
@@ -7731,7 +7769,7 @@ var g = &grammar{
 																												label: "delimiter",
 																												expr: &actionExpr{
 																													pos: position{line: 790, col: 16, offset: 25355},
-																													run: (*parser).callonDocumentFragment819,
+																													run: (*parser).callonDocumentFragment828,
 																													expr: &seqExpr{
 																														pos: position{line: 790, col: 16, offset: 25355},
 																														exprs: []interface{}{
@@ -7757,10 +7795,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 792, col: 8, offset: 25446},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
-																													run: (*parser).callonDocumentFragment825,
+																													pos: position{line: 2860, col: 10, offset: 90451},
+																													run: (*parser).callonDocumentFragment834,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2860, col: 10, offset: 90451},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7769,28 +7807,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2882, col: 8, offset: 90849},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
-																														run: (*parser).callonDocumentFragment828,
+																														pos: position{line: 2869, col: 12, offset: 90622},
+																														run: (*parser).callonDocumentFragment837,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2869, col: 13, offset: 90623},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2869, col: 13, offset: 90623},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2869, col: 20, offset: 90630},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2869, col: 29, offset: 90639},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7799,9 +7837,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2879, col: 8, offset: 90799},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2879, col: 9, offset: 90800,
 																														},
 																													},
 																												},
@@ -7811,478 +7849,478 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1030, col: 5, offset: 31878},
-																								run: (*parser).callonDocumentFragment835,
-																							},
-																						},
-																					},
-																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
-																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
-																						},
-																					},
-																				},
-																			},
-																		},
-																		&labeledExpr{
-																			pos:   position{line: 1037, col: 5, offset: 32044},
-																			label: "line",
-																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentFragment839,
-																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
-																					exprs: []interface{}{
-																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
-																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
-																							},
-																						},
-																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
-																							label: "content",
-																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 1038, col: 5, offset: 32090},
 																								run: (*parser).callonDocumentFragment844,
-																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
-																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
-																										val:        "[^\\r\\n]",
-																										chars:      []rune{'\r', '\n'},
-																										ignoreCase: false,
-																										inverted:   true,
-																									},
-																								},
-																							},
-																						},
-																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
-																							alternatives: []interface{}{
-																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonDocumentFragment848,
-																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
-																										alternatives: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
-																												val:        "\n",
-																												ignoreCase: false,
-																												want:       "\"\\n\"",
-																											},
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
-																												val:        "\r\n",
-																												ignoreCase: false,
-																												want:       "\"\\r\\n\"",
-																											},
-																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
-																												val:        "\r",
-																												ignoreCase: false,
-																												want:       "\"\\r\"",
-																											},
-																										},
-																									},
-																								},
-																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
-																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
-																									},
-																								},
-																							},
-																						},
-																					},
-																				},
-																			},
-																		},
-																	},
-																},
-															},
-														},
-													},
-													&labeledExpr{
-														pos:   position{line: 1022, col: 5, offset: 31617},
-														label: "end",
-														expr: &zeroOrOneExpr{
-															pos: position{line: 1022, col: 9, offset: 31621},
-															expr: &choiceExpr{
-																pos: position{line: 1029, col: 5, offset: 31843},
-																alternatives: []interface{}{
-																	&seqExpr{
-																		pos: position{line: 1029, col: 5, offset: 31843},
-																		exprs: []interface{}{
-																			&labeledExpr{
-																				pos:   position{line: 1029, col: 5, offset: 31843},
-																				label: "end",
-																				expr: &actionExpr{
-																					pos: position{line: 790, col: 5, offset: 25344},
-																					run: (*parser).callonDocumentFragment860,
-																					expr: &seqExpr{
-																						pos: position{line: 790, col: 5, offset: 25344},
-																						exprs: []interface{}{
-																							&labeledExpr{
-																								pos:   position{line: 790, col: 5, offset: 25344},
-																								label: "delimiter",
-																								expr: &actionExpr{
-																									pos: position{line: 790, col: 16, offset: 25355},
-																									run: (*parser).callonDocumentFragment863,
-																									expr: &seqExpr{
-																										pos: position{line: 790, col: 16, offset: 25355},
-																										exprs: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 790, col: 16, offset: 25355},
-																												val:        "++++",
-																												ignoreCase: false,
-																												want:       "\"++++\"",
-																											},
-																											&zeroOrMoreExpr{
-																												pos: position{line: 790, col: 23, offset: 25362},
-																												expr: &litMatcher{
-																													pos:        position{line: 790, col: 23, offset: 25362},
-																													val:        "+",
-																													ignoreCase: false,
-																													want:       "\"+\"",
-																												},
-																											},
-																										},
-																									},
-																								},
-																							},
-																							&zeroOrMoreExpr{
-																								pos: position{line: 792, col: 8, offset: 25446},
-																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonDocumentFragment869,
-																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
-																										val:        "[\\t ]",
-																										chars:      []rune{'\t', ' '},
-																										ignoreCase: false,
-																										inverted:   false,
-																									},
-																								},
-																							},
-																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
-																								alternatives: []interface{}{
-																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonDocumentFragment872,
-																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
-																											alternatives: []interface{}{
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
-																													val:        "\n",
-																													ignoreCase: false,
-																													want:       "\"\\n\"",
-																												},
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
-																													val:        "\r\n",
-																													ignoreCase: false,
-																													want:       "\"\\r\\n\"",
-																												},
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
-																													val:        "\r",
-																													ignoreCase: false,
-																													want:       "\"\\r\"",
-																												},
-																											},
-																										},
-																									},
-																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
-																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
-																										},
-																									},
-																								},
-																							},
-																						},
-																					},
-																				},
-																			},
-																			&andCodeExpr{
-																				pos: position{line: 1030, col: 5, offset: 31878},
-																				run: (*parser).callonDocumentFragment879,
-																			},
-																		},
-																	},
-																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
-																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
-																		},
-																	},
-																},
-															},
-														},
-													},
-												},
-											},
-										},
-										&actionExpr{
-											pos: position{line: 1045, col: 5, offset: 32195},
-											run: (*parser).callonDocumentFragment882,
-											expr: &seqExpr{
-												pos: position{line: 1045, col: 5, offset: 32195},
-												exprs: []interface{}{
-													&labeledExpr{
-														pos:   position{line: 1045, col: 5, offset: 32195},
-														label: "start",
-														expr: &actionExpr{
-															pos: position{line: 797, col: 5, offset: 25594},
-															run: (*parser).callonDocumentFragment885,
-															expr: &seqExpr{
-																pos: position{line: 797, col: 5, offset: 25594},
-																exprs: []interface{}{
-																	&labeledExpr{
-																		pos:   position{line: 797, col: 5, offset: 25594},
-																		label: "delimiter",
-																		expr: &actionExpr{
-																			pos: position{line: 797, col: 16, offset: 25605},
-																			run: (*parser).callonDocumentFragment888,
-																			expr: &seqExpr{
-																				pos: position{line: 797, col: 16, offset: 25605},
-																				exprs: []interface{}{
-																					&litMatcher{
-																						pos:        position{line: 797, col: 16, offset: 25605},
-																						val:        "____",
-																						ignoreCase: false,
-																						want:       "\"____\"",
-																					},
-																					&zeroOrMoreExpr{
-																						pos: position{line: 797, col: 23, offset: 25612},
-																						expr: &litMatcher{
-																							pos:        position{line: 797, col: 23, offset: 25612},
-																							val:        "_",
-																							ignoreCase: false,
-																							want:       "\"_\"",
-																						},
-																					},
-																				},
-																			},
-																		},
-																	},
-																	&zeroOrMoreExpr{
-																		pos: position{line: 799, col: 8, offset: 25696},
-																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment894,
-																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
-																				val:        "[\\t ]",
-																				chars:      []rune{'\t', ' '},
-																				ignoreCase: false,
-																				inverted:   false,
-																			},
-																		},
-																	},
-																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
-																		alternatives: []interface{}{
-																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment897,
-																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
-																					alternatives: []interface{}{
-																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
-																							val:        "\n",
-																							ignoreCase: false,
-																							want:       "\"\\n\"",
-																						},
-																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
-																							val:        "\r\n",
-																							ignoreCase: false,
-																							want:       "\"\\r\\n\"",
-																						},
-																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
-																							val:        "\r",
-																							ignoreCase: false,
-																							want:       "\"\\r\"",
-																						},
-																					},
-																				},
-																			},
-																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
-																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
-																				},
-																			},
-																		},
-																	},
-																},
-															},
-														},
-													},
-													&andCodeExpr{
-														pos: position{line: 1046, col: 5, offset: 32232},
-														run: (*parser).callonDocumentFragment904,
-													},
-													&labeledExpr{
-														pos:   position{line: 1049, col: 5, offset: 32324},
-														label: "content",
-														expr: &zeroOrMoreExpr{
-															pos: position{line: 1064, col: 4, offset: 32705},
-															expr: &actionExpr{
-																pos: position{line: 1064, col: 5, offset: 32706},
-																run: (*parser).callonDocumentFragment907,
-																expr: &seqExpr{
-																	pos: position{line: 1064, col: 5, offset: 32706},
-																	exprs: []interface{}{
-																		&notExpr{
-																			pos: position{line: 1064, col: 5, offset: 32706},
-																			expr: &choiceExpr{
-																				pos: position{line: 1057, col: 5, offset: 32552},
-																				alternatives: []interface{}{
-																					&seqExpr{
-																						pos: position{line: 1057, col: 5, offset: 32552},
-																						exprs: []interface{}{
-																							&labeledExpr{
-																								pos:   position{line: 1057, col: 5, offset: 32552},
-																								label: "end",
-																								expr: &actionExpr{
-																									pos: position{line: 797, col: 5, offset: 25594},
-																									run: (*parser).callonDocumentFragment913,
-																									expr: &seqExpr{
-																										pos: position{line: 797, col: 5, offset: 25594},
-																										exprs: []interface{}{
-																											&labeledExpr{
-																												pos:   position{line: 797, col: 5, offset: 25594},
-																												label: "delimiter",
-																												expr: &actionExpr{
-																													pos: position{line: 797, col: 16, offset: 25605},
-																													run: (*parser).callonDocumentFragment916,
-																													expr: &seqExpr{
-																														pos: position{line: 797, col: 16, offset: 25605},
-																														exprs: []interface{}{
-																															&litMatcher{
-																																pos:        position{line: 797, col: 16, offset: 25605},
-																																val:        "____",
-																																ignoreCase: false,
-																																want:       "\"____\"",
-																															},
-																															&zeroOrMoreExpr{
-																																pos: position{line: 797, col: 23, offset: 25612},
-																																expr: &litMatcher{
-																																	pos:        position{line: 797, col: 23, offset: 25612},
-																																	val:        "_",
-																																	ignoreCase: false,
-																																	want:       "\"_\"",
-																																},
-																															},
-																														},
-																													},
-																												},
-																											},
-																											&zeroOrMoreExpr{
-																												pos: position{line: 799, col: 8, offset: 25696},
-																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
-																													run: (*parser).callonDocumentFragment922,
-																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
-																														val:        "[\\t ]",
-																														chars:      []rune{'\t', ' '},
-																														ignoreCase: false,
-																														inverted:   false,
-																													},
-																												},
-																											},
-																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
-																												alternatives: []interface{}{
-																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
-																														run: (*parser).callonDocumentFragment925,
-																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
-																															alternatives: []interface{}{
-																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
-																																	val:        "\n",
-																																	ignoreCase: false,
-																																	want:       "\"\\n\"",
-																																},
-																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
-																																	val:        "\r\n",
-																																	ignoreCase: false,
-																																	want:       "\"\\r\\n\"",
-																																},
-																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
-																																	val:        "\r",
-																																	ignoreCase: false,
-																																	want:       "\"\\r\"",
-																																},
-																															},
-																														},
-																													},
-																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
-																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
-																														},
-																													},
-																												},
-																											},
-																										},
-																									},
-																								},
-																							},
-																							&andCodeExpr{
-																								pos: position{line: 1058, col: 5, offset: 32581},
-																								run: (*parser).callonDocumentFragment932,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2879, col: 8, offset: 90799},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2879, col: 9, offset: 90800,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1065, col: 5, offset: 32734},
+																			pos:   position{line: 1045, col: 5, offset: 32256},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentFragment936,
+																				run: (*parser).callonDocumentFragment848,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2877, col: 11, offset: 90785},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2877, col: 13, offset: 90787,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2806, col: 13, offset: 88977},
+																								run: (*parser).callonDocumentFragment853,
+																								expr: &zeroOrMoreExpr{
+																									pos: position{line: 2806, col: 13, offset: 88977},
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2806, col: 13, offset: 88977},
+																										val:        "[^\\r\\n]",
+																										chars:      []rune{'\r', '\n'},
+																										ignoreCase: false,
+																										inverted:   true,
+																									},
+																								},
+																							},
+																						},
+																						&choiceExpr{
+																							pos: position{line: 2882, col: 8, offset: 90849},
+																							alternatives: []interface{}{
+																								&actionExpr{
+																									pos: position{line: 2869, col: 12, offset: 90622},
+																									run: (*parser).callonDocumentFragment857,
+																									expr: &choiceExpr{
+																										pos: position{line: 2869, col: 13, offset: 90623},
+																										alternatives: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												val:        "\n",
+																												ignoreCase: false,
+																												want:       "\"\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												val:        "\r\n",
+																												ignoreCase: false,
+																												want:       "\"\\r\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												val:        "\r",
+																												ignoreCase: false,
+																												want:       "\"\\r\"",
+																											},
+																										},
+																									},
+																								},
+																								&notExpr{
+																									pos: position{line: 2879, col: 8, offset: 90799},
+																									expr: &anyMatcher{
+																										line: 2879, col: 9, offset: 90800,
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																		},
+																	},
+																},
+															},
+														},
+													},
+													&labeledExpr{
+														pos:   position{line: 1030, col: 5, offset: 31829},
+														label: "end",
+														expr: &zeroOrOneExpr{
+															pos: position{line: 1030, col: 9, offset: 31833},
+															expr: &choiceExpr{
+																pos: position{line: 1037, col: 5, offset: 32055},
+																alternatives: []interface{}{
+																	&seqExpr{
+																		pos: position{line: 1037, col: 5, offset: 32055},
+																		exprs: []interface{}{
+																			&labeledExpr{
+																				pos:   position{line: 1037, col: 5, offset: 32055},
+																				label: "end",
+																				expr: &actionExpr{
+																					pos: position{line: 790, col: 5, offset: 25344},
+																					run: (*parser).callonDocumentFragment869,
+																					expr: &seqExpr{
+																						pos: position{line: 790, col: 5, offset: 25344},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 790, col: 5, offset: 25344},
+																								label: "delimiter",
+																								expr: &actionExpr{
+																									pos: position{line: 790, col: 16, offset: 25355},
+																									run: (*parser).callonDocumentFragment872,
+																									expr: &seqExpr{
+																										pos: position{line: 790, col: 16, offset: 25355},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 790, col: 16, offset: 25355},
+																												val:        "++++",
+																												ignoreCase: false,
+																												want:       "\"++++\"",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 790, col: 23, offset: 25362},
+																												expr: &litMatcher{
+																													pos:        position{line: 790, col: 23, offset: 25362},
+																													val:        "+",
+																													ignoreCase: false,
+																													want:       "\"+\"",
+																												},
+																											},
+																										},
+																									},
+																								},
+																							},
+																							&zeroOrMoreExpr{
+																								pos: position{line: 792, col: 8, offset: 25446},
+																								expr: &actionExpr{
+																									pos: position{line: 2860, col: 10, offset: 90451},
+																									run: (*parser).callonDocumentFragment878,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2860, col: 10, offset: 90451},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																								},
+																							},
+																							&choiceExpr{
+																								pos: position{line: 2882, col: 8, offset: 90849},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2869, col: 12, offset: 90622},
+																										run: (*parser).callonDocumentFragment881,
+																										expr: &choiceExpr{
+																											pos: position{line: 2869, col: 13, offset: 90623},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2869, col: 13, offset: 90623},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2869, col: 20, offset: 90630},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2869, col: 29, offset: 90639},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
+																												},
+																											},
+																										},
+																									},
+																									&notExpr{
+																										pos: position{line: 2879, col: 8, offset: 90799},
+																										expr: &anyMatcher{
+																											line: 2879, col: 9, offset: 90800,
+																										},
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																			&andCodeExpr{
+																				pos: position{line: 1038, col: 5, offset: 32090},
+																				run: (*parser).callonDocumentFragment888,
+																			},
+																		},
+																	},
+																	&notExpr{
+																		pos: position{line: 2879, col: 8, offset: 90799},
+																		expr: &anyMatcher{
+																			line: 2879, col: 9, offset: 90800,
+																		},
+																	},
+																},
+															},
+														},
+													},
+												},
+											},
+										},
+										&actionExpr{
+											pos: position{line: 1053, col: 5, offset: 32407},
+											run: (*parser).callonDocumentFragment891,
+											expr: &seqExpr{
+												pos: position{line: 1053, col: 5, offset: 32407},
+												exprs: []interface{}{
+													&labeledExpr{
+														pos:   position{line: 1053, col: 5, offset: 32407},
+														label: "start",
+														expr: &actionExpr{
+															pos: position{line: 797, col: 5, offset: 25594},
+															run: (*parser).callonDocumentFragment894,
+															expr: &seqExpr{
+																pos: position{line: 797, col: 5, offset: 25594},
+																exprs: []interface{}{
+																	&labeledExpr{
+																		pos:   position{line: 797, col: 5, offset: 25594},
+																		label: "delimiter",
+																		expr: &actionExpr{
+																			pos: position{line: 797, col: 16, offset: 25605},
+																			run: (*parser).callonDocumentFragment897,
+																			expr: &seqExpr{
+																				pos: position{line: 797, col: 16, offset: 25605},
+																				exprs: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 797, col: 16, offset: 25605},
+																						val:        "____",
+																						ignoreCase: false,
+																						want:       "\"____\"",
+																					},
+																					&zeroOrMoreExpr{
+																						pos: position{line: 797, col: 23, offset: 25612},
+																						expr: &litMatcher{
+																							pos:        position{line: 797, col: 23, offset: 25612},
+																							val:        "_",
+																							ignoreCase: false,
+																							want:       "\"_\"",
+																						},
+																					},
+																				},
+																			},
+																		},
+																	},
+																	&zeroOrMoreExpr{
+																		pos: position{line: 799, col: 8, offset: 25696},
+																		expr: &actionExpr{
+																			pos: position{line: 2860, col: 10, offset: 90451},
+																			run: (*parser).callonDocumentFragment903,
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2860, col: 10, offset: 90451},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
+																		},
+																	},
+																	&choiceExpr{
+																		pos: position{line: 2882, col: 8, offset: 90849},
+																		alternatives: []interface{}{
+																			&actionExpr{
+																				pos: position{line: 2869, col: 12, offset: 90622},
+																				run: (*parser).callonDocumentFragment906,
+																				expr: &choiceExpr{
+																					pos: position{line: 2869, col: 13, offset: 90623},
+																					alternatives: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							val:        "\n",
+																							ignoreCase: false,
+																							want:       "\"\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							val:        "\r\n",
+																							ignoreCase: false,
+																							want:       "\"\\r\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							val:        "\r",
+																							ignoreCase: false,
+																							want:       "\"\\r\"",
+																						},
+																					},
+																				},
+																			},
+																			&notExpr{
+																				pos: position{line: 2879, col: 8, offset: 90799},
+																				expr: &anyMatcher{
+																					line: 2879, col: 9, offset: 90800,
+																				},
+																			},
+																		},
+																	},
+																},
+															},
+														},
+													},
+													&andCodeExpr{
+														pos: position{line: 1054, col: 5, offset: 32444},
+														run: (*parser).callonDocumentFragment913,
+													},
+													&labeledExpr{
+														pos:   position{line: 1057, col: 5, offset: 32536},
+														label: "content",
+														expr: &zeroOrMoreExpr{
+															pos: position{line: 1072, col: 4, offset: 32917},
+															expr: &actionExpr{
+																pos: position{line: 1072, col: 5, offset: 32918},
+																run: (*parser).callonDocumentFragment916,
+																expr: &seqExpr{
+																	pos: position{line: 1072, col: 5, offset: 32918},
+																	exprs: []interface{}{
+																		&notExpr{
+																			pos: position{line: 1072, col: 5, offset: 32918},
+																			expr: &choiceExpr{
+																				pos: position{line: 1065, col: 5, offset: 32764},
+																				alternatives: []interface{}{
+																					&seqExpr{
+																						pos: position{line: 1065, col: 5, offset: 32764},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 1065, col: 5, offset: 32764},
+																								label: "end",
+																								expr: &actionExpr{
+																									pos: position{line: 797, col: 5, offset: 25594},
+																									run: (*parser).callonDocumentFragment922,
+																									expr: &seqExpr{
+																										pos: position{line: 797, col: 5, offset: 25594},
+																										exprs: []interface{}{
+																											&labeledExpr{
+																												pos:   position{line: 797, col: 5, offset: 25594},
+																												label: "delimiter",
+																												expr: &actionExpr{
+																													pos: position{line: 797, col: 16, offset: 25605},
+																													run: (*parser).callonDocumentFragment925,
+																													expr: &seqExpr{
+																														pos: position{line: 797, col: 16, offset: 25605},
+																														exprs: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 797, col: 16, offset: 25605},
+																																val:        "____",
+																																ignoreCase: false,
+																																want:       "\"____\"",
+																															},
+																															&zeroOrMoreExpr{
+																																pos: position{line: 797, col: 23, offset: 25612},
+																																expr: &litMatcher{
+																																	pos:        position{line: 797, col: 23, offset: 25612},
+																																	val:        "_",
+																																	ignoreCase: false,
+																																	want:       "\"_\"",
+																																},
+																															},
+																														},
+																													},
+																												},
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 799, col: 8, offset: 25696},
+																												expr: &actionExpr{
+																													pos: position{line: 2860, col: 10, offset: 90451},
+																													run: (*parser).callonDocumentFragment931,
+																													expr: &charClassMatcher{
+																														pos:        position{line: 2860, col: 10, offset: 90451},
+																														val:        "[\\t ]",
+																														chars:      []rune{'\t', ' '},
+																														ignoreCase: false,
+																														inverted:   false,
+																													},
+																												},
+																											},
+																											&choiceExpr{
+																												pos: position{line: 2882, col: 8, offset: 90849},
+																												alternatives: []interface{}{
+																													&actionExpr{
+																														pos: position{line: 2869, col: 12, offset: 90622},
+																														run: (*parser).callonDocumentFragment934,
+																														expr: &choiceExpr{
+																															pos: position{line: 2869, col: 13, offset: 90623},
+																															alternatives: []interface{}{
+																																&litMatcher{
+																																	pos:        position{line: 2869, col: 13, offset: 90623},
+																																	val:        "\n",
+																																	ignoreCase: false,
+																																	want:       "\"\\n\"",
+																																},
+																																&litMatcher{
+																																	pos:        position{line: 2869, col: 20, offset: 90630},
+																																	val:        "\r\n",
+																																	ignoreCase: false,
+																																	want:       "\"\\r\\n\"",
+																																},
+																																&litMatcher{
+																																	pos:        position{line: 2869, col: 29, offset: 90639},
+																																	val:        "\r",
+																																	ignoreCase: false,
+																																	want:       "\"\\r\"",
+																																},
+																															},
+																														},
+																													},
+																													&notExpr{
+																														pos: position{line: 2879, col: 8, offset: 90799},
+																														expr: &anyMatcher{
+																															line: 2879, col: 9, offset: 90800,
+																														},
+																													},
+																												},
+																											},
+																										},
+																									},
+																								},
+																							},
+																							&andCodeExpr{
+																								pos: position{line: 1066, col: 5, offset: 32793},
 																								run: (*parser).callonDocumentFragment941,
+																							},
+																						},
+																					},
+																					&notExpr{
+																						pos: position{line: 2879, col: 8, offset: 90799},
+																						expr: &anyMatcher{
+																							line: 2879, col: 9, offset: 90800,
+																						},
+																					},
+																				},
+																			},
+																		},
+																		&labeledExpr{
+																			pos:   position{line: 1073, col: 5, offset: 32946},
+																			label: "line",
+																			expr: &actionExpr{
+																				pos: position{line: 811, col: 5, offset: 26088},
+																				run: (*parser).callonDocumentFragment945,
+																				expr: &seqExpr{
+																					pos: position{line: 811, col: 5, offset: 26088},
+																					exprs: []interface{}{
+																						&andExpr{
+																							pos: position{line: 2877, col: 11, offset: 90785},
+																							expr: &anyMatcher{
+																								line: 2877, col: 13, offset: 90787,
+																							},
+																						},
+																						&labeledExpr{
+																							pos:   position{line: 812, col: 5, offset: 26163},
+																							label: "content",
+																							expr: &actionExpr{
+																								pos: position{line: 2806, col: 13, offset: 88977},
+																								run: (*parser).callonDocumentFragment950,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2806, col: 13, offset: 88977},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2806, col: 13, offset: 88977},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8292,28 +8330,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonDocumentFragment945,
+																									pos: position{line: 2869, col: 12, offset: 90622},
+																									run: (*parser).callonDocumentFragment954,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8322,9 +8360,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -8339,22 +8377,22 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1050, col: 5, offset: 32356},
+														pos:   position{line: 1058, col: 5, offset: 32568},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1050, col: 9, offset: 32360},
+															pos: position{line: 1058, col: 9, offset: 32572},
 															expr: &choiceExpr{
-																pos: position{line: 1057, col: 5, offset: 32552},
+																pos: position{line: 1065, col: 5, offset: 32764},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1057, col: 5, offset: 32552},
+																		pos: position{line: 1065, col: 5, offset: 32764},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1057, col: 5, offset: 32552},
+																				pos:   position{line: 1065, col: 5, offset: 32764},
 																				label: "end",
 																				expr: &actionExpr{
 																					pos: position{line: 797, col: 5, offset: 25594},
-																					run: (*parser).callonDocumentFragment957,
+																					run: (*parser).callonDocumentFragment966,
 																					expr: &seqExpr{
 																						pos: position{line: 797, col: 5, offset: 25594},
 																						exprs: []interface{}{
@@ -8363,7 +8401,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 797, col: 16, offset: 25605},
-																									run: (*parser).callonDocumentFragment960,
+																									run: (*parser).callonDocumentFragment969,
 																									expr: &seqExpr{
 																										pos: position{line: 797, col: 16, offset: 25605},
 																										exprs: []interface{}{
@@ -8389,10 +8427,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 799, col: 8, offset: 25696},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonDocumentFragment966,
+																									pos: position{line: 2860, col: 10, offset: 90451},
+																									run: (*parser).callonDocumentFragment975,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2860, col: 10, offset: 90451},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8401,28 +8439,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2882, col: 8, offset: 90849},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonDocumentFragment969,
+																										pos: position{line: 2869, col: 12, offset: 90622},
+																										run: (*parser).callonDocumentFragment978,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2869, col: 13, offset: 90623},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2869, col: 13, offset: 90623},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2869, col: 20, offset: 90630},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2869, col: 29, offset: 90639},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8431,9 +8469,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2879, col: 8, offset: 90799},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2879, col: 9, offset: 90800,
 																										},
 																									},
 																								},
@@ -8443,15 +8481,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1058, col: 5, offset: 32581},
-																				run: (*parser).callonDocumentFragment976,
+																				pos: position{line: 1066, col: 5, offset: 32793},
+																				run: (*parser).callonDocumentFragment985,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2879, col: 8, offset: 90799},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2879, col: 9, offset: 90800,
 																		},
 																	},
 																},
@@ -8462,17 +8500,17 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1073, col: 5, offset: 32889},
-											run: (*parser).callonDocumentFragment979,
+											pos: position{line: 1081, col: 5, offset: 33101},
+											run: (*parser).callonDocumentFragment988,
 											expr: &seqExpr{
-												pos: position{line: 1073, col: 5, offset: 32889},
+												pos: position{line: 1081, col: 5, offset: 33101},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1073, col: 5, offset: 32889},
+														pos:   position{line: 1081, col: 5, offset: 33101},
 														label: "start",
 														expr: &actionExpr{
 															pos: position{line: 804, col: 5, offset: 25840},
-															run: (*parser).callonDocumentFragment982,
+															run: (*parser).callonDocumentFragment991,
 															expr: &seqExpr{
 																pos: position{line: 804, col: 5, offset: 25840},
 																exprs: []interface{}{
@@ -8481,7 +8519,7 @@ var g = &grammar{
 																		label: "delimiter",
 																		expr: &actionExpr{
 																			pos: position{line: 804, col: 16, offset: 25851},
-																			run: (*parser).callonDocumentFragment985,
+																			run: (*parser).callonDocumentFragment994,
 																			expr: &seqExpr{
 																				pos: position{line: 804, col: 16, offset: 25851},
 																				exprs: []interface{}{
@@ -8507,10 +8545,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 806, col: 8, offset: 25942},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment991,
+																			pos: position{line: 2860, col: 10, offset: 90451},
+																			run: (*parser).callonDocumentFragment1000,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2860, col: 10, offset: 90451},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8519,28 +8557,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2882, col: 8, offset: 90849},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment994,
+																				pos: position{line: 2869, col: 12, offset: 90622},
+																				run: (*parser).callonDocumentFragment1003,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2869, col: 13, offset: 90623},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2869, col: 13, offset: 90623},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2869, col: 20, offset: 90630},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2869, col: 29, offset: 90639},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8549,9 +8587,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2879, col: 8, offset: 90799},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2879, col: 9, offset: 90800,
 																				},
 																			},
 																		},
@@ -8561,34 +8599,34 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1074, col: 5, offset: 32928},
-														run: (*parser).callonDocumentFragment1001,
+														pos: position{line: 1082, col: 5, offset: 33140},
+														run: (*parser).callonDocumentFragment1010,
 													},
 													&labeledExpr{
-														pos:   position{line: 1077, col: 5, offset: 33020},
+														pos:   position{line: 1085, col: 5, offset: 33232},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1092, col: 4, offset: 33417},
+															pos: position{line: 1100, col: 4, offset: 33629},
 															expr: &actionExpr{
-																pos: position{line: 1092, col: 5, offset: 33418},
-																run: (*parser).callonDocumentFragment1004,
+																pos: position{line: 1100, col: 5, offset: 33630},
+																run: (*parser).callonDocumentFragment1013,
 																expr: &seqExpr{
-																	pos: position{line: 1092, col: 5, offset: 33418},
+																	pos: position{line: 1100, col: 5, offset: 33630},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1092, col: 5, offset: 33418},
+																			pos: position{line: 1100, col: 5, offset: 33630},
 																			expr: &choiceExpr{
-																				pos: position{line: 1085, col: 5, offset: 33260},
+																				pos: position{line: 1093, col: 5, offset: 33472},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1085, col: 5, offset: 33260},
+																						pos: position{line: 1093, col: 5, offset: 33472},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1085, col: 5, offset: 33260},
+																								pos:   position{line: 1093, col: 5, offset: 33472},
 																								label: "end",
 																								expr: &actionExpr{
 																									pos: position{line: 804, col: 5, offset: 25840},
-																									run: (*parser).callonDocumentFragment1010,
+																									run: (*parser).callonDocumentFragment1019,
 																									expr: &seqExpr{
 																										pos: position{line: 804, col: 5, offset: 25840},
 																										exprs: []interface{}{
@@ -8597,7 +8635,7 @@ var g = &grammar{
 																												label: "delimiter",
 																												expr: &actionExpr{
 																													pos: position{line: 804, col: 16, offset: 25851},
-																													run: (*parser).callonDocumentFragment1013,
+																													run: (*parser).callonDocumentFragment1022,
 																													expr: &seqExpr{
 																														pos: position{line: 804, col: 16, offset: 25851},
 																														exprs: []interface{}{
@@ -8623,10 +8661,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 806, col: 8, offset: 25942},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
-																													run: (*parser).callonDocumentFragment1019,
+																													pos: position{line: 2860, col: 10, offset: 90451},
+																													run: (*parser).callonDocumentFragment1028,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2860, col: 10, offset: 90451},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8635,28 +8673,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2882, col: 8, offset: 90849},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
-																														run: (*parser).callonDocumentFragment1022,
+																														pos: position{line: 2869, col: 12, offset: 90622},
+																														run: (*parser).callonDocumentFragment1031,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2869, col: 13, offset: 90623},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2869, col: 13, offset: 90623},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2869, col: 20, offset: 90630},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2869, col: 29, offset: 90639},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8665,9 +8703,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2879, col: 8, offset: 90799},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2879, col: 9, offset: 90800,
 																														},
 																													},
 																												},
@@ -8677,45 +8715,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1086, col: 5, offset: 33291},
-																								run: (*parser).callonDocumentFragment1029,
+																								pos: position{line: 1094, col: 5, offset: 33503},
+																								run: (*parser).callonDocumentFragment1038,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2879, col: 8, offset: 90799},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2879, col: 9, offset: 90800,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1093, col: 5, offset: 33448},
+																			pos:   position{line: 1101, col: 5, offset: 33660},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentFragment1033,
+																				run: (*parser).callonDocumentFragment1042,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2877, col: 11, offset: 90785},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2877, col: 13, offset: 90787,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
-																								run: (*parser).callonDocumentFragment1038,
+																								pos: position{line: 2806, col: 13, offset: 88977},
+																								run: (*parser).callonDocumentFragment1047,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2806, col: 13, offset: 88977},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2806, col: 13, offset: 88977},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8725,28 +8763,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonDocumentFragment1042,
+																									pos: position{line: 2869, col: 12, offset: 90622},
+																									run: (*parser).callonDocumentFragment1051,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8755,9 +8793,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -8772,22 +8810,22 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1078, col: 5, offset: 33054},
+														pos:   position{line: 1086, col: 5, offset: 33266},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1078, col: 9, offset: 33058},
+															pos: position{line: 1086, col: 9, offset: 33270},
 															expr: &choiceExpr{
-																pos: position{line: 1085, col: 5, offset: 33260},
+																pos: position{line: 1093, col: 5, offset: 33472},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1085, col: 5, offset: 33260},
+																		pos: position{line: 1093, col: 5, offset: 33472},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1085, col: 5, offset: 33260},
+																				pos:   position{line: 1093, col: 5, offset: 33472},
 																				label: "end",
 																				expr: &actionExpr{
 																					pos: position{line: 804, col: 5, offset: 25840},
-																					run: (*parser).callonDocumentFragment1054,
+																					run: (*parser).callonDocumentFragment1063,
 																					expr: &seqExpr{
 																						pos: position{line: 804, col: 5, offset: 25840},
 																						exprs: []interface{}{
@@ -8796,7 +8834,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 804, col: 16, offset: 25851},
-																									run: (*parser).callonDocumentFragment1057,
+																									run: (*parser).callonDocumentFragment1066,
 																									expr: &seqExpr{
 																										pos: position{line: 804, col: 16, offset: 25851},
 																										exprs: []interface{}{
@@ -8822,10 +8860,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 806, col: 8, offset: 25942},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonDocumentFragment1063,
+																									pos: position{line: 2860, col: 10, offset: 90451},
+																									run: (*parser).callonDocumentFragment1072,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2860, col: 10, offset: 90451},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8834,28 +8872,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2882, col: 8, offset: 90849},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonDocumentFragment1066,
+																										pos: position{line: 2869, col: 12, offset: 90622},
+																										run: (*parser).callonDocumentFragment1075,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2869, col: 13, offset: 90623},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2869, col: 13, offset: 90623},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2869, col: 20, offset: 90630},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2869, col: 29, offset: 90639},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8864,9 +8902,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2879, col: 8, offset: 90799},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2879, col: 9, offset: 90800,
 																										},
 																									},
 																								},
@@ -8876,15 +8914,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1086, col: 5, offset: 33291},
-																				run: (*parser).callonDocumentFragment1073,
+																				pos: position{line: 1094, col: 5, offset: 33503},
+																				run: (*parser).callonDocumentFragment1082,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2879, col: 8, offset: 90799},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2879, col: 9, offset: 90800,
 																		},
 																	},
 																},
@@ -8895,52 +8933,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2697, col: 18, offset: 85829},
-											run: (*parser).callonDocumentFragment1076,
+											pos: position{line: 2705, col: 18, offset: 86041},
+											run: (*parser).callonDocumentFragment1085,
 											expr: &seqExpr{
-												pos: position{line: 2697, col: 18, offset: 85829},
+												pos: position{line: 2705, col: 18, offset: 86041},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2698, col: 9, offset: 85839},
+														pos: position{line: 2706, col: 9, offset: 86051},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2698, col: 9, offset: 85839},
+																pos:        position{line: 2706, col: 9, offset: 86051},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 11, offset: 85875},
+																pos:        position{line: 2707, col: 11, offset: 86087},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 19, offset: 85883},
+																pos:        position{line: 2707, col: 19, offset: 86095},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 29, offset: 85893},
+																pos:        position{line: 2707, col: 29, offset: 86105},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 37, offset: 85901},
+																pos:        position{line: 2707, col: 37, offset: 86113},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 47, offset: 85911},
+																pos:        position{line: 2707, col: 47, offset: 86123},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2699, col: 55, offset: 85919},
+																pos:        position{line: 2707, col: 55, offset: 86131},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -8948,12 +8986,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2700, col: 11, offset: 85977},
+														pos: position{line: 2708, col: 11, offset: 86189},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
-															run: (*parser).callonDocumentFragment1087,
+															pos: position{line: 2860, col: 10, offset: 90451},
+															run: (*parser).callonDocumentFragment1096,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2860, col: 10, offset: 90451},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -8962,28 +9000,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2882, col: 8, offset: 90849},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
-																run: (*parser).callonDocumentFragment1090,
+																pos: position{line: 2869, col: 12, offset: 90622},
+																run: (*parser).callonDocumentFragment1099,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2869, col: 13, offset: 90623},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2869, col: 13, offset: 90623},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2869, col: 20, offset: 90630},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2869, col: 29, offset: 90639},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -8992,36 +9030,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2879, col: 8, offset: 90799},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2879, col: 9, offset: 90800,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2882, col: 8, offset: 90849},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
-																run: (*parser).callonDocumentFragment1098,
+																pos: position{line: 2869, col: 12, offset: 90622},
+																run: (*parser).callonDocumentFragment1107,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2869, col: 13, offset: 90623},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2869, col: 13, offset: 90623},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2869, col: 20, offset: 90630},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2869, col: 29, offset: 90639},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9030,9 +9068,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2879, col: 8, offset: 90799},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2879, col: 9, offset: 90800,
 																},
 															},
 														},
@@ -9045,24 +9083,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2588, col: 5, offset: 82765},
-											run: (*parser).callonDocumentFragment1106,
+											pos: position{line: 2596, col: 5, offset: 82977},
+											run: (*parser).callonDocumentFragment1115,
 											expr: &seqExpr{
-												pos: position{line: 2588, col: 5, offset: 82765},
+												pos: position{line: 2596, col: 5, offset: 82977},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2594, col: 19, offset: 82922},
+														pos:        position{line: 2602, col: 19, offset: 83134},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2594, col: 26, offset: 82929},
+														pos: position{line: 2602, col: 26, offset: 83141},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
-															run: (*parser).callonDocumentFragment1110,
+															pos: position{line: 2860, col: 10, offset: 90451},
+															run: (*parser).callonDocumentFragment1119,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2860, col: 10, offset: 90451},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9071,28 +9109,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2882, col: 8, offset: 90849},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
-																run: (*parser).callonDocumentFragment1113,
+																pos: position{line: 2869, col: 12, offset: 90622},
+																run: (*parser).callonDocumentFragment1122,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2869, col: 13, offset: 90623},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2869, col: 13, offset: 90623},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2869, col: 20, offset: 90630},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2869, col: 29, offset: 90639},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9101,40 +9139,40 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2879, col: 8, offset: 90799},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2879, col: 9, offset: 90800,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2589, col: 5, offset: 82789},
+														pos:   position{line: 2597, col: 5, offset: 83001},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2589, col: 11, offset: 82795},
+															pos: position{line: 2597, col: 11, offset: 83007},
 															expr: &choiceExpr{
-																pos: position{line: 2589, col: 12, offset: 82796},
+																pos: position{line: 2597, col: 12, offset: 83008},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
-																		run: (*parser).callonDocumentFragment1123,
+																		run: (*parser).callonDocumentFragment1132,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2869, col: 11, offset: 90573},
+																					pos: position{line: 2877, col: 11, offset: 90785},
 																					expr: &anyMatcher{
-																						line: 2869, col: 13, offset: 90575,
+																						line: 2877, col: 13, offset: 90787,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonDocumentFragment1128,
+																						pos: position{line: 2860, col: 10, offset: 90451},
+																						run: (*parser).callonDocumentFragment1137,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2860, col: 10, offset: 90451},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9143,28 +9181,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2882, col: 8, offset: 90849},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
-																							run: (*parser).callonDocumentFragment1131,
+																							pos: position{line: 2869, col: 12, offset: 90622},
+																							run: (*parser).callonDocumentFragment1140,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2869, col: 13, offset: 90623},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2869, col: 13, offset: 90623},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2869, col: 20, offset: 90630},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2869, col: 29, offset: 90639},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9173,9 +9211,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2879, col: 8, offset: 90799},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2879, col: 9, offset: 90800,
 																							},
 																						},
 																					},
@@ -9184,32 +9222,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2601, col: 5, offset: 83041},
-																		run: (*parser).callonDocumentFragment1138,
+																		pos: position{line: 2609, col: 5, offset: 83253},
+																		run: (*parser).callonDocumentFragment1147,
 																		expr: &seqExpr{
-																			pos: position{line: 2601, col: 5, offset: 83041},
+																			pos: position{line: 2609, col: 5, offset: 83253},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2601, col: 5, offset: 83041},
+																					pos: position{line: 2609, col: 5, offset: 83253},
 																					expr: &choiceExpr{
-																						pos: position{line: 2598, col: 22, offset: 83002},
+																						pos: position{line: 2606, col: 22, offset: 83214},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2594, col: 19, offset: 82922},
+																								pos: position{line: 2602, col: 19, offset: 83134},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2594, col: 19, offset: 82922},
+																										pos:        position{line: 2602, col: 19, offset: 83134},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2594, col: 26, offset: 82929},
+																										pos: position{line: 2602, col: 26, offset: 83141},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
-																											run: (*parser).callonDocumentFragment1145,
+																											pos: position{line: 2860, col: 10, offset: 90451},
+																											run: (*parser).callonDocumentFragment1154,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2860, col: 10, offset: 90451},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9218,28 +9256,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2874, col: 8, offset: 90637},
+																										pos: position{line: 2882, col: 8, offset: 90849},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2861, col: 12, offset: 90410},
-																												run: (*parser).callonDocumentFragment1148,
+																												pos: position{line: 2869, col: 12, offset: 90622},
+																												run: (*parser).callonDocumentFragment1157,
 																												expr: &choiceExpr{
-																													pos: position{line: 2861, col: 13, offset: 90411},
+																													pos: position{line: 2869, col: 13, offset: 90623},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 13, offset: 90411},
+																															pos:        position{line: 2869, col: 13, offset: 90623},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 20, offset: 90418},
+																															pos:        position{line: 2869, col: 20, offset: 90630},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 29, offset: 90427},
+																															pos:        position{line: 2869, col: 29, offset: 90639},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9248,9 +9286,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2871, col: 8, offset: 90587},
+																												pos: position{line: 2879, col: 8, offset: 90799},
 																												expr: &anyMatcher{
-																													line: 2871, col: 9, offset: 90588,
+																													line: 2879, col: 9, offset: 90800,
 																												},
 																											},
 																										},
@@ -9258,59 +9296,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2879, col: 8, offset: 90799},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2879, col: 9, offset: 90800,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2602, col: 5, offset: 83064},
+																					pos:   position{line: 2610, col: 5, offset: 83276},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2603, col: 9, offset: 83082},
+																						pos: position{line: 2611, col: 9, offset: 83294},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2603, col: 10, offset: 83083},
-																								run: (*parser).callonDocumentFragment1159,
+																								pos: position{line: 2611, col: 10, offset: 83295},
+																								run: (*parser).callonDocumentFragment1168,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2603, col: 10, offset: 83083},
+																									pos:   position{line: 2611, col: 10, offset: 83295},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2603, col: 17, offset: 83090},
+																										pos: position{line: 2611, col: 17, offset: 83302},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2611, col: 21, offset: 83286},
-																												run: (*parser).callonDocumentFragment1162,
+																												pos: position{line: 2619, col: 21, offset: 83498},
+																												run: (*parser).callonDocumentFragment1171,
 																												expr: &seqExpr{
-																													pos: position{line: 2611, col: 21, offset: 83286},
+																													pos: position{line: 2619, col: 21, offset: 83498},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2611, col: 21, offset: 83286},
+																															pos:   position{line: 2619, col: 21, offset: 83498},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2611, col: 27, offset: 83292},
+																																pos: position{line: 2619, col: 27, offset: 83504},
 																																expr: &actionExpr{
-																																	pos: position{line: 2616, col: 5, offset: 83367},
-																																	run: (*parser).callonDocumentFragment1166,
+																																	pos: position{line: 2624, col: 5, offset: 83579},
+																																	run: (*parser).callonDocumentFragment1175,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2616, col: 5, offset: 83367},
+																																		pos: position{line: 2624, col: 5, offset: 83579},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2616, col: 5, offset: 83367},
+																																				pos:        position{line: 2624, col: 5, offset: 83579},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2616, col: 9, offset: 83371},
+																																				pos: position{line: 2624, col: 9, offset: 83583},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2852, col: 10, offset: 90239},
-																																					run: (*parser).callonDocumentFragment1170,
+																																					pos: position{line: 2860, col: 10, offset: 90451},
+																																					run: (*parser).callonDocumentFragment1179,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2852, col: 10, offset: 90239},
+																																						pos:        position{line: 2860, col: 10, offset: 90451},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9319,21 +9357,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2616, col: 16, offset: 83378},
+																																				pos:   position{line: 2624, col: 16, offset: 83590},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2622, col: 5, offset: 83578},
-																																					run: (*parser).callonDocumentFragment1173,
+																																					pos: position{line: 2630, col: 5, offset: 83790},
+																																					run: (*parser).callonDocumentFragment1182,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2622, col: 5, offset: 83578},
+																																						pos:   position{line: 2630, col: 5, offset: 83790},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2622, col: 14, offset: 83587},
-																																							run: (*parser).callonDocumentFragment1175,
+																																							pos: position{line: 2630, col: 14, offset: 83799},
+																																							run: (*parser).callonDocumentFragment1184,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2622, col: 14, offset: 83587},
+																																								pos: position{line: 2630, col: 14, offset: 83799},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2622, col: 14, offset: 83587},
+																																									pos:        position{line: 2630, col: 14, offset: 83799},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9350,28 +9388,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2874, col: 8, offset: 90637},
+																															pos: position{line: 2882, col: 8, offset: 90849},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2861, col: 12, offset: 90410},
-																																	run: (*parser).callonDocumentFragment1179,
+																																	pos: position{line: 2869, col: 12, offset: 90622},
+																																	run: (*parser).callonDocumentFragment1188,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2861, col: 13, offset: 90411},
+																																		pos: position{line: 2869, col: 13, offset: 90623},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2861, col: 13, offset: 90411},
+																																				pos:        position{line: 2869, col: 13, offset: 90623},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2861, col: 20, offset: 90418},
+																																				pos:        position{line: 2869, col: 20, offset: 90630},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2861, col: 29, offset: 90427},
+																																				pos:        position{line: 2869, col: 29, offset: 90639},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9380,9 +9418,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2871, col: 8, offset: 90587},
+																																	pos: position{line: 2879, col: 8, offset: 90799},
 																																	expr: &anyMatcher{
-																																		line: 2871, col: 9, offset: 90588,
+																																		line: 2879, col: 9, offset: 90800,
 																																	},
 																																},
 																															},
@@ -9391,40 +9429,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2628, col: 24, offset: 83723},
-																												run: (*parser).callonDocumentFragment1186,
+																												pos: position{line: 2636, col: 24, offset: 83935},
+																												run: (*parser).callonDocumentFragment1195,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2628, col: 24, offset: 83723},
+																													pos:   position{line: 2636, col: 24, offset: 83935},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2628, col: 30, offset: 83729},
+																														pos: position{line: 2636, col: 30, offset: 83941},
 																														expr: &actionExpr{
-																															pos: position{line: 2633, col: 5, offset: 83805},
-																															run: (*parser).callonDocumentFragment1189,
+																															pos: position{line: 2641, col: 5, offset: 84017},
+																															run: (*parser).callonDocumentFragment1198,
 																															expr: &seqExpr{
-																																pos: position{line: 2633, col: 5, offset: 83805},
+																																pos: position{line: 2641, col: 5, offset: 84017},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2633, col: 5, offset: 83805},
+																																		pos: position{line: 2641, col: 5, offset: 84017},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2598, col: 22, offset: 83002},
+																																			pos: position{line: 2606, col: 22, offset: 83214},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2594, col: 19, offset: 82922},
+																																					pos: position{line: 2602, col: 19, offset: 83134},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2594, col: 19, offset: 82922},
+																																							pos:        position{line: 2602, col: 19, offset: 83134},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2594, col: 26, offset: 82929},
+																																							pos: position{line: 2602, col: 26, offset: 83141},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2852, col: 10, offset: 90239},
-																																								run: (*parser).callonDocumentFragment1196,
+																																								pos: position{line: 2860, col: 10, offset: 90451},
+																																								run: (*parser).callonDocumentFragment1205,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2852, col: 10, offset: 90239},
+																																									pos:        position{line: 2860, col: 10, offset: 90451},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9433,28 +9471,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2874, col: 8, offset: 90637},
+																																							pos: position{line: 2882, col: 8, offset: 90849},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2861, col: 12, offset: 90410},
-																																									run: (*parser).callonDocumentFragment1199,
+																																									pos: position{line: 2869, col: 12, offset: 90622},
+																																									run: (*parser).callonDocumentFragment1208,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2861, col: 13, offset: 90411},
+																																										pos: position{line: 2869, col: 13, offset: 90623},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 13, offset: 90411},
+																																												pos:        position{line: 2869, col: 13, offset: 90623},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 20, offset: 90418},
+																																												pos:        position{line: 2869, col: 20, offset: 90630},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 29, offset: 90427},
+																																												pos:        position{line: 2869, col: 29, offset: 90639},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9463,9 +9501,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2871, col: 8, offset: 90587},
+																																									pos: position{line: 2879, col: 8, offset: 90799},
 																																									expr: &anyMatcher{
-																																										line: 2871, col: 9, offset: 90588,
+																																										line: 2879, col: 9, offset: 90800,
 																																									},
 																																								},
 																																							},
@@ -9473,35 +9511,35 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2871, col: 8, offset: 90587},
+																																					pos: position{line: 2879, col: 8, offset: 90799},
 																																					expr: &anyMatcher{
-																																						line: 2871, col: 9, offset: 90588,
+																																						line: 2879, col: 9, offset: 90800,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2634, col: 5, offset: 83828},
+																																		pos: position{line: 2642, col: 5, offset: 84040},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21489},
-																																			run: (*parser).callonDocumentFragment1209,
+																																			run: (*parser).callonDocumentFragment1218,
 																																			expr: &seqExpr{
 																																				pos: position{line: 677, col: 14, offset: 21489},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2869, col: 11, offset: 90573},
+																																						pos: position{line: 2877, col: 11, offset: 90785},
 																																						expr: &anyMatcher{
-																																							line: 2869, col: 13, offset: 90575,
+																																							line: 2877, col: 13, offset: 90787,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 677, col: 21, offset: 21496},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2852, col: 10, offset: 90239},
-																																							run: (*parser).callonDocumentFragment1214,
+																																							pos: position{line: 2860, col: 10, offset: 90451},
+																																							run: (*parser).callonDocumentFragment1223,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2852, col: 10, offset: 90239},
+																																								pos:        position{line: 2860, col: 10, offset: 90451},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9510,28 +9548,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2874, col: 8, offset: 90637},
+																																						pos: position{line: 2882, col: 8, offset: 90849},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2861, col: 12, offset: 90410},
-																																								run: (*parser).callonDocumentFragment1217,
+																																								pos: position{line: 2869, col: 12, offset: 90622},
+																																								run: (*parser).callonDocumentFragment1226,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2861, col: 13, offset: 90411},
+																																									pos: position{line: 2869, col: 13, offset: 90623},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 13, offset: 90411},
+																																											pos:        position{line: 2869, col: 13, offset: 90623},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 20, offset: 90418},
+																																											pos:        position{line: 2869, col: 20, offset: 90630},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 29, offset: 90427},
+																																											pos:        position{line: 2869, col: 29, offset: 90639},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9540,9 +9578,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2871, col: 8, offset: 90587},
+																																								pos: position{line: 2879, col: 8, offset: 90799},
 																																								expr: &anyMatcher{
-																																									line: 2871, col: 9, offset: 90588,
+																																									line: 2879, col: 9, offset: 90800,
 																																								},
 																																							},
 																																						},
@@ -9552,17 +9590,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2635, col: 5, offset: 83843},
+																																		pos:   position{line: 2643, col: 5, offset: 84055},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2635, col: 12, offset: 83850},
+																																			pos: position{line: 2643, col: 12, offset: 84062},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2652, col: 20, offset: 84314},
-																																				run: (*parser).callonDocumentFragment1226,
+																																				pos: position{line: 2660, col: 20, offset: 84526},
+																																				run: (*parser).callonDocumentFragment1235,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2652, col: 20, offset: 84314},
+																																					pos: position{line: 2660, col: 20, offset: 84526},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2652, col: 20, offset: 84314},
+																																						pos:        position{line: 2660, col: 20, offset: 84526},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9573,18 +9611,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2635, col: 31, offset: 83869},
+																																		pos:        position{line: 2643, col: 31, offset: 84081},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2635, col: 35, offset: 83873},
+																																		pos: position{line: 2643, col: 35, offset: 84085},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2852, col: 10, offset: 90239},
-																																			run: (*parser).callonDocumentFragment1231,
+																																			pos: position{line: 2860, col: 10, offset: 90451},
+																																			run: (*parser).callonDocumentFragment1240,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2852, col: 10, offset: 90239},
+																																				pos:        position{line: 2860, col: 10, offset: 90451},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9593,27 +9631,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2635, col: 42, offset: 83880},
+																																		pos: position{line: 2643, col: 42, offset: 84092},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2861, col: 12, offset: 90410},
-																																			run: (*parser).callonDocumentFragment1234,
+																																			pos: position{line: 2869, col: 12, offset: 90622},
+																																			run: (*parser).callonDocumentFragment1243,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2861, col: 13, offset: 90411},
+																																				pos: position{line: 2869, col: 13, offset: 90623},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2861, col: 13, offset: 90411},
+																																						pos:        position{line: 2869, col: 13, offset: 90623},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2861, col: 20, offset: 90418},
+																																						pos:        position{line: 2869, col: 20, offset: 90630},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2861, col: 29, offset: 90427},
+																																						pos:        position{line: 2869, col: 29, offset: 90639},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9623,37 +9661,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2635, col: 51, offset: 83889},
+																																		pos:   position{line: 2643, col: 51, offset: 84101},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2641, col: 5, offset: 84048},
+																																			pos: position{line: 2649, col: 5, offset: 84260},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2642, col: 9, offset: 84058},
-																																				run: (*parser).callonDocumentFragment1241,
+																																				pos: position{line: 2650, col: 9, offset: 84270},
+																																				run: (*parser).callonDocumentFragment1250,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2642, col: 9, offset: 84058},
+																																					pos: position{line: 2650, col: 9, offset: 84270},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2642, col: 9, offset: 84058},
+																																							pos: position{line: 2650, col: 9, offset: 84270},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2598, col: 22, offset: 83002},
+																																								pos: position{line: 2606, col: 22, offset: 83214},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2594, col: 19, offset: 82922},
+																																										pos: position{line: 2602, col: 19, offset: 83134},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2594, col: 19, offset: 82922},
+																																												pos:        position{line: 2602, col: 19, offset: 83134},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2594, col: 26, offset: 82929},
+																																												pos: position{line: 2602, col: 26, offset: 83141},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2852, col: 10, offset: 90239},
-																																													run: (*parser).callonDocumentFragment1248,
+																																													pos: position{line: 2860, col: 10, offset: 90451},
+																																													run: (*parser).callonDocumentFragment1257,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2852, col: 10, offset: 90239},
+																																														pos:        position{line: 2860, col: 10, offset: 90451},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9662,28 +9700,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2874, col: 8, offset: 90637},
+																																												pos: position{line: 2882, col: 8, offset: 90849},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2861, col: 12, offset: 90410},
-																																														run: (*parser).callonDocumentFragment1251,
+																																														pos: position{line: 2869, col: 12, offset: 90622},
+																																														run: (*parser).callonDocumentFragment1260,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2861, col: 13, offset: 90411},
+																																															pos: position{line: 2869, col: 13, offset: 90623},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																																	pos:        position{line: 2869, col: 13, offset: 90623},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																																	pos:        position{line: 2869, col: 20, offset: 90630},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																																	pos:        position{line: 2869, col: 29, offset: 90639},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9692,9 +9730,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2871, col: 8, offset: 90587},
+																																														pos: position{line: 2879, col: 8, offset: 90799},
 																																														expr: &anyMatcher{
-																																															line: 2871, col: 9, offset: 90588,
+																																															line: 2879, col: 9, offset: 90800,
 																																														},
 																																													},
 																																												},
@@ -9702,35 +9740,35 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2871, col: 8, offset: 90587},
+																																										pos: position{line: 2879, col: 8, offset: 90799},
 																																										expr: &anyMatcher{
-																																											line: 2871, col: 9, offset: 90588,
+																																											line: 2879, col: 9, offset: 90800,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2643, col: 9, offset: 84085},
+																																							pos: position{line: 2651, col: 9, offset: 84297},
 																																							expr: &actionExpr{
 																																								pos: position{line: 677, col: 14, offset: 21489},
-																																								run: (*parser).callonDocumentFragment1261,
+																																								run: (*parser).callonDocumentFragment1270,
 																																								expr: &seqExpr{
 																																									pos: position{line: 677, col: 14, offset: 21489},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2869, col: 11, offset: 90573},
+																																											pos: position{line: 2877, col: 11, offset: 90785},
 																																											expr: &anyMatcher{
-																																												line: 2869, col: 13, offset: 90575,
+																																												line: 2877, col: 13, offset: 90787,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 677, col: 21, offset: 21496},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2852, col: 10, offset: 90239},
-																																												run: (*parser).callonDocumentFragment1266,
+																																												pos: position{line: 2860, col: 10, offset: 90451},
+																																												run: (*parser).callonDocumentFragment1275,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2852, col: 10, offset: 90239},
+																																													pos:        position{line: 2860, col: 10, offset: 90451},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9739,28 +9777,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2874, col: 8, offset: 90637},
+																																											pos: position{line: 2882, col: 8, offset: 90849},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2861, col: 12, offset: 90410},
-																																													run: (*parser).callonDocumentFragment1269,
+																																													pos: position{line: 2869, col: 12, offset: 90622},
+																																													run: (*parser).callonDocumentFragment1278,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2861, col: 13, offset: 90411},
+																																														pos: position{line: 2869, col: 13, offset: 90623},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																																pos:        position{line: 2869, col: 13, offset: 90623},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																																pos:        position{line: 2869, col: 20, offset: 90630},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																																pos:        position{line: 2869, col: 29, offset: 90639},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9769,9 +9807,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2871, col: 8, offset: 90587},
+																																													pos: position{line: 2879, col: 8, offset: 90799},
 																																													expr: &anyMatcher{
-																																														line: 2871, col: 9, offset: 90588,
+																																														line: 2879, col: 9, offset: 90800,
 																																													},
 																																												},
 																																											},
@@ -9781,22 +9819,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2644, col: 9, offset: 84104},
+																																							pos: position{line: 2652, col: 9, offset: 84316},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2644, col: 11, offset: 84106},
+																																								pos: position{line: 2652, col: 11, offset: 84318},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2644, col: 11, offset: 84106},
+																																										pos:   position{line: 2652, col: 11, offset: 84318},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2644, col: 18, offset: 84113},
+																																											pos: position{line: 2652, col: 18, offset: 84325},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2652, col: 20, offset: 84314},
-																																												run: (*parser).callonDocumentFragment1280,
+																																												pos: position{line: 2660, col: 20, offset: 84526},
+																																												run: (*parser).callonDocumentFragment1289,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2652, col: 20, offset: 84314},
+																																													pos: position{line: 2660, col: 20, offset: 84526},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2652, col: 20, offset: 84314},
+																																														pos:        position{line: 2660, col: 20, offset: 84526},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9807,7 +9845,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2644, col: 37, offset: 84132},
+																																										pos:        position{line: 2652, col: 37, offset: 84344},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9816,15 +9854,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2645, col: 9, offset: 84145},
+																																							pos:   position{line: 2653, col: 9, offset: 84357},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2645, col: 18, offset: 84154},
-																																								run: (*parser).callonDocumentFragment1285,
+																																								pos: position{line: 2653, col: 18, offset: 84366},
+																																								run: (*parser).callonDocumentFragment1294,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2645, col: 18, offset: 84154},
+																																									pos: position{line: 2653, col: 18, offset: 84366},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2645, col: 18, offset: 84154},
+																																										pos:        position{line: 2653, col: 18, offset: 84366},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9834,30 +9872,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2647, col: 12, offset: 84216},
+																																							pos: position{line: 2655, col: 12, offset: 84428},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2874, col: 8, offset: 90637},
+																																								pos: position{line: 2882, col: 8, offset: 90849},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2861, col: 12, offset: 90410},
-																																										run: (*parser).callonDocumentFragment1290,
+																																										pos: position{line: 2869, col: 12, offset: 90622},
+																																										run: (*parser).callonDocumentFragment1299,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2861, col: 13, offset: 90411},
+																																											pos: position{line: 2869, col: 13, offset: 90623},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2861, col: 13, offset: 90411},
+																																													pos:        position{line: 2869, col: 13, offset: 90623},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2861, col: 20, offset: 90418},
+																																													pos:        position{line: 2869, col: 20, offset: 90630},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2861, col: 29, offset: 90427},
+																																													pos:        position{line: 2869, col: 29, offset: 90639},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9866,9 +9904,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2871, col: 8, offset: 90587},
+																																										pos: position{line: 2879, col: 8, offset: 90799},
 																																										expr: &anyMatcher{
-																																											line: 2871, col: 9, offset: 90588,
+																																											line: 2879, col: 9, offset: 90800,
 																																										},
 																																									},
 																																								},
@@ -9891,23 +9929,23 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 677, col: 14, offset: 21489},
-																								run: (*parser).callonDocumentFragment1297,
+																								run: (*parser).callonDocumentFragment1306,
 																								expr: &seqExpr{
 																									pos: position{line: 677, col: 14, offset: 21489},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2869, col: 11, offset: 90573},
+																											pos: position{line: 2877, col: 11, offset: 90785},
 																											expr: &anyMatcher{
-																												line: 2869, col: 13, offset: 90575,
+																												line: 2877, col: 13, offset: 90787,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 677, col: 21, offset: 21496},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonDocumentFragment1302,
+																												pos: position{line: 2860, col: 10, offset: 90451},
+																												run: (*parser).callonDocumentFragment1311,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2860, col: 10, offset: 90451},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -9916,28 +9954,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2882, col: 8, offset: 90849},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonDocumentFragment1305,
+																													pos: position{line: 2869, col: 12, offset: 90622},
+																													run: (*parser).callonDocumentFragment1314,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2869, col: 13, offset: 90623},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2869, col: 13, offset: 90623},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2869, col: 20, offset: 90630},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2869, col: 29, offset: 90639},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -9946,9 +9984,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2879, col: 8, offset: 90799},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2879, col: 9, offset: 90800,
 																													},
 																												},
 																											},
@@ -9967,24 +10005,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2598, col: 22, offset: 83002},
+														pos: position{line: 2606, col: 22, offset: 83214},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2594, col: 19, offset: 82922},
+																pos: position{line: 2602, col: 19, offset: 83134},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2594, col: 19, offset: 82922},
+																		pos:        position{line: 2602, col: 19, offset: 83134},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2594, col: 26, offset: 82929},
+																		pos: position{line: 2602, col: 26, offset: 83141},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment1316,
+																			pos: position{line: 2860, col: 10, offset: 90451},
+																			run: (*parser).callonDocumentFragment1325,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2860, col: 10, offset: 90451},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -9993,28 +10031,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2882, col: 8, offset: 90849},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment1319,
+																				pos: position{line: 2869, col: 12, offset: 90622},
+																				run: (*parser).callonDocumentFragment1328,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2869, col: 13, offset: 90623},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2869, col: 13, offset: 90623},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2869, col: 20, offset: 90630},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2869, col: 29, offset: 90639},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10023,9 +10061,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2879, col: 8, offset: 90799},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2879, col: 9, offset: 90800,
 																				},
 																			},
 																		},
@@ -10033,9 +10071,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2879, col: 8, offset: 90799},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2879, col: 9, offset: 90800,
 																},
 															},
 														},
@@ -10044,36 +10082,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
-											run: (*parser).callonDocumentFragment1328,
+											pos: position{line: 2470, col: 22, offset: 79436},
+											run: (*parser).callonDocumentFragment1337,
 											expr: &seqExpr{
-												pos: position{line: 2462, col: 22, offset: 79224},
+												pos: position{line: 2470, col: 22, offset: 79436},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2467, col: 31, offset: 79445},
+														pos:        position{line: 2475, col: 31, offset: 79657},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2467, col: 36, offset: 79450},
+														pos: position{line: 2475, col: 36, offset: 79662},
 														expr: &litMatcher{
-															pos:        position{line: 2467, col: 37, offset: 79451},
+															pos:        position{line: 2475, col: 37, offset: 79663},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2462, col: 49, offset: 79251},
+														pos:   position{line: 2470, col: 49, offset: 79463},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
-															run: (*parser).callonDocumentFragment1334,
+															pos: position{line: 2806, col: 13, offset: 88977},
+															run: (*parser).callonDocumentFragment1343,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2798, col: 13, offset: 88765},
+																pos: position{line: 2806, col: 13, offset: 88977},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2798, col: 13, offset: 88765},
+																	pos:        position{line: 2806, col: 13, offset: 88977},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10083,28 +10121,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2882, col: 8, offset: 90849},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
-																run: (*parser).callonDocumentFragment1338,
+																pos: position{line: 2869, col: 12, offset: 90622},
+																run: (*parser).callonDocumentFragment1347,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2869, col: 13, offset: 90623},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2869, col: 13, offset: 90623},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2869, col: 20, offset: 90630},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2869, col: 29, offset: 90639},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10113,9 +10151,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2879, col: 8, offset: 90799},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2879, col: 9, offset: 90800,
 																},
 															},
 														},
@@ -10124,37 +10162,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1222, col: 5, offset: 37866},
-											run: (*parser).callonDocumentFragment1345,
+											pos: position{line: 1230, col: 5, offset: 38078},
+											run: (*parser).callonDocumentFragment1354,
 											expr: &seqExpr{
-												pos: position{line: 1222, col: 5, offset: 37866},
+												pos: position{line: 1230, col: 5, offset: 38078},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1222, col: 5, offset: 37866},
-														run: (*parser).callonDocumentFragment1347,
+														pos: position{line: 1230, col: 5, offset: 38078},
+														run: (*parser).callonDocumentFragment1356,
 													},
 													&labeledExpr{
-														pos:   position{line: 1225, col: 5, offset: 37924},
+														pos:   position{line: 1233, col: 5, offset: 38136},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1230, col: 20, offset: 38019},
-															run: (*parser).callonDocumentFragment1349,
+															pos: position{line: 1238, col: 20, offset: 38231},
+															run: (*parser).callonDocumentFragment1358,
 															expr: &seqExpr{
-																pos: position{line: 1230, col: 20, offset: 38019},
+																pos: position{line: 1238, col: 20, offset: 38231},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1234, col: 30, offset: 38191},
+																		pos:        position{line: 1242, col: 30, offset: 38403},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1234, col: 36, offset: 38197},
+																		pos: position{line: 1242, col: 36, offset: 38409},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment1353,
+																			pos: position{line: 2860, col: 10, offset: 90451},
+																			run: (*parser).callonDocumentFragment1362,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2860, col: 10, offset: 90451},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10163,28 +10201,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2882, col: 8, offset: 90849},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment1356,
+																				pos: position{line: 2869, col: 12, offset: 90622},
+																				run: (*parser).callonDocumentFragment1365,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2869, col: 13, offset: 90623},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2869, col: 13, offset: 90623},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2869, col: 20, offset: 90630},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2869, col: 29, offset: 90639},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10193,46 +10231,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2879, col: 8, offset: 90799},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2879, col: 9, offset: 90800,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1230, col: 45, offset: 38044},
+																		pos:   position{line: 1238, col: 45, offset: 38256},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1230, col: 53, offset: 38052},
+																			pos: position{line: 1238, col: 53, offset: 38264},
 																			expr: &actionExpr{
-																				pos: position{line: 1236, col: 27, offset: 38235},
-																				run: (*parser).callonDocumentFragment1365,
+																				pos: position{line: 1244, col: 27, offset: 38447},
+																				run: (*parser).callonDocumentFragment1374,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1236, col: 27, offset: 38235},
+																					pos: position{line: 1244, col: 27, offset: 38447},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1236, col: 28, offset: 38236},
+																						pos: position{line: 1244, col: 28, offset: 38448},
 																						expr: &seqExpr{
-																							pos: position{line: 1236, col: 29, offset: 38237},
+																							pos: position{line: 1244, col: 29, offset: 38449},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1236, col: 29, offset: 38237},
+																									pos: position{line: 1244, col: 29, offset: 38449},
 																									expr: &seqExpr{
-																										pos: position{line: 1234, col: 30, offset: 38191},
+																										pos: position{line: 1242, col: 30, offset: 38403},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1234, col: 30, offset: 38191},
+																												pos:        position{line: 1242, col: 30, offset: 38403},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1234, col: 36, offset: 38197},
+																												pos: position{line: 1242, col: 36, offset: 38409},
 																												expr: &actionExpr{
-																													pos: position{line: 2852, col: 10, offset: 90239},
-																													run: (*parser).callonDocumentFragment1373,
+																													pos: position{line: 2860, col: 10, offset: 90451},
+																													run: (*parser).callonDocumentFragment1382,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2852, col: 10, offset: 90239},
+																														pos:        position{line: 2860, col: 10, offset: 90451},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10241,28 +10279,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2874, col: 8, offset: 90637},
+																												pos: position{line: 2882, col: 8, offset: 90849},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2861, col: 12, offset: 90410},
-																														run: (*parser).callonDocumentFragment1376,
+																														pos: position{line: 2869, col: 12, offset: 90622},
+																														run: (*parser).callonDocumentFragment1385,
 																														expr: &choiceExpr{
-																															pos: position{line: 2861, col: 13, offset: 90411},
+																															pos: position{line: 2869, col: 13, offset: 90623},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 13, offset: 90411},
+																																	pos:        position{line: 2869, col: 13, offset: 90623},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 20, offset: 90418},
+																																	pos:        position{line: 2869, col: 20, offset: 90630},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2861, col: 29, offset: 90427},
+																																	pos:        position{line: 2869, col: 29, offset: 90639},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10271,9 +10309,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2871, col: 8, offset: 90587},
+																														pos: position{line: 2879, col: 8, offset: 90799},
 																														expr: &anyMatcher{
-																															line: 2871, col: 9, offset: 90588,
+																															line: 2879, col: 9, offset: 90800,
 																														},
 																													},
 																												},
@@ -10282,7 +10320,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1236, col: 55, offset: 38263,
+																									line: 1244, col: 55, offset: 38475,
 																								},
 																							},
 																						},
@@ -10292,18 +10330,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1234, col: 30, offset: 38191},
+																		pos:        position{line: 1242, col: 30, offset: 38403},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1234, col: 36, offset: 38197},
+																		pos: position{line: 1242, col: 36, offset: 38409},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
-																			run: (*parser).callonDocumentFragment1386,
+																			pos: position{line: 2860, col: 10, offset: 90451},
+																			run: (*parser).callonDocumentFragment1395,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2860, col: 10, offset: 90451},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10312,28 +10350,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2882, col: 8, offset: 90849},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentFragment1389,
+																				pos: position{line: 2869, col: 12, offset: 90622},
+																				run: (*parser).callonDocumentFragment1398,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2869, col: 13, offset: 90623},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2869, col: 13, offset: 90623},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2869, col: 20, offset: 90630},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2869, col: 29, offset: 90639},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10342,9 +10380,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2879, col: 8, offset: 90799},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2879, col: 9, offset: 90800,
 																				},
 																			},
 																		},
@@ -10366,7 +10404,7 @@ var g = &grammar{
 						},
 						&andCodeExpr{
 							pos: position{line: 253, col: 5, offset: 7555},
-							run: (*parser).callonDocumentFragment1397,
+							run: (*parser).callonDocumentFragment1406,
 						},
 					},
 				},
@@ -10394,27 +10432,27 @@ var g = &grammar{
 									pos: position{line: 282, col: 9, offset: 8388},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1198, col: 23, offset: 36972},
+											pos: position{line: 1206, col: 23, offset: 37184},
 											run: (*parser).callonDelimitedBlockElements7,
 											expr: &seqExpr{
-												pos: position{line: 1198, col: 23, offset: 36972},
+												pos: position{line: 1206, col: 23, offset: 37184},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36940},
+														pos:        position{line: 1204, col: 32, offset: 37152},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1198, col: 51, offset: 37000},
+														pos:   position{line: 1206, col: 51, offset: 37212},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1198, col: 56, offset: 37005},
+															pos: position{line: 1206, col: 56, offset: 37217},
 															run: (*parser).callonDelimitedBlockElements11,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1198, col: 56, offset: 37005},
+																pos: position{line: 1206, col: 56, offset: 37217},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1198, col: 56, offset: 37005},
+																	pos:        position{line: 1206, col: 56, offset: 37217},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -10424,7 +10462,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36940},
+														pos:        position{line: 1204, col: 32, offset: 37152},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -10441,9 +10479,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2879, col: 8, offset: 90799},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2879, col: 9, offset: 90800,
 							},
 						},
 					},
@@ -10515,12 +10553,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2856, col: 11, offset: 90300},
+												pos: position{line: 2864, col: 11, offset: 90512},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2856, col: 11, offset: 90300},
+													pos: position{line: 2864, col: 11, offset: 90512},
 													expr: &charClassMatcher{
-														pos:        position{line: 2856, col: 11, offset: 90300},
+														pos:        position{line: 2864, col: 11, offset: 90512},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10542,28 +10580,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2882, col: 8, offset: 90849},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2869, col: 12, offset: 90622},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2869, col: 13, offset: 90623},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2869, col: 13, offset: 90623},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2869, col: 20, offset: 90630},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2869, col: 29, offset: 90639},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10572,9 +10610,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2879, col: 8, offset: 90799},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2879, col: 9, offset: 90800,
 									},
 								},
 							},
@@ -10618,25 +10656,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2861, col: 12, offset: 90410},
+												pos: position{line: 2869, col: 12, offset: 90622},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2861, col: 13, offset: 90411},
+													pos: position{line: 2869, col: 13, offset: 90623},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2861, col: 13, offset: 90411},
+															pos:        position{line: 2869, col: 13, offset: 90623},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 20, offset: 90418},
+															pos:        position{line: 2869, col: 20, offset: 90630},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 29, offset: 90427},
+															pos:        position{line: 2869, col: 29, offset: 90639},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10647,10 +10685,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2860, col: 10, offset: 90451},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2860, col: 10, offset: 90451},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10720,10 +10758,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2860, col: 10, offset: 90451},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2860, col: 10, offset: 90451},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10732,28 +10770,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2874, col: 8, offset: 90637},
+										pos: position{line: 2882, col: 8, offset: 90849},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2861, col: 12, offset: 90410},
+												pos: position{line: 2869, col: 12, offset: 90622},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2861, col: 13, offset: 90411},
+													pos: position{line: 2869, col: 13, offset: 90623},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2861, col: 13, offset: 90411},
+															pos:        position{line: 2869, col: 13, offset: 90623},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 20, offset: 90418},
+															pos:        position{line: 2869, col: 20, offset: 90630},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 29, offset: 90427},
+															pos:        position{line: 2869, col: 29, offset: 90639},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10762,9 +10800,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2871, col: 8, offset: 90587},
+												pos: position{line: 2879, col: 8, offset: 90799},
 												expr: &anyMatcher{
-													line: 2871, col: 9, offset: 90588,
+													line: 2879, col: 9, offset: 90800,
 												},
 											},
 										},
@@ -10797,23 +10835,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2457, col: 5, offset: 78982},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78770},
+											pos: position{line: 2457, col: 5, offset: 78982},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78770},
+													pos: position{line: 2457, col: 5, offset: 78982},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78846},
+													pos:   position{line: 2460, col: 5, offset: 79058},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78864},
+														pos: position{line: 2461, col: 9, offset: 79076},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78865},
+															pos:        position{line: 2461, col: 10, offset: 79077},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10825,10 +10863,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2852, col: 10, offset: 90239},
+										pos: position{line: 2860, col: 10, offset: 90451},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2852, col: 10, offset: 90239},
+											pos:        position{line: 2860, col: 10, offset: 90451},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11252,27 +11290,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1198, col: 23, offset: 36972},
+																						pos: position{line: 1206, col: 23, offset: 37184},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1198, col: 23, offset: 36972},
+																							pos: position{line: 1206, col: 23, offset: 37184},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1196, col: 32, offset: 36940},
+																									pos:        position{line: 1204, col: 32, offset: 37152},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1198, col: 51, offset: 37000},
+																									pos:   position{line: 1206, col: 51, offset: 37212},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1198, col: 56, offset: 37005},
+																										pos: position{line: 1206, col: 56, offset: 37217},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1198, col: 56, offset: 37005},
+																											pos: position{line: 1206, col: 56, offset: 37217},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1198, col: 56, offset: 37005},
+																												pos:        position{line: 1206, col: 56, offset: 37217},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11282,7 +11320,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1196, col: 32, offset: 36940},
+																									pos:        position{line: 1204, col: 32, offset: 37152},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
@@ -11665,10 +11703,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 35, offset: 11487},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2860, col: 10, offset: 90451},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2860, col: 10, offset: 90451},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11677,28 +11715,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2874, col: 8, offset: 90637},
+												pos: position{line: 2882, col: 8, offset: 90849},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2861, col: 12, offset: 90410},
+														pos: position{line: 2869, col: 12, offset: 90622},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 13, offset: 90411},
+															pos: position{line: 2869, col: 13, offset: 90623},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2861, col: 13, offset: 90411},
+																	pos:        position{line: 2869, col: 13, offset: 90623},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 20, offset: 90418},
+																	pos:        position{line: 2869, col: 20, offset: 90630},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 29, offset: 90427},
+																	pos:        position{line: 2869, col: 29, offset: 90639},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11707,9 +11745,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2871, col: 8, offset: 90587},
+														pos: position{line: 2879, col: 8, offset: 90799},
 														expr: &anyMatcher{
-															line: 2871, col: 9, offset: 90588,
+															line: 2879, col: 9, offset: 90800,
 														},
 													},
 												},
@@ -11723,18 +11761,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2877, col: 11, offset: 90785},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2877, col: 13, offset: 90787,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2860, col: 10, offset: 90451},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2860, col: 10, offset: 90451},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11743,28 +11781,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2882, col: 8, offset: 90849},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2869, col: 12, offset: 90622},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2869, col: 13, offset: 90623},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2869, col: 13, offset: 90623},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2869, col: 20, offset: 90630},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2869, col: 29, offset: 90639},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11773,9 +11811,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2879, col: 8, offset: 90799},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2879, col: 9, offset: 90800,
 																		},
 																	},
 																},
@@ -11827,12 +11865,12 @@ var g = &grammar{
 																		pos: position{line: 426, col: 9, offset: 13063},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2746, col: 14, offset: 87408},
+																				pos: position{line: 2754, col: 14, offset: 87620},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2746, col: 14, offset: 87408},
+																					pos: position{line: 2754, col: 14, offset: 87620},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2746, col: 14, offset: 87408},
+																						pos:        position{line: 2754, col: 14, offset: 87620},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11841,10 +11879,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2860, col: 10, offset: 90451},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2860, col: 10, offset: 90451},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11852,27 +11890,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2769, col: 5, offset: 87893},
+																				pos: position{line: 2777, col: 5, offset: 88105},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2770, col: 9, offset: 87903},
+																					pos: position{line: 2778, col: 9, offset: 88115},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2770, col: 10, offset: 87904},
+																							pos:        position{line: 2778, col: 10, offset: 88116},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2772, col: 13, offset: 88001},
+																							pos: position{line: 2780, col: 13, offset: 88213},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2772, col: 13, offset: 88001},
+																									pos: position{line: 2780, col: 13, offset: 88213},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2775, col: 13, offset: 88101},
+																									pos:        position{line: 2783, col: 13, offset: 88313},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -11880,20 +11918,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2775, col: 19, offset: 88107},
+																							pos:        position{line: 2783, col: 19, offset: 88319},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2778, col: 13, offset: 88145},
+																							pos: position{line: 2786, col: 13, offset: 88357},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2778, col: 13, offset: 88145},
+																									pos: position{line: 2786, col: 13, offset: 88357},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2781, col: 14, offset: 88238},
+																									pos:        position{line: 2789, col: 14, offset: 88450},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -11902,18 +11940,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2783, col: 12, offset: 88282},
+																							pos: position{line: 2791, col: 12, offset: 88494},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2783, col: 12, offset: 88282},
+																									pos:        position{line: 2791, col: 12, offset: 88494},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2783, col: 16, offset: 88286},
+																									pos: position{line: 2791, col: 16, offset: 88498},
 																									expr: &litMatcher{
-																										pos:        position{line: 2783, col: 17, offset: 88287},
+																										pos:        position{line: 2791, col: 17, offset: 88499},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12031,10 +12069,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2791, col: 12, offset: 88547},
+																				pos: position{line: 2799, col: 12, offset: 88759},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2791, col: 12, offset: 88547},
+																					pos:        position{line: 2799, col: 12, offset: 88759},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12052,10 +12090,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 35, offset: 11642},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2860, col: 10, offset: 90451},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2860, col: 10, offset: 90451},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12064,28 +12102,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2874, col: 8, offset: 90637},
+												pos: position{line: 2882, col: 8, offset: 90849},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2861, col: 12, offset: 90410},
+														pos: position{line: 2869, col: 12, offset: 90622},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 13, offset: 90411},
+															pos: position{line: 2869, col: 13, offset: 90623},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2861, col: 13, offset: 90411},
+																	pos:        position{line: 2869, col: 13, offset: 90623},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 20, offset: 90418},
+																	pos:        position{line: 2869, col: 20, offset: 90630},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 29, offset: 90427},
+																	pos:        position{line: 2869, col: 29, offset: 90639},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12094,9 +12132,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2871, col: 8, offset: 90587},
+														pos: position{line: 2879, col: 8, offset: 90799},
 														expr: &anyMatcher{
-															line: 2871, col: 9, offset: 90588,
+															line: 2879, col: 9, offset: 90800,
 														},
 													},
 												},
@@ -12110,18 +12148,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2877, col: 11, offset: 90785},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2877, col: 13, offset: 90787,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2860, col: 10, offset: 90451},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2860, col: 10, offset: 90451},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12130,28 +12168,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2882, col: 8, offset: 90849},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2869, col: 12, offset: 90622},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2869, col: 13, offset: 90623},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2869, col: 13, offset: 90623},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2869, col: 20, offset: 90630},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2869, col: 29, offset: 90639},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12160,9 +12198,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2879, col: 8, offset: 90799},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2879, col: 9, offset: 90800,
 																		},
 																	},
 																},
@@ -12191,10 +12229,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 380, col: 44, offset: 11775},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2860, col: 10, offset: 90451},
 													run: (*parser).callonBlockAttributes210,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2860, col: 10, offset: 90451},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12203,28 +12241,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2874, col: 8, offset: 90637},
+												pos: position{line: 2882, col: 8, offset: 90849},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2861, col: 12, offset: 90410},
+														pos: position{line: 2869, col: 12, offset: 90622},
 														run: (*parser).callonBlockAttributes213,
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 13, offset: 90411},
+															pos: position{line: 2869, col: 13, offset: 90623},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2861, col: 13, offset: 90411},
+																	pos:        position{line: 2869, col: 13, offset: 90623},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 20, offset: 90418},
+																	pos:        position{line: 2869, col: 20, offset: 90630},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 29, offset: 90427},
+																	pos:        position{line: 2869, col: 29, offset: 90639},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12233,9 +12271,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2871, col: 8, offset: 90587},
+														pos: position{line: 2879, col: 8, offset: 90799},
 														expr: &anyMatcher{
-															line: 2871, col: 9, offset: 90588,
+															line: 2879, col: 9, offset: 90800,
 														},
 													},
 												},
@@ -12249,18 +12287,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2877, col: 11, offset: 90785},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2877, col: 13, offset: 90787,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2860, col: 10, offset: 90451},
 																	run: (*parser).callonBlockAttributes226,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2860, col: 10, offset: 90451},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12269,28 +12307,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2882, col: 8, offset: 90849},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2869, col: 12, offset: 90622},
 																		run: (*parser).callonBlockAttributes229,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2869, col: 13, offset: 90623},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2869, col: 13, offset: 90623},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2869, col: 20, offset: 90630},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2869, col: 29, offset: 90639},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12299,9 +12337,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2879, col: 8, offset: 90799},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2879, col: 9, offset: 90800,
 																		},
 																	},
 																},
@@ -12549,10 +12587,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 466, col: 13, offset: 14531},
 										expr: &actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2860, col: 10, offset: 90451},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2860, col: 10, offset: 90451},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13084,10 +13122,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 518, col: 9, offset: 16113},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2860, col: 10, offset: 90451},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2860, col: 10, offset: 90451},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13148,10 +13186,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 524, col: 34, offset: 16256},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
+															pos: position{line: 2860, col: 10, offset: 90451},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2860, col: 10, offset: 90451},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13191,10 +13229,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 529, col: 13, offset: 16420},
 												expr: &actionExpr{
-													pos: position{line: 2852, col: 10, offset: 90239},
+													pos: position{line: 2860, col: 10, offset: 90451},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2852, col: 10, offset: 90239},
+														pos:        position{line: 2860, col: 10, offset: 90451},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13217,10 +13255,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 529, col: 26, offset: 16433},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2860, col: 10, offset: 90451},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2860, col: 10, offset: 90451},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13275,10 +13313,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 549, col: 22, offset: 17080},
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 10, offset: 90239},
+												pos: position{line: 2860, col: 10, offset: 90451},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90239},
+													pos:        position{line: 2860, col: 10, offset: 90451},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13309,10 +13347,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 542, col: 9, offset: 16825},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2860, col: 10, offset: 90451},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2860, col: 10, offset: 90451},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13342,10 +13380,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 543, col: 33, offset: 16865},
 										expr: &actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2860, col: 10, offset: 90451},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2860, col: 10, offset: 90451},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13400,10 +13438,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 559, col: 9, offset: 17297},
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 10, offset: 90239},
+												pos: position{line: 2860, col: 10, offset: 90451},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90239},
+													pos:        position{line: 2860, col: 10, offset: 90451},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13482,12 +13520,12 @@ var g = &grammar{
 							pos: position{line: 572, col: 9, offset: 17614},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2746, col: 14, offset: 87408},
+									pos: position{line: 2754, col: 14, offset: 87620},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2746, col: 14, offset: 87408},
+										pos: position{line: 2754, col: 14, offset: 87620},
 										expr: &charClassMatcher{
-											pos:        position{line: 2746, col: 14, offset: 87408},
+											pos:        position{line: 2754, col: 14, offset: 87620},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13496,10 +13534,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2852, col: 10, offset: 90239},
+									pos: position{line: 2860, col: 10, offset: 90451},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2852, col: 10, offset: 90239},
+										pos:        position{line: 2860, col: 10, offset: 90451},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -13956,10 +13994,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 592, col: 14, offset: 18354},
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 10, offset: 90239},
+												pos: position{line: 2860, col: 10, offset: 90451},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90239},
+													pos:        position{line: 2860, col: 10, offset: 90451},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13996,12 +14034,12 @@ var g = &grammar{
 							pos: position{line: 598, col: 9, offset: 18465},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2746, col: 14, offset: 87408},
+									pos: position{line: 2754, col: 14, offset: 87620},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2746, col: 14, offset: 87408},
+										pos: position{line: 2754, col: 14, offset: 87620},
 										expr: &charClassMatcher{
-											pos:        position{line: 2746, col: 14, offset: 87408},
+											pos:        position{line: 2754, col: 14, offset: 87620},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14010,10 +14048,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2852, col: 10, offset: 90239},
+									pos: position{line: 2860, col: 10, offset: 90451},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2852, col: 10, offset: 90239},
+										pos:        position{line: 2860, col: 10, offset: 90451},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14440,10 +14478,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 619, col: 5, offset: 19321},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2860, col: 10, offset: 90451},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2860, col: 10, offset: 90451},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14833,10 +14871,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2860, col: 10, offset: 90451},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2860, col: 10, offset: 90451},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14887,12 +14925,12 @@ var g = &grammar{
 									pos:   position{line: 686, col: 32, offset: 21849},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2837, col: 7, offset: 89891},
+										pos: position{line: 2845, col: 7, offset: 90103},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2837, col: 7, offset: 89891},
+											pos: position{line: 2845, col: 7, offset: 90103},
 											expr: &charClassMatcher{
-												pos:        position{line: 2837, col: 7, offset: 89891},
+												pos:        position{line: 2845, col: 7, offset: 90103},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -14904,10 +14942,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 40, offset: 21857},
 									expr: &actionExpr{
-										pos: position{line: 2852, col: 10, offset: 90239},
+										pos: position{line: 2860, col: 10, offset: 90451},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2852, col: 10, offset: 90239},
+											pos:        position{line: 2860, col: 10, offset: 90451},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15100,12 +15138,12 @@ var g = &grammar{
 									pos:   position{line: 688, col: 14, offset: 21974},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2837, col: 7, offset: 89891},
+										pos: position{line: 2845, col: 7, offset: 90103},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2837, col: 7, offset: 89891},
+											pos: position{line: 2845, col: 7, offset: 90103},
 											expr: &charClassMatcher{
-												pos:        position{line: 2837, col: 7, offset: 89891},
+												pos:        position{line: 2845, col: 7, offset: 90103},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15149,41 +15187,41 @@ var g = &grammar{
 							pos:   position{line: 692, col: 35, offset: 22087},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2806, col: 17, offset: 88902},
+								pos: position{line: 2814, col: 17, offset: 89114},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2806, col: 17, offset: 88902},
+									pos:   position{line: 2814, col: 17, offset: 89114},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2823, col: 5, offset: 89356},
+										pos: position{line: 2831, col: 5, offset: 89568},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2823, col: 5, offset: 89356},
+											pos:   position{line: 2831, col: 5, offset: 89568},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2823, col: 14, offset: 89365},
+												pos: position{line: 2831, col: 14, offset: 89577},
 												expr: &choiceExpr{
-													pos: position{line: 2824, col: 9, offset: 89375},
+													pos: position{line: 2832, col: 9, offset: 89587},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2824, col: 9, offset: 89375},
+															pos: position{line: 2832, col: 9, offset: 89587},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2824, col: 9, offset: 89375},
+																pos: position{line: 2832, col: 9, offset: 89587},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2824, col: 9, offset: 89375},
+																		pos: position{line: 2832, col: 9, offset: 89587},
 																		expr: &litMatcher{
-																			pos:        position{line: 2824, col: 10, offset: 89376},
+																			pos:        position{line: 2832, col: 10, offset: 89588},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2825, col: 9, offset: 89404},
+																		pos: position{line: 2833, col: 9, offset: 89616},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2825, col: 10, offset: 89405},
+																			pos:        position{line: 2833, col: 10, offset: 89617},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15194,27 +15232,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2828, col: 11, offset: 89617},
+															pos: position{line: 2836, col: 11, offset: 89829},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2828, col: 11, offset: 89617},
+																	pos:        position{line: 2836, col: 11, offset: 89829},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2828, col: 19, offset: 89625},
+																	pos: position{line: 2836, col: 19, offset: 89837},
 																	expr: &seqExpr{
-																		pos: position{line: 2828, col: 21, offset: 89627},
+																		pos: position{line: 2836, col: 21, offset: 89839},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2828, col: 21, offset: 89627},
+																				pos: position{line: 2836, col: 21, offset: 89839},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2860, col: 10, offset: 90451},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2860, col: 10, offset: 90451},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15223,11 +15261,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2828, col: 28, offset: 89634},
+																				pos: position{line: 2836, col: 28, offset: 89846},
 																				expr: &notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
@@ -15583,27 +15621,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1198, col: 23, offset: 36972},
+															pos: position{line: 1206, col: 23, offset: 37184},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1198, col: 23, offset: 36972},
+																pos: position{line: 1206, col: 23, offset: 37184},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36940},
+																		pos:        position{line: 1204, col: 32, offset: 37152},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1198, col: 51, offset: 37000},
+																		pos:   position{line: 1206, col: 51, offset: 37212},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1198, col: 56, offset: 37005},
+																			pos: position{line: 1206, col: 56, offset: 37217},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1198, col: 56, offset: 37005},
+																				pos: position{line: 1206, col: 56, offset: 37217},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1198, col: 56, offset: 37005},
+																					pos:        position{line: 1206, col: 56, offset: 37217},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -15613,7 +15651,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36940},
+																		pos:        position{line: 1204, col: 32, offset: 37152},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -15622,10 +15660,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2831, col: 11, offset: 89754},
+															pos: position{line: 2839, col: 11, offset: 89966},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2831, col: 11, offset: 89754},
+																pos:        position{line: 2839, col: 11, offset: 89966},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -15653,29 +15691,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 988, col: 1, offset: 30767},
+			pos:  position{line: 996, col: 1, offset: 30979},
 			expr: &actionExpr{
-				pos: position{line: 989, col: 5, offset: 30800},
+				pos: position{line: 997, col: 5, offset: 31012},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 989, col: 5, offset: 30800},
+					pos: position{line: 997, col: 5, offset: 31012},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 989, col: 5, offset: 30800},
+							pos:        position{line: 997, col: 5, offset: 31012},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 989, col: 11, offset: 30806},
+							pos:   position{line: 997, col: 11, offset: 31018},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2802, col: 14, offset: 88832},
+								pos: position{line: 2810, col: 14, offset: 89044},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2802, col: 14, offset: 88832},
+									pos: position{line: 2810, col: 14, offset: 89044},
 									expr: &charClassMatcher{
-										pos:        position{line: 2802, col: 14, offset: 88832},
+										pos:        position{line: 2810, col: 14, offset: 89044},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -15685,28 +15723,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2882, col: 8, offset: 90849},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2869, col: 12, offset: 90622},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2869, col: 13, offset: 90623},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2869, col: 13, offset: 90623},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2869, col: 20, offset: 90630},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2869, col: 29, offset: 90639},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -15715,9 +15753,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2879, col: 8, offset: 90799},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2879, col: 9, offset: 90800,
 									},
 								},
 							},
@@ -15728,53 +15766,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1100, col: 1, offset: 33723},
+			pos:  position{line: 1108, col: 1, offset: 33935},
 			expr: &actionExpr{
-				pos: position{line: 1101, col: 5, offset: 33746},
+				pos: position{line: 1109, col: 5, offset: 33958},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1101, col: 5, offset: 33746},
+					pos: position{line: 1109, col: 5, offset: 33958},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1101, col: 5, offset: 33746},
+							pos: position{line: 1109, col: 5, offset: 33958},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1104, col: 5, offset: 33807},
+							pos: position{line: 1112, col: 5, offset: 34019},
 							expr: &choiceExpr{
-								pos: position{line: 1104, col: 6, offset: 33808},
+								pos: position{line: 1112, col: 6, offset: 34020},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79224},
+										pos: position{line: 2470, col: 22, offset: 79436},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2470, col: 22, offset: 79436},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79445},
+													pos:        position{line: 2475, col: 31, offset: 79657},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79450},
+													pos: position{line: 2475, col: 36, offset: 79662},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79451},
+														pos:        position{line: 2475, col: 37, offset: 79663},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79251},
+													pos:   position{line: 2470, col: 49, offset: 79463},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2798, col: 13, offset: 88765},
+														pos: position{line: 2806, col: 13, offset: 88977},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2806, col: 13, offset: 88977},
 															expr: &charClassMatcher{
-																pos:        position{line: 2798, col: 13, offset: 88765},
+																pos:        position{line: 2806, col: 13, offset: 88977},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -15784,28 +15822,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2882, col: 8, offset: 90849},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2869, col: 12, offset: 90622},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2869, col: 13, offset: 90623},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2869, col: 13, offset: 90623},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2869, col: 20, offset: 90630},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2869, col: 29, offset: 90639},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -15814,9 +15852,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2879, col: 8, offset: 90799},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2879, col: 9, offset: 90800,
 															},
 														},
 													},
@@ -15830,88 +15868,92 @@ var g = &grammar{
 										expr: &seqExpr{
 											pos: position{line: 820, col: 5, offset: 26324},
 											exprs: []interface{}{
-												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23584},
-													run: (*parser).callonDocumentHeader25,
-													expr: &seqExpr{
+												&labeledExpr{
+													pos:   position{line: 820, col: 5, offset: 26324},
+													label: "start",
+													expr: &actionExpr{
 														pos: position{line: 740, col: 5, offset: 23584},
-														exprs: []interface{}{
-															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23584},
-																label: "delimiter",
-																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23595},
-																	run: (*parser).callonDocumentHeader28,
-																	expr: &seqExpr{
+														run: (*parser).callonDocumentHeader26,
+														expr: &seqExpr{
+															pos: position{line: 740, col: 5, offset: 23584},
+															exprs: []interface{}{
+																&labeledExpr{
+																	pos:   position{line: 740, col: 5, offset: 23584},
+																	label: "delimiter",
+																	expr: &actionExpr{
 																		pos: position{line: 740, col: 16, offset: 23595},
-																		exprs: []interface{}{
-																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23595},
-																				val:        "////",
-																				ignoreCase: false,
-																				want:       "\"////\"",
-																			},
-																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23602},
-																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23602},
-																					val:        "/",
+																		run: (*parser).callonDocumentHeader29,
+																		expr: &seqExpr{
+																			pos: position{line: 740, col: 16, offset: 23595},
+																			exprs: []interface{}{
+																				&litMatcher{
+																					pos:        position{line: 740, col: 16, offset: 23595},
+																					val:        "////",
 																					ignoreCase: false,
-																					want:       "\"/\"",
+																					want:       "\"////\"",
+																				},
+																				&zeroOrMoreExpr{
+																					pos: position{line: 740, col: 23, offset: 23602},
+																					expr: &litMatcher{
+																						pos:        position{line: 740, col: 23, offset: 23602},
+																						val:        "/",
+																						ignoreCase: false,
+																						want:       "\"/\"",
+																					},
 																				},
 																			},
 																		},
 																	},
 																},
-															},
-															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23686},
-																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
-																	run: (*parser).callonDocumentHeader34,
-																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
-																		val:        "[\\t ]",
-																		chars:      []rune{'\t', ' '},
-																		ignoreCase: false,
-																		inverted:   false,
+																&zeroOrMoreExpr{
+																	pos: position{line: 742, col: 8, offset: 23686},
+																	expr: &actionExpr{
+																		pos: position{line: 2860, col: 10, offset: 90451},
+																		run: (*parser).callonDocumentHeader35,
+																		expr: &charClassMatcher{
+																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			val:        "[\\t ]",
+																			chars:      []rune{'\t', ' '},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
 																	},
 																},
-															},
-															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
-																alternatives: []interface{}{
-																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
-																		run: (*parser).callonDocumentHeader37,
-																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
-																			alternatives: []interface{}{
-																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
-																					val:        "\n",
-																					ignoreCase: false,
-																					want:       "\"\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
-																					val:        "\r\n",
-																					ignoreCase: false,
-																					want:       "\"\\r\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
-																					val:        "\r",
-																					ignoreCase: false,
-																					want:       "\"\\r\"",
+																&choiceExpr{
+																	pos: position{line: 2882, col: 8, offset: 90849},
+																	alternatives: []interface{}{
+																		&actionExpr{
+																			pos: position{line: 2869, col: 12, offset: 90622},
+																			run: (*parser).callonDocumentHeader38,
+																			expr: &choiceExpr{
+																				pos: position{line: 2869, col: 13, offset: 90623},
+																				alternatives: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						val:        "\n",
+																						ignoreCase: false,
+																						want:       "\"\\n\"",
+																					},
+																					&litMatcher{
+																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						val:        "\r\n",
+																						ignoreCase: false,
+																						want:       "\"\\r\\n\"",
+																					},
+																					&litMatcher{
+																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						val:        "\r",
+																						ignoreCase: false,
+																						want:       "\"\\r\"",
+																					},
 																				},
 																			},
 																		},
-																	},
-																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
-																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																		&notExpr{
+																			pos: position{line: 2879, col: 8, offset: 90799},
+																			expr: &anyMatcher{
+																				line: 2879, col: 9, offset: 90800,
+																			},
 																		},
 																	},
 																},
@@ -15919,145 +15961,162 @@ var g = &grammar{
 														},
 													},
 												},
+												&andCodeExpr{
+													pos: position{line: 821, col: 5, offset: 26363},
+													run: (*parser).callonDocumentHeader45,
+												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26355},
+													pos:   position{line: 824, col: 5, offset: 26455},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26641},
+														pos: position{line: 839, col: 5, offset: 26853},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26642},
-															run: (*parser).callonDocumentHeader46,
+															pos: position{line: 839, col: 6, offset: 26854},
+															run: (*parser).callonDocumentHeader48,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
+																pos: position{line: 839, col: 6, offset: 26854},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26642},
+																		pos: position{line: 839, col: 6, offset: 26854},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26584},
+																			pos: position{line: 832, col: 5, offset: 26695},
 																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
-																					run: (*parser).callonDocumentHeader50,
-																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
-																						exprs: []interface{}{
-																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23584},
-																								label: "delimiter",
-																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
-																									run: (*parser).callonDocumentHeader53,
-																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
-																										exprs: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23595},
-																												val:        "////",
-																												ignoreCase: false,
-																												want:       "\"////\"",
+																				&seqExpr{
+																					pos: position{line: 832, col: 5, offset: 26695},
+																					exprs: []interface{}{
+																						&labeledExpr{
+																							pos:   position{line: 832, col: 5, offset: 26695},
+																							label: "end",
+																							expr: &actionExpr{
+																								pos: position{line: 740, col: 5, offset: 23584},
+																								run: (*parser).callonDocumentHeader54,
+																								expr: &seqExpr{
+																									pos: position{line: 740, col: 5, offset: 23584},
+																									exprs: []interface{}{
+																										&labeledExpr{
+																											pos:   position{line: 740, col: 5, offset: 23584},
+																											label: "delimiter",
+																											expr: &actionExpr{
+																												pos: position{line: 740, col: 16, offset: 23595},
+																												run: (*parser).callonDocumentHeader57,
+																												expr: &seqExpr{
+																													pos: position{line: 740, col: 16, offset: 23595},
+																													exprs: []interface{}{
+																														&litMatcher{
+																															pos:        position{line: 740, col: 16, offset: 23595},
+																															val:        "////",
+																															ignoreCase: false,
+																															want:       "\"////\"",
+																														},
+																														&zeroOrMoreExpr{
+																															pos: position{line: 740, col: 23, offset: 23602},
+																															expr: &litMatcher{
+																																pos:        position{line: 740, col: 23, offset: 23602},
+																																val:        "/",
+																																ignoreCase: false,
+																																want:       "\"/\"",
+																															},
+																														},
+																													},
+																												},
 																											},
-																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23602},
-																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23602},
-																													val:        "/",
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 742, col: 8, offset: 23686},
+																											expr: &actionExpr{
+																												pos: position{line: 2860, col: 10, offset: 90451},
+																												run: (*parser).callonDocumentHeader63,
+																												expr: &charClassMatcher{
+																													pos:        position{line: 2860, col: 10, offset: 90451},
+																													val:        "[\\t ]",
+																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
-																													want:       "\"/\"",
+																													inverted:   false,
 																												},
 																											},
 																										},
-																									},
-																								},
-																							},
-																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23686},
-																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonDocumentHeader59,
-																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
-																										val:        "[\\t ]",
-																										chars:      []rune{'\t', ' '},
-																										ignoreCase: false,
-																										inverted:   false,
-																									},
-																								},
-																							},
-																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
-																								alternatives: []interface{}{
-																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonDocumentHeader62,
-																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																										&choiceExpr{
+																											pos: position{line: 2882, col: 8, offset: 90849},
 																											alternatives: []interface{}{
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
-																													val:        "\n",
-																													ignoreCase: false,
-																													want:       "\"\\n\"",
-																												},
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
-																													val:        "\r\n",
-																													ignoreCase: false,
-																													want:       "\"\\r\\n\"",
+																												&actionExpr{
+																													pos: position{line: 2869, col: 12, offset: 90622},
+																													run: (*parser).callonDocumentHeader66,
+																													expr: &choiceExpr{
+																														pos: position{line: 2869, col: 13, offset: 90623},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
 																												},
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
-																													val:        "\r",
-																													ignoreCase: false,
-																													want:       "\"\\r\"",
+																												&notExpr{
+																													pos: position{line: 2879, col: 8, offset: 90799},
+																													expr: &anyMatcher{
+																														line: 2879, col: 9, offset: 90800,
+																													},
 																												},
 																											},
 																										},
 																									},
-																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
-																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
-																										},
-																									},
 																								},
 																							},
 																						},
+																						&andCodeExpr{
+																							pos: position{line: 833, col: 5, offset: 26726},
+																							run: (*parser).callonDocumentHeader73,
+																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26672},
+																		pos:   position{line: 840, col: 5, offset: 26884},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonDocumentHeader72,
+																			run: (*parser).callonDocumentHeader77,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2877, col: 11, offset: 90785},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2877, col: 13, offset: 90787,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
-																							run: (*parser).callonDocumentHeader77,
+																							pos: position{line: 2806, col: 13, offset: 88977},
+																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2806, col: 13, offset: 88977},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2806, col: 13, offset: 88977},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16067,28 +16126,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2882, col: 8, offset: 90849},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonDocumentHeader81,
+																								pos: position{line: 2869, col: 12, offset: 90622},
+																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2869, col: 13, offset: 90623},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2869, col: 13, offset: 90623},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2869, col: 20, offset: 90630},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2869, col: 29, offset: 90639},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16097,9 +16156,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2879, col: 8, offset: 90799},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2879, col: 9, offset: 90800,
 																								},
 																							},
 																						},
@@ -16113,104 +16172,121 @@ var g = &grammar{
 														},
 													},
 												},
-												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26389},
-													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26584},
-														alternatives: []interface{}{
-															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23584},
-																run: (*parser).callonDocumentHeader90,
-																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
+												&labeledExpr{
+													pos:   position{line: 825, col: 5, offset: 26489},
+													label: "end",
+													expr: &zeroOrOneExpr{
+														pos: position{line: 825, col: 9, offset: 26493},
+														expr: &choiceExpr{
+															pos: position{line: 832, col: 5, offset: 26695},
+															alternatives: []interface{}{
+																&seqExpr{
+																	pos: position{line: 832, col: 5, offset: 26695},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23584},
-																			label: "delimiter",
+																			pos:   position{line: 832, col: 5, offset: 26695},
+																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23595},
-																				run: (*parser).callonDocumentHeader93,
+																				pos: position{line: 740, col: 5, offset: 23584},
+																				run: (*parser).callonDocumentHeader98,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
+																					pos: position{line: 740, col: 5, offset: 23584},
 																					exprs: []interface{}{
-																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23595},
-																							val:        "////",
-																							ignoreCase: false,
-																							want:       "\"////\"",
+																						&labeledExpr{
+																							pos:   position{line: 740, col: 5, offset: 23584},
+																							label: "delimiter",
+																							expr: &actionExpr{
+																								pos: position{line: 740, col: 16, offset: 23595},
+																								run: (*parser).callonDocumentHeader101,
+																								expr: &seqExpr{
+																									pos: position{line: 740, col: 16, offset: 23595},
+																									exprs: []interface{}{
+																										&litMatcher{
+																											pos:        position{line: 740, col: 16, offset: 23595},
+																											val:        "////",
+																											ignoreCase: false,
+																											want:       "\"////\"",
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 740, col: 23, offset: 23602},
+																											expr: &litMatcher{
+																												pos:        position{line: 740, col: 23, offset: 23602},
+																												val:        "/",
+																												ignoreCase: false,
+																												want:       "\"/\"",
+																											},
+																										},
+																									},
+																								},
+																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23602},
-																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23602},
-																								val:        "/",
-																								ignoreCase: false,
-																								want:       "\"/\"",
+																							pos: position{line: 742, col: 8, offset: 23686},
+																							expr: &actionExpr{
+																								pos: position{line: 2860, col: 10, offset: 90451},
+																								run: (*parser).callonDocumentHeader107,
+																								expr: &charClassMatcher{
+																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									val:        "[\\t ]",
+																									chars:      []rune{'\t', ' '},
+																									ignoreCase: false,
+																									inverted:   false,
+																								},
 																							},
 																						},
-																					},
-																				},
-																			},
-																		},
-																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23686},
-																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
-																				run: (*parser).callonDocumentHeader99,
-																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
-																					val:        "[\\t ]",
-																					chars:      []rune{'\t', ' '},
-																					ignoreCase: false,
-																					inverted:   false,
-																				},
-																			},
-																		},
-																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
-																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
-																					run: (*parser).callonDocumentHeader102,
-																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
-																						alternatives: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
-																								val:        "\n",
-																								ignoreCase: false,
-																								want:       "\"\\n\"",
-																							},
-																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
-																								val:        "\r\n",
-																								ignoreCase: false,
-																								want:       "\"\\r\\n\"",
-																							},
-																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
-																								val:        "\r",
-																								ignoreCase: false,
-																								want:       "\"\\r\"",
+																						&choiceExpr{
+																							pos: position{line: 2882, col: 8, offset: 90849},
+																							alternatives: []interface{}{
+																								&actionExpr{
+																									pos: position{line: 2869, col: 12, offset: 90622},
+																									run: (*parser).callonDocumentHeader110,
+																									expr: &choiceExpr{
+																										pos: position{line: 2869, col: 13, offset: 90623},
+																										alternatives: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												val:        "\n",
+																												ignoreCase: false,
+																												want:       "\"\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												val:        "\r\n",
+																												ignoreCase: false,
+																												want:       "\"\\r\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												val:        "\r",
+																												ignoreCase: false,
+																												want:       "\"\\r\"",
+																											},
+																										},
+																									},
+																								},
+																								&notExpr{
+																									pos: position{line: 2879, col: 8, offset: 90799},
+																									expr: &anyMatcher{
+																										line: 2879, col: 9, offset: 90800,
+																									},
+																								},
 																							},
 																						},
 																					},
 																				},
-																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
-																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
-																					},
-																				},
 																			},
 																		},
+																		&andCodeExpr{
+																			pos: position{line: 833, col: 5, offset: 26726},
+																			run: (*parser).callonDocumentHeader117,
+																		},
 																	},
 																},
-															},
-															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
-																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																&notExpr{
+																	pos: position{line: 2879, col: 8, offset: 90799},
+																	expr: &anyMatcher{
+																		line: 2879, col: 9, offset: 90800,
+																	},
 																},
 															},
 														},
@@ -16223,49 +16299,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1105, col: 5, offset: 33904},
+							pos:   position{line: 1113, col: 5, offset: 34116},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1105, col: 12, offset: 33911},
+								pos:  position{line: 1113, col: 12, offset: 34123},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1106, col: 5, offset: 33930},
+							pos: position{line: 1114, col: 5, offset: 34142},
 							expr: &choiceExpr{
-								pos: position{line: 1106, col: 6, offset: 33931},
+								pos: position{line: 1114, col: 6, offset: 34143},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79224},
-										run: (*parser).callonDocumentHeader115,
+										pos: position{line: 2470, col: 22, offset: 79436},
+										run: (*parser).callonDocumentHeader124,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2470, col: 22, offset: 79436},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79445},
+													pos:        position{line: 2475, col: 31, offset: 79657},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79450},
+													pos: position{line: 2475, col: 36, offset: 79662},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79451},
+														pos:        position{line: 2475, col: 37, offset: 79663},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79251},
+													pos:   position{line: 2470, col: 49, offset: 79463},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2798, col: 13, offset: 88765},
-														run: (*parser).callonDocumentHeader121,
+														pos: position{line: 2806, col: 13, offset: 88977},
+														run: (*parser).callonDocumentHeader130,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2806, col: 13, offset: 88977},
 															expr: &charClassMatcher{
-																pos:        position{line: 2798, col: 13, offset: 88765},
+																pos:        position{line: 2806, col: 13, offset: 88977},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16275,28 +16351,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2882, col: 8, offset: 90849},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
-															run: (*parser).callonDocumentHeader125,
+															pos: position{line: 2869, col: 12, offset: 90622},
+															run: (*parser).callonDocumentHeader134,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2869, col: 13, offset: 90623},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2869, col: 13, offset: 90623},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2869, col: 20, offset: 90630},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2869, col: 29, offset: 90639},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16305,9 +16381,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2879, col: 8, offset: 90799},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2879, col: 9, offset: 90800,
 															},
 														},
 													},
@@ -16317,92 +16393,96 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 820, col: 5, offset: 26324},
-										run: (*parser).callonDocumentHeader132,
+										run: (*parser).callonDocumentHeader141,
 										expr: &seqExpr{
 											pos: position{line: 820, col: 5, offset: 26324},
 											exprs: []interface{}{
-												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23584},
-													run: (*parser).callonDocumentHeader134,
-													expr: &seqExpr{
+												&labeledExpr{
+													pos:   position{line: 820, col: 5, offset: 26324},
+													label: "start",
+													expr: &actionExpr{
 														pos: position{line: 740, col: 5, offset: 23584},
-														exprs: []interface{}{
-															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23584},
-																label: "delimiter",
-																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23595},
-																	run: (*parser).callonDocumentHeader137,
-																	expr: &seqExpr{
+														run: (*parser).callonDocumentHeader144,
+														expr: &seqExpr{
+															pos: position{line: 740, col: 5, offset: 23584},
+															exprs: []interface{}{
+																&labeledExpr{
+																	pos:   position{line: 740, col: 5, offset: 23584},
+																	label: "delimiter",
+																	expr: &actionExpr{
 																		pos: position{line: 740, col: 16, offset: 23595},
-																		exprs: []interface{}{
-																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23595},
-																				val:        "////",
-																				ignoreCase: false,
-																				want:       "\"////\"",
-																			},
-																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23602},
-																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23602},
-																					val:        "/",
+																		run: (*parser).callonDocumentHeader147,
+																		expr: &seqExpr{
+																			pos: position{line: 740, col: 16, offset: 23595},
+																			exprs: []interface{}{
+																				&litMatcher{
+																					pos:        position{line: 740, col: 16, offset: 23595},
+																					val:        "////",
 																					ignoreCase: false,
-																					want:       "\"/\"",
+																					want:       "\"////\"",
+																				},
+																				&zeroOrMoreExpr{
+																					pos: position{line: 740, col: 23, offset: 23602},
+																					expr: &litMatcher{
+																						pos:        position{line: 740, col: 23, offset: 23602},
+																						val:        "/",
+																						ignoreCase: false,
+																						want:       "\"/\"",
+																					},
 																				},
 																			},
 																		},
 																	},
 																},
-															},
-															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23686},
-																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
-																	run: (*parser).callonDocumentHeader143,
-																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
-																		val:        "[\\t ]",
-																		chars:      []rune{'\t', ' '},
-																		ignoreCase: false,
-																		inverted:   false,
+																&zeroOrMoreExpr{
+																	pos: position{line: 742, col: 8, offset: 23686},
+																	expr: &actionExpr{
+																		pos: position{line: 2860, col: 10, offset: 90451},
+																		run: (*parser).callonDocumentHeader153,
+																		expr: &charClassMatcher{
+																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			val:        "[\\t ]",
+																			chars:      []rune{'\t', ' '},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
 																	},
 																},
-															},
-															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
-																alternatives: []interface{}{
-																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
-																		run: (*parser).callonDocumentHeader146,
-																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
-																			alternatives: []interface{}{
-																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
-																					val:        "\n",
-																					ignoreCase: false,
-																					want:       "\"\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
-																					val:        "\r\n",
-																					ignoreCase: false,
-																					want:       "\"\\r\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
-																					val:        "\r",
-																					ignoreCase: false,
-																					want:       "\"\\r\"",
+																&choiceExpr{
+																	pos: position{line: 2882, col: 8, offset: 90849},
+																	alternatives: []interface{}{
+																		&actionExpr{
+																			pos: position{line: 2869, col: 12, offset: 90622},
+																			run: (*parser).callonDocumentHeader156,
+																			expr: &choiceExpr{
+																				pos: position{line: 2869, col: 13, offset: 90623},
+																				alternatives: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						val:        "\n",
+																						ignoreCase: false,
+																						want:       "\"\\n\"",
+																					},
+																					&litMatcher{
+																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						val:        "\r\n",
+																						ignoreCase: false,
+																						want:       "\"\\r\\n\"",
+																					},
+																					&litMatcher{
+																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						val:        "\r",
+																						ignoreCase: false,
+																						want:       "\"\\r\"",
+																					},
 																				},
 																			},
 																		},
-																	},
-																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
-																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																		&notExpr{
+																			pos: position{line: 2879, col: 8, offset: 90799},
+																			expr: &anyMatcher{
+																				line: 2879, col: 9, offset: 90800,
+																			},
 																		},
 																	},
 																},
@@ -16410,145 +16490,162 @@ var g = &grammar{
 														},
 													},
 												},
+												&andCodeExpr{
+													pos: position{line: 821, col: 5, offset: 26363},
+													run: (*parser).callonDocumentHeader163,
+												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26355},
+													pos:   position{line: 824, col: 5, offset: 26455},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26641},
+														pos: position{line: 839, col: 5, offset: 26853},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26642},
-															run: (*parser).callonDocumentHeader155,
+															pos: position{line: 839, col: 6, offset: 26854},
+															run: (*parser).callonDocumentHeader166,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
+																pos: position{line: 839, col: 6, offset: 26854},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26642},
+																		pos: position{line: 839, col: 6, offset: 26854},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26584},
+																			pos: position{line: 832, col: 5, offset: 26695},
 																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
-																					run: (*parser).callonDocumentHeader159,
-																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
-																						exprs: []interface{}{
-																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23584},
-																								label: "delimiter",
-																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
-																									run: (*parser).callonDocumentHeader162,
-																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
-																										exprs: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23595},
-																												val:        "////",
-																												ignoreCase: false,
-																												want:       "\"////\"",
+																				&seqExpr{
+																					pos: position{line: 832, col: 5, offset: 26695},
+																					exprs: []interface{}{
+																						&labeledExpr{
+																							pos:   position{line: 832, col: 5, offset: 26695},
+																							label: "end",
+																							expr: &actionExpr{
+																								pos: position{line: 740, col: 5, offset: 23584},
+																								run: (*parser).callonDocumentHeader172,
+																								expr: &seqExpr{
+																									pos: position{line: 740, col: 5, offset: 23584},
+																									exprs: []interface{}{
+																										&labeledExpr{
+																											pos:   position{line: 740, col: 5, offset: 23584},
+																											label: "delimiter",
+																											expr: &actionExpr{
+																												pos: position{line: 740, col: 16, offset: 23595},
+																												run: (*parser).callonDocumentHeader175,
+																												expr: &seqExpr{
+																													pos: position{line: 740, col: 16, offset: 23595},
+																													exprs: []interface{}{
+																														&litMatcher{
+																															pos:        position{line: 740, col: 16, offset: 23595},
+																															val:        "////",
+																															ignoreCase: false,
+																															want:       "\"////\"",
+																														},
+																														&zeroOrMoreExpr{
+																															pos: position{line: 740, col: 23, offset: 23602},
+																															expr: &litMatcher{
+																																pos:        position{line: 740, col: 23, offset: 23602},
+																																val:        "/",
+																																ignoreCase: false,
+																																want:       "\"/\"",
+																															},
+																														},
+																													},
+																												},
 																											},
-																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23602},
-																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23602},
-																													val:        "/",
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 742, col: 8, offset: 23686},
+																											expr: &actionExpr{
+																												pos: position{line: 2860, col: 10, offset: 90451},
+																												run: (*parser).callonDocumentHeader181,
+																												expr: &charClassMatcher{
+																													pos:        position{line: 2860, col: 10, offset: 90451},
+																													val:        "[\\t ]",
+																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
-																													want:       "\"/\"",
+																													inverted:   false,
 																												},
 																											},
 																										},
-																									},
-																								},
-																							},
-																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23686},
-																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonDocumentHeader168,
-																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
-																										val:        "[\\t ]",
-																										chars:      []rune{'\t', ' '},
-																										ignoreCase: false,
-																										inverted:   false,
-																									},
-																								},
-																							},
-																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
-																								alternatives: []interface{}{
-																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonDocumentHeader171,
-																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																										&choiceExpr{
+																											pos: position{line: 2882, col: 8, offset: 90849},
 																											alternatives: []interface{}{
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
-																													val:        "\n",
-																													ignoreCase: false,
-																													want:       "\"\\n\"",
-																												},
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
-																													val:        "\r\n",
-																													ignoreCase: false,
-																													want:       "\"\\r\\n\"",
+																												&actionExpr{
+																													pos: position{line: 2869, col: 12, offset: 90622},
+																													run: (*parser).callonDocumentHeader184,
+																													expr: &choiceExpr{
+																														pos: position{line: 2869, col: 13, offset: 90623},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
 																												},
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
-																													val:        "\r",
-																													ignoreCase: false,
-																													want:       "\"\\r\"",
+																												&notExpr{
+																													pos: position{line: 2879, col: 8, offset: 90799},
+																													expr: &anyMatcher{
+																														line: 2879, col: 9, offset: 90800,
+																													},
 																												},
 																											},
 																										},
 																									},
-																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
-																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
-																										},
-																									},
 																								},
 																							},
 																						},
+																						&andCodeExpr{
+																							pos: position{line: 833, col: 5, offset: 26726},
+																							run: (*parser).callonDocumentHeader191,
+																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26672},
+																		pos:   position{line: 840, col: 5, offset: 26884},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonDocumentHeader181,
+																			run: (*parser).callonDocumentHeader195,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2877, col: 11, offset: 90785},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2877, col: 13, offset: 90787,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
-																							run: (*parser).callonDocumentHeader186,
+																							pos: position{line: 2806, col: 13, offset: 88977},
+																							run: (*parser).callonDocumentHeader200,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2806, col: 13, offset: 88977},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2806, col: 13, offset: 88977},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16558,28 +16655,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2882, col: 8, offset: 90849},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonDocumentHeader190,
+																								pos: position{line: 2869, col: 12, offset: 90622},
+																								run: (*parser).callonDocumentHeader204,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2869, col: 13, offset: 90623},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2869, col: 13, offset: 90623},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2869, col: 20, offset: 90630},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2869, col: 29, offset: 90639},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16588,9 +16685,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2879, col: 8, offset: 90799},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2879, col: 9, offset: 90800,
 																								},
 																							},
 																						},
@@ -16604,104 +16701,121 @@ var g = &grammar{
 														},
 													},
 												},
-												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26389},
-													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26584},
-														alternatives: []interface{}{
-															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23584},
-																run: (*parser).callonDocumentHeader199,
-																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
+												&labeledExpr{
+													pos:   position{line: 825, col: 5, offset: 26489},
+													label: "end",
+													expr: &zeroOrOneExpr{
+														pos: position{line: 825, col: 9, offset: 26493},
+														expr: &choiceExpr{
+															pos: position{line: 832, col: 5, offset: 26695},
+															alternatives: []interface{}{
+																&seqExpr{
+																	pos: position{line: 832, col: 5, offset: 26695},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23584},
-																			label: "delimiter",
+																			pos:   position{line: 832, col: 5, offset: 26695},
+																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23595},
-																				run: (*parser).callonDocumentHeader202,
+																				pos: position{line: 740, col: 5, offset: 23584},
+																				run: (*parser).callonDocumentHeader216,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
+																					pos: position{line: 740, col: 5, offset: 23584},
 																					exprs: []interface{}{
-																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23595},
-																							val:        "////",
-																							ignoreCase: false,
-																							want:       "\"////\"",
+																						&labeledExpr{
+																							pos:   position{line: 740, col: 5, offset: 23584},
+																							label: "delimiter",
+																							expr: &actionExpr{
+																								pos: position{line: 740, col: 16, offset: 23595},
+																								run: (*parser).callonDocumentHeader219,
+																								expr: &seqExpr{
+																									pos: position{line: 740, col: 16, offset: 23595},
+																									exprs: []interface{}{
+																										&litMatcher{
+																											pos:        position{line: 740, col: 16, offset: 23595},
+																											val:        "////",
+																											ignoreCase: false,
+																											want:       "\"////\"",
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 740, col: 23, offset: 23602},
+																											expr: &litMatcher{
+																												pos:        position{line: 740, col: 23, offset: 23602},
+																												val:        "/",
+																												ignoreCase: false,
+																												want:       "\"/\"",
+																											},
+																										},
+																									},
+																								},
+																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23602},
-																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23602},
-																								val:        "/",
-																								ignoreCase: false,
-																								want:       "\"/\"",
+																							pos: position{line: 742, col: 8, offset: 23686},
+																							expr: &actionExpr{
+																								pos: position{line: 2860, col: 10, offset: 90451},
+																								run: (*parser).callonDocumentHeader225,
+																								expr: &charClassMatcher{
+																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									val:        "[\\t ]",
+																									chars:      []rune{'\t', ' '},
+																									ignoreCase: false,
+																									inverted:   false,
+																								},
 																							},
 																						},
-																					},
-																				},
-																			},
-																		},
-																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23686},
-																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
-																				run: (*parser).callonDocumentHeader208,
-																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
-																					val:        "[\\t ]",
-																					chars:      []rune{'\t', ' '},
-																					ignoreCase: false,
-																					inverted:   false,
-																				},
-																			},
-																		},
-																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
-																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
-																					run: (*parser).callonDocumentHeader211,
-																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
-																						alternatives: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
-																								val:        "\n",
-																								ignoreCase: false,
-																								want:       "\"\\n\"",
-																							},
-																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
-																								val:        "\r\n",
-																								ignoreCase: false,
-																								want:       "\"\\r\\n\"",
-																							},
-																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
-																								val:        "\r",
-																								ignoreCase: false,
-																								want:       "\"\\r\"",
+																						&choiceExpr{
+																							pos: position{line: 2882, col: 8, offset: 90849},
+																							alternatives: []interface{}{
+																								&actionExpr{
+																									pos: position{line: 2869, col: 12, offset: 90622},
+																									run: (*parser).callonDocumentHeader228,
+																									expr: &choiceExpr{
+																										pos: position{line: 2869, col: 13, offset: 90623},
+																										alternatives: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												val:        "\n",
+																												ignoreCase: false,
+																												want:       "\"\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												val:        "\r\n",
+																												ignoreCase: false,
+																												want:       "\"\\r\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												val:        "\r",
+																												ignoreCase: false,
+																												want:       "\"\\r\"",
+																											},
+																										},
+																									},
+																								},
+																								&notExpr{
+																									pos: position{line: 2879, col: 8, offset: 90799},
+																									expr: &anyMatcher{
+																										line: 2879, col: 9, offset: 90800,
+																									},
+																								},
 																							},
 																						},
 																					},
 																				},
-																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
-																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
-																					},
-																				},
 																			},
 																		},
+																		&andCodeExpr{
+																			pos: position{line: 833, col: 5, offset: 26726},
+																			run: (*parser).callonDocumentHeader235,
+																		},
 																	},
 																},
-															},
-															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
-																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																&notExpr{
+																	pos: position{line: 2879, col: 8, offset: 90799},
+																	expr: &anyMatcher{
+																		line: 2879, col: 9, offset: 90800,
+																	},
 																},
 															},
 														},
@@ -16714,41 +16828,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1107, col: 5, offset: 34027},
+							pos:   position{line: 1115, col: 5, offset: 34239},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1107, col: 24, offset: 34046},
+								pos: position{line: 1115, col: 24, offset: 34258},
 								expr: &actionExpr{
-									pos: position{line: 1118, col: 5, offset: 34421},
-									run: (*parser).callonDocumentHeader222,
+									pos: position{line: 1126, col: 5, offset: 34633},
+									run: (*parser).callonDocumentHeader240,
 									expr: &seqExpr{
-										pos: position{line: 1118, col: 5, offset: 34421},
+										pos: position{line: 1126, col: 5, offset: 34633},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1118, col: 5, offset: 34421},
+												pos: position{line: 1126, col: 5, offset: 34633},
 												expr: &litMatcher{
-													pos:        position{line: 1118, col: 6, offset: 34422},
+													pos:        position{line: 1126, col: 6, offset: 34634},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1119, col: 5, offset: 34430},
+												pos:   position{line: 1127, col: 5, offset: 34642},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1125, col: 20, offset: 34686},
-													run: (*parser).callonDocumentHeader227,
+													pos: position{line: 1133, col: 20, offset: 34898},
+													run: (*parser).callonDocumentHeader245,
 													expr: &seqExpr{
-														pos: position{line: 1125, col: 20, offset: 34686},
+														pos: position{line: 1133, col: 20, offset: 34898},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1125, col: 20, offset: 34686},
+																pos: position{line: 1133, col: 20, offset: 34898},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
-																	run: (*parser).callonDocumentHeader230,
+																	pos: position{line: 2860, col: 10, offset: 90451},
+																	run: (*parser).callonDocumentHeader248,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2860, col: 10, offset: 90451},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16757,37 +16871,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1125, col: 27, offset: 34693},
+																pos:   position{line: 1133, col: 27, offset: 34905},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1125, col: 36, offset: 34702},
+																	pos: position{line: 1133, col: 36, offset: 34914},
 																	expr: &actionExpr{
-																		pos: position{line: 1130, col: 5, offset: 34815},
-																		run: (*parser).callonDocumentHeader234,
+																		pos: position{line: 1138, col: 5, offset: 35027},
+																		run: (*parser).callonDocumentHeader252,
 																		expr: &seqExpr{
-																			pos: position{line: 1130, col: 5, offset: 34815},
+																			pos: position{line: 1138, col: 5, offset: 35027},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1130, col: 5, offset: 34815},
+																					pos:   position{line: 1138, col: 5, offset: 35027},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1130, col: 14, offset: 34824},
+																						pos: position{line: 1138, col: 14, offset: 35036},
 																						expr: &actionExpr{
-																							pos: position{line: 1141, col: 5, offset: 35204},
-																							run: (*parser).callonDocumentHeader238,
+																							pos: position{line: 1149, col: 5, offset: 35416},
+																							run: (*parser).callonDocumentHeader256,
 																							expr: &seqExpr{
-																								pos: position{line: 1141, col: 5, offset: 35204},
+																								pos: position{line: 1149, col: 5, offset: 35416},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1141, col: 5, offset: 35204},
+																										pos:   position{line: 1149, col: 5, offset: 35416},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1141, col: 12, offset: 35211},
-																											run: (*parser).callonDocumentHeader241,
+																											pos: position{line: 1149, col: 12, offset: 35423},
+																											run: (*parser).callonDocumentHeader259,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1141, col: 12, offset: 35211},
+																												pos: position{line: 1149, col: 12, offset: 35423},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1141, col: 12, offset: 35211},
+																													pos:        position{line: 1149, col: 12, offset: 35423},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -16797,12 +16911,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1144, col: 5, offset: 35291},
+																										pos: position{line: 1152, col: 5, offset: 35503},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
-																											run: (*parser).callonDocumentHeader245,
+																											pos: position{line: 2860, col: 10, offset: 90451},
+																											run: (*parser).callonDocumentHeader263,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2860, col: 10, offset: 90451},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16811,17 +16925,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1145, col: 5, offset: 35302},
+																										pos:   position{line: 1153, col: 5, offset: 35514},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1145, col: 11, offset: 35308},
+																											pos: position{line: 1153, col: 11, offset: 35520},
 																											expr: &actionExpr{
-																												pos: position{line: 1145, col: 12, offset: 35309},
-																												run: (*parser).callonDocumentHeader249,
+																												pos: position{line: 1153, col: 12, offset: 35521},
+																												run: (*parser).callonDocumentHeader267,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1145, col: 12, offset: 35309},
+																													pos: position{line: 1153, col: 12, offset: 35521},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1145, col: 12, offset: 35309},
+																														pos:        position{line: 1153, col: 12, offset: 35521},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -16832,12 +16946,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1148, col: 5, offset: 35390},
+																										pos: position{line: 1156, col: 5, offset: 35602},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
-																											run: (*parser).callonDocumentHeader253,
+																											pos: position{line: 2860, col: 10, offset: 90451},
+																											run: (*parser).callonDocumentHeader271,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2860, col: 10, offset: 90451},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16846,17 +16960,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1149, col: 5, offset: 35401},
+																										pos:   position{line: 1157, col: 5, offset: 35613},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1149, col: 11, offset: 35407},
+																											pos: position{line: 1157, col: 11, offset: 35619},
 																											expr: &actionExpr{
-																												pos: position{line: 1149, col: 12, offset: 35408},
-																												run: (*parser).callonDocumentHeader257,
+																												pos: position{line: 1157, col: 12, offset: 35620},
+																												run: (*parser).callonDocumentHeader275,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1149, col: 12, offset: 35408},
+																													pos: position{line: 1157, col: 12, offset: 35620},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1149, col: 12, offset: 35408},
+																														pos:        position{line: 1157, col: 12, offset: 35620},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -16867,12 +16981,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1152, col: 5, offset: 35487},
+																										pos: position{line: 1160, col: 5, offset: 35699},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
-																											run: (*parser).callonDocumentHeader261,
+																											pos: position{line: 2860, col: 10, offset: 90451},
+																											run: (*parser).callonDocumentHeader279,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2860, col: 10, offset: 90451},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16886,38 +17000,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1130, col: 40, offset: 34850},
+																					pos:   position{line: 1138, col: 40, offset: 35062},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1130, col: 46, offset: 34856},
+																						pos: position{line: 1138, col: 46, offset: 35068},
 																						expr: &actionExpr{
-																							pos: position{line: 1158, col: 5, offset: 35609},
-																							run: (*parser).callonDocumentHeader265,
+																							pos: position{line: 1166, col: 5, offset: 35821},
+																							run: (*parser).callonDocumentHeader283,
 																							expr: &seqExpr{
-																								pos: position{line: 1158, col: 5, offset: 35609},
+																								pos: position{line: 1166, col: 5, offset: 35821},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2869, col: 11, offset: 90573},
+																										pos: position{line: 2877, col: 11, offset: 90785},
 																										expr: &anyMatcher{
-																											line: 2869, col: 13, offset: 90575,
+																											line: 2877, col: 13, offset: 90787,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1159, col: 5, offset: 35621},
+																										pos:        position{line: 1167, col: 5, offset: 35833},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1160, col: 5, offset: 35630},
+																										pos:   position{line: 1168, col: 5, offset: 35842},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1160, col: 12, offset: 35637},
-																											run: (*parser).callonDocumentHeader271,
+																											pos: position{line: 1168, col: 12, offset: 35849},
+																											run: (*parser).callonDocumentHeader289,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1160, col: 13, offset: 35638},
+																												pos: position{line: 1168, col: 13, offset: 35850},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1160, col: 13, offset: 35638},
+																													pos:        position{line: 1168, col: 13, offset: 35850},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -16927,7 +17041,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1163, col: 5, offset: 35698},
+																										pos:        position{line: 1171, col: 5, offset: 35910},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -16938,12 +17052,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1130, col: 69, offset: 34879},
+																					pos: position{line: 1138, col: 69, offset: 35091},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonDocumentHeader276,
+																						pos: position{line: 2860, col: 10, offset: 90451},
+																						run: (*parser).callonDocumentHeader294,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2860, col: 10, offset: 90451},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -16952,21 +17066,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1130, col: 76, offset: 34886},
+																					pos: position{line: 1138, col: 76, offset: 35098},
 																					expr: &litMatcher{
-																						pos:        position{line: 1130, col: 76, offset: 34886},
+																						pos:        position{line: 1138, col: 76, offset: 35098},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1130, col: 81, offset: 34891},
+																					pos: position{line: 1138, col: 81, offset: 35103},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonDocumentHeader281,
+																						pos: position{line: 2860, col: 10, offset: 90451},
+																						run: (*parser).callonDocumentHeader299,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2860, col: 10, offset: 90451},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -16975,8 +17089,8 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1131, col: 5, offset: 34903},
-																					run: (*parser).callonDocumentHeader283,
+																					pos: position{line: 1139, col: 5, offset: 35115},
+																					run: (*parser).callonDocumentHeader301,
 																				},
 																			},
 																		},
@@ -16984,28 +17098,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2882, col: 8, offset: 90849},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
-																		run: (*parser).callonDocumentHeader285,
+																		pos: position{line: 2869, col: 12, offset: 90622},
+																		run: (*parser).callonDocumentHeader303,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2869, col: 13, offset: 90623},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2869, col: 13, offset: 90623},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2869, col: 20, offset: 90630},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2869, col: 29, offset: 90639},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17014,9 +17128,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2879, col: 8, offset: 90799},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2879, col: 9, offset: 90800,
 																		},
 																	},
 																},
@@ -17026,41 +17140,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1120, col: 5, offset: 34460},
+												pos: position{line: 1128, col: 5, offset: 34672},
 												expr: &choiceExpr{
-													pos: position{line: 1120, col: 6, offset: 34461},
+													pos: position{line: 1128, col: 6, offset: 34673},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2462, col: 22, offset: 79224},
-															run: (*parser).callonDocumentHeader294,
+															pos: position{line: 2470, col: 22, offset: 79436},
+															run: (*parser).callonDocumentHeader312,
 															expr: &seqExpr{
-																pos: position{line: 2462, col: 22, offset: 79224},
+																pos: position{line: 2470, col: 22, offset: 79436},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2467, col: 31, offset: 79445},
+																		pos:        position{line: 2475, col: 31, offset: 79657},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2467, col: 36, offset: 79450},
+																		pos: position{line: 2475, col: 36, offset: 79662},
 																		expr: &litMatcher{
-																			pos:        position{line: 2467, col: 37, offset: 79451},
+																			pos:        position{line: 2475, col: 37, offset: 79663},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2462, col: 49, offset: 79251},
+																		pos:   position{line: 2470, col: 49, offset: 79463},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2798, col: 13, offset: 88765},
-																			run: (*parser).callonDocumentHeader300,
+																			pos: position{line: 2806, col: 13, offset: 88977},
+																			run: (*parser).callonDocumentHeader318,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2798, col: 13, offset: 88765},
+																				pos: position{line: 2806, col: 13, offset: 88977},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2798, col: 13, offset: 88765},
+																					pos:        position{line: 2806, col: 13, offset: 88977},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17070,28 +17184,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2882, col: 8, offset: 90849},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonDocumentHeader304,
+																				pos: position{line: 2869, col: 12, offset: 90622},
+																				run: (*parser).callonDocumentHeader322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2869, col: 13, offset: 90623},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2869, col: 13, offset: 90623},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2869, col: 20, offset: 90630},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2869, col: 29, offset: 90639},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17100,9 +17214,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2879, col: 8, offset: 90799},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2879, col: 9, offset: 90800,
 																				},
 																			},
 																		},
@@ -17112,92 +17226,96 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 820, col: 5, offset: 26324},
-															run: (*parser).callonDocumentHeader311,
+															run: (*parser).callonDocumentHeader329,
 															expr: &seqExpr{
 																pos: position{line: 820, col: 5, offset: 26324},
 																exprs: []interface{}{
-																	&actionExpr{
-																		pos: position{line: 740, col: 5, offset: 23584},
-																		run: (*parser).callonDocumentHeader313,
-																		expr: &seqExpr{
+																	&labeledExpr{
+																		pos:   position{line: 820, col: 5, offset: 26324},
+																		label: "start",
+																		expr: &actionExpr{
 																			pos: position{line: 740, col: 5, offset: 23584},
-																			exprs: []interface{}{
-																				&labeledExpr{
-																					pos:   position{line: 740, col: 5, offset: 23584},
-																					label: "delimiter",
-																					expr: &actionExpr{
-																						pos: position{line: 740, col: 16, offset: 23595},
-																						run: (*parser).callonDocumentHeader316,
-																						expr: &seqExpr{
+																			run: (*parser).callonDocumentHeader332,
+																			expr: &seqExpr{
+																				pos: position{line: 740, col: 5, offset: 23584},
+																				exprs: []interface{}{
+																					&labeledExpr{
+																						pos:   position{line: 740, col: 5, offset: 23584},
+																						label: "delimiter",
+																						expr: &actionExpr{
 																							pos: position{line: 740, col: 16, offset: 23595},
-																							exprs: []interface{}{
-																								&litMatcher{
-																									pos:        position{line: 740, col: 16, offset: 23595},
-																									val:        "////",
-																									ignoreCase: false,
-																									want:       "\"////\"",
-																								},
-																								&zeroOrMoreExpr{
-																									pos: position{line: 740, col: 23, offset: 23602},
-																									expr: &litMatcher{
-																										pos:        position{line: 740, col: 23, offset: 23602},
-																										val:        "/",
+																							run: (*parser).callonDocumentHeader335,
+																							expr: &seqExpr{
+																								pos: position{line: 740, col: 16, offset: 23595},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 740, col: 16, offset: 23595},
+																										val:        "////",
 																										ignoreCase: false,
-																										want:       "\"/\"",
+																										want:       "\"////\"",
+																									},
+																									&zeroOrMoreExpr{
+																										pos: position{line: 740, col: 23, offset: 23602},
+																										expr: &litMatcher{
+																											pos:        position{line: 740, col: 23, offset: 23602},
+																											val:        "/",
+																											ignoreCase: false,
+																											want:       "\"/\"",
+																										},
 																									},
 																								},
 																							},
 																						},
 																					},
-																				},
-																				&zeroOrMoreExpr{
-																					pos: position{line: 742, col: 8, offset: 23686},
-																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonDocumentHeader322,
-																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
-																							val:        "[\\t ]",
-																							chars:      []rune{'\t', ' '},
-																							ignoreCase: false,
-																							inverted:   false,
+																					&zeroOrMoreExpr{
+																						pos: position{line: 742, col: 8, offset: 23686},
+																						expr: &actionExpr{
+																							pos: position{line: 2860, col: 10, offset: 90451},
+																							run: (*parser).callonDocumentHeader341,
+																							expr: &charClassMatcher{
+																								pos:        position{line: 2860, col: 10, offset: 90451},
+																								val:        "[\\t ]",
+																								chars:      []rune{'\t', ' '},
+																								ignoreCase: false,
+																								inverted:   false,
+																							},
 																						},
 																					},
-																				},
-																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
-																					alternatives: []interface{}{
-																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
-																							run: (*parser).callonDocumentHeader325,
-																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
-																								alternatives: []interface{}{
-																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
-																										val:        "\n",
-																										ignoreCase: false,
-																										want:       "\"\\n\"",
-																									},
-																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
-																										val:        "\r\n",
-																										ignoreCase: false,
-																										want:       "\"\\r\\n\"",
-																									},
-																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
-																										val:        "\r",
-																										ignoreCase: false,
-																										want:       "\"\\r\"",
+																					&choiceExpr{
+																						pos: position{line: 2882, col: 8, offset: 90849},
+																						alternatives: []interface{}{
+																							&actionExpr{
+																								pos: position{line: 2869, col: 12, offset: 90622},
+																								run: (*parser).callonDocumentHeader344,
+																								expr: &choiceExpr{
+																									pos: position{line: 2869, col: 13, offset: 90623},
+																									alternatives: []interface{}{
+																										&litMatcher{
+																											pos:        position{line: 2869, col: 13, offset: 90623},
+																											val:        "\n",
+																											ignoreCase: false,
+																											want:       "\"\\n\"",
+																										},
+																										&litMatcher{
+																											pos:        position{line: 2869, col: 20, offset: 90630},
+																											val:        "\r\n",
+																											ignoreCase: false,
+																											want:       "\"\\r\\n\"",
+																										},
+																										&litMatcher{
+																											pos:        position{line: 2869, col: 29, offset: 90639},
+																											val:        "\r",
+																											ignoreCase: false,
+																											want:       "\"\\r\"",
+																										},
 																									},
 																								},
 																							},
-																						},
-																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
-																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																							&notExpr{
+																								pos: position{line: 2879, col: 8, offset: 90799},
+																								expr: &anyMatcher{
+																									line: 2879, col: 9, offset: 90800,
+																								},
 																							},
 																						},
 																					},
@@ -17205,145 +17323,162 @@ var g = &grammar{
 																			},
 																		},
 																	},
+																	&andCodeExpr{
+																		pos: position{line: 821, col: 5, offset: 26363},
+																		run: (*parser).callonDocumentHeader351,
+																	},
 																	&labeledExpr{
-																		pos:   position{line: 821, col: 5, offset: 26355},
+																		pos:   position{line: 824, col: 5, offset: 26455},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 831, col: 5, offset: 26641},
+																			pos: position{line: 839, col: 5, offset: 26853},
 																			expr: &actionExpr{
-																				pos: position{line: 831, col: 6, offset: 26642},
-																				run: (*parser).callonDocumentHeader334,
+																				pos: position{line: 839, col: 6, offset: 26854},
+																				run: (*parser).callonDocumentHeader354,
 																				expr: &seqExpr{
-																					pos: position{line: 831, col: 6, offset: 26642},
+																					pos: position{line: 839, col: 6, offset: 26854},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 831, col: 6, offset: 26642},
+																							pos: position{line: 839, col: 6, offset: 26854},
 																							expr: &choiceExpr{
-																								pos: position{line: 828, col: 29, offset: 26584},
+																								pos: position{line: 832, col: 5, offset: 26695},
 																								alternatives: []interface{}{
-																									&actionExpr{
-																										pos: position{line: 740, col: 5, offset: 23584},
-																										run: (*parser).callonDocumentHeader338,
-																										expr: &seqExpr{
-																											pos: position{line: 740, col: 5, offset: 23584},
-																											exprs: []interface{}{
-																												&labeledExpr{
-																													pos:   position{line: 740, col: 5, offset: 23584},
-																													label: "delimiter",
-																													expr: &actionExpr{
-																														pos: position{line: 740, col: 16, offset: 23595},
-																														run: (*parser).callonDocumentHeader341,
-																														expr: &seqExpr{
-																															pos: position{line: 740, col: 16, offset: 23595},
-																															exprs: []interface{}{
-																																&litMatcher{
-																																	pos:        position{line: 740, col: 16, offset: 23595},
-																																	val:        "////",
-																																	ignoreCase: false,
-																																	want:       "\"////\"",
+																									&seqExpr{
+																										pos: position{line: 832, col: 5, offset: 26695},
+																										exprs: []interface{}{
+																											&labeledExpr{
+																												pos:   position{line: 832, col: 5, offset: 26695},
+																												label: "end",
+																												expr: &actionExpr{
+																													pos: position{line: 740, col: 5, offset: 23584},
+																													run: (*parser).callonDocumentHeader360,
+																													expr: &seqExpr{
+																														pos: position{line: 740, col: 5, offset: 23584},
+																														exprs: []interface{}{
+																															&labeledExpr{
+																																pos:   position{line: 740, col: 5, offset: 23584},
+																																label: "delimiter",
+																																expr: &actionExpr{
+																																	pos: position{line: 740, col: 16, offset: 23595},
+																																	run: (*parser).callonDocumentHeader363,
+																																	expr: &seqExpr{
+																																		pos: position{line: 740, col: 16, offset: 23595},
+																																		exprs: []interface{}{
+																																			&litMatcher{
+																																				pos:        position{line: 740, col: 16, offset: 23595},
+																																				val:        "////",
+																																				ignoreCase: false,
+																																				want:       "\"////\"",
+																																			},
+																																			&zeroOrMoreExpr{
+																																				pos: position{line: 740, col: 23, offset: 23602},
+																																				expr: &litMatcher{
+																																					pos:        position{line: 740, col: 23, offset: 23602},
+																																					val:        "/",
+																																					ignoreCase: false,
+																																					want:       "\"/\"",
+																																				},
+																																			},
+																																		},
+																																	},
 																																},
-																																&zeroOrMoreExpr{
-																																	pos: position{line: 740, col: 23, offset: 23602},
-																																	expr: &litMatcher{
-																																		pos:        position{line: 740, col: 23, offset: 23602},
-																																		val:        "/",
+																															},
+																															&zeroOrMoreExpr{
+																																pos: position{line: 742, col: 8, offset: 23686},
+																																expr: &actionExpr{
+																																	pos: position{line: 2860, col: 10, offset: 90451},
+																																	run: (*parser).callonDocumentHeader369,
+																																	expr: &charClassMatcher{
+																																		pos:        position{line: 2860, col: 10, offset: 90451},
+																																		val:        "[\\t ]",
+																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
-																																		want:       "\"/\"",
+																																		inverted:   false,
 																																	},
 																																},
 																															},
-																														},
-																													},
-																												},
-																												&zeroOrMoreExpr{
-																													pos: position{line: 742, col: 8, offset: 23686},
-																													expr: &actionExpr{
-																														pos: position{line: 2852, col: 10, offset: 90239},
-																														run: (*parser).callonDocumentHeader347,
-																														expr: &charClassMatcher{
-																															pos:        position{line: 2852, col: 10, offset: 90239},
-																															val:        "[\\t ]",
-																															chars:      []rune{'\t', ' '},
-																															ignoreCase: false,
-																															inverted:   false,
-																														},
-																													},
-																												},
-																												&choiceExpr{
-																													pos: position{line: 2874, col: 8, offset: 90637},
-																													alternatives: []interface{}{
-																														&actionExpr{
-																															pos: position{line: 2861, col: 12, offset: 90410},
-																															run: (*parser).callonDocumentHeader350,
-																															expr: &choiceExpr{
-																																pos: position{line: 2861, col: 13, offset: 90411},
+																															&choiceExpr{
+																																pos: position{line: 2882, col: 8, offset: 90849},
 																																alternatives: []interface{}{
-																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 13, offset: 90411},
-																																		val:        "\n",
-																																		ignoreCase: false,
-																																		want:       "\"\\n\"",
-																																	},
-																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 20, offset: 90418},
-																																		val:        "\r\n",
-																																		ignoreCase: false,
-																																		want:       "\"\\r\\n\"",
+																																	&actionExpr{
+																																		pos: position{line: 2869, col: 12, offset: 90622},
+																																		run: (*parser).callonDocumentHeader372,
+																																		expr: &choiceExpr{
+																																			pos: position{line: 2869, col: 13, offset: 90623},
+																																			alternatives: []interface{}{
+																																				&litMatcher{
+																																					pos:        position{line: 2869, col: 13, offset: 90623},
+																																					val:        "\n",
+																																					ignoreCase: false,
+																																					want:       "\"\\n\"",
+																																				},
+																																				&litMatcher{
+																																					pos:        position{line: 2869, col: 20, offset: 90630},
+																																					val:        "\r\n",
+																																					ignoreCase: false,
+																																					want:       "\"\\r\\n\"",
+																																				},
+																																				&litMatcher{
+																																					pos:        position{line: 2869, col: 29, offset: 90639},
+																																					val:        "\r",
+																																					ignoreCase: false,
+																																					want:       "\"\\r\"",
+																																				},
+																																			},
+																																		},
 																																	},
-																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 29, offset: 90427},
-																																		val:        "\r",
-																																		ignoreCase: false,
-																																		want:       "\"\\r\"",
+																																	&notExpr{
+																																		pos: position{line: 2879, col: 8, offset: 90799},
+																																		expr: &anyMatcher{
+																																			line: 2879, col: 9, offset: 90800,
+																																		},
 																																	},
 																																},
 																															},
 																														},
-																														&notExpr{
-																															pos: position{line: 2871, col: 8, offset: 90587},
-																															expr: &anyMatcher{
-																																line: 2871, col: 9, offset: 90588,
-																															},
-																														},
 																													},
 																												},
 																											},
+																											&andCodeExpr{
+																												pos: position{line: 833, col: 5, offset: 26726},
+																												run: (*parser).callonDocumentHeader379,
+																											},
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2879, col: 8, offset: 90799},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2879, col: 9, offset: 90800,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26672},
+																							pos:   position{line: 840, col: 5, offset: 26884},
 																							label: "line",
 																							expr: &actionExpr{
 																								pos: position{line: 811, col: 5, offset: 26088},
-																								run: (*parser).callonDocumentHeader360,
+																								run: (*parser).callonDocumentHeader383,
 																								expr: &seqExpr{
 																									pos: position{line: 811, col: 5, offset: 26088},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2869, col: 11, offset: 90573},
+																											pos: position{line: 2877, col: 11, offset: 90785},
 																											expr: &anyMatcher{
-																												line: 2869, col: 13, offset: 90575,
+																												line: 2877, col: 13, offset: 90787,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 812, col: 5, offset: 26163},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2798, col: 13, offset: 88765},
-																												run: (*parser).callonDocumentHeader365,
+																												pos: position{line: 2806, col: 13, offset: 88977},
+																												run: (*parser).callonDocumentHeader388,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2798, col: 13, offset: 88765},
+																													pos: position{line: 2806, col: 13, offset: 88977},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2798, col: 13, offset: 88765},
+																														pos:        position{line: 2806, col: 13, offset: 88977},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17353,28 +17488,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2882, col: 8, offset: 90849},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonDocumentHeader369,
+																													pos: position{line: 2869, col: 12, offset: 90622},
+																													run: (*parser).callonDocumentHeader392,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2869, col: 13, offset: 90623},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2869, col: 13, offset: 90623},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2869, col: 20, offset: 90630},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2869, col: 29, offset: 90639},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17383,9 +17518,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2879, col: 8, offset: 90799},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2879, col: 9, offset: 90800,
 																													},
 																												},
 																											},
@@ -17399,104 +17534,121 @@ var g = &grammar{
 																			},
 																		},
 																	},
-																	&zeroOrOneExpr{
-																		pos: position{line: 822, col: 5, offset: 26389},
-																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26584},
-																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
-																					run: (*parser).callonDocumentHeader378,
-																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
+																	&labeledExpr{
+																		pos:   position{line: 825, col: 5, offset: 26489},
+																		label: "end",
+																		expr: &zeroOrOneExpr{
+																			pos: position{line: 825, col: 9, offset: 26493},
+																			expr: &choiceExpr{
+																				pos: position{line: 832, col: 5, offset: 26695},
+																				alternatives: []interface{}{
+																					&seqExpr{
+																						pos: position{line: 832, col: 5, offset: 26695},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23584},
-																								label: "delimiter",
+																								pos:   position{line: 832, col: 5, offset: 26695},
+																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
-																									run: (*parser).callonDocumentHeader381,
+																									pos: position{line: 740, col: 5, offset: 23584},
+																									run: (*parser).callonDocumentHeader404,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
+																										pos: position{line: 740, col: 5, offset: 23584},
 																										exprs: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23595},
-																												val:        "////",
-																												ignoreCase: false,
-																												want:       "\"////\"",
+																											&labeledExpr{
+																												pos:   position{line: 740, col: 5, offset: 23584},
+																												label: "delimiter",
+																												expr: &actionExpr{
+																													pos: position{line: 740, col: 16, offset: 23595},
+																													run: (*parser).callonDocumentHeader407,
+																													expr: &seqExpr{
+																														pos: position{line: 740, col: 16, offset: 23595},
+																														exprs: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 740, col: 16, offset: 23595},
+																																val:        "////",
+																																ignoreCase: false,
+																																want:       "\"////\"",
+																															},
+																															&zeroOrMoreExpr{
+																																pos: position{line: 740, col: 23, offset: 23602},
+																																expr: &litMatcher{
+																																	pos:        position{line: 740, col: 23, offset: 23602},
+																																	val:        "/",
+																																	ignoreCase: false,
+																																	want:       "\"/\"",
+																																},
+																															},
+																														},
+																													},
+																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23602},
-																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23602},
-																													val:        "/",
-																													ignoreCase: false,
-																													want:       "\"/\"",
+																												pos: position{line: 742, col: 8, offset: 23686},
+																												expr: &actionExpr{
+																													pos: position{line: 2860, col: 10, offset: 90451},
+																													run: (*parser).callonDocumentHeader413,
+																													expr: &charClassMatcher{
+																														pos:        position{line: 2860, col: 10, offset: 90451},
+																														val:        "[\\t ]",
+																														chars:      []rune{'\t', ' '},
+																														ignoreCase: false,
+																														inverted:   false,
+																													},
 																												},
 																											},
-																										},
-																									},
-																								},
-																							},
-																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23686},
-																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonDocumentHeader387,
-																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
-																										val:        "[\\t ]",
-																										chars:      []rune{'\t', ' '},
-																										ignoreCase: false,
-																										inverted:   false,
-																									},
-																								},
-																							},
-																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
-																								alternatives: []interface{}{
-																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonDocumentHeader390,
-																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
-																											alternatives: []interface{}{
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
-																													val:        "\n",
-																													ignoreCase: false,
-																													want:       "\"\\n\"",
-																												},
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
-																													val:        "\r\n",
-																													ignoreCase: false,
-																													want:       "\"\\r\\n\"",
-																												},
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
-																													val:        "\r",
-																													ignoreCase: false,
-																													want:       "\"\\r\"",
+																											&choiceExpr{
+																												pos: position{line: 2882, col: 8, offset: 90849},
+																												alternatives: []interface{}{
+																													&actionExpr{
+																														pos: position{line: 2869, col: 12, offset: 90622},
+																														run: (*parser).callonDocumentHeader416,
+																														expr: &choiceExpr{
+																															pos: position{line: 2869, col: 13, offset: 90623},
+																															alternatives: []interface{}{
+																																&litMatcher{
+																																	pos:        position{line: 2869, col: 13, offset: 90623},
+																																	val:        "\n",
+																																	ignoreCase: false,
+																																	want:       "\"\\n\"",
+																																},
+																																&litMatcher{
+																																	pos:        position{line: 2869, col: 20, offset: 90630},
+																																	val:        "\r\n",
+																																	ignoreCase: false,
+																																	want:       "\"\\r\\n\"",
+																																},
+																																&litMatcher{
+																																	pos:        position{line: 2869, col: 29, offset: 90639},
+																																	val:        "\r",
+																																	ignoreCase: false,
+																																	want:       "\"\\r\"",
+																																},
+																															},
+																														},
+																													},
+																													&notExpr{
+																														pos: position{line: 2879, col: 8, offset: 90799},
+																														expr: &anyMatcher{
+																															line: 2879, col: 9, offset: 90800,
+																														},
+																													},
 																												},
 																											},
 																										},
 																									},
-																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
-																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
-																										},
-																									},
 																								},
 																							},
+																							&andCodeExpr{
+																								pos: position{line: 833, col: 5, offset: 26726},
+																								run: (*parser).callonDocumentHeader423,
+																							},
 																						},
 																					},
-																				},
-																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
-																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																					&notExpr{
+																						pos: position{line: 2879, col: 8, offset: 90799},
+																						expr: &anyMatcher{
+																							line: 2879, col: 9, offset: 90800,
+																						},
 																					},
 																				},
 																			},
@@ -17509,23 +17661,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1121, col: 5, offset: 34535},
+												pos:   position{line: 1129, col: 5, offset: 34747},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1121, col: 14, offset: 34544},
+													pos: position{line: 1129, col: 14, offset: 34756},
 													expr: &actionExpr{
-														pos: position{line: 1169, col: 21, offset: 35887},
-														run: (*parser).callonDocumentHeader401,
+														pos: position{line: 1177, col: 21, offset: 36099},
+														run: (*parser).callonDocumentHeader428,
 														expr: &seqExpr{
-															pos: position{line: 1169, col: 21, offset: 35887},
+															pos: position{line: 1177, col: 21, offset: 36099},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1169, col: 21, offset: 35887},
+																	pos: position{line: 1177, col: 21, offset: 36099},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonDocumentHeader404,
+																		pos: position{line: 2860, col: 10, offset: 90451},
+																		run: (*parser).callonDocumentHeader431,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2860, col: 10, offset: 90451},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17534,55 +17686,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1169, col: 28, offset: 35894},
+																	pos: position{line: 1177, col: 28, offset: 36106},
 																	expr: &litMatcher{
-																		pos:        position{line: 1169, col: 29, offset: 35895},
+																		pos:        position{line: 1177, col: 29, offset: 36107},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1169, col: 33, offset: 35899},
+																	pos:   position{line: 1177, col: 33, offset: 36111},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1170, col: 9, offset: 35918},
+																		pos: position{line: 1178, col: 9, offset: 36130},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1170, col: 10, offset: 35919},
-																				run: (*parser).callonDocumentHeader410,
+																				pos: position{line: 1178, col: 10, offset: 36131},
+																				run: (*parser).callonDocumentHeader437,
 																				expr: &seqExpr{
-																					pos: position{line: 1170, col: 10, offset: 35919},
+																					pos: position{line: 1178, col: 10, offset: 36131},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 10, offset: 35919},
+																							pos:   position{line: 1178, col: 10, offset: 36131},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1179, col: 27, offset: 36436},
+																								pos: position{line: 1187, col: 27, offset: 36648},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1179, col: 27, offset: 36436},
-																										run: (*parser).callonDocumentHeader414,
+																										pos: position{line: 1187, col: 27, offset: 36648},
+																										run: (*parser).callonDocumentHeader441,
 																										expr: &seqExpr{
-																											pos: position{line: 1179, col: 27, offset: 36436},
+																											pos: position{line: 1187, col: 27, offset: 36648},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1179, col: 27, offset: 36436},
+																													pos:        position{line: 1187, col: 27, offset: 36648},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1179, col: 32, offset: 36441},
+																													pos:        position{line: 1187, col: 32, offset: 36653},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1179, col: 38, offset: 36447},
+																													pos: position{line: 1187, col: 38, offset: 36659},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1179, col: 38, offset: 36447},
+																														pos:        position{line: 1187, col: 38, offset: 36659},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17593,31 +17745,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1181, col: 5, offset: 36495},
-																										run: (*parser).callonDocumentHeader420,
+																										pos: position{line: 1189, col: 5, offset: 36707},
+																										run: (*parser).callonDocumentHeader447,
 																										expr: &seqExpr{
-																											pos: position{line: 1181, col: 5, offset: 36495},
+																											pos: position{line: 1189, col: 5, offset: 36707},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1181, col: 5, offset: 36495},
+																													pos: position{line: 1189, col: 5, offset: 36707},
 																													expr: &litMatcher{
-																														pos:        position{line: 1181, col: 5, offset: 36495},
+																														pos:        position{line: 1189, col: 5, offset: 36707},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1181, col: 11, offset: 36501},
+																													pos:        position{line: 1189, col: 11, offset: 36713},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1181, col: 17, offset: 36507},
+																													pos: position{line: 1189, col: 17, offset: 36719},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1181, col: 17, offset: 36507},
+																														pos:        position{line: 1189, col: 17, offset: 36719},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17625,12 +17777,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1181, col: 28, offset: 36518},
+																													pos: position{line: 1189, col: 28, offset: 36730},
 																													expr: &actionExpr{
-																														pos: position{line: 2852, col: 10, offset: 90239},
-																														run: (*parser).callonDocumentHeader428,
+																														pos: position{line: 2860, col: 10, offset: 90451},
+																														run: (*parser).callonDocumentHeader455,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2852, col: 10, offset: 90239},
+																															pos:        position{line: 2860, col: 10, offset: 90451},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17639,9 +17791,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1181, col: 35, offset: 36525},
+																													pos: position{line: 1189, col: 35, offset: 36737},
 																													expr: &litMatcher{
-																														pos:        position{line: 1181, col: 36, offset: 36526},
+																														pos:        position{line: 1189, col: 36, offset: 36738},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -17654,26 +17806,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1170, col: 45, offset: 35954},
+																							pos: position{line: 1178, col: 45, offset: 36166},
 																							expr: &litMatcher{
-																								pos:        position{line: 1170, col: 45, offset: 35954},
+																								pos:        position{line: 1178, col: 45, offset: 36166},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 50, offset: 35959},
+																							pos:   position{line: 1178, col: 50, offset: 36171},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1170, col: 58, offset: 35967},
+																								pos: position{line: 1178, col: 58, offset: 36179},
 																								expr: &actionExpr{
-																									pos: position{line: 1185, col: 25, offset: 36590},
-																									run: (*parser).callonDocumentHeader436,
+																									pos: position{line: 1193, col: 25, offset: 36802},
+																									run: (*parser).callonDocumentHeader463,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1185, col: 25, offset: 36590},
+																										pos: position{line: 1193, col: 25, offset: 36802},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1185, col: 25, offset: 36590},
+																											pos:        position{line: 1193, col: 25, offset: 36802},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -17684,26 +17836,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1170, col: 82, offset: 35991},
+																							pos: position{line: 1178, col: 82, offset: 36203},
 																							expr: &litMatcher{
-																								pos:        position{line: 1170, col: 82, offset: 35991},
+																								pos:        position{line: 1178, col: 82, offset: 36203},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1170, col: 87, offset: 35996},
+																							pos:   position{line: 1178, col: 87, offset: 36208},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1170, col: 97, offset: 36006},
+																								pos: position{line: 1178, col: 97, offset: 36218},
 																								expr: &actionExpr{
-																									pos: position{line: 1189, col: 27, offset: 36662},
-																									run: (*parser).callonDocumentHeader443,
+																									pos: position{line: 1197, col: 27, offset: 36874},
+																									run: (*parser).callonDocumentHeader470,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1189, col: 27, offset: 36662},
+																										pos: position{line: 1197, col: 27, offset: 36874},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1189, col: 27, offset: 36662},
+																											pos:        position{line: 1197, col: 27, offset: 36874},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -17717,21 +17869,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1172, col: 15, offset: 36124},
-																				run: (*parser).callonDocumentHeader446,
+																				pos: position{line: 1180, col: 15, offset: 36336},
+																				run: (*parser).callonDocumentHeader473,
 																				expr: &seqExpr{
-																					pos: position{line: 1172, col: 15, offset: 36124},
+																					pos: position{line: 1180, col: 15, offset: 36336},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1172, col: 15, offset: 36124},
+																							pos:   position{line: 1180, col: 15, offset: 36336},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1185, col: 25, offset: 36590},
-																								run: (*parser).callonDocumentHeader449,
+																								pos: position{line: 1193, col: 25, offset: 36802},
+																								run: (*parser).callonDocumentHeader476,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1185, col: 25, offset: 36590},
+																									pos: position{line: 1193, col: 25, offset: 36802},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1185, col: 25, offset: 36590},
+																										pos:        position{line: 1193, col: 25, offset: 36802},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -17741,26 +17893,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1172, col: 46, offset: 36155},
+																							pos: position{line: 1180, col: 46, offset: 36367},
 																							expr: &litMatcher{
-																								pos:        position{line: 1172, col: 46, offset: 36155},
+																								pos:        position{line: 1180, col: 46, offset: 36367},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1172, col: 51, offset: 36160},
+																							pos:   position{line: 1180, col: 51, offset: 36372},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1172, col: 61, offset: 36170},
+																								pos: position{line: 1180, col: 61, offset: 36382},
 																								expr: &actionExpr{
-																									pos: position{line: 1189, col: 27, offset: 36662},
-																									run: (*parser).callonDocumentHeader456,
+																									pos: position{line: 1197, col: 27, offset: 36874},
+																									run: (*parser).callonDocumentHeader483,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1189, col: 27, offset: 36662},
+																										pos: position{line: 1197, col: 27, offset: 36874},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1189, col: 27, offset: 36662},
+																											pos:        position{line: 1197, col: 27, offset: 36874},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -17777,28 +17929,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2882, col: 8, offset: 90849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonDocumentHeader460,
+																			pos: position{line: 2869, col: 12, offset: 90622},
+																			run: (*parser).callonDocumentHeader487,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2869, col: 13, offset: 90623},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2869, col: 13, offset: 90623},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2869, col: 20, offset: 90630},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2869, col: 29, offset: 90639},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17807,9 +17959,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2879, col: 8, offset: 90799},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2879, col: 9, offset: 90800,
 																			},
 																		},
 																	},
@@ -17825,20 +17977,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1108, col: 5, offset: 34081},
+							pos:   position{line: 1116, col: 5, offset: 34293},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1108, col: 19, offset: 34095},
+								pos: position{line: 1116, col: 19, offset: 34307},
 								expr: &choiceExpr{
-									pos: position{line: 1108, col: 20, offset: 34096},
+									pos: position{line: 1116, col: 20, offset: 34308},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1108, col: 20, offset: 34096},
+											pos:  position{line: 1116, col: 20, offset: 34308},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
 											pos: position{line: 360, col: 19, offset: 10910},
-											run: (*parser).callonDocumentHeader471,
+											run: (*parser).callonDocumentHeader498,
 											expr: &seqExpr{
 												pos: position{line: 360, col: 19, offset: 10910},
 												exprs: []interface{}{
@@ -17853,7 +18005,7 @@ var g = &grammar{
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 318, col: 18, offset: 9736},
-															run: (*parser).callonDocumentHeader475,
+															run: (*parser).callonDocumentHeader502,
 															expr: &seqExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
 																exprs: []interface{}{
@@ -17889,10 +18041,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
-															run: (*parser).callonDocumentHeader482,
+															pos: position{line: 2860, col: 10, offset: 90451},
+															run: (*parser).callonDocumentHeader509,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2860, col: 10, offset: 90451},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -17901,28 +18053,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2882, col: 8, offset: 90849},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
-																run: (*parser).callonDocumentHeader485,
+																pos: position{line: 2869, col: 12, offset: 90622},
+																run: (*parser).callonDocumentHeader512,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2869, col: 13, offset: 90623},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2869, col: 13, offset: 90623},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2869, col: 20, offset: 90630},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2869, col: 29, offset: 90639},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -17931,9 +18083,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2879, col: 8, offset: 90799},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2879, col: 9, offset: 90800,
 																},
 															},
 														},
@@ -17943,7 +18095,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 362, col: 9, offset: 11031},
-											run: (*parser).callonDocumentHeader492,
+											run: (*parser).callonDocumentHeader519,
 											expr: &seqExpr{
 												pos: position{line: 362, col: 9, offset: 11031},
 												exprs: []interface{}{
@@ -17958,7 +18110,7 @@ var g = &grammar{
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 318, col: 18, offset: 9736},
-															run: (*parser).callonDocumentHeader496,
+															run: (*parser).callonDocumentHeader523,
 															expr: &seqExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
 																exprs: []interface{}{
@@ -17994,10 +18146,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2852, col: 10, offset: 90239},
-															run: (*parser).callonDocumentHeader503,
+															pos: position{line: 2860, col: 10, offset: 90451},
+															run: (*parser).callonDocumentHeader530,
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 10, offset: 90239},
+																pos:        position{line: 2860, col: 10, offset: 90451},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18006,28 +18158,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2882, col: 8, offset: 90849},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
-																run: (*parser).callonDocumentHeader506,
+																pos: position{line: 2869, col: 12, offset: 90622},
+																run: (*parser).callonDocumentHeader533,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2869, col: 13, offset: 90623},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2869, col: 13, offset: 90623},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2869, col: 20, offset: 90630},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2869, col: 29, offset: 90639},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18036,9 +18188,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2879, col: 8, offset: 90799},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2879, col: 9, offset: 90800,
 																},
 															},
 														},
@@ -18047,36 +18199,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
-											run: (*parser).callonDocumentHeader513,
+											pos: position{line: 2470, col: 22, offset: 79436},
+											run: (*parser).callonDocumentHeader540,
 											expr: &seqExpr{
-												pos: position{line: 2462, col: 22, offset: 79224},
+												pos: position{line: 2470, col: 22, offset: 79436},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2467, col: 31, offset: 79445},
+														pos:        position{line: 2475, col: 31, offset: 79657},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2467, col: 36, offset: 79450},
+														pos: position{line: 2475, col: 36, offset: 79662},
 														expr: &litMatcher{
-															pos:        position{line: 2467, col: 37, offset: 79451},
+															pos:        position{line: 2475, col: 37, offset: 79663},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2462, col: 49, offset: 79251},
+														pos:   position{line: 2470, col: 49, offset: 79463},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
-															run: (*parser).callonDocumentHeader519,
+															pos: position{line: 2806, col: 13, offset: 88977},
+															run: (*parser).callonDocumentHeader546,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2798, col: 13, offset: 88765},
+																pos: position{line: 2806, col: 13, offset: 88977},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2798, col: 13, offset: 88765},
+																	pos:        position{line: 2806, col: 13, offset: 88977},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18086,28 +18238,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2882, col: 8, offset: 90849},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
-																run: (*parser).callonDocumentHeader523,
+																pos: position{line: 2869, col: 12, offset: 90622},
+																run: (*parser).callonDocumentHeader550,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2869, col: 13, offset: 90623},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2869, col: 13, offset: 90623},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2869, col: 20, offset: 90630},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2869, col: 29, offset: 90639},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18116,9 +18268,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2879, col: 8, offset: 90799},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2879, col: 9, offset: 90800,
 																},
 															},
 														},
@@ -18128,92 +18280,96 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 820, col: 5, offset: 26324},
-											run: (*parser).callonDocumentHeader530,
+											run: (*parser).callonDocumentHeader557,
 											expr: &seqExpr{
 												pos: position{line: 820, col: 5, offset: 26324},
 												exprs: []interface{}{
-													&actionExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
-														run: (*parser).callonDocumentHeader532,
-														expr: &seqExpr{
+													&labeledExpr{
+														pos:   position{line: 820, col: 5, offset: 26324},
+														label: "start",
+														expr: &actionExpr{
 															pos: position{line: 740, col: 5, offset: 23584},
-															exprs: []interface{}{
-																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23584},
-																	label: "delimiter",
-																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
-																		run: (*parser).callonDocumentHeader535,
-																		expr: &seqExpr{
+															run: (*parser).callonDocumentHeader560,
+															expr: &seqExpr{
+																pos: position{line: 740, col: 5, offset: 23584},
+																exprs: []interface{}{
+																	&labeledExpr{
+																		pos:   position{line: 740, col: 5, offset: 23584},
+																		label: "delimiter",
+																		expr: &actionExpr{
 																			pos: position{line: 740, col: 16, offset: 23595},
-																			exprs: []interface{}{
-																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23595},
-																					val:        "////",
-																					ignoreCase: false,
-																					want:       "\"////\"",
-																				},
-																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23602},
-																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23602},
-																						val:        "/",
+																			run: (*parser).callonDocumentHeader563,
+																			expr: &seqExpr{
+																				pos: position{line: 740, col: 16, offset: 23595},
+																				exprs: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 740, col: 16, offset: 23595},
+																						val:        "////",
 																						ignoreCase: false,
-																						want:       "\"/\"",
+																						want:       "\"////\"",
+																					},
+																					&zeroOrMoreExpr{
+																						pos: position{line: 740, col: 23, offset: 23602},
+																						expr: &litMatcher{
+																							pos:        position{line: 740, col: 23, offset: 23602},
+																							val:        "/",
+																							ignoreCase: false,
+																							want:       "\"/\"",
+																						},
 																					},
 																				},
 																			},
 																		},
 																	},
-																},
-																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23686},
-																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonDocumentHeader541,
-																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
-																			val:        "[\\t ]",
-																			chars:      []rune{'\t', ' '},
-																			ignoreCase: false,
-																			inverted:   false,
+																	&zeroOrMoreExpr{
+																		pos: position{line: 742, col: 8, offset: 23686},
+																		expr: &actionExpr{
+																			pos: position{line: 2860, col: 10, offset: 90451},
+																			run: (*parser).callonDocumentHeader569,
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2860, col: 10, offset: 90451},
+																				val:        "[\\t ]",
+																				chars:      []rune{'\t', ' '},
+																				ignoreCase: false,
+																				inverted:   false,
+																			},
 																		},
 																	},
-																},
-																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
-																	alternatives: []interface{}{
-																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonDocumentHeader544,
-																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
-																				alternatives: []interface{}{
-																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
-																						val:        "\n",
-																						ignoreCase: false,
-																						want:       "\"\\n\"",
-																					},
-																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
-																						val:        "\r\n",
-																						ignoreCase: false,
-																						want:       "\"\\r\\n\"",
-																					},
-																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
-																						val:        "\r",
-																						ignoreCase: false,
-																						want:       "\"\\r\"",
+																	&choiceExpr{
+																		pos: position{line: 2882, col: 8, offset: 90849},
+																		alternatives: []interface{}{
+																			&actionExpr{
+																				pos: position{line: 2869, col: 12, offset: 90622},
+																				run: (*parser).callonDocumentHeader572,
+																				expr: &choiceExpr{
+																					pos: position{line: 2869, col: 13, offset: 90623},
+																					alternatives: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							val:        "\n",
+																							ignoreCase: false,
+																							want:       "\"\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							val:        "\r\n",
+																							ignoreCase: false,
+																							want:       "\"\\r\\n\"",
+																						},
+																						&litMatcher{
+																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							val:        "\r",
+																							ignoreCase: false,
+																							want:       "\"\\r\"",
+																						},
 																					},
 																				},
 																			},
-																		},
-																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
-																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																			&notExpr{
+																				pos: position{line: 2879, col: 8, offset: 90799},
+																				expr: &anyMatcher{
+																					line: 2879, col: 9, offset: 90800,
+																				},
 																			},
 																		},
 																	},
@@ -18221,145 +18377,162 @@ var g = &grammar{
 															},
 														},
 													},
+													&andCodeExpr{
+														pos: position{line: 821, col: 5, offset: 26363},
+														run: (*parser).callonDocumentHeader579,
+													},
 													&labeledExpr{
-														pos:   position{line: 821, col: 5, offset: 26355},
+														pos:   position{line: 824, col: 5, offset: 26455},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 831, col: 5, offset: 26641},
+															pos: position{line: 839, col: 5, offset: 26853},
 															expr: &actionExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
-																run: (*parser).callonDocumentHeader553,
+																pos: position{line: 839, col: 6, offset: 26854},
+																run: (*parser).callonDocumentHeader582,
 																expr: &seqExpr{
-																	pos: position{line: 831, col: 6, offset: 26642},
+																	pos: position{line: 839, col: 6, offset: 26854},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 831, col: 6, offset: 26642},
+																			pos: position{line: 839, col: 6, offset: 26854},
 																			expr: &choiceExpr{
-																				pos: position{line: 828, col: 29, offset: 26584},
+																				pos: position{line: 832, col: 5, offset: 26695},
 																				alternatives: []interface{}{
-																					&actionExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
-																						run: (*parser).callonDocumentHeader557,
-																						expr: &seqExpr{
-																							pos: position{line: 740, col: 5, offset: 23584},
-																							exprs: []interface{}{
-																								&labeledExpr{
-																									pos:   position{line: 740, col: 5, offset: 23584},
-																									label: "delimiter",
-																									expr: &actionExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
-																										run: (*parser).callonDocumentHeader560,
-																										expr: &seqExpr{
-																											pos: position{line: 740, col: 16, offset: 23595},
-																											exprs: []interface{}{
-																												&litMatcher{
-																													pos:        position{line: 740, col: 16, offset: 23595},
-																													val:        "////",
-																													ignoreCase: false,
-																													want:       "\"////\"",
+																					&seqExpr{
+																						pos: position{line: 832, col: 5, offset: 26695},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 832, col: 5, offset: 26695},
+																								label: "end",
+																								expr: &actionExpr{
+																									pos: position{line: 740, col: 5, offset: 23584},
+																									run: (*parser).callonDocumentHeader588,
+																									expr: &seqExpr{
+																										pos: position{line: 740, col: 5, offset: 23584},
+																										exprs: []interface{}{
+																											&labeledExpr{
+																												pos:   position{line: 740, col: 5, offset: 23584},
+																												label: "delimiter",
+																												expr: &actionExpr{
+																													pos: position{line: 740, col: 16, offset: 23595},
+																													run: (*parser).callonDocumentHeader591,
+																													expr: &seqExpr{
+																														pos: position{line: 740, col: 16, offset: 23595},
+																														exprs: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 740, col: 16, offset: 23595},
+																																val:        "////",
+																																ignoreCase: false,
+																																want:       "\"////\"",
+																															},
+																															&zeroOrMoreExpr{
+																																pos: position{line: 740, col: 23, offset: 23602},
+																																expr: &litMatcher{
+																																	pos:        position{line: 740, col: 23, offset: 23602},
+																																	val:        "/",
+																																	ignoreCase: false,
+																																	want:       "\"/\"",
+																																},
+																															},
+																														},
+																													},
 																												},
-																												&zeroOrMoreExpr{
-																													pos: position{line: 740, col: 23, offset: 23602},
-																													expr: &litMatcher{
-																														pos:        position{line: 740, col: 23, offset: 23602},
-																														val:        "/",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 742, col: 8, offset: 23686},
+																												expr: &actionExpr{
+																													pos: position{line: 2860, col: 10, offset: 90451},
+																													run: (*parser).callonDocumentHeader597,
+																													expr: &charClassMatcher{
+																														pos:        position{line: 2860, col: 10, offset: 90451},
+																														val:        "[\\t ]",
+																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
-																														want:       "\"/\"",
+																														inverted:   false,
 																													},
 																												},
 																											},
-																										},
-																									},
-																								},
-																								&zeroOrMoreExpr{
-																									pos: position{line: 742, col: 8, offset: 23686},
-																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
-																										run: (*parser).callonDocumentHeader566,
-																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
-																											val:        "[\\t ]",
-																											chars:      []rune{'\t', ' '},
-																											ignoreCase: false,
-																											inverted:   false,
-																										},
-																									},
-																								},
-																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
-																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
-																											run: (*parser).callonDocumentHeader569,
-																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																											&choiceExpr{
+																												pos: position{line: 2882, col: 8, offset: 90849},
 																												alternatives: []interface{}{
-																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
-																														val:        "\n",
-																														ignoreCase: false,
-																														want:       "\"\\n\"",
-																													},
-																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
-																														val:        "\r\n",
-																														ignoreCase: false,
-																														want:       "\"\\r\\n\"",
+																													&actionExpr{
+																														pos: position{line: 2869, col: 12, offset: 90622},
+																														run: (*parser).callonDocumentHeader600,
+																														expr: &choiceExpr{
+																															pos: position{line: 2869, col: 13, offset: 90623},
+																															alternatives: []interface{}{
+																																&litMatcher{
+																																	pos:        position{line: 2869, col: 13, offset: 90623},
+																																	val:        "\n",
+																																	ignoreCase: false,
+																																	want:       "\"\\n\"",
+																																},
+																																&litMatcher{
+																																	pos:        position{line: 2869, col: 20, offset: 90630},
+																																	val:        "\r\n",
+																																	ignoreCase: false,
+																																	want:       "\"\\r\\n\"",
+																																},
+																																&litMatcher{
+																																	pos:        position{line: 2869, col: 29, offset: 90639},
+																																	val:        "\r",
+																																	ignoreCase: false,
+																																	want:       "\"\\r\"",
+																																},
+																															},
+																														},
 																													},
-																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
-																														val:        "\r",
-																														ignoreCase: false,
-																														want:       "\"\\r\"",
+																													&notExpr{
+																														pos: position{line: 2879, col: 8, offset: 90799},
+																														expr: &anyMatcher{
+																															line: 2879, col: 9, offset: 90800,
+																														},
 																													},
 																												},
 																											},
 																										},
-																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
-																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
-																											},
-																										},
 																									},
 																								},
 																							},
+																							&andCodeExpr{
+																								pos: position{line: 833, col: 5, offset: 26726},
+																								run: (*parser).callonDocumentHeader607,
+																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2879, col: 8, offset: 90799},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2879, col: 9, offset: 90800,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26672},
+																			pos:   position{line: 840, col: 5, offset: 26884},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentHeader579,
+																				run: (*parser).callonDocumentHeader611,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2877, col: 11, offset: 90785},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2877, col: 13, offset: 90787,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
-																								run: (*parser).callonDocumentHeader584,
+																								pos: position{line: 2806, col: 13, offset: 88977},
+																								run: (*parser).callonDocumentHeader616,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2798, col: 13, offset: 88765},
+																									pos: position{line: 2806, col: 13, offset: 88977},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2798, col: 13, offset: 88765},
+																										pos:        position{line: 2806, col: 13, offset: 88977},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18369,28 +18542,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonDocumentHeader588,
+																									pos: position{line: 2869, col: 12, offset: 90622},
+																									run: (*parser).callonDocumentHeader620,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18399,9 +18572,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -18415,104 +18588,121 @@ var g = &grammar{
 															},
 														},
 													},
-													&zeroOrOneExpr{
-														pos: position{line: 822, col: 5, offset: 26389},
-														expr: &choiceExpr{
-															pos: position{line: 828, col: 29, offset: 26584},
-															alternatives: []interface{}{
-																&actionExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
-																	run: (*parser).callonDocumentHeader597,
-																	expr: &seqExpr{
-																		pos: position{line: 740, col: 5, offset: 23584},
+													&labeledExpr{
+														pos:   position{line: 825, col: 5, offset: 26489},
+														label: "end",
+														expr: &zeroOrOneExpr{
+															pos: position{line: 825, col: 9, offset: 26493},
+															expr: &choiceExpr{
+																pos: position{line: 832, col: 5, offset: 26695},
+																alternatives: []interface{}{
+																	&seqExpr{
+																		pos: position{line: 832, col: 5, offset: 26695},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 740, col: 5, offset: 23584},
-																				label: "delimiter",
+																				pos:   position{line: 832, col: 5, offset: 26695},
+																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
-																					run: (*parser).callonDocumentHeader600,
+																					pos: position{line: 740, col: 5, offset: 23584},
+																					run: (*parser).callonDocumentHeader632,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 16, offset: 23595},
+																						pos: position{line: 740, col: 5, offset: 23584},
 																						exprs: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 740, col: 16, offset: 23595},
-																								val:        "////",
-																								ignoreCase: false,
-																								want:       "\"////\"",
+																							&labeledExpr{
+																								pos:   position{line: 740, col: 5, offset: 23584},
+																								label: "delimiter",
+																								expr: &actionExpr{
+																									pos: position{line: 740, col: 16, offset: 23595},
+																									run: (*parser).callonDocumentHeader635,
+																									expr: &seqExpr{
+																										pos: position{line: 740, col: 16, offset: 23595},
+																										exprs: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 740, col: 16, offset: 23595},
+																												val:        "////",
+																												ignoreCase: false,
+																												want:       "\"////\"",
+																											},
+																											&zeroOrMoreExpr{
+																												pos: position{line: 740, col: 23, offset: 23602},
+																												expr: &litMatcher{
+																													pos:        position{line: 740, col: 23, offset: 23602},
+																													val:        "/",
+																													ignoreCase: false,
+																													want:       "\"/\"",
+																												},
+																											},
+																										},
+																									},
+																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 740, col: 23, offset: 23602},
-																								expr: &litMatcher{
-																									pos:        position{line: 740, col: 23, offset: 23602},
-																									val:        "/",
-																									ignoreCase: false,
-																									want:       "\"/\"",
+																								pos: position{line: 742, col: 8, offset: 23686},
+																								expr: &actionExpr{
+																									pos: position{line: 2860, col: 10, offset: 90451},
+																									run: (*parser).callonDocumentHeader641,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2860, col: 10, offset: 90451},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
 																								},
 																							},
-																						},
-																					},
-																				},
-																			},
-																			&zeroOrMoreExpr{
-																				pos: position{line: 742, col: 8, offset: 23686},
-																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
-																					run: (*parser).callonDocumentHeader606,
-																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
-																						val:        "[\\t ]",
-																						chars:      []rune{'\t', ' '},
-																						ignoreCase: false,
-																						inverted:   false,
-																					},
-																				},
-																			},
-																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
-																				alternatives: []interface{}{
-																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
-																						run: (*parser).callonDocumentHeader609,
-																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
-																							alternatives: []interface{}{
-																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
-																									val:        "\n",
-																									ignoreCase: false,
-																									want:       "\"\\n\"",
-																								},
-																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
-																									val:        "\r\n",
-																									ignoreCase: false,
-																									want:       "\"\\r\\n\"",
-																								},
-																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
-																									val:        "\r",
-																									ignoreCase: false,
-																									want:       "\"\\r\"",
+																							&choiceExpr{
+																								pos: position{line: 2882, col: 8, offset: 90849},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2869, col: 12, offset: 90622},
+																										run: (*parser).callonDocumentHeader644,
+																										expr: &choiceExpr{
+																											pos: position{line: 2869, col: 13, offset: 90623},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2869, col: 13, offset: 90623},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2869, col: 20, offset: 90630},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2869, col: 29, offset: 90639},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
+																												},
+																											},
+																										},
+																									},
+																									&notExpr{
+																										pos: position{line: 2879, col: 8, offset: 90799},
+																										expr: &anyMatcher{
+																											line: 2879, col: 9, offset: 90800,
+																										},
+																									},
 																								},
 																							},
 																						},
 																					},
-																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
-																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
-																						},
-																					},
 																				},
 																			},
+																			&andCodeExpr{
+																				pos: position{line: 833, col: 5, offset: 26726},
+																				run: (*parser).callonDocumentHeader651,
+																			},
 																		},
 																	},
-																},
-																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
-																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																	&notExpr{
+																		pos: position{line: 2879, col: 8, offset: 90799},
+																		expr: &anyMatcher{
+																			line: 2879, col: 9, offset: 90800,
+																		},
 																	},
 																},
 															},
@@ -18531,26 +18721,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1112, col: 1, offset: 34293},
+			pos:  position{line: 1120, col: 1, offset: 34505},
 			expr: &actionExpr{
-				pos: position{line: 1113, col: 5, offset: 34315},
+				pos: position{line: 1121, col: 5, offset: 34527},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1113, col: 5, offset: 34315},
+					pos: position{line: 1121, col: 5, offset: 34527},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1113, col: 5, offset: 34315},
+							pos:        position{line: 1121, col: 5, offset: 34527},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2856, col: 11, offset: 90300},
+							pos: position{line: 2864, col: 11, offset: 90512},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2856, col: 11, offset: 90300},
+								pos: position{line: 2864, col: 11, offset: 90512},
 								expr: &charClassMatcher{
-									pos:        position{line: 2856, col: 11, offset: 90300},
+									pos:        position{line: 2864, col: 11, offset: 90512},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18559,36 +18749,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1113, col: 16, offset: 34326},
+							pos:   position{line: 1121, col: 16, offset: 34538},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1113, col: 23, offset: 34333},
+								pos:  position{line: 1121, col: 23, offset: 34545},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2882, col: 8, offset: 90849},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2869, col: 12, offset: 90622},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2869, col: 13, offset: 90623},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2869, col: 13, offset: 90623},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2869, col: 20, offset: 90630},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2869, col: 29, offset: 90639},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -18597,9 +18787,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2879, col: 8, offset: 90799},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2879, col: 9, offset: 90800,
 									},
 								},
 							},
@@ -18610,23 +18800,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1140, col: 1, offset: 35173},
+			pos:  position{line: 1148, col: 1, offset: 35385},
 			expr: &actionExpr{
-				pos: position{line: 1141, col: 5, offset: 35204},
+				pos: position{line: 1149, col: 5, offset: 35416},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1141, col: 5, offset: 35204},
+					pos: position{line: 1149, col: 5, offset: 35416},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1141, col: 5, offset: 35204},
+							pos:   position{line: 1149, col: 5, offset: 35416},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1141, col: 12, offset: 35211},
+								pos: position{line: 1149, col: 12, offset: 35423},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1141, col: 12, offset: 35211},
+									pos: position{line: 1149, col: 12, offset: 35423},
 									expr: &charClassMatcher{
-										pos:        position{line: 1141, col: 12, offset: 35211},
+										pos:        position{line: 1149, col: 12, offset: 35423},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -18636,12 +18826,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1144, col: 5, offset: 35291},
+							pos: position{line: 1152, col: 5, offset: 35503},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2860, col: 10, offset: 90451},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2860, col: 10, offset: 90451},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18650,17 +18840,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1145, col: 5, offset: 35302},
+							pos:   position{line: 1153, col: 5, offset: 35514},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1145, col: 11, offset: 35308},
+								pos: position{line: 1153, col: 11, offset: 35520},
 								expr: &actionExpr{
-									pos: position{line: 1145, col: 12, offset: 35309},
+									pos: position{line: 1153, col: 12, offset: 35521},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1145, col: 12, offset: 35309},
+										pos: position{line: 1153, col: 12, offset: 35521},
 										expr: &charClassMatcher{
-											pos:        position{line: 1145, col: 12, offset: 35309},
+											pos:        position{line: 1153, col: 12, offset: 35521},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -18671,12 +18861,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1148, col: 5, offset: 35390},
+							pos: position{line: 1156, col: 5, offset: 35602},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2860, col: 10, offset: 90451},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2860, col: 10, offset: 90451},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18685,17 +18875,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1149, col: 5, offset: 35401},
+							pos:   position{line: 1157, col: 5, offset: 35613},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1149, col: 11, offset: 35407},
+								pos: position{line: 1157, col: 11, offset: 35619},
 								expr: &actionExpr{
-									pos: position{line: 1149, col: 12, offset: 35408},
+									pos: position{line: 1157, col: 12, offset: 35620},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1149, col: 12, offset: 35408},
+										pos: position{line: 1157, col: 12, offset: 35620},
 										expr: &charClassMatcher{
-											pos:        position{line: 1149, col: 12, offset: 35408},
+											pos:        position{line: 1157, col: 12, offset: 35620},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -18706,12 +18896,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1152, col: 5, offset: 35487},
+							pos: position{line: 1160, col: 5, offset: 35699},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2860, col: 10, offset: 90451},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2860, col: 10, offset: 90451},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18725,28 +18915,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1265, col: 1, offset: 39216},
+			pos:  position{line: 1273, col: 1, offset: 39428},
 			expr: &actionExpr{
-				pos: position{line: 1266, col: 5, offset: 39237},
+				pos: position{line: 1274, col: 5, offset: 39449},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1266, col: 5, offset: 39237},
+					pos: position{line: 1274, col: 5, offset: 39449},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1266, col: 5, offset: 39237},
+							pos: position{line: 1274, col: 5, offset: 39449},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1269, col: 5, offset: 39296},
+							pos:        position{line: 1277, col: 5, offset: 39508},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1269, col: 12, offset: 39303},
+							pos:   position{line: 1277, col: 12, offset: 39515},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1269, col: 24, offset: 39315},
+								pos:  position{line: 1277, col: 24, offset: 39527},
 								name: "InlineAttributes",
 							},
 						},
@@ -18756,33 +18946,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1276, col: 1, offset: 39603},
+			pos:  position{line: 1284, col: 1, offset: 39815},
 			expr: &actionExpr{
-				pos: position{line: 1277, col: 5, offset: 39622},
+				pos: position{line: 1285, col: 5, offset: 39834},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1277, col: 5, offset: 39622},
+					pos: position{line: 1285, col: 5, offset: 39834},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1277, col: 5, offset: 39622},
+							pos: position{line: 1285, col: 5, offset: 39834},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1280, col: 5, offset: 39681},
+							pos:        position{line: 1288, col: 5, offset: 39893},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1280, col: 13, offset: 39689},
+							pos:   position{line: 1288, col: 13, offset: 39901},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2837, col: 7, offset: 89891},
+								pos: position{line: 2845, col: 7, offset: 90103},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2837, col: 7, offset: 89891},
+									pos: position{line: 2845, col: 7, offset: 90103},
 									expr: &charClassMatcher{
-										pos:        position{line: 2837, col: 7, offset: 89891},
+										pos:        position{line: 2845, col: 7, offset: 90103},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -18792,10 +18982,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1280, col: 21, offset: 39697},
+							pos:   position{line: 1288, col: 21, offset: 39909},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1280, col: 33, offset: 39709},
+								pos:  position{line: 1288, col: 33, offset: 39921},
 								name: "InlineAttributes",
 							},
 						},
@@ -18805,29 +18995,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1287, col: 1, offset: 40008},
+			pos:  position{line: 1295, col: 1, offset: 40220},
 			expr: &actionExpr{
-				pos: position{line: 1287, col: 14, offset: 40021},
+				pos: position{line: 1295, col: 14, offset: 40233},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1287, col: 14, offset: 40021},
+					pos: position{line: 1295, col: 14, offset: 40233},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1287, col: 14, offset: 40021},
+							pos:        position{line: 1295, col: 14, offset: 40233},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1287, col: 19, offset: 40026},
+							pos:   position{line: 1295, col: 19, offset: 40238},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1287, col: 25, offset: 40032},
+								pos:  position{line: 1295, col: 25, offset: 40244},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1287, col: 43, offset: 40050},
+							pos:        position{line: 1295, col: 43, offset: 40262},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -18838,25 +19028,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1291, col: 1, offset: 40119},
+			pos:  position{line: 1299, col: 1, offset: 40331},
 			expr: &actionExpr{
-				pos: position{line: 1291, col: 21, offset: 40139},
+				pos: position{line: 1299, col: 21, offset: 40351},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1291, col: 21, offset: 40139},
+					pos:   position{line: 1299, col: 21, offset: 40351},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1291, col: 30, offset: 40148},
+						pos: position{line: 1299, col: 30, offset: 40360},
 						expr: &choiceExpr{
-							pos: position{line: 1291, col: 31, offset: 40149},
+							pos: position{line: 1299, col: 31, offset: 40361},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2746, col: 14, offset: 87408},
+									pos: position{line: 2754, col: 14, offset: 87620},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2746, col: 14, offset: 87408},
+										pos: position{line: 2754, col: 14, offset: 87620},
 										expr: &charClassMatcher{
-											pos:        position{line: 2746, col: 14, offset: 87408},
+											pos:        position{line: 2754, col: 14, offset: 87620},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -18865,14 +19055,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1291, col: 43, offset: 40161},
+									pos:  position{line: 1299, col: 43, offset: 40373},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2852, col: 10, offset: 90239},
+									pos: position{line: 2860, col: 10, offset: 90451},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2852, col: 10, offset: 90239},
+										pos:        position{line: 2860, col: 10, offset: 90451},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -18880,23 +19070,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2449, col: 5, offset: 78770},
+									pos: position{line: 2457, col: 5, offset: 78982},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2457, col: 5, offset: 78982},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2449, col: 5, offset: 78770},
+												pos: position{line: 2457, col: 5, offset: 78982},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2452, col: 5, offset: 78846},
+												pos:   position{line: 2460, col: 5, offset: 79058},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2453, col: 9, offset: 78864},
+													pos: position{line: 2461, col: 9, offset: 79076},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2453, col: 10, offset: 78865},
+														pos:        position{line: 2461, col: 10, offset: 79077},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -18908,27 +19098,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1198, col: 23, offset: 36972},
+									pos: position{line: 1206, col: 23, offset: 37184},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1198, col: 23, offset: 36972},
+										pos: position{line: 1206, col: 23, offset: 37184},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1196, col: 32, offset: 36940},
+												pos:        position{line: 1204, col: 32, offset: 37152},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1198, col: 51, offset: 37000},
+												pos:   position{line: 1206, col: 51, offset: 37212},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1198, col: 56, offset: 37005},
+													pos: position{line: 1206, col: 56, offset: 37217},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1198, col: 56, offset: 37005},
+														pos: position{line: 1206, col: 56, offset: 37217},
 														expr: &charClassMatcher{
-															pos:        position{line: 1198, col: 56, offset: 37005},
+															pos:        position{line: 1206, col: 56, offset: 37217},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -18938,7 +19128,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1196, col: 32, offset: 36940},
+												pos:        position{line: 1204, col: 32, offset: 37152},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
@@ -18947,22 +19137,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1291, col: 104, offset: 40222},
+									pos: position{line: 1299, col: 104, offset: 40434},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1291, col: 105, offset: 40223},
+										pos: position{line: 1299, col: 105, offset: 40435},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1291, col: 105, offset: 40223},
+												pos: position{line: 1299, col: 105, offset: 40435},
 												expr: &litMatcher{
-													pos:        position{line: 1291, col: 106, offset: 40224},
+													pos:        position{line: 1299, col: 106, offset: 40436},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1291, col: 111, offset: 40229,
+												line: 1299, col: 111, offset: 40441,
 											},
 										},
 									},
@@ -18975,65 +19165,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1311, col: 1, offset: 40938},
+			pos:  position{line: 1319, col: 1, offset: 41150},
 			expr: &actionExpr{
-				pos: position{line: 1312, col: 5, offset: 40957},
+				pos: position{line: 1320, col: 5, offset: 41169},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1312, col: 5, offset: 40957},
+					pos: position{line: 1320, col: 5, offset: 41169},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1312, col: 5, offset: 40957},
+							pos:        position{line: 1320, col: 5, offset: 41169},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1312, col: 15, offset: 40967},
+							pos:   position{line: 1320, col: 15, offset: 41179},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2810, col: 13, offset: 88998},
+								pos: position{line: 2818, col: 13, offset: 89210},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2810, col: 13, offset: 88998},
+									pos: position{line: 2818, col: 13, offset: 89210},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2810, col: 13, offset: 88998},
+											pos:   position{line: 2818, col: 13, offset: 89210},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2810, col: 20, offset: 89005},
+												pos: position{line: 2818, col: 20, offset: 89217},
 												expr: &actionExpr{
-													pos: position{line: 2818, col: 11, offset: 89244},
+													pos: position{line: 2826, col: 11, offset: 89456},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2818, col: 12, offset: 89245},
+														pos: position{line: 2826, col: 12, offset: 89457},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2818, col: 12, offset: 89245},
+																pos:        position{line: 2826, col: 12, offset: 89457},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 24, offset: 89257},
+																pos:        position{line: 2826, col: 24, offset: 89469},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 37, offset: 89270},
+																pos:        position{line: 2826, col: 37, offset: 89482},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 48, offset: 89281},
+																pos:        position{line: 2826, col: 48, offset: 89493},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 59, offset: 89292},
+																pos:        position{line: 2826, col: 59, offset: 89504},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19044,38 +19234,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2810, col: 30, offset: 89015},
+											pos:   position{line: 2818, col: 30, offset: 89227},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2823, col: 5, offset: 89356},
+												pos: position{line: 2831, col: 5, offset: 89568},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2823, col: 5, offset: 89356},
+													pos:   position{line: 2831, col: 5, offset: 89568},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2823, col: 14, offset: 89365},
+														pos: position{line: 2831, col: 14, offset: 89577},
 														expr: &choiceExpr{
-															pos: position{line: 2824, col: 9, offset: 89375},
+															pos: position{line: 2832, col: 9, offset: 89587},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2832, col: 9, offset: 89587},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2824, col: 9, offset: 89375},
+																		pos: position{line: 2832, col: 9, offset: 89587},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2832, col: 9, offset: 89587},
 																				expr: &litMatcher{
-																					pos:        position{line: 2824, col: 10, offset: 89376},
+																					pos:        position{line: 2832, col: 10, offset: 89588},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2825, col: 9, offset: 89404},
+																				pos: position{line: 2833, col: 9, offset: 89616},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2825, col: 10, offset: 89405},
+																					pos:        position{line: 2833, col: 10, offset: 89617},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19086,27 +19276,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2828, col: 11, offset: 89617},
+																	pos: position{line: 2836, col: 11, offset: 89829},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2828, col: 11, offset: 89617},
+																			pos:        position{line: 2836, col: 11, offset: 89829},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2828, col: 19, offset: 89625},
+																			pos: position{line: 2836, col: 19, offset: 89837},
 																			expr: &seqExpr{
-																				pos: position{line: 2828, col: 21, offset: 89627},
+																				pos: position{line: 2836, col: 21, offset: 89839},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2836, col: 21, offset: 89839},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2860, col: 10, offset: 90451},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2860, col: 10, offset: 90451},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19115,11 +19305,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2828, col: 28, offset: 89634},
+																						pos: position{line: 2836, col: 28, offset: 89846},
 																						expr: &notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2879, col: 8, offset: 90799},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2879, col: 9, offset: 90800,
 																							},
 																						},
 																					},
@@ -19475,27 +19665,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1198, col: 23, offset: 36972},
+																	pos: position{line: 1206, col: 23, offset: 37184},
 																	run: (*parser).callonImageBlock106,
 																	expr: &seqExpr{
-																		pos: position{line: 1198, col: 23, offset: 36972},
+																		pos: position{line: 1206, col: 23, offset: 37184},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36940},
+																				pos:        position{line: 1204, col: 32, offset: 37152},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1198, col: 51, offset: 37000},
+																				pos:   position{line: 1206, col: 51, offset: 37212},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1198, col: 56, offset: 37005},
+																					pos: position{line: 1206, col: 56, offset: 37217},
 																					run: (*parser).callonImageBlock110,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1198, col: 56, offset: 37005},
+																						pos: position{line: 1206, col: 56, offset: 37217},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1198, col: 56, offset: 37005},
+																							pos:        position{line: 1206, col: 56, offset: 37217},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -19505,7 +19695,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36940},
+																				pos:        position{line: 1204, col: 32, offset: 37152},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -19514,10 +19704,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2831, col: 11, offset: 89754},
+																	pos: position{line: 2839, col: 11, offset: 89966},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2831, col: 11, offset: 89754},
+																		pos:        position{line: 2839, col: 11, offset: 89966},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19534,20 +19724,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1312, col: 31, offset: 40983},
+							pos:   position{line: 1320, col: 31, offset: 41195},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1312, col: 43, offset: 40995},
+								pos:  position{line: 1320, col: 43, offset: 41207},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1312, col: 61, offset: 41013},
+							pos: position{line: 1320, col: 61, offset: 41225},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2860, col: 10, offset: 90451},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2860, col: 10, offset: 90451},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19556,28 +19746,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2882, col: 8, offset: 90849},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2869, col: 12, offset: 90622},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2869, col: 13, offset: 90623},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2869, col: 13, offset: 90623},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2869, col: 20, offset: 90630},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2869, col: 29, offset: 90639},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19586,9 +19776,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2879, col: 8, offset: 90799},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2879, col: 9, offset: 90800,
 									},
 								},
 							},
@@ -19599,74 +19789,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1317, col: 1, offset: 41230},
+			pos:  position{line: 1325, col: 1, offset: 41442},
 			expr: &actionExpr{
-				pos: position{line: 1317, col: 16, offset: 41245},
+				pos: position{line: 1325, col: 16, offset: 41457},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1317, col: 16, offset: 41245},
+					pos: position{line: 1325, col: 16, offset: 41457},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1317, col: 16, offset: 41245},
+							pos:        position{line: 1325, col: 16, offset: 41457},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1317, col: 25, offset: 41254},
+							pos: position{line: 1325, col: 25, offset: 41466},
 							expr: &litMatcher{
-								pos:        position{line: 1317, col: 26, offset: 41255},
+								pos:        position{line: 1325, col: 26, offset: 41467},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1317, col: 30, offset: 41259},
+							pos:   position{line: 1325, col: 30, offset: 41471},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2810, col: 13, offset: 88998},
+								pos: position{line: 2818, col: 13, offset: 89210},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2810, col: 13, offset: 88998},
+									pos: position{line: 2818, col: 13, offset: 89210},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2810, col: 13, offset: 88998},
+											pos:   position{line: 2818, col: 13, offset: 89210},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2810, col: 20, offset: 89005},
+												pos: position{line: 2818, col: 20, offset: 89217},
 												expr: &actionExpr{
-													pos: position{line: 2818, col: 11, offset: 89244},
+													pos: position{line: 2826, col: 11, offset: 89456},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2818, col: 12, offset: 89245},
+														pos: position{line: 2826, col: 12, offset: 89457},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2818, col: 12, offset: 89245},
+																pos:        position{line: 2826, col: 12, offset: 89457},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 24, offset: 89257},
+																pos:        position{line: 2826, col: 24, offset: 89469},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 37, offset: 89270},
+																pos:        position{line: 2826, col: 37, offset: 89482},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 48, offset: 89281},
+																pos:        position{line: 2826, col: 48, offset: 89493},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2818, col: 59, offset: 89292},
+																pos:        position{line: 2826, col: 59, offset: 89504},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19677,38 +19867,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2810, col: 30, offset: 89015},
+											pos:   position{line: 2818, col: 30, offset: 89227},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2823, col: 5, offset: 89356},
+												pos: position{line: 2831, col: 5, offset: 89568},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2823, col: 5, offset: 89356},
+													pos:   position{line: 2831, col: 5, offset: 89568},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2823, col: 14, offset: 89365},
+														pos: position{line: 2831, col: 14, offset: 89577},
 														expr: &choiceExpr{
-															pos: position{line: 2824, col: 9, offset: 89375},
+															pos: position{line: 2832, col: 9, offset: 89587},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2832, col: 9, offset: 89587},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2824, col: 9, offset: 89375},
+																		pos: position{line: 2832, col: 9, offset: 89587},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2832, col: 9, offset: 89587},
 																				expr: &litMatcher{
-																					pos:        position{line: 2824, col: 10, offset: 89376},
+																					pos:        position{line: 2832, col: 10, offset: 89588},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2825, col: 9, offset: 89404},
+																				pos: position{line: 2833, col: 9, offset: 89616},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2825, col: 10, offset: 89405},
+																					pos:        position{line: 2833, col: 10, offset: 89617},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19719,27 +19909,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2828, col: 11, offset: 89617},
+																	pos: position{line: 2836, col: 11, offset: 89829},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2828, col: 11, offset: 89617},
+																			pos:        position{line: 2836, col: 11, offset: 89829},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2828, col: 19, offset: 89625},
+																			pos: position{line: 2836, col: 19, offset: 89837},
 																			expr: &seqExpr{
-																				pos: position{line: 2828, col: 21, offset: 89627},
+																				pos: position{line: 2836, col: 21, offset: 89839},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2836, col: 21, offset: 89839},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2860, col: 10, offset: 90451},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2860, col: 10, offset: 90451},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19748,11 +19938,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2828, col: 28, offset: 89634},
+																						pos: position{line: 2836, col: 28, offset: 89846},
 																						expr: &notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2879, col: 8, offset: 90799},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2879, col: 9, offset: 90800,
 																							},
 																						},
 																					},
@@ -20108,27 +20298,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1198, col: 23, offset: 36972},
+																	pos: position{line: 1206, col: 23, offset: 37184},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1198, col: 23, offset: 36972},
+																		pos: position{line: 1206, col: 23, offset: 37184},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36940},
+																				pos:        position{line: 1204, col: 32, offset: 37152},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1198, col: 51, offset: 37000},
+																				pos:   position{line: 1206, col: 51, offset: 37212},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1198, col: 56, offset: 37005},
+																					pos: position{line: 1206, col: 56, offset: 37217},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1198, col: 56, offset: 37005},
+																						pos: position{line: 1206, col: 56, offset: 37217},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1198, col: 56, offset: 37005},
+																							pos:        position{line: 1206, col: 56, offset: 37217},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20138,7 +20328,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1196, col: 32, offset: 36940},
+																				pos:        position{line: 1204, col: 32, offset: 37152},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20147,10 +20337,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2831, col: 11, offset: 89754},
+																	pos: position{line: 2839, col: 11, offset: 89966},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2831, col: 11, offset: 89754},
+																		pos:        position{line: 2839, col: 11, offset: 89966},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20167,10 +20357,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1317, col: 46, offset: 41275},
+							pos:   position{line: 1325, col: 46, offset: 41487},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1317, col: 58, offset: 41287},
+								pos:  position{line: 1325, col: 58, offset: 41499},
 								name: "InlineAttributes",
 							},
 						},
@@ -20180,29 +20370,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1324, col: 1, offset: 41683},
+			pos:  position{line: 1332, col: 1, offset: 41895},
 			expr: &actionExpr{
-				pos: position{line: 1324, col: 15, offset: 41697},
+				pos: position{line: 1332, col: 15, offset: 41909},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1324, col: 15, offset: 41697},
+					pos: position{line: 1332, col: 15, offset: 41909},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1324, col: 15, offset: 41697},
+							pos:        position{line: 1332, col: 15, offset: 41909},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1324, col: 23, offset: 41705},
+							pos:   position{line: 1332, col: 23, offset: 41917},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1324, col: 29, offset: 41711},
+								pos: position{line: 1332, col: 29, offset: 41923},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1324, col: 29, offset: 41711},
+									pos: position{line: 1332, col: 29, offset: 41923},
 									expr: &charClassMatcher{
-										pos:        position{line: 1324, col: 29, offset: 41711},
+										pos:        position{line: 1332, col: 29, offset: 41923},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20213,10 +20403,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1324, col: 73, offset: 41755},
+							pos:   position{line: 1332, col: 73, offset: 41967},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1324, col: 85, offset: 41767},
+								pos:  position{line: 1332, col: 85, offset: 41979},
 								name: "InlineAttributes",
 							},
 						},
@@ -20226,31 +20416,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1331, col: 1, offset: 42133},
+			pos:  position{line: 1339, col: 1, offset: 42345},
 			expr: &actionExpr{
-				pos: position{line: 1331, col: 19, offset: 42151},
+				pos: position{line: 1339, col: 19, offset: 42363},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1331, col: 19, offset: 42151},
+					pos: position{line: 1339, col: 19, offset: 42363},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1331, col: 19, offset: 42151},
+							pos:        position{line: 1339, col: 19, offset: 42363},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1331, col: 31, offset: 42163},
+							pos:   position{line: 1339, col: 31, offset: 42375},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1331, col: 35, offset: 42167},
+								pos: position{line: 1339, col: 35, offset: 42379},
 								expr: &actionExpr{
-									pos: position{line: 2746, col: 14, offset: 87408},
+									pos: position{line: 2754, col: 14, offset: 87620},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2746, col: 14, offset: 87408},
+										pos: position{line: 2754, col: 14, offset: 87620},
 										expr: &charClassMatcher{
-											pos:        position{line: 2746, col: 14, offset: 87408},
+											pos:        position{line: 2754, col: 14, offset: 87620},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20261,21 +20451,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1331, col: 50, offset: 42182},
+							pos:        position{line: 1339, col: 50, offset: 42394},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1331, col: 54, offset: 42186},
+							pos:   position{line: 1339, col: 54, offset: 42398},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1331, col: 64, offset: 42196},
+								pos:  position{line: 1339, col: 64, offset: 42408},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1331, col: 82, offset: 42214},
+							pos:        position{line: 1339, col: 82, offset: 42426},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20286,17 +20476,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1337, col: 1, offset: 42371},
+			pos:  position{line: 1345, col: 1, offset: 42583},
 			expr: &actionExpr{
-				pos: position{line: 1337, col: 21, offset: 42391},
+				pos: position{line: 1345, col: 21, offset: 42603},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1337, col: 21, offset: 42391},
+					pos:   position{line: 1345, col: 21, offset: 42603},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1337, col: 30, offset: 42400},
+						pos: position{line: 1345, col: 30, offset: 42612},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1337, col: 31, offset: 42401},
+							pos:  position{line: 1345, col: 31, offset: 42613},
 							name: "FootnoteElement",
 						},
 					},
@@ -20305,44 +20495,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1341, col: 1, offset: 42493},
+			pos:  position{line: 1349, col: 1, offset: 42705},
 			expr: &actionExpr{
-				pos: position{line: 1342, col: 5, offset: 42517},
+				pos: position{line: 1350, col: 5, offset: 42729},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1342, col: 5, offset: 42517},
+					pos: position{line: 1350, col: 5, offset: 42729},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1342, col: 5, offset: 42517},
+							pos: position{line: 1350, col: 5, offset: 42729},
 							expr: &litMatcher{
-								pos:        position{line: 1342, col: 6, offset: 42518},
+								pos:        position{line: 1350, col: 6, offset: 42730},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1343, col: 5, offset: 42527},
+							pos:   position{line: 1351, col: 5, offset: 42739},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1344, col: 9, offset: 42545},
+								pos: position{line: 1352, col: 9, offset: 42757},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2751, col: 5, offset: 87481},
+										pos: position{line: 2759, col: 5, offset: 87693},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2751, col: 5, offset: 87481},
+											pos: position{line: 2759, col: 5, offset: 87693},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2751, col: 5, offset: 87481},
+													pos:   position{line: 2759, col: 5, offset: 87693},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2751, col: 11, offset: 87487},
+														pos: position{line: 2759, col: 11, offset: 87699},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2751, col: 11, offset: 87487},
+															pos: position{line: 2759, col: 11, offset: 87699},
 															expr: &charClassMatcher{
-																pos:        position{line: 2751, col: 11, offset: 87487},
+																pos:        position{line: 2759, col: 11, offset: 87699},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20352,36 +20542,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2754, col: 5, offset: 87545},
+													pos: position{line: 2762, col: 5, offset: 87757},
 													expr: &seqExpr{
-														pos: position{line: 2755, col: 9, offset: 87556},
+														pos: position{line: 2763, col: 9, offset: 87768},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2755, col: 9, offset: 87556},
+																pos:        position{line: 2763, col: 9, offset: 87768},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2756, col: 9, offset: 87605},
+																pos: position{line: 2764, col: 9, offset: 87817},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2760, col: 5, offset: 87685},
+													pos: position{line: 2768, col: 5, offset: 87897},
 													expr: &seqExpr{
-														pos: position{line: 2761, col: 9, offset: 87696},
+														pos: position{line: 2769, col: 9, offset: 87908},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2761, col: 9, offset: 87696},
+																pos:        position{line: 2769, col: 9, offset: 87908},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2761, col: 13, offset: 87700},
+																pos:        position{line: 2769, col: 13, offset: 87912},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20394,12 +20584,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2856, col: 11, offset: 90300},
+										pos: position{line: 2864, col: 11, offset: 90512},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2856, col: 11, offset: 90300},
+											pos: position{line: 2864, col: 11, offset: 90512},
 											expr: &charClassMatcher{
-												pos:        position{line: 2856, col: 11, offset: 90300},
+												pos:        position{line: 2864, col: 11, offset: 90512},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20408,21 +20598,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2480, col: 5, offset: 79941},
+										pos: position{line: 2488, col: 5, offset: 80153},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 5, offset: 79941},
+											pos: position{line: 2488, col: 5, offset: 80153},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2480, col: 5, offset: 79941},
+													pos:        position{line: 2488, col: 5, offset: 80153},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2480, col: 10, offset: 79946},
+													pos: position{line: 2488, col: 10, offset: 80158},
 													expr: &charClassMatcher{
-														pos:        position{line: 2480, col: 11, offset: 79947},
+														pos:        position{line: 2488, col: 11, offset: 80159},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20433,29 +20623,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2486, col: 5, offset: 80139},
+										pos: position{line: 2494, col: 5, offset: 80351},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2486, col: 5, offset: 80139},
+											pos: position{line: 2494, col: 5, offset: 80351},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2486, col: 5, offset: 80139},
+													pos: position{line: 2494, col: 5, offset: 80351},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2489, col: 5, offset: 80210},
+													pos: position{line: 2497, col: 5, offset: 80422},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2493, col: 5, offset: 80335},
+													pos:        position{line: 2501, col: 5, offset: 80547},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2493, col: 9, offset: 80339},
+													pos: position{line: 2501, col: 9, offset: 80551},
 													expr: &charClassMatcher{
-														pos:        position{line: 2493, col: 10, offset: 80340},
+														pos:        position{line: 2501, col: 10, offset: 80552},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20466,35 +20656,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1347, col: 11, offset: 42612},
+										pos:  position{line: 1355, col: 11, offset: 42824},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1348, col: 11, offset: 42628},
+										pos:  position{line: 1356, col: 11, offset: 42840},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2769, col: 5, offset: 87893},
+										pos: position{line: 2777, col: 5, offset: 88105},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2770, col: 9, offset: 87903},
+											pos: position{line: 2778, col: 9, offset: 88115},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2770, col: 10, offset: 87904},
+													pos:        position{line: 2778, col: 10, offset: 88116},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2772, col: 13, offset: 88001},
+													pos: position{line: 2780, col: 13, offset: 88213},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2772, col: 13, offset: 88001},
+															pos: position{line: 2780, col: 13, offset: 88213},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2775, col: 13, offset: 88101},
+															pos:        position{line: 2783, col: 13, offset: 88313},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -20502,20 +20692,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2775, col: 19, offset: 88107},
+													pos:        position{line: 2783, col: 19, offset: 88319},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2778, col: 13, offset: 88145},
+													pos: position{line: 2786, col: 13, offset: 88357},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2778, col: 13, offset: 88145},
+															pos: position{line: 2786, col: 13, offset: 88357},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2781, col: 14, offset: 88238},
+															pos:        position{line: 2789, col: 14, offset: 88450},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -20524,18 +20714,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2783, col: 12, offset: 88282},
+													pos: position{line: 2791, col: 12, offset: 88494},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2783, col: 12, offset: 88282},
+															pos:        position{line: 2791, col: 12, offset: 88494},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2783, col: 16, offset: 88286},
+															pos: position{line: 2791, col: 16, offset: 88498},
 															expr: &litMatcher{
-																pos:        position{line: 2783, col: 17, offset: 88287},
+																pos:        position{line: 2791, col: 17, offset: 88499},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -20547,36 +20737,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1350, col: 11, offset: 42701},
+										pos:  position{line: 1358, col: 11, offset: 42913},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1206, col: 5, offset: 37418},
+										pos: position{line: 1214, col: 5, offset: 37630},
 										run: (*parser).callonFootnoteElement53,
 										expr: &seqExpr{
-											pos: position{line: 1206, col: 5, offset: 37418},
+											pos: position{line: 1214, col: 5, offset: 37630},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1206, col: 5, offset: 37418},
+													pos: position{line: 1214, col: 5, offset: 37630},
 													run: (*parser).callonFootnoteElement55,
 												},
 												&litMatcher{
-													pos:        position{line: 1209, col: 5, offset: 37494},
+													pos:        position{line: 1217, col: 5, offset: 37706},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1210, col: 5, offset: 37502},
+													pos: position{line: 1218, col: 5, offset: 37714},
 													run: (*parser).callonFootnoteElement57,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1214, col: 5, offset: 37589},
+													pos: position{line: 1222, col: 5, offset: 37801},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2860, col: 10, offset: 90451},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2860, col: 10, offset: 90451},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -20585,30 +20775,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1214, col: 12, offset: 37596},
+													pos: position{line: 1222, col: 12, offset: 37808},
 													expr: &choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2882, col: 8, offset: 90849},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2869, col: 12, offset: 90622},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2869, col: 13, offset: 90623},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2869, col: 13, offset: 90623},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2869, col: 20, offset: 90630},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2869, col: 29, offset: 90639},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -20617,9 +20807,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2879, col: 8, offset: 90799},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2879, col: 9, offset: 90800,
 																},
 															},
 														},
@@ -20975,23 +21165,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2457, col: 5, offset: 78982},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78770},
+											pos: position{line: 2457, col: 5, offset: 78982},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78770},
+													pos: position{line: 2457, col: 5, offset: 78982},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78846},
+													pos:   position{line: 2460, col: 5, offset: 79058},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78864},
+														pos: position{line: 2461, col: 9, offset: 79076},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78865},
+															pos:        position{line: 2461, col: 10, offset: 79077},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21003,25 +21193,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
+										pos: position{line: 2869, col: 12, offset: 90622},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
+											pos: position{line: 2869, col: 13, offset: 90623},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
+													pos:        position{line: 2869, col: 13, offset: 90623},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
+													pos:        position{line: 2869, col: 20, offset: 90630},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
+													pos:        position{line: 2869, col: 29, offset: 90639},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21030,10 +21220,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2791, col: 12, offset: 88547},
+										pos: position{line: 2799, col: 12, offset: 88759},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2791, col: 12, offset: 88547},
+											pos:        position{line: 2799, col: 12, offset: 88759},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21049,32 +21239,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1389, col: 1, offset: 44546},
+			pos:  position{line: 1397, col: 1, offset: 44758},
 			expr: &choiceExpr{
-				pos: position{line: 1389, col: 21, offset: 44566},
+				pos: position{line: 1397, col: 21, offset: 44778},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1389, col: 21, offset: 44566},
+						pos: position{line: 1397, col: 21, offset: 44778},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1389, col: 21, offset: 44566},
+							pos: position{line: 1397, col: 21, offset: 44778},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1389, col: 21, offset: 44566},
+									pos:        position{line: 1397, col: 21, offset: 44778},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1389, col: 30, offset: 44575},
+									pos:   position{line: 1397, col: 30, offset: 44787},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1389, col: 38, offset: 44583},
+										pos: position{line: 1397, col: 38, offset: 44795},
 										expr: &actionExpr{
-											pos: position{line: 1395, col: 30, offset: 44909},
+											pos: position{line: 1403, col: 30, offset: 45121},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1395, col: 30, offset: 44909},
+												pos:        position{line: 1403, col: 30, offset: 45121},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21084,7 +21274,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1389, col: 67, offset: 44612},
+									pos:        position{line: 1397, col: 67, offset: 44824},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21093,34 +21283,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1391, col: 9, offset: 44716},
+						pos: position{line: 1399, col: 9, offset: 44928},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1391, col: 9, offset: 44716},
+							pos: position{line: 1399, col: 9, offset: 44928},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1391, col: 9, offset: 44716},
+									pos:        position{line: 1399, col: 9, offset: 44928},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1391, col: 19, offset: 44726},
+									pos:   position{line: 1399, col: 19, offset: 44938},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1391, col: 27, offset: 44734},
+										pos: position{line: 1399, col: 27, offset: 44946},
 										expr: &choiceExpr{
-											pos: position{line: 1391, col: 28, offset: 44735},
+											pos: position{line: 1399, col: 28, offset: 44947},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1391, col: 28, offset: 44735},
+													pos:  position{line: 1399, col: 28, offset: 44947},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1395, col: 30, offset: 44909},
+													pos: position{line: 1403, col: 30, offset: 45121},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1395, col: 30, offset: 44909},
+														pos:        position{line: 1403, col: 30, offset: 45121},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -21132,7 +21322,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1391, col: 69, offset: 44776},
+									pos:        position{line: 1399, col: 69, offset: 44988},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21145,75 +21335,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1402, col: 1, offset: 45165},
+			pos:  position{line: 1410, col: 1, offset: 45377},
 			expr: &choiceExpr{
-				pos: position{line: 1402, col: 9, offset: 45173},
+				pos: position{line: 1410, col: 9, offset: 45385},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1405, col: 5, offset: 45242},
+						pos: position{line: 1413, col: 5, offset: 45454},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1405, col: 5, offset: 45242},
+							pos: position{line: 1413, col: 5, offset: 45454},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1405, col: 5, offset: 45242},
+									pos:        position{line: 1413, col: 5, offset: 45454},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1406, col: 5, offset: 45251},
+									pos:   position{line: 1414, col: 5, offset: 45463},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2814, col: 23, offset: 89125},
+										pos: position{line: 2822, col: 23, offset: 89337},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2814, col: 23, offset: 89125},
+											pos: position{line: 2822, col: 23, offset: 89337},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2814, col: 23, offset: 89125},
+													pos: position{line: 2822, col: 23, offset: 89337},
 													expr: &litMatcher{
-														pos:        position{line: 2814, col: 24, offset: 89126},
+														pos:        position{line: 2822, col: 24, offset: 89338},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 28, offset: 89130},
+													pos:   position{line: 2822, col: 28, offset: 89342},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2818, col: 11, offset: 89244},
+														pos: position{line: 2826, col: 11, offset: 89456},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2818, col: 12, offset: 89245},
+															pos: position{line: 2826, col: 12, offset: 89457},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2818, col: 12, offset: 89245},
+																	pos:        position{line: 2826, col: 12, offset: 89457},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 24, offset: 89257},
+																	pos:        position{line: 2826, col: 24, offset: 89469},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 37, offset: 89270},
+																	pos:        position{line: 2826, col: 37, offset: 89482},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 48, offset: 89281},
+																	pos:        position{line: 2826, col: 48, offset: 89493},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 59, offset: 89292},
+																	pos:        position{line: 2826, col: 59, offset: 89504},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21223,38 +21413,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 44, offset: 89146},
+													pos:   position{line: 2822, col: 44, offset: 89358},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2831, col: 5, offset: 89568},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2831, col: 5, offset: 89568},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2831, col: 14, offset: 89577},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2832, col: 9, offset: 89587},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2832, col: 9, offset: 89587},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2832, col: 9, offset: 89587},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2832, col: 9, offset: 89587},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2832, col: 10, offset: 89588},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2833, col: 9, offset: 89616},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2833, col: 10, offset: 89617},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21265,27 +21455,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2836, col: 11, offset: 89829},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2836, col: 11, offset: 89829},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2836, col: 19, offset: 89837},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2836, col: 21, offset: 89839},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2836, col: 21, offset: 89839},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2860, col: 10, offset: 90451},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2860, col: 10, offset: 90451},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21294,11 +21484,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2836, col: 28, offset: 89846},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -21654,27 +21844,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1206, col: 23, offset: 37184},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1206, col: 23, offset: 37184},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1204, col: 32, offset: 37152},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1206, col: 51, offset: 37212},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1206, col: 56, offset: 37217},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1206, col: 56, offset: 37217},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1206, col: 56, offset: 37217},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -21684,7 +21874,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1204, col: 32, offset: 37152},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -21693,10 +21883,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2839, col: 11, offset: 89966},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2839, col: 11, offset: 89966},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -21713,7 +21903,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1411, col: 5, offset: 45470},
+									pos:        position{line: 1419, col: 5, offset: 45682},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -21722,38 +21912,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1402, col: 19, offset: 45183},
+						pos:  position{line: 1410, col: 19, offset: 45395},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1402, col: 34, offset: 45198},
+						pos:  position{line: 1410, col: 34, offset: 45410},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1440, col: 17, offset: 46463},
+						pos: position{line: 1448, col: 17, offset: 46675},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1440, col: 17, offset: 46463},
+							pos: position{line: 1448, col: 17, offset: 46675},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1440, col: 17, offset: 46463},
+									pos:   position{line: 1448, col: 17, offset: 46675},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1445, col: 5, offset: 46628},
+										pos: position{line: 1453, col: 5, offset: 46840},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1445, col: 5, offset: 46628},
+											pos: position{line: 1453, col: 5, offset: 46840},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1445, col: 5, offset: 46628},
+													pos:   position{line: 1453, col: 5, offset: 46840},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1445, col: 12, offset: 46635},
+														pos: position{line: 1453, col: 12, offset: 46847},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1445, col: 12, offset: 46635},
+															pos: position{line: 1453, col: 12, offset: 46847},
 															expr: &charClassMatcher{
-																pos:        position{line: 1445, col: 12, offset: 46635},
+																pos:        position{line: 1453, col: 12, offset: 46847},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -21765,7 +21955,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1448, col: 5, offset: 46719},
+													pos: position{line: 1456, col: 5, offset: 46931},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -21773,33 +21963,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1440, col: 43, offset: 46489},
+									pos:        position{line: 1448, col: 43, offset: 46701},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1440, col: 47, offset: 46493},
+									pos:   position{line: 1448, col: 47, offset: 46705},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1457, col: 23, offset: 47013},
+										pos: position{line: 1465, col: 23, offset: 47225},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1457, col: 23, offset: 47013},
+											pos: position{line: 1465, col: 23, offset: 47225},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1457, col: 23, offset: 47013},
+													pos:   position{line: 1465, col: 23, offset: 47225},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1457, col: 31, offset: 47021},
+														pos: position{line: 1465, col: 31, offset: 47233},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1457, col: 31, offset: 47021},
+															pos: position{line: 1465, col: 31, offset: 47233},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1457, col: 31, offset: 47021},
+																	pos: position{line: 1465, col: 31, offset: 47233},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1457, col: 31, offset: 47021},
+																		pos:        position{line: 1465, col: 31, offset: 47233},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -21807,20 +21997,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1457, col: 41, offset: 47031},
+																	pos: position{line: 1465, col: 41, offset: 47243},
 																	expr: &seqExpr{
-																		pos: position{line: 1457, col: 42, offset: 47032},
+																		pos: position{line: 1465, col: 42, offset: 47244},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1457, col: 42, offset: 47032},
+																				pos:        position{line: 1465, col: 42, offset: 47244},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1457, col: 46, offset: 47036},
+																				pos: position{line: 1465, col: 46, offset: 47248},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1457, col: 46, offset: 47036},
+																					pos:        position{line: 1465, col: 46, offset: 47248},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21836,7 +22026,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1460, col: 5, offset: 47097},
+													pos: position{line: 1468, col: 5, offset: 47309},
 													run: (*parser).callonLink145,
 												},
 											},
@@ -21851,68 +22041,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1417, col: 1, offset: 45618},
+			pos:  position{line: 1425, col: 1, offset: 45830},
 			expr: &choiceExpr{
-				pos: position{line: 1419, col: 5, offset: 45654},
+				pos: position{line: 1427, col: 5, offset: 45866},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1419, col: 5, offset: 45654},
+						pos: position{line: 1427, col: 5, offset: 45866},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1419, col: 5, offset: 45654},
+							pos: position{line: 1427, col: 5, offset: 45866},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1419, col: 5, offset: 45654},
+									pos:        position{line: 1427, col: 5, offset: 45866},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1419, col: 17, offset: 45666},
+									pos:   position{line: 1427, col: 17, offset: 45878},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2810, col: 13, offset: 88998},
+										pos: position{line: 2818, col: 13, offset: 89210},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2810, col: 13, offset: 88998},
+											pos: position{line: 2818, col: 13, offset: 89210},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2810, col: 13, offset: 88998},
+													pos:   position{line: 2818, col: 13, offset: 89210},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2810, col: 20, offset: 89005},
+														pos: position{line: 2818, col: 20, offset: 89217},
 														expr: &actionExpr{
-															pos: position{line: 2818, col: 11, offset: 89244},
+															pos: position{line: 2826, col: 11, offset: 89456},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2818, col: 12, offset: 89245},
+																pos: position{line: 2826, col: 12, offset: 89457},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 12, offset: 89245},
+																		pos:        position{line: 2826, col: 12, offset: 89457},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 24, offset: 89257},
+																		pos:        position{line: 2826, col: 24, offset: 89469},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 37, offset: 89270},
+																		pos:        position{line: 2826, col: 37, offset: 89482},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 48, offset: 89281},
+																		pos:        position{line: 2826, col: 48, offset: 89493},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 59, offset: 89292},
+																		pos:        position{line: 2826, col: 59, offset: 89504},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -21923,38 +22113,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2810, col: 30, offset: 89015},
+													pos:   position{line: 2818, col: 30, offset: 89227},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2831, col: 5, offset: 89568},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2831, col: 5, offset: 89568},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2831, col: 14, offset: 89577},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2832, col: 9, offset: 89587},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2832, col: 9, offset: 89587},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2832, col: 9, offset: 89587},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2832, col: 9, offset: 89587},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2832, col: 10, offset: 89588},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2833, col: 9, offset: 89616},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2833, col: 10, offset: 89617},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21965,27 +22155,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2836, col: 11, offset: 89829},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2836, col: 11, offset: 89829},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2836, col: 19, offset: 89837},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2836, col: 21, offset: 89839},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2836, col: 21, offset: 89839},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2860, col: 10, offset: 90451},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2860, col: 10, offset: 90451},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21994,11 +22184,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2836, col: 28, offset: 89846},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -22354,27 +22544,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1206, col: 23, offset: 37184},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1206, col: 23, offset: 37184},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1204, col: 32, offset: 37152},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1206, col: 51, offset: 37212},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1206, col: 56, offset: 37217},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1206, col: 56, offset: 37217},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1206, col: 56, offset: 37217},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22384,7 +22574,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1204, col: 32, offset: 37152},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22393,10 +22583,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2839, col: 11, offset: 89966},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2839, col: 11, offset: 89966},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22413,10 +22603,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1419, col: 32, offset: 45681},
+									pos:   position{line: 1427, col: 32, offset: 45893},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1419, col: 44, offset: 45693},
+										pos:  position{line: 1427, col: 44, offset: 45905},
 										name: "InlineAttributes",
 									},
 								},
@@ -22424,63 +22614,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1424, col: 5, offset: 45825},
+						pos: position{line: 1432, col: 5, offset: 46037},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1424, col: 5, offset: 45825},
+							pos: position{line: 1432, col: 5, offset: 46037},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1424, col: 5, offset: 45825},
+									pos:        position{line: 1432, col: 5, offset: 46037},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1424, col: 13, offset: 45833},
+									pos:   position{line: 1432, col: 13, offset: 46045},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2810, col: 13, offset: 88998},
+										pos: position{line: 2818, col: 13, offset: 89210},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2810, col: 13, offset: 88998},
+											pos: position{line: 2818, col: 13, offset: 89210},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2810, col: 13, offset: 88998},
+													pos:   position{line: 2818, col: 13, offset: 89210},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2810, col: 20, offset: 89005},
+														pos: position{line: 2818, col: 20, offset: 89217},
 														expr: &actionExpr{
-															pos: position{line: 2818, col: 11, offset: 89244},
+															pos: position{line: 2826, col: 11, offset: 89456},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2818, col: 12, offset: 89245},
+																pos: position{line: 2826, col: 12, offset: 89457},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 12, offset: 89245},
+																		pos:        position{line: 2826, col: 12, offset: 89457},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 24, offset: 89257},
+																		pos:        position{line: 2826, col: 24, offset: 89469},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 37, offset: 89270},
+																		pos:        position{line: 2826, col: 37, offset: 89482},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 48, offset: 89281},
+																		pos:        position{line: 2826, col: 48, offset: 89493},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2818, col: 59, offset: 89292},
+																		pos:        position{line: 2826, col: 59, offset: 89504},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22491,38 +22681,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2810, col: 30, offset: 89015},
+													pos:   position{line: 2818, col: 30, offset: 89227},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2831, col: 5, offset: 89568},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2831, col: 5, offset: 89568},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2831, col: 14, offset: 89577},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2832, col: 9, offset: 89587},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2832, col: 9, offset: 89587},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2832, col: 9, offset: 89587},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2832, col: 9, offset: 89587},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2832, col: 10, offset: 89588},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2833, col: 9, offset: 89616},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2833, col: 10, offset: 89617},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22533,27 +22723,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2836, col: 11, offset: 89829},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2836, col: 11, offset: 89829},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2836, col: 19, offset: 89837},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2836, col: 21, offset: 89839},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2836, col: 21, offset: 89839},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2860, col: 10, offset: 90451},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2860, col: 10, offset: 90451},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22562,11 +22752,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2836, col: 28, offset: 89846},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -22922,27 +23112,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1206, col: 23, offset: 37184},
 																			run: (*parser).callonRelativeLink224,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1206, col: 23, offset: 37184},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1204, col: 32, offset: 37152},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1206, col: 51, offset: 37212},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1206, col: 56, offset: 37217},
 																							run: (*parser).callonRelativeLink228,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1206, col: 56, offset: 37217},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1206, col: 56, offset: 37217},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22952,7 +23142,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1204, col: 32, offset: 37152},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22961,10 +23151,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2839, col: 11, offset: 89966},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2839, col: 11, offset: 89966},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22981,10 +23171,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1424, col: 28, offset: 45848},
+									pos:   position{line: 1432, col: 28, offset: 46060},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1424, col: 40, offset: 45860},
+										pos:  position{line: 1432, col: 40, offset: 46072},
 										name: "InlineAttributes",
 									},
 								},
@@ -22996,75 +23186,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1428, col: 1, offset: 45976},
+			pos:  position{line: 1436, col: 1, offset: 46188},
 			expr: &choiceExpr{
-				pos: position{line: 1431, col: 5, offset: 46138},
+				pos: position{line: 1439, col: 5, offset: 46350},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1431, col: 5, offset: 46138},
+						pos: position{line: 1439, col: 5, offset: 46350},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1431, col: 5, offset: 46138},
+							pos: position{line: 1439, col: 5, offset: 46350},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1431, col: 5, offset: 46138},
+									pos:        position{line: 1439, col: 5, offset: 46350},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1431, col: 9, offset: 46142},
+									pos:   position{line: 1439, col: 9, offset: 46354},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2814, col: 23, offset: 89125},
+										pos: position{line: 2822, col: 23, offset: 89337},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2814, col: 23, offset: 89125},
+											pos: position{line: 2822, col: 23, offset: 89337},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2814, col: 23, offset: 89125},
+													pos: position{line: 2822, col: 23, offset: 89337},
 													expr: &litMatcher{
-														pos:        position{line: 2814, col: 24, offset: 89126},
+														pos:        position{line: 2822, col: 24, offset: 89338},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 28, offset: 89130},
+													pos:   position{line: 2822, col: 28, offset: 89342},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2818, col: 11, offset: 89244},
+														pos: position{line: 2826, col: 11, offset: 89456},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2818, col: 12, offset: 89245},
+															pos: position{line: 2826, col: 12, offset: 89457},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2818, col: 12, offset: 89245},
+																	pos:        position{line: 2826, col: 12, offset: 89457},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 24, offset: 89257},
+																	pos:        position{line: 2826, col: 24, offset: 89469},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 37, offset: 89270},
+																	pos:        position{line: 2826, col: 37, offset: 89482},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 48, offset: 89281},
+																	pos:        position{line: 2826, col: 48, offset: 89493},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 59, offset: 89292},
+																	pos:        position{line: 2826, col: 59, offset: 89504},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23074,38 +23264,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 44, offset: 89146},
+													pos:   position{line: 2822, col: 44, offset: 89358},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2831, col: 5, offset: 89568},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2831, col: 5, offset: 89568},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2831, col: 14, offset: 89577},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2832, col: 9, offset: 89587},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2832, col: 9, offset: 89587},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2832, col: 9, offset: 89587},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2832, col: 9, offset: 89587},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2832, col: 10, offset: 89588},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2833, col: 9, offset: 89616},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2833, col: 10, offset: 89617},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23116,27 +23306,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2836, col: 11, offset: 89829},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2836, col: 11, offset: 89829},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2836, col: 19, offset: 89837},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2836, col: 21, offset: 89839},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2836, col: 21, offset: 89839},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2860, col: 10, offset: 90451},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2860, col: 10, offset: 90451},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23145,11 +23335,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2836, col: 28, offset: 89846},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -23505,27 +23695,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1206, col: 23, offset: 37184},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1206, col: 23, offset: 37184},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1204, col: 32, offset: 37152},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1206, col: 51, offset: 37212},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1206, col: 56, offset: 37217},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1206, col: 56, offset: 37217},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1206, col: 56, offset: 37217},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23535,7 +23725,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1204, col: 32, offset: 37152},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23544,10 +23734,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2839, col: 11, offset: 89966},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2839, col: 11, offset: 89966},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23564,12 +23754,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1431, col: 34, offset: 46167},
+									pos:   position{line: 1439, col: 34, offset: 46379},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1431, col: 45, offset: 46178},
+										pos: position{line: 1439, col: 45, offset: 46390},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1431, col: 46, offset: 46179},
+											pos:  position{line: 1439, col: 46, offset: 46391},
 											name: "InlineAttributes",
 										},
 									},
@@ -23578,64 +23768,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1436, col: 5, offset: 46312},
+						pos: position{line: 1444, col: 5, offset: 46524},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1436, col: 5, offset: 46312},
+							pos: position{line: 1444, col: 5, offset: 46524},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1436, col: 5, offset: 46312},
+									pos:   position{line: 1444, col: 5, offset: 46524},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2814, col: 23, offset: 89125},
+										pos: position{line: 2822, col: 23, offset: 89337},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2814, col: 23, offset: 89125},
+											pos: position{line: 2822, col: 23, offset: 89337},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2814, col: 23, offset: 89125},
+													pos: position{line: 2822, col: 23, offset: 89337},
 													expr: &litMatcher{
-														pos:        position{line: 2814, col: 24, offset: 89126},
+														pos:        position{line: 2822, col: 24, offset: 89338},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 28, offset: 89130},
+													pos:   position{line: 2822, col: 28, offset: 89342},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2818, col: 11, offset: 89244},
+														pos: position{line: 2826, col: 11, offset: 89456},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2818, col: 12, offset: 89245},
+															pos: position{line: 2826, col: 12, offset: 89457},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2818, col: 12, offset: 89245},
+																	pos:        position{line: 2826, col: 12, offset: 89457},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 24, offset: 89257},
+																	pos:        position{line: 2826, col: 24, offset: 89469},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 37, offset: 89270},
+																	pos:        position{line: 2826, col: 37, offset: 89482},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 48, offset: 89281},
+																	pos:        position{line: 2826, col: 48, offset: 89493},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2818, col: 59, offset: 89292},
+																	pos:        position{line: 2826, col: 59, offset: 89504},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23645,38 +23835,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2814, col: 44, offset: 89146},
+													pos:   position{line: 2822, col: 44, offset: 89358},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2823, col: 5, offset: 89356},
+														pos: position{line: 2831, col: 5, offset: 89568},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2823, col: 5, offset: 89356},
+															pos:   position{line: 2831, col: 5, offset: 89568},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2823, col: 14, offset: 89365},
+																pos: position{line: 2831, col: 14, offset: 89577},
 																expr: &choiceExpr{
-																	pos: position{line: 2824, col: 9, offset: 89375},
+																	pos: position{line: 2832, col: 9, offset: 89587},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2824, col: 9, offset: 89375},
+																			pos: position{line: 2832, col: 9, offset: 89587},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2824, col: 9, offset: 89375},
+																				pos: position{line: 2832, col: 9, offset: 89587},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2824, col: 9, offset: 89375},
+																						pos: position{line: 2832, col: 9, offset: 89587},
 																						expr: &litMatcher{
-																							pos:        position{line: 2824, col: 10, offset: 89376},
+																							pos:        position{line: 2832, col: 10, offset: 89588},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2825, col: 9, offset: 89404},
+																						pos: position{line: 2833, col: 9, offset: 89616},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2825, col: 10, offset: 89405},
+																							pos:        position{line: 2833, col: 10, offset: 89617},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23687,27 +23877,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2828, col: 11, offset: 89617},
+																			pos: position{line: 2836, col: 11, offset: 89829},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2828, col: 11, offset: 89617},
+																					pos:        position{line: 2836, col: 11, offset: 89829},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2828, col: 19, offset: 89625},
+																					pos: position{line: 2836, col: 19, offset: 89837},
 																					expr: &seqExpr{
-																						pos: position{line: 2828, col: 21, offset: 89627},
+																						pos: position{line: 2836, col: 21, offset: 89839},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2828, col: 21, offset: 89627},
+																								pos: position{line: 2836, col: 21, offset: 89839},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
+																									pos: position{line: 2860, col: 10, offset: 90451},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2860, col: 10, offset: 90451},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23716,11 +23906,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2828, col: 28, offset: 89634},
+																								pos: position{line: 2836, col: 28, offset: 89846},
 																								expr: &notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -24076,27 +24266,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1198, col: 23, offset: 36972},
+																			pos: position{line: 1206, col: 23, offset: 37184},
 																			run: (*parser).callonExternalLink226,
 																			expr: &seqExpr{
-																				pos: position{line: 1198, col: 23, offset: 36972},
+																				pos: position{line: 1206, col: 23, offset: 37184},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1204, col: 32, offset: 37152},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1198, col: 51, offset: 37000},
+																						pos:   position{line: 1206, col: 51, offset: 37212},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1198, col: 56, offset: 37005},
+																							pos: position{line: 1206, col: 56, offset: 37217},
 																							run: (*parser).callonExternalLink230,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1198, col: 56, offset: 37005},
+																								pos: position{line: 1206, col: 56, offset: 37217},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1198, col: 56, offset: 37005},
+																									pos:        position{line: 1206, col: 56, offset: 37217},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24106,7 +24296,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1196, col: 32, offset: 36940},
+																						pos:        position{line: 1204, col: 32, offset: 37152},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24115,10 +24305,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2831, col: 11, offset: 89754},
+																			pos: position{line: 2839, col: 11, offset: 89966},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2831, col: 11, offset: 89754},
+																				pos:        position{line: 2839, col: 11, offset: 89966},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24135,12 +24325,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1436, col: 30, offset: 46337},
+									pos:   position{line: 1444, col: 30, offset: 46549},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1436, col: 41, offset: 46348},
+										pos: position{line: 1444, col: 41, offset: 46560},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1436, col: 42, offset: 46349},
+											pos:  position{line: 1444, col: 42, offset: 46561},
 											name: "InlineAttributes",
 										},
 									},
@@ -24153,41 +24343,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1470, col: 1, offset: 47490},
+			pos:  position{line: 1478, col: 1, offset: 47702},
 			expr: &actionExpr{
-				pos: position{line: 1471, col: 5, offset: 47511},
+				pos: position{line: 1479, col: 5, offset: 47723},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1471, col: 5, offset: 47511},
+					pos: position{line: 1479, col: 5, offset: 47723},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1471, col: 5, offset: 47511},
+							pos:   position{line: 1479, col: 5, offset: 47723},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1477, col: 5, offset: 47713},
+								pos: position{line: 1485, col: 5, offset: 47925},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1570, col: 5, offset: 50647},
+										pos: position{line: 1578, col: 5, offset: 50859},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1570, col: 5, offset: 50647},
+											pos: position{line: 1578, col: 5, offset: 50859},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1570, col: 5, offset: 50647},
+													pos:   position{line: 1578, col: 5, offset: 50859},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1577, col: 5, offset: 50855},
+														pos: position{line: 1585, col: 5, offset: 51067},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1577, col: 5, offset: 50855},
+															pos: position{line: 1585, col: 5, offset: 51067},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1577, col: 5, offset: 50855},
+																	pos: position{line: 1585, col: 5, offset: 51067},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2860, col: 10, offset: 90451},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2860, col: 10, offset: 90451},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24196,27 +24386,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1577, col: 12, offset: 50862},
+																	pos:   position{line: 1585, col: 12, offset: 51074},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1579, col: 9, offset: 50925},
+																		pos: position{line: 1587, col: 9, offset: 51137},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1579, col: 9, offset: 50925},
+																				pos: position{line: 1587, col: 9, offset: 51137},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1579, col: 9, offset: 50925},
+																					pos: position{line: 1587, col: 9, offset: 51137},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1579, col: 9, offset: 50925},
+																							pos:   position{line: 1587, col: 9, offset: 51137},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1579, col: 16, offset: 50932},
+																								pos: position{line: 1587, col: 16, offset: 51144},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1579, col: 16, offset: 50932},
+																									pos: position{line: 1587, col: 16, offset: 51144},
 																									expr: &litMatcher{
-																										pos:        position{line: 1579, col: 17, offset: 50933},
+																										pos:        position{line: 1587, col: 17, offset: 51145},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24225,22 +24415,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1583, col: 9, offset: 51033},
+																							pos: position{line: 1591, col: 9, offset: 51245},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1602, col: 11, offset: 51750},
+																				pos: position{line: 1610, col: 11, offset: 51962},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1602, col: 11, offset: 51750},
+																					pos: position{line: 1610, col: 11, offset: 51962},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1602, col: 11, offset: 51750},
+																							pos: position{line: 1610, col: 11, offset: 51962},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1602, col: 12, offset: 51751},
+																								pos:        position{line: 1610, col: 12, offset: 51963},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24248,7 +24438,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1602, col: 20, offset: 51759},
+																							pos:        position{line: 1610, col: 20, offset: 51971},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24257,20 +24447,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1604, col: 13, offset: 51876},
+																				pos: position{line: 1612, col: 13, offset: 52088},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1604, col: 13, offset: 51876},
+																					pos: position{line: 1612, col: 13, offset: 52088},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1604, col: 14, offset: 51877},
+																							pos:        position{line: 1612, col: 14, offset: 52089},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1604, col: 21, offset: 51884},
+																							pos:        position{line: 1612, col: 21, offset: 52096},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24279,20 +24469,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1606, col: 13, offset: 52004},
+																				pos: position{line: 1614, col: 13, offset: 52216},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1606, col: 13, offset: 52004},
+																					pos: position{line: 1614, col: 13, offset: 52216},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1606, col: 14, offset: 52005},
+																							pos:        position{line: 1614, col: 14, offset: 52217},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1606, col: 21, offset: 52012},
+																							pos:        position{line: 1614, col: 21, offset: 52224},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24301,15 +24491,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 13, offset: 52132},
+																				pos: position{line: 1616, col: 13, offset: 52344},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 13, offset: 52132},
+																					pos: position{line: 1616, col: 13, offset: 52344},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 13, offset: 52132},
+																							pos: position{line: 1616, col: 13, offset: 52344},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 14, offset: 52133},
+																								pos:        position{line: 1616, col: 14, offset: 52345},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24317,7 +24507,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 26, offset: 52145},
+																							pos:        position{line: 1616, col: 26, offset: 52357},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24326,15 +24516,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52265},
+																				pos: position{line: 1618, col: 13, offset: 52477},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52265},
+																					pos: position{line: 1618, col: 13, offset: 52477},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 13, offset: 52265},
+																							pos: position{line: 1618, col: 13, offset: 52477},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 14, offset: 52266},
+																								pos:        position{line: 1618, col: 14, offset: 52478},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -24342,7 +24532,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 26, offset: 52278},
+																							pos:        position{line: 1618, col: 26, offset: 52490},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24354,12 +24544,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2864, col: 11, offset: 90512},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2864, col: 11, offset: 90512},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2864, col: 11, offset: 90512},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24372,26 +24562,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1571, col: 5, offset: 50686},
+													pos:   position{line: 1579, col: 5, offset: 50898},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1526, col: 5, offset: 49365},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1526, col: 5, offset: 49365},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1526, col: 5, offset: 49365},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1526, col: 14, offset: 49374},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1526, col: 15, offset: 49375},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1526, col: 15, offset: 49375},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1526, col: 15, offset: 49375},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24402,28 +24592,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2882, col: 8, offset: 90849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2869, col: 12, offset: 90622},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2869, col: 13, offset: 90623},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2869, col: 13, offset: 90623},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2869, col: 20, offset: 90630},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2869, col: 29, offset: 90639},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24432,9 +24622,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2879, col: 8, offset: 90799},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2879, col: 9, offset: 90800,
 																			},
 																		},
 																	},
@@ -24447,27 +24637,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1620, col: 5, offset: 52544},
+										pos: position{line: 1628, col: 5, offset: 52756},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1620, col: 5, offset: 52544},
+											pos: position{line: 1628, col: 5, offset: 52756},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1620, col: 5, offset: 52544},
+													pos:   position{line: 1628, col: 5, offset: 52756},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1627, col: 5, offset: 52817},
+														pos: position{line: 1635, col: 5, offset: 53029},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1627, col: 5, offset: 52817},
+															pos: position{line: 1635, col: 5, offset: 53029},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1627, col: 5, offset: 52817},
+																	pos: position{line: 1635, col: 5, offset: 53029},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2860, col: 10, offset: 90451},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2860, col: 10, offset: 90451},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24476,24 +24666,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1628, col: 5, offset: 52829},
+																	pos:   position{line: 1636, col: 5, offset: 53041},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1629, col: 9, offset: 52845},
+																		pos: position{line: 1637, col: 9, offset: 53057},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1629, col: 10, offset: 52846},
+																			pos: position{line: 1637, col: 10, offset: 53058},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1629, col: 11, offset: 52847},
+																					pos:        position{line: 1637, col: 11, offset: 53059},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1629, col: 18, offset: 52854},
+																					pos: position{line: 1637, col: 18, offset: 53066},
 																					expr: &litMatcher{
-																						pos:        position{line: 1629, col: 19, offset: 52855},
+																						pos:        position{line: 1637, col: 19, offset: 53067},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -24504,16 +24694,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1632, col: 7, offset: 52945},
+																	pos: position{line: 1640, col: 7, offset: 53157},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2864, col: 11, offset: 90512},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2864, col: 11, offset: 90512},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2864, col: 11, offset: 90512},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24526,56 +24716,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1621, col: 5, offset: 52585},
+													pos:   position{line: 1629, col: 5, offset: 52797},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1621, col: 16, offset: 52596},
+														pos: position{line: 1629, col: 16, offset: 52808},
 														expr: &actionExpr{
-															pos: position{line: 1642, col: 5, offset: 53210},
+															pos: position{line: 1650, col: 5, offset: 53422},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1642, col: 5, offset: 53210},
+																pos: position{line: 1650, col: 5, offset: 53422},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1642, col: 5, offset: 53210},
+																		pos: position{line: 1650, col: 5, offset: 53422},
 																		expr: &litMatcher{
-																			pos:        position{line: 1642, col: 6, offset: 53211},
+																			pos:        position{line: 1650, col: 6, offset: 53423},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1642, col: 10, offset: 53215},
+																		pos:   position{line: 1650, col: 10, offset: 53427},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1643, col: 7, offset: 53229},
+																			pos: position{line: 1651, col: 7, offset: 53441},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1643, col: 7, offset: 53229},
+																					pos: position{line: 1651, col: 7, offset: 53441},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1643, col: 7, offset: 53229},
+																						pos:        position{line: 1651, col: 7, offset: 53441},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1644, col: 7, offset: 53274},
+																					pos: position{line: 1652, col: 7, offset: 53486},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1644, col: 7, offset: 53274},
+																						pos:        position{line: 1652, col: 7, offset: 53486},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1645, col: 7, offset: 53317},
+																					pos: position{line: 1653, col: 7, offset: 53529},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1645, col: 7, offset: 53317},
+																						pos:        position{line: 1653, col: 7, offset: 53529},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -24585,12 +24775,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2864, col: 11, offset: 90512},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2856, col: 11, offset: 90300},
+																			pos: position{line: 2864, col: 11, offset: 90512},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90300},
+																				pos:        position{line: 2864, col: 11, offset: 90512},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -24604,26 +24794,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1622, col: 5, offset: 52635},
+													pos:   position{line: 1630, col: 5, offset: 52847},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1526, col: 5, offset: 49365},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1526, col: 5, offset: 49365},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1526, col: 5, offset: 49365},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1526, col: 14, offset: 49374},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1526, col: 15, offset: 49375},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1526, col: 15, offset: 49375},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1526, col: 15, offset: 49375},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24634,28 +24824,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2882, col: 8, offset: 90849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2869, col: 12, offset: 90622},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2869, col: 13, offset: 90623},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2869, col: 13, offset: 90623},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2869, col: 20, offset: 90630},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2869, col: 29, offset: 90639},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24664,9 +24854,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2879, col: 8, offset: 90799},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2879, col: 9, offset: 90800,
 																			},
 																		},
 																	},
@@ -24679,36 +24869,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1710, col: 5, offset: 55157},
+										pos: position{line: 1718, col: 5, offset: 55369},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1710, col: 5, offset: 55157},
+											pos: position{line: 1718, col: 5, offset: 55369},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1710, col: 5, offset: 55157},
+													pos:   position{line: 1718, col: 5, offset: 55369},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1716, col: 5, offset: 55354},
+														pos: position{line: 1724, col: 5, offset: 55566},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1716, col: 5, offset: 55354},
+															pos: position{line: 1724, col: 5, offset: 55566},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1716, col: 5, offset: 55354},
+																	pos:        position{line: 1724, col: 5, offset: 55566},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1716, col: 9, offset: 55358},
+																	pos:   position{line: 1724, col: 9, offset: 55570},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 14, offset: 55363},
+																		pos: position{line: 1724, col: 14, offset: 55575},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1716, col: 14, offset: 55363},
+																			pos: position{line: 1724, col: 14, offset: 55575},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1716, col: 14, offset: 55363},
+																				pos:        position{line: 1724, col: 14, offset: 55575},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -24718,18 +24908,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1716, col: 62, offset: 55411},
+																	pos:        position{line: 1724, col: 62, offset: 55623},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2864, col: 11, offset: 90512},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2864, col: 11, offset: 90512},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2864, col: 11, offset: 90512},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24742,26 +24932,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1711, col: 5, offset: 55193},
+													pos:   position{line: 1719, col: 5, offset: 55405},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1526, col: 5, offset: 49365},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1526, col: 5, offset: 49365},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1526, col: 5, offset: 49365},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1526, col: 14, offset: 49374},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1526, col: 15, offset: 49375},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1526, col: 15, offset: 49375},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1526, col: 15, offset: 49375},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24772,28 +24962,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2882, col: 8, offset: 90849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2869, col: 12, offset: 90622},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2869, col: 13, offset: 90623},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2869, col: 13, offset: 90623},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2869, col: 20, offset: 90630},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2869, col: 29, offset: 90639},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24802,9 +24992,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2879, col: 8, offset: 90799},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2879, col: 9, offset: 90800,
 																			},
 																		},
 																	},
@@ -24817,40 +25007,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1654, col: 5, offset: 53510},
+										pos: position{line: 1662, col: 5, offset: 53722},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1654, col: 5, offset: 53510},
+											pos: position{line: 1662, col: 5, offset: 53722},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1654, col: 5, offset: 53510},
+													pos:   position{line: 1662, col: 5, offset: 53722},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1662, col: 5, offset: 53836},
+														pos: position{line: 1670, col: 5, offset: 54048},
 														run: (*parser).callonListElements148,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1662, col: 5, offset: 53836},
+															pos: position{line: 1670, col: 5, offset: 54048},
 															expr: &seqExpr{
-																pos: position{line: 1662, col: 6, offset: 53837},
+																pos: position{line: 1670, col: 6, offset: 54049},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1662, col: 6, offset: 53837},
+																		pos: position{line: 1670, col: 6, offset: 54049},
 																		expr: &actionExpr{
-																			pos: position{line: 1667, col: 5, offset: 53987},
+																			pos: position{line: 1675, col: 5, offset: 54199},
 																			run: (*parser).callonListElements152,
 																			expr: &seqExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
+																				pos: position{line: 1675, col: 5, offset: 54199},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1667, col: 5, offset: 53987},
+																						pos:   position{line: 1675, col: 5, offset: 54199},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1667, col: 16, offset: 53998},
+																							pos: position{line: 1675, col: 16, offset: 54210},
 																							run: (*parser).callonListElements155,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
+																								pos: position{line: 1675, col: 16, offset: 54210},
 																								expr: &litMatcher{
-																									pos:        position{line: 1667, col: 17, offset: 53999},
+																									pos:        position{line: 1675, col: 17, offset: 54211},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -24859,7 +25049,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1670, col: 5, offset: 54056},
+																						pos: position{line: 1678, col: 5, offset: 54268},
 																						run: (*parser).callonListElements158,
 																					},
 																				},
@@ -24867,30 +25057,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1662, col: 35, offset: 53866},
+																		pos: position{line: 1670, col: 35, offset: 54078},
 																		expr: &choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2882, col: 8, offset: 90849},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2869, col: 12, offset: 90622},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2869, col: 13, offset: 90623},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2869, col: 13, offset: 90623},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2869, col: 20, offset: 90630},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2869, col: 29, offset: 90639},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -24899,16 +25089,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1662, col: 40, offset: 53871,
+																		line: 1670, col: 40, offset: 54083,
 																	},
 																},
 															},
@@ -24916,24 +25106,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1655, col: 5, offset: 53545},
+													pos:   position{line: 1663, col: 5, offset: 53757},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1667, col: 5, offset: 53987},
+														pos: position{line: 1675, col: 5, offset: 54199},
 														run: (*parser).callonListElements170,
 														expr: &seqExpr{
-															pos: position{line: 1667, col: 5, offset: 53987},
+															pos: position{line: 1675, col: 5, offset: 54199},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1667, col: 5, offset: 53987},
+																	pos:   position{line: 1675, col: 5, offset: 54199},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1667, col: 16, offset: 53998},
+																		pos: position{line: 1675, col: 16, offset: 54210},
 																		run: (*parser).callonListElements173,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1667, col: 16, offset: 53998},
+																			pos: position{line: 1675, col: 16, offset: 54210},
 																			expr: &litMatcher{
-																				pos:        position{line: 1667, col: 17, offset: 53999},
+																				pos:        position{line: 1675, col: 17, offset: 54211},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -24942,7 +25132,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1670, col: 5, offset: 54056},
+																	pos: position{line: 1678, col: 5, offset: 54268},
 																	run: (*parser).callonListElements176,
 																},
 															},
@@ -24950,24 +25140,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1656, col: 5, offset: 53590},
+													pos:   position{line: 1664, col: 5, offset: 53802},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1678, col: 5, offset: 54305},
+														pos: position{line: 1686, col: 5, offset: 54517},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1680, col: 9, offset: 54371},
+																pos: position{line: 1688, col: 9, offset: 54583},
 																run: (*parser).callonListElements179,
 																expr: &seqExpr{
-																	pos: position{line: 1680, col: 9, offset: 54371},
+																	pos: position{line: 1688, col: 9, offset: 54583},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1680, col: 9, offset: 54371},
+																			pos: position{line: 1688, col: 9, offset: 54583},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2860, col: 10, offset: 90451},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2860, col: 10, offset: 90451},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -24976,28 +25166,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2882, col: 8, offset: 90849},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2869, col: 12, offset: 90622},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2869, col: 13, offset: 90623},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2869, col: 13, offset: 90623},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2869, col: 20, offset: 90630},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2869, col: 29, offset: 90639},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25006,15 +25196,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1681, col: 9, offset: 54390},
+																			pos: position{line: 1689, col: 9, offset: 54602},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21489},
 																				run: (*parser).callonListElements193,
@@ -25022,18 +25212,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21489},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2877, col: 11, offset: 90785},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2877, col: 13, offset: 90787,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21496},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2860, col: 10, offset: 90451},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2860, col: 10, offset: 90451},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25042,28 +25232,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2869, col: 12, offset: 90622},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25072,9 +25262,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -25087,18 +25277,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1687, col: 9, offset: 54519},
+																pos: position{line: 1695, col: 9, offset: 54731},
 																run: (*parser).callonListElements208,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 9, offset: 54519},
+																	pos: position{line: 1695, col: 9, offset: 54731},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90300},
+																			pos: position{line: 2864, col: 11, offset: 90512},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2856, col: 11, offset: 90300},
+																				pos: position{line: 2864, col: 11, offset: 90512},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2856, col: 11, offset: 90300},
+																					pos:        position{line: 2864, col: 11, offset: 90512},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25107,15 +25297,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1688, col: 9, offset: 54592},
+																			pos:   position{line: 1696, col: 9, offset: 54804},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1688, col: 18, offset: 54601},
+																				pos: position{line: 1696, col: 18, offset: 54813},
 																				run: (*parser).callonListElements214,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1688, col: 18, offset: 54601},
+																					pos: position{line: 1696, col: 18, offset: 54813},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1688, col: 18, offset: 54601},
+																						pos:        position{line: 1696, col: 18, offset: 54813},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25125,28 +25315,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2882, col: 8, offset: 90849},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2869, col: 12, offset: 90622},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2869, col: 13, offset: 90623},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2869, col: 13, offset: 90623},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2869, col: 20, offset: 90630},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2869, col: 29, offset: 90639},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25155,9 +25345,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
@@ -25175,10 +25365,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1472, col: 5, offset: 47542},
+							pos:   position{line: 1480, col: 5, offset: 47754},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1472, col: 20, offset: 47557},
+								pos:  position{line: 1480, col: 20, offset: 47769},
 								name: "ExtraListElements",
 							},
 						},
@@ -25188,17 +25378,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1482, col: 1, offset: 47812},
+			pos:  position{line: 1490, col: 1, offset: 48024},
 			expr: &actionExpr{
-				pos: position{line: 1482, col: 22, offset: 47833},
+				pos: position{line: 1490, col: 22, offset: 48045},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1482, col: 22, offset: 47833},
+					pos:   position{line: 1490, col: 22, offset: 48045},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1482, col: 31, offset: 47842},
+						pos: position{line: 1490, col: 31, offset: 48054},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1482, col: 32, offset: 47843},
+							pos:  position{line: 1490, col: 32, offset: 48055},
 							name: "ExtraListElement",
 						},
 					},
@@ -25207,33 +25397,33 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1486, col: 1, offset: 47923},
+			pos:  position{line: 1494, col: 1, offset: 48135},
 			expr: &actionExpr{
-				pos: position{line: 1487, col: 5, offset: 48062},
+				pos: position{line: 1495, col: 5, offset: 48274},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1487, col: 5, offset: 48062},
+					pos: position{line: 1495, col: 5, offset: 48274},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2877, col: 11, offset: 90785},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2877, col: 13, offset: 90787,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1488, col: 5, offset: 48074},
+							pos:   position{line: 1496, col: 5, offset: 48286},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1489, col: 9, offset: 48092},
+								pos: position{line: 1497, col: 9, offset: 48304},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1489, col: 13, offset: 48096},
+										pos: position{line: 1497, col: 13, offset: 48308},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1489, col: 13, offset: 48096},
+											pos: position{line: 1497, col: 13, offset: 48308},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1489, col: 13, offset: 48096},
+													pos: position{line: 1497, col: 13, offset: 48308},
 													expr: &actionExpr{
 														pos: position{line: 677, col: 14, offset: 21489},
 														run: (*parser).callonExtraListElement10,
@@ -25241,18 +25431,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21489},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2869, col: 11, offset: 90573},
+																	pos: position{line: 2877, col: 11, offset: 90785},
 																	expr: &anyMatcher{
-																		line: 2869, col: 13, offset: 90575,
+																		line: 2877, col: 13, offset: 90787,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21496},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2860, col: 10, offset: 90451},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2860, col: 10, offset: 90451},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25261,28 +25451,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2882, col: 8, offset: 90849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2869, col: 12, offset: 90622},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2869, col: 13, offset: 90623},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2869, col: 13, offset: 90623},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2869, col: 20, offset: 90630},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2869, col: 29, offset: 90639},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25291,9 +25481,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2879, col: 8, offset: 90799},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2879, col: 9, offset: 90800,
 																			},
 																		},
 																	},
@@ -25303,33 +25493,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1490, col: 13, offset: 48120},
+													pos:   position{line: 1498, col: 13, offset: 48332},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1490, col: 22, offset: 48129},
+														pos: position{line: 1498, col: 22, offset: 48341},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1570, col: 5, offset: 50647},
+																pos: position{line: 1578, col: 5, offset: 50859},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1570, col: 5, offset: 50647},
+																	pos: position{line: 1578, col: 5, offset: 50859},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1570, col: 5, offset: 50647},
+																			pos:   position{line: 1578, col: 5, offset: 50859},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1577, col: 5, offset: 50855},
+																				pos: position{line: 1585, col: 5, offset: 51067},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1577, col: 5, offset: 50855},
+																					pos: position{line: 1585, col: 5, offset: 51067},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1577, col: 5, offset: 50855},
+																							pos: position{line: 1585, col: 5, offset: 51067},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2860, col: 10, offset: 90451},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2860, col: 10, offset: 90451},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25338,27 +25528,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1577, col: 12, offset: 50862},
+																							pos:   position{line: 1585, col: 12, offset: 51074},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1579, col: 9, offset: 50925},
+																								pos: position{line: 1587, col: 9, offset: 51137},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1579, col: 9, offset: 50925},
+																										pos: position{line: 1587, col: 9, offset: 51137},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1579, col: 9, offset: 50925},
+																											pos: position{line: 1587, col: 9, offset: 51137},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1579, col: 9, offset: 50925},
+																													pos:   position{line: 1587, col: 9, offset: 51137},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1579, col: 16, offset: 50932},
+																														pos: position{line: 1587, col: 16, offset: 51144},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1579, col: 16, offset: 50932},
+																															pos: position{line: 1587, col: 16, offset: 51144},
 																															expr: &litMatcher{
-																																pos:        position{line: 1579, col: 17, offset: 50933},
+																																pos:        position{line: 1587, col: 17, offset: 51145},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -25367,22 +25557,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1583, col: 9, offset: 51033},
+																													pos: position{line: 1591, col: 9, offset: 51245},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1602, col: 11, offset: 51750},
+																										pos: position{line: 1610, col: 11, offset: 51962},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1602, col: 11, offset: 51750},
+																											pos: position{line: 1610, col: 11, offset: 51962},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1602, col: 11, offset: 51750},
+																													pos: position{line: 1610, col: 11, offset: 51962},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1602, col: 12, offset: 51751},
+																														pos:        position{line: 1610, col: 12, offset: 51963},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -25390,7 +25580,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1602, col: 20, offset: 51759},
+																													pos:        position{line: 1610, col: 20, offset: 51971},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25399,20 +25589,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1604, col: 13, offset: 51876},
+																										pos: position{line: 1612, col: 13, offset: 52088},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1604, col: 13, offset: 51876},
+																											pos: position{line: 1612, col: 13, offset: 52088},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1604, col: 14, offset: 51877},
+																													pos:        position{line: 1612, col: 14, offset: 52089},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1604, col: 21, offset: 51884},
+																													pos:        position{line: 1612, col: 21, offset: 52096},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25421,20 +25611,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1606, col: 13, offset: 52004},
+																										pos: position{line: 1614, col: 13, offset: 52216},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1606, col: 13, offset: 52004},
+																											pos: position{line: 1614, col: 13, offset: 52216},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1606, col: 14, offset: 52005},
+																													pos:        position{line: 1614, col: 14, offset: 52217},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1606, col: 21, offset: 52012},
+																													pos:        position{line: 1614, col: 21, offset: 52224},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25443,15 +25633,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1608, col: 13, offset: 52132},
+																										pos: position{line: 1616, col: 13, offset: 52344},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1608, col: 13, offset: 52132},
+																											pos: position{line: 1616, col: 13, offset: 52344},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1608, col: 13, offset: 52132},
+																													pos: position{line: 1616, col: 13, offset: 52344},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1608, col: 14, offset: 52133},
+																														pos:        position{line: 1616, col: 14, offset: 52345},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -25459,7 +25649,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1608, col: 26, offset: 52145},
+																													pos:        position{line: 1616, col: 26, offset: 52357},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25468,15 +25658,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1610, col: 13, offset: 52265},
+																										pos: position{line: 1618, col: 13, offset: 52477},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 13, offset: 52265},
+																											pos: position{line: 1618, col: 13, offset: 52477},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1610, col: 13, offset: 52265},
+																													pos: position{line: 1618, col: 13, offset: 52477},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1610, col: 14, offset: 52266},
+																														pos:        position{line: 1618, col: 14, offset: 52478},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -25484,7 +25674,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1610, col: 26, offset: 52278},
+																													pos:        position{line: 1618, col: 26, offset: 52490},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25496,12 +25686,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2864, col: 11, offset: 90512},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2864, col: 11, offset: 90512},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2864, col: 11, offset: 90512},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25514,26 +25704,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1571, col: 5, offset: 50686},
+																			pos:   position{line: 1579, col: 5, offset: 50898},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1526, col: 5, offset: 49365},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1526, col: 5, offset: 49365},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1526, col: 5, offset: 49365},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1526, col: 14, offset: 49374},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1526, col: 15, offset: 49375},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1526, col: 15, offset: 49375},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1526, col: 15, offset: 49375},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25544,28 +25734,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2869, col: 12, offset: 90622},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25574,9 +25764,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -25589,27 +25779,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1620, col: 5, offset: 52544},
+																pos: position{line: 1628, col: 5, offset: 52756},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1620, col: 5, offset: 52544},
+																	pos: position{line: 1628, col: 5, offset: 52756},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1620, col: 5, offset: 52544},
+																			pos:   position{line: 1628, col: 5, offset: 52756},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1627, col: 5, offset: 52817},
+																				pos: position{line: 1635, col: 5, offset: 53029},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 5, offset: 52817},
+																					pos: position{line: 1635, col: 5, offset: 53029},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1627, col: 5, offset: 52817},
+																							pos: position{line: 1635, col: 5, offset: 53029},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2860, col: 10, offset: 90451},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2860, col: 10, offset: 90451},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25618,24 +25808,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1628, col: 5, offset: 52829},
+																							pos:   position{line: 1636, col: 5, offset: 53041},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1629, col: 9, offset: 52845},
+																								pos: position{line: 1637, col: 9, offset: 53057},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1629, col: 10, offset: 52846},
+																									pos: position{line: 1637, col: 10, offset: 53058},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1629, col: 11, offset: 52847},
+																											pos:        position{line: 1637, col: 11, offset: 53059},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1629, col: 18, offset: 52854},
+																											pos: position{line: 1637, col: 18, offset: 53066},
 																											expr: &litMatcher{
-																												pos:        position{line: 1629, col: 19, offset: 52855},
+																												pos:        position{line: 1637, col: 19, offset: 53067},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -25646,16 +25836,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1632, col: 7, offset: 52945},
+																							pos: position{line: 1640, col: 7, offset: 53157},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2864, col: 11, offset: 90512},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2864, col: 11, offset: 90512},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2864, col: 11, offset: 90512},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25668,56 +25858,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1621, col: 5, offset: 52585},
+																			pos:   position{line: 1629, col: 5, offset: 52797},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1621, col: 16, offset: 52596},
+																				pos: position{line: 1629, col: 16, offset: 52808},
 																				expr: &actionExpr{
-																					pos: position{line: 1642, col: 5, offset: 53210},
+																					pos: position{line: 1650, col: 5, offset: 53422},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1642, col: 5, offset: 53210},
+																						pos: position{line: 1650, col: 5, offset: 53422},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1642, col: 5, offset: 53210},
+																								pos: position{line: 1650, col: 5, offset: 53422},
 																								expr: &litMatcher{
-																									pos:        position{line: 1642, col: 6, offset: 53211},
+																									pos:        position{line: 1650, col: 6, offset: 53423},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1642, col: 10, offset: 53215},
+																								pos:   position{line: 1650, col: 10, offset: 53427},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1643, col: 7, offset: 53229},
+																									pos: position{line: 1651, col: 7, offset: 53441},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1643, col: 7, offset: 53229},
+																											pos: position{line: 1651, col: 7, offset: 53441},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1643, col: 7, offset: 53229},
+																												pos:        position{line: 1651, col: 7, offset: 53441},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1644, col: 7, offset: 53274},
+																											pos: position{line: 1652, col: 7, offset: 53486},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1644, col: 7, offset: 53274},
+																												pos:        position{line: 1652, col: 7, offset: 53486},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1645, col: 7, offset: 53317},
+																											pos: position{line: 1653, col: 7, offset: 53529},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1645, col: 7, offset: 53317},
+																												pos:        position{line: 1653, col: 7, offset: 53529},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -25727,12 +25917,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2864, col: 11, offset: 90512},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2864, col: 11, offset: 90512},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2856, col: 11, offset: 90300},
+																										pos:        position{line: 2864, col: 11, offset: 90512},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -25746,26 +25936,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1622, col: 5, offset: 52635},
+																			pos:   position{line: 1630, col: 5, offset: 52847},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1526, col: 5, offset: 49365},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1526, col: 5, offset: 49365},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1526, col: 5, offset: 49365},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1526, col: 14, offset: 49374},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1526, col: 15, offset: 49375},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1526, col: 15, offset: 49375},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1526, col: 15, offset: 49375},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25776,28 +25966,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2869, col: 12, offset: 90622},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25806,9 +25996,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -25821,36 +26011,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1710, col: 5, offset: 55157},
+																pos: position{line: 1718, col: 5, offset: 55369},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1710, col: 5, offset: 55157},
+																	pos: position{line: 1718, col: 5, offset: 55369},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1710, col: 5, offset: 55157},
+																			pos:   position{line: 1718, col: 5, offset: 55369},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1716, col: 5, offset: 55354},
+																				pos: position{line: 1724, col: 5, offset: 55566},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1716, col: 5, offset: 55354},
+																					pos: position{line: 1724, col: 5, offset: 55566},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 5, offset: 55354},
+																							pos:        position{line: 1724, col: 5, offset: 55566},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1716, col: 9, offset: 55358},
+																							pos:   position{line: 1724, col: 9, offset: 55570},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1716, col: 14, offset: 55363},
+																								pos: position{line: 1724, col: 14, offset: 55575},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1716, col: 14, offset: 55363},
+																									pos: position{line: 1724, col: 14, offset: 55575},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1716, col: 14, offset: 55363},
+																										pos:        position{line: 1724, col: 14, offset: 55575},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -25860,18 +26050,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 62, offset: 55411},
+																							pos:        position{line: 1724, col: 62, offset: 55623},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2864, col: 11, offset: 90512},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2864, col: 11, offset: 90512},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2864, col: 11, offset: 90512},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25884,26 +26074,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1711, col: 5, offset: 55193},
+																			pos:   position{line: 1719, col: 5, offset: 55405},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1526, col: 5, offset: 49365},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1526, col: 5, offset: 49365},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1526, col: 5, offset: 49365},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1526, col: 14, offset: 49374},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1526, col: 15, offset: 49375},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1526, col: 15, offset: 49375},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1526, col: 15, offset: 49375},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25914,28 +26104,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2869, col: 12, offset: 90622},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25944,9 +26134,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -25959,40 +26149,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1654, col: 5, offset: 53510},
+																pos: position{line: 1662, col: 5, offset: 53722},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1654, col: 5, offset: 53510},
+																	pos: position{line: 1662, col: 5, offset: 53722},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1654, col: 5, offset: 53510},
+																			pos:   position{line: 1662, col: 5, offset: 53722},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1662, col: 5, offset: 53836},
+																				pos: position{line: 1670, col: 5, offset: 54048},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1662, col: 5, offset: 53836},
+																					pos: position{line: 1670, col: 5, offset: 54048},
 																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 6, offset: 53837},
+																						pos: position{line: 1670, col: 6, offset: 54049},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1662, col: 6, offset: 53837},
+																								pos: position{line: 1670, col: 6, offset: 54049},
 																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 5, offset: 53987},
+																									pos: position{line: 1675, col: 5, offset: 54199},
 																									run: (*parser).callonExtraListElement174,
 																									expr: &seqExpr{
-																										pos: position{line: 1667, col: 5, offset: 53987},
+																										pos: position{line: 1675, col: 5, offset: 54199},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1667, col: 5, offset: 53987},
+																												pos:   position{line: 1675, col: 5, offset: 54199},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1667, col: 16, offset: 53998},
+																													pos: position{line: 1675, col: 16, offset: 54210},
 																													run: (*parser).callonExtraListElement177,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1667, col: 16, offset: 53998},
+																														pos: position{line: 1675, col: 16, offset: 54210},
 																														expr: &litMatcher{
-																															pos:        position{line: 1667, col: 17, offset: 53999},
+																															pos:        position{line: 1675, col: 17, offset: 54211},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -26001,7 +26191,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1670, col: 5, offset: 54056},
+																												pos: position{line: 1678, col: 5, offset: 54268},
 																												run: (*parser).callonExtraListElement180,
 																											},
 																										},
@@ -26009,30 +26199,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1662, col: 35, offset: 53866},
+																								pos: position{line: 1670, col: 35, offset: 54078},
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2882, col: 8, offset: 90849},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2869, col: 12, offset: 90622},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2869, col: 13, offset: 90623},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2869, col: 13, offset: 90623},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2869, col: 20, offset: 90630},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2869, col: 29, offset: 90639},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26041,16 +26231,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2879, col: 8, offset: 90799},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2879, col: 9, offset: 90800,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1662, col: 40, offset: 53871,
+																								line: 1670, col: 40, offset: 54083,
 																							},
 																						},
 																					},
@@ -26058,24 +26248,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1655, col: 5, offset: 53545},
+																			pos:   position{line: 1663, col: 5, offset: 53757},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
+																				pos: position{line: 1675, col: 5, offset: 54199},
 																				run: (*parser).callonExtraListElement192,
 																				expr: &seqExpr{
-																					pos: position{line: 1667, col: 5, offset: 53987},
+																					pos: position{line: 1675, col: 5, offset: 54199},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 53987},
+																							pos:   position{line: 1675, col: 5, offset: 54199},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
+																								pos: position{line: 1675, col: 16, offset: 54210},
 																								run: (*parser).callonExtraListElement195,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1667, col: 16, offset: 53998},
+																									pos: position{line: 1675, col: 16, offset: 54210},
 																									expr: &litMatcher{
-																										pos:        position{line: 1667, col: 17, offset: 53999},
+																										pos:        position{line: 1675, col: 17, offset: 54211},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26084,7 +26274,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1670, col: 5, offset: 54056},
+																							pos: position{line: 1678, col: 5, offset: 54268},
 																							run: (*parser).callonExtraListElement198,
 																						},
 																					},
@@ -26092,24 +26282,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1656, col: 5, offset: 53590},
+																			pos:   position{line: 1664, col: 5, offset: 53802},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1678, col: 5, offset: 54305},
+																				pos: position{line: 1686, col: 5, offset: 54517},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1680, col: 9, offset: 54371},
+																						pos: position{line: 1688, col: 9, offset: 54583},
 																						run: (*parser).callonExtraListElement201,
 																						expr: &seqExpr{
-																							pos: position{line: 1680, col: 9, offset: 54371},
+																							pos: position{line: 1688, col: 9, offset: 54583},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1680, col: 9, offset: 54371},
+																									pos: position{line: 1688, col: 9, offset: 54583},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2860, col: 10, offset: 90451},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2860, col: 10, offset: 90451},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26118,28 +26308,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2882, col: 8, offset: 90849},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2869, col: 12, offset: 90622},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2869, col: 13, offset: 90623},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2869, col: 13, offset: 90623},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2869, col: 20, offset: 90630},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2869, col: 29, offset: 90639},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26148,15 +26338,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2879, col: 8, offset: 90799},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2879, col: 9, offset: 90800,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1681, col: 9, offset: 54390},
+																									pos: position{line: 1689, col: 9, offset: 54602},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21489},
 																										run: (*parser).callonExtraListElement215,
@@ -26164,18 +26354,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21489},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2869, col: 11, offset: 90573},
+																													pos: position{line: 2877, col: 11, offset: 90785},
 																													expr: &anyMatcher{
-																														line: 2869, col: 13, offset: 90575,
+																														line: 2877, col: 13, offset: 90787,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21496},
 																													expr: &actionExpr{
-																														pos: position{line: 2852, col: 10, offset: 90239},
+																														pos: position{line: 2860, col: 10, offset: 90451},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2852, col: 10, offset: 90239},
+																															pos:        position{line: 2860, col: 10, offset: 90451},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26184,28 +26374,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2874, col: 8, offset: 90637},
+																													pos: position{line: 2882, col: 8, offset: 90849},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2861, col: 12, offset: 90410},
+																															pos: position{line: 2869, col: 12, offset: 90622},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2861, col: 13, offset: 90411},
+																																pos: position{line: 2869, col: 13, offset: 90623},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 13, offset: 90411},
+																																		pos:        position{line: 2869, col: 13, offset: 90623},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 20, offset: 90418},
+																																		pos:        position{line: 2869, col: 20, offset: 90630},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 29, offset: 90427},
+																																		pos:        position{line: 2869, col: 29, offset: 90639},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26214,9 +26404,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2871, col: 8, offset: 90587},
+																															pos: position{line: 2879, col: 8, offset: 90799},
 																															expr: &anyMatcher{
-																																line: 2871, col: 9, offset: 90588,
+																																line: 2879, col: 9, offset: 90800,
 																															},
 																														},
 																													},
@@ -26229,18 +26419,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1687, col: 9, offset: 54519},
+																						pos: position{line: 1695, col: 9, offset: 54731},
 																						run: (*parser).callonExtraListElement230,
 																						expr: &seqExpr{
-																							pos: position{line: 1687, col: 9, offset: 54519},
+																							pos: position{line: 1695, col: 9, offset: 54731},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2864, col: 11, offset: 90512},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2856, col: 11, offset: 90300},
+																										pos: position{line: 2864, col: 11, offset: 90512},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2856, col: 11, offset: 90300},
+																											pos:        position{line: 2864, col: 11, offset: 90512},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26249,15 +26439,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1688, col: 9, offset: 54592},
+																									pos:   position{line: 1696, col: 9, offset: 54804},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1688, col: 18, offset: 54601},
+																										pos: position{line: 1696, col: 18, offset: 54813},
 																										run: (*parser).callonExtraListElement236,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1688, col: 18, offset: 54601},
+																											pos: position{line: 1696, col: 18, offset: 54813},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1688, col: 18, offset: 54601},
+																												pos:        position{line: 1696, col: 18, offset: 54813},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26267,28 +26457,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2882, col: 8, offset: 90849},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2869, col: 12, offset: 90622},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2869, col: 13, offset: 90623},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2869, col: 13, offset: 90623},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2869, col: 20, offset: 90630},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2869, col: 29, offset: 90639},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26297,9 +26487,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2879, col: 8, offset: 90799},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2879, col: 9, offset: 90800,
 																											},
 																										},
 																									},
@@ -26320,50 +26510,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1493, col: 13, offset: 48280},
+										pos: position{line: 1501, col: 13, offset: 48492},
 										run: (*parser).callonExtraListElement247,
 										expr: &seqExpr{
-											pos: position{line: 1493, col: 13, offset: 48280},
+											pos: position{line: 1501, col: 13, offset: 48492},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1493, col: 13, offset: 48280},
+													pos:   position{line: 1501, col: 13, offset: 48492},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1493, col: 24, offset: 48291},
+														pos: position{line: 1501, col: 24, offset: 48503},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1493, col: 25, offset: 48292},
+															pos:  position{line: 1501, col: 25, offset: 48504},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1494, col: 13, offset: 48323},
+													pos:   position{line: 1502, col: 13, offset: 48535},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1494, col: 22, offset: 48332},
+														pos: position{line: 1502, col: 22, offset: 48544},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1570, col: 5, offset: 50647},
+																pos: position{line: 1578, col: 5, offset: 50859},
 																run: (*parser).callonExtraListElement254,
 																expr: &seqExpr{
-																	pos: position{line: 1570, col: 5, offset: 50647},
+																	pos: position{line: 1578, col: 5, offset: 50859},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1570, col: 5, offset: 50647},
+																			pos:   position{line: 1578, col: 5, offset: 50859},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1577, col: 5, offset: 50855},
+																				pos: position{line: 1585, col: 5, offset: 51067},
 																				run: (*parser).callonExtraListElement257,
 																				expr: &seqExpr{
-																					pos: position{line: 1577, col: 5, offset: 50855},
+																					pos: position{line: 1585, col: 5, offset: 51067},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1577, col: 5, offset: 50855},
+																							pos: position{line: 1585, col: 5, offset: 51067},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2860, col: 10, offset: 90451},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2860, col: 10, offset: 90451},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26372,27 +26562,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1577, col: 12, offset: 50862},
+																							pos:   position{line: 1585, col: 12, offset: 51074},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1579, col: 9, offset: 50925},
+																								pos: position{line: 1587, col: 9, offset: 51137},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1579, col: 9, offset: 50925},
+																										pos: position{line: 1587, col: 9, offset: 51137},
 																										run: (*parser).callonExtraListElement264,
 																										expr: &seqExpr{
-																											pos: position{line: 1579, col: 9, offset: 50925},
+																											pos: position{line: 1587, col: 9, offset: 51137},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1579, col: 9, offset: 50925},
+																													pos:   position{line: 1587, col: 9, offset: 51137},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1579, col: 16, offset: 50932},
+																														pos: position{line: 1587, col: 16, offset: 51144},
 																														run: (*parser).callonExtraListElement267,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1579, col: 16, offset: 50932},
+																															pos: position{line: 1587, col: 16, offset: 51144},
 																															expr: &litMatcher{
-																																pos:        position{line: 1579, col: 17, offset: 50933},
+																																pos:        position{line: 1587, col: 17, offset: 51145},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26401,22 +26591,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1583, col: 9, offset: 51033},
+																													pos: position{line: 1591, col: 9, offset: 51245},
 																													run: (*parser).callonExtraListElement270,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1602, col: 11, offset: 51750},
+																										pos: position{line: 1610, col: 11, offset: 51962},
 																										run: (*parser).callonExtraListElement271,
 																										expr: &seqExpr{
-																											pos: position{line: 1602, col: 11, offset: 51750},
+																											pos: position{line: 1610, col: 11, offset: 51962},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1602, col: 11, offset: 51750},
+																													pos: position{line: 1610, col: 11, offset: 51962},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1602, col: 12, offset: 51751},
+																														pos:        position{line: 1610, col: 12, offset: 51963},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26424,7 +26614,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1602, col: 20, offset: 51759},
+																													pos:        position{line: 1610, col: 20, offset: 51971},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26433,20 +26623,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1604, col: 13, offset: 51876},
+																										pos: position{line: 1612, col: 13, offset: 52088},
 																										run: (*parser).callonExtraListElement276,
 																										expr: &seqExpr{
-																											pos: position{line: 1604, col: 13, offset: 51876},
+																											pos: position{line: 1612, col: 13, offset: 52088},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1604, col: 14, offset: 51877},
+																													pos:        position{line: 1612, col: 14, offset: 52089},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1604, col: 21, offset: 51884},
+																													pos:        position{line: 1612, col: 21, offset: 52096},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26455,20 +26645,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1606, col: 13, offset: 52004},
+																										pos: position{line: 1614, col: 13, offset: 52216},
 																										run: (*parser).callonExtraListElement280,
 																										expr: &seqExpr{
-																											pos: position{line: 1606, col: 13, offset: 52004},
+																											pos: position{line: 1614, col: 13, offset: 52216},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1606, col: 14, offset: 52005},
+																													pos:        position{line: 1614, col: 14, offset: 52217},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1606, col: 21, offset: 52012},
+																													pos:        position{line: 1614, col: 21, offset: 52224},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26477,15 +26667,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1608, col: 13, offset: 52132},
+																										pos: position{line: 1616, col: 13, offset: 52344},
 																										run: (*parser).callonExtraListElement284,
 																										expr: &seqExpr{
-																											pos: position{line: 1608, col: 13, offset: 52132},
+																											pos: position{line: 1616, col: 13, offset: 52344},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1608, col: 13, offset: 52132},
+																													pos: position{line: 1616, col: 13, offset: 52344},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1608, col: 14, offset: 52133},
+																														pos:        position{line: 1616, col: 14, offset: 52345},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26493,7 +26683,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1608, col: 26, offset: 52145},
+																													pos:        position{line: 1616, col: 26, offset: 52357},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26502,15 +26692,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1610, col: 13, offset: 52265},
+																										pos: position{line: 1618, col: 13, offset: 52477},
 																										run: (*parser).callonExtraListElement289,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 13, offset: 52265},
+																											pos: position{line: 1618, col: 13, offset: 52477},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1610, col: 13, offset: 52265},
+																													pos: position{line: 1618, col: 13, offset: 52477},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1610, col: 14, offset: 52266},
+																														pos:        position{line: 1618, col: 14, offset: 52478},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26518,7 +26708,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1610, col: 26, offset: 52278},
+																													pos:        position{line: 1618, col: 26, offset: 52490},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26530,12 +26720,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2864, col: 11, offset: 90512},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2864, col: 11, offset: 90512},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2864, col: 11, offset: 90512},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26548,26 +26738,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1571, col: 5, offset: 50686},
+																			pos:   position{line: 1579, col: 5, offset: 50898},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1526, col: 5, offset: 49365},
 																				run: (*parser).callonExtraListElement298,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1526, col: 5, offset: 49365},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1526, col: 5, offset: 49365},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1526, col: 14, offset: 49374},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1526, col: 15, offset: 49375},
 																									run: (*parser).callonExtraListElement302,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1526, col: 15, offset: 49375},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1526, col: 15, offset: 49375},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26578,28 +26768,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2869, col: 12, offset: 90622},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26608,9 +26798,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -26623,27 +26813,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1620, col: 5, offset: 52544},
+																pos: position{line: 1628, col: 5, offset: 52756},
 																run: (*parser).callonExtraListElement313,
 																expr: &seqExpr{
-																	pos: position{line: 1620, col: 5, offset: 52544},
+																	pos: position{line: 1628, col: 5, offset: 52756},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1620, col: 5, offset: 52544},
+																			pos:   position{line: 1628, col: 5, offset: 52756},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1627, col: 5, offset: 52817},
+																				pos: position{line: 1635, col: 5, offset: 53029},
 																				run: (*parser).callonExtraListElement316,
 																				expr: &seqExpr{
-																					pos: position{line: 1627, col: 5, offset: 52817},
+																					pos: position{line: 1635, col: 5, offset: 53029},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1627, col: 5, offset: 52817},
+																							pos: position{line: 1635, col: 5, offset: 53029},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2860, col: 10, offset: 90451},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2860, col: 10, offset: 90451},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26652,24 +26842,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1628, col: 5, offset: 52829},
+																							pos:   position{line: 1636, col: 5, offset: 53041},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1629, col: 9, offset: 52845},
+																								pos: position{line: 1637, col: 9, offset: 53057},
 																								run: (*parser).callonExtraListElement322,
 																								expr: &choiceExpr{
-																									pos: position{line: 1629, col: 10, offset: 52846},
+																									pos: position{line: 1637, col: 10, offset: 53058},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1629, col: 11, offset: 52847},
+																											pos:        position{line: 1637, col: 11, offset: 53059},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1629, col: 18, offset: 52854},
+																											pos: position{line: 1637, col: 18, offset: 53066},
 																											expr: &litMatcher{
-																												pos:        position{line: 1629, col: 19, offset: 52855},
+																												pos:        position{line: 1637, col: 19, offset: 53067},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26680,16 +26870,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1632, col: 7, offset: 52945},
+																							pos: position{line: 1640, col: 7, offset: 53157},
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2864, col: 11, offset: 90512},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2864, col: 11, offset: 90512},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2864, col: 11, offset: 90512},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26702,56 +26892,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1621, col: 5, offset: 52585},
+																			pos:   position{line: 1629, col: 5, offset: 52797},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1621, col: 16, offset: 52596},
+																				pos: position{line: 1629, col: 16, offset: 52808},
 																				expr: &actionExpr{
-																					pos: position{line: 1642, col: 5, offset: 53210},
+																					pos: position{line: 1650, col: 5, offset: 53422},
 																					run: (*parser).callonExtraListElement333,
 																					expr: &seqExpr{
-																						pos: position{line: 1642, col: 5, offset: 53210},
+																						pos: position{line: 1650, col: 5, offset: 53422},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1642, col: 5, offset: 53210},
+																								pos: position{line: 1650, col: 5, offset: 53422},
 																								expr: &litMatcher{
-																									pos:        position{line: 1642, col: 6, offset: 53211},
+																									pos:        position{line: 1650, col: 6, offset: 53423},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1642, col: 10, offset: 53215},
+																								pos:   position{line: 1650, col: 10, offset: 53427},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1643, col: 7, offset: 53229},
+																									pos: position{line: 1651, col: 7, offset: 53441},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1643, col: 7, offset: 53229},
+																											pos: position{line: 1651, col: 7, offset: 53441},
 																											run: (*parser).callonExtraListElement339,
 																											expr: &litMatcher{
-																												pos:        position{line: 1643, col: 7, offset: 53229},
+																												pos:        position{line: 1651, col: 7, offset: 53441},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1644, col: 7, offset: 53274},
+																											pos: position{line: 1652, col: 7, offset: 53486},
 																											run: (*parser).callonExtraListElement341,
 																											expr: &litMatcher{
-																												pos:        position{line: 1644, col: 7, offset: 53274},
+																												pos:        position{line: 1652, col: 7, offset: 53486},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1645, col: 7, offset: 53317},
+																											pos: position{line: 1653, col: 7, offset: 53529},
 																											run: (*parser).callonExtraListElement343,
 																											expr: &litMatcher{
-																												pos:        position{line: 1645, col: 7, offset: 53317},
+																												pos:        position{line: 1653, col: 7, offset: 53529},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26761,12 +26951,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2864, col: 11, offset: 90512},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2864, col: 11, offset: 90512},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2856, col: 11, offset: 90300},
+																										pos:        position{line: 2864, col: 11, offset: 90512},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26780,26 +26970,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1622, col: 5, offset: 52635},
+																			pos:   position{line: 1630, col: 5, offset: 52847},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1526, col: 5, offset: 49365},
 																				run: (*parser).callonExtraListElement349,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1526, col: 5, offset: 49365},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1526, col: 5, offset: 49365},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1526, col: 14, offset: 49374},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1526, col: 15, offset: 49375},
 																									run: (*parser).callonExtraListElement353,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1526, col: 15, offset: 49375},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1526, col: 15, offset: 49375},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26810,28 +27000,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2869, col: 12, offset: 90622},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26840,9 +27030,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -26855,36 +27045,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1710, col: 5, offset: 55157},
+																pos: position{line: 1718, col: 5, offset: 55369},
 																run: (*parser).callonExtraListElement364,
 																expr: &seqExpr{
-																	pos: position{line: 1710, col: 5, offset: 55157},
+																	pos: position{line: 1718, col: 5, offset: 55369},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1710, col: 5, offset: 55157},
+																			pos:   position{line: 1718, col: 5, offset: 55369},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1716, col: 5, offset: 55354},
+																				pos: position{line: 1724, col: 5, offset: 55566},
 																				run: (*parser).callonExtraListElement367,
 																				expr: &seqExpr{
-																					pos: position{line: 1716, col: 5, offset: 55354},
+																					pos: position{line: 1724, col: 5, offset: 55566},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 5, offset: 55354},
+																							pos:        position{line: 1724, col: 5, offset: 55566},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1716, col: 9, offset: 55358},
+																							pos:   position{line: 1724, col: 9, offset: 55570},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1716, col: 14, offset: 55363},
+																								pos: position{line: 1724, col: 14, offset: 55575},
 																								run: (*parser).callonExtraListElement371,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1716, col: 14, offset: 55363},
+																									pos: position{line: 1724, col: 14, offset: 55575},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1716, col: 14, offset: 55363},
+																										pos:        position{line: 1724, col: 14, offset: 55575},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26894,18 +27084,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1716, col: 62, offset: 55411},
+																							pos:        position{line: 1724, col: 62, offset: 55623},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
+																							pos: position{line: 2864, col: 11, offset: 90512},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2864, col: 11, offset: 90512},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2864, col: 11, offset: 90512},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26918,26 +27108,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1711, col: 5, offset: 55193},
+																			pos:   position{line: 1719, col: 5, offset: 55405},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1518, col: 5, offset: 49153},
+																				pos: position{line: 1526, col: 5, offset: 49365},
 																				run: (*parser).callonExtraListElement379,
 																				expr: &seqExpr{
-																					pos: position{line: 1518, col: 5, offset: 49153},
+																					pos: position{line: 1526, col: 5, offset: 49365},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1518, col: 5, offset: 49153},
+																							pos:   position{line: 1526, col: 5, offset: 49365},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1518, col: 14, offset: 49162},
+																								pos: position{line: 1526, col: 14, offset: 49374},
 																								expr: &actionExpr{
-																									pos: position{line: 1518, col: 15, offset: 49163},
+																									pos: position{line: 1526, col: 15, offset: 49375},
 																									run: (*parser).callonExtraListElement383,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1518, col: 15, offset: 49163},
+																										pos: position{line: 1526, col: 15, offset: 49375},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1518, col: 15, offset: 49163},
+																											pos:        position{line: 1526, col: 15, offset: 49375},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26948,28 +27138,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2869, col: 12, offset: 90622},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26978,9 +27168,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -26993,40 +27183,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1654, col: 5, offset: 53510},
+																pos: position{line: 1662, col: 5, offset: 53722},
 																run: (*parser).callonExtraListElement394,
 																expr: &seqExpr{
-																	pos: position{line: 1654, col: 5, offset: 53510},
+																	pos: position{line: 1662, col: 5, offset: 53722},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1654, col: 5, offset: 53510},
+																			pos:   position{line: 1662, col: 5, offset: 53722},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1662, col: 5, offset: 53836},
+																				pos: position{line: 1670, col: 5, offset: 54048},
 																				run: (*parser).callonExtraListElement397,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1662, col: 5, offset: 53836},
+																					pos: position{line: 1670, col: 5, offset: 54048},
 																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 6, offset: 53837},
+																						pos: position{line: 1670, col: 6, offset: 54049},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1662, col: 6, offset: 53837},
+																								pos: position{line: 1670, col: 6, offset: 54049},
 																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 5, offset: 53987},
+																									pos: position{line: 1675, col: 5, offset: 54199},
 																									run: (*parser).callonExtraListElement401,
 																									expr: &seqExpr{
-																										pos: position{line: 1667, col: 5, offset: 53987},
+																										pos: position{line: 1675, col: 5, offset: 54199},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1667, col: 5, offset: 53987},
+																												pos:   position{line: 1675, col: 5, offset: 54199},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1667, col: 16, offset: 53998},
+																													pos: position{line: 1675, col: 16, offset: 54210},
 																													run: (*parser).callonExtraListElement404,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1667, col: 16, offset: 53998},
+																														pos: position{line: 1675, col: 16, offset: 54210},
 																														expr: &litMatcher{
-																															pos:        position{line: 1667, col: 17, offset: 53999},
+																															pos:        position{line: 1675, col: 17, offset: 54211},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -27035,7 +27225,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1670, col: 5, offset: 54056},
+																												pos: position{line: 1678, col: 5, offset: 54268},
 																												run: (*parser).callonExtraListElement407,
 																											},
 																										},
@@ -27043,30 +27233,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1662, col: 35, offset: 53866},
+																								pos: position{line: 1670, col: 35, offset: 54078},
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2882, col: 8, offset: 90849},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2869, col: 12, offset: 90622},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2869, col: 13, offset: 90623},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2869, col: 13, offset: 90623},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2869, col: 20, offset: 90630},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2869, col: 29, offset: 90639},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27075,16 +27265,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2879, col: 8, offset: 90799},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2879, col: 9, offset: 90800,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1662, col: 40, offset: 53871,
+																								line: 1670, col: 40, offset: 54083,
 																							},
 																						},
 																					},
@@ -27092,24 +27282,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1655, col: 5, offset: 53545},
+																			pos:   position{line: 1663, col: 5, offset: 53757},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
+																				pos: position{line: 1675, col: 5, offset: 54199},
 																				run: (*parser).callonExtraListElement419,
 																				expr: &seqExpr{
-																					pos: position{line: 1667, col: 5, offset: 53987},
+																					pos: position{line: 1675, col: 5, offset: 54199},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 53987},
+																							pos:   position{line: 1675, col: 5, offset: 54199},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
+																								pos: position{line: 1675, col: 16, offset: 54210},
 																								run: (*parser).callonExtraListElement422,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1667, col: 16, offset: 53998},
+																									pos: position{line: 1675, col: 16, offset: 54210},
 																									expr: &litMatcher{
-																										pos:        position{line: 1667, col: 17, offset: 53999},
+																										pos:        position{line: 1675, col: 17, offset: 54211},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27118,7 +27308,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1670, col: 5, offset: 54056},
+																							pos: position{line: 1678, col: 5, offset: 54268},
 																							run: (*parser).callonExtraListElement425,
 																						},
 																					},
@@ -27126,24 +27316,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1656, col: 5, offset: 53590},
+																			pos:   position{line: 1664, col: 5, offset: 53802},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1678, col: 5, offset: 54305},
+																				pos: position{line: 1686, col: 5, offset: 54517},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1680, col: 9, offset: 54371},
+																						pos: position{line: 1688, col: 9, offset: 54583},
 																						run: (*parser).callonExtraListElement428,
 																						expr: &seqExpr{
-																							pos: position{line: 1680, col: 9, offset: 54371},
+																							pos: position{line: 1688, col: 9, offset: 54583},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1680, col: 9, offset: 54371},
+																									pos: position{line: 1688, col: 9, offset: 54583},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
+																										pos: position{line: 2860, col: 10, offset: 90451},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2860, col: 10, offset: 90451},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27152,28 +27342,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2882, col: 8, offset: 90849},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2869, col: 12, offset: 90622},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2869, col: 13, offset: 90623},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2869, col: 13, offset: 90623},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2869, col: 20, offset: 90630},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2869, col: 29, offset: 90639},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27182,15 +27372,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2879, col: 8, offset: 90799},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2879, col: 9, offset: 90800,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1681, col: 9, offset: 54390},
+																									pos: position{line: 1689, col: 9, offset: 54602},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21489},
 																										run: (*parser).callonExtraListElement442,
@@ -27198,18 +27388,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21489},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2869, col: 11, offset: 90573},
+																													pos: position{line: 2877, col: 11, offset: 90785},
 																													expr: &anyMatcher{
-																														line: 2869, col: 13, offset: 90575,
+																														line: 2877, col: 13, offset: 90787,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21496},
 																													expr: &actionExpr{
-																														pos: position{line: 2852, col: 10, offset: 90239},
+																														pos: position{line: 2860, col: 10, offset: 90451},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2852, col: 10, offset: 90239},
+																															pos:        position{line: 2860, col: 10, offset: 90451},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27218,28 +27408,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2874, col: 8, offset: 90637},
+																													pos: position{line: 2882, col: 8, offset: 90849},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2861, col: 12, offset: 90410},
+																															pos: position{line: 2869, col: 12, offset: 90622},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2861, col: 13, offset: 90411},
+																																pos: position{line: 2869, col: 13, offset: 90623},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 13, offset: 90411},
+																																		pos:        position{line: 2869, col: 13, offset: 90623},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 20, offset: 90418},
+																																		pos:        position{line: 2869, col: 20, offset: 90630},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2861, col: 29, offset: 90427},
+																																		pos:        position{line: 2869, col: 29, offset: 90639},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27248,9 +27438,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2871, col: 8, offset: 90587},
+																															pos: position{line: 2879, col: 8, offset: 90799},
 																															expr: &anyMatcher{
-																																line: 2871, col: 9, offset: 90588,
+																																line: 2879, col: 9, offset: 90800,
 																															},
 																														},
 																													},
@@ -27263,18 +27453,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1687, col: 9, offset: 54519},
+																						pos: position{line: 1695, col: 9, offset: 54731},
 																						run: (*parser).callonExtraListElement457,
 																						expr: &seqExpr{
-																							pos: position{line: 1687, col: 9, offset: 54519},
+																							pos: position{line: 1695, col: 9, offset: 54731},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2864, col: 11, offset: 90512},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2856, col: 11, offset: 90300},
+																										pos: position{line: 2864, col: 11, offset: 90512},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2856, col: 11, offset: 90300},
+																											pos:        position{line: 2864, col: 11, offset: 90512},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27283,15 +27473,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1688, col: 9, offset: 54592},
+																									pos:   position{line: 1696, col: 9, offset: 54804},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1688, col: 18, offset: 54601},
+																										pos: position{line: 1696, col: 18, offset: 54813},
 																										run: (*parser).callonExtraListElement463,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1688, col: 18, offset: 54601},
+																											pos: position{line: 1696, col: 18, offset: 54813},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1688, col: 18, offset: 54601},
+																												pos:        position{line: 1696, col: 18, offset: 54813},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27301,28 +27491,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2882, col: 8, offset: 90849},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
+																											pos: position{line: 2869, col: 12, offset: 90622},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2869, col: 13, offset: 90623},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2869, col: 13, offset: 90623},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2869, col: 20, offset: 90630},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2869, col: 29, offset: 90639},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27331,9 +27521,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2879, col: 8, offset: 90799},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2879, col: 9, offset: 90800,
 																											},
 																										},
 																									},
@@ -27354,40 +27544,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1497, col: 11, offset: 48517},
+										pos:  position{line: 1505, col: 11, offset: 48729},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79224},
+										pos: position{line: 2470, col: 22, offset: 79436},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2470, col: 22, offset: 79436},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79445},
+													pos:        position{line: 2475, col: 31, offset: 79657},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79450},
+													pos: position{line: 2475, col: 36, offset: 79662},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79451},
+														pos:        position{line: 2475, col: 37, offset: 79663},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79251},
+													pos:   position{line: 2470, col: 49, offset: 79463},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2798, col: 13, offset: 88765},
+														pos: position{line: 2806, col: 13, offset: 88977},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2806, col: 13, offset: 88977},
 															expr: &charClassMatcher{
-																pos:        position{line: 2798, col: 13, offset: 88765},
+																pos:        position{line: 2806, col: 13, offset: 88977},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -27397,28 +27587,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2882, col: 8, offset: 90849},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2869, col: 12, offset: 90622},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2869, col: 13, offset: 90623},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2869, col: 13, offset: 90623},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2869, col: 20, offset: 90630},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2869, col: 29, offset: 90639},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -27427,9 +27617,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2879, col: 8, offset: 90799},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2879, col: 9, offset: 90800,
 															},
 														},
 													},
@@ -27438,13 +27628,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1505, col: 5, offset: 48795},
+										pos: position{line: 1513, col: 5, offset: 49007},
 										run: (*parser).callonExtraListElement492,
 										expr: &seqExpr{
-											pos: position{line: 1505, col: 5, offset: 48795},
+											pos: position{line: 1513, col: 5, offset: 49007},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1505, col: 5, offset: 48795},
+													pos: position{line: 1513, col: 5, offset: 49007},
 													expr: &actionExpr{
 														pos: position{line: 677, col: 14, offset: 21489},
 														run: (*parser).callonExtraListElement495,
@@ -27452,18 +27642,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21489},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2869, col: 11, offset: 90573},
+																	pos: position{line: 2877, col: 11, offset: 90785},
 																	expr: &anyMatcher{
-																		line: 2869, col: 13, offset: 90575,
+																		line: 2877, col: 13, offset: 90787,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21496},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2860, col: 10, offset: 90451},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2860, col: 10, offset: 90451},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27472,28 +27662,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2882, col: 8, offset: 90849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2869, col: 12, offset: 90622},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2869, col: 13, offset: 90623},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2869, col: 13, offset: 90623},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2869, col: 20, offset: 90630},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2869, col: 29, offset: 90639},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27502,9 +27692,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2879, col: 8, offset: 90799},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2879, col: 9, offset: 90800,
 																			},
 																		},
 																	},
@@ -27514,23 +27704,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1506, col: 5, offset: 48810},
+													pos: position{line: 1514, col: 5, offset: 49022},
 													expr: &seqExpr{
-														pos: position{line: 1536, col: 27, offset: 49636},
+														pos: position{line: 1544, col: 27, offset: 49848},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1536, col: 27, offset: 49636},
+																pos:        position{line: 1544, col: 27, offset: 49848},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1536, col: 31, offset: 49640},
+																pos: position{line: 1544, col: 31, offset: 49852},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2860, col: 10, offset: 90451},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2860, col: 10, offset: 90451},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -27539,25 +27729,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2869, col: 12, offset: 90622},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2869, col: 13, offset: 90623},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2869, col: 13, offset: 90623},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2869, col: 20, offset: 90630},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2869, col: 29, offset: 90639},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -27569,20 +27759,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1507, col: 5, offset: 48838},
+													pos: position{line: 1515, col: 5, offset: 49050},
 													expr: &actionExpr{
-														pos: position{line: 1577, col: 5, offset: 50855},
+														pos: position{line: 1585, col: 5, offset: 51067},
 														run: (*parser).callonExtraListElement522,
 														expr: &seqExpr{
-															pos: position{line: 1577, col: 5, offset: 50855},
+															pos: position{line: 1585, col: 5, offset: 51067},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1577, col: 5, offset: 50855},
+																	pos: position{line: 1585, col: 5, offset: 51067},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2860, col: 10, offset: 90451},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2860, col: 10, offset: 90451},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27591,27 +27781,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1577, col: 12, offset: 50862},
+																	pos:   position{line: 1585, col: 12, offset: 51074},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1579, col: 9, offset: 50925},
+																		pos: position{line: 1587, col: 9, offset: 51137},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1579, col: 9, offset: 50925},
+																				pos: position{line: 1587, col: 9, offset: 51137},
 																				run: (*parser).callonExtraListElement529,
 																				expr: &seqExpr{
-																					pos: position{line: 1579, col: 9, offset: 50925},
+																					pos: position{line: 1587, col: 9, offset: 51137},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1579, col: 9, offset: 50925},
+																							pos:   position{line: 1587, col: 9, offset: 51137},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1579, col: 16, offset: 50932},
+																								pos: position{line: 1587, col: 16, offset: 51144},
 																								run: (*parser).callonExtraListElement532,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1579, col: 16, offset: 50932},
+																									pos: position{line: 1587, col: 16, offset: 51144},
 																									expr: &litMatcher{
-																										pos:        position{line: 1579, col: 17, offset: 50933},
+																										pos:        position{line: 1587, col: 17, offset: 51145},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -27620,22 +27810,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1583, col: 9, offset: 51033},
+																							pos: position{line: 1591, col: 9, offset: 51245},
 																							run: (*parser).callonExtraListElement535,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1602, col: 11, offset: 51750},
+																				pos: position{line: 1610, col: 11, offset: 51962},
 																				run: (*parser).callonExtraListElement536,
 																				expr: &seqExpr{
-																					pos: position{line: 1602, col: 11, offset: 51750},
+																					pos: position{line: 1610, col: 11, offset: 51962},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1602, col: 11, offset: 51750},
+																							pos: position{line: 1610, col: 11, offset: 51962},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1602, col: 12, offset: 51751},
+																								pos:        position{line: 1610, col: 12, offset: 51963},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -27643,7 +27833,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1602, col: 20, offset: 51759},
+																							pos:        position{line: 1610, col: 20, offset: 51971},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27652,20 +27842,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1604, col: 13, offset: 51876},
+																				pos: position{line: 1612, col: 13, offset: 52088},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1604, col: 13, offset: 51876},
+																					pos: position{line: 1612, col: 13, offset: 52088},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1604, col: 14, offset: 51877},
+																							pos:        position{line: 1612, col: 14, offset: 52089},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1604, col: 21, offset: 51884},
+																							pos:        position{line: 1612, col: 21, offset: 52096},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27674,20 +27864,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1606, col: 13, offset: 52004},
+																				pos: position{line: 1614, col: 13, offset: 52216},
 																				run: (*parser).callonExtraListElement545,
 																				expr: &seqExpr{
-																					pos: position{line: 1606, col: 13, offset: 52004},
+																					pos: position{line: 1614, col: 13, offset: 52216},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1606, col: 14, offset: 52005},
+																							pos:        position{line: 1614, col: 14, offset: 52217},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1606, col: 21, offset: 52012},
+																							pos:        position{line: 1614, col: 21, offset: 52224},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27696,15 +27886,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 13, offset: 52132},
+																				pos: position{line: 1616, col: 13, offset: 52344},
 																				run: (*parser).callonExtraListElement549,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 13, offset: 52132},
+																					pos: position{line: 1616, col: 13, offset: 52344},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 13, offset: 52132},
+																							pos: position{line: 1616, col: 13, offset: 52344},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 14, offset: 52133},
+																								pos:        position{line: 1616, col: 14, offset: 52345},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -27712,7 +27902,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 26, offset: 52145},
+																							pos:        position{line: 1616, col: 26, offset: 52357},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -27721,15 +27911,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52265},
+																				pos: position{line: 1618, col: 13, offset: 52477},
 																				run: (*parser).callonExtraListElement554,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52265},
+																					pos: position{line: 1618, col: 13, offset: 52477},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 13, offset: 52265},
+																							pos: position{line: 1618, col: 13, offset: 52477},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 14, offset: 52266},
+																								pos:        position{line: 1618, col: 14, offset: 52478},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -27737,7 +27927,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 26, offset: 52278},
+																							pos:        position{line: 1618, col: 26, offset: 52490},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -27749,12 +27939,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2864, col: 11, offset: 90512},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2864, col: 11, offset: 90512},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2864, col: 11, offset: 90512},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27767,20 +27957,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1508, col: 5, offset: 48868},
+													pos: position{line: 1516, col: 5, offset: 49080},
 													expr: &actionExpr{
-														pos: position{line: 1627, col: 5, offset: 52817},
+														pos: position{line: 1635, col: 5, offset: 53029},
 														run: (*parser).callonExtraListElement563,
 														expr: &seqExpr{
-															pos: position{line: 1627, col: 5, offset: 52817},
+															pos: position{line: 1635, col: 5, offset: 53029},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1627, col: 5, offset: 52817},
+																	pos: position{line: 1635, col: 5, offset: 53029},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2860, col: 10, offset: 90451},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2860, col: 10, offset: 90451},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27789,24 +27979,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1628, col: 5, offset: 52829},
+																	pos:   position{line: 1636, col: 5, offset: 53041},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1629, col: 9, offset: 52845},
+																		pos: position{line: 1637, col: 9, offset: 53057},
 																		run: (*parser).callonExtraListElement569,
 																		expr: &choiceExpr{
-																			pos: position{line: 1629, col: 10, offset: 52846},
+																			pos: position{line: 1637, col: 10, offset: 53058},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1629, col: 11, offset: 52847},
+																					pos:        position{line: 1637, col: 11, offset: 53059},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1629, col: 18, offset: 52854},
+																					pos: position{line: 1637, col: 18, offset: 53066},
 																					expr: &litMatcher{
-																						pos:        position{line: 1629, col: 19, offset: 52855},
+																						pos:        position{line: 1637, col: 19, offset: 53067},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -27817,16 +28007,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1632, col: 7, offset: 52945},
+																	pos: position{line: 1640, col: 7, offset: 53157},
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2864, col: 11, offset: 90512},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2864, col: 11, offset: 90512},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2864, col: 11, offset: 90512},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27839,29 +28029,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1509, col: 5, offset: 48900},
+													pos: position{line: 1517, col: 5, offset: 49112},
 													expr: &actionExpr{
-														pos: position{line: 1716, col: 5, offset: 55354},
+														pos: position{line: 1724, col: 5, offset: 55566},
 														run: (*parser).callonExtraListElement579,
 														expr: &seqExpr{
-															pos: position{line: 1716, col: 5, offset: 55354},
+															pos: position{line: 1724, col: 5, offset: 55566},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1716, col: 5, offset: 55354},
+																	pos:        position{line: 1724, col: 5, offset: 55566},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1716, col: 9, offset: 55358},
+																	pos:   position{line: 1724, col: 9, offset: 55570},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 14, offset: 55363},
+																		pos: position{line: 1724, col: 14, offset: 55575},
 																		run: (*parser).callonExtraListElement583,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1716, col: 14, offset: 55363},
+																			pos: position{line: 1724, col: 14, offset: 55575},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1716, col: 14, offset: 55363},
+																				pos:        position{line: 1724, col: 14, offset: 55575},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -27871,18 +28061,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1716, col: 62, offset: 55411},
+																	pos:        position{line: 1724, col: 62, offset: 55623},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2864, col: 11, offset: 90512},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2864, col: 11, offset: 90512},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2864, col: 11, offset: 90512},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27895,36 +28085,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1510, col: 5, offset: 48930},
+													pos: position{line: 1518, col: 5, offset: 49142},
 													expr: &seqExpr{
-														pos: position{line: 1510, col: 7, offset: 48932},
+														pos: position{line: 1518, col: 7, offset: 49144},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1662, col: 5, offset: 53836},
+																pos: position{line: 1670, col: 5, offset: 54048},
 																run: (*parser).callonExtraListElement592,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1662, col: 5, offset: 53836},
+																	pos: position{line: 1670, col: 5, offset: 54048},
 																	expr: &seqExpr{
-																		pos: position{line: 1662, col: 6, offset: 53837},
+																		pos: position{line: 1670, col: 6, offset: 54049},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1662, col: 6, offset: 53837},
+																				pos: position{line: 1670, col: 6, offset: 54049},
 																				expr: &actionExpr{
-																					pos: position{line: 1667, col: 5, offset: 53987},
+																					pos: position{line: 1675, col: 5, offset: 54199},
 																					run: (*parser).callonExtraListElement596,
 																					expr: &seqExpr{
-																						pos: position{line: 1667, col: 5, offset: 53987},
+																						pos: position{line: 1675, col: 5, offset: 54199},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1667, col: 5, offset: 53987},
+																								pos:   position{line: 1675, col: 5, offset: 54199},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 16, offset: 53998},
+																									pos: position{line: 1675, col: 16, offset: 54210},
 																									run: (*parser).callonExtraListElement599,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1667, col: 16, offset: 53998},
+																										pos: position{line: 1675, col: 16, offset: 54210},
 																										expr: &litMatcher{
-																											pos:        position{line: 1667, col: 17, offset: 53999},
+																											pos:        position{line: 1675, col: 17, offset: 54211},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -27933,7 +28123,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1670, col: 5, offset: 54056},
+																								pos: position{line: 1678, col: 5, offset: 54268},
 																								run: (*parser).callonExtraListElement602,
 																							},
 																						},
@@ -27941,30 +28131,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1662, col: 35, offset: 53866},
+																				pos: position{line: 1670, col: 35, offset: 54078},
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2882, col: 8, offset: 90849},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2869, col: 12, offset: 90622},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2869, col: 13, offset: 90623},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2869, col: 13, offset: 90623},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2869, col: 20, offset: 90630},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2869, col: 29, offset: 90639},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -27973,37 +28163,37 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2879, col: 8, offset: 90799},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2879, col: 9, offset: 90800,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1662, col: 40, offset: 53871,
+																				line: 1670, col: 40, offset: 54083,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1667, col: 5, offset: 53987},
+																pos: position{line: 1675, col: 5, offset: 54199},
 																run: (*parser).callonExtraListElement613,
 																expr: &seqExpr{
-																	pos: position{line: 1667, col: 5, offset: 53987},
+																	pos: position{line: 1675, col: 5, offset: 54199},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1667, col: 5, offset: 53987},
+																			pos:   position{line: 1675, col: 5, offset: 54199},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1667, col: 16, offset: 53998},
+																				pos: position{line: 1675, col: 16, offset: 54210},
 																				run: (*parser).callonExtraListElement616,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1667, col: 16, offset: 53998},
+																					pos: position{line: 1675, col: 16, offset: 54210},
 																					expr: &litMatcher{
-																						pos:        position{line: 1667, col: 17, offset: 53999},
+																						pos:        position{line: 1675, col: 17, offset: 54211},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28012,7 +28202,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1670, col: 5, offset: 54056},
+																			pos: position{line: 1678, col: 5, offset: 54268},
 																			run: (*parser).callonExtraListElement619,
 																		},
 																	},
@@ -28022,7 +28212,7 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1511, col: 5, offset: 48988},
+													pos: position{line: 1519, col: 5, offset: 49200},
 													expr: &actionExpr{
 														pos: position{line: 724, col: 5, offset: 23042},
 														run: (*parser).callonExtraListElement621,
@@ -28032,7 +28222,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 724, col: 5, offset: 23042},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2742, col: 13, offset: 87334},
+																		pos:        position{line: 2750, col: 13, offset: 87546},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28082,10 +28272,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23686},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2860, col: 10, offset: 90451},
 																								run: (*parser).callonExtraListElement636,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2860, col: 10, offset: 90451},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28094,28 +28284,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2869, col: 12, offset: 90622},
 																									run: (*parser).callonExtraListElement639,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28124,9 +28314,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -28171,10 +28361,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23934},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2860, col: 10, offset: 90451},
 																								run: (*parser).callonExtraListElement655,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2860, col: 10, offset: 90451},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28183,28 +28373,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2869, col: 12, offset: 90622},
 																									run: (*parser).callonExtraListElement658,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28213,9 +28403,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -28256,10 +28446,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 760, col: 52, offset: 24346},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2860, col: 10, offset: 90451},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2860, col: 10, offset: 90451},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28268,28 +28458,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2869, col: 12, offset: 90622},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28298,9 +28488,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -28345,10 +28535,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24180},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2860, col: 10, offset: 90451},
 																								run: (*parser).callonExtraListElement692,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2860, col: 10, offset: 90451},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28357,28 +28547,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2869, col: 12, offset: 90622},
 																									run: (*parser).callonExtraListElement695,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28387,9 +28577,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -28434,10 +28624,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24718},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2860, col: 10, offset: 90451},
 																								run: (*parser).callonExtraListElement711,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2860, col: 10, offset: 90451},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28446,28 +28636,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2869, col: 12, offset: 90622},
 																									run: (*parser).callonExtraListElement714,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28476,9 +28666,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -28523,10 +28713,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25194},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2860, col: 10, offset: 90451},
 																								run: (*parser).callonExtraListElement730,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2860, col: 10, offset: 90451},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28535,28 +28725,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2869, col: 12, offset: 90622},
 																									run: (*parser).callonExtraListElement733,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28565,9 +28755,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -28612,10 +28802,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25446},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2860, col: 10, offset: 90451},
 																								run: (*parser).callonExtraListElement749,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2860, col: 10, offset: 90451},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28624,28 +28814,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2869, col: 12, offset: 90622},
 																									run: (*parser).callonExtraListElement752,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28654,9 +28844,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -28701,10 +28891,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25696},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2860, col: 10, offset: 90451},
 																								run: (*parser).callonExtraListElement768,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2860, col: 10, offset: 90451},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28713,28 +28903,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2869, col: 12, offset: 90622},
 																									run: (*parser).callonExtraListElement771,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28743,9 +28933,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -28790,10 +28980,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25942},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2860, col: 10, offset: 90451},
 																								run: (*parser).callonExtraListElement787,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2860, col: 10, offset: 90451},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28802,28 +28992,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2869, col: 12, offset: 90622},
 																									run: (*parser).callonExtraListElement790,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28832,9 +29022,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -28850,15 +29040,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1512, col: 5, offset: 49008},
+													pos:   position{line: 1520, col: 5, offset: 49220},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2802, col: 14, offset: 88832},
+														pos: position{line: 2810, col: 14, offset: 89044},
 														run: (*parser).callonExtraListElement798,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2802, col: 14, offset: 88832},
+															pos: position{line: 2810, col: 14, offset: 89044},
 															expr: &charClassMatcher{
-																pos:        position{line: 2802, col: 14, offset: 88832},
+																pos:        position{line: 2810, col: 14, offset: 89044},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28868,28 +29058,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2882, col: 8, offset: 90849},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2869, col: 12, offset: 90622},
 															run: (*parser).callonExtraListElement802,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2869, col: 13, offset: 90623},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2869, col: 13, offset: 90623},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2869, col: 20, offset: 90630},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2869, col: 29, offset: 90639},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28898,9 +29088,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2879, col: 8, offset: 90799},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2879, col: 9, offset: 90800,
 															},
 														},
 													},
@@ -28917,28 +29107,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1528, col: 1, offset: 49399},
+			pos:  position{line: 1536, col: 1, offset: 49611},
 			expr: &actionExpr{
-				pos: position{line: 1529, col: 5, offset: 49424},
+				pos: position{line: 1537, col: 5, offset: 49636},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1529, col: 5, offset: 49424},
+					pos: position{line: 1537, col: 5, offset: 49636},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1529, col: 5, offset: 49424},
+							pos:   position{line: 1537, col: 5, offset: 49636},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1529, col: 12, offset: 49431},
+								pos: position{line: 1537, col: 12, offset: 49643},
 								expr: &seqExpr{
-									pos: position{line: 1529, col: 13, offset: 49432},
+									pos: position{line: 1537, col: 13, offset: 49644},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1529, col: 13, offset: 49432},
+											pos: position{line: 1537, col: 13, offset: 49644},
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 10, offset: 90239},
+												pos: position{line: 2860, col: 10, offset: 90451},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2852, col: 10, offset: 90239},
+													pos:        position{line: 2860, col: 10, offset: 90451},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -28947,25 +29137,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2861, col: 12, offset: 90410},
+											pos: position{line: 2869, col: 12, offset: 90622},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2861, col: 13, offset: 90411},
+												pos: position{line: 2869, col: 13, offset: 90623},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2861, col: 13, offset: 90411},
+														pos:        position{line: 2869, col: 13, offset: 90623},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2861, col: 20, offset: 90418},
+														pos:        position{line: 2869, col: 20, offset: 90630},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2861, col: 29, offset: 90427},
+														pos:        position{line: 2869, col: 29, offset: 90639},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -28978,18 +29168,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1536, col: 27, offset: 49636},
+							pos:        position{line: 1544, col: 27, offset: 49848},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1536, col: 31, offset: 49640},
+							pos: position{line: 1544, col: 31, offset: 49852},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2860, col: 10, offset: 90451},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2860, col: 10, offset: 90451},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -28998,25 +29188,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2861, col: 12, offset: 90410},
+							pos: position{line: 2869, col: 12, offset: 90622},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2861, col: 13, offset: 90411},
+								pos: position{line: 2869, col: 13, offset: 90623},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2861, col: 13, offset: 90411},
+										pos:        position{line: 2869, col: 13, offset: 90623},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2861, col: 20, offset: 90418},
+										pos:        position{line: 2869, col: 20, offset: 90630},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2861, col: 29, offset: 90427},
+										pos:        position{line: 2869, col: 29, offset: 90639},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29025,12 +29215,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1531, col: 5, offset: 49481},
+							pos:   position{line: 1539, col: 5, offset: 49693},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1531, col: 13, offset: 49489},
+								pos: position{line: 1539, col: 13, offset: 49701},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1531, col: 13, offset: 49489},
+									pos:  position{line: 1539, col: 13, offset: 49701},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29041,46 +29231,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1538, col: 1, offset: 49656},
+			pos:  position{line: 1546, col: 1, offset: 49868},
 			expr: &actionExpr{
-				pos: position{line: 1539, col: 5, offset: 49727},
+				pos: position{line: 1547, col: 5, offset: 49939},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1539, col: 5, offset: 49727},
+					pos: position{line: 1547, col: 5, offset: 49939},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2877, col: 11, offset: 90785},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2877, col: 13, offset: 90787,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1540, col: 5, offset: 49755},
+							pos: position{line: 1548, col: 5, offset: 49967},
 							expr: &choiceExpr{
-								pos: position{line: 1477, col: 5, offset: 47713},
+								pos: position{line: 1485, col: 5, offset: 47925},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1570, col: 5, offset: 50647},
+										pos: position{line: 1578, col: 5, offset: 50859},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1570, col: 5, offset: 50647},
+											pos: position{line: 1578, col: 5, offset: 50859},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1570, col: 5, offset: 50647},
+													pos:   position{line: 1578, col: 5, offset: 50859},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1577, col: 5, offset: 50855},
+														pos: position{line: 1585, col: 5, offset: 51067},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1577, col: 5, offset: 50855},
+															pos: position{line: 1585, col: 5, offset: 51067},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1577, col: 5, offset: 50855},
+																	pos: position{line: 1585, col: 5, offset: 51067},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2860, col: 10, offset: 90451},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2860, col: 10, offset: 90451},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29089,27 +29279,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1577, col: 12, offset: 50862},
+																	pos:   position{line: 1585, col: 12, offset: 51074},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1579, col: 9, offset: 50925},
+																		pos: position{line: 1587, col: 9, offset: 51137},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1579, col: 9, offset: 50925},
+																				pos: position{line: 1587, col: 9, offset: 51137},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1579, col: 9, offset: 50925},
+																					pos: position{line: 1587, col: 9, offset: 51137},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1579, col: 9, offset: 50925},
+																							pos:   position{line: 1587, col: 9, offset: 51137},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1579, col: 16, offset: 50932},
+																								pos: position{line: 1587, col: 16, offset: 51144},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1579, col: 16, offset: 50932},
+																									pos: position{line: 1587, col: 16, offset: 51144},
 																									expr: &litMatcher{
-																										pos:        position{line: 1579, col: 17, offset: 50933},
+																										pos:        position{line: 1587, col: 17, offset: 51145},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29118,22 +29308,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1583, col: 9, offset: 51033},
+																							pos: position{line: 1591, col: 9, offset: 51245},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1602, col: 11, offset: 51750},
+																				pos: position{line: 1610, col: 11, offset: 51962},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1602, col: 11, offset: 51750},
+																					pos: position{line: 1610, col: 11, offset: 51962},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1602, col: 11, offset: 51750},
+																							pos: position{line: 1610, col: 11, offset: 51962},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1602, col: 12, offset: 51751},
+																								pos:        position{line: 1610, col: 12, offset: 51963},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29141,7 +29331,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1602, col: 20, offset: 51759},
+																							pos:        position{line: 1610, col: 20, offset: 51971},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29150,20 +29340,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1604, col: 13, offset: 51876},
+																				pos: position{line: 1612, col: 13, offset: 52088},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1604, col: 13, offset: 51876},
+																					pos: position{line: 1612, col: 13, offset: 52088},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1604, col: 14, offset: 51877},
+																							pos:        position{line: 1612, col: 14, offset: 52089},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1604, col: 21, offset: 51884},
+																							pos:        position{line: 1612, col: 21, offset: 52096},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29172,20 +29362,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1606, col: 13, offset: 52004},
+																				pos: position{line: 1614, col: 13, offset: 52216},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1606, col: 13, offset: 52004},
+																					pos: position{line: 1614, col: 13, offset: 52216},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1606, col: 14, offset: 52005},
+																							pos:        position{line: 1614, col: 14, offset: 52217},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1606, col: 21, offset: 52012},
+																							pos:        position{line: 1614, col: 21, offset: 52224},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29194,15 +29384,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1608, col: 13, offset: 52132},
+																				pos: position{line: 1616, col: 13, offset: 52344},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1608, col: 13, offset: 52132},
+																					pos: position{line: 1616, col: 13, offset: 52344},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1608, col: 13, offset: 52132},
+																							pos: position{line: 1616, col: 13, offset: 52344},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1608, col: 14, offset: 52133},
+																								pos:        position{line: 1616, col: 14, offset: 52345},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29210,7 +29400,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1608, col: 26, offset: 52145},
+																							pos:        position{line: 1616, col: 26, offset: 52357},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29219,15 +29409,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 13, offset: 52265},
+																				pos: position{line: 1618, col: 13, offset: 52477},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 13, offset: 52265},
+																					pos: position{line: 1618, col: 13, offset: 52477},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 13, offset: 52265},
+																							pos: position{line: 1618, col: 13, offset: 52477},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 14, offset: 52266},
+																								pos:        position{line: 1618, col: 14, offset: 52478},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29235,7 +29425,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 26, offset: 52278},
+																							pos:        position{line: 1618, col: 26, offset: 52490},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29247,12 +29437,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2864, col: 11, offset: 90512},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2864, col: 11, offset: 90512},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2864, col: 11, offset: 90512},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29265,26 +29455,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1571, col: 5, offset: 50686},
+													pos:   position{line: 1579, col: 5, offset: 50898},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1526, col: 5, offset: 49365},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1526, col: 5, offset: 49365},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1526, col: 5, offset: 49365},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1526, col: 14, offset: 49374},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1526, col: 15, offset: 49375},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1526, col: 15, offset: 49375},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1526, col: 15, offset: 49375},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29295,28 +29485,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2882, col: 8, offset: 90849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2869, col: 12, offset: 90622},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2869, col: 13, offset: 90623},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2869, col: 13, offset: 90623},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2869, col: 20, offset: 90630},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2869, col: 29, offset: 90639},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29325,9 +29515,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2879, col: 8, offset: 90799},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2879, col: 9, offset: 90800,
 																			},
 																		},
 																	},
@@ -29340,27 +29530,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1620, col: 5, offset: 52544},
+										pos: position{line: 1628, col: 5, offset: 52756},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1620, col: 5, offset: 52544},
+											pos: position{line: 1628, col: 5, offset: 52756},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1620, col: 5, offset: 52544},
+													pos:   position{line: 1628, col: 5, offset: 52756},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1627, col: 5, offset: 52817},
+														pos: position{line: 1635, col: 5, offset: 53029},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1627, col: 5, offset: 52817},
+															pos: position{line: 1635, col: 5, offset: 53029},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1627, col: 5, offset: 52817},
+																	pos: position{line: 1635, col: 5, offset: 53029},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2860, col: 10, offset: 90451},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2860, col: 10, offset: 90451},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29369,24 +29559,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1628, col: 5, offset: 52829},
+																	pos:   position{line: 1636, col: 5, offset: 53041},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1629, col: 9, offset: 52845},
+																		pos: position{line: 1637, col: 9, offset: 53057},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1629, col: 10, offset: 52846},
+																			pos: position{line: 1637, col: 10, offset: 53058},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1629, col: 11, offset: 52847},
+																					pos:        position{line: 1637, col: 11, offset: 53059},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1629, col: 18, offset: 52854},
+																					pos: position{line: 1637, col: 18, offset: 53066},
 																					expr: &litMatcher{
-																						pos:        position{line: 1629, col: 19, offset: 52855},
+																						pos:        position{line: 1637, col: 19, offset: 53067},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29397,16 +29587,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1632, col: 7, offset: 52945},
+																	pos: position{line: 1640, col: 7, offset: 53157},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2864, col: 11, offset: 90512},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2864, col: 11, offset: 90512},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2864, col: 11, offset: 90512},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29419,56 +29609,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1621, col: 5, offset: 52585},
+													pos:   position{line: 1629, col: 5, offset: 52797},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1621, col: 16, offset: 52596},
+														pos: position{line: 1629, col: 16, offset: 52808},
 														expr: &actionExpr{
-															pos: position{line: 1642, col: 5, offset: 53210},
+															pos: position{line: 1650, col: 5, offset: 53422},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1642, col: 5, offset: 53210},
+																pos: position{line: 1650, col: 5, offset: 53422},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1642, col: 5, offset: 53210},
+																		pos: position{line: 1650, col: 5, offset: 53422},
 																		expr: &litMatcher{
-																			pos:        position{line: 1642, col: 6, offset: 53211},
+																			pos:        position{line: 1650, col: 6, offset: 53423},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1642, col: 10, offset: 53215},
+																		pos:   position{line: 1650, col: 10, offset: 53427},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1643, col: 7, offset: 53229},
+																			pos: position{line: 1651, col: 7, offset: 53441},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1643, col: 7, offset: 53229},
+																					pos: position{line: 1651, col: 7, offset: 53441},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1643, col: 7, offset: 53229},
+																						pos:        position{line: 1651, col: 7, offset: 53441},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1644, col: 7, offset: 53274},
+																					pos: position{line: 1652, col: 7, offset: 53486},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1644, col: 7, offset: 53274},
+																						pos:        position{line: 1652, col: 7, offset: 53486},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1645, col: 7, offset: 53317},
+																					pos: position{line: 1653, col: 7, offset: 53529},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1645, col: 7, offset: 53317},
+																						pos:        position{line: 1653, col: 7, offset: 53529},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -29478,12 +29668,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2864, col: 11, offset: 90512},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2856, col: 11, offset: 90300},
+																			pos: position{line: 2864, col: 11, offset: 90512},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2856, col: 11, offset: 90300},
+																				pos:        position{line: 2864, col: 11, offset: 90512},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29497,26 +29687,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1622, col: 5, offset: 52635},
+													pos:   position{line: 1630, col: 5, offset: 52847},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1526, col: 5, offset: 49365},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1526, col: 5, offset: 49365},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1526, col: 5, offset: 49365},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1526, col: 14, offset: 49374},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1526, col: 15, offset: 49375},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1526, col: 15, offset: 49375},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1526, col: 15, offset: 49375},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29527,28 +29717,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2882, col: 8, offset: 90849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2869, col: 12, offset: 90622},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2869, col: 13, offset: 90623},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2869, col: 13, offset: 90623},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2869, col: 20, offset: 90630},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2869, col: 29, offset: 90639},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29557,9 +29747,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2879, col: 8, offset: 90799},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2879, col: 9, offset: 90800,
 																			},
 																		},
 																	},
@@ -29572,36 +29762,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1710, col: 5, offset: 55157},
+										pos: position{line: 1718, col: 5, offset: 55369},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1710, col: 5, offset: 55157},
+											pos: position{line: 1718, col: 5, offset: 55369},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1710, col: 5, offset: 55157},
+													pos:   position{line: 1718, col: 5, offset: 55369},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1716, col: 5, offset: 55354},
+														pos: position{line: 1724, col: 5, offset: 55566},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1716, col: 5, offset: 55354},
+															pos: position{line: 1724, col: 5, offset: 55566},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1716, col: 5, offset: 55354},
+																	pos:        position{line: 1724, col: 5, offset: 55566},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1716, col: 9, offset: 55358},
+																	pos:   position{line: 1724, col: 9, offset: 55570},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 14, offset: 55363},
+																		pos: position{line: 1724, col: 14, offset: 55575},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1716, col: 14, offset: 55363},
+																			pos: position{line: 1724, col: 14, offset: 55575},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1716, col: 14, offset: 55363},
+																				pos:        position{line: 1724, col: 14, offset: 55575},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -29611,18 +29801,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1716, col: 62, offset: 55411},
+																	pos:        position{line: 1724, col: 62, offset: 55623},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2864, col: 11, offset: 90512},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2864, col: 11, offset: 90512},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2864, col: 11, offset: 90512},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29635,26 +29825,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1711, col: 5, offset: 55193},
+													pos:   position{line: 1719, col: 5, offset: 55405},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1518, col: 5, offset: 49153},
+														pos: position{line: 1526, col: 5, offset: 49365},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1518, col: 5, offset: 49153},
+															pos: position{line: 1526, col: 5, offset: 49365},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1518, col: 5, offset: 49153},
+																	pos:   position{line: 1526, col: 5, offset: 49365},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1518, col: 14, offset: 49162},
+																		pos: position{line: 1526, col: 14, offset: 49374},
 																		expr: &actionExpr{
-																			pos: position{line: 1518, col: 15, offset: 49163},
+																			pos: position{line: 1526, col: 15, offset: 49375},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1518, col: 15, offset: 49163},
+																				pos: position{line: 1526, col: 15, offset: 49375},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1518, col: 15, offset: 49163},
+																					pos:        position{line: 1526, col: 15, offset: 49375},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29665,28 +29855,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2882, col: 8, offset: 90849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2869, col: 12, offset: 90622},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2869, col: 13, offset: 90623},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2869, col: 13, offset: 90623},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2869, col: 20, offset: 90630},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2869, col: 29, offset: 90639},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29695,9 +29885,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2879, col: 8, offset: 90799},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2879, col: 9, offset: 90800,
 																			},
 																		},
 																	},
@@ -29710,40 +29900,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1654, col: 5, offset: 53510},
+										pos: position{line: 1662, col: 5, offset: 53722},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1654, col: 5, offset: 53510},
+											pos: position{line: 1662, col: 5, offset: 53722},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1654, col: 5, offset: 53510},
+													pos:   position{line: 1662, col: 5, offset: 53722},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1662, col: 5, offset: 53836},
+														pos: position{line: 1670, col: 5, offset: 54048},
 														run: (*parser).callonListContinuationElement150,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1662, col: 5, offset: 53836},
+															pos: position{line: 1670, col: 5, offset: 54048},
 															expr: &seqExpr{
-																pos: position{line: 1662, col: 6, offset: 53837},
+																pos: position{line: 1670, col: 6, offset: 54049},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1662, col: 6, offset: 53837},
+																		pos: position{line: 1670, col: 6, offset: 54049},
 																		expr: &actionExpr{
-																			pos: position{line: 1667, col: 5, offset: 53987},
+																			pos: position{line: 1675, col: 5, offset: 54199},
 																			run: (*parser).callonListContinuationElement154,
 																			expr: &seqExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
+																				pos: position{line: 1675, col: 5, offset: 54199},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1667, col: 5, offset: 53987},
+																						pos:   position{line: 1675, col: 5, offset: 54199},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1667, col: 16, offset: 53998},
+																							pos: position{line: 1675, col: 16, offset: 54210},
 																							run: (*parser).callonListContinuationElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
+																								pos: position{line: 1675, col: 16, offset: 54210},
 																								expr: &litMatcher{
-																									pos:        position{line: 1667, col: 17, offset: 53999},
+																									pos:        position{line: 1675, col: 17, offset: 54211},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -29752,7 +29942,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1670, col: 5, offset: 54056},
+																						pos: position{line: 1678, col: 5, offset: 54268},
 																						run: (*parser).callonListContinuationElement160,
 																					},
 																				},
@@ -29760,30 +29950,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1662, col: 35, offset: 53866},
+																		pos: position{line: 1670, col: 35, offset: 54078},
 																		expr: &choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2882, col: 8, offset: 90849},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2869, col: 12, offset: 90622},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2869, col: 13, offset: 90623},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2869, col: 13, offset: 90623},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2869, col: 20, offset: 90630},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2869, col: 29, offset: 90639},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -29792,16 +29982,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1662, col: 40, offset: 53871,
+																		line: 1670, col: 40, offset: 54083,
 																	},
 																},
 															},
@@ -29809,24 +29999,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1655, col: 5, offset: 53545},
+													pos:   position{line: 1663, col: 5, offset: 53757},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1667, col: 5, offset: 53987},
+														pos: position{line: 1675, col: 5, offset: 54199},
 														run: (*parser).callonListContinuationElement172,
 														expr: &seqExpr{
-															pos: position{line: 1667, col: 5, offset: 53987},
+															pos: position{line: 1675, col: 5, offset: 54199},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1667, col: 5, offset: 53987},
+																	pos:   position{line: 1675, col: 5, offset: 54199},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1667, col: 16, offset: 53998},
+																		pos: position{line: 1675, col: 16, offset: 54210},
 																		run: (*parser).callonListContinuationElement175,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1667, col: 16, offset: 53998},
+																			pos: position{line: 1675, col: 16, offset: 54210},
 																			expr: &litMatcher{
-																				pos:        position{line: 1667, col: 17, offset: 53999},
+																				pos:        position{line: 1675, col: 17, offset: 54211},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -29835,7 +30025,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1670, col: 5, offset: 54056},
+																	pos: position{line: 1678, col: 5, offset: 54268},
 																	run: (*parser).callonListContinuationElement178,
 																},
 															},
@@ -29843,24 +30033,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1656, col: 5, offset: 53590},
+													pos:   position{line: 1664, col: 5, offset: 53802},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1678, col: 5, offset: 54305},
+														pos: position{line: 1686, col: 5, offset: 54517},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1680, col: 9, offset: 54371},
+																pos: position{line: 1688, col: 9, offset: 54583},
 																run: (*parser).callonListContinuationElement181,
 																expr: &seqExpr{
-																	pos: position{line: 1680, col: 9, offset: 54371},
+																	pos: position{line: 1688, col: 9, offset: 54583},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1680, col: 9, offset: 54371},
+																			pos: position{line: 1688, col: 9, offset: 54583},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2860, col: 10, offset: 90451},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2860, col: 10, offset: 90451},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -29869,28 +30059,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2882, col: 8, offset: 90849},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2869, col: 12, offset: 90622},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2869, col: 13, offset: 90623},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2869, col: 13, offset: 90623},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2869, col: 20, offset: 90630},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2869, col: 29, offset: 90639},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -29899,15 +30089,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1681, col: 9, offset: 54390},
+																			pos: position{line: 1689, col: 9, offset: 54602},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21489},
 																				run: (*parser).callonListContinuationElement195,
@@ -29915,18 +30105,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21489},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2869, col: 11, offset: 90573},
+																							pos: position{line: 2877, col: 11, offset: 90785},
 																							expr: &anyMatcher{
-																								line: 2869, col: 13, offset: 90575,
+																								line: 2877, col: 13, offset: 90787,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21496},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
+																								pos: position{line: 2860, col: 10, offset: 90451},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2860, col: 10, offset: 90451},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29935,28 +30125,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
+																									pos: position{line: 2869, col: 12, offset: 90622},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29965,9 +30155,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -29980,18 +30170,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1687, col: 9, offset: 54519},
+																pos: position{line: 1695, col: 9, offset: 54731},
 																run: (*parser).callonListContinuationElement210,
 																expr: &seqExpr{
-																	pos: position{line: 1687, col: 9, offset: 54519},
+																	pos: position{line: 1695, col: 9, offset: 54731},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2856, col: 11, offset: 90300},
+																			pos: position{line: 2864, col: 11, offset: 90512},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2856, col: 11, offset: 90300},
+																				pos: position{line: 2864, col: 11, offset: 90512},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2856, col: 11, offset: 90300},
+																					pos:        position{line: 2864, col: 11, offset: 90512},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30000,15 +30190,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1688, col: 9, offset: 54592},
+																			pos:   position{line: 1696, col: 9, offset: 54804},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1688, col: 18, offset: 54601},
+																				pos: position{line: 1696, col: 18, offset: 54813},
 																				run: (*parser).callonListContinuationElement216,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1688, col: 18, offset: 54601},
+																					pos: position{line: 1696, col: 18, offset: 54813},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1688, col: 18, offset: 54601},
+																						pos:        position{line: 1696, col: 18, offset: 54813},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30018,28 +30208,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2882, col: 8, offset: 90849},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2869, col: 12, offset: 90622},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2869, col: 13, offset: 90623},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2869, col: 13, offset: 90623},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2869, col: 20, offset: 90630},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2869, col: 29, offset: 90639},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30048,9 +30238,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
@@ -30068,21 +30258,21 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1541, col: 5, offset: 49772},
+							pos:   position{line: 1549, col: 5, offset: 49984},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1541, col: 16, offset: 49783},
+								pos: position{line: 1549, col: 16, offset: 49995},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1541, col: 17, offset: 49784},
+									pos:  position{line: 1549, col: 17, offset: 49996},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1542, col: 5, offset: 49806},
+							pos:   position{line: 1550, col: 5, offset: 50018},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1543, col: 9, offset: 49824},
+								pos: position{line: 1551, col: 9, offset: 50036},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 677, col: 14, offset: 21489},
@@ -30091,18 +30281,18 @@ var g = &grammar{
 											pos: position{line: 677, col: 14, offset: 21489},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2869, col: 11, offset: 90573},
+													pos: position{line: 2877, col: 11, offset: 90785},
 													expr: &anyMatcher{
-														line: 2869, col: 13, offset: 90575,
+														line: 2877, col: 13, offset: 90787,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 677, col: 21, offset: 21496},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2860, col: 10, offset: 90451},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2860, col: 10, offset: 90451},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30111,28 +30301,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2882, col: 8, offset: 90849},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2869, col: 12, offset: 90622},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2869, col: 13, offset: 90623},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2869, col: 13, offset: 90623},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2869, col: 20, offset: 90630},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2869, col: 29, offset: 90639},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30141,9 +30331,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2879, col: 8, offset: 90799},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2879, col: 9, offset: 90800,
 															},
 														},
 													},
@@ -30152,7 +30342,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1544, col: 11, offset: 49844},
+										pos:  position{line: 1552, col: 11, offset: 50056},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -30208,10 +30398,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2860, col: 10, offset: 90451},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2860, col: 10, offset: 90451},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30220,28 +30410,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2882, col: 8, offset: 90849},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2869, col: 12, offset: 90622},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2869, col: 13, offset: 90623},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2869, col: 13, offset: 90623},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2869, col: 20, offset: 90630},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2869, col: 29, offset: 90639},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30250,9 +30440,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2879, col: 8, offset: 90799},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2879, col: 9, offset: 90800,
 															},
 														},
 													},
@@ -30313,10 +30503,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2860, col: 10, offset: 90451},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2860, col: 10, offset: 90451},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30325,28 +30515,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2882, col: 8, offset: 90849},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2869, col: 12, offset: 90622},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2869, col: 13, offset: 90623},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2869, col: 13, offset: 90623},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2869, col: 20, offset: 90630},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2869, col: 29, offset: 90639},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30355,9 +30545,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2879, col: 8, offset: 90799},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2879, col: 9, offset: 90800,
 															},
 														},
 													},
@@ -30371,88 +30561,92 @@ var g = &grammar{
 										expr: &seqExpr{
 											pos: position{line: 820, col: 5, offset: 26324},
 											exprs: []interface{}{
-												&actionExpr{
-													pos: position{line: 740, col: 5, offset: 23584},
-													run: (*parser).callonListContinuationElement292,
-													expr: &seqExpr{
+												&labeledExpr{
+													pos:   position{line: 820, col: 5, offset: 26324},
+													label: "start",
+													expr: &actionExpr{
 														pos: position{line: 740, col: 5, offset: 23584},
-														exprs: []interface{}{
-															&labeledExpr{
-																pos:   position{line: 740, col: 5, offset: 23584},
-																label: "delimiter",
-																expr: &actionExpr{
-																	pos: position{line: 740, col: 16, offset: 23595},
-																	run: (*parser).callonListContinuationElement295,
-																	expr: &seqExpr{
+														run: (*parser).callonListContinuationElement293,
+														expr: &seqExpr{
+															pos: position{line: 740, col: 5, offset: 23584},
+															exprs: []interface{}{
+																&labeledExpr{
+																	pos:   position{line: 740, col: 5, offset: 23584},
+																	label: "delimiter",
+																	expr: &actionExpr{
 																		pos: position{line: 740, col: 16, offset: 23595},
-																		exprs: []interface{}{
-																			&litMatcher{
-																				pos:        position{line: 740, col: 16, offset: 23595},
-																				val:        "////",
-																				ignoreCase: false,
-																				want:       "\"////\"",
-																			},
-																			&zeroOrMoreExpr{
-																				pos: position{line: 740, col: 23, offset: 23602},
-																				expr: &litMatcher{
-																					pos:        position{line: 740, col: 23, offset: 23602},
-																					val:        "/",
+																		run: (*parser).callonListContinuationElement296,
+																		expr: &seqExpr{
+																			pos: position{line: 740, col: 16, offset: 23595},
+																			exprs: []interface{}{
+																				&litMatcher{
+																					pos:        position{line: 740, col: 16, offset: 23595},
+																					val:        "////",
 																					ignoreCase: false,
-																					want:       "\"/\"",
+																					want:       "\"////\"",
+																				},
+																				&zeroOrMoreExpr{
+																					pos: position{line: 740, col: 23, offset: 23602},
+																					expr: &litMatcher{
+																						pos:        position{line: 740, col: 23, offset: 23602},
+																						val:        "/",
+																						ignoreCase: false,
+																						want:       "\"/\"",
+																					},
 																				},
 																			},
 																		},
 																	},
 																},
-															},
-															&zeroOrMoreExpr{
-																pos: position{line: 742, col: 8, offset: 23686},
-																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
-																	run: (*parser).callonListContinuationElement301,
-																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
-																		val:        "[\\t ]",
-																		chars:      []rune{'\t', ' '},
-																		ignoreCase: false,
-																		inverted:   false,
+																&zeroOrMoreExpr{
+																	pos: position{line: 742, col: 8, offset: 23686},
+																	expr: &actionExpr{
+																		pos: position{line: 2860, col: 10, offset: 90451},
+																		run: (*parser).callonListContinuationElement302,
+																		expr: &charClassMatcher{
+																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			val:        "[\\t ]",
+																			chars:      []rune{'\t', ' '},
+																			ignoreCase: false,
+																			inverted:   false,
+																		},
 																	},
 																},
-															},
-															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
-																alternatives: []interface{}{
-																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
-																		run: (*parser).callonListContinuationElement304,
-																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
-																			alternatives: []interface{}{
-																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
-																					val:        "\n",
-																					ignoreCase: false,
-																					want:       "\"\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
-																					val:        "\r\n",
-																					ignoreCase: false,
-																					want:       "\"\\r\\n\"",
-																				},
-																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
-																					val:        "\r",
-																					ignoreCase: false,
-																					want:       "\"\\r\"",
+																&choiceExpr{
+																	pos: position{line: 2882, col: 8, offset: 90849},
+																	alternatives: []interface{}{
+																		&actionExpr{
+																			pos: position{line: 2869, col: 12, offset: 90622},
+																			run: (*parser).callonListContinuationElement305,
+																			expr: &choiceExpr{
+																				pos: position{line: 2869, col: 13, offset: 90623},
+																				alternatives: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						val:        "\n",
+																						ignoreCase: false,
+																						want:       "\"\\n\"",
+																					},
+																					&litMatcher{
+																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						val:        "\r\n",
+																						ignoreCase: false,
+																						want:       "\"\\r\\n\"",
+																					},
+																					&litMatcher{
+																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						val:        "\r",
+																						ignoreCase: false,
+																						want:       "\"\\r\"",
+																					},
 																				},
 																			},
 																		},
-																	},
-																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
-																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																		&notExpr{
+																			pos: position{line: 2879, col: 8, offset: 90799},
+																			expr: &anyMatcher{
+																				line: 2879, col: 9, offset: 90800,
+																			},
 																		},
 																	},
 																},
@@ -30460,145 +30654,162 @@ var g = &grammar{
 														},
 													},
 												},
+												&andCodeExpr{
+													pos: position{line: 821, col: 5, offset: 26363},
+													run: (*parser).callonListContinuationElement312,
+												},
 												&labeledExpr{
-													pos:   position{line: 821, col: 5, offset: 26355},
+													pos:   position{line: 824, col: 5, offset: 26455},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 831, col: 5, offset: 26641},
+														pos: position{line: 839, col: 5, offset: 26853},
 														expr: &actionExpr{
-															pos: position{line: 831, col: 6, offset: 26642},
-															run: (*parser).callonListContinuationElement313,
+															pos: position{line: 839, col: 6, offset: 26854},
+															run: (*parser).callonListContinuationElement315,
 															expr: &seqExpr{
-																pos: position{line: 831, col: 6, offset: 26642},
+																pos: position{line: 839, col: 6, offset: 26854},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 831, col: 6, offset: 26642},
+																		pos: position{line: 839, col: 6, offset: 26854},
 																		expr: &choiceExpr{
-																			pos: position{line: 828, col: 29, offset: 26584},
+																			pos: position{line: 832, col: 5, offset: 26695},
 																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
-																					run: (*parser).callonListContinuationElement317,
-																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
-																						exprs: []interface{}{
-																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23584},
-																								label: "delimiter",
-																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
-																									run: (*parser).callonListContinuationElement320,
-																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
-																										exprs: []interface{}{
-																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23595},
-																												val:        "////",
-																												ignoreCase: false,
-																												want:       "\"////\"",
+																				&seqExpr{
+																					pos: position{line: 832, col: 5, offset: 26695},
+																					exprs: []interface{}{
+																						&labeledExpr{
+																							pos:   position{line: 832, col: 5, offset: 26695},
+																							label: "end",
+																							expr: &actionExpr{
+																								pos: position{line: 740, col: 5, offset: 23584},
+																								run: (*parser).callonListContinuationElement321,
+																								expr: &seqExpr{
+																									pos: position{line: 740, col: 5, offset: 23584},
+																									exprs: []interface{}{
+																										&labeledExpr{
+																											pos:   position{line: 740, col: 5, offset: 23584},
+																											label: "delimiter",
+																											expr: &actionExpr{
+																												pos: position{line: 740, col: 16, offset: 23595},
+																												run: (*parser).callonListContinuationElement324,
+																												expr: &seqExpr{
+																													pos: position{line: 740, col: 16, offset: 23595},
+																													exprs: []interface{}{
+																														&litMatcher{
+																															pos:        position{line: 740, col: 16, offset: 23595},
+																															val:        "////",
+																															ignoreCase: false,
+																															want:       "\"////\"",
+																														},
+																														&zeroOrMoreExpr{
+																															pos: position{line: 740, col: 23, offset: 23602},
+																															expr: &litMatcher{
+																																pos:        position{line: 740, col: 23, offset: 23602},
+																																val:        "/",
+																																ignoreCase: false,
+																																want:       "\"/\"",
+																															},
+																														},
+																													},
+																												},
 																											},
-																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23602},
-																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23602},
-																													val:        "/",
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 742, col: 8, offset: 23686},
+																											expr: &actionExpr{
+																												pos: position{line: 2860, col: 10, offset: 90451},
+																												run: (*parser).callonListContinuationElement330,
+																												expr: &charClassMatcher{
+																													pos:        position{line: 2860, col: 10, offset: 90451},
+																													val:        "[\\t ]",
+																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
-																													want:       "\"/\"",
+																													inverted:   false,
 																												},
 																											},
 																										},
-																									},
-																								},
-																							},
-																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23686},
-																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonListContinuationElement326,
-																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
-																										val:        "[\\t ]",
-																										chars:      []rune{'\t', ' '},
-																										ignoreCase: false,
-																										inverted:   false,
-																									},
-																								},
-																							},
-																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
-																								alternatives: []interface{}{
-																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonListContinuationElement329,
-																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																										&choiceExpr{
+																											pos: position{line: 2882, col: 8, offset: 90849},
 																											alternatives: []interface{}{
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
-																													val:        "\n",
-																													ignoreCase: false,
-																													want:       "\"\\n\"",
-																												},
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
-																													val:        "\r\n",
-																													ignoreCase: false,
-																													want:       "\"\\r\\n\"",
+																												&actionExpr{
+																													pos: position{line: 2869, col: 12, offset: 90622},
+																													run: (*parser).callonListContinuationElement333,
+																													expr: &choiceExpr{
+																														pos: position{line: 2869, col: 13, offset: 90623},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
 																												},
-																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
-																													val:        "\r",
-																													ignoreCase: false,
-																													want:       "\"\\r\"",
+																												&notExpr{
+																													pos: position{line: 2879, col: 8, offset: 90799},
+																													expr: &anyMatcher{
+																														line: 2879, col: 9, offset: 90800,
+																													},
 																												},
 																											},
 																										},
 																									},
-																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
-																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
-																										},
-																									},
 																								},
 																							},
 																						},
+																						&andCodeExpr{
+																							pos: position{line: 833, col: 5, offset: 26726},
+																							run: (*parser).callonListContinuationElement340,
+																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 832, col: 5, offset: 26672},
+																		pos:   position{line: 840, col: 5, offset: 26884},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement339,
+																			run: (*parser).callonListContinuationElement344,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2877, col: 11, offset: 90785},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2877, col: 13, offset: 90787,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
-																							run: (*parser).callonListContinuationElement344,
+																							pos: position{line: 2806, col: 13, offset: 88977},
+																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2806, col: 13, offset: 88977},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2806, col: 13, offset: 88977},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -30608,28 +30819,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2882, col: 8, offset: 90849},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonListContinuationElement348,
+																								pos: position{line: 2869, col: 12, offset: 90622},
+																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2869, col: 13, offset: 90623},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2869, col: 13, offset: 90623},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2869, col: 20, offset: 90630},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2869, col: 29, offset: 90639},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -30638,9 +30849,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2879, col: 8, offset: 90799},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2879, col: 9, offset: 90800,
 																								},
 																							},
 																						},
@@ -30654,104 +30865,121 @@ var g = &grammar{
 														},
 													},
 												},
-												&zeroOrOneExpr{
-													pos: position{line: 822, col: 5, offset: 26389},
-													expr: &choiceExpr{
-														pos: position{line: 828, col: 29, offset: 26584},
-														alternatives: []interface{}{
-															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23584},
-																run: (*parser).callonListContinuationElement357,
-																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
+												&labeledExpr{
+													pos:   position{line: 825, col: 5, offset: 26489},
+													label: "end",
+													expr: &zeroOrOneExpr{
+														pos: position{line: 825, col: 9, offset: 26493},
+														expr: &choiceExpr{
+															pos: position{line: 832, col: 5, offset: 26695},
+															alternatives: []interface{}{
+																&seqExpr{
+																	pos: position{line: 832, col: 5, offset: 26695},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23584},
-																			label: "delimiter",
+																			pos:   position{line: 832, col: 5, offset: 26695},
+																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23595},
-																				run: (*parser).callonListContinuationElement360,
+																				pos: position{line: 740, col: 5, offset: 23584},
+																				run: (*parser).callonListContinuationElement365,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
+																					pos: position{line: 740, col: 5, offset: 23584},
 																					exprs: []interface{}{
-																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23595},
-																							val:        "////",
-																							ignoreCase: false,
-																							want:       "\"////\"",
+																						&labeledExpr{
+																							pos:   position{line: 740, col: 5, offset: 23584},
+																							label: "delimiter",
+																							expr: &actionExpr{
+																								pos: position{line: 740, col: 16, offset: 23595},
+																								run: (*parser).callonListContinuationElement368,
+																								expr: &seqExpr{
+																									pos: position{line: 740, col: 16, offset: 23595},
+																									exprs: []interface{}{
+																										&litMatcher{
+																											pos:        position{line: 740, col: 16, offset: 23595},
+																											val:        "////",
+																											ignoreCase: false,
+																											want:       "\"////\"",
+																										},
+																										&zeroOrMoreExpr{
+																											pos: position{line: 740, col: 23, offset: 23602},
+																											expr: &litMatcher{
+																												pos:        position{line: 740, col: 23, offset: 23602},
+																												val:        "/",
+																												ignoreCase: false,
+																												want:       "\"/\"",
+																											},
+																										},
+																									},
+																								},
+																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23602},
-																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23602},
-																								val:        "/",
-																								ignoreCase: false,
-																								want:       "\"/\"",
+																							pos: position{line: 742, col: 8, offset: 23686},
+																							expr: &actionExpr{
+																								pos: position{line: 2860, col: 10, offset: 90451},
+																								run: (*parser).callonListContinuationElement374,
+																								expr: &charClassMatcher{
+																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									val:        "[\\t ]",
+																									chars:      []rune{'\t', ' '},
+																									ignoreCase: false,
+																									inverted:   false,
+																								},
 																							},
 																						},
-																					},
-																				},
-																			},
-																		},
-																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23686},
-																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
-																				run: (*parser).callonListContinuationElement366,
-																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
-																					val:        "[\\t ]",
-																					chars:      []rune{'\t', ' '},
-																					ignoreCase: false,
-																					inverted:   false,
-																				},
-																			},
-																		},
-																		&choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
-																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
-																					run: (*parser).callonListContinuationElement369,
-																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
-																						alternatives: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
-																								val:        "\n",
-																								ignoreCase: false,
-																								want:       "\"\\n\"",
-																							},
-																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
-																								val:        "\r\n",
-																								ignoreCase: false,
-																								want:       "\"\\r\\n\"",
-																							},
-																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
-																								val:        "\r",
-																								ignoreCase: false,
-																								want:       "\"\\r\"",
+																						&choiceExpr{
+																							pos: position{line: 2882, col: 8, offset: 90849},
+																							alternatives: []interface{}{
+																								&actionExpr{
+																									pos: position{line: 2869, col: 12, offset: 90622},
+																									run: (*parser).callonListContinuationElement377,
+																									expr: &choiceExpr{
+																										pos: position{line: 2869, col: 13, offset: 90623},
+																										alternatives: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												val:        "\n",
+																												ignoreCase: false,
+																												want:       "\"\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												val:        "\r\n",
+																												ignoreCase: false,
+																												want:       "\"\\r\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												val:        "\r",
+																												ignoreCase: false,
+																												want:       "\"\\r\"",
+																											},
+																										},
+																									},
+																								},
+																								&notExpr{
+																									pos: position{line: 2879, col: 8, offset: 90799},
+																									expr: &anyMatcher{
+																										line: 2879, col: 9, offset: 90800,
+																									},
+																								},
 																							},
 																						},
 																					},
 																				},
-																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
-																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
-																					},
-																				},
 																			},
 																		},
+																		&andCodeExpr{
+																			pos: position{line: 833, col: 5, offset: 26726},
+																			run: (*parser).callonListContinuationElement384,
+																		},
 																	},
 																},
-															},
-															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
-																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																&notExpr{
+																	pos: position{line: 2879, col: 8, offset: 90799},
+																	expr: &anyMatcher{
+																		line: 2879, col: 9, offset: 90800,
+																	},
 																},
 															},
 														},
@@ -30761,17 +30989,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 840, col: 5, offset: 26825},
-										run: (*parser).callonListContinuationElement378,
+										pos: position{line: 848, col: 5, offset: 27037},
+										run: (*parser).callonListContinuationElement387,
 										expr: &seqExpr{
-											pos: position{line: 840, col: 5, offset: 26825},
+											pos: position{line: 848, col: 5, offset: 27037},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 840, col: 5, offset: 26825},
+													pos:   position{line: 848, col: 5, offset: 27037},
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 747, col: 5, offset: 23832},
-														run: (*parser).callonListContinuationElement381,
+														run: (*parser).callonListContinuationElement390,
 														expr: &seqExpr{
 															pos: position{line: 747, col: 5, offset: 23832},
 															exprs: []interface{}{
@@ -30780,7 +31008,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 747, col: 16, offset: 23843},
-																		run: (*parser).callonListContinuationElement384,
+																		run: (*parser).callonListContinuationElement393,
 																		expr: &seqExpr{
 																			pos: position{line: 747, col: 16, offset: 23843},
 																			exprs: []interface{}{
@@ -30806,10 +31034,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 749, col: 8, offset: 23934},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonListContinuationElement390,
+																		pos: position{line: 2860, col: 10, offset: 90451},
+																		run: (*parser).callonListContinuationElement399,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2860, col: 10, offset: 90451},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30818,28 +31046,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2882, col: 8, offset: 90849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement393,
+																			pos: position{line: 2869, col: 12, offset: 90622},
+																			run: (*parser).callonListContinuationElement402,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2869, col: 13, offset: 90623},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2869, col: 13, offset: 90623},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2869, col: 20, offset: 90630},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2869, col: 29, offset: 90639},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30848,9 +31076,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2879, col: 8, offset: 90799},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2879, col: 9, offset: 90800,
 																			},
 																		},
 																	},
@@ -30860,34 +31088,34 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 841, col: 5, offset: 26864},
-													run: (*parser).callonListContinuationElement400,
+													pos: position{line: 849, col: 5, offset: 27076},
+													run: (*parser).callonListContinuationElement409,
 												},
 												&labeledExpr{
-													pos:   position{line: 844, col: 5, offset: 26956},
+													pos:   position{line: 852, col: 5, offset: 27168},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 859, col: 4, offset: 27353},
+														pos: position{line: 867, col: 4, offset: 27565},
 														expr: &actionExpr{
-															pos: position{line: 859, col: 5, offset: 27354},
-															run: (*parser).callonListContinuationElement403,
+															pos: position{line: 867, col: 5, offset: 27566},
+															run: (*parser).callonListContinuationElement412,
 															expr: &seqExpr{
-																pos: position{line: 859, col: 5, offset: 27354},
+																pos: position{line: 867, col: 5, offset: 27566},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 859, col: 5, offset: 27354},
+																		pos: position{line: 867, col: 5, offset: 27566},
 																		expr: &choiceExpr{
-																			pos: position{line: 852, col: 5, offset: 27196},
+																			pos: position{line: 860, col: 5, offset: 27408},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 852, col: 5, offset: 27196},
+																					pos: position{line: 860, col: 5, offset: 27408},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 852, col: 5, offset: 27196},
+																							pos:   position{line: 860, col: 5, offset: 27408},
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 747, col: 5, offset: 23832},
-																								run: (*parser).callonListContinuationElement409,
+																								run: (*parser).callonListContinuationElement418,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 5, offset: 23832},
 																									exprs: []interface{}{
@@ -30896,7 +31124,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 747, col: 16, offset: 23843},
-																												run: (*parser).callonListContinuationElement412,
+																												run: (*parser).callonListContinuationElement421,
 																												expr: &seqExpr{
 																													pos: position{line: 747, col: 16, offset: 23843},
 																													exprs: []interface{}{
@@ -30922,10 +31150,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23934},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement418,
+																												pos: position{line: 2860, col: 10, offset: 90451},
+																												run: (*parser).callonListContinuationElement427,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2860, col: 10, offset: 90451},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -30934,28 +31162,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2882, col: 8, offset: 90849},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement421,
+																													pos: position{line: 2869, col: 12, offset: 90622},
+																													run: (*parser).callonListContinuationElement430,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2869, col: 13, offset: 90623},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2869, col: 13, offset: 90623},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2869, col: 20, offset: 90630},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2869, col: 29, offset: 90639},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -30964,9 +31192,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2879, col: 8, offset: 90799},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2879, col: 9, offset: 90800,
 																													},
 																												},
 																											},
@@ -30976,45 +31204,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 853, col: 5, offset: 27227},
-																							run: (*parser).callonListContinuationElement428,
+																							pos: position{line: 861, col: 5, offset: 27439},
+																							run: (*parser).callonListContinuationElement437,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 860, col: 5, offset: 27384},
+																		pos:   position{line: 868, col: 5, offset: 27596},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement432,
+																			run: (*parser).callonListContinuationElement441,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2877, col: 11, offset: 90785},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2877, col: 13, offset: 90787,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
-																							run: (*parser).callonListContinuationElement437,
+																							pos: position{line: 2806, col: 13, offset: 88977},
+																							run: (*parser).callonListContinuationElement446,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2806, col: 13, offset: 88977},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2806, col: 13, offset: 88977},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31024,28 +31252,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2882, col: 8, offset: 90849},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonListContinuationElement441,
+																								pos: position{line: 2869, col: 12, offset: 90622},
+																								run: (*parser).callonListContinuationElement450,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2869, col: 13, offset: 90623},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2869, col: 13, offset: 90623},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2869, col: 20, offset: 90630},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2869, col: 29, offset: 90639},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31054,9 +31282,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2879, col: 8, offset: 90799},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2879, col: 9, offset: 90800,
 																								},
 																							},
 																						},
@@ -31071,22 +31299,22 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 845, col: 5, offset: 26990},
+													pos:   position{line: 853, col: 5, offset: 27202},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 845, col: 9, offset: 26994},
+														pos: position{line: 853, col: 9, offset: 27206},
 														expr: &choiceExpr{
-															pos: position{line: 852, col: 5, offset: 27196},
+															pos: position{line: 860, col: 5, offset: 27408},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 852, col: 5, offset: 27196},
+																	pos: position{line: 860, col: 5, offset: 27408},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 852, col: 5, offset: 27196},
+																			pos:   position{line: 860, col: 5, offset: 27408},
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 747, col: 5, offset: 23832},
-																				run: (*parser).callonListContinuationElement453,
+																				run: (*parser).callonListContinuationElement462,
 																				expr: &seqExpr{
 																					pos: position{line: 747, col: 5, offset: 23832},
 																					exprs: []interface{}{
@@ -31095,7 +31323,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 747, col: 16, offset: 23843},
-																								run: (*parser).callonListContinuationElement456,
+																								run: (*parser).callonListContinuationElement465,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 16, offset: 23843},
 																									exprs: []interface{}{
@@ -31121,10 +31349,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23934},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonListContinuationElement462,
+																								pos: position{line: 2860, col: 10, offset: 90451},
+																								run: (*parser).callonListContinuationElement471,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2860, col: 10, offset: 90451},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31133,28 +31361,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonListContinuationElement465,
+																									pos: position{line: 2869, col: 12, offset: 90622},
+																									run: (*parser).callonListContinuationElement474,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31163,9 +31391,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -31175,15 +31403,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 853, col: 5, offset: 27227},
-																			run: (*parser).callonListContinuationElement472,
+																			pos: position{line: 861, col: 5, offset: 27439},
+																			run: (*parser).callonListContinuationElement481,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2879, col: 8, offset: 90799},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2879, col: 9, offset: 90800,
 																	},
 																},
 															},
@@ -31194,17 +31422,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 952, col: 5, offset: 29676},
-										run: (*parser).callonListContinuationElement475,
+										pos: position{line: 960, col: 5, offset: 29888},
+										run: (*parser).callonListContinuationElement484,
 										expr: &seqExpr{
-											pos: position{line: 952, col: 5, offset: 29676},
+											pos: position{line: 960, col: 5, offset: 29888},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 952, col: 5, offset: 29676},
+													pos:   position{line: 960, col: 5, offset: 29888},
 													label: "delimiter",
 													expr: &actionExpr{
 														pos: position{line: 760, col: 26, offset: 24320},
-														run: (*parser).callonListContinuationElement478,
+														run: (*parser).callonListContinuationElement487,
 														expr: &seqExpr{
 															pos: position{line: 760, col: 26, offset: 24320},
 															exprs: []interface{}{
@@ -31219,7 +31447,7 @@ var g = &grammar{
 																	label: "language",
 																	expr: &actionExpr{
 																		pos: position{line: 764, col: 13, offset: 24456},
-																		run: (*parser).callonListContinuationElement482,
+																		run: (*parser).callonListContinuationElement491,
 																		expr: &oneOrMoreExpr{
 																			pos: position{line: 764, col: 14, offset: 24457},
 																			expr: &charClassMatcher{
@@ -31235,10 +31463,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 760, col: 52, offset: 24346},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonListContinuationElement486,
+																		pos: position{line: 2860, col: 10, offset: 90451},
+																		run: (*parser).callonListContinuationElement495,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2860, col: 10, offset: 90451},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31247,28 +31475,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2882, col: 8, offset: 90849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement489,
+																			pos: position{line: 2869, col: 12, offset: 90622},
+																			run: (*parser).callonListContinuationElement498,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2869, col: 13, offset: 90623},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2869, col: 13, offset: 90623},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2869, col: 20, offset: 90630},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2869, col: 29, offset: 90639},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31277,9 +31505,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2879, col: 8, offset: 90799},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2879, col: 9, offset: 90800,
 																			},
 																		},
 																	},
@@ -31289,34 +31517,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 953, col: 5, offset: 29722},
+													pos:   position{line: 961, col: 5, offset: 29934},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 966, col: 5, offset: 30195},
+														pos: position{line: 974, col: 5, offset: 30407},
 														expr: &actionExpr{
-															pos: position{line: 966, col: 6, offset: 30196},
-															run: (*parser).callonListContinuationElement498,
+															pos: position{line: 974, col: 6, offset: 30408},
+															run: (*parser).callonListContinuationElement507,
 															expr: &seqExpr{
-																pos: position{line: 966, col: 6, offset: 30196},
+																pos: position{line: 974, col: 6, offset: 30408},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 966, col: 6, offset: 30196},
+																		pos: position{line: 974, col: 6, offset: 30408},
 																		expr: &seqExpr{
-																			pos: position{line: 963, col: 34, offset: 30143},
+																			pos: position{line: 971, col: 34, offset: 30355},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 963, col: 34, offset: 30143},
+																					pos:        position{line: 971, col: 34, offset: 30355},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 963, col: 40, offset: 30149},
+																					pos: position{line: 971, col: 40, offset: 30361},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonListContinuationElement504,
+																						pos: position{line: 2860, col: 10, offset: 90451},
+																						run: (*parser).callonListContinuationElement513,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2860, col: 10, offset: 90451},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -31325,28 +31553,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2882, col: 8, offset: 90849},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
-																							run: (*parser).callonListContinuationElement507,
+																							pos: position{line: 2869, col: 12, offset: 90622},
+																							run: (*parser).callonListContinuationElement516,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2869, col: 13, offset: 90623},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2869, col: 13, offset: 90623},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2869, col: 20, offset: 90630},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2869, col: 29, offset: 90639},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31355,9 +31583,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2879, col: 8, offset: 90799},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2879, col: 9, offset: 90800,
 																							},
 																						},
 																					},
@@ -31366,30 +31594,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 967, col: 5, offset: 30231},
+																		pos:   position{line: 975, col: 5, offset: 30443},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement515,
+																			run: (*parser).callonListContinuationElement524,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2877, col: 11, offset: 90785},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2877, col: 13, offset: 90787,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
-																							run: (*parser).callonListContinuationElement520,
+																							pos: position{line: 2806, col: 13, offset: 88977},
+																							run: (*parser).callonListContinuationElement529,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2806, col: 13, offset: 88977},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2806, col: 13, offset: 88977},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31399,28 +31627,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2882, col: 8, offset: 90849},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonListContinuationElement524,
+																								pos: position{line: 2869, col: 12, offset: 90622},
+																								run: (*parser).callonListContinuationElement533,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2869, col: 13, offset: 90623},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2869, col: 13, offset: 90623},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2869, col: 20, offset: 90630},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2869, col: 29, offset: 90639},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31429,9 +31657,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2879, col: 8, offset: 90799},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2879, col: 9, offset: 90800,
 																								},
 																							},
 																						},
@@ -31446,23 +31674,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 954, col: 5, offset: 29761},
+													pos: position{line: 962, col: 5, offset: 29973},
 													expr: &seqExpr{
-														pos: position{line: 963, col: 34, offset: 30143},
+														pos: position{line: 971, col: 34, offset: 30355},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 963, col: 34, offset: 30143},
+																pos:        position{line: 971, col: 34, offset: 30355},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 963, col: 40, offset: 30149},
+																pos: position{line: 971, col: 40, offset: 30361},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
-																	run: (*parser).callonListContinuationElement535,
+																	pos: position{line: 2860, col: 10, offset: 90451},
+																	run: (*parser).callonListContinuationElement544,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2860, col: 10, offset: 90451},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31471,28 +31699,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2882, col: 8, offset: 90849},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
-																		run: (*parser).callonListContinuationElement538,
+																		pos: position{line: 2869, col: 12, offset: 90622},
+																		run: (*parser).callonListContinuationElement547,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2869, col: 13, offset: 90623},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2869, col: 13, offset: 90623},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2869, col: 20, offset: 90630},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2869, col: 29, offset: 90639},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31501,9 +31729,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2879, col: 8, offset: 90799},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2879, col: 9, offset: 90800,
 																		},
 																	},
 																},
@@ -31515,17 +31743,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 868, col: 5, offset: 27537},
-										run: (*parser).callonListContinuationElement545,
+										pos: position{line: 876, col: 5, offset: 27749},
+										run: (*parser).callonListContinuationElement554,
 										expr: &seqExpr{
-											pos: position{line: 868, col: 5, offset: 27537},
+											pos: position{line: 876, col: 5, offset: 27749},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 868, col: 5, offset: 27537},
+													pos:   position{line: 876, col: 5, offset: 27749},
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 754, col: 5, offset: 24079},
-														run: (*parser).callonListContinuationElement548,
+														run: (*parser).callonListContinuationElement557,
 														expr: &seqExpr{
 															pos: position{line: 754, col: 5, offset: 24079},
 															exprs: []interface{}{
@@ -31534,7 +31762,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 754, col: 16, offset: 24090},
-																		run: (*parser).callonListContinuationElement551,
+																		run: (*parser).callonListContinuationElement560,
 																		expr: &seqExpr{
 																			pos: position{line: 754, col: 16, offset: 24090},
 																			exprs: []interface{}{
@@ -31560,10 +31788,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 756, col: 8, offset: 24180},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonListContinuationElement557,
+																		pos: position{line: 2860, col: 10, offset: 90451},
+																		run: (*parser).callonListContinuationElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2860, col: 10, offset: 90451},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31572,28 +31800,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2882, col: 8, offset: 90849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement560,
+																			pos: position{line: 2869, col: 12, offset: 90622},
+																			run: (*parser).callonListContinuationElement569,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2869, col: 13, offset: 90623},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2869, col: 13, offset: 90623},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2869, col: 20, offset: 90630},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2869, col: 29, offset: 90639},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31602,9 +31830,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2879, col: 8, offset: 90799},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2879, col: 9, offset: 90800,
 																			},
 																		},
 																	},
@@ -31614,34 +31842,34 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 869, col: 5, offset: 27575},
-													run: (*parser).callonListContinuationElement567,
+													pos: position{line: 877, col: 5, offset: 27787},
+													run: (*parser).callonListContinuationElement576,
 												},
 												&labeledExpr{
-													pos:   position{line: 872, col: 5, offset: 27667},
+													pos:   position{line: 880, col: 5, offset: 27879},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 887, col: 5, offset: 28057},
+														pos: position{line: 895, col: 5, offset: 28269},
 														expr: &actionExpr{
-															pos: position{line: 887, col: 6, offset: 28058},
-															run: (*parser).callonListContinuationElement570,
+															pos: position{line: 895, col: 6, offset: 28270},
+															run: (*parser).callonListContinuationElement579,
 															expr: &seqExpr{
-																pos: position{line: 887, col: 6, offset: 28058},
+																pos: position{line: 895, col: 6, offset: 28270},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 887, col: 6, offset: 28058},
+																		pos: position{line: 895, col: 6, offset: 28270},
 																		expr: &choiceExpr{
-																			pos: position{line: 880, col: 5, offset: 27901},
+																			pos: position{line: 888, col: 5, offset: 28113},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 880, col: 5, offset: 27901},
+																					pos: position{line: 888, col: 5, offset: 28113},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 880, col: 5, offset: 27901},
+																							pos:   position{line: 888, col: 5, offset: 28113},
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 754, col: 5, offset: 24079},
-																								run: (*parser).callonListContinuationElement576,
+																								run: (*parser).callonListContinuationElement585,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 5, offset: 24079},
 																									exprs: []interface{}{
@@ -31650,7 +31878,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 754, col: 16, offset: 24090},
-																												run: (*parser).callonListContinuationElement579,
+																												run: (*parser).callonListContinuationElement588,
 																												expr: &seqExpr{
 																													pos: position{line: 754, col: 16, offset: 24090},
 																													exprs: []interface{}{
@@ -31676,10 +31904,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24180},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement585,
+																												pos: position{line: 2860, col: 10, offset: 90451},
+																												run: (*parser).callonListContinuationElement594,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2860, col: 10, offset: 90451},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31688,28 +31916,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2882, col: 8, offset: 90849},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement588,
+																													pos: position{line: 2869, col: 12, offset: 90622},
+																													run: (*parser).callonListContinuationElement597,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2869, col: 13, offset: 90623},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2869, col: 13, offset: 90623},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2869, col: 20, offset: 90630},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2869, col: 29, offset: 90639},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31718,9 +31946,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2879, col: 8, offset: 90799},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2879, col: 9, offset: 90800,
 																													},
 																												},
 																											},
@@ -31730,45 +31958,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 881, col: 5, offset: 27931},
-																							run: (*parser).callonListContinuationElement595,
+																							pos: position{line: 889, col: 5, offset: 28143},
+																							run: (*parser).callonListContinuationElement604,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 888, col: 5, offset: 28087},
+																		pos:   position{line: 896, col: 5, offset: 28299},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement599,
+																			run: (*parser).callonListContinuationElement608,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2877, col: 11, offset: 90785},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2877, col: 13, offset: 90787,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
-																							run: (*parser).callonListContinuationElement604,
+																							pos: position{line: 2806, col: 13, offset: 88977},
+																							run: (*parser).callonListContinuationElement613,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2806, col: 13, offset: 88977},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2806, col: 13, offset: 88977},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31778,28 +32006,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2882, col: 8, offset: 90849},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonListContinuationElement608,
+																								pos: position{line: 2869, col: 12, offset: 90622},
+																								run: (*parser).callonListContinuationElement617,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2869, col: 13, offset: 90623},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2869, col: 13, offset: 90623},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2869, col: 20, offset: 90630},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2869, col: 29, offset: 90639},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31808,9 +32036,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2879, col: 8, offset: 90799},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2879, col: 9, offset: 90800,
 																								},
 																							},
 																						},
@@ -31825,22 +32053,22 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 873, col: 5, offset: 27700},
+													pos:   position{line: 881, col: 5, offset: 27912},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 873, col: 9, offset: 27704},
+														pos: position{line: 881, col: 9, offset: 27916},
 														expr: &choiceExpr{
-															pos: position{line: 880, col: 5, offset: 27901},
+															pos: position{line: 888, col: 5, offset: 28113},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 880, col: 5, offset: 27901},
+																	pos: position{line: 888, col: 5, offset: 28113},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 880, col: 5, offset: 27901},
+																			pos:   position{line: 888, col: 5, offset: 28113},
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 754, col: 5, offset: 24079},
-																				run: (*parser).callonListContinuationElement620,
+																				run: (*parser).callonListContinuationElement629,
 																				expr: &seqExpr{
 																					pos: position{line: 754, col: 5, offset: 24079},
 																					exprs: []interface{}{
@@ -31849,7 +32077,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 754, col: 16, offset: 24090},
-																								run: (*parser).callonListContinuationElement623,
+																								run: (*parser).callonListContinuationElement632,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 16, offset: 24090},
 																									exprs: []interface{}{
@@ -31875,10 +32103,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24180},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonListContinuationElement629,
+																								pos: position{line: 2860, col: 10, offset: 90451},
+																								run: (*parser).callonListContinuationElement638,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2860, col: 10, offset: 90451},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31887,28 +32115,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonListContinuationElement632,
+																									pos: position{line: 2869, col: 12, offset: 90622},
+																									run: (*parser).callonListContinuationElement641,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31917,9 +32145,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -31929,15 +32157,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 881, col: 5, offset: 27931},
-																			run: (*parser).callonListContinuationElement639,
+																			pos: position{line: 889, col: 5, offset: 28143},
+																			run: (*parser).callonListContinuationElement648,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2879, col: 8, offset: 90799},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2879, col: 9, offset: 90800,
 																	},
 																},
 															},
@@ -31948,17 +32176,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 896, col: 5, offset: 28242},
-										run: (*parser).callonListContinuationElement642,
+										pos: position{line: 904, col: 5, offset: 28454},
+										run: (*parser).callonListContinuationElement651,
 										expr: &seqExpr{
-											pos: position{line: 896, col: 5, offset: 28242},
+											pos: position{line: 904, col: 5, offset: 28454},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 896, col: 5, offset: 28242},
+													pos:   position{line: 904, col: 5, offset: 28454},
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 769, col: 5, offset: 24616},
-														run: (*parser).callonListContinuationElement645,
+														run: (*parser).callonListContinuationElement654,
 														expr: &seqExpr{
 															pos: position{line: 769, col: 5, offset: 24616},
 															exprs: []interface{}{
@@ -31967,7 +32195,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 769, col: 16, offset: 24627},
-																		run: (*parser).callonListContinuationElement648,
+																		run: (*parser).callonListContinuationElement657,
 																		expr: &seqExpr{
 																			pos: position{line: 769, col: 16, offset: 24627},
 																			exprs: []interface{}{
@@ -31993,10 +32221,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 771, col: 8, offset: 24718},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonListContinuationElement654,
+																		pos: position{line: 2860, col: 10, offset: 90451},
+																		run: (*parser).callonListContinuationElement663,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2860, col: 10, offset: 90451},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32005,28 +32233,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2882, col: 8, offset: 90849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement657,
+																			pos: position{line: 2869, col: 12, offset: 90622},
+																			run: (*parser).callonListContinuationElement666,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2869, col: 13, offset: 90623},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2869, col: 13, offset: 90623},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2869, col: 20, offset: 90630},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2869, col: 29, offset: 90639},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32035,9 +32263,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2879, col: 8, offset: 90799},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2879, col: 9, offset: 90800,
 																			},
 																		},
 																	},
@@ -32047,34 +32275,34 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 897, col: 5, offset: 28281},
-													run: (*parser).callonListContinuationElement664,
+													pos: position{line: 905, col: 5, offset: 28493},
+													run: (*parser).callonListContinuationElement673,
 												},
 												&labeledExpr{
-													pos:   position{line: 900, col: 5, offset: 28373},
+													pos:   position{line: 908, col: 5, offset: 28585},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 915, col: 5, offset: 28771},
+														pos: position{line: 923, col: 5, offset: 28983},
 														expr: &actionExpr{
-															pos: position{line: 915, col: 6, offset: 28772},
-															run: (*parser).callonListContinuationElement667,
+															pos: position{line: 923, col: 6, offset: 28984},
+															run: (*parser).callonListContinuationElement676,
 															expr: &seqExpr{
-																pos: position{line: 915, col: 6, offset: 28772},
+																pos: position{line: 923, col: 6, offset: 28984},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 915, col: 6, offset: 28772},
+																		pos: position{line: 923, col: 6, offset: 28984},
 																		expr: &choiceExpr{
-																			pos: position{line: 908, col: 5, offset: 28613},
+																			pos: position{line: 916, col: 5, offset: 28825},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 908, col: 5, offset: 28613},
+																					pos: position{line: 916, col: 5, offset: 28825},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 908, col: 5, offset: 28613},
+																							pos:   position{line: 916, col: 5, offset: 28825},
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 769, col: 5, offset: 24616},
-																								run: (*parser).callonListContinuationElement673,
+																								run: (*parser).callonListContinuationElement682,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 5, offset: 24616},
 																									exprs: []interface{}{
@@ -32083,7 +32311,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 769, col: 16, offset: 24627},
-																												run: (*parser).callonListContinuationElement676,
+																												run: (*parser).callonListContinuationElement685,
 																												expr: &seqExpr{
 																													pos: position{line: 769, col: 16, offset: 24627},
 																													exprs: []interface{}{
@@ -32109,10 +32337,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24718},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement682,
+																												pos: position{line: 2860, col: 10, offset: 90451},
+																												run: (*parser).callonListContinuationElement691,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2860, col: 10, offset: 90451},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32121,28 +32349,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2882, col: 8, offset: 90849},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement685,
+																													pos: position{line: 2869, col: 12, offset: 90622},
+																													run: (*parser).callonListContinuationElement694,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2869, col: 13, offset: 90623},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2869, col: 13, offset: 90623},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2869, col: 20, offset: 90630},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2869, col: 29, offset: 90639},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32151,9 +32379,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2879, col: 8, offset: 90799},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2879, col: 9, offset: 90800,
 																													},
 																												},
 																											},
@@ -32163,45 +32391,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 909, col: 5, offset: 28644},
-																							run: (*parser).callonListContinuationElement692,
+																							pos: position{line: 917, col: 5, offset: 28856},
+																							run: (*parser).callonListContinuationElement701,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 916, col: 5, offset: 28802},
+																		pos:   position{line: 924, col: 5, offset: 29014},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement696,
+																			run: (*parser).callonListContinuationElement705,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2877, col: 11, offset: 90785},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2877, col: 13, offset: 90787,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
-																							run: (*parser).callonListContinuationElement701,
+																							pos: position{line: 2806, col: 13, offset: 88977},
+																							run: (*parser).callonListContinuationElement710,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2806, col: 13, offset: 88977},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2806, col: 13, offset: 88977},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32211,28 +32439,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2882, col: 8, offset: 90849},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonListContinuationElement705,
+																								pos: position{line: 2869, col: 12, offset: 90622},
+																								run: (*parser).callonListContinuationElement714,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2869, col: 13, offset: 90623},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2869, col: 13, offset: 90623},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2869, col: 20, offset: 90630},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2869, col: 29, offset: 90639},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32241,9 +32469,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2879, col: 8, offset: 90799},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2879, col: 9, offset: 90800,
 																								},
 																							},
 																						},
@@ -32258,22 +32486,22 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 901, col: 5, offset: 28407},
+													pos:   position{line: 909, col: 5, offset: 28619},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 901, col: 9, offset: 28411},
+														pos: position{line: 909, col: 9, offset: 28623},
 														expr: &choiceExpr{
-															pos: position{line: 908, col: 5, offset: 28613},
+															pos: position{line: 916, col: 5, offset: 28825},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 908, col: 5, offset: 28613},
+																	pos: position{line: 916, col: 5, offset: 28825},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 908, col: 5, offset: 28613},
+																			pos:   position{line: 916, col: 5, offset: 28825},
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 769, col: 5, offset: 24616},
-																				run: (*parser).callonListContinuationElement717,
+																				run: (*parser).callonListContinuationElement726,
 																				expr: &seqExpr{
 																					pos: position{line: 769, col: 5, offset: 24616},
 																					exprs: []interface{}{
@@ -32282,7 +32510,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 769, col: 16, offset: 24627},
-																								run: (*parser).callonListContinuationElement720,
+																								run: (*parser).callonListContinuationElement729,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 16, offset: 24627},
 																									exprs: []interface{}{
@@ -32308,10 +32536,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24718},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonListContinuationElement726,
+																								pos: position{line: 2860, col: 10, offset: 90451},
+																								run: (*parser).callonListContinuationElement735,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2860, col: 10, offset: 90451},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32320,28 +32548,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonListContinuationElement729,
+																									pos: position{line: 2869, col: 12, offset: 90622},
+																									run: (*parser).callonListContinuationElement738,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32350,9 +32578,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -32362,15 +32590,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 909, col: 5, offset: 28644},
-																			run: (*parser).callonListContinuationElement736,
+																			pos: position{line: 917, col: 5, offset: 28856},
+																			run: (*parser).callonListContinuationElement745,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2879, col: 8, offset: 90799},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2879, col: 9, offset: 90800,
 																	},
 																},
 															},
@@ -32381,17 +32609,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 924, col: 5, offset: 28957},
-										run: (*parser).callonListContinuationElement739,
+										pos: position{line: 932, col: 5, offset: 29169},
+										run: (*parser).callonListContinuationElement748,
 										expr: &seqExpr{
-											pos: position{line: 924, col: 5, offset: 28957},
+											pos: position{line: 932, col: 5, offset: 29169},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 924, col: 5, offset: 28957},
+													pos:   position{line: 932, col: 5, offset: 29169},
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 783, col: 5, offset: 25092},
-														run: (*parser).callonListContinuationElement742,
+														run: (*parser).callonListContinuationElement751,
 														expr: &seqExpr{
 															pos: position{line: 783, col: 5, offset: 25092},
 															exprs: []interface{}{
@@ -32400,7 +32628,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 783, col: 16, offset: 25103},
-																		run: (*parser).callonListContinuationElement745,
+																		run: (*parser).callonListContinuationElement754,
 																		expr: &seqExpr{
 																			pos: position{line: 783, col: 16, offset: 25103},
 																			exprs: []interface{}{
@@ -32426,10 +32654,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 785, col: 8, offset: 25194},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonListContinuationElement751,
+																		pos: position{line: 2860, col: 10, offset: 90451},
+																		run: (*parser).callonListContinuationElement760,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2860, col: 10, offset: 90451},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32438,28 +32666,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2882, col: 8, offset: 90849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement754,
+																			pos: position{line: 2869, col: 12, offset: 90622},
+																			run: (*parser).callonListContinuationElement763,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2869, col: 13, offset: 90623},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2869, col: 13, offset: 90623},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2869, col: 20, offset: 90630},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2869, col: 29, offset: 90639},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32468,9 +32696,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2879, col: 8, offset: 90799},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2879, col: 9, offset: 90800,
 																			},
 																		},
 																	},
@@ -32480,34 +32708,34 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 925, col: 5, offset: 28996},
-													run: (*parser).callonListContinuationElement761,
+													pos: position{line: 933, col: 5, offset: 29208},
+													run: (*parser).callonListContinuationElement770,
 												},
 												&labeledExpr{
-													pos:   position{line: 928, col: 5, offset: 29088},
+													pos:   position{line: 936, col: 5, offset: 29300},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 943, col: 5, offset: 29486},
+														pos: position{line: 951, col: 5, offset: 29698},
 														expr: &actionExpr{
-															pos: position{line: 943, col: 6, offset: 29487},
-															run: (*parser).callonListContinuationElement764,
+															pos: position{line: 951, col: 6, offset: 29699},
+															run: (*parser).callonListContinuationElement773,
 															expr: &seqExpr{
-																pos: position{line: 943, col: 6, offset: 29487},
+																pos: position{line: 951, col: 6, offset: 29699},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 943, col: 6, offset: 29487},
+																		pos: position{line: 951, col: 6, offset: 29699},
 																		expr: &choiceExpr{
-																			pos: position{line: 936, col: 5, offset: 29328},
+																			pos: position{line: 944, col: 5, offset: 29540},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 936, col: 5, offset: 29328},
+																					pos: position{line: 944, col: 5, offset: 29540},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 936, col: 5, offset: 29328},
+																							pos:   position{line: 944, col: 5, offset: 29540},
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 783, col: 5, offset: 25092},
-																								run: (*parser).callonListContinuationElement770,
+																								run: (*parser).callonListContinuationElement779,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 5, offset: 25092},
 																									exprs: []interface{}{
@@ -32516,7 +32744,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 783, col: 16, offset: 25103},
-																												run: (*parser).callonListContinuationElement773,
+																												run: (*parser).callonListContinuationElement782,
 																												expr: &seqExpr{
 																													pos: position{line: 783, col: 16, offset: 25103},
 																													exprs: []interface{}{
@@ -32542,10 +32770,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25194},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement779,
+																												pos: position{line: 2860, col: 10, offset: 90451},
+																												run: (*parser).callonListContinuationElement788,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2860, col: 10, offset: 90451},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32554,28 +32782,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2882, col: 8, offset: 90849},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement782,
+																													pos: position{line: 2869, col: 12, offset: 90622},
+																													run: (*parser).callonListContinuationElement791,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2869, col: 13, offset: 90623},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2869, col: 13, offset: 90623},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2869, col: 20, offset: 90630},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2869, col: 29, offset: 90639},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32584,9 +32812,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2879, col: 8, offset: 90799},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2879, col: 9, offset: 90800,
 																													},
 																												},
 																											},
@@ -32596,45 +32824,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 937, col: 5, offset: 29359},
-																							run: (*parser).callonListContinuationElement789,
+																							pos: position{line: 945, col: 5, offset: 29571},
+																							run: (*parser).callonListContinuationElement798,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 944, col: 5, offset: 29517},
+																		pos:   position{line: 952, col: 5, offset: 29729},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement793,
+																			run: (*parser).callonListContinuationElement802,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2877, col: 11, offset: 90785},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2877, col: 13, offset: 90787,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
-																							run: (*parser).callonListContinuationElement798,
+																							pos: position{line: 2806, col: 13, offset: 88977},
+																							run: (*parser).callonListContinuationElement807,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2806, col: 13, offset: 88977},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2806, col: 13, offset: 88977},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32644,28 +32872,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2882, col: 8, offset: 90849},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonListContinuationElement802,
+																								pos: position{line: 2869, col: 12, offset: 90622},
+																								run: (*parser).callonListContinuationElement811,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2869, col: 13, offset: 90623},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2869, col: 13, offset: 90623},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2869, col: 20, offset: 90630},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2869, col: 29, offset: 90639},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32674,9 +32902,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2879, col: 8, offset: 90799},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2879, col: 9, offset: 90800,
 																								},
 																							},
 																						},
@@ -32691,22 +32919,22 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 929, col: 5, offset: 29122},
+													pos:   position{line: 937, col: 5, offset: 29334},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 929, col: 9, offset: 29126},
+														pos: position{line: 937, col: 9, offset: 29338},
 														expr: &choiceExpr{
-															pos: position{line: 936, col: 5, offset: 29328},
+															pos: position{line: 944, col: 5, offset: 29540},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 936, col: 5, offset: 29328},
+																	pos: position{line: 944, col: 5, offset: 29540},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 936, col: 5, offset: 29328},
+																			pos:   position{line: 944, col: 5, offset: 29540},
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 783, col: 5, offset: 25092},
-																				run: (*parser).callonListContinuationElement814,
+																				run: (*parser).callonListContinuationElement823,
 																				expr: &seqExpr{
 																					pos: position{line: 783, col: 5, offset: 25092},
 																					exprs: []interface{}{
@@ -32715,7 +32943,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 783, col: 16, offset: 25103},
-																								run: (*parser).callonListContinuationElement817,
+																								run: (*parser).callonListContinuationElement826,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 16, offset: 25103},
 																									exprs: []interface{}{
@@ -32741,10 +32969,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25194},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonListContinuationElement823,
+																								pos: position{line: 2860, col: 10, offset: 90451},
+																								run: (*parser).callonListContinuationElement832,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2860, col: 10, offset: 90451},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32753,28 +32981,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonListContinuationElement826,
+																									pos: position{line: 2869, col: 12, offset: 90622},
+																									run: (*parser).callonListContinuationElement835,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32783,9 +33011,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -32795,15 +33023,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 937, col: 5, offset: 29359},
-																			run: (*parser).callonListContinuationElement833,
+																			pos: position{line: 945, col: 5, offset: 29571},
+																			run: (*parser).callonListContinuationElement842,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2879, col: 8, offset: 90799},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2879, col: 9, offset: 90800,
 																	},
 																},
 															},
@@ -32814,41 +33042,41 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 975, col: 5, offset: 30400},
-										run: (*parser).callonListContinuationElement836,
+										pos: position{line: 983, col: 5, offset: 30612},
+										run: (*parser).callonListContinuationElement845,
 										expr: &seqExpr{
-											pos: position{line: 975, col: 5, offset: 30400},
+											pos: position{line: 983, col: 5, offset: 30612},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 975, col: 5, offset: 30400},
+													pos:   position{line: 983, col: 5, offset: 30612},
 													label: "firstLine",
 													expr: &actionExpr{
-														pos: position{line: 982, col: 5, offset: 30659},
-														run: (*parser).callonListContinuationElement839,
+														pos: position{line: 990, col: 5, offset: 30871},
+														run: (*parser).callonListContinuationElement848,
 														expr: &seqExpr{
-															pos: position{line: 982, col: 5, offset: 30659},
+															pos: position{line: 990, col: 5, offset: 30871},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 982, col: 5, offset: 30659},
+																	pos: position{line: 990, col: 5, offset: 30871},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
-																		run: (*parser).callonListContinuationElement842,
+																		run: (*parser).callonListContinuationElement851,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2869, col: 11, offset: 90573},
+																					pos: position{line: 2877, col: 11, offset: 90785},
 																					expr: &anyMatcher{
-																						line: 2869, col: 13, offset: 90575,
+																						line: 2877, col: 13, offset: 90787,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonListContinuationElement847,
+																						pos: position{line: 2860, col: 10, offset: 90451},
+																						run: (*parser).callonListContinuationElement856,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2860, col: 10, offset: 90451},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32857,28 +33085,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2882, col: 8, offset: 90849},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
-																							run: (*parser).callonListContinuationElement850,
+																							pos: position{line: 2869, col: 12, offset: 90622},
+																							run: (*parser).callonListContinuationElement859,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2869, col: 13, offset: 90623},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2869, col: 13, offset: 90623},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2869, col: 20, offset: 90630},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2869, col: 29, offset: 90639},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32887,9 +33115,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2879, col: 8, offset: 90799},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2879, col: 9, offset: 90800,
 																							},
 																						},
 																					},
@@ -32899,21 +33127,21 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 983, col: 5, offset: 30674},
+																	pos:        position{line: 991, col: 5, offset: 30886},
 																	val:        "> ",
 																	ignoreCase: false,
 																	want:       "\"> \"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 984, col: 5, offset: 30684},
+																	pos:   position{line: 992, col: 5, offset: 30896},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2802, col: 14, offset: 88832},
-																		run: (*parser).callonListContinuationElement859,
+																		pos: position{line: 2810, col: 14, offset: 89044},
+																		run: (*parser).callonListContinuationElement868,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
+																			pos: position{line: 2810, col: 14, offset: 89044},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2802, col: 14, offset: 88832},
+																				pos:        position{line: 2810, col: 14, offset: 89044},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -32923,28 +33151,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2882, col: 8, offset: 90849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement863,
+																			pos: position{line: 2869, col: 12, offset: 90622},
+																			run: (*parser).callonListContinuationElement872,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2869, col: 13, offset: 90623},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2869, col: 13, offset: 90623},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2869, col: 20, offset: 90630},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2869, col: 29, offset: 90639},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32953,9 +33181,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2879, col: 8, offset: 90799},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2879, col: 9, offset: 90800,
 																			},
 																		},
 																	},
@@ -32965,40 +33193,40 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 976, col: 5, offset: 30437},
+													pos:   position{line: 984, col: 5, offset: 30649},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 976, col: 16, offset: 30448},
+														pos: position{line: 984, col: 16, offset: 30660},
 														expr: &choiceExpr{
-															pos: position{line: 976, col: 17, offset: 30449},
+															pos: position{line: 984, col: 17, offset: 30661},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 982, col: 5, offset: 30659},
-																	run: (*parser).callonListContinuationElement873,
+																	pos: position{line: 990, col: 5, offset: 30871},
+																	run: (*parser).callonListContinuationElement882,
 																	expr: &seqExpr{
-																		pos: position{line: 982, col: 5, offset: 30659},
+																		pos: position{line: 990, col: 5, offset: 30871},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 982, col: 5, offset: 30659},
+																				pos: position{line: 990, col: 5, offset: 30871},
 																				expr: &actionExpr{
 																					pos: position{line: 677, col: 14, offset: 21489},
-																					run: (*parser).callonListContinuationElement876,
+																					run: (*parser).callonListContinuationElement885,
 																					expr: &seqExpr{
 																						pos: position{line: 677, col: 14, offset: 21489},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2869, col: 11, offset: 90573},
+																								pos: position{line: 2877, col: 11, offset: 90785},
 																								expr: &anyMatcher{
-																									line: 2869, col: 13, offset: 90575,
+																									line: 2877, col: 13, offset: 90787,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21496},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonListContinuationElement881,
+																									pos: position{line: 2860, col: 10, offset: 90451},
+																									run: (*parser).callonListContinuationElement890,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2860, col: 10, offset: 90451},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33007,28 +33235,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2882, col: 8, offset: 90849},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonListContinuationElement884,
+																										pos: position{line: 2869, col: 12, offset: 90622},
+																										run: (*parser).callonListContinuationElement893,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2869, col: 13, offset: 90623},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2869, col: 13, offset: 90623},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2869, col: 20, offset: 90630},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2869, col: 29, offset: 90639},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33037,9 +33265,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2879, col: 8, offset: 90799},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2879, col: 9, offset: 90800,
 																										},
 																									},
 																								},
@@ -33049,21 +33277,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 983, col: 5, offset: 30674},
+																				pos:        position{line: 991, col: 5, offset: 30886},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 984, col: 5, offset: 30684},
+																				pos:   position{line: 992, col: 5, offset: 30896},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2802, col: 14, offset: 88832},
-																					run: (*parser).callonListContinuationElement893,
+																					pos: position{line: 2810, col: 14, offset: 89044},
+																					run: (*parser).callonListContinuationElement902,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2802, col: 14, offset: 88832},
+																						pos: position{line: 2810, col: 14, offset: 89044},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2802, col: 14, offset: 88832},
+																							pos:        position{line: 2810, col: 14, offset: 89044},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33073,28 +33301,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2882, col: 8, offset: 90849},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
-																						run: (*parser).callonListContinuationElement897,
+																						pos: position{line: 2869, col: 12, offset: 90622},
+																						run: (*parser).callonListContinuationElement906,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2869, col: 13, offset: 90623},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2869, col: 13, offset: 90623},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2869, col: 20, offset: 90630},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2869, col: 29, offset: 90639},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33103,9 +33331,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2879, col: 8, offset: 90799},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2879, col: 9, offset: 90800,
 																						},
 																					},
 																				},
@@ -33114,21 +33342,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1784, col: 5, offset: 57605},
-																	run: (*parser).callonListContinuationElement904,
+																	pos: position{line: 1792, col: 5, offset: 57817},
+																	run: (*parser).callonListContinuationElement913,
 																	expr: &seqExpr{
-																		pos: position{line: 1784, col: 5, offset: 57605},
+																		pos: position{line: 1792, col: 5, offset: 57817},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1784, col: 5, offset: 57605},
+																				pos:   position{line: 1792, col: 5, offset: 57817},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2802, col: 14, offset: 88832},
-																					run: (*parser).callonListContinuationElement907,
+																					pos: position{line: 2810, col: 14, offset: 89044},
+																					run: (*parser).callonListContinuationElement916,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2802, col: 14, offset: 88832},
+																						pos: position{line: 2810, col: 14, offset: 89044},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2802, col: 14, offset: 88832},
+																							pos:        position{line: 2810, col: 14, offset: 89044},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33138,32 +33366,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1785, col: 5, offset: 57629},
-																				run: (*parser).callonListContinuationElement910,
+																				pos: position{line: 1793, col: 5, offset: 57841},
+																				run: (*parser).callonListContinuationElement919,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2882, col: 8, offset: 90849},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
-																						run: (*parser).callonListContinuationElement912,
+																						pos: position{line: 2869, col: 12, offset: 90622},
+																						run: (*parser).callonListContinuationElement921,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2869, col: 13, offset: 90623},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2869, col: 13, offset: 90623},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2869, col: 20, offset: 90630},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2869, col: 29, offset: 90639},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33172,9 +33400,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2879, col: 8, offset: 90799},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2879, col: 9, offset: 90800,
 																						},
 																					},
 																				},
@@ -33190,17 +33418,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 997, col: 5, offset: 30949},
-										run: (*parser).callonListContinuationElement919,
+										pos: position{line: 1005, col: 5, offset: 31161},
+										run: (*parser).callonListContinuationElement928,
 										expr: &seqExpr{
-											pos: position{line: 997, col: 5, offset: 30949},
+											pos: position{line: 1005, col: 5, offset: 31161},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 997, col: 5, offset: 30949},
+													pos:   position{line: 1005, col: 5, offset: 31161},
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 776, col: 5, offset: 24861},
-														run: (*parser).callonListContinuationElement922,
+														run: (*parser).callonListContinuationElement931,
 														expr: &seqExpr{
 															pos: position{line: 776, col: 5, offset: 24861},
 															exprs: []interface{}{
@@ -33209,7 +33437,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 776, col: 16, offset: 24872},
-																		run: (*parser).callonListContinuationElement925,
+																		run: (*parser).callonListContinuationElement934,
 																		expr: &litMatcher{
 																			pos:        position{line: 776, col: 16, offset: 24872},
 																			val:        "--",
@@ -33221,10 +33449,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 778, col: 8, offset: 24949},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonListContinuationElement928,
+																		pos: position{line: 2860, col: 10, offset: 90451},
+																		run: (*parser).callonListContinuationElement937,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2860, col: 10, offset: 90451},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33233,28 +33461,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2882, col: 8, offset: 90849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement931,
+																			pos: position{line: 2869, col: 12, offset: 90622},
+																			run: (*parser).callonListContinuationElement940,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2869, col: 13, offset: 90623},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2869, col: 13, offset: 90623},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2869, col: 20, offset: 90630},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2869, col: 29, offset: 90639},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33263,9 +33491,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2879, col: 8, offset: 90799},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2879, col: 9, offset: 90800,
 																			},
 																		},
 																	},
@@ -33275,24 +33503,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 998, col: 5, offset: 30985},
+													pos:   position{line: 1006, col: 5, offset: 31197},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1008, col: 5, offset: 31253},
+														pos: position{line: 1016, col: 5, offset: 31465},
 														expr: &actionExpr{
-															pos: position{line: 1008, col: 6, offset: 31254},
-															run: (*parser).callonListContinuationElement940,
+															pos: position{line: 1016, col: 6, offset: 31466},
+															run: (*parser).callonListContinuationElement949,
 															expr: &seqExpr{
-																pos: position{line: 1008, col: 6, offset: 31254},
+																pos: position{line: 1016, col: 6, offset: 31466},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1008, col: 6, offset: 31254},
+																		pos: position{line: 1016, col: 6, offset: 31466},
 																		expr: &choiceExpr{
-																			pos: position{line: 1005, col: 26, offset: 31202},
+																			pos: position{line: 1013, col: 26, offset: 31414},
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 776, col: 5, offset: 24861},
-																					run: (*parser).callonListContinuationElement944,
+																					run: (*parser).callonListContinuationElement953,
 																					expr: &seqExpr{
 																						pos: position{line: 776, col: 5, offset: 24861},
 																						exprs: []interface{}{
@@ -33301,7 +33529,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 776, col: 16, offset: 24872},
-																									run: (*parser).callonListContinuationElement947,
+																									run: (*parser).callonListContinuationElement956,
 																									expr: &litMatcher{
 																										pos:        position{line: 776, col: 16, offset: 24872},
 																										val:        "--",
@@ -33313,10 +33541,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 778, col: 8, offset: 24949},
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 10, offset: 90239},
-																									run: (*parser).callonListContinuationElement950,
+																									pos: position{line: 2860, col: 10, offset: 90451},
+																									run: (*parser).callonListContinuationElement959,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2852, col: 10, offset: 90239},
+																										pos:        position{line: 2860, col: 10, offset: 90451},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33325,28 +33553,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2874, col: 8, offset: 90637},
+																								pos: position{line: 2882, col: 8, offset: 90849},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2861, col: 12, offset: 90410},
-																										run: (*parser).callonListContinuationElement953,
+																										pos: position{line: 2869, col: 12, offset: 90622},
+																										run: (*parser).callonListContinuationElement962,
 																										expr: &choiceExpr{
-																											pos: position{line: 2861, col: 13, offset: 90411},
+																											pos: position{line: 2869, col: 13, offset: 90623},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 13, offset: 90411},
+																													pos:        position{line: 2869, col: 13, offset: 90623},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 20, offset: 90418},
+																													pos:        position{line: 2869, col: 20, offset: 90630},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2861, col: 29, offset: 90427},
+																													pos:        position{line: 2869, col: 29, offset: 90639},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33355,9 +33583,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2871, col: 8, offset: 90587},
+																										pos: position{line: 2879, col: 8, offset: 90799},
 																										expr: &anyMatcher{
-																											line: 2871, col: 9, offset: 90588,
+																											line: 2879, col: 9, offset: 90800,
 																										},
 																									},
 																								},
@@ -33366,39 +33594,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1009, col: 5, offset: 31281},
+																		pos:   position{line: 1017, col: 5, offset: 31493},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement963,
+																			run: (*parser).callonListContinuationElement972,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2877, col: 11, offset: 90785},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2877, col: 13, offset: 90787,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
-																							run: (*parser).callonListContinuationElement968,
+																							pos: position{line: 2806, col: 13, offset: 88977},
+																							run: (*parser).callonListContinuationElement977,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2806, col: 13, offset: 88977},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2806, col: 13, offset: 88977},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33408,28 +33636,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2882, col: 8, offset: 90849},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonListContinuationElement972,
+																								pos: position{line: 2869, col: 12, offset: 90622},
+																								run: (*parser).callonListContinuationElement981,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2869, col: 13, offset: 90623},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2869, col: 13, offset: 90623},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2869, col: 20, offset: 90630},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2869, col: 29, offset: 90639},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33438,9 +33666,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2879, col: 8, offset: 90799},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2879, col: 9, offset: 90800,
 																								},
 																							},
 																						},
@@ -33455,16 +33683,16 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 999, col: 5, offset: 31016},
+													pos:   position{line: 1007, col: 5, offset: 31228},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 999, col: 9, offset: 31020},
+														pos: position{line: 1007, col: 9, offset: 31232},
 														expr: &choiceExpr{
-															pos: position{line: 1005, col: 26, offset: 31202},
+															pos: position{line: 1013, col: 26, offset: 31414},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 776, col: 5, offset: 24861},
-																	run: (*parser).callonListContinuationElement982,
+																	run: (*parser).callonListContinuationElement991,
 																	expr: &seqExpr{
 																		pos: position{line: 776, col: 5, offset: 24861},
 																		exprs: []interface{}{
@@ -33473,7 +33701,7 @@ var g = &grammar{
 																				label: "delimiter",
 																				expr: &actionExpr{
 																					pos: position{line: 776, col: 16, offset: 24872},
-																					run: (*parser).callonListContinuationElement985,
+																					run: (*parser).callonListContinuationElement994,
 																					expr: &litMatcher{
 																						pos:        position{line: 776, col: 16, offset: 24872},
 																						val:        "--",
@@ -33485,10 +33713,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 778, col: 8, offset: 24949},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
-																					run: (*parser).callonListContinuationElement988,
+																					pos: position{line: 2860, col: 10, offset: 90451},
+																					run: (*parser).callonListContinuationElement997,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2860, col: 10, offset: 90451},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -33497,28 +33725,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2882, col: 8, offset: 90849},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
-																						run: (*parser).callonListContinuationElement991,
+																						pos: position{line: 2869, col: 12, offset: 90622},
+																						run: (*parser).callonListContinuationElement1000,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2869, col: 13, offset: 90623},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2869, col: 13, offset: 90623},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2869, col: 20, offset: 90630},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2869, col: 29, offset: 90639},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33527,9 +33755,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2879, col: 8, offset: 90799},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2879, col: 9, offset: 90800,
 																						},
 																					},
 																				},
@@ -33538,9 +33766,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2879, col: 8, offset: 90799},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2879, col: 9, offset: 90800,
 																	},
 																},
 															},
@@ -33551,17 +33779,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1017, col: 5, offset: 31444},
-										run: (*parser).callonListContinuationElement1000,
+										pos: position{line: 1025, col: 5, offset: 31656},
+										run: (*parser).callonListContinuationElement1009,
 										expr: &seqExpr{
-											pos: position{line: 1017, col: 5, offset: 31444},
+											pos: position{line: 1025, col: 5, offset: 31656},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1017, col: 5, offset: 31444},
+													pos:   position{line: 1025, col: 5, offset: 31656},
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 790, col: 5, offset: 25344},
-														run: (*parser).callonListContinuationElement1003,
+														run: (*parser).callonListContinuationElement1012,
 														expr: &seqExpr{
 															pos: position{line: 790, col: 5, offset: 25344},
 															exprs: []interface{}{
@@ -33570,7 +33798,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 790, col: 16, offset: 25355},
-																		run: (*parser).callonListContinuationElement1006,
+																		run: (*parser).callonListContinuationElement1015,
 																		expr: &seqExpr{
 																			pos: position{line: 790, col: 16, offset: 25355},
 																			exprs: []interface{}{
@@ -33596,10 +33824,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 792, col: 8, offset: 25446},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonListContinuationElement1012,
+																		pos: position{line: 2860, col: 10, offset: 90451},
+																		run: (*parser).callonListContinuationElement1021,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2860, col: 10, offset: 90451},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33608,28 +33836,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2882, col: 8, offset: 90849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement1015,
+																			pos: position{line: 2869, col: 12, offset: 90622},
+																			run: (*parser).callonListContinuationElement1024,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2869, col: 13, offset: 90623},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2869, col: 13, offset: 90623},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2869, col: 20, offset: 90630},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2869, col: 29, offset: 90639},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33638,9 +33866,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2879, col: 8, offset: 90799},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2879, col: 9, offset: 90800,
 																			},
 																		},
 																	},
@@ -33650,34 +33878,34 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1018, col: 5, offset: 31487},
-													run: (*parser).callonListContinuationElement1022,
+													pos: position{line: 1026, col: 5, offset: 31699},
+													run: (*parser).callonListContinuationElement1031,
 												},
 												&labeledExpr{
-													pos:   position{line: 1021, col: 5, offset: 31579},
+													pos:   position{line: 1029, col: 5, offset: 31791},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1036, col: 5, offset: 32009},
+														pos: position{line: 1044, col: 5, offset: 32221},
 														expr: &actionExpr{
-															pos: position{line: 1036, col: 6, offset: 32010},
-															run: (*parser).callonListContinuationElement1025,
+															pos: position{line: 1044, col: 6, offset: 32222},
+															run: (*parser).callonListContinuationElement1034,
 															expr: &seqExpr{
-																pos: position{line: 1036, col: 6, offset: 32010},
+																pos: position{line: 1044, col: 6, offset: 32222},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1036, col: 6, offset: 32010},
+																		pos: position{line: 1044, col: 6, offset: 32222},
 																		expr: &choiceExpr{
-																			pos: position{line: 1029, col: 5, offset: 31843},
+																			pos: position{line: 1037, col: 5, offset: 32055},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1029, col: 5, offset: 31843},
+																					pos: position{line: 1037, col: 5, offset: 32055},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1029, col: 5, offset: 31843},
+																							pos:   position{line: 1037, col: 5, offset: 32055},
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 790, col: 5, offset: 25344},
-																								run: (*parser).callonListContinuationElement1031,
+																								run: (*parser).callonListContinuationElement1040,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 5, offset: 25344},
 																									exprs: []interface{}{
@@ -33686,7 +33914,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 790, col: 16, offset: 25355},
-																												run: (*parser).callonListContinuationElement1034,
+																												run: (*parser).callonListContinuationElement1043,
 																												expr: &seqExpr{
 																													pos: position{line: 790, col: 16, offset: 25355},
 																													exprs: []interface{}{
@@ -33712,10 +33940,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25446},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1040,
+																												pos: position{line: 2860, col: 10, offset: 90451},
+																												run: (*parser).callonListContinuationElement1049,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2860, col: 10, offset: 90451},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33724,28 +33952,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2882, col: 8, offset: 90849},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1043,
+																													pos: position{line: 2869, col: 12, offset: 90622},
+																													run: (*parser).callonListContinuationElement1052,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2869, col: 13, offset: 90623},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2869, col: 13, offset: 90623},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2869, col: 20, offset: 90630},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2869, col: 29, offset: 90639},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33754,9 +33982,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2879, col: 8, offset: 90799},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2879, col: 9, offset: 90800,
 																													},
 																												},
 																											},
@@ -33766,45 +33994,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1030, col: 5, offset: 31878},
-																							run: (*parser).callonListContinuationElement1050,
+																							pos: position{line: 1038, col: 5, offset: 32090},
+																							run: (*parser).callonListContinuationElement1059,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1037, col: 5, offset: 32044},
+																		pos:   position{line: 1045, col: 5, offset: 32256},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement1054,
+																			run: (*parser).callonListContinuationElement1063,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2877, col: 11, offset: 90785},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2877, col: 13, offset: 90787,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
-																							run: (*parser).callonListContinuationElement1059,
+																							pos: position{line: 2806, col: 13, offset: 88977},
+																							run: (*parser).callonListContinuationElement1068,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2806, col: 13, offset: 88977},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2806, col: 13, offset: 88977},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33814,28 +34042,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2882, col: 8, offset: 90849},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonListContinuationElement1063,
+																								pos: position{line: 2869, col: 12, offset: 90622},
+																								run: (*parser).callonListContinuationElement1072,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2869, col: 13, offset: 90623},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2869, col: 13, offset: 90623},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2869, col: 20, offset: 90630},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2869, col: 29, offset: 90639},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33844,9 +34072,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2879, col: 8, offset: 90799},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2879, col: 9, offset: 90800,
 																								},
 																							},
 																						},
@@ -33861,22 +34089,22 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1022, col: 5, offset: 31617},
+													pos:   position{line: 1030, col: 5, offset: 31829},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1022, col: 9, offset: 31621},
+														pos: position{line: 1030, col: 9, offset: 31833},
 														expr: &choiceExpr{
-															pos: position{line: 1029, col: 5, offset: 31843},
+															pos: position{line: 1037, col: 5, offset: 32055},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1029, col: 5, offset: 31843},
+																	pos: position{line: 1037, col: 5, offset: 32055},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1029, col: 5, offset: 31843},
+																			pos:   position{line: 1037, col: 5, offset: 32055},
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 790, col: 5, offset: 25344},
-																				run: (*parser).callonListContinuationElement1075,
+																				run: (*parser).callonListContinuationElement1084,
 																				expr: &seqExpr{
 																					pos: position{line: 790, col: 5, offset: 25344},
 																					exprs: []interface{}{
@@ -33885,7 +34113,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 790, col: 16, offset: 25355},
-																								run: (*parser).callonListContinuationElement1078,
+																								run: (*parser).callonListContinuationElement1087,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 16, offset: 25355},
 																									exprs: []interface{}{
@@ -33911,10 +34139,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25446},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonListContinuationElement1084,
+																								pos: position{line: 2860, col: 10, offset: 90451},
+																								run: (*parser).callonListContinuationElement1093,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2860, col: 10, offset: 90451},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33923,28 +34151,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonListContinuationElement1087,
+																									pos: position{line: 2869, col: 12, offset: 90622},
+																									run: (*parser).callonListContinuationElement1096,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33953,9 +34181,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -33965,15 +34193,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1030, col: 5, offset: 31878},
-																			run: (*parser).callonListContinuationElement1094,
+																			pos: position{line: 1038, col: 5, offset: 32090},
+																			run: (*parser).callonListContinuationElement1103,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2879, col: 8, offset: 90799},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2879, col: 9, offset: 90800,
 																	},
 																},
 															},
@@ -33984,17 +34212,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1045, col: 5, offset: 32195},
-										run: (*parser).callonListContinuationElement1097,
+										pos: position{line: 1053, col: 5, offset: 32407},
+										run: (*parser).callonListContinuationElement1106,
 										expr: &seqExpr{
-											pos: position{line: 1045, col: 5, offset: 32195},
+											pos: position{line: 1053, col: 5, offset: 32407},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1045, col: 5, offset: 32195},
+													pos:   position{line: 1053, col: 5, offset: 32407},
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 797, col: 5, offset: 25594},
-														run: (*parser).callonListContinuationElement1100,
+														run: (*parser).callonListContinuationElement1109,
 														expr: &seqExpr{
 															pos: position{line: 797, col: 5, offset: 25594},
 															exprs: []interface{}{
@@ -34003,7 +34231,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 797, col: 16, offset: 25605},
-																		run: (*parser).callonListContinuationElement1103,
+																		run: (*parser).callonListContinuationElement1112,
 																		expr: &seqExpr{
 																			pos: position{line: 797, col: 16, offset: 25605},
 																			exprs: []interface{}{
@@ -34029,10 +34257,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 799, col: 8, offset: 25696},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonListContinuationElement1109,
+																		pos: position{line: 2860, col: 10, offset: 90451},
+																		run: (*parser).callonListContinuationElement1118,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2860, col: 10, offset: 90451},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34041,28 +34269,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2882, col: 8, offset: 90849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement1112,
+																			pos: position{line: 2869, col: 12, offset: 90622},
+																			run: (*parser).callonListContinuationElement1121,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2869, col: 13, offset: 90623},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2869, col: 13, offset: 90623},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2869, col: 20, offset: 90630},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2869, col: 29, offset: 90639},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34071,9 +34299,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2879, col: 8, offset: 90799},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2879, col: 9, offset: 90800,
 																			},
 																		},
 																	},
@@ -34083,34 +34311,34 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1046, col: 5, offset: 32232},
-													run: (*parser).callonListContinuationElement1119,
+													pos: position{line: 1054, col: 5, offset: 32444},
+													run: (*parser).callonListContinuationElement1128,
 												},
 												&labeledExpr{
-													pos:   position{line: 1049, col: 5, offset: 32324},
+													pos:   position{line: 1057, col: 5, offset: 32536},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1064, col: 4, offset: 32705},
+														pos: position{line: 1072, col: 4, offset: 32917},
 														expr: &actionExpr{
-															pos: position{line: 1064, col: 5, offset: 32706},
-															run: (*parser).callonListContinuationElement1122,
+															pos: position{line: 1072, col: 5, offset: 32918},
+															run: (*parser).callonListContinuationElement1131,
 															expr: &seqExpr{
-																pos: position{line: 1064, col: 5, offset: 32706},
+																pos: position{line: 1072, col: 5, offset: 32918},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1064, col: 5, offset: 32706},
+																		pos: position{line: 1072, col: 5, offset: 32918},
 																		expr: &choiceExpr{
-																			pos: position{line: 1057, col: 5, offset: 32552},
+																			pos: position{line: 1065, col: 5, offset: 32764},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1057, col: 5, offset: 32552},
+																					pos: position{line: 1065, col: 5, offset: 32764},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1057, col: 5, offset: 32552},
+																							pos:   position{line: 1065, col: 5, offset: 32764},
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 797, col: 5, offset: 25594},
-																								run: (*parser).callonListContinuationElement1128,
+																								run: (*parser).callonListContinuationElement1137,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 5, offset: 25594},
 																									exprs: []interface{}{
@@ -34119,7 +34347,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 797, col: 16, offset: 25605},
-																												run: (*parser).callonListContinuationElement1131,
+																												run: (*parser).callonListContinuationElement1140,
 																												expr: &seqExpr{
 																													pos: position{line: 797, col: 16, offset: 25605},
 																													exprs: []interface{}{
@@ -34145,10 +34373,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25696},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1137,
+																												pos: position{line: 2860, col: 10, offset: 90451},
+																												run: (*parser).callonListContinuationElement1146,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2860, col: 10, offset: 90451},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34157,28 +34385,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2882, col: 8, offset: 90849},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1140,
+																													pos: position{line: 2869, col: 12, offset: 90622},
+																													run: (*parser).callonListContinuationElement1149,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2869, col: 13, offset: 90623},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2869, col: 13, offset: 90623},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2869, col: 20, offset: 90630},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2869, col: 29, offset: 90639},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34187,9 +34415,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2879, col: 8, offset: 90799},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2879, col: 9, offset: 90800,
 																													},
 																												},
 																											},
@@ -34199,45 +34427,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1058, col: 5, offset: 32581},
-																							run: (*parser).callonListContinuationElement1147,
+																							pos: position{line: 1066, col: 5, offset: 32793},
+																							run: (*parser).callonListContinuationElement1156,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1065, col: 5, offset: 32734},
+																		pos:   position{line: 1073, col: 5, offset: 32946},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement1151,
+																			run: (*parser).callonListContinuationElement1160,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2877, col: 11, offset: 90785},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2877, col: 13, offset: 90787,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
-																							run: (*parser).callonListContinuationElement1156,
+																							pos: position{line: 2806, col: 13, offset: 88977},
+																							run: (*parser).callonListContinuationElement1165,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2806, col: 13, offset: 88977},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2806, col: 13, offset: 88977},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34247,28 +34475,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2882, col: 8, offset: 90849},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonListContinuationElement1160,
+																								pos: position{line: 2869, col: 12, offset: 90622},
+																								run: (*parser).callonListContinuationElement1169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2869, col: 13, offset: 90623},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2869, col: 13, offset: 90623},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2869, col: 20, offset: 90630},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2869, col: 29, offset: 90639},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34277,9 +34505,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2879, col: 8, offset: 90799},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2879, col: 9, offset: 90800,
 																								},
 																							},
 																						},
@@ -34294,22 +34522,22 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1050, col: 5, offset: 32356},
+													pos:   position{line: 1058, col: 5, offset: 32568},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1050, col: 9, offset: 32360},
+														pos: position{line: 1058, col: 9, offset: 32572},
 														expr: &choiceExpr{
-															pos: position{line: 1057, col: 5, offset: 32552},
+															pos: position{line: 1065, col: 5, offset: 32764},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1057, col: 5, offset: 32552},
+																	pos: position{line: 1065, col: 5, offset: 32764},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1057, col: 5, offset: 32552},
+																			pos:   position{line: 1065, col: 5, offset: 32764},
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 797, col: 5, offset: 25594},
-																				run: (*parser).callonListContinuationElement1172,
+																				run: (*parser).callonListContinuationElement1181,
 																				expr: &seqExpr{
 																					pos: position{line: 797, col: 5, offset: 25594},
 																					exprs: []interface{}{
@@ -34318,7 +34546,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 797, col: 16, offset: 25605},
-																								run: (*parser).callonListContinuationElement1175,
+																								run: (*parser).callonListContinuationElement1184,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 16, offset: 25605},
 																									exprs: []interface{}{
@@ -34344,10 +34572,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25696},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonListContinuationElement1181,
+																								pos: position{line: 2860, col: 10, offset: 90451},
+																								run: (*parser).callonListContinuationElement1190,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2860, col: 10, offset: 90451},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34356,28 +34584,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonListContinuationElement1184,
+																									pos: position{line: 2869, col: 12, offset: 90622},
+																									run: (*parser).callonListContinuationElement1193,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34386,9 +34614,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -34398,15 +34626,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1058, col: 5, offset: 32581},
-																			run: (*parser).callonListContinuationElement1191,
+																			pos: position{line: 1066, col: 5, offset: 32793},
+																			run: (*parser).callonListContinuationElement1200,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2879, col: 8, offset: 90799},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2879, col: 9, offset: 90800,
 																	},
 																},
 															},
@@ -34417,17 +34645,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1073, col: 5, offset: 32889},
-										run: (*parser).callonListContinuationElement1194,
+										pos: position{line: 1081, col: 5, offset: 33101},
+										run: (*parser).callonListContinuationElement1203,
 										expr: &seqExpr{
-											pos: position{line: 1073, col: 5, offset: 32889},
+											pos: position{line: 1081, col: 5, offset: 33101},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1073, col: 5, offset: 32889},
+													pos:   position{line: 1081, col: 5, offset: 33101},
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 804, col: 5, offset: 25840},
-														run: (*parser).callonListContinuationElement1197,
+														run: (*parser).callonListContinuationElement1206,
 														expr: &seqExpr{
 															pos: position{line: 804, col: 5, offset: 25840},
 															exprs: []interface{}{
@@ -34436,7 +34664,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 804, col: 16, offset: 25851},
-																		run: (*parser).callonListContinuationElement1200,
+																		run: (*parser).callonListContinuationElement1209,
 																		expr: &seqExpr{
 																			pos: position{line: 804, col: 16, offset: 25851},
 																			exprs: []interface{}{
@@ -34462,10 +34690,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 806, col: 8, offset: 25942},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonListContinuationElement1206,
+																		pos: position{line: 2860, col: 10, offset: 90451},
+																		run: (*parser).callonListContinuationElement1215,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2860, col: 10, offset: 90451},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34474,28 +34702,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2882, col: 8, offset: 90849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement1209,
+																			pos: position{line: 2869, col: 12, offset: 90622},
+																			run: (*parser).callonListContinuationElement1218,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2869, col: 13, offset: 90623},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2869, col: 13, offset: 90623},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2869, col: 20, offset: 90630},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2869, col: 29, offset: 90639},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34504,9 +34732,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2879, col: 8, offset: 90799},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2879, col: 9, offset: 90800,
 																			},
 																		},
 																	},
@@ -34516,34 +34744,34 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1074, col: 5, offset: 32928},
-													run: (*parser).callonListContinuationElement1216,
+													pos: position{line: 1082, col: 5, offset: 33140},
+													run: (*parser).callonListContinuationElement1225,
 												},
 												&labeledExpr{
-													pos:   position{line: 1077, col: 5, offset: 33020},
+													pos:   position{line: 1085, col: 5, offset: 33232},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1092, col: 4, offset: 33417},
+														pos: position{line: 1100, col: 4, offset: 33629},
 														expr: &actionExpr{
-															pos: position{line: 1092, col: 5, offset: 33418},
-															run: (*parser).callonListContinuationElement1219,
+															pos: position{line: 1100, col: 5, offset: 33630},
+															run: (*parser).callonListContinuationElement1228,
 															expr: &seqExpr{
-																pos: position{line: 1092, col: 5, offset: 33418},
+																pos: position{line: 1100, col: 5, offset: 33630},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1092, col: 5, offset: 33418},
+																		pos: position{line: 1100, col: 5, offset: 33630},
 																		expr: &choiceExpr{
-																			pos: position{line: 1085, col: 5, offset: 33260},
+																			pos: position{line: 1093, col: 5, offset: 33472},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1085, col: 5, offset: 33260},
+																					pos: position{line: 1093, col: 5, offset: 33472},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1085, col: 5, offset: 33260},
+																							pos:   position{line: 1093, col: 5, offset: 33472},
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 804, col: 5, offset: 25840},
-																								run: (*parser).callonListContinuationElement1225,
+																								run: (*parser).callonListContinuationElement1234,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 5, offset: 25840},
 																									exprs: []interface{}{
@@ -34552,7 +34780,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 804, col: 16, offset: 25851},
-																												run: (*parser).callonListContinuationElement1228,
+																												run: (*parser).callonListContinuationElement1237,
 																												expr: &seqExpr{
 																													pos: position{line: 804, col: 16, offset: 25851},
 																													exprs: []interface{}{
@@ -34578,10 +34806,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25942},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1234,
+																												pos: position{line: 2860, col: 10, offset: 90451},
+																												run: (*parser).callonListContinuationElement1243,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2860, col: 10, offset: 90451},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34590,28 +34818,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2882, col: 8, offset: 90849},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1237,
+																													pos: position{line: 2869, col: 12, offset: 90622},
+																													run: (*parser).callonListContinuationElement1246,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2869, col: 13, offset: 90623},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2869, col: 13, offset: 90623},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2869, col: 20, offset: 90630},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2869, col: 29, offset: 90639},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34620,9 +34848,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2879, col: 8, offset: 90799},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2879, col: 9, offset: 90800,
 																													},
 																												},
 																											},
@@ -34632,45 +34860,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1086, col: 5, offset: 33291},
-																							run: (*parser).callonListContinuationElement1244,
+																							pos: position{line: 1094, col: 5, offset: 33503},
+																							run: (*parser).callonListContinuationElement1253,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1093, col: 5, offset: 33448},
+																		pos:   position{line: 1101, col: 5, offset: 33660},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement1248,
+																			run: (*parser).callonListContinuationElement1257,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2869, col: 11, offset: 90573},
+																						pos: position{line: 2877, col: 11, offset: 90785},
 																						expr: &anyMatcher{
-																							line: 2869, col: 13, offset: 90575,
+																							line: 2877, col: 13, offset: 90787,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2798, col: 13, offset: 88765},
-																							run: (*parser).callonListContinuationElement1253,
+																							pos: position{line: 2806, col: 13, offset: 88977},
+																							run: (*parser).callonListContinuationElement1262,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2798, col: 13, offset: 88765},
+																								pos: position{line: 2806, col: 13, offset: 88977},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2798, col: 13, offset: 88765},
+																									pos:        position{line: 2806, col: 13, offset: 88977},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34680,28 +34908,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2882, col: 8, offset: 90849},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
-																								run: (*parser).callonListContinuationElement1257,
+																								pos: position{line: 2869, col: 12, offset: 90622},
+																								run: (*parser).callonListContinuationElement1266,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2869, col: 13, offset: 90623},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2869, col: 13, offset: 90623},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2869, col: 20, offset: 90630},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2869, col: 29, offset: 90639},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34710,9 +34938,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2879, col: 8, offset: 90799},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2879, col: 9, offset: 90800,
 																								},
 																							},
 																						},
@@ -34727,22 +34955,22 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1078, col: 5, offset: 33054},
+													pos:   position{line: 1086, col: 5, offset: 33266},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1078, col: 9, offset: 33058},
+														pos: position{line: 1086, col: 9, offset: 33270},
 														expr: &choiceExpr{
-															pos: position{line: 1085, col: 5, offset: 33260},
+															pos: position{line: 1093, col: 5, offset: 33472},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1085, col: 5, offset: 33260},
+																	pos: position{line: 1093, col: 5, offset: 33472},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1085, col: 5, offset: 33260},
+																			pos:   position{line: 1093, col: 5, offset: 33472},
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 804, col: 5, offset: 25840},
-																				run: (*parser).callonListContinuationElement1269,
+																				run: (*parser).callonListContinuationElement1278,
 																				expr: &seqExpr{
 																					pos: position{line: 804, col: 5, offset: 25840},
 																					exprs: []interface{}{
@@ -34751,7 +34979,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 804, col: 16, offset: 25851},
-																								run: (*parser).callonListContinuationElement1272,
+																								run: (*parser).callonListContinuationElement1281,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 16, offset: 25851},
 																									exprs: []interface{}{
@@ -34777,10 +35005,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25942},
 																							expr: &actionExpr{
-																								pos: position{line: 2852, col: 10, offset: 90239},
-																								run: (*parser).callonListContinuationElement1278,
+																								pos: position{line: 2860, col: 10, offset: 90451},
+																								run: (*parser).callonListContinuationElement1287,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2852, col: 10, offset: 90239},
+																									pos:        position{line: 2860, col: 10, offset: 90451},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34789,28 +35017,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2874, col: 8, offset: 90637},
+																							pos: position{line: 2882, col: 8, offset: 90849},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2861, col: 12, offset: 90410},
-																									run: (*parser).callonListContinuationElement1281,
+																									pos: position{line: 2869, col: 12, offset: 90622},
+																									run: (*parser).callonListContinuationElement1290,
 																									expr: &choiceExpr{
-																										pos: position{line: 2861, col: 13, offset: 90411},
+																										pos: position{line: 2869, col: 13, offset: 90623},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 13, offset: 90411},
+																												pos:        position{line: 2869, col: 13, offset: 90623},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 20, offset: 90418},
+																												pos:        position{line: 2869, col: 20, offset: 90630},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2861, col: 29, offset: 90427},
+																												pos:        position{line: 2869, col: 29, offset: 90639},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34819,9 +35047,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2871, col: 8, offset: 90587},
+																									pos: position{line: 2879, col: 8, offset: 90799},
 																									expr: &anyMatcher{
-																										line: 2871, col: 9, offset: 90588,
+																										line: 2879, col: 9, offset: 90800,
 																									},
 																								},
 																							},
@@ -34831,15 +35059,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1086, col: 5, offset: 33291},
-																			run: (*parser).callonListContinuationElement1288,
+																			pos: position{line: 1094, col: 5, offset: 33503},
+																			run: (*parser).callonListContinuationElement1297,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2879, col: 8, offset: 90799},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2879, col: 9, offset: 90800,
 																	},
 																},
 															},
@@ -34850,52 +35078,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2697, col: 18, offset: 85829},
-										run: (*parser).callonListContinuationElement1291,
+										pos: position{line: 2705, col: 18, offset: 86041},
+										run: (*parser).callonListContinuationElement1300,
 										expr: &seqExpr{
-											pos: position{line: 2697, col: 18, offset: 85829},
+											pos: position{line: 2705, col: 18, offset: 86041},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2698, col: 9, offset: 85839},
+													pos: position{line: 2706, col: 9, offset: 86051},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2698, col: 9, offset: 85839},
+															pos:        position{line: 2706, col: 9, offset: 86051},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 11, offset: 85875},
+															pos:        position{line: 2707, col: 11, offset: 86087},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 19, offset: 85883},
+															pos:        position{line: 2707, col: 19, offset: 86095},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 29, offset: 85893},
+															pos:        position{line: 2707, col: 29, offset: 86105},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 37, offset: 85901},
+															pos:        position{line: 2707, col: 37, offset: 86113},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 47, offset: 85911},
+															pos:        position{line: 2707, col: 47, offset: 86123},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2699, col: 55, offset: 85919},
+															pos:        position{line: 2707, col: 55, offset: 86131},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -34903,12 +35131,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2700, col: 11, offset: 85977},
+													pos: position{line: 2708, col: 11, offset: 86189},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
-														run: (*parser).callonListContinuationElement1302,
+														pos: position{line: 2860, col: 10, offset: 90451},
+														run: (*parser).callonListContinuationElement1311,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2860, col: 10, offset: 90451},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -34917,28 +35145,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2882, col: 8, offset: 90849},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
-															run: (*parser).callonListContinuationElement1305,
+															pos: position{line: 2869, col: 12, offset: 90622},
+															run: (*parser).callonListContinuationElement1314,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2869, col: 13, offset: 90623},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2869, col: 13, offset: 90623},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2869, col: 20, offset: 90630},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2869, col: 29, offset: 90639},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -34947,36 +35175,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2879, col: 8, offset: 90799},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2879, col: 9, offset: 90800,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2882, col: 8, offset: 90849},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
-															run: (*parser).callonListContinuationElement1313,
+															pos: position{line: 2869, col: 12, offset: 90622},
+															run: (*parser).callonListContinuationElement1322,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2869, col: 13, offset: 90623},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2869, col: 13, offset: 90623},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2869, col: 20, offset: 90630},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2869, col: 29, offset: 90639},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -34985,9 +35213,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2879, col: 8, offset: 90799},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2879, col: 9, offset: 90800,
 															},
 														},
 													},
@@ -34996,28 +35224,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1548, col: 11, offset: 49986},
+										pos:  position{line: 1556, col: 11, offset: 50198},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2588, col: 5, offset: 82765},
-										run: (*parser).callonListContinuationElement1321,
+										pos: position{line: 2596, col: 5, offset: 82977},
+										run: (*parser).callonListContinuationElement1330,
 										expr: &seqExpr{
-											pos: position{line: 2588, col: 5, offset: 82765},
+											pos: position{line: 2596, col: 5, offset: 82977},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2594, col: 19, offset: 82922},
+													pos:        position{line: 2602, col: 19, offset: 83134},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2594, col: 26, offset: 82929},
+													pos: position{line: 2602, col: 26, offset: 83141},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
-														run: (*parser).callonListContinuationElement1325,
+														pos: position{line: 2860, col: 10, offset: 90451},
+														run: (*parser).callonListContinuationElement1334,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2860, col: 10, offset: 90451},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35026,28 +35254,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2882, col: 8, offset: 90849},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
-															run: (*parser).callonListContinuationElement1328,
+															pos: position{line: 2869, col: 12, offset: 90622},
+															run: (*parser).callonListContinuationElement1337,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2869, col: 13, offset: 90623},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2869, col: 13, offset: 90623},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2869, col: 20, offset: 90630},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2869, col: 29, offset: 90639},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35056,40 +35284,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2879, col: 8, offset: 90799},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2879, col: 9, offset: 90800,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2589, col: 5, offset: 82789},
+													pos:   position{line: 2597, col: 5, offset: 83001},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2589, col: 11, offset: 82795},
+														pos: position{line: 2597, col: 11, offset: 83007},
 														expr: &choiceExpr{
-															pos: position{line: 2589, col: 12, offset: 82796},
+															pos: position{line: 2597, col: 12, offset: 83008},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 677, col: 14, offset: 21489},
-																	run: (*parser).callonListContinuationElement1338,
+																	run: (*parser).callonListContinuationElement1347,
 																	expr: &seqExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2869, col: 11, offset: 90573},
+																				pos: position{line: 2877, col: 11, offset: 90785},
 																				expr: &anyMatcher{
-																					line: 2869, col: 13, offset: 90575,
+																					line: 2877, col: 13, offset: 90787,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 677, col: 21, offset: 21496},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
-																					run: (*parser).callonListContinuationElement1343,
+																					pos: position{line: 2860, col: 10, offset: 90451},
+																					run: (*parser).callonListContinuationElement1352,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2860, col: 10, offset: 90451},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35098,28 +35326,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2874, col: 8, offset: 90637},
+																				pos: position{line: 2882, col: 8, offset: 90849},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2861, col: 12, offset: 90410},
-																						run: (*parser).callonListContinuationElement1346,
+																						pos: position{line: 2869, col: 12, offset: 90622},
+																						run: (*parser).callonListContinuationElement1355,
 																						expr: &choiceExpr{
-																							pos: position{line: 2861, col: 13, offset: 90411},
+																							pos: position{line: 2869, col: 13, offset: 90623},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 13, offset: 90411},
+																									pos:        position{line: 2869, col: 13, offset: 90623},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 20, offset: 90418},
+																									pos:        position{line: 2869, col: 20, offset: 90630},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2861, col: 29, offset: 90427},
+																									pos:        position{line: 2869, col: 29, offset: 90639},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35128,9 +35356,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2871, col: 8, offset: 90587},
+																						pos: position{line: 2879, col: 8, offset: 90799},
 																						expr: &anyMatcher{
-																							line: 2871, col: 9, offset: 90588,
+																							line: 2879, col: 9, offset: 90800,
 																						},
 																					},
 																				},
@@ -35139,32 +35367,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2601, col: 5, offset: 83041},
-																	run: (*parser).callonListContinuationElement1353,
+																	pos: position{line: 2609, col: 5, offset: 83253},
+																	run: (*parser).callonListContinuationElement1362,
 																	expr: &seqExpr{
-																		pos: position{line: 2601, col: 5, offset: 83041},
+																		pos: position{line: 2609, col: 5, offset: 83253},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2601, col: 5, offset: 83041},
+																				pos: position{line: 2609, col: 5, offset: 83253},
 																				expr: &choiceExpr{
-																					pos: position{line: 2598, col: 22, offset: 83002},
+																					pos: position{line: 2606, col: 22, offset: 83214},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2594, col: 19, offset: 82922},
+																							pos: position{line: 2602, col: 19, offset: 83134},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2594, col: 19, offset: 82922},
+																									pos:        position{line: 2602, col: 19, offset: 83134},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2594, col: 26, offset: 82929},
+																									pos: position{line: 2602, col: 26, offset: 83141},
 																									expr: &actionExpr{
-																										pos: position{line: 2852, col: 10, offset: 90239},
-																										run: (*parser).callonListContinuationElement1360,
+																										pos: position{line: 2860, col: 10, offset: 90451},
+																										run: (*parser).callonListContinuationElement1369,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 10, offset: 90239},
+																											pos:        position{line: 2860, col: 10, offset: 90451},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35173,28 +35401,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2882, col: 8, offset: 90849},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
-																											run: (*parser).callonListContinuationElement1363,
+																											pos: position{line: 2869, col: 12, offset: 90622},
+																											run: (*parser).callonListContinuationElement1372,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2869, col: 13, offset: 90623},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2869, col: 13, offset: 90623},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2869, col: 20, offset: 90630},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2869, col: 29, offset: 90639},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35203,9 +35431,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2879, col: 8, offset: 90799},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2879, col: 9, offset: 90800,
 																											},
 																										},
 																									},
@@ -35213,59 +35441,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2879, col: 8, offset: 90799},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2879, col: 9, offset: 90800,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2602, col: 5, offset: 83064},
+																				pos:   position{line: 2610, col: 5, offset: 83276},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2603, col: 9, offset: 83082},
+																					pos: position{line: 2611, col: 9, offset: 83294},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2603, col: 10, offset: 83083},
-																							run: (*parser).callonListContinuationElement1374,
+																							pos: position{line: 2611, col: 10, offset: 83295},
+																							run: (*parser).callonListContinuationElement1383,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2603, col: 10, offset: 83083},
+																								pos:   position{line: 2611, col: 10, offset: 83295},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2603, col: 17, offset: 83090},
+																									pos: position{line: 2611, col: 17, offset: 83302},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2611, col: 21, offset: 83286},
-																											run: (*parser).callonListContinuationElement1377,
+																											pos: position{line: 2619, col: 21, offset: 83498},
+																											run: (*parser).callonListContinuationElement1386,
 																											expr: &seqExpr{
-																												pos: position{line: 2611, col: 21, offset: 83286},
+																												pos: position{line: 2619, col: 21, offset: 83498},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2611, col: 21, offset: 83286},
+																														pos:   position{line: 2619, col: 21, offset: 83498},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2611, col: 27, offset: 83292},
+																															pos: position{line: 2619, col: 27, offset: 83504},
 																															expr: &actionExpr{
-																																pos: position{line: 2616, col: 5, offset: 83367},
-																																run: (*parser).callonListContinuationElement1381,
+																																pos: position{line: 2624, col: 5, offset: 83579},
+																																run: (*parser).callonListContinuationElement1390,
 																																expr: &seqExpr{
-																																	pos: position{line: 2616, col: 5, offset: 83367},
+																																	pos: position{line: 2624, col: 5, offset: 83579},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2616, col: 5, offset: 83367},
+																																			pos:        position{line: 2624, col: 5, offset: 83579},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2616, col: 9, offset: 83371},
+																																			pos: position{line: 2624, col: 9, offset: 83583},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2852, col: 10, offset: 90239},
-																																				run: (*parser).callonListContinuationElement1385,
+																																				pos: position{line: 2860, col: 10, offset: 90451},
+																																				run: (*parser).callonListContinuationElement1394,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2852, col: 10, offset: 90239},
+																																					pos:        position{line: 2860, col: 10, offset: 90451},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35274,21 +35502,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2616, col: 16, offset: 83378},
+																																			pos:   position{line: 2624, col: 16, offset: 83590},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2622, col: 5, offset: 83578},
-																																				run: (*parser).callonListContinuationElement1388,
+																																				pos: position{line: 2630, col: 5, offset: 83790},
+																																				run: (*parser).callonListContinuationElement1397,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2622, col: 5, offset: 83578},
+																																					pos:   position{line: 2630, col: 5, offset: 83790},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2622, col: 14, offset: 83587},
-																																						run: (*parser).callonListContinuationElement1390,
+																																						pos: position{line: 2630, col: 14, offset: 83799},
+																																						run: (*parser).callonListContinuationElement1399,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2622, col: 14, offset: 83587},
+																																							pos: position{line: 2630, col: 14, offset: 83799},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2622, col: 14, offset: 83587},
+																																								pos:        position{line: 2630, col: 14, offset: 83799},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -35305,28 +35533,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2874, col: 8, offset: 90637},
+																														pos: position{line: 2882, col: 8, offset: 90849},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2861, col: 12, offset: 90410},
-																																run: (*parser).callonListContinuationElement1394,
+																																pos: position{line: 2869, col: 12, offset: 90622},
+																																run: (*parser).callonListContinuationElement1403,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2861, col: 13, offset: 90411},
+																																	pos: position{line: 2869, col: 13, offset: 90623},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2861, col: 13, offset: 90411},
+																																			pos:        position{line: 2869, col: 13, offset: 90623},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2861, col: 20, offset: 90418},
+																																			pos:        position{line: 2869, col: 20, offset: 90630},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2861, col: 29, offset: 90427},
+																																			pos:        position{line: 2869, col: 29, offset: 90639},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -35335,9 +35563,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2871, col: 8, offset: 90587},
+																																pos: position{line: 2879, col: 8, offset: 90799},
 																																expr: &anyMatcher{
-																																	line: 2871, col: 9, offset: 90588,
+																																	line: 2879, col: 9, offset: 90800,
 																																},
 																															},
 																														},
@@ -35346,40 +35574,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2628, col: 24, offset: 83723},
-																											run: (*parser).callonListContinuationElement1401,
+																											pos: position{line: 2636, col: 24, offset: 83935},
+																											run: (*parser).callonListContinuationElement1410,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2628, col: 24, offset: 83723},
+																												pos:   position{line: 2636, col: 24, offset: 83935},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2628, col: 30, offset: 83729},
+																													pos: position{line: 2636, col: 30, offset: 83941},
 																													expr: &actionExpr{
-																														pos: position{line: 2633, col: 5, offset: 83805},
-																														run: (*parser).callonListContinuationElement1404,
+																														pos: position{line: 2641, col: 5, offset: 84017},
+																														run: (*parser).callonListContinuationElement1413,
 																														expr: &seqExpr{
-																															pos: position{line: 2633, col: 5, offset: 83805},
+																															pos: position{line: 2641, col: 5, offset: 84017},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2633, col: 5, offset: 83805},
+																																	pos: position{line: 2641, col: 5, offset: 84017},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2598, col: 22, offset: 83002},
+																																		pos: position{line: 2606, col: 22, offset: 83214},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2594, col: 19, offset: 82922},
+																																				pos: position{line: 2602, col: 19, offset: 83134},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2594, col: 19, offset: 82922},
+																																						pos:        position{line: 2602, col: 19, offset: 83134},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2594, col: 26, offset: 82929},
+																																						pos: position{line: 2602, col: 26, offset: 83141},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2852, col: 10, offset: 90239},
-																																							run: (*parser).callonListContinuationElement1411,
+																																							pos: position{line: 2860, col: 10, offset: 90451},
+																																							run: (*parser).callonListContinuationElement1420,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2852, col: 10, offset: 90239},
+																																								pos:        position{line: 2860, col: 10, offset: 90451},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -35388,28 +35616,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2874, col: 8, offset: 90637},
+																																						pos: position{line: 2882, col: 8, offset: 90849},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2861, col: 12, offset: 90410},
-																																								run: (*parser).callonListContinuationElement1414,
+																																								pos: position{line: 2869, col: 12, offset: 90622},
+																																								run: (*parser).callonListContinuationElement1423,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2861, col: 13, offset: 90411},
+																																									pos: position{line: 2869, col: 13, offset: 90623},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 13, offset: 90411},
+																																											pos:        position{line: 2869, col: 13, offset: 90623},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 20, offset: 90418},
+																																											pos:        position{line: 2869, col: 20, offset: 90630},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2861, col: 29, offset: 90427},
+																																											pos:        position{line: 2869, col: 29, offset: 90639},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -35418,9 +35646,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2871, col: 8, offset: 90587},
+																																								pos: position{line: 2879, col: 8, offset: 90799},
 																																								expr: &anyMatcher{
-																																									line: 2871, col: 9, offset: 90588,
+																																									line: 2879, col: 9, offset: 90800,
 																																								},
 																																							},
 																																						},
@@ -35428,35 +35656,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2871, col: 8, offset: 90587},
+																																				pos: position{line: 2879, col: 8, offset: 90799},
 																																				expr: &anyMatcher{
-																																					line: 2871, col: 9, offset: 90588,
+																																					line: 2879, col: 9, offset: 90800,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2634, col: 5, offset: 83828},
+																																	pos: position{line: 2642, col: 5, offset: 84040},
 																																	expr: &actionExpr{
 																																		pos: position{line: 677, col: 14, offset: 21489},
-																																		run: (*parser).callonListContinuationElement1424,
+																																		run: (*parser).callonListContinuationElement1433,
 																																		expr: &seqExpr{
 																																			pos: position{line: 677, col: 14, offset: 21489},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2869, col: 11, offset: 90573},
+																																					pos: position{line: 2877, col: 11, offset: 90785},
 																																					expr: &anyMatcher{
-																																						line: 2869, col: 13, offset: 90575,
+																																						line: 2877, col: 13, offset: 90787,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 677, col: 21, offset: 21496},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2852, col: 10, offset: 90239},
-																																						run: (*parser).callonListContinuationElement1429,
+																																						pos: position{line: 2860, col: 10, offset: 90451},
+																																						run: (*parser).callonListContinuationElement1438,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2852, col: 10, offset: 90239},
+																																							pos:        position{line: 2860, col: 10, offset: 90451},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -35465,28 +35693,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2874, col: 8, offset: 90637},
+																																					pos: position{line: 2882, col: 8, offset: 90849},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2861, col: 12, offset: 90410},
-																																							run: (*parser).callonListContinuationElement1432,
+																																							pos: position{line: 2869, col: 12, offset: 90622},
+																																							run: (*parser).callonListContinuationElement1441,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2861, col: 13, offset: 90411},
+																																								pos: position{line: 2869, col: 13, offset: 90623},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2861, col: 13, offset: 90411},
+																																										pos:        position{line: 2869, col: 13, offset: 90623},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2861, col: 20, offset: 90418},
+																																										pos:        position{line: 2869, col: 20, offset: 90630},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2861, col: 29, offset: 90427},
+																																										pos:        position{line: 2869, col: 29, offset: 90639},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -35495,9 +35723,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2871, col: 8, offset: 90587},
+																																							pos: position{line: 2879, col: 8, offset: 90799},
 																																							expr: &anyMatcher{
-																																								line: 2871, col: 9, offset: 90588,
+																																								line: 2879, col: 9, offset: 90800,
 																																							},
 																																						},
 																																					},
@@ -35507,17 +35735,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2635, col: 5, offset: 83843},
+																																	pos:   position{line: 2643, col: 5, offset: 84055},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2635, col: 12, offset: 83850},
+																																		pos: position{line: 2643, col: 12, offset: 84062},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2652, col: 20, offset: 84314},
-																																			run: (*parser).callonListContinuationElement1441,
+																																			pos: position{line: 2660, col: 20, offset: 84526},
+																																			run: (*parser).callonListContinuationElement1450,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2652, col: 20, offset: 84314},
+																																				pos: position{line: 2660, col: 20, offset: 84526},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2652, col: 20, offset: 84314},
+																																					pos:        position{line: 2660, col: 20, offset: 84526},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -35528,18 +35756,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2635, col: 31, offset: 83869},
+																																	pos:        position{line: 2643, col: 31, offset: 84081},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2635, col: 35, offset: 83873},
+																																	pos: position{line: 2643, col: 35, offset: 84085},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2852, col: 10, offset: 90239},
-																																		run: (*parser).callonListContinuationElement1446,
+																																		pos: position{line: 2860, col: 10, offset: 90451},
+																																		run: (*parser).callonListContinuationElement1455,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2852, col: 10, offset: 90239},
+																																			pos:        position{line: 2860, col: 10, offset: 90451},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -35548,27 +35776,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2635, col: 42, offset: 83880},
+																																	pos: position{line: 2643, col: 42, offset: 84092},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2861, col: 12, offset: 90410},
-																																		run: (*parser).callonListContinuationElement1449,
+																																		pos: position{line: 2869, col: 12, offset: 90622},
+																																		run: (*parser).callonListContinuationElement1458,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2861, col: 13, offset: 90411},
+																																			pos: position{line: 2869, col: 13, offset: 90623},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2861, col: 13, offset: 90411},
+																																					pos:        position{line: 2869, col: 13, offset: 90623},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2861, col: 20, offset: 90418},
+																																					pos:        position{line: 2869, col: 20, offset: 90630},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2861, col: 29, offset: 90427},
+																																					pos:        position{line: 2869, col: 29, offset: 90639},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -35578,37 +35806,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2635, col: 51, offset: 83889},
+																																	pos:   position{line: 2643, col: 51, offset: 84101},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2641, col: 5, offset: 84048},
+																																		pos: position{line: 2649, col: 5, offset: 84260},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2642, col: 9, offset: 84058},
-																																			run: (*parser).callonListContinuationElement1456,
+																																			pos: position{line: 2650, col: 9, offset: 84270},
+																																			run: (*parser).callonListContinuationElement1465,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2642, col: 9, offset: 84058},
+																																				pos: position{line: 2650, col: 9, offset: 84270},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2642, col: 9, offset: 84058},
+																																						pos: position{line: 2650, col: 9, offset: 84270},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2598, col: 22, offset: 83002},
+																																							pos: position{line: 2606, col: 22, offset: 83214},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2594, col: 19, offset: 82922},
+																																									pos: position{line: 2602, col: 19, offset: 83134},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2594, col: 19, offset: 82922},
+																																											pos:        position{line: 2602, col: 19, offset: 83134},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2594, col: 26, offset: 82929},
+																																											pos: position{line: 2602, col: 26, offset: 83141},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2852, col: 10, offset: 90239},
-																																												run: (*parser).callonListContinuationElement1463,
+																																												pos: position{line: 2860, col: 10, offset: 90451},
+																																												run: (*parser).callonListContinuationElement1472,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2852, col: 10, offset: 90239},
+																																													pos:        position{line: 2860, col: 10, offset: 90451},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -35617,28 +35845,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2874, col: 8, offset: 90637},
+																																											pos: position{line: 2882, col: 8, offset: 90849},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2861, col: 12, offset: 90410},
-																																													run: (*parser).callonListContinuationElement1466,
+																																													pos: position{line: 2869, col: 12, offset: 90622},
+																																													run: (*parser).callonListContinuationElement1475,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2861, col: 13, offset: 90411},
+																																														pos: position{line: 2869, col: 13, offset: 90623},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																																pos:        position{line: 2869, col: 13, offset: 90623},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																																pos:        position{line: 2869, col: 20, offset: 90630},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																																pos:        position{line: 2869, col: 29, offset: 90639},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -35647,9 +35875,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2871, col: 8, offset: 90587},
+																																													pos: position{line: 2879, col: 8, offset: 90799},
 																																													expr: &anyMatcher{
-																																														line: 2871, col: 9, offset: 90588,
+																																														line: 2879, col: 9, offset: 90800,
 																																													},
 																																												},
 																																											},
@@ -35657,35 +35885,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2871, col: 8, offset: 90587},
+																																									pos: position{line: 2879, col: 8, offset: 90799},
 																																									expr: &anyMatcher{
-																																										line: 2871, col: 9, offset: 90588,
+																																										line: 2879, col: 9, offset: 90800,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2643, col: 9, offset: 84085},
+																																						pos: position{line: 2651, col: 9, offset: 84297},
 																																						expr: &actionExpr{
 																																							pos: position{line: 677, col: 14, offset: 21489},
-																																							run: (*parser).callonListContinuationElement1476,
+																																							run: (*parser).callonListContinuationElement1485,
 																																							expr: &seqExpr{
 																																								pos: position{line: 677, col: 14, offset: 21489},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2869, col: 11, offset: 90573},
+																																										pos: position{line: 2877, col: 11, offset: 90785},
 																																										expr: &anyMatcher{
-																																											line: 2869, col: 13, offset: 90575,
+																																											line: 2877, col: 13, offset: 90787,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 677, col: 21, offset: 21496},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2852, col: 10, offset: 90239},
-																																											run: (*parser).callonListContinuationElement1481,
+																																											pos: position{line: 2860, col: 10, offset: 90451},
+																																											run: (*parser).callonListContinuationElement1490,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2852, col: 10, offset: 90239},
+																																												pos:        position{line: 2860, col: 10, offset: 90451},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -35694,28 +35922,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2874, col: 8, offset: 90637},
+																																										pos: position{line: 2882, col: 8, offset: 90849},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2861, col: 12, offset: 90410},
-																																												run: (*parser).callonListContinuationElement1484,
+																																												pos: position{line: 2869, col: 12, offset: 90622},
+																																												run: (*parser).callonListContinuationElement1493,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2861, col: 13, offset: 90411},
+																																													pos: position{line: 2869, col: 13, offset: 90623},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2861, col: 13, offset: 90411},
+																																															pos:        position{line: 2869, col: 13, offset: 90623},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2861, col: 20, offset: 90418},
+																																															pos:        position{line: 2869, col: 20, offset: 90630},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2861, col: 29, offset: 90427},
+																																															pos:        position{line: 2869, col: 29, offset: 90639},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -35724,9 +35952,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2871, col: 8, offset: 90587},
+																																												pos: position{line: 2879, col: 8, offset: 90799},
 																																												expr: &anyMatcher{
-																																													line: 2871, col: 9, offset: 90588,
+																																													line: 2879, col: 9, offset: 90800,
 																																												},
 																																											},
 																																										},
@@ -35736,22 +35964,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2644, col: 9, offset: 84104},
+																																						pos: position{line: 2652, col: 9, offset: 84316},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2644, col: 11, offset: 84106},
+																																							pos: position{line: 2652, col: 11, offset: 84318},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2644, col: 11, offset: 84106},
+																																									pos:   position{line: 2652, col: 11, offset: 84318},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2644, col: 18, offset: 84113},
+																																										pos: position{line: 2652, col: 18, offset: 84325},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2652, col: 20, offset: 84314},
-																																											run: (*parser).callonListContinuationElement1495,
+																																											pos: position{line: 2660, col: 20, offset: 84526},
+																																											run: (*parser).callonListContinuationElement1504,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2652, col: 20, offset: 84314},
+																																												pos: position{line: 2660, col: 20, offset: 84526},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2652, col: 20, offset: 84314},
+																																													pos:        position{line: 2660, col: 20, offset: 84526},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -35762,7 +35990,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2644, col: 37, offset: 84132},
+																																									pos:        position{line: 2652, col: 37, offset: 84344},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -35771,15 +35999,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2645, col: 9, offset: 84145},
+																																						pos:   position{line: 2653, col: 9, offset: 84357},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2645, col: 18, offset: 84154},
-																																							run: (*parser).callonListContinuationElement1500,
+																																							pos: position{line: 2653, col: 18, offset: 84366},
+																																							run: (*parser).callonListContinuationElement1509,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2645, col: 18, offset: 84154},
+																																								pos: position{line: 2653, col: 18, offset: 84366},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2645, col: 18, offset: 84154},
+																																									pos:        position{line: 2653, col: 18, offset: 84366},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -35789,30 +36017,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2647, col: 12, offset: 84216},
+																																						pos: position{line: 2655, col: 12, offset: 84428},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2874, col: 8, offset: 90637},
+																																							pos: position{line: 2882, col: 8, offset: 90849},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2861, col: 12, offset: 90410},
-																																									run: (*parser).callonListContinuationElement1505,
+																																									pos: position{line: 2869, col: 12, offset: 90622},
+																																									run: (*parser).callonListContinuationElement1514,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2861, col: 13, offset: 90411},
+																																										pos: position{line: 2869, col: 13, offset: 90623},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 13, offset: 90411},
+																																												pos:        position{line: 2869, col: 13, offset: 90623},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 20, offset: 90418},
+																																												pos:        position{line: 2869, col: 20, offset: 90630},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2861, col: 29, offset: 90427},
+																																												pos:        position{line: 2869, col: 29, offset: 90639},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -35821,9 +36049,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2871, col: 8, offset: 90587},
+																																									pos: position{line: 2879, col: 8, offset: 90799},
 																																									expr: &anyMatcher{
-																																										line: 2871, col: 9, offset: 90588,
+																																										line: 2879, col: 9, offset: 90800,
 																																									},
 																																								},
 																																							},
@@ -35846,23 +36074,23 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 677, col: 14, offset: 21489},
-																							run: (*parser).callonListContinuationElement1512,
+																							run: (*parser).callonListContinuationElement1521,
 																							expr: &seqExpr{
 																								pos: position{line: 677, col: 14, offset: 21489},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2869, col: 11, offset: 90573},
+																										pos: position{line: 2877, col: 11, offset: 90785},
 																										expr: &anyMatcher{
-																											line: 2869, col: 13, offset: 90575,
+																											line: 2877, col: 13, offset: 90787,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 677, col: 21, offset: 21496},
 																										expr: &actionExpr{
-																											pos: position{line: 2852, col: 10, offset: 90239},
-																											run: (*parser).callonListContinuationElement1517,
+																											pos: position{line: 2860, col: 10, offset: 90451},
+																											run: (*parser).callonListContinuationElement1526,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2852, col: 10, offset: 90239},
+																												pos:        position{line: 2860, col: 10, offset: 90451},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -35871,28 +36099,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2874, col: 8, offset: 90637},
+																										pos: position{line: 2882, col: 8, offset: 90849},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2861, col: 12, offset: 90410},
-																												run: (*parser).callonListContinuationElement1520,
+																												pos: position{line: 2869, col: 12, offset: 90622},
+																												run: (*parser).callonListContinuationElement1529,
 																												expr: &choiceExpr{
-																													pos: position{line: 2861, col: 13, offset: 90411},
+																													pos: position{line: 2869, col: 13, offset: 90623},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 13, offset: 90411},
+																															pos:        position{line: 2869, col: 13, offset: 90623},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 20, offset: 90418},
+																															pos:        position{line: 2869, col: 20, offset: 90630},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2861, col: 29, offset: 90427},
+																															pos:        position{line: 2869, col: 29, offset: 90639},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -35901,9 +36129,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2871, col: 8, offset: 90587},
+																												pos: position{line: 2879, col: 8, offset: 90799},
 																												expr: &anyMatcher{
-																													line: 2871, col: 9, offset: 90588,
+																													line: 2879, col: 9, offset: 90800,
 																												},
 																											},
 																										},
@@ -35922,24 +36150,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2598, col: 22, offset: 83002},
+													pos: position{line: 2606, col: 22, offset: 83214},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2594, col: 19, offset: 82922},
+															pos: position{line: 2602, col: 19, offset: 83134},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2594, col: 19, offset: 82922},
+																	pos:        position{line: 2602, col: 19, offset: 83134},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2594, col: 26, offset: 82929},
+																	pos: position{line: 2602, col: 26, offset: 83141},
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
-																		run: (*parser).callonListContinuationElement1531,
+																		pos: position{line: 2860, col: 10, offset: 90451},
+																		run: (*parser).callonListContinuationElement1540,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2860, col: 10, offset: 90451},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35948,28 +36176,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2882, col: 8, offset: 90849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement1534,
+																			pos: position{line: 2869, col: 12, offset: 90622},
+																			run: (*parser).callonListContinuationElement1543,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2869, col: 13, offset: 90623},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2869, col: 13, offset: 90623},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2869, col: 20, offset: 90630},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2869, col: 29, offset: 90639},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35978,9 +36206,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2879, col: 8, offset: 90799},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2879, col: 9, offset: 90800,
 																			},
 																		},
 																	},
@@ -35988,9 +36216,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2879, col: 8, offset: 90799},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2879, col: 9, offset: 90800,
 															},
 														},
 													},
@@ -35999,36 +36227,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2462, col: 22, offset: 79224},
-										run: (*parser).callonListContinuationElement1543,
+										pos: position{line: 2470, col: 22, offset: 79436},
+										run: (*parser).callonListContinuationElement1552,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 22, offset: 79224},
+											pos: position{line: 2470, col: 22, offset: 79436},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2467, col: 31, offset: 79445},
+													pos:        position{line: 2475, col: 31, offset: 79657},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2467, col: 36, offset: 79450},
+													pos: position{line: 2475, col: 36, offset: 79662},
 													expr: &litMatcher{
-														pos:        position{line: 2467, col: 37, offset: 79451},
+														pos:        position{line: 2475, col: 37, offset: 79663},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2462, col: 49, offset: 79251},
+													pos:   position{line: 2470, col: 49, offset: 79463},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2798, col: 13, offset: 88765},
-														run: (*parser).callonListContinuationElement1549,
+														pos: position{line: 2806, col: 13, offset: 88977},
+														run: (*parser).callonListContinuationElement1558,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2798, col: 13, offset: 88765},
+															pos: position{line: 2806, col: 13, offset: 88977},
 															expr: &charClassMatcher{
-																pos:        position{line: 2798, col: 13, offset: 88765},
+																pos:        position{line: 2806, col: 13, offset: 88977},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36038,28 +36266,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2874, col: 8, offset: 90637},
+													pos: position{line: 2882, col: 8, offset: 90849},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
-															run: (*parser).callonListContinuationElement1553,
+															pos: position{line: 2869, col: 12, offset: 90622},
+															run: (*parser).callonListContinuationElement1562,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2869, col: 13, offset: 90623},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2869, col: 13, offset: 90623},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2869, col: 20, offset: 90630},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2869, col: 29, offset: 90639},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36068,9 +36296,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2871, col: 8, offset: 90587},
+															pos: position{line: 2879, col: 8, offset: 90799},
 															expr: &anyMatcher{
-																line: 2871, col: 9, offset: 90588,
+																line: 2879, col: 9, offset: 90800,
 															},
 														},
 													},
@@ -36079,94 +36307,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1561, col: 5, offset: 50416},
-										run: (*parser).callonListContinuationElement1560,
+										pos: position{line: 1569, col: 5, offset: 50628},
+										run: (*parser).callonListContinuationElement1569,
 										expr: &seqExpr{
-											pos: position{line: 1561, col: 5, offset: 50416},
+											pos: position{line: 1569, col: 5, offset: 50628},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1561, col: 5, offset: 50416},
+													pos:   position{line: 1569, col: 5, offset: 50628},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1561, col: 11, offset: 50422},
+														pos: position{line: 1569, col: 11, offset: 50634},
 														expr: &actionExpr{
-															pos: position{line: 1725, col: 5, offset: 55739},
-															run: (*parser).callonListContinuationElement1564,
+															pos: position{line: 1733, col: 5, offset: 55951},
+															run: (*parser).callonListContinuationElement1573,
 															expr: &seqExpr{
-																pos: position{line: 1725, col: 5, offset: 55739},
+																pos: position{line: 1733, col: 5, offset: 55951},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1725, col: 5, offset: 55739},
-																		run: (*parser).callonListContinuationElement1566,
+																		pos: position{line: 1733, col: 5, offset: 55951},
+																		run: (*parser).callonListContinuationElement1575,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1728, col: 5, offset: 55802},
+																		pos:   position{line: 1736, col: 5, offset: 56014},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1728, col: 12, offset: 55809},
+																			pos: position{line: 1736, col: 12, offset: 56021},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1728, col: 12, offset: 55809},
-																					run: (*parser).callonListContinuationElement1569,
+																					pos: position{line: 1736, col: 12, offset: 56021},
+																					run: (*parser).callonListContinuationElement1578,
 																					expr: &litMatcher{
-																						pos:        position{line: 1728, col: 12, offset: 55809},
+																						pos:        position{line: 1736, col: 12, offset: 56021},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1730, col: 13, offset: 55865},
-																					run: (*parser).callonListContinuationElement1571,
+																					pos: position{line: 1738, col: 13, offset: 56077},
+																					run: (*parser).callonListContinuationElement1580,
 																					expr: &litMatcher{
-																						pos:        position{line: 1730, col: 13, offset: 55865},
+																						pos:        position{line: 1738, col: 13, offset: 56077},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1732, col: 13, offset: 55923},
-																					run: (*parser).callonListContinuationElement1573,
+																					pos: position{line: 1740, col: 13, offset: 56135},
+																					run: (*parser).callonListContinuationElement1582,
 																					expr: &litMatcher{
-																						pos:        position{line: 1732, col: 13, offset: 55923},
+																						pos:        position{line: 1740, col: 13, offset: 56135},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1734, col: 13, offset: 55991},
-																					run: (*parser).callonListContinuationElement1575,
+																					pos: position{line: 1742, col: 13, offset: 56203},
+																					run: (*parser).callonListContinuationElement1584,
 																					expr: &litMatcher{
-																						pos:        position{line: 1734, col: 13, offset: 55991},
+																						pos:        position{line: 1742, col: 13, offset: 56203},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1736, col: 13, offset: 56055},
-																					run: (*parser).callonListContinuationElement1577,
+																					pos: position{line: 1744, col: 13, offset: 56267},
+																					run: (*parser).callonListContinuationElement1586,
 																					expr: &litMatcher{
-																						pos:        position{line: 1736, col: 13, offset: 56055},
+																						pos:        position{line: 1744, col: 13, offset: 56267},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1738, col: 13, offset: 56119},
-																					run: (*parser).callonListContinuationElement1579,
+																					pos: position{line: 1746, col: 13, offset: 56331},
+																					run: (*parser).callonListContinuationElement1588,
 																					expr: &andExpr{
-																						pos: position{line: 1738, col: 13, offset: 56119},
+																						pos: position{line: 1746, col: 13, offset: 56331},
 																						expr: &actionExpr{
-																							pos: position{line: 2856, col: 11, offset: 90300},
-																							run: (*parser).callonListContinuationElement1581,
+																							pos: position{line: 2864, col: 11, offset: 90512},
+																							run: (*parser).callonListContinuationElement1590,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2856, col: 11, offset: 90300},
+																								pos: position{line: 2864, col: 11, offset: 90512},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2856, col: 11, offset: 90300},
+																									pos:        position{line: 2864, col: 11, offset: 90512},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36185,35 +36413,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1562, col: 5, offset: 50445},
+													pos:   position{line: 1570, col: 5, offset: 50657},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1505, col: 5, offset: 48795},
-														run: (*parser).callonListContinuationElement1585,
+														pos: position{line: 1513, col: 5, offset: 49007},
+														run: (*parser).callonListContinuationElement1594,
 														expr: &seqExpr{
-															pos: position{line: 1505, col: 5, offset: 48795},
+															pos: position{line: 1513, col: 5, offset: 49007},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1505, col: 5, offset: 48795},
+																	pos: position{line: 1513, col: 5, offset: 49007},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
-																		run: (*parser).callonListContinuationElement1588,
+																		run: (*parser).callonListContinuationElement1597,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2869, col: 11, offset: 90573},
+																					pos: position{line: 2877, col: 11, offset: 90785},
 																					expr: &anyMatcher{
-																						line: 2869, col: 13, offset: 90575,
+																						line: 2877, col: 13, offset: 90787,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonListContinuationElement1593,
+																						pos: position{line: 2860, col: 10, offset: 90451},
+																						run: (*parser).callonListContinuationElement1602,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2860, col: 10, offset: 90451},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36222,28 +36450,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2874, col: 8, offset: 90637},
+																					pos: position{line: 2882, col: 8, offset: 90849},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
-																							run: (*parser).callonListContinuationElement1596,
+																							pos: position{line: 2869, col: 12, offset: 90622},
+																							run: (*parser).callonListContinuationElement1605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2869, col: 13, offset: 90623},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2869, col: 13, offset: 90623},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2869, col: 20, offset: 90630},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2869, col: 29, offset: 90639},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36252,9 +36480,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2871, col: 8, offset: 90587},
+																							pos: position{line: 2879, col: 8, offset: 90799},
 																							expr: &anyMatcher{
-																								line: 2871, col: 9, offset: 90588,
+																								line: 2879, col: 9, offset: 90800,
 																							},
 																						},
 																					},
@@ -36264,23 +36492,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1506, col: 5, offset: 48810},
+																	pos: position{line: 1514, col: 5, offset: 49022},
 																	expr: &seqExpr{
-																		pos: position{line: 1536, col: 27, offset: 49636},
+																		pos: position{line: 1544, col: 27, offset: 49848},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1536, col: 27, offset: 49636},
+																				pos:        position{line: 1544, col: 27, offset: 49848},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1536, col: 31, offset: 49640},
+																				pos: position{line: 1544, col: 31, offset: 49852},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
-																					run: (*parser).callonListContinuationElement1607,
+																					pos: position{line: 2860, col: 10, offset: 90451},
+																					run: (*parser).callonListContinuationElement1616,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2860, col: 10, offset: 90451},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36289,25 +36517,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
-																				run: (*parser).callonListContinuationElement1609,
+																				pos: position{line: 2869, col: 12, offset: 90622},
+																				run: (*parser).callonListContinuationElement1618,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2869, col: 13, offset: 90623},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2869, col: 13, offset: 90623},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2869, col: 20, offset: 90630},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2869, col: 29, offset: 90639},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -36319,20 +36547,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1507, col: 5, offset: 48838},
+																	pos: position{line: 1515, col: 5, offset: 49050},
 																	expr: &actionExpr{
-																		pos: position{line: 1577, col: 5, offset: 50855},
-																		run: (*parser).callonListContinuationElement1615,
+																		pos: position{line: 1585, col: 5, offset: 51067},
+																		run: (*parser).callonListContinuationElement1624,
 																		expr: &seqExpr{
-																			pos: position{line: 1577, col: 5, offset: 50855},
+																			pos: position{line: 1585, col: 5, offset: 51067},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1577, col: 5, offset: 50855},
+																					pos: position{line: 1585, col: 5, offset: 51067},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonListContinuationElement1618,
+																						pos: position{line: 2860, col: 10, offset: 90451},
+																						run: (*parser).callonListContinuationElement1627,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2860, col: 10, offset: 90451},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36341,27 +36569,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1577, col: 12, offset: 50862},
+																					pos:   position{line: 1585, col: 12, offset: 51074},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1579, col: 9, offset: 50925},
+																						pos: position{line: 1587, col: 9, offset: 51137},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1579, col: 9, offset: 50925},
-																								run: (*parser).callonListContinuationElement1622,
+																								pos: position{line: 1587, col: 9, offset: 51137},
+																								run: (*parser).callonListContinuationElement1631,
 																								expr: &seqExpr{
-																									pos: position{line: 1579, col: 9, offset: 50925},
+																									pos: position{line: 1587, col: 9, offset: 51137},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1579, col: 9, offset: 50925},
+																											pos:   position{line: 1587, col: 9, offset: 51137},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1579, col: 16, offset: 50932},
-																												run: (*parser).callonListContinuationElement1625,
+																												pos: position{line: 1587, col: 16, offset: 51144},
+																												run: (*parser).callonListContinuationElement1634,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1579, col: 16, offset: 50932},
+																													pos: position{line: 1587, col: 16, offset: 51144},
 																													expr: &litMatcher{
-																														pos:        position{line: 1579, col: 17, offset: 50933},
+																														pos:        position{line: 1587, col: 17, offset: 51145},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -36370,22 +36598,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1583, col: 9, offset: 51033},
-																											run: (*parser).callonListContinuationElement1628,
+																											pos: position{line: 1591, col: 9, offset: 51245},
+																											run: (*parser).callonListContinuationElement1637,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1602, col: 11, offset: 51750},
-																								run: (*parser).callonListContinuationElement1629,
+																								pos: position{line: 1610, col: 11, offset: 51962},
+																								run: (*parser).callonListContinuationElement1638,
 																								expr: &seqExpr{
-																									pos: position{line: 1602, col: 11, offset: 51750},
+																									pos: position{line: 1610, col: 11, offset: 51962},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1602, col: 11, offset: 51750},
+																											pos: position{line: 1610, col: 11, offset: 51962},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1602, col: 12, offset: 51751},
+																												pos:        position{line: 1610, col: 12, offset: 51963},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -36393,7 +36621,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1602, col: 20, offset: 51759},
+																											pos:        position{line: 1610, col: 20, offset: 51971},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36402,20 +36630,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1604, col: 13, offset: 51876},
-																								run: (*parser).callonListContinuationElement1634,
+																								pos: position{line: 1612, col: 13, offset: 52088},
+																								run: (*parser).callonListContinuationElement1643,
 																								expr: &seqExpr{
-																									pos: position{line: 1604, col: 13, offset: 51876},
+																									pos: position{line: 1612, col: 13, offset: 52088},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1604, col: 14, offset: 51877},
+																											pos:        position{line: 1612, col: 14, offset: 52089},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1604, col: 21, offset: 51884},
+																											pos:        position{line: 1612, col: 21, offset: 52096},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36424,20 +36652,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1606, col: 13, offset: 52004},
-																								run: (*parser).callonListContinuationElement1638,
+																								pos: position{line: 1614, col: 13, offset: 52216},
+																								run: (*parser).callonListContinuationElement1647,
 																								expr: &seqExpr{
-																									pos: position{line: 1606, col: 13, offset: 52004},
+																									pos: position{line: 1614, col: 13, offset: 52216},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1606, col: 14, offset: 52005},
+																											pos:        position{line: 1614, col: 14, offset: 52217},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1606, col: 21, offset: 52012},
+																											pos:        position{line: 1614, col: 21, offset: 52224},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36446,15 +36674,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1608, col: 13, offset: 52132},
-																								run: (*parser).callonListContinuationElement1642,
+																								pos: position{line: 1616, col: 13, offset: 52344},
+																								run: (*parser).callonListContinuationElement1651,
 																								expr: &seqExpr{
-																									pos: position{line: 1608, col: 13, offset: 52132},
+																									pos: position{line: 1616, col: 13, offset: 52344},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1608, col: 13, offset: 52132},
+																											pos: position{line: 1616, col: 13, offset: 52344},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1608, col: 14, offset: 52133},
+																												pos:        position{line: 1616, col: 14, offset: 52345},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -36462,7 +36690,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1608, col: 26, offset: 52145},
+																											pos:        position{line: 1616, col: 26, offset: 52357},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -36471,15 +36699,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1610, col: 13, offset: 52265},
-																								run: (*parser).callonListContinuationElement1647,
+																								pos: position{line: 1618, col: 13, offset: 52477},
+																								run: (*parser).callonListContinuationElement1656,
 																								expr: &seqExpr{
-																									pos: position{line: 1610, col: 13, offset: 52265},
+																									pos: position{line: 1618, col: 13, offset: 52477},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1610, col: 13, offset: 52265},
+																											pos: position{line: 1618, col: 13, offset: 52477},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1610, col: 14, offset: 52266},
+																												pos:        position{line: 1618, col: 14, offset: 52478},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -36487,7 +36715,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1610, col: 26, offset: 52278},
+																											pos:        position{line: 1618, col: 26, offset: 52490},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -36499,12 +36727,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2856, col: 11, offset: 90300},
-																					run: (*parser).callonListContinuationElement1652,
+																					pos: position{line: 2864, col: 11, offset: 90512},
+																					run: (*parser).callonListContinuationElement1661,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2856, col: 11, offset: 90300},
+																						pos: position{line: 2864, col: 11, offset: 90512},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2856, col: 11, offset: 90300},
+																							pos:        position{line: 2864, col: 11, offset: 90512},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36517,20 +36745,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1508, col: 5, offset: 48868},
+																	pos: position{line: 1516, col: 5, offset: 49080},
 																	expr: &actionExpr{
-																		pos: position{line: 1627, col: 5, offset: 52817},
-																		run: (*parser).callonListContinuationElement1656,
+																		pos: position{line: 1635, col: 5, offset: 53029},
+																		run: (*parser).callonListContinuationElement1665,
 																		expr: &seqExpr{
-																			pos: position{line: 1627, col: 5, offset: 52817},
+																			pos: position{line: 1635, col: 5, offset: 53029},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1627, col: 5, offset: 52817},
+																					pos: position{line: 1635, col: 5, offset: 53029},
 																					expr: &actionExpr{
-																						pos: position{line: 2852, col: 10, offset: 90239},
-																						run: (*parser).callonListContinuationElement1659,
+																						pos: position{line: 2860, col: 10, offset: 90451},
+																						run: (*parser).callonListContinuationElement1668,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2852, col: 10, offset: 90239},
+																							pos:        position{line: 2860, col: 10, offset: 90451},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36539,24 +36767,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1628, col: 5, offset: 52829},
+																					pos:   position{line: 1636, col: 5, offset: 53041},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1629, col: 9, offset: 52845},
-																						run: (*parser).callonListContinuationElement1662,
+																						pos: position{line: 1637, col: 9, offset: 53057},
+																						run: (*parser).callonListContinuationElement1671,
 																						expr: &choiceExpr{
-																							pos: position{line: 1629, col: 10, offset: 52846},
+																							pos: position{line: 1637, col: 10, offset: 53058},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1629, col: 11, offset: 52847},
+																									pos:        position{line: 1637, col: 11, offset: 53059},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1629, col: 18, offset: 52854},
+																									pos: position{line: 1637, col: 18, offset: 53066},
 																									expr: &litMatcher{
-																										pos:        position{line: 1629, col: 19, offset: 52855},
+																										pos:        position{line: 1637, col: 19, offset: 53067},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -36567,16 +36795,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1632, col: 7, offset: 52945},
-																					run: (*parser).callonListContinuationElement1667,
+																					pos: position{line: 1640, col: 7, offset: 53157},
+																					run: (*parser).callonListContinuationElement1676,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2856, col: 11, offset: 90300},
-																					run: (*parser).callonListContinuationElement1668,
+																					pos: position{line: 2864, col: 11, offset: 90512},
+																					run: (*parser).callonListContinuationElement1677,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2856, col: 11, offset: 90300},
+																						pos: position{line: 2864, col: 11, offset: 90512},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2856, col: 11, offset: 90300},
+																							pos:        position{line: 2864, col: 11, offset: 90512},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36589,29 +36817,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1509, col: 5, offset: 48900},
+																	pos: position{line: 1517, col: 5, offset: 49112},
 																	expr: &actionExpr{
-																		pos: position{line: 1716, col: 5, offset: 55354},
-																		run: (*parser).callonListContinuationElement1672,
+																		pos: position{line: 1724, col: 5, offset: 55566},
+																		run: (*parser).callonListContinuationElement1681,
 																		expr: &seqExpr{
-																			pos: position{line: 1716, col: 5, offset: 55354},
+																			pos: position{line: 1724, col: 5, offset: 55566},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1716, col: 5, offset: 55354},
+																					pos:        position{line: 1724, col: 5, offset: 55566},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1716, col: 9, offset: 55358},
+																					pos:   position{line: 1724, col: 9, offset: 55570},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1716, col: 14, offset: 55363},
-																						run: (*parser).callonListContinuationElement1676,
+																						pos: position{line: 1724, col: 14, offset: 55575},
+																						run: (*parser).callonListContinuationElement1685,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1716, col: 14, offset: 55363},
+																							pos: position{line: 1724, col: 14, offset: 55575},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1716, col: 14, offset: 55363},
+																								pos:        position{line: 1724, col: 14, offset: 55575},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -36621,18 +36849,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1716, col: 62, offset: 55411},
+																					pos:        position{line: 1724, col: 62, offset: 55623},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2856, col: 11, offset: 90300},
-																					run: (*parser).callonListContinuationElement1680,
+																					pos: position{line: 2864, col: 11, offset: 90512},
+																					run: (*parser).callonListContinuationElement1689,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2856, col: 11, offset: 90300},
+																						pos: position{line: 2864, col: 11, offset: 90512},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2856, col: 11, offset: 90300},
+																							pos:        position{line: 2864, col: 11, offset: 90512},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36645,36 +36873,36 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1510, col: 5, offset: 48930},
+																	pos: position{line: 1518, col: 5, offset: 49142},
 																	expr: &seqExpr{
-																		pos: position{line: 1510, col: 7, offset: 48932},
+																		pos: position{line: 1518, col: 7, offset: 49144},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1662, col: 5, offset: 53836},
-																				run: (*parser).callonListContinuationElement1685,
+																				pos: position{line: 1670, col: 5, offset: 54048},
+																				run: (*parser).callonListContinuationElement1694,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1662, col: 5, offset: 53836},
+																					pos: position{line: 1670, col: 5, offset: 54048},
 																					expr: &seqExpr{
-																						pos: position{line: 1662, col: 6, offset: 53837},
+																						pos: position{line: 1670, col: 6, offset: 54049},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1662, col: 6, offset: 53837},
+																								pos: position{line: 1670, col: 6, offset: 54049},
 																								expr: &actionExpr{
-																									pos: position{line: 1667, col: 5, offset: 53987},
-																									run: (*parser).callonListContinuationElement1689,
+																									pos: position{line: 1675, col: 5, offset: 54199},
+																									run: (*parser).callonListContinuationElement1698,
 																									expr: &seqExpr{
-																										pos: position{line: 1667, col: 5, offset: 53987},
+																										pos: position{line: 1675, col: 5, offset: 54199},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1667, col: 5, offset: 53987},
+																												pos:   position{line: 1675, col: 5, offset: 54199},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1667, col: 16, offset: 53998},
-																													run: (*parser).callonListContinuationElement1692,
+																													pos: position{line: 1675, col: 16, offset: 54210},
+																													run: (*parser).callonListContinuationElement1701,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1667, col: 16, offset: 53998},
+																														pos: position{line: 1675, col: 16, offset: 54210},
 																														expr: &litMatcher{
-																															pos:        position{line: 1667, col: 17, offset: 53999},
+																															pos:        position{line: 1675, col: 17, offset: 54211},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -36683,38 +36911,38 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1670, col: 5, offset: 54056},
-																												run: (*parser).callonListContinuationElement1695,
+																												pos: position{line: 1678, col: 5, offset: 54268},
+																												run: (*parser).callonListContinuationElement1704,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1662, col: 35, offset: 53866},
+																								pos: position{line: 1670, col: 35, offset: 54078},
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 8, offset: 90637},
+																									pos: position{line: 2882, col: 8, offset: 90849},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2861, col: 12, offset: 90410},
-																											run: (*parser).callonListContinuationElement1698,
+																											pos: position{line: 2869, col: 12, offset: 90622},
+																											run: (*parser).callonListContinuationElement1707,
 																											expr: &choiceExpr{
-																												pos: position{line: 2861, col: 13, offset: 90411},
+																												pos: position{line: 2869, col: 13, offset: 90623},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 13, offset: 90411},
+																														pos:        position{line: 2869, col: 13, offset: 90623},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 20, offset: 90418},
+																														pos:        position{line: 2869, col: 20, offset: 90630},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2861, col: 29, offset: 90427},
+																														pos:        position{line: 2869, col: 29, offset: 90639},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36723,37 +36951,37 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2871, col: 8, offset: 90587},
+																											pos: position{line: 2879, col: 8, offset: 90799},
 																											expr: &anyMatcher{
-																												line: 2871, col: 9, offset: 90588,
+																												line: 2879, col: 9, offset: 90800,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1662, col: 40, offset: 53871,
+																								line: 1670, col: 40, offset: 54083,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1667, col: 5, offset: 53987},
-																				run: (*parser).callonListContinuationElement1706,
+																				pos: position{line: 1675, col: 5, offset: 54199},
+																				run: (*parser).callonListContinuationElement1715,
 																				expr: &seqExpr{
-																					pos: position{line: 1667, col: 5, offset: 53987},
+																					pos: position{line: 1675, col: 5, offset: 54199},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1667, col: 5, offset: 53987},
+																							pos:   position{line: 1675, col: 5, offset: 54199},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1667, col: 16, offset: 53998},
-																								run: (*parser).callonListContinuationElement1709,
+																								pos: position{line: 1675, col: 16, offset: 54210},
+																								run: (*parser).callonListContinuationElement1718,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1667, col: 16, offset: 53998},
+																									pos: position{line: 1675, col: 16, offset: 54210},
 																									expr: &litMatcher{
-																										pos:        position{line: 1667, col: 17, offset: 53999},
+																										pos:        position{line: 1675, col: 17, offset: 54211},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -36762,8 +36990,8 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1670, col: 5, offset: 54056},
-																							run: (*parser).callonListContinuationElement1712,
+																							pos: position{line: 1678, col: 5, offset: 54268},
+																							run: (*parser).callonListContinuationElement1721,
 																						},
 																					},
 																				},
@@ -36772,17 +37000,17 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1511, col: 5, offset: 48988},
+																	pos: position{line: 1519, col: 5, offset: 49200},
 																	expr: &actionExpr{
 																		pos: position{line: 724, col: 5, offset: 23042},
-																		run: (*parser).callonListContinuationElement1714,
+																		run: (*parser).callonListContinuationElement1723,
 																		expr: &seqExpr{
 																			pos: position{line: 724, col: 5, offset: 23042},
 																			exprs: []interface{}{
 																				&notExpr{
 																					pos: position{line: 724, col: 5, offset: 23042},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2742, col: 13, offset: 87334},
+																						pos:        position{line: 2750, col: 13, offset: 87546},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -36797,7 +37025,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 740, col: 5, offset: 23584},
-																								run: (*parser).callonListContinuationElement1720,
+																								run: (*parser).callonListContinuationElement1729,
 																								expr: &seqExpr{
 																									pos: position{line: 740, col: 5, offset: 23584},
 																									exprs: []interface{}{
@@ -36806,7 +37034,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 740, col: 16, offset: 23595},
-																												run: (*parser).callonListContinuationElement1723,
+																												run: (*parser).callonListContinuationElement1732,
 																												expr: &seqExpr{
 																													pos: position{line: 740, col: 16, offset: 23595},
 																													exprs: []interface{}{
@@ -36832,10 +37060,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23686},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1729,
+																												pos: position{line: 2860, col: 10, offset: 90451},
+																												run: (*parser).callonListContinuationElement1738,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2860, col: 10, offset: 90451},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36844,28 +37072,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2882, col: 8, offset: 90849},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1732,
+																													pos: position{line: 2869, col: 12, offset: 90622},
+																													run: (*parser).callonListContinuationElement1741,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2869, col: 13, offset: 90623},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2869, col: 13, offset: 90623},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2869, col: 20, offset: 90630},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2869, col: 29, offset: 90639},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36874,9 +37102,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2879, col: 8, offset: 90799},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2879, col: 9, offset: 90800,
 																													},
 																												},
 																											},
@@ -36886,7 +37114,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 747, col: 5, offset: 23832},
-																								run: (*parser).callonListContinuationElement1739,
+																								run: (*parser).callonListContinuationElement1748,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 5, offset: 23832},
 																									exprs: []interface{}{
@@ -36895,7 +37123,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 747, col: 16, offset: 23843},
-																												run: (*parser).callonListContinuationElement1742,
+																												run: (*parser).callonListContinuationElement1751,
 																												expr: &seqExpr{
 																													pos: position{line: 747, col: 16, offset: 23843},
 																													exprs: []interface{}{
@@ -36921,10 +37149,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23934},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1748,
+																												pos: position{line: 2860, col: 10, offset: 90451},
+																												run: (*parser).callonListContinuationElement1757,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2860, col: 10, offset: 90451},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -36933,28 +37161,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2882, col: 8, offset: 90849},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1751,
+																													pos: position{line: 2869, col: 12, offset: 90622},
+																													run: (*parser).callonListContinuationElement1760,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2869, col: 13, offset: 90623},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2869, col: 13, offset: 90623},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2869, col: 20, offset: 90630},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2869, col: 29, offset: 90639},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36963,9 +37191,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2879, col: 8, offset: 90799},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2879, col: 9, offset: 90800,
 																													},
 																												},
 																											},
@@ -36975,7 +37203,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 760, col: 26, offset: 24320},
-																								run: (*parser).callonListContinuationElement1758,
+																								run: (*parser).callonListContinuationElement1767,
 																								expr: &seqExpr{
 																									pos: position{line: 760, col: 26, offset: 24320},
 																									exprs: []interface{}{
@@ -36990,7 +37218,7 @@ var g = &grammar{
 																											label: "language",
 																											expr: &actionExpr{
 																												pos: position{line: 764, col: 13, offset: 24456},
-																												run: (*parser).callonListContinuationElement1762,
+																												run: (*parser).callonListContinuationElement1771,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 764, col: 14, offset: 24457},
 																													expr: &charClassMatcher{
@@ -37006,10 +37234,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 760, col: 52, offset: 24346},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1766,
+																												pos: position{line: 2860, col: 10, offset: 90451},
+																												run: (*parser).callonListContinuationElement1775,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2860, col: 10, offset: 90451},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37018,28 +37246,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2882, col: 8, offset: 90849},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1769,
+																													pos: position{line: 2869, col: 12, offset: 90622},
+																													run: (*parser).callonListContinuationElement1778,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2869, col: 13, offset: 90623},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2869, col: 13, offset: 90623},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2869, col: 20, offset: 90630},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2869, col: 29, offset: 90639},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37048,9 +37276,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2879, col: 8, offset: 90799},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2879, col: 9, offset: 90800,
 																													},
 																												},
 																											},
@@ -37060,7 +37288,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 754, col: 5, offset: 24079},
-																								run: (*parser).callonListContinuationElement1776,
+																								run: (*parser).callonListContinuationElement1785,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 5, offset: 24079},
 																									exprs: []interface{}{
@@ -37069,7 +37297,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 754, col: 16, offset: 24090},
-																												run: (*parser).callonListContinuationElement1779,
+																												run: (*parser).callonListContinuationElement1788,
 																												expr: &seqExpr{
 																													pos: position{line: 754, col: 16, offset: 24090},
 																													exprs: []interface{}{
@@ -37095,10 +37323,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24180},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1785,
+																												pos: position{line: 2860, col: 10, offset: 90451},
+																												run: (*parser).callonListContinuationElement1794,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2860, col: 10, offset: 90451},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37107,28 +37335,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2882, col: 8, offset: 90849},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1788,
+																													pos: position{line: 2869, col: 12, offset: 90622},
+																													run: (*parser).callonListContinuationElement1797,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2869, col: 13, offset: 90623},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2869, col: 13, offset: 90623},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2869, col: 20, offset: 90630},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2869, col: 29, offset: 90639},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37137,9 +37365,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2879, col: 8, offset: 90799},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2879, col: 9, offset: 90800,
 																													},
 																												},
 																											},
@@ -37149,7 +37377,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 769, col: 5, offset: 24616},
-																								run: (*parser).callonListContinuationElement1795,
+																								run: (*parser).callonListContinuationElement1804,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 5, offset: 24616},
 																									exprs: []interface{}{
@@ -37158,7 +37386,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 769, col: 16, offset: 24627},
-																												run: (*parser).callonListContinuationElement1798,
+																												run: (*parser).callonListContinuationElement1807,
 																												expr: &seqExpr{
 																													pos: position{line: 769, col: 16, offset: 24627},
 																													exprs: []interface{}{
@@ -37184,10 +37412,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24718},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1804,
+																												pos: position{line: 2860, col: 10, offset: 90451},
+																												run: (*parser).callonListContinuationElement1813,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2860, col: 10, offset: 90451},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37196,28 +37424,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2882, col: 8, offset: 90849},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1807,
+																													pos: position{line: 2869, col: 12, offset: 90622},
+																													run: (*parser).callonListContinuationElement1816,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2869, col: 13, offset: 90623},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2869, col: 13, offset: 90623},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2869, col: 20, offset: 90630},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2869, col: 29, offset: 90639},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37226,9 +37454,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2879, col: 8, offset: 90799},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2879, col: 9, offset: 90800,
 																													},
 																												},
 																											},
@@ -37238,7 +37466,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 783, col: 5, offset: 25092},
-																								run: (*parser).callonListContinuationElement1814,
+																								run: (*parser).callonListContinuationElement1823,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 5, offset: 25092},
 																									exprs: []interface{}{
@@ -37247,7 +37475,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 783, col: 16, offset: 25103},
-																												run: (*parser).callonListContinuationElement1817,
+																												run: (*parser).callonListContinuationElement1826,
 																												expr: &seqExpr{
 																													pos: position{line: 783, col: 16, offset: 25103},
 																													exprs: []interface{}{
@@ -37273,10 +37501,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25194},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1823,
+																												pos: position{line: 2860, col: 10, offset: 90451},
+																												run: (*parser).callonListContinuationElement1832,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2860, col: 10, offset: 90451},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37285,28 +37513,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2882, col: 8, offset: 90849},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1826,
+																													pos: position{line: 2869, col: 12, offset: 90622},
+																													run: (*parser).callonListContinuationElement1835,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2869, col: 13, offset: 90623},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2869, col: 13, offset: 90623},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2869, col: 20, offset: 90630},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2869, col: 29, offset: 90639},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37315,9 +37543,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2879, col: 8, offset: 90799},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2879, col: 9, offset: 90800,
 																													},
 																												},
 																											},
@@ -37327,7 +37555,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 790, col: 5, offset: 25344},
-																								run: (*parser).callonListContinuationElement1833,
+																								run: (*parser).callonListContinuationElement1842,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 5, offset: 25344},
 																									exprs: []interface{}{
@@ -37336,7 +37564,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 790, col: 16, offset: 25355},
-																												run: (*parser).callonListContinuationElement1836,
+																												run: (*parser).callonListContinuationElement1845,
 																												expr: &seqExpr{
 																													pos: position{line: 790, col: 16, offset: 25355},
 																													exprs: []interface{}{
@@ -37362,10 +37590,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25446},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1842,
+																												pos: position{line: 2860, col: 10, offset: 90451},
+																												run: (*parser).callonListContinuationElement1851,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2860, col: 10, offset: 90451},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37374,28 +37602,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2882, col: 8, offset: 90849},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1845,
+																													pos: position{line: 2869, col: 12, offset: 90622},
+																													run: (*parser).callonListContinuationElement1854,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2869, col: 13, offset: 90623},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2869, col: 13, offset: 90623},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2869, col: 20, offset: 90630},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2869, col: 29, offset: 90639},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37404,9 +37632,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2879, col: 8, offset: 90799},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2879, col: 9, offset: 90800,
 																													},
 																												},
 																											},
@@ -37416,7 +37644,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 797, col: 5, offset: 25594},
-																								run: (*parser).callonListContinuationElement1852,
+																								run: (*parser).callonListContinuationElement1861,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 5, offset: 25594},
 																									exprs: []interface{}{
@@ -37425,7 +37653,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 797, col: 16, offset: 25605},
-																												run: (*parser).callonListContinuationElement1855,
+																												run: (*parser).callonListContinuationElement1864,
 																												expr: &seqExpr{
 																													pos: position{line: 797, col: 16, offset: 25605},
 																													exprs: []interface{}{
@@ -37451,10 +37679,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25696},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1861,
+																												pos: position{line: 2860, col: 10, offset: 90451},
+																												run: (*parser).callonListContinuationElement1870,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2860, col: 10, offset: 90451},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37463,28 +37691,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2882, col: 8, offset: 90849},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1864,
+																													pos: position{line: 2869, col: 12, offset: 90622},
+																													run: (*parser).callonListContinuationElement1873,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2869, col: 13, offset: 90623},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2869, col: 13, offset: 90623},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2869, col: 20, offset: 90630},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2869, col: 29, offset: 90639},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37493,9 +37721,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2879, col: 8, offset: 90799},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2879, col: 9, offset: 90800,
 																													},
 																												},
 																											},
@@ -37505,7 +37733,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 804, col: 5, offset: 25840},
-																								run: (*parser).callonListContinuationElement1871,
+																								run: (*parser).callonListContinuationElement1880,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 5, offset: 25840},
 																									exprs: []interface{}{
@@ -37514,7 +37742,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 804, col: 16, offset: 25851},
-																												run: (*parser).callonListContinuationElement1874,
+																												run: (*parser).callonListContinuationElement1883,
 																												expr: &seqExpr{
 																													pos: position{line: 804, col: 16, offset: 25851},
 																													exprs: []interface{}{
@@ -37540,10 +37768,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25942},
 																											expr: &actionExpr{
-																												pos: position{line: 2852, col: 10, offset: 90239},
-																												run: (*parser).callonListContinuationElement1880,
+																												pos: position{line: 2860, col: 10, offset: 90451},
+																												run: (*parser).callonListContinuationElement1889,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 10, offset: 90239},
+																													pos:        position{line: 2860, col: 10, offset: 90451},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37552,28 +37780,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2874, col: 8, offset: 90637},
+																											pos: position{line: 2882, col: 8, offset: 90849},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2861, col: 12, offset: 90410},
-																													run: (*parser).callonListContinuationElement1883,
+																													pos: position{line: 2869, col: 12, offset: 90622},
+																													run: (*parser).callonListContinuationElement1892,
 																													expr: &choiceExpr{
-																														pos: position{line: 2861, col: 13, offset: 90411},
+																														pos: position{line: 2869, col: 13, offset: 90623},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 13, offset: 90411},
+																																pos:        position{line: 2869, col: 13, offset: 90623},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 20, offset: 90418},
+																																pos:        position{line: 2869, col: 20, offset: 90630},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2861, col: 29, offset: 90427},
+																																pos:        position{line: 2869, col: 29, offset: 90639},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37582,9 +37810,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2871, col: 8, offset: 90587},
+																													pos: position{line: 2879, col: 8, offset: 90799},
 																													expr: &anyMatcher{
-																														line: 2871, col: 9, offset: 90588,
+																														line: 2879, col: 9, offset: 90800,
 																													},
 																												},
 																											},
@@ -37600,15 +37828,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1512, col: 5, offset: 49008},
+																	pos:   position{line: 1520, col: 5, offset: 49220},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2802, col: 14, offset: 88832},
-																		run: (*parser).callonListContinuationElement1891,
+																		pos: position{line: 2810, col: 14, offset: 89044},
+																		run: (*parser).callonListContinuationElement1900,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
+																			pos: position{line: 2810, col: 14, offset: 89044},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2802, col: 14, offset: 88832},
+																				pos:        position{line: 2810, col: 14, offset: 89044},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -37618,28 +37846,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2882, col: 8, offset: 90849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
-																			run: (*parser).callonListContinuationElement1895,
+																			pos: position{line: 2869, col: 12, offset: 90622},
+																			run: (*parser).callonListContinuationElement1904,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2869, col: 13, offset: 90623},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2869, col: 13, offset: 90623},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2869, col: 20, offset: 90630},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2869, col: 29, offset: 90639},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37648,9 +37876,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2879, col: 8, offset: 90799},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2879, col: 9, offset: 90800,
 																			},
 																		},
 																	},
@@ -37671,33 +37899,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1700, col: 1, offset: 54848},
+			pos:  position{line: 1708, col: 1, offset: 55060},
 			expr: &actionExpr{
-				pos: position{line: 1702, col: 5, offset: 54926},
+				pos: position{line: 1710, col: 5, offset: 55138},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1702, col: 5, offset: 54926},
+					pos: position{line: 1710, col: 5, offset: 55138},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1702, col: 5, offset: 54926},
+							pos: position{line: 1710, col: 5, offset: 55138},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1705, col: 5, offset: 54993},
+							pos:        position{line: 1713, col: 5, offset: 55205},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1705, col: 9, offset: 54997},
+							pos:   position{line: 1713, col: 9, offset: 55209},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1705, col: 14, offset: 55002},
+								pos: position{line: 1713, col: 14, offset: 55214},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1705, col: 14, offset: 55002},
+									pos: position{line: 1713, col: 14, offset: 55214},
 									expr: &charClassMatcher{
-										pos:        position{line: 1705, col: 14, offset: 55002},
+										pos:        position{line: 1713, col: 14, offset: 55214},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -37707,18 +37935,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1705, col: 62, offset: 55050},
+							pos:        position{line: 1713, col: 62, offset: 55262},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1705, col: 66, offset: 55054},
+							pos: position{line: 1713, col: 66, offset: 55266},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2860, col: 10, offset: 90451},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2860, col: 10, offset: 90451},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -37727,30 +37955,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1705, col: 73, offset: 55061},
+							pos: position{line: 1713, col: 73, offset: 55273},
 							expr: &choiceExpr{
-								pos: position{line: 1705, col: 75, offset: 55063},
+								pos: position{line: 1713, col: 75, offset: 55275},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
+										pos: position{line: 2869, col: 12, offset: 90622},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
+											pos: position{line: 2869, col: 13, offset: 90623},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
+													pos:        position{line: 2869, col: 13, offset: 90623},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
+													pos:        position{line: 2869, col: 20, offset: 90630},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
+													pos:        position{line: 2869, col: 29, offset: 90639},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -37759,13 +37987,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2871, col: 8, offset: 90587},
+										pos: position{line: 2879, col: 8, offset: 90799},
 										expr: &anyMatcher{
-											line: 2871, col: 9, offset: 90588,
+											line: 2879, col: 9, offset: 90800,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1705, col: 81, offset: 55069},
+										pos:  position{line: 1713, col: 81, offset: 55281},
 										name: "Callout",
 									},
 								},
@@ -37777,44 +38005,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1744, col: 1, offset: 56242},
+			pos:  position{line: 1752, col: 1, offset: 56454},
 			expr: &actionExpr{
-				pos: position{line: 1746, col: 5, offset: 56316},
+				pos: position{line: 1754, col: 5, offset: 56528},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1746, col: 5, offset: 56316},
+					pos: position{line: 1754, col: 5, offset: 56528},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1746, col: 5, offset: 56316},
+							pos: position{line: 1754, col: 5, offset: 56528},
 							expr: &seqExpr{
-								pos: position{line: 1746, col: 7, offset: 56318},
+								pos: position{line: 1754, col: 7, offset: 56530},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2742, col: 13, offset: 87334},
+										pos:        position{line: 2750, col: 13, offset: 87546},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1746, col: 16, offset: 56327},
+										pos: position{line: 1754, col: 16, offset: 56539},
 										expr: &seqExpr{
-											pos: position{line: 1746, col: 18, offset: 56329},
+											pos: position{line: 1754, col: 18, offset: 56541},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1746, col: 19, offset: 56330},
+													pos:        position{line: 1754, col: 19, offset: 56542},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2856, col: 11, offset: 90300},
+													pos: position{line: 2864, col: 11, offset: 90512},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2856, col: 11, offset: 90300},
+														pos: position{line: 2864, col: 11, offset: 90512},
 														expr: &charClassMatcher{
-															pos:        position{line: 2856, col: 11, offset: 90300},
+															pos:        position{line: 2864, col: 11, offset: 90512},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -37829,88 +38057,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1747, col: 5, offset: 56470},
+							pos:   position{line: 1755, col: 5, offset: 56682},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1747, col: 11, offset: 56476},
+								pos: position{line: 1755, col: 11, offset: 56688},
 								expr: &actionExpr{
-									pos: position{line: 1725, col: 5, offset: 55739},
+									pos: position{line: 1733, col: 5, offset: 55951},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1725, col: 5, offset: 55739},
+										pos: position{line: 1733, col: 5, offset: 55951},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1725, col: 5, offset: 55739},
+												pos: position{line: 1733, col: 5, offset: 55951},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1728, col: 5, offset: 55802},
+												pos:   position{line: 1736, col: 5, offset: 56014},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1728, col: 12, offset: 55809},
+													pos: position{line: 1736, col: 12, offset: 56021},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1728, col: 12, offset: 55809},
+															pos: position{line: 1736, col: 12, offset: 56021},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1728, col: 12, offset: 55809},
+																pos:        position{line: 1736, col: 12, offset: 56021},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1730, col: 13, offset: 55865},
+															pos: position{line: 1738, col: 13, offset: 56077},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1730, col: 13, offset: 55865},
+																pos:        position{line: 1738, col: 13, offset: 56077},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1732, col: 13, offset: 55923},
+															pos: position{line: 1740, col: 13, offset: 56135},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1732, col: 13, offset: 55923},
+																pos:        position{line: 1740, col: 13, offset: 56135},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1734, col: 13, offset: 55991},
+															pos: position{line: 1742, col: 13, offset: 56203},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1734, col: 13, offset: 55991},
+																pos:        position{line: 1742, col: 13, offset: 56203},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1736, col: 13, offset: 56055},
+															pos: position{line: 1744, col: 13, offset: 56267},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 13, offset: 56055},
+																pos:        position{line: 1744, col: 13, offset: 56267},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56119},
+															pos: position{line: 1746, col: 13, offset: 56331},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1738, col: 13, offset: 56119},
+																pos: position{line: 1746, col: 13, offset: 56331},
 																expr: &actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2864, col: 11, offset: 90512},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2864, col: 11, offset: 90512},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2864, col: 11, offset: 90512},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37929,24 +38157,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1748, col: 5, offset: 56498},
+							pos:   position{line: 1756, col: 5, offset: 56710},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1784, col: 5, offset: 57605},
+								pos: position{line: 1792, col: 5, offset: 57817},
 								run: (*parser).callonShortcutParagraph35,
 								expr: &seqExpr{
-									pos: position{line: 1784, col: 5, offset: 57605},
+									pos: position{line: 1792, col: 5, offset: 57817},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1784, col: 5, offset: 57605},
+											pos:   position{line: 1792, col: 5, offset: 57817},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2802, col: 14, offset: 88832},
+												pos: position{line: 2810, col: 14, offset: 89044},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2802, col: 14, offset: 88832},
+													pos: position{line: 2810, col: 14, offset: 89044},
 													expr: &charClassMatcher{
-														pos:        position{line: 2802, col: 14, offset: 88832},
+														pos:        position{line: 2810, col: 14, offset: 89044},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -37956,32 +38184,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1785, col: 5, offset: 57629},
+											pos: position{line: 1793, col: 5, offset: 57841},
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2874, col: 8, offset: 90637},
+											pos: position{line: 2882, col: 8, offset: 90849},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2861, col: 12, offset: 90410},
+													pos: position{line: 2869, col: 12, offset: 90622},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2861, col: 13, offset: 90411},
+														pos: position{line: 2869, col: 13, offset: 90623},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2861, col: 13, offset: 90411},
+																pos:        position{line: 2869, col: 13, offset: 90623},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 20, offset: 90418},
+																pos:        position{line: 2869, col: 20, offset: 90630},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 29, offset: 90427},
+																pos:        position{line: 2869, col: 29, offset: 90639},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -37990,9 +38218,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2879, col: 8, offset: 90799},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2879, col: 9, offset: 90800,
 													},
 												},
 											},
@@ -38002,28 +38230,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1749, col: 5, offset: 56532},
+							pos: position{line: 1757, col: 5, offset: 56744},
 							run: (*parser).callonShortcutParagraph50,
 						},
 						&labeledExpr{
-							pos:   position{line: 1756, col: 5, offset: 56862},
+							pos:   position{line: 1764, col: 5, offset: 57074},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1756, col: 16, offset: 56873},
+								pos: position{line: 1764, col: 16, offset: 57085},
 								expr: &actionExpr{
-									pos: position{line: 1757, col: 9, offset: 56883},
+									pos: position{line: 1765, col: 9, offset: 57095},
 									run: (*parser).callonShortcutParagraph53,
 									expr: &seqExpr{
-										pos: position{line: 1757, col: 9, offset: 56883},
+										pos: position{line: 1765, col: 9, offset: 57095},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2869, col: 11, offset: 90573},
+												pos: position{line: 2877, col: 11, offset: 90785},
 												expr: &anyMatcher{
-													line: 2869, col: 13, offset: 90575,
+													line: 2877, col: 13, offset: 90787,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1758, col: 9, offset: 56899},
+												pos: position{line: 1766, col: 9, offset: 57111},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21489},
 													run: (*parser).callonShortcutParagraph58,
@@ -38031,18 +38259,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2877, col: 11, offset: 90785},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2877, col: 13, offset: 90787,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2860, col: 10, offset: 90451},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2860, col: 10, offset: 90451},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38051,28 +38279,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2882, col: 8, offset: 90849},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2869, col: 12, offset: 90622},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2869, col: 13, offset: 90623},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2869, col: 13, offset: 90623},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2869, col: 20, offset: 90630},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2869, col: 29, offset: 90639},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38081,9 +38309,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2879, col: 8, offset: 90799},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2879, col: 9, offset: 90800,
 																		},
 																	},
 																},
@@ -38093,14 +38321,14 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1759, col: 9, offset: 56918},
+												pos: position{line: 1767, col: 9, offset: 57130},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1759, col: 10, offset: 56919},
+													pos:  position{line: 1767, col: 10, offset: 57131},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1760, col: 9, offset: 56943},
+												pos: position{line: 1768, col: 9, offset: 57155},
 												expr: &actionExpr{
 													pos: position{line: 724, col: 5, offset: 23042},
 													run: (*parser).callonShortcutParagraph76,
@@ -38110,7 +38338,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 724, col: 5, offset: 23042},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2742, col: 13, offset: 87334},
+																	pos:        position{line: 2750, col: 13, offset: 87546},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -38160,10 +38388,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 742, col: 8, offset: 23686},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2860, col: 10, offset: 90451},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2860, col: 10, offset: 90451},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38172,28 +38400,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2882, col: 8, offset: 90849},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2869, col: 12, offset: 90622},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2869, col: 13, offset: 90623},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2869, col: 13, offset: 90623},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2869, col: 20, offset: 90630},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2869, col: 29, offset: 90639},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38202,9 +38430,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2879, col: 8, offset: 90799},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2879, col: 9, offset: 90800,
 																								},
 																							},
 																						},
@@ -38249,10 +38477,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 749, col: 8, offset: 23934},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2860, col: 10, offset: 90451},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2860, col: 10, offset: 90451},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38261,28 +38489,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2882, col: 8, offset: 90849},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2869, col: 12, offset: 90622},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2869, col: 13, offset: 90623},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2869, col: 13, offset: 90623},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2869, col: 20, offset: 90630},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2869, col: 29, offset: 90639},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38291,9 +38519,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2879, col: 8, offset: 90799},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2879, col: 9, offset: 90800,
 																								},
 																							},
 																						},
@@ -38334,10 +38562,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 760, col: 52, offset: 24346},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2860, col: 10, offset: 90451},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2860, col: 10, offset: 90451},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38346,28 +38574,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2882, col: 8, offset: 90849},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2869, col: 12, offset: 90622},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2869, col: 13, offset: 90623},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2869, col: 13, offset: 90623},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2869, col: 20, offset: 90630},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2869, col: 29, offset: 90639},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38376,9 +38604,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2879, col: 8, offset: 90799},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2879, col: 9, offset: 90800,
 																								},
 																							},
 																						},
@@ -38423,10 +38651,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 756, col: 8, offset: 24180},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2860, col: 10, offset: 90451},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2860, col: 10, offset: 90451},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38435,28 +38663,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2882, col: 8, offset: 90849},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2869, col: 12, offset: 90622},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2869, col: 13, offset: 90623},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2869, col: 13, offset: 90623},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2869, col: 20, offset: 90630},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2869, col: 29, offset: 90639},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38465,9 +38693,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2879, col: 8, offset: 90799},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2879, col: 9, offset: 90800,
 																								},
 																							},
 																						},
@@ -38512,10 +38740,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 771, col: 8, offset: 24718},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2860, col: 10, offset: 90451},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2860, col: 10, offset: 90451},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38524,28 +38752,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2882, col: 8, offset: 90849},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2869, col: 12, offset: 90622},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2869, col: 13, offset: 90623},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2869, col: 13, offset: 90623},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2869, col: 20, offset: 90630},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2869, col: 29, offset: 90639},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38554,9 +38782,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2879, col: 8, offset: 90799},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2879, col: 9, offset: 90800,
 																								},
 																							},
 																						},
@@ -38601,10 +38829,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 785, col: 8, offset: 25194},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2860, col: 10, offset: 90451},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2860, col: 10, offset: 90451},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38613,28 +38841,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2882, col: 8, offset: 90849},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2869, col: 12, offset: 90622},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2869, col: 13, offset: 90623},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2869, col: 13, offset: 90623},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2869, col: 20, offset: 90630},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2869, col: 29, offset: 90639},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38643,9 +38871,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2879, col: 8, offset: 90799},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2879, col: 9, offset: 90800,
 																								},
 																							},
 																						},
@@ -38690,10 +38918,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 792, col: 8, offset: 25446},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2860, col: 10, offset: 90451},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2860, col: 10, offset: 90451},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38702,28 +38930,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2882, col: 8, offset: 90849},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2869, col: 12, offset: 90622},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2869, col: 13, offset: 90623},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2869, col: 13, offset: 90623},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2869, col: 20, offset: 90630},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2869, col: 29, offset: 90639},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38732,9 +38960,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2879, col: 8, offset: 90799},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2879, col: 9, offset: 90800,
 																								},
 																							},
 																						},
@@ -38779,10 +39007,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 799, col: 8, offset: 25696},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2860, col: 10, offset: 90451},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2860, col: 10, offset: 90451},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38791,28 +39019,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2882, col: 8, offset: 90849},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2869, col: 12, offset: 90622},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2869, col: 13, offset: 90623},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2869, col: 13, offset: 90623},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2869, col: 20, offset: 90630},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2869, col: 29, offset: 90639},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38821,9 +39049,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2879, col: 8, offset: 90799},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2879, col: 9, offset: 90800,
 																								},
 																							},
 																						},
@@ -38868,10 +39096,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 806, col: 8, offset: 25942},
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2860, col: 10, offset: 90451},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2860, col: 10, offset: 90451},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38880,28 +39108,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2874, col: 8, offset: 90637},
+																						pos: position{line: 2882, col: 8, offset: 90849},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2861, col: 12, offset: 90410},
+																								pos: position{line: 2869, col: 12, offset: 90622},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2861, col: 13, offset: 90411},
+																									pos: position{line: 2869, col: 13, offset: 90623},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 13, offset: 90411},
+																											pos:        position{line: 2869, col: 13, offset: 90623},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 20, offset: 90418},
+																											pos:        position{line: 2869, col: 20, offset: 90630},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2861, col: 29, offset: 90427},
+																											pos:        position{line: 2869, col: 29, offset: 90639},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38910,9 +39138,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2871, col: 8, offset: 90587},
+																								pos: position{line: 2879, col: 8, offset: 90799},
 																								expr: &anyMatcher{
-																									line: 2871, col: 9, offset: 90588,
+																									line: 2879, col: 9, offset: 90800,
 																								},
 																							},
 																						},
@@ -38928,23 +39156,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1761, col: 9, offset: 56967},
+												pos: position{line: 1769, col: 9, offset: 57179},
 												expr: &seqExpr{
-													pos: position{line: 1536, col: 27, offset: 49636},
+													pos: position{line: 1544, col: 27, offset: 49848},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1536, col: 27, offset: 49636},
+															pos:        position{line: 1544, col: 27, offset: 49848},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1536, col: 31, offset: 49640},
+															pos: position{line: 1544, col: 31, offset: 49852},
 															expr: &actionExpr{
-																pos: position{line: 2852, col: 10, offset: 90239},
+																pos: position{line: 2860, col: 10, offset: 90451},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2852, col: 10, offset: 90239},
+																	pos:        position{line: 2860, col: 10, offset: 90451},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -38953,25 +39181,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2869, col: 12, offset: 90622},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2869, col: 13, offset: 90623},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2869, col: 13, offset: 90623},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2869, col: 20, offset: 90630},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2869, col: 29, offset: 90639},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -38983,42 +39211,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1762, col: 9, offset: 56999},
+												pos:   position{line: 1770, col: 9, offset: 57211},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1762, col: 15, offset: 57005},
+													pos: position{line: 1770, col: 15, offset: 57217},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2462, col: 22, offset: 79224},
+															pos: position{line: 2470, col: 22, offset: 79436},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2462, col: 22, offset: 79224},
+																pos: position{line: 2470, col: 22, offset: 79436},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2467, col: 31, offset: 79445},
+																		pos:        position{line: 2475, col: 31, offset: 79657},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2467, col: 36, offset: 79450},
+																		pos: position{line: 2475, col: 36, offset: 79662},
 																		expr: &litMatcher{
-																			pos:        position{line: 2467, col: 37, offset: 79451},
+																			pos:        position{line: 2475, col: 37, offset: 79663},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2462, col: 49, offset: 79251},
+																		pos:   position{line: 2470, col: 49, offset: 79463},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2798, col: 13, offset: 88765},
+																			pos: position{line: 2806, col: 13, offset: 88977},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2798, col: 13, offset: 88765},
+																				pos: position{line: 2806, col: 13, offset: 88977},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2798, col: 13, offset: 88765},
+																					pos:        position{line: 2806, col: 13, offset: 88977},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39028,28 +39256,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2882, col: 8, offset: 90849},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2869, col: 12, offset: 90622},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2869, col: 13, offset: 90623},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2869, col: 13, offset: 90623},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2869, col: 20, offset: 90630},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2869, col: 29, offset: 90639},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39058,9 +39286,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2879, col: 8, offset: 90799},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2879, col: 9, offset: 90800,
 																				},
 																			},
 																		},
@@ -39069,21 +39297,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1784, col: 5, offset: 57605},
+															pos: position{line: 1792, col: 5, offset: 57817},
 															run: (*parser).callonShortcutParagraph282,
 															expr: &seqExpr{
-																pos: position{line: 1784, col: 5, offset: 57605},
+																pos: position{line: 1792, col: 5, offset: 57817},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1784, col: 5, offset: 57605},
+																		pos:   position{line: 1792, col: 5, offset: 57817},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
+																			pos: position{line: 2810, col: 14, offset: 89044},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2802, col: 14, offset: 88832},
+																				pos: position{line: 2810, col: 14, offset: 89044},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2802, col: 14, offset: 88832},
+																					pos:        position{line: 2810, col: 14, offset: 89044},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39093,32 +39321,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1785, col: 5, offset: 57629},
+																		pos: position{line: 1793, col: 5, offset: 57841},
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2882, col: 8, offset: 90849},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2869, col: 12, offset: 90622},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2869, col: 13, offset: 90623},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2869, col: 13, offset: 90623},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2869, col: 20, offset: 90630},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2869, col: 29, offset: 90639},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39127,9 +39355,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2879, col: 8, offset: 90799},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2879, col: 9, offset: 90800,
 																				},
 																			},
 																		},
@@ -39151,96 +39379,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1769, col: 1, offset: 57209},
+			pos:  position{line: 1777, col: 1, offset: 57421},
 			expr: &actionExpr{
-				pos: position{line: 1770, col: 5, offset: 57227},
+				pos: position{line: 1778, col: 5, offset: 57439},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1770, col: 5, offset: 57227},
+					pos: position{line: 1778, col: 5, offset: 57439},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1770, col: 5, offset: 57227},
+							pos:   position{line: 1778, col: 5, offset: 57439},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1770, col: 11, offset: 57233},
+								pos: position{line: 1778, col: 11, offset: 57445},
 								expr: &actionExpr{
-									pos: position{line: 1725, col: 5, offset: 55739},
+									pos: position{line: 1733, col: 5, offset: 55951},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1725, col: 5, offset: 55739},
+										pos: position{line: 1733, col: 5, offset: 55951},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1725, col: 5, offset: 55739},
+												pos: position{line: 1733, col: 5, offset: 55951},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1728, col: 5, offset: 55802},
+												pos:   position{line: 1736, col: 5, offset: 56014},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1728, col: 12, offset: 55809},
+													pos: position{line: 1736, col: 12, offset: 56021},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1728, col: 12, offset: 55809},
+															pos: position{line: 1736, col: 12, offset: 56021},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1728, col: 12, offset: 55809},
+																pos:        position{line: 1736, col: 12, offset: 56021},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1730, col: 13, offset: 55865},
+															pos: position{line: 1738, col: 13, offset: 56077},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1730, col: 13, offset: 55865},
+																pos:        position{line: 1738, col: 13, offset: 56077},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1732, col: 13, offset: 55923},
+															pos: position{line: 1740, col: 13, offset: 56135},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1732, col: 13, offset: 55923},
+																pos:        position{line: 1740, col: 13, offset: 56135},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1734, col: 13, offset: 55991},
+															pos: position{line: 1742, col: 13, offset: 56203},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1734, col: 13, offset: 55991},
+																pos:        position{line: 1742, col: 13, offset: 56203},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1736, col: 13, offset: 56055},
+															pos: position{line: 1744, col: 13, offset: 56267},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 13, offset: 56055},
+																pos:        position{line: 1744, col: 13, offset: 56267},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56119},
+															pos: position{line: 1746, col: 13, offset: 56331},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1738, col: 13, offset: 56119},
+																pos: position{line: 1746, col: 13, offset: 56331},
 																expr: &actionExpr{
-																	pos: position{line: 2856, col: 11, offset: 90300},
+																	pos: position{line: 2864, col: 11, offset: 90512},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2856, col: 11, offset: 90300},
+																		pos: position{line: 2864, col: 11, offset: 90512},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 11, offset: 90300},
+																			pos:        position{line: 2864, col: 11, offset: 90512},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39259,24 +39487,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1771, col: 5, offset: 57256},
+							pos:   position{line: 1779, col: 5, offset: 57468},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1784, col: 5, offset: 57605},
+								pos: position{line: 1792, col: 5, offset: 57817},
 								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1784, col: 5, offset: 57605},
+									pos: position{line: 1792, col: 5, offset: 57817},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1784, col: 5, offset: 57605},
+											pos:   position{line: 1792, col: 5, offset: 57817},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2802, col: 14, offset: 88832},
+												pos: position{line: 2810, col: 14, offset: 89044},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2802, col: 14, offset: 88832},
+													pos: position{line: 2810, col: 14, offset: 89044},
 													expr: &charClassMatcher{
-														pos:        position{line: 2802, col: 14, offset: 88832},
+														pos:        position{line: 2810, col: 14, offset: 89044},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39286,32 +39514,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1785, col: 5, offset: 57629},
+											pos: position{line: 1793, col: 5, offset: 57841},
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2874, col: 8, offset: 90637},
+											pos: position{line: 2882, col: 8, offset: 90849},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2861, col: 12, offset: 90410},
+													pos: position{line: 2869, col: 12, offset: 90622},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2861, col: 13, offset: 90411},
+														pos: position{line: 2869, col: 13, offset: 90623},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2861, col: 13, offset: 90411},
+																pos:        position{line: 2869, col: 13, offset: 90623},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 20, offset: 90418},
+																pos:        position{line: 2869, col: 20, offset: 90630},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2861, col: 29, offset: 90427},
+																pos:        position{line: 2869, col: 29, offset: 90639},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39320,9 +39548,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2871, col: 8, offset: 90587},
+													pos: position{line: 2879, col: 8, offset: 90799},
 													expr: &anyMatcher{
-														line: 2871, col: 9, offset: 90588,
+														line: 2879, col: 9, offset: 90800,
 													},
 												},
 											},
@@ -39332,24 +39560,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1772, col: 5, offset: 57290},
+							pos:   position{line: 1780, col: 5, offset: 57502},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1772, col: 16, offset: 57301},
+								pos: position{line: 1780, col: 16, offset: 57513},
 								expr: &actionExpr{
-									pos: position{line: 1773, col: 9, offset: 57311},
+									pos: position{line: 1781, col: 9, offset: 57523},
 									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1773, col: 9, offset: 57311},
+										pos: position{line: 1781, col: 9, offset: 57523},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2869, col: 11, offset: 90573},
+												pos: position{line: 2877, col: 11, offset: 90785},
 												expr: &anyMatcher{
-													line: 2869, col: 13, offset: 90575,
+													line: 2877, col: 13, offset: 90787,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1774, col: 9, offset: 57326},
+												pos: position{line: 1782, col: 9, offset: 57538},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21489},
 													run: (*parser).callonParagraph48,
@@ -39357,18 +39585,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2869, col: 11, offset: 90573},
+																pos: position{line: 2877, col: 11, offset: 90785},
 																expr: &anyMatcher{
-																	line: 2869, col: 13, offset: 90575,
+																	line: 2877, col: 13, offset: 90787,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2860, col: 10, offset: 90451},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2860, col: 10, offset: 90451},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39377,28 +39605,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2874, col: 8, offset: 90637},
+																pos: position{line: 2882, col: 8, offset: 90849},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2861, col: 12, offset: 90410},
+																		pos: position{line: 2869, col: 12, offset: 90622},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2861, col: 13, offset: 90411},
+																			pos: position{line: 2869, col: 13, offset: 90623},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 13, offset: 90411},
+																					pos:        position{line: 2869, col: 13, offset: 90623},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 20, offset: 90418},
+																					pos:        position{line: 2869, col: 20, offset: 90630},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2861, col: 29, offset: 90427},
+																					pos:        position{line: 2869, col: 29, offset: 90639},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39407,9 +39635,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2871, col: 8, offset: 90587},
+																		pos: position{line: 2879, col: 8, offset: 90799},
 																		expr: &anyMatcher{
-																			line: 2871, col: 9, offset: 90588,
+																			line: 2879, col: 9, offset: 90800,
 																		},
 																	},
 																},
@@ -39419,49 +39647,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1775, col: 9, offset: 57345},
+												pos: position{line: 1783, col: 9, offset: 57557},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1775, col: 10, offset: 57346},
+													pos:  position{line: 1783, col: 10, offset: 57558},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1776, col: 9, offset: 57370},
+												pos:   position{line: 1784, col: 9, offset: 57582},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1776, col: 15, offset: 57376},
+													pos: position{line: 1784, col: 15, offset: 57588},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2462, col: 22, offset: 79224},
+															pos: position{line: 2470, col: 22, offset: 79436},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2462, col: 22, offset: 79224},
+																pos: position{line: 2470, col: 22, offset: 79436},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2467, col: 31, offset: 79445},
+																		pos:        position{line: 2475, col: 31, offset: 79657},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2467, col: 36, offset: 79450},
+																		pos: position{line: 2475, col: 36, offset: 79662},
 																		expr: &litMatcher{
-																			pos:        position{line: 2467, col: 37, offset: 79451},
+																			pos:        position{line: 2475, col: 37, offset: 79663},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2462, col: 49, offset: 79251},
+																		pos:   position{line: 2470, col: 49, offset: 79463},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2798, col: 13, offset: 88765},
+																			pos: position{line: 2806, col: 13, offset: 88977},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2798, col: 13, offset: 88765},
+																				pos: position{line: 2806, col: 13, offset: 88977},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2798, col: 13, offset: 88765},
+																					pos:        position{line: 2806, col: 13, offset: 88977},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39471,28 +39699,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2882, col: 8, offset: 90849},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2869, col: 12, offset: 90622},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2869, col: 13, offset: 90623},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2869, col: 13, offset: 90623},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2869, col: 20, offset: 90630},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2869, col: 29, offset: 90639},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39501,9 +39729,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2879, col: 8, offset: 90799},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2879, col: 9, offset: 90800,
 																				},
 																			},
 																		},
@@ -39512,21 +39740,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1784, col: 5, offset: 57605},
+															pos: position{line: 1792, col: 5, offset: 57817},
 															run: (*parser).callonParagraph84,
 															expr: &seqExpr{
-																pos: position{line: 1784, col: 5, offset: 57605},
+																pos: position{line: 1792, col: 5, offset: 57817},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1784, col: 5, offset: 57605},
+																		pos:   position{line: 1792, col: 5, offset: 57817},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2802, col: 14, offset: 88832},
+																			pos: position{line: 2810, col: 14, offset: 89044},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2802, col: 14, offset: 88832},
+																				pos: position{line: 2810, col: 14, offset: 89044},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2802, col: 14, offset: 88832},
+																					pos:        position{line: 2810, col: 14, offset: 89044},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39536,32 +39764,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1785, col: 5, offset: 57629},
+																		pos: position{line: 1793, col: 5, offset: 57841},
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2874, col: 8, offset: 90637},
+																		pos: position{line: 2882, col: 8, offset: 90849},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2869, col: 12, offset: 90622},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2869, col: 13, offset: 90623},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2869, col: 13, offset: 90623},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2869, col: 20, offset: 90630},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2869, col: 29, offset: 90639},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39570,9 +39798,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2871, col: 8, offset: 90587},
+																				pos: position{line: 2879, col: 8, offset: 90799},
 																				expr: &anyMatcher{
-																					line: 2871, col: 9, offset: 90588,
+																					line: 2879, col: 9, offset: 90800,
 																				},
 																			},
 																		},
@@ -39594,16 +39822,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1795, col: 1, offset: 58115},
+			pos:  position{line: 1803, col: 1, offset: 58327},
 			expr: &choiceExpr{
-				pos: position{line: 1795, col: 15, offset: 58129},
+				pos: position{line: 1803, col: 15, offset: 58341},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1795, col: 15, offset: 58129},
+						pos:  position{line: 1803, col: 15, offset: 58341},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1795, col: 35, offset: 58149},
+						pos:  position{line: 1803, col: 35, offset: 58361},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -39611,65 +39839,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1797, col: 1, offset: 58170},
+			pos:  position{line: 1805, col: 1, offset: 58382},
 			expr: &actionExpr{
-				pos: position{line: 1798, col: 5, offset: 58195},
+				pos: position{line: 1806, col: 5, offset: 58407},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1798, col: 5, offset: 58195},
+					pos: position{line: 1806, col: 5, offset: 58407},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1798, col: 5, offset: 58195},
+							pos:   position{line: 1806, col: 5, offset: 58407},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1798, col: 16, offset: 58206},
+								pos: position{line: 1806, col: 16, offset: 58418},
 								expr: &actionExpr{
-									pos: position{line: 1798, col: 17, offset: 58207},
+									pos: position{line: 1806, col: 17, offset: 58419},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1798, col: 17, offset: 58207},
+										pos:  position{line: 1806, col: 17, offset: 58419},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1801, col: 5, offset: 58275},
+							pos: position{line: 1809, col: 5, offset: 58487},
 							expr: &litMatcher{
-								pos:        position{line: 1801, col: 7, offset: 58277},
+								pos:        position{line: 1809, col: 7, offset: 58489},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1802, col: 5, offset: 58286},
+							pos:   position{line: 1810, col: 5, offset: 58498},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1803, col: 9, offset: 58304},
+								pos: position{line: 1811, col: 9, offset: 58516},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1803, col: 9, offset: 58304},
+										pos:  position{line: 1811, col: 9, offset: 58516},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1804, col: 11, offset: 58331},
+										pos:  position{line: 1812, col: 11, offset: 58543},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1805, col: 11, offset: 58359},
+										pos:  position{line: 1813, col: 11, offset: 58571},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1806, col: 11, offset: 58390},
+										pos:  position{line: 1814, col: 11, offset: 58602},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1807, col: 11, offset: 58418},
+										pos:  position{line: 1815, col: 11, offset: 58630},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1808, col: 11, offset: 58449},
+										pos:  position{line: 1816, col: 11, offset: 58661},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -39681,36 +39909,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1813, col: 1, offset: 58569},
+			pos:  position{line: 1821, col: 1, offset: 58781},
 			expr: &actionExpr{
-				pos: position{line: 1814, col: 5, offset: 58611},
+				pos: position{line: 1822, col: 5, offset: 58823},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1814, col: 5, offset: 58611},
+					pos: position{line: 1822, col: 5, offset: 58823},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1814, col: 5, offset: 58611},
+							pos:   position{line: 1822, col: 5, offset: 58823},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1814, col: 16, offset: 58622},
+								pos: position{line: 1822, col: 16, offset: 58834},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1814, col: 17, offset: 58623},
+									pos:  position{line: 1822, col: 17, offset: 58835},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1815, col: 5, offset: 58648},
+							pos:   position{line: 1823, col: 5, offset: 58860},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1815, col: 14, offset: 58657},
+								pos: position{line: 1823, col: 14, offset: 58869},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 14, offset: 58657},
+										pos:  position{line: 1823, col: 14, offset: 58869},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 33, offset: 58676},
+										pos:  position{line: 1823, col: 33, offset: 58888},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -39722,32 +39950,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1823, col: 1, offset: 58907},
+			pos:  position{line: 1831, col: 1, offset: 59119},
 			expr: &choiceExpr{
-				pos: position{line: 1824, col: 5, offset: 58932},
+				pos: position{line: 1832, col: 5, offset: 59144},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1824, col: 5, offset: 58932},
+						pos:  position{line: 1832, col: 5, offset: 59144},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1825, col: 7, offset: 58959},
+						pos:  position{line: 1833, col: 7, offset: 59171},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1826, col: 7, offset: 58987},
+						pos:  position{line: 1834, col: 7, offset: 59199},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1827, col: 7, offset: 59019},
+						pos:  position{line: 1835, col: 7, offset: 59231},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1828, col: 7, offset: 59047},
+						pos:  position{line: 1836, col: 7, offset: 59259},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1829, col: 7, offset: 59068},
+						pos:  position{line: 1837, col: 7, offset: 59280},
 						name: "SuperscriptText",
 					},
 				},
@@ -39755,24 +39983,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1831, col: 1, offset: 59086},
+			pos:  position{line: 1839, col: 1, offset: 59298},
 			expr: &choiceExpr{
-				pos: position{line: 1832, col: 5, offset: 59111},
+				pos: position{line: 1840, col: 5, offset: 59323},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1832, col: 5, offset: 59111},
+						pos:  position{line: 1840, col: 5, offset: 59323},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1833, col: 7, offset: 59137},
+						pos:  position{line: 1841, col: 7, offset: 59349},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1834, col: 7, offset: 59165},
+						pos:  position{line: 1842, col: 7, offset: 59377},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 7, offset: 59196},
+						pos:  position{line: 1843, col: 7, offset: 59408},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -39780,26 +40008,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1849, col: 1, offset: 59550},
+			pos:  position{line: 1857, col: 1, offset: 59762},
 			expr: &choiceExpr{
-				pos: position{line: 1850, col: 5, offset: 59576},
+				pos: position{line: 1858, col: 5, offset: 59788},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2751, col: 5, offset: 87481},
+						pos: position{line: 2759, col: 5, offset: 87693},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2751, col: 5, offset: 87481},
+							pos: position{line: 2759, col: 5, offset: 87693},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2751, col: 5, offset: 87481},
+									pos:   position{line: 2759, col: 5, offset: 87693},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2751, col: 11, offset: 87487},
+										pos: position{line: 2759, col: 11, offset: 87699},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2751, col: 11, offset: 87487},
+											pos: position{line: 2759, col: 11, offset: 87699},
 											expr: &charClassMatcher{
-												pos:        position{line: 2751, col: 11, offset: 87487},
+												pos:        position{line: 2759, col: 11, offset: 87699},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -39809,36 +40037,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2754, col: 5, offset: 87545},
+									pos: position{line: 2762, col: 5, offset: 87757},
 									expr: &seqExpr{
-										pos: position{line: 2755, col: 9, offset: 87556},
+										pos: position{line: 2763, col: 9, offset: 87768},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2755, col: 9, offset: 87556},
+												pos:        position{line: 2763, col: 9, offset: 87768},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2756, col: 9, offset: 87605},
+												pos: position{line: 2764, col: 9, offset: 87817},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2760, col: 5, offset: 87685},
+									pos: position{line: 2768, col: 5, offset: 87897},
 									expr: &seqExpr{
-										pos: position{line: 2761, col: 9, offset: 87696},
+										pos: position{line: 2769, col: 9, offset: 87908},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2761, col: 9, offset: 87696},
+												pos:        position{line: 2769, col: 9, offset: 87908},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2761, col: 13, offset: 87700},
+												pos:        position{line: 2769, col: 13, offset: 87912},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -39851,12 +40079,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2856, col: 11, offset: 90300},
+						pos: position{line: 2864, col: 11, offset: 90512},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2856, col: 11, offset: 90300},
+							pos: position{line: 2864, col: 11, offset: 90512},
 							expr: &charClassMatcher{
-								pos:        position{line: 2856, col: 11, offset: 90300},
+								pos:        position{line: 2864, col: 11, offset: 90512},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -39865,25 +40093,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1852, col: 7, offset: 59639},
+						pos:  position{line: 1860, col: 7, offset: 59851},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2480, col: 5, offset: 79941},
+						pos: position{line: 2488, col: 5, offset: 80153},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2480, col: 5, offset: 79941},
+							pos: position{line: 2488, col: 5, offset: 80153},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2480, col: 5, offset: 79941},
+									pos:        position{line: 2488, col: 5, offset: 80153},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2480, col: 10, offset: 79946},
+									pos: position{line: 2488, col: 10, offset: 80158},
 									expr: &charClassMatcher{
-										pos:        position{line: 2480, col: 11, offset: 79947},
+										pos:        position{line: 2488, col: 11, offset: 80159},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -39894,29 +40122,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2486, col: 5, offset: 80139},
+						pos: position{line: 2494, col: 5, offset: 80351},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2486, col: 5, offset: 80139},
+							pos: position{line: 2494, col: 5, offset: 80351},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2486, col: 5, offset: 80139},
+									pos: position{line: 2494, col: 5, offset: 80351},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2489, col: 5, offset: 80210},
+									pos: position{line: 2497, col: 5, offset: 80422},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2493, col: 5, offset: 80335},
+									pos:        position{line: 2501, col: 5, offset: 80547},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2493, col: 9, offset: 80339},
+									pos: position{line: 2501, col: 9, offset: 80551},
 									expr: &charClassMatcher{
-										pos:        position{line: 2493, col: 10, offset: 80340},
+										pos:        position{line: 2501, col: 10, offset: 80552},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -39927,27 +40155,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2769, col: 5, offset: 87893},
+						pos: position{line: 2777, col: 5, offset: 88105},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2770, col: 9, offset: 87903},
+							pos: position{line: 2778, col: 9, offset: 88115},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2770, col: 10, offset: 87904},
+									pos:        position{line: 2778, col: 10, offset: 88116},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2772, col: 13, offset: 88001},
+									pos: position{line: 2780, col: 13, offset: 88213},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2772, col: 13, offset: 88001},
+											pos: position{line: 2780, col: 13, offset: 88213},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2775, col: 13, offset: 88101},
+											pos:        position{line: 2783, col: 13, offset: 88313},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -39955,20 +40183,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2775, col: 19, offset: 88107},
+									pos:        position{line: 2783, col: 19, offset: 88319},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2778, col: 13, offset: 88145},
+									pos: position{line: 2786, col: 13, offset: 88357},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2778, col: 13, offset: 88145},
+											pos: position{line: 2786, col: 13, offset: 88357},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2781, col: 14, offset: 88238},
+											pos:        position{line: 2789, col: 14, offset: 88450},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -39977,18 +40205,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2783, col: 12, offset: 88282},
+									pos: position{line: 2791, col: 12, offset: 88494},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2783, col: 12, offset: 88282},
+											pos:        position{line: 2791, col: 12, offset: 88494},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2783, col: 16, offset: 88286},
+											pos: position{line: 2791, col: 16, offset: 88498},
 											expr: &litMatcher{
-												pos:        position{line: 2783, col: 17, offset: 88287},
+												pos:        position{line: 2791, col: 17, offset: 88499},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -40346,31 +40574,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2865, col: 18, offset: 90510},
+						pos: position{line: 2873, col: 18, offset: 90722},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2865, col: 18, offset: 90510},
+							pos: position{line: 2873, col: 18, offset: 90722},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2869, col: 12, offset: 90622},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2869, col: 13, offset: 90623},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2869, col: 13, offset: 90623},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2869, col: 20, offset: 90630},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2869, col: 29, offset: 90639},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -40379,27 +40607,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2865, col: 26, offset: 90518},
+									pos: position{line: 2873, col: 26, offset: 90730},
 									expr: &actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
+										pos: position{line: 2869, col: 12, offset: 90622},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
+											pos: position{line: 2869, col: 13, offset: 90623},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
+													pos:        position{line: 2869, col: 13, offset: 90623},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
+													pos:        position{line: 2869, col: 20, offset: 90630},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
+													pos:        position{line: 2869, col: 29, offset: 90639},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40412,31 +40640,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1857, col: 7, offset: 59806},
+						pos:  position{line: 1865, col: 7, offset: 60018},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1858, col: 7, offset: 59853},
+						pos:  position{line: 1866, col: 7, offset: 60065},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2449, col: 5, offset: 78770},
+						pos: position{line: 2457, col: 5, offset: 78982},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2449, col: 5, offset: 78770},
+							pos: position{line: 2457, col: 5, offset: 78982},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2449, col: 5, offset: 78770},
+									pos: position{line: 2457, col: 5, offset: 78982},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2452, col: 5, offset: 78846},
+									pos:   position{line: 2460, col: 5, offset: 79058},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2453, col: 9, offset: 78864},
+										pos: position{line: 2461, col: 9, offset: 79076},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2453, col: 10, offset: 78865},
+											pos:        position{line: 2461, col: 10, offset: 79077},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -40448,27 +40676,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1198, col: 23, offset: 36972},
+						pos: position{line: 1206, col: 23, offset: 37184},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 1198, col: 23, offset: 36972},
+							pos: position{line: 1206, col: 23, offset: 37184},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1196, col: 32, offset: 36940},
+									pos:        position{line: 1204, col: 32, offset: 37152},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1198, col: 51, offset: 37000},
+									pos:   position{line: 1206, col: 51, offset: 37212},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1198, col: 56, offset: 37005},
+										pos: position{line: 1206, col: 56, offset: 37217},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1198, col: 56, offset: 37005},
+											pos: position{line: 1206, col: 56, offset: 37217},
 											expr: &charClassMatcher{
-												pos:        position{line: 1198, col: 56, offset: 37005},
+												pos:        position{line: 1206, col: 56, offset: 37217},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -40478,7 +40706,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1196, col: 32, offset: 36940},
+									pos:        position{line: 1204, col: 32, offset: 37152},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
@@ -40487,10 +40715,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2791, col: 12, offset: 88547},
+						pos: position{line: 2799, col: 12, offset: 88759},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &charClassMatcher{
-							pos:        position{line: 2791, col: 12, offset: 88547},
+							pos:        position{line: 2799, col: 12, offset: 88759},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -40502,29 +40730,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1876, col: 1, offset: 60323},
+			pos:  position{line: 1884, col: 1, offset: 60535},
 			expr: &actionExpr{
-				pos: position{line: 1877, col: 5, offset: 60351},
+				pos: position{line: 1885, col: 5, offset: 60563},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1877, col: 5, offset: 60351},
+					pos: position{line: 1885, col: 5, offset: 60563},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1872, col: 38, offset: 60276},
+							pos:        position{line: 1880, col: 38, offset: 60488},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1878, col: 5, offset: 60390},
+							pos:   position{line: 1886, col: 5, offset: 60602},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1878, col: 15, offset: 60400},
+								pos:  position{line: 1886, col: 15, offset: 60612},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1874, col: 36, offset: 60317},
+							pos:        position{line: 1882, col: 36, offset: 60529},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -40535,44 +40763,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1883, col: 1, offset: 60560},
+			pos:  position{line: 1891, col: 1, offset: 60772},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1883, col: 32, offset: 60591},
+				pos: position{line: 1891, col: 32, offset: 60803},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1883, col: 32, offset: 60591},
+					pos:  position{line: 1891, col: 32, offset: 60803},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1885, col: 1, offset: 60622},
+			pos:  position{line: 1893, col: 1, offset: 60834},
 			expr: &actionExpr{
-				pos: position{line: 1886, col: 5, offset: 60657},
+				pos: position{line: 1894, col: 5, offset: 60869},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1886, col: 5, offset: 60657},
+					pos: position{line: 1894, col: 5, offset: 60869},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2877, col: 11, offset: 90785},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2877, col: 13, offset: 90787,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1887, col: 5, offset: 60668},
+							pos: position{line: 1895, col: 5, offset: 60880},
 							expr: &litMatcher{
-								pos:        position{line: 1874, col: 36, offset: 60317},
+								pos:        position{line: 1882, col: 36, offset: 60529},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1888, col: 5, offset: 60705},
+							pos:   position{line: 1896, col: 5, offset: 60917},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1888, col: 14, offset: 60714},
+								pos:  position{line: 1896, col: 14, offset: 60926},
 								name: "QuotedTextElement",
 							},
 						},
@@ -40582,29 +40810,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1913, col: 1, offset: 61394},
+			pos:  position{line: 1921, col: 1, offset: 61606},
 			expr: &actionExpr{
-				pos: position{line: 1914, col: 5, offset: 61422},
+				pos: position{line: 1922, col: 5, offset: 61634},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1914, col: 5, offset: 61422},
+					pos: position{line: 1922, col: 5, offset: 61634},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1897, col: 5, offset: 60948},
+							pos:        position{line: 1905, col: 5, offset: 61160},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1898, col: 5, offset: 60957},
+							pos: position{line: 1906, col: 5, offset: 61169},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1902, col: 5, offset: 61075},
+							pos: position{line: 1910, col: 5, offset: 61287},
 							expr: &notExpr{
-								pos: position{line: 1902, col: 7, offset: 61077},
+								pos: position{line: 1910, col: 7, offset: 61289},
 								expr: &litMatcher{
-									pos:        position{line: 1902, col: 8, offset: 61078},
+									pos:        position{line: 1910, col: 8, offset: 61290},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -40612,38 +40840,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1915, col: 5, offset: 61460},
+							pos:   position{line: 1923, col: 5, offset: 61672},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1915, col: 15, offset: 61470},
+								pos:  position{line: 1923, col: 15, offset: 61682},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1905, col: 5, offset: 61198},
+							pos:        position{line: 1913, col: 5, offset: 61410},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1906, col: 5, offset: 61207},
+							pos: position{line: 1914, col: 5, offset: 61419},
 							expr: &litMatcher{
-								pos:        position{line: 1906, col: 6, offset: 61208},
+								pos:        position{line: 1914, col: 6, offset: 61420},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1907, col: 5, offset: 61271},
+							pos: position{line: 1915, col: 5, offset: 61483},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1911, col: 5, offset: 61380},
+							pos: position{line: 1919, col: 5, offset: 61592},
 							expr: &notExpr{
-								pos: position{line: 1911, col: 7, offset: 61382},
+								pos: position{line: 1919, col: 7, offset: 61594},
 								expr: &charClassMatcher{
-									pos:        position{line: 2742, col: 13, offset: 87334},
+									pos:        position{line: 2750, col: 13, offset: 87546},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -40657,20 +40885,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1920, col: 1, offset: 61630},
+			pos:  position{line: 1928, col: 1, offset: 61842},
 			expr: &actionExpr{
-				pos: position{line: 1921, col: 5, offset: 61667},
+				pos: position{line: 1929, col: 5, offset: 61879},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1921, col: 5, offset: 61667},
+					pos: position{line: 1929, col: 5, offset: 61879},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1921, col: 5, offset: 61667},
+							pos: position{line: 1929, col: 5, offset: 61879},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2860, col: 10, offset: 90451},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2860, col: 10, offset: 90451},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -40679,18 +40907,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1922, col: 5, offset: 61706},
+							pos:   position{line: 1930, col: 5, offset: 61918},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1922, col: 14, offset: 61715},
+								pos: position{line: 1930, col: 14, offset: 61927},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1922, col: 15, offset: 61716},
+									pos:  position{line: 1930, col: 15, offset: 61928},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1923, col: 5, offset: 61750},
+							pos: position{line: 1931, col: 5, offset: 61962},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -40699,49 +40927,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1929, col: 1, offset: 61891},
+			pos:  position{line: 1937, col: 1, offset: 62103},
 			expr: &actionExpr{
-				pos: position{line: 1930, col: 5, offset: 61926},
+				pos: position{line: 1938, col: 5, offset: 62138},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1930, col: 5, offset: 61926},
+					pos: position{line: 1938, col: 5, offset: 62138},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2877, col: 11, offset: 90785},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2877, col: 13, offset: 90787,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1931, col: 5, offset: 61954},
+							pos: position{line: 1939, col: 5, offset: 62166},
 							expr: &seqExpr{
-								pos: position{line: 1905, col: 5, offset: 61198},
+								pos: position{line: 1913, col: 5, offset: 61410},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1905, col: 5, offset: 61198},
+										pos:        position{line: 1913, col: 5, offset: 61410},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1906, col: 5, offset: 61207},
+										pos: position{line: 1914, col: 5, offset: 61419},
 										expr: &litMatcher{
-											pos:        position{line: 1906, col: 6, offset: 61208},
+											pos:        position{line: 1914, col: 6, offset: 61420},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1907, col: 5, offset: 61271},
+										pos: position{line: 1915, col: 5, offset: 61483},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1911, col: 5, offset: 61380},
+										pos: position{line: 1919, col: 5, offset: 61592},
 										expr: &notExpr{
-											pos: position{line: 1911, col: 7, offset: 61382},
+											pos: position{line: 1919, col: 7, offset: 61594},
 											expr: &charClassMatcher{
-												pos:        position{line: 2742, col: 13, offset: 87334},
+												pos:        position{line: 2750, col: 13, offset: 87546},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40753,10 +40981,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1932, col: 5, offset: 61991},
+							pos:   position{line: 1940, col: 5, offset: 62203},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1932, col: 14, offset: 62000},
+								pos:  position{line: 1940, col: 14, offset: 62212},
 								name: "QuotedTextElement",
 							},
 						},
@@ -40766,35 +40994,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1937, col: 1, offset: 62088},
+			pos:  position{line: 1945, col: 1, offset: 62300},
 			expr: &choiceExpr{
-				pos: position{line: 1939, col: 5, offset: 62149},
+				pos: position{line: 1947, col: 5, offset: 62361},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1939, col: 5, offset: 62149},
+						pos: position{line: 1947, col: 5, offset: 62361},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1939, col: 5, offset: 62149},
+							pos: position{line: 1947, col: 5, offset: 62361},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1939, col: 5, offset: 62149},
+									pos:   position{line: 1947, col: 5, offset: 62361},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59496},
+										pos: position{line: 1853, col: 25, offset: 59708},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59496},
+											pos: position{line: 1853, col: 25, offset: 59708},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59496},
+													pos:        position{line: 1853, col: 25, offset: 59708},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59501},
+													pos: position{line: 1853, col: 30, offset: 59713},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59501},
+														pos:        position{line: 1853, col: 30, offset: 59713},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -40805,21 +41033,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1939, col: 40, offset: 62184},
+									pos:        position{line: 1947, col: 40, offset: 62396},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1939, col: 45, offset: 62189},
+									pos:   position{line: 1947, col: 45, offset: 62401},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1939, col: 55, offset: 62199},
+										pos:  position{line: 1947, col: 55, offset: 62411},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1939, col: 84, offset: 62228},
+									pos:        position{line: 1947, col: 84, offset: 62440},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -40828,21 +41056,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1943, col: 7, offset: 62392},
+						pos: position{line: 1951, col: 7, offset: 62604},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1943, col: 7, offset: 62392},
+							pos: position{line: 1951, col: 7, offset: 62604},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1943, col: 7, offset: 62392},
+									pos:   position{line: 1951, col: 7, offset: 62604},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1849, col: 25, offset: 59635},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1849, col: 25, offset: 59635},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1849, col: 25, offset: 59635},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -40851,21 +41079,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1943, col: 42, offset: 62427},
+									pos:        position{line: 1951, col: 42, offset: 62639},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1943, col: 47, offset: 62432},
+									pos:   position{line: 1951, col: 47, offset: 62644},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1943, col: 57, offset: 62442},
+										pos:  position{line: 1951, col: 57, offset: 62654},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1943, col: 86, offset: 62471},
+									pos:        position{line: 1951, col: 86, offset: 62683},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -40874,21 +41102,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1948, col: 7, offset: 62673},
+						pos: position{line: 1956, col: 7, offset: 62885},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1948, col: 7, offset: 62673},
+							pos: position{line: 1956, col: 7, offset: 62885},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1948, col: 7, offset: 62673},
+									pos:   position{line: 1956, col: 7, offset: 62885},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1849, col: 25, offset: 59635},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1849, col: 25, offset: 59635},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1849, col: 25, offset: 59635},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -40897,21 +41125,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1948, col: 42, offset: 62708},
+									pos:        position{line: 1956, col: 42, offset: 62920},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1948, col: 46, offset: 62712},
+									pos:   position{line: 1956, col: 46, offset: 62924},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1948, col: 56, offset: 62722},
+										pos:  position{line: 1956, col: 56, offset: 62934},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1948, col: 85, offset: 62751},
+									pos:        position{line: 1956, col: 85, offset: 62963},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -40924,29 +41152,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1965, col: 1, offset: 63231},
+			pos:  position{line: 1973, col: 1, offset: 63443},
 			expr: &actionExpr{
-				pos: position{line: 1966, col: 5, offset: 63261},
+				pos: position{line: 1974, col: 5, offset: 63473},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1966, col: 5, offset: 63261},
+					pos: position{line: 1974, col: 5, offset: 63473},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1961, col: 40, offset: 63182},
+							pos:        position{line: 1969, col: 40, offset: 63394},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1967, col: 5, offset: 63302},
+							pos:   position{line: 1975, col: 5, offset: 63514},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1967, col: 15, offset: 63312},
+								pos:  position{line: 1975, col: 15, offset: 63524},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1963, col: 38, offset: 63225},
+							pos:        position{line: 1971, col: 38, offset: 63437},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -40957,44 +41185,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1972, col: 1, offset: 63477},
+			pos:  position{line: 1980, col: 1, offset: 63689},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1972, col: 34, offset: 63510},
+				pos: position{line: 1980, col: 34, offset: 63722},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1972, col: 34, offset: 63510},
+					pos:  position{line: 1980, col: 34, offset: 63722},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1974, col: 1, offset: 63542},
+			pos:  position{line: 1982, col: 1, offset: 63754},
 			expr: &actionExpr{
-				pos: position{line: 1975, col: 5, offset: 63579},
+				pos: position{line: 1983, col: 5, offset: 63791},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1975, col: 5, offset: 63579},
+					pos: position{line: 1983, col: 5, offset: 63791},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2877, col: 11, offset: 90785},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2877, col: 13, offset: 90787,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1976, col: 5, offset: 63590},
+							pos: position{line: 1984, col: 5, offset: 63802},
 							expr: &litMatcher{
-								pos:        position{line: 1963, col: 38, offset: 63225},
+								pos:        position{line: 1971, col: 38, offset: 63437},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1977, col: 5, offset: 63629},
+							pos:   position{line: 1985, col: 5, offset: 63841},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1977, col: 14, offset: 63638},
+								pos:  position{line: 1985, col: 14, offset: 63850},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41004,29 +41232,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2003, col: 1, offset: 64322},
+			pos:  position{line: 2011, col: 1, offset: 64534},
 			expr: &actionExpr{
-				pos: position{line: 2004, col: 5, offset: 64352},
+				pos: position{line: 2012, col: 5, offset: 64564},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2004, col: 5, offset: 64352},
+					pos: position{line: 2012, col: 5, offset: 64564},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1986, col: 5, offset: 63880},
+							pos:        position{line: 1994, col: 5, offset: 64092},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1987, col: 5, offset: 63889},
+							pos: position{line: 1995, col: 5, offset: 64101},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 1991, col: 5, offset: 64009},
+							pos: position{line: 1999, col: 5, offset: 64221},
 							expr: &notExpr{
-								pos: position{line: 1991, col: 7, offset: 64011},
+								pos: position{line: 1999, col: 7, offset: 64223},
 								expr: &litMatcher{
-									pos:        position{line: 1991, col: 8, offset: 64012},
+									pos:        position{line: 1999, col: 8, offset: 64224},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41034,38 +41262,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2005, col: 5, offset: 64392},
+							pos:   position{line: 2013, col: 5, offset: 64604},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2005, col: 15, offset: 64402},
+								pos:  position{line: 2013, col: 15, offset: 64614},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1995, col: 5, offset: 64122},
+							pos:        position{line: 2003, col: 5, offset: 64334},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 1996, col: 5, offset: 64131},
+							pos: position{line: 2004, col: 5, offset: 64343},
 							expr: &litMatcher{
-								pos:        position{line: 1996, col: 6, offset: 64132},
+								pos:        position{line: 2004, col: 6, offset: 64344},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1997, col: 5, offset: 64197},
+							pos: position{line: 2005, col: 5, offset: 64409},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2001, col: 5, offset: 64308},
+							pos: position{line: 2009, col: 5, offset: 64520},
 							expr: &notExpr{
-								pos: position{line: 2001, col: 7, offset: 64310},
+								pos: position{line: 2009, col: 7, offset: 64522},
 								expr: &charClassMatcher{
-									pos:        position{line: 2742, col: 13, offset: 87334},
+									pos:        position{line: 2750, col: 13, offset: 87546},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41079,20 +41307,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2010, col: 1, offset: 64569},
+			pos:  position{line: 2018, col: 1, offset: 64781},
 			expr: &actionExpr{
-				pos: position{line: 2011, col: 5, offset: 64607},
+				pos: position{line: 2019, col: 5, offset: 64819},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2011, col: 5, offset: 64607},
+					pos: position{line: 2019, col: 5, offset: 64819},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2011, col: 5, offset: 64607},
+							pos: position{line: 2019, col: 5, offset: 64819},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2860, col: 10, offset: 90451},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2860, col: 10, offset: 90451},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41101,18 +41329,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2012, col: 5, offset: 64646},
+							pos:   position{line: 2020, col: 5, offset: 64858},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2012, col: 14, offset: 64655},
+								pos: position{line: 2020, col: 14, offset: 64867},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2012, col: 15, offset: 64656},
+									pos:  position{line: 2020, col: 15, offset: 64868},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2013, col: 5, offset: 64691},
+							pos: position{line: 2021, col: 5, offset: 64903},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -41121,49 +41349,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2019, col: 1, offset: 64832},
+			pos:  position{line: 2027, col: 1, offset: 65044},
 			expr: &actionExpr{
-				pos: position{line: 2020, col: 5, offset: 64869},
+				pos: position{line: 2028, col: 5, offset: 65081},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2020, col: 5, offset: 64869},
+					pos: position{line: 2028, col: 5, offset: 65081},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2877, col: 11, offset: 90785},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2877, col: 13, offset: 90787,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2021, col: 5, offset: 64880},
+							pos: position{line: 2029, col: 5, offset: 65092},
 							expr: &seqExpr{
-								pos: position{line: 1995, col: 5, offset: 64122},
+								pos: position{line: 2003, col: 5, offset: 64334},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1995, col: 5, offset: 64122},
+										pos:        position{line: 2003, col: 5, offset: 64334},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 1996, col: 5, offset: 64131},
+										pos: position{line: 2004, col: 5, offset: 64343},
 										expr: &litMatcher{
-											pos:        position{line: 1996, col: 6, offset: 64132},
+											pos:        position{line: 2004, col: 6, offset: 64344},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1997, col: 5, offset: 64197},
+										pos: position{line: 2005, col: 5, offset: 64409},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2001, col: 5, offset: 64308},
+										pos: position{line: 2009, col: 5, offset: 64520},
 										expr: &notExpr{
-											pos: position{line: 2001, col: 7, offset: 64310},
+											pos: position{line: 2009, col: 7, offset: 64522},
 											expr: &charClassMatcher{
-												pos:        position{line: 2742, col: 13, offset: 87334},
+												pos:        position{line: 2750, col: 13, offset: 87546},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41175,10 +41403,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2022, col: 5, offset: 64919},
+							pos:   position{line: 2030, col: 5, offset: 65131},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2022, col: 14, offset: 64928},
+								pos:  position{line: 2030, col: 14, offset: 65140},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41188,35 +41416,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2027, col: 1, offset: 65016},
+			pos:  position{line: 2035, col: 1, offset: 65228},
 			expr: &choiceExpr{
-				pos: position{line: 2029, col: 5, offset: 65081},
+				pos: position{line: 2037, col: 5, offset: 65293},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2029, col: 5, offset: 65081},
+						pos: position{line: 2037, col: 5, offset: 65293},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2029, col: 5, offset: 65081},
+							pos: position{line: 2037, col: 5, offset: 65293},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2029, col: 5, offset: 65081},
+									pos:   position{line: 2037, col: 5, offset: 65293},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59496},
+										pos: position{line: 1853, col: 25, offset: 59708},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59496},
+											pos: position{line: 1853, col: 25, offset: 59708},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59496},
+													pos:        position{line: 1853, col: 25, offset: 59708},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59501},
+													pos: position{line: 1853, col: 30, offset: 59713},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59501},
+														pos:        position{line: 1853, col: 30, offset: 59713},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41227,21 +41455,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2029, col: 40, offset: 65116},
+									pos:        position{line: 2037, col: 40, offset: 65328},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2029, col: 45, offset: 65121},
+									pos:   position{line: 2037, col: 45, offset: 65333},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2029, col: 55, offset: 65131},
+										pos:  position{line: 2037, col: 55, offset: 65343},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2029, col: 86, offset: 65162},
+									pos:        position{line: 2037, col: 86, offset: 65374},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -41250,21 +41478,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2033, col: 7, offset: 65327},
+						pos: position{line: 2041, col: 7, offset: 65539},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2033, col: 7, offset: 65327},
+							pos: position{line: 2041, col: 7, offset: 65539},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2033, col: 7, offset: 65327},
+									pos:   position{line: 2041, col: 7, offset: 65539},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1849, col: 25, offset: 59635},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1849, col: 25, offset: 59635},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1849, col: 25, offset: 59635},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41273,21 +41501,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2033, col: 42, offset: 65362},
+									pos:        position{line: 2041, col: 42, offset: 65574},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2033, col: 47, offset: 65367},
+									pos:   position{line: 2041, col: 47, offset: 65579},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2033, col: 57, offset: 65377},
+										pos:  position{line: 2041, col: 57, offset: 65589},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2033, col: 88, offset: 65408},
+									pos:        position{line: 2041, col: 88, offset: 65620},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41296,21 +41524,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2038, col: 7, offset: 65649},
+						pos: position{line: 2046, col: 7, offset: 65861},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2038, col: 7, offset: 65649},
+							pos: position{line: 2046, col: 7, offset: 65861},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2038, col: 7, offset: 65649},
+									pos:   position{line: 2046, col: 7, offset: 65861},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1849, col: 25, offset: 59635},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1849, col: 25, offset: 59635},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1849, col: 25, offset: 59635},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41319,21 +41547,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2038, col: 42, offset: 65684},
+									pos:        position{line: 2046, col: 42, offset: 65896},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2038, col: 46, offset: 65688},
+									pos:   position{line: 2046, col: 46, offset: 65900},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2038, col: 56, offset: 65698},
+										pos:  position{line: 2046, col: 56, offset: 65910},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2038, col: 87, offset: 65729},
+									pos:        position{line: 2046, col: 87, offset: 65941},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41346,29 +41574,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2055, col: 1, offset: 66293},
+			pos:  position{line: 2063, col: 1, offset: 66505},
 			expr: &actionExpr{
-				pos: position{line: 2056, col: 5, offset: 66326},
+				pos: position{line: 2064, col: 5, offset: 66538},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2056, col: 5, offset: 66326},
+					pos: position{line: 2064, col: 5, offset: 66538},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2051, col: 43, offset: 66241},
+							pos:        position{line: 2059, col: 43, offset: 66453},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2057, col: 5, offset: 66370},
+							pos:   position{line: 2065, col: 5, offset: 66582},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2057, col: 15, offset: 66380},
+								pos:  position{line: 2065, col: 15, offset: 66592},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2053, col: 41, offset: 66287},
+							pos:        position{line: 2061, col: 41, offset: 66499},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -41379,44 +41607,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2062, col: 1, offset: 66555},
+			pos:  position{line: 2070, col: 1, offset: 66767},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2062, col: 37, offset: 66591},
+				pos: position{line: 2070, col: 37, offset: 66803},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2062, col: 37, offset: 66591},
+					pos:  position{line: 2070, col: 37, offset: 66803},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2064, col: 1, offset: 66658},
+			pos:  position{line: 2072, col: 1, offset: 66870},
 			expr: &actionExpr{
-				pos: position{line: 2065, col: 5, offset: 66698},
+				pos: position{line: 2073, col: 5, offset: 66910},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2065, col: 5, offset: 66698},
+					pos: position{line: 2073, col: 5, offset: 66910},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2877, col: 11, offset: 90785},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2877, col: 13, offset: 90787,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2066, col: 5, offset: 66709},
+							pos: position{line: 2074, col: 5, offset: 66921},
 							expr: &litMatcher{
-								pos:        position{line: 2053, col: 41, offset: 66287},
+								pos:        position{line: 2061, col: 41, offset: 66499},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2067, col: 5, offset: 66751},
+							pos:   position{line: 2075, col: 5, offset: 66963},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2067, col: 14, offset: 66760},
+								pos:  position{line: 2075, col: 14, offset: 66972},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41426,33 +41654,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2085, col: 1, offset: 67302},
+			pos:  position{line: 2093, col: 1, offset: 67514},
 			expr: &seqExpr{
-				pos: position{line: 2086, col: 5, offset: 67347},
+				pos: position{line: 2094, col: 5, offset: 67559},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2086, col: 5, offset: 67347},
+						pos: position{line: 2094, col: 5, offset: 67559},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2086, col: 6, offset: 67348},
+							pos:  position{line: 2094, col: 6, offset: 67560},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2087, col: 5, offset: 67367},
+						pos:        position{line: 2095, col: 5, offset: 67579},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2088, col: 5, offset: 67375},
+						pos: position{line: 2096, col: 5, offset: 67587},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2092, col: 5, offset: 67489},
+						pos: position{line: 2100, col: 5, offset: 67701},
 						expr: &notExpr{
-							pos: position{line: 2092, col: 7, offset: 67491},
+							pos: position{line: 2100, col: 7, offset: 67703},
 							expr: &charClassMatcher{
-								pos:        position{line: 2742, col: 13, offset: 87334},
+								pos:        position{line: 2750, col: 13, offset: 87546},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -41465,29 +41693,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2095, col: 1, offset: 67508},
+			pos:  position{line: 2103, col: 1, offset: 67720},
 			expr: &actionExpr{
-				pos: position{line: 2096, col: 5, offset: 67541},
+				pos: position{line: 2104, col: 5, offset: 67753},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2096, col: 5, offset: 67541},
+					pos: position{line: 2104, col: 5, offset: 67753},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2078, col: 5, offset: 67104},
+							pos:        position{line: 2086, col: 5, offset: 67316},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2079, col: 5, offset: 67113},
+							pos: position{line: 2087, col: 5, offset: 67325},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2083, col: 5, offset: 67236},
+							pos: position{line: 2091, col: 5, offset: 67448},
 							expr: &notExpr{
-								pos: position{line: 2083, col: 7, offset: 67238},
+								pos: position{line: 2091, col: 7, offset: 67450},
 								expr: &litMatcher{
-									pos:        position{line: 2083, col: 8, offset: 67239},
+									pos:        position{line: 2091, col: 8, offset: 67451},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41495,15 +41723,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2097, col: 5, offset: 67585},
+							pos:   position{line: 2105, col: 5, offset: 67797},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2097, col: 15, offset: 67595},
+								pos:  position{line: 2105, col: 15, offset: 67807},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2098, col: 5, offset: 67634},
+							pos:  position{line: 2106, col: 5, offset: 67846},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -41512,20 +41740,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2102, col: 1, offset: 67771},
+			pos:  position{line: 2110, col: 1, offset: 67983},
 			expr: &actionExpr{
-				pos: position{line: 2103, col: 5, offset: 67812},
+				pos: position{line: 2111, col: 5, offset: 68024},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2103, col: 5, offset: 67812},
+					pos: position{line: 2111, col: 5, offset: 68024},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2103, col: 5, offset: 67812},
+							pos: position{line: 2111, col: 5, offset: 68024},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2860, col: 10, offset: 90451},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2860, col: 10, offset: 90451},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41534,18 +41762,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2104, col: 5, offset: 67851},
+							pos:   position{line: 2112, col: 5, offset: 68063},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2104, col: 14, offset: 67860},
+								pos: position{line: 2112, col: 14, offset: 68072},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2104, col: 15, offset: 67861},
+									pos:  position{line: 2112, col: 15, offset: 68073},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2105, col: 5, offset: 67899},
+							pos: position{line: 2113, col: 5, offset: 68111},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -41554,31 +41782,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2111, col: 1, offset: 68040},
+			pos:  position{line: 2119, col: 1, offset: 68252},
 			expr: &actionExpr{
-				pos: position{line: 2112, col: 5, offset: 68080},
+				pos: position{line: 2120, col: 5, offset: 68292},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2112, col: 5, offset: 68080},
+					pos: position{line: 2120, col: 5, offset: 68292},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2877, col: 11, offset: 90785},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2877, col: 13, offset: 90787,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2113, col: 5, offset: 68091},
+							pos: position{line: 2121, col: 5, offset: 68303},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2113, col: 6, offset: 68092},
+								pos:  position{line: 2121, col: 6, offset: 68304},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2114, col: 5, offset: 68133},
+							pos:   position{line: 2122, col: 5, offset: 68345},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2114, col: 14, offset: 68142},
+								pos:  position{line: 2122, col: 14, offset: 68354},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41588,35 +41816,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2119, col: 1, offset: 68230},
+			pos:  position{line: 2127, col: 1, offset: 68442},
 			expr: &choiceExpr{
-				pos: position{line: 2121, col: 5, offset: 68301},
+				pos: position{line: 2129, col: 5, offset: 68513},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2121, col: 5, offset: 68301},
+						pos: position{line: 2129, col: 5, offset: 68513},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2121, col: 5, offset: 68301},
+							pos: position{line: 2129, col: 5, offset: 68513},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2121, col: 5, offset: 68301},
+									pos:   position{line: 2129, col: 5, offset: 68513},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59496},
+										pos: position{line: 1853, col: 25, offset: 59708},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59496},
+											pos: position{line: 1853, col: 25, offset: 59708},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59496},
+													pos:        position{line: 1853, col: 25, offset: 59708},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59501},
+													pos: position{line: 1853, col: 30, offset: 59713},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59501},
+														pos:        position{line: 1853, col: 30, offset: 59713},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41627,21 +41855,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2121, col: 40, offset: 68336},
+									pos:        position{line: 2129, col: 40, offset: 68548},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2121, col: 45, offset: 68341},
+									pos:   position{line: 2129, col: 45, offset: 68553},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2121, col: 55, offset: 68351},
+										pos:  position{line: 2129, col: 55, offset: 68563},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2121, col: 89, offset: 68385},
+									pos:        position{line: 2129, col: 89, offset: 68597},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -41650,21 +41878,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2125, col: 7, offset: 68554},
+						pos: position{line: 2133, col: 7, offset: 68766},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2125, col: 7, offset: 68554},
+							pos: position{line: 2133, col: 7, offset: 68766},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2125, col: 7, offset: 68554},
+									pos:   position{line: 2133, col: 7, offset: 68766},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1849, col: 25, offset: 59635},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1849, col: 25, offset: 59635},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1849, col: 25, offset: 59635},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41673,21 +41901,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2125, col: 42, offset: 68589},
+									pos:        position{line: 2133, col: 42, offset: 68801},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2125, col: 47, offset: 68594},
+									pos:   position{line: 2133, col: 47, offset: 68806},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2125, col: 57, offset: 68604},
+										pos:  position{line: 2133, col: 57, offset: 68816},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2125, col: 91, offset: 68638},
+									pos:        position{line: 2133, col: 91, offset: 68850},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41696,21 +41924,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2130, col: 7, offset: 68844},
+						pos: position{line: 2138, col: 7, offset: 69056},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2130, col: 7, offset: 68844},
+							pos: position{line: 2138, col: 7, offset: 69056},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2130, col: 7, offset: 68844},
+									pos:   position{line: 2138, col: 7, offset: 69056},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1849, col: 25, offset: 59635},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1849, col: 25, offset: 59635},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1849, col: 25, offset: 59635},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41719,21 +41947,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2130, col: 42, offset: 68879},
+									pos:        position{line: 2138, col: 42, offset: 69091},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2130, col: 46, offset: 68883},
+									pos:   position{line: 2138, col: 46, offset: 69095},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2130, col: 56, offset: 68893},
+										pos:  position{line: 2138, col: 56, offset: 69105},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2130, col: 90, offset: 68927},
+									pos:        position{line: 2138, col: 90, offset: 69139},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41746,29 +41974,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2147, col: 1, offset: 69412},
+			pos:  position{line: 2155, col: 1, offset: 69624},
 			expr: &actionExpr{
-				pos: position{line: 2148, col: 5, offset: 69442},
+				pos: position{line: 2156, col: 5, offset: 69654},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2148, col: 5, offset: 69442},
+					pos: position{line: 2156, col: 5, offset: 69654},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2143, col: 40, offset: 69363},
+							pos:        position{line: 2151, col: 40, offset: 69575},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2149, col: 5, offset: 69483},
+							pos:   position{line: 2157, col: 5, offset: 69695},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2149, col: 15, offset: 69493},
+								pos:  position{line: 2157, col: 15, offset: 69705},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2145, col: 38, offset: 69406},
+							pos:        position{line: 2153, col: 38, offset: 69618},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -41779,44 +42007,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2154, col: 1, offset: 69659},
+			pos:  position{line: 2162, col: 1, offset: 69871},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2154, col: 34, offset: 69692},
+				pos: position{line: 2162, col: 34, offset: 69904},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2154, col: 34, offset: 69692},
+					pos:  position{line: 2162, col: 34, offset: 69904},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2156, col: 1, offset: 69723},
+			pos:  position{line: 2164, col: 1, offset: 69935},
 			expr: &actionExpr{
-				pos: position{line: 2157, col: 5, offset: 69792},
+				pos: position{line: 2165, col: 5, offset: 70004},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2157, col: 5, offset: 69792},
+					pos: position{line: 2165, col: 5, offset: 70004},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2877, col: 11, offset: 90785},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2877, col: 13, offset: 90787,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2158, col: 5, offset: 69803},
+							pos: position{line: 2166, col: 5, offset: 70015},
 							expr: &litMatcher{
-								pos:        position{line: 2145, col: 38, offset: 69406},
+								pos:        position{line: 2153, col: 38, offset: 69618},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2159, col: 5, offset: 69842},
+							pos:   position{line: 2167, col: 5, offset: 70054},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2159, col: 14, offset: 69851},
+								pos:  position{line: 2167, col: 14, offset: 70063},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41826,29 +42054,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2184, col: 1, offset: 70533},
+			pos:  position{line: 2192, col: 1, offset: 70745},
 			expr: &actionExpr{
-				pos: position{line: 2185, col: 5, offset: 70563},
+				pos: position{line: 2193, col: 5, offset: 70775},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2185, col: 5, offset: 70563},
+					pos: position{line: 2193, col: 5, offset: 70775},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2168, col: 5, offset: 70099},
+							pos:        position{line: 2176, col: 5, offset: 70311},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2169, col: 5, offset: 70108},
+							pos: position{line: 2177, col: 5, offset: 70320},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2173, col: 5, offset: 70228},
+							pos: position{line: 2181, col: 5, offset: 70440},
 							expr: &notExpr{
-								pos: position{line: 2173, col: 7, offset: 70230},
+								pos: position{line: 2181, col: 7, offset: 70442},
 								expr: &litMatcher{
-									pos:        position{line: 2173, col: 8, offset: 70231},
+									pos:        position{line: 2181, col: 8, offset: 70443},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -41856,38 +42084,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2186, col: 5, offset: 70603},
+							pos:   position{line: 2194, col: 5, offset: 70815},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2186, col: 15, offset: 70613},
+								pos:  position{line: 2194, col: 15, offset: 70825},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2176, col: 5, offset: 70336},
+							pos:        position{line: 2184, col: 5, offset: 70548},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2177, col: 5, offset: 70344},
+							pos: position{line: 2185, col: 5, offset: 70556},
 							expr: &litMatcher{
-								pos:        position{line: 2177, col: 6, offset: 70345},
+								pos:        position{line: 2185, col: 6, offset: 70557},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2178, col: 5, offset: 70408},
+							pos: position{line: 2186, col: 5, offset: 70620},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2182, col: 5, offset: 70519},
+							pos: position{line: 2190, col: 5, offset: 70731},
 							expr: &notExpr{
-								pos: position{line: 2182, col: 7, offset: 70521},
+								pos: position{line: 2190, col: 7, offset: 70733},
 								expr: &charClassMatcher{
-									pos:        position{line: 2742, col: 13, offset: 87334},
+									pos:        position{line: 2750, col: 13, offset: 87546},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41901,20 +42129,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2191, col: 1, offset: 70780},
+			pos:  position{line: 2199, col: 1, offset: 70992},
 			expr: &actionExpr{
-				pos: position{line: 2192, col: 5, offset: 70818},
+				pos: position{line: 2200, col: 5, offset: 71030},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2192, col: 5, offset: 70818},
+					pos: position{line: 2200, col: 5, offset: 71030},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2192, col: 5, offset: 70818},
+							pos: position{line: 2200, col: 5, offset: 71030},
 							expr: &actionExpr{
-								pos: position{line: 2852, col: 10, offset: 90239},
+								pos: position{line: 2860, col: 10, offset: 90451},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2852, col: 10, offset: 90239},
+									pos:        position{line: 2860, col: 10, offset: 90451},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41923,18 +42151,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2193, col: 5, offset: 70857},
+							pos:   position{line: 2201, col: 5, offset: 71069},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2193, col: 14, offset: 70866},
+								pos: position{line: 2201, col: 14, offset: 71078},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2193, col: 15, offset: 70867},
+									pos:  position{line: 2201, col: 15, offset: 71079},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2194, col: 5, offset: 70903},
+							pos: position{line: 2202, col: 5, offset: 71115},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -41943,49 +42171,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2200, col: 1, offset: 71044},
+			pos:  position{line: 2208, col: 1, offset: 71256},
 			expr: &actionExpr{
-				pos: position{line: 2201, col: 5, offset: 71081},
+				pos: position{line: 2209, col: 5, offset: 71293},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2201, col: 5, offset: 71081},
+					pos: position{line: 2209, col: 5, offset: 71293},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2877, col: 11, offset: 90785},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2877, col: 13, offset: 90787,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2202, col: 5, offset: 71092},
+							pos: position{line: 2210, col: 5, offset: 71304},
 							expr: &seqExpr{
-								pos: position{line: 2176, col: 5, offset: 70336},
+								pos: position{line: 2184, col: 5, offset: 70548},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2176, col: 5, offset: 70336},
+										pos:        position{line: 2184, col: 5, offset: 70548},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2177, col: 5, offset: 70344},
+										pos: position{line: 2185, col: 5, offset: 70556},
 										expr: &litMatcher{
-											pos:        position{line: 2177, col: 6, offset: 70345},
+											pos:        position{line: 2185, col: 6, offset: 70557},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2178, col: 5, offset: 70408},
+										pos: position{line: 2186, col: 5, offset: 70620},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2182, col: 5, offset: 70519},
+										pos: position{line: 2190, col: 5, offset: 70731},
 										expr: &notExpr{
-											pos: position{line: 2182, col: 7, offset: 70521},
+											pos: position{line: 2190, col: 7, offset: 70733},
 											expr: &charClassMatcher{
-												pos:        position{line: 2742, col: 13, offset: 87334},
+												pos:        position{line: 2750, col: 13, offset: 87546},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41997,10 +42225,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2203, col: 5, offset: 71131},
+							pos:   position{line: 2211, col: 5, offset: 71343},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2203, col: 14, offset: 71140},
+								pos:  position{line: 2211, col: 14, offset: 71352},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42010,35 +42238,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2208, col: 1, offset: 71228},
+			pos:  position{line: 2216, col: 1, offset: 71440},
 			expr: &choiceExpr{
-				pos: position{line: 2210, col: 5, offset: 71292},
+				pos: position{line: 2218, col: 5, offset: 71504},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2210, col: 5, offset: 71292},
+						pos: position{line: 2218, col: 5, offset: 71504},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2210, col: 5, offset: 71292},
+							pos: position{line: 2218, col: 5, offset: 71504},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2210, col: 5, offset: 71292},
+									pos:   position{line: 2218, col: 5, offset: 71504},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1845, col: 25, offset: 59496},
+										pos: position{line: 1853, col: 25, offset: 59708},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1845, col: 25, offset: 59496},
+											pos: position{line: 1853, col: 25, offset: 59708},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1845, col: 25, offset: 59496},
+													pos:        position{line: 1853, col: 25, offset: 59708},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1845, col: 30, offset: 59501},
+													pos: position{line: 1853, col: 30, offset: 59713},
 													expr: &litMatcher{
-														pos:        position{line: 1845, col: 30, offset: 59501},
+														pos:        position{line: 1853, col: 30, offset: 59713},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42049,21 +42277,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2210, col: 40, offset: 71327},
+									pos:        position{line: 2218, col: 40, offset: 71539},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2210, col: 45, offset: 71332},
+									pos:   position{line: 2218, col: 45, offset: 71544},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2210, col: 55, offset: 71342},
+										pos:  position{line: 2218, col: 55, offset: 71554},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2210, col: 86, offset: 71373},
+									pos:        position{line: 2218, col: 86, offset: 71585},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -42072,21 +42300,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2214, col: 7, offset: 71538},
+						pos: position{line: 2222, col: 7, offset: 71750},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2214, col: 7, offset: 71538},
+							pos: position{line: 2222, col: 7, offset: 71750},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2214, col: 7, offset: 71538},
+									pos:   position{line: 2222, col: 7, offset: 71750},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1849, col: 25, offset: 59635},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1849, col: 25, offset: 59635},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1849, col: 25, offset: 59635},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42095,21 +42323,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2214, col: 42, offset: 71573},
+									pos:        position{line: 2222, col: 42, offset: 71785},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2214, col: 47, offset: 71578},
+									pos:   position{line: 2222, col: 47, offset: 71790},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2214, col: 57, offset: 71588},
+										pos:  position{line: 2222, col: 57, offset: 71800},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2214, col: 88, offset: 71619},
+									pos:        position{line: 2222, col: 88, offset: 71831},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42118,21 +42346,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2219, col: 7, offset: 71822},
+						pos: position{line: 2227, col: 7, offset: 72034},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2219, col: 7, offset: 71822},
+							pos: position{line: 2227, col: 7, offset: 72034},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2219, col: 7, offset: 71822},
+									pos:   position{line: 2227, col: 7, offset: 72034},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1841, col: 25, offset: 59423},
+										pos: position{line: 1849, col: 25, offset: 59635},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1841, col: 25, offset: 59423},
+											pos: position{line: 1849, col: 25, offset: 59635},
 											expr: &litMatcher{
-												pos:        position{line: 1841, col: 25, offset: 59423},
+												pos:        position{line: 1849, col: 25, offset: 59635},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42141,21 +42369,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2219, col: 42, offset: 71857},
+									pos:        position{line: 2227, col: 42, offset: 72069},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2219, col: 46, offset: 71861},
+									pos:   position{line: 2227, col: 46, offset: 72073},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2219, col: 56, offset: 71871},
+										pos:  position{line: 2227, col: 56, offset: 72083},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2219, col: 87, offset: 71902},
+									pos:        position{line: 2227, col: 87, offset: 72114},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42168,29 +42396,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2226, col: 1, offset: 72169},
+			pos:  position{line: 2234, col: 1, offset: 72381},
 			expr: &actionExpr{
-				pos: position{line: 2227, col: 5, offset: 72191},
+				pos: position{line: 2235, col: 5, offset: 72403},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2227, col: 5, offset: 72191},
+					pos: position{line: 2235, col: 5, offset: 72403},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72406},
+							pos:        position{line: 2241, col: 27, offset: 72618},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2228, col: 5, offset: 72218},
+							pos:   position{line: 2236, col: 5, offset: 72430},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2228, col: 14, offset: 72227},
+								pos:  position{line: 2236, col: 14, offset: 72439},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72406},
+							pos:        position{line: 2241, col: 27, offset: 72618},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42201,21 +42429,21 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2235, col: 1, offset: 72411},
+			pos:  position{line: 2243, col: 1, offset: 72623},
 			expr: &choiceExpr{
-				pos: position{line: 2235, col: 25, offset: 72435},
+				pos: position{line: 2243, col: 25, offset: 72647},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2235, col: 25, offset: 72435},
+						pos:  position{line: 2243, col: 25, offset: 72647},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2237, col: 21, offset: 72487},
+						pos: position{line: 2245, col: 21, offset: 72699},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2237, col: 21, offset: 72487},
+							pos: position{line: 2245, col: 21, offset: 72699},
 							expr: &charClassMatcher{
-								pos:        position{line: 2237, col: 21, offset: 72487},
+								pos:        position{line: 2245, col: 21, offset: 72699},
 								val:        "[^\\r\\n ~]",
 								chars:      []rune{'\r', '\n', ' ', '~'},
 								ignoreCase: false,
@@ -42228,23 +42456,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2241, col: 1, offset: 72572},
+			pos:  position{line: 2249, col: 1, offset: 72784},
 			expr: &actionExpr{
-				pos: position{line: 2243, col: 5, offset: 72639},
+				pos: position{line: 2251, col: 5, offset: 72851},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2243, col: 5, offset: 72639},
+					pos: position{line: 2251, col: 5, offset: 72851},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2243, col: 5, offset: 72639},
+							pos:   position{line: 2251, col: 5, offset: 72851},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1841, col: 25, offset: 59423},
+								pos: position{line: 1849, col: 25, offset: 59635},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1841, col: 25, offset: 59423},
+									pos: position{line: 1849, col: 25, offset: 59635},
 									expr: &litMatcher{
-										pos:        position{line: 1841, col: 25, offset: 59423},
+										pos:        position{line: 1849, col: 25, offset: 59635},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42253,21 +42481,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72406},
+							pos:        position{line: 2241, col: 27, offset: 72618},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2245, col: 5, offset: 72707},
+							pos:   position{line: 2253, col: 5, offset: 72919},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2245, col: 14, offset: 72716},
+								pos:  position{line: 2253, col: 14, offset: 72928},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2233, col: 27, offset: 72406},
+							pos:        position{line: 2241, col: 27, offset: 72618},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42278,29 +42506,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2253, col: 1, offset: 72979},
+			pos:  position{line: 2261, col: 1, offset: 73191},
 			expr: &actionExpr{
-				pos: position{line: 2254, col: 5, offset: 73003},
+				pos: position{line: 2262, col: 5, offset: 73215},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2254, col: 5, offset: 73003},
+					pos: position{line: 2262, col: 5, offset: 73215},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73230},
+							pos:        position{line: 2268, col: 29, offset: 73442},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2255, col: 5, offset: 73033},
+							pos:   position{line: 2263, col: 5, offset: 73245},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2255, col: 14, offset: 73042},
+								pos:  position{line: 2263, col: 14, offset: 73254},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73230},
+							pos:        position{line: 2268, col: 29, offset: 73442},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42311,21 +42539,21 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2262, col: 1, offset: 73235},
+			pos:  position{line: 2270, col: 1, offset: 73447},
 			expr: &choiceExpr{
-				pos: position{line: 2262, col: 27, offset: 73261},
+				pos: position{line: 2270, col: 27, offset: 73473},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2262, col: 27, offset: 73261},
+						pos:  position{line: 2270, col: 27, offset: 73473},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2264, col: 23, offset: 73317},
+						pos: position{line: 2272, col: 23, offset: 73529},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2264, col: 23, offset: 73317},
+							pos: position{line: 2272, col: 23, offset: 73529},
 							expr: &charClassMatcher{
-								pos:        position{line: 2264, col: 23, offset: 73317},
+								pos:        position{line: 2272, col: 23, offset: 73529},
 								val:        "[^\\r\\n ^]",
 								chars:      []rune{'\r', '\n', ' ', '^'},
 								ignoreCase: false,
@@ -42338,23 +42566,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2268, col: 1, offset: 73402},
+			pos:  position{line: 2276, col: 1, offset: 73614},
 			expr: &actionExpr{
-				pos: position{line: 2270, col: 5, offset: 73474},
+				pos: position{line: 2278, col: 5, offset: 73686},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2270, col: 5, offset: 73474},
+					pos: position{line: 2278, col: 5, offset: 73686},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2270, col: 5, offset: 73474},
+							pos:   position{line: 2278, col: 5, offset: 73686},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1841, col: 25, offset: 59423},
+								pos: position{line: 1849, col: 25, offset: 59635},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1841, col: 25, offset: 59423},
+									pos: position{line: 1849, col: 25, offset: 59635},
 									expr: &litMatcher{
-										pos:        position{line: 1841, col: 25, offset: 59423},
+										pos:        position{line: 1849, col: 25, offset: 59635},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42363,21 +42591,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73230},
+							pos:        position{line: 2268, col: 29, offset: 73442},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2272, col: 5, offset: 73544},
+							pos:   position{line: 2280, col: 5, offset: 73756},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2272, col: 14, offset: 73553},
+								pos:  position{line: 2280, col: 14, offset: 73765},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 29, offset: 73230},
+							pos:        position{line: 2268, col: 29, offset: 73442},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42388,27 +42616,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2281, col: 1, offset: 74022},
+			pos:  position{line: 2289, col: 1, offset: 74234},
 			expr: &actionExpr{
-				pos: position{line: 2282, col: 5, offset: 74038},
+				pos: position{line: 2290, col: 5, offset: 74250},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2282, col: 5, offset: 74038},
+					pos: position{line: 2290, col: 5, offset: 74250},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2282, col: 5, offset: 74038},
+							pos: position{line: 2290, col: 5, offset: 74250},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2285, col: 5, offset: 74101},
+							pos:   position{line: 2293, col: 5, offset: 74313},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2285, col: 12, offset: 74108},
+								pos: position{line: 2293, col: 12, offset: 74320},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2285, col: 12, offset: 74108},
+									pos: position{line: 2293, col: 12, offset: 74320},
 									expr: &litMatcher{
-										pos:        position{line: 2285, col: 13, offset: 74109},
+										pos:        position{line: 2293, col: 13, offset: 74321},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -42417,16 +42645,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2289, col: 5, offset: 74217},
+							pos: position{line: 2297, col: 5, offset: 74429},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2856, col: 11, offset: 90300},
+							pos: position{line: 2864, col: 11, offset: 90512},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2856, col: 11, offset: 90300},
+								pos: position{line: 2864, col: 11, offset: 90512},
 								expr: &charClassMatcher{
-									pos:        position{line: 2856, col: 11, offset: 90300},
+									pos:        position{line: 2864, col: 11, offset: 90512},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42435,36 +42663,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2293, col: 12, offset: 74376},
+							pos:   position{line: 2301, col: 12, offset: 74588},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2293, col: 19, offset: 74383},
+								pos:  position{line: 2301, col: 19, offset: 74595},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2882, col: 8, offset: 90849},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2869, col: 12, offset: 90622},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2869, col: 13, offset: 90623},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2869, col: 13, offset: 90623},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2869, col: 20, offset: 90630},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2869, col: 29, offset: 90639},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42473,9 +42701,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2879, col: 8, offset: 90799},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2879, col: 9, offset: 90800,
 									},
 								},
 							},
@@ -42486,24 +42714,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2297, col: 1, offset: 74479},
+			pos:  position{line: 2305, col: 1, offset: 74691},
 			expr: &actionExpr{
-				pos: position{line: 2298, col: 5, offset: 74500},
+				pos: position{line: 2306, col: 5, offset: 74712},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2298, col: 5, offset: 74500},
+					pos: position{line: 2306, col: 5, offset: 74712},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2298, col: 5, offset: 74500},
+							pos: position{line: 2306, col: 5, offset: 74712},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2303, col: 5, offset: 74615},
+							pos:   position{line: 2311, col: 5, offset: 74827},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2303, col: 14, offset: 74624},
+								pos: position{line: 2311, col: 14, offset: 74836},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2303, col: 15, offset: 74625},
+									pos:  position{line: 2311, col: 15, offset: 74837},
 									name: "SectionTitleElement",
 								},
 							},
@@ -42514,38 +42742,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2307, col: 1, offset: 74706},
+			pos:  position{line: 2315, col: 1, offset: 74918},
 			expr: &actionExpr{
-				pos: position{line: 2308, col: 5, offset: 74733},
+				pos: position{line: 2316, col: 5, offset: 74945},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2308, col: 5, offset: 74733},
+					pos: position{line: 2316, col: 5, offset: 74945},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2308, col: 5, offset: 74733},
+							pos: position{line: 2316, col: 5, offset: 74945},
 							expr: &choiceExpr{
-								pos: position{line: 2874, col: 8, offset: 90637},
+								pos: position{line: 2882, col: 8, offset: 90849},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
+										pos: position{line: 2869, col: 12, offset: 90622},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
+											pos: position{line: 2869, col: 13, offset: 90623},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
+													pos:        position{line: 2869, col: 13, offset: 90623},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
+													pos:        position{line: 2869, col: 20, offset: 90630},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
+													pos:        position{line: 2869, col: 29, offset: 90639},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -42554,36 +42782,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2871, col: 8, offset: 90587},
+										pos: position{line: 2879, col: 8, offset: 90799},
 										expr: &anyMatcher{
-											line: 2871, col: 9, offset: 90588,
+											line: 2879, col: 9, offset: 90800,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2309, col: 5, offset: 74742},
+							pos:   position{line: 2317, col: 5, offset: 74954},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2310, col: 9, offset: 74760},
+								pos: position{line: 2318, col: 9, offset: 74972},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2751, col: 5, offset: 87481},
+										pos: position{line: 2759, col: 5, offset: 87693},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2751, col: 5, offset: 87481},
+											pos: position{line: 2759, col: 5, offset: 87693},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2751, col: 5, offset: 87481},
+													pos:   position{line: 2759, col: 5, offset: 87693},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2751, col: 11, offset: 87487},
+														pos: position{line: 2759, col: 11, offset: 87699},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2751, col: 11, offset: 87487},
+															pos: position{line: 2759, col: 11, offset: 87699},
 															expr: &charClassMatcher{
-																pos:        position{line: 2751, col: 11, offset: 87487},
+																pos:        position{line: 2759, col: 11, offset: 87699},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -42593,36 +42821,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2754, col: 5, offset: 87545},
+													pos: position{line: 2762, col: 5, offset: 87757},
 													expr: &seqExpr{
-														pos: position{line: 2755, col: 9, offset: 87556},
+														pos: position{line: 2763, col: 9, offset: 87768},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2755, col: 9, offset: 87556},
+																pos:        position{line: 2763, col: 9, offset: 87768},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2756, col: 9, offset: 87605},
+																pos: position{line: 2764, col: 9, offset: 87817},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2760, col: 5, offset: 87685},
+													pos: position{line: 2768, col: 5, offset: 87897},
 													expr: &seqExpr{
-														pos: position{line: 2761, col: 9, offset: 87696},
+														pos: position{line: 2769, col: 9, offset: 87908},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2761, col: 9, offset: 87696},
+																pos:        position{line: 2769, col: 9, offset: 87908},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2761, col: 13, offset: 87700},
+																pos:        position{line: 2769, col: 13, offset: 87912},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -42635,12 +42863,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2856, col: 11, offset: 90300},
+										pos: position{line: 2864, col: 11, offset: 90512},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2856, col: 11, offset: 90300},
+											pos: position{line: 2864, col: 11, offset: 90512},
 											expr: &charClassMatcher{
-												pos:        position{line: 2856, col: 11, offset: 90300},
+												pos:        position{line: 2864, col: 11, offset: 90512},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -42649,21 +42877,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2480, col: 5, offset: 79941},
+										pos: position{line: 2488, col: 5, offset: 80153},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 5, offset: 79941},
+											pos: position{line: 2488, col: 5, offset: 80153},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2480, col: 5, offset: 79941},
+													pos:        position{line: 2488, col: 5, offset: 80153},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2480, col: 10, offset: 79946},
+													pos: position{line: 2488, col: 10, offset: 80158},
 													expr: &charClassMatcher{
-														pos:        position{line: 2480, col: 11, offset: 79947},
+														pos:        position{line: 2488, col: 11, offset: 80159},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -42674,29 +42902,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2486, col: 5, offset: 80139},
+										pos: position{line: 2494, col: 5, offset: 80351},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2486, col: 5, offset: 80139},
+											pos: position{line: 2494, col: 5, offset: 80351},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2486, col: 5, offset: 80139},
+													pos: position{line: 2494, col: 5, offset: 80351},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2489, col: 5, offset: 80210},
+													pos: position{line: 2497, col: 5, offset: 80422},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2493, col: 5, offset: 80335},
+													pos:        position{line: 2501, col: 5, offset: 80547},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2493, col: 9, offset: 80339},
+													pos: position{line: 2501, col: 9, offset: 80551},
 													expr: &charClassMatcher{
-														pos:        position{line: 2493, col: 10, offset: 80340},
+														pos:        position{line: 2501, col: 10, offset: 80552},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -42707,31 +42935,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2313, col: 11, offset: 74825},
+										pos:  position{line: 2321, col: 11, offset: 75037},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2769, col: 5, offset: 87893},
+										pos: position{line: 2777, col: 5, offset: 88105},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2770, col: 9, offset: 87903},
+											pos: position{line: 2778, col: 9, offset: 88115},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2770, col: 10, offset: 87904},
+													pos:        position{line: 2778, col: 10, offset: 88116},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2772, col: 13, offset: 88001},
+													pos: position{line: 2780, col: 13, offset: 88213},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2772, col: 13, offset: 88001},
+															pos: position{line: 2780, col: 13, offset: 88213},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2775, col: 13, offset: 88101},
+															pos:        position{line: 2783, col: 13, offset: 88313},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -42739,20 +42967,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2775, col: 19, offset: 88107},
+													pos:        position{line: 2783, col: 19, offset: 88319},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2778, col: 13, offset: 88145},
+													pos: position{line: 2786, col: 13, offset: 88357},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2778, col: 13, offset: 88145},
+															pos: position{line: 2786, col: 13, offset: 88357},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2781, col: 14, offset: 88238},
+															pos:        position{line: 2789, col: 14, offset: 88450},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -42761,18 +42989,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2783, col: 12, offset: 88282},
+													pos: position{line: 2791, col: 12, offset: 88494},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2783, col: 12, offset: 88282},
+															pos:        position{line: 2791, col: 12, offset: 88494},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2783, col: 16, offset: 88286},
+															pos: position{line: 2791, col: 16, offset: 88498},
 															expr: &litMatcher{
-																pos:        position{line: 2783, col: 17, offset: 88287},
+																pos:        position{line: 2791, col: 17, offset: 88499},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -42784,35 +43012,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2315, col: 11, offset: 74898},
+										pos:  position{line: 2323, col: 11, offset: 75110},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2316, col: 11, offset: 74914},
+										pos:  position{line: 2324, col: 11, offset: 75126},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2317, col: 11, offset: 74942},
+										pos:  position{line: 2325, col: 11, offset: 75154},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2457, col: 5, offset: 78982},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78770},
+											pos: position{line: 2457, col: 5, offset: 78982},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78770},
+													pos: position{line: 2457, col: 5, offset: 78982},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78846},
+													pos:   position{line: 2460, col: 5, offset: 79058},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78864},
+														pos: position{line: 2461, col: 9, offset: 79076},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78865},
+															pos:        position{line: 2461, col: 10, offset: 79077},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -42824,7 +43052,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2319, col: 11, offset: 75027},
+										pos:  position{line: 2327, col: 11, offset: 75239},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -43174,27 +43402,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1198, col: 23, offset: 36972},
+										pos: position{line: 1206, col: 23, offset: 37184},
 										run: (*parser).callonSectionTitleElement137,
 										expr: &seqExpr{
-											pos: position{line: 1198, col: 23, offset: 36972},
+											pos: position{line: 1206, col: 23, offset: 37184},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36940},
+													pos:        position{line: 1204, col: 32, offset: 37152},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1198, col: 51, offset: 37000},
+													pos:   position{line: 1206, col: 51, offset: 37212},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1198, col: 56, offset: 37005},
+														pos: position{line: 1206, col: 56, offset: 37217},
 														run: (*parser).callonSectionTitleElement141,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1198, col: 56, offset: 37005},
+															pos: position{line: 1206, col: 56, offset: 37217},
 															expr: &charClassMatcher{
-																pos:        position{line: 1198, col: 56, offset: 37005},
+																pos:        position{line: 1206, col: 56, offset: 37217},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -43204,7 +43432,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36940},
+													pos:        position{line: 1204, col: 32, offset: 37152},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -43213,17 +43441,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2332, col: 5, offset: 75480},
+										pos: position{line: 2340, col: 5, offset: 75692},
 										run: (*parser).callonSectionTitleElement145,
 										expr: &seqExpr{
-											pos: position{line: 2332, col: 5, offset: 75480},
+											pos: position{line: 2340, col: 5, offset: 75692},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2332, col: 5, offset: 75480},
+													pos: position{line: 2340, col: 5, offset: 75692},
 													run: (*parser).callonSectionTitleElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2335, col: 5, offset: 75535},
+													pos:   position{line: 2343, col: 5, offset: 75747},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 404, col: 5, offset: 12337},
@@ -43266,27 +43494,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1198, col: 23, offset: 36972},
+																							pos: position{line: 1206, col: 23, offset: 37184},
 																							run: (*parser).callonSectionTitleElement160,
 																							expr: &seqExpr{
-																								pos: position{line: 1198, col: 23, offset: 36972},
+																								pos: position{line: 1206, col: 23, offset: 37184},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1196, col: 32, offset: 36940},
+																										pos:        position{line: 1204, col: 32, offset: 37152},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1198, col: 51, offset: 37000},
+																										pos:   position{line: 1206, col: 51, offset: 37212},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1198, col: 56, offset: 37005},
+																											pos: position{line: 1206, col: 56, offset: 37217},
 																											run: (*parser).callonSectionTitleElement164,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1198, col: 56, offset: 37005},
+																												pos: position{line: 1206, col: 56, offset: 37217},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1198, col: 56, offset: 37005},
+																													pos:        position{line: 1206, col: 56, offset: 37217},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -43296,7 +43524,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1196, col: 32, offset: 36940},
+																										pos:        position{line: 1204, col: 32, offset: 37152},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
@@ -43677,12 +43905,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2335, col: 26, offset: 75556},
+													pos: position{line: 2343, col: 26, offset: 75768},
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 10, offset: 90239},
+														pos: position{line: 2860, col: 10, offset: 90451},
 														run: (*parser).callonSectionTitleElement241,
 														expr: &charClassMatcher{
-															pos:        position{line: 2852, col: 10, offset: 90239},
+															pos:        position{line: 2860, col: 10, offset: 90451},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -43691,30 +43919,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2335, col: 33, offset: 75563},
+													pos: position{line: 2343, col: 33, offset: 75775},
 													expr: &choiceExpr{
-														pos: position{line: 2874, col: 8, offset: 90637},
+														pos: position{line: 2882, col: 8, offset: 90849},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2861, col: 12, offset: 90410},
+																pos: position{line: 2869, col: 12, offset: 90622},
 																run: (*parser).callonSectionTitleElement245,
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 13, offset: 90411},
+																	pos: position{line: 2869, col: 13, offset: 90623},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 13, offset: 90411},
+																			pos:        position{line: 2869, col: 13, offset: 90623},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 20, offset: 90418},
+																			pos:        position{line: 2869, col: 20, offset: 90630},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2861, col: 29, offset: 90427},
+																			pos:        position{line: 2869, col: 29, offset: 90639},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -43723,9 +43951,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2871, col: 8, offset: 90587},
+																pos: position{line: 2879, col: 8, offset: 90799},
 																expr: &anyMatcher{
-																	line: 2871, col: 9, offset: 90588,
+																	line: 2879, col: 9, offset: 90800,
 																},
 															},
 														},
@@ -43735,27 +43963,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1253, col: 5, offset: 38732},
+										pos: position{line: 1261, col: 5, offset: 38944},
 										run: (*parser).callonSectionTitleElement252,
 										expr: &seqExpr{
-											pos: position{line: 1253, col: 5, offset: 38732},
+											pos: position{line: 1261, col: 5, offset: 38944},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1253, col: 5, offset: 38732},
+													pos:        position{line: 1261, col: 5, offset: 38944},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1253, col: 14, offset: 38741},
+													pos:   position{line: 1261, col: 14, offset: 38953},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 7, offset: 89891},
+														pos: position{line: 2845, col: 7, offset: 90103},
 														run: (*parser).callonSectionTitleElement256,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2837, col: 7, offset: 89891},
+															pos: position{line: 2845, col: 7, offset: 90103},
 															expr: &charClassMatcher{
-																pos:        position{line: 2837, col: 7, offset: 89891},
+																pos:        position{line: 2845, col: 7, offset: 90103},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -43765,7 +43993,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1253, col: 22, offset: 38749},
+													pos:        position{line: 1261, col: 22, offset: 38961},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -43774,27 +44002,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1258, col: 5, offset: 38868},
+										pos: position{line: 1266, col: 5, offset: 39080},
 										run: (*parser).callonSectionTitleElement260,
 										expr: &seqExpr{
-											pos: position{line: 1258, col: 5, offset: 38868},
+											pos: position{line: 1266, col: 5, offset: 39080},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1258, col: 5, offset: 38868},
+													pos:        position{line: 1266, col: 5, offset: 39080},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1258, col: 10, offset: 38873},
+													pos:   position{line: 1266, col: 10, offset: 39085},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 7, offset: 89891},
+														pos: position{line: 2845, col: 7, offset: 90103},
 														run: (*parser).callonSectionTitleElement264,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2837, col: 7, offset: 89891},
+															pos: position{line: 2845, col: 7, offset: 90103},
 															expr: &charClassMatcher{
-																pos:        position{line: 2837, col: 7, offset: 89891},
+																pos:        position{line: 2845, col: 7, offset: 90103},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -43804,7 +44032,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1258, col: 18, offset: 38881},
+													pos:        position{line: 1266, col: 18, offset: 39093},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -43813,14 +44041,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2324, col: 11, offset: 75281},
+										pos:  position{line: 2332, col: 11, offset: 75493},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2791, col: 12, offset: 88547},
+										pos: position{line: 2799, col: 12, offset: 88759},
 										run: (*parser).callonSectionTitleElement269,
 										expr: &charClassMatcher{
-											pos:        position{line: 2791, col: 12, offset: 88547},
+											pos:        position{line: 2799, col: 12, offset: 88759},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -43836,52 +44064,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2345, col: 1, offset: 75825},
+			pos:  position{line: 2353, col: 1, offset: 76037},
 			expr: &actionExpr{
-				pos: position{line: 2346, col: 5, offset: 75912},
+				pos: position{line: 2354, col: 5, offset: 76124},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2346, col: 5, offset: 75912},
+					pos: position{line: 2354, col: 5, offset: 76124},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2346, col: 5, offset: 75912},
+							pos:   position{line: 2354, col: 5, offset: 76124},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2346, col: 14, offset: 75921},
+								pos: position{line: 2354, col: 14, offset: 76133},
 								expr: &actionExpr{
-									pos: position{line: 2348, col: 9, offset: 75947},
+									pos: position{line: 2356, col: 9, offset: 76159},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2348, col: 9, offset: 75947},
+										pos: position{line: 2356, col: 9, offset: 76159},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2869, col: 11, offset: 90573},
+												pos: position{line: 2877, col: 11, offset: 90785},
 												expr: &anyMatcher{
-													line: 2869, col: 13, offset: 90575,
+													line: 2877, col: 13, offset: 90787,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2349, col: 9, offset: 75962},
+												pos:   position{line: 2357, col: 9, offset: 76174},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2350, col: 13, offset: 75984},
+													pos: position{line: 2358, col: 13, offset: 76196},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2751, col: 5, offset: 87481},
+															pos: position{line: 2759, col: 5, offset: 87693},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2751, col: 5, offset: 87481},
+																pos: position{line: 2759, col: 5, offset: 87693},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2751, col: 5, offset: 87481},
+																		pos:   position{line: 2759, col: 5, offset: 87693},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2751, col: 11, offset: 87487},
+																			pos: position{line: 2759, col: 11, offset: 87699},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2751, col: 11, offset: 87487},
+																				pos: position{line: 2759, col: 11, offset: 87699},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2751, col: 11, offset: 87487},
+																					pos:        position{line: 2759, col: 11, offset: 87699},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -43891,36 +44119,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2754, col: 5, offset: 87545},
+																		pos: position{line: 2762, col: 5, offset: 87757},
 																		expr: &seqExpr{
-																			pos: position{line: 2755, col: 9, offset: 87556},
+																			pos: position{line: 2763, col: 9, offset: 87768},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2755, col: 9, offset: 87556},
+																					pos:        position{line: 2763, col: 9, offset: 87768},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2756, col: 9, offset: 87605},
+																					pos: position{line: 2764, col: 9, offset: 87817},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2760, col: 5, offset: 87685},
+																		pos: position{line: 2768, col: 5, offset: 87897},
 																		expr: &seqExpr{
-																			pos: position{line: 2761, col: 9, offset: 87696},
+																			pos: position{line: 2769, col: 9, offset: 87908},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2761, col: 9, offset: 87696},
+																					pos:        position{line: 2769, col: 9, offset: 87908},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2761, col: 13, offset: 87700},
+																					pos:        position{line: 2769, col: 13, offset: 87912},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -43933,12 +44161,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2856, col: 11, offset: 90300},
+															pos: position{line: 2864, col: 11, offset: 90512},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2856, col: 11, offset: 90300},
+																pos: position{line: 2864, col: 11, offset: 90512},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2856, col: 11, offset: 90300},
+																	pos:        position{line: 2864, col: 11, offset: 90512},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -43947,25 +44175,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2352, col: 15, offset: 76030},
+															pos:  position{line: 2360, col: 15, offset: 76242},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2480, col: 5, offset: 79941},
+															pos: position{line: 2488, col: 5, offset: 80153},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2480, col: 5, offset: 79941},
+																pos: position{line: 2488, col: 5, offset: 80153},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2480, col: 5, offset: 79941},
+																		pos:        position{line: 2488, col: 5, offset: 80153},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2480, col: 10, offset: 79946},
+																		pos: position{line: 2488, col: 10, offset: 80158},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2480, col: 11, offset: 79947},
+																			pos:        position{line: 2488, col: 11, offset: 80159},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -43976,29 +44204,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2486, col: 5, offset: 80139},
+															pos: position{line: 2494, col: 5, offset: 80351},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2486, col: 5, offset: 80139},
+																pos: position{line: 2494, col: 5, offset: 80351},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2486, col: 5, offset: 80139},
+																		pos: position{line: 2494, col: 5, offset: 80351},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2489, col: 5, offset: 80210},
+																		pos: position{line: 2497, col: 5, offset: 80422},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2493, col: 5, offset: 80335},
+																		pos:        position{line: 2501, col: 5, offset: 80547},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2493, col: 9, offset: 80339},
+																		pos: position{line: 2501, col: 9, offset: 80551},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2493, col: 10, offset: 80340},
+																			pos:        position{line: 2501, col: 10, offset: 80552},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44009,27 +44237,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2769, col: 5, offset: 87893},
+															pos: position{line: 2777, col: 5, offset: 88105},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2770, col: 9, offset: 87903},
+																pos: position{line: 2778, col: 9, offset: 88115},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2770, col: 10, offset: 87904},
+																		pos:        position{line: 2778, col: 10, offset: 88116},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2772, col: 13, offset: 88001},
+																		pos: position{line: 2780, col: 13, offset: 88213},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2772, col: 13, offset: 88001},
+																				pos: position{line: 2780, col: 13, offset: 88213},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2775, col: 13, offset: 88101},
+																				pos:        position{line: 2783, col: 13, offset: 88313},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -44037,20 +44265,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2775, col: 19, offset: 88107},
+																		pos:        position{line: 2783, col: 19, offset: 88319},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2778, col: 13, offset: 88145},
+																		pos: position{line: 2786, col: 13, offset: 88357},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2778, col: 13, offset: 88145},
+																				pos: position{line: 2786, col: 13, offset: 88357},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2781, col: 14, offset: 88238},
+																				pos:        position{line: 2789, col: 14, offset: 88450},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -44059,18 +44287,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2783, col: 12, offset: 88282},
+																		pos: position{line: 2791, col: 12, offset: 88494},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2783, col: 12, offset: 88282},
+																				pos:        position{line: 2791, col: 12, offset: 88494},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2783, col: 16, offset: 88286},
+																				pos: position{line: 2791, col: 16, offset: 88498},
 																				expr: &litMatcher{
-																					pos:        position{line: 2783, col: 17, offset: 88287},
+																					pos:        position{line: 2791, col: 17, offset: 88499},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -44082,25 +44310,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2861, col: 12, offset: 90410},
+															pos: position{line: 2869, col: 12, offset: 90622},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2861, col: 13, offset: 90411},
+																pos: position{line: 2869, col: 13, offset: 90623},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 13, offset: 90411},
+																		pos:        position{line: 2869, col: 13, offset: 90623},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 20, offset: 90418},
+																		pos:        position{line: 2869, col: 20, offset: 90630},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2861, col: 29, offset: 90427},
+																		pos:        position{line: 2869, col: 29, offset: 90639},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -44455,35 +44683,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2357, col: 15, offset: 76197},
+															pos:  position{line: 2365, col: 15, offset: 76409},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2358, col: 15, offset: 76217},
+															pos:  position{line: 2366, col: 15, offset: 76429},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2359, col: 15, offset: 76306},
+															pos:  position{line: 2367, col: 15, offset: 76518},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2449, col: 5, offset: 78770},
+															pos: position{line: 2457, col: 5, offset: 78982},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2449, col: 5, offset: 78770},
+																pos: position{line: 2457, col: 5, offset: 78982},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2449, col: 5, offset: 78770},
+																		pos: position{line: 2457, col: 5, offset: 78982},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2452, col: 5, offset: 78846},
+																		pos:   position{line: 2460, col: 5, offset: 79058},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2453, col: 9, offset: 78864},
+																			pos: position{line: 2461, col: 9, offset: 79076},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2453, col: 10, offset: 78865},
+																				pos:        position{line: 2461, col: 10, offset: 79077},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -44495,32 +44723,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1206, col: 5, offset: 37418},
+															pos: position{line: 1214, col: 5, offset: 37630},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 1206, col: 5, offset: 37418},
+																pos: position{line: 1214, col: 5, offset: 37630},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1206, col: 5, offset: 37418},
+																		pos: position{line: 1214, col: 5, offset: 37630},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1209, col: 5, offset: 37494},
+																		pos:        position{line: 1217, col: 5, offset: 37706},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1210, col: 5, offset: 37502},
+																		pos: position{line: 1218, col: 5, offset: 37714},
 																		run: (*parser).callonNormalGroup142,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1214, col: 5, offset: 37589},
+																		pos: position{line: 1222, col: 5, offset: 37801},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2860, col: 10, offset: 90451},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2860, col: 10, offset: 90451},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -44529,30 +44757,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1214, col: 12, offset: 37596},
+																		pos: position{line: 1222, col: 12, offset: 37808},
 																		expr: &choiceExpr{
-																			pos: position{line: 2874, col: 8, offset: 90637},
+																			pos: position{line: 2882, col: 8, offset: 90849},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2869, col: 12, offset: 90622},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2869, col: 13, offset: 90623},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2869, col: 13, offset: 90623},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2869, col: 20, offset: 90630},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2869, col: 29, offset: 90639},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -44561,9 +44789,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2871, col: 8, offset: 90587},
+																					pos: position{line: 2879, col: 8, offset: 90799},
 																					expr: &anyMatcher{
-																						line: 2871, col: 9, offset: 90588,
+																						line: 2879, col: 9, offset: 90800,
 																					},
 																				},
 																			},
@@ -44573,31 +44801,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2362, col: 15, offset: 76488},
+															pos:  position{line: 2370, col: 15, offset: 76700},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1198, col: 23, offset: 36972},
+															pos: position{line: 1206, col: 23, offset: 37184},
 															run: (*parser).callonNormalGroup156,
 															expr: &seqExpr{
-																pos: position{line: 1198, col: 23, offset: 36972},
+																pos: position{line: 1206, col: 23, offset: 37184},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36940},
+																		pos:        position{line: 1204, col: 32, offset: 37152},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1198, col: 51, offset: 37000},
+																		pos:   position{line: 1206, col: 51, offset: 37212},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1198, col: 56, offset: 37005},
+																			pos: position{line: 1206, col: 56, offset: 37217},
 																			run: (*parser).callonNormalGroup160,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1198, col: 56, offset: 37005},
+																				pos: position{line: 1206, col: 56, offset: 37217},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1198, col: 56, offset: 37005},
+																					pos:        position{line: 1206, col: 56, offset: 37217},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -44607,7 +44835,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1196, col: 32, offset: 36940},
+																		pos:        position{line: 1204, col: 32, offset: 37152},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -44616,10 +44844,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2791, col: 12, offset: 88547},
+															pos: position{line: 2799, col: 12, offset: 88759},
 															run: (*parser).callonNormalGroup164,
 															expr: &charClassMatcher{
-																pos:        position{line: 2791, col: 12, offset: 88547},
+																pos:        position{line: 2799, col: 12, offset: 88759},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -44635,9 +44863,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2879, col: 8, offset: 90799},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2879, col: 9, offset: 90800,
 							},
 						},
 					},
@@ -44646,28 +44874,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2373, col: 1, offset: 76926},
+			pos:  position{line: 2381, col: 1, offset: 77138},
 			expr: &actionExpr{
-				pos: position{line: 2374, col: 5, offset: 76959},
+				pos: position{line: 2382, col: 5, offset: 77171},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2374, col: 5, offset: 76959},
+					pos: position{line: 2382, col: 5, offset: 77171},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2374, col: 5, offset: 76959},
+							pos:   position{line: 2382, col: 5, offset: 77171},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2374, col: 14, offset: 76968},
+								pos: position{line: 2382, col: 14, offset: 77180},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2374, col: 15, offset: 76969},
+									pos:  position{line: 2382, col: 15, offset: 77181},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2879, col: 8, offset: 90799},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2879, col: 9, offset: 90800,
 							},
 						},
 					},
@@ -44676,41 +44904,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2378, col: 1, offset: 77066},
+			pos:  position{line: 2386, col: 1, offset: 77278},
 			expr: &actionExpr{
-				pos: position{line: 2379, col: 5, offset: 77106},
+				pos: position{line: 2387, col: 5, offset: 77318},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2379, col: 5, offset: 77106},
+					pos: position{line: 2387, col: 5, offset: 77318},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2869, col: 11, offset: 90573},
+							pos: position{line: 2877, col: 11, offset: 90785},
 							expr: &anyMatcher{
-								line: 2869, col: 13, offset: 90575,
+								line: 2877, col: 13, offset: 90787,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2380, col: 5, offset: 77117},
+							pos:   position{line: 2388, col: 5, offset: 77329},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2381, col: 9, offset: 77135},
+								pos: position{line: 2389, col: 9, offset: 77347},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2751, col: 5, offset: 87481},
+										pos: position{line: 2759, col: 5, offset: 87693},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2751, col: 5, offset: 87481},
+											pos: position{line: 2759, col: 5, offset: 87693},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2751, col: 5, offset: 87481},
+													pos:   position{line: 2759, col: 5, offset: 87693},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2751, col: 11, offset: 87487},
+														pos: position{line: 2759, col: 11, offset: 87699},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2751, col: 11, offset: 87487},
+															pos: position{line: 2759, col: 11, offset: 87699},
 															expr: &charClassMatcher{
-																pos:        position{line: 2751, col: 11, offset: 87487},
+																pos:        position{line: 2759, col: 11, offset: 87699},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44720,36 +44948,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2754, col: 5, offset: 87545},
+													pos: position{line: 2762, col: 5, offset: 87757},
 													expr: &seqExpr{
-														pos: position{line: 2755, col: 9, offset: 87556},
+														pos: position{line: 2763, col: 9, offset: 87768},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2755, col: 9, offset: 87556},
+																pos:        position{line: 2763, col: 9, offset: 87768},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2756, col: 9, offset: 87605},
+																pos: position{line: 2764, col: 9, offset: 87817},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2760, col: 5, offset: 87685},
+													pos: position{line: 2768, col: 5, offset: 87897},
 													expr: &seqExpr{
-														pos: position{line: 2761, col: 9, offset: 87696},
+														pos: position{line: 2769, col: 9, offset: 87908},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2761, col: 9, offset: 87696},
+																pos:        position{line: 2769, col: 9, offset: 87908},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2761, col: 13, offset: 87700},
+																pos:        position{line: 2769, col: 13, offset: 87912},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44762,10 +44990,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2852, col: 10, offset: 90239},
+										pos: position{line: 2860, col: 10, offset: 90451},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2852, col: 10, offset: 90239},
+											pos:        position{line: 2860, col: 10, offset: 90451},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -44773,31 +45001,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2383, col: 11, offset: 77173},
+										pos:  position{line: 2391, col: 11, offset: 77385},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2769, col: 5, offset: 87893},
+										pos: position{line: 2777, col: 5, offset: 88105},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2770, col: 9, offset: 87903},
+											pos: position{line: 2778, col: 9, offset: 88115},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2770, col: 10, offset: 87904},
+													pos:        position{line: 2778, col: 10, offset: 88116},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2772, col: 13, offset: 88001},
+													pos: position{line: 2780, col: 13, offset: 88213},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2772, col: 13, offset: 88001},
+															pos: position{line: 2780, col: 13, offset: 88213},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2775, col: 13, offset: 88101},
+															pos:        position{line: 2783, col: 13, offset: 88313},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -44805,20 +45033,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2775, col: 19, offset: 88107},
+													pos:        position{line: 2783, col: 19, offset: 88319},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2778, col: 13, offset: 88145},
+													pos: position{line: 2786, col: 13, offset: 88357},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2778, col: 13, offset: 88145},
+															pos: position{line: 2786, col: 13, offset: 88357},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2781, col: 14, offset: 88238},
+															pos:        position{line: 2789, col: 14, offset: 88450},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -44827,18 +45055,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2783, col: 12, offset: 88282},
+													pos: position{line: 2791, col: 12, offset: 88494},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2783, col: 12, offset: 88282},
+															pos:        position{line: 2791, col: 12, offset: 88494},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2783, col: 16, offset: 88286},
+															pos: position{line: 2791, col: 16, offset: 88498},
 															expr: &litMatcher{
-																pos:        position{line: 2783, col: 17, offset: 88287},
+																pos:        position{line: 2791, col: 17, offset: 88499},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -44850,31 +45078,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2385, col: 11, offset: 77246},
+										pos:  position{line: 2393, col: 11, offset: 77458},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2386, col: 11, offset: 77262},
+										pos:  position{line: 2394, col: 11, offset: 77474},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2449, col: 5, offset: 78770},
+										pos: position{line: 2457, col: 5, offset: 78982},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2449, col: 5, offset: 78770},
+											pos: position{line: 2457, col: 5, offset: 78982},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2449, col: 5, offset: 78770},
+													pos: position{line: 2457, col: 5, offset: 78982},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2452, col: 5, offset: 78846},
+													pos:   position{line: 2460, col: 5, offset: 79058},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2453, col: 9, offset: 78864},
+														pos: position{line: 2461, col: 9, offset: 79076},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2453, col: 10, offset: 78865},
+															pos:        position{line: 2461, col: 10, offset: 79077},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -44886,27 +45114,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1198, col: 23, offset: 36972},
+										pos: position{line: 1206, col: 23, offset: 37184},
 										run: (*parser).callonAttributeStructuredValueElement46,
 										expr: &seqExpr{
-											pos: position{line: 1198, col: 23, offset: 36972},
+											pos: position{line: 1206, col: 23, offset: 37184},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36940},
+													pos:        position{line: 1204, col: 32, offset: 37152},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1198, col: 51, offset: 37000},
+													pos:   position{line: 1206, col: 51, offset: 37212},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1198, col: 56, offset: 37005},
+														pos: position{line: 1206, col: 56, offset: 37217},
 														run: (*parser).callonAttributeStructuredValueElement50,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1198, col: 56, offset: 37005},
+															pos: position{line: 1206, col: 56, offset: 37217},
 															expr: &charClassMatcher{
-																pos:        position{line: 1198, col: 56, offset: 37005},
+																pos:        position{line: 1206, col: 56, offset: 37217},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -44916,7 +45144,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1196, col: 32, offset: 36940},
+													pos:        position{line: 1204, col: 32, offset: 37152},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -44925,25 +45153,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2861, col: 12, offset: 90410},
+										pos: position{line: 2869, col: 12, offset: 90622},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2861, col: 13, offset: 90411},
+											pos: position{line: 2869, col: 13, offset: 90623},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2861, col: 13, offset: 90411},
+													pos:        position{line: 2869, col: 13, offset: 90623},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 20, offset: 90418},
+													pos:        position{line: 2869, col: 20, offset: 90630},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2861, col: 29, offset: 90427},
+													pos:        position{line: 2869, col: 29, offset: 90639},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44952,10 +45180,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2791, col: 12, offset: 88547},
+										pos: position{line: 2799, col: 12, offset: 88759},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2791, col: 12, offset: 88547},
+											pos:        position{line: 2799, col: 12, offset: 88759},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -44971,73 +45199,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2397, col: 1, offset: 77532},
+			pos:  position{line: 2405, col: 1, offset: 77744},
 			expr: &actionExpr{
-				pos: position{line: 2399, col: 5, offset: 77614},
+				pos: position{line: 2407, col: 5, offset: 77826},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2399, col: 5, offset: 77614},
+					pos: position{line: 2407, col: 5, offset: 77826},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2399, col: 5, offset: 77614},
+							pos: position{line: 2407, col: 5, offset: 77826},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2402, col: 5, offset: 77679},
+							pos:   position{line: 2410, col: 5, offset: 77891},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2403, col: 9, offset: 77697},
+								pos: position{line: 2411, col: 9, offset: 77909},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2403, col: 9, offset: 77697},
+										pos:  position{line: 2411, col: 9, offset: 77909},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2404, col: 11, offset: 77718},
+										pos:  position{line: 2412, col: 11, offset: 77930},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2405, col: 11, offset: 77741},
+										pos:  position{line: 2413, col: 11, offset: 77953},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2406, col: 11, offset: 77757},
+										pos:  position{line: 2414, col: 11, offset: 77969},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2407, col: 11, offset: 77786},
+										pos:  position{line: 2415, col: 11, offset: 77998},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2408, col: 11, offset: 77812},
+										pos:  position{line: 2416, col: 11, offset: 78024},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2409, col: 11, offset: 77838},
+										pos:  position{line: 2417, col: 11, offset: 78050},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1253, col: 5, offset: 38732},
+										pos: position{line: 1261, col: 5, offset: 38944},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1253, col: 5, offset: 38732},
+											pos: position{line: 1261, col: 5, offset: 38944},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1253, col: 5, offset: 38732},
+													pos:        position{line: 1261, col: 5, offset: 38944},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1253, col: 14, offset: 38741},
+													pos:   position{line: 1261, col: 14, offset: 38953},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 7, offset: 89891},
+														pos: position{line: 2845, col: 7, offset: 90103},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2837, col: 7, offset: 89891},
+															pos: position{line: 2845, col: 7, offset: 90103},
 															expr: &charClassMatcher{
-																pos:        position{line: 2837, col: 7, offset: 89891},
+																pos:        position{line: 2845, col: 7, offset: 90103},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45047,7 +45275,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1253, col: 22, offset: 38749},
+													pos:        position{line: 1261, col: 22, offset: 38961},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45056,27 +45284,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1258, col: 5, offset: 38868},
+										pos: position{line: 1266, col: 5, offset: 39080},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1258, col: 5, offset: 38868},
+											pos: position{line: 1266, col: 5, offset: 39080},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1258, col: 5, offset: 38868},
+													pos:        position{line: 1266, col: 5, offset: 39080},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1258, col: 10, offset: 38873},
+													pos:   position{line: 1266, col: 10, offset: 39085},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2837, col: 7, offset: 89891},
+														pos: position{line: 2845, col: 7, offset: 90103},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2837, col: 7, offset: 89891},
+															pos: position{line: 2845, col: 7, offset: 90103},
 															expr: &charClassMatcher{
-																pos:        position{line: 2837, col: 7, offset: 89891},
+																pos:        position{line: 2845, col: 7, offset: 90103},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45086,7 +45314,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1258, col: 18, offset: 38881},
+													pos:        position{line: 1266, col: 18, offset: 39093},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45095,40 +45323,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1297, col: 23, offset: 40357},
+										pos: position{line: 1305, col: 23, offset: 40569},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1297, col: 23, offset: 40357},
+											pos: position{line: 1305, col: 23, offset: 40569},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1297, col: 23, offset: 40357},
+													pos:        position{line: 1305, col: 23, offset: 40569},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1297, col: 29, offset: 40363},
+													pos:   position{line: 1305, col: 29, offset: 40575},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1304, col: 30, offset: 40694},
+														pos: position{line: 1312, col: 30, offset: 40906},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1304, col: 30, offset: 40694},
+															pos: position{line: 1312, col: 30, offset: 40906},
 															expr: &choiceExpr{
-																pos: position{line: 1304, col: 31, offset: 40695},
+																pos: position{line: 1312, col: 31, offset: 40907},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2742, col: 13, offset: 87334},
+																		pos:        position{line: 2750, col: 13, offset: 87546},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2852, col: 10, offset: 90239},
+																		pos: position{line: 2860, col: 10, offset: 90451},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2852, col: 10, offset: 90239},
+																			pos:        position{line: 2860, col: 10, offset: 90451},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -45141,23 +45369,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1298, col: 5, offset: 40402},
+													pos:   position{line: 1306, col: 5, offset: 40614},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1298, col: 11, offset: 40408},
+														pos: position{line: 1306, col: 11, offset: 40620},
 														expr: &actionExpr{
-															pos: position{line: 1298, col: 12, offset: 40409},
+															pos: position{line: 1306, col: 12, offset: 40621},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1298, col: 12, offset: 40409},
+																pos: position{line: 1306, col: 12, offset: 40621},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1298, col: 12, offset: 40409},
+																		pos: position{line: 1306, col: 12, offset: 40621},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2860, col: 10, offset: 90451},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2860, col: 10, offset: 90451},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45166,18 +45394,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1298, col: 19, offset: 40416},
+																		pos:        position{line: 1306, col: 19, offset: 40628},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1298, col: 23, offset: 40420},
+																		pos: position{line: 1306, col: 23, offset: 40632},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2860, col: 10, offset: 90451},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2860, col: 10, offset: 90451},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45186,28 +45414,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1298, col: 30, offset: 40427},
+																		pos:   position{line: 1306, col: 30, offset: 40639},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1304, col: 30, offset: 40694},
+																			pos: position{line: 1312, col: 30, offset: 40906},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1304, col: 30, offset: 40694},
+																				pos: position{line: 1312, col: 30, offset: 40906},
 																				expr: &choiceExpr{
-																					pos: position{line: 1304, col: 31, offset: 40695},
+																					pos: position{line: 1312, col: 31, offset: 40907},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2742, col: 13, offset: 87334},
+																							pos:        position{line: 2750, col: 13, offset: 87546},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2860, col: 10, offset: 90451},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2860, col: 10, offset: 90451},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45225,23 +45453,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1299, col: 5, offset: 40494},
+													pos:   position{line: 1307, col: 5, offset: 40706},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1299, col: 11, offset: 40500},
+														pos: position{line: 1307, col: 11, offset: 40712},
 														expr: &actionExpr{
-															pos: position{line: 1299, col: 12, offset: 40501},
+															pos: position{line: 1307, col: 12, offset: 40713},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1299, col: 12, offset: 40501},
+																pos: position{line: 1307, col: 12, offset: 40713},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1299, col: 12, offset: 40501},
+																		pos: position{line: 1307, col: 12, offset: 40713},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2860, col: 10, offset: 90451},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2860, col: 10, offset: 90451},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45250,18 +45478,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1299, col: 19, offset: 40508},
+																		pos:        position{line: 1307, col: 19, offset: 40720},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1299, col: 23, offset: 40512},
+																		pos: position{line: 1307, col: 23, offset: 40724},
 																		expr: &actionExpr{
-																			pos: position{line: 2852, col: 10, offset: 90239},
+																			pos: position{line: 2860, col: 10, offset: 90451},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 10, offset: 90239},
+																				pos:        position{line: 2860, col: 10, offset: 90451},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45270,28 +45498,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1299, col: 30, offset: 40519},
+																		pos:   position{line: 1307, col: 30, offset: 40731},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1304, col: 30, offset: 40694},
+																			pos: position{line: 1312, col: 30, offset: 40906},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1304, col: 30, offset: 40694},
+																				pos: position{line: 1312, col: 30, offset: 40906},
 																				expr: &choiceExpr{
-																					pos: position{line: 1304, col: 31, offset: 40695},
+																					pos: position{line: 1312, col: 31, offset: 40907},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2742, col: 13, offset: 87334},
+																							pos:        position{line: 2750, col: 13, offset: 87546},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2852, col: 10, offset: 90239},
+																							pos: position{line: 2860, col: 10, offset: 90451},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 10, offset: 90239},
+																								pos:        position{line: 2860, col: 10, offset: 90451},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45309,7 +45537,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1300, col: 5, offset: 40586},
+													pos:        position{line: 1308, col: 5, offset: 40798},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -45318,15 +45546,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2412, col: 11, offset: 77917},
+										pos:  position{line: 2420, col: 11, offset: 78129},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2413, col: 11, offset: 77937},
+										pos:  position{line: 2421, col: 11, offset: 78149},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2414, col: 11, offset: 77960},
+										pos:  position{line: 2422, col: 11, offset: 78172},
 										name: "InlineMenu",
 									},
 								},
@@ -45338,80 +45566,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2418, col: 1, offset: 78017},
+			pos:  position{line: 2426, col: 1, offset: 78229},
 			expr: &actionExpr{
-				pos: position{line: 2420, col: 5, offset: 78105},
+				pos: position{line: 2428, col: 5, offset: 78317},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2420, col: 5, offset: 78105},
+					pos: position{line: 2428, col: 5, offset: 78317},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2420, col: 5, offset: 78105},
+							pos: position{line: 2428, col: 5, offset: 78317},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2423, col: 5, offset: 78182},
+							pos:   position{line: 2431, col: 5, offset: 78394},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2424, col: 9, offset: 78200},
+								pos: position{line: 2432, col: 9, offset: 78412},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1379, col: 26, offset: 43964},
+										pos: position{line: 1387, col: 26, offset: 44176},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1379, col: 26, offset: 43964},
+											pos: position{line: 1387, col: 26, offset: 44176},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1377, col: 32, offset: 43932},
+													pos:        position{line: 1385, col: 32, offset: 44144},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1379, col: 54, offset: 43992},
+													pos:   position{line: 1387, col: 54, offset: 44204},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1383, col: 33, offset: 44205},
+														pos: position{line: 1391, col: 33, offset: 44417},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1383, col: 34, offset: 44206},
+																pos: position{line: 1391, col: 34, offset: 44418},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1383, col: 34, offset: 44206},
+																	pos: position{line: 1391, col: 34, offset: 44418},
 																	expr: &seqExpr{
-																		pos: position{line: 1383, col: 35, offset: 44207},
+																		pos: position{line: 1391, col: 35, offset: 44419},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1383, col: 35, offset: 44207},
+																				pos: position{line: 1391, col: 35, offset: 44419},
 																				expr: &litMatcher{
-																					pos:        position{line: 1377, col: 32, offset: 43932},
+																					pos:        position{line: 1385, col: 32, offset: 44144},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1383, col: 64, offset: 44236,
+																				line: 1391, col: 64, offset: 44448,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1385, col: 11, offset: 44409},
+																pos: position{line: 1393, col: 11, offset: 44621},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1385, col: 11, offset: 44409},
+																	pos: position{line: 1393, col: 11, offset: 44621},
 																	expr: &seqExpr{
-																		pos: position{line: 1385, col: 12, offset: 44410},
+																		pos: position{line: 1393, col: 12, offset: 44622},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1385, col: 12, offset: 44410},
+																				pos: position{line: 1393, col: 12, offset: 44622},
 																				expr: &actionExpr{
-																					pos: position{line: 2852, col: 10, offset: 90239},
+																					pos: position{line: 2860, col: 10, offset: 90451},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 10, offset: 90239},
+																						pos:        position{line: 2860, col: 10, offset: 90451},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -45420,27 +45648,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1385, col: 19, offset: 44417},
+																				pos: position{line: 1393, col: 19, offset: 44629},
 																				expr: &actionExpr{
-																					pos: position{line: 2861, col: 12, offset: 90410},
+																					pos: position{line: 2869, col: 12, offset: 90622},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2861, col: 13, offset: 90411},
+																						pos: position{line: 2869, col: 13, offset: 90623},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 13, offset: 90411},
+																								pos:        position{line: 2869, col: 13, offset: 90623},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 20, offset: 90418},
+																								pos:        position{line: 2869, col: 20, offset: 90630},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2861, col: 29, offset: 90427},
+																								pos:        position{line: 2869, col: 29, offset: 90639},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45450,16 +45678,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1385, col: 28, offset: 44426},
+																				pos: position{line: 1393, col: 28, offset: 44638},
 																				expr: &litMatcher{
-																					pos:        position{line: 1377, col: 32, offset: 43932},
+																					pos:        position{line: 1385, col: 32, offset: 44144},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1385, col: 57, offset: 44455,
+																				line: 1393, col: 57, offset: 44667,
 																			},
 																		},
 																	},
@@ -45469,15 +45697,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1377, col: 32, offset: 43932},
+													pos:        position{line: 1385, col: 32, offset: 44144},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1379, col: 121, offset: 44059},
+													pos: position{line: 1387, col: 121, offset: 44271},
 													expr: &charClassMatcher{
-														pos:        position{line: 2742, col: 13, offset: 87334},
+														pos:        position{line: 2750, col: 13, offset: 87546},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -45488,45 +45716,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1367, col: 26, offset: 43247},
+										pos: position{line: 1375, col: 26, offset: 43459},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1367, col: 26, offset: 43247},
+											pos: position{line: 1375, col: 26, offset: 43459},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1365, col: 32, offset: 43217},
+													pos:        position{line: 1373, col: 32, offset: 43429},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1367, col: 54, offset: 43275},
+													pos:   position{line: 1375, col: 54, offset: 43487},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1371, col: 33, offset: 43488},
+														pos: position{line: 1379, col: 33, offset: 43700},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1371, col: 34, offset: 43489},
+																pos: position{line: 1379, col: 34, offset: 43701},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1371, col: 34, offset: 43489},
+																	pos: position{line: 1379, col: 34, offset: 43701},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1371, col: 35, offset: 43490},
+																			pos: position{line: 1379, col: 35, offset: 43702},
 																			expr: &litMatcher{
-																				pos:        position{line: 1365, col: 32, offset: 43217},
+																				pos:        position{line: 1373, col: 32, offset: 43429},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1371, col: 64, offset: 43519},
+																			pos: position{line: 1379, col: 64, offset: 43731},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2860, col: 10, offset: 90451},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2860, col: 10, offset: 90451},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -45535,27 +45763,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1371, col: 71, offset: 43526},
+																			pos: position{line: 1379, col: 71, offset: 43738},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2869, col: 12, offset: 90622},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2869, col: 13, offset: 90623},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2869, col: 13, offset: 90623},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2869, col: 20, offset: 90630},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2869, col: 29, offset: 90639},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -45565,25 +45793,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1371, col: 80, offset: 43535,
+																			line: 1379, col: 80, offset: 43747,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1371, col: 83, offset: 43538},
+																			pos: position{line: 1379, col: 83, offset: 43750},
 																			expr: &seqExpr{
-																				pos: position{line: 1371, col: 84, offset: 43539},
+																				pos: position{line: 1379, col: 84, offset: 43751},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1371, col: 84, offset: 43539},
+																						pos: position{line: 1379, col: 84, offset: 43751},
 																						expr: &seqExpr{
-																							pos: position{line: 1371, col: 86, offset: 43541},
+																							pos: position{line: 1379, col: 86, offset: 43753},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2856, col: 11, offset: 90300},
+																									pos: position{line: 2864, col: 11, offset: 90512},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2856, col: 11, offset: 90300},
+																										pos: position{line: 2864, col: 11, offset: 90512},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2856, col: 11, offset: 90300},
+																											pos:        position{line: 2864, col: 11, offset: 90512},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -45592,7 +45820,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1365, col: 32, offset: 43217},
+																									pos:        position{line: 1373, col: 32, offset: 43429},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -45601,36 +45829,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1371, col: 122, offset: 43577},
+																						pos: position{line: 1379, col: 122, offset: 43789},
 																						expr: &litMatcher{
-																							pos:        position{line: 1365, col: 32, offset: 43217},
+																							pos:        position{line: 1373, col: 32, offset: 43429},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1371, col: 151, offset: 43606},
+																						pos: position{line: 1379, col: 151, offset: 43818},
 																						expr: &actionExpr{
-																							pos: position{line: 2861, col: 12, offset: 90410},
+																							pos: position{line: 2869, col: 12, offset: 90622},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2861, col: 13, offset: 90411},
+																								pos: position{line: 2869, col: 13, offset: 90623},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 13, offset: 90411},
+																										pos:        position{line: 2869, col: 13, offset: 90623},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 20, offset: 90418},
+																										pos:        position{line: 2869, col: 20, offset: 90630},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2861, col: 29, offset: 90427},
+																										pos:        position{line: 2869, col: 29, offset: 90639},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -45640,7 +45868,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1371, col: 160, offset: 43615,
+																						line: 1379, col: 160, offset: 43827,
 																					},
 																				},
 																			},
@@ -45649,18 +45877,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1373, col: 11, offset: 43765},
+																pos: position{line: 1381, col: 11, offset: 43977},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1373, col: 12, offset: 43766},
+																	pos: position{line: 1381, col: 12, offset: 43978},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1373, col: 12, offset: 43766},
+																			pos: position{line: 1381, col: 12, offset: 43978},
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 10, offset: 90239},
+																				pos: position{line: 2860, col: 10, offset: 90451},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2852, col: 10, offset: 90239},
+																					pos:        position{line: 2860, col: 10, offset: 90451},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -45669,27 +45897,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1373, col: 19, offset: 43773},
+																			pos: position{line: 1381, col: 19, offset: 43985},
 																			expr: &actionExpr{
-																				pos: position{line: 2861, col: 12, offset: 90410},
+																				pos: position{line: 2869, col: 12, offset: 90622},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2861, col: 13, offset: 90411},
+																					pos: position{line: 2869, col: 13, offset: 90623},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 13, offset: 90411},
+																							pos:        position{line: 2869, col: 13, offset: 90623},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 20, offset: 90418},
+																							pos:        position{line: 2869, col: 20, offset: 90630},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2861, col: 29, offset: 90427},
+																							pos:        position{line: 2869, col: 29, offset: 90639},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -45699,16 +45927,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1373, col: 28, offset: 43782},
+																			pos: position{line: 1381, col: 28, offset: 43994},
 																			expr: &litMatcher{
-																				pos:        position{line: 1365, col: 32, offset: 43217},
+																				pos:        position{line: 1373, col: 32, offset: 43429},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1373, col: 57, offset: 43811,
+																			line: 1381, col: 57, offset: 44023,
 																		},
 																	},
 																},
@@ -45717,15 +45945,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1365, col: 32, offset: 43217},
+													pos:        position{line: 1373, col: 32, offset: 43429},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1367, col: 121, offset: 43342},
+													pos: position{line: 1375, col: 121, offset: 43554},
 													expr: &charClassMatcher{
-														pos:        position{line: 2742, col: 13, offset: 87334},
+														pos:        position{line: 2750, col: 13, offset: 87546},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -45736,7 +45964,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 57, offset: 78248},
+										pos:  position{line: 2432, col: 57, offset: 78460},
 										name: "PassthroughMacro",
 									},
 								},
@@ -45748,16 +45976,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2429, col: 1, offset: 78308},
+			pos:  position{line: 2437, col: 1, offset: 78520},
 			expr: &seqExpr{
-				pos: position{line: 2431, col: 5, offset: 78384},
+				pos: position{line: 2439, col: 5, offset: 78596},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2431, col: 5, offset: 78384},
+						pos: position{line: 2439, col: 5, offset: 78596},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2434, col: 5, offset: 78449},
+						pos:  position{line: 2442, col: 5, offset: 78661},
 						name: "QuotedText",
 					},
 				},
@@ -45765,22 +45993,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2436, col: 1, offset: 78462},
+			pos:  position{line: 2444, col: 1, offset: 78674},
 			expr: &actionExpr{
-				pos: position{line: 2438, col: 5, offset: 78544},
+				pos: position{line: 2446, col: 5, offset: 78756},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2438, col: 5, offset: 78544},
+					pos: position{line: 2446, col: 5, offset: 78756},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2438, col: 5, offset: 78544},
+							pos: position{line: 2446, col: 5, offset: 78756},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2441, col: 5, offset: 78615},
+							pos:   position{line: 2449, col: 5, offset: 78827},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2442, col: 9, offset: 78633},
+								pos:  position{line: 2450, col: 9, offset: 78845},
 								name: "Symbol",
 							},
 						},
@@ -45790,103 +46018,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2497, col: 1, offset: 80392},
+			pos:  position{line: 2505, col: 1, offset: 80604},
 			expr: &choiceExpr{
-				pos: position{line: 2499, col: 5, offset: 80422},
+				pos: position{line: 2507, col: 5, offset: 80634},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2499, col: 5, offset: 80422},
+						pos: position{line: 2507, col: 5, offset: 80634},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2499, col: 5, offset: 80422},
+							pos: position{line: 2507, col: 5, offset: 80634},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2499, col: 5, offset: 80422},
+									pos:        position{line: 2507, col: 5, offset: 80634},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2499, col: 10, offset: 80427},
+									pos: position{line: 2507, col: 10, offset: 80639},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2499, col: 10, offset: 80427},
+											pos:  position{line: 2507, col: 10, offset: 80639},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2528, col: 14, offset: 81531},
+											pos: position{line: 2536, col: 14, offset: 81743},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2528, col: 14, offset: 81531},
+												pos:        position{line: 2536, col: 14, offset: 81743},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2532, col: 14, offset: 81597},
+											pos: position{line: 2540, col: 14, offset: 81809},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2532, col: 14, offset: 81597},
+												pos:        position{line: 2540, col: 14, offset: 81809},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2536, col: 15, offset: 81666},
+											pos: position{line: 2544, col: 15, offset: 81878},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2536, col: 15, offset: 81666},
+												pos:        position{line: 2544, col: 15, offset: 81878},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2540, col: 13, offset: 81731},
+											pos: position{line: 2548, col: 13, offset: 81943},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2540, col: 13, offset: 81731},
+												pos:        position{line: 2548, col: 13, offset: 81943},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2568, col: 21, offset: 82301},
+											pos: position{line: 2576, col: 21, offset: 82513},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2568, col: 21, offset: 82301},
+												pos:        position{line: 2576, col: 21, offset: 82513},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2547, col: 5, offset: 81887},
+											pos: position{line: 2555, col: 5, offset: 82099},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2547, col: 5, offset: 81887},
+												pos: position{line: 2555, col: 5, offset: 82099},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2547, col: 5, offset: 81887},
+														pos:        position{line: 2555, col: 5, offset: 82099},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2548, col: 5, offset: 81897},
+														pos: position{line: 2556, col: 5, offset: 82109},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2552, col: 6, offset: 81984},
+														pos: position{line: 2560, col: 6, offset: 82196},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2852, col: 10, offset: 90239},
+																pos: position{line: 2860, col: 10, offset: 90451},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2852, col: 10, offset: 90239},
+																	pos:        position{line: 2860, col: 10, offset: 90451},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45894,30 +46122,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2552, col: 14, offset: 81992},
+																pos: position{line: 2560, col: 14, offset: 82204},
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 8, offset: 90637},
+																	pos: position{line: 2882, col: 8, offset: 90849},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 12, offset: 90410},
+																			pos: position{line: 2869, col: 12, offset: 90622},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2861, col: 13, offset: 90411},
+																				pos: position{line: 2869, col: 13, offset: 90623},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 13, offset: 90411},
+																						pos:        position{line: 2869, col: 13, offset: 90623},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 20, offset: 90418},
+																						pos:        position{line: 2869, col: 20, offset: 90630},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2861, col: 29, offset: 90427},
+																						pos:        position{line: 2869, col: 29, offset: 90639},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -45926,9 +46154,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2871, col: 8, offset: 90587},
+																			pos: position{line: 2879, col: 8, offset: 90799},
 																			expr: &anyMatcher{
-																				line: 2871, col: 9, offset: 90588,
+																				line: 2879, col: 9, offset: 90800,
 																			},
 																		},
 																	},
@@ -45940,53 +46168,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2557, col: 5, offset: 82112},
+											pos: position{line: 2565, col: 5, offset: 82324},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2557, col: 5, offset: 82112},
+												pos: position{line: 2565, col: 5, offset: 82324},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2557, col: 5, offset: 82112},
+														pos:        position{line: 2565, col: 5, offset: 82324},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2558, col: 5, offset: 82122},
+														pos: position{line: 2566, col: 5, offset: 82334},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2562, col: 5, offset: 82211},
+														pos: position{line: 2570, col: 5, offset: 82423},
 														expr: &choiceExpr{
-															pos: position{line: 2562, col: 7, offset: 82213},
+															pos: position{line: 2570, col: 7, offset: 82425},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2742, col: 13, offset: 87334},
+																	pos:        position{line: 2750, col: 13, offset: 87546},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2861, col: 12, offset: 90410},
+																	pos: position{line: 2869, col: 12, offset: 90622},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2861, col: 13, offset: 90411},
+																		pos: position{line: 2869, col: 13, offset: 90623},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 13, offset: 90411},
+																				pos:        position{line: 2869, col: 13, offset: 90623},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 20, offset: 90418},
+																				pos:        position{line: 2869, col: 20, offset: 90630},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2861, col: 29, offset: 90427},
+																				pos:        position{line: 2869, col: 29, offset: 90639},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -45995,9 +46223,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2879, col: 8, offset: 90799},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2879, col: 9, offset: 90800,
 																	},
 																},
 															},
@@ -46007,30 +46235,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2572, col: 20, offset: 82371},
+											pos: position{line: 2580, col: 20, offset: 82583},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2572, col: 20, offset: 82371},
+												pos:        position{line: 2580, col: 20, offset: 82583},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2576, col: 21, offset: 82442},
+											pos: position{line: 2584, col: 21, offset: 82654},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2576, col: 21, offset: 82442},
+												pos:        position{line: 2584, col: 21, offset: 82654},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2580, col: 20, offset: 82512},
+											pos: position{line: 2588, col: 20, offset: 82724},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2580, col: 20, offset: 82512},
+												pos:        position{line: 2588, col: 20, offset: 82724},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -46042,73 +46270,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2503, col: 7, offset: 80682},
+						pos:  position{line: 2511, col: 7, offset: 80894},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2528, col: 14, offset: 81531},
+						pos: position{line: 2536, col: 14, offset: 81743},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2528, col: 14, offset: 81531},
+							pos:        position{line: 2536, col: 14, offset: 81743},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2532, col: 14, offset: 81597},
+						pos: position{line: 2540, col: 14, offset: 81809},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2532, col: 14, offset: 81597},
+							pos:        position{line: 2540, col: 14, offset: 81809},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2536, col: 15, offset: 81666},
+						pos: position{line: 2544, col: 15, offset: 81878},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2536, col: 15, offset: 81666},
+							pos:        position{line: 2544, col: 15, offset: 81878},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2540, col: 13, offset: 81731},
+						pos: position{line: 2548, col: 13, offset: 81943},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2540, col: 13, offset: 81731},
+							pos:        position{line: 2548, col: 13, offset: 81943},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2547, col: 5, offset: 81887},
+						pos: position{line: 2555, col: 5, offset: 82099},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2547, col: 5, offset: 81887},
+							pos: position{line: 2555, col: 5, offset: 82099},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2547, col: 5, offset: 81887},
+									pos:        position{line: 2555, col: 5, offset: 82099},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2548, col: 5, offset: 81897},
+									pos: position{line: 2556, col: 5, offset: 82109},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2552, col: 6, offset: 81984},
+									pos: position{line: 2560, col: 6, offset: 82196},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2852, col: 10, offset: 90239},
+											pos: position{line: 2860, col: 10, offset: 90451},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2852, col: 10, offset: 90239},
+												pos:        position{line: 2860, col: 10, offset: 90451},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46116,30 +46344,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2552, col: 14, offset: 81992},
+											pos: position{line: 2560, col: 14, offset: 82204},
 											expr: &choiceExpr{
-												pos: position{line: 2874, col: 8, offset: 90637},
+												pos: position{line: 2882, col: 8, offset: 90849},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2861, col: 12, offset: 90410},
+														pos: position{line: 2869, col: 12, offset: 90622},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 13, offset: 90411},
+															pos: position{line: 2869, col: 13, offset: 90623},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2861, col: 13, offset: 90411},
+																	pos:        position{line: 2869, col: 13, offset: 90623},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 20, offset: 90418},
+																	pos:        position{line: 2869, col: 20, offset: 90630},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2861, col: 29, offset: 90427},
+																	pos:        position{line: 2869, col: 29, offset: 90639},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -46148,9 +46376,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2871, col: 8, offset: 90587},
+														pos: position{line: 2879, col: 8, offset: 90799},
 														expr: &anyMatcher{
-															line: 2871, col: 9, offset: 90588,
+															line: 2879, col: 9, offset: 90800,
 														},
 													},
 												},
@@ -46162,53 +46390,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2557, col: 5, offset: 82112},
+						pos: position{line: 2565, col: 5, offset: 82324},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2557, col: 5, offset: 82112},
+							pos: position{line: 2565, col: 5, offset: 82324},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2557, col: 5, offset: 82112},
+									pos:        position{line: 2565, col: 5, offset: 82324},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2558, col: 5, offset: 82122},
+									pos: position{line: 2566, col: 5, offset: 82334},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2562, col: 5, offset: 82211},
+									pos: position{line: 2570, col: 5, offset: 82423},
 									expr: &choiceExpr{
-										pos: position{line: 2562, col: 7, offset: 82213},
+										pos: position{line: 2570, col: 7, offset: 82425},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2742, col: 13, offset: 87334},
+												pos:        position{line: 2750, col: 13, offset: 87546},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2861, col: 12, offset: 90410},
+												pos: position{line: 2869, col: 12, offset: 90622},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2861, col: 13, offset: 90411},
+													pos: position{line: 2869, col: 13, offset: 90623},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2861, col: 13, offset: 90411},
+															pos:        position{line: 2869, col: 13, offset: 90623},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 20, offset: 90418},
+															pos:        position{line: 2869, col: 20, offset: 90630},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2861, col: 29, offset: 90427},
+															pos:        position{line: 2869, col: 29, offset: 90639},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -46217,9 +46445,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2871, col: 8, offset: 90587},
+												pos: position{line: 2879, col: 8, offset: 90799},
 												expr: &anyMatcher{
-													line: 2871, col: 9, offset: 90588,
+													line: 2879, col: 9, offset: 90800,
 												},
 											},
 										},
@@ -46229,40 +46457,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2568, col: 21, offset: 82301},
+						pos: position{line: 2576, col: 21, offset: 82513},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2568, col: 21, offset: 82301},
+							pos:        position{line: 2576, col: 21, offset: 82513},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2572, col: 20, offset: 82371},
+						pos: position{line: 2580, col: 20, offset: 82583},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2572, col: 20, offset: 82371},
+							pos:        position{line: 2580, col: 20, offset: 82583},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2576, col: 21, offset: 82442},
+						pos: position{line: 2584, col: 21, offset: 82654},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2576, col: 21, offset: 82442},
+							pos:        position{line: 2584, col: 21, offset: 82654},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2580, col: 20, offset: 82512},
+						pos: position{line: 2588, col: 20, offset: 82724},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2580, col: 20, offset: 82512},
+							pos:        position{line: 2588, col: 20, offset: 82724},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -46273,43 +46501,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2514, col: 1, offset: 80872},
+			pos:  position{line: 2522, col: 1, offset: 81084},
 			expr: &choiceExpr{
-				pos: position{line: 2515, col: 5, offset: 80894},
+				pos: position{line: 2523, col: 5, offset: 81106},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2515, col: 5, offset: 80894},
+						pos: position{line: 2523, col: 5, offset: 81106},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2515, col: 5, offset: 80894},
+							pos: position{line: 2523, col: 5, offset: 81106},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2515, col: 5, offset: 80894},
+									pos:        position{line: 2523, col: 5, offset: 81106},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2515, col: 11, offset: 80900},
+									pos: position{line: 2523, col: 11, offset: 81112},
 									expr: &seqExpr{
-										pos: position{line: 2078, col: 5, offset: 67104},
+										pos: position{line: 2086, col: 5, offset: 67316},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2078, col: 5, offset: 67104},
+												pos:        position{line: 2086, col: 5, offset: 67316},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2079, col: 5, offset: 67113},
+												pos: position{line: 2087, col: 5, offset: 67325},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2083, col: 5, offset: 67236},
+												pos: position{line: 2091, col: 5, offset: 67448},
 												expr: &notExpr{
-													pos: position{line: 2083, col: 7, offset: 67238},
+													pos: position{line: 2091, col: 7, offset: 67450},
 													expr: &litMatcher{
-														pos:        position{line: 2083, col: 8, offset: 67239},
+														pos:        position{line: 2091, col: 8, offset: 67451},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -46323,21 +46551,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2518, col: 7, offset: 81053},
+						pos: position{line: 2526, col: 7, offset: 81265},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2518, col: 7, offset: 81053},
+							pos: position{line: 2526, col: 7, offset: 81265},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2518, col: 7, offset: 81053},
+									pos:        position{line: 2526, col: 7, offset: 81265},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2518, col: 13, offset: 81059},
+									pos: position{line: 2526, col: 13, offset: 81271},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2518, col: 14, offset: 81060},
+										pos:  position{line: 2526, col: 14, offset: 81272},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46345,38 +46573,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2521, col: 7, offset: 81210},
+						pos: position{line: 2529, col: 7, offset: 81422},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2521, col: 7, offset: 81210},
+							pos: position{line: 2529, col: 7, offset: 81422},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2521, col: 7, offset: 81210},
+									pos:        position{line: 2529, col: 7, offset: 81422},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2521, col: 12, offset: 81215},
+									pos: position{line: 2529, col: 12, offset: 81427},
 									expr: &seqExpr{
-										pos: position{line: 2078, col: 5, offset: 67104},
+										pos: position{line: 2086, col: 5, offset: 67316},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2078, col: 5, offset: 67104},
+												pos:        position{line: 2086, col: 5, offset: 67316},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2079, col: 5, offset: 67113},
+												pos: position{line: 2087, col: 5, offset: 67325},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2083, col: 5, offset: 67236},
+												pos: position{line: 2091, col: 5, offset: 67448},
 												expr: &notExpr{
-													pos: position{line: 2083, col: 7, offset: 67238},
+													pos: position{line: 2091, col: 7, offset: 67450},
 													expr: &litMatcher{
-														pos:        position{line: 2083, col: 8, offset: 67239},
+														pos:        position{line: 2091, col: 8, offset: 67451},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -46390,21 +46618,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2524, col: 7, offset: 81368},
+						pos: position{line: 2532, col: 7, offset: 81580},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2524, col: 7, offset: 81368},
+							pos: position{line: 2532, col: 7, offset: 81580},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2524, col: 7, offset: 81368},
+									pos:        position{line: 2532, col: 7, offset: 81580},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2524, col: 12, offset: 81373},
+									pos: position{line: 2532, col: 12, offset: 81585},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2524, col: 13, offset: 81374},
+										pos:  position{line: 2532, col: 13, offset: 81586},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46416,63 +46644,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2657, col: 1, offset: 84414},
+			pos:  position{line: 2665, col: 1, offset: 84626},
 			expr: &actionExpr{
-				pos: position{line: 2657, col: 26, offset: 84439},
+				pos: position{line: 2665, col: 26, offset: 84651},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2657, col: 26, offset: 84439},
+					pos: position{line: 2665, col: 26, offset: 84651},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2657, col: 26, offset: 84439},
+							pos:   position{line: 2665, col: 26, offset: 84651},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2657, col: 31, offset: 84444},
+								pos: position{line: 2665, col: 31, offset: 84656},
 								expr: &actionExpr{
-									pos: position{line: 2662, col: 5, offset: 84507},
+									pos: position{line: 2670, col: 5, offset: 84719},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2662, col: 5, offset: 84507},
+										pos: position{line: 2670, col: 5, offset: 84719},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2869, col: 11, offset: 90573},
+												pos: position{line: 2877, col: 11, offset: 90785},
 												expr: &anyMatcher{
-													line: 2869, col: 13, offset: 90575,
+													line: 2877, col: 13, offset: 90787,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2665, col: 5, offset: 84633},
+												pos:   position{line: 2673, col: 5, offset: 84845},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2665, col: 16, offset: 84644},
+													pos: position{line: 2673, col: 16, offset: 84856},
 													expr: &actionExpr{
-														pos: position{line: 2665, col: 17, offset: 84645},
+														pos: position{line: 2673, col: 17, offset: 84857},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2665, col: 17, offset: 84645},
+															pos: position{line: 2673, col: 17, offset: 84857},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2665, col: 17, offset: 84645},
+																	pos:   position{line: 2673, col: 17, offset: 84857},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2844, col: 12, offset: 90066},
+																		pos: position{line: 2852, col: 12, offset: 90278},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2852, col: 13, offset: 90279},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2844, col: 13, offset: 90067},
+																					pos: position{line: 2852, col: 13, offset: 90279},
 																					expr: &litMatcher{
-																						pos:        position{line: 2844, col: 13, offset: 90067},
+																						pos:        position{line: 2852, col: 13, offset: 90279},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2844, col: 18, offset: 90072},
+																					pos: position{line: 2852, col: 18, offset: 90284},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2844, col: 18, offset: 90072},
+																						pos:        position{line: 2852, col: 18, offset: 90284},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -46484,7 +46712,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2665, col: 27, offset: 84655},
+																	pos:        position{line: 2673, col: 27, offset: 84867},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -46495,38 +46723,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2666, col: 5, offset: 84683},
+												pos:   position{line: 2674, col: 5, offset: 84895},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2666, col: 12, offset: 84690},
+													pos: position{line: 2674, col: 12, offset: 84902},
 													expr: &choiceExpr{
-														pos: position{line: 2667, col: 9, offset: 84700},
+														pos: position{line: 2675, col: 9, offset: 84912},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2667, col: 9, offset: 84700},
+																pos: position{line: 2675, col: 9, offset: 84912},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2667, col: 9, offset: 84700},
+																	pos:        position{line: 2675, col: 9, offset: 84912},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2668, col: 11, offset: 84747},
+																pos: position{line: 2676, col: 11, offset: 84959},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2668, col: 11, offset: 84747},
+																	pos:        position{line: 2676, col: 11, offset: 84959},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2669, col: 11, offset: 84795},
+																pos: position{line: 2677, col: 11, offset: 85007},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2669, col: 11, offset: 84795},
+																	pos:        position{line: 2677, col: 11, offset: 85007},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -46537,38 +46765,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2671, col: 5, offset: 84845},
+												pos:   position{line: 2679, col: 5, offset: 85057},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2671, col: 12, offset: 84852},
+													pos: position{line: 2679, col: 12, offset: 85064},
 													expr: &choiceExpr{
-														pos: position{line: 2672, col: 9, offset: 84862},
+														pos: position{line: 2680, col: 9, offset: 85074},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2672, col: 9, offset: 84862},
+																pos: position{line: 2680, col: 9, offset: 85074},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2672, col: 9, offset: 84862},
+																	pos:        position{line: 2680, col: 9, offset: 85074},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2673, col: 11, offset: 84909},
+																pos: position{line: 2681, col: 11, offset: 85121},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2673, col: 11, offset: 84909},
+																	pos:        position{line: 2681, col: 11, offset: 85121},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2674, col: 11, offset: 84959},
+																pos: position{line: 2682, col: 11, offset: 85171},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2674, col: 11, offset: 84959},
+																	pos:        position{line: 2682, col: 11, offset: 85171},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -46579,32 +46807,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2676, col: 5, offset: 85010},
+												pos:   position{line: 2684, col: 5, offset: 85222},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2676, col: 12, offset: 85017},
+													pos: position{line: 2684, col: 12, offset: 85229},
 													expr: &choiceExpr{
-														pos: position{line: 2676, col: 13, offset: 85018},
+														pos: position{line: 2684, col: 13, offset: 85230},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2844, col: 12, offset: 90066},
+																pos: position{line: 2852, col: 12, offset: 90278},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2844, col: 13, offset: 90067},
+																	pos: position{line: 2852, col: 13, offset: 90279},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2844, col: 13, offset: 90067},
+																			pos: position{line: 2852, col: 13, offset: 90279},
 																			expr: &litMatcher{
-																				pos:        position{line: 2844, col: 13, offset: 90067},
+																				pos:        position{line: 2852, col: 13, offset: 90279},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2844, col: 18, offset: 90072},
+																			pos: position{line: 2852, col: 18, offset: 90284},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2844, col: 18, offset: 90072},
+																				pos:        position{line: 2852, col: 18, offset: 90284},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -46615,10 +46843,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2676, col: 24, offset: 85029},
+																pos: position{line: 2684, col: 24, offset: 85241},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2676, col: 24, offset: 85029},
+																	pos:        position{line: 2684, col: 24, offset: 85241},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -46629,15 +46857,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2677, col: 5, offset: 85071},
+												pos:   position{line: 2685, col: 5, offset: 85283},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2677, col: 11, offset: 85077},
+													pos: position{line: 2685, col: 11, offset: 85289},
 													expr: &actionExpr{
-														pos: position{line: 2677, col: 12, offset: 85078},
+														pos: position{line: 2685, col: 12, offset: 85290},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2677, col: 12, offset: 85078},
+															pos:        position{line: 2685, col: 12, offset: 85290},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -46647,12 +46875,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2679, col: 5, offset: 85208},
+												pos:   position{line: 2687, col: 5, offset: 85420},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2679, col: 11, offset: 85214},
+													pos: position{line: 2687, col: 11, offset: 85426},
 													expr: &litMatcher{
-														pos:        position{line: 2679, col: 12, offset: 85215},
+														pos:        position{line: 2687, col: 12, offset: 85427},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -46660,7 +46888,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2680, col: 5, offset: 85225},
+												pos: position{line: 2688, col: 5, offset: 85437},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -46669,9 +46897,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2871, col: 8, offset: 90587},
+							pos: position{line: 2879, col: 8, offset: 90799},
 							expr: &anyMatcher{
-								line: 2871, col: 9, offset: 90588,
+								line: 2879, col: 9, offset: 90800,
 							},
 						},
 					},
@@ -46680,23 +46908,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2707, col: 1, offset: 86234},
+			pos:  position{line: 2715, col: 1, offset: 86446},
 			expr: &actionExpr{
-				pos: position{line: 2708, col: 5, offset: 86257},
+				pos: position{line: 2716, col: 5, offset: 86469},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2708, col: 5, offset: 86257},
+					pos: position{line: 2716, col: 5, offset: 86469},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2708, col: 5, offset: 86257},
+							pos:   position{line: 2716, col: 5, offset: 86469},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2731, col: 18, offset: 86998},
+								pos: position{line: 2739, col: 18, offset: 87210},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2731, col: 19, offset: 86999},
+									pos: position{line: 2739, col: 19, offset: 87211},
 									expr: &charClassMatcher{
-										pos:        position{line: 2731, col: 19, offset: 86999},
+										pos:        position{line: 2739, col: 19, offset: 87211},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46707,25 +46935,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2709, col: 5, offset: 86283},
+							pos: position{line: 2717, col: 5, offset: 86495},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2713, col: 5, offset: 86411},
+							pos:        position{line: 2721, col: 5, offset: 86623},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2714, col: 5, offset: 86421},
+							pos:   position{line: 2722, col: 5, offset: 86633},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2735, col: 19, offset: 87074},
+								pos: position{line: 2743, col: 19, offset: 87286},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2735, col: 19, offset: 87074},
+									pos: position{line: 2743, col: 19, offset: 87286},
 									expr: &charClassMatcher{
-										pos:        position{line: 2735, col: 19, offset: 87074},
+										pos:        position{line: 2743, col: 19, offset: 87286},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -46735,36 +46963,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2715, col: 5, offset: 86449},
+							pos:   position{line: 2723, col: 5, offset: 86661},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2715, col: 17, offset: 86461},
+								pos:  position{line: 2723, col: 17, offset: 86673},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2874, col: 8, offset: 90637},
+							pos: position{line: 2882, col: 8, offset: 90849},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2861, col: 12, offset: 90410},
+									pos: position{line: 2869, col: 12, offset: 90622},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2861, col: 13, offset: 90411},
+										pos: position{line: 2869, col: 13, offset: 90623},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2861, col: 13, offset: 90411},
+												pos:        position{line: 2869, col: 13, offset: 90623},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 20, offset: 90418},
+												pos:        position{line: 2869, col: 20, offset: 90630},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2861, col: 29, offset: 90427},
+												pos:        position{line: 2869, col: 29, offset: 90639},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -46773,9 +47001,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2871, col: 8, offset: 90587},
+									pos: position{line: 2879, col: 8, offset: 90799},
 									expr: &anyMatcher{
-										line: 2871, col: 9, offset: 90588,
+										line: 2879, col: 9, offset: 90800,
 									},
 								},
 							},
@@ -46786,23 +47014,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2719, col: 1, offset: 86609},
+			pos:  position{line: 2727, col: 1, offset: 86821},
 			expr: &actionExpr{
-				pos: position{line: 2720, col: 5, offset: 86633},
+				pos: position{line: 2728, col: 5, offset: 86845},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2720, col: 5, offset: 86633},
+					pos: position{line: 2728, col: 5, offset: 86845},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2720, col: 5, offset: 86633},
+							pos:   position{line: 2728, col: 5, offset: 86845},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2731, col: 18, offset: 86998},
+								pos: position{line: 2739, col: 18, offset: 87210},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2731, col: 19, offset: 86999},
+									pos: position{line: 2739, col: 19, offset: 87211},
 									expr: &charClassMatcher{
-										pos:        position{line: 2731, col: 19, offset: 86999},
+										pos:        position{line: 2739, col: 19, offset: 87211},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46813,25 +47041,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2721, col: 5, offset: 86659},
+							pos: position{line: 2729, col: 5, offset: 86871},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2725, col: 5, offset: 86787},
+							pos:        position{line: 2733, col: 5, offset: 86999},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2726, col: 5, offset: 86796},
+							pos:   position{line: 2734, col: 5, offset: 87008},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2735, col: 19, offset: 87074},
+								pos: position{line: 2743, col: 19, offset: 87286},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2735, col: 19, offset: 87074},
+									pos: position{line: 2743, col: 19, offset: 87286},
 									expr: &charClassMatcher{
-										pos:        position{line: 2735, col: 19, offset: 87074},
+										pos:        position{line: 2743, col: 19, offset: 87286},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -46841,10 +47069,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2727, col: 5, offset: 86824},
+							pos:   position{line: 2735, col: 5, offset: 87036},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2727, col: 17, offset: 86836},
+								pos:  position{line: 2735, col: 17, offset: 87048},
 								name: "InlineAttributes",
 							},
 						},
@@ -46854,43 +47082,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2806, col: 1, offset: 88886},
+			pos:  position{line: 2814, col: 1, offset: 89098},
 			expr: &actionExpr{
-				pos: position{line: 2806, col: 17, offset: 88902},
+				pos: position{line: 2814, col: 17, offset: 89114},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2806, col: 17, offset: 88902},
+					pos:   position{line: 2814, col: 17, offset: 89114},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2823, col: 5, offset: 89356},
+						pos: position{line: 2831, col: 5, offset: 89568},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2823, col: 5, offset: 89356},
+							pos:   position{line: 2831, col: 5, offset: 89568},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2823, col: 14, offset: 89365},
+								pos: position{line: 2831, col: 14, offset: 89577},
 								expr: &choiceExpr{
-									pos: position{line: 2824, col: 9, offset: 89375},
+									pos: position{line: 2832, col: 9, offset: 89587},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2824, col: 9, offset: 89375},
+											pos: position{line: 2832, col: 9, offset: 89587},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2824, col: 9, offset: 89375},
+												pos: position{line: 2832, col: 9, offset: 89587},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2824, col: 9, offset: 89375},
+														pos: position{line: 2832, col: 9, offset: 89587},
 														expr: &litMatcher{
-															pos:        position{line: 2824, col: 10, offset: 89376},
+															pos:        position{line: 2832, col: 10, offset: 89588},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2825, col: 9, offset: 89404},
+														pos: position{line: 2833, col: 9, offset: 89616},
 														expr: &charClassMatcher{
-															pos:        position{line: 2825, col: 10, offset: 89405},
+															pos:        position{line: 2833, col: 10, offset: 89617},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -46901,27 +47129,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2828, col: 11, offset: 89617},
+											pos: position{line: 2836, col: 11, offset: 89829},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2828, col: 11, offset: 89617},
+													pos:        position{line: 2836, col: 11, offset: 89829},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2828, col: 19, offset: 89625},
+													pos: position{line: 2836, col: 19, offset: 89837},
 													expr: &seqExpr{
-														pos: position{line: 2828, col: 21, offset: 89627},
+														pos: position{line: 2836, col: 21, offset: 89839},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2828, col: 21, offset: 89627},
+																pos: position{line: 2836, col: 21, offset: 89839},
 																expr: &actionExpr{
-																	pos: position{line: 2852, col: 10, offset: 90239},
+																	pos: position{line: 2860, col: 10, offset: 90451},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 10, offset: 90239},
+																		pos:        position{line: 2860, col: 10, offset: 90451},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -46930,11 +47158,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2828, col: 28, offset: 89634},
+																pos: position{line: 2836, col: 28, offset: 89846},
 																expr: &notExpr{
-																	pos: position{line: 2871, col: 8, offset: 90587},
+																	pos: position{line: 2879, col: 8, offset: 90799},
 																	expr: &anyMatcher{
-																		line: 2871, col: 9, offset: 90588,
+																		line: 2879, col: 9, offset: 90800,
 																	},
 																},
 															},
@@ -47290,27 +47518,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1198, col: 23, offset: 36972},
+											pos: position{line: 1206, col: 23, offset: 37184},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1198, col: 23, offset: 36972},
+												pos: position{line: 1206, col: 23, offset: 37184},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36940},
+														pos:        position{line: 1204, col: 32, offset: 37152},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1198, col: 51, offset: 37000},
+														pos:   position{line: 1206, col: 51, offset: 37212},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1198, col: 56, offset: 37005},
+															pos: position{line: 1206, col: 56, offset: 37217},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1198, col: 56, offset: 37005},
+																pos: position{line: 1206, col: 56, offset: 37217},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1198, col: 56, offset: 37005},
+																	pos:        position{line: 1206, col: 56, offset: 37217},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -47320,7 +47548,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1196, col: 32, offset: 36940},
+														pos:        position{line: 1204, col: 32, offset: 37152},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -47329,10 +47557,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2831, col: 11, offset: 89754},
+											pos: position{line: 2839, col: 11, offset: 89966},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2831, col: 11, offset: 89754},
+												pos:        position{line: 2839, col: 11, offset: 89966},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -49672,572 +49900,605 @@ func (p *parser) callonDocumentFragment58() (interface{}, error) {
 	return p.cur.onDocumentFragment58()
 }
 
-func (c *current) onDocumentFragment80() (interface{}, error) {
-	// sequence of 4 "/" chars or more
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonDocumentFragment80() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment80()
-}
-
-func (c *current) onDocumentFragment86() (interface{}, error) {
-
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonDocumentFragment86() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment86()
-}
-
-func (c *current) onDocumentFragment89() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
-}
-
-func (p *parser) callonDocumentFragment89() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment89()
-}
-
-func (c *current) onDocumentFragment77(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
-
-}
-
-func (p *parser) callonDocumentFragment77() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment77(stack["delimiter"])
-}
-
-func (c *current) onDocumentFragment105() (interface{}, error) {
+func (c *current) onDocumentFragment81() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment105() (interface{}, error) {
+func (p *parser) callonDocumentFragment81() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment105()
+	return p.cur.onDocumentFragment81()
 }
 
-func (c *current) onDocumentFragment111() (interface{}, error) {
+func (c *current) onDocumentFragment87() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment111() (interface{}, error) {
+func (p *parser) callonDocumentFragment87() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment111()
+	return p.cur.onDocumentFragment87()
 }
 
-func (c *current) onDocumentFragment114() (interface{}, error) {
+func (c *current) onDocumentFragment90() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment114() (interface{}, error) {
+func (p *parser) callonDocumentFragment90() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment114()
+	return p.cur.onDocumentFragment90()
 }
 
-func (c *current) onDocumentFragment102(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment78(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment102() (interface{}, error) {
+func (p *parser) callonDocumentFragment78() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment102(stack["delimiter"])
-}
-
-func (c *current) onDocumentFragment129() (interface{}, error) {
-
-	return string(c.text), nil
-
+	return p.cur.onDocumentFragment78(stack["delimiter"])
 }
 
-func (p *parser) callonDocumentFragment129() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment129()
-}
-
-func (c *current) onDocumentFragment133() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
-}
-
-func (p *parser) callonDocumentFragment133() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment133()
-}
-
-func (c *current) onDocumentFragment124(content interface{}) (interface{}, error) {
-
-	return types.NewRawLine(content.(string))
-
-}
-
-func (p *parser) callonDocumentFragment124() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment124(stack["content"])
-}
-
-func (c *current) onDocumentFragment98(line interface{}) (interface{}, error) {
-	return line, nil
+func (c *current) onDocumentFragment97(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment98() (interface{}, error) {
+func (p *parser) callonDocumentFragment97() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment98(stack["line"])
+	return p.cur.onDocumentFragment97(stack["start"])
 }
 
-func (c *current) onDocumentFragment145() (interface{}, error) {
+func (c *current) onDocumentFragment109() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment145() (interface{}, error) {
+func (p *parser) callonDocumentFragment109() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment145()
+	return p.cur.onDocumentFragment109()
 }
 
-func (c *current) onDocumentFragment151() (interface{}, error) {
+func (c *current) onDocumentFragment115() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment151() (interface{}, error) {
+func (p *parser) callonDocumentFragment115() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment151()
+	return p.cur.onDocumentFragment115()
 }
 
-func (c *current) onDocumentFragment154() (interface{}, error) {
+func (c *current) onDocumentFragment118() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment154() (interface{}, error) {
+func (p *parser) callonDocumentFragment118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment154()
+	return p.cur.onDocumentFragment118()
 }
 
-func (c *current) onDocumentFragment142(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment106(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment142() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment142(stack["delimiter"])
-}
-
-func (c *current) onDocumentFragment75(delimiter, content interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
-
-}
-
-func (p *parser) callonDocumentFragment75() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment75(stack["delimiter"], stack["content"])
-}
-
-func (c *current) onDocumentFragment169() (interface{}, error) {
-	// sequence of 4 "=" chars or more
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonDocumentFragment169() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment169()
-}
-
-func (c *current) onDocumentFragment175() (interface{}, error) {
-
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonDocumentFragment175() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment175()
-}
-
-func (c *current) onDocumentFragment178() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
-}
-
-func (p *parser) callonDocumentFragment178() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment178()
-}
-
-func (c *current) onDocumentFragment166(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
-
-}
-
-func (p *parser) callonDocumentFragment166() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment166(stack["delimiter"])
-}
-
-func (c *current) onDocumentFragment185(start interface{}) (bool, error) {
-	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
-
-}
-
-func (p *parser) callonDocumentFragment185() (bool, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment185(stack["start"])
-}
-
-func (c *current) onDocumentFragment197() (interface{}, error) {
-	// sequence of 4 "=" chars or more
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonDocumentFragment197() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment197()
-}
-
-func (c *current) onDocumentFragment203() (interface{}, error) {
-
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonDocumentFragment203() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment203()
-}
-
-func (c *current) onDocumentFragment206() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
-}
-
-func (p *parser) callonDocumentFragment206() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment206()
-}
-
-func (c *current) onDocumentFragment194(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
-
-}
-
-func (p *parser) callonDocumentFragment194() (interface{}, error) {
+func (p *parser) callonDocumentFragment106() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment194(stack["delimiter"])
+	return p.cur.onDocumentFragment106(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment213(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment125(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment213() (bool, error) {
+func (p *parser) callonDocumentFragment125() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment213(stack["end"])
+	return p.cur.onDocumentFragment125(stack["end"])
 }
 
-func (c *current) onDocumentFragment222() (interface{}, error) {
+func (c *current) onDocumentFragment134() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment222() (interface{}, error) {
+func (p *parser) callonDocumentFragment134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment222()
+	return p.cur.onDocumentFragment134()
 }
 
-func (c *current) onDocumentFragment226() (interface{}, error) {
+func (c *current) onDocumentFragment138() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment226() (interface{}, error) {
+func (p *parser) callonDocumentFragment138() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment226()
+	return p.cur.onDocumentFragment138()
 }
 
-func (c *current) onDocumentFragment217(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment129(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment217() (interface{}, error) {
+func (p *parser) callonDocumentFragment129() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment217(stack["content"])
+	return p.cur.onDocumentFragment129(stack["content"])
 }
 
-func (c *current) onDocumentFragment188(line interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment100(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment188() (interface{}, error) {
+func (p *parser) callonDocumentFragment100() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment100(stack["line"])
+}
+
+func (c *current) onDocumentFragment153() (interface{}, error) {
+	// sequence of 4 "/" chars or more
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment153() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment153()
+}
+
+func (c *current) onDocumentFragment159() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment159() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment159()
+}
+
+func (c *current) onDocumentFragment162() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment162() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment188(stack["line"])
+	return p.cur.onDocumentFragment162()
 }
 
-func (c *current) onDocumentFragment241() (interface{}, error) {
+func (c *current) onDocumentFragment150(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonDocumentFragment150() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment150(stack["delimiter"])
+}
+
+func (c *current) onDocumentFragment169(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentFragment169() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment169(stack["end"])
+}
+
+func (c *current) onDocumentFragment75(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
+
+}
+
+func (p *parser) callonDocumentFragment75() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment75(stack["start"], stack["content"], stack["end"])
+}
+
+func (c *current) onDocumentFragment178() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment241() (interface{}, error) {
+func (p *parser) callonDocumentFragment178() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment241()
+	return p.cur.onDocumentFragment178()
 }
 
-func (c *current) onDocumentFragment247() (interface{}, error) {
+func (c *current) onDocumentFragment184() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment247() (interface{}, error) {
+func (p *parser) callonDocumentFragment184() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment247()
+	return p.cur.onDocumentFragment184()
 }
 
-func (c *current) onDocumentFragment250() (interface{}, error) {
+func (c *current) onDocumentFragment187() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment187() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment187()
+}
+
+func (c *current) onDocumentFragment175(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonDocumentFragment175() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment175(stack["delimiter"])
+}
+
+func (c *current) onDocumentFragment194(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentFragment194() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment194(stack["start"])
+}
+
+func (c *current) onDocumentFragment206() (interface{}, error) {
+	// sequence of 4 "=" chars or more
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment206() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment206()
+}
+
+func (c *current) onDocumentFragment212() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment212() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment212()
+}
+
+func (c *current) onDocumentFragment215() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
+func (p *parser) callonDocumentFragment215() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment215()
+}
+
+func (c *current) onDocumentFragment203(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonDocumentFragment203() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment203(stack["delimiter"])
+}
+
+func (c *current) onDocumentFragment222(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentFragment222() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment222(stack["end"])
+}
+
+func (c *current) onDocumentFragment231() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment231() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment231()
+}
+
+func (c *current) onDocumentFragment235() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment235() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment235()
+}
+
+func (c *current) onDocumentFragment226(content interface{}) (interface{}, error) {
+
+	return types.NewRawLine(content.(string))
+
+}
+
+func (p *parser) callonDocumentFragment226() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment226(stack["content"])
+}
+
+func (c *current) onDocumentFragment197(line interface{}) (interface{}, error) {
+	return line, nil
+
+}
+
+func (p *parser) callonDocumentFragment197() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment197(stack["line"])
+}
+
+func (c *current) onDocumentFragment250() (interface{}, error) {
+	// sequence of 4 "=" chars or more
+	return string(c.text), nil
+
+}
+
 func (p *parser) callonDocumentFragment250() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
 	return p.cur.onDocumentFragment250()
 }
 
-func (c *current) onDocumentFragment238(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment256() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment256() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment256()
+}
+
+func (c *current) onDocumentFragment259() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment259() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment259()
+}
+
+func (c *current) onDocumentFragment247(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment238() (interface{}, error) {
+func (p *parser) callonDocumentFragment247() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment238(stack["delimiter"])
+	return p.cur.onDocumentFragment247(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment257(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment266(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment257() (bool, error) {
+func (p *parser) callonDocumentFragment266() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment257(stack["end"])
+	return p.cur.onDocumentFragment266(stack["end"])
 }
 
-func (c *current) onDocumentFragment163(start, content, end interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment172(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Example, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment163() (interface{}, error) {
+func (p *parser) callonDocumentFragment172() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment163(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment172(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment267() (interface{}, error) {
+func (c *current) onDocumentFragment276() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment267() (interface{}, error) {
+func (p *parser) callonDocumentFragment276() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment267()
+	return p.cur.onDocumentFragment276()
 }
 
-func (c *current) onDocumentFragment271() (interface{}, error) {
+func (c *current) onDocumentFragment280() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment271() (interface{}, error) {
+func (p *parser) callonDocumentFragment280() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment271()
+	return p.cur.onDocumentFragment280()
 }
 
-func (c *current) onDocumentFragment274() (interface{}, error) {
+func (c *current) onDocumentFragment283() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment274() (interface{}, error) {
+func (p *parser) callonDocumentFragment283() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment274()
+	return p.cur.onDocumentFragment283()
 }
 
-func (c *current) onDocumentFragment263(language interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment272(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonDocumentFragment263() (interface{}, error) {
+func (p *parser) callonDocumentFragment272() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment263(stack["language"])
+	return p.cur.onDocumentFragment272(stack["language"])
 }
 
-func (c *current) onDocumentFragment289() (interface{}, error) {
+func (c *current) onDocumentFragment298() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment289() (interface{}, error) {
+func (p *parser) callonDocumentFragment298() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment289()
+	return p.cur.onDocumentFragment298()
 }
 
-func (c *current) onDocumentFragment292() (interface{}, error) {
+func (c *current) onDocumentFragment301() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment292() (interface{}, error) {
+func (p *parser) callonDocumentFragment301() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment292()
+	return p.cur.onDocumentFragment301()
 }
 
-func (c *current) onDocumentFragment305() (interface{}, error) {
+func (c *current) onDocumentFragment314() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment305() (interface{}, error) {
+func (p *parser) callonDocumentFragment314() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment305()
+	return p.cur.onDocumentFragment314()
 }
 
-func (c *current) onDocumentFragment309() (interface{}, error) {
+func (c *current) onDocumentFragment318() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment309() (interface{}, error) {
+func (p *parser) callonDocumentFragment318() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment309()
+	return p.cur.onDocumentFragment318()
 }
 
-func (c *current) onDocumentFragment300(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment309(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment300() (interface{}, error) {
+func (p *parser) callonDocumentFragment309() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment300(stack["content"])
+	return p.cur.onDocumentFragment309(stack["content"])
 }
 
-func (c *current) onDocumentFragment283(line interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment292(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment283() (interface{}, error) {
+func (p *parser) callonDocumentFragment292() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment283(stack["line"])
+	return p.cur.onDocumentFragment292(stack["line"])
 }
 
-func (c *current) onDocumentFragment320() (interface{}, error) {
+func (c *current) onDocumentFragment329() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment320() (interface{}, error) {
+func (p *parser) callonDocumentFragment329() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment320()
+	return p.cur.onDocumentFragment329()
 }
 
-func (c *current) onDocumentFragment323() (interface{}, error) {
+func (c *current) onDocumentFragment332() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment323() (interface{}, error) {
+func (p *parser) callonDocumentFragment332() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment323()
+	return p.cur.onDocumentFragment332()
 }
 
-func (c *current) onDocumentFragment260(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment269(delimiter, content interface{}) (interface{}, error) {
 	// Markdown code with fences is a "listing/source" block in Asciidoc
 	b, err := types.NewDelimitedBlock(types.Listing, content.([]interface{}))
 	b.AddAttributes(delimiter.(*types.BlockDelimiter).Attributes)
@@ -50245,2437 +50506,2437 @@ func (c *current) onDocumentFragment260(delimiter, content interface{}) (interfa
 
 }
 
-func (p *parser) callonDocumentFragment260() (interface{}, error) {
+func (p *parser) callonDocumentFragment269() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment260(stack["delimiter"], stack["content"])
+	return p.cur.onDocumentFragment269(stack["delimiter"], stack["content"])
 }
 
-func (c *current) onDocumentFragment336() (interface{}, error) {
+func (c *current) onDocumentFragment345() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment336() (interface{}, error) {
+func (p *parser) callonDocumentFragment345() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment336()
+	return p.cur.onDocumentFragment345()
 }
 
-func (c *current) onDocumentFragment342() (interface{}, error) {
+func (c *current) onDocumentFragment351() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment342() (interface{}, error) {
+func (p *parser) callonDocumentFragment351() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment342()
+	return p.cur.onDocumentFragment351()
 }
 
-func (c *current) onDocumentFragment345() (interface{}, error) {
+func (c *current) onDocumentFragment354() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment345() (interface{}, error) {
+func (p *parser) callonDocumentFragment354() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment345()
+	return p.cur.onDocumentFragment354()
 }
 
-func (c *current) onDocumentFragment333(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment342(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment333() (interface{}, error) {
+func (p *parser) callonDocumentFragment342() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment333(stack["delimiter"])
+	return p.cur.onDocumentFragment342(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment352(start interface{}) (bool, error) {
+func (c *current) onDocumentFragment361(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment352() (bool, error) {
+func (p *parser) callonDocumentFragment361() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment352(stack["start"])
+	return p.cur.onDocumentFragment361(stack["start"])
 }
 
-func (c *current) onDocumentFragment364() (interface{}, error) {
+func (c *current) onDocumentFragment373() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment364() (interface{}, error) {
+func (p *parser) callonDocumentFragment373() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment364()
+	return p.cur.onDocumentFragment373()
 }
 
-func (c *current) onDocumentFragment370() (interface{}, error) {
+func (c *current) onDocumentFragment379() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment370() (interface{}, error) {
+func (p *parser) callonDocumentFragment379() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment370()
+	return p.cur.onDocumentFragment379()
 }
 
-func (c *current) onDocumentFragment373() (interface{}, error) {
+func (c *current) onDocumentFragment382() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment373() (interface{}, error) {
+func (p *parser) callonDocumentFragment382() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment373()
+	return p.cur.onDocumentFragment382()
 }
 
-func (c *current) onDocumentFragment361(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment370(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment361() (interface{}, error) {
+func (p *parser) callonDocumentFragment370() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment361(stack["delimiter"])
+	return p.cur.onDocumentFragment370(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment380(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment389(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment380() (bool, error) {
+func (p *parser) callonDocumentFragment389() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment380(stack["end"])
+	return p.cur.onDocumentFragment389(stack["end"])
 }
 
-func (c *current) onDocumentFragment389() (interface{}, error) {
+func (c *current) onDocumentFragment398() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment389() (interface{}, error) {
+func (p *parser) callonDocumentFragment398() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment389()
+	return p.cur.onDocumentFragment398()
 }
 
-func (c *current) onDocumentFragment393() (interface{}, error) {
+func (c *current) onDocumentFragment402() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment393() (interface{}, error) {
+func (p *parser) callonDocumentFragment402() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment393()
+	return p.cur.onDocumentFragment402()
 }
 
-func (c *current) onDocumentFragment384(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment393(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment384() (interface{}, error) {
+func (p *parser) callonDocumentFragment393() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment384(stack["content"])
+	return p.cur.onDocumentFragment393(stack["content"])
 }
 
-func (c *current) onDocumentFragment355(line interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment364(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment355() (interface{}, error) {
+func (p *parser) callonDocumentFragment364() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment355(stack["line"])
+	return p.cur.onDocumentFragment364(stack["line"])
 }
 
-func (c *current) onDocumentFragment408() (interface{}, error) {
+func (c *current) onDocumentFragment417() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment408() (interface{}, error) {
+func (p *parser) callonDocumentFragment417() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment408()
+	return p.cur.onDocumentFragment417()
 }
 
-func (c *current) onDocumentFragment414() (interface{}, error) {
+func (c *current) onDocumentFragment423() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment414() (interface{}, error) {
+func (p *parser) callonDocumentFragment423() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment414()
+	return p.cur.onDocumentFragment423()
 }
 
-func (c *current) onDocumentFragment417() (interface{}, error) {
+func (c *current) onDocumentFragment426() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment417() (interface{}, error) {
+func (p *parser) callonDocumentFragment426() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment417()
+	return p.cur.onDocumentFragment426()
 }
 
-func (c *current) onDocumentFragment405(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment414(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment405() (interface{}, error) {
+func (p *parser) callonDocumentFragment414() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment405(stack["delimiter"])
+	return p.cur.onDocumentFragment414(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment424(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment433(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment424() (bool, error) {
+func (p *parser) callonDocumentFragment433() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment424(stack["end"])
+	return p.cur.onDocumentFragment433(stack["end"])
 }
 
-func (c *current) onDocumentFragment330(start, content, end interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment339(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Fenced, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment330() (interface{}, error) {
+func (p *parser) callonDocumentFragment339() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment330(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment339(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment433() (interface{}, error) {
+func (c *current) onDocumentFragment442() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment433() (interface{}, error) {
+func (p *parser) callonDocumentFragment442() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment433()
+	return p.cur.onDocumentFragment442()
 }
 
-func (c *current) onDocumentFragment439() (interface{}, error) {
+func (c *current) onDocumentFragment448() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment439() (interface{}, error) {
+func (p *parser) callonDocumentFragment448() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment439()
+	return p.cur.onDocumentFragment448()
 }
 
-func (c *current) onDocumentFragment442() (interface{}, error) {
+func (c *current) onDocumentFragment451() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment442() (interface{}, error) {
+func (p *parser) callonDocumentFragment451() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment442()
+	return p.cur.onDocumentFragment451()
 }
 
-func (c *current) onDocumentFragment430(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment439(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment430() (interface{}, error) {
+func (p *parser) callonDocumentFragment439() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment430(stack["delimiter"])
+	return p.cur.onDocumentFragment439(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment449(start interface{}) (bool, error) {
+func (c *current) onDocumentFragment458(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment449() (bool, error) {
+func (p *parser) callonDocumentFragment458() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment449(stack["start"])
+	return p.cur.onDocumentFragment458(stack["start"])
 }
 
-func (c *current) onDocumentFragment461() (interface{}, error) {
+func (c *current) onDocumentFragment470() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment461() (interface{}, error) {
+func (p *parser) callonDocumentFragment470() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment461()
+	return p.cur.onDocumentFragment470()
 }
 
-func (c *current) onDocumentFragment467() (interface{}, error) {
+func (c *current) onDocumentFragment476() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment467() (interface{}, error) {
+func (p *parser) callonDocumentFragment476() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment467()
+	return p.cur.onDocumentFragment476()
 }
 
-func (c *current) onDocumentFragment470() (interface{}, error) {
+func (c *current) onDocumentFragment479() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment470() (interface{}, error) {
+func (p *parser) callonDocumentFragment479() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment470()
+	return p.cur.onDocumentFragment479()
 }
 
-func (c *current) onDocumentFragment458(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment467(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment458() (interface{}, error) {
+func (p *parser) callonDocumentFragment467() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment458(stack["delimiter"])
+	return p.cur.onDocumentFragment467(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment477(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment486(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment477() (bool, error) {
+func (p *parser) callonDocumentFragment486() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment477(stack["end"])
+	return p.cur.onDocumentFragment486(stack["end"])
 }
 
-func (c *current) onDocumentFragment486() (interface{}, error) {
+func (c *current) onDocumentFragment495() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment486() (interface{}, error) {
+func (p *parser) callonDocumentFragment495() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment486()
+	return p.cur.onDocumentFragment495()
 }
 
-func (c *current) onDocumentFragment490() (interface{}, error) {
+func (c *current) onDocumentFragment499() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment490() (interface{}, error) {
+func (p *parser) callonDocumentFragment499() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment490()
+	return p.cur.onDocumentFragment499()
 }
 
-func (c *current) onDocumentFragment481(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment490(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment481() (interface{}, error) {
+func (p *parser) callonDocumentFragment490() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment481(stack["content"])
+	return p.cur.onDocumentFragment490(stack["content"])
 }
 
-func (c *current) onDocumentFragment452(line interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment461(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment452() (interface{}, error) {
+func (p *parser) callonDocumentFragment461() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment452(stack["line"])
+	return p.cur.onDocumentFragment461(stack["line"])
 }
 
-func (c *current) onDocumentFragment505() (interface{}, error) {
+func (c *current) onDocumentFragment514() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment505() (interface{}, error) {
+func (p *parser) callonDocumentFragment514() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment505()
+	return p.cur.onDocumentFragment514()
 }
 
-func (c *current) onDocumentFragment511() (interface{}, error) {
+func (c *current) onDocumentFragment520() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment511() (interface{}, error) {
+func (p *parser) callonDocumentFragment520() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment511()
+	return p.cur.onDocumentFragment520()
 }
 
-func (c *current) onDocumentFragment514() (interface{}, error) {
+func (c *current) onDocumentFragment523() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment514() (interface{}, error) {
+func (p *parser) callonDocumentFragment523() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment514()
+	return p.cur.onDocumentFragment523()
 }
 
-func (c *current) onDocumentFragment502(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment511(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment502() (interface{}, error) {
+func (p *parser) callonDocumentFragment511() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment502(stack["delimiter"])
+	return p.cur.onDocumentFragment511(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment521(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment530(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment521() (bool, error) {
+func (p *parser) callonDocumentFragment530() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment521(stack["end"])
+	return p.cur.onDocumentFragment530(stack["end"])
 }
 
-func (c *current) onDocumentFragment427(start, content, end interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment436(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Listing, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment427() (interface{}, error) {
+func (p *parser) callonDocumentFragment436() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment427(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment436(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment530() (interface{}, error) {
+func (c *current) onDocumentFragment539() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment530() (interface{}, error) {
+func (p *parser) callonDocumentFragment539() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment530()
+	return p.cur.onDocumentFragment539()
 }
 
-func (c *current) onDocumentFragment536() (interface{}, error) {
+func (c *current) onDocumentFragment545() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment536() (interface{}, error) {
+func (p *parser) callonDocumentFragment545() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment536()
+	return p.cur.onDocumentFragment545()
 }
 
-func (c *current) onDocumentFragment539() (interface{}, error) {
+func (c *current) onDocumentFragment548() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment539() (interface{}, error) {
+func (p *parser) callonDocumentFragment548() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment539()
+	return p.cur.onDocumentFragment548()
 }
 
-func (c *current) onDocumentFragment527(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment536(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment527() (interface{}, error) {
+func (p *parser) callonDocumentFragment536() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment527(stack["delimiter"])
+	return p.cur.onDocumentFragment536(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment546(start interface{}) (bool, error) {
+func (c *current) onDocumentFragment555(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment546() (bool, error) {
+func (p *parser) callonDocumentFragment555() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment546(stack["start"])
+	return p.cur.onDocumentFragment555(stack["start"])
 }
 
-func (c *current) onDocumentFragment558() (interface{}, error) {
+func (c *current) onDocumentFragment567() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment558() (interface{}, error) {
+func (p *parser) callonDocumentFragment567() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment558()
+	return p.cur.onDocumentFragment567()
 }
 
-func (c *current) onDocumentFragment564() (interface{}, error) {
+func (c *current) onDocumentFragment573() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment564() (interface{}, error) {
+func (p *parser) callonDocumentFragment573() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment564()
+	return p.cur.onDocumentFragment573()
 }
 
-func (c *current) onDocumentFragment567() (interface{}, error) {
+func (c *current) onDocumentFragment576() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment567() (interface{}, error) {
+func (p *parser) callonDocumentFragment576() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment567()
+	return p.cur.onDocumentFragment576()
 }
 
-func (c *current) onDocumentFragment555(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment564(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment555() (interface{}, error) {
+func (p *parser) callonDocumentFragment564() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment555(stack["delimiter"])
+	return p.cur.onDocumentFragment564(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment574(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment583(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment574() (bool, error) {
+func (p *parser) callonDocumentFragment583() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment574(stack["end"])
+	return p.cur.onDocumentFragment583(stack["end"])
 }
 
-func (c *current) onDocumentFragment583() (interface{}, error) {
+func (c *current) onDocumentFragment592() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment583() (interface{}, error) {
+func (p *parser) callonDocumentFragment592() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment583()
+	return p.cur.onDocumentFragment592()
 }
 
-func (c *current) onDocumentFragment587() (interface{}, error) {
+func (c *current) onDocumentFragment596() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment587() (interface{}, error) {
+func (p *parser) callonDocumentFragment596() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment587()
+	return p.cur.onDocumentFragment596()
 }
 
-func (c *current) onDocumentFragment578(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment587(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment578() (interface{}, error) {
+func (p *parser) callonDocumentFragment587() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment578(stack["content"])
+	return p.cur.onDocumentFragment587(stack["content"])
 }
 
-func (c *current) onDocumentFragment549(line interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment558(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment549() (interface{}, error) {
+func (p *parser) callonDocumentFragment558() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment549(stack["line"])
+	return p.cur.onDocumentFragment558(stack["line"])
 }
 
-func (c *current) onDocumentFragment602() (interface{}, error) {
+func (c *current) onDocumentFragment611() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment602() (interface{}, error) {
+func (p *parser) callonDocumentFragment611() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment602()
+	return p.cur.onDocumentFragment611()
 }
 
-func (c *current) onDocumentFragment608() (interface{}, error) {
+func (c *current) onDocumentFragment617() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment608() (interface{}, error) {
+func (p *parser) callonDocumentFragment617() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment608()
+	return p.cur.onDocumentFragment617()
 }
 
-func (c *current) onDocumentFragment611() (interface{}, error) {
+func (c *current) onDocumentFragment620() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment611() (interface{}, error) {
+func (p *parser) callonDocumentFragment620() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment611()
+	return p.cur.onDocumentFragment620()
 }
 
-func (c *current) onDocumentFragment599(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment608(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment599() (interface{}, error) {
+func (p *parser) callonDocumentFragment608() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment599(stack["delimiter"])
+	return p.cur.onDocumentFragment608(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment618(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment627(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment618() (bool, error) {
+func (p *parser) callonDocumentFragment627() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment618(stack["end"])
+	return p.cur.onDocumentFragment627(stack["end"])
 }
 
-func (c *current) onDocumentFragment524(start, content, end interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment533(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Literal, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment524() (interface{}, error) {
+func (p *parser) callonDocumentFragment533() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment524(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment533(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment632() (interface{}, error) {
+func (c *current) onDocumentFragment641() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment632() (interface{}, error) {
+func (p *parser) callonDocumentFragment641() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment632()
+	return p.cur.onDocumentFragment641()
 }
 
-func (c *current) onDocumentFragment635() (interface{}, error) {
+func (c *current) onDocumentFragment644() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment635() (interface{}, error) {
+func (p *parser) callonDocumentFragment644() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment635()
+	return p.cur.onDocumentFragment644()
 }
 
-func (c *current) onDocumentFragment627() (interface{}, error) {
+func (c *current) onDocumentFragment636() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment627() (interface{}, error) {
+func (p *parser) callonDocumentFragment636() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment627()
+	return p.cur.onDocumentFragment636()
 }
 
-func (c *current) onDocumentFragment644() (interface{}, error) {
+func (c *current) onDocumentFragment653() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment644() (interface{}, error) {
+func (p *parser) callonDocumentFragment653() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment644()
+	return p.cur.onDocumentFragment653()
 }
 
-func (c *current) onDocumentFragment648() (interface{}, error) {
+func (c *current) onDocumentFragment657() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment648() (interface{}, error) {
+func (p *parser) callonDocumentFragment657() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment648()
+	return p.cur.onDocumentFragment657()
 }
 
-func (c *current) onDocumentFragment624(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment633(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment624() (interface{}, error) {
+func (p *parser) callonDocumentFragment633() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment624(stack["content"])
+	return p.cur.onDocumentFragment633(stack["content"])
 }
 
-func (c *current) onDocumentFragment666() (interface{}, error) {
+func (c *current) onDocumentFragment675() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment666() (interface{}, error) {
+func (p *parser) callonDocumentFragment675() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment666()
+	return p.cur.onDocumentFragment675()
 }
 
-func (c *current) onDocumentFragment669() (interface{}, error) {
+func (c *current) onDocumentFragment678() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment669() (interface{}, error) {
+func (p *parser) callonDocumentFragment678() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment669()
+	return p.cur.onDocumentFragment678()
 }
 
-func (c *current) onDocumentFragment661() (interface{}, error) {
+func (c *current) onDocumentFragment670() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment661() (interface{}, error) {
+func (p *parser) callonDocumentFragment670() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment661()
+	return p.cur.onDocumentFragment670()
 }
 
-func (c *current) onDocumentFragment678() (interface{}, error) {
+func (c *current) onDocumentFragment687() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment678() (interface{}, error) {
+func (p *parser) callonDocumentFragment687() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment678()
+	return p.cur.onDocumentFragment687()
 }
 
-func (c *current) onDocumentFragment682() (interface{}, error) {
+func (c *current) onDocumentFragment691() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment682() (interface{}, error) {
+func (p *parser) callonDocumentFragment691() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment682()
+	return p.cur.onDocumentFragment691()
 }
 
-func (c *current) onDocumentFragment658(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment667(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment658() (interface{}, error) {
+func (p *parser) callonDocumentFragment667() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment658(stack["content"])
+	return p.cur.onDocumentFragment667(stack["content"])
 }
 
-func (c *current) onDocumentFragment692() (interface{}, error) {
+func (c *current) onDocumentFragment701() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment692() (interface{}, error) {
+func (p *parser) callonDocumentFragment701() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment692()
+	return p.cur.onDocumentFragment701()
 }
 
-func (c *current) onDocumentFragment695(content interface{}) (bool, error) {
+func (c *current) onDocumentFragment704(content interface{}) (bool, error) {
 	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
 
 }
 
-func (p *parser) callonDocumentFragment695() (bool, error) {
+func (p *parser) callonDocumentFragment704() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment695(stack["content"])
+	return p.cur.onDocumentFragment704(stack["content"])
 }
 
-func (c *current) onDocumentFragment697() (interface{}, error) {
+func (c *current) onDocumentFragment706() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment697() (interface{}, error) {
+func (p *parser) callonDocumentFragment706() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment697()
+	return p.cur.onDocumentFragment706()
 }
 
-func (c *current) onDocumentFragment689(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment698(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment689() (interface{}, error) {
+func (p *parser) callonDocumentFragment698() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment689(stack["content"])
+	return p.cur.onDocumentFragment698(stack["content"])
 }
 
-func (c *current) onDocumentFragment621(firstLine, otherLines interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment630(firstLine, otherLines interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.MarkdownQuote, append([]interface{}{firstLine}, otherLines.([]interface{})...))
 
 }
 
-func (p *parser) callonDocumentFragment621() (interface{}, error) {
+func (p *parser) callonDocumentFragment630() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment621(stack["firstLine"], stack["otherLines"])
+	return p.cur.onDocumentFragment630(stack["firstLine"], stack["otherLines"])
 }
 
-func (c *current) onDocumentFragment710() (interface{}, error) {
+func (c *current) onDocumentFragment719() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment710() (interface{}, error) {
+func (p *parser) callonDocumentFragment719() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment710()
+	return p.cur.onDocumentFragment719()
 }
 
-func (c *current) onDocumentFragment713() (interface{}, error) {
+func (c *current) onDocumentFragment722() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment713() (interface{}, error) {
+func (p *parser) callonDocumentFragment722() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment713()
+	return p.cur.onDocumentFragment722()
 }
 
-func (c *current) onDocumentFragment716() (interface{}, error) {
+func (c *current) onDocumentFragment725() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment716() (interface{}, error) {
+func (p *parser) callonDocumentFragment725() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment716()
+	return p.cur.onDocumentFragment725()
 }
 
-func (c *current) onDocumentFragment707(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment716(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment707() (interface{}, error) {
+func (p *parser) callonDocumentFragment716() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment707(stack["delimiter"])
+	return p.cur.onDocumentFragment716(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment732() (interface{}, error) {
+func (c *current) onDocumentFragment741() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment732() (interface{}, error) {
+func (p *parser) callonDocumentFragment741() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment732()
+	return p.cur.onDocumentFragment741()
 }
 
-func (c *current) onDocumentFragment735() (interface{}, error) {
+func (c *current) onDocumentFragment744() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment735() (interface{}, error) {
+func (p *parser) callonDocumentFragment744() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment735()
+	return p.cur.onDocumentFragment744()
 }
 
-func (c *current) onDocumentFragment738() (interface{}, error) {
+func (c *current) onDocumentFragment747() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment738() (interface{}, error) {
+func (p *parser) callonDocumentFragment747() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment738()
+	return p.cur.onDocumentFragment747()
 }
 
-func (c *current) onDocumentFragment729(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment738(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment729() (interface{}, error) {
+func (p *parser) callonDocumentFragment738() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment729(stack["delimiter"])
+	return p.cur.onDocumentFragment738(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment753() (interface{}, error) {
+func (c *current) onDocumentFragment762() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment753() (interface{}, error) {
+func (p *parser) callonDocumentFragment762() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment753()
+	return p.cur.onDocumentFragment762()
 }
 
-func (c *current) onDocumentFragment757() (interface{}, error) {
+func (c *current) onDocumentFragment766() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment757() (interface{}, error) {
+func (p *parser) callonDocumentFragment766() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment757()
+	return p.cur.onDocumentFragment766()
 }
 
-func (c *current) onDocumentFragment748(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment757(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment748() (interface{}, error) {
+func (p *parser) callonDocumentFragment757() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment748(stack["content"])
+	return p.cur.onDocumentFragment757(stack["content"])
 }
 
-func (c *current) onDocumentFragment725(line interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment734(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment725() (interface{}, error) {
+func (p *parser) callonDocumentFragment734() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment725(stack["line"])
+	return p.cur.onDocumentFragment734(stack["line"])
 }
 
-func (c *current) onDocumentFragment770() (interface{}, error) {
+func (c *current) onDocumentFragment779() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment770() (interface{}, error) {
+func (p *parser) callonDocumentFragment779() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment770()
+	return p.cur.onDocumentFragment779()
 }
 
-func (c *current) onDocumentFragment773() (interface{}, error) {
+func (c *current) onDocumentFragment782() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment773() (interface{}, error) {
+func (p *parser) callonDocumentFragment782() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment773()
+	return p.cur.onDocumentFragment782()
 }
 
-func (c *current) onDocumentFragment776() (interface{}, error) {
+func (c *current) onDocumentFragment785() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment776() (interface{}, error) {
+func (p *parser) callonDocumentFragment785() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment776()
+	return p.cur.onDocumentFragment785()
 }
 
-func (c *current) onDocumentFragment767(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment776(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment767() (interface{}, error) {
+func (p *parser) callonDocumentFragment776() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment767(stack["delimiter"])
+	return p.cur.onDocumentFragment776(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment704(start, content, end interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment713(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Open, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment704() (interface{}, error) {
+func (p *parser) callonDocumentFragment713() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment704(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment713(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment791() (interface{}, error) {
+func (c *current) onDocumentFragment800() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment791() (interface{}, error) {
+func (p *parser) callonDocumentFragment800() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment791()
+	return p.cur.onDocumentFragment800()
 }
 
-func (c *current) onDocumentFragment797() (interface{}, error) {
+func (c *current) onDocumentFragment806() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment797() (interface{}, error) {
+func (p *parser) callonDocumentFragment806() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment797()
+	return p.cur.onDocumentFragment806()
 }
 
-func (c *current) onDocumentFragment800() (interface{}, error) {
+func (c *current) onDocumentFragment809() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment800() (interface{}, error) {
+func (p *parser) callonDocumentFragment809() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment800()
+	return p.cur.onDocumentFragment809()
 }
 
-func (c *current) onDocumentFragment788(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment797(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment788() (interface{}, error) {
+func (p *parser) callonDocumentFragment797() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment788(stack["delimiter"])
+	return p.cur.onDocumentFragment797(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment807(start interface{}) (bool, error) {
+func (c *current) onDocumentFragment816(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment807() (bool, error) {
+func (p *parser) callonDocumentFragment816() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment807(stack["start"])
+	return p.cur.onDocumentFragment816(stack["start"])
 }
 
-func (c *current) onDocumentFragment819() (interface{}, error) {
+func (c *current) onDocumentFragment828() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment819() (interface{}, error) {
+func (p *parser) callonDocumentFragment828() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment819()
+	return p.cur.onDocumentFragment828()
 }
 
-func (c *current) onDocumentFragment825() (interface{}, error) {
+func (c *current) onDocumentFragment834() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment825() (interface{}, error) {
+func (p *parser) callonDocumentFragment834() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment825()
+	return p.cur.onDocumentFragment834()
 }
 
-func (c *current) onDocumentFragment828() (interface{}, error) {
+func (c *current) onDocumentFragment837() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment828() (interface{}, error) {
+func (p *parser) callonDocumentFragment837() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment828()
+	return p.cur.onDocumentFragment837()
 }
 
-func (c *current) onDocumentFragment816(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment825(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment816() (interface{}, error) {
+func (p *parser) callonDocumentFragment825() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment816(stack["delimiter"])
+	return p.cur.onDocumentFragment825(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment835(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment844(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment835() (bool, error) {
+func (p *parser) callonDocumentFragment844() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment835(stack["end"])
+	return p.cur.onDocumentFragment844(stack["end"])
 }
 
-func (c *current) onDocumentFragment844() (interface{}, error) {
+func (c *current) onDocumentFragment853() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment844() (interface{}, error) {
+func (p *parser) callonDocumentFragment853() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment844()
+	return p.cur.onDocumentFragment853()
 }
 
-func (c *current) onDocumentFragment848() (interface{}, error) {
+func (c *current) onDocumentFragment857() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment848() (interface{}, error) {
+func (p *parser) callonDocumentFragment857() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment848()
+	return p.cur.onDocumentFragment857()
 }
 
-func (c *current) onDocumentFragment839(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment848(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment839() (interface{}, error) {
+func (p *parser) callonDocumentFragment848() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment839(stack["content"])
+	return p.cur.onDocumentFragment848(stack["content"])
 }
 
-func (c *current) onDocumentFragment810(line interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment819(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment810() (interface{}, error) {
+func (p *parser) callonDocumentFragment819() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment810(stack["line"])
+	return p.cur.onDocumentFragment819(stack["line"])
 }
 
-func (c *current) onDocumentFragment863() (interface{}, error) {
+func (c *current) onDocumentFragment872() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment863() (interface{}, error) {
+func (p *parser) callonDocumentFragment872() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment863()
+	return p.cur.onDocumentFragment872()
 }
 
-func (c *current) onDocumentFragment869() (interface{}, error) {
+func (c *current) onDocumentFragment878() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment869() (interface{}, error) {
+func (p *parser) callonDocumentFragment878() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment869()
+	return p.cur.onDocumentFragment878()
 }
 
-func (c *current) onDocumentFragment872() (interface{}, error) {
+func (c *current) onDocumentFragment881() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment872() (interface{}, error) {
+func (p *parser) callonDocumentFragment881() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment872()
+	return p.cur.onDocumentFragment881()
 }
 
-func (c *current) onDocumentFragment860(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment869(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment860() (interface{}, error) {
+func (p *parser) callonDocumentFragment869() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment860(stack["delimiter"])
+	return p.cur.onDocumentFragment869(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment879(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment888(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment879() (bool, error) {
+func (p *parser) callonDocumentFragment888() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment879(stack["end"])
+	return p.cur.onDocumentFragment888(stack["end"])
 }
 
-func (c *current) onDocumentFragment785(start, content, end interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment794(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Passthrough, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment785() (interface{}, error) {
+func (p *parser) callonDocumentFragment794() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment785(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment794(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment888() (interface{}, error) {
+func (c *current) onDocumentFragment897() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment888() (interface{}, error) {
+func (p *parser) callonDocumentFragment897() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment888()
+	return p.cur.onDocumentFragment897()
 }
 
-func (c *current) onDocumentFragment894() (interface{}, error) {
+func (c *current) onDocumentFragment903() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment894() (interface{}, error) {
+func (p *parser) callonDocumentFragment903() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment894()
+	return p.cur.onDocumentFragment903()
 }
 
-func (c *current) onDocumentFragment897() (interface{}, error) {
+func (c *current) onDocumentFragment906() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment897() (interface{}, error) {
+func (p *parser) callonDocumentFragment906() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment897()
+	return p.cur.onDocumentFragment906()
 }
 
-func (c *current) onDocumentFragment885(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment894(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment885() (interface{}, error) {
+func (p *parser) callonDocumentFragment894() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment885(stack["delimiter"])
+	return p.cur.onDocumentFragment894(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment904(start interface{}) (bool, error) {
+func (c *current) onDocumentFragment913(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment904() (bool, error) {
+func (p *parser) callonDocumentFragment913() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment904(stack["start"])
+	return p.cur.onDocumentFragment913(stack["start"])
 }
 
-func (c *current) onDocumentFragment916() (interface{}, error) {
+func (c *current) onDocumentFragment925() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment916() (interface{}, error) {
+func (p *parser) callonDocumentFragment925() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment916()
+	return p.cur.onDocumentFragment925()
 }
 
-func (c *current) onDocumentFragment922() (interface{}, error) {
+func (c *current) onDocumentFragment931() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment922() (interface{}, error) {
+func (p *parser) callonDocumentFragment931() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment922()
+	return p.cur.onDocumentFragment931()
 }
 
-func (c *current) onDocumentFragment925() (interface{}, error) {
+func (c *current) onDocumentFragment934() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment925() (interface{}, error) {
+func (p *parser) callonDocumentFragment934() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment925()
+	return p.cur.onDocumentFragment934()
 }
 
-func (c *current) onDocumentFragment913(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment922(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment913() (interface{}, error) {
+func (p *parser) callonDocumentFragment922() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment913(stack["delimiter"])
+	return p.cur.onDocumentFragment922(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment932(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment941(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment932() (bool, error) {
+func (p *parser) callonDocumentFragment941() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment932(stack["end"])
+	return p.cur.onDocumentFragment941(stack["end"])
 }
 
-func (c *current) onDocumentFragment941() (interface{}, error) {
+func (c *current) onDocumentFragment950() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment941() (interface{}, error) {
+func (p *parser) callonDocumentFragment950() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment941()
+	return p.cur.onDocumentFragment950()
 }
 
-func (c *current) onDocumentFragment945() (interface{}, error) {
+func (c *current) onDocumentFragment954() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment945() (interface{}, error) {
+func (p *parser) callonDocumentFragment954() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment945()
+	return p.cur.onDocumentFragment954()
 }
 
-func (c *current) onDocumentFragment936(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment945(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment936() (interface{}, error) {
+func (p *parser) callonDocumentFragment945() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment936(stack["content"])
+	return p.cur.onDocumentFragment945(stack["content"])
 }
 
-func (c *current) onDocumentFragment907(line interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment916(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment907() (interface{}, error) {
+func (p *parser) callonDocumentFragment916() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment907(stack["line"])
+	return p.cur.onDocumentFragment916(stack["line"])
 }
 
-func (c *current) onDocumentFragment960() (interface{}, error) {
+func (c *current) onDocumentFragment969() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment960() (interface{}, error) {
+func (p *parser) callonDocumentFragment969() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment960()
+	return p.cur.onDocumentFragment969()
 }
 
-func (c *current) onDocumentFragment966() (interface{}, error) {
+func (c *current) onDocumentFragment975() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment966() (interface{}, error) {
+func (p *parser) callonDocumentFragment975() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment966()
+	return p.cur.onDocumentFragment975()
 }
 
-func (c *current) onDocumentFragment969() (interface{}, error) {
+func (c *current) onDocumentFragment978() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment969() (interface{}, error) {
+func (p *parser) callonDocumentFragment978() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment969()
+	return p.cur.onDocumentFragment978()
 }
 
-func (c *current) onDocumentFragment957(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment966(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment957() (interface{}, error) {
+func (p *parser) callonDocumentFragment966() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment957(stack["delimiter"])
+	return p.cur.onDocumentFragment966(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment976(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment985(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment976() (bool, error) {
+func (p *parser) callonDocumentFragment985() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment976(stack["end"])
+	return p.cur.onDocumentFragment985(stack["end"])
 }
 
-func (c *current) onDocumentFragment882(start, content, end interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment891(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Quote, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment882() (interface{}, error) {
+func (p *parser) callonDocumentFragment891() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment882(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment891(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment985() (interface{}, error) {
+func (c *current) onDocumentFragment994() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment985() (interface{}, error) {
+func (p *parser) callonDocumentFragment994() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment985()
+	return p.cur.onDocumentFragment994()
 }
 
-func (c *current) onDocumentFragment991() (interface{}, error) {
+func (c *current) onDocumentFragment1000() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment991() (interface{}, error) {
+func (p *parser) callonDocumentFragment1000() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment991()
+	return p.cur.onDocumentFragment1000()
 }
 
-func (c *current) onDocumentFragment994() (interface{}, error) {
+func (c *current) onDocumentFragment1003() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment994() (interface{}, error) {
+func (p *parser) callonDocumentFragment1003() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment994()
+	return p.cur.onDocumentFragment1003()
 }
 
-func (c *current) onDocumentFragment982(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment991(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment982() (interface{}, error) {
+func (p *parser) callonDocumentFragment991() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment982(stack["delimiter"])
+	return p.cur.onDocumentFragment991(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment1001(start interface{}) (bool, error) {
+func (c *current) onDocumentFragment1010(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment1001() (bool, error) {
+func (p *parser) callonDocumentFragment1010() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1001(stack["start"])
+	return p.cur.onDocumentFragment1010(stack["start"])
 }
 
-func (c *current) onDocumentFragment1013() (interface{}, error) {
+func (c *current) onDocumentFragment1022() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1013() (interface{}, error) {
+func (p *parser) callonDocumentFragment1022() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1013()
+	return p.cur.onDocumentFragment1022()
 }
 
-func (c *current) onDocumentFragment1019() (interface{}, error) {
+func (c *current) onDocumentFragment1028() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1019() (interface{}, error) {
+func (p *parser) callonDocumentFragment1028() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1019()
+	return p.cur.onDocumentFragment1028()
 }
 
-func (c *current) onDocumentFragment1022() (interface{}, error) {
+func (c *current) onDocumentFragment1031() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1022() (interface{}, error) {
+func (p *parser) callonDocumentFragment1031() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1022()
+	return p.cur.onDocumentFragment1031()
 }
 
-func (c *current) onDocumentFragment1010(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1019(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment1010() (interface{}, error) {
+func (p *parser) callonDocumentFragment1019() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1010(stack["delimiter"])
+	return p.cur.onDocumentFragment1019(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment1029(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment1038(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment1029() (bool, error) {
+func (p *parser) callonDocumentFragment1038() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1029(stack["end"])
+	return p.cur.onDocumentFragment1038(stack["end"])
 }
 
-func (c *current) onDocumentFragment1038() (interface{}, error) {
+func (c *current) onDocumentFragment1047() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1038() (interface{}, error) {
+func (p *parser) callonDocumentFragment1047() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1038()
+	return p.cur.onDocumentFragment1047()
 }
 
-func (c *current) onDocumentFragment1042() (interface{}, error) {
+func (c *current) onDocumentFragment1051() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1042() (interface{}, error) {
+func (p *parser) callonDocumentFragment1051() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1042()
+	return p.cur.onDocumentFragment1051()
 }
 
-func (c *current) onDocumentFragment1033(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1042(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1033() (interface{}, error) {
+func (p *parser) callonDocumentFragment1042() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1033(stack["content"])
+	return p.cur.onDocumentFragment1042(stack["content"])
 }
 
-func (c *current) onDocumentFragment1004(line interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1013(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment1004() (interface{}, error) {
+func (p *parser) callonDocumentFragment1013() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1004(stack["line"])
+	return p.cur.onDocumentFragment1013(stack["line"])
 }
 
-func (c *current) onDocumentFragment1057() (interface{}, error) {
+func (c *current) onDocumentFragment1066() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1057() (interface{}, error) {
+func (p *parser) callonDocumentFragment1066() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1057()
+	return p.cur.onDocumentFragment1066()
 }
 
-func (c *current) onDocumentFragment1063() (interface{}, error) {
+func (c *current) onDocumentFragment1072() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1063() (interface{}, error) {
+func (p *parser) callonDocumentFragment1072() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1063()
+	return p.cur.onDocumentFragment1072()
 }
 
-func (c *current) onDocumentFragment1066() (interface{}, error) {
+func (c *current) onDocumentFragment1075() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1066() (interface{}, error) {
+func (p *parser) callonDocumentFragment1075() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1066()
+	return p.cur.onDocumentFragment1075()
 }
 
-func (c *current) onDocumentFragment1054(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1063(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment1054() (interface{}, error) {
+func (p *parser) callonDocumentFragment1063() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1054(stack["delimiter"])
+	return p.cur.onDocumentFragment1063(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment1073(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment1082(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment1073() (bool, error) {
+func (p *parser) callonDocumentFragment1082() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1073(stack["end"])
+	return p.cur.onDocumentFragment1082(stack["end"])
 }
 
-func (c *current) onDocumentFragment979(start, content, end interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment988(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Sidebar, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment979() (interface{}, error) {
+func (p *parser) callonDocumentFragment988() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment979(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment988(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment1087() (interface{}, error) {
+func (c *current) onDocumentFragment1096() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1087() (interface{}, error) {
+func (p *parser) callonDocumentFragment1096() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1087()
+	return p.cur.onDocumentFragment1096()
 }
 
-func (c *current) onDocumentFragment1090() (interface{}, error) {
+func (c *current) onDocumentFragment1099() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1090() (interface{}, error) {
+func (p *parser) callonDocumentFragment1099() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1090()
+	return p.cur.onDocumentFragment1099()
 }
 
-func (c *current) onDocumentFragment1098() (interface{}, error) {
+func (c *current) onDocumentFragment1107() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1098() (interface{}, error) {
+func (p *parser) callonDocumentFragment1107() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1098()
+	return p.cur.onDocumentFragment1107()
 }
 
-func (c *current) onDocumentFragment1076() (interface{}, error) {
+func (c *current) onDocumentFragment1085() (interface{}, error) {
 
 	return types.NewThematicBreak()
 
 }
 
-func (p *parser) callonDocumentFragment1076() (interface{}, error) {
+func (p *parser) callonDocumentFragment1085() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1076()
+	return p.cur.onDocumentFragment1085()
 }
 
-func (c *current) onDocumentFragment1110() (interface{}, error) {
+func (c *current) onDocumentFragment1119() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1110() (interface{}, error) {
+func (p *parser) callonDocumentFragment1119() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1110()
+	return p.cur.onDocumentFragment1119()
 }
 
-func (c *current) onDocumentFragment1113() (interface{}, error) {
+func (c *current) onDocumentFragment1122() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1113() (interface{}, error) {
+func (p *parser) callonDocumentFragment1122() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1113()
+	return p.cur.onDocumentFragment1122()
 }
 
-func (c *current) onDocumentFragment1128() (interface{}, error) {
+func (c *current) onDocumentFragment1137() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1128() (interface{}, error) {
+func (p *parser) callonDocumentFragment1137() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1128()
+	return p.cur.onDocumentFragment1137()
 }
 
-func (c *current) onDocumentFragment1131() (interface{}, error) {
+func (c *current) onDocumentFragment1140() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1131() (interface{}, error) {
+func (p *parser) callonDocumentFragment1140() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1131()
+	return p.cur.onDocumentFragment1140()
 }
 
-func (c *current) onDocumentFragment1123() (interface{}, error) {
+func (c *current) onDocumentFragment1132() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1123() (interface{}, error) {
+func (p *parser) callonDocumentFragment1132() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1123()
+	return p.cur.onDocumentFragment1132()
 }
 
-func (c *current) onDocumentFragment1145() (interface{}, error) {
+func (c *current) onDocumentFragment1154() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1145() (interface{}, error) {
+func (p *parser) callonDocumentFragment1154() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1145()
+	return p.cur.onDocumentFragment1154()
 }
 
-func (c *current) onDocumentFragment1148() (interface{}, error) {
+func (c *current) onDocumentFragment1157() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1148() (interface{}, error) {
+func (p *parser) callonDocumentFragment1157() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1148()
+	return p.cur.onDocumentFragment1157()
 }
 
-func (c *current) onDocumentFragment1170() (interface{}, error) {
+func (c *current) onDocumentFragment1179() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1170() (interface{}, error) {
+func (p *parser) callonDocumentFragment1179() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1170()
+	return p.cur.onDocumentFragment1179()
 }
 
-func (c *current) onDocumentFragment1175() (interface{}, error) {
+func (c *current) onDocumentFragment1184() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1175() (interface{}, error) {
+func (p *parser) callonDocumentFragment1184() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1175()
+	return p.cur.onDocumentFragment1184()
 }
 
-func (c *current) onDocumentFragment1173(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1182(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1173() (interface{}, error) {
+func (p *parser) callonDocumentFragment1182() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1173(stack["content"])
+	return p.cur.onDocumentFragment1182(stack["content"])
 }
 
-func (c *current) onDocumentFragment1166(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1175(content interface{}) (interface{}, error) {
 	return types.NewInlineTableCell(content.(*types.RawLine))
 
 }
 
-func (p *parser) callonDocumentFragment1166() (interface{}, error) {
+func (p *parser) callonDocumentFragment1175() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1166(stack["content"])
+	return p.cur.onDocumentFragment1175(stack["content"])
 }
 
-func (c *current) onDocumentFragment1179() (interface{}, error) {
+func (c *current) onDocumentFragment1188() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1179() (interface{}, error) {
+func (p *parser) callonDocumentFragment1188() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1179()
+	return p.cur.onDocumentFragment1188()
 }
 
-func (c *current) onDocumentFragment1162(cells interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1171(cells interface{}) (interface{}, error) {
 
 	return cells, nil
 }
 
-func (p *parser) callonDocumentFragment1162() (interface{}, error) {
+func (p *parser) callonDocumentFragment1171() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1162(stack["cells"])
+	return p.cur.onDocumentFragment1171(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1196() (interface{}, error) {
+func (c *current) onDocumentFragment1205() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1196() (interface{}, error) {
+func (p *parser) callonDocumentFragment1205() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1196()
+	return p.cur.onDocumentFragment1205()
 }
 
-func (c *current) onDocumentFragment1199() (interface{}, error) {
+func (c *current) onDocumentFragment1208() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1199() (interface{}, error) {
+func (p *parser) callonDocumentFragment1208() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1199()
+	return p.cur.onDocumentFragment1208()
 }
 
-func (c *current) onDocumentFragment1214() (interface{}, error) {
+func (c *current) onDocumentFragment1223() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1214() (interface{}, error) {
+func (p *parser) callonDocumentFragment1223() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1214()
+	return p.cur.onDocumentFragment1223()
 }
 
-func (c *current) onDocumentFragment1217() (interface{}, error) {
+func (c *current) onDocumentFragment1226() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1217() (interface{}, error) {
+func (p *parser) callonDocumentFragment1226() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1217()
+	return p.cur.onDocumentFragment1226()
 }
 
-func (c *current) onDocumentFragment1209() (interface{}, error) {
+func (c *current) onDocumentFragment1218() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1209() (interface{}, error) {
+func (p *parser) callonDocumentFragment1218() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1209()
+	return p.cur.onDocumentFragment1218()
 }
 
-func (c *current) onDocumentFragment1226() (interface{}, error) {
+func (c *current) onDocumentFragment1235() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1226() (interface{}, error) {
+func (p *parser) callonDocumentFragment1235() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1226()
+	return p.cur.onDocumentFragment1235()
 }
 
-func (c *current) onDocumentFragment1231() (interface{}, error) {
+func (c *current) onDocumentFragment1240() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1231() (interface{}, error) {
+func (p *parser) callonDocumentFragment1240() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1231()
+	return p.cur.onDocumentFragment1240()
 }
 
-func (c *current) onDocumentFragment1234() (interface{}, error) {
+func (c *current) onDocumentFragment1243() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1234() (interface{}, error) {
+func (p *parser) callonDocumentFragment1243() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1234()
+	return p.cur.onDocumentFragment1243()
 }
 
-func (c *current) onDocumentFragment1248() (interface{}, error) {
+func (c *current) onDocumentFragment1257() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1248() (interface{}, error) {
+func (p *parser) callonDocumentFragment1257() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1248()
+	return p.cur.onDocumentFragment1257()
 }
 
-func (c *current) onDocumentFragment1251() (interface{}, error) {
+func (c *current) onDocumentFragment1260() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1251() (interface{}, error) {
+func (p *parser) callonDocumentFragment1260() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1251()
+	return p.cur.onDocumentFragment1260()
 }
 
-func (c *current) onDocumentFragment1266() (interface{}, error) {
+func (c *current) onDocumentFragment1275() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1266() (interface{}, error) {
+func (p *parser) callonDocumentFragment1275() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1266()
+	return p.cur.onDocumentFragment1275()
 }
 
-func (c *current) onDocumentFragment1269() (interface{}, error) {
+func (c *current) onDocumentFragment1278() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1269() (interface{}, error) {
+func (p *parser) callonDocumentFragment1278() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1269()
+	return p.cur.onDocumentFragment1278()
 }
 
-func (c *current) onDocumentFragment1261() (interface{}, error) {
+func (c *current) onDocumentFragment1270() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1261() (interface{}, error) {
+func (p *parser) callonDocumentFragment1270() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1261()
+	return p.cur.onDocumentFragment1270()
 }
 
-func (c *current) onDocumentFragment1280() (interface{}, error) {
+func (c *current) onDocumentFragment1289() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1280() (interface{}, error) {
+func (p *parser) callonDocumentFragment1289() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1280()
+	return p.cur.onDocumentFragment1289()
 }
 
-func (c *current) onDocumentFragment1285() (interface{}, error) {
+func (c *current) onDocumentFragment1294() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1285() (interface{}, error) {
+func (p *parser) callonDocumentFragment1294() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1285()
+	return p.cur.onDocumentFragment1294()
 }
 
-func (c *current) onDocumentFragment1290() (interface{}, error) {
+func (c *current) onDocumentFragment1299() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1290() (interface{}, error) {
+func (p *parser) callonDocumentFragment1299() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1290()
+	return p.cur.onDocumentFragment1299()
 }
 
-func (c *current) onDocumentFragment1241(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1250(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1241() (interface{}, error) {
+func (p *parser) callonDocumentFragment1250() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1241(stack["content"])
+	return p.cur.onDocumentFragment1250(stack["content"])
 }
 
-func (c *current) onDocumentFragment1189(format, content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1198(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonDocumentFragment1189() (interface{}, error) {
+func (p *parser) callonDocumentFragment1198() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1189(stack["format"], stack["content"])
+	return p.cur.onDocumentFragment1198(stack["format"], stack["content"])
 }
 
-func (c *current) onDocumentFragment1186(cells interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1195(cells interface{}) (interface{}, error) {
 	return cells, nil
 }
 
-func (p *parser) callonDocumentFragment1186() (interface{}, error) {
+func (p *parser) callonDocumentFragment1195() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1186(stack["cells"])
+	return p.cur.onDocumentFragment1195(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1159(cells interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1168(cells interface{}) (interface{}, error) {
 	return types.NewTableRow(cells.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment1159() (interface{}, error) {
+func (p *parser) callonDocumentFragment1168() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1159(stack["cells"])
+	return p.cur.onDocumentFragment1168(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1302() (interface{}, error) {
+func (c *current) onDocumentFragment1311() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1302() (interface{}, error) {
+func (p *parser) callonDocumentFragment1311() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1302()
+	return p.cur.onDocumentFragment1311()
 }
 
-func (c *current) onDocumentFragment1305() (interface{}, error) {
+func (c *current) onDocumentFragment1314() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1305() (interface{}, error) {
+func (p *parser) callonDocumentFragment1314() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1305()
+	return p.cur.onDocumentFragment1314()
 }
 
-func (c *current) onDocumentFragment1297() (interface{}, error) {
+func (c *current) onDocumentFragment1306() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1297() (interface{}, error) {
+func (p *parser) callonDocumentFragment1306() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1297()
+	return p.cur.onDocumentFragment1306()
 }
 
-func (c *current) onDocumentFragment1138(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1147(content interface{}) (interface{}, error) {
 	return content, nil
 
 }
 
-func (p *parser) callonDocumentFragment1138() (interface{}, error) {
+func (p *parser) callonDocumentFragment1147() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1138(stack["content"])
+	return p.cur.onDocumentFragment1147(stack["content"])
 }
 
-func (c *current) onDocumentFragment1316() (interface{}, error) {
+func (c *current) onDocumentFragment1325() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1316() (interface{}, error) {
+func (p *parser) callonDocumentFragment1325() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1316()
+	return p.cur.onDocumentFragment1325()
 }
 
-func (c *current) onDocumentFragment1319() (interface{}, error) {
+func (c *current) onDocumentFragment1328() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1319() (interface{}, error) {
+func (p *parser) callonDocumentFragment1328() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1319()
+	return p.cur.onDocumentFragment1328()
 }
 
-func (c *current) onDocumentFragment1106(lines interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1115(lines interface{}) (interface{}, error) {
 	return types.NewTable(lines.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment1106() (interface{}, error) {
+func (p *parser) callonDocumentFragment1115() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1106(stack["lines"])
+	return p.cur.onDocumentFragment1115(stack["lines"])
 }
 
-func (c *current) onDocumentFragment1334() (interface{}, error) {
+func (c *current) onDocumentFragment1343() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1334() (interface{}, error) {
+func (p *parser) callonDocumentFragment1343() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1334()
+	return p.cur.onDocumentFragment1343()
 }
 
-func (c *current) onDocumentFragment1338() (interface{}, error) {
+func (c *current) onDocumentFragment1347() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1338() (interface{}, error) {
+func (p *parser) callonDocumentFragment1347() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1338()
+	return p.cur.onDocumentFragment1347()
 }
 
-func (c *current) onDocumentFragment1328(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1337(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1328() (interface{}, error) {
+func (p *parser) callonDocumentFragment1337() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1328(stack["content"])
+	return p.cur.onDocumentFragment1337(stack["content"])
 }
 
-func (c *current) onDocumentFragment1347() (bool, error) {
+func (c *current) onDocumentFragment1356() (bool, error) {
 	return c.isFrontMatterAllowed(), nil
 
 }
 
-func (p *parser) callonDocumentFragment1347() (bool, error) {
+func (p *parser) callonDocumentFragment1356() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1347()
+	return p.cur.onDocumentFragment1356()
 }
 
-func (c *current) onDocumentFragment1353() (interface{}, error) {
+func (c *current) onDocumentFragment1362() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1353() (interface{}, error) {
+func (p *parser) callonDocumentFragment1362() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1353()
+	return p.cur.onDocumentFragment1362()
 }
 
-func (c *current) onDocumentFragment1356() (interface{}, error) {
+func (c *current) onDocumentFragment1365() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1356() (interface{}, error) {
+func (p *parser) callonDocumentFragment1365() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1356()
+	return p.cur.onDocumentFragment1365()
 }
 
-func (c *current) onDocumentFragment1373() (interface{}, error) {
+func (c *current) onDocumentFragment1382() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1373() (interface{}, error) {
+func (p *parser) callonDocumentFragment1382() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1373()
+	return p.cur.onDocumentFragment1382()
 }
 
-func (c *current) onDocumentFragment1376() (interface{}, error) {
+func (c *current) onDocumentFragment1385() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1376() (interface{}, error) {
+func (p *parser) callonDocumentFragment1385() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1376()
+	return p.cur.onDocumentFragment1385()
 }
 
-func (c *current) onDocumentFragment1365() (interface{}, error) {
+func (c *current) onDocumentFragment1374() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1365() (interface{}, error) {
+func (p *parser) callonDocumentFragment1374() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1365()
+	return p.cur.onDocumentFragment1374()
 }
 
-func (c *current) onDocumentFragment1386() (interface{}, error) {
+func (c *current) onDocumentFragment1395() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1386() (interface{}, error) {
+func (p *parser) callonDocumentFragment1395() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1386()
+	return p.cur.onDocumentFragment1395()
 }
 
-func (c *current) onDocumentFragment1389() (interface{}, error) {
+func (c *current) onDocumentFragment1398() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1389() (interface{}, error) {
+func (p *parser) callonDocumentFragment1398() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1389()
+	return p.cur.onDocumentFragment1398()
 }
 
-func (c *current) onDocumentFragment1349(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1358(content interface{}) (interface{}, error) {
 	return types.NewYamlFrontMatter(content.(string))
 }
 
-func (p *parser) callonDocumentFragment1349() (interface{}, error) {
+func (p *parser) callonDocumentFragment1358() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1349(stack["content"])
+	return p.cur.onDocumentFragment1358(stack["content"])
 }
 
-func (c *current) onDocumentFragment1345(frontmatter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1354(frontmatter interface{}) (interface{}, error) {
 	return frontmatter, nil
 
 }
 
-func (p *parser) callonDocumentFragment1345() (interface{}, error) {
+func (p *parser) callonDocumentFragment1354() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1345(stack["frontmatter"])
+	return p.cur.onDocumentFragment1354(stack["frontmatter"])
 }
 
-func (c *current) onDocumentFragment1397(attributes, element interface{}) (bool, error) {
+func (c *current) onDocumentFragment1406(attributes, element interface{}) (bool, error) {
 	// there must be at least `attributes` or `element`
 	return attributes != nil || element != nil, nil
 
 }
 
-func (p *parser) callonDocumentFragment1397() (bool, error) {
+func (p *parser) callonDocumentFragment1406() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1397(stack["attributes"], stack["element"])
+	return p.cur.onDocumentFragment1406(stack["attributes"], stack["element"])
 }
 
 func (c *current) onDocumentFragment1(attributes, element interface{}) (interface{}, error) {
@@ -55479,194 +55740,227 @@ func (p *parser) callonDocumentHeader6() (interface{}, error) {
 	return p.cur.onDocumentHeader6(stack["content"])
 }
 
-func (c *current) onDocumentHeader28() (interface{}, error) {
+func (c *current) onDocumentHeader29() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader28() (interface{}, error) {
+func (p *parser) callonDocumentHeader29() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader28()
+	return p.cur.onDocumentHeader29()
 }
 
-func (c *current) onDocumentHeader34() (interface{}, error) {
+func (c *current) onDocumentHeader35() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader34() (interface{}, error) {
+func (p *parser) callonDocumentHeader35() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader34()
+	return p.cur.onDocumentHeader35()
 }
 
-func (c *current) onDocumentHeader37() (interface{}, error) {
+func (c *current) onDocumentHeader38() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader37() (interface{}, error) {
+func (p *parser) callonDocumentHeader38() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader37()
+	return p.cur.onDocumentHeader38()
 }
 
-func (c *current) onDocumentHeader25(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader26(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader25() (interface{}, error) {
+func (p *parser) callonDocumentHeader26() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader26(stack["delimiter"])
+}
+
+func (c *current) onDocumentHeader45(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentHeader45() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader25(stack["delimiter"])
+	return p.cur.onDocumentHeader45(stack["start"])
 }
 
-func (c *current) onDocumentHeader53() (interface{}, error) {
+func (c *current) onDocumentHeader57() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader53() (interface{}, error) {
+func (p *parser) callonDocumentHeader57() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader53()
+	return p.cur.onDocumentHeader57()
 }
 
-func (c *current) onDocumentHeader59() (interface{}, error) {
+func (c *current) onDocumentHeader63() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader59() (interface{}, error) {
+func (p *parser) callonDocumentHeader63() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader59()
+	return p.cur.onDocumentHeader63()
 }
 
-func (c *current) onDocumentHeader62() (interface{}, error) {
+func (c *current) onDocumentHeader66() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader62() (interface{}, error) {
+func (p *parser) callonDocumentHeader66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader62()
+	return p.cur.onDocumentHeader66()
 }
 
-func (c *current) onDocumentHeader50(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader54(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader50() (interface{}, error) {
+func (p *parser) callonDocumentHeader54() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader54(stack["delimiter"])
+}
+
+func (c *current) onDocumentHeader73(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentHeader73() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader50(stack["delimiter"])
+	return p.cur.onDocumentHeader73(stack["end"])
 }
 
-func (c *current) onDocumentHeader77() (interface{}, error) {
+func (c *current) onDocumentHeader82() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader77() (interface{}, error) {
+func (p *parser) callonDocumentHeader82() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader77()
+	return p.cur.onDocumentHeader82()
 }
 
-func (c *current) onDocumentHeader81() (interface{}, error) {
+func (c *current) onDocumentHeader86() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader81() (interface{}, error) {
+func (p *parser) callonDocumentHeader86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader81()
+	return p.cur.onDocumentHeader86()
 }
 
-func (c *current) onDocumentHeader72(content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader77(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentHeader72() (interface{}, error) {
+func (p *parser) callonDocumentHeader77() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader72(stack["content"])
+	return p.cur.onDocumentHeader77(stack["content"])
 }
 
-func (c *current) onDocumentHeader46(line interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader48(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentHeader46() (interface{}, error) {
+func (p *parser) callonDocumentHeader48() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader46(stack["line"])
+	return p.cur.onDocumentHeader48(stack["line"])
 }
 
-func (c *current) onDocumentHeader93() (interface{}, error) {
+func (c *current) onDocumentHeader101() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader93() (interface{}, error) {
+func (p *parser) callonDocumentHeader101() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader93()
+	return p.cur.onDocumentHeader101()
 }
 
-func (c *current) onDocumentHeader99() (interface{}, error) {
+func (c *current) onDocumentHeader107() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader99() (interface{}, error) {
+func (p *parser) callonDocumentHeader107() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader99()
+	return p.cur.onDocumentHeader107()
 }
 
-func (c *current) onDocumentHeader102() (interface{}, error) {
+func (c *current) onDocumentHeader110() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader102() (interface{}, error) {
+func (p *parser) callonDocumentHeader110() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader102()
+	return p.cur.onDocumentHeader110()
 }
 
-func (c *current) onDocumentHeader90(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader98(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader90() (interface{}, error) {
+func (p *parser) callonDocumentHeader98() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader90(stack["delimiter"])
+	return p.cur.onDocumentHeader98(stack["delimiter"])
 }
 
-func (c *current) onDocumentHeader23(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader117(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentHeader117() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader117(stack["end"])
+}
+
+func (c *current) onDocumentHeader23(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
 
 }
@@ -55674,1116 +55968,1215 @@ func (c *current) onDocumentHeader23(delimiter, content interface{}) (interface{
 func (p *parser) callonDocumentHeader23() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader23(stack["delimiter"], stack["content"])
+	return p.cur.onDocumentHeader23(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentHeader121() (interface{}, error) {
+func (c *current) onDocumentHeader130() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader121() (interface{}, error) {
+func (p *parser) callonDocumentHeader130() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader121()
+	return p.cur.onDocumentHeader130()
 }
 
-func (c *current) onDocumentHeader125() (interface{}, error) {
+func (c *current) onDocumentHeader134() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader125() (interface{}, error) {
+func (p *parser) callonDocumentHeader134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader125()
+	return p.cur.onDocumentHeader134()
 }
 
-func (c *current) onDocumentHeader115(content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader124(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentHeader115() (interface{}, error) {
+func (p *parser) callonDocumentHeader124() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader115(stack["content"])
+	return p.cur.onDocumentHeader124(stack["content"])
 }
 
-func (c *current) onDocumentHeader137() (interface{}, error) {
+func (c *current) onDocumentHeader147() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader137() (interface{}, error) {
+func (p *parser) callonDocumentHeader147() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader137()
+	return p.cur.onDocumentHeader147()
 }
 
-func (c *current) onDocumentHeader143() (interface{}, error) {
+func (c *current) onDocumentHeader153() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader143() (interface{}, error) {
+func (p *parser) callonDocumentHeader153() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader143()
+	return p.cur.onDocumentHeader153()
 }
 
-func (c *current) onDocumentHeader146() (interface{}, error) {
+func (c *current) onDocumentHeader156() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader146() (interface{}, error) {
+func (p *parser) callonDocumentHeader156() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader146()
+	return p.cur.onDocumentHeader156()
 }
 
-func (c *current) onDocumentHeader134(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader144(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader134() (interface{}, error) {
+func (p *parser) callonDocumentHeader144() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader134(stack["delimiter"])
+	return p.cur.onDocumentHeader144(stack["delimiter"])
+}
+
+func (c *current) onDocumentHeader163(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+
 }
 
-func (c *current) onDocumentHeader162() (interface{}, error) {
+func (p *parser) callonDocumentHeader163() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader163(stack["start"])
+}
+
+func (c *current) onDocumentHeader175() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader162() (interface{}, error) {
+func (p *parser) callonDocumentHeader175() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader162()
+	return p.cur.onDocumentHeader175()
 }
 
-func (c *current) onDocumentHeader168() (interface{}, error) {
+func (c *current) onDocumentHeader181() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader168() (interface{}, error) {
+func (p *parser) callonDocumentHeader181() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader168()
+	return p.cur.onDocumentHeader181()
 }
 
-func (c *current) onDocumentHeader171() (interface{}, error) {
+func (c *current) onDocumentHeader184() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader171() (interface{}, error) {
+func (p *parser) callonDocumentHeader184() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader171()
+	return p.cur.onDocumentHeader184()
 }
 
-func (c *current) onDocumentHeader159(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader172(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader159() (interface{}, error) {
+func (p *parser) callonDocumentHeader172() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader172(stack["delimiter"])
+}
+
+func (c *current) onDocumentHeader191(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentHeader191() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader159(stack["delimiter"])
+	return p.cur.onDocumentHeader191(stack["end"])
 }
 
-func (c *current) onDocumentHeader186() (interface{}, error) {
+func (c *current) onDocumentHeader200() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader186() (interface{}, error) {
+func (p *parser) callonDocumentHeader200() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader186()
+	return p.cur.onDocumentHeader200()
 }
 
-func (c *current) onDocumentHeader190() (interface{}, error) {
+func (c *current) onDocumentHeader204() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader190() (interface{}, error) {
+func (p *parser) callonDocumentHeader204() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader190()
+	return p.cur.onDocumentHeader204()
 }
 
-func (c *current) onDocumentHeader181(content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader195(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentHeader181() (interface{}, error) {
+func (p *parser) callonDocumentHeader195() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader181(stack["content"])
+	return p.cur.onDocumentHeader195(stack["content"])
 }
 
-func (c *current) onDocumentHeader155(line interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader166(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentHeader155() (interface{}, error) {
+func (p *parser) callonDocumentHeader166() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader155(stack["line"])
+	return p.cur.onDocumentHeader166(stack["line"])
 }
 
-func (c *current) onDocumentHeader202() (interface{}, error) {
+func (c *current) onDocumentHeader219() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader202() (interface{}, error) {
+func (p *parser) callonDocumentHeader219() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader202()
+	return p.cur.onDocumentHeader219()
 }
 
-func (c *current) onDocumentHeader208() (interface{}, error) {
+func (c *current) onDocumentHeader225() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader208() (interface{}, error) {
+func (p *parser) callonDocumentHeader225() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader208()
+	return p.cur.onDocumentHeader225()
 }
 
-func (c *current) onDocumentHeader211() (interface{}, error) {
+func (c *current) onDocumentHeader228() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader211() (interface{}, error) {
+func (p *parser) callonDocumentHeader228() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader211()
+	return p.cur.onDocumentHeader228()
 }
 
-func (c *current) onDocumentHeader199(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader216(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader199() (interface{}, error) {
+func (p *parser) callonDocumentHeader216() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader199(stack["delimiter"])
+	return p.cur.onDocumentHeader216(stack["delimiter"])
 }
 
-func (c *current) onDocumentHeader132(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader235(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentHeader235() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader235(stack["end"])
+}
+
+func (c *current) onDocumentHeader141(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentHeader132() (interface{}, error) {
+func (p *parser) callonDocumentHeader141() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader132(stack["delimiter"], stack["content"])
+	return p.cur.onDocumentHeader141(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentHeader230() (interface{}, error) {
+func (c *current) onDocumentHeader248() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader230() (interface{}, error) {
+func (p *parser) callonDocumentHeader248() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader230()
+	return p.cur.onDocumentHeader248()
 }
 
-func (c *current) onDocumentHeader241() (interface{}, error) {
+func (c *current) onDocumentHeader259() (interface{}, error) {
 	// no space allowed
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader241() (interface{}, error) {
+func (p *parser) callonDocumentHeader259() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader241()
+	return p.cur.onDocumentHeader259()
 }
 
-func (c *current) onDocumentHeader245() (interface{}, error) {
+func (c *current) onDocumentHeader263() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader245() (interface{}, error) {
+func (p *parser) callonDocumentHeader263() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader245()
+	return p.cur.onDocumentHeader263()
 }
 
-func (c *current) onDocumentHeader249() (interface{}, error) {
+func (c *current) onDocumentHeader267() (interface{}, error) {
 	// no space allowed
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader249() (interface{}, error) {
+func (p *parser) callonDocumentHeader267() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader249()
+	return p.cur.onDocumentHeader267()
 }
 
-func (c *current) onDocumentHeader253() (interface{}, error) {
+func (c *current) onDocumentHeader271() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader253() (interface{}, error) {
+func (p *parser) callonDocumentHeader271() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader253()
+	return p.cur.onDocumentHeader271()
 }
 
-func (c *current) onDocumentHeader257() (interface{}, error) {
+func (c *current) onDocumentHeader275() (interface{}, error) {
 	// spaces allowed
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader257() (interface{}, error) {
+func (p *parser) callonDocumentHeader275() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader257()
+	return p.cur.onDocumentHeader275()
 }
 
-func (c *current) onDocumentHeader261() (interface{}, error) {
+func (c *current) onDocumentHeader279() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader261() (interface{}, error) {
+func (p *parser) callonDocumentHeader279() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader261()
+	return p.cur.onDocumentHeader279()
 }
 
-func (c *current) onDocumentHeader238(part1, part2, part3 interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader256(part1, part2, part3 interface{}) (interface{}, error) {
 	return types.NewDocumentAuthorFullName(part1.(string), part2, part3)
 
 }
 
-func (p *parser) callonDocumentHeader238() (interface{}, error) {
+func (p *parser) callonDocumentHeader256() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader238(stack["part1"], stack["part2"], stack["part3"])
+	return p.cur.onDocumentHeader256(stack["part1"], stack["part2"], stack["part3"])
 }
 
-func (c *current) onDocumentHeader271() (interface{}, error) {
+func (c *current) onDocumentHeader289() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader271() (interface{}, error) {
+func (p *parser) callonDocumentHeader289() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader271()
+	return p.cur.onDocumentHeader289()
 }
 
-func (c *current) onDocumentHeader265(email interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader283(email interface{}) (interface{}, error) {
 	return email, nil
 
 }
 
-func (p *parser) callonDocumentHeader265() (interface{}, error) {
+func (p *parser) callonDocumentHeader283() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader265(stack["email"])
+	return p.cur.onDocumentHeader283(stack["email"])
 }
 
-func (c *current) onDocumentHeader276() (interface{}, error) {
+func (c *current) onDocumentHeader294() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader276() (interface{}, error) {
+func (p *parser) callonDocumentHeader294() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader276()
+	return p.cur.onDocumentHeader294()
 }
 
-func (c *current) onDocumentHeader281() (interface{}, error) {
+func (c *current) onDocumentHeader299() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader281() (interface{}, error) {
+func (p *parser) callonDocumentHeader299() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader281()
+	return p.cur.onDocumentHeader299()
 }
 
-func (c *current) onDocumentHeader283(fullName, email interface{}) (bool, error) {
+func (c *current) onDocumentHeader301(fullName, email interface{}) (bool, error) {
 	// at least 1 of [fullName, email] must be defined
 	return fullName != nil || email != nil, nil
 
 }
 
-func (p *parser) callonDocumentHeader283() (bool, error) {
+func (p *parser) callonDocumentHeader301() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader283(stack["fullName"], stack["email"])
+	return p.cur.onDocumentHeader301(stack["fullName"], stack["email"])
 }
 
-func (c *current) onDocumentHeader234(fullName, email interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader252(fullName, email interface{}) (interface{}, error) {
 	return types.NewDocumentAuthor(fullName, email)
 
 }
 
-func (p *parser) callonDocumentHeader234() (interface{}, error) {
+func (p *parser) callonDocumentHeader252() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader234(stack["fullName"], stack["email"])
+	return p.cur.onDocumentHeader252(stack["fullName"], stack["email"])
 }
 
-func (c *current) onDocumentHeader285() (interface{}, error) {
+func (c *current) onDocumentHeader303() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader285() (interface{}, error) {
+func (p *parser) callonDocumentHeader303() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader285()
+	return p.cur.onDocumentHeader303()
 }
 
-func (c *current) onDocumentHeader227(authors interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader245(authors interface{}) (interface{}, error) {
 	return types.NewDocumentAuthors(authors.([]interface{})...)
 }
 
-func (p *parser) callonDocumentHeader227() (interface{}, error) {
+func (p *parser) callonDocumentHeader245() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader227(stack["authors"])
+	return p.cur.onDocumentHeader245(stack["authors"])
 }
 
-func (c *current) onDocumentHeader300() (interface{}, error) {
+func (c *current) onDocumentHeader318() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader300() (interface{}, error) {
+func (p *parser) callonDocumentHeader318() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader300()
+	return p.cur.onDocumentHeader318()
 }
 
-func (c *current) onDocumentHeader304() (interface{}, error) {
+func (c *current) onDocumentHeader322() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader304() (interface{}, error) {
+func (p *parser) callonDocumentHeader322() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader304()
+	return p.cur.onDocumentHeader322()
 }
 
-func (c *current) onDocumentHeader294(content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader312(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentHeader294() (interface{}, error) {
+func (p *parser) callonDocumentHeader312() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader294(stack["content"])
+	return p.cur.onDocumentHeader312(stack["content"])
 }
 
-func (c *current) onDocumentHeader316() (interface{}, error) {
+func (c *current) onDocumentHeader335() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader316() (interface{}, error) {
+func (p *parser) callonDocumentHeader335() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader316()
+	return p.cur.onDocumentHeader335()
 }
 
-func (c *current) onDocumentHeader322() (interface{}, error) {
+func (c *current) onDocumentHeader341() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader322() (interface{}, error) {
+func (p *parser) callonDocumentHeader341() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader322()
+	return p.cur.onDocumentHeader341()
 }
 
-func (c *current) onDocumentHeader325() (interface{}, error) {
+func (c *current) onDocumentHeader344() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader325() (interface{}, error) {
+func (p *parser) callonDocumentHeader344() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader325()
+	return p.cur.onDocumentHeader344()
 }
 
-func (c *current) onDocumentHeader313(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader332(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader313() (interface{}, error) {
+func (p *parser) callonDocumentHeader332() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader313(stack["delimiter"])
+	return p.cur.onDocumentHeader332(stack["delimiter"])
 }
 
-func (c *current) onDocumentHeader341() (interface{}, error) {
+func (c *current) onDocumentHeader351(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentHeader351() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader351(stack["start"])
+}
+
+func (c *current) onDocumentHeader363() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader341() (interface{}, error) {
+func (p *parser) callonDocumentHeader363() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader341()
+	return p.cur.onDocumentHeader363()
 }
 
-func (c *current) onDocumentHeader347() (interface{}, error) {
+func (c *current) onDocumentHeader369() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader347() (interface{}, error) {
+func (p *parser) callonDocumentHeader369() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader347()
+	return p.cur.onDocumentHeader369()
 }
 
-func (c *current) onDocumentHeader350() (interface{}, error) {
+func (c *current) onDocumentHeader372() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader350() (interface{}, error) {
+func (p *parser) callonDocumentHeader372() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader350()
+	return p.cur.onDocumentHeader372()
 }
 
-func (c *current) onDocumentHeader338(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader360(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader338() (interface{}, error) {
+func (p *parser) callonDocumentHeader360() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader338(stack["delimiter"])
+	return p.cur.onDocumentHeader360(stack["delimiter"])
 }
 
-func (c *current) onDocumentHeader365() (interface{}, error) {
+func (c *current) onDocumentHeader379(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentHeader379() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader379(stack["end"])
+}
+
+func (c *current) onDocumentHeader388() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader365() (interface{}, error) {
+func (p *parser) callonDocumentHeader388() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader365()
+	return p.cur.onDocumentHeader388()
 }
 
-func (c *current) onDocumentHeader369() (interface{}, error) {
+func (c *current) onDocumentHeader392() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader369() (interface{}, error) {
+func (p *parser) callonDocumentHeader392() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader369()
+	return p.cur.onDocumentHeader392()
 }
 
-func (c *current) onDocumentHeader360(content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader383(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentHeader360() (interface{}, error) {
+func (p *parser) callonDocumentHeader383() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader360(stack["content"])
+	return p.cur.onDocumentHeader383(stack["content"])
 }
 
-func (c *current) onDocumentHeader334(line interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader354(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentHeader334() (interface{}, error) {
+func (p *parser) callonDocumentHeader354() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader334(stack["line"])
+	return p.cur.onDocumentHeader354(stack["line"])
 }
 
-func (c *current) onDocumentHeader381() (interface{}, error) {
+func (c *current) onDocumentHeader407() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader381() (interface{}, error) {
+func (p *parser) callonDocumentHeader407() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader381()
+	return p.cur.onDocumentHeader407()
 }
 
-func (c *current) onDocumentHeader387() (interface{}, error) {
+func (c *current) onDocumentHeader413() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader387() (interface{}, error) {
+func (p *parser) callonDocumentHeader413() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader387()
+	return p.cur.onDocumentHeader413()
 }
 
-func (c *current) onDocumentHeader390() (interface{}, error) {
+func (c *current) onDocumentHeader416() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader390() (interface{}, error) {
+func (p *parser) callonDocumentHeader416() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader390()
+	return p.cur.onDocumentHeader416()
 }
 
-func (c *current) onDocumentHeader378(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader404(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader378() (interface{}, error) {
+func (p *parser) callonDocumentHeader404() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader404(stack["delimiter"])
+}
+
+func (c *current) onDocumentHeader423(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentHeader423() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader378(stack["delimiter"])
+	return p.cur.onDocumentHeader423(stack["end"])
 }
 
-func (c *current) onDocumentHeader311(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader329(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentHeader311() (interface{}, error) {
+func (p *parser) callonDocumentHeader329() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader311(stack["delimiter"], stack["content"])
+	return p.cur.onDocumentHeader329(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentHeader404() (interface{}, error) {
+func (c *current) onDocumentHeader431() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader404() (interface{}, error) {
+func (p *parser) callonDocumentHeader431() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader404()
+	return p.cur.onDocumentHeader431()
 }
 
-func (c *current) onDocumentHeader414() (interface{}, error) {
+func (c *current) onDocumentHeader441() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader414() (interface{}, error) {
+func (p *parser) callonDocumentHeader441() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader414()
+	return p.cur.onDocumentHeader441()
 }
 
-func (c *current) onDocumentHeader428() (interface{}, error) {
+func (c *current) onDocumentHeader455() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader428() (interface{}, error) {
+func (p *parser) callonDocumentHeader455() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader428()
+	return p.cur.onDocumentHeader455()
 }
 
-func (c *current) onDocumentHeader420() (interface{}, error) {
+func (c *current) onDocumentHeader447() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader420() (interface{}, error) {
+func (p *parser) callonDocumentHeader447() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader420()
+	return p.cur.onDocumentHeader447()
 }
 
-func (c *current) onDocumentHeader436() (interface{}, error) {
+func (c *current) onDocumentHeader463() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader436() (interface{}, error) {
+func (p *parser) callonDocumentHeader463() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader436()
+	return p.cur.onDocumentHeader463()
 }
 
-func (c *current) onDocumentHeader443() (interface{}, error) {
+func (c *current) onDocumentHeader470() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader443() (interface{}, error) {
+func (p *parser) callonDocumentHeader470() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader443()
+	return p.cur.onDocumentHeader470()
 }
 
-func (c *current) onDocumentHeader410(revnumber, revdate, revremark interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader437(revnumber, revdate, revremark interface{}) (interface{}, error) {
 	return types.NewDocumentRevision(revnumber, revdate, revremark)
 
 }
 
-func (p *parser) callonDocumentHeader410() (interface{}, error) {
+func (p *parser) callonDocumentHeader437() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader410(stack["revnumber"], stack["revdate"], stack["revremark"])
+	return p.cur.onDocumentHeader437(stack["revnumber"], stack["revdate"], stack["revremark"])
 }
 
-func (c *current) onDocumentHeader449() (interface{}, error) {
+func (c *current) onDocumentHeader476() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader449() (interface{}, error) {
+func (p *parser) callonDocumentHeader476() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader449()
+	return p.cur.onDocumentHeader476()
 }
 
-func (c *current) onDocumentHeader456() (interface{}, error) {
+func (c *current) onDocumentHeader483() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader456() (interface{}, error) {
+func (p *parser) callonDocumentHeader483() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader456()
+	return p.cur.onDocumentHeader483()
 }
 
-func (c *current) onDocumentHeader446(revdate, revremark interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader473(revdate, revremark interface{}) (interface{}, error) {
 	return types.NewDocumentRevision(nil, revdate, revremark)
 
 }
 
-func (p *parser) callonDocumentHeader446() (interface{}, error) {
+func (p *parser) callonDocumentHeader473() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader446(stack["revdate"], stack["revremark"])
+	return p.cur.onDocumentHeader473(stack["revdate"], stack["revremark"])
 }
 
-func (c *current) onDocumentHeader460() (interface{}, error) {
+func (c *current) onDocumentHeader487() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader460() (interface{}, error) {
+func (p *parser) callonDocumentHeader487() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader460()
+	return p.cur.onDocumentHeader487()
 }
 
-func (c *current) onDocumentHeader401(revision interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader428(revision interface{}) (interface{}, error) {
 	return revision, nil
 }
 
-func (p *parser) callonDocumentHeader401() (interface{}, error) {
+func (p *parser) callonDocumentHeader428() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader401(stack["revision"])
+	return p.cur.onDocumentHeader428(stack["revision"])
 }
 
-func (c *current) onDocumentHeader222(authors, revision interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader240(authors, revision interface{}) (interface{}, error) {
 	return types.NewDocumentAuthorsAndRevision(authors.(types.DocumentAuthors), revision)
 
 }
 
-func (p *parser) callonDocumentHeader222() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentHeader222(stack["authors"], stack["revision"])
-}
-
-func (c *current) onDocumentHeader475() (interface{}, error) {
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonDocumentHeader475() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentHeader475()
-}
-
-func (c *current) onDocumentHeader482() (interface{}, error) {
-
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonDocumentHeader482() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentHeader482()
-}
-
-func (c *current) onDocumentHeader485() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
-}
-
-func (p *parser) callonDocumentHeader485() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentHeader485()
-}
-
-func (c *current) onDocumentHeader471(name interface{}) (interface{}, error) {
-	return types.NewAttributeReset(name.(string), string(c.text))
-
-}
-
-func (p *parser) callonDocumentHeader471() (interface{}, error) {
+func (p *parser) callonDocumentHeader240() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader471(stack["name"])
+	return p.cur.onDocumentHeader240(stack["authors"], stack["revision"])
 }
 
-func (c *current) onDocumentHeader496() (interface{}, error) {
+func (c *current) onDocumentHeader502() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader496() (interface{}, error) {
+func (p *parser) callonDocumentHeader502() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader496()
+	return p.cur.onDocumentHeader502()
 }
 
-func (c *current) onDocumentHeader503() (interface{}, error) {
+func (c *current) onDocumentHeader509() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader503() (interface{}, error) {
+func (p *parser) callonDocumentHeader509() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader503()
+	return p.cur.onDocumentHeader509()
 }
 
-func (c *current) onDocumentHeader506() (interface{}, error) {
+func (c *current) onDocumentHeader512() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader506() (interface{}, error) {
+func (p *parser) callonDocumentHeader512() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader506()
+	return p.cur.onDocumentHeader512()
 }
 
-func (c *current) onDocumentHeader492(name interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader498(name interface{}) (interface{}, error) {
 	return types.NewAttributeReset(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader492() (interface{}, error) {
+func (p *parser) callonDocumentHeader498() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader492(stack["name"])
+	return p.cur.onDocumentHeader498(stack["name"])
 }
 
-func (c *current) onDocumentHeader519() (interface{}, error) {
+func (c *current) onDocumentHeader523() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentHeader523() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader523()
+}
+
+func (c *current) onDocumentHeader530() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
+func (p *parser) callonDocumentHeader530() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader530()
+}
+
+func (c *current) onDocumentHeader533() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentHeader533() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader533()
+}
+
+func (c *current) onDocumentHeader519(name interface{}) (interface{}, error) {
+	return types.NewAttributeReset(name.(string), string(c.text))
+
+}
+
 func (p *parser) callonDocumentHeader519() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader519()
+	return p.cur.onDocumentHeader519(stack["name"])
 }
 
-func (c *current) onDocumentHeader523() (interface{}, error) {
+func (c *current) onDocumentHeader546() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentHeader546() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader546()
+}
+
+func (c *current) onDocumentHeader550() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader523() (interface{}, error) {
+func (p *parser) callonDocumentHeader550() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader523()
+	return p.cur.onDocumentHeader550()
 }
 
-func (c *current) onDocumentHeader513(content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader540(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentHeader513() (interface{}, error) {
+func (p *parser) callonDocumentHeader540() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader513(stack["content"])
+	return p.cur.onDocumentHeader540(stack["content"])
 }
 
-func (c *current) onDocumentHeader535() (interface{}, error) {
+func (c *current) onDocumentHeader563() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader535() (interface{}, error) {
+func (p *parser) callonDocumentHeader563() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader535()
+	return p.cur.onDocumentHeader563()
 }
 
-func (c *current) onDocumentHeader541() (interface{}, error) {
+func (c *current) onDocumentHeader569() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader541() (interface{}, error) {
+func (p *parser) callonDocumentHeader569() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader541()
+	return p.cur.onDocumentHeader569()
 }
 
-func (c *current) onDocumentHeader544() (interface{}, error) {
+func (c *current) onDocumentHeader572() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader544() (interface{}, error) {
+func (p *parser) callonDocumentHeader572() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader544()
+	return p.cur.onDocumentHeader572()
 }
 
-func (c *current) onDocumentHeader532(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader560(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader532() (interface{}, error) {
+func (p *parser) callonDocumentHeader560() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader560(stack["delimiter"])
+}
+
+func (c *current) onDocumentHeader579(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentHeader579() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader532(stack["delimiter"])
+	return p.cur.onDocumentHeader579(stack["start"])
 }
 
-func (c *current) onDocumentHeader560() (interface{}, error) {
+func (c *current) onDocumentHeader591() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader560() (interface{}, error) {
+func (p *parser) callonDocumentHeader591() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader560()
+	return p.cur.onDocumentHeader591()
 }
 
-func (c *current) onDocumentHeader566() (interface{}, error) {
+func (c *current) onDocumentHeader597() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader566() (interface{}, error) {
+func (p *parser) callonDocumentHeader597() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader566()
+	return p.cur.onDocumentHeader597()
 }
 
-func (c *current) onDocumentHeader569() (interface{}, error) {
+func (c *current) onDocumentHeader600() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader569() (interface{}, error) {
+func (p *parser) callonDocumentHeader600() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader569()
+	return p.cur.onDocumentHeader600()
 }
 
-func (c *current) onDocumentHeader557(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader588(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader557() (interface{}, error) {
+func (p *parser) callonDocumentHeader588() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader557(stack["delimiter"])
+	return p.cur.onDocumentHeader588(stack["delimiter"])
 }
 
-func (c *current) onDocumentHeader584() (interface{}, error) {
+func (c *current) onDocumentHeader607(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentHeader607() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader607(stack["end"])
+}
+
+func (c *current) onDocumentHeader616() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader584() (interface{}, error) {
+func (p *parser) callonDocumentHeader616() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader584()
+	return p.cur.onDocumentHeader616()
 }
 
-func (c *current) onDocumentHeader588() (interface{}, error) {
+func (c *current) onDocumentHeader620() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader588() (interface{}, error) {
+func (p *parser) callonDocumentHeader620() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader588()
+	return p.cur.onDocumentHeader620()
 }
 
-func (c *current) onDocumentHeader579(content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader611(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentHeader579() (interface{}, error) {
+func (p *parser) callonDocumentHeader611() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader579(stack["content"])
+	return p.cur.onDocumentHeader611(stack["content"])
 }
 
-func (c *current) onDocumentHeader553(line interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader582(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentHeader553() (interface{}, error) {
+func (p *parser) callonDocumentHeader582() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader553(stack["line"])
+	return p.cur.onDocumentHeader582(stack["line"])
 }
 
-func (c *current) onDocumentHeader600() (interface{}, error) {
+func (c *current) onDocumentHeader635() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader600() (interface{}, error) {
+func (p *parser) callonDocumentHeader635() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader600()
+	return p.cur.onDocumentHeader635()
 }
 
-func (c *current) onDocumentHeader606() (interface{}, error) {
+func (c *current) onDocumentHeader641() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentHeader606() (interface{}, error) {
+func (p *parser) callonDocumentHeader641() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader606()
+	return p.cur.onDocumentHeader641()
 }
 
-func (c *current) onDocumentHeader609() (interface{}, error) {
+func (c *current) onDocumentHeader644() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentHeader609() (interface{}, error) {
+func (p *parser) callonDocumentHeader644() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader609()
+	return p.cur.onDocumentHeader644()
 }
 
-func (c *current) onDocumentHeader597(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader632(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentHeader597() (interface{}, error) {
+func (p *parser) callonDocumentHeader632() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentHeader632(stack["delimiter"])
+}
+
+func (c *current) onDocumentHeader651(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentHeader651() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader597(stack["delimiter"])
+	return p.cur.onDocumentHeader651(stack["end"])
 }
 
-func (c *current) onDocumentHeader530(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onDocumentHeader557(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentHeader530() (interface{}, error) {
+func (p *parser) callonDocumentHeader557() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentHeader530(stack["delimiter"], stack["content"])
+	return p.cur.onDocumentHeader557(stack["start"], stack["content"], stack["end"])
 }
 
 func (c *current) onDocumentHeader1(title, authorsAndRevision, extraElements interface{}) (interface{}, error) {
@@ -63376,194 +63769,227 @@ func (p *parser) callonListContinuationElement269() (interface{}, error) {
 	return p.cur.onListContinuationElement269(stack["name"])
 }
 
-func (c *current) onListContinuationElement295() (interface{}, error) {
+func (c *current) onListContinuationElement296() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement295() (interface{}, error) {
+func (p *parser) callonListContinuationElement296() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement295()
+	return p.cur.onListContinuationElement296()
 }
 
-func (c *current) onListContinuationElement301() (interface{}, error) {
+func (c *current) onListContinuationElement302() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement301() (interface{}, error) {
+func (p *parser) callonListContinuationElement302() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement301()
+	return p.cur.onListContinuationElement302()
 }
 
-func (c *current) onListContinuationElement304() (interface{}, error) {
+func (c *current) onListContinuationElement305() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement304() (interface{}, error) {
+func (p *parser) callonListContinuationElement305() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement304()
+	return p.cur.onListContinuationElement305()
 }
 
-func (c *current) onListContinuationElement292(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement293(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement292() (interface{}, error) {
+func (p *parser) callonListContinuationElement293() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement293(stack["delimiter"])
+}
+
+func (c *current) onListContinuationElement312(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonListContinuationElement312() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement292(stack["delimiter"])
+	return p.cur.onListContinuationElement312(stack["start"])
 }
 
-func (c *current) onListContinuationElement320() (interface{}, error) {
+func (c *current) onListContinuationElement324() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement320() (interface{}, error) {
+func (p *parser) callonListContinuationElement324() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement320()
+	return p.cur.onListContinuationElement324()
 }
 
-func (c *current) onListContinuationElement326() (interface{}, error) {
+func (c *current) onListContinuationElement330() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement326() (interface{}, error) {
+func (p *parser) callonListContinuationElement330() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement326()
+	return p.cur.onListContinuationElement330()
 }
 
-func (c *current) onListContinuationElement329() (interface{}, error) {
+func (c *current) onListContinuationElement333() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement329() (interface{}, error) {
+func (p *parser) callonListContinuationElement333() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement329()
+	return p.cur.onListContinuationElement333()
 }
 
-func (c *current) onListContinuationElement317(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement321(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement317() (interface{}, error) {
+func (p *parser) callonListContinuationElement321() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement321(stack["delimiter"])
+}
+
+func (c *current) onListContinuationElement340(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonListContinuationElement340() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement317(stack["delimiter"])
+	return p.cur.onListContinuationElement340(stack["end"])
 }
 
-func (c *current) onListContinuationElement344() (interface{}, error) {
+func (c *current) onListContinuationElement349() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement344() (interface{}, error) {
+func (p *parser) callonListContinuationElement349() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement344()
+	return p.cur.onListContinuationElement349()
 }
 
-func (c *current) onListContinuationElement348() (interface{}, error) {
+func (c *current) onListContinuationElement353() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement348() (interface{}, error) {
+func (p *parser) callonListContinuationElement353() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement348()
+	return p.cur.onListContinuationElement353()
 }
 
-func (c *current) onListContinuationElement339(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement344(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement339() (interface{}, error) {
+func (p *parser) callonListContinuationElement344() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement339(stack["content"])
+	return p.cur.onListContinuationElement344(stack["content"])
 }
 
-func (c *current) onListContinuationElement313(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement315(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement313() (interface{}, error) {
+func (p *parser) callonListContinuationElement315() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement313(stack["line"])
+	return p.cur.onListContinuationElement315(stack["line"])
 }
 
-func (c *current) onListContinuationElement360() (interface{}, error) {
+func (c *current) onListContinuationElement368() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement360() (interface{}, error) {
+func (p *parser) callonListContinuationElement368() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement360()
+	return p.cur.onListContinuationElement368()
 }
 
-func (c *current) onListContinuationElement366() (interface{}, error) {
+func (c *current) onListContinuationElement374() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement366() (interface{}, error) {
+func (p *parser) callonListContinuationElement374() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement366()
+	return p.cur.onListContinuationElement374()
 }
 
-func (c *current) onListContinuationElement369() (interface{}, error) {
+func (c *current) onListContinuationElement377() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement369() (interface{}, error) {
+func (p *parser) callonListContinuationElement377() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement369()
+	return p.cur.onListContinuationElement377()
 }
 
-func (c *current) onListContinuationElement357(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement365(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement357() (interface{}, error) {
+func (p *parser) callonListContinuationElement365() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement365(stack["delimiter"])
+}
+
+func (c *current) onListContinuationElement384(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonListContinuationElement384() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement357(stack["delimiter"])
+	return p.cur.onListContinuationElement384(stack["end"])
 }
 
-func (c *current) onListContinuationElement290(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement290(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
 
 }
@@ -63571,377 +63997,377 @@ func (c *current) onListContinuationElement290(delimiter, content interface{}) (
 func (p *parser) callonListContinuationElement290() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement290(stack["delimiter"], stack["content"])
+	return p.cur.onListContinuationElement290(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement384() (interface{}, error) {
+func (c *current) onListContinuationElement393() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement384() (interface{}, error) {
+func (p *parser) callonListContinuationElement393() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement384()
+	return p.cur.onListContinuationElement393()
 }
 
-func (c *current) onListContinuationElement390() (interface{}, error) {
+func (c *current) onListContinuationElement399() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement390() (interface{}, error) {
+func (p *parser) callonListContinuationElement399() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement390()
+	return p.cur.onListContinuationElement399()
 }
 
-func (c *current) onListContinuationElement393() (interface{}, error) {
+func (c *current) onListContinuationElement402() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement393() (interface{}, error) {
+func (p *parser) callonListContinuationElement402() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement393()
+	return p.cur.onListContinuationElement402()
 }
 
-func (c *current) onListContinuationElement381(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement390(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement381() (interface{}, error) {
+func (p *parser) callonListContinuationElement390() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement381(stack["delimiter"])
+	return p.cur.onListContinuationElement390(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement400(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement409(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement400() (bool, error) {
+func (p *parser) callonListContinuationElement409() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement400(stack["start"])
+	return p.cur.onListContinuationElement409(stack["start"])
 }
 
-func (c *current) onListContinuationElement412() (interface{}, error) {
+func (c *current) onListContinuationElement421() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement412() (interface{}, error) {
+func (p *parser) callonListContinuationElement421() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement412()
+	return p.cur.onListContinuationElement421()
 }
 
-func (c *current) onListContinuationElement418() (interface{}, error) {
+func (c *current) onListContinuationElement427() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement418() (interface{}, error) {
+func (p *parser) callonListContinuationElement427() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement418()
+	return p.cur.onListContinuationElement427()
 }
 
-func (c *current) onListContinuationElement421() (interface{}, error) {
+func (c *current) onListContinuationElement430() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement421() (interface{}, error) {
+func (p *parser) callonListContinuationElement430() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement421()
+	return p.cur.onListContinuationElement430()
 }
 
-func (c *current) onListContinuationElement409(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement418(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement409() (interface{}, error) {
+func (p *parser) callonListContinuationElement418() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement409(stack["delimiter"])
+	return p.cur.onListContinuationElement418(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement428(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement437(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement428() (bool, error) {
+func (p *parser) callonListContinuationElement437() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement428(stack["end"])
+	return p.cur.onListContinuationElement437(stack["end"])
 }
 
-func (c *current) onListContinuationElement437() (interface{}, error) {
+func (c *current) onListContinuationElement446() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement437() (interface{}, error) {
+func (p *parser) callonListContinuationElement446() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement437()
+	return p.cur.onListContinuationElement446()
 }
 
-func (c *current) onListContinuationElement441() (interface{}, error) {
+func (c *current) onListContinuationElement450() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement441() (interface{}, error) {
+func (p *parser) callonListContinuationElement450() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement441()
+	return p.cur.onListContinuationElement450()
 }
 
-func (c *current) onListContinuationElement432(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement441(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement432() (interface{}, error) {
+func (p *parser) callonListContinuationElement441() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement432(stack["content"])
+	return p.cur.onListContinuationElement441(stack["content"])
 }
 
-func (c *current) onListContinuationElement403(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement412(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement403() (interface{}, error) {
+func (p *parser) callonListContinuationElement412() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement403(stack["line"])
+	return p.cur.onListContinuationElement412(stack["line"])
 }
 
-func (c *current) onListContinuationElement456() (interface{}, error) {
+func (c *current) onListContinuationElement465() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement456() (interface{}, error) {
+func (p *parser) callonListContinuationElement465() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement456()
+	return p.cur.onListContinuationElement465()
 }
 
-func (c *current) onListContinuationElement462() (interface{}, error) {
+func (c *current) onListContinuationElement471() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement462() (interface{}, error) {
+func (p *parser) callonListContinuationElement471() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement462()
+	return p.cur.onListContinuationElement471()
 }
 
-func (c *current) onListContinuationElement465() (interface{}, error) {
+func (c *current) onListContinuationElement474() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement465() (interface{}, error) {
+func (p *parser) callonListContinuationElement474() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement465()
+	return p.cur.onListContinuationElement474()
 }
 
-func (c *current) onListContinuationElement453(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement462(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement453() (interface{}, error) {
+func (p *parser) callonListContinuationElement462() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement453(stack["delimiter"])
+	return p.cur.onListContinuationElement462(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement472(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement481(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement472() (bool, error) {
+func (p *parser) callonListContinuationElement481() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement472(stack["end"])
+	return p.cur.onListContinuationElement481(stack["end"])
 }
 
-func (c *current) onListContinuationElement378(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement387(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Example, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement378() (interface{}, error) {
+func (p *parser) callonListContinuationElement387() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement378(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement387(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement482() (interface{}, error) {
+func (c *current) onListContinuationElement491() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement482() (interface{}, error) {
+func (p *parser) callonListContinuationElement491() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement482()
+	return p.cur.onListContinuationElement491()
 }
 
-func (c *current) onListContinuationElement486() (interface{}, error) {
+func (c *current) onListContinuationElement495() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement486() (interface{}, error) {
+func (p *parser) callonListContinuationElement495() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement486()
+	return p.cur.onListContinuationElement495()
 }
 
-func (c *current) onListContinuationElement489() (interface{}, error) {
+func (c *current) onListContinuationElement498() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement489() (interface{}, error) {
+func (p *parser) callonListContinuationElement498() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement489()
+	return p.cur.onListContinuationElement498()
 }
 
-func (c *current) onListContinuationElement478(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement487(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement478() (interface{}, error) {
+func (p *parser) callonListContinuationElement487() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement478(stack["language"])
+	return p.cur.onListContinuationElement487(stack["language"])
 }
 
-func (c *current) onListContinuationElement504() (interface{}, error) {
+func (c *current) onListContinuationElement513() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement504() (interface{}, error) {
+func (p *parser) callonListContinuationElement513() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement504()
+	return p.cur.onListContinuationElement513()
 }
 
-func (c *current) onListContinuationElement507() (interface{}, error) {
+func (c *current) onListContinuationElement516() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement507() (interface{}, error) {
+func (p *parser) callonListContinuationElement516() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement507()
+	return p.cur.onListContinuationElement516()
 }
 
-func (c *current) onListContinuationElement520() (interface{}, error) {
+func (c *current) onListContinuationElement529() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement520() (interface{}, error) {
+func (p *parser) callonListContinuationElement529() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement520()
+	return p.cur.onListContinuationElement529()
 }
 
-func (c *current) onListContinuationElement524() (interface{}, error) {
+func (c *current) onListContinuationElement533() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement524() (interface{}, error) {
+func (p *parser) callonListContinuationElement533() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement524()
+	return p.cur.onListContinuationElement533()
 }
 
-func (c *current) onListContinuationElement515(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement524(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement515() (interface{}, error) {
+func (p *parser) callonListContinuationElement524() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement515(stack["content"])
+	return p.cur.onListContinuationElement524(stack["content"])
 }
 
-func (c *current) onListContinuationElement498(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement507(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement498() (interface{}, error) {
+func (p *parser) callonListContinuationElement507() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement498(stack["line"])
+	return p.cur.onListContinuationElement507(stack["line"])
 }
 
-func (c *current) onListContinuationElement535() (interface{}, error) {
+func (c *current) onListContinuationElement544() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement535() (interface{}, error) {
+func (p *parser) callonListContinuationElement544() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement535()
+	return p.cur.onListContinuationElement544()
 }
 
-func (c *current) onListContinuationElement538() (interface{}, error) {
+func (c *current) onListContinuationElement547() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement538() (interface{}, error) {
+func (p *parser) callonListContinuationElement547() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement538()
+	return p.cur.onListContinuationElement547()
 }
 
-func (c *current) onListContinuationElement475(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement484(delimiter, content interface{}) (interface{}, error) {
 	// Markdown code with fences is a "listing/source" block in Asciidoc
 	b, err := types.NewDelimitedBlock(types.Listing, content.([]interface{}))
 	b.AddAttributes(delimiter.(*types.BlockDelimiter).Attributes)
@@ -63949,743 +64375,720 @@ func (c *current) onListContinuationElement475(delimiter, content interface{}) (
 
 }
 
-func (p *parser) callonListContinuationElement475() (interface{}, error) {
+func (p *parser) callonListContinuationElement484() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement475(stack["delimiter"], stack["content"])
+	return p.cur.onListContinuationElement484(stack["delimiter"], stack["content"])
 }
 
-func (c *current) onListContinuationElement551() (interface{}, error) {
+func (c *current) onListContinuationElement560() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement551() (interface{}, error) {
+func (p *parser) callonListContinuationElement560() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement551()
+	return p.cur.onListContinuationElement560()
 }
 
-func (c *current) onListContinuationElement557() (interface{}, error) {
+func (c *current) onListContinuationElement566() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement557() (interface{}, error) {
+func (p *parser) callonListContinuationElement566() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement557()
+	return p.cur.onListContinuationElement566()
 }
 
-func (c *current) onListContinuationElement560() (interface{}, error) {
+func (c *current) onListContinuationElement569() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement560() (interface{}, error) {
+func (p *parser) callonListContinuationElement569() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement560()
+	return p.cur.onListContinuationElement569()
 }
 
-func (c *current) onListContinuationElement548(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement557(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement548() (interface{}, error) {
+func (p *parser) callonListContinuationElement557() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement548(stack["delimiter"])
+	return p.cur.onListContinuationElement557(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement567(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement576(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement567() (bool, error) {
+func (p *parser) callonListContinuationElement576() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement567(stack["start"])
+	return p.cur.onListContinuationElement576(stack["start"])
 }
 
-func (c *current) onListContinuationElement579() (interface{}, error) {
+func (c *current) onListContinuationElement588() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement579() (interface{}, error) {
+func (p *parser) callonListContinuationElement588() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement579()
+	return p.cur.onListContinuationElement588()
 }
 
-func (c *current) onListContinuationElement585() (interface{}, error) {
+func (c *current) onListContinuationElement594() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement585() (interface{}, error) {
+func (p *parser) callonListContinuationElement594() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement585()
+	return p.cur.onListContinuationElement594()
 }
 
-func (c *current) onListContinuationElement588() (interface{}, error) {
+func (c *current) onListContinuationElement597() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement588() (interface{}, error) {
+func (p *parser) callonListContinuationElement597() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement588()
+	return p.cur.onListContinuationElement597()
 }
 
-func (c *current) onListContinuationElement576(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement585(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement576() (interface{}, error) {
+func (p *parser) callonListContinuationElement585() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement576(stack["delimiter"])
+	return p.cur.onListContinuationElement585(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement595(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement604(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement595() (bool, error) {
+func (p *parser) callonListContinuationElement604() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement595(stack["end"])
+	return p.cur.onListContinuationElement604(stack["end"])
 }
 
-func (c *current) onListContinuationElement604() (interface{}, error) {
+func (c *current) onListContinuationElement613() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement604() (interface{}, error) {
+func (p *parser) callonListContinuationElement613() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement604()
+	return p.cur.onListContinuationElement613()
 }
 
-func (c *current) onListContinuationElement608() (interface{}, error) {
+func (c *current) onListContinuationElement617() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement608() (interface{}, error) {
+func (p *parser) callonListContinuationElement617() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement608()
+	return p.cur.onListContinuationElement617()
 }
 
-func (c *current) onListContinuationElement599(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement608(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement599() (interface{}, error) {
+func (p *parser) callonListContinuationElement608() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement599(stack["content"])
+	return p.cur.onListContinuationElement608(stack["content"])
 }
 
-func (c *current) onListContinuationElement570(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement579(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement570() (interface{}, error) {
+func (p *parser) callonListContinuationElement579() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement570(stack["line"])
+	return p.cur.onListContinuationElement579(stack["line"])
 }
 
-func (c *current) onListContinuationElement623() (interface{}, error) {
+func (c *current) onListContinuationElement632() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement623() (interface{}, error) {
+func (p *parser) callonListContinuationElement632() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement623()
+	return p.cur.onListContinuationElement632()
 }
 
-func (c *current) onListContinuationElement629() (interface{}, error) {
+func (c *current) onListContinuationElement638() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement629() (interface{}, error) {
+func (p *parser) callonListContinuationElement638() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement629()
+	return p.cur.onListContinuationElement638()
 }
 
-func (c *current) onListContinuationElement632() (interface{}, error) {
+func (c *current) onListContinuationElement641() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement632() (interface{}, error) {
+func (p *parser) callonListContinuationElement641() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement632()
+	return p.cur.onListContinuationElement641()
 }
 
-func (c *current) onListContinuationElement620(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement629(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement620() (interface{}, error) {
+func (p *parser) callonListContinuationElement629() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement620(stack["delimiter"])
+	return p.cur.onListContinuationElement629(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement639(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement648(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement639() (bool, error) {
+func (p *parser) callonListContinuationElement648() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement639(stack["end"])
+	return p.cur.onListContinuationElement648(stack["end"])
 }
 
-func (c *current) onListContinuationElement545(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement554(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Fenced, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement545() (interface{}, error) {
+func (p *parser) callonListContinuationElement554() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement545(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement554(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement648() (interface{}, error) {
+func (c *current) onListContinuationElement657() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement648() (interface{}, error) {
+func (p *parser) callonListContinuationElement657() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement648()
+	return p.cur.onListContinuationElement657()
 }
 
-func (c *current) onListContinuationElement654() (interface{}, error) {
+func (c *current) onListContinuationElement663() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement654() (interface{}, error) {
+func (p *parser) callonListContinuationElement663() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement654()
+	return p.cur.onListContinuationElement663()
 }
 
-func (c *current) onListContinuationElement657() (interface{}, error) {
+func (c *current) onListContinuationElement666() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement657() (interface{}, error) {
+func (p *parser) callonListContinuationElement666() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement657()
+	return p.cur.onListContinuationElement666()
 }
 
-func (c *current) onListContinuationElement645(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement654(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement645() (interface{}, error) {
+func (p *parser) callonListContinuationElement654() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement645(stack["delimiter"])
+	return p.cur.onListContinuationElement654(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement664(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement673(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement664() (bool, error) {
+func (p *parser) callonListContinuationElement673() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement664(stack["start"])
+	return p.cur.onListContinuationElement673(stack["start"])
 }
 
-func (c *current) onListContinuationElement676() (interface{}, error) {
+func (c *current) onListContinuationElement685() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement676() (interface{}, error) {
+func (p *parser) callonListContinuationElement685() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement676()
+	return p.cur.onListContinuationElement685()
 }
 
-func (c *current) onListContinuationElement682() (interface{}, error) {
+func (c *current) onListContinuationElement691() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement682() (interface{}, error) {
+func (p *parser) callonListContinuationElement691() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement682()
+	return p.cur.onListContinuationElement691()
 }
 
-func (c *current) onListContinuationElement685() (interface{}, error) {
+func (c *current) onListContinuationElement694() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement685() (interface{}, error) {
+func (p *parser) callonListContinuationElement694() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement685()
+	return p.cur.onListContinuationElement694()
 }
 
-func (c *current) onListContinuationElement673(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement682(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement673() (interface{}, error) {
+func (p *parser) callonListContinuationElement682() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement673(stack["delimiter"])
+	return p.cur.onListContinuationElement682(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement692(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement701(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement692() (bool, error) {
+func (p *parser) callonListContinuationElement701() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement692(stack["end"])
+	return p.cur.onListContinuationElement701(stack["end"])
 }
 
-func (c *current) onListContinuationElement701() (interface{}, error) {
+func (c *current) onListContinuationElement710() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement701() (interface{}, error) {
+func (p *parser) callonListContinuationElement710() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement701()
+	return p.cur.onListContinuationElement710()
 }
 
-func (c *current) onListContinuationElement705() (interface{}, error) {
+func (c *current) onListContinuationElement714() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement705() (interface{}, error) {
+func (p *parser) callonListContinuationElement714() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement705()
+	return p.cur.onListContinuationElement714()
 }
 
-func (c *current) onListContinuationElement696(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement705(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement696() (interface{}, error) {
+func (p *parser) callonListContinuationElement705() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement696(stack["content"])
+	return p.cur.onListContinuationElement705(stack["content"])
 }
 
-func (c *current) onListContinuationElement667(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement676(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement667() (interface{}, error) {
+func (p *parser) callonListContinuationElement676() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement667(stack["line"])
+	return p.cur.onListContinuationElement676(stack["line"])
 }
 
-func (c *current) onListContinuationElement720() (interface{}, error) {
+func (c *current) onListContinuationElement729() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement720() (interface{}, error) {
+func (p *parser) callonListContinuationElement729() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement720()
+	return p.cur.onListContinuationElement729()
 }
 
-func (c *current) onListContinuationElement726() (interface{}, error) {
+func (c *current) onListContinuationElement735() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement726() (interface{}, error) {
+func (p *parser) callonListContinuationElement735() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement726()
+	return p.cur.onListContinuationElement735()
 }
 
-func (c *current) onListContinuationElement729() (interface{}, error) {
+func (c *current) onListContinuationElement738() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement729() (interface{}, error) {
+func (p *parser) callonListContinuationElement738() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement729()
+	return p.cur.onListContinuationElement738()
 }
 
-func (c *current) onListContinuationElement717(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement726(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement717() (interface{}, error) {
+func (p *parser) callonListContinuationElement726() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement717(stack["delimiter"])
+	return p.cur.onListContinuationElement726(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement736(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement745(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement736() (bool, error) {
+func (p *parser) callonListContinuationElement745() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement736(stack["end"])
+	return p.cur.onListContinuationElement745(stack["end"])
 }
 
-func (c *current) onListContinuationElement642(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement651(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Listing, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement642() (interface{}, error) {
+func (p *parser) callonListContinuationElement651() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement642(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement651(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement745() (interface{}, error) {
+func (c *current) onListContinuationElement754() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement745() (interface{}, error) {
+func (p *parser) callonListContinuationElement754() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement745()
+	return p.cur.onListContinuationElement754()
 }
 
-func (c *current) onListContinuationElement751() (interface{}, error) {
+func (c *current) onListContinuationElement760() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement751() (interface{}, error) {
+func (p *parser) callonListContinuationElement760() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement751()
+	return p.cur.onListContinuationElement760()
 }
 
-func (c *current) onListContinuationElement754() (interface{}, error) {
+func (c *current) onListContinuationElement763() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement754() (interface{}, error) {
+func (p *parser) callonListContinuationElement763() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement754()
+	return p.cur.onListContinuationElement763()
 }
 
-func (c *current) onListContinuationElement742(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement751(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement742() (interface{}, error) {
+func (p *parser) callonListContinuationElement751() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement742(stack["delimiter"])
+	return p.cur.onListContinuationElement751(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement761(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement770(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement761() (bool, error) {
+func (p *parser) callonListContinuationElement770() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement761(stack["start"])
+	return p.cur.onListContinuationElement770(stack["start"])
 }
 
-func (c *current) onListContinuationElement773() (interface{}, error) {
+func (c *current) onListContinuationElement782() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement773() (interface{}, error) {
+func (p *parser) callonListContinuationElement782() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement773()
+	return p.cur.onListContinuationElement782()
 }
 
-func (c *current) onListContinuationElement779() (interface{}, error) {
+func (c *current) onListContinuationElement788() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement779() (interface{}, error) {
+func (p *parser) callonListContinuationElement788() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement779()
+	return p.cur.onListContinuationElement788()
 }
 
-func (c *current) onListContinuationElement782() (interface{}, error) {
+func (c *current) onListContinuationElement791() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement782() (interface{}, error) {
+func (p *parser) callonListContinuationElement791() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement782()
+	return p.cur.onListContinuationElement791()
 }
 
-func (c *current) onListContinuationElement770(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement779(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement770() (interface{}, error) {
+func (p *parser) callonListContinuationElement779() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement770(stack["delimiter"])
+	return p.cur.onListContinuationElement779(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement789(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement798(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement789() (bool, error) {
+func (p *parser) callonListContinuationElement798() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement789(stack["end"])
+	return p.cur.onListContinuationElement798(stack["end"])
 }
 
-func (c *current) onListContinuationElement798() (interface{}, error) {
+func (c *current) onListContinuationElement807() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement798() (interface{}, error) {
+func (p *parser) callonListContinuationElement807() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement798()
+	return p.cur.onListContinuationElement807()
 }
 
-func (c *current) onListContinuationElement802() (interface{}, error) {
+func (c *current) onListContinuationElement811() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement802() (interface{}, error) {
+func (p *parser) callonListContinuationElement811() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement802()
+	return p.cur.onListContinuationElement811()
 }
 
-func (c *current) onListContinuationElement793(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement802(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement793() (interface{}, error) {
+func (p *parser) callonListContinuationElement802() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement793(stack["content"])
+	return p.cur.onListContinuationElement802(stack["content"])
 }
 
-func (c *current) onListContinuationElement764(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement773(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement764() (interface{}, error) {
+func (p *parser) callonListContinuationElement773() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement764(stack["line"])
+	return p.cur.onListContinuationElement773(stack["line"])
 }
 
-func (c *current) onListContinuationElement817() (interface{}, error) {
+func (c *current) onListContinuationElement826() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement817() (interface{}, error) {
+func (p *parser) callonListContinuationElement826() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement817()
+	return p.cur.onListContinuationElement826()
 }
 
-func (c *current) onListContinuationElement823() (interface{}, error) {
+func (c *current) onListContinuationElement832() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement823() (interface{}, error) {
+func (p *parser) callonListContinuationElement832() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement823()
+	return p.cur.onListContinuationElement832()
 }
 
-func (c *current) onListContinuationElement826() (interface{}, error) {
+func (c *current) onListContinuationElement835() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement826() (interface{}, error) {
+func (p *parser) callonListContinuationElement835() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement826()
+	return p.cur.onListContinuationElement835()
 }
 
-func (c *current) onListContinuationElement814(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement823(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement814() (interface{}, error) {
+func (p *parser) callonListContinuationElement823() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement814(stack["delimiter"])
+	return p.cur.onListContinuationElement823(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement833(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement842(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement833() (bool, error) {
+func (p *parser) callonListContinuationElement842() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement833(stack["end"])
+	return p.cur.onListContinuationElement842(stack["end"])
 }
 
-func (c *current) onListContinuationElement739(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement748(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Literal, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement739() (interface{}, error) {
+func (p *parser) callonListContinuationElement748() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement739(stack["start"], stack["content"], stack["end"])
-}
-
-func (c *current) onListContinuationElement847() (interface{}, error) {
-
-	return string(c.text), nil
-
+	return p.cur.onListContinuationElement748(stack["start"], stack["content"], stack["end"])
 }
 
-func (p *parser) callonListContinuationElement847() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement847()
-}
+func (c *current) onListContinuationElement856() (interface{}, error) {
 
-func (c *current) onListContinuationElement850() (interface{}, error) {
-	// TODO: just use "\n"
 	return string(c.text), nil
-}
-
-func (p *parser) callonListContinuationElement850() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement850()
-}
-
-func (c *current) onListContinuationElement842() (interface{}, error) {
-	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement842() (interface{}, error) {
+func (p *parser) callonListContinuationElement856() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement842()
+	return p.cur.onListContinuationElement856()
 }
 
 func (c *current) onListContinuationElement859() (interface{}, error) {
-
+	// TODO: just use "\n"
 	return string(c.text), nil
-
 }
 
 func (p *parser) callonListContinuationElement859() (interface{}, error) {
@@ -64694,1768 +65097,1791 @@ func (p *parser) callonListContinuationElement859() (interface{}, error) {
 	return p.cur.onListContinuationElement859()
 }
 
-func (c *current) onListContinuationElement863() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
-}
-
-func (p *parser) callonListContinuationElement863() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement863()
-}
-
-func (c *current) onListContinuationElement839(content interface{}) (interface{}, error) {
-	return types.NewRawLine(content.(string))
+func (c *current) onListContinuationElement851() (interface{}, error) {
+	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement839() (interface{}, error) {
+func (p *parser) callonListContinuationElement851() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement839(stack["content"])
+	return p.cur.onListContinuationElement851()
 }
 
-func (c *current) onListContinuationElement881() (interface{}, error) {
+func (c *current) onListContinuationElement868() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement881() (interface{}, error) {
+func (p *parser) callonListContinuationElement868() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement881()
+	return p.cur.onListContinuationElement868()
 }
 
-func (c *current) onListContinuationElement884() (interface{}, error) {
+func (c *current) onListContinuationElement872() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement884() (interface{}, error) {
+func (p *parser) callonListContinuationElement872() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement884()
+	return p.cur.onListContinuationElement872()
 }
 
-func (c *current) onListContinuationElement876() (interface{}, error) {
-	return types.NewBlankLine()
+func (c *current) onListContinuationElement848(content interface{}) (interface{}, error) {
+	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement876() (interface{}, error) {
+func (p *parser) callonListContinuationElement848() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement876()
+	return p.cur.onListContinuationElement848(stack["content"])
 }
 
-func (c *current) onListContinuationElement893() (interface{}, error) {
+func (c *current) onListContinuationElement890() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
+func (p *parser) callonListContinuationElement890() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement890()
+}
+
+func (c *current) onListContinuationElement893() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
 func (p *parser) callonListContinuationElement893() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
 	return p.cur.onListContinuationElement893()
 }
 
-func (c *current) onListContinuationElement897() (interface{}, error) {
+func (c *current) onListContinuationElement885() (interface{}, error) {
+	return types.NewBlankLine()
+
+}
+
+func (p *parser) callonListContinuationElement885() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement885()
+}
+
+func (c *current) onListContinuationElement902() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement902() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement902()
+}
+
+func (c *current) onListContinuationElement906() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement897() (interface{}, error) {
+func (p *parser) callonListContinuationElement906() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement897()
+	return p.cur.onListContinuationElement906()
 }
 
-func (c *current) onListContinuationElement873(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement882(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement873() (interface{}, error) {
+func (p *parser) callonListContinuationElement882() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement873(stack["content"])
+	return p.cur.onListContinuationElement882(stack["content"])
 }
 
-func (c *current) onListContinuationElement907() (interface{}, error) {
+func (c *current) onListContinuationElement916() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement907() (interface{}, error) {
+func (p *parser) callonListContinuationElement916() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement907()
+	return p.cur.onListContinuationElement916()
 }
 
-func (c *current) onListContinuationElement910(content interface{}) (bool, error) {
+func (c *current) onListContinuationElement919(content interface{}) (bool, error) {
 	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
 
 }
 
-func (p *parser) callonListContinuationElement910() (bool, error) {
+func (p *parser) callonListContinuationElement919() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement910(stack["content"])
+	return p.cur.onListContinuationElement919(stack["content"])
 }
 
-func (c *current) onListContinuationElement912() (interface{}, error) {
+func (c *current) onListContinuationElement921() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement912() (interface{}, error) {
+func (p *parser) callonListContinuationElement921() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement912()
+	return p.cur.onListContinuationElement921()
 }
 
-func (c *current) onListContinuationElement904(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement913(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement904() (interface{}, error) {
+func (p *parser) callonListContinuationElement913() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement904(stack["content"])
+	return p.cur.onListContinuationElement913(stack["content"])
 }
 
-func (c *current) onListContinuationElement836(firstLine, otherLines interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement845(firstLine, otherLines interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.MarkdownQuote, append([]interface{}{firstLine}, otherLines.([]interface{})...))
 
 }
 
-func (p *parser) callonListContinuationElement836() (interface{}, error) {
+func (p *parser) callonListContinuationElement845() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement836(stack["firstLine"], stack["otherLines"])
+	return p.cur.onListContinuationElement845(stack["firstLine"], stack["otherLines"])
 }
 
-func (c *current) onListContinuationElement925() (interface{}, error) {
+func (c *current) onListContinuationElement934() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement925() (interface{}, error) {
+func (p *parser) callonListContinuationElement934() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement925()
+	return p.cur.onListContinuationElement934()
 }
 
-func (c *current) onListContinuationElement928() (interface{}, error) {
+func (c *current) onListContinuationElement937() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement928() (interface{}, error) {
+func (p *parser) callonListContinuationElement937() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement928()
+	return p.cur.onListContinuationElement937()
 }
 
-func (c *current) onListContinuationElement931() (interface{}, error) {
+func (c *current) onListContinuationElement940() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement931() (interface{}, error) {
+func (p *parser) callonListContinuationElement940() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement931()
+	return p.cur.onListContinuationElement940()
 }
 
-func (c *current) onListContinuationElement922(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement931(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement922() (interface{}, error) {
+func (p *parser) callonListContinuationElement931() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement922(stack["delimiter"])
+	return p.cur.onListContinuationElement931(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement947() (interface{}, error) {
+func (c *current) onListContinuationElement956() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement947() (interface{}, error) {
+func (p *parser) callonListContinuationElement956() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement947()
+	return p.cur.onListContinuationElement956()
 }
 
-func (c *current) onListContinuationElement950() (interface{}, error) {
+func (c *current) onListContinuationElement959() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement950() (interface{}, error) {
+func (p *parser) callonListContinuationElement959() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement950()
+	return p.cur.onListContinuationElement959()
 }
 
-func (c *current) onListContinuationElement953() (interface{}, error) {
+func (c *current) onListContinuationElement962() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement953() (interface{}, error) {
+func (p *parser) callonListContinuationElement962() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement953()
+	return p.cur.onListContinuationElement962()
 }
 
-func (c *current) onListContinuationElement944(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement953(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement944() (interface{}, error) {
+func (p *parser) callonListContinuationElement953() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement944(stack["delimiter"])
+	return p.cur.onListContinuationElement953(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement968() (interface{}, error) {
+func (c *current) onListContinuationElement977() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement968() (interface{}, error) {
+func (p *parser) callonListContinuationElement977() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement968()
+	return p.cur.onListContinuationElement977()
 }
 
-func (c *current) onListContinuationElement972() (interface{}, error) {
+func (c *current) onListContinuationElement981() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement972() (interface{}, error) {
+func (p *parser) callonListContinuationElement981() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement972()
+	return p.cur.onListContinuationElement981()
 }
 
-func (c *current) onListContinuationElement963(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement972(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement963() (interface{}, error) {
+func (p *parser) callonListContinuationElement972() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement963(stack["content"])
+	return p.cur.onListContinuationElement972(stack["content"])
 }
 
-func (c *current) onListContinuationElement940(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement949(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement940() (interface{}, error) {
+func (p *parser) callonListContinuationElement949() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement940(stack["line"])
+	return p.cur.onListContinuationElement949(stack["line"])
 }
 
-func (c *current) onListContinuationElement985() (interface{}, error) {
+func (c *current) onListContinuationElement994() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement985() (interface{}, error) {
+func (p *parser) callonListContinuationElement994() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement985()
+	return p.cur.onListContinuationElement994()
 }
 
-func (c *current) onListContinuationElement988() (interface{}, error) {
+func (c *current) onListContinuationElement997() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement988() (interface{}, error) {
+func (p *parser) callonListContinuationElement997() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement988()
+	return p.cur.onListContinuationElement997()
 }
 
-func (c *current) onListContinuationElement991() (interface{}, error) {
+func (c *current) onListContinuationElement1000() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement991() (interface{}, error) {
+func (p *parser) callonListContinuationElement1000() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement991()
+	return p.cur.onListContinuationElement1000()
 }
 
-func (c *current) onListContinuationElement982(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement991(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement982() (interface{}, error) {
+func (p *parser) callonListContinuationElement991() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement982(stack["delimiter"])
+	return p.cur.onListContinuationElement991(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement919(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement928(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Open, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement919() (interface{}, error) {
+func (p *parser) callonListContinuationElement928() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement919(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement928(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1006() (interface{}, error) {
+func (c *current) onListContinuationElement1015() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1006() (interface{}, error) {
+func (p *parser) callonListContinuationElement1015() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1006()
+	return p.cur.onListContinuationElement1015()
 }
 
-func (c *current) onListContinuationElement1012() (interface{}, error) {
+func (c *current) onListContinuationElement1021() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1012() (interface{}, error) {
+func (p *parser) callonListContinuationElement1021() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1012()
+	return p.cur.onListContinuationElement1021()
 }
 
-func (c *current) onListContinuationElement1015() (interface{}, error) {
+func (c *current) onListContinuationElement1024() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1015() (interface{}, error) {
+func (p *parser) callonListContinuationElement1024() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1015()
+	return p.cur.onListContinuationElement1024()
 }
 
-func (c *current) onListContinuationElement1003(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1012(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1003() (interface{}, error) {
+func (p *parser) callonListContinuationElement1012() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1003(stack["delimiter"])
+	return p.cur.onListContinuationElement1012(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1022(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement1031(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1022() (bool, error) {
+func (p *parser) callonListContinuationElement1031() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1022(stack["start"])
+	return p.cur.onListContinuationElement1031(stack["start"])
 }
 
-func (c *current) onListContinuationElement1034() (interface{}, error) {
+func (c *current) onListContinuationElement1043() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1034() (interface{}, error) {
+func (p *parser) callonListContinuationElement1043() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1034()
+	return p.cur.onListContinuationElement1043()
 }
 
-func (c *current) onListContinuationElement1040() (interface{}, error) {
+func (c *current) onListContinuationElement1049() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1040() (interface{}, error) {
+func (p *parser) callonListContinuationElement1049() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1040()
+	return p.cur.onListContinuationElement1049()
 }
 
-func (c *current) onListContinuationElement1043() (interface{}, error) {
+func (c *current) onListContinuationElement1052() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1043() (interface{}, error) {
+func (p *parser) callonListContinuationElement1052() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1043()
+	return p.cur.onListContinuationElement1052()
 }
 
-func (c *current) onListContinuationElement1031(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1040(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1031() (interface{}, error) {
+func (p *parser) callonListContinuationElement1040() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1031(stack["delimiter"])
+	return p.cur.onListContinuationElement1040(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1050(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1059(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1050() (bool, error) {
+func (p *parser) callonListContinuationElement1059() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1050(stack["end"])
+	return p.cur.onListContinuationElement1059(stack["end"])
 }
 
-func (c *current) onListContinuationElement1059() (interface{}, error) {
+func (c *current) onListContinuationElement1068() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1059() (interface{}, error) {
+func (p *parser) callonListContinuationElement1068() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1059()
+	return p.cur.onListContinuationElement1068()
 }
 
-func (c *current) onListContinuationElement1063() (interface{}, error) {
+func (c *current) onListContinuationElement1072() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1063() (interface{}, error) {
+func (p *parser) callonListContinuationElement1072() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1063()
+	return p.cur.onListContinuationElement1072()
 }
 
-func (c *current) onListContinuationElement1054(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1063(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1054() (interface{}, error) {
+func (p *parser) callonListContinuationElement1063() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1054(stack["content"])
+	return p.cur.onListContinuationElement1063(stack["content"])
 }
 
-func (c *current) onListContinuationElement1025(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1034(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement1025() (interface{}, error) {
+func (p *parser) callonListContinuationElement1034() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1025(stack["line"])
+	return p.cur.onListContinuationElement1034(stack["line"])
 }
 
-func (c *current) onListContinuationElement1078() (interface{}, error) {
+func (c *current) onListContinuationElement1087() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1078() (interface{}, error) {
+func (p *parser) callonListContinuationElement1087() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1078()
+	return p.cur.onListContinuationElement1087()
 }
 
-func (c *current) onListContinuationElement1084() (interface{}, error) {
+func (c *current) onListContinuationElement1093() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1084() (interface{}, error) {
+func (p *parser) callonListContinuationElement1093() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1084()
+	return p.cur.onListContinuationElement1093()
 }
 
-func (c *current) onListContinuationElement1087() (interface{}, error) {
+func (c *current) onListContinuationElement1096() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1087() (interface{}, error) {
+func (p *parser) callonListContinuationElement1096() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1087()
+	return p.cur.onListContinuationElement1096()
 }
 
-func (c *current) onListContinuationElement1075(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1084(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1075() (interface{}, error) {
+func (p *parser) callonListContinuationElement1084() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1075(stack["delimiter"])
+	return p.cur.onListContinuationElement1084(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1094(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1103(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1094() (bool, error) {
+func (p *parser) callonListContinuationElement1103() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1094(stack["end"])
+	return p.cur.onListContinuationElement1103(stack["end"])
 }
 
-func (c *current) onListContinuationElement1000(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1009(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Passthrough, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1000() (interface{}, error) {
+func (p *parser) callonListContinuationElement1009() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1000(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1009(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1103() (interface{}, error) {
+func (c *current) onListContinuationElement1112() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1103() (interface{}, error) {
+func (p *parser) callonListContinuationElement1112() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1103()
+	return p.cur.onListContinuationElement1112()
 }
 
-func (c *current) onListContinuationElement1109() (interface{}, error) {
+func (c *current) onListContinuationElement1118() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1109() (interface{}, error) {
+func (p *parser) callonListContinuationElement1118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1109()
+	return p.cur.onListContinuationElement1118()
 }
 
-func (c *current) onListContinuationElement1112() (interface{}, error) {
+func (c *current) onListContinuationElement1121() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1112() (interface{}, error) {
+func (p *parser) callonListContinuationElement1121() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1112()
+	return p.cur.onListContinuationElement1121()
 }
 
-func (c *current) onListContinuationElement1100(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1109(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1100() (interface{}, error) {
+func (p *parser) callonListContinuationElement1109() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1100(stack["delimiter"])
+	return p.cur.onListContinuationElement1109(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1119(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement1128(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1119() (bool, error) {
+func (p *parser) callonListContinuationElement1128() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1119(stack["start"])
+	return p.cur.onListContinuationElement1128(stack["start"])
 }
 
-func (c *current) onListContinuationElement1131() (interface{}, error) {
+func (c *current) onListContinuationElement1140() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1131() (interface{}, error) {
+func (p *parser) callonListContinuationElement1140() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1131()
+	return p.cur.onListContinuationElement1140()
 }
 
-func (c *current) onListContinuationElement1137() (interface{}, error) {
+func (c *current) onListContinuationElement1146() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1137() (interface{}, error) {
+func (p *parser) callonListContinuationElement1146() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1137()
+	return p.cur.onListContinuationElement1146()
 }
 
-func (c *current) onListContinuationElement1140() (interface{}, error) {
+func (c *current) onListContinuationElement1149() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1140() (interface{}, error) {
+func (p *parser) callonListContinuationElement1149() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1140()
+	return p.cur.onListContinuationElement1149()
 }
 
-func (c *current) onListContinuationElement1128(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1137(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1128() (interface{}, error) {
+func (p *parser) callonListContinuationElement1137() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1128(stack["delimiter"])
+	return p.cur.onListContinuationElement1137(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1147(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1156(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1147() (bool, error) {
+func (p *parser) callonListContinuationElement1156() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1147(stack["end"])
+	return p.cur.onListContinuationElement1156(stack["end"])
 }
 
-func (c *current) onListContinuationElement1156() (interface{}, error) {
+func (c *current) onListContinuationElement1165() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1156() (interface{}, error) {
+func (p *parser) callonListContinuationElement1165() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1156()
+	return p.cur.onListContinuationElement1165()
 }
 
-func (c *current) onListContinuationElement1160() (interface{}, error) {
+func (c *current) onListContinuationElement1169() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1160() (interface{}, error) {
+func (p *parser) callonListContinuationElement1169() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1160()
+	return p.cur.onListContinuationElement1169()
 }
 
-func (c *current) onListContinuationElement1151(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1160(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1151() (interface{}, error) {
+func (p *parser) callonListContinuationElement1160() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1151(stack["content"])
+	return p.cur.onListContinuationElement1160(stack["content"])
 }
 
-func (c *current) onListContinuationElement1122(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1131(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement1122() (interface{}, error) {
+func (p *parser) callonListContinuationElement1131() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1122(stack["line"])
+	return p.cur.onListContinuationElement1131(stack["line"])
 }
 
-func (c *current) onListContinuationElement1175() (interface{}, error) {
+func (c *current) onListContinuationElement1184() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1175() (interface{}, error) {
+func (p *parser) callonListContinuationElement1184() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1175()
+	return p.cur.onListContinuationElement1184()
 }
 
-func (c *current) onListContinuationElement1181() (interface{}, error) {
+func (c *current) onListContinuationElement1190() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1181() (interface{}, error) {
+func (p *parser) callonListContinuationElement1190() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1181()
+	return p.cur.onListContinuationElement1190()
 }
 
-func (c *current) onListContinuationElement1184() (interface{}, error) {
+func (c *current) onListContinuationElement1193() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1184() (interface{}, error) {
+func (p *parser) callonListContinuationElement1193() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1184()
+	return p.cur.onListContinuationElement1193()
 }
 
-func (c *current) onListContinuationElement1172(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1181(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1172() (interface{}, error) {
+func (p *parser) callonListContinuationElement1181() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1172(stack["delimiter"])
+	return p.cur.onListContinuationElement1181(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1191(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1200(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1191() (bool, error) {
+func (p *parser) callonListContinuationElement1200() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1191(stack["end"])
+	return p.cur.onListContinuationElement1200(stack["end"])
 }
 
-func (c *current) onListContinuationElement1097(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1106(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Quote, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1097() (interface{}, error) {
+func (p *parser) callonListContinuationElement1106() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1097(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1106(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1200() (interface{}, error) {
+func (c *current) onListContinuationElement1209() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1200() (interface{}, error) {
+func (p *parser) callonListContinuationElement1209() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1200()
+	return p.cur.onListContinuationElement1209()
 }
 
-func (c *current) onListContinuationElement1206() (interface{}, error) {
+func (c *current) onListContinuationElement1215() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1206() (interface{}, error) {
+func (p *parser) callonListContinuationElement1215() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1206()
+	return p.cur.onListContinuationElement1215()
 }
 
-func (c *current) onListContinuationElement1209() (interface{}, error) {
+func (c *current) onListContinuationElement1218() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1209() (interface{}, error) {
+func (p *parser) callonListContinuationElement1218() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1209()
+	return p.cur.onListContinuationElement1218()
 }
 
-func (c *current) onListContinuationElement1197(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1206(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1197() (interface{}, error) {
+func (p *parser) callonListContinuationElement1206() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1197(stack["delimiter"])
+	return p.cur.onListContinuationElement1206(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1216(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement1225(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1216() (bool, error) {
+func (p *parser) callonListContinuationElement1225() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1216(stack["start"])
+	return p.cur.onListContinuationElement1225(stack["start"])
 }
 
-func (c *current) onListContinuationElement1228() (interface{}, error) {
+func (c *current) onListContinuationElement1237() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1228() (interface{}, error) {
+func (p *parser) callonListContinuationElement1237() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1228()
+	return p.cur.onListContinuationElement1237()
 }
 
-func (c *current) onListContinuationElement1234() (interface{}, error) {
+func (c *current) onListContinuationElement1243() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1234() (interface{}, error) {
+func (p *parser) callonListContinuationElement1243() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1234()
+	return p.cur.onListContinuationElement1243()
 }
 
-func (c *current) onListContinuationElement1237() (interface{}, error) {
+func (c *current) onListContinuationElement1246() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1237() (interface{}, error) {
+func (p *parser) callonListContinuationElement1246() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1237()
+	return p.cur.onListContinuationElement1246()
 }
 
-func (c *current) onListContinuationElement1225(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1234(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1225() (interface{}, error) {
+func (p *parser) callonListContinuationElement1234() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1225(stack["delimiter"])
+	return p.cur.onListContinuationElement1234(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1244(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1253(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1244() (bool, error) {
+func (p *parser) callonListContinuationElement1253() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1244(stack["end"])
+	return p.cur.onListContinuationElement1253(stack["end"])
 }
 
-func (c *current) onListContinuationElement1253() (interface{}, error) {
+func (c *current) onListContinuationElement1262() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1253() (interface{}, error) {
+func (p *parser) callonListContinuationElement1262() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1253()
+	return p.cur.onListContinuationElement1262()
 }
 
-func (c *current) onListContinuationElement1257() (interface{}, error) {
+func (c *current) onListContinuationElement1266() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1257() (interface{}, error) {
+func (p *parser) callonListContinuationElement1266() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1257()
+	return p.cur.onListContinuationElement1266()
 }
 
-func (c *current) onListContinuationElement1248(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1257(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1248() (interface{}, error) {
+func (p *parser) callonListContinuationElement1257() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1248(stack["content"])
+	return p.cur.onListContinuationElement1257(stack["content"])
 }
 
-func (c *current) onListContinuationElement1219(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1228(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement1219() (interface{}, error) {
+func (p *parser) callonListContinuationElement1228() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1219(stack["line"])
+	return p.cur.onListContinuationElement1228(stack["line"])
 }
 
-func (c *current) onListContinuationElement1272() (interface{}, error) {
+func (c *current) onListContinuationElement1281() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1272() (interface{}, error) {
+func (p *parser) callonListContinuationElement1281() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1272()
+	return p.cur.onListContinuationElement1281()
 }
 
-func (c *current) onListContinuationElement1278() (interface{}, error) {
+func (c *current) onListContinuationElement1287() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1278() (interface{}, error) {
+func (p *parser) callonListContinuationElement1287() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1278()
+	return p.cur.onListContinuationElement1287()
 }
 
-func (c *current) onListContinuationElement1281() (interface{}, error) {
+func (c *current) onListContinuationElement1290() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1281() (interface{}, error) {
+func (p *parser) callonListContinuationElement1290() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1281()
+	return p.cur.onListContinuationElement1290()
 }
 
-func (c *current) onListContinuationElement1269(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1278(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1269() (interface{}, error) {
+func (p *parser) callonListContinuationElement1278() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1269(stack["delimiter"])
+	return p.cur.onListContinuationElement1278(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1288(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1297(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1288() (bool, error) {
+func (p *parser) callonListContinuationElement1297() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1288(stack["end"])
+	return p.cur.onListContinuationElement1297(stack["end"])
 }
 
-func (c *current) onListContinuationElement1194(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1203(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Sidebar, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1194() (interface{}, error) {
+func (p *parser) callonListContinuationElement1203() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1194(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1203(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1302() (interface{}, error) {
+func (c *current) onListContinuationElement1311() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1302() (interface{}, error) {
+func (p *parser) callonListContinuationElement1311() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1302()
+	return p.cur.onListContinuationElement1311()
 }
 
-func (c *current) onListContinuationElement1305() (interface{}, error) {
+func (c *current) onListContinuationElement1314() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1305() (interface{}, error) {
+func (p *parser) callonListContinuationElement1314() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1305()
+	return p.cur.onListContinuationElement1314()
 }
 
-func (c *current) onListContinuationElement1313() (interface{}, error) {
+func (c *current) onListContinuationElement1322() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1313() (interface{}, error) {
+func (p *parser) callonListContinuationElement1322() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1313()
+	return p.cur.onListContinuationElement1322()
 }
 
-func (c *current) onListContinuationElement1291() (interface{}, error) {
+func (c *current) onListContinuationElement1300() (interface{}, error) {
 
 	return types.NewThematicBreak()
 
 }
 
-func (p *parser) callonListContinuationElement1291() (interface{}, error) {
+func (p *parser) callonListContinuationElement1300() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1291()
+	return p.cur.onListContinuationElement1300()
 }
 
-func (c *current) onListContinuationElement1325() (interface{}, error) {
+func (c *current) onListContinuationElement1334() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1325() (interface{}, error) {
+func (p *parser) callonListContinuationElement1334() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1325()
+	return p.cur.onListContinuationElement1334()
 }
 
-func (c *current) onListContinuationElement1328() (interface{}, error) {
+func (c *current) onListContinuationElement1337() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1328() (interface{}, error) {
+func (p *parser) callonListContinuationElement1337() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1328()
+	return p.cur.onListContinuationElement1337()
 }
 
-func (c *current) onListContinuationElement1343() (interface{}, error) {
+func (c *current) onListContinuationElement1352() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1343() (interface{}, error) {
+func (p *parser) callonListContinuationElement1352() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1343()
+	return p.cur.onListContinuationElement1352()
 }
 
-func (c *current) onListContinuationElement1346() (interface{}, error) {
+func (c *current) onListContinuationElement1355() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1346() (interface{}, error) {
+func (p *parser) callonListContinuationElement1355() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1346()
+	return p.cur.onListContinuationElement1355()
 }
 
-func (c *current) onListContinuationElement1338() (interface{}, error) {
+func (c *current) onListContinuationElement1347() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1338() (interface{}, error) {
+func (p *parser) callonListContinuationElement1347() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1338()
+	return p.cur.onListContinuationElement1347()
 }
 
-func (c *current) onListContinuationElement1360() (interface{}, error) {
+func (c *current) onListContinuationElement1369() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1360() (interface{}, error) {
+func (p *parser) callonListContinuationElement1369() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1360()
+	return p.cur.onListContinuationElement1369()
 }
 
-func (c *current) onListContinuationElement1363() (interface{}, error) {
+func (c *current) onListContinuationElement1372() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1363() (interface{}, error) {
+func (p *parser) callonListContinuationElement1372() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1363()
+	return p.cur.onListContinuationElement1372()
 }
 
-func (c *current) onListContinuationElement1385() (interface{}, error) {
+func (c *current) onListContinuationElement1394() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1385() (interface{}, error) {
+func (p *parser) callonListContinuationElement1394() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1385()
+	return p.cur.onListContinuationElement1394()
 }
 
-func (c *current) onListContinuationElement1390() (interface{}, error) {
+func (c *current) onListContinuationElement1399() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1390() (interface{}, error) {
+func (p *parser) callonListContinuationElement1399() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1390()
+	return p.cur.onListContinuationElement1399()
 }
 
-func (c *current) onListContinuationElement1388(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1397(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1388() (interface{}, error) {
+func (p *parser) callonListContinuationElement1397() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1388(stack["content"])
+	return p.cur.onListContinuationElement1397(stack["content"])
 }
 
-func (c *current) onListContinuationElement1381(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1390(content interface{}) (interface{}, error) {
 	return types.NewInlineTableCell(content.(*types.RawLine))
 
 }
 
-func (p *parser) callonListContinuationElement1381() (interface{}, error) {
+func (p *parser) callonListContinuationElement1390() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1381(stack["content"])
+	return p.cur.onListContinuationElement1390(stack["content"])
 }
 
-func (c *current) onListContinuationElement1394() (interface{}, error) {
+func (c *current) onListContinuationElement1403() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1394() (interface{}, error) {
+func (p *parser) callonListContinuationElement1403() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1394()
+	return p.cur.onListContinuationElement1403()
 }
 
-func (c *current) onListContinuationElement1377(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1386(cells interface{}) (interface{}, error) {
 
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1377() (interface{}, error) {
+func (p *parser) callonListContinuationElement1386() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1377(stack["cells"])
+	return p.cur.onListContinuationElement1386(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1411() (interface{}, error) {
+func (c *current) onListContinuationElement1420() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1411() (interface{}, error) {
+func (p *parser) callonListContinuationElement1420() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1411()
+	return p.cur.onListContinuationElement1420()
 }
 
-func (c *current) onListContinuationElement1414() (interface{}, error) {
+func (c *current) onListContinuationElement1423() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1414() (interface{}, error) {
+func (p *parser) callonListContinuationElement1423() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1414()
+	return p.cur.onListContinuationElement1423()
 }
 
-func (c *current) onListContinuationElement1429() (interface{}, error) {
+func (c *current) onListContinuationElement1438() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1429() (interface{}, error) {
+func (p *parser) callonListContinuationElement1438() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1429()
+	return p.cur.onListContinuationElement1438()
 }
 
-func (c *current) onListContinuationElement1432() (interface{}, error) {
+func (c *current) onListContinuationElement1441() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1432() (interface{}, error) {
+func (p *parser) callonListContinuationElement1441() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1432()
+	return p.cur.onListContinuationElement1441()
 }
 
-func (c *current) onListContinuationElement1424() (interface{}, error) {
+func (c *current) onListContinuationElement1433() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1424() (interface{}, error) {
+func (p *parser) callonListContinuationElement1433() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1424()
+	return p.cur.onListContinuationElement1433()
 }
 
-func (c *current) onListContinuationElement1441() (interface{}, error) {
+func (c *current) onListContinuationElement1450() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1441() (interface{}, error) {
+func (p *parser) callonListContinuationElement1450() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1441()
+	return p.cur.onListContinuationElement1450()
 }
 
-func (c *current) onListContinuationElement1446() (interface{}, error) {
+func (c *current) onListContinuationElement1455() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1446() (interface{}, error) {
+func (p *parser) callonListContinuationElement1455() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1446()
+	return p.cur.onListContinuationElement1455()
 }
 
-func (c *current) onListContinuationElement1449() (interface{}, error) {
+func (c *current) onListContinuationElement1458() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1449() (interface{}, error) {
+func (p *parser) callonListContinuationElement1458() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1449()
+	return p.cur.onListContinuationElement1458()
 }
 
-func (c *current) onListContinuationElement1463() (interface{}, error) {
+func (c *current) onListContinuationElement1472() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1463() (interface{}, error) {
+func (p *parser) callonListContinuationElement1472() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1463()
+	return p.cur.onListContinuationElement1472()
 }
 
-func (c *current) onListContinuationElement1466() (interface{}, error) {
+func (c *current) onListContinuationElement1475() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1466() (interface{}, error) {
+func (p *parser) callonListContinuationElement1475() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1466()
+	return p.cur.onListContinuationElement1475()
 }
 
-func (c *current) onListContinuationElement1481() (interface{}, error) {
+func (c *current) onListContinuationElement1490() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1481() (interface{}, error) {
+func (p *parser) callonListContinuationElement1490() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1481()
+	return p.cur.onListContinuationElement1490()
 }
 
-func (c *current) onListContinuationElement1484() (interface{}, error) {
+func (c *current) onListContinuationElement1493() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1484() (interface{}, error) {
+func (p *parser) callonListContinuationElement1493() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1484()
+	return p.cur.onListContinuationElement1493()
 }
 
-func (c *current) onListContinuationElement1476() (interface{}, error) {
+func (c *current) onListContinuationElement1485() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1476() (interface{}, error) {
+func (p *parser) callonListContinuationElement1485() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1476()
+	return p.cur.onListContinuationElement1485()
 }
 
-func (c *current) onListContinuationElement1495() (interface{}, error) {
+func (c *current) onListContinuationElement1504() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1495() (interface{}, error) {
+func (p *parser) callonListContinuationElement1504() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1495()
+	return p.cur.onListContinuationElement1504()
 }
 
-func (c *current) onListContinuationElement1500() (interface{}, error) {
+func (c *current) onListContinuationElement1509() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1500() (interface{}, error) {
+func (p *parser) callonListContinuationElement1509() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1500()
+	return p.cur.onListContinuationElement1509()
 }
 
-func (c *current) onListContinuationElement1505() (interface{}, error) {
+func (c *current) onListContinuationElement1514() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1505() (interface{}, error) {
+func (p *parser) callonListContinuationElement1514() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1505()
+	return p.cur.onListContinuationElement1514()
 }
 
-func (c *current) onListContinuationElement1456(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1465(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1456() (interface{}, error) {
+func (p *parser) callonListContinuationElement1465() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1456(stack["content"])
+	return p.cur.onListContinuationElement1465(stack["content"])
 }
 
-func (c *current) onListContinuationElement1404(format, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1413(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonListContinuationElement1404() (interface{}, error) {
+func (p *parser) callonListContinuationElement1413() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1404(stack["format"], stack["content"])
+	return p.cur.onListContinuationElement1413(stack["format"], stack["content"])
 }
 
-func (c *current) onListContinuationElement1401(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1410(cells interface{}) (interface{}, error) {
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1401() (interface{}, error) {
+func (p *parser) callonListContinuationElement1410() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1401(stack["cells"])
+	return p.cur.onListContinuationElement1410(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1374(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1383(cells interface{}) (interface{}, error) {
 	return types.NewTableRow(cells.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1374() (interface{}, error) {
+func (p *parser) callonListContinuationElement1383() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1374(stack["cells"])
+	return p.cur.onListContinuationElement1383(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1517() (interface{}, error) {
+func (c *current) onListContinuationElement1526() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1517() (interface{}, error) {
+func (p *parser) callonListContinuationElement1526() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1517()
+	return p.cur.onListContinuationElement1526()
 }
 
-func (c *current) onListContinuationElement1520() (interface{}, error) {
+func (c *current) onListContinuationElement1529() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1520() (interface{}, error) {
+func (p *parser) callonListContinuationElement1529() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1520()
+	return p.cur.onListContinuationElement1529()
 }
 
-func (c *current) onListContinuationElement1512() (interface{}, error) {
+func (c *current) onListContinuationElement1521() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1512() (interface{}, error) {
+func (p *parser) callonListContinuationElement1521() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1512()
+	return p.cur.onListContinuationElement1521()
 }
 
-func (c *current) onListContinuationElement1353(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1362(content interface{}) (interface{}, error) {
 	return content, nil
 
 }
 
-func (p *parser) callonListContinuationElement1353() (interface{}, error) {
+func (p *parser) callonListContinuationElement1362() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1353(stack["content"])
+	return p.cur.onListContinuationElement1362(stack["content"])
 }
 
-func (c *current) onListContinuationElement1531() (interface{}, error) {
+func (c *current) onListContinuationElement1540() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1531() (interface{}, error) {
+func (p *parser) callonListContinuationElement1540() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1531()
+	return p.cur.onListContinuationElement1540()
 }
 
-func (c *current) onListContinuationElement1534() (interface{}, error) {
+func (c *current) onListContinuationElement1543() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1534() (interface{}, error) {
+func (p *parser) callonListContinuationElement1543() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1534()
+	return p.cur.onListContinuationElement1543()
 }
 
-func (c *current) onListContinuationElement1321(lines interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1330(lines interface{}) (interface{}, error) {
 	return types.NewTable(lines.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1321() (interface{}, error) {
+func (p *parser) callonListContinuationElement1330() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1321(stack["lines"])
+	return p.cur.onListContinuationElement1330(stack["lines"])
 }
 
-func (c *current) onListContinuationElement1549() (interface{}, error) {
+func (c *current) onListContinuationElement1558() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1549() (interface{}, error) {
+func (p *parser) callonListContinuationElement1558() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1549()
+	return p.cur.onListContinuationElement1558()
 }
 
-func (c *current) onListContinuationElement1553() (interface{}, error) {
+func (c *current) onListContinuationElement1562() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1553() (interface{}, error) {
+func (p *parser) callonListContinuationElement1562() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1553()
+	return p.cur.onListContinuationElement1562()
 }
 
-func (c *current) onListContinuationElement1543(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1552(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1543() (interface{}, error) {
+func (p *parser) callonListContinuationElement1552() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1543(stack["content"])
+	return p.cur.onListContinuationElement1552(stack["content"])
 }
 
-func (c *current) onListContinuationElement1566() (bool, error) {
+func (c *current) onListContinuationElement1575() (bool, error) {
 	return !c.isWithinLiteralParagraph(), nil
 
 }
 
-func (p *parser) callonListContinuationElement1566() (bool, error) {
+func (p *parser) callonListContinuationElement1575() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1566()
+	return p.cur.onListContinuationElement1575()
 }
 
-func (c *current) onListContinuationElement1569() (interface{}, error) {
+func (c *current) onListContinuationElement1578() (interface{}, error) {
 	return types.Tip, nil
 
 }
 
-func (p *parser) callonListContinuationElement1569() (interface{}, error) {
+func (p *parser) callonListContinuationElement1578() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1569()
+	return p.cur.onListContinuationElement1578()
 }
 
-func (c *current) onListContinuationElement1571() (interface{}, error) {
+func (c *current) onListContinuationElement1580() (interface{}, error) {
 	return types.Note, nil
 
 }
 
-func (p *parser) callonListContinuationElement1571() (interface{}, error) {
+func (p *parser) callonListContinuationElement1580() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1571()
+	return p.cur.onListContinuationElement1580()
 }
 
-func (c *current) onListContinuationElement1573() (interface{}, error) {
+func (c *current) onListContinuationElement1582() (interface{}, error) {
 	return types.Important, nil
 
 }
 
-func (p *parser) callonListContinuationElement1573() (interface{}, error) {
+func (p *parser) callonListContinuationElement1582() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1573()
+	return p.cur.onListContinuationElement1582()
 }
 
-func (c *current) onListContinuationElement1575() (interface{}, error) {
+func (c *current) onListContinuationElement1584() (interface{}, error) {
 	return types.Warning, nil
 
 }
 
-func (p *parser) callonListContinuationElement1575() (interface{}, error) {
+func (p *parser) callonListContinuationElement1584() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1575()
+	return p.cur.onListContinuationElement1584()
 }
 
-func (c *current) onListContinuationElement1577() (interface{}, error) {
+func (c *current) onListContinuationElement1586() (interface{}, error) {
 	return types.Caution, nil
 
 }
 
-func (p *parser) callonListContinuationElement1577() (interface{}, error) {
+func (p *parser) callonListContinuationElement1586() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1577()
+	return p.cur.onListContinuationElement1586()
 }
 
-func (c *current) onListContinuationElement1581() (interface{}, error) {
+func (c *current) onListContinuationElement1590() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1581() (interface{}, error) {
+func (p *parser) callonListContinuationElement1590() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1581()
+	return p.cur.onListContinuationElement1590()
 }
 
-func (c *current) onListContinuationElement1579() (interface{}, error) {
+func (c *current) onListContinuationElement1588() (interface{}, error) {
 	// check
 	return types.LiteralParagraph, nil
 
 }
 
-func (p *parser) callonListContinuationElement1579() (interface{}, error) {
+func (p *parser) callonListContinuationElement1588() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1579()
+	return p.cur.onListContinuationElement1588()
 }
 
-func (c *current) onListContinuationElement1564(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1573(style interface{}) (interface{}, error) {
 	return style, nil
 
 }
 
-func (p *parser) callonListContinuationElement1564() (interface{}, error) {
+func (p *parser) callonListContinuationElement1573() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1564(stack["style"])
+	return p.cur.onListContinuationElement1573(stack["style"])
 }
 
-func (c *current) onListContinuationElement1593() (interface{}, error) {
+func (c *current) onListContinuationElement1602() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1593() (interface{}, error) {
+func (p *parser) callonListContinuationElement1602() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1593()
+	return p.cur.onListContinuationElement1602()
 }
 
-func (c *current) onListContinuationElement1596() (interface{}, error) {
+func (c *current) onListContinuationElement1605() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1596() (interface{}, error) {
+func (p *parser) callonListContinuationElement1605() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1596()
+	return p.cur.onListContinuationElement1605()
 }
 
-func (c *current) onListContinuationElement1588() (interface{}, error) {
+func (c *current) onListContinuationElement1597() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1588() (interface{}, error) {
+func (p *parser) callonListContinuationElement1597() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1588()
+	return p.cur.onListContinuationElement1597()
 }
 
-func (c *current) onListContinuationElement1607() (interface{}, error) {
+func (c *current) onListContinuationElement1616() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1607() (interface{}, error) {
+func (p *parser) callonListContinuationElement1616() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1607()
+	return p.cur.onListContinuationElement1616()
 }
 
-func (c *current) onListContinuationElement1609() (interface{}, error) {
+func (c *current) onListContinuationElement1618() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1609() (interface{}, error) {
+func (p *parser) callonListContinuationElement1618() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1609()
+	return p.cur.onListContinuationElement1618()
 }
 
-func (c *current) onListContinuationElement1618() (interface{}, error) {
+func (c *current) onListContinuationElement1627() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1618() (interface{}, error) {
+func (p *parser) callonListContinuationElement1627() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1618()
+	return p.cur.onListContinuationElement1627()
 }
 
-func (c *current) onListContinuationElement1625() (interface{}, error) {
+func (c *current) onListContinuationElement1634() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonListContinuationElement1625() (interface{}, error) {
+func (p *parser) callonListContinuationElement1634() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1625()
+	return p.cur.onListContinuationElement1634()
 }
 
-func (c *current) onListContinuationElement1628(depth interface{}) (bool, error) {
+func (c *current) onListContinuationElement1637(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1628() (bool, error) {
+func (p *parser) callonListContinuationElement1637() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1628(stack["depth"])
+	return p.cur.onListContinuationElement1637(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1622(depth interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1631(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -66471,756 +66897,756 @@ func (c *current) onListContinuationElement1622(depth interface{}) (interface{},
 
 }
 
-func (p *parser) callonListContinuationElement1622() (interface{}, error) {
+func (p *parser) callonListContinuationElement1631() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1622(stack["depth"])
+	return p.cur.onListContinuationElement1631(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1629() (interface{}, error) {
+func (c *current) onListContinuationElement1638() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonListContinuationElement1629() (interface{}, error) {
+func (p *parser) callonListContinuationElement1638() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1629()
+	return p.cur.onListContinuationElement1638()
 }
 
-func (c *current) onListContinuationElement1634() (interface{}, error) {
+func (c *current) onListContinuationElement1643() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1634() (interface{}, error) {
+func (p *parser) callonListContinuationElement1643() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1634()
+	return p.cur.onListContinuationElement1643()
 }
 
-func (c *current) onListContinuationElement1638() (interface{}, error) {
+func (c *current) onListContinuationElement1647() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1638() (interface{}, error) {
+func (p *parser) callonListContinuationElement1647() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1638()
+	return p.cur.onListContinuationElement1647()
 }
 
-func (c *current) onListContinuationElement1642() (interface{}, error) {
+func (c *current) onListContinuationElement1651() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1642() (interface{}, error) {
+func (p *parser) callonListContinuationElement1651() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1642()
+	return p.cur.onListContinuationElement1651()
 }
 
-func (c *current) onListContinuationElement1647() (interface{}, error) {
+func (c *current) onListContinuationElement1656() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1647() (interface{}, error) {
+func (p *parser) callonListContinuationElement1656() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1647()
+	return p.cur.onListContinuationElement1656()
 }
 
-func (c *current) onListContinuationElement1652(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1661(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1652() (interface{}, error) {
+func (p *parser) callonListContinuationElement1661() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1652(stack["prefix"])
+	return p.cur.onListContinuationElement1661(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1615(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1624(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonListContinuationElement1615() (interface{}, error) {
+func (p *parser) callonListContinuationElement1624() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1615(stack["prefix"])
+	return p.cur.onListContinuationElement1624(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1659() (interface{}, error) {
+func (c *current) onListContinuationElement1668() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1659() (interface{}, error) {
+func (p *parser) callonListContinuationElement1668() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1659()
+	return p.cur.onListContinuationElement1668()
 }
 
-func (c *current) onListContinuationElement1662() (interface{}, error) {
+func (c *current) onListContinuationElement1671() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1662() (interface{}, error) {
+func (p *parser) callonListContinuationElement1671() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1662()
+	return p.cur.onListContinuationElement1671()
 }
 
-func (c *current) onListContinuationElement1667(style interface{}) (bool, error) {
+func (c *current) onListContinuationElement1676(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1667() (bool, error) {
+func (p *parser) callonListContinuationElement1676() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1667(stack["style"])
+	return p.cur.onListContinuationElement1676(stack["style"])
 }
 
-func (c *current) onListContinuationElement1668(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1677(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1668() (interface{}, error) {
+func (p *parser) callonListContinuationElement1677() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1668(stack["style"])
+	return p.cur.onListContinuationElement1677(stack["style"])
 }
 
-func (c *current) onListContinuationElement1656(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1665(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1656() (interface{}, error) {
+func (p *parser) callonListContinuationElement1665() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1656(stack["style"])
+	return p.cur.onListContinuationElement1665(stack["style"])
 }
 
-func (c *current) onListContinuationElement1676() (interface{}, error) {
+func (c *current) onListContinuationElement1685() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1676() (interface{}, error) {
+func (p *parser) callonListContinuationElement1685() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1676()
+	return p.cur.onListContinuationElement1685()
 }
 
-func (c *current) onListContinuationElement1680(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1689(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1680() (interface{}, error) {
+func (p *parser) callonListContinuationElement1689() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1680(stack["ref"])
+	return p.cur.onListContinuationElement1689(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1672(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1681(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonListContinuationElement1672() (interface{}, error) {
+func (p *parser) callonListContinuationElement1681() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1672(stack["ref"])
+	return p.cur.onListContinuationElement1681(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1692() (interface{}, error) {
+func (c *current) onListContinuationElement1701() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1692() (interface{}, error) {
+func (p *parser) callonListContinuationElement1701() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1692()
+	return p.cur.onListContinuationElement1701()
 }
 
-func (c *current) onListContinuationElement1695(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1704(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1695() (bool, error) {
+func (p *parser) callonListContinuationElement1704() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1695(stack["separator"])
+	return p.cur.onListContinuationElement1704(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1689(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1698(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1689() (interface{}, error) {
+func (p *parser) callonListContinuationElement1698() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1689(stack["separator"])
+	return p.cur.onListContinuationElement1698(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1698() (interface{}, error) {
+func (c *current) onListContinuationElement1707() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1698() (interface{}, error) {
+func (p *parser) callonListContinuationElement1707() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1698()
+	return p.cur.onListContinuationElement1707()
 }
 
-func (c *current) onListContinuationElement1685() (interface{}, error) {
+func (c *current) onListContinuationElement1694() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonListContinuationElement1685() (interface{}, error) {
+func (p *parser) callonListContinuationElement1694() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1685()
+	return p.cur.onListContinuationElement1694()
 }
 
-func (c *current) onListContinuationElement1709() (interface{}, error) {
+func (c *current) onListContinuationElement1718() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1709() (interface{}, error) {
+func (p *parser) callonListContinuationElement1718() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1709()
+	return p.cur.onListContinuationElement1718()
 }
 
-func (c *current) onListContinuationElement1712(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1721(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1712() (bool, error) {
+func (p *parser) callonListContinuationElement1721() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1712(stack["separator"])
+	return p.cur.onListContinuationElement1721(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1706(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1715(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1706() (interface{}, error) {
+func (p *parser) callonListContinuationElement1715() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1706(stack["separator"])
+	return p.cur.onListContinuationElement1715(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1723() (interface{}, error) {
+func (c *current) onListContinuationElement1732() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1723() (interface{}, error) {
+func (p *parser) callonListContinuationElement1732() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1723()
+	return p.cur.onListContinuationElement1732()
 }
 
-func (c *current) onListContinuationElement1729() (interface{}, error) {
+func (c *current) onListContinuationElement1738() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1729() (interface{}, error) {
+func (p *parser) callonListContinuationElement1738() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1729()
+	return p.cur.onListContinuationElement1738()
 }
 
-func (c *current) onListContinuationElement1732() (interface{}, error) {
+func (c *current) onListContinuationElement1741() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1732() (interface{}, error) {
+func (p *parser) callonListContinuationElement1741() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1732()
+	return p.cur.onListContinuationElement1741()
 }
 
-func (c *current) onListContinuationElement1720(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1729(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1720() (interface{}, error) {
+func (p *parser) callonListContinuationElement1729() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1720(stack["delimiter"])
+	return p.cur.onListContinuationElement1729(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1742() (interface{}, error) {
+func (c *current) onListContinuationElement1751() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1742() (interface{}, error) {
+func (p *parser) callonListContinuationElement1751() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1742()
+	return p.cur.onListContinuationElement1751()
 }
 
-func (c *current) onListContinuationElement1748() (interface{}, error) {
+func (c *current) onListContinuationElement1757() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1748() (interface{}, error) {
+func (p *parser) callonListContinuationElement1757() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1748()
+	return p.cur.onListContinuationElement1757()
 }
 
-func (c *current) onListContinuationElement1751() (interface{}, error) {
+func (c *current) onListContinuationElement1760() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1751() (interface{}, error) {
+func (p *parser) callonListContinuationElement1760() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1751()
+	return p.cur.onListContinuationElement1760()
 }
 
-func (c *current) onListContinuationElement1739(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1748(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1739() (interface{}, error) {
+func (p *parser) callonListContinuationElement1748() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1739(stack["delimiter"])
+	return p.cur.onListContinuationElement1748(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1762() (interface{}, error) {
+func (c *current) onListContinuationElement1771() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1762() (interface{}, error) {
+func (p *parser) callonListContinuationElement1771() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1762()
+	return p.cur.onListContinuationElement1771()
 }
 
-func (c *current) onListContinuationElement1766() (interface{}, error) {
+func (c *current) onListContinuationElement1775() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1766() (interface{}, error) {
+func (p *parser) callonListContinuationElement1775() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1766()
+	return p.cur.onListContinuationElement1775()
 }
 
-func (c *current) onListContinuationElement1769() (interface{}, error) {
+func (c *current) onListContinuationElement1778() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1769() (interface{}, error) {
+func (p *parser) callonListContinuationElement1778() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1769()
+	return p.cur.onListContinuationElement1778()
 }
 
-func (c *current) onListContinuationElement1758(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1767(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1758() (interface{}, error) {
+func (p *parser) callonListContinuationElement1767() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1758(stack["language"])
+	return p.cur.onListContinuationElement1767(stack["language"])
 }
 
-func (c *current) onListContinuationElement1779() (interface{}, error) {
+func (c *current) onListContinuationElement1788() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1779() (interface{}, error) {
+func (p *parser) callonListContinuationElement1788() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1779()
+	return p.cur.onListContinuationElement1788()
 }
 
-func (c *current) onListContinuationElement1785() (interface{}, error) {
+func (c *current) onListContinuationElement1794() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1785() (interface{}, error) {
+func (p *parser) callonListContinuationElement1794() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1785()
+	return p.cur.onListContinuationElement1794()
 }
 
-func (c *current) onListContinuationElement1788() (interface{}, error) {
+func (c *current) onListContinuationElement1797() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1788() (interface{}, error) {
+func (p *parser) callonListContinuationElement1797() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1788()
+	return p.cur.onListContinuationElement1797()
 }
 
-func (c *current) onListContinuationElement1776(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1785(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1776() (interface{}, error) {
+func (p *parser) callonListContinuationElement1785() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1776(stack["delimiter"])
+	return p.cur.onListContinuationElement1785(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1798() (interface{}, error) {
+func (c *current) onListContinuationElement1807() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1798() (interface{}, error) {
+func (p *parser) callonListContinuationElement1807() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1798()
+	return p.cur.onListContinuationElement1807()
 }
 
-func (c *current) onListContinuationElement1804() (interface{}, error) {
+func (c *current) onListContinuationElement1813() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1804() (interface{}, error) {
+func (p *parser) callonListContinuationElement1813() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1804()
+	return p.cur.onListContinuationElement1813()
 }
 
-func (c *current) onListContinuationElement1807() (interface{}, error) {
+func (c *current) onListContinuationElement1816() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1807() (interface{}, error) {
+func (p *parser) callonListContinuationElement1816() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1807()
+	return p.cur.onListContinuationElement1816()
 }
 
-func (c *current) onListContinuationElement1795(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1804(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1795() (interface{}, error) {
+func (p *parser) callonListContinuationElement1804() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1795(stack["delimiter"])
+	return p.cur.onListContinuationElement1804(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1817() (interface{}, error) {
+func (c *current) onListContinuationElement1826() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1817() (interface{}, error) {
+func (p *parser) callonListContinuationElement1826() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1817()
+	return p.cur.onListContinuationElement1826()
 }
 
-func (c *current) onListContinuationElement1823() (interface{}, error) {
+func (c *current) onListContinuationElement1832() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1823() (interface{}, error) {
+func (p *parser) callonListContinuationElement1832() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1823()
+	return p.cur.onListContinuationElement1832()
 }
 
-func (c *current) onListContinuationElement1826() (interface{}, error) {
+func (c *current) onListContinuationElement1835() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1826() (interface{}, error) {
+func (p *parser) callonListContinuationElement1835() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1826()
+	return p.cur.onListContinuationElement1835()
 }
 
-func (c *current) onListContinuationElement1814(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1823(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1814() (interface{}, error) {
+func (p *parser) callonListContinuationElement1823() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1814(stack["delimiter"])
+	return p.cur.onListContinuationElement1823(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1836() (interface{}, error) {
+func (c *current) onListContinuationElement1845() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1836() (interface{}, error) {
+func (p *parser) callonListContinuationElement1845() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1836()
+	return p.cur.onListContinuationElement1845()
 }
 
-func (c *current) onListContinuationElement1842() (interface{}, error) {
+func (c *current) onListContinuationElement1851() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1842() (interface{}, error) {
+func (p *parser) callonListContinuationElement1851() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1842()
+	return p.cur.onListContinuationElement1851()
 }
 
-func (c *current) onListContinuationElement1845() (interface{}, error) {
+func (c *current) onListContinuationElement1854() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1845() (interface{}, error) {
+func (p *parser) callonListContinuationElement1854() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1845()
+	return p.cur.onListContinuationElement1854()
 }
 
-func (c *current) onListContinuationElement1833(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1842(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1833() (interface{}, error) {
+func (p *parser) callonListContinuationElement1842() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1833(stack["delimiter"])
+	return p.cur.onListContinuationElement1842(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1855() (interface{}, error) {
+func (c *current) onListContinuationElement1864() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1855() (interface{}, error) {
+func (p *parser) callonListContinuationElement1864() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1855()
+	return p.cur.onListContinuationElement1864()
 }
 
-func (c *current) onListContinuationElement1861() (interface{}, error) {
+func (c *current) onListContinuationElement1870() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1861() (interface{}, error) {
+func (p *parser) callonListContinuationElement1870() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1861()
+	return p.cur.onListContinuationElement1870()
 }
 
-func (c *current) onListContinuationElement1864() (interface{}, error) {
+func (c *current) onListContinuationElement1873() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1864() (interface{}, error) {
+func (p *parser) callonListContinuationElement1873() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1864()
+	return p.cur.onListContinuationElement1873()
 }
 
-func (c *current) onListContinuationElement1852(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1861(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1852() (interface{}, error) {
+func (p *parser) callonListContinuationElement1861() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1852(stack["delimiter"])
+	return p.cur.onListContinuationElement1861(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1874() (interface{}, error) {
+func (c *current) onListContinuationElement1883() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1874() (interface{}, error) {
+func (p *parser) callonListContinuationElement1883() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1874()
+	return p.cur.onListContinuationElement1883()
 }
 
-func (c *current) onListContinuationElement1880() (interface{}, error) {
+func (c *current) onListContinuationElement1889() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1880() (interface{}, error) {
+func (p *parser) callonListContinuationElement1889() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1880()
+	return p.cur.onListContinuationElement1889()
 }
 
-func (c *current) onListContinuationElement1883() (interface{}, error) {
+func (c *current) onListContinuationElement1892() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1883() (interface{}, error) {
+func (p *parser) callonListContinuationElement1892() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1883()
+	return p.cur.onListContinuationElement1892()
 }
 
-func (c *current) onListContinuationElement1871(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1880(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1871() (interface{}, error) {
+func (p *parser) callonListContinuationElement1880() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1871(stack["delimiter"])
+	return p.cur.onListContinuationElement1880(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1714(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1723(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1714() (interface{}, error) {
+func (p *parser) callonListContinuationElement1723() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1714(stack["delimiter"])
+	return p.cur.onListContinuationElement1723(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1891() (interface{}, error) {
+func (c *current) onListContinuationElement1900() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1891() (interface{}, error) {
+func (p *parser) callonListContinuationElement1900() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1891()
+	return p.cur.onListContinuationElement1900()
 }
 
-func (c *current) onListContinuationElement1895() (interface{}, error) {
+func (c *current) onListContinuationElement1904() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1895() (interface{}, error) {
+func (p *parser) callonListContinuationElement1904() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1895()
+	return p.cur.onListContinuationElement1904()
 }
 
-func (c *current) onListContinuationElement1585(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1594(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1585() (interface{}, error) {
+func (p *parser) callonListContinuationElement1594() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1585(stack["content"])
+	return p.cur.onListContinuationElement1594(stack["content"])
 }
 
-func (c *current) onListContinuationElement1560(style, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1569(style, content interface{}) (interface{}, error) {
 	return types.NewParagraph(style, content)
 
 }
 
-func (p *parser) callonListContinuationElement1560() (interface{}, error) {
+func (p *parser) callonListContinuationElement1569() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1560(stack["style"], stack["content"])
+	return p.cur.onListContinuationElement1569(stack["style"], stack["content"])
 }
 
 func (c *current) onListContinuationElement1(attributes, element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index f63b127..442ec2d 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -817,15 +817,23 @@ DelimitedBlockRawLine <-
 // Comment Blocks
 // ----------------
 CommentBlock <-
-    CommentBlockStartDelimiter
+    start:(CommentBlockStartDelimiter)
+    &{
+        return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+    }
     content:(CommentBlockContent)
-    CommentBlockEndDelimiter? {
+    end:(CommentBlockEndDelimiter)? {
         return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
     }
 
 CommentBlockStartDelimiter <- CommentBlockDelimiter
 
-CommentBlockEndDelimiter <- CommentBlockDelimiter / EOF
+CommentBlockEndDelimiter <- 
+    end:CommentBlockDelimiter 
+    &{
+        return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+    }
+    / EOF
 
 CommentBlockContent <- 
     (!CommentBlockEndDelimiter
-- 
2.43.0


From b77cdaed7368b5ee20c059434531a53e23f51ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:02 +0000
Subject: [PATCH 054/108] fix: ignore comments within markdown quote blocks

the comment lines of these blocks were rendered
---
 pkg/parser/parser.go  | 17548 +++++++++++++++++++++-------------------
 pkg/parser/parser.peg |     8 +-
 2 files changed, 9187 insertions(+), 8369 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 181e3a4..00b1769 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 10, offset: 90451},
+														pos: position{line: 2864, col: 10, offset: 90641},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2860, col: 10, offset: 90451},
+															pos:        position{line: 2864, col: 10, offset: 90641},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2882, col: 8, offset: 90849},
+													pos: position{line: 2886, col: 8, offset: 91039},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2869, col: 12, offset: 90622},
+															pos: position{line: 2873, col: 12, offset: 90812},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2869, col: 13, offset: 90623},
+																pos: position{line: 2873, col: 13, offset: 90813},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 13, offset: 90623},
+																		pos:        position{line: 2873, col: 13, offset: 90813},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 20, offset: 90630},
+																		pos:        position{line: 2873, col: 20, offset: 90820},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 29, offset: 90639},
+																		pos:        position{line: 2873, col: 29, offset: 90829},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2879, col: 8, offset: 90799},
+															pos: position{line: 2883, col: 8, offset: 90989},
 															expr: &anyMatcher{
-																line: 2879, col: 9, offset: 90800,
+																line: 2883, col: 9, offset: 90990,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 10, offset: 90451},
+														pos: position{line: 2864, col: 10, offset: 90641},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2860, col: 10, offset: 90451},
+															pos:        position{line: 2864, col: 10, offset: 90641},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2882, col: 8, offset: 90849},
+													pos: position{line: 2886, col: 8, offset: 91039},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2869, col: 12, offset: 90622},
+															pos: position{line: 2873, col: 12, offset: 90812},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2869, col: 13, offset: 90623},
+																pos: position{line: 2873, col: 13, offset: 90813},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 13, offset: 90623},
+																		pos:        position{line: 2873, col: 13, offset: 90813},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 20, offset: 90630},
+																		pos:        position{line: 2873, col: 20, offset: 90820},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 29, offset: 90639},
+																		pos:        position{line: 2873, col: 29, offset: 90829},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2879, col: 8, offset: 90799},
+															pos: position{line: 2883, col: 8, offset: 90989},
 															expr: &anyMatcher{
-																line: 2879, col: 9, offset: 90800,
+																line: 2883, col: 9, offset: 90990,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 10, offset: 90451},
+														pos: position{line: 2864, col: 10, offset: 90641},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2860, col: 10, offset: 90451},
+															pos:        position{line: 2864, col: 10, offset: 90641},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2879, col: 8, offset: 90799},
+													pos: position{line: 2883, col: 8, offset: 90989},
 													expr: &anyMatcher{
-														line: 2879, col: 9, offset: 90800,
+														line: 2883, col: 9, offset: 90990,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 10, offset: 90451},
+														pos: position{line: 2864, col: 10, offset: 90641},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2860, col: 10, offset: 90451},
+															pos:        position{line: 2864, col: 10, offset: 90641},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2879, col: 8, offset: 90799},
+													pos: position{line: 2883, col: 8, offset: 90989},
 													expr: &anyMatcher{
-														line: 2879, col: 9, offset: 90800,
+														line: 2883, col: 9, offset: 90990,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2852, col: 12, offset: 90278},
+																pos: position{line: 2856, col: 12, offset: 90468},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2852, col: 13, offset: 90279},
+																	pos: position{line: 2856, col: 13, offset: 90469},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2852, col: 13, offset: 90279},
+																			pos: position{line: 2856, col: 13, offset: 90469},
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 13, offset: 90279},
+																				pos:        position{line: 2856, col: 13, offset: 90469},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2852, col: 18, offset: 90284},
+																			pos: position{line: 2856, col: 18, offset: 90474},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 18, offset: 90284},
+																				pos:        position{line: 2856, col: 18, offset: 90474},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 10, offset: 90451},
+														pos: position{line: 2864, col: 10, offset: 90641},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2860, col: 10, offset: 90451},
+															pos:        position{line: 2864, col: 10, offset: 90641},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 10, offset: 90451},
+														pos: position{line: 2864, col: 10, offset: 90641},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2860, col: 10, offset: 90451},
+															pos:        position{line: 2864, col: 10, offset: 90641},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2852, col: 12, offset: 90278},
+																pos: position{line: 2856, col: 12, offset: 90468},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2852, col: 13, offset: 90279},
+																	pos: position{line: 2856, col: 13, offset: 90469},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2852, col: 13, offset: 90279},
+																			pos: position{line: 2856, col: 13, offset: 90469},
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 13, offset: 90279},
+																				pos:        position{line: 2856, col: 13, offset: 90469},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2852, col: 18, offset: 90284},
+																			pos: position{line: 2856, col: 18, offset: 90474},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 18, offset: 90284},
+																				pos:        position{line: 2856, col: 18, offset: 90474},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 10, offset: 90451},
+														pos: position{line: 2864, col: 10, offset: 90641},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2860, col: 10, offset: 90451},
+															pos:        position{line: 2864, col: 10, offset: 90641},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2879, col: 8, offset: 90799},
+													pos: position{line: 2883, col: 8, offset: 90989},
 													expr: &anyMatcher{
-														line: 2879, col: 9, offset: 90800,
+														line: 2883, col: 9, offset: 90990,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 10, offset: 90451},
+														pos: position{line: 2864, col: 10, offset: 90641},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2860, col: 10, offset: 90451},
+															pos:        position{line: 2864, col: 10, offset: 90641},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2879, col: 8, offset: 90799},
+													pos: position{line: 2883, col: 8, offset: 90989},
 													expr: &anyMatcher{
-														line: 2879, col: 9, offset: 90800,
+														line: 2883, col: 9, offset: 90990,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 724, col: 5, offset: 23042},
 													expr: &charClassMatcher{
-														pos:        position{line: 2750, col: 13, offset: 87546},
+														pos:        position{line: 2754, col: 13, offset: 87736},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2860, col: 10, offset: 90451},
+																				pos: position{line: 2864, col: 10, offset: 90641},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2860, col: 10, offset: 90451},
+																					pos:        position{line: 2864, col: 10, offset: 90641},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2882, col: 8, offset: 90849},
+																			pos: position{line: 2886, col: 8, offset: 91039},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2869, col: 12, offset: 90622},
+																					pos: position{line: 2873, col: 12, offset: 90812},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2869, col: 13, offset: 90623},
+																						pos: position{line: 2873, col: 13, offset: 90813},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 13, offset: 90623},
+																								pos:        position{line: 2873, col: 13, offset: 90813},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 20, offset: 90630},
+																								pos:        position{line: 2873, col: 20, offset: 90820},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 29, offset: 90639},
+																								pos:        position{line: 2873, col: 29, offset: 90829},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 749, col: 8, offset: 23934},
 																			expr: &actionExpr{
-																				pos: position{line: 2860, col: 10, offset: 90451},
+																				pos: position{line: 2864, col: 10, offset: 90641},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2860, col: 10, offset: 90451},
+																					pos:        position{line: 2864, col: 10, offset: 90641},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2882, col: 8, offset: 90849},
+																			pos: position{line: 2886, col: 8, offset: 91039},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2869, col: 12, offset: 90622},
+																					pos: position{line: 2873, col: 12, offset: 90812},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2869, col: 13, offset: 90623},
+																						pos: position{line: 2873, col: 13, offset: 90813},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 13, offset: 90623},
+																								pos:        position{line: 2873, col: 13, offset: 90813},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 20, offset: 90630},
+																								pos:        position{line: 2873, col: 20, offset: 90820},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 29, offset: 90639},
+																								pos:        position{line: 2873, col: 29, offset: 90829},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 760, col: 52, offset: 24346},
 																			expr: &actionExpr{
-																				pos: position{line: 2860, col: 10, offset: 90451},
+																				pos: position{line: 2864, col: 10, offset: 90641},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2860, col: 10, offset: 90451},
+																					pos:        position{line: 2864, col: 10, offset: 90641},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2882, col: 8, offset: 90849},
+																			pos: position{line: 2886, col: 8, offset: 91039},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2869, col: 12, offset: 90622},
+																					pos: position{line: 2873, col: 12, offset: 90812},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2869, col: 13, offset: 90623},
+																						pos: position{line: 2873, col: 13, offset: 90813},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 13, offset: 90623},
+																								pos:        position{line: 2873, col: 13, offset: 90813},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 20, offset: 90630},
+																								pos:        position{line: 2873, col: 20, offset: 90820},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 29, offset: 90639},
+																								pos:        position{line: 2873, col: 29, offset: 90829},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 756, col: 8, offset: 24180},
 																			expr: &actionExpr{
-																				pos: position{line: 2860, col: 10, offset: 90451},
+																				pos: position{line: 2864, col: 10, offset: 90641},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2860, col: 10, offset: 90451},
+																					pos:        position{line: 2864, col: 10, offset: 90641},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2882, col: 8, offset: 90849},
+																			pos: position{line: 2886, col: 8, offset: 91039},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2869, col: 12, offset: 90622},
+																					pos: position{line: 2873, col: 12, offset: 90812},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2869, col: 13, offset: 90623},
+																						pos: position{line: 2873, col: 13, offset: 90813},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 13, offset: 90623},
+																								pos:        position{line: 2873, col: 13, offset: 90813},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 20, offset: 90630},
+																								pos:        position{line: 2873, col: 20, offset: 90820},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 29, offset: 90639},
+																								pos:        position{line: 2873, col: 29, offset: 90829},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 771, col: 8, offset: 24718},
 																			expr: &actionExpr{
-																				pos: position{line: 2860, col: 10, offset: 90451},
+																				pos: position{line: 2864, col: 10, offset: 90641},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2860, col: 10, offset: 90451},
+																					pos:        position{line: 2864, col: 10, offset: 90641},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2882, col: 8, offset: 90849},
+																			pos: position{line: 2886, col: 8, offset: 91039},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2869, col: 12, offset: 90622},
+																					pos: position{line: 2873, col: 12, offset: 90812},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2869, col: 13, offset: 90623},
+																						pos: position{line: 2873, col: 13, offset: 90813},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 13, offset: 90623},
+																								pos:        position{line: 2873, col: 13, offset: 90813},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 20, offset: 90630},
+																								pos:        position{line: 2873, col: 20, offset: 90820},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 29, offset: 90639},
+																								pos:        position{line: 2873, col: 29, offset: 90829},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 785, col: 8, offset: 25194},
 																			expr: &actionExpr{
-																				pos: position{line: 2860, col: 10, offset: 90451},
+																				pos: position{line: 2864, col: 10, offset: 90641},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2860, col: 10, offset: 90451},
+																					pos:        position{line: 2864, col: 10, offset: 90641},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2882, col: 8, offset: 90849},
+																			pos: position{line: 2886, col: 8, offset: 91039},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2869, col: 12, offset: 90622},
+																					pos: position{line: 2873, col: 12, offset: 90812},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2869, col: 13, offset: 90623},
+																						pos: position{line: 2873, col: 13, offset: 90813},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 13, offset: 90623},
+																								pos:        position{line: 2873, col: 13, offset: 90813},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 20, offset: 90630},
+																								pos:        position{line: 2873, col: 20, offset: 90820},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 29, offset: 90639},
+																								pos:        position{line: 2873, col: 29, offset: 90829},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 792, col: 8, offset: 25446},
 																			expr: &actionExpr{
-																				pos: position{line: 2860, col: 10, offset: 90451},
+																				pos: position{line: 2864, col: 10, offset: 90641},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2860, col: 10, offset: 90451},
+																					pos:        position{line: 2864, col: 10, offset: 90641},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2882, col: 8, offset: 90849},
+																			pos: position{line: 2886, col: 8, offset: 91039},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2869, col: 12, offset: 90622},
+																					pos: position{line: 2873, col: 12, offset: 90812},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2869, col: 13, offset: 90623},
+																						pos: position{line: 2873, col: 13, offset: 90813},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 13, offset: 90623},
+																								pos:        position{line: 2873, col: 13, offset: 90813},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 20, offset: 90630},
+																								pos:        position{line: 2873, col: 20, offset: 90820},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 29, offset: 90639},
+																								pos:        position{line: 2873, col: 29, offset: 90829},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 799, col: 8, offset: 25696},
 																			expr: &actionExpr{
-																				pos: position{line: 2860, col: 10, offset: 90451},
+																				pos: position{line: 2864, col: 10, offset: 90641},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2860, col: 10, offset: 90451},
+																					pos:        position{line: 2864, col: 10, offset: 90641},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2882, col: 8, offset: 90849},
+																			pos: position{line: 2886, col: 8, offset: 91039},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2869, col: 12, offset: 90622},
+																					pos: position{line: 2873, col: 12, offset: 90812},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2869, col: 13, offset: 90623},
+																						pos: position{line: 2873, col: 13, offset: 90813},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 13, offset: 90623},
+																								pos:        position{line: 2873, col: 13, offset: 90813},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 20, offset: 90630},
+																								pos:        position{line: 2873, col: 20, offset: 90820},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 29, offset: 90639},
+																								pos:        position{line: 2873, col: 29, offset: 90829},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 806, col: 8, offset: 25942},
 																			expr: &actionExpr{
-																				pos: position{line: 2860, col: 10, offset: 90451},
+																				pos: position{line: 2864, col: 10, offset: 90641},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2860, col: 10, offset: 90451},
+																					pos:        position{line: 2864, col: 10, offset: 90641},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2882, col: 8, offset: 90849},
+																			pos: position{line: 2886, col: 8, offset: 91039},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2869, col: 12, offset: 90622},
+																					pos: position{line: 2873, col: 12, offset: 90812},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2869, col: 13, offset: 90623},
+																						pos: position{line: 2873, col: 13, offset: 90813},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 13, offset: 90623},
+																								pos:        position{line: 2873, col: 13, offset: 90813},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 20, offset: 90630},
+																								pos:        position{line: 2873, col: 20, offset: 90820},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 29, offset: 90639},
+																								pos:        position{line: 2873, col: 29, offset: 90829},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2864, col: 11, offset: 90512},
+													pos: position{line: 2868, col: 11, offset: 90702},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2864, col: 11, offset: 90512},
+														pos: position{line: 2868, col: 11, offset: 90702},
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 11, offset: 90512},
+															pos:        position{line: 2868, col: 11, offset: 90702},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2810, col: 14, offset: 89044},
+													pos: position{line: 2814, col: 14, offset: 89234},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2810, col: 14, offset: 89044},
+														pos: position{line: 2814, col: 14, offset: 89234},
 														expr: &charClassMatcher{
-															pos:        position{line: 2810, col: 14, offset: 89044},
+															pos:        position{line: 2814, col: 14, offset: 89234},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2879, col: 8, offset: 90799},
+													pos: position{line: 2883, col: 8, offset: 90989},
 													expr: &anyMatcher{
-														line: 2879, col: 9, offset: 90800,
+														line: 2883, col: 9, offset: 90990,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2879, col: 8, offset: 90799},
+							pos: position{line: 2883, col: 8, offset: 90989},
 							expr: &anyMatcher{
-								line: 2879, col: 9, offset: 90800,
+								line: 2883, col: 9, offset: 90990,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2814, col: 17, offset: 89114},
+												pos: position{line: 2818, col: 17, offset: 89304},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2814, col: 17, offset: 89114},
+													pos:   position{line: 2818, col: 17, offset: 89304},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2831, col: 5, offset: 89568},
+														pos: position{line: 2835, col: 5, offset: 89758},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2831, col: 5, offset: 89568},
+															pos:   position{line: 2835, col: 5, offset: 89758},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2831, col: 14, offset: 89577},
+																pos: position{line: 2835, col: 14, offset: 89767},
 																expr: &choiceExpr{
-																	pos: position{line: 2832, col: 9, offset: 89587},
+																	pos: position{line: 2836, col: 9, offset: 89777},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2832, col: 9, offset: 89587},
+																			pos: position{line: 2836, col: 9, offset: 89777},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2832, col: 9, offset: 89587},
+																				pos: position{line: 2836, col: 9, offset: 89777},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2832, col: 9, offset: 89587},
+																						pos: position{line: 2836, col: 9, offset: 89777},
 																						expr: &litMatcher{
-																							pos:        position{line: 2832, col: 10, offset: 89588},
+																							pos:        position{line: 2836, col: 10, offset: 89778},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2833, col: 9, offset: 89616},
+																						pos: position{line: 2837, col: 9, offset: 89806},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2833, col: 10, offset: 89617},
+																							pos:        position{line: 2837, col: 10, offset: 89807},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2836, col: 11, offset: 89829},
+																			pos: position{line: 2840, col: 11, offset: 90019},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2836, col: 11, offset: 89829},
+																					pos:        position{line: 2840, col: 11, offset: 90019},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2836, col: 19, offset: 89837},
+																					pos: position{line: 2840, col: 19, offset: 90027},
 																					expr: &seqExpr{
-																						pos: position{line: 2836, col: 21, offset: 89839},
+																						pos: position{line: 2840, col: 21, offset: 90029},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2836, col: 21, offset: 89839},
+																								pos: position{line: 2840, col: 21, offset: 90029},
 																								expr: &actionExpr{
-																									pos: position{line: 2860, col: 10, offset: 90451},
+																									pos: position{line: 2864, col: 10, offset: 90641},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2860, col: 10, offset: 90451},
+																										pos:        position{line: 2864, col: 10, offset: 90641},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2836, col: 28, offset: 89846},
+																								pos: position{line: 2840, col: 28, offset: 90036},
 																								expr: &notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -3045,27 +3045,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1206, col: 23, offset: 37184},
+																			pos: position{line: 1210, col: 23, offset: 37374},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1206, col: 23, offset: 37184},
+																				pos: position{line: 1210, col: 23, offset: 37374},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37152},
+																						pos:        position{line: 1208, col: 32, offset: 37342},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1206, col: 51, offset: 37212},
+																						pos:   position{line: 1210, col: 51, offset: 37402},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1206, col: 56, offset: 37217},
+																							pos: position{line: 1210, col: 56, offset: 37407},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1206, col: 56, offset: 37217},
+																								pos: position{line: 1210, col: 56, offset: 37407},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1206, col: 56, offset: 37217},
+																									pos:        position{line: 1210, col: 56, offset: 37407},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3075,7 +3075,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37152},
+																						pos:        position{line: 1208, col: 32, offset: 37342},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2839, col: 11, offset: 89966},
+																			pos: position{line: 2843, col: 11, offset: 90156},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2839, col: 11, offset: 89966},
+																				pos:        position{line: 2843, col: 11, offset: 90156},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2860, col: 10, offset: 90451},
+								pos: position{line: 2864, col: 10, offset: 90641},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2860, col: 10, offset: 90451},
+									pos:        position{line: 2864, col: 10, offset: 90641},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2882, col: 8, offset: 90849},
+							pos: position{line: 2886, col: 8, offset: 91039},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2869, col: 12, offset: 90622},
+									pos: position{line: 2873, col: 12, offset: 90812},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2869, col: 13, offset: 90623},
+										pos: position{line: 2873, col: 13, offset: 90813},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2869, col: 13, offset: 90623},
+												pos:        position{line: 2873, col: 13, offset: 90813},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2869, col: 20, offset: 90630},
+												pos:        position{line: 2873, col: 20, offset: 90820},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2869, col: 29, offset: 90639},
+												pos:        position{line: 2873, col: 29, offset: 90829},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2879, col: 8, offset: 90799},
+									pos: position{line: 2883, col: 8, offset: 90989},
 									expr: &anyMatcher{
-										line: 2879, col: 9, offset: 90800,
+										line: 2883, col: 9, offset: 90990,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 12, offset: 90278},
+																				pos: position{line: 2856, col: 12, offset: 90468},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2852, col: 13, offset: 90279},
+																					pos: position{line: 2856, col: 13, offset: 90469},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2852, col: 13, offset: 90279},
+																							pos: position{line: 2856, col: 13, offset: 90469},
 																							expr: &litMatcher{
-																								pos:        position{line: 2852, col: 13, offset: 90279},
+																								pos:        position{line: 2856, col: 13, offset: 90469},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2852, col: 18, offset: 90284},
+																							pos: position{line: 2856, col: 18, offset: 90474},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 18, offset: 90284},
+																								pos:        position{line: 2856, col: 18, offset: 90474},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2852, col: 12, offset: 90278},
+																				pos: position{line: 2856, col: 12, offset: 90468},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2852, col: 13, offset: 90279},
+																					pos: position{line: 2856, col: 13, offset: 90469},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2852, col: 13, offset: 90279},
+																							pos: position{line: 2856, col: 13, offset: 90469},
 																							expr: &litMatcher{
-																								pos:        position{line: 2852, col: 13, offset: 90279},
+																								pos:        position{line: 2856, col: 13, offset: 90469},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2852, col: 18, offset: 90284},
+																							pos: position{line: 2856, col: 18, offset: 90474},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2852, col: 18, offset: 90284},
+																								pos:        position{line: 2856, col: 18, offset: 90474},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 12, offset: 90278},
+																		pos: position{line: 2856, col: 12, offset: 90468},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2852, col: 13, offset: 90279},
+																			pos: position{line: 2856, col: 13, offset: 90469},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2852, col: 13, offset: 90279},
+																					pos: position{line: 2856, col: 13, offset: 90469},
 																					expr: &litMatcher{
-																						pos:        position{line: 2852, col: 13, offset: 90279},
+																						pos:        position{line: 2856, col: 13, offset: 90469},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2852, col: 18, offset: 90284},
+																					pos: position{line: 2856, col: 18, offset: 90474},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 18, offset: 90284},
+																						pos:        position{line: 2856, col: 18, offset: 90474},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 12, offset: 90278},
+																									pos: position{line: 2856, col: 12, offset: 90468},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2852, col: 13, offset: 90279},
+																										pos: position{line: 2856, col: 13, offset: 90469},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2852, col: 13, offset: 90279},
+																												pos: position{line: 2856, col: 13, offset: 90469},
 																												expr: &litMatcher{
-																													pos:        position{line: 2852, col: 13, offset: 90279},
+																													pos:        position{line: 2856, col: 13, offset: 90469},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2852, col: 18, offset: 90284},
+																												pos: position{line: 2856, col: 18, offset: 90474},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 18, offset: 90284},
+																													pos:        position{line: 2856, col: 18, offset: 90474},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2852, col: 12, offset: 90278},
+																									pos: position{line: 2856, col: 12, offset: 90468},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2852, col: 13, offset: 90279},
+																										pos: position{line: 2856, col: 13, offset: 90469},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2852, col: 13, offset: 90279},
+																												pos: position{line: 2856, col: 13, offset: 90469},
 																												expr: &litMatcher{
-																													pos:        position{line: 2852, col: 13, offset: 90279},
+																													pos:        position{line: 2856, col: 13, offset: 90469},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2852, col: 18, offset: 90284},
+																												pos: position{line: 2856, col: 18, offset: 90474},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2852, col: 18, offset: 90284},
+																													pos:        position{line: 2856, col: 18, offset: 90474},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2852, col: 12, offset: 90278},
+																							pos: position{line: 2856, col: 12, offset: 90468},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2852, col: 13, offset: 90279},
+																								pos: position{line: 2856, col: 13, offset: 90469},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2852, col: 13, offset: 90279},
+																										pos: position{line: 2856, col: 13, offset: 90469},
 																										expr: &litMatcher{
-																											pos:        position{line: 2852, col: 13, offset: 90279},
+																											pos:        position{line: 2856, col: 13, offset: 90469},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2852, col: 18, offset: 90284},
+																										pos: position{line: 2856, col: 18, offset: 90474},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2852, col: 18, offset: 90284},
+																											pos:        position{line: 2856, col: 18, offset: 90474},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 12, offset: 90278},
+														pos: position{line: 2856, col: 12, offset: 90468},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2852, col: 13, offset: 90279},
+															pos: position{line: 2856, col: 13, offset: 90469},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2852, col: 13, offset: 90279},
+																	pos: position{line: 2856, col: 13, offset: 90469},
 																	expr: &litMatcher{
-																		pos:        position{line: 2852, col: 13, offset: 90279},
+																		pos:        position{line: 2856, col: 13, offset: 90469},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2852, col: 18, offset: 90284},
+																	pos: position{line: 2856, col: 18, offset: 90474},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 18, offset: 90284},
+																		pos:        position{line: 2856, col: 18, offset: 90474},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2852, col: 12, offset: 90278},
+														pos: position{line: 2856, col: 12, offset: 90468},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2852, col: 13, offset: 90279},
+															pos: position{line: 2856, col: 13, offset: 90469},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2852, col: 13, offset: 90279},
+																	pos: position{line: 2856, col: 13, offset: 90469},
 																	expr: &litMatcher{
-																		pos:        position{line: 2852, col: 13, offset: 90279},
+																		pos:        position{line: 2856, col: 13, offset: 90469},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2852, col: 18, offset: 90284},
+																	pos: position{line: 2856, col: 18, offset: 90474},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2852, col: 18, offset: 90284},
+																		pos:        position{line: 2856, col: 18, offset: 90474},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2852, col: 12, offset: 90278},
+												pos: position{line: 2856, col: 12, offset: 90468},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2852, col: 13, offset: 90279},
+													pos: position{line: 2856, col: 13, offset: 90469},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2852, col: 13, offset: 90279},
+															pos: position{line: 2856, col: 13, offset: 90469},
 															expr: &litMatcher{
-																pos:        position{line: 2852, col: 13, offset: 90279},
+																pos:        position{line: 2856, col: 13, offset: 90469},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2852, col: 18, offset: 90284},
+															pos: position{line: 2856, col: 18, offset: 90474},
 															expr: &charClassMatcher{
-																pos:        position{line: 2852, col: 18, offset: 90284},
+																pos:        position{line: 2856, col: 18, offset: 90474},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2879, col: 8, offset: 90799},
+							pos: position{line: 2883, col: 8, offset: 90989},
 							expr: &anyMatcher{
-								line: 2879, col: 9, offset: 90800,
+								line: 2883, col: 9, offset: 90990,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2754, col: 14, offset: 87620},
+																		pos: position{line: 2758, col: 14, offset: 87810},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2754, col: 14, offset: 87620},
+																			pos: position{line: 2758, col: 14, offset: 87810},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2754, col: 14, offset: 87620},
+																				pos:        position{line: 2758, col: 14, offset: 87810},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2754, col: 14, offset: 87620},
+																				pos: position{line: 2758, col: 14, offset: 87810},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2754, col: 14, offset: 87620},
+																					pos: position{line: 2758, col: 14, offset: 87810},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2754, col: 14, offset: 87620},
+																						pos:        position{line: 2758, col: 14, offset: 87810},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2754, col: 14, offset: 87620},
+																							pos: position{line: 2758, col: 14, offset: 87810},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2754, col: 14, offset: 87620},
+																								pos: position{line: 2758, col: 14, offset: 87810},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2754, col: 14, offset: 87620},
+																									pos:        position{line: 2758, col: 14, offset: 87810},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2754, col: 14, offset: 87620},
+																									pos: position{line: 2758, col: 14, offset: 87810},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2754, col: 14, offset: 87620},
+																										pos: position{line: 2758, col: 14, offset: 87810},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2754, col: 14, offset: 87620},
+																											pos:        position{line: 2758, col: 14, offset: 87810},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2879, col: 8, offset: 90799},
+							pos: position{line: 2883, col: 8, offset: 90989},
 							expr: &anyMatcher{
-								line: 2879, col: 9, offset: 90800,
+								line: 2883, col: 9, offset: 90990,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2754, col: 14, offset: 87620},
+																pos: position{line: 2758, col: 14, offset: 87810},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2754, col: 14, offset: 87620},
+																	pos: position{line: 2758, col: 14, offset: 87810},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2754, col: 14, offset: 87620},
+																		pos:        position{line: 2758, col: 14, offset: 87810},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2754, col: 14, offset: 87620},
+																pos: position{line: 2758, col: 14, offset: 87810},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2754, col: 14, offset: 87620},
+																	pos: position{line: 2758, col: 14, offset: 87810},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2754, col: 14, offset: 87620},
+																		pos:        position{line: 2758, col: 14, offset: 87810},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2882, col: 8, offset: 90849},
+							pos: position{line: 2886, col: 8, offset: 91039},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2869, col: 12, offset: 90622},
+									pos: position{line: 2873, col: 12, offset: 90812},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2869, col: 13, offset: 90623},
+										pos: position{line: 2873, col: 13, offset: 90813},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2869, col: 13, offset: 90623},
+												pos:        position{line: 2873, col: 13, offset: 90813},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2869, col: 20, offset: 90630},
+												pos:        position{line: 2873, col: 20, offset: 90820},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2869, col: 29, offset: 90639},
+												pos:        position{line: 2873, col: 29, offset: 90829},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2879, col: 8, offset: 90799},
+									pos: position{line: 2883, col: 8, offset: 90989},
 									expr: &anyMatcher{
-										line: 2879, col: 9, offset: 90800,
+										line: 2883, col: 9, offset: 90990,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2877, col: 11, offset: 90785},
+							pos: position{line: 2881, col: 11, offset: 90975},
 							expr: &anyMatcher{
-								line: 2877, col: 13, offset: 90787,
+								line: 2881, col: 13, offset: 90977,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2860, col: 10, offset: 90451},
+															pos: position{line: 2864, col: 10, offset: 90641},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2860, col: 10, offset: 90451},
+																pos:        position{line: 2864, col: 10, offset: 90641},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2882, col: 8, offset: 90849},
+														pos: position{line: 2886, col: 8, offset: 91039},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2869, col: 12, offset: 90622},
+																pos: position{line: 2873, col: 12, offset: 90812},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2869, col: 13, offset: 90623},
+																	pos: position{line: 2873, col: 13, offset: 90813},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 13, offset: 90623},
+																			pos:        position{line: 2873, col: 13, offset: 90813},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 20, offset: 90630},
+																			pos:        position{line: 2873, col: 20, offset: 90820},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 29, offset: 90639},
+																			pos:        position{line: 2873, col: 29, offset: 90829},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2879, col: 8, offset: 90799},
+																pos: position{line: 2883, col: 8, offset: 90989},
 																expr: &anyMatcher{
-																	line: 2879, col: 9, offset: 90800,
+																	line: 2883, col: 9, offset: 90990,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2860, col: 10, offset: 90451},
+															pos: position{line: 2864, col: 10, offset: 90641},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2860, col: 10, offset: 90451},
+																pos:        position{line: 2864, col: 10, offset: 90641},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2882, col: 8, offset: 90849},
+														pos: position{line: 2886, col: 8, offset: 91039},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2869, col: 12, offset: 90622},
+																pos: position{line: 2873, col: 12, offset: 90812},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2869, col: 13, offset: 90623},
+																	pos: position{line: 2873, col: 13, offset: 90813},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 13, offset: 90623},
+																			pos:        position{line: 2873, col: 13, offset: 90813},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 20, offset: 90630},
+																			pos:        position{line: 2873, col: 20, offset: 90820},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 29, offset: 90639},
+																			pos:        position{line: 2873, col: 29, offset: 90829},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2879, col: 8, offset: 90799},
+																pos: position{line: 2883, col: 8, offset: 90989},
 																expr: &anyMatcher{
-																	line: 2879, col: 9, offset: 90800,
+																	line: 2883, col: 9, offset: 90990,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 677, col: 14, offset: 21489},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2877, col: 11, offset: 90785},
+														pos: position{line: 2881, col: 11, offset: 90975},
 														expr: &anyMatcher{
-															line: 2877, col: 13, offset: 90787,
+															line: 2881, col: 13, offset: 90977,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 677, col: 21, offset: 21496},
 														expr: &actionExpr{
-															pos: position{line: 2860, col: 10, offset: 90451},
+															pos: position{line: 2864, col: 10, offset: 90641},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2860, col: 10, offset: 90451},
+																pos:        position{line: 2864, col: 10, offset: 90641},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2882, col: 8, offset: 90849},
+														pos: position{line: 2886, col: 8, offset: 91039},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2869, col: 12, offset: 90622},
+																pos: position{line: 2873, col: 12, offset: 90812},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2869, col: 13, offset: 90623},
+																	pos: position{line: 2873, col: 13, offset: 90813},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 13, offset: 90623},
+																			pos:        position{line: 2873, col: 13, offset: 90813},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 20, offset: 90630},
+																			pos:        position{line: 2873, col: 20, offset: 90820},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 29, offset: 90639},
+																			pos:        position{line: 2873, col: 29, offset: 90829},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2879, col: 8, offset: 90799},
+																pos: position{line: 2883, col: 8, offset: 90989},
 																expr: &anyMatcher{
-																	line: 2879, col: 9, offset: 90800,
+																	line: 2883, col: 9, offset: 90990,
 																},
 															},
 														},
@@ -4456,10 +4456,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 742, col: 8, offset: 23686},
 																		expr: &actionExpr{
-																			pos: position{line: 2860, col: 10, offset: 90451},
+																			pos: position{line: 2864, col: 10, offset: 90641},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2860, col: 10, offset: 90451},
+																				pos:        position{line: 2864, col: 10, offset: 90641},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2882, col: 8, offset: 90849},
+																		pos: position{line: 2886, col: 8, offset: 91039},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90622},
+																				pos: position{line: 2873, col: 12, offset: 90812},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2869, col: 13, offset: 90623},
+																					pos: position{line: 2873, col: 13, offset: 90813},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							pos:        position{line: 2873, col: 13, offset: 90813},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							pos:        position{line: 2873, col: 20, offset: 90820},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							pos:        position{line: 2873, col: 29, offset: 90829},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2879, col: 8, offset: 90799},
+																				pos: position{line: 2883, col: 8, offset: 90989},
 																				expr: &anyMatcher{
-																					line: 2879, col: 9, offset: 90800,
+																					line: 2883, col: 9, offset: 90990,
 																				},
 																			},
 																		},
@@ -4572,10 +4572,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 742, col: 8, offset: 23686},
 																												expr: &actionExpr{
-																													pos: position{line: 2860, col: 10, offset: 90451},
+																													pos: position{line: 2864, col: 10, offset: 90641},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2860, col: 10, offset: 90451},
+																														pos:        position{line: 2864, col: 10, offset: 90641},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2882, col: 8, offset: 90849},
+																												pos: position{line: 2886, col: 8, offset: 91039},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2869, col: 12, offset: 90622},
+																														pos: position{line: 2873, col: 12, offset: 90812},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2869, col: 13, offset: 90623},
+																															pos: position{line: 2873, col: 13, offset: 90813},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 13, offset: 90623},
+																																	pos:        position{line: 2873, col: 13, offset: 90813},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 20, offset: 90630},
+																																	pos:        position{line: 2873, col: 20, offset: 90820},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 29, offset: 90639},
+																																	pos:        position{line: 2873, col: 29, offset: 90829},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2879, col: 8, offset: 90799},
+																														pos: position{line: 2883, col: 8, offset: 90989},
 																														expr: &anyMatcher{
-																															line: 2879, col: 9, offset: 90800,
+																															line: 2883, col: 9, offset: 90990,
 																														},
 																													},
 																												},
@@ -4632,9 +4632,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2879, col: 8, offset: 90799},
+																						pos: position{line: 2883, col: 8, offset: 90989},
 																						expr: &anyMatcher{
-																							line: 2879, col: 9, offset: 90800,
+																							line: 2883, col: 9, offset: 90990,
 																						},
 																					},
 																				},
@@ -4650,21 +4650,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2877, col: 11, offset: 90785},
+																							pos: position{line: 2881, col: 11, offset: 90975},
 																							expr: &anyMatcher{
-																								line: 2877, col: 13, offset: 90787,
+																								line: 2881, col: 13, offset: 90977,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2806, col: 13, offset: 88977},
+																								pos: position{line: 2810, col: 13, offset: 89167},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2806, col: 13, offset: 88977},
+																									pos: position{line: 2810, col: 13, offset: 89167},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2806, col: 13, offset: 88977},
+																										pos:        position{line: 2810, col: 13, offset: 89167},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -4771,10 +4771,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2860, col: 10, offset: 90451},
+																									pos: position{line: 2864, col: 10, offset: 90641},
 																									run: (*parser).callonDocumentFragment159,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2860, col: 10, offset: 90451},
+																										pos:        position{line: 2864, col: 10, offset: 90641},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -4783,28 +4783,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2882, col: 8, offset: 90849},
+																								pos: position{line: 2886, col: 8, offset: 91039},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2869, col: 12, offset: 90622},
+																										pos: position{line: 2873, col: 12, offset: 90812},
 																										run: (*parser).callonDocumentFragment162,
 																										expr: &choiceExpr{
-																											pos: position{line: 2869, col: 13, offset: 90623},
+																											pos: position{line: 2873, col: 13, offset: 90813},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 13, offset: 90623},
+																													pos:        position{line: 2873, col: 13, offset: 90813},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 20, offset: 90630},
+																													pos:        position{line: 2873, col: 20, offset: 90820},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 29, offset: 90639},
+																													pos:        position{line: 2873, col: 29, offset: 90829},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -4813,9 +4813,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2879, col: 8, offset: 90799},
+																										pos: position{line: 2883, col: 8, offset: 90989},
 																										expr: &anyMatcher{
-																											line: 2879, col: 9, offset: 90800,
+																											line: 2883, col: 9, offset: 90990,
 																										},
 																									},
 																								},
@@ -4831,9 +4831,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2879, col: 8, offset: 90799},
+																		pos: position{line: 2883, col: 8, offset: 90989},
 																		expr: &anyMatcher{
-																			line: 2879, col: 9, offset: 90800,
+																			line: 2883, col: 9, offset: 90990,
 																		},
 																	},
 																},
@@ -4889,10 +4889,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 749, col: 8, offset: 23934},
 																		expr: &actionExpr{
-																			pos: position{line: 2860, col: 10, offset: 90451},
+																			pos: position{line: 2864, col: 10, offset: 90641},
 																			run: (*parser).callonDocumentFragment184,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2860, col: 10, offset: 90451},
+																				pos:        position{line: 2864, col: 10, offset: 90641},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4901,28 +4901,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2882, col: 8, offset: 90849},
+																		pos: position{line: 2886, col: 8, offset: 91039},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90622},
+																				pos: position{line: 2873, col: 12, offset: 90812},
 																				run: (*parser).callonDocumentFragment187,
 																				expr: &choiceExpr{
-																					pos: position{line: 2869, col: 13, offset: 90623},
+																					pos: position{line: 2873, col: 13, offset: 90813},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							pos:        position{line: 2873, col: 13, offset: 90813},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							pos:        position{line: 2873, col: 20, offset: 90820},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							pos:        position{line: 2873, col: 29, offset: 90829},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4931,9 +4931,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2879, col: 8, offset: 90799},
+																				pos: position{line: 2883, col: 8, offset: 90989},
 																				expr: &anyMatcher{
-																					line: 2879, col: 9, offset: 90800,
+																					line: 2883, col: 9, offset: 90990,
 																				},
 																			},
 																		},
@@ -5005,10 +5005,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 749, col: 8, offset: 23934},
 																												expr: &actionExpr{
-																													pos: position{line: 2860, col: 10, offset: 90451},
+																													pos: position{line: 2864, col: 10, offset: 90641},
 																													run: (*parser).callonDocumentFragment212,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2860, col: 10, offset: 90451},
+																														pos:        position{line: 2864, col: 10, offset: 90641},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5017,28 +5017,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2882, col: 8, offset: 90849},
+																												pos: position{line: 2886, col: 8, offset: 91039},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2869, col: 12, offset: 90622},
+																														pos: position{line: 2873, col: 12, offset: 90812},
 																														run: (*parser).callonDocumentFragment215,
 																														expr: &choiceExpr{
-																															pos: position{line: 2869, col: 13, offset: 90623},
+																															pos: position{line: 2873, col: 13, offset: 90813},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 13, offset: 90623},
+																																	pos:        position{line: 2873, col: 13, offset: 90813},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 20, offset: 90630},
+																																	pos:        position{line: 2873, col: 20, offset: 90820},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 29, offset: 90639},
+																																	pos:        position{line: 2873, col: 29, offset: 90829},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5047,9 +5047,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2879, col: 8, offset: 90799},
+																														pos: position{line: 2883, col: 8, offset: 90989},
 																														expr: &anyMatcher{
-																															line: 2879, col: 9, offset: 90800,
+																															line: 2883, col: 9, offset: 90990,
 																														},
 																													},
 																												},
@@ -5065,9 +5065,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2879, col: 8, offset: 90799},
+																						pos: position{line: 2883, col: 8, offset: 90989},
 																						expr: &anyMatcher{
-																							line: 2879, col: 9, offset: 90800,
+																							line: 2883, col: 9, offset: 90990,
 																						},
 																					},
 																				},
@@ -5083,21 +5083,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2877, col: 11, offset: 90785},
+																							pos: position{line: 2881, col: 11, offset: 90975},
 																							expr: &anyMatcher{
-																								line: 2877, col: 13, offset: 90787,
+																								line: 2881, col: 13, offset: 90977,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2806, col: 13, offset: 88977},
+																								pos: position{line: 2810, col: 13, offset: 89167},
 																								run: (*parser).callonDocumentFragment231,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2806, col: 13, offset: 88977},
+																									pos: position{line: 2810, col: 13, offset: 89167},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2806, col: 13, offset: 88977},
+																										pos:        position{line: 2810, col: 13, offset: 89167},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5107,28 +5107,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonDocumentFragment235,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5137,9 +5137,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -5204,10 +5204,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 749, col: 8, offset: 23934},
 																								expr: &actionExpr{
-																									pos: position{line: 2860, col: 10, offset: 90451},
+																									pos: position{line: 2864, col: 10, offset: 90641},
 																									run: (*parser).callonDocumentFragment256,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2860, col: 10, offset: 90451},
+																										pos:        position{line: 2864, col: 10, offset: 90641},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5216,28 +5216,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2882, col: 8, offset: 90849},
+																								pos: position{line: 2886, col: 8, offset: 91039},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2869, col: 12, offset: 90622},
+																										pos: position{line: 2873, col: 12, offset: 90812},
 																										run: (*parser).callonDocumentFragment259,
 																										expr: &choiceExpr{
-																											pos: position{line: 2869, col: 13, offset: 90623},
+																											pos: position{line: 2873, col: 13, offset: 90813},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 13, offset: 90623},
+																													pos:        position{line: 2873, col: 13, offset: 90813},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 20, offset: 90630},
+																													pos:        position{line: 2873, col: 20, offset: 90820},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 29, offset: 90639},
+																													pos:        position{line: 2873, col: 29, offset: 90829},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5246,9 +5246,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2879, col: 8, offset: 90799},
+																										pos: position{line: 2883, col: 8, offset: 90989},
 																										expr: &anyMatcher{
-																											line: 2879, col: 9, offset: 90800,
+																											line: 2883, col: 9, offset: 90990,
 																										},
 																									},
 																								},
@@ -5264,9 +5264,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2879, col: 8, offset: 90799},
+																		pos: position{line: 2883, col: 8, offset: 90989},
 																		expr: &anyMatcher{
-																			line: 2879, col: 9, offset: 90800,
+																			line: 2883, col: 9, offset: 90990,
 																		},
 																	},
 																},
@@ -5318,10 +5318,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 760, col: 52, offset: 24346},
 																		expr: &actionExpr{
-																			pos: position{line: 2860, col: 10, offset: 90451},
+																			pos: position{line: 2864, col: 10, offset: 90641},
 																			run: (*parser).callonDocumentFragment280,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2860, col: 10, offset: 90451},
+																				pos:        position{line: 2864, col: 10, offset: 90641},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5330,28 +5330,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2882, col: 8, offset: 90849},
+																		pos: position{line: 2886, col: 8, offset: 91039},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90622},
+																				pos: position{line: 2873, col: 12, offset: 90812},
 																				run: (*parser).callonDocumentFragment283,
 																				expr: &choiceExpr{
-																					pos: position{line: 2869, col: 13, offset: 90623},
+																					pos: position{line: 2873, col: 13, offset: 90813},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							pos:        position{line: 2873, col: 13, offset: 90813},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							pos:        position{line: 2873, col: 20, offset: 90820},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							pos:        position{line: 2873, col: 29, offset: 90829},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5360,9 +5360,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2879, col: 8, offset: 90799},
+																				pos: position{line: 2883, col: 8, offset: 90989},
 																				expr: &anyMatcher{
-																					line: 2879, col: 9, offset: 90800,
+																					line: 2883, col: 9, offset: 90990,
 																				},
 																			},
 																		},
@@ -5396,10 +5396,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 971, col: 40, offset: 30361},
 																						expr: &actionExpr{
-																							pos: position{line: 2860, col: 10, offset: 90451},
+																							pos: position{line: 2864, col: 10, offset: 90641},
 																							run: (*parser).callonDocumentFragment298,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2860, col: 10, offset: 90451},
+																								pos:        position{line: 2864, col: 10, offset: 90641},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5408,28 +5408,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2882, col: 8, offset: 90849},
+																						pos: position{line: 2886, col: 8, offset: 91039},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2869, col: 12, offset: 90622},
+																								pos: position{line: 2873, col: 12, offset: 90812},
 																								run: (*parser).callonDocumentFragment301,
 																								expr: &choiceExpr{
-																									pos: position{line: 2869, col: 13, offset: 90623},
+																									pos: position{line: 2873, col: 13, offset: 90813},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90623},
+																											pos:        position{line: 2873, col: 13, offset: 90813},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 20, offset: 90630},
+																											pos:        position{line: 2873, col: 20, offset: 90820},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 29, offset: 90639},
+																											pos:        position{line: 2873, col: 29, offset: 90829},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5438,9 +5438,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
+																								pos: position{line: 2883, col: 8, offset: 90989},
 																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																									line: 2883, col: 9, offset: 90990,
 																								},
 																							},
 																						},
@@ -5458,21 +5458,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2877, col: 11, offset: 90785},
+																							pos: position{line: 2881, col: 11, offset: 90975},
 																							expr: &anyMatcher{
-																								line: 2877, col: 13, offset: 90787,
+																								line: 2881, col: 13, offset: 90977,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2806, col: 13, offset: 88977},
+																								pos: position{line: 2810, col: 13, offset: 89167},
 																								run: (*parser).callonDocumentFragment314,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2806, col: 13, offset: 88977},
+																									pos: position{line: 2810, col: 13, offset: 89167},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2806, col: 13, offset: 88977},
+																										pos:        position{line: 2810, col: 13, offset: 89167},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5482,28 +5482,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonDocumentFragment318,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5512,9 +5512,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -5542,10 +5542,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 971, col: 40, offset: 30361},
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 10, offset: 90451},
+																		pos: position{line: 2864, col: 10, offset: 90641},
 																		run: (*parser).callonDocumentFragment329,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			pos:        position{line: 2864, col: 10, offset: 90641},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5554,28 +5554,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
+																			pos: position{line: 2873, col: 12, offset: 90812},
 																			run: (*parser).callonDocumentFragment332,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5584,9 +5584,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -5643,10 +5643,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 756, col: 8, offset: 24180},
 																		expr: &actionExpr{
-																			pos: position{line: 2860, col: 10, offset: 90451},
+																			pos: position{line: 2864, col: 10, offset: 90641},
 																			run: (*parser).callonDocumentFragment351,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2860, col: 10, offset: 90451},
+																				pos:        position{line: 2864, col: 10, offset: 90641},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5655,28 +5655,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2882, col: 8, offset: 90849},
+																		pos: position{line: 2886, col: 8, offset: 91039},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90622},
+																				pos: position{line: 2873, col: 12, offset: 90812},
 																				run: (*parser).callonDocumentFragment354,
 																				expr: &choiceExpr{
-																					pos: position{line: 2869, col: 13, offset: 90623},
+																					pos: position{line: 2873, col: 13, offset: 90813},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							pos:        position{line: 2873, col: 13, offset: 90813},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							pos:        position{line: 2873, col: 20, offset: 90820},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							pos:        position{line: 2873, col: 29, offset: 90829},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5685,9 +5685,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2879, col: 8, offset: 90799},
+																				pos: position{line: 2883, col: 8, offset: 90989},
 																				expr: &anyMatcher{
-																					line: 2879, col: 9, offset: 90800,
+																					line: 2883, col: 9, offset: 90990,
 																				},
 																			},
 																		},
@@ -5759,10 +5759,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 756, col: 8, offset: 24180},
 																												expr: &actionExpr{
-																													pos: position{line: 2860, col: 10, offset: 90451},
+																													pos: position{line: 2864, col: 10, offset: 90641},
 																													run: (*parser).callonDocumentFragment379,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2860, col: 10, offset: 90451},
+																														pos:        position{line: 2864, col: 10, offset: 90641},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5771,28 +5771,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2882, col: 8, offset: 90849},
+																												pos: position{line: 2886, col: 8, offset: 91039},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2869, col: 12, offset: 90622},
+																														pos: position{line: 2873, col: 12, offset: 90812},
 																														run: (*parser).callonDocumentFragment382,
 																														expr: &choiceExpr{
-																															pos: position{line: 2869, col: 13, offset: 90623},
+																															pos: position{line: 2873, col: 13, offset: 90813},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 13, offset: 90623},
+																																	pos:        position{line: 2873, col: 13, offset: 90813},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 20, offset: 90630},
+																																	pos:        position{line: 2873, col: 20, offset: 90820},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 29, offset: 90639},
+																																	pos:        position{line: 2873, col: 29, offset: 90829},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5801,9 +5801,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2879, col: 8, offset: 90799},
+																														pos: position{line: 2883, col: 8, offset: 90989},
 																														expr: &anyMatcher{
-																															line: 2879, col: 9, offset: 90800,
+																															line: 2883, col: 9, offset: 90990,
 																														},
 																													},
 																												},
@@ -5819,9 +5819,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2879, col: 8, offset: 90799},
+																						pos: position{line: 2883, col: 8, offset: 90989},
 																						expr: &anyMatcher{
-																							line: 2879, col: 9, offset: 90800,
+																							line: 2883, col: 9, offset: 90990,
 																						},
 																					},
 																				},
@@ -5837,21 +5837,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2877, col: 11, offset: 90785},
+																							pos: position{line: 2881, col: 11, offset: 90975},
 																							expr: &anyMatcher{
-																								line: 2877, col: 13, offset: 90787,
+																								line: 2881, col: 13, offset: 90977,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2806, col: 13, offset: 88977},
+																								pos: position{line: 2810, col: 13, offset: 89167},
 																								run: (*parser).callonDocumentFragment398,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2806, col: 13, offset: 88977},
+																									pos: position{line: 2810, col: 13, offset: 89167},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2806, col: 13, offset: 88977},
+																										pos:        position{line: 2810, col: 13, offset: 89167},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5861,28 +5861,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonDocumentFragment402,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5891,9 +5891,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -5958,10 +5958,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 756, col: 8, offset: 24180},
 																								expr: &actionExpr{
-																									pos: position{line: 2860, col: 10, offset: 90451},
+																									pos: position{line: 2864, col: 10, offset: 90641},
 																									run: (*parser).callonDocumentFragment423,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2860, col: 10, offset: 90451},
+																										pos:        position{line: 2864, col: 10, offset: 90641},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5970,28 +5970,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2882, col: 8, offset: 90849},
+																								pos: position{line: 2886, col: 8, offset: 91039},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2869, col: 12, offset: 90622},
+																										pos: position{line: 2873, col: 12, offset: 90812},
 																										run: (*parser).callonDocumentFragment426,
 																										expr: &choiceExpr{
-																											pos: position{line: 2869, col: 13, offset: 90623},
+																											pos: position{line: 2873, col: 13, offset: 90813},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 13, offset: 90623},
+																													pos:        position{line: 2873, col: 13, offset: 90813},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 20, offset: 90630},
+																													pos:        position{line: 2873, col: 20, offset: 90820},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 29, offset: 90639},
+																													pos:        position{line: 2873, col: 29, offset: 90829},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6000,9 +6000,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2879, col: 8, offset: 90799},
+																										pos: position{line: 2883, col: 8, offset: 90989},
 																										expr: &anyMatcher{
-																											line: 2879, col: 9, offset: 90800,
+																											line: 2883, col: 9, offset: 90990,
 																										},
 																									},
 																								},
@@ -6018,9 +6018,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2879, col: 8, offset: 90799},
+																		pos: position{line: 2883, col: 8, offset: 90989},
 																		expr: &anyMatcher{
-																			line: 2879, col: 9, offset: 90800,
+																			line: 2883, col: 9, offset: 90990,
 																		},
 																	},
 																},
@@ -6076,10 +6076,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 771, col: 8, offset: 24718},
 																		expr: &actionExpr{
-																			pos: position{line: 2860, col: 10, offset: 90451},
+																			pos: position{line: 2864, col: 10, offset: 90641},
 																			run: (*parser).callonDocumentFragment448,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2860, col: 10, offset: 90451},
+																				pos:        position{line: 2864, col: 10, offset: 90641},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6088,28 +6088,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2882, col: 8, offset: 90849},
+																		pos: position{line: 2886, col: 8, offset: 91039},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90622},
+																				pos: position{line: 2873, col: 12, offset: 90812},
 																				run: (*parser).callonDocumentFragment451,
 																				expr: &choiceExpr{
-																					pos: position{line: 2869, col: 13, offset: 90623},
+																					pos: position{line: 2873, col: 13, offset: 90813},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							pos:        position{line: 2873, col: 13, offset: 90813},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							pos:        position{line: 2873, col: 20, offset: 90820},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							pos:        position{line: 2873, col: 29, offset: 90829},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6118,9 +6118,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2879, col: 8, offset: 90799},
+																				pos: position{line: 2883, col: 8, offset: 90989},
 																				expr: &anyMatcher{
-																					line: 2879, col: 9, offset: 90800,
+																					line: 2883, col: 9, offset: 90990,
 																				},
 																			},
 																		},
@@ -6192,10 +6192,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 771, col: 8, offset: 24718},
 																												expr: &actionExpr{
-																													pos: position{line: 2860, col: 10, offset: 90451},
+																													pos: position{line: 2864, col: 10, offset: 90641},
 																													run: (*parser).callonDocumentFragment476,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2860, col: 10, offset: 90451},
+																														pos:        position{line: 2864, col: 10, offset: 90641},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6204,28 +6204,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2882, col: 8, offset: 90849},
+																												pos: position{line: 2886, col: 8, offset: 91039},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2869, col: 12, offset: 90622},
+																														pos: position{line: 2873, col: 12, offset: 90812},
 																														run: (*parser).callonDocumentFragment479,
 																														expr: &choiceExpr{
-																															pos: position{line: 2869, col: 13, offset: 90623},
+																															pos: position{line: 2873, col: 13, offset: 90813},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 13, offset: 90623},
+																																	pos:        position{line: 2873, col: 13, offset: 90813},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 20, offset: 90630},
+																																	pos:        position{line: 2873, col: 20, offset: 90820},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 29, offset: 90639},
+																																	pos:        position{line: 2873, col: 29, offset: 90829},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6234,9 +6234,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2879, col: 8, offset: 90799},
+																														pos: position{line: 2883, col: 8, offset: 90989},
 																														expr: &anyMatcher{
-																															line: 2879, col: 9, offset: 90800,
+																															line: 2883, col: 9, offset: 90990,
 																														},
 																													},
 																												},
@@ -6252,9 +6252,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2879, col: 8, offset: 90799},
+																						pos: position{line: 2883, col: 8, offset: 90989},
 																						expr: &anyMatcher{
-																							line: 2879, col: 9, offset: 90800,
+																							line: 2883, col: 9, offset: 90990,
 																						},
 																					},
 																				},
@@ -6270,21 +6270,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2877, col: 11, offset: 90785},
+																							pos: position{line: 2881, col: 11, offset: 90975},
 																							expr: &anyMatcher{
-																								line: 2877, col: 13, offset: 90787,
+																								line: 2881, col: 13, offset: 90977,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2806, col: 13, offset: 88977},
+																								pos: position{line: 2810, col: 13, offset: 89167},
 																								run: (*parser).callonDocumentFragment495,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2806, col: 13, offset: 88977},
+																									pos: position{line: 2810, col: 13, offset: 89167},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2806, col: 13, offset: 88977},
+																										pos:        position{line: 2810, col: 13, offset: 89167},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6294,28 +6294,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonDocumentFragment499,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6324,9 +6324,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -6391,10 +6391,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 771, col: 8, offset: 24718},
 																								expr: &actionExpr{
-																									pos: position{line: 2860, col: 10, offset: 90451},
+																									pos: position{line: 2864, col: 10, offset: 90641},
 																									run: (*parser).callonDocumentFragment520,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2860, col: 10, offset: 90451},
+																										pos:        position{line: 2864, col: 10, offset: 90641},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6403,28 +6403,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2882, col: 8, offset: 90849},
+																								pos: position{line: 2886, col: 8, offset: 91039},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2869, col: 12, offset: 90622},
+																										pos: position{line: 2873, col: 12, offset: 90812},
 																										run: (*parser).callonDocumentFragment523,
 																										expr: &choiceExpr{
-																											pos: position{line: 2869, col: 13, offset: 90623},
+																											pos: position{line: 2873, col: 13, offset: 90813},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 13, offset: 90623},
+																													pos:        position{line: 2873, col: 13, offset: 90813},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 20, offset: 90630},
+																													pos:        position{line: 2873, col: 20, offset: 90820},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 29, offset: 90639},
+																													pos:        position{line: 2873, col: 29, offset: 90829},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6433,9 +6433,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2879, col: 8, offset: 90799},
+																										pos: position{line: 2883, col: 8, offset: 90989},
 																										expr: &anyMatcher{
-																											line: 2879, col: 9, offset: 90800,
+																											line: 2883, col: 9, offset: 90990,
 																										},
 																									},
 																								},
@@ -6451,9 +6451,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2879, col: 8, offset: 90799},
+																		pos: position{line: 2883, col: 8, offset: 90989},
 																		expr: &anyMatcher{
-																			line: 2879, col: 9, offset: 90800,
+																			line: 2883, col: 9, offset: 90990,
 																		},
 																	},
 																},
@@ -6509,10 +6509,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 8, offset: 25194},
 																		expr: &actionExpr{
-																			pos: position{line: 2860, col: 10, offset: 90451},
+																			pos: position{line: 2864, col: 10, offset: 90641},
 																			run: (*parser).callonDocumentFragment545,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2860, col: 10, offset: 90451},
+																				pos:        position{line: 2864, col: 10, offset: 90641},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6521,28 +6521,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2882, col: 8, offset: 90849},
+																		pos: position{line: 2886, col: 8, offset: 91039},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90622},
+																				pos: position{line: 2873, col: 12, offset: 90812},
 																				run: (*parser).callonDocumentFragment548,
 																				expr: &choiceExpr{
-																					pos: position{line: 2869, col: 13, offset: 90623},
+																					pos: position{line: 2873, col: 13, offset: 90813},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							pos:        position{line: 2873, col: 13, offset: 90813},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							pos:        position{line: 2873, col: 20, offset: 90820},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							pos:        position{line: 2873, col: 29, offset: 90829},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6551,9 +6551,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2879, col: 8, offset: 90799},
+																				pos: position{line: 2883, col: 8, offset: 90989},
 																				expr: &anyMatcher{
-																					line: 2879, col: 9, offset: 90800,
+																					line: 2883, col: 9, offset: 90990,
 																				},
 																			},
 																		},
@@ -6625,10 +6625,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 785, col: 8, offset: 25194},
 																												expr: &actionExpr{
-																													pos: position{line: 2860, col: 10, offset: 90451},
+																													pos: position{line: 2864, col: 10, offset: 90641},
 																													run: (*parser).callonDocumentFragment573,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2860, col: 10, offset: 90451},
+																														pos:        position{line: 2864, col: 10, offset: 90641},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6637,28 +6637,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2882, col: 8, offset: 90849},
+																												pos: position{line: 2886, col: 8, offset: 91039},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2869, col: 12, offset: 90622},
+																														pos: position{line: 2873, col: 12, offset: 90812},
 																														run: (*parser).callonDocumentFragment576,
 																														expr: &choiceExpr{
-																															pos: position{line: 2869, col: 13, offset: 90623},
+																															pos: position{line: 2873, col: 13, offset: 90813},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 13, offset: 90623},
+																																	pos:        position{line: 2873, col: 13, offset: 90813},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 20, offset: 90630},
+																																	pos:        position{line: 2873, col: 20, offset: 90820},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 29, offset: 90639},
+																																	pos:        position{line: 2873, col: 29, offset: 90829},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6667,9 +6667,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2879, col: 8, offset: 90799},
+																														pos: position{line: 2883, col: 8, offset: 90989},
 																														expr: &anyMatcher{
-																															line: 2879, col: 9, offset: 90800,
+																															line: 2883, col: 9, offset: 90990,
 																														},
 																													},
 																												},
@@ -6685,9 +6685,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2879, col: 8, offset: 90799},
+																						pos: position{line: 2883, col: 8, offset: 90989},
 																						expr: &anyMatcher{
-																							line: 2879, col: 9, offset: 90800,
+																							line: 2883, col: 9, offset: 90990,
 																						},
 																					},
 																				},
@@ -6703,21 +6703,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2877, col: 11, offset: 90785},
+																							pos: position{line: 2881, col: 11, offset: 90975},
 																							expr: &anyMatcher{
-																								line: 2877, col: 13, offset: 90787,
+																								line: 2881, col: 13, offset: 90977,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2806, col: 13, offset: 88977},
+																								pos: position{line: 2810, col: 13, offset: 89167},
 																								run: (*parser).callonDocumentFragment592,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2806, col: 13, offset: 88977},
+																									pos: position{line: 2810, col: 13, offset: 89167},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2806, col: 13, offset: 88977},
+																										pos:        position{line: 2810, col: 13, offset: 89167},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6727,28 +6727,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonDocumentFragment596,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6757,9 +6757,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -6824,10 +6824,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 785, col: 8, offset: 25194},
 																								expr: &actionExpr{
-																									pos: position{line: 2860, col: 10, offset: 90451},
+																									pos: position{line: 2864, col: 10, offset: 90641},
 																									run: (*parser).callonDocumentFragment617,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2860, col: 10, offset: 90451},
+																										pos:        position{line: 2864, col: 10, offset: 90641},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6836,28 +6836,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2882, col: 8, offset: 90849},
+																								pos: position{line: 2886, col: 8, offset: 91039},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2869, col: 12, offset: 90622},
+																										pos: position{line: 2873, col: 12, offset: 90812},
 																										run: (*parser).callonDocumentFragment620,
 																										expr: &choiceExpr{
-																											pos: position{line: 2869, col: 13, offset: 90623},
+																											pos: position{line: 2873, col: 13, offset: 90813},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 13, offset: 90623},
+																													pos:        position{line: 2873, col: 13, offset: 90813},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 20, offset: 90630},
+																													pos:        position{line: 2873, col: 20, offset: 90820},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 29, offset: 90639},
+																													pos:        position{line: 2873, col: 29, offset: 90829},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6866,9 +6866,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2879, col: 8, offset: 90799},
+																										pos: position{line: 2883, col: 8, offset: 90989},
 																										expr: &anyMatcher{
-																											line: 2879, col: 9, offset: 90800,
+																											line: 2883, col: 9, offset: 90990,
 																										},
 																									},
 																								},
@@ -6884,9 +6884,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2879, col: 8, offset: 90799},
+																		pos: position{line: 2883, col: 8, offset: 90989},
 																		expr: &anyMatcher{
-																			line: 2879, col: 9, offset: 90800,
+																			line: 2883, col: 9, offset: 90990,
 																		},
 																	},
 																},
@@ -6905,74 +6905,99 @@ var g = &grammar{
 													&labeledExpr{
 														pos:   position{line: 983, col: 5, offset: 30612},
 														label: "firstLine",
-														expr: &actionExpr{
-															pos: position{line: 990, col: 5, offset: 30871},
-															run: (*parser).callonDocumentFragment633,
-															expr: &seqExpr{
-																pos: position{line: 990, col: 5, offset: 30871},
-																exprs: []interface{}{
-																	&notExpr{
-																		pos: position{line: 990, col: 5, offset: 30871},
-																		expr: &actionExpr{
-																			pos: position{line: 677, col: 14, offset: 21489},
-																			run: (*parser).callonDocumentFragment636,
-																			expr: &seqExpr{
-																				pos: position{line: 677, col: 14, offset: 21489},
-																				exprs: []interface{}{
-																					&andExpr{
-																						pos: position{line: 2877, col: 11, offset: 90785},
-																						expr: &anyMatcher{
-																							line: 2877, col: 13, offset: 90787,
-																						},
-																					},
-																					&zeroOrMoreExpr{
-																						pos: position{line: 677, col: 21, offset: 21496},
-																						expr: &actionExpr{
-																							pos: position{line: 2860, col: 10, offset: 90451},
-																							run: (*parser).callonDocumentFragment641,
-																							expr: &charClassMatcher{
-																								pos:        position{line: 2860, col: 10, offset: 90451},
-																								val:        "[\\t ]",
-																								chars:      []rune{'\t', ' '},
+														expr: &choiceExpr{
+															pos: position{line: 983, col: 16, offset: 30623},
+															alternatives: []interface{}{
+																&actionExpr{
+																	pos: position{line: 996, col: 35, offset: 31099},
+																	run: (*parser).callonDocumentFragment634,
+																	expr: &seqExpr{
+																		pos: position{line: 996, col: 35, offset: 31099},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 996, col: 35, offset: 31099},
+																				val:        "> ",
+																				ignoreCase: false,
+																				want:       "\"> \"",
+																			},
+																			&labeledExpr{
+																				pos:   position{line: 996, col: 40, offset: 31104},
+																				label: "comment",
+																				expr: &actionExpr{
+																					pos: position{line: 2474, col: 22, offset: 79626},
+																					run: (*parser).callonDocumentFragment638,
+																					expr: &seqExpr{
+																						pos: position{line: 2474, col: 22, offset: 79626},
+																						exprs: []interface{}{
+																							&litMatcher{
+																								pos:        position{line: 2479, col: 31, offset: 79847},
+																								val:        "//",
 																								ignoreCase: false,
-																								inverted:   false,
+																								want:       "\"//\"",
 																							},
-																						},
-																					},
-																					&choiceExpr{
-																						pos: position{line: 2882, col: 8, offset: 90849},
-																						alternatives: []interface{}{
-																							&actionExpr{
-																								pos: position{line: 2869, col: 12, offset: 90622},
-																								run: (*parser).callonDocumentFragment644,
-																								expr: &choiceExpr{
-																									pos: position{line: 2869, col: 13, offset: 90623},
-																									alternatives: []interface{}{
-																										&litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90623},
-																											val:        "\n",
-																											ignoreCase: false,
-																											want:       "\"\\n\"",
-																										},
-																										&litMatcher{
-																											pos:        position{line: 2869, col: 20, offset: 90630},
-																											val:        "\r\n",
-																											ignoreCase: false,
-																											want:       "\"\\r\\n\"",
-																										},
-																										&litMatcher{
-																											pos:        position{line: 2869, col: 29, offset: 90639},
-																											val:        "\r",
+																							&notExpr{
+																								pos: position{line: 2479, col: 36, offset: 79852},
+																								expr: &litMatcher{
+																									pos:        position{line: 2479, col: 37, offset: 79853},
+																									val:        "//",
+																									ignoreCase: false,
+																									want:       "\"//\"",
+																								},
+																							},
+																							&labeledExpr{
+																								pos:   position{line: 2474, col: 49, offset: 79653},
+																								label: "content",
+																								expr: &actionExpr{
+																									pos: position{line: 2810, col: 13, offset: 89167},
+																									run: (*parser).callonDocumentFragment644,
+																									expr: &zeroOrMoreExpr{
+																										pos: position{line: 2810, col: 13, offset: 89167},
+																										expr: &charClassMatcher{
+																											pos:        position{line: 2810, col: 13, offset: 89167},
+																											val:        "[^\\r\\n]",
+																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
-																											want:       "\"\\r\"",
+																											inverted:   true,
 																										},
 																									},
 																								},
 																							},
-																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
-																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																							&choiceExpr{
+																								pos: position{line: 2886, col: 8, offset: 91039},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2873, col: 12, offset: 90812},
+																										run: (*parser).callonDocumentFragment648,
+																										expr: &choiceExpr{
+																											pos: position{line: 2873, col: 13, offset: 90813},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2873, col: 13, offset: 90813},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2873, col: 20, offset: 90820},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2873, col: 29, offset: 90829},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
+																												},
+																											},
+																										},
+																									},
+																									&notExpr{
+																										pos: position{line: 2883, col: 8, offset: 90989},
+																										expr: &anyMatcher{
+																											line: 2883, col: 9, offset: 90990,
+																										},
+																									},
 																								},
 																							},
 																						},
@@ -6981,64 +7006,143 @@ var g = &grammar{
 																			},
 																		},
 																	},
-																	&litMatcher{
-																		pos:        position{line: 991, col: 5, offset: 30886},
-																		val:        "> ",
-																		ignoreCase: false,
-																		want:       "\"> \"",
-																	},
-																	&labeledExpr{
-																		pos:   position{line: 992, col: 5, offset: 30896},
-																		label: "content",
-																		expr: &actionExpr{
-																			pos: position{line: 2810, col: 14, offset: 89044},
-																			run: (*parser).callonDocumentFragment653,
-																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2810, col: 14, offset: 89044},
-																				expr: &charClassMatcher{
-																					pos:        position{line: 2810, col: 14, offset: 89044},
-																					val:        "[^\\r\\n]",
-																					chars:      []rune{'\r', '\n'},
-																					ignoreCase: false,
-																					inverted:   true,
+																},
+																&actionExpr{
+																	pos: position{line: 990, col: 5, offset: 30957},
+																	run: (*parser).callonDocumentFragment655,
+																	expr: &seqExpr{
+																		pos: position{line: 990, col: 5, offset: 30957},
+																		exprs: []interface{}{
+																			&notExpr{
+																				pos: position{line: 990, col: 5, offset: 30957},
+																				expr: &actionExpr{
+																					pos: position{line: 677, col: 14, offset: 21489},
+																					run: (*parser).callonDocumentFragment658,
+																					expr: &seqExpr{
+																						pos: position{line: 677, col: 14, offset: 21489},
+																						exprs: []interface{}{
+																							&andExpr{
+																								pos: position{line: 2881, col: 11, offset: 90975},
+																								expr: &anyMatcher{
+																									line: 2881, col: 13, offset: 90977,
+																								},
+																							},
+																							&zeroOrMoreExpr{
+																								pos: position{line: 677, col: 21, offset: 21496},
+																								expr: &actionExpr{
+																									pos: position{line: 2864, col: 10, offset: 90641},
+																									run: (*parser).callonDocumentFragment663,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2864, col: 10, offset: 90641},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																								},
+																							},
+																							&choiceExpr{
+																								pos: position{line: 2886, col: 8, offset: 91039},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2873, col: 12, offset: 90812},
+																										run: (*parser).callonDocumentFragment666,
+																										expr: &choiceExpr{
+																											pos: position{line: 2873, col: 13, offset: 90813},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2873, col: 13, offset: 90813},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2873, col: 20, offset: 90820},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2873, col: 29, offset: 90829},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
+																												},
+																											},
+																										},
+																									},
+																									&notExpr{
+																										pos: position{line: 2883, col: 8, offset: 90989},
+																										expr: &anyMatcher{
+																											line: 2883, col: 9, offset: 90990,
+																										},
+																									},
+																								},
+																							},
+																						},
+																					},
 																				},
 																			},
-																		},
-																	},
-																	&choiceExpr{
-																		pos: position{line: 2882, col: 8, offset: 90849},
-																		alternatives: []interface{}{
-																			&actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90622},
-																				run: (*parser).callonDocumentFragment657,
-																				expr: &choiceExpr{
-																					pos: position{line: 2869, col: 13, offset: 90623},
-																					alternatives: []interface{}{
-																						&litMatcher{
-																							pos:        position{line: 2869, col: 13, offset: 90623},
-																							val:        "\n",
-																							ignoreCase: false,
-																							want:       "\"\\n\"",
-																						},
-																						&litMatcher{
-																							pos:        position{line: 2869, col: 20, offset: 90630},
-																							val:        "\r\n",
-																							ignoreCase: false,
-																							want:       "\"\\r\\n\"",
-																						},
-																						&litMatcher{
-																							pos:        position{line: 2869, col: 29, offset: 90639},
-																							val:        "\r",
+																			&litMatcher{
+																				pos:        position{line: 991, col: 5, offset: 30972},
+																				val:        "> ",
+																				ignoreCase: false,
+																				want:       "\"> \"",
+																			},
+																			&labeledExpr{
+																				pos:   position{line: 992, col: 5, offset: 30982},
+																				label: "content",
+																				expr: &actionExpr{
+																					pos: position{line: 2814, col: 14, offset: 89234},
+																					run: (*parser).callonDocumentFragment675,
+																					expr: &oneOrMoreExpr{
+																						pos: position{line: 2814, col: 14, offset: 89234},
+																						expr: &charClassMatcher{
+																							pos:        position{line: 2814, col: 14, offset: 89234},
+																							val:        "[^\\r\\n]",
+																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
-																							want:       "\"\\r\"",
+																							inverted:   true,
 																						},
 																					},
 																				},
 																			},
-																			&notExpr{
-																				pos: position{line: 2879, col: 8, offset: 90799},
-																				expr: &anyMatcher{
-																					line: 2879, col: 9, offset: 90800,
+																			&choiceExpr{
+																				pos: position{line: 2886, col: 8, offset: 91039},
+																				alternatives: []interface{}{
+																					&actionExpr{
+																						pos: position{line: 2873, col: 12, offset: 90812},
+																						run: (*parser).callonDocumentFragment679,
+																						expr: &choiceExpr{
+																							pos: position{line: 2873, col: 13, offset: 90813},
+																							alternatives: []interface{}{
+																								&litMatcher{
+																									pos:        position{line: 2873, col: 13, offset: 90813},
+																									val:        "\n",
+																									ignoreCase: false,
+																									want:       "\"\\n\"",
+																								},
+																								&litMatcher{
+																									pos:        position{line: 2873, col: 20, offset: 90820},
+																									val:        "\r\n",
+																									ignoreCase: false,
+																									want:       "\"\\r\\n\"",
+																								},
+																								&litMatcher{
+																									pos:        position{line: 2873, col: 29, offset: 90829},
+																									val:        "\r",
+																									ignoreCase: false,
+																									want:       "\"\\r\"",
+																								},
+																							},
+																						},
+																					},
+																					&notExpr{
+																						pos: position{line: 2883, col: 8, offset: 90989},
+																						expr: &anyMatcher{
+																							line: 2883, col: 9, offset: 90990,
+																						},
+																					},
 																				},
 																			},
 																		},
@@ -7048,40 +7152,219 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 984, col: 5, offset: 30649},
+														pos:   position{line: 984, col: 5, offset: 30682},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 984, col: 16, offset: 30660},
+															pos: position{line: 984, col: 16, offset: 30693},
 															expr: &choiceExpr{
-																pos: position{line: 984, col: 17, offset: 30661},
+																pos: position{line: 984, col: 17, offset: 30694},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 990, col: 5, offset: 30871},
-																		run: (*parser).callonDocumentFragment667,
+																		pos: position{line: 2474, col: 22, offset: 79626},
+																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 990, col: 5, offset: 30871},
+																			pos: position{line: 2474, col: 22, offset: 79626},
 																			exprs: []interface{}{
+																				&litMatcher{
+																					pos:        position{line: 2479, col: 31, offset: 79847},
+																					val:        "//",
+																					ignoreCase: false,
+																					want:       "\"//\"",
+																				},
 																				&notExpr{
-																					pos: position{line: 990, col: 5, offset: 30871},
+																					pos: position{line: 2479, col: 36, offset: 79852},
+																					expr: &litMatcher{
+																						pos:        position{line: 2479, col: 37, offset: 79853},
+																						val:        "//",
+																						ignoreCase: false,
+																						want:       "\"//\"",
+																					},
+																				},
+																				&labeledExpr{
+																					pos:   position{line: 2474, col: 49, offset: 79653},
+																					label: "content",
+																					expr: &actionExpr{
+																						pos: position{line: 2810, col: 13, offset: 89167},
+																						run: (*parser).callonDocumentFragment695,
+																						expr: &zeroOrMoreExpr{
+																							pos: position{line: 2810, col: 13, offset: 89167},
+																							expr: &charClassMatcher{
+																								pos:        position{line: 2810, col: 13, offset: 89167},
+																								val:        "[^\\r\\n]",
+																								chars:      []rune{'\r', '\n'},
+																								ignoreCase: false,
+																								inverted:   true,
+																							},
+																						},
+																					},
+																				},
+																				&choiceExpr{
+																					pos: position{line: 2886, col: 8, offset: 91039},
+																					alternatives: []interface{}{
+																						&actionExpr{
+																							pos: position{line: 2873, col: 12, offset: 90812},
+																							run: (*parser).callonDocumentFragment699,
+																							expr: &choiceExpr{
+																								pos: position{line: 2873, col: 13, offset: 90813},
+																								alternatives: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2873, col: 13, offset: 90813},
+																										val:        "\n",
+																										ignoreCase: false,
+																										want:       "\"\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2873, col: 20, offset: 90820},
+																										val:        "\r\n",
+																										ignoreCase: false,
+																										want:       "\"\\r\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2873, col: 29, offset: 90829},
+																										val:        "\r",
+																										ignoreCase: false,
+																										want:       "\"\\r\"",
+																									},
+																								},
+																							},
+																						},
+																						&notExpr{
+																							pos: position{line: 2883, col: 8, offset: 90989},
+																							expr: &anyMatcher{
+																								line: 2883, col: 9, offset: 90990,
+																							},
+																						},
+																					},
+																				},
+																			},
+																		},
+																	},
+																	&actionExpr{
+																		pos: position{line: 996, col: 35, offset: 31099},
+																		run: (*parser).callonDocumentFragment706,
+																		expr: &seqExpr{
+																			pos: position{line: 996, col: 35, offset: 31099},
+																			exprs: []interface{}{
+																				&litMatcher{
+																					pos:        position{line: 996, col: 35, offset: 31099},
+																					val:        "> ",
+																					ignoreCase: false,
+																					want:       "\"> \"",
+																				},
+																				&labeledExpr{
+																					pos:   position{line: 996, col: 40, offset: 31104},
+																					label: "comment",
+																					expr: &actionExpr{
+																						pos: position{line: 2474, col: 22, offset: 79626},
+																						run: (*parser).callonDocumentFragment710,
+																						expr: &seqExpr{
+																							pos: position{line: 2474, col: 22, offset: 79626},
+																							exprs: []interface{}{
+																								&litMatcher{
+																									pos:        position{line: 2479, col: 31, offset: 79847},
+																									val:        "//",
+																									ignoreCase: false,
+																									want:       "\"//\"",
+																								},
+																								&notExpr{
+																									pos: position{line: 2479, col: 36, offset: 79852},
+																									expr: &litMatcher{
+																										pos:        position{line: 2479, col: 37, offset: 79853},
+																										val:        "//",
+																										ignoreCase: false,
+																										want:       "\"//\"",
+																									},
+																								},
+																								&labeledExpr{
+																									pos:   position{line: 2474, col: 49, offset: 79653},
+																									label: "content",
+																									expr: &actionExpr{
+																										pos: position{line: 2810, col: 13, offset: 89167},
+																										run: (*parser).callonDocumentFragment716,
+																										expr: &zeroOrMoreExpr{
+																											pos: position{line: 2810, col: 13, offset: 89167},
+																											expr: &charClassMatcher{
+																												pos:        position{line: 2810, col: 13, offset: 89167},
+																												val:        "[^\\r\\n]",
+																												chars:      []rune{'\r', '\n'},
+																												ignoreCase: false,
+																												inverted:   true,
+																											},
+																										},
+																									},
+																								},
+																								&choiceExpr{
+																									pos: position{line: 2886, col: 8, offset: 91039},
+																									alternatives: []interface{}{
+																										&actionExpr{
+																											pos: position{line: 2873, col: 12, offset: 90812},
+																											run: (*parser).callonDocumentFragment720,
+																											expr: &choiceExpr{
+																												pos: position{line: 2873, col: 13, offset: 90813},
+																												alternatives: []interface{}{
+																													&litMatcher{
+																														pos:        position{line: 2873, col: 13, offset: 90813},
+																														val:        "\n",
+																														ignoreCase: false,
+																														want:       "\"\\n\"",
+																													},
+																													&litMatcher{
+																														pos:        position{line: 2873, col: 20, offset: 90820},
+																														val:        "\r\n",
+																														ignoreCase: false,
+																														want:       "\"\\r\\n\"",
+																													},
+																													&litMatcher{
+																														pos:        position{line: 2873, col: 29, offset: 90829},
+																														val:        "\r",
+																														ignoreCase: false,
+																														want:       "\"\\r\"",
+																													},
+																												},
+																											},
+																										},
+																										&notExpr{
+																											pos: position{line: 2883, col: 8, offset: 90989},
+																											expr: &anyMatcher{
+																												line: 2883, col: 9, offset: 90990,
+																											},
+																										},
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																		},
+																	},
+																	&actionExpr{
+																		pos: position{line: 990, col: 5, offset: 30957},
+																		run: (*parser).callonDocumentFragment727,
+																		expr: &seqExpr{
+																			pos: position{line: 990, col: 5, offset: 30957},
+																			exprs: []interface{}{
+																				&notExpr{
+																					pos: position{line: 990, col: 5, offset: 30957},
 																					expr: &actionExpr{
 																						pos: position{line: 677, col: 14, offset: 21489},
-																						run: (*parser).callonDocumentFragment670,
+																						run: (*parser).callonDocumentFragment730,
 																						expr: &seqExpr{
 																							pos: position{line: 677, col: 14, offset: 21489},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2877, col: 11, offset: 90785},
+																									pos: position{line: 2881, col: 11, offset: 90975},
 																									expr: &anyMatcher{
-																										line: 2877, col: 13, offset: 90787,
+																										line: 2881, col: 13, offset: 90977,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 677, col: 21, offset: 21496},
 																									expr: &actionExpr{
-																										pos: position{line: 2860, col: 10, offset: 90451},
-																										run: (*parser).callonDocumentFragment675,
+																										pos: position{line: 2864, col: 10, offset: 90641},
+																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2860, col: 10, offset: 90451},
+																											pos:        position{line: 2864, col: 10, offset: 90641},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7090,28 +7373,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2882, col: 8, offset: 90849},
+																									pos: position{line: 2886, col: 8, offset: 91039},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2869, col: 12, offset: 90622},
-																											run: (*parser).callonDocumentFragment678,
+																											pos: position{line: 2873, col: 12, offset: 90812},
+																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2869, col: 13, offset: 90623},
+																												pos: position{line: 2873, col: 13, offset: 90813},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 13, offset: 90623},
+																														pos:        position{line: 2873, col: 13, offset: 90813},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 20, offset: 90630},
+																														pos:        position{line: 2873, col: 20, offset: 90820},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 29, offset: 90639},
+																														pos:        position{line: 2873, col: 29, offset: 90829},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7120,9 +7403,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2879, col: 8, offset: 90799},
+																											pos: position{line: 2883, col: 8, offset: 90989},
 																											expr: &anyMatcher{
-																												line: 2879, col: 9, offset: 90800,
+																												line: 2883, col: 9, offset: 90990,
 																											},
 																										},
 																									},
@@ -7132,21 +7415,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 991, col: 5, offset: 30886},
+																					pos:        position{line: 991, col: 5, offset: 30972},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 992, col: 5, offset: 30896},
+																					pos:   position{line: 992, col: 5, offset: 30982},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2810, col: 14, offset: 89044},
-																						run: (*parser).callonDocumentFragment687,
+																						pos: position{line: 2814, col: 14, offset: 89234},
+																						run: (*parser).callonDocumentFragment747,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2810, col: 14, offset: 89044},
+																							pos: position{line: 2814, col: 14, offset: 89234},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2810, col: 14, offset: 89044},
+																								pos:        position{line: 2814, col: 14, offset: 89234},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7156,28 +7439,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2882, col: 8, offset: 90849},
+																					pos: position{line: 2886, col: 8, offset: 91039},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2869, col: 12, offset: 90622},
-																							run: (*parser).callonDocumentFragment691,
+																							pos: position{line: 2873, col: 12, offset: 90812},
+																							run: (*parser).callonDocumentFragment751,
 																							expr: &choiceExpr{
-																								pos: position{line: 2869, col: 13, offset: 90623},
+																								pos: position{line: 2873, col: 13, offset: 90813},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2869, col: 13, offset: 90623},
+																										pos:        position{line: 2873, col: 13, offset: 90813},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2869, col: 20, offset: 90630},
+																										pos:        position{line: 2873, col: 20, offset: 90820},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2869, col: 29, offset: 90639},
+																										pos:        position{line: 2873, col: 29, offset: 90829},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7186,9 +7469,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2879, col: 8, offset: 90799},
+																							pos: position{line: 2883, col: 8, offset: 90989},
 																							expr: &anyMatcher{
-																								line: 2879, col: 9, offset: 90800,
+																								line: 2883, col: 9, offset: 90990,
 																							},
 																						},
 																					},
@@ -7197,21 +7480,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1792, col: 5, offset: 57817},
-																		run: (*parser).callonDocumentFragment698,
+																		pos: position{line: 1796, col: 5, offset: 58007},
+																		run: (*parser).callonDocumentFragment758,
 																		expr: &seqExpr{
-																			pos: position{line: 1792, col: 5, offset: 57817},
+																			pos: position{line: 1796, col: 5, offset: 58007},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1792, col: 5, offset: 57817},
+																					pos:   position{line: 1796, col: 5, offset: 58007},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2810, col: 14, offset: 89044},
-																						run: (*parser).callonDocumentFragment701,
+																						pos: position{line: 2814, col: 14, offset: 89234},
+																						run: (*parser).callonDocumentFragment761,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2810, col: 14, offset: 89044},
+																							pos: position{line: 2814, col: 14, offset: 89234},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2810, col: 14, offset: 89044},
+																								pos:        position{line: 2814, col: 14, offset: 89234},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7221,32 +7504,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1793, col: 5, offset: 57841},
-																					run: (*parser).callonDocumentFragment704,
+																					pos: position{line: 1797, col: 5, offset: 58031},
+																					run: (*parser).callonDocumentFragment764,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2882, col: 8, offset: 90849},
+																					pos: position{line: 2886, col: 8, offset: 91039},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2869, col: 12, offset: 90622},
-																							run: (*parser).callonDocumentFragment706,
+																							pos: position{line: 2873, col: 12, offset: 90812},
+																							run: (*parser).callonDocumentFragment766,
 																							expr: &choiceExpr{
-																								pos: position{line: 2869, col: 13, offset: 90623},
+																								pos: position{line: 2873, col: 13, offset: 90813},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2869, col: 13, offset: 90623},
+																										pos:        position{line: 2873, col: 13, offset: 90813},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2869, col: 20, offset: 90630},
+																										pos:        position{line: 2873, col: 20, offset: 90820},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2869, col: 29, offset: 90639},
+																										pos:        position{line: 2873, col: 29, offset: 90829},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7255,9 +7538,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2879, col: 8, offset: 90799},
+																							pos: position{line: 2883, col: 8, offset: 90989},
 																							expr: &anyMatcher{
-																								line: 2879, col: 9, offset: 90800,
+																								line: 2883, col: 9, offset: 90990,
 																							},
 																						},
 																					},
@@ -7273,17 +7556,17 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1005, col: 5, offset: 31161},
-											run: (*parser).callonDocumentFragment713,
+											pos: position{line: 1009, col: 5, offset: 31351},
+											run: (*parser).callonDocumentFragment773,
 											expr: &seqExpr{
-												pos: position{line: 1005, col: 5, offset: 31161},
+												pos: position{line: 1009, col: 5, offset: 31351},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1005, col: 5, offset: 31161},
+														pos:   position{line: 1009, col: 5, offset: 31351},
 														label: "start",
 														expr: &actionExpr{
 															pos: position{line: 776, col: 5, offset: 24861},
-															run: (*parser).callonDocumentFragment716,
+															run: (*parser).callonDocumentFragment776,
 															expr: &seqExpr{
 																pos: position{line: 776, col: 5, offset: 24861},
 																exprs: []interface{}{
@@ -7292,7 +7575,7 @@ var g = &grammar{
 																		label: "delimiter",
 																		expr: &actionExpr{
 																			pos: position{line: 776, col: 16, offset: 24872},
-																			run: (*parser).callonDocumentFragment719,
+																			run: (*parser).callonDocumentFragment779,
 																			expr: &litMatcher{
 																				pos:        position{line: 776, col: 16, offset: 24872},
 																				val:        "--",
@@ -7304,10 +7587,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 778, col: 8, offset: 24949},
 																		expr: &actionExpr{
-																			pos: position{line: 2860, col: 10, offset: 90451},
-																			run: (*parser).callonDocumentFragment722,
+																			pos: position{line: 2864, col: 10, offset: 90641},
+																			run: (*parser).callonDocumentFragment782,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2860, col: 10, offset: 90451},
+																				pos:        position{line: 2864, col: 10, offset: 90641},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7316,28 +7599,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2882, col: 8, offset: 90849},
+																		pos: position{line: 2886, col: 8, offset: 91039},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90622},
-																				run: (*parser).callonDocumentFragment725,
+																				pos: position{line: 2873, col: 12, offset: 90812},
+																				run: (*parser).callonDocumentFragment785,
 																				expr: &choiceExpr{
-																					pos: position{line: 2869, col: 13, offset: 90623},
+																					pos: position{line: 2873, col: 13, offset: 90813},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							pos:        position{line: 2873, col: 13, offset: 90813},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							pos:        position{line: 2873, col: 20, offset: 90820},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							pos:        position{line: 2873, col: 29, offset: 90829},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7346,9 +7629,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2879, col: 8, offset: 90799},
+																				pos: position{line: 2883, col: 8, offset: 90989},
 																				expr: &anyMatcher{
-																					line: 2879, col: 9, offset: 90800,
+																					line: 2883, col: 9, offset: 90990,
 																				},
 																			},
 																		},
@@ -7358,24 +7641,24 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1006, col: 5, offset: 31197},
+														pos:   position{line: 1010, col: 5, offset: 31387},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1016, col: 5, offset: 31465},
+															pos: position{line: 1020, col: 5, offset: 31655},
 															expr: &actionExpr{
-																pos: position{line: 1016, col: 6, offset: 31466},
-																run: (*parser).callonDocumentFragment734,
+																pos: position{line: 1020, col: 6, offset: 31656},
+																run: (*parser).callonDocumentFragment794,
 																expr: &seqExpr{
-																	pos: position{line: 1016, col: 6, offset: 31466},
+																	pos: position{line: 1020, col: 6, offset: 31656},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1016, col: 6, offset: 31466},
+																			pos: position{line: 1020, col: 6, offset: 31656},
 																			expr: &choiceExpr{
-																				pos: position{line: 1013, col: 26, offset: 31414},
+																				pos: position{line: 1017, col: 26, offset: 31604},
 																				alternatives: []interface{}{
 																					&actionExpr{
 																						pos: position{line: 776, col: 5, offset: 24861},
-																						run: (*parser).callonDocumentFragment738,
+																						run: (*parser).callonDocumentFragment798,
 																						expr: &seqExpr{
 																							pos: position{line: 776, col: 5, offset: 24861},
 																							exprs: []interface{}{
@@ -7384,7 +7667,7 @@ var g = &grammar{
 																									label: "delimiter",
 																									expr: &actionExpr{
 																										pos: position{line: 776, col: 16, offset: 24872},
-																										run: (*parser).callonDocumentFragment741,
+																										run: (*parser).callonDocumentFragment801,
 																										expr: &litMatcher{
 																											pos:        position{line: 776, col: 16, offset: 24872},
 																											val:        "--",
@@ -7396,10 +7679,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 778, col: 8, offset: 24949},
 																									expr: &actionExpr{
-																										pos: position{line: 2860, col: 10, offset: 90451},
-																										run: (*parser).callonDocumentFragment744,
+																										pos: position{line: 2864, col: 10, offset: 90641},
+																										run: (*parser).callonDocumentFragment804,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2860, col: 10, offset: 90451},
+																											pos:        position{line: 2864, col: 10, offset: 90641},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7408,28 +7691,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2882, col: 8, offset: 90849},
+																									pos: position{line: 2886, col: 8, offset: 91039},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2869, col: 12, offset: 90622},
-																											run: (*parser).callonDocumentFragment747,
+																											pos: position{line: 2873, col: 12, offset: 90812},
+																											run: (*parser).callonDocumentFragment807,
 																											expr: &choiceExpr{
-																												pos: position{line: 2869, col: 13, offset: 90623},
+																												pos: position{line: 2873, col: 13, offset: 90813},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 13, offset: 90623},
+																														pos:        position{line: 2873, col: 13, offset: 90813},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 20, offset: 90630},
+																														pos:        position{line: 2873, col: 20, offset: 90820},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 29, offset: 90639},
+																														pos:        position{line: 2873, col: 29, offset: 90829},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7438,9 +7721,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2879, col: 8, offset: 90799},
+																											pos: position{line: 2883, col: 8, offset: 90989},
 																											expr: &anyMatcher{
-																												line: 2879, col: 9, offset: 90800,
+																												line: 2883, col: 9, offset: 90990,
 																											},
 																										},
 																									},
@@ -7449,39 +7732,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2879, col: 8, offset: 90799},
+																						pos: position{line: 2883, col: 8, offset: 90989},
 																						expr: &anyMatcher{
-																							line: 2879, col: 9, offset: 90800,
+																							line: 2883, col: 9, offset: 90990,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1017, col: 5, offset: 31493},
+																			pos:   position{line: 1021, col: 5, offset: 31683},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentFragment757,
+																				run: (*parser).callonDocumentFragment817,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2877, col: 11, offset: 90785},
+																							pos: position{line: 2881, col: 11, offset: 90975},
 																							expr: &anyMatcher{
-																								line: 2877, col: 13, offset: 90787,
+																								line: 2881, col: 13, offset: 90977,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2806, col: 13, offset: 88977},
-																								run: (*parser).callonDocumentFragment762,
+																								pos: position{line: 2810, col: 13, offset: 89167},
+																								run: (*parser).callonDocumentFragment822,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2806, col: 13, offset: 88977},
+																									pos: position{line: 2810, col: 13, offset: 89167},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2806, col: 13, offset: 88977},
+																										pos:        position{line: 2810, col: 13, offset: 89167},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7491,28 +7774,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
-																									run: (*parser).callonDocumentFragment766,
+																									pos: position{line: 2873, col: 12, offset: 90812},
+																									run: (*parser).callonDocumentFragment826,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7521,9 +7804,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -7538,16 +7821,16 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1007, col: 5, offset: 31228},
+														pos:   position{line: 1011, col: 5, offset: 31418},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1007, col: 9, offset: 31232},
+															pos: position{line: 1011, col: 9, offset: 31422},
 															expr: &choiceExpr{
-																pos: position{line: 1013, col: 26, offset: 31414},
+																pos: position{line: 1017, col: 26, offset: 31604},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 776, col: 5, offset: 24861},
-																		run: (*parser).callonDocumentFragment776,
+																		run: (*parser).callonDocumentFragment836,
 																		expr: &seqExpr{
 																			pos: position{line: 776, col: 5, offset: 24861},
 																			exprs: []interface{}{
@@ -7556,7 +7839,7 @@ var g = &grammar{
 																					label: "delimiter",
 																					expr: &actionExpr{
 																						pos: position{line: 776, col: 16, offset: 24872},
-																						run: (*parser).callonDocumentFragment779,
+																						run: (*parser).callonDocumentFragment839,
 																						expr: &litMatcher{
 																							pos:        position{line: 776, col: 16, offset: 24872},
 																							val:        "--",
@@ -7568,10 +7851,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 778, col: 8, offset: 24949},
 																					expr: &actionExpr{
-																						pos: position{line: 2860, col: 10, offset: 90451},
-																						run: (*parser).callonDocumentFragment782,
+																						pos: position{line: 2864, col: 10, offset: 90641},
+																						run: (*parser).callonDocumentFragment842,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2860, col: 10, offset: 90451},
+																							pos:        position{line: 2864, col: 10, offset: 90641},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7580,28 +7863,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2882, col: 8, offset: 90849},
+																					pos: position{line: 2886, col: 8, offset: 91039},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2869, col: 12, offset: 90622},
-																							run: (*parser).callonDocumentFragment785,
+																							pos: position{line: 2873, col: 12, offset: 90812},
+																							run: (*parser).callonDocumentFragment845,
 																							expr: &choiceExpr{
-																								pos: position{line: 2869, col: 13, offset: 90623},
+																								pos: position{line: 2873, col: 13, offset: 90813},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2869, col: 13, offset: 90623},
+																										pos:        position{line: 2873, col: 13, offset: 90813},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2869, col: 20, offset: 90630},
+																										pos:        position{line: 2873, col: 20, offset: 90820},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2869, col: 29, offset: 90639},
+																										pos:        position{line: 2873, col: 29, offset: 90829},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7610,9 +7893,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2879, col: 8, offset: 90799},
+																							pos: position{line: 2883, col: 8, offset: 90989},
 																							expr: &anyMatcher{
-																								line: 2879, col: 9, offset: 90800,
+																								line: 2883, col: 9, offset: 90990,
 																							},
 																						},
 																					},
@@ -7621,9 +7904,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2879, col: 8, offset: 90799},
+																		pos: position{line: 2883, col: 8, offset: 90989},
 																		expr: &anyMatcher{
-																			line: 2879, col: 9, offset: 90800,
+																			line: 2883, col: 9, offset: 90990,
 																		},
 																	},
 																},
@@ -7634,17 +7917,17 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1025, col: 5, offset: 31656},
-											run: (*parser).callonDocumentFragment794,
+											pos: position{line: 1029, col: 5, offset: 31846},
+											run: (*parser).callonDocumentFragment854,
 											expr: &seqExpr{
-												pos: position{line: 1025, col: 5, offset: 31656},
+												pos: position{line: 1029, col: 5, offset: 31846},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1025, col: 5, offset: 31656},
+														pos:   position{line: 1029, col: 5, offset: 31846},
 														label: "start",
 														expr: &actionExpr{
 															pos: position{line: 790, col: 5, offset: 25344},
-															run: (*parser).callonDocumentFragment797,
+															run: (*parser).callonDocumentFragment857,
 															expr: &seqExpr{
 																pos: position{line: 790, col: 5, offset: 25344},
 																exprs: []interface{}{
@@ -7653,7 +7936,7 @@ var g = &grammar{
 																		label: "delimiter",
 																		expr: &actionExpr{
 																			pos: position{line: 790, col: 16, offset: 25355},
-																			run: (*parser).callonDocumentFragment800,
+																			run: (*parser).callonDocumentFragment860,
 																			expr: &seqExpr{
 																				pos: position{line: 790, col: 16, offset: 25355},
 																				exprs: []interface{}{
@@ -7679,10 +7962,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 792, col: 8, offset: 25446},
 																		expr: &actionExpr{
-																			pos: position{line: 2860, col: 10, offset: 90451},
-																			run: (*parser).callonDocumentFragment806,
+																			pos: position{line: 2864, col: 10, offset: 90641},
+																			run: (*parser).callonDocumentFragment866,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2860, col: 10, offset: 90451},
+																				pos:        position{line: 2864, col: 10, offset: 90641},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7691,28 +7974,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2882, col: 8, offset: 90849},
+																		pos: position{line: 2886, col: 8, offset: 91039},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90622},
-																				run: (*parser).callonDocumentFragment809,
+																				pos: position{line: 2873, col: 12, offset: 90812},
+																				run: (*parser).callonDocumentFragment869,
 																				expr: &choiceExpr{
-																					pos: position{line: 2869, col: 13, offset: 90623},
+																					pos: position{line: 2873, col: 13, offset: 90813},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							pos:        position{line: 2873, col: 13, offset: 90813},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							pos:        position{line: 2873, col: 20, offset: 90820},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							pos:        position{line: 2873, col: 29, offset: 90829},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7721,9 +8004,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2879, col: 8, offset: 90799},
+																				pos: position{line: 2883, col: 8, offset: 90989},
 																				expr: &anyMatcher{
-																					line: 2879, col: 9, offset: 90800,
+																					line: 2883, col: 9, offset: 90990,
 																				},
 																			},
 																		},
@@ -7733,34 +8016,34 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1026, col: 5, offset: 31699},
-														run: (*parser).callonDocumentFragment816,
+														pos: position{line: 1030, col: 5, offset: 31889},
+														run: (*parser).callonDocumentFragment876,
 													},
 													&labeledExpr{
-														pos:   position{line: 1029, col: 5, offset: 31791},
+														pos:   position{line: 1033, col: 5, offset: 31981},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1044, col: 5, offset: 32221},
+															pos: position{line: 1048, col: 5, offset: 32411},
 															expr: &actionExpr{
-																pos: position{line: 1044, col: 6, offset: 32222},
-																run: (*parser).callonDocumentFragment819,
+																pos: position{line: 1048, col: 6, offset: 32412},
+																run: (*parser).callonDocumentFragment879,
 																expr: &seqExpr{
-																	pos: position{line: 1044, col: 6, offset: 32222},
+																	pos: position{line: 1048, col: 6, offset: 32412},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1044, col: 6, offset: 32222},
+																			pos: position{line: 1048, col: 6, offset: 32412},
 																			expr: &choiceExpr{
-																				pos: position{line: 1037, col: 5, offset: 32055},
+																				pos: position{line: 1041, col: 5, offset: 32245},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1037, col: 5, offset: 32055},
+																						pos: position{line: 1041, col: 5, offset: 32245},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1037, col: 5, offset: 32055},
+																								pos:   position{line: 1041, col: 5, offset: 32245},
 																								label: "end",
 																								expr: &actionExpr{
 																									pos: position{line: 790, col: 5, offset: 25344},
-																									run: (*parser).callonDocumentFragment825,
+																									run: (*parser).callonDocumentFragment885,
 																									expr: &seqExpr{
 																										pos: position{line: 790, col: 5, offset: 25344},
 																										exprs: []interface{}{
@@ -7769,7 +8052,7 @@ var g = &grammar{
 																												label: "delimiter",
 																												expr: &actionExpr{
 																													pos: position{line: 790, col: 16, offset: 25355},
-																													run: (*parser).callonDocumentFragment828,
+																													run: (*parser).callonDocumentFragment888,
 																													expr: &seqExpr{
 																														pos: position{line: 790, col: 16, offset: 25355},
 																														exprs: []interface{}{
@@ -7795,10 +8078,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 792, col: 8, offset: 25446},
 																												expr: &actionExpr{
-																													pos: position{line: 2860, col: 10, offset: 90451},
-																													run: (*parser).callonDocumentFragment834,
+																													pos: position{line: 2864, col: 10, offset: 90641},
+																													run: (*parser).callonDocumentFragment894,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2860, col: 10, offset: 90451},
+																														pos:        position{line: 2864, col: 10, offset: 90641},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -7807,28 +8090,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2882, col: 8, offset: 90849},
+																												pos: position{line: 2886, col: 8, offset: 91039},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2869, col: 12, offset: 90622},
-																														run: (*parser).callonDocumentFragment837,
+																														pos: position{line: 2873, col: 12, offset: 90812},
+																														run: (*parser).callonDocumentFragment897,
 																														expr: &choiceExpr{
-																															pos: position{line: 2869, col: 13, offset: 90623},
+																															pos: position{line: 2873, col: 13, offset: 90813},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 13, offset: 90623},
+																																	pos:        position{line: 2873, col: 13, offset: 90813},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 20, offset: 90630},
+																																	pos:        position{line: 2873, col: 20, offset: 90820},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 29, offset: 90639},
+																																	pos:        position{line: 2873, col: 29, offset: 90829},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -7837,9 +8120,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2879, col: 8, offset: 90799},
+																														pos: position{line: 2883, col: 8, offset: 90989},
 																														expr: &anyMatcher{
-																															line: 2879, col: 9, offset: 90800,
+																															line: 2883, col: 9, offset: 90990,
 																														},
 																													},
 																												},
@@ -7849,45 +8132,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1038, col: 5, offset: 32090},
-																								run: (*parser).callonDocumentFragment844,
+																								pos: position{line: 1042, col: 5, offset: 32280},
+																								run: (*parser).callonDocumentFragment904,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2879, col: 8, offset: 90799},
+																						pos: position{line: 2883, col: 8, offset: 90989},
 																						expr: &anyMatcher{
-																							line: 2879, col: 9, offset: 90800,
+																							line: 2883, col: 9, offset: 90990,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1045, col: 5, offset: 32256},
+																			pos:   position{line: 1049, col: 5, offset: 32446},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentFragment848,
+																				run: (*parser).callonDocumentFragment908,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2877, col: 11, offset: 90785},
+																							pos: position{line: 2881, col: 11, offset: 90975},
 																							expr: &anyMatcher{
-																								line: 2877, col: 13, offset: 90787,
+																								line: 2881, col: 13, offset: 90977,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2806, col: 13, offset: 88977},
-																								run: (*parser).callonDocumentFragment853,
+																								pos: position{line: 2810, col: 13, offset: 89167},
+																								run: (*parser).callonDocumentFragment913,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2806, col: 13, offset: 88977},
+																									pos: position{line: 2810, col: 13, offset: 89167},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2806, col: 13, offset: 88977},
+																										pos:        position{line: 2810, col: 13, offset: 89167},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7897,28 +8180,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
-																									run: (*parser).callonDocumentFragment857,
+																									pos: position{line: 2873, col: 12, offset: 90812},
+																									run: (*parser).callonDocumentFragment917,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7927,9 +8210,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -7944,22 +8227,22 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1030, col: 5, offset: 31829},
+														pos:   position{line: 1034, col: 5, offset: 32019},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1030, col: 9, offset: 31833},
+															pos: position{line: 1034, col: 9, offset: 32023},
 															expr: &choiceExpr{
-																pos: position{line: 1037, col: 5, offset: 32055},
+																pos: position{line: 1041, col: 5, offset: 32245},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1037, col: 5, offset: 32055},
+																		pos: position{line: 1041, col: 5, offset: 32245},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1037, col: 5, offset: 32055},
+																				pos:   position{line: 1041, col: 5, offset: 32245},
 																				label: "end",
 																				expr: &actionExpr{
 																					pos: position{line: 790, col: 5, offset: 25344},
-																					run: (*parser).callonDocumentFragment869,
+																					run: (*parser).callonDocumentFragment929,
 																					expr: &seqExpr{
 																						pos: position{line: 790, col: 5, offset: 25344},
 																						exprs: []interface{}{
@@ -7968,7 +8251,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 790, col: 16, offset: 25355},
-																									run: (*parser).callonDocumentFragment872,
+																									run: (*parser).callonDocumentFragment932,
 																									expr: &seqExpr{
 																										pos: position{line: 790, col: 16, offset: 25355},
 																										exprs: []interface{}{
@@ -7994,10 +8277,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 792, col: 8, offset: 25446},
 																								expr: &actionExpr{
-																									pos: position{line: 2860, col: 10, offset: 90451},
-																									run: (*parser).callonDocumentFragment878,
+																									pos: position{line: 2864, col: 10, offset: 90641},
+																									run: (*parser).callonDocumentFragment938,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2860, col: 10, offset: 90451},
+																										pos:        position{line: 2864, col: 10, offset: 90641},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8006,28 +8289,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2882, col: 8, offset: 90849},
+																								pos: position{line: 2886, col: 8, offset: 91039},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2869, col: 12, offset: 90622},
-																										run: (*parser).callonDocumentFragment881,
+																										pos: position{line: 2873, col: 12, offset: 90812},
+																										run: (*parser).callonDocumentFragment941,
 																										expr: &choiceExpr{
-																											pos: position{line: 2869, col: 13, offset: 90623},
+																											pos: position{line: 2873, col: 13, offset: 90813},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 13, offset: 90623},
+																													pos:        position{line: 2873, col: 13, offset: 90813},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 20, offset: 90630},
+																													pos:        position{line: 2873, col: 20, offset: 90820},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 29, offset: 90639},
+																													pos:        position{line: 2873, col: 29, offset: 90829},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8036,9 +8319,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2879, col: 8, offset: 90799},
+																										pos: position{line: 2883, col: 8, offset: 90989},
 																										expr: &anyMatcher{
-																											line: 2879, col: 9, offset: 90800,
+																											line: 2883, col: 9, offset: 90990,
 																										},
 																									},
 																								},
@@ -8048,15 +8331,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1038, col: 5, offset: 32090},
-																				run: (*parser).callonDocumentFragment888,
+																				pos: position{line: 1042, col: 5, offset: 32280},
+																				run: (*parser).callonDocumentFragment948,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2879, col: 8, offset: 90799},
+																		pos: position{line: 2883, col: 8, offset: 90989},
 																		expr: &anyMatcher{
-																			line: 2879, col: 9, offset: 90800,
+																			line: 2883, col: 9, offset: 90990,
 																		},
 																	},
 																},
@@ -8067,17 +8350,17 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1053, col: 5, offset: 32407},
-											run: (*parser).callonDocumentFragment891,
+											pos: position{line: 1057, col: 5, offset: 32597},
+											run: (*parser).callonDocumentFragment951,
 											expr: &seqExpr{
-												pos: position{line: 1053, col: 5, offset: 32407},
+												pos: position{line: 1057, col: 5, offset: 32597},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1053, col: 5, offset: 32407},
+														pos:   position{line: 1057, col: 5, offset: 32597},
 														label: "start",
 														expr: &actionExpr{
 															pos: position{line: 797, col: 5, offset: 25594},
-															run: (*parser).callonDocumentFragment894,
+															run: (*parser).callonDocumentFragment954,
 															expr: &seqExpr{
 																pos: position{line: 797, col: 5, offset: 25594},
 																exprs: []interface{}{
@@ -8086,7 +8369,7 @@ var g = &grammar{
 																		label: "delimiter",
 																		expr: &actionExpr{
 																			pos: position{line: 797, col: 16, offset: 25605},
-																			run: (*parser).callonDocumentFragment897,
+																			run: (*parser).callonDocumentFragment957,
 																			expr: &seqExpr{
 																				pos: position{line: 797, col: 16, offset: 25605},
 																				exprs: []interface{}{
@@ -8112,10 +8395,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 799, col: 8, offset: 25696},
 																		expr: &actionExpr{
-																			pos: position{line: 2860, col: 10, offset: 90451},
-																			run: (*parser).callonDocumentFragment903,
+																			pos: position{line: 2864, col: 10, offset: 90641},
+																			run: (*parser).callonDocumentFragment963,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2860, col: 10, offset: 90451},
+																				pos:        position{line: 2864, col: 10, offset: 90641},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8124,28 +8407,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2882, col: 8, offset: 90849},
+																		pos: position{line: 2886, col: 8, offset: 91039},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90622},
-																				run: (*parser).callonDocumentFragment906,
+																				pos: position{line: 2873, col: 12, offset: 90812},
+																				run: (*parser).callonDocumentFragment966,
 																				expr: &choiceExpr{
-																					pos: position{line: 2869, col: 13, offset: 90623},
+																					pos: position{line: 2873, col: 13, offset: 90813},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							pos:        position{line: 2873, col: 13, offset: 90813},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							pos:        position{line: 2873, col: 20, offset: 90820},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							pos:        position{line: 2873, col: 29, offset: 90829},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8154,9 +8437,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2879, col: 8, offset: 90799},
+																				pos: position{line: 2883, col: 8, offset: 90989},
 																				expr: &anyMatcher{
-																					line: 2879, col: 9, offset: 90800,
+																					line: 2883, col: 9, offset: 90990,
 																				},
 																			},
 																		},
@@ -8166,34 +8449,34 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1054, col: 5, offset: 32444},
-														run: (*parser).callonDocumentFragment913,
+														pos: position{line: 1058, col: 5, offset: 32634},
+														run: (*parser).callonDocumentFragment973,
 													},
 													&labeledExpr{
-														pos:   position{line: 1057, col: 5, offset: 32536},
+														pos:   position{line: 1061, col: 5, offset: 32726},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1072, col: 4, offset: 32917},
+															pos: position{line: 1076, col: 4, offset: 33107},
 															expr: &actionExpr{
-																pos: position{line: 1072, col: 5, offset: 32918},
-																run: (*parser).callonDocumentFragment916,
+																pos: position{line: 1076, col: 5, offset: 33108},
+																run: (*parser).callonDocumentFragment976,
 																expr: &seqExpr{
-																	pos: position{line: 1072, col: 5, offset: 32918},
+																	pos: position{line: 1076, col: 5, offset: 33108},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1072, col: 5, offset: 32918},
+																			pos: position{line: 1076, col: 5, offset: 33108},
 																			expr: &choiceExpr{
-																				pos: position{line: 1065, col: 5, offset: 32764},
+																				pos: position{line: 1069, col: 5, offset: 32954},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1065, col: 5, offset: 32764},
+																						pos: position{line: 1069, col: 5, offset: 32954},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1065, col: 5, offset: 32764},
+																								pos:   position{line: 1069, col: 5, offset: 32954},
 																								label: "end",
 																								expr: &actionExpr{
 																									pos: position{line: 797, col: 5, offset: 25594},
-																									run: (*parser).callonDocumentFragment922,
+																									run: (*parser).callonDocumentFragment982,
 																									expr: &seqExpr{
 																										pos: position{line: 797, col: 5, offset: 25594},
 																										exprs: []interface{}{
@@ -8202,7 +8485,7 @@ var g = &grammar{
 																												label: "delimiter",
 																												expr: &actionExpr{
 																													pos: position{line: 797, col: 16, offset: 25605},
-																													run: (*parser).callonDocumentFragment925,
+																													run: (*parser).callonDocumentFragment985,
 																													expr: &seqExpr{
 																														pos: position{line: 797, col: 16, offset: 25605},
 																														exprs: []interface{}{
@@ -8228,10 +8511,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 799, col: 8, offset: 25696},
 																												expr: &actionExpr{
-																													pos: position{line: 2860, col: 10, offset: 90451},
-																													run: (*parser).callonDocumentFragment931,
+																													pos: position{line: 2864, col: 10, offset: 90641},
+																													run: (*parser).callonDocumentFragment991,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2860, col: 10, offset: 90451},
+																														pos:        position{line: 2864, col: 10, offset: 90641},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8240,28 +8523,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2882, col: 8, offset: 90849},
+																												pos: position{line: 2886, col: 8, offset: 91039},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2869, col: 12, offset: 90622},
-																														run: (*parser).callonDocumentFragment934,
+																														pos: position{line: 2873, col: 12, offset: 90812},
+																														run: (*parser).callonDocumentFragment994,
 																														expr: &choiceExpr{
-																															pos: position{line: 2869, col: 13, offset: 90623},
+																															pos: position{line: 2873, col: 13, offset: 90813},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 13, offset: 90623},
+																																	pos:        position{line: 2873, col: 13, offset: 90813},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 20, offset: 90630},
+																																	pos:        position{line: 2873, col: 20, offset: 90820},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 29, offset: 90639},
+																																	pos:        position{line: 2873, col: 29, offset: 90829},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8270,9 +8553,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2879, col: 8, offset: 90799},
+																														pos: position{line: 2883, col: 8, offset: 90989},
 																														expr: &anyMatcher{
-																															line: 2879, col: 9, offset: 90800,
+																															line: 2883, col: 9, offset: 90990,
 																														},
 																													},
 																												},
@@ -8282,45 +8565,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1066, col: 5, offset: 32793},
-																								run: (*parser).callonDocumentFragment941,
+																								pos: position{line: 1070, col: 5, offset: 32983},
+																								run: (*parser).callonDocumentFragment1001,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2879, col: 8, offset: 90799},
+																						pos: position{line: 2883, col: 8, offset: 90989},
 																						expr: &anyMatcher{
-																							line: 2879, col: 9, offset: 90800,
+																							line: 2883, col: 9, offset: 90990,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1073, col: 5, offset: 32946},
+																			pos:   position{line: 1077, col: 5, offset: 33136},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentFragment945,
+																				run: (*parser).callonDocumentFragment1005,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2877, col: 11, offset: 90785},
+																							pos: position{line: 2881, col: 11, offset: 90975},
 																							expr: &anyMatcher{
-																								line: 2877, col: 13, offset: 90787,
+																								line: 2881, col: 13, offset: 90977,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2806, col: 13, offset: 88977},
-																								run: (*parser).callonDocumentFragment950,
+																								pos: position{line: 2810, col: 13, offset: 89167},
+																								run: (*parser).callonDocumentFragment1010,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2806, col: 13, offset: 88977},
+																									pos: position{line: 2810, col: 13, offset: 89167},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2806, col: 13, offset: 88977},
+																										pos:        position{line: 2810, col: 13, offset: 89167},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8330,28 +8613,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
-																									run: (*parser).callonDocumentFragment954,
+																									pos: position{line: 2873, col: 12, offset: 90812},
+																									run: (*parser).callonDocumentFragment1014,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8360,9 +8643,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -8377,22 +8660,22 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1058, col: 5, offset: 32568},
+														pos:   position{line: 1062, col: 5, offset: 32758},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1058, col: 9, offset: 32572},
+															pos: position{line: 1062, col: 9, offset: 32762},
 															expr: &choiceExpr{
-																pos: position{line: 1065, col: 5, offset: 32764},
+																pos: position{line: 1069, col: 5, offset: 32954},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1065, col: 5, offset: 32764},
+																		pos: position{line: 1069, col: 5, offset: 32954},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1065, col: 5, offset: 32764},
+																				pos:   position{line: 1069, col: 5, offset: 32954},
 																				label: "end",
 																				expr: &actionExpr{
 																					pos: position{line: 797, col: 5, offset: 25594},
-																					run: (*parser).callonDocumentFragment966,
+																					run: (*parser).callonDocumentFragment1026,
 																					expr: &seqExpr{
 																						pos: position{line: 797, col: 5, offset: 25594},
 																						exprs: []interface{}{
@@ -8401,7 +8684,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 797, col: 16, offset: 25605},
-																									run: (*parser).callonDocumentFragment969,
+																									run: (*parser).callonDocumentFragment1029,
 																									expr: &seqExpr{
 																										pos: position{line: 797, col: 16, offset: 25605},
 																										exprs: []interface{}{
@@ -8427,10 +8710,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 799, col: 8, offset: 25696},
 																								expr: &actionExpr{
-																									pos: position{line: 2860, col: 10, offset: 90451},
-																									run: (*parser).callonDocumentFragment975,
+																									pos: position{line: 2864, col: 10, offset: 90641},
+																									run: (*parser).callonDocumentFragment1035,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2860, col: 10, offset: 90451},
+																										pos:        position{line: 2864, col: 10, offset: 90641},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8439,28 +8722,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2882, col: 8, offset: 90849},
+																								pos: position{line: 2886, col: 8, offset: 91039},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2869, col: 12, offset: 90622},
-																										run: (*parser).callonDocumentFragment978,
+																										pos: position{line: 2873, col: 12, offset: 90812},
+																										run: (*parser).callonDocumentFragment1038,
 																										expr: &choiceExpr{
-																											pos: position{line: 2869, col: 13, offset: 90623},
+																											pos: position{line: 2873, col: 13, offset: 90813},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 13, offset: 90623},
+																													pos:        position{line: 2873, col: 13, offset: 90813},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 20, offset: 90630},
+																													pos:        position{line: 2873, col: 20, offset: 90820},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 29, offset: 90639},
+																													pos:        position{line: 2873, col: 29, offset: 90829},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8469,9 +8752,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2879, col: 8, offset: 90799},
+																										pos: position{line: 2883, col: 8, offset: 90989},
 																										expr: &anyMatcher{
-																											line: 2879, col: 9, offset: 90800,
+																											line: 2883, col: 9, offset: 90990,
 																										},
 																									},
 																								},
@@ -8481,15 +8764,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1066, col: 5, offset: 32793},
-																				run: (*parser).callonDocumentFragment985,
+																				pos: position{line: 1070, col: 5, offset: 32983},
+																				run: (*parser).callonDocumentFragment1045,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2879, col: 8, offset: 90799},
+																		pos: position{line: 2883, col: 8, offset: 90989},
 																		expr: &anyMatcher{
-																			line: 2879, col: 9, offset: 90800,
+																			line: 2883, col: 9, offset: 90990,
 																		},
 																	},
 																},
@@ -8500,17 +8783,17 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1081, col: 5, offset: 33101},
-											run: (*parser).callonDocumentFragment988,
+											pos: position{line: 1085, col: 5, offset: 33291},
+											run: (*parser).callonDocumentFragment1048,
 											expr: &seqExpr{
-												pos: position{line: 1081, col: 5, offset: 33101},
+												pos: position{line: 1085, col: 5, offset: 33291},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1081, col: 5, offset: 33101},
+														pos:   position{line: 1085, col: 5, offset: 33291},
 														label: "start",
 														expr: &actionExpr{
 															pos: position{line: 804, col: 5, offset: 25840},
-															run: (*parser).callonDocumentFragment991,
+															run: (*parser).callonDocumentFragment1051,
 															expr: &seqExpr{
 																pos: position{line: 804, col: 5, offset: 25840},
 																exprs: []interface{}{
@@ -8519,7 +8802,7 @@ var g = &grammar{
 																		label: "delimiter",
 																		expr: &actionExpr{
 																			pos: position{line: 804, col: 16, offset: 25851},
-																			run: (*parser).callonDocumentFragment994,
+																			run: (*parser).callonDocumentFragment1054,
 																			expr: &seqExpr{
 																				pos: position{line: 804, col: 16, offset: 25851},
 																				exprs: []interface{}{
@@ -8545,10 +8828,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 806, col: 8, offset: 25942},
 																		expr: &actionExpr{
-																			pos: position{line: 2860, col: 10, offset: 90451},
-																			run: (*parser).callonDocumentFragment1000,
+																			pos: position{line: 2864, col: 10, offset: 90641},
+																			run: (*parser).callonDocumentFragment1060,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2860, col: 10, offset: 90451},
+																				pos:        position{line: 2864, col: 10, offset: 90641},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8557,28 +8840,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2882, col: 8, offset: 90849},
+																		pos: position{line: 2886, col: 8, offset: 91039},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90622},
-																				run: (*parser).callonDocumentFragment1003,
+																				pos: position{line: 2873, col: 12, offset: 90812},
+																				run: (*parser).callonDocumentFragment1063,
 																				expr: &choiceExpr{
-																					pos: position{line: 2869, col: 13, offset: 90623},
+																					pos: position{line: 2873, col: 13, offset: 90813},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							pos:        position{line: 2873, col: 13, offset: 90813},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							pos:        position{line: 2873, col: 20, offset: 90820},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							pos:        position{line: 2873, col: 29, offset: 90829},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8587,9 +8870,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2879, col: 8, offset: 90799},
+																				pos: position{line: 2883, col: 8, offset: 90989},
 																				expr: &anyMatcher{
-																					line: 2879, col: 9, offset: 90800,
+																					line: 2883, col: 9, offset: 90990,
 																				},
 																			},
 																		},
@@ -8599,34 +8882,34 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1082, col: 5, offset: 33140},
-														run: (*parser).callonDocumentFragment1010,
+														pos: position{line: 1086, col: 5, offset: 33330},
+														run: (*parser).callonDocumentFragment1070,
 													},
 													&labeledExpr{
-														pos:   position{line: 1085, col: 5, offset: 33232},
+														pos:   position{line: 1089, col: 5, offset: 33422},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1100, col: 4, offset: 33629},
+															pos: position{line: 1104, col: 4, offset: 33819},
 															expr: &actionExpr{
-																pos: position{line: 1100, col: 5, offset: 33630},
-																run: (*parser).callonDocumentFragment1013,
+																pos: position{line: 1104, col: 5, offset: 33820},
+																run: (*parser).callonDocumentFragment1073,
 																expr: &seqExpr{
-																	pos: position{line: 1100, col: 5, offset: 33630},
+																	pos: position{line: 1104, col: 5, offset: 33820},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1100, col: 5, offset: 33630},
+																			pos: position{line: 1104, col: 5, offset: 33820},
 																			expr: &choiceExpr{
-																				pos: position{line: 1093, col: 5, offset: 33472},
+																				pos: position{line: 1097, col: 5, offset: 33662},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1093, col: 5, offset: 33472},
+																						pos: position{line: 1097, col: 5, offset: 33662},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1093, col: 5, offset: 33472},
+																								pos:   position{line: 1097, col: 5, offset: 33662},
 																								label: "end",
 																								expr: &actionExpr{
 																									pos: position{line: 804, col: 5, offset: 25840},
-																									run: (*parser).callonDocumentFragment1019,
+																									run: (*parser).callonDocumentFragment1079,
 																									expr: &seqExpr{
 																										pos: position{line: 804, col: 5, offset: 25840},
 																										exprs: []interface{}{
@@ -8635,7 +8918,7 @@ var g = &grammar{
 																												label: "delimiter",
 																												expr: &actionExpr{
 																													pos: position{line: 804, col: 16, offset: 25851},
-																													run: (*parser).callonDocumentFragment1022,
+																													run: (*parser).callonDocumentFragment1082,
 																													expr: &seqExpr{
 																														pos: position{line: 804, col: 16, offset: 25851},
 																														exprs: []interface{}{
@@ -8661,10 +8944,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 806, col: 8, offset: 25942},
 																												expr: &actionExpr{
-																													pos: position{line: 2860, col: 10, offset: 90451},
-																													run: (*parser).callonDocumentFragment1028,
+																													pos: position{line: 2864, col: 10, offset: 90641},
+																													run: (*parser).callonDocumentFragment1088,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2860, col: 10, offset: 90451},
+																														pos:        position{line: 2864, col: 10, offset: 90641},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8673,28 +8956,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2882, col: 8, offset: 90849},
+																												pos: position{line: 2886, col: 8, offset: 91039},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2869, col: 12, offset: 90622},
-																														run: (*parser).callonDocumentFragment1031,
+																														pos: position{line: 2873, col: 12, offset: 90812},
+																														run: (*parser).callonDocumentFragment1091,
 																														expr: &choiceExpr{
-																															pos: position{line: 2869, col: 13, offset: 90623},
+																															pos: position{line: 2873, col: 13, offset: 90813},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 13, offset: 90623},
+																																	pos:        position{line: 2873, col: 13, offset: 90813},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 20, offset: 90630},
+																																	pos:        position{line: 2873, col: 20, offset: 90820},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 29, offset: 90639},
+																																	pos:        position{line: 2873, col: 29, offset: 90829},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8703,9 +8986,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2879, col: 8, offset: 90799},
+																														pos: position{line: 2883, col: 8, offset: 90989},
 																														expr: &anyMatcher{
-																															line: 2879, col: 9, offset: 90800,
+																															line: 2883, col: 9, offset: 90990,
 																														},
 																													},
 																												},
@@ -8715,45 +8998,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1094, col: 5, offset: 33503},
-																								run: (*parser).callonDocumentFragment1038,
+																								pos: position{line: 1098, col: 5, offset: 33693},
+																								run: (*parser).callonDocumentFragment1098,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2879, col: 8, offset: 90799},
+																						pos: position{line: 2883, col: 8, offset: 90989},
 																						expr: &anyMatcher{
-																							line: 2879, col: 9, offset: 90800,
+																							line: 2883, col: 9, offset: 90990,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1101, col: 5, offset: 33660},
+																			pos:   position{line: 1105, col: 5, offset: 33850},
 																			label: "line",
 																			expr: &actionExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
-																				run: (*parser).callonDocumentFragment1042,
+																				run: (*parser).callonDocumentFragment1102,
 																				expr: &seqExpr{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2877, col: 11, offset: 90785},
+																							pos: position{line: 2881, col: 11, offset: 90975},
 																							expr: &anyMatcher{
-																								line: 2877, col: 13, offset: 90787,
+																								line: 2881, col: 13, offset: 90977,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2806, col: 13, offset: 88977},
-																								run: (*parser).callonDocumentFragment1047,
+																								pos: position{line: 2810, col: 13, offset: 89167},
+																								run: (*parser).callonDocumentFragment1107,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2806, col: 13, offset: 88977},
+																									pos: position{line: 2810, col: 13, offset: 89167},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2806, col: 13, offset: 88977},
+																										pos:        position{line: 2810, col: 13, offset: 89167},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8763,28 +9046,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
-																									run: (*parser).callonDocumentFragment1051,
+																									pos: position{line: 2873, col: 12, offset: 90812},
+																									run: (*parser).callonDocumentFragment1111,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8793,9 +9076,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -8810,22 +9093,22 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1086, col: 5, offset: 33266},
+														pos:   position{line: 1090, col: 5, offset: 33456},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1086, col: 9, offset: 33270},
+															pos: position{line: 1090, col: 9, offset: 33460},
 															expr: &choiceExpr{
-																pos: position{line: 1093, col: 5, offset: 33472},
+																pos: position{line: 1097, col: 5, offset: 33662},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1093, col: 5, offset: 33472},
+																		pos: position{line: 1097, col: 5, offset: 33662},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1093, col: 5, offset: 33472},
+																				pos:   position{line: 1097, col: 5, offset: 33662},
 																				label: "end",
 																				expr: &actionExpr{
 																					pos: position{line: 804, col: 5, offset: 25840},
-																					run: (*parser).callonDocumentFragment1063,
+																					run: (*parser).callonDocumentFragment1123,
 																					expr: &seqExpr{
 																						pos: position{line: 804, col: 5, offset: 25840},
 																						exprs: []interface{}{
@@ -8834,7 +9117,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 804, col: 16, offset: 25851},
-																									run: (*parser).callonDocumentFragment1066,
+																									run: (*parser).callonDocumentFragment1126,
 																									expr: &seqExpr{
 																										pos: position{line: 804, col: 16, offset: 25851},
 																										exprs: []interface{}{
@@ -8860,10 +9143,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 806, col: 8, offset: 25942},
 																								expr: &actionExpr{
-																									pos: position{line: 2860, col: 10, offset: 90451},
-																									run: (*parser).callonDocumentFragment1072,
+																									pos: position{line: 2864, col: 10, offset: 90641},
+																									run: (*parser).callonDocumentFragment1132,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2860, col: 10, offset: 90451},
+																										pos:        position{line: 2864, col: 10, offset: 90641},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8872,28 +9155,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2882, col: 8, offset: 90849},
+																								pos: position{line: 2886, col: 8, offset: 91039},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2869, col: 12, offset: 90622},
-																										run: (*parser).callonDocumentFragment1075,
+																										pos: position{line: 2873, col: 12, offset: 90812},
+																										run: (*parser).callonDocumentFragment1135,
 																										expr: &choiceExpr{
-																											pos: position{line: 2869, col: 13, offset: 90623},
+																											pos: position{line: 2873, col: 13, offset: 90813},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 13, offset: 90623},
+																													pos:        position{line: 2873, col: 13, offset: 90813},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 20, offset: 90630},
+																													pos:        position{line: 2873, col: 20, offset: 90820},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 29, offset: 90639},
+																													pos:        position{line: 2873, col: 29, offset: 90829},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8902,9 +9185,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2879, col: 8, offset: 90799},
+																										pos: position{line: 2883, col: 8, offset: 90989},
 																										expr: &anyMatcher{
-																											line: 2879, col: 9, offset: 90800,
+																											line: 2883, col: 9, offset: 90990,
 																										},
 																									},
 																								},
@@ -8914,15 +9197,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1094, col: 5, offset: 33503},
-																				run: (*parser).callonDocumentFragment1082,
+																				pos: position{line: 1098, col: 5, offset: 33693},
+																				run: (*parser).callonDocumentFragment1142,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2879, col: 8, offset: 90799},
+																		pos: position{line: 2883, col: 8, offset: 90989},
 																		expr: &anyMatcher{
-																			line: 2879, col: 9, offset: 90800,
+																			line: 2883, col: 9, offset: 90990,
 																		},
 																	},
 																},
@@ -8933,52 +9216,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2705, col: 18, offset: 86041},
-											run: (*parser).callonDocumentFragment1085,
+											pos: position{line: 2709, col: 18, offset: 86231},
+											run: (*parser).callonDocumentFragment1145,
 											expr: &seqExpr{
-												pos: position{line: 2705, col: 18, offset: 86041},
+												pos: position{line: 2709, col: 18, offset: 86231},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2706, col: 9, offset: 86051},
+														pos: position{line: 2710, col: 9, offset: 86241},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2706, col: 9, offset: 86051},
+																pos:        position{line: 2710, col: 9, offset: 86241},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2707, col: 11, offset: 86087},
+																pos:        position{line: 2711, col: 11, offset: 86277},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2707, col: 19, offset: 86095},
+																pos:        position{line: 2711, col: 19, offset: 86285},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2707, col: 29, offset: 86105},
+																pos:        position{line: 2711, col: 29, offset: 86295},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2707, col: 37, offset: 86113},
+																pos:        position{line: 2711, col: 37, offset: 86303},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2707, col: 47, offset: 86123},
+																pos:        position{line: 2711, col: 47, offset: 86313},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2707, col: 55, offset: 86131},
+																pos:        position{line: 2711, col: 55, offset: 86321},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -8986,12 +9269,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2708, col: 11, offset: 86189},
+														pos: position{line: 2712, col: 11, offset: 86379},
 														expr: &actionExpr{
-															pos: position{line: 2860, col: 10, offset: 90451},
-															run: (*parser).callonDocumentFragment1096,
+															pos: position{line: 2864, col: 10, offset: 90641},
+															run: (*parser).callonDocumentFragment1156,
 															expr: &charClassMatcher{
-																pos:        position{line: 2860, col: 10, offset: 90451},
+																pos:        position{line: 2864, col: 10, offset: 90641},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9000,28 +9283,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2882, col: 8, offset: 90849},
+														pos: position{line: 2886, col: 8, offset: 91039},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2869, col: 12, offset: 90622},
-																run: (*parser).callonDocumentFragment1099,
+																pos: position{line: 2873, col: 12, offset: 90812},
+																run: (*parser).callonDocumentFragment1159,
 																expr: &choiceExpr{
-																	pos: position{line: 2869, col: 13, offset: 90623},
+																	pos: position{line: 2873, col: 13, offset: 90813},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 13, offset: 90623},
+																			pos:        position{line: 2873, col: 13, offset: 90813},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 20, offset: 90630},
+																			pos:        position{line: 2873, col: 20, offset: 90820},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 29, offset: 90639},
+																			pos:        position{line: 2873, col: 29, offset: 90829},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9030,36 +9313,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2879, col: 8, offset: 90799},
+																pos: position{line: 2883, col: 8, offset: 90989},
 																expr: &anyMatcher{
-																	line: 2879, col: 9, offset: 90800,
+																	line: 2883, col: 9, offset: 90990,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2882, col: 8, offset: 90849},
+														pos: position{line: 2886, col: 8, offset: 91039},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2869, col: 12, offset: 90622},
-																run: (*parser).callonDocumentFragment1107,
+																pos: position{line: 2873, col: 12, offset: 90812},
+																run: (*parser).callonDocumentFragment1167,
 																expr: &choiceExpr{
-																	pos: position{line: 2869, col: 13, offset: 90623},
+																	pos: position{line: 2873, col: 13, offset: 90813},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 13, offset: 90623},
+																			pos:        position{line: 2873, col: 13, offset: 90813},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 20, offset: 90630},
+																			pos:        position{line: 2873, col: 20, offset: 90820},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 29, offset: 90639},
+																			pos:        position{line: 2873, col: 29, offset: 90829},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9068,9 +9351,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2879, col: 8, offset: 90799},
+																pos: position{line: 2883, col: 8, offset: 90989},
 																expr: &anyMatcher{
-																	line: 2879, col: 9, offset: 90800,
+																	line: 2883, col: 9, offset: 90990,
 																},
 															},
 														},
@@ -9083,24 +9366,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2596, col: 5, offset: 82977},
-											run: (*parser).callonDocumentFragment1115,
+											pos: position{line: 2600, col: 5, offset: 83167},
+											run: (*parser).callonDocumentFragment1175,
 											expr: &seqExpr{
-												pos: position{line: 2596, col: 5, offset: 82977},
+												pos: position{line: 2600, col: 5, offset: 83167},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2602, col: 19, offset: 83134},
+														pos:        position{line: 2606, col: 19, offset: 83324},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2602, col: 26, offset: 83141},
+														pos: position{line: 2606, col: 26, offset: 83331},
 														expr: &actionExpr{
-															pos: position{line: 2860, col: 10, offset: 90451},
-															run: (*parser).callonDocumentFragment1119,
+															pos: position{line: 2864, col: 10, offset: 90641},
+															run: (*parser).callonDocumentFragment1179,
 															expr: &charClassMatcher{
-																pos:        position{line: 2860, col: 10, offset: 90451},
+																pos:        position{line: 2864, col: 10, offset: 90641},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9109,28 +9392,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2882, col: 8, offset: 90849},
+														pos: position{line: 2886, col: 8, offset: 91039},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2869, col: 12, offset: 90622},
-																run: (*parser).callonDocumentFragment1122,
+																pos: position{line: 2873, col: 12, offset: 90812},
+																run: (*parser).callonDocumentFragment1182,
 																expr: &choiceExpr{
-																	pos: position{line: 2869, col: 13, offset: 90623},
+																	pos: position{line: 2873, col: 13, offset: 90813},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 13, offset: 90623},
+																			pos:        position{line: 2873, col: 13, offset: 90813},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 20, offset: 90630},
+																			pos:        position{line: 2873, col: 20, offset: 90820},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 29, offset: 90639},
+																			pos:        position{line: 2873, col: 29, offset: 90829},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9139,40 +9422,40 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2879, col: 8, offset: 90799},
+																pos: position{line: 2883, col: 8, offset: 90989},
 																expr: &anyMatcher{
-																	line: 2879, col: 9, offset: 90800,
+																	line: 2883, col: 9, offset: 90990,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2597, col: 5, offset: 83001},
+														pos:   position{line: 2601, col: 5, offset: 83191},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2597, col: 11, offset: 83007},
+															pos: position{line: 2601, col: 11, offset: 83197},
 															expr: &choiceExpr{
-																pos: position{line: 2597, col: 12, offset: 83008},
+																pos: position{line: 2601, col: 12, offset: 83198},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
-																		run: (*parser).callonDocumentFragment1132,
+																		run: (*parser).callonDocumentFragment1192,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2877, col: 11, offset: 90785},
+																					pos: position{line: 2881, col: 11, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2877, col: 13, offset: 90787,
+																						line: 2881, col: 13, offset: 90977,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2860, col: 10, offset: 90451},
-																						run: (*parser).callonDocumentFragment1137,
+																						pos: position{line: 2864, col: 10, offset: 90641},
+																						run: (*parser).callonDocumentFragment1197,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2860, col: 10, offset: 90451},
+																							pos:        position{line: 2864, col: 10, offset: 90641},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9181,28 +9464,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2882, col: 8, offset: 90849},
+																					pos: position{line: 2886, col: 8, offset: 91039},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2869, col: 12, offset: 90622},
-																							run: (*parser).callonDocumentFragment1140,
+																							pos: position{line: 2873, col: 12, offset: 90812},
+																							run: (*parser).callonDocumentFragment1200,
 																							expr: &choiceExpr{
-																								pos: position{line: 2869, col: 13, offset: 90623},
+																								pos: position{line: 2873, col: 13, offset: 90813},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2869, col: 13, offset: 90623},
+																										pos:        position{line: 2873, col: 13, offset: 90813},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2869, col: 20, offset: 90630},
+																										pos:        position{line: 2873, col: 20, offset: 90820},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2869, col: 29, offset: 90639},
+																										pos:        position{line: 2873, col: 29, offset: 90829},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9211,9 +9494,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2879, col: 8, offset: 90799},
+																							pos: position{line: 2883, col: 8, offset: 90989},
 																							expr: &anyMatcher{
-																								line: 2879, col: 9, offset: 90800,
+																								line: 2883, col: 9, offset: 90990,
 																							},
 																						},
 																					},
@@ -9222,32 +9505,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2609, col: 5, offset: 83253},
-																		run: (*parser).callonDocumentFragment1147,
+																		pos: position{line: 2613, col: 5, offset: 83443},
+																		run: (*parser).callonDocumentFragment1207,
 																		expr: &seqExpr{
-																			pos: position{line: 2609, col: 5, offset: 83253},
+																			pos: position{line: 2613, col: 5, offset: 83443},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2609, col: 5, offset: 83253},
+																					pos: position{line: 2613, col: 5, offset: 83443},
 																					expr: &choiceExpr{
-																						pos: position{line: 2606, col: 22, offset: 83214},
+																						pos: position{line: 2610, col: 22, offset: 83404},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2602, col: 19, offset: 83134},
+																								pos: position{line: 2606, col: 19, offset: 83324},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2602, col: 19, offset: 83134},
+																										pos:        position{line: 2606, col: 19, offset: 83324},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2602, col: 26, offset: 83141},
+																										pos: position{line: 2606, col: 26, offset: 83331},
 																										expr: &actionExpr{
-																											pos: position{line: 2860, col: 10, offset: 90451},
-																											run: (*parser).callonDocumentFragment1154,
+																											pos: position{line: 2864, col: 10, offset: 90641},
+																											run: (*parser).callonDocumentFragment1214,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2860, col: 10, offset: 90451},
+																												pos:        position{line: 2864, col: 10, offset: 90641},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9256,28 +9539,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2882, col: 8, offset: 90849},
+																										pos: position{line: 2886, col: 8, offset: 91039},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2869, col: 12, offset: 90622},
-																												run: (*parser).callonDocumentFragment1157,
+																												pos: position{line: 2873, col: 12, offset: 90812},
+																												run: (*parser).callonDocumentFragment1217,
 																												expr: &choiceExpr{
-																													pos: position{line: 2869, col: 13, offset: 90623},
+																													pos: position{line: 2873, col: 13, offset: 90813},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2869, col: 13, offset: 90623},
+																															pos:        position{line: 2873, col: 13, offset: 90813},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2869, col: 20, offset: 90630},
+																															pos:        position{line: 2873, col: 20, offset: 90820},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2869, col: 29, offset: 90639},
+																															pos:        position{line: 2873, col: 29, offset: 90829},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9286,9 +9569,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2879, col: 8, offset: 90799},
+																												pos: position{line: 2883, col: 8, offset: 90989},
 																												expr: &anyMatcher{
-																													line: 2879, col: 9, offset: 90800,
+																													line: 2883, col: 9, offset: 90990,
 																												},
 																											},
 																										},
@@ -9296,59 +9579,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
+																								pos: position{line: 2883, col: 8, offset: 90989},
 																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																									line: 2883, col: 9, offset: 90990,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2610, col: 5, offset: 83276},
+																					pos:   position{line: 2614, col: 5, offset: 83466},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2611, col: 9, offset: 83294},
+																						pos: position{line: 2615, col: 9, offset: 83484},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2611, col: 10, offset: 83295},
-																								run: (*parser).callonDocumentFragment1168,
+																								pos: position{line: 2615, col: 10, offset: 83485},
+																								run: (*parser).callonDocumentFragment1228,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2611, col: 10, offset: 83295},
+																									pos:   position{line: 2615, col: 10, offset: 83485},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2611, col: 17, offset: 83302},
+																										pos: position{line: 2615, col: 17, offset: 83492},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2619, col: 21, offset: 83498},
-																												run: (*parser).callonDocumentFragment1171,
+																												pos: position{line: 2623, col: 21, offset: 83688},
+																												run: (*parser).callonDocumentFragment1231,
 																												expr: &seqExpr{
-																													pos: position{line: 2619, col: 21, offset: 83498},
+																													pos: position{line: 2623, col: 21, offset: 83688},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2619, col: 21, offset: 83498},
+																															pos:   position{line: 2623, col: 21, offset: 83688},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2619, col: 27, offset: 83504},
+																																pos: position{line: 2623, col: 27, offset: 83694},
 																																expr: &actionExpr{
-																																	pos: position{line: 2624, col: 5, offset: 83579},
-																																	run: (*parser).callonDocumentFragment1175,
+																																	pos: position{line: 2628, col: 5, offset: 83769},
+																																	run: (*parser).callonDocumentFragment1235,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2624, col: 5, offset: 83579},
+																																		pos: position{line: 2628, col: 5, offset: 83769},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2624, col: 5, offset: 83579},
+																																				pos:        position{line: 2628, col: 5, offset: 83769},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2624, col: 9, offset: 83583},
+																																				pos: position{line: 2628, col: 9, offset: 83773},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2860, col: 10, offset: 90451},
-																																					run: (*parser).callonDocumentFragment1179,
+																																					pos: position{line: 2864, col: 10, offset: 90641},
+																																					run: (*parser).callonDocumentFragment1239,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2860, col: 10, offset: 90451},
+																																						pos:        position{line: 2864, col: 10, offset: 90641},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9357,21 +9640,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2624, col: 16, offset: 83590},
+																																				pos:   position{line: 2628, col: 16, offset: 83780},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2630, col: 5, offset: 83790},
-																																					run: (*parser).callonDocumentFragment1182,
+																																					pos: position{line: 2634, col: 5, offset: 83980},
+																																					run: (*parser).callonDocumentFragment1242,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2630, col: 5, offset: 83790},
+																																						pos:   position{line: 2634, col: 5, offset: 83980},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2630, col: 14, offset: 83799},
-																																							run: (*parser).callonDocumentFragment1184,
+																																							pos: position{line: 2634, col: 14, offset: 83989},
+																																							run: (*parser).callonDocumentFragment1244,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2630, col: 14, offset: 83799},
+																																								pos: position{line: 2634, col: 14, offset: 83989},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2630, col: 14, offset: 83799},
+																																									pos:        position{line: 2634, col: 14, offset: 83989},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9388,28 +9671,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2882, col: 8, offset: 90849},
+																															pos: position{line: 2886, col: 8, offset: 91039},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2869, col: 12, offset: 90622},
-																																	run: (*parser).callonDocumentFragment1188,
+																																	pos: position{line: 2873, col: 12, offset: 90812},
+																																	run: (*parser).callonDocumentFragment1248,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2869, col: 13, offset: 90623},
+																																		pos: position{line: 2873, col: 13, offset: 90813},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2869, col: 13, offset: 90623},
+																																				pos:        position{line: 2873, col: 13, offset: 90813},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2869, col: 20, offset: 90630},
+																																				pos:        position{line: 2873, col: 20, offset: 90820},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2869, col: 29, offset: 90639},
+																																				pos:        position{line: 2873, col: 29, offset: 90829},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9418,9 +9701,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2879, col: 8, offset: 90799},
+																																	pos: position{line: 2883, col: 8, offset: 90989},
 																																	expr: &anyMatcher{
-																																		line: 2879, col: 9, offset: 90800,
+																																		line: 2883, col: 9, offset: 90990,
 																																	},
 																																},
 																															},
@@ -9429,40 +9712,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2636, col: 24, offset: 83935},
-																												run: (*parser).callonDocumentFragment1195,
+																												pos: position{line: 2640, col: 24, offset: 84125},
+																												run: (*parser).callonDocumentFragment1255,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2636, col: 24, offset: 83935},
+																													pos:   position{line: 2640, col: 24, offset: 84125},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2636, col: 30, offset: 83941},
+																														pos: position{line: 2640, col: 30, offset: 84131},
 																														expr: &actionExpr{
-																															pos: position{line: 2641, col: 5, offset: 84017},
-																															run: (*parser).callonDocumentFragment1198,
+																															pos: position{line: 2645, col: 5, offset: 84207},
+																															run: (*parser).callonDocumentFragment1258,
 																															expr: &seqExpr{
-																																pos: position{line: 2641, col: 5, offset: 84017},
+																																pos: position{line: 2645, col: 5, offset: 84207},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2641, col: 5, offset: 84017},
+																																		pos: position{line: 2645, col: 5, offset: 84207},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2606, col: 22, offset: 83214},
+																																			pos: position{line: 2610, col: 22, offset: 83404},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2602, col: 19, offset: 83134},
+																																					pos: position{line: 2606, col: 19, offset: 83324},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2602, col: 19, offset: 83134},
+																																							pos:        position{line: 2606, col: 19, offset: 83324},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2602, col: 26, offset: 83141},
+																																							pos: position{line: 2606, col: 26, offset: 83331},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2860, col: 10, offset: 90451},
-																																								run: (*parser).callonDocumentFragment1205,
+																																								pos: position{line: 2864, col: 10, offset: 90641},
+																																								run: (*parser).callonDocumentFragment1265,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2860, col: 10, offset: 90451},
+																																									pos:        position{line: 2864, col: 10, offset: 90641},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9471,28 +9754,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2882, col: 8, offset: 90849},
+																																							pos: position{line: 2886, col: 8, offset: 91039},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2869, col: 12, offset: 90622},
-																																									run: (*parser).callonDocumentFragment1208,
+																																									pos: position{line: 2873, col: 12, offset: 90812},
+																																									run: (*parser).callonDocumentFragment1268,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2869, col: 13, offset: 90623},
+																																										pos: position{line: 2873, col: 13, offset: 90813},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2869, col: 13, offset: 90623},
+																																												pos:        position{line: 2873, col: 13, offset: 90813},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2869, col: 20, offset: 90630},
+																																												pos:        position{line: 2873, col: 20, offset: 90820},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2869, col: 29, offset: 90639},
+																																												pos:        position{line: 2873, col: 29, offset: 90829},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9501,9 +9784,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2879, col: 8, offset: 90799},
+																																									pos: position{line: 2883, col: 8, offset: 90989},
 																																									expr: &anyMatcher{
-																																										line: 2879, col: 9, offset: 90800,
+																																										line: 2883, col: 9, offset: 90990,
 																																									},
 																																								},
 																																							},
@@ -9511,35 +9794,35 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2879, col: 8, offset: 90799},
+																																					pos: position{line: 2883, col: 8, offset: 90989},
 																																					expr: &anyMatcher{
-																																						line: 2879, col: 9, offset: 90800,
+																																						line: 2883, col: 9, offset: 90990,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2642, col: 5, offset: 84040},
+																																		pos: position{line: 2646, col: 5, offset: 84230},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21489},
-																																			run: (*parser).callonDocumentFragment1218,
+																																			run: (*parser).callonDocumentFragment1278,
 																																			expr: &seqExpr{
 																																				pos: position{line: 677, col: 14, offset: 21489},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2877, col: 11, offset: 90785},
+																																						pos: position{line: 2881, col: 11, offset: 90975},
 																																						expr: &anyMatcher{
-																																							line: 2877, col: 13, offset: 90787,
+																																							line: 2881, col: 13, offset: 90977,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 677, col: 21, offset: 21496},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2860, col: 10, offset: 90451},
-																																							run: (*parser).callonDocumentFragment1223,
+																																							pos: position{line: 2864, col: 10, offset: 90641},
+																																							run: (*parser).callonDocumentFragment1283,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2860, col: 10, offset: 90451},
+																																								pos:        position{line: 2864, col: 10, offset: 90641},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9548,28 +9831,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2882, col: 8, offset: 90849},
+																																						pos: position{line: 2886, col: 8, offset: 91039},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2869, col: 12, offset: 90622},
-																																								run: (*parser).callonDocumentFragment1226,
+																																								pos: position{line: 2873, col: 12, offset: 90812},
+																																								run: (*parser).callonDocumentFragment1286,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2869, col: 13, offset: 90623},
+																																									pos: position{line: 2873, col: 13, offset: 90813},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2869, col: 13, offset: 90623},
+																																											pos:        position{line: 2873, col: 13, offset: 90813},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2869, col: 20, offset: 90630},
+																																											pos:        position{line: 2873, col: 20, offset: 90820},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2869, col: 29, offset: 90639},
+																																											pos:        position{line: 2873, col: 29, offset: 90829},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9578,9 +9861,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2879, col: 8, offset: 90799},
+																																								pos: position{line: 2883, col: 8, offset: 90989},
 																																								expr: &anyMatcher{
-																																									line: 2879, col: 9, offset: 90800,
+																																									line: 2883, col: 9, offset: 90990,
 																																								},
 																																							},
 																																						},
@@ -9590,17 +9873,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2643, col: 5, offset: 84055},
+																																		pos:   position{line: 2647, col: 5, offset: 84245},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2643, col: 12, offset: 84062},
+																																			pos: position{line: 2647, col: 12, offset: 84252},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2660, col: 20, offset: 84526},
-																																				run: (*parser).callonDocumentFragment1235,
+																																				pos: position{line: 2664, col: 20, offset: 84716},
+																																				run: (*parser).callonDocumentFragment1295,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2660, col: 20, offset: 84526},
+																																					pos: position{line: 2664, col: 20, offset: 84716},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2660, col: 20, offset: 84526},
+																																						pos:        position{line: 2664, col: 20, offset: 84716},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9611,18 +9894,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2643, col: 31, offset: 84081},
+																																		pos:        position{line: 2647, col: 31, offset: 84271},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2643, col: 35, offset: 84085},
+																																		pos: position{line: 2647, col: 35, offset: 84275},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2860, col: 10, offset: 90451},
-																																			run: (*parser).callonDocumentFragment1240,
+																																			pos: position{line: 2864, col: 10, offset: 90641},
+																																			run: (*parser).callonDocumentFragment1300,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2860, col: 10, offset: 90451},
+																																				pos:        position{line: 2864, col: 10, offset: 90641},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9631,27 +9914,27 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2643, col: 42, offset: 84092},
+																																		pos: position{line: 2647, col: 42, offset: 84282},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2869, col: 12, offset: 90622},
-																																			run: (*parser).callonDocumentFragment1243,
+																																			pos: position{line: 2873, col: 12, offset: 90812},
+																																			run: (*parser).callonDocumentFragment1303,
 																																			expr: &choiceExpr{
-																																				pos: position{line: 2869, col: 13, offset: 90623},
+																																				pos: position{line: 2873, col: 13, offset: 90813},
 																																				alternatives: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2869, col: 13, offset: 90623},
+																																						pos:        position{line: 2873, col: 13, offset: 90813},
 																																						val:        "\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2869, col: 20, offset: 90630},
+																																						pos:        position{line: 2873, col: 20, offset: 90820},
 																																						val:        "\r\n",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\\n\"",
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2869, col: 29, offset: 90639},
+																																						pos:        position{line: 2873, col: 29, offset: 90829},
 																																						val:        "\r",
 																																						ignoreCase: false,
 																																						want:       "\"\\r\"",
@@ -9661,37 +9944,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2643, col: 51, offset: 84101},
+																																		pos:   position{line: 2647, col: 51, offset: 84291},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2649, col: 5, offset: 84260},
+																																			pos: position{line: 2653, col: 5, offset: 84450},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2650, col: 9, offset: 84270},
-																																				run: (*parser).callonDocumentFragment1250,
+																																				pos: position{line: 2654, col: 9, offset: 84460},
+																																				run: (*parser).callonDocumentFragment1310,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2650, col: 9, offset: 84270},
+																																					pos: position{line: 2654, col: 9, offset: 84460},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2650, col: 9, offset: 84270},
+																																							pos: position{line: 2654, col: 9, offset: 84460},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2606, col: 22, offset: 83214},
+																																								pos: position{line: 2610, col: 22, offset: 83404},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2602, col: 19, offset: 83134},
+																																										pos: position{line: 2606, col: 19, offset: 83324},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2602, col: 19, offset: 83134},
+																																												pos:        position{line: 2606, col: 19, offset: 83324},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2602, col: 26, offset: 83141},
+																																												pos: position{line: 2606, col: 26, offset: 83331},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2860, col: 10, offset: 90451},
-																																													run: (*parser).callonDocumentFragment1257,
+																																													pos: position{line: 2864, col: 10, offset: 90641},
+																																													run: (*parser).callonDocumentFragment1317,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2860, col: 10, offset: 90451},
+																																														pos:        position{line: 2864, col: 10, offset: 90641},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9700,28 +9983,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2882, col: 8, offset: 90849},
+																																												pos: position{line: 2886, col: 8, offset: 91039},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2869, col: 12, offset: 90622},
-																																														run: (*parser).callonDocumentFragment1260,
+																																														pos: position{line: 2873, col: 12, offset: 90812},
+																																														run: (*parser).callonDocumentFragment1320,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2869, col: 13, offset: 90623},
+																																															pos: position{line: 2873, col: 13, offset: 90813},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2869, col: 13, offset: 90623},
+																																																	pos:        position{line: 2873, col: 13, offset: 90813},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2869, col: 20, offset: 90630},
+																																																	pos:        position{line: 2873, col: 20, offset: 90820},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2869, col: 29, offset: 90639},
+																																																	pos:        position{line: 2873, col: 29, offset: 90829},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -9730,9 +10013,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2879, col: 8, offset: 90799},
+																																														pos: position{line: 2883, col: 8, offset: 90989},
 																																														expr: &anyMatcher{
-																																															line: 2879, col: 9, offset: 90800,
+																																															line: 2883, col: 9, offset: 90990,
 																																														},
 																																													},
 																																												},
@@ -9740,35 +10023,35 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2879, col: 8, offset: 90799},
+																																										pos: position{line: 2883, col: 8, offset: 90989},
 																																										expr: &anyMatcher{
-																																											line: 2879, col: 9, offset: 90800,
+																																											line: 2883, col: 9, offset: 90990,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2651, col: 9, offset: 84297},
+																																							pos: position{line: 2655, col: 9, offset: 84487},
 																																							expr: &actionExpr{
 																																								pos: position{line: 677, col: 14, offset: 21489},
-																																								run: (*parser).callonDocumentFragment1270,
+																																								run: (*parser).callonDocumentFragment1330,
 																																								expr: &seqExpr{
 																																									pos: position{line: 677, col: 14, offset: 21489},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2877, col: 11, offset: 90785},
+																																											pos: position{line: 2881, col: 11, offset: 90975},
 																																											expr: &anyMatcher{
-																																												line: 2877, col: 13, offset: 90787,
+																																												line: 2881, col: 13, offset: 90977,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 677, col: 21, offset: 21496},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2860, col: 10, offset: 90451},
-																																												run: (*parser).callonDocumentFragment1275,
+																																												pos: position{line: 2864, col: 10, offset: 90641},
+																																												run: (*parser).callonDocumentFragment1335,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2860, col: 10, offset: 90451},
+																																													pos:        position{line: 2864, col: 10, offset: 90641},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9777,28 +10060,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2882, col: 8, offset: 90849},
+																																											pos: position{line: 2886, col: 8, offset: 91039},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2869, col: 12, offset: 90622},
-																																													run: (*parser).callonDocumentFragment1278,
+																																													pos: position{line: 2873, col: 12, offset: 90812},
+																																													run: (*parser).callonDocumentFragment1338,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2869, col: 13, offset: 90623},
+																																														pos: position{line: 2873, col: 13, offset: 90813},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																																pos:        position{line: 2873, col: 13, offset: 90813},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																																pos:        position{line: 2873, col: 20, offset: 90820},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																																pos:        position{line: 2873, col: 29, offset: 90829},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9807,9 +10090,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2879, col: 8, offset: 90799},
+																																													pos: position{line: 2883, col: 8, offset: 90989},
 																																													expr: &anyMatcher{
-																																														line: 2879, col: 9, offset: 90800,
+																																														line: 2883, col: 9, offset: 90990,
 																																													},
 																																												},
 																																											},
@@ -9819,22 +10102,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2652, col: 9, offset: 84316},
+																																							pos: position{line: 2656, col: 9, offset: 84506},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2652, col: 11, offset: 84318},
+																																								pos: position{line: 2656, col: 11, offset: 84508},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2652, col: 11, offset: 84318},
+																																										pos:   position{line: 2656, col: 11, offset: 84508},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2652, col: 18, offset: 84325},
+																																											pos: position{line: 2656, col: 18, offset: 84515},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2660, col: 20, offset: 84526},
-																																												run: (*parser).callonDocumentFragment1289,
+																																												pos: position{line: 2664, col: 20, offset: 84716},
+																																												run: (*parser).callonDocumentFragment1349,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2660, col: 20, offset: 84526},
+																																													pos: position{line: 2664, col: 20, offset: 84716},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2660, col: 20, offset: 84526},
+																																														pos:        position{line: 2664, col: 20, offset: 84716},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -9845,7 +10128,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2652, col: 37, offset: 84344},
+																																										pos:        position{line: 2656, col: 37, offset: 84534},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -9854,15 +10137,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2653, col: 9, offset: 84357},
+																																							pos:   position{line: 2657, col: 9, offset: 84547},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2653, col: 18, offset: 84366},
-																																								run: (*parser).callonDocumentFragment1294,
+																																								pos: position{line: 2657, col: 18, offset: 84556},
+																																								run: (*parser).callonDocumentFragment1354,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2653, col: 18, offset: 84366},
+																																									pos: position{line: 2657, col: 18, offset: 84556},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2653, col: 18, offset: 84366},
+																																										pos:        position{line: 2657, col: 18, offset: 84556},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9872,30 +10155,30 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2655, col: 12, offset: 84428},
+																																							pos: position{line: 2659, col: 12, offset: 84618},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2882, col: 8, offset: 90849},
+																																								pos: position{line: 2886, col: 8, offset: 91039},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2869, col: 12, offset: 90622},
-																																										run: (*parser).callonDocumentFragment1299,
+																																										pos: position{line: 2873, col: 12, offset: 90812},
+																																										run: (*parser).callonDocumentFragment1359,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2869, col: 13, offset: 90623},
+																																											pos: position{line: 2873, col: 13, offset: 90813},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2869, col: 13, offset: 90623},
+																																													pos:        position{line: 2873, col: 13, offset: 90813},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2869, col: 20, offset: 90630},
+																																													pos:        position{line: 2873, col: 20, offset: 90820},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2869, col: 29, offset: 90639},
+																																													pos:        position{line: 2873, col: 29, offset: 90829},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -9904,9 +10187,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2879, col: 8, offset: 90799},
+																																										pos: position{line: 2883, col: 8, offset: 90989},
 																																										expr: &anyMatcher{
-																																											line: 2879, col: 9, offset: 90800,
+																																											line: 2883, col: 9, offset: 90990,
 																																										},
 																																									},
 																																								},
@@ -9929,23 +10212,23 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 677, col: 14, offset: 21489},
-																								run: (*parser).callonDocumentFragment1306,
+																								run: (*parser).callonDocumentFragment1366,
 																								expr: &seqExpr{
 																									pos: position{line: 677, col: 14, offset: 21489},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2877, col: 11, offset: 90785},
+																											pos: position{line: 2881, col: 11, offset: 90975},
 																											expr: &anyMatcher{
-																												line: 2877, col: 13, offset: 90787,
+																												line: 2881, col: 13, offset: 90977,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 677, col: 21, offset: 21496},
 																											expr: &actionExpr{
-																												pos: position{line: 2860, col: 10, offset: 90451},
-																												run: (*parser).callonDocumentFragment1311,
+																												pos: position{line: 2864, col: 10, offset: 90641},
+																												run: (*parser).callonDocumentFragment1371,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2860, col: 10, offset: 90451},
+																													pos:        position{line: 2864, col: 10, offset: 90641},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -9954,28 +10237,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2882, col: 8, offset: 90849},
+																											pos: position{line: 2886, col: 8, offset: 91039},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2869, col: 12, offset: 90622},
-																													run: (*parser).callonDocumentFragment1314,
+																													pos: position{line: 2873, col: 12, offset: 90812},
+																													run: (*parser).callonDocumentFragment1374,
 																													expr: &choiceExpr{
-																														pos: position{line: 2869, col: 13, offset: 90623},
+																														pos: position{line: 2873, col: 13, offset: 90813},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																pos:        position{line: 2873, col: 13, offset: 90813},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																pos:        position{line: 2873, col: 20, offset: 90820},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																pos:        position{line: 2873, col: 29, offset: 90829},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -9984,9 +10267,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2879, col: 8, offset: 90799},
+																													pos: position{line: 2883, col: 8, offset: 90989},
 																													expr: &anyMatcher{
-																														line: 2879, col: 9, offset: 90800,
+																														line: 2883, col: 9, offset: 90990,
 																													},
 																												},
 																											},
@@ -10005,24 +10288,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2606, col: 22, offset: 83214},
+														pos: position{line: 2610, col: 22, offset: 83404},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2602, col: 19, offset: 83134},
+																pos: position{line: 2606, col: 19, offset: 83324},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2602, col: 19, offset: 83134},
+																		pos:        position{line: 2606, col: 19, offset: 83324},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2602, col: 26, offset: 83141},
+																		pos: position{line: 2606, col: 26, offset: 83331},
 																		expr: &actionExpr{
-																			pos: position{line: 2860, col: 10, offset: 90451},
-																			run: (*parser).callonDocumentFragment1325,
+																			pos: position{line: 2864, col: 10, offset: 90641},
+																			run: (*parser).callonDocumentFragment1385,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2860, col: 10, offset: 90451},
+																				pos:        position{line: 2864, col: 10, offset: 90641},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10031,28 +10314,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2882, col: 8, offset: 90849},
+																		pos: position{line: 2886, col: 8, offset: 91039},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90622},
-																				run: (*parser).callonDocumentFragment1328,
+																				pos: position{line: 2873, col: 12, offset: 90812},
+																				run: (*parser).callonDocumentFragment1388,
 																				expr: &choiceExpr{
-																					pos: position{line: 2869, col: 13, offset: 90623},
+																					pos: position{line: 2873, col: 13, offset: 90813},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							pos:        position{line: 2873, col: 13, offset: 90813},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							pos:        position{line: 2873, col: 20, offset: 90820},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							pos:        position{line: 2873, col: 29, offset: 90829},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10061,9 +10344,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2879, col: 8, offset: 90799},
+																				pos: position{line: 2883, col: 8, offset: 90989},
 																				expr: &anyMatcher{
-																					line: 2879, col: 9, offset: 90800,
+																					line: 2883, col: 9, offset: 90990,
 																				},
 																			},
 																		},
@@ -10071,9 +10354,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2879, col: 8, offset: 90799},
+																pos: position{line: 2883, col: 8, offset: 90989},
 																expr: &anyMatcher{
-																	line: 2879, col: 9, offset: 90800,
+																	line: 2883, col: 9, offset: 90990,
 																},
 															},
 														},
@@ -10082,36 +10365,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2470, col: 22, offset: 79436},
-											run: (*parser).callonDocumentFragment1337,
+											pos: position{line: 2474, col: 22, offset: 79626},
+											run: (*parser).callonDocumentFragment1397,
 											expr: &seqExpr{
-												pos: position{line: 2470, col: 22, offset: 79436},
+												pos: position{line: 2474, col: 22, offset: 79626},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2475, col: 31, offset: 79657},
+														pos:        position{line: 2479, col: 31, offset: 79847},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2475, col: 36, offset: 79662},
+														pos: position{line: 2479, col: 36, offset: 79852},
 														expr: &litMatcher{
-															pos:        position{line: 2475, col: 37, offset: 79663},
+															pos:        position{line: 2479, col: 37, offset: 79853},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2470, col: 49, offset: 79463},
+														pos:   position{line: 2474, col: 49, offset: 79653},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2806, col: 13, offset: 88977},
-															run: (*parser).callonDocumentFragment1343,
+															pos: position{line: 2810, col: 13, offset: 89167},
+															run: (*parser).callonDocumentFragment1403,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2806, col: 13, offset: 88977},
+																pos: position{line: 2810, col: 13, offset: 89167},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2806, col: 13, offset: 88977},
+																	pos:        position{line: 2810, col: 13, offset: 89167},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10121,28 +10404,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2882, col: 8, offset: 90849},
+														pos: position{line: 2886, col: 8, offset: 91039},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2869, col: 12, offset: 90622},
-																run: (*parser).callonDocumentFragment1347,
+																pos: position{line: 2873, col: 12, offset: 90812},
+																run: (*parser).callonDocumentFragment1407,
 																expr: &choiceExpr{
-																	pos: position{line: 2869, col: 13, offset: 90623},
+																	pos: position{line: 2873, col: 13, offset: 90813},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 13, offset: 90623},
+																			pos:        position{line: 2873, col: 13, offset: 90813},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 20, offset: 90630},
+																			pos:        position{line: 2873, col: 20, offset: 90820},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 29, offset: 90639},
+																			pos:        position{line: 2873, col: 29, offset: 90829},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10151,9 +10434,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2879, col: 8, offset: 90799},
+																pos: position{line: 2883, col: 8, offset: 90989},
 																expr: &anyMatcher{
-																	line: 2879, col: 9, offset: 90800,
+																	line: 2883, col: 9, offset: 90990,
 																},
 															},
 														},
@@ -10162,37 +10445,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1230, col: 5, offset: 38078},
-											run: (*parser).callonDocumentFragment1354,
+											pos: position{line: 1234, col: 5, offset: 38268},
+											run: (*parser).callonDocumentFragment1414,
 											expr: &seqExpr{
-												pos: position{line: 1230, col: 5, offset: 38078},
+												pos: position{line: 1234, col: 5, offset: 38268},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1230, col: 5, offset: 38078},
-														run: (*parser).callonDocumentFragment1356,
+														pos: position{line: 1234, col: 5, offset: 38268},
+														run: (*parser).callonDocumentFragment1416,
 													},
 													&labeledExpr{
-														pos:   position{line: 1233, col: 5, offset: 38136},
+														pos:   position{line: 1237, col: 5, offset: 38326},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1238, col: 20, offset: 38231},
-															run: (*parser).callonDocumentFragment1358,
+															pos: position{line: 1242, col: 20, offset: 38421},
+															run: (*parser).callonDocumentFragment1418,
 															expr: &seqExpr{
-																pos: position{line: 1238, col: 20, offset: 38231},
+																pos: position{line: 1242, col: 20, offset: 38421},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1242, col: 30, offset: 38403},
+																		pos:        position{line: 1246, col: 30, offset: 38593},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1242, col: 36, offset: 38409},
+																		pos: position{line: 1246, col: 36, offset: 38599},
 																		expr: &actionExpr{
-																			pos: position{line: 2860, col: 10, offset: 90451},
-																			run: (*parser).callonDocumentFragment1362,
+																			pos: position{line: 2864, col: 10, offset: 90641},
+																			run: (*parser).callonDocumentFragment1422,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2860, col: 10, offset: 90451},
+																				pos:        position{line: 2864, col: 10, offset: 90641},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10201,28 +10484,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2882, col: 8, offset: 90849},
+																		pos: position{line: 2886, col: 8, offset: 91039},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90622},
-																				run: (*parser).callonDocumentFragment1365,
+																				pos: position{line: 2873, col: 12, offset: 90812},
+																				run: (*parser).callonDocumentFragment1425,
 																				expr: &choiceExpr{
-																					pos: position{line: 2869, col: 13, offset: 90623},
+																					pos: position{line: 2873, col: 13, offset: 90813},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							pos:        position{line: 2873, col: 13, offset: 90813},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							pos:        position{line: 2873, col: 20, offset: 90820},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							pos:        position{line: 2873, col: 29, offset: 90829},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10231,46 +10514,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2879, col: 8, offset: 90799},
+																				pos: position{line: 2883, col: 8, offset: 90989},
 																				expr: &anyMatcher{
-																					line: 2879, col: 9, offset: 90800,
+																					line: 2883, col: 9, offset: 90990,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1238, col: 45, offset: 38256},
+																		pos:   position{line: 1242, col: 45, offset: 38446},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1238, col: 53, offset: 38264},
+																			pos: position{line: 1242, col: 53, offset: 38454},
 																			expr: &actionExpr{
-																				pos: position{line: 1244, col: 27, offset: 38447},
-																				run: (*parser).callonDocumentFragment1374,
+																				pos: position{line: 1248, col: 27, offset: 38637},
+																				run: (*parser).callonDocumentFragment1434,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1244, col: 27, offset: 38447},
+																					pos: position{line: 1248, col: 27, offset: 38637},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1244, col: 28, offset: 38448},
+																						pos: position{line: 1248, col: 28, offset: 38638},
 																						expr: &seqExpr{
-																							pos: position{line: 1244, col: 29, offset: 38449},
+																							pos: position{line: 1248, col: 29, offset: 38639},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1244, col: 29, offset: 38449},
+																									pos: position{line: 1248, col: 29, offset: 38639},
 																									expr: &seqExpr{
-																										pos: position{line: 1242, col: 30, offset: 38403},
+																										pos: position{line: 1246, col: 30, offset: 38593},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1242, col: 30, offset: 38403},
+																												pos:        position{line: 1246, col: 30, offset: 38593},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1242, col: 36, offset: 38409},
+																												pos: position{line: 1246, col: 36, offset: 38599},
 																												expr: &actionExpr{
-																													pos: position{line: 2860, col: 10, offset: 90451},
-																													run: (*parser).callonDocumentFragment1382,
+																													pos: position{line: 2864, col: 10, offset: 90641},
+																													run: (*parser).callonDocumentFragment1442,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2860, col: 10, offset: 90451},
+																														pos:        position{line: 2864, col: 10, offset: 90641},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10279,28 +10562,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2882, col: 8, offset: 90849},
+																												pos: position{line: 2886, col: 8, offset: 91039},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2869, col: 12, offset: 90622},
-																														run: (*parser).callonDocumentFragment1385,
+																														pos: position{line: 2873, col: 12, offset: 90812},
+																														run: (*parser).callonDocumentFragment1445,
 																														expr: &choiceExpr{
-																															pos: position{line: 2869, col: 13, offset: 90623},
+																															pos: position{line: 2873, col: 13, offset: 90813},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 13, offset: 90623},
+																																	pos:        position{line: 2873, col: 13, offset: 90813},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 20, offset: 90630},
+																																	pos:        position{line: 2873, col: 20, offset: 90820},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 29, offset: 90639},
+																																	pos:        position{line: 2873, col: 29, offset: 90829},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10309,9 +10592,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2879, col: 8, offset: 90799},
+																														pos: position{line: 2883, col: 8, offset: 90989},
 																														expr: &anyMatcher{
-																															line: 2879, col: 9, offset: 90800,
+																															line: 2883, col: 9, offset: 90990,
 																														},
 																													},
 																												},
@@ -10320,7 +10603,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1244, col: 55, offset: 38475,
+																									line: 1248, col: 55, offset: 38665,
 																								},
 																							},
 																						},
@@ -10330,18 +10613,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1242, col: 30, offset: 38403},
+																		pos:        position{line: 1246, col: 30, offset: 38593},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1242, col: 36, offset: 38409},
+																		pos: position{line: 1246, col: 36, offset: 38599},
 																		expr: &actionExpr{
-																			pos: position{line: 2860, col: 10, offset: 90451},
-																			run: (*parser).callonDocumentFragment1395,
+																			pos: position{line: 2864, col: 10, offset: 90641},
+																			run: (*parser).callonDocumentFragment1455,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2860, col: 10, offset: 90451},
+																				pos:        position{line: 2864, col: 10, offset: 90641},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10350,28 +10633,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2882, col: 8, offset: 90849},
+																		pos: position{line: 2886, col: 8, offset: 91039},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90622},
-																				run: (*parser).callonDocumentFragment1398,
+																				pos: position{line: 2873, col: 12, offset: 90812},
+																				run: (*parser).callonDocumentFragment1458,
 																				expr: &choiceExpr{
-																					pos: position{line: 2869, col: 13, offset: 90623},
+																					pos: position{line: 2873, col: 13, offset: 90813},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							pos:        position{line: 2873, col: 13, offset: 90813},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							pos:        position{line: 2873, col: 20, offset: 90820},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							pos:        position{line: 2873, col: 29, offset: 90829},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10380,9 +10663,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2879, col: 8, offset: 90799},
+																				pos: position{line: 2883, col: 8, offset: 90989},
 																				expr: &anyMatcher{
-																					line: 2879, col: 9, offset: 90800,
+																					line: 2883, col: 9, offset: 90990,
 																				},
 																			},
 																		},
@@ -10404,7 +10687,7 @@ var g = &grammar{
 						},
 						&andCodeExpr{
 							pos: position{line: 253, col: 5, offset: 7555},
-							run: (*parser).callonDocumentFragment1406,
+							run: (*parser).callonDocumentFragment1466,
 						},
 					},
 				},
@@ -10432,27 +10715,27 @@ var g = &grammar{
 									pos: position{line: 282, col: 9, offset: 8388},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1206, col: 23, offset: 37184},
+											pos: position{line: 1210, col: 23, offset: 37374},
 											run: (*parser).callonDelimitedBlockElements7,
 											expr: &seqExpr{
-												pos: position{line: 1206, col: 23, offset: 37184},
+												pos: position{line: 1210, col: 23, offset: 37374},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1204, col: 32, offset: 37152},
+														pos:        position{line: 1208, col: 32, offset: 37342},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1206, col: 51, offset: 37212},
+														pos:   position{line: 1210, col: 51, offset: 37402},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1206, col: 56, offset: 37217},
+															pos: position{line: 1210, col: 56, offset: 37407},
 															run: (*parser).callonDelimitedBlockElements11,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1206, col: 56, offset: 37217},
+																pos: position{line: 1210, col: 56, offset: 37407},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1206, col: 56, offset: 37217},
+																	pos:        position{line: 1210, col: 56, offset: 37407},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -10462,7 +10745,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1204, col: 32, offset: 37152},
+														pos:        position{line: 1208, col: 32, offset: 37342},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -10479,9 +10762,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2879, col: 8, offset: 90799},
+							pos: position{line: 2883, col: 8, offset: 90989},
 							expr: &anyMatcher{
-								line: 2879, col: 9, offset: 90800,
+								line: 2883, col: 9, offset: 90990,
 							},
 						},
 					},
@@ -10553,12 +10836,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2864, col: 11, offset: 90512},
+												pos: position{line: 2868, col: 11, offset: 90702},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2864, col: 11, offset: 90512},
+													pos: position{line: 2868, col: 11, offset: 90702},
 													expr: &charClassMatcher{
-														pos:        position{line: 2864, col: 11, offset: 90512},
+														pos:        position{line: 2868, col: 11, offset: 90702},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10580,28 +10863,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2882, col: 8, offset: 90849},
+							pos: position{line: 2886, col: 8, offset: 91039},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2869, col: 12, offset: 90622},
+									pos: position{line: 2873, col: 12, offset: 90812},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2869, col: 13, offset: 90623},
+										pos: position{line: 2873, col: 13, offset: 90813},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2869, col: 13, offset: 90623},
+												pos:        position{line: 2873, col: 13, offset: 90813},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2869, col: 20, offset: 90630},
+												pos:        position{line: 2873, col: 20, offset: 90820},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2869, col: 29, offset: 90639},
+												pos:        position{line: 2873, col: 29, offset: 90829},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10610,9 +10893,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2879, col: 8, offset: 90799},
+									pos: position{line: 2883, col: 8, offset: 90989},
 									expr: &anyMatcher{
-										line: 2879, col: 9, offset: 90800,
+										line: 2883, col: 9, offset: 90990,
 									},
 								},
 							},
@@ -10656,25 +10939,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2869, col: 12, offset: 90622},
+												pos: position{line: 2873, col: 12, offset: 90812},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2869, col: 13, offset: 90623},
+													pos: position{line: 2873, col: 13, offset: 90813},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2869, col: 13, offset: 90623},
+															pos:        position{line: 2873, col: 13, offset: 90813},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2869, col: 20, offset: 90630},
+															pos:        position{line: 2873, col: 20, offset: 90820},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2869, col: 29, offset: 90639},
+															pos:        position{line: 2873, col: 29, offset: 90829},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10685,10 +10968,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2860, col: 10, offset: 90451},
+													pos: position{line: 2864, col: 10, offset: 90641},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2860, col: 10, offset: 90451},
+														pos:        position{line: 2864, col: 10, offset: 90641},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10758,10 +11041,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2860, col: 10, offset: 90451},
+											pos: position{line: 2864, col: 10, offset: 90641},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2860, col: 10, offset: 90451},
+												pos:        position{line: 2864, col: 10, offset: 90641},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -10770,28 +11053,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2882, col: 8, offset: 90849},
+										pos: position{line: 2886, col: 8, offset: 91039},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2869, col: 12, offset: 90622},
+												pos: position{line: 2873, col: 12, offset: 90812},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2869, col: 13, offset: 90623},
+													pos: position{line: 2873, col: 13, offset: 90813},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2869, col: 13, offset: 90623},
+															pos:        position{line: 2873, col: 13, offset: 90813},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2869, col: 20, offset: 90630},
+															pos:        position{line: 2873, col: 20, offset: 90820},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2869, col: 29, offset: 90639},
+															pos:        position{line: 2873, col: 29, offset: 90829},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10800,9 +11083,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2879, col: 8, offset: 90799},
+												pos: position{line: 2883, col: 8, offset: 90989},
 												expr: &anyMatcher{
-													line: 2879, col: 9, offset: 90800,
+													line: 2883, col: 9, offset: 90990,
 												},
 											},
 										},
@@ -10835,23 +11118,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2457, col: 5, offset: 78982},
+										pos: position{line: 2461, col: 5, offset: 79172},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2457, col: 5, offset: 78982},
+											pos: position{line: 2461, col: 5, offset: 79172},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2457, col: 5, offset: 78982},
+													pos: position{line: 2461, col: 5, offset: 79172},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2460, col: 5, offset: 79058},
+													pos:   position{line: 2464, col: 5, offset: 79248},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2461, col: 9, offset: 79076},
+														pos: position{line: 2465, col: 9, offset: 79266},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2461, col: 10, offset: 79077},
+															pos:        position{line: 2465, col: 10, offset: 79267},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -10863,10 +11146,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2860, col: 10, offset: 90451},
+										pos: position{line: 2864, col: 10, offset: 90641},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2860, col: 10, offset: 90451},
+											pos:        position{line: 2864, col: 10, offset: 90641},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11290,27 +11573,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1206, col: 23, offset: 37184},
+																						pos: position{line: 1210, col: 23, offset: 37374},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1206, col: 23, offset: 37184},
+																							pos: position{line: 1210, col: 23, offset: 37374},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1204, col: 32, offset: 37152},
+																									pos:        position{line: 1208, col: 32, offset: 37342},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1206, col: 51, offset: 37212},
+																									pos:   position{line: 1210, col: 51, offset: 37402},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1206, col: 56, offset: 37217},
+																										pos: position{line: 1210, col: 56, offset: 37407},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1206, col: 56, offset: 37217},
+																											pos: position{line: 1210, col: 56, offset: 37407},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1206, col: 56, offset: 37217},
+																												pos:        position{line: 1210, col: 56, offset: 37407},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11320,7 +11603,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1204, col: 32, offset: 37152},
+																									pos:        position{line: 1208, col: 32, offset: 37342},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
@@ -11703,10 +11986,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 35, offset: 11487},
 												expr: &actionExpr{
-													pos: position{line: 2860, col: 10, offset: 90451},
+													pos: position{line: 2864, col: 10, offset: 90641},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2860, col: 10, offset: 90451},
+														pos:        position{line: 2864, col: 10, offset: 90641},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11715,28 +11998,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2882, col: 8, offset: 90849},
+												pos: position{line: 2886, col: 8, offset: 91039},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2869, col: 12, offset: 90622},
+														pos: position{line: 2873, col: 12, offset: 90812},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2869, col: 13, offset: 90623},
+															pos: position{line: 2873, col: 13, offset: 90813},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2869, col: 13, offset: 90623},
+																	pos:        position{line: 2873, col: 13, offset: 90813},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2869, col: 20, offset: 90630},
+																	pos:        position{line: 2873, col: 20, offset: 90820},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2869, col: 29, offset: 90639},
+																	pos:        position{line: 2873, col: 29, offset: 90829},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -11745,9 +12028,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2879, col: 8, offset: 90799},
+														pos: position{line: 2883, col: 8, offset: 90989},
 														expr: &anyMatcher{
-															line: 2879, col: 9, offset: 90800,
+															line: 2883, col: 9, offset: 90990,
 														},
 													},
 												},
@@ -11761,18 +12044,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2877, col: 11, offset: 90785},
+																pos: position{line: 2881, col: 11, offset: 90975},
 																expr: &anyMatcher{
-																	line: 2877, col: 13, offset: 90787,
+																	line: 2881, col: 13, offset: 90977,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2860, col: 10, offset: 90451},
+																	pos: position{line: 2864, col: 10, offset: 90641},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2860, col: 10, offset: 90451},
+																		pos:        position{line: 2864, col: 10, offset: 90641},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -11781,28 +12064,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2882, col: 8, offset: 90849},
+																pos: position{line: 2886, col: 8, offset: 91039},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2869, col: 12, offset: 90622},
+																		pos: position{line: 2873, col: 12, offset: 90812},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2869, col: 13, offset: 90623},
+																			pos: position{line: 2873, col: 13, offset: 90813},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2869, col: 13, offset: 90623},
+																					pos:        position{line: 2873, col: 13, offset: 90813},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2869, col: 20, offset: 90630},
+																					pos:        position{line: 2873, col: 20, offset: 90820},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2869, col: 29, offset: 90639},
+																					pos:        position{line: 2873, col: 29, offset: 90829},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -11811,9 +12094,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2879, col: 8, offset: 90799},
+																		pos: position{line: 2883, col: 8, offset: 90989},
 																		expr: &anyMatcher{
-																			line: 2879, col: 9, offset: 90800,
+																			line: 2883, col: 9, offset: 90990,
 																		},
 																	},
 																},
@@ -11865,12 +12148,12 @@ var g = &grammar{
 																		pos: position{line: 426, col: 9, offset: 13063},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2754, col: 14, offset: 87620},
+																				pos: position{line: 2758, col: 14, offset: 87810},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2754, col: 14, offset: 87620},
+																					pos: position{line: 2758, col: 14, offset: 87810},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2754, col: 14, offset: 87620},
+																						pos:        position{line: 2758, col: 14, offset: 87810},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -11879,10 +12162,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2860, col: 10, offset: 90451},
+																				pos: position{line: 2864, col: 10, offset: 90641},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2860, col: 10, offset: 90451},
+																					pos:        position{line: 2864, col: 10, offset: 90641},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -11890,27 +12173,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2777, col: 5, offset: 88105},
+																				pos: position{line: 2781, col: 5, offset: 88295},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2778, col: 9, offset: 88115},
+																					pos: position{line: 2782, col: 9, offset: 88305},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2778, col: 10, offset: 88116},
+																							pos:        position{line: 2782, col: 10, offset: 88306},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2780, col: 13, offset: 88213},
+																							pos: position{line: 2784, col: 13, offset: 88403},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2780, col: 13, offset: 88213},
+																									pos: position{line: 2784, col: 13, offset: 88403},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2783, col: 13, offset: 88313},
+																									pos:        position{line: 2787, col: 13, offset: 88503},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -11918,20 +12201,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2783, col: 19, offset: 88319},
+																							pos:        position{line: 2787, col: 19, offset: 88509},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2786, col: 13, offset: 88357},
+																							pos: position{line: 2790, col: 13, offset: 88547},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2786, col: 13, offset: 88357},
+																									pos: position{line: 2790, col: 13, offset: 88547},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2789, col: 14, offset: 88450},
+																									pos:        position{line: 2793, col: 14, offset: 88640},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -11940,18 +12223,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2791, col: 12, offset: 88494},
+																							pos: position{line: 2795, col: 12, offset: 88684},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2791, col: 12, offset: 88494},
+																									pos:        position{line: 2795, col: 12, offset: 88684},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2791, col: 16, offset: 88498},
+																									pos: position{line: 2795, col: 16, offset: 88688},
 																									expr: &litMatcher{
-																										pos:        position{line: 2791, col: 17, offset: 88499},
+																										pos:        position{line: 2795, col: 17, offset: 88689},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12069,10 +12352,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2799, col: 12, offset: 88759},
+																				pos: position{line: 2803, col: 12, offset: 88949},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2799, col: 12, offset: 88759},
+																					pos:        position{line: 2803, col: 12, offset: 88949},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12090,10 +12373,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 35, offset: 11642},
 												expr: &actionExpr{
-													pos: position{line: 2860, col: 10, offset: 90451},
+													pos: position{line: 2864, col: 10, offset: 90641},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2860, col: 10, offset: 90451},
+														pos:        position{line: 2864, col: 10, offset: 90641},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12102,28 +12385,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2882, col: 8, offset: 90849},
+												pos: position{line: 2886, col: 8, offset: 91039},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2869, col: 12, offset: 90622},
+														pos: position{line: 2873, col: 12, offset: 90812},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2869, col: 13, offset: 90623},
+															pos: position{line: 2873, col: 13, offset: 90813},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2869, col: 13, offset: 90623},
+																	pos:        position{line: 2873, col: 13, offset: 90813},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2869, col: 20, offset: 90630},
+																	pos:        position{line: 2873, col: 20, offset: 90820},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2869, col: 29, offset: 90639},
+																	pos:        position{line: 2873, col: 29, offset: 90829},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12132,9 +12415,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2879, col: 8, offset: 90799},
+														pos: position{line: 2883, col: 8, offset: 90989},
 														expr: &anyMatcher{
-															line: 2879, col: 9, offset: 90800,
+															line: 2883, col: 9, offset: 90990,
 														},
 													},
 												},
@@ -12148,18 +12431,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2877, col: 11, offset: 90785},
+																pos: position{line: 2881, col: 11, offset: 90975},
 																expr: &anyMatcher{
-																	line: 2877, col: 13, offset: 90787,
+																	line: 2881, col: 13, offset: 90977,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2860, col: 10, offset: 90451},
+																	pos: position{line: 2864, col: 10, offset: 90641},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2860, col: 10, offset: 90451},
+																		pos:        position{line: 2864, col: 10, offset: 90641},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12168,28 +12451,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2882, col: 8, offset: 90849},
+																pos: position{line: 2886, col: 8, offset: 91039},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2869, col: 12, offset: 90622},
+																		pos: position{line: 2873, col: 12, offset: 90812},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2869, col: 13, offset: 90623},
+																			pos: position{line: 2873, col: 13, offset: 90813},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2869, col: 13, offset: 90623},
+																					pos:        position{line: 2873, col: 13, offset: 90813},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2869, col: 20, offset: 90630},
+																					pos:        position{line: 2873, col: 20, offset: 90820},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2869, col: 29, offset: 90639},
+																					pos:        position{line: 2873, col: 29, offset: 90829},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12198,9 +12481,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2879, col: 8, offset: 90799},
+																		pos: position{line: 2883, col: 8, offset: 90989},
 																		expr: &anyMatcher{
-																			line: 2879, col: 9, offset: 90800,
+																			line: 2883, col: 9, offset: 90990,
 																		},
 																	},
 																},
@@ -12229,10 +12512,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 380, col: 44, offset: 11775},
 												expr: &actionExpr{
-													pos: position{line: 2860, col: 10, offset: 90451},
+													pos: position{line: 2864, col: 10, offset: 90641},
 													run: (*parser).callonBlockAttributes210,
 													expr: &charClassMatcher{
-														pos:        position{line: 2860, col: 10, offset: 90451},
+														pos:        position{line: 2864, col: 10, offset: 90641},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12241,28 +12524,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2882, col: 8, offset: 90849},
+												pos: position{line: 2886, col: 8, offset: 91039},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2869, col: 12, offset: 90622},
+														pos: position{line: 2873, col: 12, offset: 90812},
 														run: (*parser).callonBlockAttributes213,
 														expr: &choiceExpr{
-															pos: position{line: 2869, col: 13, offset: 90623},
+															pos: position{line: 2873, col: 13, offset: 90813},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2869, col: 13, offset: 90623},
+																	pos:        position{line: 2873, col: 13, offset: 90813},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2869, col: 20, offset: 90630},
+																	pos:        position{line: 2873, col: 20, offset: 90820},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2869, col: 29, offset: 90639},
+																	pos:        position{line: 2873, col: 29, offset: 90829},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12271,9 +12554,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2879, col: 8, offset: 90799},
+														pos: position{line: 2883, col: 8, offset: 90989},
 														expr: &anyMatcher{
-															line: 2879, col: 9, offset: 90800,
+															line: 2883, col: 9, offset: 90990,
 														},
 													},
 												},
@@ -12287,18 +12570,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2877, col: 11, offset: 90785},
+																pos: position{line: 2881, col: 11, offset: 90975},
 																expr: &anyMatcher{
-																	line: 2877, col: 13, offset: 90787,
+																	line: 2881, col: 13, offset: 90977,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2860, col: 10, offset: 90451},
+																	pos: position{line: 2864, col: 10, offset: 90641},
 																	run: (*parser).callonBlockAttributes226,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2860, col: 10, offset: 90451},
+																		pos:        position{line: 2864, col: 10, offset: 90641},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12307,28 +12590,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2882, col: 8, offset: 90849},
+																pos: position{line: 2886, col: 8, offset: 91039},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2869, col: 12, offset: 90622},
+																		pos: position{line: 2873, col: 12, offset: 90812},
 																		run: (*parser).callonBlockAttributes229,
 																		expr: &choiceExpr{
-																			pos: position{line: 2869, col: 13, offset: 90623},
+																			pos: position{line: 2873, col: 13, offset: 90813},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2869, col: 13, offset: 90623},
+																					pos:        position{line: 2873, col: 13, offset: 90813},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2869, col: 20, offset: 90630},
+																					pos:        position{line: 2873, col: 20, offset: 90820},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2869, col: 29, offset: 90639},
+																					pos:        position{line: 2873, col: 29, offset: 90829},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12337,9 +12620,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2879, col: 8, offset: 90799},
+																		pos: position{line: 2883, col: 8, offset: 90989},
 																		expr: &anyMatcher{
-																			line: 2879, col: 9, offset: 90800,
+																			line: 2883, col: 9, offset: 90990,
 																		},
 																	},
 																},
@@ -12587,10 +12870,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 466, col: 13, offset: 14531},
 										expr: &actionExpr{
-											pos: position{line: 2860, col: 10, offset: 90451},
+											pos: position{line: 2864, col: 10, offset: 90641},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2860, col: 10, offset: 90451},
+												pos:        position{line: 2864, col: 10, offset: 90641},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13122,10 +13405,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 518, col: 9, offset: 16113},
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 10, offset: 90451},
+														pos: position{line: 2864, col: 10, offset: 90641},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2860, col: 10, offset: 90451},
+															pos:        position{line: 2864, col: 10, offset: 90641},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13186,10 +13469,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 524, col: 34, offset: 16256},
 														expr: &actionExpr{
-															pos: position{line: 2860, col: 10, offset: 90451},
+															pos: position{line: 2864, col: 10, offset: 90641},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2860, col: 10, offset: 90451},
+																pos:        position{line: 2864, col: 10, offset: 90641},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13229,10 +13512,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 529, col: 13, offset: 16420},
 												expr: &actionExpr{
-													pos: position{line: 2860, col: 10, offset: 90451},
+													pos: position{line: 2864, col: 10, offset: 90641},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2860, col: 10, offset: 90451},
+														pos:        position{line: 2864, col: 10, offset: 90641},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13255,10 +13538,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 529, col: 26, offset: 16433},
 																expr: &actionExpr{
-																	pos: position{line: 2860, col: 10, offset: 90451},
+																	pos: position{line: 2864, col: 10, offset: 90641},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2860, col: 10, offset: 90451},
+																		pos:        position{line: 2864, col: 10, offset: 90641},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13313,10 +13596,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 549, col: 22, offset: 17080},
 											expr: &actionExpr{
-												pos: position{line: 2860, col: 10, offset: 90451},
+												pos: position{line: 2864, col: 10, offset: 90641},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2860, col: 10, offset: 90451},
+													pos:        position{line: 2864, col: 10, offset: 90641},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13347,10 +13630,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 542, col: 9, offset: 16825},
 							expr: &actionExpr{
-								pos: position{line: 2860, col: 10, offset: 90451},
+								pos: position{line: 2864, col: 10, offset: 90641},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2860, col: 10, offset: 90451},
+									pos:        position{line: 2864, col: 10, offset: 90641},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13380,10 +13663,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 543, col: 33, offset: 16865},
 										expr: &actionExpr{
-											pos: position{line: 2860, col: 10, offset: 90451},
+											pos: position{line: 2864, col: 10, offset: 90641},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2860, col: 10, offset: 90451},
+												pos:        position{line: 2864, col: 10, offset: 90641},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13438,10 +13721,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 559, col: 9, offset: 17297},
 											expr: &actionExpr{
-												pos: position{line: 2860, col: 10, offset: 90451},
+												pos: position{line: 2864, col: 10, offset: 90641},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2860, col: 10, offset: 90451},
+													pos:        position{line: 2864, col: 10, offset: 90641},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13520,12 +13803,12 @@ var g = &grammar{
 							pos: position{line: 572, col: 9, offset: 17614},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2754, col: 14, offset: 87620},
+									pos: position{line: 2758, col: 14, offset: 87810},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2754, col: 14, offset: 87620},
+										pos: position{line: 2758, col: 14, offset: 87810},
 										expr: &charClassMatcher{
-											pos:        position{line: 2754, col: 14, offset: 87620},
+											pos:        position{line: 2758, col: 14, offset: 87810},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13534,10 +13817,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2860, col: 10, offset: 90451},
+									pos: position{line: 2864, col: 10, offset: 90641},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2860, col: 10, offset: 90451},
+										pos:        position{line: 2864, col: 10, offset: 90641},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -13994,10 +14277,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 592, col: 14, offset: 18354},
 											expr: &actionExpr{
-												pos: position{line: 2860, col: 10, offset: 90451},
+												pos: position{line: 2864, col: 10, offset: 90641},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2860, col: 10, offset: 90451},
+													pos:        position{line: 2864, col: 10, offset: 90641},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14034,12 +14317,12 @@ var g = &grammar{
 							pos: position{line: 598, col: 9, offset: 18465},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2754, col: 14, offset: 87620},
+									pos: position{line: 2758, col: 14, offset: 87810},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2754, col: 14, offset: 87620},
+										pos: position{line: 2758, col: 14, offset: 87810},
 										expr: &charClassMatcher{
-											pos:        position{line: 2754, col: 14, offset: 87620},
+											pos:        position{line: 2758, col: 14, offset: 87810},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14048,10 +14331,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2860, col: 10, offset: 90451},
+									pos: position{line: 2864, col: 10, offset: 90641},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2860, col: 10, offset: 90451},
+										pos:        position{line: 2864, col: 10, offset: 90641},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14478,10 +14761,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 619, col: 5, offset: 19321},
 							expr: &actionExpr{
-								pos: position{line: 2860, col: 10, offset: 90451},
+								pos: position{line: 2864, col: 10, offset: 90641},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2860, col: 10, offset: 90451},
+									pos:        position{line: 2864, col: 10, offset: 90641},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14871,10 +15154,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2860, col: 10, offset: 90451},
+											pos: position{line: 2864, col: 10, offset: 90641},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2860, col: 10, offset: 90451},
+												pos:        position{line: 2864, col: 10, offset: 90641},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14925,12 +15208,12 @@ var g = &grammar{
 									pos:   position{line: 686, col: 32, offset: 21849},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2845, col: 7, offset: 90103},
+										pos: position{line: 2849, col: 7, offset: 90293},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2845, col: 7, offset: 90103},
+											pos: position{line: 2849, col: 7, offset: 90293},
 											expr: &charClassMatcher{
-												pos:        position{line: 2845, col: 7, offset: 90103},
+												pos:        position{line: 2849, col: 7, offset: 90293},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -14942,10 +15225,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 40, offset: 21857},
 									expr: &actionExpr{
-										pos: position{line: 2860, col: 10, offset: 90451},
+										pos: position{line: 2864, col: 10, offset: 90641},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2860, col: 10, offset: 90451},
+											pos:        position{line: 2864, col: 10, offset: 90641},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15138,12 +15421,12 @@ var g = &grammar{
 									pos:   position{line: 688, col: 14, offset: 21974},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2845, col: 7, offset: 90103},
+										pos: position{line: 2849, col: 7, offset: 90293},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2845, col: 7, offset: 90103},
+											pos: position{line: 2849, col: 7, offset: 90293},
 											expr: &charClassMatcher{
-												pos:        position{line: 2845, col: 7, offset: 90103},
+												pos:        position{line: 2849, col: 7, offset: 90293},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15187,41 +15470,41 @@ var g = &grammar{
 							pos:   position{line: 692, col: 35, offset: 22087},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2814, col: 17, offset: 89114},
+								pos: position{line: 2818, col: 17, offset: 89304},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2814, col: 17, offset: 89114},
+									pos:   position{line: 2818, col: 17, offset: 89304},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2831, col: 5, offset: 89568},
+										pos: position{line: 2835, col: 5, offset: 89758},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2831, col: 5, offset: 89568},
+											pos:   position{line: 2835, col: 5, offset: 89758},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2831, col: 14, offset: 89577},
+												pos: position{line: 2835, col: 14, offset: 89767},
 												expr: &choiceExpr{
-													pos: position{line: 2832, col: 9, offset: 89587},
+													pos: position{line: 2836, col: 9, offset: 89777},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2832, col: 9, offset: 89587},
+															pos: position{line: 2836, col: 9, offset: 89777},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2832, col: 9, offset: 89587},
+																pos: position{line: 2836, col: 9, offset: 89777},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2832, col: 9, offset: 89587},
+																		pos: position{line: 2836, col: 9, offset: 89777},
 																		expr: &litMatcher{
-																			pos:        position{line: 2832, col: 10, offset: 89588},
+																			pos:        position{line: 2836, col: 10, offset: 89778},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2833, col: 9, offset: 89616},
+																		pos: position{line: 2837, col: 9, offset: 89806},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2833, col: 10, offset: 89617},
+																			pos:        position{line: 2837, col: 10, offset: 89807},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15232,27 +15515,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2836, col: 11, offset: 89829},
+															pos: position{line: 2840, col: 11, offset: 90019},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2836, col: 11, offset: 89829},
+																	pos:        position{line: 2840, col: 11, offset: 90019},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2836, col: 19, offset: 89837},
+																	pos: position{line: 2840, col: 19, offset: 90027},
 																	expr: &seqExpr{
-																		pos: position{line: 2836, col: 21, offset: 89839},
+																		pos: position{line: 2840, col: 21, offset: 90029},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2836, col: 21, offset: 89839},
+																				pos: position{line: 2840, col: 21, offset: 90029},
 																				expr: &actionExpr{
-																					pos: position{line: 2860, col: 10, offset: 90451},
+																					pos: position{line: 2864, col: 10, offset: 90641},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2860, col: 10, offset: 90451},
+																						pos:        position{line: 2864, col: 10, offset: 90641},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15261,11 +15544,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2836, col: 28, offset: 89846},
+																				pos: position{line: 2840, col: 28, offset: 90036},
 																				expr: &notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
@@ -15621,27 +15904,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1206, col: 23, offset: 37184},
+															pos: position{line: 1210, col: 23, offset: 37374},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1206, col: 23, offset: 37184},
+																pos: position{line: 1210, col: 23, offset: 37374},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1204, col: 32, offset: 37152},
+																		pos:        position{line: 1208, col: 32, offset: 37342},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1206, col: 51, offset: 37212},
+																		pos:   position{line: 1210, col: 51, offset: 37402},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1206, col: 56, offset: 37217},
+																			pos: position{line: 1210, col: 56, offset: 37407},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1206, col: 56, offset: 37217},
+																				pos: position{line: 1210, col: 56, offset: 37407},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1206, col: 56, offset: 37217},
+																					pos:        position{line: 1210, col: 56, offset: 37407},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -15651,7 +15934,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1204, col: 32, offset: 37152},
+																		pos:        position{line: 1208, col: 32, offset: 37342},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -15660,10 +15943,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2839, col: 11, offset: 89966},
+															pos: position{line: 2843, col: 11, offset: 90156},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2839, col: 11, offset: 89966},
+																pos:        position{line: 2843, col: 11, offset: 90156},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -15691,29 +15974,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 996, col: 1, offset: 30979},
+			pos:  position{line: 1000, col: 1, offset: 31169},
 			expr: &actionExpr{
-				pos: position{line: 997, col: 5, offset: 31012},
+				pos: position{line: 1001, col: 5, offset: 31202},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 997, col: 5, offset: 31012},
+					pos: position{line: 1001, col: 5, offset: 31202},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 997, col: 5, offset: 31012},
+							pos:        position{line: 1001, col: 5, offset: 31202},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 997, col: 11, offset: 31018},
+							pos:   position{line: 1001, col: 11, offset: 31208},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2810, col: 14, offset: 89044},
+								pos: position{line: 2814, col: 14, offset: 89234},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2810, col: 14, offset: 89044},
+									pos: position{line: 2814, col: 14, offset: 89234},
 									expr: &charClassMatcher{
-										pos:        position{line: 2810, col: 14, offset: 89044},
+										pos:        position{line: 2814, col: 14, offset: 89234},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -15723,28 +16006,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2882, col: 8, offset: 90849},
+							pos: position{line: 2886, col: 8, offset: 91039},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2869, col: 12, offset: 90622},
+									pos: position{line: 2873, col: 12, offset: 90812},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2869, col: 13, offset: 90623},
+										pos: position{line: 2873, col: 13, offset: 90813},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2869, col: 13, offset: 90623},
+												pos:        position{line: 2873, col: 13, offset: 90813},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2869, col: 20, offset: 90630},
+												pos:        position{line: 2873, col: 20, offset: 90820},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2869, col: 29, offset: 90639},
+												pos:        position{line: 2873, col: 29, offset: 90829},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -15753,9 +16036,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2879, col: 8, offset: 90799},
+									pos: position{line: 2883, col: 8, offset: 90989},
 									expr: &anyMatcher{
-										line: 2879, col: 9, offset: 90800,
+										line: 2883, col: 9, offset: 90990,
 									},
 								},
 							},
@@ -15766,53 +16049,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1108, col: 1, offset: 33935},
+			pos:  position{line: 1112, col: 1, offset: 34125},
 			expr: &actionExpr{
-				pos: position{line: 1109, col: 5, offset: 33958},
+				pos: position{line: 1113, col: 5, offset: 34148},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1109, col: 5, offset: 33958},
+					pos: position{line: 1113, col: 5, offset: 34148},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1109, col: 5, offset: 33958},
+							pos: position{line: 1113, col: 5, offset: 34148},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1112, col: 5, offset: 34019},
+							pos: position{line: 1116, col: 5, offset: 34209},
 							expr: &choiceExpr{
-								pos: position{line: 1112, col: 6, offset: 34020},
+								pos: position{line: 1116, col: 6, offset: 34210},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2470, col: 22, offset: 79436},
+										pos: position{line: 2474, col: 22, offset: 79626},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 22, offset: 79436},
+											pos: position{line: 2474, col: 22, offset: 79626},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2475, col: 31, offset: 79657},
+													pos:        position{line: 2479, col: 31, offset: 79847},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2475, col: 36, offset: 79662},
+													pos: position{line: 2479, col: 36, offset: 79852},
 													expr: &litMatcher{
-														pos:        position{line: 2475, col: 37, offset: 79663},
+														pos:        position{line: 2479, col: 37, offset: 79853},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2470, col: 49, offset: 79463},
+													pos:   position{line: 2474, col: 49, offset: 79653},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2806, col: 13, offset: 88977},
+														pos: position{line: 2810, col: 13, offset: 89167},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2806, col: 13, offset: 88977},
+															pos: position{line: 2810, col: 13, offset: 89167},
 															expr: &charClassMatcher{
-																pos:        position{line: 2806, col: 13, offset: 88977},
+																pos:        position{line: 2810, col: 13, offset: 89167},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -15822,28 +16105,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2882, col: 8, offset: 90849},
+													pos: position{line: 2886, col: 8, offset: 91039},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2869, col: 12, offset: 90622},
+															pos: position{line: 2873, col: 12, offset: 90812},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2869, col: 13, offset: 90623},
+																pos: position{line: 2873, col: 13, offset: 90813},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 13, offset: 90623},
+																		pos:        position{line: 2873, col: 13, offset: 90813},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 20, offset: 90630},
+																		pos:        position{line: 2873, col: 20, offset: 90820},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 29, offset: 90639},
+																		pos:        position{line: 2873, col: 29, offset: 90829},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -15852,9 +16135,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2879, col: 8, offset: 90799},
+															pos: position{line: 2883, col: 8, offset: 90989},
 															expr: &anyMatcher{
-																line: 2879, col: 9, offset: 90800,
+																line: 2883, col: 9, offset: 90990,
 															},
 														},
 													},
@@ -15908,10 +16191,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23686},
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 10, offset: 90451},
+																		pos: position{line: 2864, col: 10, offset: 90641},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			pos:        position{line: 2864, col: 10, offset: 90641},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -15920,28 +16203,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
+																			pos: position{line: 2873, col: 12, offset: 90812},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -15950,9 +16233,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -16024,10 +16307,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23686},
 																											expr: &actionExpr{
-																												pos: position{line: 2860, col: 10, offset: 90451},
+																												pos: position{line: 2864, col: 10, offset: 90641},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2860, col: 10, offset: 90451},
+																													pos:        position{line: 2864, col: 10, offset: 90641},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -16036,28 +16319,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2882, col: 8, offset: 90849},
+																											pos: position{line: 2886, col: 8, offset: 91039},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2869, col: 12, offset: 90622},
+																													pos: position{line: 2873, col: 12, offset: 90812},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2869, col: 13, offset: 90623},
+																														pos: position{line: 2873, col: 13, offset: 90813},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																pos:        position{line: 2873, col: 13, offset: 90813},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																pos:        position{line: 2873, col: 20, offset: 90820},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																pos:        position{line: 2873, col: 29, offset: 90829},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -16066,9 +16349,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2879, col: 8, offset: 90799},
+																													pos: position{line: 2883, col: 8, offset: 90989},
 																													expr: &anyMatcher{
-																														line: 2879, col: 9, offset: 90800,
+																														line: 2883, col: 9, offset: 90990,
 																													},
 																												},
 																											},
@@ -16084,9 +16367,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
@@ -16102,21 +16385,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2877, col: 11, offset: 90785},
+																						pos: position{line: 2881, col: 11, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2877, col: 13, offset: 90787,
+																							line: 2881, col: 13, offset: 90977,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2806, col: 13, offset: 88977},
+																							pos: position{line: 2810, col: 13, offset: 89167},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2806, col: 13, offset: 88977},
+																								pos: position{line: 2810, col: 13, offset: 89167},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2806, col: 13, offset: 88977},
+																									pos:        position{line: 2810, col: 13, offset: 89167},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16126,28 +16409,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2882, col: 8, offset: 90849},
+																						pos: position{line: 2886, col: 8, offset: 91039},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2869, col: 12, offset: 90622},
+																								pos: position{line: 2873, col: 12, offset: 90812},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2869, col: 13, offset: 90623},
+																									pos: position{line: 2873, col: 13, offset: 90813},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90623},
+																											pos:        position{line: 2873, col: 13, offset: 90813},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 20, offset: 90630},
+																											pos:        position{line: 2873, col: 20, offset: 90820},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 29, offset: 90639},
+																											pos:        position{line: 2873, col: 29, offset: 90829},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16156,9 +16439,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
+																								pos: position{line: 2883, col: 8, offset: 90989},
 																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																									line: 2883, col: 9, offset: 90990,
 																								},
 																							},
 																						},
@@ -16223,10 +16506,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23686},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
+																								pos: position{line: 2864, col: 10, offset: 90641},
 																								run: (*parser).callonDocumentHeader107,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -16235,28 +16518,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonDocumentHeader110,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -16265,9 +16548,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -16283,9 +16566,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2879, col: 8, offset: 90799},
+																	pos: position{line: 2883, col: 8, offset: 90989},
 																	expr: &anyMatcher{
-																		line: 2879, col: 9, offset: 90800,
+																		line: 2883, col: 9, offset: 90990,
 																	},
 																},
 															},
@@ -16299,49 +16582,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1113, col: 5, offset: 34116},
+							pos:   position{line: 1117, col: 5, offset: 34306},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1113, col: 12, offset: 34123},
+								pos:  position{line: 1117, col: 12, offset: 34313},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1114, col: 5, offset: 34142},
+							pos: position{line: 1118, col: 5, offset: 34332},
 							expr: &choiceExpr{
-								pos: position{line: 1114, col: 6, offset: 34143},
+								pos: position{line: 1118, col: 6, offset: 34333},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2470, col: 22, offset: 79436},
+										pos: position{line: 2474, col: 22, offset: 79626},
 										run: (*parser).callonDocumentHeader124,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 22, offset: 79436},
+											pos: position{line: 2474, col: 22, offset: 79626},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2475, col: 31, offset: 79657},
+													pos:        position{line: 2479, col: 31, offset: 79847},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2475, col: 36, offset: 79662},
+													pos: position{line: 2479, col: 36, offset: 79852},
 													expr: &litMatcher{
-														pos:        position{line: 2475, col: 37, offset: 79663},
+														pos:        position{line: 2479, col: 37, offset: 79853},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2470, col: 49, offset: 79463},
+													pos:   position{line: 2474, col: 49, offset: 79653},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2806, col: 13, offset: 88977},
+														pos: position{line: 2810, col: 13, offset: 89167},
 														run: (*parser).callonDocumentHeader130,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2806, col: 13, offset: 88977},
+															pos: position{line: 2810, col: 13, offset: 89167},
 															expr: &charClassMatcher{
-																pos:        position{line: 2806, col: 13, offset: 88977},
+																pos:        position{line: 2810, col: 13, offset: 89167},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16351,28 +16634,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2882, col: 8, offset: 90849},
+													pos: position{line: 2886, col: 8, offset: 91039},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2869, col: 12, offset: 90622},
+															pos: position{line: 2873, col: 12, offset: 90812},
 															run: (*parser).callonDocumentHeader134,
 															expr: &choiceExpr{
-																pos: position{line: 2869, col: 13, offset: 90623},
+																pos: position{line: 2873, col: 13, offset: 90813},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 13, offset: 90623},
+																		pos:        position{line: 2873, col: 13, offset: 90813},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 20, offset: 90630},
+																		pos:        position{line: 2873, col: 20, offset: 90820},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 29, offset: 90639},
+																		pos:        position{line: 2873, col: 29, offset: 90829},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16381,9 +16664,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2879, col: 8, offset: 90799},
+															pos: position{line: 2883, col: 8, offset: 90989},
 															expr: &anyMatcher{
-																line: 2879, col: 9, offset: 90800,
+																line: 2883, col: 9, offset: 90990,
 															},
 														},
 													},
@@ -16437,10 +16720,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23686},
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 10, offset: 90451},
+																		pos: position{line: 2864, col: 10, offset: 90641},
 																		run: (*parser).callonDocumentHeader153,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			pos:        position{line: 2864, col: 10, offset: 90641},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16449,28 +16732,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
+																			pos: position{line: 2873, col: 12, offset: 90812},
 																			run: (*parser).callonDocumentHeader156,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16479,9 +16762,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -16553,10 +16836,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23686},
 																											expr: &actionExpr{
-																												pos: position{line: 2860, col: 10, offset: 90451},
+																												pos: position{line: 2864, col: 10, offset: 90641},
 																												run: (*parser).callonDocumentHeader181,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2860, col: 10, offset: 90451},
+																													pos:        position{line: 2864, col: 10, offset: 90641},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -16565,28 +16848,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2882, col: 8, offset: 90849},
+																											pos: position{line: 2886, col: 8, offset: 91039},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2869, col: 12, offset: 90622},
+																													pos: position{line: 2873, col: 12, offset: 90812},
 																													run: (*parser).callonDocumentHeader184,
 																													expr: &choiceExpr{
-																														pos: position{line: 2869, col: 13, offset: 90623},
+																														pos: position{line: 2873, col: 13, offset: 90813},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																pos:        position{line: 2873, col: 13, offset: 90813},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																pos:        position{line: 2873, col: 20, offset: 90820},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																pos:        position{line: 2873, col: 29, offset: 90829},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -16595,9 +16878,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2879, col: 8, offset: 90799},
+																													pos: position{line: 2883, col: 8, offset: 90989},
 																													expr: &anyMatcher{
-																														line: 2879, col: 9, offset: 90800,
+																														line: 2883, col: 9, offset: 90990,
 																													},
 																												},
 																											},
@@ -16613,9 +16896,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
@@ -16631,21 +16914,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2877, col: 11, offset: 90785},
+																						pos: position{line: 2881, col: 11, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2877, col: 13, offset: 90787,
+																							line: 2881, col: 13, offset: 90977,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2806, col: 13, offset: 88977},
+																							pos: position{line: 2810, col: 13, offset: 89167},
 																							run: (*parser).callonDocumentHeader200,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2806, col: 13, offset: 88977},
+																								pos: position{line: 2810, col: 13, offset: 89167},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2806, col: 13, offset: 88977},
+																									pos:        position{line: 2810, col: 13, offset: 89167},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16655,28 +16938,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2882, col: 8, offset: 90849},
+																						pos: position{line: 2886, col: 8, offset: 91039},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2869, col: 12, offset: 90622},
+																								pos: position{line: 2873, col: 12, offset: 90812},
 																								run: (*parser).callonDocumentHeader204,
 																								expr: &choiceExpr{
-																									pos: position{line: 2869, col: 13, offset: 90623},
+																									pos: position{line: 2873, col: 13, offset: 90813},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90623},
+																											pos:        position{line: 2873, col: 13, offset: 90813},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 20, offset: 90630},
+																											pos:        position{line: 2873, col: 20, offset: 90820},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 29, offset: 90639},
+																											pos:        position{line: 2873, col: 29, offset: 90829},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16685,9 +16968,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
+																								pos: position{line: 2883, col: 8, offset: 90989},
 																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																									line: 2883, col: 9, offset: 90990,
 																								},
 																							},
 																						},
@@ -16752,10 +17035,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23686},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
+																								pos: position{line: 2864, col: 10, offset: 90641},
 																								run: (*parser).callonDocumentHeader225,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -16764,28 +17047,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonDocumentHeader228,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -16794,9 +17077,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -16812,9 +17095,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2879, col: 8, offset: 90799},
+																	pos: position{line: 2883, col: 8, offset: 90989},
 																	expr: &anyMatcher{
-																		line: 2879, col: 9, offset: 90800,
+																		line: 2883, col: 9, offset: 90990,
 																	},
 																},
 															},
@@ -16828,41 +17111,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1115, col: 5, offset: 34239},
+							pos:   position{line: 1119, col: 5, offset: 34429},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1115, col: 24, offset: 34258},
+								pos: position{line: 1119, col: 24, offset: 34448},
 								expr: &actionExpr{
-									pos: position{line: 1126, col: 5, offset: 34633},
+									pos: position{line: 1130, col: 5, offset: 34823},
 									run: (*parser).callonDocumentHeader240,
 									expr: &seqExpr{
-										pos: position{line: 1126, col: 5, offset: 34633},
+										pos: position{line: 1130, col: 5, offset: 34823},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1126, col: 5, offset: 34633},
+												pos: position{line: 1130, col: 5, offset: 34823},
 												expr: &litMatcher{
-													pos:        position{line: 1126, col: 6, offset: 34634},
+													pos:        position{line: 1130, col: 6, offset: 34824},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1127, col: 5, offset: 34642},
+												pos:   position{line: 1131, col: 5, offset: 34832},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1133, col: 20, offset: 34898},
+													pos: position{line: 1137, col: 20, offset: 35088},
 													run: (*parser).callonDocumentHeader245,
 													expr: &seqExpr{
-														pos: position{line: 1133, col: 20, offset: 34898},
+														pos: position{line: 1137, col: 20, offset: 35088},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1133, col: 20, offset: 34898},
+																pos: position{line: 1137, col: 20, offset: 35088},
 																expr: &actionExpr{
-																	pos: position{line: 2860, col: 10, offset: 90451},
+																	pos: position{line: 2864, col: 10, offset: 90641},
 																	run: (*parser).callonDocumentHeader248,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2860, col: 10, offset: 90451},
+																		pos:        position{line: 2864, col: 10, offset: 90641},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -16871,37 +17154,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1133, col: 27, offset: 34905},
+																pos:   position{line: 1137, col: 27, offset: 35095},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1133, col: 36, offset: 34914},
+																	pos: position{line: 1137, col: 36, offset: 35104},
 																	expr: &actionExpr{
-																		pos: position{line: 1138, col: 5, offset: 35027},
+																		pos: position{line: 1142, col: 5, offset: 35217},
 																		run: (*parser).callonDocumentHeader252,
 																		expr: &seqExpr{
-																			pos: position{line: 1138, col: 5, offset: 35027},
+																			pos: position{line: 1142, col: 5, offset: 35217},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1138, col: 5, offset: 35027},
+																					pos:   position{line: 1142, col: 5, offset: 35217},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1138, col: 14, offset: 35036},
+																						pos: position{line: 1142, col: 14, offset: 35226},
 																						expr: &actionExpr{
-																							pos: position{line: 1149, col: 5, offset: 35416},
+																							pos: position{line: 1153, col: 5, offset: 35606},
 																							run: (*parser).callonDocumentHeader256,
 																							expr: &seqExpr{
-																								pos: position{line: 1149, col: 5, offset: 35416},
+																								pos: position{line: 1153, col: 5, offset: 35606},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1149, col: 5, offset: 35416},
+																										pos:   position{line: 1153, col: 5, offset: 35606},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1149, col: 12, offset: 35423},
+																											pos: position{line: 1153, col: 12, offset: 35613},
 																											run: (*parser).callonDocumentHeader259,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1149, col: 12, offset: 35423},
+																												pos: position{line: 1153, col: 12, offset: 35613},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1149, col: 12, offset: 35423},
+																													pos:        position{line: 1153, col: 12, offset: 35613},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -16911,12 +17194,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1152, col: 5, offset: 35503},
+																										pos: position{line: 1156, col: 5, offset: 35693},
 																										expr: &actionExpr{
-																											pos: position{line: 2860, col: 10, offset: 90451},
+																											pos: position{line: 2864, col: 10, offset: 90641},
 																											run: (*parser).callonDocumentHeader263,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2860, col: 10, offset: 90451},
+																												pos:        position{line: 2864, col: 10, offset: 90641},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16925,17 +17208,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1153, col: 5, offset: 35514},
+																										pos:   position{line: 1157, col: 5, offset: 35704},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1153, col: 11, offset: 35520},
+																											pos: position{line: 1157, col: 11, offset: 35710},
 																											expr: &actionExpr{
-																												pos: position{line: 1153, col: 12, offset: 35521},
+																												pos: position{line: 1157, col: 12, offset: 35711},
 																												run: (*parser).callonDocumentHeader267,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1153, col: 12, offset: 35521},
+																													pos: position{line: 1157, col: 12, offset: 35711},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1153, col: 12, offset: 35521},
+																														pos:        position{line: 1157, col: 12, offset: 35711},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -16946,12 +17229,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1156, col: 5, offset: 35602},
+																										pos: position{line: 1160, col: 5, offset: 35792},
 																										expr: &actionExpr{
-																											pos: position{line: 2860, col: 10, offset: 90451},
+																											pos: position{line: 2864, col: 10, offset: 90641},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2860, col: 10, offset: 90451},
+																												pos:        position{line: 2864, col: 10, offset: 90641},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -16960,17 +17243,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1157, col: 5, offset: 35613},
+																										pos:   position{line: 1161, col: 5, offset: 35803},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1157, col: 11, offset: 35619},
+																											pos: position{line: 1161, col: 11, offset: 35809},
 																											expr: &actionExpr{
-																												pos: position{line: 1157, col: 12, offset: 35620},
+																												pos: position{line: 1161, col: 12, offset: 35810},
 																												run: (*parser).callonDocumentHeader275,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1157, col: 12, offset: 35620},
+																													pos: position{line: 1161, col: 12, offset: 35810},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1157, col: 12, offset: 35620},
+																														pos:        position{line: 1161, col: 12, offset: 35810},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -16981,12 +17264,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1160, col: 5, offset: 35699},
+																										pos: position{line: 1164, col: 5, offset: 35889},
 																										expr: &actionExpr{
-																											pos: position{line: 2860, col: 10, offset: 90451},
+																											pos: position{line: 2864, col: 10, offset: 90641},
 																											run: (*parser).callonDocumentHeader279,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2860, col: 10, offset: 90451},
+																												pos:        position{line: 2864, col: 10, offset: 90641},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17000,38 +17283,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1138, col: 40, offset: 35062},
+																					pos:   position{line: 1142, col: 40, offset: 35252},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1138, col: 46, offset: 35068},
+																						pos: position{line: 1142, col: 46, offset: 35258},
 																						expr: &actionExpr{
-																							pos: position{line: 1166, col: 5, offset: 35821},
+																							pos: position{line: 1170, col: 5, offset: 36011},
 																							run: (*parser).callonDocumentHeader283,
 																							expr: &seqExpr{
-																								pos: position{line: 1166, col: 5, offset: 35821},
+																								pos: position{line: 1170, col: 5, offset: 36011},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2877, col: 11, offset: 90785},
+																										pos: position{line: 2881, col: 11, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2877, col: 13, offset: 90787,
+																											line: 2881, col: 13, offset: 90977,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1167, col: 5, offset: 35833},
+																										pos:        position{line: 1171, col: 5, offset: 36023},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1168, col: 5, offset: 35842},
+																										pos:   position{line: 1172, col: 5, offset: 36032},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1168, col: 12, offset: 35849},
+																											pos: position{line: 1172, col: 12, offset: 36039},
 																											run: (*parser).callonDocumentHeader289,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1168, col: 13, offset: 35850},
+																												pos: position{line: 1172, col: 13, offset: 36040},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1168, col: 13, offset: 35850},
+																													pos:        position{line: 1172, col: 13, offset: 36040},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -17041,7 +17324,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1171, col: 5, offset: 35910},
+																										pos:        position{line: 1175, col: 5, offset: 36100},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -17052,12 +17335,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1138, col: 69, offset: 35091},
+																					pos: position{line: 1142, col: 69, offset: 35281},
 																					expr: &actionExpr{
-																						pos: position{line: 2860, col: 10, offset: 90451},
+																						pos: position{line: 2864, col: 10, offset: 90641},
 																						run: (*parser).callonDocumentHeader294,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2860, col: 10, offset: 90451},
+																							pos:        position{line: 2864, col: 10, offset: 90641},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17066,21 +17349,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1138, col: 76, offset: 35098},
+																					pos: position{line: 1142, col: 76, offset: 35288},
 																					expr: &litMatcher{
-																						pos:        position{line: 1138, col: 76, offset: 35098},
+																						pos:        position{line: 1142, col: 76, offset: 35288},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1138, col: 81, offset: 35103},
+																					pos: position{line: 1142, col: 81, offset: 35293},
 																					expr: &actionExpr{
-																						pos: position{line: 2860, col: 10, offset: 90451},
+																						pos: position{line: 2864, col: 10, offset: 90641},
 																						run: (*parser).callonDocumentHeader299,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2860, col: 10, offset: 90451},
+																							pos:        position{line: 2864, col: 10, offset: 90641},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17089,7 +17372,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1139, col: 5, offset: 35115},
+																					pos: position{line: 1143, col: 5, offset: 35305},
 																					run: (*parser).callonDocumentHeader301,
 																				},
 																			},
@@ -17098,28 +17381,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2882, col: 8, offset: 90849},
+																pos: position{line: 2886, col: 8, offset: 91039},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2869, col: 12, offset: 90622},
+																		pos: position{line: 2873, col: 12, offset: 90812},
 																		run: (*parser).callonDocumentHeader303,
 																		expr: &choiceExpr{
-																			pos: position{line: 2869, col: 13, offset: 90623},
+																			pos: position{line: 2873, col: 13, offset: 90813},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2869, col: 13, offset: 90623},
+																					pos:        position{line: 2873, col: 13, offset: 90813},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2869, col: 20, offset: 90630},
+																					pos:        position{line: 2873, col: 20, offset: 90820},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2869, col: 29, offset: 90639},
+																					pos:        position{line: 2873, col: 29, offset: 90829},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17128,9 +17411,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2879, col: 8, offset: 90799},
+																		pos: position{line: 2883, col: 8, offset: 90989},
 																		expr: &anyMatcher{
-																			line: 2879, col: 9, offset: 90800,
+																			line: 2883, col: 9, offset: 90990,
 																		},
 																	},
 																},
@@ -17140,41 +17423,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1128, col: 5, offset: 34672},
+												pos: position{line: 1132, col: 5, offset: 34862},
 												expr: &choiceExpr{
-													pos: position{line: 1128, col: 6, offset: 34673},
+													pos: position{line: 1132, col: 6, offset: 34863},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2470, col: 22, offset: 79436},
+															pos: position{line: 2474, col: 22, offset: 79626},
 															run: (*parser).callonDocumentHeader312,
 															expr: &seqExpr{
-																pos: position{line: 2470, col: 22, offset: 79436},
+																pos: position{line: 2474, col: 22, offset: 79626},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2475, col: 31, offset: 79657},
+																		pos:        position{line: 2479, col: 31, offset: 79847},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2475, col: 36, offset: 79662},
+																		pos: position{line: 2479, col: 36, offset: 79852},
 																		expr: &litMatcher{
-																			pos:        position{line: 2475, col: 37, offset: 79663},
+																			pos:        position{line: 2479, col: 37, offset: 79853},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2470, col: 49, offset: 79463},
+																		pos:   position{line: 2474, col: 49, offset: 79653},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2806, col: 13, offset: 88977},
+																			pos: position{line: 2810, col: 13, offset: 89167},
 																			run: (*parser).callonDocumentHeader318,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2806, col: 13, offset: 88977},
+																				pos: position{line: 2810, col: 13, offset: 89167},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2806, col: 13, offset: 88977},
+																					pos:        position{line: 2810, col: 13, offset: 89167},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17184,28 +17467,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2882, col: 8, offset: 90849},
+																		pos: position{line: 2886, col: 8, offset: 91039},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90622},
+																				pos: position{line: 2873, col: 12, offset: 90812},
 																				run: (*parser).callonDocumentHeader322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2869, col: 13, offset: 90623},
+																					pos: position{line: 2873, col: 13, offset: 90813},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							pos:        position{line: 2873, col: 13, offset: 90813},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							pos:        position{line: 2873, col: 20, offset: 90820},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							pos:        position{line: 2873, col: 29, offset: 90829},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17214,9 +17497,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2879, col: 8, offset: 90799},
+																				pos: position{line: 2883, col: 8, offset: 90989},
 																				expr: &anyMatcher{
-																					line: 2879, col: 9, offset: 90800,
+																					line: 2883, col: 9, offset: 90990,
 																				},
 																			},
 																		},
@@ -17270,10 +17553,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 742, col: 8, offset: 23686},
 																						expr: &actionExpr{
-																							pos: position{line: 2860, col: 10, offset: 90451},
+																							pos: position{line: 2864, col: 10, offset: 90641},
 																							run: (*parser).callonDocumentHeader341,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2860, col: 10, offset: 90451},
+																								pos:        position{line: 2864, col: 10, offset: 90641},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17282,28 +17565,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2882, col: 8, offset: 90849},
+																						pos: position{line: 2886, col: 8, offset: 91039},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2869, col: 12, offset: 90622},
+																								pos: position{line: 2873, col: 12, offset: 90812},
 																								run: (*parser).callonDocumentHeader344,
 																								expr: &choiceExpr{
-																									pos: position{line: 2869, col: 13, offset: 90623},
+																									pos: position{line: 2873, col: 13, offset: 90813},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90623},
+																											pos:        position{line: 2873, col: 13, offset: 90813},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 20, offset: 90630},
+																											pos:        position{line: 2873, col: 20, offset: 90820},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 29, offset: 90639},
+																											pos:        position{line: 2873, col: 29, offset: 90829},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17312,9 +17595,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
+																								pos: position{line: 2883, col: 8, offset: 90989},
 																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																									line: 2883, col: 9, offset: 90990,
 																								},
 																							},
 																						},
@@ -17386,10 +17669,10 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 742, col: 8, offset: 23686},
 																																expr: &actionExpr{
-																																	pos: position{line: 2860, col: 10, offset: 90451},
+																																	pos: position{line: 2864, col: 10, offset: 90641},
 																																	run: (*parser).callonDocumentHeader369,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2860, col: 10, offset: 90451},
+																																		pos:        position{line: 2864, col: 10, offset: 90641},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -17398,28 +17681,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2882, col: 8, offset: 90849},
+																																pos: position{line: 2886, col: 8, offset: 91039},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2869, col: 12, offset: 90622},
+																																		pos: position{line: 2873, col: 12, offset: 90812},
 																																		run: (*parser).callonDocumentHeader372,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2869, col: 13, offset: 90623},
+																																			pos: position{line: 2873, col: 13, offset: 90813},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2869, col: 13, offset: 90623},
+																																					pos:        position{line: 2873, col: 13, offset: 90813},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2869, col: 20, offset: 90630},
+																																					pos:        position{line: 2873, col: 20, offset: 90820},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2869, col: 29, offset: 90639},
+																																					pos:        position{line: 2873, col: 29, offset: 90829},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -17428,9 +17711,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2879, col: 8, offset: 90799},
+																																		pos: position{line: 2883, col: 8, offset: 90989},
 																																		expr: &anyMatcher{
-																																			line: 2879, col: 9, offset: 90800,
+																																			line: 2883, col: 9, offset: 90990,
 																																		},
 																																	},
 																																},
@@ -17446,9 +17729,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2879, col: 8, offset: 90799},
+																										pos: position{line: 2883, col: 8, offset: 90989},
 																										expr: &anyMatcher{
-																											line: 2879, col: 9, offset: 90800,
+																											line: 2883, col: 9, offset: 90990,
 																										},
 																									},
 																								},
@@ -17464,21 +17747,21 @@ var g = &grammar{
 																									pos: position{line: 811, col: 5, offset: 26088},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2877, col: 11, offset: 90785},
+																											pos: position{line: 2881, col: 11, offset: 90975},
 																											expr: &anyMatcher{
-																												line: 2877, col: 13, offset: 90787,
+																												line: 2881, col: 13, offset: 90977,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 812, col: 5, offset: 26163},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2806, col: 13, offset: 88977},
+																												pos: position{line: 2810, col: 13, offset: 89167},
 																												run: (*parser).callonDocumentHeader388,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2806, col: 13, offset: 88977},
+																													pos: position{line: 2810, col: 13, offset: 89167},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2806, col: 13, offset: 88977},
+																														pos:        position{line: 2810, col: 13, offset: 89167},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17488,28 +17771,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2882, col: 8, offset: 90849},
+																											pos: position{line: 2886, col: 8, offset: 91039},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2869, col: 12, offset: 90622},
+																													pos: position{line: 2873, col: 12, offset: 90812},
 																													run: (*parser).callonDocumentHeader392,
 																													expr: &choiceExpr{
-																														pos: position{line: 2869, col: 13, offset: 90623},
+																														pos: position{line: 2873, col: 13, offset: 90813},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																pos:        position{line: 2873, col: 13, offset: 90813},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																pos:        position{line: 2873, col: 20, offset: 90820},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																pos:        position{line: 2873, col: 29, offset: 90829},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17518,9 +17801,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2879, col: 8, offset: 90799},
+																													pos: position{line: 2883, col: 8, offset: 90989},
 																													expr: &anyMatcher{
-																														line: 2879, col: 9, offset: 90800,
+																														line: 2883, col: 9, offset: 90990,
 																													},
 																												},
 																											},
@@ -17585,10 +17868,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 742, col: 8, offset: 23686},
 																												expr: &actionExpr{
-																													pos: position{line: 2860, col: 10, offset: 90451},
+																													pos: position{line: 2864, col: 10, offset: 90641},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2860, col: 10, offset: 90451},
+																														pos:        position{line: 2864, col: 10, offset: 90641},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -17597,28 +17880,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2882, col: 8, offset: 90849},
+																												pos: position{line: 2886, col: 8, offset: 91039},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2869, col: 12, offset: 90622},
+																														pos: position{line: 2873, col: 12, offset: 90812},
 																														run: (*parser).callonDocumentHeader416,
 																														expr: &choiceExpr{
-																															pos: position{line: 2869, col: 13, offset: 90623},
+																															pos: position{line: 2873, col: 13, offset: 90813},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 13, offset: 90623},
+																																	pos:        position{line: 2873, col: 13, offset: 90813},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 20, offset: 90630},
+																																	pos:        position{line: 2873, col: 20, offset: 90820},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 29, offset: 90639},
+																																	pos:        position{line: 2873, col: 29, offset: 90829},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -17627,9 +17910,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2879, col: 8, offset: 90799},
+																														pos: position{line: 2883, col: 8, offset: 90989},
 																														expr: &anyMatcher{
-																															line: 2879, col: 9, offset: 90800,
+																															line: 2883, col: 9, offset: 90990,
 																														},
 																													},
 																												},
@@ -17645,9 +17928,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2879, col: 8, offset: 90799},
+																						pos: position{line: 2883, col: 8, offset: 90989},
 																						expr: &anyMatcher{
-																							line: 2879, col: 9, offset: 90800,
+																							line: 2883, col: 9, offset: 90990,
 																						},
 																					},
 																				},
@@ -17661,23 +17944,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1129, col: 5, offset: 34747},
+												pos:   position{line: 1133, col: 5, offset: 34937},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1129, col: 14, offset: 34756},
+													pos: position{line: 1133, col: 14, offset: 34946},
 													expr: &actionExpr{
-														pos: position{line: 1177, col: 21, offset: 36099},
+														pos: position{line: 1181, col: 21, offset: 36289},
 														run: (*parser).callonDocumentHeader428,
 														expr: &seqExpr{
-															pos: position{line: 1177, col: 21, offset: 36099},
+															pos: position{line: 1181, col: 21, offset: 36289},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1177, col: 21, offset: 36099},
+																	pos: position{line: 1181, col: 21, offset: 36289},
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 10, offset: 90451},
+																		pos: position{line: 2864, col: 10, offset: 90641},
 																		run: (*parser).callonDocumentHeader431,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			pos:        position{line: 2864, col: 10, offset: 90641},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17686,55 +17969,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1177, col: 28, offset: 36106},
+																	pos: position{line: 1181, col: 28, offset: 36296},
 																	expr: &litMatcher{
-																		pos:        position{line: 1177, col: 29, offset: 36107},
+																		pos:        position{line: 1181, col: 29, offset: 36297},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1177, col: 33, offset: 36111},
+																	pos:   position{line: 1181, col: 33, offset: 36301},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1178, col: 9, offset: 36130},
+																		pos: position{line: 1182, col: 9, offset: 36320},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1178, col: 10, offset: 36131},
+																				pos: position{line: 1182, col: 10, offset: 36321},
 																				run: (*parser).callonDocumentHeader437,
 																				expr: &seqExpr{
-																					pos: position{line: 1178, col: 10, offset: 36131},
+																					pos: position{line: 1182, col: 10, offset: 36321},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1178, col: 10, offset: 36131},
+																							pos:   position{line: 1182, col: 10, offset: 36321},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1187, col: 27, offset: 36648},
+																								pos: position{line: 1191, col: 27, offset: 36838},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1187, col: 27, offset: 36648},
+																										pos: position{line: 1191, col: 27, offset: 36838},
 																										run: (*parser).callonDocumentHeader441,
 																										expr: &seqExpr{
-																											pos: position{line: 1187, col: 27, offset: 36648},
+																											pos: position{line: 1191, col: 27, offset: 36838},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1187, col: 27, offset: 36648},
+																													pos:        position{line: 1191, col: 27, offset: 36838},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1187, col: 32, offset: 36653},
+																													pos:        position{line: 1191, col: 32, offset: 36843},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1187, col: 38, offset: 36659},
+																													pos: position{line: 1191, col: 38, offset: 36849},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1187, col: 38, offset: 36659},
+																														pos:        position{line: 1191, col: 38, offset: 36849},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17745,31 +18028,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1189, col: 5, offset: 36707},
+																										pos: position{line: 1193, col: 5, offset: 36897},
 																										run: (*parser).callonDocumentHeader447,
 																										expr: &seqExpr{
-																											pos: position{line: 1189, col: 5, offset: 36707},
+																											pos: position{line: 1193, col: 5, offset: 36897},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1189, col: 5, offset: 36707},
+																													pos: position{line: 1193, col: 5, offset: 36897},
 																													expr: &litMatcher{
-																														pos:        position{line: 1189, col: 5, offset: 36707},
+																														pos:        position{line: 1193, col: 5, offset: 36897},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1189, col: 11, offset: 36713},
+																													pos:        position{line: 1193, col: 11, offset: 36903},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1189, col: 17, offset: 36719},
+																													pos: position{line: 1193, col: 17, offset: 36909},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1189, col: 17, offset: 36719},
+																														pos:        position{line: 1193, col: 17, offset: 36909},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -17777,12 +18060,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1189, col: 28, offset: 36730},
+																													pos: position{line: 1193, col: 28, offset: 36920},
 																													expr: &actionExpr{
-																														pos: position{line: 2860, col: 10, offset: 90451},
+																														pos: position{line: 2864, col: 10, offset: 90641},
 																														run: (*parser).callonDocumentHeader455,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2860, col: 10, offset: 90451},
+																															pos:        position{line: 2864, col: 10, offset: 90641},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -17791,9 +18074,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1189, col: 35, offset: 36737},
+																													pos: position{line: 1193, col: 35, offset: 36927},
 																													expr: &litMatcher{
-																														pos:        position{line: 1189, col: 36, offset: 36738},
+																														pos:        position{line: 1193, col: 36, offset: 36928},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -17806,26 +18089,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1178, col: 45, offset: 36166},
+																							pos: position{line: 1182, col: 45, offset: 36356},
 																							expr: &litMatcher{
-																								pos:        position{line: 1178, col: 45, offset: 36166},
+																								pos:        position{line: 1182, col: 45, offset: 36356},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1178, col: 50, offset: 36171},
+																							pos:   position{line: 1182, col: 50, offset: 36361},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1178, col: 58, offset: 36179},
+																								pos: position{line: 1182, col: 58, offset: 36369},
 																								expr: &actionExpr{
-																									pos: position{line: 1193, col: 25, offset: 36802},
+																									pos: position{line: 1197, col: 25, offset: 36992},
 																									run: (*parser).callonDocumentHeader463,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1193, col: 25, offset: 36802},
+																										pos: position{line: 1197, col: 25, offset: 36992},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1193, col: 25, offset: 36802},
+																											pos:        position{line: 1197, col: 25, offset: 36992},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -17836,26 +18119,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1178, col: 82, offset: 36203},
+																							pos: position{line: 1182, col: 82, offset: 36393},
 																							expr: &litMatcher{
-																								pos:        position{line: 1178, col: 82, offset: 36203},
+																								pos:        position{line: 1182, col: 82, offset: 36393},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1178, col: 87, offset: 36208},
+																							pos:   position{line: 1182, col: 87, offset: 36398},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1178, col: 97, offset: 36218},
+																								pos: position{line: 1182, col: 97, offset: 36408},
 																								expr: &actionExpr{
-																									pos: position{line: 1197, col: 27, offset: 36874},
+																									pos: position{line: 1201, col: 27, offset: 37064},
 																									run: (*parser).callonDocumentHeader470,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1197, col: 27, offset: 36874},
+																										pos: position{line: 1201, col: 27, offset: 37064},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1197, col: 27, offset: 36874},
+																											pos:        position{line: 1201, col: 27, offset: 37064},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -17869,21 +18152,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1180, col: 15, offset: 36336},
+																				pos: position{line: 1184, col: 15, offset: 36526},
 																				run: (*parser).callonDocumentHeader473,
 																				expr: &seqExpr{
-																					pos: position{line: 1180, col: 15, offset: 36336},
+																					pos: position{line: 1184, col: 15, offset: 36526},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1180, col: 15, offset: 36336},
+																							pos:   position{line: 1184, col: 15, offset: 36526},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1193, col: 25, offset: 36802},
+																								pos: position{line: 1197, col: 25, offset: 36992},
 																								run: (*parser).callonDocumentHeader476,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1193, col: 25, offset: 36802},
+																									pos: position{line: 1197, col: 25, offset: 36992},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1193, col: 25, offset: 36802},
+																										pos:        position{line: 1197, col: 25, offset: 36992},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -17893,26 +18176,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1180, col: 46, offset: 36367},
+																							pos: position{line: 1184, col: 46, offset: 36557},
 																							expr: &litMatcher{
-																								pos:        position{line: 1180, col: 46, offset: 36367},
+																								pos:        position{line: 1184, col: 46, offset: 36557},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1180, col: 51, offset: 36372},
+																							pos:   position{line: 1184, col: 51, offset: 36562},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1180, col: 61, offset: 36382},
+																								pos: position{line: 1184, col: 61, offset: 36572},
 																								expr: &actionExpr{
-																									pos: position{line: 1197, col: 27, offset: 36874},
+																									pos: position{line: 1201, col: 27, offset: 37064},
 																									run: (*parser).callonDocumentHeader483,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1197, col: 27, offset: 36874},
+																										pos: position{line: 1201, col: 27, offset: 37064},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1197, col: 27, offset: 36874},
+																											pos:        position{line: 1201, col: 27, offset: 37064},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -17929,28 +18212,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
+																			pos: position{line: 2873, col: 12, offset: 90812},
 																			run: (*parser).callonDocumentHeader487,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17959,9 +18242,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -17977,15 +18260,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1116, col: 5, offset: 34293},
+							pos:   position{line: 1120, col: 5, offset: 34483},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1116, col: 19, offset: 34307},
+								pos: position{line: 1120, col: 19, offset: 34497},
 								expr: &choiceExpr{
-									pos: position{line: 1116, col: 20, offset: 34308},
+									pos: position{line: 1120, col: 20, offset: 34498},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1116, col: 20, offset: 34308},
+											pos:  position{line: 1120, col: 20, offset: 34498},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
@@ -18041,10 +18324,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2860, col: 10, offset: 90451},
+															pos: position{line: 2864, col: 10, offset: 90641},
 															run: (*parser).callonDocumentHeader509,
 															expr: &charClassMatcher{
-																pos:        position{line: 2860, col: 10, offset: 90451},
+																pos:        position{line: 2864, col: 10, offset: 90641},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18053,28 +18336,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2882, col: 8, offset: 90849},
+														pos: position{line: 2886, col: 8, offset: 91039},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2869, col: 12, offset: 90622},
+																pos: position{line: 2873, col: 12, offset: 90812},
 																run: (*parser).callonDocumentHeader512,
 																expr: &choiceExpr{
-																	pos: position{line: 2869, col: 13, offset: 90623},
+																	pos: position{line: 2873, col: 13, offset: 90813},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 13, offset: 90623},
+																			pos:        position{line: 2873, col: 13, offset: 90813},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 20, offset: 90630},
+																			pos:        position{line: 2873, col: 20, offset: 90820},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 29, offset: 90639},
+																			pos:        position{line: 2873, col: 29, offset: 90829},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18083,9 +18366,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2879, col: 8, offset: 90799},
+																pos: position{line: 2883, col: 8, offset: 90989},
 																expr: &anyMatcher{
-																	line: 2879, col: 9, offset: 90800,
+																	line: 2883, col: 9, offset: 90990,
 																},
 															},
 														},
@@ -18146,10 +18429,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2860, col: 10, offset: 90451},
+															pos: position{line: 2864, col: 10, offset: 90641},
 															run: (*parser).callonDocumentHeader530,
 															expr: &charClassMatcher{
-																pos:        position{line: 2860, col: 10, offset: 90451},
+																pos:        position{line: 2864, col: 10, offset: 90641},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18158,28 +18441,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2882, col: 8, offset: 90849},
+														pos: position{line: 2886, col: 8, offset: 91039},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2869, col: 12, offset: 90622},
+																pos: position{line: 2873, col: 12, offset: 90812},
 																run: (*parser).callonDocumentHeader533,
 																expr: &choiceExpr{
-																	pos: position{line: 2869, col: 13, offset: 90623},
+																	pos: position{line: 2873, col: 13, offset: 90813},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 13, offset: 90623},
+																			pos:        position{line: 2873, col: 13, offset: 90813},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 20, offset: 90630},
+																			pos:        position{line: 2873, col: 20, offset: 90820},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 29, offset: 90639},
+																			pos:        position{line: 2873, col: 29, offset: 90829},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18188,9 +18471,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2879, col: 8, offset: 90799},
+																pos: position{line: 2883, col: 8, offset: 90989},
 																expr: &anyMatcher{
-																	line: 2879, col: 9, offset: 90800,
+																	line: 2883, col: 9, offset: 90990,
 																},
 															},
 														},
@@ -18199,36 +18482,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2470, col: 22, offset: 79436},
+											pos: position{line: 2474, col: 22, offset: 79626},
 											run: (*parser).callonDocumentHeader540,
 											expr: &seqExpr{
-												pos: position{line: 2470, col: 22, offset: 79436},
+												pos: position{line: 2474, col: 22, offset: 79626},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2475, col: 31, offset: 79657},
+														pos:        position{line: 2479, col: 31, offset: 79847},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2475, col: 36, offset: 79662},
+														pos: position{line: 2479, col: 36, offset: 79852},
 														expr: &litMatcher{
-															pos:        position{line: 2475, col: 37, offset: 79663},
+															pos:        position{line: 2479, col: 37, offset: 79853},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2470, col: 49, offset: 79463},
+														pos:   position{line: 2474, col: 49, offset: 79653},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2806, col: 13, offset: 88977},
+															pos: position{line: 2810, col: 13, offset: 89167},
 															run: (*parser).callonDocumentHeader546,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2806, col: 13, offset: 88977},
+																pos: position{line: 2810, col: 13, offset: 89167},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2806, col: 13, offset: 88977},
+																	pos:        position{line: 2810, col: 13, offset: 89167},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18238,28 +18521,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2882, col: 8, offset: 90849},
+														pos: position{line: 2886, col: 8, offset: 91039},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2869, col: 12, offset: 90622},
+																pos: position{line: 2873, col: 12, offset: 90812},
 																run: (*parser).callonDocumentHeader550,
 																expr: &choiceExpr{
-																	pos: position{line: 2869, col: 13, offset: 90623},
+																	pos: position{line: 2873, col: 13, offset: 90813},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 13, offset: 90623},
+																			pos:        position{line: 2873, col: 13, offset: 90813},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 20, offset: 90630},
+																			pos:        position{line: 2873, col: 20, offset: 90820},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 29, offset: 90639},
+																			pos:        position{line: 2873, col: 29, offset: 90829},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18268,9 +18551,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2879, col: 8, offset: 90799},
+																pos: position{line: 2883, col: 8, offset: 90989},
 																expr: &anyMatcher{
-																	line: 2879, col: 9, offset: 90800,
+																	line: 2883, col: 9, offset: 90990,
 																},
 															},
 														},
@@ -18324,10 +18607,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 742, col: 8, offset: 23686},
 																		expr: &actionExpr{
-																			pos: position{line: 2860, col: 10, offset: 90451},
+																			pos: position{line: 2864, col: 10, offset: 90641},
 																			run: (*parser).callonDocumentHeader569,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2860, col: 10, offset: 90451},
+																				pos:        position{line: 2864, col: 10, offset: 90641},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -18336,28 +18619,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2882, col: 8, offset: 90849},
+																		pos: position{line: 2886, col: 8, offset: 91039},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90622},
+																				pos: position{line: 2873, col: 12, offset: 90812},
 																				run: (*parser).callonDocumentHeader572,
 																				expr: &choiceExpr{
-																					pos: position{line: 2869, col: 13, offset: 90623},
+																					pos: position{line: 2873, col: 13, offset: 90813},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							pos:        position{line: 2873, col: 13, offset: 90813},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							pos:        position{line: 2873, col: 20, offset: 90820},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							pos:        position{line: 2873, col: 29, offset: 90829},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18366,9 +18649,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2879, col: 8, offset: 90799},
+																				pos: position{line: 2883, col: 8, offset: 90989},
 																				expr: &anyMatcher{
-																					line: 2879, col: 9, offset: 90800,
+																					line: 2883, col: 9, offset: 90990,
 																				},
 																			},
 																		},
@@ -18440,10 +18723,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 742, col: 8, offset: 23686},
 																												expr: &actionExpr{
-																													pos: position{line: 2860, col: 10, offset: 90451},
+																													pos: position{line: 2864, col: 10, offset: 90641},
 																													run: (*parser).callonDocumentHeader597,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2860, col: 10, offset: 90451},
+																														pos:        position{line: 2864, col: 10, offset: 90641},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -18452,28 +18735,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2882, col: 8, offset: 90849},
+																												pos: position{line: 2886, col: 8, offset: 91039},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2869, col: 12, offset: 90622},
+																														pos: position{line: 2873, col: 12, offset: 90812},
 																														run: (*parser).callonDocumentHeader600,
 																														expr: &choiceExpr{
-																															pos: position{line: 2869, col: 13, offset: 90623},
+																															pos: position{line: 2873, col: 13, offset: 90813},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 13, offset: 90623},
+																																	pos:        position{line: 2873, col: 13, offset: 90813},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 20, offset: 90630},
+																																	pos:        position{line: 2873, col: 20, offset: 90820},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2869, col: 29, offset: 90639},
+																																	pos:        position{line: 2873, col: 29, offset: 90829},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -18482,9 +18765,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2879, col: 8, offset: 90799},
+																														pos: position{line: 2883, col: 8, offset: 90989},
 																														expr: &anyMatcher{
-																															line: 2879, col: 9, offset: 90800,
+																															line: 2883, col: 9, offset: 90990,
 																														},
 																													},
 																												},
@@ -18500,9 +18783,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2879, col: 8, offset: 90799},
+																						pos: position{line: 2883, col: 8, offset: 90989},
 																						expr: &anyMatcher{
-																							line: 2879, col: 9, offset: 90800,
+																							line: 2883, col: 9, offset: 90990,
 																						},
 																					},
 																				},
@@ -18518,21 +18801,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2877, col: 11, offset: 90785},
+																							pos: position{line: 2881, col: 11, offset: 90975},
 																							expr: &anyMatcher{
-																								line: 2877, col: 13, offset: 90787,
+																								line: 2881, col: 13, offset: 90977,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2806, col: 13, offset: 88977},
+																								pos: position{line: 2810, col: 13, offset: 89167},
 																								run: (*parser).callonDocumentHeader616,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2806, col: 13, offset: 88977},
+																									pos: position{line: 2810, col: 13, offset: 89167},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2806, col: 13, offset: 88977},
+																										pos:        position{line: 2810, col: 13, offset: 89167},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18542,28 +18825,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonDocumentHeader620,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18572,9 +18855,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -18639,10 +18922,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2860, col: 10, offset: 90451},
+																									pos: position{line: 2864, col: 10, offset: 90641},
 																									run: (*parser).callonDocumentHeader641,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2860, col: 10, offset: 90451},
+																										pos:        position{line: 2864, col: 10, offset: 90641},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -18651,28 +18934,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2882, col: 8, offset: 90849},
+																								pos: position{line: 2886, col: 8, offset: 91039},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2869, col: 12, offset: 90622},
+																										pos: position{line: 2873, col: 12, offset: 90812},
 																										run: (*parser).callonDocumentHeader644,
 																										expr: &choiceExpr{
-																											pos: position{line: 2869, col: 13, offset: 90623},
+																											pos: position{line: 2873, col: 13, offset: 90813},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 13, offset: 90623},
+																													pos:        position{line: 2873, col: 13, offset: 90813},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 20, offset: 90630},
+																													pos:        position{line: 2873, col: 20, offset: 90820},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 29, offset: 90639},
+																													pos:        position{line: 2873, col: 29, offset: 90829},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -18681,9 +18964,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2879, col: 8, offset: 90799},
+																										pos: position{line: 2883, col: 8, offset: 90989},
 																										expr: &anyMatcher{
-																											line: 2879, col: 9, offset: 90800,
+																											line: 2883, col: 9, offset: 90990,
 																										},
 																									},
 																								},
@@ -18699,9 +18982,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2879, col: 8, offset: 90799},
+																		pos: position{line: 2883, col: 8, offset: 90989},
 																		expr: &anyMatcher{
-																			line: 2879, col: 9, offset: 90800,
+																			line: 2883, col: 9, offset: 90990,
 																		},
 																	},
 																},
@@ -18721,26 +19004,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1120, col: 1, offset: 34505},
+			pos:  position{line: 1124, col: 1, offset: 34695},
 			expr: &actionExpr{
-				pos: position{line: 1121, col: 5, offset: 34527},
+				pos: position{line: 1125, col: 5, offset: 34717},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1121, col: 5, offset: 34527},
+					pos: position{line: 1125, col: 5, offset: 34717},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1121, col: 5, offset: 34527},
+							pos:        position{line: 1125, col: 5, offset: 34717},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2864, col: 11, offset: 90512},
+							pos: position{line: 2868, col: 11, offset: 90702},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2864, col: 11, offset: 90512},
+								pos: position{line: 2868, col: 11, offset: 90702},
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 11, offset: 90512},
+									pos:        position{line: 2868, col: 11, offset: 90702},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18749,36 +19032,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1121, col: 16, offset: 34538},
+							pos:   position{line: 1125, col: 16, offset: 34728},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1121, col: 23, offset: 34545},
+								pos:  position{line: 1125, col: 23, offset: 34735},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2882, col: 8, offset: 90849},
+							pos: position{line: 2886, col: 8, offset: 91039},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2869, col: 12, offset: 90622},
+									pos: position{line: 2873, col: 12, offset: 90812},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2869, col: 13, offset: 90623},
+										pos: position{line: 2873, col: 13, offset: 90813},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2869, col: 13, offset: 90623},
+												pos:        position{line: 2873, col: 13, offset: 90813},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2869, col: 20, offset: 90630},
+												pos:        position{line: 2873, col: 20, offset: 90820},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2869, col: 29, offset: 90639},
+												pos:        position{line: 2873, col: 29, offset: 90829},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -18787,9 +19070,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2879, col: 8, offset: 90799},
+									pos: position{line: 2883, col: 8, offset: 90989},
 									expr: &anyMatcher{
-										line: 2879, col: 9, offset: 90800,
+										line: 2883, col: 9, offset: 90990,
 									},
 								},
 							},
@@ -18800,23 +19083,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1148, col: 1, offset: 35385},
+			pos:  position{line: 1152, col: 1, offset: 35575},
 			expr: &actionExpr{
-				pos: position{line: 1149, col: 5, offset: 35416},
+				pos: position{line: 1153, col: 5, offset: 35606},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1149, col: 5, offset: 35416},
+					pos: position{line: 1153, col: 5, offset: 35606},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1149, col: 5, offset: 35416},
+							pos:   position{line: 1153, col: 5, offset: 35606},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1149, col: 12, offset: 35423},
+								pos: position{line: 1153, col: 12, offset: 35613},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1149, col: 12, offset: 35423},
+									pos: position{line: 1153, col: 12, offset: 35613},
 									expr: &charClassMatcher{
-										pos:        position{line: 1149, col: 12, offset: 35423},
+										pos:        position{line: 1153, col: 12, offset: 35613},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -18826,12 +19109,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1152, col: 5, offset: 35503},
+							pos: position{line: 1156, col: 5, offset: 35693},
 							expr: &actionExpr{
-								pos: position{line: 2860, col: 10, offset: 90451},
+								pos: position{line: 2864, col: 10, offset: 90641},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2860, col: 10, offset: 90451},
+									pos:        position{line: 2864, col: 10, offset: 90641},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18840,17 +19123,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1153, col: 5, offset: 35514},
+							pos:   position{line: 1157, col: 5, offset: 35704},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1153, col: 11, offset: 35520},
+								pos: position{line: 1157, col: 11, offset: 35710},
 								expr: &actionExpr{
-									pos: position{line: 1153, col: 12, offset: 35521},
+									pos: position{line: 1157, col: 12, offset: 35711},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1153, col: 12, offset: 35521},
+										pos: position{line: 1157, col: 12, offset: 35711},
 										expr: &charClassMatcher{
-											pos:        position{line: 1153, col: 12, offset: 35521},
+											pos:        position{line: 1157, col: 12, offset: 35711},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -18861,12 +19144,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1156, col: 5, offset: 35602},
+							pos: position{line: 1160, col: 5, offset: 35792},
 							expr: &actionExpr{
-								pos: position{line: 2860, col: 10, offset: 90451},
+								pos: position{line: 2864, col: 10, offset: 90641},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2860, col: 10, offset: 90451},
+									pos:        position{line: 2864, col: 10, offset: 90641},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18875,17 +19158,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1157, col: 5, offset: 35613},
+							pos:   position{line: 1161, col: 5, offset: 35803},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1157, col: 11, offset: 35619},
+								pos: position{line: 1161, col: 11, offset: 35809},
 								expr: &actionExpr{
-									pos: position{line: 1157, col: 12, offset: 35620},
+									pos: position{line: 1161, col: 12, offset: 35810},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1157, col: 12, offset: 35620},
+										pos: position{line: 1161, col: 12, offset: 35810},
 										expr: &charClassMatcher{
-											pos:        position{line: 1157, col: 12, offset: 35620},
+											pos:        position{line: 1161, col: 12, offset: 35810},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -18896,12 +19179,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1160, col: 5, offset: 35699},
+							pos: position{line: 1164, col: 5, offset: 35889},
 							expr: &actionExpr{
-								pos: position{line: 2860, col: 10, offset: 90451},
+								pos: position{line: 2864, col: 10, offset: 90641},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2860, col: 10, offset: 90451},
+									pos:        position{line: 2864, col: 10, offset: 90641},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -18915,28 +19198,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1273, col: 1, offset: 39428},
+			pos:  position{line: 1277, col: 1, offset: 39618},
 			expr: &actionExpr{
-				pos: position{line: 1274, col: 5, offset: 39449},
+				pos: position{line: 1278, col: 5, offset: 39639},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1274, col: 5, offset: 39449},
+					pos: position{line: 1278, col: 5, offset: 39639},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1274, col: 5, offset: 39449},
+							pos: position{line: 1278, col: 5, offset: 39639},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1277, col: 5, offset: 39508},
+							pos:        position{line: 1281, col: 5, offset: 39698},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1277, col: 12, offset: 39515},
+							pos:   position{line: 1281, col: 12, offset: 39705},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1277, col: 24, offset: 39527},
+								pos:  position{line: 1281, col: 24, offset: 39717},
 								name: "InlineAttributes",
 							},
 						},
@@ -18946,33 +19229,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1284, col: 1, offset: 39815},
+			pos:  position{line: 1288, col: 1, offset: 40005},
 			expr: &actionExpr{
-				pos: position{line: 1285, col: 5, offset: 39834},
+				pos: position{line: 1289, col: 5, offset: 40024},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1285, col: 5, offset: 39834},
+					pos: position{line: 1289, col: 5, offset: 40024},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1285, col: 5, offset: 39834},
+							pos: position{line: 1289, col: 5, offset: 40024},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1288, col: 5, offset: 39893},
+							pos:        position{line: 1292, col: 5, offset: 40083},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1288, col: 13, offset: 39901},
+							pos:   position{line: 1292, col: 13, offset: 40091},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2845, col: 7, offset: 90103},
+								pos: position{line: 2849, col: 7, offset: 90293},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2845, col: 7, offset: 90103},
+									pos: position{line: 2849, col: 7, offset: 90293},
 									expr: &charClassMatcher{
-										pos:        position{line: 2845, col: 7, offset: 90103},
+										pos:        position{line: 2849, col: 7, offset: 90293},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -18982,10 +19265,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1288, col: 21, offset: 39909},
+							pos:   position{line: 1292, col: 21, offset: 40099},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1288, col: 33, offset: 39921},
+								pos:  position{line: 1292, col: 33, offset: 40111},
 								name: "InlineAttributes",
 							},
 						},
@@ -18995,29 +19278,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1295, col: 1, offset: 40220},
+			pos:  position{line: 1299, col: 1, offset: 40410},
 			expr: &actionExpr{
-				pos: position{line: 1295, col: 14, offset: 40233},
+				pos: position{line: 1299, col: 14, offset: 40423},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1295, col: 14, offset: 40233},
+					pos: position{line: 1299, col: 14, offset: 40423},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1295, col: 14, offset: 40233},
+							pos:        position{line: 1299, col: 14, offset: 40423},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1295, col: 19, offset: 40238},
+							pos:   position{line: 1299, col: 19, offset: 40428},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1295, col: 25, offset: 40244},
+								pos:  position{line: 1299, col: 25, offset: 40434},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1295, col: 43, offset: 40262},
+							pos:        position{line: 1299, col: 43, offset: 40452},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19028,25 +19311,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1299, col: 1, offset: 40331},
+			pos:  position{line: 1303, col: 1, offset: 40521},
 			expr: &actionExpr{
-				pos: position{line: 1299, col: 21, offset: 40351},
+				pos: position{line: 1303, col: 21, offset: 40541},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1299, col: 21, offset: 40351},
+					pos:   position{line: 1303, col: 21, offset: 40541},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1299, col: 30, offset: 40360},
+						pos: position{line: 1303, col: 30, offset: 40550},
 						expr: &choiceExpr{
-							pos: position{line: 1299, col: 31, offset: 40361},
+							pos: position{line: 1303, col: 31, offset: 40551},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2754, col: 14, offset: 87620},
+									pos: position{line: 2758, col: 14, offset: 87810},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2754, col: 14, offset: 87620},
+										pos: position{line: 2758, col: 14, offset: 87810},
 										expr: &charClassMatcher{
-											pos:        position{line: 2754, col: 14, offset: 87620},
+											pos:        position{line: 2758, col: 14, offset: 87810},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19055,14 +19338,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1299, col: 43, offset: 40373},
+									pos:  position{line: 1303, col: 43, offset: 40563},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2860, col: 10, offset: 90451},
+									pos: position{line: 2864, col: 10, offset: 90641},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2860, col: 10, offset: 90451},
+										pos:        position{line: 2864, col: 10, offset: 90641},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19070,23 +19353,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2457, col: 5, offset: 78982},
+									pos: position{line: 2461, col: 5, offset: 79172},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2457, col: 5, offset: 78982},
+										pos: position{line: 2461, col: 5, offset: 79172},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2457, col: 5, offset: 78982},
+												pos: position{line: 2461, col: 5, offset: 79172},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2460, col: 5, offset: 79058},
+												pos:   position{line: 2464, col: 5, offset: 79248},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2461, col: 9, offset: 79076},
+													pos: position{line: 2465, col: 9, offset: 79266},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2461, col: 10, offset: 79077},
+														pos:        position{line: 2465, col: 10, offset: 79267},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19098,27 +19381,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1206, col: 23, offset: 37184},
+									pos: position{line: 1210, col: 23, offset: 37374},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1206, col: 23, offset: 37184},
+										pos: position{line: 1210, col: 23, offset: 37374},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1204, col: 32, offset: 37152},
+												pos:        position{line: 1208, col: 32, offset: 37342},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1206, col: 51, offset: 37212},
+												pos:   position{line: 1210, col: 51, offset: 37402},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1206, col: 56, offset: 37217},
+													pos: position{line: 1210, col: 56, offset: 37407},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1206, col: 56, offset: 37217},
+														pos: position{line: 1210, col: 56, offset: 37407},
 														expr: &charClassMatcher{
-															pos:        position{line: 1206, col: 56, offset: 37217},
+															pos:        position{line: 1210, col: 56, offset: 37407},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -19128,7 +19411,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1204, col: 32, offset: 37152},
+												pos:        position{line: 1208, col: 32, offset: 37342},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
@@ -19137,22 +19420,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1299, col: 104, offset: 40434},
+									pos: position{line: 1303, col: 104, offset: 40624},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1299, col: 105, offset: 40435},
+										pos: position{line: 1303, col: 105, offset: 40625},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1299, col: 105, offset: 40435},
+												pos: position{line: 1303, col: 105, offset: 40625},
 												expr: &litMatcher{
-													pos:        position{line: 1299, col: 106, offset: 40436},
+													pos:        position{line: 1303, col: 106, offset: 40626},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1299, col: 111, offset: 40441,
+												line: 1303, col: 111, offset: 40631,
 											},
 										},
 									},
@@ -19165,65 +19448,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1319, col: 1, offset: 41150},
+			pos:  position{line: 1323, col: 1, offset: 41340},
 			expr: &actionExpr{
-				pos: position{line: 1320, col: 5, offset: 41169},
+				pos: position{line: 1324, col: 5, offset: 41359},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1320, col: 5, offset: 41169},
+					pos: position{line: 1324, col: 5, offset: 41359},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1320, col: 5, offset: 41169},
+							pos:        position{line: 1324, col: 5, offset: 41359},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1320, col: 15, offset: 41179},
+							pos:   position{line: 1324, col: 15, offset: 41369},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2818, col: 13, offset: 89210},
+								pos: position{line: 2822, col: 13, offset: 89400},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2818, col: 13, offset: 89210},
+									pos: position{line: 2822, col: 13, offset: 89400},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2818, col: 13, offset: 89210},
+											pos:   position{line: 2822, col: 13, offset: 89400},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2818, col: 20, offset: 89217},
+												pos: position{line: 2822, col: 20, offset: 89407},
 												expr: &actionExpr{
-													pos: position{line: 2826, col: 11, offset: 89456},
+													pos: position{line: 2830, col: 11, offset: 89646},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2826, col: 12, offset: 89457},
+														pos: position{line: 2830, col: 12, offset: 89647},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2826, col: 12, offset: 89457},
+																pos:        position{line: 2830, col: 12, offset: 89647},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2826, col: 24, offset: 89469},
+																pos:        position{line: 2830, col: 24, offset: 89659},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2826, col: 37, offset: 89482},
+																pos:        position{line: 2830, col: 37, offset: 89672},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2826, col: 48, offset: 89493},
+																pos:        position{line: 2830, col: 48, offset: 89683},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2826, col: 59, offset: 89504},
+																pos:        position{line: 2830, col: 59, offset: 89694},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19234,38 +19517,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2818, col: 30, offset: 89227},
+											pos:   position{line: 2822, col: 30, offset: 89417},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2831, col: 5, offset: 89568},
+												pos: position{line: 2835, col: 5, offset: 89758},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2831, col: 5, offset: 89568},
+													pos:   position{line: 2835, col: 5, offset: 89758},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2831, col: 14, offset: 89577},
+														pos: position{line: 2835, col: 14, offset: 89767},
 														expr: &choiceExpr{
-															pos: position{line: 2832, col: 9, offset: 89587},
+															pos: position{line: 2836, col: 9, offset: 89777},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2832, col: 9, offset: 89587},
+																	pos: position{line: 2836, col: 9, offset: 89777},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2832, col: 9, offset: 89587},
+																		pos: position{line: 2836, col: 9, offset: 89777},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2832, col: 9, offset: 89587},
+																				pos: position{line: 2836, col: 9, offset: 89777},
 																				expr: &litMatcher{
-																					pos:        position{line: 2832, col: 10, offset: 89588},
+																					pos:        position{line: 2836, col: 10, offset: 89778},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2833, col: 9, offset: 89616},
+																				pos: position{line: 2837, col: 9, offset: 89806},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2833, col: 10, offset: 89617},
+																					pos:        position{line: 2837, col: 10, offset: 89807},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19276,27 +19559,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2836, col: 11, offset: 89829},
+																	pos: position{line: 2840, col: 11, offset: 90019},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2836, col: 11, offset: 89829},
+																			pos:        position{line: 2840, col: 11, offset: 90019},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2836, col: 19, offset: 89837},
+																			pos: position{line: 2840, col: 19, offset: 90027},
 																			expr: &seqExpr{
-																				pos: position{line: 2836, col: 21, offset: 89839},
+																				pos: position{line: 2840, col: 21, offset: 90029},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2836, col: 21, offset: 89839},
+																						pos: position{line: 2840, col: 21, offset: 90029},
 																						expr: &actionExpr{
-																							pos: position{line: 2860, col: 10, offset: 90451},
+																							pos: position{line: 2864, col: 10, offset: 90641},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2860, col: 10, offset: 90451},
+																								pos:        position{line: 2864, col: 10, offset: 90641},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19305,11 +19588,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2836, col: 28, offset: 89846},
+																						pos: position{line: 2840, col: 28, offset: 90036},
 																						expr: &notExpr{
-																							pos: position{line: 2879, col: 8, offset: 90799},
+																							pos: position{line: 2883, col: 8, offset: 90989},
 																							expr: &anyMatcher{
-																								line: 2879, col: 9, offset: 90800,
+																								line: 2883, col: 9, offset: 90990,
 																							},
 																						},
 																					},
@@ -19665,27 +19948,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1206, col: 23, offset: 37184},
+																	pos: position{line: 1210, col: 23, offset: 37374},
 																	run: (*parser).callonImageBlock106,
 																	expr: &seqExpr{
-																		pos: position{line: 1206, col: 23, offset: 37184},
+																		pos: position{line: 1210, col: 23, offset: 37374},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1204, col: 32, offset: 37152},
+																				pos:        position{line: 1208, col: 32, offset: 37342},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1206, col: 51, offset: 37212},
+																				pos:   position{line: 1210, col: 51, offset: 37402},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1206, col: 56, offset: 37217},
+																					pos: position{line: 1210, col: 56, offset: 37407},
 																					run: (*parser).callonImageBlock110,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1206, col: 56, offset: 37217},
+																						pos: position{line: 1210, col: 56, offset: 37407},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1206, col: 56, offset: 37217},
+																							pos:        position{line: 1210, col: 56, offset: 37407},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -19695,7 +19978,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1204, col: 32, offset: 37152},
+																				pos:        position{line: 1208, col: 32, offset: 37342},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -19704,10 +19987,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2839, col: 11, offset: 89966},
+																	pos: position{line: 2843, col: 11, offset: 90156},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2839, col: 11, offset: 89966},
+																		pos:        position{line: 2843, col: 11, offset: 90156},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -19724,20 +20007,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1320, col: 31, offset: 41195},
+							pos:   position{line: 1324, col: 31, offset: 41385},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1320, col: 43, offset: 41207},
+								pos:  position{line: 1324, col: 43, offset: 41397},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1320, col: 61, offset: 41225},
+							pos: position{line: 1324, col: 61, offset: 41415},
 							expr: &actionExpr{
-								pos: position{line: 2860, col: 10, offset: 90451},
+								pos: position{line: 2864, col: 10, offset: 90641},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2860, col: 10, offset: 90451},
+									pos:        position{line: 2864, col: 10, offset: 90641},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19746,28 +20029,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2882, col: 8, offset: 90849},
+							pos: position{line: 2886, col: 8, offset: 91039},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2869, col: 12, offset: 90622},
+									pos: position{line: 2873, col: 12, offset: 90812},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2869, col: 13, offset: 90623},
+										pos: position{line: 2873, col: 13, offset: 90813},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2869, col: 13, offset: 90623},
+												pos:        position{line: 2873, col: 13, offset: 90813},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2869, col: 20, offset: 90630},
+												pos:        position{line: 2873, col: 20, offset: 90820},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2869, col: 29, offset: 90639},
+												pos:        position{line: 2873, col: 29, offset: 90829},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19776,9 +20059,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2879, col: 8, offset: 90799},
+									pos: position{line: 2883, col: 8, offset: 90989},
 									expr: &anyMatcher{
-										line: 2879, col: 9, offset: 90800,
+										line: 2883, col: 9, offset: 90990,
 									},
 								},
 							},
@@ -19789,74 +20072,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1325, col: 1, offset: 41442},
+			pos:  position{line: 1329, col: 1, offset: 41632},
 			expr: &actionExpr{
-				pos: position{line: 1325, col: 16, offset: 41457},
+				pos: position{line: 1329, col: 16, offset: 41647},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1325, col: 16, offset: 41457},
+					pos: position{line: 1329, col: 16, offset: 41647},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1325, col: 16, offset: 41457},
+							pos:        position{line: 1329, col: 16, offset: 41647},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1325, col: 25, offset: 41466},
+							pos: position{line: 1329, col: 25, offset: 41656},
 							expr: &litMatcher{
-								pos:        position{line: 1325, col: 26, offset: 41467},
+								pos:        position{line: 1329, col: 26, offset: 41657},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1325, col: 30, offset: 41471},
+							pos:   position{line: 1329, col: 30, offset: 41661},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2818, col: 13, offset: 89210},
+								pos: position{line: 2822, col: 13, offset: 89400},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2818, col: 13, offset: 89210},
+									pos: position{line: 2822, col: 13, offset: 89400},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2818, col: 13, offset: 89210},
+											pos:   position{line: 2822, col: 13, offset: 89400},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2818, col: 20, offset: 89217},
+												pos: position{line: 2822, col: 20, offset: 89407},
 												expr: &actionExpr{
-													pos: position{line: 2826, col: 11, offset: 89456},
+													pos: position{line: 2830, col: 11, offset: 89646},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2826, col: 12, offset: 89457},
+														pos: position{line: 2830, col: 12, offset: 89647},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2826, col: 12, offset: 89457},
+																pos:        position{line: 2830, col: 12, offset: 89647},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2826, col: 24, offset: 89469},
+																pos:        position{line: 2830, col: 24, offset: 89659},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2826, col: 37, offset: 89482},
+																pos:        position{line: 2830, col: 37, offset: 89672},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2826, col: 48, offset: 89493},
+																pos:        position{line: 2830, col: 48, offset: 89683},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2826, col: 59, offset: 89504},
+																pos:        position{line: 2830, col: 59, offset: 89694},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19867,38 +20150,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2818, col: 30, offset: 89227},
+											pos:   position{line: 2822, col: 30, offset: 89417},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2831, col: 5, offset: 89568},
+												pos: position{line: 2835, col: 5, offset: 89758},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2831, col: 5, offset: 89568},
+													pos:   position{line: 2835, col: 5, offset: 89758},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2831, col: 14, offset: 89577},
+														pos: position{line: 2835, col: 14, offset: 89767},
 														expr: &choiceExpr{
-															pos: position{line: 2832, col: 9, offset: 89587},
+															pos: position{line: 2836, col: 9, offset: 89777},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2832, col: 9, offset: 89587},
+																	pos: position{line: 2836, col: 9, offset: 89777},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2832, col: 9, offset: 89587},
+																		pos: position{line: 2836, col: 9, offset: 89777},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2832, col: 9, offset: 89587},
+																				pos: position{line: 2836, col: 9, offset: 89777},
 																				expr: &litMatcher{
-																					pos:        position{line: 2832, col: 10, offset: 89588},
+																					pos:        position{line: 2836, col: 10, offset: 89778},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2833, col: 9, offset: 89616},
+																				pos: position{line: 2837, col: 9, offset: 89806},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2833, col: 10, offset: 89617},
+																					pos:        position{line: 2837, col: 10, offset: 89807},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19909,27 +20192,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2836, col: 11, offset: 89829},
+																	pos: position{line: 2840, col: 11, offset: 90019},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2836, col: 11, offset: 89829},
+																			pos:        position{line: 2840, col: 11, offset: 90019},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2836, col: 19, offset: 89837},
+																			pos: position{line: 2840, col: 19, offset: 90027},
 																			expr: &seqExpr{
-																				pos: position{line: 2836, col: 21, offset: 89839},
+																				pos: position{line: 2840, col: 21, offset: 90029},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2836, col: 21, offset: 89839},
+																						pos: position{line: 2840, col: 21, offset: 90029},
 																						expr: &actionExpr{
-																							pos: position{line: 2860, col: 10, offset: 90451},
+																							pos: position{line: 2864, col: 10, offset: 90641},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2860, col: 10, offset: 90451},
+																								pos:        position{line: 2864, col: 10, offset: 90641},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19938,11 +20221,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2836, col: 28, offset: 89846},
+																						pos: position{line: 2840, col: 28, offset: 90036},
 																						expr: &notExpr{
-																							pos: position{line: 2879, col: 8, offset: 90799},
+																							pos: position{line: 2883, col: 8, offset: 90989},
 																							expr: &anyMatcher{
-																								line: 2879, col: 9, offset: 90800,
+																								line: 2883, col: 9, offset: 90990,
 																							},
 																						},
 																					},
@@ -20298,27 +20581,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1206, col: 23, offset: 37184},
+																	pos: position{line: 1210, col: 23, offset: 37374},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1206, col: 23, offset: 37184},
+																		pos: position{line: 1210, col: 23, offset: 37374},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1204, col: 32, offset: 37152},
+																				pos:        position{line: 1208, col: 32, offset: 37342},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1206, col: 51, offset: 37212},
+																				pos:   position{line: 1210, col: 51, offset: 37402},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1206, col: 56, offset: 37217},
+																					pos: position{line: 1210, col: 56, offset: 37407},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1206, col: 56, offset: 37217},
+																						pos: position{line: 1210, col: 56, offset: 37407},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1206, col: 56, offset: 37217},
+																							pos:        position{line: 1210, col: 56, offset: 37407},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20328,7 +20611,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1204, col: 32, offset: 37152},
+																				pos:        position{line: 1208, col: 32, offset: 37342},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20337,10 +20620,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2839, col: 11, offset: 89966},
+																	pos: position{line: 2843, col: 11, offset: 90156},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2839, col: 11, offset: 89966},
+																		pos:        position{line: 2843, col: 11, offset: 90156},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20357,10 +20640,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1325, col: 46, offset: 41487},
+							pos:   position{line: 1329, col: 46, offset: 41677},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1325, col: 58, offset: 41499},
+								pos:  position{line: 1329, col: 58, offset: 41689},
 								name: "InlineAttributes",
 							},
 						},
@@ -20370,29 +20653,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1332, col: 1, offset: 41895},
+			pos:  position{line: 1336, col: 1, offset: 42085},
 			expr: &actionExpr{
-				pos: position{line: 1332, col: 15, offset: 41909},
+				pos: position{line: 1336, col: 15, offset: 42099},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1332, col: 15, offset: 41909},
+					pos: position{line: 1336, col: 15, offset: 42099},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1332, col: 15, offset: 41909},
+							pos:        position{line: 1336, col: 15, offset: 42099},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1332, col: 23, offset: 41917},
+							pos:   position{line: 1336, col: 23, offset: 42107},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1332, col: 29, offset: 41923},
+								pos: position{line: 1336, col: 29, offset: 42113},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1332, col: 29, offset: 41923},
+									pos: position{line: 1336, col: 29, offset: 42113},
 									expr: &charClassMatcher{
-										pos:        position{line: 1332, col: 29, offset: 41923},
+										pos:        position{line: 1336, col: 29, offset: 42113},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20403,10 +20686,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1332, col: 73, offset: 41967},
+							pos:   position{line: 1336, col: 73, offset: 42157},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1332, col: 85, offset: 41979},
+								pos:  position{line: 1336, col: 85, offset: 42169},
 								name: "InlineAttributes",
 							},
 						},
@@ -20416,31 +20699,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1339, col: 1, offset: 42345},
+			pos:  position{line: 1343, col: 1, offset: 42535},
 			expr: &actionExpr{
-				pos: position{line: 1339, col: 19, offset: 42363},
+				pos: position{line: 1343, col: 19, offset: 42553},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1339, col: 19, offset: 42363},
+					pos: position{line: 1343, col: 19, offset: 42553},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1339, col: 19, offset: 42363},
+							pos:        position{line: 1343, col: 19, offset: 42553},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1339, col: 31, offset: 42375},
+							pos:   position{line: 1343, col: 31, offset: 42565},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1339, col: 35, offset: 42379},
+								pos: position{line: 1343, col: 35, offset: 42569},
 								expr: &actionExpr{
-									pos: position{line: 2754, col: 14, offset: 87620},
+									pos: position{line: 2758, col: 14, offset: 87810},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2754, col: 14, offset: 87620},
+										pos: position{line: 2758, col: 14, offset: 87810},
 										expr: &charClassMatcher{
-											pos:        position{line: 2754, col: 14, offset: 87620},
+											pos:        position{line: 2758, col: 14, offset: 87810},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20451,21 +20734,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1339, col: 50, offset: 42394},
+							pos:        position{line: 1343, col: 50, offset: 42584},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1339, col: 54, offset: 42398},
+							pos:   position{line: 1343, col: 54, offset: 42588},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1339, col: 64, offset: 42408},
+								pos:  position{line: 1343, col: 64, offset: 42598},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1339, col: 82, offset: 42426},
+							pos:        position{line: 1343, col: 82, offset: 42616},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20476,17 +20759,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1345, col: 1, offset: 42583},
+			pos:  position{line: 1349, col: 1, offset: 42773},
 			expr: &actionExpr{
-				pos: position{line: 1345, col: 21, offset: 42603},
+				pos: position{line: 1349, col: 21, offset: 42793},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1345, col: 21, offset: 42603},
+					pos:   position{line: 1349, col: 21, offset: 42793},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1345, col: 30, offset: 42612},
+						pos: position{line: 1349, col: 30, offset: 42802},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1345, col: 31, offset: 42613},
+							pos:  position{line: 1349, col: 31, offset: 42803},
 							name: "FootnoteElement",
 						},
 					},
@@ -20495,44 +20778,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1349, col: 1, offset: 42705},
+			pos:  position{line: 1353, col: 1, offset: 42895},
 			expr: &actionExpr{
-				pos: position{line: 1350, col: 5, offset: 42729},
+				pos: position{line: 1354, col: 5, offset: 42919},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1350, col: 5, offset: 42729},
+					pos: position{line: 1354, col: 5, offset: 42919},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1350, col: 5, offset: 42729},
+							pos: position{line: 1354, col: 5, offset: 42919},
 							expr: &litMatcher{
-								pos:        position{line: 1350, col: 6, offset: 42730},
+								pos:        position{line: 1354, col: 6, offset: 42920},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1351, col: 5, offset: 42739},
+							pos:   position{line: 1355, col: 5, offset: 42929},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1352, col: 9, offset: 42757},
+								pos: position{line: 1356, col: 9, offset: 42947},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2759, col: 5, offset: 87693},
+										pos: position{line: 2763, col: 5, offset: 87883},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2759, col: 5, offset: 87693},
+											pos: position{line: 2763, col: 5, offset: 87883},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2759, col: 5, offset: 87693},
+													pos:   position{line: 2763, col: 5, offset: 87883},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2759, col: 11, offset: 87699},
+														pos: position{line: 2763, col: 11, offset: 87889},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2759, col: 11, offset: 87699},
+															pos: position{line: 2763, col: 11, offset: 87889},
 															expr: &charClassMatcher{
-																pos:        position{line: 2759, col: 11, offset: 87699},
+																pos:        position{line: 2763, col: 11, offset: 87889},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20542,36 +20825,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2762, col: 5, offset: 87757},
+													pos: position{line: 2766, col: 5, offset: 87947},
 													expr: &seqExpr{
-														pos: position{line: 2763, col: 9, offset: 87768},
+														pos: position{line: 2767, col: 9, offset: 87958},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2763, col: 9, offset: 87768},
+																pos:        position{line: 2767, col: 9, offset: 87958},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2764, col: 9, offset: 87817},
+																pos: position{line: 2768, col: 9, offset: 88007},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2768, col: 5, offset: 87897},
+													pos: position{line: 2772, col: 5, offset: 88087},
 													expr: &seqExpr{
-														pos: position{line: 2769, col: 9, offset: 87908},
+														pos: position{line: 2773, col: 9, offset: 88098},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2769, col: 9, offset: 87908},
+																pos:        position{line: 2773, col: 9, offset: 88098},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2769, col: 13, offset: 87912},
+																pos:        position{line: 2773, col: 13, offset: 88102},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20584,12 +20867,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2864, col: 11, offset: 90512},
+										pos: position{line: 2868, col: 11, offset: 90702},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2864, col: 11, offset: 90512},
+											pos: position{line: 2868, col: 11, offset: 90702},
 											expr: &charClassMatcher{
-												pos:        position{line: 2864, col: 11, offset: 90512},
+												pos:        position{line: 2868, col: 11, offset: 90702},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20598,21 +20881,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2488, col: 5, offset: 80153},
+										pos: position{line: 2492, col: 5, offset: 80343},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2488, col: 5, offset: 80153},
+											pos: position{line: 2492, col: 5, offset: 80343},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 5, offset: 80153},
+													pos:        position{line: 2492, col: 5, offset: 80343},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2488, col: 10, offset: 80158},
+													pos: position{line: 2492, col: 10, offset: 80348},
 													expr: &charClassMatcher{
-														pos:        position{line: 2488, col: 11, offset: 80159},
+														pos:        position{line: 2492, col: 11, offset: 80349},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20623,29 +20906,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2494, col: 5, offset: 80351},
+										pos: position{line: 2498, col: 5, offset: 80541},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2494, col: 5, offset: 80351},
+											pos: position{line: 2498, col: 5, offset: 80541},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2494, col: 5, offset: 80351},
+													pos: position{line: 2498, col: 5, offset: 80541},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2497, col: 5, offset: 80422},
+													pos: position{line: 2501, col: 5, offset: 80612},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2501, col: 5, offset: 80547},
+													pos:        position{line: 2505, col: 5, offset: 80737},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2501, col: 9, offset: 80551},
+													pos: position{line: 2505, col: 9, offset: 80741},
 													expr: &charClassMatcher{
-														pos:        position{line: 2501, col: 10, offset: 80552},
+														pos:        position{line: 2505, col: 10, offset: 80742},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -20656,35 +20939,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1355, col: 11, offset: 42824},
+										pos:  position{line: 1359, col: 11, offset: 43014},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1356, col: 11, offset: 42840},
+										pos:  position{line: 1360, col: 11, offset: 43030},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2777, col: 5, offset: 88105},
+										pos: position{line: 2781, col: 5, offset: 88295},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2778, col: 9, offset: 88115},
+											pos: position{line: 2782, col: 9, offset: 88305},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2778, col: 10, offset: 88116},
+													pos:        position{line: 2782, col: 10, offset: 88306},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2780, col: 13, offset: 88213},
+													pos: position{line: 2784, col: 13, offset: 88403},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2780, col: 13, offset: 88213},
+															pos: position{line: 2784, col: 13, offset: 88403},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2783, col: 13, offset: 88313},
+															pos:        position{line: 2787, col: 13, offset: 88503},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -20692,20 +20975,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2783, col: 19, offset: 88319},
+													pos:        position{line: 2787, col: 19, offset: 88509},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2786, col: 13, offset: 88357},
+													pos: position{line: 2790, col: 13, offset: 88547},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2786, col: 13, offset: 88357},
+															pos: position{line: 2790, col: 13, offset: 88547},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2789, col: 14, offset: 88450},
+															pos:        position{line: 2793, col: 14, offset: 88640},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -20714,18 +20997,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2791, col: 12, offset: 88494},
+													pos: position{line: 2795, col: 12, offset: 88684},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2791, col: 12, offset: 88494},
+															pos:        position{line: 2795, col: 12, offset: 88684},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2791, col: 16, offset: 88498},
+															pos: position{line: 2795, col: 16, offset: 88688},
 															expr: &litMatcher{
-																pos:        position{line: 2791, col: 17, offset: 88499},
+																pos:        position{line: 2795, col: 17, offset: 88689},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -20737,36 +21020,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1358, col: 11, offset: 42913},
+										pos:  position{line: 1362, col: 11, offset: 43103},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1214, col: 5, offset: 37630},
+										pos: position{line: 1218, col: 5, offset: 37820},
 										run: (*parser).callonFootnoteElement53,
 										expr: &seqExpr{
-											pos: position{line: 1214, col: 5, offset: 37630},
+											pos: position{line: 1218, col: 5, offset: 37820},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1214, col: 5, offset: 37630},
+													pos: position{line: 1218, col: 5, offset: 37820},
 													run: (*parser).callonFootnoteElement55,
 												},
 												&litMatcher{
-													pos:        position{line: 1217, col: 5, offset: 37706},
+													pos:        position{line: 1221, col: 5, offset: 37896},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1218, col: 5, offset: 37714},
+													pos: position{line: 1222, col: 5, offset: 37904},
 													run: (*parser).callonFootnoteElement57,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1222, col: 5, offset: 37801},
+													pos: position{line: 1226, col: 5, offset: 37991},
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 10, offset: 90451},
+														pos: position{line: 2864, col: 10, offset: 90641},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2860, col: 10, offset: 90451},
+															pos:        position{line: 2864, col: 10, offset: 90641},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -20775,30 +21058,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1222, col: 12, offset: 37808},
+													pos: position{line: 1226, col: 12, offset: 37998},
 													expr: &choiceExpr{
-														pos: position{line: 2882, col: 8, offset: 90849},
+														pos: position{line: 2886, col: 8, offset: 91039},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2869, col: 12, offset: 90622},
+																pos: position{line: 2873, col: 12, offset: 90812},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2869, col: 13, offset: 90623},
+																	pos: position{line: 2873, col: 13, offset: 90813},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 13, offset: 90623},
+																			pos:        position{line: 2873, col: 13, offset: 90813},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 20, offset: 90630},
+																			pos:        position{line: 2873, col: 20, offset: 90820},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 29, offset: 90639},
+																			pos:        position{line: 2873, col: 29, offset: 90829},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -20807,9 +21090,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2879, col: 8, offset: 90799},
+																pos: position{line: 2883, col: 8, offset: 90989},
 																expr: &anyMatcher{
-																	line: 2879, col: 9, offset: 90800,
+																	line: 2883, col: 9, offset: 90990,
 																},
 															},
 														},
@@ -21165,23 +21448,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2457, col: 5, offset: 78982},
+										pos: position{line: 2461, col: 5, offset: 79172},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2457, col: 5, offset: 78982},
+											pos: position{line: 2461, col: 5, offset: 79172},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2457, col: 5, offset: 78982},
+													pos: position{line: 2461, col: 5, offset: 79172},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2460, col: 5, offset: 79058},
+													pos:   position{line: 2464, col: 5, offset: 79248},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2461, col: 9, offset: 79076},
+														pos: position{line: 2465, col: 9, offset: 79266},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2461, col: 10, offset: 79077},
+															pos:        position{line: 2465, col: 10, offset: 79267},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21193,25 +21476,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2869, col: 12, offset: 90622},
+										pos: position{line: 2873, col: 12, offset: 90812},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2869, col: 13, offset: 90623},
+											pos: position{line: 2873, col: 13, offset: 90813},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2869, col: 13, offset: 90623},
+													pos:        position{line: 2873, col: 13, offset: 90813},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2869, col: 20, offset: 90630},
+													pos:        position{line: 2873, col: 20, offset: 90820},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2869, col: 29, offset: 90639},
+													pos:        position{line: 2873, col: 29, offset: 90829},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21220,10 +21503,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2799, col: 12, offset: 88759},
+										pos: position{line: 2803, col: 12, offset: 88949},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2799, col: 12, offset: 88759},
+											pos:        position{line: 2803, col: 12, offset: 88949},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21239,32 +21522,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1397, col: 1, offset: 44758},
+			pos:  position{line: 1401, col: 1, offset: 44948},
 			expr: &choiceExpr{
-				pos: position{line: 1397, col: 21, offset: 44778},
+				pos: position{line: 1401, col: 21, offset: 44968},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1397, col: 21, offset: 44778},
+						pos: position{line: 1401, col: 21, offset: 44968},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1397, col: 21, offset: 44778},
+							pos: position{line: 1401, col: 21, offset: 44968},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1397, col: 21, offset: 44778},
+									pos:        position{line: 1401, col: 21, offset: 44968},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1397, col: 30, offset: 44787},
+									pos:   position{line: 1401, col: 30, offset: 44977},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1397, col: 38, offset: 44795},
+										pos: position{line: 1401, col: 38, offset: 44985},
 										expr: &actionExpr{
-											pos: position{line: 1403, col: 30, offset: 45121},
+											pos: position{line: 1407, col: 30, offset: 45311},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1403, col: 30, offset: 45121},
+												pos:        position{line: 1407, col: 30, offset: 45311},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21274,7 +21557,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1397, col: 67, offset: 44824},
+									pos:        position{line: 1401, col: 67, offset: 45014},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21283,34 +21566,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1399, col: 9, offset: 44928},
+						pos: position{line: 1403, col: 9, offset: 45118},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1399, col: 9, offset: 44928},
+							pos: position{line: 1403, col: 9, offset: 45118},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1399, col: 9, offset: 44928},
+									pos:        position{line: 1403, col: 9, offset: 45118},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1399, col: 19, offset: 44938},
+									pos:   position{line: 1403, col: 19, offset: 45128},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1399, col: 27, offset: 44946},
+										pos: position{line: 1403, col: 27, offset: 45136},
 										expr: &choiceExpr{
-											pos: position{line: 1399, col: 28, offset: 44947},
+											pos: position{line: 1403, col: 28, offset: 45137},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1399, col: 28, offset: 44947},
+													pos:  position{line: 1403, col: 28, offset: 45137},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1403, col: 30, offset: 45121},
+													pos: position{line: 1407, col: 30, offset: 45311},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1403, col: 30, offset: 45121},
+														pos:        position{line: 1407, col: 30, offset: 45311},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -21322,7 +21605,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1399, col: 69, offset: 44988},
+									pos:        position{line: 1403, col: 69, offset: 45178},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21335,75 +21618,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1410, col: 1, offset: 45377},
+			pos:  position{line: 1414, col: 1, offset: 45567},
 			expr: &choiceExpr{
-				pos: position{line: 1410, col: 9, offset: 45385},
+				pos: position{line: 1414, col: 9, offset: 45575},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1413, col: 5, offset: 45454},
+						pos: position{line: 1417, col: 5, offset: 45644},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1413, col: 5, offset: 45454},
+							pos: position{line: 1417, col: 5, offset: 45644},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1413, col: 5, offset: 45454},
+									pos:        position{line: 1417, col: 5, offset: 45644},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1414, col: 5, offset: 45463},
+									pos:   position{line: 1418, col: 5, offset: 45653},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2822, col: 23, offset: 89337},
+										pos: position{line: 2826, col: 23, offset: 89527},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2822, col: 23, offset: 89337},
+											pos: position{line: 2826, col: 23, offset: 89527},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2822, col: 23, offset: 89337},
+													pos: position{line: 2826, col: 23, offset: 89527},
 													expr: &litMatcher{
-														pos:        position{line: 2822, col: 24, offset: 89338},
+														pos:        position{line: 2826, col: 24, offset: 89528},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2822, col: 28, offset: 89342},
+													pos:   position{line: 2826, col: 28, offset: 89532},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2826, col: 11, offset: 89456},
+														pos: position{line: 2830, col: 11, offset: 89646},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2826, col: 12, offset: 89457},
+															pos: position{line: 2830, col: 12, offset: 89647},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2826, col: 12, offset: 89457},
+																	pos:        position{line: 2830, col: 12, offset: 89647},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2826, col: 24, offset: 89469},
+																	pos:        position{line: 2830, col: 24, offset: 89659},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2826, col: 37, offset: 89482},
+																	pos:        position{line: 2830, col: 37, offset: 89672},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2826, col: 48, offset: 89493},
+																	pos:        position{line: 2830, col: 48, offset: 89683},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2826, col: 59, offset: 89504},
+																	pos:        position{line: 2830, col: 59, offset: 89694},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21413,38 +21696,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2822, col: 44, offset: 89358},
+													pos:   position{line: 2826, col: 44, offset: 89548},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2831, col: 5, offset: 89568},
+														pos: position{line: 2835, col: 5, offset: 89758},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2831, col: 5, offset: 89568},
+															pos:   position{line: 2835, col: 5, offset: 89758},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2831, col: 14, offset: 89577},
+																pos: position{line: 2835, col: 14, offset: 89767},
 																expr: &choiceExpr{
-																	pos: position{line: 2832, col: 9, offset: 89587},
+																	pos: position{line: 2836, col: 9, offset: 89777},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2832, col: 9, offset: 89587},
+																			pos: position{line: 2836, col: 9, offset: 89777},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2832, col: 9, offset: 89587},
+																				pos: position{line: 2836, col: 9, offset: 89777},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2832, col: 9, offset: 89587},
+																						pos: position{line: 2836, col: 9, offset: 89777},
 																						expr: &litMatcher{
-																							pos:        position{line: 2832, col: 10, offset: 89588},
+																							pos:        position{line: 2836, col: 10, offset: 89778},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2833, col: 9, offset: 89616},
+																						pos: position{line: 2837, col: 9, offset: 89806},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2833, col: 10, offset: 89617},
+																							pos:        position{line: 2837, col: 10, offset: 89807},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21455,27 +21738,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2836, col: 11, offset: 89829},
+																			pos: position{line: 2840, col: 11, offset: 90019},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2836, col: 11, offset: 89829},
+																					pos:        position{line: 2840, col: 11, offset: 90019},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2836, col: 19, offset: 89837},
+																					pos: position{line: 2840, col: 19, offset: 90027},
 																					expr: &seqExpr{
-																						pos: position{line: 2836, col: 21, offset: 89839},
+																						pos: position{line: 2840, col: 21, offset: 90029},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2836, col: 21, offset: 89839},
+																								pos: position{line: 2840, col: 21, offset: 90029},
 																								expr: &actionExpr{
-																									pos: position{line: 2860, col: 10, offset: 90451},
+																									pos: position{line: 2864, col: 10, offset: 90641},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2860, col: 10, offset: 90451},
+																										pos:        position{line: 2864, col: 10, offset: 90641},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21484,11 +21767,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2836, col: 28, offset: 89846},
+																								pos: position{line: 2840, col: 28, offset: 90036},
 																								expr: &notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -21844,27 +22127,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1206, col: 23, offset: 37184},
+																			pos: position{line: 1210, col: 23, offset: 37374},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1206, col: 23, offset: 37184},
+																				pos: position{line: 1210, col: 23, offset: 37374},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37152},
+																						pos:        position{line: 1208, col: 32, offset: 37342},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1206, col: 51, offset: 37212},
+																						pos:   position{line: 1210, col: 51, offset: 37402},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1206, col: 56, offset: 37217},
+																							pos: position{line: 1210, col: 56, offset: 37407},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1206, col: 56, offset: 37217},
+																								pos: position{line: 1210, col: 56, offset: 37407},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1206, col: 56, offset: 37217},
+																									pos:        position{line: 1210, col: 56, offset: 37407},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -21874,7 +22157,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37152},
+																						pos:        position{line: 1208, col: 32, offset: 37342},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -21883,10 +22166,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2839, col: 11, offset: 89966},
+																			pos: position{line: 2843, col: 11, offset: 90156},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2839, col: 11, offset: 89966},
+																				pos:        position{line: 2843, col: 11, offset: 90156},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -21903,7 +22186,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1419, col: 5, offset: 45682},
+									pos:        position{line: 1423, col: 5, offset: 45872},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -21912,38 +22195,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1410, col: 19, offset: 45395},
+						pos:  position{line: 1414, col: 19, offset: 45585},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1410, col: 34, offset: 45410},
+						pos:  position{line: 1414, col: 34, offset: 45600},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1448, col: 17, offset: 46675},
+						pos: position{line: 1452, col: 17, offset: 46865},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1448, col: 17, offset: 46675},
+							pos: position{line: 1452, col: 17, offset: 46865},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1448, col: 17, offset: 46675},
+									pos:   position{line: 1452, col: 17, offset: 46865},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1453, col: 5, offset: 46840},
+										pos: position{line: 1457, col: 5, offset: 47030},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1453, col: 5, offset: 46840},
+											pos: position{line: 1457, col: 5, offset: 47030},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1453, col: 5, offset: 46840},
+													pos:   position{line: 1457, col: 5, offset: 47030},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1453, col: 12, offset: 46847},
+														pos: position{line: 1457, col: 12, offset: 47037},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1453, col: 12, offset: 46847},
+															pos: position{line: 1457, col: 12, offset: 47037},
 															expr: &charClassMatcher{
-																pos:        position{line: 1453, col: 12, offset: 46847},
+																pos:        position{line: 1457, col: 12, offset: 47037},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -21955,7 +22238,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1456, col: 5, offset: 46931},
+													pos: position{line: 1460, col: 5, offset: 47121},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -21963,33 +22246,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1448, col: 43, offset: 46701},
+									pos:        position{line: 1452, col: 43, offset: 46891},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1448, col: 47, offset: 46705},
+									pos:   position{line: 1452, col: 47, offset: 46895},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1465, col: 23, offset: 47225},
+										pos: position{line: 1469, col: 23, offset: 47415},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1465, col: 23, offset: 47225},
+											pos: position{line: 1469, col: 23, offset: 47415},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1465, col: 23, offset: 47225},
+													pos:   position{line: 1469, col: 23, offset: 47415},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1465, col: 31, offset: 47233},
+														pos: position{line: 1469, col: 31, offset: 47423},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1465, col: 31, offset: 47233},
+															pos: position{line: 1469, col: 31, offset: 47423},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1465, col: 31, offset: 47233},
+																	pos: position{line: 1469, col: 31, offset: 47423},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1465, col: 31, offset: 47233},
+																		pos:        position{line: 1469, col: 31, offset: 47423},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -21997,20 +22280,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1465, col: 41, offset: 47243},
+																	pos: position{line: 1469, col: 41, offset: 47433},
 																	expr: &seqExpr{
-																		pos: position{line: 1465, col: 42, offset: 47244},
+																		pos: position{line: 1469, col: 42, offset: 47434},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1465, col: 42, offset: 47244},
+																				pos:        position{line: 1469, col: 42, offset: 47434},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1465, col: 46, offset: 47248},
+																				pos: position{line: 1469, col: 46, offset: 47438},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1465, col: 46, offset: 47248},
+																					pos:        position{line: 1469, col: 46, offset: 47438},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22026,7 +22309,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1468, col: 5, offset: 47309},
+													pos: position{line: 1472, col: 5, offset: 47499},
 													run: (*parser).callonLink145,
 												},
 											},
@@ -22041,68 +22324,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1425, col: 1, offset: 45830},
+			pos:  position{line: 1429, col: 1, offset: 46020},
 			expr: &choiceExpr{
-				pos: position{line: 1427, col: 5, offset: 45866},
+				pos: position{line: 1431, col: 5, offset: 46056},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1427, col: 5, offset: 45866},
+						pos: position{line: 1431, col: 5, offset: 46056},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1427, col: 5, offset: 45866},
+							pos: position{line: 1431, col: 5, offset: 46056},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1427, col: 5, offset: 45866},
+									pos:        position{line: 1431, col: 5, offset: 46056},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1427, col: 17, offset: 45878},
+									pos:   position{line: 1431, col: 17, offset: 46068},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2818, col: 13, offset: 89210},
+										pos: position{line: 2822, col: 13, offset: 89400},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2818, col: 13, offset: 89210},
+											pos: position{line: 2822, col: 13, offset: 89400},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2818, col: 13, offset: 89210},
+													pos:   position{line: 2822, col: 13, offset: 89400},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2818, col: 20, offset: 89217},
+														pos: position{line: 2822, col: 20, offset: 89407},
 														expr: &actionExpr{
-															pos: position{line: 2826, col: 11, offset: 89456},
+															pos: position{line: 2830, col: 11, offset: 89646},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2826, col: 12, offset: 89457},
+																pos: position{line: 2830, col: 12, offset: 89647},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2826, col: 12, offset: 89457},
+																		pos:        position{line: 2830, col: 12, offset: 89647},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2826, col: 24, offset: 89469},
+																		pos:        position{line: 2830, col: 24, offset: 89659},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2826, col: 37, offset: 89482},
+																		pos:        position{line: 2830, col: 37, offset: 89672},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2826, col: 48, offset: 89493},
+																		pos:        position{line: 2830, col: 48, offset: 89683},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2826, col: 59, offset: 89504},
+																		pos:        position{line: 2830, col: 59, offset: 89694},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22113,38 +22396,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2818, col: 30, offset: 89227},
+													pos:   position{line: 2822, col: 30, offset: 89417},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2831, col: 5, offset: 89568},
+														pos: position{line: 2835, col: 5, offset: 89758},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2831, col: 5, offset: 89568},
+															pos:   position{line: 2835, col: 5, offset: 89758},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2831, col: 14, offset: 89577},
+																pos: position{line: 2835, col: 14, offset: 89767},
 																expr: &choiceExpr{
-																	pos: position{line: 2832, col: 9, offset: 89587},
+																	pos: position{line: 2836, col: 9, offset: 89777},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2832, col: 9, offset: 89587},
+																			pos: position{line: 2836, col: 9, offset: 89777},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2832, col: 9, offset: 89587},
+																				pos: position{line: 2836, col: 9, offset: 89777},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2832, col: 9, offset: 89587},
+																						pos: position{line: 2836, col: 9, offset: 89777},
 																						expr: &litMatcher{
-																							pos:        position{line: 2832, col: 10, offset: 89588},
+																							pos:        position{line: 2836, col: 10, offset: 89778},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2833, col: 9, offset: 89616},
+																						pos: position{line: 2837, col: 9, offset: 89806},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2833, col: 10, offset: 89617},
+																							pos:        position{line: 2837, col: 10, offset: 89807},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22155,27 +22438,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2836, col: 11, offset: 89829},
+																			pos: position{line: 2840, col: 11, offset: 90019},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2836, col: 11, offset: 89829},
+																					pos:        position{line: 2840, col: 11, offset: 90019},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2836, col: 19, offset: 89837},
+																					pos: position{line: 2840, col: 19, offset: 90027},
 																					expr: &seqExpr{
-																						pos: position{line: 2836, col: 21, offset: 89839},
+																						pos: position{line: 2840, col: 21, offset: 90029},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2836, col: 21, offset: 89839},
+																								pos: position{line: 2840, col: 21, offset: 90029},
 																								expr: &actionExpr{
-																									pos: position{line: 2860, col: 10, offset: 90451},
+																									pos: position{line: 2864, col: 10, offset: 90641},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2860, col: 10, offset: 90451},
+																										pos:        position{line: 2864, col: 10, offset: 90641},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22184,11 +22467,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2836, col: 28, offset: 89846},
+																								pos: position{line: 2840, col: 28, offset: 90036},
 																								expr: &notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -22544,27 +22827,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1206, col: 23, offset: 37184},
+																			pos: position{line: 1210, col: 23, offset: 37374},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1206, col: 23, offset: 37184},
+																				pos: position{line: 1210, col: 23, offset: 37374},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37152},
+																						pos:        position{line: 1208, col: 32, offset: 37342},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1206, col: 51, offset: 37212},
+																						pos:   position{line: 1210, col: 51, offset: 37402},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1206, col: 56, offset: 37217},
+																							pos: position{line: 1210, col: 56, offset: 37407},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1206, col: 56, offset: 37217},
+																								pos: position{line: 1210, col: 56, offset: 37407},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1206, col: 56, offset: 37217},
+																									pos:        position{line: 1210, col: 56, offset: 37407},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22574,7 +22857,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37152},
+																						pos:        position{line: 1208, col: 32, offset: 37342},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22583,10 +22866,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2839, col: 11, offset: 89966},
+																			pos: position{line: 2843, col: 11, offset: 90156},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2839, col: 11, offset: 89966},
+																				pos:        position{line: 2843, col: 11, offset: 90156},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22603,10 +22886,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1427, col: 32, offset: 45893},
+									pos:   position{line: 1431, col: 32, offset: 46083},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1427, col: 44, offset: 45905},
+										pos:  position{line: 1431, col: 44, offset: 46095},
 										name: "InlineAttributes",
 									},
 								},
@@ -22614,63 +22897,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1432, col: 5, offset: 46037},
+						pos: position{line: 1436, col: 5, offset: 46227},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1432, col: 5, offset: 46037},
+							pos: position{line: 1436, col: 5, offset: 46227},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1432, col: 5, offset: 46037},
+									pos:        position{line: 1436, col: 5, offset: 46227},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1432, col: 13, offset: 46045},
+									pos:   position{line: 1436, col: 13, offset: 46235},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2818, col: 13, offset: 89210},
+										pos: position{line: 2822, col: 13, offset: 89400},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2818, col: 13, offset: 89210},
+											pos: position{line: 2822, col: 13, offset: 89400},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2818, col: 13, offset: 89210},
+													pos:   position{line: 2822, col: 13, offset: 89400},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2818, col: 20, offset: 89217},
+														pos: position{line: 2822, col: 20, offset: 89407},
 														expr: &actionExpr{
-															pos: position{line: 2826, col: 11, offset: 89456},
+															pos: position{line: 2830, col: 11, offset: 89646},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2826, col: 12, offset: 89457},
+																pos: position{line: 2830, col: 12, offset: 89647},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2826, col: 12, offset: 89457},
+																		pos:        position{line: 2830, col: 12, offset: 89647},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2826, col: 24, offset: 89469},
+																		pos:        position{line: 2830, col: 24, offset: 89659},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2826, col: 37, offset: 89482},
+																		pos:        position{line: 2830, col: 37, offset: 89672},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2826, col: 48, offset: 89493},
+																		pos:        position{line: 2830, col: 48, offset: 89683},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2826, col: 59, offset: 89504},
+																		pos:        position{line: 2830, col: 59, offset: 89694},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22681,38 +22964,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2818, col: 30, offset: 89227},
+													pos:   position{line: 2822, col: 30, offset: 89417},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2831, col: 5, offset: 89568},
+														pos: position{line: 2835, col: 5, offset: 89758},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2831, col: 5, offset: 89568},
+															pos:   position{line: 2835, col: 5, offset: 89758},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2831, col: 14, offset: 89577},
+																pos: position{line: 2835, col: 14, offset: 89767},
 																expr: &choiceExpr{
-																	pos: position{line: 2832, col: 9, offset: 89587},
+																	pos: position{line: 2836, col: 9, offset: 89777},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2832, col: 9, offset: 89587},
+																			pos: position{line: 2836, col: 9, offset: 89777},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2832, col: 9, offset: 89587},
+																				pos: position{line: 2836, col: 9, offset: 89777},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2832, col: 9, offset: 89587},
+																						pos: position{line: 2836, col: 9, offset: 89777},
 																						expr: &litMatcher{
-																							pos:        position{line: 2832, col: 10, offset: 89588},
+																							pos:        position{line: 2836, col: 10, offset: 89778},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2833, col: 9, offset: 89616},
+																						pos: position{line: 2837, col: 9, offset: 89806},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2833, col: 10, offset: 89617},
+																							pos:        position{line: 2837, col: 10, offset: 89807},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22723,27 +23006,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2836, col: 11, offset: 89829},
+																			pos: position{line: 2840, col: 11, offset: 90019},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2836, col: 11, offset: 89829},
+																					pos:        position{line: 2840, col: 11, offset: 90019},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2836, col: 19, offset: 89837},
+																					pos: position{line: 2840, col: 19, offset: 90027},
 																					expr: &seqExpr{
-																						pos: position{line: 2836, col: 21, offset: 89839},
+																						pos: position{line: 2840, col: 21, offset: 90029},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2836, col: 21, offset: 89839},
+																								pos: position{line: 2840, col: 21, offset: 90029},
 																								expr: &actionExpr{
-																									pos: position{line: 2860, col: 10, offset: 90451},
+																									pos: position{line: 2864, col: 10, offset: 90641},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2860, col: 10, offset: 90451},
+																										pos:        position{line: 2864, col: 10, offset: 90641},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22752,11 +23035,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2836, col: 28, offset: 89846},
+																								pos: position{line: 2840, col: 28, offset: 90036},
 																								expr: &notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -23112,27 +23395,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1206, col: 23, offset: 37184},
+																			pos: position{line: 1210, col: 23, offset: 37374},
 																			run: (*parser).callonRelativeLink224,
 																			expr: &seqExpr{
-																				pos: position{line: 1206, col: 23, offset: 37184},
+																				pos: position{line: 1210, col: 23, offset: 37374},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37152},
+																						pos:        position{line: 1208, col: 32, offset: 37342},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1206, col: 51, offset: 37212},
+																						pos:   position{line: 1210, col: 51, offset: 37402},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1206, col: 56, offset: 37217},
+																							pos: position{line: 1210, col: 56, offset: 37407},
 																							run: (*parser).callonRelativeLink228,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1206, col: 56, offset: 37217},
+																								pos: position{line: 1210, col: 56, offset: 37407},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1206, col: 56, offset: 37217},
+																									pos:        position{line: 1210, col: 56, offset: 37407},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23142,7 +23425,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37152},
+																						pos:        position{line: 1208, col: 32, offset: 37342},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23151,10 +23434,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2839, col: 11, offset: 89966},
+																			pos: position{line: 2843, col: 11, offset: 90156},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2839, col: 11, offset: 89966},
+																				pos:        position{line: 2843, col: 11, offset: 90156},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23171,10 +23454,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1432, col: 28, offset: 46060},
+									pos:   position{line: 1436, col: 28, offset: 46250},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1432, col: 40, offset: 46072},
+										pos:  position{line: 1436, col: 40, offset: 46262},
 										name: "InlineAttributes",
 									},
 								},
@@ -23186,75 +23469,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1436, col: 1, offset: 46188},
+			pos:  position{line: 1440, col: 1, offset: 46378},
 			expr: &choiceExpr{
-				pos: position{line: 1439, col: 5, offset: 46350},
+				pos: position{line: 1443, col: 5, offset: 46540},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1439, col: 5, offset: 46350},
+						pos: position{line: 1443, col: 5, offset: 46540},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1439, col: 5, offset: 46350},
+							pos: position{line: 1443, col: 5, offset: 46540},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1439, col: 5, offset: 46350},
+									pos:        position{line: 1443, col: 5, offset: 46540},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1439, col: 9, offset: 46354},
+									pos:   position{line: 1443, col: 9, offset: 46544},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2822, col: 23, offset: 89337},
+										pos: position{line: 2826, col: 23, offset: 89527},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2822, col: 23, offset: 89337},
+											pos: position{line: 2826, col: 23, offset: 89527},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2822, col: 23, offset: 89337},
+													pos: position{line: 2826, col: 23, offset: 89527},
 													expr: &litMatcher{
-														pos:        position{line: 2822, col: 24, offset: 89338},
+														pos:        position{line: 2826, col: 24, offset: 89528},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2822, col: 28, offset: 89342},
+													pos:   position{line: 2826, col: 28, offset: 89532},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2826, col: 11, offset: 89456},
+														pos: position{line: 2830, col: 11, offset: 89646},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2826, col: 12, offset: 89457},
+															pos: position{line: 2830, col: 12, offset: 89647},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2826, col: 12, offset: 89457},
+																	pos:        position{line: 2830, col: 12, offset: 89647},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2826, col: 24, offset: 89469},
+																	pos:        position{line: 2830, col: 24, offset: 89659},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2826, col: 37, offset: 89482},
+																	pos:        position{line: 2830, col: 37, offset: 89672},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2826, col: 48, offset: 89493},
+																	pos:        position{line: 2830, col: 48, offset: 89683},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2826, col: 59, offset: 89504},
+																	pos:        position{line: 2830, col: 59, offset: 89694},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23264,38 +23547,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2822, col: 44, offset: 89358},
+													pos:   position{line: 2826, col: 44, offset: 89548},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2831, col: 5, offset: 89568},
+														pos: position{line: 2835, col: 5, offset: 89758},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2831, col: 5, offset: 89568},
+															pos:   position{line: 2835, col: 5, offset: 89758},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2831, col: 14, offset: 89577},
+																pos: position{line: 2835, col: 14, offset: 89767},
 																expr: &choiceExpr{
-																	pos: position{line: 2832, col: 9, offset: 89587},
+																	pos: position{line: 2836, col: 9, offset: 89777},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2832, col: 9, offset: 89587},
+																			pos: position{line: 2836, col: 9, offset: 89777},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2832, col: 9, offset: 89587},
+																				pos: position{line: 2836, col: 9, offset: 89777},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2832, col: 9, offset: 89587},
+																						pos: position{line: 2836, col: 9, offset: 89777},
 																						expr: &litMatcher{
-																							pos:        position{line: 2832, col: 10, offset: 89588},
+																							pos:        position{line: 2836, col: 10, offset: 89778},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2833, col: 9, offset: 89616},
+																						pos: position{line: 2837, col: 9, offset: 89806},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2833, col: 10, offset: 89617},
+																							pos:        position{line: 2837, col: 10, offset: 89807},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23306,27 +23589,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2836, col: 11, offset: 89829},
+																			pos: position{line: 2840, col: 11, offset: 90019},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2836, col: 11, offset: 89829},
+																					pos:        position{line: 2840, col: 11, offset: 90019},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2836, col: 19, offset: 89837},
+																					pos: position{line: 2840, col: 19, offset: 90027},
 																					expr: &seqExpr{
-																						pos: position{line: 2836, col: 21, offset: 89839},
+																						pos: position{line: 2840, col: 21, offset: 90029},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2836, col: 21, offset: 89839},
+																								pos: position{line: 2840, col: 21, offset: 90029},
 																								expr: &actionExpr{
-																									pos: position{line: 2860, col: 10, offset: 90451},
+																									pos: position{line: 2864, col: 10, offset: 90641},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2860, col: 10, offset: 90451},
+																										pos:        position{line: 2864, col: 10, offset: 90641},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23335,11 +23618,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2836, col: 28, offset: 89846},
+																								pos: position{line: 2840, col: 28, offset: 90036},
 																								expr: &notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -23695,27 +23978,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1206, col: 23, offset: 37184},
+																			pos: position{line: 1210, col: 23, offset: 37374},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1206, col: 23, offset: 37184},
+																				pos: position{line: 1210, col: 23, offset: 37374},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37152},
+																						pos:        position{line: 1208, col: 32, offset: 37342},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1206, col: 51, offset: 37212},
+																						pos:   position{line: 1210, col: 51, offset: 37402},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1206, col: 56, offset: 37217},
+																							pos: position{line: 1210, col: 56, offset: 37407},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1206, col: 56, offset: 37217},
+																								pos: position{line: 1210, col: 56, offset: 37407},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1206, col: 56, offset: 37217},
+																									pos:        position{line: 1210, col: 56, offset: 37407},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23725,7 +24008,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37152},
+																						pos:        position{line: 1208, col: 32, offset: 37342},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23734,10 +24017,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2839, col: 11, offset: 89966},
+																			pos: position{line: 2843, col: 11, offset: 90156},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2839, col: 11, offset: 89966},
+																				pos:        position{line: 2843, col: 11, offset: 90156},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23754,12 +24037,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1439, col: 34, offset: 46379},
+									pos:   position{line: 1443, col: 34, offset: 46569},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1439, col: 45, offset: 46390},
+										pos: position{line: 1443, col: 45, offset: 46580},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1439, col: 46, offset: 46391},
+											pos:  position{line: 1443, col: 46, offset: 46581},
 											name: "InlineAttributes",
 										},
 									},
@@ -23768,64 +24051,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1444, col: 5, offset: 46524},
+						pos: position{line: 1448, col: 5, offset: 46714},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1444, col: 5, offset: 46524},
+							pos: position{line: 1448, col: 5, offset: 46714},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1444, col: 5, offset: 46524},
+									pos:   position{line: 1448, col: 5, offset: 46714},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2822, col: 23, offset: 89337},
+										pos: position{line: 2826, col: 23, offset: 89527},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2822, col: 23, offset: 89337},
+											pos: position{line: 2826, col: 23, offset: 89527},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2822, col: 23, offset: 89337},
+													pos: position{line: 2826, col: 23, offset: 89527},
 													expr: &litMatcher{
-														pos:        position{line: 2822, col: 24, offset: 89338},
+														pos:        position{line: 2826, col: 24, offset: 89528},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2822, col: 28, offset: 89342},
+													pos:   position{line: 2826, col: 28, offset: 89532},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2826, col: 11, offset: 89456},
+														pos: position{line: 2830, col: 11, offset: 89646},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2826, col: 12, offset: 89457},
+															pos: position{line: 2830, col: 12, offset: 89647},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2826, col: 12, offset: 89457},
+																	pos:        position{line: 2830, col: 12, offset: 89647},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2826, col: 24, offset: 89469},
+																	pos:        position{line: 2830, col: 24, offset: 89659},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2826, col: 37, offset: 89482},
+																	pos:        position{line: 2830, col: 37, offset: 89672},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2826, col: 48, offset: 89493},
+																	pos:        position{line: 2830, col: 48, offset: 89683},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2826, col: 59, offset: 89504},
+																	pos:        position{line: 2830, col: 59, offset: 89694},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23835,38 +24118,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2822, col: 44, offset: 89358},
+													pos:   position{line: 2826, col: 44, offset: 89548},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2831, col: 5, offset: 89568},
+														pos: position{line: 2835, col: 5, offset: 89758},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2831, col: 5, offset: 89568},
+															pos:   position{line: 2835, col: 5, offset: 89758},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2831, col: 14, offset: 89577},
+																pos: position{line: 2835, col: 14, offset: 89767},
 																expr: &choiceExpr{
-																	pos: position{line: 2832, col: 9, offset: 89587},
+																	pos: position{line: 2836, col: 9, offset: 89777},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2832, col: 9, offset: 89587},
+																			pos: position{line: 2836, col: 9, offset: 89777},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2832, col: 9, offset: 89587},
+																				pos: position{line: 2836, col: 9, offset: 89777},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2832, col: 9, offset: 89587},
+																						pos: position{line: 2836, col: 9, offset: 89777},
 																						expr: &litMatcher{
-																							pos:        position{line: 2832, col: 10, offset: 89588},
+																							pos:        position{line: 2836, col: 10, offset: 89778},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2833, col: 9, offset: 89616},
+																						pos: position{line: 2837, col: 9, offset: 89806},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2833, col: 10, offset: 89617},
+																							pos:        position{line: 2837, col: 10, offset: 89807},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23877,27 +24160,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2836, col: 11, offset: 89829},
+																			pos: position{line: 2840, col: 11, offset: 90019},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2836, col: 11, offset: 89829},
+																					pos:        position{line: 2840, col: 11, offset: 90019},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2836, col: 19, offset: 89837},
+																					pos: position{line: 2840, col: 19, offset: 90027},
 																					expr: &seqExpr{
-																						pos: position{line: 2836, col: 21, offset: 89839},
+																						pos: position{line: 2840, col: 21, offset: 90029},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2836, col: 21, offset: 89839},
+																								pos: position{line: 2840, col: 21, offset: 90029},
 																								expr: &actionExpr{
-																									pos: position{line: 2860, col: 10, offset: 90451},
+																									pos: position{line: 2864, col: 10, offset: 90641},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2860, col: 10, offset: 90451},
+																										pos:        position{line: 2864, col: 10, offset: 90641},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23906,11 +24189,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2836, col: 28, offset: 89846},
+																								pos: position{line: 2840, col: 28, offset: 90036},
 																								expr: &notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -24266,27 +24549,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1206, col: 23, offset: 37184},
+																			pos: position{line: 1210, col: 23, offset: 37374},
 																			run: (*parser).callonExternalLink226,
 																			expr: &seqExpr{
-																				pos: position{line: 1206, col: 23, offset: 37184},
+																				pos: position{line: 1210, col: 23, offset: 37374},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37152},
+																						pos:        position{line: 1208, col: 32, offset: 37342},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1206, col: 51, offset: 37212},
+																						pos:   position{line: 1210, col: 51, offset: 37402},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1206, col: 56, offset: 37217},
+																							pos: position{line: 1210, col: 56, offset: 37407},
 																							run: (*parser).callonExternalLink230,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1206, col: 56, offset: 37217},
+																								pos: position{line: 1210, col: 56, offset: 37407},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1206, col: 56, offset: 37217},
+																									pos:        position{line: 1210, col: 56, offset: 37407},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24296,7 +24579,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1204, col: 32, offset: 37152},
+																						pos:        position{line: 1208, col: 32, offset: 37342},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24305,10 +24588,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2839, col: 11, offset: 89966},
+																			pos: position{line: 2843, col: 11, offset: 90156},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2839, col: 11, offset: 89966},
+																				pos:        position{line: 2843, col: 11, offset: 90156},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24325,12 +24608,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1444, col: 30, offset: 46549},
+									pos:   position{line: 1448, col: 30, offset: 46739},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1444, col: 41, offset: 46560},
+										pos: position{line: 1448, col: 41, offset: 46750},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1444, col: 42, offset: 46561},
+											pos:  position{line: 1448, col: 42, offset: 46751},
 											name: "InlineAttributes",
 										},
 									},
@@ -24343,41 +24626,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1478, col: 1, offset: 47702},
+			pos:  position{line: 1482, col: 1, offset: 47892},
 			expr: &actionExpr{
-				pos: position{line: 1479, col: 5, offset: 47723},
+				pos: position{line: 1483, col: 5, offset: 47913},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1479, col: 5, offset: 47723},
+					pos: position{line: 1483, col: 5, offset: 47913},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1479, col: 5, offset: 47723},
+							pos:   position{line: 1483, col: 5, offset: 47913},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1485, col: 5, offset: 47925},
+								pos: position{line: 1489, col: 5, offset: 48115},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1578, col: 5, offset: 50859},
+										pos: position{line: 1582, col: 5, offset: 51049},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1578, col: 5, offset: 50859},
+											pos: position{line: 1582, col: 5, offset: 51049},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1578, col: 5, offset: 50859},
+													pos:   position{line: 1582, col: 5, offset: 51049},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1585, col: 5, offset: 51067},
+														pos: position{line: 1589, col: 5, offset: 51257},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1585, col: 5, offset: 51067},
+															pos: position{line: 1589, col: 5, offset: 51257},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1585, col: 5, offset: 51067},
+																	pos: position{line: 1589, col: 5, offset: 51257},
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 10, offset: 90451},
+																		pos: position{line: 2864, col: 10, offset: 90641},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			pos:        position{line: 2864, col: 10, offset: 90641},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24386,27 +24669,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1585, col: 12, offset: 51074},
+																	pos:   position{line: 1589, col: 12, offset: 51264},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1587, col: 9, offset: 51137},
+																		pos: position{line: 1591, col: 9, offset: 51327},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1587, col: 9, offset: 51137},
+																				pos: position{line: 1591, col: 9, offset: 51327},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1587, col: 9, offset: 51137},
+																					pos: position{line: 1591, col: 9, offset: 51327},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1587, col: 9, offset: 51137},
+																							pos:   position{line: 1591, col: 9, offset: 51327},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1587, col: 16, offset: 51144},
+																								pos: position{line: 1591, col: 16, offset: 51334},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1587, col: 16, offset: 51144},
+																									pos: position{line: 1591, col: 16, offset: 51334},
 																									expr: &litMatcher{
-																										pos:        position{line: 1587, col: 17, offset: 51145},
+																										pos:        position{line: 1591, col: 17, offset: 51335},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24415,22 +24698,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1591, col: 9, offset: 51245},
+																							pos: position{line: 1595, col: 9, offset: 51435},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 11, offset: 51962},
+																				pos: position{line: 1614, col: 11, offset: 52152},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 11, offset: 51962},
+																					pos: position{line: 1614, col: 11, offset: 52152},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 11, offset: 51962},
+																							pos: position{line: 1614, col: 11, offset: 52152},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 12, offset: 51963},
+																								pos:        position{line: 1614, col: 12, offset: 52153},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24438,7 +24721,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 20, offset: 51971},
+																							pos:        position{line: 1614, col: 20, offset: 52161},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24447,20 +24730,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 13, offset: 52088},
+																				pos: position{line: 1616, col: 13, offset: 52278},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 13, offset: 52088},
+																					pos: position{line: 1616, col: 13, offset: 52278},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1612, col: 14, offset: 52089},
+																							pos:        position{line: 1616, col: 14, offset: 52279},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 21, offset: 52096},
+																							pos:        position{line: 1616, col: 21, offset: 52286},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24469,20 +24752,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52216},
+																				pos: position{line: 1618, col: 13, offset: 52406},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52216},
+																					pos: position{line: 1618, col: 13, offset: 52406},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1614, col: 14, offset: 52217},
+																							pos:        position{line: 1618, col: 14, offset: 52407},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 21, offset: 52224},
+																							pos:        position{line: 1618, col: 21, offset: 52414},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24491,15 +24774,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52344},
+																				pos: position{line: 1620, col: 13, offset: 52534},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52344},
+																					pos: position{line: 1620, col: 13, offset: 52534},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1616, col: 13, offset: 52344},
+																							pos: position{line: 1620, col: 13, offset: 52534},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1616, col: 14, offset: 52345},
+																								pos:        position{line: 1620, col: 14, offset: 52535},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24507,7 +24790,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 26, offset: 52357},
+																							pos:        position{line: 1620, col: 26, offset: 52547},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24516,15 +24799,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52477},
+																				pos: position{line: 1622, col: 13, offset: 52667},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52477},
+																					pos: position{line: 1622, col: 13, offset: 52667},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1618, col: 13, offset: 52477},
+																							pos: position{line: 1622, col: 13, offset: 52667},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1618, col: 14, offset: 52478},
+																								pos:        position{line: 1622, col: 14, offset: 52668},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -24532,7 +24815,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 26, offset: 52490},
+																							pos:        position{line: 1622, col: 26, offset: 52680},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24544,12 +24827,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2864, col: 11, offset: 90512},
+																	pos: position{line: 2868, col: 11, offset: 90702},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2864, col: 11, offset: 90512},
+																		pos: position{line: 2868, col: 11, offset: 90702},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 11, offset: 90512},
+																			pos:        position{line: 2868, col: 11, offset: 90702},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24562,26 +24845,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1579, col: 5, offset: 50898},
+													pos:   position{line: 1583, col: 5, offset: 51088},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1526, col: 5, offset: 49365},
+														pos: position{line: 1530, col: 5, offset: 49555},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1526, col: 5, offset: 49365},
+															pos: position{line: 1530, col: 5, offset: 49555},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49365},
+																	pos:   position{line: 1530, col: 5, offset: 49555},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1526, col: 14, offset: 49374},
+																		pos: position{line: 1530, col: 14, offset: 49564},
 																		expr: &actionExpr{
-																			pos: position{line: 1526, col: 15, offset: 49375},
+																			pos: position{line: 1530, col: 15, offset: 49565},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1526, col: 15, offset: 49375},
+																				pos: position{line: 1530, col: 15, offset: 49565},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1526, col: 15, offset: 49375},
+																					pos:        position{line: 1530, col: 15, offset: 49565},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24592,28 +24875,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
+																			pos: position{line: 2873, col: 12, offset: 90812},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24622,9 +24905,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -24637,27 +24920,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1628, col: 5, offset: 52756},
+										pos: position{line: 1632, col: 5, offset: 52946},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1628, col: 5, offset: 52756},
+											pos: position{line: 1632, col: 5, offset: 52946},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1628, col: 5, offset: 52756},
+													pos:   position{line: 1632, col: 5, offset: 52946},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1635, col: 5, offset: 53029},
+														pos: position{line: 1639, col: 5, offset: 53219},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1635, col: 5, offset: 53029},
+															pos: position{line: 1639, col: 5, offset: 53219},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1635, col: 5, offset: 53029},
+																	pos: position{line: 1639, col: 5, offset: 53219},
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 10, offset: 90451},
+																		pos: position{line: 2864, col: 10, offset: 90641},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			pos:        position{line: 2864, col: 10, offset: 90641},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24666,24 +24949,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1636, col: 5, offset: 53041},
+																	pos:   position{line: 1640, col: 5, offset: 53231},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1637, col: 9, offset: 53057},
+																		pos: position{line: 1641, col: 9, offset: 53247},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1637, col: 10, offset: 53058},
+																			pos: position{line: 1641, col: 10, offset: 53248},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1637, col: 11, offset: 53059},
+																					pos:        position{line: 1641, col: 11, offset: 53249},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1637, col: 18, offset: 53066},
+																					pos: position{line: 1641, col: 18, offset: 53256},
 																					expr: &litMatcher{
-																						pos:        position{line: 1637, col: 19, offset: 53067},
+																						pos:        position{line: 1641, col: 19, offset: 53257},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -24694,16 +24977,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1640, col: 7, offset: 53157},
+																	pos: position{line: 1644, col: 7, offset: 53347},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2864, col: 11, offset: 90512},
+																	pos: position{line: 2868, col: 11, offset: 90702},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2864, col: 11, offset: 90512},
+																		pos: position{line: 2868, col: 11, offset: 90702},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 11, offset: 90512},
+																			pos:        position{line: 2868, col: 11, offset: 90702},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24716,56 +24999,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1629, col: 5, offset: 52797},
+													pos:   position{line: 1633, col: 5, offset: 52987},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1629, col: 16, offset: 52808},
+														pos: position{line: 1633, col: 16, offset: 52998},
 														expr: &actionExpr{
-															pos: position{line: 1650, col: 5, offset: 53422},
+															pos: position{line: 1654, col: 5, offset: 53612},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1650, col: 5, offset: 53422},
+																pos: position{line: 1654, col: 5, offset: 53612},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1650, col: 5, offset: 53422},
+																		pos: position{line: 1654, col: 5, offset: 53612},
 																		expr: &litMatcher{
-																			pos:        position{line: 1650, col: 6, offset: 53423},
+																			pos:        position{line: 1654, col: 6, offset: 53613},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1650, col: 10, offset: 53427},
+																		pos:   position{line: 1654, col: 10, offset: 53617},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1651, col: 7, offset: 53441},
+																			pos: position{line: 1655, col: 7, offset: 53631},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1651, col: 7, offset: 53441},
+																					pos: position{line: 1655, col: 7, offset: 53631},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1651, col: 7, offset: 53441},
+																						pos:        position{line: 1655, col: 7, offset: 53631},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1652, col: 7, offset: 53486},
+																					pos: position{line: 1656, col: 7, offset: 53676},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1652, col: 7, offset: 53486},
+																						pos:        position{line: 1656, col: 7, offset: 53676},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1653, col: 7, offset: 53529},
+																					pos: position{line: 1657, col: 7, offset: 53719},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1653, col: 7, offset: 53529},
+																						pos:        position{line: 1657, col: 7, offset: 53719},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -24775,12 +25058,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2864, col: 11, offset: 90512},
+																		pos: position{line: 2868, col: 11, offset: 90702},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2864, col: 11, offset: 90512},
+																			pos: position{line: 2868, col: 11, offset: 90702},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 11, offset: 90512},
+																				pos:        position{line: 2868, col: 11, offset: 90702},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -24794,26 +25077,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1630, col: 5, offset: 52847},
+													pos:   position{line: 1634, col: 5, offset: 53037},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1526, col: 5, offset: 49365},
+														pos: position{line: 1530, col: 5, offset: 49555},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1526, col: 5, offset: 49365},
+															pos: position{line: 1530, col: 5, offset: 49555},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49365},
+																	pos:   position{line: 1530, col: 5, offset: 49555},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1526, col: 14, offset: 49374},
+																		pos: position{line: 1530, col: 14, offset: 49564},
 																		expr: &actionExpr{
-																			pos: position{line: 1526, col: 15, offset: 49375},
+																			pos: position{line: 1530, col: 15, offset: 49565},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1526, col: 15, offset: 49375},
+																				pos: position{line: 1530, col: 15, offset: 49565},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1526, col: 15, offset: 49375},
+																					pos:        position{line: 1530, col: 15, offset: 49565},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24824,28 +25107,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
+																			pos: position{line: 2873, col: 12, offset: 90812},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24854,9 +25137,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -24869,36 +25152,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1718, col: 5, offset: 55369},
+										pos: position{line: 1722, col: 5, offset: 55559},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1718, col: 5, offset: 55369},
+											pos: position{line: 1722, col: 5, offset: 55559},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1718, col: 5, offset: 55369},
+													pos:   position{line: 1722, col: 5, offset: 55559},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1724, col: 5, offset: 55566},
+														pos: position{line: 1728, col: 5, offset: 55756},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1724, col: 5, offset: 55566},
+															pos: position{line: 1728, col: 5, offset: 55756},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1724, col: 5, offset: 55566},
+																	pos:        position{line: 1728, col: 5, offset: 55756},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1724, col: 9, offset: 55570},
+																	pos:   position{line: 1728, col: 9, offset: 55760},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1724, col: 14, offset: 55575},
+																		pos: position{line: 1728, col: 14, offset: 55765},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1724, col: 14, offset: 55575},
+																			pos: position{line: 1728, col: 14, offset: 55765},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1724, col: 14, offset: 55575},
+																				pos:        position{line: 1728, col: 14, offset: 55765},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -24908,18 +25191,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1724, col: 62, offset: 55623},
+																	pos:        position{line: 1728, col: 62, offset: 55813},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2864, col: 11, offset: 90512},
+																	pos: position{line: 2868, col: 11, offset: 90702},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2864, col: 11, offset: 90512},
+																		pos: position{line: 2868, col: 11, offset: 90702},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 11, offset: 90512},
+																			pos:        position{line: 2868, col: 11, offset: 90702},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24932,26 +25215,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1719, col: 5, offset: 55405},
+													pos:   position{line: 1723, col: 5, offset: 55595},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1526, col: 5, offset: 49365},
+														pos: position{line: 1530, col: 5, offset: 49555},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1526, col: 5, offset: 49365},
+															pos: position{line: 1530, col: 5, offset: 49555},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49365},
+																	pos:   position{line: 1530, col: 5, offset: 49555},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1526, col: 14, offset: 49374},
+																		pos: position{line: 1530, col: 14, offset: 49564},
 																		expr: &actionExpr{
-																			pos: position{line: 1526, col: 15, offset: 49375},
+																			pos: position{line: 1530, col: 15, offset: 49565},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1526, col: 15, offset: 49375},
+																				pos: position{line: 1530, col: 15, offset: 49565},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1526, col: 15, offset: 49375},
+																					pos:        position{line: 1530, col: 15, offset: 49565},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -24962,28 +25245,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
+																			pos: position{line: 2873, col: 12, offset: 90812},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24992,9 +25275,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -25007,40 +25290,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1662, col: 5, offset: 53722},
+										pos: position{line: 1666, col: 5, offset: 53912},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1662, col: 5, offset: 53722},
+											pos: position{line: 1666, col: 5, offset: 53912},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1662, col: 5, offset: 53722},
+													pos:   position{line: 1666, col: 5, offset: 53912},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1670, col: 5, offset: 54048},
+														pos: position{line: 1674, col: 5, offset: 54238},
 														run: (*parser).callonListElements148,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1670, col: 5, offset: 54048},
+															pos: position{line: 1674, col: 5, offset: 54238},
 															expr: &seqExpr{
-																pos: position{line: 1670, col: 6, offset: 54049},
+																pos: position{line: 1674, col: 6, offset: 54239},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1670, col: 6, offset: 54049},
+																		pos: position{line: 1674, col: 6, offset: 54239},
 																		expr: &actionExpr{
-																			pos: position{line: 1675, col: 5, offset: 54199},
+																			pos: position{line: 1679, col: 5, offset: 54389},
 																			run: (*parser).callonListElements152,
 																			expr: &seqExpr{
-																				pos: position{line: 1675, col: 5, offset: 54199},
+																				pos: position{line: 1679, col: 5, offset: 54389},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1675, col: 5, offset: 54199},
+																						pos:   position{line: 1679, col: 5, offset: 54389},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1675, col: 16, offset: 54210},
+																							pos: position{line: 1679, col: 16, offset: 54400},
 																							run: (*parser).callonListElements155,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1675, col: 16, offset: 54210},
+																								pos: position{line: 1679, col: 16, offset: 54400},
 																								expr: &litMatcher{
-																									pos:        position{line: 1675, col: 17, offset: 54211},
+																									pos:        position{line: 1679, col: 17, offset: 54401},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -25049,7 +25332,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1678, col: 5, offset: 54268},
+																						pos: position{line: 1682, col: 5, offset: 54458},
 																						run: (*parser).callonListElements158,
 																					},
 																				},
@@ -25057,30 +25340,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1670, col: 35, offset: 54078},
+																		pos: position{line: 1674, col: 35, offset: 54268},
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 8, offset: 90849},
+																			pos: position{line: 2886, col: 8, offset: 91039},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2869, col: 12, offset: 90622},
+																					pos: position{line: 2873, col: 12, offset: 90812},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2869, col: 13, offset: 90623},
+																						pos: position{line: 2873, col: 13, offset: 90813},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 13, offset: 90623},
+																								pos:        position{line: 2873, col: 13, offset: 90813},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 20, offset: 90630},
+																								pos:        position{line: 2873, col: 20, offset: 90820},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 29, offset: 90639},
+																								pos:        position{line: 2873, col: 29, offset: 90829},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25089,16 +25372,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1670, col: 40, offset: 54083,
+																		line: 1674, col: 40, offset: 54273,
 																	},
 																},
 															},
@@ -25106,24 +25389,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1663, col: 5, offset: 53757},
+													pos:   position{line: 1667, col: 5, offset: 53947},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1675, col: 5, offset: 54199},
+														pos: position{line: 1679, col: 5, offset: 54389},
 														run: (*parser).callonListElements170,
 														expr: &seqExpr{
-															pos: position{line: 1675, col: 5, offset: 54199},
+															pos: position{line: 1679, col: 5, offset: 54389},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1675, col: 5, offset: 54199},
+																	pos:   position{line: 1679, col: 5, offset: 54389},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1675, col: 16, offset: 54210},
+																		pos: position{line: 1679, col: 16, offset: 54400},
 																		run: (*parser).callonListElements173,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1675, col: 16, offset: 54210},
+																			pos: position{line: 1679, col: 16, offset: 54400},
 																			expr: &litMatcher{
-																				pos:        position{line: 1675, col: 17, offset: 54211},
+																				pos:        position{line: 1679, col: 17, offset: 54401},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25132,7 +25415,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1678, col: 5, offset: 54268},
+																	pos: position{line: 1682, col: 5, offset: 54458},
 																	run: (*parser).callonListElements176,
 																},
 															},
@@ -25140,24 +25423,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1664, col: 5, offset: 53802},
+													pos:   position{line: 1668, col: 5, offset: 53992},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1686, col: 5, offset: 54517},
+														pos: position{line: 1690, col: 5, offset: 54707},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1688, col: 9, offset: 54583},
+																pos: position{line: 1692, col: 9, offset: 54773},
 																run: (*parser).callonListElements179,
 																expr: &seqExpr{
-																	pos: position{line: 1688, col: 9, offset: 54583},
+																	pos: position{line: 1692, col: 9, offset: 54773},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1688, col: 9, offset: 54583},
+																			pos: position{line: 1692, col: 9, offset: 54773},
 																			expr: &actionExpr{
-																				pos: position{line: 2860, col: 10, offset: 90451},
+																				pos: position{line: 2864, col: 10, offset: 90641},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2860, col: 10, offset: 90451},
+																					pos:        position{line: 2864, col: 10, offset: 90641},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25166,28 +25449,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2882, col: 8, offset: 90849},
+																			pos: position{line: 2886, col: 8, offset: 91039},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2869, col: 12, offset: 90622},
+																					pos: position{line: 2873, col: 12, offset: 90812},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2869, col: 13, offset: 90623},
+																						pos: position{line: 2873, col: 13, offset: 90813},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 13, offset: 90623},
+																								pos:        position{line: 2873, col: 13, offset: 90813},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 20, offset: 90630},
+																								pos:        position{line: 2873, col: 20, offset: 90820},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 29, offset: 90639},
+																								pos:        position{line: 2873, col: 29, offset: 90829},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25196,15 +25479,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1689, col: 9, offset: 54602},
+																			pos: position{line: 1693, col: 9, offset: 54792},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21489},
 																				run: (*parser).callonListElements193,
@@ -25212,18 +25495,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21489},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2877, col: 11, offset: 90785},
+																							pos: position{line: 2881, col: 11, offset: 90975},
 																							expr: &anyMatcher{
-																								line: 2877, col: 13, offset: 90787,
+																								line: 2881, col: 13, offset: 90977,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21496},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
+																								pos: position{line: 2864, col: 10, offset: 90641},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25232,28 +25515,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25262,9 +25545,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -25277,18 +25560,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1695, col: 9, offset: 54731},
+																pos: position{line: 1699, col: 9, offset: 54921},
 																run: (*parser).callonListElements208,
 																expr: &seqExpr{
-																	pos: position{line: 1695, col: 9, offset: 54731},
+																	pos: position{line: 1699, col: 9, offset: 54921},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2864, col: 11, offset: 90512},
+																			pos: position{line: 2868, col: 11, offset: 90702},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2864, col: 11, offset: 90512},
+																				pos: position{line: 2868, col: 11, offset: 90702},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 11, offset: 90512},
+																					pos:        position{line: 2868, col: 11, offset: 90702},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25297,15 +25580,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1696, col: 9, offset: 54804},
+																			pos:   position{line: 1700, col: 9, offset: 54994},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1696, col: 18, offset: 54813},
+																				pos: position{line: 1700, col: 18, offset: 55003},
 																				run: (*parser).callonListElements214,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1696, col: 18, offset: 54813},
+																					pos: position{line: 1700, col: 18, offset: 55003},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1696, col: 18, offset: 54813},
+																						pos:        position{line: 1700, col: 18, offset: 55003},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25315,28 +25598,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2882, col: 8, offset: 90849},
+																			pos: position{line: 2886, col: 8, offset: 91039},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2869, col: 12, offset: 90622},
+																					pos: position{line: 2873, col: 12, offset: 90812},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2869, col: 13, offset: 90623},
+																						pos: position{line: 2873, col: 13, offset: 90813},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 13, offset: 90623},
+																								pos:        position{line: 2873, col: 13, offset: 90813},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 20, offset: 90630},
+																								pos:        position{line: 2873, col: 20, offset: 90820},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 29, offset: 90639},
+																								pos:        position{line: 2873, col: 29, offset: 90829},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25345,9 +25628,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
@@ -25365,10 +25648,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1480, col: 5, offset: 47754},
+							pos:   position{line: 1484, col: 5, offset: 47944},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1480, col: 20, offset: 47769},
+								pos:  position{line: 1484, col: 20, offset: 47959},
 								name: "ExtraListElements",
 							},
 						},
@@ -25378,17 +25661,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1490, col: 1, offset: 48024},
+			pos:  position{line: 1494, col: 1, offset: 48214},
 			expr: &actionExpr{
-				pos: position{line: 1490, col: 22, offset: 48045},
+				pos: position{line: 1494, col: 22, offset: 48235},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1490, col: 22, offset: 48045},
+					pos:   position{line: 1494, col: 22, offset: 48235},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1490, col: 31, offset: 48054},
+						pos: position{line: 1494, col: 31, offset: 48244},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1490, col: 32, offset: 48055},
+							pos:  position{line: 1494, col: 32, offset: 48245},
 							name: "ExtraListElement",
 						},
 					},
@@ -25397,33 +25680,33 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1494, col: 1, offset: 48135},
+			pos:  position{line: 1498, col: 1, offset: 48325},
 			expr: &actionExpr{
-				pos: position{line: 1495, col: 5, offset: 48274},
+				pos: position{line: 1499, col: 5, offset: 48464},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1495, col: 5, offset: 48274},
+					pos: position{line: 1499, col: 5, offset: 48464},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2877, col: 11, offset: 90785},
+							pos: position{line: 2881, col: 11, offset: 90975},
 							expr: &anyMatcher{
-								line: 2877, col: 13, offset: 90787,
+								line: 2881, col: 13, offset: 90977,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1496, col: 5, offset: 48286},
+							pos:   position{line: 1500, col: 5, offset: 48476},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1497, col: 9, offset: 48304},
+								pos: position{line: 1501, col: 9, offset: 48494},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1497, col: 13, offset: 48308},
+										pos: position{line: 1501, col: 13, offset: 48498},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1497, col: 13, offset: 48308},
+											pos: position{line: 1501, col: 13, offset: 48498},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1497, col: 13, offset: 48308},
+													pos: position{line: 1501, col: 13, offset: 48498},
 													expr: &actionExpr{
 														pos: position{line: 677, col: 14, offset: 21489},
 														run: (*parser).callonExtraListElement10,
@@ -25431,18 +25714,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21489},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2877, col: 11, offset: 90785},
+																	pos: position{line: 2881, col: 11, offset: 90975},
 																	expr: &anyMatcher{
-																		line: 2877, col: 13, offset: 90787,
+																		line: 2881, col: 13, offset: 90977,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21496},
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 10, offset: 90451},
+																		pos: position{line: 2864, col: 10, offset: 90641},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			pos:        position{line: 2864, col: 10, offset: 90641},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25451,28 +25734,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
+																			pos: position{line: 2873, col: 12, offset: 90812},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25481,9 +25764,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -25493,33 +25776,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1498, col: 13, offset: 48332},
+													pos:   position{line: 1502, col: 13, offset: 48522},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1498, col: 22, offset: 48341},
+														pos: position{line: 1502, col: 22, offset: 48531},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1578, col: 5, offset: 50859},
+																pos: position{line: 1582, col: 5, offset: 51049},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1578, col: 5, offset: 50859},
+																	pos: position{line: 1582, col: 5, offset: 51049},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1578, col: 5, offset: 50859},
+																			pos:   position{line: 1582, col: 5, offset: 51049},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1585, col: 5, offset: 51067},
+																				pos: position{line: 1589, col: 5, offset: 51257},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1585, col: 5, offset: 51067},
+																					pos: position{line: 1589, col: 5, offset: 51257},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1585, col: 5, offset: 51067},
+																							pos: position{line: 1589, col: 5, offset: 51257},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
+																								pos: position{line: 2864, col: 10, offset: 90641},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25528,27 +25811,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1585, col: 12, offset: 51074},
+																							pos:   position{line: 1589, col: 12, offset: 51264},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1587, col: 9, offset: 51137},
+																								pos: position{line: 1591, col: 9, offset: 51327},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1587, col: 9, offset: 51137},
+																										pos: position{line: 1591, col: 9, offset: 51327},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1587, col: 9, offset: 51137},
+																											pos: position{line: 1591, col: 9, offset: 51327},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1587, col: 9, offset: 51137},
+																													pos:   position{line: 1591, col: 9, offset: 51327},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1587, col: 16, offset: 51144},
+																														pos: position{line: 1591, col: 16, offset: 51334},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1587, col: 16, offset: 51144},
+																															pos: position{line: 1591, col: 16, offset: 51334},
 																															expr: &litMatcher{
-																																pos:        position{line: 1587, col: 17, offset: 51145},
+																																pos:        position{line: 1591, col: 17, offset: 51335},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -25557,22 +25840,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1591, col: 9, offset: 51245},
+																													pos: position{line: 1595, col: 9, offset: 51435},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1610, col: 11, offset: 51962},
+																										pos: position{line: 1614, col: 11, offset: 52152},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 11, offset: 51962},
+																											pos: position{line: 1614, col: 11, offset: 52152},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1610, col: 11, offset: 51962},
+																													pos: position{line: 1614, col: 11, offset: 52152},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1610, col: 12, offset: 51963},
+																														pos:        position{line: 1614, col: 12, offset: 52153},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -25580,7 +25863,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1610, col: 20, offset: 51971},
+																													pos:        position{line: 1614, col: 20, offset: 52161},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25589,20 +25872,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1612, col: 13, offset: 52088},
+																										pos: position{line: 1616, col: 13, offset: 52278},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1612, col: 13, offset: 52088},
+																											pos: position{line: 1616, col: 13, offset: 52278},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1612, col: 14, offset: 52089},
+																													pos:        position{line: 1616, col: 14, offset: 52279},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1612, col: 21, offset: 52096},
+																													pos:        position{line: 1616, col: 21, offset: 52286},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25611,20 +25894,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1614, col: 13, offset: 52216},
+																										pos: position{line: 1618, col: 13, offset: 52406},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1614, col: 13, offset: 52216},
+																											pos: position{line: 1618, col: 13, offset: 52406},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1614, col: 14, offset: 52217},
+																													pos:        position{line: 1618, col: 14, offset: 52407},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1614, col: 21, offset: 52224},
+																													pos:        position{line: 1618, col: 21, offset: 52414},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -25633,15 +25916,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1616, col: 13, offset: 52344},
+																										pos: position{line: 1620, col: 13, offset: 52534},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1616, col: 13, offset: 52344},
+																											pos: position{line: 1620, col: 13, offset: 52534},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1616, col: 13, offset: 52344},
+																													pos: position{line: 1620, col: 13, offset: 52534},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1616, col: 14, offset: 52345},
+																														pos:        position{line: 1620, col: 14, offset: 52535},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -25649,7 +25932,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1616, col: 26, offset: 52357},
+																													pos:        position{line: 1620, col: 26, offset: 52547},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25658,15 +25941,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1618, col: 13, offset: 52477},
+																										pos: position{line: 1622, col: 13, offset: 52667},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 13, offset: 52477},
+																											pos: position{line: 1622, col: 13, offset: 52667},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1618, col: 13, offset: 52477},
+																													pos: position{line: 1622, col: 13, offset: 52667},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1618, col: 14, offset: 52478},
+																														pos:        position{line: 1622, col: 14, offset: 52668},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -25674,7 +25957,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1618, col: 26, offset: 52490},
+																													pos:        position{line: 1622, col: 26, offset: 52680},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -25686,12 +25969,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2864, col: 11, offset: 90512},
+																							pos: position{line: 2868, col: 11, offset: 90702},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2864, col: 11, offset: 90512},
+																								pos: position{line: 2868, col: 11, offset: 90702},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 11, offset: 90512},
+																									pos:        position{line: 2868, col: 11, offset: 90702},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25704,26 +25987,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1579, col: 5, offset: 50898},
+																			pos:   position{line: 1583, col: 5, offset: 51088},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1526, col: 5, offset: 49365},
+																				pos: position{line: 1530, col: 5, offset: 49555},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1526, col: 5, offset: 49365},
+																					pos: position{line: 1530, col: 5, offset: 49555},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1526, col: 5, offset: 49365},
+																							pos:   position{line: 1530, col: 5, offset: 49555},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1526, col: 14, offset: 49374},
+																								pos: position{line: 1530, col: 14, offset: 49564},
 																								expr: &actionExpr{
-																									pos: position{line: 1526, col: 15, offset: 49375},
+																									pos: position{line: 1530, col: 15, offset: 49565},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1526, col: 15, offset: 49375},
+																										pos: position{line: 1530, col: 15, offset: 49565},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1526, col: 15, offset: 49375},
+																											pos:        position{line: 1530, col: 15, offset: 49565},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25734,28 +26017,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25764,9 +26047,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -25779,27 +26062,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1628, col: 5, offset: 52756},
+																pos: position{line: 1632, col: 5, offset: 52946},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1628, col: 5, offset: 52756},
+																	pos: position{line: 1632, col: 5, offset: 52946},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1628, col: 5, offset: 52756},
+																			pos:   position{line: 1632, col: 5, offset: 52946},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1635, col: 5, offset: 53029},
+																				pos: position{line: 1639, col: 5, offset: 53219},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1635, col: 5, offset: 53029},
+																					pos: position{line: 1639, col: 5, offset: 53219},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1635, col: 5, offset: 53029},
+																							pos: position{line: 1639, col: 5, offset: 53219},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
+																								pos: position{line: 2864, col: 10, offset: 90641},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25808,24 +26091,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1636, col: 5, offset: 53041},
+																							pos:   position{line: 1640, col: 5, offset: 53231},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1637, col: 9, offset: 53057},
+																								pos: position{line: 1641, col: 9, offset: 53247},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1637, col: 10, offset: 53058},
+																									pos: position{line: 1641, col: 10, offset: 53248},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1637, col: 11, offset: 53059},
+																											pos:        position{line: 1641, col: 11, offset: 53249},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1637, col: 18, offset: 53066},
+																											pos: position{line: 1641, col: 18, offset: 53256},
 																											expr: &litMatcher{
-																												pos:        position{line: 1637, col: 19, offset: 53067},
+																												pos:        position{line: 1641, col: 19, offset: 53257},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -25836,16 +26119,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1640, col: 7, offset: 53157},
+																							pos: position{line: 1644, col: 7, offset: 53347},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2864, col: 11, offset: 90512},
+																							pos: position{line: 2868, col: 11, offset: 90702},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2864, col: 11, offset: 90512},
+																								pos: position{line: 2868, col: 11, offset: 90702},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 11, offset: 90512},
+																									pos:        position{line: 2868, col: 11, offset: 90702},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25858,56 +26141,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1629, col: 5, offset: 52797},
+																			pos:   position{line: 1633, col: 5, offset: 52987},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1629, col: 16, offset: 52808},
+																				pos: position{line: 1633, col: 16, offset: 52998},
 																				expr: &actionExpr{
-																					pos: position{line: 1650, col: 5, offset: 53422},
+																					pos: position{line: 1654, col: 5, offset: 53612},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1650, col: 5, offset: 53422},
+																						pos: position{line: 1654, col: 5, offset: 53612},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1650, col: 5, offset: 53422},
+																								pos: position{line: 1654, col: 5, offset: 53612},
 																								expr: &litMatcher{
-																									pos:        position{line: 1650, col: 6, offset: 53423},
+																									pos:        position{line: 1654, col: 6, offset: 53613},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1650, col: 10, offset: 53427},
+																								pos:   position{line: 1654, col: 10, offset: 53617},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1651, col: 7, offset: 53441},
+																									pos: position{line: 1655, col: 7, offset: 53631},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1651, col: 7, offset: 53441},
+																											pos: position{line: 1655, col: 7, offset: 53631},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1651, col: 7, offset: 53441},
+																												pos:        position{line: 1655, col: 7, offset: 53631},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1652, col: 7, offset: 53486},
+																											pos: position{line: 1656, col: 7, offset: 53676},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1652, col: 7, offset: 53486},
+																												pos:        position{line: 1656, col: 7, offset: 53676},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1653, col: 7, offset: 53529},
+																											pos: position{line: 1657, col: 7, offset: 53719},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1653, col: 7, offset: 53529},
+																												pos:        position{line: 1657, col: 7, offset: 53719},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -25917,12 +26200,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2864, col: 11, offset: 90512},
+																								pos: position{line: 2868, col: 11, offset: 90702},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2864, col: 11, offset: 90512},
+																									pos: position{line: 2868, col: 11, offset: 90702},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 11, offset: 90512},
+																										pos:        position{line: 2868, col: 11, offset: 90702},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -25936,26 +26219,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1630, col: 5, offset: 52847},
+																			pos:   position{line: 1634, col: 5, offset: 53037},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1526, col: 5, offset: 49365},
+																				pos: position{line: 1530, col: 5, offset: 49555},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1526, col: 5, offset: 49365},
+																					pos: position{line: 1530, col: 5, offset: 49555},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1526, col: 5, offset: 49365},
+																							pos:   position{line: 1530, col: 5, offset: 49555},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1526, col: 14, offset: 49374},
+																								pos: position{line: 1530, col: 14, offset: 49564},
 																								expr: &actionExpr{
-																									pos: position{line: 1526, col: 15, offset: 49375},
+																									pos: position{line: 1530, col: 15, offset: 49565},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1526, col: 15, offset: 49375},
+																										pos: position{line: 1530, col: 15, offset: 49565},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1526, col: 15, offset: 49375},
+																											pos:        position{line: 1530, col: 15, offset: 49565},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -25966,28 +26249,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25996,9 +26279,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -26011,36 +26294,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1718, col: 5, offset: 55369},
+																pos: position{line: 1722, col: 5, offset: 55559},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1718, col: 5, offset: 55369},
+																	pos: position{line: 1722, col: 5, offset: 55559},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1718, col: 5, offset: 55369},
+																			pos:   position{line: 1722, col: 5, offset: 55559},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1724, col: 5, offset: 55566},
+																				pos: position{line: 1728, col: 5, offset: 55756},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1724, col: 5, offset: 55566},
+																					pos: position{line: 1728, col: 5, offset: 55756},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1724, col: 5, offset: 55566},
+																							pos:        position{line: 1728, col: 5, offset: 55756},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1724, col: 9, offset: 55570},
+																							pos:   position{line: 1728, col: 9, offset: 55760},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1724, col: 14, offset: 55575},
+																								pos: position{line: 1728, col: 14, offset: 55765},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1724, col: 14, offset: 55575},
+																									pos: position{line: 1728, col: 14, offset: 55765},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1724, col: 14, offset: 55575},
+																										pos:        position{line: 1728, col: 14, offset: 55765},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26050,18 +26333,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1724, col: 62, offset: 55623},
+																							pos:        position{line: 1728, col: 62, offset: 55813},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2864, col: 11, offset: 90512},
+																							pos: position{line: 2868, col: 11, offset: 90702},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2864, col: 11, offset: 90512},
+																								pos: position{line: 2868, col: 11, offset: 90702},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 11, offset: 90512},
+																									pos:        position{line: 2868, col: 11, offset: 90702},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26074,26 +26357,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1719, col: 5, offset: 55405},
+																			pos:   position{line: 1723, col: 5, offset: 55595},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1526, col: 5, offset: 49365},
+																				pos: position{line: 1530, col: 5, offset: 49555},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1526, col: 5, offset: 49365},
+																					pos: position{line: 1530, col: 5, offset: 49555},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1526, col: 5, offset: 49365},
+																							pos:   position{line: 1530, col: 5, offset: 49555},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1526, col: 14, offset: 49374},
+																								pos: position{line: 1530, col: 14, offset: 49564},
 																								expr: &actionExpr{
-																									pos: position{line: 1526, col: 15, offset: 49375},
+																									pos: position{line: 1530, col: 15, offset: 49565},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1526, col: 15, offset: 49375},
+																										pos: position{line: 1530, col: 15, offset: 49565},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1526, col: 15, offset: 49375},
+																											pos:        position{line: 1530, col: 15, offset: 49565},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26104,28 +26387,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26134,9 +26417,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -26149,40 +26432,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1662, col: 5, offset: 53722},
+																pos: position{line: 1666, col: 5, offset: 53912},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1662, col: 5, offset: 53722},
+																	pos: position{line: 1666, col: 5, offset: 53912},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1662, col: 5, offset: 53722},
+																			pos:   position{line: 1666, col: 5, offset: 53912},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1670, col: 5, offset: 54048},
+																				pos: position{line: 1674, col: 5, offset: 54238},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1670, col: 5, offset: 54048},
+																					pos: position{line: 1674, col: 5, offset: 54238},
 																					expr: &seqExpr{
-																						pos: position{line: 1670, col: 6, offset: 54049},
+																						pos: position{line: 1674, col: 6, offset: 54239},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1670, col: 6, offset: 54049},
+																								pos: position{line: 1674, col: 6, offset: 54239},
 																								expr: &actionExpr{
-																									pos: position{line: 1675, col: 5, offset: 54199},
+																									pos: position{line: 1679, col: 5, offset: 54389},
 																									run: (*parser).callonExtraListElement174,
 																									expr: &seqExpr{
-																										pos: position{line: 1675, col: 5, offset: 54199},
+																										pos: position{line: 1679, col: 5, offset: 54389},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1675, col: 5, offset: 54199},
+																												pos:   position{line: 1679, col: 5, offset: 54389},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1675, col: 16, offset: 54210},
+																													pos: position{line: 1679, col: 16, offset: 54400},
 																													run: (*parser).callonExtraListElement177,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1675, col: 16, offset: 54210},
+																														pos: position{line: 1679, col: 16, offset: 54400},
 																														expr: &litMatcher{
-																															pos:        position{line: 1675, col: 17, offset: 54211},
+																															pos:        position{line: 1679, col: 17, offset: 54401},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -26191,7 +26474,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1678, col: 5, offset: 54268},
+																												pos: position{line: 1682, col: 5, offset: 54458},
 																												run: (*parser).callonExtraListElement180,
 																											},
 																										},
@@ -26199,30 +26482,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1670, col: 35, offset: 54078},
+																								pos: position{line: 1674, col: 35, offset: 54268},
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 8, offset: 90849},
+																									pos: position{line: 2886, col: 8, offset: 91039},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2869, col: 12, offset: 90622},
+																											pos: position{line: 2873, col: 12, offset: 90812},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2869, col: 13, offset: 90623},
+																												pos: position{line: 2873, col: 13, offset: 90813},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 13, offset: 90623},
+																														pos:        position{line: 2873, col: 13, offset: 90813},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 20, offset: 90630},
+																														pos:        position{line: 2873, col: 20, offset: 90820},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 29, offset: 90639},
+																														pos:        position{line: 2873, col: 29, offset: 90829},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26231,16 +26514,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2879, col: 8, offset: 90799},
+																											pos: position{line: 2883, col: 8, offset: 90989},
 																											expr: &anyMatcher{
-																												line: 2879, col: 9, offset: 90800,
+																												line: 2883, col: 9, offset: 90990,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1670, col: 40, offset: 54083,
+																								line: 1674, col: 40, offset: 54273,
 																							},
 																						},
 																					},
@@ -26248,24 +26531,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1663, col: 5, offset: 53757},
+																			pos:   position{line: 1667, col: 5, offset: 53947},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1675, col: 5, offset: 54199},
+																				pos: position{line: 1679, col: 5, offset: 54389},
 																				run: (*parser).callonExtraListElement192,
 																				expr: &seqExpr{
-																					pos: position{line: 1675, col: 5, offset: 54199},
+																					pos: position{line: 1679, col: 5, offset: 54389},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1675, col: 5, offset: 54199},
+																							pos:   position{line: 1679, col: 5, offset: 54389},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1675, col: 16, offset: 54210},
+																								pos: position{line: 1679, col: 16, offset: 54400},
 																								run: (*parser).callonExtraListElement195,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1675, col: 16, offset: 54210},
+																									pos: position{line: 1679, col: 16, offset: 54400},
 																									expr: &litMatcher{
-																										pos:        position{line: 1675, col: 17, offset: 54211},
+																										pos:        position{line: 1679, col: 17, offset: 54401},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26274,7 +26557,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1678, col: 5, offset: 54268},
+																							pos: position{line: 1682, col: 5, offset: 54458},
 																							run: (*parser).callonExtraListElement198,
 																						},
 																					},
@@ -26282,24 +26565,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1664, col: 5, offset: 53802},
+																			pos:   position{line: 1668, col: 5, offset: 53992},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1686, col: 5, offset: 54517},
+																				pos: position{line: 1690, col: 5, offset: 54707},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1688, col: 9, offset: 54583},
+																						pos: position{line: 1692, col: 9, offset: 54773},
 																						run: (*parser).callonExtraListElement201,
 																						expr: &seqExpr{
-																							pos: position{line: 1688, col: 9, offset: 54583},
+																							pos: position{line: 1692, col: 9, offset: 54773},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1688, col: 9, offset: 54583},
+																									pos: position{line: 1692, col: 9, offset: 54773},
 																									expr: &actionExpr{
-																										pos: position{line: 2860, col: 10, offset: 90451},
+																										pos: position{line: 2864, col: 10, offset: 90641},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2860, col: 10, offset: 90451},
+																											pos:        position{line: 2864, col: 10, offset: 90641},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26308,28 +26591,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2882, col: 8, offset: 90849},
+																									pos: position{line: 2886, col: 8, offset: 91039},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2869, col: 12, offset: 90622},
+																											pos: position{line: 2873, col: 12, offset: 90812},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2869, col: 13, offset: 90623},
+																												pos: position{line: 2873, col: 13, offset: 90813},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 13, offset: 90623},
+																														pos:        position{line: 2873, col: 13, offset: 90813},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 20, offset: 90630},
+																														pos:        position{line: 2873, col: 20, offset: 90820},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 29, offset: 90639},
+																														pos:        position{line: 2873, col: 29, offset: 90829},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26338,15 +26621,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2879, col: 8, offset: 90799},
+																											pos: position{line: 2883, col: 8, offset: 90989},
 																											expr: &anyMatcher{
-																												line: 2879, col: 9, offset: 90800,
+																												line: 2883, col: 9, offset: 90990,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1689, col: 9, offset: 54602},
+																									pos: position{line: 1693, col: 9, offset: 54792},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21489},
 																										run: (*parser).callonExtraListElement215,
@@ -26354,18 +26637,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21489},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2877, col: 11, offset: 90785},
+																													pos: position{line: 2881, col: 11, offset: 90975},
 																													expr: &anyMatcher{
-																														line: 2877, col: 13, offset: 90787,
+																														line: 2881, col: 13, offset: 90977,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21496},
 																													expr: &actionExpr{
-																														pos: position{line: 2860, col: 10, offset: 90451},
+																														pos: position{line: 2864, col: 10, offset: 90641},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2860, col: 10, offset: 90451},
+																															pos:        position{line: 2864, col: 10, offset: 90641},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26374,28 +26657,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2882, col: 8, offset: 90849},
+																													pos: position{line: 2886, col: 8, offset: 91039},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2869, col: 12, offset: 90622},
+																															pos: position{line: 2873, col: 12, offset: 90812},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2869, col: 13, offset: 90623},
+																																pos: position{line: 2873, col: 13, offset: 90813},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2869, col: 13, offset: 90623},
+																																		pos:        position{line: 2873, col: 13, offset: 90813},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2869, col: 20, offset: 90630},
+																																		pos:        position{line: 2873, col: 20, offset: 90820},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2869, col: 29, offset: 90639},
+																																		pos:        position{line: 2873, col: 29, offset: 90829},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26404,9 +26687,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2879, col: 8, offset: 90799},
+																															pos: position{line: 2883, col: 8, offset: 90989},
 																															expr: &anyMatcher{
-																																line: 2879, col: 9, offset: 90800,
+																																line: 2883, col: 9, offset: 90990,
 																															},
 																														},
 																													},
@@ -26419,18 +26702,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1695, col: 9, offset: 54731},
+																						pos: position{line: 1699, col: 9, offset: 54921},
 																						run: (*parser).callonExtraListElement230,
 																						expr: &seqExpr{
-																							pos: position{line: 1695, col: 9, offset: 54731},
+																							pos: position{line: 1699, col: 9, offset: 54921},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2864, col: 11, offset: 90512},
+																									pos: position{line: 2868, col: 11, offset: 90702},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2864, col: 11, offset: 90512},
+																										pos: position{line: 2868, col: 11, offset: 90702},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2864, col: 11, offset: 90512},
+																											pos:        position{line: 2868, col: 11, offset: 90702},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26439,15 +26722,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1696, col: 9, offset: 54804},
+																									pos:   position{line: 1700, col: 9, offset: 54994},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1696, col: 18, offset: 54813},
+																										pos: position{line: 1700, col: 18, offset: 55003},
 																										run: (*parser).callonExtraListElement236,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1696, col: 18, offset: 54813},
+																											pos: position{line: 1700, col: 18, offset: 55003},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1696, col: 18, offset: 54813},
+																												pos:        position{line: 1700, col: 18, offset: 55003},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26457,28 +26740,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2882, col: 8, offset: 90849},
+																									pos: position{line: 2886, col: 8, offset: 91039},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2869, col: 12, offset: 90622},
+																											pos: position{line: 2873, col: 12, offset: 90812},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2869, col: 13, offset: 90623},
+																												pos: position{line: 2873, col: 13, offset: 90813},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 13, offset: 90623},
+																														pos:        position{line: 2873, col: 13, offset: 90813},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 20, offset: 90630},
+																														pos:        position{line: 2873, col: 20, offset: 90820},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 29, offset: 90639},
+																														pos:        position{line: 2873, col: 29, offset: 90829},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26487,9 +26770,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2879, col: 8, offset: 90799},
+																											pos: position{line: 2883, col: 8, offset: 90989},
 																											expr: &anyMatcher{
-																												line: 2879, col: 9, offset: 90800,
+																												line: 2883, col: 9, offset: 90990,
 																											},
 																										},
 																									},
@@ -26510,50 +26793,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1501, col: 13, offset: 48492},
+										pos: position{line: 1505, col: 13, offset: 48682},
 										run: (*parser).callonExtraListElement247,
 										expr: &seqExpr{
-											pos: position{line: 1501, col: 13, offset: 48492},
+											pos: position{line: 1505, col: 13, offset: 48682},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1501, col: 13, offset: 48492},
+													pos:   position{line: 1505, col: 13, offset: 48682},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1501, col: 24, offset: 48503},
+														pos: position{line: 1505, col: 24, offset: 48693},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1501, col: 25, offset: 48504},
+															pos:  position{line: 1505, col: 25, offset: 48694},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1502, col: 13, offset: 48535},
+													pos:   position{line: 1506, col: 13, offset: 48725},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1502, col: 22, offset: 48544},
+														pos: position{line: 1506, col: 22, offset: 48734},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1578, col: 5, offset: 50859},
+																pos: position{line: 1582, col: 5, offset: 51049},
 																run: (*parser).callonExtraListElement254,
 																expr: &seqExpr{
-																	pos: position{line: 1578, col: 5, offset: 50859},
+																	pos: position{line: 1582, col: 5, offset: 51049},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1578, col: 5, offset: 50859},
+																			pos:   position{line: 1582, col: 5, offset: 51049},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1585, col: 5, offset: 51067},
+																				pos: position{line: 1589, col: 5, offset: 51257},
 																				run: (*parser).callonExtraListElement257,
 																				expr: &seqExpr{
-																					pos: position{line: 1585, col: 5, offset: 51067},
+																					pos: position{line: 1589, col: 5, offset: 51257},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1585, col: 5, offset: 51067},
+																							pos: position{line: 1589, col: 5, offset: 51257},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
+																								pos: position{line: 2864, col: 10, offset: 90641},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26562,27 +26845,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1585, col: 12, offset: 51074},
+																							pos:   position{line: 1589, col: 12, offset: 51264},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1587, col: 9, offset: 51137},
+																								pos: position{line: 1591, col: 9, offset: 51327},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1587, col: 9, offset: 51137},
+																										pos: position{line: 1591, col: 9, offset: 51327},
 																										run: (*parser).callonExtraListElement264,
 																										expr: &seqExpr{
-																											pos: position{line: 1587, col: 9, offset: 51137},
+																											pos: position{line: 1591, col: 9, offset: 51327},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1587, col: 9, offset: 51137},
+																													pos:   position{line: 1591, col: 9, offset: 51327},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1587, col: 16, offset: 51144},
+																														pos: position{line: 1591, col: 16, offset: 51334},
 																														run: (*parser).callonExtraListElement267,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1587, col: 16, offset: 51144},
+																															pos: position{line: 1591, col: 16, offset: 51334},
 																															expr: &litMatcher{
-																																pos:        position{line: 1587, col: 17, offset: 51145},
+																																pos:        position{line: 1591, col: 17, offset: 51335},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26591,22 +26874,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1591, col: 9, offset: 51245},
+																													pos: position{line: 1595, col: 9, offset: 51435},
 																													run: (*parser).callonExtraListElement270,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1610, col: 11, offset: 51962},
+																										pos: position{line: 1614, col: 11, offset: 52152},
 																										run: (*parser).callonExtraListElement271,
 																										expr: &seqExpr{
-																											pos: position{line: 1610, col: 11, offset: 51962},
+																											pos: position{line: 1614, col: 11, offset: 52152},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1610, col: 11, offset: 51962},
+																													pos: position{line: 1614, col: 11, offset: 52152},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1610, col: 12, offset: 51963},
+																														pos:        position{line: 1614, col: 12, offset: 52153},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26614,7 +26897,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1610, col: 20, offset: 51971},
+																													pos:        position{line: 1614, col: 20, offset: 52161},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26623,20 +26906,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1612, col: 13, offset: 52088},
+																										pos: position{line: 1616, col: 13, offset: 52278},
 																										run: (*parser).callonExtraListElement276,
 																										expr: &seqExpr{
-																											pos: position{line: 1612, col: 13, offset: 52088},
+																											pos: position{line: 1616, col: 13, offset: 52278},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1612, col: 14, offset: 52089},
+																													pos:        position{line: 1616, col: 14, offset: 52279},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1612, col: 21, offset: 52096},
+																													pos:        position{line: 1616, col: 21, offset: 52286},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26645,20 +26928,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1614, col: 13, offset: 52216},
+																										pos: position{line: 1618, col: 13, offset: 52406},
 																										run: (*parser).callonExtraListElement280,
 																										expr: &seqExpr{
-																											pos: position{line: 1614, col: 13, offset: 52216},
+																											pos: position{line: 1618, col: 13, offset: 52406},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1614, col: 14, offset: 52217},
+																													pos:        position{line: 1618, col: 14, offset: 52407},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1614, col: 21, offset: 52224},
+																													pos:        position{line: 1618, col: 21, offset: 52414},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26667,15 +26950,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1616, col: 13, offset: 52344},
+																										pos: position{line: 1620, col: 13, offset: 52534},
 																										run: (*parser).callonExtraListElement284,
 																										expr: &seqExpr{
-																											pos: position{line: 1616, col: 13, offset: 52344},
+																											pos: position{line: 1620, col: 13, offset: 52534},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1616, col: 13, offset: 52344},
+																													pos: position{line: 1620, col: 13, offset: 52534},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1616, col: 14, offset: 52345},
+																														pos:        position{line: 1620, col: 14, offset: 52535},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26683,7 +26966,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1616, col: 26, offset: 52357},
+																													pos:        position{line: 1620, col: 26, offset: 52547},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26692,15 +26975,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1618, col: 13, offset: 52477},
+																										pos: position{line: 1622, col: 13, offset: 52667},
 																										run: (*parser).callonExtraListElement289,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 13, offset: 52477},
+																											pos: position{line: 1622, col: 13, offset: 52667},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1618, col: 13, offset: 52477},
+																													pos: position{line: 1622, col: 13, offset: 52667},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1618, col: 14, offset: 52478},
+																														pos:        position{line: 1622, col: 14, offset: 52668},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26708,7 +26991,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1618, col: 26, offset: 52490},
+																													pos:        position{line: 1622, col: 26, offset: 52680},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26720,12 +27003,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2864, col: 11, offset: 90512},
+																							pos: position{line: 2868, col: 11, offset: 90702},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2864, col: 11, offset: 90512},
+																								pos: position{line: 2868, col: 11, offset: 90702},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 11, offset: 90512},
+																									pos:        position{line: 2868, col: 11, offset: 90702},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26738,26 +27021,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1579, col: 5, offset: 50898},
+																			pos:   position{line: 1583, col: 5, offset: 51088},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1526, col: 5, offset: 49365},
+																				pos: position{line: 1530, col: 5, offset: 49555},
 																				run: (*parser).callonExtraListElement298,
 																				expr: &seqExpr{
-																					pos: position{line: 1526, col: 5, offset: 49365},
+																					pos: position{line: 1530, col: 5, offset: 49555},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1526, col: 5, offset: 49365},
+																							pos:   position{line: 1530, col: 5, offset: 49555},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1526, col: 14, offset: 49374},
+																								pos: position{line: 1530, col: 14, offset: 49564},
 																								expr: &actionExpr{
-																									pos: position{line: 1526, col: 15, offset: 49375},
+																									pos: position{line: 1530, col: 15, offset: 49565},
 																									run: (*parser).callonExtraListElement302,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1526, col: 15, offset: 49375},
+																										pos: position{line: 1530, col: 15, offset: 49565},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1526, col: 15, offset: 49375},
+																											pos:        position{line: 1530, col: 15, offset: 49565},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26768,28 +27051,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26798,9 +27081,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -26813,27 +27096,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1628, col: 5, offset: 52756},
+																pos: position{line: 1632, col: 5, offset: 52946},
 																run: (*parser).callonExtraListElement313,
 																expr: &seqExpr{
-																	pos: position{line: 1628, col: 5, offset: 52756},
+																	pos: position{line: 1632, col: 5, offset: 52946},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1628, col: 5, offset: 52756},
+																			pos:   position{line: 1632, col: 5, offset: 52946},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1635, col: 5, offset: 53029},
+																				pos: position{line: 1639, col: 5, offset: 53219},
 																				run: (*parser).callonExtraListElement316,
 																				expr: &seqExpr{
-																					pos: position{line: 1635, col: 5, offset: 53029},
+																					pos: position{line: 1639, col: 5, offset: 53219},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1635, col: 5, offset: 53029},
+																							pos: position{line: 1639, col: 5, offset: 53219},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
+																								pos: position{line: 2864, col: 10, offset: 90641},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26842,24 +27125,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1636, col: 5, offset: 53041},
+																							pos:   position{line: 1640, col: 5, offset: 53231},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1637, col: 9, offset: 53057},
+																								pos: position{line: 1641, col: 9, offset: 53247},
 																								run: (*parser).callonExtraListElement322,
 																								expr: &choiceExpr{
-																									pos: position{line: 1637, col: 10, offset: 53058},
+																									pos: position{line: 1641, col: 10, offset: 53248},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1637, col: 11, offset: 53059},
+																											pos:        position{line: 1641, col: 11, offset: 53249},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1637, col: 18, offset: 53066},
+																											pos: position{line: 1641, col: 18, offset: 53256},
 																											expr: &litMatcher{
-																												pos:        position{line: 1637, col: 19, offset: 53067},
+																												pos:        position{line: 1641, col: 19, offset: 53257},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26870,16 +27153,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1640, col: 7, offset: 53157},
+																							pos: position{line: 1644, col: 7, offset: 53347},
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2864, col: 11, offset: 90512},
+																							pos: position{line: 2868, col: 11, offset: 90702},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2864, col: 11, offset: 90512},
+																								pos: position{line: 2868, col: 11, offset: 90702},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 11, offset: 90512},
+																									pos:        position{line: 2868, col: 11, offset: 90702},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26892,56 +27175,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1629, col: 5, offset: 52797},
+																			pos:   position{line: 1633, col: 5, offset: 52987},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1629, col: 16, offset: 52808},
+																				pos: position{line: 1633, col: 16, offset: 52998},
 																				expr: &actionExpr{
-																					pos: position{line: 1650, col: 5, offset: 53422},
+																					pos: position{line: 1654, col: 5, offset: 53612},
 																					run: (*parser).callonExtraListElement333,
 																					expr: &seqExpr{
-																						pos: position{line: 1650, col: 5, offset: 53422},
+																						pos: position{line: 1654, col: 5, offset: 53612},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1650, col: 5, offset: 53422},
+																								pos: position{line: 1654, col: 5, offset: 53612},
 																								expr: &litMatcher{
-																									pos:        position{line: 1650, col: 6, offset: 53423},
+																									pos:        position{line: 1654, col: 6, offset: 53613},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1650, col: 10, offset: 53427},
+																								pos:   position{line: 1654, col: 10, offset: 53617},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1651, col: 7, offset: 53441},
+																									pos: position{line: 1655, col: 7, offset: 53631},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1651, col: 7, offset: 53441},
+																											pos: position{line: 1655, col: 7, offset: 53631},
 																											run: (*parser).callonExtraListElement339,
 																											expr: &litMatcher{
-																												pos:        position{line: 1651, col: 7, offset: 53441},
+																												pos:        position{line: 1655, col: 7, offset: 53631},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1652, col: 7, offset: 53486},
+																											pos: position{line: 1656, col: 7, offset: 53676},
 																											run: (*parser).callonExtraListElement341,
 																											expr: &litMatcher{
-																												pos:        position{line: 1652, col: 7, offset: 53486},
+																												pos:        position{line: 1656, col: 7, offset: 53676},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1653, col: 7, offset: 53529},
+																											pos: position{line: 1657, col: 7, offset: 53719},
 																											run: (*parser).callonExtraListElement343,
 																											expr: &litMatcher{
-																												pos:        position{line: 1653, col: 7, offset: 53529},
+																												pos:        position{line: 1657, col: 7, offset: 53719},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26951,12 +27234,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2864, col: 11, offset: 90512},
+																								pos: position{line: 2868, col: 11, offset: 90702},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2864, col: 11, offset: 90512},
+																									pos: position{line: 2868, col: 11, offset: 90702},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 11, offset: 90512},
+																										pos:        position{line: 2868, col: 11, offset: 90702},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26970,26 +27253,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1630, col: 5, offset: 52847},
+																			pos:   position{line: 1634, col: 5, offset: 53037},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1526, col: 5, offset: 49365},
+																				pos: position{line: 1530, col: 5, offset: 49555},
 																				run: (*parser).callonExtraListElement349,
 																				expr: &seqExpr{
-																					pos: position{line: 1526, col: 5, offset: 49365},
+																					pos: position{line: 1530, col: 5, offset: 49555},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1526, col: 5, offset: 49365},
+																							pos:   position{line: 1530, col: 5, offset: 49555},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1526, col: 14, offset: 49374},
+																								pos: position{line: 1530, col: 14, offset: 49564},
 																								expr: &actionExpr{
-																									pos: position{line: 1526, col: 15, offset: 49375},
+																									pos: position{line: 1530, col: 15, offset: 49565},
 																									run: (*parser).callonExtraListElement353,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1526, col: 15, offset: 49375},
+																										pos: position{line: 1530, col: 15, offset: 49565},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1526, col: 15, offset: 49375},
+																											pos:        position{line: 1530, col: 15, offset: 49565},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27000,28 +27283,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27030,9 +27313,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -27045,36 +27328,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1718, col: 5, offset: 55369},
+																pos: position{line: 1722, col: 5, offset: 55559},
 																run: (*parser).callonExtraListElement364,
 																expr: &seqExpr{
-																	pos: position{line: 1718, col: 5, offset: 55369},
+																	pos: position{line: 1722, col: 5, offset: 55559},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1718, col: 5, offset: 55369},
+																			pos:   position{line: 1722, col: 5, offset: 55559},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1724, col: 5, offset: 55566},
+																				pos: position{line: 1728, col: 5, offset: 55756},
 																				run: (*parser).callonExtraListElement367,
 																				expr: &seqExpr{
-																					pos: position{line: 1724, col: 5, offset: 55566},
+																					pos: position{line: 1728, col: 5, offset: 55756},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1724, col: 5, offset: 55566},
+																							pos:        position{line: 1728, col: 5, offset: 55756},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1724, col: 9, offset: 55570},
+																							pos:   position{line: 1728, col: 9, offset: 55760},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1724, col: 14, offset: 55575},
+																								pos: position{line: 1728, col: 14, offset: 55765},
 																								run: (*parser).callonExtraListElement371,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1724, col: 14, offset: 55575},
+																									pos: position{line: 1728, col: 14, offset: 55765},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1724, col: 14, offset: 55575},
+																										pos:        position{line: 1728, col: 14, offset: 55765},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27084,18 +27367,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1724, col: 62, offset: 55623},
+																							pos:        position{line: 1728, col: 62, offset: 55813},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2864, col: 11, offset: 90512},
+																							pos: position{line: 2868, col: 11, offset: 90702},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2864, col: 11, offset: 90512},
+																								pos: position{line: 2868, col: 11, offset: 90702},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 11, offset: 90512},
+																									pos:        position{line: 2868, col: 11, offset: 90702},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27108,26 +27391,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1719, col: 5, offset: 55405},
+																			pos:   position{line: 1723, col: 5, offset: 55595},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1526, col: 5, offset: 49365},
+																				pos: position{line: 1530, col: 5, offset: 49555},
 																				run: (*parser).callonExtraListElement379,
 																				expr: &seqExpr{
-																					pos: position{line: 1526, col: 5, offset: 49365},
+																					pos: position{line: 1530, col: 5, offset: 49555},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1526, col: 5, offset: 49365},
+																							pos:   position{line: 1530, col: 5, offset: 49555},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1526, col: 14, offset: 49374},
+																								pos: position{line: 1530, col: 14, offset: 49564},
 																								expr: &actionExpr{
-																									pos: position{line: 1526, col: 15, offset: 49375},
+																									pos: position{line: 1530, col: 15, offset: 49565},
 																									run: (*parser).callonExtraListElement383,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1526, col: 15, offset: 49375},
+																										pos: position{line: 1530, col: 15, offset: 49565},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1526, col: 15, offset: 49375},
+																											pos:        position{line: 1530, col: 15, offset: 49565},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27138,28 +27421,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27168,9 +27451,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -27183,40 +27466,40 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1662, col: 5, offset: 53722},
+																pos: position{line: 1666, col: 5, offset: 53912},
 																run: (*parser).callonExtraListElement394,
 																expr: &seqExpr{
-																	pos: position{line: 1662, col: 5, offset: 53722},
+																	pos: position{line: 1666, col: 5, offset: 53912},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1662, col: 5, offset: 53722},
+																			pos:   position{line: 1666, col: 5, offset: 53912},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1670, col: 5, offset: 54048},
+																				pos: position{line: 1674, col: 5, offset: 54238},
 																				run: (*parser).callonExtraListElement397,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1670, col: 5, offset: 54048},
+																					pos: position{line: 1674, col: 5, offset: 54238},
 																					expr: &seqExpr{
-																						pos: position{line: 1670, col: 6, offset: 54049},
+																						pos: position{line: 1674, col: 6, offset: 54239},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1670, col: 6, offset: 54049},
+																								pos: position{line: 1674, col: 6, offset: 54239},
 																								expr: &actionExpr{
-																									pos: position{line: 1675, col: 5, offset: 54199},
+																									pos: position{line: 1679, col: 5, offset: 54389},
 																									run: (*parser).callonExtraListElement401,
 																									expr: &seqExpr{
-																										pos: position{line: 1675, col: 5, offset: 54199},
+																										pos: position{line: 1679, col: 5, offset: 54389},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1675, col: 5, offset: 54199},
+																												pos:   position{line: 1679, col: 5, offset: 54389},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1675, col: 16, offset: 54210},
+																													pos: position{line: 1679, col: 16, offset: 54400},
 																													run: (*parser).callonExtraListElement404,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1675, col: 16, offset: 54210},
+																														pos: position{line: 1679, col: 16, offset: 54400},
 																														expr: &litMatcher{
-																															pos:        position{line: 1675, col: 17, offset: 54211},
+																															pos:        position{line: 1679, col: 17, offset: 54401},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -27225,7 +27508,7 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1678, col: 5, offset: 54268},
+																												pos: position{line: 1682, col: 5, offset: 54458},
 																												run: (*parser).callonExtraListElement407,
 																											},
 																										},
@@ -27233,30 +27516,30 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1670, col: 35, offset: 54078},
+																								pos: position{line: 1674, col: 35, offset: 54268},
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 8, offset: 90849},
+																									pos: position{line: 2886, col: 8, offset: 91039},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2869, col: 12, offset: 90622},
+																											pos: position{line: 2873, col: 12, offset: 90812},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2869, col: 13, offset: 90623},
+																												pos: position{line: 2873, col: 13, offset: 90813},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 13, offset: 90623},
+																														pos:        position{line: 2873, col: 13, offset: 90813},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 20, offset: 90630},
+																														pos:        position{line: 2873, col: 20, offset: 90820},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 29, offset: 90639},
+																														pos:        position{line: 2873, col: 29, offset: 90829},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27265,16 +27548,16 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2879, col: 8, offset: 90799},
+																											pos: position{line: 2883, col: 8, offset: 90989},
 																											expr: &anyMatcher{
-																												line: 2879, col: 9, offset: 90800,
+																												line: 2883, col: 9, offset: 90990,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1670, col: 40, offset: 54083,
+																								line: 1674, col: 40, offset: 54273,
 																							},
 																						},
 																					},
@@ -27282,24 +27565,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1663, col: 5, offset: 53757},
+																			pos:   position{line: 1667, col: 5, offset: 53947},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1675, col: 5, offset: 54199},
+																				pos: position{line: 1679, col: 5, offset: 54389},
 																				run: (*parser).callonExtraListElement419,
 																				expr: &seqExpr{
-																					pos: position{line: 1675, col: 5, offset: 54199},
+																					pos: position{line: 1679, col: 5, offset: 54389},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1675, col: 5, offset: 54199},
+																							pos:   position{line: 1679, col: 5, offset: 54389},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1675, col: 16, offset: 54210},
+																								pos: position{line: 1679, col: 16, offset: 54400},
 																								run: (*parser).callonExtraListElement422,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1675, col: 16, offset: 54210},
+																									pos: position{line: 1679, col: 16, offset: 54400},
 																									expr: &litMatcher{
-																										pos:        position{line: 1675, col: 17, offset: 54211},
+																										pos:        position{line: 1679, col: 17, offset: 54401},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27308,7 +27591,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1678, col: 5, offset: 54268},
+																							pos: position{line: 1682, col: 5, offset: 54458},
 																							run: (*parser).callonExtraListElement425,
 																						},
 																					},
@@ -27316,24 +27599,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1664, col: 5, offset: 53802},
+																			pos:   position{line: 1668, col: 5, offset: 53992},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1686, col: 5, offset: 54517},
+																				pos: position{line: 1690, col: 5, offset: 54707},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1688, col: 9, offset: 54583},
+																						pos: position{line: 1692, col: 9, offset: 54773},
 																						run: (*parser).callonExtraListElement428,
 																						expr: &seqExpr{
-																							pos: position{line: 1688, col: 9, offset: 54583},
+																							pos: position{line: 1692, col: 9, offset: 54773},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1688, col: 9, offset: 54583},
+																									pos: position{line: 1692, col: 9, offset: 54773},
 																									expr: &actionExpr{
-																										pos: position{line: 2860, col: 10, offset: 90451},
+																										pos: position{line: 2864, col: 10, offset: 90641},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2860, col: 10, offset: 90451},
+																											pos:        position{line: 2864, col: 10, offset: 90641},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27342,28 +27625,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2882, col: 8, offset: 90849},
+																									pos: position{line: 2886, col: 8, offset: 91039},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2869, col: 12, offset: 90622},
+																											pos: position{line: 2873, col: 12, offset: 90812},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2869, col: 13, offset: 90623},
+																												pos: position{line: 2873, col: 13, offset: 90813},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 13, offset: 90623},
+																														pos:        position{line: 2873, col: 13, offset: 90813},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 20, offset: 90630},
+																														pos:        position{line: 2873, col: 20, offset: 90820},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 29, offset: 90639},
+																														pos:        position{line: 2873, col: 29, offset: 90829},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27372,15 +27655,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2879, col: 8, offset: 90799},
+																											pos: position{line: 2883, col: 8, offset: 90989},
 																											expr: &anyMatcher{
-																												line: 2879, col: 9, offset: 90800,
+																												line: 2883, col: 9, offset: 90990,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1689, col: 9, offset: 54602},
+																									pos: position{line: 1693, col: 9, offset: 54792},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21489},
 																										run: (*parser).callonExtraListElement442,
@@ -27388,18 +27671,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21489},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2877, col: 11, offset: 90785},
+																													pos: position{line: 2881, col: 11, offset: 90975},
 																													expr: &anyMatcher{
-																														line: 2877, col: 13, offset: 90787,
+																														line: 2881, col: 13, offset: 90977,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21496},
 																													expr: &actionExpr{
-																														pos: position{line: 2860, col: 10, offset: 90451},
+																														pos: position{line: 2864, col: 10, offset: 90641},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2860, col: 10, offset: 90451},
+																															pos:        position{line: 2864, col: 10, offset: 90641},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27408,28 +27691,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2882, col: 8, offset: 90849},
+																													pos: position{line: 2886, col: 8, offset: 91039},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2869, col: 12, offset: 90622},
+																															pos: position{line: 2873, col: 12, offset: 90812},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2869, col: 13, offset: 90623},
+																																pos: position{line: 2873, col: 13, offset: 90813},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2869, col: 13, offset: 90623},
+																																		pos:        position{line: 2873, col: 13, offset: 90813},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2869, col: 20, offset: 90630},
+																																		pos:        position{line: 2873, col: 20, offset: 90820},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2869, col: 29, offset: 90639},
+																																		pos:        position{line: 2873, col: 29, offset: 90829},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27438,9 +27721,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2879, col: 8, offset: 90799},
+																															pos: position{line: 2883, col: 8, offset: 90989},
 																															expr: &anyMatcher{
-																																line: 2879, col: 9, offset: 90800,
+																																line: 2883, col: 9, offset: 90990,
 																															},
 																														},
 																													},
@@ -27453,18 +27736,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1695, col: 9, offset: 54731},
+																						pos: position{line: 1699, col: 9, offset: 54921},
 																						run: (*parser).callonExtraListElement457,
 																						expr: &seqExpr{
-																							pos: position{line: 1695, col: 9, offset: 54731},
+																							pos: position{line: 1699, col: 9, offset: 54921},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2864, col: 11, offset: 90512},
+																									pos: position{line: 2868, col: 11, offset: 90702},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2864, col: 11, offset: 90512},
+																										pos: position{line: 2868, col: 11, offset: 90702},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2864, col: 11, offset: 90512},
+																											pos:        position{line: 2868, col: 11, offset: 90702},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27473,15 +27756,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1696, col: 9, offset: 54804},
+																									pos:   position{line: 1700, col: 9, offset: 54994},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1696, col: 18, offset: 54813},
+																										pos: position{line: 1700, col: 18, offset: 55003},
 																										run: (*parser).callonExtraListElement463,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1696, col: 18, offset: 54813},
+																											pos: position{line: 1700, col: 18, offset: 55003},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1696, col: 18, offset: 54813},
+																												pos:        position{line: 1700, col: 18, offset: 55003},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27491,28 +27774,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2882, col: 8, offset: 90849},
+																									pos: position{line: 2886, col: 8, offset: 91039},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2869, col: 12, offset: 90622},
+																											pos: position{line: 2873, col: 12, offset: 90812},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2869, col: 13, offset: 90623},
+																												pos: position{line: 2873, col: 13, offset: 90813},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 13, offset: 90623},
+																														pos:        position{line: 2873, col: 13, offset: 90813},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 20, offset: 90630},
+																														pos:        position{line: 2873, col: 20, offset: 90820},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 29, offset: 90639},
+																														pos:        position{line: 2873, col: 29, offset: 90829},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27521,9 +27804,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2879, col: 8, offset: 90799},
+																											pos: position{line: 2883, col: 8, offset: 90989},
 																											expr: &anyMatcher{
-																												line: 2879, col: 9, offset: 90800,
+																												line: 2883, col: 9, offset: 90990,
 																											},
 																										},
 																									},
@@ -27544,40 +27827,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1505, col: 11, offset: 48729},
+										pos:  position{line: 1509, col: 11, offset: 48919},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 22, offset: 79436},
+										pos: position{line: 2474, col: 22, offset: 79626},
 										run: (*parser).callonExtraListElement475,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 22, offset: 79436},
+											pos: position{line: 2474, col: 22, offset: 79626},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2475, col: 31, offset: 79657},
+													pos:        position{line: 2479, col: 31, offset: 79847},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2475, col: 36, offset: 79662},
+													pos: position{line: 2479, col: 36, offset: 79852},
 													expr: &litMatcher{
-														pos:        position{line: 2475, col: 37, offset: 79663},
+														pos:        position{line: 2479, col: 37, offset: 79853},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2470, col: 49, offset: 79463},
+													pos:   position{line: 2474, col: 49, offset: 79653},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2806, col: 13, offset: 88977},
+														pos: position{line: 2810, col: 13, offset: 89167},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2806, col: 13, offset: 88977},
+															pos: position{line: 2810, col: 13, offset: 89167},
 															expr: &charClassMatcher{
-																pos:        position{line: 2806, col: 13, offset: 88977},
+																pos:        position{line: 2810, col: 13, offset: 89167},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -27587,28 +27870,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2882, col: 8, offset: 90849},
+													pos: position{line: 2886, col: 8, offset: 91039},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2869, col: 12, offset: 90622},
+															pos: position{line: 2873, col: 12, offset: 90812},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2869, col: 13, offset: 90623},
+																pos: position{line: 2873, col: 13, offset: 90813},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 13, offset: 90623},
+																		pos:        position{line: 2873, col: 13, offset: 90813},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 20, offset: 90630},
+																		pos:        position{line: 2873, col: 20, offset: 90820},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 29, offset: 90639},
+																		pos:        position{line: 2873, col: 29, offset: 90829},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -27617,9 +27900,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2879, col: 8, offset: 90799},
+															pos: position{line: 2883, col: 8, offset: 90989},
 															expr: &anyMatcher{
-																line: 2879, col: 9, offset: 90800,
+																line: 2883, col: 9, offset: 90990,
 															},
 														},
 													},
@@ -27628,13 +27911,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1513, col: 5, offset: 49007},
+										pos: position{line: 1517, col: 5, offset: 49197},
 										run: (*parser).callonExtraListElement492,
 										expr: &seqExpr{
-											pos: position{line: 1513, col: 5, offset: 49007},
+											pos: position{line: 1517, col: 5, offset: 49197},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1513, col: 5, offset: 49007},
+													pos: position{line: 1517, col: 5, offset: 49197},
 													expr: &actionExpr{
 														pos: position{line: 677, col: 14, offset: 21489},
 														run: (*parser).callonExtraListElement495,
@@ -27642,18 +27925,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21489},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2877, col: 11, offset: 90785},
+																	pos: position{line: 2881, col: 11, offset: 90975},
 																	expr: &anyMatcher{
-																		line: 2877, col: 13, offset: 90787,
+																		line: 2881, col: 13, offset: 90977,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21496},
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 10, offset: 90451},
+																		pos: position{line: 2864, col: 10, offset: 90641},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			pos:        position{line: 2864, col: 10, offset: 90641},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27662,28 +27945,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
+																			pos: position{line: 2873, col: 12, offset: 90812},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27692,9 +27975,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -27704,23 +27987,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1514, col: 5, offset: 49022},
+													pos: position{line: 1518, col: 5, offset: 49212},
 													expr: &seqExpr{
-														pos: position{line: 1544, col: 27, offset: 49848},
+														pos: position{line: 1548, col: 27, offset: 50038},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1544, col: 27, offset: 49848},
+																pos:        position{line: 1548, col: 27, offset: 50038},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1544, col: 31, offset: 49852},
+																pos: position{line: 1548, col: 31, offset: 50042},
 																expr: &actionExpr{
-																	pos: position{line: 2860, col: 10, offset: 90451},
+																	pos: position{line: 2864, col: 10, offset: 90641},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2860, col: 10, offset: 90451},
+																		pos:        position{line: 2864, col: 10, offset: 90641},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -27729,25 +28012,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2869, col: 12, offset: 90622},
+																pos: position{line: 2873, col: 12, offset: 90812},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2869, col: 13, offset: 90623},
+																	pos: position{line: 2873, col: 13, offset: 90813},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 13, offset: 90623},
+																			pos:        position{line: 2873, col: 13, offset: 90813},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 20, offset: 90630},
+																			pos:        position{line: 2873, col: 20, offset: 90820},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 29, offset: 90639},
+																			pos:        position{line: 2873, col: 29, offset: 90829},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -27759,20 +28042,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1515, col: 5, offset: 49050},
+													pos: position{line: 1519, col: 5, offset: 49240},
 													expr: &actionExpr{
-														pos: position{line: 1585, col: 5, offset: 51067},
+														pos: position{line: 1589, col: 5, offset: 51257},
 														run: (*parser).callonExtraListElement522,
 														expr: &seqExpr{
-															pos: position{line: 1585, col: 5, offset: 51067},
+															pos: position{line: 1589, col: 5, offset: 51257},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1585, col: 5, offset: 51067},
+																	pos: position{line: 1589, col: 5, offset: 51257},
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 10, offset: 90451},
+																		pos: position{line: 2864, col: 10, offset: 90641},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			pos:        position{line: 2864, col: 10, offset: 90641},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27781,27 +28064,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1585, col: 12, offset: 51074},
+																	pos:   position{line: 1589, col: 12, offset: 51264},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1587, col: 9, offset: 51137},
+																		pos: position{line: 1591, col: 9, offset: 51327},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1587, col: 9, offset: 51137},
+																				pos: position{line: 1591, col: 9, offset: 51327},
 																				run: (*parser).callonExtraListElement529,
 																				expr: &seqExpr{
-																					pos: position{line: 1587, col: 9, offset: 51137},
+																					pos: position{line: 1591, col: 9, offset: 51327},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1587, col: 9, offset: 51137},
+																							pos:   position{line: 1591, col: 9, offset: 51327},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1587, col: 16, offset: 51144},
+																								pos: position{line: 1591, col: 16, offset: 51334},
 																								run: (*parser).callonExtraListElement532,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1587, col: 16, offset: 51144},
+																									pos: position{line: 1591, col: 16, offset: 51334},
 																									expr: &litMatcher{
-																										pos:        position{line: 1587, col: 17, offset: 51145},
+																										pos:        position{line: 1591, col: 17, offset: 51335},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -27810,22 +28093,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1591, col: 9, offset: 51245},
+																							pos: position{line: 1595, col: 9, offset: 51435},
 																							run: (*parser).callonExtraListElement535,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 11, offset: 51962},
+																				pos: position{line: 1614, col: 11, offset: 52152},
 																				run: (*parser).callonExtraListElement536,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 11, offset: 51962},
+																					pos: position{line: 1614, col: 11, offset: 52152},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 11, offset: 51962},
+																							pos: position{line: 1614, col: 11, offset: 52152},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 12, offset: 51963},
+																								pos:        position{line: 1614, col: 12, offset: 52153},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -27833,7 +28116,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 20, offset: 51971},
+																							pos:        position{line: 1614, col: 20, offset: 52161},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27842,20 +28125,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 13, offset: 52088},
+																				pos: position{line: 1616, col: 13, offset: 52278},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 13, offset: 52088},
+																					pos: position{line: 1616, col: 13, offset: 52278},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1612, col: 14, offset: 52089},
+																							pos:        position{line: 1616, col: 14, offset: 52279},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 21, offset: 52096},
+																							pos:        position{line: 1616, col: 21, offset: 52286},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27864,20 +28147,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52216},
+																				pos: position{line: 1618, col: 13, offset: 52406},
 																				run: (*parser).callonExtraListElement545,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52216},
+																					pos: position{line: 1618, col: 13, offset: 52406},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1614, col: 14, offset: 52217},
+																							pos:        position{line: 1618, col: 14, offset: 52407},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 21, offset: 52224},
+																							pos:        position{line: 1618, col: 21, offset: 52414},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -27886,15 +28169,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52344},
+																				pos: position{line: 1620, col: 13, offset: 52534},
 																				run: (*parser).callonExtraListElement549,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52344},
+																					pos: position{line: 1620, col: 13, offset: 52534},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1616, col: 13, offset: 52344},
+																							pos: position{line: 1620, col: 13, offset: 52534},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1616, col: 14, offset: 52345},
+																								pos:        position{line: 1620, col: 14, offset: 52535},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -27902,7 +28185,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 26, offset: 52357},
+																							pos:        position{line: 1620, col: 26, offset: 52547},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -27911,15 +28194,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52477},
+																				pos: position{line: 1622, col: 13, offset: 52667},
 																				run: (*parser).callonExtraListElement554,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52477},
+																					pos: position{line: 1622, col: 13, offset: 52667},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1618, col: 13, offset: 52477},
+																							pos: position{line: 1622, col: 13, offset: 52667},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1618, col: 14, offset: 52478},
+																								pos:        position{line: 1622, col: 14, offset: 52668},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -27927,7 +28210,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 26, offset: 52490},
+																							pos:        position{line: 1622, col: 26, offset: 52680},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -27939,12 +28222,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2864, col: 11, offset: 90512},
+																	pos: position{line: 2868, col: 11, offset: 90702},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2864, col: 11, offset: 90512},
+																		pos: position{line: 2868, col: 11, offset: 90702},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 11, offset: 90512},
+																			pos:        position{line: 2868, col: 11, offset: 90702},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27957,20 +28240,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1516, col: 5, offset: 49080},
+													pos: position{line: 1520, col: 5, offset: 49270},
 													expr: &actionExpr{
-														pos: position{line: 1635, col: 5, offset: 53029},
+														pos: position{line: 1639, col: 5, offset: 53219},
 														run: (*parser).callonExtraListElement563,
 														expr: &seqExpr{
-															pos: position{line: 1635, col: 5, offset: 53029},
+															pos: position{line: 1639, col: 5, offset: 53219},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1635, col: 5, offset: 53029},
+																	pos: position{line: 1639, col: 5, offset: 53219},
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 10, offset: 90451},
+																		pos: position{line: 2864, col: 10, offset: 90641},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			pos:        position{line: 2864, col: 10, offset: 90641},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27979,24 +28262,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1636, col: 5, offset: 53041},
+																	pos:   position{line: 1640, col: 5, offset: 53231},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1637, col: 9, offset: 53057},
+																		pos: position{line: 1641, col: 9, offset: 53247},
 																		run: (*parser).callonExtraListElement569,
 																		expr: &choiceExpr{
-																			pos: position{line: 1637, col: 10, offset: 53058},
+																			pos: position{line: 1641, col: 10, offset: 53248},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1637, col: 11, offset: 53059},
+																					pos:        position{line: 1641, col: 11, offset: 53249},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1637, col: 18, offset: 53066},
+																					pos: position{line: 1641, col: 18, offset: 53256},
 																					expr: &litMatcher{
-																						pos:        position{line: 1637, col: 19, offset: 53067},
+																						pos:        position{line: 1641, col: 19, offset: 53257},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28007,16 +28290,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1640, col: 7, offset: 53157},
+																	pos: position{line: 1644, col: 7, offset: 53347},
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2864, col: 11, offset: 90512},
+																	pos: position{line: 2868, col: 11, offset: 90702},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2864, col: 11, offset: 90512},
+																		pos: position{line: 2868, col: 11, offset: 90702},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 11, offset: 90512},
+																			pos:        position{line: 2868, col: 11, offset: 90702},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28029,29 +28312,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1517, col: 5, offset: 49112},
+													pos: position{line: 1521, col: 5, offset: 49302},
 													expr: &actionExpr{
-														pos: position{line: 1724, col: 5, offset: 55566},
+														pos: position{line: 1728, col: 5, offset: 55756},
 														run: (*parser).callonExtraListElement579,
 														expr: &seqExpr{
-															pos: position{line: 1724, col: 5, offset: 55566},
+															pos: position{line: 1728, col: 5, offset: 55756},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1724, col: 5, offset: 55566},
+																	pos:        position{line: 1728, col: 5, offset: 55756},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1724, col: 9, offset: 55570},
+																	pos:   position{line: 1728, col: 9, offset: 55760},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1724, col: 14, offset: 55575},
+																		pos: position{line: 1728, col: 14, offset: 55765},
 																		run: (*parser).callonExtraListElement583,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1724, col: 14, offset: 55575},
+																			pos: position{line: 1728, col: 14, offset: 55765},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1724, col: 14, offset: 55575},
+																				pos:        position{line: 1728, col: 14, offset: 55765},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28061,18 +28344,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1724, col: 62, offset: 55623},
+																	pos:        position{line: 1728, col: 62, offset: 55813},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2864, col: 11, offset: 90512},
+																	pos: position{line: 2868, col: 11, offset: 90702},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2864, col: 11, offset: 90512},
+																		pos: position{line: 2868, col: 11, offset: 90702},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 11, offset: 90512},
+																			pos:        position{line: 2868, col: 11, offset: 90702},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28085,36 +28368,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1518, col: 5, offset: 49142},
+													pos: position{line: 1522, col: 5, offset: 49332},
 													expr: &seqExpr{
-														pos: position{line: 1518, col: 7, offset: 49144},
+														pos: position{line: 1522, col: 7, offset: 49334},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1670, col: 5, offset: 54048},
+																pos: position{line: 1674, col: 5, offset: 54238},
 																run: (*parser).callonExtraListElement592,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1670, col: 5, offset: 54048},
+																	pos: position{line: 1674, col: 5, offset: 54238},
 																	expr: &seqExpr{
-																		pos: position{line: 1670, col: 6, offset: 54049},
+																		pos: position{line: 1674, col: 6, offset: 54239},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1670, col: 6, offset: 54049},
+																				pos: position{line: 1674, col: 6, offset: 54239},
 																				expr: &actionExpr{
-																					pos: position{line: 1675, col: 5, offset: 54199},
+																					pos: position{line: 1679, col: 5, offset: 54389},
 																					run: (*parser).callonExtraListElement596,
 																					expr: &seqExpr{
-																						pos: position{line: 1675, col: 5, offset: 54199},
+																						pos: position{line: 1679, col: 5, offset: 54389},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1675, col: 5, offset: 54199},
+																								pos:   position{line: 1679, col: 5, offset: 54389},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1675, col: 16, offset: 54210},
+																									pos: position{line: 1679, col: 16, offset: 54400},
 																									run: (*parser).callonExtraListElement599,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1675, col: 16, offset: 54210},
+																										pos: position{line: 1679, col: 16, offset: 54400},
 																										expr: &litMatcher{
-																											pos:        position{line: 1675, col: 17, offset: 54211},
+																											pos:        position{line: 1679, col: 17, offset: 54401},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -28123,7 +28406,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1678, col: 5, offset: 54268},
+																								pos: position{line: 1682, col: 5, offset: 54458},
 																								run: (*parser).callonExtraListElement602,
 																							},
 																						},
@@ -28131,30 +28414,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1670, col: 35, offset: 54078},
+																				pos: position{line: 1674, col: 35, offset: 54268},
 																				expr: &choiceExpr{
-																					pos: position{line: 2882, col: 8, offset: 90849},
+																					pos: position{line: 2886, col: 8, offset: 91039},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2869, col: 12, offset: 90622},
+																							pos: position{line: 2873, col: 12, offset: 90812},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2869, col: 13, offset: 90623},
+																								pos: position{line: 2873, col: 13, offset: 90813},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2869, col: 13, offset: 90623},
+																										pos:        position{line: 2873, col: 13, offset: 90813},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2869, col: 20, offset: 90630},
+																										pos:        position{line: 2873, col: 20, offset: 90820},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2869, col: 29, offset: 90639},
+																										pos:        position{line: 2873, col: 29, offset: 90829},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -28163,37 +28446,37 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2879, col: 8, offset: 90799},
+																							pos: position{line: 2883, col: 8, offset: 90989},
 																							expr: &anyMatcher{
-																								line: 2879, col: 9, offset: 90800,
+																								line: 2883, col: 9, offset: 90990,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1670, col: 40, offset: 54083,
+																				line: 1674, col: 40, offset: 54273,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1675, col: 5, offset: 54199},
+																pos: position{line: 1679, col: 5, offset: 54389},
 																run: (*parser).callonExtraListElement613,
 																expr: &seqExpr{
-																	pos: position{line: 1675, col: 5, offset: 54199},
+																	pos: position{line: 1679, col: 5, offset: 54389},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1675, col: 5, offset: 54199},
+																			pos:   position{line: 1679, col: 5, offset: 54389},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1675, col: 16, offset: 54210},
+																				pos: position{line: 1679, col: 16, offset: 54400},
 																				run: (*parser).callonExtraListElement616,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1675, col: 16, offset: 54210},
+																					pos: position{line: 1679, col: 16, offset: 54400},
 																					expr: &litMatcher{
-																						pos:        position{line: 1675, col: 17, offset: 54211},
+																						pos:        position{line: 1679, col: 17, offset: 54401},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28202,7 +28485,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1678, col: 5, offset: 54268},
+																			pos: position{line: 1682, col: 5, offset: 54458},
 																			run: (*parser).callonExtraListElement619,
 																		},
 																	},
@@ -28212,7 +28495,7 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1519, col: 5, offset: 49200},
+													pos: position{line: 1523, col: 5, offset: 49390},
 													expr: &actionExpr{
 														pos: position{line: 724, col: 5, offset: 23042},
 														run: (*parser).callonExtraListElement621,
@@ -28222,7 +28505,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 724, col: 5, offset: 23042},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2750, col: 13, offset: 87546},
+																		pos:        position{line: 2754, col: 13, offset: 87736},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28272,10 +28555,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23686},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
+																								pos: position{line: 2864, col: 10, offset: 90641},
 																								run: (*parser).callonExtraListElement636,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28284,28 +28567,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonExtraListElement639,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28314,9 +28597,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -28361,10 +28644,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23934},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
+																								pos: position{line: 2864, col: 10, offset: 90641},
 																								run: (*parser).callonExtraListElement655,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28373,28 +28656,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonExtraListElement658,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28403,9 +28686,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -28446,10 +28729,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 760, col: 52, offset: 24346},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
+																								pos: position{line: 2864, col: 10, offset: 90641},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28458,28 +28741,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28488,9 +28771,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -28535,10 +28818,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24180},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
+																								pos: position{line: 2864, col: 10, offset: 90641},
 																								run: (*parser).callonExtraListElement692,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28547,28 +28830,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonExtraListElement695,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28577,9 +28860,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -28624,10 +28907,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24718},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
+																								pos: position{line: 2864, col: 10, offset: 90641},
 																								run: (*parser).callonExtraListElement711,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28636,28 +28919,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonExtraListElement714,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28666,9 +28949,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -28713,10 +28996,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25194},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
+																								pos: position{line: 2864, col: 10, offset: 90641},
 																								run: (*parser).callonExtraListElement730,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28725,28 +29008,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonExtraListElement733,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28755,9 +29038,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -28802,10 +29085,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25446},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
+																								pos: position{line: 2864, col: 10, offset: 90641},
 																								run: (*parser).callonExtraListElement749,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28814,28 +29097,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonExtraListElement752,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28844,9 +29127,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -28891,10 +29174,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25696},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
+																								pos: position{line: 2864, col: 10, offset: 90641},
 																								run: (*parser).callonExtraListElement768,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28903,28 +29186,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonExtraListElement771,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28933,9 +29216,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -28980,10 +29263,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25942},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
+																								pos: position{line: 2864, col: 10, offset: 90641},
 																								run: (*parser).callonExtraListElement787,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28992,28 +29275,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonExtraListElement790,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29022,9 +29305,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -29040,15 +29323,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1520, col: 5, offset: 49220},
+													pos:   position{line: 1524, col: 5, offset: 49410},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2810, col: 14, offset: 89044},
+														pos: position{line: 2814, col: 14, offset: 89234},
 														run: (*parser).callonExtraListElement798,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2810, col: 14, offset: 89044},
+															pos: position{line: 2814, col: 14, offset: 89234},
 															expr: &charClassMatcher{
-																pos:        position{line: 2810, col: 14, offset: 89044},
+																pos:        position{line: 2814, col: 14, offset: 89234},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29058,28 +29341,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2882, col: 8, offset: 90849},
+													pos: position{line: 2886, col: 8, offset: 91039},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2869, col: 12, offset: 90622},
+															pos: position{line: 2873, col: 12, offset: 90812},
 															run: (*parser).callonExtraListElement802,
 															expr: &choiceExpr{
-																pos: position{line: 2869, col: 13, offset: 90623},
+																pos: position{line: 2873, col: 13, offset: 90813},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 13, offset: 90623},
+																		pos:        position{line: 2873, col: 13, offset: 90813},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 20, offset: 90630},
+																		pos:        position{line: 2873, col: 20, offset: 90820},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 29, offset: 90639},
+																		pos:        position{line: 2873, col: 29, offset: 90829},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29088,9 +29371,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2879, col: 8, offset: 90799},
+															pos: position{line: 2883, col: 8, offset: 90989},
 															expr: &anyMatcher{
-																line: 2879, col: 9, offset: 90800,
+																line: 2883, col: 9, offset: 90990,
 															},
 														},
 													},
@@ -29107,28 +29390,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1536, col: 1, offset: 49611},
+			pos:  position{line: 1540, col: 1, offset: 49801},
 			expr: &actionExpr{
-				pos: position{line: 1537, col: 5, offset: 49636},
+				pos: position{line: 1541, col: 5, offset: 49826},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1537, col: 5, offset: 49636},
+					pos: position{line: 1541, col: 5, offset: 49826},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1537, col: 5, offset: 49636},
+							pos:   position{line: 1541, col: 5, offset: 49826},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1537, col: 12, offset: 49643},
+								pos: position{line: 1541, col: 12, offset: 49833},
 								expr: &seqExpr{
-									pos: position{line: 1537, col: 13, offset: 49644},
+									pos: position{line: 1541, col: 13, offset: 49834},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1537, col: 13, offset: 49644},
+											pos: position{line: 1541, col: 13, offset: 49834},
 											expr: &actionExpr{
-												pos: position{line: 2860, col: 10, offset: 90451},
+												pos: position{line: 2864, col: 10, offset: 90641},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2860, col: 10, offset: 90451},
+													pos:        position{line: 2864, col: 10, offset: 90641},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29137,25 +29420,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2869, col: 12, offset: 90622},
+											pos: position{line: 2873, col: 12, offset: 90812},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2869, col: 13, offset: 90623},
+												pos: position{line: 2873, col: 13, offset: 90813},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2869, col: 13, offset: 90623},
+														pos:        position{line: 2873, col: 13, offset: 90813},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2869, col: 20, offset: 90630},
+														pos:        position{line: 2873, col: 20, offset: 90820},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2869, col: 29, offset: 90639},
+														pos:        position{line: 2873, col: 29, offset: 90829},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29168,18 +29451,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1544, col: 27, offset: 49848},
+							pos:        position{line: 1548, col: 27, offset: 50038},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1544, col: 31, offset: 49852},
+							pos: position{line: 1548, col: 31, offset: 50042},
 							expr: &actionExpr{
-								pos: position{line: 2860, col: 10, offset: 90451},
+								pos: position{line: 2864, col: 10, offset: 90641},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2860, col: 10, offset: 90451},
+									pos:        position{line: 2864, col: 10, offset: 90641},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29188,25 +29471,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2869, col: 12, offset: 90622},
+							pos: position{line: 2873, col: 12, offset: 90812},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2869, col: 13, offset: 90623},
+								pos: position{line: 2873, col: 13, offset: 90813},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2869, col: 13, offset: 90623},
+										pos:        position{line: 2873, col: 13, offset: 90813},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2869, col: 20, offset: 90630},
+										pos:        position{line: 2873, col: 20, offset: 90820},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2869, col: 29, offset: 90639},
+										pos:        position{line: 2873, col: 29, offset: 90829},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29215,12 +29498,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1539, col: 5, offset: 49693},
+							pos:   position{line: 1543, col: 5, offset: 49883},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1539, col: 13, offset: 49701},
+								pos: position{line: 1543, col: 13, offset: 49891},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1539, col: 13, offset: 49701},
+									pos:  position{line: 1543, col: 13, offset: 49891},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29231,46 +29514,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1546, col: 1, offset: 49868},
+			pos:  position{line: 1550, col: 1, offset: 50058},
 			expr: &actionExpr{
-				pos: position{line: 1547, col: 5, offset: 49939},
+				pos: position{line: 1551, col: 5, offset: 50129},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1547, col: 5, offset: 49939},
+					pos: position{line: 1551, col: 5, offset: 50129},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2877, col: 11, offset: 90785},
+							pos: position{line: 2881, col: 11, offset: 90975},
 							expr: &anyMatcher{
-								line: 2877, col: 13, offset: 90787,
+								line: 2881, col: 13, offset: 90977,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1548, col: 5, offset: 49967},
+							pos: position{line: 1552, col: 5, offset: 50157},
 							expr: &choiceExpr{
-								pos: position{line: 1485, col: 5, offset: 47925},
+								pos: position{line: 1489, col: 5, offset: 48115},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1578, col: 5, offset: 50859},
+										pos: position{line: 1582, col: 5, offset: 51049},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1578, col: 5, offset: 50859},
+											pos: position{line: 1582, col: 5, offset: 51049},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1578, col: 5, offset: 50859},
+													pos:   position{line: 1582, col: 5, offset: 51049},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1585, col: 5, offset: 51067},
+														pos: position{line: 1589, col: 5, offset: 51257},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1585, col: 5, offset: 51067},
+															pos: position{line: 1589, col: 5, offset: 51257},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1585, col: 5, offset: 51067},
+																	pos: position{line: 1589, col: 5, offset: 51257},
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 10, offset: 90451},
+																		pos: position{line: 2864, col: 10, offset: 90641},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			pos:        position{line: 2864, col: 10, offset: 90641},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29279,27 +29562,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1585, col: 12, offset: 51074},
+																	pos:   position{line: 1589, col: 12, offset: 51264},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1587, col: 9, offset: 51137},
+																		pos: position{line: 1591, col: 9, offset: 51327},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1587, col: 9, offset: 51137},
+																				pos: position{line: 1591, col: 9, offset: 51327},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1587, col: 9, offset: 51137},
+																					pos: position{line: 1591, col: 9, offset: 51327},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1587, col: 9, offset: 51137},
+																							pos:   position{line: 1591, col: 9, offset: 51327},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1587, col: 16, offset: 51144},
+																								pos: position{line: 1591, col: 16, offset: 51334},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1587, col: 16, offset: 51144},
+																									pos: position{line: 1591, col: 16, offset: 51334},
 																									expr: &litMatcher{
-																										pos:        position{line: 1587, col: 17, offset: 51145},
+																										pos:        position{line: 1591, col: 17, offset: 51335},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29308,22 +29591,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1591, col: 9, offset: 51245},
+																							pos: position{line: 1595, col: 9, offset: 51435},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1610, col: 11, offset: 51962},
+																				pos: position{line: 1614, col: 11, offset: 52152},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1610, col: 11, offset: 51962},
+																					pos: position{line: 1614, col: 11, offset: 52152},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1610, col: 11, offset: 51962},
+																							pos: position{line: 1614, col: 11, offset: 52152},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1610, col: 12, offset: 51963},
+																								pos:        position{line: 1614, col: 12, offset: 52153},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29331,7 +29614,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1610, col: 20, offset: 51971},
+																							pos:        position{line: 1614, col: 20, offset: 52161},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29340,20 +29623,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1612, col: 13, offset: 52088},
+																				pos: position{line: 1616, col: 13, offset: 52278},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1612, col: 13, offset: 52088},
+																					pos: position{line: 1616, col: 13, offset: 52278},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1612, col: 14, offset: 52089},
+																							pos:        position{line: 1616, col: 14, offset: 52279},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1612, col: 21, offset: 52096},
+																							pos:        position{line: 1616, col: 21, offset: 52286},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29362,20 +29645,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 13, offset: 52216},
+																				pos: position{line: 1618, col: 13, offset: 52406},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 13, offset: 52216},
+																					pos: position{line: 1618, col: 13, offset: 52406},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1614, col: 14, offset: 52217},
+																							pos:        position{line: 1618, col: 14, offset: 52407},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 21, offset: 52224},
+																							pos:        position{line: 1618, col: 21, offset: 52414},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29384,15 +29667,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52344},
+																				pos: position{line: 1620, col: 13, offset: 52534},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52344},
+																					pos: position{line: 1620, col: 13, offset: 52534},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1616, col: 13, offset: 52344},
+																							pos: position{line: 1620, col: 13, offset: 52534},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1616, col: 14, offset: 52345},
+																								pos:        position{line: 1620, col: 14, offset: 52535},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29400,7 +29683,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 26, offset: 52357},
+																							pos:        position{line: 1620, col: 26, offset: 52547},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29409,15 +29692,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52477},
+																				pos: position{line: 1622, col: 13, offset: 52667},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52477},
+																					pos: position{line: 1622, col: 13, offset: 52667},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1618, col: 13, offset: 52477},
+																							pos: position{line: 1622, col: 13, offset: 52667},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1618, col: 14, offset: 52478},
+																								pos:        position{line: 1622, col: 14, offset: 52668},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29425,7 +29708,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 26, offset: 52490},
+																							pos:        position{line: 1622, col: 26, offset: 52680},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29437,12 +29720,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2864, col: 11, offset: 90512},
+																	pos: position{line: 2868, col: 11, offset: 90702},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2864, col: 11, offset: 90512},
+																		pos: position{line: 2868, col: 11, offset: 90702},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 11, offset: 90512},
+																			pos:        position{line: 2868, col: 11, offset: 90702},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29455,26 +29738,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1579, col: 5, offset: 50898},
+													pos:   position{line: 1583, col: 5, offset: 51088},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1526, col: 5, offset: 49365},
+														pos: position{line: 1530, col: 5, offset: 49555},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1526, col: 5, offset: 49365},
+															pos: position{line: 1530, col: 5, offset: 49555},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49365},
+																	pos:   position{line: 1530, col: 5, offset: 49555},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1526, col: 14, offset: 49374},
+																		pos: position{line: 1530, col: 14, offset: 49564},
 																		expr: &actionExpr{
-																			pos: position{line: 1526, col: 15, offset: 49375},
+																			pos: position{line: 1530, col: 15, offset: 49565},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1526, col: 15, offset: 49375},
+																				pos: position{line: 1530, col: 15, offset: 49565},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1526, col: 15, offset: 49375},
+																					pos:        position{line: 1530, col: 15, offset: 49565},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29485,28 +29768,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
+																			pos: position{line: 2873, col: 12, offset: 90812},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29515,9 +29798,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -29530,27 +29813,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1628, col: 5, offset: 52756},
+										pos: position{line: 1632, col: 5, offset: 52946},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1628, col: 5, offset: 52756},
+											pos: position{line: 1632, col: 5, offset: 52946},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1628, col: 5, offset: 52756},
+													pos:   position{line: 1632, col: 5, offset: 52946},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1635, col: 5, offset: 53029},
+														pos: position{line: 1639, col: 5, offset: 53219},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1635, col: 5, offset: 53029},
+															pos: position{line: 1639, col: 5, offset: 53219},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1635, col: 5, offset: 53029},
+																	pos: position{line: 1639, col: 5, offset: 53219},
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 10, offset: 90451},
+																		pos: position{line: 2864, col: 10, offset: 90641},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			pos:        position{line: 2864, col: 10, offset: 90641},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29559,24 +29842,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1636, col: 5, offset: 53041},
+																	pos:   position{line: 1640, col: 5, offset: 53231},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1637, col: 9, offset: 53057},
+																		pos: position{line: 1641, col: 9, offset: 53247},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1637, col: 10, offset: 53058},
+																			pos: position{line: 1641, col: 10, offset: 53248},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1637, col: 11, offset: 53059},
+																					pos:        position{line: 1641, col: 11, offset: 53249},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1637, col: 18, offset: 53066},
+																					pos: position{line: 1641, col: 18, offset: 53256},
 																					expr: &litMatcher{
-																						pos:        position{line: 1637, col: 19, offset: 53067},
+																						pos:        position{line: 1641, col: 19, offset: 53257},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -29587,16 +29870,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1640, col: 7, offset: 53157},
+																	pos: position{line: 1644, col: 7, offset: 53347},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2864, col: 11, offset: 90512},
+																	pos: position{line: 2868, col: 11, offset: 90702},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2864, col: 11, offset: 90512},
+																		pos: position{line: 2868, col: 11, offset: 90702},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 11, offset: 90512},
+																			pos:        position{line: 2868, col: 11, offset: 90702},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29609,56 +29892,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1629, col: 5, offset: 52797},
+													pos:   position{line: 1633, col: 5, offset: 52987},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1629, col: 16, offset: 52808},
+														pos: position{line: 1633, col: 16, offset: 52998},
 														expr: &actionExpr{
-															pos: position{line: 1650, col: 5, offset: 53422},
+															pos: position{line: 1654, col: 5, offset: 53612},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1650, col: 5, offset: 53422},
+																pos: position{line: 1654, col: 5, offset: 53612},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1650, col: 5, offset: 53422},
+																		pos: position{line: 1654, col: 5, offset: 53612},
 																		expr: &litMatcher{
-																			pos:        position{line: 1650, col: 6, offset: 53423},
+																			pos:        position{line: 1654, col: 6, offset: 53613},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1650, col: 10, offset: 53427},
+																		pos:   position{line: 1654, col: 10, offset: 53617},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1651, col: 7, offset: 53441},
+																			pos: position{line: 1655, col: 7, offset: 53631},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1651, col: 7, offset: 53441},
+																					pos: position{line: 1655, col: 7, offset: 53631},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1651, col: 7, offset: 53441},
+																						pos:        position{line: 1655, col: 7, offset: 53631},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1652, col: 7, offset: 53486},
+																					pos: position{line: 1656, col: 7, offset: 53676},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1652, col: 7, offset: 53486},
+																						pos:        position{line: 1656, col: 7, offset: 53676},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1653, col: 7, offset: 53529},
+																					pos: position{line: 1657, col: 7, offset: 53719},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1653, col: 7, offset: 53529},
+																						pos:        position{line: 1657, col: 7, offset: 53719},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -29668,12 +29951,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2864, col: 11, offset: 90512},
+																		pos: position{line: 2868, col: 11, offset: 90702},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2864, col: 11, offset: 90512},
+																			pos: position{line: 2868, col: 11, offset: 90702},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 11, offset: 90512},
+																				pos:        position{line: 2868, col: 11, offset: 90702},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -29687,26 +29970,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1630, col: 5, offset: 52847},
+													pos:   position{line: 1634, col: 5, offset: 53037},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1526, col: 5, offset: 49365},
+														pos: position{line: 1530, col: 5, offset: 49555},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1526, col: 5, offset: 49365},
+															pos: position{line: 1530, col: 5, offset: 49555},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49365},
+																	pos:   position{line: 1530, col: 5, offset: 49555},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1526, col: 14, offset: 49374},
+																		pos: position{line: 1530, col: 14, offset: 49564},
 																		expr: &actionExpr{
-																			pos: position{line: 1526, col: 15, offset: 49375},
+																			pos: position{line: 1530, col: 15, offset: 49565},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1526, col: 15, offset: 49375},
+																				pos: position{line: 1530, col: 15, offset: 49565},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1526, col: 15, offset: 49375},
+																					pos:        position{line: 1530, col: 15, offset: 49565},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29717,28 +30000,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
+																			pos: position{line: 2873, col: 12, offset: 90812},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29747,9 +30030,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -29762,36 +30045,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1718, col: 5, offset: 55369},
+										pos: position{line: 1722, col: 5, offset: 55559},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1718, col: 5, offset: 55369},
+											pos: position{line: 1722, col: 5, offset: 55559},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1718, col: 5, offset: 55369},
+													pos:   position{line: 1722, col: 5, offset: 55559},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1724, col: 5, offset: 55566},
+														pos: position{line: 1728, col: 5, offset: 55756},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1724, col: 5, offset: 55566},
+															pos: position{line: 1728, col: 5, offset: 55756},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1724, col: 5, offset: 55566},
+																	pos:        position{line: 1728, col: 5, offset: 55756},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1724, col: 9, offset: 55570},
+																	pos:   position{line: 1728, col: 9, offset: 55760},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1724, col: 14, offset: 55575},
+																		pos: position{line: 1728, col: 14, offset: 55765},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1724, col: 14, offset: 55575},
+																			pos: position{line: 1728, col: 14, offset: 55765},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1724, col: 14, offset: 55575},
+																				pos:        position{line: 1728, col: 14, offset: 55765},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -29801,18 +30084,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1724, col: 62, offset: 55623},
+																	pos:        position{line: 1728, col: 62, offset: 55813},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2864, col: 11, offset: 90512},
+																	pos: position{line: 2868, col: 11, offset: 90702},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2864, col: 11, offset: 90512},
+																		pos: position{line: 2868, col: 11, offset: 90702},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 11, offset: 90512},
+																			pos:        position{line: 2868, col: 11, offset: 90702},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29825,26 +30108,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1719, col: 5, offset: 55405},
+													pos:   position{line: 1723, col: 5, offset: 55595},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1526, col: 5, offset: 49365},
+														pos: position{line: 1530, col: 5, offset: 49555},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1526, col: 5, offset: 49365},
+															pos: position{line: 1530, col: 5, offset: 49555},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1526, col: 5, offset: 49365},
+																	pos:   position{line: 1530, col: 5, offset: 49555},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1526, col: 14, offset: 49374},
+																		pos: position{line: 1530, col: 14, offset: 49564},
 																		expr: &actionExpr{
-																			pos: position{line: 1526, col: 15, offset: 49375},
+																			pos: position{line: 1530, col: 15, offset: 49565},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1526, col: 15, offset: 49375},
+																				pos: position{line: 1530, col: 15, offset: 49565},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1526, col: 15, offset: 49375},
+																					pos:        position{line: 1530, col: 15, offset: 49565},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -29855,28 +30138,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
+																			pos: position{line: 2873, col: 12, offset: 90812},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29885,9 +30168,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -29900,40 +30183,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1662, col: 5, offset: 53722},
+										pos: position{line: 1666, col: 5, offset: 53912},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1662, col: 5, offset: 53722},
+											pos: position{line: 1666, col: 5, offset: 53912},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1662, col: 5, offset: 53722},
+													pos:   position{line: 1666, col: 5, offset: 53912},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1670, col: 5, offset: 54048},
+														pos: position{line: 1674, col: 5, offset: 54238},
 														run: (*parser).callonListContinuationElement150,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1670, col: 5, offset: 54048},
+															pos: position{line: 1674, col: 5, offset: 54238},
 															expr: &seqExpr{
-																pos: position{line: 1670, col: 6, offset: 54049},
+																pos: position{line: 1674, col: 6, offset: 54239},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1670, col: 6, offset: 54049},
+																		pos: position{line: 1674, col: 6, offset: 54239},
 																		expr: &actionExpr{
-																			pos: position{line: 1675, col: 5, offset: 54199},
+																			pos: position{line: 1679, col: 5, offset: 54389},
 																			run: (*parser).callonListContinuationElement154,
 																			expr: &seqExpr{
-																				pos: position{line: 1675, col: 5, offset: 54199},
+																				pos: position{line: 1679, col: 5, offset: 54389},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 1675, col: 5, offset: 54199},
+																						pos:   position{line: 1679, col: 5, offset: 54389},
 																						label: "separator",
 																						expr: &actionExpr{
-																							pos: position{line: 1675, col: 16, offset: 54210},
+																							pos: position{line: 1679, col: 16, offset: 54400},
 																							run: (*parser).callonListContinuationElement157,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1675, col: 16, offset: 54210},
+																								pos: position{line: 1679, col: 16, offset: 54400},
 																								expr: &litMatcher{
-																									pos:        position{line: 1675, col: 17, offset: 54211},
+																									pos:        position{line: 1679, col: 17, offset: 54401},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
@@ -29942,7 +30225,7 @@ var g = &grammar{
 																						},
 																					},
 																					&andCodeExpr{
-																						pos: position{line: 1678, col: 5, offset: 54268},
+																						pos: position{line: 1682, col: 5, offset: 54458},
 																						run: (*parser).callonListContinuationElement160,
 																					},
 																				},
@@ -29950,30 +30233,30 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 1670, col: 35, offset: 54078},
+																		pos: position{line: 1674, col: 35, offset: 54268},
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 8, offset: 90849},
+																			pos: position{line: 2886, col: 8, offset: 91039},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2869, col: 12, offset: 90622},
+																					pos: position{line: 2873, col: 12, offset: 90812},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2869, col: 13, offset: 90623},
+																						pos: position{line: 2873, col: 13, offset: 90813},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 13, offset: 90623},
+																								pos:        position{line: 2873, col: 13, offset: 90813},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 20, offset: 90630},
+																								pos:        position{line: 2873, col: 20, offset: 90820},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 29, offset: 90639},
+																								pos:        position{line: 2873, col: 29, offset: 90829},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -29982,16 +30265,16 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&anyMatcher{
-																		line: 1670, col: 40, offset: 54083,
+																		line: 1674, col: 40, offset: 54273,
 																	},
 																},
 															},
@@ -29999,24 +30282,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1663, col: 5, offset: 53757},
+													pos:   position{line: 1667, col: 5, offset: 53947},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1675, col: 5, offset: 54199},
+														pos: position{line: 1679, col: 5, offset: 54389},
 														run: (*parser).callonListContinuationElement172,
 														expr: &seqExpr{
-															pos: position{line: 1675, col: 5, offset: 54199},
+															pos: position{line: 1679, col: 5, offset: 54389},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1675, col: 5, offset: 54199},
+																	pos:   position{line: 1679, col: 5, offset: 54389},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1675, col: 16, offset: 54210},
+																		pos: position{line: 1679, col: 16, offset: 54400},
 																		run: (*parser).callonListContinuationElement175,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1675, col: 16, offset: 54210},
+																			pos: position{line: 1679, col: 16, offset: 54400},
 																			expr: &litMatcher{
-																				pos:        position{line: 1675, col: 17, offset: 54211},
+																				pos:        position{line: 1679, col: 17, offset: 54401},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30025,7 +30308,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1678, col: 5, offset: 54268},
+																	pos: position{line: 1682, col: 5, offset: 54458},
 																	run: (*parser).callonListContinuationElement178,
 																},
 															},
@@ -30033,24 +30316,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1664, col: 5, offset: 53802},
+													pos:   position{line: 1668, col: 5, offset: 53992},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1686, col: 5, offset: 54517},
+														pos: position{line: 1690, col: 5, offset: 54707},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1688, col: 9, offset: 54583},
+																pos: position{line: 1692, col: 9, offset: 54773},
 																run: (*parser).callonListContinuationElement181,
 																expr: &seqExpr{
-																	pos: position{line: 1688, col: 9, offset: 54583},
+																	pos: position{line: 1692, col: 9, offset: 54773},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1688, col: 9, offset: 54583},
+																			pos: position{line: 1692, col: 9, offset: 54773},
 																			expr: &actionExpr{
-																				pos: position{line: 2860, col: 10, offset: 90451},
+																				pos: position{line: 2864, col: 10, offset: 90641},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2860, col: 10, offset: 90451},
+																					pos:        position{line: 2864, col: 10, offset: 90641},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30059,28 +30342,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2882, col: 8, offset: 90849},
+																			pos: position{line: 2886, col: 8, offset: 91039},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2869, col: 12, offset: 90622},
+																					pos: position{line: 2873, col: 12, offset: 90812},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2869, col: 13, offset: 90623},
+																						pos: position{line: 2873, col: 13, offset: 90813},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 13, offset: 90623},
+																								pos:        position{line: 2873, col: 13, offset: 90813},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 20, offset: 90630},
+																								pos:        position{line: 2873, col: 20, offset: 90820},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 29, offset: 90639},
+																								pos:        position{line: 2873, col: 29, offset: 90829},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30089,15 +30372,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1689, col: 9, offset: 54602},
+																			pos: position{line: 1693, col: 9, offset: 54792},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21489},
 																				run: (*parser).callonListContinuationElement195,
@@ -30105,18 +30388,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21489},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2877, col: 11, offset: 90785},
+																							pos: position{line: 2881, col: 11, offset: 90975},
 																							expr: &anyMatcher{
-																								line: 2877, col: 13, offset: 90787,
+																								line: 2881, col: 13, offset: 90977,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21496},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
+																								pos: position{line: 2864, col: 10, offset: 90641},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30125,28 +30408,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30155,9 +30438,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -30170,18 +30453,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1695, col: 9, offset: 54731},
+																pos: position{line: 1699, col: 9, offset: 54921},
 																run: (*parser).callonListContinuationElement210,
 																expr: &seqExpr{
-																	pos: position{line: 1695, col: 9, offset: 54731},
+																	pos: position{line: 1699, col: 9, offset: 54921},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2864, col: 11, offset: 90512},
+																			pos: position{line: 2868, col: 11, offset: 90702},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2864, col: 11, offset: 90512},
+																				pos: position{line: 2868, col: 11, offset: 90702},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 11, offset: 90512},
+																					pos:        position{line: 2868, col: 11, offset: 90702},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30190,15 +30473,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1696, col: 9, offset: 54804},
+																			pos:   position{line: 1700, col: 9, offset: 54994},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1696, col: 18, offset: 54813},
+																				pos: position{line: 1700, col: 18, offset: 55003},
 																				run: (*parser).callonListContinuationElement216,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1696, col: 18, offset: 54813},
+																					pos: position{line: 1700, col: 18, offset: 55003},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1696, col: 18, offset: 54813},
+																						pos:        position{line: 1700, col: 18, offset: 55003},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30208,28 +30491,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2882, col: 8, offset: 90849},
+																			pos: position{line: 2886, col: 8, offset: 91039},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2869, col: 12, offset: 90622},
+																					pos: position{line: 2873, col: 12, offset: 90812},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2869, col: 13, offset: 90623},
+																						pos: position{line: 2873, col: 13, offset: 90813},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 13, offset: 90623},
+																								pos:        position{line: 2873, col: 13, offset: 90813},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 20, offset: 90630},
+																								pos:        position{line: 2873, col: 20, offset: 90820},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 29, offset: 90639},
+																								pos:        position{line: 2873, col: 29, offset: 90829},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30238,9 +30521,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
@@ -30258,21 +30541,21 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1549, col: 5, offset: 49984},
+							pos:   position{line: 1553, col: 5, offset: 50174},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1549, col: 16, offset: 49995},
+								pos: position{line: 1553, col: 16, offset: 50185},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1549, col: 17, offset: 49996},
+									pos:  position{line: 1553, col: 17, offset: 50186},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1550, col: 5, offset: 50018},
+							pos:   position{line: 1554, col: 5, offset: 50208},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1551, col: 9, offset: 50036},
+								pos: position{line: 1555, col: 9, offset: 50226},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 677, col: 14, offset: 21489},
@@ -30281,18 +30564,18 @@ var g = &grammar{
 											pos: position{line: 677, col: 14, offset: 21489},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2877, col: 11, offset: 90785},
+													pos: position{line: 2881, col: 11, offset: 90975},
 													expr: &anyMatcher{
-														line: 2877, col: 13, offset: 90787,
+														line: 2881, col: 13, offset: 90977,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 677, col: 21, offset: 21496},
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 10, offset: 90451},
+														pos: position{line: 2864, col: 10, offset: 90641},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2860, col: 10, offset: 90451},
+															pos:        position{line: 2864, col: 10, offset: 90641},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30301,28 +30584,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2882, col: 8, offset: 90849},
+													pos: position{line: 2886, col: 8, offset: 91039},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2869, col: 12, offset: 90622},
+															pos: position{line: 2873, col: 12, offset: 90812},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2869, col: 13, offset: 90623},
+																pos: position{line: 2873, col: 13, offset: 90813},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 13, offset: 90623},
+																		pos:        position{line: 2873, col: 13, offset: 90813},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 20, offset: 90630},
+																		pos:        position{line: 2873, col: 20, offset: 90820},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 29, offset: 90639},
+																		pos:        position{line: 2873, col: 29, offset: 90829},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30331,9 +30614,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2879, col: 8, offset: 90799},
+															pos: position{line: 2883, col: 8, offset: 90989},
 															expr: &anyMatcher{
-																line: 2879, col: 9, offset: 90800,
+																line: 2883, col: 9, offset: 90990,
 															},
 														},
 													},
@@ -30342,7 +30625,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1552, col: 11, offset: 50056},
+										pos:  position{line: 1556, col: 11, offset: 50246},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -30398,10 +30681,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 10, offset: 90451},
+														pos: position{line: 2864, col: 10, offset: 90641},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2860, col: 10, offset: 90451},
+															pos:        position{line: 2864, col: 10, offset: 90641},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30410,28 +30693,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2882, col: 8, offset: 90849},
+													pos: position{line: 2886, col: 8, offset: 91039},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2869, col: 12, offset: 90622},
+															pos: position{line: 2873, col: 12, offset: 90812},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2869, col: 13, offset: 90623},
+																pos: position{line: 2873, col: 13, offset: 90813},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 13, offset: 90623},
+																		pos:        position{line: 2873, col: 13, offset: 90813},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 20, offset: 90630},
+																		pos:        position{line: 2873, col: 20, offset: 90820},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 29, offset: 90639},
+																		pos:        position{line: 2873, col: 29, offset: 90829},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30440,9 +30723,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2879, col: 8, offset: 90799},
+															pos: position{line: 2883, col: 8, offset: 90989},
 															expr: &anyMatcher{
-																line: 2879, col: 9, offset: 90800,
+																line: 2883, col: 9, offset: 90990,
 															},
 														},
 													},
@@ -30503,10 +30786,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 10, offset: 90451},
+														pos: position{line: 2864, col: 10, offset: 90641},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2860, col: 10, offset: 90451},
+															pos:        position{line: 2864, col: 10, offset: 90641},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30515,28 +30798,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2882, col: 8, offset: 90849},
+													pos: position{line: 2886, col: 8, offset: 91039},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2869, col: 12, offset: 90622},
+															pos: position{line: 2873, col: 12, offset: 90812},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2869, col: 13, offset: 90623},
+																pos: position{line: 2873, col: 13, offset: 90813},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 13, offset: 90623},
+																		pos:        position{line: 2873, col: 13, offset: 90813},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 20, offset: 90630},
+																		pos:        position{line: 2873, col: 20, offset: 90820},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 29, offset: 90639},
+																		pos:        position{line: 2873, col: 29, offset: 90829},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30545,9 +30828,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2879, col: 8, offset: 90799},
+															pos: position{line: 2883, col: 8, offset: 90989},
 															expr: &anyMatcher{
-																line: 2879, col: 9, offset: 90800,
+																line: 2883, col: 9, offset: 90990,
 															},
 														},
 													},
@@ -30601,10 +30884,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23686},
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 10, offset: 90451},
+																		pos: position{line: 2864, col: 10, offset: 90641},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			pos:        position{line: 2864, col: 10, offset: 90641},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30613,28 +30896,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
+																			pos: position{line: 2873, col: 12, offset: 90812},
 																			run: (*parser).callonListContinuationElement305,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30643,9 +30926,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -30717,10 +31000,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23686},
 																											expr: &actionExpr{
-																												pos: position{line: 2860, col: 10, offset: 90451},
+																												pos: position{line: 2864, col: 10, offset: 90641},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2860, col: 10, offset: 90451},
+																													pos:        position{line: 2864, col: 10, offset: 90641},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -30729,28 +31012,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2882, col: 8, offset: 90849},
+																											pos: position{line: 2886, col: 8, offset: 91039},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2869, col: 12, offset: 90622},
+																													pos: position{line: 2873, col: 12, offset: 90812},
 																													run: (*parser).callonListContinuationElement333,
 																													expr: &choiceExpr{
-																														pos: position{line: 2869, col: 13, offset: 90623},
+																														pos: position{line: 2873, col: 13, offset: 90813},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																pos:        position{line: 2873, col: 13, offset: 90813},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																pos:        position{line: 2873, col: 20, offset: 90820},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																pos:        position{line: 2873, col: 29, offset: 90829},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -30759,9 +31042,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2879, col: 8, offset: 90799},
+																													pos: position{line: 2883, col: 8, offset: 90989},
 																													expr: &anyMatcher{
-																														line: 2879, col: 9, offset: 90800,
+																														line: 2883, col: 9, offset: 90990,
 																													},
 																												},
 																											},
@@ -30777,9 +31060,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
@@ -30795,21 +31078,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2877, col: 11, offset: 90785},
+																						pos: position{line: 2881, col: 11, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2877, col: 13, offset: 90787,
+																							line: 2881, col: 13, offset: 90977,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2806, col: 13, offset: 88977},
+																							pos: position{line: 2810, col: 13, offset: 89167},
 																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2806, col: 13, offset: 88977},
+																								pos: position{line: 2810, col: 13, offset: 89167},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2806, col: 13, offset: 88977},
+																									pos:        position{line: 2810, col: 13, offset: 89167},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -30819,28 +31102,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2882, col: 8, offset: 90849},
+																						pos: position{line: 2886, col: 8, offset: 91039},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2869, col: 12, offset: 90622},
+																								pos: position{line: 2873, col: 12, offset: 90812},
 																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2869, col: 13, offset: 90623},
+																									pos: position{line: 2873, col: 13, offset: 90813},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90623},
+																											pos:        position{line: 2873, col: 13, offset: 90813},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 20, offset: 90630},
+																											pos:        position{line: 2873, col: 20, offset: 90820},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 29, offset: 90639},
+																											pos:        position{line: 2873, col: 29, offset: 90829},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -30849,9 +31132,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
+																								pos: position{line: 2883, col: 8, offset: 90989},
 																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																									line: 2883, col: 9, offset: 90990,
 																								},
 																							},
 																						},
@@ -30916,10 +31199,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23686},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
+																								pos: position{line: 2864, col: 10, offset: 90641},
 																								run: (*parser).callonListContinuationElement374,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30928,28 +31211,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonListContinuationElement377,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30958,9 +31241,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -30976,9 +31259,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2879, col: 8, offset: 90799},
+																	pos: position{line: 2883, col: 8, offset: 90989},
 																	expr: &anyMatcher{
-																		line: 2879, col: 9, offset: 90800,
+																		line: 2883, col: 9, offset: 90990,
 																	},
 																},
 															},
@@ -31034,10 +31317,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 749, col: 8, offset: 23934},
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 10, offset: 90451},
+																		pos: position{line: 2864, col: 10, offset: 90641},
 																		run: (*parser).callonListContinuationElement399,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			pos:        position{line: 2864, col: 10, offset: 90641},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31046,28 +31329,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
+																			pos: position{line: 2873, col: 12, offset: 90812},
 																			run: (*parser).callonListContinuationElement402,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31076,9 +31359,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -31150,10 +31433,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23934},
 																											expr: &actionExpr{
-																												pos: position{line: 2860, col: 10, offset: 90451},
+																												pos: position{line: 2864, col: 10, offset: 90641},
 																												run: (*parser).callonListContinuationElement427,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2860, col: 10, offset: 90451},
+																													pos:        position{line: 2864, col: 10, offset: 90641},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31162,28 +31445,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2882, col: 8, offset: 90849},
+																											pos: position{line: 2886, col: 8, offset: 91039},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2869, col: 12, offset: 90622},
+																													pos: position{line: 2873, col: 12, offset: 90812},
 																													run: (*parser).callonListContinuationElement430,
 																													expr: &choiceExpr{
-																														pos: position{line: 2869, col: 13, offset: 90623},
+																														pos: position{line: 2873, col: 13, offset: 90813},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																pos:        position{line: 2873, col: 13, offset: 90813},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																pos:        position{line: 2873, col: 20, offset: 90820},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																pos:        position{line: 2873, col: 29, offset: 90829},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31192,9 +31475,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2879, col: 8, offset: 90799},
+																													pos: position{line: 2883, col: 8, offset: 90989},
 																													expr: &anyMatcher{
-																														line: 2879, col: 9, offset: 90800,
+																														line: 2883, col: 9, offset: 90990,
 																													},
 																												},
 																											},
@@ -31210,9 +31493,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
@@ -31228,21 +31511,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2877, col: 11, offset: 90785},
+																						pos: position{line: 2881, col: 11, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2877, col: 13, offset: 90787,
+																							line: 2881, col: 13, offset: 90977,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2806, col: 13, offset: 88977},
+																							pos: position{line: 2810, col: 13, offset: 89167},
 																							run: (*parser).callonListContinuationElement446,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2806, col: 13, offset: 88977},
+																								pos: position{line: 2810, col: 13, offset: 89167},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2806, col: 13, offset: 88977},
+																									pos:        position{line: 2810, col: 13, offset: 89167},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31252,28 +31535,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2882, col: 8, offset: 90849},
+																						pos: position{line: 2886, col: 8, offset: 91039},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2869, col: 12, offset: 90622},
+																								pos: position{line: 2873, col: 12, offset: 90812},
 																								run: (*parser).callonListContinuationElement450,
 																								expr: &choiceExpr{
-																									pos: position{line: 2869, col: 13, offset: 90623},
+																									pos: position{line: 2873, col: 13, offset: 90813},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90623},
+																											pos:        position{line: 2873, col: 13, offset: 90813},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 20, offset: 90630},
+																											pos:        position{line: 2873, col: 20, offset: 90820},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 29, offset: 90639},
+																											pos:        position{line: 2873, col: 29, offset: 90829},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31282,9 +31565,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
+																								pos: position{line: 2883, col: 8, offset: 90989},
 																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																									line: 2883, col: 9, offset: 90990,
 																								},
 																							},
 																						},
@@ -31349,10 +31632,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23934},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
+																								pos: position{line: 2864, col: 10, offset: 90641},
 																								run: (*parser).callonListContinuationElement471,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31361,28 +31644,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonListContinuationElement474,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31391,9 +31674,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -31409,9 +31692,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2879, col: 8, offset: 90799},
+																	pos: position{line: 2883, col: 8, offset: 90989},
 																	expr: &anyMatcher{
-																		line: 2879, col: 9, offset: 90800,
+																		line: 2883, col: 9, offset: 90990,
 																	},
 																},
 															},
@@ -31463,10 +31746,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 760, col: 52, offset: 24346},
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 10, offset: 90451},
+																		pos: position{line: 2864, col: 10, offset: 90641},
 																		run: (*parser).callonListContinuationElement495,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			pos:        position{line: 2864, col: 10, offset: 90641},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31475,28 +31758,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
+																			pos: position{line: 2873, col: 12, offset: 90812},
 																			run: (*parser).callonListContinuationElement498,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31505,9 +31788,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -31541,10 +31824,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 971, col: 40, offset: 30361},
 																					expr: &actionExpr{
-																						pos: position{line: 2860, col: 10, offset: 90451},
+																						pos: position{line: 2864, col: 10, offset: 90641},
 																						run: (*parser).callonListContinuationElement513,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2860, col: 10, offset: 90451},
+																							pos:        position{line: 2864, col: 10, offset: 90641},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -31553,28 +31836,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2882, col: 8, offset: 90849},
+																					pos: position{line: 2886, col: 8, offset: 91039},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2869, col: 12, offset: 90622},
+																							pos: position{line: 2873, col: 12, offset: 90812},
 																							run: (*parser).callonListContinuationElement516,
 																							expr: &choiceExpr{
-																								pos: position{line: 2869, col: 13, offset: 90623},
+																								pos: position{line: 2873, col: 13, offset: 90813},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2869, col: 13, offset: 90623},
+																										pos:        position{line: 2873, col: 13, offset: 90813},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2869, col: 20, offset: 90630},
+																										pos:        position{line: 2873, col: 20, offset: 90820},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2869, col: 29, offset: 90639},
+																										pos:        position{line: 2873, col: 29, offset: 90829},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31583,9 +31866,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2879, col: 8, offset: 90799},
+																							pos: position{line: 2883, col: 8, offset: 90989},
 																							expr: &anyMatcher{
-																								line: 2879, col: 9, offset: 90800,
+																								line: 2883, col: 9, offset: 90990,
 																							},
 																						},
 																					},
@@ -31603,21 +31886,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2877, col: 11, offset: 90785},
+																						pos: position{line: 2881, col: 11, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2877, col: 13, offset: 90787,
+																							line: 2881, col: 13, offset: 90977,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2806, col: 13, offset: 88977},
+																							pos: position{line: 2810, col: 13, offset: 89167},
 																							run: (*parser).callonListContinuationElement529,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2806, col: 13, offset: 88977},
+																								pos: position{line: 2810, col: 13, offset: 89167},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2806, col: 13, offset: 88977},
+																									pos:        position{line: 2810, col: 13, offset: 89167},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31627,28 +31910,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2882, col: 8, offset: 90849},
+																						pos: position{line: 2886, col: 8, offset: 91039},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2869, col: 12, offset: 90622},
+																								pos: position{line: 2873, col: 12, offset: 90812},
 																								run: (*parser).callonListContinuationElement533,
 																								expr: &choiceExpr{
-																									pos: position{line: 2869, col: 13, offset: 90623},
+																									pos: position{line: 2873, col: 13, offset: 90813},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90623},
+																											pos:        position{line: 2873, col: 13, offset: 90813},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 20, offset: 90630},
+																											pos:        position{line: 2873, col: 20, offset: 90820},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 29, offset: 90639},
+																											pos:        position{line: 2873, col: 29, offset: 90829},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31657,9 +31940,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
+																								pos: position{line: 2883, col: 8, offset: 90989},
 																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																									line: 2883, col: 9, offset: 90990,
 																								},
 																							},
 																						},
@@ -31687,10 +31970,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 971, col: 40, offset: 30361},
 																expr: &actionExpr{
-																	pos: position{line: 2860, col: 10, offset: 90451},
+																	pos: position{line: 2864, col: 10, offset: 90641},
 																	run: (*parser).callonListContinuationElement544,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2860, col: 10, offset: 90451},
+																		pos:        position{line: 2864, col: 10, offset: 90641},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31699,28 +31982,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2882, col: 8, offset: 90849},
+																pos: position{line: 2886, col: 8, offset: 91039},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2869, col: 12, offset: 90622},
+																		pos: position{line: 2873, col: 12, offset: 90812},
 																		run: (*parser).callonListContinuationElement547,
 																		expr: &choiceExpr{
-																			pos: position{line: 2869, col: 13, offset: 90623},
+																			pos: position{line: 2873, col: 13, offset: 90813},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2869, col: 13, offset: 90623},
+																					pos:        position{line: 2873, col: 13, offset: 90813},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2869, col: 20, offset: 90630},
+																					pos:        position{line: 2873, col: 20, offset: 90820},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2869, col: 29, offset: 90639},
+																					pos:        position{line: 2873, col: 29, offset: 90829},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -31729,9 +32012,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2879, col: 8, offset: 90799},
+																		pos: position{line: 2883, col: 8, offset: 90989},
 																		expr: &anyMatcher{
-																			line: 2879, col: 9, offset: 90800,
+																			line: 2883, col: 9, offset: 90990,
 																		},
 																	},
 																},
@@ -31788,10 +32071,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 756, col: 8, offset: 24180},
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 10, offset: 90451},
+																		pos: position{line: 2864, col: 10, offset: 90641},
 																		run: (*parser).callonListContinuationElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			pos:        position{line: 2864, col: 10, offset: 90641},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31800,28 +32083,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
+																			pos: position{line: 2873, col: 12, offset: 90812},
 																			run: (*parser).callonListContinuationElement569,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31830,9 +32113,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -31904,10 +32187,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24180},
 																											expr: &actionExpr{
-																												pos: position{line: 2860, col: 10, offset: 90451},
+																												pos: position{line: 2864, col: 10, offset: 90641},
 																												run: (*parser).callonListContinuationElement594,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2860, col: 10, offset: 90451},
+																													pos:        position{line: 2864, col: 10, offset: 90641},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31916,28 +32199,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2882, col: 8, offset: 90849},
+																											pos: position{line: 2886, col: 8, offset: 91039},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2869, col: 12, offset: 90622},
+																													pos: position{line: 2873, col: 12, offset: 90812},
 																													run: (*parser).callonListContinuationElement597,
 																													expr: &choiceExpr{
-																														pos: position{line: 2869, col: 13, offset: 90623},
+																														pos: position{line: 2873, col: 13, offset: 90813},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																pos:        position{line: 2873, col: 13, offset: 90813},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																pos:        position{line: 2873, col: 20, offset: 90820},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																pos:        position{line: 2873, col: 29, offset: 90829},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31946,9 +32229,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2879, col: 8, offset: 90799},
+																													pos: position{line: 2883, col: 8, offset: 90989},
 																													expr: &anyMatcher{
-																														line: 2879, col: 9, offset: 90800,
+																														line: 2883, col: 9, offset: 90990,
 																													},
 																												},
 																											},
@@ -31964,9 +32247,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
@@ -31982,21 +32265,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2877, col: 11, offset: 90785},
+																						pos: position{line: 2881, col: 11, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2877, col: 13, offset: 90787,
+																							line: 2881, col: 13, offset: 90977,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2806, col: 13, offset: 88977},
+																							pos: position{line: 2810, col: 13, offset: 89167},
 																							run: (*parser).callonListContinuationElement613,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2806, col: 13, offset: 88977},
+																								pos: position{line: 2810, col: 13, offset: 89167},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2806, col: 13, offset: 88977},
+																									pos:        position{line: 2810, col: 13, offset: 89167},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32006,28 +32289,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2882, col: 8, offset: 90849},
+																						pos: position{line: 2886, col: 8, offset: 91039},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2869, col: 12, offset: 90622},
+																								pos: position{line: 2873, col: 12, offset: 90812},
 																								run: (*parser).callonListContinuationElement617,
 																								expr: &choiceExpr{
-																									pos: position{line: 2869, col: 13, offset: 90623},
+																									pos: position{line: 2873, col: 13, offset: 90813},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90623},
+																											pos:        position{line: 2873, col: 13, offset: 90813},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 20, offset: 90630},
+																											pos:        position{line: 2873, col: 20, offset: 90820},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 29, offset: 90639},
+																											pos:        position{line: 2873, col: 29, offset: 90829},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32036,9 +32319,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
+																								pos: position{line: 2883, col: 8, offset: 90989},
 																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																									line: 2883, col: 9, offset: 90990,
 																								},
 																							},
 																						},
@@ -32103,10 +32386,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24180},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
+																								pos: position{line: 2864, col: 10, offset: 90641},
 																								run: (*parser).callonListContinuationElement638,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32115,28 +32398,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonListContinuationElement641,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32145,9 +32428,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -32163,9 +32446,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2879, col: 8, offset: 90799},
+																	pos: position{line: 2883, col: 8, offset: 90989},
 																	expr: &anyMatcher{
-																		line: 2879, col: 9, offset: 90800,
+																		line: 2883, col: 9, offset: 90990,
 																	},
 																},
 															},
@@ -32221,10 +32504,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 771, col: 8, offset: 24718},
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 10, offset: 90451},
+																		pos: position{line: 2864, col: 10, offset: 90641},
 																		run: (*parser).callonListContinuationElement663,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			pos:        position{line: 2864, col: 10, offset: 90641},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32233,28 +32516,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
+																			pos: position{line: 2873, col: 12, offset: 90812},
 																			run: (*parser).callonListContinuationElement666,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32263,9 +32546,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -32337,10 +32620,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24718},
 																											expr: &actionExpr{
-																												pos: position{line: 2860, col: 10, offset: 90451},
+																												pos: position{line: 2864, col: 10, offset: 90641},
 																												run: (*parser).callonListContinuationElement691,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2860, col: 10, offset: 90451},
+																													pos:        position{line: 2864, col: 10, offset: 90641},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32349,28 +32632,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2882, col: 8, offset: 90849},
+																											pos: position{line: 2886, col: 8, offset: 91039},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2869, col: 12, offset: 90622},
+																													pos: position{line: 2873, col: 12, offset: 90812},
 																													run: (*parser).callonListContinuationElement694,
 																													expr: &choiceExpr{
-																														pos: position{line: 2869, col: 13, offset: 90623},
+																														pos: position{line: 2873, col: 13, offset: 90813},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																pos:        position{line: 2873, col: 13, offset: 90813},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																pos:        position{line: 2873, col: 20, offset: 90820},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																pos:        position{line: 2873, col: 29, offset: 90829},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32379,9 +32662,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2879, col: 8, offset: 90799},
+																													pos: position{line: 2883, col: 8, offset: 90989},
 																													expr: &anyMatcher{
-																														line: 2879, col: 9, offset: 90800,
+																														line: 2883, col: 9, offset: 90990,
 																													},
 																												},
 																											},
@@ -32397,9 +32680,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
@@ -32415,21 +32698,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2877, col: 11, offset: 90785},
+																						pos: position{line: 2881, col: 11, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2877, col: 13, offset: 90787,
+																							line: 2881, col: 13, offset: 90977,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2806, col: 13, offset: 88977},
+																							pos: position{line: 2810, col: 13, offset: 89167},
 																							run: (*parser).callonListContinuationElement710,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2806, col: 13, offset: 88977},
+																								pos: position{line: 2810, col: 13, offset: 89167},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2806, col: 13, offset: 88977},
+																									pos:        position{line: 2810, col: 13, offset: 89167},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32439,28 +32722,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2882, col: 8, offset: 90849},
+																						pos: position{line: 2886, col: 8, offset: 91039},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2869, col: 12, offset: 90622},
+																								pos: position{line: 2873, col: 12, offset: 90812},
 																								run: (*parser).callonListContinuationElement714,
 																								expr: &choiceExpr{
-																									pos: position{line: 2869, col: 13, offset: 90623},
+																									pos: position{line: 2873, col: 13, offset: 90813},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90623},
+																											pos:        position{line: 2873, col: 13, offset: 90813},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 20, offset: 90630},
+																											pos:        position{line: 2873, col: 20, offset: 90820},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 29, offset: 90639},
+																											pos:        position{line: 2873, col: 29, offset: 90829},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32469,9 +32752,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
+																								pos: position{line: 2883, col: 8, offset: 90989},
 																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																									line: 2883, col: 9, offset: 90990,
 																								},
 																							},
 																						},
@@ -32536,10 +32819,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24718},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
+																								pos: position{line: 2864, col: 10, offset: 90641},
 																								run: (*parser).callonListContinuationElement735,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32548,28 +32831,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonListContinuationElement738,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32578,9 +32861,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -32596,9 +32879,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2879, col: 8, offset: 90799},
+																	pos: position{line: 2883, col: 8, offset: 90989},
 																	expr: &anyMatcher{
-																		line: 2879, col: 9, offset: 90800,
+																		line: 2883, col: 9, offset: 90990,
 																	},
 																},
 															},
@@ -32654,10 +32937,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 785, col: 8, offset: 25194},
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 10, offset: 90451},
+																		pos: position{line: 2864, col: 10, offset: 90641},
 																		run: (*parser).callonListContinuationElement760,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			pos:        position{line: 2864, col: 10, offset: 90641},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32666,28 +32949,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
+																			pos: position{line: 2873, col: 12, offset: 90812},
 																			run: (*parser).callonListContinuationElement763,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32696,9 +32979,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -32770,10 +33053,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25194},
 																											expr: &actionExpr{
-																												pos: position{line: 2860, col: 10, offset: 90451},
+																												pos: position{line: 2864, col: 10, offset: 90641},
 																												run: (*parser).callonListContinuationElement788,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2860, col: 10, offset: 90451},
+																													pos:        position{line: 2864, col: 10, offset: 90641},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32782,28 +33065,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2882, col: 8, offset: 90849},
+																											pos: position{line: 2886, col: 8, offset: 91039},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2869, col: 12, offset: 90622},
+																													pos: position{line: 2873, col: 12, offset: 90812},
 																													run: (*parser).callonListContinuationElement791,
 																													expr: &choiceExpr{
-																														pos: position{line: 2869, col: 13, offset: 90623},
+																														pos: position{line: 2873, col: 13, offset: 90813},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																pos:        position{line: 2873, col: 13, offset: 90813},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																pos:        position{line: 2873, col: 20, offset: 90820},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																pos:        position{line: 2873, col: 29, offset: 90829},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32812,9 +33095,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2879, col: 8, offset: 90799},
+																													pos: position{line: 2883, col: 8, offset: 90989},
 																													expr: &anyMatcher{
-																														line: 2879, col: 9, offset: 90800,
+																														line: 2883, col: 9, offset: 90990,
 																													},
 																												},
 																											},
@@ -32830,9 +33113,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
@@ -32848,21 +33131,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2877, col: 11, offset: 90785},
+																						pos: position{line: 2881, col: 11, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2877, col: 13, offset: 90787,
+																							line: 2881, col: 13, offset: 90977,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2806, col: 13, offset: 88977},
+																							pos: position{line: 2810, col: 13, offset: 89167},
 																							run: (*parser).callonListContinuationElement807,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2806, col: 13, offset: 88977},
+																								pos: position{line: 2810, col: 13, offset: 89167},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2806, col: 13, offset: 88977},
+																									pos:        position{line: 2810, col: 13, offset: 89167},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32872,28 +33155,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2882, col: 8, offset: 90849},
+																						pos: position{line: 2886, col: 8, offset: 91039},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2869, col: 12, offset: 90622},
+																								pos: position{line: 2873, col: 12, offset: 90812},
 																								run: (*parser).callonListContinuationElement811,
 																								expr: &choiceExpr{
-																									pos: position{line: 2869, col: 13, offset: 90623},
+																									pos: position{line: 2873, col: 13, offset: 90813},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90623},
+																											pos:        position{line: 2873, col: 13, offset: 90813},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 20, offset: 90630},
+																											pos:        position{line: 2873, col: 20, offset: 90820},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 29, offset: 90639},
+																											pos:        position{line: 2873, col: 29, offset: 90829},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32902,9 +33185,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
+																								pos: position{line: 2883, col: 8, offset: 90989},
 																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																									line: 2883, col: 9, offset: 90990,
 																								},
 																							},
 																						},
@@ -32969,10 +33252,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25194},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
+																								pos: position{line: 2864, col: 10, offset: 90641},
 																								run: (*parser).callonListContinuationElement832,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32981,28 +33264,234 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
+																									pos: position{line: 2873, col: 12, offset: 90812},
 																									run: (*parser).callonListContinuationElement835,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
+																										alternatives: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												val:        "\n",
+																												ignoreCase: false,
+																												want:       "\"\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												val:        "\r\n",
+																												ignoreCase: false,
+																												want:       "\"\\r\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												val:        "\r",
+																												ignoreCase: false,
+																												want:       "\"\\r\"",
+																											},
+																										},
+																									},
+																								},
+																								&notExpr{
+																									pos: position{line: 2883, col: 8, offset: 90989},
+																									expr: &anyMatcher{
+																										line: 2883, col: 9, offset: 90990,
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																		},
+																		&andCodeExpr{
+																			pos: position{line: 945, col: 5, offset: 29571},
+																			run: (*parser).callonListContinuationElement842,
+																		},
+																	},
+																},
+																&notExpr{
+																	pos: position{line: 2883, col: 8, offset: 90989},
+																	expr: &anyMatcher{
+																		line: 2883, col: 9, offset: 90990,
+																	},
+																},
+															},
+														},
+													},
+												},
+											},
+										},
+									},
+									&actionExpr{
+										pos: position{line: 983, col: 5, offset: 30612},
+										run: (*parser).callonListContinuationElement845,
+										expr: &seqExpr{
+											pos: position{line: 983, col: 5, offset: 30612},
+											exprs: []interface{}{
+												&labeledExpr{
+													pos:   position{line: 983, col: 5, offset: 30612},
+													label: "firstLine",
+													expr: &choiceExpr{
+														pos: position{line: 983, col: 16, offset: 30623},
+														alternatives: []interface{}{
+															&actionExpr{
+																pos: position{line: 996, col: 35, offset: 31099},
+																run: (*parser).callonListContinuationElement849,
+																expr: &seqExpr{
+																	pos: position{line: 996, col: 35, offset: 31099},
+																	exprs: []interface{}{
+																		&litMatcher{
+																			pos:        position{line: 996, col: 35, offset: 31099},
+																			val:        "> ",
+																			ignoreCase: false,
+																			want:       "\"> \"",
+																		},
+																		&labeledExpr{
+																			pos:   position{line: 996, col: 40, offset: 31104},
+																			label: "comment",
+																			expr: &actionExpr{
+																				pos: position{line: 2474, col: 22, offset: 79626},
+																				run: (*parser).callonListContinuationElement853,
+																				expr: &seqExpr{
+																					pos: position{line: 2474, col: 22, offset: 79626},
+																					exprs: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 2479, col: 31, offset: 79847},
+																							val:        "//",
+																							ignoreCase: false,
+																							want:       "\"//\"",
+																						},
+																						&notExpr{
+																							pos: position{line: 2479, col: 36, offset: 79852},
+																							expr: &litMatcher{
+																								pos:        position{line: 2479, col: 37, offset: 79853},
+																								val:        "//",
+																								ignoreCase: false,
+																								want:       "\"//\"",
+																							},
+																						},
+																						&labeledExpr{
+																							pos:   position{line: 2474, col: 49, offset: 79653},
+																							label: "content",
+																							expr: &actionExpr{
+																								pos: position{line: 2810, col: 13, offset: 89167},
+																								run: (*parser).callonListContinuationElement859,
+																								expr: &zeroOrMoreExpr{
+																									pos: position{line: 2810, col: 13, offset: 89167},
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2810, col: 13, offset: 89167},
+																										val:        "[^\\r\\n]",
+																										chars:      []rune{'\r', '\n'},
+																										ignoreCase: false,
+																										inverted:   true,
+																									},
+																								},
+																							},
+																						},
+																						&choiceExpr{
+																							pos: position{line: 2886, col: 8, offset: 91039},
+																							alternatives: []interface{}{
+																								&actionExpr{
+																									pos: position{line: 2873, col: 12, offset: 90812},
+																									run: (*parser).callonListContinuationElement863,
+																									expr: &choiceExpr{
+																										pos: position{line: 2873, col: 13, offset: 90813},
+																										alternatives: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												val:        "\n",
+																												ignoreCase: false,
+																												want:       "\"\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												val:        "\r\n",
+																												ignoreCase: false,
+																												want:       "\"\\r\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												val:        "\r",
+																												ignoreCase: false,
+																												want:       "\"\\r\"",
+																											},
+																										},
+																									},
+																								},
+																								&notExpr{
+																									pos: position{line: 2883, col: 8, offset: 90989},
+																									expr: &anyMatcher{
+																										line: 2883, col: 9, offset: 90990,
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																		},
+																	},
+																},
+															},
+															&actionExpr{
+																pos: position{line: 990, col: 5, offset: 30957},
+																run: (*parser).callonListContinuationElement870,
+																expr: &seqExpr{
+																	pos: position{line: 990, col: 5, offset: 30957},
+																	exprs: []interface{}{
+																		&notExpr{
+																			pos: position{line: 990, col: 5, offset: 30957},
+																			expr: &actionExpr{
+																				pos: position{line: 677, col: 14, offset: 21489},
+																				run: (*parser).callonListContinuationElement873,
+																				expr: &seqExpr{
+																					pos: position{line: 677, col: 14, offset: 21489},
+																					exprs: []interface{}{
+																						&andExpr{
+																							pos: position{line: 2881, col: 11, offset: 90975},
+																							expr: &anyMatcher{
+																								line: 2881, col: 13, offset: 90977,
+																							},
+																						},
+																						&zeroOrMoreExpr{
+																							pos: position{line: 677, col: 21, offset: 21496},
+																							expr: &actionExpr{
+																								pos: position{line: 2864, col: 10, offset: 90641},
+																								run: (*parser).callonListContinuationElement878,
+																								expr: &charClassMatcher{
+																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									val:        "[\\t ]",
+																									chars:      []rune{'\t', ' '},
+																									ignoreCase: false,
+																									inverted:   false,
+																								},
+																							},
+																						},
+																						&choiceExpr{
+																							pos: position{line: 2886, col: 8, offset: 91039},
+																							alternatives: []interface{}{
+																								&actionExpr{
+																									pos: position{line: 2873, col: 12, offset: 90812},
+																									run: (*parser).callonListContinuationElement881,
+																									expr: &choiceExpr{
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33011,9 +33500,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -33022,103 +33511,155 @@ var g = &grammar{
 																				},
 																			},
 																		},
-																		&andCodeExpr{
-																			pos: position{line: 945, col: 5, offset: 29571},
-																			run: (*parser).callonListContinuationElement842,
+																		&litMatcher{
+																			pos:        position{line: 991, col: 5, offset: 30972},
+																			val:        "> ",
+																			ignoreCase: false,
+																			want:       "\"> \"",
+																		},
+																		&labeledExpr{
+																			pos:   position{line: 992, col: 5, offset: 30982},
+																			label: "content",
+																			expr: &actionExpr{
+																				pos: position{line: 2814, col: 14, offset: 89234},
+																				run: (*parser).callonListContinuationElement890,
+																				expr: &oneOrMoreExpr{
+																					pos: position{line: 2814, col: 14, offset: 89234},
+																					expr: &charClassMatcher{
+																						pos:        position{line: 2814, col: 14, offset: 89234},
+																						val:        "[^\\r\\n]",
+																						chars:      []rune{'\r', '\n'},
+																						ignoreCase: false,
+																						inverted:   true,
+																					},
+																				},
+																			},
+																		},
+																		&choiceExpr{
+																			pos: position{line: 2886, col: 8, offset: 91039},
+																			alternatives: []interface{}{
+																				&actionExpr{
+																					pos: position{line: 2873, col: 12, offset: 90812},
+																					run: (*parser).callonListContinuationElement894,
+																					expr: &choiceExpr{
+																						pos: position{line: 2873, col: 13, offset: 90813},
+																						alternatives: []interface{}{
+																							&litMatcher{
+																								pos:        position{line: 2873, col: 13, offset: 90813},
+																								val:        "\n",
+																								ignoreCase: false,
+																								want:       "\"\\n\"",
+																							},
+																							&litMatcher{
+																								pos:        position{line: 2873, col: 20, offset: 90820},
+																								val:        "\r\n",
+																								ignoreCase: false,
+																								want:       "\"\\r\\n\"",
+																							},
+																							&litMatcher{
+																								pos:        position{line: 2873, col: 29, offset: 90829},
+																								val:        "\r",
+																								ignoreCase: false,
+																								want:       "\"\\r\"",
+																							},
+																						},
+																					},
+																				},
+																				&notExpr{
+																					pos: position{line: 2883, col: 8, offset: 90989},
+																					expr: &anyMatcher{
+																						line: 2883, col: 9, offset: 90990,
+																					},
+																				},
+																			},
 																		},
-																	},
-																},
-																&notExpr{
-																	pos: position{line: 2879, col: 8, offset: 90799},
-																	expr: &anyMatcher{
-																		line: 2879, col: 9, offset: 90800,
 																	},
 																},
 															},
 														},
 													},
 												},
-											},
-										},
-									},
-									&actionExpr{
-										pos: position{line: 983, col: 5, offset: 30612},
-										run: (*parser).callonListContinuationElement845,
-										expr: &seqExpr{
-											pos: position{line: 983, col: 5, offset: 30612},
-											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 983, col: 5, offset: 30612},
-													label: "firstLine",
-													expr: &actionExpr{
-														pos: position{line: 990, col: 5, offset: 30871},
-														run: (*parser).callonListContinuationElement848,
-														expr: &seqExpr{
-															pos: position{line: 990, col: 5, offset: 30871},
-															exprs: []interface{}{
-																&notExpr{
-																	pos: position{line: 990, col: 5, offset: 30871},
-																	expr: &actionExpr{
-																		pos: position{line: 677, col: 14, offset: 21489},
-																		run: (*parser).callonListContinuationElement851,
-																		expr: &seqExpr{
-																			pos: position{line: 677, col: 14, offset: 21489},
-																			exprs: []interface{}{
-																				&andExpr{
-																					pos: position{line: 2877, col: 11, offset: 90785},
-																					expr: &anyMatcher{
-																						line: 2877, col: 13, offset: 90787,
-																					},
+													pos:   position{line: 984, col: 5, offset: 30682},
+													label: "otherLines",
+													expr: &zeroOrMoreExpr{
+														pos: position{line: 984, col: 16, offset: 30693},
+														expr: &choiceExpr{
+															pos: position{line: 984, col: 17, offset: 30694},
+															alternatives: []interface{}{
+																&actionExpr{
+																	pos: position{line: 2474, col: 22, offset: 79626},
+																	run: (*parser).callonListContinuationElement904,
+																	expr: &seqExpr{
+																		pos: position{line: 2474, col: 22, offset: 79626},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 2479, col: 31, offset: 79847},
+																				val:        "//",
+																				ignoreCase: false,
+																				want:       "\"//\"",
+																			},
+																			&notExpr{
+																				pos: position{line: 2479, col: 36, offset: 79852},
+																				expr: &litMatcher{
+																					pos:        position{line: 2479, col: 37, offset: 79853},
+																					val:        "//",
+																					ignoreCase: false,
+																					want:       "\"//\"",
 																				},
-																				&zeroOrMoreExpr{
-																					pos: position{line: 677, col: 21, offset: 21496},
-																					expr: &actionExpr{
-																						pos: position{line: 2860, col: 10, offset: 90451},
-																						run: (*parser).callonListContinuationElement856,
+																			},
+																			&labeledExpr{
+																				pos:   position{line: 2474, col: 49, offset: 79653},
+																				label: "content",
+																				expr: &actionExpr{
+																					pos: position{line: 2810, col: 13, offset: 89167},
+																					run: (*parser).callonListContinuationElement910,
+																					expr: &zeroOrMoreExpr{
+																						pos: position{line: 2810, col: 13, offset: 89167},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2860, col: 10, offset: 90451},
-																							val:        "[\\t ]",
-																							chars:      []rune{'\t', ' '},
+																							pos:        position{line: 2810, col: 13, offset: 89167},
+																							val:        "[^\\r\\n]",
+																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
-																							inverted:   false,
+																							inverted:   true,
 																						},
 																					},
 																				},
-																				&choiceExpr{
-																					pos: position{line: 2882, col: 8, offset: 90849},
-																					alternatives: []interface{}{
-																						&actionExpr{
-																							pos: position{line: 2869, col: 12, offset: 90622},
-																							run: (*parser).callonListContinuationElement859,
-																							expr: &choiceExpr{
-																								pos: position{line: 2869, col: 13, offset: 90623},
-																								alternatives: []interface{}{
-																									&litMatcher{
-																										pos:        position{line: 2869, col: 13, offset: 90623},
-																										val:        "\n",
-																										ignoreCase: false,
-																										want:       "\"\\n\"",
-																									},
-																									&litMatcher{
-																										pos:        position{line: 2869, col: 20, offset: 90630},
-																										val:        "\r\n",
-																										ignoreCase: false,
-																										want:       "\"\\r\\n\"",
-																									},
-																									&litMatcher{
-																										pos:        position{line: 2869, col: 29, offset: 90639},
-																										val:        "\r",
-																										ignoreCase: false,
-																										want:       "\"\\r\"",
-																									},
+																			},
+																			&choiceExpr{
+																				pos: position{line: 2886, col: 8, offset: 91039},
+																				alternatives: []interface{}{
+																					&actionExpr{
+																						pos: position{line: 2873, col: 12, offset: 90812},
+																						run: (*parser).callonListContinuationElement914,
+																						expr: &choiceExpr{
+																							pos: position{line: 2873, col: 13, offset: 90813},
+																							alternatives: []interface{}{
+																								&litMatcher{
+																									pos:        position{line: 2873, col: 13, offset: 90813},
+																									val:        "\n",
+																									ignoreCase: false,
+																									want:       "\"\\n\"",
+																								},
+																								&litMatcher{
+																									pos:        position{line: 2873, col: 20, offset: 90820},
+																									val:        "\r\n",
+																									ignoreCase: false,
+																									want:       "\"\\r\\n\"",
+																								},
+																								&litMatcher{
+																									pos:        position{line: 2873, col: 29, offset: 90829},
+																									val:        "\r",
+																									ignoreCase: false,
+																									want:       "\"\\r\"",
 																								},
 																							},
 																						},
-																						&notExpr{
-																							pos: position{line: 2879, col: 8, offset: 90799},
-																							expr: &anyMatcher{
-																								line: 2879, col: 9, offset: 90800,
-																							},
+																					},
+																					&notExpr{
+																						pos: position{line: 2883, col: 8, offset: 90989},
+																						expr: &anyMatcher{
+																							line: 2883, col: 9, offset: 90990,
 																						},
 																					},
 																				},
@@ -33126,107 +33667,132 @@ var g = &grammar{
 																		},
 																	},
 																},
-																&litMatcher{
-																	pos:        position{line: 991, col: 5, offset: 30886},
-																	val:        "> ",
-																	ignoreCase: false,
-																	want:       "\"> \"",
-																},
-																&labeledExpr{
-																	pos:   position{line: 992, col: 5, offset: 30896},
-																	label: "content",
-																	expr: &actionExpr{
-																		pos: position{line: 2810, col: 14, offset: 89044},
-																		run: (*parser).callonListContinuationElement868,
-																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2810, col: 14, offset: 89044},
-																			expr: &charClassMatcher{
-																				pos:        position{line: 2810, col: 14, offset: 89044},
-																				val:        "[^\\r\\n]",
-																				chars:      []rune{'\r', '\n'},
+																&actionExpr{
+																	pos: position{line: 996, col: 35, offset: 31099},
+																	run: (*parser).callonListContinuationElement921,
+																	expr: &seqExpr{
+																		pos: position{line: 996, col: 35, offset: 31099},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 996, col: 35, offset: 31099},
+																				val:        "> ",
 																				ignoreCase: false,
-																				inverted:   true,
+																				want:       "\"> \"",
 																			},
-																		},
-																	},
-																},
-																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
-																	alternatives: []interface{}{
-																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
-																			run: (*parser).callonListContinuationElement872,
-																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
-																				alternatives: []interface{}{
-																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
-																						val:        "\n",
-																						ignoreCase: false,
-																						want:       "\"\\n\"",
-																					},
-																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
-																						val:        "\r\n",
-																						ignoreCase: false,
-																						want:       "\"\\r\\n\"",
-																					},
-																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
-																						val:        "\r",
-																						ignoreCase: false,
-																						want:       "\"\\r\"",
+																			&labeledExpr{
+																				pos:   position{line: 996, col: 40, offset: 31104},
+																				label: "comment",
+																				expr: &actionExpr{
+																					pos: position{line: 2474, col: 22, offset: 79626},
+																					run: (*parser).callonListContinuationElement925,
+																					expr: &seqExpr{
+																						pos: position{line: 2474, col: 22, offset: 79626},
+																						exprs: []interface{}{
+																							&litMatcher{
+																								pos:        position{line: 2479, col: 31, offset: 79847},
+																								val:        "//",
+																								ignoreCase: false,
+																								want:       "\"//\"",
+																							},
+																							&notExpr{
+																								pos: position{line: 2479, col: 36, offset: 79852},
+																								expr: &litMatcher{
+																									pos:        position{line: 2479, col: 37, offset: 79853},
+																									val:        "//",
+																									ignoreCase: false,
+																									want:       "\"//\"",
+																								},
+																							},
+																							&labeledExpr{
+																								pos:   position{line: 2474, col: 49, offset: 79653},
+																								label: "content",
+																								expr: &actionExpr{
+																									pos: position{line: 2810, col: 13, offset: 89167},
+																									run: (*parser).callonListContinuationElement931,
+																									expr: &zeroOrMoreExpr{
+																										pos: position{line: 2810, col: 13, offset: 89167},
+																										expr: &charClassMatcher{
+																											pos:        position{line: 2810, col: 13, offset: 89167},
+																											val:        "[^\\r\\n]",
+																											chars:      []rune{'\r', '\n'},
+																											ignoreCase: false,
+																											inverted:   true,
+																										},
+																									},
+																								},
+																							},
+																							&choiceExpr{
+																								pos: position{line: 2886, col: 8, offset: 91039},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2873, col: 12, offset: 90812},
+																										run: (*parser).callonListContinuationElement935,
+																										expr: &choiceExpr{
+																											pos: position{line: 2873, col: 13, offset: 90813},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2873, col: 13, offset: 90813},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2873, col: 20, offset: 90820},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2873, col: 29, offset: 90829},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
+																												},
+																											},
+																										},
+																									},
+																									&notExpr{
+																										pos: position{line: 2883, col: 8, offset: 90989},
+																										expr: &anyMatcher{
+																											line: 2883, col: 9, offset: 90990,
+																										},
+																									},
+																								},
+																							},
+																						},
 																					},
 																				},
 																			},
 																		},
-																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
-																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
-																			},
-																		},
 																	},
 																},
-															},
-														},
-													},
-												},
-												&labeledExpr{
-													pos:   position{line: 984, col: 5, offset: 30649},
-													label: "otherLines",
-													expr: &zeroOrMoreExpr{
-														pos: position{line: 984, col: 16, offset: 30660},
-														expr: &choiceExpr{
-															pos: position{line: 984, col: 17, offset: 30661},
-															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 990, col: 5, offset: 30871},
-																	run: (*parser).callonListContinuationElement882,
+																	pos: position{line: 990, col: 5, offset: 30957},
+																	run: (*parser).callonListContinuationElement942,
 																	expr: &seqExpr{
-																		pos: position{line: 990, col: 5, offset: 30871},
+																		pos: position{line: 990, col: 5, offset: 30957},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 990, col: 5, offset: 30871},
+																				pos: position{line: 990, col: 5, offset: 30957},
 																				expr: &actionExpr{
 																					pos: position{line: 677, col: 14, offset: 21489},
-																					run: (*parser).callonListContinuationElement885,
+																					run: (*parser).callonListContinuationElement945,
 																					expr: &seqExpr{
 																						pos: position{line: 677, col: 14, offset: 21489},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2877, col: 11, offset: 90785},
+																								pos: position{line: 2881, col: 11, offset: 90975},
 																								expr: &anyMatcher{
-																									line: 2877, col: 13, offset: 90787,
+																									line: 2881, col: 13, offset: 90977,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21496},
 																								expr: &actionExpr{
-																									pos: position{line: 2860, col: 10, offset: 90451},
-																									run: (*parser).callonListContinuationElement890,
+																									pos: position{line: 2864, col: 10, offset: 90641},
+																									run: (*parser).callonListContinuationElement950,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2860, col: 10, offset: 90451},
+																										pos:        position{line: 2864, col: 10, offset: 90641},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33235,28 +33801,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2882, col: 8, offset: 90849},
+																								pos: position{line: 2886, col: 8, offset: 91039},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2869, col: 12, offset: 90622},
-																										run: (*parser).callonListContinuationElement893,
+																										pos: position{line: 2873, col: 12, offset: 90812},
+																										run: (*parser).callonListContinuationElement953,
 																										expr: &choiceExpr{
-																											pos: position{line: 2869, col: 13, offset: 90623},
+																											pos: position{line: 2873, col: 13, offset: 90813},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 13, offset: 90623},
+																													pos:        position{line: 2873, col: 13, offset: 90813},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 20, offset: 90630},
+																													pos:        position{line: 2873, col: 20, offset: 90820},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 29, offset: 90639},
+																													pos:        position{line: 2873, col: 29, offset: 90829},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33265,9 +33831,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2879, col: 8, offset: 90799},
+																										pos: position{line: 2883, col: 8, offset: 90989},
 																										expr: &anyMatcher{
-																											line: 2879, col: 9, offset: 90800,
+																											line: 2883, col: 9, offset: 90990,
 																										},
 																									},
 																								},
@@ -33277,21 +33843,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 991, col: 5, offset: 30886},
+																				pos:        position{line: 991, col: 5, offset: 30972},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 992, col: 5, offset: 30896},
+																				pos:   position{line: 992, col: 5, offset: 30982},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2810, col: 14, offset: 89044},
-																					run: (*parser).callonListContinuationElement902,
+																					pos: position{line: 2814, col: 14, offset: 89234},
+																					run: (*parser).callonListContinuationElement962,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2810, col: 14, offset: 89044},
+																						pos: position{line: 2814, col: 14, offset: 89234},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2810, col: 14, offset: 89044},
+																							pos:        position{line: 2814, col: 14, offset: 89234},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33301,28 +33867,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2882, col: 8, offset: 90849},
+																				pos: position{line: 2886, col: 8, offset: 91039},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2869, col: 12, offset: 90622},
-																						run: (*parser).callonListContinuationElement906,
+																						pos: position{line: 2873, col: 12, offset: 90812},
+																						run: (*parser).callonListContinuationElement966,
 																						expr: &choiceExpr{
-																							pos: position{line: 2869, col: 13, offset: 90623},
+																							pos: position{line: 2873, col: 13, offset: 90813},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2869, col: 13, offset: 90623},
+																									pos:        position{line: 2873, col: 13, offset: 90813},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2869, col: 20, offset: 90630},
+																									pos:        position{line: 2873, col: 20, offset: 90820},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2869, col: 29, offset: 90639},
+																									pos:        position{line: 2873, col: 29, offset: 90829},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33331,9 +33897,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2879, col: 8, offset: 90799},
+																						pos: position{line: 2883, col: 8, offset: 90989},
 																						expr: &anyMatcher{
-																							line: 2879, col: 9, offset: 90800,
+																							line: 2883, col: 9, offset: 90990,
 																						},
 																					},
 																				},
@@ -33342,21 +33908,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1792, col: 5, offset: 57817},
-																	run: (*parser).callonListContinuationElement913,
+																	pos: position{line: 1796, col: 5, offset: 58007},
+																	run: (*parser).callonListContinuationElement973,
 																	expr: &seqExpr{
-																		pos: position{line: 1792, col: 5, offset: 57817},
+																		pos: position{line: 1796, col: 5, offset: 58007},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1792, col: 5, offset: 57817},
+																				pos:   position{line: 1796, col: 5, offset: 58007},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2810, col: 14, offset: 89044},
-																					run: (*parser).callonListContinuationElement916,
+																					pos: position{line: 2814, col: 14, offset: 89234},
+																					run: (*parser).callonListContinuationElement976,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2810, col: 14, offset: 89044},
+																						pos: position{line: 2814, col: 14, offset: 89234},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2810, col: 14, offset: 89044},
+																							pos:        position{line: 2814, col: 14, offset: 89234},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33366,32 +33932,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1793, col: 5, offset: 57841},
-																				run: (*parser).callonListContinuationElement919,
+																				pos: position{line: 1797, col: 5, offset: 58031},
+																				run: (*parser).callonListContinuationElement979,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2882, col: 8, offset: 90849},
+																				pos: position{line: 2886, col: 8, offset: 91039},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2869, col: 12, offset: 90622},
-																						run: (*parser).callonListContinuationElement921,
+																						pos: position{line: 2873, col: 12, offset: 90812},
+																						run: (*parser).callonListContinuationElement981,
 																						expr: &choiceExpr{
-																							pos: position{line: 2869, col: 13, offset: 90623},
+																							pos: position{line: 2873, col: 13, offset: 90813},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2869, col: 13, offset: 90623},
+																									pos:        position{line: 2873, col: 13, offset: 90813},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2869, col: 20, offset: 90630},
+																									pos:        position{line: 2873, col: 20, offset: 90820},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2869, col: 29, offset: 90639},
+																									pos:        position{line: 2873, col: 29, offset: 90829},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33400,9 +33966,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2879, col: 8, offset: 90799},
+																						pos: position{line: 2883, col: 8, offset: 90989},
 																						expr: &anyMatcher{
-																							line: 2879, col: 9, offset: 90800,
+																							line: 2883, col: 9, offset: 90990,
 																						},
 																					},
 																				},
@@ -33418,17 +33984,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1005, col: 5, offset: 31161},
-										run: (*parser).callonListContinuationElement928,
+										pos: position{line: 1009, col: 5, offset: 31351},
+										run: (*parser).callonListContinuationElement988,
 										expr: &seqExpr{
-											pos: position{line: 1005, col: 5, offset: 31161},
+											pos: position{line: 1009, col: 5, offset: 31351},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1005, col: 5, offset: 31161},
+													pos:   position{line: 1009, col: 5, offset: 31351},
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 776, col: 5, offset: 24861},
-														run: (*parser).callonListContinuationElement931,
+														run: (*parser).callonListContinuationElement991,
 														expr: &seqExpr{
 															pos: position{line: 776, col: 5, offset: 24861},
 															exprs: []interface{}{
@@ -33437,7 +34003,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 776, col: 16, offset: 24872},
-																		run: (*parser).callonListContinuationElement934,
+																		run: (*parser).callonListContinuationElement994,
 																		expr: &litMatcher{
 																			pos:        position{line: 776, col: 16, offset: 24872},
 																			val:        "--",
@@ -33449,10 +34015,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 778, col: 8, offset: 24949},
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 10, offset: 90451},
-																		run: (*parser).callonListContinuationElement937,
+																		pos: position{line: 2864, col: 10, offset: 90641},
+																		run: (*parser).callonListContinuationElement997,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			pos:        position{line: 2864, col: 10, offset: 90641},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33461,28 +34027,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
-																			run: (*parser).callonListContinuationElement940,
+																			pos: position{line: 2873, col: 12, offset: 90812},
+																			run: (*parser).callonListContinuationElement1000,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33491,9 +34057,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -33503,24 +34069,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1006, col: 5, offset: 31197},
+													pos:   position{line: 1010, col: 5, offset: 31387},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1016, col: 5, offset: 31465},
+														pos: position{line: 1020, col: 5, offset: 31655},
 														expr: &actionExpr{
-															pos: position{line: 1016, col: 6, offset: 31466},
-															run: (*parser).callonListContinuationElement949,
+															pos: position{line: 1020, col: 6, offset: 31656},
+															run: (*parser).callonListContinuationElement1009,
 															expr: &seqExpr{
-																pos: position{line: 1016, col: 6, offset: 31466},
+																pos: position{line: 1020, col: 6, offset: 31656},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1016, col: 6, offset: 31466},
+																		pos: position{line: 1020, col: 6, offset: 31656},
 																		expr: &choiceExpr{
-																			pos: position{line: 1013, col: 26, offset: 31414},
+																			pos: position{line: 1017, col: 26, offset: 31604},
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 776, col: 5, offset: 24861},
-																					run: (*parser).callonListContinuationElement953,
+																					run: (*parser).callonListContinuationElement1013,
 																					expr: &seqExpr{
 																						pos: position{line: 776, col: 5, offset: 24861},
 																						exprs: []interface{}{
@@ -33529,7 +34095,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 776, col: 16, offset: 24872},
-																									run: (*parser).callonListContinuationElement956,
+																									run: (*parser).callonListContinuationElement1016,
 																									expr: &litMatcher{
 																										pos:        position{line: 776, col: 16, offset: 24872},
 																										val:        "--",
@@ -33541,10 +34107,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 778, col: 8, offset: 24949},
 																								expr: &actionExpr{
-																									pos: position{line: 2860, col: 10, offset: 90451},
-																									run: (*parser).callonListContinuationElement959,
+																									pos: position{line: 2864, col: 10, offset: 90641},
+																									run: (*parser).callonListContinuationElement1019,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2860, col: 10, offset: 90451},
+																										pos:        position{line: 2864, col: 10, offset: 90641},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33553,28 +34119,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2882, col: 8, offset: 90849},
+																								pos: position{line: 2886, col: 8, offset: 91039},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2869, col: 12, offset: 90622},
-																										run: (*parser).callonListContinuationElement962,
+																										pos: position{line: 2873, col: 12, offset: 90812},
+																										run: (*parser).callonListContinuationElement1022,
 																										expr: &choiceExpr{
-																											pos: position{line: 2869, col: 13, offset: 90623},
+																											pos: position{line: 2873, col: 13, offset: 90813},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 13, offset: 90623},
+																													pos:        position{line: 2873, col: 13, offset: 90813},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 20, offset: 90630},
+																													pos:        position{line: 2873, col: 20, offset: 90820},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2869, col: 29, offset: 90639},
+																													pos:        position{line: 2873, col: 29, offset: 90829},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33583,9 +34149,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2879, col: 8, offset: 90799},
+																										pos: position{line: 2883, col: 8, offset: 90989},
 																										expr: &anyMatcher{
-																											line: 2879, col: 9, offset: 90800,
+																											line: 2883, col: 9, offset: 90990,
 																										},
 																									},
 																								},
@@ -33594,39 +34160,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1017, col: 5, offset: 31493},
+																		pos:   position{line: 1021, col: 5, offset: 31683},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement972,
+																			run: (*parser).callonListContinuationElement1032,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2877, col: 11, offset: 90785},
+																						pos: position{line: 2881, col: 11, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2877, col: 13, offset: 90787,
+																							line: 2881, col: 13, offset: 90977,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2806, col: 13, offset: 88977},
-																							run: (*parser).callonListContinuationElement977,
+																							pos: position{line: 2810, col: 13, offset: 89167},
+																							run: (*parser).callonListContinuationElement1037,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2806, col: 13, offset: 88977},
+																								pos: position{line: 2810, col: 13, offset: 89167},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2806, col: 13, offset: 88977},
+																									pos:        position{line: 2810, col: 13, offset: 89167},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33636,28 +34202,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2882, col: 8, offset: 90849},
+																						pos: position{line: 2886, col: 8, offset: 91039},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2869, col: 12, offset: 90622},
-																								run: (*parser).callonListContinuationElement981,
+																								pos: position{line: 2873, col: 12, offset: 90812},
+																								run: (*parser).callonListContinuationElement1041,
 																								expr: &choiceExpr{
-																									pos: position{line: 2869, col: 13, offset: 90623},
+																									pos: position{line: 2873, col: 13, offset: 90813},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90623},
+																											pos:        position{line: 2873, col: 13, offset: 90813},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 20, offset: 90630},
+																											pos:        position{line: 2873, col: 20, offset: 90820},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 29, offset: 90639},
+																											pos:        position{line: 2873, col: 29, offset: 90829},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33666,9 +34232,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
+																								pos: position{line: 2883, col: 8, offset: 90989},
 																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																									line: 2883, col: 9, offset: 90990,
 																								},
 																							},
 																						},
@@ -33683,16 +34249,16 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1007, col: 5, offset: 31228},
+													pos:   position{line: 1011, col: 5, offset: 31418},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1007, col: 9, offset: 31232},
+														pos: position{line: 1011, col: 9, offset: 31422},
 														expr: &choiceExpr{
-															pos: position{line: 1013, col: 26, offset: 31414},
+															pos: position{line: 1017, col: 26, offset: 31604},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 776, col: 5, offset: 24861},
-																	run: (*parser).callonListContinuationElement991,
+																	run: (*parser).callonListContinuationElement1051,
 																	expr: &seqExpr{
 																		pos: position{line: 776, col: 5, offset: 24861},
 																		exprs: []interface{}{
@@ -33701,7 +34267,7 @@ var g = &grammar{
 																				label: "delimiter",
 																				expr: &actionExpr{
 																					pos: position{line: 776, col: 16, offset: 24872},
-																					run: (*parser).callonListContinuationElement994,
+																					run: (*parser).callonListContinuationElement1054,
 																					expr: &litMatcher{
 																						pos:        position{line: 776, col: 16, offset: 24872},
 																						val:        "--",
@@ -33713,10 +34279,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 778, col: 8, offset: 24949},
 																				expr: &actionExpr{
-																					pos: position{line: 2860, col: 10, offset: 90451},
-																					run: (*parser).callonListContinuationElement997,
+																					pos: position{line: 2864, col: 10, offset: 90641},
+																					run: (*parser).callonListContinuationElement1057,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2860, col: 10, offset: 90451},
+																						pos:        position{line: 2864, col: 10, offset: 90641},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -33725,28 +34291,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2882, col: 8, offset: 90849},
+																				pos: position{line: 2886, col: 8, offset: 91039},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2869, col: 12, offset: 90622},
-																						run: (*parser).callonListContinuationElement1000,
+																						pos: position{line: 2873, col: 12, offset: 90812},
+																						run: (*parser).callonListContinuationElement1060,
 																						expr: &choiceExpr{
-																							pos: position{line: 2869, col: 13, offset: 90623},
+																							pos: position{line: 2873, col: 13, offset: 90813},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2869, col: 13, offset: 90623},
+																									pos:        position{line: 2873, col: 13, offset: 90813},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2869, col: 20, offset: 90630},
+																									pos:        position{line: 2873, col: 20, offset: 90820},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2869, col: 29, offset: 90639},
+																									pos:        position{line: 2873, col: 29, offset: 90829},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33755,9 +34321,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2879, col: 8, offset: 90799},
+																						pos: position{line: 2883, col: 8, offset: 90989},
 																						expr: &anyMatcher{
-																							line: 2879, col: 9, offset: 90800,
+																							line: 2883, col: 9, offset: 90990,
 																						},
 																					},
 																				},
@@ -33766,9 +34332,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2879, col: 8, offset: 90799},
+																	pos: position{line: 2883, col: 8, offset: 90989},
 																	expr: &anyMatcher{
-																		line: 2879, col: 9, offset: 90800,
+																		line: 2883, col: 9, offset: 90990,
 																	},
 																},
 															},
@@ -33779,17 +34345,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1025, col: 5, offset: 31656},
-										run: (*parser).callonListContinuationElement1009,
+										pos: position{line: 1029, col: 5, offset: 31846},
+										run: (*parser).callonListContinuationElement1069,
 										expr: &seqExpr{
-											pos: position{line: 1025, col: 5, offset: 31656},
+											pos: position{line: 1029, col: 5, offset: 31846},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1025, col: 5, offset: 31656},
+													pos:   position{line: 1029, col: 5, offset: 31846},
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 790, col: 5, offset: 25344},
-														run: (*parser).callonListContinuationElement1012,
+														run: (*parser).callonListContinuationElement1072,
 														expr: &seqExpr{
 															pos: position{line: 790, col: 5, offset: 25344},
 															exprs: []interface{}{
@@ -33798,7 +34364,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 790, col: 16, offset: 25355},
-																		run: (*parser).callonListContinuationElement1015,
+																		run: (*parser).callonListContinuationElement1075,
 																		expr: &seqExpr{
 																			pos: position{line: 790, col: 16, offset: 25355},
 																			exprs: []interface{}{
@@ -33824,10 +34390,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 792, col: 8, offset: 25446},
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 10, offset: 90451},
-																		run: (*parser).callonListContinuationElement1021,
+																		pos: position{line: 2864, col: 10, offset: 90641},
+																		run: (*parser).callonListContinuationElement1081,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			pos:        position{line: 2864, col: 10, offset: 90641},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33836,28 +34402,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
-																			run: (*parser).callonListContinuationElement1024,
+																			pos: position{line: 2873, col: 12, offset: 90812},
+																			run: (*parser).callonListContinuationElement1084,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33866,9 +34432,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -33878,34 +34444,34 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1026, col: 5, offset: 31699},
-													run: (*parser).callonListContinuationElement1031,
+													pos: position{line: 1030, col: 5, offset: 31889},
+													run: (*parser).callonListContinuationElement1091,
 												},
 												&labeledExpr{
-													pos:   position{line: 1029, col: 5, offset: 31791},
+													pos:   position{line: 1033, col: 5, offset: 31981},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1044, col: 5, offset: 32221},
+														pos: position{line: 1048, col: 5, offset: 32411},
 														expr: &actionExpr{
-															pos: position{line: 1044, col: 6, offset: 32222},
-															run: (*parser).callonListContinuationElement1034,
+															pos: position{line: 1048, col: 6, offset: 32412},
+															run: (*parser).callonListContinuationElement1094,
 															expr: &seqExpr{
-																pos: position{line: 1044, col: 6, offset: 32222},
+																pos: position{line: 1048, col: 6, offset: 32412},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1044, col: 6, offset: 32222},
+																		pos: position{line: 1048, col: 6, offset: 32412},
 																		expr: &choiceExpr{
-																			pos: position{line: 1037, col: 5, offset: 32055},
+																			pos: position{line: 1041, col: 5, offset: 32245},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1037, col: 5, offset: 32055},
+																					pos: position{line: 1041, col: 5, offset: 32245},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1037, col: 5, offset: 32055},
+																							pos:   position{line: 1041, col: 5, offset: 32245},
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 790, col: 5, offset: 25344},
-																								run: (*parser).callonListContinuationElement1040,
+																								run: (*parser).callonListContinuationElement1100,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 5, offset: 25344},
 																									exprs: []interface{}{
@@ -33914,7 +34480,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 790, col: 16, offset: 25355},
-																												run: (*parser).callonListContinuationElement1043,
+																												run: (*parser).callonListContinuationElement1103,
 																												expr: &seqExpr{
 																													pos: position{line: 790, col: 16, offset: 25355},
 																													exprs: []interface{}{
@@ -33940,10 +34506,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25446},
 																											expr: &actionExpr{
-																												pos: position{line: 2860, col: 10, offset: 90451},
-																												run: (*parser).callonListContinuationElement1049,
+																												pos: position{line: 2864, col: 10, offset: 90641},
+																												run: (*parser).callonListContinuationElement1109,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2860, col: 10, offset: 90451},
+																													pos:        position{line: 2864, col: 10, offset: 90641},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33952,28 +34518,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2882, col: 8, offset: 90849},
+																											pos: position{line: 2886, col: 8, offset: 91039},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2869, col: 12, offset: 90622},
-																													run: (*parser).callonListContinuationElement1052,
+																													pos: position{line: 2873, col: 12, offset: 90812},
+																													run: (*parser).callonListContinuationElement1112,
 																													expr: &choiceExpr{
-																														pos: position{line: 2869, col: 13, offset: 90623},
+																														pos: position{line: 2873, col: 13, offset: 90813},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																pos:        position{line: 2873, col: 13, offset: 90813},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																pos:        position{line: 2873, col: 20, offset: 90820},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																pos:        position{line: 2873, col: 29, offset: 90829},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33982,9 +34548,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2879, col: 8, offset: 90799},
+																													pos: position{line: 2883, col: 8, offset: 90989},
 																													expr: &anyMatcher{
-																														line: 2879, col: 9, offset: 90800,
+																														line: 2883, col: 9, offset: 90990,
 																													},
 																												},
 																											},
@@ -33994,45 +34560,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1038, col: 5, offset: 32090},
-																							run: (*parser).callonListContinuationElement1059,
+																							pos: position{line: 1042, col: 5, offset: 32280},
+																							run: (*parser).callonListContinuationElement1119,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1045, col: 5, offset: 32256},
+																		pos:   position{line: 1049, col: 5, offset: 32446},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement1063,
+																			run: (*parser).callonListContinuationElement1123,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2877, col: 11, offset: 90785},
+																						pos: position{line: 2881, col: 11, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2877, col: 13, offset: 90787,
+																							line: 2881, col: 13, offset: 90977,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2806, col: 13, offset: 88977},
-																							run: (*parser).callonListContinuationElement1068,
+																							pos: position{line: 2810, col: 13, offset: 89167},
+																							run: (*parser).callonListContinuationElement1128,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2806, col: 13, offset: 88977},
+																								pos: position{line: 2810, col: 13, offset: 89167},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2806, col: 13, offset: 88977},
+																									pos:        position{line: 2810, col: 13, offset: 89167},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34042,28 +34608,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2882, col: 8, offset: 90849},
+																						pos: position{line: 2886, col: 8, offset: 91039},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2869, col: 12, offset: 90622},
-																								run: (*parser).callonListContinuationElement1072,
+																								pos: position{line: 2873, col: 12, offset: 90812},
+																								run: (*parser).callonListContinuationElement1132,
 																								expr: &choiceExpr{
-																									pos: position{line: 2869, col: 13, offset: 90623},
+																									pos: position{line: 2873, col: 13, offset: 90813},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90623},
+																											pos:        position{line: 2873, col: 13, offset: 90813},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 20, offset: 90630},
+																											pos:        position{line: 2873, col: 20, offset: 90820},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 29, offset: 90639},
+																											pos:        position{line: 2873, col: 29, offset: 90829},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34072,9 +34638,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
+																								pos: position{line: 2883, col: 8, offset: 90989},
 																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																									line: 2883, col: 9, offset: 90990,
 																								},
 																							},
 																						},
@@ -34089,22 +34655,22 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1030, col: 5, offset: 31829},
+													pos:   position{line: 1034, col: 5, offset: 32019},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1030, col: 9, offset: 31833},
+														pos: position{line: 1034, col: 9, offset: 32023},
 														expr: &choiceExpr{
-															pos: position{line: 1037, col: 5, offset: 32055},
+															pos: position{line: 1041, col: 5, offset: 32245},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1037, col: 5, offset: 32055},
+																	pos: position{line: 1041, col: 5, offset: 32245},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1037, col: 5, offset: 32055},
+																			pos:   position{line: 1041, col: 5, offset: 32245},
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 790, col: 5, offset: 25344},
-																				run: (*parser).callonListContinuationElement1084,
+																				run: (*parser).callonListContinuationElement1144,
 																				expr: &seqExpr{
 																					pos: position{line: 790, col: 5, offset: 25344},
 																					exprs: []interface{}{
@@ -34113,7 +34679,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 790, col: 16, offset: 25355},
-																								run: (*parser).callonListContinuationElement1087,
+																								run: (*parser).callonListContinuationElement1147,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 16, offset: 25355},
 																									exprs: []interface{}{
@@ -34139,10 +34705,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25446},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
-																								run: (*parser).callonListContinuationElement1093,
+																								pos: position{line: 2864, col: 10, offset: 90641},
+																								run: (*parser).callonListContinuationElement1153,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34151,28 +34717,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
-																									run: (*parser).callonListContinuationElement1096,
+																									pos: position{line: 2873, col: 12, offset: 90812},
+																									run: (*parser).callonListContinuationElement1156,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34181,9 +34747,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -34193,15 +34759,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1038, col: 5, offset: 32090},
-																			run: (*parser).callonListContinuationElement1103,
+																			pos: position{line: 1042, col: 5, offset: 32280},
+																			run: (*parser).callonListContinuationElement1163,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2879, col: 8, offset: 90799},
+																	pos: position{line: 2883, col: 8, offset: 90989},
 																	expr: &anyMatcher{
-																		line: 2879, col: 9, offset: 90800,
+																		line: 2883, col: 9, offset: 90990,
 																	},
 																},
 															},
@@ -34212,17 +34778,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1053, col: 5, offset: 32407},
-										run: (*parser).callonListContinuationElement1106,
+										pos: position{line: 1057, col: 5, offset: 32597},
+										run: (*parser).callonListContinuationElement1166,
 										expr: &seqExpr{
-											pos: position{line: 1053, col: 5, offset: 32407},
+											pos: position{line: 1057, col: 5, offset: 32597},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1053, col: 5, offset: 32407},
+													pos:   position{line: 1057, col: 5, offset: 32597},
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 797, col: 5, offset: 25594},
-														run: (*parser).callonListContinuationElement1109,
+														run: (*parser).callonListContinuationElement1169,
 														expr: &seqExpr{
 															pos: position{line: 797, col: 5, offset: 25594},
 															exprs: []interface{}{
@@ -34231,7 +34797,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 797, col: 16, offset: 25605},
-																		run: (*parser).callonListContinuationElement1112,
+																		run: (*parser).callonListContinuationElement1172,
 																		expr: &seqExpr{
 																			pos: position{line: 797, col: 16, offset: 25605},
 																			exprs: []interface{}{
@@ -34257,10 +34823,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 799, col: 8, offset: 25696},
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 10, offset: 90451},
-																		run: (*parser).callonListContinuationElement1118,
+																		pos: position{line: 2864, col: 10, offset: 90641},
+																		run: (*parser).callonListContinuationElement1178,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			pos:        position{line: 2864, col: 10, offset: 90641},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34269,28 +34835,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
-																			run: (*parser).callonListContinuationElement1121,
+																			pos: position{line: 2873, col: 12, offset: 90812},
+																			run: (*parser).callonListContinuationElement1181,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34299,9 +34865,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -34311,34 +34877,34 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1054, col: 5, offset: 32444},
-													run: (*parser).callonListContinuationElement1128,
+													pos: position{line: 1058, col: 5, offset: 32634},
+													run: (*parser).callonListContinuationElement1188,
 												},
 												&labeledExpr{
-													pos:   position{line: 1057, col: 5, offset: 32536},
+													pos:   position{line: 1061, col: 5, offset: 32726},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1072, col: 4, offset: 32917},
+														pos: position{line: 1076, col: 4, offset: 33107},
 														expr: &actionExpr{
-															pos: position{line: 1072, col: 5, offset: 32918},
-															run: (*parser).callonListContinuationElement1131,
+															pos: position{line: 1076, col: 5, offset: 33108},
+															run: (*parser).callonListContinuationElement1191,
 															expr: &seqExpr{
-																pos: position{line: 1072, col: 5, offset: 32918},
+																pos: position{line: 1076, col: 5, offset: 33108},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1072, col: 5, offset: 32918},
+																		pos: position{line: 1076, col: 5, offset: 33108},
 																		expr: &choiceExpr{
-																			pos: position{line: 1065, col: 5, offset: 32764},
+																			pos: position{line: 1069, col: 5, offset: 32954},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1065, col: 5, offset: 32764},
+																					pos: position{line: 1069, col: 5, offset: 32954},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1065, col: 5, offset: 32764},
+																							pos:   position{line: 1069, col: 5, offset: 32954},
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 797, col: 5, offset: 25594},
-																								run: (*parser).callonListContinuationElement1137,
+																								run: (*parser).callonListContinuationElement1197,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 5, offset: 25594},
 																									exprs: []interface{}{
@@ -34347,7 +34913,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 797, col: 16, offset: 25605},
-																												run: (*parser).callonListContinuationElement1140,
+																												run: (*parser).callonListContinuationElement1200,
 																												expr: &seqExpr{
 																													pos: position{line: 797, col: 16, offset: 25605},
 																													exprs: []interface{}{
@@ -34373,10 +34939,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25696},
 																											expr: &actionExpr{
-																												pos: position{line: 2860, col: 10, offset: 90451},
-																												run: (*parser).callonListContinuationElement1146,
+																												pos: position{line: 2864, col: 10, offset: 90641},
+																												run: (*parser).callonListContinuationElement1206,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2860, col: 10, offset: 90451},
+																													pos:        position{line: 2864, col: 10, offset: 90641},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34385,28 +34951,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2882, col: 8, offset: 90849},
+																											pos: position{line: 2886, col: 8, offset: 91039},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2869, col: 12, offset: 90622},
-																													run: (*parser).callonListContinuationElement1149,
+																													pos: position{line: 2873, col: 12, offset: 90812},
+																													run: (*parser).callonListContinuationElement1209,
 																													expr: &choiceExpr{
-																														pos: position{line: 2869, col: 13, offset: 90623},
+																														pos: position{line: 2873, col: 13, offset: 90813},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																pos:        position{line: 2873, col: 13, offset: 90813},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																pos:        position{line: 2873, col: 20, offset: 90820},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																pos:        position{line: 2873, col: 29, offset: 90829},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34415,9 +34981,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2879, col: 8, offset: 90799},
+																													pos: position{line: 2883, col: 8, offset: 90989},
 																													expr: &anyMatcher{
-																														line: 2879, col: 9, offset: 90800,
+																														line: 2883, col: 9, offset: 90990,
 																													},
 																												},
 																											},
@@ -34427,45 +34993,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1066, col: 5, offset: 32793},
-																							run: (*parser).callonListContinuationElement1156,
+																							pos: position{line: 1070, col: 5, offset: 32983},
+																							run: (*parser).callonListContinuationElement1216,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1073, col: 5, offset: 32946},
+																		pos:   position{line: 1077, col: 5, offset: 33136},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement1160,
+																			run: (*parser).callonListContinuationElement1220,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2877, col: 11, offset: 90785},
+																						pos: position{line: 2881, col: 11, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2877, col: 13, offset: 90787,
+																							line: 2881, col: 13, offset: 90977,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2806, col: 13, offset: 88977},
-																							run: (*parser).callonListContinuationElement1165,
+																							pos: position{line: 2810, col: 13, offset: 89167},
+																							run: (*parser).callonListContinuationElement1225,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2806, col: 13, offset: 88977},
+																								pos: position{line: 2810, col: 13, offset: 89167},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2806, col: 13, offset: 88977},
+																									pos:        position{line: 2810, col: 13, offset: 89167},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34475,28 +35041,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2882, col: 8, offset: 90849},
+																						pos: position{line: 2886, col: 8, offset: 91039},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2869, col: 12, offset: 90622},
-																								run: (*parser).callonListContinuationElement1169,
+																								pos: position{line: 2873, col: 12, offset: 90812},
+																								run: (*parser).callonListContinuationElement1229,
 																								expr: &choiceExpr{
-																									pos: position{line: 2869, col: 13, offset: 90623},
+																									pos: position{line: 2873, col: 13, offset: 90813},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90623},
+																											pos:        position{line: 2873, col: 13, offset: 90813},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 20, offset: 90630},
+																											pos:        position{line: 2873, col: 20, offset: 90820},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 29, offset: 90639},
+																											pos:        position{line: 2873, col: 29, offset: 90829},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34505,9 +35071,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
+																								pos: position{line: 2883, col: 8, offset: 90989},
 																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																									line: 2883, col: 9, offset: 90990,
 																								},
 																							},
 																						},
@@ -34522,22 +35088,22 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1058, col: 5, offset: 32568},
+													pos:   position{line: 1062, col: 5, offset: 32758},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1058, col: 9, offset: 32572},
+														pos: position{line: 1062, col: 9, offset: 32762},
 														expr: &choiceExpr{
-															pos: position{line: 1065, col: 5, offset: 32764},
+															pos: position{line: 1069, col: 5, offset: 32954},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1065, col: 5, offset: 32764},
+																	pos: position{line: 1069, col: 5, offset: 32954},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1065, col: 5, offset: 32764},
+																			pos:   position{line: 1069, col: 5, offset: 32954},
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 797, col: 5, offset: 25594},
-																				run: (*parser).callonListContinuationElement1181,
+																				run: (*parser).callonListContinuationElement1241,
 																				expr: &seqExpr{
 																					pos: position{line: 797, col: 5, offset: 25594},
 																					exprs: []interface{}{
@@ -34546,7 +35112,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 797, col: 16, offset: 25605},
-																								run: (*parser).callonListContinuationElement1184,
+																								run: (*parser).callonListContinuationElement1244,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 16, offset: 25605},
 																									exprs: []interface{}{
@@ -34572,10 +35138,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25696},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
-																								run: (*parser).callonListContinuationElement1190,
+																								pos: position{line: 2864, col: 10, offset: 90641},
+																								run: (*parser).callonListContinuationElement1250,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34584,28 +35150,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
-																									run: (*parser).callonListContinuationElement1193,
+																									pos: position{line: 2873, col: 12, offset: 90812},
+																									run: (*parser).callonListContinuationElement1253,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34614,9 +35180,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -34626,15 +35192,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1066, col: 5, offset: 32793},
-																			run: (*parser).callonListContinuationElement1200,
+																			pos: position{line: 1070, col: 5, offset: 32983},
+																			run: (*parser).callonListContinuationElement1260,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2879, col: 8, offset: 90799},
+																	pos: position{line: 2883, col: 8, offset: 90989},
 																	expr: &anyMatcher{
-																		line: 2879, col: 9, offset: 90800,
+																		line: 2883, col: 9, offset: 90990,
 																	},
 																},
 															},
@@ -34645,17 +35211,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1081, col: 5, offset: 33101},
-										run: (*parser).callonListContinuationElement1203,
+										pos: position{line: 1085, col: 5, offset: 33291},
+										run: (*parser).callonListContinuationElement1263,
 										expr: &seqExpr{
-											pos: position{line: 1081, col: 5, offset: 33101},
+											pos: position{line: 1085, col: 5, offset: 33291},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1081, col: 5, offset: 33101},
+													pos:   position{line: 1085, col: 5, offset: 33291},
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 804, col: 5, offset: 25840},
-														run: (*parser).callonListContinuationElement1206,
+														run: (*parser).callonListContinuationElement1266,
 														expr: &seqExpr{
 															pos: position{line: 804, col: 5, offset: 25840},
 															exprs: []interface{}{
@@ -34664,7 +35230,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 804, col: 16, offset: 25851},
-																		run: (*parser).callonListContinuationElement1209,
+																		run: (*parser).callonListContinuationElement1269,
 																		expr: &seqExpr{
 																			pos: position{line: 804, col: 16, offset: 25851},
 																			exprs: []interface{}{
@@ -34690,10 +35256,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 806, col: 8, offset: 25942},
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 10, offset: 90451},
-																		run: (*parser).callonListContinuationElement1215,
+																		pos: position{line: 2864, col: 10, offset: 90641},
+																		run: (*parser).callonListContinuationElement1275,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			pos:        position{line: 2864, col: 10, offset: 90641},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34702,28 +35268,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
-																			run: (*parser).callonListContinuationElement1218,
+																			pos: position{line: 2873, col: 12, offset: 90812},
+																			run: (*parser).callonListContinuationElement1278,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34732,9 +35298,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -34744,34 +35310,34 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1082, col: 5, offset: 33140},
-													run: (*parser).callonListContinuationElement1225,
+													pos: position{line: 1086, col: 5, offset: 33330},
+													run: (*parser).callonListContinuationElement1285,
 												},
 												&labeledExpr{
-													pos:   position{line: 1085, col: 5, offset: 33232},
+													pos:   position{line: 1089, col: 5, offset: 33422},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1100, col: 4, offset: 33629},
+														pos: position{line: 1104, col: 4, offset: 33819},
 														expr: &actionExpr{
-															pos: position{line: 1100, col: 5, offset: 33630},
-															run: (*parser).callonListContinuationElement1228,
+															pos: position{line: 1104, col: 5, offset: 33820},
+															run: (*parser).callonListContinuationElement1288,
 															expr: &seqExpr{
-																pos: position{line: 1100, col: 5, offset: 33630},
+																pos: position{line: 1104, col: 5, offset: 33820},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1100, col: 5, offset: 33630},
+																		pos: position{line: 1104, col: 5, offset: 33820},
 																		expr: &choiceExpr{
-																			pos: position{line: 1093, col: 5, offset: 33472},
+																			pos: position{line: 1097, col: 5, offset: 33662},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1093, col: 5, offset: 33472},
+																					pos: position{line: 1097, col: 5, offset: 33662},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1093, col: 5, offset: 33472},
+																							pos:   position{line: 1097, col: 5, offset: 33662},
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 804, col: 5, offset: 25840},
-																								run: (*parser).callonListContinuationElement1234,
+																								run: (*parser).callonListContinuationElement1294,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 5, offset: 25840},
 																									exprs: []interface{}{
@@ -34780,7 +35346,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 804, col: 16, offset: 25851},
-																												run: (*parser).callonListContinuationElement1237,
+																												run: (*parser).callonListContinuationElement1297,
 																												expr: &seqExpr{
 																													pos: position{line: 804, col: 16, offset: 25851},
 																													exprs: []interface{}{
@@ -34806,10 +35372,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25942},
 																											expr: &actionExpr{
-																												pos: position{line: 2860, col: 10, offset: 90451},
-																												run: (*parser).callonListContinuationElement1243,
+																												pos: position{line: 2864, col: 10, offset: 90641},
+																												run: (*parser).callonListContinuationElement1303,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2860, col: 10, offset: 90451},
+																													pos:        position{line: 2864, col: 10, offset: 90641},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34818,28 +35384,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2882, col: 8, offset: 90849},
+																											pos: position{line: 2886, col: 8, offset: 91039},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2869, col: 12, offset: 90622},
-																													run: (*parser).callonListContinuationElement1246,
+																													pos: position{line: 2873, col: 12, offset: 90812},
+																													run: (*parser).callonListContinuationElement1306,
 																													expr: &choiceExpr{
-																														pos: position{line: 2869, col: 13, offset: 90623},
+																														pos: position{line: 2873, col: 13, offset: 90813},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																pos:        position{line: 2873, col: 13, offset: 90813},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																pos:        position{line: 2873, col: 20, offset: 90820},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																pos:        position{line: 2873, col: 29, offset: 90829},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34848,9 +35414,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2879, col: 8, offset: 90799},
+																													pos: position{line: 2883, col: 8, offset: 90989},
 																													expr: &anyMatcher{
-																														line: 2879, col: 9, offset: 90800,
+																														line: 2883, col: 9, offset: 90990,
 																													},
 																												},
 																											},
@@ -34860,45 +35426,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1094, col: 5, offset: 33503},
-																							run: (*parser).callonListContinuationElement1253,
+																							pos: position{line: 1098, col: 5, offset: 33693},
+																							run: (*parser).callonListContinuationElement1313,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1101, col: 5, offset: 33660},
+																		pos:   position{line: 1105, col: 5, offset: 33850},
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement1257,
+																			run: (*parser).callonListContinuationElement1317,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2877, col: 11, offset: 90785},
+																						pos: position{line: 2881, col: 11, offset: 90975},
 																						expr: &anyMatcher{
-																							line: 2877, col: 13, offset: 90787,
+																							line: 2881, col: 13, offset: 90977,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2806, col: 13, offset: 88977},
-																							run: (*parser).callonListContinuationElement1262,
+																							pos: position{line: 2810, col: 13, offset: 89167},
+																							run: (*parser).callonListContinuationElement1322,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2806, col: 13, offset: 88977},
+																								pos: position{line: 2810, col: 13, offset: 89167},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2806, col: 13, offset: 88977},
+																									pos:        position{line: 2810, col: 13, offset: 89167},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34908,28 +35474,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2882, col: 8, offset: 90849},
+																						pos: position{line: 2886, col: 8, offset: 91039},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2869, col: 12, offset: 90622},
-																								run: (*parser).callonListContinuationElement1266,
+																								pos: position{line: 2873, col: 12, offset: 90812},
+																								run: (*parser).callonListContinuationElement1326,
 																								expr: &choiceExpr{
-																									pos: position{line: 2869, col: 13, offset: 90623},
+																									pos: position{line: 2873, col: 13, offset: 90813},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90623},
+																											pos:        position{line: 2873, col: 13, offset: 90813},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 20, offset: 90630},
+																											pos:        position{line: 2873, col: 20, offset: 90820},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 29, offset: 90639},
+																											pos:        position{line: 2873, col: 29, offset: 90829},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34938,9 +35504,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
+																								pos: position{line: 2883, col: 8, offset: 90989},
 																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																									line: 2883, col: 9, offset: 90990,
 																								},
 																							},
 																						},
@@ -34955,22 +35521,22 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1086, col: 5, offset: 33266},
+													pos:   position{line: 1090, col: 5, offset: 33456},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1086, col: 9, offset: 33270},
+														pos: position{line: 1090, col: 9, offset: 33460},
 														expr: &choiceExpr{
-															pos: position{line: 1093, col: 5, offset: 33472},
+															pos: position{line: 1097, col: 5, offset: 33662},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1093, col: 5, offset: 33472},
+																	pos: position{line: 1097, col: 5, offset: 33662},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1093, col: 5, offset: 33472},
+																			pos:   position{line: 1097, col: 5, offset: 33662},
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 804, col: 5, offset: 25840},
-																				run: (*parser).callonListContinuationElement1278,
+																				run: (*parser).callonListContinuationElement1338,
 																				expr: &seqExpr{
 																					pos: position{line: 804, col: 5, offset: 25840},
 																					exprs: []interface{}{
@@ -34979,7 +35545,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 804, col: 16, offset: 25851},
-																								run: (*parser).callonListContinuationElement1281,
+																								run: (*parser).callonListContinuationElement1341,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 16, offset: 25851},
 																									exprs: []interface{}{
@@ -35005,10 +35571,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25942},
 																							expr: &actionExpr{
-																								pos: position{line: 2860, col: 10, offset: 90451},
-																								run: (*parser).callonListContinuationElement1287,
+																								pos: position{line: 2864, col: 10, offset: 90641},
+																								run: (*parser).callonListContinuationElement1347,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2860, col: 10, offset: 90451},
+																									pos:        position{line: 2864, col: 10, offset: 90641},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35017,28 +35583,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2882, col: 8, offset: 90849},
+																							pos: position{line: 2886, col: 8, offset: 91039},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 12, offset: 90622},
-																									run: (*parser).callonListContinuationElement1290,
+																									pos: position{line: 2873, col: 12, offset: 90812},
+																									run: (*parser).callonListContinuationElement1350,
 																									expr: &choiceExpr{
-																										pos: position{line: 2869, col: 13, offset: 90623},
+																										pos: position{line: 2873, col: 13, offset: 90813},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 13, offset: 90623},
+																												pos:        position{line: 2873, col: 13, offset: 90813},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 20, offset: 90630},
+																												pos:        position{line: 2873, col: 20, offset: 90820},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2869, col: 29, offset: 90639},
+																												pos:        position{line: 2873, col: 29, offset: 90829},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35047,9 +35613,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2879, col: 8, offset: 90799},
+																									pos: position{line: 2883, col: 8, offset: 90989},
 																									expr: &anyMatcher{
-																										line: 2879, col: 9, offset: 90800,
+																										line: 2883, col: 9, offset: 90990,
 																									},
 																								},
 																							},
@@ -35059,15 +35625,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1094, col: 5, offset: 33503},
-																			run: (*parser).callonListContinuationElement1297,
+																			pos: position{line: 1098, col: 5, offset: 33693},
+																			run: (*parser).callonListContinuationElement1357,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2879, col: 8, offset: 90799},
+																	pos: position{line: 2883, col: 8, offset: 90989},
 																	expr: &anyMatcher{
-																		line: 2879, col: 9, offset: 90800,
+																		line: 2883, col: 9, offset: 90990,
 																	},
 																},
 															},
@@ -35078,52 +35644,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2705, col: 18, offset: 86041},
-										run: (*parser).callonListContinuationElement1300,
+										pos: position{line: 2709, col: 18, offset: 86231},
+										run: (*parser).callonListContinuationElement1360,
 										expr: &seqExpr{
-											pos: position{line: 2705, col: 18, offset: 86041},
+											pos: position{line: 2709, col: 18, offset: 86231},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2706, col: 9, offset: 86051},
+													pos: position{line: 2710, col: 9, offset: 86241},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2706, col: 9, offset: 86051},
+															pos:        position{line: 2710, col: 9, offset: 86241},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2707, col: 11, offset: 86087},
+															pos:        position{line: 2711, col: 11, offset: 86277},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2707, col: 19, offset: 86095},
+															pos:        position{line: 2711, col: 19, offset: 86285},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2707, col: 29, offset: 86105},
+															pos:        position{line: 2711, col: 29, offset: 86295},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2707, col: 37, offset: 86113},
+															pos:        position{line: 2711, col: 37, offset: 86303},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2707, col: 47, offset: 86123},
+															pos:        position{line: 2711, col: 47, offset: 86313},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2707, col: 55, offset: 86131},
+															pos:        position{line: 2711, col: 55, offset: 86321},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35131,12 +35697,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2708, col: 11, offset: 86189},
+													pos: position{line: 2712, col: 11, offset: 86379},
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 10, offset: 90451},
-														run: (*parser).callonListContinuationElement1311,
+														pos: position{line: 2864, col: 10, offset: 90641},
+														run: (*parser).callonListContinuationElement1371,
 														expr: &charClassMatcher{
-															pos:        position{line: 2860, col: 10, offset: 90451},
+															pos:        position{line: 2864, col: 10, offset: 90641},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35145,28 +35711,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2882, col: 8, offset: 90849},
+													pos: position{line: 2886, col: 8, offset: 91039},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2869, col: 12, offset: 90622},
-															run: (*parser).callonListContinuationElement1314,
+															pos: position{line: 2873, col: 12, offset: 90812},
+															run: (*parser).callonListContinuationElement1374,
 															expr: &choiceExpr{
-																pos: position{line: 2869, col: 13, offset: 90623},
+																pos: position{line: 2873, col: 13, offset: 90813},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 13, offset: 90623},
+																		pos:        position{line: 2873, col: 13, offset: 90813},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 20, offset: 90630},
+																		pos:        position{line: 2873, col: 20, offset: 90820},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 29, offset: 90639},
+																		pos:        position{line: 2873, col: 29, offset: 90829},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35175,36 +35741,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2879, col: 8, offset: 90799},
+															pos: position{line: 2883, col: 8, offset: 90989},
 															expr: &anyMatcher{
-																line: 2879, col: 9, offset: 90800,
+																line: 2883, col: 9, offset: 90990,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2882, col: 8, offset: 90849},
+													pos: position{line: 2886, col: 8, offset: 91039},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2869, col: 12, offset: 90622},
-															run: (*parser).callonListContinuationElement1322,
+															pos: position{line: 2873, col: 12, offset: 90812},
+															run: (*parser).callonListContinuationElement1382,
 															expr: &choiceExpr{
-																pos: position{line: 2869, col: 13, offset: 90623},
+																pos: position{line: 2873, col: 13, offset: 90813},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 13, offset: 90623},
+																		pos:        position{line: 2873, col: 13, offset: 90813},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 20, offset: 90630},
+																		pos:        position{line: 2873, col: 20, offset: 90820},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 29, offset: 90639},
+																		pos:        position{line: 2873, col: 29, offset: 90829},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35213,9 +35779,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2879, col: 8, offset: 90799},
+															pos: position{line: 2883, col: 8, offset: 90989},
 															expr: &anyMatcher{
-																line: 2879, col: 9, offset: 90800,
+																line: 2883, col: 9, offset: 90990,
 															},
 														},
 													},
@@ -35224,28 +35790,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1556, col: 11, offset: 50198},
+										pos:  position{line: 1560, col: 11, offset: 50388},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2596, col: 5, offset: 82977},
-										run: (*parser).callonListContinuationElement1330,
+										pos: position{line: 2600, col: 5, offset: 83167},
+										run: (*parser).callonListContinuationElement1390,
 										expr: &seqExpr{
-											pos: position{line: 2596, col: 5, offset: 82977},
+											pos: position{line: 2600, col: 5, offset: 83167},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2602, col: 19, offset: 83134},
+													pos:        position{line: 2606, col: 19, offset: 83324},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2602, col: 26, offset: 83141},
+													pos: position{line: 2606, col: 26, offset: 83331},
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 10, offset: 90451},
-														run: (*parser).callonListContinuationElement1334,
+														pos: position{line: 2864, col: 10, offset: 90641},
+														run: (*parser).callonListContinuationElement1394,
 														expr: &charClassMatcher{
-															pos:        position{line: 2860, col: 10, offset: 90451},
+															pos:        position{line: 2864, col: 10, offset: 90641},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35254,28 +35820,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2882, col: 8, offset: 90849},
+													pos: position{line: 2886, col: 8, offset: 91039},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2869, col: 12, offset: 90622},
-															run: (*parser).callonListContinuationElement1337,
+															pos: position{line: 2873, col: 12, offset: 90812},
+															run: (*parser).callonListContinuationElement1397,
 															expr: &choiceExpr{
-																pos: position{line: 2869, col: 13, offset: 90623},
+																pos: position{line: 2873, col: 13, offset: 90813},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 13, offset: 90623},
+																		pos:        position{line: 2873, col: 13, offset: 90813},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 20, offset: 90630},
+																		pos:        position{line: 2873, col: 20, offset: 90820},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 29, offset: 90639},
+																		pos:        position{line: 2873, col: 29, offset: 90829},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35284,40 +35850,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2879, col: 8, offset: 90799},
+															pos: position{line: 2883, col: 8, offset: 90989},
 															expr: &anyMatcher{
-																line: 2879, col: 9, offset: 90800,
+																line: 2883, col: 9, offset: 90990,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2597, col: 5, offset: 83001},
+													pos:   position{line: 2601, col: 5, offset: 83191},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2597, col: 11, offset: 83007},
+														pos: position{line: 2601, col: 11, offset: 83197},
 														expr: &choiceExpr{
-															pos: position{line: 2597, col: 12, offset: 83008},
+															pos: position{line: 2601, col: 12, offset: 83198},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 677, col: 14, offset: 21489},
-																	run: (*parser).callonListContinuationElement1347,
+																	run: (*parser).callonListContinuationElement1407,
 																	expr: &seqExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2877, col: 11, offset: 90785},
+																				pos: position{line: 2881, col: 11, offset: 90975},
 																				expr: &anyMatcher{
-																					line: 2877, col: 13, offset: 90787,
+																					line: 2881, col: 13, offset: 90977,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 677, col: 21, offset: 21496},
 																				expr: &actionExpr{
-																					pos: position{line: 2860, col: 10, offset: 90451},
-																					run: (*parser).callonListContinuationElement1352,
+																					pos: position{line: 2864, col: 10, offset: 90641},
+																					run: (*parser).callonListContinuationElement1412,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2860, col: 10, offset: 90451},
+																						pos:        position{line: 2864, col: 10, offset: 90641},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35326,28 +35892,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2882, col: 8, offset: 90849},
+																				pos: position{line: 2886, col: 8, offset: 91039},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2869, col: 12, offset: 90622},
-																						run: (*parser).callonListContinuationElement1355,
+																						pos: position{line: 2873, col: 12, offset: 90812},
+																						run: (*parser).callonListContinuationElement1415,
 																						expr: &choiceExpr{
-																							pos: position{line: 2869, col: 13, offset: 90623},
+																							pos: position{line: 2873, col: 13, offset: 90813},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2869, col: 13, offset: 90623},
+																									pos:        position{line: 2873, col: 13, offset: 90813},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2869, col: 20, offset: 90630},
+																									pos:        position{line: 2873, col: 20, offset: 90820},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2869, col: 29, offset: 90639},
+																									pos:        position{line: 2873, col: 29, offset: 90829},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35356,9 +35922,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2879, col: 8, offset: 90799},
+																						pos: position{line: 2883, col: 8, offset: 90989},
 																						expr: &anyMatcher{
-																							line: 2879, col: 9, offset: 90800,
+																							line: 2883, col: 9, offset: 90990,
 																						},
 																					},
 																				},
@@ -35367,32 +35933,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2609, col: 5, offset: 83253},
-																	run: (*parser).callonListContinuationElement1362,
+																	pos: position{line: 2613, col: 5, offset: 83443},
+																	run: (*parser).callonListContinuationElement1422,
 																	expr: &seqExpr{
-																		pos: position{line: 2609, col: 5, offset: 83253},
+																		pos: position{line: 2613, col: 5, offset: 83443},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2609, col: 5, offset: 83253},
+																				pos: position{line: 2613, col: 5, offset: 83443},
 																				expr: &choiceExpr{
-																					pos: position{line: 2606, col: 22, offset: 83214},
+																					pos: position{line: 2610, col: 22, offset: 83404},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2602, col: 19, offset: 83134},
+																							pos: position{line: 2606, col: 19, offset: 83324},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2602, col: 19, offset: 83134},
+																									pos:        position{line: 2606, col: 19, offset: 83324},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2602, col: 26, offset: 83141},
+																									pos: position{line: 2606, col: 26, offset: 83331},
 																									expr: &actionExpr{
-																										pos: position{line: 2860, col: 10, offset: 90451},
-																										run: (*parser).callonListContinuationElement1369,
+																										pos: position{line: 2864, col: 10, offset: 90641},
+																										run: (*parser).callonListContinuationElement1429,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2860, col: 10, offset: 90451},
+																											pos:        position{line: 2864, col: 10, offset: 90641},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35401,28 +35967,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2882, col: 8, offset: 90849},
+																									pos: position{line: 2886, col: 8, offset: 91039},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2869, col: 12, offset: 90622},
-																											run: (*parser).callonListContinuationElement1372,
+																											pos: position{line: 2873, col: 12, offset: 90812},
+																											run: (*parser).callonListContinuationElement1432,
 																											expr: &choiceExpr{
-																												pos: position{line: 2869, col: 13, offset: 90623},
+																												pos: position{line: 2873, col: 13, offset: 90813},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 13, offset: 90623},
+																														pos:        position{line: 2873, col: 13, offset: 90813},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 20, offset: 90630},
+																														pos:        position{line: 2873, col: 20, offset: 90820},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 29, offset: 90639},
+																														pos:        position{line: 2873, col: 29, offset: 90829},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35431,9 +35997,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2879, col: 8, offset: 90799},
+																											pos: position{line: 2883, col: 8, offset: 90989},
 																											expr: &anyMatcher{
-																												line: 2879, col: 9, offset: 90800,
+																												line: 2883, col: 9, offset: 90990,
 																											},
 																										},
 																									},
@@ -35441,59 +36007,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2879, col: 8, offset: 90799},
+																							pos: position{line: 2883, col: 8, offset: 90989},
 																							expr: &anyMatcher{
-																								line: 2879, col: 9, offset: 90800,
+																								line: 2883, col: 9, offset: 90990,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2610, col: 5, offset: 83276},
+																				pos:   position{line: 2614, col: 5, offset: 83466},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2611, col: 9, offset: 83294},
+																					pos: position{line: 2615, col: 9, offset: 83484},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2611, col: 10, offset: 83295},
-																							run: (*parser).callonListContinuationElement1383,
+																							pos: position{line: 2615, col: 10, offset: 83485},
+																							run: (*parser).callonListContinuationElement1443,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2611, col: 10, offset: 83295},
+																								pos:   position{line: 2615, col: 10, offset: 83485},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2611, col: 17, offset: 83302},
+																									pos: position{line: 2615, col: 17, offset: 83492},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2619, col: 21, offset: 83498},
-																											run: (*parser).callonListContinuationElement1386,
+																											pos: position{line: 2623, col: 21, offset: 83688},
+																											run: (*parser).callonListContinuationElement1446,
 																											expr: &seqExpr{
-																												pos: position{line: 2619, col: 21, offset: 83498},
+																												pos: position{line: 2623, col: 21, offset: 83688},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2619, col: 21, offset: 83498},
+																														pos:   position{line: 2623, col: 21, offset: 83688},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2619, col: 27, offset: 83504},
+																															pos: position{line: 2623, col: 27, offset: 83694},
 																															expr: &actionExpr{
-																																pos: position{line: 2624, col: 5, offset: 83579},
-																																run: (*parser).callonListContinuationElement1390,
+																																pos: position{line: 2628, col: 5, offset: 83769},
+																																run: (*parser).callonListContinuationElement1450,
 																																expr: &seqExpr{
-																																	pos: position{line: 2624, col: 5, offset: 83579},
+																																	pos: position{line: 2628, col: 5, offset: 83769},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2624, col: 5, offset: 83579},
+																																			pos:        position{line: 2628, col: 5, offset: 83769},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2624, col: 9, offset: 83583},
+																																			pos: position{line: 2628, col: 9, offset: 83773},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2860, col: 10, offset: 90451},
-																																				run: (*parser).callonListContinuationElement1394,
+																																				pos: position{line: 2864, col: 10, offset: 90641},
+																																				run: (*parser).callonListContinuationElement1454,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2860, col: 10, offset: 90451},
+																																					pos:        position{line: 2864, col: 10, offset: 90641},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -35502,21 +36068,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2624, col: 16, offset: 83590},
+																																			pos:   position{line: 2628, col: 16, offset: 83780},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2630, col: 5, offset: 83790},
-																																				run: (*parser).callonListContinuationElement1397,
+																																				pos: position{line: 2634, col: 5, offset: 83980},
+																																				run: (*parser).callonListContinuationElement1457,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2630, col: 5, offset: 83790},
+																																					pos:   position{line: 2634, col: 5, offset: 83980},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2630, col: 14, offset: 83799},
-																																						run: (*parser).callonListContinuationElement1399,
+																																						pos: position{line: 2634, col: 14, offset: 83989},
+																																						run: (*parser).callonListContinuationElement1459,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2630, col: 14, offset: 83799},
+																																							pos: position{line: 2634, col: 14, offset: 83989},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2630, col: 14, offset: 83799},
+																																								pos:        position{line: 2634, col: 14, offset: 83989},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -35533,28 +36099,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2882, col: 8, offset: 90849},
+																														pos: position{line: 2886, col: 8, offset: 91039},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2869, col: 12, offset: 90622},
-																																run: (*parser).callonListContinuationElement1403,
+																																pos: position{line: 2873, col: 12, offset: 90812},
+																																run: (*parser).callonListContinuationElement1463,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2869, col: 13, offset: 90623},
+																																	pos: position{line: 2873, col: 13, offset: 90813},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2869, col: 13, offset: 90623},
+																																			pos:        position{line: 2873, col: 13, offset: 90813},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2869, col: 20, offset: 90630},
+																																			pos:        position{line: 2873, col: 20, offset: 90820},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2869, col: 29, offset: 90639},
+																																			pos:        position{line: 2873, col: 29, offset: 90829},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -35563,9 +36129,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2879, col: 8, offset: 90799},
+																																pos: position{line: 2883, col: 8, offset: 90989},
 																																expr: &anyMatcher{
-																																	line: 2879, col: 9, offset: 90800,
+																																	line: 2883, col: 9, offset: 90990,
 																																},
 																															},
 																														},
@@ -35574,40 +36140,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2636, col: 24, offset: 83935},
-																											run: (*parser).callonListContinuationElement1410,
+																											pos: position{line: 2640, col: 24, offset: 84125},
+																											run: (*parser).callonListContinuationElement1470,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2636, col: 24, offset: 83935},
+																												pos:   position{line: 2640, col: 24, offset: 84125},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2636, col: 30, offset: 83941},
+																													pos: position{line: 2640, col: 30, offset: 84131},
 																													expr: &actionExpr{
-																														pos: position{line: 2641, col: 5, offset: 84017},
-																														run: (*parser).callonListContinuationElement1413,
+																														pos: position{line: 2645, col: 5, offset: 84207},
+																														run: (*parser).callonListContinuationElement1473,
 																														expr: &seqExpr{
-																															pos: position{line: 2641, col: 5, offset: 84017},
+																															pos: position{line: 2645, col: 5, offset: 84207},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2641, col: 5, offset: 84017},
+																																	pos: position{line: 2645, col: 5, offset: 84207},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2606, col: 22, offset: 83214},
+																																		pos: position{line: 2610, col: 22, offset: 83404},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2602, col: 19, offset: 83134},
+																																				pos: position{line: 2606, col: 19, offset: 83324},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2602, col: 19, offset: 83134},
+																																						pos:        position{line: 2606, col: 19, offset: 83324},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2602, col: 26, offset: 83141},
+																																						pos: position{line: 2606, col: 26, offset: 83331},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2860, col: 10, offset: 90451},
-																																							run: (*parser).callonListContinuationElement1420,
+																																							pos: position{line: 2864, col: 10, offset: 90641},
+																																							run: (*parser).callonListContinuationElement1480,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2860, col: 10, offset: 90451},
+																																								pos:        position{line: 2864, col: 10, offset: 90641},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -35616,28 +36182,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2882, col: 8, offset: 90849},
+																																						pos: position{line: 2886, col: 8, offset: 91039},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2869, col: 12, offset: 90622},
-																																								run: (*parser).callonListContinuationElement1423,
+																																								pos: position{line: 2873, col: 12, offset: 90812},
+																																								run: (*parser).callonListContinuationElement1483,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2869, col: 13, offset: 90623},
+																																									pos: position{line: 2873, col: 13, offset: 90813},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2869, col: 13, offset: 90623},
+																																											pos:        position{line: 2873, col: 13, offset: 90813},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2869, col: 20, offset: 90630},
+																																											pos:        position{line: 2873, col: 20, offset: 90820},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2869, col: 29, offset: 90639},
+																																											pos:        position{line: 2873, col: 29, offset: 90829},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -35646,9 +36212,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2879, col: 8, offset: 90799},
+																																								pos: position{line: 2883, col: 8, offset: 90989},
 																																								expr: &anyMatcher{
-																																									line: 2879, col: 9, offset: 90800,
+																																									line: 2883, col: 9, offset: 90990,
 																																								},
 																																							},
 																																						},
@@ -35656,35 +36222,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2879, col: 8, offset: 90799},
+																																				pos: position{line: 2883, col: 8, offset: 90989},
 																																				expr: &anyMatcher{
-																																					line: 2879, col: 9, offset: 90800,
+																																					line: 2883, col: 9, offset: 90990,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2642, col: 5, offset: 84040},
+																																	pos: position{line: 2646, col: 5, offset: 84230},
 																																	expr: &actionExpr{
 																																		pos: position{line: 677, col: 14, offset: 21489},
-																																		run: (*parser).callonListContinuationElement1433,
+																																		run: (*parser).callonListContinuationElement1493,
 																																		expr: &seqExpr{
 																																			pos: position{line: 677, col: 14, offset: 21489},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2877, col: 11, offset: 90785},
+																																					pos: position{line: 2881, col: 11, offset: 90975},
 																																					expr: &anyMatcher{
-																																						line: 2877, col: 13, offset: 90787,
+																																						line: 2881, col: 13, offset: 90977,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 677, col: 21, offset: 21496},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2860, col: 10, offset: 90451},
-																																						run: (*parser).callonListContinuationElement1438,
+																																						pos: position{line: 2864, col: 10, offset: 90641},
+																																						run: (*parser).callonListContinuationElement1498,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2860, col: 10, offset: 90451},
+																																							pos:        position{line: 2864, col: 10, offset: 90641},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -35693,28 +36259,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2882, col: 8, offset: 90849},
+																																					pos: position{line: 2886, col: 8, offset: 91039},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2869, col: 12, offset: 90622},
-																																							run: (*parser).callonListContinuationElement1441,
+																																							pos: position{line: 2873, col: 12, offset: 90812},
+																																							run: (*parser).callonListContinuationElement1501,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2869, col: 13, offset: 90623},
+																																								pos: position{line: 2873, col: 13, offset: 90813},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2869, col: 13, offset: 90623},
+																																										pos:        position{line: 2873, col: 13, offset: 90813},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2869, col: 20, offset: 90630},
+																																										pos:        position{line: 2873, col: 20, offset: 90820},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2869, col: 29, offset: 90639},
+																																										pos:        position{line: 2873, col: 29, offset: 90829},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -35723,9 +36289,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2879, col: 8, offset: 90799},
+																																							pos: position{line: 2883, col: 8, offset: 90989},
 																																							expr: &anyMatcher{
-																																								line: 2879, col: 9, offset: 90800,
+																																								line: 2883, col: 9, offset: 90990,
 																																							},
 																																						},
 																																					},
@@ -35735,17 +36301,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2643, col: 5, offset: 84055},
+																																	pos:   position{line: 2647, col: 5, offset: 84245},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2643, col: 12, offset: 84062},
+																																		pos: position{line: 2647, col: 12, offset: 84252},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2660, col: 20, offset: 84526},
-																																			run: (*parser).callonListContinuationElement1450,
+																																			pos: position{line: 2664, col: 20, offset: 84716},
+																																			run: (*parser).callonListContinuationElement1510,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2660, col: 20, offset: 84526},
+																																				pos: position{line: 2664, col: 20, offset: 84716},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2660, col: 20, offset: 84526},
+																																					pos:        position{line: 2664, col: 20, offset: 84716},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -35756,18 +36322,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2643, col: 31, offset: 84081},
+																																	pos:        position{line: 2647, col: 31, offset: 84271},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2643, col: 35, offset: 84085},
+																																	pos: position{line: 2647, col: 35, offset: 84275},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2860, col: 10, offset: 90451},
-																																		run: (*parser).callonListContinuationElement1455,
+																																		pos: position{line: 2864, col: 10, offset: 90641},
+																																		run: (*parser).callonListContinuationElement1515,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2860, col: 10, offset: 90451},
+																																			pos:        position{line: 2864, col: 10, offset: 90641},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -35776,27 +36342,27 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2643, col: 42, offset: 84092},
+																																	pos: position{line: 2647, col: 42, offset: 84282},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2869, col: 12, offset: 90622},
-																																		run: (*parser).callonListContinuationElement1458,
+																																		pos: position{line: 2873, col: 12, offset: 90812},
+																																		run: (*parser).callonListContinuationElement1518,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2869, col: 13, offset: 90623},
+																																			pos: position{line: 2873, col: 13, offset: 90813},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2869, col: 13, offset: 90623},
+																																					pos:        position{line: 2873, col: 13, offset: 90813},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2869, col: 20, offset: 90630},
+																																					pos:        position{line: 2873, col: 20, offset: 90820},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2869, col: 29, offset: 90639},
+																																					pos:        position{line: 2873, col: 29, offset: 90829},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -35806,37 +36372,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2643, col: 51, offset: 84101},
+																																	pos:   position{line: 2647, col: 51, offset: 84291},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2649, col: 5, offset: 84260},
+																																		pos: position{line: 2653, col: 5, offset: 84450},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2650, col: 9, offset: 84270},
-																																			run: (*parser).callonListContinuationElement1465,
+																																			pos: position{line: 2654, col: 9, offset: 84460},
+																																			run: (*parser).callonListContinuationElement1525,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2650, col: 9, offset: 84270},
+																																				pos: position{line: 2654, col: 9, offset: 84460},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2650, col: 9, offset: 84270},
+																																						pos: position{line: 2654, col: 9, offset: 84460},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2606, col: 22, offset: 83214},
+																																							pos: position{line: 2610, col: 22, offset: 83404},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2602, col: 19, offset: 83134},
+																																									pos: position{line: 2606, col: 19, offset: 83324},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2602, col: 19, offset: 83134},
+																																											pos:        position{line: 2606, col: 19, offset: 83324},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2602, col: 26, offset: 83141},
+																																											pos: position{line: 2606, col: 26, offset: 83331},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2860, col: 10, offset: 90451},
-																																												run: (*parser).callonListContinuationElement1472,
+																																												pos: position{line: 2864, col: 10, offset: 90641},
+																																												run: (*parser).callonListContinuationElement1532,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2860, col: 10, offset: 90451},
+																																													pos:        position{line: 2864, col: 10, offset: 90641},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -35845,28 +36411,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2882, col: 8, offset: 90849},
+																																											pos: position{line: 2886, col: 8, offset: 91039},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2869, col: 12, offset: 90622},
-																																													run: (*parser).callonListContinuationElement1475,
+																																													pos: position{line: 2873, col: 12, offset: 90812},
+																																													run: (*parser).callonListContinuationElement1535,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2869, col: 13, offset: 90623},
+																																														pos: position{line: 2873, col: 13, offset: 90813},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																																pos:        position{line: 2873, col: 13, offset: 90813},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																																pos:        position{line: 2873, col: 20, offset: 90820},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																																pos:        position{line: 2873, col: 29, offset: 90829},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -35875,9 +36441,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2879, col: 8, offset: 90799},
+																																													pos: position{line: 2883, col: 8, offset: 90989},
 																																													expr: &anyMatcher{
-																																														line: 2879, col: 9, offset: 90800,
+																																														line: 2883, col: 9, offset: 90990,
 																																													},
 																																												},
 																																											},
@@ -35885,35 +36451,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2879, col: 8, offset: 90799},
+																																									pos: position{line: 2883, col: 8, offset: 90989},
 																																									expr: &anyMatcher{
-																																										line: 2879, col: 9, offset: 90800,
+																																										line: 2883, col: 9, offset: 90990,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2651, col: 9, offset: 84297},
+																																						pos: position{line: 2655, col: 9, offset: 84487},
 																																						expr: &actionExpr{
 																																							pos: position{line: 677, col: 14, offset: 21489},
-																																							run: (*parser).callonListContinuationElement1485,
+																																							run: (*parser).callonListContinuationElement1545,
 																																							expr: &seqExpr{
 																																								pos: position{line: 677, col: 14, offset: 21489},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2877, col: 11, offset: 90785},
+																																										pos: position{line: 2881, col: 11, offset: 90975},
 																																										expr: &anyMatcher{
-																																											line: 2877, col: 13, offset: 90787,
+																																											line: 2881, col: 13, offset: 90977,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 677, col: 21, offset: 21496},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2860, col: 10, offset: 90451},
-																																											run: (*parser).callonListContinuationElement1490,
+																																											pos: position{line: 2864, col: 10, offset: 90641},
+																																											run: (*parser).callonListContinuationElement1550,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2860, col: 10, offset: 90451},
+																																												pos:        position{line: 2864, col: 10, offset: 90641},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -35922,28 +36488,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2882, col: 8, offset: 90849},
+																																										pos: position{line: 2886, col: 8, offset: 91039},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2869, col: 12, offset: 90622},
-																																												run: (*parser).callonListContinuationElement1493,
+																																												pos: position{line: 2873, col: 12, offset: 90812},
+																																												run: (*parser).callonListContinuationElement1553,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2869, col: 13, offset: 90623},
+																																													pos: position{line: 2873, col: 13, offset: 90813},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2869, col: 13, offset: 90623},
+																																															pos:        position{line: 2873, col: 13, offset: 90813},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2869, col: 20, offset: 90630},
+																																															pos:        position{line: 2873, col: 20, offset: 90820},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2869, col: 29, offset: 90639},
+																																															pos:        position{line: 2873, col: 29, offset: 90829},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -35952,9 +36518,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2879, col: 8, offset: 90799},
+																																												pos: position{line: 2883, col: 8, offset: 90989},
 																																												expr: &anyMatcher{
-																																													line: 2879, col: 9, offset: 90800,
+																																													line: 2883, col: 9, offset: 90990,
 																																												},
 																																											},
 																																										},
@@ -35964,22 +36530,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2652, col: 9, offset: 84316},
+																																						pos: position{line: 2656, col: 9, offset: 84506},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2652, col: 11, offset: 84318},
+																																							pos: position{line: 2656, col: 11, offset: 84508},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2652, col: 11, offset: 84318},
+																																									pos:   position{line: 2656, col: 11, offset: 84508},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2652, col: 18, offset: 84325},
+																																										pos: position{line: 2656, col: 18, offset: 84515},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2660, col: 20, offset: 84526},
-																																											run: (*parser).callonListContinuationElement1504,
+																																											pos: position{line: 2664, col: 20, offset: 84716},
+																																											run: (*parser).callonListContinuationElement1564,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2660, col: 20, offset: 84526},
+																																												pos: position{line: 2664, col: 20, offset: 84716},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2660, col: 20, offset: 84526},
+																																													pos:        position{line: 2664, col: 20, offset: 84716},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -35990,7 +36556,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2652, col: 37, offset: 84344},
+																																									pos:        position{line: 2656, col: 37, offset: 84534},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -35999,15 +36565,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2653, col: 9, offset: 84357},
+																																						pos:   position{line: 2657, col: 9, offset: 84547},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2653, col: 18, offset: 84366},
-																																							run: (*parser).callonListContinuationElement1509,
+																																							pos: position{line: 2657, col: 18, offset: 84556},
+																																							run: (*parser).callonListContinuationElement1569,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2653, col: 18, offset: 84366},
+																																								pos: position{line: 2657, col: 18, offset: 84556},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2653, col: 18, offset: 84366},
+																																									pos:        position{line: 2657, col: 18, offset: 84556},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36017,30 +36583,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2655, col: 12, offset: 84428},
+																																						pos: position{line: 2659, col: 12, offset: 84618},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2882, col: 8, offset: 90849},
+																																							pos: position{line: 2886, col: 8, offset: 91039},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2869, col: 12, offset: 90622},
-																																									run: (*parser).callonListContinuationElement1514,
+																																									pos: position{line: 2873, col: 12, offset: 90812},
+																																									run: (*parser).callonListContinuationElement1574,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2869, col: 13, offset: 90623},
+																																										pos: position{line: 2873, col: 13, offset: 90813},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2869, col: 13, offset: 90623},
+																																												pos:        position{line: 2873, col: 13, offset: 90813},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2869, col: 20, offset: 90630},
+																																												pos:        position{line: 2873, col: 20, offset: 90820},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2869, col: 29, offset: 90639},
+																																												pos:        position{line: 2873, col: 29, offset: 90829},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -36049,9 +36615,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2879, col: 8, offset: 90799},
+																																									pos: position{line: 2883, col: 8, offset: 90989},
 																																									expr: &anyMatcher{
-																																										line: 2879, col: 9, offset: 90800,
+																																										line: 2883, col: 9, offset: 90990,
 																																									},
 																																								},
 																																							},
@@ -36074,23 +36640,23 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 677, col: 14, offset: 21489},
-																							run: (*parser).callonListContinuationElement1521,
+																							run: (*parser).callonListContinuationElement1581,
 																							expr: &seqExpr{
 																								pos: position{line: 677, col: 14, offset: 21489},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2877, col: 11, offset: 90785},
+																										pos: position{line: 2881, col: 11, offset: 90975},
 																										expr: &anyMatcher{
-																											line: 2877, col: 13, offset: 90787,
+																											line: 2881, col: 13, offset: 90977,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 677, col: 21, offset: 21496},
 																										expr: &actionExpr{
-																											pos: position{line: 2860, col: 10, offset: 90451},
-																											run: (*parser).callonListContinuationElement1526,
+																											pos: position{line: 2864, col: 10, offset: 90641},
+																											run: (*parser).callonListContinuationElement1586,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2860, col: 10, offset: 90451},
+																												pos:        position{line: 2864, col: 10, offset: 90641},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36099,28 +36665,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2882, col: 8, offset: 90849},
+																										pos: position{line: 2886, col: 8, offset: 91039},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2869, col: 12, offset: 90622},
-																												run: (*parser).callonListContinuationElement1529,
+																												pos: position{line: 2873, col: 12, offset: 90812},
+																												run: (*parser).callonListContinuationElement1589,
 																												expr: &choiceExpr{
-																													pos: position{line: 2869, col: 13, offset: 90623},
+																													pos: position{line: 2873, col: 13, offset: 90813},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2869, col: 13, offset: 90623},
+																															pos:        position{line: 2873, col: 13, offset: 90813},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2869, col: 20, offset: 90630},
+																															pos:        position{line: 2873, col: 20, offset: 90820},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2869, col: 29, offset: 90639},
+																															pos:        position{line: 2873, col: 29, offset: 90829},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36129,9 +36695,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2879, col: 8, offset: 90799},
+																												pos: position{line: 2883, col: 8, offset: 90989},
 																												expr: &anyMatcher{
-																													line: 2879, col: 9, offset: 90800,
+																													line: 2883, col: 9, offset: 90990,
 																												},
 																											},
 																										},
@@ -36150,24 +36716,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2606, col: 22, offset: 83214},
+													pos: position{line: 2610, col: 22, offset: 83404},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2602, col: 19, offset: 83134},
+															pos: position{line: 2606, col: 19, offset: 83324},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2602, col: 19, offset: 83134},
+																	pos:        position{line: 2606, col: 19, offset: 83324},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2602, col: 26, offset: 83141},
+																	pos: position{line: 2606, col: 26, offset: 83331},
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 10, offset: 90451},
-																		run: (*parser).callonListContinuationElement1540,
+																		pos: position{line: 2864, col: 10, offset: 90641},
+																		run: (*parser).callonListContinuationElement1600,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			pos:        position{line: 2864, col: 10, offset: 90641},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36176,28 +36742,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
-																			run: (*parser).callonListContinuationElement1543,
+																			pos: position{line: 2873, col: 12, offset: 90812},
+																			run: (*parser).callonListContinuationElement1603,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36206,9 +36772,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -36216,9 +36782,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2879, col: 8, offset: 90799},
+															pos: position{line: 2883, col: 8, offset: 90989},
 															expr: &anyMatcher{
-																line: 2879, col: 9, offset: 90800,
+																line: 2883, col: 9, offset: 90990,
 															},
 														},
 													},
@@ -36227,36 +36793,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2470, col: 22, offset: 79436},
-										run: (*parser).callonListContinuationElement1552,
+										pos: position{line: 2474, col: 22, offset: 79626},
+										run: (*parser).callonListContinuationElement1612,
 										expr: &seqExpr{
-											pos: position{line: 2470, col: 22, offset: 79436},
+											pos: position{line: 2474, col: 22, offset: 79626},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2475, col: 31, offset: 79657},
+													pos:        position{line: 2479, col: 31, offset: 79847},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2475, col: 36, offset: 79662},
+													pos: position{line: 2479, col: 36, offset: 79852},
 													expr: &litMatcher{
-														pos:        position{line: 2475, col: 37, offset: 79663},
+														pos:        position{line: 2479, col: 37, offset: 79853},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2470, col: 49, offset: 79463},
+													pos:   position{line: 2474, col: 49, offset: 79653},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2806, col: 13, offset: 88977},
-														run: (*parser).callonListContinuationElement1558,
+														pos: position{line: 2810, col: 13, offset: 89167},
+														run: (*parser).callonListContinuationElement1618,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2806, col: 13, offset: 88977},
+															pos: position{line: 2810, col: 13, offset: 89167},
 															expr: &charClassMatcher{
-																pos:        position{line: 2806, col: 13, offset: 88977},
+																pos:        position{line: 2810, col: 13, offset: 89167},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36266,28 +36832,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2882, col: 8, offset: 90849},
+													pos: position{line: 2886, col: 8, offset: 91039},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2869, col: 12, offset: 90622},
-															run: (*parser).callonListContinuationElement1562,
+															pos: position{line: 2873, col: 12, offset: 90812},
+															run: (*parser).callonListContinuationElement1622,
 															expr: &choiceExpr{
-																pos: position{line: 2869, col: 13, offset: 90623},
+																pos: position{line: 2873, col: 13, offset: 90813},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 13, offset: 90623},
+																		pos:        position{line: 2873, col: 13, offset: 90813},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 20, offset: 90630},
+																		pos:        position{line: 2873, col: 20, offset: 90820},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 29, offset: 90639},
+																		pos:        position{line: 2873, col: 29, offset: 90829},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36296,9 +36862,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2879, col: 8, offset: 90799},
+															pos: position{line: 2883, col: 8, offset: 90989},
 															expr: &anyMatcher{
-																line: 2879, col: 9, offset: 90800,
+																line: 2883, col: 9, offset: 90990,
 															},
 														},
 													},
@@ -36307,94 +36873,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1569, col: 5, offset: 50628},
-										run: (*parser).callonListContinuationElement1569,
+										pos: position{line: 1573, col: 5, offset: 50818},
+										run: (*parser).callonListContinuationElement1629,
 										expr: &seqExpr{
-											pos: position{line: 1569, col: 5, offset: 50628},
+											pos: position{line: 1573, col: 5, offset: 50818},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1569, col: 5, offset: 50628},
+													pos:   position{line: 1573, col: 5, offset: 50818},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1569, col: 11, offset: 50634},
+														pos: position{line: 1573, col: 11, offset: 50824},
 														expr: &actionExpr{
-															pos: position{line: 1733, col: 5, offset: 55951},
-															run: (*parser).callonListContinuationElement1573,
+															pos: position{line: 1737, col: 5, offset: 56141},
+															run: (*parser).callonListContinuationElement1633,
 															expr: &seqExpr{
-																pos: position{line: 1733, col: 5, offset: 55951},
+																pos: position{line: 1737, col: 5, offset: 56141},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1733, col: 5, offset: 55951},
-																		run: (*parser).callonListContinuationElement1575,
+																		pos: position{line: 1737, col: 5, offset: 56141},
+																		run: (*parser).callonListContinuationElement1635,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1736, col: 5, offset: 56014},
+																		pos:   position{line: 1740, col: 5, offset: 56204},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1736, col: 12, offset: 56021},
+																			pos: position{line: 1740, col: 12, offset: 56211},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1736, col: 12, offset: 56021},
-																					run: (*parser).callonListContinuationElement1578,
+																					pos: position{line: 1740, col: 12, offset: 56211},
+																					run: (*parser).callonListContinuationElement1638,
 																					expr: &litMatcher{
-																						pos:        position{line: 1736, col: 12, offset: 56021},
+																						pos:        position{line: 1740, col: 12, offset: 56211},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1738, col: 13, offset: 56077},
-																					run: (*parser).callonListContinuationElement1580,
+																					pos: position{line: 1742, col: 13, offset: 56267},
+																					run: (*parser).callonListContinuationElement1640,
 																					expr: &litMatcher{
-																						pos:        position{line: 1738, col: 13, offset: 56077},
+																						pos:        position{line: 1742, col: 13, offset: 56267},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1740, col: 13, offset: 56135},
-																					run: (*parser).callonListContinuationElement1582,
+																					pos: position{line: 1744, col: 13, offset: 56325},
+																					run: (*parser).callonListContinuationElement1642,
 																					expr: &litMatcher{
-																						pos:        position{line: 1740, col: 13, offset: 56135},
+																						pos:        position{line: 1744, col: 13, offset: 56325},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1742, col: 13, offset: 56203},
-																					run: (*parser).callonListContinuationElement1584,
+																					pos: position{line: 1746, col: 13, offset: 56393},
+																					run: (*parser).callonListContinuationElement1644,
 																					expr: &litMatcher{
-																						pos:        position{line: 1742, col: 13, offset: 56203},
+																						pos:        position{line: 1746, col: 13, offset: 56393},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1744, col: 13, offset: 56267},
-																					run: (*parser).callonListContinuationElement1586,
+																					pos: position{line: 1748, col: 13, offset: 56457},
+																					run: (*parser).callonListContinuationElement1646,
 																					expr: &litMatcher{
-																						pos:        position{line: 1744, col: 13, offset: 56267},
+																						pos:        position{line: 1748, col: 13, offset: 56457},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1746, col: 13, offset: 56331},
-																					run: (*parser).callonListContinuationElement1588,
+																					pos: position{line: 1750, col: 13, offset: 56521},
+																					run: (*parser).callonListContinuationElement1648,
 																					expr: &andExpr{
-																						pos: position{line: 1746, col: 13, offset: 56331},
+																						pos: position{line: 1750, col: 13, offset: 56521},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 11, offset: 90512},
-																							run: (*parser).callonListContinuationElement1590,
+																							pos: position{line: 2868, col: 11, offset: 90702},
+																							run: (*parser).callonListContinuationElement1650,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2864, col: 11, offset: 90512},
+																								pos: position{line: 2868, col: 11, offset: 90702},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 11, offset: 90512},
+																									pos:        position{line: 2868, col: 11, offset: 90702},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36413,35 +36979,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1570, col: 5, offset: 50657},
+													pos:   position{line: 1574, col: 5, offset: 50847},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1513, col: 5, offset: 49007},
-														run: (*parser).callonListContinuationElement1594,
+														pos: position{line: 1517, col: 5, offset: 49197},
+														run: (*parser).callonListContinuationElement1654,
 														expr: &seqExpr{
-															pos: position{line: 1513, col: 5, offset: 49007},
+															pos: position{line: 1517, col: 5, offset: 49197},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1513, col: 5, offset: 49007},
+																	pos: position{line: 1517, col: 5, offset: 49197},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
-																		run: (*parser).callonListContinuationElement1597,
+																		run: (*parser).callonListContinuationElement1657,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2877, col: 11, offset: 90785},
+																					pos: position{line: 2881, col: 11, offset: 90975},
 																					expr: &anyMatcher{
-																						line: 2877, col: 13, offset: 90787,
+																						line: 2881, col: 13, offset: 90977,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2860, col: 10, offset: 90451},
-																						run: (*parser).callonListContinuationElement1602,
+																						pos: position{line: 2864, col: 10, offset: 90641},
+																						run: (*parser).callonListContinuationElement1662,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2860, col: 10, offset: 90451},
+																							pos:        position{line: 2864, col: 10, offset: 90641},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36450,28 +37016,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2882, col: 8, offset: 90849},
+																					pos: position{line: 2886, col: 8, offset: 91039},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2869, col: 12, offset: 90622},
-																							run: (*parser).callonListContinuationElement1605,
+																							pos: position{line: 2873, col: 12, offset: 90812},
+																							run: (*parser).callonListContinuationElement1665,
 																							expr: &choiceExpr{
-																								pos: position{line: 2869, col: 13, offset: 90623},
+																								pos: position{line: 2873, col: 13, offset: 90813},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2869, col: 13, offset: 90623},
+																										pos:        position{line: 2873, col: 13, offset: 90813},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2869, col: 20, offset: 90630},
+																										pos:        position{line: 2873, col: 20, offset: 90820},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2869, col: 29, offset: 90639},
+																										pos:        position{line: 2873, col: 29, offset: 90829},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -36480,9 +37046,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2879, col: 8, offset: 90799},
+																							pos: position{line: 2883, col: 8, offset: 90989},
 																							expr: &anyMatcher{
-																								line: 2879, col: 9, offset: 90800,
+																								line: 2883, col: 9, offset: 90990,
 																							},
 																						},
 																					},
@@ -36492,23 +37058,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1514, col: 5, offset: 49022},
+																	pos: position{line: 1518, col: 5, offset: 49212},
 																	expr: &seqExpr{
-																		pos: position{line: 1544, col: 27, offset: 49848},
+																		pos: position{line: 1548, col: 27, offset: 50038},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1544, col: 27, offset: 49848},
+																				pos:        position{line: 1548, col: 27, offset: 50038},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1544, col: 31, offset: 49852},
+																				pos: position{line: 1548, col: 31, offset: 50042},
 																				expr: &actionExpr{
-																					pos: position{line: 2860, col: 10, offset: 90451},
-																					run: (*parser).callonListContinuationElement1616,
+																					pos: position{line: 2864, col: 10, offset: 90641},
+																					run: (*parser).callonListContinuationElement1676,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2860, col: 10, offset: 90451},
+																						pos:        position{line: 2864, col: 10, offset: 90641},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36517,25 +37083,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90622},
-																				run: (*parser).callonListContinuationElement1618,
+																				pos: position{line: 2873, col: 12, offset: 90812},
+																				run: (*parser).callonListContinuationElement1678,
 																				expr: &choiceExpr{
-																					pos: position{line: 2869, col: 13, offset: 90623},
+																					pos: position{line: 2873, col: 13, offset: 90813},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							pos:        position{line: 2873, col: 13, offset: 90813},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							pos:        position{line: 2873, col: 20, offset: 90820},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							pos:        position{line: 2873, col: 29, offset: 90829},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -36547,20 +37113,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1515, col: 5, offset: 49050},
+																	pos: position{line: 1519, col: 5, offset: 49240},
 																	expr: &actionExpr{
-																		pos: position{line: 1585, col: 5, offset: 51067},
-																		run: (*parser).callonListContinuationElement1624,
+																		pos: position{line: 1589, col: 5, offset: 51257},
+																		run: (*parser).callonListContinuationElement1684,
 																		expr: &seqExpr{
-																			pos: position{line: 1585, col: 5, offset: 51067},
+																			pos: position{line: 1589, col: 5, offset: 51257},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1585, col: 5, offset: 51067},
+																					pos: position{line: 1589, col: 5, offset: 51257},
 																					expr: &actionExpr{
-																						pos: position{line: 2860, col: 10, offset: 90451},
-																						run: (*parser).callonListContinuationElement1627,
+																						pos: position{line: 2864, col: 10, offset: 90641},
+																						run: (*parser).callonListContinuationElement1687,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2860, col: 10, offset: 90451},
+																							pos:        position{line: 2864, col: 10, offset: 90641},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36569,27 +37135,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1585, col: 12, offset: 51074},
+																					pos:   position{line: 1589, col: 12, offset: 51264},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1587, col: 9, offset: 51137},
+																						pos: position{line: 1591, col: 9, offset: 51327},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1587, col: 9, offset: 51137},
-																								run: (*parser).callonListContinuationElement1631,
+																								pos: position{line: 1591, col: 9, offset: 51327},
+																								run: (*parser).callonListContinuationElement1691,
 																								expr: &seqExpr{
-																									pos: position{line: 1587, col: 9, offset: 51137},
+																									pos: position{line: 1591, col: 9, offset: 51327},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1587, col: 9, offset: 51137},
+																											pos:   position{line: 1591, col: 9, offset: 51327},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1587, col: 16, offset: 51144},
-																												run: (*parser).callonListContinuationElement1634,
+																												pos: position{line: 1591, col: 16, offset: 51334},
+																												run: (*parser).callonListContinuationElement1694,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1587, col: 16, offset: 51144},
+																													pos: position{line: 1591, col: 16, offset: 51334},
 																													expr: &litMatcher{
-																														pos:        position{line: 1587, col: 17, offset: 51145},
+																														pos:        position{line: 1591, col: 17, offset: 51335},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -36598,22 +37164,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1591, col: 9, offset: 51245},
-																											run: (*parser).callonListContinuationElement1637,
+																											pos: position{line: 1595, col: 9, offset: 51435},
+																											run: (*parser).callonListContinuationElement1697,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1610, col: 11, offset: 51962},
-																								run: (*parser).callonListContinuationElement1638,
+																								pos: position{line: 1614, col: 11, offset: 52152},
+																								run: (*parser).callonListContinuationElement1698,
 																								expr: &seqExpr{
-																									pos: position{line: 1610, col: 11, offset: 51962},
+																									pos: position{line: 1614, col: 11, offset: 52152},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1610, col: 11, offset: 51962},
+																											pos: position{line: 1614, col: 11, offset: 52152},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1610, col: 12, offset: 51963},
+																												pos:        position{line: 1614, col: 12, offset: 52153},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -36621,7 +37187,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1610, col: 20, offset: 51971},
+																											pos:        position{line: 1614, col: 20, offset: 52161},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36630,20 +37196,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1612, col: 13, offset: 52088},
-																								run: (*parser).callonListContinuationElement1643,
+																								pos: position{line: 1616, col: 13, offset: 52278},
+																								run: (*parser).callonListContinuationElement1703,
 																								expr: &seqExpr{
-																									pos: position{line: 1612, col: 13, offset: 52088},
+																									pos: position{line: 1616, col: 13, offset: 52278},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1612, col: 14, offset: 52089},
+																											pos:        position{line: 1616, col: 14, offset: 52279},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1612, col: 21, offset: 52096},
+																											pos:        position{line: 1616, col: 21, offset: 52286},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36652,20 +37218,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1614, col: 13, offset: 52216},
-																								run: (*parser).callonListContinuationElement1647,
+																								pos: position{line: 1618, col: 13, offset: 52406},
+																								run: (*parser).callonListContinuationElement1707,
 																								expr: &seqExpr{
-																									pos: position{line: 1614, col: 13, offset: 52216},
+																									pos: position{line: 1618, col: 13, offset: 52406},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1614, col: 14, offset: 52217},
+																											pos:        position{line: 1618, col: 14, offset: 52407},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1614, col: 21, offset: 52224},
+																											pos:        position{line: 1618, col: 21, offset: 52414},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -36674,15 +37240,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1616, col: 13, offset: 52344},
-																								run: (*parser).callonListContinuationElement1651,
+																								pos: position{line: 1620, col: 13, offset: 52534},
+																								run: (*parser).callonListContinuationElement1711,
 																								expr: &seqExpr{
-																									pos: position{line: 1616, col: 13, offset: 52344},
+																									pos: position{line: 1620, col: 13, offset: 52534},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1616, col: 13, offset: 52344},
+																											pos: position{line: 1620, col: 13, offset: 52534},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1616, col: 14, offset: 52345},
+																												pos:        position{line: 1620, col: 14, offset: 52535},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -36690,7 +37256,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1616, col: 26, offset: 52357},
+																											pos:        position{line: 1620, col: 26, offset: 52547},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -36699,15 +37265,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1618, col: 13, offset: 52477},
-																								run: (*parser).callonListContinuationElement1656,
+																								pos: position{line: 1622, col: 13, offset: 52667},
+																								run: (*parser).callonListContinuationElement1716,
 																								expr: &seqExpr{
-																									pos: position{line: 1618, col: 13, offset: 52477},
+																									pos: position{line: 1622, col: 13, offset: 52667},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1618, col: 13, offset: 52477},
+																											pos: position{line: 1622, col: 13, offset: 52667},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1618, col: 14, offset: 52478},
+																												pos:        position{line: 1622, col: 14, offset: 52668},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -36715,7 +37281,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1618, col: 26, offset: 52490},
+																											pos:        position{line: 1622, col: 26, offset: 52680},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -36727,12 +37293,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2864, col: 11, offset: 90512},
-																					run: (*parser).callonListContinuationElement1661,
+																					pos: position{line: 2868, col: 11, offset: 90702},
+																					run: (*parser).callonListContinuationElement1721,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2864, col: 11, offset: 90512},
+																						pos: position{line: 2868, col: 11, offset: 90702},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2864, col: 11, offset: 90512},
+																							pos:        position{line: 2868, col: 11, offset: 90702},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36745,20 +37311,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1516, col: 5, offset: 49080},
+																	pos: position{line: 1520, col: 5, offset: 49270},
 																	expr: &actionExpr{
-																		pos: position{line: 1635, col: 5, offset: 53029},
-																		run: (*parser).callonListContinuationElement1665,
+																		pos: position{line: 1639, col: 5, offset: 53219},
+																		run: (*parser).callonListContinuationElement1725,
 																		expr: &seqExpr{
-																			pos: position{line: 1635, col: 5, offset: 53029},
+																			pos: position{line: 1639, col: 5, offset: 53219},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1635, col: 5, offset: 53029},
+																					pos: position{line: 1639, col: 5, offset: 53219},
 																					expr: &actionExpr{
-																						pos: position{line: 2860, col: 10, offset: 90451},
-																						run: (*parser).callonListContinuationElement1668,
+																						pos: position{line: 2864, col: 10, offset: 90641},
+																						run: (*parser).callonListContinuationElement1728,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2860, col: 10, offset: 90451},
+																							pos:        position{line: 2864, col: 10, offset: 90641},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36767,24 +37333,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1636, col: 5, offset: 53041},
+																					pos:   position{line: 1640, col: 5, offset: 53231},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1637, col: 9, offset: 53057},
-																						run: (*parser).callonListContinuationElement1671,
+																						pos: position{line: 1641, col: 9, offset: 53247},
+																						run: (*parser).callonListContinuationElement1731,
 																						expr: &choiceExpr{
-																							pos: position{line: 1637, col: 10, offset: 53058},
+																							pos: position{line: 1641, col: 10, offset: 53248},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1637, col: 11, offset: 53059},
+																									pos:        position{line: 1641, col: 11, offset: 53249},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1637, col: 18, offset: 53066},
+																									pos: position{line: 1641, col: 18, offset: 53256},
 																									expr: &litMatcher{
-																										pos:        position{line: 1637, col: 19, offset: 53067},
+																										pos:        position{line: 1641, col: 19, offset: 53257},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -36795,16 +37361,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1640, col: 7, offset: 53157},
-																					run: (*parser).callonListContinuationElement1676,
+																					pos: position{line: 1644, col: 7, offset: 53347},
+																					run: (*parser).callonListContinuationElement1736,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2864, col: 11, offset: 90512},
-																					run: (*parser).callonListContinuationElement1677,
+																					pos: position{line: 2868, col: 11, offset: 90702},
+																					run: (*parser).callonListContinuationElement1737,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2864, col: 11, offset: 90512},
+																						pos: position{line: 2868, col: 11, offset: 90702},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2864, col: 11, offset: 90512},
+																							pos:        position{line: 2868, col: 11, offset: 90702},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36817,29 +37383,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1517, col: 5, offset: 49112},
+																	pos: position{line: 1521, col: 5, offset: 49302},
 																	expr: &actionExpr{
-																		pos: position{line: 1724, col: 5, offset: 55566},
-																		run: (*parser).callonListContinuationElement1681,
+																		pos: position{line: 1728, col: 5, offset: 55756},
+																		run: (*parser).callonListContinuationElement1741,
 																		expr: &seqExpr{
-																			pos: position{line: 1724, col: 5, offset: 55566},
+																			pos: position{line: 1728, col: 5, offset: 55756},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1724, col: 5, offset: 55566},
+																					pos:        position{line: 1728, col: 5, offset: 55756},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1724, col: 9, offset: 55570},
+																					pos:   position{line: 1728, col: 9, offset: 55760},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1724, col: 14, offset: 55575},
-																						run: (*parser).callonListContinuationElement1685,
+																						pos: position{line: 1728, col: 14, offset: 55765},
+																						run: (*parser).callonListContinuationElement1745,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1724, col: 14, offset: 55575},
+																							pos: position{line: 1728, col: 14, offset: 55765},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1724, col: 14, offset: 55575},
+																								pos:        position{line: 1728, col: 14, offset: 55765},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -36849,18 +37415,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1724, col: 62, offset: 55623},
+																					pos:        position{line: 1728, col: 62, offset: 55813},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2864, col: 11, offset: 90512},
-																					run: (*parser).callonListContinuationElement1689,
+																					pos: position{line: 2868, col: 11, offset: 90702},
+																					run: (*parser).callonListContinuationElement1749,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2864, col: 11, offset: 90512},
+																						pos: position{line: 2868, col: 11, offset: 90702},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2864, col: 11, offset: 90512},
+																							pos:        position{line: 2868, col: 11, offset: 90702},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -36873,36 +37439,36 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1518, col: 5, offset: 49142},
+																	pos: position{line: 1522, col: 5, offset: 49332},
 																	expr: &seqExpr{
-																		pos: position{line: 1518, col: 7, offset: 49144},
+																		pos: position{line: 1522, col: 7, offset: 49334},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1670, col: 5, offset: 54048},
-																				run: (*parser).callonListContinuationElement1694,
+																				pos: position{line: 1674, col: 5, offset: 54238},
+																				run: (*parser).callonListContinuationElement1754,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1670, col: 5, offset: 54048},
+																					pos: position{line: 1674, col: 5, offset: 54238},
 																					expr: &seqExpr{
-																						pos: position{line: 1670, col: 6, offset: 54049},
+																						pos: position{line: 1674, col: 6, offset: 54239},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 1670, col: 6, offset: 54049},
+																								pos: position{line: 1674, col: 6, offset: 54239},
 																								expr: &actionExpr{
-																									pos: position{line: 1675, col: 5, offset: 54199},
-																									run: (*parser).callonListContinuationElement1698,
+																									pos: position{line: 1679, col: 5, offset: 54389},
+																									run: (*parser).callonListContinuationElement1758,
 																									expr: &seqExpr{
-																										pos: position{line: 1675, col: 5, offset: 54199},
+																										pos: position{line: 1679, col: 5, offset: 54389},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 1675, col: 5, offset: 54199},
+																												pos:   position{line: 1679, col: 5, offset: 54389},
 																												label: "separator",
 																												expr: &actionExpr{
-																													pos: position{line: 1675, col: 16, offset: 54210},
-																													run: (*parser).callonListContinuationElement1701,
+																													pos: position{line: 1679, col: 16, offset: 54400},
+																													run: (*parser).callonListContinuationElement1761,
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1675, col: 16, offset: 54210},
+																														pos: position{line: 1679, col: 16, offset: 54400},
 																														expr: &litMatcher{
-																															pos:        position{line: 1675, col: 17, offset: 54211},
+																															pos:        position{line: 1679, col: 17, offset: 54401},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
@@ -36911,38 +37477,38 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 1678, col: 5, offset: 54268},
-																												run: (*parser).callonListContinuationElement1704,
+																												pos: position{line: 1682, col: 5, offset: 54458},
+																												run: (*parser).callonListContinuationElement1764,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 1670, col: 35, offset: 54078},
+																								pos: position{line: 1674, col: 35, offset: 54268},
 																								expr: &choiceExpr{
-																									pos: position{line: 2882, col: 8, offset: 90849},
+																									pos: position{line: 2886, col: 8, offset: 91039},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2869, col: 12, offset: 90622},
-																											run: (*parser).callonListContinuationElement1707,
+																											pos: position{line: 2873, col: 12, offset: 90812},
+																											run: (*parser).callonListContinuationElement1767,
 																											expr: &choiceExpr{
-																												pos: position{line: 2869, col: 13, offset: 90623},
+																												pos: position{line: 2873, col: 13, offset: 90813},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 13, offset: 90623},
+																														pos:        position{line: 2873, col: 13, offset: 90813},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 20, offset: 90630},
+																														pos:        position{line: 2873, col: 20, offset: 90820},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2869, col: 29, offset: 90639},
+																														pos:        position{line: 2873, col: 29, offset: 90829},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36951,37 +37517,37 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2879, col: 8, offset: 90799},
+																											pos: position{line: 2883, col: 8, offset: 90989},
 																											expr: &anyMatcher{
-																												line: 2879, col: 9, offset: 90800,
+																												line: 2883, col: 9, offset: 90990,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&anyMatcher{
-																								line: 1670, col: 40, offset: 54083,
+																								line: 1674, col: 40, offset: 54273,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1675, col: 5, offset: 54199},
-																				run: (*parser).callonListContinuationElement1715,
+																				pos: position{line: 1679, col: 5, offset: 54389},
+																				run: (*parser).callonListContinuationElement1775,
 																				expr: &seqExpr{
-																					pos: position{line: 1675, col: 5, offset: 54199},
+																					pos: position{line: 1679, col: 5, offset: 54389},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1675, col: 5, offset: 54199},
+																							pos:   position{line: 1679, col: 5, offset: 54389},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1675, col: 16, offset: 54210},
-																								run: (*parser).callonListContinuationElement1718,
+																								pos: position{line: 1679, col: 16, offset: 54400},
+																								run: (*parser).callonListContinuationElement1778,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1675, col: 16, offset: 54210},
+																									pos: position{line: 1679, col: 16, offset: 54400},
 																									expr: &litMatcher{
-																										pos:        position{line: 1675, col: 17, offset: 54211},
+																										pos:        position{line: 1679, col: 17, offset: 54401},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -36990,8 +37556,8 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1678, col: 5, offset: 54268},
-																							run: (*parser).callonListContinuationElement1721,
+																							pos: position{line: 1682, col: 5, offset: 54458},
+																							run: (*parser).callonListContinuationElement1781,
 																						},
 																					},
 																				},
@@ -37000,17 +37566,17 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1519, col: 5, offset: 49200},
+																	pos: position{line: 1523, col: 5, offset: 49390},
 																	expr: &actionExpr{
 																		pos: position{line: 724, col: 5, offset: 23042},
-																		run: (*parser).callonListContinuationElement1723,
+																		run: (*parser).callonListContinuationElement1783,
 																		expr: &seqExpr{
 																			pos: position{line: 724, col: 5, offset: 23042},
 																			exprs: []interface{}{
 																				&notExpr{
 																					pos: position{line: 724, col: 5, offset: 23042},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2750, col: 13, offset: 87546},
+																						pos:        position{line: 2754, col: 13, offset: 87736},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37025,7 +37591,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 740, col: 5, offset: 23584},
-																								run: (*parser).callonListContinuationElement1729,
+																								run: (*parser).callonListContinuationElement1789,
 																								expr: &seqExpr{
 																									pos: position{line: 740, col: 5, offset: 23584},
 																									exprs: []interface{}{
@@ -37034,7 +37600,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 740, col: 16, offset: 23595},
-																												run: (*parser).callonListContinuationElement1732,
+																												run: (*parser).callonListContinuationElement1792,
 																												expr: &seqExpr{
 																													pos: position{line: 740, col: 16, offset: 23595},
 																													exprs: []interface{}{
@@ -37060,10 +37626,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23686},
 																											expr: &actionExpr{
-																												pos: position{line: 2860, col: 10, offset: 90451},
-																												run: (*parser).callonListContinuationElement1738,
+																												pos: position{line: 2864, col: 10, offset: 90641},
+																												run: (*parser).callonListContinuationElement1798,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2860, col: 10, offset: 90451},
+																													pos:        position{line: 2864, col: 10, offset: 90641},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37072,28 +37638,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2882, col: 8, offset: 90849},
+																											pos: position{line: 2886, col: 8, offset: 91039},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2869, col: 12, offset: 90622},
-																													run: (*parser).callonListContinuationElement1741,
+																													pos: position{line: 2873, col: 12, offset: 90812},
+																													run: (*parser).callonListContinuationElement1801,
 																													expr: &choiceExpr{
-																														pos: position{line: 2869, col: 13, offset: 90623},
+																														pos: position{line: 2873, col: 13, offset: 90813},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																pos:        position{line: 2873, col: 13, offset: 90813},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																pos:        position{line: 2873, col: 20, offset: 90820},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																pos:        position{line: 2873, col: 29, offset: 90829},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37102,9 +37668,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2879, col: 8, offset: 90799},
+																													pos: position{line: 2883, col: 8, offset: 90989},
 																													expr: &anyMatcher{
-																														line: 2879, col: 9, offset: 90800,
+																														line: 2883, col: 9, offset: 90990,
 																													},
 																												},
 																											},
@@ -37114,7 +37680,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 747, col: 5, offset: 23832},
-																								run: (*parser).callonListContinuationElement1748,
+																								run: (*parser).callonListContinuationElement1808,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 5, offset: 23832},
 																									exprs: []interface{}{
@@ -37123,7 +37689,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 747, col: 16, offset: 23843},
-																												run: (*parser).callonListContinuationElement1751,
+																												run: (*parser).callonListContinuationElement1811,
 																												expr: &seqExpr{
 																													pos: position{line: 747, col: 16, offset: 23843},
 																													exprs: []interface{}{
@@ -37149,10 +37715,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23934},
 																											expr: &actionExpr{
-																												pos: position{line: 2860, col: 10, offset: 90451},
-																												run: (*parser).callonListContinuationElement1757,
+																												pos: position{line: 2864, col: 10, offset: 90641},
+																												run: (*parser).callonListContinuationElement1817,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2860, col: 10, offset: 90451},
+																													pos:        position{line: 2864, col: 10, offset: 90641},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37161,28 +37727,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2882, col: 8, offset: 90849},
+																											pos: position{line: 2886, col: 8, offset: 91039},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2869, col: 12, offset: 90622},
-																													run: (*parser).callonListContinuationElement1760,
+																													pos: position{line: 2873, col: 12, offset: 90812},
+																													run: (*parser).callonListContinuationElement1820,
 																													expr: &choiceExpr{
-																														pos: position{line: 2869, col: 13, offset: 90623},
+																														pos: position{line: 2873, col: 13, offset: 90813},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																pos:        position{line: 2873, col: 13, offset: 90813},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																pos:        position{line: 2873, col: 20, offset: 90820},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																pos:        position{line: 2873, col: 29, offset: 90829},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37191,9 +37757,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2879, col: 8, offset: 90799},
+																													pos: position{line: 2883, col: 8, offset: 90989},
 																													expr: &anyMatcher{
-																														line: 2879, col: 9, offset: 90800,
+																														line: 2883, col: 9, offset: 90990,
 																													},
 																												},
 																											},
@@ -37203,7 +37769,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 760, col: 26, offset: 24320},
-																								run: (*parser).callonListContinuationElement1767,
+																								run: (*parser).callonListContinuationElement1827,
 																								expr: &seqExpr{
 																									pos: position{line: 760, col: 26, offset: 24320},
 																									exprs: []interface{}{
@@ -37218,7 +37784,7 @@ var g = &grammar{
 																											label: "language",
 																											expr: &actionExpr{
 																												pos: position{line: 764, col: 13, offset: 24456},
-																												run: (*parser).callonListContinuationElement1771,
+																												run: (*parser).callonListContinuationElement1831,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 764, col: 14, offset: 24457},
 																													expr: &charClassMatcher{
@@ -37234,10 +37800,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 760, col: 52, offset: 24346},
 																											expr: &actionExpr{
-																												pos: position{line: 2860, col: 10, offset: 90451},
-																												run: (*parser).callonListContinuationElement1775,
+																												pos: position{line: 2864, col: 10, offset: 90641},
+																												run: (*parser).callonListContinuationElement1835,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2860, col: 10, offset: 90451},
+																													pos:        position{line: 2864, col: 10, offset: 90641},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37246,28 +37812,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2882, col: 8, offset: 90849},
+																											pos: position{line: 2886, col: 8, offset: 91039},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2869, col: 12, offset: 90622},
-																													run: (*parser).callonListContinuationElement1778,
+																													pos: position{line: 2873, col: 12, offset: 90812},
+																													run: (*parser).callonListContinuationElement1838,
 																													expr: &choiceExpr{
-																														pos: position{line: 2869, col: 13, offset: 90623},
+																														pos: position{line: 2873, col: 13, offset: 90813},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																pos:        position{line: 2873, col: 13, offset: 90813},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																pos:        position{line: 2873, col: 20, offset: 90820},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																pos:        position{line: 2873, col: 29, offset: 90829},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37276,9 +37842,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2879, col: 8, offset: 90799},
+																													pos: position{line: 2883, col: 8, offset: 90989},
 																													expr: &anyMatcher{
-																														line: 2879, col: 9, offset: 90800,
+																														line: 2883, col: 9, offset: 90990,
 																													},
 																												},
 																											},
@@ -37288,7 +37854,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 754, col: 5, offset: 24079},
-																								run: (*parser).callonListContinuationElement1785,
+																								run: (*parser).callonListContinuationElement1845,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 5, offset: 24079},
 																									exprs: []interface{}{
@@ -37297,7 +37863,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 754, col: 16, offset: 24090},
-																												run: (*parser).callonListContinuationElement1788,
+																												run: (*parser).callonListContinuationElement1848,
 																												expr: &seqExpr{
 																													pos: position{line: 754, col: 16, offset: 24090},
 																													exprs: []interface{}{
@@ -37323,10 +37889,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24180},
 																											expr: &actionExpr{
-																												pos: position{line: 2860, col: 10, offset: 90451},
-																												run: (*parser).callonListContinuationElement1794,
+																												pos: position{line: 2864, col: 10, offset: 90641},
+																												run: (*parser).callonListContinuationElement1854,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2860, col: 10, offset: 90451},
+																													pos:        position{line: 2864, col: 10, offset: 90641},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37335,28 +37901,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2882, col: 8, offset: 90849},
+																											pos: position{line: 2886, col: 8, offset: 91039},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2869, col: 12, offset: 90622},
-																													run: (*parser).callonListContinuationElement1797,
+																													pos: position{line: 2873, col: 12, offset: 90812},
+																													run: (*parser).callonListContinuationElement1857,
 																													expr: &choiceExpr{
-																														pos: position{line: 2869, col: 13, offset: 90623},
+																														pos: position{line: 2873, col: 13, offset: 90813},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																pos:        position{line: 2873, col: 13, offset: 90813},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																pos:        position{line: 2873, col: 20, offset: 90820},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																pos:        position{line: 2873, col: 29, offset: 90829},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37365,9 +37931,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2879, col: 8, offset: 90799},
+																													pos: position{line: 2883, col: 8, offset: 90989},
 																													expr: &anyMatcher{
-																														line: 2879, col: 9, offset: 90800,
+																														line: 2883, col: 9, offset: 90990,
 																													},
 																												},
 																											},
@@ -37377,7 +37943,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 769, col: 5, offset: 24616},
-																								run: (*parser).callonListContinuationElement1804,
+																								run: (*parser).callonListContinuationElement1864,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 5, offset: 24616},
 																									exprs: []interface{}{
@@ -37386,7 +37952,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 769, col: 16, offset: 24627},
-																												run: (*parser).callonListContinuationElement1807,
+																												run: (*parser).callonListContinuationElement1867,
 																												expr: &seqExpr{
 																													pos: position{line: 769, col: 16, offset: 24627},
 																													exprs: []interface{}{
@@ -37412,10 +37978,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24718},
 																											expr: &actionExpr{
-																												pos: position{line: 2860, col: 10, offset: 90451},
-																												run: (*parser).callonListContinuationElement1813,
+																												pos: position{line: 2864, col: 10, offset: 90641},
+																												run: (*parser).callonListContinuationElement1873,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2860, col: 10, offset: 90451},
+																													pos:        position{line: 2864, col: 10, offset: 90641},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37424,28 +37990,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2882, col: 8, offset: 90849},
+																											pos: position{line: 2886, col: 8, offset: 91039},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2869, col: 12, offset: 90622},
-																													run: (*parser).callonListContinuationElement1816,
+																													pos: position{line: 2873, col: 12, offset: 90812},
+																													run: (*parser).callonListContinuationElement1876,
 																													expr: &choiceExpr{
-																														pos: position{line: 2869, col: 13, offset: 90623},
+																														pos: position{line: 2873, col: 13, offset: 90813},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																pos:        position{line: 2873, col: 13, offset: 90813},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																pos:        position{line: 2873, col: 20, offset: 90820},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																pos:        position{line: 2873, col: 29, offset: 90829},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37454,9 +38020,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2879, col: 8, offset: 90799},
+																													pos: position{line: 2883, col: 8, offset: 90989},
 																													expr: &anyMatcher{
-																														line: 2879, col: 9, offset: 90800,
+																														line: 2883, col: 9, offset: 90990,
 																													},
 																												},
 																											},
@@ -37466,7 +38032,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 783, col: 5, offset: 25092},
-																								run: (*parser).callonListContinuationElement1823,
+																								run: (*parser).callonListContinuationElement1883,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 5, offset: 25092},
 																									exprs: []interface{}{
@@ -37475,7 +38041,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 783, col: 16, offset: 25103},
-																												run: (*parser).callonListContinuationElement1826,
+																												run: (*parser).callonListContinuationElement1886,
 																												expr: &seqExpr{
 																													pos: position{line: 783, col: 16, offset: 25103},
 																													exprs: []interface{}{
@@ -37501,10 +38067,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25194},
 																											expr: &actionExpr{
-																												pos: position{line: 2860, col: 10, offset: 90451},
-																												run: (*parser).callonListContinuationElement1832,
+																												pos: position{line: 2864, col: 10, offset: 90641},
+																												run: (*parser).callonListContinuationElement1892,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2860, col: 10, offset: 90451},
+																													pos:        position{line: 2864, col: 10, offset: 90641},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37513,28 +38079,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2882, col: 8, offset: 90849},
+																											pos: position{line: 2886, col: 8, offset: 91039},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2869, col: 12, offset: 90622},
-																													run: (*parser).callonListContinuationElement1835,
+																													pos: position{line: 2873, col: 12, offset: 90812},
+																													run: (*parser).callonListContinuationElement1895,
 																													expr: &choiceExpr{
-																														pos: position{line: 2869, col: 13, offset: 90623},
+																														pos: position{line: 2873, col: 13, offset: 90813},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																pos:        position{line: 2873, col: 13, offset: 90813},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																pos:        position{line: 2873, col: 20, offset: 90820},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																pos:        position{line: 2873, col: 29, offset: 90829},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37543,9 +38109,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2879, col: 8, offset: 90799},
+																													pos: position{line: 2883, col: 8, offset: 90989},
 																													expr: &anyMatcher{
-																														line: 2879, col: 9, offset: 90800,
+																														line: 2883, col: 9, offset: 90990,
 																													},
 																												},
 																											},
@@ -37555,7 +38121,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 790, col: 5, offset: 25344},
-																								run: (*parser).callonListContinuationElement1842,
+																								run: (*parser).callonListContinuationElement1902,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 5, offset: 25344},
 																									exprs: []interface{}{
@@ -37564,7 +38130,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 790, col: 16, offset: 25355},
-																												run: (*parser).callonListContinuationElement1845,
+																												run: (*parser).callonListContinuationElement1905,
 																												expr: &seqExpr{
 																													pos: position{line: 790, col: 16, offset: 25355},
 																													exprs: []interface{}{
@@ -37590,10 +38156,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25446},
 																											expr: &actionExpr{
-																												pos: position{line: 2860, col: 10, offset: 90451},
-																												run: (*parser).callonListContinuationElement1851,
+																												pos: position{line: 2864, col: 10, offset: 90641},
+																												run: (*parser).callonListContinuationElement1911,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2860, col: 10, offset: 90451},
+																													pos:        position{line: 2864, col: 10, offset: 90641},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37602,28 +38168,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2882, col: 8, offset: 90849},
+																											pos: position{line: 2886, col: 8, offset: 91039},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2869, col: 12, offset: 90622},
-																													run: (*parser).callonListContinuationElement1854,
+																													pos: position{line: 2873, col: 12, offset: 90812},
+																													run: (*parser).callonListContinuationElement1914,
 																													expr: &choiceExpr{
-																														pos: position{line: 2869, col: 13, offset: 90623},
+																														pos: position{line: 2873, col: 13, offset: 90813},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																pos:        position{line: 2873, col: 13, offset: 90813},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																pos:        position{line: 2873, col: 20, offset: 90820},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																pos:        position{line: 2873, col: 29, offset: 90829},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37632,9 +38198,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2879, col: 8, offset: 90799},
+																													pos: position{line: 2883, col: 8, offset: 90989},
 																													expr: &anyMatcher{
-																														line: 2879, col: 9, offset: 90800,
+																														line: 2883, col: 9, offset: 90990,
 																													},
 																												},
 																											},
@@ -37644,7 +38210,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 797, col: 5, offset: 25594},
-																								run: (*parser).callonListContinuationElement1861,
+																								run: (*parser).callonListContinuationElement1921,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 5, offset: 25594},
 																									exprs: []interface{}{
@@ -37653,7 +38219,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 797, col: 16, offset: 25605},
-																												run: (*parser).callonListContinuationElement1864,
+																												run: (*parser).callonListContinuationElement1924,
 																												expr: &seqExpr{
 																													pos: position{line: 797, col: 16, offset: 25605},
 																													exprs: []interface{}{
@@ -37679,10 +38245,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25696},
 																											expr: &actionExpr{
-																												pos: position{line: 2860, col: 10, offset: 90451},
-																												run: (*parser).callonListContinuationElement1870,
+																												pos: position{line: 2864, col: 10, offset: 90641},
+																												run: (*parser).callonListContinuationElement1930,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2860, col: 10, offset: 90451},
+																													pos:        position{line: 2864, col: 10, offset: 90641},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37691,28 +38257,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2882, col: 8, offset: 90849},
+																											pos: position{line: 2886, col: 8, offset: 91039},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2869, col: 12, offset: 90622},
-																													run: (*parser).callonListContinuationElement1873,
+																													pos: position{line: 2873, col: 12, offset: 90812},
+																													run: (*parser).callonListContinuationElement1933,
 																													expr: &choiceExpr{
-																														pos: position{line: 2869, col: 13, offset: 90623},
+																														pos: position{line: 2873, col: 13, offset: 90813},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																pos:        position{line: 2873, col: 13, offset: 90813},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																pos:        position{line: 2873, col: 20, offset: 90820},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																pos:        position{line: 2873, col: 29, offset: 90829},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37721,9 +38287,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2879, col: 8, offset: 90799},
+																													pos: position{line: 2883, col: 8, offset: 90989},
 																													expr: &anyMatcher{
-																														line: 2879, col: 9, offset: 90800,
+																														line: 2883, col: 9, offset: 90990,
 																													},
 																												},
 																											},
@@ -37733,7 +38299,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 804, col: 5, offset: 25840},
-																								run: (*parser).callonListContinuationElement1880,
+																								run: (*parser).callonListContinuationElement1940,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 5, offset: 25840},
 																									exprs: []interface{}{
@@ -37742,7 +38308,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 804, col: 16, offset: 25851},
-																												run: (*parser).callonListContinuationElement1883,
+																												run: (*parser).callonListContinuationElement1943,
 																												expr: &seqExpr{
 																													pos: position{line: 804, col: 16, offset: 25851},
 																													exprs: []interface{}{
@@ -37768,10 +38334,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25942},
 																											expr: &actionExpr{
-																												pos: position{line: 2860, col: 10, offset: 90451},
-																												run: (*parser).callonListContinuationElement1889,
+																												pos: position{line: 2864, col: 10, offset: 90641},
+																												run: (*parser).callonListContinuationElement1949,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2860, col: 10, offset: 90451},
+																													pos:        position{line: 2864, col: 10, offset: 90641},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37780,28 +38346,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2882, col: 8, offset: 90849},
+																											pos: position{line: 2886, col: 8, offset: 91039},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2869, col: 12, offset: 90622},
-																													run: (*parser).callonListContinuationElement1892,
+																													pos: position{line: 2873, col: 12, offset: 90812},
+																													run: (*parser).callonListContinuationElement1952,
 																													expr: &choiceExpr{
-																														pos: position{line: 2869, col: 13, offset: 90623},
+																														pos: position{line: 2873, col: 13, offset: 90813},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 13, offset: 90623},
+																																pos:        position{line: 2873, col: 13, offset: 90813},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 20, offset: 90630},
+																																pos:        position{line: 2873, col: 20, offset: 90820},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2869, col: 29, offset: 90639},
+																																pos:        position{line: 2873, col: 29, offset: 90829},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37810,9 +38376,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2879, col: 8, offset: 90799},
+																													pos: position{line: 2883, col: 8, offset: 90989},
 																													expr: &anyMatcher{
-																														line: 2879, col: 9, offset: 90800,
+																														line: 2883, col: 9, offset: 90990,
 																													},
 																												},
 																											},
@@ -37828,15 +38394,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1520, col: 5, offset: 49220},
+																	pos:   position{line: 1524, col: 5, offset: 49410},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2810, col: 14, offset: 89044},
-																		run: (*parser).callonListContinuationElement1900,
+																		pos: position{line: 2814, col: 14, offset: 89234},
+																		run: (*parser).callonListContinuationElement1960,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2810, col: 14, offset: 89044},
+																			pos: position{line: 2814, col: 14, offset: 89234},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2810, col: 14, offset: 89044},
+																				pos:        position{line: 2814, col: 14, offset: 89234},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -37846,28 +38412,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
-																			run: (*parser).callonListContinuationElement1904,
+																			pos: position{line: 2873, col: 12, offset: 90812},
+																			run: (*parser).callonListContinuationElement1964,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37876,9 +38442,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -37899,33 +38465,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1708, col: 1, offset: 55060},
+			pos:  position{line: 1712, col: 1, offset: 55250},
 			expr: &actionExpr{
-				pos: position{line: 1710, col: 5, offset: 55138},
+				pos: position{line: 1714, col: 5, offset: 55328},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1710, col: 5, offset: 55138},
+					pos: position{line: 1714, col: 5, offset: 55328},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1710, col: 5, offset: 55138},
+							pos: position{line: 1714, col: 5, offset: 55328},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1713, col: 5, offset: 55205},
+							pos:        position{line: 1717, col: 5, offset: 55395},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1713, col: 9, offset: 55209},
+							pos:   position{line: 1717, col: 9, offset: 55399},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1713, col: 14, offset: 55214},
+								pos: position{line: 1717, col: 14, offset: 55404},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1713, col: 14, offset: 55214},
+									pos: position{line: 1717, col: 14, offset: 55404},
 									expr: &charClassMatcher{
-										pos:        position{line: 1713, col: 14, offset: 55214},
+										pos:        position{line: 1717, col: 14, offset: 55404},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -37935,18 +38501,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1713, col: 62, offset: 55262},
+							pos:        position{line: 1717, col: 62, offset: 55452},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1713, col: 66, offset: 55266},
+							pos: position{line: 1717, col: 66, offset: 55456},
 							expr: &actionExpr{
-								pos: position{line: 2860, col: 10, offset: 90451},
+								pos: position{line: 2864, col: 10, offset: 90641},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2860, col: 10, offset: 90451},
+									pos:        position{line: 2864, col: 10, offset: 90641},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -37955,30 +38521,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1713, col: 73, offset: 55273},
+							pos: position{line: 1717, col: 73, offset: 55463},
 							expr: &choiceExpr{
-								pos: position{line: 1713, col: 75, offset: 55275},
+								pos: position{line: 1717, col: 75, offset: 55465},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2869, col: 12, offset: 90622},
+										pos: position{line: 2873, col: 12, offset: 90812},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2869, col: 13, offset: 90623},
+											pos: position{line: 2873, col: 13, offset: 90813},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2869, col: 13, offset: 90623},
+													pos:        position{line: 2873, col: 13, offset: 90813},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2869, col: 20, offset: 90630},
+													pos:        position{line: 2873, col: 20, offset: 90820},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2869, col: 29, offset: 90639},
+													pos:        position{line: 2873, col: 29, offset: 90829},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -37987,13 +38553,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2879, col: 8, offset: 90799},
+										pos: position{line: 2883, col: 8, offset: 90989},
 										expr: &anyMatcher{
-											line: 2879, col: 9, offset: 90800,
+											line: 2883, col: 9, offset: 90990,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1713, col: 81, offset: 55281},
+										pos:  position{line: 1717, col: 81, offset: 55471},
 										name: "Callout",
 									},
 								},
@@ -38005,44 +38571,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1752, col: 1, offset: 56454},
+			pos:  position{line: 1756, col: 1, offset: 56644},
 			expr: &actionExpr{
-				pos: position{line: 1754, col: 5, offset: 56528},
+				pos: position{line: 1758, col: 5, offset: 56718},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1754, col: 5, offset: 56528},
+					pos: position{line: 1758, col: 5, offset: 56718},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1754, col: 5, offset: 56528},
+							pos: position{line: 1758, col: 5, offset: 56718},
 							expr: &seqExpr{
-								pos: position{line: 1754, col: 7, offset: 56530},
+								pos: position{line: 1758, col: 7, offset: 56720},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2750, col: 13, offset: 87546},
+										pos:        position{line: 2754, col: 13, offset: 87736},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1754, col: 16, offset: 56539},
+										pos: position{line: 1758, col: 16, offset: 56729},
 										expr: &seqExpr{
-											pos: position{line: 1754, col: 18, offset: 56541},
+											pos: position{line: 1758, col: 18, offset: 56731},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1754, col: 19, offset: 56542},
+													pos:        position{line: 1758, col: 19, offset: 56732},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2864, col: 11, offset: 90512},
+													pos: position{line: 2868, col: 11, offset: 90702},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2864, col: 11, offset: 90512},
+														pos: position{line: 2868, col: 11, offset: 90702},
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 11, offset: 90512},
+															pos:        position{line: 2868, col: 11, offset: 90702},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38057,88 +38623,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1755, col: 5, offset: 56682},
+							pos:   position{line: 1759, col: 5, offset: 56872},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1755, col: 11, offset: 56688},
+								pos: position{line: 1759, col: 11, offset: 56878},
 								expr: &actionExpr{
-									pos: position{line: 1733, col: 5, offset: 55951},
+									pos: position{line: 1737, col: 5, offset: 56141},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1733, col: 5, offset: 55951},
+										pos: position{line: 1737, col: 5, offset: 56141},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1733, col: 5, offset: 55951},
+												pos: position{line: 1737, col: 5, offset: 56141},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1736, col: 5, offset: 56014},
+												pos:   position{line: 1740, col: 5, offset: 56204},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1736, col: 12, offset: 56021},
+													pos: position{line: 1740, col: 12, offset: 56211},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1736, col: 12, offset: 56021},
+															pos: position{line: 1740, col: 12, offset: 56211},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 12, offset: 56021},
+																pos:        position{line: 1740, col: 12, offset: 56211},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56077},
+															pos: position{line: 1742, col: 13, offset: 56267},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1738, col: 13, offset: 56077},
+																pos:        position{line: 1742, col: 13, offset: 56267},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1740, col: 13, offset: 56135},
+															pos: position{line: 1744, col: 13, offset: 56325},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1740, col: 13, offset: 56135},
+																pos:        position{line: 1744, col: 13, offset: 56325},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1742, col: 13, offset: 56203},
+															pos: position{line: 1746, col: 13, offset: 56393},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1742, col: 13, offset: 56203},
+																pos:        position{line: 1746, col: 13, offset: 56393},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1744, col: 13, offset: 56267},
+															pos: position{line: 1748, col: 13, offset: 56457},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1744, col: 13, offset: 56267},
+																pos:        position{line: 1748, col: 13, offset: 56457},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1746, col: 13, offset: 56331},
+															pos: position{line: 1750, col: 13, offset: 56521},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1746, col: 13, offset: 56331},
+																pos: position{line: 1750, col: 13, offset: 56521},
 																expr: &actionExpr{
-																	pos: position{line: 2864, col: 11, offset: 90512},
+																	pos: position{line: 2868, col: 11, offset: 90702},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2864, col: 11, offset: 90512},
+																		pos: position{line: 2868, col: 11, offset: 90702},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 11, offset: 90512},
+																			pos:        position{line: 2868, col: 11, offset: 90702},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38157,24 +38723,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1756, col: 5, offset: 56710},
+							pos:   position{line: 1760, col: 5, offset: 56900},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1792, col: 5, offset: 57817},
+								pos: position{line: 1796, col: 5, offset: 58007},
 								run: (*parser).callonShortcutParagraph35,
 								expr: &seqExpr{
-									pos: position{line: 1792, col: 5, offset: 57817},
+									pos: position{line: 1796, col: 5, offset: 58007},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1792, col: 5, offset: 57817},
+											pos:   position{line: 1796, col: 5, offset: 58007},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2810, col: 14, offset: 89044},
+												pos: position{line: 2814, col: 14, offset: 89234},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2810, col: 14, offset: 89044},
+													pos: position{line: 2814, col: 14, offset: 89234},
 													expr: &charClassMatcher{
-														pos:        position{line: 2810, col: 14, offset: 89044},
+														pos:        position{line: 2814, col: 14, offset: 89234},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -38184,32 +38750,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1793, col: 5, offset: 57841},
+											pos: position{line: 1797, col: 5, offset: 58031},
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2882, col: 8, offset: 90849},
+											pos: position{line: 2886, col: 8, offset: 91039},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2869, col: 12, offset: 90622},
+													pos: position{line: 2873, col: 12, offset: 90812},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2869, col: 13, offset: 90623},
+														pos: position{line: 2873, col: 13, offset: 90813},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2869, col: 13, offset: 90623},
+																pos:        position{line: 2873, col: 13, offset: 90813},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2869, col: 20, offset: 90630},
+																pos:        position{line: 2873, col: 20, offset: 90820},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2869, col: 29, offset: 90639},
+																pos:        position{line: 2873, col: 29, offset: 90829},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -38218,9 +38784,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2879, col: 8, offset: 90799},
+													pos: position{line: 2883, col: 8, offset: 90989},
 													expr: &anyMatcher{
-														line: 2879, col: 9, offset: 90800,
+														line: 2883, col: 9, offset: 90990,
 													},
 												},
 											},
@@ -38230,28 +38796,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1757, col: 5, offset: 56744},
+							pos: position{line: 1761, col: 5, offset: 56934},
 							run: (*parser).callonShortcutParagraph50,
 						},
 						&labeledExpr{
-							pos:   position{line: 1764, col: 5, offset: 57074},
+							pos:   position{line: 1768, col: 5, offset: 57264},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1764, col: 16, offset: 57085},
+								pos: position{line: 1768, col: 16, offset: 57275},
 								expr: &actionExpr{
-									pos: position{line: 1765, col: 9, offset: 57095},
+									pos: position{line: 1769, col: 9, offset: 57285},
 									run: (*parser).callonShortcutParagraph53,
 									expr: &seqExpr{
-										pos: position{line: 1765, col: 9, offset: 57095},
+										pos: position{line: 1769, col: 9, offset: 57285},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2877, col: 11, offset: 90785},
+												pos: position{line: 2881, col: 11, offset: 90975},
 												expr: &anyMatcher{
-													line: 2877, col: 13, offset: 90787,
+													line: 2881, col: 13, offset: 90977,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1766, col: 9, offset: 57111},
+												pos: position{line: 1770, col: 9, offset: 57301},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21489},
 													run: (*parser).callonShortcutParagraph58,
@@ -38259,18 +38825,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2877, col: 11, offset: 90785},
+																pos: position{line: 2881, col: 11, offset: 90975},
 																expr: &anyMatcher{
-																	line: 2877, col: 13, offset: 90787,
+																	line: 2881, col: 13, offset: 90977,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2860, col: 10, offset: 90451},
+																	pos: position{line: 2864, col: 10, offset: 90641},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2860, col: 10, offset: 90451},
+																		pos:        position{line: 2864, col: 10, offset: 90641},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38279,28 +38845,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2882, col: 8, offset: 90849},
+																pos: position{line: 2886, col: 8, offset: 91039},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2869, col: 12, offset: 90622},
+																		pos: position{line: 2873, col: 12, offset: 90812},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2869, col: 13, offset: 90623},
+																			pos: position{line: 2873, col: 13, offset: 90813},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2869, col: 13, offset: 90623},
+																					pos:        position{line: 2873, col: 13, offset: 90813},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2869, col: 20, offset: 90630},
+																					pos:        position{line: 2873, col: 20, offset: 90820},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2869, col: 29, offset: 90639},
+																					pos:        position{line: 2873, col: 29, offset: 90829},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38309,9 +38875,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2879, col: 8, offset: 90799},
+																		pos: position{line: 2883, col: 8, offset: 90989},
 																		expr: &anyMatcher{
-																			line: 2879, col: 9, offset: 90800,
+																			line: 2883, col: 9, offset: 90990,
 																		},
 																	},
 																},
@@ -38321,14 +38887,14 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1767, col: 9, offset: 57130},
+												pos: position{line: 1771, col: 9, offset: 57320},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1767, col: 10, offset: 57131},
+													pos:  position{line: 1771, col: 10, offset: 57321},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1768, col: 9, offset: 57155},
+												pos: position{line: 1772, col: 9, offset: 57345},
 												expr: &actionExpr{
 													pos: position{line: 724, col: 5, offset: 23042},
 													run: (*parser).callonShortcutParagraph76,
@@ -38338,7 +38904,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 724, col: 5, offset: 23042},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2750, col: 13, offset: 87546},
+																	pos:        position{line: 2754, col: 13, offset: 87736},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -38388,10 +38954,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 742, col: 8, offset: 23686},
 																						expr: &actionExpr{
-																							pos: position{line: 2860, col: 10, offset: 90451},
+																							pos: position{line: 2864, col: 10, offset: 90641},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2860, col: 10, offset: 90451},
+																								pos:        position{line: 2864, col: 10, offset: 90641},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38400,28 +38966,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2882, col: 8, offset: 90849},
+																						pos: position{line: 2886, col: 8, offset: 91039},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2869, col: 12, offset: 90622},
+																								pos: position{line: 2873, col: 12, offset: 90812},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2869, col: 13, offset: 90623},
+																									pos: position{line: 2873, col: 13, offset: 90813},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90623},
+																											pos:        position{line: 2873, col: 13, offset: 90813},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 20, offset: 90630},
+																											pos:        position{line: 2873, col: 20, offset: 90820},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 29, offset: 90639},
+																											pos:        position{line: 2873, col: 29, offset: 90829},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38430,9 +38996,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
+																								pos: position{line: 2883, col: 8, offset: 90989},
 																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																									line: 2883, col: 9, offset: 90990,
 																								},
 																							},
 																						},
@@ -38477,10 +39043,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 749, col: 8, offset: 23934},
 																						expr: &actionExpr{
-																							pos: position{line: 2860, col: 10, offset: 90451},
+																							pos: position{line: 2864, col: 10, offset: 90641},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2860, col: 10, offset: 90451},
+																								pos:        position{line: 2864, col: 10, offset: 90641},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38489,28 +39055,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2882, col: 8, offset: 90849},
+																						pos: position{line: 2886, col: 8, offset: 91039},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2869, col: 12, offset: 90622},
+																								pos: position{line: 2873, col: 12, offset: 90812},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2869, col: 13, offset: 90623},
+																									pos: position{line: 2873, col: 13, offset: 90813},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90623},
+																											pos:        position{line: 2873, col: 13, offset: 90813},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 20, offset: 90630},
+																											pos:        position{line: 2873, col: 20, offset: 90820},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 29, offset: 90639},
+																											pos:        position{line: 2873, col: 29, offset: 90829},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38519,9 +39085,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
+																								pos: position{line: 2883, col: 8, offset: 90989},
 																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																									line: 2883, col: 9, offset: 90990,
 																								},
 																							},
 																						},
@@ -38562,10 +39128,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 760, col: 52, offset: 24346},
 																						expr: &actionExpr{
-																							pos: position{line: 2860, col: 10, offset: 90451},
+																							pos: position{line: 2864, col: 10, offset: 90641},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2860, col: 10, offset: 90451},
+																								pos:        position{line: 2864, col: 10, offset: 90641},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38574,28 +39140,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2882, col: 8, offset: 90849},
+																						pos: position{line: 2886, col: 8, offset: 91039},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2869, col: 12, offset: 90622},
+																								pos: position{line: 2873, col: 12, offset: 90812},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2869, col: 13, offset: 90623},
+																									pos: position{line: 2873, col: 13, offset: 90813},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90623},
+																											pos:        position{line: 2873, col: 13, offset: 90813},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 20, offset: 90630},
+																											pos:        position{line: 2873, col: 20, offset: 90820},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 29, offset: 90639},
+																											pos:        position{line: 2873, col: 29, offset: 90829},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38604,9 +39170,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
+																								pos: position{line: 2883, col: 8, offset: 90989},
 																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																									line: 2883, col: 9, offset: 90990,
 																								},
 																							},
 																						},
@@ -38651,10 +39217,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 756, col: 8, offset: 24180},
 																						expr: &actionExpr{
-																							pos: position{line: 2860, col: 10, offset: 90451},
+																							pos: position{line: 2864, col: 10, offset: 90641},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2860, col: 10, offset: 90451},
+																								pos:        position{line: 2864, col: 10, offset: 90641},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38663,28 +39229,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2882, col: 8, offset: 90849},
+																						pos: position{line: 2886, col: 8, offset: 91039},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2869, col: 12, offset: 90622},
+																								pos: position{line: 2873, col: 12, offset: 90812},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2869, col: 13, offset: 90623},
+																									pos: position{line: 2873, col: 13, offset: 90813},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90623},
+																											pos:        position{line: 2873, col: 13, offset: 90813},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 20, offset: 90630},
+																											pos:        position{line: 2873, col: 20, offset: 90820},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 29, offset: 90639},
+																											pos:        position{line: 2873, col: 29, offset: 90829},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38693,9 +39259,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
+																								pos: position{line: 2883, col: 8, offset: 90989},
 																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																									line: 2883, col: 9, offset: 90990,
 																								},
 																							},
 																						},
@@ -38740,10 +39306,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 771, col: 8, offset: 24718},
 																						expr: &actionExpr{
-																							pos: position{line: 2860, col: 10, offset: 90451},
+																							pos: position{line: 2864, col: 10, offset: 90641},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2860, col: 10, offset: 90451},
+																								pos:        position{line: 2864, col: 10, offset: 90641},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38752,28 +39318,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2882, col: 8, offset: 90849},
+																						pos: position{line: 2886, col: 8, offset: 91039},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2869, col: 12, offset: 90622},
+																								pos: position{line: 2873, col: 12, offset: 90812},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2869, col: 13, offset: 90623},
+																									pos: position{line: 2873, col: 13, offset: 90813},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90623},
+																											pos:        position{line: 2873, col: 13, offset: 90813},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 20, offset: 90630},
+																											pos:        position{line: 2873, col: 20, offset: 90820},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 29, offset: 90639},
+																											pos:        position{line: 2873, col: 29, offset: 90829},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38782,9 +39348,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
+																								pos: position{line: 2883, col: 8, offset: 90989},
 																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																									line: 2883, col: 9, offset: 90990,
 																								},
 																							},
 																						},
@@ -38829,10 +39395,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 785, col: 8, offset: 25194},
 																						expr: &actionExpr{
-																							pos: position{line: 2860, col: 10, offset: 90451},
+																							pos: position{line: 2864, col: 10, offset: 90641},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2860, col: 10, offset: 90451},
+																								pos:        position{line: 2864, col: 10, offset: 90641},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38841,28 +39407,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2882, col: 8, offset: 90849},
+																						pos: position{line: 2886, col: 8, offset: 91039},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2869, col: 12, offset: 90622},
+																								pos: position{line: 2873, col: 12, offset: 90812},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2869, col: 13, offset: 90623},
+																									pos: position{line: 2873, col: 13, offset: 90813},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90623},
+																											pos:        position{line: 2873, col: 13, offset: 90813},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 20, offset: 90630},
+																											pos:        position{line: 2873, col: 20, offset: 90820},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 29, offset: 90639},
+																											pos:        position{line: 2873, col: 29, offset: 90829},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38871,9 +39437,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
+																								pos: position{line: 2883, col: 8, offset: 90989},
 																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																									line: 2883, col: 9, offset: 90990,
 																								},
 																							},
 																						},
@@ -38918,10 +39484,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 792, col: 8, offset: 25446},
 																						expr: &actionExpr{
-																							pos: position{line: 2860, col: 10, offset: 90451},
+																							pos: position{line: 2864, col: 10, offset: 90641},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2860, col: 10, offset: 90451},
+																								pos:        position{line: 2864, col: 10, offset: 90641},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38930,28 +39496,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2882, col: 8, offset: 90849},
+																						pos: position{line: 2886, col: 8, offset: 91039},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2869, col: 12, offset: 90622},
+																								pos: position{line: 2873, col: 12, offset: 90812},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2869, col: 13, offset: 90623},
+																									pos: position{line: 2873, col: 13, offset: 90813},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90623},
+																											pos:        position{line: 2873, col: 13, offset: 90813},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 20, offset: 90630},
+																											pos:        position{line: 2873, col: 20, offset: 90820},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 29, offset: 90639},
+																											pos:        position{line: 2873, col: 29, offset: 90829},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38960,9 +39526,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
+																								pos: position{line: 2883, col: 8, offset: 90989},
 																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																									line: 2883, col: 9, offset: 90990,
 																								},
 																							},
 																						},
@@ -39007,10 +39573,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 799, col: 8, offset: 25696},
 																						expr: &actionExpr{
-																							pos: position{line: 2860, col: 10, offset: 90451},
+																							pos: position{line: 2864, col: 10, offset: 90641},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2860, col: 10, offset: 90451},
+																								pos:        position{line: 2864, col: 10, offset: 90641},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39019,28 +39585,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2882, col: 8, offset: 90849},
+																						pos: position{line: 2886, col: 8, offset: 91039},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2869, col: 12, offset: 90622},
+																								pos: position{line: 2873, col: 12, offset: 90812},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2869, col: 13, offset: 90623},
+																									pos: position{line: 2873, col: 13, offset: 90813},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90623},
+																											pos:        position{line: 2873, col: 13, offset: 90813},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 20, offset: 90630},
+																											pos:        position{line: 2873, col: 20, offset: 90820},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 29, offset: 90639},
+																											pos:        position{line: 2873, col: 29, offset: 90829},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39049,9 +39615,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
+																								pos: position{line: 2883, col: 8, offset: 90989},
 																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																									line: 2883, col: 9, offset: 90990,
 																								},
 																							},
 																						},
@@ -39096,10 +39662,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 806, col: 8, offset: 25942},
 																						expr: &actionExpr{
-																							pos: position{line: 2860, col: 10, offset: 90451},
+																							pos: position{line: 2864, col: 10, offset: 90641},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2860, col: 10, offset: 90451},
+																								pos:        position{line: 2864, col: 10, offset: 90641},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39108,28 +39674,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2882, col: 8, offset: 90849},
+																						pos: position{line: 2886, col: 8, offset: 91039},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2869, col: 12, offset: 90622},
+																								pos: position{line: 2873, col: 12, offset: 90812},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2869, col: 13, offset: 90623},
+																									pos: position{line: 2873, col: 13, offset: 90813},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 13, offset: 90623},
+																											pos:        position{line: 2873, col: 13, offset: 90813},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 20, offset: 90630},
+																											pos:        position{line: 2873, col: 20, offset: 90820},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2869, col: 29, offset: 90639},
+																											pos:        position{line: 2873, col: 29, offset: 90829},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39138,9 +39704,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2879, col: 8, offset: 90799},
+																								pos: position{line: 2883, col: 8, offset: 90989},
 																								expr: &anyMatcher{
-																									line: 2879, col: 9, offset: 90800,
+																									line: 2883, col: 9, offset: 90990,
 																								},
 																							},
 																						},
@@ -39156,23 +39722,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1769, col: 9, offset: 57179},
+												pos: position{line: 1773, col: 9, offset: 57369},
 												expr: &seqExpr{
-													pos: position{line: 1544, col: 27, offset: 49848},
+													pos: position{line: 1548, col: 27, offset: 50038},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1544, col: 27, offset: 49848},
+															pos:        position{line: 1548, col: 27, offset: 50038},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1544, col: 31, offset: 49852},
+															pos: position{line: 1548, col: 31, offset: 50042},
 															expr: &actionExpr{
-																pos: position{line: 2860, col: 10, offset: 90451},
+																pos: position{line: 2864, col: 10, offset: 90641},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2860, col: 10, offset: 90451},
+																	pos:        position{line: 2864, col: 10, offset: 90641},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39181,25 +39747,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2869, col: 12, offset: 90622},
+															pos: position{line: 2873, col: 12, offset: 90812},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2869, col: 13, offset: 90623},
+																pos: position{line: 2873, col: 13, offset: 90813},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 13, offset: 90623},
+																		pos:        position{line: 2873, col: 13, offset: 90813},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 20, offset: 90630},
+																		pos:        position{line: 2873, col: 20, offset: 90820},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 29, offset: 90639},
+																		pos:        position{line: 2873, col: 29, offset: 90829},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -39211,42 +39777,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1770, col: 9, offset: 57211},
+												pos:   position{line: 1774, col: 9, offset: 57401},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1770, col: 15, offset: 57217},
+													pos: position{line: 1774, col: 15, offset: 57407},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2470, col: 22, offset: 79436},
+															pos: position{line: 2474, col: 22, offset: 79626},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2470, col: 22, offset: 79436},
+																pos: position{line: 2474, col: 22, offset: 79626},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2475, col: 31, offset: 79657},
+																		pos:        position{line: 2479, col: 31, offset: 79847},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2475, col: 36, offset: 79662},
+																		pos: position{line: 2479, col: 36, offset: 79852},
 																		expr: &litMatcher{
-																			pos:        position{line: 2475, col: 37, offset: 79663},
+																			pos:        position{line: 2479, col: 37, offset: 79853},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2470, col: 49, offset: 79463},
+																		pos:   position{line: 2474, col: 49, offset: 79653},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2806, col: 13, offset: 88977},
+																			pos: position{line: 2810, col: 13, offset: 89167},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2806, col: 13, offset: 88977},
+																				pos: position{line: 2810, col: 13, offset: 89167},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2806, col: 13, offset: 88977},
+																					pos:        position{line: 2810, col: 13, offset: 89167},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39256,28 +39822,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2882, col: 8, offset: 90849},
+																		pos: position{line: 2886, col: 8, offset: 91039},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90622},
+																				pos: position{line: 2873, col: 12, offset: 90812},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2869, col: 13, offset: 90623},
+																					pos: position{line: 2873, col: 13, offset: 90813},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							pos:        position{line: 2873, col: 13, offset: 90813},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							pos:        position{line: 2873, col: 20, offset: 90820},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							pos:        position{line: 2873, col: 29, offset: 90829},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39286,9 +39852,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2879, col: 8, offset: 90799},
+																				pos: position{line: 2883, col: 8, offset: 90989},
 																				expr: &anyMatcher{
-																					line: 2879, col: 9, offset: 90800,
+																					line: 2883, col: 9, offset: 90990,
 																				},
 																			},
 																		},
@@ -39297,21 +39863,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1792, col: 5, offset: 57817},
+															pos: position{line: 1796, col: 5, offset: 58007},
 															run: (*parser).callonShortcutParagraph282,
 															expr: &seqExpr{
-																pos: position{line: 1792, col: 5, offset: 57817},
+																pos: position{line: 1796, col: 5, offset: 58007},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1792, col: 5, offset: 57817},
+																		pos:   position{line: 1796, col: 5, offset: 58007},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2810, col: 14, offset: 89044},
+																			pos: position{line: 2814, col: 14, offset: 89234},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2810, col: 14, offset: 89044},
+																				pos: position{line: 2814, col: 14, offset: 89234},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2810, col: 14, offset: 89044},
+																					pos:        position{line: 2814, col: 14, offset: 89234},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39321,32 +39887,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1793, col: 5, offset: 57841},
+																		pos: position{line: 1797, col: 5, offset: 58031},
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2882, col: 8, offset: 90849},
+																		pos: position{line: 2886, col: 8, offset: 91039},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90622},
+																				pos: position{line: 2873, col: 12, offset: 90812},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2869, col: 13, offset: 90623},
+																					pos: position{line: 2873, col: 13, offset: 90813},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							pos:        position{line: 2873, col: 13, offset: 90813},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							pos:        position{line: 2873, col: 20, offset: 90820},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							pos:        position{line: 2873, col: 29, offset: 90829},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39355,9 +39921,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2879, col: 8, offset: 90799},
+																				pos: position{line: 2883, col: 8, offset: 90989},
 																				expr: &anyMatcher{
-																					line: 2879, col: 9, offset: 90800,
+																					line: 2883, col: 9, offset: 90990,
 																				},
 																			},
 																		},
@@ -39379,96 +39945,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1777, col: 1, offset: 57421},
+			pos:  position{line: 1781, col: 1, offset: 57611},
 			expr: &actionExpr{
-				pos: position{line: 1778, col: 5, offset: 57439},
+				pos: position{line: 1782, col: 5, offset: 57629},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1778, col: 5, offset: 57439},
+					pos: position{line: 1782, col: 5, offset: 57629},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1778, col: 5, offset: 57439},
+							pos:   position{line: 1782, col: 5, offset: 57629},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1778, col: 11, offset: 57445},
+								pos: position{line: 1782, col: 11, offset: 57635},
 								expr: &actionExpr{
-									pos: position{line: 1733, col: 5, offset: 55951},
+									pos: position{line: 1737, col: 5, offset: 56141},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1733, col: 5, offset: 55951},
+										pos: position{line: 1737, col: 5, offset: 56141},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1733, col: 5, offset: 55951},
+												pos: position{line: 1737, col: 5, offset: 56141},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1736, col: 5, offset: 56014},
+												pos:   position{line: 1740, col: 5, offset: 56204},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1736, col: 12, offset: 56021},
+													pos: position{line: 1740, col: 12, offset: 56211},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1736, col: 12, offset: 56021},
+															pos: position{line: 1740, col: 12, offset: 56211},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1736, col: 12, offset: 56021},
+																pos:        position{line: 1740, col: 12, offset: 56211},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1738, col: 13, offset: 56077},
+															pos: position{line: 1742, col: 13, offset: 56267},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1738, col: 13, offset: 56077},
+																pos:        position{line: 1742, col: 13, offset: 56267},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1740, col: 13, offset: 56135},
+															pos: position{line: 1744, col: 13, offset: 56325},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1740, col: 13, offset: 56135},
+																pos:        position{line: 1744, col: 13, offset: 56325},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1742, col: 13, offset: 56203},
+															pos: position{line: 1746, col: 13, offset: 56393},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1742, col: 13, offset: 56203},
+																pos:        position{line: 1746, col: 13, offset: 56393},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1744, col: 13, offset: 56267},
+															pos: position{line: 1748, col: 13, offset: 56457},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1744, col: 13, offset: 56267},
+																pos:        position{line: 1748, col: 13, offset: 56457},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1746, col: 13, offset: 56331},
+															pos: position{line: 1750, col: 13, offset: 56521},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1746, col: 13, offset: 56331},
+																pos: position{line: 1750, col: 13, offset: 56521},
 																expr: &actionExpr{
-																	pos: position{line: 2864, col: 11, offset: 90512},
+																	pos: position{line: 2868, col: 11, offset: 90702},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2864, col: 11, offset: 90512},
+																		pos: position{line: 2868, col: 11, offset: 90702},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 11, offset: 90512},
+																			pos:        position{line: 2868, col: 11, offset: 90702},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39487,24 +40053,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1779, col: 5, offset: 57468},
+							pos:   position{line: 1783, col: 5, offset: 57658},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1792, col: 5, offset: 57817},
+								pos: position{line: 1796, col: 5, offset: 58007},
 								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1792, col: 5, offset: 57817},
+									pos: position{line: 1796, col: 5, offset: 58007},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1792, col: 5, offset: 57817},
+											pos:   position{line: 1796, col: 5, offset: 58007},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2810, col: 14, offset: 89044},
+												pos: position{line: 2814, col: 14, offset: 89234},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2810, col: 14, offset: 89044},
+													pos: position{line: 2814, col: 14, offset: 89234},
 													expr: &charClassMatcher{
-														pos:        position{line: 2810, col: 14, offset: 89044},
+														pos:        position{line: 2814, col: 14, offset: 89234},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39514,32 +40080,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1793, col: 5, offset: 57841},
+											pos: position{line: 1797, col: 5, offset: 58031},
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2882, col: 8, offset: 90849},
+											pos: position{line: 2886, col: 8, offset: 91039},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2869, col: 12, offset: 90622},
+													pos: position{line: 2873, col: 12, offset: 90812},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2869, col: 13, offset: 90623},
+														pos: position{line: 2873, col: 13, offset: 90813},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2869, col: 13, offset: 90623},
+																pos:        position{line: 2873, col: 13, offset: 90813},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2869, col: 20, offset: 90630},
+																pos:        position{line: 2873, col: 20, offset: 90820},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2869, col: 29, offset: 90639},
+																pos:        position{line: 2873, col: 29, offset: 90829},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39548,9 +40114,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2879, col: 8, offset: 90799},
+													pos: position{line: 2883, col: 8, offset: 90989},
 													expr: &anyMatcher{
-														line: 2879, col: 9, offset: 90800,
+														line: 2883, col: 9, offset: 90990,
 													},
 												},
 											},
@@ -39560,24 +40126,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1780, col: 5, offset: 57502},
+							pos:   position{line: 1784, col: 5, offset: 57692},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1780, col: 16, offset: 57513},
+								pos: position{line: 1784, col: 16, offset: 57703},
 								expr: &actionExpr{
-									pos: position{line: 1781, col: 9, offset: 57523},
+									pos: position{line: 1785, col: 9, offset: 57713},
 									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1781, col: 9, offset: 57523},
+										pos: position{line: 1785, col: 9, offset: 57713},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2877, col: 11, offset: 90785},
+												pos: position{line: 2881, col: 11, offset: 90975},
 												expr: &anyMatcher{
-													line: 2877, col: 13, offset: 90787,
+													line: 2881, col: 13, offset: 90977,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1782, col: 9, offset: 57538},
+												pos: position{line: 1786, col: 9, offset: 57728},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21489},
 													run: (*parser).callonParagraph48,
@@ -39585,18 +40151,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2877, col: 11, offset: 90785},
+																pos: position{line: 2881, col: 11, offset: 90975},
 																expr: &anyMatcher{
-																	line: 2877, col: 13, offset: 90787,
+																	line: 2881, col: 13, offset: 90977,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2860, col: 10, offset: 90451},
+																	pos: position{line: 2864, col: 10, offset: 90641},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2860, col: 10, offset: 90451},
+																		pos:        position{line: 2864, col: 10, offset: 90641},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39605,28 +40171,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2882, col: 8, offset: 90849},
+																pos: position{line: 2886, col: 8, offset: 91039},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2869, col: 12, offset: 90622},
+																		pos: position{line: 2873, col: 12, offset: 90812},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2869, col: 13, offset: 90623},
+																			pos: position{line: 2873, col: 13, offset: 90813},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2869, col: 13, offset: 90623},
+																					pos:        position{line: 2873, col: 13, offset: 90813},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2869, col: 20, offset: 90630},
+																					pos:        position{line: 2873, col: 20, offset: 90820},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2869, col: 29, offset: 90639},
+																					pos:        position{line: 2873, col: 29, offset: 90829},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39635,9 +40201,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2879, col: 8, offset: 90799},
+																		pos: position{line: 2883, col: 8, offset: 90989},
 																		expr: &anyMatcher{
-																			line: 2879, col: 9, offset: 90800,
+																			line: 2883, col: 9, offset: 90990,
 																		},
 																	},
 																},
@@ -39647,49 +40213,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1783, col: 9, offset: 57557},
+												pos: position{line: 1787, col: 9, offset: 57747},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1783, col: 10, offset: 57558},
+													pos:  position{line: 1787, col: 10, offset: 57748},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1784, col: 9, offset: 57582},
+												pos:   position{line: 1788, col: 9, offset: 57772},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1784, col: 15, offset: 57588},
+													pos: position{line: 1788, col: 15, offset: 57778},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2470, col: 22, offset: 79436},
+															pos: position{line: 2474, col: 22, offset: 79626},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2470, col: 22, offset: 79436},
+																pos: position{line: 2474, col: 22, offset: 79626},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2475, col: 31, offset: 79657},
+																		pos:        position{line: 2479, col: 31, offset: 79847},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2475, col: 36, offset: 79662},
+																		pos: position{line: 2479, col: 36, offset: 79852},
 																		expr: &litMatcher{
-																			pos:        position{line: 2475, col: 37, offset: 79663},
+																			pos:        position{line: 2479, col: 37, offset: 79853},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2470, col: 49, offset: 79463},
+																		pos:   position{line: 2474, col: 49, offset: 79653},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2806, col: 13, offset: 88977},
+																			pos: position{line: 2810, col: 13, offset: 89167},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2806, col: 13, offset: 88977},
+																				pos: position{line: 2810, col: 13, offset: 89167},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2806, col: 13, offset: 88977},
+																					pos:        position{line: 2810, col: 13, offset: 89167},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39699,28 +40265,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2882, col: 8, offset: 90849},
+																		pos: position{line: 2886, col: 8, offset: 91039},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90622},
+																				pos: position{line: 2873, col: 12, offset: 90812},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2869, col: 13, offset: 90623},
+																					pos: position{line: 2873, col: 13, offset: 90813},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							pos:        position{line: 2873, col: 13, offset: 90813},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							pos:        position{line: 2873, col: 20, offset: 90820},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							pos:        position{line: 2873, col: 29, offset: 90829},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39729,9 +40295,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2879, col: 8, offset: 90799},
+																				pos: position{line: 2883, col: 8, offset: 90989},
 																				expr: &anyMatcher{
-																					line: 2879, col: 9, offset: 90800,
+																					line: 2883, col: 9, offset: 90990,
 																				},
 																			},
 																		},
@@ -39740,21 +40306,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1792, col: 5, offset: 57817},
+															pos: position{line: 1796, col: 5, offset: 58007},
 															run: (*parser).callonParagraph84,
 															expr: &seqExpr{
-																pos: position{line: 1792, col: 5, offset: 57817},
+																pos: position{line: 1796, col: 5, offset: 58007},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1792, col: 5, offset: 57817},
+																		pos:   position{line: 1796, col: 5, offset: 58007},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2810, col: 14, offset: 89044},
+																			pos: position{line: 2814, col: 14, offset: 89234},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2810, col: 14, offset: 89044},
+																				pos: position{line: 2814, col: 14, offset: 89234},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2810, col: 14, offset: 89044},
+																					pos:        position{line: 2814, col: 14, offset: 89234},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39764,32 +40330,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1793, col: 5, offset: 57841},
+																		pos: position{line: 1797, col: 5, offset: 58031},
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2882, col: 8, offset: 90849},
+																		pos: position{line: 2886, col: 8, offset: 91039},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90622},
+																				pos: position{line: 2873, col: 12, offset: 90812},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2869, col: 13, offset: 90623},
+																					pos: position{line: 2873, col: 13, offset: 90813},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							pos:        position{line: 2873, col: 13, offset: 90813},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							pos:        position{line: 2873, col: 20, offset: 90820},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							pos:        position{line: 2873, col: 29, offset: 90829},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39798,9 +40364,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2879, col: 8, offset: 90799},
+																				pos: position{line: 2883, col: 8, offset: 90989},
 																				expr: &anyMatcher{
-																					line: 2879, col: 9, offset: 90800,
+																					line: 2883, col: 9, offset: 90990,
 																				},
 																			},
 																		},
@@ -39822,16 +40388,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1803, col: 1, offset: 58327},
+			pos:  position{line: 1807, col: 1, offset: 58517},
 			expr: &choiceExpr{
-				pos: position{line: 1803, col: 15, offset: 58341},
+				pos: position{line: 1807, col: 15, offset: 58531},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1803, col: 15, offset: 58341},
+						pos:  position{line: 1807, col: 15, offset: 58531},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1803, col: 35, offset: 58361},
+						pos:  position{line: 1807, col: 35, offset: 58551},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -39839,65 +40405,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1805, col: 1, offset: 58382},
+			pos:  position{line: 1809, col: 1, offset: 58572},
 			expr: &actionExpr{
-				pos: position{line: 1806, col: 5, offset: 58407},
+				pos: position{line: 1810, col: 5, offset: 58597},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1806, col: 5, offset: 58407},
+					pos: position{line: 1810, col: 5, offset: 58597},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1806, col: 5, offset: 58407},
+							pos:   position{line: 1810, col: 5, offset: 58597},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1806, col: 16, offset: 58418},
+								pos: position{line: 1810, col: 16, offset: 58608},
 								expr: &actionExpr{
-									pos: position{line: 1806, col: 17, offset: 58419},
+									pos: position{line: 1810, col: 17, offset: 58609},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1806, col: 17, offset: 58419},
+										pos:  position{line: 1810, col: 17, offset: 58609},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1809, col: 5, offset: 58487},
+							pos: position{line: 1813, col: 5, offset: 58677},
 							expr: &litMatcher{
-								pos:        position{line: 1809, col: 7, offset: 58489},
+								pos:        position{line: 1813, col: 7, offset: 58679},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1810, col: 5, offset: 58498},
+							pos:   position{line: 1814, col: 5, offset: 58688},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1811, col: 9, offset: 58516},
+								pos: position{line: 1815, col: 9, offset: 58706},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1811, col: 9, offset: 58516},
+										pos:  position{line: 1815, col: 9, offset: 58706},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1812, col: 11, offset: 58543},
+										pos:  position{line: 1816, col: 11, offset: 58733},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1813, col: 11, offset: 58571},
+										pos:  position{line: 1817, col: 11, offset: 58761},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1814, col: 11, offset: 58602},
+										pos:  position{line: 1818, col: 11, offset: 58792},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 11, offset: 58630},
+										pos:  position{line: 1819, col: 11, offset: 58820},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1816, col: 11, offset: 58661},
+										pos:  position{line: 1820, col: 11, offset: 58851},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -39909,36 +40475,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1821, col: 1, offset: 58781},
+			pos:  position{line: 1825, col: 1, offset: 58971},
 			expr: &actionExpr{
-				pos: position{line: 1822, col: 5, offset: 58823},
+				pos: position{line: 1826, col: 5, offset: 59013},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1822, col: 5, offset: 58823},
+					pos: position{line: 1826, col: 5, offset: 59013},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1822, col: 5, offset: 58823},
+							pos:   position{line: 1826, col: 5, offset: 59013},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1822, col: 16, offset: 58834},
+								pos: position{line: 1826, col: 16, offset: 59024},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1822, col: 17, offset: 58835},
+									pos:  position{line: 1826, col: 17, offset: 59025},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1823, col: 5, offset: 58860},
+							pos:   position{line: 1827, col: 5, offset: 59050},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1823, col: 14, offset: 58869},
+								pos: position{line: 1827, col: 14, offset: 59059},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1823, col: 14, offset: 58869},
+										pos:  position{line: 1827, col: 14, offset: 59059},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1823, col: 33, offset: 58888},
+										pos:  position{line: 1827, col: 33, offset: 59078},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -39950,32 +40516,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1831, col: 1, offset: 59119},
+			pos:  position{line: 1835, col: 1, offset: 59309},
 			expr: &choiceExpr{
-				pos: position{line: 1832, col: 5, offset: 59144},
+				pos: position{line: 1836, col: 5, offset: 59334},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1832, col: 5, offset: 59144},
+						pos:  position{line: 1836, col: 5, offset: 59334},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1833, col: 7, offset: 59171},
+						pos:  position{line: 1837, col: 7, offset: 59361},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1834, col: 7, offset: 59199},
+						pos:  position{line: 1838, col: 7, offset: 59389},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1835, col: 7, offset: 59231},
+						pos:  position{line: 1839, col: 7, offset: 59421},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1836, col: 7, offset: 59259},
+						pos:  position{line: 1840, col: 7, offset: 59449},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1837, col: 7, offset: 59280},
+						pos:  position{line: 1841, col: 7, offset: 59470},
 						name: "SuperscriptText",
 					},
 				},
@@ -39983,24 +40549,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1839, col: 1, offset: 59298},
+			pos:  position{line: 1843, col: 1, offset: 59488},
 			expr: &choiceExpr{
-				pos: position{line: 1840, col: 5, offset: 59323},
+				pos: position{line: 1844, col: 5, offset: 59513},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1840, col: 5, offset: 59323},
+						pos:  position{line: 1844, col: 5, offset: 59513},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1841, col: 7, offset: 59349},
+						pos:  position{line: 1845, col: 7, offset: 59539},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1842, col: 7, offset: 59377},
+						pos:  position{line: 1846, col: 7, offset: 59567},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1843, col: 7, offset: 59408},
+						pos:  position{line: 1847, col: 7, offset: 59598},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40008,26 +40574,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1857, col: 1, offset: 59762},
+			pos:  position{line: 1861, col: 1, offset: 59952},
 			expr: &choiceExpr{
-				pos: position{line: 1858, col: 5, offset: 59788},
+				pos: position{line: 1862, col: 5, offset: 59978},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2759, col: 5, offset: 87693},
+						pos: position{line: 2763, col: 5, offset: 87883},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2759, col: 5, offset: 87693},
+							pos: position{line: 2763, col: 5, offset: 87883},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2759, col: 5, offset: 87693},
+									pos:   position{line: 2763, col: 5, offset: 87883},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2759, col: 11, offset: 87699},
+										pos: position{line: 2763, col: 11, offset: 87889},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2759, col: 11, offset: 87699},
+											pos: position{line: 2763, col: 11, offset: 87889},
 											expr: &charClassMatcher{
-												pos:        position{line: 2759, col: 11, offset: 87699},
+												pos:        position{line: 2763, col: 11, offset: 87889},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40037,36 +40603,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2762, col: 5, offset: 87757},
+									pos: position{line: 2766, col: 5, offset: 87947},
 									expr: &seqExpr{
-										pos: position{line: 2763, col: 9, offset: 87768},
+										pos: position{line: 2767, col: 9, offset: 87958},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2763, col: 9, offset: 87768},
+												pos:        position{line: 2767, col: 9, offset: 87958},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2764, col: 9, offset: 87817},
+												pos: position{line: 2768, col: 9, offset: 88007},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2768, col: 5, offset: 87897},
+									pos: position{line: 2772, col: 5, offset: 88087},
 									expr: &seqExpr{
-										pos: position{line: 2769, col: 9, offset: 87908},
+										pos: position{line: 2773, col: 9, offset: 88098},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2769, col: 9, offset: 87908},
+												pos:        position{line: 2773, col: 9, offset: 88098},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2769, col: 13, offset: 87912},
+												pos:        position{line: 2773, col: 13, offset: 88102},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40079,12 +40645,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2864, col: 11, offset: 90512},
+						pos: position{line: 2868, col: 11, offset: 90702},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2864, col: 11, offset: 90512},
+							pos: position{line: 2868, col: 11, offset: 90702},
 							expr: &charClassMatcher{
-								pos:        position{line: 2864, col: 11, offset: 90512},
+								pos:        position{line: 2868, col: 11, offset: 90702},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40093,25 +40659,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1860, col: 7, offset: 59851},
+						pos:  position{line: 1864, col: 7, offset: 60041},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2488, col: 5, offset: 80153},
+						pos: position{line: 2492, col: 5, offset: 80343},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2488, col: 5, offset: 80153},
+							pos: position{line: 2492, col: 5, offset: 80343},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2488, col: 5, offset: 80153},
+									pos:        position{line: 2492, col: 5, offset: 80343},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2488, col: 10, offset: 80158},
+									pos: position{line: 2492, col: 10, offset: 80348},
 									expr: &charClassMatcher{
-										pos:        position{line: 2488, col: 11, offset: 80159},
+										pos:        position{line: 2492, col: 11, offset: 80349},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40122,29 +40688,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2494, col: 5, offset: 80351},
+						pos: position{line: 2498, col: 5, offset: 80541},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2494, col: 5, offset: 80351},
+							pos: position{line: 2498, col: 5, offset: 80541},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2494, col: 5, offset: 80351},
+									pos: position{line: 2498, col: 5, offset: 80541},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2497, col: 5, offset: 80422},
+									pos: position{line: 2501, col: 5, offset: 80612},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2501, col: 5, offset: 80547},
+									pos:        position{line: 2505, col: 5, offset: 80737},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2501, col: 9, offset: 80551},
+									pos: position{line: 2505, col: 9, offset: 80741},
 									expr: &charClassMatcher{
-										pos:        position{line: 2501, col: 10, offset: 80552},
+										pos:        position{line: 2505, col: 10, offset: 80742},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -40155,27 +40721,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2777, col: 5, offset: 88105},
+						pos: position{line: 2781, col: 5, offset: 88295},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2778, col: 9, offset: 88115},
+							pos: position{line: 2782, col: 9, offset: 88305},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2778, col: 10, offset: 88116},
+									pos:        position{line: 2782, col: 10, offset: 88306},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2780, col: 13, offset: 88213},
+									pos: position{line: 2784, col: 13, offset: 88403},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2780, col: 13, offset: 88213},
+											pos: position{line: 2784, col: 13, offset: 88403},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2783, col: 13, offset: 88313},
+											pos:        position{line: 2787, col: 13, offset: 88503},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -40183,20 +40749,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2783, col: 19, offset: 88319},
+									pos:        position{line: 2787, col: 19, offset: 88509},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2786, col: 13, offset: 88357},
+									pos: position{line: 2790, col: 13, offset: 88547},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2786, col: 13, offset: 88357},
+											pos: position{line: 2790, col: 13, offset: 88547},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2789, col: 14, offset: 88450},
+											pos:        position{line: 2793, col: 14, offset: 88640},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -40205,18 +40771,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2791, col: 12, offset: 88494},
+									pos: position{line: 2795, col: 12, offset: 88684},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2791, col: 12, offset: 88494},
+											pos:        position{line: 2795, col: 12, offset: 88684},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2791, col: 16, offset: 88498},
+											pos: position{line: 2795, col: 16, offset: 88688},
 											expr: &litMatcher{
-												pos:        position{line: 2791, col: 17, offset: 88499},
+												pos:        position{line: 2795, col: 17, offset: 88689},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -40574,31 +41140,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2873, col: 18, offset: 90722},
+						pos: position{line: 2877, col: 18, offset: 90912},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2873, col: 18, offset: 90722},
+							pos: position{line: 2877, col: 18, offset: 90912},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2869, col: 12, offset: 90622},
+									pos: position{line: 2873, col: 12, offset: 90812},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2869, col: 13, offset: 90623},
+										pos: position{line: 2873, col: 13, offset: 90813},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2869, col: 13, offset: 90623},
+												pos:        position{line: 2873, col: 13, offset: 90813},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2869, col: 20, offset: 90630},
+												pos:        position{line: 2873, col: 20, offset: 90820},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2869, col: 29, offset: 90639},
+												pos:        position{line: 2873, col: 29, offset: 90829},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -40607,27 +41173,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2873, col: 26, offset: 90730},
+									pos: position{line: 2877, col: 26, offset: 90920},
 									expr: &actionExpr{
-										pos: position{line: 2869, col: 12, offset: 90622},
+										pos: position{line: 2873, col: 12, offset: 90812},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2869, col: 13, offset: 90623},
+											pos: position{line: 2873, col: 13, offset: 90813},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2869, col: 13, offset: 90623},
+													pos:        position{line: 2873, col: 13, offset: 90813},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2869, col: 20, offset: 90630},
+													pos:        position{line: 2873, col: 20, offset: 90820},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2869, col: 29, offset: 90639},
+													pos:        position{line: 2873, col: 29, offset: 90829},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -40640,31 +41206,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1865, col: 7, offset: 60018},
+						pos:  position{line: 1869, col: 7, offset: 60208},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1866, col: 7, offset: 60065},
+						pos:  position{line: 1870, col: 7, offset: 60255},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2457, col: 5, offset: 78982},
+						pos: position{line: 2461, col: 5, offset: 79172},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2457, col: 5, offset: 78982},
+							pos: position{line: 2461, col: 5, offset: 79172},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2457, col: 5, offset: 78982},
+									pos: position{line: 2461, col: 5, offset: 79172},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2460, col: 5, offset: 79058},
+									pos:   position{line: 2464, col: 5, offset: 79248},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2461, col: 9, offset: 79076},
+										pos: position{line: 2465, col: 9, offset: 79266},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2461, col: 10, offset: 79077},
+											pos:        position{line: 2465, col: 10, offset: 79267},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -40676,27 +41242,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1206, col: 23, offset: 37184},
+						pos: position{line: 1210, col: 23, offset: 37374},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 1206, col: 23, offset: 37184},
+							pos: position{line: 1210, col: 23, offset: 37374},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1204, col: 32, offset: 37152},
+									pos:        position{line: 1208, col: 32, offset: 37342},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1206, col: 51, offset: 37212},
+									pos:   position{line: 1210, col: 51, offset: 37402},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1206, col: 56, offset: 37217},
+										pos: position{line: 1210, col: 56, offset: 37407},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1206, col: 56, offset: 37217},
+											pos: position{line: 1210, col: 56, offset: 37407},
 											expr: &charClassMatcher{
-												pos:        position{line: 1206, col: 56, offset: 37217},
+												pos:        position{line: 1210, col: 56, offset: 37407},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -40706,7 +41272,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1204, col: 32, offset: 37152},
+									pos:        position{line: 1208, col: 32, offset: 37342},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
@@ -40715,10 +41281,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2799, col: 12, offset: 88759},
+						pos: position{line: 2803, col: 12, offset: 88949},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &charClassMatcher{
-							pos:        position{line: 2799, col: 12, offset: 88759},
+							pos:        position{line: 2803, col: 12, offset: 88949},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -40730,29 +41296,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1884, col: 1, offset: 60535},
+			pos:  position{line: 1888, col: 1, offset: 60725},
 			expr: &actionExpr{
-				pos: position{line: 1885, col: 5, offset: 60563},
+				pos: position{line: 1889, col: 5, offset: 60753},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1885, col: 5, offset: 60563},
+					pos: position{line: 1889, col: 5, offset: 60753},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1880, col: 38, offset: 60488},
+							pos:        position{line: 1884, col: 38, offset: 60678},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1886, col: 5, offset: 60602},
+							pos:   position{line: 1890, col: 5, offset: 60792},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1886, col: 15, offset: 60612},
+								pos:  position{line: 1890, col: 15, offset: 60802},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1882, col: 36, offset: 60529},
+							pos:        position{line: 1886, col: 36, offset: 60719},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -40763,44 +41329,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1891, col: 1, offset: 60772},
+			pos:  position{line: 1895, col: 1, offset: 60962},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1891, col: 32, offset: 60803},
+				pos: position{line: 1895, col: 32, offset: 60993},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1891, col: 32, offset: 60803},
+					pos:  position{line: 1895, col: 32, offset: 60993},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1893, col: 1, offset: 60834},
+			pos:  position{line: 1897, col: 1, offset: 61024},
 			expr: &actionExpr{
-				pos: position{line: 1894, col: 5, offset: 60869},
+				pos: position{line: 1898, col: 5, offset: 61059},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1894, col: 5, offset: 60869},
+					pos: position{line: 1898, col: 5, offset: 61059},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2877, col: 11, offset: 90785},
+							pos: position{line: 2881, col: 11, offset: 90975},
 							expr: &anyMatcher{
-								line: 2877, col: 13, offset: 90787,
+								line: 2881, col: 13, offset: 90977,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1895, col: 5, offset: 60880},
+							pos: position{line: 1899, col: 5, offset: 61070},
 							expr: &litMatcher{
-								pos:        position{line: 1882, col: 36, offset: 60529},
+								pos:        position{line: 1886, col: 36, offset: 60719},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1896, col: 5, offset: 60917},
+							pos:   position{line: 1900, col: 5, offset: 61107},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1896, col: 14, offset: 60926},
+								pos:  position{line: 1900, col: 14, offset: 61116},
 								name: "QuotedTextElement",
 							},
 						},
@@ -40810,29 +41376,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1921, col: 1, offset: 61606},
+			pos:  position{line: 1925, col: 1, offset: 61796},
 			expr: &actionExpr{
-				pos: position{line: 1922, col: 5, offset: 61634},
+				pos: position{line: 1926, col: 5, offset: 61824},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1922, col: 5, offset: 61634},
+					pos: position{line: 1926, col: 5, offset: 61824},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1905, col: 5, offset: 61160},
+							pos:        position{line: 1909, col: 5, offset: 61350},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1906, col: 5, offset: 61169},
+							pos: position{line: 1910, col: 5, offset: 61359},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1910, col: 5, offset: 61287},
+							pos: position{line: 1914, col: 5, offset: 61477},
 							expr: &notExpr{
-								pos: position{line: 1910, col: 7, offset: 61289},
+								pos: position{line: 1914, col: 7, offset: 61479},
 								expr: &litMatcher{
-									pos:        position{line: 1910, col: 8, offset: 61290},
+									pos:        position{line: 1914, col: 8, offset: 61480},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -40840,38 +41406,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1923, col: 5, offset: 61672},
+							pos:   position{line: 1927, col: 5, offset: 61862},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1923, col: 15, offset: 61682},
+								pos:  position{line: 1927, col: 15, offset: 61872},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1913, col: 5, offset: 61410},
+							pos:        position{line: 1917, col: 5, offset: 61600},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1914, col: 5, offset: 61419},
+							pos: position{line: 1918, col: 5, offset: 61609},
 							expr: &litMatcher{
-								pos:        position{line: 1914, col: 6, offset: 61420},
+								pos:        position{line: 1918, col: 6, offset: 61610},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1915, col: 5, offset: 61483},
+							pos: position{line: 1919, col: 5, offset: 61673},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1919, col: 5, offset: 61592},
+							pos: position{line: 1923, col: 5, offset: 61782},
 							expr: &notExpr{
-								pos: position{line: 1919, col: 7, offset: 61594},
+								pos: position{line: 1923, col: 7, offset: 61784},
 								expr: &charClassMatcher{
-									pos:        position{line: 2750, col: 13, offset: 87546},
+									pos:        position{line: 2754, col: 13, offset: 87736},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -40885,20 +41451,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1928, col: 1, offset: 61842},
+			pos:  position{line: 1932, col: 1, offset: 62032},
 			expr: &actionExpr{
-				pos: position{line: 1929, col: 5, offset: 61879},
+				pos: position{line: 1933, col: 5, offset: 62069},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1929, col: 5, offset: 61879},
+					pos: position{line: 1933, col: 5, offset: 62069},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1929, col: 5, offset: 61879},
+							pos: position{line: 1933, col: 5, offset: 62069},
 							expr: &actionExpr{
-								pos: position{line: 2860, col: 10, offset: 90451},
+								pos: position{line: 2864, col: 10, offset: 90641},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2860, col: 10, offset: 90451},
+									pos:        position{line: 2864, col: 10, offset: 90641},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -40907,18 +41473,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1930, col: 5, offset: 61918},
+							pos:   position{line: 1934, col: 5, offset: 62108},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1930, col: 14, offset: 61927},
+								pos: position{line: 1934, col: 14, offset: 62117},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1930, col: 15, offset: 61928},
+									pos:  position{line: 1934, col: 15, offset: 62118},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1931, col: 5, offset: 61962},
+							pos: position{line: 1935, col: 5, offset: 62152},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -40927,49 +41493,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1937, col: 1, offset: 62103},
+			pos:  position{line: 1941, col: 1, offset: 62293},
 			expr: &actionExpr{
-				pos: position{line: 1938, col: 5, offset: 62138},
+				pos: position{line: 1942, col: 5, offset: 62328},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1938, col: 5, offset: 62138},
+					pos: position{line: 1942, col: 5, offset: 62328},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2877, col: 11, offset: 90785},
+							pos: position{line: 2881, col: 11, offset: 90975},
 							expr: &anyMatcher{
-								line: 2877, col: 13, offset: 90787,
+								line: 2881, col: 13, offset: 90977,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1939, col: 5, offset: 62166},
+							pos: position{line: 1943, col: 5, offset: 62356},
 							expr: &seqExpr{
-								pos: position{line: 1913, col: 5, offset: 61410},
+								pos: position{line: 1917, col: 5, offset: 61600},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1913, col: 5, offset: 61410},
+										pos:        position{line: 1917, col: 5, offset: 61600},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1914, col: 5, offset: 61419},
+										pos: position{line: 1918, col: 5, offset: 61609},
 										expr: &litMatcher{
-											pos:        position{line: 1914, col: 6, offset: 61420},
+											pos:        position{line: 1918, col: 6, offset: 61610},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1915, col: 5, offset: 61483},
+										pos: position{line: 1919, col: 5, offset: 61673},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1919, col: 5, offset: 61592},
+										pos: position{line: 1923, col: 5, offset: 61782},
 										expr: &notExpr{
-											pos: position{line: 1919, col: 7, offset: 61594},
+											pos: position{line: 1923, col: 7, offset: 61784},
 											expr: &charClassMatcher{
-												pos:        position{line: 2750, col: 13, offset: 87546},
+												pos:        position{line: 2754, col: 13, offset: 87736},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40981,10 +41547,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1940, col: 5, offset: 62203},
+							pos:   position{line: 1944, col: 5, offset: 62393},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1940, col: 14, offset: 62212},
+								pos:  position{line: 1944, col: 14, offset: 62402},
 								name: "QuotedTextElement",
 							},
 						},
@@ -40994,35 +41560,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1945, col: 1, offset: 62300},
+			pos:  position{line: 1949, col: 1, offset: 62490},
 			expr: &choiceExpr{
-				pos: position{line: 1947, col: 5, offset: 62361},
+				pos: position{line: 1951, col: 5, offset: 62551},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1947, col: 5, offset: 62361},
+						pos: position{line: 1951, col: 5, offset: 62551},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1947, col: 5, offset: 62361},
+							pos: position{line: 1951, col: 5, offset: 62551},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1947, col: 5, offset: 62361},
+									pos:   position{line: 1951, col: 5, offset: 62551},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59708},
+										pos: position{line: 1857, col: 25, offset: 59898},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1853, col: 25, offset: 59708},
+											pos: position{line: 1857, col: 25, offset: 59898},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1853, col: 25, offset: 59708},
+													pos:        position{line: 1857, col: 25, offset: 59898},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1853, col: 30, offset: 59713},
+													pos: position{line: 1857, col: 30, offset: 59903},
 													expr: &litMatcher{
-														pos:        position{line: 1853, col: 30, offset: 59713},
+														pos:        position{line: 1857, col: 30, offset: 59903},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41033,21 +41599,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1947, col: 40, offset: 62396},
+									pos:        position{line: 1951, col: 40, offset: 62586},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1947, col: 45, offset: 62401},
+									pos:   position{line: 1951, col: 45, offset: 62591},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1947, col: 55, offset: 62411},
+										pos:  position{line: 1951, col: 55, offset: 62601},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1947, col: 84, offset: 62440},
+									pos:        position{line: 1951, col: 84, offset: 62630},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41056,21 +41622,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1951, col: 7, offset: 62604},
+						pos: position{line: 1955, col: 7, offset: 62794},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1951, col: 7, offset: 62604},
+							pos: position{line: 1955, col: 7, offset: 62794},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1951, col: 7, offset: 62604},
+									pos:   position{line: 1955, col: 7, offset: 62794},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1849, col: 25, offset: 59635},
+										pos: position{line: 1853, col: 25, offset: 59825},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1849, col: 25, offset: 59635},
+											pos: position{line: 1853, col: 25, offset: 59825},
 											expr: &litMatcher{
-												pos:        position{line: 1849, col: 25, offset: 59635},
+												pos:        position{line: 1853, col: 25, offset: 59825},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41079,21 +41645,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1951, col: 42, offset: 62639},
+									pos:        position{line: 1955, col: 42, offset: 62829},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1951, col: 47, offset: 62644},
+									pos:   position{line: 1955, col: 47, offset: 62834},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1951, col: 57, offset: 62654},
+										pos:  position{line: 1955, col: 57, offset: 62844},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1951, col: 86, offset: 62683},
+									pos:        position{line: 1955, col: 86, offset: 62873},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41102,21 +41668,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1956, col: 7, offset: 62885},
+						pos: position{line: 1960, col: 7, offset: 63075},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1956, col: 7, offset: 62885},
+							pos: position{line: 1960, col: 7, offset: 63075},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1956, col: 7, offset: 62885},
+									pos:   position{line: 1960, col: 7, offset: 63075},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1849, col: 25, offset: 59635},
+										pos: position{line: 1853, col: 25, offset: 59825},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1849, col: 25, offset: 59635},
+											pos: position{line: 1853, col: 25, offset: 59825},
 											expr: &litMatcher{
-												pos:        position{line: 1849, col: 25, offset: 59635},
+												pos:        position{line: 1853, col: 25, offset: 59825},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41125,21 +41691,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1956, col: 42, offset: 62920},
+									pos:        position{line: 1960, col: 42, offset: 63110},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1956, col: 46, offset: 62924},
+									pos:   position{line: 1960, col: 46, offset: 63114},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1956, col: 56, offset: 62934},
+										pos:  position{line: 1960, col: 56, offset: 63124},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1956, col: 85, offset: 62963},
+									pos:        position{line: 1960, col: 85, offset: 63153},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41152,29 +41718,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1973, col: 1, offset: 63443},
+			pos:  position{line: 1977, col: 1, offset: 63633},
 			expr: &actionExpr{
-				pos: position{line: 1974, col: 5, offset: 63473},
+				pos: position{line: 1978, col: 5, offset: 63663},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1974, col: 5, offset: 63473},
+					pos: position{line: 1978, col: 5, offset: 63663},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1969, col: 40, offset: 63394},
+							pos:        position{line: 1973, col: 40, offset: 63584},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1975, col: 5, offset: 63514},
+							pos:   position{line: 1979, col: 5, offset: 63704},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1975, col: 15, offset: 63524},
+								pos:  position{line: 1979, col: 15, offset: 63714},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1971, col: 38, offset: 63437},
+							pos:        position{line: 1975, col: 38, offset: 63627},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -41185,44 +41751,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1980, col: 1, offset: 63689},
+			pos:  position{line: 1984, col: 1, offset: 63879},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1980, col: 34, offset: 63722},
+				pos: position{line: 1984, col: 34, offset: 63912},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1980, col: 34, offset: 63722},
+					pos:  position{line: 1984, col: 34, offset: 63912},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1982, col: 1, offset: 63754},
+			pos:  position{line: 1986, col: 1, offset: 63944},
 			expr: &actionExpr{
-				pos: position{line: 1983, col: 5, offset: 63791},
+				pos: position{line: 1987, col: 5, offset: 63981},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1983, col: 5, offset: 63791},
+					pos: position{line: 1987, col: 5, offset: 63981},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2877, col: 11, offset: 90785},
+							pos: position{line: 2881, col: 11, offset: 90975},
 							expr: &anyMatcher{
-								line: 2877, col: 13, offset: 90787,
+								line: 2881, col: 13, offset: 90977,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1984, col: 5, offset: 63802},
+							pos: position{line: 1988, col: 5, offset: 63992},
 							expr: &litMatcher{
-								pos:        position{line: 1971, col: 38, offset: 63437},
+								pos:        position{line: 1975, col: 38, offset: 63627},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1985, col: 5, offset: 63841},
+							pos:   position{line: 1989, col: 5, offset: 64031},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1985, col: 14, offset: 63850},
+								pos:  position{line: 1989, col: 14, offset: 64040},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41232,29 +41798,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2011, col: 1, offset: 64534},
+			pos:  position{line: 2015, col: 1, offset: 64724},
 			expr: &actionExpr{
-				pos: position{line: 2012, col: 5, offset: 64564},
+				pos: position{line: 2016, col: 5, offset: 64754},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2012, col: 5, offset: 64564},
+					pos: position{line: 2016, col: 5, offset: 64754},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1994, col: 5, offset: 64092},
+							pos:        position{line: 1998, col: 5, offset: 64282},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1995, col: 5, offset: 64101},
+							pos: position{line: 1999, col: 5, offset: 64291},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 1999, col: 5, offset: 64221},
+							pos: position{line: 2003, col: 5, offset: 64411},
 							expr: &notExpr{
-								pos: position{line: 1999, col: 7, offset: 64223},
+								pos: position{line: 2003, col: 7, offset: 64413},
 								expr: &litMatcher{
-									pos:        position{line: 1999, col: 8, offset: 64224},
+									pos:        position{line: 2003, col: 8, offset: 64414},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41262,38 +41828,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2013, col: 5, offset: 64604},
+							pos:   position{line: 2017, col: 5, offset: 64794},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2013, col: 15, offset: 64614},
+								pos:  position{line: 2017, col: 15, offset: 64804},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2003, col: 5, offset: 64334},
+							pos:        position{line: 2007, col: 5, offset: 64524},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2004, col: 5, offset: 64343},
+							pos: position{line: 2008, col: 5, offset: 64533},
 							expr: &litMatcher{
-								pos:        position{line: 2004, col: 6, offset: 64344},
+								pos:        position{line: 2008, col: 6, offset: 64534},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2005, col: 5, offset: 64409},
+							pos: position{line: 2009, col: 5, offset: 64599},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2009, col: 5, offset: 64520},
+							pos: position{line: 2013, col: 5, offset: 64710},
 							expr: &notExpr{
-								pos: position{line: 2009, col: 7, offset: 64522},
+								pos: position{line: 2013, col: 7, offset: 64712},
 								expr: &charClassMatcher{
-									pos:        position{line: 2750, col: 13, offset: 87546},
+									pos:        position{line: 2754, col: 13, offset: 87736},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41307,20 +41873,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2018, col: 1, offset: 64781},
+			pos:  position{line: 2022, col: 1, offset: 64971},
 			expr: &actionExpr{
-				pos: position{line: 2019, col: 5, offset: 64819},
+				pos: position{line: 2023, col: 5, offset: 65009},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2019, col: 5, offset: 64819},
+					pos: position{line: 2023, col: 5, offset: 65009},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2019, col: 5, offset: 64819},
+							pos: position{line: 2023, col: 5, offset: 65009},
 							expr: &actionExpr{
-								pos: position{line: 2860, col: 10, offset: 90451},
+								pos: position{line: 2864, col: 10, offset: 90641},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2860, col: 10, offset: 90451},
+									pos:        position{line: 2864, col: 10, offset: 90641},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41329,18 +41895,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2020, col: 5, offset: 64858},
+							pos:   position{line: 2024, col: 5, offset: 65048},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2020, col: 14, offset: 64867},
+								pos: position{line: 2024, col: 14, offset: 65057},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2020, col: 15, offset: 64868},
+									pos:  position{line: 2024, col: 15, offset: 65058},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2021, col: 5, offset: 64903},
+							pos: position{line: 2025, col: 5, offset: 65093},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -41349,49 +41915,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2027, col: 1, offset: 65044},
+			pos:  position{line: 2031, col: 1, offset: 65234},
 			expr: &actionExpr{
-				pos: position{line: 2028, col: 5, offset: 65081},
+				pos: position{line: 2032, col: 5, offset: 65271},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2028, col: 5, offset: 65081},
+					pos: position{line: 2032, col: 5, offset: 65271},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2877, col: 11, offset: 90785},
+							pos: position{line: 2881, col: 11, offset: 90975},
 							expr: &anyMatcher{
-								line: 2877, col: 13, offset: 90787,
+								line: 2881, col: 13, offset: 90977,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2029, col: 5, offset: 65092},
+							pos: position{line: 2033, col: 5, offset: 65282},
 							expr: &seqExpr{
-								pos: position{line: 2003, col: 5, offset: 64334},
+								pos: position{line: 2007, col: 5, offset: 64524},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2003, col: 5, offset: 64334},
+										pos:        position{line: 2007, col: 5, offset: 64524},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2004, col: 5, offset: 64343},
+										pos: position{line: 2008, col: 5, offset: 64533},
 										expr: &litMatcher{
-											pos:        position{line: 2004, col: 6, offset: 64344},
+											pos:        position{line: 2008, col: 6, offset: 64534},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2005, col: 5, offset: 64409},
+										pos: position{line: 2009, col: 5, offset: 64599},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2009, col: 5, offset: 64520},
+										pos: position{line: 2013, col: 5, offset: 64710},
 										expr: &notExpr{
-											pos: position{line: 2009, col: 7, offset: 64522},
+											pos: position{line: 2013, col: 7, offset: 64712},
 											expr: &charClassMatcher{
-												pos:        position{line: 2750, col: 13, offset: 87546},
+												pos:        position{line: 2754, col: 13, offset: 87736},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41403,10 +41969,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2030, col: 5, offset: 65131},
+							pos:   position{line: 2034, col: 5, offset: 65321},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2030, col: 14, offset: 65140},
+								pos:  position{line: 2034, col: 14, offset: 65330},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41416,35 +41982,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2035, col: 1, offset: 65228},
+			pos:  position{line: 2039, col: 1, offset: 65418},
 			expr: &choiceExpr{
-				pos: position{line: 2037, col: 5, offset: 65293},
+				pos: position{line: 2041, col: 5, offset: 65483},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2037, col: 5, offset: 65293},
+						pos: position{line: 2041, col: 5, offset: 65483},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2037, col: 5, offset: 65293},
+							pos: position{line: 2041, col: 5, offset: 65483},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2037, col: 5, offset: 65293},
+									pos:   position{line: 2041, col: 5, offset: 65483},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59708},
+										pos: position{line: 1857, col: 25, offset: 59898},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1853, col: 25, offset: 59708},
+											pos: position{line: 1857, col: 25, offset: 59898},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1853, col: 25, offset: 59708},
+													pos:        position{line: 1857, col: 25, offset: 59898},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1853, col: 30, offset: 59713},
+													pos: position{line: 1857, col: 30, offset: 59903},
 													expr: &litMatcher{
-														pos:        position{line: 1853, col: 30, offset: 59713},
+														pos:        position{line: 1857, col: 30, offset: 59903},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41455,21 +42021,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2037, col: 40, offset: 65328},
+									pos:        position{line: 2041, col: 40, offset: 65518},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2037, col: 45, offset: 65333},
+									pos:   position{line: 2041, col: 45, offset: 65523},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2037, col: 55, offset: 65343},
+										pos:  position{line: 2041, col: 55, offset: 65533},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2037, col: 86, offset: 65374},
+									pos:        position{line: 2041, col: 86, offset: 65564},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -41478,21 +42044,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2041, col: 7, offset: 65539},
+						pos: position{line: 2045, col: 7, offset: 65729},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2041, col: 7, offset: 65539},
+							pos: position{line: 2045, col: 7, offset: 65729},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2041, col: 7, offset: 65539},
+									pos:   position{line: 2045, col: 7, offset: 65729},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1849, col: 25, offset: 59635},
+										pos: position{line: 1853, col: 25, offset: 59825},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1849, col: 25, offset: 59635},
+											pos: position{line: 1853, col: 25, offset: 59825},
 											expr: &litMatcher{
-												pos:        position{line: 1849, col: 25, offset: 59635},
+												pos:        position{line: 1853, col: 25, offset: 59825},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41501,21 +42067,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2041, col: 42, offset: 65574},
+									pos:        position{line: 2045, col: 42, offset: 65764},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2041, col: 47, offset: 65579},
+									pos:   position{line: 2045, col: 47, offset: 65769},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2041, col: 57, offset: 65589},
+										pos:  position{line: 2045, col: 57, offset: 65779},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2041, col: 88, offset: 65620},
+									pos:        position{line: 2045, col: 88, offset: 65810},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41524,21 +42090,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2046, col: 7, offset: 65861},
+						pos: position{line: 2050, col: 7, offset: 66051},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2046, col: 7, offset: 65861},
+							pos: position{line: 2050, col: 7, offset: 66051},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2046, col: 7, offset: 65861},
+									pos:   position{line: 2050, col: 7, offset: 66051},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1849, col: 25, offset: 59635},
+										pos: position{line: 1853, col: 25, offset: 59825},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1849, col: 25, offset: 59635},
+											pos: position{line: 1853, col: 25, offset: 59825},
 											expr: &litMatcher{
-												pos:        position{line: 1849, col: 25, offset: 59635},
+												pos:        position{line: 1853, col: 25, offset: 59825},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41547,21 +42113,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2046, col: 42, offset: 65896},
+									pos:        position{line: 2050, col: 42, offset: 66086},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2046, col: 46, offset: 65900},
+									pos:   position{line: 2050, col: 46, offset: 66090},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2046, col: 56, offset: 65910},
+										pos:  position{line: 2050, col: 56, offset: 66100},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2046, col: 87, offset: 65941},
+									pos:        position{line: 2050, col: 87, offset: 66131},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -41574,29 +42140,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2063, col: 1, offset: 66505},
+			pos:  position{line: 2067, col: 1, offset: 66695},
 			expr: &actionExpr{
-				pos: position{line: 2064, col: 5, offset: 66538},
+				pos: position{line: 2068, col: 5, offset: 66728},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2064, col: 5, offset: 66538},
+					pos: position{line: 2068, col: 5, offset: 66728},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2059, col: 43, offset: 66453},
+							pos:        position{line: 2063, col: 43, offset: 66643},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2065, col: 5, offset: 66582},
+							pos:   position{line: 2069, col: 5, offset: 66772},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2065, col: 15, offset: 66592},
+								pos:  position{line: 2069, col: 15, offset: 66782},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2061, col: 41, offset: 66499},
+							pos:        position{line: 2065, col: 41, offset: 66689},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -41607,44 +42173,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2070, col: 1, offset: 66767},
+			pos:  position{line: 2074, col: 1, offset: 66957},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2070, col: 37, offset: 66803},
+				pos: position{line: 2074, col: 37, offset: 66993},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2070, col: 37, offset: 66803},
+					pos:  position{line: 2074, col: 37, offset: 66993},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2072, col: 1, offset: 66870},
+			pos:  position{line: 2076, col: 1, offset: 67060},
 			expr: &actionExpr{
-				pos: position{line: 2073, col: 5, offset: 66910},
+				pos: position{line: 2077, col: 5, offset: 67100},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2073, col: 5, offset: 66910},
+					pos: position{line: 2077, col: 5, offset: 67100},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2877, col: 11, offset: 90785},
+							pos: position{line: 2881, col: 11, offset: 90975},
 							expr: &anyMatcher{
-								line: 2877, col: 13, offset: 90787,
+								line: 2881, col: 13, offset: 90977,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2074, col: 5, offset: 66921},
+							pos: position{line: 2078, col: 5, offset: 67111},
 							expr: &litMatcher{
-								pos:        position{line: 2061, col: 41, offset: 66499},
+								pos:        position{line: 2065, col: 41, offset: 66689},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2075, col: 5, offset: 66963},
+							pos:   position{line: 2079, col: 5, offset: 67153},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2075, col: 14, offset: 66972},
+								pos:  position{line: 2079, col: 14, offset: 67162},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41654,33 +42220,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2093, col: 1, offset: 67514},
+			pos:  position{line: 2097, col: 1, offset: 67704},
 			expr: &seqExpr{
-				pos: position{line: 2094, col: 5, offset: 67559},
+				pos: position{line: 2098, col: 5, offset: 67749},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2094, col: 5, offset: 67559},
+						pos: position{line: 2098, col: 5, offset: 67749},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2094, col: 6, offset: 67560},
+							pos:  position{line: 2098, col: 6, offset: 67750},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2095, col: 5, offset: 67579},
+						pos:        position{line: 2099, col: 5, offset: 67769},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2096, col: 5, offset: 67587},
+						pos: position{line: 2100, col: 5, offset: 67777},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2100, col: 5, offset: 67701},
+						pos: position{line: 2104, col: 5, offset: 67891},
 						expr: &notExpr{
-							pos: position{line: 2100, col: 7, offset: 67703},
+							pos: position{line: 2104, col: 7, offset: 67893},
 							expr: &charClassMatcher{
-								pos:        position{line: 2750, col: 13, offset: 87546},
+								pos:        position{line: 2754, col: 13, offset: 87736},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -41693,29 +42259,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2103, col: 1, offset: 67720},
+			pos:  position{line: 2107, col: 1, offset: 67910},
 			expr: &actionExpr{
-				pos: position{line: 2104, col: 5, offset: 67753},
+				pos: position{line: 2108, col: 5, offset: 67943},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2104, col: 5, offset: 67753},
+					pos: position{line: 2108, col: 5, offset: 67943},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2086, col: 5, offset: 67316},
+							pos:        position{line: 2090, col: 5, offset: 67506},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2087, col: 5, offset: 67325},
+							pos: position{line: 2091, col: 5, offset: 67515},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2091, col: 5, offset: 67448},
+							pos: position{line: 2095, col: 5, offset: 67638},
 							expr: &notExpr{
-								pos: position{line: 2091, col: 7, offset: 67450},
+								pos: position{line: 2095, col: 7, offset: 67640},
 								expr: &litMatcher{
-									pos:        position{line: 2091, col: 8, offset: 67451},
+									pos:        position{line: 2095, col: 8, offset: 67641},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41723,15 +42289,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2105, col: 5, offset: 67797},
+							pos:   position{line: 2109, col: 5, offset: 67987},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2105, col: 15, offset: 67807},
+								pos:  position{line: 2109, col: 15, offset: 67997},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2106, col: 5, offset: 67846},
+							pos:  position{line: 2110, col: 5, offset: 68036},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -41740,20 +42306,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2110, col: 1, offset: 67983},
+			pos:  position{line: 2114, col: 1, offset: 68173},
 			expr: &actionExpr{
-				pos: position{line: 2111, col: 5, offset: 68024},
+				pos: position{line: 2115, col: 5, offset: 68214},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2111, col: 5, offset: 68024},
+					pos: position{line: 2115, col: 5, offset: 68214},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2111, col: 5, offset: 68024},
+							pos: position{line: 2115, col: 5, offset: 68214},
 							expr: &actionExpr{
-								pos: position{line: 2860, col: 10, offset: 90451},
+								pos: position{line: 2864, col: 10, offset: 90641},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2860, col: 10, offset: 90451},
+									pos:        position{line: 2864, col: 10, offset: 90641},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41762,18 +42328,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2112, col: 5, offset: 68063},
+							pos:   position{line: 2116, col: 5, offset: 68253},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2112, col: 14, offset: 68072},
+								pos: position{line: 2116, col: 14, offset: 68262},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2112, col: 15, offset: 68073},
+									pos:  position{line: 2116, col: 15, offset: 68263},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2113, col: 5, offset: 68111},
+							pos: position{line: 2117, col: 5, offset: 68301},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -41782,31 +42348,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2119, col: 1, offset: 68252},
+			pos:  position{line: 2123, col: 1, offset: 68442},
 			expr: &actionExpr{
-				pos: position{line: 2120, col: 5, offset: 68292},
+				pos: position{line: 2124, col: 5, offset: 68482},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2120, col: 5, offset: 68292},
+					pos: position{line: 2124, col: 5, offset: 68482},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2877, col: 11, offset: 90785},
+							pos: position{line: 2881, col: 11, offset: 90975},
 							expr: &anyMatcher{
-								line: 2877, col: 13, offset: 90787,
+								line: 2881, col: 13, offset: 90977,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2121, col: 5, offset: 68303},
+							pos: position{line: 2125, col: 5, offset: 68493},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2121, col: 6, offset: 68304},
+								pos:  position{line: 2125, col: 6, offset: 68494},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2122, col: 5, offset: 68345},
+							pos:   position{line: 2126, col: 5, offset: 68535},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2122, col: 14, offset: 68354},
+								pos:  position{line: 2126, col: 14, offset: 68544},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41816,35 +42382,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2127, col: 1, offset: 68442},
+			pos:  position{line: 2131, col: 1, offset: 68632},
 			expr: &choiceExpr{
-				pos: position{line: 2129, col: 5, offset: 68513},
+				pos: position{line: 2133, col: 5, offset: 68703},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2129, col: 5, offset: 68513},
+						pos: position{line: 2133, col: 5, offset: 68703},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2129, col: 5, offset: 68513},
+							pos: position{line: 2133, col: 5, offset: 68703},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2129, col: 5, offset: 68513},
+									pos:   position{line: 2133, col: 5, offset: 68703},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59708},
+										pos: position{line: 1857, col: 25, offset: 59898},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1853, col: 25, offset: 59708},
+											pos: position{line: 1857, col: 25, offset: 59898},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1853, col: 25, offset: 59708},
+													pos:        position{line: 1857, col: 25, offset: 59898},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1853, col: 30, offset: 59713},
+													pos: position{line: 1857, col: 30, offset: 59903},
 													expr: &litMatcher{
-														pos:        position{line: 1853, col: 30, offset: 59713},
+														pos:        position{line: 1857, col: 30, offset: 59903},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41855,21 +42421,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2129, col: 40, offset: 68548},
+									pos:        position{line: 2133, col: 40, offset: 68738},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2129, col: 45, offset: 68553},
+									pos:   position{line: 2133, col: 45, offset: 68743},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2129, col: 55, offset: 68563},
+										pos:  position{line: 2133, col: 55, offset: 68753},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2129, col: 89, offset: 68597},
+									pos:        position{line: 2133, col: 89, offset: 68787},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -41878,21 +42444,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2133, col: 7, offset: 68766},
+						pos: position{line: 2137, col: 7, offset: 68956},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2133, col: 7, offset: 68766},
+							pos: position{line: 2137, col: 7, offset: 68956},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2133, col: 7, offset: 68766},
+									pos:   position{line: 2137, col: 7, offset: 68956},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1849, col: 25, offset: 59635},
+										pos: position{line: 1853, col: 25, offset: 59825},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1849, col: 25, offset: 59635},
+											pos: position{line: 1853, col: 25, offset: 59825},
 											expr: &litMatcher{
-												pos:        position{line: 1849, col: 25, offset: 59635},
+												pos:        position{line: 1853, col: 25, offset: 59825},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41901,21 +42467,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2133, col: 42, offset: 68801},
+									pos:        position{line: 2137, col: 42, offset: 68991},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2133, col: 47, offset: 68806},
+									pos:   position{line: 2137, col: 47, offset: 68996},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2133, col: 57, offset: 68816},
+										pos:  position{line: 2137, col: 57, offset: 69006},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2133, col: 91, offset: 68850},
+									pos:        position{line: 2137, col: 91, offset: 69040},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41924,21 +42490,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2138, col: 7, offset: 69056},
+						pos: position{line: 2142, col: 7, offset: 69246},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2138, col: 7, offset: 69056},
+							pos: position{line: 2142, col: 7, offset: 69246},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2138, col: 7, offset: 69056},
+									pos:   position{line: 2142, col: 7, offset: 69246},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1849, col: 25, offset: 59635},
+										pos: position{line: 1853, col: 25, offset: 59825},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1849, col: 25, offset: 59635},
+											pos: position{line: 1853, col: 25, offset: 59825},
 											expr: &litMatcher{
-												pos:        position{line: 1849, col: 25, offset: 59635},
+												pos:        position{line: 1853, col: 25, offset: 59825},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41947,21 +42513,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2138, col: 42, offset: 69091},
+									pos:        position{line: 2142, col: 42, offset: 69281},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2138, col: 46, offset: 69095},
+									pos:   position{line: 2142, col: 46, offset: 69285},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2138, col: 56, offset: 69105},
+										pos:  position{line: 2142, col: 56, offset: 69295},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2138, col: 90, offset: 69139},
+									pos:        position{line: 2142, col: 90, offset: 69329},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -41974,29 +42540,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2155, col: 1, offset: 69624},
+			pos:  position{line: 2159, col: 1, offset: 69814},
 			expr: &actionExpr{
-				pos: position{line: 2156, col: 5, offset: 69654},
+				pos: position{line: 2160, col: 5, offset: 69844},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2156, col: 5, offset: 69654},
+					pos: position{line: 2160, col: 5, offset: 69844},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2151, col: 40, offset: 69575},
+							pos:        position{line: 2155, col: 40, offset: 69765},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2157, col: 5, offset: 69695},
+							pos:   position{line: 2161, col: 5, offset: 69885},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2157, col: 15, offset: 69705},
+								pos:  position{line: 2161, col: 15, offset: 69895},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2153, col: 38, offset: 69618},
+							pos:        position{line: 2157, col: 38, offset: 69808},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42007,44 +42573,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2162, col: 1, offset: 69871},
+			pos:  position{line: 2166, col: 1, offset: 70061},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2162, col: 34, offset: 69904},
+				pos: position{line: 2166, col: 34, offset: 70094},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2162, col: 34, offset: 69904},
+					pos:  position{line: 2166, col: 34, offset: 70094},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2164, col: 1, offset: 69935},
+			pos:  position{line: 2168, col: 1, offset: 70125},
 			expr: &actionExpr{
-				pos: position{line: 2165, col: 5, offset: 70004},
+				pos: position{line: 2169, col: 5, offset: 70194},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2165, col: 5, offset: 70004},
+					pos: position{line: 2169, col: 5, offset: 70194},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2877, col: 11, offset: 90785},
+							pos: position{line: 2881, col: 11, offset: 90975},
 							expr: &anyMatcher{
-								line: 2877, col: 13, offset: 90787,
+								line: 2881, col: 13, offset: 90977,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2166, col: 5, offset: 70015},
+							pos: position{line: 2170, col: 5, offset: 70205},
 							expr: &litMatcher{
-								pos:        position{line: 2153, col: 38, offset: 69618},
+								pos:        position{line: 2157, col: 38, offset: 69808},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2167, col: 5, offset: 70054},
+							pos:   position{line: 2171, col: 5, offset: 70244},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2167, col: 14, offset: 70063},
+								pos:  position{line: 2171, col: 14, offset: 70253},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42054,29 +42620,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2192, col: 1, offset: 70745},
+			pos:  position{line: 2196, col: 1, offset: 70935},
 			expr: &actionExpr{
-				pos: position{line: 2193, col: 5, offset: 70775},
+				pos: position{line: 2197, col: 5, offset: 70965},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2193, col: 5, offset: 70775},
+					pos: position{line: 2197, col: 5, offset: 70965},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2176, col: 5, offset: 70311},
+							pos:        position{line: 2180, col: 5, offset: 70501},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2177, col: 5, offset: 70320},
+							pos: position{line: 2181, col: 5, offset: 70510},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2181, col: 5, offset: 70440},
+							pos: position{line: 2185, col: 5, offset: 70630},
 							expr: &notExpr{
-								pos: position{line: 2181, col: 7, offset: 70442},
+								pos: position{line: 2185, col: 7, offset: 70632},
 								expr: &litMatcher{
-									pos:        position{line: 2181, col: 8, offset: 70443},
+									pos:        position{line: 2185, col: 8, offset: 70633},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42084,38 +42650,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2194, col: 5, offset: 70815},
+							pos:   position{line: 2198, col: 5, offset: 71005},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2194, col: 15, offset: 70825},
+								pos:  position{line: 2198, col: 15, offset: 71015},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2184, col: 5, offset: 70548},
+							pos:        position{line: 2188, col: 5, offset: 70738},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2185, col: 5, offset: 70556},
+							pos: position{line: 2189, col: 5, offset: 70746},
 							expr: &litMatcher{
-								pos:        position{line: 2185, col: 6, offset: 70557},
+								pos:        position{line: 2189, col: 6, offset: 70747},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2186, col: 5, offset: 70620},
+							pos: position{line: 2190, col: 5, offset: 70810},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2190, col: 5, offset: 70731},
+							pos: position{line: 2194, col: 5, offset: 70921},
 							expr: &notExpr{
-								pos: position{line: 2190, col: 7, offset: 70733},
+								pos: position{line: 2194, col: 7, offset: 70923},
 								expr: &charClassMatcher{
-									pos:        position{line: 2750, col: 13, offset: 87546},
+									pos:        position{line: 2754, col: 13, offset: 87736},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42129,20 +42695,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2199, col: 1, offset: 70992},
+			pos:  position{line: 2203, col: 1, offset: 71182},
 			expr: &actionExpr{
-				pos: position{line: 2200, col: 5, offset: 71030},
+				pos: position{line: 2204, col: 5, offset: 71220},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2200, col: 5, offset: 71030},
+					pos: position{line: 2204, col: 5, offset: 71220},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2200, col: 5, offset: 71030},
+							pos: position{line: 2204, col: 5, offset: 71220},
 							expr: &actionExpr{
-								pos: position{line: 2860, col: 10, offset: 90451},
+								pos: position{line: 2864, col: 10, offset: 90641},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2860, col: 10, offset: 90451},
+									pos:        position{line: 2864, col: 10, offset: 90641},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42151,18 +42717,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2201, col: 5, offset: 71069},
+							pos:   position{line: 2205, col: 5, offset: 71259},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2201, col: 14, offset: 71078},
+								pos: position{line: 2205, col: 14, offset: 71268},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2201, col: 15, offset: 71079},
+									pos:  position{line: 2205, col: 15, offset: 71269},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2202, col: 5, offset: 71115},
+							pos: position{line: 2206, col: 5, offset: 71305},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -42171,49 +42737,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2208, col: 1, offset: 71256},
+			pos:  position{line: 2212, col: 1, offset: 71446},
 			expr: &actionExpr{
-				pos: position{line: 2209, col: 5, offset: 71293},
+				pos: position{line: 2213, col: 5, offset: 71483},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2209, col: 5, offset: 71293},
+					pos: position{line: 2213, col: 5, offset: 71483},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2877, col: 11, offset: 90785},
+							pos: position{line: 2881, col: 11, offset: 90975},
 							expr: &anyMatcher{
-								line: 2877, col: 13, offset: 90787,
+								line: 2881, col: 13, offset: 90977,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2210, col: 5, offset: 71304},
+							pos: position{line: 2214, col: 5, offset: 71494},
 							expr: &seqExpr{
-								pos: position{line: 2184, col: 5, offset: 70548},
+								pos: position{line: 2188, col: 5, offset: 70738},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2184, col: 5, offset: 70548},
+										pos:        position{line: 2188, col: 5, offset: 70738},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2185, col: 5, offset: 70556},
+										pos: position{line: 2189, col: 5, offset: 70746},
 										expr: &litMatcher{
-											pos:        position{line: 2185, col: 6, offset: 70557},
+											pos:        position{line: 2189, col: 6, offset: 70747},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2186, col: 5, offset: 70620},
+										pos: position{line: 2190, col: 5, offset: 70810},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2190, col: 5, offset: 70731},
+										pos: position{line: 2194, col: 5, offset: 70921},
 										expr: &notExpr{
-											pos: position{line: 2190, col: 7, offset: 70733},
+											pos: position{line: 2194, col: 7, offset: 70923},
 											expr: &charClassMatcher{
-												pos:        position{line: 2750, col: 13, offset: 87546},
+												pos:        position{line: 2754, col: 13, offset: 87736},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42225,10 +42791,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2211, col: 5, offset: 71343},
+							pos:   position{line: 2215, col: 5, offset: 71533},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2211, col: 14, offset: 71352},
+								pos:  position{line: 2215, col: 14, offset: 71542},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42238,35 +42804,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2216, col: 1, offset: 71440},
+			pos:  position{line: 2220, col: 1, offset: 71630},
 			expr: &choiceExpr{
-				pos: position{line: 2218, col: 5, offset: 71504},
+				pos: position{line: 2222, col: 5, offset: 71694},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2218, col: 5, offset: 71504},
+						pos: position{line: 2222, col: 5, offset: 71694},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2218, col: 5, offset: 71504},
+							pos: position{line: 2222, col: 5, offset: 71694},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2218, col: 5, offset: 71504},
+									pos:   position{line: 2222, col: 5, offset: 71694},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59708},
+										pos: position{line: 1857, col: 25, offset: 59898},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1853, col: 25, offset: 59708},
+											pos: position{line: 1857, col: 25, offset: 59898},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1853, col: 25, offset: 59708},
+													pos:        position{line: 1857, col: 25, offset: 59898},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1853, col: 30, offset: 59713},
+													pos: position{line: 1857, col: 30, offset: 59903},
 													expr: &litMatcher{
-														pos:        position{line: 1853, col: 30, offset: 59713},
+														pos:        position{line: 1857, col: 30, offset: 59903},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42277,21 +42843,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2218, col: 40, offset: 71539},
+									pos:        position{line: 2222, col: 40, offset: 71729},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2218, col: 45, offset: 71544},
+									pos:   position{line: 2222, col: 45, offset: 71734},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2218, col: 55, offset: 71554},
+										pos:  position{line: 2222, col: 55, offset: 71744},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2218, col: 86, offset: 71585},
+									pos:        position{line: 2222, col: 86, offset: 71775},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -42300,21 +42866,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2222, col: 7, offset: 71750},
+						pos: position{line: 2226, col: 7, offset: 71940},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2222, col: 7, offset: 71750},
+							pos: position{line: 2226, col: 7, offset: 71940},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2222, col: 7, offset: 71750},
+									pos:   position{line: 2226, col: 7, offset: 71940},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1849, col: 25, offset: 59635},
+										pos: position{line: 1853, col: 25, offset: 59825},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1849, col: 25, offset: 59635},
+											pos: position{line: 1853, col: 25, offset: 59825},
 											expr: &litMatcher{
-												pos:        position{line: 1849, col: 25, offset: 59635},
+												pos:        position{line: 1853, col: 25, offset: 59825},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42323,21 +42889,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2222, col: 42, offset: 71785},
+									pos:        position{line: 2226, col: 42, offset: 71975},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2222, col: 47, offset: 71790},
+									pos:   position{line: 2226, col: 47, offset: 71980},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2222, col: 57, offset: 71800},
+										pos:  position{line: 2226, col: 57, offset: 71990},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2222, col: 88, offset: 71831},
+									pos:        position{line: 2226, col: 88, offset: 72021},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42346,21 +42912,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2227, col: 7, offset: 72034},
+						pos: position{line: 2231, col: 7, offset: 72224},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2227, col: 7, offset: 72034},
+							pos: position{line: 2231, col: 7, offset: 72224},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2227, col: 7, offset: 72034},
+									pos:   position{line: 2231, col: 7, offset: 72224},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1849, col: 25, offset: 59635},
+										pos: position{line: 1853, col: 25, offset: 59825},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1849, col: 25, offset: 59635},
+											pos: position{line: 1853, col: 25, offset: 59825},
 											expr: &litMatcher{
-												pos:        position{line: 1849, col: 25, offset: 59635},
+												pos:        position{line: 1853, col: 25, offset: 59825},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42369,21 +42935,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2227, col: 42, offset: 72069},
+									pos:        position{line: 2231, col: 42, offset: 72259},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2227, col: 46, offset: 72073},
+									pos:   position{line: 2231, col: 46, offset: 72263},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2227, col: 56, offset: 72083},
+										pos:  position{line: 2231, col: 56, offset: 72273},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2227, col: 87, offset: 72114},
+									pos:        position{line: 2231, col: 87, offset: 72304},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -42396,29 +42962,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2234, col: 1, offset: 72381},
+			pos:  position{line: 2238, col: 1, offset: 72571},
 			expr: &actionExpr{
-				pos: position{line: 2235, col: 5, offset: 72403},
+				pos: position{line: 2239, col: 5, offset: 72593},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2235, col: 5, offset: 72403},
+					pos: position{line: 2239, col: 5, offset: 72593},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2241, col: 27, offset: 72618},
+							pos:        position{line: 2245, col: 27, offset: 72808},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2236, col: 5, offset: 72430},
+							pos:   position{line: 2240, col: 5, offset: 72620},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2236, col: 14, offset: 72439},
+								pos:  position{line: 2240, col: 14, offset: 72629},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2241, col: 27, offset: 72618},
+							pos:        position{line: 2245, col: 27, offset: 72808},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42429,21 +42995,21 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2243, col: 1, offset: 72623},
+			pos:  position{line: 2247, col: 1, offset: 72813},
 			expr: &choiceExpr{
-				pos: position{line: 2243, col: 25, offset: 72647},
+				pos: position{line: 2247, col: 25, offset: 72837},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2243, col: 25, offset: 72647},
+						pos:  position{line: 2247, col: 25, offset: 72837},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2245, col: 21, offset: 72699},
+						pos: position{line: 2249, col: 21, offset: 72889},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2245, col: 21, offset: 72699},
+							pos: position{line: 2249, col: 21, offset: 72889},
 							expr: &charClassMatcher{
-								pos:        position{line: 2245, col: 21, offset: 72699},
+								pos:        position{line: 2249, col: 21, offset: 72889},
 								val:        "[^\\r\\n ~]",
 								chars:      []rune{'\r', '\n', ' ', '~'},
 								ignoreCase: false,
@@ -42456,23 +43022,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2249, col: 1, offset: 72784},
+			pos:  position{line: 2253, col: 1, offset: 72974},
 			expr: &actionExpr{
-				pos: position{line: 2251, col: 5, offset: 72851},
+				pos: position{line: 2255, col: 5, offset: 73041},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2251, col: 5, offset: 72851},
+					pos: position{line: 2255, col: 5, offset: 73041},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2251, col: 5, offset: 72851},
+							pos:   position{line: 2255, col: 5, offset: 73041},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1849, col: 25, offset: 59635},
+								pos: position{line: 1853, col: 25, offset: 59825},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1849, col: 25, offset: 59635},
+									pos: position{line: 1853, col: 25, offset: 59825},
 									expr: &litMatcher{
-										pos:        position{line: 1849, col: 25, offset: 59635},
+										pos:        position{line: 1853, col: 25, offset: 59825},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42481,21 +43047,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2241, col: 27, offset: 72618},
+							pos:        position{line: 2245, col: 27, offset: 72808},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2253, col: 5, offset: 72919},
+							pos:   position{line: 2257, col: 5, offset: 73109},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2253, col: 14, offset: 72928},
+								pos:  position{line: 2257, col: 14, offset: 73118},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2241, col: 27, offset: 72618},
+							pos:        position{line: 2245, col: 27, offset: 72808},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -42506,29 +43072,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2261, col: 1, offset: 73191},
+			pos:  position{line: 2265, col: 1, offset: 73381},
 			expr: &actionExpr{
-				pos: position{line: 2262, col: 5, offset: 73215},
+				pos: position{line: 2266, col: 5, offset: 73405},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2262, col: 5, offset: 73215},
+					pos: position{line: 2266, col: 5, offset: 73405},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2268, col: 29, offset: 73442},
+							pos:        position{line: 2272, col: 29, offset: 73632},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2263, col: 5, offset: 73245},
+							pos:   position{line: 2267, col: 5, offset: 73435},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2263, col: 14, offset: 73254},
+								pos:  position{line: 2267, col: 14, offset: 73444},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2268, col: 29, offset: 73442},
+							pos:        position{line: 2272, col: 29, offset: 73632},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42539,21 +43105,21 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2270, col: 1, offset: 73447},
+			pos:  position{line: 2274, col: 1, offset: 73637},
 			expr: &choiceExpr{
-				pos: position{line: 2270, col: 27, offset: 73473},
+				pos: position{line: 2274, col: 27, offset: 73663},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2270, col: 27, offset: 73473},
+						pos:  position{line: 2274, col: 27, offset: 73663},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2272, col: 23, offset: 73529},
+						pos: position{line: 2276, col: 23, offset: 73719},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2272, col: 23, offset: 73529},
+							pos: position{line: 2276, col: 23, offset: 73719},
 							expr: &charClassMatcher{
-								pos:        position{line: 2272, col: 23, offset: 73529},
+								pos:        position{line: 2276, col: 23, offset: 73719},
 								val:        "[^\\r\\n ^]",
 								chars:      []rune{'\r', '\n', ' ', '^'},
 								ignoreCase: false,
@@ -42566,23 +43132,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2276, col: 1, offset: 73614},
+			pos:  position{line: 2280, col: 1, offset: 73804},
 			expr: &actionExpr{
-				pos: position{line: 2278, col: 5, offset: 73686},
+				pos: position{line: 2282, col: 5, offset: 73876},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2278, col: 5, offset: 73686},
+					pos: position{line: 2282, col: 5, offset: 73876},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2278, col: 5, offset: 73686},
+							pos:   position{line: 2282, col: 5, offset: 73876},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1849, col: 25, offset: 59635},
+								pos: position{line: 1853, col: 25, offset: 59825},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1849, col: 25, offset: 59635},
+									pos: position{line: 1853, col: 25, offset: 59825},
 									expr: &litMatcher{
-										pos:        position{line: 1849, col: 25, offset: 59635},
+										pos:        position{line: 1853, col: 25, offset: 59825},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -42591,21 +43157,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2268, col: 29, offset: 73442},
+							pos:        position{line: 2272, col: 29, offset: 73632},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2280, col: 5, offset: 73756},
+							pos:   position{line: 2284, col: 5, offset: 73946},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2280, col: 14, offset: 73765},
+								pos:  position{line: 2284, col: 14, offset: 73955},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2268, col: 29, offset: 73442},
+							pos:        position{line: 2272, col: 29, offset: 73632},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -42616,27 +43182,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2289, col: 1, offset: 74234},
+			pos:  position{line: 2293, col: 1, offset: 74424},
 			expr: &actionExpr{
-				pos: position{line: 2290, col: 5, offset: 74250},
+				pos: position{line: 2294, col: 5, offset: 74440},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2290, col: 5, offset: 74250},
+					pos: position{line: 2294, col: 5, offset: 74440},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2290, col: 5, offset: 74250},
+							pos: position{line: 2294, col: 5, offset: 74440},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2293, col: 5, offset: 74313},
+							pos:   position{line: 2297, col: 5, offset: 74503},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2293, col: 12, offset: 74320},
+								pos: position{line: 2297, col: 12, offset: 74510},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2293, col: 12, offset: 74320},
+									pos: position{line: 2297, col: 12, offset: 74510},
 									expr: &litMatcher{
-										pos:        position{line: 2293, col: 13, offset: 74321},
+										pos:        position{line: 2297, col: 13, offset: 74511},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -42645,16 +43211,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2297, col: 5, offset: 74429},
+							pos: position{line: 2301, col: 5, offset: 74619},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2864, col: 11, offset: 90512},
+							pos: position{line: 2868, col: 11, offset: 90702},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2864, col: 11, offset: 90512},
+								pos: position{line: 2868, col: 11, offset: 90702},
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 11, offset: 90512},
+									pos:        position{line: 2868, col: 11, offset: 90702},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42663,36 +43229,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2301, col: 12, offset: 74588},
+							pos:   position{line: 2305, col: 12, offset: 74778},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2301, col: 19, offset: 74595},
+								pos:  position{line: 2305, col: 19, offset: 74785},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2882, col: 8, offset: 90849},
+							pos: position{line: 2886, col: 8, offset: 91039},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2869, col: 12, offset: 90622},
+									pos: position{line: 2873, col: 12, offset: 90812},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2869, col: 13, offset: 90623},
+										pos: position{line: 2873, col: 13, offset: 90813},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2869, col: 13, offset: 90623},
+												pos:        position{line: 2873, col: 13, offset: 90813},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2869, col: 20, offset: 90630},
+												pos:        position{line: 2873, col: 20, offset: 90820},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2869, col: 29, offset: 90639},
+												pos:        position{line: 2873, col: 29, offset: 90829},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42701,9 +43267,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2879, col: 8, offset: 90799},
+									pos: position{line: 2883, col: 8, offset: 90989},
 									expr: &anyMatcher{
-										line: 2879, col: 9, offset: 90800,
+										line: 2883, col: 9, offset: 90990,
 									},
 								},
 							},
@@ -42714,24 +43280,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2305, col: 1, offset: 74691},
+			pos:  position{line: 2309, col: 1, offset: 74881},
 			expr: &actionExpr{
-				pos: position{line: 2306, col: 5, offset: 74712},
+				pos: position{line: 2310, col: 5, offset: 74902},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2306, col: 5, offset: 74712},
+					pos: position{line: 2310, col: 5, offset: 74902},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2306, col: 5, offset: 74712},
+							pos: position{line: 2310, col: 5, offset: 74902},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2311, col: 5, offset: 74827},
+							pos:   position{line: 2315, col: 5, offset: 75017},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2311, col: 14, offset: 74836},
+								pos: position{line: 2315, col: 14, offset: 75026},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2311, col: 15, offset: 74837},
+									pos:  position{line: 2315, col: 15, offset: 75027},
 									name: "SectionTitleElement",
 								},
 							},
@@ -42742,38 +43308,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2315, col: 1, offset: 74918},
+			pos:  position{line: 2319, col: 1, offset: 75108},
 			expr: &actionExpr{
-				pos: position{line: 2316, col: 5, offset: 74945},
+				pos: position{line: 2320, col: 5, offset: 75135},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2316, col: 5, offset: 74945},
+					pos: position{line: 2320, col: 5, offset: 75135},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2316, col: 5, offset: 74945},
+							pos: position{line: 2320, col: 5, offset: 75135},
 							expr: &choiceExpr{
-								pos: position{line: 2882, col: 8, offset: 90849},
+								pos: position{line: 2886, col: 8, offset: 91039},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2869, col: 12, offset: 90622},
+										pos: position{line: 2873, col: 12, offset: 90812},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2869, col: 13, offset: 90623},
+											pos: position{line: 2873, col: 13, offset: 90813},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2869, col: 13, offset: 90623},
+													pos:        position{line: 2873, col: 13, offset: 90813},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2869, col: 20, offset: 90630},
+													pos:        position{line: 2873, col: 20, offset: 90820},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2869, col: 29, offset: 90639},
+													pos:        position{line: 2873, col: 29, offset: 90829},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -42782,36 +43348,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2879, col: 8, offset: 90799},
+										pos: position{line: 2883, col: 8, offset: 90989},
 										expr: &anyMatcher{
-											line: 2879, col: 9, offset: 90800,
+											line: 2883, col: 9, offset: 90990,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2317, col: 5, offset: 74954},
+							pos:   position{line: 2321, col: 5, offset: 75144},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2318, col: 9, offset: 74972},
+								pos: position{line: 2322, col: 9, offset: 75162},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2759, col: 5, offset: 87693},
+										pos: position{line: 2763, col: 5, offset: 87883},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2759, col: 5, offset: 87693},
+											pos: position{line: 2763, col: 5, offset: 87883},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2759, col: 5, offset: 87693},
+													pos:   position{line: 2763, col: 5, offset: 87883},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2759, col: 11, offset: 87699},
+														pos: position{line: 2763, col: 11, offset: 87889},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2759, col: 11, offset: 87699},
+															pos: position{line: 2763, col: 11, offset: 87889},
 															expr: &charClassMatcher{
-																pos:        position{line: 2759, col: 11, offset: 87699},
+																pos:        position{line: 2763, col: 11, offset: 87889},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -42821,36 +43387,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2762, col: 5, offset: 87757},
+													pos: position{line: 2766, col: 5, offset: 87947},
 													expr: &seqExpr{
-														pos: position{line: 2763, col: 9, offset: 87768},
+														pos: position{line: 2767, col: 9, offset: 87958},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2763, col: 9, offset: 87768},
+																pos:        position{line: 2767, col: 9, offset: 87958},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2764, col: 9, offset: 87817},
+																pos: position{line: 2768, col: 9, offset: 88007},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2768, col: 5, offset: 87897},
+													pos: position{line: 2772, col: 5, offset: 88087},
 													expr: &seqExpr{
-														pos: position{line: 2769, col: 9, offset: 87908},
+														pos: position{line: 2773, col: 9, offset: 88098},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2769, col: 9, offset: 87908},
+																pos:        position{line: 2773, col: 9, offset: 88098},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2769, col: 13, offset: 87912},
+																pos:        position{line: 2773, col: 13, offset: 88102},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -42863,12 +43429,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2864, col: 11, offset: 90512},
+										pos: position{line: 2868, col: 11, offset: 90702},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2864, col: 11, offset: 90512},
+											pos: position{line: 2868, col: 11, offset: 90702},
 											expr: &charClassMatcher{
-												pos:        position{line: 2864, col: 11, offset: 90512},
+												pos:        position{line: 2868, col: 11, offset: 90702},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -42877,21 +43443,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2488, col: 5, offset: 80153},
+										pos: position{line: 2492, col: 5, offset: 80343},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2488, col: 5, offset: 80153},
+											pos: position{line: 2492, col: 5, offset: 80343},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2488, col: 5, offset: 80153},
+													pos:        position{line: 2492, col: 5, offset: 80343},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2488, col: 10, offset: 80158},
+													pos: position{line: 2492, col: 10, offset: 80348},
 													expr: &charClassMatcher{
-														pos:        position{line: 2488, col: 11, offset: 80159},
+														pos:        position{line: 2492, col: 11, offset: 80349},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -42902,29 +43468,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2494, col: 5, offset: 80351},
+										pos: position{line: 2498, col: 5, offset: 80541},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2494, col: 5, offset: 80351},
+											pos: position{line: 2498, col: 5, offset: 80541},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2494, col: 5, offset: 80351},
+													pos: position{line: 2498, col: 5, offset: 80541},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2497, col: 5, offset: 80422},
+													pos: position{line: 2501, col: 5, offset: 80612},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2501, col: 5, offset: 80547},
+													pos:        position{line: 2505, col: 5, offset: 80737},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2501, col: 9, offset: 80551},
+													pos: position{line: 2505, col: 9, offset: 80741},
 													expr: &charClassMatcher{
-														pos:        position{line: 2501, col: 10, offset: 80552},
+														pos:        position{line: 2505, col: 10, offset: 80742},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -42935,31 +43501,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2321, col: 11, offset: 75037},
+										pos:  position{line: 2325, col: 11, offset: 75227},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2777, col: 5, offset: 88105},
+										pos: position{line: 2781, col: 5, offset: 88295},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2778, col: 9, offset: 88115},
+											pos: position{line: 2782, col: 9, offset: 88305},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2778, col: 10, offset: 88116},
+													pos:        position{line: 2782, col: 10, offset: 88306},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2780, col: 13, offset: 88213},
+													pos: position{line: 2784, col: 13, offset: 88403},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2780, col: 13, offset: 88213},
+															pos: position{line: 2784, col: 13, offset: 88403},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2783, col: 13, offset: 88313},
+															pos:        position{line: 2787, col: 13, offset: 88503},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -42967,20 +43533,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2783, col: 19, offset: 88319},
+													pos:        position{line: 2787, col: 19, offset: 88509},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2786, col: 13, offset: 88357},
+													pos: position{line: 2790, col: 13, offset: 88547},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2786, col: 13, offset: 88357},
+															pos: position{line: 2790, col: 13, offset: 88547},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2789, col: 14, offset: 88450},
+															pos:        position{line: 2793, col: 14, offset: 88640},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -42989,18 +43555,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2791, col: 12, offset: 88494},
+													pos: position{line: 2795, col: 12, offset: 88684},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2791, col: 12, offset: 88494},
+															pos:        position{line: 2795, col: 12, offset: 88684},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2791, col: 16, offset: 88498},
+															pos: position{line: 2795, col: 16, offset: 88688},
 															expr: &litMatcher{
-																pos:        position{line: 2791, col: 17, offset: 88499},
+																pos:        position{line: 2795, col: 17, offset: 88689},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43012,35 +43578,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2323, col: 11, offset: 75110},
+										pos:  position{line: 2327, col: 11, offset: 75300},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2324, col: 11, offset: 75126},
+										pos:  position{line: 2328, col: 11, offset: 75316},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2325, col: 11, offset: 75154},
+										pos:  position{line: 2329, col: 11, offset: 75344},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2457, col: 5, offset: 78982},
+										pos: position{line: 2461, col: 5, offset: 79172},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2457, col: 5, offset: 78982},
+											pos: position{line: 2461, col: 5, offset: 79172},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2457, col: 5, offset: 78982},
+													pos: position{line: 2461, col: 5, offset: 79172},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2460, col: 5, offset: 79058},
+													pos:   position{line: 2464, col: 5, offset: 79248},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2461, col: 9, offset: 79076},
+														pos: position{line: 2465, col: 9, offset: 79266},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2461, col: 10, offset: 79077},
+															pos:        position{line: 2465, col: 10, offset: 79267},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -43052,7 +43618,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2327, col: 11, offset: 75239},
+										pos:  position{line: 2331, col: 11, offset: 75429},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -43402,27 +43968,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1206, col: 23, offset: 37184},
+										pos: position{line: 1210, col: 23, offset: 37374},
 										run: (*parser).callonSectionTitleElement137,
 										expr: &seqExpr{
-											pos: position{line: 1206, col: 23, offset: 37184},
+											pos: position{line: 1210, col: 23, offset: 37374},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1204, col: 32, offset: 37152},
+													pos:        position{line: 1208, col: 32, offset: 37342},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1206, col: 51, offset: 37212},
+													pos:   position{line: 1210, col: 51, offset: 37402},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1206, col: 56, offset: 37217},
+														pos: position{line: 1210, col: 56, offset: 37407},
 														run: (*parser).callonSectionTitleElement141,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1206, col: 56, offset: 37217},
+															pos: position{line: 1210, col: 56, offset: 37407},
 															expr: &charClassMatcher{
-																pos:        position{line: 1206, col: 56, offset: 37217},
+																pos:        position{line: 1210, col: 56, offset: 37407},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -43432,7 +43998,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1204, col: 32, offset: 37152},
+													pos:        position{line: 1208, col: 32, offset: 37342},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -43441,17 +44007,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2340, col: 5, offset: 75692},
+										pos: position{line: 2344, col: 5, offset: 75882},
 										run: (*parser).callonSectionTitleElement145,
 										expr: &seqExpr{
-											pos: position{line: 2340, col: 5, offset: 75692},
+											pos: position{line: 2344, col: 5, offset: 75882},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2340, col: 5, offset: 75692},
+													pos: position{line: 2344, col: 5, offset: 75882},
 													run: (*parser).callonSectionTitleElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2343, col: 5, offset: 75747},
+													pos:   position{line: 2347, col: 5, offset: 75937},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 404, col: 5, offset: 12337},
@@ -43494,27 +44060,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1206, col: 23, offset: 37184},
+																							pos: position{line: 1210, col: 23, offset: 37374},
 																							run: (*parser).callonSectionTitleElement160,
 																							expr: &seqExpr{
-																								pos: position{line: 1206, col: 23, offset: 37184},
+																								pos: position{line: 1210, col: 23, offset: 37374},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1204, col: 32, offset: 37152},
+																										pos:        position{line: 1208, col: 32, offset: 37342},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1206, col: 51, offset: 37212},
+																										pos:   position{line: 1210, col: 51, offset: 37402},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1206, col: 56, offset: 37217},
+																											pos: position{line: 1210, col: 56, offset: 37407},
 																											run: (*parser).callonSectionTitleElement164,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1206, col: 56, offset: 37217},
+																												pos: position{line: 1210, col: 56, offset: 37407},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1206, col: 56, offset: 37217},
+																													pos:        position{line: 1210, col: 56, offset: 37407},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -43524,7 +44090,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1204, col: 32, offset: 37152},
+																										pos:        position{line: 1208, col: 32, offset: 37342},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
@@ -43905,12 +44471,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2343, col: 26, offset: 75768},
+													pos: position{line: 2347, col: 26, offset: 75958},
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 10, offset: 90451},
+														pos: position{line: 2864, col: 10, offset: 90641},
 														run: (*parser).callonSectionTitleElement241,
 														expr: &charClassMatcher{
-															pos:        position{line: 2860, col: 10, offset: 90451},
+															pos:        position{line: 2864, col: 10, offset: 90641},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -43919,30 +44485,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2343, col: 33, offset: 75775},
+													pos: position{line: 2347, col: 33, offset: 75965},
 													expr: &choiceExpr{
-														pos: position{line: 2882, col: 8, offset: 90849},
+														pos: position{line: 2886, col: 8, offset: 91039},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2869, col: 12, offset: 90622},
+																pos: position{line: 2873, col: 12, offset: 90812},
 																run: (*parser).callonSectionTitleElement245,
 																expr: &choiceExpr{
-																	pos: position{line: 2869, col: 13, offset: 90623},
+																	pos: position{line: 2873, col: 13, offset: 90813},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 13, offset: 90623},
+																			pos:        position{line: 2873, col: 13, offset: 90813},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 20, offset: 90630},
+																			pos:        position{line: 2873, col: 20, offset: 90820},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2869, col: 29, offset: 90639},
+																			pos:        position{line: 2873, col: 29, offset: 90829},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -43951,9 +44517,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2879, col: 8, offset: 90799},
+																pos: position{line: 2883, col: 8, offset: 90989},
 																expr: &anyMatcher{
-																	line: 2879, col: 9, offset: 90800,
+																	line: 2883, col: 9, offset: 90990,
 																},
 															},
 														},
@@ -43963,27 +44529,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1261, col: 5, offset: 38944},
+										pos: position{line: 1265, col: 5, offset: 39134},
 										run: (*parser).callonSectionTitleElement252,
 										expr: &seqExpr{
-											pos: position{line: 1261, col: 5, offset: 38944},
+											pos: position{line: 1265, col: 5, offset: 39134},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1261, col: 5, offset: 38944},
+													pos:        position{line: 1265, col: 5, offset: 39134},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1261, col: 14, offset: 38953},
+													pos:   position{line: 1265, col: 14, offset: 39143},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2845, col: 7, offset: 90103},
+														pos: position{line: 2849, col: 7, offset: 90293},
 														run: (*parser).callonSectionTitleElement256,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2845, col: 7, offset: 90103},
+															pos: position{line: 2849, col: 7, offset: 90293},
 															expr: &charClassMatcher{
-																pos:        position{line: 2845, col: 7, offset: 90103},
+																pos:        position{line: 2849, col: 7, offset: 90293},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -43993,7 +44559,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1261, col: 22, offset: 38961},
+													pos:        position{line: 1265, col: 22, offset: 39151},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44002,27 +44568,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1266, col: 5, offset: 39080},
+										pos: position{line: 1270, col: 5, offset: 39270},
 										run: (*parser).callonSectionTitleElement260,
 										expr: &seqExpr{
-											pos: position{line: 1266, col: 5, offset: 39080},
+											pos: position{line: 1270, col: 5, offset: 39270},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1266, col: 5, offset: 39080},
+													pos:        position{line: 1270, col: 5, offset: 39270},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1266, col: 10, offset: 39085},
+													pos:   position{line: 1270, col: 10, offset: 39275},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2845, col: 7, offset: 90103},
+														pos: position{line: 2849, col: 7, offset: 90293},
 														run: (*parser).callonSectionTitleElement264,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2845, col: 7, offset: 90103},
+															pos: position{line: 2849, col: 7, offset: 90293},
 															expr: &charClassMatcher{
-																pos:        position{line: 2845, col: 7, offset: 90103},
+																pos:        position{line: 2849, col: 7, offset: 90293},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -44032,7 +44598,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1266, col: 18, offset: 39093},
+													pos:        position{line: 1270, col: 18, offset: 39283},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -44041,14 +44607,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2332, col: 11, offset: 75493},
+										pos:  position{line: 2336, col: 11, offset: 75683},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2799, col: 12, offset: 88759},
+										pos: position{line: 2803, col: 12, offset: 88949},
 										run: (*parser).callonSectionTitleElement269,
 										expr: &charClassMatcher{
-											pos:        position{line: 2799, col: 12, offset: 88759},
+											pos:        position{line: 2803, col: 12, offset: 88949},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -44064,52 +44630,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2353, col: 1, offset: 76037},
+			pos:  position{line: 2357, col: 1, offset: 76227},
 			expr: &actionExpr{
-				pos: position{line: 2354, col: 5, offset: 76124},
+				pos: position{line: 2358, col: 5, offset: 76314},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2354, col: 5, offset: 76124},
+					pos: position{line: 2358, col: 5, offset: 76314},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2354, col: 5, offset: 76124},
+							pos:   position{line: 2358, col: 5, offset: 76314},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2354, col: 14, offset: 76133},
+								pos: position{line: 2358, col: 14, offset: 76323},
 								expr: &actionExpr{
-									pos: position{line: 2356, col: 9, offset: 76159},
+									pos: position{line: 2360, col: 9, offset: 76349},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2356, col: 9, offset: 76159},
+										pos: position{line: 2360, col: 9, offset: 76349},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2877, col: 11, offset: 90785},
+												pos: position{line: 2881, col: 11, offset: 90975},
 												expr: &anyMatcher{
-													line: 2877, col: 13, offset: 90787,
+													line: 2881, col: 13, offset: 90977,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2357, col: 9, offset: 76174},
+												pos:   position{line: 2361, col: 9, offset: 76364},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2358, col: 13, offset: 76196},
+													pos: position{line: 2362, col: 13, offset: 76386},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2759, col: 5, offset: 87693},
+															pos: position{line: 2763, col: 5, offset: 87883},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2759, col: 5, offset: 87693},
+																pos: position{line: 2763, col: 5, offset: 87883},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2759, col: 5, offset: 87693},
+																		pos:   position{line: 2763, col: 5, offset: 87883},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2759, col: 11, offset: 87699},
+																			pos: position{line: 2763, col: 11, offset: 87889},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2759, col: 11, offset: 87699},
+																				pos: position{line: 2763, col: 11, offset: 87889},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2759, col: 11, offset: 87699},
+																					pos:        position{line: 2763, col: 11, offset: 87889},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44119,36 +44685,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2762, col: 5, offset: 87757},
+																		pos: position{line: 2766, col: 5, offset: 87947},
 																		expr: &seqExpr{
-																			pos: position{line: 2763, col: 9, offset: 87768},
+																			pos: position{line: 2767, col: 9, offset: 87958},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2763, col: 9, offset: 87768},
+																					pos:        position{line: 2767, col: 9, offset: 87958},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2764, col: 9, offset: 87817},
+																					pos: position{line: 2768, col: 9, offset: 88007},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2768, col: 5, offset: 87897},
+																		pos: position{line: 2772, col: 5, offset: 88087},
 																		expr: &seqExpr{
-																			pos: position{line: 2769, col: 9, offset: 87908},
+																			pos: position{line: 2773, col: 9, offset: 88098},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2769, col: 9, offset: 87908},
+																					pos:        position{line: 2773, col: 9, offset: 88098},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2769, col: 13, offset: 87912},
+																					pos:        position{line: 2773, col: 13, offset: 88102},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44161,12 +44727,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2864, col: 11, offset: 90512},
+															pos: position{line: 2868, col: 11, offset: 90702},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2864, col: 11, offset: 90512},
+																pos: position{line: 2868, col: 11, offset: 90702},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2864, col: 11, offset: 90512},
+																	pos:        position{line: 2868, col: 11, offset: 90702},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -44175,25 +44741,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2360, col: 15, offset: 76242},
+															pos:  position{line: 2364, col: 15, offset: 76432},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2488, col: 5, offset: 80153},
+															pos: position{line: 2492, col: 5, offset: 80343},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2488, col: 5, offset: 80153},
+																pos: position{line: 2492, col: 5, offset: 80343},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2488, col: 5, offset: 80153},
+																		pos:        position{line: 2492, col: 5, offset: 80343},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2488, col: 10, offset: 80158},
+																		pos: position{line: 2492, col: 10, offset: 80348},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2488, col: 11, offset: 80159},
+																			pos:        position{line: 2492, col: 11, offset: 80349},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44204,29 +44770,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2494, col: 5, offset: 80351},
+															pos: position{line: 2498, col: 5, offset: 80541},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2494, col: 5, offset: 80351},
+																pos: position{line: 2498, col: 5, offset: 80541},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2494, col: 5, offset: 80351},
+																		pos: position{line: 2498, col: 5, offset: 80541},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2497, col: 5, offset: 80422},
+																		pos: position{line: 2501, col: 5, offset: 80612},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2501, col: 5, offset: 80547},
+																		pos:        position{line: 2505, col: 5, offset: 80737},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2501, col: 9, offset: 80551},
+																		pos: position{line: 2505, col: 9, offset: 80741},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2501, col: 10, offset: 80552},
+																			pos:        position{line: 2505, col: 10, offset: 80742},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -44237,27 +44803,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2777, col: 5, offset: 88105},
+															pos: position{line: 2781, col: 5, offset: 88295},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2778, col: 9, offset: 88115},
+																pos: position{line: 2782, col: 9, offset: 88305},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2778, col: 10, offset: 88116},
+																		pos:        position{line: 2782, col: 10, offset: 88306},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2780, col: 13, offset: 88213},
+																		pos: position{line: 2784, col: 13, offset: 88403},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2780, col: 13, offset: 88213},
+																				pos: position{line: 2784, col: 13, offset: 88403},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2783, col: 13, offset: 88313},
+																				pos:        position{line: 2787, col: 13, offset: 88503},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -44265,20 +44831,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2783, col: 19, offset: 88319},
+																		pos:        position{line: 2787, col: 19, offset: 88509},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2786, col: 13, offset: 88357},
+																		pos: position{line: 2790, col: 13, offset: 88547},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2786, col: 13, offset: 88357},
+																				pos: position{line: 2790, col: 13, offset: 88547},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2789, col: 14, offset: 88450},
+																				pos:        position{line: 2793, col: 14, offset: 88640},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -44287,18 +44853,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2791, col: 12, offset: 88494},
+																		pos: position{line: 2795, col: 12, offset: 88684},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2791, col: 12, offset: 88494},
+																				pos:        position{line: 2795, col: 12, offset: 88684},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2791, col: 16, offset: 88498},
+																				pos: position{line: 2795, col: 16, offset: 88688},
 																				expr: &litMatcher{
-																					pos:        position{line: 2791, col: 17, offset: 88499},
+																					pos:        position{line: 2795, col: 17, offset: 88689},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -44310,25 +44876,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2869, col: 12, offset: 90622},
+															pos: position{line: 2873, col: 12, offset: 90812},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2869, col: 13, offset: 90623},
+																pos: position{line: 2873, col: 13, offset: 90813},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 13, offset: 90623},
+																		pos:        position{line: 2873, col: 13, offset: 90813},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 20, offset: 90630},
+																		pos:        position{line: 2873, col: 20, offset: 90820},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2869, col: 29, offset: 90639},
+																		pos:        position{line: 2873, col: 29, offset: 90829},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -44683,35 +45249,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2365, col: 15, offset: 76409},
+															pos:  position{line: 2369, col: 15, offset: 76599},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2366, col: 15, offset: 76429},
+															pos:  position{line: 2370, col: 15, offset: 76619},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2367, col: 15, offset: 76518},
+															pos:  position{line: 2371, col: 15, offset: 76708},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2457, col: 5, offset: 78982},
+															pos: position{line: 2461, col: 5, offset: 79172},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2457, col: 5, offset: 78982},
+																pos: position{line: 2461, col: 5, offset: 79172},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2457, col: 5, offset: 78982},
+																		pos: position{line: 2461, col: 5, offset: 79172},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2460, col: 5, offset: 79058},
+																		pos:   position{line: 2464, col: 5, offset: 79248},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2461, col: 9, offset: 79076},
+																			pos: position{line: 2465, col: 9, offset: 79266},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2461, col: 10, offset: 79077},
+																				pos:        position{line: 2465, col: 10, offset: 79267},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -44723,32 +45289,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1214, col: 5, offset: 37630},
+															pos: position{line: 1218, col: 5, offset: 37820},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 1214, col: 5, offset: 37630},
+																pos: position{line: 1218, col: 5, offset: 37820},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1214, col: 5, offset: 37630},
+																		pos: position{line: 1218, col: 5, offset: 37820},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1217, col: 5, offset: 37706},
+																		pos:        position{line: 1221, col: 5, offset: 37896},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1218, col: 5, offset: 37714},
+																		pos: position{line: 1222, col: 5, offset: 37904},
 																		run: (*parser).callonNormalGroup142,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1222, col: 5, offset: 37801},
+																		pos: position{line: 1226, col: 5, offset: 37991},
 																		expr: &actionExpr{
-																			pos: position{line: 2860, col: 10, offset: 90451},
+																			pos: position{line: 2864, col: 10, offset: 90641},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2860, col: 10, offset: 90451},
+																				pos:        position{line: 2864, col: 10, offset: 90641},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -44757,30 +45323,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1222, col: 12, offset: 37808},
+																		pos: position{line: 1226, col: 12, offset: 37998},
 																		expr: &choiceExpr{
-																			pos: position{line: 2882, col: 8, offset: 90849},
+																			pos: position{line: 2886, col: 8, offset: 91039},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2869, col: 12, offset: 90622},
+																					pos: position{line: 2873, col: 12, offset: 90812},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2869, col: 13, offset: 90623},
+																						pos: position{line: 2873, col: 13, offset: 90813},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 13, offset: 90623},
+																								pos:        position{line: 2873, col: 13, offset: 90813},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 20, offset: 90630},
+																								pos:        position{line: 2873, col: 20, offset: 90820},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 29, offset: 90639},
+																								pos:        position{line: 2873, col: 29, offset: 90829},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -44789,9 +45355,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2879, col: 8, offset: 90799},
+																					pos: position{line: 2883, col: 8, offset: 90989},
 																					expr: &anyMatcher{
-																						line: 2879, col: 9, offset: 90800,
+																						line: 2883, col: 9, offset: 90990,
 																					},
 																				},
 																			},
@@ -44801,31 +45367,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2370, col: 15, offset: 76700},
+															pos:  position{line: 2374, col: 15, offset: 76890},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1206, col: 23, offset: 37184},
+															pos: position{line: 1210, col: 23, offset: 37374},
 															run: (*parser).callonNormalGroup156,
 															expr: &seqExpr{
-																pos: position{line: 1206, col: 23, offset: 37184},
+																pos: position{line: 1210, col: 23, offset: 37374},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1204, col: 32, offset: 37152},
+																		pos:        position{line: 1208, col: 32, offset: 37342},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1206, col: 51, offset: 37212},
+																		pos:   position{line: 1210, col: 51, offset: 37402},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1206, col: 56, offset: 37217},
+																			pos: position{line: 1210, col: 56, offset: 37407},
 																			run: (*parser).callonNormalGroup160,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1206, col: 56, offset: 37217},
+																				pos: position{line: 1210, col: 56, offset: 37407},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1206, col: 56, offset: 37217},
+																					pos:        position{line: 1210, col: 56, offset: 37407},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -44835,7 +45401,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1204, col: 32, offset: 37152},
+																		pos:        position{line: 1208, col: 32, offset: 37342},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -44844,10 +45410,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2799, col: 12, offset: 88759},
+															pos: position{line: 2803, col: 12, offset: 88949},
 															run: (*parser).callonNormalGroup164,
 															expr: &charClassMatcher{
-																pos:        position{line: 2799, col: 12, offset: 88759},
+																pos:        position{line: 2803, col: 12, offset: 88949},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -44863,9 +45429,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2879, col: 8, offset: 90799},
+							pos: position{line: 2883, col: 8, offset: 90989},
 							expr: &anyMatcher{
-								line: 2879, col: 9, offset: 90800,
+								line: 2883, col: 9, offset: 90990,
 							},
 						},
 					},
@@ -44874,28 +45440,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2381, col: 1, offset: 77138},
+			pos:  position{line: 2385, col: 1, offset: 77328},
 			expr: &actionExpr{
-				pos: position{line: 2382, col: 5, offset: 77171},
+				pos: position{line: 2386, col: 5, offset: 77361},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2382, col: 5, offset: 77171},
+					pos: position{line: 2386, col: 5, offset: 77361},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2382, col: 5, offset: 77171},
+							pos:   position{line: 2386, col: 5, offset: 77361},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2382, col: 14, offset: 77180},
+								pos: position{line: 2386, col: 14, offset: 77370},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2382, col: 15, offset: 77181},
+									pos:  position{line: 2386, col: 15, offset: 77371},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2879, col: 8, offset: 90799},
+							pos: position{line: 2883, col: 8, offset: 90989},
 							expr: &anyMatcher{
-								line: 2879, col: 9, offset: 90800,
+								line: 2883, col: 9, offset: 90990,
 							},
 						},
 					},
@@ -44904,41 +45470,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2386, col: 1, offset: 77278},
+			pos:  position{line: 2390, col: 1, offset: 77468},
 			expr: &actionExpr{
-				pos: position{line: 2387, col: 5, offset: 77318},
+				pos: position{line: 2391, col: 5, offset: 77508},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2387, col: 5, offset: 77318},
+					pos: position{line: 2391, col: 5, offset: 77508},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2877, col: 11, offset: 90785},
+							pos: position{line: 2881, col: 11, offset: 90975},
 							expr: &anyMatcher{
-								line: 2877, col: 13, offset: 90787,
+								line: 2881, col: 13, offset: 90977,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2388, col: 5, offset: 77329},
+							pos:   position{line: 2392, col: 5, offset: 77519},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2389, col: 9, offset: 77347},
+								pos: position{line: 2393, col: 9, offset: 77537},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2759, col: 5, offset: 87693},
+										pos: position{line: 2763, col: 5, offset: 87883},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2759, col: 5, offset: 87693},
+											pos: position{line: 2763, col: 5, offset: 87883},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2759, col: 5, offset: 87693},
+													pos:   position{line: 2763, col: 5, offset: 87883},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2759, col: 11, offset: 87699},
+														pos: position{line: 2763, col: 11, offset: 87889},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2759, col: 11, offset: 87699},
+															pos: position{line: 2763, col: 11, offset: 87889},
 															expr: &charClassMatcher{
-																pos:        position{line: 2759, col: 11, offset: 87699},
+																pos:        position{line: 2763, col: 11, offset: 87889},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44948,36 +45514,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2762, col: 5, offset: 87757},
+													pos: position{line: 2766, col: 5, offset: 87947},
 													expr: &seqExpr{
-														pos: position{line: 2763, col: 9, offset: 87768},
+														pos: position{line: 2767, col: 9, offset: 87958},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2763, col: 9, offset: 87768},
+																pos:        position{line: 2767, col: 9, offset: 87958},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2764, col: 9, offset: 87817},
+																pos: position{line: 2768, col: 9, offset: 88007},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2768, col: 5, offset: 87897},
+													pos: position{line: 2772, col: 5, offset: 88087},
 													expr: &seqExpr{
-														pos: position{line: 2769, col: 9, offset: 87908},
+														pos: position{line: 2773, col: 9, offset: 88098},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2769, col: 9, offset: 87908},
+																pos:        position{line: 2773, col: 9, offset: 88098},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2769, col: 13, offset: 87912},
+																pos:        position{line: 2773, col: 13, offset: 88102},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -44990,10 +45556,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2860, col: 10, offset: 90451},
+										pos: position{line: 2864, col: 10, offset: 90641},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2860, col: 10, offset: 90451},
+											pos:        position{line: 2864, col: 10, offset: 90641},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45001,31 +45567,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2391, col: 11, offset: 77385},
+										pos:  position{line: 2395, col: 11, offset: 77575},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2777, col: 5, offset: 88105},
+										pos: position{line: 2781, col: 5, offset: 88295},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2778, col: 9, offset: 88115},
+											pos: position{line: 2782, col: 9, offset: 88305},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2778, col: 10, offset: 88116},
+													pos:        position{line: 2782, col: 10, offset: 88306},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2780, col: 13, offset: 88213},
+													pos: position{line: 2784, col: 13, offset: 88403},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2780, col: 13, offset: 88213},
+															pos: position{line: 2784, col: 13, offset: 88403},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2783, col: 13, offset: 88313},
+															pos:        position{line: 2787, col: 13, offset: 88503},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45033,20 +45599,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2783, col: 19, offset: 88319},
+													pos:        position{line: 2787, col: 19, offset: 88509},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2786, col: 13, offset: 88357},
+													pos: position{line: 2790, col: 13, offset: 88547},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2786, col: 13, offset: 88357},
+															pos: position{line: 2790, col: 13, offset: 88547},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2789, col: 14, offset: 88450},
+															pos:        position{line: 2793, col: 14, offset: 88640},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45055,18 +45621,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2791, col: 12, offset: 88494},
+													pos: position{line: 2795, col: 12, offset: 88684},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2791, col: 12, offset: 88494},
+															pos:        position{line: 2795, col: 12, offset: 88684},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2791, col: 16, offset: 88498},
+															pos: position{line: 2795, col: 16, offset: 88688},
 															expr: &litMatcher{
-																pos:        position{line: 2791, col: 17, offset: 88499},
+																pos:        position{line: 2795, col: 17, offset: 88689},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45078,31 +45644,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2393, col: 11, offset: 77458},
+										pos:  position{line: 2397, col: 11, offset: 77648},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2394, col: 11, offset: 77474},
+										pos:  position{line: 2398, col: 11, offset: 77664},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2457, col: 5, offset: 78982},
+										pos: position{line: 2461, col: 5, offset: 79172},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2457, col: 5, offset: 78982},
+											pos: position{line: 2461, col: 5, offset: 79172},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2457, col: 5, offset: 78982},
+													pos: position{line: 2461, col: 5, offset: 79172},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2460, col: 5, offset: 79058},
+													pos:   position{line: 2464, col: 5, offset: 79248},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2461, col: 9, offset: 79076},
+														pos: position{line: 2465, col: 9, offset: 79266},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2461, col: 10, offset: 79077},
+															pos:        position{line: 2465, col: 10, offset: 79267},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -45114,27 +45680,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1206, col: 23, offset: 37184},
+										pos: position{line: 1210, col: 23, offset: 37374},
 										run: (*parser).callonAttributeStructuredValueElement46,
 										expr: &seqExpr{
-											pos: position{line: 1206, col: 23, offset: 37184},
+											pos: position{line: 1210, col: 23, offset: 37374},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1204, col: 32, offset: 37152},
+													pos:        position{line: 1208, col: 32, offset: 37342},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1206, col: 51, offset: 37212},
+													pos:   position{line: 1210, col: 51, offset: 37402},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1206, col: 56, offset: 37217},
+														pos: position{line: 1210, col: 56, offset: 37407},
 														run: (*parser).callonAttributeStructuredValueElement50,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1206, col: 56, offset: 37217},
+															pos: position{line: 1210, col: 56, offset: 37407},
 															expr: &charClassMatcher{
-																pos:        position{line: 1206, col: 56, offset: 37217},
+																pos:        position{line: 1210, col: 56, offset: 37407},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -45144,7 +45710,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1204, col: 32, offset: 37152},
+													pos:        position{line: 1208, col: 32, offset: 37342},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -45153,25 +45719,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2869, col: 12, offset: 90622},
+										pos: position{line: 2873, col: 12, offset: 90812},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2869, col: 13, offset: 90623},
+											pos: position{line: 2873, col: 13, offset: 90813},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2869, col: 13, offset: 90623},
+													pos:        position{line: 2873, col: 13, offset: 90813},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2869, col: 20, offset: 90630},
+													pos:        position{line: 2873, col: 20, offset: 90820},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2869, col: 29, offset: 90639},
+													pos:        position{line: 2873, col: 29, offset: 90829},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45180,10 +45746,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2799, col: 12, offset: 88759},
+										pos: position{line: 2803, col: 12, offset: 88949},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2799, col: 12, offset: 88759},
+											pos:        position{line: 2803, col: 12, offset: 88949},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45199,73 +45765,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2405, col: 1, offset: 77744},
+			pos:  position{line: 2409, col: 1, offset: 77934},
 			expr: &actionExpr{
-				pos: position{line: 2407, col: 5, offset: 77826},
+				pos: position{line: 2411, col: 5, offset: 78016},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2407, col: 5, offset: 77826},
+					pos: position{line: 2411, col: 5, offset: 78016},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2407, col: 5, offset: 77826},
+							pos: position{line: 2411, col: 5, offset: 78016},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2410, col: 5, offset: 77891},
+							pos:   position{line: 2414, col: 5, offset: 78081},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2411, col: 9, offset: 77909},
+								pos: position{line: 2415, col: 9, offset: 78099},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2411, col: 9, offset: 77909},
+										pos:  position{line: 2415, col: 9, offset: 78099},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2412, col: 11, offset: 77930},
+										pos:  position{line: 2416, col: 11, offset: 78120},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2413, col: 11, offset: 77953},
+										pos:  position{line: 2417, col: 11, offset: 78143},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2414, col: 11, offset: 77969},
+										pos:  position{line: 2418, col: 11, offset: 78159},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2415, col: 11, offset: 77998},
+										pos:  position{line: 2419, col: 11, offset: 78188},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2416, col: 11, offset: 78024},
+										pos:  position{line: 2420, col: 11, offset: 78214},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2417, col: 11, offset: 78050},
+										pos:  position{line: 2421, col: 11, offset: 78240},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1261, col: 5, offset: 38944},
+										pos: position{line: 1265, col: 5, offset: 39134},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1261, col: 5, offset: 38944},
+											pos: position{line: 1265, col: 5, offset: 39134},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1261, col: 5, offset: 38944},
+													pos:        position{line: 1265, col: 5, offset: 39134},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1261, col: 14, offset: 38953},
+													pos:   position{line: 1265, col: 14, offset: 39143},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2845, col: 7, offset: 90103},
+														pos: position{line: 2849, col: 7, offset: 90293},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2845, col: 7, offset: 90103},
+															pos: position{line: 2849, col: 7, offset: 90293},
 															expr: &charClassMatcher{
-																pos:        position{line: 2845, col: 7, offset: 90103},
+																pos:        position{line: 2849, col: 7, offset: 90293},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45275,7 +45841,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1261, col: 22, offset: 38961},
+													pos:        position{line: 1265, col: 22, offset: 39151},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45284,27 +45850,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1266, col: 5, offset: 39080},
+										pos: position{line: 1270, col: 5, offset: 39270},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1266, col: 5, offset: 39080},
+											pos: position{line: 1270, col: 5, offset: 39270},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1266, col: 5, offset: 39080},
+													pos:        position{line: 1270, col: 5, offset: 39270},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1266, col: 10, offset: 39085},
+													pos:   position{line: 1270, col: 10, offset: 39275},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2845, col: 7, offset: 90103},
+														pos: position{line: 2849, col: 7, offset: 90293},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2845, col: 7, offset: 90103},
+															pos: position{line: 2849, col: 7, offset: 90293},
 															expr: &charClassMatcher{
-																pos:        position{line: 2845, col: 7, offset: 90103},
+																pos:        position{line: 2849, col: 7, offset: 90293},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45314,7 +45880,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1266, col: 18, offset: 39093},
+													pos:        position{line: 1270, col: 18, offset: 39283},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45323,40 +45889,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1305, col: 23, offset: 40569},
+										pos: position{line: 1309, col: 23, offset: 40759},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1305, col: 23, offset: 40569},
+											pos: position{line: 1309, col: 23, offset: 40759},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1305, col: 23, offset: 40569},
+													pos:        position{line: 1309, col: 23, offset: 40759},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1305, col: 29, offset: 40575},
+													pos:   position{line: 1309, col: 29, offset: 40765},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1312, col: 30, offset: 40906},
+														pos: position{line: 1316, col: 30, offset: 41096},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1312, col: 30, offset: 40906},
+															pos: position{line: 1316, col: 30, offset: 41096},
 															expr: &choiceExpr{
-																pos: position{line: 1312, col: 31, offset: 40907},
+																pos: position{line: 1316, col: 31, offset: 41097},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2750, col: 13, offset: 87546},
+																		pos:        position{line: 2754, col: 13, offset: 87736},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2860, col: 10, offset: 90451},
+																		pos: position{line: 2864, col: 10, offset: 90641},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2860, col: 10, offset: 90451},
+																			pos:        position{line: 2864, col: 10, offset: 90641},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -45369,23 +45935,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1306, col: 5, offset: 40614},
+													pos:   position{line: 1310, col: 5, offset: 40804},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1306, col: 11, offset: 40620},
+														pos: position{line: 1310, col: 11, offset: 40810},
 														expr: &actionExpr{
-															pos: position{line: 1306, col: 12, offset: 40621},
+															pos: position{line: 1310, col: 12, offset: 40811},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1306, col: 12, offset: 40621},
+																pos: position{line: 1310, col: 12, offset: 40811},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1306, col: 12, offset: 40621},
+																		pos: position{line: 1310, col: 12, offset: 40811},
 																		expr: &actionExpr{
-																			pos: position{line: 2860, col: 10, offset: 90451},
+																			pos: position{line: 2864, col: 10, offset: 90641},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2860, col: 10, offset: 90451},
+																				pos:        position{line: 2864, col: 10, offset: 90641},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45394,18 +45960,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1306, col: 19, offset: 40628},
+																		pos:        position{line: 1310, col: 19, offset: 40818},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1306, col: 23, offset: 40632},
+																		pos: position{line: 1310, col: 23, offset: 40822},
 																		expr: &actionExpr{
-																			pos: position{line: 2860, col: 10, offset: 90451},
+																			pos: position{line: 2864, col: 10, offset: 90641},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2860, col: 10, offset: 90451},
+																				pos:        position{line: 2864, col: 10, offset: 90641},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45414,28 +45980,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1306, col: 30, offset: 40639},
+																		pos:   position{line: 1310, col: 30, offset: 40829},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1312, col: 30, offset: 40906},
+																			pos: position{line: 1316, col: 30, offset: 41096},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1312, col: 30, offset: 40906},
+																				pos: position{line: 1316, col: 30, offset: 41096},
 																				expr: &choiceExpr{
-																					pos: position{line: 1312, col: 31, offset: 40907},
+																					pos: position{line: 1316, col: 31, offset: 41097},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2750, col: 13, offset: 87546},
+																							pos:        position{line: 2754, col: 13, offset: 87736},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2860, col: 10, offset: 90451},
+																							pos: position{line: 2864, col: 10, offset: 90641},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2860, col: 10, offset: 90451},
+																								pos:        position{line: 2864, col: 10, offset: 90641},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45453,23 +46019,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1307, col: 5, offset: 40706},
+													pos:   position{line: 1311, col: 5, offset: 40896},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1307, col: 11, offset: 40712},
+														pos: position{line: 1311, col: 11, offset: 40902},
 														expr: &actionExpr{
-															pos: position{line: 1307, col: 12, offset: 40713},
+															pos: position{line: 1311, col: 12, offset: 40903},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1307, col: 12, offset: 40713},
+																pos: position{line: 1311, col: 12, offset: 40903},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1307, col: 12, offset: 40713},
+																		pos: position{line: 1311, col: 12, offset: 40903},
 																		expr: &actionExpr{
-																			pos: position{line: 2860, col: 10, offset: 90451},
+																			pos: position{line: 2864, col: 10, offset: 90641},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2860, col: 10, offset: 90451},
+																				pos:        position{line: 2864, col: 10, offset: 90641},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45478,18 +46044,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1307, col: 19, offset: 40720},
+																		pos:        position{line: 1311, col: 19, offset: 40910},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1307, col: 23, offset: 40724},
+																		pos: position{line: 1311, col: 23, offset: 40914},
 																		expr: &actionExpr{
-																			pos: position{line: 2860, col: 10, offset: 90451},
+																			pos: position{line: 2864, col: 10, offset: 90641},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2860, col: 10, offset: 90451},
+																				pos:        position{line: 2864, col: 10, offset: 90641},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45498,28 +46064,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1307, col: 30, offset: 40731},
+																		pos:   position{line: 1311, col: 30, offset: 40921},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1312, col: 30, offset: 40906},
+																			pos: position{line: 1316, col: 30, offset: 41096},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1312, col: 30, offset: 40906},
+																				pos: position{line: 1316, col: 30, offset: 41096},
 																				expr: &choiceExpr{
-																					pos: position{line: 1312, col: 31, offset: 40907},
+																					pos: position{line: 1316, col: 31, offset: 41097},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2750, col: 13, offset: 87546},
+																							pos:        position{line: 2754, col: 13, offset: 87736},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2860, col: 10, offset: 90451},
+																							pos: position{line: 2864, col: 10, offset: 90641},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2860, col: 10, offset: 90451},
+																								pos:        position{line: 2864, col: 10, offset: 90641},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -45537,7 +46103,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1308, col: 5, offset: 40798},
+													pos:        position{line: 1312, col: 5, offset: 40988},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -45546,15 +46112,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2420, col: 11, offset: 78129},
+										pos:  position{line: 2424, col: 11, offset: 78319},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2421, col: 11, offset: 78149},
+										pos:  position{line: 2425, col: 11, offset: 78339},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2422, col: 11, offset: 78172},
+										pos:  position{line: 2426, col: 11, offset: 78362},
 										name: "InlineMenu",
 									},
 								},
@@ -45566,80 +46132,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2426, col: 1, offset: 78229},
+			pos:  position{line: 2430, col: 1, offset: 78419},
 			expr: &actionExpr{
-				pos: position{line: 2428, col: 5, offset: 78317},
+				pos: position{line: 2432, col: 5, offset: 78507},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2428, col: 5, offset: 78317},
+					pos: position{line: 2432, col: 5, offset: 78507},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2428, col: 5, offset: 78317},
+							pos: position{line: 2432, col: 5, offset: 78507},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2431, col: 5, offset: 78394},
+							pos:   position{line: 2435, col: 5, offset: 78584},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2432, col: 9, offset: 78412},
+								pos: position{line: 2436, col: 9, offset: 78602},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1387, col: 26, offset: 44176},
+										pos: position{line: 1391, col: 26, offset: 44366},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1387, col: 26, offset: 44176},
+											pos: position{line: 1391, col: 26, offset: 44366},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1385, col: 32, offset: 44144},
+													pos:        position{line: 1389, col: 32, offset: 44334},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1387, col: 54, offset: 44204},
+													pos:   position{line: 1391, col: 54, offset: 44394},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1391, col: 33, offset: 44417},
+														pos: position{line: 1395, col: 33, offset: 44607},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1391, col: 34, offset: 44418},
+																pos: position{line: 1395, col: 34, offset: 44608},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1391, col: 34, offset: 44418},
+																	pos: position{line: 1395, col: 34, offset: 44608},
 																	expr: &seqExpr{
-																		pos: position{line: 1391, col: 35, offset: 44419},
+																		pos: position{line: 1395, col: 35, offset: 44609},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1391, col: 35, offset: 44419},
+																				pos: position{line: 1395, col: 35, offset: 44609},
 																				expr: &litMatcher{
-																					pos:        position{line: 1385, col: 32, offset: 44144},
+																					pos:        position{line: 1389, col: 32, offset: 44334},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1391, col: 64, offset: 44448,
+																				line: 1395, col: 64, offset: 44638,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1393, col: 11, offset: 44621},
+																pos: position{line: 1397, col: 11, offset: 44811},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1393, col: 11, offset: 44621},
+																	pos: position{line: 1397, col: 11, offset: 44811},
 																	expr: &seqExpr{
-																		pos: position{line: 1393, col: 12, offset: 44622},
+																		pos: position{line: 1397, col: 12, offset: 44812},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1393, col: 12, offset: 44622},
+																				pos: position{line: 1397, col: 12, offset: 44812},
 																				expr: &actionExpr{
-																					pos: position{line: 2860, col: 10, offset: 90451},
+																					pos: position{line: 2864, col: 10, offset: 90641},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2860, col: 10, offset: 90451},
+																						pos:        position{line: 2864, col: 10, offset: 90641},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -45648,27 +46214,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1393, col: 19, offset: 44629},
+																				pos: position{line: 1397, col: 19, offset: 44819},
 																				expr: &actionExpr{
-																					pos: position{line: 2869, col: 12, offset: 90622},
+																					pos: position{line: 2873, col: 12, offset: 90812},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2869, col: 13, offset: 90623},
+																						pos: position{line: 2873, col: 13, offset: 90813},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 13, offset: 90623},
+																								pos:        position{line: 2873, col: 13, offset: 90813},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 20, offset: 90630},
+																								pos:        position{line: 2873, col: 20, offset: 90820},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2869, col: 29, offset: 90639},
+																								pos:        position{line: 2873, col: 29, offset: 90829},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45678,16 +46244,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1393, col: 28, offset: 44638},
+																				pos: position{line: 1397, col: 28, offset: 44828},
 																				expr: &litMatcher{
-																					pos:        position{line: 1385, col: 32, offset: 44144},
+																					pos:        position{line: 1389, col: 32, offset: 44334},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1393, col: 57, offset: 44667,
+																				line: 1397, col: 57, offset: 44857,
 																			},
 																		},
 																	},
@@ -45697,15 +46263,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1385, col: 32, offset: 44144},
+													pos:        position{line: 1389, col: 32, offset: 44334},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1387, col: 121, offset: 44271},
+													pos: position{line: 1391, col: 121, offset: 44461},
 													expr: &charClassMatcher{
-														pos:        position{line: 2750, col: 13, offset: 87546},
+														pos:        position{line: 2754, col: 13, offset: 87736},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -45716,45 +46282,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1375, col: 26, offset: 43459},
+										pos: position{line: 1379, col: 26, offset: 43649},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1375, col: 26, offset: 43459},
+											pos: position{line: 1379, col: 26, offset: 43649},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1373, col: 32, offset: 43429},
+													pos:        position{line: 1377, col: 32, offset: 43619},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1375, col: 54, offset: 43487},
+													pos:   position{line: 1379, col: 54, offset: 43677},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1379, col: 33, offset: 43700},
+														pos: position{line: 1383, col: 33, offset: 43890},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1379, col: 34, offset: 43701},
+																pos: position{line: 1383, col: 34, offset: 43891},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1379, col: 34, offset: 43701},
+																	pos: position{line: 1383, col: 34, offset: 43891},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1379, col: 35, offset: 43702},
+																			pos: position{line: 1383, col: 35, offset: 43892},
 																			expr: &litMatcher{
-																				pos:        position{line: 1373, col: 32, offset: 43429},
+																				pos:        position{line: 1377, col: 32, offset: 43619},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1379, col: 64, offset: 43731},
+																			pos: position{line: 1383, col: 64, offset: 43921},
 																			expr: &actionExpr{
-																				pos: position{line: 2860, col: 10, offset: 90451},
+																				pos: position{line: 2864, col: 10, offset: 90641},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2860, col: 10, offset: 90451},
+																					pos:        position{line: 2864, col: 10, offset: 90641},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -45763,27 +46329,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1379, col: 71, offset: 43738},
+																			pos: position{line: 1383, col: 71, offset: 43928},
 																			expr: &actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90622},
+																				pos: position{line: 2873, col: 12, offset: 90812},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2869, col: 13, offset: 90623},
+																					pos: position{line: 2873, col: 13, offset: 90813},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							pos:        position{line: 2873, col: 13, offset: 90813},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							pos:        position{line: 2873, col: 20, offset: 90820},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							pos:        position{line: 2873, col: 29, offset: 90829},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -45793,25 +46359,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1379, col: 80, offset: 43747,
+																			line: 1383, col: 80, offset: 43937,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1379, col: 83, offset: 43750},
+																			pos: position{line: 1383, col: 83, offset: 43940},
 																			expr: &seqExpr{
-																				pos: position{line: 1379, col: 84, offset: 43751},
+																				pos: position{line: 1383, col: 84, offset: 43941},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1379, col: 84, offset: 43751},
+																						pos: position{line: 1383, col: 84, offset: 43941},
 																						expr: &seqExpr{
-																							pos: position{line: 1379, col: 86, offset: 43753},
+																							pos: position{line: 1383, col: 86, offset: 43943},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2864, col: 11, offset: 90512},
+																									pos: position{line: 2868, col: 11, offset: 90702},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2864, col: 11, offset: 90512},
+																										pos: position{line: 2868, col: 11, offset: 90702},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2864, col: 11, offset: 90512},
+																											pos:        position{line: 2868, col: 11, offset: 90702},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -45820,7 +46386,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1373, col: 32, offset: 43429},
+																									pos:        position{line: 1377, col: 32, offset: 43619},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -45829,36 +46395,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1379, col: 122, offset: 43789},
+																						pos: position{line: 1383, col: 122, offset: 43979},
 																						expr: &litMatcher{
-																							pos:        position{line: 1373, col: 32, offset: 43429},
+																							pos:        position{line: 1377, col: 32, offset: 43619},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1379, col: 151, offset: 43818},
+																						pos: position{line: 1383, col: 151, offset: 44008},
 																						expr: &actionExpr{
-																							pos: position{line: 2869, col: 12, offset: 90622},
+																							pos: position{line: 2873, col: 12, offset: 90812},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2869, col: 13, offset: 90623},
+																								pos: position{line: 2873, col: 13, offset: 90813},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2869, col: 13, offset: 90623},
+																										pos:        position{line: 2873, col: 13, offset: 90813},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2869, col: 20, offset: 90630},
+																										pos:        position{line: 2873, col: 20, offset: 90820},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2869, col: 29, offset: 90639},
+																										pos:        position{line: 2873, col: 29, offset: 90829},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -45868,7 +46434,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1379, col: 160, offset: 43827,
+																						line: 1383, col: 160, offset: 44017,
 																					},
 																				},
 																			},
@@ -45877,18 +46443,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1381, col: 11, offset: 43977},
+																pos: position{line: 1385, col: 11, offset: 44167},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1381, col: 12, offset: 43978},
+																	pos: position{line: 1385, col: 12, offset: 44168},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1381, col: 12, offset: 43978},
+																			pos: position{line: 1385, col: 12, offset: 44168},
 																			expr: &actionExpr{
-																				pos: position{line: 2860, col: 10, offset: 90451},
+																				pos: position{line: 2864, col: 10, offset: 90641},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2860, col: 10, offset: 90451},
+																					pos:        position{line: 2864, col: 10, offset: 90641},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -45897,27 +46463,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1381, col: 19, offset: 43985},
+																			pos: position{line: 1385, col: 19, offset: 44175},
 																			expr: &actionExpr{
-																				pos: position{line: 2869, col: 12, offset: 90622},
+																				pos: position{line: 2873, col: 12, offset: 90812},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2869, col: 13, offset: 90623},
+																					pos: position{line: 2873, col: 13, offset: 90813},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 13, offset: 90623},
+																							pos:        position{line: 2873, col: 13, offset: 90813},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 20, offset: 90630},
+																							pos:        position{line: 2873, col: 20, offset: 90820},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2869, col: 29, offset: 90639},
+																							pos:        position{line: 2873, col: 29, offset: 90829},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -45927,16 +46493,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1381, col: 28, offset: 43994},
+																			pos: position{line: 1385, col: 28, offset: 44184},
 																			expr: &litMatcher{
-																				pos:        position{line: 1373, col: 32, offset: 43429},
+																				pos:        position{line: 1377, col: 32, offset: 43619},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1381, col: 57, offset: 44023,
+																			line: 1385, col: 57, offset: 44213,
 																		},
 																	},
 																},
@@ -45945,15 +46511,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1373, col: 32, offset: 43429},
+													pos:        position{line: 1377, col: 32, offset: 43619},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1375, col: 121, offset: 43554},
+													pos: position{line: 1379, col: 121, offset: 43744},
 													expr: &charClassMatcher{
-														pos:        position{line: 2750, col: 13, offset: 87546},
+														pos:        position{line: 2754, col: 13, offset: 87736},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -45964,7 +46530,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2432, col: 57, offset: 78460},
+										pos:  position{line: 2436, col: 57, offset: 78650},
 										name: "PassthroughMacro",
 									},
 								},
@@ -45976,16 +46542,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2437, col: 1, offset: 78520},
+			pos:  position{line: 2441, col: 1, offset: 78710},
 			expr: &seqExpr{
-				pos: position{line: 2439, col: 5, offset: 78596},
+				pos: position{line: 2443, col: 5, offset: 78786},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2439, col: 5, offset: 78596},
+						pos: position{line: 2443, col: 5, offset: 78786},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2442, col: 5, offset: 78661},
+						pos:  position{line: 2446, col: 5, offset: 78851},
 						name: "QuotedText",
 					},
 				},
@@ -45993,22 +46559,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2444, col: 1, offset: 78674},
+			pos:  position{line: 2448, col: 1, offset: 78864},
 			expr: &actionExpr{
-				pos: position{line: 2446, col: 5, offset: 78756},
+				pos: position{line: 2450, col: 5, offset: 78946},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2446, col: 5, offset: 78756},
+					pos: position{line: 2450, col: 5, offset: 78946},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2446, col: 5, offset: 78756},
+							pos: position{line: 2450, col: 5, offset: 78946},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2449, col: 5, offset: 78827},
+							pos:   position{line: 2453, col: 5, offset: 79017},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2450, col: 9, offset: 78845},
+								pos:  position{line: 2454, col: 9, offset: 79035},
 								name: "Symbol",
 							},
 						},
@@ -46018,103 +46584,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2505, col: 1, offset: 80604},
+			pos:  position{line: 2509, col: 1, offset: 80794},
 			expr: &choiceExpr{
-				pos: position{line: 2507, col: 5, offset: 80634},
+				pos: position{line: 2511, col: 5, offset: 80824},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2507, col: 5, offset: 80634},
+						pos: position{line: 2511, col: 5, offset: 80824},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2507, col: 5, offset: 80634},
+							pos: position{line: 2511, col: 5, offset: 80824},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2507, col: 5, offset: 80634},
+									pos:        position{line: 2511, col: 5, offset: 80824},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2507, col: 10, offset: 80639},
+									pos: position{line: 2511, col: 10, offset: 80829},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2507, col: 10, offset: 80639},
+											pos:  position{line: 2511, col: 10, offset: 80829},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2536, col: 14, offset: 81743},
+											pos: position{line: 2540, col: 14, offset: 81933},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2536, col: 14, offset: 81743},
+												pos:        position{line: 2540, col: 14, offset: 81933},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2540, col: 14, offset: 81809},
+											pos: position{line: 2544, col: 14, offset: 81999},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2540, col: 14, offset: 81809},
+												pos:        position{line: 2544, col: 14, offset: 81999},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2544, col: 15, offset: 81878},
+											pos: position{line: 2548, col: 15, offset: 82068},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2544, col: 15, offset: 81878},
+												pos:        position{line: 2548, col: 15, offset: 82068},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2548, col: 13, offset: 81943},
+											pos: position{line: 2552, col: 13, offset: 82133},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2548, col: 13, offset: 81943},
+												pos:        position{line: 2552, col: 13, offset: 82133},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2576, col: 21, offset: 82513},
+											pos: position{line: 2580, col: 21, offset: 82703},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2576, col: 21, offset: 82513},
+												pos:        position{line: 2580, col: 21, offset: 82703},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2555, col: 5, offset: 82099},
+											pos: position{line: 2559, col: 5, offset: 82289},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2555, col: 5, offset: 82099},
+												pos: position{line: 2559, col: 5, offset: 82289},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2555, col: 5, offset: 82099},
+														pos:        position{line: 2559, col: 5, offset: 82289},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2556, col: 5, offset: 82109},
+														pos: position{line: 2560, col: 5, offset: 82299},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2560, col: 6, offset: 82196},
+														pos: position{line: 2564, col: 6, offset: 82386},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2860, col: 10, offset: 90451},
+																pos: position{line: 2864, col: 10, offset: 90641},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2860, col: 10, offset: 90451},
+																	pos:        position{line: 2864, col: 10, offset: 90641},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46122,30 +46688,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2560, col: 14, offset: 82204},
+																pos: position{line: 2564, col: 14, offset: 82394},
 																expr: &choiceExpr{
-																	pos: position{line: 2882, col: 8, offset: 90849},
+																	pos: position{line: 2886, col: 8, offset: 91039},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 12, offset: 90622},
+																			pos: position{line: 2873, col: 12, offset: 90812},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2869, col: 13, offset: 90623},
+																				pos: position{line: 2873, col: 13, offset: 90813},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 13, offset: 90623},
+																						pos:        position{line: 2873, col: 13, offset: 90813},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 20, offset: 90630},
+																						pos:        position{line: 2873, col: 20, offset: 90820},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2869, col: 29, offset: 90639},
+																						pos:        position{line: 2873, col: 29, offset: 90829},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -46154,9 +46720,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2879, col: 8, offset: 90799},
+																			pos: position{line: 2883, col: 8, offset: 90989},
 																			expr: &anyMatcher{
-																				line: 2879, col: 9, offset: 90800,
+																				line: 2883, col: 9, offset: 90990,
 																			},
 																		},
 																	},
@@ -46168,53 +46734,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2565, col: 5, offset: 82324},
+											pos: position{line: 2569, col: 5, offset: 82514},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2565, col: 5, offset: 82324},
+												pos: position{line: 2569, col: 5, offset: 82514},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2565, col: 5, offset: 82324},
+														pos:        position{line: 2569, col: 5, offset: 82514},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2566, col: 5, offset: 82334},
+														pos: position{line: 2570, col: 5, offset: 82524},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2570, col: 5, offset: 82423},
+														pos: position{line: 2574, col: 5, offset: 82613},
 														expr: &choiceExpr{
-															pos: position{line: 2570, col: 7, offset: 82425},
+															pos: position{line: 2574, col: 7, offset: 82615},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2750, col: 13, offset: 87546},
+																	pos:        position{line: 2754, col: 13, offset: 87736},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2869, col: 12, offset: 90622},
+																	pos: position{line: 2873, col: 12, offset: 90812},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2869, col: 13, offset: 90623},
+																		pos: position{line: 2873, col: 13, offset: 90813},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2869, col: 13, offset: 90623},
+																				pos:        position{line: 2873, col: 13, offset: 90813},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2869, col: 20, offset: 90630},
+																				pos:        position{line: 2873, col: 20, offset: 90820},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2869, col: 29, offset: 90639},
+																				pos:        position{line: 2873, col: 29, offset: 90829},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -46223,9 +46789,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2879, col: 8, offset: 90799},
+																	pos: position{line: 2883, col: 8, offset: 90989},
 																	expr: &anyMatcher{
-																		line: 2879, col: 9, offset: 90800,
+																		line: 2883, col: 9, offset: 90990,
 																	},
 																},
 															},
@@ -46235,30 +46801,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2580, col: 20, offset: 82583},
+											pos: position{line: 2584, col: 20, offset: 82773},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2580, col: 20, offset: 82583},
+												pos:        position{line: 2584, col: 20, offset: 82773},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2584, col: 21, offset: 82654},
+											pos: position{line: 2588, col: 21, offset: 82844},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2584, col: 21, offset: 82654},
+												pos:        position{line: 2588, col: 21, offset: 82844},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2588, col: 20, offset: 82724},
+											pos: position{line: 2592, col: 20, offset: 82914},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2588, col: 20, offset: 82724},
+												pos:        position{line: 2592, col: 20, offset: 82914},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -46270,73 +46836,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2511, col: 7, offset: 80894},
+						pos:  position{line: 2515, col: 7, offset: 81084},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2536, col: 14, offset: 81743},
+						pos: position{line: 2540, col: 14, offset: 81933},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2536, col: 14, offset: 81743},
+							pos:        position{line: 2540, col: 14, offset: 81933},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2540, col: 14, offset: 81809},
+						pos: position{line: 2544, col: 14, offset: 81999},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2540, col: 14, offset: 81809},
+							pos:        position{line: 2544, col: 14, offset: 81999},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2544, col: 15, offset: 81878},
+						pos: position{line: 2548, col: 15, offset: 82068},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2544, col: 15, offset: 81878},
+							pos:        position{line: 2548, col: 15, offset: 82068},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2548, col: 13, offset: 81943},
+						pos: position{line: 2552, col: 13, offset: 82133},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2548, col: 13, offset: 81943},
+							pos:        position{line: 2552, col: 13, offset: 82133},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2555, col: 5, offset: 82099},
+						pos: position{line: 2559, col: 5, offset: 82289},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2555, col: 5, offset: 82099},
+							pos: position{line: 2559, col: 5, offset: 82289},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2555, col: 5, offset: 82099},
+									pos:        position{line: 2559, col: 5, offset: 82289},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2556, col: 5, offset: 82109},
+									pos: position{line: 2560, col: 5, offset: 82299},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2560, col: 6, offset: 82196},
+									pos: position{line: 2564, col: 6, offset: 82386},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2860, col: 10, offset: 90451},
+											pos: position{line: 2864, col: 10, offset: 90641},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2860, col: 10, offset: 90451},
+												pos:        position{line: 2864, col: 10, offset: 90641},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46344,30 +46910,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2560, col: 14, offset: 82204},
+											pos: position{line: 2564, col: 14, offset: 82394},
 											expr: &choiceExpr{
-												pos: position{line: 2882, col: 8, offset: 90849},
+												pos: position{line: 2886, col: 8, offset: 91039},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2869, col: 12, offset: 90622},
+														pos: position{line: 2873, col: 12, offset: 90812},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2869, col: 13, offset: 90623},
+															pos: position{line: 2873, col: 13, offset: 90813},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2869, col: 13, offset: 90623},
+																	pos:        position{line: 2873, col: 13, offset: 90813},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2869, col: 20, offset: 90630},
+																	pos:        position{line: 2873, col: 20, offset: 90820},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2869, col: 29, offset: 90639},
+																	pos:        position{line: 2873, col: 29, offset: 90829},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -46376,9 +46942,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2879, col: 8, offset: 90799},
+														pos: position{line: 2883, col: 8, offset: 90989},
 														expr: &anyMatcher{
-															line: 2879, col: 9, offset: 90800,
+															line: 2883, col: 9, offset: 90990,
 														},
 													},
 												},
@@ -46390,53 +46956,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2565, col: 5, offset: 82324},
+						pos: position{line: 2569, col: 5, offset: 82514},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2565, col: 5, offset: 82324},
+							pos: position{line: 2569, col: 5, offset: 82514},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2565, col: 5, offset: 82324},
+									pos:        position{line: 2569, col: 5, offset: 82514},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2566, col: 5, offset: 82334},
+									pos: position{line: 2570, col: 5, offset: 82524},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2570, col: 5, offset: 82423},
+									pos: position{line: 2574, col: 5, offset: 82613},
 									expr: &choiceExpr{
-										pos: position{line: 2570, col: 7, offset: 82425},
+										pos: position{line: 2574, col: 7, offset: 82615},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2750, col: 13, offset: 87546},
+												pos:        position{line: 2754, col: 13, offset: 87736},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2869, col: 12, offset: 90622},
+												pos: position{line: 2873, col: 12, offset: 90812},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2869, col: 13, offset: 90623},
+													pos: position{line: 2873, col: 13, offset: 90813},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2869, col: 13, offset: 90623},
+															pos:        position{line: 2873, col: 13, offset: 90813},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2869, col: 20, offset: 90630},
+															pos:        position{line: 2873, col: 20, offset: 90820},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2869, col: 29, offset: 90639},
+															pos:        position{line: 2873, col: 29, offset: 90829},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -46445,9 +47011,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2879, col: 8, offset: 90799},
+												pos: position{line: 2883, col: 8, offset: 90989},
 												expr: &anyMatcher{
-													line: 2879, col: 9, offset: 90800,
+													line: 2883, col: 9, offset: 90990,
 												},
 											},
 										},
@@ -46457,40 +47023,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2576, col: 21, offset: 82513},
+						pos: position{line: 2580, col: 21, offset: 82703},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2576, col: 21, offset: 82513},
+							pos:        position{line: 2580, col: 21, offset: 82703},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2580, col: 20, offset: 82583},
+						pos: position{line: 2584, col: 20, offset: 82773},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2580, col: 20, offset: 82583},
+							pos:        position{line: 2584, col: 20, offset: 82773},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2584, col: 21, offset: 82654},
+						pos: position{line: 2588, col: 21, offset: 82844},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2584, col: 21, offset: 82654},
+							pos:        position{line: 2588, col: 21, offset: 82844},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2588, col: 20, offset: 82724},
+						pos: position{line: 2592, col: 20, offset: 82914},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2588, col: 20, offset: 82724},
+							pos:        position{line: 2592, col: 20, offset: 82914},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -46501,43 +47067,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2522, col: 1, offset: 81084},
+			pos:  position{line: 2526, col: 1, offset: 81274},
 			expr: &choiceExpr{
-				pos: position{line: 2523, col: 5, offset: 81106},
+				pos: position{line: 2527, col: 5, offset: 81296},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2523, col: 5, offset: 81106},
+						pos: position{line: 2527, col: 5, offset: 81296},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2523, col: 5, offset: 81106},
+							pos: position{line: 2527, col: 5, offset: 81296},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2523, col: 5, offset: 81106},
+									pos:        position{line: 2527, col: 5, offset: 81296},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2523, col: 11, offset: 81112},
+									pos: position{line: 2527, col: 11, offset: 81302},
 									expr: &seqExpr{
-										pos: position{line: 2086, col: 5, offset: 67316},
+										pos: position{line: 2090, col: 5, offset: 67506},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2086, col: 5, offset: 67316},
+												pos:        position{line: 2090, col: 5, offset: 67506},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2087, col: 5, offset: 67325},
+												pos: position{line: 2091, col: 5, offset: 67515},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2091, col: 5, offset: 67448},
+												pos: position{line: 2095, col: 5, offset: 67638},
 												expr: &notExpr{
-													pos: position{line: 2091, col: 7, offset: 67450},
+													pos: position{line: 2095, col: 7, offset: 67640},
 													expr: &litMatcher{
-														pos:        position{line: 2091, col: 8, offset: 67451},
+														pos:        position{line: 2095, col: 8, offset: 67641},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -46551,21 +47117,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2526, col: 7, offset: 81265},
+						pos: position{line: 2530, col: 7, offset: 81455},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2526, col: 7, offset: 81265},
+							pos: position{line: 2530, col: 7, offset: 81455},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2526, col: 7, offset: 81265},
+									pos:        position{line: 2530, col: 7, offset: 81455},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2526, col: 13, offset: 81271},
+									pos: position{line: 2530, col: 13, offset: 81461},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2526, col: 14, offset: 81272},
+										pos:  position{line: 2530, col: 14, offset: 81462},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46573,38 +47139,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2529, col: 7, offset: 81422},
+						pos: position{line: 2533, col: 7, offset: 81612},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2529, col: 7, offset: 81422},
+							pos: position{line: 2533, col: 7, offset: 81612},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2529, col: 7, offset: 81422},
+									pos:        position{line: 2533, col: 7, offset: 81612},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2529, col: 12, offset: 81427},
+									pos: position{line: 2533, col: 12, offset: 81617},
 									expr: &seqExpr{
-										pos: position{line: 2086, col: 5, offset: 67316},
+										pos: position{line: 2090, col: 5, offset: 67506},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2086, col: 5, offset: 67316},
+												pos:        position{line: 2090, col: 5, offset: 67506},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2087, col: 5, offset: 67325},
+												pos: position{line: 2091, col: 5, offset: 67515},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2091, col: 5, offset: 67448},
+												pos: position{line: 2095, col: 5, offset: 67638},
 												expr: &notExpr{
-													pos: position{line: 2091, col: 7, offset: 67450},
+													pos: position{line: 2095, col: 7, offset: 67640},
 													expr: &litMatcher{
-														pos:        position{line: 2091, col: 8, offset: 67451},
+														pos:        position{line: 2095, col: 8, offset: 67641},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -46618,21 +47184,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2532, col: 7, offset: 81580},
+						pos: position{line: 2536, col: 7, offset: 81770},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2532, col: 7, offset: 81580},
+							pos: position{line: 2536, col: 7, offset: 81770},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2532, col: 7, offset: 81580},
+									pos:        position{line: 2536, col: 7, offset: 81770},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2532, col: 12, offset: 81585},
+									pos: position{line: 2536, col: 12, offset: 81775},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2532, col: 13, offset: 81586},
+										pos:  position{line: 2536, col: 13, offset: 81776},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -46644,63 +47210,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2665, col: 1, offset: 84626},
+			pos:  position{line: 2669, col: 1, offset: 84816},
 			expr: &actionExpr{
-				pos: position{line: 2665, col: 26, offset: 84651},
+				pos: position{line: 2669, col: 26, offset: 84841},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2665, col: 26, offset: 84651},
+					pos: position{line: 2669, col: 26, offset: 84841},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2665, col: 26, offset: 84651},
+							pos:   position{line: 2669, col: 26, offset: 84841},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2665, col: 31, offset: 84656},
+								pos: position{line: 2669, col: 31, offset: 84846},
 								expr: &actionExpr{
-									pos: position{line: 2670, col: 5, offset: 84719},
+									pos: position{line: 2674, col: 5, offset: 84909},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2670, col: 5, offset: 84719},
+										pos: position{line: 2674, col: 5, offset: 84909},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2877, col: 11, offset: 90785},
+												pos: position{line: 2881, col: 11, offset: 90975},
 												expr: &anyMatcher{
-													line: 2877, col: 13, offset: 90787,
+													line: 2881, col: 13, offset: 90977,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2673, col: 5, offset: 84845},
+												pos:   position{line: 2677, col: 5, offset: 85035},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2673, col: 16, offset: 84856},
+													pos: position{line: 2677, col: 16, offset: 85046},
 													expr: &actionExpr{
-														pos: position{line: 2673, col: 17, offset: 84857},
+														pos: position{line: 2677, col: 17, offset: 85047},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2673, col: 17, offset: 84857},
+															pos: position{line: 2677, col: 17, offset: 85047},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2673, col: 17, offset: 84857},
+																	pos:   position{line: 2677, col: 17, offset: 85047},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2852, col: 12, offset: 90278},
+																		pos: position{line: 2856, col: 12, offset: 90468},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2852, col: 13, offset: 90279},
+																			pos: position{line: 2856, col: 13, offset: 90469},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2852, col: 13, offset: 90279},
+																					pos: position{line: 2856, col: 13, offset: 90469},
 																					expr: &litMatcher{
-																						pos:        position{line: 2852, col: 13, offset: 90279},
+																						pos:        position{line: 2856, col: 13, offset: 90469},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2852, col: 18, offset: 90284},
+																					pos: position{line: 2856, col: 18, offset: 90474},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2852, col: 18, offset: 90284},
+																						pos:        position{line: 2856, col: 18, offset: 90474},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -46712,7 +47278,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2673, col: 27, offset: 84867},
+																	pos:        position{line: 2677, col: 27, offset: 85057},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -46723,38 +47289,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2674, col: 5, offset: 84895},
+												pos:   position{line: 2678, col: 5, offset: 85085},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2674, col: 12, offset: 84902},
+													pos: position{line: 2678, col: 12, offset: 85092},
 													expr: &choiceExpr{
-														pos: position{line: 2675, col: 9, offset: 84912},
+														pos: position{line: 2679, col: 9, offset: 85102},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2675, col: 9, offset: 84912},
+																pos: position{line: 2679, col: 9, offset: 85102},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2675, col: 9, offset: 84912},
+																	pos:        position{line: 2679, col: 9, offset: 85102},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2676, col: 11, offset: 84959},
+																pos: position{line: 2680, col: 11, offset: 85149},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2676, col: 11, offset: 84959},
+																	pos:        position{line: 2680, col: 11, offset: 85149},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2677, col: 11, offset: 85007},
+																pos: position{line: 2681, col: 11, offset: 85197},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2677, col: 11, offset: 85007},
+																	pos:        position{line: 2681, col: 11, offset: 85197},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -46765,38 +47331,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2679, col: 5, offset: 85057},
+												pos:   position{line: 2683, col: 5, offset: 85247},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2679, col: 12, offset: 85064},
+													pos: position{line: 2683, col: 12, offset: 85254},
 													expr: &choiceExpr{
-														pos: position{line: 2680, col: 9, offset: 85074},
+														pos: position{line: 2684, col: 9, offset: 85264},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2680, col: 9, offset: 85074},
+																pos: position{line: 2684, col: 9, offset: 85264},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2680, col: 9, offset: 85074},
+																	pos:        position{line: 2684, col: 9, offset: 85264},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2681, col: 11, offset: 85121},
+																pos: position{line: 2685, col: 11, offset: 85311},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2681, col: 11, offset: 85121},
+																	pos:        position{line: 2685, col: 11, offset: 85311},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2682, col: 11, offset: 85171},
+																pos: position{line: 2686, col: 11, offset: 85361},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2682, col: 11, offset: 85171},
+																	pos:        position{line: 2686, col: 11, offset: 85361},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -46807,32 +47373,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2684, col: 5, offset: 85222},
+												pos:   position{line: 2688, col: 5, offset: 85412},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2684, col: 12, offset: 85229},
+													pos: position{line: 2688, col: 12, offset: 85419},
 													expr: &choiceExpr{
-														pos: position{line: 2684, col: 13, offset: 85230},
+														pos: position{line: 2688, col: 13, offset: 85420},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2852, col: 12, offset: 90278},
+																pos: position{line: 2856, col: 12, offset: 90468},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2852, col: 13, offset: 90279},
+																	pos: position{line: 2856, col: 13, offset: 90469},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2852, col: 13, offset: 90279},
+																			pos: position{line: 2856, col: 13, offset: 90469},
 																			expr: &litMatcher{
-																				pos:        position{line: 2852, col: 13, offset: 90279},
+																				pos:        position{line: 2856, col: 13, offset: 90469},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2852, col: 18, offset: 90284},
+																			pos: position{line: 2856, col: 18, offset: 90474},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2852, col: 18, offset: 90284},
+																				pos:        position{line: 2856, col: 18, offset: 90474},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -46843,10 +47409,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2684, col: 24, offset: 85241},
+																pos: position{line: 2688, col: 24, offset: 85431},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2684, col: 24, offset: 85241},
+																	pos:        position{line: 2688, col: 24, offset: 85431},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -46857,15 +47423,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2685, col: 5, offset: 85283},
+												pos:   position{line: 2689, col: 5, offset: 85473},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2685, col: 11, offset: 85289},
+													pos: position{line: 2689, col: 11, offset: 85479},
 													expr: &actionExpr{
-														pos: position{line: 2685, col: 12, offset: 85290},
+														pos: position{line: 2689, col: 12, offset: 85480},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2685, col: 12, offset: 85290},
+															pos:        position{line: 2689, col: 12, offset: 85480},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -46875,12 +47441,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2687, col: 5, offset: 85420},
+												pos:   position{line: 2691, col: 5, offset: 85610},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2687, col: 11, offset: 85426},
+													pos: position{line: 2691, col: 11, offset: 85616},
 													expr: &litMatcher{
-														pos:        position{line: 2687, col: 12, offset: 85427},
+														pos:        position{line: 2691, col: 12, offset: 85617},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -46888,7 +47454,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2688, col: 5, offset: 85437},
+												pos: position{line: 2692, col: 5, offset: 85627},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -46897,9 +47463,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2879, col: 8, offset: 90799},
+							pos: position{line: 2883, col: 8, offset: 90989},
 							expr: &anyMatcher{
-								line: 2879, col: 9, offset: 90800,
+								line: 2883, col: 9, offset: 90990,
 							},
 						},
 					},
@@ -46908,23 +47474,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2715, col: 1, offset: 86446},
+			pos:  position{line: 2719, col: 1, offset: 86636},
 			expr: &actionExpr{
-				pos: position{line: 2716, col: 5, offset: 86469},
+				pos: position{line: 2720, col: 5, offset: 86659},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2716, col: 5, offset: 86469},
+					pos: position{line: 2720, col: 5, offset: 86659},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2716, col: 5, offset: 86469},
+							pos:   position{line: 2720, col: 5, offset: 86659},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2739, col: 18, offset: 87210},
+								pos: position{line: 2743, col: 18, offset: 87400},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2739, col: 19, offset: 87211},
+									pos: position{line: 2743, col: 19, offset: 87401},
 									expr: &charClassMatcher{
-										pos:        position{line: 2739, col: 19, offset: 87211},
+										pos:        position{line: 2743, col: 19, offset: 87401},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -46935,25 +47501,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2717, col: 5, offset: 86495},
+							pos: position{line: 2721, col: 5, offset: 86685},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2721, col: 5, offset: 86623},
+							pos:        position{line: 2725, col: 5, offset: 86813},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2722, col: 5, offset: 86633},
+							pos:   position{line: 2726, col: 5, offset: 86823},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2743, col: 19, offset: 87286},
+								pos: position{line: 2747, col: 19, offset: 87476},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2743, col: 19, offset: 87286},
+									pos: position{line: 2747, col: 19, offset: 87476},
 									expr: &charClassMatcher{
-										pos:        position{line: 2743, col: 19, offset: 87286},
+										pos:        position{line: 2747, col: 19, offset: 87476},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -46963,36 +47529,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2723, col: 5, offset: 86661},
+							pos:   position{line: 2727, col: 5, offset: 86851},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2723, col: 17, offset: 86673},
+								pos:  position{line: 2727, col: 17, offset: 86863},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2882, col: 8, offset: 90849},
+							pos: position{line: 2886, col: 8, offset: 91039},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2869, col: 12, offset: 90622},
+									pos: position{line: 2873, col: 12, offset: 90812},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2869, col: 13, offset: 90623},
+										pos: position{line: 2873, col: 13, offset: 90813},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2869, col: 13, offset: 90623},
+												pos:        position{line: 2873, col: 13, offset: 90813},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2869, col: 20, offset: 90630},
+												pos:        position{line: 2873, col: 20, offset: 90820},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2869, col: 29, offset: 90639},
+												pos:        position{line: 2873, col: 29, offset: 90829},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -47001,9 +47567,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2879, col: 8, offset: 90799},
+									pos: position{line: 2883, col: 8, offset: 90989},
 									expr: &anyMatcher{
-										line: 2879, col: 9, offset: 90800,
+										line: 2883, col: 9, offset: 90990,
 									},
 								},
 							},
@@ -47014,23 +47580,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2727, col: 1, offset: 86821},
+			pos:  position{line: 2731, col: 1, offset: 87011},
 			expr: &actionExpr{
-				pos: position{line: 2728, col: 5, offset: 86845},
+				pos: position{line: 2732, col: 5, offset: 87035},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2728, col: 5, offset: 86845},
+					pos: position{line: 2732, col: 5, offset: 87035},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2728, col: 5, offset: 86845},
+							pos:   position{line: 2732, col: 5, offset: 87035},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2739, col: 18, offset: 87210},
+								pos: position{line: 2743, col: 18, offset: 87400},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2739, col: 19, offset: 87211},
+									pos: position{line: 2743, col: 19, offset: 87401},
 									expr: &charClassMatcher{
-										pos:        position{line: 2739, col: 19, offset: 87211},
+										pos:        position{line: 2743, col: 19, offset: 87401},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47041,25 +47607,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2729, col: 5, offset: 86871},
+							pos: position{line: 2733, col: 5, offset: 87061},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2733, col: 5, offset: 86999},
+							pos:        position{line: 2737, col: 5, offset: 87189},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2734, col: 5, offset: 87008},
+							pos:   position{line: 2738, col: 5, offset: 87198},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2743, col: 19, offset: 87286},
+								pos: position{line: 2747, col: 19, offset: 87476},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2743, col: 19, offset: 87286},
+									pos: position{line: 2747, col: 19, offset: 87476},
 									expr: &charClassMatcher{
-										pos:        position{line: 2743, col: 19, offset: 87286},
+										pos:        position{line: 2747, col: 19, offset: 87476},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47069,10 +47635,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2735, col: 5, offset: 87036},
+							pos:   position{line: 2739, col: 5, offset: 87226},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2735, col: 17, offset: 87048},
+								pos:  position{line: 2739, col: 17, offset: 87238},
 								name: "InlineAttributes",
 							},
 						},
@@ -47082,43 +47648,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2814, col: 1, offset: 89098},
+			pos:  position{line: 2818, col: 1, offset: 89288},
 			expr: &actionExpr{
-				pos: position{line: 2814, col: 17, offset: 89114},
+				pos: position{line: 2818, col: 17, offset: 89304},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2814, col: 17, offset: 89114},
+					pos:   position{line: 2818, col: 17, offset: 89304},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2831, col: 5, offset: 89568},
+						pos: position{line: 2835, col: 5, offset: 89758},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2831, col: 5, offset: 89568},
+							pos:   position{line: 2835, col: 5, offset: 89758},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2831, col: 14, offset: 89577},
+								pos: position{line: 2835, col: 14, offset: 89767},
 								expr: &choiceExpr{
-									pos: position{line: 2832, col: 9, offset: 89587},
+									pos: position{line: 2836, col: 9, offset: 89777},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2832, col: 9, offset: 89587},
+											pos: position{line: 2836, col: 9, offset: 89777},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2832, col: 9, offset: 89587},
+												pos: position{line: 2836, col: 9, offset: 89777},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2832, col: 9, offset: 89587},
+														pos: position{line: 2836, col: 9, offset: 89777},
 														expr: &litMatcher{
-															pos:        position{line: 2832, col: 10, offset: 89588},
+															pos:        position{line: 2836, col: 10, offset: 89778},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2833, col: 9, offset: 89616},
+														pos: position{line: 2837, col: 9, offset: 89806},
 														expr: &charClassMatcher{
-															pos:        position{line: 2833, col: 10, offset: 89617},
+															pos:        position{line: 2837, col: 10, offset: 89807},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -47129,27 +47695,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2836, col: 11, offset: 89829},
+											pos: position{line: 2840, col: 11, offset: 90019},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2836, col: 11, offset: 89829},
+													pos:        position{line: 2840, col: 11, offset: 90019},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2836, col: 19, offset: 89837},
+													pos: position{line: 2840, col: 19, offset: 90027},
 													expr: &seqExpr{
-														pos: position{line: 2836, col: 21, offset: 89839},
+														pos: position{line: 2840, col: 21, offset: 90029},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2836, col: 21, offset: 89839},
+																pos: position{line: 2840, col: 21, offset: 90029},
 																expr: &actionExpr{
-																	pos: position{line: 2860, col: 10, offset: 90451},
+																	pos: position{line: 2864, col: 10, offset: 90641},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2860, col: 10, offset: 90451},
+																		pos:        position{line: 2864, col: 10, offset: 90641},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -47158,11 +47724,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2836, col: 28, offset: 89846},
+																pos: position{line: 2840, col: 28, offset: 90036},
 																expr: &notExpr{
-																	pos: position{line: 2879, col: 8, offset: 90799},
+																	pos: position{line: 2883, col: 8, offset: 90989},
 																	expr: &anyMatcher{
-																		line: 2879, col: 9, offset: 90800,
+																		line: 2883, col: 9, offset: 90990,
 																	},
 																},
 															},
@@ -47518,27 +48084,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1206, col: 23, offset: 37184},
+											pos: position{line: 1210, col: 23, offset: 37374},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1206, col: 23, offset: 37184},
+												pos: position{line: 1210, col: 23, offset: 37374},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1204, col: 32, offset: 37152},
+														pos:        position{line: 1208, col: 32, offset: 37342},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1206, col: 51, offset: 37212},
+														pos:   position{line: 1210, col: 51, offset: 37402},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1206, col: 56, offset: 37217},
+															pos: position{line: 1210, col: 56, offset: 37407},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1206, col: 56, offset: 37217},
+																pos: position{line: 1210, col: 56, offset: 37407},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1206, col: 56, offset: 37217},
+																	pos:        position{line: 1210, col: 56, offset: 37407},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -47548,7 +48114,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1204, col: 32, offset: 37152},
+														pos:        position{line: 1208, col: 32, offset: 37342},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -47557,10 +48123,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2839, col: 11, offset: 89966},
+											pos: position{line: 2843, col: 11, offset: 90156},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2839, col: 11, offset: 89966},
+												pos:        position{line: 2843, col: 11, offset: 90156},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -51205,302 +51771,287 @@ func (p *parser) callonDocumentFragment533() (interface{}, error) {
 	return p.cur.onDocumentFragment533(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment641() (interface{}, error) {
+func (c *current) onDocumentFragment644() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment641() (interface{}, error) {
+func (p *parser) callonDocumentFragment644() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment641()
+	return p.cur.onDocumentFragment644()
 }
 
-func (c *current) onDocumentFragment644() (interface{}, error) {
+func (c *current) onDocumentFragment648() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment644() (interface{}, error) {
+func (p *parser) callonDocumentFragment648() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment644()
+	return p.cur.onDocumentFragment648()
+}
+
+func (c *current) onDocumentFragment638(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
+
+}
+
+func (p *parser) callonDocumentFragment638() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment638(stack["content"])
+}
+
+func (c *current) onDocumentFragment634(comment interface{}) (interface{}, error) {
+	return comment, nil
+
 }
 
-func (c *current) onDocumentFragment636() (interface{}, error) {
+func (p *parser) callonDocumentFragment634() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment634(stack["comment"])
+}
+
+func (c *current) onDocumentFragment663() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment663() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment663()
+}
+
+func (c *current) onDocumentFragment666() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment666() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment666()
+}
+
+func (c *current) onDocumentFragment658() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment636() (interface{}, error) {
+func (p *parser) callonDocumentFragment658() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment658()
+}
+
+func (c *current) onDocumentFragment675() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment675() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment675()
+}
+
+func (c *current) onDocumentFragment679() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment679() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment679()
+}
+
+func (c *current) onDocumentFragment655(content interface{}) (interface{}, error) {
+	return types.NewRawLine(content.(string))
+
+}
+
+func (p *parser) callonDocumentFragment655() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment636()
+	return p.cur.onDocumentFragment655(stack["content"])
 }
 
-func (c *current) onDocumentFragment653() (interface{}, error) {
+func (c *current) onDocumentFragment695() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment653() (interface{}, error) {
+func (p *parser) callonDocumentFragment695() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment653()
+	return p.cur.onDocumentFragment695()
 }
 
-func (c *current) onDocumentFragment657() (interface{}, error) {
+func (c *current) onDocumentFragment699() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment657() (interface{}, error) {
+func (p *parser) callonDocumentFragment699() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment657()
+	return p.cur.onDocumentFragment699()
 }
 
-func (c *current) onDocumentFragment633(content interface{}) (interface{}, error) {
-	return types.NewRawLine(content.(string))
+func (c *current) onDocumentFragment689(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment633() (interface{}, error) {
+func (p *parser) callonDocumentFragment689() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment633(stack["content"])
+	return p.cur.onDocumentFragment689(stack["content"])
 }
 
-func (c *current) onDocumentFragment675() (interface{}, error) {
+func (c *current) onDocumentFragment716() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment675() (interface{}, error) {
+func (p *parser) callonDocumentFragment716() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment675()
+	return p.cur.onDocumentFragment716()
 }
 
-func (c *current) onDocumentFragment678() (interface{}, error) {
+func (c *current) onDocumentFragment720() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment678() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment678()
-}
-
-func (c *current) onDocumentFragment670() (interface{}, error) {
-	return types.NewBlankLine()
-
-}
-
-func (p *parser) callonDocumentFragment670() (interface{}, error) {
+func (p *parser) callonDocumentFragment720() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment670()
+	return p.cur.onDocumentFragment720()
 }
 
-func (c *current) onDocumentFragment687() (interface{}, error) {
-
-	return string(c.text), nil
-
-}
+func (c *current) onDocumentFragment710(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
 
-func (p *parser) callonDocumentFragment687() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment687()
 }
 
-func (c *current) onDocumentFragment691() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
-}
-
-func (p *parser) callonDocumentFragment691() (interface{}, error) {
+func (p *parser) callonDocumentFragment710() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment691()
+	return p.cur.onDocumentFragment710(stack["content"])
 }
 
-func (c *current) onDocumentFragment667(content interface{}) (interface{}, error) {
-	return types.NewRawLine(content.(string))
+func (c *current) onDocumentFragment706(comment interface{}) (interface{}, error) {
+	return comment, nil
 
 }
 
-func (p *parser) callonDocumentFragment667() (interface{}, error) {
+func (p *parser) callonDocumentFragment706() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment667(stack["content"])
+	return p.cur.onDocumentFragment706(stack["comment"])
 }
 
-func (c *current) onDocumentFragment701() (interface{}, error) {
+func (c *current) onDocumentFragment735() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment701() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment701()
-}
-
-func (c *current) onDocumentFragment704(content interface{}) (bool, error) {
-	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
-
-}
-
-func (p *parser) callonDocumentFragment704() (bool, error) {
+func (p *parser) callonDocumentFragment735() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment704(stack["content"])
+	return p.cur.onDocumentFragment735()
 }
 
-func (c *current) onDocumentFragment706() (interface{}, error) {
+func (c *current) onDocumentFragment738() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment706() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment706()
-}
-
-func (c *current) onDocumentFragment698(content interface{}) (interface{}, error) {
-	return types.NewRawLine(content.(string))
-
-}
-
-func (p *parser) callonDocumentFragment698() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment698(stack["content"])
-}
-
-func (c *current) onDocumentFragment630(firstLine, otherLines interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.MarkdownQuote, append([]interface{}{firstLine}, otherLines.([]interface{})...))
-
-}
-
-func (p *parser) callonDocumentFragment630() (interface{}, error) {
+func (p *parser) callonDocumentFragment738() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment630(stack["firstLine"], stack["otherLines"])
+	return p.cur.onDocumentFragment738()
 }
 
-func (c *current) onDocumentFragment719() (interface{}, error) {
-	// sequence of exactly "--"
-	return string(c.text), nil
+func (c *current) onDocumentFragment730() (interface{}, error) {
+	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment719() (interface{}, error) {
+func (p *parser) callonDocumentFragment730() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment719()
+	return p.cur.onDocumentFragment730()
 }
 
-func (c *current) onDocumentFragment722() (interface{}, error) {
+func (c *current) onDocumentFragment747() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment722() (interface{}, error) {
+func (p *parser) callonDocumentFragment747() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment722()
+	return p.cur.onDocumentFragment747()
 }
 
-func (c *current) onDocumentFragment725() (interface{}, error) {
+func (c *current) onDocumentFragment751() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment725() (interface{}, error) {
+func (p *parser) callonDocumentFragment751() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment725()
-}
-
-func (c *current) onDocumentFragment716(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
-
+	return p.cur.onDocumentFragment751()
 }
 
-func (p *parser) callonDocumentFragment716() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment716(stack["delimiter"])
-}
-
-func (c *current) onDocumentFragment741() (interface{}, error) {
-	// sequence of exactly "--"
-	return string(c.text), nil
+func (c *current) onDocumentFragment727(content interface{}) (interface{}, error) {
+	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment741() (interface{}, error) {
+func (p *parser) callonDocumentFragment727() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment741()
+	return p.cur.onDocumentFragment727(stack["content"])
 }
 
-func (c *current) onDocumentFragment744() (interface{}, error) {
+func (c *current) onDocumentFragment761() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment744() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment744()
-}
-
-func (c *current) onDocumentFragment747() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
-}
-
-func (p *parser) callonDocumentFragment747() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment747()
-}
-
-func (c *current) onDocumentFragment738(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
-
-}
-
-func (p *parser) callonDocumentFragment738() (interface{}, error) {
+func (p *parser) callonDocumentFragment761() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment738(stack["delimiter"])
+	return p.cur.onDocumentFragment761()
 }
 
-func (c *current) onDocumentFragment762() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onDocumentFragment764(content interface{}) (bool, error) {
+	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
 
 }
 
-func (p *parser) callonDocumentFragment762() (interface{}, error) {
+func (p *parser) callonDocumentFragment764() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment762()
+	return p.cur.onDocumentFragment764(stack["content"])
 }
 
 func (c *current) onDocumentFragment766() (interface{}, error) {
@@ -51514,27 +52065,26 @@ func (p *parser) callonDocumentFragment766() (interface{}, error) {
 	return p.cur.onDocumentFragment766()
 }
 
-func (c *current) onDocumentFragment757(content interface{}) (interface{}, error) {
-
+func (c *current) onDocumentFragment758(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment757() (interface{}, error) {
+func (p *parser) callonDocumentFragment758() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment757(stack["content"])
+	return p.cur.onDocumentFragment758(stack["content"])
 }
 
-func (c *current) onDocumentFragment734(line interface{}) (interface{}, error) {
-	return line, nil
+func (c *current) onDocumentFragment630(firstLine, otherLines interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.MarkdownQuote, append([]interface{}{firstLine}, otherLines.([]interface{})...))
 
 }
 
-func (p *parser) callonDocumentFragment734() (interface{}, error) {
+func (p *parser) callonDocumentFragment630() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment734(stack["line"])
+	return p.cur.onDocumentFragment630(stack["firstLine"], stack["otherLines"])
 }
 
 func (c *current) onDocumentFragment779() (interface{}, error) {
@@ -51584,804 +52134,796 @@ func (p *parser) callonDocumentFragment776() (interface{}, error) {
 	return p.cur.onDocumentFragment776(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment713(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Open, content.([]interface{}))
-
-}
-
-func (p *parser) callonDocumentFragment713() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment713(stack["start"], stack["content"], stack["end"])
-}
-
-func (c *current) onDocumentFragment800() (interface{}, error) {
-	// sequence of 4 "+" chars or more
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonDocumentFragment800() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment800()
-}
-
-func (c *current) onDocumentFragment806() (interface{}, error) {
-
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonDocumentFragment806() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment806()
-}
-
-func (c *current) onDocumentFragment809() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
-}
-
-func (p *parser) callonDocumentFragment809() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment809()
-}
-
-func (c *current) onDocumentFragment797(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
-
-}
-
-func (p *parser) callonDocumentFragment797() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment797(stack["delimiter"])
-}
-
-func (c *current) onDocumentFragment816(start interface{}) (bool, error) {
-	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
-
-}
-
-func (p *parser) callonDocumentFragment816() (bool, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment816(stack["start"])
-}
-
-func (c *current) onDocumentFragment828() (interface{}, error) {
-	// sequence of 4 "+" chars or more
+func (c *current) onDocumentFragment801() (interface{}, error) {
+	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment828() (interface{}, error) {
+func (p *parser) callonDocumentFragment801() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment828()
+	return p.cur.onDocumentFragment801()
 }
 
-func (c *current) onDocumentFragment834() (interface{}, error) {
+func (c *current) onDocumentFragment804() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment834() (interface{}, error) {
+func (p *parser) callonDocumentFragment804() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment834()
+	return p.cur.onDocumentFragment804()
 }
 
-func (c *current) onDocumentFragment837() (interface{}, error) {
+func (c *current) onDocumentFragment807() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment837() (interface{}, error) {
+func (p *parser) callonDocumentFragment807() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment837()
+	return p.cur.onDocumentFragment807()
 }
 
-func (c *current) onDocumentFragment825(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
+func (c *current) onDocumentFragment798(delimiter interface{}) (interface{}, error) {
 
-}
-
-func (p *parser) callonDocumentFragment825() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment825(stack["delimiter"])
-}
-
-func (c *current) onDocumentFragment844(end interface{}) (bool, error) {
-	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment844() (bool, error) {
+func (p *parser) callonDocumentFragment798() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment844(stack["end"])
+	return p.cur.onDocumentFragment798(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment853() (interface{}, error) {
+func (c *current) onDocumentFragment822() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment853() (interface{}, error) {
+func (p *parser) callonDocumentFragment822() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment853()
+	return p.cur.onDocumentFragment822()
 }
 
-func (c *current) onDocumentFragment857() (interface{}, error) {
+func (c *current) onDocumentFragment826() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment857() (interface{}, error) {
+func (p *parser) callonDocumentFragment826() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment857()
+	return p.cur.onDocumentFragment826()
 }
 
-func (c *current) onDocumentFragment848(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment817(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment848() (interface{}, error) {
+func (p *parser) callonDocumentFragment817() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment848(stack["content"])
+	return p.cur.onDocumentFragment817(stack["content"])
 }
 
-func (c *current) onDocumentFragment819(line interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment794(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment819() (interface{}, error) {
+func (p *parser) callonDocumentFragment794() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment819(stack["line"])
+	return p.cur.onDocumentFragment794(stack["line"])
 }
 
-func (c *current) onDocumentFragment872() (interface{}, error) {
-	// sequence of 4 "+" chars or more
+func (c *current) onDocumentFragment839() (interface{}, error) {
+	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment872() (interface{}, error) {
+func (p *parser) callonDocumentFragment839() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment872()
+	return p.cur.onDocumentFragment839()
 }
 
-func (c *current) onDocumentFragment878() (interface{}, error) {
+func (c *current) onDocumentFragment842() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment878() (interface{}, error) {
+func (p *parser) callonDocumentFragment842() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment878()
+	return p.cur.onDocumentFragment842()
 }
 
-func (c *current) onDocumentFragment881() (interface{}, error) {
+func (c *current) onDocumentFragment845() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment881() (interface{}, error) {
+func (p *parser) callonDocumentFragment845() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment881()
+	return p.cur.onDocumentFragment845()
 }
 
-func (c *current) onDocumentFragment869(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment836(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
-
-}
-
-func (p *parser) callonDocumentFragment869() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment869(stack["delimiter"])
-}
-
-func (c *current) onDocumentFragment888(end interface{}) (bool, error) {
-	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment888() (bool, error) {
+func (p *parser) callonDocumentFragment836() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment888(stack["end"])
+	return p.cur.onDocumentFragment836(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment794(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Passthrough, content.([]interface{}))
+func (c *current) onDocumentFragment773(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Open, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment794() (interface{}, error) {
+func (p *parser) callonDocumentFragment773() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment794(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment773(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment897() (interface{}, error) {
-	// sequence of 4 "_" chars or more
+func (c *current) onDocumentFragment860() (interface{}, error) {
+	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment897() (interface{}, error) {
+func (p *parser) callonDocumentFragment860() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment897()
+	return p.cur.onDocumentFragment860()
 }
 
-func (c *current) onDocumentFragment903() (interface{}, error) {
+func (c *current) onDocumentFragment866() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment903() (interface{}, error) {
+func (p *parser) callonDocumentFragment866() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment903()
+	return p.cur.onDocumentFragment866()
 }
 
-func (c *current) onDocumentFragment906() (interface{}, error) {
+func (c *current) onDocumentFragment869() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment906() (interface{}, error) {
+func (p *parser) callonDocumentFragment869() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment906()
+	return p.cur.onDocumentFragment869()
 }
 
-func (c *current) onDocumentFragment894(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment857(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment894() (interface{}, error) {
+func (p *parser) callonDocumentFragment857() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment894(stack["delimiter"])
+	return p.cur.onDocumentFragment857(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment913(start interface{}) (bool, error) {
+func (c *current) onDocumentFragment876(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment913() (bool, error) {
+func (p *parser) callonDocumentFragment876() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment913(stack["start"])
+	return p.cur.onDocumentFragment876(stack["start"])
 }
 
-func (c *current) onDocumentFragment925() (interface{}, error) {
-	// sequence of 4 "_" chars or more
+func (c *current) onDocumentFragment888() (interface{}, error) {
+	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment925() (interface{}, error) {
+func (p *parser) callonDocumentFragment888() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment925()
+	return p.cur.onDocumentFragment888()
 }
 
-func (c *current) onDocumentFragment931() (interface{}, error) {
+func (c *current) onDocumentFragment894() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment931() (interface{}, error) {
+func (p *parser) callonDocumentFragment894() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment931()
+	return p.cur.onDocumentFragment894()
 }
 
-func (c *current) onDocumentFragment934() (interface{}, error) {
+func (c *current) onDocumentFragment897() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment934() (interface{}, error) {
+func (p *parser) callonDocumentFragment897() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment934()
+	return p.cur.onDocumentFragment897()
 }
 
-func (c *current) onDocumentFragment922(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment885(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment922() (interface{}, error) {
+func (p *parser) callonDocumentFragment885() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment922(stack["delimiter"])
+	return p.cur.onDocumentFragment885(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment941(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment904(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment941() (bool, error) {
+func (p *parser) callonDocumentFragment904() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment941(stack["end"])
+	return p.cur.onDocumentFragment904(stack["end"])
 }
 
-func (c *current) onDocumentFragment950() (interface{}, error) {
+func (c *current) onDocumentFragment913() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment950() (interface{}, error) {
+func (p *parser) callonDocumentFragment913() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment950()
+	return p.cur.onDocumentFragment913()
 }
 
-func (c *current) onDocumentFragment954() (interface{}, error) {
+func (c *current) onDocumentFragment917() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment954() (interface{}, error) {
+func (p *parser) callonDocumentFragment917() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment954()
+	return p.cur.onDocumentFragment917()
 }
 
-func (c *current) onDocumentFragment945(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment908(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment945() (interface{}, error) {
+func (p *parser) callonDocumentFragment908() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment945(stack["content"])
+	return p.cur.onDocumentFragment908(stack["content"])
 }
 
-func (c *current) onDocumentFragment916(line interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment879(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment916() (interface{}, error) {
+func (p *parser) callonDocumentFragment879() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment916(stack["line"])
+	return p.cur.onDocumentFragment879(stack["line"])
 }
 
-func (c *current) onDocumentFragment969() (interface{}, error) {
-	// sequence of 4 "_" chars or more
+func (c *current) onDocumentFragment932() (interface{}, error) {
+	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment969() (interface{}, error) {
+func (p *parser) callonDocumentFragment932() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment969()
+	return p.cur.onDocumentFragment932()
 }
 
-func (c *current) onDocumentFragment975() (interface{}, error) {
+func (c *current) onDocumentFragment938() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment975() (interface{}, error) {
+func (p *parser) callonDocumentFragment938() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment975()
+	return p.cur.onDocumentFragment938()
 }
 
-func (c *current) onDocumentFragment978() (interface{}, error) {
+func (c *current) onDocumentFragment941() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment978() (interface{}, error) {
+func (p *parser) callonDocumentFragment941() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment978()
+	return p.cur.onDocumentFragment941()
 }
 
-func (c *current) onDocumentFragment966(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment929(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment966() (interface{}, error) {
+func (p *parser) callonDocumentFragment929() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment966(stack["delimiter"])
+	return p.cur.onDocumentFragment929(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment985(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment948(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment985() (bool, error) {
+func (p *parser) callonDocumentFragment948() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment985(stack["end"])
+	return p.cur.onDocumentFragment948(stack["end"])
 }
 
-func (c *current) onDocumentFragment891(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Quote, content.([]interface{}))
+func (c *current) onDocumentFragment854(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Passthrough, content.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment891() (interface{}, error) {
+func (p *parser) callonDocumentFragment854() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment891(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment854(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onDocumentFragment994() (interface{}, error) {
-	// sequence of 4 "*" chars or more
+func (c *current) onDocumentFragment957() (interface{}, error) {
+	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment994() (interface{}, error) {
+func (p *parser) callonDocumentFragment957() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment994()
+	return p.cur.onDocumentFragment957()
 }
 
-func (c *current) onDocumentFragment1000() (interface{}, error) {
+func (c *current) onDocumentFragment963() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1000() (interface{}, error) {
+func (p *parser) callonDocumentFragment963() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1000()
+	return p.cur.onDocumentFragment963()
 }
 
-func (c *current) onDocumentFragment1003() (interface{}, error) {
+func (c *current) onDocumentFragment966() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1003() (interface{}, error) {
+func (p *parser) callonDocumentFragment966() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1003()
+	return p.cur.onDocumentFragment966()
 }
 
-func (c *current) onDocumentFragment991(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment954(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment991() (interface{}, error) {
+func (p *parser) callonDocumentFragment954() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment991(stack["delimiter"])
+	return p.cur.onDocumentFragment954(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment1010(start interface{}) (bool, error) {
+func (c *current) onDocumentFragment973(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment1010() (bool, error) {
+func (p *parser) callonDocumentFragment973() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1010(stack["start"])
+	return p.cur.onDocumentFragment973(stack["start"])
 }
 
-func (c *current) onDocumentFragment1022() (interface{}, error) {
-	// sequence of 4 "*" chars or more
+func (c *current) onDocumentFragment985() (interface{}, error) {
+	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1022() (interface{}, error) {
+func (p *parser) callonDocumentFragment985() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1022()
+	return p.cur.onDocumentFragment985()
 }
 
-func (c *current) onDocumentFragment1028() (interface{}, error) {
+func (c *current) onDocumentFragment991() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1028() (interface{}, error) {
+func (p *parser) callonDocumentFragment991() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1028()
+	return p.cur.onDocumentFragment991()
 }
 
-func (c *current) onDocumentFragment1031() (interface{}, error) {
+func (c *current) onDocumentFragment994() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1031() (interface{}, error) {
+func (p *parser) callonDocumentFragment994() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1031()
+	return p.cur.onDocumentFragment994()
 }
 
-func (c *current) onDocumentFragment1019(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment982(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment1019() (interface{}, error) {
+func (p *parser) callonDocumentFragment982() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1019(stack["delimiter"])
+	return p.cur.onDocumentFragment982(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment1038(end interface{}) (bool, error) {
+func (c *current) onDocumentFragment1001(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonDocumentFragment1038() (bool, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment1038(stack["end"])
-}
-
-func (c *current) onDocumentFragment1047() (interface{}, error) {
-
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonDocumentFragment1047() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment1047()
-}
-
-func (c *current) onDocumentFragment1051() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
-}
-
-func (p *parser) callonDocumentFragment1051() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment1051()
-}
-
-func (c *current) onDocumentFragment1042(content interface{}) (interface{}, error) {
-
-	return types.NewRawLine(content.(string))
-
-}
-
-func (p *parser) callonDocumentFragment1042() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment1042(stack["content"])
-}
-
-func (c *current) onDocumentFragment1013(line interface{}) (interface{}, error) {
-	return line, nil
-
-}
-
-func (p *parser) callonDocumentFragment1013() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onDocumentFragment1013(stack["line"])
-}
-
-func (c *current) onDocumentFragment1066() (interface{}, error) {
-	// sequence of 4 "*" chars or more
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonDocumentFragment1066() (interface{}, error) {
+func (p *parser) callonDocumentFragment1001() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1066()
+	return p.cur.onDocumentFragment1001(stack["end"])
 }
 
-func (c *current) onDocumentFragment1072() (interface{}, error) {
+func (c *current) onDocumentFragment1010() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1072() (interface{}, error) {
+func (p *parser) callonDocumentFragment1010() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1072()
+	return p.cur.onDocumentFragment1010()
 }
 
-func (c *current) onDocumentFragment1075() (interface{}, error) {
+func (c *current) onDocumentFragment1014() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1075() (interface{}, error) {
+func (p *parser) callonDocumentFragment1014() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1075()
+	return p.cur.onDocumentFragment1014()
 }
 
-func (c *current) onDocumentFragment1063(delimiter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1005(content interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
+	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1063() (interface{}, error) {
+func (p *parser) callonDocumentFragment1005() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1063(stack["delimiter"])
+	return p.cur.onDocumentFragment1005(stack["content"])
 }
 
-func (c *current) onDocumentFragment1082(end interface{}) (bool, error) {
-	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+func (c *current) onDocumentFragment976(line interface{}) (interface{}, error) {
+	return line, nil
 
 }
 
-func (p *parser) callonDocumentFragment1082() (bool, error) {
+func (p *parser) callonDocumentFragment976() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1082(stack["end"])
+	return p.cur.onDocumentFragment976(stack["line"])
 }
 
-func (c *current) onDocumentFragment988(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Sidebar, content.([]interface{}))
+func (c *current) onDocumentFragment1029() (interface{}, error) {
+	// sequence of 4 "_" chars or more
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment988() (interface{}, error) {
+func (p *parser) callonDocumentFragment1029() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment988(stack["start"], stack["content"], stack["end"])
+	return p.cur.onDocumentFragment1029()
 }
 
-func (c *current) onDocumentFragment1096() (interface{}, error) {
+func (c *current) onDocumentFragment1035() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1096() (interface{}, error) {
+func (p *parser) callonDocumentFragment1035() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1096()
+	return p.cur.onDocumentFragment1035()
 }
 
-func (c *current) onDocumentFragment1099() (interface{}, error) {
+func (c *current) onDocumentFragment1038() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1099() (interface{}, error) {
+func (p *parser) callonDocumentFragment1038() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1099()
+	return p.cur.onDocumentFragment1038()
 }
 
-func (c *current) onDocumentFragment1107() (interface{}, error) {
+func (c *current) onDocumentFragment1026(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonDocumentFragment1026() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1026(stack["delimiter"])
+}
+
+func (c *current) onDocumentFragment1045(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentFragment1045() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1045(stack["end"])
+}
+
+func (c *current) onDocumentFragment951(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Quote, content.([]interface{}))
+
+}
+
+func (p *parser) callonDocumentFragment951() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment951(stack["start"], stack["content"], stack["end"])
+}
+
+func (c *current) onDocumentFragment1054() (interface{}, error) {
+	// sequence of 4 "*" chars or more
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment1054() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1054()
+}
+
+func (c *current) onDocumentFragment1060() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment1060() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1060()
+}
+
+func (c *current) onDocumentFragment1063() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1107() (interface{}, error) {
+func (p *parser) callonDocumentFragment1063() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1107()
+	return p.cur.onDocumentFragment1063()
 }
 
-func (c *current) onDocumentFragment1085() (interface{}, error) {
+func (c *current) onDocumentFragment1051(delimiter interface{}) (interface{}, error) {
 
-	return types.NewThematicBreak()
+	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonDocumentFragment1085() (interface{}, error) {
+func (p *parser) callonDocumentFragment1051() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1085()
+	return p.cur.onDocumentFragment1051(stack["delimiter"])
 }
 
-func (c *current) onDocumentFragment1119() (interface{}, error) {
+func (c *current) onDocumentFragment1070(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+
+}
 
+func (p *parser) callonDocumentFragment1070() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1070(stack["start"])
+}
+
+func (c *current) onDocumentFragment1082() (interface{}, error) {
+	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1119() (interface{}, error) {
+func (p *parser) callonDocumentFragment1082() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1119()
+	return p.cur.onDocumentFragment1082()
 }
 
-func (c *current) onDocumentFragment1122() (interface{}, error) {
+func (c *current) onDocumentFragment1088() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment1088() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1088()
+}
+
+func (c *current) onDocumentFragment1091() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1122() (interface{}, error) {
+func (p *parser) callonDocumentFragment1091() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1091()
+}
+
+func (c *current) onDocumentFragment1079(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonDocumentFragment1079() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1079(stack["delimiter"])
+}
+
+func (c *current) onDocumentFragment1098(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentFragment1098() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1122()
+	return p.cur.onDocumentFragment1098(stack["end"])
 }
 
-func (c *current) onDocumentFragment1137() (interface{}, error) {
+func (c *current) onDocumentFragment1107() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1137() (interface{}, error) {
+func (p *parser) callonDocumentFragment1107() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1137()
+	return p.cur.onDocumentFragment1107()
 }
 
-func (c *current) onDocumentFragment1140() (interface{}, error) {
+func (c *current) onDocumentFragment1111() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1140() (interface{}, error) {
+func (p *parser) callonDocumentFragment1111() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1111()
+}
+
+func (c *current) onDocumentFragment1102(content interface{}) (interface{}, error) {
+
+	return types.NewRawLine(content.(string))
+
+}
+
+func (p *parser) callonDocumentFragment1102() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1102(stack["content"])
+}
+
+func (c *current) onDocumentFragment1073(line interface{}) (interface{}, error) {
+	return line, nil
+
+}
+
+func (p *parser) callonDocumentFragment1073() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1073(stack["line"])
+}
+
+func (c *current) onDocumentFragment1126() (interface{}, error) {
+	// sequence of 4 "*" chars or more
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment1126() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1140()
+	return p.cur.onDocumentFragment1126()
 }
 
 func (c *current) onDocumentFragment1132() (interface{}, error) {
-	return types.NewBlankLine()
+
+	return string(c.text), nil
 
 }
 
@@ -52391,27 +52933,95 @@ func (p *parser) callonDocumentFragment1132() (interface{}, error) {
 	return p.cur.onDocumentFragment1132()
 }
 
-func (c *current) onDocumentFragment1154() (interface{}, error) {
+func (c *current) onDocumentFragment1135() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment1135() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1135()
+}
+
+func (c *current) onDocumentFragment1123(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonDocumentFragment1123() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1123(stack["delimiter"])
+}
+
+func (c *current) onDocumentFragment1142(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonDocumentFragment1142() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1142(stack["end"])
+}
+
+func (c *current) onDocumentFragment1048(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Sidebar, content.([]interface{}))
+
+}
+
+func (p *parser) callonDocumentFragment1048() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1048(stack["start"], stack["content"], stack["end"])
+}
+
+func (c *current) onDocumentFragment1156() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1154() (interface{}, error) {
+func (p *parser) callonDocumentFragment1156() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1154()
+	return p.cur.onDocumentFragment1156()
 }
 
-func (c *current) onDocumentFragment1157() (interface{}, error) {
+func (c *current) onDocumentFragment1159() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1157() (interface{}, error) {
+func (p *parser) callonDocumentFragment1159() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1157()
+	return p.cur.onDocumentFragment1159()
+}
+
+func (c *current) onDocumentFragment1167() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment1167() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1167()
+}
+
+func (c *current) onDocumentFragment1145() (interface{}, error) {
+
+	return types.NewThematicBreak()
+
+}
+
+func (p *parser) callonDocumentFragment1145() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1145()
 }
 
 func (c *current) onDocumentFragment1179() (interface{}, error) {
@@ -52426,517 +53036,597 @@ func (p *parser) callonDocumentFragment1179() (interface{}, error) {
 	return p.cur.onDocumentFragment1179()
 }
 
-func (c *current) onDocumentFragment1184() (interface{}, error) {
+func (c *current) onDocumentFragment1182() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment1182() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1182()
+}
+
+func (c *current) onDocumentFragment1197() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment1197() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1197()
+}
+
+func (c *current) onDocumentFragment1200() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
+}
 
+func (p *parser) callonDocumentFragment1200() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1200()
 }
 
-func (p *parser) callonDocumentFragment1184() (interface{}, error) {
+func (c *current) onDocumentFragment1192() (interface{}, error) {
+	return types.NewBlankLine()
+
+}
+
+func (p *parser) callonDocumentFragment1192() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1184()
+	return p.cur.onDocumentFragment1192()
+}
+
+func (c *current) onDocumentFragment1214() (interface{}, error) {
+
+	return string(c.text), nil
+
 }
 
-func (c *current) onDocumentFragment1182(content interface{}) (interface{}, error) {
+func (p *parser) callonDocumentFragment1214() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1214()
+}
+
+func (c *current) onDocumentFragment1217() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment1217() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1217()
+}
+
+func (c *current) onDocumentFragment1239() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment1239() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1239()
+}
+
+func (c *current) onDocumentFragment1244() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment1244() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1244()
+}
+
+func (c *current) onDocumentFragment1242(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1182() (interface{}, error) {
+func (p *parser) callonDocumentFragment1242() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1182(stack["content"])
+	return p.cur.onDocumentFragment1242(stack["content"])
 }
 
-func (c *current) onDocumentFragment1175(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1235(content interface{}) (interface{}, error) {
 	return types.NewInlineTableCell(content.(*types.RawLine))
 
 }
 
-func (p *parser) callonDocumentFragment1175() (interface{}, error) {
+func (p *parser) callonDocumentFragment1235() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1175(stack["content"])
+	return p.cur.onDocumentFragment1235(stack["content"])
 }
 
-func (c *current) onDocumentFragment1188() (interface{}, error) {
+func (c *current) onDocumentFragment1248() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1188() (interface{}, error) {
+func (p *parser) callonDocumentFragment1248() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1188()
+	return p.cur.onDocumentFragment1248()
 }
 
-func (c *current) onDocumentFragment1171(cells interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1231(cells interface{}) (interface{}, error) {
 
 	return cells, nil
 }
 
-func (p *parser) callonDocumentFragment1171() (interface{}, error) {
+func (p *parser) callonDocumentFragment1231() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1171(stack["cells"])
+	return p.cur.onDocumentFragment1231(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1205() (interface{}, error) {
+func (c *current) onDocumentFragment1265() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1205() (interface{}, error) {
+func (p *parser) callonDocumentFragment1265() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1205()
+	return p.cur.onDocumentFragment1265()
 }
 
-func (c *current) onDocumentFragment1208() (interface{}, error) {
+func (c *current) onDocumentFragment1268() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1208() (interface{}, error) {
+func (p *parser) callonDocumentFragment1268() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1208()
+	return p.cur.onDocumentFragment1268()
 }
 
-func (c *current) onDocumentFragment1223() (interface{}, error) {
+func (c *current) onDocumentFragment1283() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1223() (interface{}, error) {
+func (p *parser) callonDocumentFragment1283() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1223()
+	return p.cur.onDocumentFragment1283()
 }
 
-func (c *current) onDocumentFragment1226() (interface{}, error) {
+func (c *current) onDocumentFragment1286() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1226() (interface{}, error) {
+func (p *parser) callonDocumentFragment1286() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1226()
+	return p.cur.onDocumentFragment1286()
 }
 
-func (c *current) onDocumentFragment1218() (interface{}, error) {
+func (c *current) onDocumentFragment1278() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1218() (interface{}, error) {
+func (p *parser) callonDocumentFragment1278() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1218()
+	return p.cur.onDocumentFragment1278()
 }
 
-func (c *current) onDocumentFragment1235() (interface{}, error) {
+func (c *current) onDocumentFragment1295() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1235() (interface{}, error) {
+func (p *parser) callonDocumentFragment1295() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1235()
+	return p.cur.onDocumentFragment1295()
 }
 
-func (c *current) onDocumentFragment1240() (interface{}, error) {
+func (c *current) onDocumentFragment1300() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1240() (interface{}, error) {
+func (p *parser) callonDocumentFragment1300() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1240()
+	return p.cur.onDocumentFragment1300()
 }
 
-func (c *current) onDocumentFragment1243() (interface{}, error) {
+func (c *current) onDocumentFragment1303() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1243() (interface{}, error) {
+func (p *parser) callonDocumentFragment1303() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1243()
+	return p.cur.onDocumentFragment1303()
 }
 
-func (c *current) onDocumentFragment1257() (interface{}, error) {
+func (c *current) onDocumentFragment1317() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1257() (interface{}, error) {
+func (p *parser) callonDocumentFragment1317() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1257()
+	return p.cur.onDocumentFragment1317()
 }
 
-func (c *current) onDocumentFragment1260() (interface{}, error) {
+func (c *current) onDocumentFragment1320() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1260() (interface{}, error) {
+func (p *parser) callonDocumentFragment1320() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1260()
+	return p.cur.onDocumentFragment1320()
 }
 
-func (c *current) onDocumentFragment1275() (interface{}, error) {
+func (c *current) onDocumentFragment1335() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1275() (interface{}, error) {
+func (p *parser) callonDocumentFragment1335() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1275()
+	return p.cur.onDocumentFragment1335()
 }
 
-func (c *current) onDocumentFragment1278() (interface{}, error) {
+func (c *current) onDocumentFragment1338() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1278() (interface{}, error) {
+func (p *parser) callonDocumentFragment1338() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1278()
+	return p.cur.onDocumentFragment1338()
 }
 
-func (c *current) onDocumentFragment1270() (interface{}, error) {
+func (c *current) onDocumentFragment1330() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1270() (interface{}, error) {
+func (p *parser) callonDocumentFragment1330() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1270()
+	return p.cur.onDocumentFragment1330()
 }
 
-func (c *current) onDocumentFragment1289() (interface{}, error) {
+func (c *current) onDocumentFragment1349() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1289() (interface{}, error) {
+func (p *parser) callonDocumentFragment1349() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1289()
+	return p.cur.onDocumentFragment1349()
 }
 
-func (c *current) onDocumentFragment1294() (interface{}, error) {
+func (c *current) onDocumentFragment1354() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1294() (interface{}, error) {
+func (p *parser) callonDocumentFragment1354() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1294()
+	return p.cur.onDocumentFragment1354()
 }
 
-func (c *current) onDocumentFragment1299() (interface{}, error) {
+func (c *current) onDocumentFragment1359() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1299() (interface{}, error) {
+func (p *parser) callonDocumentFragment1359() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1299()
+	return p.cur.onDocumentFragment1359()
 }
 
-func (c *current) onDocumentFragment1250(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1310(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1250() (interface{}, error) {
+func (p *parser) callonDocumentFragment1310() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1250(stack["content"])
+	return p.cur.onDocumentFragment1310(stack["content"])
 }
 
-func (c *current) onDocumentFragment1198(format, content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1258(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonDocumentFragment1198() (interface{}, error) {
+func (p *parser) callonDocumentFragment1258() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1198(stack["format"], stack["content"])
+	return p.cur.onDocumentFragment1258(stack["format"], stack["content"])
 }
 
-func (c *current) onDocumentFragment1195(cells interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1255(cells interface{}) (interface{}, error) {
 	return cells, nil
 }
 
-func (p *parser) callonDocumentFragment1195() (interface{}, error) {
+func (p *parser) callonDocumentFragment1255() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1195(stack["cells"])
+	return p.cur.onDocumentFragment1255(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1168(cells interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1228(cells interface{}) (interface{}, error) {
 	return types.NewTableRow(cells.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment1168() (interface{}, error) {
+func (p *parser) callonDocumentFragment1228() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1168(stack["cells"])
+	return p.cur.onDocumentFragment1228(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1311() (interface{}, error) {
+func (c *current) onDocumentFragment1371() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1311() (interface{}, error) {
+func (p *parser) callonDocumentFragment1371() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1311()
+	return p.cur.onDocumentFragment1371()
 }
 
-func (c *current) onDocumentFragment1314() (interface{}, error) {
+func (c *current) onDocumentFragment1374() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1314() (interface{}, error) {
+func (p *parser) callonDocumentFragment1374() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1314()
+	return p.cur.onDocumentFragment1374()
 }
 
-func (c *current) onDocumentFragment1306() (interface{}, error) {
+func (c *current) onDocumentFragment1366() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1306() (interface{}, error) {
+func (p *parser) callonDocumentFragment1366() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1306()
+	return p.cur.onDocumentFragment1366()
 }
 
-func (c *current) onDocumentFragment1147(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1207(content interface{}) (interface{}, error) {
 	return content, nil
 
 }
 
-func (p *parser) callonDocumentFragment1147() (interface{}, error) {
+func (p *parser) callonDocumentFragment1207() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1147(stack["content"])
+	return p.cur.onDocumentFragment1207(stack["content"])
 }
 
-func (c *current) onDocumentFragment1325() (interface{}, error) {
+func (c *current) onDocumentFragment1385() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1325() (interface{}, error) {
+func (p *parser) callonDocumentFragment1385() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1325()
+	return p.cur.onDocumentFragment1385()
 }
 
-func (c *current) onDocumentFragment1328() (interface{}, error) {
+func (c *current) onDocumentFragment1388() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1328() (interface{}, error) {
+func (p *parser) callonDocumentFragment1388() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1328()
+	return p.cur.onDocumentFragment1388()
 }
 
-func (c *current) onDocumentFragment1115(lines interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1175(lines interface{}) (interface{}, error) {
 	return types.NewTable(lines.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment1115() (interface{}, error) {
+func (p *parser) callonDocumentFragment1175() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1115(stack["lines"])
+	return p.cur.onDocumentFragment1175(stack["lines"])
 }
 
-func (c *current) onDocumentFragment1343() (interface{}, error) {
+func (c *current) onDocumentFragment1403() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1343() (interface{}, error) {
+func (p *parser) callonDocumentFragment1403() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1343()
+	return p.cur.onDocumentFragment1403()
 }
 
-func (c *current) onDocumentFragment1347() (interface{}, error) {
+func (c *current) onDocumentFragment1407() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1347() (interface{}, error) {
+func (p *parser) callonDocumentFragment1407() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1347()
+	return p.cur.onDocumentFragment1407()
 }
 
-func (c *current) onDocumentFragment1337(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1397(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1337() (interface{}, error) {
+func (p *parser) callonDocumentFragment1397() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1337(stack["content"])
+	return p.cur.onDocumentFragment1397(stack["content"])
 }
 
-func (c *current) onDocumentFragment1356() (bool, error) {
+func (c *current) onDocumentFragment1416() (bool, error) {
 	return c.isFrontMatterAllowed(), nil
 
 }
 
-func (p *parser) callonDocumentFragment1356() (bool, error) {
+func (p *parser) callonDocumentFragment1416() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1356()
+	return p.cur.onDocumentFragment1416()
 }
 
-func (c *current) onDocumentFragment1362() (interface{}, error) {
+func (c *current) onDocumentFragment1422() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1362() (interface{}, error) {
+func (p *parser) callonDocumentFragment1422() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1362()
+	return p.cur.onDocumentFragment1422()
 }
 
-func (c *current) onDocumentFragment1365() (interface{}, error) {
+func (c *current) onDocumentFragment1425() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1365() (interface{}, error) {
+func (p *parser) callonDocumentFragment1425() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1365()
+	return p.cur.onDocumentFragment1425()
 }
 
-func (c *current) onDocumentFragment1382() (interface{}, error) {
+func (c *current) onDocumentFragment1442() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1382() (interface{}, error) {
+func (p *parser) callonDocumentFragment1442() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1382()
+	return p.cur.onDocumentFragment1442()
 }
 
-func (c *current) onDocumentFragment1385() (interface{}, error) {
+func (c *current) onDocumentFragment1445() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1385() (interface{}, error) {
+func (p *parser) callonDocumentFragment1445() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1385()
+	return p.cur.onDocumentFragment1445()
 }
 
-func (c *current) onDocumentFragment1374() (interface{}, error) {
+func (c *current) onDocumentFragment1434() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1374() (interface{}, error) {
+func (p *parser) callonDocumentFragment1434() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1374()
+	return p.cur.onDocumentFragment1434()
 }
 
-func (c *current) onDocumentFragment1395() (interface{}, error) {
+func (c *current) onDocumentFragment1455() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1395() (interface{}, error) {
+func (p *parser) callonDocumentFragment1455() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1395()
+	return p.cur.onDocumentFragment1455()
 }
 
-func (c *current) onDocumentFragment1398() (interface{}, error) {
+func (c *current) onDocumentFragment1458() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1398() (interface{}, error) {
+func (p *parser) callonDocumentFragment1458() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1398()
+	return p.cur.onDocumentFragment1458()
 }
 
-func (c *current) onDocumentFragment1358(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1418(content interface{}) (interface{}, error) {
 	return types.NewYamlFrontMatter(content.(string))
 }
 
-func (p *parser) callonDocumentFragment1358() (interface{}, error) {
+func (p *parser) callonDocumentFragment1418() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1358(stack["content"])
+	return p.cur.onDocumentFragment1418(stack["content"])
 }
 
-func (c *current) onDocumentFragment1354(frontmatter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1414(frontmatter interface{}) (interface{}, error) {
 	return frontmatter, nil
 
 }
 
-func (p *parser) callonDocumentFragment1354() (interface{}, error) {
+func (p *parser) callonDocumentFragment1414() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1354(stack["frontmatter"])
+	return p.cur.onDocumentFragment1414(stack["frontmatter"])
 }
 
-func (c *current) onDocumentFragment1406(attributes, element interface{}) (bool, error) {
+func (c *current) onDocumentFragment1466(attributes, element interface{}) (bool, error) {
 	// there must be at least `attributes` or `element`
 	return attributes != nil || element != nil, nil
 
 }
 
-func (p *parser) callonDocumentFragment1406() (bool, error) {
+func (p *parser) callonDocumentFragment1466() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1406(stack["attributes"], stack["element"])
+	return p.cur.onDocumentFragment1466(stack["attributes"], stack["element"])
 }
 
 func (c *current) onDocumentFragment1(attributes, element interface{}) (interface{}, error) {
@@ -65074,72 +65764,83 @@ func (p *parser) callonListContinuationElement748() (interface{}, error) {
 	return p.cur.onListContinuationElement748(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement856() (interface{}, error) {
+func (c *current) onListContinuationElement859() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement856() (interface{}, error) {
+func (p *parser) callonListContinuationElement859() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement856()
+	return p.cur.onListContinuationElement859()
 }
 
-func (c *current) onListContinuationElement859() (interface{}, error) {
+func (c *current) onListContinuationElement863() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement859() (interface{}, error) {
+func (p *parser) callonListContinuationElement863() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement859()
+	return p.cur.onListContinuationElement863()
 }
 
-func (c *current) onListContinuationElement851() (interface{}, error) {
-	return types.NewBlankLine()
+func (c *current) onListContinuationElement853(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
+
+}
+
+func (p *parser) callonListContinuationElement853() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement853(stack["content"])
+}
+
+func (c *current) onListContinuationElement849(comment interface{}) (interface{}, error) {
+	return comment, nil
 
 }
 
-func (p *parser) callonListContinuationElement851() (interface{}, error) {
+func (p *parser) callonListContinuationElement849() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement851()
+	return p.cur.onListContinuationElement849(stack["comment"])
 }
 
-func (c *current) onListContinuationElement868() (interface{}, error) {
+func (c *current) onListContinuationElement878() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement868() (interface{}, error) {
+func (p *parser) callonListContinuationElement878() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement868()
+	return p.cur.onListContinuationElement878()
 }
 
-func (c *current) onListContinuationElement872() (interface{}, error) {
+func (c *current) onListContinuationElement881() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement872() (interface{}, error) {
+func (p *parser) callonListContinuationElement881() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement872()
+	return p.cur.onListContinuationElement881()
 }
 
-func (c *current) onListContinuationElement848(content interface{}) (interface{}, error) {
-	return types.NewRawLine(content.(string))
+func (c *current) onListContinuationElement873() (interface{}, error) {
+	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement848() (interface{}, error) {
+func (p *parser) callonListContinuationElement873() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement848(stack["content"])
+	return p.cur.onListContinuationElement873()
 }
 
 func (c *current) onListContinuationElement890() (interface{}, error) {
@@ -65154,105 +65855,218 @@ func (p *parser) callonListContinuationElement890() (interface{}, error) {
 	return p.cur.onListContinuationElement890()
 }
 
-func (c *current) onListContinuationElement893() (interface{}, error) {
+func (c *current) onListContinuationElement894() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement894() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement894()
+}
+
+func (c *current) onListContinuationElement870(content interface{}) (interface{}, error) {
+	return types.NewRawLine(content.(string))
+
+}
+
+func (p *parser) callonListContinuationElement870() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement870(stack["content"])
+}
+
+func (c *current) onListContinuationElement910() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement910() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement910()
+}
+
+func (c *current) onListContinuationElement914() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement914() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement914()
+}
+
+func (c *current) onListContinuationElement904(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
+
+}
+
+func (p *parser) callonListContinuationElement904() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement904(stack["content"])
+}
+
+func (c *current) onListContinuationElement931() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement931() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement931()
+}
+
+func (c *current) onListContinuationElement935() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement935() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement935()
+}
+
+func (c *current) onListContinuationElement925(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
+
+}
+
+func (p *parser) callonListContinuationElement925() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement925(stack["content"])
+}
+
+func (c *current) onListContinuationElement921(comment interface{}) (interface{}, error) {
+	return comment, nil
+
+}
+
+func (p *parser) callonListContinuationElement921() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement921(stack["comment"])
+}
+
+func (c *current) onListContinuationElement950() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement950() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement950()
+}
+
+func (c *current) onListContinuationElement953() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement893() (interface{}, error) {
+func (p *parser) callonListContinuationElement953() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement893()
+	return p.cur.onListContinuationElement953()
 }
 
-func (c *current) onListContinuationElement885() (interface{}, error) {
+func (c *current) onListContinuationElement945() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement885() (interface{}, error) {
+func (p *parser) callonListContinuationElement945() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement885()
+	return p.cur.onListContinuationElement945()
 }
 
-func (c *current) onListContinuationElement902() (interface{}, error) {
+func (c *current) onListContinuationElement962() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement902() (interface{}, error) {
+func (p *parser) callonListContinuationElement962() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement902()
+	return p.cur.onListContinuationElement962()
 }
 
-func (c *current) onListContinuationElement906() (interface{}, error) {
+func (c *current) onListContinuationElement966() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement906() (interface{}, error) {
+func (p *parser) callonListContinuationElement966() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement906()
+	return p.cur.onListContinuationElement966()
 }
 
-func (c *current) onListContinuationElement882(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement942(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement882() (interface{}, error) {
+func (p *parser) callonListContinuationElement942() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement882(stack["content"])
+	return p.cur.onListContinuationElement942(stack["content"])
 }
 
-func (c *current) onListContinuationElement916() (interface{}, error) {
+func (c *current) onListContinuationElement976() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement916() (interface{}, error) {
+func (p *parser) callonListContinuationElement976() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement916()
+	return p.cur.onListContinuationElement976()
 }
 
-func (c *current) onListContinuationElement919(content interface{}) (bool, error) {
+func (c *current) onListContinuationElement979(content interface{}) (bool, error) {
 	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
 
 }
 
-func (p *parser) callonListContinuationElement919() (bool, error) {
+func (p *parser) callonListContinuationElement979() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement919(stack["content"])
+	return p.cur.onListContinuationElement979(stack["content"])
 }
 
-func (c *current) onListContinuationElement921() (interface{}, error) {
+func (c *current) onListContinuationElement981() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement921() (interface{}, error) {
+func (p *parser) callonListContinuationElement981() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement921()
+	return p.cur.onListContinuationElement981()
 }
 
-func (c *current) onListContinuationElement913(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement973(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement913() (interface{}, error) {
+func (p *parser) callonListContinuationElement973() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement913(stack["content"])
+	return p.cur.onListContinuationElement973(stack["content"])
 }
 
 func (c *current) onListContinuationElement845(firstLine, otherLines interface{}) (interface{}, error) {
@@ -65266,1622 +66080,1622 @@ func (p *parser) callonListContinuationElement845() (interface{}, error) {
 	return p.cur.onListContinuationElement845(stack["firstLine"], stack["otherLines"])
 }
 
-func (c *current) onListContinuationElement934() (interface{}, error) {
+func (c *current) onListContinuationElement994() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement934() (interface{}, error) {
+func (p *parser) callonListContinuationElement994() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement934()
+	return p.cur.onListContinuationElement994()
 }
 
-func (c *current) onListContinuationElement937() (interface{}, error) {
+func (c *current) onListContinuationElement997() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement937() (interface{}, error) {
+func (p *parser) callonListContinuationElement997() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement937()
+	return p.cur.onListContinuationElement997()
 }
 
-func (c *current) onListContinuationElement940() (interface{}, error) {
+func (c *current) onListContinuationElement1000() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement940() (interface{}, error) {
+func (p *parser) callonListContinuationElement1000() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement940()
+	return p.cur.onListContinuationElement1000()
 }
 
-func (c *current) onListContinuationElement931(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement991(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement931() (interface{}, error) {
+func (p *parser) callonListContinuationElement991() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement931(stack["delimiter"])
+	return p.cur.onListContinuationElement991(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement956() (interface{}, error) {
+func (c *current) onListContinuationElement1016() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement956() (interface{}, error) {
+func (p *parser) callonListContinuationElement1016() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement956()
+	return p.cur.onListContinuationElement1016()
 }
 
-func (c *current) onListContinuationElement959() (interface{}, error) {
+func (c *current) onListContinuationElement1019() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement959() (interface{}, error) {
+func (p *parser) callonListContinuationElement1019() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement959()
+	return p.cur.onListContinuationElement1019()
 }
 
-func (c *current) onListContinuationElement962() (interface{}, error) {
+func (c *current) onListContinuationElement1022() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement962() (interface{}, error) {
+func (p *parser) callonListContinuationElement1022() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement962()
+	return p.cur.onListContinuationElement1022()
 }
 
-func (c *current) onListContinuationElement953(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1013(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement953() (interface{}, error) {
+func (p *parser) callonListContinuationElement1013() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement953(stack["delimiter"])
+	return p.cur.onListContinuationElement1013(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement977() (interface{}, error) {
+func (c *current) onListContinuationElement1037() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement977() (interface{}, error) {
+func (p *parser) callonListContinuationElement1037() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement977()
+	return p.cur.onListContinuationElement1037()
 }
 
-func (c *current) onListContinuationElement981() (interface{}, error) {
+func (c *current) onListContinuationElement1041() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement981() (interface{}, error) {
+func (p *parser) callonListContinuationElement1041() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement981()
+	return p.cur.onListContinuationElement1041()
 }
 
-func (c *current) onListContinuationElement972(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1032(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement972() (interface{}, error) {
+func (p *parser) callonListContinuationElement1032() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement972(stack["content"])
+	return p.cur.onListContinuationElement1032(stack["content"])
 }
 
-func (c *current) onListContinuationElement949(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1009(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement949() (interface{}, error) {
+func (p *parser) callonListContinuationElement1009() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement949(stack["line"])
+	return p.cur.onListContinuationElement1009(stack["line"])
 }
 
-func (c *current) onListContinuationElement994() (interface{}, error) {
+func (c *current) onListContinuationElement1054() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement994() (interface{}, error) {
+func (p *parser) callonListContinuationElement1054() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement994()
+	return p.cur.onListContinuationElement1054()
 }
 
-func (c *current) onListContinuationElement997() (interface{}, error) {
+func (c *current) onListContinuationElement1057() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement997() (interface{}, error) {
+func (p *parser) callonListContinuationElement1057() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement997()
+	return p.cur.onListContinuationElement1057()
 }
 
-func (c *current) onListContinuationElement1000() (interface{}, error) {
+func (c *current) onListContinuationElement1060() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1000() (interface{}, error) {
+func (p *parser) callonListContinuationElement1060() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1000()
+	return p.cur.onListContinuationElement1060()
 }
 
-func (c *current) onListContinuationElement991(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1051(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement991() (interface{}, error) {
+func (p *parser) callonListContinuationElement1051() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement991(stack["delimiter"])
+	return p.cur.onListContinuationElement1051(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement928(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement988(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Open, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement928() (interface{}, error) {
+func (p *parser) callonListContinuationElement988() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement928(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement988(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1015() (interface{}, error) {
+func (c *current) onListContinuationElement1075() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1015() (interface{}, error) {
+func (p *parser) callonListContinuationElement1075() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1015()
+	return p.cur.onListContinuationElement1075()
 }
 
-func (c *current) onListContinuationElement1021() (interface{}, error) {
+func (c *current) onListContinuationElement1081() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1021() (interface{}, error) {
+func (p *parser) callonListContinuationElement1081() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1021()
+	return p.cur.onListContinuationElement1081()
 }
 
-func (c *current) onListContinuationElement1024() (interface{}, error) {
+func (c *current) onListContinuationElement1084() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1024() (interface{}, error) {
+func (p *parser) callonListContinuationElement1084() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1024()
+	return p.cur.onListContinuationElement1084()
 }
 
-func (c *current) onListContinuationElement1012(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1072(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1012() (interface{}, error) {
+func (p *parser) callonListContinuationElement1072() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1012(stack["delimiter"])
+	return p.cur.onListContinuationElement1072(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1031(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement1091(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1031() (bool, error) {
+func (p *parser) callonListContinuationElement1091() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1031(stack["start"])
+	return p.cur.onListContinuationElement1091(stack["start"])
 }
 
-func (c *current) onListContinuationElement1043() (interface{}, error) {
+func (c *current) onListContinuationElement1103() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1043() (interface{}, error) {
+func (p *parser) callonListContinuationElement1103() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1043()
+	return p.cur.onListContinuationElement1103()
 }
 
-func (c *current) onListContinuationElement1049() (interface{}, error) {
+func (c *current) onListContinuationElement1109() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1049() (interface{}, error) {
+func (p *parser) callonListContinuationElement1109() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1049()
+	return p.cur.onListContinuationElement1109()
 }
 
-func (c *current) onListContinuationElement1052() (interface{}, error) {
+func (c *current) onListContinuationElement1112() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1052() (interface{}, error) {
+func (p *parser) callonListContinuationElement1112() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1052()
+	return p.cur.onListContinuationElement1112()
 }
 
-func (c *current) onListContinuationElement1040(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1100(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1040() (interface{}, error) {
+func (p *parser) callonListContinuationElement1100() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1040(stack["delimiter"])
+	return p.cur.onListContinuationElement1100(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1059(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1119(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1059() (bool, error) {
+func (p *parser) callonListContinuationElement1119() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1059(stack["end"])
+	return p.cur.onListContinuationElement1119(stack["end"])
 }
 
-func (c *current) onListContinuationElement1068() (interface{}, error) {
+func (c *current) onListContinuationElement1128() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1068() (interface{}, error) {
+func (p *parser) callonListContinuationElement1128() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1068()
+	return p.cur.onListContinuationElement1128()
 }
 
-func (c *current) onListContinuationElement1072() (interface{}, error) {
+func (c *current) onListContinuationElement1132() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1072() (interface{}, error) {
+func (p *parser) callonListContinuationElement1132() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1072()
+	return p.cur.onListContinuationElement1132()
 }
 
-func (c *current) onListContinuationElement1063(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1123(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1063() (interface{}, error) {
+func (p *parser) callonListContinuationElement1123() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1063(stack["content"])
+	return p.cur.onListContinuationElement1123(stack["content"])
 }
 
-func (c *current) onListContinuationElement1034(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1094(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement1034() (interface{}, error) {
+func (p *parser) callonListContinuationElement1094() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1034(stack["line"])
+	return p.cur.onListContinuationElement1094(stack["line"])
 }
 
-func (c *current) onListContinuationElement1087() (interface{}, error) {
+func (c *current) onListContinuationElement1147() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1087() (interface{}, error) {
+func (p *parser) callonListContinuationElement1147() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1087()
+	return p.cur.onListContinuationElement1147()
 }
 
-func (c *current) onListContinuationElement1093() (interface{}, error) {
+func (c *current) onListContinuationElement1153() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1093() (interface{}, error) {
+func (p *parser) callonListContinuationElement1153() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1093()
+	return p.cur.onListContinuationElement1153()
 }
 
-func (c *current) onListContinuationElement1096() (interface{}, error) {
+func (c *current) onListContinuationElement1156() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1096() (interface{}, error) {
+func (p *parser) callonListContinuationElement1156() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1096()
+	return p.cur.onListContinuationElement1156()
 }
 
-func (c *current) onListContinuationElement1084(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1144(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1084() (interface{}, error) {
+func (p *parser) callonListContinuationElement1144() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1084(stack["delimiter"])
+	return p.cur.onListContinuationElement1144(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1103(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1163(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1103() (bool, error) {
+func (p *parser) callonListContinuationElement1163() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1103(stack["end"])
+	return p.cur.onListContinuationElement1163(stack["end"])
 }
 
-func (c *current) onListContinuationElement1009(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1069(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Passthrough, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1009() (interface{}, error) {
+func (p *parser) callonListContinuationElement1069() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1009(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1069(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1112() (interface{}, error) {
+func (c *current) onListContinuationElement1172() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1112() (interface{}, error) {
+func (p *parser) callonListContinuationElement1172() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1112()
+	return p.cur.onListContinuationElement1172()
 }
 
-func (c *current) onListContinuationElement1118() (interface{}, error) {
+func (c *current) onListContinuationElement1178() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1118() (interface{}, error) {
+func (p *parser) callonListContinuationElement1178() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1118()
+	return p.cur.onListContinuationElement1178()
 }
 
-func (c *current) onListContinuationElement1121() (interface{}, error) {
+func (c *current) onListContinuationElement1181() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1121() (interface{}, error) {
+func (p *parser) callonListContinuationElement1181() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1121()
+	return p.cur.onListContinuationElement1181()
 }
 
-func (c *current) onListContinuationElement1109(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1169(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1109() (interface{}, error) {
+func (p *parser) callonListContinuationElement1169() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1109(stack["delimiter"])
+	return p.cur.onListContinuationElement1169(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1128(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement1188(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1128() (bool, error) {
+func (p *parser) callonListContinuationElement1188() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1128(stack["start"])
+	return p.cur.onListContinuationElement1188(stack["start"])
 }
 
-func (c *current) onListContinuationElement1140() (interface{}, error) {
+func (c *current) onListContinuationElement1200() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1140() (interface{}, error) {
+func (p *parser) callonListContinuationElement1200() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1140()
+	return p.cur.onListContinuationElement1200()
 }
 
-func (c *current) onListContinuationElement1146() (interface{}, error) {
+func (c *current) onListContinuationElement1206() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1146() (interface{}, error) {
+func (p *parser) callonListContinuationElement1206() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1146()
+	return p.cur.onListContinuationElement1206()
 }
 
-func (c *current) onListContinuationElement1149() (interface{}, error) {
+func (c *current) onListContinuationElement1209() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1149() (interface{}, error) {
+func (p *parser) callonListContinuationElement1209() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1149()
+	return p.cur.onListContinuationElement1209()
 }
 
-func (c *current) onListContinuationElement1137(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1197(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1137() (interface{}, error) {
+func (p *parser) callonListContinuationElement1197() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1137(stack["delimiter"])
+	return p.cur.onListContinuationElement1197(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1156(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1216(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1156() (bool, error) {
+func (p *parser) callonListContinuationElement1216() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1156(stack["end"])
+	return p.cur.onListContinuationElement1216(stack["end"])
 }
 
-func (c *current) onListContinuationElement1165() (interface{}, error) {
+func (c *current) onListContinuationElement1225() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1165() (interface{}, error) {
+func (p *parser) callonListContinuationElement1225() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1165()
+	return p.cur.onListContinuationElement1225()
 }
 
-func (c *current) onListContinuationElement1169() (interface{}, error) {
+func (c *current) onListContinuationElement1229() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1169() (interface{}, error) {
+func (p *parser) callonListContinuationElement1229() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1169()
+	return p.cur.onListContinuationElement1229()
 }
 
-func (c *current) onListContinuationElement1160(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1220(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1160() (interface{}, error) {
+func (p *parser) callonListContinuationElement1220() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1160(stack["content"])
+	return p.cur.onListContinuationElement1220(stack["content"])
 }
 
-func (c *current) onListContinuationElement1131(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1191(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement1131() (interface{}, error) {
+func (p *parser) callonListContinuationElement1191() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1131(stack["line"])
+	return p.cur.onListContinuationElement1191(stack["line"])
 }
 
-func (c *current) onListContinuationElement1184() (interface{}, error) {
+func (c *current) onListContinuationElement1244() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1184() (interface{}, error) {
+func (p *parser) callonListContinuationElement1244() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1184()
+	return p.cur.onListContinuationElement1244()
 }
 
-func (c *current) onListContinuationElement1190() (interface{}, error) {
+func (c *current) onListContinuationElement1250() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1190() (interface{}, error) {
+func (p *parser) callonListContinuationElement1250() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1190()
+	return p.cur.onListContinuationElement1250()
 }
 
-func (c *current) onListContinuationElement1193() (interface{}, error) {
+func (c *current) onListContinuationElement1253() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1193() (interface{}, error) {
+func (p *parser) callonListContinuationElement1253() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1193()
+	return p.cur.onListContinuationElement1253()
 }
 
-func (c *current) onListContinuationElement1181(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1241(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1181() (interface{}, error) {
+func (p *parser) callonListContinuationElement1241() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1181(stack["delimiter"])
+	return p.cur.onListContinuationElement1241(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1200(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1260(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1200() (bool, error) {
+func (p *parser) callonListContinuationElement1260() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1200(stack["end"])
+	return p.cur.onListContinuationElement1260(stack["end"])
 }
 
-func (c *current) onListContinuationElement1106(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1166(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Quote, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1106() (interface{}, error) {
+func (p *parser) callonListContinuationElement1166() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1106(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1166(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1209() (interface{}, error) {
+func (c *current) onListContinuationElement1269() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1209() (interface{}, error) {
+func (p *parser) callonListContinuationElement1269() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1209()
+	return p.cur.onListContinuationElement1269()
 }
 
-func (c *current) onListContinuationElement1215() (interface{}, error) {
+func (c *current) onListContinuationElement1275() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1215() (interface{}, error) {
+func (p *parser) callonListContinuationElement1275() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1215()
+	return p.cur.onListContinuationElement1275()
 }
 
-func (c *current) onListContinuationElement1218() (interface{}, error) {
+func (c *current) onListContinuationElement1278() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1218() (interface{}, error) {
+func (p *parser) callonListContinuationElement1278() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1218()
+	return p.cur.onListContinuationElement1278()
 }
 
-func (c *current) onListContinuationElement1206(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1266(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1206() (interface{}, error) {
+func (p *parser) callonListContinuationElement1266() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1206(stack["delimiter"])
+	return p.cur.onListContinuationElement1266(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1225(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement1285(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1225() (bool, error) {
+func (p *parser) callonListContinuationElement1285() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1225(stack["start"])
+	return p.cur.onListContinuationElement1285(stack["start"])
 }
 
-func (c *current) onListContinuationElement1237() (interface{}, error) {
+func (c *current) onListContinuationElement1297() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1237() (interface{}, error) {
+func (p *parser) callonListContinuationElement1297() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1237()
+	return p.cur.onListContinuationElement1297()
 }
 
-func (c *current) onListContinuationElement1243() (interface{}, error) {
+func (c *current) onListContinuationElement1303() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1243() (interface{}, error) {
+func (p *parser) callonListContinuationElement1303() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1243()
+	return p.cur.onListContinuationElement1303()
 }
 
-func (c *current) onListContinuationElement1246() (interface{}, error) {
+func (c *current) onListContinuationElement1306() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1246() (interface{}, error) {
+func (p *parser) callonListContinuationElement1306() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1246()
+	return p.cur.onListContinuationElement1306()
 }
 
-func (c *current) onListContinuationElement1234(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1294(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1234() (interface{}, error) {
+func (p *parser) callonListContinuationElement1294() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1234(stack["delimiter"])
+	return p.cur.onListContinuationElement1294(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1253(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1313(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1253() (bool, error) {
+func (p *parser) callonListContinuationElement1313() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1253(stack["end"])
+	return p.cur.onListContinuationElement1313(stack["end"])
 }
 
-func (c *current) onListContinuationElement1262() (interface{}, error) {
+func (c *current) onListContinuationElement1322() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1262() (interface{}, error) {
+func (p *parser) callonListContinuationElement1322() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1262()
+	return p.cur.onListContinuationElement1322()
 }
 
-func (c *current) onListContinuationElement1266() (interface{}, error) {
+func (c *current) onListContinuationElement1326() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1266() (interface{}, error) {
+func (p *parser) callonListContinuationElement1326() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1266()
+	return p.cur.onListContinuationElement1326()
 }
 
-func (c *current) onListContinuationElement1257(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1317(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1257() (interface{}, error) {
+func (p *parser) callonListContinuationElement1317() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1257(stack["content"])
+	return p.cur.onListContinuationElement1317(stack["content"])
 }
 
-func (c *current) onListContinuationElement1228(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1288(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement1228() (interface{}, error) {
+func (p *parser) callonListContinuationElement1288() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1228(stack["line"])
+	return p.cur.onListContinuationElement1288(stack["line"])
 }
 
-func (c *current) onListContinuationElement1281() (interface{}, error) {
+func (c *current) onListContinuationElement1341() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1281() (interface{}, error) {
+func (p *parser) callonListContinuationElement1341() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1281()
+	return p.cur.onListContinuationElement1341()
 }
 
-func (c *current) onListContinuationElement1287() (interface{}, error) {
+func (c *current) onListContinuationElement1347() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1287() (interface{}, error) {
+func (p *parser) callonListContinuationElement1347() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1287()
+	return p.cur.onListContinuationElement1347()
 }
 
-func (c *current) onListContinuationElement1290() (interface{}, error) {
+func (c *current) onListContinuationElement1350() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1290() (interface{}, error) {
+func (p *parser) callonListContinuationElement1350() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1290()
+	return p.cur.onListContinuationElement1350()
 }
 
-func (c *current) onListContinuationElement1278(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1338(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1278() (interface{}, error) {
+func (p *parser) callonListContinuationElement1338() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1278(stack["delimiter"])
+	return p.cur.onListContinuationElement1338(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1297(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1357(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1297() (bool, error) {
+func (p *parser) callonListContinuationElement1357() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1297(stack["end"])
+	return p.cur.onListContinuationElement1357(stack["end"])
 }
 
-func (c *current) onListContinuationElement1203(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1263(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Sidebar, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1203() (interface{}, error) {
+func (p *parser) callonListContinuationElement1263() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1203(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1263(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1311() (interface{}, error) {
+func (c *current) onListContinuationElement1371() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1311() (interface{}, error) {
+func (p *parser) callonListContinuationElement1371() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1311()
+	return p.cur.onListContinuationElement1371()
 }
 
-func (c *current) onListContinuationElement1314() (interface{}, error) {
+func (c *current) onListContinuationElement1374() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1314() (interface{}, error) {
+func (p *parser) callonListContinuationElement1374() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1314()
+	return p.cur.onListContinuationElement1374()
 }
 
-func (c *current) onListContinuationElement1322() (interface{}, error) {
+func (c *current) onListContinuationElement1382() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1322() (interface{}, error) {
+func (p *parser) callonListContinuationElement1382() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1322()
+	return p.cur.onListContinuationElement1382()
 }
 
-func (c *current) onListContinuationElement1300() (interface{}, error) {
+func (c *current) onListContinuationElement1360() (interface{}, error) {
 
 	return types.NewThematicBreak()
 
 }
 
-func (p *parser) callonListContinuationElement1300() (interface{}, error) {
+func (p *parser) callonListContinuationElement1360() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1300()
+	return p.cur.onListContinuationElement1360()
 }
 
-func (c *current) onListContinuationElement1334() (interface{}, error) {
+func (c *current) onListContinuationElement1394() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1334() (interface{}, error) {
+func (p *parser) callonListContinuationElement1394() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1334()
+	return p.cur.onListContinuationElement1394()
 }
 
-func (c *current) onListContinuationElement1337() (interface{}, error) {
+func (c *current) onListContinuationElement1397() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1337() (interface{}, error) {
+func (p *parser) callonListContinuationElement1397() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1337()
+	return p.cur.onListContinuationElement1397()
 }
 
-func (c *current) onListContinuationElement1352() (interface{}, error) {
+func (c *current) onListContinuationElement1412() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1352() (interface{}, error) {
+func (p *parser) callonListContinuationElement1412() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1352()
+	return p.cur.onListContinuationElement1412()
 }
 
-func (c *current) onListContinuationElement1355() (interface{}, error) {
+func (c *current) onListContinuationElement1415() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1355() (interface{}, error) {
+func (p *parser) callonListContinuationElement1415() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1355()
+	return p.cur.onListContinuationElement1415()
 }
 
-func (c *current) onListContinuationElement1347() (interface{}, error) {
+func (c *current) onListContinuationElement1407() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1347() (interface{}, error) {
+func (p *parser) callonListContinuationElement1407() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1347()
+	return p.cur.onListContinuationElement1407()
 }
 
-func (c *current) onListContinuationElement1369() (interface{}, error) {
+func (c *current) onListContinuationElement1429() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1369() (interface{}, error) {
+func (p *parser) callonListContinuationElement1429() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1369()
+	return p.cur.onListContinuationElement1429()
 }
 
-func (c *current) onListContinuationElement1372() (interface{}, error) {
+func (c *current) onListContinuationElement1432() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1372() (interface{}, error) {
+func (p *parser) callonListContinuationElement1432() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1372()
+	return p.cur.onListContinuationElement1432()
 }
 
-func (c *current) onListContinuationElement1394() (interface{}, error) {
+func (c *current) onListContinuationElement1454() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1394() (interface{}, error) {
+func (p *parser) callonListContinuationElement1454() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1394()
+	return p.cur.onListContinuationElement1454()
 }
 
-func (c *current) onListContinuationElement1399() (interface{}, error) {
+func (c *current) onListContinuationElement1459() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1399() (interface{}, error) {
+func (p *parser) callonListContinuationElement1459() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1399()
+	return p.cur.onListContinuationElement1459()
 }
 
-func (c *current) onListContinuationElement1397(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1457(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1397() (interface{}, error) {
+func (p *parser) callonListContinuationElement1457() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1397(stack["content"])
+	return p.cur.onListContinuationElement1457(stack["content"])
 }
 
-func (c *current) onListContinuationElement1390(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1450(content interface{}) (interface{}, error) {
 	return types.NewInlineTableCell(content.(*types.RawLine))
 
 }
 
-func (p *parser) callonListContinuationElement1390() (interface{}, error) {
+func (p *parser) callonListContinuationElement1450() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1390(stack["content"])
+	return p.cur.onListContinuationElement1450(stack["content"])
 }
 
-func (c *current) onListContinuationElement1403() (interface{}, error) {
+func (c *current) onListContinuationElement1463() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1403() (interface{}, error) {
+func (p *parser) callonListContinuationElement1463() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1403()
+	return p.cur.onListContinuationElement1463()
 }
 
-func (c *current) onListContinuationElement1386(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1446(cells interface{}) (interface{}, error) {
 
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1386() (interface{}, error) {
+func (p *parser) callonListContinuationElement1446() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1386(stack["cells"])
+	return p.cur.onListContinuationElement1446(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1420() (interface{}, error) {
+func (c *current) onListContinuationElement1480() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1420() (interface{}, error) {
+func (p *parser) callonListContinuationElement1480() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1420()
+	return p.cur.onListContinuationElement1480()
 }
 
-func (c *current) onListContinuationElement1423() (interface{}, error) {
+func (c *current) onListContinuationElement1483() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1423() (interface{}, error) {
+func (p *parser) callonListContinuationElement1483() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1423()
+	return p.cur.onListContinuationElement1483()
 }
 
-func (c *current) onListContinuationElement1438() (interface{}, error) {
+func (c *current) onListContinuationElement1498() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1438() (interface{}, error) {
+func (p *parser) callonListContinuationElement1498() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1438()
+	return p.cur.onListContinuationElement1498()
 }
 
-func (c *current) onListContinuationElement1441() (interface{}, error) {
+func (c *current) onListContinuationElement1501() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1441() (interface{}, error) {
+func (p *parser) callonListContinuationElement1501() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1441()
+	return p.cur.onListContinuationElement1501()
 }
 
-func (c *current) onListContinuationElement1433() (interface{}, error) {
+func (c *current) onListContinuationElement1493() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1433() (interface{}, error) {
+func (p *parser) callonListContinuationElement1493() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1433()
+	return p.cur.onListContinuationElement1493()
 }
 
-func (c *current) onListContinuationElement1450() (interface{}, error) {
+func (c *current) onListContinuationElement1510() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1450() (interface{}, error) {
+func (p *parser) callonListContinuationElement1510() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1450()
+	return p.cur.onListContinuationElement1510()
 }
 
-func (c *current) onListContinuationElement1455() (interface{}, error) {
+func (c *current) onListContinuationElement1515() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1455() (interface{}, error) {
+func (p *parser) callonListContinuationElement1515() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1455()
+	return p.cur.onListContinuationElement1515()
 }
 
-func (c *current) onListContinuationElement1458() (interface{}, error) {
+func (c *current) onListContinuationElement1518() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1458() (interface{}, error) {
+func (p *parser) callonListContinuationElement1518() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1458()
+	return p.cur.onListContinuationElement1518()
 }
 
-func (c *current) onListContinuationElement1472() (interface{}, error) {
+func (c *current) onListContinuationElement1532() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1472() (interface{}, error) {
+func (p *parser) callonListContinuationElement1532() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1472()
+	return p.cur.onListContinuationElement1532()
 }
 
-func (c *current) onListContinuationElement1475() (interface{}, error) {
+func (c *current) onListContinuationElement1535() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1475() (interface{}, error) {
+func (p *parser) callonListContinuationElement1535() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1475()
+	return p.cur.onListContinuationElement1535()
 }
 
-func (c *current) onListContinuationElement1490() (interface{}, error) {
+func (c *current) onListContinuationElement1550() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1490() (interface{}, error) {
+func (p *parser) callonListContinuationElement1550() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1490()
+	return p.cur.onListContinuationElement1550()
 }
 
-func (c *current) onListContinuationElement1493() (interface{}, error) {
+func (c *current) onListContinuationElement1553() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1493() (interface{}, error) {
+func (p *parser) callonListContinuationElement1553() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1493()
+	return p.cur.onListContinuationElement1553()
 }
 
-func (c *current) onListContinuationElement1485() (interface{}, error) {
+func (c *current) onListContinuationElement1545() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1485() (interface{}, error) {
+func (p *parser) callonListContinuationElement1545() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1485()
+	return p.cur.onListContinuationElement1545()
 }
 
-func (c *current) onListContinuationElement1504() (interface{}, error) {
+func (c *current) onListContinuationElement1564() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1504() (interface{}, error) {
+func (p *parser) callonListContinuationElement1564() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1504()
+	return p.cur.onListContinuationElement1564()
 }
 
-func (c *current) onListContinuationElement1509() (interface{}, error) {
+func (c *current) onListContinuationElement1569() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1509() (interface{}, error) {
+func (p *parser) callonListContinuationElement1569() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1509()
+	return p.cur.onListContinuationElement1569()
 }
 
-func (c *current) onListContinuationElement1514() (interface{}, error) {
+func (c *current) onListContinuationElement1574() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1514() (interface{}, error) {
+func (p *parser) callonListContinuationElement1574() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1514()
+	return p.cur.onListContinuationElement1574()
 }
 
-func (c *current) onListContinuationElement1465(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1525(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1465() (interface{}, error) {
+func (p *parser) callonListContinuationElement1525() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1465(stack["content"])
+	return p.cur.onListContinuationElement1525(stack["content"])
 }
 
-func (c *current) onListContinuationElement1413(format, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1473(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonListContinuationElement1413() (interface{}, error) {
+func (p *parser) callonListContinuationElement1473() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1413(stack["format"], stack["content"])
+	return p.cur.onListContinuationElement1473(stack["format"], stack["content"])
 }
 
-func (c *current) onListContinuationElement1410(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1470(cells interface{}) (interface{}, error) {
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1410() (interface{}, error) {
+func (p *parser) callonListContinuationElement1470() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1410(stack["cells"])
+	return p.cur.onListContinuationElement1470(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1383(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1443(cells interface{}) (interface{}, error) {
 	return types.NewTableRow(cells.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1383() (interface{}, error) {
+func (p *parser) callonListContinuationElement1443() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1383(stack["cells"])
+	return p.cur.onListContinuationElement1443(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1526() (interface{}, error) {
+func (c *current) onListContinuationElement1586() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1526() (interface{}, error) {
+func (p *parser) callonListContinuationElement1586() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1526()
+	return p.cur.onListContinuationElement1586()
 }
 
-func (c *current) onListContinuationElement1529() (interface{}, error) {
+func (c *current) onListContinuationElement1589() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1529() (interface{}, error) {
+func (p *parser) callonListContinuationElement1589() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1529()
+	return p.cur.onListContinuationElement1589()
 }
 
-func (c *current) onListContinuationElement1521() (interface{}, error) {
+func (c *current) onListContinuationElement1581() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1521() (interface{}, error) {
+func (p *parser) callonListContinuationElement1581() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1521()
+	return p.cur.onListContinuationElement1581()
 }
 
-func (c *current) onListContinuationElement1362(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1422(content interface{}) (interface{}, error) {
 	return content, nil
 
 }
 
-func (p *parser) callonListContinuationElement1362() (interface{}, error) {
+func (p *parser) callonListContinuationElement1422() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1362(stack["content"])
+	return p.cur.onListContinuationElement1422(stack["content"])
 }
 
-func (c *current) onListContinuationElement1540() (interface{}, error) {
+func (c *current) onListContinuationElement1600() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1540() (interface{}, error) {
+func (p *parser) callonListContinuationElement1600() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1540()
+	return p.cur.onListContinuationElement1600()
 }
 
-func (c *current) onListContinuationElement1543() (interface{}, error) {
+func (c *current) onListContinuationElement1603() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1543() (interface{}, error) {
+func (p *parser) callonListContinuationElement1603() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1543()
+	return p.cur.onListContinuationElement1603()
 }
 
-func (c *current) onListContinuationElement1330(lines interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1390(lines interface{}) (interface{}, error) {
 	return types.NewTable(lines.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1330() (interface{}, error) {
+func (p *parser) callonListContinuationElement1390() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1330(stack["lines"])
+	return p.cur.onListContinuationElement1390(stack["lines"])
 }
 
-func (c *current) onListContinuationElement1558() (interface{}, error) {
+func (c *current) onListContinuationElement1618() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1558() (interface{}, error) {
+func (p *parser) callonListContinuationElement1618() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1558()
+	return p.cur.onListContinuationElement1618()
 }
 
-func (c *current) onListContinuationElement1562() (interface{}, error) {
+func (c *current) onListContinuationElement1622() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1562() (interface{}, error) {
+func (p *parser) callonListContinuationElement1622() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1562()
+	return p.cur.onListContinuationElement1622()
 }
 
-func (c *current) onListContinuationElement1552(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1612(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1552() (interface{}, error) {
+func (p *parser) callonListContinuationElement1612() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1552(stack["content"])
+	return p.cur.onListContinuationElement1612(stack["content"])
 }
 
-func (c *current) onListContinuationElement1575() (bool, error) {
+func (c *current) onListContinuationElement1635() (bool, error) {
 	return !c.isWithinLiteralParagraph(), nil
 
 }
 
-func (p *parser) callonListContinuationElement1575() (bool, error) {
+func (p *parser) callonListContinuationElement1635() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1575()
+	return p.cur.onListContinuationElement1635()
 }
 
-func (c *current) onListContinuationElement1578() (interface{}, error) {
+func (c *current) onListContinuationElement1638() (interface{}, error) {
 	return types.Tip, nil
 
 }
 
-func (p *parser) callonListContinuationElement1578() (interface{}, error) {
+func (p *parser) callonListContinuationElement1638() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1578()
+	return p.cur.onListContinuationElement1638()
 }
 
-func (c *current) onListContinuationElement1580() (interface{}, error) {
+func (c *current) onListContinuationElement1640() (interface{}, error) {
 	return types.Note, nil
 
 }
 
-func (p *parser) callonListContinuationElement1580() (interface{}, error) {
+func (p *parser) callonListContinuationElement1640() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1580()
+	return p.cur.onListContinuationElement1640()
 }
 
-func (c *current) onListContinuationElement1582() (interface{}, error) {
+func (c *current) onListContinuationElement1642() (interface{}, error) {
 	return types.Important, nil
 
 }
 
-func (p *parser) callonListContinuationElement1582() (interface{}, error) {
+func (p *parser) callonListContinuationElement1642() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1582()
+	return p.cur.onListContinuationElement1642()
 }
 
-func (c *current) onListContinuationElement1584() (interface{}, error) {
+func (c *current) onListContinuationElement1644() (interface{}, error) {
 	return types.Warning, nil
 
 }
 
-func (p *parser) callonListContinuationElement1584() (interface{}, error) {
+func (p *parser) callonListContinuationElement1644() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1584()
+	return p.cur.onListContinuationElement1644()
 }
 
-func (c *current) onListContinuationElement1586() (interface{}, error) {
+func (c *current) onListContinuationElement1646() (interface{}, error) {
 	return types.Caution, nil
 
 }
 
-func (p *parser) callonListContinuationElement1586() (interface{}, error) {
+func (p *parser) callonListContinuationElement1646() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1586()
+	return p.cur.onListContinuationElement1646()
 }
 
-func (c *current) onListContinuationElement1590() (interface{}, error) {
+func (c *current) onListContinuationElement1650() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1590() (interface{}, error) {
+func (p *parser) callonListContinuationElement1650() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1590()
+	return p.cur.onListContinuationElement1650()
 }
 
-func (c *current) onListContinuationElement1588() (interface{}, error) {
+func (c *current) onListContinuationElement1648() (interface{}, error) {
 	// check
 	return types.LiteralParagraph, nil
 
 }
 
-func (p *parser) callonListContinuationElement1588() (interface{}, error) {
+func (p *parser) callonListContinuationElement1648() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1588()
+	return p.cur.onListContinuationElement1648()
 }
 
-func (c *current) onListContinuationElement1573(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1633(style interface{}) (interface{}, error) {
 	return style, nil
 
 }
 
-func (p *parser) callonListContinuationElement1573() (interface{}, error) {
+func (p *parser) callonListContinuationElement1633() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1573(stack["style"])
+	return p.cur.onListContinuationElement1633(stack["style"])
 }
 
-func (c *current) onListContinuationElement1602() (interface{}, error) {
+func (c *current) onListContinuationElement1662() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1602() (interface{}, error) {
+func (p *parser) callonListContinuationElement1662() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1602()
+	return p.cur.onListContinuationElement1662()
 }
 
-func (c *current) onListContinuationElement1605() (interface{}, error) {
+func (c *current) onListContinuationElement1665() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1605() (interface{}, error) {
+func (p *parser) callonListContinuationElement1665() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1605()
+	return p.cur.onListContinuationElement1665()
 }
 
-func (c *current) onListContinuationElement1597() (interface{}, error) {
+func (c *current) onListContinuationElement1657() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1597() (interface{}, error) {
+func (p *parser) callonListContinuationElement1657() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1597()
+	return p.cur.onListContinuationElement1657()
 }
 
-func (c *current) onListContinuationElement1616() (interface{}, error) {
+func (c *current) onListContinuationElement1676() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1616() (interface{}, error) {
+func (p *parser) callonListContinuationElement1676() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1616()
+	return p.cur.onListContinuationElement1676()
 }
 
-func (c *current) onListContinuationElement1618() (interface{}, error) {
+func (c *current) onListContinuationElement1678() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1618() (interface{}, error) {
+func (p *parser) callonListContinuationElement1678() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1618()
+	return p.cur.onListContinuationElement1678()
 }
 
-func (c *current) onListContinuationElement1627() (interface{}, error) {
+func (c *current) onListContinuationElement1687() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1627() (interface{}, error) {
+func (p *parser) callonListContinuationElement1687() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1627()
+	return p.cur.onListContinuationElement1687()
 }
 
-func (c *current) onListContinuationElement1634() (interface{}, error) {
+func (c *current) onListContinuationElement1694() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonListContinuationElement1634() (interface{}, error) {
+func (p *parser) callonListContinuationElement1694() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1634()
+	return p.cur.onListContinuationElement1694()
 }
 
-func (c *current) onListContinuationElement1637(depth interface{}) (bool, error) {
+func (c *current) onListContinuationElement1697(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1637() (bool, error) {
+func (p *parser) callonListContinuationElement1697() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1637(stack["depth"])
+	return p.cur.onListContinuationElement1697(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1631(depth interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1691(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -66897,756 +67711,756 @@ func (c *current) onListContinuationElement1631(depth interface{}) (interface{},
 
 }
 
-func (p *parser) callonListContinuationElement1631() (interface{}, error) {
+func (p *parser) callonListContinuationElement1691() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1631(stack["depth"])
+	return p.cur.onListContinuationElement1691(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1638() (interface{}, error) {
+func (c *current) onListContinuationElement1698() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonListContinuationElement1638() (interface{}, error) {
+func (p *parser) callonListContinuationElement1698() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1638()
+	return p.cur.onListContinuationElement1698()
 }
 
-func (c *current) onListContinuationElement1643() (interface{}, error) {
+func (c *current) onListContinuationElement1703() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1643() (interface{}, error) {
+func (p *parser) callonListContinuationElement1703() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1643()
+	return p.cur.onListContinuationElement1703()
 }
 
-func (c *current) onListContinuationElement1647() (interface{}, error) {
+func (c *current) onListContinuationElement1707() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1647() (interface{}, error) {
+func (p *parser) callonListContinuationElement1707() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1647()
+	return p.cur.onListContinuationElement1707()
 }
 
-func (c *current) onListContinuationElement1651() (interface{}, error) {
+func (c *current) onListContinuationElement1711() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1651() (interface{}, error) {
+func (p *parser) callonListContinuationElement1711() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1651()
+	return p.cur.onListContinuationElement1711()
 }
 
-func (c *current) onListContinuationElement1656() (interface{}, error) {
+func (c *current) onListContinuationElement1716() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1656() (interface{}, error) {
+func (p *parser) callonListContinuationElement1716() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1656()
+	return p.cur.onListContinuationElement1716()
 }
 
-func (c *current) onListContinuationElement1661(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1721(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1661() (interface{}, error) {
+func (p *parser) callonListContinuationElement1721() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1661(stack["prefix"])
+	return p.cur.onListContinuationElement1721(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1624(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1684(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonListContinuationElement1624() (interface{}, error) {
+func (p *parser) callonListContinuationElement1684() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1624(stack["prefix"])
+	return p.cur.onListContinuationElement1684(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1668() (interface{}, error) {
+func (c *current) onListContinuationElement1728() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1668() (interface{}, error) {
+func (p *parser) callonListContinuationElement1728() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1668()
+	return p.cur.onListContinuationElement1728()
 }
 
-func (c *current) onListContinuationElement1671() (interface{}, error) {
+func (c *current) onListContinuationElement1731() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1671() (interface{}, error) {
+func (p *parser) callonListContinuationElement1731() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1671()
+	return p.cur.onListContinuationElement1731()
 }
 
-func (c *current) onListContinuationElement1676(style interface{}) (bool, error) {
+func (c *current) onListContinuationElement1736(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1676() (bool, error) {
+func (p *parser) callonListContinuationElement1736() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1676(stack["style"])
+	return p.cur.onListContinuationElement1736(stack["style"])
 }
 
-func (c *current) onListContinuationElement1677(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1737(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1677() (interface{}, error) {
+func (p *parser) callonListContinuationElement1737() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1677(stack["style"])
+	return p.cur.onListContinuationElement1737(stack["style"])
 }
 
-func (c *current) onListContinuationElement1665(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1725(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1665() (interface{}, error) {
+func (p *parser) callonListContinuationElement1725() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1665(stack["style"])
+	return p.cur.onListContinuationElement1725(stack["style"])
 }
 
-func (c *current) onListContinuationElement1685() (interface{}, error) {
+func (c *current) onListContinuationElement1745() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1685() (interface{}, error) {
+func (p *parser) callonListContinuationElement1745() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1685()
+	return p.cur.onListContinuationElement1745()
 }
 
-func (c *current) onListContinuationElement1689(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1749(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1689() (interface{}, error) {
+func (p *parser) callonListContinuationElement1749() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1689(stack["ref"])
+	return p.cur.onListContinuationElement1749(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1681(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1741(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonListContinuationElement1681() (interface{}, error) {
+func (p *parser) callonListContinuationElement1741() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1681(stack["ref"])
+	return p.cur.onListContinuationElement1741(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1701() (interface{}, error) {
+func (c *current) onListContinuationElement1761() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1701() (interface{}, error) {
+func (p *parser) callonListContinuationElement1761() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1701()
+	return p.cur.onListContinuationElement1761()
 }
 
-func (c *current) onListContinuationElement1704(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1764(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1704() (bool, error) {
+func (p *parser) callonListContinuationElement1764() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1704(stack["separator"])
+	return p.cur.onListContinuationElement1764(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1698(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1758(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1698() (interface{}, error) {
+func (p *parser) callonListContinuationElement1758() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1698(stack["separator"])
+	return p.cur.onListContinuationElement1758(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1707() (interface{}, error) {
+func (c *current) onListContinuationElement1767() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1707() (interface{}, error) {
+func (p *parser) callonListContinuationElement1767() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1707()
+	return p.cur.onListContinuationElement1767()
 }
 
-func (c *current) onListContinuationElement1694() (interface{}, error) {
+func (c *current) onListContinuationElement1754() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonListContinuationElement1694() (interface{}, error) {
+func (p *parser) callonListContinuationElement1754() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1694()
+	return p.cur.onListContinuationElement1754()
 }
 
-func (c *current) onListContinuationElement1718() (interface{}, error) {
+func (c *current) onListContinuationElement1778() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1718() (interface{}, error) {
+func (p *parser) callonListContinuationElement1778() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1718()
+	return p.cur.onListContinuationElement1778()
 }
 
-func (c *current) onListContinuationElement1721(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1781(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1721() (bool, error) {
+func (p *parser) callonListContinuationElement1781() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1721(stack["separator"])
+	return p.cur.onListContinuationElement1781(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1715(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1775(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1715() (interface{}, error) {
+func (p *parser) callonListContinuationElement1775() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1715(stack["separator"])
+	return p.cur.onListContinuationElement1775(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1732() (interface{}, error) {
+func (c *current) onListContinuationElement1792() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1732() (interface{}, error) {
+func (p *parser) callonListContinuationElement1792() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1732()
+	return p.cur.onListContinuationElement1792()
 }
 
-func (c *current) onListContinuationElement1738() (interface{}, error) {
+func (c *current) onListContinuationElement1798() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1738() (interface{}, error) {
+func (p *parser) callonListContinuationElement1798() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1738()
+	return p.cur.onListContinuationElement1798()
 }
 
-func (c *current) onListContinuationElement1741() (interface{}, error) {
+func (c *current) onListContinuationElement1801() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1741() (interface{}, error) {
+func (p *parser) callonListContinuationElement1801() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1741()
+	return p.cur.onListContinuationElement1801()
 }
 
-func (c *current) onListContinuationElement1729(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1789(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1729() (interface{}, error) {
+func (p *parser) callonListContinuationElement1789() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1729(stack["delimiter"])
+	return p.cur.onListContinuationElement1789(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1751() (interface{}, error) {
+func (c *current) onListContinuationElement1811() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1751() (interface{}, error) {
+func (p *parser) callonListContinuationElement1811() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1751()
+	return p.cur.onListContinuationElement1811()
 }
 
-func (c *current) onListContinuationElement1757() (interface{}, error) {
+func (c *current) onListContinuationElement1817() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1757() (interface{}, error) {
+func (p *parser) callonListContinuationElement1817() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1757()
+	return p.cur.onListContinuationElement1817()
 }
 
-func (c *current) onListContinuationElement1760() (interface{}, error) {
+func (c *current) onListContinuationElement1820() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1760() (interface{}, error) {
+func (p *parser) callonListContinuationElement1820() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1760()
+	return p.cur.onListContinuationElement1820()
 }
 
-func (c *current) onListContinuationElement1748(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1808(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1748() (interface{}, error) {
+func (p *parser) callonListContinuationElement1808() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1748(stack["delimiter"])
+	return p.cur.onListContinuationElement1808(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1771() (interface{}, error) {
+func (c *current) onListContinuationElement1831() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1771() (interface{}, error) {
+func (p *parser) callonListContinuationElement1831() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1771()
+	return p.cur.onListContinuationElement1831()
 }
 
-func (c *current) onListContinuationElement1775() (interface{}, error) {
+func (c *current) onListContinuationElement1835() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1775() (interface{}, error) {
+func (p *parser) callonListContinuationElement1835() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1775()
+	return p.cur.onListContinuationElement1835()
 }
 
-func (c *current) onListContinuationElement1778() (interface{}, error) {
+func (c *current) onListContinuationElement1838() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1778() (interface{}, error) {
+func (p *parser) callonListContinuationElement1838() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1778()
+	return p.cur.onListContinuationElement1838()
 }
 
-func (c *current) onListContinuationElement1767(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1827(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1767() (interface{}, error) {
+func (p *parser) callonListContinuationElement1827() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1767(stack["language"])
+	return p.cur.onListContinuationElement1827(stack["language"])
 }
 
-func (c *current) onListContinuationElement1788() (interface{}, error) {
+func (c *current) onListContinuationElement1848() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1788() (interface{}, error) {
+func (p *parser) callonListContinuationElement1848() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1788()
+	return p.cur.onListContinuationElement1848()
 }
 
-func (c *current) onListContinuationElement1794() (interface{}, error) {
+func (c *current) onListContinuationElement1854() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1794() (interface{}, error) {
+func (p *parser) callonListContinuationElement1854() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1794()
+	return p.cur.onListContinuationElement1854()
 }
 
-func (c *current) onListContinuationElement1797() (interface{}, error) {
+func (c *current) onListContinuationElement1857() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1797() (interface{}, error) {
+func (p *parser) callonListContinuationElement1857() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1797()
+	return p.cur.onListContinuationElement1857()
 }
 
-func (c *current) onListContinuationElement1785(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1845(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1785() (interface{}, error) {
+func (p *parser) callonListContinuationElement1845() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1785(stack["delimiter"])
+	return p.cur.onListContinuationElement1845(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1807() (interface{}, error) {
+func (c *current) onListContinuationElement1867() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1807() (interface{}, error) {
+func (p *parser) callonListContinuationElement1867() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1807()
+	return p.cur.onListContinuationElement1867()
 }
 
-func (c *current) onListContinuationElement1813() (interface{}, error) {
+func (c *current) onListContinuationElement1873() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1813() (interface{}, error) {
+func (p *parser) callonListContinuationElement1873() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1813()
+	return p.cur.onListContinuationElement1873()
 }
 
-func (c *current) onListContinuationElement1816() (interface{}, error) {
+func (c *current) onListContinuationElement1876() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1816() (interface{}, error) {
+func (p *parser) callonListContinuationElement1876() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1816()
+	return p.cur.onListContinuationElement1876()
 }
 
-func (c *current) onListContinuationElement1804(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1864(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1804() (interface{}, error) {
+func (p *parser) callonListContinuationElement1864() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1804(stack["delimiter"])
+	return p.cur.onListContinuationElement1864(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1826() (interface{}, error) {
+func (c *current) onListContinuationElement1886() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1826() (interface{}, error) {
+func (p *parser) callonListContinuationElement1886() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1826()
+	return p.cur.onListContinuationElement1886()
 }
 
-func (c *current) onListContinuationElement1832() (interface{}, error) {
+func (c *current) onListContinuationElement1892() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1832() (interface{}, error) {
+func (p *parser) callonListContinuationElement1892() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1832()
+	return p.cur.onListContinuationElement1892()
 }
 
-func (c *current) onListContinuationElement1835() (interface{}, error) {
+func (c *current) onListContinuationElement1895() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1835() (interface{}, error) {
+func (p *parser) callonListContinuationElement1895() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1835()
+	return p.cur.onListContinuationElement1895()
 }
 
-func (c *current) onListContinuationElement1823(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1883(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1823() (interface{}, error) {
+func (p *parser) callonListContinuationElement1883() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1823(stack["delimiter"])
+	return p.cur.onListContinuationElement1883(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1845() (interface{}, error) {
+func (c *current) onListContinuationElement1905() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1845() (interface{}, error) {
+func (p *parser) callonListContinuationElement1905() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1845()
+	return p.cur.onListContinuationElement1905()
 }
 
-func (c *current) onListContinuationElement1851() (interface{}, error) {
+func (c *current) onListContinuationElement1911() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1851() (interface{}, error) {
+func (p *parser) callonListContinuationElement1911() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1851()
+	return p.cur.onListContinuationElement1911()
 }
 
-func (c *current) onListContinuationElement1854() (interface{}, error) {
+func (c *current) onListContinuationElement1914() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1854() (interface{}, error) {
+func (p *parser) callonListContinuationElement1914() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1854()
+	return p.cur.onListContinuationElement1914()
 }
 
-func (c *current) onListContinuationElement1842(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1902(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1842() (interface{}, error) {
+func (p *parser) callonListContinuationElement1902() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1842(stack["delimiter"])
+	return p.cur.onListContinuationElement1902(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1864() (interface{}, error) {
+func (c *current) onListContinuationElement1924() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1864() (interface{}, error) {
+func (p *parser) callonListContinuationElement1924() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1864()
+	return p.cur.onListContinuationElement1924()
 }
 
-func (c *current) onListContinuationElement1870() (interface{}, error) {
+func (c *current) onListContinuationElement1930() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1870() (interface{}, error) {
+func (p *parser) callonListContinuationElement1930() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1870()
+	return p.cur.onListContinuationElement1930()
 }
 
-func (c *current) onListContinuationElement1873() (interface{}, error) {
+func (c *current) onListContinuationElement1933() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1873() (interface{}, error) {
+func (p *parser) callonListContinuationElement1933() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1873()
+	return p.cur.onListContinuationElement1933()
 }
 
-func (c *current) onListContinuationElement1861(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1921(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1861() (interface{}, error) {
+func (p *parser) callonListContinuationElement1921() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1861(stack["delimiter"])
+	return p.cur.onListContinuationElement1921(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1883() (interface{}, error) {
+func (c *current) onListContinuationElement1943() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1883() (interface{}, error) {
+func (p *parser) callonListContinuationElement1943() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1883()
+	return p.cur.onListContinuationElement1943()
 }
 
-func (c *current) onListContinuationElement1889() (interface{}, error) {
+func (c *current) onListContinuationElement1949() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1889() (interface{}, error) {
+func (p *parser) callonListContinuationElement1949() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1889()
+	return p.cur.onListContinuationElement1949()
 }
 
-func (c *current) onListContinuationElement1892() (interface{}, error) {
+func (c *current) onListContinuationElement1952() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1892() (interface{}, error) {
+func (p *parser) callonListContinuationElement1952() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1892()
+	return p.cur.onListContinuationElement1952()
 }
 
-func (c *current) onListContinuationElement1880(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1940(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1880() (interface{}, error) {
+func (p *parser) callonListContinuationElement1940() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1880(stack["delimiter"])
+	return p.cur.onListContinuationElement1940(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1723(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1783(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1723() (interface{}, error) {
+func (p *parser) callonListContinuationElement1783() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1723(stack["delimiter"])
+	return p.cur.onListContinuationElement1783(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1900() (interface{}, error) {
+func (c *current) onListContinuationElement1960() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1900() (interface{}, error) {
+func (p *parser) callonListContinuationElement1960() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1900()
+	return p.cur.onListContinuationElement1960()
 }
 
-func (c *current) onListContinuationElement1904() (interface{}, error) {
+func (c *current) onListContinuationElement1964() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1904() (interface{}, error) {
+func (p *parser) callonListContinuationElement1964() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1904()
+	return p.cur.onListContinuationElement1964()
 }
 
-func (c *current) onListContinuationElement1594(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1654(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1594() (interface{}, error) {
+func (p *parser) callonListContinuationElement1654() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1594(stack["content"])
+	return p.cur.onListContinuationElement1654(stack["content"])
 }
 
-func (c *current) onListContinuationElement1569(style, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1629(style, content interface{}) (interface{}, error) {
 	return types.NewParagraph(style, content)
 
 }
 
-func (p *parser) callonListContinuationElement1569() (interface{}, error) {
+func (p *parser) callonListContinuationElement1629() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1569(stack["style"], stack["content"])
+	return p.cur.onListContinuationElement1629(stack["style"], stack["content"])
 }
 
 func (c *current) onListContinuationElement1(attributes, element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 442ec2d..146f87c 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -980,8 +980,8 @@ MarkdownCodeBlockContent <-
 // Markdown Quote Blocks
 // ----------------------
 MarkdownQuoteBlock <- 
-    firstLine:(MarkdownQuoteRawLine)
-    otherLines:(MarkdownQuoteRawLine / ParagraphRawLine)* 
+    firstLine:(MarkdownQuoteSinglelineComment / MarkdownQuoteRawLine)
+    otherLines:(SinglelineComment / MarkdownQuoteSinglelineComment / MarkdownQuoteRawLine / ParagraphRawLine)* 
     {
         return types.NewDelimitedBlock(types.MarkdownQuote, append([]interface{}{firstLine}, otherLines.([]interface{})...))
     }
@@ -993,6 +993,10 @@ MarkdownQuoteRawLine <-
         return types.NewRawLine(content.(string))
     }
 
+MarkdownQuoteSinglelineComment <- "> " comment:(SinglelineComment) {
+        return comment, nil
+    }
+
 MarkdownQuoteAttribution <- 
     "-- " author:(ManyChars) EOL {
         return author, nil
-- 
2.43.0


From 555067b0874ba38bd53fd67f99d1e2284c3478e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:34 +0000
Subject: [PATCH 055/108] fix: ignore comments within table cells

the comment lines of cells with multiple lines were rendered
---
 pkg/parser/parser.go  | 9624 ++++++++++++++++++++++-------------------
 pkg/parser/parser.peg |    4 +-
 2 files changed, 5058 insertions(+), 4570 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 00b1769..0d0bd73 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90641},
+														pos: position{line: 2864, col: 10, offset: 90683},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90641},
+															pos:        position{line: 2864, col: 10, offset: 90683},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91039},
+													pos: position{line: 2886, col: 8, offset: 91081},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90812},
+															pos: position{line: 2873, col: 12, offset: 90854},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90813},
+																pos: position{line: 2873, col: 13, offset: 90855},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90813},
+																		pos:        position{line: 2873, col: 13, offset: 90855},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90820},
+																		pos:        position{line: 2873, col: 20, offset: 90862},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90829},
+																		pos:        position{line: 2873, col: 29, offset: 90871},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 90989},
+															pos: position{line: 2883, col: 8, offset: 91031},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 90990,
+																line: 2883, col: 9, offset: 91032,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90641},
+														pos: position{line: 2864, col: 10, offset: 90683},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90641},
+															pos:        position{line: 2864, col: 10, offset: 90683},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91039},
+													pos: position{line: 2886, col: 8, offset: 91081},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90812},
+															pos: position{line: 2873, col: 12, offset: 90854},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90813},
+																pos: position{line: 2873, col: 13, offset: 90855},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90813},
+																		pos:        position{line: 2873, col: 13, offset: 90855},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90820},
+																		pos:        position{line: 2873, col: 20, offset: 90862},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90829},
+																		pos:        position{line: 2873, col: 29, offset: 90871},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 90989},
+															pos: position{line: 2883, col: 8, offset: 91031},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 90990,
+																line: 2883, col: 9, offset: 91032,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90641},
+														pos: position{line: 2864, col: 10, offset: 90683},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90641},
+															pos:        position{line: 2864, col: 10, offset: 90683},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2883, col: 8, offset: 90989},
+													pos: position{line: 2883, col: 8, offset: 91031},
 													expr: &anyMatcher{
-														line: 2883, col: 9, offset: 90990,
+														line: 2883, col: 9, offset: 91032,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90641},
+														pos: position{line: 2864, col: 10, offset: 90683},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90641},
+															pos:        position{line: 2864, col: 10, offset: 90683},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2883, col: 8, offset: 90989},
+													pos: position{line: 2883, col: 8, offset: 91031},
 													expr: &anyMatcher{
-														line: 2883, col: 9, offset: 90990,
+														line: 2883, col: 9, offset: 91032,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2856, col: 12, offset: 90468},
+																pos: position{line: 2856, col: 12, offset: 90510},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2856, col: 13, offset: 90469},
+																	pos: position{line: 2856, col: 13, offset: 90511},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2856, col: 13, offset: 90469},
+																			pos: position{line: 2856, col: 13, offset: 90511},
 																			expr: &litMatcher{
-																				pos:        position{line: 2856, col: 13, offset: 90469},
+																				pos:        position{line: 2856, col: 13, offset: 90511},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2856, col: 18, offset: 90474},
+																			pos: position{line: 2856, col: 18, offset: 90516},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2856, col: 18, offset: 90474},
+																				pos:        position{line: 2856, col: 18, offset: 90516},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90641},
+														pos: position{line: 2864, col: 10, offset: 90683},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90641},
+															pos:        position{line: 2864, col: 10, offset: 90683},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90641},
+														pos: position{line: 2864, col: 10, offset: 90683},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90641},
+															pos:        position{line: 2864, col: 10, offset: 90683},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2856, col: 12, offset: 90468},
+																pos: position{line: 2856, col: 12, offset: 90510},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2856, col: 13, offset: 90469},
+																	pos: position{line: 2856, col: 13, offset: 90511},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2856, col: 13, offset: 90469},
+																			pos: position{line: 2856, col: 13, offset: 90511},
 																			expr: &litMatcher{
-																				pos:        position{line: 2856, col: 13, offset: 90469},
+																				pos:        position{line: 2856, col: 13, offset: 90511},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2856, col: 18, offset: 90474},
+																			pos: position{line: 2856, col: 18, offset: 90516},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2856, col: 18, offset: 90474},
+																				pos:        position{line: 2856, col: 18, offset: 90516},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90641},
+														pos: position{line: 2864, col: 10, offset: 90683},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90641},
+															pos:        position{line: 2864, col: 10, offset: 90683},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2883, col: 8, offset: 90989},
+													pos: position{line: 2883, col: 8, offset: 91031},
 													expr: &anyMatcher{
-														line: 2883, col: 9, offset: 90990,
+														line: 2883, col: 9, offset: 91032,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90641},
+														pos: position{line: 2864, col: 10, offset: 90683},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90641},
+															pos:        position{line: 2864, col: 10, offset: 90683},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2883, col: 8, offset: 90989},
+													pos: position{line: 2883, col: 8, offset: 91031},
 													expr: &anyMatcher{
-														line: 2883, col: 9, offset: 90990,
+														line: 2883, col: 9, offset: 91032,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 724, col: 5, offset: 23042},
 													expr: &charClassMatcher{
-														pos:        position{line: 2754, col: 13, offset: 87736},
+														pos:        position{line: 2754, col: 13, offset: 87778},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90641},
+																				pos: position{line: 2864, col: 10, offset: 90683},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90641},
+																					pos:        position{line: 2864, col: 10, offset: 90683},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91039},
+																			pos: position{line: 2886, col: 8, offset: 91081},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90812},
+																					pos: position{line: 2873, col: 12, offset: 90854},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90813},
+																						pos: position{line: 2873, col: 13, offset: 90855},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90813},
+																								pos:        position{line: 2873, col: 13, offset: 90855},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90820},
+																								pos:        position{line: 2873, col: 20, offset: 90862},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90829},
+																								pos:        position{line: 2873, col: 29, offset: 90871},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 749, col: 8, offset: 23934},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90641},
+																				pos: position{line: 2864, col: 10, offset: 90683},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90641},
+																					pos:        position{line: 2864, col: 10, offset: 90683},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91039},
+																			pos: position{line: 2886, col: 8, offset: 91081},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90812},
+																					pos: position{line: 2873, col: 12, offset: 90854},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90813},
+																						pos: position{line: 2873, col: 13, offset: 90855},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90813},
+																								pos:        position{line: 2873, col: 13, offset: 90855},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90820},
+																								pos:        position{line: 2873, col: 20, offset: 90862},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90829},
+																								pos:        position{line: 2873, col: 29, offset: 90871},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 760, col: 52, offset: 24346},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90641},
+																				pos: position{line: 2864, col: 10, offset: 90683},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90641},
+																					pos:        position{line: 2864, col: 10, offset: 90683},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91039},
+																			pos: position{line: 2886, col: 8, offset: 91081},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90812},
+																					pos: position{line: 2873, col: 12, offset: 90854},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90813},
+																						pos: position{line: 2873, col: 13, offset: 90855},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90813},
+																								pos:        position{line: 2873, col: 13, offset: 90855},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90820},
+																								pos:        position{line: 2873, col: 20, offset: 90862},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90829},
+																								pos:        position{line: 2873, col: 29, offset: 90871},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 756, col: 8, offset: 24180},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90641},
+																				pos: position{line: 2864, col: 10, offset: 90683},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90641},
+																					pos:        position{line: 2864, col: 10, offset: 90683},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91039},
+																			pos: position{line: 2886, col: 8, offset: 91081},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90812},
+																					pos: position{line: 2873, col: 12, offset: 90854},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90813},
+																						pos: position{line: 2873, col: 13, offset: 90855},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90813},
+																								pos:        position{line: 2873, col: 13, offset: 90855},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90820},
+																								pos:        position{line: 2873, col: 20, offset: 90862},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90829},
+																								pos:        position{line: 2873, col: 29, offset: 90871},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 771, col: 8, offset: 24718},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90641},
+																				pos: position{line: 2864, col: 10, offset: 90683},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90641},
+																					pos:        position{line: 2864, col: 10, offset: 90683},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91039},
+																			pos: position{line: 2886, col: 8, offset: 91081},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90812},
+																					pos: position{line: 2873, col: 12, offset: 90854},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90813},
+																						pos: position{line: 2873, col: 13, offset: 90855},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90813},
+																								pos:        position{line: 2873, col: 13, offset: 90855},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90820},
+																								pos:        position{line: 2873, col: 20, offset: 90862},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90829},
+																								pos:        position{line: 2873, col: 29, offset: 90871},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 785, col: 8, offset: 25194},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90641},
+																				pos: position{line: 2864, col: 10, offset: 90683},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90641},
+																					pos:        position{line: 2864, col: 10, offset: 90683},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91039},
+																			pos: position{line: 2886, col: 8, offset: 91081},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90812},
+																					pos: position{line: 2873, col: 12, offset: 90854},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90813},
+																						pos: position{line: 2873, col: 13, offset: 90855},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90813},
+																								pos:        position{line: 2873, col: 13, offset: 90855},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90820},
+																								pos:        position{line: 2873, col: 20, offset: 90862},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90829},
+																								pos:        position{line: 2873, col: 29, offset: 90871},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 792, col: 8, offset: 25446},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90641},
+																				pos: position{line: 2864, col: 10, offset: 90683},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90641},
+																					pos:        position{line: 2864, col: 10, offset: 90683},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91039},
+																			pos: position{line: 2886, col: 8, offset: 91081},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90812},
+																					pos: position{line: 2873, col: 12, offset: 90854},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90813},
+																						pos: position{line: 2873, col: 13, offset: 90855},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90813},
+																								pos:        position{line: 2873, col: 13, offset: 90855},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90820},
+																								pos:        position{line: 2873, col: 20, offset: 90862},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90829},
+																								pos:        position{line: 2873, col: 29, offset: 90871},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 799, col: 8, offset: 25696},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90641},
+																				pos: position{line: 2864, col: 10, offset: 90683},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90641},
+																					pos:        position{line: 2864, col: 10, offset: 90683},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91039},
+																			pos: position{line: 2886, col: 8, offset: 91081},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90812},
+																					pos: position{line: 2873, col: 12, offset: 90854},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90813},
+																						pos: position{line: 2873, col: 13, offset: 90855},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90813},
+																								pos:        position{line: 2873, col: 13, offset: 90855},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90820},
+																								pos:        position{line: 2873, col: 20, offset: 90862},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90829},
+																								pos:        position{line: 2873, col: 29, offset: 90871},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 806, col: 8, offset: 25942},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90641},
+																				pos: position{line: 2864, col: 10, offset: 90683},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90641},
+																					pos:        position{line: 2864, col: 10, offset: 90683},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91039},
+																			pos: position{line: 2886, col: 8, offset: 91081},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90812},
+																					pos: position{line: 2873, col: 12, offset: 90854},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90813},
+																						pos: position{line: 2873, col: 13, offset: 90855},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90813},
+																								pos:        position{line: 2873, col: 13, offset: 90855},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90820},
+																								pos:        position{line: 2873, col: 20, offset: 90862},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90829},
+																								pos:        position{line: 2873, col: 29, offset: 90871},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2868, col: 11, offset: 90702},
+													pos: position{line: 2868, col: 11, offset: 90744},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2868, col: 11, offset: 90702},
+														pos: position{line: 2868, col: 11, offset: 90744},
 														expr: &charClassMatcher{
-															pos:        position{line: 2868, col: 11, offset: 90702},
+															pos:        position{line: 2868, col: 11, offset: 90744},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2814, col: 14, offset: 89234},
+													pos: position{line: 2814, col: 14, offset: 89276},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2814, col: 14, offset: 89234},
+														pos: position{line: 2814, col: 14, offset: 89276},
 														expr: &charClassMatcher{
-															pos:        position{line: 2814, col: 14, offset: 89234},
+															pos:        position{line: 2814, col: 14, offset: 89276},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2883, col: 8, offset: 90989},
+													pos: position{line: 2883, col: 8, offset: 91031},
 													expr: &anyMatcher{
-														line: 2883, col: 9, offset: 90990,
+														line: 2883, col: 9, offset: 91032,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2883, col: 8, offset: 90989},
+							pos: position{line: 2883, col: 8, offset: 91031},
 							expr: &anyMatcher{
-								line: 2883, col: 9, offset: 90990,
+								line: 2883, col: 9, offset: 91032,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2818, col: 17, offset: 89304},
+												pos: position{line: 2818, col: 17, offset: 89346},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2818, col: 17, offset: 89304},
+													pos:   position{line: 2818, col: 17, offset: 89346},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2835, col: 5, offset: 89758},
+														pos: position{line: 2835, col: 5, offset: 89800},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2835, col: 5, offset: 89758},
+															pos:   position{line: 2835, col: 5, offset: 89800},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2835, col: 14, offset: 89767},
+																pos: position{line: 2835, col: 14, offset: 89809},
 																expr: &choiceExpr{
-																	pos: position{line: 2836, col: 9, offset: 89777},
+																	pos: position{line: 2836, col: 9, offset: 89819},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2836, col: 9, offset: 89777},
+																			pos: position{line: 2836, col: 9, offset: 89819},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2836, col: 9, offset: 89777},
+																				pos: position{line: 2836, col: 9, offset: 89819},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2836, col: 9, offset: 89777},
+																						pos: position{line: 2836, col: 9, offset: 89819},
 																						expr: &litMatcher{
-																							pos:        position{line: 2836, col: 10, offset: 89778},
+																							pos:        position{line: 2836, col: 10, offset: 89820},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2837, col: 9, offset: 89806},
+																						pos: position{line: 2837, col: 9, offset: 89848},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2837, col: 10, offset: 89807},
+																							pos:        position{line: 2837, col: 10, offset: 89849},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2840, col: 11, offset: 90019},
+																			pos: position{line: 2840, col: 11, offset: 90061},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2840, col: 11, offset: 90019},
+																					pos:        position{line: 2840, col: 11, offset: 90061},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2840, col: 19, offset: 90027},
+																					pos: position{line: 2840, col: 19, offset: 90069},
 																					expr: &seqExpr{
-																						pos: position{line: 2840, col: 21, offset: 90029},
+																						pos: position{line: 2840, col: 21, offset: 90071},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2840, col: 21, offset: 90029},
+																								pos: position{line: 2840, col: 21, offset: 90071},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90641},
+																									pos: position{line: 2864, col: 10, offset: 90683},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90641},
+																										pos:        position{line: 2864, col: 10, offset: 90683},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2840, col: 28, offset: 90036},
+																								pos: position{line: 2840, col: 28, offset: 90078},
 																								expr: &notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2843, col: 11, offset: 90156},
+																			pos: position{line: 2843, col: 11, offset: 90198},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2843, col: 11, offset: 90156},
+																				pos:        position{line: 2843, col: 11, offset: 90198},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90641},
+								pos: position{line: 2864, col: 10, offset: 90683},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90641},
+									pos:        position{line: 2864, col: 10, offset: 90683},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2886, col: 8, offset: 91039},
+							pos: position{line: 2886, col: 8, offset: 91081},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2873, col: 12, offset: 90812},
+									pos: position{line: 2873, col: 12, offset: 90854},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2873, col: 13, offset: 90813},
+										pos: position{line: 2873, col: 13, offset: 90855},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2873, col: 13, offset: 90813},
+												pos:        position{line: 2873, col: 13, offset: 90855},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 20, offset: 90820},
+												pos:        position{line: 2873, col: 20, offset: 90862},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 29, offset: 90829},
+												pos:        position{line: 2873, col: 29, offset: 90871},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2883, col: 8, offset: 90989},
+									pos: position{line: 2883, col: 8, offset: 91031},
 									expr: &anyMatcher{
-										line: 2883, col: 9, offset: 90990,
+										line: 2883, col: 9, offset: 91032,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2856, col: 12, offset: 90468},
+																				pos: position{line: 2856, col: 12, offset: 90510},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2856, col: 13, offset: 90469},
+																					pos: position{line: 2856, col: 13, offset: 90511},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2856, col: 13, offset: 90469},
+																							pos: position{line: 2856, col: 13, offset: 90511},
 																							expr: &litMatcher{
-																								pos:        position{line: 2856, col: 13, offset: 90469},
+																								pos:        position{line: 2856, col: 13, offset: 90511},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2856, col: 18, offset: 90474},
+																							pos: position{line: 2856, col: 18, offset: 90516},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2856, col: 18, offset: 90474},
+																								pos:        position{line: 2856, col: 18, offset: 90516},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2856, col: 12, offset: 90468},
+																				pos: position{line: 2856, col: 12, offset: 90510},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2856, col: 13, offset: 90469},
+																					pos: position{line: 2856, col: 13, offset: 90511},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2856, col: 13, offset: 90469},
+																							pos: position{line: 2856, col: 13, offset: 90511},
 																							expr: &litMatcher{
-																								pos:        position{line: 2856, col: 13, offset: 90469},
+																								pos:        position{line: 2856, col: 13, offset: 90511},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2856, col: 18, offset: 90474},
+																							pos: position{line: 2856, col: 18, offset: 90516},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2856, col: 18, offset: 90474},
+																								pos:        position{line: 2856, col: 18, offset: 90516},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2856, col: 12, offset: 90468},
+																		pos: position{line: 2856, col: 12, offset: 90510},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2856, col: 13, offset: 90469},
+																			pos: position{line: 2856, col: 13, offset: 90511},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2856, col: 13, offset: 90469},
+																					pos: position{line: 2856, col: 13, offset: 90511},
 																					expr: &litMatcher{
-																						pos:        position{line: 2856, col: 13, offset: 90469},
+																						pos:        position{line: 2856, col: 13, offset: 90511},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2856, col: 18, offset: 90474},
+																					pos: position{line: 2856, col: 18, offset: 90516},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2856, col: 18, offset: 90474},
+																						pos:        position{line: 2856, col: 18, offset: 90516},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2856, col: 12, offset: 90468},
+																									pos: position{line: 2856, col: 12, offset: 90510},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2856, col: 13, offset: 90469},
+																										pos: position{line: 2856, col: 13, offset: 90511},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2856, col: 13, offset: 90469},
+																												pos: position{line: 2856, col: 13, offset: 90511},
 																												expr: &litMatcher{
-																													pos:        position{line: 2856, col: 13, offset: 90469},
+																													pos:        position{line: 2856, col: 13, offset: 90511},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2856, col: 18, offset: 90474},
+																												pos: position{line: 2856, col: 18, offset: 90516},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2856, col: 18, offset: 90474},
+																													pos:        position{line: 2856, col: 18, offset: 90516},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2856, col: 12, offset: 90468},
+																									pos: position{line: 2856, col: 12, offset: 90510},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2856, col: 13, offset: 90469},
+																										pos: position{line: 2856, col: 13, offset: 90511},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2856, col: 13, offset: 90469},
+																												pos: position{line: 2856, col: 13, offset: 90511},
 																												expr: &litMatcher{
-																													pos:        position{line: 2856, col: 13, offset: 90469},
+																													pos:        position{line: 2856, col: 13, offset: 90511},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2856, col: 18, offset: 90474},
+																												pos: position{line: 2856, col: 18, offset: 90516},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2856, col: 18, offset: 90474},
+																													pos:        position{line: 2856, col: 18, offset: 90516},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2856, col: 12, offset: 90468},
+																							pos: position{line: 2856, col: 12, offset: 90510},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2856, col: 13, offset: 90469},
+																								pos: position{line: 2856, col: 13, offset: 90511},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2856, col: 13, offset: 90469},
+																										pos: position{line: 2856, col: 13, offset: 90511},
 																										expr: &litMatcher{
-																											pos:        position{line: 2856, col: 13, offset: 90469},
+																											pos:        position{line: 2856, col: 13, offset: 90511},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2856, col: 18, offset: 90474},
+																										pos: position{line: 2856, col: 18, offset: 90516},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2856, col: 18, offset: 90474},
+																											pos:        position{line: 2856, col: 18, offset: 90516},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2856, col: 12, offset: 90468},
+														pos: position{line: 2856, col: 12, offset: 90510},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2856, col: 13, offset: 90469},
+															pos: position{line: 2856, col: 13, offset: 90511},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2856, col: 13, offset: 90469},
+																	pos: position{line: 2856, col: 13, offset: 90511},
 																	expr: &litMatcher{
-																		pos:        position{line: 2856, col: 13, offset: 90469},
+																		pos:        position{line: 2856, col: 13, offset: 90511},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2856, col: 18, offset: 90474},
+																	pos: position{line: 2856, col: 18, offset: 90516},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2856, col: 18, offset: 90474},
+																		pos:        position{line: 2856, col: 18, offset: 90516},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2856, col: 12, offset: 90468},
+														pos: position{line: 2856, col: 12, offset: 90510},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2856, col: 13, offset: 90469},
+															pos: position{line: 2856, col: 13, offset: 90511},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2856, col: 13, offset: 90469},
+																	pos: position{line: 2856, col: 13, offset: 90511},
 																	expr: &litMatcher{
-																		pos:        position{line: 2856, col: 13, offset: 90469},
+																		pos:        position{line: 2856, col: 13, offset: 90511},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2856, col: 18, offset: 90474},
+																	pos: position{line: 2856, col: 18, offset: 90516},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2856, col: 18, offset: 90474},
+																		pos:        position{line: 2856, col: 18, offset: 90516},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2856, col: 12, offset: 90468},
+												pos: position{line: 2856, col: 12, offset: 90510},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2856, col: 13, offset: 90469},
+													pos: position{line: 2856, col: 13, offset: 90511},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2856, col: 13, offset: 90469},
+															pos: position{line: 2856, col: 13, offset: 90511},
 															expr: &litMatcher{
-																pos:        position{line: 2856, col: 13, offset: 90469},
+																pos:        position{line: 2856, col: 13, offset: 90511},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2856, col: 18, offset: 90474},
+															pos: position{line: 2856, col: 18, offset: 90516},
 															expr: &charClassMatcher{
-																pos:        position{line: 2856, col: 18, offset: 90474},
+																pos:        position{line: 2856, col: 18, offset: 90516},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2883, col: 8, offset: 90989},
+							pos: position{line: 2883, col: 8, offset: 91031},
 							expr: &anyMatcher{
-								line: 2883, col: 9, offset: 90990,
+								line: 2883, col: 9, offset: 91032,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2758, col: 14, offset: 87810},
+																		pos: position{line: 2758, col: 14, offset: 87852},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2758, col: 14, offset: 87810},
+																			pos: position{line: 2758, col: 14, offset: 87852},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2758, col: 14, offset: 87810},
+																				pos:        position{line: 2758, col: 14, offset: 87852},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2758, col: 14, offset: 87810},
+																				pos: position{line: 2758, col: 14, offset: 87852},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2758, col: 14, offset: 87810},
+																					pos: position{line: 2758, col: 14, offset: 87852},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2758, col: 14, offset: 87810},
+																						pos:        position{line: 2758, col: 14, offset: 87852},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2758, col: 14, offset: 87810},
+																							pos: position{line: 2758, col: 14, offset: 87852},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2758, col: 14, offset: 87810},
+																								pos: position{line: 2758, col: 14, offset: 87852},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2758, col: 14, offset: 87810},
+																									pos:        position{line: 2758, col: 14, offset: 87852},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2758, col: 14, offset: 87810},
+																									pos: position{line: 2758, col: 14, offset: 87852},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2758, col: 14, offset: 87810},
+																										pos: position{line: 2758, col: 14, offset: 87852},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2758, col: 14, offset: 87810},
+																											pos:        position{line: 2758, col: 14, offset: 87852},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2883, col: 8, offset: 90989},
+							pos: position{line: 2883, col: 8, offset: 91031},
 							expr: &anyMatcher{
-								line: 2883, col: 9, offset: 90990,
+								line: 2883, col: 9, offset: 91032,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2758, col: 14, offset: 87810},
+																pos: position{line: 2758, col: 14, offset: 87852},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2758, col: 14, offset: 87810},
+																	pos: position{line: 2758, col: 14, offset: 87852},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2758, col: 14, offset: 87810},
+																		pos:        position{line: 2758, col: 14, offset: 87852},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2758, col: 14, offset: 87810},
+																pos: position{line: 2758, col: 14, offset: 87852},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2758, col: 14, offset: 87810},
+																	pos: position{line: 2758, col: 14, offset: 87852},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2758, col: 14, offset: 87810},
+																		pos:        position{line: 2758, col: 14, offset: 87852},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2886, col: 8, offset: 91039},
+							pos: position{line: 2886, col: 8, offset: 91081},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2873, col: 12, offset: 90812},
+									pos: position{line: 2873, col: 12, offset: 90854},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2873, col: 13, offset: 90813},
+										pos: position{line: 2873, col: 13, offset: 90855},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2873, col: 13, offset: 90813},
+												pos:        position{line: 2873, col: 13, offset: 90855},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 20, offset: 90820},
+												pos:        position{line: 2873, col: 20, offset: 90862},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 29, offset: 90829},
+												pos:        position{line: 2873, col: 29, offset: 90871},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2883, col: 8, offset: 90989},
+									pos: position{line: 2883, col: 8, offset: 91031},
 									expr: &anyMatcher{
-										line: 2883, col: 9, offset: 90990,
+										line: 2883, col: 9, offset: 91032,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2881, col: 11, offset: 90975},
+							pos: position{line: 2881, col: 11, offset: 91017},
 							expr: &anyMatcher{
-								line: 2881, col: 13, offset: 90977,
+								line: 2881, col: 13, offset: 91019,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2864, col: 10, offset: 90641},
+															pos: position{line: 2864, col: 10, offset: 90683},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2864, col: 10, offset: 90641},
+																pos:        position{line: 2864, col: 10, offset: 90683},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2886, col: 8, offset: 91039},
+														pos: position{line: 2886, col: 8, offset: 91081},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90812},
+																pos: position{line: 2873, col: 12, offset: 90854},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90813},
+																	pos: position{line: 2873, col: 13, offset: 90855},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90813},
+																			pos:        position{line: 2873, col: 13, offset: 90855},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90820},
+																			pos:        position{line: 2873, col: 20, offset: 90862},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90829},
+																			pos:        position{line: 2873, col: 29, offset: 90871},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 90989},
+																pos: position{line: 2883, col: 8, offset: 91031},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 90990,
+																	line: 2883, col: 9, offset: 91032,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2864, col: 10, offset: 90641},
+															pos: position{line: 2864, col: 10, offset: 90683},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2864, col: 10, offset: 90641},
+																pos:        position{line: 2864, col: 10, offset: 90683},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2886, col: 8, offset: 91039},
+														pos: position{line: 2886, col: 8, offset: 91081},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90812},
+																pos: position{line: 2873, col: 12, offset: 90854},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90813},
+																	pos: position{line: 2873, col: 13, offset: 90855},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90813},
+																			pos:        position{line: 2873, col: 13, offset: 90855},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90820},
+																			pos:        position{line: 2873, col: 20, offset: 90862},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90829},
+																			pos:        position{line: 2873, col: 29, offset: 90871},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 90989},
+																pos: position{line: 2883, col: 8, offset: 91031},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 90990,
+																	line: 2883, col: 9, offset: 91032,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 677, col: 14, offset: 21489},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2881, col: 11, offset: 90975},
+														pos: position{line: 2881, col: 11, offset: 91017},
 														expr: &anyMatcher{
-															line: 2881, col: 13, offset: 90977,
+															line: 2881, col: 13, offset: 91019,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 677, col: 21, offset: 21496},
 														expr: &actionExpr{
-															pos: position{line: 2864, col: 10, offset: 90641},
+															pos: position{line: 2864, col: 10, offset: 90683},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2864, col: 10, offset: 90641},
+																pos:        position{line: 2864, col: 10, offset: 90683},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2886, col: 8, offset: 91039},
+														pos: position{line: 2886, col: 8, offset: 91081},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90812},
+																pos: position{line: 2873, col: 12, offset: 90854},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90813},
+																	pos: position{line: 2873, col: 13, offset: 90855},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90813},
+																			pos:        position{line: 2873, col: 13, offset: 90855},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90820},
+																			pos:        position{line: 2873, col: 20, offset: 90862},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90829},
+																			pos:        position{line: 2873, col: 29, offset: 90871},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 90989},
+																pos: position{line: 2883, col: 8, offset: 91031},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 90990,
+																	line: 2883, col: 9, offset: 91032,
 																},
 															},
 														},
@@ -4456,10 +4456,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 742, col: 8, offset: 23686},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90641},
+																			pos: position{line: 2864, col: 10, offset: 90683},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90641},
+																				pos:        position{line: 2864, col: 10, offset: 90683},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91039},
+																		pos: position{line: 2886, col: 8, offset: 91081},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90812},
+																				pos: position{line: 2873, col: 12, offset: 90854},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90813},
+																					pos: position{line: 2873, col: 13, offset: 90855},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90813},
+																							pos:        position{line: 2873, col: 13, offset: 90855},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90820},
+																							pos:        position{line: 2873, col: 20, offset: 90862},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90829},
+																							pos:        position{line: 2873, col: 29, offset: 90871},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 90989},
+																				pos: position{line: 2883, col: 8, offset: 91031},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 90990,
+																					line: 2883, col: 9, offset: 91032,
 																				},
 																			},
 																		},
@@ -4572,10 +4572,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 742, col: 8, offset: 23686},
 																												expr: &actionExpr{
-																													pos: position{line: 2864, col: 10, offset: 90641},
+																													pos: position{line: 2864, col: 10, offset: 90683},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2864, col: 10, offset: 90641},
+																														pos:        position{line: 2864, col: 10, offset: 90683},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2886, col: 8, offset: 91039},
+																												pos: position{line: 2886, col: 8, offset: 91081},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2873, col: 12, offset: 90812},
+																														pos: position{line: 2873, col: 12, offset: 90854},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2873, col: 13, offset: 90813},
+																															pos: position{line: 2873, col: 13, offset: 90855},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 13, offset: 90813},
+																																	pos:        position{line: 2873, col: 13, offset: 90855},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 20, offset: 90820},
+																																	pos:        position{line: 2873, col: 20, offset: 90862},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 29, offset: 90829},
+																																	pos:        position{line: 2873, col: 29, offset: 90871},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2883, col: 8, offset: 90989},
+																														pos: position{line: 2883, col: 8, offset: 91031},
 																														expr: &anyMatcher{
-																															line: 2883, col: 9, offset: 90990,
+																															line: 2883, col: 9, offset: 91032,
 																														},
 																													},
 																												},
@@ -4632,9 +4632,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 90989},
+																						pos: position{line: 2883, col: 8, offset: 91031},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 90990,
+																							line: 2883, col: 9, offset: 91032,
 																						},
 																					},
 																				},
@@ -4650,21 +4650,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 90975},
+																							pos: position{line: 2881, col: 11, offset: 91017},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 90977,
+																								line: 2881, col: 13, offset: 91019,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2810, col: 13, offset: 89167},
+																								pos: position{line: 2810, col: 13, offset: 89209},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2810, col: 13, offset: 89167},
+																									pos: position{line: 2810, col: 13, offset: 89209},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2810, col: 13, offset: 89167},
+																										pos:        position{line: 2810, col: 13, offset: 89209},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -4771,10 +4771,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90641},
+																									pos: position{line: 2864, col: 10, offset: 90683},
 																									run: (*parser).callonDocumentFragment159,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90641},
+																										pos:        position{line: 2864, col: 10, offset: 90683},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -4783,28 +4783,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91039},
+																								pos: position{line: 2886, col: 8, offset: 91081},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90812},
+																										pos: position{line: 2873, col: 12, offset: 90854},
 																										run: (*parser).callonDocumentFragment162,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90813},
+																											pos: position{line: 2873, col: 13, offset: 90855},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90813},
+																													pos:        position{line: 2873, col: 13, offset: 90855},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90820},
+																													pos:        position{line: 2873, col: 20, offset: 90862},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90829},
+																													pos:        position{line: 2873, col: 29, offset: 90871},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -4813,9 +4813,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 90989},
+																										pos: position{line: 2883, col: 8, offset: 91031},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 90990,
+																											line: 2883, col: 9, offset: 91032,
 																										},
 																									},
 																								},
@@ -4831,9 +4831,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 90989},
+																		pos: position{line: 2883, col: 8, offset: 91031},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 90990,
+																			line: 2883, col: 9, offset: 91032,
 																		},
 																	},
 																},
@@ -4889,10 +4889,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 749, col: 8, offset: 23934},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90641},
+																			pos: position{line: 2864, col: 10, offset: 90683},
 																			run: (*parser).callonDocumentFragment184,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90641},
+																				pos:        position{line: 2864, col: 10, offset: 90683},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4901,28 +4901,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91039},
+																		pos: position{line: 2886, col: 8, offset: 91081},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90812},
+																				pos: position{line: 2873, col: 12, offset: 90854},
 																				run: (*parser).callonDocumentFragment187,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90813},
+																					pos: position{line: 2873, col: 13, offset: 90855},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90813},
+																							pos:        position{line: 2873, col: 13, offset: 90855},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90820},
+																							pos:        position{line: 2873, col: 20, offset: 90862},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90829},
+																							pos:        position{line: 2873, col: 29, offset: 90871},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4931,9 +4931,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 90989},
+																				pos: position{line: 2883, col: 8, offset: 91031},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 90990,
+																					line: 2883, col: 9, offset: 91032,
 																				},
 																			},
 																		},
@@ -5005,10 +5005,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 749, col: 8, offset: 23934},
 																												expr: &actionExpr{
-																													pos: position{line: 2864, col: 10, offset: 90641},
+																													pos: position{line: 2864, col: 10, offset: 90683},
 																													run: (*parser).callonDocumentFragment212,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2864, col: 10, offset: 90641},
+																														pos:        position{line: 2864, col: 10, offset: 90683},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5017,28 +5017,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2886, col: 8, offset: 91039},
+																												pos: position{line: 2886, col: 8, offset: 91081},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2873, col: 12, offset: 90812},
+																														pos: position{line: 2873, col: 12, offset: 90854},
 																														run: (*parser).callonDocumentFragment215,
 																														expr: &choiceExpr{
-																															pos: position{line: 2873, col: 13, offset: 90813},
+																															pos: position{line: 2873, col: 13, offset: 90855},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 13, offset: 90813},
+																																	pos:        position{line: 2873, col: 13, offset: 90855},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 20, offset: 90820},
+																																	pos:        position{line: 2873, col: 20, offset: 90862},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 29, offset: 90829},
+																																	pos:        position{line: 2873, col: 29, offset: 90871},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5047,9 +5047,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2883, col: 8, offset: 90989},
+																														pos: position{line: 2883, col: 8, offset: 91031},
 																														expr: &anyMatcher{
-																															line: 2883, col: 9, offset: 90990,
+																															line: 2883, col: 9, offset: 91032,
 																														},
 																													},
 																												},
@@ -5065,9 +5065,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 90989},
+																						pos: position{line: 2883, col: 8, offset: 91031},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 90990,
+																							line: 2883, col: 9, offset: 91032,
 																						},
 																					},
 																				},
@@ -5083,21 +5083,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 90975},
+																							pos: position{line: 2881, col: 11, offset: 91017},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 90977,
+																								line: 2881, col: 13, offset: 91019,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2810, col: 13, offset: 89167},
+																								pos: position{line: 2810, col: 13, offset: 89209},
 																								run: (*parser).callonDocumentFragment231,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2810, col: 13, offset: 89167},
+																									pos: position{line: 2810, col: 13, offset: 89209},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2810, col: 13, offset: 89167},
+																										pos:        position{line: 2810, col: 13, offset: 89209},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5107,28 +5107,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonDocumentFragment235,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5137,9 +5137,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -5204,10 +5204,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 749, col: 8, offset: 23934},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90641},
+																									pos: position{line: 2864, col: 10, offset: 90683},
 																									run: (*parser).callonDocumentFragment256,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90641},
+																										pos:        position{line: 2864, col: 10, offset: 90683},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5216,28 +5216,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91039},
+																								pos: position{line: 2886, col: 8, offset: 91081},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90812},
+																										pos: position{line: 2873, col: 12, offset: 90854},
 																										run: (*parser).callonDocumentFragment259,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90813},
+																											pos: position{line: 2873, col: 13, offset: 90855},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90813},
+																													pos:        position{line: 2873, col: 13, offset: 90855},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90820},
+																													pos:        position{line: 2873, col: 20, offset: 90862},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90829},
+																													pos:        position{line: 2873, col: 29, offset: 90871},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5246,9 +5246,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 90989},
+																										pos: position{line: 2883, col: 8, offset: 91031},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 90990,
+																											line: 2883, col: 9, offset: 91032,
 																										},
 																									},
 																								},
@@ -5264,9 +5264,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 90989},
+																		pos: position{line: 2883, col: 8, offset: 91031},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 90990,
+																			line: 2883, col: 9, offset: 91032,
 																		},
 																	},
 																},
@@ -5318,10 +5318,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 760, col: 52, offset: 24346},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90641},
+																			pos: position{line: 2864, col: 10, offset: 90683},
 																			run: (*parser).callonDocumentFragment280,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90641},
+																				pos:        position{line: 2864, col: 10, offset: 90683},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5330,28 +5330,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91039},
+																		pos: position{line: 2886, col: 8, offset: 91081},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90812},
+																				pos: position{line: 2873, col: 12, offset: 90854},
 																				run: (*parser).callonDocumentFragment283,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90813},
+																					pos: position{line: 2873, col: 13, offset: 90855},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90813},
+																							pos:        position{line: 2873, col: 13, offset: 90855},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90820},
+																							pos:        position{line: 2873, col: 20, offset: 90862},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90829},
+																							pos:        position{line: 2873, col: 29, offset: 90871},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5360,9 +5360,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 90989},
+																				pos: position{line: 2883, col: 8, offset: 91031},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 90990,
+																					line: 2883, col: 9, offset: 91032,
 																				},
 																			},
 																		},
@@ -5396,10 +5396,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 971, col: 40, offset: 30361},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90641},
+																							pos: position{line: 2864, col: 10, offset: 90683},
 																							run: (*parser).callonDocumentFragment298,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90641},
+																								pos:        position{line: 2864, col: 10, offset: 90683},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5408,28 +5408,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91039},
+																						pos: position{line: 2886, col: 8, offset: 91081},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90812},
+																								pos: position{line: 2873, col: 12, offset: 90854},
 																								run: (*parser).callonDocumentFragment301,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90813},
+																									pos: position{line: 2873, col: 13, offset: 90855},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90813},
+																											pos:        position{line: 2873, col: 13, offset: 90855},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90820},
+																											pos:        position{line: 2873, col: 20, offset: 90862},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90829},
+																											pos:        position{line: 2873, col: 29, offset: 90871},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5438,9 +5438,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 90989},
+																								pos: position{line: 2883, col: 8, offset: 91031},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 90990,
+																									line: 2883, col: 9, offset: 91032,
 																								},
 																							},
 																						},
@@ -5458,21 +5458,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 90975},
+																							pos: position{line: 2881, col: 11, offset: 91017},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 90977,
+																								line: 2881, col: 13, offset: 91019,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2810, col: 13, offset: 89167},
+																								pos: position{line: 2810, col: 13, offset: 89209},
 																								run: (*parser).callonDocumentFragment314,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2810, col: 13, offset: 89167},
+																									pos: position{line: 2810, col: 13, offset: 89209},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2810, col: 13, offset: 89167},
+																										pos:        position{line: 2810, col: 13, offset: 89209},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5482,28 +5482,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonDocumentFragment318,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5512,9 +5512,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -5542,10 +5542,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 971, col: 40, offset: 30361},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90641},
+																		pos: position{line: 2864, col: 10, offset: 90683},
 																		run: (*parser).callonDocumentFragment329,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90641},
+																			pos:        position{line: 2864, col: 10, offset: 90683},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5554,28 +5554,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
+																			pos: position{line: 2873, col: 12, offset: 90854},
 																			run: (*parser).callonDocumentFragment332,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5584,9 +5584,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -5643,10 +5643,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 756, col: 8, offset: 24180},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90641},
+																			pos: position{line: 2864, col: 10, offset: 90683},
 																			run: (*parser).callonDocumentFragment351,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90641},
+																				pos:        position{line: 2864, col: 10, offset: 90683},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5655,28 +5655,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91039},
+																		pos: position{line: 2886, col: 8, offset: 91081},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90812},
+																				pos: position{line: 2873, col: 12, offset: 90854},
 																				run: (*parser).callonDocumentFragment354,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90813},
+																					pos: position{line: 2873, col: 13, offset: 90855},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90813},
+																							pos:        position{line: 2873, col: 13, offset: 90855},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90820},
+																							pos:        position{line: 2873, col: 20, offset: 90862},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90829},
+																							pos:        position{line: 2873, col: 29, offset: 90871},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5685,9 +5685,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 90989},
+																				pos: position{line: 2883, col: 8, offset: 91031},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 90990,
+																					line: 2883, col: 9, offset: 91032,
 																				},
 																			},
 																		},
@@ -5759,10 +5759,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 756, col: 8, offset: 24180},
 																												expr: &actionExpr{
-																													pos: position{line: 2864, col: 10, offset: 90641},
+																													pos: position{line: 2864, col: 10, offset: 90683},
 																													run: (*parser).callonDocumentFragment379,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2864, col: 10, offset: 90641},
+																														pos:        position{line: 2864, col: 10, offset: 90683},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5771,28 +5771,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2886, col: 8, offset: 91039},
+																												pos: position{line: 2886, col: 8, offset: 91081},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2873, col: 12, offset: 90812},
+																														pos: position{line: 2873, col: 12, offset: 90854},
 																														run: (*parser).callonDocumentFragment382,
 																														expr: &choiceExpr{
-																															pos: position{line: 2873, col: 13, offset: 90813},
+																															pos: position{line: 2873, col: 13, offset: 90855},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 13, offset: 90813},
+																																	pos:        position{line: 2873, col: 13, offset: 90855},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 20, offset: 90820},
+																																	pos:        position{line: 2873, col: 20, offset: 90862},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 29, offset: 90829},
+																																	pos:        position{line: 2873, col: 29, offset: 90871},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5801,9 +5801,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2883, col: 8, offset: 90989},
+																														pos: position{line: 2883, col: 8, offset: 91031},
 																														expr: &anyMatcher{
-																															line: 2883, col: 9, offset: 90990,
+																															line: 2883, col: 9, offset: 91032,
 																														},
 																													},
 																												},
@@ -5819,9 +5819,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 90989},
+																						pos: position{line: 2883, col: 8, offset: 91031},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 90990,
+																							line: 2883, col: 9, offset: 91032,
 																						},
 																					},
 																				},
@@ -5837,21 +5837,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 90975},
+																							pos: position{line: 2881, col: 11, offset: 91017},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 90977,
+																								line: 2881, col: 13, offset: 91019,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2810, col: 13, offset: 89167},
+																								pos: position{line: 2810, col: 13, offset: 89209},
 																								run: (*parser).callonDocumentFragment398,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2810, col: 13, offset: 89167},
+																									pos: position{line: 2810, col: 13, offset: 89209},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2810, col: 13, offset: 89167},
+																										pos:        position{line: 2810, col: 13, offset: 89209},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5861,28 +5861,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonDocumentFragment402,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5891,9 +5891,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -5958,10 +5958,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 756, col: 8, offset: 24180},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90641},
+																									pos: position{line: 2864, col: 10, offset: 90683},
 																									run: (*parser).callonDocumentFragment423,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90641},
+																										pos:        position{line: 2864, col: 10, offset: 90683},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5970,28 +5970,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91039},
+																								pos: position{line: 2886, col: 8, offset: 91081},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90812},
+																										pos: position{line: 2873, col: 12, offset: 90854},
 																										run: (*parser).callonDocumentFragment426,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90813},
+																											pos: position{line: 2873, col: 13, offset: 90855},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90813},
+																													pos:        position{line: 2873, col: 13, offset: 90855},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90820},
+																													pos:        position{line: 2873, col: 20, offset: 90862},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90829},
+																													pos:        position{line: 2873, col: 29, offset: 90871},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6000,9 +6000,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 90989},
+																										pos: position{line: 2883, col: 8, offset: 91031},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 90990,
+																											line: 2883, col: 9, offset: 91032,
 																										},
 																									},
 																								},
@@ -6018,9 +6018,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 90989},
+																		pos: position{line: 2883, col: 8, offset: 91031},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 90990,
+																			line: 2883, col: 9, offset: 91032,
 																		},
 																	},
 																},
@@ -6076,10 +6076,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 771, col: 8, offset: 24718},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90641},
+																			pos: position{line: 2864, col: 10, offset: 90683},
 																			run: (*parser).callonDocumentFragment448,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90641},
+																				pos:        position{line: 2864, col: 10, offset: 90683},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6088,28 +6088,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91039},
+																		pos: position{line: 2886, col: 8, offset: 91081},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90812},
+																				pos: position{line: 2873, col: 12, offset: 90854},
 																				run: (*parser).callonDocumentFragment451,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90813},
+																					pos: position{line: 2873, col: 13, offset: 90855},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90813},
+																							pos:        position{line: 2873, col: 13, offset: 90855},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90820},
+																							pos:        position{line: 2873, col: 20, offset: 90862},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90829},
+																							pos:        position{line: 2873, col: 29, offset: 90871},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6118,9 +6118,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 90989},
+																				pos: position{line: 2883, col: 8, offset: 91031},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 90990,
+																					line: 2883, col: 9, offset: 91032,
 																				},
 																			},
 																		},
@@ -6192,10 +6192,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 771, col: 8, offset: 24718},
 																												expr: &actionExpr{
-																													pos: position{line: 2864, col: 10, offset: 90641},
+																													pos: position{line: 2864, col: 10, offset: 90683},
 																													run: (*parser).callonDocumentFragment476,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2864, col: 10, offset: 90641},
+																														pos:        position{line: 2864, col: 10, offset: 90683},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6204,28 +6204,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2886, col: 8, offset: 91039},
+																												pos: position{line: 2886, col: 8, offset: 91081},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2873, col: 12, offset: 90812},
+																														pos: position{line: 2873, col: 12, offset: 90854},
 																														run: (*parser).callonDocumentFragment479,
 																														expr: &choiceExpr{
-																															pos: position{line: 2873, col: 13, offset: 90813},
+																															pos: position{line: 2873, col: 13, offset: 90855},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 13, offset: 90813},
+																																	pos:        position{line: 2873, col: 13, offset: 90855},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 20, offset: 90820},
+																																	pos:        position{line: 2873, col: 20, offset: 90862},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 29, offset: 90829},
+																																	pos:        position{line: 2873, col: 29, offset: 90871},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6234,9 +6234,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2883, col: 8, offset: 90989},
+																														pos: position{line: 2883, col: 8, offset: 91031},
 																														expr: &anyMatcher{
-																															line: 2883, col: 9, offset: 90990,
+																															line: 2883, col: 9, offset: 91032,
 																														},
 																													},
 																												},
@@ -6252,9 +6252,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 90989},
+																						pos: position{line: 2883, col: 8, offset: 91031},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 90990,
+																							line: 2883, col: 9, offset: 91032,
 																						},
 																					},
 																				},
@@ -6270,21 +6270,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 90975},
+																							pos: position{line: 2881, col: 11, offset: 91017},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 90977,
+																								line: 2881, col: 13, offset: 91019,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2810, col: 13, offset: 89167},
+																								pos: position{line: 2810, col: 13, offset: 89209},
 																								run: (*parser).callonDocumentFragment495,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2810, col: 13, offset: 89167},
+																									pos: position{line: 2810, col: 13, offset: 89209},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2810, col: 13, offset: 89167},
+																										pos:        position{line: 2810, col: 13, offset: 89209},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6294,28 +6294,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonDocumentFragment499,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6324,9 +6324,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -6391,10 +6391,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 771, col: 8, offset: 24718},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90641},
+																									pos: position{line: 2864, col: 10, offset: 90683},
 																									run: (*parser).callonDocumentFragment520,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90641},
+																										pos:        position{line: 2864, col: 10, offset: 90683},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6403,28 +6403,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91039},
+																								pos: position{line: 2886, col: 8, offset: 91081},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90812},
+																										pos: position{line: 2873, col: 12, offset: 90854},
 																										run: (*parser).callonDocumentFragment523,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90813},
+																											pos: position{line: 2873, col: 13, offset: 90855},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90813},
+																													pos:        position{line: 2873, col: 13, offset: 90855},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90820},
+																													pos:        position{line: 2873, col: 20, offset: 90862},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90829},
+																													pos:        position{line: 2873, col: 29, offset: 90871},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6433,9 +6433,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 90989},
+																										pos: position{line: 2883, col: 8, offset: 91031},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 90990,
+																											line: 2883, col: 9, offset: 91032,
 																										},
 																									},
 																								},
@@ -6451,9 +6451,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 90989},
+																		pos: position{line: 2883, col: 8, offset: 91031},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 90990,
+																			line: 2883, col: 9, offset: 91032,
 																		},
 																	},
 																},
@@ -6509,10 +6509,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 8, offset: 25194},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90641},
+																			pos: position{line: 2864, col: 10, offset: 90683},
 																			run: (*parser).callonDocumentFragment545,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90641},
+																				pos:        position{line: 2864, col: 10, offset: 90683},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6521,28 +6521,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91039},
+																		pos: position{line: 2886, col: 8, offset: 91081},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90812},
+																				pos: position{line: 2873, col: 12, offset: 90854},
 																				run: (*parser).callonDocumentFragment548,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90813},
+																					pos: position{line: 2873, col: 13, offset: 90855},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90813},
+																							pos:        position{line: 2873, col: 13, offset: 90855},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90820},
+																							pos:        position{line: 2873, col: 20, offset: 90862},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90829},
+																							pos:        position{line: 2873, col: 29, offset: 90871},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6551,9 +6551,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 90989},
+																				pos: position{line: 2883, col: 8, offset: 91031},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 90990,
+																					line: 2883, col: 9, offset: 91032,
 																				},
 																			},
 																		},
@@ -6625,10 +6625,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 785, col: 8, offset: 25194},
 																												expr: &actionExpr{
-																													pos: position{line: 2864, col: 10, offset: 90641},
+																													pos: position{line: 2864, col: 10, offset: 90683},
 																													run: (*parser).callonDocumentFragment573,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2864, col: 10, offset: 90641},
+																														pos:        position{line: 2864, col: 10, offset: 90683},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6637,28 +6637,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2886, col: 8, offset: 91039},
+																												pos: position{line: 2886, col: 8, offset: 91081},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2873, col: 12, offset: 90812},
+																														pos: position{line: 2873, col: 12, offset: 90854},
 																														run: (*parser).callonDocumentFragment576,
 																														expr: &choiceExpr{
-																															pos: position{line: 2873, col: 13, offset: 90813},
+																															pos: position{line: 2873, col: 13, offset: 90855},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 13, offset: 90813},
+																																	pos:        position{line: 2873, col: 13, offset: 90855},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 20, offset: 90820},
+																																	pos:        position{line: 2873, col: 20, offset: 90862},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 29, offset: 90829},
+																																	pos:        position{line: 2873, col: 29, offset: 90871},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6667,9 +6667,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2883, col: 8, offset: 90989},
+																														pos: position{line: 2883, col: 8, offset: 91031},
 																														expr: &anyMatcher{
-																															line: 2883, col: 9, offset: 90990,
+																															line: 2883, col: 9, offset: 91032,
 																														},
 																													},
 																												},
@@ -6685,9 +6685,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 90989},
+																						pos: position{line: 2883, col: 8, offset: 91031},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 90990,
+																							line: 2883, col: 9, offset: 91032,
 																						},
 																					},
 																				},
@@ -6703,21 +6703,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 90975},
+																							pos: position{line: 2881, col: 11, offset: 91017},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 90977,
+																								line: 2881, col: 13, offset: 91019,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2810, col: 13, offset: 89167},
+																								pos: position{line: 2810, col: 13, offset: 89209},
 																								run: (*parser).callonDocumentFragment592,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2810, col: 13, offset: 89167},
+																									pos: position{line: 2810, col: 13, offset: 89209},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2810, col: 13, offset: 89167},
+																										pos:        position{line: 2810, col: 13, offset: 89209},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6727,28 +6727,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonDocumentFragment596,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6757,9 +6757,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -6824,10 +6824,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 785, col: 8, offset: 25194},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90641},
+																									pos: position{line: 2864, col: 10, offset: 90683},
 																									run: (*parser).callonDocumentFragment617,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90641},
+																										pos:        position{line: 2864, col: 10, offset: 90683},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6836,28 +6836,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91039},
+																								pos: position{line: 2886, col: 8, offset: 91081},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90812},
+																										pos: position{line: 2873, col: 12, offset: 90854},
 																										run: (*parser).callonDocumentFragment620,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90813},
+																											pos: position{line: 2873, col: 13, offset: 90855},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90813},
+																													pos:        position{line: 2873, col: 13, offset: 90855},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90820},
+																													pos:        position{line: 2873, col: 20, offset: 90862},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90829},
+																													pos:        position{line: 2873, col: 29, offset: 90871},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6866,9 +6866,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 90989},
+																										pos: position{line: 2883, col: 8, offset: 91031},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 90990,
+																											line: 2883, col: 9, offset: 91032,
 																										},
 																									},
 																								},
@@ -6884,9 +6884,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 90989},
+																		pos: position{line: 2883, col: 8, offset: 91031},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 90990,
+																			line: 2883, col: 9, offset: 91032,
 																		},
 																	},
 																},
@@ -6948,12 +6948,12 @@ var g = &grammar{
 																								pos:   position{line: 2474, col: 49, offset: 79653},
 																								label: "content",
 																								expr: &actionExpr{
-																									pos: position{line: 2810, col: 13, offset: 89167},
+																									pos: position{line: 2810, col: 13, offset: 89209},
 																									run: (*parser).callonDocumentFragment644,
 																									expr: &zeroOrMoreExpr{
-																										pos: position{line: 2810, col: 13, offset: 89167},
+																										pos: position{line: 2810, col: 13, offset: 89209},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2810, col: 13, offset: 89167},
+																											pos:        position{line: 2810, col: 13, offset: 89209},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -6963,28 +6963,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91039},
+																								pos: position{line: 2886, col: 8, offset: 91081},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90812},
+																										pos: position{line: 2873, col: 12, offset: 90854},
 																										run: (*parser).callonDocumentFragment648,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90813},
+																											pos: position{line: 2873, col: 13, offset: 90855},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90813},
+																													pos:        position{line: 2873, col: 13, offset: 90855},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90820},
+																													pos:        position{line: 2873, col: 20, offset: 90862},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90829},
+																													pos:        position{line: 2873, col: 29, offset: 90871},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6993,9 +6993,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 90989},
+																										pos: position{line: 2883, col: 8, offset: 91031},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 90990,
+																											line: 2883, col: 9, offset: 91032,
 																										},
 																									},
 																								},
@@ -7022,18 +7022,18 @@ var g = &grammar{
 																						pos: position{line: 677, col: 14, offset: 21489},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2881, col: 11, offset: 90975},
+																								pos: position{line: 2881, col: 11, offset: 91017},
 																								expr: &anyMatcher{
-																									line: 2881, col: 13, offset: 90977,
+																									line: 2881, col: 13, offset: 91019,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21496},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90641},
+																									pos: position{line: 2864, col: 10, offset: 90683},
 																									run: (*parser).callonDocumentFragment663,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90641},
+																										pos:        position{line: 2864, col: 10, offset: 90683},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7042,28 +7042,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91039},
+																								pos: position{line: 2886, col: 8, offset: 91081},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90812},
+																										pos: position{line: 2873, col: 12, offset: 90854},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90813},
+																											pos: position{line: 2873, col: 13, offset: 90855},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90813},
+																													pos:        position{line: 2873, col: 13, offset: 90855},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90820},
+																													pos:        position{line: 2873, col: 20, offset: 90862},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90829},
+																													pos:        position{line: 2873, col: 29, offset: 90871},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7072,9 +7072,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 90989},
+																										pos: position{line: 2883, col: 8, offset: 91031},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 90990,
+																											line: 2883, col: 9, offset: 91032,
 																										},
 																									},
 																								},
@@ -7093,12 +7093,12 @@ var g = &grammar{
 																				pos:   position{line: 992, col: 5, offset: 30982},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2814, col: 14, offset: 89234},
+																					pos: position{line: 2814, col: 14, offset: 89276},
 																					run: (*parser).callonDocumentFragment675,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2814, col: 14, offset: 89234},
+																						pos: position{line: 2814, col: 14, offset: 89276},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2814, col: 14, offset: 89234},
+																							pos:        position{line: 2814, col: 14, offset: 89276},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -7108,28 +7108,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2886, col: 8, offset: 91039},
+																				pos: position{line: 2886, col: 8, offset: 91081},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2873, col: 12, offset: 90812},
+																						pos: position{line: 2873, col: 12, offset: 90854},
 																						run: (*parser).callonDocumentFragment679,
 																						expr: &choiceExpr{
-																							pos: position{line: 2873, col: 13, offset: 90813},
+																							pos: position{line: 2873, col: 13, offset: 90855},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 13, offset: 90813},
+																									pos:        position{line: 2873, col: 13, offset: 90855},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 20, offset: 90820},
+																									pos:        position{line: 2873, col: 20, offset: 90862},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 29, offset: 90829},
+																									pos:        position{line: 2873, col: 29, offset: 90871},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -7138,9 +7138,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 90989},
+																						pos: position{line: 2883, col: 8, offset: 91031},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 90990,
+																							line: 2883, col: 9, offset: 91032,
 																						},
 																					},
 																				},
@@ -7184,12 +7184,12 @@ var g = &grammar{
 																					pos:   position{line: 2474, col: 49, offset: 79653},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2810, col: 13, offset: 89167},
+																						pos: position{line: 2810, col: 13, offset: 89209},
 																						run: (*parser).callonDocumentFragment695,
 																						expr: &zeroOrMoreExpr{
-																							pos: position{line: 2810, col: 13, offset: 89167},
+																							pos: position{line: 2810, col: 13, offset: 89209},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2810, col: 13, offset: 89167},
+																								pos:        position{line: 2810, col: 13, offset: 89209},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7199,28 +7199,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2886, col: 8, offset: 91039},
+																					pos: position{line: 2886, col: 8, offset: 91081},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2873, col: 12, offset: 90812},
+																							pos: position{line: 2873, col: 12, offset: 90854},
 																							run: (*parser).callonDocumentFragment699,
 																							expr: &choiceExpr{
-																								pos: position{line: 2873, col: 13, offset: 90813},
+																								pos: position{line: 2873, col: 13, offset: 90855},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 13, offset: 90813},
+																										pos:        position{line: 2873, col: 13, offset: 90855},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 20, offset: 90820},
+																										pos:        position{line: 2873, col: 20, offset: 90862},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 29, offset: 90829},
+																										pos:        position{line: 2873, col: 29, offset: 90871},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7229,9 +7229,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2883, col: 8, offset: 90989},
+																							pos: position{line: 2883, col: 8, offset: 91031},
 																							expr: &anyMatcher{
-																								line: 2883, col: 9, offset: 90990,
+																								line: 2883, col: 9, offset: 91032,
 																							},
 																						},
 																					},
@@ -7279,12 +7279,12 @@ var g = &grammar{
 																									pos:   position{line: 2474, col: 49, offset: 79653},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 2810, col: 13, offset: 89167},
+																										pos: position{line: 2810, col: 13, offset: 89209},
 																										run: (*parser).callonDocumentFragment716,
 																										expr: &zeroOrMoreExpr{
-																											pos: position{line: 2810, col: 13, offset: 89167},
+																											pos: position{line: 2810, col: 13, offset: 89209},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2810, col: 13, offset: 89167},
+																												pos:        position{line: 2810, col: 13, offset: 89209},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -7294,28 +7294,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2886, col: 8, offset: 91039},
+																									pos: position{line: 2886, col: 8, offset: 91081},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2873, col: 12, offset: 90812},
+																											pos: position{line: 2873, col: 12, offset: 90854},
 																											run: (*parser).callonDocumentFragment720,
 																											expr: &choiceExpr{
-																												pos: position{line: 2873, col: 13, offset: 90813},
+																												pos: position{line: 2873, col: 13, offset: 90855},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 13, offset: 90813},
+																														pos:        position{line: 2873, col: 13, offset: 90855},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 20, offset: 90820},
+																														pos:        position{line: 2873, col: 20, offset: 90862},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 29, offset: 90829},
+																														pos:        position{line: 2873, col: 29, offset: 90871},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7324,9 +7324,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2883, col: 8, offset: 90989},
+																											pos: position{line: 2883, col: 8, offset: 91031},
 																											expr: &anyMatcher{
-																												line: 2883, col: 9, offset: 90990,
+																												line: 2883, col: 9, offset: 91032,
 																											},
 																										},
 																									},
@@ -7353,18 +7353,18 @@ var g = &grammar{
 																							pos: position{line: 677, col: 14, offset: 21489},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2881, col: 11, offset: 90975},
+																									pos: position{line: 2881, col: 11, offset: 91017},
 																									expr: &anyMatcher{
-																										line: 2881, col: 13, offset: 90977,
+																										line: 2881, col: 13, offset: 91019,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 677, col: 21, offset: 21496},
 																									expr: &actionExpr{
-																										pos: position{line: 2864, col: 10, offset: 90641},
+																										pos: position{line: 2864, col: 10, offset: 90683},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2864, col: 10, offset: 90641},
+																											pos:        position{line: 2864, col: 10, offset: 90683},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7373,28 +7373,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2886, col: 8, offset: 91039},
+																									pos: position{line: 2886, col: 8, offset: 91081},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2873, col: 12, offset: 90812},
+																											pos: position{line: 2873, col: 12, offset: 90854},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2873, col: 13, offset: 90813},
+																												pos: position{line: 2873, col: 13, offset: 90855},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 13, offset: 90813},
+																														pos:        position{line: 2873, col: 13, offset: 90855},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 20, offset: 90820},
+																														pos:        position{line: 2873, col: 20, offset: 90862},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 29, offset: 90829},
+																														pos:        position{line: 2873, col: 29, offset: 90871},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7403,9 +7403,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2883, col: 8, offset: 90989},
+																											pos: position{line: 2883, col: 8, offset: 91031},
 																											expr: &anyMatcher{
-																												line: 2883, col: 9, offset: 90990,
+																												line: 2883, col: 9, offset: 91032,
 																											},
 																										},
 																									},
@@ -7424,12 +7424,12 @@ var g = &grammar{
 																					pos:   position{line: 992, col: 5, offset: 30982},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2814, col: 14, offset: 89234},
+																						pos: position{line: 2814, col: 14, offset: 89276},
 																						run: (*parser).callonDocumentFragment747,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2814, col: 14, offset: 89234},
+																							pos: position{line: 2814, col: 14, offset: 89276},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2814, col: 14, offset: 89234},
+																								pos:        position{line: 2814, col: 14, offset: 89276},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7439,28 +7439,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2886, col: 8, offset: 91039},
+																					pos: position{line: 2886, col: 8, offset: 91081},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2873, col: 12, offset: 90812},
+																							pos: position{line: 2873, col: 12, offset: 90854},
 																							run: (*parser).callonDocumentFragment751,
 																							expr: &choiceExpr{
-																								pos: position{line: 2873, col: 13, offset: 90813},
+																								pos: position{line: 2873, col: 13, offset: 90855},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 13, offset: 90813},
+																										pos:        position{line: 2873, col: 13, offset: 90855},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 20, offset: 90820},
+																										pos:        position{line: 2873, col: 20, offset: 90862},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 29, offset: 90829},
+																										pos:        position{line: 2873, col: 29, offset: 90871},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7469,9 +7469,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2883, col: 8, offset: 90989},
+																							pos: position{line: 2883, col: 8, offset: 91031},
 																							expr: &anyMatcher{
-																								line: 2883, col: 9, offset: 90990,
+																								line: 2883, col: 9, offset: 91032,
 																							},
 																						},
 																					},
@@ -7489,12 +7489,12 @@ var g = &grammar{
 																					pos:   position{line: 1796, col: 5, offset: 58007},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2814, col: 14, offset: 89234},
+																						pos: position{line: 2814, col: 14, offset: 89276},
 																						run: (*parser).callonDocumentFragment761,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2814, col: 14, offset: 89234},
+																							pos: position{line: 2814, col: 14, offset: 89276},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2814, col: 14, offset: 89234},
+																								pos:        position{line: 2814, col: 14, offset: 89276},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7508,28 +7508,28 @@ var g = &grammar{
 																					run: (*parser).callonDocumentFragment764,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2886, col: 8, offset: 91039},
+																					pos: position{line: 2886, col: 8, offset: 91081},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2873, col: 12, offset: 90812},
+																							pos: position{line: 2873, col: 12, offset: 90854},
 																							run: (*parser).callonDocumentFragment766,
 																							expr: &choiceExpr{
-																								pos: position{line: 2873, col: 13, offset: 90813},
+																								pos: position{line: 2873, col: 13, offset: 90855},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 13, offset: 90813},
+																										pos:        position{line: 2873, col: 13, offset: 90855},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 20, offset: 90820},
+																										pos:        position{line: 2873, col: 20, offset: 90862},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 29, offset: 90829},
+																										pos:        position{line: 2873, col: 29, offset: 90871},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7538,9 +7538,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2883, col: 8, offset: 90989},
+																							pos: position{line: 2883, col: 8, offset: 91031},
 																							expr: &anyMatcher{
-																								line: 2883, col: 9, offset: 90990,
+																								line: 2883, col: 9, offset: 91032,
 																							},
 																						},
 																					},
@@ -7587,10 +7587,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 778, col: 8, offset: 24949},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90641},
+																			pos: position{line: 2864, col: 10, offset: 90683},
 																			run: (*parser).callonDocumentFragment782,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90641},
+																				pos:        position{line: 2864, col: 10, offset: 90683},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7599,28 +7599,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91039},
+																		pos: position{line: 2886, col: 8, offset: 91081},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90812},
+																				pos: position{line: 2873, col: 12, offset: 90854},
 																				run: (*parser).callonDocumentFragment785,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90813},
+																					pos: position{line: 2873, col: 13, offset: 90855},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90813},
+																							pos:        position{line: 2873, col: 13, offset: 90855},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90820},
+																							pos:        position{line: 2873, col: 20, offset: 90862},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90829},
+																							pos:        position{line: 2873, col: 29, offset: 90871},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7629,9 +7629,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 90989},
+																				pos: position{line: 2883, col: 8, offset: 91031},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 90990,
+																					line: 2883, col: 9, offset: 91032,
 																				},
 																			},
 																		},
@@ -7679,10 +7679,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 778, col: 8, offset: 24949},
 																									expr: &actionExpr{
-																										pos: position{line: 2864, col: 10, offset: 90641},
+																										pos: position{line: 2864, col: 10, offset: 90683},
 																										run: (*parser).callonDocumentFragment804,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2864, col: 10, offset: 90641},
+																											pos:        position{line: 2864, col: 10, offset: 90683},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7691,28 +7691,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2886, col: 8, offset: 91039},
+																									pos: position{line: 2886, col: 8, offset: 91081},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2873, col: 12, offset: 90812},
+																											pos: position{line: 2873, col: 12, offset: 90854},
 																											run: (*parser).callonDocumentFragment807,
 																											expr: &choiceExpr{
-																												pos: position{line: 2873, col: 13, offset: 90813},
+																												pos: position{line: 2873, col: 13, offset: 90855},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 13, offset: 90813},
+																														pos:        position{line: 2873, col: 13, offset: 90855},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 20, offset: 90820},
+																														pos:        position{line: 2873, col: 20, offset: 90862},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 29, offset: 90829},
+																														pos:        position{line: 2873, col: 29, offset: 90871},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7721,9 +7721,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2883, col: 8, offset: 90989},
+																											pos: position{line: 2883, col: 8, offset: 91031},
 																											expr: &anyMatcher{
-																												line: 2883, col: 9, offset: 90990,
+																												line: 2883, col: 9, offset: 91032,
 																											},
 																										},
 																									},
@@ -7732,9 +7732,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 90989},
+																						pos: position{line: 2883, col: 8, offset: 91031},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 90990,
+																							line: 2883, col: 9, offset: 91032,
 																						},
 																					},
 																				},
@@ -7750,21 +7750,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 90975},
+																							pos: position{line: 2881, col: 11, offset: 91017},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 90977,
+																								line: 2881, col: 13, offset: 91019,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2810, col: 13, offset: 89167},
+																								pos: position{line: 2810, col: 13, offset: 89209},
 																								run: (*parser).callonDocumentFragment822,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2810, col: 13, offset: 89167},
+																									pos: position{line: 2810, col: 13, offset: 89209},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2810, col: 13, offset: 89167},
+																										pos:        position{line: 2810, col: 13, offset: 89209},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7774,28 +7774,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonDocumentFragment826,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7804,9 +7804,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -7851,10 +7851,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 778, col: 8, offset: 24949},
 																					expr: &actionExpr{
-																						pos: position{line: 2864, col: 10, offset: 90641},
+																						pos: position{line: 2864, col: 10, offset: 90683},
 																						run: (*parser).callonDocumentFragment842,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2864, col: 10, offset: 90641},
+																							pos:        position{line: 2864, col: 10, offset: 90683},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7863,28 +7863,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2886, col: 8, offset: 91039},
+																					pos: position{line: 2886, col: 8, offset: 91081},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2873, col: 12, offset: 90812},
+																							pos: position{line: 2873, col: 12, offset: 90854},
 																							run: (*parser).callonDocumentFragment845,
 																							expr: &choiceExpr{
-																								pos: position{line: 2873, col: 13, offset: 90813},
+																								pos: position{line: 2873, col: 13, offset: 90855},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 13, offset: 90813},
+																										pos:        position{line: 2873, col: 13, offset: 90855},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 20, offset: 90820},
+																										pos:        position{line: 2873, col: 20, offset: 90862},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 29, offset: 90829},
+																										pos:        position{line: 2873, col: 29, offset: 90871},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7893,9 +7893,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2883, col: 8, offset: 90989},
+																							pos: position{line: 2883, col: 8, offset: 91031},
 																							expr: &anyMatcher{
-																								line: 2883, col: 9, offset: 90990,
+																								line: 2883, col: 9, offset: 91032,
 																							},
 																						},
 																					},
@@ -7904,9 +7904,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 90989},
+																		pos: position{line: 2883, col: 8, offset: 91031},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 90990,
+																			line: 2883, col: 9, offset: 91032,
 																		},
 																	},
 																},
@@ -7962,10 +7962,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 792, col: 8, offset: 25446},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90641},
+																			pos: position{line: 2864, col: 10, offset: 90683},
 																			run: (*parser).callonDocumentFragment866,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90641},
+																				pos:        position{line: 2864, col: 10, offset: 90683},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7974,28 +7974,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91039},
+																		pos: position{line: 2886, col: 8, offset: 91081},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90812},
+																				pos: position{line: 2873, col: 12, offset: 90854},
 																				run: (*parser).callonDocumentFragment869,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90813},
+																					pos: position{line: 2873, col: 13, offset: 90855},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90813},
+																							pos:        position{line: 2873, col: 13, offset: 90855},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90820},
+																							pos:        position{line: 2873, col: 20, offset: 90862},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90829},
+																							pos:        position{line: 2873, col: 29, offset: 90871},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8004,9 +8004,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 90989},
+																				pos: position{line: 2883, col: 8, offset: 91031},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 90990,
+																					line: 2883, col: 9, offset: 91032,
 																				},
 																			},
 																		},
@@ -8078,10 +8078,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 792, col: 8, offset: 25446},
 																												expr: &actionExpr{
-																													pos: position{line: 2864, col: 10, offset: 90641},
+																													pos: position{line: 2864, col: 10, offset: 90683},
 																													run: (*parser).callonDocumentFragment894,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2864, col: 10, offset: 90641},
+																														pos:        position{line: 2864, col: 10, offset: 90683},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8090,28 +8090,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2886, col: 8, offset: 91039},
+																												pos: position{line: 2886, col: 8, offset: 91081},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2873, col: 12, offset: 90812},
+																														pos: position{line: 2873, col: 12, offset: 90854},
 																														run: (*parser).callonDocumentFragment897,
 																														expr: &choiceExpr{
-																															pos: position{line: 2873, col: 13, offset: 90813},
+																															pos: position{line: 2873, col: 13, offset: 90855},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 13, offset: 90813},
+																																	pos:        position{line: 2873, col: 13, offset: 90855},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 20, offset: 90820},
+																																	pos:        position{line: 2873, col: 20, offset: 90862},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 29, offset: 90829},
+																																	pos:        position{line: 2873, col: 29, offset: 90871},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8120,9 +8120,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2883, col: 8, offset: 90989},
+																														pos: position{line: 2883, col: 8, offset: 91031},
 																														expr: &anyMatcher{
-																															line: 2883, col: 9, offset: 90990,
+																															line: 2883, col: 9, offset: 91032,
 																														},
 																													},
 																												},
@@ -8138,9 +8138,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 90989},
+																						pos: position{line: 2883, col: 8, offset: 91031},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 90990,
+																							line: 2883, col: 9, offset: 91032,
 																						},
 																					},
 																				},
@@ -8156,21 +8156,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 90975},
+																							pos: position{line: 2881, col: 11, offset: 91017},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 90977,
+																								line: 2881, col: 13, offset: 91019,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2810, col: 13, offset: 89167},
+																								pos: position{line: 2810, col: 13, offset: 89209},
 																								run: (*parser).callonDocumentFragment913,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2810, col: 13, offset: 89167},
+																									pos: position{line: 2810, col: 13, offset: 89209},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2810, col: 13, offset: 89167},
+																										pos:        position{line: 2810, col: 13, offset: 89209},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8180,28 +8180,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonDocumentFragment917,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8210,9 +8210,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -8277,10 +8277,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 792, col: 8, offset: 25446},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90641},
+																									pos: position{line: 2864, col: 10, offset: 90683},
 																									run: (*parser).callonDocumentFragment938,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90641},
+																										pos:        position{line: 2864, col: 10, offset: 90683},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8289,28 +8289,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91039},
+																								pos: position{line: 2886, col: 8, offset: 91081},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90812},
+																										pos: position{line: 2873, col: 12, offset: 90854},
 																										run: (*parser).callonDocumentFragment941,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90813},
+																											pos: position{line: 2873, col: 13, offset: 90855},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90813},
+																													pos:        position{line: 2873, col: 13, offset: 90855},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90820},
+																													pos:        position{line: 2873, col: 20, offset: 90862},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90829},
+																													pos:        position{line: 2873, col: 29, offset: 90871},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8319,9 +8319,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 90989},
+																										pos: position{line: 2883, col: 8, offset: 91031},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 90990,
+																											line: 2883, col: 9, offset: 91032,
 																										},
 																									},
 																								},
@@ -8337,9 +8337,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 90989},
+																		pos: position{line: 2883, col: 8, offset: 91031},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 90990,
+																			line: 2883, col: 9, offset: 91032,
 																		},
 																	},
 																},
@@ -8395,10 +8395,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 799, col: 8, offset: 25696},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90641},
+																			pos: position{line: 2864, col: 10, offset: 90683},
 																			run: (*parser).callonDocumentFragment963,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90641},
+																				pos:        position{line: 2864, col: 10, offset: 90683},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8407,28 +8407,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91039},
+																		pos: position{line: 2886, col: 8, offset: 91081},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90812},
+																				pos: position{line: 2873, col: 12, offset: 90854},
 																				run: (*parser).callonDocumentFragment966,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90813},
+																					pos: position{line: 2873, col: 13, offset: 90855},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90813},
+																							pos:        position{line: 2873, col: 13, offset: 90855},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90820},
+																							pos:        position{line: 2873, col: 20, offset: 90862},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90829},
+																							pos:        position{line: 2873, col: 29, offset: 90871},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8437,9 +8437,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 90989},
+																				pos: position{line: 2883, col: 8, offset: 91031},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 90990,
+																					line: 2883, col: 9, offset: 91032,
 																				},
 																			},
 																		},
@@ -8511,10 +8511,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 799, col: 8, offset: 25696},
 																												expr: &actionExpr{
-																													pos: position{line: 2864, col: 10, offset: 90641},
+																													pos: position{line: 2864, col: 10, offset: 90683},
 																													run: (*parser).callonDocumentFragment991,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2864, col: 10, offset: 90641},
+																														pos:        position{line: 2864, col: 10, offset: 90683},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8523,28 +8523,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2886, col: 8, offset: 91039},
+																												pos: position{line: 2886, col: 8, offset: 91081},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2873, col: 12, offset: 90812},
+																														pos: position{line: 2873, col: 12, offset: 90854},
 																														run: (*parser).callonDocumentFragment994,
 																														expr: &choiceExpr{
-																															pos: position{line: 2873, col: 13, offset: 90813},
+																															pos: position{line: 2873, col: 13, offset: 90855},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 13, offset: 90813},
+																																	pos:        position{line: 2873, col: 13, offset: 90855},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 20, offset: 90820},
+																																	pos:        position{line: 2873, col: 20, offset: 90862},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 29, offset: 90829},
+																																	pos:        position{line: 2873, col: 29, offset: 90871},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8553,9 +8553,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2883, col: 8, offset: 90989},
+																														pos: position{line: 2883, col: 8, offset: 91031},
 																														expr: &anyMatcher{
-																															line: 2883, col: 9, offset: 90990,
+																															line: 2883, col: 9, offset: 91032,
 																														},
 																													},
 																												},
@@ -8571,9 +8571,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 90989},
+																						pos: position{line: 2883, col: 8, offset: 91031},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 90990,
+																							line: 2883, col: 9, offset: 91032,
 																						},
 																					},
 																				},
@@ -8589,21 +8589,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 90975},
+																							pos: position{line: 2881, col: 11, offset: 91017},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 90977,
+																								line: 2881, col: 13, offset: 91019,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2810, col: 13, offset: 89167},
+																								pos: position{line: 2810, col: 13, offset: 89209},
 																								run: (*parser).callonDocumentFragment1010,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2810, col: 13, offset: 89167},
+																									pos: position{line: 2810, col: 13, offset: 89209},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2810, col: 13, offset: 89167},
+																										pos:        position{line: 2810, col: 13, offset: 89209},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8613,28 +8613,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonDocumentFragment1014,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8643,9 +8643,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -8710,10 +8710,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 799, col: 8, offset: 25696},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90641},
+																									pos: position{line: 2864, col: 10, offset: 90683},
 																									run: (*parser).callonDocumentFragment1035,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90641},
+																										pos:        position{line: 2864, col: 10, offset: 90683},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8722,28 +8722,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91039},
+																								pos: position{line: 2886, col: 8, offset: 91081},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90812},
+																										pos: position{line: 2873, col: 12, offset: 90854},
 																										run: (*parser).callonDocumentFragment1038,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90813},
+																											pos: position{line: 2873, col: 13, offset: 90855},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90813},
+																													pos:        position{line: 2873, col: 13, offset: 90855},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90820},
+																													pos:        position{line: 2873, col: 20, offset: 90862},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90829},
+																													pos:        position{line: 2873, col: 29, offset: 90871},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8752,9 +8752,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 90989},
+																										pos: position{line: 2883, col: 8, offset: 91031},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 90990,
+																											line: 2883, col: 9, offset: 91032,
 																										},
 																									},
 																								},
@@ -8770,9 +8770,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 90989},
+																		pos: position{line: 2883, col: 8, offset: 91031},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 90990,
+																			line: 2883, col: 9, offset: 91032,
 																		},
 																	},
 																},
@@ -8828,10 +8828,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 806, col: 8, offset: 25942},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90641},
+																			pos: position{line: 2864, col: 10, offset: 90683},
 																			run: (*parser).callonDocumentFragment1060,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90641},
+																				pos:        position{line: 2864, col: 10, offset: 90683},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8840,28 +8840,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91039},
+																		pos: position{line: 2886, col: 8, offset: 91081},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90812},
+																				pos: position{line: 2873, col: 12, offset: 90854},
 																				run: (*parser).callonDocumentFragment1063,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90813},
+																					pos: position{line: 2873, col: 13, offset: 90855},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90813},
+																							pos:        position{line: 2873, col: 13, offset: 90855},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90820},
+																							pos:        position{line: 2873, col: 20, offset: 90862},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90829},
+																							pos:        position{line: 2873, col: 29, offset: 90871},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8870,9 +8870,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 90989},
+																				pos: position{line: 2883, col: 8, offset: 91031},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 90990,
+																					line: 2883, col: 9, offset: 91032,
 																				},
 																			},
 																		},
@@ -8944,10 +8944,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 806, col: 8, offset: 25942},
 																												expr: &actionExpr{
-																													pos: position{line: 2864, col: 10, offset: 90641},
+																													pos: position{line: 2864, col: 10, offset: 90683},
 																													run: (*parser).callonDocumentFragment1088,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2864, col: 10, offset: 90641},
+																														pos:        position{line: 2864, col: 10, offset: 90683},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8956,28 +8956,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2886, col: 8, offset: 91039},
+																												pos: position{line: 2886, col: 8, offset: 91081},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2873, col: 12, offset: 90812},
+																														pos: position{line: 2873, col: 12, offset: 90854},
 																														run: (*parser).callonDocumentFragment1091,
 																														expr: &choiceExpr{
-																															pos: position{line: 2873, col: 13, offset: 90813},
+																															pos: position{line: 2873, col: 13, offset: 90855},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 13, offset: 90813},
+																																	pos:        position{line: 2873, col: 13, offset: 90855},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 20, offset: 90820},
+																																	pos:        position{line: 2873, col: 20, offset: 90862},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 29, offset: 90829},
+																																	pos:        position{line: 2873, col: 29, offset: 90871},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8986,9 +8986,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2883, col: 8, offset: 90989},
+																														pos: position{line: 2883, col: 8, offset: 91031},
 																														expr: &anyMatcher{
-																															line: 2883, col: 9, offset: 90990,
+																															line: 2883, col: 9, offset: 91032,
 																														},
 																													},
 																												},
@@ -9004,9 +9004,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 90989},
+																						pos: position{line: 2883, col: 8, offset: 91031},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 90990,
+																							line: 2883, col: 9, offset: 91032,
 																						},
 																					},
 																				},
@@ -9022,21 +9022,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 90975},
+																							pos: position{line: 2881, col: 11, offset: 91017},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 90977,
+																								line: 2881, col: 13, offset: 91019,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2810, col: 13, offset: 89167},
+																								pos: position{line: 2810, col: 13, offset: 89209},
 																								run: (*parser).callonDocumentFragment1107,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2810, col: 13, offset: 89167},
+																									pos: position{line: 2810, col: 13, offset: 89209},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2810, col: 13, offset: 89167},
+																										pos:        position{line: 2810, col: 13, offset: 89209},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -9046,28 +9046,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonDocumentFragment1111,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -9076,9 +9076,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -9143,10 +9143,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 806, col: 8, offset: 25942},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90641},
+																									pos: position{line: 2864, col: 10, offset: 90683},
 																									run: (*parser).callonDocumentFragment1132,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90641},
+																										pos:        position{line: 2864, col: 10, offset: 90683},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -9155,28 +9155,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91039},
+																								pos: position{line: 2886, col: 8, offset: 91081},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90812},
+																										pos: position{line: 2873, col: 12, offset: 90854},
 																										run: (*parser).callonDocumentFragment1135,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90813},
+																											pos: position{line: 2873, col: 13, offset: 90855},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90813},
+																													pos:        position{line: 2873, col: 13, offset: 90855},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90820},
+																													pos:        position{line: 2873, col: 20, offset: 90862},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90829},
+																													pos:        position{line: 2873, col: 29, offset: 90871},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9185,9 +9185,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 90989},
+																										pos: position{line: 2883, col: 8, offset: 91031},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 90990,
+																											line: 2883, col: 9, offset: 91032,
 																										},
 																									},
 																								},
@@ -9203,9 +9203,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 90989},
+																		pos: position{line: 2883, col: 8, offset: 91031},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 90990,
+																			line: 2883, col: 9, offset: 91032,
 																		},
 																	},
 																},
@@ -9216,52 +9216,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2709, col: 18, offset: 86231},
+											pos: position{line: 2709, col: 18, offset: 86273},
 											run: (*parser).callonDocumentFragment1145,
 											expr: &seqExpr{
-												pos: position{line: 2709, col: 18, offset: 86231},
+												pos: position{line: 2709, col: 18, offset: 86273},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2710, col: 9, offset: 86241},
+														pos: position{line: 2710, col: 9, offset: 86283},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2710, col: 9, offset: 86241},
+																pos:        position{line: 2710, col: 9, offset: 86283},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2711, col: 11, offset: 86277},
+																pos:        position{line: 2711, col: 11, offset: 86319},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2711, col: 19, offset: 86285},
+																pos:        position{line: 2711, col: 19, offset: 86327},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2711, col: 29, offset: 86295},
+																pos:        position{line: 2711, col: 29, offset: 86337},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2711, col: 37, offset: 86303},
+																pos:        position{line: 2711, col: 37, offset: 86345},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2711, col: 47, offset: 86313},
+																pos:        position{line: 2711, col: 47, offset: 86355},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2711, col: 55, offset: 86321},
+																pos:        position{line: 2711, col: 55, offset: 86363},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9269,12 +9269,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2712, col: 11, offset: 86379},
+														pos: position{line: 2712, col: 11, offset: 86421},
 														expr: &actionExpr{
-															pos: position{line: 2864, col: 10, offset: 90641},
+															pos: position{line: 2864, col: 10, offset: 90683},
 															run: (*parser).callonDocumentFragment1156,
 															expr: &charClassMatcher{
-																pos:        position{line: 2864, col: 10, offset: 90641},
+																pos:        position{line: 2864, col: 10, offset: 90683},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9283,28 +9283,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2886, col: 8, offset: 91039},
+														pos: position{line: 2886, col: 8, offset: 91081},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90812},
+																pos: position{line: 2873, col: 12, offset: 90854},
 																run: (*parser).callonDocumentFragment1159,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90813},
+																	pos: position{line: 2873, col: 13, offset: 90855},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90813},
+																			pos:        position{line: 2873, col: 13, offset: 90855},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90820},
+																			pos:        position{line: 2873, col: 20, offset: 90862},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90829},
+																			pos:        position{line: 2873, col: 29, offset: 90871},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9313,36 +9313,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 90989},
+																pos: position{line: 2883, col: 8, offset: 91031},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 90990,
+																	line: 2883, col: 9, offset: 91032,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2886, col: 8, offset: 91039},
+														pos: position{line: 2886, col: 8, offset: 91081},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90812},
+																pos: position{line: 2873, col: 12, offset: 90854},
 																run: (*parser).callonDocumentFragment1167,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90813},
+																	pos: position{line: 2873, col: 13, offset: 90855},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90813},
+																			pos:        position{line: 2873, col: 13, offset: 90855},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90820},
+																			pos:        position{line: 2873, col: 20, offset: 90862},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90829},
+																			pos:        position{line: 2873, col: 29, offset: 90871},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9351,9 +9351,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 90989},
+																pos: position{line: 2883, col: 8, offset: 91031},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 90990,
+																	line: 2883, col: 9, offset: 91032,
 																},
 															},
 														},
@@ -9380,10 +9380,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 2606, col: 26, offset: 83331},
 														expr: &actionExpr{
-															pos: position{line: 2864, col: 10, offset: 90641},
+															pos: position{line: 2864, col: 10, offset: 90683},
 															run: (*parser).callonDocumentFragment1179,
 															expr: &charClassMatcher{
-																pos:        position{line: 2864, col: 10, offset: 90641},
+																pos:        position{line: 2864, col: 10, offset: 90683},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9392,28 +9392,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2886, col: 8, offset: 91039},
+														pos: position{line: 2886, col: 8, offset: 91081},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90812},
+																pos: position{line: 2873, col: 12, offset: 90854},
 																run: (*parser).callonDocumentFragment1182,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90813},
+																	pos: position{line: 2873, col: 13, offset: 90855},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90813},
+																			pos:        position{line: 2873, col: 13, offset: 90855},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90820},
+																			pos:        position{line: 2873, col: 20, offset: 90862},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90829},
+																			pos:        position{line: 2873, col: 29, offset: 90871},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9422,9 +9422,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 90989},
+																pos: position{line: 2883, col: 8, offset: 91031},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 90990,
+																	line: 2883, col: 9, offset: 91032,
 																},
 															},
 														},
@@ -9444,18 +9444,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2881, col: 11, offset: 90975},
+																					pos: position{line: 2881, col: 11, offset: 91017},
 																					expr: &anyMatcher{
-																						line: 2881, col: 13, offset: 90977,
+																						line: 2881, col: 13, offset: 91019,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2864, col: 10, offset: 90641},
+																						pos: position{line: 2864, col: 10, offset: 90683},
 																						run: (*parser).callonDocumentFragment1197,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2864, col: 10, offset: 90641},
+																							pos:        position{line: 2864, col: 10, offset: 90683},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9464,28 +9464,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2886, col: 8, offset: 91039},
+																					pos: position{line: 2886, col: 8, offset: 91081},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2873, col: 12, offset: 90812},
+																							pos: position{line: 2873, col: 12, offset: 90854},
 																							run: (*parser).callonDocumentFragment1200,
 																							expr: &choiceExpr{
-																								pos: position{line: 2873, col: 13, offset: 90813},
+																								pos: position{line: 2873, col: 13, offset: 90855},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 13, offset: 90813},
+																										pos:        position{line: 2873, col: 13, offset: 90855},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 20, offset: 90820},
+																										pos:        position{line: 2873, col: 20, offset: 90862},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 29, offset: 90829},
+																										pos:        position{line: 2873, col: 29, offset: 90871},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9494,9 +9494,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2883, col: 8, offset: 90989},
+																							pos: position{line: 2883, col: 8, offset: 91031},
 																							expr: &anyMatcher{
-																								line: 2883, col: 9, offset: 90990,
+																								line: 2883, col: 9, offset: 91032,
 																							},
 																						},
 																					},
@@ -9527,10 +9527,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 2606, col: 26, offset: 83331},
 																										expr: &actionExpr{
-																											pos: position{line: 2864, col: 10, offset: 90641},
+																											pos: position{line: 2864, col: 10, offset: 90683},
 																											run: (*parser).callonDocumentFragment1214,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2864, col: 10, offset: 90641},
+																												pos:        position{line: 2864, col: 10, offset: 90683},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9539,28 +9539,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2886, col: 8, offset: 91039},
+																										pos: position{line: 2886, col: 8, offset: 91081},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2873, col: 12, offset: 90812},
+																												pos: position{line: 2873, col: 12, offset: 90854},
 																												run: (*parser).callonDocumentFragment1217,
 																												expr: &choiceExpr{
-																													pos: position{line: 2873, col: 13, offset: 90813},
+																													pos: position{line: 2873, col: 13, offset: 90855},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2873, col: 13, offset: 90813},
+																															pos:        position{line: 2873, col: 13, offset: 90855},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2873, col: 20, offset: 90820},
+																															pos:        position{line: 2873, col: 20, offset: 90862},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2873, col: 29, offset: 90829},
+																															pos:        position{line: 2873, col: 29, offset: 90871},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9569,9 +9569,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2883, col: 8, offset: 90989},
+																												pos: position{line: 2883, col: 8, offset: 91031},
 																												expr: &anyMatcher{
-																													line: 2883, col: 9, offset: 90990,
+																													line: 2883, col: 9, offset: 91032,
 																												},
 																											},
 																										},
@@ -9579,9 +9579,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 90989},
+																								pos: position{line: 2883, col: 8, offset: 91031},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 90990,
+																									line: 2883, col: 9, offset: 91032,
 																								},
 																							},
 																						},
@@ -9628,10 +9628,10 @@ var g = &grammar{
 																																			&zeroOrMoreExpr{
 																																				pos: position{line: 2628, col: 9, offset: 83773},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2864, col: 10, offset: 90641},
+																																					pos: position{line: 2864, col: 10, offset: 90683},
 																																					run: (*parser).callonDocumentFragment1239,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2864, col: 10, offset: 90641},
+																																						pos:        position{line: 2864, col: 10, offset: 90683},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9671,28 +9671,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2886, col: 8, offset: 91039},
+																															pos: position{line: 2886, col: 8, offset: 91081},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2873, col: 12, offset: 90812},
+																																	pos: position{line: 2873, col: 12, offset: 90854},
 																																	run: (*parser).callonDocumentFragment1248,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2873, col: 13, offset: 90813},
+																																		pos: position{line: 2873, col: 13, offset: 90855},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2873, col: 13, offset: 90813},
+																																				pos:        position{line: 2873, col: 13, offset: 90855},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2873, col: 20, offset: 90820},
+																																				pos:        position{line: 2873, col: 20, offset: 90862},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2873, col: 29, offset: 90829},
+																																				pos:        position{line: 2873, col: 29, offset: 90871},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9701,9 +9701,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2883, col: 8, offset: 90989},
+																																	pos: position{line: 2883, col: 8, offset: 91031},
 																																	expr: &anyMatcher{
-																																		line: 2883, col: 9, offset: 90990,
+																																		line: 2883, col: 9, offset: 91032,
 																																	},
 																																},
 																															},
@@ -9742,10 +9742,10 @@ var g = &grammar{
 																																						&zeroOrMoreExpr{
 																																							pos: position{line: 2606, col: 26, offset: 83331},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2864, col: 10, offset: 90641},
+																																								pos: position{line: 2864, col: 10, offset: 90683},
 																																								run: (*parser).callonDocumentFragment1265,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2864, col: 10, offset: 90641},
+																																									pos:        position{line: 2864, col: 10, offset: 90683},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9754,28 +9754,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2886, col: 8, offset: 91039},
+																																							pos: position{line: 2886, col: 8, offset: 91081},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2873, col: 12, offset: 90812},
+																																									pos: position{line: 2873, col: 12, offset: 90854},
 																																									run: (*parser).callonDocumentFragment1268,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2873, col: 13, offset: 90813},
+																																										pos: position{line: 2873, col: 13, offset: 90855},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2873, col: 13, offset: 90813},
+																																												pos:        position{line: 2873, col: 13, offset: 90855},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2873, col: 20, offset: 90820},
+																																												pos:        position{line: 2873, col: 20, offset: 90862},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2873, col: 29, offset: 90829},
+																																												pos:        position{line: 2873, col: 29, offset: 90871},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9784,9 +9784,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2883, col: 8, offset: 90989},
+																																									pos: position{line: 2883, col: 8, offset: 91031},
 																																									expr: &anyMatcher{
-																																										line: 2883, col: 9, offset: 90990,
+																																										line: 2883, col: 9, offset: 91032,
 																																									},
 																																								},
 																																							},
@@ -9794,9 +9794,9 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2883, col: 8, offset: 90989},
+																																					pos: position{line: 2883, col: 8, offset: 91031},
 																																					expr: &anyMatcher{
-																																						line: 2883, col: 9, offset: 90990,
+																																						line: 2883, col: 9, offset: 91032,
 																																					},
 																																				},
 																																			},
@@ -9811,18 +9811,18 @@ var g = &grammar{
 																																				pos: position{line: 677, col: 14, offset: 21489},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2881, col: 11, offset: 90975},
+																																						pos: position{line: 2881, col: 11, offset: 91017},
 																																						expr: &anyMatcher{
-																																							line: 2881, col: 13, offset: 90977,
+																																							line: 2881, col: 13, offset: 91019,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 677, col: 21, offset: 21496},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2864, col: 10, offset: 90641},
+																																							pos: position{line: 2864, col: 10, offset: 90683},
 																																							run: (*parser).callonDocumentFragment1283,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2864, col: 10, offset: 90641},
+																																								pos:        position{line: 2864, col: 10, offset: 90683},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9831,28 +9831,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2886, col: 8, offset: 91039},
+																																						pos: position{line: 2886, col: 8, offset: 91081},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2873, col: 12, offset: 90812},
+																																								pos: position{line: 2873, col: 12, offset: 90854},
 																																								run: (*parser).callonDocumentFragment1286,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2873, col: 13, offset: 90813},
+																																									pos: position{line: 2873, col: 13, offset: 90855},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2873, col: 13, offset: 90813},
+																																											pos:        position{line: 2873, col: 13, offset: 90855},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2873, col: 20, offset: 90820},
+																																											pos:        position{line: 2873, col: 20, offset: 90862},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2873, col: 29, offset: 90829},
+																																											pos:        position{line: 2873, col: 29, offset: 90871},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9861,9 +9861,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2883, col: 8, offset: 90989},
+																																								pos: position{line: 2883, col: 8, offset: 91031},
 																																								expr: &anyMatcher{
-																																									line: 2883, col: 9, offset: 90990,
+																																									line: 2883, col: 9, offset: 91032,
 																																								},
 																																							},
 																																						},
@@ -9878,12 +9878,12 @@ var g = &grammar{
 																																		expr: &zeroOrOneExpr{
 																																			pos: position{line: 2647, col: 12, offset: 84252},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2664, col: 20, offset: 84716},
+																																				pos: position{line: 2664, col: 20, offset: 84758},
 																																				run: (*parser).callonDocumentFragment1295,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2664, col: 20, offset: 84716},
+																																					pos: position{line: 2664, col: 20, offset: 84758},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2664, col: 20, offset: 84716},
+																																						pos:        position{line: 2664, col: 20, offset: 84758},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9902,10 +9902,10 @@ var g = &grammar{
 																																	&zeroOrMoreExpr{
 																																		pos: position{line: 2647, col: 35, offset: 84275},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2864, col: 10, offset: 90641},
+																																			pos: position{line: 2864, col: 10, offset: 90683},
 																																			run: (*parser).callonDocumentFragment1300,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2864, col: 10, offset: 90641},
+																																				pos:        position{line: 2864, col: 10, offset: 90683},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9915,47 +9915,135 @@ var g = &grammar{
 																																	},
 																																	&zeroOrOneExpr{
 																																		pos: position{line: 2647, col: 42, offset: 84282},
-																																		expr: &actionExpr{
-																																			pos: position{line: 2873, col: 12, offset: 90812},
-																																			run: (*parser).callonDocumentFragment1303,
-																																			expr: &choiceExpr{
-																																				pos: position{line: 2873, col: 13, offset: 90813},
-																																				alternatives: []interface{}{
-																																					&litMatcher{
-																																						pos:        position{line: 2873, col: 13, offset: 90813},
-																																						val:        "\n",
-																																						ignoreCase: false,
-																																						want:       "\"\\n\"",
-																																					},
-																																					&litMatcher{
-																																						pos:        position{line: 2873, col: 20, offset: 90820},
-																																						val:        "\r\n",
-																																						ignoreCase: false,
-																																						want:       "\"\\r\\n\"",
+																																		expr: &seqExpr{
+																																			pos: position{line: 2647, col: 43, offset: 84283},
+																																			exprs: []interface{}{
+																																				&actionExpr{
+																																					pos: position{line: 2873, col: 12, offset: 90854},
+																																					run: (*parser).callonDocumentFragment1304,
+																																					expr: &choiceExpr{
+																																						pos: position{line: 2873, col: 13, offset: 90855},
+																																						alternatives: []interface{}{
+																																							&litMatcher{
+																																								pos:        position{line: 2873, col: 13, offset: 90855},
+																																								val:        "\n",
+																																								ignoreCase: false,
+																																								want:       "\"\\n\"",
+																																							},
+																																							&litMatcher{
+																																								pos:        position{line: 2873, col: 20, offset: 90862},
+																																								val:        "\r\n",
+																																								ignoreCase: false,
+																																								want:       "\"\\r\\n\"",
+																																							},
+																																							&litMatcher{
+																																								pos:        position{line: 2873, col: 29, offset: 90871},
+																																								val:        "\r",
+																																								ignoreCase: false,
+																																								want:       "\"\\r\"",
+																																							},
+																																						},
 																																					},
-																																					&litMatcher{
-																																						pos:        position{line: 2873, col: 29, offset: 90829},
-																																						val:        "\r",
-																																						ignoreCase: false,
-																																						want:       "\"\\r\"",
+																																				},
+																																				&zeroOrMoreExpr{
+																																					pos: position{line: 2647, col: 51, offset: 84291},
+																																					expr: &actionExpr{
+																																						pos: position{line: 2474, col: 22, offset: 79626},
+																																						run: (*parser).callonDocumentFragment1310,
+																																						expr: &seqExpr{
+																																							pos: position{line: 2474, col: 22, offset: 79626},
+																																							exprs: []interface{}{
+																																								&litMatcher{
+																																									pos:        position{line: 2479, col: 31, offset: 79847},
+																																									val:        "//",
+																																									ignoreCase: false,
+																																									want:       "\"//\"",
+																																								},
+																																								&notExpr{
+																																									pos: position{line: 2479, col: 36, offset: 79852},
+																																									expr: &litMatcher{
+																																										pos:        position{line: 2479, col: 37, offset: 79853},
+																																										val:        "//",
+																																										ignoreCase: false,
+																																										want:       "\"//\"",
+																																									},
+																																								},
+																																								&labeledExpr{
+																																									pos:   position{line: 2474, col: 49, offset: 79653},
+																																									label: "content",
+																																									expr: &actionExpr{
+																																										pos: position{line: 2810, col: 13, offset: 89209},
+																																										run: (*parser).callonDocumentFragment1316,
+																																										expr: &zeroOrMoreExpr{
+																																											pos: position{line: 2810, col: 13, offset: 89209},
+																																											expr: &charClassMatcher{
+																																												pos:        position{line: 2810, col: 13, offset: 89209},
+																																												val:        "[^\\r\\n]",
+																																												chars:      []rune{'\r', '\n'},
+																																												ignoreCase: false,
+																																												inverted:   true,
+																																											},
+																																										},
+																																									},
+																																								},
+																																								&choiceExpr{
+																																									pos: position{line: 2886, col: 8, offset: 91081},
+																																									alternatives: []interface{}{
+																																										&actionExpr{
+																																											pos: position{line: 2873, col: 12, offset: 90854},
+																																											run: (*parser).callonDocumentFragment1320,
+																																											expr: &choiceExpr{
+																																												pos: position{line: 2873, col: 13, offset: 90855},
+																																												alternatives: []interface{}{
+																																													&litMatcher{
+																																														pos:        position{line: 2873, col: 13, offset: 90855},
+																																														val:        "\n",
+																																														ignoreCase: false,
+																																														want:       "\"\\n\"",
+																																													},
+																																													&litMatcher{
+																																														pos:        position{line: 2873, col: 20, offset: 90862},
+																																														val:        "\r\n",
+																																														ignoreCase: false,
+																																														want:       "\"\\r\\n\"",
+																																													},
+																																													&litMatcher{
+																																														pos:        position{line: 2873, col: 29, offset: 90871},
+																																														val:        "\r",
+																																														ignoreCase: false,
+																																														want:       "\"\\r\"",
+																																													},
+																																												},
+																																											},
+																																										},
+																																										&notExpr{
+																																											pos: position{line: 2883, col: 8, offset: 91031},
+																																											expr: &anyMatcher{
+																																												line: 2883, col: 9, offset: 91032,
+																																											},
+																																										},
+																																									},
+																																								},
+																																							},
+																																						},
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2647, col: 51, offset: 84291},
+																																		pos:   position{line: 2647, col: 72, offset: 84312},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2653, col: 5, offset: 84450},
+																																			pos: position{line: 2653, col: 5, offset: 84471},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2654, col: 9, offset: 84460},
-																																				run: (*parser).callonDocumentFragment1310,
+																																				pos: position{line: 2654, col: 9, offset: 84481},
+																																				run: (*parser).callonDocumentFragment1329,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2654, col: 9, offset: 84460},
+																																					pos: position{line: 2654, col: 9, offset: 84481},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2654, col: 9, offset: 84460},
+																																							pos: position{line: 2654, col: 9, offset: 84481},
 																																							expr: &choiceExpr{
 																																								pos: position{line: 2610, col: 22, offset: 83404},
 																																								alternatives: []interface{}{
@@ -9971,10 +10059,10 @@ var g = &grammar{
 																																											&zeroOrMoreExpr{
 																																												pos: position{line: 2606, col: 26, offset: 83331},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2864, col: 10, offset: 90641},
-																																													run: (*parser).callonDocumentFragment1317,
+																																													pos: position{line: 2864, col: 10, offset: 90683},
+																																													run: (*parser).callonDocumentFragment1336,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2864, col: 10, offset: 90641},
+																																														pos:        position{line: 2864, col: 10, offset: 90683},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -9983,28 +10071,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2886, col: 8, offset: 91039},
+																																												pos: position{line: 2886, col: 8, offset: 91081},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2873, col: 12, offset: 90812},
-																																														run: (*parser).callonDocumentFragment1320,
+																																														pos: position{line: 2873, col: 12, offset: 90854},
+																																														run: (*parser).callonDocumentFragment1339,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2873, col: 13, offset: 90813},
+																																															pos: position{line: 2873, col: 13, offset: 90855},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2873, col: 13, offset: 90813},
+																																																	pos:        position{line: 2873, col: 13, offset: 90855},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2873, col: 20, offset: 90820},
+																																																	pos:        position{line: 2873, col: 20, offset: 90862},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2873, col: 29, offset: 90829},
+																																																	pos:        position{line: 2873, col: 29, offset: 90871},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -10013,9 +10101,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2883, col: 8, offset: 90989},
+																																														pos: position{line: 2883, col: 8, offset: 91031},
 																																														expr: &anyMatcher{
-																																															line: 2883, col: 9, offset: 90990,
+																																															line: 2883, col: 9, offset: 91032,
 																																														},
 																																													},
 																																												},
@@ -10023,35 +10111,35 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2883, col: 8, offset: 90989},
+																																										pos: position{line: 2883, col: 8, offset: 91031},
 																																										expr: &anyMatcher{
-																																											line: 2883, col: 9, offset: 90990,
+																																											line: 2883, col: 9, offset: 91032,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2655, col: 9, offset: 84487},
+																																							pos: position{line: 2655, col: 9, offset: 84508},
 																																							expr: &actionExpr{
 																																								pos: position{line: 677, col: 14, offset: 21489},
-																																								run: (*parser).callonDocumentFragment1330,
+																																								run: (*parser).callonDocumentFragment1349,
 																																								expr: &seqExpr{
 																																									pos: position{line: 677, col: 14, offset: 21489},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2881, col: 11, offset: 90975},
+																																											pos: position{line: 2881, col: 11, offset: 91017},
 																																											expr: &anyMatcher{
-																																												line: 2881, col: 13, offset: 90977,
+																																												line: 2881, col: 13, offset: 91019,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 677, col: 21, offset: 21496},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2864, col: 10, offset: 90641},
-																																												run: (*parser).callonDocumentFragment1335,
+																																												pos: position{line: 2864, col: 10, offset: 90683},
+																																												run: (*parser).callonDocumentFragment1354,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2864, col: 10, offset: 90641},
+																																													pos:        position{line: 2864, col: 10, offset: 90683},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -10060,28 +10148,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2886, col: 8, offset: 91039},
+																																											pos: position{line: 2886, col: 8, offset: 91081},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2873, col: 12, offset: 90812},
-																																													run: (*parser).callonDocumentFragment1338,
+																																													pos: position{line: 2873, col: 12, offset: 90854},
+																																													run: (*parser).callonDocumentFragment1357,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2873, col: 13, offset: 90813},
+																																														pos: position{line: 2873, col: 13, offset: 90855},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2873, col: 13, offset: 90813},
+																																																pos:        position{line: 2873, col: 13, offset: 90855},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2873, col: 20, offset: 90820},
+																																																pos:        position{line: 2873, col: 20, offset: 90862},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2873, col: 29, offset: 90829},
+																																																pos:        position{line: 2873, col: 29, offset: 90871},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -10090,9 +10178,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2883, col: 8, offset: 90989},
+																																													pos: position{line: 2883, col: 8, offset: 91031},
 																																													expr: &anyMatcher{
-																																														line: 2883, col: 9, offset: 90990,
+																																														line: 2883, col: 9, offset: 91032,
 																																													},
 																																												},
 																																											},
@@ -10102,22 +10190,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2656, col: 9, offset: 84506},
+																																							pos: position{line: 2656, col: 9, offset: 84527},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2656, col: 11, offset: 84508},
+																																								pos: position{line: 2656, col: 11, offset: 84529},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2656, col: 11, offset: 84508},
+																																										pos:   position{line: 2656, col: 11, offset: 84529},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2656, col: 18, offset: 84515},
+																																											pos: position{line: 2656, col: 18, offset: 84536},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2664, col: 20, offset: 84716},
-																																												run: (*parser).callonDocumentFragment1349,
+																																												pos: position{line: 2664, col: 20, offset: 84758},
+																																												run: (*parser).callonDocumentFragment1368,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2664, col: 20, offset: 84716},
+																																													pos: position{line: 2664, col: 20, offset: 84758},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2664, col: 20, offset: 84716},
+																																														pos:        position{line: 2664, col: 20, offset: 84758},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -10128,7 +10216,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2656, col: 37, offset: 84534},
+																																										pos:        position{line: 2656, col: 37, offset: 84555},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -10137,15 +10225,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2657, col: 9, offset: 84547},
+																																							pos:   position{line: 2657, col: 9, offset: 84568},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2657, col: 18, offset: 84556},
-																																								run: (*parser).callonDocumentFragment1354,
+																																								pos: position{line: 2657, col: 18, offset: 84577},
+																																								run: (*parser).callonDocumentFragment1373,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2657, col: 18, offset: 84556},
+																																									pos: position{line: 2657, col: 18, offset: 84577},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2657, col: 18, offset: 84556},
+																																										pos:        position{line: 2657, col: 18, offset: 84577},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -10155,41 +10243,129 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2659, col: 12, offset: 84618},
-																																							expr: &choiceExpr{
-																																								pos: position{line: 2886, col: 8, offset: 91039},
-																																								alternatives: []interface{}{
-																																									&actionExpr{
-																																										pos: position{line: 2873, col: 12, offset: 90812},
-																																										run: (*parser).callonDocumentFragment1359,
-																																										expr: &choiceExpr{
-																																											pos: position{line: 2873, col: 13, offset: 90813},
-																																											alternatives: []interface{}{
-																																												&litMatcher{
-																																													pos:        position{line: 2873, col: 13, offset: 90813},
-																																													val:        "\n",
-																																													ignoreCase: false,
-																																													want:       "\"\\n\"",
-																																												},
-																																												&litMatcher{
-																																													pos:        position{line: 2873, col: 20, offset: 90820},
-																																													val:        "\r\n",
-																																													ignoreCase: false,
-																																													want:       "\"\\r\\n\"",
+																																							pos: position{line: 2659, col: 12, offset: 84639},
+																																							expr: &seqExpr{
+																																								pos: position{line: 2659, col: 13, offset: 84640},
+																																								exprs: []interface{}{
+																																									&choiceExpr{
+																																										pos: position{line: 2886, col: 8, offset: 91081},
+																																										alternatives: []interface{}{
+																																											&actionExpr{
+																																												pos: position{line: 2873, col: 12, offset: 90854},
+																																												run: (*parser).callonDocumentFragment1379,
+																																												expr: &choiceExpr{
+																																													pos: position{line: 2873, col: 13, offset: 90855},
+																																													alternatives: []interface{}{
+																																														&litMatcher{
+																																															pos:        position{line: 2873, col: 13, offset: 90855},
+																																															val:        "\n",
+																																															ignoreCase: false,
+																																															want:       "\"\\n\"",
+																																														},
+																																														&litMatcher{
+																																															pos:        position{line: 2873, col: 20, offset: 90862},
+																																															val:        "\r\n",
+																																															ignoreCase: false,
+																																															want:       "\"\\r\\n\"",
+																																														},
+																																														&litMatcher{
+																																															pos:        position{line: 2873, col: 29, offset: 90871},
+																																															val:        "\r",
+																																															ignoreCase: false,
+																																															want:       "\"\\r\"",
+																																														},
+																																													},
 																																												},
-																																												&litMatcher{
-																																													pos:        position{line: 2873, col: 29, offset: 90829},
-																																													val:        "\r",
-																																													ignoreCase: false,
-																																													want:       "\"\\r\"",
+																																											},
+																																											&notExpr{
+																																												pos: position{line: 2883, col: 8, offset: 91031},
+																																												expr: &anyMatcher{
+																																													line: 2883, col: 9, offset: 91032,
 																																												},
 																																											},
 																																										},
 																																									},
-																																									&notExpr{
-																																										pos: position{line: 2883, col: 8, offset: 90989},
-																																										expr: &anyMatcher{
-																																											line: 2883, col: 9, offset: 90990,
+																																									&zeroOrMoreExpr{
+																																										pos: position{line: 2659, col: 17, offset: 84644},
+																																										expr: &actionExpr{
+																																											pos: position{line: 2474, col: 22, offset: 79626},
+																																											run: (*parser).callonDocumentFragment1387,
+																																											expr: &seqExpr{
+																																												pos: position{line: 2474, col: 22, offset: 79626},
+																																												exprs: []interface{}{
+																																													&litMatcher{
+																																														pos:        position{line: 2479, col: 31, offset: 79847},
+																																														val:        "//",
+																																														ignoreCase: false,
+																																														want:       "\"//\"",
+																																													},
+																																													&notExpr{
+																																														pos: position{line: 2479, col: 36, offset: 79852},
+																																														expr: &litMatcher{
+																																															pos:        position{line: 2479, col: 37, offset: 79853},
+																																															val:        "//",
+																																															ignoreCase: false,
+																																															want:       "\"//\"",
+																																														},
+																																													},
+																																													&labeledExpr{
+																																														pos:   position{line: 2474, col: 49, offset: 79653},
+																																														label: "content",
+																																														expr: &actionExpr{
+																																															pos: position{line: 2810, col: 13, offset: 89209},
+																																															run: (*parser).callonDocumentFragment1393,
+																																															expr: &zeroOrMoreExpr{
+																																																pos: position{line: 2810, col: 13, offset: 89209},
+																																																expr: &charClassMatcher{
+																																																	pos:        position{line: 2810, col: 13, offset: 89209},
+																																																	val:        "[^\\r\\n]",
+																																																	chars:      []rune{'\r', '\n'},
+																																																	ignoreCase: false,
+																																																	inverted:   true,
+																																																},
+																																															},
+																																														},
+																																													},
+																																													&choiceExpr{
+																																														pos: position{line: 2886, col: 8, offset: 91081},
+																																														alternatives: []interface{}{
+																																															&actionExpr{
+																																																pos: position{line: 2873, col: 12, offset: 90854},
+																																																run: (*parser).callonDocumentFragment1397,
+																																																expr: &choiceExpr{
+																																																	pos: position{line: 2873, col: 13, offset: 90855},
+																																																	alternatives: []interface{}{
+																																																		&litMatcher{
+																																																			pos:        position{line: 2873, col: 13, offset: 90855},
+																																																			val:        "\n",
+																																																			ignoreCase: false,
+																																																			want:       "\"\\n\"",
+																																																		},
+																																																		&litMatcher{
+																																																			pos:        position{line: 2873, col: 20, offset: 90862},
+																																																			val:        "\r\n",
+																																																			ignoreCase: false,
+																																																			want:       "\"\\r\\n\"",
+																																																		},
+																																																		&litMatcher{
+																																																			pos:        position{line: 2873, col: 29, offset: 90871},
+																																																			val:        "\r",
+																																																			ignoreCase: false,
+																																																			want:       "\"\\r\"",
+																																																		},
+																																																	},
+																																																},
+																																															},
+																																															&notExpr{
+																																																pos: position{line: 2883, col: 8, offset: 91031},
+																																																expr: &anyMatcher{
+																																																	line: 2883, col: 9, offset: 91032,
+																																																},
+																																															},
+																																														},
+																																													},
+																																												},
+																																											},
 																																										},
 																																									},
 																																								},
@@ -10212,23 +10388,23 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 677, col: 14, offset: 21489},
-																								run: (*parser).callonDocumentFragment1366,
+																								run: (*parser).callonDocumentFragment1404,
 																								expr: &seqExpr{
 																									pos: position{line: 677, col: 14, offset: 21489},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2881, col: 11, offset: 90975},
+																											pos: position{line: 2881, col: 11, offset: 91017},
 																											expr: &anyMatcher{
-																												line: 2881, col: 13, offset: 90977,
+																												line: 2881, col: 13, offset: 91019,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 677, col: 21, offset: 21496},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90641},
-																												run: (*parser).callonDocumentFragment1371,
+																												pos: position{line: 2864, col: 10, offset: 90683},
+																												run: (*parser).callonDocumentFragment1409,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90641},
+																													pos:        position{line: 2864, col: 10, offset: 90683},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10237,28 +10413,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91039},
+																											pos: position{line: 2886, col: 8, offset: 91081},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90812},
-																													run: (*parser).callonDocumentFragment1374,
+																													pos: position{line: 2873, col: 12, offset: 90854},
+																													run: (*parser).callonDocumentFragment1412,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90813},
+																														pos: position{line: 2873, col: 13, offset: 90855},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90813},
+																																pos:        position{line: 2873, col: 13, offset: 90855},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90820},
+																																pos:        position{line: 2873, col: 20, offset: 90862},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90829},
+																																pos:        position{line: 2873, col: 29, offset: 90871},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10267,9 +10443,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 90989},
+																													pos: position{line: 2883, col: 8, offset: 91031},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 90990,
+																														line: 2883, col: 9, offset: 91032,
 																													},
 																												},
 																											},
@@ -10302,10 +10478,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 2606, col: 26, offset: 83331},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90641},
-																			run: (*parser).callonDocumentFragment1385,
+																			pos: position{line: 2864, col: 10, offset: 90683},
+																			run: (*parser).callonDocumentFragment1423,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90641},
+																				pos:        position{line: 2864, col: 10, offset: 90683},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10314,28 +10490,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91039},
+																		pos: position{line: 2886, col: 8, offset: 91081},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90812},
-																				run: (*parser).callonDocumentFragment1388,
+																				pos: position{line: 2873, col: 12, offset: 90854},
+																				run: (*parser).callonDocumentFragment1426,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90813},
+																					pos: position{line: 2873, col: 13, offset: 90855},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90813},
+																							pos:        position{line: 2873, col: 13, offset: 90855},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90820},
+																							pos:        position{line: 2873, col: 20, offset: 90862},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90829},
+																							pos:        position{line: 2873, col: 29, offset: 90871},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10344,9 +10520,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 90989},
+																				pos: position{line: 2883, col: 8, offset: 91031},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 90990,
+																					line: 2883, col: 9, offset: 91032,
 																				},
 																			},
 																		},
@@ -10354,9 +10530,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 90989},
+																pos: position{line: 2883, col: 8, offset: 91031},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 90990,
+																	line: 2883, col: 9, offset: 91032,
 																},
 															},
 														},
@@ -10366,7 +10542,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 2474, col: 22, offset: 79626},
-											run: (*parser).callonDocumentFragment1397,
+											run: (*parser).callonDocumentFragment1435,
 											expr: &seqExpr{
 												pos: position{line: 2474, col: 22, offset: 79626},
 												exprs: []interface{}{
@@ -10389,12 +10565,12 @@ var g = &grammar{
 														pos:   position{line: 2474, col: 49, offset: 79653},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2810, col: 13, offset: 89167},
-															run: (*parser).callonDocumentFragment1403,
+															pos: position{line: 2810, col: 13, offset: 89209},
+															run: (*parser).callonDocumentFragment1441,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2810, col: 13, offset: 89167},
+																pos: position{line: 2810, col: 13, offset: 89209},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2810, col: 13, offset: 89167},
+																	pos:        position{line: 2810, col: 13, offset: 89209},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10404,28 +10580,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2886, col: 8, offset: 91039},
+														pos: position{line: 2886, col: 8, offset: 91081},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90812},
-																run: (*parser).callonDocumentFragment1407,
+																pos: position{line: 2873, col: 12, offset: 90854},
+																run: (*parser).callonDocumentFragment1445,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90813},
+																	pos: position{line: 2873, col: 13, offset: 90855},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90813},
+																			pos:        position{line: 2873, col: 13, offset: 90855},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90820},
+																			pos:        position{line: 2873, col: 20, offset: 90862},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90829},
+																			pos:        position{line: 2873, col: 29, offset: 90871},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10434,9 +10610,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 90989},
+																pos: position{line: 2883, col: 8, offset: 91031},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 90990,
+																	line: 2883, col: 9, offset: 91032,
 																},
 															},
 														},
@@ -10446,20 +10622,20 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 1234, col: 5, offset: 38268},
-											run: (*parser).callonDocumentFragment1414,
+											run: (*parser).callonDocumentFragment1452,
 											expr: &seqExpr{
 												pos: position{line: 1234, col: 5, offset: 38268},
 												exprs: []interface{}{
 													&andCodeExpr{
 														pos: position{line: 1234, col: 5, offset: 38268},
-														run: (*parser).callonDocumentFragment1416,
+														run: (*parser).callonDocumentFragment1454,
 													},
 													&labeledExpr{
 														pos:   position{line: 1237, col: 5, offset: 38326},
 														label: "frontmatter",
 														expr: &actionExpr{
 															pos: position{line: 1242, col: 20, offset: 38421},
-															run: (*parser).callonDocumentFragment1418,
+															run: (*parser).callonDocumentFragment1456,
 															expr: &seqExpr{
 																pos: position{line: 1242, col: 20, offset: 38421},
 																exprs: []interface{}{
@@ -10472,10 +10648,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1246, col: 36, offset: 38599},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90641},
-																			run: (*parser).callonDocumentFragment1422,
+																			pos: position{line: 2864, col: 10, offset: 90683},
+																			run: (*parser).callonDocumentFragment1460,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90641},
+																				pos:        position{line: 2864, col: 10, offset: 90683},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10484,28 +10660,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91039},
+																		pos: position{line: 2886, col: 8, offset: 91081},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90812},
-																				run: (*parser).callonDocumentFragment1425,
+																				pos: position{line: 2873, col: 12, offset: 90854},
+																				run: (*parser).callonDocumentFragment1463,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90813},
+																					pos: position{line: 2873, col: 13, offset: 90855},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90813},
+																							pos:        position{line: 2873, col: 13, offset: 90855},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90820},
+																							pos:        position{line: 2873, col: 20, offset: 90862},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90829},
+																							pos:        position{line: 2873, col: 29, offset: 90871},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10514,9 +10690,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 90989},
+																				pos: position{line: 2883, col: 8, offset: 91031},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 90990,
+																					line: 2883, col: 9, offset: 91032,
 																				},
 																			},
 																		},
@@ -10528,7 +10704,7 @@ var g = &grammar{
 																			pos: position{line: 1242, col: 53, offset: 38454},
 																			expr: &actionExpr{
 																				pos: position{line: 1248, col: 27, offset: 38637},
-																				run: (*parser).callonDocumentFragment1434,
+																				run: (*parser).callonDocumentFragment1472,
 																				expr: &zeroOrMoreExpr{
 																					pos: position{line: 1248, col: 27, offset: 38637},
 																					expr: &oneOrMoreExpr{
@@ -10550,10 +10726,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1246, col: 36, offset: 38599},
 																												expr: &actionExpr{
-																													pos: position{line: 2864, col: 10, offset: 90641},
-																													run: (*parser).callonDocumentFragment1442,
+																													pos: position{line: 2864, col: 10, offset: 90683},
+																													run: (*parser).callonDocumentFragment1480,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2864, col: 10, offset: 90641},
+																														pos:        position{line: 2864, col: 10, offset: 90683},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10562,28 +10738,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2886, col: 8, offset: 91039},
+																												pos: position{line: 2886, col: 8, offset: 91081},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2873, col: 12, offset: 90812},
-																														run: (*parser).callonDocumentFragment1445,
+																														pos: position{line: 2873, col: 12, offset: 90854},
+																														run: (*parser).callonDocumentFragment1483,
 																														expr: &choiceExpr{
-																															pos: position{line: 2873, col: 13, offset: 90813},
+																															pos: position{line: 2873, col: 13, offset: 90855},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 13, offset: 90813},
+																																	pos:        position{line: 2873, col: 13, offset: 90855},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 20, offset: 90820},
+																																	pos:        position{line: 2873, col: 20, offset: 90862},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 29, offset: 90829},
+																																	pos:        position{line: 2873, col: 29, offset: 90871},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10592,9 +10768,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2883, col: 8, offset: 90989},
+																														pos: position{line: 2883, col: 8, offset: 91031},
 																														expr: &anyMatcher{
-																															line: 2883, col: 9, offset: 90990,
+																															line: 2883, col: 9, offset: 91032,
 																														},
 																													},
 																												},
@@ -10621,10 +10797,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1246, col: 36, offset: 38599},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90641},
-																			run: (*parser).callonDocumentFragment1455,
+																			pos: position{line: 2864, col: 10, offset: 90683},
+																			run: (*parser).callonDocumentFragment1493,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90641},
+																				pos:        position{line: 2864, col: 10, offset: 90683},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10633,28 +10809,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91039},
+																		pos: position{line: 2886, col: 8, offset: 91081},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90812},
-																				run: (*parser).callonDocumentFragment1458,
+																				pos: position{line: 2873, col: 12, offset: 90854},
+																				run: (*parser).callonDocumentFragment1496,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90813},
+																					pos: position{line: 2873, col: 13, offset: 90855},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90813},
+																							pos:        position{line: 2873, col: 13, offset: 90855},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90820},
+																							pos:        position{line: 2873, col: 20, offset: 90862},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90829},
+																							pos:        position{line: 2873, col: 29, offset: 90871},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10663,9 +10839,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 90989},
+																				pos: position{line: 2883, col: 8, offset: 91031},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 90990,
+																					line: 2883, col: 9, offset: 91032,
 																				},
 																			},
 																		},
@@ -10687,7 +10863,7 @@ var g = &grammar{
 						},
 						&andCodeExpr{
 							pos: position{line: 253, col: 5, offset: 7555},
-							run: (*parser).callonDocumentFragment1466,
+							run: (*parser).callonDocumentFragment1504,
 						},
 					},
 				},
@@ -10762,9 +10938,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2883, col: 8, offset: 90989},
+							pos: position{line: 2883, col: 8, offset: 91031},
 							expr: &anyMatcher{
-								line: 2883, col: 9, offset: 90990,
+								line: 2883, col: 9, offset: 91032,
 							},
 						},
 					},
@@ -10836,12 +11012,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2868, col: 11, offset: 90702},
+												pos: position{line: 2868, col: 11, offset: 90744},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2868, col: 11, offset: 90702},
+													pos: position{line: 2868, col: 11, offset: 90744},
 													expr: &charClassMatcher{
-														pos:        position{line: 2868, col: 11, offset: 90702},
+														pos:        position{line: 2868, col: 11, offset: 90744},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -10863,28 +11039,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2886, col: 8, offset: 91039},
+							pos: position{line: 2886, col: 8, offset: 91081},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2873, col: 12, offset: 90812},
+									pos: position{line: 2873, col: 12, offset: 90854},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2873, col: 13, offset: 90813},
+										pos: position{line: 2873, col: 13, offset: 90855},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2873, col: 13, offset: 90813},
+												pos:        position{line: 2873, col: 13, offset: 90855},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 20, offset: 90820},
+												pos:        position{line: 2873, col: 20, offset: 90862},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 29, offset: 90829},
+												pos:        position{line: 2873, col: 29, offset: 90871},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -10893,9 +11069,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2883, col: 8, offset: 90989},
+									pos: position{line: 2883, col: 8, offset: 91031},
 									expr: &anyMatcher{
-										line: 2883, col: 9, offset: 90990,
+										line: 2883, col: 9, offset: 91032,
 									},
 								},
 							},
@@ -10939,25 +11115,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2873, col: 12, offset: 90812},
+												pos: position{line: 2873, col: 12, offset: 90854},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2873, col: 13, offset: 90813},
+													pos: position{line: 2873, col: 13, offset: 90855},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2873, col: 13, offset: 90813},
+															pos:        position{line: 2873, col: 13, offset: 90855},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2873, col: 20, offset: 90820},
+															pos:        position{line: 2873, col: 20, offset: 90862},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2873, col: 29, offset: 90829},
+															pos:        position{line: 2873, col: 29, offset: 90871},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -10968,10 +11144,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2864, col: 10, offset: 90641},
+													pos: position{line: 2864, col: 10, offset: 90683},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2864, col: 10, offset: 90641},
+														pos:        position{line: 2864, col: 10, offset: 90683},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11041,10 +11217,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2864, col: 10, offset: 90641},
+											pos: position{line: 2864, col: 10, offset: 90683},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2864, col: 10, offset: 90641},
+												pos:        position{line: 2864, col: 10, offset: 90683},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -11053,28 +11229,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2886, col: 8, offset: 91039},
+										pos: position{line: 2886, col: 8, offset: 91081},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2873, col: 12, offset: 90812},
+												pos: position{line: 2873, col: 12, offset: 90854},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2873, col: 13, offset: 90813},
+													pos: position{line: 2873, col: 13, offset: 90855},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2873, col: 13, offset: 90813},
+															pos:        position{line: 2873, col: 13, offset: 90855},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2873, col: 20, offset: 90820},
+															pos:        position{line: 2873, col: 20, offset: 90862},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2873, col: 29, offset: 90829},
+															pos:        position{line: 2873, col: 29, offset: 90871},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -11083,9 +11259,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2883, col: 8, offset: 90989},
+												pos: position{line: 2883, col: 8, offset: 91031},
 												expr: &anyMatcher{
-													line: 2883, col: 9, offset: 90990,
+													line: 2883, col: 9, offset: 91032,
 												},
 											},
 										},
@@ -11146,10 +11322,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2864, col: 10, offset: 90641},
+										pos: position{line: 2864, col: 10, offset: 90683},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2864, col: 10, offset: 90641},
+											pos:        position{line: 2864, col: 10, offset: 90683},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11986,10 +12162,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 35, offset: 11487},
 												expr: &actionExpr{
-													pos: position{line: 2864, col: 10, offset: 90641},
+													pos: position{line: 2864, col: 10, offset: 90683},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2864, col: 10, offset: 90641},
+														pos:        position{line: 2864, col: 10, offset: 90683},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11998,28 +12174,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2886, col: 8, offset: 91039},
+												pos: position{line: 2886, col: 8, offset: 91081},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2873, col: 12, offset: 90812},
+														pos: position{line: 2873, col: 12, offset: 90854},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2873, col: 13, offset: 90813},
+															pos: position{line: 2873, col: 13, offset: 90855},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2873, col: 13, offset: 90813},
+																	pos:        position{line: 2873, col: 13, offset: 90855},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2873, col: 20, offset: 90820},
+																	pos:        position{line: 2873, col: 20, offset: 90862},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2873, col: 29, offset: 90829},
+																	pos:        position{line: 2873, col: 29, offset: 90871},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12028,9 +12204,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2883, col: 8, offset: 90989},
+														pos: position{line: 2883, col: 8, offset: 91031},
 														expr: &anyMatcher{
-															line: 2883, col: 9, offset: 90990,
+															line: 2883, col: 9, offset: 91032,
 														},
 													},
 												},
@@ -12044,18 +12220,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2881, col: 11, offset: 90975},
+																pos: position{line: 2881, col: 11, offset: 91017},
 																expr: &anyMatcher{
-																	line: 2881, col: 13, offset: 90977,
+																	line: 2881, col: 13, offset: 91019,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2864, col: 10, offset: 90641},
+																	pos: position{line: 2864, col: 10, offset: 90683},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2864, col: 10, offset: 90641},
+																		pos:        position{line: 2864, col: 10, offset: 90683},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12064,28 +12240,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2886, col: 8, offset: 91039},
+																pos: position{line: 2886, col: 8, offset: 91081},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2873, col: 12, offset: 90812},
+																		pos: position{line: 2873, col: 12, offset: 90854},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2873, col: 13, offset: 90813},
+																			pos: position{line: 2873, col: 13, offset: 90855},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 13, offset: 90813},
+																					pos:        position{line: 2873, col: 13, offset: 90855},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 20, offset: 90820},
+																					pos:        position{line: 2873, col: 20, offset: 90862},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 29, offset: 90829},
+																					pos:        position{line: 2873, col: 29, offset: 90871},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12094,9 +12270,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 90989},
+																		pos: position{line: 2883, col: 8, offset: 91031},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 90990,
+																			line: 2883, col: 9, offset: 91032,
 																		},
 																	},
 																},
@@ -12148,12 +12324,12 @@ var g = &grammar{
 																		pos: position{line: 426, col: 9, offset: 13063},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2758, col: 14, offset: 87810},
+																				pos: position{line: 2758, col: 14, offset: 87852},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2758, col: 14, offset: 87810},
+																					pos: position{line: 2758, col: 14, offset: 87852},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2758, col: 14, offset: 87810},
+																						pos:        position{line: 2758, col: 14, offset: 87852},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12162,10 +12338,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90641},
+																				pos: position{line: 2864, col: 10, offset: 90683},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90641},
+																					pos:        position{line: 2864, col: 10, offset: 90683},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12173,27 +12349,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2781, col: 5, offset: 88295},
+																				pos: position{line: 2781, col: 5, offset: 88337},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2782, col: 9, offset: 88305},
+																					pos: position{line: 2782, col: 9, offset: 88347},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2782, col: 10, offset: 88306},
+																							pos:        position{line: 2782, col: 10, offset: 88348},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2784, col: 13, offset: 88403},
+																							pos: position{line: 2784, col: 13, offset: 88445},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2784, col: 13, offset: 88403},
+																									pos: position{line: 2784, col: 13, offset: 88445},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2787, col: 13, offset: 88503},
+																									pos:        position{line: 2787, col: 13, offset: 88545},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12201,20 +12377,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2787, col: 19, offset: 88509},
+																							pos:        position{line: 2787, col: 19, offset: 88551},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2790, col: 13, offset: 88547},
+																							pos: position{line: 2790, col: 13, offset: 88589},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2790, col: 13, offset: 88547},
+																									pos: position{line: 2790, col: 13, offset: 88589},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2793, col: 14, offset: 88640},
+																									pos:        position{line: 2793, col: 14, offset: 88682},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12223,18 +12399,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2795, col: 12, offset: 88684},
+																							pos: position{line: 2795, col: 12, offset: 88726},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2795, col: 12, offset: 88684},
+																									pos:        position{line: 2795, col: 12, offset: 88726},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2795, col: 16, offset: 88688},
+																									pos: position{line: 2795, col: 16, offset: 88730},
 																									expr: &litMatcher{
-																										pos:        position{line: 2795, col: 17, offset: 88689},
+																										pos:        position{line: 2795, col: 17, offset: 88731},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12352,10 +12528,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2803, col: 12, offset: 88949},
+																				pos: position{line: 2803, col: 12, offset: 88991},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2803, col: 12, offset: 88949},
+																					pos:        position{line: 2803, col: 12, offset: 88991},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12373,10 +12549,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 35, offset: 11642},
 												expr: &actionExpr{
-													pos: position{line: 2864, col: 10, offset: 90641},
+													pos: position{line: 2864, col: 10, offset: 90683},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2864, col: 10, offset: 90641},
+														pos:        position{line: 2864, col: 10, offset: 90683},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12385,28 +12561,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2886, col: 8, offset: 91039},
+												pos: position{line: 2886, col: 8, offset: 91081},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2873, col: 12, offset: 90812},
+														pos: position{line: 2873, col: 12, offset: 90854},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2873, col: 13, offset: 90813},
+															pos: position{line: 2873, col: 13, offset: 90855},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2873, col: 13, offset: 90813},
+																	pos:        position{line: 2873, col: 13, offset: 90855},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2873, col: 20, offset: 90820},
+																	pos:        position{line: 2873, col: 20, offset: 90862},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2873, col: 29, offset: 90829},
+																	pos:        position{line: 2873, col: 29, offset: 90871},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12415,9 +12591,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2883, col: 8, offset: 90989},
+														pos: position{line: 2883, col: 8, offset: 91031},
 														expr: &anyMatcher{
-															line: 2883, col: 9, offset: 90990,
+															line: 2883, col: 9, offset: 91032,
 														},
 													},
 												},
@@ -12431,18 +12607,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2881, col: 11, offset: 90975},
+																pos: position{line: 2881, col: 11, offset: 91017},
 																expr: &anyMatcher{
-																	line: 2881, col: 13, offset: 90977,
+																	line: 2881, col: 13, offset: 91019,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2864, col: 10, offset: 90641},
+																	pos: position{line: 2864, col: 10, offset: 90683},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2864, col: 10, offset: 90641},
+																		pos:        position{line: 2864, col: 10, offset: 90683},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12451,28 +12627,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2886, col: 8, offset: 91039},
+																pos: position{line: 2886, col: 8, offset: 91081},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2873, col: 12, offset: 90812},
+																		pos: position{line: 2873, col: 12, offset: 90854},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2873, col: 13, offset: 90813},
+																			pos: position{line: 2873, col: 13, offset: 90855},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 13, offset: 90813},
+																					pos:        position{line: 2873, col: 13, offset: 90855},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 20, offset: 90820},
+																					pos:        position{line: 2873, col: 20, offset: 90862},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 29, offset: 90829},
+																					pos:        position{line: 2873, col: 29, offset: 90871},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12481,9 +12657,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 90989},
+																		pos: position{line: 2883, col: 8, offset: 91031},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 90990,
+																			line: 2883, col: 9, offset: 91032,
 																		},
 																	},
 																},
@@ -12512,10 +12688,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 380, col: 44, offset: 11775},
 												expr: &actionExpr{
-													pos: position{line: 2864, col: 10, offset: 90641},
+													pos: position{line: 2864, col: 10, offset: 90683},
 													run: (*parser).callonBlockAttributes210,
 													expr: &charClassMatcher{
-														pos:        position{line: 2864, col: 10, offset: 90641},
+														pos:        position{line: 2864, col: 10, offset: 90683},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12524,28 +12700,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2886, col: 8, offset: 91039},
+												pos: position{line: 2886, col: 8, offset: 91081},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2873, col: 12, offset: 90812},
+														pos: position{line: 2873, col: 12, offset: 90854},
 														run: (*parser).callonBlockAttributes213,
 														expr: &choiceExpr{
-															pos: position{line: 2873, col: 13, offset: 90813},
+															pos: position{line: 2873, col: 13, offset: 90855},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2873, col: 13, offset: 90813},
+																	pos:        position{line: 2873, col: 13, offset: 90855},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2873, col: 20, offset: 90820},
+																	pos:        position{line: 2873, col: 20, offset: 90862},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2873, col: 29, offset: 90829},
+																	pos:        position{line: 2873, col: 29, offset: 90871},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12554,9 +12730,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2883, col: 8, offset: 90989},
+														pos: position{line: 2883, col: 8, offset: 91031},
 														expr: &anyMatcher{
-															line: 2883, col: 9, offset: 90990,
+															line: 2883, col: 9, offset: 91032,
 														},
 													},
 												},
@@ -12570,18 +12746,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2881, col: 11, offset: 90975},
+																pos: position{line: 2881, col: 11, offset: 91017},
 																expr: &anyMatcher{
-																	line: 2881, col: 13, offset: 90977,
+																	line: 2881, col: 13, offset: 91019,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2864, col: 10, offset: 90641},
+																	pos: position{line: 2864, col: 10, offset: 90683},
 																	run: (*parser).callonBlockAttributes226,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2864, col: 10, offset: 90641},
+																		pos:        position{line: 2864, col: 10, offset: 90683},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12590,28 +12766,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2886, col: 8, offset: 91039},
+																pos: position{line: 2886, col: 8, offset: 91081},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2873, col: 12, offset: 90812},
+																		pos: position{line: 2873, col: 12, offset: 90854},
 																		run: (*parser).callonBlockAttributes229,
 																		expr: &choiceExpr{
-																			pos: position{line: 2873, col: 13, offset: 90813},
+																			pos: position{line: 2873, col: 13, offset: 90855},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 13, offset: 90813},
+																					pos:        position{line: 2873, col: 13, offset: 90855},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 20, offset: 90820},
+																					pos:        position{line: 2873, col: 20, offset: 90862},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 29, offset: 90829},
+																					pos:        position{line: 2873, col: 29, offset: 90871},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12620,9 +12796,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 90989},
+																		pos: position{line: 2883, col: 8, offset: 91031},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 90990,
+																			line: 2883, col: 9, offset: 91032,
 																		},
 																	},
 																},
@@ -12870,10 +13046,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 466, col: 13, offset: 14531},
 										expr: &actionExpr{
-											pos: position{line: 2864, col: 10, offset: 90641},
+											pos: position{line: 2864, col: 10, offset: 90683},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2864, col: 10, offset: 90641},
+												pos:        position{line: 2864, col: 10, offset: 90683},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13405,10 +13581,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 518, col: 9, offset: 16113},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90641},
+														pos: position{line: 2864, col: 10, offset: 90683},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90641},
+															pos:        position{line: 2864, col: 10, offset: 90683},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13469,10 +13645,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 524, col: 34, offset: 16256},
 														expr: &actionExpr{
-															pos: position{line: 2864, col: 10, offset: 90641},
+															pos: position{line: 2864, col: 10, offset: 90683},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2864, col: 10, offset: 90641},
+																pos:        position{line: 2864, col: 10, offset: 90683},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13512,10 +13688,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 529, col: 13, offset: 16420},
 												expr: &actionExpr{
-													pos: position{line: 2864, col: 10, offset: 90641},
+													pos: position{line: 2864, col: 10, offset: 90683},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2864, col: 10, offset: 90641},
+														pos:        position{line: 2864, col: 10, offset: 90683},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13538,10 +13714,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 529, col: 26, offset: 16433},
 																expr: &actionExpr{
-																	pos: position{line: 2864, col: 10, offset: 90641},
+																	pos: position{line: 2864, col: 10, offset: 90683},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2864, col: 10, offset: 90641},
+																		pos:        position{line: 2864, col: 10, offset: 90683},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13596,10 +13772,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 549, col: 22, offset: 17080},
 											expr: &actionExpr{
-												pos: position{line: 2864, col: 10, offset: 90641},
+												pos: position{line: 2864, col: 10, offset: 90683},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2864, col: 10, offset: 90641},
+													pos:        position{line: 2864, col: 10, offset: 90683},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13630,10 +13806,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 542, col: 9, offset: 16825},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90641},
+								pos: position{line: 2864, col: 10, offset: 90683},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90641},
+									pos:        position{line: 2864, col: 10, offset: 90683},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13663,10 +13839,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 543, col: 33, offset: 16865},
 										expr: &actionExpr{
-											pos: position{line: 2864, col: 10, offset: 90641},
+											pos: position{line: 2864, col: 10, offset: 90683},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2864, col: 10, offset: 90641},
+												pos:        position{line: 2864, col: 10, offset: 90683},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13721,10 +13897,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 559, col: 9, offset: 17297},
 											expr: &actionExpr{
-												pos: position{line: 2864, col: 10, offset: 90641},
+												pos: position{line: 2864, col: 10, offset: 90683},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2864, col: 10, offset: 90641},
+													pos:        position{line: 2864, col: 10, offset: 90683},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13803,12 +13979,12 @@ var g = &grammar{
 							pos: position{line: 572, col: 9, offset: 17614},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2758, col: 14, offset: 87810},
+									pos: position{line: 2758, col: 14, offset: 87852},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2758, col: 14, offset: 87810},
+										pos: position{line: 2758, col: 14, offset: 87852},
 										expr: &charClassMatcher{
-											pos:        position{line: 2758, col: 14, offset: 87810},
+											pos:        position{line: 2758, col: 14, offset: 87852},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13817,10 +13993,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2864, col: 10, offset: 90641},
+									pos: position{line: 2864, col: 10, offset: 90683},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2864, col: 10, offset: 90641},
+										pos:        position{line: 2864, col: 10, offset: 90683},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14277,10 +14453,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 592, col: 14, offset: 18354},
 											expr: &actionExpr{
-												pos: position{line: 2864, col: 10, offset: 90641},
+												pos: position{line: 2864, col: 10, offset: 90683},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2864, col: 10, offset: 90641},
+													pos:        position{line: 2864, col: 10, offset: 90683},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14317,12 +14493,12 @@ var g = &grammar{
 							pos: position{line: 598, col: 9, offset: 18465},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2758, col: 14, offset: 87810},
+									pos: position{line: 2758, col: 14, offset: 87852},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2758, col: 14, offset: 87810},
+										pos: position{line: 2758, col: 14, offset: 87852},
 										expr: &charClassMatcher{
-											pos:        position{line: 2758, col: 14, offset: 87810},
+											pos:        position{line: 2758, col: 14, offset: 87852},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14331,10 +14507,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2864, col: 10, offset: 90641},
+									pos: position{line: 2864, col: 10, offset: 90683},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2864, col: 10, offset: 90641},
+										pos:        position{line: 2864, col: 10, offset: 90683},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14761,10 +14937,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 619, col: 5, offset: 19321},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90641},
+								pos: position{line: 2864, col: 10, offset: 90683},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90641},
+									pos:        position{line: 2864, col: 10, offset: 90683},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15154,10 +15330,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2864, col: 10, offset: 90641},
+											pos: position{line: 2864, col: 10, offset: 90683},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2864, col: 10, offset: 90641},
+												pos:        position{line: 2864, col: 10, offset: 90683},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15208,12 +15384,12 @@ var g = &grammar{
 									pos:   position{line: 686, col: 32, offset: 21849},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2849, col: 7, offset: 90293},
+										pos: position{line: 2849, col: 7, offset: 90335},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2849, col: 7, offset: 90293},
+											pos: position{line: 2849, col: 7, offset: 90335},
 											expr: &charClassMatcher{
-												pos:        position{line: 2849, col: 7, offset: 90293},
+												pos:        position{line: 2849, col: 7, offset: 90335},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15225,10 +15401,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 40, offset: 21857},
 									expr: &actionExpr{
-										pos: position{line: 2864, col: 10, offset: 90641},
+										pos: position{line: 2864, col: 10, offset: 90683},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2864, col: 10, offset: 90641},
+											pos:        position{line: 2864, col: 10, offset: 90683},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15421,12 +15597,12 @@ var g = &grammar{
 									pos:   position{line: 688, col: 14, offset: 21974},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2849, col: 7, offset: 90293},
+										pos: position{line: 2849, col: 7, offset: 90335},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2849, col: 7, offset: 90293},
+											pos: position{line: 2849, col: 7, offset: 90335},
 											expr: &charClassMatcher{
-												pos:        position{line: 2849, col: 7, offset: 90293},
+												pos:        position{line: 2849, col: 7, offset: 90335},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15470,41 +15646,41 @@ var g = &grammar{
 							pos:   position{line: 692, col: 35, offset: 22087},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2818, col: 17, offset: 89304},
+								pos: position{line: 2818, col: 17, offset: 89346},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2818, col: 17, offset: 89304},
+									pos:   position{line: 2818, col: 17, offset: 89346},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2835, col: 5, offset: 89758},
+										pos: position{line: 2835, col: 5, offset: 89800},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2835, col: 5, offset: 89758},
+											pos:   position{line: 2835, col: 5, offset: 89800},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2835, col: 14, offset: 89767},
+												pos: position{line: 2835, col: 14, offset: 89809},
 												expr: &choiceExpr{
-													pos: position{line: 2836, col: 9, offset: 89777},
+													pos: position{line: 2836, col: 9, offset: 89819},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2836, col: 9, offset: 89777},
+															pos: position{line: 2836, col: 9, offset: 89819},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2836, col: 9, offset: 89777},
+																pos: position{line: 2836, col: 9, offset: 89819},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2836, col: 9, offset: 89777},
+																		pos: position{line: 2836, col: 9, offset: 89819},
 																		expr: &litMatcher{
-																			pos:        position{line: 2836, col: 10, offset: 89778},
+																			pos:        position{line: 2836, col: 10, offset: 89820},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2837, col: 9, offset: 89806},
+																		pos: position{line: 2837, col: 9, offset: 89848},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2837, col: 10, offset: 89807},
+																			pos:        position{line: 2837, col: 10, offset: 89849},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15515,27 +15691,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2840, col: 11, offset: 90019},
+															pos: position{line: 2840, col: 11, offset: 90061},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2840, col: 11, offset: 90019},
+																	pos:        position{line: 2840, col: 11, offset: 90061},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2840, col: 19, offset: 90027},
+																	pos: position{line: 2840, col: 19, offset: 90069},
 																	expr: &seqExpr{
-																		pos: position{line: 2840, col: 21, offset: 90029},
+																		pos: position{line: 2840, col: 21, offset: 90071},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2840, col: 21, offset: 90029},
+																				pos: position{line: 2840, col: 21, offset: 90071},
 																				expr: &actionExpr{
-																					pos: position{line: 2864, col: 10, offset: 90641},
+																					pos: position{line: 2864, col: 10, offset: 90683},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2864, col: 10, offset: 90641},
+																						pos:        position{line: 2864, col: 10, offset: 90683},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15544,11 +15720,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2840, col: 28, offset: 90036},
+																				pos: position{line: 2840, col: 28, offset: 90078},
 																				expr: &notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -15943,10 +16119,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2843, col: 11, offset: 90156},
+															pos: position{line: 2843, col: 11, offset: 90198},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2843, col: 11, offset: 90156},
+																pos:        position{line: 2843, col: 11, offset: 90198},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -15991,12 +16167,12 @@ var g = &grammar{
 							pos:   position{line: 1001, col: 11, offset: 31208},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2814, col: 14, offset: 89234},
+								pos: position{line: 2814, col: 14, offset: 89276},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2814, col: 14, offset: 89234},
+									pos: position{line: 2814, col: 14, offset: 89276},
 									expr: &charClassMatcher{
-										pos:        position{line: 2814, col: 14, offset: 89234},
+										pos:        position{line: 2814, col: 14, offset: 89276},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16006,28 +16182,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2886, col: 8, offset: 91039},
+							pos: position{line: 2886, col: 8, offset: 91081},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2873, col: 12, offset: 90812},
+									pos: position{line: 2873, col: 12, offset: 90854},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2873, col: 13, offset: 90813},
+										pos: position{line: 2873, col: 13, offset: 90855},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2873, col: 13, offset: 90813},
+												pos:        position{line: 2873, col: 13, offset: 90855},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 20, offset: 90820},
+												pos:        position{line: 2873, col: 20, offset: 90862},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 29, offset: 90829},
+												pos:        position{line: 2873, col: 29, offset: 90871},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16036,9 +16212,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2883, col: 8, offset: 90989},
+									pos: position{line: 2883, col: 8, offset: 91031},
 									expr: &anyMatcher{
-										line: 2883, col: 9, offset: 90990,
+										line: 2883, col: 9, offset: 91032,
 									},
 								},
 							},
@@ -16090,12 +16266,12 @@ var g = &grammar{
 													pos:   position{line: 2474, col: 49, offset: 79653},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2810, col: 13, offset: 89167},
+														pos: position{line: 2810, col: 13, offset: 89209},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2810, col: 13, offset: 89167},
+															pos: position{line: 2810, col: 13, offset: 89209},
 															expr: &charClassMatcher{
-																pos:        position{line: 2810, col: 13, offset: 89167},
+																pos:        position{line: 2810, col: 13, offset: 89209},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16105,28 +16281,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91039},
+													pos: position{line: 2886, col: 8, offset: 91081},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90812},
+															pos: position{line: 2873, col: 12, offset: 90854},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90813},
+																pos: position{line: 2873, col: 13, offset: 90855},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90813},
+																		pos:        position{line: 2873, col: 13, offset: 90855},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90820},
+																		pos:        position{line: 2873, col: 20, offset: 90862},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90829},
+																		pos:        position{line: 2873, col: 29, offset: 90871},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16135,9 +16311,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 90989},
+															pos: position{line: 2883, col: 8, offset: 91031},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 90990,
+																line: 2883, col: 9, offset: 91032,
 															},
 														},
 													},
@@ -16191,10 +16367,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23686},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90641},
+																		pos: position{line: 2864, col: 10, offset: 90683},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90641},
+																			pos:        position{line: 2864, col: 10, offset: 90683},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16203,28 +16379,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
+																			pos: position{line: 2873, col: 12, offset: 90854},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16233,9 +16409,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -16307,10 +16483,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23686},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90641},
+																												pos: position{line: 2864, col: 10, offset: 90683},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90641},
+																													pos:        position{line: 2864, col: 10, offset: 90683},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -16319,28 +16495,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91039},
+																											pos: position{line: 2886, col: 8, offset: 91081},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90812},
+																													pos: position{line: 2873, col: 12, offset: 90854},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90813},
+																														pos: position{line: 2873, col: 13, offset: 90855},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90813},
+																																pos:        position{line: 2873, col: 13, offset: 90855},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90820},
+																																pos:        position{line: 2873, col: 20, offset: 90862},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90829},
+																																pos:        position{line: 2873, col: 29, offset: 90871},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -16349,9 +16525,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 90989},
+																													pos: position{line: 2883, col: 8, offset: 91031},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 90990,
+																														line: 2883, col: 9, offset: 91032,
 																													},
 																												},
 																											},
@@ -16367,9 +16543,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -16385,21 +16561,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2881, col: 11, offset: 90975},
+																						pos: position{line: 2881, col: 11, offset: 91017},
 																						expr: &anyMatcher{
-																							line: 2881, col: 13, offset: 90977,
+																							line: 2881, col: 13, offset: 91019,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2810, col: 13, offset: 89167},
+																							pos: position{line: 2810, col: 13, offset: 89209},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2810, col: 13, offset: 89167},
+																								pos: position{line: 2810, col: 13, offset: 89209},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2810, col: 13, offset: 89167},
+																									pos:        position{line: 2810, col: 13, offset: 89209},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16409,28 +16585,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91039},
+																						pos: position{line: 2886, col: 8, offset: 91081},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90812},
+																								pos: position{line: 2873, col: 12, offset: 90854},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90813},
+																									pos: position{line: 2873, col: 13, offset: 90855},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90813},
+																											pos:        position{line: 2873, col: 13, offset: 90855},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90820},
+																											pos:        position{line: 2873, col: 20, offset: 90862},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90829},
+																											pos:        position{line: 2873, col: 29, offset: 90871},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16439,9 +16615,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 90989},
+																								pos: position{line: 2883, col: 8, offset: 91031},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 90990,
+																									line: 2883, col: 9, offset: 91032,
 																								},
 																							},
 																						},
@@ -16506,10 +16682,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23686},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonDocumentHeader107,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -16518,28 +16694,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonDocumentHeader110,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -16548,9 +16724,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -16566,9 +16742,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2883, col: 8, offset: 90989},
+																	pos: position{line: 2883, col: 8, offset: 91031},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 90990,
+																		line: 2883, col: 9, offset: 91032,
 																	},
 																},
 															},
@@ -16619,12 +16795,12 @@ var g = &grammar{
 													pos:   position{line: 2474, col: 49, offset: 79653},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2810, col: 13, offset: 89167},
+														pos: position{line: 2810, col: 13, offset: 89209},
 														run: (*parser).callonDocumentHeader130,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2810, col: 13, offset: 89167},
+															pos: position{line: 2810, col: 13, offset: 89209},
 															expr: &charClassMatcher{
-																pos:        position{line: 2810, col: 13, offset: 89167},
+																pos:        position{line: 2810, col: 13, offset: 89209},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16634,28 +16810,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91039},
+													pos: position{line: 2886, col: 8, offset: 91081},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90812},
+															pos: position{line: 2873, col: 12, offset: 90854},
 															run: (*parser).callonDocumentHeader134,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90813},
+																pos: position{line: 2873, col: 13, offset: 90855},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90813},
+																		pos:        position{line: 2873, col: 13, offset: 90855},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90820},
+																		pos:        position{line: 2873, col: 20, offset: 90862},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90829},
+																		pos:        position{line: 2873, col: 29, offset: 90871},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16664,9 +16840,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 90989},
+															pos: position{line: 2883, col: 8, offset: 91031},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 90990,
+																line: 2883, col: 9, offset: 91032,
 															},
 														},
 													},
@@ -16720,10 +16896,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23686},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90641},
+																		pos: position{line: 2864, col: 10, offset: 90683},
 																		run: (*parser).callonDocumentHeader153,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90641},
+																			pos:        position{line: 2864, col: 10, offset: 90683},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16732,28 +16908,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
+																			pos: position{line: 2873, col: 12, offset: 90854},
 																			run: (*parser).callonDocumentHeader156,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16762,9 +16938,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -16836,10 +17012,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23686},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90641},
+																												pos: position{line: 2864, col: 10, offset: 90683},
 																												run: (*parser).callonDocumentHeader181,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90641},
+																													pos:        position{line: 2864, col: 10, offset: 90683},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -16848,28 +17024,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91039},
+																											pos: position{line: 2886, col: 8, offset: 91081},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90812},
+																													pos: position{line: 2873, col: 12, offset: 90854},
 																													run: (*parser).callonDocumentHeader184,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90813},
+																														pos: position{line: 2873, col: 13, offset: 90855},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90813},
+																																pos:        position{line: 2873, col: 13, offset: 90855},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90820},
+																																pos:        position{line: 2873, col: 20, offset: 90862},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90829},
+																																pos:        position{line: 2873, col: 29, offset: 90871},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -16878,9 +17054,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 90989},
+																													pos: position{line: 2883, col: 8, offset: 91031},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 90990,
+																														line: 2883, col: 9, offset: 91032,
 																													},
 																												},
 																											},
@@ -16896,9 +17072,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -16914,21 +17090,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2881, col: 11, offset: 90975},
+																						pos: position{line: 2881, col: 11, offset: 91017},
 																						expr: &anyMatcher{
-																							line: 2881, col: 13, offset: 90977,
+																							line: 2881, col: 13, offset: 91019,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2810, col: 13, offset: 89167},
+																							pos: position{line: 2810, col: 13, offset: 89209},
 																							run: (*parser).callonDocumentHeader200,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2810, col: 13, offset: 89167},
+																								pos: position{line: 2810, col: 13, offset: 89209},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2810, col: 13, offset: 89167},
+																									pos:        position{line: 2810, col: 13, offset: 89209},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16938,28 +17114,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91039},
+																						pos: position{line: 2886, col: 8, offset: 91081},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90812},
+																								pos: position{line: 2873, col: 12, offset: 90854},
 																								run: (*parser).callonDocumentHeader204,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90813},
+																									pos: position{line: 2873, col: 13, offset: 90855},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90813},
+																											pos:        position{line: 2873, col: 13, offset: 90855},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90820},
+																											pos:        position{line: 2873, col: 20, offset: 90862},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90829},
+																											pos:        position{line: 2873, col: 29, offset: 90871},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16968,9 +17144,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 90989},
+																								pos: position{line: 2883, col: 8, offset: 91031},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 90990,
+																									line: 2883, col: 9, offset: 91032,
 																								},
 																							},
 																						},
@@ -17035,10 +17211,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23686},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonDocumentHeader225,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -17047,28 +17223,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonDocumentHeader228,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -17077,9 +17253,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -17095,9 +17271,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2883, col: 8, offset: 90989},
+																	pos: position{line: 2883, col: 8, offset: 91031},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 90990,
+																		line: 2883, col: 9, offset: 91032,
 																	},
 																},
 															},
@@ -17142,10 +17318,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1137, col: 20, offset: 35088},
 																expr: &actionExpr{
-																	pos: position{line: 2864, col: 10, offset: 90641},
+																	pos: position{line: 2864, col: 10, offset: 90683},
 																	run: (*parser).callonDocumentHeader248,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2864, col: 10, offset: 90641},
+																		pos:        position{line: 2864, col: 10, offset: 90683},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17196,10 +17372,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1156, col: 5, offset: 35693},
 																										expr: &actionExpr{
-																											pos: position{line: 2864, col: 10, offset: 90641},
+																											pos: position{line: 2864, col: 10, offset: 90683},
 																											run: (*parser).callonDocumentHeader263,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2864, col: 10, offset: 90641},
+																												pos:        position{line: 2864, col: 10, offset: 90683},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17231,10 +17407,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1160, col: 5, offset: 35792},
 																										expr: &actionExpr{
-																											pos: position{line: 2864, col: 10, offset: 90641},
+																											pos: position{line: 2864, col: 10, offset: 90683},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2864, col: 10, offset: 90641},
+																												pos:        position{line: 2864, col: 10, offset: 90683},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17266,10 +17442,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1164, col: 5, offset: 35889},
 																										expr: &actionExpr{
-																											pos: position{line: 2864, col: 10, offset: 90641},
+																											pos: position{line: 2864, col: 10, offset: 90683},
 																											run: (*parser).callonDocumentHeader279,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2864, col: 10, offset: 90641},
+																												pos:        position{line: 2864, col: 10, offset: 90683},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17294,9 +17470,9 @@ var g = &grammar{
 																								pos: position{line: 1170, col: 5, offset: 36011},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2881, col: 11, offset: 90975},
+																										pos: position{line: 2881, col: 11, offset: 91017},
 																										expr: &anyMatcher{
-																											line: 2881, col: 13, offset: 90977,
+																											line: 2881, col: 13, offset: 91019,
 																										},
 																									},
 																									&litMatcher{
@@ -17337,10 +17513,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1142, col: 69, offset: 35281},
 																					expr: &actionExpr{
-																						pos: position{line: 2864, col: 10, offset: 90641},
+																						pos: position{line: 2864, col: 10, offset: 90683},
 																						run: (*parser).callonDocumentHeader294,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2864, col: 10, offset: 90641},
+																							pos:        position{line: 2864, col: 10, offset: 90683},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17360,10 +17536,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1142, col: 81, offset: 35293},
 																					expr: &actionExpr{
-																						pos: position{line: 2864, col: 10, offset: 90641},
+																						pos: position{line: 2864, col: 10, offset: 90683},
 																						run: (*parser).callonDocumentHeader299,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2864, col: 10, offset: 90641},
+																							pos:        position{line: 2864, col: 10, offset: 90683},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17381,28 +17557,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2886, col: 8, offset: 91039},
+																pos: position{line: 2886, col: 8, offset: 91081},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2873, col: 12, offset: 90812},
+																		pos: position{line: 2873, col: 12, offset: 90854},
 																		run: (*parser).callonDocumentHeader303,
 																		expr: &choiceExpr{
-																			pos: position{line: 2873, col: 13, offset: 90813},
+																			pos: position{line: 2873, col: 13, offset: 90855},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 13, offset: 90813},
+																					pos:        position{line: 2873, col: 13, offset: 90855},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 20, offset: 90820},
+																					pos:        position{line: 2873, col: 20, offset: 90862},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 29, offset: 90829},
+																					pos:        position{line: 2873, col: 29, offset: 90871},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17411,9 +17587,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 90989},
+																		pos: position{line: 2883, col: 8, offset: 91031},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 90990,
+																			line: 2883, col: 9, offset: 91032,
 																		},
 																	},
 																},
@@ -17452,12 +17628,12 @@ var g = &grammar{
 																		pos:   position{line: 2474, col: 49, offset: 79653},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2810, col: 13, offset: 89167},
+																			pos: position{line: 2810, col: 13, offset: 89209},
 																			run: (*parser).callonDocumentHeader318,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2810, col: 13, offset: 89167},
+																				pos: position{line: 2810, col: 13, offset: 89209},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2810, col: 13, offset: 89167},
+																					pos:        position{line: 2810, col: 13, offset: 89209},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17467,28 +17643,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91039},
+																		pos: position{line: 2886, col: 8, offset: 91081},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90812},
+																				pos: position{line: 2873, col: 12, offset: 90854},
 																				run: (*parser).callonDocumentHeader322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90813},
+																					pos: position{line: 2873, col: 13, offset: 90855},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90813},
+																							pos:        position{line: 2873, col: 13, offset: 90855},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90820},
+																							pos:        position{line: 2873, col: 20, offset: 90862},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90829},
+																							pos:        position{line: 2873, col: 29, offset: 90871},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17497,9 +17673,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 90989},
+																				pos: position{line: 2883, col: 8, offset: 91031},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 90990,
+																					line: 2883, col: 9, offset: 91032,
 																				},
 																			},
 																		},
@@ -17553,10 +17729,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 742, col: 8, offset: 23686},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90641},
+																							pos: position{line: 2864, col: 10, offset: 90683},
 																							run: (*parser).callonDocumentHeader341,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90641},
+																								pos:        position{line: 2864, col: 10, offset: 90683},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17565,28 +17741,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91039},
+																						pos: position{line: 2886, col: 8, offset: 91081},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90812},
+																								pos: position{line: 2873, col: 12, offset: 90854},
 																								run: (*parser).callonDocumentHeader344,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90813},
+																									pos: position{line: 2873, col: 13, offset: 90855},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90813},
+																											pos:        position{line: 2873, col: 13, offset: 90855},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90820},
+																											pos:        position{line: 2873, col: 20, offset: 90862},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90829},
+																											pos:        position{line: 2873, col: 29, offset: 90871},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17595,9 +17771,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 90989},
+																								pos: position{line: 2883, col: 8, offset: 91031},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 90990,
+																									line: 2883, col: 9, offset: 91032,
 																								},
 																							},
 																						},
@@ -17669,10 +17845,10 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 742, col: 8, offset: 23686},
 																																expr: &actionExpr{
-																																	pos: position{line: 2864, col: 10, offset: 90641},
+																																	pos: position{line: 2864, col: 10, offset: 90683},
 																																	run: (*parser).callonDocumentHeader369,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2864, col: 10, offset: 90641},
+																																		pos:        position{line: 2864, col: 10, offset: 90683},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -17681,28 +17857,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2886, col: 8, offset: 91039},
+																																pos: position{line: 2886, col: 8, offset: 91081},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2873, col: 12, offset: 90812},
+																																		pos: position{line: 2873, col: 12, offset: 90854},
 																																		run: (*parser).callonDocumentHeader372,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2873, col: 13, offset: 90813},
+																																			pos: position{line: 2873, col: 13, offset: 90855},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2873, col: 13, offset: 90813},
+																																					pos:        position{line: 2873, col: 13, offset: 90855},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2873, col: 20, offset: 90820},
+																																					pos:        position{line: 2873, col: 20, offset: 90862},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2873, col: 29, offset: 90829},
+																																					pos:        position{line: 2873, col: 29, offset: 90871},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -17711,9 +17887,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2883, col: 8, offset: 90989},
+																																		pos: position{line: 2883, col: 8, offset: 91031},
 																																		expr: &anyMatcher{
-																																			line: 2883, col: 9, offset: 90990,
+																																			line: 2883, col: 9, offset: 91032,
 																																		},
 																																	},
 																																},
@@ -17729,9 +17905,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 90989},
+																										pos: position{line: 2883, col: 8, offset: 91031},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 90990,
+																											line: 2883, col: 9, offset: 91032,
 																										},
 																									},
 																								},
@@ -17747,21 +17923,21 @@ var g = &grammar{
 																									pos: position{line: 811, col: 5, offset: 26088},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2881, col: 11, offset: 90975},
+																											pos: position{line: 2881, col: 11, offset: 91017},
 																											expr: &anyMatcher{
-																												line: 2881, col: 13, offset: 90977,
+																												line: 2881, col: 13, offset: 91019,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 812, col: 5, offset: 26163},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2810, col: 13, offset: 89167},
+																												pos: position{line: 2810, col: 13, offset: 89209},
 																												run: (*parser).callonDocumentHeader388,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2810, col: 13, offset: 89167},
+																													pos: position{line: 2810, col: 13, offset: 89209},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2810, col: 13, offset: 89167},
+																														pos:        position{line: 2810, col: 13, offset: 89209},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17771,28 +17947,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91039},
+																											pos: position{line: 2886, col: 8, offset: 91081},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90812},
+																													pos: position{line: 2873, col: 12, offset: 90854},
 																													run: (*parser).callonDocumentHeader392,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90813},
+																														pos: position{line: 2873, col: 13, offset: 90855},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90813},
+																																pos:        position{line: 2873, col: 13, offset: 90855},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90820},
+																																pos:        position{line: 2873, col: 20, offset: 90862},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90829},
+																																pos:        position{line: 2873, col: 29, offset: 90871},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17801,9 +17977,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 90989},
+																													pos: position{line: 2883, col: 8, offset: 91031},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 90990,
+																														line: 2883, col: 9, offset: 91032,
 																													},
 																												},
 																											},
@@ -17868,10 +18044,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 742, col: 8, offset: 23686},
 																												expr: &actionExpr{
-																													pos: position{line: 2864, col: 10, offset: 90641},
+																													pos: position{line: 2864, col: 10, offset: 90683},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2864, col: 10, offset: 90641},
+																														pos:        position{line: 2864, col: 10, offset: 90683},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -17880,28 +18056,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2886, col: 8, offset: 91039},
+																												pos: position{line: 2886, col: 8, offset: 91081},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2873, col: 12, offset: 90812},
+																														pos: position{line: 2873, col: 12, offset: 90854},
 																														run: (*parser).callonDocumentHeader416,
 																														expr: &choiceExpr{
-																															pos: position{line: 2873, col: 13, offset: 90813},
+																															pos: position{line: 2873, col: 13, offset: 90855},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 13, offset: 90813},
+																																	pos:        position{line: 2873, col: 13, offset: 90855},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 20, offset: 90820},
+																																	pos:        position{line: 2873, col: 20, offset: 90862},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 29, offset: 90829},
+																																	pos:        position{line: 2873, col: 29, offset: 90871},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -17910,9 +18086,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2883, col: 8, offset: 90989},
+																														pos: position{line: 2883, col: 8, offset: 91031},
 																														expr: &anyMatcher{
-																															line: 2883, col: 9, offset: 90990,
+																															line: 2883, col: 9, offset: 91032,
 																														},
 																													},
 																												},
@@ -17928,9 +18104,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 90989},
+																						pos: position{line: 2883, col: 8, offset: 91031},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 90990,
+																							line: 2883, col: 9, offset: 91032,
 																						},
 																					},
 																				},
@@ -17957,10 +18133,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1181, col: 21, offset: 36289},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90641},
+																		pos: position{line: 2864, col: 10, offset: 90683},
 																		run: (*parser).callonDocumentHeader431,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90641},
+																			pos:        position{line: 2864, col: 10, offset: 90683},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18062,10 +18238,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1193, col: 28, offset: 36920},
 																													expr: &actionExpr{
-																														pos: position{line: 2864, col: 10, offset: 90641},
+																														pos: position{line: 2864, col: 10, offset: 90683},
 																														run: (*parser).callonDocumentHeader455,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2864, col: 10, offset: 90641},
+																															pos:        position{line: 2864, col: 10, offset: 90683},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18212,28 +18388,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
+																			pos: position{line: 2873, col: 12, offset: 90854},
 																			run: (*parser).callonDocumentHeader487,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18242,9 +18418,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -18324,10 +18500,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2864, col: 10, offset: 90641},
+															pos: position{line: 2864, col: 10, offset: 90683},
 															run: (*parser).callonDocumentHeader509,
 															expr: &charClassMatcher{
-																pos:        position{line: 2864, col: 10, offset: 90641},
+																pos:        position{line: 2864, col: 10, offset: 90683},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18336,28 +18512,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2886, col: 8, offset: 91039},
+														pos: position{line: 2886, col: 8, offset: 91081},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90812},
+																pos: position{line: 2873, col: 12, offset: 90854},
 																run: (*parser).callonDocumentHeader512,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90813},
+																	pos: position{line: 2873, col: 13, offset: 90855},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90813},
+																			pos:        position{line: 2873, col: 13, offset: 90855},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90820},
+																			pos:        position{line: 2873, col: 20, offset: 90862},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90829},
+																			pos:        position{line: 2873, col: 29, offset: 90871},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18366,9 +18542,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 90989},
+																pos: position{line: 2883, col: 8, offset: 91031},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 90990,
+																	line: 2883, col: 9, offset: 91032,
 																},
 															},
 														},
@@ -18429,10 +18605,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2864, col: 10, offset: 90641},
+															pos: position{line: 2864, col: 10, offset: 90683},
 															run: (*parser).callonDocumentHeader530,
 															expr: &charClassMatcher{
-																pos:        position{line: 2864, col: 10, offset: 90641},
+																pos:        position{line: 2864, col: 10, offset: 90683},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18441,28 +18617,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2886, col: 8, offset: 91039},
+														pos: position{line: 2886, col: 8, offset: 91081},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90812},
+																pos: position{line: 2873, col: 12, offset: 90854},
 																run: (*parser).callonDocumentHeader533,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90813},
+																	pos: position{line: 2873, col: 13, offset: 90855},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90813},
+																			pos:        position{line: 2873, col: 13, offset: 90855},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90820},
+																			pos:        position{line: 2873, col: 20, offset: 90862},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90829},
+																			pos:        position{line: 2873, col: 29, offset: 90871},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18471,9 +18647,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 90989},
+																pos: position{line: 2883, col: 8, offset: 91031},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 90990,
+																	line: 2883, col: 9, offset: 91032,
 																},
 															},
 														},
@@ -18506,12 +18682,12 @@ var g = &grammar{
 														pos:   position{line: 2474, col: 49, offset: 79653},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2810, col: 13, offset: 89167},
+															pos: position{line: 2810, col: 13, offset: 89209},
 															run: (*parser).callonDocumentHeader546,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2810, col: 13, offset: 89167},
+																pos: position{line: 2810, col: 13, offset: 89209},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2810, col: 13, offset: 89167},
+																	pos:        position{line: 2810, col: 13, offset: 89209},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18521,28 +18697,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2886, col: 8, offset: 91039},
+														pos: position{line: 2886, col: 8, offset: 91081},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90812},
+																pos: position{line: 2873, col: 12, offset: 90854},
 																run: (*parser).callonDocumentHeader550,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90813},
+																	pos: position{line: 2873, col: 13, offset: 90855},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90813},
+																			pos:        position{line: 2873, col: 13, offset: 90855},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90820},
+																			pos:        position{line: 2873, col: 20, offset: 90862},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90829},
+																			pos:        position{line: 2873, col: 29, offset: 90871},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18551,9 +18727,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 90989},
+																pos: position{line: 2883, col: 8, offset: 91031},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 90990,
+																	line: 2883, col: 9, offset: 91032,
 																},
 															},
 														},
@@ -18607,10 +18783,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 742, col: 8, offset: 23686},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90641},
+																			pos: position{line: 2864, col: 10, offset: 90683},
 																			run: (*parser).callonDocumentHeader569,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90641},
+																				pos:        position{line: 2864, col: 10, offset: 90683},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -18619,28 +18795,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91039},
+																		pos: position{line: 2886, col: 8, offset: 91081},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90812},
+																				pos: position{line: 2873, col: 12, offset: 90854},
 																				run: (*parser).callonDocumentHeader572,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90813},
+																					pos: position{line: 2873, col: 13, offset: 90855},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90813},
+																							pos:        position{line: 2873, col: 13, offset: 90855},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90820},
+																							pos:        position{line: 2873, col: 20, offset: 90862},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90829},
+																							pos:        position{line: 2873, col: 29, offset: 90871},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18649,9 +18825,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 90989},
+																				pos: position{line: 2883, col: 8, offset: 91031},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 90990,
+																					line: 2883, col: 9, offset: 91032,
 																				},
 																			},
 																		},
@@ -18723,10 +18899,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 742, col: 8, offset: 23686},
 																												expr: &actionExpr{
-																													pos: position{line: 2864, col: 10, offset: 90641},
+																													pos: position{line: 2864, col: 10, offset: 90683},
 																													run: (*parser).callonDocumentHeader597,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2864, col: 10, offset: 90641},
+																														pos:        position{line: 2864, col: 10, offset: 90683},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -18735,28 +18911,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2886, col: 8, offset: 91039},
+																												pos: position{line: 2886, col: 8, offset: 91081},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2873, col: 12, offset: 90812},
+																														pos: position{line: 2873, col: 12, offset: 90854},
 																														run: (*parser).callonDocumentHeader600,
 																														expr: &choiceExpr{
-																															pos: position{line: 2873, col: 13, offset: 90813},
+																															pos: position{line: 2873, col: 13, offset: 90855},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 13, offset: 90813},
+																																	pos:        position{line: 2873, col: 13, offset: 90855},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 20, offset: 90820},
+																																	pos:        position{line: 2873, col: 20, offset: 90862},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 29, offset: 90829},
+																																	pos:        position{line: 2873, col: 29, offset: 90871},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -18765,9 +18941,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2883, col: 8, offset: 90989},
+																														pos: position{line: 2883, col: 8, offset: 91031},
 																														expr: &anyMatcher{
-																															line: 2883, col: 9, offset: 90990,
+																															line: 2883, col: 9, offset: 91032,
 																														},
 																													},
 																												},
@@ -18783,9 +18959,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 90989},
+																						pos: position{line: 2883, col: 8, offset: 91031},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 90990,
+																							line: 2883, col: 9, offset: 91032,
 																						},
 																					},
 																				},
@@ -18801,21 +18977,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 90975},
+																							pos: position{line: 2881, col: 11, offset: 91017},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 90977,
+																								line: 2881, col: 13, offset: 91019,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2810, col: 13, offset: 89167},
+																								pos: position{line: 2810, col: 13, offset: 89209},
 																								run: (*parser).callonDocumentHeader616,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2810, col: 13, offset: 89167},
+																									pos: position{line: 2810, col: 13, offset: 89209},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2810, col: 13, offset: 89167},
+																										pos:        position{line: 2810, col: 13, offset: 89209},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -18825,28 +19001,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonDocumentHeader620,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -18855,9 +19031,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -18922,10 +19098,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90641},
+																									pos: position{line: 2864, col: 10, offset: 90683},
 																									run: (*parser).callonDocumentHeader641,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90641},
+																										pos:        position{line: 2864, col: 10, offset: 90683},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -18934,28 +19110,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91039},
+																								pos: position{line: 2886, col: 8, offset: 91081},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90812},
+																										pos: position{line: 2873, col: 12, offset: 90854},
 																										run: (*parser).callonDocumentHeader644,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90813},
+																											pos: position{line: 2873, col: 13, offset: 90855},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90813},
+																													pos:        position{line: 2873, col: 13, offset: 90855},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90820},
+																													pos:        position{line: 2873, col: 20, offset: 90862},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90829},
+																													pos:        position{line: 2873, col: 29, offset: 90871},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -18964,9 +19140,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 90989},
+																										pos: position{line: 2883, col: 8, offset: 91031},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 90990,
+																											line: 2883, col: 9, offset: 91032,
 																										},
 																									},
 																								},
@@ -18982,9 +19158,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 90989},
+																		pos: position{line: 2883, col: 8, offset: 91031},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 90990,
+																			line: 2883, col: 9, offset: 91032,
 																		},
 																	},
 																},
@@ -19018,12 +19194,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2868, col: 11, offset: 90702},
+							pos: position{line: 2868, col: 11, offset: 90744},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2868, col: 11, offset: 90702},
+								pos: position{line: 2868, col: 11, offset: 90744},
 								expr: &charClassMatcher{
-									pos:        position{line: 2868, col: 11, offset: 90702},
+									pos:        position{line: 2868, col: 11, offset: 90744},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19040,28 +19216,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2886, col: 8, offset: 91039},
+							pos: position{line: 2886, col: 8, offset: 91081},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2873, col: 12, offset: 90812},
+									pos: position{line: 2873, col: 12, offset: 90854},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2873, col: 13, offset: 90813},
+										pos: position{line: 2873, col: 13, offset: 90855},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2873, col: 13, offset: 90813},
+												pos:        position{line: 2873, col: 13, offset: 90855},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 20, offset: 90820},
+												pos:        position{line: 2873, col: 20, offset: 90862},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 29, offset: 90829},
+												pos:        position{line: 2873, col: 29, offset: 90871},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19070,9 +19246,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2883, col: 8, offset: 90989},
+									pos: position{line: 2883, col: 8, offset: 91031},
 									expr: &anyMatcher{
-										line: 2883, col: 9, offset: 90990,
+										line: 2883, col: 9, offset: 91032,
 									},
 								},
 							},
@@ -19111,10 +19287,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1156, col: 5, offset: 35693},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90641},
+								pos: position{line: 2864, col: 10, offset: 90683},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90641},
+									pos:        position{line: 2864, col: 10, offset: 90683},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19146,10 +19322,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1160, col: 5, offset: 35792},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90641},
+								pos: position{line: 2864, col: 10, offset: 90683},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90641},
+									pos:        position{line: 2864, col: 10, offset: 90683},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19181,10 +19357,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1164, col: 5, offset: 35889},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90641},
+								pos: position{line: 2864, col: 10, offset: 90683},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90641},
+									pos:        position{line: 2864, col: 10, offset: 90683},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19250,12 +19426,12 @@ var g = &grammar{
 							pos:   position{line: 1292, col: 13, offset: 40091},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2849, col: 7, offset: 90293},
+								pos: position{line: 2849, col: 7, offset: 90335},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2849, col: 7, offset: 90293},
+									pos: position{line: 2849, col: 7, offset: 90335},
 									expr: &charClassMatcher{
-										pos:        position{line: 2849, col: 7, offset: 90293},
+										pos:        position{line: 2849, col: 7, offset: 90335},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19324,12 +19500,12 @@ var g = &grammar{
 							pos: position{line: 1303, col: 31, offset: 40551},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2758, col: 14, offset: 87810},
+									pos: position{line: 2758, col: 14, offset: 87852},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2758, col: 14, offset: 87810},
+										pos: position{line: 2758, col: 14, offset: 87852},
 										expr: &charClassMatcher{
-											pos:        position{line: 2758, col: 14, offset: 87810},
+											pos:        position{line: 2758, col: 14, offset: 87852},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19342,10 +19518,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2864, col: 10, offset: 90641},
+									pos: position{line: 2864, col: 10, offset: 90683},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2864, col: 10, offset: 90641},
+										pos:        position{line: 2864, col: 10, offset: 90683},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19465,48 +19641,48 @@ var g = &grammar{
 							pos:   position{line: 1324, col: 15, offset: 41369},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2822, col: 13, offset: 89400},
+								pos: position{line: 2822, col: 13, offset: 89442},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2822, col: 13, offset: 89400},
+									pos: position{line: 2822, col: 13, offset: 89442},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2822, col: 13, offset: 89400},
+											pos:   position{line: 2822, col: 13, offset: 89442},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2822, col: 20, offset: 89407},
+												pos: position{line: 2822, col: 20, offset: 89449},
 												expr: &actionExpr{
-													pos: position{line: 2830, col: 11, offset: 89646},
+													pos: position{line: 2830, col: 11, offset: 89688},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2830, col: 12, offset: 89647},
+														pos: position{line: 2830, col: 12, offset: 89689},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2830, col: 12, offset: 89647},
+																pos:        position{line: 2830, col: 12, offset: 89689},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2830, col: 24, offset: 89659},
+																pos:        position{line: 2830, col: 24, offset: 89701},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2830, col: 37, offset: 89672},
+																pos:        position{line: 2830, col: 37, offset: 89714},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2830, col: 48, offset: 89683},
+																pos:        position{line: 2830, col: 48, offset: 89725},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2830, col: 59, offset: 89694},
+																pos:        position{line: 2830, col: 59, offset: 89736},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19517,38 +19693,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2822, col: 30, offset: 89417},
+											pos:   position{line: 2822, col: 30, offset: 89459},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2835, col: 5, offset: 89758},
+												pos: position{line: 2835, col: 5, offset: 89800},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2835, col: 5, offset: 89758},
+													pos:   position{line: 2835, col: 5, offset: 89800},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2835, col: 14, offset: 89767},
+														pos: position{line: 2835, col: 14, offset: 89809},
 														expr: &choiceExpr{
-															pos: position{line: 2836, col: 9, offset: 89777},
+															pos: position{line: 2836, col: 9, offset: 89819},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2836, col: 9, offset: 89777},
+																	pos: position{line: 2836, col: 9, offset: 89819},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2836, col: 9, offset: 89777},
+																		pos: position{line: 2836, col: 9, offset: 89819},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2836, col: 9, offset: 89777},
+																				pos: position{line: 2836, col: 9, offset: 89819},
 																				expr: &litMatcher{
-																					pos:        position{line: 2836, col: 10, offset: 89778},
+																					pos:        position{line: 2836, col: 10, offset: 89820},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2837, col: 9, offset: 89806},
+																				pos: position{line: 2837, col: 9, offset: 89848},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2837, col: 10, offset: 89807},
+																					pos:        position{line: 2837, col: 10, offset: 89849},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19559,27 +19735,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2840, col: 11, offset: 90019},
+																	pos: position{line: 2840, col: 11, offset: 90061},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2840, col: 11, offset: 90019},
+																			pos:        position{line: 2840, col: 11, offset: 90061},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2840, col: 19, offset: 90027},
+																			pos: position{line: 2840, col: 19, offset: 90069},
 																			expr: &seqExpr{
-																				pos: position{line: 2840, col: 21, offset: 90029},
+																				pos: position{line: 2840, col: 21, offset: 90071},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2840, col: 21, offset: 90029},
+																						pos: position{line: 2840, col: 21, offset: 90071},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90641},
+																							pos: position{line: 2864, col: 10, offset: 90683},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90641},
+																								pos:        position{line: 2864, col: 10, offset: 90683},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19588,11 +19764,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2840, col: 28, offset: 90036},
+																						pos: position{line: 2840, col: 28, offset: 90078},
 																						expr: &notExpr{
-																							pos: position{line: 2883, col: 8, offset: 90989},
+																							pos: position{line: 2883, col: 8, offset: 91031},
 																							expr: &anyMatcher{
-																								line: 2883, col: 9, offset: 90990,
+																								line: 2883, col: 9, offset: 91032,
 																							},
 																						},
 																					},
@@ -19987,10 +20163,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2843, col: 11, offset: 90156},
+																	pos: position{line: 2843, col: 11, offset: 90198},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2843, col: 11, offset: 90156},
+																		pos:        position{line: 2843, col: 11, offset: 90198},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20017,10 +20193,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1324, col: 61, offset: 41415},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90641},
+								pos: position{line: 2864, col: 10, offset: 90683},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90641},
+									pos:        position{line: 2864, col: 10, offset: 90683},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20029,28 +20205,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2886, col: 8, offset: 91039},
+							pos: position{line: 2886, col: 8, offset: 91081},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2873, col: 12, offset: 90812},
+									pos: position{line: 2873, col: 12, offset: 90854},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2873, col: 13, offset: 90813},
+										pos: position{line: 2873, col: 13, offset: 90855},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2873, col: 13, offset: 90813},
+												pos:        position{line: 2873, col: 13, offset: 90855},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 20, offset: 90820},
+												pos:        position{line: 2873, col: 20, offset: 90862},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 29, offset: 90829},
+												pos:        position{line: 2873, col: 29, offset: 90871},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20059,9 +20235,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2883, col: 8, offset: 90989},
+									pos: position{line: 2883, col: 8, offset: 91031},
 									expr: &anyMatcher{
-										line: 2883, col: 9, offset: 90990,
+										line: 2883, col: 9, offset: 91032,
 									},
 								},
 							},
@@ -20098,48 +20274,48 @@ var g = &grammar{
 							pos:   position{line: 1329, col: 30, offset: 41661},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2822, col: 13, offset: 89400},
+								pos: position{line: 2822, col: 13, offset: 89442},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2822, col: 13, offset: 89400},
+									pos: position{line: 2822, col: 13, offset: 89442},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2822, col: 13, offset: 89400},
+											pos:   position{line: 2822, col: 13, offset: 89442},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2822, col: 20, offset: 89407},
+												pos: position{line: 2822, col: 20, offset: 89449},
 												expr: &actionExpr{
-													pos: position{line: 2830, col: 11, offset: 89646},
+													pos: position{line: 2830, col: 11, offset: 89688},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2830, col: 12, offset: 89647},
+														pos: position{line: 2830, col: 12, offset: 89689},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2830, col: 12, offset: 89647},
+																pos:        position{line: 2830, col: 12, offset: 89689},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2830, col: 24, offset: 89659},
+																pos:        position{line: 2830, col: 24, offset: 89701},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2830, col: 37, offset: 89672},
+																pos:        position{line: 2830, col: 37, offset: 89714},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2830, col: 48, offset: 89683},
+																pos:        position{line: 2830, col: 48, offset: 89725},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2830, col: 59, offset: 89694},
+																pos:        position{line: 2830, col: 59, offset: 89736},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20150,38 +20326,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2822, col: 30, offset: 89417},
+											pos:   position{line: 2822, col: 30, offset: 89459},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2835, col: 5, offset: 89758},
+												pos: position{line: 2835, col: 5, offset: 89800},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2835, col: 5, offset: 89758},
+													pos:   position{line: 2835, col: 5, offset: 89800},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2835, col: 14, offset: 89767},
+														pos: position{line: 2835, col: 14, offset: 89809},
 														expr: &choiceExpr{
-															pos: position{line: 2836, col: 9, offset: 89777},
+															pos: position{line: 2836, col: 9, offset: 89819},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2836, col: 9, offset: 89777},
+																	pos: position{line: 2836, col: 9, offset: 89819},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2836, col: 9, offset: 89777},
+																		pos: position{line: 2836, col: 9, offset: 89819},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2836, col: 9, offset: 89777},
+																				pos: position{line: 2836, col: 9, offset: 89819},
 																				expr: &litMatcher{
-																					pos:        position{line: 2836, col: 10, offset: 89778},
+																					pos:        position{line: 2836, col: 10, offset: 89820},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2837, col: 9, offset: 89806},
+																				pos: position{line: 2837, col: 9, offset: 89848},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2837, col: 10, offset: 89807},
+																					pos:        position{line: 2837, col: 10, offset: 89849},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20192,27 +20368,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2840, col: 11, offset: 90019},
+																	pos: position{line: 2840, col: 11, offset: 90061},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2840, col: 11, offset: 90019},
+																			pos:        position{line: 2840, col: 11, offset: 90061},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2840, col: 19, offset: 90027},
+																			pos: position{line: 2840, col: 19, offset: 90069},
 																			expr: &seqExpr{
-																				pos: position{line: 2840, col: 21, offset: 90029},
+																				pos: position{line: 2840, col: 21, offset: 90071},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2840, col: 21, offset: 90029},
+																						pos: position{line: 2840, col: 21, offset: 90071},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90641},
+																							pos: position{line: 2864, col: 10, offset: 90683},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90641},
+																								pos:        position{line: 2864, col: 10, offset: 90683},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20221,11 +20397,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2840, col: 28, offset: 90036},
+																						pos: position{line: 2840, col: 28, offset: 90078},
 																						expr: &notExpr{
-																							pos: position{line: 2883, col: 8, offset: 90989},
+																							pos: position{line: 2883, col: 8, offset: 91031},
 																							expr: &anyMatcher{
-																								line: 2883, col: 9, offset: 90990,
+																								line: 2883, col: 9, offset: 91032,
 																							},
 																						},
 																					},
@@ -20620,10 +20796,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2843, col: 11, offset: 90156},
+																	pos: position{line: 2843, col: 11, offset: 90198},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2843, col: 11, offset: 90156},
+																		pos:        position{line: 2843, col: 11, offset: 90198},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20718,12 +20894,12 @@ var g = &grammar{
 							expr: &zeroOrOneExpr{
 								pos: position{line: 1343, col: 35, offset: 42569},
 								expr: &actionExpr{
-									pos: position{line: 2758, col: 14, offset: 87810},
+									pos: position{line: 2758, col: 14, offset: 87852},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2758, col: 14, offset: 87810},
+										pos: position{line: 2758, col: 14, offset: 87852},
 										expr: &charClassMatcher{
-											pos:        position{line: 2758, col: 14, offset: 87810},
+											pos:        position{line: 2758, col: 14, offset: 87852},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20801,21 +20977,21 @@ var g = &grammar{
 								pos: position{line: 1356, col: 9, offset: 42947},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2763, col: 5, offset: 87883},
+										pos: position{line: 2763, col: 5, offset: 87925},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2763, col: 5, offset: 87883},
+											pos: position{line: 2763, col: 5, offset: 87925},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2763, col: 5, offset: 87883},
+													pos:   position{line: 2763, col: 5, offset: 87925},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2763, col: 11, offset: 87889},
+														pos: position{line: 2763, col: 11, offset: 87931},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2763, col: 11, offset: 87889},
+															pos: position{line: 2763, col: 11, offset: 87931},
 															expr: &charClassMatcher{
-																pos:        position{line: 2763, col: 11, offset: 87889},
+																pos:        position{line: 2763, col: 11, offset: 87931},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20825,36 +21001,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2766, col: 5, offset: 87947},
+													pos: position{line: 2766, col: 5, offset: 87989},
 													expr: &seqExpr{
-														pos: position{line: 2767, col: 9, offset: 87958},
+														pos: position{line: 2767, col: 9, offset: 88000},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2767, col: 9, offset: 87958},
+																pos:        position{line: 2767, col: 9, offset: 88000},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2768, col: 9, offset: 88007},
+																pos: position{line: 2768, col: 9, offset: 88049},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2772, col: 5, offset: 88087},
+													pos: position{line: 2772, col: 5, offset: 88129},
 													expr: &seqExpr{
-														pos: position{line: 2773, col: 9, offset: 88098},
+														pos: position{line: 2773, col: 9, offset: 88140},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2773, col: 9, offset: 88098},
+																pos:        position{line: 2773, col: 9, offset: 88140},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2773, col: 13, offset: 88102},
+																pos:        position{line: 2773, col: 13, offset: 88144},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -20867,12 +21043,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2868, col: 11, offset: 90702},
+										pos: position{line: 2868, col: 11, offset: 90744},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2868, col: 11, offset: 90702},
+											pos: position{line: 2868, col: 11, offset: 90744},
 											expr: &charClassMatcher{
-												pos:        position{line: 2868, col: 11, offset: 90702},
+												pos:        position{line: 2868, col: 11, offset: 90744},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -20947,27 +21123,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2781, col: 5, offset: 88295},
+										pos: position{line: 2781, col: 5, offset: 88337},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2782, col: 9, offset: 88305},
+											pos: position{line: 2782, col: 9, offset: 88347},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2782, col: 10, offset: 88306},
+													pos:        position{line: 2782, col: 10, offset: 88348},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2784, col: 13, offset: 88403},
+													pos: position{line: 2784, col: 13, offset: 88445},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2784, col: 13, offset: 88403},
+															pos: position{line: 2784, col: 13, offset: 88445},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2787, col: 13, offset: 88503},
+															pos:        position{line: 2787, col: 13, offset: 88545},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -20975,20 +21151,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2787, col: 19, offset: 88509},
+													pos:        position{line: 2787, col: 19, offset: 88551},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2790, col: 13, offset: 88547},
+													pos: position{line: 2790, col: 13, offset: 88589},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2790, col: 13, offset: 88547},
+															pos: position{line: 2790, col: 13, offset: 88589},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2793, col: 14, offset: 88640},
+															pos:        position{line: 2793, col: 14, offset: 88682},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -20997,18 +21173,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2795, col: 12, offset: 88684},
+													pos: position{line: 2795, col: 12, offset: 88726},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2795, col: 12, offset: 88684},
+															pos:        position{line: 2795, col: 12, offset: 88726},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2795, col: 16, offset: 88688},
+															pos: position{line: 2795, col: 16, offset: 88730},
 															expr: &litMatcher{
-																pos:        position{line: 2795, col: 17, offset: 88689},
+																pos:        position{line: 2795, col: 17, offset: 88731},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21046,10 +21222,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1226, col: 5, offset: 37991},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90641},
+														pos: position{line: 2864, col: 10, offset: 90683},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90641},
+															pos:        position{line: 2864, col: 10, offset: 90683},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21060,28 +21236,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1226, col: 12, offset: 37998},
 													expr: &choiceExpr{
-														pos: position{line: 2886, col: 8, offset: 91039},
+														pos: position{line: 2886, col: 8, offset: 91081},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90812},
+																pos: position{line: 2873, col: 12, offset: 90854},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90813},
+																	pos: position{line: 2873, col: 13, offset: 90855},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90813},
+																			pos:        position{line: 2873, col: 13, offset: 90855},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90820},
+																			pos:        position{line: 2873, col: 20, offset: 90862},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90829},
+																			pos:        position{line: 2873, col: 29, offset: 90871},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21090,9 +21266,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 90989},
+																pos: position{line: 2883, col: 8, offset: 91031},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 90990,
+																	line: 2883, col: 9, offset: 91032,
 																},
 															},
 														},
@@ -21476,25 +21652,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2873, col: 12, offset: 90812},
+										pos: position{line: 2873, col: 12, offset: 90854},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2873, col: 13, offset: 90813},
+											pos: position{line: 2873, col: 13, offset: 90855},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2873, col: 13, offset: 90813},
+													pos:        position{line: 2873, col: 13, offset: 90855},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2873, col: 20, offset: 90820},
+													pos:        position{line: 2873, col: 20, offset: 90862},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2873, col: 29, offset: 90829},
+													pos:        position{line: 2873, col: 29, offset: 90871},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21503,10 +21679,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2803, col: 12, offset: 88949},
+										pos: position{line: 2803, col: 12, offset: 88991},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2803, col: 12, offset: 88949},
+											pos:        position{line: 2803, col: 12, offset: 88991},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21638,55 +21814,55 @@ var g = &grammar{
 									pos:   position{line: 1418, col: 5, offset: 45653},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2826, col: 23, offset: 89527},
+										pos: position{line: 2826, col: 23, offset: 89569},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2826, col: 23, offset: 89527},
+											pos: position{line: 2826, col: 23, offset: 89569},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2826, col: 23, offset: 89527},
+													pos: position{line: 2826, col: 23, offset: 89569},
 													expr: &litMatcher{
-														pos:        position{line: 2826, col: 24, offset: 89528},
+														pos:        position{line: 2826, col: 24, offset: 89570},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2826, col: 28, offset: 89532},
+													pos:   position{line: 2826, col: 28, offset: 89574},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2830, col: 11, offset: 89646},
+														pos: position{line: 2830, col: 11, offset: 89688},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2830, col: 12, offset: 89647},
+															pos: position{line: 2830, col: 12, offset: 89689},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2830, col: 12, offset: 89647},
+																	pos:        position{line: 2830, col: 12, offset: 89689},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2830, col: 24, offset: 89659},
+																	pos:        position{line: 2830, col: 24, offset: 89701},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2830, col: 37, offset: 89672},
+																	pos:        position{line: 2830, col: 37, offset: 89714},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2830, col: 48, offset: 89683},
+																	pos:        position{line: 2830, col: 48, offset: 89725},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2830, col: 59, offset: 89694},
+																	pos:        position{line: 2830, col: 59, offset: 89736},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21696,38 +21872,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2826, col: 44, offset: 89548},
+													pos:   position{line: 2826, col: 44, offset: 89590},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2835, col: 5, offset: 89758},
+														pos: position{line: 2835, col: 5, offset: 89800},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2835, col: 5, offset: 89758},
+															pos:   position{line: 2835, col: 5, offset: 89800},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2835, col: 14, offset: 89767},
+																pos: position{line: 2835, col: 14, offset: 89809},
 																expr: &choiceExpr{
-																	pos: position{line: 2836, col: 9, offset: 89777},
+																	pos: position{line: 2836, col: 9, offset: 89819},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2836, col: 9, offset: 89777},
+																			pos: position{line: 2836, col: 9, offset: 89819},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2836, col: 9, offset: 89777},
+																				pos: position{line: 2836, col: 9, offset: 89819},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2836, col: 9, offset: 89777},
+																						pos: position{line: 2836, col: 9, offset: 89819},
 																						expr: &litMatcher{
-																							pos:        position{line: 2836, col: 10, offset: 89778},
+																							pos:        position{line: 2836, col: 10, offset: 89820},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2837, col: 9, offset: 89806},
+																						pos: position{line: 2837, col: 9, offset: 89848},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2837, col: 10, offset: 89807},
+																							pos:        position{line: 2837, col: 10, offset: 89849},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21738,27 +21914,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2840, col: 11, offset: 90019},
+																			pos: position{line: 2840, col: 11, offset: 90061},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2840, col: 11, offset: 90019},
+																					pos:        position{line: 2840, col: 11, offset: 90061},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2840, col: 19, offset: 90027},
+																					pos: position{line: 2840, col: 19, offset: 90069},
 																					expr: &seqExpr{
-																						pos: position{line: 2840, col: 21, offset: 90029},
+																						pos: position{line: 2840, col: 21, offset: 90071},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2840, col: 21, offset: 90029},
+																								pos: position{line: 2840, col: 21, offset: 90071},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90641},
+																									pos: position{line: 2864, col: 10, offset: 90683},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90641},
+																										pos:        position{line: 2864, col: 10, offset: 90683},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21767,11 +21943,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2840, col: 28, offset: 90036},
+																								pos: position{line: 2840, col: 28, offset: 90078},
 																								expr: &notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -22166,10 +22342,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2843, col: 11, offset: 90156},
+																			pos: position{line: 2843, col: 11, offset: 90198},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2843, col: 11, offset: 90156},
+																				pos:        position{line: 2843, col: 11, offset: 90198},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22344,48 +22520,48 @@ var g = &grammar{
 									pos:   position{line: 1431, col: 17, offset: 46068},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2822, col: 13, offset: 89400},
+										pos: position{line: 2822, col: 13, offset: 89442},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2822, col: 13, offset: 89400},
+											pos: position{line: 2822, col: 13, offset: 89442},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2822, col: 13, offset: 89400},
+													pos:   position{line: 2822, col: 13, offset: 89442},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2822, col: 20, offset: 89407},
+														pos: position{line: 2822, col: 20, offset: 89449},
 														expr: &actionExpr{
-															pos: position{line: 2830, col: 11, offset: 89646},
+															pos: position{line: 2830, col: 11, offset: 89688},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2830, col: 12, offset: 89647},
+																pos: position{line: 2830, col: 12, offset: 89689},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2830, col: 12, offset: 89647},
+																		pos:        position{line: 2830, col: 12, offset: 89689},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2830, col: 24, offset: 89659},
+																		pos:        position{line: 2830, col: 24, offset: 89701},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2830, col: 37, offset: 89672},
+																		pos:        position{line: 2830, col: 37, offset: 89714},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2830, col: 48, offset: 89683},
+																		pos:        position{line: 2830, col: 48, offset: 89725},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2830, col: 59, offset: 89694},
+																		pos:        position{line: 2830, col: 59, offset: 89736},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22396,38 +22572,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2822, col: 30, offset: 89417},
+													pos:   position{line: 2822, col: 30, offset: 89459},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2835, col: 5, offset: 89758},
+														pos: position{line: 2835, col: 5, offset: 89800},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2835, col: 5, offset: 89758},
+															pos:   position{line: 2835, col: 5, offset: 89800},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2835, col: 14, offset: 89767},
+																pos: position{line: 2835, col: 14, offset: 89809},
 																expr: &choiceExpr{
-																	pos: position{line: 2836, col: 9, offset: 89777},
+																	pos: position{line: 2836, col: 9, offset: 89819},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2836, col: 9, offset: 89777},
+																			pos: position{line: 2836, col: 9, offset: 89819},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2836, col: 9, offset: 89777},
+																				pos: position{line: 2836, col: 9, offset: 89819},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2836, col: 9, offset: 89777},
+																						pos: position{line: 2836, col: 9, offset: 89819},
 																						expr: &litMatcher{
-																							pos:        position{line: 2836, col: 10, offset: 89778},
+																							pos:        position{line: 2836, col: 10, offset: 89820},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2837, col: 9, offset: 89806},
+																						pos: position{line: 2837, col: 9, offset: 89848},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2837, col: 10, offset: 89807},
+																							pos:        position{line: 2837, col: 10, offset: 89849},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22438,27 +22614,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2840, col: 11, offset: 90019},
+																			pos: position{line: 2840, col: 11, offset: 90061},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2840, col: 11, offset: 90019},
+																					pos:        position{line: 2840, col: 11, offset: 90061},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2840, col: 19, offset: 90027},
+																					pos: position{line: 2840, col: 19, offset: 90069},
 																					expr: &seqExpr{
-																						pos: position{line: 2840, col: 21, offset: 90029},
+																						pos: position{line: 2840, col: 21, offset: 90071},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2840, col: 21, offset: 90029},
+																								pos: position{line: 2840, col: 21, offset: 90071},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90641},
+																									pos: position{line: 2864, col: 10, offset: 90683},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90641},
+																										pos:        position{line: 2864, col: 10, offset: 90683},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22467,11 +22643,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2840, col: 28, offset: 90036},
+																								pos: position{line: 2840, col: 28, offset: 90078},
 																								expr: &notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -22866,10 +23042,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2843, col: 11, offset: 90156},
+																			pos: position{line: 2843, col: 11, offset: 90198},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2843, col: 11, offset: 90156},
+																				pos:        position{line: 2843, col: 11, offset: 90198},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22912,48 +23088,48 @@ var g = &grammar{
 									pos:   position{line: 1436, col: 13, offset: 46235},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2822, col: 13, offset: 89400},
+										pos: position{line: 2822, col: 13, offset: 89442},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2822, col: 13, offset: 89400},
+											pos: position{line: 2822, col: 13, offset: 89442},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2822, col: 13, offset: 89400},
+													pos:   position{line: 2822, col: 13, offset: 89442},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2822, col: 20, offset: 89407},
+														pos: position{line: 2822, col: 20, offset: 89449},
 														expr: &actionExpr{
-															pos: position{line: 2830, col: 11, offset: 89646},
+															pos: position{line: 2830, col: 11, offset: 89688},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2830, col: 12, offset: 89647},
+																pos: position{line: 2830, col: 12, offset: 89689},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2830, col: 12, offset: 89647},
+																		pos:        position{line: 2830, col: 12, offset: 89689},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2830, col: 24, offset: 89659},
+																		pos:        position{line: 2830, col: 24, offset: 89701},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2830, col: 37, offset: 89672},
+																		pos:        position{line: 2830, col: 37, offset: 89714},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2830, col: 48, offset: 89683},
+																		pos:        position{line: 2830, col: 48, offset: 89725},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2830, col: 59, offset: 89694},
+																		pos:        position{line: 2830, col: 59, offset: 89736},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22964,38 +23140,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2822, col: 30, offset: 89417},
+													pos:   position{line: 2822, col: 30, offset: 89459},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2835, col: 5, offset: 89758},
+														pos: position{line: 2835, col: 5, offset: 89800},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2835, col: 5, offset: 89758},
+															pos:   position{line: 2835, col: 5, offset: 89800},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2835, col: 14, offset: 89767},
+																pos: position{line: 2835, col: 14, offset: 89809},
 																expr: &choiceExpr{
-																	pos: position{line: 2836, col: 9, offset: 89777},
+																	pos: position{line: 2836, col: 9, offset: 89819},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2836, col: 9, offset: 89777},
+																			pos: position{line: 2836, col: 9, offset: 89819},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2836, col: 9, offset: 89777},
+																				pos: position{line: 2836, col: 9, offset: 89819},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2836, col: 9, offset: 89777},
+																						pos: position{line: 2836, col: 9, offset: 89819},
 																						expr: &litMatcher{
-																							pos:        position{line: 2836, col: 10, offset: 89778},
+																							pos:        position{line: 2836, col: 10, offset: 89820},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2837, col: 9, offset: 89806},
+																						pos: position{line: 2837, col: 9, offset: 89848},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2837, col: 10, offset: 89807},
+																							pos:        position{line: 2837, col: 10, offset: 89849},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23006,27 +23182,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2840, col: 11, offset: 90019},
+																			pos: position{line: 2840, col: 11, offset: 90061},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2840, col: 11, offset: 90019},
+																					pos:        position{line: 2840, col: 11, offset: 90061},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2840, col: 19, offset: 90027},
+																					pos: position{line: 2840, col: 19, offset: 90069},
 																					expr: &seqExpr{
-																						pos: position{line: 2840, col: 21, offset: 90029},
+																						pos: position{line: 2840, col: 21, offset: 90071},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2840, col: 21, offset: 90029},
+																								pos: position{line: 2840, col: 21, offset: 90071},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90641},
+																									pos: position{line: 2864, col: 10, offset: 90683},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90641},
+																										pos:        position{line: 2864, col: 10, offset: 90683},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23035,11 +23211,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2840, col: 28, offset: 90036},
+																								pos: position{line: 2840, col: 28, offset: 90078},
 																								expr: &notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -23434,10 +23610,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2843, col: 11, offset: 90156},
+																			pos: position{line: 2843, col: 11, offset: 90198},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2843, col: 11, offset: 90156},
+																				pos:        position{line: 2843, col: 11, offset: 90198},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23489,55 +23665,55 @@ var g = &grammar{
 									pos:   position{line: 1443, col: 9, offset: 46544},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2826, col: 23, offset: 89527},
+										pos: position{line: 2826, col: 23, offset: 89569},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2826, col: 23, offset: 89527},
+											pos: position{line: 2826, col: 23, offset: 89569},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2826, col: 23, offset: 89527},
+													pos: position{line: 2826, col: 23, offset: 89569},
 													expr: &litMatcher{
-														pos:        position{line: 2826, col: 24, offset: 89528},
+														pos:        position{line: 2826, col: 24, offset: 89570},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2826, col: 28, offset: 89532},
+													pos:   position{line: 2826, col: 28, offset: 89574},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2830, col: 11, offset: 89646},
+														pos: position{line: 2830, col: 11, offset: 89688},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2830, col: 12, offset: 89647},
+															pos: position{line: 2830, col: 12, offset: 89689},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2830, col: 12, offset: 89647},
+																	pos:        position{line: 2830, col: 12, offset: 89689},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2830, col: 24, offset: 89659},
+																	pos:        position{line: 2830, col: 24, offset: 89701},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2830, col: 37, offset: 89672},
+																	pos:        position{line: 2830, col: 37, offset: 89714},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2830, col: 48, offset: 89683},
+																	pos:        position{line: 2830, col: 48, offset: 89725},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2830, col: 59, offset: 89694},
+																	pos:        position{line: 2830, col: 59, offset: 89736},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23547,38 +23723,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2826, col: 44, offset: 89548},
+													pos:   position{line: 2826, col: 44, offset: 89590},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2835, col: 5, offset: 89758},
+														pos: position{line: 2835, col: 5, offset: 89800},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2835, col: 5, offset: 89758},
+															pos:   position{line: 2835, col: 5, offset: 89800},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2835, col: 14, offset: 89767},
+																pos: position{line: 2835, col: 14, offset: 89809},
 																expr: &choiceExpr{
-																	pos: position{line: 2836, col: 9, offset: 89777},
+																	pos: position{line: 2836, col: 9, offset: 89819},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2836, col: 9, offset: 89777},
+																			pos: position{line: 2836, col: 9, offset: 89819},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2836, col: 9, offset: 89777},
+																				pos: position{line: 2836, col: 9, offset: 89819},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2836, col: 9, offset: 89777},
+																						pos: position{line: 2836, col: 9, offset: 89819},
 																						expr: &litMatcher{
-																							pos:        position{line: 2836, col: 10, offset: 89778},
+																							pos:        position{line: 2836, col: 10, offset: 89820},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2837, col: 9, offset: 89806},
+																						pos: position{line: 2837, col: 9, offset: 89848},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2837, col: 10, offset: 89807},
+																							pos:        position{line: 2837, col: 10, offset: 89849},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23589,27 +23765,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2840, col: 11, offset: 90019},
+																			pos: position{line: 2840, col: 11, offset: 90061},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2840, col: 11, offset: 90019},
+																					pos:        position{line: 2840, col: 11, offset: 90061},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2840, col: 19, offset: 90027},
+																					pos: position{line: 2840, col: 19, offset: 90069},
 																					expr: &seqExpr{
-																						pos: position{line: 2840, col: 21, offset: 90029},
+																						pos: position{line: 2840, col: 21, offset: 90071},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2840, col: 21, offset: 90029},
+																								pos: position{line: 2840, col: 21, offset: 90071},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90641},
+																									pos: position{line: 2864, col: 10, offset: 90683},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90641},
+																										pos:        position{line: 2864, col: 10, offset: 90683},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23618,11 +23794,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2840, col: 28, offset: 90036},
+																								pos: position{line: 2840, col: 28, offset: 90078},
 																								expr: &notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -24017,10 +24193,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2843, col: 11, offset: 90156},
+																			pos: position{line: 2843, col: 11, offset: 90198},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2843, col: 11, offset: 90156},
+																				pos:        position{line: 2843, col: 11, offset: 90198},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24060,55 +24236,55 @@ var g = &grammar{
 									pos:   position{line: 1448, col: 5, offset: 46714},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2826, col: 23, offset: 89527},
+										pos: position{line: 2826, col: 23, offset: 89569},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2826, col: 23, offset: 89527},
+											pos: position{line: 2826, col: 23, offset: 89569},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2826, col: 23, offset: 89527},
+													pos: position{line: 2826, col: 23, offset: 89569},
 													expr: &litMatcher{
-														pos:        position{line: 2826, col: 24, offset: 89528},
+														pos:        position{line: 2826, col: 24, offset: 89570},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2826, col: 28, offset: 89532},
+													pos:   position{line: 2826, col: 28, offset: 89574},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2830, col: 11, offset: 89646},
+														pos: position{line: 2830, col: 11, offset: 89688},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2830, col: 12, offset: 89647},
+															pos: position{line: 2830, col: 12, offset: 89689},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2830, col: 12, offset: 89647},
+																	pos:        position{line: 2830, col: 12, offset: 89689},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2830, col: 24, offset: 89659},
+																	pos:        position{line: 2830, col: 24, offset: 89701},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2830, col: 37, offset: 89672},
+																	pos:        position{line: 2830, col: 37, offset: 89714},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2830, col: 48, offset: 89683},
+																	pos:        position{line: 2830, col: 48, offset: 89725},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2830, col: 59, offset: 89694},
+																	pos:        position{line: 2830, col: 59, offset: 89736},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24118,38 +24294,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2826, col: 44, offset: 89548},
+													pos:   position{line: 2826, col: 44, offset: 89590},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2835, col: 5, offset: 89758},
+														pos: position{line: 2835, col: 5, offset: 89800},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2835, col: 5, offset: 89758},
+															pos:   position{line: 2835, col: 5, offset: 89800},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2835, col: 14, offset: 89767},
+																pos: position{line: 2835, col: 14, offset: 89809},
 																expr: &choiceExpr{
-																	pos: position{line: 2836, col: 9, offset: 89777},
+																	pos: position{line: 2836, col: 9, offset: 89819},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2836, col: 9, offset: 89777},
+																			pos: position{line: 2836, col: 9, offset: 89819},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2836, col: 9, offset: 89777},
+																				pos: position{line: 2836, col: 9, offset: 89819},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2836, col: 9, offset: 89777},
+																						pos: position{line: 2836, col: 9, offset: 89819},
 																						expr: &litMatcher{
-																							pos:        position{line: 2836, col: 10, offset: 89778},
+																							pos:        position{line: 2836, col: 10, offset: 89820},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2837, col: 9, offset: 89806},
+																						pos: position{line: 2837, col: 9, offset: 89848},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2837, col: 10, offset: 89807},
+																							pos:        position{line: 2837, col: 10, offset: 89849},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24160,27 +24336,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2840, col: 11, offset: 90019},
+																			pos: position{line: 2840, col: 11, offset: 90061},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2840, col: 11, offset: 90019},
+																					pos:        position{line: 2840, col: 11, offset: 90061},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2840, col: 19, offset: 90027},
+																					pos: position{line: 2840, col: 19, offset: 90069},
 																					expr: &seqExpr{
-																						pos: position{line: 2840, col: 21, offset: 90029},
+																						pos: position{line: 2840, col: 21, offset: 90071},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2840, col: 21, offset: 90029},
+																								pos: position{line: 2840, col: 21, offset: 90071},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90641},
+																									pos: position{line: 2864, col: 10, offset: 90683},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90641},
+																										pos:        position{line: 2864, col: 10, offset: 90683},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24189,11 +24365,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2840, col: 28, offset: 90036},
+																								pos: position{line: 2840, col: 28, offset: 90078},
 																								expr: &notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -24588,10 +24764,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2843, col: 11, offset: 90156},
+																			pos: position{line: 2843, col: 11, offset: 90198},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2843, col: 11, offset: 90156},
+																				pos:        position{line: 2843, col: 11, offset: 90198},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24657,10 +24833,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1589, col: 5, offset: 51257},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90641},
+																		pos: position{line: 2864, col: 10, offset: 90683},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90641},
+																			pos:        position{line: 2864, col: 10, offset: 90683},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24827,12 +25003,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2868, col: 11, offset: 90702},
+																	pos: position{line: 2868, col: 11, offset: 90744},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2868, col: 11, offset: 90702},
+																		pos: position{line: 2868, col: 11, offset: 90744},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 11, offset: 90702},
+																			pos:        position{line: 2868, col: 11, offset: 90744},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24875,28 +25051,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
+																			pos: position{line: 2873, col: 12, offset: 90854},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -24905,9 +25081,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -24937,10 +25113,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1639, col: 5, offset: 53219},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90641},
+																		pos: position{line: 2864, col: 10, offset: 90683},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90641},
+																			pos:        position{line: 2864, col: 10, offset: 90683},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24981,12 +25157,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2868, col: 11, offset: 90702},
+																	pos: position{line: 2868, col: 11, offset: 90744},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2868, col: 11, offset: 90702},
+																		pos: position{line: 2868, col: 11, offset: 90744},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 11, offset: 90702},
+																			pos:        position{line: 2868, col: 11, offset: 90744},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25058,12 +25234,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2868, col: 11, offset: 90702},
+																		pos: position{line: 2868, col: 11, offset: 90744},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2868, col: 11, offset: 90702},
+																			pos: position{line: 2868, col: 11, offset: 90744},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 11, offset: 90702},
+																				pos:        position{line: 2868, col: 11, offset: 90744},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25107,28 +25283,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
+																			pos: position{line: 2873, col: 12, offset: 90854},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25137,9 +25313,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -25197,12 +25373,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2868, col: 11, offset: 90702},
+																	pos: position{line: 2868, col: 11, offset: 90744},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2868, col: 11, offset: 90702},
+																		pos: position{line: 2868, col: 11, offset: 90744},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 11, offset: 90702},
+																			pos:        position{line: 2868, col: 11, offset: 90744},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25245,28 +25421,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
+																			pos: position{line: 2873, col: 12, offset: 90854},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25275,9 +25451,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -25342,28 +25518,28 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 1674, col: 35, offset: 54268},
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91039},
+																			pos: position{line: 2886, col: 8, offset: 91081},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90812},
+																					pos: position{line: 2873, col: 12, offset: 90854},
 																					run: (*parser).callonListElements161,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90813},
+																						pos: position{line: 2873, col: 13, offset: 90855},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90813},
+																								pos:        position{line: 2873, col: 13, offset: 90855},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90820},
+																								pos:        position{line: 2873, col: 20, offset: 90862},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90829},
+																								pos:        position{line: 2873, col: 29, offset: 90871},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25372,9 +25548,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -25437,10 +25613,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1692, col: 9, offset: 54773},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90641},
+																				pos: position{line: 2864, col: 10, offset: 90683},
 																				run: (*parser).callonListElements182,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90641},
+																					pos:        position{line: 2864, col: 10, offset: 90683},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25449,28 +25625,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91039},
+																			pos: position{line: 2886, col: 8, offset: 91081},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90812},
+																					pos: position{line: 2873, col: 12, offset: 90854},
 																					run: (*parser).callonListElements185,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90813},
+																						pos: position{line: 2873, col: 13, offset: 90855},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90813},
+																								pos:        position{line: 2873, col: 13, offset: 90855},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90820},
+																								pos:        position{line: 2873, col: 20, offset: 90862},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90829},
+																								pos:        position{line: 2873, col: 29, offset: 90871},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25479,9 +25655,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -25495,18 +25671,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21489},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 90975},
+																							pos: position{line: 2881, col: 11, offset: 91017},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 90977,
+																								line: 2881, col: 13, offset: 91019,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21496},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonListElements198,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25515,28 +25691,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonListElements201,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25545,9 +25721,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -25566,12 +25742,12 @@ var g = &grammar{
 																	pos: position{line: 1699, col: 9, offset: 54921},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2868, col: 11, offset: 90702},
+																			pos: position{line: 2868, col: 11, offset: 90744},
 																			run: (*parser).callonListElements210,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2868, col: 11, offset: 90702},
+																				pos: position{line: 2868, col: 11, offset: 90744},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 11, offset: 90702},
+																					pos:        position{line: 2868, col: 11, offset: 90744},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25598,28 +25774,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91039},
+																			pos: position{line: 2886, col: 8, offset: 91081},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90812},
+																					pos: position{line: 2873, col: 12, offset: 90854},
 																					run: (*parser).callonListElements218,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90813},
+																						pos: position{line: 2873, col: 13, offset: 90855},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90813},
+																								pos:        position{line: 2873, col: 13, offset: 90855},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90820},
+																								pos:        position{line: 2873, col: 20, offset: 90862},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90829},
+																								pos:        position{line: 2873, col: 29, offset: 90871},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25628,9 +25804,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -25688,9 +25864,9 @@ var g = &grammar{
 					pos: position{line: 1499, col: 5, offset: 48464},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2881, col: 11, offset: 90975},
+							pos: position{line: 2881, col: 11, offset: 91017},
 							expr: &anyMatcher{
-								line: 2881, col: 13, offset: 90977,
+								line: 2881, col: 13, offset: 91019,
 							},
 						},
 						&labeledExpr{
@@ -25714,18 +25890,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21489},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2881, col: 11, offset: 90975},
+																	pos: position{line: 2881, col: 11, offset: 91017},
 																	expr: &anyMatcher{
-																		line: 2881, col: 13, offset: 90977,
+																		line: 2881, col: 13, offset: 91019,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21496},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90641},
+																		pos: position{line: 2864, col: 10, offset: 90683},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90641},
+																			pos:        position{line: 2864, col: 10, offset: 90683},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25734,28 +25910,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
+																			pos: position{line: 2873, col: 12, offset: 90854},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25764,9 +25940,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -25799,10 +25975,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1589, col: 5, offset: 51257},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25969,12 +26145,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2868, col: 11, offset: 90702},
+																							pos: position{line: 2868, col: 11, offset: 90744},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2868, col: 11, offset: 90702},
+																								pos: position{line: 2868, col: 11, offset: 90744},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 11, offset: 90702},
+																									pos:        position{line: 2868, col: 11, offset: 90744},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26017,28 +26193,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26047,9 +26223,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -26079,10 +26255,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1639, col: 5, offset: 53219},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26123,12 +26299,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2868, col: 11, offset: 90702},
+																							pos: position{line: 2868, col: 11, offset: 90744},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2868, col: 11, offset: 90702},
+																								pos: position{line: 2868, col: 11, offset: 90744},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 11, offset: 90702},
+																									pos:        position{line: 2868, col: 11, offset: 90744},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26200,12 +26376,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2868, col: 11, offset: 90702},
+																								pos: position{line: 2868, col: 11, offset: 90744},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2868, col: 11, offset: 90702},
+																									pos: position{line: 2868, col: 11, offset: 90744},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 11, offset: 90702},
+																										pos:        position{line: 2868, col: 11, offset: 90744},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26249,28 +26425,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26279,9 +26455,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -26339,12 +26515,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2868, col: 11, offset: 90702},
+																							pos: position{line: 2868, col: 11, offset: 90744},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2868, col: 11, offset: 90702},
+																								pos: position{line: 2868, col: 11, offset: 90744},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 11, offset: 90702},
+																									pos:        position{line: 2868, col: 11, offset: 90744},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26387,28 +26563,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26417,9 +26593,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -26484,28 +26660,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1674, col: 35, offset: 54268},
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 8, offset: 91039},
+																									pos: position{line: 2886, col: 8, offset: 91081},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2873, col: 12, offset: 90812},
+																											pos: position{line: 2873, col: 12, offset: 90854},
 																											run: (*parser).callonExtraListElement183,
 																											expr: &choiceExpr{
-																												pos: position{line: 2873, col: 13, offset: 90813},
+																												pos: position{line: 2873, col: 13, offset: 90855},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 13, offset: 90813},
+																														pos:        position{line: 2873, col: 13, offset: 90855},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 20, offset: 90820},
+																														pos:        position{line: 2873, col: 20, offset: 90862},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 29, offset: 90829},
+																														pos:        position{line: 2873, col: 29, offset: 90871},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26514,9 +26690,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2883, col: 8, offset: 90989},
+																											pos: position{line: 2883, col: 8, offset: 91031},
 																											expr: &anyMatcher{
-																												line: 2883, col: 9, offset: 90990,
+																												line: 2883, col: 9, offset: 91032,
 																											},
 																										},
 																									},
@@ -26579,10 +26755,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1692, col: 9, offset: 54773},
 																									expr: &actionExpr{
-																										pos: position{line: 2864, col: 10, offset: 90641},
+																										pos: position{line: 2864, col: 10, offset: 90683},
 																										run: (*parser).callonExtraListElement204,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2864, col: 10, offset: 90641},
+																											pos:        position{line: 2864, col: 10, offset: 90683},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26591,28 +26767,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2886, col: 8, offset: 91039},
+																									pos: position{line: 2886, col: 8, offset: 91081},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2873, col: 12, offset: 90812},
+																											pos: position{line: 2873, col: 12, offset: 90854},
 																											run: (*parser).callonExtraListElement207,
 																											expr: &choiceExpr{
-																												pos: position{line: 2873, col: 13, offset: 90813},
+																												pos: position{line: 2873, col: 13, offset: 90855},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 13, offset: 90813},
+																														pos:        position{line: 2873, col: 13, offset: 90855},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 20, offset: 90820},
+																														pos:        position{line: 2873, col: 20, offset: 90862},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 29, offset: 90829},
+																														pos:        position{line: 2873, col: 29, offset: 90871},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26621,9 +26797,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2883, col: 8, offset: 90989},
+																											pos: position{line: 2883, col: 8, offset: 91031},
 																											expr: &anyMatcher{
-																												line: 2883, col: 9, offset: 90990,
+																												line: 2883, col: 9, offset: 91032,
 																											},
 																										},
 																									},
@@ -26637,18 +26813,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21489},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2881, col: 11, offset: 90975},
+																													pos: position{line: 2881, col: 11, offset: 91017},
 																													expr: &anyMatcher{
-																														line: 2881, col: 13, offset: 90977,
+																														line: 2881, col: 13, offset: 91019,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21496},
 																													expr: &actionExpr{
-																														pos: position{line: 2864, col: 10, offset: 90641},
+																														pos: position{line: 2864, col: 10, offset: 90683},
 																														run: (*parser).callonExtraListElement220,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2864, col: 10, offset: 90641},
+																															pos:        position{line: 2864, col: 10, offset: 90683},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26657,28 +26833,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2886, col: 8, offset: 91039},
+																													pos: position{line: 2886, col: 8, offset: 91081},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2873, col: 12, offset: 90812},
+																															pos: position{line: 2873, col: 12, offset: 90854},
 																															run: (*parser).callonExtraListElement223,
 																															expr: &choiceExpr{
-																																pos: position{line: 2873, col: 13, offset: 90813},
+																																pos: position{line: 2873, col: 13, offset: 90855},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2873, col: 13, offset: 90813},
+																																		pos:        position{line: 2873, col: 13, offset: 90855},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2873, col: 20, offset: 90820},
+																																		pos:        position{line: 2873, col: 20, offset: 90862},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2873, col: 29, offset: 90829},
+																																		pos:        position{line: 2873, col: 29, offset: 90871},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26687,9 +26863,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2883, col: 8, offset: 90989},
+																															pos: position{line: 2883, col: 8, offset: 91031},
 																															expr: &anyMatcher{
-																																line: 2883, col: 9, offset: 90990,
+																																line: 2883, col: 9, offset: 91032,
 																															},
 																														},
 																													},
@@ -26708,12 +26884,12 @@ var g = &grammar{
 																							pos: position{line: 1699, col: 9, offset: 54921},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2868, col: 11, offset: 90702},
+																									pos: position{line: 2868, col: 11, offset: 90744},
 																									run: (*parser).callonExtraListElement232,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2868, col: 11, offset: 90702},
+																										pos: position{line: 2868, col: 11, offset: 90744},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2868, col: 11, offset: 90702},
+																											pos:        position{line: 2868, col: 11, offset: 90744},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26740,28 +26916,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2886, col: 8, offset: 91039},
+																									pos: position{line: 2886, col: 8, offset: 91081},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2873, col: 12, offset: 90812},
+																											pos: position{line: 2873, col: 12, offset: 90854},
 																											run: (*parser).callonExtraListElement240,
 																											expr: &choiceExpr{
-																												pos: position{line: 2873, col: 13, offset: 90813},
+																												pos: position{line: 2873, col: 13, offset: 90855},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 13, offset: 90813},
+																														pos:        position{line: 2873, col: 13, offset: 90855},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 20, offset: 90820},
+																														pos:        position{line: 2873, col: 20, offset: 90862},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 29, offset: 90829},
+																														pos:        position{line: 2873, col: 29, offset: 90871},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26770,9 +26946,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2883, col: 8, offset: 90989},
+																											pos: position{line: 2883, col: 8, offset: 91031},
 																											expr: &anyMatcher{
-																												line: 2883, col: 9, offset: 90990,
+																												line: 2883, col: 9, offset: 91032,
 																											},
 																										},
 																									},
@@ -26833,10 +27009,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1589, col: 5, offset: 51257},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonExtraListElement260,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27003,12 +27179,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2868, col: 11, offset: 90702},
+																							pos: position{line: 2868, col: 11, offset: 90744},
 																							run: (*parser).callonExtraListElement294,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2868, col: 11, offset: 90702},
+																								pos: position{line: 2868, col: 11, offset: 90744},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 11, offset: 90702},
+																									pos:        position{line: 2868, col: 11, offset: 90744},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27051,28 +27227,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonExtraListElement306,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27081,9 +27257,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -27113,10 +27289,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1639, col: 5, offset: 53219},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonExtraListElement319,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27157,12 +27333,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement327,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2868, col: 11, offset: 90702},
+																							pos: position{line: 2868, col: 11, offset: 90744},
 																							run: (*parser).callonExtraListElement328,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2868, col: 11, offset: 90702},
+																								pos: position{line: 2868, col: 11, offset: 90744},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 11, offset: 90702},
+																									pos:        position{line: 2868, col: 11, offset: 90744},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27234,12 +27410,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2868, col: 11, offset: 90702},
+																								pos: position{line: 2868, col: 11, offset: 90744},
 																								run: (*parser).callonExtraListElement345,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2868, col: 11, offset: 90702},
+																									pos: position{line: 2868, col: 11, offset: 90744},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 11, offset: 90702},
+																										pos:        position{line: 2868, col: 11, offset: 90744},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27283,28 +27459,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonExtraListElement357,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27313,9 +27489,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -27373,12 +27549,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2868, col: 11, offset: 90702},
+																							pos: position{line: 2868, col: 11, offset: 90744},
 																							run: (*parser).callonExtraListElement375,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2868, col: 11, offset: 90702},
+																								pos: position{line: 2868, col: 11, offset: 90744},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 11, offset: 90702},
+																									pos:        position{line: 2868, col: 11, offset: 90744},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27421,28 +27597,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonExtraListElement387,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27451,9 +27627,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -27518,28 +27694,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1674, col: 35, offset: 54268},
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 8, offset: 91039},
+																									pos: position{line: 2886, col: 8, offset: 91081},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2873, col: 12, offset: 90812},
+																											pos: position{line: 2873, col: 12, offset: 90854},
 																											run: (*parser).callonExtraListElement410,
 																											expr: &choiceExpr{
-																												pos: position{line: 2873, col: 13, offset: 90813},
+																												pos: position{line: 2873, col: 13, offset: 90855},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 13, offset: 90813},
+																														pos:        position{line: 2873, col: 13, offset: 90855},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 20, offset: 90820},
+																														pos:        position{line: 2873, col: 20, offset: 90862},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 29, offset: 90829},
+																														pos:        position{line: 2873, col: 29, offset: 90871},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27548,9 +27724,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2883, col: 8, offset: 90989},
+																											pos: position{line: 2883, col: 8, offset: 91031},
 																											expr: &anyMatcher{
-																												line: 2883, col: 9, offset: 90990,
+																												line: 2883, col: 9, offset: 91032,
 																											},
 																										},
 																									},
@@ -27613,10 +27789,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1692, col: 9, offset: 54773},
 																									expr: &actionExpr{
-																										pos: position{line: 2864, col: 10, offset: 90641},
+																										pos: position{line: 2864, col: 10, offset: 90683},
 																										run: (*parser).callonExtraListElement431,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2864, col: 10, offset: 90641},
+																											pos:        position{line: 2864, col: 10, offset: 90683},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27625,28 +27801,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2886, col: 8, offset: 91039},
+																									pos: position{line: 2886, col: 8, offset: 91081},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2873, col: 12, offset: 90812},
+																											pos: position{line: 2873, col: 12, offset: 90854},
 																											run: (*parser).callonExtraListElement434,
 																											expr: &choiceExpr{
-																												pos: position{line: 2873, col: 13, offset: 90813},
+																												pos: position{line: 2873, col: 13, offset: 90855},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 13, offset: 90813},
+																														pos:        position{line: 2873, col: 13, offset: 90855},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 20, offset: 90820},
+																														pos:        position{line: 2873, col: 20, offset: 90862},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 29, offset: 90829},
+																														pos:        position{line: 2873, col: 29, offset: 90871},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27655,9 +27831,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2883, col: 8, offset: 90989},
+																											pos: position{line: 2883, col: 8, offset: 91031},
 																											expr: &anyMatcher{
-																												line: 2883, col: 9, offset: 90990,
+																												line: 2883, col: 9, offset: 91032,
 																											},
 																										},
 																									},
@@ -27671,18 +27847,18 @@ var g = &grammar{
 																											pos: position{line: 677, col: 14, offset: 21489},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2881, col: 11, offset: 90975},
+																													pos: position{line: 2881, col: 11, offset: 91017},
 																													expr: &anyMatcher{
-																														line: 2881, col: 13, offset: 90977,
+																														line: 2881, col: 13, offset: 91019,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21496},
 																													expr: &actionExpr{
-																														pos: position{line: 2864, col: 10, offset: 90641},
+																														pos: position{line: 2864, col: 10, offset: 90683},
 																														run: (*parser).callonExtraListElement447,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2864, col: 10, offset: 90641},
+																															pos:        position{line: 2864, col: 10, offset: 90683},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27691,28 +27867,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2886, col: 8, offset: 91039},
+																													pos: position{line: 2886, col: 8, offset: 91081},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2873, col: 12, offset: 90812},
+																															pos: position{line: 2873, col: 12, offset: 90854},
 																															run: (*parser).callonExtraListElement450,
 																															expr: &choiceExpr{
-																																pos: position{line: 2873, col: 13, offset: 90813},
+																																pos: position{line: 2873, col: 13, offset: 90855},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2873, col: 13, offset: 90813},
+																																		pos:        position{line: 2873, col: 13, offset: 90855},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2873, col: 20, offset: 90820},
+																																		pos:        position{line: 2873, col: 20, offset: 90862},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2873, col: 29, offset: 90829},
+																																		pos:        position{line: 2873, col: 29, offset: 90871},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27721,9 +27897,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2883, col: 8, offset: 90989},
+																															pos: position{line: 2883, col: 8, offset: 91031},
 																															expr: &anyMatcher{
-																																line: 2883, col: 9, offset: 90990,
+																																line: 2883, col: 9, offset: 91032,
 																															},
 																														},
 																													},
@@ -27742,12 +27918,12 @@ var g = &grammar{
 																							pos: position{line: 1699, col: 9, offset: 54921},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2868, col: 11, offset: 90702},
+																									pos: position{line: 2868, col: 11, offset: 90744},
 																									run: (*parser).callonExtraListElement459,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2868, col: 11, offset: 90702},
+																										pos: position{line: 2868, col: 11, offset: 90744},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2868, col: 11, offset: 90702},
+																											pos:        position{line: 2868, col: 11, offset: 90744},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27774,28 +27950,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2886, col: 8, offset: 91039},
+																									pos: position{line: 2886, col: 8, offset: 91081},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2873, col: 12, offset: 90812},
+																											pos: position{line: 2873, col: 12, offset: 90854},
 																											run: (*parser).callonExtraListElement467,
 																											expr: &choiceExpr{
-																												pos: position{line: 2873, col: 13, offset: 90813},
+																												pos: position{line: 2873, col: 13, offset: 90855},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 13, offset: 90813},
+																														pos:        position{line: 2873, col: 13, offset: 90855},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 20, offset: 90820},
+																														pos:        position{line: 2873, col: 20, offset: 90862},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 29, offset: 90829},
+																														pos:        position{line: 2873, col: 29, offset: 90871},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27804,9 +27980,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2883, col: 8, offset: 90989},
+																											pos: position{line: 2883, col: 8, offset: 91031},
 																											expr: &anyMatcher{
-																												line: 2883, col: 9, offset: 90990,
+																												line: 2883, col: 9, offset: 91032,
 																											},
 																										},
 																									},
@@ -27855,12 +28031,12 @@ var g = &grammar{
 													pos:   position{line: 2474, col: 49, offset: 79653},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2810, col: 13, offset: 89167},
+														pos: position{line: 2810, col: 13, offset: 89209},
 														run: (*parser).callonExtraListElement481,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2810, col: 13, offset: 89167},
+															pos: position{line: 2810, col: 13, offset: 89209},
 															expr: &charClassMatcher{
-																pos:        position{line: 2810, col: 13, offset: 89167},
+																pos:        position{line: 2810, col: 13, offset: 89209},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -27870,28 +28046,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91039},
+													pos: position{line: 2886, col: 8, offset: 91081},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90812},
+															pos: position{line: 2873, col: 12, offset: 90854},
 															run: (*parser).callonExtraListElement485,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90813},
+																pos: position{line: 2873, col: 13, offset: 90855},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90813},
+																		pos:        position{line: 2873, col: 13, offset: 90855},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90820},
+																		pos:        position{line: 2873, col: 20, offset: 90862},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90829},
+																		pos:        position{line: 2873, col: 29, offset: 90871},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -27900,9 +28076,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 90989},
+															pos: position{line: 2883, col: 8, offset: 91031},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 90990,
+																line: 2883, col: 9, offset: 91032,
 															},
 														},
 													},
@@ -27925,18 +28101,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21489},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2881, col: 11, offset: 90975},
+																	pos: position{line: 2881, col: 11, offset: 91017},
 																	expr: &anyMatcher{
-																		line: 2881, col: 13, offset: 90977,
+																		line: 2881, col: 13, offset: 91019,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21496},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90641},
+																		pos: position{line: 2864, col: 10, offset: 90683},
 																		run: (*parser).callonExtraListElement500,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90641},
+																			pos:        position{line: 2864, col: 10, offset: 90683},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -27945,28 +28121,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
+																			pos: position{line: 2873, col: 12, offset: 90854},
 																			run: (*parser).callonExtraListElement503,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -27975,9 +28151,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -28000,10 +28176,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1548, col: 31, offset: 50042},
 																expr: &actionExpr{
-																	pos: position{line: 2864, col: 10, offset: 90641},
+																	pos: position{line: 2864, col: 10, offset: 90683},
 																	run: (*parser).callonExtraListElement514,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2864, col: 10, offset: 90641},
+																		pos:        position{line: 2864, col: 10, offset: 90683},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28012,25 +28188,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90812},
+																pos: position{line: 2873, col: 12, offset: 90854},
 																run: (*parser).callonExtraListElement516,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90813},
+																	pos: position{line: 2873, col: 13, offset: 90855},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90813},
+																			pos:        position{line: 2873, col: 13, offset: 90855},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90820},
+																			pos:        position{line: 2873, col: 20, offset: 90862},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90829},
+																			pos:        position{line: 2873, col: 29, offset: 90871},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28052,10 +28228,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1589, col: 5, offset: 51257},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90641},
+																		pos: position{line: 2864, col: 10, offset: 90683},
 																		run: (*parser).callonExtraListElement525,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90641},
+																			pos:        position{line: 2864, col: 10, offset: 90683},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28222,12 +28398,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2868, col: 11, offset: 90702},
+																	pos: position{line: 2868, col: 11, offset: 90744},
 																	run: (*parser).callonExtraListElement559,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2868, col: 11, offset: 90702},
+																		pos: position{line: 2868, col: 11, offset: 90744},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 11, offset: 90702},
+																			pos:        position{line: 2868, col: 11, offset: 90744},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28250,10 +28426,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1639, col: 5, offset: 53219},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90641},
+																		pos: position{line: 2864, col: 10, offset: 90683},
 																		run: (*parser).callonExtraListElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90641},
+																			pos:        position{line: 2864, col: 10, offset: 90683},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28294,12 +28470,12 @@ var g = &grammar{
 																	run: (*parser).callonExtraListElement574,
 																},
 																&actionExpr{
-																	pos: position{line: 2868, col: 11, offset: 90702},
+																	pos: position{line: 2868, col: 11, offset: 90744},
 																	run: (*parser).callonExtraListElement575,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2868, col: 11, offset: 90702},
+																		pos: position{line: 2868, col: 11, offset: 90744},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 11, offset: 90702},
+																			pos:        position{line: 2868, col: 11, offset: 90744},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28350,12 +28526,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2868, col: 11, offset: 90702},
+																	pos: position{line: 2868, col: 11, offset: 90744},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2868, col: 11, offset: 90702},
+																		pos: position{line: 2868, col: 11, offset: 90744},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 11, offset: 90702},
+																			pos:        position{line: 2868, col: 11, offset: 90744},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28416,28 +28592,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1674, col: 35, offset: 54268},
 																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 8, offset: 91039},
+																					pos: position{line: 2886, col: 8, offset: 91081},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2873, col: 12, offset: 90812},
+																							pos: position{line: 2873, col: 12, offset: 90854},
 																							run: (*parser).callonExtraListElement605,
 																							expr: &choiceExpr{
-																								pos: position{line: 2873, col: 13, offset: 90813},
+																								pos: position{line: 2873, col: 13, offset: 90855},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 13, offset: 90813},
+																										pos:        position{line: 2873, col: 13, offset: 90855},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 20, offset: 90820},
+																										pos:        position{line: 2873, col: 20, offset: 90862},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 29, offset: 90829},
+																										pos:        position{line: 2873, col: 29, offset: 90871},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -28446,9 +28622,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2883, col: 8, offset: 90989},
+																							pos: position{line: 2883, col: 8, offset: 91031},
 																							expr: &anyMatcher{
-																								line: 2883, col: 9, offset: 90990,
+																								line: 2883, col: 9, offset: 91032,
 																							},
 																						},
 																					},
@@ -28505,7 +28681,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 724, col: 5, offset: 23042},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2754, col: 13, offset: 87736},
+																		pos:        position{line: 2754, col: 13, offset: 87778},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28555,10 +28731,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23686},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonExtraListElement636,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28567,28 +28743,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonExtraListElement639,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28597,9 +28773,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -28644,10 +28820,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23934},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonExtraListElement655,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28656,28 +28832,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonExtraListElement658,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28686,9 +28862,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -28729,10 +28905,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 760, col: 52, offset: 24346},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28741,28 +28917,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28771,9 +28947,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -28818,10 +28994,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24180},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonExtraListElement692,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28830,28 +29006,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonExtraListElement695,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28860,9 +29036,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -28907,10 +29083,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24718},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonExtraListElement711,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28919,28 +29095,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonExtraListElement714,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28949,9 +29125,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -28996,10 +29172,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25194},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonExtraListElement730,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29008,28 +29184,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonExtraListElement733,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29038,9 +29214,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -29085,10 +29261,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25446},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonExtraListElement749,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29097,28 +29273,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonExtraListElement752,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29127,9 +29303,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -29174,10 +29350,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25696},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonExtraListElement768,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29186,28 +29362,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonExtraListElement771,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29216,9 +29392,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -29263,10 +29439,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25942},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonExtraListElement787,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29275,28 +29451,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonExtraListElement790,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29305,9 +29481,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -29326,12 +29502,12 @@ var g = &grammar{
 													pos:   position{line: 1524, col: 5, offset: 49410},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2814, col: 14, offset: 89234},
+														pos: position{line: 2814, col: 14, offset: 89276},
 														run: (*parser).callonExtraListElement798,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2814, col: 14, offset: 89234},
+															pos: position{line: 2814, col: 14, offset: 89276},
 															expr: &charClassMatcher{
-																pos:        position{line: 2814, col: 14, offset: 89234},
+																pos:        position{line: 2814, col: 14, offset: 89276},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29341,28 +29517,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91039},
+													pos: position{line: 2886, col: 8, offset: 91081},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90812},
+															pos: position{line: 2873, col: 12, offset: 90854},
 															run: (*parser).callonExtraListElement802,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90813},
+																pos: position{line: 2873, col: 13, offset: 90855},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90813},
+																		pos:        position{line: 2873, col: 13, offset: 90855},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90820},
+																		pos:        position{line: 2873, col: 20, offset: 90862},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90829},
+																		pos:        position{line: 2873, col: 29, offset: 90871},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29371,9 +29547,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 90989},
+															pos: position{line: 2883, col: 8, offset: 91031},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 90990,
+																line: 2883, col: 9, offset: 91032,
 															},
 														},
 													},
@@ -29408,10 +29584,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1541, col: 13, offset: 49834},
 											expr: &actionExpr{
-												pos: position{line: 2864, col: 10, offset: 90641},
+												pos: position{line: 2864, col: 10, offset: 90683},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2864, col: 10, offset: 90641},
+													pos:        position{line: 2864, col: 10, offset: 90683},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29420,25 +29596,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2873, col: 12, offset: 90812},
+											pos: position{line: 2873, col: 12, offset: 90854},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2873, col: 13, offset: 90813},
+												pos: position{line: 2873, col: 13, offset: 90855},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2873, col: 13, offset: 90813},
+														pos:        position{line: 2873, col: 13, offset: 90855},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2873, col: 20, offset: 90820},
+														pos:        position{line: 2873, col: 20, offset: 90862},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2873, col: 29, offset: 90829},
+														pos:        position{line: 2873, col: 29, offset: 90871},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29459,10 +29635,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1548, col: 31, offset: 50042},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90641},
+								pos: position{line: 2864, col: 10, offset: 90683},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90641},
+									pos:        position{line: 2864, col: 10, offset: 90683},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29471,25 +29647,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2873, col: 12, offset: 90812},
+							pos: position{line: 2873, col: 12, offset: 90854},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2873, col: 13, offset: 90813},
+								pos: position{line: 2873, col: 13, offset: 90855},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2873, col: 13, offset: 90813},
+										pos:        position{line: 2873, col: 13, offset: 90855},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2873, col: 20, offset: 90820},
+										pos:        position{line: 2873, col: 20, offset: 90862},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2873, col: 29, offset: 90829},
+										pos:        position{line: 2873, col: 29, offset: 90871},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29522,9 +29698,9 @@ var g = &grammar{
 					pos: position{line: 1551, col: 5, offset: 50129},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2881, col: 11, offset: 90975},
+							pos: position{line: 2881, col: 11, offset: 91017},
 							expr: &anyMatcher{
-								line: 2881, col: 13, offset: 90977,
+								line: 2881, col: 13, offset: 91019,
 							},
 						},
 						&notExpr{
@@ -29550,10 +29726,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1589, col: 5, offset: 51257},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90641},
+																		pos: position{line: 2864, col: 10, offset: 90683},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90641},
+																			pos:        position{line: 2864, col: 10, offset: 90683},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29720,12 +29896,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2868, col: 11, offset: 90702},
+																	pos: position{line: 2868, col: 11, offset: 90744},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2868, col: 11, offset: 90702},
+																		pos: position{line: 2868, col: 11, offset: 90744},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 11, offset: 90702},
+																			pos:        position{line: 2868, col: 11, offset: 90744},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29768,28 +29944,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
+																			pos: position{line: 2873, col: 12, offset: 90854},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29798,9 +29974,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -29830,10 +30006,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1639, col: 5, offset: 53219},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90641},
+																		pos: position{line: 2864, col: 10, offset: 90683},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90641},
+																			pos:        position{line: 2864, col: 10, offset: 90683},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29874,12 +30050,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2868, col: 11, offset: 90702},
+																	pos: position{line: 2868, col: 11, offset: 90744},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2868, col: 11, offset: 90702},
+																		pos: position{line: 2868, col: 11, offset: 90744},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 11, offset: 90702},
+																			pos:        position{line: 2868, col: 11, offset: 90744},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29951,12 +30127,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2868, col: 11, offset: 90702},
+																		pos: position{line: 2868, col: 11, offset: 90744},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2868, col: 11, offset: 90702},
+																			pos: position{line: 2868, col: 11, offset: 90744},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 11, offset: 90702},
+																				pos:        position{line: 2868, col: 11, offset: 90744},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30000,28 +30176,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
+																			pos: position{line: 2873, col: 12, offset: 90854},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30030,9 +30206,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -30090,12 +30266,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2868, col: 11, offset: 90702},
+																	pos: position{line: 2868, col: 11, offset: 90744},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2868, col: 11, offset: 90702},
+																		pos: position{line: 2868, col: 11, offset: 90744},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 11, offset: 90702},
+																			pos:        position{line: 2868, col: 11, offset: 90744},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30138,28 +30314,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
+																			pos: position{line: 2873, col: 12, offset: 90854},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30168,9 +30344,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -30235,28 +30411,28 @@ var g = &grammar{
 																	&notExpr{
 																		pos: position{line: 1674, col: 35, offset: 54268},
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91039},
+																			pos: position{line: 2886, col: 8, offset: 91081},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90812},
+																					pos: position{line: 2873, col: 12, offset: 90854},
 																					run: (*parser).callonListContinuationElement163,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90813},
+																						pos: position{line: 2873, col: 13, offset: 90855},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90813},
+																								pos:        position{line: 2873, col: 13, offset: 90855},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90820},
+																								pos:        position{line: 2873, col: 20, offset: 90862},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90829},
+																								pos:        position{line: 2873, col: 29, offset: 90871},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30265,9 +30441,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -30330,10 +30506,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1692, col: 9, offset: 54773},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90641},
+																				pos: position{line: 2864, col: 10, offset: 90683},
 																				run: (*parser).callonListContinuationElement184,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90641},
+																					pos:        position{line: 2864, col: 10, offset: 90683},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30342,28 +30518,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91039},
+																			pos: position{line: 2886, col: 8, offset: 91081},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90812},
+																					pos: position{line: 2873, col: 12, offset: 90854},
 																					run: (*parser).callonListContinuationElement187,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90813},
+																						pos: position{line: 2873, col: 13, offset: 90855},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90813},
+																								pos:        position{line: 2873, col: 13, offset: 90855},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90820},
+																								pos:        position{line: 2873, col: 20, offset: 90862},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90829},
+																								pos:        position{line: 2873, col: 29, offset: 90871},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30372,9 +30548,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -30388,18 +30564,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21489},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 90975},
+																							pos: position{line: 2881, col: 11, offset: 91017},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 90977,
+																								line: 2881, col: 13, offset: 91019,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21496},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonListContinuationElement200,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30408,28 +30584,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonListContinuationElement203,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30438,9 +30614,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -30459,12 +30635,12 @@ var g = &grammar{
 																	pos: position{line: 1699, col: 9, offset: 54921},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2868, col: 11, offset: 90702},
+																			pos: position{line: 2868, col: 11, offset: 90744},
 																			run: (*parser).callonListContinuationElement212,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2868, col: 11, offset: 90702},
+																				pos: position{line: 2868, col: 11, offset: 90744},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 11, offset: 90702},
+																					pos:        position{line: 2868, col: 11, offset: 90744},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30491,28 +30667,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91039},
+																			pos: position{line: 2886, col: 8, offset: 91081},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90812},
+																					pos: position{line: 2873, col: 12, offset: 90854},
 																					run: (*parser).callonListContinuationElement220,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90813},
+																						pos: position{line: 2873, col: 13, offset: 90855},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90813},
+																								pos:        position{line: 2873, col: 13, offset: 90855},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90820},
+																								pos:        position{line: 2873, col: 20, offset: 90862},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90829},
+																								pos:        position{line: 2873, col: 29, offset: 90871},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30521,9 +30697,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -30564,18 +30740,18 @@ var g = &grammar{
 											pos: position{line: 677, col: 14, offset: 21489},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2881, col: 11, offset: 90975},
+													pos: position{line: 2881, col: 11, offset: 91017},
 													expr: &anyMatcher{
-														line: 2881, col: 13, offset: 90977,
+														line: 2881, col: 13, offset: 91019,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 677, col: 21, offset: 21496},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90641},
+														pos: position{line: 2864, col: 10, offset: 90683},
 														run: (*parser).callonListContinuationElement237,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90641},
+															pos:        position{line: 2864, col: 10, offset: 90683},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30584,28 +30760,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91039},
+													pos: position{line: 2886, col: 8, offset: 91081},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90812},
+															pos: position{line: 2873, col: 12, offset: 90854},
 															run: (*parser).callonListContinuationElement240,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90813},
+																pos: position{line: 2873, col: 13, offset: 90855},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90813},
+																		pos:        position{line: 2873, col: 13, offset: 90855},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90820},
+																		pos:        position{line: 2873, col: 20, offset: 90862},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90829},
+																		pos:        position{line: 2873, col: 29, offset: 90871},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30614,9 +30790,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 90989},
+															pos: position{line: 2883, col: 8, offset: 91031},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 90990,
+																line: 2883, col: 9, offset: 91032,
 															},
 														},
 													},
@@ -30681,10 +30857,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90641},
+														pos: position{line: 2864, col: 10, offset: 90683},
 														run: (*parser).callonListContinuationElement259,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90641},
+															pos:        position{line: 2864, col: 10, offset: 90683},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30693,28 +30869,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91039},
+													pos: position{line: 2886, col: 8, offset: 91081},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90812},
+															pos: position{line: 2873, col: 12, offset: 90854},
 															run: (*parser).callonListContinuationElement262,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90813},
+																pos: position{line: 2873, col: 13, offset: 90855},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90813},
+																		pos:        position{line: 2873, col: 13, offset: 90855},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90820},
+																		pos:        position{line: 2873, col: 20, offset: 90862},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90829},
+																		pos:        position{line: 2873, col: 29, offset: 90871},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30723,9 +30899,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 90989},
+															pos: position{line: 2883, col: 8, offset: 91031},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 90990,
+																line: 2883, col: 9, offset: 91032,
 															},
 														},
 													},
@@ -30786,10 +30962,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90641},
+														pos: position{line: 2864, col: 10, offset: 90683},
 														run: (*parser).callonListContinuationElement280,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90641},
+															pos:        position{line: 2864, col: 10, offset: 90683},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30798,28 +30974,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91039},
+													pos: position{line: 2886, col: 8, offset: 91081},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90812},
+															pos: position{line: 2873, col: 12, offset: 90854},
 															run: (*parser).callonListContinuationElement283,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90813},
+																pos: position{line: 2873, col: 13, offset: 90855},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90813},
+																		pos:        position{line: 2873, col: 13, offset: 90855},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90820},
+																		pos:        position{line: 2873, col: 20, offset: 90862},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90829},
+																		pos:        position{line: 2873, col: 29, offset: 90871},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30828,9 +31004,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 90989},
+															pos: position{line: 2883, col: 8, offset: 91031},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 90990,
+																line: 2883, col: 9, offset: 91032,
 															},
 														},
 													},
@@ -30884,10 +31060,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23686},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90641},
+																		pos: position{line: 2864, col: 10, offset: 90683},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90641},
+																			pos:        position{line: 2864, col: 10, offset: 90683},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30896,28 +31072,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
+																			pos: position{line: 2873, col: 12, offset: 90854},
 																			run: (*parser).callonListContinuationElement305,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30926,9 +31102,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -31000,10 +31176,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23686},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90641},
+																												pos: position{line: 2864, col: 10, offset: 90683},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90641},
+																													pos:        position{line: 2864, col: 10, offset: 90683},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31012,28 +31188,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91039},
+																											pos: position{line: 2886, col: 8, offset: 91081},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90812},
+																													pos: position{line: 2873, col: 12, offset: 90854},
 																													run: (*parser).callonListContinuationElement333,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90813},
+																														pos: position{line: 2873, col: 13, offset: 90855},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90813},
+																																pos:        position{line: 2873, col: 13, offset: 90855},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90820},
+																																pos:        position{line: 2873, col: 20, offset: 90862},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90829},
+																																pos:        position{line: 2873, col: 29, offset: 90871},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31042,9 +31218,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 90989},
+																													pos: position{line: 2883, col: 8, offset: 91031},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 90990,
+																														line: 2883, col: 9, offset: 91032,
 																													},
 																												},
 																											},
@@ -31060,9 +31236,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -31078,21 +31254,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2881, col: 11, offset: 90975},
+																						pos: position{line: 2881, col: 11, offset: 91017},
 																						expr: &anyMatcher{
-																							line: 2881, col: 13, offset: 90977,
+																							line: 2881, col: 13, offset: 91019,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2810, col: 13, offset: 89167},
+																							pos: position{line: 2810, col: 13, offset: 89209},
 																							run: (*parser).callonListContinuationElement349,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2810, col: 13, offset: 89167},
+																								pos: position{line: 2810, col: 13, offset: 89209},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2810, col: 13, offset: 89167},
+																									pos:        position{line: 2810, col: 13, offset: 89209},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31102,28 +31278,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91039},
+																						pos: position{line: 2886, col: 8, offset: 91081},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90812},
+																								pos: position{line: 2873, col: 12, offset: 90854},
 																								run: (*parser).callonListContinuationElement353,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90813},
+																									pos: position{line: 2873, col: 13, offset: 90855},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90813},
+																											pos:        position{line: 2873, col: 13, offset: 90855},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90820},
+																											pos:        position{line: 2873, col: 20, offset: 90862},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90829},
+																											pos:        position{line: 2873, col: 29, offset: 90871},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31132,9 +31308,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 90989},
+																								pos: position{line: 2883, col: 8, offset: 91031},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 90990,
+																									line: 2883, col: 9, offset: 91032,
 																								},
 																							},
 																						},
@@ -31199,10 +31375,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23686},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonListContinuationElement374,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31211,28 +31387,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonListContinuationElement377,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31241,9 +31417,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -31259,9 +31435,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2883, col: 8, offset: 90989},
+																	pos: position{line: 2883, col: 8, offset: 91031},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 90990,
+																		line: 2883, col: 9, offset: 91032,
 																	},
 																},
 															},
@@ -31317,10 +31493,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 749, col: 8, offset: 23934},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90641},
+																		pos: position{line: 2864, col: 10, offset: 90683},
 																		run: (*parser).callonListContinuationElement399,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90641},
+																			pos:        position{line: 2864, col: 10, offset: 90683},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31329,28 +31505,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
+																			pos: position{line: 2873, col: 12, offset: 90854},
 																			run: (*parser).callonListContinuationElement402,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31359,9 +31535,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -31433,10 +31609,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23934},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90641},
+																												pos: position{line: 2864, col: 10, offset: 90683},
 																												run: (*parser).callonListContinuationElement427,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90641},
+																													pos:        position{line: 2864, col: 10, offset: 90683},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31445,28 +31621,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91039},
+																											pos: position{line: 2886, col: 8, offset: 91081},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90812},
+																													pos: position{line: 2873, col: 12, offset: 90854},
 																													run: (*parser).callonListContinuationElement430,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90813},
+																														pos: position{line: 2873, col: 13, offset: 90855},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90813},
+																																pos:        position{line: 2873, col: 13, offset: 90855},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90820},
+																																pos:        position{line: 2873, col: 20, offset: 90862},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90829},
+																																pos:        position{line: 2873, col: 29, offset: 90871},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31475,9 +31651,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 90989},
+																													pos: position{line: 2883, col: 8, offset: 91031},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 90990,
+																														line: 2883, col: 9, offset: 91032,
 																													},
 																												},
 																											},
@@ -31493,9 +31669,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -31511,21 +31687,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2881, col: 11, offset: 90975},
+																						pos: position{line: 2881, col: 11, offset: 91017},
 																						expr: &anyMatcher{
-																							line: 2881, col: 13, offset: 90977,
+																							line: 2881, col: 13, offset: 91019,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2810, col: 13, offset: 89167},
+																							pos: position{line: 2810, col: 13, offset: 89209},
 																							run: (*parser).callonListContinuationElement446,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2810, col: 13, offset: 89167},
+																								pos: position{line: 2810, col: 13, offset: 89209},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2810, col: 13, offset: 89167},
+																									pos:        position{line: 2810, col: 13, offset: 89209},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31535,28 +31711,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91039},
+																						pos: position{line: 2886, col: 8, offset: 91081},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90812},
+																								pos: position{line: 2873, col: 12, offset: 90854},
 																								run: (*parser).callonListContinuationElement450,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90813},
+																									pos: position{line: 2873, col: 13, offset: 90855},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90813},
+																											pos:        position{line: 2873, col: 13, offset: 90855},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90820},
+																											pos:        position{line: 2873, col: 20, offset: 90862},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90829},
+																											pos:        position{line: 2873, col: 29, offset: 90871},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31565,9 +31741,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 90989},
+																								pos: position{line: 2883, col: 8, offset: 91031},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 90990,
+																									line: 2883, col: 9, offset: 91032,
 																								},
 																							},
 																						},
@@ -31632,10 +31808,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23934},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonListContinuationElement471,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31644,28 +31820,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonListContinuationElement474,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31674,9 +31850,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -31692,9 +31868,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2883, col: 8, offset: 90989},
+																	pos: position{line: 2883, col: 8, offset: 91031},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 90990,
+																		line: 2883, col: 9, offset: 91032,
 																	},
 																},
 															},
@@ -31746,10 +31922,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 760, col: 52, offset: 24346},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90641},
+																		pos: position{line: 2864, col: 10, offset: 90683},
 																		run: (*parser).callonListContinuationElement495,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90641},
+																			pos:        position{line: 2864, col: 10, offset: 90683},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31758,28 +31934,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
+																			pos: position{line: 2873, col: 12, offset: 90854},
 																			run: (*parser).callonListContinuationElement498,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31788,9 +31964,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -31824,10 +32000,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 971, col: 40, offset: 30361},
 																					expr: &actionExpr{
-																						pos: position{line: 2864, col: 10, offset: 90641},
+																						pos: position{line: 2864, col: 10, offset: 90683},
 																						run: (*parser).callonListContinuationElement513,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2864, col: 10, offset: 90641},
+																							pos:        position{line: 2864, col: 10, offset: 90683},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -31836,28 +32012,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2886, col: 8, offset: 91039},
+																					pos: position{line: 2886, col: 8, offset: 91081},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2873, col: 12, offset: 90812},
+																							pos: position{line: 2873, col: 12, offset: 90854},
 																							run: (*parser).callonListContinuationElement516,
 																							expr: &choiceExpr{
-																								pos: position{line: 2873, col: 13, offset: 90813},
+																								pos: position{line: 2873, col: 13, offset: 90855},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 13, offset: 90813},
+																										pos:        position{line: 2873, col: 13, offset: 90855},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 20, offset: 90820},
+																										pos:        position{line: 2873, col: 20, offset: 90862},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 29, offset: 90829},
+																										pos:        position{line: 2873, col: 29, offset: 90871},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -31866,9 +32042,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2883, col: 8, offset: 90989},
+																							pos: position{line: 2883, col: 8, offset: 91031},
 																							expr: &anyMatcher{
-																								line: 2883, col: 9, offset: 90990,
+																								line: 2883, col: 9, offset: 91032,
 																							},
 																						},
 																					},
@@ -31886,21 +32062,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2881, col: 11, offset: 90975},
+																						pos: position{line: 2881, col: 11, offset: 91017},
 																						expr: &anyMatcher{
-																							line: 2881, col: 13, offset: 90977,
+																							line: 2881, col: 13, offset: 91019,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2810, col: 13, offset: 89167},
+																							pos: position{line: 2810, col: 13, offset: 89209},
 																							run: (*parser).callonListContinuationElement529,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2810, col: 13, offset: 89167},
+																								pos: position{line: 2810, col: 13, offset: 89209},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2810, col: 13, offset: 89167},
+																									pos:        position{line: 2810, col: 13, offset: 89209},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31910,28 +32086,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91039},
+																						pos: position{line: 2886, col: 8, offset: 91081},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90812},
+																								pos: position{line: 2873, col: 12, offset: 90854},
 																								run: (*parser).callonListContinuationElement533,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90813},
+																									pos: position{line: 2873, col: 13, offset: 90855},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90813},
+																											pos:        position{line: 2873, col: 13, offset: 90855},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90820},
+																											pos:        position{line: 2873, col: 20, offset: 90862},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90829},
+																											pos:        position{line: 2873, col: 29, offset: 90871},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31940,9 +32116,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 90989},
+																								pos: position{line: 2883, col: 8, offset: 91031},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 90990,
+																									line: 2883, col: 9, offset: 91032,
 																								},
 																							},
 																						},
@@ -31970,10 +32146,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 971, col: 40, offset: 30361},
 																expr: &actionExpr{
-																	pos: position{line: 2864, col: 10, offset: 90641},
+																	pos: position{line: 2864, col: 10, offset: 90683},
 																	run: (*parser).callonListContinuationElement544,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2864, col: 10, offset: 90641},
+																		pos:        position{line: 2864, col: 10, offset: 90683},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -31982,28 +32158,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2886, col: 8, offset: 91039},
+																pos: position{line: 2886, col: 8, offset: 91081},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2873, col: 12, offset: 90812},
+																		pos: position{line: 2873, col: 12, offset: 90854},
 																		run: (*parser).callonListContinuationElement547,
 																		expr: &choiceExpr{
-																			pos: position{line: 2873, col: 13, offset: 90813},
+																			pos: position{line: 2873, col: 13, offset: 90855},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 13, offset: 90813},
+																					pos:        position{line: 2873, col: 13, offset: 90855},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 20, offset: 90820},
+																					pos:        position{line: 2873, col: 20, offset: 90862},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 29, offset: 90829},
+																					pos:        position{line: 2873, col: 29, offset: 90871},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32012,9 +32188,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 90989},
+																		pos: position{line: 2883, col: 8, offset: 91031},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 90990,
+																			line: 2883, col: 9, offset: 91032,
 																		},
 																	},
 																},
@@ -32071,10 +32247,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 756, col: 8, offset: 24180},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90641},
+																		pos: position{line: 2864, col: 10, offset: 90683},
 																		run: (*parser).callonListContinuationElement566,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90641},
+																			pos:        position{line: 2864, col: 10, offset: 90683},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32083,28 +32259,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
+																			pos: position{line: 2873, col: 12, offset: 90854},
 																			run: (*parser).callonListContinuationElement569,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32113,9 +32289,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -32187,10 +32363,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24180},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90641},
+																												pos: position{line: 2864, col: 10, offset: 90683},
 																												run: (*parser).callonListContinuationElement594,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90641},
+																													pos:        position{line: 2864, col: 10, offset: 90683},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32199,28 +32375,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91039},
+																											pos: position{line: 2886, col: 8, offset: 91081},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90812},
+																													pos: position{line: 2873, col: 12, offset: 90854},
 																													run: (*parser).callonListContinuationElement597,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90813},
+																														pos: position{line: 2873, col: 13, offset: 90855},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90813},
+																																pos:        position{line: 2873, col: 13, offset: 90855},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90820},
+																																pos:        position{line: 2873, col: 20, offset: 90862},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90829},
+																																pos:        position{line: 2873, col: 29, offset: 90871},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32229,9 +32405,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 90989},
+																													pos: position{line: 2883, col: 8, offset: 91031},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 90990,
+																														line: 2883, col: 9, offset: 91032,
 																													},
 																												},
 																											},
@@ -32247,9 +32423,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -32265,21 +32441,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2881, col: 11, offset: 90975},
+																						pos: position{line: 2881, col: 11, offset: 91017},
 																						expr: &anyMatcher{
-																							line: 2881, col: 13, offset: 90977,
+																							line: 2881, col: 13, offset: 91019,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2810, col: 13, offset: 89167},
+																							pos: position{line: 2810, col: 13, offset: 89209},
 																							run: (*parser).callonListContinuationElement613,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2810, col: 13, offset: 89167},
+																								pos: position{line: 2810, col: 13, offset: 89209},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2810, col: 13, offset: 89167},
+																									pos:        position{line: 2810, col: 13, offset: 89209},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32289,28 +32465,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91039},
+																						pos: position{line: 2886, col: 8, offset: 91081},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90812},
+																								pos: position{line: 2873, col: 12, offset: 90854},
 																								run: (*parser).callonListContinuationElement617,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90813},
+																									pos: position{line: 2873, col: 13, offset: 90855},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90813},
+																											pos:        position{line: 2873, col: 13, offset: 90855},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90820},
+																											pos:        position{line: 2873, col: 20, offset: 90862},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90829},
+																											pos:        position{line: 2873, col: 29, offset: 90871},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32319,9 +32495,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 90989},
+																								pos: position{line: 2883, col: 8, offset: 91031},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 90990,
+																									line: 2883, col: 9, offset: 91032,
 																								},
 																							},
 																						},
@@ -32386,10 +32562,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24180},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonListContinuationElement638,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32398,28 +32574,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonListContinuationElement641,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32428,9 +32604,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -32446,9 +32622,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2883, col: 8, offset: 90989},
+																	pos: position{line: 2883, col: 8, offset: 91031},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 90990,
+																		line: 2883, col: 9, offset: 91032,
 																	},
 																},
 															},
@@ -32504,10 +32680,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 771, col: 8, offset: 24718},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90641},
+																		pos: position{line: 2864, col: 10, offset: 90683},
 																		run: (*parser).callonListContinuationElement663,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90641},
+																			pos:        position{line: 2864, col: 10, offset: 90683},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32516,28 +32692,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
+																			pos: position{line: 2873, col: 12, offset: 90854},
 																			run: (*parser).callonListContinuationElement666,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32546,9 +32722,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -32620,10 +32796,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24718},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90641},
+																												pos: position{line: 2864, col: 10, offset: 90683},
 																												run: (*parser).callonListContinuationElement691,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90641},
+																													pos:        position{line: 2864, col: 10, offset: 90683},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32632,28 +32808,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91039},
+																											pos: position{line: 2886, col: 8, offset: 91081},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90812},
+																													pos: position{line: 2873, col: 12, offset: 90854},
 																													run: (*parser).callonListContinuationElement694,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90813},
+																														pos: position{line: 2873, col: 13, offset: 90855},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90813},
+																																pos:        position{line: 2873, col: 13, offset: 90855},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90820},
+																																pos:        position{line: 2873, col: 20, offset: 90862},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90829},
+																																pos:        position{line: 2873, col: 29, offset: 90871},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32662,9 +32838,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 90989},
+																													pos: position{line: 2883, col: 8, offset: 91031},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 90990,
+																														line: 2883, col: 9, offset: 91032,
 																													},
 																												},
 																											},
@@ -32680,9 +32856,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -32698,21 +32874,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2881, col: 11, offset: 90975},
+																						pos: position{line: 2881, col: 11, offset: 91017},
 																						expr: &anyMatcher{
-																							line: 2881, col: 13, offset: 90977,
+																							line: 2881, col: 13, offset: 91019,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2810, col: 13, offset: 89167},
+																							pos: position{line: 2810, col: 13, offset: 89209},
 																							run: (*parser).callonListContinuationElement710,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2810, col: 13, offset: 89167},
+																								pos: position{line: 2810, col: 13, offset: 89209},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2810, col: 13, offset: 89167},
+																									pos:        position{line: 2810, col: 13, offset: 89209},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32722,28 +32898,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91039},
+																						pos: position{line: 2886, col: 8, offset: 91081},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90812},
+																								pos: position{line: 2873, col: 12, offset: 90854},
 																								run: (*parser).callonListContinuationElement714,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90813},
+																									pos: position{line: 2873, col: 13, offset: 90855},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90813},
+																											pos:        position{line: 2873, col: 13, offset: 90855},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90820},
+																											pos:        position{line: 2873, col: 20, offset: 90862},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90829},
+																											pos:        position{line: 2873, col: 29, offset: 90871},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32752,9 +32928,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 90989},
+																								pos: position{line: 2883, col: 8, offset: 91031},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 90990,
+																									line: 2883, col: 9, offset: 91032,
 																								},
 																							},
 																						},
@@ -32819,10 +32995,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24718},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonListContinuationElement735,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32831,28 +33007,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonListContinuationElement738,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32861,9 +33037,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -32879,9 +33055,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2883, col: 8, offset: 90989},
+																	pos: position{line: 2883, col: 8, offset: 91031},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 90990,
+																		line: 2883, col: 9, offset: 91032,
 																	},
 																},
 															},
@@ -32937,10 +33113,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 785, col: 8, offset: 25194},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90641},
+																		pos: position{line: 2864, col: 10, offset: 90683},
 																		run: (*parser).callonListContinuationElement760,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90641},
+																			pos:        position{line: 2864, col: 10, offset: 90683},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32949,28 +33125,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
+																			pos: position{line: 2873, col: 12, offset: 90854},
 																			run: (*parser).callonListContinuationElement763,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32979,9 +33155,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -33053,10 +33229,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25194},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90641},
+																												pos: position{line: 2864, col: 10, offset: 90683},
 																												run: (*parser).callonListContinuationElement788,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90641},
+																													pos:        position{line: 2864, col: 10, offset: 90683},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33065,28 +33241,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91039},
+																											pos: position{line: 2886, col: 8, offset: 91081},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90812},
+																													pos: position{line: 2873, col: 12, offset: 90854},
 																													run: (*parser).callonListContinuationElement791,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90813},
+																														pos: position{line: 2873, col: 13, offset: 90855},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90813},
+																																pos:        position{line: 2873, col: 13, offset: 90855},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90820},
+																																pos:        position{line: 2873, col: 20, offset: 90862},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90829},
+																																pos:        position{line: 2873, col: 29, offset: 90871},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33095,9 +33271,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 90989},
+																													pos: position{line: 2883, col: 8, offset: 91031},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 90990,
+																														line: 2883, col: 9, offset: 91032,
 																													},
 																												},
 																											},
@@ -33113,9 +33289,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -33131,21 +33307,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2881, col: 11, offset: 90975},
+																						pos: position{line: 2881, col: 11, offset: 91017},
 																						expr: &anyMatcher{
-																							line: 2881, col: 13, offset: 90977,
+																							line: 2881, col: 13, offset: 91019,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2810, col: 13, offset: 89167},
+																							pos: position{line: 2810, col: 13, offset: 89209},
 																							run: (*parser).callonListContinuationElement807,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2810, col: 13, offset: 89167},
+																								pos: position{line: 2810, col: 13, offset: 89209},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2810, col: 13, offset: 89167},
+																									pos:        position{line: 2810, col: 13, offset: 89209},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33155,28 +33331,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91039},
+																						pos: position{line: 2886, col: 8, offset: 91081},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90812},
+																								pos: position{line: 2873, col: 12, offset: 90854},
 																								run: (*parser).callonListContinuationElement811,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90813},
+																									pos: position{line: 2873, col: 13, offset: 90855},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90813},
+																											pos:        position{line: 2873, col: 13, offset: 90855},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90820},
+																											pos:        position{line: 2873, col: 20, offset: 90862},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90829},
+																											pos:        position{line: 2873, col: 29, offset: 90871},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33185,9 +33361,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 90989},
+																								pos: position{line: 2883, col: 8, offset: 91031},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 90990,
+																									line: 2883, col: 9, offset: 91032,
 																								},
 																							},
 																						},
@@ -33252,10 +33428,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25194},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonListContinuationElement832,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33264,28 +33440,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonListContinuationElement835,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33294,9 +33470,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -33312,9 +33488,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2883, col: 8, offset: 90989},
+																	pos: position{line: 2883, col: 8, offset: 91031},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 90990,
+																		line: 2883, col: 9, offset: 91032,
 																	},
 																},
 															},
@@ -33376,12 +33552,12 @@ var g = &grammar{
 																							pos:   position{line: 2474, col: 49, offset: 79653},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2810, col: 13, offset: 89167},
+																								pos: position{line: 2810, col: 13, offset: 89209},
 																								run: (*parser).callonListContinuationElement859,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2810, col: 13, offset: 89167},
+																									pos: position{line: 2810, col: 13, offset: 89209},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2810, col: 13, offset: 89167},
+																										pos:        position{line: 2810, col: 13, offset: 89209},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -33391,28 +33567,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonListContinuationElement863,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33421,9 +33597,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -33450,18 +33626,18 @@ var g = &grammar{
 																					pos: position{line: 677, col: 14, offset: 21489},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 90975},
+																							pos: position{line: 2881, col: 11, offset: 91017},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 90977,
+																								line: 2881, col: 13, offset: 91019,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21496},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonListContinuationElement878,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33470,28 +33646,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonListContinuationElement881,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33500,9 +33676,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -33521,12 +33697,12 @@ var g = &grammar{
 																			pos:   position{line: 992, col: 5, offset: 30982},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 2814, col: 14, offset: 89234},
+																				pos: position{line: 2814, col: 14, offset: 89276},
 																				run: (*parser).callonListContinuationElement890,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2814, col: 14, offset: 89234},
+																					pos: position{line: 2814, col: 14, offset: 89276},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2814, col: 14, offset: 89234},
+																						pos:        position{line: 2814, col: 14, offset: 89276},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -33536,28 +33712,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91039},
+																			pos: position{line: 2886, col: 8, offset: 91081},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90812},
+																					pos: position{line: 2873, col: 12, offset: 90854},
 																					run: (*parser).callonListContinuationElement894,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90813},
+																						pos: position{line: 2873, col: 13, offset: 90855},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90813},
+																								pos:        position{line: 2873, col: 13, offset: 90855},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90820},
+																								pos:        position{line: 2873, col: 20, offset: 90862},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90829},
+																								pos:        position{line: 2873, col: 29, offset: 90871},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -33566,9 +33742,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -33612,12 +33788,12 @@ var g = &grammar{
 																				pos:   position{line: 2474, col: 49, offset: 79653},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2810, col: 13, offset: 89167},
+																					pos: position{line: 2810, col: 13, offset: 89209},
 																					run: (*parser).callonListContinuationElement910,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2810, col: 13, offset: 89167},
+																						pos: position{line: 2810, col: 13, offset: 89209},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2810, col: 13, offset: 89167},
+																							pos:        position{line: 2810, col: 13, offset: 89209},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33627,28 +33803,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2886, col: 8, offset: 91039},
+																				pos: position{line: 2886, col: 8, offset: 91081},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2873, col: 12, offset: 90812},
+																						pos: position{line: 2873, col: 12, offset: 90854},
 																						run: (*parser).callonListContinuationElement914,
 																						expr: &choiceExpr{
-																							pos: position{line: 2873, col: 13, offset: 90813},
+																							pos: position{line: 2873, col: 13, offset: 90855},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 13, offset: 90813},
+																									pos:        position{line: 2873, col: 13, offset: 90855},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 20, offset: 90820},
+																									pos:        position{line: 2873, col: 20, offset: 90862},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 29, offset: 90829},
+																									pos:        position{line: 2873, col: 29, offset: 90871},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33657,9 +33833,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 90989},
+																						pos: position{line: 2883, col: 8, offset: 91031},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 90990,
+																							line: 2883, col: 9, offset: 91032,
 																						},
 																					},
 																				},
@@ -33707,12 +33883,12 @@ var g = &grammar{
 																								pos:   position{line: 2474, col: 49, offset: 79653},
 																								label: "content",
 																								expr: &actionExpr{
-																									pos: position{line: 2810, col: 13, offset: 89167},
+																									pos: position{line: 2810, col: 13, offset: 89209},
 																									run: (*parser).callonListContinuationElement931,
 																									expr: &zeroOrMoreExpr{
-																										pos: position{line: 2810, col: 13, offset: 89167},
+																										pos: position{line: 2810, col: 13, offset: 89209},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2810, col: 13, offset: 89167},
+																											pos:        position{line: 2810, col: 13, offset: 89209},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -33722,28 +33898,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91039},
+																								pos: position{line: 2886, col: 8, offset: 91081},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90812},
+																										pos: position{line: 2873, col: 12, offset: 90854},
 																										run: (*parser).callonListContinuationElement935,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90813},
+																											pos: position{line: 2873, col: 13, offset: 90855},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90813},
+																													pos:        position{line: 2873, col: 13, offset: 90855},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90820},
+																													pos:        position{line: 2873, col: 20, offset: 90862},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90829},
+																													pos:        position{line: 2873, col: 29, offset: 90871},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33752,9 +33928,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 90989},
+																										pos: position{line: 2883, col: 8, offset: 91031},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 90990,
+																											line: 2883, col: 9, offset: 91032,
 																										},
 																									},
 																								},
@@ -33781,18 +33957,18 @@ var g = &grammar{
 																						pos: position{line: 677, col: 14, offset: 21489},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2881, col: 11, offset: 90975},
+																								pos: position{line: 2881, col: 11, offset: 91017},
 																								expr: &anyMatcher{
-																									line: 2881, col: 13, offset: 90977,
+																									line: 2881, col: 13, offset: 91019,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21496},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90641},
+																									pos: position{line: 2864, col: 10, offset: 90683},
 																									run: (*parser).callonListContinuationElement950,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90641},
+																										pos:        position{line: 2864, col: 10, offset: 90683},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33801,28 +33977,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91039},
+																								pos: position{line: 2886, col: 8, offset: 91081},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90812},
+																										pos: position{line: 2873, col: 12, offset: 90854},
 																										run: (*parser).callonListContinuationElement953,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90813},
+																											pos: position{line: 2873, col: 13, offset: 90855},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90813},
+																													pos:        position{line: 2873, col: 13, offset: 90855},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90820},
+																													pos:        position{line: 2873, col: 20, offset: 90862},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90829},
+																													pos:        position{line: 2873, col: 29, offset: 90871},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33831,9 +34007,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 90989},
+																										pos: position{line: 2883, col: 8, offset: 91031},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 90990,
+																											line: 2883, col: 9, offset: 91032,
 																										},
 																									},
 																								},
@@ -33852,12 +34028,12 @@ var g = &grammar{
 																				pos:   position{line: 992, col: 5, offset: 30982},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2814, col: 14, offset: 89234},
+																					pos: position{line: 2814, col: 14, offset: 89276},
 																					run: (*parser).callonListContinuationElement962,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2814, col: 14, offset: 89234},
+																						pos: position{line: 2814, col: 14, offset: 89276},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2814, col: 14, offset: 89234},
+																							pos:        position{line: 2814, col: 14, offset: 89276},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33867,28 +34043,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2886, col: 8, offset: 91039},
+																				pos: position{line: 2886, col: 8, offset: 91081},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2873, col: 12, offset: 90812},
+																						pos: position{line: 2873, col: 12, offset: 90854},
 																						run: (*parser).callonListContinuationElement966,
 																						expr: &choiceExpr{
-																							pos: position{line: 2873, col: 13, offset: 90813},
+																							pos: position{line: 2873, col: 13, offset: 90855},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 13, offset: 90813},
+																									pos:        position{line: 2873, col: 13, offset: 90855},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 20, offset: 90820},
+																									pos:        position{line: 2873, col: 20, offset: 90862},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 29, offset: 90829},
+																									pos:        position{line: 2873, col: 29, offset: 90871},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33897,9 +34073,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 90989},
+																						pos: position{line: 2883, col: 8, offset: 91031},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 90990,
+																							line: 2883, col: 9, offset: 91032,
 																						},
 																					},
 																				},
@@ -33917,12 +34093,12 @@ var g = &grammar{
 																				pos:   position{line: 1796, col: 5, offset: 58007},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2814, col: 14, offset: 89234},
+																					pos: position{line: 2814, col: 14, offset: 89276},
 																					run: (*parser).callonListContinuationElement976,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2814, col: 14, offset: 89234},
+																						pos: position{line: 2814, col: 14, offset: 89276},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2814, col: 14, offset: 89234},
+																							pos:        position{line: 2814, col: 14, offset: 89276},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33936,28 +34112,28 @@ var g = &grammar{
 																				run: (*parser).callonListContinuationElement979,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2886, col: 8, offset: 91039},
+																				pos: position{line: 2886, col: 8, offset: 91081},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2873, col: 12, offset: 90812},
+																						pos: position{line: 2873, col: 12, offset: 90854},
 																						run: (*parser).callonListContinuationElement981,
 																						expr: &choiceExpr{
-																							pos: position{line: 2873, col: 13, offset: 90813},
+																							pos: position{line: 2873, col: 13, offset: 90855},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 13, offset: 90813},
+																									pos:        position{line: 2873, col: 13, offset: 90855},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 20, offset: 90820},
+																									pos:        position{line: 2873, col: 20, offset: 90862},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 29, offset: 90829},
+																									pos:        position{line: 2873, col: 29, offset: 90871},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33966,9 +34142,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 90989},
+																						pos: position{line: 2883, col: 8, offset: 91031},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 90990,
+																							line: 2883, col: 9, offset: 91032,
 																						},
 																					},
 																				},
@@ -34015,10 +34191,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 778, col: 8, offset: 24949},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90641},
+																		pos: position{line: 2864, col: 10, offset: 90683},
 																		run: (*parser).callonListContinuationElement997,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90641},
+																			pos:        position{line: 2864, col: 10, offset: 90683},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34027,28 +34203,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
+																			pos: position{line: 2873, col: 12, offset: 90854},
 																			run: (*parser).callonListContinuationElement1000,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34057,9 +34233,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -34107,10 +34283,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 778, col: 8, offset: 24949},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90641},
+																									pos: position{line: 2864, col: 10, offset: 90683},
 																									run: (*parser).callonListContinuationElement1019,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90641},
+																										pos:        position{line: 2864, col: 10, offset: 90683},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34119,28 +34295,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91039},
+																								pos: position{line: 2886, col: 8, offset: 91081},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90812},
+																										pos: position{line: 2873, col: 12, offset: 90854},
 																										run: (*parser).callonListContinuationElement1022,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90813},
+																											pos: position{line: 2873, col: 13, offset: 90855},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90813},
+																													pos:        position{line: 2873, col: 13, offset: 90855},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90820},
+																													pos:        position{line: 2873, col: 20, offset: 90862},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90829},
+																													pos:        position{line: 2873, col: 29, offset: 90871},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34149,9 +34325,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 90989},
+																										pos: position{line: 2883, col: 8, offset: 91031},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 90990,
+																											line: 2883, col: 9, offset: 91032,
 																										},
 																									},
 																								},
@@ -34160,9 +34336,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -34178,21 +34354,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2881, col: 11, offset: 90975},
+																						pos: position{line: 2881, col: 11, offset: 91017},
 																						expr: &anyMatcher{
-																							line: 2881, col: 13, offset: 90977,
+																							line: 2881, col: 13, offset: 91019,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2810, col: 13, offset: 89167},
+																							pos: position{line: 2810, col: 13, offset: 89209},
 																							run: (*parser).callonListContinuationElement1037,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2810, col: 13, offset: 89167},
+																								pos: position{line: 2810, col: 13, offset: 89209},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2810, col: 13, offset: 89167},
+																									pos:        position{line: 2810, col: 13, offset: 89209},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34202,28 +34378,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91039},
+																						pos: position{line: 2886, col: 8, offset: 91081},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90812},
+																								pos: position{line: 2873, col: 12, offset: 90854},
 																								run: (*parser).callonListContinuationElement1041,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90813},
+																									pos: position{line: 2873, col: 13, offset: 90855},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90813},
+																											pos:        position{line: 2873, col: 13, offset: 90855},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90820},
+																											pos:        position{line: 2873, col: 20, offset: 90862},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90829},
+																											pos:        position{line: 2873, col: 29, offset: 90871},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34232,9 +34408,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 90989},
+																								pos: position{line: 2883, col: 8, offset: 91031},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 90990,
+																									line: 2883, col: 9, offset: 91032,
 																								},
 																							},
 																						},
@@ -34279,10 +34455,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 778, col: 8, offset: 24949},
 																				expr: &actionExpr{
-																					pos: position{line: 2864, col: 10, offset: 90641},
+																					pos: position{line: 2864, col: 10, offset: 90683},
 																					run: (*parser).callonListContinuationElement1057,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2864, col: 10, offset: 90641},
+																						pos:        position{line: 2864, col: 10, offset: 90683},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34291,28 +34467,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2886, col: 8, offset: 91039},
+																				pos: position{line: 2886, col: 8, offset: 91081},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2873, col: 12, offset: 90812},
+																						pos: position{line: 2873, col: 12, offset: 90854},
 																						run: (*parser).callonListContinuationElement1060,
 																						expr: &choiceExpr{
-																							pos: position{line: 2873, col: 13, offset: 90813},
+																							pos: position{line: 2873, col: 13, offset: 90855},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 13, offset: 90813},
+																									pos:        position{line: 2873, col: 13, offset: 90855},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 20, offset: 90820},
+																									pos:        position{line: 2873, col: 20, offset: 90862},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 29, offset: 90829},
+																									pos:        position{line: 2873, col: 29, offset: 90871},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34321,9 +34497,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 90989},
+																						pos: position{line: 2883, col: 8, offset: 91031},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 90990,
+																							line: 2883, col: 9, offset: 91032,
 																						},
 																					},
 																				},
@@ -34332,9 +34508,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2883, col: 8, offset: 90989},
+																	pos: position{line: 2883, col: 8, offset: 91031},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 90990,
+																		line: 2883, col: 9, offset: 91032,
 																	},
 																},
 															},
@@ -34390,10 +34566,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 792, col: 8, offset: 25446},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90641},
+																		pos: position{line: 2864, col: 10, offset: 90683},
 																		run: (*parser).callonListContinuationElement1081,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90641},
+																			pos:        position{line: 2864, col: 10, offset: 90683},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34402,28 +34578,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
+																			pos: position{line: 2873, col: 12, offset: 90854},
 																			run: (*parser).callonListContinuationElement1084,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34432,9 +34608,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -34506,10 +34682,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25446},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90641},
+																												pos: position{line: 2864, col: 10, offset: 90683},
 																												run: (*parser).callonListContinuationElement1109,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90641},
+																													pos:        position{line: 2864, col: 10, offset: 90683},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34518,28 +34694,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91039},
+																											pos: position{line: 2886, col: 8, offset: 91081},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90812},
+																													pos: position{line: 2873, col: 12, offset: 90854},
 																													run: (*parser).callonListContinuationElement1112,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90813},
+																														pos: position{line: 2873, col: 13, offset: 90855},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90813},
+																																pos:        position{line: 2873, col: 13, offset: 90855},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90820},
+																																pos:        position{line: 2873, col: 20, offset: 90862},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90829},
+																																pos:        position{line: 2873, col: 29, offset: 90871},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34548,9 +34724,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 90989},
+																													pos: position{line: 2883, col: 8, offset: 91031},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 90990,
+																														line: 2883, col: 9, offset: 91032,
 																													},
 																												},
 																											},
@@ -34566,9 +34742,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -34584,21 +34760,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2881, col: 11, offset: 90975},
+																						pos: position{line: 2881, col: 11, offset: 91017},
 																						expr: &anyMatcher{
-																							line: 2881, col: 13, offset: 90977,
+																							line: 2881, col: 13, offset: 91019,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2810, col: 13, offset: 89167},
+																							pos: position{line: 2810, col: 13, offset: 89209},
 																							run: (*parser).callonListContinuationElement1128,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2810, col: 13, offset: 89167},
+																								pos: position{line: 2810, col: 13, offset: 89209},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2810, col: 13, offset: 89167},
+																									pos:        position{line: 2810, col: 13, offset: 89209},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34608,28 +34784,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91039},
+																						pos: position{line: 2886, col: 8, offset: 91081},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90812},
+																								pos: position{line: 2873, col: 12, offset: 90854},
 																								run: (*parser).callonListContinuationElement1132,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90813},
+																									pos: position{line: 2873, col: 13, offset: 90855},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90813},
+																											pos:        position{line: 2873, col: 13, offset: 90855},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90820},
+																											pos:        position{line: 2873, col: 20, offset: 90862},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90829},
+																											pos:        position{line: 2873, col: 29, offset: 90871},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34638,9 +34814,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 90989},
+																								pos: position{line: 2883, col: 8, offset: 91031},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 90990,
+																									line: 2883, col: 9, offset: 91032,
 																								},
 																							},
 																						},
@@ -34705,10 +34881,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25446},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonListContinuationElement1153,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34717,28 +34893,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonListContinuationElement1156,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34747,9 +34923,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -34765,9 +34941,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2883, col: 8, offset: 90989},
+																	pos: position{line: 2883, col: 8, offset: 91031},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 90990,
+																		line: 2883, col: 9, offset: 91032,
 																	},
 																},
 															},
@@ -34823,10 +34999,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 799, col: 8, offset: 25696},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90641},
+																		pos: position{line: 2864, col: 10, offset: 90683},
 																		run: (*parser).callonListContinuationElement1178,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90641},
+																			pos:        position{line: 2864, col: 10, offset: 90683},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34835,28 +35011,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
+																			pos: position{line: 2873, col: 12, offset: 90854},
 																			run: (*parser).callonListContinuationElement1181,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34865,9 +35041,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -34939,10 +35115,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25696},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90641},
+																												pos: position{line: 2864, col: 10, offset: 90683},
 																												run: (*parser).callonListContinuationElement1206,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90641},
+																													pos:        position{line: 2864, col: 10, offset: 90683},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34951,28 +35127,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91039},
+																											pos: position{line: 2886, col: 8, offset: 91081},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90812},
+																													pos: position{line: 2873, col: 12, offset: 90854},
 																													run: (*parser).callonListContinuationElement1209,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90813},
+																														pos: position{line: 2873, col: 13, offset: 90855},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90813},
+																																pos:        position{line: 2873, col: 13, offset: 90855},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90820},
+																																pos:        position{line: 2873, col: 20, offset: 90862},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90829},
+																																pos:        position{line: 2873, col: 29, offset: 90871},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34981,9 +35157,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 90989},
+																													pos: position{line: 2883, col: 8, offset: 91031},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 90990,
+																														line: 2883, col: 9, offset: 91032,
 																													},
 																												},
 																											},
@@ -34999,9 +35175,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -35017,21 +35193,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2881, col: 11, offset: 90975},
+																						pos: position{line: 2881, col: 11, offset: 91017},
 																						expr: &anyMatcher{
-																							line: 2881, col: 13, offset: 90977,
+																							line: 2881, col: 13, offset: 91019,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2810, col: 13, offset: 89167},
+																							pos: position{line: 2810, col: 13, offset: 89209},
 																							run: (*parser).callonListContinuationElement1225,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2810, col: 13, offset: 89167},
+																								pos: position{line: 2810, col: 13, offset: 89209},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2810, col: 13, offset: 89167},
+																									pos:        position{line: 2810, col: 13, offset: 89209},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35041,28 +35217,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91039},
+																						pos: position{line: 2886, col: 8, offset: 91081},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90812},
+																								pos: position{line: 2873, col: 12, offset: 90854},
 																								run: (*parser).callonListContinuationElement1229,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90813},
+																									pos: position{line: 2873, col: 13, offset: 90855},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90813},
+																											pos:        position{line: 2873, col: 13, offset: 90855},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90820},
+																											pos:        position{line: 2873, col: 20, offset: 90862},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90829},
+																											pos:        position{line: 2873, col: 29, offset: 90871},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35071,9 +35247,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 90989},
+																								pos: position{line: 2883, col: 8, offset: 91031},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 90990,
+																									line: 2883, col: 9, offset: 91032,
 																								},
 																							},
 																						},
@@ -35138,10 +35314,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25696},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonListContinuationElement1250,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35150,28 +35326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonListContinuationElement1253,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35180,9 +35356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -35198,9 +35374,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2883, col: 8, offset: 90989},
+																	pos: position{line: 2883, col: 8, offset: 91031},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 90990,
+																		line: 2883, col: 9, offset: 91032,
 																	},
 																},
 															},
@@ -35256,10 +35432,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 806, col: 8, offset: 25942},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90641},
+																		pos: position{line: 2864, col: 10, offset: 90683},
 																		run: (*parser).callonListContinuationElement1275,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90641},
+																			pos:        position{line: 2864, col: 10, offset: 90683},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35268,28 +35444,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
+																			pos: position{line: 2873, col: 12, offset: 90854},
 																			run: (*parser).callonListContinuationElement1278,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35298,9 +35474,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -35372,10 +35548,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25942},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90641},
+																												pos: position{line: 2864, col: 10, offset: 90683},
 																												run: (*parser).callonListContinuationElement1303,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90641},
+																													pos:        position{line: 2864, col: 10, offset: 90683},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35384,28 +35560,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91039},
+																											pos: position{line: 2886, col: 8, offset: 91081},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90812},
+																													pos: position{line: 2873, col: 12, offset: 90854},
 																													run: (*parser).callonListContinuationElement1306,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90813},
+																														pos: position{line: 2873, col: 13, offset: 90855},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90813},
+																																pos:        position{line: 2873, col: 13, offset: 90855},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90820},
+																																pos:        position{line: 2873, col: 20, offset: 90862},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90829},
+																																pos:        position{line: 2873, col: 29, offset: 90871},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35414,9 +35590,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 90989},
+																													pos: position{line: 2883, col: 8, offset: 91031},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 90990,
+																														line: 2883, col: 9, offset: 91032,
 																													},
 																												},
 																											},
@@ -35432,9 +35608,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -35450,21 +35626,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2881, col: 11, offset: 90975},
+																						pos: position{line: 2881, col: 11, offset: 91017},
 																						expr: &anyMatcher{
-																							line: 2881, col: 13, offset: 90977,
+																							line: 2881, col: 13, offset: 91019,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2810, col: 13, offset: 89167},
+																							pos: position{line: 2810, col: 13, offset: 89209},
 																							run: (*parser).callonListContinuationElement1322,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2810, col: 13, offset: 89167},
+																								pos: position{line: 2810, col: 13, offset: 89209},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2810, col: 13, offset: 89167},
+																									pos:        position{line: 2810, col: 13, offset: 89209},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35474,28 +35650,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91039},
+																						pos: position{line: 2886, col: 8, offset: 91081},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90812},
+																								pos: position{line: 2873, col: 12, offset: 90854},
 																								run: (*parser).callonListContinuationElement1326,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90813},
+																									pos: position{line: 2873, col: 13, offset: 90855},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90813},
+																											pos:        position{line: 2873, col: 13, offset: 90855},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90820},
+																											pos:        position{line: 2873, col: 20, offset: 90862},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90829},
+																											pos:        position{line: 2873, col: 29, offset: 90871},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35504,9 +35680,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 90989},
+																								pos: position{line: 2883, col: 8, offset: 91031},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 90990,
+																									line: 2883, col: 9, offset: 91032,
 																								},
 																							},
 																						},
@@ -35571,10 +35747,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25942},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90641},
+																								pos: position{line: 2864, col: 10, offset: 90683},
 																								run: (*parser).callonListContinuationElement1347,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90641},
+																									pos:        position{line: 2864, col: 10, offset: 90683},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35583,28 +35759,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91039},
+																							pos: position{line: 2886, col: 8, offset: 91081},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90812},
+																									pos: position{line: 2873, col: 12, offset: 90854},
 																									run: (*parser).callonListContinuationElement1350,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90813},
+																										pos: position{line: 2873, col: 13, offset: 90855},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90813},
+																												pos:        position{line: 2873, col: 13, offset: 90855},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90820},
+																												pos:        position{line: 2873, col: 20, offset: 90862},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90829},
+																												pos:        position{line: 2873, col: 29, offset: 90871},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35613,9 +35789,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 90989},
+																									pos: position{line: 2883, col: 8, offset: 91031},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 90990,
+																										line: 2883, col: 9, offset: 91032,
 																									},
 																								},
 																							},
@@ -35631,9 +35807,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2883, col: 8, offset: 90989},
+																	pos: position{line: 2883, col: 8, offset: 91031},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 90990,
+																		line: 2883, col: 9, offset: 91032,
 																	},
 																},
 															},
@@ -35644,52 +35820,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2709, col: 18, offset: 86231},
+										pos: position{line: 2709, col: 18, offset: 86273},
 										run: (*parser).callonListContinuationElement1360,
 										expr: &seqExpr{
-											pos: position{line: 2709, col: 18, offset: 86231},
+											pos: position{line: 2709, col: 18, offset: 86273},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2710, col: 9, offset: 86241},
+													pos: position{line: 2710, col: 9, offset: 86283},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2710, col: 9, offset: 86241},
+															pos:        position{line: 2710, col: 9, offset: 86283},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2711, col: 11, offset: 86277},
+															pos:        position{line: 2711, col: 11, offset: 86319},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2711, col: 19, offset: 86285},
+															pos:        position{line: 2711, col: 19, offset: 86327},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2711, col: 29, offset: 86295},
+															pos:        position{line: 2711, col: 29, offset: 86337},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2711, col: 37, offset: 86303},
+															pos:        position{line: 2711, col: 37, offset: 86345},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2711, col: 47, offset: 86313},
+															pos:        position{line: 2711, col: 47, offset: 86355},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2711, col: 55, offset: 86321},
+															pos:        position{line: 2711, col: 55, offset: 86363},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35697,12 +35873,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2712, col: 11, offset: 86379},
+													pos: position{line: 2712, col: 11, offset: 86421},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90641},
+														pos: position{line: 2864, col: 10, offset: 90683},
 														run: (*parser).callonListContinuationElement1371,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90641},
+															pos:        position{line: 2864, col: 10, offset: 90683},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35711,28 +35887,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91039},
+													pos: position{line: 2886, col: 8, offset: 91081},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90812},
+															pos: position{line: 2873, col: 12, offset: 90854},
 															run: (*parser).callonListContinuationElement1374,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90813},
+																pos: position{line: 2873, col: 13, offset: 90855},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90813},
+																		pos:        position{line: 2873, col: 13, offset: 90855},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90820},
+																		pos:        position{line: 2873, col: 20, offset: 90862},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90829},
+																		pos:        position{line: 2873, col: 29, offset: 90871},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35741,36 +35917,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 90989},
+															pos: position{line: 2883, col: 8, offset: 91031},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 90990,
+																line: 2883, col: 9, offset: 91032,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91039},
+													pos: position{line: 2886, col: 8, offset: 91081},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90812},
+															pos: position{line: 2873, col: 12, offset: 90854},
 															run: (*parser).callonListContinuationElement1382,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90813},
+																pos: position{line: 2873, col: 13, offset: 90855},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90813},
+																		pos:        position{line: 2873, col: 13, offset: 90855},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90820},
+																		pos:        position{line: 2873, col: 20, offset: 90862},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90829},
+																		pos:        position{line: 2873, col: 29, offset: 90871},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35779,9 +35955,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 90989},
+															pos: position{line: 2883, col: 8, offset: 91031},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 90990,
+																line: 2883, col: 9, offset: 91032,
 															},
 														},
 													},
@@ -35808,10 +35984,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 2606, col: 26, offset: 83331},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90641},
+														pos: position{line: 2864, col: 10, offset: 90683},
 														run: (*parser).callonListContinuationElement1394,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90641},
+															pos:        position{line: 2864, col: 10, offset: 90683},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35820,28 +35996,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91039},
+													pos: position{line: 2886, col: 8, offset: 91081},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90812},
+															pos: position{line: 2873, col: 12, offset: 90854},
 															run: (*parser).callonListContinuationElement1397,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90813},
+																pos: position{line: 2873, col: 13, offset: 90855},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90813},
+																		pos:        position{line: 2873, col: 13, offset: 90855},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90820},
+																		pos:        position{line: 2873, col: 20, offset: 90862},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90829},
+																		pos:        position{line: 2873, col: 29, offset: 90871},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35850,9 +36026,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 90989},
+															pos: position{line: 2883, col: 8, offset: 91031},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 90990,
+																line: 2883, col: 9, offset: 91032,
 															},
 														},
 													},
@@ -35872,18 +36048,18 @@ var g = &grammar{
 																		pos: position{line: 677, col: 14, offset: 21489},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2881, col: 11, offset: 90975},
+																				pos: position{line: 2881, col: 11, offset: 91017},
 																				expr: &anyMatcher{
-																					line: 2881, col: 13, offset: 90977,
+																					line: 2881, col: 13, offset: 91019,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 677, col: 21, offset: 21496},
 																				expr: &actionExpr{
-																					pos: position{line: 2864, col: 10, offset: 90641},
+																					pos: position{line: 2864, col: 10, offset: 90683},
 																					run: (*parser).callonListContinuationElement1412,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2864, col: 10, offset: 90641},
+																						pos:        position{line: 2864, col: 10, offset: 90683},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -35892,28 +36068,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2886, col: 8, offset: 91039},
+																				pos: position{line: 2886, col: 8, offset: 91081},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2873, col: 12, offset: 90812},
+																						pos: position{line: 2873, col: 12, offset: 90854},
 																						run: (*parser).callonListContinuationElement1415,
 																						expr: &choiceExpr{
-																							pos: position{line: 2873, col: 13, offset: 90813},
+																							pos: position{line: 2873, col: 13, offset: 90855},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 13, offset: 90813},
+																									pos:        position{line: 2873, col: 13, offset: 90855},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 20, offset: 90820},
+																									pos:        position{line: 2873, col: 20, offset: 90862},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 29, offset: 90829},
+																									pos:        position{line: 2873, col: 29, offset: 90871},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -35922,9 +36098,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 90989},
+																						pos: position{line: 2883, col: 8, offset: 91031},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 90990,
+																							line: 2883, col: 9, offset: 91032,
 																						},
 																					},
 																				},
@@ -35955,10 +36131,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 2606, col: 26, offset: 83331},
 																									expr: &actionExpr{
-																										pos: position{line: 2864, col: 10, offset: 90641},
+																										pos: position{line: 2864, col: 10, offset: 90683},
 																										run: (*parser).callonListContinuationElement1429,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2864, col: 10, offset: 90641},
+																											pos:        position{line: 2864, col: 10, offset: 90683},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -35967,28 +36143,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2886, col: 8, offset: 91039},
+																									pos: position{line: 2886, col: 8, offset: 91081},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2873, col: 12, offset: 90812},
+																											pos: position{line: 2873, col: 12, offset: 90854},
 																											run: (*parser).callonListContinuationElement1432,
 																											expr: &choiceExpr{
-																												pos: position{line: 2873, col: 13, offset: 90813},
+																												pos: position{line: 2873, col: 13, offset: 90855},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 13, offset: 90813},
+																														pos:        position{line: 2873, col: 13, offset: 90855},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 20, offset: 90820},
+																														pos:        position{line: 2873, col: 20, offset: 90862},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 29, offset: 90829},
+																														pos:        position{line: 2873, col: 29, offset: 90871},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -35997,9 +36173,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2883, col: 8, offset: 90989},
+																											pos: position{line: 2883, col: 8, offset: 91031},
 																											expr: &anyMatcher{
-																												line: 2883, col: 9, offset: 90990,
+																												line: 2883, col: 9, offset: 91032,
 																											},
 																										},
 																									},
@@ -36007,9 +36183,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2883, col: 8, offset: 90989},
+																							pos: position{line: 2883, col: 8, offset: 91031},
 																							expr: &anyMatcher{
-																								line: 2883, col: 9, offset: 90990,
+																								line: 2883, col: 9, offset: 91032,
 																							},
 																						},
 																					},
@@ -36056,10 +36232,10 @@ var g = &grammar{
 																																		&zeroOrMoreExpr{
 																																			pos: position{line: 2628, col: 9, offset: 83773},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2864, col: 10, offset: 90641},
+																																				pos: position{line: 2864, col: 10, offset: 90683},
 																																				run: (*parser).callonListContinuationElement1454,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2864, col: 10, offset: 90641},
+																																					pos:        position{line: 2864, col: 10, offset: 90683},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36099,28 +36275,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2886, col: 8, offset: 91039},
+																														pos: position{line: 2886, col: 8, offset: 91081},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2873, col: 12, offset: 90812},
+																																pos: position{line: 2873, col: 12, offset: 90854},
 																																run: (*parser).callonListContinuationElement1463,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2873, col: 13, offset: 90813},
+																																	pos: position{line: 2873, col: 13, offset: 90855},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2873, col: 13, offset: 90813},
+																																			pos:        position{line: 2873, col: 13, offset: 90855},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2873, col: 20, offset: 90820},
+																																			pos:        position{line: 2873, col: 20, offset: 90862},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2873, col: 29, offset: 90829},
+																																			pos:        position{line: 2873, col: 29, offset: 90871},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36129,9 +36305,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2883, col: 8, offset: 90989},
+																																pos: position{line: 2883, col: 8, offset: 91031},
 																																expr: &anyMatcher{
-																																	line: 2883, col: 9, offset: 90990,
+																																	line: 2883, col: 9, offset: 91032,
 																																},
 																															},
 																														},
@@ -36170,10 +36346,10 @@ var g = &grammar{
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 2606, col: 26, offset: 83331},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2864, col: 10, offset: 90641},
+																																							pos: position{line: 2864, col: 10, offset: 90683},
 																																							run: (*parser).callonListContinuationElement1480,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2864, col: 10, offset: 90641},
+																																								pos:        position{line: 2864, col: 10, offset: 90683},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36182,28 +36358,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2886, col: 8, offset: 91039},
+																																						pos: position{line: 2886, col: 8, offset: 91081},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2873, col: 12, offset: 90812},
+																																								pos: position{line: 2873, col: 12, offset: 90854},
 																																								run: (*parser).callonListContinuationElement1483,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2873, col: 13, offset: 90813},
+																																									pos: position{line: 2873, col: 13, offset: 90855},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2873, col: 13, offset: 90813},
+																																											pos:        position{line: 2873, col: 13, offset: 90855},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2873, col: 20, offset: 90820},
+																																											pos:        position{line: 2873, col: 20, offset: 90862},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2873, col: 29, offset: 90829},
+																																											pos:        position{line: 2873, col: 29, offset: 90871},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36212,9 +36388,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2883, col: 8, offset: 90989},
+																																								pos: position{line: 2883, col: 8, offset: 91031},
 																																								expr: &anyMatcher{
-																																									line: 2883, col: 9, offset: 90990,
+																																									line: 2883, col: 9, offset: 91032,
 																																								},
 																																							},
 																																						},
@@ -36222,9 +36398,9 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2883, col: 8, offset: 90989},
+																																				pos: position{line: 2883, col: 8, offset: 91031},
 																																				expr: &anyMatcher{
-																																					line: 2883, col: 9, offset: 90990,
+																																					line: 2883, col: 9, offset: 91032,
 																																				},
 																																			},
 																																		},
@@ -36239,18 +36415,18 @@ var g = &grammar{
 																																			pos: position{line: 677, col: 14, offset: 21489},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2881, col: 11, offset: 90975},
+																																					pos: position{line: 2881, col: 11, offset: 91017},
 																																					expr: &anyMatcher{
-																																						line: 2881, col: 13, offset: 90977,
+																																						line: 2881, col: 13, offset: 91019,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 677, col: 21, offset: 21496},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2864, col: 10, offset: 90641},
+																																						pos: position{line: 2864, col: 10, offset: 90683},
 																																						run: (*parser).callonListContinuationElement1498,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2864, col: 10, offset: 90641},
+																																							pos:        position{line: 2864, col: 10, offset: 90683},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36259,28 +36435,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2886, col: 8, offset: 91039},
+																																					pos: position{line: 2886, col: 8, offset: 91081},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2873, col: 12, offset: 90812},
+																																							pos: position{line: 2873, col: 12, offset: 90854},
 																																							run: (*parser).callonListContinuationElement1501,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2873, col: 13, offset: 90813},
+																																								pos: position{line: 2873, col: 13, offset: 90855},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2873, col: 13, offset: 90813},
+																																										pos:        position{line: 2873, col: 13, offset: 90855},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2873, col: 20, offset: 90820},
+																																										pos:        position{line: 2873, col: 20, offset: 90862},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2873, col: 29, offset: 90829},
+																																										pos:        position{line: 2873, col: 29, offset: 90871},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36289,9 +36465,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2883, col: 8, offset: 90989},
+																																							pos: position{line: 2883, col: 8, offset: 91031},
 																																							expr: &anyMatcher{
-																																								line: 2883, col: 9, offset: 90990,
+																																								line: 2883, col: 9, offset: 91032,
 																																							},
 																																						},
 																																					},
@@ -36306,12 +36482,12 @@ var g = &grammar{
 																																	expr: &zeroOrOneExpr{
 																																		pos: position{line: 2647, col: 12, offset: 84252},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2664, col: 20, offset: 84716},
+																																			pos: position{line: 2664, col: 20, offset: 84758},
 																																			run: (*parser).callonListContinuationElement1510,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2664, col: 20, offset: 84716},
+																																				pos: position{line: 2664, col: 20, offset: 84758},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2664, col: 20, offset: 84716},
+																																					pos:        position{line: 2664, col: 20, offset: 84758},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36330,10 +36506,10 @@ var g = &grammar{
 																																&zeroOrMoreExpr{
 																																	pos: position{line: 2647, col: 35, offset: 84275},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2864, col: 10, offset: 90641},
+																																		pos: position{line: 2864, col: 10, offset: 90683},
 																																		run: (*parser).callonListContinuationElement1515,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2864, col: 10, offset: 90641},
+																																			pos:        position{line: 2864, col: 10, offset: 90683},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36343,47 +36519,135 @@ var g = &grammar{
 																																},
 																																&zeroOrOneExpr{
 																																	pos: position{line: 2647, col: 42, offset: 84282},
-																																	expr: &actionExpr{
-																																		pos: position{line: 2873, col: 12, offset: 90812},
-																																		run: (*parser).callonListContinuationElement1518,
-																																		expr: &choiceExpr{
-																																			pos: position{line: 2873, col: 13, offset: 90813},
-																																			alternatives: []interface{}{
-																																				&litMatcher{
-																																					pos:        position{line: 2873, col: 13, offset: 90813},
-																																					val:        "\n",
-																																					ignoreCase: false,
-																																					want:       "\"\\n\"",
-																																				},
-																																				&litMatcher{
-																																					pos:        position{line: 2873, col: 20, offset: 90820},
-																																					val:        "\r\n",
-																																					ignoreCase: false,
-																																					want:       "\"\\r\\n\"",
+																																	expr: &seqExpr{
+																																		pos: position{line: 2647, col: 43, offset: 84283},
+																																		exprs: []interface{}{
+																																			&actionExpr{
+																																				pos: position{line: 2873, col: 12, offset: 90854},
+																																				run: (*parser).callonListContinuationElement1519,
+																																				expr: &choiceExpr{
+																																					pos: position{line: 2873, col: 13, offset: 90855},
+																																					alternatives: []interface{}{
+																																						&litMatcher{
+																																							pos:        position{line: 2873, col: 13, offset: 90855},
+																																							val:        "\n",
+																																							ignoreCase: false,
+																																							want:       "\"\\n\"",
+																																						},
+																																						&litMatcher{
+																																							pos:        position{line: 2873, col: 20, offset: 90862},
+																																							val:        "\r\n",
+																																							ignoreCase: false,
+																																							want:       "\"\\r\\n\"",
+																																						},
+																																						&litMatcher{
+																																							pos:        position{line: 2873, col: 29, offset: 90871},
+																																							val:        "\r",
+																																							ignoreCase: false,
+																																							want:       "\"\\r\"",
+																																						},
+																																					},
 																																				},
-																																				&litMatcher{
-																																					pos:        position{line: 2873, col: 29, offset: 90829},
-																																					val:        "\r",
-																																					ignoreCase: false,
-																																					want:       "\"\\r\"",
+																																			},
+																																			&zeroOrMoreExpr{
+																																				pos: position{line: 2647, col: 51, offset: 84291},
+																																				expr: &actionExpr{
+																																					pos: position{line: 2474, col: 22, offset: 79626},
+																																					run: (*parser).callonListContinuationElement1525,
+																																					expr: &seqExpr{
+																																						pos: position{line: 2474, col: 22, offset: 79626},
+																																						exprs: []interface{}{
+																																							&litMatcher{
+																																								pos:        position{line: 2479, col: 31, offset: 79847},
+																																								val:        "//",
+																																								ignoreCase: false,
+																																								want:       "\"//\"",
+																																							},
+																																							&notExpr{
+																																								pos: position{line: 2479, col: 36, offset: 79852},
+																																								expr: &litMatcher{
+																																									pos:        position{line: 2479, col: 37, offset: 79853},
+																																									val:        "//",
+																																									ignoreCase: false,
+																																									want:       "\"//\"",
+																																								},
+																																							},
+																																							&labeledExpr{
+																																								pos:   position{line: 2474, col: 49, offset: 79653},
+																																								label: "content",
+																																								expr: &actionExpr{
+																																									pos: position{line: 2810, col: 13, offset: 89209},
+																																									run: (*parser).callonListContinuationElement1531,
+																																									expr: &zeroOrMoreExpr{
+																																										pos: position{line: 2810, col: 13, offset: 89209},
+																																										expr: &charClassMatcher{
+																																											pos:        position{line: 2810, col: 13, offset: 89209},
+																																											val:        "[^\\r\\n]",
+																																											chars:      []rune{'\r', '\n'},
+																																											ignoreCase: false,
+																																											inverted:   true,
+																																										},
+																																									},
+																																								},
+																																							},
+																																							&choiceExpr{
+																																								pos: position{line: 2886, col: 8, offset: 91081},
+																																								alternatives: []interface{}{
+																																									&actionExpr{
+																																										pos: position{line: 2873, col: 12, offset: 90854},
+																																										run: (*parser).callonListContinuationElement1535,
+																																										expr: &choiceExpr{
+																																											pos: position{line: 2873, col: 13, offset: 90855},
+																																											alternatives: []interface{}{
+																																												&litMatcher{
+																																													pos:        position{line: 2873, col: 13, offset: 90855},
+																																													val:        "\n",
+																																													ignoreCase: false,
+																																													want:       "\"\\n\"",
+																																												},
+																																												&litMatcher{
+																																													pos:        position{line: 2873, col: 20, offset: 90862},
+																																													val:        "\r\n",
+																																													ignoreCase: false,
+																																													want:       "\"\\r\\n\"",
+																																												},
+																																												&litMatcher{
+																																													pos:        position{line: 2873, col: 29, offset: 90871},
+																																													val:        "\r",
+																																													ignoreCase: false,
+																																													want:       "\"\\r\"",
+																																												},
+																																											},
+																																										},
+																																									},
+																																									&notExpr{
+																																										pos: position{line: 2883, col: 8, offset: 91031},
+																																										expr: &anyMatcher{
+																																											line: 2883, col: 9, offset: 91032,
+																																										},
+																																									},
+																																								},
+																																							},
+																																						},
+																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2647, col: 51, offset: 84291},
+																																	pos:   position{line: 2647, col: 72, offset: 84312},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2653, col: 5, offset: 84450},
+																																		pos: position{line: 2653, col: 5, offset: 84471},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2654, col: 9, offset: 84460},
-																																			run: (*parser).callonListContinuationElement1525,
+																																			pos: position{line: 2654, col: 9, offset: 84481},
+																																			run: (*parser).callonListContinuationElement1544,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2654, col: 9, offset: 84460},
+																																				pos: position{line: 2654, col: 9, offset: 84481},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2654, col: 9, offset: 84460},
+																																						pos: position{line: 2654, col: 9, offset: 84481},
 																																						expr: &choiceExpr{
 																																							pos: position{line: 2610, col: 22, offset: 83404},
 																																							alternatives: []interface{}{
@@ -36399,10 +36663,10 @@ var g = &grammar{
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 2606, col: 26, offset: 83331},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2864, col: 10, offset: 90641},
-																																												run: (*parser).callonListContinuationElement1532,
+																																												pos: position{line: 2864, col: 10, offset: 90683},
+																																												run: (*parser).callonListContinuationElement1551,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2864, col: 10, offset: 90641},
+																																													pos:        position{line: 2864, col: 10, offset: 90683},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36411,28 +36675,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2886, col: 8, offset: 91039},
+																																											pos: position{line: 2886, col: 8, offset: 91081},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2873, col: 12, offset: 90812},
-																																													run: (*parser).callonListContinuationElement1535,
+																																													pos: position{line: 2873, col: 12, offset: 90854},
+																																													run: (*parser).callonListContinuationElement1554,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2873, col: 13, offset: 90813},
+																																														pos: position{line: 2873, col: 13, offset: 90855},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2873, col: 13, offset: 90813},
+																																																pos:        position{line: 2873, col: 13, offset: 90855},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2873, col: 20, offset: 90820},
+																																																pos:        position{line: 2873, col: 20, offset: 90862},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2873, col: 29, offset: 90829},
+																																																pos:        position{line: 2873, col: 29, offset: 90871},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36441,9 +36705,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2883, col: 8, offset: 90989},
+																																													pos: position{line: 2883, col: 8, offset: 91031},
 																																													expr: &anyMatcher{
-																																														line: 2883, col: 9, offset: 90990,
+																																														line: 2883, col: 9, offset: 91032,
 																																													},
 																																												},
 																																											},
@@ -36451,35 +36715,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2883, col: 8, offset: 90989},
+																																									pos: position{line: 2883, col: 8, offset: 91031},
 																																									expr: &anyMatcher{
-																																										line: 2883, col: 9, offset: 90990,
+																																										line: 2883, col: 9, offset: 91032,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2655, col: 9, offset: 84487},
+																																						pos: position{line: 2655, col: 9, offset: 84508},
 																																						expr: &actionExpr{
 																																							pos: position{line: 677, col: 14, offset: 21489},
-																																							run: (*parser).callonListContinuationElement1545,
+																																							run: (*parser).callonListContinuationElement1564,
 																																							expr: &seqExpr{
 																																								pos: position{line: 677, col: 14, offset: 21489},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2881, col: 11, offset: 90975},
+																																										pos: position{line: 2881, col: 11, offset: 91017},
 																																										expr: &anyMatcher{
-																																											line: 2881, col: 13, offset: 90977,
+																																											line: 2881, col: 13, offset: 91019,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 677, col: 21, offset: 21496},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2864, col: 10, offset: 90641},
-																																											run: (*parser).callonListContinuationElement1550,
+																																											pos: position{line: 2864, col: 10, offset: 90683},
+																																											run: (*parser).callonListContinuationElement1569,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2864, col: 10, offset: 90641},
+																																												pos:        position{line: 2864, col: 10, offset: 90683},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36488,28 +36752,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2886, col: 8, offset: 91039},
+																																										pos: position{line: 2886, col: 8, offset: 91081},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2873, col: 12, offset: 90812},
-																																												run: (*parser).callonListContinuationElement1553,
+																																												pos: position{line: 2873, col: 12, offset: 90854},
+																																												run: (*parser).callonListContinuationElement1572,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2873, col: 13, offset: 90813},
+																																													pos: position{line: 2873, col: 13, offset: 90855},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2873, col: 13, offset: 90813},
+																																															pos:        position{line: 2873, col: 13, offset: 90855},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2873, col: 20, offset: 90820},
+																																															pos:        position{line: 2873, col: 20, offset: 90862},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2873, col: 29, offset: 90829},
+																																															pos:        position{line: 2873, col: 29, offset: 90871},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36518,9 +36782,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2883, col: 8, offset: 90989},
+																																												pos: position{line: 2883, col: 8, offset: 91031},
 																																												expr: &anyMatcher{
-																																													line: 2883, col: 9, offset: 90990,
+																																													line: 2883, col: 9, offset: 91032,
 																																												},
 																																											},
 																																										},
@@ -36530,22 +36794,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2656, col: 9, offset: 84506},
+																																						pos: position{line: 2656, col: 9, offset: 84527},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2656, col: 11, offset: 84508},
+																																							pos: position{line: 2656, col: 11, offset: 84529},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2656, col: 11, offset: 84508},
+																																									pos:   position{line: 2656, col: 11, offset: 84529},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2656, col: 18, offset: 84515},
+																																										pos: position{line: 2656, col: 18, offset: 84536},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2664, col: 20, offset: 84716},
-																																											run: (*parser).callonListContinuationElement1564,
+																																											pos: position{line: 2664, col: 20, offset: 84758},
+																																											run: (*parser).callonListContinuationElement1583,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2664, col: 20, offset: 84716},
+																																												pos: position{line: 2664, col: 20, offset: 84758},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2664, col: 20, offset: 84716},
+																																													pos:        position{line: 2664, col: 20, offset: 84758},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36556,7 +36820,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2656, col: 37, offset: 84534},
+																																									pos:        position{line: 2656, col: 37, offset: 84555},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36565,15 +36829,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2657, col: 9, offset: 84547},
+																																						pos:   position{line: 2657, col: 9, offset: 84568},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2657, col: 18, offset: 84556},
-																																							run: (*parser).callonListContinuationElement1569,
+																																							pos: position{line: 2657, col: 18, offset: 84577},
+																																							run: (*parser).callonListContinuationElement1588,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2657, col: 18, offset: 84556},
+																																								pos: position{line: 2657, col: 18, offset: 84577},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2657, col: 18, offset: 84556},
+																																									pos:        position{line: 2657, col: 18, offset: 84577},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36583,41 +36847,129 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2659, col: 12, offset: 84618},
-																																						expr: &choiceExpr{
-																																							pos: position{line: 2886, col: 8, offset: 91039},
-																																							alternatives: []interface{}{
-																																								&actionExpr{
-																																									pos: position{line: 2873, col: 12, offset: 90812},
-																																									run: (*parser).callonListContinuationElement1574,
-																																									expr: &choiceExpr{
-																																										pos: position{line: 2873, col: 13, offset: 90813},
-																																										alternatives: []interface{}{
-																																											&litMatcher{
-																																												pos:        position{line: 2873, col: 13, offset: 90813},
-																																												val:        "\n",
-																																												ignoreCase: false,
-																																												want:       "\"\\n\"",
-																																											},
-																																											&litMatcher{
-																																												pos:        position{line: 2873, col: 20, offset: 90820},
-																																												val:        "\r\n",
-																																												ignoreCase: false,
-																																												want:       "\"\\r\\n\"",
+																																						pos: position{line: 2659, col: 12, offset: 84639},
+																																						expr: &seqExpr{
+																																							pos: position{line: 2659, col: 13, offset: 84640},
+																																							exprs: []interface{}{
+																																								&choiceExpr{
+																																									pos: position{line: 2886, col: 8, offset: 91081},
+																																									alternatives: []interface{}{
+																																										&actionExpr{
+																																											pos: position{line: 2873, col: 12, offset: 90854},
+																																											run: (*parser).callonListContinuationElement1594,
+																																											expr: &choiceExpr{
+																																												pos: position{line: 2873, col: 13, offset: 90855},
+																																												alternatives: []interface{}{
+																																													&litMatcher{
+																																														pos:        position{line: 2873, col: 13, offset: 90855},
+																																														val:        "\n",
+																																														ignoreCase: false,
+																																														want:       "\"\\n\"",
+																																													},
+																																													&litMatcher{
+																																														pos:        position{line: 2873, col: 20, offset: 90862},
+																																														val:        "\r\n",
+																																														ignoreCase: false,
+																																														want:       "\"\\r\\n\"",
+																																													},
+																																													&litMatcher{
+																																														pos:        position{line: 2873, col: 29, offset: 90871},
+																																														val:        "\r",
+																																														ignoreCase: false,
+																																														want:       "\"\\r\"",
+																																													},
+																																												},
 																																											},
-																																											&litMatcher{
-																																												pos:        position{line: 2873, col: 29, offset: 90829},
-																																												val:        "\r",
-																																												ignoreCase: false,
-																																												want:       "\"\\r\"",
+																																										},
+																																										&notExpr{
+																																											pos: position{line: 2883, col: 8, offset: 91031},
+																																											expr: &anyMatcher{
+																																												line: 2883, col: 9, offset: 91032,
 																																											},
 																																										},
 																																									},
 																																								},
-																																								&notExpr{
-																																									pos: position{line: 2883, col: 8, offset: 90989},
-																																									expr: &anyMatcher{
-																																										line: 2883, col: 9, offset: 90990,
+																																								&zeroOrMoreExpr{
+																																									pos: position{line: 2659, col: 17, offset: 84644},
+																																									expr: &actionExpr{
+																																										pos: position{line: 2474, col: 22, offset: 79626},
+																																										run: (*parser).callonListContinuationElement1602,
+																																										expr: &seqExpr{
+																																											pos: position{line: 2474, col: 22, offset: 79626},
+																																											exprs: []interface{}{
+																																												&litMatcher{
+																																													pos:        position{line: 2479, col: 31, offset: 79847},
+																																													val:        "//",
+																																													ignoreCase: false,
+																																													want:       "\"//\"",
+																																												},
+																																												&notExpr{
+																																													pos: position{line: 2479, col: 36, offset: 79852},
+																																													expr: &litMatcher{
+																																														pos:        position{line: 2479, col: 37, offset: 79853},
+																																														val:        "//",
+																																														ignoreCase: false,
+																																														want:       "\"//\"",
+																																													},
+																																												},
+																																												&labeledExpr{
+																																													pos:   position{line: 2474, col: 49, offset: 79653},
+																																													label: "content",
+																																													expr: &actionExpr{
+																																														pos: position{line: 2810, col: 13, offset: 89209},
+																																														run: (*parser).callonListContinuationElement1608,
+																																														expr: &zeroOrMoreExpr{
+																																															pos: position{line: 2810, col: 13, offset: 89209},
+																																															expr: &charClassMatcher{
+																																																pos:        position{line: 2810, col: 13, offset: 89209},
+																																																val:        "[^\\r\\n]",
+																																																chars:      []rune{'\r', '\n'},
+																																																ignoreCase: false,
+																																																inverted:   true,
+																																															},
+																																														},
+																																													},
+																																												},
+																																												&choiceExpr{
+																																													pos: position{line: 2886, col: 8, offset: 91081},
+																																													alternatives: []interface{}{
+																																														&actionExpr{
+																																															pos: position{line: 2873, col: 12, offset: 90854},
+																																															run: (*parser).callonListContinuationElement1612,
+																																															expr: &choiceExpr{
+																																																pos: position{line: 2873, col: 13, offset: 90855},
+																																																alternatives: []interface{}{
+																																																	&litMatcher{
+																																																		pos:        position{line: 2873, col: 13, offset: 90855},
+																																																		val:        "\n",
+																																																		ignoreCase: false,
+																																																		want:       "\"\\n\"",
+																																																	},
+																																																	&litMatcher{
+																																																		pos:        position{line: 2873, col: 20, offset: 90862},
+																																																		val:        "\r\n",
+																																																		ignoreCase: false,
+																																																		want:       "\"\\r\\n\"",
+																																																	},
+																																																	&litMatcher{
+																																																		pos:        position{line: 2873, col: 29, offset: 90871},
+																																																		val:        "\r",
+																																																		ignoreCase: false,
+																																																		want:       "\"\\r\"",
+																																																	},
+																																																},
+																																															},
+																																														},
+																																														&notExpr{
+																																															pos: position{line: 2883, col: 8, offset: 91031},
+																																															expr: &anyMatcher{
+																																																line: 2883, col: 9, offset: 91032,
+																																															},
+																																														},
+																																													},
+																																												},
+																																											},
+																																										},
 																																									},
 																																								},
 																																							},
@@ -36640,23 +36992,23 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 677, col: 14, offset: 21489},
-																							run: (*parser).callonListContinuationElement1581,
+																							run: (*parser).callonListContinuationElement1619,
 																							expr: &seqExpr{
 																								pos: position{line: 677, col: 14, offset: 21489},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2881, col: 11, offset: 90975},
+																										pos: position{line: 2881, col: 11, offset: 91017},
 																										expr: &anyMatcher{
-																											line: 2881, col: 13, offset: 90977,
+																											line: 2881, col: 13, offset: 91019,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 677, col: 21, offset: 21496},
 																										expr: &actionExpr{
-																											pos: position{line: 2864, col: 10, offset: 90641},
-																											run: (*parser).callonListContinuationElement1586,
+																											pos: position{line: 2864, col: 10, offset: 90683},
+																											run: (*parser).callonListContinuationElement1624,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2864, col: 10, offset: 90641},
+																												pos:        position{line: 2864, col: 10, offset: 90683},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -36665,28 +37017,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2886, col: 8, offset: 91039},
+																										pos: position{line: 2886, col: 8, offset: 91081},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2873, col: 12, offset: 90812},
-																												run: (*parser).callonListContinuationElement1589,
+																												pos: position{line: 2873, col: 12, offset: 90854},
+																												run: (*parser).callonListContinuationElement1627,
 																												expr: &choiceExpr{
-																													pos: position{line: 2873, col: 13, offset: 90813},
+																													pos: position{line: 2873, col: 13, offset: 90855},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2873, col: 13, offset: 90813},
+																															pos:        position{line: 2873, col: 13, offset: 90855},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2873, col: 20, offset: 90820},
+																															pos:        position{line: 2873, col: 20, offset: 90862},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2873, col: 29, offset: 90829},
+																															pos:        position{line: 2873, col: 29, offset: 90871},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -36695,9 +37047,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2883, col: 8, offset: 90989},
+																												pos: position{line: 2883, col: 8, offset: 91031},
 																												expr: &anyMatcher{
-																													line: 2883, col: 9, offset: 90990,
+																													line: 2883, col: 9, offset: 91032,
 																												},
 																											},
 																										},
@@ -36730,10 +37082,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 2606, col: 26, offset: 83331},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90641},
-																		run: (*parser).callonListContinuationElement1600,
+																		pos: position{line: 2864, col: 10, offset: 90683},
+																		run: (*parser).callonListContinuationElement1638,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90641},
+																			pos:        position{line: 2864, col: 10, offset: 90683},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -36742,28 +37094,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
-																			run: (*parser).callonListContinuationElement1603,
+																			pos: position{line: 2873, col: 12, offset: 90854},
+																			run: (*parser).callonListContinuationElement1641,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36772,9 +37124,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -36782,9 +37134,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 90989},
+															pos: position{line: 2883, col: 8, offset: 91031},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 90990,
+																line: 2883, col: 9, offset: 91032,
 															},
 														},
 													},
@@ -36794,7 +37146,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2474, col: 22, offset: 79626},
-										run: (*parser).callonListContinuationElement1612,
+										run: (*parser).callonListContinuationElement1650,
 										expr: &seqExpr{
 											pos: position{line: 2474, col: 22, offset: 79626},
 											exprs: []interface{}{
@@ -36817,12 +37169,12 @@ var g = &grammar{
 													pos:   position{line: 2474, col: 49, offset: 79653},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2810, col: 13, offset: 89167},
-														run: (*parser).callonListContinuationElement1618,
+														pos: position{line: 2810, col: 13, offset: 89209},
+														run: (*parser).callonListContinuationElement1656,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2810, col: 13, offset: 89167},
+															pos: position{line: 2810, col: 13, offset: 89209},
 															expr: &charClassMatcher{
-																pos:        position{line: 2810, col: 13, offset: 89167},
+																pos:        position{line: 2810, col: 13, offset: 89209},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -36832,28 +37184,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91039},
+													pos: position{line: 2886, col: 8, offset: 91081},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90812},
-															run: (*parser).callonListContinuationElement1622,
+															pos: position{line: 2873, col: 12, offset: 90854},
+															run: (*parser).callonListContinuationElement1660,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90813},
+																pos: position{line: 2873, col: 13, offset: 90855},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90813},
+																		pos:        position{line: 2873, col: 13, offset: 90855},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90820},
+																		pos:        position{line: 2873, col: 20, offset: 90862},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90829},
+																		pos:        position{line: 2873, col: 29, offset: 90871},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36862,9 +37214,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 90989},
+															pos: position{line: 2883, col: 8, offset: 91031},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 90990,
+																line: 2883, col: 9, offset: 91032,
 															},
 														},
 													},
@@ -36874,7 +37226,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1573, col: 5, offset: 50818},
-										run: (*parser).callonListContinuationElement1629,
+										run: (*parser).callonListContinuationElement1667,
 										expr: &seqExpr{
 											pos: position{line: 1573, col: 5, offset: 50818},
 											exprs: []interface{}{
@@ -36885,13 +37237,13 @@ var g = &grammar{
 														pos: position{line: 1573, col: 11, offset: 50824},
 														expr: &actionExpr{
 															pos: position{line: 1737, col: 5, offset: 56141},
-															run: (*parser).callonListContinuationElement1633,
+															run: (*parser).callonListContinuationElement1671,
 															expr: &seqExpr{
 																pos: position{line: 1737, col: 5, offset: 56141},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 1737, col: 5, offset: 56141},
-																		run: (*parser).callonListContinuationElement1635,
+																		run: (*parser).callonListContinuationElement1673,
 																	},
 																	&labeledExpr{
 																		pos:   position{line: 1740, col: 5, offset: 56204},
@@ -36901,7 +37253,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 1740, col: 12, offset: 56211},
-																					run: (*parser).callonListContinuationElement1638,
+																					run: (*parser).callonListContinuationElement1676,
 																					expr: &litMatcher{
 																						pos:        position{line: 1740, col: 12, offset: 56211},
 																						val:        "TIP: ",
@@ -36911,7 +37263,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1742, col: 13, offset: 56267},
-																					run: (*parser).callonListContinuationElement1640,
+																					run: (*parser).callonListContinuationElement1678,
 																					expr: &litMatcher{
 																						pos:        position{line: 1742, col: 13, offset: 56267},
 																						val:        "NOTE: ",
@@ -36921,7 +37273,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1744, col: 13, offset: 56325},
-																					run: (*parser).callonListContinuationElement1642,
+																					run: (*parser).callonListContinuationElement1680,
 																					expr: &litMatcher{
 																						pos:        position{line: 1744, col: 13, offset: 56325},
 																						val:        "IMPORTANT: ",
@@ -36931,7 +37283,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1746, col: 13, offset: 56393},
-																					run: (*parser).callonListContinuationElement1644,
+																					run: (*parser).callonListContinuationElement1682,
 																					expr: &litMatcher{
 																						pos:        position{line: 1746, col: 13, offset: 56393},
 																						val:        "WARNING: ",
@@ -36941,7 +37293,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1748, col: 13, offset: 56457},
-																					run: (*parser).callonListContinuationElement1646,
+																					run: (*parser).callonListContinuationElement1684,
 																					expr: &litMatcher{
 																						pos:        position{line: 1748, col: 13, offset: 56457},
 																						val:        "CAUTION: ",
@@ -36951,16 +37303,16 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1750, col: 13, offset: 56521},
-																					run: (*parser).callonListContinuationElement1648,
+																					run: (*parser).callonListContinuationElement1686,
 																					expr: &andExpr{
 																						pos: position{line: 1750, col: 13, offset: 56521},
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 11, offset: 90702},
-																							run: (*parser).callonListContinuationElement1650,
+																							pos: position{line: 2868, col: 11, offset: 90744},
+																							run: (*parser).callonListContinuationElement1688,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2868, col: 11, offset: 90702},
+																								pos: position{line: 2868, col: 11, offset: 90744},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 11, offset: 90702},
+																									pos:        position{line: 2868, col: 11, offset: 90744},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36983,7 +37335,7 @@ var g = &grammar{
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1517, col: 5, offset: 49197},
-														run: (*parser).callonListContinuationElement1654,
+														run: (*parser).callonListContinuationElement1692,
 														expr: &seqExpr{
 															pos: position{line: 1517, col: 5, offset: 49197},
 															exprs: []interface{}{
@@ -36991,23 +37343,23 @@ var g = &grammar{
 																	pos: position{line: 1517, col: 5, offset: 49197},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
-																		run: (*parser).callonListContinuationElement1657,
+																		run: (*parser).callonListContinuationElement1695,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2881, col: 11, offset: 90975},
+																					pos: position{line: 2881, col: 11, offset: 91017},
 																					expr: &anyMatcher{
-																						line: 2881, col: 13, offset: 90977,
+																						line: 2881, col: 13, offset: 91019,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2864, col: 10, offset: 90641},
-																						run: (*parser).callonListContinuationElement1662,
+																						pos: position{line: 2864, col: 10, offset: 90683},
+																						run: (*parser).callonListContinuationElement1700,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2864, col: 10, offset: 90641},
+																							pos:        position{line: 2864, col: 10, offset: 90683},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37016,28 +37368,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2886, col: 8, offset: 91039},
+																					pos: position{line: 2886, col: 8, offset: 91081},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2873, col: 12, offset: 90812},
-																							run: (*parser).callonListContinuationElement1665,
+																							pos: position{line: 2873, col: 12, offset: 90854},
+																							run: (*parser).callonListContinuationElement1703,
 																							expr: &choiceExpr{
-																								pos: position{line: 2873, col: 13, offset: 90813},
+																								pos: position{line: 2873, col: 13, offset: 90855},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 13, offset: 90813},
+																										pos:        position{line: 2873, col: 13, offset: 90855},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 20, offset: 90820},
+																										pos:        position{line: 2873, col: 20, offset: 90862},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 29, offset: 90829},
+																										pos:        position{line: 2873, col: 29, offset: 90871},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37046,9 +37398,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2883, col: 8, offset: 90989},
+																							pos: position{line: 2883, col: 8, offset: 91031},
 																							expr: &anyMatcher{
-																								line: 2883, col: 9, offset: 90990,
+																								line: 2883, col: 9, offset: 91032,
 																							},
 																						},
 																					},
@@ -37071,10 +37423,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1548, col: 31, offset: 50042},
 																				expr: &actionExpr{
-																					pos: position{line: 2864, col: 10, offset: 90641},
-																					run: (*parser).callonListContinuationElement1676,
+																					pos: position{line: 2864, col: 10, offset: 90683},
+																					run: (*parser).callonListContinuationElement1714,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2864, col: 10, offset: 90641},
+																						pos:        position{line: 2864, col: 10, offset: 90683},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37083,25 +37435,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90812},
-																				run: (*parser).callonListContinuationElement1678,
+																				pos: position{line: 2873, col: 12, offset: 90854},
+																				run: (*parser).callonListContinuationElement1716,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90813},
+																					pos: position{line: 2873, col: 13, offset: 90855},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90813},
+																							pos:        position{line: 2873, col: 13, offset: 90855},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90820},
+																							pos:        position{line: 2873, col: 20, offset: 90862},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90829},
+																							pos:        position{line: 2873, col: 29, offset: 90871},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37116,17 +37468,17 @@ var g = &grammar{
 																	pos: position{line: 1519, col: 5, offset: 49240},
 																	expr: &actionExpr{
 																		pos: position{line: 1589, col: 5, offset: 51257},
-																		run: (*parser).callonListContinuationElement1684,
+																		run: (*parser).callonListContinuationElement1722,
 																		expr: &seqExpr{
 																			pos: position{line: 1589, col: 5, offset: 51257},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1589, col: 5, offset: 51257},
 																					expr: &actionExpr{
-																						pos: position{line: 2864, col: 10, offset: 90641},
-																						run: (*parser).callonListContinuationElement1687,
+																						pos: position{line: 2864, col: 10, offset: 90683},
+																						run: (*parser).callonListContinuationElement1725,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2864, col: 10, offset: 90641},
+																							pos:        position{line: 2864, col: 10, offset: 90683},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37142,7 +37494,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 1591, col: 9, offset: 51327},
-																								run: (*parser).callonListContinuationElement1691,
+																								run: (*parser).callonListContinuationElement1729,
 																								expr: &seqExpr{
 																									pos: position{line: 1591, col: 9, offset: 51327},
 																									exprs: []interface{}{
@@ -37151,7 +37503,7 @@ var g = &grammar{
 																											label: "depth",
 																											expr: &actionExpr{
 																												pos: position{line: 1591, col: 16, offset: 51334},
-																												run: (*parser).callonListContinuationElement1694,
+																												run: (*parser).callonListContinuationElement1732,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 1591, col: 16, offset: 51334},
 																													expr: &litMatcher{
@@ -37165,14 +37517,14 @@ var g = &grammar{
 																										},
 																										&andCodeExpr{
 																											pos: position{line: 1595, col: 9, offset: 51435},
-																											run: (*parser).callonListContinuationElement1697,
+																											run: (*parser).callonListContinuationElement1735,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
 																								pos: position{line: 1614, col: 11, offset: 52152},
-																								run: (*parser).callonListContinuationElement1698,
+																								run: (*parser).callonListContinuationElement1736,
 																								expr: &seqExpr{
 																									pos: position{line: 1614, col: 11, offset: 52152},
 																									exprs: []interface{}{
@@ -37197,7 +37549,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1616, col: 13, offset: 52278},
-																								run: (*parser).callonListContinuationElement1703,
+																								run: (*parser).callonListContinuationElement1741,
 																								expr: &seqExpr{
 																									pos: position{line: 1616, col: 13, offset: 52278},
 																									exprs: []interface{}{
@@ -37219,7 +37571,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1618, col: 13, offset: 52406},
-																								run: (*parser).callonListContinuationElement1707,
+																								run: (*parser).callonListContinuationElement1745,
 																								expr: &seqExpr{
 																									pos: position{line: 1618, col: 13, offset: 52406},
 																									exprs: []interface{}{
@@ -37241,7 +37593,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1620, col: 13, offset: 52534},
-																								run: (*parser).callonListContinuationElement1711,
+																								run: (*parser).callonListContinuationElement1749,
 																								expr: &seqExpr{
 																									pos: position{line: 1620, col: 13, offset: 52534},
 																									exprs: []interface{}{
@@ -37266,7 +37618,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1622, col: 13, offset: 52667},
-																								run: (*parser).callonListContinuationElement1716,
+																								run: (*parser).callonListContinuationElement1754,
 																								expr: &seqExpr{
 																									pos: position{line: 1622, col: 13, offset: 52667},
 																									exprs: []interface{}{
@@ -37293,12 +37645,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2868, col: 11, offset: 90702},
-																					run: (*parser).callonListContinuationElement1721,
+																					pos: position{line: 2868, col: 11, offset: 90744},
+																					run: (*parser).callonListContinuationElement1759,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2868, col: 11, offset: 90702},
+																						pos: position{line: 2868, col: 11, offset: 90744},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 11, offset: 90702},
+																							pos:        position{line: 2868, col: 11, offset: 90744},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37314,17 +37666,17 @@ var g = &grammar{
 																	pos: position{line: 1520, col: 5, offset: 49270},
 																	expr: &actionExpr{
 																		pos: position{line: 1639, col: 5, offset: 53219},
-																		run: (*parser).callonListContinuationElement1725,
+																		run: (*parser).callonListContinuationElement1763,
 																		expr: &seqExpr{
 																			pos: position{line: 1639, col: 5, offset: 53219},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1639, col: 5, offset: 53219},
 																					expr: &actionExpr{
-																						pos: position{line: 2864, col: 10, offset: 90641},
-																						run: (*parser).callonListContinuationElement1728,
+																						pos: position{line: 2864, col: 10, offset: 90683},
+																						run: (*parser).callonListContinuationElement1766,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2864, col: 10, offset: 90641},
+																							pos:        position{line: 2864, col: 10, offset: 90683},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37337,7 +37689,7 @@ var g = &grammar{
 																					label: "style",
 																					expr: &actionExpr{
 																						pos: position{line: 1641, col: 9, offset: 53247},
-																						run: (*parser).callonListContinuationElement1731,
+																						run: (*parser).callonListContinuationElement1769,
 																						expr: &choiceExpr{
 																							pos: position{line: 1641, col: 10, offset: 53248},
 																							alternatives: []interface{}{
@@ -37362,15 +37714,15 @@ var g = &grammar{
 																				},
 																				&andCodeExpr{
 																					pos: position{line: 1644, col: 7, offset: 53347},
-																					run: (*parser).callonListContinuationElement1736,
+																					run: (*parser).callonListContinuationElement1774,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2868, col: 11, offset: 90702},
-																					run: (*parser).callonListContinuationElement1737,
+																					pos: position{line: 2868, col: 11, offset: 90744},
+																					run: (*parser).callonListContinuationElement1775,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2868, col: 11, offset: 90702},
+																						pos: position{line: 2868, col: 11, offset: 90744},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 11, offset: 90702},
+																							pos:        position{line: 2868, col: 11, offset: 90744},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37386,7 +37738,7 @@ var g = &grammar{
 																	pos: position{line: 1521, col: 5, offset: 49302},
 																	expr: &actionExpr{
 																		pos: position{line: 1728, col: 5, offset: 55756},
-																		run: (*parser).callonListContinuationElement1741,
+																		run: (*parser).callonListContinuationElement1779,
 																		expr: &seqExpr{
 																			pos: position{line: 1728, col: 5, offset: 55756},
 																			exprs: []interface{}{
@@ -37401,7 +37753,7 @@ var g = &grammar{
 																					label: "ref",
 																					expr: &actionExpr{
 																						pos: position{line: 1728, col: 14, offset: 55765},
-																						run: (*parser).callonListContinuationElement1745,
+																						run: (*parser).callonListContinuationElement1783,
 																						expr: &oneOrMoreExpr{
 																							pos: position{line: 1728, col: 14, offset: 55765},
 																							expr: &charClassMatcher{
@@ -37421,12 +37773,12 @@ var g = &grammar{
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2868, col: 11, offset: 90702},
-																					run: (*parser).callonListContinuationElement1749,
+																					pos: position{line: 2868, col: 11, offset: 90744},
+																					run: (*parser).callonListContinuationElement1787,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2868, col: 11, offset: 90702},
+																						pos: position{line: 2868, col: 11, offset: 90744},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 11, offset: 90702},
+																							pos:        position{line: 2868, col: 11, offset: 90744},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37445,7 +37797,7 @@ var g = &grammar{
 																		exprs: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 1674, col: 5, offset: 54238},
-																				run: (*parser).callonListContinuationElement1754,
+																				run: (*parser).callonListContinuationElement1792,
 																				expr: &oneOrMoreExpr{
 																					pos: position{line: 1674, col: 5, offset: 54238},
 																					expr: &seqExpr{
@@ -37455,7 +37807,7 @@ var g = &grammar{
 																								pos: position{line: 1674, col: 6, offset: 54239},
 																								expr: &actionExpr{
 																									pos: position{line: 1679, col: 5, offset: 54389},
-																									run: (*parser).callonListContinuationElement1758,
+																									run: (*parser).callonListContinuationElement1796,
 																									expr: &seqExpr{
 																										pos: position{line: 1679, col: 5, offset: 54389},
 																										exprs: []interface{}{
@@ -37464,7 +37816,7 @@ var g = &grammar{
 																												label: "separator",
 																												expr: &actionExpr{
 																													pos: position{line: 1679, col: 16, offset: 54400},
-																													run: (*parser).callonListContinuationElement1761,
+																													run: (*parser).callonListContinuationElement1799,
 																													expr: &oneOrMoreExpr{
 																														pos: position{line: 1679, col: 16, offset: 54400},
 																														expr: &litMatcher{
@@ -37478,7 +37830,7 @@ var g = &grammar{
 																											},
 																											&andCodeExpr{
 																												pos: position{line: 1682, col: 5, offset: 54458},
-																												run: (*parser).callonListContinuationElement1764,
+																												run: (*parser).callonListContinuationElement1802,
 																											},
 																										},
 																									},
@@ -37487,28 +37839,28 @@ var g = &grammar{
 																							&notExpr{
 																								pos: position{line: 1674, col: 35, offset: 54268},
 																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 8, offset: 91039},
+																									pos: position{line: 2886, col: 8, offset: 91081},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2873, col: 12, offset: 90812},
-																											run: (*parser).callonListContinuationElement1767,
+																											pos: position{line: 2873, col: 12, offset: 90854},
+																											run: (*parser).callonListContinuationElement1805,
 																											expr: &choiceExpr{
-																												pos: position{line: 2873, col: 13, offset: 90813},
+																												pos: position{line: 2873, col: 13, offset: 90855},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 13, offset: 90813},
+																														pos:        position{line: 2873, col: 13, offset: 90855},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 20, offset: 90820},
+																														pos:        position{line: 2873, col: 20, offset: 90862},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 29, offset: 90829},
+																														pos:        position{line: 2873, col: 29, offset: 90871},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -37517,9 +37869,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2883, col: 8, offset: 90989},
+																											pos: position{line: 2883, col: 8, offset: 91031},
 																											expr: &anyMatcher{
-																												line: 2883, col: 9, offset: 90990,
+																												line: 2883, col: 9, offset: 91032,
 																											},
 																										},
 																									},
@@ -37534,7 +37886,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1679, col: 5, offset: 54389},
-																				run: (*parser).callonListContinuationElement1775,
+																				run: (*parser).callonListContinuationElement1813,
 																				expr: &seqExpr{
 																					pos: position{line: 1679, col: 5, offset: 54389},
 																					exprs: []interface{}{
@@ -37543,7 +37895,7 @@ var g = &grammar{
 																							label: "separator",
 																							expr: &actionExpr{
 																								pos: position{line: 1679, col: 16, offset: 54400},
-																								run: (*parser).callonListContinuationElement1778,
+																								run: (*parser).callonListContinuationElement1816,
 																								expr: &oneOrMoreExpr{
 																									pos: position{line: 1679, col: 16, offset: 54400},
 																									expr: &litMatcher{
@@ -37557,7 +37909,7 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1682, col: 5, offset: 54458},
-																							run: (*parser).callonListContinuationElement1781,
+																							run: (*parser).callonListContinuationElement1819,
 																						},
 																					},
 																				},
@@ -37569,14 +37921,14 @@ var g = &grammar{
 																	pos: position{line: 1523, col: 5, offset: 49390},
 																	expr: &actionExpr{
 																		pos: position{line: 724, col: 5, offset: 23042},
-																		run: (*parser).callonListContinuationElement1783,
+																		run: (*parser).callonListContinuationElement1821,
 																		expr: &seqExpr{
 																			pos: position{line: 724, col: 5, offset: 23042},
 																			exprs: []interface{}{
 																				&notExpr{
 																					pos: position{line: 724, col: 5, offset: 23042},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2754, col: 13, offset: 87736},
+																						pos:        position{line: 2754, col: 13, offset: 87778},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37591,7 +37943,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 740, col: 5, offset: 23584},
-																								run: (*parser).callonListContinuationElement1789,
+																								run: (*parser).callonListContinuationElement1827,
 																								expr: &seqExpr{
 																									pos: position{line: 740, col: 5, offset: 23584},
 																									exprs: []interface{}{
@@ -37600,7 +37952,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 740, col: 16, offset: 23595},
-																												run: (*parser).callonListContinuationElement1792,
+																												run: (*parser).callonListContinuationElement1830,
 																												expr: &seqExpr{
 																													pos: position{line: 740, col: 16, offset: 23595},
 																													exprs: []interface{}{
@@ -37626,10 +37978,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23686},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90641},
-																												run: (*parser).callonListContinuationElement1798,
+																												pos: position{line: 2864, col: 10, offset: 90683},
+																												run: (*parser).callonListContinuationElement1836,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90641},
+																													pos:        position{line: 2864, col: 10, offset: 90683},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37638,28 +37990,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91039},
+																											pos: position{line: 2886, col: 8, offset: 91081},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90812},
-																													run: (*parser).callonListContinuationElement1801,
+																													pos: position{line: 2873, col: 12, offset: 90854},
+																													run: (*parser).callonListContinuationElement1839,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90813},
+																														pos: position{line: 2873, col: 13, offset: 90855},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90813},
+																																pos:        position{line: 2873, col: 13, offset: 90855},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90820},
+																																pos:        position{line: 2873, col: 20, offset: 90862},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90829},
+																																pos:        position{line: 2873, col: 29, offset: 90871},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37668,9 +38020,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 90989},
+																													pos: position{line: 2883, col: 8, offset: 91031},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 90990,
+																														line: 2883, col: 9, offset: 91032,
 																													},
 																												},
 																											},
@@ -37680,7 +38032,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 747, col: 5, offset: 23832},
-																								run: (*parser).callonListContinuationElement1808,
+																								run: (*parser).callonListContinuationElement1846,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 5, offset: 23832},
 																									exprs: []interface{}{
@@ -37689,7 +38041,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 747, col: 16, offset: 23843},
-																												run: (*parser).callonListContinuationElement1811,
+																												run: (*parser).callonListContinuationElement1849,
 																												expr: &seqExpr{
 																													pos: position{line: 747, col: 16, offset: 23843},
 																													exprs: []interface{}{
@@ -37715,10 +38067,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23934},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90641},
-																												run: (*parser).callonListContinuationElement1817,
+																												pos: position{line: 2864, col: 10, offset: 90683},
+																												run: (*parser).callonListContinuationElement1855,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90641},
+																													pos:        position{line: 2864, col: 10, offset: 90683},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37727,28 +38079,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91039},
+																											pos: position{line: 2886, col: 8, offset: 91081},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90812},
-																													run: (*parser).callonListContinuationElement1820,
+																													pos: position{line: 2873, col: 12, offset: 90854},
+																													run: (*parser).callonListContinuationElement1858,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90813},
+																														pos: position{line: 2873, col: 13, offset: 90855},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90813},
+																																pos:        position{line: 2873, col: 13, offset: 90855},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90820},
+																																pos:        position{line: 2873, col: 20, offset: 90862},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90829},
+																																pos:        position{line: 2873, col: 29, offset: 90871},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37757,9 +38109,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 90989},
+																													pos: position{line: 2883, col: 8, offset: 91031},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 90990,
+																														line: 2883, col: 9, offset: 91032,
 																													},
 																												},
 																											},
@@ -37769,7 +38121,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 760, col: 26, offset: 24320},
-																								run: (*parser).callonListContinuationElement1827,
+																								run: (*parser).callonListContinuationElement1865,
 																								expr: &seqExpr{
 																									pos: position{line: 760, col: 26, offset: 24320},
 																									exprs: []interface{}{
@@ -37784,7 +38136,7 @@ var g = &grammar{
 																											label: "language",
 																											expr: &actionExpr{
 																												pos: position{line: 764, col: 13, offset: 24456},
-																												run: (*parser).callonListContinuationElement1831,
+																												run: (*parser).callonListContinuationElement1869,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 764, col: 14, offset: 24457},
 																													expr: &charClassMatcher{
@@ -37800,10 +38152,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 760, col: 52, offset: 24346},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90641},
-																												run: (*parser).callonListContinuationElement1835,
+																												pos: position{line: 2864, col: 10, offset: 90683},
+																												run: (*parser).callonListContinuationElement1873,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90641},
+																													pos:        position{line: 2864, col: 10, offset: 90683},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37812,28 +38164,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91039},
+																											pos: position{line: 2886, col: 8, offset: 91081},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90812},
-																													run: (*parser).callonListContinuationElement1838,
+																													pos: position{line: 2873, col: 12, offset: 90854},
+																													run: (*parser).callonListContinuationElement1876,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90813},
+																														pos: position{line: 2873, col: 13, offset: 90855},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90813},
+																																pos:        position{line: 2873, col: 13, offset: 90855},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90820},
+																																pos:        position{line: 2873, col: 20, offset: 90862},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90829},
+																																pos:        position{line: 2873, col: 29, offset: 90871},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37842,9 +38194,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 90989},
+																													pos: position{line: 2883, col: 8, offset: 91031},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 90990,
+																														line: 2883, col: 9, offset: 91032,
 																													},
 																												},
 																											},
@@ -37854,7 +38206,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 754, col: 5, offset: 24079},
-																								run: (*parser).callonListContinuationElement1845,
+																								run: (*parser).callonListContinuationElement1883,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 5, offset: 24079},
 																									exprs: []interface{}{
@@ -37863,7 +38215,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 754, col: 16, offset: 24090},
-																												run: (*parser).callonListContinuationElement1848,
+																												run: (*parser).callonListContinuationElement1886,
 																												expr: &seqExpr{
 																													pos: position{line: 754, col: 16, offset: 24090},
 																													exprs: []interface{}{
@@ -37889,10 +38241,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24180},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90641},
-																												run: (*parser).callonListContinuationElement1854,
+																												pos: position{line: 2864, col: 10, offset: 90683},
+																												run: (*parser).callonListContinuationElement1892,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90641},
+																													pos:        position{line: 2864, col: 10, offset: 90683},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37901,28 +38253,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91039},
+																											pos: position{line: 2886, col: 8, offset: 91081},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90812},
-																													run: (*parser).callonListContinuationElement1857,
+																													pos: position{line: 2873, col: 12, offset: 90854},
+																													run: (*parser).callonListContinuationElement1895,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90813},
+																														pos: position{line: 2873, col: 13, offset: 90855},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90813},
+																																pos:        position{line: 2873, col: 13, offset: 90855},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90820},
+																																pos:        position{line: 2873, col: 20, offset: 90862},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90829},
+																																pos:        position{line: 2873, col: 29, offset: 90871},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -37931,9 +38283,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 90989},
+																													pos: position{line: 2883, col: 8, offset: 91031},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 90990,
+																														line: 2883, col: 9, offset: 91032,
 																													},
 																												},
 																											},
@@ -37943,7 +38295,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 769, col: 5, offset: 24616},
-																								run: (*parser).callonListContinuationElement1864,
+																								run: (*parser).callonListContinuationElement1902,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 5, offset: 24616},
 																									exprs: []interface{}{
@@ -37952,7 +38304,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 769, col: 16, offset: 24627},
-																												run: (*parser).callonListContinuationElement1867,
+																												run: (*parser).callonListContinuationElement1905,
 																												expr: &seqExpr{
 																													pos: position{line: 769, col: 16, offset: 24627},
 																													exprs: []interface{}{
@@ -37978,10 +38330,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24718},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90641},
-																												run: (*parser).callonListContinuationElement1873,
+																												pos: position{line: 2864, col: 10, offset: 90683},
+																												run: (*parser).callonListContinuationElement1911,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90641},
+																													pos:        position{line: 2864, col: 10, offset: 90683},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37990,28 +38342,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91039},
+																											pos: position{line: 2886, col: 8, offset: 91081},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90812},
-																													run: (*parser).callonListContinuationElement1876,
+																													pos: position{line: 2873, col: 12, offset: 90854},
+																													run: (*parser).callonListContinuationElement1914,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90813},
+																														pos: position{line: 2873, col: 13, offset: 90855},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90813},
+																																pos:        position{line: 2873, col: 13, offset: 90855},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90820},
+																																pos:        position{line: 2873, col: 20, offset: 90862},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90829},
+																																pos:        position{line: 2873, col: 29, offset: 90871},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38020,9 +38372,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 90989},
+																													pos: position{line: 2883, col: 8, offset: 91031},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 90990,
+																														line: 2883, col: 9, offset: 91032,
 																													},
 																												},
 																											},
@@ -38032,7 +38384,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 783, col: 5, offset: 25092},
-																								run: (*parser).callonListContinuationElement1883,
+																								run: (*parser).callonListContinuationElement1921,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 5, offset: 25092},
 																									exprs: []interface{}{
@@ -38041,7 +38393,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 783, col: 16, offset: 25103},
-																												run: (*parser).callonListContinuationElement1886,
+																												run: (*parser).callonListContinuationElement1924,
 																												expr: &seqExpr{
 																													pos: position{line: 783, col: 16, offset: 25103},
 																													exprs: []interface{}{
@@ -38067,10 +38419,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25194},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90641},
-																												run: (*parser).callonListContinuationElement1892,
+																												pos: position{line: 2864, col: 10, offset: 90683},
+																												run: (*parser).callonListContinuationElement1930,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90641},
+																													pos:        position{line: 2864, col: 10, offset: 90683},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38079,28 +38431,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91039},
+																											pos: position{line: 2886, col: 8, offset: 91081},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90812},
-																													run: (*parser).callonListContinuationElement1895,
+																													pos: position{line: 2873, col: 12, offset: 90854},
+																													run: (*parser).callonListContinuationElement1933,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90813},
+																														pos: position{line: 2873, col: 13, offset: 90855},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90813},
+																																pos:        position{line: 2873, col: 13, offset: 90855},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90820},
+																																pos:        position{line: 2873, col: 20, offset: 90862},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90829},
+																																pos:        position{line: 2873, col: 29, offset: 90871},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38109,9 +38461,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 90989},
+																													pos: position{line: 2883, col: 8, offset: 91031},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 90990,
+																														line: 2883, col: 9, offset: 91032,
 																													},
 																												},
 																											},
@@ -38121,7 +38473,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 790, col: 5, offset: 25344},
-																								run: (*parser).callonListContinuationElement1902,
+																								run: (*parser).callonListContinuationElement1940,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 5, offset: 25344},
 																									exprs: []interface{}{
@@ -38130,7 +38482,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 790, col: 16, offset: 25355},
-																												run: (*parser).callonListContinuationElement1905,
+																												run: (*parser).callonListContinuationElement1943,
 																												expr: &seqExpr{
 																													pos: position{line: 790, col: 16, offset: 25355},
 																													exprs: []interface{}{
@@ -38156,10 +38508,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25446},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90641},
-																												run: (*parser).callonListContinuationElement1911,
+																												pos: position{line: 2864, col: 10, offset: 90683},
+																												run: (*parser).callonListContinuationElement1949,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90641},
+																													pos:        position{line: 2864, col: 10, offset: 90683},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38168,28 +38520,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91039},
+																											pos: position{line: 2886, col: 8, offset: 91081},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90812},
-																													run: (*parser).callonListContinuationElement1914,
+																													pos: position{line: 2873, col: 12, offset: 90854},
+																													run: (*parser).callonListContinuationElement1952,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90813},
+																														pos: position{line: 2873, col: 13, offset: 90855},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90813},
+																																pos:        position{line: 2873, col: 13, offset: 90855},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90820},
+																																pos:        position{line: 2873, col: 20, offset: 90862},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90829},
+																																pos:        position{line: 2873, col: 29, offset: 90871},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38198,9 +38550,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 90989},
+																													pos: position{line: 2883, col: 8, offset: 91031},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 90990,
+																														line: 2883, col: 9, offset: 91032,
 																													},
 																												},
 																											},
@@ -38210,7 +38562,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 797, col: 5, offset: 25594},
-																								run: (*parser).callonListContinuationElement1921,
+																								run: (*parser).callonListContinuationElement1959,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 5, offset: 25594},
 																									exprs: []interface{}{
@@ -38219,7 +38571,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 797, col: 16, offset: 25605},
-																												run: (*parser).callonListContinuationElement1924,
+																												run: (*parser).callonListContinuationElement1962,
 																												expr: &seqExpr{
 																													pos: position{line: 797, col: 16, offset: 25605},
 																													exprs: []interface{}{
@@ -38245,10 +38597,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25696},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90641},
-																												run: (*parser).callonListContinuationElement1930,
+																												pos: position{line: 2864, col: 10, offset: 90683},
+																												run: (*parser).callonListContinuationElement1968,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90641},
+																													pos:        position{line: 2864, col: 10, offset: 90683},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38257,28 +38609,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91039},
+																											pos: position{line: 2886, col: 8, offset: 91081},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90812},
-																													run: (*parser).callonListContinuationElement1933,
+																													pos: position{line: 2873, col: 12, offset: 90854},
+																													run: (*parser).callonListContinuationElement1971,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90813},
+																														pos: position{line: 2873, col: 13, offset: 90855},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90813},
+																																pos:        position{line: 2873, col: 13, offset: 90855},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90820},
+																																pos:        position{line: 2873, col: 20, offset: 90862},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90829},
+																																pos:        position{line: 2873, col: 29, offset: 90871},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38287,9 +38639,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 90989},
+																													pos: position{line: 2883, col: 8, offset: 91031},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 90990,
+																														line: 2883, col: 9, offset: 91032,
 																													},
 																												},
 																											},
@@ -38299,7 +38651,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 804, col: 5, offset: 25840},
-																								run: (*parser).callonListContinuationElement1940,
+																								run: (*parser).callonListContinuationElement1978,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 5, offset: 25840},
 																									exprs: []interface{}{
@@ -38308,7 +38660,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 804, col: 16, offset: 25851},
-																												run: (*parser).callonListContinuationElement1943,
+																												run: (*parser).callonListContinuationElement1981,
 																												expr: &seqExpr{
 																													pos: position{line: 804, col: 16, offset: 25851},
 																													exprs: []interface{}{
@@ -38334,10 +38686,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25942},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90641},
-																												run: (*parser).callonListContinuationElement1949,
+																												pos: position{line: 2864, col: 10, offset: 90683},
+																												run: (*parser).callonListContinuationElement1987,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90641},
+																													pos:        position{line: 2864, col: 10, offset: 90683},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38346,28 +38698,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91039},
+																											pos: position{line: 2886, col: 8, offset: 91081},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90812},
-																													run: (*parser).callonListContinuationElement1952,
+																													pos: position{line: 2873, col: 12, offset: 90854},
+																													run: (*parser).callonListContinuationElement1990,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90813},
+																														pos: position{line: 2873, col: 13, offset: 90855},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90813},
+																																pos:        position{line: 2873, col: 13, offset: 90855},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90820},
+																																pos:        position{line: 2873, col: 20, offset: 90862},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90829},
+																																pos:        position{line: 2873, col: 29, offset: 90871},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38376,9 +38728,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 90989},
+																													pos: position{line: 2883, col: 8, offset: 91031},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 90990,
+																														line: 2883, col: 9, offset: 91032,
 																													},
 																												},
 																											},
@@ -38397,12 +38749,12 @@ var g = &grammar{
 																	pos:   position{line: 1524, col: 5, offset: 49410},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2814, col: 14, offset: 89234},
-																		run: (*parser).callonListContinuationElement1960,
+																		pos: position{line: 2814, col: 14, offset: 89276},
+																		run: (*parser).callonListContinuationElement1998,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2814, col: 14, offset: 89234},
+																			pos: position{line: 2814, col: 14, offset: 89276},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2814, col: 14, offset: 89234},
+																				pos:        position{line: 2814, col: 14, offset: 89276},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38412,28 +38764,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
-																			run: (*parser).callonListContinuationElement1964,
+																			pos: position{line: 2873, col: 12, offset: 90854},
+																			run: (*parser).callonListContinuationElement2002,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38442,9 +38794,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -38509,10 +38861,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1717, col: 66, offset: 55456},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90641},
+								pos: position{line: 2864, col: 10, offset: 90683},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90641},
+									pos:        position{line: 2864, col: 10, offset: 90683},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38526,25 +38878,25 @@ var g = &grammar{
 								pos: position{line: 1717, col: 75, offset: 55465},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2873, col: 12, offset: 90812},
+										pos: position{line: 2873, col: 12, offset: 90854},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2873, col: 13, offset: 90813},
+											pos: position{line: 2873, col: 13, offset: 90855},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2873, col: 13, offset: 90813},
+													pos:        position{line: 2873, col: 13, offset: 90855},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2873, col: 20, offset: 90820},
+													pos:        position{line: 2873, col: 20, offset: 90862},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2873, col: 29, offset: 90829},
+													pos:        position{line: 2873, col: 29, offset: 90871},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38553,9 +38905,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2883, col: 8, offset: 90989},
+										pos: position{line: 2883, col: 8, offset: 91031},
 										expr: &anyMatcher{
-											line: 2883, col: 9, offset: 90990,
+											line: 2883, col: 9, offset: 91032,
 										},
 									},
 									&ruleRefExpr{
@@ -38584,7 +38936,7 @@ var g = &grammar{
 								pos: position{line: 1758, col: 7, offset: 56720},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2754, col: 13, offset: 87736},
+										pos:        position{line: 2754, col: 13, offset: 87778},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
@@ -38603,12 +38955,12 @@ var g = &grammar{
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2868, col: 11, offset: 90702},
+													pos: position{line: 2868, col: 11, offset: 90744},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2868, col: 11, offset: 90702},
+														pos: position{line: 2868, col: 11, offset: 90744},
 														expr: &charClassMatcher{
-															pos:        position{line: 2868, col: 11, offset: 90702},
+															pos:        position{line: 2868, col: 11, offset: 90744},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38699,12 +39051,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1750, col: 13, offset: 56521},
 																expr: &actionExpr{
-																	pos: position{line: 2868, col: 11, offset: 90702},
+																	pos: position{line: 2868, col: 11, offset: 90744},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2868, col: 11, offset: 90702},
+																		pos: position{line: 2868, col: 11, offset: 90744},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 11, offset: 90702},
+																			pos:        position{line: 2868, col: 11, offset: 90744},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -38735,12 +39087,12 @@ var g = &grammar{
 											pos:   position{line: 1796, col: 5, offset: 58007},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2814, col: 14, offset: 89234},
+												pos: position{line: 2814, col: 14, offset: 89276},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2814, col: 14, offset: 89234},
+													pos: position{line: 2814, col: 14, offset: 89276},
 													expr: &charClassMatcher{
-														pos:        position{line: 2814, col: 14, offset: 89234},
+														pos:        position{line: 2814, col: 14, offset: 89276},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -38754,28 +39106,28 @@ var g = &grammar{
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2886, col: 8, offset: 91039},
+											pos: position{line: 2886, col: 8, offset: 91081},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2873, col: 12, offset: 90812},
+													pos: position{line: 2873, col: 12, offset: 90854},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2873, col: 13, offset: 90813},
+														pos: position{line: 2873, col: 13, offset: 90855},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2873, col: 13, offset: 90813},
+																pos:        position{line: 2873, col: 13, offset: 90855},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2873, col: 20, offset: 90820},
+																pos:        position{line: 2873, col: 20, offset: 90862},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2873, col: 29, offset: 90829},
+																pos:        position{line: 2873, col: 29, offset: 90871},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -38784,9 +39136,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2883, col: 8, offset: 90989},
+													pos: position{line: 2883, col: 8, offset: 91031},
 													expr: &anyMatcher{
-														line: 2883, col: 9, offset: 90990,
+														line: 2883, col: 9, offset: 91032,
 													},
 												},
 											},
@@ -38811,9 +39163,9 @@ var g = &grammar{
 										pos: position{line: 1769, col: 9, offset: 57285},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2881, col: 11, offset: 90975},
+												pos: position{line: 2881, col: 11, offset: 91017},
 												expr: &anyMatcher{
-													line: 2881, col: 13, offset: 90977,
+													line: 2881, col: 13, offset: 91019,
 												},
 											},
 											&notExpr{
@@ -38825,18 +39177,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2881, col: 11, offset: 90975},
+																pos: position{line: 2881, col: 11, offset: 91017},
 																expr: &anyMatcher{
-																	line: 2881, col: 13, offset: 90977,
+																	line: 2881, col: 13, offset: 91019,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2864, col: 10, offset: 90641},
+																	pos: position{line: 2864, col: 10, offset: 90683},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2864, col: 10, offset: 90641},
+																		pos:        position{line: 2864, col: 10, offset: 90683},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -38845,28 +39197,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2886, col: 8, offset: 91039},
+																pos: position{line: 2886, col: 8, offset: 91081},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2873, col: 12, offset: 90812},
+																		pos: position{line: 2873, col: 12, offset: 90854},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2873, col: 13, offset: 90813},
+																			pos: position{line: 2873, col: 13, offset: 90855},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 13, offset: 90813},
+																					pos:        position{line: 2873, col: 13, offset: 90855},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 20, offset: 90820},
+																					pos:        position{line: 2873, col: 20, offset: 90862},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 29, offset: 90829},
+																					pos:        position{line: 2873, col: 29, offset: 90871},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -38875,9 +39227,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 90989},
+																		pos: position{line: 2883, col: 8, offset: 91031},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 90990,
+																			line: 2883, col: 9, offset: 91032,
 																		},
 																	},
 																},
@@ -38904,7 +39256,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 724, col: 5, offset: 23042},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2754, col: 13, offset: 87736},
+																	pos:        position{line: 2754, col: 13, offset: 87778},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -38954,10 +39306,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 742, col: 8, offset: 23686},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90641},
+																							pos: position{line: 2864, col: 10, offset: 90683},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90641},
+																								pos:        position{line: 2864, col: 10, offset: 90683},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -38966,28 +39318,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91039},
+																						pos: position{line: 2886, col: 8, offset: 91081},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90812},
+																								pos: position{line: 2873, col: 12, offset: 90854},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90813},
+																									pos: position{line: 2873, col: 13, offset: 90855},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90813},
+																											pos:        position{line: 2873, col: 13, offset: 90855},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90820},
+																											pos:        position{line: 2873, col: 20, offset: 90862},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90829},
+																											pos:        position{line: 2873, col: 29, offset: 90871},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -38996,9 +39348,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 90989},
+																								pos: position{line: 2883, col: 8, offset: 91031},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 90990,
+																									line: 2883, col: 9, offset: 91032,
 																								},
 																							},
 																						},
@@ -39043,10 +39395,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 749, col: 8, offset: 23934},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90641},
+																							pos: position{line: 2864, col: 10, offset: 90683},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90641},
+																								pos:        position{line: 2864, col: 10, offset: 90683},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39055,28 +39407,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91039},
+																						pos: position{line: 2886, col: 8, offset: 91081},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90812},
+																								pos: position{line: 2873, col: 12, offset: 90854},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90813},
+																									pos: position{line: 2873, col: 13, offset: 90855},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90813},
+																											pos:        position{line: 2873, col: 13, offset: 90855},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90820},
+																											pos:        position{line: 2873, col: 20, offset: 90862},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90829},
+																											pos:        position{line: 2873, col: 29, offset: 90871},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39085,9 +39437,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 90989},
+																								pos: position{line: 2883, col: 8, offset: 91031},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 90990,
+																									line: 2883, col: 9, offset: 91032,
 																								},
 																							},
 																						},
@@ -39128,10 +39480,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 760, col: 52, offset: 24346},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90641},
+																							pos: position{line: 2864, col: 10, offset: 90683},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90641},
+																								pos:        position{line: 2864, col: 10, offset: 90683},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39140,28 +39492,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91039},
+																						pos: position{line: 2886, col: 8, offset: 91081},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90812},
+																								pos: position{line: 2873, col: 12, offset: 90854},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90813},
+																									pos: position{line: 2873, col: 13, offset: 90855},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90813},
+																											pos:        position{line: 2873, col: 13, offset: 90855},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90820},
+																											pos:        position{line: 2873, col: 20, offset: 90862},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90829},
+																											pos:        position{line: 2873, col: 29, offset: 90871},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39170,9 +39522,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 90989},
+																								pos: position{line: 2883, col: 8, offset: 91031},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 90990,
+																									line: 2883, col: 9, offset: 91032,
 																								},
 																							},
 																						},
@@ -39217,10 +39569,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 756, col: 8, offset: 24180},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90641},
+																							pos: position{line: 2864, col: 10, offset: 90683},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90641},
+																								pos:        position{line: 2864, col: 10, offset: 90683},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39229,28 +39581,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91039},
+																						pos: position{line: 2886, col: 8, offset: 91081},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90812},
+																								pos: position{line: 2873, col: 12, offset: 90854},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90813},
+																									pos: position{line: 2873, col: 13, offset: 90855},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90813},
+																											pos:        position{line: 2873, col: 13, offset: 90855},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90820},
+																											pos:        position{line: 2873, col: 20, offset: 90862},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90829},
+																											pos:        position{line: 2873, col: 29, offset: 90871},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39259,9 +39611,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 90989},
+																								pos: position{line: 2883, col: 8, offset: 91031},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 90990,
+																									line: 2883, col: 9, offset: 91032,
 																								},
 																							},
 																						},
@@ -39306,10 +39658,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 771, col: 8, offset: 24718},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90641},
+																							pos: position{line: 2864, col: 10, offset: 90683},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90641},
+																								pos:        position{line: 2864, col: 10, offset: 90683},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39318,28 +39670,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91039},
+																						pos: position{line: 2886, col: 8, offset: 91081},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90812},
+																								pos: position{line: 2873, col: 12, offset: 90854},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90813},
+																									pos: position{line: 2873, col: 13, offset: 90855},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90813},
+																											pos:        position{line: 2873, col: 13, offset: 90855},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90820},
+																											pos:        position{line: 2873, col: 20, offset: 90862},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90829},
+																											pos:        position{line: 2873, col: 29, offset: 90871},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39348,9 +39700,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 90989},
+																								pos: position{line: 2883, col: 8, offset: 91031},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 90990,
+																									line: 2883, col: 9, offset: 91032,
 																								},
 																							},
 																						},
@@ -39395,10 +39747,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 785, col: 8, offset: 25194},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90641},
+																							pos: position{line: 2864, col: 10, offset: 90683},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90641},
+																								pos:        position{line: 2864, col: 10, offset: 90683},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39407,28 +39759,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91039},
+																						pos: position{line: 2886, col: 8, offset: 91081},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90812},
+																								pos: position{line: 2873, col: 12, offset: 90854},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90813},
+																									pos: position{line: 2873, col: 13, offset: 90855},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90813},
+																											pos:        position{line: 2873, col: 13, offset: 90855},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90820},
+																											pos:        position{line: 2873, col: 20, offset: 90862},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90829},
+																											pos:        position{line: 2873, col: 29, offset: 90871},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39437,9 +39789,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 90989},
+																								pos: position{line: 2883, col: 8, offset: 91031},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 90990,
+																									line: 2883, col: 9, offset: 91032,
 																								},
 																							},
 																						},
@@ -39484,10 +39836,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 792, col: 8, offset: 25446},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90641},
+																							pos: position{line: 2864, col: 10, offset: 90683},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90641},
+																								pos:        position{line: 2864, col: 10, offset: 90683},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39496,28 +39848,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91039},
+																						pos: position{line: 2886, col: 8, offset: 91081},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90812},
+																								pos: position{line: 2873, col: 12, offset: 90854},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90813},
+																									pos: position{line: 2873, col: 13, offset: 90855},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90813},
+																											pos:        position{line: 2873, col: 13, offset: 90855},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90820},
+																											pos:        position{line: 2873, col: 20, offset: 90862},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90829},
+																											pos:        position{line: 2873, col: 29, offset: 90871},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39526,9 +39878,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 90989},
+																								pos: position{line: 2883, col: 8, offset: 91031},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 90990,
+																									line: 2883, col: 9, offset: 91032,
 																								},
 																							},
 																						},
@@ -39573,10 +39925,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 799, col: 8, offset: 25696},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90641},
+																							pos: position{line: 2864, col: 10, offset: 90683},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90641},
+																								pos:        position{line: 2864, col: 10, offset: 90683},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39585,28 +39937,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91039},
+																						pos: position{line: 2886, col: 8, offset: 91081},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90812},
+																								pos: position{line: 2873, col: 12, offset: 90854},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90813},
+																									pos: position{line: 2873, col: 13, offset: 90855},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90813},
+																											pos:        position{line: 2873, col: 13, offset: 90855},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90820},
+																											pos:        position{line: 2873, col: 20, offset: 90862},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90829},
+																											pos:        position{line: 2873, col: 29, offset: 90871},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39615,9 +39967,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 90989},
+																								pos: position{line: 2883, col: 8, offset: 91031},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 90990,
+																									line: 2883, col: 9, offset: 91032,
 																								},
 																							},
 																						},
@@ -39662,10 +40014,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 806, col: 8, offset: 25942},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90641},
+																							pos: position{line: 2864, col: 10, offset: 90683},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90641},
+																								pos:        position{line: 2864, col: 10, offset: 90683},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39674,28 +40026,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91039},
+																						pos: position{line: 2886, col: 8, offset: 91081},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90812},
+																								pos: position{line: 2873, col: 12, offset: 90854},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90813},
+																									pos: position{line: 2873, col: 13, offset: 90855},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90813},
+																											pos:        position{line: 2873, col: 13, offset: 90855},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90820},
+																											pos:        position{line: 2873, col: 20, offset: 90862},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90829},
+																											pos:        position{line: 2873, col: 29, offset: 90871},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39704,9 +40056,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 90989},
+																								pos: position{line: 2883, col: 8, offset: 91031},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 90990,
+																									line: 2883, col: 9, offset: 91032,
 																								},
 																							},
 																						},
@@ -39735,10 +40087,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1548, col: 31, offset: 50042},
 															expr: &actionExpr{
-																pos: position{line: 2864, col: 10, offset: 90641},
+																pos: position{line: 2864, col: 10, offset: 90683},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2864, col: 10, offset: 90641},
+																	pos:        position{line: 2864, col: 10, offset: 90683},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -39747,25 +40099,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90812},
+															pos: position{line: 2873, col: 12, offset: 90854},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90813},
+																pos: position{line: 2873, col: 13, offset: 90855},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90813},
+																		pos:        position{line: 2873, col: 13, offset: 90855},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90820},
+																		pos:        position{line: 2873, col: 20, offset: 90862},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90829},
+																		pos:        position{line: 2873, col: 29, offset: 90871},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -39807,12 +40159,12 @@ var g = &grammar{
 																		pos:   position{line: 2474, col: 49, offset: 79653},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2810, col: 13, offset: 89167},
+																			pos: position{line: 2810, col: 13, offset: 89209},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2810, col: 13, offset: 89167},
+																				pos: position{line: 2810, col: 13, offset: 89209},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2810, col: 13, offset: 89167},
+																					pos:        position{line: 2810, col: 13, offset: 89209},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39822,28 +40174,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91039},
+																		pos: position{line: 2886, col: 8, offset: 91081},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90812},
+																				pos: position{line: 2873, col: 12, offset: 90854},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90813},
+																					pos: position{line: 2873, col: 13, offset: 90855},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90813},
+																							pos:        position{line: 2873, col: 13, offset: 90855},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90820},
+																							pos:        position{line: 2873, col: 20, offset: 90862},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90829},
+																							pos:        position{line: 2873, col: 29, offset: 90871},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39852,9 +40204,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 90989},
+																				pos: position{line: 2883, col: 8, offset: 91031},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 90990,
+																					line: 2883, col: 9, offset: 91032,
 																				},
 																			},
 																		},
@@ -39872,12 +40224,12 @@ var g = &grammar{
 																		pos:   position{line: 1796, col: 5, offset: 58007},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2814, col: 14, offset: 89234},
+																			pos: position{line: 2814, col: 14, offset: 89276},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2814, col: 14, offset: 89234},
+																				pos: position{line: 2814, col: 14, offset: 89276},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2814, col: 14, offset: 89234},
+																					pos:        position{line: 2814, col: 14, offset: 89276},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -39891,28 +40243,28 @@ var g = &grammar{
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91039},
+																		pos: position{line: 2886, col: 8, offset: 91081},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90812},
+																				pos: position{line: 2873, col: 12, offset: 90854},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90813},
+																					pos: position{line: 2873, col: 13, offset: 90855},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90813},
+																							pos:        position{line: 2873, col: 13, offset: 90855},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90820},
+																							pos:        position{line: 2873, col: 20, offset: 90862},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90829},
+																							pos:        position{line: 2873, col: 29, offset: 90871},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -39921,9 +40273,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 90989},
+																				pos: position{line: 2883, col: 8, offset: 91031},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 90990,
+																					line: 2883, col: 9, offset: 91032,
 																				},
 																			},
 																		},
@@ -40029,12 +40381,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1750, col: 13, offset: 56521},
 																expr: &actionExpr{
-																	pos: position{line: 2868, col: 11, offset: 90702},
+																	pos: position{line: 2868, col: 11, offset: 90744},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2868, col: 11, offset: 90702},
+																		pos: position{line: 2868, col: 11, offset: 90744},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 11, offset: 90702},
+																			pos:        position{line: 2868, col: 11, offset: 90744},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40065,12 +40417,12 @@ var g = &grammar{
 											pos:   position{line: 1796, col: 5, offset: 58007},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2814, col: 14, offset: 89234},
+												pos: position{line: 2814, col: 14, offset: 89276},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2814, col: 14, offset: 89234},
+													pos: position{line: 2814, col: 14, offset: 89276},
 													expr: &charClassMatcher{
-														pos:        position{line: 2814, col: 14, offset: 89234},
+														pos:        position{line: 2814, col: 14, offset: 89276},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40084,28 +40436,28 @@ var g = &grammar{
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2886, col: 8, offset: 91039},
+											pos: position{line: 2886, col: 8, offset: 91081},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2873, col: 12, offset: 90812},
+													pos: position{line: 2873, col: 12, offset: 90854},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2873, col: 13, offset: 90813},
+														pos: position{line: 2873, col: 13, offset: 90855},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2873, col: 13, offset: 90813},
+																pos:        position{line: 2873, col: 13, offset: 90855},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2873, col: 20, offset: 90820},
+																pos:        position{line: 2873, col: 20, offset: 90862},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2873, col: 29, offset: 90829},
+																pos:        position{line: 2873, col: 29, offset: 90871},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40114,9 +40466,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2883, col: 8, offset: 90989},
+													pos: position{line: 2883, col: 8, offset: 91031},
 													expr: &anyMatcher{
-														line: 2883, col: 9, offset: 90990,
+														line: 2883, col: 9, offset: 91032,
 													},
 												},
 											},
@@ -40137,9 +40489,9 @@ var g = &grammar{
 										pos: position{line: 1785, col: 9, offset: 57713},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2881, col: 11, offset: 90975},
+												pos: position{line: 2881, col: 11, offset: 91017},
 												expr: &anyMatcher{
-													line: 2881, col: 13, offset: 90977,
+													line: 2881, col: 13, offset: 91019,
 												},
 											},
 											&notExpr{
@@ -40151,18 +40503,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2881, col: 11, offset: 90975},
+																pos: position{line: 2881, col: 11, offset: 91017},
 																expr: &anyMatcher{
-																	line: 2881, col: 13, offset: 90977,
+																	line: 2881, col: 13, offset: 91019,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2864, col: 10, offset: 90641},
+																	pos: position{line: 2864, col: 10, offset: 90683},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2864, col: 10, offset: 90641},
+																		pos:        position{line: 2864, col: 10, offset: 90683},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40171,28 +40523,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2886, col: 8, offset: 91039},
+																pos: position{line: 2886, col: 8, offset: 91081},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2873, col: 12, offset: 90812},
+																		pos: position{line: 2873, col: 12, offset: 90854},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2873, col: 13, offset: 90813},
+																			pos: position{line: 2873, col: 13, offset: 90855},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 13, offset: 90813},
+																					pos:        position{line: 2873, col: 13, offset: 90855},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 20, offset: 90820},
+																					pos:        position{line: 2873, col: 20, offset: 90862},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 29, offset: 90829},
+																					pos:        position{line: 2873, col: 29, offset: 90871},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40201,9 +40553,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 90989},
+																		pos: position{line: 2883, col: 8, offset: 91031},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 90990,
+																			line: 2883, col: 9, offset: 91032,
 																		},
 																	},
 																},
@@ -40250,12 +40602,12 @@ var g = &grammar{
 																		pos:   position{line: 2474, col: 49, offset: 79653},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2810, col: 13, offset: 89167},
+																			pos: position{line: 2810, col: 13, offset: 89209},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2810, col: 13, offset: 89167},
+																				pos: position{line: 2810, col: 13, offset: 89209},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2810, col: 13, offset: 89167},
+																					pos:        position{line: 2810, col: 13, offset: 89209},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40265,28 +40617,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91039},
+																		pos: position{line: 2886, col: 8, offset: 91081},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90812},
+																				pos: position{line: 2873, col: 12, offset: 90854},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90813},
+																					pos: position{line: 2873, col: 13, offset: 90855},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90813},
+																							pos:        position{line: 2873, col: 13, offset: 90855},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90820},
+																							pos:        position{line: 2873, col: 20, offset: 90862},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90829},
+																							pos:        position{line: 2873, col: 29, offset: 90871},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40295,9 +40647,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 90989},
+																				pos: position{line: 2883, col: 8, offset: 91031},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 90990,
+																					line: 2883, col: 9, offset: 91032,
 																				},
 																			},
 																		},
@@ -40315,12 +40667,12 @@ var g = &grammar{
 																		pos:   position{line: 1796, col: 5, offset: 58007},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2814, col: 14, offset: 89234},
+																			pos: position{line: 2814, col: 14, offset: 89276},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2814, col: 14, offset: 89234},
+																				pos: position{line: 2814, col: 14, offset: 89276},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2814, col: 14, offset: 89234},
+																					pos:        position{line: 2814, col: 14, offset: 89276},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40334,28 +40686,28 @@ var g = &grammar{
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91039},
+																		pos: position{line: 2886, col: 8, offset: 91081},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90812},
+																				pos: position{line: 2873, col: 12, offset: 90854},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90813},
+																					pos: position{line: 2873, col: 13, offset: 90855},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90813},
+																							pos:        position{line: 2873, col: 13, offset: 90855},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90820},
+																							pos:        position{line: 2873, col: 20, offset: 90862},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90829},
+																							pos:        position{line: 2873, col: 29, offset: 90871},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40364,9 +40716,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 90989},
+																				pos: position{line: 2883, col: 8, offset: 91031},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 90990,
+																					line: 2883, col: 9, offset: 91032,
 																				},
 																			},
 																		},
@@ -40579,21 +40931,21 @@ var g = &grammar{
 				pos: position{line: 1862, col: 5, offset: 59978},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2763, col: 5, offset: 87883},
+						pos: position{line: 2763, col: 5, offset: 87925},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2763, col: 5, offset: 87883},
+							pos: position{line: 2763, col: 5, offset: 87925},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2763, col: 5, offset: 87883},
+									pos:   position{line: 2763, col: 5, offset: 87925},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2763, col: 11, offset: 87889},
+										pos: position{line: 2763, col: 11, offset: 87931},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2763, col: 11, offset: 87889},
+											pos: position{line: 2763, col: 11, offset: 87931},
 											expr: &charClassMatcher{
-												pos:        position{line: 2763, col: 11, offset: 87889},
+												pos:        position{line: 2763, col: 11, offset: 87931},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40603,36 +40955,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2766, col: 5, offset: 87947},
+									pos: position{line: 2766, col: 5, offset: 87989},
 									expr: &seqExpr{
-										pos: position{line: 2767, col: 9, offset: 87958},
+										pos: position{line: 2767, col: 9, offset: 88000},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2767, col: 9, offset: 87958},
+												pos:        position{line: 2767, col: 9, offset: 88000},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2768, col: 9, offset: 88007},
+												pos: position{line: 2768, col: 9, offset: 88049},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2772, col: 5, offset: 88087},
+									pos: position{line: 2772, col: 5, offset: 88129},
 									expr: &seqExpr{
-										pos: position{line: 2773, col: 9, offset: 88098},
+										pos: position{line: 2773, col: 9, offset: 88140},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2773, col: 9, offset: 88098},
+												pos:        position{line: 2773, col: 9, offset: 88140},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2773, col: 13, offset: 88102},
+												pos:        position{line: 2773, col: 13, offset: 88144},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40645,12 +40997,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2868, col: 11, offset: 90702},
+						pos: position{line: 2868, col: 11, offset: 90744},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2868, col: 11, offset: 90702},
+							pos: position{line: 2868, col: 11, offset: 90744},
 							expr: &charClassMatcher{
-								pos:        position{line: 2868, col: 11, offset: 90702},
+								pos:        position{line: 2868, col: 11, offset: 90744},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -40721,27 +41073,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2781, col: 5, offset: 88295},
+						pos: position{line: 2781, col: 5, offset: 88337},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2782, col: 9, offset: 88305},
+							pos: position{line: 2782, col: 9, offset: 88347},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2782, col: 10, offset: 88306},
+									pos:        position{line: 2782, col: 10, offset: 88348},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2784, col: 13, offset: 88403},
+									pos: position{line: 2784, col: 13, offset: 88445},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2784, col: 13, offset: 88403},
+											pos: position{line: 2784, col: 13, offset: 88445},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2787, col: 13, offset: 88503},
+											pos:        position{line: 2787, col: 13, offset: 88545},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -40749,20 +41101,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2787, col: 19, offset: 88509},
+									pos:        position{line: 2787, col: 19, offset: 88551},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2790, col: 13, offset: 88547},
+									pos: position{line: 2790, col: 13, offset: 88589},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2790, col: 13, offset: 88547},
+											pos: position{line: 2790, col: 13, offset: 88589},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2793, col: 14, offset: 88640},
+											pos:        position{line: 2793, col: 14, offset: 88682},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -40771,18 +41123,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2795, col: 12, offset: 88684},
+									pos: position{line: 2795, col: 12, offset: 88726},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2795, col: 12, offset: 88684},
+											pos:        position{line: 2795, col: 12, offset: 88726},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2795, col: 16, offset: 88688},
+											pos: position{line: 2795, col: 16, offset: 88730},
 											expr: &litMatcher{
-												pos:        position{line: 2795, col: 17, offset: 88689},
+												pos:        position{line: 2795, col: 17, offset: 88731},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41140,31 +41492,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2877, col: 18, offset: 90912},
+						pos: position{line: 2877, col: 18, offset: 90954},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2877, col: 18, offset: 90912},
+							pos: position{line: 2877, col: 18, offset: 90954},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2873, col: 12, offset: 90812},
+									pos: position{line: 2873, col: 12, offset: 90854},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2873, col: 13, offset: 90813},
+										pos: position{line: 2873, col: 13, offset: 90855},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2873, col: 13, offset: 90813},
+												pos:        position{line: 2873, col: 13, offset: 90855},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 20, offset: 90820},
+												pos:        position{line: 2873, col: 20, offset: 90862},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 29, offset: 90829},
+												pos:        position{line: 2873, col: 29, offset: 90871},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41173,27 +41525,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2877, col: 26, offset: 90920},
+									pos: position{line: 2877, col: 26, offset: 90962},
 									expr: &actionExpr{
-										pos: position{line: 2873, col: 12, offset: 90812},
+										pos: position{line: 2873, col: 12, offset: 90854},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2873, col: 13, offset: 90813},
+											pos: position{line: 2873, col: 13, offset: 90855},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2873, col: 13, offset: 90813},
+													pos:        position{line: 2873, col: 13, offset: 90855},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2873, col: 20, offset: 90820},
+													pos:        position{line: 2873, col: 20, offset: 90862},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2873, col: 29, offset: 90829},
+													pos:        position{line: 2873, col: 29, offset: 90871},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41281,10 +41633,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2803, col: 12, offset: 88949},
+						pos: position{line: 2803, col: 12, offset: 88991},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &charClassMatcher{
-							pos:        position{line: 2803, col: 12, offset: 88949},
+							pos:        position{line: 2803, col: 12, offset: 88991},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41348,9 +41700,9 @@ var g = &grammar{
 					pos: position{line: 1898, col: 5, offset: 61059},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2881, col: 11, offset: 90975},
+							pos: position{line: 2881, col: 11, offset: 91017},
 							expr: &anyMatcher{
-								line: 2881, col: 13, offset: 90977,
+								line: 2881, col: 13, offset: 91019,
 							},
 						},
 						&notExpr{
@@ -41437,7 +41789,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 1923, col: 7, offset: 61784},
 								expr: &charClassMatcher{
-									pos:        position{line: 2754, col: 13, offset: 87736},
+									pos:        position{line: 2754, col: 13, offset: 87778},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41461,10 +41813,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 1933, col: 5, offset: 62069},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90641},
+								pos: position{line: 2864, col: 10, offset: 90683},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90641},
+									pos:        position{line: 2864, col: 10, offset: 90683},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41501,9 +41853,9 @@ var g = &grammar{
 					pos: position{line: 1942, col: 5, offset: 62328},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2881, col: 11, offset: 90975},
+							pos: position{line: 2881, col: 11, offset: 91017},
 							expr: &anyMatcher{
-								line: 2881, col: 13, offset: 90977,
+								line: 2881, col: 13, offset: 91019,
 							},
 						},
 						&notExpr{
@@ -41535,7 +41887,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 1923, col: 7, offset: 61784},
 											expr: &charClassMatcher{
-												pos:        position{line: 2754, col: 13, offset: 87736},
+												pos:        position{line: 2754, col: 13, offset: 87778},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41770,9 +42122,9 @@ var g = &grammar{
 					pos: position{line: 1987, col: 5, offset: 63981},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2881, col: 11, offset: 90975},
+							pos: position{line: 2881, col: 11, offset: 91017},
 							expr: &anyMatcher{
-								line: 2881, col: 13, offset: 90977,
+								line: 2881, col: 13, offset: 91019,
 							},
 						},
 						&notExpr{
@@ -41859,7 +42211,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2013, col: 7, offset: 64712},
 								expr: &charClassMatcher{
-									pos:        position{line: 2754, col: 13, offset: 87736},
+									pos:        position{line: 2754, col: 13, offset: 87778},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41883,10 +42235,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2023, col: 5, offset: 65009},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90641},
+								pos: position{line: 2864, col: 10, offset: 90683},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90641},
+									pos:        position{line: 2864, col: 10, offset: 90683},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41923,9 +42275,9 @@ var g = &grammar{
 					pos: position{line: 2032, col: 5, offset: 65271},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2881, col: 11, offset: 90975},
+							pos: position{line: 2881, col: 11, offset: 91017},
 							expr: &anyMatcher{
-								line: 2881, col: 13, offset: 90977,
+								line: 2881, col: 13, offset: 91019,
 							},
 						},
 						&notExpr{
@@ -41957,7 +42309,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2013, col: 7, offset: 64712},
 											expr: &charClassMatcher{
-												pos:        position{line: 2754, col: 13, offset: 87736},
+												pos:        position{line: 2754, col: 13, offset: 87778},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42192,9 +42544,9 @@ var g = &grammar{
 					pos: position{line: 2077, col: 5, offset: 67100},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2881, col: 11, offset: 90975},
+							pos: position{line: 2881, col: 11, offset: 91017},
 							expr: &anyMatcher{
-								line: 2881, col: 13, offset: 90977,
+								line: 2881, col: 13, offset: 91019,
 							},
 						},
 						&notExpr{
@@ -42246,7 +42598,7 @@ var g = &grammar{
 						expr: &notExpr{
 							pos: position{line: 2104, col: 7, offset: 67893},
 							expr: &charClassMatcher{
-								pos:        position{line: 2754, col: 13, offset: 87736},
+								pos:        position{line: 2754, col: 13, offset: 87778},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42316,10 +42668,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2115, col: 5, offset: 68214},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90641},
+								pos: position{line: 2864, col: 10, offset: 90683},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90641},
+									pos:        position{line: 2864, col: 10, offset: 90683},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42356,9 +42708,9 @@ var g = &grammar{
 					pos: position{line: 2124, col: 5, offset: 68482},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2881, col: 11, offset: 90975},
+							pos: position{line: 2881, col: 11, offset: 91017},
 							expr: &anyMatcher{
-								line: 2881, col: 13, offset: 90977,
+								line: 2881, col: 13, offset: 91019,
 							},
 						},
 						&notExpr{
@@ -42592,9 +42944,9 @@ var g = &grammar{
 					pos: position{line: 2169, col: 5, offset: 70194},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2881, col: 11, offset: 90975},
+							pos: position{line: 2881, col: 11, offset: 91017},
 							expr: &anyMatcher{
-								line: 2881, col: 13, offset: 90977,
+								line: 2881, col: 13, offset: 91019,
 							},
 						},
 						&notExpr{
@@ -42681,7 +43033,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2194, col: 7, offset: 70923},
 								expr: &charClassMatcher{
-									pos:        position{line: 2754, col: 13, offset: 87736},
+									pos:        position{line: 2754, col: 13, offset: 87778},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42705,10 +43057,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2204, col: 5, offset: 71220},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90641},
+								pos: position{line: 2864, col: 10, offset: 90683},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90641},
+									pos:        position{line: 2864, col: 10, offset: 90683},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42745,9 +43097,9 @@ var g = &grammar{
 					pos: position{line: 2213, col: 5, offset: 71483},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2881, col: 11, offset: 90975},
+							pos: position{line: 2881, col: 11, offset: 91017},
 							expr: &anyMatcher{
-								line: 2881, col: 13, offset: 90977,
+								line: 2881, col: 13, offset: 91019,
 							},
 						},
 						&notExpr{
@@ -42779,7 +43131,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2194, col: 7, offset: 70923},
 											expr: &charClassMatcher{
-												pos:        position{line: 2754, col: 13, offset: 87736},
+												pos:        position{line: 2754, col: 13, offset: 87778},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43215,12 +43567,12 @@ var g = &grammar{
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2868, col: 11, offset: 90702},
+							pos: position{line: 2868, col: 11, offset: 90744},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2868, col: 11, offset: 90702},
+								pos: position{line: 2868, col: 11, offset: 90744},
 								expr: &charClassMatcher{
-									pos:        position{line: 2868, col: 11, offset: 90702},
+									pos:        position{line: 2868, col: 11, offset: 90744},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43237,28 +43589,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2886, col: 8, offset: 91039},
+							pos: position{line: 2886, col: 8, offset: 91081},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2873, col: 12, offset: 90812},
+									pos: position{line: 2873, col: 12, offset: 90854},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2873, col: 13, offset: 90813},
+										pos: position{line: 2873, col: 13, offset: 90855},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2873, col: 13, offset: 90813},
+												pos:        position{line: 2873, col: 13, offset: 90855},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 20, offset: 90820},
+												pos:        position{line: 2873, col: 20, offset: 90862},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 29, offset: 90829},
+												pos:        position{line: 2873, col: 29, offset: 90871},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43267,9 +43619,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2883, col: 8, offset: 90989},
+									pos: position{line: 2883, col: 8, offset: 91031},
 									expr: &anyMatcher{
-										line: 2883, col: 9, offset: 90990,
+										line: 2883, col: 9, offset: 91032,
 									},
 								},
 							},
@@ -43318,28 +43670,28 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2320, col: 5, offset: 75135},
 							expr: &choiceExpr{
-								pos: position{line: 2886, col: 8, offset: 91039},
+								pos: position{line: 2886, col: 8, offset: 91081},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2873, col: 12, offset: 90812},
+										pos: position{line: 2873, col: 12, offset: 90854},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2873, col: 13, offset: 90813},
+											pos: position{line: 2873, col: 13, offset: 90855},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2873, col: 13, offset: 90813},
+													pos:        position{line: 2873, col: 13, offset: 90855},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2873, col: 20, offset: 90820},
+													pos:        position{line: 2873, col: 20, offset: 90862},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2873, col: 29, offset: 90829},
+													pos:        position{line: 2873, col: 29, offset: 90871},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43348,9 +43700,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2883, col: 8, offset: 90989},
+										pos: position{line: 2883, col: 8, offset: 91031},
 										expr: &anyMatcher{
-											line: 2883, col: 9, offset: 90990,
+											line: 2883, col: 9, offset: 91032,
 										},
 									},
 								},
@@ -43363,21 +43715,21 @@ var g = &grammar{
 								pos: position{line: 2322, col: 9, offset: 75162},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2763, col: 5, offset: 87883},
+										pos: position{line: 2763, col: 5, offset: 87925},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2763, col: 5, offset: 87883},
+											pos: position{line: 2763, col: 5, offset: 87925},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2763, col: 5, offset: 87883},
+													pos:   position{line: 2763, col: 5, offset: 87925},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2763, col: 11, offset: 87889},
+														pos: position{line: 2763, col: 11, offset: 87931},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2763, col: 11, offset: 87889},
+															pos: position{line: 2763, col: 11, offset: 87931},
 															expr: &charClassMatcher{
-																pos:        position{line: 2763, col: 11, offset: 87889},
+																pos:        position{line: 2763, col: 11, offset: 87931},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43387,36 +43739,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2766, col: 5, offset: 87947},
+													pos: position{line: 2766, col: 5, offset: 87989},
 													expr: &seqExpr{
-														pos: position{line: 2767, col: 9, offset: 87958},
+														pos: position{line: 2767, col: 9, offset: 88000},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2767, col: 9, offset: 87958},
+																pos:        position{line: 2767, col: 9, offset: 88000},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2768, col: 9, offset: 88007},
+																pos: position{line: 2768, col: 9, offset: 88049},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2772, col: 5, offset: 88087},
+													pos: position{line: 2772, col: 5, offset: 88129},
 													expr: &seqExpr{
-														pos: position{line: 2773, col: 9, offset: 88098},
+														pos: position{line: 2773, col: 9, offset: 88140},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2773, col: 9, offset: 88098},
+																pos:        position{line: 2773, col: 9, offset: 88140},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2773, col: 13, offset: 88102},
+																pos:        position{line: 2773, col: 13, offset: 88144},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43429,12 +43781,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2868, col: 11, offset: 90702},
+										pos: position{line: 2868, col: 11, offset: 90744},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2868, col: 11, offset: 90702},
+											pos: position{line: 2868, col: 11, offset: 90744},
 											expr: &charClassMatcher{
-												pos:        position{line: 2868, col: 11, offset: 90702},
+												pos:        position{line: 2868, col: 11, offset: 90744},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43505,27 +43857,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2781, col: 5, offset: 88295},
+										pos: position{line: 2781, col: 5, offset: 88337},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2782, col: 9, offset: 88305},
+											pos: position{line: 2782, col: 9, offset: 88347},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2782, col: 10, offset: 88306},
+													pos:        position{line: 2782, col: 10, offset: 88348},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2784, col: 13, offset: 88403},
+													pos: position{line: 2784, col: 13, offset: 88445},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2784, col: 13, offset: 88403},
+															pos: position{line: 2784, col: 13, offset: 88445},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2787, col: 13, offset: 88503},
+															pos:        position{line: 2787, col: 13, offset: 88545},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43533,20 +43885,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2787, col: 19, offset: 88509},
+													pos:        position{line: 2787, col: 19, offset: 88551},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2790, col: 13, offset: 88547},
+													pos: position{line: 2790, col: 13, offset: 88589},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2790, col: 13, offset: 88547},
+															pos: position{line: 2790, col: 13, offset: 88589},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2793, col: 14, offset: 88640},
+															pos:        position{line: 2793, col: 14, offset: 88682},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43555,18 +43907,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2795, col: 12, offset: 88684},
+													pos: position{line: 2795, col: 12, offset: 88726},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2795, col: 12, offset: 88684},
+															pos:        position{line: 2795, col: 12, offset: 88726},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2795, col: 16, offset: 88688},
+															pos: position{line: 2795, col: 16, offset: 88730},
 															expr: &litMatcher{
-																pos:        position{line: 2795, col: 17, offset: 88689},
+																pos:        position{line: 2795, col: 17, offset: 88731},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -44473,10 +44825,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 2347, col: 26, offset: 75958},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90641},
+														pos: position{line: 2864, col: 10, offset: 90683},
 														run: (*parser).callonSectionTitleElement241,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90641},
+															pos:        position{line: 2864, col: 10, offset: 90683},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44487,28 +44839,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 2347, col: 33, offset: 75965},
 													expr: &choiceExpr{
-														pos: position{line: 2886, col: 8, offset: 91039},
+														pos: position{line: 2886, col: 8, offset: 91081},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90812},
+																pos: position{line: 2873, col: 12, offset: 90854},
 																run: (*parser).callonSectionTitleElement245,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90813},
+																	pos: position{line: 2873, col: 13, offset: 90855},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90813},
+																			pos:        position{line: 2873, col: 13, offset: 90855},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90820},
+																			pos:        position{line: 2873, col: 20, offset: 90862},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90829},
+																			pos:        position{line: 2873, col: 29, offset: 90871},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44517,9 +44869,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 90989},
+																pos: position{line: 2883, col: 8, offset: 91031},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 90990,
+																	line: 2883, col: 9, offset: 91032,
 																},
 															},
 														},
@@ -44544,12 +44896,12 @@ var g = &grammar{
 													pos:   position{line: 1265, col: 14, offset: 39143},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2849, col: 7, offset: 90293},
+														pos: position{line: 2849, col: 7, offset: 90335},
 														run: (*parser).callonSectionTitleElement256,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2849, col: 7, offset: 90293},
+															pos: position{line: 2849, col: 7, offset: 90335},
 															expr: &charClassMatcher{
-																pos:        position{line: 2849, col: 7, offset: 90293},
+																pos:        position{line: 2849, col: 7, offset: 90335},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -44583,12 +44935,12 @@ var g = &grammar{
 													pos:   position{line: 1270, col: 10, offset: 39275},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2849, col: 7, offset: 90293},
+														pos: position{line: 2849, col: 7, offset: 90335},
 														run: (*parser).callonSectionTitleElement264,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2849, col: 7, offset: 90293},
+															pos: position{line: 2849, col: 7, offset: 90335},
 															expr: &charClassMatcher{
-																pos:        position{line: 2849, col: 7, offset: 90293},
+																pos:        position{line: 2849, col: 7, offset: 90335},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -44611,10 +44963,10 @@ var g = &grammar{
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2803, col: 12, offset: 88949},
+										pos: position{line: 2803, col: 12, offset: 88991},
 										run: (*parser).callonSectionTitleElement269,
 										expr: &charClassMatcher{
-											pos:        position{line: 2803, col: 12, offset: 88949},
+											pos:        position{line: 2803, col: 12, offset: 88991},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -44649,9 +45001,9 @@ var g = &grammar{
 										pos: position{line: 2360, col: 9, offset: 76349},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2881, col: 11, offset: 90975},
+												pos: position{line: 2881, col: 11, offset: 91017},
 												expr: &anyMatcher{
-													line: 2881, col: 13, offset: 90977,
+													line: 2881, col: 13, offset: 91019,
 												},
 											},
 											&labeledExpr{
@@ -44661,21 +45013,21 @@ var g = &grammar{
 													pos: position{line: 2362, col: 13, offset: 76386},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2763, col: 5, offset: 87883},
+															pos: position{line: 2763, col: 5, offset: 87925},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2763, col: 5, offset: 87883},
+																pos: position{line: 2763, col: 5, offset: 87925},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2763, col: 5, offset: 87883},
+																		pos:   position{line: 2763, col: 5, offset: 87925},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2763, col: 11, offset: 87889},
+																			pos: position{line: 2763, col: 11, offset: 87931},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2763, col: 11, offset: 87889},
+																				pos: position{line: 2763, col: 11, offset: 87931},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2763, col: 11, offset: 87889},
+																					pos:        position{line: 2763, col: 11, offset: 87931},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44685,36 +45037,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2766, col: 5, offset: 87947},
+																		pos: position{line: 2766, col: 5, offset: 87989},
 																		expr: &seqExpr{
-																			pos: position{line: 2767, col: 9, offset: 87958},
+																			pos: position{line: 2767, col: 9, offset: 88000},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2767, col: 9, offset: 87958},
+																					pos:        position{line: 2767, col: 9, offset: 88000},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2768, col: 9, offset: 88007},
+																					pos: position{line: 2768, col: 9, offset: 88049},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2772, col: 5, offset: 88087},
+																		pos: position{line: 2772, col: 5, offset: 88129},
 																		expr: &seqExpr{
-																			pos: position{line: 2773, col: 9, offset: 88098},
+																			pos: position{line: 2773, col: 9, offset: 88140},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2773, col: 9, offset: 88098},
+																					pos:        position{line: 2773, col: 9, offset: 88140},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2773, col: 13, offset: 88102},
+																					pos:        position{line: 2773, col: 13, offset: 88144},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -44727,12 +45079,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2868, col: 11, offset: 90702},
+															pos: position{line: 2868, col: 11, offset: 90744},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2868, col: 11, offset: 90702},
+																pos: position{line: 2868, col: 11, offset: 90744},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2868, col: 11, offset: 90702},
+																	pos:        position{line: 2868, col: 11, offset: 90744},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -44803,27 +45155,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2781, col: 5, offset: 88295},
+															pos: position{line: 2781, col: 5, offset: 88337},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2782, col: 9, offset: 88305},
+																pos: position{line: 2782, col: 9, offset: 88347},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2782, col: 10, offset: 88306},
+																		pos:        position{line: 2782, col: 10, offset: 88348},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2784, col: 13, offset: 88403},
+																		pos: position{line: 2784, col: 13, offset: 88445},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2784, col: 13, offset: 88403},
+																				pos: position{line: 2784, col: 13, offset: 88445},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2787, col: 13, offset: 88503},
+																				pos:        position{line: 2787, col: 13, offset: 88545},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -44831,20 +45183,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2787, col: 19, offset: 88509},
+																		pos:        position{line: 2787, col: 19, offset: 88551},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2790, col: 13, offset: 88547},
+																		pos: position{line: 2790, col: 13, offset: 88589},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2790, col: 13, offset: 88547},
+																				pos: position{line: 2790, col: 13, offset: 88589},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2793, col: 14, offset: 88640},
+																				pos:        position{line: 2793, col: 14, offset: 88682},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -44853,18 +45205,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2795, col: 12, offset: 88684},
+																		pos: position{line: 2795, col: 12, offset: 88726},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2795, col: 12, offset: 88684},
+																				pos:        position{line: 2795, col: 12, offset: 88726},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2795, col: 16, offset: 88688},
+																				pos: position{line: 2795, col: 16, offset: 88730},
 																				expr: &litMatcher{
-																					pos:        position{line: 2795, col: 17, offset: 88689},
+																					pos:        position{line: 2795, col: 17, offset: 88731},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -44876,25 +45228,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90812},
+															pos: position{line: 2873, col: 12, offset: 90854},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90813},
+																pos: position{line: 2873, col: 13, offset: 90855},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90813},
+																		pos:        position{line: 2873, col: 13, offset: 90855},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90820},
+																		pos:        position{line: 2873, col: 20, offset: 90862},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90829},
+																		pos:        position{line: 2873, col: 29, offset: 90871},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45311,10 +45663,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1226, col: 5, offset: 37991},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90641},
+																			pos: position{line: 2864, col: 10, offset: 90683},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90641},
+																				pos:        position{line: 2864, col: 10, offset: 90683},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45325,28 +45677,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1226, col: 12, offset: 37998},
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91039},
+																			pos: position{line: 2886, col: 8, offset: 91081},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90812},
+																					pos: position{line: 2873, col: 12, offset: 90854},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90813},
+																						pos: position{line: 2873, col: 13, offset: 90855},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90813},
+																								pos:        position{line: 2873, col: 13, offset: 90855},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90820},
+																								pos:        position{line: 2873, col: 20, offset: 90862},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90829},
+																								pos:        position{line: 2873, col: 29, offset: 90871},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45355,9 +45707,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 90989},
+																					pos: position{line: 2883, col: 8, offset: 91031},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 90990,
+																						line: 2883, col: 9, offset: 91032,
 																					},
 																				},
 																			},
@@ -45410,10 +45762,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2803, col: 12, offset: 88949},
+															pos: position{line: 2803, col: 12, offset: 88991},
 															run: (*parser).callonNormalGroup164,
 															expr: &charClassMatcher{
-																pos:        position{line: 2803, col: 12, offset: 88949},
+																pos:        position{line: 2803, col: 12, offset: 88991},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45429,9 +45781,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2883, col: 8, offset: 90989},
+							pos: position{line: 2883, col: 8, offset: 91031},
 							expr: &anyMatcher{
-								line: 2883, col: 9, offset: 90990,
+								line: 2883, col: 9, offset: 91032,
 							},
 						},
 					},
@@ -45459,9 +45811,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2883, col: 8, offset: 90989},
+							pos: position{line: 2883, col: 8, offset: 91031},
 							expr: &anyMatcher{
-								line: 2883, col: 9, offset: 90990,
+								line: 2883, col: 9, offset: 91032,
 							},
 						},
 					},
@@ -45478,9 +45830,9 @@ var g = &grammar{
 					pos: position{line: 2391, col: 5, offset: 77508},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2881, col: 11, offset: 90975},
+							pos: position{line: 2881, col: 11, offset: 91017},
 							expr: &anyMatcher{
-								line: 2881, col: 13, offset: 90977,
+								line: 2881, col: 13, offset: 91019,
 							},
 						},
 						&labeledExpr{
@@ -45490,21 +45842,21 @@ var g = &grammar{
 								pos: position{line: 2393, col: 9, offset: 77537},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2763, col: 5, offset: 87883},
+										pos: position{line: 2763, col: 5, offset: 87925},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2763, col: 5, offset: 87883},
+											pos: position{line: 2763, col: 5, offset: 87925},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2763, col: 5, offset: 87883},
+													pos:   position{line: 2763, col: 5, offset: 87925},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2763, col: 11, offset: 87889},
+														pos: position{line: 2763, col: 11, offset: 87931},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2763, col: 11, offset: 87889},
+															pos: position{line: 2763, col: 11, offset: 87931},
 															expr: &charClassMatcher{
-																pos:        position{line: 2763, col: 11, offset: 87889},
+																pos:        position{line: 2763, col: 11, offset: 87931},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45514,36 +45866,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2766, col: 5, offset: 87947},
+													pos: position{line: 2766, col: 5, offset: 87989},
 													expr: &seqExpr{
-														pos: position{line: 2767, col: 9, offset: 87958},
+														pos: position{line: 2767, col: 9, offset: 88000},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2767, col: 9, offset: 87958},
+																pos:        position{line: 2767, col: 9, offset: 88000},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2768, col: 9, offset: 88007},
+																pos: position{line: 2768, col: 9, offset: 88049},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2772, col: 5, offset: 88087},
+													pos: position{line: 2772, col: 5, offset: 88129},
 													expr: &seqExpr{
-														pos: position{line: 2773, col: 9, offset: 88098},
+														pos: position{line: 2773, col: 9, offset: 88140},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2773, col: 9, offset: 88098},
+																pos:        position{line: 2773, col: 9, offset: 88140},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2773, col: 13, offset: 88102},
+																pos:        position{line: 2773, col: 13, offset: 88144},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45556,10 +45908,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2864, col: 10, offset: 90641},
+										pos: position{line: 2864, col: 10, offset: 90683},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2864, col: 10, offset: 90641},
+											pos:        position{line: 2864, col: 10, offset: 90683},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45571,27 +45923,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2781, col: 5, offset: 88295},
+										pos: position{line: 2781, col: 5, offset: 88337},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2782, col: 9, offset: 88305},
+											pos: position{line: 2782, col: 9, offset: 88347},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2782, col: 10, offset: 88306},
+													pos:        position{line: 2782, col: 10, offset: 88348},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2784, col: 13, offset: 88403},
+													pos: position{line: 2784, col: 13, offset: 88445},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2784, col: 13, offset: 88403},
+															pos: position{line: 2784, col: 13, offset: 88445},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2787, col: 13, offset: 88503},
+															pos:        position{line: 2787, col: 13, offset: 88545},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45599,20 +45951,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2787, col: 19, offset: 88509},
+													pos:        position{line: 2787, col: 19, offset: 88551},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2790, col: 13, offset: 88547},
+													pos: position{line: 2790, col: 13, offset: 88589},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2790, col: 13, offset: 88547},
+															pos: position{line: 2790, col: 13, offset: 88589},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2793, col: 14, offset: 88640},
+															pos:        position{line: 2793, col: 14, offset: 88682},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45621,18 +45973,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2795, col: 12, offset: 88684},
+													pos: position{line: 2795, col: 12, offset: 88726},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2795, col: 12, offset: 88684},
+															pos:        position{line: 2795, col: 12, offset: 88726},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2795, col: 16, offset: 88688},
+															pos: position{line: 2795, col: 16, offset: 88730},
 															expr: &litMatcher{
-																pos:        position{line: 2795, col: 17, offset: 88689},
+																pos:        position{line: 2795, col: 17, offset: 88731},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45719,25 +46071,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2873, col: 12, offset: 90812},
+										pos: position{line: 2873, col: 12, offset: 90854},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2873, col: 13, offset: 90813},
+											pos: position{line: 2873, col: 13, offset: 90855},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2873, col: 13, offset: 90813},
+													pos:        position{line: 2873, col: 13, offset: 90855},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2873, col: 20, offset: 90820},
+													pos:        position{line: 2873, col: 20, offset: 90862},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2873, col: 29, offset: 90829},
+													pos:        position{line: 2873, col: 29, offset: 90871},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -45746,10 +46098,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2803, col: 12, offset: 88949},
+										pos: position{line: 2803, col: 12, offset: 88991},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2803, col: 12, offset: 88949},
+											pos:        position{line: 2803, col: 12, offset: 88991},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45826,12 +46178,12 @@ var g = &grammar{
 													pos:   position{line: 1265, col: 14, offset: 39143},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2849, col: 7, offset: 90293},
+														pos: position{line: 2849, col: 7, offset: 90335},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2849, col: 7, offset: 90293},
+															pos: position{line: 2849, col: 7, offset: 90335},
 															expr: &charClassMatcher{
-																pos:        position{line: 2849, col: 7, offset: 90293},
+																pos:        position{line: 2849, col: 7, offset: 90335},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45865,12 +46217,12 @@ var g = &grammar{
 													pos:   position{line: 1270, col: 10, offset: 39275},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2849, col: 7, offset: 90293},
+														pos: position{line: 2849, col: 7, offset: 90335},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2849, col: 7, offset: 90293},
+															pos: position{line: 2849, col: 7, offset: 90335},
 															expr: &charClassMatcher{
-																pos:        position{line: 2849, col: 7, offset: 90293},
+																pos:        position{line: 2849, col: 7, offset: 90335},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45912,17 +46264,17 @@ var g = &grammar{
 																pos: position{line: 1316, col: 31, offset: 41097},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2754, col: 13, offset: 87736},
+																		pos:        position{line: 2754, col: 13, offset: 87778},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90641},
+																		pos: position{line: 2864, col: 10, offset: 90683},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90641},
+																			pos:        position{line: 2864, col: 10, offset: 90683},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -45948,10 +46300,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1310, col: 12, offset: 40811},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90641},
+																			pos: position{line: 2864, col: 10, offset: 90683},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90641},
+																				pos:        position{line: 2864, col: 10, offset: 90683},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45968,10 +46320,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1310, col: 23, offset: 40822},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90641},
+																			pos: position{line: 2864, col: 10, offset: 90683},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90641},
+																				pos:        position{line: 2864, col: 10, offset: 90683},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45991,17 +46343,17 @@ var g = &grammar{
 																					pos: position{line: 1316, col: 31, offset: 41097},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2754, col: 13, offset: 87736},
+																							pos:        position{line: 2754, col: 13, offset: 87778},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90641},
+																							pos: position{line: 2864, col: 10, offset: 90683},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90641},
+																								pos:        position{line: 2864, col: 10, offset: 90683},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46032,10 +46384,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1311, col: 12, offset: 40903},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90641},
+																			pos: position{line: 2864, col: 10, offset: 90683},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90641},
+																				pos:        position{line: 2864, col: 10, offset: 90683},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46052,10 +46404,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1311, col: 23, offset: 40914},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90641},
+																			pos: position{line: 2864, col: 10, offset: 90683},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90641},
+																				pos:        position{line: 2864, col: 10, offset: 90683},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46075,17 +46427,17 @@ var g = &grammar{
 																					pos: position{line: 1316, col: 31, offset: 41097},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2754, col: 13, offset: 87736},
+																							pos:        position{line: 2754, col: 13, offset: 87778},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90641},
+																							pos: position{line: 2864, col: 10, offset: 90683},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90641},
+																								pos:        position{line: 2864, col: 10, offset: 90683},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46202,10 +46554,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1397, col: 12, offset: 44812},
 																				expr: &actionExpr{
-																					pos: position{line: 2864, col: 10, offset: 90641},
+																					pos: position{line: 2864, col: 10, offset: 90683},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2864, col: 10, offset: 90641},
+																						pos:        position{line: 2864, col: 10, offset: 90683},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46216,25 +46568,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1397, col: 19, offset: 44819},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90812},
+																					pos: position{line: 2873, col: 12, offset: 90854},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90813},
+																						pos: position{line: 2873, col: 13, offset: 90855},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90813},
+																								pos:        position{line: 2873, col: 13, offset: 90855},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90820},
+																								pos:        position{line: 2873, col: 20, offset: 90862},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90829},
+																								pos:        position{line: 2873, col: 29, offset: 90871},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46271,7 +46623,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1391, col: 121, offset: 44461},
 													expr: &charClassMatcher{
-														pos:        position{line: 2754, col: 13, offset: 87736},
+														pos:        position{line: 2754, col: 13, offset: 87778},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46317,10 +46669,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1383, col: 64, offset: 43921},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90641},
+																				pos: position{line: 2864, col: 10, offset: 90683},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90641},
+																					pos:        position{line: 2864, col: 10, offset: 90683},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46331,25 +46683,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1383, col: 71, offset: 43928},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90812},
+																				pos: position{line: 2873, col: 12, offset: 90854},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90813},
+																					pos: position{line: 2873, col: 13, offset: 90855},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90813},
+																							pos:        position{line: 2873, col: 13, offset: 90855},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90820},
+																							pos:        position{line: 2873, col: 20, offset: 90862},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90829},
+																							pos:        position{line: 2873, col: 29, offset: 90871},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46372,12 +46724,12 @@ var g = &grammar{
 																							pos: position{line: 1383, col: 86, offset: 43943},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2868, col: 11, offset: 90702},
+																									pos: position{line: 2868, col: 11, offset: 90744},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2868, col: 11, offset: 90702},
+																										pos: position{line: 2868, col: 11, offset: 90744},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2868, col: 11, offset: 90702},
+																											pos:        position{line: 2868, col: 11, offset: 90744},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46406,25 +46758,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1383, col: 151, offset: 44008},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 12, offset: 90812},
+																							pos: position{line: 2873, col: 12, offset: 90854},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2873, col: 13, offset: 90813},
+																								pos: position{line: 2873, col: 13, offset: 90855},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 13, offset: 90813},
+																										pos:        position{line: 2873, col: 13, offset: 90855},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 20, offset: 90820},
+																										pos:        position{line: 2873, col: 20, offset: 90862},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 29, offset: 90829},
+																										pos:        position{line: 2873, col: 29, offset: 90871},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46451,10 +46803,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1385, col: 12, offset: 44168},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90641},
+																				pos: position{line: 2864, col: 10, offset: 90683},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90641},
+																					pos:        position{line: 2864, col: 10, offset: 90683},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46465,25 +46817,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1385, col: 19, offset: 44175},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90812},
+																				pos: position{line: 2873, col: 12, offset: 90854},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90813},
+																					pos: position{line: 2873, col: 13, offset: 90855},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90813},
+																							pos:        position{line: 2873, col: 13, offset: 90855},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90820},
+																							pos:        position{line: 2873, col: 20, offset: 90862},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90829},
+																							pos:        position{line: 2873, col: 29, offset: 90871},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46519,7 +46871,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1379, col: 121, offset: 43744},
 													expr: &charClassMatcher{
-														pos:        position{line: 2754, col: 13, offset: 87736},
+														pos:        position{line: 2754, col: 13, offset: 87778},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46677,10 +47029,10 @@ var g = &grammar{
 														pos: position{line: 2564, col: 6, offset: 82386},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2864, col: 10, offset: 90641},
+																pos: position{line: 2864, col: 10, offset: 90683},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2864, col: 10, offset: 90641},
+																	pos:        position{line: 2864, col: 10, offset: 90683},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -46690,28 +47042,28 @@ var g = &grammar{
 															&andExpr{
 																pos: position{line: 2564, col: 14, offset: 82394},
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91039},
+																	pos: position{line: 2886, col: 8, offset: 91081},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90812},
+																			pos: position{line: 2873, col: 12, offset: 90854},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90813},
+																				pos: position{line: 2873, col: 13, offset: 90855},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90813},
+																						pos:        position{line: 2873, col: 13, offset: 90855},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90820},
+																						pos:        position{line: 2873, col: 20, offset: 90862},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90829},
+																						pos:        position{line: 2873, col: 29, offset: 90871},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -46720,9 +47072,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 90989},
+																			pos: position{line: 2883, col: 8, offset: 91031},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 90990,
+																				line: 2883, col: 9, offset: 91032,
 																			},
 																		},
 																	},
@@ -46755,32 +47107,32 @@ var g = &grammar{
 															pos: position{line: 2574, col: 7, offset: 82615},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2754, col: 13, offset: 87736},
+																	pos:        position{line: 2754, col: 13, offset: 87778},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2873, col: 12, offset: 90812},
+																	pos: position{line: 2873, col: 12, offset: 90854},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2873, col: 13, offset: 90813},
+																		pos: position{line: 2873, col: 13, offset: 90855},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2873, col: 13, offset: 90813},
+																				pos:        position{line: 2873, col: 13, offset: 90855},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2873, col: 20, offset: 90820},
+																				pos:        position{line: 2873, col: 20, offset: 90862},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2873, col: 29, offset: 90829},
+																				pos:        position{line: 2873, col: 29, offset: 90871},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -46789,9 +47141,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2883, col: 8, offset: 90989},
+																	pos: position{line: 2883, col: 8, offset: 91031},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 90990,
+																		line: 2883, col: 9, offset: 91032,
 																	},
 																},
 															},
@@ -46899,10 +47251,10 @@ var g = &grammar{
 									pos: position{line: 2564, col: 6, offset: 82386},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2864, col: 10, offset: 90641},
+											pos: position{line: 2864, col: 10, offset: 90683},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2864, col: 10, offset: 90641},
+												pos:        position{line: 2864, col: 10, offset: 90683},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -46912,28 +47264,28 @@ var g = &grammar{
 										&andExpr{
 											pos: position{line: 2564, col: 14, offset: 82394},
 											expr: &choiceExpr{
-												pos: position{line: 2886, col: 8, offset: 91039},
+												pos: position{line: 2886, col: 8, offset: 91081},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2873, col: 12, offset: 90812},
+														pos: position{line: 2873, col: 12, offset: 90854},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2873, col: 13, offset: 90813},
+															pos: position{line: 2873, col: 13, offset: 90855},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2873, col: 13, offset: 90813},
+																	pos:        position{line: 2873, col: 13, offset: 90855},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2873, col: 20, offset: 90820},
+																	pos:        position{line: 2873, col: 20, offset: 90862},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2873, col: 29, offset: 90829},
+																	pos:        position{line: 2873, col: 29, offset: 90871},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -46942,9 +47294,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2883, col: 8, offset: 90989},
+														pos: position{line: 2883, col: 8, offset: 91031},
 														expr: &anyMatcher{
-															line: 2883, col: 9, offset: 90990,
+															line: 2883, col: 9, offset: 91032,
 														},
 													},
 												},
@@ -46977,32 +47329,32 @@ var g = &grammar{
 										pos: position{line: 2574, col: 7, offset: 82615},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2754, col: 13, offset: 87736},
+												pos:        position{line: 2754, col: 13, offset: 87778},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2873, col: 12, offset: 90812},
+												pos: position{line: 2873, col: 12, offset: 90854},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2873, col: 13, offset: 90813},
+													pos: position{line: 2873, col: 13, offset: 90855},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2873, col: 13, offset: 90813},
+															pos:        position{line: 2873, col: 13, offset: 90855},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2873, col: 20, offset: 90820},
+															pos:        position{line: 2873, col: 20, offset: 90862},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2873, col: 29, offset: 90829},
+															pos:        position{line: 2873, col: 29, offset: 90871},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47011,9 +47363,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2883, col: 8, offset: 90989},
+												pos: position{line: 2883, col: 8, offset: 91031},
 												expr: &anyMatcher{
-													line: 2883, col: 9, offset: 90990,
+													line: 2883, col: 9, offset: 91032,
 												},
 											},
 										},
@@ -47210,63 +47562,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2669, col: 1, offset: 84816},
+			pos:  position{line: 2669, col: 1, offset: 84858},
 			expr: &actionExpr{
-				pos: position{line: 2669, col: 26, offset: 84841},
+				pos: position{line: 2669, col: 26, offset: 84883},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2669, col: 26, offset: 84841},
+					pos: position{line: 2669, col: 26, offset: 84883},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2669, col: 26, offset: 84841},
+							pos:   position{line: 2669, col: 26, offset: 84883},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2669, col: 31, offset: 84846},
+								pos: position{line: 2669, col: 31, offset: 84888},
 								expr: &actionExpr{
-									pos: position{line: 2674, col: 5, offset: 84909},
+									pos: position{line: 2674, col: 5, offset: 84951},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2674, col: 5, offset: 84909},
+										pos: position{line: 2674, col: 5, offset: 84951},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2881, col: 11, offset: 90975},
+												pos: position{line: 2881, col: 11, offset: 91017},
 												expr: &anyMatcher{
-													line: 2881, col: 13, offset: 90977,
+													line: 2881, col: 13, offset: 91019,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2677, col: 5, offset: 85035},
+												pos:   position{line: 2677, col: 5, offset: 85077},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2677, col: 16, offset: 85046},
+													pos: position{line: 2677, col: 16, offset: 85088},
 													expr: &actionExpr{
-														pos: position{line: 2677, col: 17, offset: 85047},
+														pos: position{line: 2677, col: 17, offset: 85089},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2677, col: 17, offset: 85047},
+															pos: position{line: 2677, col: 17, offset: 85089},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2677, col: 17, offset: 85047},
+																	pos:   position{line: 2677, col: 17, offset: 85089},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2856, col: 12, offset: 90468},
+																		pos: position{line: 2856, col: 12, offset: 90510},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2856, col: 13, offset: 90469},
+																			pos: position{line: 2856, col: 13, offset: 90511},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2856, col: 13, offset: 90469},
+																					pos: position{line: 2856, col: 13, offset: 90511},
 																					expr: &litMatcher{
-																						pos:        position{line: 2856, col: 13, offset: 90469},
+																						pos:        position{line: 2856, col: 13, offset: 90511},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2856, col: 18, offset: 90474},
+																					pos: position{line: 2856, col: 18, offset: 90516},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2856, col: 18, offset: 90474},
+																						pos:        position{line: 2856, col: 18, offset: 90516},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47278,7 +47630,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2677, col: 27, offset: 85057},
+																	pos:        position{line: 2677, col: 27, offset: 85099},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47289,38 +47641,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2678, col: 5, offset: 85085},
+												pos:   position{line: 2678, col: 5, offset: 85127},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2678, col: 12, offset: 85092},
+													pos: position{line: 2678, col: 12, offset: 85134},
 													expr: &choiceExpr{
-														pos: position{line: 2679, col: 9, offset: 85102},
+														pos: position{line: 2679, col: 9, offset: 85144},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2679, col: 9, offset: 85102},
+																pos: position{line: 2679, col: 9, offset: 85144},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2679, col: 9, offset: 85102},
+																	pos:        position{line: 2679, col: 9, offset: 85144},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2680, col: 11, offset: 85149},
+																pos: position{line: 2680, col: 11, offset: 85191},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2680, col: 11, offset: 85149},
+																	pos:        position{line: 2680, col: 11, offset: 85191},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2681, col: 11, offset: 85197},
+																pos: position{line: 2681, col: 11, offset: 85239},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2681, col: 11, offset: 85197},
+																	pos:        position{line: 2681, col: 11, offset: 85239},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47331,38 +47683,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2683, col: 5, offset: 85247},
+												pos:   position{line: 2683, col: 5, offset: 85289},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2683, col: 12, offset: 85254},
+													pos: position{line: 2683, col: 12, offset: 85296},
 													expr: &choiceExpr{
-														pos: position{line: 2684, col: 9, offset: 85264},
+														pos: position{line: 2684, col: 9, offset: 85306},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2684, col: 9, offset: 85264},
+																pos: position{line: 2684, col: 9, offset: 85306},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2684, col: 9, offset: 85264},
+																	pos:        position{line: 2684, col: 9, offset: 85306},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2685, col: 11, offset: 85311},
+																pos: position{line: 2685, col: 11, offset: 85353},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2685, col: 11, offset: 85311},
+																	pos:        position{line: 2685, col: 11, offset: 85353},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2686, col: 11, offset: 85361},
+																pos: position{line: 2686, col: 11, offset: 85403},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2686, col: 11, offset: 85361},
+																	pos:        position{line: 2686, col: 11, offset: 85403},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47373,32 +47725,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2688, col: 5, offset: 85412},
+												pos:   position{line: 2688, col: 5, offset: 85454},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2688, col: 12, offset: 85419},
+													pos: position{line: 2688, col: 12, offset: 85461},
 													expr: &choiceExpr{
-														pos: position{line: 2688, col: 13, offset: 85420},
+														pos: position{line: 2688, col: 13, offset: 85462},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2856, col: 12, offset: 90468},
+																pos: position{line: 2856, col: 12, offset: 90510},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2856, col: 13, offset: 90469},
+																	pos: position{line: 2856, col: 13, offset: 90511},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2856, col: 13, offset: 90469},
+																			pos: position{line: 2856, col: 13, offset: 90511},
 																			expr: &litMatcher{
-																				pos:        position{line: 2856, col: 13, offset: 90469},
+																				pos:        position{line: 2856, col: 13, offset: 90511},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2856, col: 18, offset: 90474},
+																			pos: position{line: 2856, col: 18, offset: 90516},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2856, col: 18, offset: 90474},
+																				pos:        position{line: 2856, col: 18, offset: 90516},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47409,10 +47761,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2688, col: 24, offset: 85431},
+																pos: position{line: 2688, col: 24, offset: 85473},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2688, col: 24, offset: 85431},
+																	pos:        position{line: 2688, col: 24, offset: 85473},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47423,15 +47775,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2689, col: 5, offset: 85473},
+												pos:   position{line: 2689, col: 5, offset: 85515},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2689, col: 11, offset: 85479},
+													pos: position{line: 2689, col: 11, offset: 85521},
 													expr: &actionExpr{
-														pos: position{line: 2689, col: 12, offset: 85480},
+														pos: position{line: 2689, col: 12, offset: 85522},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2689, col: 12, offset: 85480},
+															pos:        position{line: 2689, col: 12, offset: 85522},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47441,12 +47793,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2691, col: 5, offset: 85610},
+												pos:   position{line: 2691, col: 5, offset: 85652},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2691, col: 11, offset: 85616},
+													pos: position{line: 2691, col: 11, offset: 85658},
 													expr: &litMatcher{
-														pos:        position{line: 2691, col: 12, offset: 85617},
+														pos:        position{line: 2691, col: 12, offset: 85659},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47454,7 +47806,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2692, col: 5, offset: 85627},
+												pos: position{line: 2692, col: 5, offset: 85669},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47463,9 +47815,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2883, col: 8, offset: 90989},
+							pos: position{line: 2883, col: 8, offset: 91031},
 							expr: &anyMatcher{
-								line: 2883, col: 9, offset: 90990,
+								line: 2883, col: 9, offset: 91032,
 							},
 						},
 					},
@@ -47474,23 +47826,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2719, col: 1, offset: 86636},
+			pos:  position{line: 2719, col: 1, offset: 86678},
 			expr: &actionExpr{
-				pos: position{line: 2720, col: 5, offset: 86659},
+				pos: position{line: 2720, col: 5, offset: 86701},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2720, col: 5, offset: 86659},
+					pos: position{line: 2720, col: 5, offset: 86701},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2720, col: 5, offset: 86659},
+							pos:   position{line: 2720, col: 5, offset: 86701},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2743, col: 18, offset: 87400},
+								pos: position{line: 2743, col: 18, offset: 87442},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2743, col: 19, offset: 87401},
+									pos: position{line: 2743, col: 19, offset: 87443},
 									expr: &charClassMatcher{
-										pos:        position{line: 2743, col: 19, offset: 87401},
+										pos:        position{line: 2743, col: 19, offset: 87443},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47501,25 +47853,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2721, col: 5, offset: 86685},
+							pos: position{line: 2721, col: 5, offset: 86727},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2725, col: 5, offset: 86813},
+							pos:        position{line: 2725, col: 5, offset: 86855},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2726, col: 5, offset: 86823},
+							pos:   position{line: 2726, col: 5, offset: 86865},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2747, col: 19, offset: 87476},
+								pos: position{line: 2747, col: 19, offset: 87518},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2747, col: 19, offset: 87476},
+									pos: position{line: 2747, col: 19, offset: 87518},
 									expr: &charClassMatcher{
-										pos:        position{line: 2747, col: 19, offset: 87476},
+										pos:        position{line: 2747, col: 19, offset: 87518},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47529,36 +47881,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2727, col: 5, offset: 86851},
+							pos:   position{line: 2727, col: 5, offset: 86893},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2727, col: 17, offset: 86863},
+								pos:  position{line: 2727, col: 17, offset: 86905},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2886, col: 8, offset: 91039},
+							pos: position{line: 2886, col: 8, offset: 91081},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2873, col: 12, offset: 90812},
+									pos: position{line: 2873, col: 12, offset: 90854},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2873, col: 13, offset: 90813},
+										pos: position{line: 2873, col: 13, offset: 90855},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2873, col: 13, offset: 90813},
+												pos:        position{line: 2873, col: 13, offset: 90855},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 20, offset: 90820},
+												pos:        position{line: 2873, col: 20, offset: 90862},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 29, offset: 90829},
+												pos:        position{line: 2873, col: 29, offset: 90871},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -47567,9 +47919,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2883, col: 8, offset: 90989},
+									pos: position{line: 2883, col: 8, offset: 91031},
 									expr: &anyMatcher{
-										line: 2883, col: 9, offset: 90990,
+										line: 2883, col: 9, offset: 91032,
 									},
 								},
 							},
@@ -47580,23 +47932,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2731, col: 1, offset: 87011},
+			pos:  position{line: 2731, col: 1, offset: 87053},
 			expr: &actionExpr{
-				pos: position{line: 2732, col: 5, offset: 87035},
+				pos: position{line: 2732, col: 5, offset: 87077},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2732, col: 5, offset: 87035},
+					pos: position{line: 2732, col: 5, offset: 87077},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2732, col: 5, offset: 87035},
+							pos:   position{line: 2732, col: 5, offset: 87077},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2743, col: 18, offset: 87400},
+								pos: position{line: 2743, col: 18, offset: 87442},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2743, col: 19, offset: 87401},
+									pos: position{line: 2743, col: 19, offset: 87443},
 									expr: &charClassMatcher{
-										pos:        position{line: 2743, col: 19, offset: 87401},
+										pos:        position{line: 2743, col: 19, offset: 87443},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47607,25 +47959,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2733, col: 5, offset: 87061},
+							pos: position{line: 2733, col: 5, offset: 87103},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2737, col: 5, offset: 87189},
+							pos:        position{line: 2737, col: 5, offset: 87231},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2738, col: 5, offset: 87198},
+							pos:   position{line: 2738, col: 5, offset: 87240},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2747, col: 19, offset: 87476},
+								pos: position{line: 2747, col: 19, offset: 87518},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2747, col: 19, offset: 87476},
+									pos: position{line: 2747, col: 19, offset: 87518},
 									expr: &charClassMatcher{
-										pos:        position{line: 2747, col: 19, offset: 87476},
+										pos:        position{line: 2747, col: 19, offset: 87518},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47635,10 +47987,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2739, col: 5, offset: 87226},
+							pos:   position{line: 2739, col: 5, offset: 87268},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2739, col: 17, offset: 87238},
+								pos:  position{line: 2739, col: 17, offset: 87280},
 								name: "InlineAttributes",
 							},
 						},
@@ -47648,43 +48000,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2818, col: 1, offset: 89288},
+			pos:  position{line: 2818, col: 1, offset: 89330},
 			expr: &actionExpr{
-				pos: position{line: 2818, col: 17, offset: 89304},
+				pos: position{line: 2818, col: 17, offset: 89346},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2818, col: 17, offset: 89304},
+					pos:   position{line: 2818, col: 17, offset: 89346},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2835, col: 5, offset: 89758},
+						pos: position{line: 2835, col: 5, offset: 89800},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2835, col: 5, offset: 89758},
+							pos:   position{line: 2835, col: 5, offset: 89800},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2835, col: 14, offset: 89767},
+								pos: position{line: 2835, col: 14, offset: 89809},
 								expr: &choiceExpr{
-									pos: position{line: 2836, col: 9, offset: 89777},
+									pos: position{line: 2836, col: 9, offset: 89819},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2836, col: 9, offset: 89777},
+											pos: position{line: 2836, col: 9, offset: 89819},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2836, col: 9, offset: 89777},
+												pos: position{line: 2836, col: 9, offset: 89819},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2836, col: 9, offset: 89777},
+														pos: position{line: 2836, col: 9, offset: 89819},
 														expr: &litMatcher{
-															pos:        position{line: 2836, col: 10, offset: 89778},
+															pos:        position{line: 2836, col: 10, offset: 89820},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2837, col: 9, offset: 89806},
+														pos: position{line: 2837, col: 9, offset: 89848},
 														expr: &charClassMatcher{
-															pos:        position{line: 2837, col: 10, offset: 89807},
+															pos:        position{line: 2837, col: 10, offset: 89849},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -47695,27 +48047,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2840, col: 11, offset: 90019},
+											pos: position{line: 2840, col: 11, offset: 90061},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2840, col: 11, offset: 90019},
+													pos:        position{line: 2840, col: 11, offset: 90061},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2840, col: 19, offset: 90027},
+													pos: position{line: 2840, col: 19, offset: 90069},
 													expr: &seqExpr{
-														pos: position{line: 2840, col: 21, offset: 90029},
+														pos: position{line: 2840, col: 21, offset: 90071},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2840, col: 21, offset: 90029},
+																pos: position{line: 2840, col: 21, offset: 90071},
 																expr: &actionExpr{
-																	pos: position{line: 2864, col: 10, offset: 90641},
+																	pos: position{line: 2864, col: 10, offset: 90683},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2864, col: 10, offset: 90641},
+																		pos:        position{line: 2864, col: 10, offset: 90683},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -47724,11 +48076,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2840, col: 28, offset: 90036},
+																pos: position{line: 2840, col: 28, offset: 90078},
 																expr: &notExpr{
-																	pos: position{line: 2883, col: 8, offset: 90989},
+																	pos: position{line: 2883, col: 8, offset: 91031},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 90990,
+																		line: 2883, col: 9, offset: 91032,
 																	},
 																},
 															},
@@ -48123,10 +48475,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2843, col: 11, offset: 90156},
+											pos: position{line: 2843, col: 11, offset: 90198},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2843, col: 11, offset: 90156},
+												pos:        position{line: 2843, col: 11, offset: 90198},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -53250,27 +53602,27 @@ func (p *parser) callonDocumentFragment1300() (interface{}, error) {
 	return p.cur.onDocumentFragment1300()
 }
 
-func (c *current) onDocumentFragment1303() (interface{}, error) {
+func (c *current) onDocumentFragment1304() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1303() (interface{}, error) {
+func (p *parser) callonDocumentFragment1304() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1303()
+	return p.cur.onDocumentFragment1304()
 }
 
-func (c *current) onDocumentFragment1317() (interface{}, error) {
+func (c *current) onDocumentFragment1316() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1317() (interface{}, error) {
+func (p *parser) callonDocumentFragment1316() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1317()
+	return p.cur.onDocumentFragment1316()
 }
 
 func (c *current) onDocumentFragment1320() (interface{}, error) {
@@ -53284,81 +53636,149 @@ func (p *parser) callonDocumentFragment1320() (interface{}, error) {
 	return p.cur.onDocumentFragment1320()
 }
 
-func (c *current) onDocumentFragment1335() (interface{}, error) {
+func (c *current) onDocumentFragment1310(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
+
+}
+
+func (p *parser) callonDocumentFragment1310() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1310(stack["content"])
+}
+
+func (c *current) onDocumentFragment1336() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1335() (interface{}, error) {
+func (p *parser) callonDocumentFragment1336() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1335()
+	return p.cur.onDocumentFragment1336()
 }
 
-func (c *current) onDocumentFragment1338() (interface{}, error) {
+func (c *current) onDocumentFragment1339() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1338() (interface{}, error) {
+func (p *parser) callonDocumentFragment1339() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1338()
+	return p.cur.onDocumentFragment1339()
 }
 
-func (c *current) onDocumentFragment1330() (interface{}, error) {
-	return types.NewBlankLine()
+func (c *current) onDocumentFragment1354() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1330() (interface{}, error) {
+func (p *parser) callonDocumentFragment1354() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1330()
+	return p.cur.onDocumentFragment1354()
 }
 
-func (c *current) onDocumentFragment1349() (interface{}, error) {
+func (c *current) onDocumentFragment1357() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
+func (p *parser) callonDocumentFragment1357() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1357()
+}
+
+func (c *current) onDocumentFragment1349() (interface{}, error) {
+	return types.NewBlankLine()
+
+}
+
 func (p *parser) callonDocumentFragment1349() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
 	return p.cur.onDocumentFragment1349()
 }
 
-func (c *current) onDocumentFragment1354() (interface{}, error) {
+func (c *current) onDocumentFragment1368() (interface{}, error) {
 	return string(c.text), nil
+}
 
+func (p *parser) callonDocumentFragment1368() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1368()
 }
 
-func (p *parser) callonDocumentFragment1354() (interface{}, error) {
+func (c *current) onDocumentFragment1373() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment1373() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1354()
+	return p.cur.onDocumentFragment1373()
 }
 
-func (c *current) onDocumentFragment1359() (interface{}, error) {
+func (c *current) onDocumentFragment1379() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1359() (interface{}, error) {
+func (p *parser) callonDocumentFragment1379() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1359()
+	return p.cur.onDocumentFragment1379()
 }
 
-func (c *current) onDocumentFragment1310(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1393() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment1393() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1393()
+}
+
+func (c *current) onDocumentFragment1397() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment1397() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1397()
+}
+
+func (c *current) onDocumentFragment1387(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
+
+}
+
+func (p *parser) callonDocumentFragment1387() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1387(stack["content"])
+}
+
+func (c *current) onDocumentFragment1329(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1310() (interface{}, error) {
+func (p *parser) callonDocumentFragment1329() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1310(stack["content"])
+	return p.cur.onDocumentFragment1329(stack["content"])
 }
 
 func (c *current) onDocumentFragment1258(format, content interface{}) (interface{}, error) {
@@ -53393,38 +53813,38 @@ func (p *parser) callonDocumentFragment1228() (interface{}, error) {
 	return p.cur.onDocumentFragment1228(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1371() (interface{}, error) {
+func (c *current) onDocumentFragment1409() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1371() (interface{}, error) {
+func (p *parser) callonDocumentFragment1409() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1371()
+	return p.cur.onDocumentFragment1409()
 }
 
-func (c *current) onDocumentFragment1374() (interface{}, error) {
+func (c *current) onDocumentFragment1412() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1374() (interface{}, error) {
+func (p *parser) callonDocumentFragment1412() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1374()
+	return p.cur.onDocumentFragment1412()
 }
 
-func (c *current) onDocumentFragment1366() (interface{}, error) {
+func (c *current) onDocumentFragment1404() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1366() (interface{}, error) {
+func (p *parser) callonDocumentFragment1404() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1366()
+	return p.cur.onDocumentFragment1404()
 }
 
 func (c *current) onDocumentFragment1207(content interface{}) (interface{}, error) {
@@ -53438,27 +53858,27 @@ func (p *parser) callonDocumentFragment1207() (interface{}, error) {
 	return p.cur.onDocumentFragment1207(stack["content"])
 }
 
-func (c *current) onDocumentFragment1385() (interface{}, error) {
+func (c *current) onDocumentFragment1423() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1385() (interface{}, error) {
+func (p *parser) callonDocumentFragment1423() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1385()
+	return p.cur.onDocumentFragment1423()
 }
 
-func (c *current) onDocumentFragment1388() (interface{}, error) {
+func (c *current) onDocumentFragment1426() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1388() (interface{}, error) {
+func (p *parser) callonDocumentFragment1426() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1388()
+	return p.cur.onDocumentFragment1426()
 }
 
 func (c *current) onDocumentFragment1175(lines interface{}) (interface{}, error) {
@@ -53472,161 +53892,161 @@ func (p *parser) callonDocumentFragment1175() (interface{}, error) {
 	return p.cur.onDocumentFragment1175(stack["lines"])
 }
 
-func (c *current) onDocumentFragment1403() (interface{}, error) {
+func (c *current) onDocumentFragment1441() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1403() (interface{}, error) {
+func (p *parser) callonDocumentFragment1441() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1403()
+	return p.cur.onDocumentFragment1441()
 }
 
-func (c *current) onDocumentFragment1407() (interface{}, error) {
+func (c *current) onDocumentFragment1445() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1407() (interface{}, error) {
+func (p *parser) callonDocumentFragment1445() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1407()
+	return p.cur.onDocumentFragment1445()
 }
 
-func (c *current) onDocumentFragment1397(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1435(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1397() (interface{}, error) {
+func (p *parser) callonDocumentFragment1435() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1397(stack["content"])
+	return p.cur.onDocumentFragment1435(stack["content"])
 }
 
-func (c *current) onDocumentFragment1416() (bool, error) {
+func (c *current) onDocumentFragment1454() (bool, error) {
 	return c.isFrontMatterAllowed(), nil
 
 }
 
-func (p *parser) callonDocumentFragment1416() (bool, error) {
+func (p *parser) callonDocumentFragment1454() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1416()
+	return p.cur.onDocumentFragment1454()
 }
 
-func (c *current) onDocumentFragment1422() (interface{}, error) {
+func (c *current) onDocumentFragment1460() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1422() (interface{}, error) {
+func (p *parser) callonDocumentFragment1460() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1422()
+	return p.cur.onDocumentFragment1460()
 }
 
-func (c *current) onDocumentFragment1425() (interface{}, error) {
+func (c *current) onDocumentFragment1463() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1425() (interface{}, error) {
+func (p *parser) callonDocumentFragment1463() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1425()
+	return p.cur.onDocumentFragment1463()
 }
 
-func (c *current) onDocumentFragment1442() (interface{}, error) {
+func (c *current) onDocumentFragment1480() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1442() (interface{}, error) {
+func (p *parser) callonDocumentFragment1480() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1442()
+	return p.cur.onDocumentFragment1480()
 }
 
-func (c *current) onDocumentFragment1445() (interface{}, error) {
+func (c *current) onDocumentFragment1483() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1445() (interface{}, error) {
+func (p *parser) callonDocumentFragment1483() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1445()
+	return p.cur.onDocumentFragment1483()
 }
 
-func (c *current) onDocumentFragment1434() (interface{}, error) {
+func (c *current) onDocumentFragment1472() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1434() (interface{}, error) {
+func (p *parser) callonDocumentFragment1472() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1434()
+	return p.cur.onDocumentFragment1472()
 }
 
-func (c *current) onDocumentFragment1455() (interface{}, error) {
+func (c *current) onDocumentFragment1493() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1455() (interface{}, error) {
+func (p *parser) callonDocumentFragment1493() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1455()
+	return p.cur.onDocumentFragment1493()
 }
 
-func (c *current) onDocumentFragment1458() (interface{}, error) {
+func (c *current) onDocumentFragment1496() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1458() (interface{}, error) {
+func (p *parser) callonDocumentFragment1496() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1458()
+	return p.cur.onDocumentFragment1496()
 }
 
-func (c *current) onDocumentFragment1418(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1456(content interface{}) (interface{}, error) {
 	return types.NewYamlFrontMatter(content.(string))
 }
 
-func (p *parser) callonDocumentFragment1418() (interface{}, error) {
+func (p *parser) callonDocumentFragment1456() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1418(stack["content"])
+	return p.cur.onDocumentFragment1456(stack["content"])
 }
 
-func (c *current) onDocumentFragment1414(frontmatter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1452(frontmatter interface{}) (interface{}, error) {
 	return frontmatter, nil
 
 }
 
-func (p *parser) callonDocumentFragment1414() (interface{}, error) {
+func (p *parser) callonDocumentFragment1452() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1414(stack["frontmatter"])
+	return p.cur.onDocumentFragment1452(stack["frontmatter"])
 }
 
-func (c *current) onDocumentFragment1466(attributes, element interface{}) (bool, error) {
+func (c *current) onDocumentFragment1504(attributes, element interface{}) (bool, error) {
 	// there must be at least `attributes` or `element`
 	return attributes != nil || element != nil, nil
 
 }
 
-func (p *parser) callonDocumentFragment1466() (bool, error) {
+func (p *parser) callonDocumentFragment1504() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1466(stack["attributes"], stack["element"])
+	return p.cur.onDocumentFragment1504(stack["attributes"], stack["element"])
 }
 
 func (c *current) onDocumentFragment1(attributes, element interface{}) (interface{}, error) {
@@ -67243,27 +67663,27 @@ func (p *parser) callonListContinuationElement1515() (interface{}, error) {
 	return p.cur.onListContinuationElement1515()
 }
 
-func (c *current) onListContinuationElement1518() (interface{}, error) {
+func (c *current) onListContinuationElement1519() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1518() (interface{}, error) {
+func (p *parser) callonListContinuationElement1519() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1518()
+	return p.cur.onListContinuationElement1519()
 }
 
-func (c *current) onListContinuationElement1532() (interface{}, error) {
+func (c *current) onListContinuationElement1531() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1532() (interface{}, error) {
+func (p *parser) callonListContinuationElement1531() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1532()
+	return p.cur.onListContinuationElement1531()
 }
 
 func (c *current) onListContinuationElement1535() (interface{}, error) {
@@ -67277,81 +67697,149 @@ func (p *parser) callonListContinuationElement1535() (interface{}, error) {
 	return p.cur.onListContinuationElement1535()
 }
 
-func (c *current) onListContinuationElement1550() (interface{}, error) {
+func (c *current) onListContinuationElement1525(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
+
+}
+
+func (p *parser) callonListContinuationElement1525() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1525(stack["content"])
+}
+
+func (c *current) onListContinuationElement1551() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1550() (interface{}, error) {
+func (p *parser) callonListContinuationElement1551() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1550()
+	return p.cur.onListContinuationElement1551()
 }
 
-func (c *current) onListContinuationElement1553() (interface{}, error) {
+func (c *current) onListContinuationElement1554() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1553() (interface{}, error) {
+func (p *parser) callonListContinuationElement1554() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1553()
+	return p.cur.onListContinuationElement1554()
 }
 
-func (c *current) onListContinuationElement1545() (interface{}, error) {
-	return types.NewBlankLine()
+func (c *current) onListContinuationElement1569() (interface{}, error) {
+
+	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1545() (interface{}, error) {
+func (p *parser) callonListContinuationElement1569() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1545()
+	return p.cur.onListContinuationElement1569()
 }
 
-func (c *current) onListContinuationElement1564() (interface{}, error) {
+func (c *current) onListContinuationElement1572() (interface{}, error) {
+	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
+func (p *parser) callonListContinuationElement1572() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1572()
+}
+
+func (c *current) onListContinuationElement1564() (interface{}, error) {
+	return types.NewBlankLine()
+
+}
+
 func (p *parser) callonListContinuationElement1564() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
 	return p.cur.onListContinuationElement1564()
 }
 
-func (c *current) onListContinuationElement1569() (interface{}, error) {
+func (c *current) onListContinuationElement1583() (interface{}, error) {
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1583() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1583()
+}
+
+func (c *current) onListContinuationElement1588() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1569() (interface{}, error) {
+func (p *parser) callonListContinuationElement1588() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1569()
+	return p.cur.onListContinuationElement1588()
 }
 
-func (c *current) onListContinuationElement1574() (interface{}, error) {
+func (c *current) onListContinuationElement1594() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1574() (interface{}, error) {
+func (p *parser) callonListContinuationElement1594() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1574()
+	return p.cur.onListContinuationElement1594()
 }
 
-func (c *current) onListContinuationElement1525(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1608() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1608() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1608()
+}
+
+func (c *current) onListContinuationElement1612() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1612() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1612()
+}
+
+func (c *current) onListContinuationElement1602(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
+
+}
+
+func (p *parser) callonListContinuationElement1602() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1602(stack["content"])
+}
+
+func (c *current) onListContinuationElement1544(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1525() (interface{}, error) {
+func (p *parser) callonListContinuationElement1544() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1525(stack["content"])
+	return p.cur.onListContinuationElement1544(stack["content"])
 }
 
 func (c *current) onListContinuationElement1473(format, content interface{}) (interface{}, error) {
@@ -67386,38 +67874,38 @@ func (p *parser) callonListContinuationElement1443() (interface{}, error) {
 	return p.cur.onListContinuationElement1443(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1586() (interface{}, error) {
+func (c *current) onListContinuationElement1624() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1586() (interface{}, error) {
+func (p *parser) callonListContinuationElement1624() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1586()
+	return p.cur.onListContinuationElement1624()
 }
 
-func (c *current) onListContinuationElement1589() (interface{}, error) {
+func (c *current) onListContinuationElement1627() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1589() (interface{}, error) {
+func (p *parser) callonListContinuationElement1627() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1589()
+	return p.cur.onListContinuationElement1627()
 }
 
-func (c *current) onListContinuationElement1581() (interface{}, error) {
+func (c *current) onListContinuationElement1619() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1581() (interface{}, error) {
+func (p *parser) callonListContinuationElement1619() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1581()
+	return p.cur.onListContinuationElement1619()
 }
 
 func (c *current) onListContinuationElement1422(content interface{}) (interface{}, error) {
@@ -67431,27 +67919,27 @@ func (p *parser) callonListContinuationElement1422() (interface{}, error) {
 	return p.cur.onListContinuationElement1422(stack["content"])
 }
 
-func (c *current) onListContinuationElement1600() (interface{}, error) {
+func (c *current) onListContinuationElement1638() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1600() (interface{}, error) {
+func (p *parser) callonListContinuationElement1638() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1600()
+	return p.cur.onListContinuationElement1638()
 }
 
-func (c *current) onListContinuationElement1603() (interface{}, error) {
+func (c *current) onListContinuationElement1641() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1603() (interface{}, error) {
+func (p *parser) callonListContinuationElement1641() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1603()
+	return p.cur.onListContinuationElement1641()
 }
 
 func (c *current) onListContinuationElement1390(lines interface{}) (interface{}, error) {
@@ -67465,237 +67953,237 @@ func (p *parser) callonListContinuationElement1390() (interface{}, error) {
 	return p.cur.onListContinuationElement1390(stack["lines"])
 }
 
-func (c *current) onListContinuationElement1618() (interface{}, error) {
+func (c *current) onListContinuationElement1656() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1618() (interface{}, error) {
+func (p *parser) callonListContinuationElement1656() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1618()
+	return p.cur.onListContinuationElement1656()
 }
 
-func (c *current) onListContinuationElement1622() (interface{}, error) {
+func (c *current) onListContinuationElement1660() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1622() (interface{}, error) {
+func (p *parser) callonListContinuationElement1660() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1622()
+	return p.cur.onListContinuationElement1660()
 }
 
-func (c *current) onListContinuationElement1612(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1650(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1612() (interface{}, error) {
+func (p *parser) callonListContinuationElement1650() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1612(stack["content"])
+	return p.cur.onListContinuationElement1650(stack["content"])
 }
 
-func (c *current) onListContinuationElement1635() (bool, error) {
+func (c *current) onListContinuationElement1673() (bool, error) {
 	return !c.isWithinLiteralParagraph(), nil
 
 }
 
-func (p *parser) callonListContinuationElement1635() (bool, error) {
+func (p *parser) callonListContinuationElement1673() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1635()
+	return p.cur.onListContinuationElement1673()
 }
 
-func (c *current) onListContinuationElement1638() (interface{}, error) {
+func (c *current) onListContinuationElement1676() (interface{}, error) {
 	return types.Tip, nil
 
 }
 
-func (p *parser) callonListContinuationElement1638() (interface{}, error) {
+func (p *parser) callonListContinuationElement1676() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1638()
+	return p.cur.onListContinuationElement1676()
 }
 
-func (c *current) onListContinuationElement1640() (interface{}, error) {
+func (c *current) onListContinuationElement1678() (interface{}, error) {
 	return types.Note, nil
 
 }
 
-func (p *parser) callonListContinuationElement1640() (interface{}, error) {
+func (p *parser) callonListContinuationElement1678() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1640()
+	return p.cur.onListContinuationElement1678()
 }
 
-func (c *current) onListContinuationElement1642() (interface{}, error) {
+func (c *current) onListContinuationElement1680() (interface{}, error) {
 	return types.Important, nil
 
 }
 
-func (p *parser) callonListContinuationElement1642() (interface{}, error) {
+func (p *parser) callonListContinuationElement1680() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1642()
+	return p.cur.onListContinuationElement1680()
 }
 
-func (c *current) onListContinuationElement1644() (interface{}, error) {
+func (c *current) onListContinuationElement1682() (interface{}, error) {
 	return types.Warning, nil
 
 }
 
-func (p *parser) callonListContinuationElement1644() (interface{}, error) {
+func (p *parser) callonListContinuationElement1682() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1644()
+	return p.cur.onListContinuationElement1682()
 }
 
-func (c *current) onListContinuationElement1646() (interface{}, error) {
+func (c *current) onListContinuationElement1684() (interface{}, error) {
 	return types.Caution, nil
 
 }
 
-func (p *parser) callonListContinuationElement1646() (interface{}, error) {
+func (p *parser) callonListContinuationElement1684() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1646()
+	return p.cur.onListContinuationElement1684()
 }
 
-func (c *current) onListContinuationElement1650() (interface{}, error) {
+func (c *current) onListContinuationElement1688() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1650() (interface{}, error) {
+func (p *parser) callonListContinuationElement1688() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1650()
+	return p.cur.onListContinuationElement1688()
 }
 
-func (c *current) onListContinuationElement1648() (interface{}, error) {
+func (c *current) onListContinuationElement1686() (interface{}, error) {
 	// check
 	return types.LiteralParagraph, nil
 
 }
 
-func (p *parser) callonListContinuationElement1648() (interface{}, error) {
+func (p *parser) callonListContinuationElement1686() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1648()
+	return p.cur.onListContinuationElement1686()
 }
 
-func (c *current) onListContinuationElement1633(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1671(style interface{}) (interface{}, error) {
 	return style, nil
 
 }
 
-func (p *parser) callonListContinuationElement1633() (interface{}, error) {
+func (p *parser) callonListContinuationElement1671() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1633(stack["style"])
+	return p.cur.onListContinuationElement1671(stack["style"])
 }
 
-func (c *current) onListContinuationElement1662() (interface{}, error) {
+func (c *current) onListContinuationElement1700() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1662() (interface{}, error) {
+func (p *parser) callonListContinuationElement1700() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1662()
+	return p.cur.onListContinuationElement1700()
 }
 
-func (c *current) onListContinuationElement1665() (interface{}, error) {
+func (c *current) onListContinuationElement1703() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1665() (interface{}, error) {
+func (p *parser) callonListContinuationElement1703() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1665()
+	return p.cur.onListContinuationElement1703()
 }
 
-func (c *current) onListContinuationElement1657() (interface{}, error) {
+func (c *current) onListContinuationElement1695() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1657() (interface{}, error) {
+func (p *parser) callonListContinuationElement1695() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1657()
+	return p.cur.onListContinuationElement1695()
 }
 
-func (c *current) onListContinuationElement1676() (interface{}, error) {
+func (c *current) onListContinuationElement1714() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1676() (interface{}, error) {
+func (p *parser) callonListContinuationElement1714() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1676()
+	return p.cur.onListContinuationElement1714()
 }
 
-func (c *current) onListContinuationElement1678() (interface{}, error) {
+func (c *current) onListContinuationElement1716() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1678() (interface{}, error) {
+func (p *parser) callonListContinuationElement1716() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1678()
+	return p.cur.onListContinuationElement1716()
 }
 
-func (c *current) onListContinuationElement1687() (interface{}, error) {
+func (c *current) onListContinuationElement1725() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1687() (interface{}, error) {
+func (p *parser) callonListContinuationElement1725() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1687()
+	return p.cur.onListContinuationElement1725()
 }
 
-func (c *current) onListContinuationElement1694() (interface{}, error) {
+func (c *current) onListContinuationElement1732() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonListContinuationElement1694() (interface{}, error) {
+func (p *parser) callonListContinuationElement1732() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1694()
+	return p.cur.onListContinuationElement1732()
 }
 
-func (c *current) onListContinuationElement1697(depth interface{}) (bool, error) {
+func (c *current) onListContinuationElement1735(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1697() (bool, error) {
+func (p *parser) callonListContinuationElement1735() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1697(stack["depth"])
+	return p.cur.onListContinuationElement1735(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1691(depth interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1729(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -67711,756 +68199,756 @@ func (c *current) onListContinuationElement1691(depth interface{}) (interface{},
 
 }
 
-func (p *parser) callonListContinuationElement1691() (interface{}, error) {
+func (p *parser) callonListContinuationElement1729() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1691(stack["depth"])
+	return p.cur.onListContinuationElement1729(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1698() (interface{}, error) {
+func (c *current) onListContinuationElement1736() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonListContinuationElement1698() (interface{}, error) {
+func (p *parser) callonListContinuationElement1736() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1698()
+	return p.cur.onListContinuationElement1736()
 }
 
-func (c *current) onListContinuationElement1703() (interface{}, error) {
+func (c *current) onListContinuationElement1741() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1703() (interface{}, error) {
+func (p *parser) callonListContinuationElement1741() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1703()
+	return p.cur.onListContinuationElement1741()
 }
 
-func (c *current) onListContinuationElement1707() (interface{}, error) {
+func (c *current) onListContinuationElement1745() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1707() (interface{}, error) {
+func (p *parser) callonListContinuationElement1745() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1707()
+	return p.cur.onListContinuationElement1745()
 }
 
-func (c *current) onListContinuationElement1711() (interface{}, error) {
+func (c *current) onListContinuationElement1749() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1711() (interface{}, error) {
+func (p *parser) callonListContinuationElement1749() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1711()
+	return p.cur.onListContinuationElement1749()
 }
 
-func (c *current) onListContinuationElement1716() (interface{}, error) {
+func (c *current) onListContinuationElement1754() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1716() (interface{}, error) {
+func (p *parser) callonListContinuationElement1754() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1716()
+	return p.cur.onListContinuationElement1754()
 }
 
-func (c *current) onListContinuationElement1721(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1759(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1721() (interface{}, error) {
+func (p *parser) callonListContinuationElement1759() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1721(stack["prefix"])
+	return p.cur.onListContinuationElement1759(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1684(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1722(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonListContinuationElement1684() (interface{}, error) {
+func (p *parser) callonListContinuationElement1722() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1684(stack["prefix"])
+	return p.cur.onListContinuationElement1722(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1728() (interface{}, error) {
+func (c *current) onListContinuationElement1766() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1728() (interface{}, error) {
+func (p *parser) callonListContinuationElement1766() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1728()
+	return p.cur.onListContinuationElement1766()
 }
 
-func (c *current) onListContinuationElement1731() (interface{}, error) {
+func (c *current) onListContinuationElement1769() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1731() (interface{}, error) {
+func (p *parser) callonListContinuationElement1769() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1731()
+	return p.cur.onListContinuationElement1769()
 }
 
-func (c *current) onListContinuationElement1736(style interface{}) (bool, error) {
+func (c *current) onListContinuationElement1774(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1736() (bool, error) {
+func (p *parser) callonListContinuationElement1774() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1736(stack["style"])
+	return p.cur.onListContinuationElement1774(stack["style"])
 }
 
-func (c *current) onListContinuationElement1737(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1775(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1737() (interface{}, error) {
+func (p *parser) callonListContinuationElement1775() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1737(stack["style"])
+	return p.cur.onListContinuationElement1775(stack["style"])
 }
 
-func (c *current) onListContinuationElement1725(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1763(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1725() (interface{}, error) {
+func (p *parser) callonListContinuationElement1763() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1725(stack["style"])
+	return p.cur.onListContinuationElement1763(stack["style"])
 }
 
-func (c *current) onListContinuationElement1745() (interface{}, error) {
+func (c *current) onListContinuationElement1783() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1745() (interface{}, error) {
+func (p *parser) callonListContinuationElement1783() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1745()
+	return p.cur.onListContinuationElement1783()
 }
 
-func (c *current) onListContinuationElement1749(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1787(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1749() (interface{}, error) {
+func (p *parser) callonListContinuationElement1787() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1749(stack["ref"])
+	return p.cur.onListContinuationElement1787(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1741(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1779(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonListContinuationElement1741() (interface{}, error) {
+func (p *parser) callonListContinuationElement1779() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1741(stack["ref"])
+	return p.cur.onListContinuationElement1779(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1761() (interface{}, error) {
+func (c *current) onListContinuationElement1799() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1761() (interface{}, error) {
+func (p *parser) callonListContinuationElement1799() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1761()
+	return p.cur.onListContinuationElement1799()
 }
 
-func (c *current) onListContinuationElement1764(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1802(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1764() (bool, error) {
+func (p *parser) callonListContinuationElement1802() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1764(stack["separator"])
+	return p.cur.onListContinuationElement1802(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1758(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1796(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1758() (interface{}, error) {
+func (p *parser) callonListContinuationElement1796() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1758(stack["separator"])
+	return p.cur.onListContinuationElement1796(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1767() (interface{}, error) {
+func (c *current) onListContinuationElement1805() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1767() (interface{}, error) {
+func (p *parser) callonListContinuationElement1805() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1767()
+	return p.cur.onListContinuationElement1805()
 }
 
-func (c *current) onListContinuationElement1754() (interface{}, error) {
+func (c *current) onListContinuationElement1792() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonListContinuationElement1754() (interface{}, error) {
+func (p *parser) callonListContinuationElement1792() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1754()
+	return p.cur.onListContinuationElement1792()
 }
 
-func (c *current) onListContinuationElement1778() (interface{}, error) {
+func (c *current) onListContinuationElement1816() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1778() (interface{}, error) {
+func (p *parser) callonListContinuationElement1816() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1778()
+	return p.cur.onListContinuationElement1816()
 }
 
-func (c *current) onListContinuationElement1781(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1819(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1781() (bool, error) {
+func (p *parser) callonListContinuationElement1819() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1781(stack["separator"])
+	return p.cur.onListContinuationElement1819(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1775(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1813(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1775() (interface{}, error) {
+func (p *parser) callonListContinuationElement1813() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1775(stack["separator"])
+	return p.cur.onListContinuationElement1813(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1792() (interface{}, error) {
+func (c *current) onListContinuationElement1830() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1792() (interface{}, error) {
+func (p *parser) callonListContinuationElement1830() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1792()
+	return p.cur.onListContinuationElement1830()
 }
 
-func (c *current) onListContinuationElement1798() (interface{}, error) {
+func (c *current) onListContinuationElement1836() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1798() (interface{}, error) {
+func (p *parser) callonListContinuationElement1836() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1798()
+	return p.cur.onListContinuationElement1836()
 }
 
-func (c *current) onListContinuationElement1801() (interface{}, error) {
+func (c *current) onListContinuationElement1839() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1801() (interface{}, error) {
+func (p *parser) callonListContinuationElement1839() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1801()
+	return p.cur.onListContinuationElement1839()
 }
 
-func (c *current) onListContinuationElement1789(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1827(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1789() (interface{}, error) {
+func (p *parser) callonListContinuationElement1827() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1789(stack["delimiter"])
+	return p.cur.onListContinuationElement1827(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1811() (interface{}, error) {
+func (c *current) onListContinuationElement1849() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1811() (interface{}, error) {
+func (p *parser) callonListContinuationElement1849() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1811()
+	return p.cur.onListContinuationElement1849()
 }
 
-func (c *current) onListContinuationElement1817() (interface{}, error) {
+func (c *current) onListContinuationElement1855() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1817() (interface{}, error) {
+func (p *parser) callonListContinuationElement1855() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1817()
+	return p.cur.onListContinuationElement1855()
 }
 
-func (c *current) onListContinuationElement1820() (interface{}, error) {
+func (c *current) onListContinuationElement1858() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1820() (interface{}, error) {
+func (p *parser) callonListContinuationElement1858() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1820()
+	return p.cur.onListContinuationElement1858()
 }
 
-func (c *current) onListContinuationElement1808(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1846(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1808() (interface{}, error) {
+func (p *parser) callonListContinuationElement1846() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1808(stack["delimiter"])
+	return p.cur.onListContinuationElement1846(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1831() (interface{}, error) {
+func (c *current) onListContinuationElement1869() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1831() (interface{}, error) {
+func (p *parser) callonListContinuationElement1869() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1831()
+	return p.cur.onListContinuationElement1869()
 }
 
-func (c *current) onListContinuationElement1835() (interface{}, error) {
+func (c *current) onListContinuationElement1873() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1835() (interface{}, error) {
+func (p *parser) callonListContinuationElement1873() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1835()
+	return p.cur.onListContinuationElement1873()
 }
 
-func (c *current) onListContinuationElement1838() (interface{}, error) {
+func (c *current) onListContinuationElement1876() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1838() (interface{}, error) {
+func (p *parser) callonListContinuationElement1876() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1838()
+	return p.cur.onListContinuationElement1876()
 }
 
-func (c *current) onListContinuationElement1827(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1865(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1827() (interface{}, error) {
+func (p *parser) callonListContinuationElement1865() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1827(stack["language"])
+	return p.cur.onListContinuationElement1865(stack["language"])
 }
 
-func (c *current) onListContinuationElement1848() (interface{}, error) {
+func (c *current) onListContinuationElement1886() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1848() (interface{}, error) {
+func (p *parser) callonListContinuationElement1886() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1848()
+	return p.cur.onListContinuationElement1886()
 }
 
-func (c *current) onListContinuationElement1854() (interface{}, error) {
+func (c *current) onListContinuationElement1892() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1854() (interface{}, error) {
+func (p *parser) callonListContinuationElement1892() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1854()
+	return p.cur.onListContinuationElement1892()
 }
 
-func (c *current) onListContinuationElement1857() (interface{}, error) {
+func (c *current) onListContinuationElement1895() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1857() (interface{}, error) {
+func (p *parser) callonListContinuationElement1895() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1857()
+	return p.cur.onListContinuationElement1895()
 }
 
-func (c *current) onListContinuationElement1845(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1883(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1845() (interface{}, error) {
+func (p *parser) callonListContinuationElement1883() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1845(stack["delimiter"])
+	return p.cur.onListContinuationElement1883(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1867() (interface{}, error) {
+func (c *current) onListContinuationElement1905() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1867() (interface{}, error) {
+func (p *parser) callonListContinuationElement1905() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1867()
+	return p.cur.onListContinuationElement1905()
 }
 
-func (c *current) onListContinuationElement1873() (interface{}, error) {
+func (c *current) onListContinuationElement1911() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1873() (interface{}, error) {
+func (p *parser) callonListContinuationElement1911() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1873()
+	return p.cur.onListContinuationElement1911()
 }
 
-func (c *current) onListContinuationElement1876() (interface{}, error) {
+func (c *current) onListContinuationElement1914() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1876() (interface{}, error) {
+func (p *parser) callonListContinuationElement1914() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1876()
+	return p.cur.onListContinuationElement1914()
 }
 
-func (c *current) onListContinuationElement1864(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1902(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1864() (interface{}, error) {
+func (p *parser) callonListContinuationElement1902() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1864(stack["delimiter"])
+	return p.cur.onListContinuationElement1902(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1886() (interface{}, error) {
+func (c *current) onListContinuationElement1924() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1886() (interface{}, error) {
+func (p *parser) callonListContinuationElement1924() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1886()
+	return p.cur.onListContinuationElement1924()
 }
 
-func (c *current) onListContinuationElement1892() (interface{}, error) {
+func (c *current) onListContinuationElement1930() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1892() (interface{}, error) {
+func (p *parser) callonListContinuationElement1930() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1892()
+	return p.cur.onListContinuationElement1930()
 }
 
-func (c *current) onListContinuationElement1895() (interface{}, error) {
+func (c *current) onListContinuationElement1933() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1895() (interface{}, error) {
+func (p *parser) callonListContinuationElement1933() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1895()
+	return p.cur.onListContinuationElement1933()
 }
 
-func (c *current) onListContinuationElement1883(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1921(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1883() (interface{}, error) {
+func (p *parser) callonListContinuationElement1921() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1883(stack["delimiter"])
+	return p.cur.onListContinuationElement1921(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1905() (interface{}, error) {
+func (c *current) onListContinuationElement1943() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1905() (interface{}, error) {
+func (p *parser) callonListContinuationElement1943() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1905()
+	return p.cur.onListContinuationElement1943()
 }
 
-func (c *current) onListContinuationElement1911() (interface{}, error) {
+func (c *current) onListContinuationElement1949() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1911() (interface{}, error) {
+func (p *parser) callonListContinuationElement1949() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1911()
+	return p.cur.onListContinuationElement1949()
 }
 
-func (c *current) onListContinuationElement1914() (interface{}, error) {
+func (c *current) onListContinuationElement1952() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1914() (interface{}, error) {
+func (p *parser) callonListContinuationElement1952() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1914()
+	return p.cur.onListContinuationElement1952()
 }
 
-func (c *current) onListContinuationElement1902(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1940(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1902() (interface{}, error) {
+func (p *parser) callonListContinuationElement1940() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1902(stack["delimiter"])
+	return p.cur.onListContinuationElement1940(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1924() (interface{}, error) {
+func (c *current) onListContinuationElement1962() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1924() (interface{}, error) {
+func (p *parser) callonListContinuationElement1962() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1924()
+	return p.cur.onListContinuationElement1962()
 }
 
-func (c *current) onListContinuationElement1930() (interface{}, error) {
+func (c *current) onListContinuationElement1968() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1930() (interface{}, error) {
+func (p *parser) callonListContinuationElement1968() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1930()
+	return p.cur.onListContinuationElement1968()
 }
 
-func (c *current) onListContinuationElement1933() (interface{}, error) {
+func (c *current) onListContinuationElement1971() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1933() (interface{}, error) {
+func (p *parser) callonListContinuationElement1971() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1933()
+	return p.cur.onListContinuationElement1971()
 }
 
-func (c *current) onListContinuationElement1921(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1959(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1921() (interface{}, error) {
+func (p *parser) callonListContinuationElement1959() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1921(stack["delimiter"])
+	return p.cur.onListContinuationElement1959(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1943() (interface{}, error) {
+func (c *current) onListContinuationElement1981() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1943() (interface{}, error) {
+func (p *parser) callonListContinuationElement1981() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1943()
+	return p.cur.onListContinuationElement1981()
 }
 
-func (c *current) onListContinuationElement1949() (interface{}, error) {
+func (c *current) onListContinuationElement1987() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1949() (interface{}, error) {
+func (p *parser) callonListContinuationElement1987() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1949()
+	return p.cur.onListContinuationElement1987()
 }
 
-func (c *current) onListContinuationElement1952() (interface{}, error) {
+func (c *current) onListContinuationElement1990() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1952() (interface{}, error) {
+func (p *parser) callonListContinuationElement1990() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1952()
+	return p.cur.onListContinuationElement1990()
 }
 
-func (c *current) onListContinuationElement1940(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1978(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1940() (interface{}, error) {
+func (p *parser) callonListContinuationElement1978() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1940(stack["delimiter"])
+	return p.cur.onListContinuationElement1978(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1783(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1821(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1783() (interface{}, error) {
+func (p *parser) callonListContinuationElement1821() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1783(stack["delimiter"])
+	return p.cur.onListContinuationElement1821(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1960() (interface{}, error) {
+func (c *current) onListContinuationElement1998() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1960() (interface{}, error) {
+func (p *parser) callonListContinuationElement1998() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1960()
+	return p.cur.onListContinuationElement1998()
 }
 
-func (c *current) onListContinuationElement1964() (interface{}, error) {
+func (c *current) onListContinuationElement2002() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1964() (interface{}, error) {
+func (p *parser) callonListContinuationElement2002() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1964()
+	return p.cur.onListContinuationElement2002()
 }
 
-func (c *current) onListContinuationElement1654(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1692(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1654() (interface{}, error) {
+func (p *parser) callonListContinuationElement1692() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1654(stack["content"])
+	return p.cur.onListContinuationElement1692(stack["content"])
 }
 
-func (c *current) onListContinuationElement1629(style, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1667(style, content interface{}) (interface{}, error) {
 	return types.NewParagraph(style, content)
 
 }
 
-func (p *parser) callonListContinuationElement1629() (interface{}, error) {
+func (p *parser) callonListContinuationElement1667() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1629(stack["style"], stack["content"])
+	return p.cur.onListContinuationElement1667(stack["style"], stack["content"])
 }
 
 func (c *current) onListContinuationElement1(attributes, element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 146f87c..8b7fc5b 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -2644,7 +2644,7 @@ MultilineTableCells <- cells:(MultilineTableCell)+ {
 MultilineTableCell <- 
     !TableEndDelimiter
     !BlankLine
-    format:(TableCellFormat)? "|" Space* Newline? content:(MultilineTableCellContent)
+    format:(TableCellFormat)? "|" Space* (Newline SinglelineComment*)? content:(MultilineTableCellContent)
     {
         return types.NewMultilineTableCell(content.([]interface{}), format)
     }
@@ -2656,7 +2656,7 @@ MultilineTableCellContent <-
         !(format:(TableCellFormat)? "|")
         content:([^|\r\n]* {
             return string(c.text), nil
-        }) EOL? {
+        }) (EOL SinglelineComment*)? {
             return types.NewRawLine(content.(string))
         }
     )*
-- 
2.43.0


From 5c67de033e79bb5313b570ac12abab6ef73c9b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:00 +0000
Subject: [PATCH 056/108] fix: restore the placeholders in all inline elements

the placeholders of the elements parsed earlier were rendered (or rejected) within index terms, passthroughs, cross references, attributes and paths
---
 ...document_processing_apply_substitutions.go | 95 +++++++++++++++++++
 pkg/renderer/sgml/cross_reference.go          |  5 +
 2 files changed, 100 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 50c0039..26c0790 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"bytes"
 	"fmt"
+	"regexp"
 	"strconv"
 	"strings"
 	"time"
@@ -754,6 +755,9 @@ func serializePlainText(content interface{}) (string, error) {
 	}
 }
 
+// placeholderRegexp the placeholders in a text
+var placeholderRegexp = regexp.MustCompile(placeholderDelimiter + "([0-9]+)" + placeholderDelimiter)
+
 const (
 	// placeholderDelimiter the character around the ref of the placeholders
 	placeholderDelimiter = "\uFFFD"
@@ -838,6 +842,8 @@ func withoutComments(content interface{}) interface{} {
 func (p *placeholders) restore(elements []interface{}) ([]interface{}, error) {
 	for i, e := range elements {
 		switch e := e.(type) {
+		case string:
+			elements[i] = p.restoreInText(e)
 		case *types.ElementPlaceHolder:
 			original, found := p.elements[e.Ref]
 			if !found {
@@ -855,11 +861,100 @@ func (p *placeholders) restore(elements []interface{}) ([]interface{}, error) {
 			if err := e.SetElements(elmts); err != nil {
 				return nil, err
 			}
+			if err := p.restoreInAttributes(e.GetAttributes()); err != nil {
+				return nil, err
+			}
+		case *types.InlinePassthrough:
+			if _, err := p.restore(e.Elements); err != nil {
+				return nil, err
+			}
+		case *types.Footnote:
+			if _, err := p.restore(e.Elements); err != nil {
+				return nil, err
+			}
+		case *types.IndexTerm:
+			if _, err := p.restore(e.Term); err != nil {
+				return nil, err
+			}
+		case *types.InternalCrossReference:
+			if id, ok := e.ID.(string); ok {
+				e.ID = p.restoreInText(id)
+			}
+			if label, ok := e.Label.(string); ok {
+				e.Label = types.Reduce(p.split(label))
+			}
+		case types.WithLocation:
+			if err := p.restoreInAttributes(e.GetAttributes()); err != nil {
+				return nil, err
+			}
+			if err := p.restoreInLocation(e.GetLocation()); err != nil {
+				return nil, err
+			}
 		}
 	}
 	return elements, nil
 }
 
+func (p *placeholders) restoreInAttributes(attributes types.Attributes) error {
+	for name, value := range attributes {
+		v, err := p.restoreInValue(value)
+		if err != nil {
+			return err
+		}
+		attributes[name] = v
+	}
+	return nil
+}
+
+func (p *placeholders) restoreInLocation(location *types.Location) error {
+	if location == nil {
+		return nil
+	}
+	path, err := p.restoreInValue(location.Path)
+	location.Path = path
+	return err
+}
+
+func (p *placeholders) restoreInValue(value interface{}) (interface{}, error) {
+	switch value := value.(type) {
+	case string:
+		return p.restoreInText(value), nil
+	case types.Roles:
+		_, err := p.restore(value)
+		return value, err
+	case []interface{}:
+		return p.restore(value)
+	default:
+		return value, nil
+	}
+}
+
+// replace the placeholders with the text of their original element
+func (p *placeholders) restoreInText(text string) string {
+	result := &strings.Builder{}
+	for _, element := range p.split(text) {
+		if text, err := serializePlainText([]interface{}{element}); err == nil {
+			result.WriteString(text)
+		}
+	}
+	return result.String()
+}
+
+// split the text around the placeholders, which are replaced with their original element
+func (p *placeholders) split(text string) []interface{} {
+	elements := []interface{}{}
+	start := 0
+	for _, match := range placeholderRegexp.FindAllStringSubmatchIndex(text, -1) {
+		original, found := p.elements[text[match[2]:match[3]]]
+		if !found {
+			continue // characters of the document
+		}
+		elements = append(elements, &types.StringElement{Content: text[start:match[0]]}, original)
+		start = match[1]
+	}
+	return append(elements, &types.StringElement{Content: text[start:]})
+}
+
 // ----------------------------------------------
 // Support for experimental macros at parse time
 // ----------------------------------------------
diff --git a/pkg/renderer/sgml/cross_reference.go b/pkg/renderer/sgml/cross_reference.go
index 5b8a2a6..179aa80 100644
--- a/pkg/renderer/sgml/cross_reference.go
+++ b/pkg/renderer/sgml/cross_reference.go
@@ -23,6 +23,11 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 	}
 	if xrefLabel, ok := xref.Label.(string); ok {
 		label = xrefLabel
+	} else if xrefLabel, ok := xref.Label.([]interface{}); ok {
+		var err error
+		if label, err = r.renderInlineElements(ctx, xrefLabel); err != nil {
+			return "", err
+		}
 	} else if target, found := ctx.elementReferences[xrefID]; found {
 		switch t := target.(type) {
 		case string:
-- 
2.43.0


From c4a669d4d7ce6625c02a9518ce9ebf503bcfc177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:12 +0000
Subject: [PATCH 057/108] fix: support attribute references in quoted
 passthroughs

a reference to an attribute in the quoted text of a passthrough macro caused the whole document to be refused
---
 pkg/types/types.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 9ac0bf2..62fece1 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2950,12 +2950,39 @@ const (
 
 // NewInlinePassthrough returns a new passthrough
 func NewInlinePassthrough(kind PassthroughKind, elements []interface{}) (*InlinePassthrough, error) {
+	elements, err := withLiteralReferences(elements)
+	if err != nil {
+		return nil, err
+	}
 	return &InlinePassthrough{
 		Kind:     kind,
 		Elements: merge(elements...),
 	}, nil
 }
 
+// withLiteralReferences the references to attributes are not replaced in passthroughs
+func withLiteralReferences(elements []interface{}) ([]interface{}, error) {
+	for i, e := range elements {
+		switch e := e.(type) {
+		case *AttributeReference:
+			elements[i] = &StringElement{Content: e.rawText}
+		case *PredefinedAttribute:
+			elements[i] = &StringElement{Content: e.rawText}
+		case *CounterSubstitution:
+			elements[i] = &StringElement{Content: e.rawText}
+		case *QuotedText:
+			elmts, err := withLiteralReferences(e.Elements)
+			if err != nil {
+				return nil, err
+			}
+			if err := e.SetElements(elmts); err != nil {
+				return nil, err
+			}
+		}
+	}
+	return elements, nil
+}
+
 // ------------------------------------------
 // Inline Links
 // ------------------------------------------
-- 
2.43.0


From f8b62b74d65312bd15ac5f18191d7e190f4ae375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:34 +0000
Subject: [PATCH 058/108] fix: ignore comments which look like elements of
 labeled lists

the line comments with a separator of labeled lists (e.g. `// term:: description`) were rendered
---
 pkg/parser/parser.go  | 16122 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |     1 +
 2 files changed, 8146 insertions(+), 7977 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 0d0bd73..cd155ed 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90683},
+														pos: position{line: 2865, col: 10, offset: 90715},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90683},
+															pos:        position{line: 2865, col: 10, offset: 90715},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91081},
+													pos: position{line: 2887, col: 8, offset: 91113},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90854},
+															pos: position{line: 2874, col: 12, offset: 90886},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90855},
+																pos: position{line: 2874, col: 13, offset: 90887},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90855},
+																		pos:        position{line: 2874, col: 13, offset: 90887},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90862},
+																		pos:        position{line: 2874, col: 20, offset: 90894},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90871},
+																		pos:        position{line: 2874, col: 29, offset: 90903},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 91031},
+															pos: position{line: 2884, col: 8, offset: 91063},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 91032,
+																line: 2884, col: 9, offset: 91064,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90683},
+														pos: position{line: 2865, col: 10, offset: 90715},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90683},
+															pos:        position{line: 2865, col: 10, offset: 90715},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91081},
+													pos: position{line: 2887, col: 8, offset: 91113},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90854},
+															pos: position{line: 2874, col: 12, offset: 90886},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90855},
+																pos: position{line: 2874, col: 13, offset: 90887},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90855},
+																		pos:        position{line: 2874, col: 13, offset: 90887},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90862},
+																		pos:        position{line: 2874, col: 20, offset: 90894},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90871},
+																		pos:        position{line: 2874, col: 29, offset: 90903},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 91031},
+															pos: position{line: 2884, col: 8, offset: 91063},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 91032,
+																line: 2884, col: 9, offset: 91064,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90683},
+														pos: position{line: 2865, col: 10, offset: 90715},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90683},
+															pos:        position{line: 2865, col: 10, offset: 90715},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2883, col: 8, offset: 91031},
+													pos: position{line: 2884, col: 8, offset: 91063},
 													expr: &anyMatcher{
-														line: 2883, col: 9, offset: 91032,
+														line: 2884, col: 9, offset: 91064,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90683},
+														pos: position{line: 2865, col: 10, offset: 90715},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90683},
+															pos:        position{line: 2865, col: 10, offset: 90715},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2883, col: 8, offset: 91031},
+													pos: position{line: 2884, col: 8, offset: 91063},
 													expr: &anyMatcher{
-														line: 2883, col: 9, offset: 91032,
+														line: 2884, col: 9, offset: 91064,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2856, col: 12, offset: 90510},
+																pos: position{line: 2857, col: 12, offset: 90542},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2856, col: 13, offset: 90511},
+																	pos: position{line: 2857, col: 13, offset: 90543},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2856, col: 13, offset: 90511},
+																			pos: position{line: 2857, col: 13, offset: 90543},
 																			expr: &litMatcher{
-																				pos:        position{line: 2856, col: 13, offset: 90511},
+																				pos:        position{line: 2857, col: 13, offset: 90543},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2856, col: 18, offset: 90516},
+																			pos: position{line: 2857, col: 18, offset: 90548},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2856, col: 18, offset: 90516},
+																				pos:        position{line: 2857, col: 18, offset: 90548},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90683},
+														pos: position{line: 2865, col: 10, offset: 90715},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90683},
+															pos:        position{line: 2865, col: 10, offset: 90715},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90683},
+														pos: position{line: 2865, col: 10, offset: 90715},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90683},
+															pos:        position{line: 2865, col: 10, offset: 90715},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2856, col: 12, offset: 90510},
+																pos: position{line: 2857, col: 12, offset: 90542},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2856, col: 13, offset: 90511},
+																	pos: position{line: 2857, col: 13, offset: 90543},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2856, col: 13, offset: 90511},
+																			pos: position{line: 2857, col: 13, offset: 90543},
 																			expr: &litMatcher{
-																				pos:        position{line: 2856, col: 13, offset: 90511},
+																				pos:        position{line: 2857, col: 13, offset: 90543},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2856, col: 18, offset: 90516},
+																			pos: position{line: 2857, col: 18, offset: 90548},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2856, col: 18, offset: 90516},
+																				pos:        position{line: 2857, col: 18, offset: 90548},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90683},
+														pos: position{line: 2865, col: 10, offset: 90715},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90683},
+															pos:        position{line: 2865, col: 10, offset: 90715},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2883, col: 8, offset: 91031},
+													pos: position{line: 2884, col: 8, offset: 91063},
 													expr: &anyMatcher{
-														line: 2883, col: 9, offset: 91032,
+														line: 2884, col: 9, offset: 91064,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90683},
+														pos: position{line: 2865, col: 10, offset: 90715},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90683},
+															pos:        position{line: 2865, col: 10, offset: 90715},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2883, col: 8, offset: 91031},
+													pos: position{line: 2884, col: 8, offset: 91063},
 													expr: &anyMatcher{
-														line: 2883, col: 9, offset: 91032,
+														line: 2884, col: 9, offset: 91064,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 724, col: 5, offset: 23042},
 													expr: &charClassMatcher{
-														pos:        position{line: 2754, col: 13, offset: 87778},
+														pos:        position{line: 2755, col: 13, offset: 87810},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 742, col: 8, offset: 23686},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90683},
+																				pos: position{line: 2865, col: 10, offset: 90715},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90683},
+																					pos:        position{line: 2865, col: 10, offset: 90715},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91081},
+																			pos: position{line: 2887, col: 8, offset: 91113},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90854},
+																					pos: position{line: 2874, col: 12, offset: 90886},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90855},
+																						pos: position{line: 2874, col: 13, offset: 90887},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90855},
+																								pos:        position{line: 2874, col: 13, offset: 90887},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90862},
+																								pos:        position{line: 2874, col: 20, offset: 90894},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90871},
+																								pos:        position{line: 2874, col: 29, offset: 90903},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 749, col: 8, offset: 23934},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90683},
+																				pos: position{line: 2865, col: 10, offset: 90715},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90683},
+																					pos:        position{line: 2865, col: 10, offset: 90715},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91081},
+																			pos: position{line: 2887, col: 8, offset: 91113},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90854},
+																					pos: position{line: 2874, col: 12, offset: 90886},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90855},
+																						pos: position{line: 2874, col: 13, offset: 90887},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90855},
+																								pos:        position{line: 2874, col: 13, offset: 90887},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90862},
+																								pos:        position{line: 2874, col: 20, offset: 90894},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90871},
+																								pos:        position{line: 2874, col: 29, offset: 90903},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 760, col: 52, offset: 24346},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90683},
+																				pos: position{line: 2865, col: 10, offset: 90715},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90683},
+																					pos:        position{line: 2865, col: 10, offset: 90715},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91081},
+																			pos: position{line: 2887, col: 8, offset: 91113},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90854},
+																					pos: position{line: 2874, col: 12, offset: 90886},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90855},
+																						pos: position{line: 2874, col: 13, offset: 90887},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90855},
+																								pos:        position{line: 2874, col: 13, offset: 90887},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90862},
+																								pos:        position{line: 2874, col: 20, offset: 90894},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90871},
+																								pos:        position{line: 2874, col: 29, offset: 90903},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 756, col: 8, offset: 24180},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90683},
+																				pos: position{line: 2865, col: 10, offset: 90715},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90683},
+																					pos:        position{line: 2865, col: 10, offset: 90715},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91081},
+																			pos: position{line: 2887, col: 8, offset: 91113},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90854},
+																					pos: position{line: 2874, col: 12, offset: 90886},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90855},
+																						pos: position{line: 2874, col: 13, offset: 90887},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90855},
+																								pos:        position{line: 2874, col: 13, offset: 90887},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90862},
+																								pos:        position{line: 2874, col: 20, offset: 90894},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90871},
+																								pos:        position{line: 2874, col: 29, offset: 90903},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 771, col: 8, offset: 24718},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90683},
+																				pos: position{line: 2865, col: 10, offset: 90715},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90683},
+																					pos:        position{line: 2865, col: 10, offset: 90715},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91081},
+																			pos: position{line: 2887, col: 8, offset: 91113},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90854},
+																					pos: position{line: 2874, col: 12, offset: 90886},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90855},
+																						pos: position{line: 2874, col: 13, offset: 90887},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90855},
+																								pos:        position{line: 2874, col: 13, offset: 90887},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90862},
+																								pos:        position{line: 2874, col: 20, offset: 90894},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90871},
+																								pos:        position{line: 2874, col: 29, offset: 90903},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 785, col: 8, offset: 25194},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90683},
+																				pos: position{line: 2865, col: 10, offset: 90715},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90683},
+																					pos:        position{line: 2865, col: 10, offset: 90715},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91081},
+																			pos: position{line: 2887, col: 8, offset: 91113},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90854},
+																					pos: position{line: 2874, col: 12, offset: 90886},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90855},
+																						pos: position{line: 2874, col: 13, offset: 90887},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90855},
+																								pos:        position{line: 2874, col: 13, offset: 90887},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90862},
+																								pos:        position{line: 2874, col: 20, offset: 90894},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90871},
+																								pos:        position{line: 2874, col: 29, offset: 90903},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 792, col: 8, offset: 25446},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90683},
+																				pos: position{line: 2865, col: 10, offset: 90715},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90683},
+																					pos:        position{line: 2865, col: 10, offset: 90715},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91081},
+																			pos: position{line: 2887, col: 8, offset: 91113},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90854},
+																					pos: position{line: 2874, col: 12, offset: 90886},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90855},
+																						pos: position{line: 2874, col: 13, offset: 90887},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90855},
+																								pos:        position{line: 2874, col: 13, offset: 90887},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90862},
+																								pos:        position{line: 2874, col: 20, offset: 90894},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90871},
+																								pos:        position{line: 2874, col: 29, offset: 90903},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 799, col: 8, offset: 25696},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90683},
+																				pos: position{line: 2865, col: 10, offset: 90715},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90683},
+																					pos:        position{line: 2865, col: 10, offset: 90715},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91081},
+																			pos: position{line: 2887, col: 8, offset: 91113},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90854},
+																					pos: position{line: 2874, col: 12, offset: 90886},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90855},
+																						pos: position{line: 2874, col: 13, offset: 90887},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90855},
+																								pos:        position{line: 2874, col: 13, offset: 90887},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90862},
+																								pos:        position{line: 2874, col: 20, offset: 90894},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90871},
+																								pos:        position{line: 2874, col: 29, offset: 90903},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 806, col: 8, offset: 25942},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90683},
+																				pos: position{line: 2865, col: 10, offset: 90715},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90683},
+																					pos:        position{line: 2865, col: 10, offset: 90715},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91081},
+																			pos: position{line: 2887, col: 8, offset: 91113},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90854},
+																					pos: position{line: 2874, col: 12, offset: 90886},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90855},
+																						pos: position{line: 2874, col: 13, offset: 90887},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90855},
+																								pos:        position{line: 2874, col: 13, offset: 90887},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90862},
+																								pos:        position{line: 2874, col: 20, offset: 90894},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90871},
+																								pos:        position{line: 2874, col: 29, offset: 90903},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2868, col: 11, offset: 90744},
+													pos: position{line: 2869, col: 11, offset: 90776},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2868, col: 11, offset: 90744},
+														pos: position{line: 2869, col: 11, offset: 90776},
 														expr: &charClassMatcher{
-															pos:        position{line: 2868, col: 11, offset: 90744},
+															pos:        position{line: 2869, col: 11, offset: 90776},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2814, col: 14, offset: 89276},
+													pos: position{line: 2815, col: 14, offset: 89308},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2814, col: 14, offset: 89276},
+														pos: position{line: 2815, col: 14, offset: 89308},
 														expr: &charClassMatcher{
-															pos:        position{line: 2814, col: 14, offset: 89276},
+															pos:        position{line: 2815, col: 14, offset: 89308},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2883, col: 8, offset: 91031},
+													pos: position{line: 2884, col: 8, offset: 91063},
 													expr: &anyMatcher{
-														line: 2883, col: 9, offset: 91032,
+														line: 2884, col: 9, offset: 91064,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2883, col: 8, offset: 91031},
+							pos: position{line: 2884, col: 8, offset: 91063},
 							expr: &anyMatcher{
-								line: 2883, col: 9, offset: 91032,
+								line: 2884, col: 9, offset: 91064,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2818, col: 17, offset: 89346},
+												pos: position{line: 2819, col: 17, offset: 89378},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2818, col: 17, offset: 89346},
+													pos:   position{line: 2819, col: 17, offset: 89378},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2835, col: 5, offset: 89800},
+														pos: position{line: 2836, col: 5, offset: 89832},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2835, col: 5, offset: 89800},
+															pos:   position{line: 2836, col: 5, offset: 89832},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2835, col: 14, offset: 89809},
+																pos: position{line: 2836, col: 14, offset: 89841},
 																expr: &choiceExpr{
-																	pos: position{line: 2836, col: 9, offset: 89819},
+																	pos: position{line: 2837, col: 9, offset: 89851},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2836, col: 9, offset: 89819},
+																			pos: position{line: 2837, col: 9, offset: 89851},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2836, col: 9, offset: 89819},
+																				pos: position{line: 2837, col: 9, offset: 89851},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2836, col: 9, offset: 89819},
+																						pos: position{line: 2837, col: 9, offset: 89851},
 																						expr: &litMatcher{
-																							pos:        position{line: 2836, col: 10, offset: 89820},
+																							pos:        position{line: 2837, col: 10, offset: 89852},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2837, col: 9, offset: 89848},
+																						pos: position{line: 2838, col: 9, offset: 89880},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2837, col: 10, offset: 89849},
+																							pos:        position{line: 2838, col: 10, offset: 89881},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2840, col: 11, offset: 90061},
+																			pos: position{line: 2841, col: 11, offset: 90093},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2840, col: 11, offset: 90061},
+																					pos:        position{line: 2841, col: 11, offset: 90093},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2840, col: 19, offset: 90069},
+																					pos: position{line: 2841, col: 19, offset: 90101},
 																					expr: &seqExpr{
-																						pos: position{line: 2840, col: 21, offset: 90071},
+																						pos: position{line: 2841, col: 21, offset: 90103},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2840, col: 21, offset: 90071},
+																								pos: position{line: 2841, col: 21, offset: 90103},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90683},
+																									pos: position{line: 2865, col: 10, offset: 90715},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90683},
+																										pos:        position{line: 2865, col: 10, offset: 90715},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2840, col: 28, offset: 90078},
+																								pos: position{line: 2841, col: 28, offset: 90110},
 																								expr: &notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2843, col: 11, offset: 90198},
+																			pos: position{line: 2844, col: 11, offset: 90230},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2843, col: 11, offset: 90198},
+																				pos:        position{line: 2844, col: 11, offset: 90230},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90683},
+								pos: position{line: 2865, col: 10, offset: 90715},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90683},
+									pos:        position{line: 2865, col: 10, offset: 90715},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2886, col: 8, offset: 91081},
+							pos: position{line: 2887, col: 8, offset: 91113},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2873, col: 12, offset: 90854},
+									pos: position{line: 2874, col: 12, offset: 90886},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2873, col: 13, offset: 90855},
+										pos: position{line: 2874, col: 13, offset: 90887},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2873, col: 13, offset: 90855},
+												pos:        position{line: 2874, col: 13, offset: 90887},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 20, offset: 90862},
+												pos:        position{line: 2874, col: 20, offset: 90894},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 29, offset: 90871},
+												pos:        position{line: 2874, col: 29, offset: 90903},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2883, col: 8, offset: 91031},
+									pos: position{line: 2884, col: 8, offset: 91063},
 									expr: &anyMatcher{
-										line: 2883, col: 9, offset: 91032,
+										line: 2884, col: 9, offset: 91064,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2856, col: 12, offset: 90510},
+																				pos: position{line: 2857, col: 12, offset: 90542},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2856, col: 13, offset: 90511},
+																					pos: position{line: 2857, col: 13, offset: 90543},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2856, col: 13, offset: 90511},
+																							pos: position{line: 2857, col: 13, offset: 90543},
 																							expr: &litMatcher{
-																								pos:        position{line: 2856, col: 13, offset: 90511},
+																								pos:        position{line: 2857, col: 13, offset: 90543},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2856, col: 18, offset: 90516},
+																							pos: position{line: 2857, col: 18, offset: 90548},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2856, col: 18, offset: 90516},
+																								pos:        position{line: 2857, col: 18, offset: 90548},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2856, col: 12, offset: 90510},
+																				pos: position{line: 2857, col: 12, offset: 90542},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2856, col: 13, offset: 90511},
+																					pos: position{line: 2857, col: 13, offset: 90543},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2856, col: 13, offset: 90511},
+																							pos: position{line: 2857, col: 13, offset: 90543},
 																							expr: &litMatcher{
-																								pos:        position{line: 2856, col: 13, offset: 90511},
+																								pos:        position{line: 2857, col: 13, offset: 90543},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2856, col: 18, offset: 90516},
+																							pos: position{line: 2857, col: 18, offset: 90548},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2856, col: 18, offset: 90516},
+																								pos:        position{line: 2857, col: 18, offset: 90548},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2856, col: 12, offset: 90510},
+																		pos: position{line: 2857, col: 12, offset: 90542},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2856, col: 13, offset: 90511},
+																			pos: position{line: 2857, col: 13, offset: 90543},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2856, col: 13, offset: 90511},
+																					pos: position{line: 2857, col: 13, offset: 90543},
 																					expr: &litMatcher{
-																						pos:        position{line: 2856, col: 13, offset: 90511},
+																						pos:        position{line: 2857, col: 13, offset: 90543},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2856, col: 18, offset: 90516},
+																					pos: position{line: 2857, col: 18, offset: 90548},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2856, col: 18, offset: 90516},
+																						pos:        position{line: 2857, col: 18, offset: 90548},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2856, col: 12, offset: 90510},
+																									pos: position{line: 2857, col: 12, offset: 90542},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2856, col: 13, offset: 90511},
+																										pos: position{line: 2857, col: 13, offset: 90543},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2856, col: 13, offset: 90511},
+																												pos: position{line: 2857, col: 13, offset: 90543},
 																												expr: &litMatcher{
-																													pos:        position{line: 2856, col: 13, offset: 90511},
+																													pos:        position{line: 2857, col: 13, offset: 90543},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2856, col: 18, offset: 90516},
+																												pos: position{line: 2857, col: 18, offset: 90548},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2856, col: 18, offset: 90516},
+																													pos:        position{line: 2857, col: 18, offset: 90548},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2856, col: 12, offset: 90510},
+																									pos: position{line: 2857, col: 12, offset: 90542},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2856, col: 13, offset: 90511},
+																										pos: position{line: 2857, col: 13, offset: 90543},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2856, col: 13, offset: 90511},
+																												pos: position{line: 2857, col: 13, offset: 90543},
 																												expr: &litMatcher{
-																													pos:        position{line: 2856, col: 13, offset: 90511},
+																													pos:        position{line: 2857, col: 13, offset: 90543},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2856, col: 18, offset: 90516},
+																												pos: position{line: 2857, col: 18, offset: 90548},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2856, col: 18, offset: 90516},
+																													pos:        position{line: 2857, col: 18, offset: 90548},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2856, col: 12, offset: 90510},
+																							pos: position{line: 2857, col: 12, offset: 90542},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2856, col: 13, offset: 90511},
+																								pos: position{line: 2857, col: 13, offset: 90543},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2856, col: 13, offset: 90511},
+																										pos: position{line: 2857, col: 13, offset: 90543},
 																										expr: &litMatcher{
-																											pos:        position{line: 2856, col: 13, offset: 90511},
+																											pos:        position{line: 2857, col: 13, offset: 90543},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2856, col: 18, offset: 90516},
+																										pos: position{line: 2857, col: 18, offset: 90548},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2856, col: 18, offset: 90516},
+																											pos:        position{line: 2857, col: 18, offset: 90548},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2856, col: 12, offset: 90510},
+														pos: position{line: 2857, col: 12, offset: 90542},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2856, col: 13, offset: 90511},
+															pos: position{line: 2857, col: 13, offset: 90543},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2856, col: 13, offset: 90511},
+																	pos: position{line: 2857, col: 13, offset: 90543},
 																	expr: &litMatcher{
-																		pos:        position{line: 2856, col: 13, offset: 90511},
+																		pos:        position{line: 2857, col: 13, offset: 90543},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2856, col: 18, offset: 90516},
+																	pos: position{line: 2857, col: 18, offset: 90548},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2856, col: 18, offset: 90516},
+																		pos:        position{line: 2857, col: 18, offset: 90548},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2856, col: 12, offset: 90510},
+														pos: position{line: 2857, col: 12, offset: 90542},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2856, col: 13, offset: 90511},
+															pos: position{line: 2857, col: 13, offset: 90543},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2856, col: 13, offset: 90511},
+																	pos: position{line: 2857, col: 13, offset: 90543},
 																	expr: &litMatcher{
-																		pos:        position{line: 2856, col: 13, offset: 90511},
+																		pos:        position{line: 2857, col: 13, offset: 90543},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2856, col: 18, offset: 90516},
+																	pos: position{line: 2857, col: 18, offset: 90548},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2856, col: 18, offset: 90516},
+																		pos:        position{line: 2857, col: 18, offset: 90548},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2856, col: 12, offset: 90510},
+												pos: position{line: 2857, col: 12, offset: 90542},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2856, col: 13, offset: 90511},
+													pos: position{line: 2857, col: 13, offset: 90543},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2856, col: 13, offset: 90511},
+															pos: position{line: 2857, col: 13, offset: 90543},
 															expr: &litMatcher{
-																pos:        position{line: 2856, col: 13, offset: 90511},
+																pos:        position{line: 2857, col: 13, offset: 90543},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2856, col: 18, offset: 90516},
+															pos: position{line: 2857, col: 18, offset: 90548},
 															expr: &charClassMatcher{
-																pos:        position{line: 2856, col: 18, offset: 90516},
+																pos:        position{line: 2857, col: 18, offset: 90548},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2883, col: 8, offset: 91031},
+							pos: position{line: 2884, col: 8, offset: 91063},
 							expr: &anyMatcher{
-								line: 2883, col: 9, offset: 91032,
+								line: 2884, col: 9, offset: 91064,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2758, col: 14, offset: 87852},
+																		pos: position{line: 2759, col: 14, offset: 87884},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2758, col: 14, offset: 87852},
+																			pos: position{line: 2759, col: 14, offset: 87884},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2758, col: 14, offset: 87852},
+																				pos:        position{line: 2759, col: 14, offset: 87884},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2758, col: 14, offset: 87852},
+																				pos: position{line: 2759, col: 14, offset: 87884},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2758, col: 14, offset: 87852},
+																					pos: position{line: 2759, col: 14, offset: 87884},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2758, col: 14, offset: 87852},
+																						pos:        position{line: 2759, col: 14, offset: 87884},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2758, col: 14, offset: 87852},
+																							pos: position{line: 2759, col: 14, offset: 87884},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2758, col: 14, offset: 87852},
+																								pos: position{line: 2759, col: 14, offset: 87884},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2758, col: 14, offset: 87852},
+																									pos:        position{line: 2759, col: 14, offset: 87884},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2758, col: 14, offset: 87852},
+																									pos: position{line: 2759, col: 14, offset: 87884},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2758, col: 14, offset: 87852},
+																										pos: position{line: 2759, col: 14, offset: 87884},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2758, col: 14, offset: 87852},
+																											pos:        position{line: 2759, col: 14, offset: 87884},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2883, col: 8, offset: 91031},
+							pos: position{line: 2884, col: 8, offset: 91063},
 							expr: &anyMatcher{
-								line: 2883, col: 9, offset: 91032,
+								line: 2884, col: 9, offset: 91064,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2758, col: 14, offset: 87852},
+																pos: position{line: 2759, col: 14, offset: 87884},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2758, col: 14, offset: 87852},
+																	pos: position{line: 2759, col: 14, offset: 87884},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2758, col: 14, offset: 87852},
+																		pos:        position{line: 2759, col: 14, offset: 87884},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2758, col: 14, offset: 87852},
+																pos: position{line: 2759, col: 14, offset: 87884},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2758, col: 14, offset: 87852},
+																	pos: position{line: 2759, col: 14, offset: 87884},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2758, col: 14, offset: 87852},
+																		pos:        position{line: 2759, col: 14, offset: 87884},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2886, col: 8, offset: 91081},
+							pos: position{line: 2887, col: 8, offset: 91113},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2873, col: 12, offset: 90854},
+									pos: position{line: 2874, col: 12, offset: 90886},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2873, col: 13, offset: 90855},
+										pos: position{line: 2874, col: 13, offset: 90887},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2873, col: 13, offset: 90855},
+												pos:        position{line: 2874, col: 13, offset: 90887},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 20, offset: 90862},
+												pos:        position{line: 2874, col: 20, offset: 90894},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 29, offset: 90871},
+												pos:        position{line: 2874, col: 29, offset: 90903},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2883, col: 8, offset: 91031},
+									pos: position{line: 2884, col: 8, offset: 91063},
 									expr: &anyMatcher{
-										line: 2883, col: 9, offset: 91032,
+										line: 2884, col: 9, offset: 91064,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2881, col: 11, offset: 91017},
+							pos: position{line: 2882, col: 11, offset: 91049},
 							expr: &anyMatcher{
-								line: 2881, col: 13, offset: 91019,
+								line: 2882, col: 13, offset: 91051,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2864, col: 10, offset: 90683},
+															pos: position{line: 2865, col: 10, offset: 90715},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2864, col: 10, offset: 90683},
+																pos:        position{line: 2865, col: 10, offset: 90715},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2886, col: 8, offset: 91081},
+														pos: position{line: 2887, col: 8, offset: 91113},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90854},
+																pos: position{line: 2874, col: 12, offset: 90886},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90855},
+																	pos: position{line: 2874, col: 13, offset: 90887},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90855},
+																			pos:        position{line: 2874, col: 13, offset: 90887},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90862},
+																			pos:        position{line: 2874, col: 20, offset: 90894},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90871},
+																			pos:        position{line: 2874, col: 29, offset: 90903},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 91031},
+																pos: position{line: 2884, col: 8, offset: 91063},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 91032,
+																	line: 2884, col: 9, offset: 91064,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2864, col: 10, offset: 90683},
+															pos: position{line: 2865, col: 10, offset: 90715},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2864, col: 10, offset: 90683},
+																pos:        position{line: 2865, col: 10, offset: 90715},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2886, col: 8, offset: 91081},
+														pos: position{line: 2887, col: 8, offset: 91113},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90854},
+																pos: position{line: 2874, col: 12, offset: 90886},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90855},
+																	pos: position{line: 2874, col: 13, offset: 90887},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90855},
+																			pos:        position{line: 2874, col: 13, offset: 90887},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90862},
+																			pos:        position{line: 2874, col: 20, offset: 90894},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90871},
+																			pos:        position{line: 2874, col: 29, offset: 90903},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 91031},
+																pos: position{line: 2884, col: 8, offset: 91063},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 91032,
+																	line: 2884, col: 9, offset: 91064,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 677, col: 14, offset: 21489},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2881, col: 11, offset: 91017},
+														pos: position{line: 2882, col: 11, offset: 91049},
 														expr: &anyMatcher{
-															line: 2881, col: 13, offset: 91019,
+															line: 2882, col: 13, offset: 91051,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 677, col: 21, offset: 21496},
 														expr: &actionExpr{
-															pos: position{line: 2864, col: 10, offset: 90683},
+															pos: position{line: 2865, col: 10, offset: 90715},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2864, col: 10, offset: 90683},
+																pos:        position{line: 2865, col: 10, offset: 90715},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2886, col: 8, offset: 91081},
+														pos: position{line: 2887, col: 8, offset: 91113},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90854},
+																pos: position{line: 2874, col: 12, offset: 90886},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90855},
+																	pos: position{line: 2874, col: 13, offset: 90887},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90855},
+																			pos:        position{line: 2874, col: 13, offset: 90887},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90862},
+																			pos:        position{line: 2874, col: 20, offset: 90894},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90871},
+																			pos:        position{line: 2874, col: 29, offset: 90903},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 91031},
+																pos: position{line: 2884, col: 8, offset: 91063},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 91032,
+																	line: 2884, col: 9, offset: 91064,
 																},
 															},
 														},
@@ -4456,10 +4456,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 742, col: 8, offset: 23686},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90683},
+																			pos: position{line: 2865, col: 10, offset: 90715},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90683},
+																				pos:        position{line: 2865, col: 10, offset: 90715},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91081},
+																		pos: position{line: 2887, col: 8, offset: 91113},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90854},
+																				pos: position{line: 2874, col: 12, offset: 90886},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90855},
+																					pos: position{line: 2874, col: 13, offset: 90887},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90855},
+																							pos:        position{line: 2874, col: 13, offset: 90887},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90862},
+																							pos:        position{line: 2874, col: 20, offset: 90894},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90871},
+																							pos:        position{line: 2874, col: 29, offset: 90903},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 91031},
+																				pos: position{line: 2884, col: 8, offset: 91063},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 91032,
+																					line: 2884, col: 9, offset: 91064,
 																				},
 																			},
 																		},
@@ -4572,10 +4572,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 742, col: 8, offset: 23686},
 																												expr: &actionExpr{
-																													pos: position{line: 2864, col: 10, offset: 90683},
+																													pos: position{line: 2865, col: 10, offset: 90715},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2864, col: 10, offset: 90683},
+																														pos:        position{line: 2865, col: 10, offset: 90715},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2886, col: 8, offset: 91081},
+																												pos: position{line: 2887, col: 8, offset: 91113},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2873, col: 12, offset: 90854},
+																														pos: position{line: 2874, col: 12, offset: 90886},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2873, col: 13, offset: 90855},
+																															pos: position{line: 2874, col: 13, offset: 90887},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 13, offset: 90855},
+																																	pos:        position{line: 2874, col: 13, offset: 90887},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 20, offset: 90862},
+																																	pos:        position{line: 2874, col: 20, offset: 90894},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 29, offset: 90871},
+																																	pos:        position{line: 2874, col: 29, offset: 90903},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2883, col: 8, offset: 91031},
+																														pos: position{line: 2884, col: 8, offset: 91063},
 																														expr: &anyMatcher{
-																															line: 2883, col: 9, offset: 91032,
+																															line: 2884, col: 9, offset: 91064,
 																														},
 																													},
 																												},
@@ -4632,9 +4632,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 91031},
+																						pos: position{line: 2884, col: 8, offset: 91063},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 91032,
+																							line: 2884, col: 9, offset: 91064,
 																						},
 																					},
 																				},
@@ -4650,21 +4650,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 91017},
+																							pos: position{line: 2882, col: 11, offset: 91049},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 91019,
+																								line: 2882, col: 13, offset: 91051,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2810, col: 13, offset: 89209},
+																								pos: position{line: 2811, col: 13, offset: 89241},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2810, col: 13, offset: 89209},
+																									pos: position{line: 2811, col: 13, offset: 89241},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2810, col: 13, offset: 89209},
+																										pos:        position{line: 2811, col: 13, offset: 89241},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
+																									pos: position{line: 2874, col: 12, offset: 90886},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -4771,10 +4771,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90683},
+																									pos: position{line: 2865, col: 10, offset: 90715},
 																									run: (*parser).callonDocumentFragment159,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90683},
+																										pos:        position{line: 2865, col: 10, offset: 90715},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -4783,28 +4783,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91081},
+																								pos: position{line: 2887, col: 8, offset: 91113},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90854},
+																										pos: position{line: 2874, col: 12, offset: 90886},
 																										run: (*parser).callonDocumentFragment162,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90855},
+																											pos: position{line: 2874, col: 13, offset: 90887},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90855},
+																													pos:        position{line: 2874, col: 13, offset: 90887},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90862},
+																													pos:        position{line: 2874, col: 20, offset: 90894},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90871},
+																													pos:        position{line: 2874, col: 29, offset: 90903},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -4813,9 +4813,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 91031},
+																										pos: position{line: 2884, col: 8, offset: 91063},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 91032,
+																											line: 2884, col: 9, offset: 91064,
 																										},
 																									},
 																								},
@@ -4831,9 +4831,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 91031},
+																		pos: position{line: 2884, col: 8, offset: 91063},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 91032,
+																			line: 2884, col: 9, offset: 91064,
 																		},
 																	},
 																},
@@ -4889,10 +4889,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 749, col: 8, offset: 23934},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90683},
+																			pos: position{line: 2865, col: 10, offset: 90715},
 																			run: (*parser).callonDocumentFragment184,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90683},
+																				pos:        position{line: 2865, col: 10, offset: 90715},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4901,28 +4901,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91081},
+																		pos: position{line: 2887, col: 8, offset: 91113},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90854},
+																				pos: position{line: 2874, col: 12, offset: 90886},
 																				run: (*parser).callonDocumentFragment187,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90855},
+																					pos: position{line: 2874, col: 13, offset: 90887},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90855},
+																							pos:        position{line: 2874, col: 13, offset: 90887},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90862},
+																							pos:        position{line: 2874, col: 20, offset: 90894},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90871},
+																							pos:        position{line: 2874, col: 29, offset: 90903},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4931,9 +4931,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 91031},
+																				pos: position{line: 2884, col: 8, offset: 91063},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 91032,
+																					line: 2884, col: 9, offset: 91064,
 																				},
 																			},
 																		},
@@ -5005,10 +5005,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 749, col: 8, offset: 23934},
 																												expr: &actionExpr{
-																													pos: position{line: 2864, col: 10, offset: 90683},
+																													pos: position{line: 2865, col: 10, offset: 90715},
 																													run: (*parser).callonDocumentFragment212,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2864, col: 10, offset: 90683},
+																														pos:        position{line: 2865, col: 10, offset: 90715},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5017,28 +5017,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2886, col: 8, offset: 91081},
+																												pos: position{line: 2887, col: 8, offset: 91113},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2873, col: 12, offset: 90854},
+																														pos: position{line: 2874, col: 12, offset: 90886},
 																														run: (*parser).callonDocumentFragment215,
 																														expr: &choiceExpr{
-																															pos: position{line: 2873, col: 13, offset: 90855},
+																															pos: position{line: 2874, col: 13, offset: 90887},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 13, offset: 90855},
+																																	pos:        position{line: 2874, col: 13, offset: 90887},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 20, offset: 90862},
+																																	pos:        position{line: 2874, col: 20, offset: 90894},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 29, offset: 90871},
+																																	pos:        position{line: 2874, col: 29, offset: 90903},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5047,9 +5047,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2883, col: 8, offset: 91031},
+																														pos: position{line: 2884, col: 8, offset: 91063},
 																														expr: &anyMatcher{
-																															line: 2883, col: 9, offset: 91032,
+																															line: 2884, col: 9, offset: 91064,
 																														},
 																													},
 																												},
@@ -5065,9 +5065,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 91031},
+																						pos: position{line: 2884, col: 8, offset: 91063},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 91032,
+																							line: 2884, col: 9, offset: 91064,
 																						},
 																					},
 																				},
@@ -5083,21 +5083,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 91017},
+																							pos: position{line: 2882, col: 11, offset: 91049},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 91019,
+																								line: 2882, col: 13, offset: 91051,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2810, col: 13, offset: 89209},
+																								pos: position{line: 2811, col: 13, offset: 89241},
 																								run: (*parser).callonDocumentFragment231,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2810, col: 13, offset: 89209},
+																									pos: position{line: 2811, col: 13, offset: 89241},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2810, col: 13, offset: 89209},
+																										pos:        position{line: 2811, col: 13, offset: 89241},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5107,28 +5107,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
+																									pos: position{line: 2874, col: 12, offset: 90886},
 																									run: (*parser).callonDocumentFragment235,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5137,9 +5137,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -5204,10 +5204,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 749, col: 8, offset: 23934},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90683},
+																									pos: position{line: 2865, col: 10, offset: 90715},
 																									run: (*parser).callonDocumentFragment256,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90683},
+																										pos:        position{line: 2865, col: 10, offset: 90715},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5216,28 +5216,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91081},
+																								pos: position{line: 2887, col: 8, offset: 91113},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90854},
+																										pos: position{line: 2874, col: 12, offset: 90886},
 																										run: (*parser).callonDocumentFragment259,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90855},
+																											pos: position{line: 2874, col: 13, offset: 90887},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90855},
+																													pos:        position{line: 2874, col: 13, offset: 90887},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90862},
+																													pos:        position{line: 2874, col: 20, offset: 90894},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90871},
+																													pos:        position{line: 2874, col: 29, offset: 90903},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5246,9 +5246,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 91031},
+																										pos: position{line: 2884, col: 8, offset: 91063},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 91032,
+																											line: 2884, col: 9, offset: 91064,
 																										},
 																									},
 																								},
@@ -5264,9 +5264,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 91031},
+																		pos: position{line: 2884, col: 8, offset: 91063},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 91032,
+																			line: 2884, col: 9, offset: 91064,
 																		},
 																	},
 																},
@@ -5318,10 +5318,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 760, col: 52, offset: 24346},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90683},
+																			pos: position{line: 2865, col: 10, offset: 90715},
 																			run: (*parser).callonDocumentFragment280,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90683},
+																				pos:        position{line: 2865, col: 10, offset: 90715},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5330,28 +5330,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91081},
+																		pos: position{line: 2887, col: 8, offset: 91113},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90854},
+																				pos: position{line: 2874, col: 12, offset: 90886},
 																				run: (*parser).callonDocumentFragment283,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90855},
+																					pos: position{line: 2874, col: 13, offset: 90887},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90855},
+																							pos:        position{line: 2874, col: 13, offset: 90887},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90862},
+																							pos:        position{line: 2874, col: 20, offset: 90894},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90871},
+																							pos:        position{line: 2874, col: 29, offset: 90903},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5360,9 +5360,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 91031},
+																				pos: position{line: 2884, col: 8, offset: 91063},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 91032,
+																					line: 2884, col: 9, offset: 91064,
 																				},
 																			},
 																		},
@@ -5396,10 +5396,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 971, col: 40, offset: 30361},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90683},
+																							pos: position{line: 2865, col: 10, offset: 90715},
 																							run: (*parser).callonDocumentFragment298,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90683},
+																								pos:        position{line: 2865, col: 10, offset: 90715},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5408,28 +5408,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91081},
+																						pos: position{line: 2887, col: 8, offset: 91113},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90854},
+																								pos: position{line: 2874, col: 12, offset: 90886},
 																								run: (*parser).callonDocumentFragment301,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90855},
+																									pos: position{line: 2874, col: 13, offset: 90887},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90855},
+																											pos:        position{line: 2874, col: 13, offset: 90887},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90862},
+																											pos:        position{line: 2874, col: 20, offset: 90894},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90871},
+																											pos:        position{line: 2874, col: 29, offset: 90903},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5438,9 +5438,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 91031},
+																								pos: position{line: 2884, col: 8, offset: 91063},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 91032,
+																									line: 2884, col: 9, offset: 91064,
 																								},
 																							},
 																						},
@@ -5458,21 +5458,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 91017},
+																							pos: position{line: 2882, col: 11, offset: 91049},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 91019,
+																								line: 2882, col: 13, offset: 91051,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2810, col: 13, offset: 89209},
+																								pos: position{line: 2811, col: 13, offset: 89241},
 																								run: (*parser).callonDocumentFragment314,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2810, col: 13, offset: 89209},
+																									pos: position{line: 2811, col: 13, offset: 89241},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2810, col: 13, offset: 89209},
+																										pos:        position{line: 2811, col: 13, offset: 89241},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5482,28 +5482,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
+																									pos: position{line: 2874, col: 12, offset: 90886},
 																									run: (*parser).callonDocumentFragment318,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5512,9 +5512,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -5542,10 +5542,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 971, col: 40, offset: 30361},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90683},
+																		pos: position{line: 2865, col: 10, offset: 90715},
 																		run: (*parser).callonDocumentFragment329,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90683},
+																			pos:        position{line: 2865, col: 10, offset: 90715},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5554,28 +5554,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
+																			pos: position{line: 2874, col: 12, offset: 90886},
 																			run: (*parser).callonDocumentFragment332,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5584,9 +5584,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -5643,10 +5643,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 756, col: 8, offset: 24180},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90683},
+																			pos: position{line: 2865, col: 10, offset: 90715},
 																			run: (*parser).callonDocumentFragment351,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90683},
+																				pos:        position{line: 2865, col: 10, offset: 90715},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5655,28 +5655,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91081},
+																		pos: position{line: 2887, col: 8, offset: 91113},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90854},
+																				pos: position{line: 2874, col: 12, offset: 90886},
 																				run: (*parser).callonDocumentFragment354,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90855},
+																					pos: position{line: 2874, col: 13, offset: 90887},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90855},
+																							pos:        position{line: 2874, col: 13, offset: 90887},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90862},
+																							pos:        position{line: 2874, col: 20, offset: 90894},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90871},
+																							pos:        position{line: 2874, col: 29, offset: 90903},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5685,9 +5685,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 91031},
+																				pos: position{line: 2884, col: 8, offset: 91063},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 91032,
+																					line: 2884, col: 9, offset: 91064,
 																				},
 																			},
 																		},
@@ -5759,10 +5759,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 756, col: 8, offset: 24180},
 																												expr: &actionExpr{
-																													pos: position{line: 2864, col: 10, offset: 90683},
+																													pos: position{line: 2865, col: 10, offset: 90715},
 																													run: (*parser).callonDocumentFragment379,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2864, col: 10, offset: 90683},
+																														pos:        position{line: 2865, col: 10, offset: 90715},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5771,28 +5771,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2886, col: 8, offset: 91081},
+																												pos: position{line: 2887, col: 8, offset: 91113},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2873, col: 12, offset: 90854},
+																														pos: position{line: 2874, col: 12, offset: 90886},
 																														run: (*parser).callonDocumentFragment382,
 																														expr: &choiceExpr{
-																															pos: position{line: 2873, col: 13, offset: 90855},
+																															pos: position{line: 2874, col: 13, offset: 90887},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 13, offset: 90855},
+																																	pos:        position{line: 2874, col: 13, offset: 90887},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 20, offset: 90862},
+																																	pos:        position{line: 2874, col: 20, offset: 90894},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 29, offset: 90871},
+																																	pos:        position{line: 2874, col: 29, offset: 90903},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5801,9 +5801,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2883, col: 8, offset: 91031},
+																														pos: position{line: 2884, col: 8, offset: 91063},
 																														expr: &anyMatcher{
-																															line: 2883, col: 9, offset: 91032,
+																															line: 2884, col: 9, offset: 91064,
 																														},
 																													},
 																												},
@@ -5819,9 +5819,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 91031},
+																						pos: position{line: 2884, col: 8, offset: 91063},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 91032,
+																							line: 2884, col: 9, offset: 91064,
 																						},
 																					},
 																				},
@@ -5837,21 +5837,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 91017},
+																							pos: position{line: 2882, col: 11, offset: 91049},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 91019,
+																								line: 2882, col: 13, offset: 91051,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2810, col: 13, offset: 89209},
+																								pos: position{line: 2811, col: 13, offset: 89241},
 																								run: (*parser).callonDocumentFragment398,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2810, col: 13, offset: 89209},
+																									pos: position{line: 2811, col: 13, offset: 89241},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2810, col: 13, offset: 89209},
+																										pos:        position{line: 2811, col: 13, offset: 89241},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5861,28 +5861,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
+																									pos: position{line: 2874, col: 12, offset: 90886},
 																									run: (*parser).callonDocumentFragment402,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5891,9 +5891,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -5958,10 +5958,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 756, col: 8, offset: 24180},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90683},
+																									pos: position{line: 2865, col: 10, offset: 90715},
 																									run: (*parser).callonDocumentFragment423,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90683},
+																										pos:        position{line: 2865, col: 10, offset: 90715},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5970,28 +5970,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91081},
+																								pos: position{line: 2887, col: 8, offset: 91113},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90854},
+																										pos: position{line: 2874, col: 12, offset: 90886},
 																										run: (*parser).callonDocumentFragment426,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90855},
+																											pos: position{line: 2874, col: 13, offset: 90887},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90855},
+																													pos:        position{line: 2874, col: 13, offset: 90887},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90862},
+																													pos:        position{line: 2874, col: 20, offset: 90894},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90871},
+																													pos:        position{line: 2874, col: 29, offset: 90903},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6000,9 +6000,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 91031},
+																										pos: position{line: 2884, col: 8, offset: 91063},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 91032,
+																											line: 2884, col: 9, offset: 91064,
 																										},
 																									},
 																								},
@@ -6018,9 +6018,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 91031},
+																		pos: position{line: 2884, col: 8, offset: 91063},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 91032,
+																			line: 2884, col: 9, offset: 91064,
 																		},
 																	},
 																},
@@ -6076,10 +6076,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 771, col: 8, offset: 24718},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90683},
+																			pos: position{line: 2865, col: 10, offset: 90715},
 																			run: (*parser).callonDocumentFragment448,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90683},
+																				pos:        position{line: 2865, col: 10, offset: 90715},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6088,28 +6088,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91081},
+																		pos: position{line: 2887, col: 8, offset: 91113},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90854},
+																				pos: position{line: 2874, col: 12, offset: 90886},
 																				run: (*parser).callonDocumentFragment451,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90855},
+																					pos: position{line: 2874, col: 13, offset: 90887},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90855},
+																							pos:        position{line: 2874, col: 13, offset: 90887},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90862},
+																							pos:        position{line: 2874, col: 20, offset: 90894},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90871},
+																							pos:        position{line: 2874, col: 29, offset: 90903},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6118,9 +6118,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 91031},
+																				pos: position{line: 2884, col: 8, offset: 91063},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 91032,
+																					line: 2884, col: 9, offset: 91064,
 																				},
 																			},
 																		},
@@ -6192,10 +6192,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 771, col: 8, offset: 24718},
 																												expr: &actionExpr{
-																													pos: position{line: 2864, col: 10, offset: 90683},
+																													pos: position{line: 2865, col: 10, offset: 90715},
 																													run: (*parser).callonDocumentFragment476,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2864, col: 10, offset: 90683},
+																														pos:        position{line: 2865, col: 10, offset: 90715},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6204,28 +6204,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2886, col: 8, offset: 91081},
+																												pos: position{line: 2887, col: 8, offset: 91113},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2873, col: 12, offset: 90854},
+																														pos: position{line: 2874, col: 12, offset: 90886},
 																														run: (*parser).callonDocumentFragment479,
 																														expr: &choiceExpr{
-																															pos: position{line: 2873, col: 13, offset: 90855},
+																															pos: position{line: 2874, col: 13, offset: 90887},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 13, offset: 90855},
+																																	pos:        position{line: 2874, col: 13, offset: 90887},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 20, offset: 90862},
+																																	pos:        position{line: 2874, col: 20, offset: 90894},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 29, offset: 90871},
+																																	pos:        position{line: 2874, col: 29, offset: 90903},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6234,9 +6234,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2883, col: 8, offset: 91031},
+																														pos: position{line: 2884, col: 8, offset: 91063},
 																														expr: &anyMatcher{
-																															line: 2883, col: 9, offset: 91032,
+																															line: 2884, col: 9, offset: 91064,
 																														},
 																													},
 																												},
@@ -6252,9 +6252,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 91031},
+																						pos: position{line: 2884, col: 8, offset: 91063},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 91032,
+																							line: 2884, col: 9, offset: 91064,
 																						},
 																					},
 																				},
@@ -6270,21 +6270,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 91017},
+																							pos: position{line: 2882, col: 11, offset: 91049},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 91019,
+																								line: 2882, col: 13, offset: 91051,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2810, col: 13, offset: 89209},
+																								pos: position{line: 2811, col: 13, offset: 89241},
 																								run: (*parser).callonDocumentFragment495,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2810, col: 13, offset: 89209},
+																									pos: position{line: 2811, col: 13, offset: 89241},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2810, col: 13, offset: 89209},
+																										pos:        position{line: 2811, col: 13, offset: 89241},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6294,28 +6294,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
+																									pos: position{line: 2874, col: 12, offset: 90886},
 																									run: (*parser).callonDocumentFragment499,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6324,9 +6324,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -6391,10 +6391,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 771, col: 8, offset: 24718},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90683},
+																									pos: position{line: 2865, col: 10, offset: 90715},
 																									run: (*parser).callonDocumentFragment520,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90683},
+																										pos:        position{line: 2865, col: 10, offset: 90715},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6403,28 +6403,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91081},
+																								pos: position{line: 2887, col: 8, offset: 91113},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90854},
+																										pos: position{line: 2874, col: 12, offset: 90886},
 																										run: (*parser).callonDocumentFragment523,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90855},
+																											pos: position{line: 2874, col: 13, offset: 90887},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90855},
+																													pos:        position{line: 2874, col: 13, offset: 90887},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90862},
+																													pos:        position{line: 2874, col: 20, offset: 90894},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90871},
+																													pos:        position{line: 2874, col: 29, offset: 90903},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6433,9 +6433,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 91031},
+																										pos: position{line: 2884, col: 8, offset: 91063},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 91032,
+																											line: 2884, col: 9, offset: 91064,
 																										},
 																									},
 																								},
@@ -6451,9 +6451,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 91031},
+																		pos: position{line: 2884, col: 8, offset: 91063},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 91032,
+																			line: 2884, col: 9, offset: 91064,
 																		},
 																	},
 																},
@@ -6509,10 +6509,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 8, offset: 25194},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90683},
+																			pos: position{line: 2865, col: 10, offset: 90715},
 																			run: (*parser).callonDocumentFragment545,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90683},
+																				pos:        position{line: 2865, col: 10, offset: 90715},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6521,28 +6521,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91081},
+																		pos: position{line: 2887, col: 8, offset: 91113},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90854},
+																				pos: position{line: 2874, col: 12, offset: 90886},
 																				run: (*parser).callonDocumentFragment548,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90855},
+																					pos: position{line: 2874, col: 13, offset: 90887},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90855},
+																							pos:        position{line: 2874, col: 13, offset: 90887},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90862},
+																							pos:        position{line: 2874, col: 20, offset: 90894},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90871},
+																							pos:        position{line: 2874, col: 29, offset: 90903},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6551,9 +6551,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 91031},
+																				pos: position{line: 2884, col: 8, offset: 91063},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 91032,
+																					line: 2884, col: 9, offset: 91064,
 																				},
 																			},
 																		},
@@ -6625,10 +6625,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 785, col: 8, offset: 25194},
 																												expr: &actionExpr{
-																													pos: position{line: 2864, col: 10, offset: 90683},
+																													pos: position{line: 2865, col: 10, offset: 90715},
 																													run: (*parser).callonDocumentFragment573,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2864, col: 10, offset: 90683},
+																														pos:        position{line: 2865, col: 10, offset: 90715},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6637,28 +6637,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2886, col: 8, offset: 91081},
+																												pos: position{line: 2887, col: 8, offset: 91113},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2873, col: 12, offset: 90854},
+																														pos: position{line: 2874, col: 12, offset: 90886},
 																														run: (*parser).callonDocumentFragment576,
 																														expr: &choiceExpr{
-																															pos: position{line: 2873, col: 13, offset: 90855},
+																															pos: position{line: 2874, col: 13, offset: 90887},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 13, offset: 90855},
+																																	pos:        position{line: 2874, col: 13, offset: 90887},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 20, offset: 90862},
+																																	pos:        position{line: 2874, col: 20, offset: 90894},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 29, offset: 90871},
+																																	pos:        position{line: 2874, col: 29, offset: 90903},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6667,9 +6667,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2883, col: 8, offset: 91031},
+																														pos: position{line: 2884, col: 8, offset: 91063},
 																														expr: &anyMatcher{
-																															line: 2883, col: 9, offset: 91032,
+																															line: 2884, col: 9, offset: 91064,
 																														},
 																													},
 																												},
@@ -6685,9 +6685,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 91031},
+																						pos: position{line: 2884, col: 8, offset: 91063},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 91032,
+																							line: 2884, col: 9, offset: 91064,
 																						},
 																					},
 																				},
@@ -6703,21 +6703,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 91017},
+																							pos: position{line: 2882, col: 11, offset: 91049},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 91019,
+																								line: 2882, col: 13, offset: 91051,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2810, col: 13, offset: 89209},
+																								pos: position{line: 2811, col: 13, offset: 89241},
 																								run: (*parser).callonDocumentFragment592,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2810, col: 13, offset: 89209},
+																									pos: position{line: 2811, col: 13, offset: 89241},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2810, col: 13, offset: 89209},
+																										pos:        position{line: 2811, col: 13, offset: 89241},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6727,28 +6727,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
+																									pos: position{line: 2874, col: 12, offset: 90886},
 																									run: (*parser).callonDocumentFragment596,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6757,9 +6757,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -6824,10 +6824,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 785, col: 8, offset: 25194},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90683},
+																									pos: position{line: 2865, col: 10, offset: 90715},
 																									run: (*parser).callonDocumentFragment617,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90683},
+																										pos:        position{line: 2865, col: 10, offset: 90715},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6836,28 +6836,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91081},
+																								pos: position{line: 2887, col: 8, offset: 91113},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90854},
+																										pos: position{line: 2874, col: 12, offset: 90886},
 																										run: (*parser).callonDocumentFragment620,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90855},
+																											pos: position{line: 2874, col: 13, offset: 90887},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90855},
+																													pos:        position{line: 2874, col: 13, offset: 90887},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90862},
+																													pos:        position{line: 2874, col: 20, offset: 90894},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90871},
+																													pos:        position{line: 2874, col: 29, offset: 90903},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6866,9 +6866,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 91031},
+																										pos: position{line: 2884, col: 8, offset: 91063},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 91032,
+																											line: 2884, col: 9, offset: 91064,
 																										},
 																									},
 																								},
@@ -6884,9 +6884,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 91031},
+																		pos: position{line: 2884, col: 8, offset: 91063},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 91032,
+																			line: 2884, col: 9, offset: 91064,
 																		},
 																	},
 																},
@@ -6924,36 +6924,36 @@ var g = &grammar{
 																				pos:   position{line: 996, col: 40, offset: 31104},
 																				label: "comment",
 																				expr: &actionExpr{
-																					pos: position{line: 2474, col: 22, offset: 79626},
+																					pos: position{line: 2475, col: 22, offset: 79658},
 																					run: (*parser).callonDocumentFragment638,
 																					expr: &seqExpr{
-																						pos: position{line: 2474, col: 22, offset: 79626},
+																						pos: position{line: 2475, col: 22, offset: 79658},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2479, col: 31, offset: 79847},
+																								pos:        position{line: 2480, col: 31, offset: 79879},
 																								val:        "//",
 																								ignoreCase: false,
 																								want:       "\"//\"",
 																							},
 																							&notExpr{
-																								pos: position{line: 2479, col: 36, offset: 79852},
+																								pos: position{line: 2480, col: 36, offset: 79884},
 																								expr: &litMatcher{
-																									pos:        position{line: 2479, col: 37, offset: 79853},
+																									pos:        position{line: 2480, col: 37, offset: 79885},
 																									val:        "//",
 																									ignoreCase: false,
 																									want:       "\"//\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 2474, col: 49, offset: 79653},
+																								pos:   position{line: 2475, col: 49, offset: 79685},
 																								label: "content",
 																								expr: &actionExpr{
-																									pos: position{line: 2810, col: 13, offset: 89209},
+																									pos: position{line: 2811, col: 13, offset: 89241},
 																									run: (*parser).callonDocumentFragment644,
 																									expr: &zeroOrMoreExpr{
-																										pos: position{line: 2810, col: 13, offset: 89209},
+																										pos: position{line: 2811, col: 13, offset: 89241},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2810, col: 13, offset: 89209},
+																											pos:        position{line: 2811, col: 13, offset: 89241},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -6963,28 +6963,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91081},
+																								pos: position{line: 2887, col: 8, offset: 91113},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90854},
+																										pos: position{line: 2874, col: 12, offset: 90886},
 																										run: (*parser).callonDocumentFragment648,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90855},
+																											pos: position{line: 2874, col: 13, offset: 90887},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90855},
+																													pos:        position{line: 2874, col: 13, offset: 90887},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90862},
+																													pos:        position{line: 2874, col: 20, offset: 90894},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90871},
+																													pos:        position{line: 2874, col: 29, offset: 90903},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6993,9 +6993,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 91031},
+																										pos: position{line: 2884, col: 8, offset: 91063},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 91032,
+																											line: 2884, col: 9, offset: 91064,
 																										},
 																									},
 																								},
@@ -7022,18 +7022,18 @@ var g = &grammar{
 																						pos: position{line: 677, col: 14, offset: 21489},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2881, col: 11, offset: 91017},
+																								pos: position{line: 2882, col: 11, offset: 91049},
 																								expr: &anyMatcher{
-																									line: 2881, col: 13, offset: 91019,
+																									line: 2882, col: 13, offset: 91051,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21496},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90683},
+																									pos: position{line: 2865, col: 10, offset: 90715},
 																									run: (*parser).callonDocumentFragment663,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90683},
+																										pos:        position{line: 2865, col: 10, offset: 90715},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7042,28 +7042,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91081},
+																								pos: position{line: 2887, col: 8, offset: 91113},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90854},
+																										pos: position{line: 2874, col: 12, offset: 90886},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90855},
+																											pos: position{line: 2874, col: 13, offset: 90887},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90855},
+																													pos:        position{line: 2874, col: 13, offset: 90887},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90862},
+																													pos:        position{line: 2874, col: 20, offset: 90894},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90871},
+																													pos:        position{line: 2874, col: 29, offset: 90903},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7072,9 +7072,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 91031},
+																										pos: position{line: 2884, col: 8, offset: 91063},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 91032,
+																											line: 2884, col: 9, offset: 91064,
 																										},
 																									},
 																								},
@@ -7093,12 +7093,12 @@ var g = &grammar{
 																				pos:   position{line: 992, col: 5, offset: 30982},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2814, col: 14, offset: 89276},
+																					pos: position{line: 2815, col: 14, offset: 89308},
 																					run: (*parser).callonDocumentFragment675,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2814, col: 14, offset: 89276},
+																						pos: position{line: 2815, col: 14, offset: 89308},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2814, col: 14, offset: 89276},
+																							pos:        position{line: 2815, col: 14, offset: 89308},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -7108,28 +7108,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2886, col: 8, offset: 91081},
+																				pos: position{line: 2887, col: 8, offset: 91113},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2873, col: 12, offset: 90854},
+																						pos: position{line: 2874, col: 12, offset: 90886},
 																						run: (*parser).callonDocumentFragment679,
 																						expr: &choiceExpr{
-																							pos: position{line: 2873, col: 13, offset: 90855},
+																							pos: position{line: 2874, col: 13, offset: 90887},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 13, offset: 90855},
+																									pos:        position{line: 2874, col: 13, offset: 90887},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 20, offset: 90862},
+																									pos:        position{line: 2874, col: 20, offset: 90894},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 29, offset: 90871},
+																									pos:        position{line: 2874, col: 29, offset: 90903},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -7138,9 +7138,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 91031},
+																						pos: position{line: 2884, col: 8, offset: 91063},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 91032,
+																							line: 2884, col: 9, offset: 91064,
 																						},
 																					},
 																				},
@@ -7160,36 +7160,36 @@ var g = &grammar{
 																pos: position{line: 984, col: 17, offset: 30694},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2474, col: 22, offset: 79626},
+																		pos: position{line: 2475, col: 22, offset: 79658},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 2474, col: 22, offset: 79626},
+																			pos: position{line: 2475, col: 22, offset: 79658},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2479, col: 31, offset: 79847},
+																					pos:        position{line: 2480, col: 31, offset: 79879},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																				&notExpr{
-																					pos: position{line: 2479, col: 36, offset: 79852},
+																					pos: position{line: 2480, col: 36, offset: 79884},
 																					expr: &litMatcher{
-																						pos:        position{line: 2479, col: 37, offset: 79853},
+																						pos:        position{line: 2480, col: 37, offset: 79885},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2474, col: 49, offset: 79653},
+																					pos:   position{line: 2475, col: 49, offset: 79685},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2810, col: 13, offset: 89209},
+																						pos: position{line: 2811, col: 13, offset: 89241},
 																						run: (*parser).callonDocumentFragment695,
 																						expr: &zeroOrMoreExpr{
-																							pos: position{line: 2810, col: 13, offset: 89209},
+																							pos: position{line: 2811, col: 13, offset: 89241},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2810, col: 13, offset: 89209},
+																								pos:        position{line: 2811, col: 13, offset: 89241},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7199,28 +7199,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2886, col: 8, offset: 91081},
+																					pos: position{line: 2887, col: 8, offset: 91113},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2873, col: 12, offset: 90854},
+																							pos: position{line: 2874, col: 12, offset: 90886},
 																							run: (*parser).callonDocumentFragment699,
 																							expr: &choiceExpr{
-																								pos: position{line: 2873, col: 13, offset: 90855},
+																								pos: position{line: 2874, col: 13, offset: 90887},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 13, offset: 90855},
+																										pos:        position{line: 2874, col: 13, offset: 90887},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 20, offset: 90862},
+																										pos:        position{line: 2874, col: 20, offset: 90894},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 29, offset: 90871},
+																										pos:        position{line: 2874, col: 29, offset: 90903},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7229,9 +7229,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2883, col: 8, offset: 91031},
+																							pos: position{line: 2884, col: 8, offset: 91063},
 																							expr: &anyMatcher{
-																								line: 2883, col: 9, offset: 91032,
+																								line: 2884, col: 9, offset: 91064,
 																							},
 																						},
 																					},
@@ -7255,36 +7255,36 @@ var g = &grammar{
 																					pos:   position{line: 996, col: 40, offset: 31104},
 																					label: "comment",
 																					expr: &actionExpr{
-																						pos: position{line: 2474, col: 22, offset: 79626},
+																						pos: position{line: 2475, col: 22, offset: 79658},
 																						run: (*parser).callonDocumentFragment710,
 																						expr: &seqExpr{
-																							pos: position{line: 2474, col: 22, offset: 79626},
+																							pos: position{line: 2475, col: 22, offset: 79658},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2479, col: 31, offset: 79847},
+																									pos:        position{line: 2480, col: 31, offset: 79879},
 																									val:        "//",
 																									ignoreCase: false,
 																									want:       "\"//\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2479, col: 36, offset: 79852},
+																									pos: position{line: 2480, col: 36, offset: 79884},
 																									expr: &litMatcher{
-																										pos:        position{line: 2479, col: 37, offset: 79853},
+																										pos:        position{line: 2480, col: 37, offset: 79885},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 2474, col: 49, offset: 79653},
+																									pos:   position{line: 2475, col: 49, offset: 79685},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 2810, col: 13, offset: 89209},
+																										pos: position{line: 2811, col: 13, offset: 89241},
 																										run: (*parser).callonDocumentFragment716,
 																										expr: &zeroOrMoreExpr{
-																											pos: position{line: 2810, col: 13, offset: 89209},
+																											pos: position{line: 2811, col: 13, offset: 89241},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2810, col: 13, offset: 89209},
+																												pos:        position{line: 2811, col: 13, offset: 89241},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -7294,28 +7294,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2886, col: 8, offset: 91081},
+																									pos: position{line: 2887, col: 8, offset: 91113},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2873, col: 12, offset: 90854},
+																											pos: position{line: 2874, col: 12, offset: 90886},
 																											run: (*parser).callonDocumentFragment720,
 																											expr: &choiceExpr{
-																												pos: position{line: 2873, col: 13, offset: 90855},
+																												pos: position{line: 2874, col: 13, offset: 90887},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 13, offset: 90855},
+																														pos:        position{line: 2874, col: 13, offset: 90887},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 20, offset: 90862},
+																														pos:        position{line: 2874, col: 20, offset: 90894},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 29, offset: 90871},
+																														pos:        position{line: 2874, col: 29, offset: 90903},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7324,9 +7324,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2883, col: 8, offset: 91031},
+																											pos: position{line: 2884, col: 8, offset: 91063},
 																											expr: &anyMatcher{
-																												line: 2883, col: 9, offset: 91032,
+																												line: 2884, col: 9, offset: 91064,
 																											},
 																										},
 																									},
@@ -7353,18 +7353,18 @@ var g = &grammar{
 																							pos: position{line: 677, col: 14, offset: 21489},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2881, col: 11, offset: 91017},
+																									pos: position{line: 2882, col: 11, offset: 91049},
 																									expr: &anyMatcher{
-																										line: 2881, col: 13, offset: 91019,
+																										line: 2882, col: 13, offset: 91051,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 677, col: 21, offset: 21496},
 																									expr: &actionExpr{
-																										pos: position{line: 2864, col: 10, offset: 90683},
+																										pos: position{line: 2865, col: 10, offset: 90715},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2864, col: 10, offset: 90683},
+																											pos:        position{line: 2865, col: 10, offset: 90715},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7373,28 +7373,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2886, col: 8, offset: 91081},
+																									pos: position{line: 2887, col: 8, offset: 91113},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2873, col: 12, offset: 90854},
+																											pos: position{line: 2874, col: 12, offset: 90886},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2873, col: 13, offset: 90855},
+																												pos: position{line: 2874, col: 13, offset: 90887},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 13, offset: 90855},
+																														pos:        position{line: 2874, col: 13, offset: 90887},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 20, offset: 90862},
+																														pos:        position{line: 2874, col: 20, offset: 90894},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 29, offset: 90871},
+																														pos:        position{line: 2874, col: 29, offset: 90903},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7403,9 +7403,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2883, col: 8, offset: 91031},
+																											pos: position{line: 2884, col: 8, offset: 91063},
 																											expr: &anyMatcher{
-																												line: 2883, col: 9, offset: 91032,
+																												line: 2884, col: 9, offset: 91064,
 																											},
 																										},
 																									},
@@ -7424,12 +7424,12 @@ var g = &grammar{
 																					pos:   position{line: 992, col: 5, offset: 30982},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2814, col: 14, offset: 89276},
+																						pos: position{line: 2815, col: 14, offset: 89308},
 																						run: (*parser).callonDocumentFragment747,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2814, col: 14, offset: 89276},
+																							pos: position{line: 2815, col: 14, offset: 89308},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2814, col: 14, offset: 89276},
+																								pos:        position{line: 2815, col: 14, offset: 89308},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7439,28 +7439,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2886, col: 8, offset: 91081},
+																					pos: position{line: 2887, col: 8, offset: 91113},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2873, col: 12, offset: 90854},
+																							pos: position{line: 2874, col: 12, offset: 90886},
 																							run: (*parser).callonDocumentFragment751,
 																							expr: &choiceExpr{
-																								pos: position{line: 2873, col: 13, offset: 90855},
+																								pos: position{line: 2874, col: 13, offset: 90887},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 13, offset: 90855},
+																										pos:        position{line: 2874, col: 13, offset: 90887},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 20, offset: 90862},
+																										pos:        position{line: 2874, col: 20, offset: 90894},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 29, offset: 90871},
+																										pos:        position{line: 2874, col: 29, offset: 90903},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7469,9 +7469,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2883, col: 8, offset: 91031},
+																							pos: position{line: 2884, col: 8, offset: 91063},
 																							expr: &anyMatcher{
-																								line: 2883, col: 9, offset: 91032,
+																								line: 2884, col: 9, offset: 91064,
 																							},
 																						},
 																					},
@@ -7480,21 +7480,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1796, col: 5, offset: 58007},
+																		pos: position{line: 1797, col: 5, offset: 58039},
 																		run: (*parser).callonDocumentFragment758,
 																		expr: &seqExpr{
-																			pos: position{line: 1796, col: 5, offset: 58007},
+																			pos: position{line: 1797, col: 5, offset: 58039},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1796, col: 5, offset: 58007},
+																					pos:   position{line: 1797, col: 5, offset: 58039},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2814, col: 14, offset: 89276},
+																						pos: position{line: 2815, col: 14, offset: 89308},
 																						run: (*parser).callonDocumentFragment761,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2814, col: 14, offset: 89276},
+																							pos: position{line: 2815, col: 14, offset: 89308},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2814, col: 14, offset: 89276},
+																								pos:        position{line: 2815, col: 14, offset: 89308},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7504,32 +7504,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1797, col: 5, offset: 58031},
+																					pos: position{line: 1798, col: 5, offset: 58063},
 																					run: (*parser).callonDocumentFragment764,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2886, col: 8, offset: 91081},
+																					pos: position{line: 2887, col: 8, offset: 91113},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2873, col: 12, offset: 90854},
+																							pos: position{line: 2874, col: 12, offset: 90886},
 																							run: (*parser).callonDocumentFragment766,
 																							expr: &choiceExpr{
-																								pos: position{line: 2873, col: 13, offset: 90855},
+																								pos: position{line: 2874, col: 13, offset: 90887},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 13, offset: 90855},
+																										pos:        position{line: 2874, col: 13, offset: 90887},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 20, offset: 90862},
+																										pos:        position{line: 2874, col: 20, offset: 90894},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 29, offset: 90871},
+																										pos:        position{line: 2874, col: 29, offset: 90903},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7538,9 +7538,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2883, col: 8, offset: 91031},
+																							pos: position{line: 2884, col: 8, offset: 91063},
 																							expr: &anyMatcher{
-																								line: 2883, col: 9, offset: 91032,
+																								line: 2884, col: 9, offset: 91064,
 																							},
 																						},
 																					},
@@ -7587,10 +7587,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 778, col: 8, offset: 24949},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90683},
+																			pos: position{line: 2865, col: 10, offset: 90715},
 																			run: (*parser).callonDocumentFragment782,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90683},
+																				pos:        position{line: 2865, col: 10, offset: 90715},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7599,28 +7599,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91081},
+																		pos: position{line: 2887, col: 8, offset: 91113},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90854},
+																				pos: position{line: 2874, col: 12, offset: 90886},
 																				run: (*parser).callonDocumentFragment785,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90855},
+																					pos: position{line: 2874, col: 13, offset: 90887},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90855},
+																							pos:        position{line: 2874, col: 13, offset: 90887},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90862},
+																							pos:        position{line: 2874, col: 20, offset: 90894},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90871},
+																							pos:        position{line: 2874, col: 29, offset: 90903},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7629,9 +7629,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 91031},
+																				pos: position{line: 2884, col: 8, offset: 91063},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 91032,
+																					line: 2884, col: 9, offset: 91064,
 																				},
 																			},
 																		},
@@ -7679,10 +7679,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 778, col: 8, offset: 24949},
 																									expr: &actionExpr{
-																										pos: position{line: 2864, col: 10, offset: 90683},
+																										pos: position{line: 2865, col: 10, offset: 90715},
 																										run: (*parser).callonDocumentFragment804,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2864, col: 10, offset: 90683},
+																											pos:        position{line: 2865, col: 10, offset: 90715},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7691,28 +7691,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2886, col: 8, offset: 91081},
+																									pos: position{line: 2887, col: 8, offset: 91113},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2873, col: 12, offset: 90854},
+																											pos: position{line: 2874, col: 12, offset: 90886},
 																											run: (*parser).callonDocumentFragment807,
 																											expr: &choiceExpr{
-																												pos: position{line: 2873, col: 13, offset: 90855},
+																												pos: position{line: 2874, col: 13, offset: 90887},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 13, offset: 90855},
+																														pos:        position{line: 2874, col: 13, offset: 90887},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 20, offset: 90862},
+																														pos:        position{line: 2874, col: 20, offset: 90894},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 29, offset: 90871},
+																														pos:        position{line: 2874, col: 29, offset: 90903},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7721,9 +7721,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2883, col: 8, offset: 91031},
+																											pos: position{line: 2884, col: 8, offset: 91063},
 																											expr: &anyMatcher{
-																												line: 2883, col: 9, offset: 91032,
+																												line: 2884, col: 9, offset: 91064,
 																											},
 																										},
 																									},
@@ -7732,9 +7732,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 91031},
+																						pos: position{line: 2884, col: 8, offset: 91063},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 91032,
+																							line: 2884, col: 9, offset: 91064,
 																						},
 																					},
 																				},
@@ -7750,21 +7750,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 91017},
+																							pos: position{line: 2882, col: 11, offset: 91049},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 91019,
+																								line: 2882, col: 13, offset: 91051,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2810, col: 13, offset: 89209},
+																								pos: position{line: 2811, col: 13, offset: 89241},
 																								run: (*parser).callonDocumentFragment822,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2810, col: 13, offset: 89209},
+																									pos: position{line: 2811, col: 13, offset: 89241},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2810, col: 13, offset: 89209},
+																										pos:        position{line: 2811, col: 13, offset: 89241},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7774,28 +7774,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
+																									pos: position{line: 2874, col: 12, offset: 90886},
 																									run: (*parser).callonDocumentFragment826,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7804,9 +7804,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -7851,10 +7851,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 778, col: 8, offset: 24949},
 																					expr: &actionExpr{
-																						pos: position{line: 2864, col: 10, offset: 90683},
+																						pos: position{line: 2865, col: 10, offset: 90715},
 																						run: (*parser).callonDocumentFragment842,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2864, col: 10, offset: 90683},
+																							pos:        position{line: 2865, col: 10, offset: 90715},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7863,28 +7863,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2886, col: 8, offset: 91081},
+																					pos: position{line: 2887, col: 8, offset: 91113},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2873, col: 12, offset: 90854},
+																							pos: position{line: 2874, col: 12, offset: 90886},
 																							run: (*parser).callonDocumentFragment845,
 																							expr: &choiceExpr{
-																								pos: position{line: 2873, col: 13, offset: 90855},
+																								pos: position{line: 2874, col: 13, offset: 90887},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 13, offset: 90855},
+																										pos:        position{line: 2874, col: 13, offset: 90887},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 20, offset: 90862},
+																										pos:        position{line: 2874, col: 20, offset: 90894},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 29, offset: 90871},
+																										pos:        position{line: 2874, col: 29, offset: 90903},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7893,9 +7893,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2883, col: 8, offset: 91031},
+																							pos: position{line: 2884, col: 8, offset: 91063},
 																							expr: &anyMatcher{
-																								line: 2883, col: 9, offset: 91032,
+																								line: 2884, col: 9, offset: 91064,
 																							},
 																						},
 																					},
@@ -7904,9 +7904,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 91031},
+																		pos: position{line: 2884, col: 8, offset: 91063},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 91032,
+																			line: 2884, col: 9, offset: 91064,
 																		},
 																	},
 																},
@@ -7962,10 +7962,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 792, col: 8, offset: 25446},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90683},
+																			pos: position{line: 2865, col: 10, offset: 90715},
 																			run: (*parser).callonDocumentFragment866,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90683},
+																				pos:        position{line: 2865, col: 10, offset: 90715},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7974,28 +7974,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91081},
+																		pos: position{line: 2887, col: 8, offset: 91113},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90854},
+																				pos: position{line: 2874, col: 12, offset: 90886},
 																				run: (*parser).callonDocumentFragment869,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90855},
+																					pos: position{line: 2874, col: 13, offset: 90887},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90855},
+																							pos:        position{line: 2874, col: 13, offset: 90887},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90862},
+																							pos:        position{line: 2874, col: 20, offset: 90894},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90871},
+																							pos:        position{line: 2874, col: 29, offset: 90903},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8004,9 +8004,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 91031},
+																				pos: position{line: 2884, col: 8, offset: 91063},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 91032,
+																					line: 2884, col: 9, offset: 91064,
 																				},
 																			},
 																		},
@@ -8078,10 +8078,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 792, col: 8, offset: 25446},
 																												expr: &actionExpr{
-																													pos: position{line: 2864, col: 10, offset: 90683},
+																													pos: position{line: 2865, col: 10, offset: 90715},
 																													run: (*parser).callonDocumentFragment894,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2864, col: 10, offset: 90683},
+																														pos:        position{line: 2865, col: 10, offset: 90715},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8090,28 +8090,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2886, col: 8, offset: 91081},
+																												pos: position{line: 2887, col: 8, offset: 91113},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2873, col: 12, offset: 90854},
+																														pos: position{line: 2874, col: 12, offset: 90886},
 																														run: (*parser).callonDocumentFragment897,
 																														expr: &choiceExpr{
-																															pos: position{line: 2873, col: 13, offset: 90855},
+																															pos: position{line: 2874, col: 13, offset: 90887},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 13, offset: 90855},
+																																	pos:        position{line: 2874, col: 13, offset: 90887},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 20, offset: 90862},
+																																	pos:        position{line: 2874, col: 20, offset: 90894},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 29, offset: 90871},
+																																	pos:        position{line: 2874, col: 29, offset: 90903},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8120,9 +8120,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2883, col: 8, offset: 91031},
+																														pos: position{line: 2884, col: 8, offset: 91063},
 																														expr: &anyMatcher{
-																															line: 2883, col: 9, offset: 91032,
+																															line: 2884, col: 9, offset: 91064,
 																														},
 																													},
 																												},
@@ -8138,9 +8138,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 91031},
+																						pos: position{line: 2884, col: 8, offset: 91063},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 91032,
+																							line: 2884, col: 9, offset: 91064,
 																						},
 																					},
 																				},
@@ -8156,21 +8156,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 91017},
+																							pos: position{line: 2882, col: 11, offset: 91049},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 91019,
+																								line: 2882, col: 13, offset: 91051,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2810, col: 13, offset: 89209},
+																								pos: position{line: 2811, col: 13, offset: 89241},
 																								run: (*parser).callonDocumentFragment913,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2810, col: 13, offset: 89209},
+																									pos: position{line: 2811, col: 13, offset: 89241},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2810, col: 13, offset: 89209},
+																										pos:        position{line: 2811, col: 13, offset: 89241},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8180,28 +8180,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
+																									pos: position{line: 2874, col: 12, offset: 90886},
 																									run: (*parser).callonDocumentFragment917,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8210,9 +8210,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -8277,10 +8277,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 792, col: 8, offset: 25446},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90683},
+																									pos: position{line: 2865, col: 10, offset: 90715},
 																									run: (*parser).callonDocumentFragment938,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90683},
+																										pos:        position{line: 2865, col: 10, offset: 90715},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8289,28 +8289,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91081},
+																								pos: position{line: 2887, col: 8, offset: 91113},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90854},
+																										pos: position{line: 2874, col: 12, offset: 90886},
 																										run: (*parser).callonDocumentFragment941,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90855},
+																											pos: position{line: 2874, col: 13, offset: 90887},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90855},
+																													pos:        position{line: 2874, col: 13, offset: 90887},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90862},
+																													pos:        position{line: 2874, col: 20, offset: 90894},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90871},
+																													pos:        position{line: 2874, col: 29, offset: 90903},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8319,9 +8319,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 91031},
+																										pos: position{line: 2884, col: 8, offset: 91063},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 91032,
+																											line: 2884, col: 9, offset: 91064,
 																										},
 																									},
 																								},
@@ -8337,9 +8337,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 91031},
+																		pos: position{line: 2884, col: 8, offset: 91063},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 91032,
+																			line: 2884, col: 9, offset: 91064,
 																		},
 																	},
 																},
@@ -8395,10 +8395,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 799, col: 8, offset: 25696},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90683},
+																			pos: position{line: 2865, col: 10, offset: 90715},
 																			run: (*parser).callonDocumentFragment963,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90683},
+																				pos:        position{line: 2865, col: 10, offset: 90715},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8407,28 +8407,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91081},
+																		pos: position{line: 2887, col: 8, offset: 91113},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90854},
+																				pos: position{line: 2874, col: 12, offset: 90886},
 																				run: (*parser).callonDocumentFragment966,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90855},
+																					pos: position{line: 2874, col: 13, offset: 90887},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90855},
+																							pos:        position{line: 2874, col: 13, offset: 90887},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90862},
+																							pos:        position{line: 2874, col: 20, offset: 90894},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90871},
+																							pos:        position{line: 2874, col: 29, offset: 90903},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8437,9 +8437,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 91031},
+																				pos: position{line: 2884, col: 8, offset: 91063},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 91032,
+																					line: 2884, col: 9, offset: 91064,
 																				},
 																			},
 																		},
@@ -8511,10 +8511,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 799, col: 8, offset: 25696},
 																												expr: &actionExpr{
-																													pos: position{line: 2864, col: 10, offset: 90683},
+																													pos: position{line: 2865, col: 10, offset: 90715},
 																													run: (*parser).callonDocumentFragment991,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2864, col: 10, offset: 90683},
+																														pos:        position{line: 2865, col: 10, offset: 90715},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8523,28 +8523,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2886, col: 8, offset: 91081},
+																												pos: position{line: 2887, col: 8, offset: 91113},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2873, col: 12, offset: 90854},
+																														pos: position{line: 2874, col: 12, offset: 90886},
 																														run: (*parser).callonDocumentFragment994,
 																														expr: &choiceExpr{
-																															pos: position{line: 2873, col: 13, offset: 90855},
+																															pos: position{line: 2874, col: 13, offset: 90887},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 13, offset: 90855},
+																																	pos:        position{line: 2874, col: 13, offset: 90887},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 20, offset: 90862},
+																																	pos:        position{line: 2874, col: 20, offset: 90894},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 29, offset: 90871},
+																																	pos:        position{line: 2874, col: 29, offset: 90903},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8553,9 +8553,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2883, col: 8, offset: 91031},
+																														pos: position{line: 2884, col: 8, offset: 91063},
 																														expr: &anyMatcher{
-																															line: 2883, col: 9, offset: 91032,
+																															line: 2884, col: 9, offset: 91064,
 																														},
 																													},
 																												},
@@ -8571,9 +8571,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 91031},
+																						pos: position{line: 2884, col: 8, offset: 91063},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 91032,
+																							line: 2884, col: 9, offset: 91064,
 																						},
 																					},
 																				},
@@ -8589,21 +8589,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 91017},
+																							pos: position{line: 2882, col: 11, offset: 91049},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 91019,
+																								line: 2882, col: 13, offset: 91051,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2810, col: 13, offset: 89209},
+																								pos: position{line: 2811, col: 13, offset: 89241},
 																								run: (*parser).callonDocumentFragment1010,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2810, col: 13, offset: 89209},
+																									pos: position{line: 2811, col: 13, offset: 89241},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2810, col: 13, offset: 89209},
+																										pos:        position{line: 2811, col: 13, offset: 89241},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8613,28 +8613,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
+																									pos: position{line: 2874, col: 12, offset: 90886},
 																									run: (*parser).callonDocumentFragment1014,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8643,9 +8643,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -8710,10 +8710,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 799, col: 8, offset: 25696},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90683},
+																									pos: position{line: 2865, col: 10, offset: 90715},
 																									run: (*parser).callonDocumentFragment1035,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90683},
+																										pos:        position{line: 2865, col: 10, offset: 90715},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8722,28 +8722,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91081},
+																								pos: position{line: 2887, col: 8, offset: 91113},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90854},
+																										pos: position{line: 2874, col: 12, offset: 90886},
 																										run: (*parser).callonDocumentFragment1038,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90855},
+																											pos: position{line: 2874, col: 13, offset: 90887},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90855},
+																													pos:        position{line: 2874, col: 13, offset: 90887},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90862},
+																													pos:        position{line: 2874, col: 20, offset: 90894},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90871},
+																													pos:        position{line: 2874, col: 29, offset: 90903},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8752,9 +8752,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 91031},
+																										pos: position{line: 2884, col: 8, offset: 91063},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 91032,
+																											line: 2884, col: 9, offset: 91064,
 																										},
 																									},
 																								},
@@ -8770,9 +8770,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 91031},
+																		pos: position{line: 2884, col: 8, offset: 91063},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 91032,
+																			line: 2884, col: 9, offset: 91064,
 																		},
 																	},
 																},
@@ -8828,10 +8828,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 806, col: 8, offset: 25942},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90683},
+																			pos: position{line: 2865, col: 10, offset: 90715},
 																			run: (*parser).callonDocumentFragment1060,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90683},
+																				pos:        position{line: 2865, col: 10, offset: 90715},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8840,28 +8840,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91081},
+																		pos: position{line: 2887, col: 8, offset: 91113},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90854},
+																				pos: position{line: 2874, col: 12, offset: 90886},
 																				run: (*parser).callonDocumentFragment1063,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90855},
+																					pos: position{line: 2874, col: 13, offset: 90887},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90855},
+																							pos:        position{line: 2874, col: 13, offset: 90887},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90862},
+																							pos:        position{line: 2874, col: 20, offset: 90894},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90871},
+																							pos:        position{line: 2874, col: 29, offset: 90903},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8870,9 +8870,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 91031},
+																				pos: position{line: 2884, col: 8, offset: 91063},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 91032,
+																					line: 2884, col: 9, offset: 91064,
 																				},
 																			},
 																		},
@@ -8944,10 +8944,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 806, col: 8, offset: 25942},
 																												expr: &actionExpr{
-																													pos: position{line: 2864, col: 10, offset: 90683},
+																													pos: position{line: 2865, col: 10, offset: 90715},
 																													run: (*parser).callonDocumentFragment1088,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2864, col: 10, offset: 90683},
+																														pos:        position{line: 2865, col: 10, offset: 90715},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8956,28 +8956,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2886, col: 8, offset: 91081},
+																												pos: position{line: 2887, col: 8, offset: 91113},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2873, col: 12, offset: 90854},
+																														pos: position{line: 2874, col: 12, offset: 90886},
 																														run: (*parser).callonDocumentFragment1091,
 																														expr: &choiceExpr{
-																															pos: position{line: 2873, col: 13, offset: 90855},
+																															pos: position{line: 2874, col: 13, offset: 90887},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 13, offset: 90855},
+																																	pos:        position{line: 2874, col: 13, offset: 90887},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 20, offset: 90862},
+																																	pos:        position{line: 2874, col: 20, offset: 90894},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 29, offset: 90871},
+																																	pos:        position{line: 2874, col: 29, offset: 90903},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8986,9 +8986,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2883, col: 8, offset: 91031},
+																														pos: position{line: 2884, col: 8, offset: 91063},
 																														expr: &anyMatcher{
-																															line: 2883, col: 9, offset: 91032,
+																															line: 2884, col: 9, offset: 91064,
 																														},
 																													},
 																												},
@@ -9004,9 +9004,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 91031},
+																						pos: position{line: 2884, col: 8, offset: 91063},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 91032,
+																							line: 2884, col: 9, offset: 91064,
 																						},
 																					},
 																				},
@@ -9022,21 +9022,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 91017},
+																							pos: position{line: 2882, col: 11, offset: 91049},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 91019,
+																								line: 2882, col: 13, offset: 91051,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2810, col: 13, offset: 89209},
+																								pos: position{line: 2811, col: 13, offset: 89241},
 																								run: (*parser).callonDocumentFragment1107,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2810, col: 13, offset: 89209},
+																									pos: position{line: 2811, col: 13, offset: 89241},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2810, col: 13, offset: 89209},
+																										pos:        position{line: 2811, col: 13, offset: 89241},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -9046,28 +9046,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
+																									pos: position{line: 2874, col: 12, offset: 90886},
 																									run: (*parser).callonDocumentFragment1111,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -9076,9 +9076,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -9143,10 +9143,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 806, col: 8, offset: 25942},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90683},
+																									pos: position{line: 2865, col: 10, offset: 90715},
 																									run: (*parser).callonDocumentFragment1132,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90683},
+																										pos:        position{line: 2865, col: 10, offset: 90715},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -9155,28 +9155,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91081},
+																								pos: position{line: 2887, col: 8, offset: 91113},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90854},
+																										pos: position{line: 2874, col: 12, offset: 90886},
 																										run: (*parser).callonDocumentFragment1135,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90855},
+																											pos: position{line: 2874, col: 13, offset: 90887},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90855},
+																													pos:        position{line: 2874, col: 13, offset: 90887},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90862},
+																													pos:        position{line: 2874, col: 20, offset: 90894},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90871},
+																													pos:        position{line: 2874, col: 29, offset: 90903},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9185,9 +9185,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 91031},
+																										pos: position{line: 2884, col: 8, offset: 91063},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 91032,
+																											line: 2884, col: 9, offset: 91064,
 																										},
 																									},
 																								},
@@ -9203,9 +9203,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 91031},
+																		pos: position{line: 2884, col: 8, offset: 91063},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 91032,
+																			line: 2884, col: 9, offset: 91064,
 																		},
 																	},
 																},
@@ -9216,52 +9216,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2709, col: 18, offset: 86273},
+											pos: position{line: 2710, col: 18, offset: 86305},
 											run: (*parser).callonDocumentFragment1145,
 											expr: &seqExpr{
-												pos: position{line: 2709, col: 18, offset: 86273},
+												pos: position{line: 2710, col: 18, offset: 86305},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2710, col: 9, offset: 86283},
+														pos: position{line: 2711, col: 9, offset: 86315},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2710, col: 9, offset: 86283},
+																pos:        position{line: 2711, col: 9, offset: 86315},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2711, col: 11, offset: 86319},
+																pos:        position{line: 2712, col: 11, offset: 86351},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2711, col: 19, offset: 86327},
+																pos:        position{line: 2712, col: 19, offset: 86359},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2711, col: 29, offset: 86337},
+																pos:        position{line: 2712, col: 29, offset: 86369},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2711, col: 37, offset: 86345},
+																pos:        position{line: 2712, col: 37, offset: 86377},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2711, col: 47, offset: 86355},
+																pos:        position{line: 2712, col: 47, offset: 86387},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2711, col: 55, offset: 86363},
+																pos:        position{line: 2712, col: 55, offset: 86395},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9269,12 +9269,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2712, col: 11, offset: 86421},
+														pos: position{line: 2713, col: 11, offset: 86453},
 														expr: &actionExpr{
-															pos: position{line: 2864, col: 10, offset: 90683},
+															pos: position{line: 2865, col: 10, offset: 90715},
 															run: (*parser).callonDocumentFragment1156,
 															expr: &charClassMatcher{
-																pos:        position{line: 2864, col: 10, offset: 90683},
+																pos:        position{line: 2865, col: 10, offset: 90715},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9283,28 +9283,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2886, col: 8, offset: 91081},
+														pos: position{line: 2887, col: 8, offset: 91113},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90854},
+																pos: position{line: 2874, col: 12, offset: 90886},
 																run: (*parser).callonDocumentFragment1159,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90855},
+																	pos: position{line: 2874, col: 13, offset: 90887},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90855},
+																			pos:        position{line: 2874, col: 13, offset: 90887},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90862},
+																			pos:        position{line: 2874, col: 20, offset: 90894},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90871},
+																			pos:        position{line: 2874, col: 29, offset: 90903},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9313,36 +9313,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 91031},
+																pos: position{line: 2884, col: 8, offset: 91063},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 91032,
+																	line: 2884, col: 9, offset: 91064,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2886, col: 8, offset: 91081},
+														pos: position{line: 2887, col: 8, offset: 91113},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90854},
+																pos: position{line: 2874, col: 12, offset: 90886},
 																run: (*parser).callonDocumentFragment1167,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90855},
+																	pos: position{line: 2874, col: 13, offset: 90887},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90855},
+																			pos:        position{line: 2874, col: 13, offset: 90887},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90862},
+																			pos:        position{line: 2874, col: 20, offset: 90894},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90871},
+																			pos:        position{line: 2874, col: 29, offset: 90903},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9351,9 +9351,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 91031},
+																pos: position{line: 2884, col: 8, offset: 91063},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 91032,
+																	line: 2884, col: 9, offset: 91064,
 																},
 															},
 														},
@@ -9366,24 +9366,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2600, col: 5, offset: 83167},
+											pos: position{line: 2601, col: 5, offset: 83199},
 											run: (*parser).callonDocumentFragment1175,
 											expr: &seqExpr{
-												pos: position{line: 2600, col: 5, offset: 83167},
+												pos: position{line: 2601, col: 5, offset: 83199},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2606, col: 19, offset: 83324},
+														pos:        position{line: 2607, col: 19, offset: 83356},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2606, col: 26, offset: 83331},
+														pos: position{line: 2607, col: 26, offset: 83363},
 														expr: &actionExpr{
-															pos: position{line: 2864, col: 10, offset: 90683},
+															pos: position{line: 2865, col: 10, offset: 90715},
 															run: (*parser).callonDocumentFragment1179,
 															expr: &charClassMatcher{
-																pos:        position{line: 2864, col: 10, offset: 90683},
+																pos:        position{line: 2865, col: 10, offset: 90715},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9392,28 +9392,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2886, col: 8, offset: 91081},
+														pos: position{line: 2887, col: 8, offset: 91113},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90854},
+																pos: position{line: 2874, col: 12, offset: 90886},
 																run: (*parser).callonDocumentFragment1182,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90855},
+																	pos: position{line: 2874, col: 13, offset: 90887},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90855},
+																			pos:        position{line: 2874, col: 13, offset: 90887},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90862},
+																			pos:        position{line: 2874, col: 20, offset: 90894},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90871},
+																			pos:        position{line: 2874, col: 29, offset: 90903},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9422,20 +9422,20 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 91031},
+																pos: position{line: 2884, col: 8, offset: 91063},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 91032,
+																	line: 2884, col: 9, offset: 91064,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2601, col: 5, offset: 83191},
+														pos:   position{line: 2602, col: 5, offset: 83223},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2601, col: 11, offset: 83197},
+															pos: position{line: 2602, col: 11, offset: 83229},
 															expr: &choiceExpr{
-																pos: position{line: 2601, col: 12, offset: 83198},
+																pos: position{line: 2602, col: 12, offset: 83230},
 																alternatives: []interface{}{
 																	&actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
@@ -9444,18 +9444,18 @@ var g = &grammar{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2881, col: 11, offset: 91017},
+																					pos: position{line: 2882, col: 11, offset: 91049},
 																					expr: &anyMatcher{
-																						line: 2881, col: 13, offset: 91019,
+																						line: 2882, col: 13, offset: 91051,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2864, col: 10, offset: 90683},
+																						pos: position{line: 2865, col: 10, offset: 90715},
 																						run: (*parser).callonDocumentFragment1197,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2864, col: 10, offset: 90683},
+																							pos:        position{line: 2865, col: 10, offset: 90715},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9464,28 +9464,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2886, col: 8, offset: 91081},
+																					pos: position{line: 2887, col: 8, offset: 91113},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2873, col: 12, offset: 90854},
+																							pos: position{line: 2874, col: 12, offset: 90886},
 																							run: (*parser).callonDocumentFragment1200,
 																							expr: &choiceExpr{
-																								pos: position{line: 2873, col: 13, offset: 90855},
+																								pos: position{line: 2874, col: 13, offset: 90887},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 13, offset: 90855},
+																										pos:        position{line: 2874, col: 13, offset: 90887},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 20, offset: 90862},
+																										pos:        position{line: 2874, col: 20, offset: 90894},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 29, offset: 90871},
+																										pos:        position{line: 2874, col: 29, offset: 90903},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9494,9 +9494,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2883, col: 8, offset: 91031},
+																							pos: position{line: 2884, col: 8, offset: 91063},
 																							expr: &anyMatcher{
-																								line: 2883, col: 9, offset: 91032,
+																								line: 2884, col: 9, offset: 91064,
 																							},
 																						},
 																					},
@@ -9505,32 +9505,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2613, col: 5, offset: 83443},
+																		pos: position{line: 2614, col: 5, offset: 83475},
 																		run: (*parser).callonDocumentFragment1207,
 																		expr: &seqExpr{
-																			pos: position{line: 2613, col: 5, offset: 83443},
+																			pos: position{line: 2614, col: 5, offset: 83475},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2613, col: 5, offset: 83443},
+																					pos: position{line: 2614, col: 5, offset: 83475},
 																					expr: &choiceExpr{
-																						pos: position{line: 2610, col: 22, offset: 83404},
+																						pos: position{line: 2611, col: 22, offset: 83436},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2606, col: 19, offset: 83324},
+																								pos: position{line: 2607, col: 19, offset: 83356},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2606, col: 19, offset: 83324},
+																										pos:        position{line: 2607, col: 19, offset: 83356},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2606, col: 26, offset: 83331},
+																										pos: position{line: 2607, col: 26, offset: 83363},
 																										expr: &actionExpr{
-																											pos: position{line: 2864, col: 10, offset: 90683},
+																											pos: position{line: 2865, col: 10, offset: 90715},
 																											run: (*parser).callonDocumentFragment1214,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2864, col: 10, offset: 90683},
+																												pos:        position{line: 2865, col: 10, offset: 90715},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9539,28 +9539,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2886, col: 8, offset: 91081},
+																										pos: position{line: 2887, col: 8, offset: 91113},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2873, col: 12, offset: 90854},
+																												pos: position{line: 2874, col: 12, offset: 90886},
 																												run: (*parser).callonDocumentFragment1217,
 																												expr: &choiceExpr{
-																													pos: position{line: 2873, col: 13, offset: 90855},
+																													pos: position{line: 2874, col: 13, offset: 90887},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2873, col: 13, offset: 90855},
+																															pos:        position{line: 2874, col: 13, offset: 90887},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2873, col: 20, offset: 90862},
+																															pos:        position{line: 2874, col: 20, offset: 90894},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2873, col: 29, offset: 90871},
+																															pos:        position{line: 2874, col: 29, offset: 90903},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9569,9 +9569,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2883, col: 8, offset: 91031},
+																												pos: position{line: 2884, col: 8, offset: 91063},
 																												expr: &anyMatcher{
-																													line: 2883, col: 9, offset: 91032,
+																													line: 2884, col: 9, offset: 91064,
 																												},
 																											},
 																										},
@@ -9579,59 +9579,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 91031},
+																								pos: position{line: 2884, col: 8, offset: 91063},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 91032,
+																									line: 2884, col: 9, offset: 91064,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2614, col: 5, offset: 83466},
+																					pos:   position{line: 2615, col: 5, offset: 83498},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2615, col: 9, offset: 83484},
+																						pos: position{line: 2616, col: 9, offset: 83516},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2615, col: 10, offset: 83485},
+																								pos: position{line: 2616, col: 10, offset: 83517},
 																								run: (*parser).callonDocumentFragment1228,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2615, col: 10, offset: 83485},
+																									pos:   position{line: 2616, col: 10, offset: 83517},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2615, col: 17, offset: 83492},
+																										pos: position{line: 2616, col: 17, offset: 83524},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2623, col: 21, offset: 83688},
+																												pos: position{line: 2624, col: 21, offset: 83720},
 																												run: (*parser).callonDocumentFragment1231,
 																												expr: &seqExpr{
-																													pos: position{line: 2623, col: 21, offset: 83688},
+																													pos: position{line: 2624, col: 21, offset: 83720},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2623, col: 21, offset: 83688},
+																															pos:   position{line: 2624, col: 21, offset: 83720},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2623, col: 27, offset: 83694},
+																																pos: position{line: 2624, col: 27, offset: 83726},
 																																expr: &actionExpr{
-																																	pos: position{line: 2628, col: 5, offset: 83769},
+																																	pos: position{line: 2629, col: 5, offset: 83801},
 																																	run: (*parser).callonDocumentFragment1235,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2628, col: 5, offset: 83769},
+																																		pos: position{line: 2629, col: 5, offset: 83801},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2628, col: 5, offset: 83769},
+																																				pos:        position{line: 2629, col: 5, offset: 83801},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2628, col: 9, offset: 83773},
+																																				pos: position{line: 2629, col: 9, offset: 83805},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2864, col: 10, offset: 90683},
+																																					pos: position{line: 2865, col: 10, offset: 90715},
 																																					run: (*parser).callonDocumentFragment1239,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2864, col: 10, offset: 90683},
+																																						pos:        position{line: 2865, col: 10, offset: 90715},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9640,21 +9640,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2628, col: 16, offset: 83780},
+																																				pos:   position{line: 2629, col: 16, offset: 83812},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2634, col: 5, offset: 83980},
+																																					pos: position{line: 2635, col: 5, offset: 84012},
 																																					run: (*parser).callonDocumentFragment1242,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2634, col: 5, offset: 83980},
+																																						pos:   position{line: 2635, col: 5, offset: 84012},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2634, col: 14, offset: 83989},
+																																							pos: position{line: 2635, col: 14, offset: 84021},
 																																							run: (*parser).callonDocumentFragment1244,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2634, col: 14, offset: 83989},
+																																								pos: position{line: 2635, col: 14, offset: 84021},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2634, col: 14, offset: 83989},
+																																									pos:        position{line: 2635, col: 14, offset: 84021},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9671,28 +9671,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2886, col: 8, offset: 91081},
+																															pos: position{line: 2887, col: 8, offset: 91113},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2873, col: 12, offset: 90854},
+																																	pos: position{line: 2874, col: 12, offset: 90886},
 																																	run: (*parser).callonDocumentFragment1248,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2873, col: 13, offset: 90855},
+																																		pos: position{line: 2874, col: 13, offset: 90887},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2873, col: 13, offset: 90855},
+																																				pos:        position{line: 2874, col: 13, offset: 90887},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2873, col: 20, offset: 90862},
+																																				pos:        position{line: 2874, col: 20, offset: 90894},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2873, col: 29, offset: 90871},
+																																				pos:        position{line: 2874, col: 29, offset: 90903},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9701,9 +9701,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2883, col: 8, offset: 91031},
+																																	pos: position{line: 2884, col: 8, offset: 91063},
 																																	expr: &anyMatcher{
-																																		line: 2883, col: 9, offset: 91032,
+																																		line: 2884, col: 9, offset: 91064,
 																																	},
 																																},
 																															},
@@ -9712,40 +9712,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2640, col: 24, offset: 84125},
+																												pos: position{line: 2641, col: 24, offset: 84157},
 																												run: (*parser).callonDocumentFragment1255,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2640, col: 24, offset: 84125},
+																													pos:   position{line: 2641, col: 24, offset: 84157},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2640, col: 30, offset: 84131},
+																														pos: position{line: 2641, col: 30, offset: 84163},
 																														expr: &actionExpr{
-																															pos: position{line: 2645, col: 5, offset: 84207},
+																															pos: position{line: 2646, col: 5, offset: 84239},
 																															run: (*parser).callonDocumentFragment1258,
 																															expr: &seqExpr{
-																																pos: position{line: 2645, col: 5, offset: 84207},
+																																pos: position{line: 2646, col: 5, offset: 84239},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2645, col: 5, offset: 84207},
+																																		pos: position{line: 2646, col: 5, offset: 84239},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2610, col: 22, offset: 83404},
+																																			pos: position{line: 2611, col: 22, offset: 83436},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2606, col: 19, offset: 83324},
+																																					pos: position{line: 2607, col: 19, offset: 83356},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2606, col: 19, offset: 83324},
+																																							pos:        position{line: 2607, col: 19, offset: 83356},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2606, col: 26, offset: 83331},
+																																							pos: position{line: 2607, col: 26, offset: 83363},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2864, col: 10, offset: 90683},
+																																								pos: position{line: 2865, col: 10, offset: 90715},
 																																								run: (*parser).callonDocumentFragment1265,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2864, col: 10, offset: 90683},
+																																									pos:        position{line: 2865, col: 10, offset: 90715},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9754,28 +9754,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2886, col: 8, offset: 91081},
+																																							pos: position{line: 2887, col: 8, offset: 91113},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2873, col: 12, offset: 90854},
+																																									pos: position{line: 2874, col: 12, offset: 90886},
 																																									run: (*parser).callonDocumentFragment1268,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2873, col: 13, offset: 90855},
+																																										pos: position{line: 2874, col: 13, offset: 90887},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2873, col: 13, offset: 90855},
+																																												pos:        position{line: 2874, col: 13, offset: 90887},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2873, col: 20, offset: 90862},
+																																												pos:        position{line: 2874, col: 20, offset: 90894},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2873, col: 29, offset: 90871},
+																																												pos:        position{line: 2874, col: 29, offset: 90903},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9784,9 +9784,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2883, col: 8, offset: 91031},
+																																									pos: position{line: 2884, col: 8, offset: 91063},
 																																									expr: &anyMatcher{
-																																										line: 2883, col: 9, offset: 91032,
+																																										line: 2884, col: 9, offset: 91064,
 																																									},
 																																								},
 																																							},
@@ -9794,16 +9794,16 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2883, col: 8, offset: 91031},
+																																					pos: position{line: 2884, col: 8, offset: 91063},
 																																					expr: &anyMatcher{
-																																						line: 2883, col: 9, offset: 91032,
+																																						line: 2884, col: 9, offset: 91064,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2646, col: 5, offset: 84230},
+																																		pos: position{line: 2647, col: 5, offset: 84262},
 																																		expr: &actionExpr{
 																																			pos: position{line: 677, col: 14, offset: 21489},
 																																			run: (*parser).callonDocumentFragment1278,
@@ -9811,18 +9811,18 @@ var g = &grammar{
 																																				pos: position{line: 677, col: 14, offset: 21489},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2881, col: 11, offset: 91017},
+																																						pos: position{line: 2882, col: 11, offset: 91049},
 																																						expr: &anyMatcher{
-																																							line: 2881, col: 13, offset: 91019,
+																																							line: 2882, col: 13, offset: 91051,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
 																																						pos: position{line: 677, col: 21, offset: 21496},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2864, col: 10, offset: 90683},
+																																							pos: position{line: 2865, col: 10, offset: 90715},
 																																							run: (*parser).callonDocumentFragment1283,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2864, col: 10, offset: 90683},
+																																								pos:        position{line: 2865, col: 10, offset: 90715},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9831,28 +9831,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2886, col: 8, offset: 91081},
+																																						pos: position{line: 2887, col: 8, offset: 91113},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2873, col: 12, offset: 90854},
+																																								pos: position{line: 2874, col: 12, offset: 90886},
 																																								run: (*parser).callonDocumentFragment1286,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2873, col: 13, offset: 90855},
+																																									pos: position{line: 2874, col: 13, offset: 90887},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2873, col: 13, offset: 90855},
+																																											pos:        position{line: 2874, col: 13, offset: 90887},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2873, col: 20, offset: 90862},
+																																											pos:        position{line: 2874, col: 20, offset: 90894},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2873, col: 29, offset: 90871},
+																																											pos:        position{line: 2874, col: 29, offset: 90903},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9861,9 +9861,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2883, col: 8, offset: 91031},
+																																								pos: position{line: 2884, col: 8, offset: 91063},
 																																								expr: &anyMatcher{
-																																									line: 2883, col: 9, offset: 91032,
+																																									line: 2884, col: 9, offset: 91064,
 																																								},
 																																							},
 																																						},
@@ -9873,17 +9873,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2647, col: 5, offset: 84245},
+																																		pos:   position{line: 2648, col: 5, offset: 84277},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2647, col: 12, offset: 84252},
+																																			pos: position{line: 2648, col: 12, offset: 84284},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2664, col: 20, offset: 84758},
+																																				pos: position{line: 2665, col: 20, offset: 84790},
 																																				run: (*parser).callonDocumentFragment1295,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2664, col: 20, offset: 84758},
+																																					pos: position{line: 2665, col: 20, offset: 84790},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2664, col: 20, offset: 84758},
+																																						pos:        position{line: 2665, col: 20, offset: 84790},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9894,18 +9894,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2647, col: 31, offset: 84271},
+																																		pos:        position{line: 2648, col: 31, offset: 84303},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2647, col: 35, offset: 84275},
+																																		pos: position{line: 2648, col: 35, offset: 84307},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2864, col: 10, offset: 90683},
+																																			pos: position{line: 2865, col: 10, offset: 90715},
 																																			run: (*parser).callonDocumentFragment1300,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2864, col: 10, offset: 90683},
+																																				pos:        position{line: 2865, col: 10, offset: 90715},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9914,30 +9914,30 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2647, col: 42, offset: 84282},
+																																		pos: position{line: 2648, col: 42, offset: 84314},
 																																		expr: &seqExpr{
-																																			pos: position{line: 2647, col: 43, offset: 84283},
+																																			pos: position{line: 2648, col: 43, offset: 84315},
 																																			exprs: []interface{}{
 																																				&actionExpr{
-																																					pos: position{line: 2873, col: 12, offset: 90854},
+																																					pos: position{line: 2874, col: 12, offset: 90886},
 																																					run: (*parser).callonDocumentFragment1304,
 																																					expr: &choiceExpr{
-																																						pos: position{line: 2873, col: 13, offset: 90855},
+																																						pos: position{line: 2874, col: 13, offset: 90887},
 																																						alternatives: []interface{}{
 																																							&litMatcher{
-																																								pos:        position{line: 2873, col: 13, offset: 90855},
+																																								pos:        position{line: 2874, col: 13, offset: 90887},
 																																								val:        "\n",
 																																								ignoreCase: false,
 																																								want:       "\"\\n\"",
 																																							},
 																																							&litMatcher{
-																																								pos:        position{line: 2873, col: 20, offset: 90862},
+																																								pos:        position{line: 2874, col: 20, offset: 90894},
 																																								val:        "\r\n",
 																																								ignoreCase: false,
 																																								want:       "\"\\r\\n\"",
 																																							},
 																																							&litMatcher{
-																																								pos:        position{line: 2873, col: 29, offset: 90871},
+																																								pos:        position{line: 2874, col: 29, offset: 90903},
 																																								val:        "\r",
 																																								ignoreCase: false,
 																																								want:       "\"\\r\"",
@@ -9946,38 +9946,38 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 2647, col: 51, offset: 84291},
+																																					pos: position{line: 2648, col: 51, offset: 84323},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2474, col: 22, offset: 79626},
+																																						pos: position{line: 2475, col: 22, offset: 79658},
 																																						run: (*parser).callonDocumentFragment1310,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2474, col: 22, offset: 79626},
+																																							pos: position{line: 2475, col: 22, offset: 79658},
 																																							exprs: []interface{}{
 																																								&litMatcher{
-																																									pos:        position{line: 2479, col: 31, offset: 79847},
+																																									pos:        position{line: 2480, col: 31, offset: 79879},
 																																									val:        "//",
 																																									ignoreCase: false,
 																																									want:       "\"//\"",
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2479, col: 36, offset: 79852},
+																																									pos: position{line: 2480, col: 36, offset: 79884},
 																																									expr: &litMatcher{
-																																										pos:        position{line: 2479, col: 37, offset: 79853},
+																																										pos:        position{line: 2480, col: 37, offset: 79885},
 																																										val:        "//",
 																																										ignoreCase: false,
 																																										want:       "\"//\"",
 																																									},
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2474, col: 49, offset: 79653},
+																																									pos:   position{line: 2475, col: 49, offset: 79685},
 																																									label: "content",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2810, col: 13, offset: 89209},
+																																										pos: position{line: 2811, col: 13, offset: 89241},
 																																										run: (*parser).callonDocumentFragment1316,
 																																										expr: &zeroOrMoreExpr{
-																																											pos: position{line: 2810, col: 13, offset: 89209},
+																																											pos: position{line: 2811, col: 13, offset: 89241},
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2810, col: 13, offset: 89209},
+																																												pos:        position{line: 2811, col: 13, offset: 89241},
 																																												val:        "[^\\r\\n]",
 																																												chars:      []rune{'\r', '\n'},
 																																												ignoreCase: false,
@@ -9987,28 +9987,28 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&choiceExpr{
-																																									pos: position{line: 2886, col: 8, offset: 91081},
+																																									pos: position{line: 2887, col: 8, offset: 91113},
 																																									alternatives: []interface{}{
 																																										&actionExpr{
-																																											pos: position{line: 2873, col: 12, offset: 90854},
+																																											pos: position{line: 2874, col: 12, offset: 90886},
 																																											run: (*parser).callonDocumentFragment1320,
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2873, col: 13, offset: 90855},
+																																												pos: position{line: 2874, col: 13, offset: 90887},
 																																												alternatives: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2873, col: 13, offset: 90855},
+																																														pos:        position{line: 2874, col: 13, offset: 90887},
 																																														val:        "\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2873, col: 20, offset: 90862},
+																																														pos:        position{line: 2874, col: 20, offset: 90894},
 																																														val:        "\r\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2873, col: 29, offset: 90871},
+																																														pos:        position{line: 2874, col: 29, offset: 90903},
 																																														val:        "\r",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\"",
@@ -10017,9 +10017,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2883, col: 8, offset: 91031},
+																																											pos: position{line: 2884, col: 8, offset: 91063},
 																																											expr: &anyMatcher{
-																																												line: 2883, col: 9, offset: 91032,
+																																												line: 2884, col: 9, offset: 91064,
 																																											},
 																																										},
 																																									},
@@ -10032,37 +10032,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2647, col: 72, offset: 84312},
+																																		pos:   position{line: 2648, col: 72, offset: 84344},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2653, col: 5, offset: 84471},
+																																			pos: position{line: 2654, col: 5, offset: 84503},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2654, col: 9, offset: 84481},
+																																				pos: position{line: 2655, col: 9, offset: 84513},
 																																				run: (*parser).callonDocumentFragment1329,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2654, col: 9, offset: 84481},
+																																					pos: position{line: 2655, col: 9, offset: 84513},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2654, col: 9, offset: 84481},
+																																							pos: position{line: 2655, col: 9, offset: 84513},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2610, col: 22, offset: 83404},
+																																								pos: position{line: 2611, col: 22, offset: 83436},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2606, col: 19, offset: 83324},
+																																										pos: position{line: 2607, col: 19, offset: 83356},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2606, col: 19, offset: 83324},
+																																												pos:        position{line: 2607, col: 19, offset: 83356},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2606, col: 26, offset: 83331},
+																																												pos: position{line: 2607, col: 26, offset: 83363},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2864, col: 10, offset: 90683},
+																																													pos: position{line: 2865, col: 10, offset: 90715},
 																																													run: (*parser).callonDocumentFragment1336,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2864, col: 10, offset: 90683},
+																																														pos:        position{line: 2865, col: 10, offset: 90715},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -10071,28 +10071,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2886, col: 8, offset: 91081},
+																																												pos: position{line: 2887, col: 8, offset: 91113},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2873, col: 12, offset: 90854},
+																																														pos: position{line: 2874, col: 12, offset: 90886},
 																																														run: (*parser).callonDocumentFragment1339,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2873, col: 13, offset: 90855},
+																																															pos: position{line: 2874, col: 13, offset: 90887},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2873, col: 13, offset: 90855},
+																																																	pos:        position{line: 2874, col: 13, offset: 90887},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2873, col: 20, offset: 90862},
+																																																	pos:        position{line: 2874, col: 20, offset: 90894},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2873, col: 29, offset: 90871},
+																																																	pos:        position{line: 2874, col: 29, offset: 90903},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -10101,9 +10101,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2883, col: 8, offset: 91031},
+																																														pos: position{line: 2884, col: 8, offset: 91063},
 																																														expr: &anyMatcher{
-																																															line: 2883, col: 9, offset: 91032,
+																																															line: 2884, col: 9, offset: 91064,
 																																														},
 																																													},
 																																												},
@@ -10111,16 +10111,16 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2883, col: 8, offset: 91031},
+																																										pos: position{line: 2884, col: 8, offset: 91063},
 																																										expr: &anyMatcher{
-																																											line: 2883, col: 9, offset: 91032,
+																																											line: 2884, col: 9, offset: 91064,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2655, col: 9, offset: 84508},
+																																							pos: position{line: 2656, col: 9, offset: 84540},
 																																							expr: &actionExpr{
 																																								pos: position{line: 677, col: 14, offset: 21489},
 																																								run: (*parser).callonDocumentFragment1349,
@@ -10128,18 +10128,18 @@ var g = &grammar{
 																																									pos: position{line: 677, col: 14, offset: 21489},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2881, col: 11, offset: 91017},
+																																											pos: position{line: 2882, col: 11, offset: 91049},
 																																											expr: &anyMatcher{
-																																												line: 2881, col: 13, offset: 91019,
+																																												line: 2882, col: 13, offset: 91051,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
 																																											pos: position{line: 677, col: 21, offset: 21496},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2864, col: 10, offset: 90683},
+																																												pos: position{line: 2865, col: 10, offset: 90715},
 																																												run: (*parser).callonDocumentFragment1354,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2864, col: 10, offset: 90683},
+																																													pos:        position{line: 2865, col: 10, offset: 90715},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -10148,28 +10148,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2886, col: 8, offset: 91081},
+																																											pos: position{line: 2887, col: 8, offset: 91113},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2873, col: 12, offset: 90854},
+																																													pos: position{line: 2874, col: 12, offset: 90886},
 																																													run: (*parser).callonDocumentFragment1357,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2873, col: 13, offset: 90855},
+																																														pos: position{line: 2874, col: 13, offset: 90887},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2873, col: 13, offset: 90855},
+																																																pos:        position{line: 2874, col: 13, offset: 90887},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2873, col: 20, offset: 90862},
+																																																pos:        position{line: 2874, col: 20, offset: 90894},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2873, col: 29, offset: 90871},
+																																																pos:        position{line: 2874, col: 29, offset: 90903},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -10178,9 +10178,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2883, col: 8, offset: 91031},
+																																													pos: position{line: 2884, col: 8, offset: 91063},
 																																													expr: &anyMatcher{
-																																														line: 2883, col: 9, offset: 91032,
+																																														line: 2884, col: 9, offset: 91064,
 																																													},
 																																												},
 																																											},
@@ -10190,22 +10190,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2656, col: 9, offset: 84527},
+																																							pos: position{line: 2657, col: 9, offset: 84559},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2656, col: 11, offset: 84529},
+																																								pos: position{line: 2657, col: 11, offset: 84561},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2656, col: 11, offset: 84529},
+																																										pos:   position{line: 2657, col: 11, offset: 84561},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2656, col: 18, offset: 84536},
+																																											pos: position{line: 2657, col: 18, offset: 84568},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2664, col: 20, offset: 84758},
+																																												pos: position{line: 2665, col: 20, offset: 84790},
 																																												run: (*parser).callonDocumentFragment1368,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2664, col: 20, offset: 84758},
+																																													pos: position{line: 2665, col: 20, offset: 84790},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2664, col: 20, offset: 84758},
+																																														pos:        position{line: 2665, col: 20, offset: 84790},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -10216,7 +10216,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2656, col: 37, offset: 84555},
+																																										pos:        position{line: 2657, col: 37, offset: 84587},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -10225,15 +10225,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2657, col: 9, offset: 84568},
+																																							pos:   position{line: 2658, col: 9, offset: 84600},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2657, col: 18, offset: 84577},
+																																								pos: position{line: 2658, col: 18, offset: 84609},
 																																								run: (*parser).callonDocumentFragment1373,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2657, col: 18, offset: 84577},
+																																									pos: position{line: 2658, col: 18, offset: 84609},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2657, col: 18, offset: 84577},
+																																										pos:        position{line: 2658, col: 18, offset: 84609},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -10243,33 +10243,33 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2659, col: 12, offset: 84639},
+																																							pos: position{line: 2660, col: 12, offset: 84671},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2659, col: 13, offset: 84640},
+																																								pos: position{line: 2660, col: 13, offset: 84672},
 																																								exprs: []interface{}{
 																																									&choiceExpr{
-																																										pos: position{line: 2886, col: 8, offset: 91081},
+																																										pos: position{line: 2887, col: 8, offset: 91113},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2873, col: 12, offset: 90854},
+																																												pos: position{line: 2874, col: 12, offset: 90886},
 																																												run: (*parser).callonDocumentFragment1379,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2873, col: 13, offset: 90855},
+																																													pos: position{line: 2874, col: 13, offset: 90887},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2873, col: 13, offset: 90855},
+																																															pos:        position{line: 2874, col: 13, offset: 90887},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2873, col: 20, offset: 90862},
+																																															pos:        position{line: 2874, col: 20, offset: 90894},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2873, col: 29, offset: 90871},
+																																															pos:        position{line: 2874, col: 29, offset: 90903},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -10278,46 +10278,46 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2883, col: 8, offset: 91031},
+																																												pos: position{line: 2884, col: 8, offset: 91063},
 																																												expr: &anyMatcher{
-																																													line: 2883, col: 9, offset: 91032,
+																																													line: 2884, col: 9, offset: 91064,
 																																												},
 																																											},
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
-																																										pos: position{line: 2659, col: 17, offset: 84644},
+																																										pos: position{line: 2660, col: 17, offset: 84676},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2474, col: 22, offset: 79626},
+																																											pos: position{line: 2475, col: 22, offset: 79658},
 																																											run: (*parser).callonDocumentFragment1387,
 																																											expr: &seqExpr{
-																																												pos: position{line: 2474, col: 22, offset: 79626},
+																																												pos: position{line: 2475, col: 22, offset: 79658},
 																																												exprs: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2479, col: 31, offset: 79847},
+																																														pos:        position{line: 2480, col: 31, offset: 79879},
 																																														val:        "//",
 																																														ignoreCase: false,
 																																														want:       "\"//\"",
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2479, col: 36, offset: 79852},
+																																														pos: position{line: 2480, col: 36, offset: 79884},
 																																														expr: &litMatcher{
-																																															pos:        position{line: 2479, col: 37, offset: 79853},
+																																															pos:        position{line: 2480, col: 37, offset: 79885},
 																																															val:        "//",
 																																															ignoreCase: false,
 																																															want:       "\"//\"",
 																																														},
 																																													},
 																																													&labeledExpr{
-																																														pos:   position{line: 2474, col: 49, offset: 79653},
+																																														pos:   position{line: 2475, col: 49, offset: 79685},
 																																														label: "content",
 																																														expr: &actionExpr{
-																																															pos: position{line: 2810, col: 13, offset: 89209},
+																																															pos: position{line: 2811, col: 13, offset: 89241},
 																																															run: (*parser).callonDocumentFragment1393,
 																																															expr: &zeroOrMoreExpr{
-																																																pos: position{line: 2810, col: 13, offset: 89209},
+																																																pos: position{line: 2811, col: 13, offset: 89241},
 																																																expr: &charClassMatcher{
-																																																	pos:        position{line: 2810, col: 13, offset: 89209},
+																																																	pos:        position{line: 2811, col: 13, offset: 89241},
 																																																	val:        "[^\\r\\n]",
 																																																	chars:      []rune{'\r', '\n'},
 																																																	ignoreCase: false,
@@ -10327,28 +10327,28 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&choiceExpr{
-																																														pos: position{line: 2886, col: 8, offset: 91081},
+																																														pos: position{line: 2887, col: 8, offset: 91113},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2873, col: 12, offset: 90854},
+																																																pos: position{line: 2874, col: 12, offset: 90886},
 																																																run: (*parser).callonDocumentFragment1397,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2873, col: 13, offset: 90855},
+																																																	pos: position{line: 2874, col: 13, offset: 90887},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2873, col: 13, offset: 90855},
+																																																			pos:        position{line: 2874, col: 13, offset: 90887},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2873, col: 20, offset: 90862},
+																																																			pos:        position{line: 2874, col: 20, offset: 90894},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2873, col: 29, offset: 90871},
+																																																			pos:        position{line: 2874, col: 29, offset: 90903},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -10357,9 +10357,9 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2883, col: 8, offset: 91031},
+																																																pos: position{line: 2884, col: 8, offset: 91063},
 																																																expr: &anyMatcher{
-																																																	line: 2883, col: 9, offset: 91032,
+																																																	line: 2884, col: 9, offset: 91064,
 																																																},
 																																															},
 																																														},
@@ -10393,18 +10393,18 @@ var g = &grammar{
 																									pos: position{line: 677, col: 14, offset: 21489},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2881, col: 11, offset: 91017},
+																											pos: position{line: 2882, col: 11, offset: 91049},
 																											expr: &anyMatcher{
-																												line: 2881, col: 13, offset: 91019,
+																												line: 2882, col: 13, offset: 91051,
 																											},
 																										},
 																										&zeroOrMoreExpr{
 																											pos: position{line: 677, col: 21, offset: 21496},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90683},
+																												pos: position{line: 2865, col: 10, offset: 90715},
 																												run: (*parser).callonDocumentFragment1409,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90683},
+																													pos:        position{line: 2865, col: 10, offset: 90715},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10413,28 +10413,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91081},
+																											pos: position{line: 2887, col: 8, offset: 91113},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90854},
+																													pos: position{line: 2874, col: 12, offset: 90886},
 																													run: (*parser).callonDocumentFragment1412,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90855},
+																														pos: position{line: 2874, col: 13, offset: 90887},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90855},
+																																pos:        position{line: 2874, col: 13, offset: 90887},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90862},
+																																pos:        position{line: 2874, col: 20, offset: 90894},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90871},
+																																pos:        position{line: 2874, col: 29, offset: 90903},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10443,9 +10443,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 91031},
+																													pos: position{line: 2884, col: 8, offset: 91063},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 91032,
+																														line: 2884, col: 9, offset: 91064,
 																													},
 																												},
 																											},
@@ -10464,24 +10464,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2610, col: 22, offset: 83404},
+														pos: position{line: 2611, col: 22, offset: 83436},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2606, col: 19, offset: 83324},
+																pos: position{line: 2607, col: 19, offset: 83356},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2606, col: 19, offset: 83324},
+																		pos:        position{line: 2607, col: 19, offset: 83356},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2606, col: 26, offset: 83331},
+																		pos: position{line: 2607, col: 26, offset: 83363},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90683},
+																			pos: position{line: 2865, col: 10, offset: 90715},
 																			run: (*parser).callonDocumentFragment1423,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90683},
+																				pos:        position{line: 2865, col: 10, offset: 90715},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10490,28 +10490,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91081},
+																		pos: position{line: 2887, col: 8, offset: 91113},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90854},
+																				pos: position{line: 2874, col: 12, offset: 90886},
 																				run: (*parser).callonDocumentFragment1426,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90855},
+																					pos: position{line: 2874, col: 13, offset: 90887},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90855},
+																							pos:        position{line: 2874, col: 13, offset: 90887},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90862},
+																							pos:        position{line: 2874, col: 20, offset: 90894},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90871},
+																							pos:        position{line: 2874, col: 29, offset: 90903},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10520,9 +10520,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 91031},
+																				pos: position{line: 2884, col: 8, offset: 91063},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 91032,
+																					line: 2884, col: 9, offset: 91064,
 																				},
 																			},
 																		},
@@ -10530,9 +10530,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 91031},
+																pos: position{line: 2884, col: 8, offset: 91063},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 91032,
+																	line: 2884, col: 9, offset: 91064,
 																},
 															},
 														},
@@ -10541,36 +10541,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2474, col: 22, offset: 79626},
+											pos: position{line: 2475, col: 22, offset: 79658},
 											run: (*parser).callonDocumentFragment1435,
 											expr: &seqExpr{
-												pos: position{line: 2474, col: 22, offset: 79626},
+												pos: position{line: 2475, col: 22, offset: 79658},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2479, col: 31, offset: 79847},
+														pos:        position{line: 2480, col: 31, offset: 79879},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2479, col: 36, offset: 79852},
+														pos: position{line: 2480, col: 36, offset: 79884},
 														expr: &litMatcher{
-															pos:        position{line: 2479, col: 37, offset: 79853},
+															pos:        position{line: 2480, col: 37, offset: 79885},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2474, col: 49, offset: 79653},
+														pos:   position{line: 2475, col: 49, offset: 79685},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2810, col: 13, offset: 89209},
+															pos: position{line: 2811, col: 13, offset: 89241},
 															run: (*parser).callonDocumentFragment1441,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2810, col: 13, offset: 89209},
+																pos: position{line: 2811, col: 13, offset: 89241},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2810, col: 13, offset: 89209},
+																	pos:        position{line: 2811, col: 13, offset: 89241},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10580,28 +10580,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2886, col: 8, offset: 91081},
+														pos: position{line: 2887, col: 8, offset: 91113},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90854},
+																pos: position{line: 2874, col: 12, offset: 90886},
 																run: (*parser).callonDocumentFragment1445,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90855},
+																	pos: position{line: 2874, col: 13, offset: 90887},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90855},
+																			pos:        position{line: 2874, col: 13, offset: 90887},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90862},
+																			pos:        position{line: 2874, col: 20, offset: 90894},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90871},
+																			pos:        position{line: 2874, col: 29, offset: 90903},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10610,9 +10610,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 91031},
+																pos: position{line: 2884, col: 8, offset: 91063},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 91032,
+																	line: 2884, col: 9, offset: 91064,
 																},
 															},
 														},
@@ -10648,10 +10648,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1246, col: 36, offset: 38599},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90683},
+																			pos: position{line: 2865, col: 10, offset: 90715},
 																			run: (*parser).callonDocumentFragment1460,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90683},
+																				pos:        position{line: 2865, col: 10, offset: 90715},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10660,28 +10660,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91081},
+																		pos: position{line: 2887, col: 8, offset: 91113},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90854},
+																				pos: position{line: 2874, col: 12, offset: 90886},
 																				run: (*parser).callonDocumentFragment1463,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90855},
+																					pos: position{line: 2874, col: 13, offset: 90887},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90855},
+																							pos:        position{line: 2874, col: 13, offset: 90887},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90862},
+																							pos:        position{line: 2874, col: 20, offset: 90894},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90871},
+																							pos:        position{line: 2874, col: 29, offset: 90903},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10690,9 +10690,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 91031},
+																				pos: position{line: 2884, col: 8, offset: 91063},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 91032,
+																					line: 2884, col: 9, offset: 91064,
 																				},
 																			},
 																		},
@@ -10726,10 +10726,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1246, col: 36, offset: 38599},
 																												expr: &actionExpr{
-																													pos: position{line: 2864, col: 10, offset: 90683},
+																													pos: position{line: 2865, col: 10, offset: 90715},
 																													run: (*parser).callonDocumentFragment1480,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2864, col: 10, offset: 90683},
+																														pos:        position{line: 2865, col: 10, offset: 90715},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10738,28 +10738,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2886, col: 8, offset: 91081},
+																												pos: position{line: 2887, col: 8, offset: 91113},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2873, col: 12, offset: 90854},
+																														pos: position{line: 2874, col: 12, offset: 90886},
 																														run: (*parser).callonDocumentFragment1483,
 																														expr: &choiceExpr{
-																															pos: position{line: 2873, col: 13, offset: 90855},
+																															pos: position{line: 2874, col: 13, offset: 90887},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 13, offset: 90855},
+																																	pos:        position{line: 2874, col: 13, offset: 90887},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 20, offset: 90862},
+																																	pos:        position{line: 2874, col: 20, offset: 90894},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 29, offset: 90871},
+																																	pos:        position{line: 2874, col: 29, offset: 90903},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10768,9 +10768,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2883, col: 8, offset: 91031},
+																														pos: position{line: 2884, col: 8, offset: 91063},
 																														expr: &anyMatcher{
-																															line: 2883, col: 9, offset: 91032,
+																															line: 2884, col: 9, offset: 91064,
 																														},
 																													},
 																												},
@@ -10797,10 +10797,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1246, col: 36, offset: 38599},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90683},
+																			pos: position{line: 2865, col: 10, offset: 90715},
 																			run: (*parser).callonDocumentFragment1493,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90683},
+																				pos:        position{line: 2865, col: 10, offset: 90715},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10809,28 +10809,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91081},
+																		pos: position{line: 2887, col: 8, offset: 91113},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90854},
+																				pos: position{line: 2874, col: 12, offset: 90886},
 																				run: (*parser).callonDocumentFragment1496,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90855},
+																					pos: position{line: 2874, col: 13, offset: 90887},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90855},
+																							pos:        position{line: 2874, col: 13, offset: 90887},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90862},
+																							pos:        position{line: 2874, col: 20, offset: 90894},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90871},
+																							pos:        position{line: 2874, col: 29, offset: 90903},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10839,9 +10839,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 91031},
+																				pos: position{line: 2884, col: 8, offset: 91063},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 91032,
+																					line: 2884, col: 9, offset: 91064,
 																				},
 																			},
 																		},
@@ -10938,9 +10938,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2883, col: 8, offset: 91031},
+							pos: position{line: 2884, col: 8, offset: 91063},
 							expr: &anyMatcher{
-								line: 2883, col: 9, offset: 91032,
+								line: 2884, col: 9, offset: 91064,
 							},
 						},
 					},
@@ -11012,12 +11012,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2868, col: 11, offset: 90744},
+												pos: position{line: 2869, col: 11, offset: 90776},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2868, col: 11, offset: 90744},
+													pos: position{line: 2869, col: 11, offset: 90776},
 													expr: &charClassMatcher{
-														pos:        position{line: 2868, col: 11, offset: 90744},
+														pos:        position{line: 2869, col: 11, offset: 90776},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11039,28 +11039,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2886, col: 8, offset: 91081},
+							pos: position{line: 2887, col: 8, offset: 91113},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2873, col: 12, offset: 90854},
+									pos: position{line: 2874, col: 12, offset: 90886},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2873, col: 13, offset: 90855},
+										pos: position{line: 2874, col: 13, offset: 90887},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2873, col: 13, offset: 90855},
+												pos:        position{line: 2874, col: 13, offset: 90887},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 20, offset: 90862},
+												pos:        position{line: 2874, col: 20, offset: 90894},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 29, offset: 90871},
+												pos:        position{line: 2874, col: 29, offset: 90903},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -11069,9 +11069,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2883, col: 8, offset: 91031},
+									pos: position{line: 2884, col: 8, offset: 91063},
 									expr: &anyMatcher{
-										line: 2883, col: 9, offset: 91032,
+										line: 2884, col: 9, offset: 91064,
 									},
 								},
 							},
@@ -11115,25 +11115,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2873, col: 12, offset: 90854},
+												pos: position{line: 2874, col: 12, offset: 90886},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2873, col: 13, offset: 90855},
+													pos: position{line: 2874, col: 13, offset: 90887},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2873, col: 13, offset: 90855},
+															pos:        position{line: 2874, col: 13, offset: 90887},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2873, col: 20, offset: 90862},
+															pos:        position{line: 2874, col: 20, offset: 90894},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2873, col: 29, offset: 90871},
+															pos:        position{line: 2874, col: 29, offset: 90903},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -11144,10 +11144,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2864, col: 10, offset: 90683},
+													pos: position{line: 2865, col: 10, offset: 90715},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2864, col: 10, offset: 90683},
+														pos:        position{line: 2865, col: 10, offset: 90715},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11217,10 +11217,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2864, col: 10, offset: 90683},
+											pos: position{line: 2865, col: 10, offset: 90715},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2864, col: 10, offset: 90683},
+												pos:        position{line: 2865, col: 10, offset: 90715},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -11229,28 +11229,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2886, col: 8, offset: 91081},
+										pos: position{line: 2887, col: 8, offset: 91113},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2873, col: 12, offset: 90854},
+												pos: position{line: 2874, col: 12, offset: 90886},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2873, col: 13, offset: 90855},
+													pos: position{line: 2874, col: 13, offset: 90887},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2873, col: 13, offset: 90855},
+															pos:        position{line: 2874, col: 13, offset: 90887},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2873, col: 20, offset: 90862},
+															pos:        position{line: 2874, col: 20, offset: 90894},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2873, col: 29, offset: 90871},
+															pos:        position{line: 2874, col: 29, offset: 90903},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -11259,9 +11259,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2883, col: 8, offset: 91031},
+												pos: position{line: 2884, col: 8, offset: 91063},
 												expr: &anyMatcher{
-													line: 2883, col: 9, offset: 91032,
+													line: 2884, col: 9, offset: 91064,
 												},
 											},
 										},
@@ -11294,23 +11294,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2461, col: 5, offset: 79172},
+										pos: position{line: 2462, col: 5, offset: 79204},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2461, col: 5, offset: 79172},
+											pos: position{line: 2462, col: 5, offset: 79204},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2461, col: 5, offset: 79172},
+													pos: position{line: 2462, col: 5, offset: 79204},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2464, col: 5, offset: 79248},
+													pos:   position{line: 2465, col: 5, offset: 79280},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2465, col: 9, offset: 79266},
+														pos: position{line: 2466, col: 9, offset: 79298},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2465, col: 10, offset: 79267},
+															pos:        position{line: 2466, col: 10, offset: 79299},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11322,10 +11322,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2864, col: 10, offset: 90683},
+										pos: position{line: 2865, col: 10, offset: 90715},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2864, col: 10, offset: 90683},
+											pos:        position{line: 2865, col: 10, offset: 90715},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -12162,10 +12162,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 35, offset: 11487},
 												expr: &actionExpr{
-													pos: position{line: 2864, col: 10, offset: 90683},
+													pos: position{line: 2865, col: 10, offset: 90715},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2864, col: 10, offset: 90683},
+														pos:        position{line: 2865, col: 10, offset: 90715},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12174,28 +12174,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2886, col: 8, offset: 91081},
+												pos: position{line: 2887, col: 8, offset: 91113},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2873, col: 12, offset: 90854},
+														pos: position{line: 2874, col: 12, offset: 90886},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2873, col: 13, offset: 90855},
+															pos: position{line: 2874, col: 13, offset: 90887},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2873, col: 13, offset: 90855},
+																	pos:        position{line: 2874, col: 13, offset: 90887},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2873, col: 20, offset: 90862},
+																	pos:        position{line: 2874, col: 20, offset: 90894},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2873, col: 29, offset: 90871},
+																	pos:        position{line: 2874, col: 29, offset: 90903},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12204,9 +12204,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2883, col: 8, offset: 91031},
+														pos: position{line: 2884, col: 8, offset: 91063},
 														expr: &anyMatcher{
-															line: 2883, col: 9, offset: 91032,
+															line: 2884, col: 9, offset: 91064,
 														},
 													},
 												},
@@ -12220,18 +12220,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2881, col: 11, offset: 91017},
+																pos: position{line: 2882, col: 11, offset: 91049},
 																expr: &anyMatcher{
-																	line: 2881, col: 13, offset: 91019,
+																	line: 2882, col: 13, offset: 91051,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2864, col: 10, offset: 90683},
+																	pos: position{line: 2865, col: 10, offset: 90715},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2864, col: 10, offset: 90683},
+																		pos:        position{line: 2865, col: 10, offset: 90715},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12240,28 +12240,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2886, col: 8, offset: 91081},
+																pos: position{line: 2887, col: 8, offset: 91113},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2873, col: 12, offset: 90854},
+																		pos: position{line: 2874, col: 12, offset: 90886},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2873, col: 13, offset: 90855},
+																			pos: position{line: 2874, col: 13, offset: 90887},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 13, offset: 90855},
+																					pos:        position{line: 2874, col: 13, offset: 90887},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 20, offset: 90862},
+																					pos:        position{line: 2874, col: 20, offset: 90894},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 29, offset: 90871},
+																					pos:        position{line: 2874, col: 29, offset: 90903},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12270,9 +12270,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 91031},
+																		pos: position{line: 2884, col: 8, offset: 91063},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 91032,
+																			line: 2884, col: 9, offset: 91064,
 																		},
 																	},
 																},
@@ -12324,12 +12324,12 @@ var g = &grammar{
 																		pos: position{line: 426, col: 9, offset: 13063},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2758, col: 14, offset: 87852},
+																				pos: position{line: 2759, col: 14, offset: 87884},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2758, col: 14, offset: 87852},
+																					pos: position{line: 2759, col: 14, offset: 87884},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2758, col: 14, offset: 87852},
+																						pos:        position{line: 2759, col: 14, offset: 87884},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12338,10 +12338,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90683},
+																				pos: position{line: 2865, col: 10, offset: 90715},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90683},
+																					pos:        position{line: 2865, col: 10, offset: 90715},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12349,27 +12349,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2781, col: 5, offset: 88337},
+																				pos: position{line: 2782, col: 5, offset: 88369},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2782, col: 9, offset: 88347},
+																					pos: position{line: 2783, col: 9, offset: 88379},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2782, col: 10, offset: 88348},
+																							pos:        position{line: 2783, col: 10, offset: 88380},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2784, col: 13, offset: 88445},
+																							pos: position{line: 2785, col: 13, offset: 88477},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2784, col: 13, offset: 88445},
+																									pos: position{line: 2785, col: 13, offset: 88477},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2787, col: 13, offset: 88545},
+																									pos:        position{line: 2788, col: 13, offset: 88577},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12377,20 +12377,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2787, col: 19, offset: 88551},
+																							pos:        position{line: 2788, col: 19, offset: 88583},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2790, col: 13, offset: 88589},
+																							pos: position{line: 2791, col: 13, offset: 88621},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2790, col: 13, offset: 88589},
+																									pos: position{line: 2791, col: 13, offset: 88621},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2793, col: 14, offset: 88682},
+																									pos:        position{line: 2794, col: 14, offset: 88714},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12399,18 +12399,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2795, col: 12, offset: 88726},
+																							pos: position{line: 2796, col: 12, offset: 88758},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2795, col: 12, offset: 88726},
+																									pos:        position{line: 2796, col: 12, offset: 88758},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2795, col: 16, offset: 88730},
+																									pos: position{line: 2796, col: 16, offset: 88762},
 																									expr: &litMatcher{
-																										pos:        position{line: 2795, col: 17, offset: 88731},
+																										pos:        position{line: 2796, col: 17, offset: 88763},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12528,10 +12528,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2803, col: 12, offset: 88991},
+																				pos: position{line: 2804, col: 12, offset: 89023},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2803, col: 12, offset: 88991},
+																					pos:        position{line: 2804, col: 12, offset: 89023},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12549,10 +12549,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 35, offset: 11642},
 												expr: &actionExpr{
-													pos: position{line: 2864, col: 10, offset: 90683},
+													pos: position{line: 2865, col: 10, offset: 90715},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2864, col: 10, offset: 90683},
+														pos:        position{line: 2865, col: 10, offset: 90715},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12561,28 +12561,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2886, col: 8, offset: 91081},
+												pos: position{line: 2887, col: 8, offset: 91113},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2873, col: 12, offset: 90854},
+														pos: position{line: 2874, col: 12, offset: 90886},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2873, col: 13, offset: 90855},
+															pos: position{line: 2874, col: 13, offset: 90887},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2873, col: 13, offset: 90855},
+																	pos:        position{line: 2874, col: 13, offset: 90887},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2873, col: 20, offset: 90862},
+																	pos:        position{line: 2874, col: 20, offset: 90894},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2873, col: 29, offset: 90871},
+																	pos:        position{line: 2874, col: 29, offset: 90903},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12591,9 +12591,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2883, col: 8, offset: 91031},
+														pos: position{line: 2884, col: 8, offset: 91063},
 														expr: &anyMatcher{
-															line: 2883, col: 9, offset: 91032,
+															line: 2884, col: 9, offset: 91064,
 														},
 													},
 												},
@@ -12607,18 +12607,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2881, col: 11, offset: 91017},
+																pos: position{line: 2882, col: 11, offset: 91049},
 																expr: &anyMatcher{
-																	line: 2881, col: 13, offset: 91019,
+																	line: 2882, col: 13, offset: 91051,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2864, col: 10, offset: 90683},
+																	pos: position{line: 2865, col: 10, offset: 90715},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2864, col: 10, offset: 90683},
+																		pos:        position{line: 2865, col: 10, offset: 90715},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12627,28 +12627,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2886, col: 8, offset: 91081},
+																pos: position{line: 2887, col: 8, offset: 91113},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2873, col: 12, offset: 90854},
+																		pos: position{line: 2874, col: 12, offset: 90886},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2873, col: 13, offset: 90855},
+																			pos: position{line: 2874, col: 13, offset: 90887},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 13, offset: 90855},
+																					pos:        position{line: 2874, col: 13, offset: 90887},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 20, offset: 90862},
+																					pos:        position{line: 2874, col: 20, offset: 90894},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 29, offset: 90871},
+																					pos:        position{line: 2874, col: 29, offset: 90903},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12657,9 +12657,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 91031},
+																		pos: position{line: 2884, col: 8, offset: 91063},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 91032,
+																			line: 2884, col: 9, offset: 91064,
 																		},
 																	},
 																},
@@ -12688,10 +12688,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 380, col: 44, offset: 11775},
 												expr: &actionExpr{
-													pos: position{line: 2864, col: 10, offset: 90683},
+													pos: position{line: 2865, col: 10, offset: 90715},
 													run: (*parser).callonBlockAttributes210,
 													expr: &charClassMatcher{
-														pos:        position{line: 2864, col: 10, offset: 90683},
+														pos:        position{line: 2865, col: 10, offset: 90715},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12700,28 +12700,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2886, col: 8, offset: 91081},
+												pos: position{line: 2887, col: 8, offset: 91113},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2873, col: 12, offset: 90854},
+														pos: position{line: 2874, col: 12, offset: 90886},
 														run: (*parser).callonBlockAttributes213,
 														expr: &choiceExpr{
-															pos: position{line: 2873, col: 13, offset: 90855},
+															pos: position{line: 2874, col: 13, offset: 90887},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2873, col: 13, offset: 90855},
+																	pos:        position{line: 2874, col: 13, offset: 90887},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2873, col: 20, offset: 90862},
+																	pos:        position{line: 2874, col: 20, offset: 90894},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2873, col: 29, offset: 90871},
+																	pos:        position{line: 2874, col: 29, offset: 90903},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12730,9 +12730,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2883, col: 8, offset: 91031},
+														pos: position{line: 2884, col: 8, offset: 91063},
 														expr: &anyMatcher{
-															line: 2883, col: 9, offset: 91032,
+															line: 2884, col: 9, offset: 91064,
 														},
 													},
 												},
@@ -12746,18 +12746,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2881, col: 11, offset: 91017},
+																pos: position{line: 2882, col: 11, offset: 91049},
 																expr: &anyMatcher{
-																	line: 2881, col: 13, offset: 91019,
+																	line: 2882, col: 13, offset: 91051,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2864, col: 10, offset: 90683},
+																	pos: position{line: 2865, col: 10, offset: 90715},
 																	run: (*parser).callonBlockAttributes226,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2864, col: 10, offset: 90683},
+																		pos:        position{line: 2865, col: 10, offset: 90715},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12766,28 +12766,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2886, col: 8, offset: 91081},
+																pos: position{line: 2887, col: 8, offset: 91113},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2873, col: 12, offset: 90854},
+																		pos: position{line: 2874, col: 12, offset: 90886},
 																		run: (*parser).callonBlockAttributes229,
 																		expr: &choiceExpr{
-																			pos: position{line: 2873, col: 13, offset: 90855},
+																			pos: position{line: 2874, col: 13, offset: 90887},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 13, offset: 90855},
+																					pos:        position{line: 2874, col: 13, offset: 90887},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 20, offset: 90862},
+																					pos:        position{line: 2874, col: 20, offset: 90894},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 29, offset: 90871},
+																					pos:        position{line: 2874, col: 29, offset: 90903},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12796,9 +12796,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 91031},
+																		pos: position{line: 2884, col: 8, offset: 91063},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 91032,
+																			line: 2884, col: 9, offset: 91064,
 																		},
 																	},
 																},
@@ -13046,10 +13046,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 466, col: 13, offset: 14531},
 										expr: &actionExpr{
-											pos: position{line: 2864, col: 10, offset: 90683},
+											pos: position{line: 2865, col: 10, offset: 90715},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2864, col: 10, offset: 90683},
+												pos:        position{line: 2865, col: 10, offset: 90715},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13581,10 +13581,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 518, col: 9, offset: 16113},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90683},
+														pos: position{line: 2865, col: 10, offset: 90715},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90683},
+															pos:        position{line: 2865, col: 10, offset: 90715},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13645,10 +13645,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 524, col: 34, offset: 16256},
 														expr: &actionExpr{
-															pos: position{line: 2864, col: 10, offset: 90683},
+															pos: position{line: 2865, col: 10, offset: 90715},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2864, col: 10, offset: 90683},
+																pos:        position{line: 2865, col: 10, offset: 90715},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13688,10 +13688,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 529, col: 13, offset: 16420},
 												expr: &actionExpr{
-													pos: position{line: 2864, col: 10, offset: 90683},
+													pos: position{line: 2865, col: 10, offset: 90715},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2864, col: 10, offset: 90683},
+														pos:        position{line: 2865, col: 10, offset: 90715},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13714,10 +13714,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 529, col: 26, offset: 16433},
 																expr: &actionExpr{
-																	pos: position{line: 2864, col: 10, offset: 90683},
+																	pos: position{line: 2865, col: 10, offset: 90715},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2864, col: 10, offset: 90683},
+																		pos:        position{line: 2865, col: 10, offset: 90715},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13772,10 +13772,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 549, col: 22, offset: 17080},
 											expr: &actionExpr{
-												pos: position{line: 2864, col: 10, offset: 90683},
+												pos: position{line: 2865, col: 10, offset: 90715},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2864, col: 10, offset: 90683},
+													pos:        position{line: 2865, col: 10, offset: 90715},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13806,10 +13806,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 542, col: 9, offset: 16825},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90683},
+								pos: position{line: 2865, col: 10, offset: 90715},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90683},
+									pos:        position{line: 2865, col: 10, offset: 90715},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13839,10 +13839,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 543, col: 33, offset: 16865},
 										expr: &actionExpr{
-											pos: position{line: 2864, col: 10, offset: 90683},
+											pos: position{line: 2865, col: 10, offset: 90715},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2864, col: 10, offset: 90683},
+												pos:        position{line: 2865, col: 10, offset: 90715},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13897,10 +13897,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 559, col: 9, offset: 17297},
 											expr: &actionExpr{
-												pos: position{line: 2864, col: 10, offset: 90683},
+												pos: position{line: 2865, col: 10, offset: 90715},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2864, col: 10, offset: 90683},
+													pos:        position{line: 2865, col: 10, offset: 90715},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13979,12 +13979,12 @@ var g = &grammar{
 							pos: position{line: 572, col: 9, offset: 17614},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2758, col: 14, offset: 87852},
+									pos: position{line: 2759, col: 14, offset: 87884},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2758, col: 14, offset: 87852},
+										pos: position{line: 2759, col: 14, offset: 87884},
 										expr: &charClassMatcher{
-											pos:        position{line: 2758, col: 14, offset: 87852},
+											pos:        position{line: 2759, col: 14, offset: 87884},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13993,10 +13993,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2864, col: 10, offset: 90683},
+									pos: position{line: 2865, col: 10, offset: 90715},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2864, col: 10, offset: 90683},
+										pos:        position{line: 2865, col: 10, offset: 90715},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14453,10 +14453,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 592, col: 14, offset: 18354},
 											expr: &actionExpr{
-												pos: position{line: 2864, col: 10, offset: 90683},
+												pos: position{line: 2865, col: 10, offset: 90715},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2864, col: 10, offset: 90683},
+													pos:        position{line: 2865, col: 10, offset: 90715},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14493,12 +14493,12 @@ var g = &grammar{
 							pos: position{line: 598, col: 9, offset: 18465},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2758, col: 14, offset: 87852},
+									pos: position{line: 2759, col: 14, offset: 87884},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2758, col: 14, offset: 87852},
+										pos: position{line: 2759, col: 14, offset: 87884},
 										expr: &charClassMatcher{
-											pos:        position{line: 2758, col: 14, offset: 87852},
+											pos:        position{line: 2759, col: 14, offset: 87884},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14507,10 +14507,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2864, col: 10, offset: 90683},
+									pos: position{line: 2865, col: 10, offset: 90715},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2864, col: 10, offset: 90683},
+										pos:        position{line: 2865, col: 10, offset: 90715},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14937,10 +14937,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 619, col: 5, offset: 19321},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90683},
+								pos: position{line: 2865, col: 10, offset: 90715},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90683},
+									pos:        position{line: 2865, col: 10, offset: 90715},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15330,10 +15330,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2864, col: 10, offset: 90683},
+											pos: position{line: 2865, col: 10, offset: 90715},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2864, col: 10, offset: 90683},
+												pos:        position{line: 2865, col: 10, offset: 90715},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15384,12 +15384,12 @@ var g = &grammar{
 									pos:   position{line: 686, col: 32, offset: 21849},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2849, col: 7, offset: 90335},
+										pos: position{line: 2850, col: 7, offset: 90367},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2849, col: 7, offset: 90335},
+											pos: position{line: 2850, col: 7, offset: 90367},
 											expr: &charClassMatcher{
-												pos:        position{line: 2849, col: 7, offset: 90335},
+												pos:        position{line: 2850, col: 7, offset: 90367},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15401,10 +15401,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 686, col: 40, offset: 21857},
 									expr: &actionExpr{
-										pos: position{line: 2864, col: 10, offset: 90683},
+										pos: position{line: 2865, col: 10, offset: 90715},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2864, col: 10, offset: 90683},
+											pos:        position{line: 2865, col: 10, offset: 90715},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15597,12 +15597,12 @@ var g = &grammar{
 									pos:   position{line: 688, col: 14, offset: 21974},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2849, col: 7, offset: 90335},
+										pos: position{line: 2850, col: 7, offset: 90367},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2849, col: 7, offset: 90335},
+											pos: position{line: 2850, col: 7, offset: 90367},
 											expr: &charClassMatcher{
-												pos:        position{line: 2849, col: 7, offset: 90335},
+												pos:        position{line: 2850, col: 7, offset: 90367},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15646,41 +15646,41 @@ var g = &grammar{
 							pos:   position{line: 692, col: 35, offset: 22087},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2818, col: 17, offset: 89346},
+								pos: position{line: 2819, col: 17, offset: 89378},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2818, col: 17, offset: 89346},
+									pos:   position{line: 2819, col: 17, offset: 89378},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2835, col: 5, offset: 89800},
+										pos: position{line: 2836, col: 5, offset: 89832},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2835, col: 5, offset: 89800},
+											pos:   position{line: 2836, col: 5, offset: 89832},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2835, col: 14, offset: 89809},
+												pos: position{line: 2836, col: 14, offset: 89841},
 												expr: &choiceExpr{
-													pos: position{line: 2836, col: 9, offset: 89819},
+													pos: position{line: 2837, col: 9, offset: 89851},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2836, col: 9, offset: 89819},
+															pos: position{line: 2837, col: 9, offset: 89851},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2836, col: 9, offset: 89819},
+																pos: position{line: 2837, col: 9, offset: 89851},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2836, col: 9, offset: 89819},
+																		pos: position{line: 2837, col: 9, offset: 89851},
 																		expr: &litMatcher{
-																			pos:        position{line: 2836, col: 10, offset: 89820},
+																			pos:        position{line: 2837, col: 10, offset: 89852},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2837, col: 9, offset: 89848},
+																		pos: position{line: 2838, col: 9, offset: 89880},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2837, col: 10, offset: 89849},
+																			pos:        position{line: 2838, col: 10, offset: 89881},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15691,27 +15691,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2840, col: 11, offset: 90061},
+															pos: position{line: 2841, col: 11, offset: 90093},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2840, col: 11, offset: 90061},
+																	pos:        position{line: 2841, col: 11, offset: 90093},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2840, col: 19, offset: 90069},
+																	pos: position{line: 2841, col: 19, offset: 90101},
 																	expr: &seqExpr{
-																		pos: position{line: 2840, col: 21, offset: 90071},
+																		pos: position{line: 2841, col: 21, offset: 90103},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2840, col: 21, offset: 90071},
+																				pos: position{line: 2841, col: 21, offset: 90103},
 																				expr: &actionExpr{
-																					pos: position{line: 2864, col: 10, offset: 90683},
+																					pos: position{line: 2865, col: 10, offset: 90715},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2864, col: 10, offset: 90683},
+																						pos:        position{line: 2865, col: 10, offset: 90715},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15720,11 +15720,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2840, col: 28, offset: 90078},
+																				pos: position{line: 2841, col: 28, offset: 90110},
 																				expr: &notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -16119,10 +16119,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2843, col: 11, offset: 90198},
+															pos: position{line: 2844, col: 11, offset: 90230},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2843, col: 11, offset: 90198},
+																pos:        position{line: 2844, col: 11, offset: 90230},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16167,12 +16167,12 @@ var g = &grammar{
 							pos:   position{line: 1001, col: 11, offset: 31208},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2814, col: 14, offset: 89276},
+								pos: position{line: 2815, col: 14, offset: 89308},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2814, col: 14, offset: 89276},
+									pos: position{line: 2815, col: 14, offset: 89308},
 									expr: &charClassMatcher{
-										pos:        position{line: 2814, col: 14, offset: 89276},
+										pos:        position{line: 2815, col: 14, offset: 89308},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16182,28 +16182,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2886, col: 8, offset: 91081},
+							pos: position{line: 2887, col: 8, offset: 91113},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2873, col: 12, offset: 90854},
+									pos: position{line: 2874, col: 12, offset: 90886},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2873, col: 13, offset: 90855},
+										pos: position{line: 2874, col: 13, offset: 90887},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2873, col: 13, offset: 90855},
+												pos:        position{line: 2874, col: 13, offset: 90887},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 20, offset: 90862},
+												pos:        position{line: 2874, col: 20, offset: 90894},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 29, offset: 90871},
+												pos:        position{line: 2874, col: 29, offset: 90903},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16212,9 +16212,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2883, col: 8, offset: 91031},
+									pos: position{line: 2884, col: 8, offset: 91063},
 									expr: &anyMatcher{
-										line: 2883, col: 9, offset: 91032,
+										line: 2884, col: 9, offset: 91064,
 									},
 								},
 							},
@@ -16242,36 +16242,36 @@ var g = &grammar{
 								pos: position{line: 1116, col: 6, offset: 34210},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2474, col: 22, offset: 79626},
+										pos: position{line: 2475, col: 22, offset: 79658},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2474, col: 22, offset: 79626},
+											pos: position{line: 2475, col: 22, offset: 79658},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2479, col: 31, offset: 79847},
+													pos:        position{line: 2480, col: 31, offset: 79879},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2479, col: 36, offset: 79852},
+													pos: position{line: 2480, col: 36, offset: 79884},
 													expr: &litMatcher{
-														pos:        position{line: 2479, col: 37, offset: 79853},
+														pos:        position{line: 2480, col: 37, offset: 79885},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2474, col: 49, offset: 79653},
+													pos:   position{line: 2475, col: 49, offset: 79685},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2810, col: 13, offset: 89209},
+														pos: position{line: 2811, col: 13, offset: 89241},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2810, col: 13, offset: 89209},
+															pos: position{line: 2811, col: 13, offset: 89241},
 															expr: &charClassMatcher{
-																pos:        position{line: 2810, col: 13, offset: 89209},
+																pos:        position{line: 2811, col: 13, offset: 89241},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16281,28 +16281,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91081},
+													pos: position{line: 2887, col: 8, offset: 91113},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90854},
+															pos: position{line: 2874, col: 12, offset: 90886},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90855},
+																pos: position{line: 2874, col: 13, offset: 90887},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90855},
+																		pos:        position{line: 2874, col: 13, offset: 90887},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90862},
+																		pos:        position{line: 2874, col: 20, offset: 90894},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90871},
+																		pos:        position{line: 2874, col: 29, offset: 90903},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16311,9 +16311,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 91031},
+															pos: position{line: 2884, col: 8, offset: 91063},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 91032,
+																line: 2884, col: 9, offset: 91064,
 															},
 														},
 													},
@@ -16367,10 +16367,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23686},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90683},
+																		pos: position{line: 2865, col: 10, offset: 90715},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90683},
+																			pos:        position{line: 2865, col: 10, offset: 90715},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16379,28 +16379,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
+																			pos: position{line: 2874, col: 12, offset: 90886},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16409,9 +16409,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -16483,10 +16483,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23686},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90683},
+																												pos: position{line: 2865, col: 10, offset: 90715},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90683},
+																													pos:        position{line: 2865, col: 10, offset: 90715},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -16495,28 +16495,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91081},
+																											pos: position{line: 2887, col: 8, offset: 91113},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90854},
+																													pos: position{line: 2874, col: 12, offset: 90886},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90855},
+																														pos: position{line: 2874, col: 13, offset: 90887},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90855},
+																																pos:        position{line: 2874, col: 13, offset: 90887},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90862},
+																																pos:        position{line: 2874, col: 20, offset: 90894},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90871},
+																																pos:        position{line: 2874, col: 29, offset: 90903},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -16525,9 +16525,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 91031},
+																													pos: position{line: 2884, col: 8, offset: 91063},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 91032,
+																														line: 2884, col: 9, offset: 91064,
 																													},
 																												},
 																											},
@@ -16543,9 +16543,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -16561,21 +16561,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2881, col: 11, offset: 91017},
+																						pos: position{line: 2882, col: 11, offset: 91049},
 																						expr: &anyMatcher{
-																							line: 2881, col: 13, offset: 91019,
+																							line: 2882, col: 13, offset: 91051,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2810, col: 13, offset: 89209},
+																							pos: position{line: 2811, col: 13, offset: 89241},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2810, col: 13, offset: 89209},
+																								pos: position{line: 2811, col: 13, offset: 89241},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2810, col: 13, offset: 89209},
+																									pos:        position{line: 2811, col: 13, offset: 89241},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16585,28 +16585,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91081},
+																						pos: position{line: 2887, col: 8, offset: 91113},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90854},
+																								pos: position{line: 2874, col: 12, offset: 90886},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90855},
+																									pos: position{line: 2874, col: 13, offset: 90887},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90855},
+																											pos:        position{line: 2874, col: 13, offset: 90887},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90862},
+																											pos:        position{line: 2874, col: 20, offset: 90894},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90871},
+																											pos:        position{line: 2874, col: 29, offset: 90903},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16615,9 +16615,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 91031},
+																								pos: position{line: 2884, col: 8, offset: 91063},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 91032,
+																									line: 2884, col: 9, offset: 91064,
 																								},
 																							},
 																						},
@@ -16682,10 +16682,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23686},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
+																								pos: position{line: 2865, col: 10, offset: 90715},
 																								run: (*parser).callonDocumentHeader107,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -16694,28 +16694,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
+																									pos: position{line: 2874, col: 12, offset: 90886},
 																									run: (*parser).callonDocumentHeader110,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -16724,9 +16724,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -16742,9 +16742,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2883, col: 8, offset: 91031},
+																	pos: position{line: 2884, col: 8, offset: 91063},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 91032,
+																		line: 2884, col: 9, offset: 91064,
 																	},
 																},
 															},
@@ -16771,36 +16771,36 @@ var g = &grammar{
 								pos: position{line: 1118, col: 6, offset: 34333},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2474, col: 22, offset: 79626},
+										pos: position{line: 2475, col: 22, offset: 79658},
 										run: (*parser).callonDocumentHeader124,
 										expr: &seqExpr{
-											pos: position{line: 2474, col: 22, offset: 79626},
+											pos: position{line: 2475, col: 22, offset: 79658},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2479, col: 31, offset: 79847},
+													pos:        position{line: 2480, col: 31, offset: 79879},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2479, col: 36, offset: 79852},
+													pos: position{line: 2480, col: 36, offset: 79884},
 													expr: &litMatcher{
-														pos:        position{line: 2479, col: 37, offset: 79853},
+														pos:        position{line: 2480, col: 37, offset: 79885},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2474, col: 49, offset: 79653},
+													pos:   position{line: 2475, col: 49, offset: 79685},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2810, col: 13, offset: 89209},
+														pos: position{line: 2811, col: 13, offset: 89241},
 														run: (*parser).callonDocumentHeader130,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2810, col: 13, offset: 89209},
+															pos: position{line: 2811, col: 13, offset: 89241},
 															expr: &charClassMatcher{
-																pos:        position{line: 2810, col: 13, offset: 89209},
+																pos:        position{line: 2811, col: 13, offset: 89241},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16810,28 +16810,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91081},
+													pos: position{line: 2887, col: 8, offset: 91113},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90854},
+															pos: position{line: 2874, col: 12, offset: 90886},
 															run: (*parser).callonDocumentHeader134,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90855},
+																pos: position{line: 2874, col: 13, offset: 90887},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90855},
+																		pos:        position{line: 2874, col: 13, offset: 90887},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90862},
+																		pos:        position{line: 2874, col: 20, offset: 90894},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90871},
+																		pos:        position{line: 2874, col: 29, offset: 90903},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16840,9 +16840,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 91031},
+															pos: position{line: 2884, col: 8, offset: 91063},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 91032,
+																line: 2884, col: 9, offset: 91064,
 															},
 														},
 													},
@@ -16896,10 +16896,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23686},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90683},
+																		pos: position{line: 2865, col: 10, offset: 90715},
 																		run: (*parser).callonDocumentHeader153,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90683},
+																			pos:        position{line: 2865, col: 10, offset: 90715},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16908,28 +16908,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
+																			pos: position{line: 2874, col: 12, offset: 90886},
 																			run: (*parser).callonDocumentHeader156,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16938,9 +16938,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -17012,10 +17012,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23686},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90683},
+																												pos: position{line: 2865, col: 10, offset: 90715},
 																												run: (*parser).callonDocumentHeader181,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90683},
+																													pos:        position{line: 2865, col: 10, offset: 90715},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17024,28 +17024,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91081},
+																											pos: position{line: 2887, col: 8, offset: 91113},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90854},
+																													pos: position{line: 2874, col: 12, offset: 90886},
 																													run: (*parser).callonDocumentHeader184,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90855},
+																														pos: position{line: 2874, col: 13, offset: 90887},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90855},
+																																pos:        position{line: 2874, col: 13, offset: 90887},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90862},
+																																pos:        position{line: 2874, col: 20, offset: 90894},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90871},
+																																pos:        position{line: 2874, col: 29, offset: 90903},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17054,9 +17054,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 91031},
+																													pos: position{line: 2884, col: 8, offset: 91063},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 91032,
+																														line: 2884, col: 9, offset: 91064,
 																													},
 																												},
 																											},
@@ -17072,9 +17072,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -17090,21 +17090,21 @@ var g = &grammar{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2881, col: 11, offset: 91017},
+																						pos: position{line: 2882, col: 11, offset: 91049},
 																						expr: &anyMatcher{
-																							line: 2881, col: 13, offset: 91019,
+																							line: 2882, col: 13, offset: 91051,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2810, col: 13, offset: 89209},
+																							pos: position{line: 2811, col: 13, offset: 89241},
 																							run: (*parser).callonDocumentHeader200,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2810, col: 13, offset: 89209},
+																								pos: position{line: 2811, col: 13, offset: 89241},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2810, col: 13, offset: 89209},
+																									pos:        position{line: 2811, col: 13, offset: 89241},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17114,28 +17114,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91081},
+																						pos: position{line: 2887, col: 8, offset: 91113},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90854},
+																								pos: position{line: 2874, col: 12, offset: 90886},
 																								run: (*parser).callonDocumentHeader204,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90855},
+																									pos: position{line: 2874, col: 13, offset: 90887},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90855},
+																											pos:        position{line: 2874, col: 13, offset: 90887},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90862},
+																											pos:        position{line: 2874, col: 20, offset: 90894},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90871},
+																											pos:        position{line: 2874, col: 29, offset: 90903},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17144,9 +17144,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 91031},
+																								pos: position{line: 2884, col: 8, offset: 91063},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 91032,
+																									line: 2884, col: 9, offset: 91064,
 																								},
 																							},
 																						},
@@ -17211,10 +17211,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23686},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
+																								pos: position{line: 2865, col: 10, offset: 90715},
 																								run: (*parser).callonDocumentHeader225,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -17223,28 +17223,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
+																									pos: position{line: 2874, col: 12, offset: 90886},
 																									run: (*parser).callonDocumentHeader228,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -17253,9 +17253,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -17271,9 +17271,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2883, col: 8, offset: 91031},
+																	pos: position{line: 2884, col: 8, offset: 91063},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 91032,
+																		line: 2884, col: 9, offset: 91064,
 																	},
 																},
 															},
@@ -17318,10 +17318,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1137, col: 20, offset: 35088},
 																expr: &actionExpr{
-																	pos: position{line: 2864, col: 10, offset: 90683},
+																	pos: position{line: 2865, col: 10, offset: 90715},
 																	run: (*parser).callonDocumentHeader248,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2864, col: 10, offset: 90683},
+																		pos:        position{line: 2865, col: 10, offset: 90715},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17372,10 +17372,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1156, col: 5, offset: 35693},
 																										expr: &actionExpr{
-																											pos: position{line: 2864, col: 10, offset: 90683},
+																											pos: position{line: 2865, col: 10, offset: 90715},
 																											run: (*parser).callonDocumentHeader263,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2864, col: 10, offset: 90683},
+																												pos:        position{line: 2865, col: 10, offset: 90715},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17407,10 +17407,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1160, col: 5, offset: 35792},
 																										expr: &actionExpr{
-																											pos: position{line: 2864, col: 10, offset: 90683},
+																											pos: position{line: 2865, col: 10, offset: 90715},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2864, col: 10, offset: 90683},
+																												pos:        position{line: 2865, col: 10, offset: 90715},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17442,10 +17442,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1164, col: 5, offset: 35889},
 																										expr: &actionExpr{
-																											pos: position{line: 2864, col: 10, offset: 90683},
+																											pos: position{line: 2865, col: 10, offset: 90715},
 																											run: (*parser).callonDocumentHeader279,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2864, col: 10, offset: 90683},
+																												pos:        position{line: 2865, col: 10, offset: 90715},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17470,9 +17470,9 @@ var g = &grammar{
 																								pos: position{line: 1170, col: 5, offset: 36011},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2881, col: 11, offset: 91017},
+																										pos: position{line: 2882, col: 11, offset: 91049},
 																										expr: &anyMatcher{
-																											line: 2881, col: 13, offset: 91019,
+																											line: 2882, col: 13, offset: 91051,
 																										},
 																									},
 																									&litMatcher{
@@ -17513,10 +17513,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1142, col: 69, offset: 35281},
 																					expr: &actionExpr{
-																						pos: position{line: 2864, col: 10, offset: 90683},
+																						pos: position{line: 2865, col: 10, offset: 90715},
 																						run: (*parser).callonDocumentHeader294,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2864, col: 10, offset: 90683},
+																							pos:        position{line: 2865, col: 10, offset: 90715},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17536,10 +17536,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1142, col: 81, offset: 35293},
 																					expr: &actionExpr{
-																						pos: position{line: 2864, col: 10, offset: 90683},
+																						pos: position{line: 2865, col: 10, offset: 90715},
 																						run: (*parser).callonDocumentHeader299,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2864, col: 10, offset: 90683},
+																							pos:        position{line: 2865, col: 10, offset: 90715},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17557,28 +17557,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2886, col: 8, offset: 91081},
+																pos: position{line: 2887, col: 8, offset: 91113},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2873, col: 12, offset: 90854},
+																		pos: position{line: 2874, col: 12, offset: 90886},
 																		run: (*parser).callonDocumentHeader303,
 																		expr: &choiceExpr{
-																			pos: position{line: 2873, col: 13, offset: 90855},
+																			pos: position{line: 2874, col: 13, offset: 90887},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 13, offset: 90855},
+																					pos:        position{line: 2874, col: 13, offset: 90887},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 20, offset: 90862},
+																					pos:        position{line: 2874, col: 20, offset: 90894},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 29, offset: 90871},
+																					pos:        position{line: 2874, col: 29, offset: 90903},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17587,9 +17587,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 91031},
+																		pos: position{line: 2884, col: 8, offset: 91063},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 91032,
+																			line: 2884, col: 9, offset: 91064,
 																		},
 																	},
 																},
@@ -17604,36 +17604,36 @@ var g = &grammar{
 													pos: position{line: 1132, col: 6, offset: 34863},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2474, col: 22, offset: 79626},
+															pos: position{line: 2475, col: 22, offset: 79658},
 															run: (*parser).callonDocumentHeader312,
 															expr: &seqExpr{
-																pos: position{line: 2474, col: 22, offset: 79626},
+																pos: position{line: 2475, col: 22, offset: 79658},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2479, col: 31, offset: 79847},
+																		pos:        position{line: 2480, col: 31, offset: 79879},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2479, col: 36, offset: 79852},
+																		pos: position{line: 2480, col: 36, offset: 79884},
 																		expr: &litMatcher{
-																			pos:        position{line: 2479, col: 37, offset: 79853},
+																			pos:        position{line: 2480, col: 37, offset: 79885},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2474, col: 49, offset: 79653},
+																		pos:   position{line: 2475, col: 49, offset: 79685},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2810, col: 13, offset: 89209},
+																			pos: position{line: 2811, col: 13, offset: 89241},
 																			run: (*parser).callonDocumentHeader318,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2810, col: 13, offset: 89209},
+																				pos: position{line: 2811, col: 13, offset: 89241},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2810, col: 13, offset: 89209},
+																					pos:        position{line: 2811, col: 13, offset: 89241},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17643,28 +17643,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91081},
+																		pos: position{line: 2887, col: 8, offset: 91113},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90854},
+																				pos: position{line: 2874, col: 12, offset: 90886},
 																				run: (*parser).callonDocumentHeader322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90855},
+																					pos: position{line: 2874, col: 13, offset: 90887},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90855},
+																							pos:        position{line: 2874, col: 13, offset: 90887},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90862},
+																							pos:        position{line: 2874, col: 20, offset: 90894},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90871},
+																							pos:        position{line: 2874, col: 29, offset: 90903},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17673,9 +17673,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 91031},
+																				pos: position{line: 2884, col: 8, offset: 91063},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 91032,
+																					line: 2884, col: 9, offset: 91064,
 																				},
 																			},
 																		},
@@ -17729,10 +17729,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 742, col: 8, offset: 23686},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90683},
+																							pos: position{line: 2865, col: 10, offset: 90715},
 																							run: (*parser).callonDocumentHeader341,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90683},
+																								pos:        position{line: 2865, col: 10, offset: 90715},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17741,28 +17741,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91081},
+																						pos: position{line: 2887, col: 8, offset: 91113},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90854},
+																								pos: position{line: 2874, col: 12, offset: 90886},
 																								run: (*parser).callonDocumentHeader344,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90855},
+																									pos: position{line: 2874, col: 13, offset: 90887},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90855},
+																											pos:        position{line: 2874, col: 13, offset: 90887},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90862},
+																											pos:        position{line: 2874, col: 20, offset: 90894},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90871},
+																											pos:        position{line: 2874, col: 29, offset: 90903},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17771,9 +17771,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 91031},
+																								pos: position{line: 2884, col: 8, offset: 91063},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 91032,
+																									line: 2884, col: 9, offset: 91064,
 																								},
 																							},
 																						},
@@ -17845,10 +17845,10 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 742, col: 8, offset: 23686},
 																																expr: &actionExpr{
-																																	pos: position{line: 2864, col: 10, offset: 90683},
+																																	pos: position{line: 2865, col: 10, offset: 90715},
 																																	run: (*parser).callonDocumentHeader369,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2864, col: 10, offset: 90683},
+																																		pos:        position{line: 2865, col: 10, offset: 90715},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -17857,28 +17857,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2886, col: 8, offset: 91081},
+																																pos: position{line: 2887, col: 8, offset: 91113},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2873, col: 12, offset: 90854},
+																																		pos: position{line: 2874, col: 12, offset: 90886},
 																																		run: (*parser).callonDocumentHeader372,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2873, col: 13, offset: 90855},
+																																			pos: position{line: 2874, col: 13, offset: 90887},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2873, col: 13, offset: 90855},
+																																					pos:        position{line: 2874, col: 13, offset: 90887},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2873, col: 20, offset: 90862},
+																																					pos:        position{line: 2874, col: 20, offset: 90894},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2873, col: 29, offset: 90871},
+																																					pos:        position{line: 2874, col: 29, offset: 90903},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -17887,9 +17887,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2883, col: 8, offset: 91031},
+																																		pos: position{line: 2884, col: 8, offset: 91063},
 																																		expr: &anyMatcher{
-																																			line: 2883, col: 9, offset: 91032,
+																																			line: 2884, col: 9, offset: 91064,
 																																		},
 																																	},
 																																},
@@ -17905,9 +17905,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 91031},
+																										pos: position{line: 2884, col: 8, offset: 91063},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 91032,
+																											line: 2884, col: 9, offset: 91064,
 																										},
 																									},
 																								},
@@ -17923,21 +17923,21 @@ var g = &grammar{
 																									pos: position{line: 811, col: 5, offset: 26088},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2881, col: 11, offset: 91017},
+																											pos: position{line: 2882, col: 11, offset: 91049},
 																											expr: &anyMatcher{
-																												line: 2881, col: 13, offset: 91019,
+																												line: 2882, col: 13, offset: 91051,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 812, col: 5, offset: 26163},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2810, col: 13, offset: 89209},
+																												pos: position{line: 2811, col: 13, offset: 89241},
 																												run: (*parser).callonDocumentHeader388,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2810, col: 13, offset: 89209},
+																													pos: position{line: 2811, col: 13, offset: 89241},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2810, col: 13, offset: 89209},
+																														pos:        position{line: 2811, col: 13, offset: 89241},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17947,28 +17947,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91081},
+																											pos: position{line: 2887, col: 8, offset: 91113},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90854},
+																													pos: position{line: 2874, col: 12, offset: 90886},
 																													run: (*parser).callonDocumentHeader392,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90855},
+																														pos: position{line: 2874, col: 13, offset: 90887},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90855},
+																																pos:        position{line: 2874, col: 13, offset: 90887},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90862},
+																																pos:        position{line: 2874, col: 20, offset: 90894},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90871},
+																																pos:        position{line: 2874, col: 29, offset: 90903},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17977,9 +17977,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 91031},
+																													pos: position{line: 2884, col: 8, offset: 91063},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 91032,
+																														line: 2884, col: 9, offset: 91064,
 																													},
 																												},
 																											},
@@ -18044,10 +18044,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 742, col: 8, offset: 23686},
 																												expr: &actionExpr{
-																													pos: position{line: 2864, col: 10, offset: 90683},
+																													pos: position{line: 2865, col: 10, offset: 90715},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2864, col: 10, offset: 90683},
+																														pos:        position{line: 2865, col: 10, offset: 90715},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -18056,28 +18056,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2886, col: 8, offset: 91081},
+																												pos: position{line: 2887, col: 8, offset: 91113},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2873, col: 12, offset: 90854},
+																														pos: position{line: 2874, col: 12, offset: 90886},
 																														run: (*parser).callonDocumentHeader416,
 																														expr: &choiceExpr{
-																															pos: position{line: 2873, col: 13, offset: 90855},
+																															pos: position{line: 2874, col: 13, offset: 90887},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 13, offset: 90855},
+																																	pos:        position{line: 2874, col: 13, offset: 90887},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 20, offset: 90862},
+																																	pos:        position{line: 2874, col: 20, offset: 90894},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 29, offset: 90871},
+																																	pos:        position{line: 2874, col: 29, offset: 90903},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -18086,9 +18086,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2883, col: 8, offset: 91031},
+																														pos: position{line: 2884, col: 8, offset: 91063},
 																														expr: &anyMatcher{
-																															line: 2883, col: 9, offset: 91032,
+																															line: 2884, col: 9, offset: 91064,
 																														},
 																													},
 																												},
@@ -18104,9 +18104,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 91031},
+																						pos: position{line: 2884, col: 8, offset: 91063},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 91032,
+																							line: 2884, col: 9, offset: 91064,
 																						},
 																					},
 																				},
@@ -18133,10 +18133,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1181, col: 21, offset: 36289},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90683},
+																		pos: position{line: 2865, col: 10, offset: 90715},
 																		run: (*parser).callonDocumentHeader431,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90683},
+																			pos:        position{line: 2865, col: 10, offset: 90715},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18238,10 +18238,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1193, col: 28, offset: 36920},
 																													expr: &actionExpr{
-																														pos: position{line: 2864, col: 10, offset: 90683},
+																														pos: position{line: 2865, col: 10, offset: 90715},
 																														run: (*parser).callonDocumentHeader455,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2864, col: 10, offset: 90683},
+																															pos:        position{line: 2865, col: 10, offset: 90715},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18388,28 +18388,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
+																			pos: position{line: 2874, col: 12, offset: 90886},
 																			run: (*parser).callonDocumentHeader487,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18418,9 +18418,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -18500,10 +18500,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2864, col: 10, offset: 90683},
+															pos: position{line: 2865, col: 10, offset: 90715},
 															run: (*parser).callonDocumentHeader509,
 															expr: &charClassMatcher{
-																pos:        position{line: 2864, col: 10, offset: 90683},
+																pos:        position{line: 2865, col: 10, offset: 90715},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18512,28 +18512,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2886, col: 8, offset: 91081},
+														pos: position{line: 2887, col: 8, offset: 91113},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90854},
+																pos: position{line: 2874, col: 12, offset: 90886},
 																run: (*parser).callonDocumentHeader512,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90855},
+																	pos: position{line: 2874, col: 13, offset: 90887},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90855},
+																			pos:        position{line: 2874, col: 13, offset: 90887},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90862},
+																			pos:        position{line: 2874, col: 20, offset: 90894},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90871},
+																			pos:        position{line: 2874, col: 29, offset: 90903},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18542,9 +18542,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 91031},
+																pos: position{line: 2884, col: 8, offset: 91063},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 91032,
+																	line: 2884, col: 9, offset: 91064,
 																},
 															},
 														},
@@ -18605,10 +18605,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2864, col: 10, offset: 90683},
+															pos: position{line: 2865, col: 10, offset: 90715},
 															run: (*parser).callonDocumentHeader530,
 															expr: &charClassMatcher{
-																pos:        position{line: 2864, col: 10, offset: 90683},
+																pos:        position{line: 2865, col: 10, offset: 90715},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18617,28 +18617,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2886, col: 8, offset: 91081},
+														pos: position{line: 2887, col: 8, offset: 91113},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90854},
+																pos: position{line: 2874, col: 12, offset: 90886},
 																run: (*parser).callonDocumentHeader533,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90855},
+																	pos: position{line: 2874, col: 13, offset: 90887},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90855},
+																			pos:        position{line: 2874, col: 13, offset: 90887},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90862},
+																			pos:        position{line: 2874, col: 20, offset: 90894},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90871},
+																			pos:        position{line: 2874, col: 29, offset: 90903},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18647,9 +18647,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 91031},
+																pos: position{line: 2884, col: 8, offset: 91063},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 91032,
+																	line: 2884, col: 9, offset: 91064,
 																},
 															},
 														},
@@ -18658,36 +18658,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2474, col: 22, offset: 79626},
+											pos: position{line: 2475, col: 22, offset: 79658},
 											run: (*parser).callonDocumentHeader540,
 											expr: &seqExpr{
-												pos: position{line: 2474, col: 22, offset: 79626},
+												pos: position{line: 2475, col: 22, offset: 79658},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2479, col: 31, offset: 79847},
+														pos:        position{line: 2480, col: 31, offset: 79879},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2479, col: 36, offset: 79852},
+														pos: position{line: 2480, col: 36, offset: 79884},
 														expr: &litMatcher{
-															pos:        position{line: 2479, col: 37, offset: 79853},
+															pos:        position{line: 2480, col: 37, offset: 79885},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2474, col: 49, offset: 79653},
+														pos:   position{line: 2475, col: 49, offset: 79685},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2810, col: 13, offset: 89209},
+															pos: position{line: 2811, col: 13, offset: 89241},
 															run: (*parser).callonDocumentHeader546,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2810, col: 13, offset: 89209},
+																pos: position{line: 2811, col: 13, offset: 89241},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2810, col: 13, offset: 89209},
+																	pos:        position{line: 2811, col: 13, offset: 89241},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18697,28 +18697,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2886, col: 8, offset: 91081},
+														pos: position{line: 2887, col: 8, offset: 91113},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90854},
+																pos: position{line: 2874, col: 12, offset: 90886},
 																run: (*parser).callonDocumentHeader550,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90855},
+																	pos: position{line: 2874, col: 13, offset: 90887},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90855},
+																			pos:        position{line: 2874, col: 13, offset: 90887},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90862},
+																			pos:        position{line: 2874, col: 20, offset: 90894},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90871},
+																			pos:        position{line: 2874, col: 29, offset: 90903},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18727,9 +18727,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 91031},
+																pos: position{line: 2884, col: 8, offset: 91063},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 91032,
+																	line: 2884, col: 9, offset: 91064,
 																},
 															},
 														},
@@ -18783,10 +18783,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 742, col: 8, offset: 23686},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90683},
+																			pos: position{line: 2865, col: 10, offset: 90715},
 																			run: (*parser).callonDocumentHeader569,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90683},
+																				pos:        position{line: 2865, col: 10, offset: 90715},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -18795,28 +18795,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91081},
+																		pos: position{line: 2887, col: 8, offset: 91113},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90854},
+																				pos: position{line: 2874, col: 12, offset: 90886},
 																				run: (*parser).callonDocumentHeader572,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90855},
+																					pos: position{line: 2874, col: 13, offset: 90887},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90855},
+																							pos:        position{line: 2874, col: 13, offset: 90887},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90862},
+																							pos:        position{line: 2874, col: 20, offset: 90894},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90871},
+																							pos:        position{line: 2874, col: 29, offset: 90903},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18825,9 +18825,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 91031},
+																				pos: position{line: 2884, col: 8, offset: 91063},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 91032,
+																					line: 2884, col: 9, offset: 91064,
 																				},
 																			},
 																		},
@@ -18899,10 +18899,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 742, col: 8, offset: 23686},
 																												expr: &actionExpr{
-																													pos: position{line: 2864, col: 10, offset: 90683},
+																													pos: position{line: 2865, col: 10, offset: 90715},
 																													run: (*parser).callonDocumentHeader597,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2864, col: 10, offset: 90683},
+																														pos:        position{line: 2865, col: 10, offset: 90715},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -18911,28 +18911,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2886, col: 8, offset: 91081},
+																												pos: position{line: 2887, col: 8, offset: 91113},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2873, col: 12, offset: 90854},
+																														pos: position{line: 2874, col: 12, offset: 90886},
 																														run: (*parser).callonDocumentHeader600,
 																														expr: &choiceExpr{
-																															pos: position{line: 2873, col: 13, offset: 90855},
+																															pos: position{line: 2874, col: 13, offset: 90887},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 13, offset: 90855},
+																																	pos:        position{line: 2874, col: 13, offset: 90887},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 20, offset: 90862},
+																																	pos:        position{line: 2874, col: 20, offset: 90894},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2873, col: 29, offset: 90871},
+																																	pos:        position{line: 2874, col: 29, offset: 90903},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -18941,9 +18941,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2883, col: 8, offset: 91031},
+																														pos: position{line: 2884, col: 8, offset: 91063},
 																														expr: &anyMatcher{
-																															line: 2883, col: 9, offset: 91032,
+																															line: 2884, col: 9, offset: 91064,
 																														},
 																													},
 																												},
@@ -18959,9 +18959,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 91031},
+																						pos: position{line: 2884, col: 8, offset: 91063},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 91032,
+																							line: 2884, col: 9, offset: 91064,
 																						},
 																					},
 																				},
@@ -18977,21 +18977,21 @@ var g = &grammar{
 																					pos: position{line: 811, col: 5, offset: 26088},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 91017},
+																							pos: position{line: 2882, col: 11, offset: 91049},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 91019,
+																								line: 2882, col: 13, offset: 91051,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 812, col: 5, offset: 26163},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2810, col: 13, offset: 89209},
+																								pos: position{line: 2811, col: 13, offset: 89241},
 																								run: (*parser).callonDocumentHeader616,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2810, col: 13, offset: 89209},
+																									pos: position{line: 2811, col: 13, offset: 89241},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2810, col: 13, offset: 89209},
+																										pos:        position{line: 2811, col: 13, offset: 89241},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19001,28 +19001,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
+																									pos: position{line: 2874, col: 12, offset: 90886},
 																									run: (*parser).callonDocumentHeader620,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19031,9 +19031,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -19098,10 +19098,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 742, col: 8, offset: 23686},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90683},
+																									pos: position{line: 2865, col: 10, offset: 90715},
 																									run: (*parser).callonDocumentHeader641,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90683},
+																										pos:        position{line: 2865, col: 10, offset: 90715},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -19110,28 +19110,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91081},
+																								pos: position{line: 2887, col: 8, offset: 91113},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90854},
+																										pos: position{line: 2874, col: 12, offset: 90886},
 																										run: (*parser).callonDocumentHeader644,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90855},
+																											pos: position{line: 2874, col: 13, offset: 90887},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90855},
+																													pos:        position{line: 2874, col: 13, offset: 90887},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90862},
+																													pos:        position{line: 2874, col: 20, offset: 90894},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90871},
+																													pos:        position{line: 2874, col: 29, offset: 90903},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -19140,9 +19140,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 91031},
+																										pos: position{line: 2884, col: 8, offset: 91063},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 91032,
+																											line: 2884, col: 9, offset: 91064,
 																										},
 																									},
 																								},
@@ -19158,9 +19158,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 91031},
+																		pos: position{line: 2884, col: 8, offset: 91063},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 91032,
+																			line: 2884, col: 9, offset: 91064,
 																		},
 																	},
 																},
@@ -19194,12 +19194,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2868, col: 11, offset: 90744},
+							pos: position{line: 2869, col: 11, offset: 90776},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2868, col: 11, offset: 90744},
+								pos: position{line: 2869, col: 11, offset: 90776},
 								expr: &charClassMatcher{
-									pos:        position{line: 2868, col: 11, offset: 90744},
+									pos:        position{line: 2869, col: 11, offset: 90776},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19216,28 +19216,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2886, col: 8, offset: 91081},
+							pos: position{line: 2887, col: 8, offset: 91113},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2873, col: 12, offset: 90854},
+									pos: position{line: 2874, col: 12, offset: 90886},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2873, col: 13, offset: 90855},
+										pos: position{line: 2874, col: 13, offset: 90887},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2873, col: 13, offset: 90855},
+												pos:        position{line: 2874, col: 13, offset: 90887},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 20, offset: 90862},
+												pos:        position{line: 2874, col: 20, offset: 90894},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 29, offset: 90871},
+												pos:        position{line: 2874, col: 29, offset: 90903},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19246,9 +19246,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2883, col: 8, offset: 91031},
+									pos: position{line: 2884, col: 8, offset: 91063},
 									expr: &anyMatcher{
-										line: 2883, col: 9, offset: 91032,
+										line: 2884, col: 9, offset: 91064,
 									},
 								},
 							},
@@ -19287,10 +19287,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1156, col: 5, offset: 35693},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90683},
+								pos: position{line: 2865, col: 10, offset: 90715},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90683},
+									pos:        position{line: 2865, col: 10, offset: 90715},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19322,10 +19322,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1160, col: 5, offset: 35792},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90683},
+								pos: position{line: 2865, col: 10, offset: 90715},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90683},
+									pos:        position{line: 2865, col: 10, offset: 90715},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19357,10 +19357,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1164, col: 5, offset: 35889},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90683},
+								pos: position{line: 2865, col: 10, offset: 90715},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90683},
+									pos:        position{line: 2865, col: 10, offset: 90715},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19426,12 +19426,12 @@ var g = &grammar{
 							pos:   position{line: 1292, col: 13, offset: 40091},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2849, col: 7, offset: 90335},
+								pos: position{line: 2850, col: 7, offset: 90367},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2849, col: 7, offset: 90335},
+									pos: position{line: 2850, col: 7, offset: 90367},
 									expr: &charClassMatcher{
-										pos:        position{line: 2849, col: 7, offset: 90335},
+										pos:        position{line: 2850, col: 7, offset: 90367},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19500,12 +19500,12 @@ var g = &grammar{
 							pos: position{line: 1303, col: 31, offset: 40551},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2758, col: 14, offset: 87852},
+									pos: position{line: 2759, col: 14, offset: 87884},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2758, col: 14, offset: 87852},
+										pos: position{line: 2759, col: 14, offset: 87884},
 										expr: &charClassMatcher{
-											pos:        position{line: 2758, col: 14, offset: 87852},
+											pos:        position{line: 2759, col: 14, offset: 87884},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19518,10 +19518,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2864, col: 10, offset: 90683},
+									pos: position{line: 2865, col: 10, offset: 90715},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2864, col: 10, offset: 90683},
+										pos:        position{line: 2865, col: 10, offset: 90715},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19529,23 +19529,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2461, col: 5, offset: 79172},
+									pos: position{line: 2462, col: 5, offset: 79204},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2461, col: 5, offset: 79172},
+										pos: position{line: 2462, col: 5, offset: 79204},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2461, col: 5, offset: 79172},
+												pos: position{line: 2462, col: 5, offset: 79204},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2464, col: 5, offset: 79248},
+												pos:   position{line: 2465, col: 5, offset: 79280},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2465, col: 9, offset: 79266},
+													pos: position{line: 2466, col: 9, offset: 79298},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2465, col: 10, offset: 79267},
+														pos:        position{line: 2466, col: 10, offset: 79299},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19641,48 +19641,48 @@ var g = &grammar{
 							pos:   position{line: 1324, col: 15, offset: 41369},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2822, col: 13, offset: 89442},
+								pos: position{line: 2823, col: 13, offset: 89474},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2822, col: 13, offset: 89442},
+									pos: position{line: 2823, col: 13, offset: 89474},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2822, col: 13, offset: 89442},
+											pos:   position{line: 2823, col: 13, offset: 89474},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2822, col: 20, offset: 89449},
+												pos: position{line: 2823, col: 20, offset: 89481},
 												expr: &actionExpr{
-													pos: position{line: 2830, col: 11, offset: 89688},
+													pos: position{line: 2831, col: 11, offset: 89720},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2830, col: 12, offset: 89689},
+														pos: position{line: 2831, col: 12, offset: 89721},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2830, col: 12, offset: 89689},
+																pos:        position{line: 2831, col: 12, offset: 89721},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2830, col: 24, offset: 89701},
+																pos:        position{line: 2831, col: 24, offset: 89733},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2830, col: 37, offset: 89714},
+																pos:        position{line: 2831, col: 37, offset: 89746},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2830, col: 48, offset: 89725},
+																pos:        position{line: 2831, col: 48, offset: 89757},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2830, col: 59, offset: 89736},
+																pos:        position{line: 2831, col: 59, offset: 89768},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19693,38 +19693,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2822, col: 30, offset: 89459},
+											pos:   position{line: 2823, col: 30, offset: 89491},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2835, col: 5, offset: 89800},
+												pos: position{line: 2836, col: 5, offset: 89832},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2835, col: 5, offset: 89800},
+													pos:   position{line: 2836, col: 5, offset: 89832},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2835, col: 14, offset: 89809},
+														pos: position{line: 2836, col: 14, offset: 89841},
 														expr: &choiceExpr{
-															pos: position{line: 2836, col: 9, offset: 89819},
+															pos: position{line: 2837, col: 9, offset: 89851},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2836, col: 9, offset: 89819},
+																	pos: position{line: 2837, col: 9, offset: 89851},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2836, col: 9, offset: 89819},
+																		pos: position{line: 2837, col: 9, offset: 89851},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2836, col: 9, offset: 89819},
+																				pos: position{line: 2837, col: 9, offset: 89851},
 																				expr: &litMatcher{
-																					pos:        position{line: 2836, col: 10, offset: 89820},
+																					pos:        position{line: 2837, col: 10, offset: 89852},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2837, col: 9, offset: 89848},
+																				pos: position{line: 2838, col: 9, offset: 89880},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2837, col: 10, offset: 89849},
+																					pos:        position{line: 2838, col: 10, offset: 89881},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19735,27 +19735,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2840, col: 11, offset: 90061},
+																	pos: position{line: 2841, col: 11, offset: 90093},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2840, col: 11, offset: 90061},
+																			pos:        position{line: 2841, col: 11, offset: 90093},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2840, col: 19, offset: 90069},
+																			pos: position{line: 2841, col: 19, offset: 90101},
 																			expr: &seqExpr{
-																				pos: position{line: 2840, col: 21, offset: 90071},
+																				pos: position{line: 2841, col: 21, offset: 90103},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2840, col: 21, offset: 90071},
+																						pos: position{line: 2841, col: 21, offset: 90103},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90683},
+																							pos: position{line: 2865, col: 10, offset: 90715},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90683},
+																								pos:        position{line: 2865, col: 10, offset: 90715},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19764,11 +19764,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2840, col: 28, offset: 90078},
+																						pos: position{line: 2841, col: 28, offset: 90110},
 																						expr: &notExpr{
-																							pos: position{line: 2883, col: 8, offset: 91031},
+																							pos: position{line: 2884, col: 8, offset: 91063},
 																							expr: &anyMatcher{
-																								line: 2883, col: 9, offset: 91032,
+																								line: 2884, col: 9, offset: 91064,
 																							},
 																						},
 																					},
@@ -20163,10 +20163,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2843, col: 11, offset: 90198},
+																	pos: position{line: 2844, col: 11, offset: 90230},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2843, col: 11, offset: 90198},
+																		pos:        position{line: 2844, col: 11, offset: 90230},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20193,10 +20193,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1324, col: 61, offset: 41415},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90683},
+								pos: position{line: 2865, col: 10, offset: 90715},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90683},
+									pos:        position{line: 2865, col: 10, offset: 90715},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20205,28 +20205,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2886, col: 8, offset: 91081},
+							pos: position{line: 2887, col: 8, offset: 91113},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2873, col: 12, offset: 90854},
+									pos: position{line: 2874, col: 12, offset: 90886},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2873, col: 13, offset: 90855},
+										pos: position{line: 2874, col: 13, offset: 90887},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2873, col: 13, offset: 90855},
+												pos:        position{line: 2874, col: 13, offset: 90887},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 20, offset: 90862},
+												pos:        position{line: 2874, col: 20, offset: 90894},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 29, offset: 90871},
+												pos:        position{line: 2874, col: 29, offset: 90903},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20235,9 +20235,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2883, col: 8, offset: 91031},
+									pos: position{line: 2884, col: 8, offset: 91063},
 									expr: &anyMatcher{
-										line: 2883, col: 9, offset: 91032,
+										line: 2884, col: 9, offset: 91064,
 									},
 								},
 							},
@@ -20274,48 +20274,48 @@ var g = &grammar{
 							pos:   position{line: 1329, col: 30, offset: 41661},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2822, col: 13, offset: 89442},
+								pos: position{line: 2823, col: 13, offset: 89474},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2822, col: 13, offset: 89442},
+									pos: position{line: 2823, col: 13, offset: 89474},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2822, col: 13, offset: 89442},
+											pos:   position{line: 2823, col: 13, offset: 89474},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2822, col: 20, offset: 89449},
+												pos: position{line: 2823, col: 20, offset: 89481},
 												expr: &actionExpr{
-													pos: position{line: 2830, col: 11, offset: 89688},
+													pos: position{line: 2831, col: 11, offset: 89720},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2830, col: 12, offset: 89689},
+														pos: position{line: 2831, col: 12, offset: 89721},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2830, col: 12, offset: 89689},
+																pos:        position{line: 2831, col: 12, offset: 89721},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2830, col: 24, offset: 89701},
+																pos:        position{line: 2831, col: 24, offset: 89733},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2830, col: 37, offset: 89714},
+																pos:        position{line: 2831, col: 37, offset: 89746},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2830, col: 48, offset: 89725},
+																pos:        position{line: 2831, col: 48, offset: 89757},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2830, col: 59, offset: 89736},
+																pos:        position{line: 2831, col: 59, offset: 89768},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20326,38 +20326,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2822, col: 30, offset: 89459},
+											pos:   position{line: 2823, col: 30, offset: 89491},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2835, col: 5, offset: 89800},
+												pos: position{line: 2836, col: 5, offset: 89832},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2835, col: 5, offset: 89800},
+													pos:   position{line: 2836, col: 5, offset: 89832},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2835, col: 14, offset: 89809},
+														pos: position{line: 2836, col: 14, offset: 89841},
 														expr: &choiceExpr{
-															pos: position{line: 2836, col: 9, offset: 89819},
+															pos: position{line: 2837, col: 9, offset: 89851},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2836, col: 9, offset: 89819},
+																	pos: position{line: 2837, col: 9, offset: 89851},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2836, col: 9, offset: 89819},
+																		pos: position{line: 2837, col: 9, offset: 89851},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2836, col: 9, offset: 89819},
+																				pos: position{line: 2837, col: 9, offset: 89851},
 																				expr: &litMatcher{
-																					pos:        position{line: 2836, col: 10, offset: 89820},
+																					pos:        position{line: 2837, col: 10, offset: 89852},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2837, col: 9, offset: 89848},
+																				pos: position{line: 2838, col: 9, offset: 89880},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2837, col: 10, offset: 89849},
+																					pos:        position{line: 2838, col: 10, offset: 89881},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20368,27 +20368,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2840, col: 11, offset: 90061},
+																	pos: position{line: 2841, col: 11, offset: 90093},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2840, col: 11, offset: 90061},
+																			pos:        position{line: 2841, col: 11, offset: 90093},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2840, col: 19, offset: 90069},
+																			pos: position{line: 2841, col: 19, offset: 90101},
 																			expr: &seqExpr{
-																				pos: position{line: 2840, col: 21, offset: 90071},
+																				pos: position{line: 2841, col: 21, offset: 90103},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2840, col: 21, offset: 90071},
+																						pos: position{line: 2841, col: 21, offset: 90103},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90683},
+																							pos: position{line: 2865, col: 10, offset: 90715},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90683},
+																								pos:        position{line: 2865, col: 10, offset: 90715},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20397,11 +20397,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2840, col: 28, offset: 90078},
+																						pos: position{line: 2841, col: 28, offset: 90110},
 																						expr: &notExpr{
-																							pos: position{line: 2883, col: 8, offset: 91031},
+																							pos: position{line: 2884, col: 8, offset: 91063},
 																							expr: &anyMatcher{
-																								line: 2883, col: 9, offset: 91032,
+																								line: 2884, col: 9, offset: 91064,
 																							},
 																						},
 																					},
@@ -20796,10 +20796,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2843, col: 11, offset: 90198},
+																	pos: position{line: 2844, col: 11, offset: 90230},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2843, col: 11, offset: 90198},
+																		pos:        position{line: 2844, col: 11, offset: 90230},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20894,12 +20894,12 @@ var g = &grammar{
 							expr: &zeroOrOneExpr{
 								pos: position{line: 1343, col: 35, offset: 42569},
 								expr: &actionExpr{
-									pos: position{line: 2758, col: 14, offset: 87852},
+									pos: position{line: 2759, col: 14, offset: 87884},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2758, col: 14, offset: 87852},
+										pos: position{line: 2759, col: 14, offset: 87884},
 										expr: &charClassMatcher{
-											pos:        position{line: 2758, col: 14, offset: 87852},
+											pos:        position{line: 2759, col: 14, offset: 87884},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20977,21 +20977,21 @@ var g = &grammar{
 								pos: position{line: 1356, col: 9, offset: 42947},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2763, col: 5, offset: 87925},
+										pos: position{line: 2764, col: 5, offset: 87957},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2763, col: 5, offset: 87925},
+											pos: position{line: 2764, col: 5, offset: 87957},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2763, col: 5, offset: 87925},
+													pos:   position{line: 2764, col: 5, offset: 87957},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2763, col: 11, offset: 87931},
+														pos: position{line: 2764, col: 11, offset: 87963},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2763, col: 11, offset: 87931},
+															pos: position{line: 2764, col: 11, offset: 87963},
 															expr: &charClassMatcher{
-																pos:        position{line: 2763, col: 11, offset: 87931},
+																pos:        position{line: 2764, col: 11, offset: 87963},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21001,36 +21001,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2766, col: 5, offset: 87989},
+													pos: position{line: 2767, col: 5, offset: 88021},
 													expr: &seqExpr{
-														pos: position{line: 2767, col: 9, offset: 88000},
+														pos: position{line: 2768, col: 9, offset: 88032},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2767, col: 9, offset: 88000},
+																pos:        position{line: 2768, col: 9, offset: 88032},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2768, col: 9, offset: 88049},
+																pos: position{line: 2769, col: 9, offset: 88081},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2772, col: 5, offset: 88129},
+													pos: position{line: 2773, col: 5, offset: 88161},
 													expr: &seqExpr{
-														pos: position{line: 2773, col: 9, offset: 88140},
+														pos: position{line: 2774, col: 9, offset: 88172},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2773, col: 9, offset: 88140},
+																pos:        position{line: 2774, col: 9, offset: 88172},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2773, col: 13, offset: 88144},
+																pos:        position{line: 2774, col: 13, offset: 88176},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21043,12 +21043,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2868, col: 11, offset: 90744},
+										pos: position{line: 2869, col: 11, offset: 90776},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2868, col: 11, offset: 90744},
+											pos: position{line: 2869, col: 11, offset: 90776},
 											expr: &charClassMatcher{
-												pos:        position{line: 2868, col: 11, offset: 90744},
+												pos:        position{line: 2869, col: 11, offset: 90776},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21057,21 +21057,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2492, col: 5, offset: 80343},
+										pos: position{line: 2493, col: 5, offset: 80375},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2492, col: 5, offset: 80343},
+											pos: position{line: 2493, col: 5, offset: 80375},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2492, col: 5, offset: 80343},
+													pos:        position{line: 2493, col: 5, offset: 80375},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2492, col: 10, offset: 80348},
+													pos: position{line: 2493, col: 10, offset: 80380},
 													expr: &charClassMatcher{
-														pos:        position{line: 2492, col: 11, offset: 80349},
+														pos:        position{line: 2493, col: 11, offset: 80381},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21082,29 +21082,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2498, col: 5, offset: 80541},
+										pos: position{line: 2499, col: 5, offset: 80573},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2498, col: 5, offset: 80541},
+											pos: position{line: 2499, col: 5, offset: 80573},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2498, col: 5, offset: 80541},
+													pos: position{line: 2499, col: 5, offset: 80573},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2501, col: 5, offset: 80612},
+													pos: position{line: 2502, col: 5, offset: 80644},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2505, col: 5, offset: 80737},
+													pos:        position{line: 2506, col: 5, offset: 80769},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2505, col: 9, offset: 80741},
+													pos: position{line: 2506, col: 9, offset: 80773},
 													expr: &charClassMatcher{
-														pos:        position{line: 2505, col: 10, offset: 80742},
+														pos:        position{line: 2506, col: 10, offset: 80774},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21123,27 +21123,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2781, col: 5, offset: 88337},
+										pos: position{line: 2782, col: 5, offset: 88369},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2782, col: 9, offset: 88347},
+											pos: position{line: 2783, col: 9, offset: 88379},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2782, col: 10, offset: 88348},
+													pos:        position{line: 2783, col: 10, offset: 88380},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2784, col: 13, offset: 88445},
+													pos: position{line: 2785, col: 13, offset: 88477},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2784, col: 13, offset: 88445},
+															pos: position{line: 2785, col: 13, offset: 88477},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2787, col: 13, offset: 88545},
+															pos:        position{line: 2788, col: 13, offset: 88577},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21151,20 +21151,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2787, col: 19, offset: 88551},
+													pos:        position{line: 2788, col: 19, offset: 88583},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2790, col: 13, offset: 88589},
+													pos: position{line: 2791, col: 13, offset: 88621},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2790, col: 13, offset: 88589},
+															pos: position{line: 2791, col: 13, offset: 88621},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2793, col: 14, offset: 88682},
+															pos:        position{line: 2794, col: 14, offset: 88714},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21173,18 +21173,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2795, col: 12, offset: 88726},
+													pos: position{line: 2796, col: 12, offset: 88758},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2795, col: 12, offset: 88726},
+															pos:        position{line: 2796, col: 12, offset: 88758},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2795, col: 16, offset: 88730},
+															pos: position{line: 2796, col: 16, offset: 88762},
 															expr: &litMatcher{
-																pos:        position{line: 2795, col: 17, offset: 88731},
+																pos:        position{line: 2796, col: 17, offset: 88763},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21222,10 +21222,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1226, col: 5, offset: 37991},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90683},
+														pos: position{line: 2865, col: 10, offset: 90715},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90683},
+															pos:        position{line: 2865, col: 10, offset: 90715},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21236,28 +21236,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1226, col: 12, offset: 37998},
 													expr: &choiceExpr{
-														pos: position{line: 2886, col: 8, offset: 91081},
+														pos: position{line: 2887, col: 8, offset: 91113},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90854},
+																pos: position{line: 2874, col: 12, offset: 90886},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90855},
+																	pos: position{line: 2874, col: 13, offset: 90887},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90855},
+																			pos:        position{line: 2874, col: 13, offset: 90887},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90862},
+																			pos:        position{line: 2874, col: 20, offset: 90894},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90871},
+																			pos:        position{line: 2874, col: 29, offset: 90903},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21266,9 +21266,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 91031},
+																pos: position{line: 2884, col: 8, offset: 91063},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 91032,
+																	line: 2884, col: 9, offset: 91064,
 																},
 															},
 														},
@@ -21624,23 +21624,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2461, col: 5, offset: 79172},
+										pos: position{line: 2462, col: 5, offset: 79204},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2461, col: 5, offset: 79172},
+											pos: position{line: 2462, col: 5, offset: 79204},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2461, col: 5, offset: 79172},
+													pos: position{line: 2462, col: 5, offset: 79204},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2464, col: 5, offset: 79248},
+													pos:   position{line: 2465, col: 5, offset: 79280},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2465, col: 9, offset: 79266},
+														pos: position{line: 2466, col: 9, offset: 79298},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2465, col: 10, offset: 79267},
+															pos:        position{line: 2466, col: 10, offset: 79299},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21652,25 +21652,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2873, col: 12, offset: 90854},
+										pos: position{line: 2874, col: 12, offset: 90886},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2873, col: 13, offset: 90855},
+											pos: position{line: 2874, col: 13, offset: 90887},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2873, col: 13, offset: 90855},
+													pos:        position{line: 2874, col: 13, offset: 90887},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2873, col: 20, offset: 90862},
+													pos:        position{line: 2874, col: 20, offset: 90894},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2873, col: 29, offset: 90871},
+													pos:        position{line: 2874, col: 29, offset: 90903},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21679,10 +21679,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2803, col: 12, offset: 88991},
+										pos: position{line: 2804, col: 12, offset: 89023},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2803, col: 12, offset: 88991},
+											pos:        position{line: 2804, col: 12, offset: 89023},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21814,55 +21814,55 @@ var g = &grammar{
 									pos:   position{line: 1418, col: 5, offset: 45653},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2826, col: 23, offset: 89569},
+										pos: position{line: 2827, col: 23, offset: 89601},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2826, col: 23, offset: 89569},
+											pos: position{line: 2827, col: 23, offset: 89601},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2826, col: 23, offset: 89569},
+													pos: position{line: 2827, col: 23, offset: 89601},
 													expr: &litMatcher{
-														pos:        position{line: 2826, col: 24, offset: 89570},
+														pos:        position{line: 2827, col: 24, offset: 89602},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2826, col: 28, offset: 89574},
+													pos:   position{line: 2827, col: 28, offset: 89606},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2830, col: 11, offset: 89688},
+														pos: position{line: 2831, col: 11, offset: 89720},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2830, col: 12, offset: 89689},
+															pos: position{line: 2831, col: 12, offset: 89721},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2830, col: 12, offset: 89689},
+																	pos:        position{line: 2831, col: 12, offset: 89721},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2830, col: 24, offset: 89701},
+																	pos:        position{line: 2831, col: 24, offset: 89733},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2830, col: 37, offset: 89714},
+																	pos:        position{line: 2831, col: 37, offset: 89746},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2830, col: 48, offset: 89725},
+																	pos:        position{line: 2831, col: 48, offset: 89757},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2830, col: 59, offset: 89736},
+																	pos:        position{line: 2831, col: 59, offset: 89768},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21872,38 +21872,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2826, col: 44, offset: 89590},
+													pos:   position{line: 2827, col: 44, offset: 89622},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2835, col: 5, offset: 89800},
+														pos: position{line: 2836, col: 5, offset: 89832},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2835, col: 5, offset: 89800},
+															pos:   position{line: 2836, col: 5, offset: 89832},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2835, col: 14, offset: 89809},
+																pos: position{line: 2836, col: 14, offset: 89841},
 																expr: &choiceExpr{
-																	pos: position{line: 2836, col: 9, offset: 89819},
+																	pos: position{line: 2837, col: 9, offset: 89851},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2836, col: 9, offset: 89819},
+																			pos: position{line: 2837, col: 9, offset: 89851},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2836, col: 9, offset: 89819},
+																				pos: position{line: 2837, col: 9, offset: 89851},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2836, col: 9, offset: 89819},
+																						pos: position{line: 2837, col: 9, offset: 89851},
 																						expr: &litMatcher{
-																							pos:        position{line: 2836, col: 10, offset: 89820},
+																							pos:        position{line: 2837, col: 10, offset: 89852},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2837, col: 9, offset: 89848},
+																						pos: position{line: 2838, col: 9, offset: 89880},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2837, col: 10, offset: 89849},
+																							pos:        position{line: 2838, col: 10, offset: 89881},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21914,27 +21914,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2840, col: 11, offset: 90061},
+																			pos: position{line: 2841, col: 11, offset: 90093},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2840, col: 11, offset: 90061},
+																					pos:        position{line: 2841, col: 11, offset: 90093},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2840, col: 19, offset: 90069},
+																					pos: position{line: 2841, col: 19, offset: 90101},
 																					expr: &seqExpr{
-																						pos: position{line: 2840, col: 21, offset: 90071},
+																						pos: position{line: 2841, col: 21, offset: 90103},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2840, col: 21, offset: 90071},
+																								pos: position{line: 2841, col: 21, offset: 90103},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90683},
+																									pos: position{line: 2865, col: 10, offset: 90715},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90683},
+																										pos:        position{line: 2865, col: 10, offset: 90715},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21943,11 +21943,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2840, col: 28, offset: 90078},
+																								pos: position{line: 2841, col: 28, offset: 90110},
 																								expr: &notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -22342,10 +22342,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2843, col: 11, offset: 90198},
+																			pos: position{line: 2844, col: 11, offset: 90230},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2843, col: 11, offset: 90198},
+																				pos:        position{line: 2844, col: 11, offset: 90230},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22520,48 +22520,48 @@ var g = &grammar{
 									pos:   position{line: 1431, col: 17, offset: 46068},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2822, col: 13, offset: 89442},
+										pos: position{line: 2823, col: 13, offset: 89474},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2822, col: 13, offset: 89442},
+											pos: position{line: 2823, col: 13, offset: 89474},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2822, col: 13, offset: 89442},
+													pos:   position{line: 2823, col: 13, offset: 89474},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2822, col: 20, offset: 89449},
+														pos: position{line: 2823, col: 20, offset: 89481},
 														expr: &actionExpr{
-															pos: position{line: 2830, col: 11, offset: 89688},
+															pos: position{line: 2831, col: 11, offset: 89720},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2830, col: 12, offset: 89689},
+																pos: position{line: 2831, col: 12, offset: 89721},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2830, col: 12, offset: 89689},
+																		pos:        position{line: 2831, col: 12, offset: 89721},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2830, col: 24, offset: 89701},
+																		pos:        position{line: 2831, col: 24, offset: 89733},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2830, col: 37, offset: 89714},
+																		pos:        position{line: 2831, col: 37, offset: 89746},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2830, col: 48, offset: 89725},
+																		pos:        position{line: 2831, col: 48, offset: 89757},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2830, col: 59, offset: 89736},
+																		pos:        position{line: 2831, col: 59, offset: 89768},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22572,38 +22572,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2822, col: 30, offset: 89459},
+													pos:   position{line: 2823, col: 30, offset: 89491},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2835, col: 5, offset: 89800},
+														pos: position{line: 2836, col: 5, offset: 89832},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2835, col: 5, offset: 89800},
+															pos:   position{line: 2836, col: 5, offset: 89832},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2835, col: 14, offset: 89809},
+																pos: position{line: 2836, col: 14, offset: 89841},
 																expr: &choiceExpr{
-																	pos: position{line: 2836, col: 9, offset: 89819},
+																	pos: position{line: 2837, col: 9, offset: 89851},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2836, col: 9, offset: 89819},
+																			pos: position{line: 2837, col: 9, offset: 89851},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2836, col: 9, offset: 89819},
+																				pos: position{line: 2837, col: 9, offset: 89851},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2836, col: 9, offset: 89819},
+																						pos: position{line: 2837, col: 9, offset: 89851},
 																						expr: &litMatcher{
-																							pos:        position{line: 2836, col: 10, offset: 89820},
+																							pos:        position{line: 2837, col: 10, offset: 89852},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2837, col: 9, offset: 89848},
+																						pos: position{line: 2838, col: 9, offset: 89880},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2837, col: 10, offset: 89849},
+																							pos:        position{line: 2838, col: 10, offset: 89881},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22614,27 +22614,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2840, col: 11, offset: 90061},
+																			pos: position{line: 2841, col: 11, offset: 90093},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2840, col: 11, offset: 90061},
+																					pos:        position{line: 2841, col: 11, offset: 90093},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2840, col: 19, offset: 90069},
+																					pos: position{line: 2841, col: 19, offset: 90101},
 																					expr: &seqExpr{
-																						pos: position{line: 2840, col: 21, offset: 90071},
+																						pos: position{line: 2841, col: 21, offset: 90103},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2840, col: 21, offset: 90071},
+																								pos: position{line: 2841, col: 21, offset: 90103},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90683},
+																									pos: position{line: 2865, col: 10, offset: 90715},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90683},
+																										pos:        position{line: 2865, col: 10, offset: 90715},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22643,11 +22643,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2840, col: 28, offset: 90078},
+																								pos: position{line: 2841, col: 28, offset: 90110},
 																								expr: &notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -23042,10 +23042,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2843, col: 11, offset: 90198},
+																			pos: position{line: 2844, col: 11, offset: 90230},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2843, col: 11, offset: 90198},
+																				pos:        position{line: 2844, col: 11, offset: 90230},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23088,48 +23088,48 @@ var g = &grammar{
 									pos:   position{line: 1436, col: 13, offset: 46235},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2822, col: 13, offset: 89442},
+										pos: position{line: 2823, col: 13, offset: 89474},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2822, col: 13, offset: 89442},
+											pos: position{line: 2823, col: 13, offset: 89474},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2822, col: 13, offset: 89442},
+													pos:   position{line: 2823, col: 13, offset: 89474},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2822, col: 20, offset: 89449},
+														pos: position{line: 2823, col: 20, offset: 89481},
 														expr: &actionExpr{
-															pos: position{line: 2830, col: 11, offset: 89688},
+															pos: position{line: 2831, col: 11, offset: 89720},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2830, col: 12, offset: 89689},
+																pos: position{line: 2831, col: 12, offset: 89721},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2830, col: 12, offset: 89689},
+																		pos:        position{line: 2831, col: 12, offset: 89721},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2830, col: 24, offset: 89701},
+																		pos:        position{line: 2831, col: 24, offset: 89733},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2830, col: 37, offset: 89714},
+																		pos:        position{line: 2831, col: 37, offset: 89746},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2830, col: 48, offset: 89725},
+																		pos:        position{line: 2831, col: 48, offset: 89757},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2830, col: 59, offset: 89736},
+																		pos:        position{line: 2831, col: 59, offset: 89768},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23140,38 +23140,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2822, col: 30, offset: 89459},
+													pos:   position{line: 2823, col: 30, offset: 89491},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2835, col: 5, offset: 89800},
+														pos: position{line: 2836, col: 5, offset: 89832},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2835, col: 5, offset: 89800},
+															pos:   position{line: 2836, col: 5, offset: 89832},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2835, col: 14, offset: 89809},
+																pos: position{line: 2836, col: 14, offset: 89841},
 																expr: &choiceExpr{
-																	pos: position{line: 2836, col: 9, offset: 89819},
+																	pos: position{line: 2837, col: 9, offset: 89851},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2836, col: 9, offset: 89819},
+																			pos: position{line: 2837, col: 9, offset: 89851},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2836, col: 9, offset: 89819},
+																				pos: position{line: 2837, col: 9, offset: 89851},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2836, col: 9, offset: 89819},
+																						pos: position{line: 2837, col: 9, offset: 89851},
 																						expr: &litMatcher{
-																							pos:        position{line: 2836, col: 10, offset: 89820},
+																							pos:        position{line: 2837, col: 10, offset: 89852},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2837, col: 9, offset: 89848},
+																						pos: position{line: 2838, col: 9, offset: 89880},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2837, col: 10, offset: 89849},
+																							pos:        position{line: 2838, col: 10, offset: 89881},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23182,27 +23182,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2840, col: 11, offset: 90061},
+																			pos: position{line: 2841, col: 11, offset: 90093},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2840, col: 11, offset: 90061},
+																					pos:        position{line: 2841, col: 11, offset: 90093},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2840, col: 19, offset: 90069},
+																					pos: position{line: 2841, col: 19, offset: 90101},
 																					expr: &seqExpr{
-																						pos: position{line: 2840, col: 21, offset: 90071},
+																						pos: position{line: 2841, col: 21, offset: 90103},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2840, col: 21, offset: 90071},
+																								pos: position{line: 2841, col: 21, offset: 90103},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90683},
+																									pos: position{line: 2865, col: 10, offset: 90715},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90683},
+																										pos:        position{line: 2865, col: 10, offset: 90715},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23211,11 +23211,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2840, col: 28, offset: 90078},
+																								pos: position{line: 2841, col: 28, offset: 90110},
 																								expr: &notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -23610,10 +23610,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2843, col: 11, offset: 90198},
+																			pos: position{line: 2844, col: 11, offset: 90230},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2843, col: 11, offset: 90198},
+																				pos:        position{line: 2844, col: 11, offset: 90230},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23665,55 +23665,55 @@ var g = &grammar{
 									pos:   position{line: 1443, col: 9, offset: 46544},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2826, col: 23, offset: 89569},
+										pos: position{line: 2827, col: 23, offset: 89601},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2826, col: 23, offset: 89569},
+											pos: position{line: 2827, col: 23, offset: 89601},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2826, col: 23, offset: 89569},
+													pos: position{line: 2827, col: 23, offset: 89601},
 													expr: &litMatcher{
-														pos:        position{line: 2826, col: 24, offset: 89570},
+														pos:        position{line: 2827, col: 24, offset: 89602},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2826, col: 28, offset: 89574},
+													pos:   position{line: 2827, col: 28, offset: 89606},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2830, col: 11, offset: 89688},
+														pos: position{line: 2831, col: 11, offset: 89720},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2830, col: 12, offset: 89689},
+															pos: position{line: 2831, col: 12, offset: 89721},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2830, col: 12, offset: 89689},
+																	pos:        position{line: 2831, col: 12, offset: 89721},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2830, col: 24, offset: 89701},
+																	pos:        position{line: 2831, col: 24, offset: 89733},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2830, col: 37, offset: 89714},
+																	pos:        position{line: 2831, col: 37, offset: 89746},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2830, col: 48, offset: 89725},
+																	pos:        position{line: 2831, col: 48, offset: 89757},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2830, col: 59, offset: 89736},
+																	pos:        position{line: 2831, col: 59, offset: 89768},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23723,38 +23723,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2826, col: 44, offset: 89590},
+													pos:   position{line: 2827, col: 44, offset: 89622},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2835, col: 5, offset: 89800},
+														pos: position{line: 2836, col: 5, offset: 89832},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2835, col: 5, offset: 89800},
+															pos:   position{line: 2836, col: 5, offset: 89832},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2835, col: 14, offset: 89809},
+																pos: position{line: 2836, col: 14, offset: 89841},
 																expr: &choiceExpr{
-																	pos: position{line: 2836, col: 9, offset: 89819},
+																	pos: position{line: 2837, col: 9, offset: 89851},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2836, col: 9, offset: 89819},
+																			pos: position{line: 2837, col: 9, offset: 89851},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2836, col: 9, offset: 89819},
+																				pos: position{line: 2837, col: 9, offset: 89851},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2836, col: 9, offset: 89819},
+																						pos: position{line: 2837, col: 9, offset: 89851},
 																						expr: &litMatcher{
-																							pos:        position{line: 2836, col: 10, offset: 89820},
+																							pos:        position{line: 2837, col: 10, offset: 89852},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2837, col: 9, offset: 89848},
+																						pos: position{line: 2838, col: 9, offset: 89880},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2837, col: 10, offset: 89849},
+																							pos:        position{line: 2838, col: 10, offset: 89881},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23765,27 +23765,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2840, col: 11, offset: 90061},
+																			pos: position{line: 2841, col: 11, offset: 90093},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2840, col: 11, offset: 90061},
+																					pos:        position{line: 2841, col: 11, offset: 90093},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2840, col: 19, offset: 90069},
+																					pos: position{line: 2841, col: 19, offset: 90101},
 																					expr: &seqExpr{
-																						pos: position{line: 2840, col: 21, offset: 90071},
+																						pos: position{line: 2841, col: 21, offset: 90103},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2840, col: 21, offset: 90071},
+																								pos: position{line: 2841, col: 21, offset: 90103},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90683},
+																									pos: position{line: 2865, col: 10, offset: 90715},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90683},
+																										pos:        position{line: 2865, col: 10, offset: 90715},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23794,11 +23794,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2840, col: 28, offset: 90078},
+																								pos: position{line: 2841, col: 28, offset: 90110},
 																								expr: &notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -24193,10 +24193,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2843, col: 11, offset: 90198},
+																			pos: position{line: 2844, col: 11, offset: 90230},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2843, col: 11, offset: 90198},
+																				pos:        position{line: 2844, col: 11, offset: 90230},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24236,55 +24236,55 @@ var g = &grammar{
 									pos:   position{line: 1448, col: 5, offset: 46714},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2826, col: 23, offset: 89569},
+										pos: position{line: 2827, col: 23, offset: 89601},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2826, col: 23, offset: 89569},
+											pos: position{line: 2827, col: 23, offset: 89601},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2826, col: 23, offset: 89569},
+													pos: position{line: 2827, col: 23, offset: 89601},
 													expr: &litMatcher{
-														pos:        position{line: 2826, col: 24, offset: 89570},
+														pos:        position{line: 2827, col: 24, offset: 89602},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2826, col: 28, offset: 89574},
+													pos:   position{line: 2827, col: 28, offset: 89606},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2830, col: 11, offset: 89688},
+														pos: position{line: 2831, col: 11, offset: 89720},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2830, col: 12, offset: 89689},
+															pos: position{line: 2831, col: 12, offset: 89721},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2830, col: 12, offset: 89689},
+																	pos:        position{line: 2831, col: 12, offset: 89721},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2830, col: 24, offset: 89701},
+																	pos:        position{line: 2831, col: 24, offset: 89733},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2830, col: 37, offset: 89714},
+																	pos:        position{line: 2831, col: 37, offset: 89746},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2830, col: 48, offset: 89725},
+																	pos:        position{line: 2831, col: 48, offset: 89757},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2830, col: 59, offset: 89736},
+																	pos:        position{line: 2831, col: 59, offset: 89768},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24294,38 +24294,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2826, col: 44, offset: 89590},
+													pos:   position{line: 2827, col: 44, offset: 89622},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2835, col: 5, offset: 89800},
+														pos: position{line: 2836, col: 5, offset: 89832},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2835, col: 5, offset: 89800},
+															pos:   position{line: 2836, col: 5, offset: 89832},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2835, col: 14, offset: 89809},
+																pos: position{line: 2836, col: 14, offset: 89841},
 																expr: &choiceExpr{
-																	pos: position{line: 2836, col: 9, offset: 89819},
+																	pos: position{line: 2837, col: 9, offset: 89851},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2836, col: 9, offset: 89819},
+																			pos: position{line: 2837, col: 9, offset: 89851},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2836, col: 9, offset: 89819},
+																				pos: position{line: 2837, col: 9, offset: 89851},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2836, col: 9, offset: 89819},
+																						pos: position{line: 2837, col: 9, offset: 89851},
 																						expr: &litMatcher{
-																							pos:        position{line: 2836, col: 10, offset: 89820},
+																							pos:        position{line: 2837, col: 10, offset: 89852},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2837, col: 9, offset: 89848},
+																						pos: position{line: 2838, col: 9, offset: 89880},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2837, col: 10, offset: 89849},
+																							pos:        position{line: 2838, col: 10, offset: 89881},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24336,27 +24336,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2840, col: 11, offset: 90061},
+																			pos: position{line: 2841, col: 11, offset: 90093},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2840, col: 11, offset: 90061},
+																					pos:        position{line: 2841, col: 11, offset: 90093},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2840, col: 19, offset: 90069},
+																					pos: position{line: 2841, col: 19, offset: 90101},
 																					expr: &seqExpr{
-																						pos: position{line: 2840, col: 21, offset: 90071},
+																						pos: position{line: 2841, col: 21, offset: 90103},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2840, col: 21, offset: 90071},
+																								pos: position{line: 2841, col: 21, offset: 90103},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90683},
+																									pos: position{line: 2865, col: 10, offset: 90715},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90683},
+																										pos:        position{line: 2865, col: 10, offset: 90715},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24365,11 +24365,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2840, col: 28, offset: 90078},
+																								pos: position{line: 2841, col: 28, offset: 90110},
 																								expr: &notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -24764,10 +24764,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2843, col: 11, offset: 90198},
+																			pos: position{line: 2844, col: 11, offset: 90230},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2843, col: 11, offset: 90198},
+																				pos:        position{line: 2844, col: 11, offset: 90230},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24833,10 +24833,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1589, col: 5, offset: 51257},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90683},
+																		pos: position{line: 2865, col: 10, offset: 90715},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90683},
+																			pos:        position{line: 2865, col: 10, offset: 90715},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25003,12 +25003,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2868, col: 11, offset: 90744},
+																	pos: position{line: 2869, col: 11, offset: 90776},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2868, col: 11, offset: 90744},
+																		pos: position{line: 2869, col: 11, offset: 90776},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 11, offset: 90744},
+																			pos:        position{line: 2869, col: 11, offset: 90776},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25051,28 +25051,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
+																			pos: position{line: 2874, col: 12, offset: 90886},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25081,9 +25081,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -25113,10 +25113,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1639, col: 5, offset: 53219},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90683},
+																		pos: position{line: 2865, col: 10, offset: 90715},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90683},
+																			pos:        position{line: 2865, col: 10, offset: 90715},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25157,12 +25157,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2868, col: 11, offset: 90744},
+																	pos: position{line: 2869, col: 11, offset: 90776},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2868, col: 11, offset: 90744},
+																		pos: position{line: 2869, col: 11, offset: 90776},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 11, offset: 90744},
+																			pos:        position{line: 2869, col: 11, offset: 90776},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25234,12 +25234,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2868, col: 11, offset: 90744},
+																		pos: position{line: 2869, col: 11, offset: 90776},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2868, col: 11, offset: 90744},
+																			pos: position{line: 2869, col: 11, offset: 90776},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 11, offset: 90744},
+																				pos:        position{line: 2869, col: 11, offset: 90776},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25283,28 +25283,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
+																			pos: position{line: 2874, col: 12, offset: 90886},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25313,9 +25313,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -25328,36 +25328,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1722, col: 5, offset: 55559},
+										pos: position{line: 1723, col: 5, offset: 55591},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1722, col: 5, offset: 55559},
+											pos: position{line: 1723, col: 5, offset: 55591},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1722, col: 5, offset: 55559},
+													pos:   position{line: 1723, col: 5, offset: 55591},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1728, col: 5, offset: 55756},
+														pos: position{line: 1729, col: 5, offset: 55788},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1728, col: 5, offset: 55756},
+															pos: position{line: 1729, col: 5, offset: 55788},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1728, col: 5, offset: 55756},
+																	pos:        position{line: 1729, col: 5, offset: 55788},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1728, col: 9, offset: 55760},
+																	pos:   position{line: 1729, col: 9, offset: 55792},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1728, col: 14, offset: 55765},
+																		pos: position{line: 1729, col: 14, offset: 55797},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1728, col: 14, offset: 55765},
+																			pos: position{line: 1729, col: 14, offset: 55797},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1728, col: 14, offset: 55765},
+																				pos:        position{line: 1729, col: 14, offset: 55797},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25367,18 +25367,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1728, col: 62, offset: 55813},
+																	pos:        position{line: 1729, col: 62, offset: 55845},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2868, col: 11, offset: 90744},
+																	pos: position{line: 2869, col: 11, offset: 90776},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2868, col: 11, offset: 90744},
+																		pos: position{line: 2869, col: 11, offset: 90776},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 11, offset: 90744},
+																			pos:        position{line: 2869, col: 11, offset: 90776},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25391,7 +25391,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1723, col: 5, offset: 55595},
+													pos:   position{line: 1724, col: 5, offset: 55627},
 													label: "description",
 													expr: &actionExpr{
 														pos: position{line: 1530, col: 5, offset: 49555},
@@ -25421,28 +25421,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
+																			pos: position{line: 2874, col: 12, offset: 90886},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25451,9 +25451,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -25477,88 +25477,116 @@ var g = &grammar{
 													expr: &actionExpr{
 														pos: position{line: 1674, col: 5, offset: 54238},
 														run: (*parser).callonListElements148,
-														expr: &oneOrMoreExpr{
+														expr: &seqExpr{
 															pos: position{line: 1674, col: 5, offset: 54238},
-															expr: &seqExpr{
-																pos: position{line: 1674, col: 6, offset: 54239},
-																exprs: []interface{}{
-																	&notExpr{
-																		pos: position{line: 1674, col: 6, offset: 54239},
-																		expr: &actionExpr{
-																			pos: position{line: 1679, col: 5, offset: 54389},
-																			run: (*parser).callonListElements152,
-																			expr: &seqExpr{
-																				pos: position{line: 1679, col: 5, offset: 54389},
-																				exprs: []interface{}{
-																					&labeledExpr{
-																						pos:   position{line: 1679, col: 5, offset: 54389},
-																						label: "separator",
-																						expr: &actionExpr{
-																							pos: position{line: 1679, col: 16, offset: 54400},
-																							run: (*parser).callonListElements155,
-																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1679, col: 16, offset: 54400},
-																								expr: &litMatcher{
-																									pos:        position{line: 1679, col: 17, offset: 54401},
-																									val:        ":",
-																									ignoreCase: false,
-																									want:       "\":\"",
-																								},
-																							},
-																						},
-																					},
-																					&andCodeExpr{
-																						pos: position{line: 1682, col: 5, offset: 54458},
-																						run: (*parser).callonListElements158,
-																					},
+															exprs: []interface{}{
+																&notExpr{
+																	pos: position{line: 1674, col: 5, offset: 54238},
+																	expr: &seqExpr{
+																		pos: position{line: 2480, col: 31, offset: 79879},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 2480, col: 31, offset: 79879},
+																				val:        "//",
+																				ignoreCase: false,
+																				want:       "\"//\"",
+																			},
+																			&notExpr{
+																				pos: position{line: 2480, col: 36, offset: 79884},
+																				expr: &litMatcher{
+																					pos:        position{line: 2480, col: 37, offset: 79885},
+																					val:        "//",
+																					ignoreCase: false,
+																					want:       "\"//\"",
 																				},
 																			},
 																		},
 																	},
-																	&notExpr{
-																		pos: position{line: 1674, col: 35, offset: 54268},
-																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91081},
-																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90854},
-																					run: (*parser).callonListElements161,
-																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90855},
-																						alternatives: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90855},
-																								val:        "\n",
-																								ignoreCase: false,
-																								want:       "\"\\n\"",
-																							},
-																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90862},
-																								val:        "\r\n",
-																								ignoreCase: false,
-																								want:       "\"\\r\\n\"",
+																},
+																&oneOrMoreExpr{
+																	pos: position{line: 1675, col: 5, offset: 54270},
+																	expr: &seqExpr{
+																		pos: position{line: 1675, col: 6, offset: 54271},
+																		exprs: []interface{}{
+																			&notExpr{
+																				pos: position{line: 1675, col: 6, offset: 54271},
+																				expr: &actionExpr{
+																					pos: position{line: 1680, col: 5, offset: 54421},
+																					run: (*parser).callonListElements158,
+																					expr: &seqExpr{
+																						pos: position{line: 1680, col: 5, offset: 54421},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 1680, col: 5, offset: 54421},
+																								label: "separator",
+																								expr: &actionExpr{
+																									pos: position{line: 1680, col: 16, offset: 54432},
+																									run: (*parser).callonListElements161,
+																									expr: &oneOrMoreExpr{
+																										pos: position{line: 1680, col: 16, offset: 54432},
+																										expr: &litMatcher{
+																											pos:        position{line: 1680, col: 17, offset: 54433},
+																											val:        ":",
+																											ignoreCase: false,
+																											want:       "\":\"",
+																										},
+																									},
+																								},
 																							},
-																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90871},
-																								val:        "\r",
-																								ignoreCase: false,
-																								want:       "\"\\r\"",
+																							&andCodeExpr{
+																								pos: position{line: 1683, col: 5, offset: 54490},
+																								run: (*parser).callonListElements164,
 																							},
 																						},
 																					},
 																				},
-																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
-																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																			},
+																			&notExpr{
+																				pos: position{line: 1675, col: 35, offset: 54300},
+																				expr: &choiceExpr{
+																					pos: position{line: 2887, col: 8, offset: 91113},
+																					alternatives: []interface{}{
+																						&actionExpr{
+																							pos: position{line: 2874, col: 12, offset: 90886},
+																							run: (*parser).callonListElements167,
+																							expr: &choiceExpr{
+																								pos: position{line: 2874, col: 13, offset: 90887},
+																								alternatives: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2874, col: 13, offset: 90887},
+																										val:        "\n",
+																										ignoreCase: false,
+																										want:       "\"\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2874, col: 20, offset: 90894},
+																										val:        "\r\n",
+																										ignoreCase: false,
+																										want:       "\"\\r\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2874, col: 29, offset: 90903},
+																										val:        "\r",
+																										ignoreCase: false,
+																										want:       "\"\\r\"",
+																									},
+																								},
+																							},
+																						},
+																						&notExpr{
+																							pos: position{line: 2884, col: 8, offset: 91063},
+																							expr: &anyMatcher{
+																								line: 2884, col: 9, offset: 91064,
+																							},
+																						},
 																					},
 																				},
 																			},
+																			&anyMatcher{
+																				line: 1675, col: 40, offset: 54305,
+																			},
 																		},
 																	},
-																	&anyMatcher{
-																		line: 1674, col: 40, offset: 54273,
-																	},
 																},
 															},
 														},
@@ -25568,21 +25596,21 @@ var g = &grammar{
 													pos:   position{line: 1667, col: 5, offset: 53947},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1679, col: 5, offset: 54389},
-														run: (*parser).callonListElements170,
+														pos: position{line: 1680, col: 5, offset: 54421},
+														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1679, col: 5, offset: 54389},
+															pos: position{line: 1680, col: 5, offset: 54421},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1679, col: 5, offset: 54389},
+																	pos:   position{line: 1680, col: 5, offset: 54421},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1679, col: 16, offset: 54400},
-																		run: (*parser).callonListElements173,
+																		pos: position{line: 1680, col: 16, offset: 54432},
+																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1679, col: 16, offset: 54400},
+																			pos: position{line: 1680, col: 16, offset: 54432},
 																			expr: &litMatcher{
-																				pos:        position{line: 1679, col: 17, offset: 54401},
+																				pos:        position{line: 1680, col: 17, offset: 54433},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25591,8 +25619,8 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1682, col: 5, offset: 54458},
-																	run: (*parser).callonListElements176,
+																	pos: position{line: 1683, col: 5, offset: 54490},
+																	run: (*parser).callonListElements182,
 																},
 															},
 														},
@@ -25602,21 +25630,21 @@ var g = &grammar{
 													pos:   position{line: 1668, col: 5, offset: 53992},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1690, col: 5, offset: 54707},
+														pos: position{line: 1691, col: 5, offset: 54739},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1692, col: 9, offset: 54773},
-																run: (*parser).callonListElements179,
+																pos: position{line: 1693, col: 9, offset: 54805},
+																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1692, col: 9, offset: 54773},
+																	pos: position{line: 1693, col: 9, offset: 54805},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1692, col: 9, offset: 54773},
+																			pos: position{line: 1693, col: 9, offset: 54805},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90683},
-																				run: (*parser).callonListElements182,
+																				pos: position{line: 2865, col: 10, offset: 90715},
+																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90683},
+																					pos:        position{line: 2865, col: 10, offset: 90715},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25625,28 +25653,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91081},
+																			pos: position{line: 2887, col: 8, offset: 91113},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90854},
-																					run: (*parser).callonListElements185,
+																					pos: position{line: 2874, col: 12, offset: 90886},
+																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90855},
+																						pos: position{line: 2874, col: 13, offset: 90887},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90855},
+																								pos:        position{line: 2874, col: 13, offset: 90887},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90862},
+																								pos:        position{line: 2874, col: 20, offset: 90894},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90871},
+																								pos:        position{line: 2874, col: 29, offset: 90903},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25655,34 +25683,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1693, col: 9, offset: 54792},
+																			pos: position{line: 1694, col: 9, offset: 54824},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21489},
-																				run: (*parser).callonListElements193,
+																				run: (*parser).callonListElements199,
 																				expr: &seqExpr{
 																					pos: position{line: 677, col: 14, offset: 21489},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 91017},
+																							pos: position{line: 2882, col: 11, offset: 91049},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 91019,
+																								line: 2882, col: 13, offset: 91051,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21496},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
-																								run: (*parser).callonListElements198,
+																								pos: position{line: 2865, col: 10, offset: 90715},
+																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25691,28 +25719,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
-																									run: (*parser).callonListElements201,
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25721,9 +25749,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -25736,18 +25764,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1699, col: 9, offset: 54921},
-																run: (*parser).callonListElements208,
+																pos: position{line: 1700, col: 9, offset: 54953},
+																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1699, col: 9, offset: 54921},
+																	pos: position{line: 1700, col: 9, offset: 54953},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2868, col: 11, offset: 90744},
-																			run: (*parser).callonListElements210,
+																			pos: position{line: 2869, col: 11, offset: 90776},
+																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2868, col: 11, offset: 90744},
+																				pos: position{line: 2869, col: 11, offset: 90776},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 11, offset: 90744},
+																					pos:        position{line: 2869, col: 11, offset: 90776},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25756,15 +25784,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1700, col: 9, offset: 54994},
+																			pos:   position{line: 1701, col: 9, offset: 55026},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1700, col: 18, offset: 55003},
-																				run: (*parser).callonListElements214,
+																				pos: position{line: 1701, col: 18, offset: 55035},
+																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1700, col: 18, offset: 55003},
+																					pos: position{line: 1701, col: 18, offset: 55035},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1700, col: 18, offset: 55003},
+																						pos:        position{line: 1701, col: 18, offset: 55035},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25774,28 +25802,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91081},
+																			pos: position{line: 2887, col: 8, offset: 91113},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90854},
-																					run: (*parser).callonListElements218,
+																					pos: position{line: 2874, col: 12, offset: 90886},
+																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90855},
+																						pos: position{line: 2874, col: 13, offset: 90887},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90855},
+																								pos:        position{line: 2874, col: 13, offset: 90887},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90862},
+																								pos:        position{line: 2874, col: 20, offset: 90894},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90871},
+																								pos:        position{line: 2874, col: 29, offset: 90903},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25804,9 +25832,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -25864,9 +25892,9 @@ var g = &grammar{
 					pos: position{line: 1499, col: 5, offset: 48464},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2881, col: 11, offset: 91017},
+							pos: position{line: 2882, col: 11, offset: 91049},
 							expr: &anyMatcher{
-								line: 2881, col: 13, offset: 91019,
+								line: 2882, col: 13, offset: 91051,
 							},
 						},
 						&labeledExpr{
@@ -25890,18 +25918,18 @@ var g = &grammar{
 															pos: position{line: 677, col: 14, offset: 21489},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2881, col: 11, offset: 91017},
+																	pos: position{line: 2882, col: 11, offset: 91049},
 																	expr: &anyMatcher{
-																		line: 2881, col: 13, offset: 91019,
+																		line: 2882, col: 13, offset: 91051,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21496},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90683},
+																		pos: position{line: 2865, col: 10, offset: 90715},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90683},
+																			pos:        position{line: 2865, col: 10, offset: 90715},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25910,28 +25938,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
+																			pos: position{line: 2874, col: 12, offset: 90886},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25940,9 +25968,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -25975,10 +26003,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1589, col: 5, offset: 51257},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
+																								pos: position{line: 2865, col: 10, offset: 90715},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26145,12 +26173,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2868, col: 11, offset: 90744},
+																							pos: position{line: 2869, col: 11, offset: 90776},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2868, col: 11, offset: 90744},
+																								pos: position{line: 2869, col: 11, offset: 90776},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 11, offset: 90744},
+																									pos:        position{line: 2869, col: 11, offset: 90776},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26193,28 +26221,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
+																									pos: position{line: 2874, col: 12, offset: 90886},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26223,9 +26251,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -26255,10 +26283,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1639, col: 5, offset: 53219},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
+																								pos: position{line: 2865, col: 10, offset: 90715},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26299,12 +26327,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2868, col: 11, offset: 90744},
+																							pos: position{line: 2869, col: 11, offset: 90776},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2868, col: 11, offset: 90744},
+																								pos: position{line: 2869, col: 11, offset: 90776},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 11, offset: 90744},
+																									pos:        position{line: 2869, col: 11, offset: 90776},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26376,12 +26404,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2868, col: 11, offset: 90744},
+																								pos: position{line: 2869, col: 11, offset: 90776},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2868, col: 11, offset: 90744},
+																									pos: position{line: 2869, col: 11, offset: 90776},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 11, offset: 90744},
+																										pos:        position{line: 2869, col: 11, offset: 90776},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26425,28 +26453,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
+																									pos: position{line: 2874, col: 12, offset: 90886},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26455,9 +26483,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -26470,36 +26498,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1722, col: 5, offset: 55559},
+																pos: position{line: 1723, col: 5, offset: 55591},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1722, col: 5, offset: 55559},
+																	pos: position{line: 1723, col: 5, offset: 55591},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1722, col: 5, offset: 55559},
+																			pos:   position{line: 1723, col: 5, offset: 55591},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1728, col: 5, offset: 55756},
+																				pos: position{line: 1729, col: 5, offset: 55788},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1728, col: 5, offset: 55756},
+																					pos: position{line: 1729, col: 5, offset: 55788},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1728, col: 5, offset: 55756},
+																							pos:        position{line: 1729, col: 5, offset: 55788},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1728, col: 9, offset: 55760},
+																							pos:   position{line: 1729, col: 9, offset: 55792},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1728, col: 14, offset: 55765},
+																								pos: position{line: 1729, col: 14, offset: 55797},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1728, col: 14, offset: 55765},
+																									pos: position{line: 1729, col: 14, offset: 55797},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1728, col: 14, offset: 55765},
+																										pos:        position{line: 1729, col: 14, offset: 55797},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26509,18 +26537,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1728, col: 62, offset: 55813},
+																							pos:        position{line: 1729, col: 62, offset: 55845},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2868, col: 11, offset: 90744},
+																							pos: position{line: 2869, col: 11, offset: 90776},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2868, col: 11, offset: 90744},
+																								pos: position{line: 2869, col: 11, offset: 90776},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 11, offset: 90744},
+																									pos:        position{line: 2869, col: 11, offset: 90776},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26533,7 +26561,7 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1723, col: 5, offset: 55595},
+																			pos:   position{line: 1724, col: 5, offset: 55627},
 																			label: "description",
 																			expr: &actionExpr{
 																				pos: position{line: 1530, col: 5, offset: 49555},
@@ -26563,28 +26591,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
+																									pos: position{line: 2874, col: 12, offset: 90886},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26593,9 +26621,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -26619,88 +26647,116 @@ var g = &grammar{
 																			expr: &actionExpr{
 																				pos: position{line: 1674, col: 5, offset: 54238},
 																				run: (*parser).callonExtraListElement170,
-																				expr: &oneOrMoreExpr{
+																				expr: &seqExpr{
 																					pos: position{line: 1674, col: 5, offset: 54238},
-																					expr: &seqExpr{
-																						pos: position{line: 1674, col: 6, offset: 54239},
-																						exprs: []interface{}{
-																							&notExpr{
-																								pos: position{line: 1674, col: 6, offset: 54239},
-																								expr: &actionExpr{
-																									pos: position{line: 1679, col: 5, offset: 54389},
-																									run: (*parser).callonExtraListElement174,
-																									expr: &seqExpr{
-																										pos: position{line: 1679, col: 5, offset: 54389},
-																										exprs: []interface{}{
-																											&labeledExpr{
-																												pos:   position{line: 1679, col: 5, offset: 54389},
-																												label: "separator",
-																												expr: &actionExpr{
-																													pos: position{line: 1679, col: 16, offset: 54400},
-																													run: (*parser).callonExtraListElement177,
-																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1679, col: 16, offset: 54400},
-																														expr: &litMatcher{
-																															pos:        position{line: 1679, col: 17, offset: 54401},
-																															val:        ":",
-																															ignoreCase: false,
-																															want:       "\":\"",
-																														},
-																													},
-																												},
-																											},
-																											&andCodeExpr{
-																												pos: position{line: 1682, col: 5, offset: 54458},
-																												run: (*parser).callonExtraListElement180,
-																											},
+																					exprs: []interface{}{
+																						&notExpr{
+																							pos: position{line: 1674, col: 5, offset: 54238},
+																							expr: &seqExpr{
+																								pos: position{line: 2480, col: 31, offset: 79879},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2480, col: 31, offset: 79879},
+																										val:        "//",
+																										ignoreCase: false,
+																										want:       "\"//\"",
+																									},
+																									&notExpr{
+																										pos: position{line: 2480, col: 36, offset: 79884},
+																										expr: &litMatcher{
+																											pos:        position{line: 2480, col: 37, offset: 79885},
+																											val:        "//",
+																											ignoreCase: false,
+																											want:       "\"//\"",
 																										},
 																									},
 																								},
 																							},
-																							&notExpr{
-																								pos: position{line: 1674, col: 35, offset: 54268},
-																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 8, offset: 91081},
-																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 2873, col: 12, offset: 90854},
-																											run: (*parser).callonExtraListElement183,
-																											expr: &choiceExpr{
-																												pos: position{line: 2873, col: 13, offset: 90855},
-																												alternatives: []interface{}{
-																													&litMatcher{
-																														pos:        position{line: 2873, col: 13, offset: 90855},
-																														val:        "\n",
-																														ignoreCase: false,
-																														want:       "\"\\n\"",
-																													},
-																													&litMatcher{
-																														pos:        position{line: 2873, col: 20, offset: 90862},
-																														val:        "\r\n",
-																														ignoreCase: false,
-																														want:       "\"\\r\\n\"",
+																						},
+																						&oneOrMoreExpr{
+																							pos: position{line: 1675, col: 5, offset: 54270},
+																							expr: &seqExpr{
+																								pos: position{line: 1675, col: 6, offset: 54271},
+																								exprs: []interface{}{
+																									&notExpr{
+																										pos: position{line: 1675, col: 6, offset: 54271},
+																										expr: &actionExpr{
+																											pos: position{line: 1680, col: 5, offset: 54421},
+																											run: (*parser).callonExtraListElement180,
+																											expr: &seqExpr{
+																												pos: position{line: 1680, col: 5, offset: 54421},
+																												exprs: []interface{}{
+																													&labeledExpr{
+																														pos:   position{line: 1680, col: 5, offset: 54421},
+																														label: "separator",
+																														expr: &actionExpr{
+																															pos: position{line: 1680, col: 16, offset: 54432},
+																															run: (*parser).callonExtraListElement183,
+																															expr: &oneOrMoreExpr{
+																																pos: position{line: 1680, col: 16, offset: 54432},
+																																expr: &litMatcher{
+																																	pos:        position{line: 1680, col: 17, offset: 54433},
+																																	val:        ":",
+																																	ignoreCase: false,
+																																	want:       "\":\"",
+																																},
+																															},
+																														},
 																													},
-																													&litMatcher{
-																														pos:        position{line: 2873, col: 29, offset: 90871},
-																														val:        "\r",
-																														ignoreCase: false,
-																														want:       "\"\\r\"",
+																													&andCodeExpr{
+																														pos: position{line: 1683, col: 5, offset: 54490},
+																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
 																											},
 																										},
-																										&notExpr{
-																											pos: position{line: 2883, col: 8, offset: 91031},
-																											expr: &anyMatcher{
-																												line: 2883, col: 9, offset: 91032,
+																									},
+																									&notExpr{
+																										pos: position{line: 1675, col: 35, offset: 54300},
+																										expr: &choiceExpr{
+																											pos: position{line: 2887, col: 8, offset: 91113},
+																											alternatives: []interface{}{
+																												&actionExpr{
+																													pos: position{line: 2874, col: 12, offset: 90886},
+																													run: (*parser).callonExtraListElement189,
+																													expr: &choiceExpr{
+																														pos: position{line: 2874, col: 13, offset: 90887},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
+																												},
+																												&notExpr{
+																													pos: position{line: 2884, col: 8, offset: 91063},
+																													expr: &anyMatcher{
+																														line: 2884, col: 9, offset: 91064,
+																													},
+																												},
 																											},
 																										},
 																									},
+																									&anyMatcher{
+																										line: 1675, col: 40, offset: 54305,
+																									},
 																								},
 																							},
-																							&anyMatcher{
-																								line: 1674, col: 40, offset: 54273,
-																							},
 																						},
 																					},
 																				},
@@ -26710,21 +26766,21 @@ var g = &grammar{
 																			pos:   position{line: 1667, col: 5, offset: 53947},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1679, col: 5, offset: 54389},
-																				run: (*parser).callonExtraListElement192,
+																				pos: position{line: 1680, col: 5, offset: 54421},
+																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1679, col: 5, offset: 54389},
+																					pos: position{line: 1680, col: 5, offset: 54421},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1679, col: 5, offset: 54389},
+																							pos:   position{line: 1680, col: 5, offset: 54421},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1679, col: 16, offset: 54400},
-																								run: (*parser).callonExtraListElement195,
+																								pos: position{line: 1680, col: 16, offset: 54432},
+																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1679, col: 16, offset: 54400},
+																									pos: position{line: 1680, col: 16, offset: 54432},
 																									expr: &litMatcher{
-																										pos:        position{line: 1679, col: 17, offset: 54401},
+																										pos:        position{line: 1680, col: 17, offset: 54433},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26733,8 +26789,8 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1682, col: 5, offset: 54458},
-																							run: (*parser).callonExtraListElement198,
+																							pos: position{line: 1683, col: 5, offset: 54490},
+																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
 																				},
@@ -26744,21 +26800,21 @@ var g = &grammar{
 																			pos:   position{line: 1668, col: 5, offset: 53992},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1690, col: 5, offset: 54707},
+																				pos: position{line: 1691, col: 5, offset: 54739},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1692, col: 9, offset: 54773},
-																						run: (*parser).callonExtraListElement201,
+																						pos: position{line: 1693, col: 9, offset: 54805},
+																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1692, col: 9, offset: 54773},
+																							pos: position{line: 1693, col: 9, offset: 54805},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1692, col: 9, offset: 54773},
+																									pos: position{line: 1693, col: 9, offset: 54805},
 																									expr: &actionExpr{
-																										pos: position{line: 2864, col: 10, offset: 90683},
-																										run: (*parser).callonExtraListElement204,
+																										pos: position{line: 2865, col: 10, offset: 90715},
+																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2864, col: 10, offset: 90683},
+																											pos:        position{line: 2865, col: 10, offset: 90715},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26767,28 +26823,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2886, col: 8, offset: 91081},
+																									pos: position{line: 2887, col: 8, offset: 91113},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2873, col: 12, offset: 90854},
-																											run: (*parser).callonExtraListElement207,
+																											pos: position{line: 2874, col: 12, offset: 90886},
+																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2873, col: 13, offset: 90855},
+																												pos: position{line: 2874, col: 13, offset: 90887},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 13, offset: 90855},
+																														pos:        position{line: 2874, col: 13, offset: 90887},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 20, offset: 90862},
+																														pos:        position{line: 2874, col: 20, offset: 90894},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 29, offset: 90871},
+																														pos:        position{line: 2874, col: 29, offset: 90903},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26797,34 +26853,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2883, col: 8, offset: 91031},
+																											pos: position{line: 2884, col: 8, offset: 91063},
 																											expr: &anyMatcher{
-																												line: 2883, col: 9, offset: 91032,
+																												line: 2884, col: 9, offset: 91064,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1693, col: 9, offset: 54792},
+																									pos: position{line: 1694, col: 9, offset: 54824},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21489},
-																										run: (*parser).callonExtraListElement215,
+																										run: (*parser).callonExtraListElement221,
 																										expr: &seqExpr{
 																											pos: position{line: 677, col: 14, offset: 21489},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2881, col: 11, offset: 91017},
+																													pos: position{line: 2882, col: 11, offset: 91049},
 																													expr: &anyMatcher{
-																														line: 2881, col: 13, offset: 91019,
+																														line: 2882, col: 13, offset: 91051,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21496},
 																													expr: &actionExpr{
-																														pos: position{line: 2864, col: 10, offset: 90683},
-																														run: (*parser).callonExtraListElement220,
+																														pos: position{line: 2865, col: 10, offset: 90715},
+																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2864, col: 10, offset: 90683},
+																															pos:        position{line: 2865, col: 10, offset: 90715},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26833,28 +26889,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2886, col: 8, offset: 91081},
+																													pos: position{line: 2887, col: 8, offset: 91113},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2873, col: 12, offset: 90854},
-																															run: (*parser).callonExtraListElement223,
+																															pos: position{line: 2874, col: 12, offset: 90886},
+																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2873, col: 13, offset: 90855},
+																																pos: position{line: 2874, col: 13, offset: 90887},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2873, col: 13, offset: 90855},
+																																		pos:        position{line: 2874, col: 13, offset: 90887},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2873, col: 20, offset: 90862},
+																																		pos:        position{line: 2874, col: 20, offset: 90894},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2873, col: 29, offset: 90871},
+																																		pos:        position{line: 2874, col: 29, offset: 90903},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26863,9 +26919,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2883, col: 8, offset: 91031},
+																															pos: position{line: 2884, col: 8, offset: 91063},
 																															expr: &anyMatcher{
-																																line: 2883, col: 9, offset: 91032,
+																																line: 2884, col: 9, offset: 91064,
 																															},
 																														},
 																													},
@@ -26878,18 +26934,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1699, col: 9, offset: 54921},
-																						run: (*parser).callonExtraListElement230,
+																						pos: position{line: 1700, col: 9, offset: 54953},
+																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1699, col: 9, offset: 54921},
+																							pos: position{line: 1700, col: 9, offset: 54953},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2868, col: 11, offset: 90744},
-																									run: (*parser).callonExtraListElement232,
+																									pos: position{line: 2869, col: 11, offset: 90776},
+																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2868, col: 11, offset: 90744},
+																										pos: position{line: 2869, col: 11, offset: 90776},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2868, col: 11, offset: 90744},
+																											pos:        position{line: 2869, col: 11, offset: 90776},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26898,15 +26954,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1700, col: 9, offset: 54994},
+																									pos:   position{line: 1701, col: 9, offset: 55026},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1700, col: 18, offset: 55003},
-																										run: (*parser).callonExtraListElement236,
+																										pos: position{line: 1701, col: 18, offset: 55035},
+																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1700, col: 18, offset: 55003},
+																											pos: position{line: 1701, col: 18, offset: 55035},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1700, col: 18, offset: 55003},
+																												pos:        position{line: 1701, col: 18, offset: 55035},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26916,28 +26972,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2886, col: 8, offset: 91081},
+																									pos: position{line: 2887, col: 8, offset: 91113},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2873, col: 12, offset: 90854},
-																											run: (*parser).callonExtraListElement240,
+																											pos: position{line: 2874, col: 12, offset: 90886},
+																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2873, col: 13, offset: 90855},
+																												pos: position{line: 2874, col: 13, offset: 90887},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 13, offset: 90855},
+																														pos:        position{line: 2874, col: 13, offset: 90887},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 20, offset: 90862},
+																														pos:        position{line: 2874, col: 20, offset: 90894},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 29, offset: 90871},
+																														pos:        position{line: 2874, col: 29, offset: 90903},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26946,9 +27002,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2883, col: 8, offset: 91031},
+																											pos: position{line: 2884, col: 8, offset: 91063},
 																											expr: &anyMatcher{
-																												line: 2883, col: 9, offset: 91032,
+																												line: 2884, col: 9, offset: 91064,
 																											},
 																										},
 																									},
@@ -26970,7 +27026,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1505, col: 13, offset: 48682},
-										run: (*parser).callonExtraListElement247,
+										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
 											pos: position{line: 1505, col: 13, offset: 48682},
 											exprs: []interface{}{
@@ -26993,7 +27049,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 1582, col: 5, offset: 51049},
-																run: (*parser).callonExtraListElement254,
+																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
 																	pos: position{line: 1582, col: 5, offset: 51049},
 																	exprs: []interface{}{
@@ -27002,17 +27058,17 @@ var g = &grammar{
 																			label: "prefix",
 																			expr: &actionExpr{
 																				pos: position{line: 1589, col: 5, offset: 51257},
-																				run: (*parser).callonExtraListElement257,
+																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
 																					pos: position{line: 1589, col: 5, offset: 51257},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1589, col: 5, offset: 51257},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
-																								run: (*parser).callonExtraListElement260,
+																								pos: position{line: 2865, col: 10, offset: 90715},
+																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27028,7 +27084,7 @@ var g = &grammar{
 																								alternatives: []interface{}{
 																									&actionExpr{
 																										pos: position{line: 1591, col: 9, offset: 51327},
-																										run: (*parser).callonExtraListElement264,
+																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
 																											pos: position{line: 1591, col: 9, offset: 51327},
 																											exprs: []interface{}{
@@ -27037,7 +27093,7 @@ var g = &grammar{
 																													label: "depth",
 																													expr: &actionExpr{
 																														pos: position{line: 1591, col: 16, offset: 51334},
-																														run: (*parser).callonExtraListElement267,
+																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
 																															pos: position{line: 1591, col: 16, offset: 51334},
 																															expr: &litMatcher{
@@ -27051,14 +27107,14 @@ var g = &grammar{
 																												},
 																												&andCodeExpr{
 																													pos: position{line: 1595, col: 9, offset: 51435},
-																													run: (*parser).callonExtraListElement270,
+																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
 																										pos: position{line: 1614, col: 11, offset: 52152},
-																										run: (*parser).callonExtraListElement271,
+																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
 																											pos: position{line: 1614, col: 11, offset: 52152},
 																											exprs: []interface{}{
@@ -27083,7 +27139,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 1616, col: 13, offset: 52278},
-																										run: (*parser).callonExtraListElement276,
+																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
 																											pos: position{line: 1616, col: 13, offset: 52278},
 																											exprs: []interface{}{
@@ -27105,7 +27161,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 1618, col: 13, offset: 52406},
-																										run: (*parser).callonExtraListElement280,
+																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
 																											pos: position{line: 1618, col: 13, offset: 52406},
 																											exprs: []interface{}{
@@ -27127,7 +27183,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 1620, col: 13, offset: 52534},
-																										run: (*parser).callonExtraListElement284,
+																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
 																											pos: position{line: 1620, col: 13, offset: 52534},
 																											exprs: []interface{}{
@@ -27152,7 +27208,7 @@ var g = &grammar{
 																									},
 																									&actionExpr{
 																										pos: position{line: 1622, col: 13, offset: 52667},
-																										run: (*parser).callonExtraListElement289,
+																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
 																											pos: position{line: 1622, col: 13, offset: 52667},
 																											exprs: []interface{}{
@@ -27179,12 +27235,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2868, col: 11, offset: 90744},
-																							run: (*parser).callonExtraListElement294,
+																							pos: position{line: 2869, col: 11, offset: 90776},
+																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2868, col: 11, offset: 90744},
+																								pos: position{line: 2869, col: 11, offset: 90776},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 11, offset: 90744},
+																									pos:        position{line: 2869, col: 11, offset: 90776},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27201,7 +27257,7 @@ var g = &grammar{
 																			label: "content",
 																			expr: &actionExpr{
 																				pos: position{line: 1530, col: 5, offset: 49555},
-																				run: (*parser).callonExtraListElement298,
+																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
 																					pos: position{line: 1530, col: 5, offset: 49555},
 																					exprs: []interface{}{
@@ -27212,7 +27268,7 @@ var g = &grammar{
 																								pos: position{line: 1530, col: 14, offset: 49564},
 																								expr: &actionExpr{
 																									pos: position{line: 1530, col: 15, offset: 49565},
-																									run: (*parser).callonExtraListElement302,
+																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
 																										pos: position{line: 1530, col: 15, offset: 49565},
 																										expr: &charClassMatcher{
@@ -27227,28 +27283,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
-																									run: (*parser).callonExtraListElement306,
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27257,9 +27313,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -27273,7 +27329,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 1632, col: 5, offset: 52946},
-																run: (*parser).callonExtraListElement313,
+																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
 																	pos: position{line: 1632, col: 5, offset: 52946},
 																	exprs: []interface{}{
@@ -27282,17 +27338,17 @@ var g = &grammar{
 																			label: "prefix",
 																			expr: &actionExpr{
 																				pos: position{line: 1639, col: 5, offset: 53219},
-																				run: (*parser).callonExtraListElement316,
+																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
 																					pos: position{line: 1639, col: 5, offset: 53219},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1639, col: 5, offset: 53219},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
-																								run: (*parser).callonExtraListElement319,
+																								pos: position{line: 2865, col: 10, offset: 90715},
+																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27305,7 +27361,7 @@ var g = &grammar{
 																							label: "style",
 																							expr: &actionExpr{
 																								pos: position{line: 1641, col: 9, offset: 53247},
-																								run: (*parser).callonExtraListElement322,
+																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
 																									pos: position{line: 1641, col: 10, offset: 53248},
 																									alternatives: []interface{}{
@@ -27330,15 +27386,15 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1644, col: 7, offset: 53347},
-																							run: (*parser).callonExtraListElement327,
+																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2868, col: 11, offset: 90744},
-																							run: (*parser).callonExtraListElement328,
+																							pos: position{line: 2869, col: 11, offset: 90776},
+																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2868, col: 11, offset: 90744},
+																								pos: position{line: 2869, col: 11, offset: 90776},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 11, offset: 90744},
+																									pos:        position{line: 2869, col: 11, offset: 90776},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27357,7 +27413,7 @@ var g = &grammar{
 																				pos: position{line: 1633, col: 16, offset: 52998},
 																				expr: &actionExpr{
 																					pos: position{line: 1654, col: 5, offset: 53612},
-																					run: (*parser).callonExtraListElement333,
+																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
 																						pos: position{line: 1654, col: 5, offset: 53612},
 																						exprs: []interface{}{
@@ -27378,7 +27434,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 1655, col: 7, offset: 53631},
-																											run: (*parser).callonExtraListElement339,
+																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
 																												pos:        position{line: 1655, col: 7, offset: 53631},
 																												val:        "[ ]",
@@ -27388,7 +27444,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 1656, col: 7, offset: 53676},
-																											run: (*parser).callonExtraListElement341,
+																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
 																												pos:        position{line: 1656, col: 7, offset: 53676},
 																												val:        "[*]",
@@ -27398,7 +27454,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 1657, col: 7, offset: 53719},
-																											run: (*parser).callonExtraListElement343,
+																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
 																												pos:        position{line: 1657, col: 7, offset: 53719},
 																												val:        "[x]",
@@ -27410,12 +27466,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2868, col: 11, offset: 90744},
-																								run: (*parser).callonExtraListElement345,
+																								pos: position{line: 2869, col: 11, offset: 90776},
+																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2868, col: 11, offset: 90744},
+																									pos: position{line: 2869, col: 11, offset: 90776},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 11, offset: 90744},
+																										pos:        position{line: 2869, col: 11, offset: 90776},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27433,7 +27489,7 @@ var g = &grammar{
 																			label: "content",
 																			expr: &actionExpr{
 																				pos: position{line: 1530, col: 5, offset: 49555},
-																				run: (*parser).callonExtraListElement349,
+																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
 																					pos: position{line: 1530, col: 5, offset: 49555},
 																					exprs: []interface{}{
@@ -27444,7 +27500,7 @@ var g = &grammar{
 																								pos: position{line: 1530, col: 14, offset: 49564},
 																								expr: &actionExpr{
 																									pos: position{line: 1530, col: 15, offset: 49565},
-																									run: (*parser).callonExtraListElement353,
+																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
 																										pos: position{line: 1530, col: 15, offset: 49565},
 																										expr: &charClassMatcher{
@@ -27459,28 +27515,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
-																									run: (*parser).callonExtraListElement357,
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27489,9 +27545,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -27504,36 +27560,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1722, col: 5, offset: 55559},
-																run: (*parser).callonExtraListElement364,
+																pos: position{line: 1723, col: 5, offset: 55591},
+																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1722, col: 5, offset: 55559},
+																	pos: position{line: 1723, col: 5, offset: 55591},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1722, col: 5, offset: 55559},
+																			pos:   position{line: 1723, col: 5, offset: 55591},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1728, col: 5, offset: 55756},
-																				run: (*parser).callonExtraListElement367,
+																				pos: position{line: 1729, col: 5, offset: 55788},
+																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1728, col: 5, offset: 55756},
+																					pos: position{line: 1729, col: 5, offset: 55788},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1728, col: 5, offset: 55756},
+																							pos:        position{line: 1729, col: 5, offset: 55788},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1728, col: 9, offset: 55760},
+																							pos:   position{line: 1729, col: 9, offset: 55792},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1728, col: 14, offset: 55765},
-																								run: (*parser).callonExtraListElement371,
+																								pos: position{line: 1729, col: 14, offset: 55797},
+																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1728, col: 14, offset: 55765},
+																									pos: position{line: 1729, col: 14, offset: 55797},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1728, col: 14, offset: 55765},
+																										pos:        position{line: 1729, col: 14, offset: 55797},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27543,18 +27599,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1728, col: 62, offset: 55813},
+																							pos:        position{line: 1729, col: 62, offset: 55845},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2868, col: 11, offset: 90744},
-																							run: (*parser).callonExtraListElement375,
+																							pos: position{line: 2869, col: 11, offset: 90776},
+																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2868, col: 11, offset: 90744},
+																								pos: position{line: 2869, col: 11, offset: 90776},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 11, offset: 90744},
+																									pos:        position{line: 2869, col: 11, offset: 90776},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27567,11 +27623,11 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1723, col: 5, offset: 55595},
+																			pos:   position{line: 1724, col: 5, offset: 55627},
 																			label: "description",
 																			expr: &actionExpr{
 																				pos: position{line: 1530, col: 5, offset: 49555},
-																				run: (*parser).callonExtraListElement379,
+																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
 																					pos: position{line: 1530, col: 5, offset: 49555},
 																					exprs: []interface{}{
@@ -27582,7 +27638,7 @@ var g = &grammar{
 																								pos: position{line: 1530, col: 14, offset: 49564},
 																								expr: &actionExpr{
 																									pos: position{line: 1530, col: 15, offset: 49565},
-																									run: (*parser).callonExtraListElement383,
+																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
 																										pos: position{line: 1530, col: 15, offset: 49565},
 																										expr: &charClassMatcher{
@@ -27597,28 +27653,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
-																									run: (*parser).callonExtraListElement387,
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27627,9 +27683,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -27643,7 +27699,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 1666, col: 5, offset: 53912},
-																run: (*parser).callonExtraListElement394,
+																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
 																	pos: position{line: 1666, col: 5, offset: 53912},
 																	exprs: []interface{}{
@@ -27652,89 +27708,117 @@ var g = &grammar{
 																			label: "term",
 																			expr: &actionExpr{
 																				pos: position{line: 1674, col: 5, offset: 54238},
-																				run: (*parser).callonExtraListElement397,
-																				expr: &oneOrMoreExpr{
+																				run: (*parser).callonExtraListElement403,
+																				expr: &seqExpr{
 																					pos: position{line: 1674, col: 5, offset: 54238},
-																					expr: &seqExpr{
-																						pos: position{line: 1674, col: 6, offset: 54239},
-																						exprs: []interface{}{
-																							&notExpr{
-																								pos: position{line: 1674, col: 6, offset: 54239},
-																								expr: &actionExpr{
-																									pos: position{line: 1679, col: 5, offset: 54389},
-																									run: (*parser).callonExtraListElement401,
-																									expr: &seqExpr{
-																										pos: position{line: 1679, col: 5, offset: 54389},
-																										exprs: []interface{}{
-																											&labeledExpr{
-																												pos:   position{line: 1679, col: 5, offset: 54389},
-																												label: "separator",
-																												expr: &actionExpr{
-																													pos: position{line: 1679, col: 16, offset: 54400},
-																													run: (*parser).callonExtraListElement404,
-																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1679, col: 16, offset: 54400},
-																														expr: &litMatcher{
-																															pos:        position{line: 1679, col: 17, offset: 54401},
-																															val:        ":",
-																															ignoreCase: false,
-																															want:       "\":\"",
-																														},
-																													},
-																												},
-																											},
-																											&andCodeExpr{
-																												pos: position{line: 1682, col: 5, offset: 54458},
-																												run: (*parser).callonExtraListElement407,
-																											},
+																					exprs: []interface{}{
+																						&notExpr{
+																							pos: position{line: 1674, col: 5, offset: 54238},
+																							expr: &seqExpr{
+																								pos: position{line: 2480, col: 31, offset: 79879},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2480, col: 31, offset: 79879},
+																										val:        "//",
+																										ignoreCase: false,
+																										want:       "\"//\"",
+																									},
+																									&notExpr{
+																										pos: position{line: 2480, col: 36, offset: 79884},
+																										expr: &litMatcher{
+																											pos:        position{line: 2480, col: 37, offset: 79885},
+																											val:        "//",
+																											ignoreCase: false,
+																											want:       "\"//\"",
 																										},
 																									},
 																								},
 																							},
-																							&notExpr{
-																								pos: position{line: 1674, col: 35, offset: 54268},
-																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 8, offset: 91081},
-																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 2873, col: 12, offset: 90854},
-																											run: (*parser).callonExtraListElement410,
-																											expr: &choiceExpr{
-																												pos: position{line: 2873, col: 13, offset: 90855},
-																												alternatives: []interface{}{
-																													&litMatcher{
-																														pos:        position{line: 2873, col: 13, offset: 90855},
-																														val:        "\n",
-																														ignoreCase: false,
-																														want:       "\"\\n\"",
-																													},
-																													&litMatcher{
-																														pos:        position{line: 2873, col: 20, offset: 90862},
-																														val:        "\r\n",
-																														ignoreCase: false,
-																														want:       "\"\\r\\n\"",
+																						},
+																						&oneOrMoreExpr{
+																							pos: position{line: 1675, col: 5, offset: 54270},
+																							expr: &seqExpr{
+																								pos: position{line: 1675, col: 6, offset: 54271},
+																								exprs: []interface{}{
+																									&notExpr{
+																										pos: position{line: 1675, col: 6, offset: 54271},
+																										expr: &actionExpr{
+																											pos: position{line: 1680, col: 5, offset: 54421},
+																											run: (*parser).callonExtraListElement413,
+																											expr: &seqExpr{
+																												pos: position{line: 1680, col: 5, offset: 54421},
+																												exprs: []interface{}{
+																													&labeledExpr{
+																														pos:   position{line: 1680, col: 5, offset: 54421},
+																														label: "separator",
+																														expr: &actionExpr{
+																															pos: position{line: 1680, col: 16, offset: 54432},
+																															run: (*parser).callonExtraListElement416,
+																															expr: &oneOrMoreExpr{
+																																pos: position{line: 1680, col: 16, offset: 54432},
+																																expr: &litMatcher{
+																																	pos:        position{line: 1680, col: 17, offset: 54433},
+																																	val:        ":",
+																																	ignoreCase: false,
+																																	want:       "\":\"",
+																																},
+																															},
+																														},
 																													},
-																													&litMatcher{
-																														pos:        position{line: 2873, col: 29, offset: 90871},
-																														val:        "\r",
-																														ignoreCase: false,
-																														want:       "\"\\r\"",
+																													&andCodeExpr{
+																														pos: position{line: 1683, col: 5, offset: 54490},
+																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
 																											},
 																										},
-																										&notExpr{
-																											pos: position{line: 2883, col: 8, offset: 91031},
-																											expr: &anyMatcher{
-																												line: 2883, col: 9, offset: 91032,
+																									},
+																									&notExpr{
+																										pos: position{line: 1675, col: 35, offset: 54300},
+																										expr: &choiceExpr{
+																											pos: position{line: 2887, col: 8, offset: 91113},
+																											alternatives: []interface{}{
+																												&actionExpr{
+																													pos: position{line: 2874, col: 12, offset: 90886},
+																													run: (*parser).callonExtraListElement422,
+																													expr: &choiceExpr{
+																														pos: position{line: 2874, col: 13, offset: 90887},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
+																												},
+																												&notExpr{
+																													pos: position{line: 2884, col: 8, offset: 91063},
+																													expr: &anyMatcher{
+																														line: 2884, col: 9, offset: 91064,
+																													},
+																												},
 																											},
 																										},
 																									},
+																									&anyMatcher{
+																										line: 1675, col: 40, offset: 54305,
+																									},
 																								},
 																							},
-																							&anyMatcher{
-																								line: 1674, col: 40, offset: 54273,
-																							},
 																						},
 																					},
 																				},
@@ -27744,21 +27828,21 @@ var g = &grammar{
 																			pos:   position{line: 1667, col: 5, offset: 53947},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1679, col: 5, offset: 54389},
-																				run: (*parser).callonExtraListElement419,
+																				pos: position{line: 1680, col: 5, offset: 54421},
+																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1679, col: 5, offset: 54389},
+																					pos: position{line: 1680, col: 5, offset: 54421},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1679, col: 5, offset: 54389},
+																							pos:   position{line: 1680, col: 5, offset: 54421},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1679, col: 16, offset: 54400},
-																								run: (*parser).callonExtraListElement422,
+																								pos: position{line: 1680, col: 16, offset: 54432},
+																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1679, col: 16, offset: 54400},
+																									pos: position{line: 1680, col: 16, offset: 54432},
 																									expr: &litMatcher{
-																										pos:        position{line: 1679, col: 17, offset: 54401},
+																										pos:        position{line: 1680, col: 17, offset: 54433},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27767,8 +27851,8 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1682, col: 5, offset: 54458},
-																							run: (*parser).callonExtraListElement425,
+																							pos: position{line: 1683, col: 5, offset: 54490},
+																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
 																				},
@@ -27778,21 +27862,21 @@ var g = &grammar{
 																			pos:   position{line: 1668, col: 5, offset: 53992},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1690, col: 5, offset: 54707},
+																				pos: position{line: 1691, col: 5, offset: 54739},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1692, col: 9, offset: 54773},
-																						run: (*parser).callonExtraListElement428,
+																						pos: position{line: 1693, col: 9, offset: 54805},
+																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1692, col: 9, offset: 54773},
+																							pos: position{line: 1693, col: 9, offset: 54805},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1692, col: 9, offset: 54773},
+																									pos: position{line: 1693, col: 9, offset: 54805},
 																									expr: &actionExpr{
-																										pos: position{line: 2864, col: 10, offset: 90683},
-																										run: (*parser).callonExtraListElement431,
+																										pos: position{line: 2865, col: 10, offset: 90715},
+																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2864, col: 10, offset: 90683},
+																											pos:        position{line: 2865, col: 10, offset: 90715},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27801,28 +27885,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2886, col: 8, offset: 91081},
+																									pos: position{line: 2887, col: 8, offset: 91113},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2873, col: 12, offset: 90854},
-																											run: (*parser).callonExtraListElement434,
+																											pos: position{line: 2874, col: 12, offset: 90886},
+																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2873, col: 13, offset: 90855},
+																												pos: position{line: 2874, col: 13, offset: 90887},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 13, offset: 90855},
+																														pos:        position{line: 2874, col: 13, offset: 90887},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 20, offset: 90862},
+																														pos:        position{line: 2874, col: 20, offset: 90894},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 29, offset: 90871},
+																														pos:        position{line: 2874, col: 29, offset: 90903},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27831,34 +27915,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2883, col: 8, offset: 91031},
+																											pos: position{line: 2884, col: 8, offset: 91063},
 																											expr: &anyMatcher{
-																												line: 2883, col: 9, offset: 91032,
+																												line: 2884, col: 9, offset: 91064,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1693, col: 9, offset: 54792},
+																									pos: position{line: 1694, col: 9, offset: 54824},
 																									expr: &actionExpr{
 																										pos: position{line: 677, col: 14, offset: 21489},
-																										run: (*parser).callonExtraListElement442,
+																										run: (*parser).callonExtraListElement454,
 																										expr: &seqExpr{
 																											pos: position{line: 677, col: 14, offset: 21489},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2881, col: 11, offset: 91017},
+																													pos: position{line: 2882, col: 11, offset: 91049},
 																													expr: &anyMatcher{
-																														line: 2881, col: 13, offset: 91019,
+																														line: 2882, col: 13, offset: 91051,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 677, col: 21, offset: 21496},
 																													expr: &actionExpr{
-																														pos: position{line: 2864, col: 10, offset: 90683},
-																														run: (*parser).callonExtraListElement447,
+																														pos: position{line: 2865, col: 10, offset: 90715},
+																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2864, col: 10, offset: 90683},
+																															pos:        position{line: 2865, col: 10, offset: 90715},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27867,28 +27951,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2886, col: 8, offset: 91081},
+																													pos: position{line: 2887, col: 8, offset: 91113},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2873, col: 12, offset: 90854},
-																															run: (*parser).callonExtraListElement450,
+																															pos: position{line: 2874, col: 12, offset: 90886},
+																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2873, col: 13, offset: 90855},
+																																pos: position{line: 2874, col: 13, offset: 90887},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2873, col: 13, offset: 90855},
+																																		pos:        position{line: 2874, col: 13, offset: 90887},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2873, col: 20, offset: 90862},
+																																		pos:        position{line: 2874, col: 20, offset: 90894},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2873, col: 29, offset: 90871},
+																																		pos:        position{line: 2874, col: 29, offset: 90903},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27897,9 +27981,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2883, col: 8, offset: 91031},
+																															pos: position{line: 2884, col: 8, offset: 91063},
 																															expr: &anyMatcher{
-																																line: 2883, col: 9, offset: 91032,
+																																line: 2884, col: 9, offset: 91064,
 																															},
 																														},
 																													},
@@ -27912,18 +27996,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1699, col: 9, offset: 54921},
-																						run: (*parser).callonExtraListElement457,
+																						pos: position{line: 1700, col: 9, offset: 54953},
+																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1699, col: 9, offset: 54921},
+																							pos: position{line: 1700, col: 9, offset: 54953},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2868, col: 11, offset: 90744},
-																									run: (*parser).callonExtraListElement459,
+																									pos: position{line: 2869, col: 11, offset: 90776},
+																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2868, col: 11, offset: 90744},
+																										pos: position{line: 2869, col: 11, offset: 90776},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2868, col: 11, offset: 90744},
+																											pos:        position{line: 2869, col: 11, offset: 90776},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27932,15 +28016,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1700, col: 9, offset: 54994},
+																									pos:   position{line: 1701, col: 9, offset: 55026},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1700, col: 18, offset: 55003},
-																										run: (*parser).callonExtraListElement463,
+																										pos: position{line: 1701, col: 18, offset: 55035},
+																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1700, col: 18, offset: 55003},
+																											pos: position{line: 1701, col: 18, offset: 55035},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1700, col: 18, offset: 55003},
+																												pos:        position{line: 1701, col: 18, offset: 55035},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27950,28 +28034,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2886, col: 8, offset: 91081},
+																									pos: position{line: 2887, col: 8, offset: 91113},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2873, col: 12, offset: 90854},
-																											run: (*parser).callonExtraListElement467,
+																											pos: position{line: 2874, col: 12, offset: 90886},
+																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2873, col: 13, offset: 90855},
+																												pos: position{line: 2874, col: 13, offset: 90887},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 13, offset: 90855},
+																														pos:        position{line: 2874, col: 13, offset: 90887},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 20, offset: 90862},
+																														pos:        position{line: 2874, col: 20, offset: 90894},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 29, offset: 90871},
+																														pos:        position{line: 2874, col: 29, offset: 90903},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27980,9 +28064,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2883, col: 8, offset: 91031},
+																											pos: position{line: 2884, col: 8, offset: 91063},
 																											expr: &anyMatcher{
-																												line: 2883, col: 9, offset: 91032,
+																												line: 2884, col: 9, offset: 91064,
 																											},
 																										},
 																									},
@@ -28007,36 +28091,36 @@ var g = &grammar{
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2474, col: 22, offset: 79626},
-										run: (*parser).callonExtraListElement475,
+										pos: position{line: 2475, col: 22, offset: 79658},
+										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2474, col: 22, offset: 79626},
+											pos: position{line: 2475, col: 22, offset: 79658},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2479, col: 31, offset: 79847},
+													pos:        position{line: 2480, col: 31, offset: 79879},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2479, col: 36, offset: 79852},
+													pos: position{line: 2480, col: 36, offset: 79884},
 													expr: &litMatcher{
-														pos:        position{line: 2479, col: 37, offset: 79853},
+														pos:        position{line: 2480, col: 37, offset: 79885},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2474, col: 49, offset: 79653},
+													pos:   position{line: 2475, col: 49, offset: 79685},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2810, col: 13, offset: 89209},
-														run: (*parser).callonExtraListElement481,
+														pos: position{line: 2811, col: 13, offset: 89241},
+														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2810, col: 13, offset: 89209},
+															pos: position{line: 2811, col: 13, offset: 89241},
 															expr: &charClassMatcher{
-																pos:        position{line: 2810, col: 13, offset: 89209},
+																pos:        position{line: 2811, col: 13, offset: 89241},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28046,28 +28130,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91081},
+													pos: position{line: 2887, col: 8, offset: 91113},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90854},
-															run: (*parser).callonExtraListElement485,
+															pos: position{line: 2874, col: 12, offset: 90886},
+															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90855},
+																pos: position{line: 2874, col: 13, offset: 90887},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90855},
+																		pos:        position{line: 2874, col: 13, offset: 90887},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90862},
+																		pos:        position{line: 2874, col: 20, offset: 90894},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90871},
+																		pos:        position{line: 2874, col: 29, offset: 90903},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28076,9 +28160,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 91031},
+															pos: position{line: 2884, col: 8, offset: 91063},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 91032,
+																line: 2884, col: 9, offset: 91064,
 															},
 														},
 													},
@@ -28088,7 +28172,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1517, col: 5, offset: 49197},
-										run: (*parser).callonExtraListElement492,
+										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
 											pos: position{line: 1517, col: 5, offset: 49197},
 											exprs: []interface{}{
@@ -28096,23 +28180,23 @@ var g = &grammar{
 													pos: position{line: 1517, col: 5, offset: 49197},
 													expr: &actionExpr{
 														pos: position{line: 677, col: 14, offset: 21489},
-														run: (*parser).callonExtraListElement495,
+														run: (*parser).callonExtraListElement507,
 														expr: &seqExpr{
 															pos: position{line: 677, col: 14, offset: 21489},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2881, col: 11, offset: 91017},
+																	pos: position{line: 2882, col: 11, offset: 91049},
 																	expr: &anyMatcher{
-																		line: 2881, col: 13, offset: 91019,
+																		line: 2882, col: 13, offset: 91051,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 677, col: 21, offset: 21496},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90683},
-																		run: (*parser).callonExtraListElement500,
+																		pos: position{line: 2865, col: 10, offset: 90715},
+																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90683},
+																			pos:        position{line: 2865, col: 10, offset: 90715},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28121,28 +28205,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
-																			run: (*parser).callonExtraListElement503,
+																			pos: position{line: 2874, col: 12, offset: 90886},
+																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28151,9 +28235,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -28176,10 +28260,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1548, col: 31, offset: 50042},
 																expr: &actionExpr{
-																	pos: position{line: 2864, col: 10, offset: 90683},
-																	run: (*parser).callonExtraListElement514,
+																	pos: position{line: 2865, col: 10, offset: 90715},
+																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2864, col: 10, offset: 90683},
+																		pos:        position{line: 2865, col: 10, offset: 90715},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28188,25 +28272,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90854},
-																run: (*parser).callonExtraListElement516,
+																pos: position{line: 2874, col: 12, offset: 90886},
+																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90855},
+																	pos: position{line: 2874, col: 13, offset: 90887},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90855},
+																			pos:        position{line: 2874, col: 13, offset: 90887},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90862},
+																			pos:        position{line: 2874, col: 20, offset: 90894},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90871},
+																			pos:        position{line: 2874, col: 29, offset: 90903},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28221,17 +28305,17 @@ var g = &grammar{
 													pos: position{line: 1519, col: 5, offset: 49240},
 													expr: &actionExpr{
 														pos: position{line: 1589, col: 5, offset: 51257},
-														run: (*parser).callonExtraListElement522,
+														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
 															pos: position{line: 1589, col: 5, offset: 51257},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1589, col: 5, offset: 51257},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90683},
-																		run: (*parser).callonExtraListElement525,
+																		pos: position{line: 2865, col: 10, offset: 90715},
+																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90683},
+																			pos:        position{line: 2865, col: 10, offset: 90715},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28247,7 +28331,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 1591, col: 9, offset: 51327},
-																				run: (*parser).callonExtraListElement529,
+																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
 																					pos: position{line: 1591, col: 9, offset: 51327},
 																					exprs: []interface{}{
@@ -28256,7 +28340,7 @@ var g = &grammar{
 																							label: "depth",
 																							expr: &actionExpr{
 																								pos: position{line: 1591, col: 16, offset: 51334},
-																								run: (*parser).callonExtraListElement532,
+																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
 																									pos: position{line: 1591, col: 16, offset: 51334},
 																									expr: &litMatcher{
@@ -28270,14 +28354,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1595, col: 9, offset: 51435},
-																							run: (*parser).callonExtraListElement535,
+																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
 																				pos: position{line: 1614, col: 11, offset: 52152},
-																				run: (*parser).callonExtraListElement536,
+																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
 																					pos: position{line: 1614, col: 11, offset: 52152},
 																					exprs: []interface{}{
@@ -28302,7 +28386,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1616, col: 13, offset: 52278},
-																				run: (*parser).callonExtraListElement541,
+																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
 																					pos: position{line: 1616, col: 13, offset: 52278},
 																					exprs: []interface{}{
@@ -28324,7 +28408,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1618, col: 13, offset: 52406},
-																				run: (*parser).callonExtraListElement545,
+																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
 																					pos: position{line: 1618, col: 13, offset: 52406},
 																					exprs: []interface{}{
@@ -28346,7 +28430,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1620, col: 13, offset: 52534},
-																				run: (*parser).callonExtraListElement549,
+																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
 																					pos: position{line: 1620, col: 13, offset: 52534},
 																					exprs: []interface{}{
@@ -28371,7 +28455,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1622, col: 13, offset: 52667},
-																				run: (*parser).callonExtraListElement554,
+																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
 																					pos: position{line: 1622, col: 13, offset: 52667},
 																					exprs: []interface{}{
@@ -28398,12 +28482,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2868, col: 11, offset: 90744},
-																	run: (*parser).callonExtraListElement559,
+																	pos: position{line: 2869, col: 11, offset: 90776},
+																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2868, col: 11, offset: 90744},
+																		pos: position{line: 2869, col: 11, offset: 90776},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 11, offset: 90744},
+																			pos:        position{line: 2869, col: 11, offset: 90776},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28419,17 +28503,17 @@ var g = &grammar{
 													pos: position{line: 1520, col: 5, offset: 49270},
 													expr: &actionExpr{
 														pos: position{line: 1639, col: 5, offset: 53219},
-														run: (*parser).callonExtraListElement563,
+														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
 															pos: position{line: 1639, col: 5, offset: 53219},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1639, col: 5, offset: 53219},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90683},
-																		run: (*parser).callonExtraListElement566,
+																		pos: position{line: 2865, col: 10, offset: 90715},
+																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90683},
+																			pos:        position{line: 2865, col: 10, offset: 90715},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28442,7 +28526,7 @@ var g = &grammar{
 																	label: "style",
 																	expr: &actionExpr{
 																		pos: position{line: 1641, col: 9, offset: 53247},
-																		run: (*parser).callonExtraListElement569,
+																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
 																			pos: position{line: 1641, col: 10, offset: 53248},
 																			alternatives: []interface{}{
@@ -28467,15 +28551,15 @@ var g = &grammar{
 																},
 																&andCodeExpr{
 																	pos: position{line: 1644, col: 7, offset: 53347},
-																	run: (*parser).callonExtraListElement574,
+																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2868, col: 11, offset: 90744},
-																	run: (*parser).callonExtraListElement575,
+																	pos: position{line: 2869, col: 11, offset: 90776},
+																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2868, col: 11, offset: 90744},
+																		pos: position{line: 2869, col: 11, offset: 90776},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 11, offset: 90744},
+																			pos:        position{line: 2869, col: 11, offset: 90776},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28490,27 +28574,27 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1521, col: 5, offset: 49302},
 													expr: &actionExpr{
-														pos: position{line: 1728, col: 5, offset: 55756},
-														run: (*parser).callonExtraListElement579,
+														pos: position{line: 1729, col: 5, offset: 55788},
+														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1728, col: 5, offset: 55756},
+															pos: position{line: 1729, col: 5, offset: 55788},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1728, col: 5, offset: 55756},
+																	pos:        position{line: 1729, col: 5, offset: 55788},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1728, col: 9, offset: 55760},
+																	pos:   position{line: 1729, col: 9, offset: 55792},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1728, col: 14, offset: 55765},
-																		run: (*parser).callonExtraListElement583,
+																		pos: position{line: 1729, col: 14, offset: 55797},
+																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1728, col: 14, offset: 55765},
+																			pos: position{line: 1729, col: 14, offset: 55797},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1728, col: 14, offset: 55765},
+																				pos:        position{line: 1729, col: 14, offset: 55797},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28520,18 +28604,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1728, col: 62, offset: 55813},
+																	pos:        position{line: 1729, col: 62, offset: 55845},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2868, col: 11, offset: 90744},
-																	run: (*parser).callonExtraListElement587,
+																	pos: position{line: 2869, col: 11, offset: 90776},
+																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2868, col: 11, offset: 90744},
+																		pos: position{line: 2869, col: 11, offset: 90776},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 11, offset: 90744},
+																			pos:        position{line: 2869, col: 11, offset: 90776},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28550,109 +28634,137 @@ var g = &grammar{
 														exprs: []interface{}{
 															&actionExpr{
 																pos: position{line: 1674, col: 5, offset: 54238},
-																run: (*parser).callonExtraListElement592,
-																expr: &oneOrMoreExpr{
+																run: (*parser).callonExtraListElement604,
+																expr: &seqExpr{
 																	pos: position{line: 1674, col: 5, offset: 54238},
-																	expr: &seqExpr{
-																		pos: position{line: 1674, col: 6, offset: 54239},
-																		exprs: []interface{}{
-																			&notExpr{
-																				pos: position{line: 1674, col: 6, offset: 54239},
-																				expr: &actionExpr{
-																					pos: position{line: 1679, col: 5, offset: 54389},
-																					run: (*parser).callonExtraListElement596,
-																					expr: &seqExpr{
-																						pos: position{line: 1679, col: 5, offset: 54389},
-																						exprs: []interface{}{
-																							&labeledExpr{
-																								pos:   position{line: 1679, col: 5, offset: 54389},
-																								label: "separator",
-																								expr: &actionExpr{
-																									pos: position{line: 1679, col: 16, offset: 54400},
-																									run: (*parser).callonExtraListElement599,
-																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1679, col: 16, offset: 54400},
-																										expr: &litMatcher{
-																											pos:        position{line: 1679, col: 17, offset: 54401},
-																											val:        ":",
-																											ignoreCase: false,
-																											want:       "\":\"",
-																										},
-																									},
-																								},
-																							},
-																							&andCodeExpr{
-																								pos: position{line: 1682, col: 5, offset: 54458},
-																								run: (*parser).callonExtraListElement602,
-																							},
+																	exprs: []interface{}{
+																		&notExpr{
+																			pos: position{line: 1674, col: 5, offset: 54238},
+																			expr: &seqExpr{
+																				pos: position{line: 2480, col: 31, offset: 79879},
+																				exprs: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 2480, col: 31, offset: 79879},
+																						val:        "//",
+																						ignoreCase: false,
+																						want:       "\"//\"",
+																					},
+																					&notExpr{
+																						pos: position{line: 2480, col: 36, offset: 79884},
+																						expr: &litMatcher{
+																							pos:        position{line: 2480, col: 37, offset: 79885},
+																							val:        "//",
+																							ignoreCase: false,
+																							want:       "\"//\"",
 																						},
 																					},
 																				},
 																			},
-																			&notExpr{
-																				pos: position{line: 1674, col: 35, offset: 54268},
-																				expr: &choiceExpr{
-																					pos: position{line: 2886, col: 8, offset: 91081},
-																					alternatives: []interface{}{
-																						&actionExpr{
-																							pos: position{line: 2873, col: 12, offset: 90854},
-																							run: (*parser).callonExtraListElement605,
-																							expr: &choiceExpr{
-																								pos: position{line: 2873, col: 13, offset: 90855},
-																								alternatives: []interface{}{
-																									&litMatcher{
-																										pos:        position{line: 2873, col: 13, offset: 90855},
-																										val:        "\n",
-																										ignoreCase: false,
-																										want:       "\"\\n\"",
-																									},
-																									&litMatcher{
-																										pos:        position{line: 2873, col: 20, offset: 90862},
-																										val:        "\r\n",
-																										ignoreCase: false,
-																										want:       "\"\\r\\n\"",
+																		},
+																		&oneOrMoreExpr{
+																			pos: position{line: 1675, col: 5, offset: 54270},
+																			expr: &seqExpr{
+																				pos: position{line: 1675, col: 6, offset: 54271},
+																				exprs: []interface{}{
+																					&notExpr{
+																						pos: position{line: 1675, col: 6, offset: 54271},
+																						expr: &actionExpr{
+																							pos: position{line: 1680, col: 5, offset: 54421},
+																							run: (*parser).callonExtraListElement614,
+																							expr: &seqExpr{
+																								pos: position{line: 1680, col: 5, offset: 54421},
+																								exprs: []interface{}{
+																									&labeledExpr{
+																										pos:   position{line: 1680, col: 5, offset: 54421},
+																										label: "separator",
+																										expr: &actionExpr{
+																											pos: position{line: 1680, col: 16, offset: 54432},
+																											run: (*parser).callonExtraListElement617,
+																											expr: &oneOrMoreExpr{
+																												pos: position{line: 1680, col: 16, offset: 54432},
+																												expr: &litMatcher{
+																													pos:        position{line: 1680, col: 17, offset: 54433},
+																													val:        ":",
+																													ignoreCase: false,
+																													want:       "\":\"",
+																												},
+																											},
+																										},
 																									},
-																									&litMatcher{
-																										pos:        position{line: 2873, col: 29, offset: 90871},
-																										val:        "\r",
-																										ignoreCase: false,
-																										want:       "\"\\r\"",
+																									&andCodeExpr{
+																										pos: position{line: 1683, col: 5, offset: 54490},
+																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
 																							},
 																						},
-																						&notExpr{
-																							pos: position{line: 2883, col: 8, offset: 91031},
-																							expr: &anyMatcher{
-																								line: 2883, col: 9, offset: 91032,
+																					},
+																					&notExpr{
+																						pos: position{line: 1675, col: 35, offset: 54300},
+																						expr: &choiceExpr{
+																							pos: position{line: 2887, col: 8, offset: 91113},
+																							alternatives: []interface{}{
+																								&actionExpr{
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonExtraListElement623,
+																									expr: &choiceExpr{
+																										pos: position{line: 2874, col: 13, offset: 90887},
+																										alternatives: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												val:        "\n",
+																												ignoreCase: false,
+																												want:       "\"\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												val:        "\r\n",
+																												ignoreCase: false,
+																												want:       "\"\\r\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												val:        "\r",
+																												ignoreCase: false,
+																												want:       "\"\\r\"",
+																											},
+																										},
+																									},
+																								},
+																								&notExpr{
+																									pos: position{line: 2884, col: 8, offset: 91063},
+																									expr: &anyMatcher{
+																										line: 2884, col: 9, offset: 91064,
+																									},
+																								},
 																							},
 																						},
 																					},
+																					&anyMatcher{
+																						line: 1675, col: 40, offset: 54305,
+																					},
 																				},
 																			},
-																			&anyMatcher{
-																				line: 1674, col: 40, offset: 54273,
-																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1679, col: 5, offset: 54389},
-																run: (*parser).callonExtraListElement613,
+																pos: position{line: 1680, col: 5, offset: 54421},
+																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1679, col: 5, offset: 54389},
+																	pos: position{line: 1680, col: 5, offset: 54421},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1679, col: 5, offset: 54389},
+																			pos:   position{line: 1680, col: 5, offset: 54421},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1679, col: 16, offset: 54400},
-																				run: (*parser).callonExtraListElement616,
+																				pos: position{line: 1680, col: 16, offset: 54432},
+																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1679, col: 16, offset: 54400},
+																					pos: position{line: 1680, col: 16, offset: 54432},
 																					expr: &litMatcher{
-																						pos:        position{line: 1679, col: 17, offset: 54401},
+																						pos:        position{line: 1680, col: 17, offset: 54433},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28661,8 +28773,8 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1682, col: 5, offset: 54458},
-																			run: (*parser).callonExtraListElement619,
+																			pos: position{line: 1683, col: 5, offset: 54490},
+																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
 																},
@@ -28674,14 +28786,14 @@ var g = &grammar{
 													pos: position{line: 1523, col: 5, offset: 49390},
 													expr: &actionExpr{
 														pos: position{line: 724, col: 5, offset: 23042},
-														run: (*parser).callonExtraListElement621,
+														run: (*parser).callonExtraListElement639,
 														expr: &seqExpr{
 															pos: position{line: 724, col: 5, offset: 23042},
 															exprs: []interface{}{
 																&notExpr{
 																	pos: position{line: 724, col: 5, offset: 23042},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2754, col: 13, offset: 87778},
+																		pos:        position{line: 2755, col: 13, offset: 87810},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28696,7 +28808,7 @@ var g = &grammar{
 																		alternatives: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 740, col: 5, offset: 23584},
-																				run: (*parser).callonExtraListElement627,
+																				run: (*parser).callonExtraListElement645,
 																				expr: &seqExpr{
 																					pos: position{line: 740, col: 5, offset: 23584},
 																					exprs: []interface{}{
@@ -28705,7 +28817,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 740, col: 16, offset: 23595},
-																								run: (*parser).callonExtraListElement630,
+																								run: (*parser).callonExtraListElement648,
 																								expr: &seqExpr{
 																									pos: position{line: 740, col: 16, offset: 23595},
 																									exprs: []interface{}{
@@ -28731,10 +28843,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23686},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
-																								run: (*parser).callonExtraListElement636,
+																								pos: position{line: 2865, col: 10, offset: 90715},
+																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28743,28 +28855,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
-																									run: (*parser).callonExtraListElement639,
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28773,9 +28885,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -28785,7 +28897,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 747, col: 5, offset: 23832},
-																				run: (*parser).callonExtraListElement646,
+																				run: (*parser).callonExtraListElement664,
 																				expr: &seqExpr{
 																					pos: position{line: 747, col: 5, offset: 23832},
 																					exprs: []interface{}{
@@ -28794,7 +28906,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 747, col: 16, offset: 23843},
-																								run: (*parser).callonExtraListElement649,
+																								run: (*parser).callonExtraListElement667,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 16, offset: 23843},
 																									exprs: []interface{}{
@@ -28820,10 +28932,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23934},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
-																								run: (*parser).callonExtraListElement655,
+																								pos: position{line: 2865, col: 10, offset: 90715},
+																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28832,28 +28944,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
-																									run: (*parser).callonExtraListElement658,
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28862,9 +28974,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -28874,7 +28986,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 760, col: 26, offset: 24320},
-																				run: (*parser).callonExtraListElement665,
+																				run: (*parser).callonExtraListElement683,
 																				expr: &seqExpr{
 																					pos: position{line: 760, col: 26, offset: 24320},
 																					exprs: []interface{}{
@@ -28889,7 +29001,7 @@ var g = &grammar{
 																							label: "language",
 																							expr: &actionExpr{
 																								pos: position{line: 764, col: 13, offset: 24456},
-																								run: (*parser).callonExtraListElement669,
+																								run: (*parser).callonExtraListElement687,
 																								expr: &oneOrMoreExpr{
 																									pos: position{line: 764, col: 14, offset: 24457},
 																									expr: &charClassMatcher{
@@ -28905,10 +29017,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 760, col: 52, offset: 24346},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
-																								run: (*parser).callonExtraListElement673,
+																								pos: position{line: 2865, col: 10, offset: 90715},
+																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28917,28 +29029,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
-																									run: (*parser).callonExtraListElement676,
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28947,9 +29059,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -28959,7 +29071,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 754, col: 5, offset: 24079},
-																				run: (*parser).callonExtraListElement683,
+																				run: (*parser).callonExtraListElement701,
 																				expr: &seqExpr{
 																					pos: position{line: 754, col: 5, offset: 24079},
 																					exprs: []interface{}{
@@ -28968,7 +29080,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 754, col: 16, offset: 24090},
-																								run: (*parser).callonExtraListElement686,
+																								run: (*parser).callonExtraListElement704,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 16, offset: 24090},
 																									exprs: []interface{}{
@@ -28994,10 +29106,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24180},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
-																								run: (*parser).callonExtraListElement692,
+																								pos: position{line: 2865, col: 10, offset: 90715},
+																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29006,28 +29118,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
-																									run: (*parser).callonExtraListElement695,
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29036,9 +29148,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -29048,7 +29160,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 769, col: 5, offset: 24616},
-																				run: (*parser).callonExtraListElement702,
+																				run: (*parser).callonExtraListElement720,
 																				expr: &seqExpr{
 																					pos: position{line: 769, col: 5, offset: 24616},
 																					exprs: []interface{}{
@@ -29057,7 +29169,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 769, col: 16, offset: 24627},
-																								run: (*parser).callonExtraListElement705,
+																								run: (*parser).callonExtraListElement723,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 16, offset: 24627},
 																									exprs: []interface{}{
@@ -29083,10 +29195,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24718},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
-																								run: (*parser).callonExtraListElement711,
+																								pos: position{line: 2865, col: 10, offset: 90715},
+																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29095,28 +29207,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
-																									run: (*parser).callonExtraListElement714,
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29125,9 +29237,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -29137,7 +29249,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 783, col: 5, offset: 25092},
-																				run: (*parser).callonExtraListElement721,
+																				run: (*parser).callonExtraListElement739,
 																				expr: &seqExpr{
 																					pos: position{line: 783, col: 5, offset: 25092},
 																					exprs: []interface{}{
@@ -29146,7 +29258,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 783, col: 16, offset: 25103},
-																								run: (*parser).callonExtraListElement724,
+																								run: (*parser).callonExtraListElement742,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 16, offset: 25103},
 																									exprs: []interface{}{
@@ -29172,10 +29284,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25194},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
-																								run: (*parser).callonExtraListElement730,
+																								pos: position{line: 2865, col: 10, offset: 90715},
+																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29184,28 +29296,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
-																									run: (*parser).callonExtraListElement733,
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29214,9 +29326,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -29226,7 +29338,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 790, col: 5, offset: 25344},
-																				run: (*parser).callonExtraListElement740,
+																				run: (*parser).callonExtraListElement758,
 																				expr: &seqExpr{
 																					pos: position{line: 790, col: 5, offset: 25344},
 																					exprs: []interface{}{
@@ -29235,7 +29347,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 790, col: 16, offset: 25355},
-																								run: (*parser).callonExtraListElement743,
+																								run: (*parser).callonExtraListElement761,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 16, offset: 25355},
 																									exprs: []interface{}{
@@ -29261,10 +29373,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25446},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
-																								run: (*parser).callonExtraListElement749,
+																								pos: position{line: 2865, col: 10, offset: 90715},
+																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29273,28 +29385,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
-																									run: (*parser).callonExtraListElement752,
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29303,9 +29415,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -29315,7 +29427,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 797, col: 5, offset: 25594},
-																				run: (*parser).callonExtraListElement759,
+																				run: (*parser).callonExtraListElement777,
 																				expr: &seqExpr{
 																					pos: position{line: 797, col: 5, offset: 25594},
 																					exprs: []interface{}{
@@ -29324,7 +29436,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 797, col: 16, offset: 25605},
-																								run: (*parser).callonExtraListElement762,
+																								run: (*parser).callonExtraListElement780,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 16, offset: 25605},
 																									exprs: []interface{}{
@@ -29350,10 +29462,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25696},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
-																								run: (*parser).callonExtraListElement768,
+																								pos: position{line: 2865, col: 10, offset: 90715},
+																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29362,28 +29474,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
-																									run: (*parser).callonExtraListElement771,
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29392,9 +29504,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -29404,7 +29516,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 804, col: 5, offset: 25840},
-																				run: (*parser).callonExtraListElement778,
+																				run: (*parser).callonExtraListElement796,
 																				expr: &seqExpr{
 																					pos: position{line: 804, col: 5, offset: 25840},
 																					exprs: []interface{}{
@@ -29413,7 +29525,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 804, col: 16, offset: 25851},
-																								run: (*parser).callonExtraListElement781,
+																								run: (*parser).callonExtraListElement799,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 16, offset: 25851},
 																									exprs: []interface{}{
@@ -29439,10 +29551,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25942},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
-																								run: (*parser).callonExtraListElement787,
+																								pos: position{line: 2865, col: 10, offset: 90715},
+																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29451,28 +29563,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
-																									run: (*parser).callonExtraListElement790,
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29481,9 +29593,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -29502,12 +29614,12 @@ var g = &grammar{
 													pos:   position{line: 1524, col: 5, offset: 49410},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2814, col: 14, offset: 89276},
-														run: (*parser).callonExtraListElement798,
+														pos: position{line: 2815, col: 14, offset: 89308},
+														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2814, col: 14, offset: 89276},
+															pos: position{line: 2815, col: 14, offset: 89308},
 															expr: &charClassMatcher{
-																pos:        position{line: 2814, col: 14, offset: 89276},
+																pos:        position{line: 2815, col: 14, offset: 89308},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29517,28 +29629,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91081},
+													pos: position{line: 2887, col: 8, offset: 91113},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90854},
-															run: (*parser).callonExtraListElement802,
+															pos: position{line: 2874, col: 12, offset: 90886},
+															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90855},
+																pos: position{line: 2874, col: 13, offset: 90887},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90855},
+																		pos:        position{line: 2874, col: 13, offset: 90887},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90862},
+																		pos:        position{line: 2874, col: 20, offset: 90894},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90871},
+																		pos:        position{line: 2874, col: 29, offset: 90903},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29547,9 +29659,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 91031},
+															pos: position{line: 2884, col: 8, offset: 91063},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 91032,
+																line: 2884, col: 9, offset: 91064,
 															},
 														},
 													},
@@ -29584,10 +29696,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1541, col: 13, offset: 49834},
 											expr: &actionExpr{
-												pos: position{line: 2864, col: 10, offset: 90683},
+												pos: position{line: 2865, col: 10, offset: 90715},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2864, col: 10, offset: 90683},
+													pos:        position{line: 2865, col: 10, offset: 90715},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29596,25 +29708,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2873, col: 12, offset: 90854},
+											pos: position{line: 2874, col: 12, offset: 90886},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2873, col: 13, offset: 90855},
+												pos: position{line: 2874, col: 13, offset: 90887},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2873, col: 13, offset: 90855},
+														pos:        position{line: 2874, col: 13, offset: 90887},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2873, col: 20, offset: 90862},
+														pos:        position{line: 2874, col: 20, offset: 90894},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2873, col: 29, offset: 90871},
+														pos:        position{line: 2874, col: 29, offset: 90903},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29635,10 +29747,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1548, col: 31, offset: 50042},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90683},
+								pos: position{line: 2865, col: 10, offset: 90715},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90683},
+									pos:        position{line: 2865, col: 10, offset: 90715},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29647,25 +29759,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2873, col: 12, offset: 90854},
+							pos: position{line: 2874, col: 12, offset: 90886},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2873, col: 13, offset: 90855},
+								pos: position{line: 2874, col: 13, offset: 90887},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2873, col: 13, offset: 90855},
+										pos:        position{line: 2874, col: 13, offset: 90887},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2873, col: 20, offset: 90862},
+										pos:        position{line: 2874, col: 20, offset: 90894},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2873, col: 29, offset: 90871},
+										pos:        position{line: 2874, col: 29, offset: 90903},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29698,9 +29810,9 @@ var g = &grammar{
 					pos: position{line: 1551, col: 5, offset: 50129},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2881, col: 11, offset: 91017},
+							pos: position{line: 2882, col: 11, offset: 91049},
 							expr: &anyMatcher{
-								line: 2881, col: 13, offset: 91019,
+								line: 2882, col: 13, offset: 91051,
 							},
 						},
 						&notExpr{
@@ -29726,10 +29838,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1589, col: 5, offset: 51257},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90683},
+																		pos: position{line: 2865, col: 10, offset: 90715},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90683},
+																			pos:        position{line: 2865, col: 10, offset: 90715},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29896,12 +30008,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2868, col: 11, offset: 90744},
+																	pos: position{line: 2869, col: 11, offset: 90776},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2868, col: 11, offset: 90744},
+																		pos: position{line: 2869, col: 11, offset: 90776},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 11, offset: 90744},
+																			pos:        position{line: 2869, col: 11, offset: 90776},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29944,28 +30056,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
+																			pos: position{line: 2874, col: 12, offset: 90886},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -29974,9 +30086,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -30006,10 +30118,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1639, col: 5, offset: 53219},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90683},
+																		pos: position{line: 2865, col: 10, offset: 90715},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90683},
+																			pos:        position{line: 2865, col: 10, offset: 90715},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30050,12 +30162,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2868, col: 11, offset: 90744},
+																	pos: position{line: 2869, col: 11, offset: 90776},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2868, col: 11, offset: 90744},
+																		pos: position{line: 2869, col: 11, offset: 90776},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 11, offset: 90744},
+																			pos:        position{line: 2869, col: 11, offset: 90776},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30127,12 +30239,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2868, col: 11, offset: 90744},
+																		pos: position{line: 2869, col: 11, offset: 90776},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2868, col: 11, offset: 90744},
+																			pos: position{line: 2869, col: 11, offset: 90776},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 11, offset: 90744},
+																				pos:        position{line: 2869, col: 11, offset: 90776},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30176,28 +30288,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
+																			pos: position{line: 2874, col: 12, offset: 90886},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30206,9 +30318,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -30221,36 +30333,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1722, col: 5, offset: 55559},
+										pos: position{line: 1723, col: 5, offset: 55591},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1722, col: 5, offset: 55559},
+											pos: position{line: 1723, col: 5, offset: 55591},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1722, col: 5, offset: 55559},
+													pos:   position{line: 1723, col: 5, offset: 55591},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1728, col: 5, offset: 55756},
+														pos: position{line: 1729, col: 5, offset: 55788},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1728, col: 5, offset: 55756},
+															pos: position{line: 1729, col: 5, offset: 55788},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1728, col: 5, offset: 55756},
+																	pos:        position{line: 1729, col: 5, offset: 55788},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1728, col: 9, offset: 55760},
+																	pos:   position{line: 1729, col: 9, offset: 55792},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1728, col: 14, offset: 55765},
+																		pos: position{line: 1729, col: 14, offset: 55797},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1728, col: 14, offset: 55765},
+																			pos: position{line: 1729, col: 14, offset: 55797},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1728, col: 14, offset: 55765},
+																				pos:        position{line: 1729, col: 14, offset: 55797},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30260,18 +30372,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1728, col: 62, offset: 55813},
+																	pos:        position{line: 1729, col: 62, offset: 55845},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2868, col: 11, offset: 90744},
+																	pos: position{line: 2869, col: 11, offset: 90776},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2868, col: 11, offset: 90744},
+																		pos: position{line: 2869, col: 11, offset: 90776},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 11, offset: 90744},
+																			pos:        position{line: 2869, col: 11, offset: 90776},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30284,7 +30396,7 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1723, col: 5, offset: 55595},
+													pos:   position{line: 1724, col: 5, offset: 55627},
 													label: "description",
 													expr: &actionExpr{
 														pos: position{line: 1530, col: 5, offset: 49555},
@@ -30314,28 +30426,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
+																			pos: position{line: 2874, col: 12, offset: 90886},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30344,9 +30456,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -30370,88 +30482,116 @@ var g = &grammar{
 													expr: &actionExpr{
 														pos: position{line: 1674, col: 5, offset: 54238},
 														run: (*parser).callonListContinuationElement150,
-														expr: &oneOrMoreExpr{
+														expr: &seqExpr{
 															pos: position{line: 1674, col: 5, offset: 54238},
-															expr: &seqExpr{
-																pos: position{line: 1674, col: 6, offset: 54239},
-																exprs: []interface{}{
-																	&notExpr{
-																		pos: position{line: 1674, col: 6, offset: 54239},
-																		expr: &actionExpr{
-																			pos: position{line: 1679, col: 5, offset: 54389},
-																			run: (*parser).callonListContinuationElement154,
-																			expr: &seqExpr{
-																				pos: position{line: 1679, col: 5, offset: 54389},
-																				exprs: []interface{}{
-																					&labeledExpr{
-																						pos:   position{line: 1679, col: 5, offset: 54389},
-																						label: "separator",
-																						expr: &actionExpr{
-																							pos: position{line: 1679, col: 16, offset: 54400},
-																							run: (*parser).callonListContinuationElement157,
-																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1679, col: 16, offset: 54400},
-																								expr: &litMatcher{
-																									pos:        position{line: 1679, col: 17, offset: 54401},
-																									val:        ":",
-																									ignoreCase: false,
-																									want:       "\":\"",
-																								},
-																							},
-																						},
-																					},
-																					&andCodeExpr{
-																						pos: position{line: 1682, col: 5, offset: 54458},
-																						run: (*parser).callonListContinuationElement160,
-																					},
+															exprs: []interface{}{
+																&notExpr{
+																	pos: position{line: 1674, col: 5, offset: 54238},
+																	expr: &seqExpr{
+																		pos: position{line: 2480, col: 31, offset: 79879},
+																		exprs: []interface{}{
+																			&litMatcher{
+																				pos:        position{line: 2480, col: 31, offset: 79879},
+																				val:        "//",
+																				ignoreCase: false,
+																				want:       "\"//\"",
+																			},
+																			&notExpr{
+																				pos: position{line: 2480, col: 36, offset: 79884},
+																				expr: &litMatcher{
+																					pos:        position{line: 2480, col: 37, offset: 79885},
+																					val:        "//",
+																					ignoreCase: false,
+																					want:       "\"//\"",
 																				},
 																			},
 																		},
 																	},
-																	&notExpr{
-																		pos: position{line: 1674, col: 35, offset: 54268},
-																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91081},
-																			alternatives: []interface{}{
-																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90854},
-																					run: (*parser).callonListContinuationElement163,
-																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90855},
-																						alternatives: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90855},
-																								val:        "\n",
-																								ignoreCase: false,
-																								want:       "\"\\n\"",
-																							},
-																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90862},
-																								val:        "\r\n",
-																								ignoreCase: false,
-																								want:       "\"\\r\\n\"",
+																},
+																&oneOrMoreExpr{
+																	pos: position{line: 1675, col: 5, offset: 54270},
+																	expr: &seqExpr{
+																		pos: position{line: 1675, col: 6, offset: 54271},
+																		exprs: []interface{}{
+																			&notExpr{
+																				pos: position{line: 1675, col: 6, offset: 54271},
+																				expr: &actionExpr{
+																					pos: position{line: 1680, col: 5, offset: 54421},
+																					run: (*parser).callonListContinuationElement160,
+																					expr: &seqExpr{
+																						pos: position{line: 1680, col: 5, offset: 54421},
+																						exprs: []interface{}{
+																							&labeledExpr{
+																								pos:   position{line: 1680, col: 5, offset: 54421},
+																								label: "separator",
+																								expr: &actionExpr{
+																									pos: position{line: 1680, col: 16, offset: 54432},
+																									run: (*parser).callonListContinuationElement163,
+																									expr: &oneOrMoreExpr{
+																										pos: position{line: 1680, col: 16, offset: 54432},
+																										expr: &litMatcher{
+																											pos:        position{line: 1680, col: 17, offset: 54433},
+																											val:        ":",
+																											ignoreCase: false,
+																											want:       "\":\"",
+																										},
+																									},
+																								},
 																							},
-																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90871},
-																								val:        "\r",
-																								ignoreCase: false,
-																								want:       "\"\\r\"",
+																							&andCodeExpr{
+																								pos: position{line: 1683, col: 5, offset: 54490},
+																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
 																					},
 																				},
-																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
-																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																			},
+																			&notExpr{
+																				pos: position{line: 1675, col: 35, offset: 54300},
+																				expr: &choiceExpr{
+																					pos: position{line: 2887, col: 8, offset: 91113},
+																					alternatives: []interface{}{
+																						&actionExpr{
+																							pos: position{line: 2874, col: 12, offset: 90886},
+																							run: (*parser).callonListContinuationElement169,
+																							expr: &choiceExpr{
+																								pos: position{line: 2874, col: 13, offset: 90887},
+																								alternatives: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2874, col: 13, offset: 90887},
+																										val:        "\n",
+																										ignoreCase: false,
+																										want:       "\"\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2874, col: 20, offset: 90894},
+																										val:        "\r\n",
+																										ignoreCase: false,
+																										want:       "\"\\r\\n\"",
+																									},
+																									&litMatcher{
+																										pos:        position{line: 2874, col: 29, offset: 90903},
+																										val:        "\r",
+																										ignoreCase: false,
+																										want:       "\"\\r\"",
+																									},
+																								},
+																							},
+																						},
+																						&notExpr{
+																							pos: position{line: 2884, col: 8, offset: 91063},
+																							expr: &anyMatcher{
+																								line: 2884, col: 9, offset: 91064,
+																							},
+																						},
 																					},
 																				},
 																			},
+																			&anyMatcher{
+																				line: 1675, col: 40, offset: 54305,
+																			},
 																		},
 																	},
-																	&anyMatcher{
-																		line: 1674, col: 40, offset: 54273,
-																	},
 																},
 															},
 														},
@@ -30461,21 +30601,21 @@ var g = &grammar{
 													pos:   position{line: 1667, col: 5, offset: 53947},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1679, col: 5, offset: 54389},
-														run: (*parser).callonListContinuationElement172,
+														pos: position{line: 1680, col: 5, offset: 54421},
+														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1679, col: 5, offset: 54389},
+															pos: position{line: 1680, col: 5, offset: 54421},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1679, col: 5, offset: 54389},
+																	pos:   position{line: 1680, col: 5, offset: 54421},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1679, col: 16, offset: 54400},
-																		run: (*parser).callonListContinuationElement175,
+																		pos: position{line: 1680, col: 16, offset: 54432},
+																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1679, col: 16, offset: 54400},
+																			pos: position{line: 1680, col: 16, offset: 54432},
 																			expr: &litMatcher{
-																				pos:        position{line: 1679, col: 17, offset: 54401},
+																				pos:        position{line: 1680, col: 17, offset: 54433},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30484,8 +30624,8 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1682, col: 5, offset: 54458},
-																	run: (*parser).callonListContinuationElement178,
+																	pos: position{line: 1683, col: 5, offset: 54490},
+																	run: (*parser).callonListContinuationElement184,
 																},
 															},
 														},
@@ -30495,21 +30635,21 @@ var g = &grammar{
 													pos:   position{line: 1668, col: 5, offset: 53992},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1690, col: 5, offset: 54707},
+														pos: position{line: 1691, col: 5, offset: 54739},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1692, col: 9, offset: 54773},
-																run: (*parser).callonListContinuationElement181,
+																pos: position{line: 1693, col: 9, offset: 54805},
+																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1692, col: 9, offset: 54773},
+																	pos: position{line: 1693, col: 9, offset: 54805},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1692, col: 9, offset: 54773},
+																			pos: position{line: 1693, col: 9, offset: 54805},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90683},
-																				run: (*parser).callonListContinuationElement184,
+																				pos: position{line: 2865, col: 10, offset: 90715},
+																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90683},
+																					pos:        position{line: 2865, col: 10, offset: 90715},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30518,28 +30658,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91081},
+																			pos: position{line: 2887, col: 8, offset: 91113},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90854},
-																					run: (*parser).callonListContinuationElement187,
+																					pos: position{line: 2874, col: 12, offset: 90886},
+																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90855},
+																						pos: position{line: 2874, col: 13, offset: 90887},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90855},
+																								pos:        position{line: 2874, col: 13, offset: 90887},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90862},
+																								pos:        position{line: 2874, col: 20, offset: 90894},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90871},
+																								pos:        position{line: 2874, col: 29, offset: 90903},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30548,34 +30688,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1693, col: 9, offset: 54792},
+																			pos: position{line: 1694, col: 9, offset: 54824},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21489},
-																				run: (*parser).callonListContinuationElement195,
+																				run: (*parser).callonListContinuationElement201,
 																				expr: &seqExpr{
 																					pos: position{line: 677, col: 14, offset: 21489},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 91017},
+																							pos: position{line: 2882, col: 11, offset: 91049},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 91019,
+																								line: 2882, col: 13, offset: 91051,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21496},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
-																								run: (*parser).callonListContinuationElement200,
+																								pos: position{line: 2865, col: 10, offset: 90715},
+																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30584,28 +30724,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
-																									run: (*parser).callonListContinuationElement203,
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30614,9 +30754,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -30629,18 +30769,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1699, col: 9, offset: 54921},
-																run: (*parser).callonListContinuationElement210,
+																pos: position{line: 1700, col: 9, offset: 54953},
+																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1699, col: 9, offset: 54921},
+																	pos: position{line: 1700, col: 9, offset: 54953},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2868, col: 11, offset: 90744},
-																			run: (*parser).callonListContinuationElement212,
+																			pos: position{line: 2869, col: 11, offset: 90776},
+																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2868, col: 11, offset: 90744},
+																				pos: position{line: 2869, col: 11, offset: 90776},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 11, offset: 90744},
+																					pos:        position{line: 2869, col: 11, offset: 90776},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30649,15 +30789,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1700, col: 9, offset: 54994},
+																			pos:   position{line: 1701, col: 9, offset: 55026},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1700, col: 18, offset: 55003},
-																				run: (*parser).callonListContinuationElement216,
+																				pos: position{line: 1701, col: 18, offset: 55035},
+																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1700, col: 18, offset: 55003},
+																					pos: position{line: 1701, col: 18, offset: 55035},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1700, col: 18, offset: 55003},
+																						pos:        position{line: 1701, col: 18, offset: 55035},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30667,28 +30807,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91081},
+																			pos: position{line: 2887, col: 8, offset: 91113},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90854},
-																					run: (*parser).callonListContinuationElement220,
+																					pos: position{line: 2874, col: 12, offset: 90886},
+																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90855},
+																						pos: position{line: 2874, col: 13, offset: 90887},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90855},
+																								pos:        position{line: 2874, col: 13, offset: 90887},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90862},
+																								pos:        position{line: 2874, col: 20, offset: 90894},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90871},
+																								pos:        position{line: 2874, col: 29, offset: 90903},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30697,9 +30837,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -30735,23 +30875,23 @@ var g = &grammar{
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 677, col: 14, offset: 21489},
-										run: (*parser).callonListContinuationElement232,
+										run: (*parser).callonListContinuationElement238,
 										expr: &seqExpr{
 											pos: position{line: 677, col: 14, offset: 21489},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2881, col: 11, offset: 91017},
+													pos: position{line: 2882, col: 11, offset: 91049},
 													expr: &anyMatcher{
-														line: 2881, col: 13, offset: 91019,
+														line: 2882, col: 13, offset: 91051,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 677, col: 21, offset: 21496},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90683},
-														run: (*parser).callonListContinuationElement237,
+														pos: position{line: 2865, col: 10, offset: 90715},
+														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90683},
+															pos:        position{line: 2865, col: 10, offset: 90715},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30760,28 +30900,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91081},
+													pos: position{line: 2887, col: 8, offset: 91113},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90854},
-															run: (*parser).callonListContinuationElement240,
+															pos: position{line: 2874, col: 12, offset: 90886},
+															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90855},
+																pos: position{line: 2874, col: 13, offset: 90887},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90855},
+																		pos:        position{line: 2874, col: 13, offset: 90887},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90862},
+																		pos:        position{line: 2874, col: 20, offset: 90894},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90871},
+																		pos:        position{line: 2874, col: 29, offset: 90903},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30790,9 +30930,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 91031},
+															pos: position{line: 2884, col: 8, offset: 91063},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 91032,
+																line: 2884, col: 9, offset: 91064,
 															},
 														},
 													},
@@ -30806,7 +30946,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 360, col: 19, offset: 10910},
-										run: (*parser).callonListContinuationElement248,
+										run: (*parser).callonListContinuationElement254,
 										expr: &seqExpr{
 											pos: position{line: 360, col: 19, offset: 10910},
 											exprs: []interface{}{
@@ -30821,7 +30961,7 @@ var g = &grammar{
 													label: "name",
 													expr: &actionExpr{
 														pos: position{line: 318, col: 18, offset: 9736},
-														run: (*parser).callonListContinuationElement252,
+														run: (*parser).callonListContinuationElement258,
 														expr: &seqExpr{
 															pos: position{line: 318, col: 18, offset: 9736},
 															exprs: []interface{}{
@@ -30857,10 +30997,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90683},
-														run: (*parser).callonListContinuationElement259,
+														pos: position{line: 2865, col: 10, offset: 90715},
+														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90683},
+															pos:        position{line: 2865, col: 10, offset: 90715},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30869,28 +31009,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91081},
+													pos: position{line: 2887, col: 8, offset: 91113},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90854},
-															run: (*parser).callonListContinuationElement262,
+															pos: position{line: 2874, col: 12, offset: 90886},
+															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90855},
+																pos: position{line: 2874, col: 13, offset: 90887},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90855},
+																		pos:        position{line: 2874, col: 13, offset: 90887},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90862},
+																		pos:        position{line: 2874, col: 20, offset: 90894},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90871},
+																		pos:        position{line: 2874, col: 29, offset: 90903},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30899,9 +31039,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 91031},
+															pos: position{line: 2884, col: 8, offset: 91063},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 91032,
+																line: 2884, col: 9, offset: 91064,
 															},
 														},
 													},
@@ -30911,7 +31051,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 362, col: 9, offset: 11031},
-										run: (*parser).callonListContinuationElement269,
+										run: (*parser).callonListContinuationElement275,
 										expr: &seqExpr{
 											pos: position{line: 362, col: 9, offset: 11031},
 											exprs: []interface{}{
@@ -30926,7 +31066,7 @@ var g = &grammar{
 													label: "name",
 													expr: &actionExpr{
 														pos: position{line: 318, col: 18, offset: 9736},
-														run: (*parser).callonListContinuationElement273,
+														run: (*parser).callonListContinuationElement279,
 														expr: &seqExpr{
 															pos: position{line: 318, col: 18, offset: 9736},
 															exprs: []interface{}{
@@ -30962,10 +31102,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90683},
-														run: (*parser).callonListContinuationElement280,
+														pos: position{line: 2865, col: 10, offset: 90715},
+														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90683},
+															pos:        position{line: 2865, col: 10, offset: 90715},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30974,28 +31114,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91081},
+													pos: position{line: 2887, col: 8, offset: 91113},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90854},
-															run: (*parser).callonListContinuationElement283,
+															pos: position{line: 2874, col: 12, offset: 90886},
+															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90855},
+																pos: position{line: 2874, col: 13, offset: 90887},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90855},
+																		pos:        position{line: 2874, col: 13, offset: 90887},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90862},
+																		pos:        position{line: 2874, col: 20, offset: 90894},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90871},
+																		pos:        position{line: 2874, col: 29, offset: 90903},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31004,9 +31144,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 91031},
+															pos: position{line: 2884, col: 8, offset: 91063},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 91032,
+																line: 2884, col: 9, offset: 91064,
 															},
 														},
 													},
@@ -31016,7 +31156,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 820, col: 5, offset: 26324},
-										run: (*parser).callonListContinuationElement290,
+										run: (*parser).callonListContinuationElement296,
 										expr: &seqExpr{
 											pos: position{line: 820, col: 5, offset: 26324},
 											exprs: []interface{}{
@@ -31025,7 +31165,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 740, col: 5, offset: 23584},
-														run: (*parser).callonListContinuationElement293,
+														run: (*parser).callonListContinuationElement299,
 														expr: &seqExpr{
 															pos: position{line: 740, col: 5, offset: 23584},
 															exprs: []interface{}{
@@ -31034,7 +31174,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 740, col: 16, offset: 23595},
-																		run: (*parser).callonListContinuationElement296,
+																		run: (*parser).callonListContinuationElement302,
 																		expr: &seqExpr{
 																			pos: position{line: 740, col: 16, offset: 23595},
 																			exprs: []interface{}{
@@ -31060,10 +31200,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 742, col: 8, offset: 23686},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90683},
-																		run: (*parser).callonListContinuationElement302,
+																		pos: position{line: 2865, col: 10, offset: 90715},
+																		run: (*parser).callonListContinuationElement308,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90683},
+																			pos:        position{line: 2865, col: 10, offset: 90715},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31072,28 +31212,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
-																			run: (*parser).callonListContinuationElement305,
+																			pos: position{line: 2874, col: 12, offset: 90886},
+																			run: (*parser).callonListContinuationElement311,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31102,9 +31242,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -31115,7 +31255,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 821, col: 5, offset: 26363},
-													run: (*parser).callonListContinuationElement312,
+													run: (*parser).callonListContinuationElement318,
 												},
 												&labeledExpr{
 													pos:   position{line: 824, col: 5, offset: 26455},
@@ -31124,7 +31264,7 @@ var g = &grammar{
 														pos: position{line: 839, col: 5, offset: 26853},
 														expr: &actionExpr{
 															pos: position{line: 839, col: 6, offset: 26854},
-															run: (*parser).callonListContinuationElement315,
+															run: (*parser).callonListContinuationElement321,
 															expr: &seqExpr{
 																pos: position{line: 839, col: 6, offset: 26854},
 																exprs: []interface{}{
@@ -31141,7 +31281,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 740, col: 5, offset: 23584},
-																								run: (*parser).callonListContinuationElement321,
+																								run: (*parser).callonListContinuationElement327,
 																								expr: &seqExpr{
 																									pos: position{line: 740, col: 5, offset: 23584},
 																									exprs: []interface{}{
@@ -31150,7 +31290,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 740, col: 16, offset: 23595},
-																												run: (*parser).callonListContinuationElement324,
+																												run: (*parser).callonListContinuationElement330,
 																												expr: &seqExpr{
 																													pos: position{line: 740, col: 16, offset: 23595},
 																													exprs: []interface{}{
@@ -31176,10 +31316,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23686},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90683},
-																												run: (*parser).callonListContinuationElement330,
+																												pos: position{line: 2865, col: 10, offset: 90715},
+																												run: (*parser).callonListContinuationElement336,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90683},
+																													pos:        position{line: 2865, col: 10, offset: 90715},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31188,28 +31328,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91081},
+																											pos: position{line: 2887, col: 8, offset: 91113},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90854},
-																													run: (*parser).callonListContinuationElement333,
+																													pos: position{line: 2874, col: 12, offset: 90886},
+																													run: (*parser).callonListContinuationElement339,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90855},
+																														pos: position{line: 2874, col: 13, offset: 90887},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90855},
+																																pos:        position{line: 2874, col: 13, offset: 90887},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90862},
+																																pos:        position{line: 2874, col: 20, offset: 90894},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90871},
+																																pos:        position{line: 2874, col: 29, offset: 90903},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31218,9 +31358,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 91031},
+																													pos: position{line: 2884, col: 8, offset: 91063},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 91032,
+																														line: 2884, col: 9, offset: 91064,
 																													},
 																												},
 																											},
@@ -31231,14 +31371,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 833, col: 5, offset: 26726},
-																							run: (*parser).callonListContinuationElement340,
+																							run: (*parser).callonListContinuationElement346,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -31249,26 +31389,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement344,
+																			run: (*parser).callonListContinuationElement350,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2881, col: 11, offset: 91017},
+																						pos: position{line: 2882, col: 11, offset: 91049},
 																						expr: &anyMatcher{
-																							line: 2881, col: 13, offset: 91019,
+																							line: 2882, col: 13, offset: 91051,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2810, col: 13, offset: 89209},
-																							run: (*parser).callonListContinuationElement349,
+																							pos: position{line: 2811, col: 13, offset: 89241},
+																							run: (*parser).callonListContinuationElement355,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2810, col: 13, offset: 89209},
+																								pos: position{line: 2811, col: 13, offset: 89241},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2810, col: 13, offset: 89209},
+																									pos:        position{line: 2811, col: 13, offset: 89241},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31278,28 +31418,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91081},
+																						pos: position{line: 2887, col: 8, offset: 91113},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90854},
-																								run: (*parser).callonListContinuationElement353,
+																								pos: position{line: 2874, col: 12, offset: 90886},
+																								run: (*parser).callonListContinuationElement359,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90855},
+																									pos: position{line: 2874, col: 13, offset: 90887},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90855},
+																											pos:        position{line: 2874, col: 13, offset: 90887},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90862},
+																											pos:        position{line: 2874, col: 20, offset: 90894},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90871},
+																											pos:        position{line: 2874, col: 29, offset: 90903},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31308,9 +31448,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 91031},
+																								pos: position{line: 2884, col: 8, offset: 91063},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 91032,
+																									line: 2884, col: 9, offset: 91064,
 																								},
 																							},
 																						},
@@ -31340,7 +31480,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 740, col: 5, offset: 23584},
-																				run: (*parser).callonListContinuationElement365,
+																				run: (*parser).callonListContinuationElement371,
 																				expr: &seqExpr{
 																					pos: position{line: 740, col: 5, offset: 23584},
 																					exprs: []interface{}{
@@ -31349,7 +31489,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 740, col: 16, offset: 23595},
-																								run: (*parser).callonListContinuationElement368,
+																								run: (*parser).callonListContinuationElement374,
 																								expr: &seqExpr{
 																									pos: position{line: 740, col: 16, offset: 23595},
 																									exprs: []interface{}{
@@ -31375,10 +31515,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 742, col: 8, offset: 23686},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
-																								run: (*parser).callonListContinuationElement374,
+																								pos: position{line: 2865, col: 10, offset: 90715},
+																								run: (*parser).callonListContinuationElement380,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31387,28 +31527,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
-																									run: (*parser).callonListContinuationElement377,
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonListContinuationElement383,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31417,9 +31557,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -31430,14 +31570,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 833, col: 5, offset: 26726},
-																			run: (*parser).callonListContinuationElement384,
+																			run: (*parser).callonListContinuationElement390,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2883, col: 8, offset: 91031},
+																	pos: position{line: 2884, col: 8, offset: 91063},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 91032,
+																		line: 2884, col: 9, offset: 91064,
 																	},
 																},
 															},
@@ -31449,7 +31589,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 848, col: 5, offset: 27037},
-										run: (*parser).callonListContinuationElement387,
+										run: (*parser).callonListContinuationElement393,
 										expr: &seqExpr{
 											pos: position{line: 848, col: 5, offset: 27037},
 											exprs: []interface{}{
@@ -31458,7 +31598,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 747, col: 5, offset: 23832},
-														run: (*parser).callonListContinuationElement390,
+														run: (*parser).callonListContinuationElement396,
 														expr: &seqExpr{
 															pos: position{line: 747, col: 5, offset: 23832},
 															exprs: []interface{}{
@@ -31467,7 +31607,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 747, col: 16, offset: 23843},
-																		run: (*parser).callonListContinuationElement393,
+																		run: (*parser).callonListContinuationElement399,
 																		expr: &seqExpr{
 																			pos: position{line: 747, col: 16, offset: 23843},
 																			exprs: []interface{}{
@@ -31493,10 +31633,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 749, col: 8, offset: 23934},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90683},
-																		run: (*parser).callonListContinuationElement399,
+																		pos: position{line: 2865, col: 10, offset: 90715},
+																		run: (*parser).callonListContinuationElement405,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90683},
+																			pos:        position{line: 2865, col: 10, offset: 90715},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31505,28 +31645,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
-																			run: (*parser).callonListContinuationElement402,
+																			pos: position{line: 2874, col: 12, offset: 90886},
+																			run: (*parser).callonListContinuationElement408,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31535,9 +31675,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -31548,7 +31688,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 849, col: 5, offset: 27076},
-													run: (*parser).callonListContinuationElement409,
+													run: (*parser).callonListContinuationElement415,
 												},
 												&labeledExpr{
 													pos:   position{line: 852, col: 5, offset: 27168},
@@ -31557,7 +31697,7 @@ var g = &grammar{
 														pos: position{line: 867, col: 4, offset: 27565},
 														expr: &actionExpr{
 															pos: position{line: 867, col: 5, offset: 27566},
-															run: (*parser).callonListContinuationElement412,
+															run: (*parser).callonListContinuationElement418,
 															expr: &seqExpr{
 																pos: position{line: 867, col: 5, offset: 27566},
 																exprs: []interface{}{
@@ -31574,7 +31714,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 747, col: 5, offset: 23832},
-																								run: (*parser).callonListContinuationElement418,
+																								run: (*parser).callonListContinuationElement424,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 5, offset: 23832},
 																									exprs: []interface{}{
@@ -31583,7 +31723,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 747, col: 16, offset: 23843},
-																												run: (*parser).callonListContinuationElement421,
+																												run: (*parser).callonListContinuationElement427,
 																												expr: &seqExpr{
 																													pos: position{line: 747, col: 16, offset: 23843},
 																													exprs: []interface{}{
@@ -31609,10 +31749,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23934},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90683},
-																												run: (*parser).callonListContinuationElement427,
+																												pos: position{line: 2865, col: 10, offset: 90715},
+																												run: (*parser).callonListContinuationElement433,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90683},
+																													pos:        position{line: 2865, col: 10, offset: 90715},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31621,28 +31761,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91081},
+																											pos: position{line: 2887, col: 8, offset: 91113},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90854},
-																													run: (*parser).callonListContinuationElement430,
+																													pos: position{line: 2874, col: 12, offset: 90886},
+																													run: (*parser).callonListContinuationElement436,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90855},
+																														pos: position{line: 2874, col: 13, offset: 90887},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90855},
+																																pos:        position{line: 2874, col: 13, offset: 90887},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90862},
+																																pos:        position{line: 2874, col: 20, offset: 90894},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90871},
+																																pos:        position{line: 2874, col: 29, offset: 90903},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31651,9 +31791,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 91031},
+																													pos: position{line: 2884, col: 8, offset: 91063},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 91032,
+																														line: 2884, col: 9, offset: 91064,
 																													},
 																												},
 																											},
@@ -31664,14 +31804,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 861, col: 5, offset: 27439},
-																							run: (*parser).callonListContinuationElement437,
+																							run: (*parser).callonListContinuationElement443,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -31682,26 +31822,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement441,
+																			run: (*parser).callonListContinuationElement447,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2881, col: 11, offset: 91017},
+																						pos: position{line: 2882, col: 11, offset: 91049},
 																						expr: &anyMatcher{
-																							line: 2881, col: 13, offset: 91019,
+																							line: 2882, col: 13, offset: 91051,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2810, col: 13, offset: 89209},
-																							run: (*parser).callonListContinuationElement446,
+																							pos: position{line: 2811, col: 13, offset: 89241},
+																							run: (*parser).callonListContinuationElement452,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2810, col: 13, offset: 89209},
+																								pos: position{line: 2811, col: 13, offset: 89241},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2810, col: 13, offset: 89209},
+																									pos:        position{line: 2811, col: 13, offset: 89241},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31711,28 +31851,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91081},
+																						pos: position{line: 2887, col: 8, offset: 91113},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90854},
-																								run: (*parser).callonListContinuationElement450,
+																								pos: position{line: 2874, col: 12, offset: 90886},
+																								run: (*parser).callonListContinuationElement456,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90855},
+																									pos: position{line: 2874, col: 13, offset: 90887},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90855},
+																											pos:        position{line: 2874, col: 13, offset: 90887},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90862},
+																											pos:        position{line: 2874, col: 20, offset: 90894},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90871},
+																											pos:        position{line: 2874, col: 29, offset: 90903},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31741,9 +31881,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 91031},
+																								pos: position{line: 2884, col: 8, offset: 91063},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 91032,
+																									line: 2884, col: 9, offset: 91064,
 																								},
 																							},
 																						},
@@ -31773,7 +31913,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 747, col: 5, offset: 23832},
-																				run: (*parser).callonListContinuationElement462,
+																				run: (*parser).callonListContinuationElement468,
 																				expr: &seqExpr{
 																					pos: position{line: 747, col: 5, offset: 23832},
 																					exprs: []interface{}{
@@ -31782,7 +31922,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 747, col: 16, offset: 23843},
-																								run: (*parser).callonListContinuationElement465,
+																								run: (*parser).callonListContinuationElement471,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 16, offset: 23843},
 																									exprs: []interface{}{
@@ -31808,10 +31948,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 749, col: 8, offset: 23934},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
-																								run: (*parser).callonListContinuationElement471,
+																								pos: position{line: 2865, col: 10, offset: 90715},
+																								run: (*parser).callonListContinuationElement477,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31820,28 +31960,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
-																									run: (*parser).callonListContinuationElement474,
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonListContinuationElement480,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31850,9 +31990,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -31863,14 +32003,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 861, col: 5, offset: 27439},
-																			run: (*parser).callonListContinuationElement481,
+																			run: (*parser).callonListContinuationElement487,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2883, col: 8, offset: 91031},
+																	pos: position{line: 2884, col: 8, offset: 91063},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 91032,
+																		line: 2884, col: 9, offset: 91064,
 																	},
 																},
 															},
@@ -31882,7 +32022,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 960, col: 5, offset: 29888},
-										run: (*parser).callonListContinuationElement484,
+										run: (*parser).callonListContinuationElement490,
 										expr: &seqExpr{
 											pos: position{line: 960, col: 5, offset: 29888},
 											exprs: []interface{}{
@@ -31891,7 +32031,7 @@ var g = &grammar{
 													label: "delimiter",
 													expr: &actionExpr{
 														pos: position{line: 760, col: 26, offset: 24320},
-														run: (*parser).callonListContinuationElement487,
+														run: (*parser).callonListContinuationElement493,
 														expr: &seqExpr{
 															pos: position{line: 760, col: 26, offset: 24320},
 															exprs: []interface{}{
@@ -31906,7 +32046,7 @@ var g = &grammar{
 																	label: "language",
 																	expr: &actionExpr{
 																		pos: position{line: 764, col: 13, offset: 24456},
-																		run: (*parser).callonListContinuationElement491,
+																		run: (*parser).callonListContinuationElement497,
 																		expr: &oneOrMoreExpr{
 																			pos: position{line: 764, col: 14, offset: 24457},
 																			expr: &charClassMatcher{
@@ -31922,10 +32062,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 760, col: 52, offset: 24346},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90683},
-																		run: (*parser).callonListContinuationElement495,
+																		pos: position{line: 2865, col: 10, offset: 90715},
+																		run: (*parser).callonListContinuationElement501,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90683},
+																			pos:        position{line: 2865, col: 10, offset: 90715},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31934,28 +32074,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
-																			run: (*parser).callonListContinuationElement498,
+																			pos: position{line: 2874, col: 12, offset: 90886},
+																			run: (*parser).callonListContinuationElement504,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31964,9 +32104,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -31982,7 +32122,7 @@ var g = &grammar{
 														pos: position{line: 974, col: 5, offset: 30407},
 														expr: &actionExpr{
 															pos: position{line: 974, col: 6, offset: 30408},
-															run: (*parser).callonListContinuationElement507,
+															run: (*parser).callonListContinuationElement513,
 															expr: &seqExpr{
 																pos: position{line: 974, col: 6, offset: 30408},
 																exprs: []interface{}{
@@ -32000,10 +32140,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 971, col: 40, offset: 30361},
 																					expr: &actionExpr{
-																						pos: position{line: 2864, col: 10, offset: 90683},
-																						run: (*parser).callonListContinuationElement513,
+																						pos: position{line: 2865, col: 10, offset: 90715},
+																						run: (*parser).callonListContinuationElement519,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2864, col: 10, offset: 90683},
+																							pos:        position{line: 2865, col: 10, offset: 90715},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32012,28 +32152,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2886, col: 8, offset: 91081},
+																					pos: position{line: 2887, col: 8, offset: 91113},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2873, col: 12, offset: 90854},
-																							run: (*parser).callonListContinuationElement516,
+																							pos: position{line: 2874, col: 12, offset: 90886},
+																							run: (*parser).callonListContinuationElement522,
 																							expr: &choiceExpr{
-																								pos: position{line: 2873, col: 13, offset: 90855},
+																								pos: position{line: 2874, col: 13, offset: 90887},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 13, offset: 90855},
+																										pos:        position{line: 2874, col: 13, offset: 90887},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 20, offset: 90862},
+																										pos:        position{line: 2874, col: 20, offset: 90894},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 29, offset: 90871},
+																										pos:        position{line: 2874, col: 29, offset: 90903},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32042,9 +32182,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2883, col: 8, offset: 91031},
+																							pos: position{line: 2884, col: 8, offset: 91063},
 																							expr: &anyMatcher{
-																								line: 2883, col: 9, offset: 91032,
+																								line: 2884, col: 9, offset: 91064,
 																							},
 																						},
 																					},
@@ -32057,26 +32197,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement524,
+																			run: (*parser).callonListContinuationElement530,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2881, col: 11, offset: 91017},
+																						pos: position{line: 2882, col: 11, offset: 91049},
 																						expr: &anyMatcher{
-																							line: 2881, col: 13, offset: 91019,
+																							line: 2882, col: 13, offset: 91051,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2810, col: 13, offset: 89209},
-																							run: (*parser).callonListContinuationElement529,
+																							pos: position{line: 2811, col: 13, offset: 89241},
+																							run: (*parser).callonListContinuationElement535,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2810, col: 13, offset: 89209},
+																								pos: position{line: 2811, col: 13, offset: 89241},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2810, col: 13, offset: 89209},
+																									pos:        position{line: 2811, col: 13, offset: 89241},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32086,28 +32226,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91081},
+																						pos: position{line: 2887, col: 8, offset: 91113},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90854},
-																								run: (*parser).callonListContinuationElement533,
+																								pos: position{line: 2874, col: 12, offset: 90886},
+																								run: (*parser).callonListContinuationElement539,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90855},
+																									pos: position{line: 2874, col: 13, offset: 90887},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90855},
+																											pos:        position{line: 2874, col: 13, offset: 90887},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90862},
+																											pos:        position{line: 2874, col: 20, offset: 90894},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90871},
+																											pos:        position{line: 2874, col: 29, offset: 90903},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32116,9 +32256,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 91031},
+																								pos: position{line: 2884, col: 8, offset: 91063},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 91032,
+																									line: 2884, col: 9, offset: 91064,
 																								},
 																							},
 																						},
@@ -32146,10 +32286,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 971, col: 40, offset: 30361},
 																expr: &actionExpr{
-																	pos: position{line: 2864, col: 10, offset: 90683},
-																	run: (*parser).callonListContinuationElement544,
+																	pos: position{line: 2865, col: 10, offset: 90715},
+																	run: (*parser).callonListContinuationElement550,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2864, col: 10, offset: 90683},
+																		pos:        position{line: 2865, col: 10, offset: 90715},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32158,28 +32298,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2886, col: 8, offset: 91081},
+																pos: position{line: 2887, col: 8, offset: 91113},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2873, col: 12, offset: 90854},
-																		run: (*parser).callonListContinuationElement547,
+																		pos: position{line: 2874, col: 12, offset: 90886},
+																		run: (*parser).callonListContinuationElement553,
 																		expr: &choiceExpr{
-																			pos: position{line: 2873, col: 13, offset: 90855},
+																			pos: position{line: 2874, col: 13, offset: 90887},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 13, offset: 90855},
+																					pos:        position{line: 2874, col: 13, offset: 90887},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 20, offset: 90862},
+																					pos:        position{line: 2874, col: 20, offset: 90894},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 29, offset: 90871},
+																					pos:        position{line: 2874, col: 29, offset: 90903},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32188,9 +32328,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 91031},
+																		pos: position{line: 2884, col: 8, offset: 91063},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 91032,
+																			line: 2884, col: 9, offset: 91064,
 																		},
 																	},
 																},
@@ -32203,7 +32343,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 876, col: 5, offset: 27749},
-										run: (*parser).callonListContinuationElement554,
+										run: (*parser).callonListContinuationElement560,
 										expr: &seqExpr{
 											pos: position{line: 876, col: 5, offset: 27749},
 											exprs: []interface{}{
@@ -32212,7 +32352,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 754, col: 5, offset: 24079},
-														run: (*parser).callonListContinuationElement557,
+														run: (*parser).callonListContinuationElement563,
 														expr: &seqExpr{
 															pos: position{line: 754, col: 5, offset: 24079},
 															exprs: []interface{}{
@@ -32221,7 +32361,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 754, col: 16, offset: 24090},
-																		run: (*parser).callonListContinuationElement560,
+																		run: (*parser).callonListContinuationElement566,
 																		expr: &seqExpr{
 																			pos: position{line: 754, col: 16, offset: 24090},
 																			exprs: []interface{}{
@@ -32247,10 +32387,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 756, col: 8, offset: 24180},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90683},
-																		run: (*parser).callonListContinuationElement566,
+																		pos: position{line: 2865, col: 10, offset: 90715},
+																		run: (*parser).callonListContinuationElement572,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90683},
+																			pos:        position{line: 2865, col: 10, offset: 90715},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32259,28 +32399,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
-																			run: (*parser).callonListContinuationElement569,
+																			pos: position{line: 2874, col: 12, offset: 90886},
+																			run: (*parser).callonListContinuationElement575,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32289,9 +32429,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -32302,7 +32442,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 877, col: 5, offset: 27787},
-													run: (*parser).callonListContinuationElement576,
+													run: (*parser).callonListContinuationElement582,
 												},
 												&labeledExpr{
 													pos:   position{line: 880, col: 5, offset: 27879},
@@ -32311,7 +32451,7 @@ var g = &grammar{
 														pos: position{line: 895, col: 5, offset: 28269},
 														expr: &actionExpr{
 															pos: position{line: 895, col: 6, offset: 28270},
-															run: (*parser).callonListContinuationElement579,
+															run: (*parser).callonListContinuationElement585,
 															expr: &seqExpr{
 																pos: position{line: 895, col: 6, offset: 28270},
 																exprs: []interface{}{
@@ -32328,7 +32468,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 754, col: 5, offset: 24079},
-																								run: (*parser).callonListContinuationElement585,
+																								run: (*parser).callonListContinuationElement591,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 5, offset: 24079},
 																									exprs: []interface{}{
@@ -32337,7 +32477,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 754, col: 16, offset: 24090},
-																												run: (*parser).callonListContinuationElement588,
+																												run: (*parser).callonListContinuationElement594,
 																												expr: &seqExpr{
 																													pos: position{line: 754, col: 16, offset: 24090},
 																													exprs: []interface{}{
@@ -32363,10 +32503,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24180},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90683},
-																												run: (*parser).callonListContinuationElement594,
+																												pos: position{line: 2865, col: 10, offset: 90715},
+																												run: (*parser).callonListContinuationElement600,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90683},
+																													pos:        position{line: 2865, col: 10, offset: 90715},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32375,28 +32515,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91081},
+																											pos: position{line: 2887, col: 8, offset: 91113},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90854},
-																													run: (*parser).callonListContinuationElement597,
+																													pos: position{line: 2874, col: 12, offset: 90886},
+																													run: (*parser).callonListContinuationElement603,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90855},
+																														pos: position{line: 2874, col: 13, offset: 90887},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90855},
+																																pos:        position{line: 2874, col: 13, offset: 90887},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90862},
+																																pos:        position{line: 2874, col: 20, offset: 90894},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90871},
+																																pos:        position{line: 2874, col: 29, offset: 90903},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32405,9 +32545,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 91031},
+																													pos: position{line: 2884, col: 8, offset: 91063},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 91032,
+																														line: 2884, col: 9, offset: 91064,
 																													},
 																												},
 																											},
@@ -32418,14 +32558,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 889, col: 5, offset: 28143},
-																							run: (*parser).callonListContinuationElement604,
+																							run: (*parser).callonListContinuationElement610,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -32436,26 +32576,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement608,
+																			run: (*parser).callonListContinuationElement614,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2881, col: 11, offset: 91017},
+																						pos: position{line: 2882, col: 11, offset: 91049},
 																						expr: &anyMatcher{
-																							line: 2881, col: 13, offset: 91019,
+																							line: 2882, col: 13, offset: 91051,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2810, col: 13, offset: 89209},
-																							run: (*parser).callonListContinuationElement613,
+																							pos: position{line: 2811, col: 13, offset: 89241},
+																							run: (*parser).callonListContinuationElement619,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2810, col: 13, offset: 89209},
+																								pos: position{line: 2811, col: 13, offset: 89241},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2810, col: 13, offset: 89209},
+																									pos:        position{line: 2811, col: 13, offset: 89241},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32465,28 +32605,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91081},
+																						pos: position{line: 2887, col: 8, offset: 91113},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90854},
-																								run: (*parser).callonListContinuationElement617,
+																								pos: position{line: 2874, col: 12, offset: 90886},
+																								run: (*parser).callonListContinuationElement623,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90855},
+																									pos: position{line: 2874, col: 13, offset: 90887},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90855},
+																											pos:        position{line: 2874, col: 13, offset: 90887},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90862},
+																											pos:        position{line: 2874, col: 20, offset: 90894},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90871},
+																											pos:        position{line: 2874, col: 29, offset: 90903},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32495,9 +32635,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 91031},
+																								pos: position{line: 2884, col: 8, offset: 91063},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 91032,
+																									line: 2884, col: 9, offset: 91064,
 																								},
 																							},
 																						},
@@ -32527,7 +32667,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 754, col: 5, offset: 24079},
-																				run: (*parser).callonListContinuationElement629,
+																				run: (*parser).callonListContinuationElement635,
 																				expr: &seqExpr{
 																					pos: position{line: 754, col: 5, offset: 24079},
 																					exprs: []interface{}{
@@ -32536,7 +32676,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 754, col: 16, offset: 24090},
-																								run: (*parser).callonListContinuationElement632,
+																								run: (*parser).callonListContinuationElement638,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 16, offset: 24090},
 																									exprs: []interface{}{
@@ -32562,10 +32702,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24180},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
-																								run: (*parser).callonListContinuationElement638,
+																								pos: position{line: 2865, col: 10, offset: 90715},
+																								run: (*parser).callonListContinuationElement644,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32574,28 +32714,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
-																									run: (*parser).callonListContinuationElement641,
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonListContinuationElement647,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32604,9 +32744,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -32617,14 +32757,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 889, col: 5, offset: 28143},
-																			run: (*parser).callonListContinuationElement648,
+																			run: (*parser).callonListContinuationElement654,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2883, col: 8, offset: 91031},
+																	pos: position{line: 2884, col: 8, offset: 91063},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 91032,
+																		line: 2884, col: 9, offset: 91064,
 																	},
 																},
 															},
@@ -32636,7 +32776,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 904, col: 5, offset: 28454},
-										run: (*parser).callonListContinuationElement651,
+										run: (*parser).callonListContinuationElement657,
 										expr: &seqExpr{
 											pos: position{line: 904, col: 5, offset: 28454},
 											exprs: []interface{}{
@@ -32645,7 +32785,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 769, col: 5, offset: 24616},
-														run: (*parser).callonListContinuationElement654,
+														run: (*parser).callonListContinuationElement660,
 														expr: &seqExpr{
 															pos: position{line: 769, col: 5, offset: 24616},
 															exprs: []interface{}{
@@ -32654,7 +32794,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 769, col: 16, offset: 24627},
-																		run: (*parser).callonListContinuationElement657,
+																		run: (*parser).callonListContinuationElement663,
 																		expr: &seqExpr{
 																			pos: position{line: 769, col: 16, offset: 24627},
 																			exprs: []interface{}{
@@ -32680,10 +32820,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 771, col: 8, offset: 24718},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90683},
-																		run: (*parser).callonListContinuationElement663,
+																		pos: position{line: 2865, col: 10, offset: 90715},
+																		run: (*parser).callonListContinuationElement669,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90683},
+																			pos:        position{line: 2865, col: 10, offset: 90715},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32692,28 +32832,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
-																			run: (*parser).callonListContinuationElement666,
+																			pos: position{line: 2874, col: 12, offset: 90886},
+																			run: (*parser).callonListContinuationElement672,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32722,9 +32862,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -32735,7 +32875,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 905, col: 5, offset: 28493},
-													run: (*parser).callonListContinuationElement673,
+													run: (*parser).callonListContinuationElement679,
 												},
 												&labeledExpr{
 													pos:   position{line: 908, col: 5, offset: 28585},
@@ -32744,7 +32884,7 @@ var g = &grammar{
 														pos: position{line: 923, col: 5, offset: 28983},
 														expr: &actionExpr{
 															pos: position{line: 923, col: 6, offset: 28984},
-															run: (*parser).callonListContinuationElement676,
+															run: (*parser).callonListContinuationElement682,
 															expr: &seqExpr{
 																pos: position{line: 923, col: 6, offset: 28984},
 																exprs: []interface{}{
@@ -32761,7 +32901,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 769, col: 5, offset: 24616},
-																								run: (*parser).callonListContinuationElement682,
+																								run: (*parser).callonListContinuationElement688,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 5, offset: 24616},
 																									exprs: []interface{}{
@@ -32770,7 +32910,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 769, col: 16, offset: 24627},
-																												run: (*parser).callonListContinuationElement685,
+																												run: (*parser).callonListContinuationElement691,
 																												expr: &seqExpr{
 																													pos: position{line: 769, col: 16, offset: 24627},
 																													exprs: []interface{}{
@@ -32796,10 +32936,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24718},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90683},
-																												run: (*parser).callonListContinuationElement691,
+																												pos: position{line: 2865, col: 10, offset: 90715},
+																												run: (*parser).callonListContinuationElement697,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90683},
+																													pos:        position{line: 2865, col: 10, offset: 90715},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32808,28 +32948,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91081},
+																											pos: position{line: 2887, col: 8, offset: 91113},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90854},
-																													run: (*parser).callonListContinuationElement694,
+																													pos: position{line: 2874, col: 12, offset: 90886},
+																													run: (*parser).callonListContinuationElement700,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90855},
+																														pos: position{line: 2874, col: 13, offset: 90887},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90855},
+																																pos:        position{line: 2874, col: 13, offset: 90887},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90862},
+																																pos:        position{line: 2874, col: 20, offset: 90894},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90871},
+																																pos:        position{line: 2874, col: 29, offset: 90903},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32838,9 +32978,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 91031},
+																													pos: position{line: 2884, col: 8, offset: 91063},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 91032,
+																														line: 2884, col: 9, offset: 91064,
 																													},
 																												},
 																											},
@@ -32851,14 +32991,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 917, col: 5, offset: 28856},
-																							run: (*parser).callonListContinuationElement701,
+																							run: (*parser).callonListContinuationElement707,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -32869,26 +33009,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement705,
+																			run: (*parser).callonListContinuationElement711,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2881, col: 11, offset: 91017},
+																						pos: position{line: 2882, col: 11, offset: 91049},
 																						expr: &anyMatcher{
-																							line: 2881, col: 13, offset: 91019,
+																							line: 2882, col: 13, offset: 91051,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2810, col: 13, offset: 89209},
-																							run: (*parser).callonListContinuationElement710,
+																							pos: position{line: 2811, col: 13, offset: 89241},
+																							run: (*parser).callonListContinuationElement716,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2810, col: 13, offset: 89209},
+																								pos: position{line: 2811, col: 13, offset: 89241},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2810, col: 13, offset: 89209},
+																									pos:        position{line: 2811, col: 13, offset: 89241},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32898,28 +33038,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91081},
+																						pos: position{line: 2887, col: 8, offset: 91113},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90854},
-																								run: (*parser).callonListContinuationElement714,
+																								pos: position{line: 2874, col: 12, offset: 90886},
+																								run: (*parser).callonListContinuationElement720,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90855},
+																									pos: position{line: 2874, col: 13, offset: 90887},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90855},
+																											pos:        position{line: 2874, col: 13, offset: 90887},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90862},
+																											pos:        position{line: 2874, col: 20, offset: 90894},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90871},
+																											pos:        position{line: 2874, col: 29, offset: 90903},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32928,9 +33068,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 91031},
+																								pos: position{line: 2884, col: 8, offset: 91063},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 91032,
+																									line: 2884, col: 9, offset: 91064,
 																								},
 																							},
 																						},
@@ -32960,7 +33100,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 769, col: 5, offset: 24616},
-																				run: (*parser).callonListContinuationElement726,
+																				run: (*parser).callonListContinuationElement732,
 																				expr: &seqExpr{
 																					pos: position{line: 769, col: 5, offset: 24616},
 																					exprs: []interface{}{
@@ -32969,7 +33109,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 769, col: 16, offset: 24627},
-																								run: (*parser).callonListContinuationElement729,
+																								run: (*parser).callonListContinuationElement735,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 16, offset: 24627},
 																									exprs: []interface{}{
@@ -32995,10 +33135,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 771, col: 8, offset: 24718},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
-																								run: (*parser).callonListContinuationElement735,
+																								pos: position{line: 2865, col: 10, offset: 90715},
+																								run: (*parser).callonListContinuationElement741,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33007,28 +33147,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
-																									run: (*parser).callonListContinuationElement738,
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonListContinuationElement744,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33037,9 +33177,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -33050,14 +33190,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 917, col: 5, offset: 28856},
-																			run: (*parser).callonListContinuationElement745,
+																			run: (*parser).callonListContinuationElement751,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2883, col: 8, offset: 91031},
+																	pos: position{line: 2884, col: 8, offset: 91063},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 91032,
+																		line: 2884, col: 9, offset: 91064,
 																	},
 																},
 															},
@@ -33069,7 +33209,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 932, col: 5, offset: 29169},
-										run: (*parser).callonListContinuationElement748,
+										run: (*parser).callonListContinuationElement754,
 										expr: &seqExpr{
 											pos: position{line: 932, col: 5, offset: 29169},
 											exprs: []interface{}{
@@ -33078,7 +33218,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 783, col: 5, offset: 25092},
-														run: (*parser).callonListContinuationElement751,
+														run: (*parser).callonListContinuationElement757,
 														expr: &seqExpr{
 															pos: position{line: 783, col: 5, offset: 25092},
 															exprs: []interface{}{
@@ -33087,7 +33227,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 783, col: 16, offset: 25103},
-																		run: (*parser).callonListContinuationElement754,
+																		run: (*parser).callonListContinuationElement760,
 																		expr: &seqExpr{
 																			pos: position{line: 783, col: 16, offset: 25103},
 																			exprs: []interface{}{
@@ -33113,10 +33253,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 785, col: 8, offset: 25194},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90683},
-																		run: (*parser).callonListContinuationElement760,
+																		pos: position{line: 2865, col: 10, offset: 90715},
+																		run: (*parser).callonListContinuationElement766,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90683},
+																			pos:        position{line: 2865, col: 10, offset: 90715},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33125,28 +33265,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
-																			run: (*parser).callonListContinuationElement763,
+																			pos: position{line: 2874, col: 12, offset: 90886},
+																			run: (*parser).callonListContinuationElement769,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33155,9 +33295,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -33168,7 +33308,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 933, col: 5, offset: 29208},
-													run: (*parser).callonListContinuationElement770,
+													run: (*parser).callonListContinuationElement776,
 												},
 												&labeledExpr{
 													pos:   position{line: 936, col: 5, offset: 29300},
@@ -33177,7 +33317,7 @@ var g = &grammar{
 														pos: position{line: 951, col: 5, offset: 29698},
 														expr: &actionExpr{
 															pos: position{line: 951, col: 6, offset: 29699},
-															run: (*parser).callonListContinuationElement773,
+															run: (*parser).callonListContinuationElement779,
 															expr: &seqExpr{
 																pos: position{line: 951, col: 6, offset: 29699},
 																exprs: []interface{}{
@@ -33194,7 +33334,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 783, col: 5, offset: 25092},
-																								run: (*parser).callonListContinuationElement779,
+																								run: (*parser).callonListContinuationElement785,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 5, offset: 25092},
 																									exprs: []interface{}{
@@ -33203,7 +33343,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 783, col: 16, offset: 25103},
-																												run: (*parser).callonListContinuationElement782,
+																												run: (*parser).callonListContinuationElement788,
 																												expr: &seqExpr{
 																													pos: position{line: 783, col: 16, offset: 25103},
 																													exprs: []interface{}{
@@ -33229,10 +33369,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25194},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90683},
-																												run: (*parser).callonListContinuationElement788,
+																												pos: position{line: 2865, col: 10, offset: 90715},
+																												run: (*parser).callonListContinuationElement794,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90683},
+																													pos:        position{line: 2865, col: 10, offset: 90715},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33241,28 +33381,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91081},
+																											pos: position{line: 2887, col: 8, offset: 91113},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90854},
-																													run: (*parser).callonListContinuationElement791,
+																													pos: position{line: 2874, col: 12, offset: 90886},
+																													run: (*parser).callonListContinuationElement797,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90855},
+																														pos: position{line: 2874, col: 13, offset: 90887},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90855},
+																																pos:        position{line: 2874, col: 13, offset: 90887},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90862},
+																																pos:        position{line: 2874, col: 20, offset: 90894},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90871},
+																																pos:        position{line: 2874, col: 29, offset: 90903},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33271,9 +33411,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 91031},
+																													pos: position{line: 2884, col: 8, offset: 91063},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 91032,
+																														line: 2884, col: 9, offset: 91064,
 																													},
 																												},
 																											},
@@ -33284,14 +33424,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 945, col: 5, offset: 29571},
-																							run: (*parser).callonListContinuationElement798,
+																							run: (*parser).callonListContinuationElement804,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -33302,26 +33442,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement802,
+																			run: (*parser).callonListContinuationElement808,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2881, col: 11, offset: 91017},
+																						pos: position{line: 2882, col: 11, offset: 91049},
 																						expr: &anyMatcher{
-																							line: 2881, col: 13, offset: 91019,
+																							line: 2882, col: 13, offset: 91051,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2810, col: 13, offset: 89209},
-																							run: (*parser).callonListContinuationElement807,
+																							pos: position{line: 2811, col: 13, offset: 89241},
+																							run: (*parser).callonListContinuationElement813,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2810, col: 13, offset: 89209},
+																								pos: position{line: 2811, col: 13, offset: 89241},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2810, col: 13, offset: 89209},
+																									pos:        position{line: 2811, col: 13, offset: 89241},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33331,28 +33471,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91081},
+																						pos: position{line: 2887, col: 8, offset: 91113},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90854},
-																								run: (*parser).callonListContinuationElement811,
+																								pos: position{line: 2874, col: 12, offset: 90886},
+																								run: (*parser).callonListContinuationElement817,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90855},
+																									pos: position{line: 2874, col: 13, offset: 90887},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90855},
+																											pos:        position{line: 2874, col: 13, offset: 90887},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90862},
+																											pos:        position{line: 2874, col: 20, offset: 90894},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90871},
+																											pos:        position{line: 2874, col: 29, offset: 90903},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33361,9 +33501,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 91031},
+																								pos: position{line: 2884, col: 8, offset: 91063},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 91032,
+																									line: 2884, col: 9, offset: 91064,
 																								},
 																							},
 																						},
@@ -33393,7 +33533,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 783, col: 5, offset: 25092},
-																				run: (*parser).callonListContinuationElement823,
+																				run: (*parser).callonListContinuationElement829,
 																				expr: &seqExpr{
 																					pos: position{line: 783, col: 5, offset: 25092},
 																					exprs: []interface{}{
@@ -33402,7 +33542,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 783, col: 16, offset: 25103},
-																								run: (*parser).callonListContinuationElement826,
+																								run: (*parser).callonListContinuationElement832,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 16, offset: 25103},
 																									exprs: []interface{}{
@@ -33428,10 +33568,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25194},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
-																								run: (*parser).callonListContinuationElement832,
+																								pos: position{line: 2865, col: 10, offset: 90715},
+																								run: (*parser).callonListContinuationElement838,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33440,28 +33580,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
-																									run: (*parser).callonListContinuationElement835,
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonListContinuationElement841,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33470,9 +33610,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -33483,14 +33623,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 945, col: 5, offset: 29571},
-																			run: (*parser).callonListContinuationElement842,
+																			run: (*parser).callonListContinuationElement848,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2883, col: 8, offset: 91031},
+																	pos: position{line: 2884, col: 8, offset: 91063},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 91032,
+																		line: 2884, col: 9, offset: 91064,
 																	},
 																},
 															},
@@ -33502,7 +33642,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 983, col: 5, offset: 30612},
-										run: (*parser).callonListContinuationElement845,
+										run: (*parser).callonListContinuationElement851,
 										expr: &seqExpr{
 											pos: position{line: 983, col: 5, offset: 30612},
 											exprs: []interface{}{
@@ -33514,7 +33654,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 996, col: 35, offset: 31099},
-																run: (*parser).callonListContinuationElement849,
+																run: (*parser).callonListContinuationElement855,
 																expr: &seqExpr{
 																	pos: position{line: 996, col: 35, offset: 31099},
 																	exprs: []interface{}{
@@ -33528,36 +33668,36 @@ var g = &grammar{
 																			pos:   position{line: 996, col: 40, offset: 31104},
 																			label: "comment",
 																			expr: &actionExpr{
-																				pos: position{line: 2474, col: 22, offset: 79626},
-																				run: (*parser).callonListContinuationElement853,
+																				pos: position{line: 2475, col: 22, offset: 79658},
+																				run: (*parser).callonListContinuationElement859,
 																				expr: &seqExpr{
-																					pos: position{line: 2474, col: 22, offset: 79626},
+																					pos: position{line: 2475, col: 22, offset: 79658},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2479, col: 31, offset: 79847},
+																							pos:        position{line: 2480, col: 31, offset: 79879},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
 																						},
 																						&notExpr{
-																							pos: position{line: 2479, col: 36, offset: 79852},
+																							pos: position{line: 2480, col: 36, offset: 79884},
 																							expr: &litMatcher{
-																								pos:        position{line: 2479, col: 37, offset: 79853},
+																								pos:        position{line: 2480, col: 37, offset: 79885},
 																								val:        "//",
 																								ignoreCase: false,
 																								want:       "\"//\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 2474, col: 49, offset: 79653},
+																							pos:   position{line: 2475, col: 49, offset: 79685},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2810, col: 13, offset: 89209},
-																								run: (*parser).callonListContinuationElement859,
+																								pos: position{line: 2811, col: 13, offset: 89241},
+																								run: (*parser).callonListContinuationElement865,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2810, col: 13, offset: 89209},
+																									pos: position{line: 2811, col: 13, offset: 89241},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2810, col: 13, offset: 89209},
+																										pos:        position{line: 2811, col: 13, offset: 89241},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -33567,28 +33707,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
-																									run: (*parser).callonListContinuationElement863,
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonListContinuationElement869,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33597,9 +33737,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -33613,7 +33753,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 990, col: 5, offset: 30957},
-																run: (*parser).callonListContinuationElement870,
+																run: (*parser).callonListContinuationElement876,
 																expr: &seqExpr{
 																	pos: position{line: 990, col: 5, offset: 30957},
 																	exprs: []interface{}{
@@ -33621,23 +33761,23 @@ var g = &grammar{
 																			pos: position{line: 990, col: 5, offset: 30957},
 																			expr: &actionExpr{
 																				pos: position{line: 677, col: 14, offset: 21489},
-																				run: (*parser).callonListContinuationElement873,
+																				run: (*parser).callonListContinuationElement879,
 																				expr: &seqExpr{
 																					pos: position{line: 677, col: 14, offset: 21489},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2881, col: 11, offset: 91017},
+																							pos: position{line: 2882, col: 11, offset: 91049},
 																							expr: &anyMatcher{
-																								line: 2881, col: 13, offset: 91019,
+																								line: 2882, col: 13, offset: 91051,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 677, col: 21, offset: 21496},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
-																								run: (*parser).callonListContinuationElement878,
+																								pos: position{line: 2865, col: 10, offset: 90715},
+																								run: (*parser).callonListContinuationElement884,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33646,28 +33786,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
-																									run: (*parser).callonListContinuationElement881,
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonListContinuationElement887,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33676,9 +33816,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -33697,12 +33837,12 @@ var g = &grammar{
 																			pos:   position{line: 992, col: 5, offset: 30982},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 2814, col: 14, offset: 89276},
-																				run: (*parser).callonListContinuationElement890,
+																				pos: position{line: 2815, col: 14, offset: 89308},
+																				run: (*parser).callonListContinuationElement896,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2814, col: 14, offset: 89276},
+																					pos: position{line: 2815, col: 14, offset: 89308},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2814, col: 14, offset: 89276},
+																						pos:        position{line: 2815, col: 14, offset: 89308},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -33712,28 +33852,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91081},
+																			pos: position{line: 2887, col: 8, offset: 91113},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90854},
-																					run: (*parser).callonListContinuationElement894,
+																					pos: position{line: 2874, col: 12, offset: 90886},
+																					run: (*parser).callonListContinuationElement900,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90855},
+																						pos: position{line: 2874, col: 13, offset: 90887},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90855},
+																								pos:        position{line: 2874, col: 13, offset: 90887},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90862},
+																								pos:        position{line: 2874, col: 20, offset: 90894},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90871},
+																								pos:        position{line: 2874, col: 29, offset: 90903},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -33742,9 +33882,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -33764,36 +33904,36 @@ var g = &grammar{
 															pos: position{line: 984, col: 17, offset: 30694},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2474, col: 22, offset: 79626},
-																	run: (*parser).callonListContinuationElement904,
+																	pos: position{line: 2475, col: 22, offset: 79658},
+																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 2474, col: 22, offset: 79626},
+																		pos: position{line: 2475, col: 22, offset: 79658},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2479, col: 31, offset: 79847},
+																				pos:        position{line: 2480, col: 31, offset: 79879},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2479, col: 36, offset: 79852},
+																				pos: position{line: 2480, col: 36, offset: 79884},
 																				expr: &litMatcher{
-																					pos:        position{line: 2479, col: 37, offset: 79853},
+																					pos:        position{line: 2480, col: 37, offset: 79885},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2474, col: 49, offset: 79653},
+																				pos:   position{line: 2475, col: 49, offset: 79685},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2810, col: 13, offset: 89209},
-																					run: (*parser).callonListContinuationElement910,
+																					pos: position{line: 2811, col: 13, offset: 89241},
+																					run: (*parser).callonListContinuationElement916,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2810, col: 13, offset: 89209},
+																						pos: position{line: 2811, col: 13, offset: 89241},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2810, col: 13, offset: 89209},
+																							pos:        position{line: 2811, col: 13, offset: 89241},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33803,28 +33943,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2886, col: 8, offset: 91081},
+																				pos: position{line: 2887, col: 8, offset: 91113},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2873, col: 12, offset: 90854},
-																						run: (*parser).callonListContinuationElement914,
+																						pos: position{line: 2874, col: 12, offset: 90886},
+																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2873, col: 13, offset: 90855},
+																							pos: position{line: 2874, col: 13, offset: 90887},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 13, offset: 90855},
+																									pos:        position{line: 2874, col: 13, offset: 90887},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 20, offset: 90862},
+																									pos:        position{line: 2874, col: 20, offset: 90894},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 29, offset: 90871},
+																									pos:        position{line: 2874, col: 29, offset: 90903},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33833,9 +33973,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 91031},
+																						pos: position{line: 2884, col: 8, offset: 91063},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 91032,
+																							line: 2884, col: 9, offset: 91064,
 																						},
 																					},
 																				},
@@ -33845,7 +33985,7 @@ var g = &grammar{
 																},
 																&actionExpr{
 																	pos: position{line: 996, col: 35, offset: 31099},
-																	run: (*parser).callonListContinuationElement921,
+																	run: (*parser).callonListContinuationElement927,
 																	expr: &seqExpr{
 																		pos: position{line: 996, col: 35, offset: 31099},
 																		exprs: []interface{}{
@@ -33859,36 +33999,36 @@ var g = &grammar{
 																				pos:   position{line: 996, col: 40, offset: 31104},
 																				label: "comment",
 																				expr: &actionExpr{
-																					pos: position{line: 2474, col: 22, offset: 79626},
-																					run: (*parser).callonListContinuationElement925,
+																					pos: position{line: 2475, col: 22, offset: 79658},
+																					run: (*parser).callonListContinuationElement931,
 																					expr: &seqExpr{
-																						pos: position{line: 2474, col: 22, offset: 79626},
+																						pos: position{line: 2475, col: 22, offset: 79658},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2479, col: 31, offset: 79847},
+																								pos:        position{line: 2480, col: 31, offset: 79879},
 																								val:        "//",
 																								ignoreCase: false,
 																								want:       "\"//\"",
 																							},
 																							&notExpr{
-																								pos: position{line: 2479, col: 36, offset: 79852},
+																								pos: position{line: 2480, col: 36, offset: 79884},
 																								expr: &litMatcher{
-																									pos:        position{line: 2479, col: 37, offset: 79853},
+																									pos:        position{line: 2480, col: 37, offset: 79885},
 																									val:        "//",
 																									ignoreCase: false,
 																									want:       "\"//\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 2474, col: 49, offset: 79653},
+																								pos:   position{line: 2475, col: 49, offset: 79685},
 																								label: "content",
 																								expr: &actionExpr{
-																									pos: position{line: 2810, col: 13, offset: 89209},
-																									run: (*parser).callonListContinuationElement931,
+																									pos: position{line: 2811, col: 13, offset: 89241},
+																									run: (*parser).callonListContinuationElement937,
 																									expr: &zeroOrMoreExpr{
-																										pos: position{line: 2810, col: 13, offset: 89209},
+																										pos: position{line: 2811, col: 13, offset: 89241},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2810, col: 13, offset: 89209},
+																											pos:        position{line: 2811, col: 13, offset: 89241},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -33898,28 +34038,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91081},
+																								pos: position{line: 2887, col: 8, offset: 91113},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90854},
-																										run: (*parser).callonListContinuationElement935,
+																										pos: position{line: 2874, col: 12, offset: 90886},
+																										run: (*parser).callonListContinuationElement941,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90855},
+																											pos: position{line: 2874, col: 13, offset: 90887},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90855},
+																													pos:        position{line: 2874, col: 13, offset: 90887},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90862},
+																													pos:        position{line: 2874, col: 20, offset: 90894},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90871},
+																													pos:        position{line: 2874, col: 29, offset: 90903},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -33928,9 +34068,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 91031},
+																										pos: position{line: 2884, col: 8, offset: 91063},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 91032,
+																											line: 2884, col: 9, offset: 91064,
 																										},
 																									},
 																								},
@@ -33944,7 +34084,7 @@ var g = &grammar{
 																},
 																&actionExpr{
 																	pos: position{line: 990, col: 5, offset: 30957},
-																	run: (*parser).callonListContinuationElement942,
+																	run: (*parser).callonListContinuationElement948,
 																	expr: &seqExpr{
 																		pos: position{line: 990, col: 5, offset: 30957},
 																		exprs: []interface{}{
@@ -33952,23 +34092,23 @@ var g = &grammar{
 																				pos: position{line: 990, col: 5, offset: 30957},
 																				expr: &actionExpr{
 																					pos: position{line: 677, col: 14, offset: 21489},
-																					run: (*parser).callonListContinuationElement945,
+																					run: (*parser).callonListContinuationElement951,
 																					expr: &seqExpr{
 																						pos: position{line: 677, col: 14, offset: 21489},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2881, col: 11, offset: 91017},
+																								pos: position{line: 2882, col: 11, offset: 91049},
 																								expr: &anyMatcher{
-																									line: 2881, col: 13, offset: 91019,
+																									line: 2882, col: 13, offset: 91051,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 677, col: 21, offset: 21496},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90683},
-																									run: (*parser).callonListContinuationElement950,
+																									pos: position{line: 2865, col: 10, offset: 90715},
+																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90683},
+																										pos:        position{line: 2865, col: 10, offset: 90715},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -33977,28 +34117,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91081},
+																								pos: position{line: 2887, col: 8, offset: 91113},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90854},
-																										run: (*parser).callonListContinuationElement953,
+																										pos: position{line: 2874, col: 12, offset: 90886},
+																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90855},
+																											pos: position{line: 2874, col: 13, offset: 90887},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90855},
+																													pos:        position{line: 2874, col: 13, offset: 90887},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90862},
+																													pos:        position{line: 2874, col: 20, offset: 90894},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90871},
+																													pos:        position{line: 2874, col: 29, offset: 90903},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34007,9 +34147,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 91031},
+																										pos: position{line: 2884, col: 8, offset: 91063},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 91032,
+																											line: 2884, col: 9, offset: 91064,
 																										},
 																									},
 																								},
@@ -34028,12 +34168,12 @@ var g = &grammar{
 																				pos:   position{line: 992, col: 5, offset: 30982},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2814, col: 14, offset: 89276},
-																					run: (*parser).callonListContinuationElement962,
+																					pos: position{line: 2815, col: 14, offset: 89308},
+																					run: (*parser).callonListContinuationElement968,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2814, col: 14, offset: 89276},
+																						pos: position{line: 2815, col: 14, offset: 89308},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2814, col: 14, offset: 89276},
+																							pos:        position{line: 2815, col: 14, offset: 89308},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34043,28 +34183,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2886, col: 8, offset: 91081},
+																				pos: position{line: 2887, col: 8, offset: 91113},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2873, col: 12, offset: 90854},
-																						run: (*parser).callonListContinuationElement966,
+																						pos: position{line: 2874, col: 12, offset: 90886},
+																						run: (*parser).callonListContinuationElement972,
 																						expr: &choiceExpr{
-																							pos: position{line: 2873, col: 13, offset: 90855},
+																							pos: position{line: 2874, col: 13, offset: 90887},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 13, offset: 90855},
+																									pos:        position{line: 2874, col: 13, offset: 90887},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 20, offset: 90862},
+																									pos:        position{line: 2874, col: 20, offset: 90894},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 29, offset: 90871},
+																									pos:        position{line: 2874, col: 29, offset: 90903},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34073,9 +34213,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 91031},
+																						pos: position{line: 2884, col: 8, offset: 91063},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 91032,
+																							line: 2884, col: 9, offset: 91064,
 																						},
 																					},
 																				},
@@ -34084,21 +34224,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1796, col: 5, offset: 58007},
-																	run: (*parser).callonListContinuationElement973,
+																	pos: position{line: 1797, col: 5, offset: 58039},
+																	run: (*parser).callonListContinuationElement979,
 																	expr: &seqExpr{
-																		pos: position{line: 1796, col: 5, offset: 58007},
+																		pos: position{line: 1797, col: 5, offset: 58039},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1796, col: 5, offset: 58007},
+																				pos:   position{line: 1797, col: 5, offset: 58039},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2814, col: 14, offset: 89276},
-																					run: (*parser).callonListContinuationElement976,
+																					pos: position{line: 2815, col: 14, offset: 89308},
+																					run: (*parser).callonListContinuationElement982,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2814, col: 14, offset: 89276},
+																						pos: position{line: 2815, col: 14, offset: 89308},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2814, col: 14, offset: 89276},
+																							pos:        position{line: 2815, col: 14, offset: 89308},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34108,32 +34248,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1797, col: 5, offset: 58031},
-																				run: (*parser).callonListContinuationElement979,
+																				pos: position{line: 1798, col: 5, offset: 58063},
+																				run: (*parser).callonListContinuationElement985,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2886, col: 8, offset: 91081},
+																				pos: position{line: 2887, col: 8, offset: 91113},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2873, col: 12, offset: 90854},
-																						run: (*parser).callonListContinuationElement981,
+																						pos: position{line: 2874, col: 12, offset: 90886},
+																						run: (*parser).callonListContinuationElement987,
 																						expr: &choiceExpr{
-																							pos: position{line: 2873, col: 13, offset: 90855},
+																							pos: position{line: 2874, col: 13, offset: 90887},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 13, offset: 90855},
+																									pos:        position{line: 2874, col: 13, offset: 90887},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 20, offset: 90862},
+																									pos:        position{line: 2874, col: 20, offset: 90894},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 29, offset: 90871},
+																									pos:        position{line: 2874, col: 29, offset: 90903},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34142,9 +34282,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 91031},
+																						pos: position{line: 2884, col: 8, offset: 91063},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 91032,
+																							line: 2884, col: 9, offset: 91064,
 																						},
 																					},
 																				},
@@ -34161,7 +34301,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1009, col: 5, offset: 31351},
-										run: (*parser).callonListContinuationElement988,
+										run: (*parser).callonListContinuationElement994,
 										expr: &seqExpr{
 											pos: position{line: 1009, col: 5, offset: 31351},
 											exprs: []interface{}{
@@ -34170,7 +34310,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 776, col: 5, offset: 24861},
-														run: (*parser).callonListContinuationElement991,
+														run: (*parser).callonListContinuationElement997,
 														expr: &seqExpr{
 															pos: position{line: 776, col: 5, offset: 24861},
 															exprs: []interface{}{
@@ -34179,7 +34319,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 776, col: 16, offset: 24872},
-																		run: (*parser).callonListContinuationElement994,
+																		run: (*parser).callonListContinuationElement1000,
 																		expr: &litMatcher{
 																			pos:        position{line: 776, col: 16, offset: 24872},
 																			val:        "--",
@@ -34191,10 +34331,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 778, col: 8, offset: 24949},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90683},
-																		run: (*parser).callonListContinuationElement997,
+																		pos: position{line: 2865, col: 10, offset: 90715},
+																		run: (*parser).callonListContinuationElement1003,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90683},
+																			pos:        position{line: 2865, col: 10, offset: 90715},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34203,28 +34343,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
-																			run: (*parser).callonListContinuationElement1000,
+																			pos: position{line: 2874, col: 12, offset: 90886},
+																			run: (*parser).callonListContinuationElement1006,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34233,9 +34373,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -34251,7 +34391,7 @@ var g = &grammar{
 														pos: position{line: 1020, col: 5, offset: 31655},
 														expr: &actionExpr{
 															pos: position{line: 1020, col: 6, offset: 31656},
-															run: (*parser).callonListContinuationElement1009,
+															run: (*parser).callonListContinuationElement1015,
 															expr: &seqExpr{
 																pos: position{line: 1020, col: 6, offset: 31656},
 																exprs: []interface{}{
@@ -34262,7 +34402,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 776, col: 5, offset: 24861},
-																					run: (*parser).callonListContinuationElement1013,
+																					run: (*parser).callonListContinuationElement1019,
 																					expr: &seqExpr{
 																						pos: position{line: 776, col: 5, offset: 24861},
 																						exprs: []interface{}{
@@ -34271,7 +34411,7 @@ var g = &grammar{
 																								label: "delimiter",
 																								expr: &actionExpr{
 																									pos: position{line: 776, col: 16, offset: 24872},
-																									run: (*parser).callonListContinuationElement1016,
+																									run: (*parser).callonListContinuationElement1022,
 																									expr: &litMatcher{
 																										pos:        position{line: 776, col: 16, offset: 24872},
 																										val:        "--",
@@ -34283,10 +34423,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 778, col: 8, offset: 24949},
 																								expr: &actionExpr{
-																									pos: position{line: 2864, col: 10, offset: 90683},
-																									run: (*parser).callonListContinuationElement1019,
+																									pos: position{line: 2865, col: 10, offset: 90715},
+																									run: (*parser).callonListContinuationElement1025,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2864, col: 10, offset: 90683},
+																										pos:        position{line: 2865, col: 10, offset: 90715},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34295,28 +34435,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2886, col: 8, offset: 91081},
+																								pos: position{line: 2887, col: 8, offset: 91113},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2873, col: 12, offset: 90854},
-																										run: (*parser).callonListContinuationElement1022,
+																										pos: position{line: 2874, col: 12, offset: 90886},
+																										run: (*parser).callonListContinuationElement1028,
 																										expr: &choiceExpr{
-																											pos: position{line: 2873, col: 13, offset: 90855},
+																											pos: position{line: 2874, col: 13, offset: 90887},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 13, offset: 90855},
+																													pos:        position{line: 2874, col: 13, offset: 90887},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 20, offset: 90862},
+																													pos:        position{line: 2874, col: 20, offset: 90894},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2873, col: 29, offset: 90871},
+																													pos:        position{line: 2874, col: 29, offset: 90903},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34325,9 +34465,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2883, col: 8, offset: 91031},
+																										pos: position{line: 2884, col: 8, offset: 91063},
 																										expr: &anyMatcher{
-																											line: 2883, col: 9, offset: 91032,
+																											line: 2884, col: 9, offset: 91064,
 																										},
 																									},
 																								},
@@ -34336,9 +34476,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -34349,26 +34489,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement1032,
+																			run: (*parser).callonListContinuationElement1038,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2881, col: 11, offset: 91017},
+																						pos: position{line: 2882, col: 11, offset: 91049},
 																						expr: &anyMatcher{
-																							line: 2881, col: 13, offset: 91019,
+																							line: 2882, col: 13, offset: 91051,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2810, col: 13, offset: 89209},
-																							run: (*parser).callonListContinuationElement1037,
+																							pos: position{line: 2811, col: 13, offset: 89241},
+																							run: (*parser).callonListContinuationElement1043,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2810, col: 13, offset: 89209},
+																								pos: position{line: 2811, col: 13, offset: 89241},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2810, col: 13, offset: 89209},
+																									pos:        position{line: 2811, col: 13, offset: 89241},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34378,28 +34518,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91081},
+																						pos: position{line: 2887, col: 8, offset: 91113},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90854},
-																								run: (*parser).callonListContinuationElement1041,
+																								pos: position{line: 2874, col: 12, offset: 90886},
+																								run: (*parser).callonListContinuationElement1047,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90855},
+																									pos: position{line: 2874, col: 13, offset: 90887},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90855},
+																											pos:        position{line: 2874, col: 13, offset: 90887},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90862},
+																											pos:        position{line: 2874, col: 20, offset: 90894},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90871},
+																											pos:        position{line: 2874, col: 29, offset: 90903},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34408,9 +34548,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 91031},
+																								pos: position{line: 2884, col: 8, offset: 91063},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 91032,
+																									line: 2884, col: 9, offset: 91064,
 																								},
 																							},
 																						},
@@ -34434,7 +34574,7 @@ var g = &grammar{
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 776, col: 5, offset: 24861},
-																	run: (*parser).callonListContinuationElement1051,
+																	run: (*parser).callonListContinuationElement1057,
 																	expr: &seqExpr{
 																		pos: position{line: 776, col: 5, offset: 24861},
 																		exprs: []interface{}{
@@ -34443,7 +34583,7 @@ var g = &grammar{
 																				label: "delimiter",
 																				expr: &actionExpr{
 																					pos: position{line: 776, col: 16, offset: 24872},
-																					run: (*parser).callonListContinuationElement1054,
+																					run: (*parser).callonListContinuationElement1060,
 																					expr: &litMatcher{
 																						pos:        position{line: 776, col: 16, offset: 24872},
 																						val:        "--",
@@ -34455,10 +34595,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 778, col: 8, offset: 24949},
 																				expr: &actionExpr{
-																					pos: position{line: 2864, col: 10, offset: 90683},
-																					run: (*parser).callonListContinuationElement1057,
+																					pos: position{line: 2865, col: 10, offset: 90715},
+																					run: (*parser).callonListContinuationElement1063,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2864, col: 10, offset: 90683},
+																						pos:        position{line: 2865, col: 10, offset: 90715},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34467,28 +34607,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2886, col: 8, offset: 91081},
+																				pos: position{line: 2887, col: 8, offset: 91113},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2873, col: 12, offset: 90854},
-																						run: (*parser).callonListContinuationElement1060,
+																						pos: position{line: 2874, col: 12, offset: 90886},
+																						run: (*parser).callonListContinuationElement1066,
 																						expr: &choiceExpr{
-																							pos: position{line: 2873, col: 13, offset: 90855},
+																							pos: position{line: 2874, col: 13, offset: 90887},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 13, offset: 90855},
+																									pos:        position{line: 2874, col: 13, offset: 90887},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 20, offset: 90862},
+																									pos:        position{line: 2874, col: 20, offset: 90894},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 29, offset: 90871},
+																									pos:        position{line: 2874, col: 29, offset: 90903},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34497,9 +34637,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 91031},
+																						pos: position{line: 2884, col: 8, offset: 91063},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 91032,
+																							line: 2884, col: 9, offset: 91064,
 																						},
 																					},
 																				},
@@ -34508,9 +34648,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2883, col: 8, offset: 91031},
+																	pos: position{line: 2884, col: 8, offset: 91063},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 91032,
+																		line: 2884, col: 9, offset: 91064,
 																	},
 																},
 															},
@@ -34522,7 +34662,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1029, col: 5, offset: 31846},
-										run: (*parser).callonListContinuationElement1069,
+										run: (*parser).callonListContinuationElement1075,
 										expr: &seqExpr{
 											pos: position{line: 1029, col: 5, offset: 31846},
 											exprs: []interface{}{
@@ -34531,7 +34671,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 790, col: 5, offset: 25344},
-														run: (*parser).callonListContinuationElement1072,
+														run: (*parser).callonListContinuationElement1078,
 														expr: &seqExpr{
 															pos: position{line: 790, col: 5, offset: 25344},
 															exprs: []interface{}{
@@ -34540,7 +34680,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 790, col: 16, offset: 25355},
-																		run: (*parser).callonListContinuationElement1075,
+																		run: (*parser).callonListContinuationElement1081,
 																		expr: &seqExpr{
 																			pos: position{line: 790, col: 16, offset: 25355},
 																			exprs: []interface{}{
@@ -34566,10 +34706,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 792, col: 8, offset: 25446},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90683},
-																		run: (*parser).callonListContinuationElement1081,
+																		pos: position{line: 2865, col: 10, offset: 90715},
+																		run: (*parser).callonListContinuationElement1087,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90683},
+																			pos:        position{line: 2865, col: 10, offset: 90715},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34578,28 +34718,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
-																			run: (*parser).callonListContinuationElement1084,
+																			pos: position{line: 2874, col: 12, offset: 90886},
+																			run: (*parser).callonListContinuationElement1090,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34608,9 +34748,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -34621,7 +34761,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1030, col: 5, offset: 31889},
-													run: (*parser).callonListContinuationElement1091,
+													run: (*parser).callonListContinuationElement1097,
 												},
 												&labeledExpr{
 													pos:   position{line: 1033, col: 5, offset: 31981},
@@ -34630,7 +34770,7 @@ var g = &grammar{
 														pos: position{line: 1048, col: 5, offset: 32411},
 														expr: &actionExpr{
 															pos: position{line: 1048, col: 6, offset: 32412},
-															run: (*parser).callonListContinuationElement1094,
+															run: (*parser).callonListContinuationElement1100,
 															expr: &seqExpr{
 																pos: position{line: 1048, col: 6, offset: 32412},
 																exprs: []interface{}{
@@ -34647,7 +34787,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 790, col: 5, offset: 25344},
-																								run: (*parser).callonListContinuationElement1100,
+																								run: (*parser).callonListContinuationElement1106,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 5, offset: 25344},
 																									exprs: []interface{}{
@@ -34656,7 +34796,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 790, col: 16, offset: 25355},
-																												run: (*parser).callonListContinuationElement1103,
+																												run: (*parser).callonListContinuationElement1109,
 																												expr: &seqExpr{
 																													pos: position{line: 790, col: 16, offset: 25355},
 																													exprs: []interface{}{
@@ -34682,10 +34822,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25446},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90683},
-																												run: (*parser).callonListContinuationElement1109,
+																												pos: position{line: 2865, col: 10, offset: 90715},
+																												run: (*parser).callonListContinuationElement1115,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90683},
+																													pos:        position{line: 2865, col: 10, offset: 90715},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34694,28 +34834,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91081},
+																											pos: position{line: 2887, col: 8, offset: 91113},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90854},
-																													run: (*parser).callonListContinuationElement1112,
+																													pos: position{line: 2874, col: 12, offset: 90886},
+																													run: (*parser).callonListContinuationElement1118,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90855},
+																														pos: position{line: 2874, col: 13, offset: 90887},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90855},
+																																pos:        position{line: 2874, col: 13, offset: 90887},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90862},
+																																pos:        position{line: 2874, col: 20, offset: 90894},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90871},
+																																pos:        position{line: 2874, col: 29, offset: 90903},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34724,9 +34864,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 91031},
+																													pos: position{line: 2884, col: 8, offset: 91063},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 91032,
+																														line: 2884, col: 9, offset: 91064,
 																													},
 																												},
 																											},
@@ -34737,14 +34877,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1042, col: 5, offset: 32280},
-																							run: (*parser).callonListContinuationElement1119,
+																							run: (*parser).callonListContinuationElement1125,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -34755,26 +34895,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement1123,
+																			run: (*parser).callonListContinuationElement1129,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2881, col: 11, offset: 91017},
+																						pos: position{line: 2882, col: 11, offset: 91049},
 																						expr: &anyMatcher{
-																							line: 2881, col: 13, offset: 91019,
+																							line: 2882, col: 13, offset: 91051,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2810, col: 13, offset: 89209},
-																							run: (*parser).callonListContinuationElement1128,
+																							pos: position{line: 2811, col: 13, offset: 89241},
+																							run: (*parser).callonListContinuationElement1134,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2810, col: 13, offset: 89209},
+																								pos: position{line: 2811, col: 13, offset: 89241},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2810, col: 13, offset: 89209},
+																									pos:        position{line: 2811, col: 13, offset: 89241},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34784,28 +34924,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91081},
+																						pos: position{line: 2887, col: 8, offset: 91113},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90854},
-																								run: (*parser).callonListContinuationElement1132,
+																								pos: position{line: 2874, col: 12, offset: 90886},
+																								run: (*parser).callonListContinuationElement1138,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90855},
+																									pos: position{line: 2874, col: 13, offset: 90887},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90855},
+																											pos:        position{line: 2874, col: 13, offset: 90887},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90862},
+																											pos:        position{line: 2874, col: 20, offset: 90894},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90871},
+																											pos:        position{line: 2874, col: 29, offset: 90903},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34814,9 +34954,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 91031},
+																								pos: position{line: 2884, col: 8, offset: 91063},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 91032,
+																									line: 2884, col: 9, offset: 91064,
 																								},
 																							},
 																						},
@@ -34846,7 +34986,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 790, col: 5, offset: 25344},
-																				run: (*parser).callonListContinuationElement1144,
+																				run: (*parser).callonListContinuationElement1150,
 																				expr: &seqExpr{
 																					pos: position{line: 790, col: 5, offset: 25344},
 																					exprs: []interface{}{
@@ -34855,7 +34995,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 790, col: 16, offset: 25355},
-																								run: (*parser).callonListContinuationElement1147,
+																								run: (*parser).callonListContinuationElement1153,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 16, offset: 25355},
 																									exprs: []interface{}{
@@ -34881,10 +35021,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 792, col: 8, offset: 25446},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
-																								run: (*parser).callonListContinuationElement1153,
+																								pos: position{line: 2865, col: 10, offset: 90715},
+																								run: (*parser).callonListContinuationElement1159,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34893,28 +35033,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
-																									run: (*parser).callonListContinuationElement1156,
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonListContinuationElement1162,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34923,9 +35063,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -34936,14 +35076,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 1042, col: 5, offset: 32280},
-																			run: (*parser).callonListContinuationElement1163,
+																			run: (*parser).callonListContinuationElement1169,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2883, col: 8, offset: 91031},
+																	pos: position{line: 2884, col: 8, offset: 91063},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 91032,
+																		line: 2884, col: 9, offset: 91064,
 																	},
 																},
 															},
@@ -34955,7 +35095,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1057, col: 5, offset: 32597},
-										run: (*parser).callonListContinuationElement1166,
+										run: (*parser).callonListContinuationElement1172,
 										expr: &seqExpr{
 											pos: position{line: 1057, col: 5, offset: 32597},
 											exprs: []interface{}{
@@ -34964,7 +35104,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 797, col: 5, offset: 25594},
-														run: (*parser).callonListContinuationElement1169,
+														run: (*parser).callonListContinuationElement1175,
 														expr: &seqExpr{
 															pos: position{line: 797, col: 5, offset: 25594},
 															exprs: []interface{}{
@@ -34973,7 +35113,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 797, col: 16, offset: 25605},
-																		run: (*parser).callonListContinuationElement1172,
+																		run: (*parser).callonListContinuationElement1178,
 																		expr: &seqExpr{
 																			pos: position{line: 797, col: 16, offset: 25605},
 																			exprs: []interface{}{
@@ -34999,10 +35139,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 799, col: 8, offset: 25696},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90683},
-																		run: (*parser).callonListContinuationElement1178,
+																		pos: position{line: 2865, col: 10, offset: 90715},
+																		run: (*parser).callonListContinuationElement1184,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90683},
+																			pos:        position{line: 2865, col: 10, offset: 90715},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35011,28 +35151,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
-																			run: (*parser).callonListContinuationElement1181,
+																			pos: position{line: 2874, col: 12, offset: 90886},
+																			run: (*parser).callonListContinuationElement1187,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35041,9 +35181,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -35054,7 +35194,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1058, col: 5, offset: 32634},
-													run: (*parser).callonListContinuationElement1188,
+													run: (*parser).callonListContinuationElement1194,
 												},
 												&labeledExpr{
 													pos:   position{line: 1061, col: 5, offset: 32726},
@@ -35063,7 +35203,7 @@ var g = &grammar{
 														pos: position{line: 1076, col: 4, offset: 33107},
 														expr: &actionExpr{
 															pos: position{line: 1076, col: 5, offset: 33108},
-															run: (*parser).callonListContinuationElement1191,
+															run: (*parser).callonListContinuationElement1197,
 															expr: &seqExpr{
 																pos: position{line: 1076, col: 5, offset: 33108},
 																exprs: []interface{}{
@@ -35080,7 +35220,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 797, col: 5, offset: 25594},
-																								run: (*parser).callonListContinuationElement1197,
+																								run: (*parser).callonListContinuationElement1203,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 5, offset: 25594},
 																									exprs: []interface{}{
@@ -35089,7 +35229,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 797, col: 16, offset: 25605},
-																												run: (*parser).callonListContinuationElement1200,
+																												run: (*parser).callonListContinuationElement1206,
 																												expr: &seqExpr{
 																													pos: position{line: 797, col: 16, offset: 25605},
 																													exprs: []interface{}{
@@ -35115,10 +35255,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25696},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90683},
-																												run: (*parser).callonListContinuationElement1206,
+																												pos: position{line: 2865, col: 10, offset: 90715},
+																												run: (*parser).callonListContinuationElement1212,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90683},
+																													pos:        position{line: 2865, col: 10, offset: 90715},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35127,28 +35267,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91081},
+																											pos: position{line: 2887, col: 8, offset: 91113},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90854},
-																													run: (*parser).callonListContinuationElement1209,
+																													pos: position{line: 2874, col: 12, offset: 90886},
+																													run: (*parser).callonListContinuationElement1215,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90855},
+																														pos: position{line: 2874, col: 13, offset: 90887},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90855},
+																																pos:        position{line: 2874, col: 13, offset: 90887},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90862},
+																																pos:        position{line: 2874, col: 20, offset: 90894},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90871},
+																																pos:        position{line: 2874, col: 29, offset: 90903},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35157,9 +35297,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 91031},
+																													pos: position{line: 2884, col: 8, offset: 91063},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 91032,
+																														line: 2884, col: 9, offset: 91064,
 																													},
 																												},
 																											},
@@ -35170,14 +35310,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1070, col: 5, offset: 32983},
-																							run: (*parser).callonListContinuationElement1216,
+																							run: (*parser).callonListContinuationElement1222,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -35188,26 +35328,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement1220,
+																			run: (*parser).callonListContinuationElement1226,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2881, col: 11, offset: 91017},
+																						pos: position{line: 2882, col: 11, offset: 91049},
 																						expr: &anyMatcher{
-																							line: 2881, col: 13, offset: 91019,
+																							line: 2882, col: 13, offset: 91051,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2810, col: 13, offset: 89209},
-																							run: (*parser).callonListContinuationElement1225,
+																							pos: position{line: 2811, col: 13, offset: 89241},
+																							run: (*parser).callonListContinuationElement1231,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2810, col: 13, offset: 89209},
+																								pos: position{line: 2811, col: 13, offset: 89241},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2810, col: 13, offset: 89209},
+																									pos:        position{line: 2811, col: 13, offset: 89241},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35217,28 +35357,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91081},
+																						pos: position{line: 2887, col: 8, offset: 91113},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90854},
-																								run: (*parser).callonListContinuationElement1229,
+																								pos: position{line: 2874, col: 12, offset: 90886},
+																								run: (*parser).callonListContinuationElement1235,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90855},
+																									pos: position{line: 2874, col: 13, offset: 90887},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90855},
+																											pos:        position{line: 2874, col: 13, offset: 90887},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90862},
+																											pos:        position{line: 2874, col: 20, offset: 90894},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90871},
+																											pos:        position{line: 2874, col: 29, offset: 90903},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35247,9 +35387,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 91031},
+																								pos: position{line: 2884, col: 8, offset: 91063},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 91032,
+																									line: 2884, col: 9, offset: 91064,
 																								},
 																							},
 																						},
@@ -35279,7 +35419,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 797, col: 5, offset: 25594},
-																				run: (*parser).callonListContinuationElement1241,
+																				run: (*parser).callonListContinuationElement1247,
 																				expr: &seqExpr{
 																					pos: position{line: 797, col: 5, offset: 25594},
 																					exprs: []interface{}{
@@ -35288,7 +35428,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 797, col: 16, offset: 25605},
-																								run: (*parser).callonListContinuationElement1244,
+																								run: (*parser).callonListContinuationElement1250,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 16, offset: 25605},
 																									exprs: []interface{}{
@@ -35314,10 +35454,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25696},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
-																								run: (*parser).callonListContinuationElement1250,
+																								pos: position{line: 2865, col: 10, offset: 90715},
+																								run: (*parser).callonListContinuationElement1256,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35326,28 +35466,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
-																									run: (*parser).callonListContinuationElement1253,
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonListContinuationElement1259,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35356,9 +35496,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -35369,14 +35509,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 1070, col: 5, offset: 32983},
-																			run: (*parser).callonListContinuationElement1260,
+																			run: (*parser).callonListContinuationElement1266,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2883, col: 8, offset: 91031},
+																	pos: position{line: 2884, col: 8, offset: 91063},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 91032,
+																		line: 2884, col: 9, offset: 91064,
 																	},
 																},
 															},
@@ -35388,7 +35528,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1085, col: 5, offset: 33291},
-										run: (*parser).callonListContinuationElement1263,
+										run: (*parser).callonListContinuationElement1269,
 										expr: &seqExpr{
 											pos: position{line: 1085, col: 5, offset: 33291},
 											exprs: []interface{}{
@@ -35397,7 +35537,7 @@ var g = &grammar{
 													label: "start",
 													expr: &actionExpr{
 														pos: position{line: 804, col: 5, offset: 25840},
-														run: (*parser).callonListContinuationElement1266,
+														run: (*parser).callonListContinuationElement1272,
 														expr: &seqExpr{
 															pos: position{line: 804, col: 5, offset: 25840},
 															exprs: []interface{}{
@@ -35406,7 +35546,7 @@ var g = &grammar{
 																	label: "delimiter",
 																	expr: &actionExpr{
 																		pos: position{line: 804, col: 16, offset: 25851},
-																		run: (*parser).callonListContinuationElement1269,
+																		run: (*parser).callonListContinuationElement1275,
 																		expr: &seqExpr{
 																			pos: position{line: 804, col: 16, offset: 25851},
 																			exprs: []interface{}{
@@ -35432,10 +35572,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 806, col: 8, offset: 25942},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90683},
-																		run: (*parser).callonListContinuationElement1275,
+																		pos: position{line: 2865, col: 10, offset: 90715},
+																		run: (*parser).callonListContinuationElement1281,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90683},
+																			pos:        position{line: 2865, col: 10, offset: 90715},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35444,28 +35584,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
-																			run: (*parser).callonListContinuationElement1278,
+																			pos: position{line: 2874, col: 12, offset: 90886},
+																			run: (*parser).callonListContinuationElement1284,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35474,9 +35614,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -35487,7 +35627,7 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1086, col: 5, offset: 33330},
-													run: (*parser).callonListContinuationElement1285,
+													run: (*parser).callonListContinuationElement1291,
 												},
 												&labeledExpr{
 													pos:   position{line: 1089, col: 5, offset: 33422},
@@ -35496,7 +35636,7 @@ var g = &grammar{
 														pos: position{line: 1104, col: 4, offset: 33819},
 														expr: &actionExpr{
 															pos: position{line: 1104, col: 5, offset: 33820},
-															run: (*parser).callonListContinuationElement1288,
+															run: (*parser).callonListContinuationElement1294,
 															expr: &seqExpr{
 																pos: position{line: 1104, col: 5, offset: 33820},
 																exprs: []interface{}{
@@ -35513,7 +35653,7 @@ var g = &grammar{
 																							label: "end",
 																							expr: &actionExpr{
 																								pos: position{line: 804, col: 5, offset: 25840},
-																								run: (*parser).callonListContinuationElement1294,
+																								run: (*parser).callonListContinuationElement1300,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 5, offset: 25840},
 																									exprs: []interface{}{
@@ -35522,7 +35662,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 804, col: 16, offset: 25851},
-																												run: (*parser).callonListContinuationElement1297,
+																												run: (*parser).callonListContinuationElement1303,
 																												expr: &seqExpr{
 																													pos: position{line: 804, col: 16, offset: 25851},
 																													exprs: []interface{}{
@@ -35548,10 +35688,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25942},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90683},
-																												run: (*parser).callonListContinuationElement1303,
+																												pos: position{line: 2865, col: 10, offset: 90715},
+																												run: (*parser).callonListContinuationElement1309,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90683},
+																													pos:        position{line: 2865, col: 10, offset: 90715},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35560,28 +35700,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91081},
+																											pos: position{line: 2887, col: 8, offset: 91113},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90854},
-																													run: (*parser).callonListContinuationElement1306,
+																													pos: position{line: 2874, col: 12, offset: 90886},
+																													run: (*parser).callonListContinuationElement1312,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90855},
+																														pos: position{line: 2874, col: 13, offset: 90887},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90855},
+																																pos:        position{line: 2874, col: 13, offset: 90887},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90862},
+																																pos:        position{line: 2874, col: 20, offset: 90894},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90871},
+																																pos:        position{line: 2874, col: 29, offset: 90903},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35590,9 +35730,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 91031},
+																													pos: position{line: 2884, col: 8, offset: 91063},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 91032,
+																														line: 2884, col: 9, offset: 91064,
 																													},
 																												},
 																											},
@@ -35603,14 +35743,14 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1098, col: 5, offset: 33693},
-																							run: (*parser).callonListContinuationElement1313,
+																							run: (*parser).callonListContinuationElement1319,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -35621,26 +35761,26 @@ var g = &grammar{
 																		label: "line",
 																		expr: &actionExpr{
 																			pos: position{line: 811, col: 5, offset: 26088},
-																			run: (*parser).callonListContinuationElement1317,
+																			run: (*parser).callonListContinuationElement1323,
 																			expr: &seqExpr{
 																				pos: position{line: 811, col: 5, offset: 26088},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2881, col: 11, offset: 91017},
+																						pos: position{line: 2882, col: 11, offset: 91049},
 																						expr: &anyMatcher{
-																							line: 2881, col: 13, offset: 91019,
+																							line: 2882, col: 13, offset: 91051,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 812, col: 5, offset: 26163},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2810, col: 13, offset: 89209},
-																							run: (*parser).callonListContinuationElement1322,
+																							pos: position{line: 2811, col: 13, offset: 89241},
+																							run: (*parser).callonListContinuationElement1328,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2810, col: 13, offset: 89209},
+																								pos: position{line: 2811, col: 13, offset: 89241},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2810, col: 13, offset: 89209},
+																									pos:        position{line: 2811, col: 13, offset: 89241},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35650,28 +35790,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91081},
+																						pos: position{line: 2887, col: 8, offset: 91113},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90854},
-																								run: (*parser).callonListContinuationElement1326,
+																								pos: position{line: 2874, col: 12, offset: 90886},
+																								run: (*parser).callonListContinuationElement1332,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90855},
+																									pos: position{line: 2874, col: 13, offset: 90887},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90855},
+																											pos:        position{line: 2874, col: 13, offset: 90887},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90862},
+																											pos:        position{line: 2874, col: 20, offset: 90894},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90871},
+																											pos:        position{line: 2874, col: 29, offset: 90903},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35680,9 +35820,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 91031},
+																								pos: position{line: 2884, col: 8, offset: 91063},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 91032,
+																									line: 2884, col: 9, offset: 91064,
 																								},
 																							},
 																						},
@@ -35712,7 +35852,7 @@ var g = &grammar{
 																			label: "end",
 																			expr: &actionExpr{
 																				pos: position{line: 804, col: 5, offset: 25840},
-																				run: (*parser).callonListContinuationElement1338,
+																				run: (*parser).callonListContinuationElement1344,
 																				expr: &seqExpr{
 																					pos: position{line: 804, col: 5, offset: 25840},
 																					exprs: []interface{}{
@@ -35721,7 +35861,7 @@ var g = &grammar{
 																							label: "delimiter",
 																							expr: &actionExpr{
 																								pos: position{line: 804, col: 16, offset: 25851},
-																								run: (*parser).callonListContinuationElement1341,
+																								run: (*parser).callonListContinuationElement1347,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 16, offset: 25851},
 																									exprs: []interface{}{
@@ -35747,10 +35887,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25942},
 																							expr: &actionExpr{
-																								pos: position{line: 2864, col: 10, offset: 90683},
-																								run: (*parser).callonListContinuationElement1347,
+																								pos: position{line: 2865, col: 10, offset: 90715},
+																								run: (*parser).callonListContinuationElement1353,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2864, col: 10, offset: 90683},
+																									pos:        position{line: 2865, col: 10, offset: 90715},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35759,28 +35899,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2886, col: 8, offset: 91081},
+																							pos: position{line: 2887, col: 8, offset: 91113},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2873, col: 12, offset: 90854},
-																									run: (*parser).callonListContinuationElement1350,
+																									pos: position{line: 2874, col: 12, offset: 90886},
+																									run: (*parser).callonListContinuationElement1356,
 																									expr: &choiceExpr{
-																										pos: position{line: 2873, col: 13, offset: 90855},
+																										pos: position{line: 2874, col: 13, offset: 90887},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 13, offset: 90855},
+																												pos:        position{line: 2874, col: 13, offset: 90887},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 20, offset: 90862},
+																												pos:        position{line: 2874, col: 20, offset: 90894},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2873, col: 29, offset: 90871},
+																												pos:        position{line: 2874, col: 29, offset: 90903},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35789,9 +35929,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2883, col: 8, offset: 91031},
+																									pos: position{line: 2884, col: 8, offset: 91063},
 																									expr: &anyMatcher{
-																										line: 2883, col: 9, offset: 91032,
+																										line: 2884, col: 9, offset: 91064,
 																									},
 																								},
 																							},
@@ -35802,14 +35942,14 @@ var g = &grammar{
 																		},
 																		&andCodeExpr{
 																			pos: position{line: 1098, col: 5, offset: 33693},
-																			run: (*parser).callonListContinuationElement1357,
+																			run: (*parser).callonListContinuationElement1363,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2883, col: 8, offset: 91031},
+																	pos: position{line: 2884, col: 8, offset: 91063},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 91032,
+																		line: 2884, col: 9, offset: 91064,
 																	},
 																},
 															},
@@ -35820,52 +35960,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2709, col: 18, offset: 86273},
-										run: (*parser).callonListContinuationElement1360,
+										pos: position{line: 2710, col: 18, offset: 86305},
+										run: (*parser).callonListContinuationElement1366,
 										expr: &seqExpr{
-											pos: position{line: 2709, col: 18, offset: 86273},
+											pos: position{line: 2710, col: 18, offset: 86305},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2710, col: 9, offset: 86283},
+													pos: position{line: 2711, col: 9, offset: 86315},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2710, col: 9, offset: 86283},
+															pos:        position{line: 2711, col: 9, offset: 86315},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2711, col: 11, offset: 86319},
+															pos:        position{line: 2712, col: 11, offset: 86351},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2711, col: 19, offset: 86327},
+															pos:        position{line: 2712, col: 19, offset: 86359},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2711, col: 29, offset: 86337},
+															pos:        position{line: 2712, col: 29, offset: 86369},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2711, col: 37, offset: 86345},
+															pos:        position{line: 2712, col: 37, offset: 86377},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2711, col: 47, offset: 86355},
+															pos:        position{line: 2712, col: 47, offset: 86387},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2711, col: 55, offset: 86363},
+															pos:        position{line: 2712, col: 55, offset: 86395},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -35873,12 +36013,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2712, col: 11, offset: 86421},
+													pos: position{line: 2713, col: 11, offset: 86453},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90683},
-														run: (*parser).callonListContinuationElement1371,
+														pos: position{line: 2865, col: 10, offset: 90715},
+														run: (*parser).callonListContinuationElement1377,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90683},
+															pos:        position{line: 2865, col: 10, offset: 90715},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35887,28 +36027,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91081},
+													pos: position{line: 2887, col: 8, offset: 91113},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90854},
-															run: (*parser).callonListContinuationElement1374,
+															pos: position{line: 2874, col: 12, offset: 90886},
+															run: (*parser).callonListContinuationElement1380,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90855},
+																pos: position{line: 2874, col: 13, offset: 90887},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90855},
+																		pos:        position{line: 2874, col: 13, offset: 90887},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90862},
+																		pos:        position{line: 2874, col: 20, offset: 90894},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90871},
+																		pos:        position{line: 2874, col: 29, offset: 90903},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35917,36 +36057,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 91031},
+															pos: position{line: 2884, col: 8, offset: 91063},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 91032,
+																line: 2884, col: 9, offset: 91064,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91081},
+													pos: position{line: 2887, col: 8, offset: 91113},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90854},
-															run: (*parser).callonListContinuationElement1382,
+															pos: position{line: 2874, col: 12, offset: 90886},
+															run: (*parser).callonListContinuationElement1388,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90855},
+																pos: position{line: 2874, col: 13, offset: 90887},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90855},
+																		pos:        position{line: 2874, col: 13, offset: 90887},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90862},
+																		pos:        position{line: 2874, col: 20, offset: 90894},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90871},
+																		pos:        position{line: 2874, col: 29, offset: 90903},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -35955,9 +36095,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 91031},
+															pos: position{line: 2884, col: 8, offset: 91063},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 91032,
+																line: 2884, col: 9, offset: 91064,
 															},
 														},
 													},
@@ -35970,24 +36110,24 @@ var g = &grammar{
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2600, col: 5, offset: 83167},
-										run: (*parser).callonListContinuationElement1390,
+										pos: position{line: 2601, col: 5, offset: 83199},
+										run: (*parser).callonListContinuationElement1396,
 										expr: &seqExpr{
-											pos: position{line: 2600, col: 5, offset: 83167},
+											pos: position{line: 2601, col: 5, offset: 83199},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2606, col: 19, offset: 83324},
+													pos:        position{line: 2607, col: 19, offset: 83356},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2606, col: 26, offset: 83331},
+													pos: position{line: 2607, col: 26, offset: 83363},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90683},
-														run: (*parser).callonListContinuationElement1394,
+														pos: position{line: 2865, col: 10, offset: 90715},
+														run: (*parser).callonListContinuationElement1400,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90683},
+															pos:        position{line: 2865, col: 10, offset: 90715},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -35996,28 +36136,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91081},
+													pos: position{line: 2887, col: 8, offset: 91113},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90854},
-															run: (*parser).callonListContinuationElement1397,
+															pos: position{line: 2874, col: 12, offset: 90886},
+															run: (*parser).callonListContinuationElement1403,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90855},
+																pos: position{line: 2874, col: 13, offset: 90887},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90855},
+																		pos:        position{line: 2874, col: 13, offset: 90887},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90862},
+																		pos:        position{line: 2874, col: 20, offset: 90894},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90871},
+																		pos:        position{line: 2874, col: 29, offset: 90903},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36026,40 +36166,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 91031},
+															pos: position{line: 2884, col: 8, offset: 91063},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 91032,
+																line: 2884, col: 9, offset: 91064,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2601, col: 5, offset: 83191},
+													pos:   position{line: 2602, col: 5, offset: 83223},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2601, col: 11, offset: 83197},
+														pos: position{line: 2602, col: 11, offset: 83229},
 														expr: &choiceExpr{
-															pos: position{line: 2601, col: 12, offset: 83198},
+															pos: position{line: 2602, col: 12, offset: 83230},
 															alternatives: []interface{}{
 																&actionExpr{
 																	pos: position{line: 677, col: 14, offset: 21489},
-																	run: (*parser).callonListContinuationElement1407,
+																	run: (*parser).callonListContinuationElement1413,
 																	expr: &seqExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2881, col: 11, offset: 91017},
+																				pos: position{line: 2882, col: 11, offset: 91049},
 																				expr: &anyMatcher{
-																					line: 2881, col: 13, offset: 91019,
+																					line: 2882, col: 13, offset: 91051,
 																				},
 																			},
 																			&zeroOrMoreExpr{
 																				pos: position{line: 677, col: 21, offset: 21496},
 																				expr: &actionExpr{
-																					pos: position{line: 2864, col: 10, offset: 90683},
-																					run: (*parser).callonListContinuationElement1412,
+																					pos: position{line: 2865, col: 10, offset: 90715},
+																					run: (*parser).callonListContinuationElement1418,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2864, col: 10, offset: 90683},
+																						pos:        position{line: 2865, col: 10, offset: 90715},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36068,28 +36208,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2886, col: 8, offset: 91081},
+																				pos: position{line: 2887, col: 8, offset: 91113},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2873, col: 12, offset: 90854},
-																						run: (*parser).callonListContinuationElement1415,
+																						pos: position{line: 2874, col: 12, offset: 90886},
+																						run: (*parser).callonListContinuationElement1421,
 																						expr: &choiceExpr{
-																							pos: position{line: 2873, col: 13, offset: 90855},
+																							pos: position{line: 2874, col: 13, offset: 90887},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 13, offset: 90855},
+																									pos:        position{line: 2874, col: 13, offset: 90887},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 20, offset: 90862},
+																									pos:        position{line: 2874, col: 20, offset: 90894},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2873, col: 29, offset: 90871},
+																									pos:        position{line: 2874, col: 29, offset: 90903},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36098,9 +36238,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2883, col: 8, offset: 91031},
+																						pos: position{line: 2884, col: 8, offset: 91063},
 																						expr: &anyMatcher{
-																							line: 2883, col: 9, offset: 91032,
+																							line: 2884, col: 9, offset: 91064,
 																						},
 																					},
 																				},
@@ -36109,32 +36249,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2613, col: 5, offset: 83443},
-																	run: (*parser).callonListContinuationElement1422,
+																	pos: position{line: 2614, col: 5, offset: 83475},
+																	run: (*parser).callonListContinuationElement1428,
 																	expr: &seqExpr{
-																		pos: position{line: 2613, col: 5, offset: 83443},
+																		pos: position{line: 2614, col: 5, offset: 83475},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2613, col: 5, offset: 83443},
+																				pos: position{line: 2614, col: 5, offset: 83475},
 																				expr: &choiceExpr{
-																					pos: position{line: 2610, col: 22, offset: 83404},
+																					pos: position{line: 2611, col: 22, offset: 83436},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2606, col: 19, offset: 83324},
+																							pos: position{line: 2607, col: 19, offset: 83356},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2606, col: 19, offset: 83324},
+																									pos:        position{line: 2607, col: 19, offset: 83356},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2606, col: 26, offset: 83331},
+																									pos: position{line: 2607, col: 26, offset: 83363},
 																									expr: &actionExpr{
-																										pos: position{line: 2864, col: 10, offset: 90683},
-																										run: (*parser).callonListContinuationElement1429,
+																										pos: position{line: 2865, col: 10, offset: 90715},
+																										run: (*parser).callonListContinuationElement1435,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2864, col: 10, offset: 90683},
+																											pos:        position{line: 2865, col: 10, offset: 90715},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36143,28 +36283,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2886, col: 8, offset: 91081},
+																									pos: position{line: 2887, col: 8, offset: 91113},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2873, col: 12, offset: 90854},
-																											run: (*parser).callonListContinuationElement1432,
+																											pos: position{line: 2874, col: 12, offset: 90886},
+																											run: (*parser).callonListContinuationElement1438,
 																											expr: &choiceExpr{
-																												pos: position{line: 2873, col: 13, offset: 90855},
+																												pos: position{line: 2874, col: 13, offset: 90887},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 13, offset: 90855},
+																														pos:        position{line: 2874, col: 13, offset: 90887},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 20, offset: 90862},
+																														pos:        position{line: 2874, col: 20, offset: 90894},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2873, col: 29, offset: 90871},
+																														pos:        position{line: 2874, col: 29, offset: 90903},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36173,9 +36313,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2883, col: 8, offset: 91031},
+																											pos: position{line: 2884, col: 8, offset: 91063},
 																											expr: &anyMatcher{
-																												line: 2883, col: 9, offset: 91032,
+																												line: 2884, col: 9, offset: 91064,
 																											},
 																										},
 																									},
@@ -36183,59 +36323,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2883, col: 8, offset: 91031},
+																							pos: position{line: 2884, col: 8, offset: 91063},
 																							expr: &anyMatcher{
-																								line: 2883, col: 9, offset: 91032,
+																								line: 2884, col: 9, offset: 91064,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2614, col: 5, offset: 83466},
+																				pos:   position{line: 2615, col: 5, offset: 83498},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2615, col: 9, offset: 83484},
+																					pos: position{line: 2616, col: 9, offset: 83516},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2615, col: 10, offset: 83485},
-																							run: (*parser).callonListContinuationElement1443,
+																							pos: position{line: 2616, col: 10, offset: 83517},
+																							run: (*parser).callonListContinuationElement1449,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2615, col: 10, offset: 83485},
+																								pos:   position{line: 2616, col: 10, offset: 83517},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2615, col: 17, offset: 83492},
+																									pos: position{line: 2616, col: 17, offset: 83524},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2623, col: 21, offset: 83688},
-																											run: (*parser).callonListContinuationElement1446,
+																											pos: position{line: 2624, col: 21, offset: 83720},
+																											run: (*parser).callonListContinuationElement1452,
 																											expr: &seqExpr{
-																												pos: position{line: 2623, col: 21, offset: 83688},
+																												pos: position{line: 2624, col: 21, offset: 83720},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2623, col: 21, offset: 83688},
+																														pos:   position{line: 2624, col: 21, offset: 83720},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2623, col: 27, offset: 83694},
+																															pos: position{line: 2624, col: 27, offset: 83726},
 																															expr: &actionExpr{
-																																pos: position{line: 2628, col: 5, offset: 83769},
-																																run: (*parser).callonListContinuationElement1450,
+																																pos: position{line: 2629, col: 5, offset: 83801},
+																																run: (*parser).callonListContinuationElement1456,
 																																expr: &seqExpr{
-																																	pos: position{line: 2628, col: 5, offset: 83769},
+																																	pos: position{line: 2629, col: 5, offset: 83801},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2628, col: 5, offset: 83769},
+																																			pos:        position{line: 2629, col: 5, offset: 83801},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2628, col: 9, offset: 83773},
+																																			pos: position{line: 2629, col: 9, offset: 83805},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2864, col: 10, offset: 90683},
-																																				run: (*parser).callonListContinuationElement1454,
+																																				pos: position{line: 2865, col: 10, offset: 90715},
+																																				run: (*parser).callonListContinuationElement1460,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2864, col: 10, offset: 90683},
+																																					pos:        position{line: 2865, col: 10, offset: 90715},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36244,21 +36384,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2628, col: 16, offset: 83780},
+																																			pos:   position{line: 2629, col: 16, offset: 83812},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2634, col: 5, offset: 83980},
-																																				run: (*parser).callonListContinuationElement1457,
+																																				pos: position{line: 2635, col: 5, offset: 84012},
+																																				run: (*parser).callonListContinuationElement1463,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2634, col: 5, offset: 83980},
+																																					pos:   position{line: 2635, col: 5, offset: 84012},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2634, col: 14, offset: 83989},
-																																						run: (*parser).callonListContinuationElement1459,
+																																						pos: position{line: 2635, col: 14, offset: 84021},
+																																						run: (*parser).callonListContinuationElement1465,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2634, col: 14, offset: 83989},
+																																							pos: position{line: 2635, col: 14, offset: 84021},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2634, col: 14, offset: 83989},
+																																								pos:        position{line: 2635, col: 14, offset: 84021},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36275,28 +36415,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2886, col: 8, offset: 91081},
+																														pos: position{line: 2887, col: 8, offset: 91113},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2873, col: 12, offset: 90854},
-																																run: (*parser).callonListContinuationElement1463,
+																																pos: position{line: 2874, col: 12, offset: 90886},
+																																run: (*parser).callonListContinuationElement1469,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2873, col: 13, offset: 90855},
+																																	pos: position{line: 2874, col: 13, offset: 90887},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2873, col: 13, offset: 90855},
+																																			pos:        position{line: 2874, col: 13, offset: 90887},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2873, col: 20, offset: 90862},
+																																			pos:        position{line: 2874, col: 20, offset: 90894},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2873, col: 29, offset: 90871},
+																																			pos:        position{line: 2874, col: 29, offset: 90903},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36305,9 +36445,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2883, col: 8, offset: 91031},
+																																pos: position{line: 2884, col: 8, offset: 91063},
 																																expr: &anyMatcher{
-																																	line: 2883, col: 9, offset: 91032,
+																																	line: 2884, col: 9, offset: 91064,
 																																},
 																															},
 																														},
@@ -36316,40 +36456,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2640, col: 24, offset: 84125},
-																											run: (*parser).callonListContinuationElement1470,
+																											pos: position{line: 2641, col: 24, offset: 84157},
+																											run: (*parser).callonListContinuationElement1476,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2640, col: 24, offset: 84125},
+																												pos:   position{line: 2641, col: 24, offset: 84157},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2640, col: 30, offset: 84131},
+																													pos: position{line: 2641, col: 30, offset: 84163},
 																													expr: &actionExpr{
-																														pos: position{line: 2645, col: 5, offset: 84207},
-																														run: (*parser).callonListContinuationElement1473,
+																														pos: position{line: 2646, col: 5, offset: 84239},
+																														run: (*parser).callonListContinuationElement1479,
 																														expr: &seqExpr{
-																															pos: position{line: 2645, col: 5, offset: 84207},
+																															pos: position{line: 2646, col: 5, offset: 84239},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2645, col: 5, offset: 84207},
+																																	pos: position{line: 2646, col: 5, offset: 84239},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2610, col: 22, offset: 83404},
+																																		pos: position{line: 2611, col: 22, offset: 83436},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2606, col: 19, offset: 83324},
+																																				pos: position{line: 2607, col: 19, offset: 83356},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2606, col: 19, offset: 83324},
+																																						pos:        position{line: 2607, col: 19, offset: 83356},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2606, col: 26, offset: 83331},
+																																						pos: position{line: 2607, col: 26, offset: 83363},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2864, col: 10, offset: 90683},
-																																							run: (*parser).callonListContinuationElement1480,
+																																							pos: position{line: 2865, col: 10, offset: 90715},
+																																							run: (*parser).callonListContinuationElement1486,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2864, col: 10, offset: 90683},
+																																								pos:        position{line: 2865, col: 10, offset: 90715},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36358,28 +36498,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2886, col: 8, offset: 91081},
+																																						pos: position{line: 2887, col: 8, offset: 91113},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2873, col: 12, offset: 90854},
-																																								run: (*parser).callonListContinuationElement1483,
+																																								pos: position{line: 2874, col: 12, offset: 90886},
+																																								run: (*parser).callonListContinuationElement1489,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2873, col: 13, offset: 90855},
+																																									pos: position{line: 2874, col: 13, offset: 90887},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2873, col: 13, offset: 90855},
+																																											pos:        position{line: 2874, col: 13, offset: 90887},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2873, col: 20, offset: 90862},
+																																											pos:        position{line: 2874, col: 20, offset: 90894},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2873, col: 29, offset: 90871},
+																																											pos:        position{line: 2874, col: 29, offset: 90903},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36388,9 +36528,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2883, col: 8, offset: 91031},
+																																								pos: position{line: 2884, col: 8, offset: 91063},
 																																								expr: &anyMatcher{
-																																									line: 2883, col: 9, offset: 91032,
+																																									line: 2884, col: 9, offset: 91064,
 																																								},
 																																							},
 																																						},
@@ -36398,35 +36538,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2883, col: 8, offset: 91031},
+																																				pos: position{line: 2884, col: 8, offset: 91063},
 																																				expr: &anyMatcher{
-																																					line: 2883, col: 9, offset: 91032,
+																																					line: 2884, col: 9, offset: 91064,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2646, col: 5, offset: 84230},
+																																	pos: position{line: 2647, col: 5, offset: 84262},
 																																	expr: &actionExpr{
 																																		pos: position{line: 677, col: 14, offset: 21489},
-																																		run: (*parser).callonListContinuationElement1493,
+																																		run: (*parser).callonListContinuationElement1499,
 																																		expr: &seqExpr{
 																																			pos: position{line: 677, col: 14, offset: 21489},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2881, col: 11, offset: 91017},
+																																					pos: position{line: 2882, col: 11, offset: 91049},
 																																					expr: &anyMatcher{
-																																						line: 2881, col: 13, offset: 91019,
+																																						line: 2882, col: 13, offset: 91051,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
 																																					pos: position{line: 677, col: 21, offset: 21496},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2864, col: 10, offset: 90683},
-																																						run: (*parser).callonListContinuationElement1498,
+																																						pos: position{line: 2865, col: 10, offset: 90715},
+																																						run: (*parser).callonListContinuationElement1504,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2864, col: 10, offset: 90683},
+																																							pos:        position{line: 2865, col: 10, offset: 90715},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36435,28 +36575,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2886, col: 8, offset: 91081},
+																																					pos: position{line: 2887, col: 8, offset: 91113},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2873, col: 12, offset: 90854},
-																																							run: (*parser).callonListContinuationElement1501,
+																																							pos: position{line: 2874, col: 12, offset: 90886},
+																																							run: (*parser).callonListContinuationElement1507,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2873, col: 13, offset: 90855},
+																																								pos: position{line: 2874, col: 13, offset: 90887},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2873, col: 13, offset: 90855},
+																																										pos:        position{line: 2874, col: 13, offset: 90887},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2873, col: 20, offset: 90862},
+																																										pos:        position{line: 2874, col: 20, offset: 90894},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2873, col: 29, offset: 90871},
+																																										pos:        position{line: 2874, col: 29, offset: 90903},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36465,9 +36605,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2883, col: 8, offset: 91031},
+																																							pos: position{line: 2884, col: 8, offset: 91063},
 																																							expr: &anyMatcher{
-																																								line: 2883, col: 9, offset: 91032,
+																																								line: 2884, col: 9, offset: 91064,
 																																							},
 																																						},
 																																					},
@@ -36477,17 +36617,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2647, col: 5, offset: 84245},
+																																	pos:   position{line: 2648, col: 5, offset: 84277},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2647, col: 12, offset: 84252},
+																																		pos: position{line: 2648, col: 12, offset: 84284},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2664, col: 20, offset: 84758},
-																																			run: (*parser).callonListContinuationElement1510,
+																																			pos: position{line: 2665, col: 20, offset: 84790},
+																																			run: (*parser).callonListContinuationElement1516,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2664, col: 20, offset: 84758},
+																																				pos: position{line: 2665, col: 20, offset: 84790},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2664, col: 20, offset: 84758},
+																																					pos:        position{line: 2665, col: 20, offset: 84790},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36498,18 +36638,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2647, col: 31, offset: 84271},
+																																	pos:        position{line: 2648, col: 31, offset: 84303},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2647, col: 35, offset: 84275},
+																																	pos: position{line: 2648, col: 35, offset: 84307},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2864, col: 10, offset: 90683},
-																																		run: (*parser).callonListContinuationElement1515,
+																																		pos: position{line: 2865, col: 10, offset: 90715},
+																																		run: (*parser).callonListContinuationElement1521,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2864, col: 10, offset: 90683},
+																																			pos:        position{line: 2865, col: 10, offset: 90715},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36518,30 +36658,30 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2647, col: 42, offset: 84282},
+																																	pos: position{line: 2648, col: 42, offset: 84314},
 																																	expr: &seqExpr{
-																																		pos: position{line: 2647, col: 43, offset: 84283},
+																																		pos: position{line: 2648, col: 43, offset: 84315},
 																																		exprs: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 2873, col: 12, offset: 90854},
-																																				run: (*parser).callonListContinuationElement1519,
+																																				pos: position{line: 2874, col: 12, offset: 90886},
+																																				run: (*parser).callonListContinuationElement1525,
 																																				expr: &choiceExpr{
-																																					pos: position{line: 2873, col: 13, offset: 90855},
+																																					pos: position{line: 2874, col: 13, offset: 90887},
 																																					alternatives: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2873, col: 13, offset: 90855},
+																																							pos:        position{line: 2874, col: 13, offset: 90887},
 																																							val:        "\n",
 																																							ignoreCase: false,
 																																							want:       "\"\\n\"",
 																																						},
 																																						&litMatcher{
-																																							pos:        position{line: 2873, col: 20, offset: 90862},
+																																							pos:        position{line: 2874, col: 20, offset: 90894},
 																																							val:        "\r\n",
 																																							ignoreCase: false,
 																																							want:       "\"\\r\\n\"",
 																																						},
 																																						&litMatcher{
-																																							pos:        position{line: 2873, col: 29, offset: 90871},
+																																							pos:        position{line: 2874, col: 29, offset: 90903},
 																																							val:        "\r",
 																																							ignoreCase: false,
 																																							want:       "\"\\r\"",
@@ -36550,38 +36690,38 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2647, col: 51, offset: 84291},
+																																				pos: position{line: 2648, col: 51, offset: 84323},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2474, col: 22, offset: 79626},
-																																					run: (*parser).callonListContinuationElement1525,
+																																					pos: position{line: 2475, col: 22, offset: 79658},
+																																					run: (*parser).callonListContinuationElement1531,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2474, col: 22, offset: 79626},
+																																						pos: position{line: 2475, col: 22, offset: 79658},
 																																						exprs: []interface{}{
 																																							&litMatcher{
-																																								pos:        position{line: 2479, col: 31, offset: 79847},
+																																								pos:        position{line: 2480, col: 31, offset: 79879},
 																																								val:        "//",
 																																								ignoreCase: false,
 																																								want:       "\"//\"",
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2479, col: 36, offset: 79852},
+																																								pos: position{line: 2480, col: 36, offset: 79884},
 																																								expr: &litMatcher{
-																																									pos:        position{line: 2479, col: 37, offset: 79853},
+																																									pos:        position{line: 2480, col: 37, offset: 79885},
 																																									val:        "//",
 																																									ignoreCase: false,
 																																									want:       "\"//\"",
 																																								},
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2474, col: 49, offset: 79653},
+																																								pos:   position{line: 2475, col: 49, offset: 79685},
 																																								label: "content",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2810, col: 13, offset: 89209},
-																																									run: (*parser).callonListContinuationElement1531,
+																																									pos: position{line: 2811, col: 13, offset: 89241},
+																																									run: (*parser).callonListContinuationElement1537,
 																																									expr: &zeroOrMoreExpr{
-																																										pos: position{line: 2810, col: 13, offset: 89209},
+																																										pos: position{line: 2811, col: 13, offset: 89241},
 																																										expr: &charClassMatcher{
-																																											pos:        position{line: 2810, col: 13, offset: 89209},
+																																											pos:        position{line: 2811, col: 13, offset: 89241},
 																																											val:        "[^\\r\\n]",
 																																											chars:      []rune{'\r', '\n'},
 																																											ignoreCase: false,
@@ -36591,28 +36731,28 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&choiceExpr{
-																																								pos: position{line: 2886, col: 8, offset: 91081},
+																																								pos: position{line: 2887, col: 8, offset: 91113},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2873, col: 12, offset: 90854},
-																																										run: (*parser).callonListContinuationElement1535,
+																																										pos: position{line: 2874, col: 12, offset: 90886},
+																																										run: (*parser).callonListContinuationElement1541,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2873, col: 13, offset: 90855},
+																																											pos: position{line: 2874, col: 13, offset: 90887},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2873, col: 13, offset: 90855},
+																																													pos:        position{line: 2874, col: 13, offset: 90887},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2873, col: 20, offset: 90862},
+																																													pos:        position{line: 2874, col: 20, offset: 90894},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2873, col: 29, offset: 90871},
+																																													pos:        position{line: 2874, col: 29, offset: 90903},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -36621,9 +36761,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2883, col: 8, offset: 91031},
+																																										pos: position{line: 2884, col: 8, offset: 91063},
 																																										expr: &anyMatcher{
-																																											line: 2883, col: 9, offset: 91032,
+																																											line: 2884, col: 9, offset: 91064,
 																																										},
 																																									},
 																																								},
@@ -36636,37 +36776,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2647, col: 72, offset: 84312},
+																																	pos:   position{line: 2648, col: 72, offset: 84344},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2653, col: 5, offset: 84471},
+																																		pos: position{line: 2654, col: 5, offset: 84503},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2654, col: 9, offset: 84481},
-																																			run: (*parser).callonListContinuationElement1544,
+																																			pos: position{line: 2655, col: 9, offset: 84513},
+																																			run: (*parser).callonListContinuationElement1550,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2654, col: 9, offset: 84481},
+																																				pos: position{line: 2655, col: 9, offset: 84513},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2654, col: 9, offset: 84481},
+																																						pos: position{line: 2655, col: 9, offset: 84513},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2610, col: 22, offset: 83404},
+																																							pos: position{line: 2611, col: 22, offset: 83436},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2606, col: 19, offset: 83324},
+																																									pos: position{line: 2607, col: 19, offset: 83356},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2606, col: 19, offset: 83324},
+																																											pos:        position{line: 2607, col: 19, offset: 83356},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2606, col: 26, offset: 83331},
+																																											pos: position{line: 2607, col: 26, offset: 83363},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2864, col: 10, offset: 90683},
-																																												run: (*parser).callonListContinuationElement1551,
+																																												pos: position{line: 2865, col: 10, offset: 90715},
+																																												run: (*parser).callonListContinuationElement1557,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2864, col: 10, offset: 90683},
+																																													pos:        position{line: 2865, col: 10, offset: 90715},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36675,28 +36815,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2886, col: 8, offset: 91081},
+																																											pos: position{line: 2887, col: 8, offset: 91113},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2873, col: 12, offset: 90854},
-																																													run: (*parser).callonListContinuationElement1554,
+																																													pos: position{line: 2874, col: 12, offset: 90886},
+																																													run: (*parser).callonListContinuationElement1560,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2873, col: 13, offset: 90855},
+																																														pos: position{line: 2874, col: 13, offset: 90887},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2873, col: 13, offset: 90855},
+																																																pos:        position{line: 2874, col: 13, offset: 90887},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2873, col: 20, offset: 90862},
+																																																pos:        position{line: 2874, col: 20, offset: 90894},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2873, col: 29, offset: 90871},
+																																																pos:        position{line: 2874, col: 29, offset: 90903},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36705,9 +36845,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2883, col: 8, offset: 91031},
+																																													pos: position{line: 2884, col: 8, offset: 91063},
 																																													expr: &anyMatcher{
-																																														line: 2883, col: 9, offset: 91032,
+																																														line: 2884, col: 9, offset: 91064,
 																																													},
 																																												},
 																																											},
@@ -36715,35 +36855,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2883, col: 8, offset: 91031},
+																																									pos: position{line: 2884, col: 8, offset: 91063},
 																																									expr: &anyMatcher{
-																																										line: 2883, col: 9, offset: 91032,
+																																										line: 2884, col: 9, offset: 91064,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2655, col: 9, offset: 84508},
+																																						pos: position{line: 2656, col: 9, offset: 84540},
 																																						expr: &actionExpr{
 																																							pos: position{line: 677, col: 14, offset: 21489},
-																																							run: (*parser).callonListContinuationElement1564,
+																																							run: (*parser).callonListContinuationElement1570,
 																																							expr: &seqExpr{
 																																								pos: position{line: 677, col: 14, offset: 21489},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2881, col: 11, offset: 91017},
+																																										pos: position{line: 2882, col: 11, offset: 91049},
 																																										expr: &anyMatcher{
-																																											line: 2881, col: 13, offset: 91019,
+																																											line: 2882, col: 13, offset: 91051,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 677, col: 21, offset: 21496},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2864, col: 10, offset: 90683},
-																																											run: (*parser).callonListContinuationElement1569,
+																																											pos: position{line: 2865, col: 10, offset: 90715},
+																																											run: (*parser).callonListContinuationElement1575,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2864, col: 10, offset: 90683},
+																																												pos:        position{line: 2865, col: 10, offset: 90715},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36752,28 +36892,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2886, col: 8, offset: 91081},
+																																										pos: position{line: 2887, col: 8, offset: 91113},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2873, col: 12, offset: 90854},
-																																												run: (*parser).callonListContinuationElement1572,
+																																												pos: position{line: 2874, col: 12, offset: 90886},
+																																												run: (*parser).callonListContinuationElement1578,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2873, col: 13, offset: 90855},
+																																													pos: position{line: 2874, col: 13, offset: 90887},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2873, col: 13, offset: 90855},
+																																															pos:        position{line: 2874, col: 13, offset: 90887},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2873, col: 20, offset: 90862},
+																																															pos:        position{line: 2874, col: 20, offset: 90894},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2873, col: 29, offset: 90871},
+																																															pos:        position{line: 2874, col: 29, offset: 90903},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36782,9 +36922,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2883, col: 8, offset: 91031},
+																																												pos: position{line: 2884, col: 8, offset: 91063},
 																																												expr: &anyMatcher{
-																																													line: 2883, col: 9, offset: 91032,
+																																													line: 2884, col: 9, offset: 91064,
 																																												},
 																																											},
 																																										},
@@ -36794,22 +36934,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2656, col: 9, offset: 84527},
+																																						pos: position{line: 2657, col: 9, offset: 84559},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2656, col: 11, offset: 84529},
+																																							pos: position{line: 2657, col: 11, offset: 84561},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2656, col: 11, offset: 84529},
+																																									pos:   position{line: 2657, col: 11, offset: 84561},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2656, col: 18, offset: 84536},
+																																										pos: position{line: 2657, col: 18, offset: 84568},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2664, col: 20, offset: 84758},
-																																											run: (*parser).callonListContinuationElement1583,
+																																											pos: position{line: 2665, col: 20, offset: 84790},
+																																											run: (*parser).callonListContinuationElement1589,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2664, col: 20, offset: 84758},
+																																												pos: position{line: 2665, col: 20, offset: 84790},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2664, col: 20, offset: 84758},
+																																													pos:        position{line: 2665, col: 20, offset: 84790},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36820,7 +36960,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2656, col: 37, offset: 84555},
+																																									pos:        position{line: 2657, col: 37, offset: 84587},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36829,15 +36969,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2657, col: 9, offset: 84568},
+																																						pos:   position{line: 2658, col: 9, offset: 84600},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2657, col: 18, offset: 84577},
-																																							run: (*parser).callonListContinuationElement1588,
+																																							pos: position{line: 2658, col: 18, offset: 84609},
+																																							run: (*parser).callonListContinuationElement1594,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2657, col: 18, offset: 84577},
+																																								pos: position{line: 2658, col: 18, offset: 84609},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2657, col: 18, offset: 84577},
+																																									pos:        position{line: 2658, col: 18, offset: 84609},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36847,33 +36987,33 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2659, col: 12, offset: 84639},
+																																						pos: position{line: 2660, col: 12, offset: 84671},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2659, col: 13, offset: 84640},
+																																							pos: position{line: 2660, col: 13, offset: 84672},
 																																							exprs: []interface{}{
 																																								&choiceExpr{
-																																									pos: position{line: 2886, col: 8, offset: 91081},
+																																									pos: position{line: 2887, col: 8, offset: 91113},
 																																									alternatives: []interface{}{
 																																										&actionExpr{
-																																											pos: position{line: 2873, col: 12, offset: 90854},
-																																											run: (*parser).callonListContinuationElement1594,
+																																											pos: position{line: 2874, col: 12, offset: 90886},
+																																											run: (*parser).callonListContinuationElement1600,
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2873, col: 13, offset: 90855},
+																																												pos: position{line: 2874, col: 13, offset: 90887},
 																																												alternatives: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2873, col: 13, offset: 90855},
+																																														pos:        position{line: 2874, col: 13, offset: 90887},
 																																														val:        "\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2873, col: 20, offset: 90862},
+																																														pos:        position{line: 2874, col: 20, offset: 90894},
 																																														val:        "\r\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2873, col: 29, offset: 90871},
+																																														pos:        position{line: 2874, col: 29, offset: 90903},
 																																														val:        "\r",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\"",
@@ -36882,46 +37022,46 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2883, col: 8, offset: 91031},
+																																											pos: position{line: 2884, col: 8, offset: 91063},
 																																											expr: &anyMatcher{
-																																												line: 2883, col: 9, offset: 91032,
+																																												line: 2884, col: 9, offset: 91064,
 																																											},
 																																										},
 																																									},
 																																								},
 																																								&zeroOrMoreExpr{
-																																									pos: position{line: 2659, col: 17, offset: 84644},
+																																									pos: position{line: 2660, col: 17, offset: 84676},
 																																									expr: &actionExpr{
-																																										pos: position{line: 2474, col: 22, offset: 79626},
-																																										run: (*parser).callonListContinuationElement1602,
+																																										pos: position{line: 2475, col: 22, offset: 79658},
+																																										run: (*parser).callonListContinuationElement1608,
 																																										expr: &seqExpr{
-																																											pos: position{line: 2474, col: 22, offset: 79626},
+																																											pos: position{line: 2475, col: 22, offset: 79658},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2479, col: 31, offset: 79847},
+																																													pos:        position{line: 2480, col: 31, offset: 79879},
 																																													val:        "//",
 																																													ignoreCase: false,
 																																													want:       "\"//\"",
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2479, col: 36, offset: 79852},
+																																													pos: position{line: 2480, col: 36, offset: 79884},
 																																													expr: &litMatcher{
-																																														pos:        position{line: 2479, col: 37, offset: 79853},
+																																														pos:        position{line: 2480, col: 37, offset: 79885},
 																																														val:        "//",
 																																														ignoreCase: false,
 																																														want:       "\"//\"",
 																																													},
 																																												},
 																																												&labeledExpr{
-																																													pos:   position{line: 2474, col: 49, offset: 79653},
+																																													pos:   position{line: 2475, col: 49, offset: 79685},
 																																													label: "content",
 																																													expr: &actionExpr{
-																																														pos: position{line: 2810, col: 13, offset: 89209},
-																																														run: (*parser).callonListContinuationElement1608,
+																																														pos: position{line: 2811, col: 13, offset: 89241},
+																																														run: (*parser).callonListContinuationElement1614,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2810, col: 13, offset: 89209},
+																																															pos: position{line: 2811, col: 13, offset: 89241},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2810, col: 13, offset: 89209},
+																																																pos:        position{line: 2811, col: 13, offset: 89241},
 																																																val:        "[^\\r\\n]",
 																																																chars:      []rune{'\r', '\n'},
 																																																ignoreCase: false,
@@ -36931,28 +37071,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2886, col: 8, offset: 91081},
+																																													pos: position{line: 2887, col: 8, offset: 91113},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2873, col: 12, offset: 90854},
-																																															run: (*parser).callonListContinuationElement1612,
+																																															pos: position{line: 2874, col: 12, offset: 90886},
+																																															run: (*parser).callonListContinuationElement1618,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2873, col: 13, offset: 90855},
+																																																pos: position{line: 2874, col: 13, offset: 90887},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2873, col: 13, offset: 90855},
+																																																		pos:        position{line: 2874, col: 13, offset: 90887},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2873, col: 20, offset: 90862},
+																																																		pos:        position{line: 2874, col: 20, offset: 90894},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2873, col: 29, offset: 90871},
+																																																		pos:        position{line: 2874, col: 29, offset: 90903},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -36961,9 +37101,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2883, col: 8, offset: 91031},
+																																															pos: position{line: 2884, col: 8, offset: 91063},
 																																															expr: &anyMatcher{
-																																																line: 2883, col: 9, offset: 91032,
+																																																line: 2884, col: 9, offset: 91064,
 																																															},
 																																														},
 																																													},
@@ -36992,23 +37132,23 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 677, col: 14, offset: 21489},
-																							run: (*parser).callonListContinuationElement1619,
+																							run: (*parser).callonListContinuationElement1625,
 																							expr: &seqExpr{
 																								pos: position{line: 677, col: 14, offset: 21489},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2881, col: 11, offset: 91017},
+																										pos: position{line: 2882, col: 11, offset: 91049},
 																										expr: &anyMatcher{
-																											line: 2881, col: 13, offset: 91019,
+																											line: 2882, col: 13, offset: 91051,
 																										},
 																									},
 																									&zeroOrMoreExpr{
 																										pos: position{line: 677, col: 21, offset: 21496},
 																										expr: &actionExpr{
-																											pos: position{line: 2864, col: 10, offset: 90683},
-																											run: (*parser).callonListContinuationElement1624,
+																											pos: position{line: 2865, col: 10, offset: 90715},
+																											run: (*parser).callonListContinuationElement1630,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2864, col: 10, offset: 90683},
+																												pos:        position{line: 2865, col: 10, offset: 90715},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -37017,28 +37157,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2886, col: 8, offset: 91081},
+																										pos: position{line: 2887, col: 8, offset: 91113},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2873, col: 12, offset: 90854},
-																												run: (*parser).callonListContinuationElement1627,
+																												pos: position{line: 2874, col: 12, offset: 90886},
+																												run: (*parser).callonListContinuationElement1633,
 																												expr: &choiceExpr{
-																													pos: position{line: 2873, col: 13, offset: 90855},
+																													pos: position{line: 2874, col: 13, offset: 90887},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2873, col: 13, offset: 90855},
+																															pos:        position{line: 2874, col: 13, offset: 90887},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2873, col: 20, offset: 90862},
+																															pos:        position{line: 2874, col: 20, offset: 90894},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2873, col: 29, offset: 90871},
+																															pos:        position{line: 2874, col: 29, offset: 90903},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -37047,9 +37187,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2883, col: 8, offset: 91031},
+																												pos: position{line: 2884, col: 8, offset: 91063},
 																												expr: &anyMatcher{
-																													line: 2883, col: 9, offset: 91032,
+																													line: 2884, col: 9, offset: 91064,
 																												},
 																											},
 																										},
@@ -37068,24 +37208,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2610, col: 22, offset: 83404},
+													pos: position{line: 2611, col: 22, offset: 83436},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2606, col: 19, offset: 83324},
+															pos: position{line: 2607, col: 19, offset: 83356},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2606, col: 19, offset: 83324},
+																	pos:        position{line: 2607, col: 19, offset: 83356},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2606, col: 26, offset: 83331},
+																	pos: position{line: 2607, col: 26, offset: 83363},
 																	expr: &actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90683},
-																		run: (*parser).callonListContinuationElement1638,
+																		pos: position{line: 2865, col: 10, offset: 90715},
+																		run: (*parser).callonListContinuationElement1644,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90683},
+																			pos:        position{line: 2865, col: 10, offset: 90715},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37094,28 +37234,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
-																			run: (*parser).callonListContinuationElement1641,
+																			pos: position{line: 2874, col: 12, offset: 90886},
+																			run: (*parser).callonListContinuationElement1647,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37124,9 +37264,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -37134,9 +37274,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 91031},
+															pos: position{line: 2884, col: 8, offset: 91063},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 91032,
+																line: 2884, col: 9, offset: 91064,
 															},
 														},
 													},
@@ -37145,36 +37285,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2474, col: 22, offset: 79626},
-										run: (*parser).callonListContinuationElement1650,
+										pos: position{line: 2475, col: 22, offset: 79658},
+										run: (*parser).callonListContinuationElement1656,
 										expr: &seqExpr{
-											pos: position{line: 2474, col: 22, offset: 79626},
+											pos: position{line: 2475, col: 22, offset: 79658},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2479, col: 31, offset: 79847},
+													pos:        position{line: 2480, col: 31, offset: 79879},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2479, col: 36, offset: 79852},
+													pos: position{line: 2480, col: 36, offset: 79884},
 													expr: &litMatcher{
-														pos:        position{line: 2479, col: 37, offset: 79853},
+														pos:        position{line: 2480, col: 37, offset: 79885},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2474, col: 49, offset: 79653},
+													pos:   position{line: 2475, col: 49, offset: 79685},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2810, col: 13, offset: 89209},
-														run: (*parser).callonListContinuationElement1656,
+														pos: position{line: 2811, col: 13, offset: 89241},
+														run: (*parser).callonListContinuationElement1662,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2810, col: 13, offset: 89209},
+															pos: position{line: 2811, col: 13, offset: 89241},
 															expr: &charClassMatcher{
-																pos:        position{line: 2810, col: 13, offset: 89209},
+																pos:        position{line: 2811, col: 13, offset: 89241},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37184,28 +37324,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2886, col: 8, offset: 91081},
+													pos: position{line: 2887, col: 8, offset: 91113},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90854},
-															run: (*parser).callonListContinuationElement1660,
+															pos: position{line: 2874, col: 12, offset: 90886},
+															run: (*parser).callonListContinuationElement1666,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90855},
+																pos: position{line: 2874, col: 13, offset: 90887},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90855},
+																		pos:        position{line: 2874, col: 13, offset: 90887},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90862},
+																		pos:        position{line: 2874, col: 20, offset: 90894},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90871},
+																		pos:        position{line: 2874, col: 29, offset: 90903},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37214,9 +37354,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2883, col: 8, offset: 91031},
+															pos: position{line: 2884, col: 8, offset: 91063},
 															expr: &anyMatcher{
-																line: 2883, col: 9, offset: 91032,
+																line: 2884, col: 9, offset: 91064,
 															},
 														},
 													},
@@ -37226,7 +37366,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1573, col: 5, offset: 50818},
-										run: (*parser).callonListContinuationElement1667,
+										run: (*parser).callonListContinuationElement1673,
 										expr: &seqExpr{
 											pos: position{line: 1573, col: 5, offset: 50818},
 											exprs: []interface{}{
@@ -37236,83 +37376,83 @@ var g = &grammar{
 													expr: &zeroOrOneExpr{
 														pos: position{line: 1573, col: 11, offset: 50824},
 														expr: &actionExpr{
-															pos: position{line: 1737, col: 5, offset: 56141},
-															run: (*parser).callonListContinuationElement1671,
+															pos: position{line: 1738, col: 5, offset: 56173},
+															run: (*parser).callonListContinuationElement1677,
 															expr: &seqExpr{
-																pos: position{line: 1737, col: 5, offset: 56141},
+																pos: position{line: 1738, col: 5, offset: 56173},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1737, col: 5, offset: 56141},
-																		run: (*parser).callonListContinuationElement1673,
+																		pos: position{line: 1738, col: 5, offset: 56173},
+																		run: (*parser).callonListContinuationElement1679,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1740, col: 5, offset: 56204},
+																		pos:   position{line: 1741, col: 5, offset: 56236},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1740, col: 12, offset: 56211},
+																			pos: position{line: 1741, col: 12, offset: 56243},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1740, col: 12, offset: 56211},
-																					run: (*parser).callonListContinuationElement1676,
+																					pos: position{line: 1741, col: 12, offset: 56243},
+																					run: (*parser).callonListContinuationElement1682,
 																					expr: &litMatcher{
-																						pos:        position{line: 1740, col: 12, offset: 56211},
+																						pos:        position{line: 1741, col: 12, offset: 56243},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1742, col: 13, offset: 56267},
-																					run: (*parser).callonListContinuationElement1678,
+																					pos: position{line: 1743, col: 13, offset: 56299},
+																					run: (*parser).callonListContinuationElement1684,
 																					expr: &litMatcher{
-																						pos:        position{line: 1742, col: 13, offset: 56267},
+																						pos:        position{line: 1743, col: 13, offset: 56299},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1744, col: 13, offset: 56325},
-																					run: (*parser).callonListContinuationElement1680,
+																					pos: position{line: 1745, col: 13, offset: 56357},
+																					run: (*parser).callonListContinuationElement1686,
 																					expr: &litMatcher{
-																						pos:        position{line: 1744, col: 13, offset: 56325},
+																						pos:        position{line: 1745, col: 13, offset: 56357},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1746, col: 13, offset: 56393},
-																					run: (*parser).callonListContinuationElement1682,
+																					pos: position{line: 1747, col: 13, offset: 56425},
+																					run: (*parser).callonListContinuationElement1688,
 																					expr: &litMatcher{
-																						pos:        position{line: 1746, col: 13, offset: 56393},
+																						pos:        position{line: 1747, col: 13, offset: 56425},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1748, col: 13, offset: 56457},
-																					run: (*parser).callonListContinuationElement1684,
+																					pos: position{line: 1749, col: 13, offset: 56489},
+																					run: (*parser).callonListContinuationElement1690,
 																					expr: &litMatcher{
-																						pos:        position{line: 1748, col: 13, offset: 56457},
+																						pos:        position{line: 1749, col: 13, offset: 56489},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1750, col: 13, offset: 56521},
-																					run: (*parser).callonListContinuationElement1686,
+																					pos: position{line: 1751, col: 13, offset: 56553},
+																					run: (*parser).callonListContinuationElement1692,
 																					expr: &andExpr{
-																						pos: position{line: 1750, col: 13, offset: 56521},
+																						pos: position{line: 1751, col: 13, offset: 56553},
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 11, offset: 90744},
-																							run: (*parser).callonListContinuationElement1688,
+																							pos: position{line: 2869, col: 11, offset: 90776},
+																							run: (*parser).callonListContinuationElement1694,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2868, col: 11, offset: 90744},
+																								pos: position{line: 2869, col: 11, offset: 90776},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 11, offset: 90744},
+																									pos:        position{line: 2869, col: 11, offset: 90776},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37335,7 +37475,7 @@ var g = &grammar{
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1517, col: 5, offset: 49197},
-														run: (*parser).callonListContinuationElement1692,
+														run: (*parser).callonListContinuationElement1698,
 														expr: &seqExpr{
 															pos: position{line: 1517, col: 5, offset: 49197},
 															exprs: []interface{}{
@@ -37343,23 +37483,23 @@ var g = &grammar{
 																	pos: position{line: 1517, col: 5, offset: 49197},
 																	expr: &actionExpr{
 																		pos: position{line: 677, col: 14, offset: 21489},
-																		run: (*parser).callonListContinuationElement1695,
+																		run: (*parser).callonListContinuationElement1701,
 																		expr: &seqExpr{
 																			pos: position{line: 677, col: 14, offset: 21489},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2881, col: 11, offset: 91017},
+																					pos: position{line: 2882, col: 11, offset: 91049},
 																					expr: &anyMatcher{
-																						line: 2881, col: 13, offset: 91019,
+																						line: 2882, col: 13, offset: 91051,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 677, col: 21, offset: 21496},
 																					expr: &actionExpr{
-																						pos: position{line: 2864, col: 10, offset: 90683},
-																						run: (*parser).callonListContinuationElement1700,
+																						pos: position{line: 2865, col: 10, offset: 90715},
+																						run: (*parser).callonListContinuationElement1706,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2864, col: 10, offset: 90683},
+																							pos:        position{line: 2865, col: 10, offset: 90715},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37368,28 +37508,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2886, col: 8, offset: 91081},
+																					pos: position{line: 2887, col: 8, offset: 91113},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2873, col: 12, offset: 90854},
-																							run: (*parser).callonListContinuationElement1703,
+																							pos: position{line: 2874, col: 12, offset: 90886},
+																							run: (*parser).callonListContinuationElement1709,
 																							expr: &choiceExpr{
-																								pos: position{line: 2873, col: 13, offset: 90855},
+																								pos: position{line: 2874, col: 13, offset: 90887},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 13, offset: 90855},
+																										pos:        position{line: 2874, col: 13, offset: 90887},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 20, offset: 90862},
+																										pos:        position{line: 2874, col: 20, offset: 90894},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 29, offset: 90871},
+																										pos:        position{line: 2874, col: 29, offset: 90903},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37398,9 +37538,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2883, col: 8, offset: 91031},
+																							pos: position{line: 2884, col: 8, offset: 91063},
 																							expr: &anyMatcher{
-																								line: 2883, col: 9, offset: 91032,
+																								line: 2884, col: 9, offset: 91064,
 																							},
 																						},
 																					},
@@ -37423,10 +37563,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1548, col: 31, offset: 50042},
 																				expr: &actionExpr{
-																					pos: position{line: 2864, col: 10, offset: 90683},
-																					run: (*parser).callonListContinuationElement1714,
+																					pos: position{line: 2865, col: 10, offset: 90715},
+																					run: (*parser).callonListContinuationElement1720,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2864, col: 10, offset: 90683},
+																						pos:        position{line: 2865, col: 10, offset: 90715},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37435,25 +37575,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90854},
-																				run: (*parser).callonListContinuationElement1716,
+																				pos: position{line: 2874, col: 12, offset: 90886},
+																				run: (*parser).callonListContinuationElement1722,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90855},
+																					pos: position{line: 2874, col: 13, offset: 90887},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90855},
+																							pos:        position{line: 2874, col: 13, offset: 90887},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90862},
+																							pos:        position{line: 2874, col: 20, offset: 90894},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90871},
+																							pos:        position{line: 2874, col: 29, offset: 90903},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37468,17 +37608,17 @@ var g = &grammar{
 																	pos: position{line: 1519, col: 5, offset: 49240},
 																	expr: &actionExpr{
 																		pos: position{line: 1589, col: 5, offset: 51257},
-																		run: (*parser).callonListContinuationElement1722,
+																		run: (*parser).callonListContinuationElement1728,
 																		expr: &seqExpr{
 																			pos: position{line: 1589, col: 5, offset: 51257},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1589, col: 5, offset: 51257},
 																					expr: &actionExpr{
-																						pos: position{line: 2864, col: 10, offset: 90683},
-																						run: (*parser).callonListContinuationElement1725,
+																						pos: position{line: 2865, col: 10, offset: 90715},
+																						run: (*parser).callonListContinuationElement1731,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2864, col: 10, offset: 90683},
+																							pos:        position{line: 2865, col: 10, offset: 90715},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37494,7 +37634,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 1591, col: 9, offset: 51327},
-																								run: (*parser).callonListContinuationElement1729,
+																								run: (*parser).callonListContinuationElement1735,
 																								expr: &seqExpr{
 																									pos: position{line: 1591, col: 9, offset: 51327},
 																									exprs: []interface{}{
@@ -37503,7 +37643,7 @@ var g = &grammar{
 																											label: "depth",
 																											expr: &actionExpr{
 																												pos: position{line: 1591, col: 16, offset: 51334},
-																												run: (*parser).callonListContinuationElement1732,
+																												run: (*parser).callonListContinuationElement1738,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 1591, col: 16, offset: 51334},
 																													expr: &litMatcher{
@@ -37517,14 +37657,14 @@ var g = &grammar{
 																										},
 																										&andCodeExpr{
 																											pos: position{line: 1595, col: 9, offset: 51435},
-																											run: (*parser).callonListContinuationElement1735,
+																											run: (*parser).callonListContinuationElement1741,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
 																								pos: position{line: 1614, col: 11, offset: 52152},
-																								run: (*parser).callonListContinuationElement1736,
+																								run: (*parser).callonListContinuationElement1742,
 																								expr: &seqExpr{
 																									pos: position{line: 1614, col: 11, offset: 52152},
 																									exprs: []interface{}{
@@ -37549,7 +37689,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1616, col: 13, offset: 52278},
-																								run: (*parser).callonListContinuationElement1741,
+																								run: (*parser).callonListContinuationElement1747,
 																								expr: &seqExpr{
 																									pos: position{line: 1616, col: 13, offset: 52278},
 																									exprs: []interface{}{
@@ -37571,7 +37711,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1618, col: 13, offset: 52406},
-																								run: (*parser).callonListContinuationElement1745,
+																								run: (*parser).callonListContinuationElement1751,
 																								expr: &seqExpr{
 																									pos: position{line: 1618, col: 13, offset: 52406},
 																									exprs: []interface{}{
@@ -37593,7 +37733,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1620, col: 13, offset: 52534},
-																								run: (*parser).callonListContinuationElement1749,
+																								run: (*parser).callonListContinuationElement1755,
 																								expr: &seqExpr{
 																									pos: position{line: 1620, col: 13, offset: 52534},
 																									exprs: []interface{}{
@@ -37618,7 +37758,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1622, col: 13, offset: 52667},
-																								run: (*parser).callonListContinuationElement1754,
+																								run: (*parser).callonListContinuationElement1760,
 																								expr: &seqExpr{
 																									pos: position{line: 1622, col: 13, offset: 52667},
 																									exprs: []interface{}{
@@ -37645,12 +37785,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2868, col: 11, offset: 90744},
-																					run: (*parser).callonListContinuationElement1759,
+																					pos: position{line: 2869, col: 11, offset: 90776},
+																					run: (*parser).callonListContinuationElement1765,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2868, col: 11, offset: 90744},
+																						pos: position{line: 2869, col: 11, offset: 90776},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 11, offset: 90744},
+																							pos:        position{line: 2869, col: 11, offset: 90776},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37666,17 +37806,17 @@ var g = &grammar{
 																	pos: position{line: 1520, col: 5, offset: 49270},
 																	expr: &actionExpr{
 																		pos: position{line: 1639, col: 5, offset: 53219},
-																		run: (*parser).callonListContinuationElement1763,
+																		run: (*parser).callonListContinuationElement1769,
 																		expr: &seqExpr{
 																			pos: position{line: 1639, col: 5, offset: 53219},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1639, col: 5, offset: 53219},
 																					expr: &actionExpr{
-																						pos: position{line: 2864, col: 10, offset: 90683},
-																						run: (*parser).callonListContinuationElement1766,
+																						pos: position{line: 2865, col: 10, offset: 90715},
+																						run: (*parser).callonListContinuationElement1772,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2864, col: 10, offset: 90683},
+																							pos:        position{line: 2865, col: 10, offset: 90715},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37689,7 +37829,7 @@ var g = &grammar{
 																					label: "style",
 																					expr: &actionExpr{
 																						pos: position{line: 1641, col: 9, offset: 53247},
-																						run: (*parser).callonListContinuationElement1769,
+																						run: (*parser).callonListContinuationElement1775,
 																						expr: &choiceExpr{
 																							pos: position{line: 1641, col: 10, offset: 53248},
 																							alternatives: []interface{}{
@@ -37714,15 +37854,15 @@ var g = &grammar{
 																				},
 																				&andCodeExpr{
 																					pos: position{line: 1644, col: 7, offset: 53347},
-																					run: (*parser).callonListContinuationElement1774,
+																					run: (*parser).callonListContinuationElement1780,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2868, col: 11, offset: 90744},
-																					run: (*parser).callonListContinuationElement1775,
+																					pos: position{line: 2869, col: 11, offset: 90776},
+																					run: (*parser).callonListContinuationElement1781,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2868, col: 11, offset: 90744},
+																						pos: position{line: 2869, col: 11, offset: 90776},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 11, offset: 90744},
+																							pos:        position{line: 2869, col: 11, offset: 90776},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37737,27 +37877,27 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 1521, col: 5, offset: 49302},
 																	expr: &actionExpr{
-																		pos: position{line: 1728, col: 5, offset: 55756},
-																		run: (*parser).callonListContinuationElement1779,
+																		pos: position{line: 1729, col: 5, offset: 55788},
+																		run: (*parser).callonListContinuationElement1785,
 																		expr: &seqExpr{
-																			pos: position{line: 1728, col: 5, offset: 55756},
+																			pos: position{line: 1729, col: 5, offset: 55788},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1728, col: 5, offset: 55756},
+																					pos:        position{line: 1729, col: 5, offset: 55788},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1728, col: 9, offset: 55760},
+																					pos:   position{line: 1729, col: 9, offset: 55792},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1728, col: 14, offset: 55765},
-																						run: (*parser).callonListContinuationElement1783,
+																						pos: position{line: 1729, col: 14, offset: 55797},
+																						run: (*parser).callonListContinuationElement1789,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1728, col: 14, offset: 55765},
+																							pos: position{line: 1729, col: 14, offset: 55797},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1728, col: 14, offset: 55765},
+																								pos:        position{line: 1729, col: 14, offset: 55797},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37767,18 +37907,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1728, col: 62, offset: 55813},
+																					pos:        position{line: 1729, col: 62, offset: 55845},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2868, col: 11, offset: 90744},
-																					run: (*parser).callonListContinuationElement1787,
+																					pos: position{line: 2869, col: 11, offset: 90776},
+																					run: (*parser).callonListContinuationElement1793,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2868, col: 11, offset: 90744},
+																						pos: position{line: 2869, col: 11, offset: 90776},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 11, offset: 90744},
+																							pos:        position{line: 2869, col: 11, offset: 90776},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37797,109 +37937,137 @@ var g = &grammar{
 																		exprs: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 1674, col: 5, offset: 54238},
-																				run: (*parser).callonListContinuationElement1792,
-																				expr: &oneOrMoreExpr{
+																				run: (*parser).callonListContinuationElement1798,
+																				expr: &seqExpr{
 																					pos: position{line: 1674, col: 5, offset: 54238},
-																					expr: &seqExpr{
-																						pos: position{line: 1674, col: 6, offset: 54239},
-																						exprs: []interface{}{
-																							&notExpr{
-																								pos: position{line: 1674, col: 6, offset: 54239},
-																								expr: &actionExpr{
-																									pos: position{line: 1679, col: 5, offset: 54389},
-																									run: (*parser).callonListContinuationElement1796,
-																									expr: &seqExpr{
-																										pos: position{line: 1679, col: 5, offset: 54389},
-																										exprs: []interface{}{
-																											&labeledExpr{
-																												pos:   position{line: 1679, col: 5, offset: 54389},
-																												label: "separator",
-																												expr: &actionExpr{
-																													pos: position{line: 1679, col: 16, offset: 54400},
-																													run: (*parser).callonListContinuationElement1799,
-																													expr: &oneOrMoreExpr{
-																														pos: position{line: 1679, col: 16, offset: 54400},
-																														expr: &litMatcher{
-																															pos:        position{line: 1679, col: 17, offset: 54401},
-																															val:        ":",
-																															ignoreCase: false,
-																															want:       "\":\"",
-																														},
-																													},
-																												},
-																											},
-																											&andCodeExpr{
-																												pos: position{line: 1682, col: 5, offset: 54458},
-																												run: (*parser).callonListContinuationElement1802,
-																											},
+																					exprs: []interface{}{
+																						&notExpr{
+																							pos: position{line: 1674, col: 5, offset: 54238},
+																							expr: &seqExpr{
+																								pos: position{line: 2480, col: 31, offset: 79879},
+																								exprs: []interface{}{
+																									&litMatcher{
+																										pos:        position{line: 2480, col: 31, offset: 79879},
+																										val:        "//",
+																										ignoreCase: false,
+																										want:       "\"//\"",
+																									},
+																									&notExpr{
+																										pos: position{line: 2480, col: 36, offset: 79884},
+																										expr: &litMatcher{
+																											pos:        position{line: 2480, col: 37, offset: 79885},
+																											val:        "//",
+																											ignoreCase: false,
+																											want:       "\"//\"",
 																										},
 																									},
 																								},
 																							},
-																							&notExpr{
-																								pos: position{line: 1674, col: 35, offset: 54268},
-																								expr: &choiceExpr{
-																									pos: position{line: 2886, col: 8, offset: 91081},
-																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 2873, col: 12, offset: 90854},
-																											run: (*parser).callonListContinuationElement1805,
-																											expr: &choiceExpr{
-																												pos: position{line: 2873, col: 13, offset: 90855},
-																												alternatives: []interface{}{
-																													&litMatcher{
-																														pos:        position{line: 2873, col: 13, offset: 90855},
-																														val:        "\n",
-																														ignoreCase: false,
-																														want:       "\"\\n\"",
-																													},
-																													&litMatcher{
-																														pos:        position{line: 2873, col: 20, offset: 90862},
-																														val:        "\r\n",
-																														ignoreCase: false,
-																														want:       "\"\\r\\n\"",
+																						},
+																						&oneOrMoreExpr{
+																							pos: position{line: 1675, col: 5, offset: 54270},
+																							expr: &seqExpr{
+																								pos: position{line: 1675, col: 6, offset: 54271},
+																								exprs: []interface{}{
+																									&notExpr{
+																										pos: position{line: 1675, col: 6, offset: 54271},
+																										expr: &actionExpr{
+																											pos: position{line: 1680, col: 5, offset: 54421},
+																											run: (*parser).callonListContinuationElement1808,
+																											expr: &seqExpr{
+																												pos: position{line: 1680, col: 5, offset: 54421},
+																												exprs: []interface{}{
+																													&labeledExpr{
+																														pos:   position{line: 1680, col: 5, offset: 54421},
+																														label: "separator",
+																														expr: &actionExpr{
+																															pos: position{line: 1680, col: 16, offset: 54432},
+																															run: (*parser).callonListContinuationElement1811,
+																															expr: &oneOrMoreExpr{
+																																pos: position{line: 1680, col: 16, offset: 54432},
+																																expr: &litMatcher{
+																																	pos:        position{line: 1680, col: 17, offset: 54433},
+																																	val:        ":",
+																																	ignoreCase: false,
+																																	want:       "\":\"",
+																																},
+																															},
+																														},
 																													},
-																													&litMatcher{
-																														pos:        position{line: 2873, col: 29, offset: 90871},
-																														val:        "\r",
-																														ignoreCase: false,
-																														want:       "\"\\r\"",
+																													&andCodeExpr{
+																														pos: position{line: 1683, col: 5, offset: 54490},
+																														run: (*parser).callonListContinuationElement1814,
 																													},
 																												},
 																											},
 																										},
-																										&notExpr{
-																											pos: position{line: 2883, col: 8, offset: 91031},
-																											expr: &anyMatcher{
-																												line: 2883, col: 9, offset: 91032,
+																									},
+																									&notExpr{
+																										pos: position{line: 1675, col: 35, offset: 54300},
+																										expr: &choiceExpr{
+																											pos: position{line: 2887, col: 8, offset: 91113},
+																											alternatives: []interface{}{
+																												&actionExpr{
+																													pos: position{line: 2874, col: 12, offset: 90886},
+																													run: (*parser).callonListContinuationElement1817,
+																													expr: &choiceExpr{
+																														pos: position{line: 2874, col: 13, offset: 90887},
+																														alternatives: []interface{}{
+																															&litMatcher{
+																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																val:        "\n",
+																																ignoreCase: false,
+																																want:       "\"\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																val:        "\r\n",
+																																ignoreCase: false,
+																																want:       "\"\\r\\n\"",
+																															},
+																															&litMatcher{
+																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																val:        "\r",
+																																ignoreCase: false,
+																																want:       "\"\\r\"",
+																															},
+																														},
+																													},
+																												},
+																												&notExpr{
+																													pos: position{line: 2884, col: 8, offset: 91063},
+																													expr: &anyMatcher{
+																														line: 2884, col: 9, offset: 91064,
+																													},
+																												},
 																											},
 																										},
 																									},
+																									&anyMatcher{
+																										line: 1675, col: 40, offset: 54305,
+																									},
 																								},
 																							},
-																							&anyMatcher{
-																								line: 1674, col: 40, offset: 54273,
-																							},
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1679, col: 5, offset: 54389},
-																				run: (*parser).callonListContinuationElement1813,
+																				pos: position{line: 1680, col: 5, offset: 54421},
+																				run: (*parser).callonListContinuationElement1825,
 																				expr: &seqExpr{
-																					pos: position{line: 1679, col: 5, offset: 54389},
+																					pos: position{line: 1680, col: 5, offset: 54421},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1679, col: 5, offset: 54389},
+																							pos:   position{line: 1680, col: 5, offset: 54421},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1679, col: 16, offset: 54400},
-																								run: (*parser).callonListContinuationElement1816,
+																								pos: position{line: 1680, col: 16, offset: 54432},
+																								run: (*parser).callonListContinuationElement1828,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1679, col: 16, offset: 54400},
+																									pos: position{line: 1680, col: 16, offset: 54432},
 																									expr: &litMatcher{
-																										pos:        position{line: 1679, col: 17, offset: 54401},
+																										pos:        position{line: 1680, col: 17, offset: 54433},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -37908,8 +38076,8 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1682, col: 5, offset: 54458},
-																							run: (*parser).callonListContinuationElement1819,
+																							pos: position{line: 1683, col: 5, offset: 54490},
+																							run: (*parser).callonListContinuationElement1831,
 																						},
 																					},
 																				},
@@ -37921,14 +38089,14 @@ var g = &grammar{
 																	pos: position{line: 1523, col: 5, offset: 49390},
 																	expr: &actionExpr{
 																		pos: position{line: 724, col: 5, offset: 23042},
-																		run: (*parser).callonListContinuationElement1821,
+																		run: (*parser).callonListContinuationElement1833,
 																		expr: &seqExpr{
 																			pos: position{line: 724, col: 5, offset: 23042},
 																			exprs: []interface{}{
 																				&notExpr{
 																					pos: position{line: 724, col: 5, offset: 23042},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2754, col: 13, offset: 87778},
+																						pos:        position{line: 2755, col: 13, offset: 87810},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -37943,7 +38111,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 740, col: 5, offset: 23584},
-																								run: (*parser).callonListContinuationElement1827,
+																								run: (*parser).callonListContinuationElement1839,
 																								expr: &seqExpr{
 																									pos: position{line: 740, col: 5, offset: 23584},
 																									exprs: []interface{}{
@@ -37952,7 +38120,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 740, col: 16, offset: 23595},
-																												run: (*parser).callonListContinuationElement1830,
+																												run: (*parser).callonListContinuationElement1842,
 																												expr: &seqExpr{
 																													pos: position{line: 740, col: 16, offset: 23595},
 																													exprs: []interface{}{
@@ -37978,10 +38146,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 742, col: 8, offset: 23686},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90683},
-																												run: (*parser).callonListContinuationElement1836,
+																												pos: position{line: 2865, col: 10, offset: 90715},
+																												run: (*parser).callonListContinuationElement1848,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90683},
+																													pos:        position{line: 2865, col: 10, offset: 90715},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -37990,28 +38158,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91081},
+																											pos: position{line: 2887, col: 8, offset: 91113},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90854},
-																													run: (*parser).callonListContinuationElement1839,
+																													pos: position{line: 2874, col: 12, offset: 90886},
+																													run: (*parser).callonListContinuationElement1851,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90855},
+																														pos: position{line: 2874, col: 13, offset: 90887},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90855},
+																																pos:        position{line: 2874, col: 13, offset: 90887},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90862},
+																																pos:        position{line: 2874, col: 20, offset: 90894},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90871},
+																																pos:        position{line: 2874, col: 29, offset: 90903},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38020,9 +38188,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 91031},
+																													pos: position{line: 2884, col: 8, offset: 91063},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 91032,
+																														line: 2884, col: 9, offset: 91064,
 																													},
 																												},
 																											},
@@ -38032,7 +38200,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 747, col: 5, offset: 23832},
-																								run: (*parser).callonListContinuationElement1846,
+																								run: (*parser).callonListContinuationElement1858,
 																								expr: &seqExpr{
 																									pos: position{line: 747, col: 5, offset: 23832},
 																									exprs: []interface{}{
@@ -38041,7 +38209,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 747, col: 16, offset: 23843},
-																												run: (*parser).callonListContinuationElement1849,
+																												run: (*parser).callonListContinuationElement1861,
 																												expr: &seqExpr{
 																													pos: position{line: 747, col: 16, offset: 23843},
 																													exprs: []interface{}{
@@ -38067,10 +38235,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 749, col: 8, offset: 23934},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90683},
-																												run: (*parser).callonListContinuationElement1855,
+																												pos: position{line: 2865, col: 10, offset: 90715},
+																												run: (*parser).callonListContinuationElement1867,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90683},
+																													pos:        position{line: 2865, col: 10, offset: 90715},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38079,28 +38247,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91081},
+																											pos: position{line: 2887, col: 8, offset: 91113},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90854},
-																													run: (*parser).callonListContinuationElement1858,
+																													pos: position{line: 2874, col: 12, offset: 90886},
+																													run: (*parser).callonListContinuationElement1870,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90855},
+																														pos: position{line: 2874, col: 13, offset: 90887},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90855},
+																																pos:        position{line: 2874, col: 13, offset: 90887},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90862},
+																																pos:        position{line: 2874, col: 20, offset: 90894},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90871},
+																																pos:        position{line: 2874, col: 29, offset: 90903},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38109,9 +38277,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 91031},
+																													pos: position{line: 2884, col: 8, offset: 91063},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 91032,
+																														line: 2884, col: 9, offset: 91064,
 																													},
 																												},
 																											},
@@ -38121,7 +38289,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 760, col: 26, offset: 24320},
-																								run: (*parser).callonListContinuationElement1865,
+																								run: (*parser).callonListContinuationElement1877,
 																								expr: &seqExpr{
 																									pos: position{line: 760, col: 26, offset: 24320},
 																									exprs: []interface{}{
@@ -38136,7 +38304,7 @@ var g = &grammar{
 																											label: "language",
 																											expr: &actionExpr{
 																												pos: position{line: 764, col: 13, offset: 24456},
-																												run: (*parser).callonListContinuationElement1869,
+																												run: (*parser).callonListContinuationElement1881,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 764, col: 14, offset: 24457},
 																													expr: &charClassMatcher{
@@ -38152,10 +38320,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 760, col: 52, offset: 24346},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90683},
-																												run: (*parser).callonListContinuationElement1873,
+																												pos: position{line: 2865, col: 10, offset: 90715},
+																												run: (*parser).callonListContinuationElement1885,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90683},
+																													pos:        position{line: 2865, col: 10, offset: 90715},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38164,28 +38332,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91081},
+																											pos: position{line: 2887, col: 8, offset: 91113},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90854},
-																													run: (*parser).callonListContinuationElement1876,
+																													pos: position{line: 2874, col: 12, offset: 90886},
+																													run: (*parser).callonListContinuationElement1888,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90855},
+																														pos: position{line: 2874, col: 13, offset: 90887},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90855},
+																																pos:        position{line: 2874, col: 13, offset: 90887},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90862},
+																																pos:        position{line: 2874, col: 20, offset: 90894},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90871},
+																																pos:        position{line: 2874, col: 29, offset: 90903},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38194,9 +38362,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 91031},
+																													pos: position{line: 2884, col: 8, offset: 91063},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 91032,
+																														line: 2884, col: 9, offset: 91064,
 																													},
 																												},
 																											},
@@ -38206,7 +38374,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 754, col: 5, offset: 24079},
-																								run: (*parser).callonListContinuationElement1883,
+																								run: (*parser).callonListContinuationElement1895,
 																								expr: &seqExpr{
 																									pos: position{line: 754, col: 5, offset: 24079},
 																									exprs: []interface{}{
@@ -38215,7 +38383,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 754, col: 16, offset: 24090},
-																												run: (*parser).callonListContinuationElement1886,
+																												run: (*parser).callonListContinuationElement1898,
 																												expr: &seqExpr{
 																													pos: position{line: 754, col: 16, offset: 24090},
 																													exprs: []interface{}{
@@ -38241,10 +38409,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24180},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90683},
-																												run: (*parser).callonListContinuationElement1892,
+																												pos: position{line: 2865, col: 10, offset: 90715},
+																												run: (*parser).callonListContinuationElement1904,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90683},
+																													pos:        position{line: 2865, col: 10, offset: 90715},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38253,28 +38421,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91081},
+																											pos: position{line: 2887, col: 8, offset: 91113},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90854},
-																													run: (*parser).callonListContinuationElement1895,
+																													pos: position{line: 2874, col: 12, offset: 90886},
+																													run: (*parser).callonListContinuationElement1907,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90855},
+																														pos: position{line: 2874, col: 13, offset: 90887},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90855},
+																																pos:        position{line: 2874, col: 13, offset: 90887},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90862},
+																																pos:        position{line: 2874, col: 20, offset: 90894},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90871},
+																																pos:        position{line: 2874, col: 29, offset: 90903},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38283,9 +38451,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 91031},
+																													pos: position{line: 2884, col: 8, offset: 91063},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 91032,
+																														line: 2884, col: 9, offset: 91064,
 																													},
 																												},
 																											},
@@ -38295,7 +38463,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 769, col: 5, offset: 24616},
-																								run: (*parser).callonListContinuationElement1902,
+																								run: (*parser).callonListContinuationElement1914,
 																								expr: &seqExpr{
 																									pos: position{line: 769, col: 5, offset: 24616},
 																									exprs: []interface{}{
@@ -38304,7 +38472,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 769, col: 16, offset: 24627},
-																												run: (*parser).callonListContinuationElement1905,
+																												run: (*parser).callonListContinuationElement1917,
 																												expr: &seqExpr{
 																													pos: position{line: 769, col: 16, offset: 24627},
 																													exprs: []interface{}{
@@ -38330,10 +38498,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 771, col: 8, offset: 24718},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90683},
-																												run: (*parser).callonListContinuationElement1911,
+																												pos: position{line: 2865, col: 10, offset: 90715},
+																												run: (*parser).callonListContinuationElement1923,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90683},
+																													pos:        position{line: 2865, col: 10, offset: 90715},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38342,28 +38510,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91081},
+																											pos: position{line: 2887, col: 8, offset: 91113},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90854},
-																													run: (*parser).callonListContinuationElement1914,
+																													pos: position{line: 2874, col: 12, offset: 90886},
+																													run: (*parser).callonListContinuationElement1926,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90855},
+																														pos: position{line: 2874, col: 13, offset: 90887},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90855},
+																																pos:        position{line: 2874, col: 13, offset: 90887},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90862},
+																																pos:        position{line: 2874, col: 20, offset: 90894},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90871},
+																																pos:        position{line: 2874, col: 29, offset: 90903},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38372,9 +38540,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 91031},
+																													pos: position{line: 2884, col: 8, offset: 91063},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 91032,
+																														line: 2884, col: 9, offset: 91064,
 																													},
 																												},
 																											},
@@ -38384,7 +38552,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 783, col: 5, offset: 25092},
-																								run: (*parser).callonListContinuationElement1921,
+																								run: (*parser).callonListContinuationElement1933,
 																								expr: &seqExpr{
 																									pos: position{line: 783, col: 5, offset: 25092},
 																									exprs: []interface{}{
@@ -38393,7 +38561,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 783, col: 16, offset: 25103},
-																												run: (*parser).callonListContinuationElement1924,
+																												run: (*parser).callonListContinuationElement1936,
 																												expr: &seqExpr{
 																													pos: position{line: 783, col: 16, offset: 25103},
 																													exprs: []interface{}{
@@ -38419,10 +38587,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25194},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90683},
-																												run: (*parser).callonListContinuationElement1930,
+																												pos: position{line: 2865, col: 10, offset: 90715},
+																												run: (*parser).callonListContinuationElement1942,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90683},
+																													pos:        position{line: 2865, col: 10, offset: 90715},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38431,28 +38599,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91081},
+																											pos: position{line: 2887, col: 8, offset: 91113},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90854},
-																													run: (*parser).callonListContinuationElement1933,
+																													pos: position{line: 2874, col: 12, offset: 90886},
+																													run: (*parser).callonListContinuationElement1945,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90855},
+																														pos: position{line: 2874, col: 13, offset: 90887},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90855},
+																																pos:        position{line: 2874, col: 13, offset: 90887},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90862},
+																																pos:        position{line: 2874, col: 20, offset: 90894},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90871},
+																																pos:        position{line: 2874, col: 29, offset: 90903},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38461,9 +38629,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 91031},
+																													pos: position{line: 2884, col: 8, offset: 91063},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 91032,
+																														line: 2884, col: 9, offset: 91064,
 																													},
 																												},
 																											},
@@ -38473,7 +38641,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 790, col: 5, offset: 25344},
-																								run: (*parser).callonListContinuationElement1940,
+																								run: (*parser).callonListContinuationElement1952,
 																								expr: &seqExpr{
 																									pos: position{line: 790, col: 5, offset: 25344},
 																									exprs: []interface{}{
@@ -38482,7 +38650,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 790, col: 16, offset: 25355},
-																												run: (*parser).callonListContinuationElement1943,
+																												run: (*parser).callonListContinuationElement1955,
 																												expr: &seqExpr{
 																													pos: position{line: 790, col: 16, offset: 25355},
 																													exprs: []interface{}{
@@ -38508,10 +38676,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 792, col: 8, offset: 25446},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90683},
-																												run: (*parser).callonListContinuationElement1949,
+																												pos: position{line: 2865, col: 10, offset: 90715},
+																												run: (*parser).callonListContinuationElement1961,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90683},
+																													pos:        position{line: 2865, col: 10, offset: 90715},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38520,28 +38688,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91081},
+																											pos: position{line: 2887, col: 8, offset: 91113},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90854},
-																													run: (*parser).callonListContinuationElement1952,
+																													pos: position{line: 2874, col: 12, offset: 90886},
+																													run: (*parser).callonListContinuationElement1964,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90855},
+																														pos: position{line: 2874, col: 13, offset: 90887},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90855},
+																																pos:        position{line: 2874, col: 13, offset: 90887},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90862},
+																																pos:        position{line: 2874, col: 20, offset: 90894},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90871},
+																																pos:        position{line: 2874, col: 29, offset: 90903},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38550,9 +38718,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 91031},
+																													pos: position{line: 2884, col: 8, offset: 91063},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 91032,
+																														line: 2884, col: 9, offset: 91064,
 																													},
 																												},
 																											},
@@ -38562,7 +38730,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 797, col: 5, offset: 25594},
-																								run: (*parser).callonListContinuationElement1959,
+																								run: (*parser).callonListContinuationElement1971,
 																								expr: &seqExpr{
 																									pos: position{line: 797, col: 5, offset: 25594},
 																									exprs: []interface{}{
@@ -38571,7 +38739,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 797, col: 16, offset: 25605},
-																												run: (*parser).callonListContinuationElement1962,
+																												run: (*parser).callonListContinuationElement1974,
 																												expr: &seqExpr{
 																													pos: position{line: 797, col: 16, offset: 25605},
 																													exprs: []interface{}{
@@ -38597,10 +38765,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25696},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90683},
-																												run: (*parser).callonListContinuationElement1968,
+																												pos: position{line: 2865, col: 10, offset: 90715},
+																												run: (*parser).callonListContinuationElement1980,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90683},
+																													pos:        position{line: 2865, col: 10, offset: 90715},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38609,28 +38777,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91081},
+																											pos: position{line: 2887, col: 8, offset: 91113},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90854},
-																													run: (*parser).callonListContinuationElement1971,
+																													pos: position{line: 2874, col: 12, offset: 90886},
+																													run: (*parser).callonListContinuationElement1983,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90855},
+																														pos: position{line: 2874, col: 13, offset: 90887},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90855},
+																																pos:        position{line: 2874, col: 13, offset: 90887},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90862},
+																																pos:        position{line: 2874, col: 20, offset: 90894},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90871},
+																																pos:        position{line: 2874, col: 29, offset: 90903},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38639,9 +38807,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 91031},
+																													pos: position{line: 2884, col: 8, offset: 91063},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 91032,
+																														line: 2884, col: 9, offset: 91064,
 																													},
 																												},
 																											},
@@ -38651,7 +38819,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 804, col: 5, offset: 25840},
-																								run: (*parser).callonListContinuationElement1978,
+																								run: (*parser).callonListContinuationElement1990,
 																								expr: &seqExpr{
 																									pos: position{line: 804, col: 5, offset: 25840},
 																									exprs: []interface{}{
@@ -38660,7 +38828,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 804, col: 16, offset: 25851},
-																												run: (*parser).callonListContinuationElement1981,
+																												run: (*parser).callonListContinuationElement1993,
 																												expr: &seqExpr{
 																													pos: position{line: 804, col: 16, offset: 25851},
 																													exprs: []interface{}{
@@ -38686,10 +38854,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25942},
 																											expr: &actionExpr{
-																												pos: position{line: 2864, col: 10, offset: 90683},
-																												run: (*parser).callonListContinuationElement1987,
+																												pos: position{line: 2865, col: 10, offset: 90715},
+																												run: (*parser).callonListContinuationElement1999,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2864, col: 10, offset: 90683},
+																													pos:        position{line: 2865, col: 10, offset: 90715},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38698,28 +38866,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2886, col: 8, offset: 91081},
+																											pos: position{line: 2887, col: 8, offset: 91113},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2873, col: 12, offset: 90854},
-																													run: (*parser).callonListContinuationElement1990,
+																													pos: position{line: 2874, col: 12, offset: 90886},
+																													run: (*parser).callonListContinuationElement2002,
 																													expr: &choiceExpr{
-																														pos: position{line: 2873, col: 13, offset: 90855},
+																														pos: position{line: 2874, col: 13, offset: 90887},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 13, offset: 90855},
+																																pos:        position{line: 2874, col: 13, offset: 90887},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 20, offset: 90862},
+																																pos:        position{line: 2874, col: 20, offset: 90894},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2873, col: 29, offset: 90871},
+																																pos:        position{line: 2874, col: 29, offset: 90903},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38728,9 +38896,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2883, col: 8, offset: 91031},
+																													pos: position{line: 2884, col: 8, offset: 91063},
 																													expr: &anyMatcher{
-																														line: 2883, col: 9, offset: 91032,
+																														line: 2884, col: 9, offset: 91064,
 																													},
 																												},
 																											},
@@ -38749,12 +38917,12 @@ var g = &grammar{
 																	pos:   position{line: 1524, col: 5, offset: 49410},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2814, col: 14, offset: 89276},
-																		run: (*parser).callonListContinuationElement1998,
+																		pos: position{line: 2815, col: 14, offset: 89308},
+																		run: (*parser).callonListContinuationElement2010,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2814, col: 14, offset: 89276},
+																			pos: position{line: 2815, col: 14, offset: 89308},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2814, col: 14, offset: 89276},
+																				pos:        position{line: 2815, col: 14, offset: 89308},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38764,28 +38932,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
-																			run: (*parser).callonListContinuationElement2002,
+																			pos: position{line: 2874, col: 12, offset: 90886},
+																			run: (*parser).callonListContinuationElement2014,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38794,9 +38962,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -38817,33 +38985,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1712, col: 1, offset: 55250},
+			pos:  position{line: 1713, col: 1, offset: 55282},
 			expr: &actionExpr{
-				pos: position{line: 1714, col: 5, offset: 55328},
+				pos: position{line: 1715, col: 5, offset: 55360},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1714, col: 5, offset: 55328},
+					pos: position{line: 1715, col: 5, offset: 55360},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1714, col: 5, offset: 55328},
+							pos: position{line: 1715, col: 5, offset: 55360},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1717, col: 5, offset: 55395},
+							pos:        position{line: 1718, col: 5, offset: 55427},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1717, col: 9, offset: 55399},
+							pos:   position{line: 1718, col: 9, offset: 55431},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1717, col: 14, offset: 55404},
+								pos: position{line: 1718, col: 14, offset: 55436},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1717, col: 14, offset: 55404},
+									pos: position{line: 1718, col: 14, offset: 55436},
 									expr: &charClassMatcher{
-										pos:        position{line: 1717, col: 14, offset: 55404},
+										pos:        position{line: 1718, col: 14, offset: 55436},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -38853,18 +39021,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1717, col: 62, offset: 55452},
+							pos:        position{line: 1718, col: 62, offset: 55484},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1717, col: 66, offset: 55456},
+							pos: position{line: 1718, col: 66, offset: 55488},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90683},
+								pos: position{line: 2865, col: 10, offset: 90715},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90683},
+									pos:        position{line: 2865, col: 10, offset: 90715},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -38873,30 +39041,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1717, col: 73, offset: 55463},
+							pos: position{line: 1718, col: 73, offset: 55495},
 							expr: &choiceExpr{
-								pos: position{line: 1717, col: 75, offset: 55465},
+								pos: position{line: 1718, col: 75, offset: 55497},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2873, col: 12, offset: 90854},
+										pos: position{line: 2874, col: 12, offset: 90886},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2873, col: 13, offset: 90855},
+											pos: position{line: 2874, col: 13, offset: 90887},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2873, col: 13, offset: 90855},
+													pos:        position{line: 2874, col: 13, offset: 90887},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2873, col: 20, offset: 90862},
+													pos:        position{line: 2874, col: 20, offset: 90894},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2873, col: 29, offset: 90871},
+													pos:        position{line: 2874, col: 29, offset: 90903},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -38905,13 +39073,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2883, col: 8, offset: 91031},
+										pos: position{line: 2884, col: 8, offset: 91063},
 										expr: &anyMatcher{
-											line: 2883, col: 9, offset: 91032,
+											line: 2884, col: 9, offset: 91064,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1717, col: 81, offset: 55471},
+										pos:  position{line: 1718, col: 81, offset: 55503},
 										name: "Callout",
 									},
 								},
@@ -38923,44 +39091,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1756, col: 1, offset: 56644},
+			pos:  position{line: 1757, col: 1, offset: 56676},
 			expr: &actionExpr{
-				pos: position{line: 1758, col: 5, offset: 56718},
+				pos: position{line: 1759, col: 5, offset: 56750},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1758, col: 5, offset: 56718},
+					pos: position{line: 1759, col: 5, offset: 56750},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1758, col: 5, offset: 56718},
+							pos: position{line: 1759, col: 5, offset: 56750},
 							expr: &seqExpr{
-								pos: position{line: 1758, col: 7, offset: 56720},
+								pos: position{line: 1759, col: 7, offset: 56752},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2754, col: 13, offset: 87778},
+										pos:        position{line: 2755, col: 13, offset: 87810},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1758, col: 16, offset: 56729},
+										pos: position{line: 1759, col: 16, offset: 56761},
 										expr: &seqExpr{
-											pos: position{line: 1758, col: 18, offset: 56731},
+											pos: position{line: 1759, col: 18, offset: 56763},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1758, col: 19, offset: 56732},
+													pos:        position{line: 1759, col: 19, offset: 56764},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2868, col: 11, offset: 90744},
+													pos: position{line: 2869, col: 11, offset: 90776},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2868, col: 11, offset: 90744},
+														pos: position{line: 2869, col: 11, offset: 90776},
 														expr: &charClassMatcher{
-															pos:        position{line: 2868, col: 11, offset: 90744},
+															pos:        position{line: 2869, col: 11, offset: 90776},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -38975,88 +39143,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1759, col: 5, offset: 56872},
+							pos:   position{line: 1760, col: 5, offset: 56904},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1759, col: 11, offset: 56878},
+								pos: position{line: 1760, col: 11, offset: 56910},
 								expr: &actionExpr{
-									pos: position{line: 1737, col: 5, offset: 56141},
+									pos: position{line: 1738, col: 5, offset: 56173},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1737, col: 5, offset: 56141},
+										pos: position{line: 1738, col: 5, offset: 56173},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1737, col: 5, offset: 56141},
+												pos: position{line: 1738, col: 5, offset: 56173},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1740, col: 5, offset: 56204},
+												pos:   position{line: 1741, col: 5, offset: 56236},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1740, col: 12, offset: 56211},
+													pos: position{line: 1741, col: 12, offset: 56243},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1740, col: 12, offset: 56211},
+															pos: position{line: 1741, col: 12, offset: 56243},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1740, col: 12, offset: 56211},
+																pos:        position{line: 1741, col: 12, offset: 56243},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1742, col: 13, offset: 56267},
+															pos: position{line: 1743, col: 13, offset: 56299},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1742, col: 13, offset: 56267},
+																pos:        position{line: 1743, col: 13, offset: 56299},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1744, col: 13, offset: 56325},
+															pos: position{line: 1745, col: 13, offset: 56357},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1744, col: 13, offset: 56325},
+																pos:        position{line: 1745, col: 13, offset: 56357},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1746, col: 13, offset: 56393},
+															pos: position{line: 1747, col: 13, offset: 56425},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1746, col: 13, offset: 56393},
+																pos:        position{line: 1747, col: 13, offset: 56425},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1748, col: 13, offset: 56457},
+															pos: position{line: 1749, col: 13, offset: 56489},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1748, col: 13, offset: 56457},
+																pos:        position{line: 1749, col: 13, offset: 56489},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1750, col: 13, offset: 56521},
+															pos: position{line: 1751, col: 13, offset: 56553},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1750, col: 13, offset: 56521},
+																pos: position{line: 1751, col: 13, offset: 56553},
 																expr: &actionExpr{
-																	pos: position{line: 2868, col: 11, offset: 90744},
+																	pos: position{line: 2869, col: 11, offset: 90776},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2868, col: 11, offset: 90744},
+																		pos: position{line: 2869, col: 11, offset: 90776},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 11, offset: 90744},
+																			pos:        position{line: 2869, col: 11, offset: 90776},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39075,24 +39243,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1760, col: 5, offset: 56900},
+							pos:   position{line: 1761, col: 5, offset: 56932},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1796, col: 5, offset: 58007},
+								pos: position{line: 1797, col: 5, offset: 58039},
 								run: (*parser).callonShortcutParagraph35,
 								expr: &seqExpr{
-									pos: position{line: 1796, col: 5, offset: 58007},
+									pos: position{line: 1797, col: 5, offset: 58039},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1796, col: 5, offset: 58007},
+											pos:   position{line: 1797, col: 5, offset: 58039},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2814, col: 14, offset: 89276},
+												pos: position{line: 2815, col: 14, offset: 89308},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2814, col: 14, offset: 89276},
+													pos: position{line: 2815, col: 14, offset: 89308},
 													expr: &charClassMatcher{
-														pos:        position{line: 2814, col: 14, offset: 89276},
+														pos:        position{line: 2815, col: 14, offset: 89308},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39102,32 +39270,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1797, col: 5, offset: 58031},
+											pos: position{line: 1798, col: 5, offset: 58063},
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2886, col: 8, offset: 91081},
+											pos: position{line: 2887, col: 8, offset: 91113},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2873, col: 12, offset: 90854},
+													pos: position{line: 2874, col: 12, offset: 90886},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2873, col: 13, offset: 90855},
+														pos: position{line: 2874, col: 13, offset: 90887},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2873, col: 13, offset: 90855},
+																pos:        position{line: 2874, col: 13, offset: 90887},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2873, col: 20, offset: 90862},
+																pos:        position{line: 2874, col: 20, offset: 90894},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2873, col: 29, offset: 90871},
+																pos:        position{line: 2874, col: 29, offset: 90903},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39136,9 +39304,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2883, col: 8, offset: 91031},
+													pos: position{line: 2884, col: 8, offset: 91063},
 													expr: &anyMatcher{
-														line: 2883, col: 9, offset: 91032,
+														line: 2884, col: 9, offset: 91064,
 													},
 												},
 											},
@@ -39148,28 +39316,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1761, col: 5, offset: 56934},
+							pos: position{line: 1762, col: 5, offset: 56966},
 							run: (*parser).callonShortcutParagraph50,
 						},
 						&labeledExpr{
-							pos:   position{line: 1768, col: 5, offset: 57264},
+							pos:   position{line: 1769, col: 5, offset: 57296},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1768, col: 16, offset: 57275},
+								pos: position{line: 1769, col: 16, offset: 57307},
 								expr: &actionExpr{
-									pos: position{line: 1769, col: 9, offset: 57285},
+									pos: position{line: 1770, col: 9, offset: 57317},
 									run: (*parser).callonShortcutParagraph53,
 									expr: &seqExpr{
-										pos: position{line: 1769, col: 9, offset: 57285},
+										pos: position{line: 1770, col: 9, offset: 57317},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2881, col: 11, offset: 91017},
+												pos: position{line: 2882, col: 11, offset: 91049},
 												expr: &anyMatcher{
-													line: 2881, col: 13, offset: 91019,
+													line: 2882, col: 13, offset: 91051,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1770, col: 9, offset: 57301},
+												pos: position{line: 1771, col: 9, offset: 57333},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21489},
 													run: (*parser).callonShortcutParagraph58,
@@ -39177,18 +39345,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2881, col: 11, offset: 91017},
+																pos: position{line: 2882, col: 11, offset: 91049},
 																expr: &anyMatcher{
-																	line: 2881, col: 13, offset: 91019,
+																	line: 2882, col: 13, offset: 91051,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2864, col: 10, offset: 90683},
+																	pos: position{line: 2865, col: 10, offset: 90715},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2864, col: 10, offset: 90683},
+																		pos:        position{line: 2865, col: 10, offset: 90715},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39197,28 +39365,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2886, col: 8, offset: 91081},
+																pos: position{line: 2887, col: 8, offset: 91113},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2873, col: 12, offset: 90854},
+																		pos: position{line: 2874, col: 12, offset: 90886},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2873, col: 13, offset: 90855},
+																			pos: position{line: 2874, col: 13, offset: 90887},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 13, offset: 90855},
+																					pos:        position{line: 2874, col: 13, offset: 90887},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 20, offset: 90862},
+																					pos:        position{line: 2874, col: 20, offset: 90894},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 29, offset: 90871},
+																					pos:        position{line: 2874, col: 29, offset: 90903},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39227,9 +39395,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 91031},
+																		pos: position{line: 2884, col: 8, offset: 91063},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 91032,
+																			line: 2884, col: 9, offset: 91064,
 																		},
 																	},
 																},
@@ -39239,14 +39407,14 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1771, col: 9, offset: 57320},
+												pos: position{line: 1772, col: 9, offset: 57352},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1771, col: 10, offset: 57321},
+													pos:  position{line: 1772, col: 10, offset: 57353},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1772, col: 9, offset: 57345},
+												pos: position{line: 1773, col: 9, offset: 57377},
 												expr: &actionExpr{
 													pos: position{line: 724, col: 5, offset: 23042},
 													run: (*parser).callonShortcutParagraph76,
@@ -39256,7 +39424,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 724, col: 5, offset: 23042},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2754, col: 13, offset: 87778},
+																	pos:        position{line: 2755, col: 13, offset: 87810},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39306,10 +39474,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 742, col: 8, offset: 23686},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90683},
+																							pos: position{line: 2865, col: 10, offset: 90715},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90683},
+																								pos:        position{line: 2865, col: 10, offset: 90715},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39318,28 +39486,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91081},
+																						pos: position{line: 2887, col: 8, offset: 91113},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90854},
+																								pos: position{line: 2874, col: 12, offset: 90886},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90855},
+																									pos: position{line: 2874, col: 13, offset: 90887},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90855},
+																											pos:        position{line: 2874, col: 13, offset: 90887},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90862},
+																											pos:        position{line: 2874, col: 20, offset: 90894},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90871},
+																											pos:        position{line: 2874, col: 29, offset: 90903},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39348,9 +39516,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 91031},
+																								pos: position{line: 2884, col: 8, offset: 91063},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 91032,
+																									line: 2884, col: 9, offset: 91064,
 																								},
 																							},
 																						},
@@ -39395,10 +39563,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 749, col: 8, offset: 23934},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90683},
+																							pos: position{line: 2865, col: 10, offset: 90715},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90683},
+																								pos:        position{line: 2865, col: 10, offset: 90715},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39407,28 +39575,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91081},
+																						pos: position{line: 2887, col: 8, offset: 91113},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90854},
+																								pos: position{line: 2874, col: 12, offset: 90886},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90855},
+																									pos: position{line: 2874, col: 13, offset: 90887},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90855},
+																											pos:        position{line: 2874, col: 13, offset: 90887},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90862},
+																											pos:        position{line: 2874, col: 20, offset: 90894},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90871},
+																											pos:        position{line: 2874, col: 29, offset: 90903},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39437,9 +39605,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 91031},
+																								pos: position{line: 2884, col: 8, offset: 91063},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 91032,
+																									line: 2884, col: 9, offset: 91064,
 																								},
 																							},
 																						},
@@ -39480,10 +39648,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 760, col: 52, offset: 24346},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90683},
+																							pos: position{line: 2865, col: 10, offset: 90715},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90683},
+																								pos:        position{line: 2865, col: 10, offset: 90715},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39492,28 +39660,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91081},
+																						pos: position{line: 2887, col: 8, offset: 91113},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90854},
+																								pos: position{line: 2874, col: 12, offset: 90886},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90855},
+																									pos: position{line: 2874, col: 13, offset: 90887},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90855},
+																											pos:        position{line: 2874, col: 13, offset: 90887},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90862},
+																											pos:        position{line: 2874, col: 20, offset: 90894},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90871},
+																											pos:        position{line: 2874, col: 29, offset: 90903},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39522,9 +39690,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 91031},
+																								pos: position{line: 2884, col: 8, offset: 91063},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 91032,
+																									line: 2884, col: 9, offset: 91064,
 																								},
 																							},
 																						},
@@ -39569,10 +39737,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 756, col: 8, offset: 24180},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90683},
+																							pos: position{line: 2865, col: 10, offset: 90715},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90683},
+																								pos:        position{line: 2865, col: 10, offset: 90715},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39581,28 +39749,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91081},
+																						pos: position{line: 2887, col: 8, offset: 91113},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90854},
+																								pos: position{line: 2874, col: 12, offset: 90886},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90855},
+																									pos: position{line: 2874, col: 13, offset: 90887},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90855},
+																											pos:        position{line: 2874, col: 13, offset: 90887},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90862},
+																											pos:        position{line: 2874, col: 20, offset: 90894},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90871},
+																											pos:        position{line: 2874, col: 29, offset: 90903},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39611,9 +39779,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 91031},
+																								pos: position{line: 2884, col: 8, offset: 91063},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 91032,
+																									line: 2884, col: 9, offset: 91064,
 																								},
 																							},
 																						},
@@ -39658,10 +39826,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 771, col: 8, offset: 24718},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90683},
+																							pos: position{line: 2865, col: 10, offset: 90715},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90683},
+																								pos:        position{line: 2865, col: 10, offset: 90715},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39670,28 +39838,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91081},
+																						pos: position{line: 2887, col: 8, offset: 91113},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90854},
+																								pos: position{line: 2874, col: 12, offset: 90886},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90855},
+																									pos: position{line: 2874, col: 13, offset: 90887},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90855},
+																											pos:        position{line: 2874, col: 13, offset: 90887},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90862},
+																											pos:        position{line: 2874, col: 20, offset: 90894},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90871},
+																											pos:        position{line: 2874, col: 29, offset: 90903},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39700,9 +39868,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 91031},
+																								pos: position{line: 2884, col: 8, offset: 91063},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 91032,
+																									line: 2884, col: 9, offset: 91064,
 																								},
 																							},
 																						},
@@ -39747,10 +39915,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 785, col: 8, offset: 25194},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90683},
+																							pos: position{line: 2865, col: 10, offset: 90715},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90683},
+																								pos:        position{line: 2865, col: 10, offset: 90715},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39759,28 +39927,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91081},
+																						pos: position{line: 2887, col: 8, offset: 91113},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90854},
+																								pos: position{line: 2874, col: 12, offset: 90886},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90855},
+																									pos: position{line: 2874, col: 13, offset: 90887},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90855},
+																											pos:        position{line: 2874, col: 13, offset: 90887},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90862},
+																											pos:        position{line: 2874, col: 20, offset: 90894},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90871},
+																											pos:        position{line: 2874, col: 29, offset: 90903},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39789,9 +39957,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 91031},
+																								pos: position{line: 2884, col: 8, offset: 91063},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 91032,
+																									line: 2884, col: 9, offset: 91064,
 																								},
 																							},
 																						},
@@ -39836,10 +40004,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 792, col: 8, offset: 25446},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90683},
+																							pos: position{line: 2865, col: 10, offset: 90715},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90683},
+																								pos:        position{line: 2865, col: 10, offset: 90715},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39848,28 +40016,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91081},
+																						pos: position{line: 2887, col: 8, offset: 91113},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90854},
+																								pos: position{line: 2874, col: 12, offset: 90886},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90855},
+																									pos: position{line: 2874, col: 13, offset: 90887},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90855},
+																											pos:        position{line: 2874, col: 13, offset: 90887},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90862},
+																											pos:        position{line: 2874, col: 20, offset: 90894},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90871},
+																											pos:        position{line: 2874, col: 29, offset: 90903},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39878,9 +40046,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 91031},
+																								pos: position{line: 2884, col: 8, offset: 91063},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 91032,
+																									line: 2884, col: 9, offset: 91064,
 																								},
 																							},
 																						},
@@ -39925,10 +40093,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 799, col: 8, offset: 25696},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90683},
+																							pos: position{line: 2865, col: 10, offset: 90715},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90683},
+																								pos:        position{line: 2865, col: 10, offset: 90715},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39937,28 +40105,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91081},
+																						pos: position{line: 2887, col: 8, offset: 91113},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90854},
+																								pos: position{line: 2874, col: 12, offset: 90886},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90855},
+																									pos: position{line: 2874, col: 13, offset: 90887},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90855},
+																											pos:        position{line: 2874, col: 13, offset: 90887},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90862},
+																											pos:        position{line: 2874, col: 20, offset: 90894},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90871},
+																											pos:        position{line: 2874, col: 29, offset: 90903},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39967,9 +40135,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 91031},
+																								pos: position{line: 2884, col: 8, offset: 91063},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 91032,
+																									line: 2884, col: 9, offset: 91064,
 																								},
 																							},
 																						},
@@ -40014,10 +40182,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 806, col: 8, offset: 25942},
 																						expr: &actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90683},
+																							pos: position{line: 2865, col: 10, offset: 90715},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90683},
+																								pos:        position{line: 2865, col: 10, offset: 90715},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40026,28 +40194,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2886, col: 8, offset: 91081},
+																						pos: position{line: 2887, col: 8, offset: 91113},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2873, col: 12, offset: 90854},
+																								pos: position{line: 2874, col: 12, offset: 90886},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2873, col: 13, offset: 90855},
+																									pos: position{line: 2874, col: 13, offset: 90887},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 13, offset: 90855},
+																											pos:        position{line: 2874, col: 13, offset: 90887},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 20, offset: 90862},
+																											pos:        position{line: 2874, col: 20, offset: 90894},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2873, col: 29, offset: 90871},
+																											pos:        position{line: 2874, col: 29, offset: 90903},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40056,9 +40224,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2883, col: 8, offset: 91031},
+																								pos: position{line: 2884, col: 8, offset: 91063},
 																								expr: &anyMatcher{
-																									line: 2883, col: 9, offset: 91032,
+																									line: 2884, col: 9, offset: 91064,
 																								},
 																							},
 																						},
@@ -40074,7 +40242,7 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1773, col: 9, offset: 57369},
+												pos: position{line: 1774, col: 9, offset: 57401},
 												expr: &seqExpr{
 													pos: position{line: 1548, col: 27, offset: 50038},
 													exprs: []interface{}{
@@ -40087,10 +40255,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1548, col: 31, offset: 50042},
 															expr: &actionExpr{
-																pos: position{line: 2864, col: 10, offset: 90683},
+																pos: position{line: 2865, col: 10, offset: 90715},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2864, col: 10, offset: 90683},
+																	pos:        position{line: 2865, col: 10, offset: 90715},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40099,25 +40267,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90854},
+															pos: position{line: 2874, col: 12, offset: 90886},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90855},
+																pos: position{line: 2874, col: 13, offset: 90887},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90855},
+																		pos:        position{line: 2874, col: 13, offset: 90887},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90862},
+																		pos:        position{line: 2874, col: 20, offset: 90894},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90871},
+																		pos:        position{line: 2874, col: 29, offset: 90903},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40129,42 +40297,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1774, col: 9, offset: 57401},
+												pos:   position{line: 1775, col: 9, offset: 57433},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1774, col: 15, offset: 57407},
+													pos: position{line: 1775, col: 15, offset: 57439},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2474, col: 22, offset: 79626},
+															pos: position{line: 2475, col: 22, offset: 79658},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2474, col: 22, offset: 79626},
+																pos: position{line: 2475, col: 22, offset: 79658},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2479, col: 31, offset: 79847},
+																		pos:        position{line: 2480, col: 31, offset: 79879},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2479, col: 36, offset: 79852},
+																		pos: position{line: 2480, col: 36, offset: 79884},
 																		expr: &litMatcher{
-																			pos:        position{line: 2479, col: 37, offset: 79853},
+																			pos:        position{line: 2480, col: 37, offset: 79885},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2474, col: 49, offset: 79653},
+																		pos:   position{line: 2475, col: 49, offset: 79685},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2810, col: 13, offset: 89209},
+																			pos: position{line: 2811, col: 13, offset: 89241},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2810, col: 13, offset: 89209},
+																				pos: position{line: 2811, col: 13, offset: 89241},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2810, col: 13, offset: 89209},
+																					pos:        position{line: 2811, col: 13, offset: 89241},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40174,28 +40342,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91081},
+																		pos: position{line: 2887, col: 8, offset: 91113},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90854},
+																				pos: position{line: 2874, col: 12, offset: 90886},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90855},
+																					pos: position{line: 2874, col: 13, offset: 90887},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90855},
+																							pos:        position{line: 2874, col: 13, offset: 90887},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90862},
+																							pos:        position{line: 2874, col: 20, offset: 90894},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90871},
+																							pos:        position{line: 2874, col: 29, offset: 90903},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40204,9 +40372,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 91031},
+																				pos: position{line: 2884, col: 8, offset: 91063},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 91032,
+																					line: 2884, col: 9, offset: 91064,
 																				},
 																			},
 																		},
@@ -40215,21 +40383,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1796, col: 5, offset: 58007},
+															pos: position{line: 1797, col: 5, offset: 58039},
 															run: (*parser).callonShortcutParagraph282,
 															expr: &seqExpr{
-																pos: position{line: 1796, col: 5, offset: 58007},
+																pos: position{line: 1797, col: 5, offset: 58039},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1796, col: 5, offset: 58007},
+																		pos:   position{line: 1797, col: 5, offset: 58039},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2814, col: 14, offset: 89276},
+																			pos: position{line: 2815, col: 14, offset: 89308},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2814, col: 14, offset: 89276},
+																				pos: position{line: 2815, col: 14, offset: 89308},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2814, col: 14, offset: 89276},
+																					pos:        position{line: 2815, col: 14, offset: 89308},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40239,32 +40407,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1797, col: 5, offset: 58031},
+																		pos: position{line: 1798, col: 5, offset: 58063},
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91081},
+																		pos: position{line: 2887, col: 8, offset: 91113},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90854},
+																				pos: position{line: 2874, col: 12, offset: 90886},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90855},
+																					pos: position{line: 2874, col: 13, offset: 90887},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90855},
+																							pos:        position{line: 2874, col: 13, offset: 90887},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90862},
+																							pos:        position{line: 2874, col: 20, offset: 90894},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90871},
+																							pos:        position{line: 2874, col: 29, offset: 90903},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40273,9 +40441,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 91031},
+																				pos: position{line: 2884, col: 8, offset: 91063},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 91032,
+																					line: 2884, col: 9, offset: 91064,
 																				},
 																			},
 																		},
@@ -40297,96 +40465,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1781, col: 1, offset: 57611},
+			pos:  position{line: 1782, col: 1, offset: 57643},
 			expr: &actionExpr{
-				pos: position{line: 1782, col: 5, offset: 57629},
+				pos: position{line: 1783, col: 5, offset: 57661},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1782, col: 5, offset: 57629},
+					pos: position{line: 1783, col: 5, offset: 57661},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1782, col: 5, offset: 57629},
+							pos:   position{line: 1783, col: 5, offset: 57661},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1782, col: 11, offset: 57635},
+								pos: position{line: 1783, col: 11, offset: 57667},
 								expr: &actionExpr{
-									pos: position{line: 1737, col: 5, offset: 56141},
+									pos: position{line: 1738, col: 5, offset: 56173},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1737, col: 5, offset: 56141},
+										pos: position{line: 1738, col: 5, offset: 56173},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1737, col: 5, offset: 56141},
+												pos: position{line: 1738, col: 5, offset: 56173},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1740, col: 5, offset: 56204},
+												pos:   position{line: 1741, col: 5, offset: 56236},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1740, col: 12, offset: 56211},
+													pos: position{line: 1741, col: 12, offset: 56243},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1740, col: 12, offset: 56211},
+															pos: position{line: 1741, col: 12, offset: 56243},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1740, col: 12, offset: 56211},
+																pos:        position{line: 1741, col: 12, offset: 56243},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1742, col: 13, offset: 56267},
+															pos: position{line: 1743, col: 13, offset: 56299},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1742, col: 13, offset: 56267},
+																pos:        position{line: 1743, col: 13, offset: 56299},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1744, col: 13, offset: 56325},
+															pos: position{line: 1745, col: 13, offset: 56357},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1744, col: 13, offset: 56325},
+																pos:        position{line: 1745, col: 13, offset: 56357},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1746, col: 13, offset: 56393},
+															pos: position{line: 1747, col: 13, offset: 56425},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1746, col: 13, offset: 56393},
+																pos:        position{line: 1747, col: 13, offset: 56425},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1748, col: 13, offset: 56457},
+															pos: position{line: 1749, col: 13, offset: 56489},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1748, col: 13, offset: 56457},
+																pos:        position{line: 1749, col: 13, offset: 56489},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1750, col: 13, offset: 56521},
+															pos: position{line: 1751, col: 13, offset: 56553},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1750, col: 13, offset: 56521},
+																pos: position{line: 1751, col: 13, offset: 56553},
 																expr: &actionExpr{
-																	pos: position{line: 2868, col: 11, offset: 90744},
+																	pos: position{line: 2869, col: 11, offset: 90776},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2868, col: 11, offset: 90744},
+																		pos: position{line: 2869, col: 11, offset: 90776},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 11, offset: 90744},
+																			pos:        position{line: 2869, col: 11, offset: 90776},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40405,24 +40573,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1783, col: 5, offset: 57658},
+							pos:   position{line: 1784, col: 5, offset: 57690},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1796, col: 5, offset: 58007},
+								pos: position{line: 1797, col: 5, offset: 58039},
 								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1796, col: 5, offset: 58007},
+									pos: position{line: 1797, col: 5, offset: 58039},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1796, col: 5, offset: 58007},
+											pos:   position{line: 1797, col: 5, offset: 58039},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2814, col: 14, offset: 89276},
+												pos: position{line: 2815, col: 14, offset: 89308},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2814, col: 14, offset: 89276},
+													pos: position{line: 2815, col: 14, offset: 89308},
 													expr: &charClassMatcher{
-														pos:        position{line: 2814, col: 14, offset: 89276},
+														pos:        position{line: 2815, col: 14, offset: 89308},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40432,32 +40600,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1797, col: 5, offset: 58031},
+											pos: position{line: 1798, col: 5, offset: 58063},
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2886, col: 8, offset: 91081},
+											pos: position{line: 2887, col: 8, offset: 91113},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2873, col: 12, offset: 90854},
+													pos: position{line: 2874, col: 12, offset: 90886},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2873, col: 13, offset: 90855},
+														pos: position{line: 2874, col: 13, offset: 90887},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2873, col: 13, offset: 90855},
+																pos:        position{line: 2874, col: 13, offset: 90887},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2873, col: 20, offset: 90862},
+																pos:        position{line: 2874, col: 20, offset: 90894},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2873, col: 29, offset: 90871},
+																pos:        position{line: 2874, col: 29, offset: 90903},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40466,9 +40634,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2883, col: 8, offset: 91031},
+													pos: position{line: 2884, col: 8, offset: 91063},
 													expr: &anyMatcher{
-														line: 2883, col: 9, offset: 91032,
+														line: 2884, col: 9, offset: 91064,
 													},
 												},
 											},
@@ -40478,24 +40646,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1784, col: 5, offset: 57692},
+							pos:   position{line: 1785, col: 5, offset: 57724},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1784, col: 16, offset: 57703},
+								pos: position{line: 1785, col: 16, offset: 57735},
 								expr: &actionExpr{
-									pos: position{line: 1785, col: 9, offset: 57713},
+									pos: position{line: 1786, col: 9, offset: 57745},
 									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1785, col: 9, offset: 57713},
+										pos: position{line: 1786, col: 9, offset: 57745},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2881, col: 11, offset: 91017},
+												pos: position{line: 2882, col: 11, offset: 91049},
 												expr: &anyMatcher{
-													line: 2881, col: 13, offset: 91019,
+													line: 2882, col: 13, offset: 91051,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1786, col: 9, offset: 57728},
+												pos: position{line: 1787, col: 9, offset: 57760},
 												expr: &actionExpr{
 													pos: position{line: 677, col: 14, offset: 21489},
 													run: (*parser).callonParagraph48,
@@ -40503,18 +40671,18 @@ var g = &grammar{
 														pos: position{line: 677, col: 14, offset: 21489},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2881, col: 11, offset: 91017},
+																pos: position{line: 2882, col: 11, offset: 91049},
 																expr: &anyMatcher{
-																	line: 2881, col: 13, offset: 91019,
+																	line: 2882, col: 13, offset: 91051,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 677, col: 21, offset: 21496},
 																expr: &actionExpr{
-																	pos: position{line: 2864, col: 10, offset: 90683},
+																	pos: position{line: 2865, col: 10, offset: 90715},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2864, col: 10, offset: 90683},
+																		pos:        position{line: 2865, col: 10, offset: 90715},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40523,28 +40691,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2886, col: 8, offset: 91081},
+																pos: position{line: 2887, col: 8, offset: 91113},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2873, col: 12, offset: 90854},
+																		pos: position{line: 2874, col: 12, offset: 90886},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2873, col: 13, offset: 90855},
+																			pos: position{line: 2874, col: 13, offset: 90887},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 13, offset: 90855},
+																					pos:        position{line: 2874, col: 13, offset: 90887},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 20, offset: 90862},
+																					pos:        position{line: 2874, col: 20, offset: 90894},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2873, col: 29, offset: 90871},
+																					pos:        position{line: 2874, col: 29, offset: 90903},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40553,9 +40721,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2883, col: 8, offset: 91031},
+																		pos: position{line: 2884, col: 8, offset: 91063},
 																		expr: &anyMatcher{
-																			line: 2883, col: 9, offset: 91032,
+																			line: 2884, col: 9, offset: 91064,
 																		},
 																	},
 																},
@@ -40565,49 +40733,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1787, col: 9, offset: 57747},
+												pos: position{line: 1788, col: 9, offset: 57779},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1787, col: 10, offset: 57748},
+													pos:  position{line: 1788, col: 10, offset: 57780},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1788, col: 9, offset: 57772},
+												pos:   position{line: 1789, col: 9, offset: 57804},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1788, col: 15, offset: 57778},
+													pos: position{line: 1789, col: 15, offset: 57810},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2474, col: 22, offset: 79626},
+															pos: position{line: 2475, col: 22, offset: 79658},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2474, col: 22, offset: 79626},
+																pos: position{line: 2475, col: 22, offset: 79658},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2479, col: 31, offset: 79847},
+																		pos:        position{line: 2480, col: 31, offset: 79879},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2479, col: 36, offset: 79852},
+																		pos: position{line: 2480, col: 36, offset: 79884},
 																		expr: &litMatcher{
-																			pos:        position{line: 2479, col: 37, offset: 79853},
+																			pos:        position{line: 2480, col: 37, offset: 79885},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2474, col: 49, offset: 79653},
+																		pos:   position{line: 2475, col: 49, offset: 79685},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2810, col: 13, offset: 89209},
+																			pos: position{line: 2811, col: 13, offset: 89241},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2810, col: 13, offset: 89209},
+																				pos: position{line: 2811, col: 13, offset: 89241},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2810, col: 13, offset: 89209},
+																					pos:        position{line: 2811, col: 13, offset: 89241},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40617,28 +40785,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91081},
+																		pos: position{line: 2887, col: 8, offset: 91113},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90854},
+																				pos: position{line: 2874, col: 12, offset: 90886},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90855},
+																					pos: position{line: 2874, col: 13, offset: 90887},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90855},
+																							pos:        position{line: 2874, col: 13, offset: 90887},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90862},
+																							pos:        position{line: 2874, col: 20, offset: 90894},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90871},
+																							pos:        position{line: 2874, col: 29, offset: 90903},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40647,9 +40815,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 91031},
+																				pos: position{line: 2884, col: 8, offset: 91063},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 91032,
+																					line: 2884, col: 9, offset: 91064,
 																				},
 																			},
 																		},
@@ -40658,21 +40826,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1796, col: 5, offset: 58007},
+															pos: position{line: 1797, col: 5, offset: 58039},
 															run: (*parser).callonParagraph84,
 															expr: &seqExpr{
-																pos: position{line: 1796, col: 5, offset: 58007},
+																pos: position{line: 1797, col: 5, offset: 58039},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1796, col: 5, offset: 58007},
+																		pos:   position{line: 1797, col: 5, offset: 58039},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2814, col: 14, offset: 89276},
+																			pos: position{line: 2815, col: 14, offset: 89308},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2814, col: 14, offset: 89276},
+																				pos: position{line: 2815, col: 14, offset: 89308},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2814, col: 14, offset: 89276},
+																					pos:        position{line: 2815, col: 14, offset: 89308},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40682,32 +40850,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1797, col: 5, offset: 58031},
+																		pos: position{line: 1798, col: 5, offset: 58063},
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2886, col: 8, offset: 91081},
+																		pos: position{line: 2887, col: 8, offset: 91113},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90854},
+																				pos: position{line: 2874, col: 12, offset: 90886},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90855},
+																					pos: position{line: 2874, col: 13, offset: 90887},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90855},
+																							pos:        position{line: 2874, col: 13, offset: 90887},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90862},
+																							pos:        position{line: 2874, col: 20, offset: 90894},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90871},
+																							pos:        position{line: 2874, col: 29, offset: 90903},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40716,9 +40884,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2883, col: 8, offset: 91031},
+																				pos: position{line: 2884, col: 8, offset: 91063},
 																				expr: &anyMatcher{
-																					line: 2883, col: 9, offset: 91032,
+																					line: 2884, col: 9, offset: 91064,
 																				},
 																			},
 																		},
@@ -40740,16 +40908,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1807, col: 1, offset: 58517},
+			pos:  position{line: 1808, col: 1, offset: 58549},
 			expr: &choiceExpr{
-				pos: position{line: 1807, col: 15, offset: 58531},
+				pos: position{line: 1808, col: 15, offset: 58563},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1807, col: 15, offset: 58531},
+						pos:  position{line: 1808, col: 15, offset: 58563},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1807, col: 35, offset: 58551},
+						pos:  position{line: 1808, col: 35, offset: 58583},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -40757,65 +40925,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1809, col: 1, offset: 58572},
+			pos:  position{line: 1810, col: 1, offset: 58604},
 			expr: &actionExpr{
-				pos: position{line: 1810, col: 5, offset: 58597},
+				pos: position{line: 1811, col: 5, offset: 58629},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1810, col: 5, offset: 58597},
+					pos: position{line: 1811, col: 5, offset: 58629},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1810, col: 5, offset: 58597},
+							pos:   position{line: 1811, col: 5, offset: 58629},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1810, col: 16, offset: 58608},
+								pos: position{line: 1811, col: 16, offset: 58640},
 								expr: &actionExpr{
-									pos: position{line: 1810, col: 17, offset: 58609},
+									pos: position{line: 1811, col: 17, offset: 58641},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1810, col: 17, offset: 58609},
+										pos:  position{line: 1811, col: 17, offset: 58641},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1813, col: 5, offset: 58677},
+							pos: position{line: 1814, col: 5, offset: 58709},
 							expr: &litMatcher{
-								pos:        position{line: 1813, col: 7, offset: 58679},
+								pos:        position{line: 1814, col: 7, offset: 58711},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1814, col: 5, offset: 58688},
+							pos:   position{line: 1815, col: 5, offset: 58720},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1815, col: 9, offset: 58706},
+								pos: position{line: 1816, col: 9, offset: 58738},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1815, col: 9, offset: 58706},
+										pos:  position{line: 1816, col: 9, offset: 58738},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1816, col: 11, offset: 58733},
+										pos:  position{line: 1817, col: 11, offset: 58765},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1817, col: 11, offset: 58761},
+										pos:  position{line: 1818, col: 11, offset: 58793},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1818, col: 11, offset: 58792},
+										pos:  position{line: 1819, col: 11, offset: 58824},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1819, col: 11, offset: 58820},
+										pos:  position{line: 1820, col: 11, offset: 58852},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1820, col: 11, offset: 58851},
+										pos:  position{line: 1821, col: 11, offset: 58883},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -40827,36 +40995,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1825, col: 1, offset: 58971},
+			pos:  position{line: 1826, col: 1, offset: 59003},
 			expr: &actionExpr{
-				pos: position{line: 1826, col: 5, offset: 59013},
+				pos: position{line: 1827, col: 5, offset: 59045},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1826, col: 5, offset: 59013},
+					pos: position{line: 1827, col: 5, offset: 59045},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1826, col: 5, offset: 59013},
+							pos:   position{line: 1827, col: 5, offset: 59045},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1826, col: 16, offset: 59024},
+								pos: position{line: 1827, col: 16, offset: 59056},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1826, col: 17, offset: 59025},
+									pos:  position{line: 1827, col: 17, offset: 59057},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1827, col: 5, offset: 59050},
+							pos:   position{line: 1828, col: 5, offset: 59082},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1827, col: 14, offset: 59059},
+								pos: position{line: 1828, col: 14, offset: 59091},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1827, col: 14, offset: 59059},
+										pos:  position{line: 1828, col: 14, offset: 59091},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1827, col: 33, offset: 59078},
+										pos:  position{line: 1828, col: 33, offset: 59110},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -40868,32 +41036,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1835, col: 1, offset: 59309},
+			pos:  position{line: 1836, col: 1, offset: 59341},
 			expr: &choiceExpr{
-				pos: position{line: 1836, col: 5, offset: 59334},
+				pos: position{line: 1837, col: 5, offset: 59366},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1836, col: 5, offset: 59334},
+						pos:  position{line: 1837, col: 5, offset: 59366},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1837, col: 7, offset: 59361},
+						pos:  position{line: 1838, col: 7, offset: 59393},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1838, col: 7, offset: 59389},
+						pos:  position{line: 1839, col: 7, offset: 59421},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1839, col: 7, offset: 59421},
+						pos:  position{line: 1840, col: 7, offset: 59453},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1840, col: 7, offset: 59449},
+						pos:  position{line: 1841, col: 7, offset: 59481},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1841, col: 7, offset: 59470},
+						pos:  position{line: 1842, col: 7, offset: 59502},
 						name: "SuperscriptText",
 					},
 				},
@@ -40901,24 +41069,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1843, col: 1, offset: 59488},
+			pos:  position{line: 1844, col: 1, offset: 59520},
 			expr: &choiceExpr{
-				pos: position{line: 1844, col: 5, offset: 59513},
+				pos: position{line: 1845, col: 5, offset: 59545},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1844, col: 5, offset: 59513},
+						pos:  position{line: 1845, col: 5, offset: 59545},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1845, col: 7, offset: 59539},
+						pos:  position{line: 1846, col: 7, offset: 59571},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1846, col: 7, offset: 59567},
+						pos:  position{line: 1847, col: 7, offset: 59599},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1847, col: 7, offset: 59598},
+						pos:  position{line: 1848, col: 7, offset: 59630},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -40926,26 +41094,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1861, col: 1, offset: 59952},
+			pos:  position{line: 1862, col: 1, offset: 59984},
 			expr: &choiceExpr{
-				pos: position{line: 1862, col: 5, offset: 59978},
+				pos: position{line: 1863, col: 5, offset: 60010},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2763, col: 5, offset: 87925},
+						pos: position{line: 2764, col: 5, offset: 87957},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2763, col: 5, offset: 87925},
+							pos: position{line: 2764, col: 5, offset: 87957},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2763, col: 5, offset: 87925},
+									pos:   position{line: 2764, col: 5, offset: 87957},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2763, col: 11, offset: 87931},
+										pos: position{line: 2764, col: 11, offset: 87963},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2763, col: 11, offset: 87931},
+											pos: position{line: 2764, col: 11, offset: 87963},
 											expr: &charClassMatcher{
-												pos:        position{line: 2763, col: 11, offset: 87931},
+												pos:        position{line: 2764, col: 11, offset: 87963},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40955,36 +41123,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2766, col: 5, offset: 87989},
+									pos: position{line: 2767, col: 5, offset: 88021},
 									expr: &seqExpr{
-										pos: position{line: 2767, col: 9, offset: 88000},
+										pos: position{line: 2768, col: 9, offset: 88032},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2767, col: 9, offset: 88000},
+												pos:        position{line: 2768, col: 9, offset: 88032},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2768, col: 9, offset: 88049},
+												pos: position{line: 2769, col: 9, offset: 88081},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2772, col: 5, offset: 88129},
+									pos: position{line: 2773, col: 5, offset: 88161},
 									expr: &seqExpr{
-										pos: position{line: 2773, col: 9, offset: 88140},
+										pos: position{line: 2774, col: 9, offset: 88172},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2773, col: 9, offset: 88140},
+												pos:        position{line: 2774, col: 9, offset: 88172},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2773, col: 13, offset: 88144},
+												pos:        position{line: 2774, col: 13, offset: 88176},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -40997,12 +41165,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2868, col: 11, offset: 90744},
+						pos: position{line: 2869, col: 11, offset: 90776},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2868, col: 11, offset: 90744},
+							pos: position{line: 2869, col: 11, offset: 90776},
 							expr: &charClassMatcher{
-								pos:        position{line: 2868, col: 11, offset: 90744},
+								pos:        position{line: 2869, col: 11, offset: 90776},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -41011,25 +41179,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1864, col: 7, offset: 60041},
+						pos:  position{line: 1865, col: 7, offset: 60073},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2492, col: 5, offset: 80343},
+						pos: position{line: 2493, col: 5, offset: 80375},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2492, col: 5, offset: 80343},
+							pos: position{line: 2493, col: 5, offset: 80375},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2492, col: 5, offset: 80343},
+									pos:        position{line: 2493, col: 5, offset: 80375},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2492, col: 10, offset: 80348},
+									pos: position{line: 2493, col: 10, offset: 80380},
 									expr: &charClassMatcher{
-										pos:        position{line: 2492, col: 11, offset: 80349},
+										pos:        position{line: 2493, col: 11, offset: 80381},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41040,29 +41208,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2498, col: 5, offset: 80541},
+						pos: position{line: 2499, col: 5, offset: 80573},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2498, col: 5, offset: 80541},
+							pos: position{line: 2499, col: 5, offset: 80573},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2498, col: 5, offset: 80541},
+									pos: position{line: 2499, col: 5, offset: 80573},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2501, col: 5, offset: 80612},
+									pos: position{line: 2502, col: 5, offset: 80644},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2505, col: 5, offset: 80737},
+									pos:        position{line: 2506, col: 5, offset: 80769},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2505, col: 9, offset: 80741},
+									pos: position{line: 2506, col: 9, offset: 80773},
 									expr: &charClassMatcher{
-										pos:        position{line: 2505, col: 10, offset: 80742},
+										pos:        position{line: 2506, col: 10, offset: 80774},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41073,27 +41241,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2781, col: 5, offset: 88337},
+						pos: position{line: 2782, col: 5, offset: 88369},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2782, col: 9, offset: 88347},
+							pos: position{line: 2783, col: 9, offset: 88379},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2782, col: 10, offset: 88348},
+									pos:        position{line: 2783, col: 10, offset: 88380},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2784, col: 13, offset: 88445},
+									pos: position{line: 2785, col: 13, offset: 88477},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2784, col: 13, offset: 88445},
+											pos: position{line: 2785, col: 13, offset: 88477},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2787, col: 13, offset: 88545},
+											pos:        position{line: 2788, col: 13, offset: 88577},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -41101,20 +41269,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2787, col: 19, offset: 88551},
+									pos:        position{line: 2788, col: 19, offset: 88583},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2790, col: 13, offset: 88589},
+									pos: position{line: 2791, col: 13, offset: 88621},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2790, col: 13, offset: 88589},
+											pos: position{line: 2791, col: 13, offset: 88621},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2793, col: 14, offset: 88682},
+											pos:        position{line: 2794, col: 14, offset: 88714},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -41123,18 +41291,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2795, col: 12, offset: 88726},
+									pos: position{line: 2796, col: 12, offset: 88758},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2795, col: 12, offset: 88726},
+											pos:        position{line: 2796, col: 12, offset: 88758},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2795, col: 16, offset: 88730},
+											pos: position{line: 2796, col: 16, offset: 88762},
 											expr: &litMatcher{
-												pos:        position{line: 2795, col: 17, offset: 88731},
+												pos:        position{line: 2796, col: 17, offset: 88763},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41492,31 +41660,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2877, col: 18, offset: 90954},
+						pos: position{line: 2878, col: 18, offset: 90986},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2877, col: 18, offset: 90954},
+							pos: position{line: 2878, col: 18, offset: 90986},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2873, col: 12, offset: 90854},
+									pos: position{line: 2874, col: 12, offset: 90886},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2873, col: 13, offset: 90855},
+										pos: position{line: 2874, col: 13, offset: 90887},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2873, col: 13, offset: 90855},
+												pos:        position{line: 2874, col: 13, offset: 90887},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 20, offset: 90862},
+												pos:        position{line: 2874, col: 20, offset: 90894},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 29, offset: 90871},
+												pos:        position{line: 2874, col: 29, offset: 90903},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41525,27 +41693,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2877, col: 26, offset: 90962},
+									pos: position{line: 2878, col: 26, offset: 90994},
 									expr: &actionExpr{
-										pos: position{line: 2873, col: 12, offset: 90854},
+										pos: position{line: 2874, col: 12, offset: 90886},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2873, col: 13, offset: 90855},
+											pos: position{line: 2874, col: 13, offset: 90887},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2873, col: 13, offset: 90855},
+													pos:        position{line: 2874, col: 13, offset: 90887},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2873, col: 20, offset: 90862},
+													pos:        position{line: 2874, col: 20, offset: 90894},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2873, col: 29, offset: 90871},
+													pos:        position{line: 2874, col: 29, offset: 90903},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41558,31 +41726,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1869, col: 7, offset: 60208},
+						pos:  position{line: 1870, col: 7, offset: 60240},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1870, col: 7, offset: 60255},
+						pos:  position{line: 1871, col: 7, offset: 60287},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2461, col: 5, offset: 79172},
+						pos: position{line: 2462, col: 5, offset: 79204},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2461, col: 5, offset: 79172},
+							pos: position{line: 2462, col: 5, offset: 79204},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2461, col: 5, offset: 79172},
+									pos: position{line: 2462, col: 5, offset: 79204},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2464, col: 5, offset: 79248},
+									pos:   position{line: 2465, col: 5, offset: 79280},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2465, col: 9, offset: 79266},
+										pos: position{line: 2466, col: 9, offset: 79298},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2465, col: 10, offset: 79267},
+											pos:        position{line: 2466, col: 10, offset: 79299},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41633,10 +41801,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2803, col: 12, offset: 88991},
+						pos: position{line: 2804, col: 12, offset: 89023},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &charClassMatcher{
-							pos:        position{line: 2803, col: 12, offset: 88991},
+							pos:        position{line: 2804, col: 12, offset: 89023},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41648,29 +41816,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1888, col: 1, offset: 60725},
+			pos:  position{line: 1889, col: 1, offset: 60757},
 			expr: &actionExpr{
-				pos: position{line: 1889, col: 5, offset: 60753},
+				pos: position{line: 1890, col: 5, offset: 60785},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1889, col: 5, offset: 60753},
+					pos: position{line: 1890, col: 5, offset: 60785},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1884, col: 38, offset: 60678},
+							pos:        position{line: 1885, col: 38, offset: 60710},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1890, col: 5, offset: 60792},
+							pos:   position{line: 1891, col: 5, offset: 60824},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1890, col: 15, offset: 60802},
+								pos:  position{line: 1891, col: 15, offset: 60834},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1886, col: 36, offset: 60719},
+							pos:        position{line: 1887, col: 36, offset: 60751},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -41681,44 +41849,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1895, col: 1, offset: 60962},
+			pos:  position{line: 1896, col: 1, offset: 60994},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1895, col: 32, offset: 60993},
+				pos: position{line: 1896, col: 32, offset: 61025},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1895, col: 32, offset: 60993},
+					pos:  position{line: 1896, col: 32, offset: 61025},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1897, col: 1, offset: 61024},
+			pos:  position{line: 1898, col: 1, offset: 61056},
 			expr: &actionExpr{
-				pos: position{line: 1898, col: 5, offset: 61059},
+				pos: position{line: 1899, col: 5, offset: 61091},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1898, col: 5, offset: 61059},
+					pos: position{line: 1899, col: 5, offset: 61091},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2881, col: 11, offset: 91017},
+							pos: position{line: 2882, col: 11, offset: 91049},
 							expr: &anyMatcher{
-								line: 2881, col: 13, offset: 91019,
+								line: 2882, col: 13, offset: 91051,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1899, col: 5, offset: 61070},
+							pos: position{line: 1900, col: 5, offset: 61102},
 							expr: &litMatcher{
-								pos:        position{line: 1886, col: 36, offset: 60719},
+								pos:        position{line: 1887, col: 36, offset: 60751},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1900, col: 5, offset: 61107},
+							pos:   position{line: 1901, col: 5, offset: 61139},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1900, col: 14, offset: 61116},
+								pos:  position{line: 1901, col: 14, offset: 61148},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41728,29 +41896,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1925, col: 1, offset: 61796},
+			pos:  position{line: 1926, col: 1, offset: 61828},
 			expr: &actionExpr{
-				pos: position{line: 1926, col: 5, offset: 61824},
+				pos: position{line: 1927, col: 5, offset: 61856},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1926, col: 5, offset: 61824},
+					pos: position{line: 1927, col: 5, offset: 61856},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1909, col: 5, offset: 61350},
+							pos:        position{line: 1910, col: 5, offset: 61382},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1910, col: 5, offset: 61359},
+							pos: position{line: 1911, col: 5, offset: 61391},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1914, col: 5, offset: 61477},
+							pos: position{line: 1915, col: 5, offset: 61509},
 							expr: &notExpr{
-								pos: position{line: 1914, col: 7, offset: 61479},
+								pos: position{line: 1915, col: 7, offset: 61511},
 								expr: &litMatcher{
-									pos:        position{line: 1914, col: 8, offset: 61480},
+									pos:        position{line: 1915, col: 8, offset: 61512},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41758,38 +41926,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1927, col: 5, offset: 61862},
+							pos:   position{line: 1928, col: 5, offset: 61894},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1927, col: 15, offset: 61872},
+								pos:  position{line: 1928, col: 15, offset: 61904},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1917, col: 5, offset: 61600},
+							pos:        position{line: 1918, col: 5, offset: 61632},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1918, col: 5, offset: 61609},
+							pos: position{line: 1919, col: 5, offset: 61641},
 							expr: &litMatcher{
-								pos:        position{line: 1918, col: 6, offset: 61610},
+								pos:        position{line: 1919, col: 6, offset: 61642},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1919, col: 5, offset: 61673},
+							pos: position{line: 1920, col: 5, offset: 61705},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1923, col: 5, offset: 61782},
+							pos: position{line: 1924, col: 5, offset: 61814},
 							expr: &notExpr{
-								pos: position{line: 1923, col: 7, offset: 61784},
+								pos: position{line: 1924, col: 7, offset: 61816},
 								expr: &charClassMatcher{
-									pos:        position{line: 2754, col: 13, offset: 87778},
+									pos:        position{line: 2755, col: 13, offset: 87810},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41803,20 +41971,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1932, col: 1, offset: 62032},
+			pos:  position{line: 1933, col: 1, offset: 62064},
 			expr: &actionExpr{
-				pos: position{line: 1933, col: 5, offset: 62069},
+				pos: position{line: 1934, col: 5, offset: 62101},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1933, col: 5, offset: 62069},
+					pos: position{line: 1934, col: 5, offset: 62101},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1933, col: 5, offset: 62069},
+							pos: position{line: 1934, col: 5, offset: 62101},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90683},
+								pos: position{line: 2865, col: 10, offset: 90715},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90683},
+									pos:        position{line: 2865, col: 10, offset: 90715},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41825,18 +41993,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1934, col: 5, offset: 62108},
+							pos:   position{line: 1935, col: 5, offset: 62140},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1934, col: 14, offset: 62117},
+								pos: position{line: 1935, col: 14, offset: 62149},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1934, col: 15, offset: 62118},
+									pos:  position{line: 1935, col: 15, offset: 62150},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1935, col: 5, offset: 62152},
+							pos: position{line: 1936, col: 5, offset: 62184},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -41845,49 +42013,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1941, col: 1, offset: 62293},
+			pos:  position{line: 1942, col: 1, offset: 62325},
 			expr: &actionExpr{
-				pos: position{line: 1942, col: 5, offset: 62328},
+				pos: position{line: 1943, col: 5, offset: 62360},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1942, col: 5, offset: 62328},
+					pos: position{line: 1943, col: 5, offset: 62360},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2881, col: 11, offset: 91017},
+							pos: position{line: 2882, col: 11, offset: 91049},
 							expr: &anyMatcher{
-								line: 2881, col: 13, offset: 91019,
+								line: 2882, col: 13, offset: 91051,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1943, col: 5, offset: 62356},
+							pos: position{line: 1944, col: 5, offset: 62388},
 							expr: &seqExpr{
-								pos: position{line: 1917, col: 5, offset: 61600},
+								pos: position{line: 1918, col: 5, offset: 61632},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1917, col: 5, offset: 61600},
+										pos:        position{line: 1918, col: 5, offset: 61632},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1918, col: 5, offset: 61609},
+										pos: position{line: 1919, col: 5, offset: 61641},
 										expr: &litMatcher{
-											pos:        position{line: 1918, col: 6, offset: 61610},
+											pos:        position{line: 1919, col: 6, offset: 61642},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1919, col: 5, offset: 61673},
+										pos: position{line: 1920, col: 5, offset: 61705},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1923, col: 5, offset: 61782},
+										pos: position{line: 1924, col: 5, offset: 61814},
 										expr: &notExpr{
-											pos: position{line: 1923, col: 7, offset: 61784},
+											pos: position{line: 1924, col: 7, offset: 61816},
 											expr: &charClassMatcher{
-												pos:        position{line: 2754, col: 13, offset: 87778},
+												pos:        position{line: 2755, col: 13, offset: 87810},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41899,10 +42067,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1944, col: 5, offset: 62393},
+							pos:   position{line: 1945, col: 5, offset: 62425},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1944, col: 14, offset: 62402},
+								pos:  position{line: 1945, col: 14, offset: 62434},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41912,35 +42080,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1949, col: 1, offset: 62490},
+			pos:  position{line: 1950, col: 1, offset: 62522},
 			expr: &choiceExpr{
-				pos: position{line: 1951, col: 5, offset: 62551},
+				pos: position{line: 1952, col: 5, offset: 62583},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1951, col: 5, offset: 62551},
+						pos: position{line: 1952, col: 5, offset: 62583},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1951, col: 5, offset: 62551},
+							pos: position{line: 1952, col: 5, offset: 62583},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1951, col: 5, offset: 62551},
+									pos:   position{line: 1952, col: 5, offset: 62583},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 59898},
+										pos: position{line: 1858, col: 25, offset: 59930},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1857, col: 25, offset: 59898},
+											pos: position{line: 1858, col: 25, offset: 59930},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1857, col: 25, offset: 59898},
+													pos:        position{line: 1858, col: 25, offset: 59930},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1857, col: 30, offset: 59903},
+													pos: position{line: 1858, col: 30, offset: 59935},
 													expr: &litMatcher{
-														pos:        position{line: 1857, col: 30, offset: 59903},
+														pos:        position{line: 1858, col: 30, offset: 59935},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -41951,21 +42119,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1951, col: 40, offset: 62586},
+									pos:        position{line: 1952, col: 40, offset: 62618},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1951, col: 45, offset: 62591},
+									pos:   position{line: 1952, col: 45, offset: 62623},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1951, col: 55, offset: 62601},
+										pos:  position{line: 1952, col: 55, offset: 62633},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1951, col: 84, offset: 62630},
+									pos:        position{line: 1952, col: 84, offset: 62662},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -41974,21 +42142,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1955, col: 7, offset: 62794},
+						pos: position{line: 1956, col: 7, offset: 62826},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1955, col: 7, offset: 62794},
+							pos: position{line: 1956, col: 7, offset: 62826},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1955, col: 7, offset: 62794},
+									pos:   position{line: 1956, col: 7, offset: 62826},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59825},
+										pos: position{line: 1854, col: 25, offset: 59857},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 59825},
+											pos: position{line: 1854, col: 25, offset: 59857},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 59825},
+												pos:        position{line: 1854, col: 25, offset: 59857},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -41997,21 +42165,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1955, col: 42, offset: 62829},
+									pos:        position{line: 1956, col: 42, offset: 62861},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1955, col: 47, offset: 62834},
+									pos:   position{line: 1956, col: 47, offset: 62866},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1955, col: 57, offset: 62844},
+										pos:  position{line: 1956, col: 57, offset: 62876},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1955, col: 86, offset: 62873},
+									pos:        position{line: 1956, col: 86, offset: 62905},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42020,21 +42188,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1960, col: 7, offset: 63075},
+						pos: position{line: 1961, col: 7, offset: 63107},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1960, col: 7, offset: 63075},
+							pos: position{line: 1961, col: 7, offset: 63107},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1960, col: 7, offset: 63075},
+									pos:   position{line: 1961, col: 7, offset: 63107},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59825},
+										pos: position{line: 1854, col: 25, offset: 59857},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 59825},
+											pos: position{line: 1854, col: 25, offset: 59857},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 59825},
+												pos:        position{line: 1854, col: 25, offset: 59857},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42043,21 +42211,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1960, col: 42, offset: 63110},
+									pos:        position{line: 1961, col: 42, offset: 63142},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1960, col: 46, offset: 63114},
+									pos:   position{line: 1961, col: 46, offset: 63146},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1960, col: 56, offset: 63124},
+										pos:  position{line: 1961, col: 56, offset: 63156},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1960, col: 85, offset: 63153},
+									pos:        position{line: 1961, col: 85, offset: 63185},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42070,29 +42238,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1977, col: 1, offset: 63633},
+			pos:  position{line: 1978, col: 1, offset: 63665},
 			expr: &actionExpr{
-				pos: position{line: 1978, col: 5, offset: 63663},
+				pos: position{line: 1979, col: 5, offset: 63695},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1978, col: 5, offset: 63663},
+					pos: position{line: 1979, col: 5, offset: 63695},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1973, col: 40, offset: 63584},
+							pos:        position{line: 1974, col: 40, offset: 63616},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1979, col: 5, offset: 63704},
+							pos:   position{line: 1980, col: 5, offset: 63736},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1979, col: 15, offset: 63714},
+								pos:  position{line: 1980, col: 15, offset: 63746},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1975, col: 38, offset: 63627},
+							pos:        position{line: 1976, col: 38, offset: 63659},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -42103,44 +42271,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1984, col: 1, offset: 63879},
+			pos:  position{line: 1985, col: 1, offset: 63911},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1984, col: 34, offset: 63912},
+				pos: position{line: 1985, col: 34, offset: 63944},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1984, col: 34, offset: 63912},
+					pos:  position{line: 1985, col: 34, offset: 63944},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1986, col: 1, offset: 63944},
+			pos:  position{line: 1987, col: 1, offset: 63976},
 			expr: &actionExpr{
-				pos: position{line: 1987, col: 5, offset: 63981},
+				pos: position{line: 1988, col: 5, offset: 64013},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1987, col: 5, offset: 63981},
+					pos: position{line: 1988, col: 5, offset: 64013},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2881, col: 11, offset: 91017},
+							pos: position{line: 2882, col: 11, offset: 91049},
 							expr: &anyMatcher{
-								line: 2881, col: 13, offset: 91019,
+								line: 2882, col: 13, offset: 91051,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1988, col: 5, offset: 63992},
+							pos: position{line: 1989, col: 5, offset: 64024},
 							expr: &litMatcher{
-								pos:        position{line: 1975, col: 38, offset: 63627},
+								pos:        position{line: 1976, col: 38, offset: 63659},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1989, col: 5, offset: 64031},
+							pos:   position{line: 1990, col: 5, offset: 64063},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1989, col: 14, offset: 64040},
+								pos:  position{line: 1990, col: 14, offset: 64072},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42150,29 +42318,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2015, col: 1, offset: 64724},
+			pos:  position{line: 2016, col: 1, offset: 64756},
 			expr: &actionExpr{
-				pos: position{line: 2016, col: 5, offset: 64754},
+				pos: position{line: 2017, col: 5, offset: 64786},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2016, col: 5, offset: 64754},
+					pos: position{line: 2017, col: 5, offset: 64786},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1998, col: 5, offset: 64282},
+							pos:        position{line: 1999, col: 5, offset: 64314},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1999, col: 5, offset: 64291},
+							pos: position{line: 2000, col: 5, offset: 64323},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2003, col: 5, offset: 64411},
+							pos: position{line: 2004, col: 5, offset: 64443},
 							expr: &notExpr{
-								pos: position{line: 2003, col: 7, offset: 64413},
+								pos: position{line: 2004, col: 7, offset: 64445},
 								expr: &litMatcher{
-									pos:        position{line: 2003, col: 8, offset: 64414},
+									pos:        position{line: 2004, col: 8, offset: 64446},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42180,38 +42348,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2017, col: 5, offset: 64794},
+							pos:   position{line: 2018, col: 5, offset: 64826},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2017, col: 15, offset: 64804},
+								pos:  position{line: 2018, col: 15, offset: 64836},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2007, col: 5, offset: 64524},
+							pos:        position{line: 2008, col: 5, offset: 64556},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2008, col: 5, offset: 64533},
+							pos: position{line: 2009, col: 5, offset: 64565},
 							expr: &litMatcher{
-								pos:        position{line: 2008, col: 6, offset: 64534},
+								pos:        position{line: 2009, col: 6, offset: 64566},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2009, col: 5, offset: 64599},
+							pos: position{line: 2010, col: 5, offset: 64631},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2013, col: 5, offset: 64710},
+							pos: position{line: 2014, col: 5, offset: 64742},
 							expr: &notExpr{
-								pos: position{line: 2013, col: 7, offset: 64712},
+								pos: position{line: 2014, col: 7, offset: 64744},
 								expr: &charClassMatcher{
-									pos:        position{line: 2754, col: 13, offset: 87778},
+									pos:        position{line: 2755, col: 13, offset: 87810},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42225,20 +42393,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2022, col: 1, offset: 64971},
+			pos:  position{line: 2023, col: 1, offset: 65003},
 			expr: &actionExpr{
-				pos: position{line: 2023, col: 5, offset: 65009},
+				pos: position{line: 2024, col: 5, offset: 65041},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2023, col: 5, offset: 65009},
+					pos: position{line: 2024, col: 5, offset: 65041},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2023, col: 5, offset: 65009},
+							pos: position{line: 2024, col: 5, offset: 65041},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90683},
+								pos: position{line: 2865, col: 10, offset: 90715},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90683},
+									pos:        position{line: 2865, col: 10, offset: 90715},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42247,18 +42415,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2024, col: 5, offset: 65048},
+							pos:   position{line: 2025, col: 5, offset: 65080},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2024, col: 14, offset: 65057},
+								pos: position{line: 2025, col: 14, offset: 65089},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2024, col: 15, offset: 65058},
+									pos:  position{line: 2025, col: 15, offset: 65090},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2025, col: 5, offset: 65093},
+							pos: position{line: 2026, col: 5, offset: 65125},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -42267,49 +42435,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2031, col: 1, offset: 65234},
+			pos:  position{line: 2032, col: 1, offset: 65266},
 			expr: &actionExpr{
-				pos: position{line: 2032, col: 5, offset: 65271},
+				pos: position{line: 2033, col: 5, offset: 65303},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2032, col: 5, offset: 65271},
+					pos: position{line: 2033, col: 5, offset: 65303},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2881, col: 11, offset: 91017},
+							pos: position{line: 2882, col: 11, offset: 91049},
 							expr: &anyMatcher{
-								line: 2881, col: 13, offset: 91019,
+								line: 2882, col: 13, offset: 91051,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2033, col: 5, offset: 65282},
+							pos: position{line: 2034, col: 5, offset: 65314},
 							expr: &seqExpr{
-								pos: position{line: 2007, col: 5, offset: 64524},
+								pos: position{line: 2008, col: 5, offset: 64556},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2007, col: 5, offset: 64524},
+										pos:        position{line: 2008, col: 5, offset: 64556},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2008, col: 5, offset: 64533},
+										pos: position{line: 2009, col: 5, offset: 64565},
 										expr: &litMatcher{
-											pos:        position{line: 2008, col: 6, offset: 64534},
+											pos:        position{line: 2009, col: 6, offset: 64566},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2009, col: 5, offset: 64599},
+										pos: position{line: 2010, col: 5, offset: 64631},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2013, col: 5, offset: 64710},
+										pos: position{line: 2014, col: 5, offset: 64742},
 										expr: &notExpr{
-											pos: position{line: 2013, col: 7, offset: 64712},
+											pos: position{line: 2014, col: 7, offset: 64744},
 											expr: &charClassMatcher{
-												pos:        position{line: 2754, col: 13, offset: 87778},
+												pos:        position{line: 2755, col: 13, offset: 87810},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42321,10 +42489,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2034, col: 5, offset: 65321},
+							pos:   position{line: 2035, col: 5, offset: 65353},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2034, col: 14, offset: 65330},
+								pos:  position{line: 2035, col: 14, offset: 65362},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42334,35 +42502,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2039, col: 1, offset: 65418},
+			pos:  position{line: 2040, col: 1, offset: 65450},
 			expr: &choiceExpr{
-				pos: position{line: 2041, col: 5, offset: 65483},
+				pos: position{line: 2042, col: 5, offset: 65515},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2041, col: 5, offset: 65483},
+						pos: position{line: 2042, col: 5, offset: 65515},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2041, col: 5, offset: 65483},
+							pos: position{line: 2042, col: 5, offset: 65515},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2041, col: 5, offset: 65483},
+									pos:   position{line: 2042, col: 5, offset: 65515},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 59898},
+										pos: position{line: 1858, col: 25, offset: 59930},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1857, col: 25, offset: 59898},
+											pos: position{line: 1858, col: 25, offset: 59930},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1857, col: 25, offset: 59898},
+													pos:        position{line: 1858, col: 25, offset: 59930},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1857, col: 30, offset: 59903},
+													pos: position{line: 1858, col: 30, offset: 59935},
 													expr: &litMatcher{
-														pos:        position{line: 1857, col: 30, offset: 59903},
+														pos:        position{line: 1858, col: 30, offset: 59935},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42373,21 +42541,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2041, col: 40, offset: 65518},
+									pos:        position{line: 2042, col: 40, offset: 65550},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2041, col: 45, offset: 65523},
+									pos:   position{line: 2042, col: 45, offset: 65555},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2041, col: 55, offset: 65533},
+										pos:  position{line: 2042, col: 55, offset: 65565},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2041, col: 86, offset: 65564},
+									pos:        position{line: 2042, col: 86, offset: 65596},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -42396,21 +42564,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2045, col: 7, offset: 65729},
+						pos: position{line: 2046, col: 7, offset: 65761},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2045, col: 7, offset: 65729},
+							pos: position{line: 2046, col: 7, offset: 65761},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2045, col: 7, offset: 65729},
+									pos:   position{line: 2046, col: 7, offset: 65761},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59825},
+										pos: position{line: 1854, col: 25, offset: 59857},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 59825},
+											pos: position{line: 1854, col: 25, offset: 59857},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 59825},
+												pos:        position{line: 1854, col: 25, offset: 59857},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42419,21 +42587,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2045, col: 42, offset: 65764},
+									pos:        position{line: 2046, col: 42, offset: 65796},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2045, col: 47, offset: 65769},
+									pos:   position{line: 2046, col: 47, offset: 65801},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2045, col: 57, offset: 65779},
+										pos:  position{line: 2046, col: 57, offset: 65811},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2045, col: 88, offset: 65810},
+									pos:        position{line: 2046, col: 88, offset: 65842},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42442,21 +42610,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2050, col: 7, offset: 66051},
+						pos: position{line: 2051, col: 7, offset: 66083},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2050, col: 7, offset: 66051},
+							pos: position{line: 2051, col: 7, offset: 66083},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2050, col: 7, offset: 66051},
+									pos:   position{line: 2051, col: 7, offset: 66083},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59825},
+										pos: position{line: 1854, col: 25, offset: 59857},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 59825},
+											pos: position{line: 1854, col: 25, offset: 59857},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 59825},
+												pos:        position{line: 1854, col: 25, offset: 59857},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42465,21 +42633,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2050, col: 42, offset: 66086},
+									pos:        position{line: 2051, col: 42, offset: 66118},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2050, col: 46, offset: 66090},
+									pos:   position{line: 2051, col: 46, offset: 66122},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2050, col: 56, offset: 66100},
+										pos:  position{line: 2051, col: 56, offset: 66132},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2050, col: 87, offset: 66131},
+									pos:        position{line: 2051, col: 87, offset: 66163},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42492,29 +42660,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2067, col: 1, offset: 66695},
+			pos:  position{line: 2068, col: 1, offset: 66727},
 			expr: &actionExpr{
-				pos: position{line: 2068, col: 5, offset: 66728},
+				pos: position{line: 2069, col: 5, offset: 66760},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2068, col: 5, offset: 66728},
+					pos: position{line: 2069, col: 5, offset: 66760},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2063, col: 43, offset: 66643},
+							pos:        position{line: 2064, col: 43, offset: 66675},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2069, col: 5, offset: 66772},
+							pos:   position{line: 2070, col: 5, offset: 66804},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2069, col: 15, offset: 66782},
+								pos:  position{line: 2070, col: 15, offset: 66814},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2065, col: 41, offset: 66689},
+							pos:        position{line: 2066, col: 41, offset: 66721},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -42525,44 +42693,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2074, col: 1, offset: 66957},
+			pos:  position{line: 2075, col: 1, offset: 66989},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2074, col: 37, offset: 66993},
+				pos: position{line: 2075, col: 37, offset: 67025},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2074, col: 37, offset: 66993},
+					pos:  position{line: 2075, col: 37, offset: 67025},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2076, col: 1, offset: 67060},
+			pos:  position{line: 2077, col: 1, offset: 67092},
 			expr: &actionExpr{
-				pos: position{line: 2077, col: 5, offset: 67100},
+				pos: position{line: 2078, col: 5, offset: 67132},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2077, col: 5, offset: 67100},
+					pos: position{line: 2078, col: 5, offset: 67132},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2881, col: 11, offset: 91017},
+							pos: position{line: 2882, col: 11, offset: 91049},
 							expr: &anyMatcher{
-								line: 2881, col: 13, offset: 91019,
+								line: 2882, col: 13, offset: 91051,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2078, col: 5, offset: 67111},
+							pos: position{line: 2079, col: 5, offset: 67143},
 							expr: &litMatcher{
-								pos:        position{line: 2065, col: 41, offset: 66689},
+								pos:        position{line: 2066, col: 41, offset: 66721},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2079, col: 5, offset: 67153},
+							pos:   position{line: 2080, col: 5, offset: 67185},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2079, col: 14, offset: 67162},
+								pos:  position{line: 2080, col: 14, offset: 67194},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42572,33 +42740,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2097, col: 1, offset: 67704},
+			pos:  position{line: 2098, col: 1, offset: 67736},
 			expr: &seqExpr{
-				pos: position{line: 2098, col: 5, offset: 67749},
+				pos: position{line: 2099, col: 5, offset: 67781},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2098, col: 5, offset: 67749},
+						pos: position{line: 2099, col: 5, offset: 67781},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2098, col: 6, offset: 67750},
+							pos:  position{line: 2099, col: 6, offset: 67782},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2099, col: 5, offset: 67769},
+						pos:        position{line: 2100, col: 5, offset: 67801},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2100, col: 5, offset: 67777},
+						pos: position{line: 2101, col: 5, offset: 67809},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2104, col: 5, offset: 67891},
+						pos: position{line: 2105, col: 5, offset: 67923},
 						expr: &notExpr{
-							pos: position{line: 2104, col: 7, offset: 67893},
+							pos: position{line: 2105, col: 7, offset: 67925},
 							expr: &charClassMatcher{
-								pos:        position{line: 2754, col: 13, offset: 87778},
+								pos:        position{line: 2755, col: 13, offset: 87810},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42611,29 +42779,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2107, col: 1, offset: 67910},
+			pos:  position{line: 2108, col: 1, offset: 67942},
 			expr: &actionExpr{
-				pos: position{line: 2108, col: 5, offset: 67943},
+				pos: position{line: 2109, col: 5, offset: 67975},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2108, col: 5, offset: 67943},
+					pos: position{line: 2109, col: 5, offset: 67975},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2090, col: 5, offset: 67506},
+							pos:        position{line: 2091, col: 5, offset: 67538},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2091, col: 5, offset: 67515},
+							pos: position{line: 2092, col: 5, offset: 67547},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2095, col: 5, offset: 67638},
+							pos: position{line: 2096, col: 5, offset: 67670},
 							expr: &notExpr{
-								pos: position{line: 2095, col: 7, offset: 67640},
+								pos: position{line: 2096, col: 7, offset: 67672},
 								expr: &litMatcher{
-									pos:        position{line: 2095, col: 8, offset: 67641},
+									pos:        position{line: 2096, col: 8, offset: 67673},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42641,15 +42809,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2109, col: 5, offset: 67987},
+							pos:   position{line: 2110, col: 5, offset: 68019},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2109, col: 15, offset: 67997},
+								pos:  position{line: 2110, col: 15, offset: 68029},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2110, col: 5, offset: 68036},
+							pos:  position{line: 2111, col: 5, offset: 68068},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -42658,20 +42826,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2114, col: 1, offset: 68173},
+			pos:  position{line: 2115, col: 1, offset: 68205},
 			expr: &actionExpr{
-				pos: position{line: 2115, col: 5, offset: 68214},
+				pos: position{line: 2116, col: 5, offset: 68246},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2115, col: 5, offset: 68214},
+					pos: position{line: 2116, col: 5, offset: 68246},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2115, col: 5, offset: 68214},
+							pos: position{line: 2116, col: 5, offset: 68246},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90683},
+								pos: position{line: 2865, col: 10, offset: 90715},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90683},
+									pos:        position{line: 2865, col: 10, offset: 90715},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42680,18 +42848,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2116, col: 5, offset: 68253},
+							pos:   position{line: 2117, col: 5, offset: 68285},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2116, col: 14, offset: 68262},
+								pos: position{line: 2117, col: 14, offset: 68294},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2116, col: 15, offset: 68263},
+									pos:  position{line: 2117, col: 15, offset: 68295},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2117, col: 5, offset: 68301},
+							pos: position{line: 2118, col: 5, offset: 68333},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -42700,31 +42868,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2123, col: 1, offset: 68442},
+			pos:  position{line: 2124, col: 1, offset: 68474},
 			expr: &actionExpr{
-				pos: position{line: 2124, col: 5, offset: 68482},
+				pos: position{line: 2125, col: 5, offset: 68514},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2124, col: 5, offset: 68482},
+					pos: position{line: 2125, col: 5, offset: 68514},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2881, col: 11, offset: 91017},
+							pos: position{line: 2882, col: 11, offset: 91049},
 							expr: &anyMatcher{
-								line: 2881, col: 13, offset: 91019,
+								line: 2882, col: 13, offset: 91051,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2125, col: 5, offset: 68493},
+							pos: position{line: 2126, col: 5, offset: 68525},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2125, col: 6, offset: 68494},
+								pos:  position{line: 2126, col: 6, offset: 68526},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2126, col: 5, offset: 68535},
+							pos:   position{line: 2127, col: 5, offset: 68567},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2126, col: 14, offset: 68544},
+								pos:  position{line: 2127, col: 14, offset: 68576},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42734,35 +42902,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2131, col: 1, offset: 68632},
+			pos:  position{line: 2132, col: 1, offset: 68664},
 			expr: &choiceExpr{
-				pos: position{line: 2133, col: 5, offset: 68703},
+				pos: position{line: 2134, col: 5, offset: 68735},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2133, col: 5, offset: 68703},
+						pos: position{line: 2134, col: 5, offset: 68735},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2133, col: 5, offset: 68703},
+							pos: position{line: 2134, col: 5, offset: 68735},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2133, col: 5, offset: 68703},
+									pos:   position{line: 2134, col: 5, offset: 68735},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 59898},
+										pos: position{line: 1858, col: 25, offset: 59930},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1857, col: 25, offset: 59898},
+											pos: position{line: 1858, col: 25, offset: 59930},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1857, col: 25, offset: 59898},
+													pos:        position{line: 1858, col: 25, offset: 59930},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1857, col: 30, offset: 59903},
+													pos: position{line: 1858, col: 30, offset: 59935},
 													expr: &litMatcher{
-														pos:        position{line: 1857, col: 30, offset: 59903},
+														pos:        position{line: 1858, col: 30, offset: 59935},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42773,21 +42941,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2133, col: 40, offset: 68738},
+									pos:        position{line: 2134, col: 40, offset: 68770},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2133, col: 45, offset: 68743},
+									pos:   position{line: 2134, col: 45, offset: 68775},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2133, col: 55, offset: 68753},
+										pos:  position{line: 2134, col: 55, offset: 68785},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2133, col: 89, offset: 68787},
+									pos:        position{line: 2134, col: 89, offset: 68819},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42796,21 +42964,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2137, col: 7, offset: 68956},
+						pos: position{line: 2138, col: 7, offset: 68988},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2137, col: 7, offset: 68956},
+							pos: position{line: 2138, col: 7, offset: 68988},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2137, col: 7, offset: 68956},
+									pos:   position{line: 2138, col: 7, offset: 68988},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59825},
+										pos: position{line: 1854, col: 25, offset: 59857},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 59825},
+											pos: position{line: 1854, col: 25, offset: 59857},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 59825},
+												pos:        position{line: 1854, col: 25, offset: 59857},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42819,21 +42987,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2137, col: 42, offset: 68991},
+									pos:        position{line: 2138, col: 42, offset: 69023},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2137, col: 47, offset: 68996},
+									pos:   position{line: 2138, col: 47, offset: 69028},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2137, col: 57, offset: 69006},
+										pos:  position{line: 2138, col: 57, offset: 69038},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2137, col: 91, offset: 69040},
+									pos:        position{line: 2138, col: 91, offset: 69072},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42842,21 +43010,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2142, col: 7, offset: 69246},
+						pos: position{line: 2143, col: 7, offset: 69278},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2142, col: 7, offset: 69246},
+							pos: position{line: 2143, col: 7, offset: 69278},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2142, col: 7, offset: 69246},
+									pos:   position{line: 2143, col: 7, offset: 69278},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59825},
+										pos: position{line: 1854, col: 25, offset: 59857},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 59825},
+											pos: position{line: 1854, col: 25, offset: 59857},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 59825},
+												pos:        position{line: 1854, col: 25, offset: 59857},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42865,21 +43033,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2142, col: 42, offset: 69281},
+									pos:        position{line: 2143, col: 42, offset: 69313},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2142, col: 46, offset: 69285},
+									pos:   position{line: 2143, col: 46, offset: 69317},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2142, col: 56, offset: 69295},
+										pos:  position{line: 2143, col: 56, offset: 69327},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2142, col: 90, offset: 69329},
+									pos:        position{line: 2143, col: 90, offset: 69361},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42892,29 +43060,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2159, col: 1, offset: 69814},
+			pos:  position{line: 2160, col: 1, offset: 69846},
 			expr: &actionExpr{
-				pos: position{line: 2160, col: 5, offset: 69844},
+				pos: position{line: 2161, col: 5, offset: 69876},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2160, col: 5, offset: 69844},
+					pos: position{line: 2161, col: 5, offset: 69876},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2155, col: 40, offset: 69765},
+							pos:        position{line: 2156, col: 40, offset: 69797},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2161, col: 5, offset: 69885},
+							pos:   position{line: 2162, col: 5, offset: 69917},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2161, col: 15, offset: 69895},
+								pos:  position{line: 2162, col: 15, offset: 69927},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2157, col: 38, offset: 69808},
+							pos:        position{line: 2158, col: 38, offset: 69840},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -42925,44 +43093,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2166, col: 1, offset: 70061},
+			pos:  position{line: 2167, col: 1, offset: 70093},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2166, col: 34, offset: 70094},
+				pos: position{line: 2167, col: 34, offset: 70126},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2166, col: 34, offset: 70094},
+					pos:  position{line: 2167, col: 34, offset: 70126},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2168, col: 1, offset: 70125},
+			pos:  position{line: 2169, col: 1, offset: 70157},
 			expr: &actionExpr{
-				pos: position{line: 2169, col: 5, offset: 70194},
+				pos: position{line: 2170, col: 5, offset: 70226},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2169, col: 5, offset: 70194},
+					pos: position{line: 2170, col: 5, offset: 70226},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2881, col: 11, offset: 91017},
+							pos: position{line: 2882, col: 11, offset: 91049},
 							expr: &anyMatcher{
-								line: 2881, col: 13, offset: 91019,
+								line: 2882, col: 13, offset: 91051,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2170, col: 5, offset: 70205},
+							pos: position{line: 2171, col: 5, offset: 70237},
 							expr: &litMatcher{
-								pos:        position{line: 2157, col: 38, offset: 69808},
+								pos:        position{line: 2158, col: 38, offset: 69840},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2171, col: 5, offset: 70244},
+							pos:   position{line: 2172, col: 5, offset: 70276},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2171, col: 14, offset: 70253},
+								pos:  position{line: 2172, col: 14, offset: 70285},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42972,29 +43140,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2196, col: 1, offset: 70935},
+			pos:  position{line: 2197, col: 1, offset: 70967},
 			expr: &actionExpr{
-				pos: position{line: 2197, col: 5, offset: 70965},
+				pos: position{line: 2198, col: 5, offset: 70997},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2197, col: 5, offset: 70965},
+					pos: position{line: 2198, col: 5, offset: 70997},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2180, col: 5, offset: 70501},
+							pos:        position{line: 2181, col: 5, offset: 70533},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2181, col: 5, offset: 70510},
+							pos: position{line: 2182, col: 5, offset: 70542},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2185, col: 5, offset: 70630},
+							pos: position{line: 2186, col: 5, offset: 70662},
 							expr: &notExpr{
-								pos: position{line: 2185, col: 7, offset: 70632},
+								pos: position{line: 2186, col: 7, offset: 70664},
 								expr: &litMatcher{
-									pos:        position{line: 2185, col: 8, offset: 70633},
+									pos:        position{line: 2186, col: 8, offset: 70665},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43002,38 +43170,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2198, col: 5, offset: 71005},
+							pos:   position{line: 2199, col: 5, offset: 71037},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2198, col: 15, offset: 71015},
+								pos:  position{line: 2199, col: 15, offset: 71047},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2188, col: 5, offset: 70738},
+							pos:        position{line: 2189, col: 5, offset: 70770},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2189, col: 5, offset: 70746},
+							pos: position{line: 2190, col: 5, offset: 70778},
 							expr: &litMatcher{
-								pos:        position{line: 2189, col: 6, offset: 70747},
+								pos:        position{line: 2190, col: 6, offset: 70779},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2190, col: 5, offset: 70810},
+							pos: position{line: 2191, col: 5, offset: 70842},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2194, col: 5, offset: 70921},
+							pos: position{line: 2195, col: 5, offset: 70953},
 							expr: &notExpr{
-								pos: position{line: 2194, col: 7, offset: 70923},
+								pos: position{line: 2195, col: 7, offset: 70955},
 								expr: &charClassMatcher{
-									pos:        position{line: 2754, col: 13, offset: 87778},
+									pos:        position{line: 2755, col: 13, offset: 87810},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43047,20 +43215,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2203, col: 1, offset: 71182},
+			pos:  position{line: 2204, col: 1, offset: 71214},
 			expr: &actionExpr{
-				pos: position{line: 2204, col: 5, offset: 71220},
+				pos: position{line: 2205, col: 5, offset: 71252},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2204, col: 5, offset: 71220},
+					pos: position{line: 2205, col: 5, offset: 71252},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2204, col: 5, offset: 71220},
+							pos: position{line: 2205, col: 5, offset: 71252},
 							expr: &actionExpr{
-								pos: position{line: 2864, col: 10, offset: 90683},
+								pos: position{line: 2865, col: 10, offset: 90715},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2864, col: 10, offset: 90683},
+									pos:        position{line: 2865, col: 10, offset: 90715},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43069,18 +43237,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2205, col: 5, offset: 71259},
+							pos:   position{line: 2206, col: 5, offset: 71291},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2205, col: 14, offset: 71268},
+								pos: position{line: 2206, col: 14, offset: 71300},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2205, col: 15, offset: 71269},
+									pos:  position{line: 2206, col: 15, offset: 71301},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2206, col: 5, offset: 71305},
+							pos: position{line: 2207, col: 5, offset: 71337},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -43089,49 +43257,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2212, col: 1, offset: 71446},
+			pos:  position{line: 2213, col: 1, offset: 71478},
 			expr: &actionExpr{
-				pos: position{line: 2213, col: 5, offset: 71483},
+				pos: position{line: 2214, col: 5, offset: 71515},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2213, col: 5, offset: 71483},
+					pos: position{line: 2214, col: 5, offset: 71515},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2881, col: 11, offset: 91017},
+							pos: position{line: 2882, col: 11, offset: 91049},
 							expr: &anyMatcher{
-								line: 2881, col: 13, offset: 91019,
+								line: 2882, col: 13, offset: 91051,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2214, col: 5, offset: 71494},
+							pos: position{line: 2215, col: 5, offset: 71526},
 							expr: &seqExpr{
-								pos: position{line: 2188, col: 5, offset: 70738},
+								pos: position{line: 2189, col: 5, offset: 70770},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2188, col: 5, offset: 70738},
+										pos:        position{line: 2189, col: 5, offset: 70770},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2189, col: 5, offset: 70746},
+										pos: position{line: 2190, col: 5, offset: 70778},
 										expr: &litMatcher{
-											pos:        position{line: 2189, col: 6, offset: 70747},
+											pos:        position{line: 2190, col: 6, offset: 70779},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2190, col: 5, offset: 70810},
+										pos: position{line: 2191, col: 5, offset: 70842},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2194, col: 5, offset: 70921},
+										pos: position{line: 2195, col: 5, offset: 70953},
 										expr: &notExpr{
-											pos: position{line: 2194, col: 7, offset: 70923},
+											pos: position{line: 2195, col: 7, offset: 70955},
 											expr: &charClassMatcher{
-												pos:        position{line: 2754, col: 13, offset: 87778},
+												pos:        position{line: 2755, col: 13, offset: 87810},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43143,10 +43311,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2215, col: 5, offset: 71533},
+							pos:   position{line: 2216, col: 5, offset: 71565},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2215, col: 14, offset: 71542},
+								pos:  position{line: 2216, col: 14, offset: 71574},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43156,35 +43324,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2220, col: 1, offset: 71630},
+			pos:  position{line: 2221, col: 1, offset: 71662},
 			expr: &choiceExpr{
-				pos: position{line: 2222, col: 5, offset: 71694},
+				pos: position{line: 2223, col: 5, offset: 71726},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2222, col: 5, offset: 71694},
+						pos: position{line: 2223, col: 5, offset: 71726},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2222, col: 5, offset: 71694},
+							pos: position{line: 2223, col: 5, offset: 71726},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2222, col: 5, offset: 71694},
+									pos:   position{line: 2223, col: 5, offset: 71726},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 59898},
+										pos: position{line: 1858, col: 25, offset: 59930},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1857, col: 25, offset: 59898},
+											pos: position{line: 1858, col: 25, offset: 59930},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1857, col: 25, offset: 59898},
+													pos:        position{line: 1858, col: 25, offset: 59930},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1857, col: 30, offset: 59903},
+													pos: position{line: 1858, col: 30, offset: 59935},
 													expr: &litMatcher{
-														pos:        position{line: 1857, col: 30, offset: 59903},
+														pos:        position{line: 1858, col: 30, offset: 59935},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43195,21 +43363,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2222, col: 40, offset: 71729},
+									pos:        position{line: 2223, col: 40, offset: 71761},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2222, col: 45, offset: 71734},
+									pos:   position{line: 2223, col: 45, offset: 71766},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2222, col: 55, offset: 71744},
+										pos:  position{line: 2223, col: 55, offset: 71776},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2222, col: 86, offset: 71775},
+									pos:        position{line: 2223, col: 86, offset: 71807},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -43218,21 +43386,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2226, col: 7, offset: 71940},
+						pos: position{line: 2227, col: 7, offset: 71972},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2226, col: 7, offset: 71940},
+							pos: position{line: 2227, col: 7, offset: 71972},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2226, col: 7, offset: 71940},
+									pos:   position{line: 2227, col: 7, offset: 71972},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59825},
+										pos: position{line: 1854, col: 25, offset: 59857},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 59825},
+											pos: position{line: 1854, col: 25, offset: 59857},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 59825},
+												pos:        position{line: 1854, col: 25, offset: 59857},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43241,21 +43409,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2226, col: 42, offset: 71975},
+									pos:        position{line: 2227, col: 42, offset: 72007},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2226, col: 47, offset: 71980},
+									pos:   position{line: 2227, col: 47, offset: 72012},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2226, col: 57, offset: 71990},
+										pos:  position{line: 2227, col: 57, offset: 72022},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2226, col: 88, offset: 72021},
+									pos:        position{line: 2227, col: 88, offset: 72053},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43264,21 +43432,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2231, col: 7, offset: 72224},
+						pos: position{line: 2232, col: 7, offset: 72256},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2231, col: 7, offset: 72224},
+							pos: position{line: 2232, col: 7, offset: 72256},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2231, col: 7, offset: 72224},
+									pos:   position{line: 2232, col: 7, offset: 72256},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1853, col: 25, offset: 59825},
+										pos: position{line: 1854, col: 25, offset: 59857},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1853, col: 25, offset: 59825},
+											pos: position{line: 1854, col: 25, offset: 59857},
 											expr: &litMatcher{
-												pos:        position{line: 1853, col: 25, offset: 59825},
+												pos:        position{line: 1854, col: 25, offset: 59857},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43287,21 +43455,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2231, col: 42, offset: 72259},
+									pos:        position{line: 2232, col: 42, offset: 72291},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2231, col: 46, offset: 72263},
+									pos:   position{line: 2232, col: 46, offset: 72295},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2231, col: 56, offset: 72273},
+										pos:  position{line: 2232, col: 56, offset: 72305},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2231, col: 87, offset: 72304},
+									pos:        position{line: 2232, col: 87, offset: 72336},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43314,29 +43482,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2238, col: 1, offset: 72571},
+			pos:  position{line: 2239, col: 1, offset: 72603},
 			expr: &actionExpr{
-				pos: position{line: 2239, col: 5, offset: 72593},
+				pos: position{line: 2240, col: 5, offset: 72625},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2239, col: 5, offset: 72593},
+					pos: position{line: 2240, col: 5, offset: 72625},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2245, col: 27, offset: 72808},
+							pos:        position{line: 2246, col: 27, offset: 72840},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2240, col: 5, offset: 72620},
+							pos:   position{line: 2241, col: 5, offset: 72652},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2240, col: 14, offset: 72629},
+								pos:  position{line: 2241, col: 14, offset: 72661},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2245, col: 27, offset: 72808},
+							pos:        position{line: 2246, col: 27, offset: 72840},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43347,21 +43515,21 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2247, col: 1, offset: 72813},
+			pos:  position{line: 2248, col: 1, offset: 72845},
 			expr: &choiceExpr{
-				pos: position{line: 2247, col: 25, offset: 72837},
+				pos: position{line: 2248, col: 25, offset: 72869},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2247, col: 25, offset: 72837},
+						pos:  position{line: 2248, col: 25, offset: 72869},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2249, col: 21, offset: 72889},
+						pos: position{line: 2250, col: 21, offset: 72921},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2249, col: 21, offset: 72889},
+							pos: position{line: 2250, col: 21, offset: 72921},
 							expr: &charClassMatcher{
-								pos:        position{line: 2249, col: 21, offset: 72889},
+								pos:        position{line: 2250, col: 21, offset: 72921},
 								val:        "[^\\r\\n ~]",
 								chars:      []rune{'\r', '\n', ' ', '~'},
 								ignoreCase: false,
@@ -43374,23 +43542,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2253, col: 1, offset: 72974},
+			pos:  position{line: 2254, col: 1, offset: 73006},
 			expr: &actionExpr{
-				pos: position{line: 2255, col: 5, offset: 73041},
+				pos: position{line: 2256, col: 5, offset: 73073},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2255, col: 5, offset: 73041},
+					pos: position{line: 2256, col: 5, offset: 73073},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2255, col: 5, offset: 73041},
+							pos:   position{line: 2256, col: 5, offset: 73073},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1853, col: 25, offset: 59825},
+								pos: position{line: 1854, col: 25, offset: 59857},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1853, col: 25, offset: 59825},
+									pos: position{line: 1854, col: 25, offset: 59857},
 									expr: &litMatcher{
-										pos:        position{line: 1853, col: 25, offset: 59825},
+										pos:        position{line: 1854, col: 25, offset: 59857},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43399,21 +43567,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2245, col: 27, offset: 72808},
+							pos:        position{line: 2246, col: 27, offset: 72840},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2257, col: 5, offset: 73109},
+							pos:   position{line: 2258, col: 5, offset: 73141},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2257, col: 14, offset: 73118},
+								pos:  position{line: 2258, col: 14, offset: 73150},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2245, col: 27, offset: 72808},
+							pos:        position{line: 2246, col: 27, offset: 72840},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43424,29 +43592,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2265, col: 1, offset: 73381},
+			pos:  position{line: 2266, col: 1, offset: 73413},
 			expr: &actionExpr{
-				pos: position{line: 2266, col: 5, offset: 73405},
+				pos: position{line: 2267, col: 5, offset: 73437},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2266, col: 5, offset: 73405},
+					pos: position{line: 2267, col: 5, offset: 73437},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2272, col: 29, offset: 73632},
+							pos:        position{line: 2273, col: 29, offset: 73664},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2267, col: 5, offset: 73435},
+							pos:   position{line: 2268, col: 5, offset: 73467},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2267, col: 14, offset: 73444},
+								pos:  position{line: 2268, col: 14, offset: 73476},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2272, col: 29, offset: 73632},
+							pos:        position{line: 2273, col: 29, offset: 73664},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43457,21 +43625,21 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2274, col: 1, offset: 73637},
+			pos:  position{line: 2275, col: 1, offset: 73669},
 			expr: &choiceExpr{
-				pos: position{line: 2274, col: 27, offset: 73663},
+				pos: position{line: 2275, col: 27, offset: 73695},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2274, col: 27, offset: 73663},
+						pos:  position{line: 2275, col: 27, offset: 73695},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2276, col: 23, offset: 73719},
+						pos: position{line: 2277, col: 23, offset: 73751},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2276, col: 23, offset: 73719},
+							pos: position{line: 2277, col: 23, offset: 73751},
 							expr: &charClassMatcher{
-								pos:        position{line: 2276, col: 23, offset: 73719},
+								pos:        position{line: 2277, col: 23, offset: 73751},
 								val:        "[^\\r\\n ^]",
 								chars:      []rune{'\r', '\n', ' ', '^'},
 								ignoreCase: false,
@@ -43484,23 +43652,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2280, col: 1, offset: 73804},
+			pos:  position{line: 2281, col: 1, offset: 73836},
 			expr: &actionExpr{
-				pos: position{line: 2282, col: 5, offset: 73876},
+				pos: position{line: 2283, col: 5, offset: 73908},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2282, col: 5, offset: 73876},
+					pos: position{line: 2283, col: 5, offset: 73908},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2282, col: 5, offset: 73876},
+							pos:   position{line: 2283, col: 5, offset: 73908},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1853, col: 25, offset: 59825},
+								pos: position{line: 1854, col: 25, offset: 59857},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1853, col: 25, offset: 59825},
+									pos: position{line: 1854, col: 25, offset: 59857},
 									expr: &litMatcher{
-										pos:        position{line: 1853, col: 25, offset: 59825},
+										pos:        position{line: 1854, col: 25, offset: 59857},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43509,21 +43677,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2272, col: 29, offset: 73632},
+							pos:        position{line: 2273, col: 29, offset: 73664},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2284, col: 5, offset: 73946},
+							pos:   position{line: 2285, col: 5, offset: 73978},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2284, col: 14, offset: 73955},
+								pos:  position{line: 2285, col: 14, offset: 73987},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2272, col: 29, offset: 73632},
+							pos:        position{line: 2273, col: 29, offset: 73664},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43534,27 +43702,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2293, col: 1, offset: 74424},
+			pos:  position{line: 2294, col: 1, offset: 74456},
 			expr: &actionExpr{
-				pos: position{line: 2294, col: 5, offset: 74440},
+				pos: position{line: 2295, col: 5, offset: 74472},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2294, col: 5, offset: 74440},
+					pos: position{line: 2295, col: 5, offset: 74472},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2294, col: 5, offset: 74440},
+							pos: position{line: 2295, col: 5, offset: 74472},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2297, col: 5, offset: 74503},
+							pos:   position{line: 2298, col: 5, offset: 74535},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2297, col: 12, offset: 74510},
+								pos: position{line: 2298, col: 12, offset: 74542},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2297, col: 12, offset: 74510},
+									pos: position{line: 2298, col: 12, offset: 74542},
 									expr: &litMatcher{
-										pos:        position{line: 2297, col: 13, offset: 74511},
+										pos:        position{line: 2298, col: 13, offset: 74543},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -43563,16 +43731,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2301, col: 5, offset: 74619},
+							pos: position{line: 2302, col: 5, offset: 74651},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2868, col: 11, offset: 90744},
+							pos: position{line: 2869, col: 11, offset: 90776},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2868, col: 11, offset: 90744},
+								pos: position{line: 2869, col: 11, offset: 90776},
 								expr: &charClassMatcher{
-									pos:        position{line: 2868, col: 11, offset: 90744},
+									pos:        position{line: 2869, col: 11, offset: 90776},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43581,36 +43749,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2305, col: 12, offset: 74778},
+							pos:   position{line: 2306, col: 12, offset: 74810},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2305, col: 19, offset: 74785},
+								pos:  position{line: 2306, col: 19, offset: 74817},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2886, col: 8, offset: 91081},
+							pos: position{line: 2887, col: 8, offset: 91113},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2873, col: 12, offset: 90854},
+									pos: position{line: 2874, col: 12, offset: 90886},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2873, col: 13, offset: 90855},
+										pos: position{line: 2874, col: 13, offset: 90887},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2873, col: 13, offset: 90855},
+												pos:        position{line: 2874, col: 13, offset: 90887},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 20, offset: 90862},
+												pos:        position{line: 2874, col: 20, offset: 90894},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 29, offset: 90871},
+												pos:        position{line: 2874, col: 29, offset: 90903},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43619,9 +43787,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2883, col: 8, offset: 91031},
+									pos: position{line: 2884, col: 8, offset: 91063},
 									expr: &anyMatcher{
-										line: 2883, col: 9, offset: 91032,
+										line: 2884, col: 9, offset: 91064,
 									},
 								},
 							},
@@ -43632,24 +43800,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2309, col: 1, offset: 74881},
+			pos:  position{line: 2310, col: 1, offset: 74913},
 			expr: &actionExpr{
-				pos: position{line: 2310, col: 5, offset: 74902},
+				pos: position{line: 2311, col: 5, offset: 74934},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2310, col: 5, offset: 74902},
+					pos: position{line: 2311, col: 5, offset: 74934},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2310, col: 5, offset: 74902},
+							pos: position{line: 2311, col: 5, offset: 74934},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2315, col: 5, offset: 75017},
+							pos:   position{line: 2316, col: 5, offset: 75049},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2315, col: 14, offset: 75026},
+								pos: position{line: 2316, col: 14, offset: 75058},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2315, col: 15, offset: 75027},
+									pos:  position{line: 2316, col: 15, offset: 75059},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43660,38 +43828,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2319, col: 1, offset: 75108},
+			pos:  position{line: 2320, col: 1, offset: 75140},
 			expr: &actionExpr{
-				pos: position{line: 2320, col: 5, offset: 75135},
+				pos: position{line: 2321, col: 5, offset: 75167},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2320, col: 5, offset: 75135},
+					pos: position{line: 2321, col: 5, offset: 75167},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2320, col: 5, offset: 75135},
+							pos: position{line: 2321, col: 5, offset: 75167},
 							expr: &choiceExpr{
-								pos: position{line: 2886, col: 8, offset: 91081},
+								pos: position{line: 2887, col: 8, offset: 91113},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2873, col: 12, offset: 90854},
+										pos: position{line: 2874, col: 12, offset: 90886},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2873, col: 13, offset: 90855},
+											pos: position{line: 2874, col: 13, offset: 90887},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2873, col: 13, offset: 90855},
+													pos:        position{line: 2874, col: 13, offset: 90887},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2873, col: 20, offset: 90862},
+													pos:        position{line: 2874, col: 20, offset: 90894},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2873, col: 29, offset: 90871},
+													pos:        position{line: 2874, col: 29, offset: 90903},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43700,36 +43868,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2883, col: 8, offset: 91031},
+										pos: position{line: 2884, col: 8, offset: 91063},
 										expr: &anyMatcher{
-											line: 2883, col: 9, offset: 91032,
+											line: 2884, col: 9, offset: 91064,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2321, col: 5, offset: 75144},
+							pos:   position{line: 2322, col: 5, offset: 75176},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2322, col: 9, offset: 75162},
+								pos: position{line: 2323, col: 9, offset: 75194},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2763, col: 5, offset: 87925},
+										pos: position{line: 2764, col: 5, offset: 87957},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2763, col: 5, offset: 87925},
+											pos: position{line: 2764, col: 5, offset: 87957},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2763, col: 5, offset: 87925},
+													pos:   position{line: 2764, col: 5, offset: 87957},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2763, col: 11, offset: 87931},
+														pos: position{line: 2764, col: 11, offset: 87963},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2763, col: 11, offset: 87931},
+															pos: position{line: 2764, col: 11, offset: 87963},
 															expr: &charClassMatcher{
-																pos:        position{line: 2763, col: 11, offset: 87931},
+																pos:        position{line: 2764, col: 11, offset: 87963},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43739,36 +43907,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2766, col: 5, offset: 87989},
+													pos: position{line: 2767, col: 5, offset: 88021},
 													expr: &seqExpr{
-														pos: position{line: 2767, col: 9, offset: 88000},
+														pos: position{line: 2768, col: 9, offset: 88032},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2767, col: 9, offset: 88000},
+																pos:        position{line: 2768, col: 9, offset: 88032},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2768, col: 9, offset: 88049},
+																pos: position{line: 2769, col: 9, offset: 88081},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2772, col: 5, offset: 88129},
+													pos: position{line: 2773, col: 5, offset: 88161},
 													expr: &seqExpr{
-														pos: position{line: 2773, col: 9, offset: 88140},
+														pos: position{line: 2774, col: 9, offset: 88172},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2773, col: 9, offset: 88140},
+																pos:        position{line: 2774, col: 9, offset: 88172},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2773, col: 13, offset: 88144},
+																pos:        position{line: 2774, col: 13, offset: 88176},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43781,12 +43949,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2868, col: 11, offset: 90744},
+										pos: position{line: 2869, col: 11, offset: 90776},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2868, col: 11, offset: 90744},
+											pos: position{line: 2869, col: 11, offset: 90776},
 											expr: &charClassMatcher{
-												pos:        position{line: 2868, col: 11, offset: 90744},
+												pos:        position{line: 2869, col: 11, offset: 90776},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43795,21 +43963,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2492, col: 5, offset: 80343},
+										pos: position{line: 2493, col: 5, offset: 80375},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2492, col: 5, offset: 80343},
+											pos: position{line: 2493, col: 5, offset: 80375},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2492, col: 5, offset: 80343},
+													pos:        position{line: 2493, col: 5, offset: 80375},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2492, col: 10, offset: 80348},
+													pos: position{line: 2493, col: 10, offset: 80380},
 													expr: &charClassMatcher{
-														pos:        position{line: 2492, col: 11, offset: 80349},
+														pos:        position{line: 2493, col: 11, offset: 80381},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43820,29 +43988,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2498, col: 5, offset: 80541},
+										pos: position{line: 2499, col: 5, offset: 80573},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2498, col: 5, offset: 80541},
+											pos: position{line: 2499, col: 5, offset: 80573},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2498, col: 5, offset: 80541},
+													pos: position{line: 2499, col: 5, offset: 80573},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2501, col: 5, offset: 80612},
+													pos: position{line: 2502, col: 5, offset: 80644},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2505, col: 5, offset: 80737},
+													pos:        position{line: 2506, col: 5, offset: 80769},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2505, col: 9, offset: 80741},
+													pos: position{line: 2506, col: 9, offset: 80773},
 													expr: &charClassMatcher{
-														pos:        position{line: 2505, col: 10, offset: 80742},
+														pos:        position{line: 2506, col: 10, offset: 80774},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43853,31 +44021,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2325, col: 11, offset: 75227},
+										pos:  position{line: 2326, col: 11, offset: 75259},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2781, col: 5, offset: 88337},
+										pos: position{line: 2782, col: 5, offset: 88369},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2782, col: 9, offset: 88347},
+											pos: position{line: 2783, col: 9, offset: 88379},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2782, col: 10, offset: 88348},
+													pos:        position{line: 2783, col: 10, offset: 88380},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2784, col: 13, offset: 88445},
+													pos: position{line: 2785, col: 13, offset: 88477},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2784, col: 13, offset: 88445},
+															pos: position{line: 2785, col: 13, offset: 88477},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2787, col: 13, offset: 88545},
+															pos:        position{line: 2788, col: 13, offset: 88577},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -43885,20 +44053,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2787, col: 19, offset: 88551},
+													pos:        position{line: 2788, col: 19, offset: 88583},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2790, col: 13, offset: 88589},
+													pos: position{line: 2791, col: 13, offset: 88621},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2790, col: 13, offset: 88589},
+															pos: position{line: 2791, col: 13, offset: 88621},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2793, col: 14, offset: 88682},
+															pos:        position{line: 2794, col: 14, offset: 88714},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -43907,18 +44075,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2795, col: 12, offset: 88726},
+													pos: position{line: 2796, col: 12, offset: 88758},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2795, col: 12, offset: 88726},
+															pos:        position{line: 2796, col: 12, offset: 88758},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2795, col: 16, offset: 88730},
+															pos: position{line: 2796, col: 16, offset: 88762},
 															expr: &litMatcher{
-																pos:        position{line: 2795, col: 17, offset: 88731},
+																pos:        position{line: 2796, col: 17, offset: 88763},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -43930,35 +44098,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2327, col: 11, offset: 75300},
+										pos:  position{line: 2328, col: 11, offset: 75332},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2328, col: 11, offset: 75316},
+										pos:  position{line: 2329, col: 11, offset: 75348},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2329, col: 11, offset: 75344},
+										pos:  position{line: 2330, col: 11, offset: 75376},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2461, col: 5, offset: 79172},
+										pos: position{line: 2462, col: 5, offset: 79204},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2461, col: 5, offset: 79172},
+											pos: position{line: 2462, col: 5, offset: 79204},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2461, col: 5, offset: 79172},
+													pos: position{line: 2462, col: 5, offset: 79204},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2464, col: 5, offset: 79248},
+													pos:   position{line: 2465, col: 5, offset: 79280},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2465, col: 9, offset: 79266},
+														pos: position{line: 2466, col: 9, offset: 79298},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2465, col: 10, offset: 79267},
+															pos:        position{line: 2466, col: 10, offset: 79299},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -43970,7 +44138,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2331, col: 11, offset: 75429},
+										pos:  position{line: 2332, col: 11, offset: 75461},
 										name: "InlineIcon",
 									},
 									&actionExpr{
@@ -44359,17 +44527,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2344, col: 5, offset: 75882},
+										pos: position{line: 2345, col: 5, offset: 75914},
 										run: (*parser).callonSectionTitleElement145,
 										expr: &seqExpr{
-											pos: position{line: 2344, col: 5, offset: 75882},
+											pos: position{line: 2345, col: 5, offset: 75914},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2344, col: 5, offset: 75882},
+													pos: position{line: 2345, col: 5, offset: 75914},
 													run: (*parser).callonSectionTitleElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2347, col: 5, offset: 75937},
+													pos:   position{line: 2348, col: 5, offset: 75969},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 404, col: 5, offset: 12337},
@@ -44823,12 +44991,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2347, col: 26, offset: 75958},
+													pos: position{line: 2348, col: 26, offset: 75990},
 													expr: &actionExpr{
-														pos: position{line: 2864, col: 10, offset: 90683},
+														pos: position{line: 2865, col: 10, offset: 90715},
 														run: (*parser).callonSectionTitleElement241,
 														expr: &charClassMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90683},
+															pos:        position{line: 2865, col: 10, offset: 90715},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -44837,30 +45005,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2347, col: 33, offset: 75965},
+													pos: position{line: 2348, col: 33, offset: 75997},
 													expr: &choiceExpr{
-														pos: position{line: 2886, col: 8, offset: 91081},
+														pos: position{line: 2887, col: 8, offset: 91113},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2873, col: 12, offset: 90854},
+																pos: position{line: 2874, col: 12, offset: 90886},
 																run: (*parser).callonSectionTitleElement245,
 																expr: &choiceExpr{
-																	pos: position{line: 2873, col: 13, offset: 90855},
+																	pos: position{line: 2874, col: 13, offset: 90887},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 13, offset: 90855},
+																			pos:        position{line: 2874, col: 13, offset: 90887},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 20, offset: 90862},
+																			pos:        position{line: 2874, col: 20, offset: 90894},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2873, col: 29, offset: 90871},
+																			pos:        position{line: 2874, col: 29, offset: 90903},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -44869,9 +45037,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2883, col: 8, offset: 91031},
+																pos: position{line: 2884, col: 8, offset: 91063},
 																expr: &anyMatcher{
-																	line: 2883, col: 9, offset: 91032,
+																	line: 2884, col: 9, offset: 91064,
 																},
 															},
 														},
@@ -44896,12 +45064,12 @@ var g = &grammar{
 													pos:   position{line: 1265, col: 14, offset: 39143},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2849, col: 7, offset: 90335},
+														pos: position{line: 2850, col: 7, offset: 90367},
 														run: (*parser).callonSectionTitleElement256,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2849, col: 7, offset: 90335},
+															pos: position{line: 2850, col: 7, offset: 90367},
 															expr: &charClassMatcher{
-																pos:        position{line: 2849, col: 7, offset: 90335},
+																pos:        position{line: 2850, col: 7, offset: 90367},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -44935,12 +45103,12 @@ var g = &grammar{
 													pos:   position{line: 1270, col: 10, offset: 39275},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2849, col: 7, offset: 90335},
+														pos: position{line: 2850, col: 7, offset: 90367},
 														run: (*parser).callonSectionTitleElement264,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2849, col: 7, offset: 90335},
+															pos: position{line: 2850, col: 7, offset: 90367},
 															expr: &charClassMatcher{
-																pos:        position{line: 2849, col: 7, offset: 90335},
+																pos:        position{line: 2850, col: 7, offset: 90367},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -44959,14 +45127,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2336, col: 11, offset: 75683},
+										pos:  position{line: 2337, col: 11, offset: 75715},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2803, col: 12, offset: 88991},
+										pos: position{line: 2804, col: 12, offset: 89023},
 										run: (*parser).callonSectionTitleElement269,
 										expr: &charClassMatcher{
-											pos:        position{line: 2803, col: 12, offset: 88991},
+											pos:        position{line: 2804, col: 12, offset: 89023},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -44982,52 +45150,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2357, col: 1, offset: 76227},
+			pos:  position{line: 2358, col: 1, offset: 76259},
 			expr: &actionExpr{
-				pos: position{line: 2358, col: 5, offset: 76314},
+				pos: position{line: 2359, col: 5, offset: 76346},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2358, col: 5, offset: 76314},
+					pos: position{line: 2359, col: 5, offset: 76346},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2358, col: 5, offset: 76314},
+							pos:   position{line: 2359, col: 5, offset: 76346},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2358, col: 14, offset: 76323},
+								pos: position{line: 2359, col: 14, offset: 76355},
 								expr: &actionExpr{
-									pos: position{line: 2360, col: 9, offset: 76349},
+									pos: position{line: 2361, col: 9, offset: 76381},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2360, col: 9, offset: 76349},
+										pos: position{line: 2361, col: 9, offset: 76381},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2881, col: 11, offset: 91017},
+												pos: position{line: 2882, col: 11, offset: 91049},
 												expr: &anyMatcher{
-													line: 2881, col: 13, offset: 91019,
+													line: 2882, col: 13, offset: 91051,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2361, col: 9, offset: 76364},
+												pos:   position{line: 2362, col: 9, offset: 76396},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2362, col: 13, offset: 76386},
+													pos: position{line: 2363, col: 13, offset: 76418},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2763, col: 5, offset: 87925},
+															pos: position{line: 2764, col: 5, offset: 87957},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2763, col: 5, offset: 87925},
+																pos: position{line: 2764, col: 5, offset: 87957},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2763, col: 5, offset: 87925},
+																		pos:   position{line: 2764, col: 5, offset: 87957},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2763, col: 11, offset: 87931},
+																			pos: position{line: 2764, col: 11, offset: 87963},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2763, col: 11, offset: 87931},
+																				pos: position{line: 2764, col: 11, offset: 87963},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2763, col: 11, offset: 87931},
+																					pos:        position{line: 2764, col: 11, offset: 87963},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45037,36 +45205,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2766, col: 5, offset: 87989},
+																		pos: position{line: 2767, col: 5, offset: 88021},
 																		expr: &seqExpr{
-																			pos: position{line: 2767, col: 9, offset: 88000},
+																			pos: position{line: 2768, col: 9, offset: 88032},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2767, col: 9, offset: 88000},
+																					pos:        position{line: 2768, col: 9, offset: 88032},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2768, col: 9, offset: 88049},
+																					pos: position{line: 2769, col: 9, offset: 88081},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2772, col: 5, offset: 88129},
+																		pos: position{line: 2773, col: 5, offset: 88161},
 																		expr: &seqExpr{
-																			pos: position{line: 2773, col: 9, offset: 88140},
+																			pos: position{line: 2774, col: 9, offset: 88172},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2773, col: 9, offset: 88140},
+																					pos:        position{line: 2774, col: 9, offset: 88172},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2773, col: 13, offset: 88144},
+																					pos:        position{line: 2774, col: 13, offset: 88176},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45079,12 +45247,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2868, col: 11, offset: 90744},
+															pos: position{line: 2869, col: 11, offset: 90776},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2868, col: 11, offset: 90744},
+																pos: position{line: 2869, col: 11, offset: 90776},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2868, col: 11, offset: 90744},
+																	pos:        position{line: 2869, col: 11, offset: 90776},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45093,25 +45261,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2364, col: 15, offset: 76432},
+															pos:  position{line: 2365, col: 15, offset: 76464},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2492, col: 5, offset: 80343},
+															pos: position{line: 2493, col: 5, offset: 80375},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2492, col: 5, offset: 80343},
+																pos: position{line: 2493, col: 5, offset: 80375},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2492, col: 5, offset: 80343},
+																		pos:        position{line: 2493, col: 5, offset: 80375},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2492, col: 10, offset: 80348},
+																		pos: position{line: 2493, col: 10, offset: 80380},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2492, col: 11, offset: 80349},
+																			pos:        position{line: 2493, col: 11, offset: 80381},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45122,29 +45290,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2498, col: 5, offset: 80541},
+															pos: position{line: 2499, col: 5, offset: 80573},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2498, col: 5, offset: 80541},
+																pos: position{line: 2499, col: 5, offset: 80573},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2498, col: 5, offset: 80541},
+																		pos: position{line: 2499, col: 5, offset: 80573},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2501, col: 5, offset: 80612},
+																		pos: position{line: 2502, col: 5, offset: 80644},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2505, col: 5, offset: 80737},
+																		pos:        position{line: 2506, col: 5, offset: 80769},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2505, col: 9, offset: 80741},
+																		pos: position{line: 2506, col: 9, offset: 80773},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2505, col: 10, offset: 80742},
+																			pos:        position{line: 2506, col: 10, offset: 80774},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45155,27 +45323,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2781, col: 5, offset: 88337},
+															pos: position{line: 2782, col: 5, offset: 88369},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2782, col: 9, offset: 88347},
+																pos: position{line: 2783, col: 9, offset: 88379},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2782, col: 10, offset: 88348},
+																		pos:        position{line: 2783, col: 10, offset: 88380},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2784, col: 13, offset: 88445},
+																		pos: position{line: 2785, col: 13, offset: 88477},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2784, col: 13, offset: 88445},
+																				pos: position{line: 2785, col: 13, offset: 88477},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2787, col: 13, offset: 88545},
+																				pos:        position{line: 2788, col: 13, offset: 88577},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45183,20 +45351,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2787, col: 19, offset: 88551},
+																		pos:        position{line: 2788, col: 19, offset: 88583},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2790, col: 13, offset: 88589},
+																		pos: position{line: 2791, col: 13, offset: 88621},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2790, col: 13, offset: 88589},
+																				pos: position{line: 2791, col: 13, offset: 88621},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2793, col: 14, offset: 88682},
+																				pos:        position{line: 2794, col: 14, offset: 88714},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45205,18 +45373,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2795, col: 12, offset: 88726},
+																		pos: position{line: 2796, col: 12, offset: 88758},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2795, col: 12, offset: 88726},
+																				pos:        position{line: 2796, col: 12, offset: 88758},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2795, col: 16, offset: 88730},
+																				pos: position{line: 2796, col: 16, offset: 88762},
 																				expr: &litMatcher{
-																					pos:        position{line: 2795, col: 17, offset: 88731},
+																					pos:        position{line: 2796, col: 17, offset: 88763},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45228,25 +45396,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2873, col: 12, offset: 90854},
+															pos: position{line: 2874, col: 12, offset: 90886},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2873, col: 13, offset: 90855},
+																pos: position{line: 2874, col: 13, offset: 90887},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 13, offset: 90855},
+																		pos:        position{line: 2874, col: 13, offset: 90887},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 20, offset: 90862},
+																		pos:        position{line: 2874, col: 20, offset: 90894},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2873, col: 29, offset: 90871},
+																		pos:        position{line: 2874, col: 29, offset: 90903},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45601,35 +45769,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2369, col: 15, offset: 76599},
+															pos:  position{line: 2370, col: 15, offset: 76631},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2370, col: 15, offset: 76619},
+															pos:  position{line: 2371, col: 15, offset: 76651},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2371, col: 15, offset: 76708},
+															pos:  position{line: 2372, col: 15, offset: 76740},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2461, col: 5, offset: 79172},
+															pos: position{line: 2462, col: 5, offset: 79204},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2461, col: 5, offset: 79172},
+																pos: position{line: 2462, col: 5, offset: 79204},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2461, col: 5, offset: 79172},
+																		pos: position{line: 2462, col: 5, offset: 79204},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2464, col: 5, offset: 79248},
+																		pos:   position{line: 2465, col: 5, offset: 79280},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2465, col: 9, offset: 79266},
+																			pos: position{line: 2466, col: 9, offset: 79298},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2465, col: 10, offset: 79267},
+																				pos:        position{line: 2466, col: 10, offset: 79299},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -45663,10 +45831,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1226, col: 5, offset: 37991},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90683},
+																			pos: position{line: 2865, col: 10, offset: 90715},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90683},
+																				pos:        position{line: 2865, col: 10, offset: 90715},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45677,28 +45845,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1226, col: 12, offset: 37998},
 																		expr: &choiceExpr{
-																			pos: position{line: 2886, col: 8, offset: 91081},
+																			pos: position{line: 2887, col: 8, offset: 91113},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90854},
+																					pos: position{line: 2874, col: 12, offset: 90886},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90855},
+																						pos: position{line: 2874, col: 13, offset: 90887},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90855},
+																								pos:        position{line: 2874, col: 13, offset: 90887},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90862},
+																								pos:        position{line: 2874, col: 20, offset: 90894},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90871},
+																								pos:        position{line: 2874, col: 29, offset: 90903},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45707,9 +45875,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2883, col: 8, offset: 91031},
+																					pos: position{line: 2884, col: 8, offset: 91063},
 																					expr: &anyMatcher{
-																						line: 2883, col: 9, offset: 91032,
+																						line: 2884, col: 9, offset: 91064,
 																					},
 																				},
 																			},
@@ -45719,7 +45887,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2374, col: 15, offset: 76890},
+															pos:  position{line: 2375, col: 15, offset: 76922},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -45762,10 +45930,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2803, col: 12, offset: 88991},
+															pos: position{line: 2804, col: 12, offset: 89023},
 															run: (*parser).callonNormalGroup164,
 															expr: &charClassMatcher{
-																pos:        position{line: 2803, col: 12, offset: 88991},
+																pos:        position{line: 2804, col: 12, offset: 89023},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45781,9 +45949,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2883, col: 8, offset: 91031},
+							pos: position{line: 2884, col: 8, offset: 91063},
 							expr: &anyMatcher{
-								line: 2883, col: 9, offset: 91032,
+								line: 2884, col: 9, offset: 91064,
 							},
 						},
 					},
@@ -45792,28 +45960,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2385, col: 1, offset: 77328},
+			pos:  position{line: 2386, col: 1, offset: 77360},
 			expr: &actionExpr{
-				pos: position{line: 2386, col: 5, offset: 77361},
+				pos: position{line: 2387, col: 5, offset: 77393},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2386, col: 5, offset: 77361},
+					pos: position{line: 2387, col: 5, offset: 77393},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2386, col: 5, offset: 77361},
+							pos:   position{line: 2387, col: 5, offset: 77393},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2386, col: 14, offset: 77370},
+								pos: position{line: 2387, col: 14, offset: 77402},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2386, col: 15, offset: 77371},
+									pos:  position{line: 2387, col: 15, offset: 77403},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2883, col: 8, offset: 91031},
+							pos: position{line: 2884, col: 8, offset: 91063},
 							expr: &anyMatcher{
-								line: 2883, col: 9, offset: 91032,
+								line: 2884, col: 9, offset: 91064,
 							},
 						},
 					},
@@ -45822,41 +45990,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2390, col: 1, offset: 77468},
+			pos:  position{line: 2391, col: 1, offset: 77500},
 			expr: &actionExpr{
-				pos: position{line: 2391, col: 5, offset: 77508},
+				pos: position{line: 2392, col: 5, offset: 77540},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2391, col: 5, offset: 77508},
+					pos: position{line: 2392, col: 5, offset: 77540},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2881, col: 11, offset: 91017},
+							pos: position{line: 2882, col: 11, offset: 91049},
 							expr: &anyMatcher{
-								line: 2881, col: 13, offset: 91019,
+								line: 2882, col: 13, offset: 91051,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2392, col: 5, offset: 77519},
+							pos:   position{line: 2393, col: 5, offset: 77551},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2393, col: 9, offset: 77537},
+								pos: position{line: 2394, col: 9, offset: 77569},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2763, col: 5, offset: 87925},
+										pos: position{line: 2764, col: 5, offset: 87957},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2763, col: 5, offset: 87925},
+											pos: position{line: 2764, col: 5, offset: 87957},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2763, col: 5, offset: 87925},
+													pos:   position{line: 2764, col: 5, offset: 87957},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2763, col: 11, offset: 87931},
+														pos: position{line: 2764, col: 11, offset: 87963},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2763, col: 11, offset: 87931},
+															pos: position{line: 2764, col: 11, offset: 87963},
 															expr: &charClassMatcher{
-																pos:        position{line: 2763, col: 11, offset: 87931},
+																pos:        position{line: 2764, col: 11, offset: 87963},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45866,36 +46034,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2766, col: 5, offset: 87989},
+													pos: position{line: 2767, col: 5, offset: 88021},
 													expr: &seqExpr{
-														pos: position{line: 2767, col: 9, offset: 88000},
+														pos: position{line: 2768, col: 9, offset: 88032},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2767, col: 9, offset: 88000},
+																pos:        position{line: 2768, col: 9, offset: 88032},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2768, col: 9, offset: 88049},
+																pos: position{line: 2769, col: 9, offset: 88081},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2772, col: 5, offset: 88129},
+													pos: position{line: 2773, col: 5, offset: 88161},
 													expr: &seqExpr{
-														pos: position{line: 2773, col: 9, offset: 88140},
+														pos: position{line: 2774, col: 9, offset: 88172},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2773, col: 9, offset: 88140},
+																pos:        position{line: 2774, col: 9, offset: 88172},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2773, col: 13, offset: 88144},
+																pos:        position{line: 2774, col: 13, offset: 88176},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -45908,10 +46076,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2864, col: 10, offset: 90683},
+										pos: position{line: 2865, col: 10, offset: 90715},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2864, col: 10, offset: 90683},
+											pos:        position{line: 2865, col: 10, offset: 90715},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -45919,31 +46087,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2395, col: 11, offset: 77575},
+										pos:  position{line: 2396, col: 11, offset: 77607},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2781, col: 5, offset: 88337},
+										pos: position{line: 2782, col: 5, offset: 88369},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2782, col: 9, offset: 88347},
+											pos: position{line: 2783, col: 9, offset: 88379},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2782, col: 10, offset: 88348},
+													pos:        position{line: 2783, col: 10, offset: 88380},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2784, col: 13, offset: 88445},
+													pos: position{line: 2785, col: 13, offset: 88477},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2784, col: 13, offset: 88445},
+															pos: position{line: 2785, col: 13, offset: 88477},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2787, col: 13, offset: 88545},
+															pos:        position{line: 2788, col: 13, offset: 88577},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -45951,20 +46119,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2787, col: 19, offset: 88551},
+													pos:        position{line: 2788, col: 19, offset: 88583},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2790, col: 13, offset: 88589},
+													pos: position{line: 2791, col: 13, offset: 88621},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2790, col: 13, offset: 88589},
+															pos: position{line: 2791, col: 13, offset: 88621},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2793, col: 14, offset: 88682},
+															pos:        position{line: 2794, col: 14, offset: 88714},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -45973,18 +46141,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2795, col: 12, offset: 88726},
+													pos: position{line: 2796, col: 12, offset: 88758},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2795, col: 12, offset: 88726},
+															pos:        position{line: 2796, col: 12, offset: 88758},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2795, col: 16, offset: 88730},
+															pos: position{line: 2796, col: 16, offset: 88762},
 															expr: &litMatcher{
-																pos:        position{line: 2795, col: 17, offset: 88731},
+																pos:        position{line: 2796, col: 17, offset: 88763},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -45996,31 +46164,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2397, col: 11, offset: 77648},
+										pos:  position{line: 2398, col: 11, offset: 77680},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2398, col: 11, offset: 77664},
+										pos:  position{line: 2399, col: 11, offset: 77696},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2461, col: 5, offset: 79172},
+										pos: position{line: 2462, col: 5, offset: 79204},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2461, col: 5, offset: 79172},
+											pos: position{line: 2462, col: 5, offset: 79204},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2461, col: 5, offset: 79172},
+													pos: position{line: 2462, col: 5, offset: 79204},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2464, col: 5, offset: 79248},
+													pos:   position{line: 2465, col: 5, offset: 79280},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2465, col: 9, offset: 79266},
+														pos: position{line: 2466, col: 9, offset: 79298},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2465, col: 10, offset: 79267},
+															pos:        position{line: 2466, col: 10, offset: 79299},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46071,25 +46239,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2873, col: 12, offset: 90854},
+										pos: position{line: 2874, col: 12, offset: 90886},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2873, col: 13, offset: 90855},
+											pos: position{line: 2874, col: 13, offset: 90887},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2873, col: 13, offset: 90855},
+													pos:        position{line: 2874, col: 13, offset: 90887},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2873, col: 20, offset: 90862},
+													pos:        position{line: 2874, col: 20, offset: 90894},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2873, col: 29, offset: 90871},
+													pos:        position{line: 2874, col: 29, offset: 90903},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46098,10 +46266,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2803, col: 12, offset: 88991},
+										pos: position{line: 2804, col: 12, offset: 89023},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2803, col: 12, offset: 88991},
+											pos:        position{line: 2804, col: 12, offset: 89023},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46117,49 +46285,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2409, col: 1, offset: 77934},
+			pos:  position{line: 2410, col: 1, offset: 77966},
 			expr: &actionExpr{
-				pos: position{line: 2411, col: 5, offset: 78016},
+				pos: position{line: 2412, col: 5, offset: 78048},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2411, col: 5, offset: 78016},
+					pos: position{line: 2412, col: 5, offset: 78048},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2411, col: 5, offset: 78016},
+							pos: position{line: 2412, col: 5, offset: 78048},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2414, col: 5, offset: 78081},
+							pos:   position{line: 2415, col: 5, offset: 78113},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2415, col: 9, offset: 78099},
+								pos: position{line: 2416, col: 9, offset: 78131},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2415, col: 9, offset: 78099},
+										pos:  position{line: 2416, col: 9, offset: 78131},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2416, col: 11, offset: 78120},
+										pos:  position{line: 2417, col: 11, offset: 78152},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2417, col: 11, offset: 78143},
+										pos:  position{line: 2418, col: 11, offset: 78175},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2418, col: 11, offset: 78159},
+										pos:  position{line: 2419, col: 11, offset: 78191},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2419, col: 11, offset: 78188},
+										pos:  position{line: 2420, col: 11, offset: 78220},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2420, col: 11, offset: 78214},
+										pos:  position{line: 2421, col: 11, offset: 78246},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2421, col: 11, offset: 78240},
+										pos:  position{line: 2422, col: 11, offset: 78272},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -46178,12 +46346,12 @@ var g = &grammar{
 													pos:   position{line: 1265, col: 14, offset: 39143},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2849, col: 7, offset: 90335},
+														pos: position{line: 2850, col: 7, offset: 90367},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2849, col: 7, offset: 90335},
+															pos: position{line: 2850, col: 7, offset: 90367},
 															expr: &charClassMatcher{
-																pos:        position{line: 2849, col: 7, offset: 90335},
+																pos:        position{line: 2850, col: 7, offset: 90367},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46217,12 +46385,12 @@ var g = &grammar{
 													pos:   position{line: 1270, col: 10, offset: 39275},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2849, col: 7, offset: 90335},
+														pos: position{line: 2850, col: 7, offset: 90367},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2849, col: 7, offset: 90335},
+															pos: position{line: 2850, col: 7, offset: 90367},
 															expr: &charClassMatcher{
-																pos:        position{line: 2849, col: 7, offset: 90335},
+																pos:        position{line: 2850, col: 7, offset: 90367},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46264,17 +46432,17 @@ var g = &grammar{
 																pos: position{line: 1316, col: 31, offset: 41097},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2754, col: 13, offset: 87778},
+																		pos:        position{line: 2755, col: 13, offset: 87810},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2864, col: 10, offset: 90683},
+																		pos: position{line: 2865, col: 10, offset: 90715},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90683},
+																			pos:        position{line: 2865, col: 10, offset: 90715},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46300,10 +46468,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1310, col: 12, offset: 40811},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90683},
+																			pos: position{line: 2865, col: 10, offset: 90715},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90683},
+																				pos:        position{line: 2865, col: 10, offset: 90715},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46320,10 +46488,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1310, col: 23, offset: 40822},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90683},
+																			pos: position{line: 2865, col: 10, offset: 90715},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90683},
+																				pos:        position{line: 2865, col: 10, offset: 90715},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46343,17 +46511,17 @@ var g = &grammar{
 																					pos: position{line: 1316, col: 31, offset: 41097},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2754, col: 13, offset: 87778},
+																							pos:        position{line: 2755, col: 13, offset: 87810},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90683},
+																							pos: position{line: 2865, col: 10, offset: 90715},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90683},
+																								pos:        position{line: 2865, col: 10, offset: 90715},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46384,10 +46552,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1311, col: 12, offset: 40903},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90683},
+																			pos: position{line: 2865, col: 10, offset: 90715},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90683},
+																				pos:        position{line: 2865, col: 10, offset: 90715},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46404,10 +46572,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1311, col: 23, offset: 40914},
 																		expr: &actionExpr{
-																			pos: position{line: 2864, col: 10, offset: 90683},
+																			pos: position{line: 2865, col: 10, offset: 90715},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2864, col: 10, offset: 90683},
+																				pos:        position{line: 2865, col: 10, offset: 90715},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46427,17 +46595,17 @@ var g = &grammar{
 																					pos: position{line: 1316, col: 31, offset: 41097},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2754, col: 13, offset: 87778},
+																							pos:        position{line: 2755, col: 13, offset: 87810},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2864, col: 10, offset: 90683},
+																							pos: position{line: 2865, col: 10, offset: 90715},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2864, col: 10, offset: 90683},
+																								pos:        position{line: 2865, col: 10, offset: 90715},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46464,15 +46632,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 11, offset: 78319},
+										pos:  position{line: 2425, col: 11, offset: 78351},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2425, col: 11, offset: 78339},
+										pos:  position{line: 2426, col: 11, offset: 78371},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2426, col: 11, offset: 78362},
+										pos:  position{line: 2427, col: 11, offset: 78394},
 										name: "InlineMenu",
 									},
 								},
@@ -46484,22 +46652,22 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2430, col: 1, offset: 78419},
+			pos:  position{line: 2431, col: 1, offset: 78451},
 			expr: &actionExpr{
-				pos: position{line: 2432, col: 5, offset: 78507},
+				pos: position{line: 2433, col: 5, offset: 78539},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2432, col: 5, offset: 78507},
+					pos: position{line: 2433, col: 5, offset: 78539},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2432, col: 5, offset: 78507},
+							pos: position{line: 2433, col: 5, offset: 78539},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2435, col: 5, offset: 78584},
+							pos:   position{line: 2436, col: 5, offset: 78616},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2436, col: 9, offset: 78602},
+								pos: position{line: 2437, col: 9, offset: 78634},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 1391, col: 26, offset: 44366},
@@ -46554,10 +46722,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1397, col: 12, offset: 44812},
 																				expr: &actionExpr{
-																					pos: position{line: 2864, col: 10, offset: 90683},
+																					pos: position{line: 2865, col: 10, offset: 90715},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2864, col: 10, offset: 90683},
+																						pos:        position{line: 2865, col: 10, offset: 90715},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46568,25 +46736,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1397, col: 19, offset: 44819},
 																				expr: &actionExpr{
-																					pos: position{line: 2873, col: 12, offset: 90854},
+																					pos: position{line: 2874, col: 12, offset: 90886},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2873, col: 13, offset: 90855},
+																						pos: position{line: 2874, col: 13, offset: 90887},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 13, offset: 90855},
+																								pos:        position{line: 2874, col: 13, offset: 90887},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 20, offset: 90862},
+																								pos:        position{line: 2874, col: 20, offset: 90894},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2873, col: 29, offset: 90871},
+																								pos:        position{line: 2874, col: 29, offset: 90903},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46623,7 +46791,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1391, col: 121, offset: 44461},
 													expr: &charClassMatcher{
-														pos:        position{line: 2754, col: 13, offset: 87778},
+														pos:        position{line: 2755, col: 13, offset: 87810},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46669,10 +46837,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1383, col: 64, offset: 43921},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90683},
+																				pos: position{line: 2865, col: 10, offset: 90715},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90683},
+																					pos:        position{line: 2865, col: 10, offset: 90715},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46683,25 +46851,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1383, col: 71, offset: 43928},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90854},
+																				pos: position{line: 2874, col: 12, offset: 90886},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90855},
+																					pos: position{line: 2874, col: 13, offset: 90887},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90855},
+																							pos:        position{line: 2874, col: 13, offset: 90887},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90862},
+																							pos:        position{line: 2874, col: 20, offset: 90894},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90871},
+																							pos:        position{line: 2874, col: 29, offset: 90903},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46724,12 +46892,12 @@ var g = &grammar{
 																							pos: position{line: 1383, col: 86, offset: 43943},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2868, col: 11, offset: 90744},
+																									pos: position{line: 2869, col: 11, offset: 90776},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2868, col: 11, offset: 90744},
+																										pos: position{line: 2869, col: 11, offset: 90776},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2868, col: 11, offset: 90744},
+																											pos:        position{line: 2869, col: 11, offset: 90776},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46758,25 +46926,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1383, col: 151, offset: 44008},
 																						expr: &actionExpr{
-																							pos: position{line: 2873, col: 12, offset: 90854},
+																							pos: position{line: 2874, col: 12, offset: 90886},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2873, col: 13, offset: 90855},
+																								pos: position{line: 2874, col: 13, offset: 90887},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 13, offset: 90855},
+																										pos:        position{line: 2874, col: 13, offset: 90887},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 20, offset: 90862},
+																										pos:        position{line: 2874, col: 20, offset: 90894},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2873, col: 29, offset: 90871},
+																										pos:        position{line: 2874, col: 29, offset: 90903},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46803,10 +46971,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1385, col: 12, offset: 44168},
 																			expr: &actionExpr{
-																				pos: position{line: 2864, col: 10, offset: 90683},
+																				pos: position{line: 2865, col: 10, offset: 90715},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90683},
+																					pos:        position{line: 2865, col: 10, offset: 90715},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46817,25 +46985,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1385, col: 19, offset: 44175},
 																			expr: &actionExpr{
-																				pos: position{line: 2873, col: 12, offset: 90854},
+																				pos: position{line: 2874, col: 12, offset: 90886},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2873, col: 13, offset: 90855},
+																					pos: position{line: 2874, col: 13, offset: 90887},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 13, offset: 90855},
+																							pos:        position{line: 2874, col: 13, offset: 90887},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 20, offset: 90862},
+																							pos:        position{line: 2874, col: 20, offset: 90894},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2873, col: 29, offset: 90871},
+																							pos:        position{line: 2874, col: 29, offset: 90903},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46871,7 +47039,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1379, col: 121, offset: 43744},
 													expr: &charClassMatcher{
-														pos:        position{line: 2754, col: 13, offset: 87778},
+														pos:        position{line: 2755, col: 13, offset: 87810},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46882,7 +47050,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2436, col: 57, offset: 78650},
+										pos:  position{line: 2437, col: 57, offset: 78682},
 										name: "PassthroughMacro",
 									},
 								},
@@ -46894,16 +47062,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2441, col: 1, offset: 78710},
+			pos:  position{line: 2442, col: 1, offset: 78742},
 			expr: &seqExpr{
-				pos: position{line: 2443, col: 5, offset: 78786},
+				pos: position{line: 2444, col: 5, offset: 78818},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2443, col: 5, offset: 78786},
+						pos: position{line: 2444, col: 5, offset: 78818},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2446, col: 5, offset: 78851},
+						pos:  position{line: 2447, col: 5, offset: 78883},
 						name: "QuotedText",
 					},
 				},
@@ -46911,22 +47079,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2448, col: 1, offset: 78864},
+			pos:  position{line: 2449, col: 1, offset: 78896},
 			expr: &actionExpr{
-				pos: position{line: 2450, col: 5, offset: 78946},
+				pos: position{line: 2451, col: 5, offset: 78978},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2450, col: 5, offset: 78946},
+					pos: position{line: 2451, col: 5, offset: 78978},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2450, col: 5, offset: 78946},
+							pos: position{line: 2451, col: 5, offset: 78978},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2453, col: 5, offset: 79017},
+							pos:   position{line: 2454, col: 5, offset: 79049},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2454, col: 9, offset: 79035},
+								pos:  position{line: 2455, col: 9, offset: 79067},
 								name: "Symbol",
 							},
 						},
@@ -46936,103 +47104,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2509, col: 1, offset: 80794},
+			pos:  position{line: 2510, col: 1, offset: 80826},
 			expr: &choiceExpr{
-				pos: position{line: 2511, col: 5, offset: 80824},
+				pos: position{line: 2512, col: 5, offset: 80856},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2511, col: 5, offset: 80824},
+						pos: position{line: 2512, col: 5, offset: 80856},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2511, col: 5, offset: 80824},
+							pos: position{line: 2512, col: 5, offset: 80856},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2511, col: 5, offset: 80824},
+									pos:        position{line: 2512, col: 5, offset: 80856},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2511, col: 10, offset: 80829},
+									pos: position{line: 2512, col: 10, offset: 80861},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2511, col: 10, offset: 80829},
+											pos:  position{line: 2512, col: 10, offset: 80861},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2540, col: 14, offset: 81933},
+											pos: position{line: 2541, col: 14, offset: 81965},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2540, col: 14, offset: 81933},
+												pos:        position{line: 2541, col: 14, offset: 81965},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2544, col: 14, offset: 81999},
+											pos: position{line: 2545, col: 14, offset: 82031},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2544, col: 14, offset: 81999},
+												pos:        position{line: 2545, col: 14, offset: 82031},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2548, col: 15, offset: 82068},
+											pos: position{line: 2549, col: 15, offset: 82100},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2548, col: 15, offset: 82068},
+												pos:        position{line: 2549, col: 15, offset: 82100},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2552, col: 13, offset: 82133},
+											pos: position{line: 2553, col: 13, offset: 82165},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2552, col: 13, offset: 82133},
+												pos:        position{line: 2553, col: 13, offset: 82165},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2580, col: 21, offset: 82703},
+											pos: position{line: 2581, col: 21, offset: 82735},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2580, col: 21, offset: 82703},
+												pos:        position{line: 2581, col: 21, offset: 82735},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2559, col: 5, offset: 82289},
+											pos: position{line: 2560, col: 5, offset: 82321},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2559, col: 5, offset: 82289},
+												pos: position{line: 2560, col: 5, offset: 82321},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2559, col: 5, offset: 82289},
+														pos:        position{line: 2560, col: 5, offset: 82321},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2560, col: 5, offset: 82299},
+														pos: position{line: 2561, col: 5, offset: 82331},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2564, col: 6, offset: 82386},
+														pos: position{line: 2565, col: 6, offset: 82418},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2864, col: 10, offset: 90683},
+																pos: position{line: 2865, col: 10, offset: 90715},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2864, col: 10, offset: 90683},
+																	pos:        position{line: 2865, col: 10, offset: 90715},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47040,30 +47208,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2564, col: 14, offset: 82394},
+																pos: position{line: 2565, col: 14, offset: 82426},
 																expr: &choiceExpr{
-																	pos: position{line: 2886, col: 8, offset: 91081},
+																	pos: position{line: 2887, col: 8, offset: 91113},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2873, col: 12, offset: 90854},
+																			pos: position{line: 2874, col: 12, offset: 90886},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2873, col: 13, offset: 90855},
+																				pos: position{line: 2874, col: 13, offset: 90887},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 13, offset: 90855},
+																						pos:        position{line: 2874, col: 13, offset: 90887},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 20, offset: 90862},
+																						pos:        position{line: 2874, col: 20, offset: 90894},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2873, col: 29, offset: 90871},
+																						pos:        position{line: 2874, col: 29, offset: 90903},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47072,9 +47240,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2883, col: 8, offset: 91031},
+																			pos: position{line: 2884, col: 8, offset: 91063},
 																			expr: &anyMatcher{
-																				line: 2883, col: 9, offset: 91032,
+																				line: 2884, col: 9, offset: 91064,
 																			},
 																		},
 																	},
@@ -47086,53 +47254,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2569, col: 5, offset: 82514},
+											pos: position{line: 2570, col: 5, offset: 82546},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2569, col: 5, offset: 82514},
+												pos: position{line: 2570, col: 5, offset: 82546},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2569, col: 5, offset: 82514},
+														pos:        position{line: 2570, col: 5, offset: 82546},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2570, col: 5, offset: 82524},
+														pos: position{line: 2571, col: 5, offset: 82556},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2574, col: 5, offset: 82613},
+														pos: position{line: 2575, col: 5, offset: 82645},
 														expr: &choiceExpr{
-															pos: position{line: 2574, col: 7, offset: 82615},
+															pos: position{line: 2575, col: 7, offset: 82647},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2754, col: 13, offset: 87778},
+																	pos:        position{line: 2755, col: 13, offset: 87810},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2873, col: 12, offset: 90854},
+																	pos: position{line: 2874, col: 12, offset: 90886},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2873, col: 13, offset: 90855},
+																		pos: position{line: 2874, col: 13, offset: 90887},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2873, col: 13, offset: 90855},
+																				pos:        position{line: 2874, col: 13, offset: 90887},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2873, col: 20, offset: 90862},
+																				pos:        position{line: 2874, col: 20, offset: 90894},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2873, col: 29, offset: 90871},
+																				pos:        position{line: 2874, col: 29, offset: 90903},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47141,9 +47309,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2883, col: 8, offset: 91031},
+																	pos: position{line: 2884, col: 8, offset: 91063},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 91032,
+																		line: 2884, col: 9, offset: 91064,
 																	},
 																},
 															},
@@ -47153,30 +47321,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2584, col: 20, offset: 82773},
+											pos: position{line: 2585, col: 20, offset: 82805},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2584, col: 20, offset: 82773},
+												pos:        position{line: 2585, col: 20, offset: 82805},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2588, col: 21, offset: 82844},
+											pos: position{line: 2589, col: 21, offset: 82876},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2588, col: 21, offset: 82844},
+												pos:        position{line: 2589, col: 21, offset: 82876},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2592, col: 20, offset: 82914},
+											pos: position{line: 2593, col: 20, offset: 82946},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2592, col: 20, offset: 82914},
+												pos:        position{line: 2593, col: 20, offset: 82946},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -47188,73 +47356,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2515, col: 7, offset: 81084},
+						pos:  position{line: 2516, col: 7, offset: 81116},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2540, col: 14, offset: 81933},
+						pos: position{line: 2541, col: 14, offset: 81965},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2540, col: 14, offset: 81933},
+							pos:        position{line: 2541, col: 14, offset: 81965},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2544, col: 14, offset: 81999},
+						pos: position{line: 2545, col: 14, offset: 82031},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2544, col: 14, offset: 81999},
+							pos:        position{line: 2545, col: 14, offset: 82031},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2548, col: 15, offset: 82068},
+						pos: position{line: 2549, col: 15, offset: 82100},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2548, col: 15, offset: 82068},
+							pos:        position{line: 2549, col: 15, offset: 82100},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2552, col: 13, offset: 82133},
+						pos: position{line: 2553, col: 13, offset: 82165},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2552, col: 13, offset: 82133},
+							pos:        position{line: 2553, col: 13, offset: 82165},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2559, col: 5, offset: 82289},
+						pos: position{line: 2560, col: 5, offset: 82321},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2559, col: 5, offset: 82289},
+							pos: position{line: 2560, col: 5, offset: 82321},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2559, col: 5, offset: 82289},
+									pos:        position{line: 2560, col: 5, offset: 82321},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2560, col: 5, offset: 82299},
+									pos: position{line: 2561, col: 5, offset: 82331},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2564, col: 6, offset: 82386},
+									pos: position{line: 2565, col: 6, offset: 82418},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2864, col: 10, offset: 90683},
+											pos: position{line: 2865, col: 10, offset: 90715},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2864, col: 10, offset: 90683},
+												pos:        position{line: 2865, col: 10, offset: 90715},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47262,30 +47430,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2564, col: 14, offset: 82394},
+											pos: position{line: 2565, col: 14, offset: 82426},
 											expr: &choiceExpr{
-												pos: position{line: 2886, col: 8, offset: 91081},
+												pos: position{line: 2887, col: 8, offset: 91113},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2873, col: 12, offset: 90854},
+														pos: position{line: 2874, col: 12, offset: 90886},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2873, col: 13, offset: 90855},
+															pos: position{line: 2874, col: 13, offset: 90887},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2873, col: 13, offset: 90855},
+																	pos:        position{line: 2874, col: 13, offset: 90887},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2873, col: 20, offset: 90862},
+																	pos:        position{line: 2874, col: 20, offset: 90894},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2873, col: 29, offset: 90871},
+																	pos:        position{line: 2874, col: 29, offset: 90903},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47294,9 +47462,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2883, col: 8, offset: 91031},
+														pos: position{line: 2884, col: 8, offset: 91063},
 														expr: &anyMatcher{
-															line: 2883, col: 9, offset: 91032,
+															line: 2884, col: 9, offset: 91064,
 														},
 													},
 												},
@@ -47308,53 +47476,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2569, col: 5, offset: 82514},
+						pos: position{line: 2570, col: 5, offset: 82546},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2569, col: 5, offset: 82514},
+							pos: position{line: 2570, col: 5, offset: 82546},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2569, col: 5, offset: 82514},
+									pos:        position{line: 2570, col: 5, offset: 82546},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2570, col: 5, offset: 82524},
+									pos: position{line: 2571, col: 5, offset: 82556},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2574, col: 5, offset: 82613},
+									pos: position{line: 2575, col: 5, offset: 82645},
 									expr: &choiceExpr{
-										pos: position{line: 2574, col: 7, offset: 82615},
+										pos: position{line: 2575, col: 7, offset: 82647},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2754, col: 13, offset: 87778},
+												pos:        position{line: 2755, col: 13, offset: 87810},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2873, col: 12, offset: 90854},
+												pos: position{line: 2874, col: 12, offset: 90886},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2873, col: 13, offset: 90855},
+													pos: position{line: 2874, col: 13, offset: 90887},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2873, col: 13, offset: 90855},
+															pos:        position{line: 2874, col: 13, offset: 90887},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2873, col: 20, offset: 90862},
+															pos:        position{line: 2874, col: 20, offset: 90894},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2873, col: 29, offset: 90871},
+															pos:        position{line: 2874, col: 29, offset: 90903},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47363,9 +47531,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2883, col: 8, offset: 91031},
+												pos: position{line: 2884, col: 8, offset: 91063},
 												expr: &anyMatcher{
-													line: 2883, col: 9, offset: 91032,
+													line: 2884, col: 9, offset: 91064,
 												},
 											},
 										},
@@ -47375,40 +47543,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2580, col: 21, offset: 82703},
+						pos: position{line: 2581, col: 21, offset: 82735},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2580, col: 21, offset: 82703},
+							pos:        position{line: 2581, col: 21, offset: 82735},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2584, col: 20, offset: 82773},
+						pos: position{line: 2585, col: 20, offset: 82805},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2584, col: 20, offset: 82773},
+							pos:        position{line: 2585, col: 20, offset: 82805},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2588, col: 21, offset: 82844},
+						pos: position{line: 2589, col: 21, offset: 82876},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2588, col: 21, offset: 82844},
+							pos:        position{line: 2589, col: 21, offset: 82876},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2592, col: 20, offset: 82914},
+						pos: position{line: 2593, col: 20, offset: 82946},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2592, col: 20, offset: 82914},
+							pos:        position{line: 2593, col: 20, offset: 82946},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47419,43 +47587,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2526, col: 1, offset: 81274},
+			pos:  position{line: 2527, col: 1, offset: 81306},
 			expr: &choiceExpr{
-				pos: position{line: 2527, col: 5, offset: 81296},
+				pos: position{line: 2528, col: 5, offset: 81328},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2527, col: 5, offset: 81296},
+						pos: position{line: 2528, col: 5, offset: 81328},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2527, col: 5, offset: 81296},
+							pos: position{line: 2528, col: 5, offset: 81328},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2527, col: 5, offset: 81296},
+									pos:        position{line: 2528, col: 5, offset: 81328},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2527, col: 11, offset: 81302},
+									pos: position{line: 2528, col: 11, offset: 81334},
 									expr: &seqExpr{
-										pos: position{line: 2090, col: 5, offset: 67506},
+										pos: position{line: 2091, col: 5, offset: 67538},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2090, col: 5, offset: 67506},
+												pos:        position{line: 2091, col: 5, offset: 67538},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2091, col: 5, offset: 67515},
+												pos: position{line: 2092, col: 5, offset: 67547},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2095, col: 5, offset: 67638},
+												pos: position{line: 2096, col: 5, offset: 67670},
 												expr: &notExpr{
-													pos: position{line: 2095, col: 7, offset: 67640},
+													pos: position{line: 2096, col: 7, offset: 67672},
 													expr: &litMatcher{
-														pos:        position{line: 2095, col: 8, offset: 67641},
+														pos:        position{line: 2096, col: 8, offset: 67673},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47469,21 +47637,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2530, col: 7, offset: 81455},
+						pos: position{line: 2531, col: 7, offset: 81487},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2530, col: 7, offset: 81455},
+							pos: position{line: 2531, col: 7, offset: 81487},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2530, col: 7, offset: 81455},
+									pos:        position{line: 2531, col: 7, offset: 81487},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2530, col: 13, offset: 81461},
+									pos: position{line: 2531, col: 13, offset: 81493},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2530, col: 14, offset: 81462},
+										pos:  position{line: 2531, col: 14, offset: 81494},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47491,38 +47659,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2533, col: 7, offset: 81612},
+						pos: position{line: 2534, col: 7, offset: 81644},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2533, col: 7, offset: 81612},
+							pos: position{line: 2534, col: 7, offset: 81644},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2533, col: 7, offset: 81612},
+									pos:        position{line: 2534, col: 7, offset: 81644},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2533, col: 12, offset: 81617},
+									pos: position{line: 2534, col: 12, offset: 81649},
 									expr: &seqExpr{
-										pos: position{line: 2090, col: 5, offset: 67506},
+										pos: position{line: 2091, col: 5, offset: 67538},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2090, col: 5, offset: 67506},
+												pos:        position{line: 2091, col: 5, offset: 67538},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2091, col: 5, offset: 67515},
+												pos: position{line: 2092, col: 5, offset: 67547},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2095, col: 5, offset: 67638},
+												pos: position{line: 2096, col: 5, offset: 67670},
 												expr: &notExpr{
-													pos: position{line: 2095, col: 7, offset: 67640},
+													pos: position{line: 2096, col: 7, offset: 67672},
 													expr: &litMatcher{
-														pos:        position{line: 2095, col: 8, offset: 67641},
+														pos:        position{line: 2096, col: 8, offset: 67673},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47536,21 +47704,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2536, col: 7, offset: 81770},
+						pos: position{line: 2537, col: 7, offset: 81802},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2536, col: 7, offset: 81770},
+							pos: position{line: 2537, col: 7, offset: 81802},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2536, col: 7, offset: 81770},
+									pos:        position{line: 2537, col: 7, offset: 81802},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2536, col: 12, offset: 81775},
+									pos: position{line: 2537, col: 12, offset: 81807},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2536, col: 13, offset: 81776},
+										pos:  position{line: 2537, col: 13, offset: 81808},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47562,63 +47730,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2669, col: 1, offset: 84858},
+			pos:  position{line: 2670, col: 1, offset: 84890},
 			expr: &actionExpr{
-				pos: position{line: 2669, col: 26, offset: 84883},
+				pos: position{line: 2670, col: 26, offset: 84915},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2669, col: 26, offset: 84883},
+					pos: position{line: 2670, col: 26, offset: 84915},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2669, col: 26, offset: 84883},
+							pos:   position{line: 2670, col: 26, offset: 84915},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2669, col: 31, offset: 84888},
+								pos: position{line: 2670, col: 31, offset: 84920},
 								expr: &actionExpr{
-									pos: position{line: 2674, col: 5, offset: 84951},
+									pos: position{line: 2675, col: 5, offset: 84983},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2674, col: 5, offset: 84951},
+										pos: position{line: 2675, col: 5, offset: 84983},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2881, col: 11, offset: 91017},
+												pos: position{line: 2882, col: 11, offset: 91049},
 												expr: &anyMatcher{
-													line: 2881, col: 13, offset: 91019,
+													line: 2882, col: 13, offset: 91051,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2677, col: 5, offset: 85077},
+												pos:   position{line: 2678, col: 5, offset: 85109},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2677, col: 16, offset: 85088},
+													pos: position{line: 2678, col: 16, offset: 85120},
 													expr: &actionExpr{
-														pos: position{line: 2677, col: 17, offset: 85089},
+														pos: position{line: 2678, col: 17, offset: 85121},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2677, col: 17, offset: 85089},
+															pos: position{line: 2678, col: 17, offset: 85121},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2677, col: 17, offset: 85089},
+																	pos:   position{line: 2678, col: 17, offset: 85121},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2856, col: 12, offset: 90510},
+																		pos: position{line: 2857, col: 12, offset: 90542},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2856, col: 13, offset: 90511},
+																			pos: position{line: 2857, col: 13, offset: 90543},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2856, col: 13, offset: 90511},
+																					pos: position{line: 2857, col: 13, offset: 90543},
 																					expr: &litMatcher{
-																						pos:        position{line: 2856, col: 13, offset: 90511},
+																						pos:        position{line: 2857, col: 13, offset: 90543},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2856, col: 18, offset: 90516},
+																					pos: position{line: 2857, col: 18, offset: 90548},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2856, col: 18, offset: 90516},
+																						pos:        position{line: 2857, col: 18, offset: 90548},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47630,7 +47798,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2677, col: 27, offset: 85099},
+																	pos:        position{line: 2678, col: 27, offset: 85131},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47641,38 +47809,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2678, col: 5, offset: 85127},
+												pos:   position{line: 2679, col: 5, offset: 85159},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2678, col: 12, offset: 85134},
+													pos: position{line: 2679, col: 12, offset: 85166},
 													expr: &choiceExpr{
-														pos: position{line: 2679, col: 9, offset: 85144},
+														pos: position{line: 2680, col: 9, offset: 85176},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2679, col: 9, offset: 85144},
+																pos: position{line: 2680, col: 9, offset: 85176},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2679, col: 9, offset: 85144},
+																	pos:        position{line: 2680, col: 9, offset: 85176},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2680, col: 11, offset: 85191},
+																pos: position{line: 2681, col: 11, offset: 85223},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2680, col: 11, offset: 85191},
+																	pos:        position{line: 2681, col: 11, offset: 85223},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2681, col: 11, offset: 85239},
+																pos: position{line: 2682, col: 11, offset: 85271},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2681, col: 11, offset: 85239},
+																	pos:        position{line: 2682, col: 11, offset: 85271},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47683,38 +47851,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2683, col: 5, offset: 85289},
+												pos:   position{line: 2684, col: 5, offset: 85321},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2683, col: 12, offset: 85296},
+													pos: position{line: 2684, col: 12, offset: 85328},
 													expr: &choiceExpr{
-														pos: position{line: 2684, col: 9, offset: 85306},
+														pos: position{line: 2685, col: 9, offset: 85338},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2684, col: 9, offset: 85306},
+																pos: position{line: 2685, col: 9, offset: 85338},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2684, col: 9, offset: 85306},
+																	pos:        position{line: 2685, col: 9, offset: 85338},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2685, col: 11, offset: 85353},
+																pos: position{line: 2686, col: 11, offset: 85385},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2685, col: 11, offset: 85353},
+																	pos:        position{line: 2686, col: 11, offset: 85385},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2686, col: 11, offset: 85403},
+																pos: position{line: 2687, col: 11, offset: 85435},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2686, col: 11, offset: 85403},
+																	pos:        position{line: 2687, col: 11, offset: 85435},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47725,32 +47893,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2688, col: 5, offset: 85454},
+												pos:   position{line: 2689, col: 5, offset: 85486},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2688, col: 12, offset: 85461},
+													pos: position{line: 2689, col: 12, offset: 85493},
 													expr: &choiceExpr{
-														pos: position{line: 2688, col: 13, offset: 85462},
+														pos: position{line: 2689, col: 13, offset: 85494},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2856, col: 12, offset: 90510},
+																pos: position{line: 2857, col: 12, offset: 90542},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2856, col: 13, offset: 90511},
+																	pos: position{line: 2857, col: 13, offset: 90543},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2856, col: 13, offset: 90511},
+																			pos: position{line: 2857, col: 13, offset: 90543},
 																			expr: &litMatcher{
-																				pos:        position{line: 2856, col: 13, offset: 90511},
+																				pos:        position{line: 2857, col: 13, offset: 90543},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2856, col: 18, offset: 90516},
+																			pos: position{line: 2857, col: 18, offset: 90548},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2856, col: 18, offset: 90516},
+																				pos:        position{line: 2857, col: 18, offset: 90548},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47761,10 +47929,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2688, col: 24, offset: 85473},
+																pos: position{line: 2689, col: 24, offset: 85505},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2688, col: 24, offset: 85473},
+																	pos:        position{line: 2689, col: 24, offset: 85505},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47775,15 +47943,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2689, col: 5, offset: 85515},
+												pos:   position{line: 2690, col: 5, offset: 85547},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2689, col: 11, offset: 85521},
+													pos: position{line: 2690, col: 11, offset: 85553},
 													expr: &actionExpr{
-														pos: position{line: 2689, col: 12, offset: 85522},
+														pos: position{line: 2690, col: 12, offset: 85554},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2689, col: 12, offset: 85522},
+															pos:        position{line: 2690, col: 12, offset: 85554},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47793,12 +47961,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2691, col: 5, offset: 85652},
+												pos:   position{line: 2692, col: 5, offset: 85684},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2691, col: 11, offset: 85658},
+													pos: position{line: 2692, col: 11, offset: 85690},
 													expr: &litMatcher{
-														pos:        position{line: 2691, col: 12, offset: 85659},
+														pos:        position{line: 2692, col: 12, offset: 85691},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47806,7 +47974,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2692, col: 5, offset: 85669},
+												pos: position{line: 2693, col: 5, offset: 85701},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47815,9 +47983,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2883, col: 8, offset: 91031},
+							pos: position{line: 2884, col: 8, offset: 91063},
 							expr: &anyMatcher{
-								line: 2883, col: 9, offset: 91032,
+								line: 2884, col: 9, offset: 91064,
 							},
 						},
 					},
@@ -47826,23 +47994,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2719, col: 1, offset: 86678},
+			pos:  position{line: 2720, col: 1, offset: 86710},
 			expr: &actionExpr{
-				pos: position{line: 2720, col: 5, offset: 86701},
+				pos: position{line: 2721, col: 5, offset: 86733},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2720, col: 5, offset: 86701},
+					pos: position{line: 2721, col: 5, offset: 86733},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2720, col: 5, offset: 86701},
+							pos:   position{line: 2721, col: 5, offset: 86733},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2743, col: 18, offset: 87442},
+								pos: position{line: 2744, col: 18, offset: 87474},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2743, col: 19, offset: 87443},
+									pos: position{line: 2744, col: 19, offset: 87475},
 									expr: &charClassMatcher{
-										pos:        position{line: 2743, col: 19, offset: 87443},
+										pos:        position{line: 2744, col: 19, offset: 87475},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47853,25 +48021,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2721, col: 5, offset: 86727},
+							pos: position{line: 2722, col: 5, offset: 86759},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2725, col: 5, offset: 86855},
+							pos:        position{line: 2726, col: 5, offset: 86887},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2726, col: 5, offset: 86865},
+							pos:   position{line: 2727, col: 5, offset: 86897},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2747, col: 19, offset: 87518},
+								pos: position{line: 2748, col: 19, offset: 87550},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2747, col: 19, offset: 87518},
+									pos: position{line: 2748, col: 19, offset: 87550},
 									expr: &charClassMatcher{
-										pos:        position{line: 2747, col: 19, offset: 87518},
+										pos:        position{line: 2748, col: 19, offset: 87550},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47881,36 +48049,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2727, col: 5, offset: 86893},
+							pos:   position{line: 2728, col: 5, offset: 86925},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2727, col: 17, offset: 86905},
+								pos:  position{line: 2728, col: 17, offset: 86937},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2886, col: 8, offset: 91081},
+							pos: position{line: 2887, col: 8, offset: 91113},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2873, col: 12, offset: 90854},
+									pos: position{line: 2874, col: 12, offset: 90886},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2873, col: 13, offset: 90855},
+										pos: position{line: 2874, col: 13, offset: 90887},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2873, col: 13, offset: 90855},
+												pos:        position{line: 2874, col: 13, offset: 90887},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 20, offset: 90862},
+												pos:        position{line: 2874, col: 20, offset: 90894},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2873, col: 29, offset: 90871},
+												pos:        position{line: 2874, col: 29, offset: 90903},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -47919,9 +48087,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2883, col: 8, offset: 91031},
+									pos: position{line: 2884, col: 8, offset: 91063},
 									expr: &anyMatcher{
-										line: 2883, col: 9, offset: 91032,
+										line: 2884, col: 9, offset: 91064,
 									},
 								},
 							},
@@ -47932,23 +48100,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2731, col: 1, offset: 87053},
+			pos:  position{line: 2732, col: 1, offset: 87085},
 			expr: &actionExpr{
-				pos: position{line: 2732, col: 5, offset: 87077},
+				pos: position{line: 2733, col: 5, offset: 87109},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2732, col: 5, offset: 87077},
+					pos: position{line: 2733, col: 5, offset: 87109},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2732, col: 5, offset: 87077},
+							pos:   position{line: 2733, col: 5, offset: 87109},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2743, col: 18, offset: 87442},
+								pos: position{line: 2744, col: 18, offset: 87474},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2743, col: 19, offset: 87443},
+									pos: position{line: 2744, col: 19, offset: 87475},
 									expr: &charClassMatcher{
-										pos:        position{line: 2743, col: 19, offset: 87443},
+										pos:        position{line: 2744, col: 19, offset: 87475},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -47959,25 +48127,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2733, col: 5, offset: 87103},
+							pos: position{line: 2734, col: 5, offset: 87135},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2737, col: 5, offset: 87231},
+							pos:        position{line: 2738, col: 5, offset: 87263},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2738, col: 5, offset: 87240},
+							pos:   position{line: 2739, col: 5, offset: 87272},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2747, col: 19, offset: 87518},
+								pos: position{line: 2748, col: 19, offset: 87550},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2747, col: 19, offset: 87518},
+									pos: position{line: 2748, col: 19, offset: 87550},
 									expr: &charClassMatcher{
-										pos:        position{line: 2747, col: 19, offset: 87518},
+										pos:        position{line: 2748, col: 19, offset: 87550},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -47987,10 +48155,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2739, col: 5, offset: 87268},
+							pos:   position{line: 2740, col: 5, offset: 87300},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2739, col: 17, offset: 87280},
+								pos:  position{line: 2740, col: 17, offset: 87312},
 								name: "InlineAttributes",
 							},
 						},
@@ -48000,43 +48168,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2818, col: 1, offset: 89330},
+			pos:  position{line: 2819, col: 1, offset: 89362},
 			expr: &actionExpr{
-				pos: position{line: 2818, col: 17, offset: 89346},
+				pos: position{line: 2819, col: 17, offset: 89378},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2818, col: 17, offset: 89346},
+					pos:   position{line: 2819, col: 17, offset: 89378},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2835, col: 5, offset: 89800},
+						pos: position{line: 2836, col: 5, offset: 89832},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2835, col: 5, offset: 89800},
+							pos:   position{line: 2836, col: 5, offset: 89832},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2835, col: 14, offset: 89809},
+								pos: position{line: 2836, col: 14, offset: 89841},
 								expr: &choiceExpr{
-									pos: position{line: 2836, col: 9, offset: 89819},
+									pos: position{line: 2837, col: 9, offset: 89851},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2836, col: 9, offset: 89819},
+											pos: position{line: 2837, col: 9, offset: 89851},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2836, col: 9, offset: 89819},
+												pos: position{line: 2837, col: 9, offset: 89851},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2836, col: 9, offset: 89819},
+														pos: position{line: 2837, col: 9, offset: 89851},
 														expr: &litMatcher{
-															pos:        position{line: 2836, col: 10, offset: 89820},
+															pos:        position{line: 2837, col: 10, offset: 89852},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2837, col: 9, offset: 89848},
+														pos: position{line: 2838, col: 9, offset: 89880},
 														expr: &charClassMatcher{
-															pos:        position{line: 2837, col: 10, offset: 89849},
+															pos:        position{line: 2838, col: 10, offset: 89881},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48047,27 +48215,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2840, col: 11, offset: 90061},
+											pos: position{line: 2841, col: 11, offset: 90093},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2840, col: 11, offset: 90061},
+													pos:        position{line: 2841, col: 11, offset: 90093},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2840, col: 19, offset: 90069},
+													pos: position{line: 2841, col: 19, offset: 90101},
 													expr: &seqExpr{
-														pos: position{line: 2840, col: 21, offset: 90071},
+														pos: position{line: 2841, col: 21, offset: 90103},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2840, col: 21, offset: 90071},
+																pos: position{line: 2841, col: 21, offset: 90103},
 																expr: &actionExpr{
-																	pos: position{line: 2864, col: 10, offset: 90683},
+																	pos: position{line: 2865, col: 10, offset: 90715},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2864, col: 10, offset: 90683},
+																		pos:        position{line: 2865, col: 10, offset: 90715},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48076,11 +48244,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2840, col: 28, offset: 90078},
+																pos: position{line: 2841, col: 28, offset: 90110},
 																expr: &notExpr{
-																	pos: position{line: 2883, col: 8, offset: 91031},
+																	pos: position{line: 2884, col: 8, offset: 91063},
 																	expr: &anyMatcher{
-																		line: 2883, col: 9, offset: 91032,
+																		line: 2884, col: 9, offset: 91064,
 																	},
 																},
 															},
@@ -48475,10 +48643,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2843, col: 11, offset: 90198},
+											pos: position{line: 2844, col: 11, offset: 90230},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2843, col: 11, offset: 90198},
+												pos:        position{line: 2844, col: 11, offset: 90230},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -61590,51 +61758,51 @@ func (p *parser) callonListElements115() (interface{}, error) {
 	return p.cur.onListElements115(stack["ref"], stack["description"])
 }
 
-func (c *current) onListElements155() (interface{}, error) {
+func (c *current) onListElements161() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListElements155() (interface{}, error) {
+func (p *parser) callonListElements161() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements155()
+	return p.cur.onListElements161()
 }
 
-func (c *current) onListElements158(separator interface{}) (bool, error) {
+func (c *current) onListElements164(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListElements158() (bool, error) {
+func (p *parser) callonListElements164() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements158(stack["separator"])
+	return p.cur.onListElements164(stack["separator"])
 }
 
-func (c *current) onListElements152(separator interface{}) (interface{}, error) {
+func (c *current) onListElements158(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListElements152() (interface{}, error) {
+func (p *parser) callonListElements158() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements152(stack["separator"])
+	return p.cur.onListElements158(stack["separator"])
 }
 
-func (c *current) onListElements161() (interface{}, error) {
+func (c *current) onListElements167() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListElements161() (interface{}, error) {
+func (p *parser) callonListElements167() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements161()
+	return p.cur.onListElements167()
 }
 
 func (c *current) onListElements148() (interface{}, error) {
@@ -61648,153 +61816,153 @@ func (p *parser) callonListElements148() (interface{}, error) {
 	return p.cur.onListElements148()
 }
 
-func (c *current) onListElements173() (interface{}, error) {
+func (c *current) onListElements179() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListElements173() (interface{}, error) {
+func (p *parser) callonListElements179() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements173()
+	return p.cur.onListElements179()
 }
 
-func (c *current) onListElements176(separator interface{}) (bool, error) {
+func (c *current) onListElements182(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListElements176() (bool, error) {
+func (p *parser) callonListElements182() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements176(stack["separator"])
+	return p.cur.onListElements182(stack["separator"])
 }
 
-func (c *current) onListElements170(separator interface{}) (interface{}, error) {
+func (c *current) onListElements176(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListElements170() (interface{}, error) {
+func (p *parser) callonListElements176() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements170(stack["separator"])
+	return p.cur.onListElements176(stack["separator"])
 }
 
-func (c *current) onListElements182() (interface{}, error) {
+func (c *current) onListElements188() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListElements182() (interface{}, error) {
+func (p *parser) callonListElements188() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements182()
+	return p.cur.onListElements188()
 }
 
-func (c *current) onListElements185() (interface{}, error) {
+func (c *current) onListElements191() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListElements185() (interface{}, error) {
+func (p *parser) callonListElements191() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements185()
+	return p.cur.onListElements191()
 }
 
-func (c *current) onListElements198() (interface{}, error) {
+func (c *current) onListElements204() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListElements198() (interface{}, error) {
+func (p *parser) callonListElements204() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements198()
+	return p.cur.onListElements204()
 }
 
-func (c *current) onListElements201() (interface{}, error) {
+func (c *current) onListElements207() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListElements201() (interface{}, error) {
+func (p *parser) callonListElements207() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements201()
+	return p.cur.onListElements207()
 }
 
-func (c *current) onListElements193() (interface{}, error) {
+func (c *current) onListElements199() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListElements193() (interface{}, error) {
+func (p *parser) callonListElements199() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements193()
+	return p.cur.onListElements199()
 }
 
-func (c *current) onListElements179() (interface{}, error) {
+func (c *current) onListElements185() (interface{}, error) {
 	return nil, nil
 
 }
 
-func (p *parser) callonListElements179() (interface{}, error) {
+func (p *parser) callonListElements185() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements179()
+	return p.cur.onListElements185()
 }
 
-func (c *current) onListElements210() (interface{}, error) {
+func (c *current) onListElements216() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListElements210() (interface{}, error) {
+func (p *parser) callonListElements216() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements210()
+	return p.cur.onListElements216()
 }
 
-func (c *current) onListElements214() (interface{}, error) {
+func (c *current) onListElements220() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonListElements214() (interface{}, error) {
+func (p *parser) callonListElements220() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements214()
+	return p.cur.onListElements220()
 }
 
-func (c *current) onListElements218() (interface{}, error) {
+func (c *current) onListElements224() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListElements218() (interface{}, error) {
+func (p *parser) callonListElements224() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements218()
+	return p.cur.onListElements224()
 }
 
-func (c *current) onListElements208(content interface{}) (interface{}, error) {
+func (c *current) onListElements214(content interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, content)
 
 }
 
-func (p *parser) callonListElements208() (interface{}, error) {
+func (p *parser) callonListElements214() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListElements208(stack["content"])
+	return p.cur.onListElements214(stack["content"])
 }
 
 func (c *current) onListElements145(term, separator, description interface{}) (interface{}, error) {
@@ -62283,51 +62451,51 @@ func (p *parser) callonExtraListElement137() (interface{}, error) {
 	return p.cur.onExtraListElement137(stack["ref"], stack["description"])
 }
 
-func (c *current) onExtraListElement177() (interface{}, error) {
+func (c *current) onExtraListElement183() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement177() (interface{}, error) {
+func (p *parser) callonExtraListElement183() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement177()
+	return p.cur.onExtraListElement183()
 }
 
-func (c *current) onExtraListElement180(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement186(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement180() (bool, error) {
+func (p *parser) callonExtraListElement186() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement180(stack["separator"])
+	return p.cur.onExtraListElement186(stack["separator"])
 }
 
-func (c *current) onExtraListElement174(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement180(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement174() (interface{}, error) {
+func (p *parser) callonExtraListElement180() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement174(stack["separator"])
+	return p.cur.onExtraListElement180(stack["separator"])
 }
 
-func (c *current) onExtraListElement183() (interface{}, error) {
+func (c *current) onExtraListElement189() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement183() (interface{}, error) {
+func (p *parser) callonExtraListElement189() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement183()
+	return p.cur.onExtraListElement189()
 }
 
 func (c *current) onExtraListElement170() (interface{}, error) {
@@ -62341,153 +62509,153 @@ func (p *parser) callonExtraListElement170() (interface{}, error) {
 	return p.cur.onExtraListElement170()
 }
 
-func (c *current) onExtraListElement195() (interface{}, error) {
+func (c *current) onExtraListElement201() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement195() (interface{}, error) {
+func (p *parser) callonExtraListElement201() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement195()
+	return p.cur.onExtraListElement201()
 }
 
-func (c *current) onExtraListElement198(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement204(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement198() (bool, error) {
+func (p *parser) callonExtraListElement204() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement198(stack["separator"])
+	return p.cur.onExtraListElement204(stack["separator"])
 }
 
-func (c *current) onExtraListElement192(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement198(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement192() (interface{}, error) {
+func (p *parser) callonExtraListElement198() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement192(stack["separator"])
+	return p.cur.onExtraListElement198(stack["separator"])
 }
 
-func (c *current) onExtraListElement204() (interface{}, error) {
+func (c *current) onExtraListElement210() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement204() (interface{}, error) {
+func (p *parser) callonExtraListElement210() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement204()
+	return p.cur.onExtraListElement210()
 }
 
-func (c *current) onExtraListElement207() (interface{}, error) {
+func (c *current) onExtraListElement213() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement207() (interface{}, error) {
+func (p *parser) callonExtraListElement213() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement207()
+	return p.cur.onExtraListElement213()
 }
 
-func (c *current) onExtraListElement220() (interface{}, error) {
+func (c *current) onExtraListElement226() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement220() (interface{}, error) {
+func (p *parser) callonExtraListElement226() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement220()
+	return p.cur.onExtraListElement226()
 }
 
-func (c *current) onExtraListElement223() (interface{}, error) {
+func (c *current) onExtraListElement229() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement223() (interface{}, error) {
+func (p *parser) callonExtraListElement229() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement223()
+	return p.cur.onExtraListElement229()
 }
 
-func (c *current) onExtraListElement215() (interface{}, error) {
+func (c *current) onExtraListElement221() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonExtraListElement215() (interface{}, error) {
+func (p *parser) callonExtraListElement221() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement215()
+	return p.cur.onExtraListElement221()
 }
 
-func (c *current) onExtraListElement201() (interface{}, error) {
+func (c *current) onExtraListElement207() (interface{}, error) {
 	return nil, nil
 
 }
 
-func (p *parser) callonExtraListElement201() (interface{}, error) {
+func (p *parser) callonExtraListElement207() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement201()
+	return p.cur.onExtraListElement207()
 }
 
-func (c *current) onExtraListElement232() (interface{}, error) {
+func (c *current) onExtraListElement238() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement232() (interface{}, error) {
+func (p *parser) callonExtraListElement238() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement232()
+	return p.cur.onExtraListElement238()
 }
 
-func (c *current) onExtraListElement236() (interface{}, error) {
+func (c *current) onExtraListElement242() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement236() (interface{}, error) {
+func (p *parser) callonExtraListElement242() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement236()
+	return p.cur.onExtraListElement242()
 }
 
-func (c *current) onExtraListElement240() (interface{}, error) {
+func (c *current) onExtraListElement246() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement240() (interface{}, error) {
+func (p *parser) callonExtraListElement246() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement240()
+	return p.cur.onExtraListElement246()
 }
 
-func (c *current) onExtraListElement230(content interface{}) (interface{}, error) {
+func (c *current) onExtraListElement236(content interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, content)
 
 }
 
-func (p *parser) callonExtraListElement230() (interface{}, error) {
+func (p *parser) callonExtraListElement236() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement230(stack["content"])
+	return p.cur.onExtraListElement236(stack["content"])
 }
 
 func (c *current) onExtraListElement167(term, separator, description interface{}) (interface{}, error) {
@@ -62513,45 +62681,45 @@ func (p *parser) callonExtraListElement7() (interface{}, error) {
 	return p.cur.onExtraListElement7(stack["element"])
 }
 
-func (c *current) onExtraListElement260() (interface{}, error) {
+func (c *current) onExtraListElement266() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement260() (interface{}, error) {
+func (p *parser) callonExtraListElement266() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement260()
+	return p.cur.onExtraListElement266()
 }
 
-func (c *current) onExtraListElement267() (interface{}, error) {
+func (c *current) onExtraListElement273() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonExtraListElement267() (interface{}, error) {
+func (p *parser) callonExtraListElement273() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement267()
+	return p.cur.onExtraListElement273()
 }
 
-func (c *current) onExtraListElement270(depth interface{}) (bool, error) {
+func (c *current) onExtraListElement276(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonExtraListElement270() (bool, error) {
+func (p *parser) callonExtraListElement276() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement270(stack["depth"])
+	return p.cur.onExtraListElement276(stack["depth"])
 }
 
-func (c *current) onExtraListElement264(depth interface{}) (interface{}, error) {
+func (c *current) onExtraListElement270(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -62567,732 +62735,732 @@ func (c *current) onExtraListElement264(depth interface{}) (interface{}, error)
 
 }
 
-func (p *parser) callonExtraListElement264() (interface{}, error) {
+func (p *parser) callonExtraListElement270() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement264(stack["depth"])
+	return p.cur.onExtraListElement270(stack["depth"])
 }
 
-func (c *current) onExtraListElement271() (interface{}, error) {
+func (c *current) onExtraListElement277() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonExtraListElement271() (interface{}, error) {
+func (p *parser) callonExtraListElement277() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement271()
+	return p.cur.onExtraListElement277()
 }
 
-func (c *current) onExtraListElement276() (interface{}, error) {
+func (c *current) onExtraListElement282() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonExtraListElement276() (interface{}, error) {
+func (p *parser) callonExtraListElement282() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement276()
+	return p.cur.onExtraListElement282()
 }
 
-func (c *current) onExtraListElement280() (interface{}, error) {
+func (c *current) onExtraListElement286() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonExtraListElement280() (interface{}, error) {
+func (p *parser) callonExtraListElement286() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement280()
+	return p.cur.onExtraListElement286()
 }
 
-func (c *current) onExtraListElement284() (interface{}, error) {
+func (c *current) onExtraListElement290() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonExtraListElement284() (interface{}, error) {
+func (p *parser) callonExtraListElement290() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement284()
+	return p.cur.onExtraListElement290()
 }
 
-func (c *current) onExtraListElement289() (interface{}, error) {
+func (c *current) onExtraListElement295() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonExtraListElement289() (interface{}, error) {
+func (p *parser) callonExtraListElement295() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement289()
+	return p.cur.onExtraListElement295()
 }
 
-func (c *current) onExtraListElement294(prefix interface{}) (interface{}, error) {
+func (c *current) onExtraListElement300(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement294() (interface{}, error) {
+func (p *parser) callonExtraListElement300() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement294(stack["prefix"])
+	return p.cur.onExtraListElement300(stack["prefix"])
 }
 
-func (c *current) onExtraListElement257(prefix interface{}) (interface{}, error) {
+func (c *current) onExtraListElement263(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonExtraListElement257() (interface{}, error) {
+func (p *parser) callonExtraListElement263() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement257(stack["prefix"])
+	return p.cur.onExtraListElement263(stack["prefix"])
 }
 
-func (c *current) onExtraListElement302() (interface{}, error) {
+func (c *current) onExtraListElement308() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement302() (interface{}, error) {
+func (p *parser) callonExtraListElement308() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement302()
+	return p.cur.onExtraListElement308()
 }
 
-func (c *current) onExtraListElement306() (interface{}, error) {
+func (c *current) onExtraListElement312() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement306() (interface{}, error) {
+func (p *parser) callonExtraListElement312() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement306()
+	return p.cur.onExtraListElement312()
 }
 
-func (c *current) onExtraListElement298(rawLines interface{}) (interface{}, error) {
+func (c *current) onExtraListElement304(rawLines interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, rawLines.([]interface{})...)
 
 }
 
-func (p *parser) callonExtraListElement298() (interface{}, error) {
+func (p *parser) callonExtraListElement304() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement298(stack["rawLines"])
+	return p.cur.onExtraListElement304(stack["rawLines"])
 }
 
-func (c *current) onExtraListElement254(prefix, content interface{}) (interface{}, error) {
+func (c *current) onExtraListElement260(prefix, content interface{}) (interface{}, error) {
 	return types.NewOrderedListElement(prefix.(types.OrderedListElementPrefix), content)
 
 }
 
-func (p *parser) callonExtraListElement254() (interface{}, error) {
+func (p *parser) callonExtraListElement260() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement254(stack["prefix"], stack["content"])
+	return p.cur.onExtraListElement260(stack["prefix"], stack["content"])
 }
 
-func (c *current) onExtraListElement319() (interface{}, error) {
+func (c *current) onExtraListElement325() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement319() (interface{}, error) {
+func (p *parser) callonExtraListElement325() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement319()
+	return p.cur.onExtraListElement325()
 }
 
-func (c *current) onExtraListElement322() (interface{}, error) {
+func (c *current) onExtraListElement328() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement322() (interface{}, error) {
+func (p *parser) callonExtraListElement328() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement322()
+	return p.cur.onExtraListElement328()
 }
 
-func (c *current) onExtraListElement327(style interface{}) (bool, error) {
+func (c *current) onExtraListElement333(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonExtraListElement327() (bool, error) {
+func (p *parser) callonExtraListElement333() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement327(stack["style"])
+	return p.cur.onExtraListElement333(stack["style"])
 }
 
-func (c *current) onExtraListElement328(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement334(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement328() (interface{}, error) {
+func (p *parser) callonExtraListElement334() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement328(stack["style"])
+	return p.cur.onExtraListElement334(stack["style"])
 }
 
-func (c *current) onExtraListElement316(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement322(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonExtraListElement316() (interface{}, error) {
+func (p *parser) callonExtraListElement322() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement316(stack["style"])
+	return p.cur.onExtraListElement322(stack["style"])
 }
 
-func (c *current) onExtraListElement339() (interface{}, error) {
+func (c *current) onExtraListElement345() (interface{}, error) {
 	return types.Unchecked, nil
 }
 
-func (p *parser) callonExtraListElement339() (interface{}, error) {
+func (p *parser) callonExtraListElement345() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement339()
+	return p.cur.onExtraListElement345()
 }
 
-func (c *current) onExtraListElement341() (interface{}, error) {
+func (c *current) onExtraListElement347() (interface{}, error) {
 	return types.Checked, nil
 }
 
-func (p *parser) callonExtraListElement341() (interface{}, error) {
+func (p *parser) callonExtraListElement347() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement341()
+	return p.cur.onExtraListElement347()
 }
 
-func (c *current) onExtraListElement343() (interface{}, error) {
+func (c *current) onExtraListElement349() (interface{}, error) {
 	return types.Checked, nil
 }
 
-func (p *parser) callonExtraListElement343() (interface{}, error) {
+func (p *parser) callonExtraListElement349() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement343()
+	return p.cur.onExtraListElement349()
 }
 
-func (c *current) onExtraListElement345(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement351(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement345() (interface{}, error) {
+func (p *parser) callonExtraListElement351() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement345(stack["style"])
+	return p.cur.onExtraListElement351(stack["style"])
 }
 
-func (c *current) onExtraListElement333(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement339(style interface{}) (interface{}, error) {
 	return style, nil
 
 }
 
-func (p *parser) callonExtraListElement333() (interface{}, error) {
+func (p *parser) callonExtraListElement339() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement333(stack["style"])
+	return p.cur.onExtraListElement339(stack["style"])
 }
 
-func (c *current) onExtraListElement353() (interface{}, error) {
+func (c *current) onExtraListElement359() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement353() (interface{}, error) {
+func (p *parser) callonExtraListElement359() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement353()
+	return p.cur.onExtraListElement359()
 }
 
-func (c *current) onExtraListElement357() (interface{}, error) {
+func (c *current) onExtraListElement363() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement357() (interface{}, error) {
+func (p *parser) callonExtraListElement363() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement357()
+	return p.cur.onExtraListElement363()
 }
 
-func (c *current) onExtraListElement349(rawLines interface{}) (interface{}, error) {
+func (c *current) onExtraListElement355(rawLines interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, rawLines.([]interface{})...)
 
 }
 
-func (p *parser) callonExtraListElement349() (interface{}, error) {
+func (p *parser) callonExtraListElement355() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement349(stack["rawLines"])
+	return p.cur.onExtraListElement355(stack["rawLines"])
 }
 
-func (c *current) onExtraListElement313(prefix, checkstyle, content interface{}) (interface{}, error) {
+func (c *current) onExtraListElement319(prefix, checkstyle, content interface{}) (interface{}, error) {
 	return types.NewUnorderedListElement(prefix.(types.UnorderedListElementPrefix), checkstyle, content)
 
 }
 
-func (p *parser) callonExtraListElement313() (interface{}, error) {
+func (p *parser) callonExtraListElement319() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement313(stack["prefix"], stack["checkstyle"], stack["content"])
+	return p.cur.onExtraListElement319(stack["prefix"], stack["checkstyle"], stack["content"])
 }
 
-func (c *current) onExtraListElement371() (interface{}, error) {
+func (c *current) onExtraListElement377() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonExtraListElement371() (interface{}, error) {
+func (p *parser) callonExtraListElement377() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement371()
+	return p.cur.onExtraListElement377()
 }
 
-func (c *current) onExtraListElement375(ref interface{}) (interface{}, error) {
+func (c *current) onExtraListElement381(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement375() (interface{}, error) {
+func (p *parser) callonExtraListElement381() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement375(stack["ref"])
+	return p.cur.onExtraListElement381(stack["ref"])
 }
 
-func (c *current) onExtraListElement367(ref interface{}) (interface{}, error) {
+func (c *current) onExtraListElement373(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonExtraListElement367() (interface{}, error) {
+func (p *parser) callonExtraListElement373() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement367(stack["ref"])
+	return p.cur.onExtraListElement373(stack["ref"])
 }
 
-func (c *current) onExtraListElement383() (interface{}, error) {
+func (c *current) onExtraListElement389() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement383() (interface{}, error) {
+func (p *parser) callonExtraListElement389() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement383()
+	return p.cur.onExtraListElement389()
 }
 
-func (c *current) onExtraListElement387() (interface{}, error) {
+func (c *current) onExtraListElement393() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement387() (interface{}, error) {
+func (p *parser) callonExtraListElement393() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement387()
+	return p.cur.onExtraListElement393()
 }
 
-func (c *current) onExtraListElement379(rawLines interface{}) (interface{}, error) {
+func (c *current) onExtraListElement385(rawLines interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, rawLines.([]interface{})...)
 
 }
 
-func (p *parser) callonExtraListElement379() (interface{}, error) {
+func (p *parser) callonExtraListElement385() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement379(stack["rawLines"])
+	return p.cur.onExtraListElement385(stack["rawLines"])
 }
 
-func (c *current) onExtraListElement364(ref, description interface{}) (interface{}, error) {
+func (c *current) onExtraListElement370(ref, description interface{}) (interface{}, error) {
 	return types.NewCalloutListElement(ref.(int), description.(*types.Paragraph))
 
 }
 
-func (p *parser) callonExtraListElement364() (interface{}, error) {
+func (p *parser) callonExtraListElement370() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement364(stack["ref"], stack["description"])
+	return p.cur.onExtraListElement370(stack["ref"], stack["description"])
 }
 
-func (c *current) onExtraListElement404() (interface{}, error) {
+func (c *current) onExtraListElement416() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement404() (interface{}, error) {
+func (p *parser) callonExtraListElement416() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement404()
+	return p.cur.onExtraListElement416()
 }
 
-func (c *current) onExtraListElement407(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement419(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement407() (bool, error) {
+func (p *parser) callonExtraListElement419() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement407(stack["separator"])
+	return p.cur.onExtraListElement419(stack["separator"])
 }
 
-func (c *current) onExtraListElement401(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement413(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement401() (interface{}, error) {
+func (p *parser) callonExtraListElement413() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement401(stack["separator"])
+	return p.cur.onExtraListElement413(stack["separator"])
 }
 
-func (c *current) onExtraListElement410() (interface{}, error) {
+func (c *current) onExtraListElement422() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement410() (interface{}, error) {
+func (p *parser) callonExtraListElement422() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement410()
+	return p.cur.onExtraListElement422()
 }
 
-func (c *current) onExtraListElement397() (interface{}, error) {
+func (c *current) onExtraListElement403() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonExtraListElement397() (interface{}, error) {
+func (p *parser) callonExtraListElement403() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement397()
+	return p.cur.onExtraListElement403()
 }
 
-func (c *current) onExtraListElement422() (interface{}, error) {
+func (c *current) onExtraListElement434() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement422() (interface{}, error) {
+func (p *parser) callonExtraListElement434() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement422()
+	return p.cur.onExtraListElement434()
 }
 
-func (c *current) onExtraListElement425(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement437(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement425() (bool, error) {
+func (p *parser) callonExtraListElement437() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement425(stack["separator"])
+	return p.cur.onExtraListElement437(stack["separator"])
 }
 
-func (c *current) onExtraListElement419(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement431(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement419() (interface{}, error) {
+func (p *parser) callonExtraListElement431() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement419(stack["separator"])
+	return p.cur.onExtraListElement431(stack["separator"])
 }
 
-func (c *current) onExtraListElement431() (interface{}, error) {
+func (c *current) onExtraListElement443() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement431() (interface{}, error) {
+func (p *parser) callonExtraListElement443() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement431()
+	return p.cur.onExtraListElement443()
 }
 
-func (c *current) onExtraListElement434() (interface{}, error) {
+func (c *current) onExtraListElement446() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement434() (interface{}, error) {
+func (p *parser) callonExtraListElement446() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement434()
+	return p.cur.onExtraListElement446()
 }
 
-func (c *current) onExtraListElement447() (interface{}, error) {
+func (c *current) onExtraListElement459() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement447() (interface{}, error) {
+func (p *parser) callonExtraListElement459() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement447()
+	return p.cur.onExtraListElement459()
 }
 
-func (c *current) onExtraListElement450() (interface{}, error) {
+func (c *current) onExtraListElement462() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement450() (interface{}, error) {
+func (p *parser) callonExtraListElement462() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement450()
+	return p.cur.onExtraListElement462()
 }
 
-func (c *current) onExtraListElement442() (interface{}, error) {
+func (c *current) onExtraListElement454() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonExtraListElement442() (interface{}, error) {
+func (p *parser) callonExtraListElement454() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement442()
+	return p.cur.onExtraListElement454()
 }
 
-func (c *current) onExtraListElement428() (interface{}, error) {
+func (c *current) onExtraListElement440() (interface{}, error) {
 	return nil, nil
 
 }
 
-func (p *parser) callonExtraListElement428() (interface{}, error) {
+func (p *parser) callonExtraListElement440() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement428()
+	return p.cur.onExtraListElement440()
 }
 
-func (c *current) onExtraListElement459() (interface{}, error) {
+func (c *current) onExtraListElement471() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement459() (interface{}, error) {
+func (p *parser) callonExtraListElement471() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement459()
+	return p.cur.onExtraListElement471()
 }
 
-func (c *current) onExtraListElement463() (interface{}, error) {
+func (c *current) onExtraListElement475() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement463() (interface{}, error) {
+func (p *parser) callonExtraListElement475() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement463()
+	return p.cur.onExtraListElement475()
 }
 
-func (c *current) onExtraListElement467() (interface{}, error) {
+func (c *current) onExtraListElement479() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement467() (interface{}, error) {
+func (p *parser) callonExtraListElement479() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement467()
+	return p.cur.onExtraListElement479()
 }
 
-func (c *current) onExtraListElement457(content interface{}) (interface{}, error) {
+func (c *current) onExtraListElement469(content interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, content)
 
 }
 
-func (p *parser) callonExtraListElement457() (interface{}, error) {
+func (p *parser) callonExtraListElement469() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement457(stack["content"])
+	return p.cur.onExtraListElement469(stack["content"])
 }
 
-func (c *current) onExtraListElement394(term, separator, description interface{}) (interface{}, error) {
+func (c *current) onExtraListElement400(term, separator, description interface{}) (interface{}, error) {
 	return types.NewLabeledListElement(len(separator.(string))-1, term, description)
 
 }
 
-func (p *parser) callonExtraListElement394() (interface{}, error) {
+func (p *parser) callonExtraListElement400() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement394(stack["term"], stack["separator"], stack["description"])
+	return p.cur.onExtraListElement400(stack["term"], stack["separator"], stack["description"])
 }
 
-func (c *current) onExtraListElement247(attributes, element interface{}) (interface{}, error) {
+func (c *current) onExtraListElement253(attributes, element interface{}) (interface{}, error) {
 
 	return append(attributes.([]interface{}), element), nil
 
 }
 
-func (p *parser) callonExtraListElement247() (interface{}, error) {
+func (p *parser) callonExtraListElement253() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement247(stack["attributes"], stack["element"])
+	return p.cur.onExtraListElement253(stack["attributes"], stack["element"])
 }
 
-func (c *current) onExtraListElement481() (interface{}, error) {
+func (c *current) onExtraListElement493() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement481() (interface{}, error) {
+func (p *parser) callonExtraListElement493() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement481()
+	return p.cur.onExtraListElement493()
 }
 
-func (c *current) onExtraListElement485() (interface{}, error) {
+func (c *current) onExtraListElement497() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement485() (interface{}, error) {
+func (p *parser) callonExtraListElement497() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement485()
+	return p.cur.onExtraListElement497()
 }
 
-func (c *current) onExtraListElement475(content interface{}) (interface{}, error) {
+func (c *current) onExtraListElement487(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonExtraListElement475() (interface{}, error) {
+func (p *parser) callonExtraListElement487() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement475(stack["content"])
+	return p.cur.onExtraListElement487(stack["content"])
 }
 
-func (c *current) onExtraListElement500() (interface{}, error) {
+func (c *current) onExtraListElement512() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement500() (interface{}, error) {
+func (p *parser) callonExtraListElement512() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement500()
+	return p.cur.onExtraListElement512()
 }
 
-func (c *current) onExtraListElement503() (interface{}, error) {
+func (c *current) onExtraListElement515() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement503() (interface{}, error) {
+func (p *parser) callonExtraListElement515() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement503()
+	return p.cur.onExtraListElement515()
 }
 
-func (c *current) onExtraListElement495() (interface{}, error) {
+func (c *current) onExtraListElement507() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonExtraListElement495() (interface{}, error) {
+func (p *parser) callonExtraListElement507() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement495()
+	return p.cur.onExtraListElement507()
 }
 
-func (c *current) onExtraListElement514() (interface{}, error) {
+func (c *current) onExtraListElement526() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement514() (interface{}, error) {
+func (p *parser) callonExtraListElement526() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement514()
+	return p.cur.onExtraListElement526()
 }
 
-func (c *current) onExtraListElement516() (interface{}, error) {
+func (c *current) onExtraListElement528() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement516() (interface{}, error) {
+func (p *parser) callonExtraListElement528() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement516()
+	return p.cur.onExtraListElement528()
 }
 
-func (c *current) onExtraListElement525() (interface{}, error) {
+func (c *current) onExtraListElement537() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement525() (interface{}, error) {
+func (p *parser) callonExtraListElement537() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement525()
+	return p.cur.onExtraListElement537()
 }
 
-func (c *current) onExtraListElement532() (interface{}, error) {
+func (c *current) onExtraListElement544() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonExtraListElement532() (interface{}, error) {
+func (p *parser) callonExtraListElement544() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement532()
+	return p.cur.onExtraListElement544()
 }
 
-func (c *current) onExtraListElement535(depth interface{}) (bool, error) {
+func (c *current) onExtraListElement547(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonExtraListElement535() (bool, error) {
+func (p *parser) callonExtraListElement547() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement535(stack["depth"])
+	return p.cur.onExtraListElement547(stack["depth"])
 }
 
-func (c *current) onExtraListElement529(depth interface{}) (interface{}, error) {
+func (c *current) onExtraListElement541(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -63308,745 +63476,745 @@ func (c *current) onExtraListElement529(depth interface{}) (interface{}, error)
 
 }
 
-func (p *parser) callonExtraListElement529() (interface{}, error) {
+func (p *parser) callonExtraListElement541() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement529(stack["depth"])
+	return p.cur.onExtraListElement541(stack["depth"])
 }
 
-func (c *current) onExtraListElement536() (interface{}, error) {
+func (c *current) onExtraListElement548() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonExtraListElement536() (interface{}, error) {
+func (p *parser) callonExtraListElement548() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement536()
+	return p.cur.onExtraListElement548()
 }
 
-func (c *current) onExtraListElement541() (interface{}, error) {
+func (c *current) onExtraListElement553() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonExtraListElement541() (interface{}, error) {
+func (p *parser) callonExtraListElement553() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement541()
+	return p.cur.onExtraListElement553()
 }
 
-func (c *current) onExtraListElement545() (interface{}, error) {
+func (c *current) onExtraListElement557() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonExtraListElement545() (interface{}, error) {
+func (p *parser) callonExtraListElement557() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement545()
+	return p.cur.onExtraListElement557()
 }
 
-func (c *current) onExtraListElement549() (interface{}, error) {
+func (c *current) onExtraListElement561() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonExtraListElement549() (interface{}, error) {
+func (p *parser) callonExtraListElement561() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement549()
+	return p.cur.onExtraListElement561()
 }
 
-func (c *current) onExtraListElement554() (interface{}, error) {
+func (c *current) onExtraListElement566() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonExtraListElement554() (interface{}, error) {
+func (p *parser) callonExtraListElement566() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement554()
+	return p.cur.onExtraListElement566()
 }
 
-func (c *current) onExtraListElement559(prefix interface{}) (interface{}, error) {
+func (c *current) onExtraListElement571(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement559() (interface{}, error) {
+func (p *parser) callonExtraListElement571() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement559(stack["prefix"])
+	return p.cur.onExtraListElement571(stack["prefix"])
 }
 
-func (c *current) onExtraListElement522(prefix interface{}) (interface{}, error) {
+func (c *current) onExtraListElement534(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonExtraListElement522() (interface{}, error) {
+func (p *parser) callonExtraListElement534() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement522(stack["prefix"])
+	return p.cur.onExtraListElement534(stack["prefix"])
 }
 
-func (c *current) onExtraListElement566() (interface{}, error) {
+func (c *current) onExtraListElement578() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement566() (interface{}, error) {
+func (p *parser) callonExtraListElement578() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement566()
+	return p.cur.onExtraListElement578()
 }
 
-func (c *current) onExtraListElement569() (interface{}, error) {
+func (c *current) onExtraListElement581() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement569() (interface{}, error) {
+func (p *parser) callonExtraListElement581() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement569()
+	return p.cur.onExtraListElement581()
 }
 
-func (c *current) onExtraListElement574(style interface{}) (bool, error) {
+func (c *current) onExtraListElement586(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonExtraListElement574() (bool, error) {
+func (p *parser) callonExtraListElement586() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement574(stack["style"])
+	return p.cur.onExtraListElement586(stack["style"])
 }
 
-func (c *current) onExtraListElement575(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement587(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement575() (interface{}, error) {
+func (p *parser) callonExtraListElement587() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement575(stack["style"])
+	return p.cur.onExtraListElement587(stack["style"])
 }
 
-func (c *current) onExtraListElement563(style interface{}) (interface{}, error) {
+func (c *current) onExtraListElement575(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonExtraListElement563() (interface{}, error) {
+func (p *parser) callonExtraListElement575() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement563(stack["style"])
+	return p.cur.onExtraListElement575(stack["style"])
 }
 
-func (c *current) onExtraListElement583() (interface{}, error) {
+func (c *current) onExtraListElement595() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonExtraListElement583() (interface{}, error) {
+func (p *parser) callonExtraListElement595() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement583()
+	return p.cur.onExtraListElement595()
 }
 
-func (c *current) onExtraListElement587(ref interface{}) (interface{}, error) {
+func (c *current) onExtraListElement599(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement587() (interface{}, error) {
+func (p *parser) callonExtraListElement599() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement587(stack["ref"])
+	return p.cur.onExtraListElement599(stack["ref"])
 }
 
-func (c *current) onExtraListElement579(ref interface{}) (interface{}, error) {
+func (c *current) onExtraListElement591(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonExtraListElement579() (interface{}, error) {
+func (p *parser) callonExtraListElement591() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement579(stack["ref"])
+	return p.cur.onExtraListElement591(stack["ref"])
 }
 
-func (c *current) onExtraListElement599() (interface{}, error) {
+func (c *current) onExtraListElement617() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement599() (interface{}, error) {
+func (p *parser) callonExtraListElement617() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement599()
+	return p.cur.onExtraListElement617()
 }
 
-func (c *current) onExtraListElement602(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement620(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement602() (bool, error) {
+func (p *parser) callonExtraListElement620() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement602(stack["separator"])
+	return p.cur.onExtraListElement620(stack["separator"])
 }
 
-func (c *current) onExtraListElement596(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement614(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement596() (interface{}, error) {
+func (p *parser) callonExtraListElement614() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement596(stack["separator"])
+	return p.cur.onExtraListElement614(stack["separator"])
 }
 
-func (c *current) onExtraListElement605() (interface{}, error) {
+func (c *current) onExtraListElement623() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement605() (interface{}, error) {
+func (p *parser) callonExtraListElement623() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement605()
+	return p.cur.onExtraListElement623()
 }
 
-func (c *current) onExtraListElement592() (interface{}, error) {
+func (c *current) onExtraListElement604() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonExtraListElement592() (interface{}, error) {
+func (p *parser) callonExtraListElement604() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement592()
+	return p.cur.onExtraListElement604()
 }
 
-func (c *current) onExtraListElement616() (interface{}, error) {
+func (c *current) onExtraListElement634() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement616() (interface{}, error) {
+func (p *parser) callonExtraListElement634() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement616()
+	return p.cur.onExtraListElement634()
 }
 
-func (c *current) onExtraListElement619(separator interface{}) (bool, error) {
+func (c *current) onExtraListElement637(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonExtraListElement619() (bool, error) {
+func (p *parser) callonExtraListElement637() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement619(stack["separator"])
+	return p.cur.onExtraListElement637(stack["separator"])
 }
 
-func (c *current) onExtraListElement613(separator interface{}) (interface{}, error) {
+func (c *current) onExtraListElement631(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonExtraListElement613() (interface{}, error) {
+func (p *parser) callonExtraListElement631() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement613(stack["separator"])
+	return p.cur.onExtraListElement631(stack["separator"])
 }
 
-func (c *current) onExtraListElement630() (interface{}, error) {
+func (c *current) onExtraListElement648() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement630() (interface{}, error) {
+func (p *parser) callonExtraListElement648() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement630()
+	return p.cur.onExtraListElement648()
 }
 
-func (c *current) onExtraListElement636() (interface{}, error) {
+func (c *current) onExtraListElement654() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement636() (interface{}, error) {
+func (p *parser) callonExtraListElement654() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement636()
+	return p.cur.onExtraListElement654()
 }
 
-func (c *current) onExtraListElement639() (interface{}, error) {
+func (c *current) onExtraListElement657() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement639() (interface{}, error) {
+func (p *parser) callonExtraListElement657() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement639()
+	return p.cur.onExtraListElement657()
 }
 
-func (c *current) onExtraListElement627(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement645(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement627() (interface{}, error) {
+func (p *parser) callonExtraListElement645() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement627(stack["delimiter"])
+	return p.cur.onExtraListElement645(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement649() (interface{}, error) {
+func (c *current) onExtraListElement667() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement649() (interface{}, error) {
+func (p *parser) callonExtraListElement667() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement649()
+	return p.cur.onExtraListElement667()
 }
 
-func (c *current) onExtraListElement655() (interface{}, error) {
+func (c *current) onExtraListElement673() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement655() (interface{}, error) {
+func (p *parser) callonExtraListElement673() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement655()
+	return p.cur.onExtraListElement673()
 }
 
-func (c *current) onExtraListElement658() (interface{}, error) {
+func (c *current) onExtraListElement676() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement658() (interface{}, error) {
+func (p *parser) callonExtraListElement676() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement658()
+	return p.cur.onExtraListElement676()
 }
 
-func (c *current) onExtraListElement646(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement664(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement646() (interface{}, error) {
+func (p *parser) callonExtraListElement664() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement646(stack["delimiter"])
+	return p.cur.onExtraListElement664(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement669() (interface{}, error) {
+func (c *current) onExtraListElement687() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement669() (interface{}, error) {
+func (p *parser) callonExtraListElement687() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement669()
+	return p.cur.onExtraListElement687()
 }
 
-func (c *current) onExtraListElement673() (interface{}, error) {
+func (c *current) onExtraListElement691() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement673() (interface{}, error) {
+func (p *parser) callonExtraListElement691() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement673()
+	return p.cur.onExtraListElement691()
 }
 
-func (c *current) onExtraListElement676() (interface{}, error) {
+func (c *current) onExtraListElement694() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement676() (interface{}, error) {
+func (p *parser) callonExtraListElement694() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement676()
+	return p.cur.onExtraListElement694()
 }
 
-func (c *current) onExtraListElement665(language interface{}) (interface{}, error) {
+func (c *current) onExtraListElement683(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonExtraListElement665() (interface{}, error) {
+func (p *parser) callonExtraListElement683() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement665(stack["language"])
+	return p.cur.onExtraListElement683(stack["language"])
 }
 
-func (c *current) onExtraListElement686() (interface{}, error) {
+func (c *current) onExtraListElement704() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement686() (interface{}, error) {
+func (p *parser) callonExtraListElement704() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement686()
+	return p.cur.onExtraListElement704()
 }
 
-func (c *current) onExtraListElement692() (interface{}, error) {
+func (c *current) onExtraListElement710() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement692() (interface{}, error) {
+func (p *parser) callonExtraListElement710() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement692()
+	return p.cur.onExtraListElement710()
 }
 
-func (c *current) onExtraListElement695() (interface{}, error) {
+func (c *current) onExtraListElement713() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement695() (interface{}, error) {
+func (p *parser) callonExtraListElement713() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement695()
+	return p.cur.onExtraListElement713()
 }
 
-func (c *current) onExtraListElement683(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement701(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement683() (interface{}, error) {
+func (p *parser) callonExtraListElement701() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement683(stack["delimiter"])
+	return p.cur.onExtraListElement701(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement705() (interface{}, error) {
+func (c *current) onExtraListElement723() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement705() (interface{}, error) {
+func (p *parser) callonExtraListElement723() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement705()
+	return p.cur.onExtraListElement723()
 }
 
-func (c *current) onExtraListElement711() (interface{}, error) {
+func (c *current) onExtraListElement729() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement711() (interface{}, error) {
+func (p *parser) callonExtraListElement729() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement711()
+	return p.cur.onExtraListElement729()
 }
 
-func (c *current) onExtraListElement714() (interface{}, error) {
+func (c *current) onExtraListElement732() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement714() (interface{}, error) {
+func (p *parser) callonExtraListElement732() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement714()
+	return p.cur.onExtraListElement732()
 }
 
-func (c *current) onExtraListElement702(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement720(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement702() (interface{}, error) {
+func (p *parser) callonExtraListElement720() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement702(stack["delimiter"])
+	return p.cur.onExtraListElement720(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement724() (interface{}, error) {
+func (c *current) onExtraListElement742() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement724() (interface{}, error) {
+func (p *parser) callonExtraListElement742() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement724()
+	return p.cur.onExtraListElement742()
 }
 
-func (c *current) onExtraListElement730() (interface{}, error) {
+func (c *current) onExtraListElement748() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement730() (interface{}, error) {
+func (p *parser) callonExtraListElement748() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement730()
+	return p.cur.onExtraListElement748()
 }
 
-func (c *current) onExtraListElement733() (interface{}, error) {
+func (c *current) onExtraListElement751() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement733() (interface{}, error) {
+func (p *parser) callonExtraListElement751() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement733()
+	return p.cur.onExtraListElement751()
 }
 
-func (c *current) onExtraListElement721(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement739(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement721() (interface{}, error) {
+func (p *parser) callonExtraListElement739() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement721(stack["delimiter"])
+	return p.cur.onExtraListElement739(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement743() (interface{}, error) {
+func (c *current) onExtraListElement761() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement743() (interface{}, error) {
+func (p *parser) callonExtraListElement761() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement743()
+	return p.cur.onExtraListElement761()
 }
 
-func (c *current) onExtraListElement749() (interface{}, error) {
+func (c *current) onExtraListElement767() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement749() (interface{}, error) {
+func (p *parser) callonExtraListElement767() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement749()
+	return p.cur.onExtraListElement767()
 }
 
-func (c *current) onExtraListElement752() (interface{}, error) {
+func (c *current) onExtraListElement770() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement752() (interface{}, error) {
+func (p *parser) callonExtraListElement770() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement752()
+	return p.cur.onExtraListElement770()
 }
 
-func (c *current) onExtraListElement740(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement758(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement740() (interface{}, error) {
+func (p *parser) callonExtraListElement758() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement740(stack["delimiter"])
+	return p.cur.onExtraListElement758(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement762() (interface{}, error) {
+func (c *current) onExtraListElement780() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement762() (interface{}, error) {
+func (p *parser) callonExtraListElement780() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement762()
+	return p.cur.onExtraListElement780()
 }
 
-func (c *current) onExtraListElement768() (interface{}, error) {
+func (c *current) onExtraListElement786() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement768() (interface{}, error) {
+func (p *parser) callonExtraListElement786() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement768()
+	return p.cur.onExtraListElement786()
 }
 
-func (c *current) onExtraListElement771() (interface{}, error) {
+func (c *current) onExtraListElement789() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement771() (interface{}, error) {
+func (p *parser) callonExtraListElement789() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement771()
+	return p.cur.onExtraListElement789()
 }
 
-func (c *current) onExtraListElement759(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement777(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement759() (interface{}, error) {
+func (p *parser) callonExtraListElement777() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement759(stack["delimiter"])
+	return p.cur.onExtraListElement777(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement781() (interface{}, error) {
+func (c *current) onExtraListElement799() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement781() (interface{}, error) {
+func (p *parser) callonExtraListElement799() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement781()
+	return p.cur.onExtraListElement799()
 }
 
-func (c *current) onExtraListElement787() (interface{}, error) {
+func (c *current) onExtraListElement805() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement787() (interface{}, error) {
+func (p *parser) callonExtraListElement805() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement787()
+	return p.cur.onExtraListElement805()
 }
 
-func (c *current) onExtraListElement790() (interface{}, error) {
+func (c *current) onExtraListElement808() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement790() (interface{}, error) {
+func (p *parser) callonExtraListElement808() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement790()
+	return p.cur.onExtraListElement808()
 }
 
-func (c *current) onExtraListElement778(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement796(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonExtraListElement778() (interface{}, error) {
+func (p *parser) callonExtraListElement796() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement778(stack["delimiter"])
+	return p.cur.onExtraListElement796(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement621(delimiter interface{}) (interface{}, error) {
+func (c *current) onExtraListElement639(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonExtraListElement621() (interface{}, error) {
+func (p *parser) callonExtraListElement639() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement621(stack["delimiter"])
+	return p.cur.onExtraListElement639(stack["delimiter"])
 }
 
-func (c *current) onExtraListElement798() (interface{}, error) {
+func (c *current) onExtraListElement816() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonExtraListElement798() (interface{}, error) {
+func (p *parser) callonExtraListElement816() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement798()
+	return p.cur.onExtraListElement816()
 }
 
-func (c *current) onExtraListElement802() (interface{}, error) {
+func (c *current) onExtraListElement820() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonExtraListElement802() (interface{}, error) {
+func (p *parser) callonExtraListElement820() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement802()
+	return p.cur.onExtraListElement820()
 }
 
-func (c *current) onExtraListElement492(content interface{}) (interface{}, error) {
+func (c *current) onExtraListElement504(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonExtraListElement492() (interface{}, error) {
+func (p *parser) callonExtraListElement504() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onExtraListElement492(stack["content"])
+	return p.cur.onExtraListElement504(stack["content"])
 }
 
 func (c *current) onExtraListElement1(element interface{}) (interface{}, error) {
@@ -64537,51 +64705,51 @@ func (p *parser) callonListContinuationElement117() (interface{}, error) {
 	return p.cur.onListContinuationElement117(stack["ref"], stack["description"])
 }
 
-func (c *current) onListContinuationElement157() (interface{}, error) {
+func (c *current) onListContinuationElement163() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement157() (interface{}, error) {
+func (p *parser) callonListContinuationElement163() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement157()
+	return p.cur.onListContinuationElement163()
 }
 
-func (c *current) onListContinuationElement160(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement166(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement160() (bool, error) {
+func (p *parser) callonListContinuationElement166() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement160(stack["separator"])
+	return p.cur.onListContinuationElement166(stack["separator"])
 }
 
-func (c *current) onListContinuationElement154(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement160(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement154() (interface{}, error) {
+func (p *parser) callonListContinuationElement160() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement154(stack["separator"])
+	return p.cur.onListContinuationElement160(stack["separator"])
 }
 
-func (c *current) onListContinuationElement163() (interface{}, error) {
+func (c *current) onListContinuationElement169() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement163() (interface{}, error) {
+func (p *parser) callonListContinuationElement169() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement163()
+	return p.cur.onListContinuationElement169()
 }
 
 func (c *current) onListContinuationElement150() (interface{}, error) {
@@ -64595,153 +64763,153 @@ func (p *parser) callonListContinuationElement150() (interface{}, error) {
 	return p.cur.onListContinuationElement150()
 }
 
-func (c *current) onListContinuationElement175() (interface{}, error) {
+func (c *current) onListContinuationElement181() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement175() (interface{}, error) {
+func (p *parser) callonListContinuationElement181() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement175()
+	return p.cur.onListContinuationElement181()
 }
 
-func (c *current) onListContinuationElement178(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement184(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement178() (bool, error) {
+func (p *parser) callonListContinuationElement184() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement178(stack["separator"])
+	return p.cur.onListContinuationElement184(stack["separator"])
 }
 
-func (c *current) onListContinuationElement172(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement178(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement172() (interface{}, error) {
+func (p *parser) callonListContinuationElement178() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement172(stack["separator"])
+	return p.cur.onListContinuationElement178(stack["separator"])
 }
 
-func (c *current) onListContinuationElement184() (interface{}, error) {
+func (c *current) onListContinuationElement190() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement184() (interface{}, error) {
+func (p *parser) callonListContinuationElement190() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement184()
+	return p.cur.onListContinuationElement190()
 }
 
-func (c *current) onListContinuationElement187() (interface{}, error) {
+func (c *current) onListContinuationElement193() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement187() (interface{}, error) {
+func (p *parser) callonListContinuationElement193() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement187()
+	return p.cur.onListContinuationElement193()
 }
 
-func (c *current) onListContinuationElement200() (interface{}, error) {
+func (c *current) onListContinuationElement206() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement200() (interface{}, error) {
+func (p *parser) callonListContinuationElement206() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement200()
+	return p.cur.onListContinuationElement206()
 }
 
-func (c *current) onListContinuationElement203() (interface{}, error) {
+func (c *current) onListContinuationElement209() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement203() (interface{}, error) {
+func (p *parser) callonListContinuationElement209() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement203()
+	return p.cur.onListContinuationElement209()
 }
 
-func (c *current) onListContinuationElement195() (interface{}, error) {
+func (c *current) onListContinuationElement201() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement195() (interface{}, error) {
+func (p *parser) callonListContinuationElement201() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement195()
+	return p.cur.onListContinuationElement201()
 }
 
-func (c *current) onListContinuationElement181() (interface{}, error) {
+func (c *current) onListContinuationElement187() (interface{}, error) {
 	return nil, nil
 
 }
 
-func (p *parser) callonListContinuationElement181() (interface{}, error) {
+func (p *parser) callonListContinuationElement187() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement181()
+	return p.cur.onListContinuationElement187()
 }
 
-func (c *current) onListContinuationElement212() (interface{}, error) {
+func (c *current) onListContinuationElement218() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement212() (interface{}, error) {
+func (p *parser) callonListContinuationElement218() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement212()
+	return p.cur.onListContinuationElement218()
 }
 
-func (c *current) onListContinuationElement216() (interface{}, error) {
+func (c *current) onListContinuationElement222() (interface{}, error) {
 	return types.NewRawLine(string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement216() (interface{}, error) {
+func (p *parser) callonListContinuationElement222() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement216()
+	return p.cur.onListContinuationElement222()
 }
 
-func (c *current) onListContinuationElement220() (interface{}, error) {
+func (c *current) onListContinuationElement226() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement220() (interface{}, error) {
+func (p *parser) callonListContinuationElement226() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement220()
+	return p.cur.onListContinuationElement226()
 }
 
-func (c *current) onListContinuationElement210(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement216(content interface{}) (interface{}, error) {
 	return types.NewParagraph(nil, content)
 
 }
 
-func (p *parser) callonListContinuationElement210() (interface{}, error) {
+func (p *parser) callonListContinuationElement216() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement210(stack["content"])
+	return p.cur.onListContinuationElement216(stack["content"])
 }
 
 func (c *current) onListContinuationElement147(term, separator, description interface{}) (interface{}, error) {
@@ -64755,729 +64923,729 @@ func (p *parser) callonListContinuationElement147() (interface{}, error) {
 	return p.cur.onListContinuationElement147(stack["term"], stack["separator"], stack["description"])
 }
 
-func (c *current) onListContinuationElement237() (interface{}, error) {
+func (c *current) onListContinuationElement243() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement237() (interface{}, error) {
+func (p *parser) callonListContinuationElement243() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement237()
+	return p.cur.onListContinuationElement243()
 }
 
-func (c *current) onListContinuationElement240() (interface{}, error) {
+func (c *current) onListContinuationElement246() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement240() (interface{}, error) {
+func (p *parser) callonListContinuationElement246() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement240()
+	return p.cur.onListContinuationElement246()
 }
 
-func (c *current) onListContinuationElement232() (interface{}, error) {
+func (c *current) onListContinuationElement238() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement232() (interface{}, error) {
+func (p *parser) callonListContinuationElement238() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement232()
+	return p.cur.onListContinuationElement238()
 }
 
-func (c *current) onListContinuationElement252() (interface{}, error) {
+func (c *current) onListContinuationElement258() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement252() (interface{}, error) {
+func (p *parser) callonListContinuationElement258() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement252()
+	return p.cur.onListContinuationElement258()
 }
 
-func (c *current) onListContinuationElement259() (interface{}, error) {
+func (c *current) onListContinuationElement265() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement259() (interface{}, error) {
+func (p *parser) callonListContinuationElement265() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement259()
+	return p.cur.onListContinuationElement265()
 }
 
-func (c *current) onListContinuationElement262() (interface{}, error) {
+func (c *current) onListContinuationElement268() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement262() (interface{}, error) {
+func (p *parser) callonListContinuationElement268() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement262()
+	return p.cur.onListContinuationElement268()
 }
 
-func (c *current) onListContinuationElement248(name interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement254(name interface{}) (interface{}, error) {
 	return types.NewAttributeReset(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement248() (interface{}, error) {
+func (p *parser) callonListContinuationElement254() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement248(stack["name"])
+	return p.cur.onListContinuationElement254(stack["name"])
 }
 
-func (c *current) onListContinuationElement273() (interface{}, error) {
+func (c *current) onListContinuationElement279() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement273() (interface{}, error) {
+func (p *parser) callonListContinuationElement279() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement273()
+	return p.cur.onListContinuationElement279()
 }
 
-func (c *current) onListContinuationElement280() (interface{}, error) {
+func (c *current) onListContinuationElement286() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement280() (interface{}, error) {
+func (p *parser) callonListContinuationElement286() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement280()
+	return p.cur.onListContinuationElement286()
 }
 
-func (c *current) onListContinuationElement283() (interface{}, error) {
+func (c *current) onListContinuationElement289() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement283() (interface{}, error) {
+func (p *parser) callonListContinuationElement289() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement283()
+	return p.cur.onListContinuationElement289()
 }
 
-func (c *current) onListContinuationElement269(name interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement275(name interface{}) (interface{}, error) {
 	return types.NewAttributeReset(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement269() (interface{}, error) {
+func (p *parser) callonListContinuationElement275() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement269(stack["name"])
+	return p.cur.onListContinuationElement275(stack["name"])
 }
 
-func (c *current) onListContinuationElement296() (interface{}, error) {
+func (c *current) onListContinuationElement302() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement296() (interface{}, error) {
+func (p *parser) callonListContinuationElement302() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement296()
+	return p.cur.onListContinuationElement302()
 }
 
-func (c *current) onListContinuationElement302() (interface{}, error) {
+func (c *current) onListContinuationElement308() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement302() (interface{}, error) {
+func (p *parser) callonListContinuationElement308() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement302()
+	return p.cur.onListContinuationElement308()
 }
 
-func (c *current) onListContinuationElement305() (interface{}, error) {
+func (c *current) onListContinuationElement311() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement305() (interface{}, error) {
+func (p *parser) callonListContinuationElement311() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement305()
+	return p.cur.onListContinuationElement311()
 }
 
-func (c *current) onListContinuationElement293(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement299(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement293() (interface{}, error) {
+func (p *parser) callonListContinuationElement299() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement293(stack["delimiter"])
+	return p.cur.onListContinuationElement299(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement312(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement318(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement312() (bool, error) {
+func (p *parser) callonListContinuationElement318() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement312(stack["start"])
+	return p.cur.onListContinuationElement318(stack["start"])
 }
 
-func (c *current) onListContinuationElement324() (interface{}, error) {
+func (c *current) onListContinuationElement330() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement324() (interface{}, error) {
+func (p *parser) callonListContinuationElement330() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement324()
+	return p.cur.onListContinuationElement330()
 }
 
-func (c *current) onListContinuationElement330() (interface{}, error) {
+func (c *current) onListContinuationElement336() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement330() (interface{}, error) {
+func (p *parser) callonListContinuationElement336() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement330()
+	return p.cur.onListContinuationElement336()
 }
 
-func (c *current) onListContinuationElement333() (interface{}, error) {
+func (c *current) onListContinuationElement339() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement333() (interface{}, error) {
+func (p *parser) callonListContinuationElement339() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement333()
+	return p.cur.onListContinuationElement339()
 }
 
-func (c *current) onListContinuationElement321(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement327(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement321() (interface{}, error) {
+func (p *parser) callonListContinuationElement327() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement321(stack["delimiter"])
+	return p.cur.onListContinuationElement327(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement340(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement346(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement340() (bool, error) {
+func (p *parser) callonListContinuationElement346() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement340(stack["end"])
+	return p.cur.onListContinuationElement346(stack["end"])
 }
 
-func (c *current) onListContinuationElement349() (interface{}, error) {
+func (c *current) onListContinuationElement355() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement349() (interface{}, error) {
+func (p *parser) callonListContinuationElement355() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement349()
+	return p.cur.onListContinuationElement355()
 }
 
-func (c *current) onListContinuationElement353() (interface{}, error) {
+func (c *current) onListContinuationElement359() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement353() (interface{}, error) {
+func (p *parser) callonListContinuationElement359() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement353()
+	return p.cur.onListContinuationElement359()
 }
 
-func (c *current) onListContinuationElement344(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement350(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement344() (interface{}, error) {
+func (p *parser) callonListContinuationElement350() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement344(stack["content"])
+	return p.cur.onListContinuationElement350(stack["content"])
 }
 
-func (c *current) onListContinuationElement315(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement321(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement315() (interface{}, error) {
+func (p *parser) callonListContinuationElement321() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement315(stack["line"])
+	return p.cur.onListContinuationElement321(stack["line"])
 }
 
-func (c *current) onListContinuationElement368() (interface{}, error) {
+func (c *current) onListContinuationElement374() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement368() (interface{}, error) {
+func (p *parser) callonListContinuationElement374() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement368()
+	return p.cur.onListContinuationElement374()
 }
 
-func (c *current) onListContinuationElement374() (interface{}, error) {
+func (c *current) onListContinuationElement380() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement374() (interface{}, error) {
+func (p *parser) callonListContinuationElement380() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement374()
+	return p.cur.onListContinuationElement380()
 }
 
-func (c *current) onListContinuationElement377() (interface{}, error) {
+func (c *current) onListContinuationElement383() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement377() (interface{}, error) {
+func (p *parser) callonListContinuationElement383() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement377()
+	return p.cur.onListContinuationElement383()
 }
 
-func (c *current) onListContinuationElement365(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement371(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement365() (interface{}, error) {
+func (p *parser) callonListContinuationElement371() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement365(stack["delimiter"])
+	return p.cur.onListContinuationElement371(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement384(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement390(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement384() (bool, error) {
+func (p *parser) callonListContinuationElement390() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement384(stack["end"])
+	return p.cur.onListContinuationElement390(stack["end"])
 }
 
-func (c *current) onListContinuationElement290(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement296(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Comment, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement290() (interface{}, error) {
+func (p *parser) callonListContinuationElement296() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement290(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement296(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement393() (interface{}, error) {
+func (c *current) onListContinuationElement399() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement393() (interface{}, error) {
+func (p *parser) callonListContinuationElement399() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement393()
+	return p.cur.onListContinuationElement399()
 }
 
-func (c *current) onListContinuationElement399() (interface{}, error) {
+func (c *current) onListContinuationElement405() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement399() (interface{}, error) {
+func (p *parser) callonListContinuationElement405() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement399()
+	return p.cur.onListContinuationElement405()
 }
 
-func (c *current) onListContinuationElement402() (interface{}, error) {
+func (c *current) onListContinuationElement408() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement402() (interface{}, error) {
+func (p *parser) callonListContinuationElement408() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement402()
+	return p.cur.onListContinuationElement408()
 }
 
-func (c *current) onListContinuationElement390(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement396(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement390() (interface{}, error) {
+func (p *parser) callonListContinuationElement396() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement390(stack["delimiter"])
+	return p.cur.onListContinuationElement396(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement409(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement415(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement409() (bool, error) {
+func (p *parser) callonListContinuationElement415() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement409(stack["start"])
+	return p.cur.onListContinuationElement415(stack["start"])
 }
 
-func (c *current) onListContinuationElement421() (interface{}, error) {
+func (c *current) onListContinuationElement427() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement421() (interface{}, error) {
+func (p *parser) callonListContinuationElement427() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement421()
+	return p.cur.onListContinuationElement427()
 }
 
-func (c *current) onListContinuationElement427() (interface{}, error) {
+func (c *current) onListContinuationElement433() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement427() (interface{}, error) {
+func (p *parser) callonListContinuationElement433() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement427()
+	return p.cur.onListContinuationElement433()
 }
 
-func (c *current) onListContinuationElement430() (interface{}, error) {
+func (c *current) onListContinuationElement436() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement430() (interface{}, error) {
+func (p *parser) callonListContinuationElement436() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement430()
+	return p.cur.onListContinuationElement436()
 }
 
-func (c *current) onListContinuationElement418(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement424(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement418() (interface{}, error) {
+func (p *parser) callonListContinuationElement424() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement418(stack["delimiter"])
+	return p.cur.onListContinuationElement424(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement437(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement443(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement437() (bool, error) {
+func (p *parser) callonListContinuationElement443() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement437(stack["end"])
+	return p.cur.onListContinuationElement443(stack["end"])
 }
 
-func (c *current) onListContinuationElement446() (interface{}, error) {
+func (c *current) onListContinuationElement452() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement446() (interface{}, error) {
+func (p *parser) callonListContinuationElement452() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement446()
+	return p.cur.onListContinuationElement452()
 }
 
-func (c *current) onListContinuationElement450() (interface{}, error) {
+func (c *current) onListContinuationElement456() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement450() (interface{}, error) {
+func (p *parser) callonListContinuationElement456() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement450()
+	return p.cur.onListContinuationElement456()
 }
 
-func (c *current) onListContinuationElement441(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement447(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement441() (interface{}, error) {
+func (p *parser) callonListContinuationElement447() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement441(stack["content"])
+	return p.cur.onListContinuationElement447(stack["content"])
 }
 
-func (c *current) onListContinuationElement412(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement418(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement412() (interface{}, error) {
+func (p *parser) callonListContinuationElement418() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement412(stack["line"])
+	return p.cur.onListContinuationElement418(stack["line"])
 }
 
-func (c *current) onListContinuationElement465() (interface{}, error) {
+func (c *current) onListContinuationElement471() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement465() (interface{}, error) {
+func (p *parser) callonListContinuationElement471() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement465()
+	return p.cur.onListContinuationElement471()
 }
 
-func (c *current) onListContinuationElement471() (interface{}, error) {
+func (c *current) onListContinuationElement477() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement471() (interface{}, error) {
+func (p *parser) callonListContinuationElement477() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement471()
+	return p.cur.onListContinuationElement477()
 }
 
-func (c *current) onListContinuationElement474() (interface{}, error) {
+func (c *current) onListContinuationElement480() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement474() (interface{}, error) {
+func (p *parser) callonListContinuationElement480() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement474()
+	return p.cur.onListContinuationElement480()
 }
 
-func (c *current) onListContinuationElement462(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement468(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement462() (interface{}, error) {
+func (p *parser) callonListContinuationElement468() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement462(stack["delimiter"])
+	return p.cur.onListContinuationElement468(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement481(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement487(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement481() (bool, error) {
+func (p *parser) callonListContinuationElement487() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement481(stack["end"])
+	return p.cur.onListContinuationElement487(stack["end"])
 }
 
-func (c *current) onListContinuationElement387(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement393(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Example, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement387() (interface{}, error) {
+func (p *parser) callonListContinuationElement393() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement387(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement393(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement491() (interface{}, error) {
+func (c *current) onListContinuationElement497() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement491() (interface{}, error) {
+func (p *parser) callonListContinuationElement497() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement491()
+	return p.cur.onListContinuationElement497()
 }
 
-func (c *current) onListContinuationElement495() (interface{}, error) {
+func (c *current) onListContinuationElement501() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement495() (interface{}, error) {
+func (p *parser) callonListContinuationElement501() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement495()
+	return p.cur.onListContinuationElement501()
 }
 
-func (c *current) onListContinuationElement498() (interface{}, error) {
+func (c *current) onListContinuationElement504() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement498() (interface{}, error) {
+func (p *parser) callonListContinuationElement504() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement498()
+	return p.cur.onListContinuationElement504()
 }
 
-func (c *current) onListContinuationElement487(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement493(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement487() (interface{}, error) {
+func (p *parser) callonListContinuationElement493() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement487(stack["language"])
+	return p.cur.onListContinuationElement493(stack["language"])
 }
 
-func (c *current) onListContinuationElement513() (interface{}, error) {
+func (c *current) onListContinuationElement519() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement513() (interface{}, error) {
+func (p *parser) callonListContinuationElement519() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement513()
+	return p.cur.onListContinuationElement519()
 }
 
-func (c *current) onListContinuationElement516() (interface{}, error) {
+func (c *current) onListContinuationElement522() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement516() (interface{}, error) {
+func (p *parser) callonListContinuationElement522() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement516()
+	return p.cur.onListContinuationElement522()
 }
 
-func (c *current) onListContinuationElement529() (interface{}, error) {
+func (c *current) onListContinuationElement535() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement529() (interface{}, error) {
+func (p *parser) callonListContinuationElement535() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement529()
+	return p.cur.onListContinuationElement535()
 }
 
-func (c *current) onListContinuationElement533() (interface{}, error) {
+func (c *current) onListContinuationElement539() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement533() (interface{}, error) {
+func (p *parser) callonListContinuationElement539() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement533()
+	return p.cur.onListContinuationElement539()
 }
 
-func (c *current) onListContinuationElement524(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement530(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement524() (interface{}, error) {
+func (p *parser) callonListContinuationElement530() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement524(stack["content"])
+	return p.cur.onListContinuationElement530(stack["content"])
 }
 
-func (c *current) onListContinuationElement507(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement513(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement507() (interface{}, error) {
+func (p *parser) callonListContinuationElement513() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement507(stack["line"])
+	return p.cur.onListContinuationElement513(stack["line"])
 }
 
-func (c *current) onListContinuationElement544() (interface{}, error) {
+func (c *current) onListContinuationElement550() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement544() (interface{}, error) {
+func (p *parser) callonListContinuationElement550() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement544()
+	return p.cur.onListContinuationElement550()
 }
 
-func (c *current) onListContinuationElement547() (interface{}, error) {
+func (c *current) onListContinuationElement553() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement547() (interface{}, error) {
+func (p *parser) callonListContinuationElement553() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement547()
+	return p.cur.onListContinuationElement553()
 }
 
-func (c *current) onListContinuationElement484(delimiter, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement490(delimiter, content interface{}) (interface{}, error) {
 	// Markdown code with fences is a "listing/source" block in Asciidoc
 	b, err := types.NewDelimitedBlock(types.Listing, content.([]interface{}))
 	b.AddAttributes(delimiter.(*types.BlockDelimiter).Attributes)
@@ -65485,2705 +65653,2705 @@ func (c *current) onListContinuationElement484(delimiter, content interface{}) (
 
 }
 
-func (p *parser) callonListContinuationElement484() (interface{}, error) {
+func (p *parser) callonListContinuationElement490() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement484(stack["delimiter"], stack["content"])
+	return p.cur.onListContinuationElement490(stack["delimiter"], stack["content"])
 }
 
-func (c *current) onListContinuationElement560() (interface{}, error) {
+func (c *current) onListContinuationElement566() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement560() (interface{}, error) {
+func (p *parser) callonListContinuationElement566() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement560()
+	return p.cur.onListContinuationElement566()
 }
 
-func (c *current) onListContinuationElement566() (interface{}, error) {
+func (c *current) onListContinuationElement572() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement566() (interface{}, error) {
+func (p *parser) callonListContinuationElement572() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement566()
+	return p.cur.onListContinuationElement572()
 }
 
-func (c *current) onListContinuationElement569() (interface{}, error) {
+func (c *current) onListContinuationElement575() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement569() (interface{}, error) {
+func (p *parser) callonListContinuationElement575() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement569()
+	return p.cur.onListContinuationElement575()
 }
 
-func (c *current) onListContinuationElement557(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement563(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement557() (interface{}, error) {
+func (p *parser) callonListContinuationElement563() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement557(stack["delimiter"])
+	return p.cur.onListContinuationElement563(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement576(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement582(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement576() (bool, error) {
+func (p *parser) callonListContinuationElement582() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement576(stack["start"])
+	return p.cur.onListContinuationElement582(stack["start"])
 }
 
-func (c *current) onListContinuationElement588() (interface{}, error) {
+func (c *current) onListContinuationElement594() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement588() (interface{}, error) {
+func (p *parser) callonListContinuationElement594() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement588()
+	return p.cur.onListContinuationElement594()
 }
 
-func (c *current) onListContinuationElement594() (interface{}, error) {
+func (c *current) onListContinuationElement600() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement594() (interface{}, error) {
+func (p *parser) callonListContinuationElement600() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement594()
+	return p.cur.onListContinuationElement600()
 }
 
-func (c *current) onListContinuationElement597() (interface{}, error) {
+func (c *current) onListContinuationElement603() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement597() (interface{}, error) {
+func (p *parser) callonListContinuationElement603() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement597()
+	return p.cur.onListContinuationElement603()
 }
 
-func (c *current) onListContinuationElement585(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement591(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement585() (interface{}, error) {
+func (p *parser) callonListContinuationElement591() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement585(stack["delimiter"])
+	return p.cur.onListContinuationElement591(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement604(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement610(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement604() (bool, error) {
+func (p *parser) callonListContinuationElement610() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement604(stack["end"])
+	return p.cur.onListContinuationElement610(stack["end"])
 }
 
-func (c *current) onListContinuationElement613() (interface{}, error) {
+func (c *current) onListContinuationElement619() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement613() (interface{}, error) {
+func (p *parser) callonListContinuationElement619() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement613()
+	return p.cur.onListContinuationElement619()
 }
 
-func (c *current) onListContinuationElement617() (interface{}, error) {
+func (c *current) onListContinuationElement623() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement617() (interface{}, error) {
+func (p *parser) callonListContinuationElement623() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement617()
+	return p.cur.onListContinuationElement623()
 }
 
-func (c *current) onListContinuationElement608(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement614(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement608() (interface{}, error) {
+func (p *parser) callonListContinuationElement614() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement608(stack["content"])
+	return p.cur.onListContinuationElement614(stack["content"])
 }
 
-func (c *current) onListContinuationElement579(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement585(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement579() (interface{}, error) {
+func (p *parser) callonListContinuationElement585() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement579(stack["line"])
+	return p.cur.onListContinuationElement585(stack["line"])
 }
 
-func (c *current) onListContinuationElement632() (interface{}, error) {
+func (c *current) onListContinuationElement638() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement632() (interface{}, error) {
+func (p *parser) callonListContinuationElement638() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement632()
+	return p.cur.onListContinuationElement638()
 }
 
-func (c *current) onListContinuationElement638() (interface{}, error) {
+func (c *current) onListContinuationElement644() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement638() (interface{}, error) {
+func (p *parser) callonListContinuationElement644() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement638()
+	return p.cur.onListContinuationElement644()
 }
 
-func (c *current) onListContinuationElement641() (interface{}, error) {
+func (c *current) onListContinuationElement647() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement641() (interface{}, error) {
+func (p *parser) callonListContinuationElement647() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement641()
+	return p.cur.onListContinuationElement647()
 }
 
-func (c *current) onListContinuationElement629(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement635(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement629() (interface{}, error) {
+func (p *parser) callonListContinuationElement635() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement629(stack["delimiter"])
+	return p.cur.onListContinuationElement635(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement648(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement654(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement648() (bool, error) {
+func (p *parser) callonListContinuationElement654() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement648(stack["end"])
+	return p.cur.onListContinuationElement654(stack["end"])
 }
 
-func (c *current) onListContinuationElement554(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement560(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Fenced, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement554() (interface{}, error) {
+func (p *parser) callonListContinuationElement560() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement554(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement560(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement657() (interface{}, error) {
+func (c *current) onListContinuationElement663() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement657() (interface{}, error) {
+func (p *parser) callonListContinuationElement663() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement657()
+	return p.cur.onListContinuationElement663()
 }
 
-func (c *current) onListContinuationElement663() (interface{}, error) {
+func (c *current) onListContinuationElement669() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement663() (interface{}, error) {
+func (p *parser) callonListContinuationElement669() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement663()
+	return p.cur.onListContinuationElement669()
 }
 
-func (c *current) onListContinuationElement666() (interface{}, error) {
+func (c *current) onListContinuationElement672() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement666() (interface{}, error) {
+func (p *parser) callonListContinuationElement672() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement666()
+	return p.cur.onListContinuationElement672()
 }
 
-func (c *current) onListContinuationElement654(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement660(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement654() (interface{}, error) {
+func (p *parser) callonListContinuationElement660() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement654(stack["delimiter"])
+	return p.cur.onListContinuationElement660(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement673(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement679(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement673() (bool, error) {
+func (p *parser) callonListContinuationElement679() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement673(stack["start"])
+	return p.cur.onListContinuationElement679(stack["start"])
 }
 
-func (c *current) onListContinuationElement685() (interface{}, error) {
+func (c *current) onListContinuationElement691() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement685() (interface{}, error) {
+func (p *parser) callonListContinuationElement691() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement685()
+	return p.cur.onListContinuationElement691()
 }
 
-func (c *current) onListContinuationElement691() (interface{}, error) {
+func (c *current) onListContinuationElement697() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement691() (interface{}, error) {
+func (p *parser) callonListContinuationElement697() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement691()
+	return p.cur.onListContinuationElement697()
 }
 
-func (c *current) onListContinuationElement694() (interface{}, error) {
+func (c *current) onListContinuationElement700() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement694() (interface{}, error) {
+func (p *parser) callonListContinuationElement700() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement694()
+	return p.cur.onListContinuationElement700()
 }
 
-func (c *current) onListContinuationElement682(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement688(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement682() (interface{}, error) {
+func (p *parser) callonListContinuationElement688() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement682(stack["delimiter"])
+	return p.cur.onListContinuationElement688(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement701(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement707(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement701() (bool, error) {
+func (p *parser) callonListContinuationElement707() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement701(stack["end"])
+	return p.cur.onListContinuationElement707(stack["end"])
 }
 
-func (c *current) onListContinuationElement710() (interface{}, error) {
+func (c *current) onListContinuationElement716() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement710() (interface{}, error) {
+func (p *parser) callonListContinuationElement716() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement710()
+	return p.cur.onListContinuationElement716()
 }
 
-func (c *current) onListContinuationElement714() (interface{}, error) {
+func (c *current) onListContinuationElement720() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement714() (interface{}, error) {
+func (p *parser) callonListContinuationElement720() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement714()
+	return p.cur.onListContinuationElement720()
 }
 
-func (c *current) onListContinuationElement705(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement711(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement705() (interface{}, error) {
+func (p *parser) callonListContinuationElement711() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement705(stack["content"])
+	return p.cur.onListContinuationElement711(stack["content"])
 }
 
-func (c *current) onListContinuationElement676(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement682(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement676() (interface{}, error) {
+func (p *parser) callonListContinuationElement682() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement676(stack["line"])
+	return p.cur.onListContinuationElement682(stack["line"])
 }
 
-func (c *current) onListContinuationElement729() (interface{}, error) {
+func (c *current) onListContinuationElement735() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement729() (interface{}, error) {
+func (p *parser) callonListContinuationElement735() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement729()
+	return p.cur.onListContinuationElement735()
 }
 
-func (c *current) onListContinuationElement735() (interface{}, error) {
+func (c *current) onListContinuationElement741() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement735() (interface{}, error) {
+func (p *parser) callonListContinuationElement741() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement735()
+	return p.cur.onListContinuationElement741()
 }
 
-func (c *current) onListContinuationElement738() (interface{}, error) {
+func (c *current) onListContinuationElement744() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement738() (interface{}, error) {
+func (p *parser) callonListContinuationElement744() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement738()
+	return p.cur.onListContinuationElement744()
 }
 
-func (c *current) onListContinuationElement726(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement732(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement726() (interface{}, error) {
+func (p *parser) callonListContinuationElement732() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement726(stack["delimiter"])
+	return p.cur.onListContinuationElement732(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement745(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement751(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement745() (bool, error) {
+func (p *parser) callonListContinuationElement751() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement745(stack["end"])
+	return p.cur.onListContinuationElement751(stack["end"])
 }
 
-func (c *current) onListContinuationElement651(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement657(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Listing, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement651() (interface{}, error) {
+func (p *parser) callonListContinuationElement657() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement651(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement657(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement754() (interface{}, error) {
+func (c *current) onListContinuationElement760() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement754() (interface{}, error) {
+func (p *parser) callonListContinuationElement760() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement754()
+	return p.cur.onListContinuationElement760()
 }
 
-func (c *current) onListContinuationElement760() (interface{}, error) {
+func (c *current) onListContinuationElement766() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement760() (interface{}, error) {
+func (p *parser) callonListContinuationElement766() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement760()
+	return p.cur.onListContinuationElement766()
 }
 
-func (c *current) onListContinuationElement763() (interface{}, error) {
+func (c *current) onListContinuationElement769() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement763() (interface{}, error) {
+func (p *parser) callonListContinuationElement769() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement763()
+	return p.cur.onListContinuationElement769()
 }
 
-func (c *current) onListContinuationElement751(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement757(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement751() (interface{}, error) {
+func (p *parser) callonListContinuationElement757() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement751(stack["delimiter"])
+	return p.cur.onListContinuationElement757(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement770(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement776(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement770() (bool, error) {
+func (p *parser) callonListContinuationElement776() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement770(stack["start"])
+	return p.cur.onListContinuationElement776(stack["start"])
 }
 
-func (c *current) onListContinuationElement782() (interface{}, error) {
+func (c *current) onListContinuationElement788() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement782() (interface{}, error) {
+func (p *parser) callonListContinuationElement788() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement782()
+	return p.cur.onListContinuationElement788()
 }
 
-func (c *current) onListContinuationElement788() (interface{}, error) {
+func (c *current) onListContinuationElement794() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement788() (interface{}, error) {
+func (p *parser) callonListContinuationElement794() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement788()
+	return p.cur.onListContinuationElement794()
 }
 
-func (c *current) onListContinuationElement791() (interface{}, error) {
+func (c *current) onListContinuationElement797() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement791() (interface{}, error) {
+func (p *parser) callonListContinuationElement797() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement791()
+	return p.cur.onListContinuationElement797()
 }
 
-func (c *current) onListContinuationElement779(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement785(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement779() (interface{}, error) {
+func (p *parser) callonListContinuationElement785() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement779(stack["delimiter"])
+	return p.cur.onListContinuationElement785(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement798(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement804(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement798() (bool, error) {
+func (p *parser) callonListContinuationElement804() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement798(stack["end"])
+	return p.cur.onListContinuationElement804(stack["end"])
 }
 
-func (c *current) onListContinuationElement807() (interface{}, error) {
+func (c *current) onListContinuationElement813() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement807() (interface{}, error) {
+func (p *parser) callonListContinuationElement813() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement807()
+	return p.cur.onListContinuationElement813()
 }
 
-func (c *current) onListContinuationElement811() (interface{}, error) {
+func (c *current) onListContinuationElement817() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement811() (interface{}, error) {
+func (p *parser) callonListContinuationElement817() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement811()
+	return p.cur.onListContinuationElement817()
 }
 
-func (c *current) onListContinuationElement802(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement808(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement802() (interface{}, error) {
+func (p *parser) callonListContinuationElement808() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement802(stack["content"])
+	return p.cur.onListContinuationElement808(stack["content"])
 }
 
-func (c *current) onListContinuationElement773(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement779(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement773() (interface{}, error) {
+func (p *parser) callonListContinuationElement779() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement773(stack["line"])
+	return p.cur.onListContinuationElement779(stack["line"])
 }
 
-func (c *current) onListContinuationElement826() (interface{}, error) {
+func (c *current) onListContinuationElement832() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement826() (interface{}, error) {
+func (p *parser) callonListContinuationElement832() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement826()
+	return p.cur.onListContinuationElement832()
 }
 
-func (c *current) onListContinuationElement832() (interface{}, error) {
+func (c *current) onListContinuationElement838() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement832() (interface{}, error) {
+func (p *parser) callonListContinuationElement838() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement832()
+	return p.cur.onListContinuationElement838()
 }
 
-func (c *current) onListContinuationElement835() (interface{}, error) {
+func (c *current) onListContinuationElement841() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement835() (interface{}, error) {
+func (p *parser) callonListContinuationElement841() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement835()
+	return p.cur.onListContinuationElement841()
 }
 
-func (c *current) onListContinuationElement823(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement829(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement823() (interface{}, error) {
+func (p *parser) callonListContinuationElement829() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement823(stack["delimiter"])
+	return p.cur.onListContinuationElement829(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement842(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement848(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement842() (bool, error) {
+func (p *parser) callonListContinuationElement848() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement842(stack["end"])
+	return p.cur.onListContinuationElement848(stack["end"])
 }
 
-func (c *current) onListContinuationElement748(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement754(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Literal, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement748() (interface{}, error) {
+func (p *parser) callonListContinuationElement754() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement748(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement754(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement859() (interface{}, error) {
+func (c *current) onListContinuationElement865() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement859() (interface{}, error) {
+func (p *parser) callonListContinuationElement865() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement859()
+	return p.cur.onListContinuationElement865()
 }
 
-func (c *current) onListContinuationElement863() (interface{}, error) {
+func (c *current) onListContinuationElement869() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement863() (interface{}, error) {
+func (p *parser) callonListContinuationElement869() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement863()
+	return p.cur.onListContinuationElement869()
 }
 
-func (c *current) onListContinuationElement853(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement859(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement853() (interface{}, error) {
+func (p *parser) callonListContinuationElement859() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement853(stack["content"])
+	return p.cur.onListContinuationElement859(stack["content"])
 }
 
-func (c *current) onListContinuationElement849(comment interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement855(comment interface{}) (interface{}, error) {
 	return comment, nil
 
 }
 
-func (p *parser) callonListContinuationElement849() (interface{}, error) {
+func (p *parser) callonListContinuationElement855() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement849(stack["comment"])
+	return p.cur.onListContinuationElement855(stack["comment"])
 }
 
-func (c *current) onListContinuationElement878() (interface{}, error) {
+func (c *current) onListContinuationElement884() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement878() (interface{}, error) {
+func (p *parser) callonListContinuationElement884() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement878()
+	return p.cur.onListContinuationElement884()
 }
 
-func (c *current) onListContinuationElement881() (interface{}, error) {
+func (c *current) onListContinuationElement887() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement881() (interface{}, error) {
+func (p *parser) callonListContinuationElement887() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement881()
+	return p.cur.onListContinuationElement887()
 }
 
-func (c *current) onListContinuationElement873() (interface{}, error) {
+func (c *current) onListContinuationElement879() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement873() (interface{}, error) {
+func (p *parser) callonListContinuationElement879() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement873()
+	return p.cur.onListContinuationElement879()
 }
 
-func (c *current) onListContinuationElement890() (interface{}, error) {
+func (c *current) onListContinuationElement896() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement890() (interface{}, error) {
+func (p *parser) callonListContinuationElement896() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement890()
+	return p.cur.onListContinuationElement896()
 }
 
-func (c *current) onListContinuationElement894() (interface{}, error) {
+func (c *current) onListContinuationElement900() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement894() (interface{}, error) {
+func (p *parser) callonListContinuationElement900() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement894()
+	return p.cur.onListContinuationElement900()
 }
 
-func (c *current) onListContinuationElement870(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement876(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement870() (interface{}, error) {
+func (p *parser) callonListContinuationElement876() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement870(stack["content"])
+	return p.cur.onListContinuationElement876(stack["content"])
 }
 
-func (c *current) onListContinuationElement910() (interface{}, error) {
+func (c *current) onListContinuationElement916() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement910() (interface{}, error) {
+func (p *parser) callonListContinuationElement916() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement910()
+	return p.cur.onListContinuationElement916()
 }
 
-func (c *current) onListContinuationElement914() (interface{}, error) {
+func (c *current) onListContinuationElement920() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement914() (interface{}, error) {
+func (p *parser) callonListContinuationElement920() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement914()
+	return p.cur.onListContinuationElement920()
 }
 
-func (c *current) onListContinuationElement904(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement910(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement904() (interface{}, error) {
+func (p *parser) callonListContinuationElement910() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement904(stack["content"])
+	return p.cur.onListContinuationElement910(stack["content"])
 }
 
-func (c *current) onListContinuationElement931() (interface{}, error) {
+func (c *current) onListContinuationElement937() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement931() (interface{}, error) {
+func (p *parser) callonListContinuationElement937() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement931()
+	return p.cur.onListContinuationElement937()
 }
 
-func (c *current) onListContinuationElement935() (interface{}, error) {
+func (c *current) onListContinuationElement941() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement935() (interface{}, error) {
+func (p *parser) callonListContinuationElement941() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement935()
+	return p.cur.onListContinuationElement941()
 }
 
-func (c *current) onListContinuationElement925(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement931(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement925() (interface{}, error) {
+func (p *parser) callonListContinuationElement931() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement925(stack["content"])
+	return p.cur.onListContinuationElement931(stack["content"])
 }
 
-func (c *current) onListContinuationElement921(comment interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement927(comment interface{}) (interface{}, error) {
 	return comment, nil
 
 }
 
-func (p *parser) callonListContinuationElement921() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement921(stack["comment"])
-}
-
-func (c *current) onListContinuationElement950() (interface{}, error) {
-
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonListContinuationElement950() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement950()
-}
-
-func (c *current) onListContinuationElement953() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
-}
-
-func (p *parser) callonListContinuationElement953() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement953()
-}
-
-func (c *current) onListContinuationElement945() (interface{}, error) {
-	return types.NewBlankLine()
-
-}
-
-func (p *parser) callonListContinuationElement945() (interface{}, error) {
+func (p *parser) callonListContinuationElement927() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement945()
+	return p.cur.onListContinuationElement927(stack["comment"])
 }
 
-func (c *current) onListContinuationElement962() (interface{}, error) {
+func (c *current) onListContinuationElement956() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement962() (interface{}, error) {
+func (p *parser) callonListContinuationElement956() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement962()
+	return p.cur.onListContinuationElement956()
 }
 
-func (c *current) onListContinuationElement966() (interface{}, error) {
+func (c *current) onListContinuationElement959() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement966() (interface{}, error) {
+func (p *parser) callonListContinuationElement959() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement966()
+	return p.cur.onListContinuationElement959()
 }
 
-func (c *current) onListContinuationElement942(content interface{}) (interface{}, error) {
-	return types.NewRawLine(content.(string))
+func (c *current) onListContinuationElement951() (interface{}, error) {
+	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement942() (interface{}, error) {
+func (p *parser) callonListContinuationElement951() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement942(stack["content"])
+	return p.cur.onListContinuationElement951()
 }
 
-func (c *current) onListContinuationElement976() (interface{}, error) {
+func (c *current) onListContinuationElement968() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement976() (interface{}, error) {
+func (p *parser) callonListContinuationElement968() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement976()
+	return p.cur.onListContinuationElement968()
 }
 
-func (c *current) onListContinuationElement979(content interface{}) (bool, error) {
-	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
-
-}
-
-func (p *parser) callonListContinuationElement979() (bool, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement979(stack["content"])
-}
-
-func (c *current) onListContinuationElement981() (interface{}, error) {
+func (c *current) onListContinuationElement972() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement981() (interface{}, error) {
+func (p *parser) callonListContinuationElement972() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement981()
+	return p.cur.onListContinuationElement972()
 }
 
-func (c *current) onListContinuationElement973(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement948(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement973() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement973(stack["content"])
-}
-
-func (c *current) onListContinuationElement845(firstLine, otherLines interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.MarkdownQuote, append([]interface{}{firstLine}, otherLines.([]interface{})...))
-
-}
-
-func (p *parser) callonListContinuationElement845() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement845(stack["firstLine"], stack["otherLines"])
-}
-
-func (c *current) onListContinuationElement994() (interface{}, error) {
-	// sequence of exactly "--"
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonListContinuationElement994() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement994()
-}
-
-func (c *current) onListContinuationElement997() (interface{}, error) {
-
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonListContinuationElement997() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement997()
-}
-
-func (c *current) onListContinuationElement1000() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
-}
-
-func (p *parser) callonListContinuationElement1000() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement1000()
-}
-
-func (c *current) onListContinuationElement991(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
-
-}
-
-func (p *parser) callonListContinuationElement991() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement991(stack["delimiter"])
-}
-
-func (c *current) onListContinuationElement1016() (interface{}, error) {
-	// sequence of exactly "--"
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonListContinuationElement1016() (interface{}, error) {
+func (p *parser) callonListContinuationElement948() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1016()
+	return p.cur.onListContinuationElement948(stack["content"])
 }
 
-func (c *current) onListContinuationElement1019() (interface{}, error) {
+func (c *current) onListContinuationElement982() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1019() (interface{}, error) {
+func (p *parser) callonListContinuationElement982() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1019()
-}
-
-func (c *current) onListContinuationElement1022() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
+	return p.cur.onListContinuationElement982()
 }
 
-func (p *parser) callonListContinuationElement1022() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement1022()
-}
-
-func (c *current) onListContinuationElement1013(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
-
-}
-
-func (p *parser) callonListContinuationElement1013() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement1013(stack["delimiter"])
-}
-
-func (c *current) onListContinuationElement1037() (interface{}, error) {
-
-	return string(c.text), nil
+func (c *current) onListContinuationElement985(content interface{}) (bool, error) {
+	return len(strings.TrimSpace(content.(string))) > 0, nil // stop if blank line
 
 }
 
-func (p *parser) callonListContinuationElement1037() (interface{}, error) {
+func (p *parser) callonListContinuationElement985() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1037()
+	return p.cur.onListContinuationElement985(stack["content"])
 }
 
-func (c *current) onListContinuationElement1041() (interface{}, error) {
+func (c *current) onListContinuationElement987() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1041() (interface{}, error) {
+func (p *parser) callonListContinuationElement987() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1041()
+	return p.cur.onListContinuationElement987()
 }
 
-func (c *current) onListContinuationElement1032(content interface{}) (interface{}, error) {
-
+func (c *current) onListContinuationElement979(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1032() (interface{}, error) {
+func (p *parser) callonListContinuationElement979() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1032(stack["content"])
+	return p.cur.onListContinuationElement979(stack["content"])
 }
 
-func (c *current) onListContinuationElement1009(line interface{}) (interface{}, error) {
-	return line, nil
+func (c *current) onListContinuationElement851(firstLine, otherLines interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.MarkdownQuote, append([]interface{}{firstLine}, otherLines.([]interface{})...))
 
 }
 
-func (p *parser) callonListContinuationElement1009() (interface{}, error) {
+func (p *parser) callonListContinuationElement851() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1009(stack["line"])
+	return p.cur.onListContinuationElement851(stack["firstLine"], stack["otherLines"])
 }
 
-func (c *current) onListContinuationElement1054() (interface{}, error) {
+func (c *current) onListContinuationElement1000() (interface{}, error) {
 	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1054() (interface{}, error) {
+func (p *parser) callonListContinuationElement1000() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1054()
+	return p.cur.onListContinuationElement1000()
 }
 
-func (c *current) onListContinuationElement1057() (interface{}, error) {
+func (c *current) onListContinuationElement1003() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1057() (interface{}, error) {
+func (p *parser) callonListContinuationElement1003() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1057()
+	return p.cur.onListContinuationElement1003()
 }
 
-func (c *current) onListContinuationElement1060() (interface{}, error) {
+func (c *current) onListContinuationElement1006() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1060() (interface{}, error) {
+func (p *parser) callonListContinuationElement1006() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1060()
+	return p.cur.onListContinuationElement1006()
 }
 
-func (c *current) onListContinuationElement1051(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement997(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1051() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement1051(stack["delimiter"])
-}
-
-func (c *current) onListContinuationElement988(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Open, content.([]interface{}))
-
-}
-
-func (p *parser) callonListContinuationElement988() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement988(stack["start"], stack["content"], stack["end"])
-}
-
-func (c *current) onListContinuationElement1075() (interface{}, error) {
-	// sequence of 4 "+" chars or more
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonListContinuationElement1075() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement1075()
-}
-
-func (c *current) onListContinuationElement1081() (interface{}, error) {
-
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonListContinuationElement1081() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement1081()
-}
-
-func (c *current) onListContinuationElement1084() (interface{}, error) {
-	// TODO: just use "\n"
-	return string(c.text), nil
-}
-
-func (p *parser) callonListContinuationElement1084() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement1084()
-}
-
-func (c *current) onListContinuationElement1072(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
-
-}
-
-func (p *parser) callonListContinuationElement1072() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement1072(stack["delimiter"])
-}
-
-func (c *current) onListContinuationElement1091(start interface{}) (bool, error) {
-	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
-
-}
-
-func (p *parser) callonListContinuationElement1091() (bool, error) {
+func (p *parser) callonListContinuationElement997() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1091(stack["start"])
+	return p.cur.onListContinuationElement997(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1103() (interface{}, error) {
-	// sequence of 4 "+" chars or more
+func (c *current) onListContinuationElement1022() (interface{}, error) {
+	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1103() (interface{}, error) {
+func (p *parser) callonListContinuationElement1022() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1103()
+	return p.cur.onListContinuationElement1022()
 }
 
-func (c *current) onListContinuationElement1109() (interface{}, error) {
+func (c *current) onListContinuationElement1025() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1109() (interface{}, error) {
+func (p *parser) callonListContinuationElement1025() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1109()
+	return p.cur.onListContinuationElement1025()
 }
 
-func (c *current) onListContinuationElement1112() (interface{}, error) {
+func (c *current) onListContinuationElement1028() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1112() (interface{}, error) {
+func (p *parser) callonListContinuationElement1028() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1112()
-}
-
-func (c *current) onListContinuationElement1100(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
-
+	return p.cur.onListContinuationElement1028()
 }
 
-func (p *parser) callonListContinuationElement1100() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement1100(stack["delimiter"])
-}
+func (c *current) onListContinuationElement1019(delimiter interface{}) (interface{}, error) {
 
-func (c *current) onListContinuationElement1119(end interface{}) (bool, error) {
-	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1119() (bool, error) {
+func (p *parser) callonListContinuationElement1019() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1119(stack["end"])
+	return p.cur.onListContinuationElement1019(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1128() (interface{}, error) {
+func (c *current) onListContinuationElement1043() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1128() (interface{}, error) {
+func (p *parser) callonListContinuationElement1043() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1128()
+	return p.cur.onListContinuationElement1043()
 }
 
-func (c *current) onListContinuationElement1132() (interface{}, error) {
+func (c *current) onListContinuationElement1047() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1132() (interface{}, error) {
+func (p *parser) callonListContinuationElement1047() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1132()
+	return p.cur.onListContinuationElement1047()
 }
 
-func (c *current) onListContinuationElement1123(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1038(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1123() (interface{}, error) {
+func (p *parser) callonListContinuationElement1038() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1123(stack["content"])
+	return p.cur.onListContinuationElement1038(stack["content"])
 }
 
-func (c *current) onListContinuationElement1094(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1015(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement1094() (interface{}, error) {
+func (p *parser) callonListContinuationElement1015() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1094(stack["line"])
+	return p.cur.onListContinuationElement1015(stack["line"])
 }
 
-func (c *current) onListContinuationElement1147() (interface{}, error) {
-	// sequence of 4 "+" chars or more
+func (c *current) onListContinuationElement1060() (interface{}, error) {
+	// sequence of exactly "--"
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1147() (interface{}, error) {
+func (p *parser) callonListContinuationElement1060() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1147()
+	return p.cur.onListContinuationElement1060()
 }
 
-func (c *current) onListContinuationElement1153() (interface{}, error) {
+func (c *current) onListContinuationElement1063() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1153() (interface{}, error) {
+func (p *parser) callonListContinuationElement1063() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1153()
+	return p.cur.onListContinuationElement1063()
 }
 
-func (c *current) onListContinuationElement1156() (interface{}, error) {
+func (c *current) onListContinuationElement1066() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1156() (interface{}, error) {
+func (p *parser) callonListContinuationElement1066() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1156()
+	return p.cur.onListContinuationElement1066()
 }
 
-func (c *current) onListContinuationElement1144(delimiter interface{}) (interface{}, error) {
-
-	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
-
-}
-
-func (p *parser) callonListContinuationElement1144() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onListContinuationElement1144(stack["delimiter"])
-}
+func (c *current) onListContinuationElement1057(delimiter interface{}) (interface{}, error) {
 
-func (c *current) onListContinuationElement1163(end interface{}) (bool, error) {
-	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+	return types.NewBlockDelimiter(types.Open, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1163() (bool, error) {
+func (p *parser) callonListContinuationElement1057() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1163(stack["end"])
+	return p.cur.onListContinuationElement1057(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1069(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Passthrough, content.([]interface{}))
+func (c *current) onListContinuationElement994(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Open, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1069() (interface{}, error) {
+func (p *parser) callonListContinuationElement994() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1069(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement994(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1172() (interface{}, error) {
-	// sequence of 4 "_" chars or more
+func (c *current) onListContinuationElement1081() (interface{}, error) {
+	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1172() (interface{}, error) {
+func (p *parser) callonListContinuationElement1081() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1172()
+	return p.cur.onListContinuationElement1081()
 }
 
-func (c *current) onListContinuationElement1178() (interface{}, error) {
+func (c *current) onListContinuationElement1087() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1178() (interface{}, error) {
+func (p *parser) callonListContinuationElement1087() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1178()
+	return p.cur.onListContinuationElement1087()
 }
 
-func (c *current) onListContinuationElement1181() (interface{}, error) {
+func (c *current) onListContinuationElement1090() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1181() (interface{}, error) {
+func (p *parser) callonListContinuationElement1090() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1181()
+	return p.cur.onListContinuationElement1090()
 }
 
-func (c *current) onListContinuationElement1169(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1078(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1169() (interface{}, error) {
+func (p *parser) callonListContinuationElement1078() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1169(stack["delimiter"])
+	return p.cur.onListContinuationElement1078(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1188(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement1097(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1188() (bool, error) {
+func (p *parser) callonListContinuationElement1097() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1188(stack["start"])
+	return p.cur.onListContinuationElement1097(stack["start"])
 }
 
-func (c *current) onListContinuationElement1200() (interface{}, error) {
-	// sequence of 4 "_" chars or more
+func (c *current) onListContinuationElement1109() (interface{}, error) {
+	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1200() (interface{}, error) {
+func (p *parser) callonListContinuationElement1109() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1200()
+	return p.cur.onListContinuationElement1109()
 }
 
-func (c *current) onListContinuationElement1206() (interface{}, error) {
+func (c *current) onListContinuationElement1115() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1206() (interface{}, error) {
+func (p *parser) callonListContinuationElement1115() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1206()
+	return p.cur.onListContinuationElement1115()
 }
 
-func (c *current) onListContinuationElement1209() (interface{}, error) {
+func (c *current) onListContinuationElement1118() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1209() (interface{}, error) {
+func (p *parser) callonListContinuationElement1118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1209()
+	return p.cur.onListContinuationElement1118()
 }
 
-func (c *current) onListContinuationElement1197(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1106(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1197() (interface{}, error) {
+func (p *parser) callonListContinuationElement1106() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1197(stack["delimiter"])
+	return p.cur.onListContinuationElement1106(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1216(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1125(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1216() (bool, error) {
+func (p *parser) callonListContinuationElement1125() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1216(stack["end"])
+	return p.cur.onListContinuationElement1125(stack["end"])
 }
 
-func (c *current) onListContinuationElement1225() (interface{}, error) {
+func (c *current) onListContinuationElement1134() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1225() (interface{}, error) {
+func (p *parser) callonListContinuationElement1134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1225()
+	return p.cur.onListContinuationElement1134()
 }
 
-func (c *current) onListContinuationElement1229() (interface{}, error) {
+func (c *current) onListContinuationElement1138() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1229() (interface{}, error) {
+func (p *parser) callonListContinuationElement1138() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1229()
+	return p.cur.onListContinuationElement1138()
 }
 
-func (c *current) onListContinuationElement1220(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1129(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1220() (interface{}, error) {
+func (p *parser) callonListContinuationElement1129() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1220(stack["content"])
+	return p.cur.onListContinuationElement1129(stack["content"])
 }
 
-func (c *current) onListContinuationElement1191(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1100(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement1191() (interface{}, error) {
+func (p *parser) callonListContinuationElement1100() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1191(stack["line"])
+	return p.cur.onListContinuationElement1100(stack["line"])
 }
 
-func (c *current) onListContinuationElement1244() (interface{}, error) {
-	// sequence of 4 "_" chars or more
+func (c *current) onListContinuationElement1153() (interface{}, error) {
+	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1244() (interface{}, error) {
+func (p *parser) callonListContinuationElement1153() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1244()
+	return p.cur.onListContinuationElement1153()
 }
 
-func (c *current) onListContinuationElement1250() (interface{}, error) {
+func (c *current) onListContinuationElement1159() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1250() (interface{}, error) {
+func (p *parser) callonListContinuationElement1159() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1250()
+	return p.cur.onListContinuationElement1159()
 }
 
-func (c *current) onListContinuationElement1253() (interface{}, error) {
+func (c *current) onListContinuationElement1162() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1253() (interface{}, error) {
+func (p *parser) callonListContinuationElement1162() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1253()
+	return p.cur.onListContinuationElement1162()
 }
 
-func (c *current) onListContinuationElement1241(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1150(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1241() (interface{}, error) {
+func (p *parser) callonListContinuationElement1150() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1241(stack["delimiter"])
+	return p.cur.onListContinuationElement1150(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1260(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1169(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1260() (bool, error) {
+func (p *parser) callonListContinuationElement1169() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1260(stack["end"])
+	return p.cur.onListContinuationElement1169(stack["end"])
 }
 
-func (c *current) onListContinuationElement1166(start, content, end interface{}) (interface{}, error) {
-	return types.NewDelimitedBlock(types.Quote, content.([]interface{}))
+func (c *current) onListContinuationElement1075(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Passthrough, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1166() (interface{}, error) {
+func (p *parser) callonListContinuationElement1075() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1166(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1075(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1269() (interface{}, error) {
-	// sequence of 4 "*" chars or more
+func (c *current) onListContinuationElement1178() (interface{}, error) {
+	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1269() (interface{}, error) {
+func (p *parser) callonListContinuationElement1178() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1269()
+	return p.cur.onListContinuationElement1178()
 }
 
-func (c *current) onListContinuationElement1275() (interface{}, error) {
+func (c *current) onListContinuationElement1184() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1275() (interface{}, error) {
+func (p *parser) callonListContinuationElement1184() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1275()
+	return p.cur.onListContinuationElement1184()
 }
 
-func (c *current) onListContinuationElement1278() (interface{}, error) {
+func (c *current) onListContinuationElement1187() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1278() (interface{}, error) {
+func (p *parser) callonListContinuationElement1187() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1278()
+	return p.cur.onListContinuationElement1187()
 }
 
-func (c *current) onListContinuationElement1266(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1175(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1266() (interface{}, error) {
+func (p *parser) callonListContinuationElement1175() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1266(stack["delimiter"])
+	return p.cur.onListContinuationElement1175(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1285(start interface{}) (bool, error) {
+func (c *current) onListContinuationElement1194(start interface{}) (bool, error) {
 	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1285() (bool, error) {
+func (p *parser) callonListContinuationElement1194() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1285(stack["start"])
+	return p.cur.onListContinuationElement1194(stack["start"])
 }
 
-func (c *current) onListContinuationElement1297() (interface{}, error) {
-	// sequence of 4 "*" chars or more
+func (c *current) onListContinuationElement1206() (interface{}, error) {
+	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1297() (interface{}, error) {
+func (p *parser) callonListContinuationElement1206() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1297()
+	return p.cur.onListContinuationElement1206()
 }
 
-func (c *current) onListContinuationElement1303() (interface{}, error) {
+func (c *current) onListContinuationElement1212() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1303() (interface{}, error) {
+func (p *parser) callonListContinuationElement1212() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1303()
+	return p.cur.onListContinuationElement1212()
 }
 
-func (c *current) onListContinuationElement1306() (interface{}, error) {
+func (c *current) onListContinuationElement1215() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1306() (interface{}, error) {
+func (p *parser) callonListContinuationElement1215() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1306()
+	return p.cur.onListContinuationElement1215()
 }
 
-func (c *current) onListContinuationElement1294(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1203(delimiter interface{}) (interface{}, error) {
 
-	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
+	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1294() (interface{}, error) {
+func (p *parser) callonListContinuationElement1203() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1294(stack["delimiter"])
+	return p.cur.onListContinuationElement1203(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1313(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1222(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1313() (bool, error) {
+func (p *parser) callonListContinuationElement1222() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1313(stack["end"])
+	return p.cur.onListContinuationElement1222(stack["end"])
 }
 
-func (c *current) onListContinuationElement1322() (interface{}, error) {
+func (c *current) onListContinuationElement1231() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1322() (interface{}, error) {
+func (p *parser) callonListContinuationElement1231() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1322()
+	return p.cur.onListContinuationElement1231()
 }
 
-func (c *current) onListContinuationElement1326() (interface{}, error) {
+func (c *current) onListContinuationElement1235() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1326() (interface{}, error) {
+func (p *parser) callonListContinuationElement1235() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1326()
+	return p.cur.onListContinuationElement1235()
 }
 
-func (c *current) onListContinuationElement1317(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1226(content interface{}) (interface{}, error) {
 
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1317() (interface{}, error) {
+func (p *parser) callonListContinuationElement1226() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1317(stack["content"])
+	return p.cur.onListContinuationElement1226(stack["content"])
 }
 
-func (c *current) onListContinuationElement1288(line interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1197(line interface{}) (interface{}, error) {
 	return line, nil
 
 }
 
-func (p *parser) callonListContinuationElement1288() (interface{}, error) {
+func (p *parser) callonListContinuationElement1197() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1288(stack["line"])
+	return p.cur.onListContinuationElement1197(stack["line"])
 }
 
-func (c *current) onListContinuationElement1341() (interface{}, error) {
+func (c *current) onListContinuationElement1250() (interface{}, error) {
+	// sequence of 4 "_" chars or more
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1250() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1250()
+}
+
+func (c *current) onListContinuationElement1256() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1256() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1256()
+}
+
+func (c *current) onListContinuationElement1259() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1259() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1259()
+}
+
+func (c *current) onListContinuationElement1247(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonListContinuationElement1247() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1247(stack["delimiter"])
+}
+
+func (c *current) onListContinuationElement1266(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonListContinuationElement1266() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1266(stack["end"])
+}
+
+func (c *current) onListContinuationElement1172(start, content, end interface{}) (interface{}, error) {
+	return types.NewDelimitedBlock(types.Quote, content.([]interface{}))
+
+}
+
+func (p *parser) callonListContinuationElement1172() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1172(stack["start"], stack["content"], stack["end"])
+}
+
+func (c *current) onListContinuationElement1275() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1341() (interface{}, error) {
+func (p *parser) callonListContinuationElement1275() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1341()
+	return p.cur.onListContinuationElement1275()
 }
 
-func (c *current) onListContinuationElement1347() (interface{}, error) {
+func (c *current) onListContinuationElement1281() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1281() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1281()
+}
+
+func (c *current) onListContinuationElement1284() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1284() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1284()
+}
+
+func (c *current) onListContinuationElement1272(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonListContinuationElement1272() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1272(stack["delimiter"])
+}
+
+func (c *current) onListContinuationElement1291(start interface{}) (bool, error) {
+	return c.setBlockDelimiterLength(start.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonListContinuationElement1291() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1291(stack["start"])
+}
+
+func (c *current) onListContinuationElement1303() (interface{}, error) {
+	// sequence of 4 "*" chars or more
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1303() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1303()
+}
+
+func (c *current) onListContinuationElement1309() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1309() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1309()
+}
+
+func (c *current) onListContinuationElement1312() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1312() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1312()
+}
+
+func (c *current) onListContinuationElement1300(delimiter interface{}) (interface{}, error) {
+
+	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
+
+}
+
+func (p *parser) callonListContinuationElement1300() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1300(stack["delimiter"])
+}
+
+func (c *current) onListContinuationElement1319(end interface{}) (bool, error) {
+	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
+
+}
+
+func (p *parser) callonListContinuationElement1319() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1319(stack["end"])
+}
+
+func (c *current) onListContinuationElement1328() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
+func (p *parser) callonListContinuationElement1328() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1328()
+}
+
+func (c *current) onListContinuationElement1332() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1332() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1332()
+}
+
+func (c *current) onListContinuationElement1323(content interface{}) (interface{}, error) {
+
+	return types.NewRawLine(content.(string))
+
+}
+
+func (p *parser) callonListContinuationElement1323() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1323(stack["content"])
+}
+
+func (c *current) onListContinuationElement1294(line interface{}) (interface{}, error) {
+	return line, nil
+
+}
+
+func (p *parser) callonListContinuationElement1294() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1294(stack["line"])
+}
+
+func (c *current) onListContinuationElement1347() (interface{}, error) {
+	// sequence of 4 "*" chars or more
+	return string(c.text), nil
+
+}
+
 func (p *parser) callonListContinuationElement1347() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
 	return p.cur.onListContinuationElement1347()
 }
 
-func (c *current) onListContinuationElement1350() (interface{}, error) {
+func (c *current) onListContinuationElement1353() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1353() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1353()
+}
+
+func (c *current) onListContinuationElement1356() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1350() (interface{}, error) {
+func (p *parser) callonListContinuationElement1356() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1350()
+	return p.cur.onListContinuationElement1356()
 }
 
-func (c *current) onListContinuationElement1338(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1344(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1338() (interface{}, error) {
+func (p *parser) callonListContinuationElement1344() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1338(stack["delimiter"])
+	return p.cur.onListContinuationElement1344(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1357(end interface{}) (bool, error) {
+func (c *current) onListContinuationElement1363(end interface{}) (bool, error) {
 	return c.matchBlockDelimiterLength(end.(*types.BlockDelimiter).Length)
 
 }
 
-func (p *parser) callonListContinuationElement1357() (bool, error) {
+func (p *parser) callonListContinuationElement1363() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1357(stack["end"])
+	return p.cur.onListContinuationElement1363(stack["end"])
 }
 
-func (c *current) onListContinuationElement1263(start, content, end interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1269(start, content, end interface{}) (interface{}, error) {
 	return types.NewDelimitedBlock(types.Sidebar, content.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1263() (interface{}, error) {
+func (p *parser) callonListContinuationElement1269() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1263(stack["start"], stack["content"], stack["end"])
+	return p.cur.onListContinuationElement1269(stack["start"], stack["content"], stack["end"])
 }
 
-func (c *current) onListContinuationElement1371() (interface{}, error) {
+func (c *current) onListContinuationElement1377() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1371() (interface{}, error) {
+func (p *parser) callonListContinuationElement1377() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1371()
+	return p.cur.onListContinuationElement1377()
 }
 
-func (c *current) onListContinuationElement1374() (interface{}, error) {
+func (c *current) onListContinuationElement1380() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1374() (interface{}, error) {
+func (p *parser) callonListContinuationElement1380() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1374()
+	return p.cur.onListContinuationElement1380()
 }
 
-func (c *current) onListContinuationElement1382() (interface{}, error) {
+func (c *current) onListContinuationElement1388() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1382() (interface{}, error) {
+func (p *parser) callonListContinuationElement1388() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1382()
+	return p.cur.onListContinuationElement1388()
 }
 
-func (c *current) onListContinuationElement1360() (interface{}, error) {
+func (c *current) onListContinuationElement1366() (interface{}, error) {
 
 	return types.NewThematicBreak()
 
 }
 
-func (p *parser) callonListContinuationElement1360() (interface{}, error) {
+func (p *parser) callonListContinuationElement1366() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1360()
+	return p.cur.onListContinuationElement1366()
 }
 
-func (c *current) onListContinuationElement1394() (interface{}, error) {
+func (c *current) onListContinuationElement1400() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1394() (interface{}, error) {
+func (p *parser) callonListContinuationElement1400() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1394()
+	return p.cur.onListContinuationElement1400()
 }
 
-func (c *current) onListContinuationElement1397() (interface{}, error) {
+func (c *current) onListContinuationElement1403() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1397() (interface{}, error) {
+func (p *parser) callonListContinuationElement1403() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1397()
+	return p.cur.onListContinuationElement1403()
 }
 
-func (c *current) onListContinuationElement1412() (interface{}, error) {
+func (c *current) onListContinuationElement1418() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1412() (interface{}, error) {
+func (p *parser) callonListContinuationElement1418() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1412()
+	return p.cur.onListContinuationElement1418()
 }
 
-func (c *current) onListContinuationElement1415() (interface{}, error) {
+func (c *current) onListContinuationElement1421() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1415() (interface{}, error) {
+func (p *parser) callonListContinuationElement1421() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1415()
+	return p.cur.onListContinuationElement1421()
 }
 
-func (c *current) onListContinuationElement1407() (interface{}, error) {
+func (c *current) onListContinuationElement1413() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1407() (interface{}, error) {
+func (p *parser) callonListContinuationElement1413() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1407()
+	return p.cur.onListContinuationElement1413()
 }
 
-func (c *current) onListContinuationElement1429() (interface{}, error) {
+func (c *current) onListContinuationElement1435() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1429() (interface{}, error) {
+func (p *parser) callonListContinuationElement1435() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1429()
+	return p.cur.onListContinuationElement1435()
 }
 
-func (c *current) onListContinuationElement1432() (interface{}, error) {
+func (c *current) onListContinuationElement1438() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1432() (interface{}, error) {
+func (p *parser) callonListContinuationElement1438() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1432()
+	return p.cur.onListContinuationElement1438()
 }
 
-func (c *current) onListContinuationElement1454() (interface{}, error) {
+func (c *current) onListContinuationElement1460() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1454() (interface{}, error) {
+func (p *parser) callonListContinuationElement1460() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1454()
+	return p.cur.onListContinuationElement1460()
 }
 
-func (c *current) onListContinuationElement1459() (interface{}, error) {
+func (c *current) onListContinuationElement1465() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1459() (interface{}, error) {
+func (p *parser) callonListContinuationElement1465() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1459()
+	return p.cur.onListContinuationElement1465()
 }
 
-func (c *current) onListContinuationElement1457(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1463(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1457() (interface{}, error) {
+func (p *parser) callonListContinuationElement1463() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1457(stack["content"])
+	return p.cur.onListContinuationElement1463(stack["content"])
 }
 
-func (c *current) onListContinuationElement1450(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1456(content interface{}) (interface{}, error) {
 	return types.NewInlineTableCell(content.(*types.RawLine))
 
 }
 
-func (p *parser) callonListContinuationElement1450() (interface{}, error) {
+func (p *parser) callonListContinuationElement1456() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1450(stack["content"])
+	return p.cur.onListContinuationElement1456(stack["content"])
 }
 
-func (c *current) onListContinuationElement1463() (interface{}, error) {
+func (c *current) onListContinuationElement1469() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1463() (interface{}, error) {
+func (p *parser) callonListContinuationElement1469() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1463()
+	return p.cur.onListContinuationElement1469()
 }
 
-func (c *current) onListContinuationElement1446(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1452(cells interface{}) (interface{}, error) {
 
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1446() (interface{}, error) {
+func (p *parser) callonListContinuationElement1452() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1446(stack["cells"])
+	return p.cur.onListContinuationElement1452(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1480() (interface{}, error) {
+func (c *current) onListContinuationElement1486() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1480() (interface{}, error) {
+func (p *parser) callonListContinuationElement1486() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1480()
+	return p.cur.onListContinuationElement1486()
 }
 
-func (c *current) onListContinuationElement1483() (interface{}, error) {
+func (c *current) onListContinuationElement1489() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1483() (interface{}, error) {
+func (p *parser) callonListContinuationElement1489() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1483()
+	return p.cur.onListContinuationElement1489()
 }
 
-func (c *current) onListContinuationElement1498() (interface{}, error) {
+func (c *current) onListContinuationElement1504() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1498() (interface{}, error) {
+func (p *parser) callonListContinuationElement1504() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1498()
+	return p.cur.onListContinuationElement1504()
 }
 
-func (c *current) onListContinuationElement1501() (interface{}, error) {
+func (c *current) onListContinuationElement1507() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1501() (interface{}, error) {
+func (p *parser) callonListContinuationElement1507() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1501()
+	return p.cur.onListContinuationElement1507()
 }
 
-func (c *current) onListContinuationElement1493() (interface{}, error) {
+func (c *current) onListContinuationElement1499() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1493() (interface{}, error) {
+func (p *parser) callonListContinuationElement1499() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1493()
+	return p.cur.onListContinuationElement1499()
 }
 
-func (c *current) onListContinuationElement1510() (interface{}, error) {
+func (c *current) onListContinuationElement1516() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1510() (interface{}, error) {
+func (p *parser) callonListContinuationElement1516() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1510()
+	return p.cur.onListContinuationElement1516()
 }
 
-func (c *current) onListContinuationElement1515() (interface{}, error) {
+func (c *current) onListContinuationElement1521() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1515() (interface{}, error) {
+func (p *parser) callonListContinuationElement1521() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1515()
+	return p.cur.onListContinuationElement1521()
 }
 
-func (c *current) onListContinuationElement1519() (interface{}, error) {
+func (c *current) onListContinuationElement1525() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1519() (interface{}, error) {
+func (p *parser) callonListContinuationElement1525() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1519()
+	return p.cur.onListContinuationElement1525()
 }
 
-func (c *current) onListContinuationElement1531() (interface{}, error) {
+func (c *current) onListContinuationElement1537() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1531() (interface{}, error) {
+func (p *parser) callonListContinuationElement1537() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1531()
+	return p.cur.onListContinuationElement1537()
 }
 
-func (c *current) onListContinuationElement1535() (interface{}, error) {
+func (c *current) onListContinuationElement1541() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1535() (interface{}, error) {
+func (p *parser) callonListContinuationElement1541() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1535()
+	return p.cur.onListContinuationElement1541()
 }
 
-func (c *current) onListContinuationElement1525(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1531(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1525() (interface{}, error) {
+func (p *parser) callonListContinuationElement1531() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1525(stack["content"])
+	return p.cur.onListContinuationElement1531(stack["content"])
 }
 
-func (c *current) onListContinuationElement1551() (interface{}, error) {
+func (c *current) onListContinuationElement1557() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1551() (interface{}, error) {
+func (p *parser) callonListContinuationElement1557() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1551()
+	return p.cur.onListContinuationElement1557()
 }
 
-func (c *current) onListContinuationElement1554() (interface{}, error) {
+func (c *current) onListContinuationElement1560() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1554() (interface{}, error) {
+func (p *parser) callonListContinuationElement1560() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1554()
+	return p.cur.onListContinuationElement1560()
 }
 
-func (c *current) onListContinuationElement1569() (interface{}, error) {
+func (c *current) onListContinuationElement1575() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1569() (interface{}, error) {
+func (p *parser) callonListContinuationElement1575() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1569()
+	return p.cur.onListContinuationElement1575()
 }
 
-func (c *current) onListContinuationElement1572() (interface{}, error) {
+func (c *current) onListContinuationElement1578() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1572() (interface{}, error) {
+func (p *parser) callonListContinuationElement1578() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1572()
+	return p.cur.onListContinuationElement1578()
 }
 
-func (c *current) onListContinuationElement1564() (interface{}, error) {
+func (c *current) onListContinuationElement1570() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1564() (interface{}, error) {
+func (p *parser) callonListContinuationElement1570() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1564()
+	return p.cur.onListContinuationElement1570()
 }
 
-func (c *current) onListContinuationElement1583() (interface{}, error) {
+func (c *current) onListContinuationElement1589() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1583() (interface{}, error) {
+func (p *parser) callonListContinuationElement1589() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1583()
+	return p.cur.onListContinuationElement1589()
 }
 
-func (c *current) onListContinuationElement1588() (interface{}, error) {
+func (c *current) onListContinuationElement1594() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1588() (interface{}, error) {
+func (p *parser) callonListContinuationElement1594() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1588()
+	return p.cur.onListContinuationElement1594()
 }
 
-func (c *current) onListContinuationElement1594() (interface{}, error) {
+func (c *current) onListContinuationElement1600() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1594() (interface{}, error) {
+func (p *parser) callonListContinuationElement1600() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1594()
+	return p.cur.onListContinuationElement1600()
 }
 
-func (c *current) onListContinuationElement1608() (interface{}, error) {
+func (c *current) onListContinuationElement1614() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1608() (interface{}, error) {
+func (p *parser) callonListContinuationElement1614() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1608()
+	return p.cur.onListContinuationElement1614()
 }
 
-func (c *current) onListContinuationElement1612() (interface{}, error) {
+func (c *current) onListContinuationElement1618() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1612() (interface{}, error) {
+func (p *parser) callonListContinuationElement1618() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1612()
+	return p.cur.onListContinuationElement1618()
 }
 
-func (c *current) onListContinuationElement1602(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1608(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1602() (interface{}, error) {
+func (p *parser) callonListContinuationElement1608() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1602(stack["content"])
+	return p.cur.onListContinuationElement1608(stack["content"])
 }
 
-func (c *current) onListContinuationElement1544(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1550(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1544() (interface{}, error) {
+func (p *parser) callonListContinuationElement1550() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1544(stack["content"])
+	return p.cur.onListContinuationElement1550(stack["content"])
 }
 
-func (c *current) onListContinuationElement1473(format, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1479(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonListContinuationElement1473() (interface{}, error) {
+func (p *parser) callonListContinuationElement1479() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1473(stack["format"], stack["content"])
+	return p.cur.onListContinuationElement1479(stack["format"], stack["content"])
 }
 
-func (c *current) onListContinuationElement1470(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1476(cells interface{}) (interface{}, error) {
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1470() (interface{}, error) {
+func (p *parser) callonListContinuationElement1476() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1470(stack["cells"])
+	return p.cur.onListContinuationElement1476(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1443(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1449(cells interface{}) (interface{}, error) {
 	return types.NewTableRow(cells.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1443() (interface{}, error) {
+func (p *parser) callonListContinuationElement1449() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1443(stack["cells"])
+	return p.cur.onListContinuationElement1449(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1624() (interface{}, error) {
+func (c *current) onListContinuationElement1630() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1624() (interface{}, error) {
+func (p *parser) callonListContinuationElement1630() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1624()
+	return p.cur.onListContinuationElement1630()
 }
 
-func (c *current) onListContinuationElement1627() (interface{}, error) {
+func (c *current) onListContinuationElement1633() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1627() (interface{}, error) {
+func (p *parser) callonListContinuationElement1633() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1627()
+	return p.cur.onListContinuationElement1633()
 }
 
-func (c *current) onListContinuationElement1619() (interface{}, error) {
+func (c *current) onListContinuationElement1625() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1619() (interface{}, error) {
+func (p *parser) callonListContinuationElement1625() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1619()
+	return p.cur.onListContinuationElement1625()
 }
 
-func (c *current) onListContinuationElement1422(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1428(content interface{}) (interface{}, error) {
 	return content, nil
 
 }
 
-func (p *parser) callonListContinuationElement1422() (interface{}, error) {
+func (p *parser) callonListContinuationElement1428() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1422(stack["content"])
+	return p.cur.onListContinuationElement1428(stack["content"])
 }
 
-func (c *current) onListContinuationElement1638() (interface{}, error) {
+func (c *current) onListContinuationElement1644() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1638() (interface{}, error) {
+func (p *parser) callonListContinuationElement1644() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1638()
+	return p.cur.onListContinuationElement1644()
 }
 
-func (c *current) onListContinuationElement1641() (interface{}, error) {
+func (c *current) onListContinuationElement1647() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1641() (interface{}, error) {
+func (p *parser) callonListContinuationElement1647() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1641()
+	return p.cur.onListContinuationElement1647()
 }
 
-func (c *current) onListContinuationElement1390(lines interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1396(lines interface{}) (interface{}, error) {
 	return types.NewTable(lines.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1390() (interface{}, error) {
+func (p *parser) callonListContinuationElement1396() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1390(stack["lines"])
+	return p.cur.onListContinuationElement1396(stack["lines"])
 }
 
-func (c *current) onListContinuationElement1656() (interface{}, error) {
+func (c *current) onListContinuationElement1662() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1656() (interface{}, error) {
+func (p *parser) callonListContinuationElement1662() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1656()
+	return p.cur.onListContinuationElement1662()
 }
 
-func (c *current) onListContinuationElement1660() (interface{}, error) {
+func (c *current) onListContinuationElement1666() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1660() (interface{}, error) {
+func (p *parser) callonListContinuationElement1666() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1660()
+	return p.cur.onListContinuationElement1666()
 }
 
-func (c *current) onListContinuationElement1650(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1656(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1650() (interface{}, error) {
+func (p *parser) callonListContinuationElement1656() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1650(stack["content"])
+	return p.cur.onListContinuationElement1656(stack["content"])
 }
 
-func (c *current) onListContinuationElement1673() (bool, error) {
+func (c *current) onListContinuationElement1679() (bool, error) {
 	return !c.isWithinLiteralParagraph(), nil
 
 }
 
-func (p *parser) callonListContinuationElement1673() (bool, error) {
+func (p *parser) callonListContinuationElement1679() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1673()
+	return p.cur.onListContinuationElement1679()
 }
 
-func (c *current) onListContinuationElement1676() (interface{}, error) {
+func (c *current) onListContinuationElement1682() (interface{}, error) {
 	return types.Tip, nil
 
 }
 
-func (p *parser) callonListContinuationElement1676() (interface{}, error) {
+func (p *parser) callonListContinuationElement1682() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1676()
+	return p.cur.onListContinuationElement1682()
 }
 
-func (c *current) onListContinuationElement1678() (interface{}, error) {
+func (c *current) onListContinuationElement1684() (interface{}, error) {
 	return types.Note, nil
 
 }
 
-func (p *parser) callonListContinuationElement1678() (interface{}, error) {
+func (p *parser) callonListContinuationElement1684() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1678()
+	return p.cur.onListContinuationElement1684()
 }
 
-func (c *current) onListContinuationElement1680() (interface{}, error) {
+func (c *current) onListContinuationElement1686() (interface{}, error) {
 	return types.Important, nil
 
 }
 
-func (p *parser) callonListContinuationElement1680() (interface{}, error) {
+func (p *parser) callonListContinuationElement1686() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1680()
+	return p.cur.onListContinuationElement1686()
 }
 
-func (c *current) onListContinuationElement1682() (interface{}, error) {
+func (c *current) onListContinuationElement1688() (interface{}, error) {
 	return types.Warning, nil
 
 }
 
-func (p *parser) callonListContinuationElement1682() (interface{}, error) {
+func (p *parser) callonListContinuationElement1688() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1682()
+	return p.cur.onListContinuationElement1688()
 }
 
-func (c *current) onListContinuationElement1684() (interface{}, error) {
+func (c *current) onListContinuationElement1690() (interface{}, error) {
 	return types.Caution, nil
 
 }
 
-func (p *parser) callonListContinuationElement1684() (interface{}, error) {
+func (p *parser) callonListContinuationElement1690() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1684()
+	return p.cur.onListContinuationElement1690()
 }
 
-func (c *current) onListContinuationElement1688() (interface{}, error) {
+func (c *current) onListContinuationElement1694() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1688() (interface{}, error) {
+func (p *parser) callonListContinuationElement1694() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1688()
+	return p.cur.onListContinuationElement1694()
 }
 
-func (c *current) onListContinuationElement1686() (interface{}, error) {
+func (c *current) onListContinuationElement1692() (interface{}, error) {
 	// check
 	return types.LiteralParagraph, nil
 
 }
 
-func (p *parser) callonListContinuationElement1686() (interface{}, error) {
+func (p *parser) callonListContinuationElement1692() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1686()
+	return p.cur.onListContinuationElement1692()
 }
 
-func (c *current) onListContinuationElement1671(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1677(style interface{}) (interface{}, error) {
 	return style, nil
 
 }
 
-func (p *parser) callonListContinuationElement1671() (interface{}, error) {
+func (p *parser) callonListContinuationElement1677() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1671(stack["style"])
+	return p.cur.onListContinuationElement1677(stack["style"])
 }
 
-func (c *current) onListContinuationElement1700() (interface{}, error) {
+func (c *current) onListContinuationElement1706() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1700() (interface{}, error) {
+func (p *parser) callonListContinuationElement1706() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1700()
+	return p.cur.onListContinuationElement1706()
 }
 
-func (c *current) onListContinuationElement1703() (interface{}, error) {
+func (c *current) onListContinuationElement1709() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1703() (interface{}, error) {
+func (p *parser) callonListContinuationElement1709() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1703()
+	return p.cur.onListContinuationElement1709()
 }
 
-func (c *current) onListContinuationElement1695() (interface{}, error) {
+func (c *current) onListContinuationElement1701() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1695() (interface{}, error) {
+func (p *parser) callonListContinuationElement1701() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1695()
+	return p.cur.onListContinuationElement1701()
 }
 
-func (c *current) onListContinuationElement1714() (interface{}, error) {
+func (c *current) onListContinuationElement1720() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1714() (interface{}, error) {
+func (p *parser) callonListContinuationElement1720() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1714()
+	return p.cur.onListContinuationElement1720()
 }
 
-func (c *current) onListContinuationElement1716() (interface{}, error) {
+func (c *current) onListContinuationElement1722() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1716() (interface{}, error) {
+func (p *parser) callonListContinuationElement1722() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1716()
+	return p.cur.onListContinuationElement1722()
 }
 
-func (c *current) onListContinuationElement1725() (interface{}, error) {
+func (c *current) onListContinuationElement1731() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1725() (interface{}, error) {
+func (p *parser) callonListContinuationElement1731() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1725()
+	return p.cur.onListContinuationElement1731()
 }
 
-func (c *current) onListContinuationElement1732() (interface{}, error) {
+func (c *current) onListContinuationElement1738() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonListContinuationElement1732() (interface{}, error) {
+func (p *parser) callonListContinuationElement1738() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1732()
+	return p.cur.onListContinuationElement1738()
 }
 
-func (c *current) onListContinuationElement1735(depth interface{}) (bool, error) {
+func (c *current) onListContinuationElement1741(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1735() (bool, error) {
+func (p *parser) callonListContinuationElement1741() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1735(stack["depth"])
+	return p.cur.onListContinuationElement1741(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1729(depth interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1735(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -68199,756 +68367,756 @@ func (c *current) onListContinuationElement1729(depth interface{}) (interface{},
 
 }
 
-func (p *parser) callonListContinuationElement1729() (interface{}, error) {
+func (p *parser) callonListContinuationElement1735() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1729(stack["depth"])
+	return p.cur.onListContinuationElement1735(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1736() (interface{}, error) {
+func (c *current) onListContinuationElement1742() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonListContinuationElement1736() (interface{}, error) {
+func (p *parser) callonListContinuationElement1742() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1736()
+	return p.cur.onListContinuationElement1742()
 }
 
-func (c *current) onListContinuationElement1741() (interface{}, error) {
+func (c *current) onListContinuationElement1747() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1741() (interface{}, error) {
+func (p *parser) callonListContinuationElement1747() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1741()
+	return p.cur.onListContinuationElement1747()
 }
 
-func (c *current) onListContinuationElement1745() (interface{}, error) {
+func (c *current) onListContinuationElement1751() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1745() (interface{}, error) {
+func (p *parser) callonListContinuationElement1751() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1745()
+	return p.cur.onListContinuationElement1751()
 }
 
-func (c *current) onListContinuationElement1749() (interface{}, error) {
+func (c *current) onListContinuationElement1755() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1749() (interface{}, error) {
+func (p *parser) callonListContinuationElement1755() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1749()
+	return p.cur.onListContinuationElement1755()
 }
 
-func (c *current) onListContinuationElement1754() (interface{}, error) {
+func (c *current) onListContinuationElement1760() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1754() (interface{}, error) {
+func (p *parser) callonListContinuationElement1760() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1754()
+	return p.cur.onListContinuationElement1760()
 }
 
-func (c *current) onListContinuationElement1759(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1765(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1759() (interface{}, error) {
+func (p *parser) callonListContinuationElement1765() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1759(stack["prefix"])
+	return p.cur.onListContinuationElement1765(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1722(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1728(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonListContinuationElement1722() (interface{}, error) {
+func (p *parser) callonListContinuationElement1728() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1722(stack["prefix"])
+	return p.cur.onListContinuationElement1728(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1766() (interface{}, error) {
+func (c *current) onListContinuationElement1772() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1766() (interface{}, error) {
+func (p *parser) callonListContinuationElement1772() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1766()
+	return p.cur.onListContinuationElement1772()
 }
 
-func (c *current) onListContinuationElement1769() (interface{}, error) {
+func (c *current) onListContinuationElement1775() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1769() (interface{}, error) {
+func (p *parser) callonListContinuationElement1775() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1769()
+	return p.cur.onListContinuationElement1775()
 }
 
-func (c *current) onListContinuationElement1774(style interface{}) (bool, error) {
+func (c *current) onListContinuationElement1780(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1774() (bool, error) {
+func (p *parser) callonListContinuationElement1780() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1774(stack["style"])
+	return p.cur.onListContinuationElement1780(stack["style"])
 }
 
-func (c *current) onListContinuationElement1775(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1781(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1775() (interface{}, error) {
+func (p *parser) callonListContinuationElement1781() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1775(stack["style"])
+	return p.cur.onListContinuationElement1781(stack["style"])
 }
 
-func (c *current) onListContinuationElement1763(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1769(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1763() (interface{}, error) {
+func (p *parser) callonListContinuationElement1769() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1763(stack["style"])
+	return p.cur.onListContinuationElement1769(stack["style"])
 }
 
-func (c *current) onListContinuationElement1783() (interface{}, error) {
+func (c *current) onListContinuationElement1789() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1783() (interface{}, error) {
+func (p *parser) callonListContinuationElement1789() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1783()
+	return p.cur.onListContinuationElement1789()
 }
 
-func (c *current) onListContinuationElement1787(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1793(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1787() (interface{}, error) {
+func (p *parser) callonListContinuationElement1793() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1787(stack["ref"])
+	return p.cur.onListContinuationElement1793(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1779(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1785(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonListContinuationElement1779() (interface{}, error) {
+func (p *parser) callonListContinuationElement1785() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1779(stack["ref"])
+	return p.cur.onListContinuationElement1785(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1799() (interface{}, error) {
+func (c *current) onListContinuationElement1811() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1799() (interface{}, error) {
+func (p *parser) callonListContinuationElement1811() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1799()
+	return p.cur.onListContinuationElement1811()
 }
 
-func (c *current) onListContinuationElement1802(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1814(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1802() (bool, error) {
+func (p *parser) callonListContinuationElement1814() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1802(stack["separator"])
+	return p.cur.onListContinuationElement1814(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1796(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1808(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1796() (interface{}, error) {
+func (p *parser) callonListContinuationElement1808() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1796(stack["separator"])
+	return p.cur.onListContinuationElement1808(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1805() (interface{}, error) {
+func (c *current) onListContinuationElement1817() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1805() (interface{}, error) {
+func (p *parser) callonListContinuationElement1817() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1805()
+	return p.cur.onListContinuationElement1817()
 }
 
-func (c *current) onListContinuationElement1792() (interface{}, error) {
+func (c *current) onListContinuationElement1798() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonListContinuationElement1792() (interface{}, error) {
+func (p *parser) callonListContinuationElement1798() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1792()
+	return p.cur.onListContinuationElement1798()
 }
 
-func (c *current) onListContinuationElement1816() (interface{}, error) {
+func (c *current) onListContinuationElement1828() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1816() (interface{}, error) {
+func (p *parser) callonListContinuationElement1828() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1816()
+	return p.cur.onListContinuationElement1828()
 }
 
-func (c *current) onListContinuationElement1819(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1831(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1819() (bool, error) {
+func (p *parser) callonListContinuationElement1831() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1819(stack["separator"])
+	return p.cur.onListContinuationElement1831(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1813(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1825(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1813() (interface{}, error) {
+func (p *parser) callonListContinuationElement1825() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1813(stack["separator"])
+	return p.cur.onListContinuationElement1825(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1830() (interface{}, error) {
+func (c *current) onListContinuationElement1842() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1830() (interface{}, error) {
+func (p *parser) callonListContinuationElement1842() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1830()
+	return p.cur.onListContinuationElement1842()
 }
 
-func (c *current) onListContinuationElement1836() (interface{}, error) {
+func (c *current) onListContinuationElement1848() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1836() (interface{}, error) {
+func (p *parser) callonListContinuationElement1848() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1836()
+	return p.cur.onListContinuationElement1848()
 }
 
-func (c *current) onListContinuationElement1839() (interface{}, error) {
+func (c *current) onListContinuationElement1851() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1839() (interface{}, error) {
+func (p *parser) callonListContinuationElement1851() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1839()
+	return p.cur.onListContinuationElement1851()
 }
 
-func (c *current) onListContinuationElement1827(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1839(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1827() (interface{}, error) {
+func (p *parser) callonListContinuationElement1839() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1827(stack["delimiter"])
+	return p.cur.onListContinuationElement1839(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1849() (interface{}, error) {
+func (c *current) onListContinuationElement1861() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1849() (interface{}, error) {
+func (p *parser) callonListContinuationElement1861() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1849()
+	return p.cur.onListContinuationElement1861()
 }
 
-func (c *current) onListContinuationElement1855() (interface{}, error) {
+func (c *current) onListContinuationElement1867() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1855() (interface{}, error) {
+func (p *parser) callonListContinuationElement1867() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1855()
+	return p.cur.onListContinuationElement1867()
 }
 
-func (c *current) onListContinuationElement1858() (interface{}, error) {
+func (c *current) onListContinuationElement1870() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1858() (interface{}, error) {
+func (p *parser) callonListContinuationElement1870() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1858()
+	return p.cur.onListContinuationElement1870()
 }
 
-func (c *current) onListContinuationElement1846(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1858(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1846() (interface{}, error) {
+func (p *parser) callonListContinuationElement1858() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1846(stack["delimiter"])
+	return p.cur.onListContinuationElement1858(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1869() (interface{}, error) {
+func (c *current) onListContinuationElement1881() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1869() (interface{}, error) {
+func (p *parser) callonListContinuationElement1881() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1869()
+	return p.cur.onListContinuationElement1881()
 }
 
-func (c *current) onListContinuationElement1873() (interface{}, error) {
+func (c *current) onListContinuationElement1885() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1873() (interface{}, error) {
+func (p *parser) callonListContinuationElement1885() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1873()
+	return p.cur.onListContinuationElement1885()
 }
 
-func (c *current) onListContinuationElement1876() (interface{}, error) {
+func (c *current) onListContinuationElement1888() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1876() (interface{}, error) {
+func (p *parser) callonListContinuationElement1888() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1876()
+	return p.cur.onListContinuationElement1888()
 }
 
-func (c *current) onListContinuationElement1865(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1877(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1865() (interface{}, error) {
+func (p *parser) callonListContinuationElement1877() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1865(stack["language"])
+	return p.cur.onListContinuationElement1877(stack["language"])
 }
 
-func (c *current) onListContinuationElement1886() (interface{}, error) {
+func (c *current) onListContinuationElement1898() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1886() (interface{}, error) {
+func (p *parser) callonListContinuationElement1898() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1886()
+	return p.cur.onListContinuationElement1898()
 }
 
-func (c *current) onListContinuationElement1892() (interface{}, error) {
+func (c *current) onListContinuationElement1904() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1892() (interface{}, error) {
+func (p *parser) callonListContinuationElement1904() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1892()
+	return p.cur.onListContinuationElement1904()
 }
 
-func (c *current) onListContinuationElement1895() (interface{}, error) {
+func (c *current) onListContinuationElement1907() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1895() (interface{}, error) {
+func (p *parser) callonListContinuationElement1907() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1895()
+	return p.cur.onListContinuationElement1907()
 }
 
-func (c *current) onListContinuationElement1883(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1895(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1883() (interface{}, error) {
+func (p *parser) callonListContinuationElement1895() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1883(stack["delimiter"])
+	return p.cur.onListContinuationElement1895(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1905() (interface{}, error) {
+func (c *current) onListContinuationElement1917() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1905() (interface{}, error) {
+func (p *parser) callonListContinuationElement1917() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1905()
+	return p.cur.onListContinuationElement1917()
 }
 
-func (c *current) onListContinuationElement1911() (interface{}, error) {
+func (c *current) onListContinuationElement1923() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1911() (interface{}, error) {
+func (p *parser) callonListContinuationElement1923() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1911()
+	return p.cur.onListContinuationElement1923()
 }
 
-func (c *current) onListContinuationElement1914() (interface{}, error) {
+func (c *current) onListContinuationElement1926() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1914() (interface{}, error) {
+func (p *parser) callonListContinuationElement1926() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1914()
+	return p.cur.onListContinuationElement1926()
 }
 
-func (c *current) onListContinuationElement1902(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1914(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1902() (interface{}, error) {
+func (p *parser) callonListContinuationElement1914() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1902(stack["delimiter"])
+	return p.cur.onListContinuationElement1914(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1924() (interface{}, error) {
+func (c *current) onListContinuationElement1936() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1924() (interface{}, error) {
+func (p *parser) callonListContinuationElement1936() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1924()
+	return p.cur.onListContinuationElement1936()
 }
 
-func (c *current) onListContinuationElement1930() (interface{}, error) {
+func (c *current) onListContinuationElement1942() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1930() (interface{}, error) {
+func (p *parser) callonListContinuationElement1942() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1930()
+	return p.cur.onListContinuationElement1942()
 }
 
-func (c *current) onListContinuationElement1933() (interface{}, error) {
+func (c *current) onListContinuationElement1945() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1933() (interface{}, error) {
+func (p *parser) callonListContinuationElement1945() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1933()
+	return p.cur.onListContinuationElement1945()
 }
 
-func (c *current) onListContinuationElement1921(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1933(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1921() (interface{}, error) {
+func (p *parser) callonListContinuationElement1933() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1921(stack["delimiter"])
+	return p.cur.onListContinuationElement1933(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1943() (interface{}, error) {
+func (c *current) onListContinuationElement1955() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1943() (interface{}, error) {
+func (p *parser) callonListContinuationElement1955() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1943()
+	return p.cur.onListContinuationElement1955()
 }
 
-func (c *current) onListContinuationElement1949() (interface{}, error) {
+func (c *current) onListContinuationElement1961() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1949() (interface{}, error) {
+func (p *parser) callonListContinuationElement1961() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1949()
+	return p.cur.onListContinuationElement1961()
 }
 
-func (c *current) onListContinuationElement1952() (interface{}, error) {
+func (c *current) onListContinuationElement1964() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1952() (interface{}, error) {
+func (p *parser) callonListContinuationElement1964() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1952()
+	return p.cur.onListContinuationElement1964()
 }
 
-func (c *current) onListContinuationElement1940(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1952(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1940() (interface{}, error) {
+func (p *parser) callonListContinuationElement1952() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1940(stack["delimiter"])
+	return p.cur.onListContinuationElement1952(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1962() (interface{}, error) {
+func (c *current) onListContinuationElement1974() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1962() (interface{}, error) {
+func (p *parser) callonListContinuationElement1974() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1962()
+	return p.cur.onListContinuationElement1974()
 }
 
-func (c *current) onListContinuationElement1968() (interface{}, error) {
+func (c *current) onListContinuationElement1980() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1968() (interface{}, error) {
+func (p *parser) callonListContinuationElement1980() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1968()
+	return p.cur.onListContinuationElement1980()
 }
 
-func (c *current) onListContinuationElement1971() (interface{}, error) {
+func (c *current) onListContinuationElement1983() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1971() (interface{}, error) {
+func (p *parser) callonListContinuationElement1983() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1971()
+	return p.cur.onListContinuationElement1983()
 }
 
-func (c *current) onListContinuationElement1959(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1971(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1959() (interface{}, error) {
+func (p *parser) callonListContinuationElement1971() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1959(stack["delimiter"])
+	return p.cur.onListContinuationElement1971(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1981() (interface{}, error) {
+func (c *current) onListContinuationElement1993() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1981() (interface{}, error) {
+func (p *parser) callonListContinuationElement1993() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1981()
+	return p.cur.onListContinuationElement1993()
 }
 
-func (c *current) onListContinuationElement1987() (interface{}, error) {
+func (c *current) onListContinuationElement1999() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1987() (interface{}, error) {
+func (p *parser) callonListContinuationElement1999() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1987()
+	return p.cur.onListContinuationElement1999()
 }
 
-func (c *current) onListContinuationElement1990() (interface{}, error) {
+func (c *current) onListContinuationElement2002() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1990() (interface{}, error) {
+func (p *parser) callonListContinuationElement2002() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1990()
+	return p.cur.onListContinuationElement2002()
 }
 
-func (c *current) onListContinuationElement1978(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1990(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1978() (interface{}, error) {
+func (p *parser) callonListContinuationElement1990() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1978(stack["delimiter"])
+	return p.cur.onListContinuationElement1990(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1821(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1833(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1821() (interface{}, error) {
+func (p *parser) callonListContinuationElement1833() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1821(stack["delimiter"])
+	return p.cur.onListContinuationElement1833(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1998() (interface{}, error) {
+func (c *current) onListContinuationElement2010() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1998() (interface{}, error) {
+func (p *parser) callonListContinuationElement2010() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1998()
+	return p.cur.onListContinuationElement2010()
 }
 
-func (c *current) onListContinuationElement2002() (interface{}, error) {
+func (c *current) onListContinuationElement2014() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement2002() (interface{}, error) {
+func (p *parser) callonListContinuationElement2014() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement2002()
+	return p.cur.onListContinuationElement2014()
 }
 
-func (c *current) onListContinuationElement1692(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1698(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1692() (interface{}, error) {
+func (p *parser) callonListContinuationElement1698() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1692(stack["content"])
+	return p.cur.onListContinuationElement1698(stack["content"])
 }
 
-func (c *current) onListContinuationElement1667(style, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1673(style, content interface{}) (interface{}, error) {
 	return types.NewParagraph(style, content)
 
 }
 
-func (p *parser) callonListContinuationElement1667() (interface{}, error) {
+func (p *parser) callonListContinuationElement1673() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1667(stack["style"], stack["content"])
+	return p.cur.onListContinuationElement1673(stack["style"], stack["content"])
 }
 
 func (c *current) onListContinuationElement1(attributes, element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 8b7fc5b..7852288 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1671,6 +1671,7 @@ LabeledListElement <-
     }
 
 LabeledListElementTerm <- 
+    !SinglelineCommentDelimiter
     (!LabeledListElementSeparator !EOL .)+ {
         return types.NewRawLine(strings.TrimSpace(string(c.text)))
     }
-- 
2.43.0


From 8b257850c04065aae664e293ef24c9ff0a1dbe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:33 +0000
Subject: [PATCH 059/108] fix: ignore comments between the lines of attributes

comment lines were part of the values of the attributes of blocks
---
 pkg/parser/parser.go  | 18643 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |     5 +-
 2 files changed, 9366 insertions(+), 9282 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index cd155ed..c3452f6 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 10, offset: 90715},
+														pos: position{line: 2868, col: 10, offset: 90818},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2865, col: 10, offset: 90715},
+															pos:        position{line: 2868, col: 10, offset: 90818},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2887, col: 8, offset: 91113},
+													pos: position{line: 2890, col: 8, offset: 91216},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2874, col: 12, offset: 90886},
+															pos: position{line: 2877, col: 12, offset: 90989},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2874, col: 13, offset: 90887},
+																pos: position{line: 2877, col: 13, offset: 90990},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 13, offset: 90887},
+																		pos:        position{line: 2877, col: 13, offset: 90990},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 20, offset: 90894},
+																		pos:        position{line: 2877, col: 20, offset: 90997},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 29, offset: 90903},
+																		pos:        position{line: 2877, col: 29, offset: 91006},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2884, col: 8, offset: 91063},
+															pos: position{line: 2887, col: 8, offset: 91166},
 															expr: &anyMatcher{
-																line: 2884, col: 9, offset: 91064,
+																line: 2887, col: 9, offset: 91167,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 10, offset: 90715},
+														pos: position{line: 2868, col: 10, offset: 90818},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2865, col: 10, offset: 90715},
+															pos:        position{line: 2868, col: 10, offset: 90818},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2887, col: 8, offset: 91113},
+													pos: position{line: 2890, col: 8, offset: 91216},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2874, col: 12, offset: 90886},
+															pos: position{line: 2877, col: 12, offset: 90989},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2874, col: 13, offset: 90887},
+																pos: position{line: 2877, col: 13, offset: 90990},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 13, offset: 90887},
+																		pos:        position{line: 2877, col: 13, offset: 90990},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 20, offset: 90894},
+																		pos:        position{line: 2877, col: 20, offset: 90997},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 29, offset: 90903},
+																		pos:        position{line: 2877, col: 29, offset: 91006},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2884, col: 8, offset: 91063},
+															pos: position{line: 2887, col: 8, offset: 91166},
 															expr: &anyMatcher{
-																line: 2884, col: 9, offset: 91064,
+																line: 2887, col: 9, offset: 91167,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 10, offset: 90715},
+														pos: position{line: 2868, col: 10, offset: 90818},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2865, col: 10, offset: 90715},
+															pos:        position{line: 2868, col: 10, offset: 90818},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2884, col: 8, offset: 91063},
+													pos: position{line: 2887, col: 8, offset: 91166},
 													expr: &anyMatcher{
-														line: 2884, col: 9, offset: 91064,
+														line: 2887, col: 9, offset: 91167,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 10, offset: 90715},
+														pos: position{line: 2868, col: 10, offset: 90818},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2865, col: 10, offset: 90715},
+															pos:        position{line: 2868, col: 10, offset: 90818},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2884, col: 8, offset: 91063},
+													pos: position{line: 2887, col: 8, offset: 91166},
 													expr: &anyMatcher{
-														line: 2884, col: 9, offset: 91064,
+														line: 2887, col: 9, offset: 91167,
 													},
 												},
 											},
@@ -464,22 +464,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 648, col: 5, offset: 20422},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 648, col: 5, offset: 20422},
 																						run: (*parser).callonDocumentRawLine97,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 648, col: 5, offset: 20422},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20319},
+																									pos:        position{line: 648, col: 5, offset: 20422},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20327},
+																									pos:   position{line: 648, col: 13, offset: 20430},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -511,7 +511,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20346},
+																									pos:        position{line: 648, col: 32, offset: 20449},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -520,19 +520,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 655, col: 5, offset: 20690},
 																						run: (*parser).callonDocumentRawLine107,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 655, col: 5, offset: 20690},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20587},
+																									pos:        position{line: 655, col: 5, offset: 20690},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20591},
+																									pos:   position{line: 655, col: 9, offset: 20694},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -564,7 +564,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20610},
+																									pos:        position{line: 655, col: 28, offset: 20713},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -600,22 +600,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 648, col: 5, offset: 20422},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 648, col: 5, offset: 20422},
 																						run: (*parser).callonDocumentRawLine123,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 648, col: 5, offset: 20422},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20319},
+																									pos:        position{line: 648, col: 5, offset: 20422},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20327},
+																									pos:   position{line: 648, col: 13, offset: 20430},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -647,7 +647,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20346},
+																									pos:        position{line: 648, col: 32, offset: 20449},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -656,19 +656,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 655, col: 5, offset: 20690},
 																						run: (*parser).callonDocumentRawLine133,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 655, col: 5, offset: 20690},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20587},
+																									pos:        position{line: 655, col: 5, offset: 20690},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20591},
+																									pos:   position{line: 655, col: 9, offset: 20694},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -700,7 +700,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20610},
+																									pos:        position{line: 655, col: 28, offset: 20713},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -727,22 +727,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 645, col: 5, offset: 20319},
+																		pos: position{line: 648, col: 5, offset: 20422},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 648, col: 5, offset: 20422},
 																				run: (*parser).callonDocumentRawLine147,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 648, col: 5, offset: 20422},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20319},
+																							pos:        position{line: 648, col: 5, offset: 20422},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20327},
+																							pos:   position{line: 648, col: 13, offset: 20430},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -774,7 +774,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20346},
+																							pos:        position{line: 648, col: 32, offset: 20449},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -783,19 +783,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20587},
+																				pos: position{line: 655, col: 5, offset: 20690},
 																				run: (*parser).callonDocumentRawLine157,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 655, col: 5, offset: 20690},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20587},
+																							pos:        position{line: 655, col: 5, offset: 20690},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20591},
+																							pos:   position{line: 655, col: 9, offset: 20694},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -827,7 +827,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20610},
+																							pos:        position{line: 655, col: 28, offset: 20713},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2857, col: 12, offset: 90542},
+																pos: position{line: 2860, col: 12, offset: 90645},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2857, col: 13, offset: 90543},
+																	pos: position{line: 2860, col: 13, offset: 90646},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2857, col: 13, offset: 90543},
+																			pos: position{line: 2860, col: 13, offset: 90646},
 																			expr: &litMatcher{
-																				pos:        position{line: 2857, col: 13, offset: 90543},
+																				pos:        position{line: 2860, col: 13, offset: 90646},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2857, col: 18, offset: 90548},
+																			pos: position{line: 2860, col: 18, offset: 90651},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2857, col: 18, offset: 90548},
+																				pos:        position{line: 2860, col: 18, offset: 90651},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 10, offset: 90715},
+														pos: position{line: 2868, col: 10, offset: 90818},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2865, col: 10, offset: 90715},
+															pos:        position{line: 2868, col: 10, offset: 90818},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 10, offset: 90715},
+														pos: position{line: 2868, col: 10, offset: 90818},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2865, col: 10, offset: 90715},
+															pos:        position{line: 2868, col: 10, offset: 90818},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1069,22 +1069,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 648, col: 5, offset: 20422},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 648, col: 5, offset: 20422},
 																						run: (*parser).callonDocumentRawLine216,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 648, col: 5, offset: 20422},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20319},
+																									pos:        position{line: 648, col: 5, offset: 20422},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20327},
+																									pos:   position{line: 648, col: 13, offset: 20430},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -1116,7 +1116,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20346},
+																									pos:        position{line: 648, col: 32, offset: 20449},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1125,19 +1125,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 655, col: 5, offset: 20690},
 																						run: (*parser).callonDocumentRawLine226,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 655, col: 5, offset: 20690},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20587},
+																									pos:        position{line: 655, col: 5, offset: 20690},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20591},
+																									pos:   position{line: 655, col: 9, offset: 20694},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -1169,7 +1169,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20610},
+																									pos:        position{line: 655, col: 28, offset: 20713},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1205,22 +1205,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 648, col: 5, offset: 20422},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 648, col: 5, offset: 20422},
 																						run: (*parser).callonDocumentRawLine242,
 																						expr: &seqExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 648, col: 5, offset: 20422},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 645, col: 5, offset: 20319},
+																									pos:        position{line: 648, col: 5, offset: 20422},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 645, col: 13, offset: 20327},
+																									pos:   position{line: 648, col: 13, offset: 20430},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -1252,7 +1252,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 645, col: 32, offset: 20346},
+																									pos:        position{line: 648, col: 32, offset: 20449},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1261,19 +1261,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 655, col: 5, offset: 20690},
 																						run: (*parser).callonDocumentRawLine252,
 																						expr: &seqExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 655, col: 5, offset: 20690},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 652, col: 5, offset: 20587},
+																									pos:        position{line: 655, col: 5, offset: 20690},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 652, col: 9, offset: 20591},
+																									pos:   position{line: 655, col: 9, offset: 20694},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -1305,7 +1305,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 652, col: 28, offset: 20610},
+																									pos:        position{line: 655, col: 28, offset: 20713},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1332,22 +1332,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 645, col: 5, offset: 20319},
+																		pos: position{line: 648, col: 5, offset: 20422},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 648, col: 5, offset: 20422},
 																				run: (*parser).callonDocumentRawLine266,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 648, col: 5, offset: 20422},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20319},
+																							pos:        position{line: 648, col: 5, offset: 20422},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20327},
+																							pos:   position{line: 648, col: 13, offset: 20430},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -1379,7 +1379,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20346},
+																							pos:        position{line: 648, col: 32, offset: 20449},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1388,19 +1388,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20587},
+																				pos: position{line: 655, col: 5, offset: 20690},
 																				run: (*parser).callonDocumentRawLine276,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 655, col: 5, offset: 20690},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20587},
+																							pos:        position{line: 655, col: 5, offset: 20690},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20591},
+																							pos:   position{line: 655, col: 9, offset: 20694},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -1432,7 +1432,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20610},
+																							pos:        position{line: 655, col: 28, offset: 20713},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2857, col: 12, offset: 90542},
+																pos: position{line: 2860, col: 12, offset: 90645},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2857, col: 13, offset: 90543},
+																	pos: position{line: 2860, col: 13, offset: 90646},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2857, col: 13, offset: 90543},
+																			pos: position{line: 2860, col: 13, offset: 90646},
 																			expr: &litMatcher{
-																				pos:        position{line: 2857, col: 13, offset: 90543},
+																				pos:        position{line: 2860, col: 13, offset: 90646},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2857, col: 18, offset: 90548},
+																			pos: position{line: 2860, col: 18, offset: 90651},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2857, col: 18, offset: 90548},
+																				pos:        position{line: 2860, col: 18, offset: 90651},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 10, offset: 90715},
+														pos: position{line: 2868, col: 10, offset: 90818},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2865, col: 10, offset: 90715},
+															pos:        position{line: 2868, col: 10, offset: 90818},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2884, col: 8, offset: 91063},
+													pos: position{line: 2887, col: 8, offset: 91166},
 													expr: &anyMatcher{
-														line: 2884, col: 9, offset: 91064,
+														line: 2887, col: 9, offset: 91167,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 10, offset: 90715},
+														pos: position{line: 2868, col: 10, offset: 90818},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2865, col: 10, offset: 90715},
+															pos:        position{line: 2868, col: 10, offset: 90818},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,24 +1665,24 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2884, col: 8, offset: 91063},
+													pos: position{line: 2887, col: 8, offset: 91166},
 													expr: &anyMatcher{
-														line: 2884, col: 9, offset: 91064,
+														line: 2887, col: 9, offset: 91167,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 724, col: 5, offset: 23042},
+										pos: position{line: 727, col: 5, offset: 23145},
 										run: (*parser).callonDocumentRawLine334,
 										expr: &seqExpr{
-											pos: position{line: 724, col: 5, offset: 23042},
+											pos: position{line: 727, col: 5, offset: 23145},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 724, col: 5, offset: 23042},
+													pos: position{line: 727, col: 5, offset: 23145},
 													expr: &charClassMatcher{
-														pos:        position{line: 2755, col: 13, offset: 87810},
+														pos:        position{line: 2758, col: 13, offset: 87913},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1690,36 +1690,36 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 725, col: 5, offset: 23072},
+													pos:   position{line: 728, col: 5, offset: 23175},
 													label: "delimiter",
 													expr: &choiceExpr{
-														pos: position{line: 726, col: 9, offset: 23092},
+														pos: position{line: 729, col: 9, offset: 23195},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 740, col: 5, offset: 23584},
+																pos: position{line: 743, col: 5, offset: 23687},
 																run: (*parser).callonDocumentRawLine340,
 																expr: &seqExpr{
-																	pos: position{line: 740, col: 5, offset: 23584},
+																	pos: position{line: 743, col: 5, offset: 23687},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 740, col: 5, offset: 23584},
+																			pos:   position{line: 743, col: 5, offset: 23687},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 16, offset: 23595},
+																				pos: position{line: 743, col: 16, offset: 23698},
 																				run: (*parser).callonDocumentRawLine343,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 16, offset: 23595},
+																					pos: position{line: 743, col: 16, offset: 23698},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 740, col: 16, offset: 23595},
+																							pos:        position{line: 743, col: 16, offset: 23698},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 740, col: 23, offset: 23602},
+																							pos: position{line: 743, col: 23, offset: 23705},
 																							expr: &litMatcher{
-																								pos:        position{line: 740, col: 23, offset: 23602},
+																								pos:        position{line: 743, col: 23, offset: 23705},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1730,12 +1730,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 742, col: 8, offset: 23686},
+																			pos: position{line: 745, col: 8, offset: 23789},
 																			expr: &actionExpr{
-																				pos: position{line: 2865, col: 10, offset: 90715},
+																				pos: position{line: 2868, col: 10, offset: 90818},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2865, col: 10, offset: 90715},
+																					pos:        position{line: 2868, col: 10, offset: 90818},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2887, col: 8, offset: 91113},
+																			pos: position{line: 2890, col: 8, offset: 91216},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2874, col: 12, offset: 90886},
+																					pos: position{line: 2877, col: 12, offset: 90989},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2874, col: 13, offset: 90887},
+																						pos: position{line: 2877, col: 13, offset: 90990},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 13, offset: 90887},
+																								pos:        position{line: 2877, col: 13, offset: 90990},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 20, offset: 90894},
+																								pos:        position{line: 2877, col: 20, offset: 90997},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 29, offset: 90903},
+																								pos:        position{line: 2877, col: 29, offset: 91006},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
@@ -1785,30 +1785,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 747, col: 5, offset: 23832},
+																pos: position{line: 750, col: 5, offset: 23935},
 																run: (*parser).callonDocumentRawLine359,
 																expr: &seqExpr{
-																	pos: position{line: 747, col: 5, offset: 23832},
+																	pos: position{line: 750, col: 5, offset: 23935},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 747, col: 5, offset: 23832},
+																			pos:   position{line: 750, col: 5, offset: 23935},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 747, col: 16, offset: 23843},
+																				pos: position{line: 750, col: 16, offset: 23946},
 																				run: (*parser).callonDocumentRawLine362,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 16, offset: 23843},
+																					pos: position{line: 750, col: 16, offset: 23946},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 747, col: 16, offset: 23843},
+																							pos:        position{line: 750, col: 16, offset: 23946},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 747, col: 23, offset: 23850},
+																							pos: position{line: 750, col: 23, offset: 23953},
 																							expr: &litMatcher{
-																								pos:        position{line: 747, col: 23, offset: 23850},
+																								pos:        position{line: 750, col: 23, offset: 23953},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1819,12 +1819,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 749, col: 8, offset: 23934},
+																			pos: position{line: 752, col: 8, offset: 24037},
 																			expr: &actionExpr{
-																				pos: position{line: 2865, col: 10, offset: 90715},
+																				pos: position{line: 2868, col: 10, offset: 90818},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2865, col: 10, offset: 90715},
+																					pos:        position{line: 2868, col: 10, offset: 90818},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2887, col: 8, offset: 91113},
+																			pos: position{line: 2890, col: 8, offset: 91216},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2874, col: 12, offset: 90886},
+																					pos: position{line: 2877, col: 12, offset: 90989},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2874, col: 13, offset: 90887},
+																						pos: position{line: 2877, col: 13, offset: 90990},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 13, offset: 90887},
+																								pos:        position{line: 2877, col: 13, offset: 90990},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 20, offset: 90894},
+																								pos:        position{line: 2877, col: 20, offset: 90997},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 29, offset: 90903},
+																								pos:        position{line: 2877, col: 29, offset: 91006},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
@@ -1874,27 +1874,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 760, col: 26, offset: 24320},
+																pos: position{line: 763, col: 26, offset: 24423},
 																run: (*parser).callonDocumentRawLine378,
 																expr: &seqExpr{
-																	pos: position{line: 760, col: 26, offset: 24320},
+																	pos: position{line: 763, col: 26, offset: 24423},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 760, col: 26, offset: 24320},
+																			pos:        position{line: 763, col: 26, offset: 24423},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 760, col: 32, offset: 24326},
+																			pos:   position{line: 763, col: 32, offset: 24429},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 764, col: 13, offset: 24456},
+																				pos: position{line: 767, col: 13, offset: 24559},
 																				run: (*parser).callonDocumentRawLine382,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 764, col: 14, offset: 24457},
+																					pos: position{line: 767, col: 14, offset: 24560},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 764, col: 14, offset: 24457},
+																						pos:        position{line: 767, col: 14, offset: 24560},
 																						val:        "[^\\r\\n` ]",
 																						chars:      []rune{'\r', '\n', '`', ' '},
 																						ignoreCase: false,
@@ -1904,12 +1904,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 760, col: 52, offset: 24346},
+																			pos: position{line: 763, col: 52, offset: 24449},
 																			expr: &actionExpr{
-																				pos: position{line: 2865, col: 10, offset: 90715},
+																				pos: position{line: 2868, col: 10, offset: 90818},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2865, col: 10, offset: 90715},
+																					pos:        position{line: 2868, col: 10, offset: 90818},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2887, col: 8, offset: 91113},
+																			pos: position{line: 2890, col: 8, offset: 91216},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2874, col: 12, offset: 90886},
+																					pos: position{line: 2877, col: 12, offset: 90989},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2874, col: 13, offset: 90887},
+																						pos: position{line: 2877, col: 13, offset: 90990},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 13, offset: 90887},
+																								pos:        position{line: 2877, col: 13, offset: 90990},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 20, offset: 90894},
+																								pos:        position{line: 2877, col: 20, offset: 90997},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 29, offset: 90903},
+																								pos:        position{line: 2877, col: 29, offset: 91006},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
@@ -1959,30 +1959,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 754, col: 5, offset: 24079},
+																pos: position{line: 757, col: 5, offset: 24182},
 																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
-																	pos: position{line: 754, col: 5, offset: 24079},
+																	pos: position{line: 757, col: 5, offset: 24182},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 754, col: 5, offset: 24079},
+																			pos:   position{line: 757, col: 5, offset: 24182},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 16, offset: 24090},
+																				pos: position{line: 757, col: 16, offset: 24193},
 																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 16, offset: 24090},
+																					pos: position{line: 757, col: 16, offset: 24193},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 754, col: 16, offset: 24090},
+																							pos:        position{line: 757, col: 16, offset: 24193},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 754, col: 22, offset: 24096},
+																							pos: position{line: 757, col: 22, offset: 24199},
 																							expr: &litMatcher{
-																								pos:        position{line: 754, col: 22, offset: 24096},
+																								pos:        position{line: 757, col: 22, offset: 24199},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -1993,12 +1993,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 756, col: 8, offset: 24180},
+																			pos: position{line: 759, col: 8, offset: 24283},
 																			expr: &actionExpr{
-																				pos: position{line: 2865, col: 10, offset: 90715},
+																				pos: position{line: 2868, col: 10, offset: 90818},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2865, col: 10, offset: 90715},
+																					pos:        position{line: 2868, col: 10, offset: 90818},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2887, col: 8, offset: 91113},
+																			pos: position{line: 2890, col: 8, offset: 91216},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2874, col: 12, offset: 90886},
+																					pos: position{line: 2877, col: 12, offset: 90989},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2874, col: 13, offset: 90887},
+																						pos: position{line: 2877, col: 13, offset: 90990},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 13, offset: 90887},
+																								pos:        position{line: 2877, col: 13, offset: 90990},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 20, offset: 90894},
+																								pos:        position{line: 2877, col: 20, offset: 90997},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 29, offset: 90903},
+																								pos:        position{line: 2877, col: 29, offset: 91006},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
@@ -2048,30 +2048,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 769, col: 5, offset: 24616},
+																pos: position{line: 772, col: 5, offset: 24719},
 																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
-																	pos: position{line: 769, col: 5, offset: 24616},
+																	pos: position{line: 772, col: 5, offset: 24719},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 769, col: 5, offset: 24616},
+																			pos:   position{line: 772, col: 5, offset: 24719},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 769, col: 16, offset: 24627},
+																				pos: position{line: 772, col: 16, offset: 24730},
 																				run: (*parser).callonDocumentRawLine418,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 16, offset: 24627},
+																					pos: position{line: 772, col: 16, offset: 24730},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 769, col: 16, offset: 24627},
+																							pos:        position{line: 772, col: 16, offset: 24730},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 769, col: 23, offset: 24634},
+																							pos: position{line: 772, col: 23, offset: 24737},
 																							expr: &litMatcher{
-																								pos:        position{line: 769, col: 23, offset: 24634},
+																								pos:        position{line: 772, col: 23, offset: 24737},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2082,12 +2082,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 771, col: 8, offset: 24718},
+																			pos: position{line: 774, col: 8, offset: 24821},
 																			expr: &actionExpr{
-																				pos: position{line: 2865, col: 10, offset: 90715},
+																				pos: position{line: 2868, col: 10, offset: 90818},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2865, col: 10, offset: 90715},
+																					pos:        position{line: 2868, col: 10, offset: 90818},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2887, col: 8, offset: 91113},
+																			pos: position{line: 2890, col: 8, offset: 91216},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2874, col: 12, offset: 90886},
+																					pos: position{line: 2877, col: 12, offset: 90989},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2874, col: 13, offset: 90887},
+																						pos: position{line: 2877, col: 13, offset: 90990},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 13, offset: 90887},
+																								pos:        position{line: 2877, col: 13, offset: 90990},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 20, offset: 90894},
+																								pos:        position{line: 2877, col: 20, offset: 90997},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 29, offset: 90903},
+																								pos:        position{line: 2877, col: 29, offset: 91006},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
@@ -2137,30 +2137,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 783, col: 5, offset: 25092},
+																pos: position{line: 786, col: 5, offset: 25195},
 																run: (*parser).callonDocumentRawLine434,
 																expr: &seqExpr{
-																	pos: position{line: 783, col: 5, offset: 25092},
+																	pos: position{line: 786, col: 5, offset: 25195},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 783, col: 5, offset: 25092},
+																			pos:   position{line: 786, col: 5, offset: 25195},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 16, offset: 25103},
+																				pos: position{line: 786, col: 16, offset: 25206},
 																				run: (*parser).callonDocumentRawLine437,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 16, offset: 25103},
+																					pos: position{line: 786, col: 16, offset: 25206},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 783, col: 16, offset: 25103},
+																							pos:        position{line: 786, col: 16, offset: 25206},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 783, col: 23, offset: 25110},
+																							pos: position{line: 786, col: 23, offset: 25213},
 																							expr: &litMatcher{
-																								pos:        position{line: 783, col: 23, offset: 25110},
+																								pos:        position{line: 786, col: 23, offset: 25213},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2171,12 +2171,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 785, col: 8, offset: 25194},
+																			pos: position{line: 788, col: 8, offset: 25297},
 																			expr: &actionExpr{
-																				pos: position{line: 2865, col: 10, offset: 90715},
+																				pos: position{line: 2868, col: 10, offset: 90818},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2865, col: 10, offset: 90715},
+																					pos:        position{line: 2868, col: 10, offset: 90818},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2887, col: 8, offset: 91113},
+																			pos: position{line: 2890, col: 8, offset: 91216},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2874, col: 12, offset: 90886},
+																					pos: position{line: 2877, col: 12, offset: 90989},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2874, col: 13, offset: 90887},
+																						pos: position{line: 2877, col: 13, offset: 90990},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 13, offset: 90887},
+																								pos:        position{line: 2877, col: 13, offset: 90990},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 20, offset: 90894},
+																								pos:        position{line: 2877, col: 20, offset: 90997},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 29, offset: 90903},
+																								pos:        position{line: 2877, col: 29, offset: 91006},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
@@ -2226,30 +2226,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 790, col: 5, offset: 25344},
+																pos: position{line: 793, col: 5, offset: 25447},
 																run: (*parser).callonDocumentRawLine453,
 																expr: &seqExpr{
-																	pos: position{line: 790, col: 5, offset: 25344},
+																	pos: position{line: 793, col: 5, offset: 25447},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 790, col: 5, offset: 25344},
+																			pos:   position{line: 793, col: 5, offset: 25447},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 790, col: 16, offset: 25355},
+																				pos: position{line: 793, col: 16, offset: 25458},
 																				run: (*parser).callonDocumentRawLine456,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 16, offset: 25355},
+																					pos: position{line: 793, col: 16, offset: 25458},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 790, col: 16, offset: 25355},
+																							pos:        position{line: 793, col: 16, offset: 25458},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 790, col: 23, offset: 25362},
+																							pos: position{line: 793, col: 23, offset: 25465},
 																							expr: &litMatcher{
-																								pos:        position{line: 790, col: 23, offset: 25362},
+																								pos:        position{line: 793, col: 23, offset: 25465},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2260,12 +2260,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 792, col: 8, offset: 25446},
+																			pos: position{line: 795, col: 8, offset: 25549},
 																			expr: &actionExpr{
-																				pos: position{line: 2865, col: 10, offset: 90715},
+																				pos: position{line: 2868, col: 10, offset: 90818},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2865, col: 10, offset: 90715},
+																					pos:        position{line: 2868, col: 10, offset: 90818},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2887, col: 8, offset: 91113},
+																			pos: position{line: 2890, col: 8, offset: 91216},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2874, col: 12, offset: 90886},
+																					pos: position{line: 2877, col: 12, offset: 90989},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2874, col: 13, offset: 90887},
+																						pos: position{line: 2877, col: 13, offset: 90990},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 13, offset: 90887},
+																								pos:        position{line: 2877, col: 13, offset: 90990},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 20, offset: 90894},
+																								pos:        position{line: 2877, col: 20, offset: 90997},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 29, offset: 90903},
+																								pos:        position{line: 2877, col: 29, offset: 91006},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
@@ -2315,30 +2315,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 797, col: 5, offset: 25594},
+																pos: position{line: 800, col: 5, offset: 25697},
 																run: (*parser).callonDocumentRawLine472,
 																expr: &seqExpr{
-																	pos: position{line: 797, col: 5, offset: 25594},
+																	pos: position{line: 800, col: 5, offset: 25697},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 797, col: 5, offset: 25594},
+																			pos:   position{line: 800, col: 5, offset: 25697},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 16, offset: 25605},
+																				pos: position{line: 800, col: 16, offset: 25708},
 																				run: (*parser).callonDocumentRawLine475,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 16, offset: 25605},
+																					pos: position{line: 800, col: 16, offset: 25708},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 797, col: 16, offset: 25605},
+																							pos:        position{line: 800, col: 16, offset: 25708},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 797, col: 23, offset: 25612},
+																							pos: position{line: 800, col: 23, offset: 25715},
 																							expr: &litMatcher{
-																								pos:        position{line: 797, col: 23, offset: 25612},
+																								pos:        position{line: 800, col: 23, offset: 25715},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2349,12 +2349,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 799, col: 8, offset: 25696},
+																			pos: position{line: 802, col: 8, offset: 25799},
 																			expr: &actionExpr{
-																				pos: position{line: 2865, col: 10, offset: 90715},
+																				pos: position{line: 2868, col: 10, offset: 90818},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2865, col: 10, offset: 90715},
+																					pos:        position{line: 2868, col: 10, offset: 90818},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2887, col: 8, offset: 91113},
+																			pos: position{line: 2890, col: 8, offset: 91216},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2874, col: 12, offset: 90886},
+																					pos: position{line: 2877, col: 12, offset: 90989},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2874, col: 13, offset: 90887},
+																						pos: position{line: 2877, col: 13, offset: 90990},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 13, offset: 90887},
+																								pos:        position{line: 2877, col: 13, offset: 90990},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 20, offset: 90894},
+																								pos:        position{line: 2877, col: 20, offset: 90997},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 29, offset: 90903},
+																								pos:        position{line: 2877, col: 29, offset: 91006},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
@@ -2404,30 +2404,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 804, col: 5, offset: 25840},
+																pos: position{line: 807, col: 5, offset: 25943},
 																run: (*parser).callonDocumentRawLine491,
 																expr: &seqExpr{
-																	pos: position{line: 804, col: 5, offset: 25840},
+																	pos: position{line: 807, col: 5, offset: 25943},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 804, col: 5, offset: 25840},
+																			pos:   position{line: 807, col: 5, offset: 25943},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 16, offset: 25851},
+																				pos: position{line: 807, col: 16, offset: 25954},
 																				run: (*parser).callonDocumentRawLine494,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 16, offset: 25851},
+																					pos: position{line: 807, col: 16, offset: 25954},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 804, col: 16, offset: 25851},
+																							pos:        position{line: 807, col: 16, offset: 25954},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 804, col: 23, offset: 25858},
+																							pos: position{line: 807, col: 23, offset: 25961},
 																							expr: &litMatcher{
-																								pos:        position{line: 804, col: 23, offset: 25858},
+																								pos:        position{line: 807, col: 23, offset: 25961},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2438,12 +2438,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 806, col: 8, offset: 25942},
+																			pos: position{line: 809, col: 8, offset: 26045},
 																			expr: &actionExpr{
-																				pos: position{line: 2865, col: 10, offset: 90715},
+																				pos: position{line: 2868, col: 10, offset: 90818},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2865, col: 10, offset: 90715},
+																					pos:        position{line: 2868, col: 10, offset: 90818},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2887, col: 8, offset: 91113},
+																			pos: position{line: 2890, col: 8, offset: 91216},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2874, col: 12, offset: 90886},
+																					pos: position{line: 2877, col: 12, offset: 90989},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2874, col: 13, offset: 90887},
+																						pos: position{line: 2877, col: 13, offset: 90990},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 13, offset: 90887},
+																								pos:        position{line: 2877, col: 13, offset: 90990},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 20, offset: 90894},
+																								pos:        position{line: 2877, col: 20, offset: 90997},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 29, offset: 90903},
+																								pos:        position{line: 2877, col: 29, offset: 91006},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2869, col: 11, offset: 90776},
+													pos: position{line: 2872, col: 11, offset: 90879},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2869, col: 11, offset: 90776},
+														pos: position{line: 2872, col: 11, offset: 90879},
 														expr: &charClassMatcher{
-															pos:        position{line: 2869, col: 11, offset: 90776},
+															pos:        position{line: 2872, col: 11, offset: 90879},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2815, col: 14, offset: 89308},
+													pos: position{line: 2818, col: 14, offset: 89411},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2815, col: 14, offset: 89308},
+														pos: position{line: 2818, col: 14, offset: 89411},
 														expr: &charClassMatcher{
-															pos:        position{line: 2815, col: 14, offset: 89308},
+															pos:        position{line: 2818, col: 14, offset: 89411},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2884, col: 8, offset: 91063},
+													pos: position{line: 2887, col: 8, offset: 91166},
 													expr: &anyMatcher{
-														line: 2884, col: 9, offset: 91064,
+														line: 2887, col: 9, offset: 91167,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2884, col: 8, offset: 91063},
+							pos: position{line: 2887, col: 8, offset: 91166},
 							expr: &anyMatcher{
-								line: 2884, col: 9, offset: 91064,
+								line: 2887, col: 9, offset: 91167,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2819, col: 17, offset: 89378},
+												pos: position{line: 2822, col: 17, offset: 89481},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2819, col: 17, offset: 89378},
+													pos:   position{line: 2822, col: 17, offset: 89481},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2836, col: 5, offset: 89832},
+														pos: position{line: 2839, col: 5, offset: 89935},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2836, col: 5, offset: 89832},
+															pos:   position{line: 2839, col: 5, offset: 89935},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2836, col: 14, offset: 89841},
+																pos: position{line: 2839, col: 14, offset: 89944},
 																expr: &choiceExpr{
-																	pos: position{line: 2837, col: 9, offset: 89851},
+																	pos: position{line: 2840, col: 9, offset: 89954},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2837, col: 9, offset: 89851},
+																			pos: position{line: 2840, col: 9, offset: 89954},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2837, col: 9, offset: 89851},
+																				pos: position{line: 2840, col: 9, offset: 89954},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2837, col: 9, offset: 89851},
+																						pos: position{line: 2840, col: 9, offset: 89954},
 																						expr: &litMatcher{
-																							pos:        position{line: 2837, col: 10, offset: 89852},
+																							pos:        position{line: 2840, col: 10, offset: 89955},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2838, col: 9, offset: 89880},
+																						pos: position{line: 2841, col: 9, offset: 89983},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2838, col: 10, offset: 89881},
+																							pos:        position{line: 2841, col: 10, offset: 89984},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2841, col: 11, offset: 90093},
+																			pos: position{line: 2844, col: 11, offset: 90196},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2841, col: 11, offset: 90093},
+																					pos:        position{line: 2844, col: 11, offset: 90196},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2841, col: 19, offset: 90101},
+																					pos: position{line: 2844, col: 19, offset: 90204},
 																					expr: &seqExpr{
-																						pos: position{line: 2841, col: 21, offset: 90103},
+																						pos: position{line: 2844, col: 21, offset: 90206},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2841, col: 21, offset: 90103},
+																								pos: position{line: 2844, col: 21, offset: 90206},
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 10, offset: 90715},
+																									pos: position{line: 2868, col: 10, offset: 90818},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2865, col: 10, offset: 90715},
+																										pos:        position{line: 2868, col: 10, offset: 90818},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2841, col: 28, offset: 90110},
+																								pos: position{line: 2844, col: 28, offset: 90213},
 																								expr: &notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -2699,35 +2699,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 639, col: 5, offset: 20212},
 																			run: (*parser).callonFileInclusion30,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 639, col: 5, offset: 20212},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 639, col: 5, offset: 20212},
 																						run: (*parser).callonFileInclusion32,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 642, col: 5, offset: 20284},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 642, col: 14, offset: 20293},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 648, col: 5, offset: 20422},
 																									run: (*parser).callonFileInclusion35,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 648, col: 5, offset: 20422},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 648, col: 5, offset: 20422},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 648, col: 13, offset: 20430},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -2759,7 +2759,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 648, col: 32, offset: 20449},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2768,19 +2768,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 655, col: 5, offset: 20690},
 																									run: (*parser).callonFileInclusion45,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 655, col: 5, offset: 20690},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 655, col: 5, offset: 20690},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 655, col: 9, offset: 20694},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -2812,7 +2812,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 655, col: 28, offset: 20713},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2821,19 +2821,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 661, col: 25, offset: 20894},
 																									run: (*parser).callonFileInclusion55,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 661, col: 25, offset: 20894},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 661, col: 25, offset: 20894},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 661, col: 37, offset: 20906},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -2865,33 +2865,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 661, col: 56, offset: 20925},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 661, col: 62, offset: 20931},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 669, col: 17, offset: 21226},
 																														run: (*parser).callonFileInclusion66,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 669, col: 17, offset: 21226},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 669, col: 17, offset: 21226},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 669, col: 21, offset: 21230},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 669, col: 28, offset: 21237},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 669, col: 28, offset: 21237},
 																																				run: (*parser).callonFileInclusion71,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 669, col: 28, offset: 21237},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -2899,12 +2899,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 671, col: 9, offset: 21291},
 																																				run: (*parser).callonFileInclusion73,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 671, col: 9, offset: 21291},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 671, col: 9, offset: 21291},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -2921,7 +2921,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 661, col: 78, offset: 20947},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2930,19 +2930,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 665, col: 25, offset: 21065},
 																									run: (*parser).callonFileInclusion77,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 665, col: 25, offset: 21065},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 665, col: 25, offset: 21065},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 665, col: 38, offset: 21078},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -2974,33 +2974,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 665, col: 57, offset: 21097},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 665, col: 63, offset: 21103},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 669, col: 17, offset: 21226},
 																														run: (*parser).callonFileInclusion88,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 669, col: 17, offset: 21226},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 669, col: 17, offset: 21226},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 669, col: 21, offset: 21230},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 669, col: 28, offset: 21237},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 669, col: 28, offset: 21237},
 																																				run: (*parser).callonFileInclusion93,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 669, col: 28, offset: 21237},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3008,12 +3008,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 671, col: 9, offset: 21291},
 																																				run: (*parser).callonFileInclusion95,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 671, col: 9, offset: 21291},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 671, col: 9, offset: 21291},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3030,7 +3030,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 665, col: 79, offset: 21119},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3045,27 +3045,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1210, col: 23, offset: 37374},
+																			pos: position{line: 1213, col: 23, offset: 37477},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1210, col: 23, offset: 37374},
+																				pos: position{line: 1213, col: 23, offset: 37477},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1208, col: 32, offset: 37342},
+																						pos:        position{line: 1211, col: 32, offset: 37445},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1210, col: 51, offset: 37402},
+																						pos:   position{line: 1213, col: 51, offset: 37505},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1210, col: 56, offset: 37407},
+																							pos: position{line: 1213, col: 56, offset: 37510},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1210, col: 56, offset: 37407},
+																								pos: position{line: 1213, col: 56, offset: 37510},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1210, col: 56, offset: 37407},
+																									pos:        position{line: 1213, col: 56, offset: 37510},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3075,7 +3075,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1208, col: 32, offset: 37342},
+																						pos:        position{line: 1211, col: 32, offset: 37445},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2844, col: 11, offset: 90230},
+																			pos: position{line: 2847, col: 11, offset: 90333},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2844, col: 11, offset: 90230},
+																				pos:        position{line: 2847, col: 11, offset: 90333},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2865, col: 10, offset: 90715},
+								pos: position{line: 2868, col: 10, offset: 90818},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2865, col: 10, offset: 90715},
+									pos:        position{line: 2868, col: 10, offset: 90818},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2887, col: 8, offset: 91113},
+							pos: position{line: 2890, col: 8, offset: 91216},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2874, col: 12, offset: 90886},
+									pos: position{line: 2877, col: 12, offset: 90989},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2874, col: 13, offset: 90887},
+										pos: position{line: 2877, col: 13, offset: 90990},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2874, col: 13, offset: 90887},
+												pos:        position{line: 2877, col: 13, offset: 90990},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2874, col: 20, offset: 90894},
+												pos:        position{line: 2877, col: 20, offset: 90997},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2874, col: 29, offset: 90903},
+												pos:        position{line: 2877, col: 29, offset: 91006},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2884, col: 8, offset: 91063},
+									pos: position{line: 2887, col: 8, offset: 91166},
 									expr: &anyMatcher{
-										line: 2884, col: 9, offset: 91064,
+										line: 2887, col: 9, offset: 91167,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2857, col: 12, offset: 90542},
+																				pos: position{line: 2860, col: 12, offset: 90645},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2857, col: 13, offset: 90543},
+																					pos: position{line: 2860, col: 13, offset: 90646},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2857, col: 13, offset: 90543},
+																							pos: position{line: 2860, col: 13, offset: 90646},
 																							expr: &litMatcher{
-																								pos:        position{line: 2857, col: 13, offset: 90543},
+																								pos:        position{line: 2860, col: 13, offset: 90646},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2857, col: 18, offset: 90548},
+																							pos: position{line: 2860, col: 18, offset: 90651},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2857, col: 18, offset: 90548},
+																								pos:        position{line: 2860, col: 18, offset: 90651},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2857, col: 12, offset: 90542},
+																				pos: position{line: 2860, col: 12, offset: 90645},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2857, col: 13, offset: 90543},
+																					pos: position{line: 2860, col: 13, offset: 90646},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2857, col: 13, offset: 90543},
+																							pos: position{line: 2860, col: 13, offset: 90646},
 																							expr: &litMatcher{
-																								pos:        position{line: 2857, col: 13, offset: 90543},
+																								pos:        position{line: 2860, col: 13, offset: 90646},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2857, col: 18, offset: 90548},
+																							pos: position{line: 2860, col: 18, offset: 90651},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2857, col: 18, offset: 90548},
+																								pos:        position{line: 2860, col: 18, offset: 90651},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2857, col: 12, offset: 90542},
+																		pos: position{line: 2860, col: 12, offset: 90645},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2857, col: 13, offset: 90543},
+																			pos: position{line: 2860, col: 13, offset: 90646},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2857, col: 13, offset: 90543},
+																					pos: position{line: 2860, col: 13, offset: 90646},
 																					expr: &litMatcher{
-																						pos:        position{line: 2857, col: 13, offset: 90543},
+																						pos:        position{line: 2860, col: 13, offset: 90646},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2857, col: 18, offset: 90548},
+																					pos: position{line: 2860, col: 18, offset: 90651},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2857, col: 18, offset: 90548},
+																						pos:        position{line: 2860, col: 18, offset: 90651},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2857, col: 12, offset: 90542},
+																									pos: position{line: 2860, col: 12, offset: 90645},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2857, col: 13, offset: 90543},
+																										pos: position{line: 2860, col: 13, offset: 90646},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2857, col: 13, offset: 90543},
+																												pos: position{line: 2860, col: 13, offset: 90646},
 																												expr: &litMatcher{
-																													pos:        position{line: 2857, col: 13, offset: 90543},
+																													pos:        position{line: 2860, col: 13, offset: 90646},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2857, col: 18, offset: 90548},
+																												pos: position{line: 2860, col: 18, offset: 90651},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2857, col: 18, offset: 90548},
+																													pos:        position{line: 2860, col: 18, offset: 90651},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2857, col: 12, offset: 90542},
+																									pos: position{line: 2860, col: 12, offset: 90645},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2857, col: 13, offset: 90543},
+																										pos: position{line: 2860, col: 13, offset: 90646},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2857, col: 13, offset: 90543},
+																												pos: position{line: 2860, col: 13, offset: 90646},
 																												expr: &litMatcher{
-																													pos:        position{line: 2857, col: 13, offset: 90543},
+																													pos:        position{line: 2860, col: 13, offset: 90646},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2857, col: 18, offset: 90548},
+																												pos: position{line: 2860, col: 18, offset: 90651},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2857, col: 18, offset: 90548},
+																													pos:        position{line: 2860, col: 18, offset: 90651},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2857, col: 12, offset: 90542},
+																							pos: position{line: 2860, col: 12, offset: 90645},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2857, col: 13, offset: 90543},
+																								pos: position{line: 2860, col: 13, offset: 90646},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2857, col: 13, offset: 90543},
+																										pos: position{line: 2860, col: 13, offset: 90646},
 																										expr: &litMatcher{
-																											pos:        position{line: 2857, col: 13, offset: 90543},
+																											pos:        position{line: 2860, col: 13, offset: 90646},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2857, col: 18, offset: 90548},
+																										pos: position{line: 2860, col: 18, offset: 90651},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2857, col: 18, offset: 90548},
+																											pos:        position{line: 2860, col: 18, offset: 90651},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2857, col: 12, offset: 90542},
+														pos: position{line: 2860, col: 12, offset: 90645},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2857, col: 13, offset: 90543},
+															pos: position{line: 2860, col: 13, offset: 90646},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2857, col: 13, offset: 90543},
+																	pos: position{line: 2860, col: 13, offset: 90646},
 																	expr: &litMatcher{
-																		pos:        position{line: 2857, col: 13, offset: 90543},
+																		pos:        position{line: 2860, col: 13, offset: 90646},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2857, col: 18, offset: 90548},
+																	pos: position{line: 2860, col: 18, offset: 90651},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2857, col: 18, offset: 90548},
+																		pos:        position{line: 2860, col: 18, offset: 90651},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2857, col: 12, offset: 90542},
+														pos: position{line: 2860, col: 12, offset: 90645},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2857, col: 13, offset: 90543},
+															pos: position{line: 2860, col: 13, offset: 90646},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2857, col: 13, offset: 90543},
+																	pos: position{line: 2860, col: 13, offset: 90646},
 																	expr: &litMatcher{
-																		pos:        position{line: 2857, col: 13, offset: 90543},
+																		pos:        position{line: 2860, col: 13, offset: 90646},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2857, col: 18, offset: 90548},
+																	pos: position{line: 2860, col: 18, offset: 90651},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2857, col: 18, offset: 90548},
+																		pos:        position{line: 2860, col: 18, offset: 90651},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2857, col: 12, offset: 90542},
+												pos: position{line: 2860, col: 12, offset: 90645},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2857, col: 13, offset: 90543},
+													pos: position{line: 2860, col: 13, offset: 90646},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2857, col: 13, offset: 90543},
+															pos: position{line: 2860, col: 13, offset: 90646},
 															expr: &litMatcher{
-																pos:        position{line: 2857, col: 13, offset: 90543},
+																pos:        position{line: 2860, col: 13, offset: 90646},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2857, col: 18, offset: 90548},
+															pos: position{line: 2860, col: 18, offset: 90651},
 															expr: &charClassMatcher{
-																pos:        position{line: 2857, col: 18, offset: 90548},
+																pos:        position{line: 2860, col: 18, offset: 90651},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2884, col: 8, offset: 91063},
+							pos: position{line: 2887, col: 8, offset: 91166},
 							expr: &anyMatcher{
-								line: 2884, col: 9, offset: 91064,
+								line: 2887, col: 9, offset: 91167,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2759, col: 14, offset: 87884},
+																		pos: position{line: 2762, col: 14, offset: 87987},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2759, col: 14, offset: 87884},
+																			pos: position{line: 2762, col: 14, offset: 87987},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2759, col: 14, offset: 87884},
+																				pos:        position{line: 2762, col: 14, offset: 87987},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2759, col: 14, offset: 87884},
+																				pos: position{line: 2762, col: 14, offset: 87987},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2759, col: 14, offset: 87884},
+																					pos: position{line: 2762, col: 14, offset: 87987},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2759, col: 14, offset: 87884},
+																						pos:        position{line: 2762, col: 14, offset: 87987},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2759, col: 14, offset: 87884},
+																							pos: position{line: 2762, col: 14, offset: 87987},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2759, col: 14, offset: 87884},
+																								pos: position{line: 2762, col: 14, offset: 87987},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2759, col: 14, offset: 87884},
+																									pos:        position{line: 2762, col: 14, offset: 87987},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2759, col: 14, offset: 87884},
+																									pos: position{line: 2762, col: 14, offset: 87987},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2759, col: 14, offset: 87884},
+																										pos: position{line: 2762, col: 14, offset: 87987},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2759, col: 14, offset: 87884},
+																											pos:        position{line: 2762, col: 14, offset: 87987},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2884, col: 8, offset: 91063},
+							pos: position{line: 2887, col: 8, offset: 91166},
 							expr: &anyMatcher{
-								line: 2884, col: 9, offset: 91064,
+								line: 2887, col: 9, offset: 91167,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2759, col: 14, offset: 87884},
+																pos: position{line: 2762, col: 14, offset: 87987},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2759, col: 14, offset: 87884},
+																	pos: position{line: 2762, col: 14, offset: 87987},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2759, col: 14, offset: 87884},
+																		pos:        position{line: 2762, col: 14, offset: 87987},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2759, col: 14, offset: 87884},
+																pos: position{line: 2762, col: 14, offset: 87987},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2759, col: 14, offset: 87884},
+																	pos: position{line: 2762, col: 14, offset: 87987},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2759, col: 14, offset: 87884},
+																		pos:        position{line: 2762, col: 14, offset: 87987},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2887, col: 8, offset: 91113},
+							pos: position{line: 2890, col: 8, offset: 91216},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2874, col: 12, offset: 90886},
+									pos: position{line: 2877, col: 12, offset: 90989},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2874, col: 13, offset: 90887},
+										pos: position{line: 2877, col: 13, offset: 90990},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2874, col: 13, offset: 90887},
+												pos:        position{line: 2877, col: 13, offset: 90990},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2874, col: 20, offset: 90894},
+												pos:        position{line: 2877, col: 20, offset: 90997},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2874, col: 29, offset: 90903},
+												pos:        position{line: 2877, col: 29, offset: 91006},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2884, col: 8, offset: 91063},
+									pos: position{line: 2887, col: 8, offset: 91166},
 									expr: &anyMatcher{
-										line: 2884, col: 9, offset: 91064,
+										line: 2887, col: 9, offset: 91167,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2882, col: 11, offset: 91049},
+							pos: position{line: 2885, col: 11, offset: 91152},
 							expr: &anyMatcher{
-								line: 2882, col: 13, offset: 91051,
+								line: 2885, col: 13, offset: 91154,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2865, col: 10, offset: 90715},
+															pos: position{line: 2868, col: 10, offset: 90818},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2865, col: 10, offset: 90715},
+																pos:        position{line: 2868, col: 10, offset: 90818},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2887, col: 8, offset: 91113},
+														pos: position{line: 2890, col: 8, offset: 91216},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2874, col: 12, offset: 90886},
+																pos: position{line: 2877, col: 12, offset: 90989},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 13, offset: 90887},
+																	pos: position{line: 2877, col: 13, offset: 90990},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 13, offset: 90887},
+																			pos:        position{line: 2877, col: 13, offset: 90990},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 20, offset: 90894},
+																			pos:        position{line: 2877, col: 20, offset: 90997},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 29, offset: 90903},
+																			pos:        position{line: 2877, col: 29, offset: 91006},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2884, col: 8, offset: 91063},
+																pos: position{line: 2887, col: 8, offset: 91166},
 																expr: &anyMatcher{
-																	line: 2884, col: 9, offset: 91064,
+																	line: 2887, col: 9, offset: 91167,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2865, col: 10, offset: 90715},
+															pos: position{line: 2868, col: 10, offset: 90818},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2865, col: 10, offset: 90715},
+																pos:        position{line: 2868, col: 10, offset: 90818},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2887, col: 8, offset: 91113},
+														pos: position{line: 2890, col: 8, offset: 91216},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2874, col: 12, offset: 90886},
+																pos: position{line: 2877, col: 12, offset: 90989},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 13, offset: 90887},
+																	pos: position{line: 2877, col: 13, offset: 90990},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 13, offset: 90887},
+																			pos:        position{line: 2877, col: 13, offset: 90990},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 20, offset: 90894},
+																			pos:        position{line: 2877, col: 20, offset: 90997},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 29, offset: 90903},
+																			pos:        position{line: 2877, col: 29, offset: 91006},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2884, col: 8, offset: 91063},
+																pos: position{line: 2887, col: 8, offset: 91166},
 																expr: &anyMatcher{
-																	line: 2884, col: 9, offset: 91064,
+																	line: 2887, col: 9, offset: 91167,
 																},
 															},
 														},
@@ -4336,24 +4336,24 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 677, col: 14, offset: 21489},
+											pos: position{line: 680, col: 14, offset: 21592},
 											run: (*parser).callonDocumentFragment58,
 											expr: &seqExpr{
-												pos: position{line: 677, col: 14, offset: 21489},
+												pos: position{line: 680, col: 14, offset: 21592},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2882, col: 11, offset: 91049},
+														pos: position{line: 2885, col: 11, offset: 91152},
 														expr: &anyMatcher{
-															line: 2882, col: 13, offset: 91051,
+															line: 2885, col: 13, offset: 91154,
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 677, col: 21, offset: 21496},
+														pos: position{line: 680, col: 21, offset: 21599},
 														expr: &actionExpr{
-															pos: position{line: 2865, col: 10, offset: 90715},
+															pos: position{line: 2868, col: 10, offset: 90818},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2865, col: 10, offset: 90715},
+																pos:        position{line: 2868, col: 10, offset: 90818},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2887, col: 8, offset: 91113},
+														pos: position{line: 2890, col: 8, offset: 91216},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2874, col: 12, offset: 90886},
+																pos: position{line: 2877, col: 12, offset: 90989},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 13, offset: 90887},
+																	pos: position{line: 2877, col: 13, offset: 90990},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 13, offset: 90887},
+																			pos:        position{line: 2877, col: 13, offset: 90990},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 20, offset: 90894},
+																			pos:        position{line: 2877, col: 20, offset: 90997},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 29, offset: 90903},
+																			pos:        position{line: 2877, col: 29, offset: 91006},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2884, col: 8, offset: 91063},
+																pos: position{line: 2887, col: 8, offset: 91166},
 																expr: &anyMatcher{
-																	line: 2884, col: 9, offset: 91064,
+																	line: 2887, col: 9, offset: 91167,
 																},
 															},
 														},
@@ -4411,39 +4411,39 @@ var g = &grammar{
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 823, col: 5, offset: 26427},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 820, col: 5, offset: 26324},
+												pos: position{line: 823, col: 5, offset: 26427},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 820, col: 5, offset: 26324},
+														pos:   position{line: 823, col: 5, offset: 26427},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 740, col: 5, offset: 23584},
+															pos: position{line: 743, col: 5, offset: 23687},
 															run: (*parser).callonDocumentFragment78,
 															expr: &seqExpr{
-																pos: position{line: 740, col: 5, offset: 23584},
+																pos: position{line: 743, col: 5, offset: 23687},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 740, col: 5, offset: 23584},
+																		pos:   position{line: 743, col: 5, offset: 23687},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 740, col: 16, offset: 23595},
+																			pos: position{line: 743, col: 16, offset: 23698},
 																			run: (*parser).callonDocumentFragment81,
 																			expr: &seqExpr{
-																				pos: position{line: 740, col: 16, offset: 23595},
+																				pos: position{line: 743, col: 16, offset: 23698},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 740, col: 16, offset: 23595},
+																						pos:        position{line: 743, col: 16, offset: 23698},
 																						val:        "////",
 																						ignoreCase: false,
 																						want:       "\"////\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 740, col: 23, offset: 23602},
+																						pos: position{line: 743, col: 23, offset: 23705},
 																						expr: &litMatcher{
-																							pos:        position{line: 740, col: 23, offset: 23602},
+																							pos:        position{line: 743, col: 23, offset: 23705},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -4454,12 +4454,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 742, col: 8, offset: 23686},
+																		pos: position{line: 745, col: 8, offset: 23789},
 																		expr: &actionExpr{
-																			pos: position{line: 2865, col: 10, offset: 90715},
+																			pos: position{line: 2868, col: 10, offset: 90818},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 10, offset: 90715},
+																				pos:        position{line: 2868, col: 10, offset: 90818},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2887, col: 8, offset: 91113},
+																		pos: position{line: 2890, col: 8, offset: 91216},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2874, col: 12, offset: 90886},
+																				pos: position{line: 2877, col: 12, offset: 90989},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 13, offset: 90887},
+																					pos: position{line: 2877, col: 13, offset: 90990},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 13, offset: 90887},
+																							pos:        position{line: 2877, col: 13, offset: 90990},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 20, offset: 90894},
+																							pos:        position{line: 2877, col: 20, offset: 90997},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 29, offset: 90903},
+																							pos:        position{line: 2877, col: 29, offset: 91006},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2884, col: 8, offset: 91063},
+																				pos: position{line: 2887, col: 8, offset: 91166},
 																				expr: &anyMatcher{
-																					line: 2884, col: 9, offset: 91064,
+																					line: 2887, col: 9, offset: 91167,
 																				},
 																			},
 																		},
@@ -4510,56 +4510,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 821, col: 5, offset: 26363},
+														pos: position{line: 824, col: 5, offset: 26466},
 														run: (*parser).callonDocumentFragment97,
 													},
 													&labeledExpr{
-														pos:   position{line: 824, col: 5, offset: 26455},
+														pos:   position{line: 827, col: 5, offset: 26558},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 839, col: 5, offset: 26853},
+															pos: position{line: 842, col: 5, offset: 26956},
 															expr: &actionExpr{
-																pos: position{line: 839, col: 6, offset: 26854},
+																pos: position{line: 842, col: 6, offset: 26957},
 																run: (*parser).callonDocumentFragment100,
 																expr: &seqExpr{
-																	pos: position{line: 839, col: 6, offset: 26854},
+																	pos: position{line: 842, col: 6, offset: 26957},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 839, col: 6, offset: 26854},
+																			pos: position{line: 842, col: 6, offset: 26957},
 																			expr: &choiceExpr{
-																				pos: position{line: 832, col: 5, offset: 26695},
+																				pos: position{line: 835, col: 5, offset: 26798},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 832, col: 5, offset: 26695},
+																						pos: position{line: 835, col: 5, offset: 26798},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 832, col: 5, offset: 26695},
+																								pos:   position{line: 835, col: 5, offset: 26798},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 5, offset: 23584},
+																									pos: position{line: 743, col: 5, offset: 23687},
 																									run: (*parser).callonDocumentFragment106,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 5, offset: 23584},
+																										pos: position{line: 743, col: 5, offset: 23687},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 740, col: 5, offset: 23584},
+																												pos:   position{line: 743, col: 5, offset: 23687},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 740, col: 16, offset: 23595},
+																													pos: position{line: 743, col: 16, offset: 23698},
 																													run: (*parser).callonDocumentFragment109,
 																													expr: &seqExpr{
-																														pos: position{line: 740, col: 16, offset: 23595},
+																														pos: position{line: 743, col: 16, offset: 23698},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 740, col: 16, offset: 23595},
+																																pos:        position{line: 743, col: 16, offset: 23698},
 																																val:        "////",
 																																ignoreCase: false,
 																																want:       "\"////\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 740, col: 23, offset: 23602},
+																																pos: position{line: 743, col: 23, offset: 23705},
 																																expr: &litMatcher{
-																																	pos:        position{line: 740, col: 23, offset: 23602},
+																																	pos:        position{line: 743, col: 23, offset: 23705},
 																																	val:        "/",
 																																	ignoreCase: false,
 																																	want:       "\"/\"",
@@ -4570,12 +4570,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 742, col: 8, offset: 23686},
+																												pos: position{line: 745, col: 8, offset: 23789},
 																												expr: &actionExpr{
-																													pos: position{line: 2865, col: 10, offset: 90715},
+																													pos: position{line: 2868, col: 10, offset: 90818},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2865, col: 10, offset: 90715},
+																														pos:        position{line: 2868, col: 10, offset: 90818},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2887, col: 8, offset: 91113},
+																												pos: position{line: 2890, col: 8, offset: 91216},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2874, col: 12, offset: 90886},
+																														pos: position{line: 2877, col: 12, offset: 90989},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2874, col: 13, offset: 90887},
+																															pos: position{line: 2877, col: 13, offset: 90990},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 13, offset: 90887},
+																																	pos:        position{line: 2877, col: 13, offset: 90990},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 20, offset: 90894},
+																																	pos:        position{line: 2877, col: 20, offset: 90997},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 29, offset: 90903},
+																																	pos:        position{line: 2877, col: 29, offset: 91006},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2884, col: 8, offset: 91063},
+																														pos: position{line: 2887, col: 8, offset: 91166},
 																														expr: &anyMatcher{
-																															line: 2884, col: 9, offset: 91064,
+																															line: 2887, col: 9, offset: 91167,
 																														},
 																													},
 																												},
@@ -4626,45 +4626,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 833, col: 5, offset: 26726},
+																								pos: position{line: 836, col: 5, offset: 26829},
 																								run: (*parser).callonDocumentFragment125,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2884, col: 8, offset: 91063},
+																						pos: position{line: 2887, col: 8, offset: 91166},
 																						expr: &anyMatcher{
-																							line: 2884, col: 9, offset: 91064,
+																							line: 2887, col: 9, offset: 91167,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 840, col: 5, offset: 26884},
+																			pos:   position{line: 843, col: 5, offset: 26987},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 814, col: 5, offset: 26191},
 																				run: (*parser).callonDocumentFragment129,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 814, col: 5, offset: 26191},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2882, col: 11, offset: 91049},
+																							pos: position{line: 2885, col: 11, offset: 91152},
 																							expr: &anyMatcher{
-																								line: 2882, col: 13, offset: 91051,
+																								line: 2885, col: 13, offset: 91154,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 815, col: 5, offset: 26266},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2811, col: 13, offset: 89241},
+																								pos: position{line: 2814, col: 13, offset: 89344},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2811, col: 13, offset: 89241},
+																									pos: position{line: 2814, col: 13, offset: 89344},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2811, col: 13, offset: 89241},
+																										pos:        position{line: 2814, col: 13, offset: 89344},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -4721,44 +4721,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 825, col: 5, offset: 26489},
+														pos:   position{line: 828, col: 5, offset: 26592},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 825, col: 9, offset: 26493},
+															pos: position{line: 828, col: 9, offset: 26596},
 															expr: &choiceExpr{
-																pos: position{line: 832, col: 5, offset: 26695},
+																pos: position{line: 835, col: 5, offset: 26798},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 832, col: 5, offset: 26695},
+																		pos: position{line: 835, col: 5, offset: 26798},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 832, col: 5, offset: 26695},
+																				pos:   position{line: 835, col: 5, offset: 26798},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 743, col: 5, offset: 23687},
 																					run: (*parser).callonDocumentFragment150,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
+																						pos: position{line: 743, col: 5, offset: 23687},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23584},
+																								pos:   position{line: 743, col: 5, offset: 23687},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 743, col: 16, offset: 23698},
 																									run: (*parser).callonDocumentFragment153,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
+																										pos: position{line: 743, col: 16, offset: 23698},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23595},
+																												pos:        position{line: 743, col: 16, offset: 23698},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23602},
+																												pos: position{line: 743, col: 23, offset: 23705},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23602},
+																													pos:        position{line: 743, col: 23, offset: 23705},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -4769,12 +4769,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23686},
+																								pos: position{line: 745, col: 8, offset: 23789},
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 10, offset: 90715},
+																									pos: position{line: 2868, col: 10, offset: 90818},
 																									run: (*parser).callonDocumentFragment159,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2865, col: 10, offset: 90715},
+																										pos:        position{line: 2868, col: 10, offset: 90818},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -4783,28 +4783,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2887, col: 8, offset: 91113},
+																								pos: position{line: 2890, col: 8, offset: 91216},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2874, col: 12, offset: 90886},
+																										pos: position{line: 2877, col: 12, offset: 90989},
 																										run: (*parser).callonDocumentFragment162,
 																										expr: &choiceExpr{
-																											pos: position{line: 2874, col: 13, offset: 90887},
+																											pos: position{line: 2877, col: 13, offset: 90990},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 13, offset: 90887},
+																													pos:        position{line: 2877, col: 13, offset: 90990},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 20, offset: 90894},
+																													pos:        position{line: 2877, col: 20, offset: 90997},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 29, offset: 90903},
+																													pos:        position{line: 2877, col: 29, offset: 91006},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -4813,9 +4813,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2884, col: 8, offset: 91063},
+																										pos: position{line: 2887, col: 8, offset: 91166},
 																										expr: &anyMatcher{
-																											line: 2884, col: 9, offset: 91064,
+																											line: 2887, col: 9, offset: 91167,
 																										},
 																									},
 																								},
@@ -4825,15 +4825,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 833, col: 5, offset: 26726},
+																				pos: position{line: 836, col: 5, offset: 26829},
 																				run: (*parser).callonDocumentFragment169,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2884, col: 8, offset: 91063},
+																		pos: position{line: 2887, col: 8, offset: 91166},
 																		expr: &anyMatcher{
-																			line: 2884, col: 9, offset: 91064,
+																			line: 2887, col: 9, offset: 91167,
 																		},
 																	},
 																},
@@ -4844,39 +4844,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 848, col: 5, offset: 27037},
+											pos: position{line: 851, col: 5, offset: 27140},
 											run: (*parser).callonDocumentFragment172,
 											expr: &seqExpr{
-												pos: position{line: 848, col: 5, offset: 27037},
+												pos: position{line: 851, col: 5, offset: 27140},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 848, col: 5, offset: 27037},
+														pos:   position{line: 851, col: 5, offset: 27140},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 747, col: 5, offset: 23832},
+															pos: position{line: 750, col: 5, offset: 23935},
 															run: (*parser).callonDocumentFragment175,
 															expr: &seqExpr{
-																pos: position{line: 747, col: 5, offset: 23832},
+																pos: position{line: 750, col: 5, offset: 23935},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 747, col: 5, offset: 23832},
+																		pos:   position{line: 750, col: 5, offset: 23935},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 747, col: 16, offset: 23843},
+																			pos: position{line: 750, col: 16, offset: 23946},
 																			run: (*parser).callonDocumentFragment178,
 																			expr: &seqExpr{
-																				pos: position{line: 747, col: 16, offset: 23843},
+																				pos: position{line: 750, col: 16, offset: 23946},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 747, col: 16, offset: 23843},
+																						pos:        position{line: 750, col: 16, offset: 23946},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 747, col: 23, offset: 23850},
+																						pos: position{line: 750, col: 23, offset: 23953},
 																						expr: &litMatcher{
-																							pos:        position{line: 747, col: 23, offset: 23850},
+																							pos:        position{line: 750, col: 23, offset: 23953},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -4887,12 +4887,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 749, col: 8, offset: 23934},
+																		pos: position{line: 752, col: 8, offset: 24037},
 																		expr: &actionExpr{
-																			pos: position{line: 2865, col: 10, offset: 90715},
+																			pos: position{line: 2868, col: 10, offset: 90818},
 																			run: (*parser).callonDocumentFragment184,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 10, offset: 90715},
+																				pos:        position{line: 2868, col: 10, offset: 90818},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4901,28 +4901,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2887, col: 8, offset: 91113},
+																		pos: position{line: 2890, col: 8, offset: 91216},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2874, col: 12, offset: 90886},
+																				pos: position{line: 2877, col: 12, offset: 90989},
 																				run: (*parser).callonDocumentFragment187,
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 13, offset: 90887},
+																					pos: position{line: 2877, col: 13, offset: 90990},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 13, offset: 90887},
+																							pos:        position{line: 2877, col: 13, offset: 90990},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 20, offset: 90894},
+																							pos:        position{line: 2877, col: 20, offset: 90997},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 29, offset: 90903},
+																							pos:        position{line: 2877, col: 29, offset: 91006},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4931,9 +4931,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2884, col: 8, offset: 91063},
+																				pos: position{line: 2887, col: 8, offset: 91166},
 																				expr: &anyMatcher{
-																					line: 2884, col: 9, offset: 91064,
+																					line: 2887, col: 9, offset: 91167,
 																				},
 																			},
 																		},
@@ -4943,56 +4943,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 849, col: 5, offset: 27076},
+														pos: position{line: 852, col: 5, offset: 27179},
 														run: (*parser).callonDocumentFragment194,
 													},
 													&labeledExpr{
-														pos:   position{line: 852, col: 5, offset: 27168},
+														pos:   position{line: 855, col: 5, offset: 27271},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 867, col: 4, offset: 27565},
+															pos: position{line: 870, col: 4, offset: 27668},
 															expr: &actionExpr{
-																pos: position{line: 867, col: 5, offset: 27566},
+																pos: position{line: 870, col: 5, offset: 27669},
 																run: (*parser).callonDocumentFragment197,
 																expr: &seqExpr{
-																	pos: position{line: 867, col: 5, offset: 27566},
+																	pos: position{line: 870, col: 5, offset: 27669},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 867, col: 5, offset: 27566},
+																			pos: position{line: 870, col: 5, offset: 27669},
 																			expr: &choiceExpr{
-																				pos: position{line: 860, col: 5, offset: 27408},
+																				pos: position{line: 863, col: 5, offset: 27511},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 860, col: 5, offset: 27408},
+																						pos: position{line: 863, col: 5, offset: 27511},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 860, col: 5, offset: 27408},
+																								pos:   position{line: 863, col: 5, offset: 27511},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 5, offset: 23832},
+																									pos: position{line: 750, col: 5, offset: 23935},
 																									run: (*parser).callonDocumentFragment203,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 5, offset: 23832},
+																										pos: position{line: 750, col: 5, offset: 23935},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 747, col: 5, offset: 23832},
+																												pos:   position{line: 750, col: 5, offset: 23935},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 747, col: 16, offset: 23843},
+																													pos: position{line: 750, col: 16, offset: 23946},
 																													run: (*parser).callonDocumentFragment206,
 																													expr: &seqExpr{
-																														pos: position{line: 747, col: 16, offset: 23843},
+																														pos: position{line: 750, col: 16, offset: 23946},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 747, col: 16, offset: 23843},
+																																pos:        position{line: 750, col: 16, offset: 23946},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 747, col: 23, offset: 23850},
+																																pos: position{line: 750, col: 23, offset: 23953},
 																																expr: &litMatcher{
-																																	pos:        position{line: 747, col: 23, offset: 23850},
+																																	pos:        position{line: 750, col: 23, offset: 23953},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -5003,12 +5003,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 749, col: 8, offset: 23934},
+																												pos: position{line: 752, col: 8, offset: 24037},
 																												expr: &actionExpr{
-																													pos: position{line: 2865, col: 10, offset: 90715},
+																													pos: position{line: 2868, col: 10, offset: 90818},
 																													run: (*parser).callonDocumentFragment212,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2865, col: 10, offset: 90715},
+																														pos:        position{line: 2868, col: 10, offset: 90818},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5017,28 +5017,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2887, col: 8, offset: 91113},
+																												pos: position{line: 2890, col: 8, offset: 91216},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2874, col: 12, offset: 90886},
+																														pos: position{line: 2877, col: 12, offset: 90989},
 																														run: (*parser).callonDocumentFragment215,
 																														expr: &choiceExpr{
-																															pos: position{line: 2874, col: 13, offset: 90887},
+																															pos: position{line: 2877, col: 13, offset: 90990},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 13, offset: 90887},
+																																	pos:        position{line: 2877, col: 13, offset: 90990},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 20, offset: 90894},
+																																	pos:        position{line: 2877, col: 20, offset: 90997},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 29, offset: 90903},
+																																	pos:        position{line: 2877, col: 29, offset: 91006},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5047,9 +5047,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2884, col: 8, offset: 91063},
+																														pos: position{line: 2887, col: 8, offset: 91166},
 																														expr: &anyMatcher{
-																															line: 2884, col: 9, offset: 91064,
+																															line: 2887, col: 9, offset: 91167,
 																														},
 																													},
 																												},
@@ -5059,45 +5059,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 861, col: 5, offset: 27439},
+																								pos: position{line: 864, col: 5, offset: 27542},
 																								run: (*parser).callonDocumentFragment222,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2884, col: 8, offset: 91063},
+																						pos: position{line: 2887, col: 8, offset: 91166},
 																						expr: &anyMatcher{
-																							line: 2884, col: 9, offset: 91064,
+																							line: 2887, col: 9, offset: 91167,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 868, col: 5, offset: 27596},
+																			pos:   position{line: 871, col: 5, offset: 27699},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 814, col: 5, offset: 26191},
 																				run: (*parser).callonDocumentFragment226,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 814, col: 5, offset: 26191},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2882, col: 11, offset: 91049},
+																							pos: position{line: 2885, col: 11, offset: 91152},
 																							expr: &anyMatcher{
-																								line: 2882, col: 13, offset: 91051,
+																								line: 2885, col: 13, offset: 91154,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 815, col: 5, offset: 26266},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2811, col: 13, offset: 89241},
+																								pos: position{line: 2814, col: 13, offset: 89344},
 																								run: (*parser).callonDocumentFragment231,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2811, col: 13, offset: 89241},
+																									pos: position{line: 2814, col: 13, offset: 89344},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2811, col: 13, offset: 89241},
+																										pos:        position{line: 2814, col: 13, offset: 89344},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5107,28 +5107,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonDocumentFragment235,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5137,9 +5137,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -5154,44 +5154,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 853, col: 5, offset: 27202},
+														pos:   position{line: 856, col: 5, offset: 27305},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 853, col: 9, offset: 27206},
+															pos: position{line: 856, col: 9, offset: 27309},
 															expr: &choiceExpr{
-																pos: position{line: 860, col: 5, offset: 27408},
+																pos: position{line: 863, col: 5, offset: 27511},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 860, col: 5, offset: 27408},
+																		pos: position{line: 863, col: 5, offset: 27511},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 860, col: 5, offset: 27408},
+																				pos:   position{line: 863, col: 5, offset: 27511},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 747, col: 5, offset: 23832},
+																					pos: position{line: 750, col: 5, offset: 23935},
 																					run: (*parser).callonDocumentFragment247,
 																					expr: &seqExpr{
-																						pos: position{line: 747, col: 5, offset: 23832},
+																						pos: position{line: 750, col: 5, offset: 23935},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 747, col: 5, offset: 23832},
+																								pos:   position{line: 750, col: 5, offset: 23935},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 747, col: 16, offset: 23843},
+																									pos: position{line: 750, col: 16, offset: 23946},
 																									run: (*parser).callonDocumentFragment250,
 																									expr: &seqExpr{
-																										pos: position{line: 747, col: 16, offset: 23843},
+																										pos: position{line: 750, col: 16, offset: 23946},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 747, col: 16, offset: 23843},
+																												pos:        position{line: 750, col: 16, offset: 23946},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 747, col: 23, offset: 23850},
+																												pos: position{line: 750, col: 23, offset: 23953},
 																												expr: &litMatcher{
-																													pos:        position{line: 747, col: 23, offset: 23850},
+																													pos:        position{line: 750, col: 23, offset: 23953},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5202,12 +5202,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 749, col: 8, offset: 23934},
+																								pos: position{line: 752, col: 8, offset: 24037},
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 10, offset: 90715},
+																									pos: position{line: 2868, col: 10, offset: 90818},
 																									run: (*parser).callonDocumentFragment256,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2865, col: 10, offset: 90715},
+																										pos:        position{line: 2868, col: 10, offset: 90818},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5216,28 +5216,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2887, col: 8, offset: 91113},
+																								pos: position{line: 2890, col: 8, offset: 91216},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2874, col: 12, offset: 90886},
+																										pos: position{line: 2877, col: 12, offset: 90989},
 																										run: (*parser).callonDocumentFragment259,
 																										expr: &choiceExpr{
-																											pos: position{line: 2874, col: 13, offset: 90887},
+																											pos: position{line: 2877, col: 13, offset: 90990},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 13, offset: 90887},
+																													pos:        position{line: 2877, col: 13, offset: 90990},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 20, offset: 90894},
+																													pos:        position{line: 2877, col: 20, offset: 90997},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 29, offset: 90903},
+																													pos:        position{line: 2877, col: 29, offset: 91006},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5246,9 +5246,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2884, col: 8, offset: 91063},
+																										pos: position{line: 2887, col: 8, offset: 91166},
 																										expr: &anyMatcher{
-																											line: 2884, col: 9, offset: 91064,
+																											line: 2887, col: 9, offset: 91167,
 																										},
 																									},
 																								},
@@ -5258,15 +5258,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 861, col: 5, offset: 27439},
+																				pos: position{line: 864, col: 5, offset: 27542},
 																				run: (*parser).callonDocumentFragment266,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2884, col: 8, offset: 91063},
+																		pos: position{line: 2887, col: 8, offset: 91166},
 																		expr: &anyMatcher{
-																			line: 2884, col: 9, offset: 91064,
+																			line: 2887, col: 9, offset: 91167,
 																		},
 																	},
 																},
@@ -5277,36 +5277,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 960, col: 5, offset: 29888},
+											pos: position{line: 963, col: 5, offset: 29991},
 											run: (*parser).callonDocumentFragment269,
 											expr: &seqExpr{
-												pos: position{line: 960, col: 5, offset: 29888},
+												pos: position{line: 963, col: 5, offset: 29991},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 960, col: 5, offset: 29888},
+														pos:   position{line: 963, col: 5, offset: 29991},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 760, col: 26, offset: 24320},
+															pos: position{line: 763, col: 26, offset: 24423},
 															run: (*parser).callonDocumentFragment272,
 															expr: &seqExpr{
-																pos: position{line: 760, col: 26, offset: 24320},
+																pos: position{line: 763, col: 26, offset: 24423},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 760, col: 26, offset: 24320},
+																		pos:        position{line: 763, col: 26, offset: 24423},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 760, col: 32, offset: 24326},
+																		pos:   position{line: 763, col: 32, offset: 24429},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 764, col: 13, offset: 24456},
+																			pos: position{line: 767, col: 13, offset: 24559},
 																			run: (*parser).callonDocumentFragment276,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 764, col: 14, offset: 24457},
+																				pos: position{line: 767, col: 14, offset: 24560},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 764, col: 14, offset: 24457},
+																					pos:        position{line: 767, col: 14, offset: 24560},
 																					val:        "[^\\r\\n` ]",
 																					chars:      []rune{'\r', '\n', '`', ' '},
 																					ignoreCase: false,
@@ -5316,12 +5316,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 760, col: 52, offset: 24346},
+																		pos: position{line: 763, col: 52, offset: 24449},
 																		expr: &actionExpr{
-																			pos: position{line: 2865, col: 10, offset: 90715},
+																			pos: position{line: 2868, col: 10, offset: 90818},
 																			run: (*parser).callonDocumentFragment280,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 10, offset: 90715},
+																				pos:        position{line: 2868, col: 10, offset: 90818},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5330,28 +5330,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2887, col: 8, offset: 91113},
+																		pos: position{line: 2890, col: 8, offset: 91216},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2874, col: 12, offset: 90886},
+																				pos: position{line: 2877, col: 12, offset: 90989},
 																				run: (*parser).callonDocumentFragment283,
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 13, offset: 90887},
+																					pos: position{line: 2877, col: 13, offset: 90990},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 13, offset: 90887},
+																							pos:        position{line: 2877, col: 13, offset: 90990},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 20, offset: 90894},
+																							pos:        position{line: 2877, col: 20, offset: 90997},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 29, offset: 90903},
+																							pos:        position{line: 2877, col: 29, offset: 91006},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5360,9 +5360,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2884, col: 8, offset: 91063},
+																				pos: position{line: 2887, col: 8, offset: 91166},
 																				expr: &anyMatcher{
-																					line: 2884, col: 9, offset: 91064,
+																					line: 2887, col: 9, offset: 91167,
 																				},
 																			},
 																		},
@@ -5372,34 +5372,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 961, col: 5, offset: 29934},
+														pos:   position{line: 964, col: 5, offset: 30037},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 974, col: 5, offset: 30407},
+															pos: position{line: 977, col: 5, offset: 30510},
 															expr: &actionExpr{
-																pos: position{line: 974, col: 6, offset: 30408},
+																pos: position{line: 977, col: 6, offset: 30511},
 																run: (*parser).callonDocumentFragment292,
 																expr: &seqExpr{
-																	pos: position{line: 974, col: 6, offset: 30408},
+																	pos: position{line: 977, col: 6, offset: 30511},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 974, col: 6, offset: 30408},
+																			pos: position{line: 977, col: 6, offset: 30511},
 																			expr: &seqExpr{
-																				pos: position{line: 971, col: 34, offset: 30355},
+																				pos: position{line: 974, col: 34, offset: 30458},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 971, col: 34, offset: 30355},
+																						pos:        position{line: 974, col: 34, offset: 30458},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 971, col: 40, offset: 30361},
+																						pos: position{line: 974, col: 40, offset: 30464},
 																						expr: &actionExpr{
-																							pos: position{line: 2865, col: 10, offset: 90715},
+																							pos: position{line: 2868, col: 10, offset: 90818},
 																							run: (*parser).callonDocumentFragment298,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2865, col: 10, offset: 90715},
+																								pos:        position{line: 2868, col: 10, offset: 90818},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5408,28 +5408,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2887, col: 8, offset: 91113},
+																						pos: position{line: 2890, col: 8, offset: 91216},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2874, col: 12, offset: 90886},
+																								pos: position{line: 2877, col: 12, offset: 90989},
 																								run: (*parser).callonDocumentFragment301,
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 13, offset: 90887},
+																									pos: position{line: 2877, col: 13, offset: 90990},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 13, offset: 90887},
+																											pos:        position{line: 2877, col: 13, offset: 90990},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 20, offset: 90894},
+																											pos:        position{line: 2877, col: 20, offset: 90997},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 29, offset: 90903},
+																											pos:        position{line: 2877, col: 29, offset: 91006},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5438,9 +5438,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2884, col: 8, offset: 91063},
+																								pos: position{line: 2887, col: 8, offset: 91166},
 																								expr: &anyMatcher{
-																									line: 2884, col: 9, offset: 91064,
+																									line: 2887, col: 9, offset: 91167,
 																								},
 																							},
 																						},
@@ -5449,30 +5449,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 975, col: 5, offset: 30443},
+																			pos:   position{line: 978, col: 5, offset: 30546},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 814, col: 5, offset: 26191},
 																				run: (*parser).callonDocumentFragment309,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 814, col: 5, offset: 26191},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2882, col: 11, offset: 91049},
+																							pos: position{line: 2885, col: 11, offset: 91152},
 																							expr: &anyMatcher{
-																								line: 2882, col: 13, offset: 91051,
+																								line: 2885, col: 13, offset: 91154,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 815, col: 5, offset: 26266},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2811, col: 13, offset: 89241},
+																								pos: position{line: 2814, col: 13, offset: 89344},
 																								run: (*parser).callonDocumentFragment314,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2811, col: 13, offset: 89241},
+																									pos: position{line: 2814, col: 13, offset: 89344},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2811, col: 13, offset: 89241},
+																										pos:        position{line: 2814, col: 13, offset: 89344},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5482,28 +5482,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonDocumentFragment318,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5512,9 +5512,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -5529,23 +5529,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 962, col: 5, offset: 29973},
+														pos: position{line: 965, col: 5, offset: 30076},
 														expr: &seqExpr{
-															pos: position{line: 971, col: 34, offset: 30355},
+															pos: position{line: 974, col: 34, offset: 30458},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 971, col: 34, offset: 30355},
+																	pos:        position{line: 974, col: 34, offset: 30458},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 971, col: 40, offset: 30361},
+																	pos: position{line: 974, col: 40, offset: 30464},
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 10, offset: 90715},
+																		pos: position{line: 2868, col: 10, offset: 90818},
 																		run: (*parser).callonDocumentFragment329,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90715},
+																			pos:        position{line: 2868, col: 10, offset: 90818},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5554,28 +5554,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonDocumentFragment332,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5584,9 +5584,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -5598,39 +5598,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 876, col: 5, offset: 27749},
+											pos: position{line: 879, col: 5, offset: 27852},
 											run: (*parser).callonDocumentFragment339,
 											expr: &seqExpr{
-												pos: position{line: 876, col: 5, offset: 27749},
+												pos: position{line: 879, col: 5, offset: 27852},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 876, col: 5, offset: 27749},
+														pos:   position{line: 879, col: 5, offset: 27852},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 754, col: 5, offset: 24079},
+															pos: position{line: 757, col: 5, offset: 24182},
 															run: (*parser).callonDocumentFragment342,
 															expr: &seqExpr{
-																pos: position{line: 754, col: 5, offset: 24079},
+																pos: position{line: 757, col: 5, offset: 24182},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 754, col: 5, offset: 24079},
+																		pos:   position{line: 757, col: 5, offset: 24182},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 754, col: 16, offset: 24090},
+																			pos: position{line: 757, col: 16, offset: 24193},
 																			run: (*parser).callonDocumentFragment345,
 																			expr: &seqExpr{
-																				pos: position{line: 754, col: 16, offset: 24090},
+																				pos: position{line: 757, col: 16, offset: 24193},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 754, col: 16, offset: 24090},
+																						pos:        position{line: 757, col: 16, offset: 24193},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 754, col: 22, offset: 24096},
+																						pos: position{line: 757, col: 22, offset: 24199},
 																						expr: &litMatcher{
-																							pos:        position{line: 754, col: 22, offset: 24096},
+																							pos:        position{line: 757, col: 22, offset: 24199},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5641,12 +5641,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 756, col: 8, offset: 24180},
+																		pos: position{line: 759, col: 8, offset: 24283},
 																		expr: &actionExpr{
-																			pos: position{line: 2865, col: 10, offset: 90715},
+																			pos: position{line: 2868, col: 10, offset: 90818},
 																			run: (*parser).callonDocumentFragment351,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 10, offset: 90715},
+																				pos:        position{line: 2868, col: 10, offset: 90818},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5655,28 +5655,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2887, col: 8, offset: 91113},
+																		pos: position{line: 2890, col: 8, offset: 91216},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2874, col: 12, offset: 90886},
+																				pos: position{line: 2877, col: 12, offset: 90989},
 																				run: (*parser).callonDocumentFragment354,
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 13, offset: 90887},
+																					pos: position{line: 2877, col: 13, offset: 90990},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 13, offset: 90887},
+																							pos:        position{line: 2877, col: 13, offset: 90990},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 20, offset: 90894},
+																							pos:        position{line: 2877, col: 20, offset: 90997},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 29, offset: 90903},
+																							pos:        position{line: 2877, col: 29, offset: 91006},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5685,9 +5685,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2884, col: 8, offset: 91063},
+																				pos: position{line: 2887, col: 8, offset: 91166},
 																				expr: &anyMatcher{
-																					line: 2884, col: 9, offset: 91064,
+																					line: 2887, col: 9, offset: 91167,
 																				},
 																			},
 																		},
@@ -5697,56 +5697,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 877, col: 5, offset: 27787},
+														pos: position{line: 880, col: 5, offset: 27890},
 														run: (*parser).callonDocumentFragment361,
 													},
 													&labeledExpr{
-														pos:   position{line: 880, col: 5, offset: 27879},
+														pos:   position{line: 883, col: 5, offset: 27982},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 895, col: 5, offset: 28269},
+															pos: position{line: 898, col: 5, offset: 28372},
 															expr: &actionExpr{
-																pos: position{line: 895, col: 6, offset: 28270},
+																pos: position{line: 898, col: 6, offset: 28373},
 																run: (*parser).callonDocumentFragment364,
 																expr: &seqExpr{
-																	pos: position{line: 895, col: 6, offset: 28270},
+																	pos: position{line: 898, col: 6, offset: 28373},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 895, col: 6, offset: 28270},
+																			pos: position{line: 898, col: 6, offset: 28373},
 																			expr: &choiceExpr{
-																				pos: position{line: 888, col: 5, offset: 28113},
+																				pos: position{line: 891, col: 5, offset: 28216},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 888, col: 5, offset: 28113},
+																						pos: position{line: 891, col: 5, offset: 28216},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 888, col: 5, offset: 28113},
+																								pos:   position{line: 891, col: 5, offset: 28216},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 5, offset: 24079},
+																									pos: position{line: 757, col: 5, offset: 24182},
 																									run: (*parser).callonDocumentFragment370,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 5, offset: 24079},
+																										pos: position{line: 757, col: 5, offset: 24182},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 754, col: 5, offset: 24079},
+																												pos:   position{line: 757, col: 5, offset: 24182},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 754, col: 16, offset: 24090},
+																													pos: position{line: 757, col: 16, offset: 24193},
 																													run: (*parser).callonDocumentFragment373,
 																													expr: &seqExpr{
-																														pos: position{line: 754, col: 16, offset: 24090},
+																														pos: position{line: 757, col: 16, offset: 24193},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 754, col: 16, offset: 24090},
+																																pos:        position{line: 757, col: 16, offset: 24193},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 754, col: 22, offset: 24096},
+																																pos: position{line: 757, col: 22, offset: 24199},
 																																expr: &litMatcher{
-																																	pos:        position{line: 754, col: 22, offset: 24096},
+																																	pos:        position{line: 757, col: 22, offset: 24199},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5757,12 +5757,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 756, col: 8, offset: 24180},
+																												pos: position{line: 759, col: 8, offset: 24283},
 																												expr: &actionExpr{
-																													pos: position{line: 2865, col: 10, offset: 90715},
+																													pos: position{line: 2868, col: 10, offset: 90818},
 																													run: (*parser).callonDocumentFragment379,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2865, col: 10, offset: 90715},
+																														pos:        position{line: 2868, col: 10, offset: 90818},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5771,28 +5771,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2887, col: 8, offset: 91113},
+																												pos: position{line: 2890, col: 8, offset: 91216},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2874, col: 12, offset: 90886},
+																														pos: position{line: 2877, col: 12, offset: 90989},
 																														run: (*parser).callonDocumentFragment382,
 																														expr: &choiceExpr{
-																															pos: position{line: 2874, col: 13, offset: 90887},
+																															pos: position{line: 2877, col: 13, offset: 90990},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 13, offset: 90887},
+																																	pos:        position{line: 2877, col: 13, offset: 90990},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 20, offset: 90894},
+																																	pos:        position{line: 2877, col: 20, offset: 90997},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 29, offset: 90903},
+																																	pos:        position{line: 2877, col: 29, offset: 91006},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5801,9 +5801,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2884, col: 8, offset: 91063},
+																														pos: position{line: 2887, col: 8, offset: 91166},
 																														expr: &anyMatcher{
-																															line: 2884, col: 9, offset: 91064,
+																															line: 2887, col: 9, offset: 91167,
 																														},
 																													},
 																												},
@@ -5813,45 +5813,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 889, col: 5, offset: 28143},
+																								pos: position{line: 892, col: 5, offset: 28246},
 																								run: (*parser).callonDocumentFragment389,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2884, col: 8, offset: 91063},
+																						pos: position{line: 2887, col: 8, offset: 91166},
 																						expr: &anyMatcher{
-																							line: 2884, col: 9, offset: 91064,
+																							line: 2887, col: 9, offset: 91167,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 896, col: 5, offset: 28299},
+																			pos:   position{line: 899, col: 5, offset: 28402},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 814, col: 5, offset: 26191},
 																				run: (*parser).callonDocumentFragment393,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 814, col: 5, offset: 26191},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2882, col: 11, offset: 91049},
+																							pos: position{line: 2885, col: 11, offset: 91152},
 																							expr: &anyMatcher{
-																								line: 2882, col: 13, offset: 91051,
+																								line: 2885, col: 13, offset: 91154,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 815, col: 5, offset: 26266},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2811, col: 13, offset: 89241},
+																								pos: position{line: 2814, col: 13, offset: 89344},
 																								run: (*parser).callonDocumentFragment398,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2811, col: 13, offset: 89241},
+																									pos: position{line: 2814, col: 13, offset: 89344},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2811, col: 13, offset: 89241},
+																										pos:        position{line: 2814, col: 13, offset: 89344},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5861,28 +5861,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonDocumentFragment402,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5891,9 +5891,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -5908,44 +5908,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 881, col: 5, offset: 27912},
+														pos:   position{line: 884, col: 5, offset: 28015},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 881, col: 9, offset: 27916},
+															pos: position{line: 884, col: 9, offset: 28019},
 															expr: &choiceExpr{
-																pos: position{line: 888, col: 5, offset: 28113},
+																pos: position{line: 891, col: 5, offset: 28216},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 888, col: 5, offset: 28113},
+																		pos: position{line: 891, col: 5, offset: 28216},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 888, col: 5, offset: 28113},
+																				pos:   position{line: 891, col: 5, offset: 28216},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 754, col: 5, offset: 24079},
+																					pos: position{line: 757, col: 5, offset: 24182},
 																					run: (*parser).callonDocumentFragment414,
 																					expr: &seqExpr{
-																						pos: position{line: 754, col: 5, offset: 24079},
+																						pos: position{line: 757, col: 5, offset: 24182},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 754, col: 5, offset: 24079},
+																								pos:   position{line: 757, col: 5, offset: 24182},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 16, offset: 24090},
+																									pos: position{line: 757, col: 16, offset: 24193},
 																									run: (*parser).callonDocumentFragment417,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 16, offset: 24090},
+																										pos: position{line: 757, col: 16, offset: 24193},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 754, col: 16, offset: 24090},
+																												pos:        position{line: 757, col: 16, offset: 24193},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 754, col: 22, offset: 24096},
+																												pos: position{line: 757, col: 22, offset: 24199},
 																												expr: &litMatcher{
-																													pos:        position{line: 754, col: 22, offset: 24096},
+																													pos:        position{line: 757, col: 22, offset: 24199},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -5956,12 +5956,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 756, col: 8, offset: 24180},
+																								pos: position{line: 759, col: 8, offset: 24283},
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 10, offset: 90715},
+																									pos: position{line: 2868, col: 10, offset: 90818},
 																									run: (*parser).callonDocumentFragment423,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2865, col: 10, offset: 90715},
+																										pos:        position{line: 2868, col: 10, offset: 90818},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5970,28 +5970,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2887, col: 8, offset: 91113},
+																								pos: position{line: 2890, col: 8, offset: 91216},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2874, col: 12, offset: 90886},
+																										pos: position{line: 2877, col: 12, offset: 90989},
 																										run: (*parser).callonDocumentFragment426,
 																										expr: &choiceExpr{
-																											pos: position{line: 2874, col: 13, offset: 90887},
+																											pos: position{line: 2877, col: 13, offset: 90990},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 13, offset: 90887},
+																													pos:        position{line: 2877, col: 13, offset: 90990},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 20, offset: 90894},
+																													pos:        position{line: 2877, col: 20, offset: 90997},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 29, offset: 90903},
+																													pos:        position{line: 2877, col: 29, offset: 91006},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6000,9 +6000,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2884, col: 8, offset: 91063},
+																										pos: position{line: 2887, col: 8, offset: 91166},
 																										expr: &anyMatcher{
-																											line: 2884, col: 9, offset: 91064,
+																											line: 2887, col: 9, offset: 91167,
 																										},
 																									},
 																								},
@@ -6012,15 +6012,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 889, col: 5, offset: 28143},
+																				pos: position{line: 892, col: 5, offset: 28246},
 																				run: (*parser).callonDocumentFragment433,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2884, col: 8, offset: 91063},
+																		pos: position{line: 2887, col: 8, offset: 91166},
 																		expr: &anyMatcher{
-																			line: 2884, col: 9, offset: 91064,
+																			line: 2887, col: 9, offset: 91167,
 																		},
 																	},
 																},
@@ -6031,39 +6031,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 904, col: 5, offset: 28454},
+											pos: position{line: 907, col: 5, offset: 28557},
 											run: (*parser).callonDocumentFragment436,
 											expr: &seqExpr{
-												pos: position{line: 904, col: 5, offset: 28454},
+												pos: position{line: 907, col: 5, offset: 28557},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 904, col: 5, offset: 28454},
+														pos:   position{line: 907, col: 5, offset: 28557},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 769, col: 5, offset: 24616},
+															pos: position{line: 772, col: 5, offset: 24719},
 															run: (*parser).callonDocumentFragment439,
 															expr: &seqExpr{
-																pos: position{line: 769, col: 5, offset: 24616},
+																pos: position{line: 772, col: 5, offset: 24719},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 769, col: 5, offset: 24616},
+																		pos:   position{line: 772, col: 5, offset: 24719},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 769, col: 16, offset: 24627},
+																			pos: position{line: 772, col: 16, offset: 24730},
 																			run: (*parser).callonDocumentFragment442,
 																			expr: &seqExpr{
-																				pos: position{line: 769, col: 16, offset: 24627},
+																				pos: position{line: 772, col: 16, offset: 24730},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 769, col: 16, offset: 24627},
+																						pos:        position{line: 772, col: 16, offset: 24730},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 769, col: 23, offset: 24634},
+																						pos: position{line: 772, col: 23, offset: 24737},
 																						expr: &litMatcher{
-																							pos:        position{line: 769, col: 23, offset: 24634},
+																							pos:        position{line: 772, col: 23, offset: 24737},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6074,12 +6074,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 771, col: 8, offset: 24718},
+																		pos: position{line: 774, col: 8, offset: 24821},
 																		expr: &actionExpr{
-																			pos: position{line: 2865, col: 10, offset: 90715},
+																			pos: position{line: 2868, col: 10, offset: 90818},
 																			run: (*parser).callonDocumentFragment448,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 10, offset: 90715},
+																				pos:        position{line: 2868, col: 10, offset: 90818},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6088,28 +6088,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2887, col: 8, offset: 91113},
+																		pos: position{line: 2890, col: 8, offset: 91216},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2874, col: 12, offset: 90886},
+																				pos: position{line: 2877, col: 12, offset: 90989},
 																				run: (*parser).callonDocumentFragment451,
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 13, offset: 90887},
+																					pos: position{line: 2877, col: 13, offset: 90990},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 13, offset: 90887},
+																							pos:        position{line: 2877, col: 13, offset: 90990},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 20, offset: 90894},
+																							pos:        position{line: 2877, col: 20, offset: 90997},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 29, offset: 90903},
+																							pos:        position{line: 2877, col: 29, offset: 91006},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6118,9 +6118,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2884, col: 8, offset: 91063},
+																				pos: position{line: 2887, col: 8, offset: 91166},
 																				expr: &anyMatcher{
-																					line: 2884, col: 9, offset: 91064,
+																					line: 2887, col: 9, offset: 91167,
 																				},
 																			},
 																		},
@@ -6130,56 +6130,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 905, col: 5, offset: 28493},
+														pos: position{line: 908, col: 5, offset: 28596},
 														run: (*parser).callonDocumentFragment458,
 													},
 													&labeledExpr{
-														pos:   position{line: 908, col: 5, offset: 28585},
+														pos:   position{line: 911, col: 5, offset: 28688},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 923, col: 5, offset: 28983},
+															pos: position{line: 926, col: 5, offset: 29086},
 															expr: &actionExpr{
-																pos: position{line: 923, col: 6, offset: 28984},
+																pos: position{line: 926, col: 6, offset: 29087},
 																run: (*parser).callonDocumentFragment461,
 																expr: &seqExpr{
-																	pos: position{line: 923, col: 6, offset: 28984},
+																	pos: position{line: 926, col: 6, offset: 29087},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 923, col: 6, offset: 28984},
+																			pos: position{line: 926, col: 6, offset: 29087},
 																			expr: &choiceExpr{
-																				pos: position{line: 916, col: 5, offset: 28825},
+																				pos: position{line: 919, col: 5, offset: 28928},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 916, col: 5, offset: 28825},
+																						pos: position{line: 919, col: 5, offset: 28928},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 916, col: 5, offset: 28825},
+																								pos:   position{line: 919, col: 5, offset: 28928},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 5, offset: 24616},
+																									pos: position{line: 772, col: 5, offset: 24719},
 																									run: (*parser).callonDocumentFragment467,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 5, offset: 24616},
+																										pos: position{line: 772, col: 5, offset: 24719},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 769, col: 5, offset: 24616},
+																												pos:   position{line: 772, col: 5, offset: 24719},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 769, col: 16, offset: 24627},
+																													pos: position{line: 772, col: 16, offset: 24730},
 																													run: (*parser).callonDocumentFragment470,
 																													expr: &seqExpr{
-																														pos: position{line: 769, col: 16, offset: 24627},
+																														pos: position{line: 772, col: 16, offset: 24730},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 769, col: 16, offset: 24627},
+																																pos:        position{line: 772, col: 16, offset: 24730},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 769, col: 23, offset: 24634},
+																																pos: position{line: 772, col: 23, offset: 24737},
 																																expr: &litMatcher{
-																																	pos:        position{line: 769, col: 23, offset: 24634},
+																																	pos:        position{line: 772, col: 23, offset: 24737},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6190,12 +6190,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 771, col: 8, offset: 24718},
+																												pos: position{line: 774, col: 8, offset: 24821},
 																												expr: &actionExpr{
-																													pos: position{line: 2865, col: 10, offset: 90715},
+																													pos: position{line: 2868, col: 10, offset: 90818},
 																													run: (*parser).callonDocumentFragment476,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2865, col: 10, offset: 90715},
+																														pos:        position{line: 2868, col: 10, offset: 90818},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6204,28 +6204,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2887, col: 8, offset: 91113},
+																												pos: position{line: 2890, col: 8, offset: 91216},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2874, col: 12, offset: 90886},
+																														pos: position{line: 2877, col: 12, offset: 90989},
 																														run: (*parser).callonDocumentFragment479,
 																														expr: &choiceExpr{
-																															pos: position{line: 2874, col: 13, offset: 90887},
+																															pos: position{line: 2877, col: 13, offset: 90990},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 13, offset: 90887},
+																																	pos:        position{line: 2877, col: 13, offset: 90990},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 20, offset: 90894},
+																																	pos:        position{line: 2877, col: 20, offset: 90997},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 29, offset: 90903},
+																																	pos:        position{line: 2877, col: 29, offset: 91006},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6234,9 +6234,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2884, col: 8, offset: 91063},
+																														pos: position{line: 2887, col: 8, offset: 91166},
 																														expr: &anyMatcher{
-																															line: 2884, col: 9, offset: 91064,
+																															line: 2887, col: 9, offset: 91167,
 																														},
 																													},
 																												},
@@ -6246,45 +6246,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 917, col: 5, offset: 28856},
+																								pos: position{line: 920, col: 5, offset: 28959},
 																								run: (*parser).callonDocumentFragment486,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2884, col: 8, offset: 91063},
+																						pos: position{line: 2887, col: 8, offset: 91166},
 																						expr: &anyMatcher{
-																							line: 2884, col: 9, offset: 91064,
+																							line: 2887, col: 9, offset: 91167,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 924, col: 5, offset: 29014},
+																			pos:   position{line: 927, col: 5, offset: 29117},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 814, col: 5, offset: 26191},
 																				run: (*parser).callonDocumentFragment490,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 814, col: 5, offset: 26191},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2882, col: 11, offset: 91049},
+																							pos: position{line: 2885, col: 11, offset: 91152},
 																							expr: &anyMatcher{
-																								line: 2882, col: 13, offset: 91051,
+																								line: 2885, col: 13, offset: 91154,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 815, col: 5, offset: 26266},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2811, col: 13, offset: 89241},
+																								pos: position{line: 2814, col: 13, offset: 89344},
 																								run: (*parser).callonDocumentFragment495,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2811, col: 13, offset: 89241},
+																									pos: position{line: 2814, col: 13, offset: 89344},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2811, col: 13, offset: 89241},
+																										pos:        position{line: 2814, col: 13, offset: 89344},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6294,28 +6294,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonDocumentFragment499,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6324,9 +6324,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -6341,44 +6341,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 909, col: 5, offset: 28619},
+														pos:   position{line: 912, col: 5, offset: 28722},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 909, col: 9, offset: 28623},
+															pos: position{line: 912, col: 9, offset: 28726},
 															expr: &choiceExpr{
-																pos: position{line: 916, col: 5, offset: 28825},
+																pos: position{line: 919, col: 5, offset: 28928},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 916, col: 5, offset: 28825},
+																		pos: position{line: 919, col: 5, offset: 28928},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 916, col: 5, offset: 28825},
+																				pos:   position{line: 919, col: 5, offset: 28928},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 769, col: 5, offset: 24616},
+																					pos: position{line: 772, col: 5, offset: 24719},
 																					run: (*parser).callonDocumentFragment511,
 																					expr: &seqExpr{
-																						pos: position{line: 769, col: 5, offset: 24616},
+																						pos: position{line: 772, col: 5, offset: 24719},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 769, col: 5, offset: 24616},
+																								pos:   position{line: 772, col: 5, offset: 24719},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 769, col: 16, offset: 24627},
+																									pos: position{line: 772, col: 16, offset: 24730},
 																									run: (*parser).callonDocumentFragment514,
 																									expr: &seqExpr{
-																										pos: position{line: 769, col: 16, offset: 24627},
+																										pos: position{line: 772, col: 16, offset: 24730},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 769, col: 16, offset: 24627},
+																												pos:        position{line: 772, col: 16, offset: 24730},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 769, col: 23, offset: 24634},
+																												pos: position{line: 772, col: 23, offset: 24737},
 																												expr: &litMatcher{
-																													pos:        position{line: 769, col: 23, offset: 24634},
+																													pos:        position{line: 772, col: 23, offset: 24737},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6389,12 +6389,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 771, col: 8, offset: 24718},
+																								pos: position{line: 774, col: 8, offset: 24821},
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 10, offset: 90715},
+																									pos: position{line: 2868, col: 10, offset: 90818},
 																									run: (*parser).callonDocumentFragment520,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2865, col: 10, offset: 90715},
+																										pos:        position{line: 2868, col: 10, offset: 90818},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6403,28 +6403,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2887, col: 8, offset: 91113},
+																								pos: position{line: 2890, col: 8, offset: 91216},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2874, col: 12, offset: 90886},
+																										pos: position{line: 2877, col: 12, offset: 90989},
 																										run: (*parser).callonDocumentFragment523,
 																										expr: &choiceExpr{
-																											pos: position{line: 2874, col: 13, offset: 90887},
+																											pos: position{line: 2877, col: 13, offset: 90990},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 13, offset: 90887},
+																													pos:        position{line: 2877, col: 13, offset: 90990},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 20, offset: 90894},
+																													pos:        position{line: 2877, col: 20, offset: 90997},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 29, offset: 90903},
+																													pos:        position{line: 2877, col: 29, offset: 91006},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6433,9 +6433,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2884, col: 8, offset: 91063},
+																										pos: position{line: 2887, col: 8, offset: 91166},
 																										expr: &anyMatcher{
-																											line: 2884, col: 9, offset: 91064,
+																											line: 2887, col: 9, offset: 91167,
 																										},
 																									},
 																								},
@@ -6445,15 +6445,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 917, col: 5, offset: 28856},
+																				pos: position{line: 920, col: 5, offset: 28959},
 																				run: (*parser).callonDocumentFragment530,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2884, col: 8, offset: 91063},
+																		pos: position{line: 2887, col: 8, offset: 91166},
 																		expr: &anyMatcher{
-																			line: 2884, col: 9, offset: 91064,
+																			line: 2887, col: 9, offset: 91167,
 																		},
 																	},
 																},
@@ -6464,39 +6464,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 932, col: 5, offset: 29169},
+											pos: position{line: 935, col: 5, offset: 29272},
 											run: (*parser).callonDocumentFragment533,
 											expr: &seqExpr{
-												pos: position{line: 932, col: 5, offset: 29169},
+												pos: position{line: 935, col: 5, offset: 29272},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 932, col: 5, offset: 29169},
+														pos:   position{line: 935, col: 5, offset: 29272},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 783, col: 5, offset: 25092},
+															pos: position{line: 786, col: 5, offset: 25195},
 															run: (*parser).callonDocumentFragment536,
 															expr: &seqExpr{
-																pos: position{line: 783, col: 5, offset: 25092},
+																pos: position{line: 786, col: 5, offset: 25195},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 783, col: 5, offset: 25092},
+																		pos:   position{line: 786, col: 5, offset: 25195},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 783, col: 16, offset: 25103},
+																			pos: position{line: 786, col: 16, offset: 25206},
 																			run: (*parser).callonDocumentFragment539,
 																			expr: &seqExpr{
-																				pos: position{line: 783, col: 16, offset: 25103},
+																				pos: position{line: 786, col: 16, offset: 25206},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 783, col: 16, offset: 25103},
+																						pos:        position{line: 786, col: 16, offset: 25206},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 783, col: 23, offset: 25110},
+																						pos: position{line: 786, col: 23, offset: 25213},
 																						expr: &litMatcher{
-																							pos:        position{line: 783, col: 23, offset: 25110},
+																							pos:        position{line: 786, col: 23, offset: 25213},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6507,12 +6507,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 785, col: 8, offset: 25194},
+																		pos: position{line: 788, col: 8, offset: 25297},
 																		expr: &actionExpr{
-																			pos: position{line: 2865, col: 10, offset: 90715},
+																			pos: position{line: 2868, col: 10, offset: 90818},
 																			run: (*parser).callonDocumentFragment545,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 10, offset: 90715},
+																				pos:        position{line: 2868, col: 10, offset: 90818},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6521,28 +6521,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2887, col: 8, offset: 91113},
+																		pos: position{line: 2890, col: 8, offset: 91216},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2874, col: 12, offset: 90886},
+																				pos: position{line: 2877, col: 12, offset: 90989},
 																				run: (*parser).callonDocumentFragment548,
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 13, offset: 90887},
+																					pos: position{line: 2877, col: 13, offset: 90990},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 13, offset: 90887},
+																							pos:        position{line: 2877, col: 13, offset: 90990},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 20, offset: 90894},
+																							pos:        position{line: 2877, col: 20, offset: 90997},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 29, offset: 90903},
+																							pos:        position{line: 2877, col: 29, offset: 91006},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6551,9 +6551,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2884, col: 8, offset: 91063},
+																				pos: position{line: 2887, col: 8, offset: 91166},
 																				expr: &anyMatcher{
-																					line: 2884, col: 9, offset: 91064,
+																					line: 2887, col: 9, offset: 91167,
 																				},
 																			},
 																		},
@@ -6563,56 +6563,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 933, col: 5, offset: 29208},
+														pos: position{line: 936, col: 5, offset: 29311},
 														run: (*parser).callonDocumentFragment555,
 													},
 													&labeledExpr{
-														pos:   position{line: 936, col: 5, offset: 29300},
+														pos:   position{line: 939, col: 5, offset: 29403},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 951, col: 5, offset: 29698},
+															pos: position{line: 954, col: 5, offset: 29801},
 															expr: &actionExpr{
-																pos: position{line: 951, col: 6, offset: 29699},
+																pos: position{line: 954, col: 6, offset: 29802},
 																run: (*parser).callonDocumentFragment558,
 																expr: &seqExpr{
-																	pos: position{line: 951, col: 6, offset: 29699},
+																	pos: position{line: 954, col: 6, offset: 29802},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 951, col: 6, offset: 29699},
+																			pos: position{line: 954, col: 6, offset: 29802},
 																			expr: &choiceExpr{
-																				pos: position{line: 944, col: 5, offset: 29540},
+																				pos: position{line: 947, col: 5, offset: 29643},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 944, col: 5, offset: 29540},
+																						pos: position{line: 947, col: 5, offset: 29643},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 944, col: 5, offset: 29540},
+																								pos:   position{line: 947, col: 5, offset: 29643},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 5, offset: 25092},
+																									pos: position{line: 786, col: 5, offset: 25195},
 																									run: (*parser).callonDocumentFragment564,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 5, offset: 25092},
+																										pos: position{line: 786, col: 5, offset: 25195},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 783, col: 5, offset: 25092},
+																												pos:   position{line: 786, col: 5, offset: 25195},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 783, col: 16, offset: 25103},
+																													pos: position{line: 786, col: 16, offset: 25206},
 																													run: (*parser).callonDocumentFragment567,
 																													expr: &seqExpr{
-																														pos: position{line: 783, col: 16, offset: 25103},
+																														pos: position{line: 786, col: 16, offset: 25206},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 783, col: 16, offset: 25103},
+																																pos:        position{line: 786, col: 16, offset: 25206},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 783, col: 23, offset: 25110},
+																																pos: position{line: 786, col: 23, offset: 25213},
 																																expr: &litMatcher{
-																																	pos:        position{line: 783, col: 23, offset: 25110},
+																																	pos:        position{line: 786, col: 23, offset: 25213},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6623,12 +6623,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 785, col: 8, offset: 25194},
+																												pos: position{line: 788, col: 8, offset: 25297},
 																												expr: &actionExpr{
-																													pos: position{line: 2865, col: 10, offset: 90715},
+																													pos: position{line: 2868, col: 10, offset: 90818},
 																													run: (*parser).callonDocumentFragment573,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2865, col: 10, offset: 90715},
+																														pos:        position{line: 2868, col: 10, offset: 90818},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6637,28 +6637,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2887, col: 8, offset: 91113},
+																												pos: position{line: 2890, col: 8, offset: 91216},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2874, col: 12, offset: 90886},
+																														pos: position{line: 2877, col: 12, offset: 90989},
 																														run: (*parser).callonDocumentFragment576,
 																														expr: &choiceExpr{
-																															pos: position{line: 2874, col: 13, offset: 90887},
+																															pos: position{line: 2877, col: 13, offset: 90990},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 13, offset: 90887},
+																																	pos:        position{line: 2877, col: 13, offset: 90990},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 20, offset: 90894},
+																																	pos:        position{line: 2877, col: 20, offset: 90997},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 29, offset: 90903},
+																																	pos:        position{line: 2877, col: 29, offset: 91006},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6667,9 +6667,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2884, col: 8, offset: 91063},
+																														pos: position{line: 2887, col: 8, offset: 91166},
 																														expr: &anyMatcher{
-																															line: 2884, col: 9, offset: 91064,
+																															line: 2887, col: 9, offset: 91167,
 																														},
 																													},
 																												},
@@ -6679,45 +6679,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 945, col: 5, offset: 29571},
+																								pos: position{line: 948, col: 5, offset: 29674},
 																								run: (*parser).callonDocumentFragment583,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2884, col: 8, offset: 91063},
+																						pos: position{line: 2887, col: 8, offset: 91166},
 																						expr: &anyMatcher{
-																							line: 2884, col: 9, offset: 91064,
+																							line: 2887, col: 9, offset: 91167,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 952, col: 5, offset: 29729},
+																			pos:   position{line: 955, col: 5, offset: 29832},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 814, col: 5, offset: 26191},
 																				run: (*parser).callonDocumentFragment587,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 814, col: 5, offset: 26191},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2882, col: 11, offset: 91049},
+																							pos: position{line: 2885, col: 11, offset: 91152},
 																							expr: &anyMatcher{
-																								line: 2882, col: 13, offset: 91051,
+																								line: 2885, col: 13, offset: 91154,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 815, col: 5, offset: 26266},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2811, col: 13, offset: 89241},
+																								pos: position{line: 2814, col: 13, offset: 89344},
 																								run: (*parser).callonDocumentFragment592,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2811, col: 13, offset: 89241},
+																									pos: position{line: 2814, col: 13, offset: 89344},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2811, col: 13, offset: 89241},
+																										pos:        position{line: 2814, col: 13, offset: 89344},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6727,28 +6727,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonDocumentFragment596,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6757,9 +6757,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -6774,44 +6774,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 937, col: 5, offset: 29334},
+														pos:   position{line: 940, col: 5, offset: 29437},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 937, col: 9, offset: 29338},
+															pos: position{line: 940, col: 9, offset: 29441},
 															expr: &choiceExpr{
-																pos: position{line: 944, col: 5, offset: 29540},
+																pos: position{line: 947, col: 5, offset: 29643},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 944, col: 5, offset: 29540},
+																		pos: position{line: 947, col: 5, offset: 29643},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 944, col: 5, offset: 29540},
+																				pos:   position{line: 947, col: 5, offset: 29643},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 783, col: 5, offset: 25092},
+																					pos: position{line: 786, col: 5, offset: 25195},
 																					run: (*parser).callonDocumentFragment608,
 																					expr: &seqExpr{
-																						pos: position{line: 783, col: 5, offset: 25092},
+																						pos: position{line: 786, col: 5, offset: 25195},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 783, col: 5, offset: 25092},
+																								pos:   position{line: 786, col: 5, offset: 25195},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 16, offset: 25103},
+																									pos: position{line: 786, col: 16, offset: 25206},
 																									run: (*parser).callonDocumentFragment611,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 16, offset: 25103},
+																										pos: position{line: 786, col: 16, offset: 25206},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 783, col: 16, offset: 25103},
+																												pos:        position{line: 786, col: 16, offset: 25206},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 783, col: 23, offset: 25110},
+																												pos: position{line: 786, col: 23, offset: 25213},
 																												expr: &litMatcher{
-																													pos:        position{line: 783, col: 23, offset: 25110},
+																													pos:        position{line: 786, col: 23, offset: 25213},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6822,12 +6822,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 785, col: 8, offset: 25194},
+																								pos: position{line: 788, col: 8, offset: 25297},
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 10, offset: 90715},
+																									pos: position{line: 2868, col: 10, offset: 90818},
 																									run: (*parser).callonDocumentFragment617,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2865, col: 10, offset: 90715},
+																										pos:        position{line: 2868, col: 10, offset: 90818},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6836,28 +6836,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2887, col: 8, offset: 91113},
+																								pos: position{line: 2890, col: 8, offset: 91216},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2874, col: 12, offset: 90886},
+																										pos: position{line: 2877, col: 12, offset: 90989},
 																										run: (*parser).callonDocumentFragment620,
 																										expr: &choiceExpr{
-																											pos: position{line: 2874, col: 13, offset: 90887},
+																											pos: position{line: 2877, col: 13, offset: 90990},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 13, offset: 90887},
+																													pos:        position{line: 2877, col: 13, offset: 90990},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 20, offset: 90894},
+																													pos:        position{line: 2877, col: 20, offset: 90997},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 29, offset: 90903},
+																													pos:        position{line: 2877, col: 29, offset: 91006},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6866,9 +6866,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2884, col: 8, offset: 91063},
+																										pos: position{line: 2887, col: 8, offset: 91166},
 																										expr: &anyMatcher{
-																											line: 2884, col: 9, offset: 91064,
+																											line: 2887, col: 9, offset: 91167,
 																										},
 																									},
 																								},
@@ -6878,15 +6878,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 945, col: 5, offset: 29571},
+																				pos: position{line: 948, col: 5, offset: 29674},
 																				run: (*parser).callonDocumentFragment627,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2884, col: 8, offset: 91063},
+																		pos: position{line: 2887, col: 8, offset: 91166},
 																		expr: &anyMatcher{
-																			line: 2884, col: 9, offset: 91064,
+																			line: 2887, col: 9, offset: 91167,
 																		},
 																	},
 																},
@@ -6897,63 +6897,63 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 983, col: 5, offset: 30612},
+											pos: position{line: 986, col: 5, offset: 30715},
 											run: (*parser).callonDocumentFragment630,
 											expr: &seqExpr{
-												pos: position{line: 983, col: 5, offset: 30612},
+												pos: position{line: 986, col: 5, offset: 30715},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 983, col: 5, offset: 30612},
+														pos:   position{line: 986, col: 5, offset: 30715},
 														label: "firstLine",
 														expr: &choiceExpr{
-															pos: position{line: 983, col: 16, offset: 30623},
+															pos: position{line: 986, col: 16, offset: 30726},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 996, col: 35, offset: 31099},
+																	pos: position{line: 999, col: 35, offset: 31202},
 																	run: (*parser).callonDocumentFragment634,
 																	expr: &seqExpr{
-																		pos: position{line: 996, col: 35, offset: 31099},
+																		pos: position{line: 999, col: 35, offset: 31202},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 996, col: 35, offset: 31099},
+																				pos:        position{line: 999, col: 35, offset: 31202},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 996, col: 40, offset: 31104},
+																				pos:   position{line: 999, col: 40, offset: 31207},
 																				label: "comment",
 																				expr: &actionExpr{
-																					pos: position{line: 2475, col: 22, offset: 79658},
+																					pos: position{line: 2478, col: 22, offset: 79761},
 																					run: (*parser).callonDocumentFragment638,
 																					expr: &seqExpr{
-																						pos: position{line: 2475, col: 22, offset: 79658},
+																						pos: position{line: 2478, col: 22, offset: 79761},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2480, col: 31, offset: 79879},
+																								pos:        position{line: 2483, col: 31, offset: 79982},
 																								val:        "//",
 																								ignoreCase: false,
 																								want:       "\"//\"",
 																							},
 																							&notExpr{
-																								pos: position{line: 2480, col: 36, offset: 79884},
+																								pos: position{line: 2483, col: 36, offset: 79987},
 																								expr: &litMatcher{
-																									pos:        position{line: 2480, col: 37, offset: 79885},
+																									pos:        position{line: 2483, col: 37, offset: 79988},
 																									val:        "//",
 																									ignoreCase: false,
 																									want:       "\"//\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 2475, col: 49, offset: 79685},
+																								pos:   position{line: 2478, col: 49, offset: 79788},
 																								label: "content",
 																								expr: &actionExpr{
-																									pos: position{line: 2811, col: 13, offset: 89241},
+																									pos: position{line: 2814, col: 13, offset: 89344},
 																									run: (*parser).callonDocumentFragment644,
 																									expr: &zeroOrMoreExpr{
-																										pos: position{line: 2811, col: 13, offset: 89241},
+																										pos: position{line: 2814, col: 13, offset: 89344},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2811, col: 13, offset: 89241},
+																											pos:        position{line: 2814, col: 13, offset: 89344},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -6963,28 +6963,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2887, col: 8, offset: 91113},
+																								pos: position{line: 2890, col: 8, offset: 91216},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2874, col: 12, offset: 90886},
+																										pos: position{line: 2877, col: 12, offset: 90989},
 																										run: (*parser).callonDocumentFragment648,
 																										expr: &choiceExpr{
-																											pos: position{line: 2874, col: 13, offset: 90887},
+																											pos: position{line: 2877, col: 13, offset: 90990},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 13, offset: 90887},
+																													pos:        position{line: 2877, col: 13, offset: 90990},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 20, offset: 90894},
+																													pos:        position{line: 2877, col: 20, offset: 90997},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 29, offset: 90903},
+																													pos:        position{line: 2877, col: 29, offset: 91006},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6993,9 +6993,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2884, col: 8, offset: 91063},
+																										pos: position{line: 2887, col: 8, offset: 91166},
 																										expr: &anyMatcher{
-																											line: 2884, col: 9, offset: 91064,
+																											line: 2887, col: 9, offset: 91167,
 																										},
 																									},
 																								},
@@ -7008,32 +7008,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 990, col: 5, offset: 30957},
+																	pos: position{line: 993, col: 5, offset: 31060},
 																	run: (*parser).callonDocumentFragment655,
 																	expr: &seqExpr{
-																		pos: position{line: 990, col: 5, offset: 30957},
+																		pos: position{line: 993, col: 5, offset: 31060},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 990, col: 5, offset: 30957},
+																				pos: position{line: 993, col: 5, offset: 31060},
 																				expr: &actionExpr{
-																					pos: position{line: 677, col: 14, offset: 21489},
+																					pos: position{line: 680, col: 14, offset: 21592},
 																					run: (*parser).callonDocumentFragment658,
 																					expr: &seqExpr{
-																						pos: position{line: 677, col: 14, offset: 21489},
+																						pos: position{line: 680, col: 14, offset: 21592},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2882, col: 11, offset: 91049},
+																								pos: position{line: 2885, col: 11, offset: 91152},
 																								expr: &anyMatcher{
-																									line: 2882, col: 13, offset: 91051,
+																									line: 2885, col: 13, offset: 91154,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 677, col: 21, offset: 21496},
+																								pos: position{line: 680, col: 21, offset: 21599},
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 10, offset: 90715},
+																									pos: position{line: 2868, col: 10, offset: 90818},
 																									run: (*parser).callonDocumentFragment663,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2865, col: 10, offset: 90715},
+																										pos:        position{line: 2868, col: 10, offset: 90818},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7042,28 +7042,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2887, col: 8, offset: 91113},
+																								pos: position{line: 2890, col: 8, offset: 91216},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2874, col: 12, offset: 90886},
+																										pos: position{line: 2877, col: 12, offset: 90989},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &choiceExpr{
-																											pos: position{line: 2874, col: 13, offset: 90887},
+																											pos: position{line: 2877, col: 13, offset: 90990},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 13, offset: 90887},
+																													pos:        position{line: 2877, col: 13, offset: 90990},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 20, offset: 90894},
+																													pos:        position{line: 2877, col: 20, offset: 90997},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 29, offset: 90903},
+																													pos:        position{line: 2877, col: 29, offset: 91006},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7072,9 +7072,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2884, col: 8, offset: 91063},
+																										pos: position{line: 2887, col: 8, offset: 91166},
 																										expr: &anyMatcher{
-																											line: 2884, col: 9, offset: 91064,
+																											line: 2887, col: 9, offset: 91167,
 																										},
 																									},
 																								},
@@ -7084,21 +7084,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 991, col: 5, offset: 30972},
+																				pos:        position{line: 994, col: 5, offset: 31075},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 992, col: 5, offset: 30982},
+																				pos:   position{line: 995, col: 5, offset: 31085},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2815, col: 14, offset: 89308},
+																					pos: position{line: 2818, col: 14, offset: 89411},
 																					run: (*parser).callonDocumentFragment675,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2815, col: 14, offset: 89308},
+																						pos: position{line: 2818, col: 14, offset: 89411},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2815, col: 14, offset: 89308},
+																							pos:        position{line: 2818, col: 14, offset: 89411},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -7108,28 +7108,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2887, col: 8, offset: 91113},
+																				pos: position{line: 2890, col: 8, offset: 91216},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2874, col: 12, offset: 90886},
+																						pos: position{line: 2877, col: 12, offset: 90989},
 																						run: (*parser).callonDocumentFragment679,
 																						expr: &choiceExpr{
-																							pos: position{line: 2874, col: 13, offset: 90887},
+																							pos: position{line: 2877, col: 13, offset: 90990},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 90887},
+																									pos:        position{line: 2877, col: 13, offset: 90990},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2874, col: 20, offset: 90894},
+																									pos:        position{line: 2877, col: 20, offset: 90997},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2874, col: 29, offset: 90903},
+																									pos:        position{line: 2877, col: 29, offset: 91006},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -7138,9 +7138,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2884, col: 8, offset: 91063},
+																						pos: position{line: 2887, col: 8, offset: 91166},
 																						expr: &anyMatcher{
-																							line: 2884, col: 9, offset: 91064,
+																							line: 2887, col: 9, offset: 91167,
 																						},
 																					},
 																				},
@@ -7152,44 +7152,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 984, col: 5, offset: 30682},
+														pos:   position{line: 987, col: 5, offset: 30785},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 984, col: 16, offset: 30693},
+															pos: position{line: 987, col: 16, offset: 30796},
 															expr: &choiceExpr{
-																pos: position{line: 984, col: 17, offset: 30694},
+																pos: position{line: 987, col: 17, offset: 30797},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2475, col: 22, offset: 79658},
+																		pos: position{line: 2478, col: 22, offset: 79761},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 2475, col: 22, offset: 79658},
+																			pos: position{line: 2478, col: 22, offset: 79761},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2480, col: 31, offset: 79879},
+																					pos:        position{line: 2483, col: 31, offset: 79982},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																				&notExpr{
-																					pos: position{line: 2480, col: 36, offset: 79884},
+																					pos: position{line: 2483, col: 36, offset: 79987},
 																					expr: &litMatcher{
-																						pos:        position{line: 2480, col: 37, offset: 79885},
+																						pos:        position{line: 2483, col: 37, offset: 79988},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2475, col: 49, offset: 79685},
+																					pos:   position{line: 2478, col: 49, offset: 79788},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2811, col: 13, offset: 89241},
+																						pos: position{line: 2814, col: 13, offset: 89344},
 																						run: (*parser).callonDocumentFragment695,
 																						expr: &zeroOrMoreExpr{
-																							pos: position{line: 2811, col: 13, offset: 89241},
+																							pos: position{line: 2814, col: 13, offset: 89344},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2811, col: 13, offset: 89241},
+																								pos:        position{line: 2814, col: 13, offset: 89344},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7199,28 +7199,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2887, col: 8, offset: 91113},
+																					pos: position{line: 2890, col: 8, offset: 91216},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2874, col: 12, offset: 90886},
+																							pos: position{line: 2877, col: 12, offset: 90989},
 																							run: (*parser).callonDocumentFragment699,
 																							expr: &choiceExpr{
-																								pos: position{line: 2874, col: 13, offset: 90887},
+																								pos: position{line: 2877, col: 13, offset: 90990},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 90887},
+																										pos:        position{line: 2877, col: 13, offset: 90990},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 20, offset: 90894},
+																										pos:        position{line: 2877, col: 20, offset: 90997},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 29, offset: 90903},
+																										pos:        position{line: 2877, col: 29, offset: 91006},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7229,9 +7229,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2884, col: 8, offset: 91063},
+																							pos: position{line: 2887, col: 8, offset: 91166},
 																							expr: &anyMatcher{
-																								line: 2884, col: 9, offset: 91064,
+																								line: 2887, col: 9, offset: 91167,
 																							},
 																						},
 																					},
@@ -7240,51 +7240,51 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 996, col: 35, offset: 31099},
+																		pos: position{line: 999, col: 35, offset: 31202},
 																		run: (*parser).callonDocumentFragment706,
 																		expr: &seqExpr{
-																			pos: position{line: 996, col: 35, offset: 31099},
+																			pos: position{line: 999, col: 35, offset: 31202},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 996, col: 35, offset: 31099},
+																					pos:        position{line: 999, col: 35, offset: 31202},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 996, col: 40, offset: 31104},
+																					pos:   position{line: 999, col: 40, offset: 31207},
 																					label: "comment",
 																					expr: &actionExpr{
-																						pos: position{line: 2475, col: 22, offset: 79658},
+																						pos: position{line: 2478, col: 22, offset: 79761},
 																						run: (*parser).callonDocumentFragment710,
 																						expr: &seqExpr{
-																							pos: position{line: 2475, col: 22, offset: 79658},
+																							pos: position{line: 2478, col: 22, offset: 79761},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2480, col: 31, offset: 79879},
+																									pos:        position{line: 2483, col: 31, offset: 79982},
 																									val:        "//",
 																									ignoreCase: false,
 																									want:       "\"//\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2480, col: 36, offset: 79884},
+																									pos: position{line: 2483, col: 36, offset: 79987},
 																									expr: &litMatcher{
-																										pos:        position{line: 2480, col: 37, offset: 79885},
+																										pos:        position{line: 2483, col: 37, offset: 79988},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 2475, col: 49, offset: 79685},
+																									pos:   position{line: 2478, col: 49, offset: 79788},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 2811, col: 13, offset: 89241},
+																										pos: position{line: 2814, col: 13, offset: 89344},
 																										run: (*parser).callonDocumentFragment716,
 																										expr: &zeroOrMoreExpr{
-																											pos: position{line: 2811, col: 13, offset: 89241},
+																											pos: position{line: 2814, col: 13, offset: 89344},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2811, col: 13, offset: 89241},
+																												pos:        position{line: 2814, col: 13, offset: 89344},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -7294,28 +7294,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2887, col: 8, offset: 91113},
+																									pos: position{line: 2890, col: 8, offset: 91216},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2874, col: 12, offset: 90886},
+																											pos: position{line: 2877, col: 12, offset: 90989},
 																											run: (*parser).callonDocumentFragment720,
 																											expr: &choiceExpr{
-																												pos: position{line: 2874, col: 13, offset: 90887},
+																												pos: position{line: 2877, col: 13, offset: 90990},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2874, col: 13, offset: 90887},
+																														pos:        position{line: 2877, col: 13, offset: 90990},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2874, col: 20, offset: 90894},
+																														pos:        position{line: 2877, col: 20, offset: 90997},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2874, col: 29, offset: 90903},
+																														pos:        position{line: 2877, col: 29, offset: 91006},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7324,9 +7324,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2884, col: 8, offset: 91063},
+																											pos: position{line: 2887, col: 8, offset: 91166},
 																											expr: &anyMatcher{
-																												line: 2884, col: 9, offset: 91064,
+																												line: 2887, col: 9, offset: 91167,
 																											},
 																										},
 																									},
@@ -7339,32 +7339,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 990, col: 5, offset: 30957},
+																		pos: position{line: 993, col: 5, offset: 31060},
 																		run: (*parser).callonDocumentFragment727,
 																		expr: &seqExpr{
-																			pos: position{line: 990, col: 5, offset: 30957},
+																			pos: position{line: 993, col: 5, offset: 31060},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 990, col: 5, offset: 30957},
+																					pos: position{line: 993, col: 5, offset: 31060},
 																					expr: &actionExpr{
-																						pos: position{line: 677, col: 14, offset: 21489},
+																						pos: position{line: 680, col: 14, offset: 21592},
 																						run: (*parser).callonDocumentFragment730,
 																						expr: &seqExpr{
-																							pos: position{line: 677, col: 14, offset: 21489},
+																							pos: position{line: 680, col: 14, offset: 21592},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2882, col: 11, offset: 91049},
+																									pos: position{line: 2885, col: 11, offset: 91152},
 																									expr: &anyMatcher{
-																										line: 2882, col: 13, offset: 91051,
+																										line: 2885, col: 13, offset: 91154,
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 677, col: 21, offset: 21496},
+																									pos: position{line: 680, col: 21, offset: 21599},
 																									expr: &actionExpr{
-																										pos: position{line: 2865, col: 10, offset: 90715},
+																										pos: position{line: 2868, col: 10, offset: 90818},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2865, col: 10, offset: 90715},
+																											pos:        position{line: 2868, col: 10, offset: 90818},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7373,28 +7373,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2887, col: 8, offset: 91113},
+																									pos: position{line: 2890, col: 8, offset: 91216},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2874, col: 12, offset: 90886},
+																											pos: position{line: 2877, col: 12, offset: 90989},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2874, col: 13, offset: 90887},
+																												pos: position{line: 2877, col: 13, offset: 90990},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2874, col: 13, offset: 90887},
+																														pos:        position{line: 2877, col: 13, offset: 90990},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2874, col: 20, offset: 90894},
+																														pos:        position{line: 2877, col: 20, offset: 90997},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2874, col: 29, offset: 90903},
+																														pos:        position{line: 2877, col: 29, offset: 91006},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7403,9 +7403,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2884, col: 8, offset: 91063},
+																											pos: position{line: 2887, col: 8, offset: 91166},
 																											expr: &anyMatcher{
-																												line: 2884, col: 9, offset: 91064,
+																												line: 2887, col: 9, offset: 91167,
 																											},
 																										},
 																									},
@@ -7415,21 +7415,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 991, col: 5, offset: 30972},
+																					pos:        position{line: 994, col: 5, offset: 31075},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 992, col: 5, offset: 30982},
+																					pos:   position{line: 995, col: 5, offset: 31085},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2815, col: 14, offset: 89308},
+																						pos: position{line: 2818, col: 14, offset: 89411},
 																						run: (*parser).callonDocumentFragment747,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2815, col: 14, offset: 89308},
+																							pos: position{line: 2818, col: 14, offset: 89411},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2815, col: 14, offset: 89308},
+																								pos:        position{line: 2818, col: 14, offset: 89411},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7439,28 +7439,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2887, col: 8, offset: 91113},
+																					pos: position{line: 2890, col: 8, offset: 91216},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2874, col: 12, offset: 90886},
+																							pos: position{line: 2877, col: 12, offset: 90989},
 																							run: (*parser).callonDocumentFragment751,
 																							expr: &choiceExpr{
-																								pos: position{line: 2874, col: 13, offset: 90887},
+																								pos: position{line: 2877, col: 13, offset: 90990},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 90887},
+																										pos:        position{line: 2877, col: 13, offset: 90990},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 20, offset: 90894},
+																										pos:        position{line: 2877, col: 20, offset: 90997},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 29, offset: 90903},
+																										pos:        position{line: 2877, col: 29, offset: 91006},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7469,9 +7469,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2884, col: 8, offset: 91063},
+																							pos: position{line: 2887, col: 8, offset: 91166},
 																							expr: &anyMatcher{
-																								line: 2884, col: 9, offset: 91064,
+																								line: 2887, col: 9, offset: 91167,
 																							},
 																						},
 																					},
@@ -7480,21 +7480,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1797, col: 5, offset: 58039},
+																		pos: position{line: 1800, col: 5, offset: 58142},
 																		run: (*parser).callonDocumentFragment758,
 																		expr: &seqExpr{
-																			pos: position{line: 1797, col: 5, offset: 58039},
+																			pos: position{line: 1800, col: 5, offset: 58142},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1797, col: 5, offset: 58039},
+																					pos:   position{line: 1800, col: 5, offset: 58142},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2815, col: 14, offset: 89308},
+																						pos: position{line: 2818, col: 14, offset: 89411},
 																						run: (*parser).callonDocumentFragment761,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2815, col: 14, offset: 89308},
+																							pos: position{line: 2818, col: 14, offset: 89411},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2815, col: 14, offset: 89308},
+																								pos:        position{line: 2818, col: 14, offset: 89411},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7504,32 +7504,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1798, col: 5, offset: 58063},
+																					pos: position{line: 1801, col: 5, offset: 58166},
 																					run: (*parser).callonDocumentFragment764,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2887, col: 8, offset: 91113},
+																					pos: position{line: 2890, col: 8, offset: 91216},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2874, col: 12, offset: 90886},
+																							pos: position{line: 2877, col: 12, offset: 90989},
 																							run: (*parser).callonDocumentFragment766,
 																							expr: &choiceExpr{
-																								pos: position{line: 2874, col: 13, offset: 90887},
+																								pos: position{line: 2877, col: 13, offset: 90990},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 90887},
+																										pos:        position{line: 2877, col: 13, offset: 90990},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 20, offset: 90894},
+																										pos:        position{line: 2877, col: 20, offset: 90997},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 29, offset: 90903},
+																										pos:        position{line: 2877, col: 29, offset: 91006},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7538,9 +7538,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2884, col: 8, offset: 91063},
+																							pos: position{line: 2887, col: 8, offset: 91166},
 																							expr: &anyMatcher{
-																								line: 2884, col: 9, offset: 91064,
+																								line: 2887, col: 9, offset: 91167,
 																							},
 																						},
 																					},
@@ -7556,28 +7556,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1009, col: 5, offset: 31351},
+											pos: position{line: 1012, col: 5, offset: 31454},
 											run: (*parser).callonDocumentFragment773,
 											expr: &seqExpr{
-												pos: position{line: 1009, col: 5, offset: 31351},
+												pos: position{line: 1012, col: 5, offset: 31454},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1009, col: 5, offset: 31351},
+														pos:   position{line: 1012, col: 5, offset: 31454},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 776, col: 5, offset: 24861},
+															pos: position{line: 779, col: 5, offset: 24964},
 															run: (*parser).callonDocumentFragment776,
 															expr: &seqExpr{
-																pos: position{line: 776, col: 5, offset: 24861},
+																pos: position{line: 779, col: 5, offset: 24964},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 776, col: 5, offset: 24861},
+																		pos:   position{line: 779, col: 5, offset: 24964},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 776, col: 16, offset: 24872},
+																			pos: position{line: 779, col: 16, offset: 24975},
 																			run: (*parser).callonDocumentFragment779,
 																			expr: &litMatcher{
-																				pos:        position{line: 776, col: 16, offset: 24872},
+																				pos:        position{line: 779, col: 16, offset: 24975},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7585,12 +7585,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 778, col: 8, offset: 24949},
+																		pos: position{line: 781, col: 8, offset: 25052},
 																		expr: &actionExpr{
-																			pos: position{line: 2865, col: 10, offset: 90715},
+																			pos: position{line: 2868, col: 10, offset: 90818},
 																			run: (*parser).callonDocumentFragment782,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 10, offset: 90715},
+																				pos:        position{line: 2868, col: 10, offset: 90818},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7599,28 +7599,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2887, col: 8, offset: 91113},
+																		pos: position{line: 2890, col: 8, offset: 91216},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2874, col: 12, offset: 90886},
+																				pos: position{line: 2877, col: 12, offset: 90989},
 																				run: (*parser).callonDocumentFragment785,
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 13, offset: 90887},
+																					pos: position{line: 2877, col: 13, offset: 90990},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 13, offset: 90887},
+																							pos:        position{line: 2877, col: 13, offset: 90990},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 20, offset: 90894},
+																							pos:        position{line: 2877, col: 20, offset: 90997},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 29, offset: 90903},
+																							pos:        position{line: 2877, col: 29, offset: 91006},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7629,9 +7629,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2884, col: 8, offset: 91063},
+																				pos: position{line: 2887, col: 8, offset: 91166},
 																				expr: &anyMatcher{
-																					line: 2884, col: 9, offset: 91064,
+																					line: 2887, col: 9, offset: 91167,
 																				},
 																			},
 																		},
@@ -7641,35 +7641,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1010, col: 5, offset: 31387},
+														pos:   position{line: 1013, col: 5, offset: 31490},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1020, col: 5, offset: 31655},
+															pos: position{line: 1023, col: 5, offset: 31758},
 															expr: &actionExpr{
-																pos: position{line: 1020, col: 6, offset: 31656},
+																pos: position{line: 1023, col: 6, offset: 31759},
 																run: (*parser).callonDocumentFragment794,
 																expr: &seqExpr{
-																	pos: position{line: 1020, col: 6, offset: 31656},
+																	pos: position{line: 1023, col: 6, offset: 31759},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1020, col: 6, offset: 31656},
+																			pos: position{line: 1023, col: 6, offset: 31759},
 																			expr: &choiceExpr{
-																				pos: position{line: 1017, col: 26, offset: 31604},
+																				pos: position{line: 1020, col: 26, offset: 31707},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 776, col: 5, offset: 24861},
+																						pos: position{line: 779, col: 5, offset: 24964},
 																						run: (*parser).callonDocumentFragment798,
 																						expr: &seqExpr{
-																							pos: position{line: 776, col: 5, offset: 24861},
+																							pos: position{line: 779, col: 5, offset: 24964},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 776, col: 5, offset: 24861},
+																									pos:   position{line: 779, col: 5, offset: 24964},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 776, col: 16, offset: 24872},
+																										pos: position{line: 779, col: 16, offset: 24975},
 																										run: (*parser).callonDocumentFragment801,
 																										expr: &litMatcher{
-																											pos:        position{line: 776, col: 16, offset: 24872},
+																											pos:        position{line: 779, col: 16, offset: 24975},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7677,12 +7677,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 778, col: 8, offset: 24949},
+																									pos: position{line: 781, col: 8, offset: 25052},
 																									expr: &actionExpr{
-																										pos: position{line: 2865, col: 10, offset: 90715},
+																										pos: position{line: 2868, col: 10, offset: 90818},
 																										run: (*parser).callonDocumentFragment804,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2865, col: 10, offset: 90715},
+																											pos:        position{line: 2868, col: 10, offset: 90818},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7691,28 +7691,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2887, col: 8, offset: 91113},
+																									pos: position{line: 2890, col: 8, offset: 91216},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2874, col: 12, offset: 90886},
+																											pos: position{line: 2877, col: 12, offset: 90989},
 																											run: (*parser).callonDocumentFragment807,
 																											expr: &choiceExpr{
-																												pos: position{line: 2874, col: 13, offset: 90887},
+																												pos: position{line: 2877, col: 13, offset: 90990},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2874, col: 13, offset: 90887},
+																														pos:        position{line: 2877, col: 13, offset: 90990},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2874, col: 20, offset: 90894},
+																														pos:        position{line: 2877, col: 20, offset: 90997},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2874, col: 29, offset: 90903},
+																														pos:        position{line: 2877, col: 29, offset: 91006},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7721,9 +7721,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2884, col: 8, offset: 91063},
+																											pos: position{line: 2887, col: 8, offset: 91166},
 																											expr: &anyMatcher{
-																												line: 2884, col: 9, offset: 91064,
+																												line: 2887, col: 9, offset: 91167,
 																											},
 																										},
 																									},
@@ -7732,39 +7732,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2884, col: 8, offset: 91063},
+																						pos: position{line: 2887, col: 8, offset: 91166},
 																						expr: &anyMatcher{
-																							line: 2884, col: 9, offset: 91064,
+																							line: 2887, col: 9, offset: 91167,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1021, col: 5, offset: 31683},
+																			pos:   position{line: 1024, col: 5, offset: 31786},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 814, col: 5, offset: 26191},
 																				run: (*parser).callonDocumentFragment817,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 814, col: 5, offset: 26191},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2882, col: 11, offset: 91049},
+																							pos: position{line: 2885, col: 11, offset: 91152},
 																							expr: &anyMatcher{
-																								line: 2882, col: 13, offset: 91051,
+																								line: 2885, col: 13, offset: 91154,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 815, col: 5, offset: 26266},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2811, col: 13, offset: 89241},
+																								pos: position{line: 2814, col: 13, offset: 89344},
 																								run: (*parser).callonDocumentFragment822,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2811, col: 13, offset: 89241},
+																									pos: position{line: 2814, col: 13, offset: 89344},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2811, col: 13, offset: 89241},
+																										pos:        position{line: 2814, col: 13, offset: 89344},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7774,28 +7774,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonDocumentFragment826,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7804,9 +7804,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -7821,27 +7821,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1011, col: 5, offset: 31418},
+														pos:   position{line: 1014, col: 5, offset: 31521},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1011, col: 9, offset: 31422},
+															pos: position{line: 1014, col: 9, offset: 31525},
 															expr: &choiceExpr{
-																pos: position{line: 1017, col: 26, offset: 31604},
+																pos: position{line: 1020, col: 26, offset: 31707},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 776, col: 5, offset: 24861},
+																		pos: position{line: 779, col: 5, offset: 24964},
 																		run: (*parser).callonDocumentFragment836,
 																		expr: &seqExpr{
-																			pos: position{line: 776, col: 5, offset: 24861},
+																			pos: position{line: 779, col: 5, offset: 24964},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 776, col: 5, offset: 24861},
+																					pos:   position{line: 779, col: 5, offset: 24964},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 776, col: 16, offset: 24872},
+																						pos: position{line: 779, col: 16, offset: 24975},
 																						run: (*parser).callonDocumentFragment839,
 																						expr: &litMatcher{
-																							pos:        position{line: 776, col: 16, offset: 24872},
+																							pos:        position{line: 779, col: 16, offset: 24975},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7849,12 +7849,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 778, col: 8, offset: 24949},
+																					pos: position{line: 781, col: 8, offset: 25052},
 																					expr: &actionExpr{
-																						pos: position{line: 2865, col: 10, offset: 90715},
+																						pos: position{line: 2868, col: 10, offset: 90818},
 																						run: (*parser).callonDocumentFragment842,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2865, col: 10, offset: 90715},
+																							pos:        position{line: 2868, col: 10, offset: 90818},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7863,28 +7863,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2887, col: 8, offset: 91113},
+																					pos: position{line: 2890, col: 8, offset: 91216},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2874, col: 12, offset: 90886},
+																							pos: position{line: 2877, col: 12, offset: 90989},
 																							run: (*parser).callonDocumentFragment845,
 																							expr: &choiceExpr{
-																								pos: position{line: 2874, col: 13, offset: 90887},
+																								pos: position{line: 2877, col: 13, offset: 90990},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 90887},
+																										pos:        position{line: 2877, col: 13, offset: 90990},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 20, offset: 90894},
+																										pos:        position{line: 2877, col: 20, offset: 90997},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 29, offset: 90903},
+																										pos:        position{line: 2877, col: 29, offset: 91006},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7893,9 +7893,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2884, col: 8, offset: 91063},
+																							pos: position{line: 2887, col: 8, offset: 91166},
 																							expr: &anyMatcher{
-																								line: 2884, col: 9, offset: 91064,
+																								line: 2887, col: 9, offset: 91167,
 																							},
 																						},
 																					},
@@ -7904,9 +7904,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2884, col: 8, offset: 91063},
+																		pos: position{line: 2887, col: 8, offset: 91166},
 																		expr: &anyMatcher{
-																			line: 2884, col: 9, offset: 91064,
+																			line: 2887, col: 9, offset: 91167,
 																		},
 																	},
 																},
@@ -7917,39 +7917,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1029, col: 5, offset: 31846},
+											pos: position{line: 1032, col: 5, offset: 31949},
 											run: (*parser).callonDocumentFragment854,
 											expr: &seqExpr{
-												pos: position{line: 1029, col: 5, offset: 31846},
+												pos: position{line: 1032, col: 5, offset: 31949},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1029, col: 5, offset: 31846},
+														pos:   position{line: 1032, col: 5, offset: 31949},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 790, col: 5, offset: 25344},
+															pos: position{line: 793, col: 5, offset: 25447},
 															run: (*parser).callonDocumentFragment857,
 															expr: &seqExpr{
-																pos: position{line: 790, col: 5, offset: 25344},
+																pos: position{line: 793, col: 5, offset: 25447},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 790, col: 5, offset: 25344},
+																		pos:   position{line: 793, col: 5, offset: 25447},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 790, col: 16, offset: 25355},
+																			pos: position{line: 793, col: 16, offset: 25458},
 																			run: (*parser).callonDocumentFragment860,
 																			expr: &seqExpr{
-																				pos: position{line: 790, col: 16, offset: 25355},
+																				pos: position{line: 793, col: 16, offset: 25458},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 790, col: 16, offset: 25355},
+																						pos:        position{line: 793, col: 16, offset: 25458},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 790, col: 23, offset: 25362},
+																						pos: position{line: 793, col: 23, offset: 25465},
 																						expr: &litMatcher{
-																							pos:        position{line: 790, col: 23, offset: 25362},
+																							pos:        position{line: 793, col: 23, offset: 25465},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7960,12 +7960,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 792, col: 8, offset: 25446},
+																		pos: position{line: 795, col: 8, offset: 25549},
 																		expr: &actionExpr{
-																			pos: position{line: 2865, col: 10, offset: 90715},
+																			pos: position{line: 2868, col: 10, offset: 90818},
 																			run: (*parser).callonDocumentFragment866,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 10, offset: 90715},
+																				pos:        position{line: 2868, col: 10, offset: 90818},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7974,28 +7974,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2887, col: 8, offset: 91113},
+																		pos: position{line: 2890, col: 8, offset: 91216},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2874, col: 12, offset: 90886},
+																				pos: position{line: 2877, col: 12, offset: 90989},
 																				run: (*parser).callonDocumentFragment869,
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 13, offset: 90887},
+																					pos: position{line: 2877, col: 13, offset: 90990},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 13, offset: 90887},
+																							pos:        position{line: 2877, col: 13, offset: 90990},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 20, offset: 90894},
+																							pos:        position{line: 2877, col: 20, offset: 90997},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 29, offset: 90903},
+																							pos:        position{line: 2877, col: 29, offset: 91006},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8004,9 +8004,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2884, col: 8, offset: 91063},
+																				pos: position{line: 2887, col: 8, offset: 91166},
 																				expr: &anyMatcher{
-																					line: 2884, col: 9, offset: 91064,
+																					line: 2887, col: 9, offset: 91167,
 																				},
 																			},
 																		},
@@ -8016,56 +8016,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1030, col: 5, offset: 31889},
+														pos: position{line: 1033, col: 5, offset: 31992},
 														run: (*parser).callonDocumentFragment876,
 													},
 													&labeledExpr{
-														pos:   position{line: 1033, col: 5, offset: 31981},
+														pos:   position{line: 1036, col: 5, offset: 32084},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1048, col: 5, offset: 32411},
+															pos: position{line: 1051, col: 5, offset: 32514},
 															expr: &actionExpr{
-																pos: position{line: 1048, col: 6, offset: 32412},
+																pos: position{line: 1051, col: 6, offset: 32515},
 																run: (*parser).callonDocumentFragment879,
 																expr: &seqExpr{
-																	pos: position{line: 1048, col: 6, offset: 32412},
+																	pos: position{line: 1051, col: 6, offset: 32515},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1048, col: 6, offset: 32412},
+																			pos: position{line: 1051, col: 6, offset: 32515},
 																			expr: &choiceExpr{
-																				pos: position{line: 1041, col: 5, offset: 32245},
+																				pos: position{line: 1044, col: 5, offset: 32348},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1041, col: 5, offset: 32245},
+																						pos: position{line: 1044, col: 5, offset: 32348},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1041, col: 5, offset: 32245},
+																								pos:   position{line: 1044, col: 5, offset: 32348},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 5, offset: 25344},
+																									pos: position{line: 793, col: 5, offset: 25447},
 																									run: (*parser).callonDocumentFragment885,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 5, offset: 25344},
+																										pos: position{line: 793, col: 5, offset: 25447},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 790, col: 5, offset: 25344},
+																												pos:   position{line: 793, col: 5, offset: 25447},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 790, col: 16, offset: 25355},
+																													pos: position{line: 793, col: 16, offset: 25458},
 																													run: (*parser).callonDocumentFragment888,
 																													expr: &seqExpr{
-																														pos: position{line: 790, col: 16, offset: 25355},
+																														pos: position{line: 793, col: 16, offset: 25458},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 790, col: 16, offset: 25355},
+																																pos:        position{line: 793, col: 16, offset: 25458},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 790, col: 23, offset: 25362},
+																																pos: position{line: 793, col: 23, offset: 25465},
 																																expr: &litMatcher{
-																																	pos:        position{line: 790, col: 23, offset: 25362},
+																																	pos:        position{line: 793, col: 23, offset: 25465},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -8076,12 +8076,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 792, col: 8, offset: 25446},
+																												pos: position{line: 795, col: 8, offset: 25549},
 																												expr: &actionExpr{
-																													pos: position{line: 2865, col: 10, offset: 90715},
+																													pos: position{line: 2868, col: 10, offset: 90818},
 																													run: (*parser).callonDocumentFragment894,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2865, col: 10, offset: 90715},
+																														pos:        position{line: 2868, col: 10, offset: 90818},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8090,28 +8090,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2887, col: 8, offset: 91113},
+																												pos: position{line: 2890, col: 8, offset: 91216},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2874, col: 12, offset: 90886},
+																														pos: position{line: 2877, col: 12, offset: 90989},
 																														run: (*parser).callonDocumentFragment897,
 																														expr: &choiceExpr{
-																															pos: position{line: 2874, col: 13, offset: 90887},
+																															pos: position{line: 2877, col: 13, offset: 90990},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 13, offset: 90887},
+																																	pos:        position{line: 2877, col: 13, offset: 90990},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 20, offset: 90894},
+																																	pos:        position{line: 2877, col: 20, offset: 90997},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 29, offset: 90903},
+																																	pos:        position{line: 2877, col: 29, offset: 91006},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8120,9 +8120,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2884, col: 8, offset: 91063},
+																														pos: position{line: 2887, col: 8, offset: 91166},
 																														expr: &anyMatcher{
-																															line: 2884, col: 9, offset: 91064,
+																															line: 2887, col: 9, offset: 91167,
 																														},
 																													},
 																												},
@@ -8132,45 +8132,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1042, col: 5, offset: 32280},
+																								pos: position{line: 1045, col: 5, offset: 32383},
 																								run: (*parser).callonDocumentFragment904,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2884, col: 8, offset: 91063},
+																						pos: position{line: 2887, col: 8, offset: 91166},
 																						expr: &anyMatcher{
-																							line: 2884, col: 9, offset: 91064,
+																							line: 2887, col: 9, offset: 91167,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1049, col: 5, offset: 32446},
+																			pos:   position{line: 1052, col: 5, offset: 32549},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 814, col: 5, offset: 26191},
 																				run: (*parser).callonDocumentFragment908,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 814, col: 5, offset: 26191},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2882, col: 11, offset: 91049},
+																							pos: position{line: 2885, col: 11, offset: 91152},
 																							expr: &anyMatcher{
-																								line: 2882, col: 13, offset: 91051,
+																								line: 2885, col: 13, offset: 91154,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 815, col: 5, offset: 26266},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2811, col: 13, offset: 89241},
+																								pos: position{line: 2814, col: 13, offset: 89344},
 																								run: (*parser).callonDocumentFragment913,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2811, col: 13, offset: 89241},
+																									pos: position{line: 2814, col: 13, offset: 89344},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2811, col: 13, offset: 89241},
+																										pos:        position{line: 2814, col: 13, offset: 89344},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8180,28 +8180,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonDocumentFragment917,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8210,9 +8210,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -8227,44 +8227,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1034, col: 5, offset: 32019},
+														pos:   position{line: 1037, col: 5, offset: 32122},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1034, col: 9, offset: 32023},
+															pos: position{line: 1037, col: 9, offset: 32126},
 															expr: &choiceExpr{
-																pos: position{line: 1041, col: 5, offset: 32245},
+																pos: position{line: 1044, col: 5, offset: 32348},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1041, col: 5, offset: 32245},
+																		pos: position{line: 1044, col: 5, offset: 32348},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1041, col: 5, offset: 32245},
+																				pos:   position{line: 1044, col: 5, offset: 32348},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 790, col: 5, offset: 25344},
+																					pos: position{line: 793, col: 5, offset: 25447},
 																					run: (*parser).callonDocumentFragment929,
 																					expr: &seqExpr{
-																						pos: position{line: 790, col: 5, offset: 25344},
+																						pos: position{line: 793, col: 5, offset: 25447},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 790, col: 5, offset: 25344},
+																								pos:   position{line: 793, col: 5, offset: 25447},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 16, offset: 25355},
+																									pos: position{line: 793, col: 16, offset: 25458},
 																									run: (*parser).callonDocumentFragment932,
 																									expr: &seqExpr{
-																										pos: position{line: 790, col: 16, offset: 25355},
+																										pos: position{line: 793, col: 16, offset: 25458},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 790, col: 16, offset: 25355},
+																												pos:        position{line: 793, col: 16, offset: 25458},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 790, col: 23, offset: 25362},
+																												pos: position{line: 793, col: 23, offset: 25465},
 																												expr: &litMatcher{
-																													pos:        position{line: 790, col: 23, offset: 25362},
+																													pos:        position{line: 793, col: 23, offset: 25465},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -8275,12 +8275,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 792, col: 8, offset: 25446},
+																								pos: position{line: 795, col: 8, offset: 25549},
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 10, offset: 90715},
+																									pos: position{line: 2868, col: 10, offset: 90818},
 																									run: (*parser).callonDocumentFragment938,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2865, col: 10, offset: 90715},
+																										pos:        position{line: 2868, col: 10, offset: 90818},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8289,28 +8289,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2887, col: 8, offset: 91113},
+																								pos: position{line: 2890, col: 8, offset: 91216},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2874, col: 12, offset: 90886},
+																										pos: position{line: 2877, col: 12, offset: 90989},
 																										run: (*parser).callonDocumentFragment941,
 																										expr: &choiceExpr{
-																											pos: position{line: 2874, col: 13, offset: 90887},
+																											pos: position{line: 2877, col: 13, offset: 90990},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 13, offset: 90887},
+																													pos:        position{line: 2877, col: 13, offset: 90990},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 20, offset: 90894},
+																													pos:        position{line: 2877, col: 20, offset: 90997},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 29, offset: 90903},
+																													pos:        position{line: 2877, col: 29, offset: 91006},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8319,9 +8319,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2884, col: 8, offset: 91063},
+																										pos: position{line: 2887, col: 8, offset: 91166},
 																										expr: &anyMatcher{
-																											line: 2884, col: 9, offset: 91064,
+																											line: 2887, col: 9, offset: 91167,
 																										},
 																									},
 																								},
@@ -8331,15 +8331,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1042, col: 5, offset: 32280},
+																				pos: position{line: 1045, col: 5, offset: 32383},
 																				run: (*parser).callonDocumentFragment948,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2884, col: 8, offset: 91063},
+																		pos: position{line: 2887, col: 8, offset: 91166},
 																		expr: &anyMatcher{
-																			line: 2884, col: 9, offset: 91064,
+																			line: 2887, col: 9, offset: 91167,
 																		},
 																	},
 																},
@@ -8350,39 +8350,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1057, col: 5, offset: 32597},
+											pos: position{line: 1060, col: 5, offset: 32700},
 											run: (*parser).callonDocumentFragment951,
 											expr: &seqExpr{
-												pos: position{line: 1057, col: 5, offset: 32597},
+												pos: position{line: 1060, col: 5, offset: 32700},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1057, col: 5, offset: 32597},
+														pos:   position{line: 1060, col: 5, offset: 32700},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 797, col: 5, offset: 25594},
+															pos: position{line: 800, col: 5, offset: 25697},
 															run: (*parser).callonDocumentFragment954,
 															expr: &seqExpr{
-																pos: position{line: 797, col: 5, offset: 25594},
+																pos: position{line: 800, col: 5, offset: 25697},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 797, col: 5, offset: 25594},
+																		pos:   position{line: 800, col: 5, offset: 25697},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 797, col: 16, offset: 25605},
+																			pos: position{line: 800, col: 16, offset: 25708},
 																			run: (*parser).callonDocumentFragment957,
 																			expr: &seqExpr{
-																				pos: position{line: 797, col: 16, offset: 25605},
+																				pos: position{line: 800, col: 16, offset: 25708},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 797, col: 16, offset: 25605},
+																						pos:        position{line: 800, col: 16, offset: 25708},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 797, col: 23, offset: 25612},
+																						pos: position{line: 800, col: 23, offset: 25715},
 																						expr: &litMatcher{
-																							pos:        position{line: 797, col: 23, offset: 25612},
+																							pos:        position{line: 800, col: 23, offset: 25715},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8393,12 +8393,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 799, col: 8, offset: 25696},
+																		pos: position{line: 802, col: 8, offset: 25799},
 																		expr: &actionExpr{
-																			pos: position{line: 2865, col: 10, offset: 90715},
+																			pos: position{line: 2868, col: 10, offset: 90818},
 																			run: (*parser).callonDocumentFragment963,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 10, offset: 90715},
+																				pos:        position{line: 2868, col: 10, offset: 90818},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8407,28 +8407,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2887, col: 8, offset: 91113},
+																		pos: position{line: 2890, col: 8, offset: 91216},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2874, col: 12, offset: 90886},
+																				pos: position{line: 2877, col: 12, offset: 90989},
 																				run: (*parser).callonDocumentFragment966,
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 13, offset: 90887},
+																					pos: position{line: 2877, col: 13, offset: 90990},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 13, offset: 90887},
+																							pos:        position{line: 2877, col: 13, offset: 90990},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 20, offset: 90894},
+																							pos:        position{line: 2877, col: 20, offset: 90997},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 29, offset: 90903},
+																							pos:        position{line: 2877, col: 29, offset: 91006},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8437,9 +8437,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2884, col: 8, offset: 91063},
+																				pos: position{line: 2887, col: 8, offset: 91166},
 																				expr: &anyMatcher{
-																					line: 2884, col: 9, offset: 91064,
+																					line: 2887, col: 9, offset: 91167,
 																				},
 																			},
 																		},
@@ -8449,56 +8449,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1058, col: 5, offset: 32634},
+														pos: position{line: 1061, col: 5, offset: 32737},
 														run: (*parser).callonDocumentFragment973,
 													},
 													&labeledExpr{
-														pos:   position{line: 1061, col: 5, offset: 32726},
+														pos:   position{line: 1064, col: 5, offset: 32829},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1076, col: 4, offset: 33107},
+															pos: position{line: 1079, col: 4, offset: 33210},
 															expr: &actionExpr{
-																pos: position{line: 1076, col: 5, offset: 33108},
+																pos: position{line: 1079, col: 5, offset: 33211},
 																run: (*parser).callonDocumentFragment976,
 																expr: &seqExpr{
-																	pos: position{line: 1076, col: 5, offset: 33108},
+																	pos: position{line: 1079, col: 5, offset: 33211},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1076, col: 5, offset: 33108},
+																			pos: position{line: 1079, col: 5, offset: 33211},
 																			expr: &choiceExpr{
-																				pos: position{line: 1069, col: 5, offset: 32954},
+																				pos: position{line: 1072, col: 5, offset: 33057},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1069, col: 5, offset: 32954},
+																						pos: position{line: 1072, col: 5, offset: 33057},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1069, col: 5, offset: 32954},
+																								pos:   position{line: 1072, col: 5, offset: 33057},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 5, offset: 25594},
+																									pos: position{line: 800, col: 5, offset: 25697},
 																									run: (*parser).callonDocumentFragment982,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 5, offset: 25594},
+																										pos: position{line: 800, col: 5, offset: 25697},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 797, col: 5, offset: 25594},
+																												pos:   position{line: 800, col: 5, offset: 25697},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 797, col: 16, offset: 25605},
+																													pos: position{line: 800, col: 16, offset: 25708},
 																													run: (*parser).callonDocumentFragment985,
 																													expr: &seqExpr{
-																														pos: position{line: 797, col: 16, offset: 25605},
+																														pos: position{line: 800, col: 16, offset: 25708},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 797, col: 16, offset: 25605},
+																																pos:        position{line: 800, col: 16, offset: 25708},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 797, col: 23, offset: 25612},
+																																pos: position{line: 800, col: 23, offset: 25715},
 																																expr: &litMatcher{
-																																	pos:        position{line: 797, col: 23, offset: 25612},
+																																	pos:        position{line: 800, col: 23, offset: 25715},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8509,12 +8509,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 799, col: 8, offset: 25696},
+																												pos: position{line: 802, col: 8, offset: 25799},
 																												expr: &actionExpr{
-																													pos: position{line: 2865, col: 10, offset: 90715},
+																													pos: position{line: 2868, col: 10, offset: 90818},
 																													run: (*parser).callonDocumentFragment991,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2865, col: 10, offset: 90715},
+																														pos:        position{line: 2868, col: 10, offset: 90818},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8523,28 +8523,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2887, col: 8, offset: 91113},
+																												pos: position{line: 2890, col: 8, offset: 91216},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2874, col: 12, offset: 90886},
+																														pos: position{line: 2877, col: 12, offset: 90989},
 																														run: (*parser).callonDocumentFragment994,
 																														expr: &choiceExpr{
-																															pos: position{line: 2874, col: 13, offset: 90887},
+																															pos: position{line: 2877, col: 13, offset: 90990},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 13, offset: 90887},
+																																	pos:        position{line: 2877, col: 13, offset: 90990},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 20, offset: 90894},
+																																	pos:        position{line: 2877, col: 20, offset: 90997},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 29, offset: 90903},
+																																	pos:        position{line: 2877, col: 29, offset: 91006},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8553,9 +8553,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2884, col: 8, offset: 91063},
+																														pos: position{line: 2887, col: 8, offset: 91166},
 																														expr: &anyMatcher{
-																															line: 2884, col: 9, offset: 91064,
+																															line: 2887, col: 9, offset: 91167,
 																														},
 																													},
 																												},
@@ -8565,45 +8565,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1070, col: 5, offset: 32983},
+																								pos: position{line: 1073, col: 5, offset: 33086},
 																								run: (*parser).callonDocumentFragment1001,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2884, col: 8, offset: 91063},
+																						pos: position{line: 2887, col: 8, offset: 91166},
 																						expr: &anyMatcher{
-																							line: 2884, col: 9, offset: 91064,
+																							line: 2887, col: 9, offset: 91167,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1077, col: 5, offset: 33136},
+																			pos:   position{line: 1080, col: 5, offset: 33239},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 814, col: 5, offset: 26191},
 																				run: (*parser).callonDocumentFragment1005,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 814, col: 5, offset: 26191},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2882, col: 11, offset: 91049},
+																							pos: position{line: 2885, col: 11, offset: 91152},
 																							expr: &anyMatcher{
-																								line: 2882, col: 13, offset: 91051,
+																								line: 2885, col: 13, offset: 91154,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 815, col: 5, offset: 26266},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2811, col: 13, offset: 89241},
+																								pos: position{line: 2814, col: 13, offset: 89344},
 																								run: (*parser).callonDocumentFragment1010,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2811, col: 13, offset: 89241},
+																									pos: position{line: 2814, col: 13, offset: 89344},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2811, col: 13, offset: 89241},
+																										pos:        position{line: 2814, col: 13, offset: 89344},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8613,28 +8613,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonDocumentFragment1014,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8643,9 +8643,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -8660,44 +8660,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1062, col: 5, offset: 32758},
+														pos:   position{line: 1065, col: 5, offset: 32861},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1062, col: 9, offset: 32762},
+															pos: position{line: 1065, col: 9, offset: 32865},
 															expr: &choiceExpr{
-																pos: position{line: 1069, col: 5, offset: 32954},
+																pos: position{line: 1072, col: 5, offset: 33057},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1069, col: 5, offset: 32954},
+																		pos: position{line: 1072, col: 5, offset: 33057},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1069, col: 5, offset: 32954},
+																				pos:   position{line: 1072, col: 5, offset: 33057},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 797, col: 5, offset: 25594},
+																					pos: position{line: 800, col: 5, offset: 25697},
 																					run: (*parser).callonDocumentFragment1026,
 																					expr: &seqExpr{
-																						pos: position{line: 797, col: 5, offset: 25594},
+																						pos: position{line: 800, col: 5, offset: 25697},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 797, col: 5, offset: 25594},
+																								pos:   position{line: 800, col: 5, offset: 25697},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 16, offset: 25605},
+																									pos: position{line: 800, col: 16, offset: 25708},
 																									run: (*parser).callonDocumentFragment1029,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 16, offset: 25605},
+																										pos: position{line: 800, col: 16, offset: 25708},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 797, col: 16, offset: 25605},
+																												pos:        position{line: 800, col: 16, offset: 25708},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 797, col: 23, offset: 25612},
+																												pos: position{line: 800, col: 23, offset: 25715},
 																												expr: &litMatcher{
-																													pos:        position{line: 797, col: 23, offset: 25612},
+																													pos:        position{line: 800, col: 23, offset: 25715},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8708,12 +8708,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 799, col: 8, offset: 25696},
+																								pos: position{line: 802, col: 8, offset: 25799},
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 10, offset: 90715},
+																									pos: position{line: 2868, col: 10, offset: 90818},
 																									run: (*parser).callonDocumentFragment1035,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2865, col: 10, offset: 90715},
+																										pos:        position{line: 2868, col: 10, offset: 90818},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8722,28 +8722,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2887, col: 8, offset: 91113},
+																								pos: position{line: 2890, col: 8, offset: 91216},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2874, col: 12, offset: 90886},
+																										pos: position{line: 2877, col: 12, offset: 90989},
 																										run: (*parser).callonDocumentFragment1038,
 																										expr: &choiceExpr{
-																											pos: position{line: 2874, col: 13, offset: 90887},
+																											pos: position{line: 2877, col: 13, offset: 90990},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 13, offset: 90887},
+																													pos:        position{line: 2877, col: 13, offset: 90990},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 20, offset: 90894},
+																													pos:        position{line: 2877, col: 20, offset: 90997},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 29, offset: 90903},
+																													pos:        position{line: 2877, col: 29, offset: 91006},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8752,9 +8752,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2884, col: 8, offset: 91063},
+																										pos: position{line: 2887, col: 8, offset: 91166},
 																										expr: &anyMatcher{
-																											line: 2884, col: 9, offset: 91064,
+																											line: 2887, col: 9, offset: 91167,
 																										},
 																									},
 																								},
@@ -8764,15 +8764,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1070, col: 5, offset: 32983},
+																				pos: position{line: 1073, col: 5, offset: 33086},
 																				run: (*parser).callonDocumentFragment1045,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2884, col: 8, offset: 91063},
+																		pos: position{line: 2887, col: 8, offset: 91166},
 																		expr: &anyMatcher{
-																			line: 2884, col: 9, offset: 91064,
+																			line: 2887, col: 9, offset: 91167,
 																		},
 																	},
 																},
@@ -8783,39 +8783,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1085, col: 5, offset: 33291},
+											pos: position{line: 1088, col: 5, offset: 33394},
 											run: (*parser).callonDocumentFragment1048,
 											expr: &seqExpr{
-												pos: position{line: 1085, col: 5, offset: 33291},
+												pos: position{line: 1088, col: 5, offset: 33394},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1085, col: 5, offset: 33291},
+														pos:   position{line: 1088, col: 5, offset: 33394},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 804, col: 5, offset: 25840},
+															pos: position{line: 807, col: 5, offset: 25943},
 															run: (*parser).callonDocumentFragment1051,
 															expr: &seqExpr{
-																pos: position{line: 804, col: 5, offset: 25840},
+																pos: position{line: 807, col: 5, offset: 25943},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 804, col: 5, offset: 25840},
+																		pos:   position{line: 807, col: 5, offset: 25943},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 804, col: 16, offset: 25851},
+																			pos: position{line: 807, col: 16, offset: 25954},
 																			run: (*parser).callonDocumentFragment1054,
 																			expr: &seqExpr{
-																				pos: position{line: 804, col: 16, offset: 25851},
+																				pos: position{line: 807, col: 16, offset: 25954},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 804, col: 16, offset: 25851},
+																						pos:        position{line: 807, col: 16, offset: 25954},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 804, col: 23, offset: 25858},
+																						pos: position{line: 807, col: 23, offset: 25961},
 																						expr: &litMatcher{
-																							pos:        position{line: 804, col: 23, offset: 25858},
+																							pos:        position{line: 807, col: 23, offset: 25961},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8826,12 +8826,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 806, col: 8, offset: 25942},
+																		pos: position{line: 809, col: 8, offset: 26045},
 																		expr: &actionExpr{
-																			pos: position{line: 2865, col: 10, offset: 90715},
+																			pos: position{line: 2868, col: 10, offset: 90818},
 																			run: (*parser).callonDocumentFragment1060,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 10, offset: 90715},
+																				pos:        position{line: 2868, col: 10, offset: 90818},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8840,28 +8840,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2887, col: 8, offset: 91113},
+																		pos: position{line: 2890, col: 8, offset: 91216},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2874, col: 12, offset: 90886},
+																				pos: position{line: 2877, col: 12, offset: 90989},
 																				run: (*parser).callonDocumentFragment1063,
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 13, offset: 90887},
+																					pos: position{line: 2877, col: 13, offset: 90990},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 13, offset: 90887},
+																							pos:        position{line: 2877, col: 13, offset: 90990},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 20, offset: 90894},
+																							pos:        position{line: 2877, col: 20, offset: 90997},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 29, offset: 90903},
+																							pos:        position{line: 2877, col: 29, offset: 91006},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8870,9 +8870,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2884, col: 8, offset: 91063},
+																				pos: position{line: 2887, col: 8, offset: 91166},
 																				expr: &anyMatcher{
-																					line: 2884, col: 9, offset: 91064,
+																					line: 2887, col: 9, offset: 91167,
 																				},
 																			},
 																		},
@@ -8882,56 +8882,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1086, col: 5, offset: 33330},
+														pos: position{line: 1089, col: 5, offset: 33433},
 														run: (*parser).callonDocumentFragment1070,
 													},
 													&labeledExpr{
-														pos:   position{line: 1089, col: 5, offset: 33422},
+														pos:   position{line: 1092, col: 5, offset: 33525},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1104, col: 4, offset: 33819},
+															pos: position{line: 1107, col: 4, offset: 33922},
 															expr: &actionExpr{
-																pos: position{line: 1104, col: 5, offset: 33820},
+																pos: position{line: 1107, col: 5, offset: 33923},
 																run: (*parser).callonDocumentFragment1073,
 																expr: &seqExpr{
-																	pos: position{line: 1104, col: 5, offset: 33820},
+																	pos: position{line: 1107, col: 5, offset: 33923},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1104, col: 5, offset: 33820},
+																			pos: position{line: 1107, col: 5, offset: 33923},
 																			expr: &choiceExpr{
-																				pos: position{line: 1097, col: 5, offset: 33662},
+																				pos: position{line: 1100, col: 5, offset: 33765},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1097, col: 5, offset: 33662},
+																						pos: position{line: 1100, col: 5, offset: 33765},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1097, col: 5, offset: 33662},
+																								pos:   position{line: 1100, col: 5, offset: 33765},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 5, offset: 25840},
+																									pos: position{line: 807, col: 5, offset: 25943},
 																									run: (*parser).callonDocumentFragment1079,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 5, offset: 25840},
+																										pos: position{line: 807, col: 5, offset: 25943},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 804, col: 5, offset: 25840},
+																												pos:   position{line: 807, col: 5, offset: 25943},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 804, col: 16, offset: 25851},
+																													pos: position{line: 807, col: 16, offset: 25954},
 																													run: (*parser).callonDocumentFragment1082,
 																													expr: &seqExpr{
-																														pos: position{line: 804, col: 16, offset: 25851},
+																														pos: position{line: 807, col: 16, offset: 25954},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 804, col: 16, offset: 25851},
+																																pos:        position{line: 807, col: 16, offset: 25954},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 804, col: 23, offset: 25858},
+																																pos: position{line: 807, col: 23, offset: 25961},
 																																expr: &litMatcher{
-																																	pos:        position{line: 804, col: 23, offset: 25858},
+																																	pos:        position{line: 807, col: 23, offset: 25961},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8942,12 +8942,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 806, col: 8, offset: 25942},
+																												pos: position{line: 809, col: 8, offset: 26045},
 																												expr: &actionExpr{
-																													pos: position{line: 2865, col: 10, offset: 90715},
+																													pos: position{line: 2868, col: 10, offset: 90818},
 																													run: (*parser).callonDocumentFragment1088,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2865, col: 10, offset: 90715},
+																														pos:        position{line: 2868, col: 10, offset: 90818},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8956,28 +8956,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2887, col: 8, offset: 91113},
+																												pos: position{line: 2890, col: 8, offset: 91216},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2874, col: 12, offset: 90886},
+																														pos: position{line: 2877, col: 12, offset: 90989},
 																														run: (*parser).callonDocumentFragment1091,
 																														expr: &choiceExpr{
-																															pos: position{line: 2874, col: 13, offset: 90887},
+																															pos: position{line: 2877, col: 13, offset: 90990},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 13, offset: 90887},
+																																	pos:        position{line: 2877, col: 13, offset: 90990},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 20, offset: 90894},
+																																	pos:        position{line: 2877, col: 20, offset: 90997},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 29, offset: 90903},
+																																	pos:        position{line: 2877, col: 29, offset: 91006},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8986,9 +8986,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2884, col: 8, offset: 91063},
+																														pos: position{line: 2887, col: 8, offset: 91166},
 																														expr: &anyMatcher{
-																															line: 2884, col: 9, offset: 91064,
+																															line: 2887, col: 9, offset: 91167,
 																														},
 																													},
 																												},
@@ -8998,45 +8998,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1098, col: 5, offset: 33693},
+																								pos: position{line: 1101, col: 5, offset: 33796},
 																								run: (*parser).callonDocumentFragment1098,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2884, col: 8, offset: 91063},
+																						pos: position{line: 2887, col: 8, offset: 91166},
 																						expr: &anyMatcher{
-																							line: 2884, col: 9, offset: 91064,
+																							line: 2887, col: 9, offset: 91167,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1105, col: 5, offset: 33850},
+																			pos:   position{line: 1108, col: 5, offset: 33953},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 814, col: 5, offset: 26191},
 																				run: (*parser).callonDocumentFragment1102,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 814, col: 5, offset: 26191},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2882, col: 11, offset: 91049},
+																							pos: position{line: 2885, col: 11, offset: 91152},
 																							expr: &anyMatcher{
-																								line: 2882, col: 13, offset: 91051,
+																								line: 2885, col: 13, offset: 91154,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 815, col: 5, offset: 26266},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2811, col: 13, offset: 89241},
+																								pos: position{line: 2814, col: 13, offset: 89344},
 																								run: (*parser).callonDocumentFragment1107,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2811, col: 13, offset: 89241},
+																									pos: position{line: 2814, col: 13, offset: 89344},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2811, col: 13, offset: 89241},
+																										pos:        position{line: 2814, col: 13, offset: 89344},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -9046,28 +9046,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonDocumentFragment1111,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -9076,9 +9076,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -9093,44 +9093,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1090, col: 5, offset: 33456},
+														pos:   position{line: 1093, col: 5, offset: 33559},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1090, col: 9, offset: 33460},
+															pos: position{line: 1093, col: 9, offset: 33563},
 															expr: &choiceExpr{
-																pos: position{line: 1097, col: 5, offset: 33662},
+																pos: position{line: 1100, col: 5, offset: 33765},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1097, col: 5, offset: 33662},
+																		pos: position{line: 1100, col: 5, offset: 33765},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1097, col: 5, offset: 33662},
+																				pos:   position{line: 1100, col: 5, offset: 33765},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 804, col: 5, offset: 25840},
+																					pos: position{line: 807, col: 5, offset: 25943},
 																					run: (*parser).callonDocumentFragment1123,
 																					expr: &seqExpr{
-																						pos: position{line: 804, col: 5, offset: 25840},
+																						pos: position{line: 807, col: 5, offset: 25943},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 804, col: 5, offset: 25840},
+																								pos:   position{line: 807, col: 5, offset: 25943},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 16, offset: 25851},
+																									pos: position{line: 807, col: 16, offset: 25954},
 																									run: (*parser).callonDocumentFragment1126,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 16, offset: 25851},
+																										pos: position{line: 807, col: 16, offset: 25954},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 804, col: 16, offset: 25851},
+																												pos:        position{line: 807, col: 16, offset: 25954},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 804, col: 23, offset: 25858},
+																												pos: position{line: 807, col: 23, offset: 25961},
 																												expr: &litMatcher{
-																													pos:        position{line: 804, col: 23, offset: 25858},
+																													pos:        position{line: 807, col: 23, offset: 25961},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -9141,12 +9141,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 806, col: 8, offset: 25942},
+																								pos: position{line: 809, col: 8, offset: 26045},
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 10, offset: 90715},
+																									pos: position{line: 2868, col: 10, offset: 90818},
 																									run: (*parser).callonDocumentFragment1132,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2865, col: 10, offset: 90715},
+																										pos:        position{line: 2868, col: 10, offset: 90818},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -9155,28 +9155,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2887, col: 8, offset: 91113},
+																								pos: position{line: 2890, col: 8, offset: 91216},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2874, col: 12, offset: 90886},
+																										pos: position{line: 2877, col: 12, offset: 90989},
 																										run: (*parser).callonDocumentFragment1135,
 																										expr: &choiceExpr{
-																											pos: position{line: 2874, col: 13, offset: 90887},
+																											pos: position{line: 2877, col: 13, offset: 90990},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 13, offset: 90887},
+																													pos:        position{line: 2877, col: 13, offset: 90990},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 20, offset: 90894},
+																													pos:        position{line: 2877, col: 20, offset: 90997},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 29, offset: 90903},
+																													pos:        position{line: 2877, col: 29, offset: 91006},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9185,9 +9185,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2884, col: 8, offset: 91063},
+																										pos: position{line: 2887, col: 8, offset: 91166},
 																										expr: &anyMatcher{
-																											line: 2884, col: 9, offset: 91064,
+																											line: 2887, col: 9, offset: 91167,
 																										},
 																									},
 																								},
@@ -9197,15 +9197,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1098, col: 5, offset: 33693},
+																				pos: position{line: 1101, col: 5, offset: 33796},
 																				run: (*parser).callonDocumentFragment1142,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2884, col: 8, offset: 91063},
+																		pos: position{line: 2887, col: 8, offset: 91166},
 																		expr: &anyMatcher{
-																			line: 2884, col: 9, offset: 91064,
+																			line: 2887, col: 9, offset: 91167,
 																		},
 																	},
 																},
@@ -9216,52 +9216,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2710, col: 18, offset: 86305},
+											pos: position{line: 2713, col: 18, offset: 86408},
 											run: (*parser).callonDocumentFragment1145,
 											expr: &seqExpr{
-												pos: position{line: 2710, col: 18, offset: 86305},
+												pos: position{line: 2713, col: 18, offset: 86408},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2711, col: 9, offset: 86315},
+														pos: position{line: 2714, col: 9, offset: 86418},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2711, col: 9, offset: 86315},
+																pos:        position{line: 2714, col: 9, offset: 86418},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2712, col: 11, offset: 86351},
+																pos:        position{line: 2715, col: 11, offset: 86454},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2712, col: 19, offset: 86359},
+																pos:        position{line: 2715, col: 19, offset: 86462},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2712, col: 29, offset: 86369},
+																pos:        position{line: 2715, col: 29, offset: 86472},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2712, col: 37, offset: 86377},
+																pos:        position{line: 2715, col: 37, offset: 86480},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2712, col: 47, offset: 86387},
+																pos:        position{line: 2715, col: 47, offset: 86490},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2712, col: 55, offset: 86395},
+																pos:        position{line: 2715, col: 55, offset: 86498},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9269,12 +9269,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2713, col: 11, offset: 86453},
+														pos: position{line: 2716, col: 11, offset: 86556},
 														expr: &actionExpr{
-															pos: position{line: 2865, col: 10, offset: 90715},
+															pos: position{line: 2868, col: 10, offset: 90818},
 															run: (*parser).callonDocumentFragment1156,
 															expr: &charClassMatcher{
-																pos:        position{line: 2865, col: 10, offset: 90715},
+																pos:        position{line: 2868, col: 10, offset: 90818},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9283,28 +9283,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2887, col: 8, offset: 91113},
+														pos: position{line: 2890, col: 8, offset: 91216},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2874, col: 12, offset: 90886},
+																pos: position{line: 2877, col: 12, offset: 90989},
 																run: (*parser).callonDocumentFragment1159,
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 13, offset: 90887},
+																	pos: position{line: 2877, col: 13, offset: 90990},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 13, offset: 90887},
+																			pos:        position{line: 2877, col: 13, offset: 90990},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 20, offset: 90894},
+																			pos:        position{line: 2877, col: 20, offset: 90997},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 29, offset: 90903},
+																			pos:        position{line: 2877, col: 29, offset: 91006},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9313,36 +9313,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2884, col: 8, offset: 91063},
+																pos: position{line: 2887, col: 8, offset: 91166},
 																expr: &anyMatcher{
-																	line: 2884, col: 9, offset: 91064,
+																	line: 2887, col: 9, offset: 91167,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2887, col: 8, offset: 91113},
+														pos: position{line: 2890, col: 8, offset: 91216},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2874, col: 12, offset: 90886},
+																pos: position{line: 2877, col: 12, offset: 90989},
 																run: (*parser).callonDocumentFragment1167,
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 13, offset: 90887},
+																	pos: position{line: 2877, col: 13, offset: 90990},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 13, offset: 90887},
+																			pos:        position{line: 2877, col: 13, offset: 90990},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 20, offset: 90894},
+																			pos:        position{line: 2877, col: 20, offset: 90997},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 29, offset: 90903},
+																			pos:        position{line: 2877, col: 29, offset: 91006},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9351,9 +9351,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2884, col: 8, offset: 91063},
+																pos: position{line: 2887, col: 8, offset: 91166},
 																expr: &anyMatcher{
-																	line: 2884, col: 9, offset: 91064,
+																	line: 2887, col: 9, offset: 91167,
 																},
 															},
 														},
@@ -9366,24 +9366,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2601, col: 5, offset: 83199},
+											pos: position{line: 2604, col: 5, offset: 83302},
 											run: (*parser).callonDocumentFragment1175,
 											expr: &seqExpr{
-												pos: position{line: 2601, col: 5, offset: 83199},
+												pos: position{line: 2604, col: 5, offset: 83302},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2607, col: 19, offset: 83356},
+														pos:        position{line: 2610, col: 19, offset: 83459},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2607, col: 26, offset: 83363},
+														pos: position{line: 2610, col: 26, offset: 83466},
 														expr: &actionExpr{
-															pos: position{line: 2865, col: 10, offset: 90715},
+															pos: position{line: 2868, col: 10, offset: 90818},
 															run: (*parser).callonDocumentFragment1179,
 															expr: &charClassMatcher{
-																pos:        position{line: 2865, col: 10, offset: 90715},
+																pos:        position{line: 2868, col: 10, offset: 90818},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9392,28 +9392,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2887, col: 8, offset: 91113},
+														pos: position{line: 2890, col: 8, offset: 91216},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2874, col: 12, offset: 90886},
+																pos: position{line: 2877, col: 12, offset: 90989},
 																run: (*parser).callonDocumentFragment1182,
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 13, offset: 90887},
+																	pos: position{line: 2877, col: 13, offset: 90990},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 13, offset: 90887},
+																			pos:        position{line: 2877, col: 13, offset: 90990},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 20, offset: 90894},
+																			pos:        position{line: 2877, col: 20, offset: 90997},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 29, offset: 90903},
+																			pos:        position{line: 2877, col: 29, offset: 91006},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9422,40 +9422,40 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2884, col: 8, offset: 91063},
+																pos: position{line: 2887, col: 8, offset: 91166},
 																expr: &anyMatcher{
-																	line: 2884, col: 9, offset: 91064,
+																	line: 2887, col: 9, offset: 91167,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2602, col: 5, offset: 83223},
+														pos:   position{line: 2605, col: 5, offset: 83326},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2602, col: 11, offset: 83229},
+															pos: position{line: 2605, col: 11, offset: 83332},
 															expr: &choiceExpr{
-																pos: position{line: 2602, col: 12, offset: 83230},
+																pos: position{line: 2605, col: 12, offset: 83333},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 677, col: 14, offset: 21489},
+																		pos: position{line: 680, col: 14, offset: 21592},
 																		run: (*parser).callonDocumentFragment1192,
 																		expr: &seqExpr{
-																			pos: position{line: 677, col: 14, offset: 21489},
+																			pos: position{line: 680, col: 14, offset: 21592},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2882, col: 11, offset: 91049},
+																					pos: position{line: 2885, col: 11, offset: 91152},
 																					expr: &anyMatcher{
-																						line: 2882, col: 13, offset: 91051,
+																						line: 2885, col: 13, offset: 91154,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 677, col: 21, offset: 21496},
+																					pos: position{line: 680, col: 21, offset: 21599},
 																					expr: &actionExpr{
-																						pos: position{line: 2865, col: 10, offset: 90715},
+																						pos: position{line: 2868, col: 10, offset: 90818},
 																						run: (*parser).callonDocumentFragment1197,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2865, col: 10, offset: 90715},
+																							pos:        position{line: 2868, col: 10, offset: 90818},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9464,28 +9464,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2887, col: 8, offset: 91113},
+																					pos: position{line: 2890, col: 8, offset: 91216},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2874, col: 12, offset: 90886},
+																							pos: position{line: 2877, col: 12, offset: 90989},
 																							run: (*parser).callonDocumentFragment1200,
 																							expr: &choiceExpr{
-																								pos: position{line: 2874, col: 13, offset: 90887},
+																								pos: position{line: 2877, col: 13, offset: 90990},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 90887},
+																										pos:        position{line: 2877, col: 13, offset: 90990},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 20, offset: 90894},
+																										pos:        position{line: 2877, col: 20, offset: 90997},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 29, offset: 90903},
+																										pos:        position{line: 2877, col: 29, offset: 91006},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9494,9 +9494,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2884, col: 8, offset: 91063},
+																							pos: position{line: 2887, col: 8, offset: 91166},
 																							expr: &anyMatcher{
-																								line: 2884, col: 9, offset: 91064,
+																								line: 2887, col: 9, offset: 91167,
 																							},
 																						},
 																					},
@@ -9505,32 +9505,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2614, col: 5, offset: 83475},
+																		pos: position{line: 2617, col: 5, offset: 83578},
 																		run: (*parser).callonDocumentFragment1207,
 																		expr: &seqExpr{
-																			pos: position{line: 2614, col: 5, offset: 83475},
+																			pos: position{line: 2617, col: 5, offset: 83578},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2614, col: 5, offset: 83475},
+																					pos: position{line: 2617, col: 5, offset: 83578},
 																					expr: &choiceExpr{
-																						pos: position{line: 2611, col: 22, offset: 83436},
+																						pos: position{line: 2614, col: 22, offset: 83539},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2607, col: 19, offset: 83356},
+																								pos: position{line: 2610, col: 19, offset: 83459},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2607, col: 19, offset: 83356},
+																										pos:        position{line: 2610, col: 19, offset: 83459},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2607, col: 26, offset: 83363},
+																										pos: position{line: 2610, col: 26, offset: 83466},
 																										expr: &actionExpr{
-																											pos: position{line: 2865, col: 10, offset: 90715},
+																											pos: position{line: 2868, col: 10, offset: 90818},
 																											run: (*parser).callonDocumentFragment1214,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2865, col: 10, offset: 90715},
+																												pos:        position{line: 2868, col: 10, offset: 90818},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9539,28 +9539,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2887, col: 8, offset: 91113},
+																										pos: position{line: 2890, col: 8, offset: 91216},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2874, col: 12, offset: 90886},
+																												pos: position{line: 2877, col: 12, offset: 90989},
 																												run: (*parser).callonDocumentFragment1217,
 																												expr: &choiceExpr{
-																													pos: position{line: 2874, col: 13, offset: 90887},
+																													pos: position{line: 2877, col: 13, offset: 90990},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2874, col: 13, offset: 90887},
+																															pos:        position{line: 2877, col: 13, offset: 90990},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2874, col: 20, offset: 90894},
+																															pos:        position{line: 2877, col: 20, offset: 90997},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2874, col: 29, offset: 90903},
+																															pos:        position{line: 2877, col: 29, offset: 91006},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9569,9 +9569,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2884, col: 8, offset: 91063},
+																												pos: position{line: 2887, col: 8, offset: 91166},
 																												expr: &anyMatcher{
-																													line: 2884, col: 9, offset: 91064,
+																													line: 2887, col: 9, offset: 91167,
 																												},
 																											},
 																										},
@@ -9579,59 +9579,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2884, col: 8, offset: 91063},
+																								pos: position{line: 2887, col: 8, offset: 91166},
 																								expr: &anyMatcher{
-																									line: 2884, col: 9, offset: 91064,
+																									line: 2887, col: 9, offset: 91167,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2615, col: 5, offset: 83498},
+																					pos:   position{line: 2618, col: 5, offset: 83601},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2616, col: 9, offset: 83516},
+																						pos: position{line: 2619, col: 9, offset: 83619},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2616, col: 10, offset: 83517},
+																								pos: position{line: 2619, col: 10, offset: 83620},
 																								run: (*parser).callonDocumentFragment1228,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2616, col: 10, offset: 83517},
+																									pos:   position{line: 2619, col: 10, offset: 83620},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2616, col: 17, offset: 83524},
+																										pos: position{line: 2619, col: 17, offset: 83627},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2624, col: 21, offset: 83720},
+																												pos: position{line: 2627, col: 21, offset: 83823},
 																												run: (*parser).callonDocumentFragment1231,
 																												expr: &seqExpr{
-																													pos: position{line: 2624, col: 21, offset: 83720},
+																													pos: position{line: 2627, col: 21, offset: 83823},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2624, col: 21, offset: 83720},
+																															pos:   position{line: 2627, col: 21, offset: 83823},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2624, col: 27, offset: 83726},
+																																pos: position{line: 2627, col: 27, offset: 83829},
 																																expr: &actionExpr{
-																																	pos: position{line: 2629, col: 5, offset: 83801},
+																																	pos: position{line: 2632, col: 5, offset: 83904},
 																																	run: (*parser).callonDocumentFragment1235,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2629, col: 5, offset: 83801},
+																																		pos: position{line: 2632, col: 5, offset: 83904},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2629, col: 5, offset: 83801},
+																																				pos:        position{line: 2632, col: 5, offset: 83904},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2629, col: 9, offset: 83805},
+																																				pos: position{line: 2632, col: 9, offset: 83908},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2865, col: 10, offset: 90715},
+																																					pos: position{line: 2868, col: 10, offset: 90818},
 																																					run: (*parser).callonDocumentFragment1239,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2865, col: 10, offset: 90715},
+																																						pos:        position{line: 2868, col: 10, offset: 90818},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9640,21 +9640,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2629, col: 16, offset: 83812},
+																																				pos:   position{line: 2632, col: 16, offset: 83915},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2635, col: 5, offset: 84012},
+																																					pos: position{line: 2638, col: 5, offset: 84115},
 																																					run: (*parser).callonDocumentFragment1242,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2635, col: 5, offset: 84012},
+																																						pos:   position{line: 2638, col: 5, offset: 84115},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2635, col: 14, offset: 84021},
+																																							pos: position{line: 2638, col: 14, offset: 84124},
 																																							run: (*parser).callonDocumentFragment1244,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2635, col: 14, offset: 84021},
+																																								pos: position{line: 2638, col: 14, offset: 84124},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2635, col: 14, offset: 84021},
+																																									pos:        position{line: 2638, col: 14, offset: 84124},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9671,28 +9671,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2887, col: 8, offset: 91113},
+																															pos: position{line: 2890, col: 8, offset: 91216},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2874, col: 12, offset: 90886},
+																																	pos: position{line: 2877, col: 12, offset: 90989},
 																																	run: (*parser).callonDocumentFragment1248,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2874, col: 13, offset: 90887},
+																																		pos: position{line: 2877, col: 13, offset: 90990},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2874, col: 13, offset: 90887},
+																																				pos:        position{line: 2877, col: 13, offset: 90990},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2874, col: 20, offset: 90894},
+																																				pos:        position{line: 2877, col: 20, offset: 90997},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2874, col: 29, offset: 90903},
+																																				pos:        position{line: 2877, col: 29, offset: 91006},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9701,9 +9701,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2884, col: 8, offset: 91063},
+																																	pos: position{line: 2887, col: 8, offset: 91166},
 																																	expr: &anyMatcher{
-																																		line: 2884, col: 9, offset: 91064,
+																																		line: 2887, col: 9, offset: 91167,
 																																	},
 																																},
 																															},
@@ -9712,40 +9712,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2641, col: 24, offset: 84157},
+																												pos: position{line: 2644, col: 24, offset: 84260},
 																												run: (*parser).callonDocumentFragment1255,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2641, col: 24, offset: 84157},
+																													pos:   position{line: 2644, col: 24, offset: 84260},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2641, col: 30, offset: 84163},
+																														pos: position{line: 2644, col: 30, offset: 84266},
 																														expr: &actionExpr{
-																															pos: position{line: 2646, col: 5, offset: 84239},
+																															pos: position{line: 2649, col: 5, offset: 84342},
 																															run: (*parser).callonDocumentFragment1258,
 																															expr: &seqExpr{
-																																pos: position{line: 2646, col: 5, offset: 84239},
+																																pos: position{line: 2649, col: 5, offset: 84342},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2646, col: 5, offset: 84239},
+																																		pos: position{line: 2649, col: 5, offset: 84342},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2611, col: 22, offset: 83436},
+																																			pos: position{line: 2614, col: 22, offset: 83539},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2607, col: 19, offset: 83356},
+																																					pos: position{line: 2610, col: 19, offset: 83459},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2607, col: 19, offset: 83356},
+																																							pos:        position{line: 2610, col: 19, offset: 83459},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2607, col: 26, offset: 83363},
+																																							pos: position{line: 2610, col: 26, offset: 83466},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2865, col: 10, offset: 90715},
+																																								pos: position{line: 2868, col: 10, offset: 90818},
 																																								run: (*parser).callonDocumentFragment1265,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2865, col: 10, offset: 90715},
+																																									pos:        position{line: 2868, col: 10, offset: 90818},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9754,28 +9754,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2887, col: 8, offset: 91113},
+																																							pos: position{line: 2890, col: 8, offset: 91216},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2874, col: 12, offset: 90886},
+																																									pos: position{line: 2877, col: 12, offset: 90989},
 																																									run: (*parser).callonDocumentFragment1268,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2874, col: 13, offset: 90887},
+																																										pos: position{line: 2877, col: 13, offset: 90990},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2874, col: 13, offset: 90887},
+																																												pos:        position{line: 2877, col: 13, offset: 90990},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2874, col: 20, offset: 90894},
+																																												pos:        position{line: 2877, col: 20, offset: 90997},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2874, col: 29, offset: 90903},
+																																												pos:        position{line: 2877, col: 29, offset: 91006},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9784,9 +9784,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2884, col: 8, offset: 91063},
+																																									pos: position{line: 2887, col: 8, offset: 91166},
 																																									expr: &anyMatcher{
-																																										line: 2884, col: 9, offset: 91064,
+																																										line: 2887, col: 9, offset: 91167,
 																																									},
 																																								},
 																																							},
@@ -9794,35 +9794,35 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2884, col: 8, offset: 91063},
+																																					pos: position{line: 2887, col: 8, offset: 91166},
 																																					expr: &anyMatcher{
-																																						line: 2884, col: 9, offset: 91064,
+																																						line: 2887, col: 9, offset: 91167,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2647, col: 5, offset: 84262},
+																																		pos: position{line: 2650, col: 5, offset: 84365},
 																																		expr: &actionExpr{
-																																			pos: position{line: 677, col: 14, offset: 21489},
+																																			pos: position{line: 680, col: 14, offset: 21592},
 																																			run: (*parser).callonDocumentFragment1278,
 																																			expr: &seqExpr{
-																																				pos: position{line: 677, col: 14, offset: 21489},
+																																				pos: position{line: 680, col: 14, offset: 21592},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2882, col: 11, offset: 91049},
+																																						pos: position{line: 2885, col: 11, offset: 91152},
 																																						expr: &anyMatcher{
-																																							line: 2882, col: 13, offset: 91051,
+																																							line: 2885, col: 13, offset: 91154,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 677, col: 21, offset: 21496},
+																																						pos: position{line: 680, col: 21, offset: 21599},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2865, col: 10, offset: 90715},
+																																							pos: position{line: 2868, col: 10, offset: 90818},
 																																							run: (*parser).callonDocumentFragment1283,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2865, col: 10, offset: 90715},
+																																								pos:        position{line: 2868, col: 10, offset: 90818},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9831,28 +9831,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2887, col: 8, offset: 91113},
+																																						pos: position{line: 2890, col: 8, offset: 91216},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2874, col: 12, offset: 90886},
+																																								pos: position{line: 2877, col: 12, offset: 90989},
 																																								run: (*parser).callonDocumentFragment1286,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2874, col: 13, offset: 90887},
+																																									pos: position{line: 2877, col: 13, offset: 90990},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2874, col: 13, offset: 90887},
+																																											pos:        position{line: 2877, col: 13, offset: 90990},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2874, col: 20, offset: 90894},
+																																											pos:        position{line: 2877, col: 20, offset: 90997},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2874, col: 29, offset: 90903},
+																																											pos:        position{line: 2877, col: 29, offset: 91006},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9861,9 +9861,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2884, col: 8, offset: 91063},
+																																								pos: position{line: 2887, col: 8, offset: 91166},
 																																								expr: &anyMatcher{
-																																									line: 2884, col: 9, offset: 91064,
+																																									line: 2887, col: 9, offset: 91167,
 																																								},
 																																							},
 																																						},
@@ -9873,17 +9873,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2648, col: 5, offset: 84277},
+																																		pos:   position{line: 2651, col: 5, offset: 84380},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2648, col: 12, offset: 84284},
+																																			pos: position{line: 2651, col: 12, offset: 84387},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2665, col: 20, offset: 84790},
+																																				pos: position{line: 2668, col: 20, offset: 84893},
 																																				run: (*parser).callonDocumentFragment1295,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2665, col: 20, offset: 84790},
+																																					pos: position{line: 2668, col: 20, offset: 84893},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2665, col: 20, offset: 84790},
+																																						pos:        position{line: 2668, col: 20, offset: 84893},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9894,18 +9894,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2648, col: 31, offset: 84303},
+																																		pos:        position{line: 2651, col: 31, offset: 84406},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2648, col: 35, offset: 84307},
+																																		pos: position{line: 2651, col: 35, offset: 84410},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2865, col: 10, offset: 90715},
+																																			pos: position{line: 2868, col: 10, offset: 90818},
 																																			run: (*parser).callonDocumentFragment1300,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2865, col: 10, offset: 90715},
+																																				pos:        position{line: 2868, col: 10, offset: 90818},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9914,30 +9914,30 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2648, col: 42, offset: 84314},
+																																		pos: position{line: 2651, col: 42, offset: 84417},
 																																		expr: &seqExpr{
-																																			pos: position{line: 2648, col: 43, offset: 84315},
+																																			pos: position{line: 2651, col: 43, offset: 84418},
 																																			exprs: []interface{}{
 																																				&actionExpr{
-																																					pos: position{line: 2874, col: 12, offset: 90886},
+																																					pos: position{line: 2877, col: 12, offset: 90989},
 																																					run: (*parser).callonDocumentFragment1304,
 																																					expr: &choiceExpr{
-																																						pos: position{line: 2874, col: 13, offset: 90887},
+																																						pos: position{line: 2877, col: 13, offset: 90990},
 																																						alternatives: []interface{}{
 																																							&litMatcher{
-																																								pos:        position{line: 2874, col: 13, offset: 90887},
+																																								pos:        position{line: 2877, col: 13, offset: 90990},
 																																								val:        "\n",
 																																								ignoreCase: false,
 																																								want:       "\"\\n\"",
 																																							},
 																																							&litMatcher{
-																																								pos:        position{line: 2874, col: 20, offset: 90894},
+																																								pos:        position{line: 2877, col: 20, offset: 90997},
 																																								val:        "\r\n",
 																																								ignoreCase: false,
 																																								want:       "\"\\r\\n\"",
 																																							},
 																																							&litMatcher{
-																																								pos:        position{line: 2874, col: 29, offset: 90903},
+																																								pos:        position{line: 2877, col: 29, offset: 91006},
 																																								val:        "\r",
 																																								ignoreCase: false,
 																																								want:       "\"\\r\"",
@@ -9946,38 +9946,38 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 2648, col: 51, offset: 84323},
+																																					pos: position{line: 2651, col: 51, offset: 84426},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2475, col: 22, offset: 79658},
+																																						pos: position{line: 2478, col: 22, offset: 79761},
 																																						run: (*parser).callonDocumentFragment1310,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2475, col: 22, offset: 79658},
+																																							pos: position{line: 2478, col: 22, offset: 79761},
 																																							exprs: []interface{}{
 																																								&litMatcher{
-																																									pos:        position{line: 2480, col: 31, offset: 79879},
+																																									pos:        position{line: 2483, col: 31, offset: 79982},
 																																									val:        "//",
 																																									ignoreCase: false,
 																																									want:       "\"//\"",
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2480, col: 36, offset: 79884},
+																																									pos: position{line: 2483, col: 36, offset: 79987},
 																																									expr: &litMatcher{
-																																										pos:        position{line: 2480, col: 37, offset: 79885},
+																																										pos:        position{line: 2483, col: 37, offset: 79988},
 																																										val:        "//",
 																																										ignoreCase: false,
 																																										want:       "\"//\"",
 																																									},
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2475, col: 49, offset: 79685},
+																																									pos:   position{line: 2478, col: 49, offset: 79788},
 																																									label: "content",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2811, col: 13, offset: 89241},
+																																										pos: position{line: 2814, col: 13, offset: 89344},
 																																										run: (*parser).callonDocumentFragment1316,
 																																										expr: &zeroOrMoreExpr{
-																																											pos: position{line: 2811, col: 13, offset: 89241},
+																																											pos: position{line: 2814, col: 13, offset: 89344},
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2811, col: 13, offset: 89241},
+																																												pos:        position{line: 2814, col: 13, offset: 89344},
 																																												val:        "[^\\r\\n]",
 																																												chars:      []rune{'\r', '\n'},
 																																												ignoreCase: false,
@@ -9987,28 +9987,28 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&choiceExpr{
-																																									pos: position{line: 2887, col: 8, offset: 91113},
+																																									pos: position{line: 2890, col: 8, offset: 91216},
 																																									alternatives: []interface{}{
 																																										&actionExpr{
-																																											pos: position{line: 2874, col: 12, offset: 90886},
+																																											pos: position{line: 2877, col: 12, offset: 90989},
 																																											run: (*parser).callonDocumentFragment1320,
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2874, col: 13, offset: 90887},
+																																												pos: position{line: 2877, col: 13, offset: 90990},
 																																												alternatives: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2874, col: 13, offset: 90887},
+																																														pos:        position{line: 2877, col: 13, offset: 90990},
 																																														val:        "\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2874, col: 20, offset: 90894},
+																																														pos:        position{line: 2877, col: 20, offset: 90997},
 																																														val:        "\r\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2874, col: 29, offset: 90903},
+																																														pos:        position{line: 2877, col: 29, offset: 91006},
 																																														val:        "\r",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\"",
@@ -10017,9 +10017,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2884, col: 8, offset: 91063},
+																																											pos: position{line: 2887, col: 8, offset: 91166},
 																																											expr: &anyMatcher{
-																																												line: 2884, col: 9, offset: 91064,
+																																												line: 2887, col: 9, offset: 91167,
 																																											},
 																																										},
 																																									},
@@ -10032,37 +10032,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2648, col: 72, offset: 84344},
+																																		pos:   position{line: 2651, col: 72, offset: 84447},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2654, col: 5, offset: 84503},
+																																			pos: position{line: 2657, col: 5, offset: 84606},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2655, col: 9, offset: 84513},
+																																				pos: position{line: 2658, col: 9, offset: 84616},
 																																				run: (*parser).callonDocumentFragment1329,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2655, col: 9, offset: 84513},
+																																					pos: position{line: 2658, col: 9, offset: 84616},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2655, col: 9, offset: 84513},
+																																							pos: position{line: 2658, col: 9, offset: 84616},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2611, col: 22, offset: 83436},
+																																								pos: position{line: 2614, col: 22, offset: 83539},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2607, col: 19, offset: 83356},
+																																										pos: position{line: 2610, col: 19, offset: 83459},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2607, col: 19, offset: 83356},
+																																												pos:        position{line: 2610, col: 19, offset: 83459},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2607, col: 26, offset: 83363},
+																																												pos: position{line: 2610, col: 26, offset: 83466},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2865, col: 10, offset: 90715},
+																																													pos: position{line: 2868, col: 10, offset: 90818},
 																																													run: (*parser).callonDocumentFragment1336,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2865, col: 10, offset: 90715},
+																																														pos:        position{line: 2868, col: 10, offset: 90818},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -10071,28 +10071,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2887, col: 8, offset: 91113},
+																																												pos: position{line: 2890, col: 8, offset: 91216},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2874, col: 12, offset: 90886},
+																																														pos: position{line: 2877, col: 12, offset: 90989},
 																																														run: (*parser).callonDocumentFragment1339,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2874, col: 13, offset: 90887},
+																																															pos: position{line: 2877, col: 13, offset: 90990},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2874, col: 13, offset: 90887},
+																																																	pos:        position{line: 2877, col: 13, offset: 90990},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2874, col: 20, offset: 90894},
+																																																	pos:        position{line: 2877, col: 20, offset: 90997},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2874, col: 29, offset: 90903},
+																																																	pos:        position{line: 2877, col: 29, offset: 91006},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -10101,9 +10101,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2884, col: 8, offset: 91063},
+																																														pos: position{line: 2887, col: 8, offset: 91166},
 																																														expr: &anyMatcher{
-																																															line: 2884, col: 9, offset: 91064,
+																																															line: 2887, col: 9, offset: 91167,
 																																														},
 																																													},
 																																												},
@@ -10111,35 +10111,35 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2884, col: 8, offset: 91063},
+																																										pos: position{line: 2887, col: 8, offset: 91166},
 																																										expr: &anyMatcher{
-																																											line: 2884, col: 9, offset: 91064,
+																																											line: 2887, col: 9, offset: 91167,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2656, col: 9, offset: 84540},
+																																							pos: position{line: 2659, col: 9, offset: 84643},
 																																							expr: &actionExpr{
-																																								pos: position{line: 677, col: 14, offset: 21489},
+																																								pos: position{line: 680, col: 14, offset: 21592},
 																																								run: (*parser).callonDocumentFragment1349,
 																																								expr: &seqExpr{
-																																									pos: position{line: 677, col: 14, offset: 21489},
+																																									pos: position{line: 680, col: 14, offset: 21592},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2882, col: 11, offset: 91049},
+																																											pos: position{line: 2885, col: 11, offset: 91152},
 																																											expr: &anyMatcher{
-																																												line: 2882, col: 13, offset: 91051,
+																																												line: 2885, col: 13, offset: 91154,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 677, col: 21, offset: 21496},
+																																											pos: position{line: 680, col: 21, offset: 21599},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2865, col: 10, offset: 90715},
+																																												pos: position{line: 2868, col: 10, offset: 90818},
 																																												run: (*parser).callonDocumentFragment1354,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2865, col: 10, offset: 90715},
+																																													pos:        position{line: 2868, col: 10, offset: 90818},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -10148,28 +10148,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2887, col: 8, offset: 91113},
+																																											pos: position{line: 2890, col: 8, offset: 91216},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2874, col: 12, offset: 90886},
+																																													pos: position{line: 2877, col: 12, offset: 90989},
 																																													run: (*parser).callonDocumentFragment1357,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2874, col: 13, offset: 90887},
+																																														pos: position{line: 2877, col: 13, offset: 90990},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -10178,9 +10178,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2884, col: 8, offset: 91063},
+																																													pos: position{line: 2887, col: 8, offset: 91166},
 																																													expr: &anyMatcher{
-																																														line: 2884, col: 9, offset: 91064,
+																																														line: 2887, col: 9, offset: 91167,
 																																													},
 																																												},
 																																											},
@@ -10190,22 +10190,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2657, col: 9, offset: 84559},
+																																							pos: position{line: 2660, col: 9, offset: 84662},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2657, col: 11, offset: 84561},
+																																								pos: position{line: 2660, col: 11, offset: 84664},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2657, col: 11, offset: 84561},
+																																										pos:   position{line: 2660, col: 11, offset: 84664},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2657, col: 18, offset: 84568},
+																																											pos: position{line: 2660, col: 18, offset: 84671},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2665, col: 20, offset: 84790},
+																																												pos: position{line: 2668, col: 20, offset: 84893},
 																																												run: (*parser).callonDocumentFragment1368,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2665, col: 20, offset: 84790},
+																																													pos: position{line: 2668, col: 20, offset: 84893},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2665, col: 20, offset: 84790},
+																																														pos:        position{line: 2668, col: 20, offset: 84893},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -10216,7 +10216,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2657, col: 37, offset: 84587},
+																																										pos:        position{line: 2660, col: 37, offset: 84690},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -10225,15 +10225,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2658, col: 9, offset: 84600},
+																																							pos:   position{line: 2661, col: 9, offset: 84703},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2658, col: 18, offset: 84609},
+																																								pos: position{line: 2661, col: 18, offset: 84712},
 																																								run: (*parser).callonDocumentFragment1373,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2658, col: 18, offset: 84609},
+																																									pos: position{line: 2661, col: 18, offset: 84712},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2658, col: 18, offset: 84609},
+																																										pos:        position{line: 2661, col: 18, offset: 84712},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -10243,33 +10243,33 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2660, col: 12, offset: 84671},
+																																							pos: position{line: 2663, col: 12, offset: 84774},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2660, col: 13, offset: 84672},
+																																								pos: position{line: 2663, col: 13, offset: 84775},
 																																								exprs: []interface{}{
 																																									&choiceExpr{
-																																										pos: position{line: 2887, col: 8, offset: 91113},
+																																										pos: position{line: 2890, col: 8, offset: 91216},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2874, col: 12, offset: 90886},
+																																												pos: position{line: 2877, col: 12, offset: 90989},
 																																												run: (*parser).callonDocumentFragment1379,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2874, col: 13, offset: 90887},
+																																													pos: position{line: 2877, col: 13, offset: 90990},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2874, col: 13, offset: 90887},
+																																															pos:        position{line: 2877, col: 13, offset: 90990},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2874, col: 20, offset: 90894},
+																																															pos:        position{line: 2877, col: 20, offset: 90997},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2874, col: 29, offset: 90903},
+																																															pos:        position{line: 2877, col: 29, offset: 91006},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -10278,46 +10278,46 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2884, col: 8, offset: 91063},
+																																												pos: position{line: 2887, col: 8, offset: 91166},
 																																												expr: &anyMatcher{
-																																													line: 2884, col: 9, offset: 91064,
+																																													line: 2887, col: 9, offset: 91167,
 																																												},
 																																											},
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
-																																										pos: position{line: 2660, col: 17, offset: 84676},
+																																										pos: position{line: 2663, col: 17, offset: 84779},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2475, col: 22, offset: 79658},
+																																											pos: position{line: 2478, col: 22, offset: 79761},
 																																											run: (*parser).callonDocumentFragment1387,
 																																											expr: &seqExpr{
-																																												pos: position{line: 2475, col: 22, offset: 79658},
+																																												pos: position{line: 2478, col: 22, offset: 79761},
 																																												exprs: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2480, col: 31, offset: 79879},
+																																														pos:        position{line: 2483, col: 31, offset: 79982},
 																																														val:        "//",
 																																														ignoreCase: false,
 																																														want:       "\"//\"",
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2480, col: 36, offset: 79884},
+																																														pos: position{line: 2483, col: 36, offset: 79987},
 																																														expr: &litMatcher{
-																																															pos:        position{line: 2480, col: 37, offset: 79885},
+																																															pos:        position{line: 2483, col: 37, offset: 79988},
 																																															val:        "//",
 																																															ignoreCase: false,
 																																															want:       "\"//\"",
 																																														},
 																																													},
 																																													&labeledExpr{
-																																														pos:   position{line: 2475, col: 49, offset: 79685},
+																																														pos:   position{line: 2478, col: 49, offset: 79788},
 																																														label: "content",
 																																														expr: &actionExpr{
-																																															pos: position{line: 2811, col: 13, offset: 89241},
+																																															pos: position{line: 2814, col: 13, offset: 89344},
 																																															run: (*parser).callonDocumentFragment1393,
 																																															expr: &zeroOrMoreExpr{
-																																																pos: position{line: 2811, col: 13, offset: 89241},
+																																																pos: position{line: 2814, col: 13, offset: 89344},
 																																																expr: &charClassMatcher{
-																																																	pos:        position{line: 2811, col: 13, offset: 89241},
+																																																	pos:        position{line: 2814, col: 13, offset: 89344},
 																																																	val:        "[^\\r\\n]",
 																																																	chars:      []rune{'\r', '\n'},
 																																																	ignoreCase: false,
@@ -10327,28 +10327,28 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&choiceExpr{
-																																														pos: position{line: 2887, col: 8, offset: 91113},
+																																														pos: position{line: 2890, col: 8, offset: 91216},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2874, col: 12, offset: 90886},
+																																																pos: position{line: 2877, col: 12, offset: 90989},
 																																																run: (*parser).callonDocumentFragment1397,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2874, col: 13, offset: 90887},
+																																																	pos: position{line: 2877, col: 13, offset: 90990},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2874, col: 13, offset: 90887},
+																																																			pos:        position{line: 2877, col: 13, offset: 90990},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2874, col: 20, offset: 90894},
+																																																			pos:        position{line: 2877, col: 20, offset: 90997},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2874, col: 29, offset: 90903},
+																																																			pos:        position{line: 2877, col: 29, offset: 91006},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -10357,9 +10357,9 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2884, col: 8, offset: 91063},
+																																																pos: position{line: 2887, col: 8, offset: 91166},
 																																																expr: &anyMatcher{
-																																																	line: 2884, col: 9, offset: 91064,
+																																																	line: 2887, col: 9, offset: 91167,
 																																																},
 																																															},
 																																														},
@@ -10387,24 +10387,24 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 677, col: 14, offset: 21489},
+																								pos: position{line: 680, col: 14, offset: 21592},
 																								run: (*parser).callonDocumentFragment1404,
 																								expr: &seqExpr{
-																									pos: position{line: 677, col: 14, offset: 21489},
+																									pos: position{line: 680, col: 14, offset: 21592},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2882, col: 11, offset: 91049},
+																											pos: position{line: 2885, col: 11, offset: 91152},
 																											expr: &anyMatcher{
-																												line: 2882, col: 13, offset: 91051,
+																												line: 2885, col: 13, offset: 91154,
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 677, col: 21, offset: 21496},
+																											pos: position{line: 680, col: 21, offset: 21599},
 																											expr: &actionExpr{
-																												pos: position{line: 2865, col: 10, offset: 90715},
+																												pos: position{line: 2868, col: 10, offset: 90818},
 																												run: (*parser).callonDocumentFragment1409,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 10, offset: 90715},
+																													pos:        position{line: 2868, col: 10, offset: 90818},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10413,28 +10413,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2887, col: 8, offset: 91113},
+																											pos: position{line: 2890, col: 8, offset: 91216},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2874, col: 12, offset: 90886},
+																													pos: position{line: 2877, col: 12, offset: 90989},
 																													run: (*parser).callonDocumentFragment1412,
 																													expr: &choiceExpr{
-																														pos: position{line: 2874, col: 13, offset: 90887},
+																														pos: position{line: 2877, col: 13, offset: 90990},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10443,9 +10443,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2884, col: 8, offset: 91063},
+																													pos: position{line: 2887, col: 8, offset: 91166},
 																													expr: &anyMatcher{
-																														line: 2884, col: 9, offset: 91064,
+																														line: 2887, col: 9, offset: 91167,
 																													},
 																												},
 																											},
@@ -10464,24 +10464,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2611, col: 22, offset: 83436},
+														pos: position{line: 2614, col: 22, offset: 83539},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2607, col: 19, offset: 83356},
+																pos: position{line: 2610, col: 19, offset: 83459},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2607, col: 19, offset: 83356},
+																		pos:        position{line: 2610, col: 19, offset: 83459},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2607, col: 26, offset: 83363},
+																		pos: position{line: 2610, col: 26, offset: 83466},
 																		expr: &actionExpr{
-																			pos: position{line: 2865, col: 10, offset: 90715},
+																			pos: position{line: 2868, col: 10, offset: 90818},
 																			run: (*parser).callonDocumentFragment1423,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 10, offset: 90715},
+																				pos:        position{line: 2868, col: 10, offset: 90818},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10490,28 +10490,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2887, col: 8, offset: 91113},
+																		pos: position{line: 2890, col: 8, offset: 91216},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2874, col: 12, offset: 90886},
+																				pos: position{line: 2877, col: 12, offset: 90989},
 																				run: (*parser).callonDocumentFragment1426,
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 13, offset: 90887},
+																					pos: position{line: 2877, col: 13, offset: 90990},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 13, offset: 90887},
+																							pos:        position{line: 2877, col: 13, offset: 90990},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 20, offset: 90894},
+																							pos:        position{line: 2877, col: 20, offset: 90997},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 29, offset: 90903},
+																							pos:        position{line: 2877, col: 29, offset: 91006},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10520,9 +10520,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2884, col: 8, offset: 91063},
+																				pos: position{line: 2887, col: 8, offset: 91166},
 																				expr: &anyMatcher{
-																					line: 2884, col: 9, offset: 91064,
+																					line: 2887, col: 9, offset: 91167,
 																				},
 																			},
 																		},
@@ -10530,9 +10530,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2884, col: 8, offset: 91063},
+																pos: position{line: 2887, col: 8, offset: 91166},
 																expr: &anyMatcher{
-																	line: 2884, col: 9, offset: 91064,
+																	line: 2887, col: 9, offset: 91167,
 																},
 															},
 														},
@@ -10541,36 +10541,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2475, col: 22, offset: 79658},
+											pos: position{line: 2478, col: 22, offset: 79761},
 											run: (*parser).callonDocumentFragment1435,
 											expr: &seqExpr{
-												pos: position{line: 2475, col: 22, offset: 79658},
+												pos: position{line: 2478, col: 22, offset: 79761},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2480, col: 31, offset: 79879},
+														pos:        position{line: 2483, col: 31, offset: 79982},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2480, col: 36, offset: 79884},
+														pos: position{line: 2483, col: 36, offset: 79987},
 														expr: &litMatcher{
-															pos:        position{line: 2480, col: 37, offset: 79885},
+															pos:        position{line: 2483, col: 37, offset: 79988},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2475, col: 49, offset: 79685},
+														pos:   position{line: 2478, col: 49, offset: 79788},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2811, col: 13, offset: 89241},
+															pos: position{line: 2814, col: 13, offset: 89344},
 															run: (*parser).callonDocumentFragment1441,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2811, col: 13, offset: 89241},
+																pos: position{line: 2814, col: 13, offset: 89344},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2811, col: 13, offset: 89241},
+																	pos:        position{line: 2814, col: 13, offset: 89344},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10580,28 +10580,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2887, col: 8, offset: 91113},
+														pos: position{line: 2890, col: 8, offset: 91216},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2874, col: 12, offset: 90886},
+																pos: position{line: 2877, col: 12, offset: 90989},
 																run: (*parser).callonDocumentFragment1445,
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 13, offset: 90887},
+																	pos: position{line: 2877, col: 13, offset: 90990},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 13, offset: 90887},
+																			pos:        position{line: 2877, col: 13, offset: 90990},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 20, offset: 90894},
+																			pos:        position{line: 2877, col: 20, offset: 90997},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 29, offset: 90903},
+																			pos:        position{line: 2877, col: 29, offset: 91006},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10610,9 +10610,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2884, col: 8, offset: 91063},
+																pos: position{line: 2887, col: 8, offset: 91166},
 																expr: &anyMatcher{
-																	line: 2884, col: 9, offset: 91064,
+																	line: 2887, col: 9, offset: 91167,
 																},
 															},
 														},
@@ -10621,37 +10621,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1234, col: 5, offset: 38268},
+											pos: position{line: 1237, col: 5, offset: 38371},
 											run: (*parser).callonDocumentFragment1452,
 											expr: &seqExpr{
-												pos: position{line: 1234, col: 5, offset: 38268},
+												pos: position{line: 1237, col: 5, offset: 38371},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1234, col: 5, offset: 38268},
+														pos: position{line: 1237, col: 5, offset: 38371},
 														run: (*parser).callonDocumentFragment1454,
 													},
 													&labeledExpr{
-														pos:   position{line: 1237, col: 5, offset: 38326},
+														pos:   position{line: 1240, col: 5, offset: 38429},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1242, col: 20, offset: 38421},
+															pos: position{line: 1245, col: 20, offset: 38524},
 															run: (*parser).callonDocumentFragment1456,
 															expr: &seqExpr{
-																pos: position{line: 1242, col: 20, offset: 38421},
+																pos: position{line: 1245, col: 20, offset: 38524},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1246, col: 30, offset: 38593},
+																		pos:        position{line: 1249, col: 30, offset: 38696},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1246, col: 36, offset: 38599},
+																		pos: position{line: 1249, col: 36, offset: 38702},
 																		expr: &actionExpr{
-																			pos: position{line: 2865, col: 10, offset: 90715},
+																			pos: position{line: 2868, col: 10, offset: 90818},
 																			run: (*parser).callonDocumentFragment1460,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 10, offset: 90715},
+																				pos:        position{line: 2868, col: 10, offset: 90818},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10660,28 +10660,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2887, col: 8, offset: 91113},
+																		pos: position{line: 2890, col: 8, offset: 91216},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2874, col: 12, offset: 90886},
+																				pos: position{line: 2877, col: 12, offset: 90989},
 																				run: (*parser).callonDocumentFragment1463,
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 13, offset: 90887},
+																					pos: position{line: 2877, col: 13, offset: 90990},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 13, offset: 90887},
+																							pos:        position{line: 2877, col: 13, offset: 90990},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 20, offset: 90894},
+																							pos:        position{line: 2877, col: 20, offset: 90997},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 29, offset: 90903},
+																							pos:        position{line: 2877, col: 29, offset: 91006},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10690,46 +10690,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2884, col: 8, offset: 91063},
+																				pos: position{line: 2887, col: 8, offset: 91166},
 																				expr: &anyMatcher{
-																					line: 2884, col: 9, offset: 91064,
+																					line: 2887, col: 9, offset: 91167,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1242, col: 45, offset: 38446},
+																		pos:   position{line: 1245, col: 45, offset: 38549},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1242, col: 53, offset: 38454},
+																			pos: position{line: 1245, col: 53, offset: 38557},
 																			expr: &actionExpr{
-																				pos: position{line: 1248, col: 27, offset: 38637},
+																				pos: position{line: 1251, col: 27, offset: 38740},
 																				run: (*parser).callonDocumentFragment1472,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1248, col: 27, offset: 38637},
+																					pos: position{line: 1251, col: 27, offset: 38740},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1248, col: 28, offset: 38638},
+																						pos: position{line: 1251, col: 28, offset: 38741},
 																						expr: &seqExpr{
-																							pos: position{line: 1248, col: 29, offset: 38639},
+																							pos: position{line: 1251, col: 29, offset: 38742},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1248, col: 29, offset: 38639},
+																									pos: position{line: 1251, col: 29, offset: 38742},
 																									expr: &seqExpr{
-																										pos: position{line: 1246, col: 30, offset: 38593},
+																										pos: position{line: 1249, col: 30, offset: 38696},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1246, col: 30, offset: 38593},
+																												pos:        position{line: 1249, col: 30, offset: 38696},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1246, col: 36, offset: 38599},
+																												pos: position{line: 1249, col: 36, offset: 38702},
 																												expr: &actionExpr{
-																													pos: position{line: 2865, col: 10, offset: 90715},
+																													pos: position{line: 2868, col: 10, offset: 90818},
 																													run: (*parser).callonDocumentFragment1480,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2865, col: 10, offset: 90715},
+																														pos:        position{line: 2868, col: 10, offset: 90818},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10738,28 +10738,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2887, col: 8, offset: 91113},
+																												pos: position{line: 2890, col: 8, offset: 91216},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2874, col: 12, offset: 90886},
+																														pos: position{line: 2877, col: 12, offset: 90989},
 																														run: (*parser).callonDocumentFragment1483,
 																														expr: &choiceExpr{
-																															pos: position{line: 2874, col: 13, offset: 90887},
+																															pos: position{line: 2877, col: 13, offset: 90990},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 13, offset: 90887},
+																																	pos:        position{line: 2877, col: 13, offset: 90990},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 20, offset: 90894},
+																																	pos:        position{line: 2877, col: 20, offset: 90997},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 29, offset: 90903},
+																																	pos:        position{line: 2877, col: 29, offset: 91006},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10768,9 +10768,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2884, col: 8, offset: 91063},
+																														pos: position{line: 2887, col: 8, offset: 91166},
 																														expr: &anyMatcher{
-																															line: 2884, col: 9, offset: 91064,
+																															line: 2887, col: 9, offset: 91167,
 																														},
 																													},
 																												},
@@ -10779,7 +10779,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1248, col: 55, offset: 38665,
+																									line: 1251, col: 55, offset: 38768,
 																								},
 																							},
 																						},
@@ -10789,18 +10789,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1246, col: 30, offset: 38593},
+																		pos:        position{line: 1249, col: 30, offset: 38696},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1246, col: 36, offset: 38599},
+																		pos: position{line: 1249, col: 36, offset: 38702},
 																		expr: &actionExpr{
-																			pos: position{line: 2865, col: 10, offset: 90715},
+																			pos: position{line: 2868, col: 10, offset: 90818},
 																			run: (*parser).callonDocumentFragment1493,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 10, offset: 90715},
+																				pos:        position{line: 2868, col: 10, offset: 90818},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10809,28 +10809,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2887, col: 8, offset: 91113},
+																		pos: position{line: 2890, col: 8, offset: 91216},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2874, col: 12, offset: 90886},
+																				pos: position{line: 2877, col: 12, offset: 90989},
 																				run: (*parser).callonDocumentFragment1496,
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 13, offset: 90887},
+																					pos: position{line: 2877, col: 13, offset: 90990},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 13, offset: 90887},
+																							pos:        position{line: 2877, col: 13, offset: 90990},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 20, offset: 90894},
+																							pos:        position{line: 2877, col: 20, offset: 90997},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 29, offset: 90903},
+																							pos:        position{line: 2877, col: 29, offset: 91006},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10839,9 +10839,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2884, col: 8, offset: 91063},
+																				pos: position{line: 2887, col: 8, offset: 91166},
 																				expr: &anyMatcher{
-																					line: 2884, col: 9, offset: 91064,
+																					line: 2887, col: 9, offset: 91167,
 																				},
 																			},
 																		},
@@ -10891,27 +10891,27 @@ var g = &grammar{
 									pos: position{line: 282, col: 9, offset: 8388},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1210, col: 23, offset: 37374},
+											pos: position{line: 1213, col: 23, offset: 37477},
 											run: (*parser).callonDelimitedBlockElements7,
 											expr: &seqExpr{
-												pos: position{line: 1210, col: 23, offset: 37374},
+												pos: position{line: 1213, col: 23, offset: 37477},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1208, col: 32, offset: 37342},
+														pos:        position{line: 1211, col: 32, offset: 37445},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1210, col: 51, offset: 37402},
+														pos:   position{line: 1213, col: 51, offset: 37505},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1210, col: 56, offset: 37407},
+															pos: position{line: 1213, col: 56, offset: 37510},
 															run: (*parser).callonDelimitedBlockElements11,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1210, col: 56, offset: 37407},
+																pos: position{line: 1213, col: 56, offset: 37510},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1210, col: 56, offset: 37407},
+																	pos:        position{line: 1213, col: 56, offset: 37510},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -10921,7 +10921,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1208, col: 32, offset: 37342},
+														pos:        position{line: 1211, col: 32, offset: 37445},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -10938,9 +10938,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2884, col: 8, offset: 91063},
+							pos: position{line: 2887, col: 8, offset: 91166},
 							expr: &anyMatcher{
-								line: 2884, col: 9, offset: 91064,
+								line: 2887, col: 9, offset: 91167,
 							},
 						},
 					},
@@ -11012,12 +11012,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2869, col: 11, offset: 90776},
+												pos: position{line: 2872, col: 11, offset: 90879},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2869, col: 11, offset: 90776},
+													pos: position{line: 2872, col: 11, offset: 90879},
 													expr: &charClassMatcher{
-														pos:        position{line: 2869, col: 11, offset: 90776},
+														pos:        position{line: 2872, col: 11, offset: 90879},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11039,28 +11039,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2887, col: 8, offset: 91113},
+							pos: position{line: 2890, col: 8, offset: 91216},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2874, col: 12, offset: 90886},
+									pos: position{line: 2877, col: 12, offset: 90989},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2874, col: 13, offset: 90887},
+										pos: position{line: 2877, col: 13, offset: 90990},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2874, col: 13, offset: 90887},
+												pos:        position{line: 2877, col: 13, offset: 90990},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2874, col: 20, offset: 90894},
+												pos:        position{line: 2877, col: 20, offset: 90997},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2874, col: 29, offset: 90903},
+												pos:        position{line: 2877, col: 29, offset: 91006},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -11069,9 +11069,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2884, col: 8, offset: 91063},
+									pos: position{line: 2887, col: 8, offset: 91166},
 									expr: &anyMatcher{
-										line: 2884, col: 9, offset: 91064,
+										line: 2887, col: 9, offset: 91167,
 									},
 								},
 							},
@@ -11115,25 +11115,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2874, col: 12, offset: 90886},
+												pos: position{line: 2877, col: 12, offset: 90989},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2874, col: 13, offset: 90887},
+													pos: position{line: 2877, col: 13, offset: 90990},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2874, col: 13, offset: 90887},
+															pos:        position{line: 2877, col: 13, offset: 90990},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2874, col: 20, offset: 90894},
+															pos:        position{line: 2877, col: 20, offset: 90997},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2874, col: 29, offset: 90903},
+															pos:        position{line: 2877, col: 29, offset: 91006},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -11144,10 +11144,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2865, col: 10, offset: 90715},
+													pos: position{line: 2868, col: 10, offset: 90818},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2865, col: 10, offset: 90715},
+														pos:        position{line: 2868, col: 10, offset: 90818},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11217,10 +11217,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2865, col: 10, offset: 90715},
+											pos: position{line: 2868, col: 10, offset: 90818},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2865, col: 10, offset: 90715},
+												pos:        position{line: 2868, col: 10, offset: 90818},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -11229,28 +11229,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2887, col: 8, offset: 91113},
+										pos: position{line: 2890, col: 8, offset: 91216},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2874, col: 12, offset: 90886},
+												pos: position{line: 2877, col: 12, offset: 90989},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2874, col: 13, offset: 90887},
+													pos: position{line: 2877, col: 13, offset: 90990},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2874, col: 13, offset: 90887},
+															pos:        position{line: 2877, col: 13, offset: 90990},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2874, col: 20, offset: 90894},
+															pos:        position{line: 2877, col: 20, offset: 90997},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2874, col: 29, offset: 90903},
+															pos:        position{line: 2877, col: 29, offset: 91006},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -11259,9 +11259,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2884, col: 8, offset: 91063},
+												pos: position{line: 2887, col: 8, offset: 91166},
 												expr: &anyMatcher{
-													line: 2884, col: 9, offset: 91064,
+													line: 2887, col: 9, offset: 91167,
 												},
 											},
 										},
@@ -11294,23 +11294,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2462, col: 5, offset: 79204},
+										pos: position{line: 2465, col: 5, offset: 79307},
 										run: (*parser).callonAttributeDeclarationValueElement24,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 5, offset: 79204},
+											pos: position{line: 2465, col: 5, offset: 79307},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2462, col: 5, offset: 79204},
+													pos: position{line: 2465, col: 5, offset: 79307},
 													run: (*parser).callonAttributeDeclarationValueElement26,
 												},
 												&labeledExpr{
-													pos:   position{line: 2465, col: 5, offset: 79280},
+													pos:   position{line: 2468, col: 5, offset: 79383},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2466, col: 9, offset: 79298},
+														pos: position{line: 2469, col: 9, offset: 79401},
 														run: (*parser).callonAttributeDeclarationValueElement28,
 														expr: &charClassMatcher{
-															pos:        position{line: 2466, col: 10, offset: 79299},
+															pos:        position{line: 2469, col: 10, offset: 79402},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11322,10 +11322,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2865, col: 10, offset: 90715},
+										pos: position{line: 2868, col: 10, offset: 90818},
 										run: (*parser).callonAttributeDeclarationValueElement30,
 										expr: &charClassMatcher{
-											pos:        position{line: 2865, col: 10, offset: 90715},
+											pos:        position{line: 2868, col: 10, offset: 90818},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11333,35 +11333,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
+										pos: position{line: 639, col: 5, offset: 20212},
 										run: (*parser).callonAttributeDeclarationValueElement32,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 639, col: 5, offset: 20212},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20109},
+													pos: position{line: 639, col: 5, offset: 20212},
 													run: (*parser).callonAttributeDeclarationValueElement34,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20181},
+													pos:   position{line: 642, col: 5, offset: 20284},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20190},
+														pos: position{line: 642, col: 14, offset: 20293},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
+																pos: position{line: 648, col: 5, offset: 20422},
 																run: (*parser).callonAttributeDeclarationValueElement37,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 648, col: 5, offset: 20422},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20319},
+																			pos:        position{line: 648, col: 5, offset: 20422},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20327},
+																			pos:   position{line: 648, col: 13, offset: 20430},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -11393,7 +11393,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20346},
+																			pos:        position{line: 648, col: 32, offset: 20449},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11402,19 +11402,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
+																pos: position{line: 655, col: 5, offset: 20690},
 																run: (*parser).callonAttributeDeclarationValueElement47,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 655, col: 5, offset: 20690},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20587},
+																			pos:        position{line: 655, col: 5, offset: 20690},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20591},
+																			pos:   position{line: 655, col: 9, offset: 20694},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -11446,7 +11446,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20610},
+																			pos:        position{line: 655, col: 28, offset: 20713},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11455,19 +11455,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
+																pos: position{line: 661, col: 25, offset: 20894},
 																run: (*parser).callonAttributeDeclarationValueElement57,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 661, col: 25, offset: 20894},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20791},
+																			pos:        position{line: 661, col: 25, offset: 20894},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20803},
+																			pos:   position{line: 661, col: 37, offset: 20906},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -11499,33 +11499,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20822},
+																			pos:   position{line: 661, col: 56, offset: 20925},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20828},
+																				pos: position{line: 661, col: 62, offset: 20931},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 669, col: 17, offset: 21226},
 																					run: (*parser).callonAttributeDeclarationValueElement68,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 669, col: 17, offset: 21226},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 669, col: 17, offset: 21226},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 669, col: 21, offset: 21230},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 669, col: 28, offset: 21237},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 669, col: 28, offset: 21237},
 																											run: (*parser).callonAttributeDeclarationValueElement73,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 669, col: 28, offset: 21237},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11533,12 +11533,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 671, col: 9, offset: 21291},
 																											run: (*parser).callonAttributeDeclarationValueElement75,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 671, col: 9, offset: 21291},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 671, col: 9, offset: 21291},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11555,7 +11555,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20844},
+																			pos:        position{line: 661, col: 78, offset: 20947},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11564,19 +11564,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
+																pos: position{line: 665, col: 25, offset: 21065},
 																run: (*parser).callonAttributeDeclarationValueElement79,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 665, col: 25, offset: 21065},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 20962},
+																			pos:        position{line: 665, col: 25, offset: 21065},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 20975},
+																			pos:   position{line: 665, col: 38, offset: 21078},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -11608,33 +11608,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 20994},
+																			pos:   position{line: 665, col: 57, offset: 21097},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21000},
+																				pos: position{line: 665, col: 63, offset: 21103},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 669, col: 17, offset: 21226},
 																					run: (*parser).callonAttributeDeclarationValueElement90,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 669, col: 17, offset: 21226},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 669, col: 17, offset: 21226},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 669, col: 21, offset: 21230},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 669, col: 28, offset: 21237},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 669, col: 28, offset: 21237},
 																											run: (*parser).callonAttributeDeclarationValueElement95,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 669, col: 28, offset: 21237},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11642,12 +11642,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 671, col: 9, offset: 21291},
 																											run: (*parser).callonAttributeDeclarationValueElement97,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 671, col: 9, offset: 21291},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 671, col: 9, offset: 21291},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11664,7 +11664,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21016},
+																			pos:        position{line: 665, col: 79, offset: 21119},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11749,27 +11749,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1210, col: 23, offset: 37374},
+																						pos: position{line: 1213, col: 23, offset: 37477},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1210, col: 23, offset: 37374},
+																							pos: position{line: 1213, col: 23, offset: 37477},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1208, col: 32, offset: 37342},
+																									pos:        position{line: 1211, col: 32, offset: 37445},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1210, col: 51, offset: 37402},
+																									pos:   position{line: 1213, col: 51, offset: 37505},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1210, col: 56, offset: 37407},
+																										pos: position{line: 1213, col: 56, offset: 37510},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1210, col: 56, offset: 37407},
+																											pos: position{line: 1213, col: 56, offset: 37510},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1210, col: 56, offset: 37407},
+																												pos:        position{line: 1213, col: 56, offset: 37510},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11779,7 +11779,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1208, col: 32, offset: 37342},
+																									pos:        position{line: 1211, col: 32, offset: 37445},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
@@ -11788,35 +11788,35 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 639, col: 5, offset: 20212},
 																						run: (*parser).callonBlockAttributes27,
 																						expr: &seqExpr{
-																							pos: position{line: 636, col: 5, offset: 20109},
+																							pos: position{line: 639, col: 5, offset: 20212},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 636, col: 5, offset: 20109},
+																									pos: position{line: 639, col: 5, offset: 20212},
 																									run: (*parser).callonBlockAttributes29,
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 639, col: 5, offset: 20181},
+																									pos:   position{line: 642, col: 5, offset: 20284},
 																									label: "element",
 																									expr: &choiceExpr{
-																										pos: position{line: 639, col: 14, offset: 20190},
+																										pos: position{line: 642, col: 14, offset: 20293},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 645, col: 5, offset: 20319},
+																												pos: position{line: 648, col: 5, offset: 20422},
 																												run: (*parser).callonBlockAttributes32,
 																												expr: &seqExpr{
-																													pos: position{line: 645, col: 5, offset: 20319},
+																													pos: position{line: 648, col: 5, offset: 20422},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 645, col: 5, offset: 20319},
+																															pos:        position{line: 648, col: 5, offset: 20422},
 																															val:        "\\{",
 																															ignoreCase: false,
 																															want:       "\"\\\\{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 645, col: 13, offset: 20327},
+																															pos:   position{line: 648, col: 13, offset: 20430},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
@@ -11848,7 +11848,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 645, col: 32, offset: 20346},
+																															pos:        position{line: 648, col: 32, offset: 20449},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11857,19 +11857,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 652, col: 5, offset: 20587},
+																												pos: position{line: 655, col: 5, offset: 20690},
 																												run: (*parser).callonBlockAttributes42,
 																												expr: &seqExpr{
-																													pos: position{line: 652, col: 5, offset: 20587},
+																													pos: position{line: 655, col: 5, offset: 20690},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 652, col: 5, offset: 20587},
+																															pos:        position{line: 655, col: 5, offset: 20690},
 																															val:        "{",
 																															ignoreCase: false,
 																															want:       "\"{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 652, col: 9, offset: 20591},
+																															pos:   position{line: 655, col: 9, offset: 20694},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
@@ -11901,7 +11901,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 652, col: 28, offset: 20610},
+																															pos:        position{line: 655, col: 28, offset: 20713},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11910,19 +11910,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 658, col: 25, offset: 20791},
+																												pos: position{line: 661, col: 25, offset: 20894},
 																												run: (*parser).callonBlockAttributes52,
 																												expr: &seqExpr{
-																													pos: position{line: 658, col: 25, offset: 20791},
+																													pos: position{line: 661, col: 25, offset: 20894},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 658, col: 25, offset: 20791},
+																															pos:        position{line: 661, col: 25, offset: 20894},
 																															val:        "{counter:",
 																															ignoreCase: false,
 																															want:       "\"{counter:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 658, col: 37, offset: 20803},
+																															pos:   position{line: 661, col: 37, offset: 20906},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
@@ -11954,33 +11954,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 658, col: 56, offset: 20822},
+																															pos:   position{line: 661, col: 56, offset: 20925},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 658, col: 62, offset: 20828},
+																																pos: position{line: 661, col: 62, offset: 20931},
 																																expr: &actionExpr{
-																																	pos: position{line: 666, col: 17, offset: 21123},
+																																	pos: position{line: 669, col: 17, offset: 21226},
 																																	run: (*parser).callonBlockAttributes63,
 																																	expr: &seqExpr{
-																																		pos: position{line: 666, col: 17, offset: 21123},
+																																		pos: position{line: 669, col: 17, offset: 21226},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 666, col: 17, offset: 21123},
+																																				pos:        position{line: 669, col: 17, offset: 21226},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 666, col: 21, offset: 21127},
+																																				pos:   position{line: 669, col: 21, offset: 21230},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 666, col: 28, offset: 21134},
+																																					pos: position{line: 669, col: 28, offset: 21237},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 666, col: 28, offset: 21134},
+																																							pos: position{line: 669, col: 28, offset: 21237},
 																																							run: (*parser).callonBlockAttributes68,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 666, col: 28, offset: 21134},
+																																								pos:        position{line: 669, col: 28, offset: 21237},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11988,12 +11988,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 668, col: 9, offset: 21188},
+																																							pos: position{line: 671, col: 9, offset: 21291},
 																																							run: (*parser).callonBlockAttributes70,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 668, col: 9, offset: 21188},
+																																								pos: position{line: 671, col: 9, offset: 21291},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 668, col: 9, offset: 21188},
+																																									pos:        position{line: 671, col: 9, offset: 21291},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -12010,7 +12010,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 658, col: 78, offset: 20844},
+																															pos:        position{line: 661, col: 78, offset: 20947},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -12019,19 +12019,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 662, col: 25, offset: 20962},
+																												pos: position{line: 665, col: 25, offset: 21065},
 																												run: (*parser).callonBlockAttributes74,
 																												expr: &seqExpr{
-																													pos: position{line: 662, col: 25, offset: 20962},
+																													pos: position{line: 665, col: 25, offset: 21065},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 662, col: 25, offset: 20962},
+																															pos:        position{line: 665, col: 25, offset: 21065},
 																															val:        "{counter2:",
 																															ignoreCase: false,
 																															want:       "\"{counter2:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 662, col: 38, offset: 20975},
+																															pos:   position{line: 665, col: 38, offset: 21078},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
@@ -12063,33 +12063,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 662, col: 57, offset: 20994},
+																															pos:   position{line: 665, col: 57, offset: 21097},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 662, col: 63, offset: 21000},
+																																pos: position{line: 665, col: 63, offset: 21103},
 																																expr: &actionExpr{
-																																	pos: position{line: 666, col: 17, offset: 21123},
+																																	pos: position{line: 669, col: 17, offset: 21226},
 																																	run: (*parser).callonBlockAttributes85,
 																																	expr: &seqExpr{
-																																		pos: position{line: 666, col: 17, offset: 21123},
+																																		pos: position{line: 669, col: 17, offset: 21226},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 666, col: 17, offset: 21123},
+																																				pos:        position{line: 669, col: 17, offset: 21226},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 666, col: 21, offset: 21127},
+																																				pos:   position{line: 669, col: 21, offset: 21230},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 666, col: 28, offset: 21134},
+																																					pos: position{line: 669, col: 28, offset: 21237},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 666, col: 28, offset: 21134},
+																																							pos: position{line: 669, col: 28, offset: 21237},
 																																							run: (*parser).callonBlockAttributes90,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 666, col: 28, offset: 21134},
+																																								pos:        position{line: 669, col: 28, offset: 21237},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -12097,12 +12097,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 668, col: 9, offset: 21188},
+																																							pos: position{line: 671, col: 9, offset: 21291},
 																																							run: (*parser).callonBlockAttributes92,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 668, col: 9, offset: 21188},
+																																								pos: position{line: 671, col: 9, offset: 21291},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 668, col: 9, offset: 21188},
+																																									pos:        position{line: 671, col: 9, offset: 21291},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -12119,7 +12119,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 662, col: 79, offset: 21016},
+																															pos:        position{line: 665, col: 79, offset: 21119},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -12162,10 +12162,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 35, offset: 11487},
 												expr: &actionExpr{
-													pos: position{line: 2865, col: 10, offset: 90715},
+													pos: position{line: 2868, col: 10, offset: 90818},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2865, col: 10, offset: 90715},
+														pos:        position{line: 2868, col: 10, offset: 90818},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12174,28 +12174,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2887, col: 8, offset: 91113},
+												pos: position{line: 2890, col: 8, offset: 91216},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2874, col: 12, offset: 90886},
+														pos: position{line: 2877, col: 12, offset: 90989},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2874, col: 13, offset: 90887},
+															pos: position{line: 2877, col: 13, offset: 90990},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2874, col: 13, offset: 90887},
+																	pos:        position{line: 2877, col: 13, offset: 90990},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2874, col: 20, offset: 90894},
+																	pos:        position{line: 2877, col: 20, offset: 90997},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2874, col: 29, offset: 90903},
+																	pos:        position{line: 2877, col: 29, offset: 91006},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12204,9 +12204,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2884, col: 8, offset: 91063},
+														pos: position{line: 2887, col: 8, offset: 91166},
 														expr: &anyMatcher{
-															line: 2884, col: 9, offset: 91064,
+															line: 2887, col: 9, offset: 91167,
 														},
 													},
 												},
@@ -12214,24 +12214,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 372, col: 46, offset: 11498},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
+													pos: position{line: 680, col: 14, offset: 21592},
 													run: (*parser).callonBlockAttributes111,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 680, col: 14, offset: 21592},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2882, col: 11, offset: 91049},
+																pos: position{line: 2885, col: 11, offset: 91152},
 																expr: &anyMatcher{
-																	line: 2882, col: 13, offset: 91051,
+																	line: 2885, col: 13, offset: 91154,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 680, col: 21, offset: 21599},
 																expr: &actionExpr{
-																	pos: position{line: 2865, col: 10, offset: 90715},
+																	pos: position{line: 2868, col: 10, offset: 90818},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2865, col: 10, offset: 90715},
+																		pos:        position{line: 2868, col: 10, offset: 90818},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12240,28 +12240,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2887, col: 8, offset: 91113},
+																pos: position{line: 2890, col: 8, offset: 91216},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2874, col: 12, offset: 90886},
+																		pos: position{line: 2877, col: 12, offset: 90989},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2874, col: 13, offset: 90887},
+																			pos: position{line: 2877, col: 13, offset: 90990},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2874, col: 13, offset: 90887},
+																					pos:        position{line: 2877, col: 13, offset: 90990},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2874, col: 20, offset: 90894},
+																					pos:        position{line: 2877, col: 20, offset: 90997},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2874, col: 29, offset: 90903},
+																					pos:        position{line: 2877, col: 29, offset: 91006},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12270,9 +12270,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2884, col: 8, offset: 91063},
+																		pos: position{line: 2887, col: 8, offset: 91166},
 																		expr: &anyMatcher{
-																			line: 2884, col: 9, offset: 91064,
+																			line: 2887, col: 9, offset: 91167,
 																		},
 																	},
 																},
@@ -12324,12 +12324,12 @@ var g = &grammar{
 																		pos: position{line: 426, col: 9, offset: 13063},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2759, col: 14, offset: 87884},
+																				pos: position{line: 2762, col: 14, offset: 87987},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2759, col: 14, offset: 87884},
+																					pos: position{line: 2762, col: 14, offset: 87987},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2759, col: 14, offset: 87884},
+																						pos:        position{line: 2762, col: 14, offset: 87987},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12338,10 +12338,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2865, col: 10, offset: 90715},
+																				pos: position{line: 2868, col: 10, offset: 90818},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2865, col: 10, offset: 90715},
+																					pos:        position{line: 2868, col: 10, offset: 90818},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12349,27 +12349,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2782, col: 5, offset: 88369},
+																				pos: position{line: 2785, col: 5, offset: 88472},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2783, col: 9, offset: 88379},
+																					pos: position{line: 2786, col: 9, offset: 88482},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2783, col: 10, offset: 88380},
+																							pos:        position{line: 2786, col: 10, offset: 88483},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2785, col: 13, offset: 88477},
+																							pos: position{line: 2788, col: 13, offset: 88580},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2785, col: 13, offset: 88477},
+																									pos: position{line: 2788, col: 13, offset: 88580},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2788, col: 13, offset: 88577},
+																									pos:        position{line: 2791, col: 13, offset: 88680},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12377,20 +12377,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2788, col: 19, offset: 88583},
+																							pos:        position{line: 2791, col: 19, offset: 88686},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2791, col: 13, offset: 88621},
+																							pos: position{line: 2794, col: 13, offset: 88724},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2791, col: 13, offset: 88621},
+																									pos: position{line: 2794, col: 13, offset: 88724},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2794, col: 14, offset: 88714},
+																									pos:        position{line: 2797, col: 14, offset: 88817},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12399,18 +12399,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2796, col: 12, offset: 88758},
+																							pos: position{line: 2799, col: 12, offset: 88861},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2796, col: 12, offset: 88758},
+																									pos:        position{line: 2799, col: 12, offset: 88861},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2796, col: 16, offset: 88762},
+																									pos: position{line: 2799, col: 16, offset: 88865},
 																									expr: &litMatcher{
-																										pos:        position{line: 2796, col: 17, offset: 88763},
+																										pos:        position{line: 2799, col: 17, offset: 88866},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12422,19 +12422,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 648, col: 5, offset: 20422},
 																				run: (*parser).callonBlockAttributes156,
 																				expr: &seqExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 648, col: 5, offset: 20422},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 645, col: 5, offset: 20319},
+																							pos:        position{line: 648, col: 5, offset: 20422},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 645, col: 13, offset: 20327},
+																							pos:   position{line: 648, col: 13, offset: 20430},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -12466,7 +12466,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 645, col: 32, offset: 20346},
+																							pos:        position{line: 648, col: 32, offset: 20449},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12475,19 +12475,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 652, col: 5, offset: 20587},
+																				pos: position{line: 655, col: 5, offset: 20690},
 																				run: (*parser).callonBlockAttributes166,
 																				expr: &seqExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 655, col: 5, offset: 20690},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 652, col: 5, offset: 20587},
+																							pos:        position{line: 655, col: 5, offset: 20690},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 652, col: 9, offset: 20591},
+																							pos:   position{line: 655, col: 9, offset: 20694},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -12519,7 +12519,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 652, col: 28, offset: 20610},
+																							pos:        position{line: 655, col: 28, offset: 20713},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12528,10 +12528,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2804, col: 12, offset: 89023},
+																				pos: position{line: 2807, col: 12, offset: 89126},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2804, col: 12, offset: 89023},
+																					pos:        position{line: 2807, col: 12, offset: 89126},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12549,10 +12549,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 35, offset: 11642},
 												expr: &actionExpr{
-													pos: position{line: 2865, col: 10, offset: 90715},
+													pos: position{line: 2868, col: 10, offset: 90818},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2865, col: 10, offset: 90715},
+														pos:        position{line: 2868, col: 10, offset: 90818},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12561,28 +12561,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2887, col: 8, offset: 91113},
+												pos: position{line: 2890, col: 8, offset: 91216},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2874, col: 12, offset: 90886},
+														pos: position{line: 2877, col: 12, offset: 90989},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2874, col: 13, offset: 90887},
+															pos: position{line: 2877, col: 13, offset: 90990},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2874, col: 13, offset: 90887},
+																	pos:        position{line: 2877, col: 13, offset: 90990},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2874, col: 20, offset: 90894},
+																	pos:        position{line: 2877, col: 20, offset: 90997},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2874, col: 29, offset: 90903},
+																	pos:        position{line: 2877, col: 29, offset: 91006},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12591,9 +12591,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2884, col: 8, offset: 91063},
+														pos: position{line: 2887, col: 8, offset: 91166},
 														expr: &anyMatcher{
-															line: 2884, col: 9, offset: 91064,
+															line: 2887, col: 9, offset: 91167,
 														},
 													},
 												},
@@ -12601,24 +12601,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 376, col: 46, offset: 11653},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
+													pos: position{line: 680, col: 14, offset: 21592},
 													run: (*parser).callonBlockAttributes190,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 680, col: 14, offset: 21592},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2882, col: 11, offset: 91049},
+																pos: position{line: 2885, col: 11, offset: 91152},
 																expr: &anyMatcher{
-																	line: 2882, col: 13, offset: 91051,
+																	line: 2885, col: 13, offset: 91154,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 680, col: 21, offset: 21599},
 																expr: &actionExpr{
-																	pos: position{line: 2865, col: 10, offset: 90715},
+																	pos: position{line: 2868, col: 10, offset: 90818},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2865, col: 10, offset: 90715},
+																		pos:        position{line: 2868, col: 10, offset: 90818},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12627,28 +12627,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2887, col: 8, offset: 91113},
+																pos: position{line: 2890, col: 8, offset: 91216},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2874, col: 12, offset: 90886},
+																		pos: position{line: 2877, col: 12, offset: 90989},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2874, col: 13, offset: 90887},
+																			pos: position{line: 2877, col: 13, offset: 90990},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2874, col: 13, offset: 90887},
+																					pos:        position{line: 2877, col: 13, offset: 90990},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2874, col: 20, offset: 90894},
+																					pos:        position{line: 2877, col: 20, offset: 90997},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2874, col: 29, offset: 90903},
+																					pos:        position{line: 2877, col: 29, offset: 91006},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12657,9 +12657,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2884, col: 8, offset: 91063},
+																		pos: position{line: 2887, col: 8, offset: 91166},
 																		expr: &anyMatcher{
-																			line: 2884, col: 9, offset: 91064,
+																			line: 2887, col: 9, offset: 91167,
 																		},
 																	},
 																},
@@ -12688,10 +12688,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 380, col: 44, offset: 11775},
 												expr: &actionExpr{
-													pos: position{line: 2865, col: 10, offset: 90715},
+													pos: position{line: 2868, col: 10, offset: 90818},
 													run: (*parser).callonBlockAttributes210,
 													expr: &charClassMatcher{
-														pos:        position{line: 2865, col: 10, offset: 90715},
+														pos:        position{line: 2868, col: 10, offset: 90818},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12700,28 +12700,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2887, col: 8, offset: 91113},
+												pos: position{line: 2890, col: 8, offset: 91216},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2874, col: 12, offset: 90886},
+														pos: position{line: 2877, col: 12, offset: 90989},
 														run: (*parser).callonBlockAttributes213,
 														expr: &choiceExpr{
-															pos: position{line: 2874, col: 13, offset: 90887},
+															pos: position{line: 2877, col: 13, offset: 90990},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2874, col: 13, offset: 90887},
+																	pos:        position{line: 2877, col: 13, offset: 90990},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2874, col: 20, offset: 90894},
+																	pos:        position{line: 2877, col: 20, offset: 90997},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2874, col: 29, offset: 90903},
+																	pos:        position{line: 2877, col: 29, offset: 91006},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12730,9 +12730,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2884, col: 8, offset: 91063},
+														pos: position{line: 2887, col: 8, offset: 91166},
 														expr: &anyMatcher{
-															line: 2884, col: 9, offset: 91064,
+															line: 2887, col: 9, offset: 91167,
 														},
 													},
 												},
@@ -12740,24 +12740,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 380, col: 55, offset: 11786},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
+													pos: position{line: 680, col: 14, offset: 21592},
 													run: (*parser).callonBlockAttributes221,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 680, col: 14, offset: 21592},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2882, col: 11, offset: 91049},
+																pos: position{line: 2885, col: 11, offset: 91152},
 																expr: &anyMatcher{
-																	line: 2882, col: 13, offset: 91051,
+																	line: 2885, col: 13, offset: 91154,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 680, col: 21, offset: 21599},
 																expr: &actionExpr{
-																	pos: position{line: 2865, col: 10, offset: 90715},
+																	pos: position{line: 2868, col: 10, offset: 90818},
 																	run: (*parser).callonBlockAttributes226,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2865, col: 10, offset: 90715},
+																		pos:        position{line: 2868, col: 10, offset: 90818},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12766,28 +12766,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2887, col: 8, offset: 91113},
+																pos: position{line: 2890, col: 8, offset: 91216},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2874, col: 12, offset: 90886},
+																		pos: position{line: 2877, col: 12, offset: 90989},
 																		run: (*parser).callonBlockAttributes229,
 																		expr: &choiceExpr{
-																			pos: position{line: 2874, col: 13, offset: 90887},
+																			pos: position{line: 2877, col: 13, offset: 90990},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2874, col: 13, offset: 90887},
+																					pos:        position{line: 2877, col: 13, offset: 90990},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2874, col: 20, offset: 90894},
+																					pos:        position{line: 2877, col: 20, offset: 90997},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2874, col: 29, offset: 90903},
+																					pos:        position{line: 2877, col: 29, offset: 91006},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12796,9 +12796,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2884, col: 8, offset: 91063},
+																		pos: position{line: 2887, col: 8, offset: 91166},
 																		expr: &anyMatcher{
-																			line: 2884, col: 9, offset: 91064,
+																			line: 2887, col: 9, offset: 91167,
 																		},
 																	},
 																},
@@ -13046,10 +13046,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 466, col: 13, offset: 14531},
 										expr: &actionExpr{
-											pos: position{line: 2865, col: 10, offset: 90715},
+											pos: position{line: 2868, col: 10, offset: 90818},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2865, col: 10, offset: 90715},
+												pos:        position{line: 2868, col: 10, offset: 90818},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13212,35 +13212,35 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 636, col: 5, offset: 20109},
+													pos: position{line: 639, col: 5, offset: 20212},
 													run: (*parser).callonShortHandAttributeValue13,
 													expr: &seqExpr{
-														pos: position{line: 636, col: 5, offset: 20109},
+														pos: position{line: 639, col: 5, offset: 20212},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 636, col: 5, offset: 20109},
+																pos: position{line: 639, col: 5, offset: 20212},
 																run: (*parser).callonShortHandAttributeValue15,
 															},
 															&labeledExpr{
-																pos:   position{line: 639, col: 5, offset: 20181},
+																pos:   position{line: 642, col: 5, offset: 20284},
 																label: "element",
 																expr: &choiceExpr{
-																	pos: position{line: 639, col: 14, offset: 20190},
+																	pos: position{line: 642, col: 14, offset: 20293},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 645, col: 5, offset: 20319},
+																			pos: position{line: 648, col: 5, offset: 20422},
 																			run: (*parser).callonShortHandAttributeValue18,
 																			expr: &seqExpr{
-																				pos: position{line: 645, col: 5, offset: 20319},
+																				pos: position{line: 648, col: 5, offset: 20422},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 645, col: 5, offset: 20319},
+																						pos:        position{line: 648, col: 5, offset: 20422},
 																						val:        "\\{",
 																						ignoreCase: false,
 																						want:       "\"\\\\{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 645, col: 13, offset: 20327},
+																						pos:   position{line: 648, col: 13, offset: 20430},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -13272,7 +13272,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 645, col: 32, offset: 20346},
+																						pos:        position{line: 648, col: 32, offset: 20449},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13281,19 +13281,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 652, col: 5, offset: 20587},
+																			pos: position{line: 655, col: 5, offset: 20690},
 																			run: (*parser).callonShortHandAttributeValue28,
 																			expr: &seqExpr{
-																				pos: position{line: 652, col: 5, offset: 20587},
+																				pos: position{line: 655, col: 5, offset: 20690},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 652, col: 5, offset: 20587},
+																						pos:        position{line: 655, col: 5, offset: 20690},
 																						val:        "{",
 																						ignoreCase: false,
 																						want:       "\"{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 652, col: 9, offset: 20591},
+																						pos:   position{line: 655, col: 9, offset: 20694},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -13325,7 +13325,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 652, col: 28, offset: 20610},
+																						pos:        position{line: 655, col: 28, offset: 20713},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13334,19 +13334,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 658, col: 25, offset: 20791},
+																			pos: position{line: 661, col: 25, offset: 20894},
 																			run: (*parser).callonShortHandAttributeValue38,
 																			expr: &seqExpr{
-																				pos: position{line: 658, col: 25, offset: 20791},
+																				pos: position{line: 661, col: 25, offset: 20894},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 658, col: 25, offset: 20791},
+																						pos:        position{line: 661, col: 25, offset: 20894},
 																						val:        "{counter:",
 																						ignoreCase: false,
 																						want:       "\"{counter:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 658, col: 37, offset: 20803},
+																						pos:   position{line: 661, col: 37, offset: 20906},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -13378,33 +13378,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 658, col: 56, offset: 20822},
+																						pos:   position{line: 661, col: 56, offset: 20925},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 658, col: 62, offset: 20828},
+																							pos: position{line: 661, col: 62, offset: 20931},
 																							expr: &actionExpr{
-																								pos: position{line: 666, col: 17, offset: 21123},
+																								pos: position{line: 669, col: 17, offset: 21226},
 																								run: (*parser).callonShortHandAttributeValue49,
 																								expr: &seqExpr{
-																									pos: position{line: 666, col: 17, offset: 21123},
+																									pos: position{line: 669, col: 17, offset: 21226},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 666, col: 17, offset: 21123},
+																											pos:        position{line: 669, col: 17, offset: 21226},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 666, col: 21, offset: 21127},
+																											pos:   position{line: 669, col: 21, offset: 21230},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 669, col: 28, offset: 21237},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 669, col: 28, offset: 21237},
 																														run: (*parser).callonShortHandAttributeValue54,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 666, col: 28, offset: 21134},
+																															pos:        position{line: 669, col: 28, offset: 21237},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13412,12 +13412,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 668, col: 9, offset: 21188},
+																														pos: position{line: 671, col: 9, offset: 21291},
 																														run: (*parser).callonShortHandAttributeValue56,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 668, col: 9, offset: 21188},
+																															pos: position{line: 671, col: 9, offset: 21291},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 668, col: 9, offset: 21188},
+																																pos:        position{line: 671, col: 9, offset: 21291},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13434,7 +13434,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 658, col: 78, offset: 20844},
+																						pos:        position{line: 661, col: 78, offset: 20947},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13443,19 +13443,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 662, col: 25, offset: 20962},
+																			pos: position{line: 665, col: 25, offset: 21065},
 																			run: (*parser).callonShortHandAttributeValue60,
 																			expr: &seqExpr{
-																				pos: position{line: 662, col: 25, offset: 20962},
+																				pos: position{line: 665, col: 25, offset: 21065},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 662, col: 25, offset: 20962},
+																						pos:        position{line: 665, col: 25, offset: 21065},
 																						val:        "{counter2:",
 																						ignoreCase: false,
 																						want:       "\"{counter2:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 662, col: 38, offset: 20975},
+																						pos:   position{line: 665, col: 38, offset: 21078},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -13487,33 +13487,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 662, col: 57, offset: 20994},
+																						pos:   position{line: 665, col: 57, offset: 21097},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 662, col: 63, offset: 21000},
+																							pos: position{line: 665, col: 63, offset: 21103},
 																							expr: &actionExpr{
-																								pos: position{line: 666, col: 17, offset: 21123},
+																								pos: position{line: 669, col: 17, offset: 21226},
 																								run: (*parser).callonShortHandAttributeValue71,
 																								expr: &seqExpr{
-																									pos: position{line: 666, col: 17, offset: 21123},
+																									pos: position{line: 669, col: 17, offset: 21226},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 666, col: 17, offset: 21123},
+																											pos:        position{line: 669, col: 17, offset: 21226},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 666, col: 21, offset: 21127},
+																											pos:   position{line: 669, col: 21, offset: 21230},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 669, col: 28, offset: 21237},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 669, col: 28, offset: 21237},
 																														run: (*parser).callonShortHandAttributeValue76,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 666, col: 28, offset: 21134},
+																															pos:        position{line: 669, col: 28, offset: 21237},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13521,12 +13521,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 668, col: 9, offset: 21188},
+																														pos: position{line: 671, col: 9, offset: 21291},
 																														run: (*parser).callonShortHandAttributeValue78,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 668, col: 9, offset: 21188},
+																															pos: position{line: 671, col: 9, offset: 21291},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 668, col: 9, offset: 21188},
+																																pos:        position{line: 671, col: 9, offset: 21291},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13543,7 +13543,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 662, col: 79, offset: 21016},
+																						pos:        position{line: 665, col: 79, offset: 21119},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13581,10 +13581,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 518, col: 9, offset: 16113},
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 10, offset: 90715},
+														pos: position{line: 2868, col: 10, offset: 90818},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2865, col: 10, offset: 90715},
+															pos:        position{line: 2868, col: 10, offset: 90818},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13645,10 +13645,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 524, col: 34, offset: 16256},
 														expr: &actionExpr{
-															pos: position{line: 2865, col: 10, offset: 90715},
+															pos: position{line: 2868, col: 10, offset: 90818},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2865, col: 10, offset: 90715},
+																pos:        position{line: 2868, col: 10, offset: 90818},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13688,10 +13688,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 529, col: 13, offset: 16420},
 												expr: &actionExpr{
-													pos: position{line: 2865, col: 10, offset: 90715},
+													pos: position{line: 2868, col: 10, offset: 90818},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2865, col: 10, offset: 90715},
+														pos:        position{line: 2868, col: 10, offset: 90818},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13714,10 +13714,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 529, col: 26, offset: 16433},
 																expr: &actionExpr{
-																	pos: position{line: 2865, col: 10, offset: 90715},
+																	pos: position{line: 2868, col: 10, offset: 90818},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2865, col: 10, offset: 90715},
+																		pos:        position{line: 2868, col: 10, offset: 90818},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13772,10 +13772,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 549, col: 22, offset: 17080},
 											expr: &actionExpr{
-												pos: position{line: 2865, col: 10, offset: 90715},
+												pos: position{line: 2868, col: 10, offset: 90818},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2865, col: 10, offset: 90715},
+													pos:        position{line: 2868, col: 10, offset: 90818},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13806,10 +13806,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 542, col: 9, offset: 16825},
 							expr: &actionExpr{
-								pos: position{line: 2865, col: 10, offset: 90715},
+								pos: position{line: 2868, col: 10, offset: 90818},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2865, col: 10, offset: 90715},
+									pos:        position{line: 2868, col: 10, offset: 90818},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13839,10 +13839,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 543, col: 33, offset: 16865},
 										expr: &actionExpr{
-											pos: position{line: 2865, col: 10, offset: 90715},
+											pos: position{line: 2868, col: 10, offset: 90818},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2865, col: 10, offset: 90715},
+												pos:        position{line: 2868, col: 10, offset: 90818},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13897,10 +13897,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 559, col: 9, offset: 17297},
 											expr: &actionExpr{
-												pos: position{line: 2865, col: 10, offset: 90715},
+												pos: position{line: 2868, col: 10, offset: 90818},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2865, col: 10, offset: 90715},
+													pos:        position{line: 2868, col: 10, offset: 90818},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13979,12 +13979,12 @@ var g = &grammar{
 							pos: position{line: 572, col: 9, offset: 17614},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2759, col: 14, offset: 87884},
+									pos: position{line: 2762, col: 14, offset: 87987},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2759, col: 14, offset: 87884},
+										pos: position{line: 2762, col: 14, offset: 87987},
 										expr: &charClassMatcher{
-											pos:        position{line: 2759, col: 14, offset: 87884},
+											pos:        position{line: 2762, col: 14, offset: 87987},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13993,10 +13993,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2865, col: 10, offset: 90715},
+									pos: position{line: 2868, col: 10, offset: 90818},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2865, col: 10, offset: 90715},
+										pos:        position{line: 2868, col: 10, offset: 90818},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14008,35 +14008,35 @@ var g = &grammar{
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 636, col: 5, offset: 20109},
+									pos: position{line: 639, col: 5, offset: 20212},
 									run: (*parser).callonSingleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
+										pos: position{line: 639, col: 5, offset: 20212},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 636, col: 5, offset: 20109},
+												pos: position{line: 639, col: 5, offset: 20212},
 												run: (*parser).callonSingleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 639, col: 5, offset: 20181},
+												pos:   position{line: 642, col: 5, offset: 20284},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 639, col: 14, offset: 20190},
+													pos: position{line: 642, col: 14, offset: 20293},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 645, col: 5, offset: 20319},
+															pos: position{line: 648, col: 5, offset: 20422},
 															run: (*parser).callonSingleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
+																pos: position{line: 648, col: 5, offset: 20422},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 645, col: 5, offset: 20319},
+																		pos:        position{line: 648, col: 5, offset: 20422},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 645, col: 13, offset: 20327},
+																		pos:   position{line: 648, col: 13, offset: 20430},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14068,7 +14068,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 645, col: 32, offset: 20346},
+																		pos:        position{line: 648, col: 32, offset: 20449},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14077,19 +14077,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 652, col: 5, offset: 20587},
+															pos: position{line: 655, col: 5, offset: 20690},
 															run: (*parser).callonSingleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
+																pos: position{line: 655, col: 5, offset: 20690},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 652, col: 5, offset: 20587},
+																		pos:        position{line: 655, col: 5, offset: 20690},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 652, col: 9, offset: 20591},
+																		pos:   position{line: 655, col: 9, offset: 20694},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14121,7 +14121,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 652, col: 28, offset: 20610},
+																		pos:        position{line: 655, col: 28, offset: 20713},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14130,19 +14130,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 658, col: 25, offset: 20791},
+															pos: position{line: 661, col: 25, offset: 20894},
 															run: (*parser).callonSingleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
+																pos: position{line: 661, col: 25, offset: 20894},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 658, col: 25, offset: 20791},
+																		pos:        position{line: 661, col: 25, offset: 20894},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 37, offset: 20803},
+																		pos:   position{line: 661, col: 37, offset: 20906},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14174,33 +14174,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 56, offset: 20822},
+																		pos:   position{line: 661, col: 56, offset: 20925},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 658, col: 62, offset: 20828},
+																			pos: position{line: 661, col: 62, offset: 20931},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21123},
+																				pos: position{line: 669, col: 17, offset: 21226},
 																				run: (*parser).callonSingleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 669, col: 17, offset: 21226},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21123},
+																							pos:        position{line: 669, col: 17, offset: 21226},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21127},
+																							pos:   position{line: 669, col: 21, offset: 21230},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21134},
+																								pos: position{line: 669, col: 28, offset: 21237},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 669, col: 28, offset: 21237},
 																										run: (*parser).callonSingleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21134},
+																											pos:        position{line: 669, col: 28, offset: 21237},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14208,12 +14208,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21188},
+																										pos: position{line: 671, col: 9, offset: 21291},
 																										run: (*parser).callonSingleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 671, col: 9, offset: 21291},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21188},
+																												pos:        position{line: 671, col: 9, offset: 21291},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14230,7 +14230,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 658, col: 78, offset: 20844},
+																		pos:        position{line: 661, col: 78, offset: 20947},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14239,19 +14239,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 662, col: 25, offset: 20962},
+															pos: position{line: 665, col: 25, offset: 21065},
 															run: (*parser).callonSingleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
+																pos: position{line: 665, col: 25, offset: 21065},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 662, col: 25, offset: 20962},
+																		pos:        position{line: 665, col: 25, offset: 21065},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 38, offset: 20975},
+																		pos:   position{line: 665, col: 38, offset: 21078},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14283,33 +14283,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 57, offset: 20994},
+																		pos:   position{line: 665, col: 57, offset: 21097},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 662, col: 63, offset: 21000},
+																			pos: position{line: 665, col: 63, offset: 21103},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21123},
+																				pos: position{line: 669, col: 17, offset: 21226},
 																				run: (*parser).callonSingleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 669, col: 17, offset: 21226},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21123},
+																							pos:        position{line: 669, col: 17, offset: 21226},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21127},
+																							pos:   position{line: 669, col: 21, offset: 21230},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21134},
+																								pos: position{line: 669, col: 28, offset: 21237},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 669, col: 28, offset: 21237},
 																										run: (*parser).callonSingleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21134},
+																											pos:        position{line: 669, col: 28, offset: 21237},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14317,12 +14317,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21188},
+																										pos: position{line: 671, col: 9, offset: 21291},
 																										run: (*parser).callonSingleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 671, col: 9, offset: 21291},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21188},
+																												pos:        position{line: 671, col: 9, offset: 21291},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14339,7 +14339,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 662, col: 79, offset: 21016},
+																		pos:        position{line: 665, col: 79, offset: 21119},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14453,10 +14453,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 592, col: 14, offset: 18354},
 											expr: &actionExpr{
-												pos: position{line: 2865, col: 10, offset: 90715},
+												pos: position{line: 2868, col: 10, offset: 90818},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2865, col: 10, offset: 90715},
+													pos:        position{line: 2868, col: 10, offset: 90818},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14493,12 +14493,12 @@ var g = &grammar{
 							pos: position{line: 598, col: 9, offset: 18465},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2759, col: 14, offset: 87884},
+									pos: position{line: 2762, col: 14, offset: 87987},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2759, col: 14, offset: 87884},
+										pos: position{line: 2762, col: 14, offset: 87987},
 										expr: &charClassMatcher{
-											pos:        position{line: 2759, col: 14, offset: 87884},
+											pos:        position{line: 2762, col: 14, offset: 87987},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14507,10 +14507,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2865, col: 10, offset: 90715},
+									pos: position{line: 2868, col: 10, offset: 90818},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2865, col: 10, offset: 90715},
+										pos:        position{line: 2868, col: 10, offset: 90818},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14522,35 +14522,35 @@ var g = &grammar{
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 636, col: 5, offset: 20109},
+									pos: position{line: 639, col: 5, offset: 20212},
 									run: (*parser).callonDoubleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
+										pos: position{line: 639, col: 5, offset: 20212},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 636, col: 5, offset: 20109},
+												pos: position{line: 639, col: 5, offset: 20212},
 												run: (*parser).callonDoubleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 639, col: 5, offset: 20181},
+												pos:   position{line: 642, col: 5, offset: 20284},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 639, col: 14, offset: 20190},
+													pos: position{line: 642, col: 14, offset: 20293},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 645, col: 5, offset: 20319},
+															pos: position{line: 648, col: 5, offset: 20422},
 															run: (*parser).callonDoubleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
+																pos: position{line: 648, col: 5, offset: 20422},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 645, col: 5, offset: 20319},
+																		pos:        position{line: 648, col: 5, offset: 20422},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 645, col: 13, offset: 20327},
+																		pos:   position{line: 648, col: 13, offset: 20430},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14582,7 +14582,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 645, col: 32, offset: 20346},
+																		pos:        position{line: 648, col: 32, offset: 20449},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14591,19 +14591,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 652, col: 5, offset: 20587},
+															pos: position{line: 655, col: 5, offset: 20690},
 															run: (*parser).callonDoubleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
+																pos: position{line: 655, col: 5, offset: 20690},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 652, col: 5, offset: 20587},
+																		pos:        position{line: 655, col: 5, offset: 20690},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 652, col: 9, offset: 20591},
+																		pos:   position{line: 655, col: 9, offset: 20694},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14635,7 +14635,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 652, col: 28, offset: 20610},
+																		pos:        position{line: 655, col: 28, offset: 20713},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14644,19 +14644,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 658, col: 25, offset: 20791},
+															pos: position{line: 661, col: 25, offset: 20894},
 															run: (*parser).callonDoubleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
+																pos: position{line: 661, col: 25, offset: 20894},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 658, col: 25, offset: 20791},
+																		pos:        position{line: 661, col: 25, offset: 20894},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 37, offset: 20803},
+																		pos:   position{line: 661, col: 37, offset: 20906},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14688,33 +14688,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 658, col: 56, offset: 20822},
+																		pos:   position{line: 661, col: 56, offset: 20925},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 658, col: 62, offset: 20828},
+																			pos: position{line: 661, col: 62, offset: 20931},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21123},
+																				pos: position{line: 669, col: 17, offset: 21226},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 669, col: 17, offset: 21226},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21123},
+																							pos:        position{line: 669, col: 17, offset: 21226},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21127},
+																							pos:   position{line: 669, col: 21, offset: 21230},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21134},
+																								pos: position{line: 669, col: 28, offset: 21237},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 669, col: 28, offset: 21237},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21134},
+																											pos:        position{line: 669, col: 28, offset: 21237},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14722,12 +14722,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21188},
+																										pos: position{line: 671, col: 9, offset: 21291},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 671, col: 9, offset: 21291},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21188},
+																												pos:        position{line: 671, col: 9, offset: 21291},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14744,7 +14744,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 658, col: 78, offset: 20844},
+																		pos:        position{line: 661, col: 78, offset: 20947},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14753,19 +14753,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 662, col: 25, offset: 20962},
+															pos: position{line: 665, col: 25, offset: 21065},
 															run: (*parser).callonDoubleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
+																pos: position{line: 665, col: 25, offset: 21065},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 662, col: 25, offset: 20962},
+																		pos:        position{line: 665, col: 25, offset: 21065},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 38, offset: 20975},
+																		pos:   position{line: 665, col: 38, offset: 21078},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14797,33 +14797,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 57, offset: 20994},
+																		pos:   position{line: 665, col: 57, offset: 21097},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 662, col: 63, offset: 21000},
+																			pos: position{line: 665, col: 63, offset: 21103},
 																			expr: &actionExpr{
-																				pos: position{line: 666, col: 17, offset: 21123},
+																				pos: position{line: 669, col: 17, offset: 21226},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 669, col: 17, offset: 21226},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 666, col: 17, offset: 21123},
+																							pos:        position{line: 669, col: 17, offset: 21226},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 666, col: 21, offset: 21127},
+																							pos:   position{line: 669, col: 21, offset: 21230},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 666, col: 28, offset: 21134},
+																								pos: position{line: 669, col: 28, offset: 21237},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 669, col: 28, offset: 21237},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 666, col: 28, offset: 21134},
+																											pos:        position{line: 669, col: 28, offset: 21237},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14831,12 +14831,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 668, col: 9, offset: 21188},
+																										pos: position{line: 671, col: 9, offset: 21291},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 671, col: 9, offset: 21291},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 668, col: 9, offset: 21188},
+																												pos:        position{line: 671, col: 9, offset: 21291},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14853,7 +14853,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 662, col: 79, offset: 21016},
+																		pos:        position{line: 665, col: 79, offset: 21119},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14937,10 +14937,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 619, col: 5, offset: 19321},
 							expr: &actionExpr{
-								pos: position{line: 2865, col: 10, offset: 90715},
+								pos: position{line: 2868, col: 10, offset: 90818},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2865, col: 10, offset: 90715},
+									pos:        position{line: 2868, col: 10, offset: 90818},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14978,35 +14978,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 639, col: 5, offset: 20212},
 											run: (*parser).callonUnquotedAttributeValue13,
 											expr: &seqExpr{
-												pos: position{line: 636, col: 5, offset: 20109},
+												pos: position{line: 639, col: 5, offset: 20212},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 636, col: 5, offset: 20109},
+														pos: position{line: 639, col: 5, offset: 20212},
 														run: (*parser).callonUnquotedAttributeValue15,
 													},
 													&labeledExpr{
-														pos:   position{line: 639, col: 5, offset: 20181},
+														pos:   position{line: 642, col: 5, offset: 20284},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 639, col: 14, offset: 20190},
+															pos: position{line: 642, col: 14, offset: 20293},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 648, col: 5, offset: 20422},
 																	run: (*parser).callonUnquotedAttributeValue18,
 																	expr: &seqExpr{
-																		pos: position{line: 645, col: 5, offset: 20319},
+																		pos: position{line: 648, col: 5, offset: 20422},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 645, col: 5, offset: 20319},
+																				pos:        position{line: 648, col: 5, offset: 20422},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 645, col: 13, offset: 20327},
+																				pos:   position{line: 648, col: 13, offset: 20430},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -15038,7 +15038,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 645, col: 32, offset: 20346},
+																				pos:        position{line: 648, col: 32, offset: 20449},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15047,19 +15047,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 655, col: 5, offset: 20690},
 																	run: (*parser).callonUnquotedAttributeValue28,
 																	expr: &seqExpr{
-																		pos: position{line: 652, col: 5, offset: 20587},
+																		pos: position{line: 655, col: 5, offset: 20690},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 652, col: 5, offset: 20587},
+																				pos:        position{line: 655, col: 5, offset: 20690},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 9, offset: 20591},
+																				pos:   position{line: 655, col: 9, offset: 20694},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -15091,7 +15091,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 652, col: 28, offset: 20610},
+																				pos:        position{line: 655, col: 28, offset: 20713},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15100,19 +15100,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 661, col: 25, offset: 20894},
 																	run: (*parser).callonUnquotedAttributeValue38,
 																	expr: &seqExpr{
-																		pos: position{line: 658, col: 25, offset: 20791},
+																		pos: position{line: 661, col: 25, offset: 20894},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 658, col: 25, offset: 20791},
+																				pos:        position{line: 661, col: 25, offset: 20894},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 37, offset: 20803},
+																				pos:   position{line: 661, col: 37, offset: 20906},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -15144,33 +15144,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 56, offset: 20822},
+																				pos:   position{line: 661, col: 56, offset: 20925},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 658, col: 62, offset: 20828},
+																					pos: position{line: 661, col: 62, offset: 20931},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 669, col: 17, offset: 21226},
 																						run: (*parser).callonUnquotedAttributeValue49,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21123},
+																							pos: position{line: 669, col: 17, offset: 21226},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21123},
+																									pos:        position{line: 669, col: 17, offset: 21226},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21127},
+																									pos:   position{line: 669, col: 21, offset: 21230},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 669, col: 28, offset: 21237},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 669, col: 28, offset: 21237},
 																												run: (*parser).callonUnquotedAttributeValue54,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21134},
+																													pos:        position{line: 669, col: 28, offset: 21237},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15178,12 +15178,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 671, col: 9, offset: 21291},
 																												run: (*parser).callonUnquotedAttributeValue56,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21188},
+																													pos: position{line: 671, col: 9, offset: 21291},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21188},
+																														pos:        position{line: 671, col: 9, offset: 21291},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15200,7 +15200,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 78, offset: 20844},
+																				pos:        position{line: 661, col: 78, offset: 20947},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15209,19 +15209,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 665, col: 25, offset: 21065},
 																	run: (*parser).callonUnquotedAttributeValue60,
 																	expr: &seqExpr{
-																		pos: position{line: 662, col: 25, offset: 20962},
+																		pos: position{line: 665, col: 25, offset: 21065},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 662, col: 25, offset: 20962},
+																				pos:        position{line: 665, col: 25, offset: 21065},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 38, offset: 20975},
+																				pos:   position{line: 665, col: 38, offset: 21078},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -15253,33 +15253,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 57, offset: 20994},
+																				pos:   position{line: 665, col: 57, offset: 21097},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 662, col: 63, offset: 21000},
+																					pos: position{line: 665, col: 63, offset: 21103},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 669, col: 17, offset: 21226},
 																						run: (*parser).callonUnquotedAttributeValue71,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21123},
+																							pos: position{line: 669, col: 17, offset: 21226},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21123},
+																									pos:        position{line: 669, col: 17, offset: 21226},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21127},
+																									pos:   position{line: 669, col: 21, offset: 21230},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 669, col: 28, offset: 21237},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 669, col: 28, offset: 21237},
 																												run: (*parser).callonUnquotedAttributeValue76,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21134},
+																													pos:        position{line: 669, col: 28, offset: 21237},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15287,12 +15287,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 671, col: 9, offset: 21291},
 																												run: (*parser).callonUnquotedAttributeValue78,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21188},
+																													pos: position{line: 671, col: 9, offset: 21291},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21188},
+																														pos:        position{line: 671, col: 9, offset: 21291},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15309,7 +15309,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 662, col: 79, offset: 21016},
+																				pos:        position{line: 665, col: 79, offset: 21119},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15330,10 +15330,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2865, col: 10, offset: 90715},
+											pos: position{line: 2868, col: 10, offset: 90818},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2865, col: 10, offset: 90715},
+												pos:        position{line: 2868, col: 10, offset: 90818},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15347,13 +15347,72 @@ var g = &grammar{
 												pos: position{line: 624, col: 12, offset: 19609},
 												expr: &charClassMatcher{
 													pos:        position{line: 624, col: 12, offset: 19609},
-													val:        "[^=,]{ ]",
-													chars:      []rune{'=', ',', ']', '{', ' '},
+													val:        "[^=,]{ \\r\\n]",
+													chars:      []rune{'=', ',', ']', '{', ' ', '\r', '\n'},
 													ignoreCase: false,
 													inverted:   true,
 												},
 											},
 										},
+										&actionExpr{
+											pos: position{line: 627, col: 12, offset: 19754},
+											run: (*parser).callonUnquotedAttributeValue88,
+											expr: &seqExpr{
+												pos: position{line: 627, col: 12, offset: 19754},
+												exprs: []interface{}{
+													&actionExpr{
+														pos: position{line: 2877, col: 12, offset: 90989},
+														run: (*parser).callonUnquotedAttributeValue90,
+														expr: &choiceExpr{
+															pos: position{line: 2877, col: 13, offset: 90990},
+															alternatives: []interface{}{
+																&litMatcher{
+																	pos:        position{line: 2877, col: 13, offset: 90990},
+																	val:        "\n",
+																	ignoreCase: false,
+																	want:       "\"\\n\"",
+																},
+																&litMatcher{
+																	pos:        position{line: 2877, col: 20, offset: 90997},
+																	val:        "\r\n",
+																	ignoreCase: false,
+																	want:       "\"\\r\\n\"",
+																},
+																&litMatcher{
+																	pos:        position{line: 2877, col: 29, offset: 91006},
+																	val:        "\r",
+																	ignoreCase: false,
+																	want:       "\"\\r\"",
+																},
+															},
+														},
+													},
+													&notExpr{
+														pos: position{line: 627, col: 20, offset: 19762},
+														expr: &seqExpr{
+															pos: position{line: 2483, col: 31, offset: 79982},
+															exprs: []interface{}{
+																&litMatcher{
+																	pos:        position{line: 2483, col: 31, offset: 79982},
+																	val:        "//",
+																	ignoreCase: false,
+																	want:       "\"//\"",
+																},
+																&notExpr{
+																	pos: position{line: 2483, col: 36, offset: 79987},
+																	expr: &litMatcher{
+																		pos:        position{line: 2483, col: 37, offset: 79988},
+																		val:        "//",
+																		ignoreCase: false,
+																		want:       "\"//\"",
+																	},
+																},
+															},
+														},
+													},
+												},
+											},
+										},
 									},
 								},
 							},
@@ -15364,32 +15423,32 @@ var g = &grammar{
 		},
 		{
 			name: "CrossReference",
-			pos:  position{line: 684, col: 1, offset: 21750},
+			pos:  position{line: 687, col: 1, offset: 21853},
 			expr: &choiceExpr{
-				pos: position{line: 684, col: 19, offset: 21768},
+				pos: position{line: 687, col: 19, offset: 21871},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 686, col: 27, offset: 21844},
+						pos: position{line: 689, col: 27, offset: 21947},
 						run: (*parser).callonCrossReference2,
 						expr: &seqExpr{
-							pos: position{line: 686, col: 27, offset: 21844},
+							pos: position{line: 689, col: 27, offset: 21947},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 686, col: 27, offset: 21844},
+									pos:        position{line: 689, col: 27, offset: 21947},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 686, col: 32, offset: 21849},
+									pos:   position{line: 689, col: 32, offset: 21952},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2850, col: 7, offset: 90367},
+										pos: position{line: 2853, col: 7, offset: 90470},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2850, col: 7, offset: 90367},
+											pos: position{line: 2853, col: 7, offset: 90470},
 											expr: &charClassMatcher{
-												pos:        position{line: 2850, col: 7, offset: 90367},
+												pos:        position{line: 2853, col: 7, offset: 90470},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15399,12 +15458,12 @@ var g = &grammar{
 									},
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 686, col: 40, offset: 21857},
+									pos: position{line: 689, col: 40, offset: 21960},
 									expr: &actionExpr{
-										pos: position{line: 2865, col: 10, offset: 90715},
+										pos: position{line: 2868, col: 10, offset: 90818},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2865, col: 10, offset: 90715},
+											pos:        position{line: 2868, col: 10, offset: 90818},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15413,36 +15472,36 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 686, col: 47, offset: 21864},
+									pos:        position{line: 689, col: 47, offset: 21967},
 									val:        ",",
 									ignoreCase: false,
 									want:       "\",\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 686, col: 51, offset: 21868},
+									pos:   position{line: 689, col: 51, offset: 21971},
 									label: "label",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 696, col: 24, offset: 22269},
+										pos: position{line: 699, col: 24, offset: 22372},
 										expr: &choiceExpr{
-											pos: position{line: 697, col: 5, offset: 22275},
+											pos: position{line: 700, col: 5, offset: 22378},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 697, col: 6, offset: 22276},
+													pos: position{line: 700, col: 6, offset: 22379},
 													run: (*parser).callonCrossReference16,
 													expr: &seqExpr{
-														pos: position{line: 697, col: 6, offset: 22276},
+														pos: position{line: 700, col: 6, offset: 22379},
 														exprs: []interface{}{
 															&charClassMatcher{
-																pos:        position{line: 697, col: 6, offset: 22276},
+																pos:        position{line: 700, col: 6, offset: 22379},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
 																inverted:   false,
 															},
 															&oneOrMoreExpr{
-																pos: position{line: 697, col: 14, offset: 22284},
+																pos: position{line: 700, col: 14, offset: 22387},
 																expr: &charClassMatcher{
-																	pos:        position{line: 697, col: 14, offset: 22284},
+																	pos:        position{line: 700, col: 14, offset: 22387},
 																	val:        "[^\\r\\n{<>]",
 																	chars:      []rune{'\r', '\n', '{', '<', '>'},
 																	ignoreCase: false,
@@ -15453,19 +15512,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 645, col: 5, offset: 20319},
+													pos: position{line: 648, col: 5, offset: 20422},
 													run: (*parser).callonCrossReference21,
 													expr: &seqExpr{
-														pos: position{line: 645, col: 5, offset: 20319},
+														pos: position{line: 648, col: 5, offset: 20422},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 645, col: 5, offset: 20319},
+																pos:        position{line: 648, col: 5, offset: 20422},
 																val:        "\\{",
 																ignoreCase: false,
 																want:       "\"\\\\{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 645, col: 13, offset: 20327},
+																pos:   position{line: 648, col: 13, offset: 20430},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 318, col: 18, offset: 9736},
@@ -15497,7 +15556,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 645, col: 32, offset: 20346},
+																pos:        position{line: 648, col: 32, offset: 20449},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15506,19 +15565,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 652, col: 5, offset: 20587},
+													pos: position{line: 655, col: 5, offset: 20690},
 													run: (*parser).callonCrossReference31,
 													expr: &seqExpr{
-														pos: position{line: 652, col: 5, offset: 20587},
+														pos: position{line: 655, col: 5, offset: 20690},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 652, col: 5, offset: 20587},
+																pos:        position{line: 655, col: 5, offset: 20690},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 652, col: 9, offset: 20591},
+																pos:   position{line: 655, col: 9, offset: 20694},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 318, col: 18, offset: 9736},
@@ -15550,7 +15609,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 652, col: 28, offset: 20610},
+																pos:        position{line: 655, col: 28, offset: 20713},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15559,10 +15618,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 701, col: 8, offset: 22510},
+													pos: position{line: 704, col: 8, offset: 22613},
 													run: (*parser).callonCrossReference41,
 													expr: &litMatcher{
-														pos:        position{line: 701, col: 8, offset: 22510},
+														pos:        position{line: 704, col: 8, offset: 22613},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -15573,7 +15632,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 686, col: 79, offset: 21896},
+									pos:        position{line: 689, col: 79, offset: 21999},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15582,27 +15641,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 688, col: 9, offset: 21969},
+						pos: position{line: 691, col: 9, offset: 22072},
 						run: (*parser).callonCrossReference44,
 						expr: &seqExpr{
-							pos: position{line: 688, col: 9, offset: 21969},
+							pos: position{line: 691, col: 9, offset: 22072},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 688, col: 9, offset: 21969},
+									pos:        position{line: 691, col: 9, offset: 22072},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 688, col: 14, offset: 21974},
+									pos:   position{line: 691, col: 14, offset: 22077},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2850, col: 7, offset: 90367},
+										pos: position{line: 2853, col: 7, offset: 90470},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2850, col: 7, offset: 90367},
+											pos: position{line: 2853, col: 7, offset: 90470},
 											expr: &charClassMatcher{
-												pos:        position{line: 2850, col: 7, offset: 90367},
+												pos:        position{line: 2853, col: 7, offset: 90470},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15612,7 +15671,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 688, col: 22, offset: 21982},
+									pos:        position{line: 691, col: 22, offset: 22085},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15621,7 +15680,7 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 684, col: 44, offset: 21793},
+						pos:  position{line: 687, col: 44, offset: 21896},
 						name: "ExternalCrossReference",
 					},
 				},
@@ -15629,58 +15688,58 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalCrossReference",
-			pos:  position{line: 692, col: 1, offset: 22053},
+			pos:  position{line: 695, col: 1, offset: 22156},
 			expr: &actionExpr{
-				pos: position{line: 692, col: 27, offset: 22079},
+				pos: position{line: 695, col: 27, offset: 22182},
 				run: (*parser).callonExternalCrossReference1,
 				expr: &seqExpr{
-					pos: position{line: 692, col: 27, offset: 22079},
+					pos: position{line: 695, col: 27, offset: 22182},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 692, col: 27, offset: 22079},
+							pos:        position{line: 695, col: 27, offset: 22182},
 							val:        "xref:",
 							ignoreCase: false,
 							want:       "\"xref:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 692, col: 35, offset: 22087},
+							pos:   position{line: 695, col: 35, offset: 22190},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2819, col: 17, offset: 89378},
+								pos: position{line: 2822, col: 17, offset: 89481},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2819, col: 17, offset: 89378},
+									pos:   position{line: 2822, col: 17, offset: 89481},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2836, col: 5, offset: 89832},
+										pos: position{line: 2839, col: 5, offset: 89935},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2836, col: 5, offset: 89832},
+											pos:   position{line: 2839, col: 5, offset: 89935},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2836, col: 14, offset: 89841},
+												pos: position{line: 2839, col: 14, offset: 89944},
 												expr: &choiceExpr{
-													pos: position{line: 2837, col: 9, offset: 89851},
+													pos: position{line: 2840, col: 9, offset: 89954},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2837, col: 9, offset: 89851},
+															pos: position{line: 2840, col: 9, offset: 89954},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2837, col: 9, offset: 89851},
+																pos: position{line: 2840, col: 9, offset: 89954},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2837, col: 9, offset: 89851},
+																		pos: position{line: 2840, col: 9, offset: 89954},
 																		expr: &litMatcher{
-																			pos:        position{line: 2837, col: 10, offset: 89852},
+																			pos:        position{line: 2840, col: 10, offset: 89955},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2838, col: 9, offset: 89880},
+																		pos: position{line: 2841, col: 9, offset: 89983},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2838, col: 10, offset: 89881},
+																			pos:        position{line: 2841, col: 10, offset: 89984},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15691,27 +15750,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2841, col: 11, offset: 90093},
+															pos: position{line: 2844, col: 11, offset: 90196},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2841, col: 11, offset: 90093},
+																	pos:        position{line: 2844, col: 11, offset: 90196},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2841, col: 19, offset: 90101},
+																	pos: position{line: 2844, col: 19, offset: 90204},
 																	expr: &seqExpr{
-																		pos: position{line: 2841, col: 21, offset: 90103},
+																		pos: position{line: 2844, col: 21, offset: 90206},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2841, col: 21, offset: 90103},
+																				pos: position{line: 2844, col: 21, offset: 90206},
 																				expr: &actionExpr{
-																					pos: position{line: 2865, col: 10, offset: 90715},
+																					pos: position{line: 2868, col: 10, offset: 90818},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2865, col: 10, offset: 90715},
+																						pos:        position{line: 2868, col: 10, offset: 90818},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15720,11 +15779,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2841, col: 28, offset: 90110},
+																				pos: position{line: 2844, col: 28, offset: 90213},
 																				expr: &notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
@@ -15734,35 +15793,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 636, col: 5, offset: 20109},
+															pos: position{line: 639, col: 5, offset: 20212},
 															run: (*parser).callonExternalCrossReference27,
 															expr: &seqExpr{
-																pos: position{line: 636, col: 5, offset: 20109},
+																pos: position{line: 639, col: 5, offset: 20212},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 636, col: 5, offset: 20109},
+																		pos: position{line: 639, col: 5, offset: 20212},
 																		run: (*parser).callonExternalCrossReference29,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 639, col: 5, offset: 20181},
+																		pos:   position{line: 642, col: 5, offset: 20284},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 639, col: 14, offset: 20190},
+																			pos: position{line: 642, col: 14, offset: 20293},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 648, col: 5, offset: 20422},
 																					run: (*parser).callonExternalCrossReference32,
 																					expr: &seqExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 648, col: 5, offset: 20422},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 645, col: 5, offset: 20319},
+																								pos:        position{line: 648, col: 5, offset: 20422},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 645, col: 13, offset: 20327},
+																								pos:   position{line: 648, col: 13, offset: 20430},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -15794,7 +15853,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 645, col: 32, offset: 20346},
+																								pos:        position{line: 648, col: 32, offset: 20449},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15803,19 +15862,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 655, col: 5, offset: 20690},
 																					run: (*parser).callonExternalCrossReference42,
 																					expr: &seqExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 655, col: 5, offset: 20690},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 652, col: 5, offset: 20587},
+																								pos:        position{line: 655, col: 5, offset: 20690},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 652, col: 9, offset: 20591},
+																								pos:   position{line: 655, col: 9, offset: 20694},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -15847,7 +15906,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 652, col: 28, offset: 20610},
+																								pos:        position{line: 655, col: 28, offset: 20713},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15856,19 +15915,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 658, col: 25, offset: 20791},
+																					pos: position{line: 661, col: 25, offset: 20894},
 																					run: (*parser).callonExternalCrossReference52,
 																					expr: &seqExpr{
-																						pos: position{line: 658, col: 25, offset: 20791},
+																						pos: position{line: 661, col: 25, offset: 20894},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 658, col: 25, offset: 20791},
+																								pos:        position{line: 661, col: 25, offset: 20894},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 37, offset: 20803},
+																								pos:   position{line: 661, col: 37, offset: 20906},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -15900,33 +15959,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 56, offset: 20822},
+																								pos:   position{line: 661, col: 56, offset: 20925},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 658, col: 62, offset: 20828},
+																									pos: position{line: 661, col: 62, offset: 20931},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21123},
+																										pos: position{line: 669, col: 17, offset: 21226},
 																										run: (*parser).callonExternalCrossReference63,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21123},
+																											pos: position{line: 669, col: 17, offset: 21226},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21123},
+																													pos:        position{line: 669, col: 17, offset: 21226},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21127},
+																													pos:   position{line: 669, col: 21, offset: 21230},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 669, col: 28, offset: 21237},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 669, col: 28, offset: 21237},
 																																run: (*parser).callonExternalCrossReference68,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21134},
+																																	pos:        position{line: 669, col: 28, offset: 21237},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -15934,12 +15993,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21188},
+																																pos: position{line: 671, col: 9, offset: 21291},
 																																run: (*parser).callonExternalCrossReference70,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21188},
+																																	pos: position{line: 671, col: 9, offset: 21291},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21188},
+																																		pos:        position{line: 671, col: 9, offset: 21291},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -15956,7 +16015,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 658, col: 78, offset: 20844},
+																								pos:        position{line: 661, col: 78, offset: 20947},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15965,19 +16024,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 662, col: 25, offset: 20962},
+																					pos: position{line: 665, col: 25, offset: 21065},
 																					run: (*parser).callonExternalCrossReference74,
 																					expr: &seqExpr{
-																						pos: position{line: 662, col: 25, offset: 20962},
+																						pos: position{line: 665, col: 25, offset: 21065},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 662, col: 25, offset: 20962},
+																								pos:        position{line: 665, col: 25, offset: 21065},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 38, offset: 20975},
+																								pos:   position{line: 665, col: 38, offset: 21078},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -16009,33 +16068,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 57, offset: 20994},
+																								pos:   position{line: 665, col: 57, offset: 21097},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 662, col: 63, offset: 21000},
+																									pos: position{line: 665, col: 63, offset: 21103},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21123},
+																										pos: position{line: 669, col: 17, offset: 21226},
 																										run: (*parser).callonExternalCrossReference85,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21123},
+																											pos: position{line: 669, col: 17, offset: 21226},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21123},
+																													pos:        position{line: 669, col: 17, offset: 21226},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21127},
+																													pos:   position{line: 669, col: 21, offset: 21230},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 669, col: 28, offset: 21237},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 669, col: 28, offset: 21237},
 																																run: (*parser).callonExternalCrossReference90,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21134},
+																																	pos:        position{line: 669, col: 28, offset: 21237},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -16043,12 +16102,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21188},
+																																pos: position{line: 671, col: 9, offset: 21291},
 																																run: (*parser).callonExternalCrossReference92,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21188},
+																																	pos: position{line: 671, col: 9, offset: 21291},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21188},
+																																		pos:        position{line: 671, col: 9, offset: 21291},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -16065,7 +16124,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 662, col: 79, offset: 21016},
+																								pos:        position{line: 665, col: 79, offset: 21119},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16080,27 +16139,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1210, col: 23, offset: 37374},
+															pos: position{line: 1213, col: 23, offset: 37477},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1210, col: 23, offset: 37374},
+																pos: position{line: 1213, col: 23, offset: 37477},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1208, col: 32, offset: 37342},
+																		pos:        position{line: 1211, col: 32, offset: 37445},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1210, col: 51, offset: 37402},
+																		pos:   position{line: 1213, col: 51, offset: 37505},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1210, col: 56, offset: 37407},
+																			pos: position{line: 1213, col: 56, offset: 37510},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1210, col: 56, offset: 37407},
+																				pos: position{line: 1213, col: 56, offset: 37510},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1210, col: 56, offset: 37407},
+																					pos:        position{line: 1213, col: 56, offset: 37510},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -16110,7 +16169,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1208, col: 32, offset: 37342},
+																		pos:        position{line: 1211, col: 32, offset: 37445},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -16119,10 +16178,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2844, col: 11, offset: 90230},
+															pos: position{line: 2847, col: 11, offset: 90333},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2844, col: 11, offset: 90230},
+																pos:        position{line: 2847, col: 11, offset: 90333},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16137,10 +16196,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 692, col: 54, offset: 22106},
+							pos:   position{line: 695, col: 54, offset: 22209},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 692, col: 66, offset: 22118},
+								pos:  position{line: 695, col: 66, offset: 22221},
 								name: "InlineAttributes",
 							},
 						},
@@ -16150,29 +16209,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 1000, col: 1, offset: 31169},
+			pos:  position{line: 1003, col: 1, offset: 31272},
 			expr: &actionExpr{
-				pos: position{line: 1001, col: 5, offset: 31202},
+				pos: position{line: 1004, col: 5, offset: 31305},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 1001, col: 5, offset: 31202},
+					pos: position{line: 1004, col: 5, offset: 31305},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1001, col: 5, offset: 31202},
+							pos:        position{line: 1004, col: 5, offset: 31305},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1001, col: 11, offset: 31208},
+							pos:   position{line: 1004, col: 11, offset: 31311},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2815, col: 14, offset: 89308},
+								pos: position{line: 2818, col: 14, offset: 89411},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2815, col: 14, offset: 89308},
+									pos: position{line: 2818, col: 14, offset: 89411},
 									expr: &charClassMatcher{
-										pos:        position{line: 2815, col: 14, offset: 89308},
+										pos:        position{line: 2818, col: 14, offset: 89411},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16182,28 +16241,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2887, col: 8, offset: 91113},
+							pos: position{line: 2890, col: 8, offset: 91216},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2874, col: 12, offset: 90886},
+									pos: position{line: 2877, col: 12, offset: 90989},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2874, col: 13, offset: 90887},
+										pos: position{line: 2877, col: 13, offset: 90990},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2874, col: 13, offset: 90887},
+												pos:        position{line: 2877, col: 13, offset: 90990},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2874, col: 20, offset: 90894},
+												pos:        position{line: 2877, col: 20, offset: 90997},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2874, col: 29, offset: 90903},
+												pos:        position{line: 2877, col: 29, offset: 91006},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16212,9 +16271,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2884, col: 8, offset: 91063},
+									pos: position{line: 2887, col: 8, offset: 91166},
 									expr: &anyMatcher{
-										line: 2884, col: 9, offset: 91064,
+										line: 2887, col: 9, offset: 91167,
 									},
 								},
 							},
@@ -16225,53 +16284,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1112, col: 1, offset: 34125},
+			pos:  position{line: 1115, col: 1, offset: 34228},
 			expr: &actionExpr{
-				pos: position{line: 1113, col: 5, offset: 34148},
+				pos: position{line: 1116, col: 5, offset: 34251},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1113, col: 5, offset: 34148},
+					pos: position{line: 1116, col: 5, offset: 34251},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1113, col: 5, offset: 34148},
+							pos: position{line: 1116, col: 5, offset: 34251},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1116, col: 5, offset: 34209},
+							pos: position{line: 1119, col: 5, offset: 34312},
 							expr: &choiceExpr{
-								pos: position{line: 1116, col: 6, offset: 34210},
+								pos: position{line: 1119, col: 6, offset: 34313},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2475, col: 22, offset: 79658},
+										pos: position{line: 2478, col: 22, offset: 79761},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2475, col: 22, offset: 79658},
+											pos: position{line: 2478, col: 22, offset: 79761},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2480, col: 31, offset: 79879},
+													pos:        position{line: 2483, col: 31, offset: 79982},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2480, col: 36, offset: 79884},
+													pos: position{line: 2483, col: 36, offset: 79987},
 													expr: &litMatcher{
-														pos:        position{line: 2480, col: 37, offset: 79885},
+														pos:        position{line: 2483, col: 37, offset: 79988},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2475, col: 49, offset: 79685},
+													pos:   position{line: 2478, col: 49, offset: 79788},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2811, col: 13, offset: 89241},
+														pos: position{line: 2814, col: 13, offset: 89344},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2811, col: 13, offset: 89241},
+															pos: position{line: 2814, col: 13, offset: 89344},
 															expr: &charClassMatcher{
-																pos:        position{line: 2811, col: 13, offset: 89241},
+																pos:        position{line: 2814, col: 13, offset: 89344},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16281,28 +16340,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2887, col: 8, offset: 91113},
+													pos: position{line: 2890, col: 8, offset: 91216},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2874, col: 12, offset: 90886},
+															pos: position{line: 2877, col: 12, offset: 90989},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2874, col: 13, offset: 90887},
+																pos: position{line: 2877, col: 13, offset: 90990},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 13, offset: 90887},
+																		pos:        position{line: 2877, col: 13, offset: 90990},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 20, offset: 90894},
+																		pos:        position{line: 2877, col: 20, offset: 90997},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 29, offset: 90903},
+																		pos:        position{line: 2877, col: 29, offset: 91006},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16311,9 +16370,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2884, col: 8, offset: 91063},
+															pos: position{line: 2887, col: 8, offset: 91166},
 															expr: &anyMatcher{
-																line: 2884, col: 9, offset: 91064,
+																line: 2887, col: 9, offset: 91167,
 															},
 														},
 													},
@@ -16322,39 +16381,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26324},
+										pos: position{line: 823, col: 5, offset: 26427},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 823, col: 5, offset: 26427},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 820, col: 5, offset: 26324},
+													pos:   position{line: 823, col: 5, offset: 26427},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
+														pos: position{line: 743, col: 5, offset: 23687},
 														run: (*parser).callonDocumentHeader26,
 														expr: &seqExpr{
-															pos: position{line: 740, col: 5, offset: 23584},
+															pos: position{line: 743, col: 5, offset: 23687},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23584},
+																	pos:   position{line: 743, col: 5, offset: 23687},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
+																		pos: position{line: 743, col: 16, offset: 23698},
 																		run: (*parser).callonDocumentHeader29,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 16, offset: 23595},
+																			pos: position{line: 743, col: 16, offset: 23698},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23595},
+																					pos:        position{line: 743, col: 16, offset: 23698},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23602},
+																					pos: position{line: 743, col: 23, offset: 23705},
 																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23602},
+																						pos:        position{line: 743, col: 23, offset: 23705},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -16365,12 +16424,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23686},
+																	pos: position{line: 745, col: 8, offset: 23789},
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 10, offset: 90715},
+																		pos: position{line: 2868, col: 10, offset: 90818},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90715},
+																			pos:        position{line: 2868, col: 10, offset: 90818},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16379,28 +16438,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16409,9 +16468,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -16421,56 +16480,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 821, col: 5, offset: 26363},
+													pos: position{line: 824, col: 5, offset: 26466},
 													run: (*parser).callonDocumentHeader45,
 												},
 												&labeledExpr{
-													pos:   position{line: 824, col: 5, offset: 26455},
+													pos:   position{line: 827, col: 5, offset: 26558},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 839, col: 5, offset: 26853},
+														pos: position{line: 842, col: 5, offset: 26956},
 														expr: &actionExpr{
-															pos: position{line: 839, col: 6, offset: 26854},
+															pos: position{line: 842, col: 6, offset: 26957},
 															run: (*parser).callonDocumentHeader48,
 															expr: &seqExpr{
-																pos: position{line: 839, col: 6, offset: 26854},
+																pos: position{line: 842, col: 6, offset: 26957},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 839, col: 6, offset: 26854},
+																		pos: position{line: 842, col: 6, offset: 26957},
 																		expr: &choiceExpr{
-																			pos: position{line: 832, col: 5, offset: 26695},
+																			pos: position{line: 835, col: 5, offset: 26798},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 832, col: 5, offset: 26695},
+																					pos: position{line: 835, col: 5, offset: 26798},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26695},
+																							pos:   position{line: 835, col: 5, offset: 26798},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 5, offset: 23584},
+																								pos: position{line: 743, col: 5, offset: 23687},
 																								run: (*parser).callonDocumentHeader54,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 5, offset: 23584},
+																									pos: position{line: 743, col: 5, offset: 23687},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 740, col: 5, offset: 23584},
+																											pos:   position{line: 743, col: 5, offset: 23687},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 740, col: 16, offset: 23595},
+																												pos: position{line: 743, col: 16, offset: 23698},
 																												run: (*parser).callonDocumentHeader57,
 																												expr: &seqExpr{
-																													pos: position{line: 740, col: 16, offset: 23595},
+																													pos: position{line: 743, col: 16, offset: 23698},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 740, col: 16, offset: 23595},
+																															pos:        position{line: 743, col: 16, offset: 23698},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 740, col: 23, offset: 23602},
+																															pos: position{line: 743, col: 23, offset: 23705},
 																															expr: &litMatcher{
-																																pos:        position{line: 740, col: 23, offset: 23602},
+																																pos:        position{line: 743, col: 23, offset: 23705},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -16481,12 +16540,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 742, col: 8, offset: 23686},
+																											pos: position{line: 745, col: 8, offset: 23789},
 																											expr: &actionExpr{
-																												pos: position{line: 2865, col: 10, offset: 90715},
+																												pos: position{line: 2868, col: 10, offset: 90818},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 10, offset: 90715},
+																													pos:        position{line: 2868, col: 10, offset: 90818},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -16495,28 +16554,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2887, col: 8, offset: 91113},
+																											pos: position{line: 2890, col: 8, offset: 91216},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2874, col: 12, offset: 90886},
+																													pos: position{line: 2877, col: 12, offset: 90989},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2874, col: 13, offset: 90887},
+																														pos: position{line: 2877, col: 13, offset: 90990},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -16525,9 +16584,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2884, col: 8, offset: 91063},
+																													pos: position{line: 2887, col: 8, offset: 91166},
 																													expr: &anyMatcher{
-																														line: 2884, col: 9, offset: 91064,
+																														line: 2887, col: 9, offset: 91167,
 																													},
 																												},
 																											},
@@ -16537,45 +16596,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 833, col: 5, offset: 26726},
+																							pos: position{line: 836, col: 5, offset: 26829},
 																							run: (*parser).callonDocumentHeader73,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 840, col: 5, offset: 26884},
+																		pos:   position{line: 843, col: 5, offset: 26987},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 814, col: 5, offset: 26191},
 																			run: (*parser).callonDocumentHeader77,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 814, col: 5, offset: 26191},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2882, col: 11, offset: 91049},
+																						pos: position{line: 2885, col: 11, offset: 91152},
 																						expr: &anyMatcher{
-																							line: 2882, col: 13, offset: 91051,
+																							line: 2885, col: 13, offset: 91154,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 815, col: 5, offset: 26266},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2811, col: 13, offset: 89241},
+																							pos: position{line: 2814, col: 13, offset: 89344},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2811, col: 13, offset: 89241},
+																								pos: position{line: 2814, col: 13, offset: 89344},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2811, col: 13, offset: 89241},
+																									pos:        position{line: 2814, col: 13, offset: 89344},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16585,28 +16644,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2887, col: 8, offset: 91113},
+																						pos: position{line: 2890, col: 8, offset: 91216},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2874, col: 12, offset: 90886},
+																								pos: position{line: 2877, col: 12, offset: 90989},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 13, offset: 90887},
+																									pos: position{line: 2877, col: 13, offset: 90990},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 13, offset: 90887},
+																											pos:        position{line: 2877, col: 13, offset: 90990},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 20, offset: 90894},
+																											pos:        position{line: 2877, col: 20, offset: 90997},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 29, offset: 90903},
+																											pos:        position{line: 2877, col: 29, offset: 91006},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16615,9 +16674,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2884, col: 8, offset: 91063},
+																								pos: position{line: 2887, col: 8, offset: 91166},
 																								expr: &anyMatcher{
-																									line: 2884, col: 9, offset: 91064,
+																									line: 2887, col: 9, offset: 91167,
 																								},
 																							},
 																						},
@@ -16632,44 +16691,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 825, col: 5, offset: 26489},
+													pos:   position{line: 828, col: 5, offset: 26592},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 825, col: 9, offset: 26493},
+														pos: position{line: 828, col: 9, offset: 26596},
 														expr: &choiceExpr{
-															pos: position{line: 832, col: 5, offset: 26695},
+															pos: position{line: 835, col: 5, offset: 26798},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 832, col: 5, offset: 26695},
+																	pos: position{line: 835, col: 5, offset: 26798},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26695},
+																			pos:   position{line: 835, col: 5, offset: 26798},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 5, offset: 23584},
+																				pos: position{line: 743, col: 5, offset: 23687},
 																				run: (*parser).callonDocumentHeader98,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 743, col: 5, offset: 23687},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 740, col: 5, offset: 23584},
+																							pos:   position{line: 743, col: 5, offset: 23687},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 16, offset: 23595},
+																								pos: position{line: 743, col: 16, offset: 23698},
 																								run: (*parser).callonDocumentHeader101,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 743, col: 16, offset: 23698},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 740, col: 16, offset: 23595},
+																											pos:        position{line: 743, col: 16, offset: 23698},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 740, col: 23, offset: 23602},
+																											pos: position{line: 743, col: 23, offset: 23705},
 																											expr: &litMatcher{
-																												pos:        position{line: 740, col: 23, offset: 23602},
+																												pos:        position{line: 743, col: 23, offset: 23705},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -16680,12 +16739,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 742, col: 8, offset: 23686},
+																							pos: position{line: 745, col: 8, offset: 23789},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonDocumentHeader107,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -16694,28 +16753,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonDocumentHeader110,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -16724,9 +16783,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -16736,15 +16795,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 833, col: 5, offset: 26726},
+																			pos: position{line: 836, col: 5, offset: 26829},
 																			run: (*parser).callonDocumentHeader117,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2884, col: 8, offset: 91063},
+																	pos: position{line: 2887, col: 8, offset: 91166},
 																	expr: &anyMatcher{
-																		line: 2884, col: 9, offset: 91064,
+																		line: 2887, col: 9, offset: 91167,
 																	},
 																},
 															},
@@ -16758,49 +16817,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1117, col: 5, offset: 34306},
+							pos:   position{line: 1120, col: 5, offset: 34409},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1117, col: 12, offset: 34313},
+								pos:  position{line: 1120, col: 12, offset: 34416},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1118, col: 5, offset: 34332},
+							pos: position{line: 1121, col: 5, offset: 34435},
 							expr: &choiceExpr{
-								pos: position{line: 1118, col: 6, offset: 34333},
+								pos: position{line: 1121, col: 6, offset: 34436},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2475, col: 22, offset: 79658},
+										pos: position{line: 2478, col: 22, offset: 79761},
 										run: (*parser).callonDocumentHeader124,
 										expr: &seqExpr{
-											pos: position{line: 2475, col: 22, offset: 79658},
+											pos: position{line: 2478, col: 22, offset: 79761},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2480, col: 31, offset: 79879},
+													pos:        position{line: 2483, col: 31, offset: 79982},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2480, col: 36, offset: 79884},
+													pos: position{line: 2483, col: 36, offset: 79987},
 													expr: &litMatcher{
-														pos:        position{line: 2480, col: 37, offset: 79885},
+														pos:        position{line: 2483, col: 37, offset: 79988},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2475, col: 49, offset: 79685},
+													pos:   position{line: 2478, col: 49, offset: 79788},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2811, col: 13, offset: 89241},
+														pos: position{line: 2814, col: 13, offset: 89344},
 														run: (*parser).callonDocumentHeader130,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2811, col: 13, offset: 89241},
+															pos: position{line: 2814, col: 13, offset: 89344},
 															expr: &charClassMatcher{
-																pos:        position{line: 2811, col: 13, offset: 89241},
+																pos:        position{line: 2814, col: 13, offset: 89344},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16810,28 +16869,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2887, col: 8, offset: 91113},
+													pos: position{line: 2890, col: 8, offset: 91216},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2874, col: 12, offset: 90886},
+															pos: position{line: 2877, col: 12, offset: 90989},
 															run: (*parser).callonDocumentHeader134,
 															expr: &choiceExpr{
-																pos: position{line: 2874, col: 13, offset: 90887},
+																pos: position{line: 2877, col: 13, offset: 90990},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 13, offset: 90887},
+																		pos:        position{line: 2877, col: 13, offset: 90990},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 20, offset: 90894},
+																		pos:        position{line: 2877, col: 20, offset: 90997},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 29, offset: 90903},
+																		pos:        position{line: 2877, col: 29, offset: 91006},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16840,9 +16899,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2884, col: 8, offset: 91063},
+															pos: position{line: 2887, col: 8, offset: 91166},
 															expr: &anyMatcher{
-																line: 2884, col: 9, offset: 91064,
+																line: 2887, col: 9, offset: 91167,
 															},
 														},
 													},
@@ -16851,39 +16910,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26324},
+										pos: position{line: 823, col: 5, offset: 26427},
 										run: (*parser).callonDocumentHeader141,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 823, col: 5, offset: 26427},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 820, col: 5, offset: 26324},
+													pos:   position{line: 823, col: 5, offset: 26427},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
+														pos: position{line: 743, col: 5, offset: 23687},
 														run: (*parser).callonDocumentHeader144,
 														expr: &seqExpr{
-															pos: position{line: 740, col: 5, offset: 23584},
+															pos: position{line: 743, col: 5, offset: 23687},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23584},
+																	pos:   position{line: 743, col: 5, offset: 23687},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
+																		pos: position{line: 743, col: 16, offset: 23698},
 																		run: (*parser).callonDocumentHeader147,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 16, offset: 23595},
+																			pos: position{line: 743, col: 16, offset: 23698},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23595},
+																					pos:        position{line: 743, col: 16, offset: 23698},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23602},
+																					pos: position{line: 743, col: 23, offset: 23705},
 																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23602},
+																						pos:        position{line: 743, col: 23, offset: 23705},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -16894,12 +16953,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23686},
+																	pos: position{line: 745, col: 8, offset: 23789},
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 10, offset: 90715},
+																		pos: position{line: 2868, col: 10, offset: 90818},
 																		run: (*parser).callonDocumentHeader153,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90715},
+																			pos:        position{line: 2868, col: 10, offset: 90818},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16908,28 +16967,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonDocumentHeader156,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16938,9 +16997,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -16950,56 +17009,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 821, col: 5, offset: 26363},
+													pos: position{line: 824, col: 5, offset: 26466},
 													run: (*parser).callonDocumentHeader163,
 												},
 												&labeledExpr{
-													pos:   position{line: 824, col: 5, offset: 26455},
+													pos:   position{line: 827, col: 5, offset: 26558},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 839, col: 5, offset: 26853},
+														pos: position{line: 842, col: 5, offset: 26956},
 														expr: &actionExpr{
-															pos: position{line: 839, col: 6, offset: 26854},
+															pos: position{line: 842, col: 6, offset: 26957},
 															run: (*parser).callonDocumentHeader166,
 															expr: &seqExpr{
-																pos: position{line: 839, col: 6, offset: 26854},
+																pos: position{line: 842, col: 6, offset: 26957},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 839, col: 6, offset: 26854},
+																		pos: position{line: 842, col: 6, offset: 26957},
 																		expr: &choiceExpr{
-																			pos: position{line: 832, col: 5, offset: 26695},
+																			pos: position{line: 835, col: 5, offset: 26798},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 832, col: 5, offset: 26695},
+																					pos: position{line: 835, col: 5, offset: 26798},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26695},
+																							pos:   position{line: 835, col: 5, offset: 26798},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 5, offset: 23584},
+																								pos: position{line: 743, col: 5, offset: 23687},
 																								run: (*parser).callonDocumentHeader172,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 5, offset: 23584},
+																									pos: position{line: 743, col: 5, offset: 23687},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 740, col: 5, offset: 23584},
+																											pos:   position{line: 743, col: 5, offset: 23687},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 740, col: 16, offset: 23595},
+																												pos: position{line: 743, col: 16, offset: 23698},
 																												run: (*parser).callonDocumentHeader175,
 																												expr: &seqExpr{
-																													pos: position{line: 740, col: 16, offset: 23595},
+																													pos: position{line: 743, col: 16, offset: 23698},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 740, col: 16, offset: 23595},
+																															pos:        position{line: 743, col: 16, offset: 23698},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 740, col: 23, offset: 23602},
+																															pos: position{line: 743, col: 23, offset: 23705},
 																															expr: &litMatcher{
-																																pos:        position{line: 740, col: 23, offset: 23602},
+																																pos:        position{line: 743, col: 23, offset: 23705},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -17010,12 +17069,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 742, col: 8, offset: 23686},
+																											pos: position{line: 745, col: 8, offset: 23789},
 																											expr: &actionExpr{
-																												pos: position{line: 2865, col: 10, offset: 90715},
+																												pos: position{line: 2868, col: 10, offset: 90818},
 																												run: (*parser).callonDocumentHeader181,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 10, offset: 90715},
+																													pos:        position{line: 2868, col: 10, offset: 90818},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17024,28 +17083,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2887, col: 8, offset: 91113},
+																											pos: position{line: 2890, col: 8, offset: 91216},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2874, col: 12, offset: 90886},
+																													pos: position{line: 2877, col: 12, offset: 90989},
 																													run: (*parser).callonDocumentHeader184,
 																													expr: &choiceExpr{
-																														pos: position{line: 2874, col: 13, offset: 90887},
+																														pos: position{line: 2877, col: 13, offset: 90990},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17054,9 +17113,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2884, col: 8, offset: 91063},
+																													pos: position{line: 2887, col: 8, offset: 91166},
 																													expr: &anyMatcher{
-																														line: 2884, col: 9, offset: 91064,
+																														line: 2887, col: 9, offset: 91167,
 																													},
 																												},
 																											},
@@ -17066,45 +17125,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 833, col: 5, offset: 26726},
+																							pos: position{line: 836, col: 5, offset: 26829},
 																							run: (*parser).callonDocumentHeader191,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 840, col: 5, offset: 26884},
+																		pos:   position{line: 843, col: 5, offset: 26987},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 814, col: 5, offset: 26191},
 																			run: (*parser).callonDocumentHeader195,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 814, col: 5, offset: 26191},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2882, col: 11, offset: 91049},
+																						pos: position{line: 2885, col: 11, offset: 91152},
 																						expr: &anyMatcher{
-																							line: 2882, col: 13, offset: 91051,
+																							line: 2885, col: 13, offset: 91154,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 815, col: 5, offset: 26266},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2811, col: 13, offset: 89241},
+																							pos: position{line: 2814, col: 13, offset: 89344},
 																							run: (*parser).callonDocumentHeader200,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2811, col: 13, offset: 89241},
+																								pos: position{line: 2814, col: 13, offset: 89344},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2811, col: 13, offset: 89241},
+																									pos:        position{line: 2814, col: 13, offset: 89344},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17114,28 +17173,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2887, col: 8, offset: 91113},
+																						pos: position{line: 2890, col: 8, offset: 91216},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2874, col: 12, offset: 90886},
+																								pos: position{line: 2877, col: 12, offset: 90989},
 																								run: (*parser).callonDocumentHeader204,
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 13, offset: 90887},
+																									pos: position{line: 2877, col: 13, offset: 90990},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 13, offset: 90887},
+																											pos:        position{line: 2877, col: 13, offset: 90990},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 20, offset: 90894},
+																											pos:        position{line: 2877, col: 20, offset: 90997},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 29, offset: 90903},
+																											pos:        position{line: 2877, col: 29, offset: 91006},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17144,9 +17203,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2884, col: 8, offset: 91063},
+																								pos: position{line: 2887, col: 8, offset: 91166},
 																								expr: &anyMatcher{
-																									line: 2884, col: 9, offset: 91064,
+																									line: 2887, col: 9, offset: 91167,
 																								},
 																							},
 																						},
@@ -17161,44 +17220,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 825, col: 5, offset: 26489},
+													pos:   position{line: 828, col: 5, offset: 26592},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 825, col: 9, offset: 26493},
+														pos: position{line: 828, col: 9, offset: 26596},
 														expr: &choiceExpr{
-															pos: position{line: 832, col: 5, offset: 26695},
+															pos: position{line: 835, col: 5, offset: 26798},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 832, col: 5, offset: 26695},
+																	pos: position{line: 835, col: 5, offset: 26798},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26695},
+																			pos:   position{line: 835, col: 5, offset: 26798},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 5, offset: 23584},
+																				pos: position{line: 743, col: 5, offset: 23687},
 																				run: (*parser).callonDocumentHeader216,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 743, col: 5, offset: 23687},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 740, col: 5, offset: 23584},
+																							pos:   position{line: 743, col: 5, offset: 23687},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 16, offset: 23595},
+																								pos: position{line: 743, col: 16, offset: 23698},
 																								run: (*parser).callonDocumentHeader219,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 743, col: 16, offset: 23698},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 740, col: 16, offset: 23595},
+																											pos:        position{line: 743, col: 16, offset: 23698},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 740, col: 23, offset: 23602},
+																											pos: position{line: 743, col: 23, offset: 23705},
 																											expr: &litMatcher{
-																												pos:        position{line: 740, col: 23, offset: 23602},
+																												pos:        position{line: 743, col: 23, offset: 23705},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -17209,12 +17268,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 742, col: 8, offset: 23686},
+																							pos: position{line: 745, col: 8, offset: 23789},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonDocumentHeader225,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -17223,28 +17282,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonDocumentHeader228,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -17253,9 +17312,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -17265,15 +17324,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 833, col: 5, offset: 26726},
+																			pos: position{line: 836, col: 5, offset: 26829},
 																			run: (*parser).callonDocumentHeader235,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2884, col: 8, offset: 91063},
+																	pos: position{line: 2887, col: 8, offset: 91166},
 																	expr: &anyMatcher{
-																		line: 2884, col: 9, offset: 91064,
+																		line: 2887, col: 9, offset: 91167,
 																	},
 																},
 															},
@@ -17287,41 +17346,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1119, col: 5, offset: 34429},
+							pos:   position{line: 1122, col: 5, offset: 34532},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1119, col: 24, offset: 34448},
+								pos: position{line: 1122, col: 24, offset: 34551},
 								expr: &actionExpr{
-									pos: position{line: 1130, col: 5, offset: 34823},
+									pos: position{line: 1133, col: 5, offset: 34926},
 									run: (*parser).callonDocumentHeader240,
 									expr: &seqExpr{
-										pos: position{line: 1130, col: 5, offset: 34823},
+										pos: position{line: 1133, col: 5, offset: 34926},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1130, col: 5, offset: 34823},
+												pos: position{line: 1133, col: 5, offset: 34926},
 												expr: &litMatcher{
-													pos:        position{line: 1130, col: 6, offset: 34824},
+													pos:        position{line: 1133, col: 6, offset: 34927},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1131, col: 5, offset: 34832},
+												pos:   position{line: 1134, col: 5, offset: 34935},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1137, col: 20, offset: 35088},
+													pos: position{line: 1140, col: 20, offset: 35191},
 													run: (*parser).callonDocumentHeader245,
 													expr: &seqExpr{
-														pos: position{line: 1137, col: 20, offset: 35088},
+														pos: position{line: 1140, col: 20, offset: 35191},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1137, col: 20, offset: 35088},
+																pos: position{line: 1140, col: 20, offset: 35191},
 																expr: &actionExpr{
-																	pos: position{line: 2865, col: 10, offset: 90715},
+																	pos: position{line: 2868, col: 10, offset: 90818},
 																	run: (*parser).callonDocumentHeader248,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2865, col: 10, offset: 90715},
+																		pos:        position{line: 2868, col: 10, offset: 90818},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17330,37 +17389,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1137, col: 27, offset: 35095},
+																pos:   position{line: 1140, col: 27, offset: 35198},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1137, col: 36, offset: 35104},
+																	pos: position{line: 1140, col: 36, offset: 35207},
 																	expr: &actionExpr{
-																		pos: position{line: 1142, col: 5, offset: 35217},
+																		pos: position{line: 1145, col: 5, offset: 35320},
 																		run: (*parser).callonDocumentHeader252,
 																		expr: &seqExpr{
-																			pos: position{line: 1142, col: 5, offset: 35217},
+																			pos: position{line: 1145, col: 5, offset: 35320},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1142, col: 5, offset: 35217},
+																					pos:   position{line: 1145, col: 5, offset: 35320},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1142, col: 14, offset: 35226},
+																						pos: position{line: 1145, col: 14, offset: 35329},
 																						expr: &actionExpr{
-																							pos: position{line: 1153, col: 5, offset: 35606},
+																							pos: position{line: 1156, col: 5, offset: 35709},
 																							run: (*parser).callonDocumentHeader256,
 																							expr: &seqExpr{
-																								pos: position{line: 1153, col: 5, offset: 35606},
+																								pos: position{line: 1156, col: 5, offset: 35709},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1153, col: 5, offset: 35606},
+																										pos:   position{line: 1156, col: 5, offset: 35709},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1153, col: 12, offset: 35613},
+																											pos: position{line: 1156, col: 12, offset: 35716},
 																											run: (*parser).callonDocumentHeader259,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1153, col: 12, offset: 35613},
+																												pos: position{line: 1156, col: 12, offset: 35716},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1153, col: 12, offset: 35613},
+																													pos:        position{line: 1156, col: 12, offset: 35716},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -17370,12 +17429,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1156, col: 5, offset: 35693},
+																										pos: position{line: 1159, col: 5, offset: 35796},
 																										expr: &actionExpr{
-																											pos: position{line: 2865, col: 10, offset: 90715},
+																											pos: position{line: 2868, col: 10, offset: 90818},
 																											run: (*parser).callonDocumentHeader263,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2865, col: 10, offset: 90715},
+																												pos:        position{line: 2868, col: 10, offset: 90818},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17384,17 +17443,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1157, col: 5, offset: 35704},
+																										pos:   position{line: 1160, col: 5, offset: 35807},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1157, col: 11, offset: 35710},
+																											pos: position{line: 1160, col: 11, offset: 35813},
 																											expr: &actionExpr{
-																												pos: position{line: 1157, col: 12, offset: 35711},
+																												pos: position{line: 1160, col: 12, offset: 35814},
 																												run: (*parser).callonDocumentHeader267,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1157, col: 12, offset: 35711},
+																													pos: position{line: 1160, col: 12, offset: 35814},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1157, col: 12, offset: 35711},
+																														pos:        position{line: 1160, col: 12, offset: 35814},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -17405,12 +17464,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1160, col: 5, offset: 35792},
+																										pos: position{line: 1163, col: 5, offset: 35895},
 																										expr: &actionExpr{
-																											pos: position{line: 2865, col: 10, offset: 90715},
+																											pos: position{line: 2868, col: 10, offset: 90818},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2865, col: 10, offset: 90715},
+																												pos:        position{line: 2868, col: 10, offset: 90818},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17419,17 +17478,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1161, col: 5, offset: 35803},
+																										pos:   position{line: 1164, col: 5, offset: 35906},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1161, col: 11, offset: 35809},
+																											pos: position{line: 1164, col: 11, offset: 35912},
 																											expr: &actionExpr{
-																												pos: position{line: 1161, col: 12, offset: 35810},
+																												pos: position{line: 1164, col: 12, offset: 35913},
 																												run: (*parser).callonDocumentHeader275,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1161, col: 12, offset: 35810},
+																													pos: position{line: 1164, col: 12, offset: 35913},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1161, col: 12, offset: 35810},
+																														pos:        position{line: 1164, col: 12, offset: 35913},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -17440,12 +17499,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1164, col: 5, offset: 35889},
+																										pos: position{line: 1167, col: 5, offset: 35992},
 																										expr: &actionExpr{
-																											pos: position{line: 2865, col: 10, offset: 90715},
+																											pos: position{line: 2868, col: 10, offset: 90818},
 																											run: (*parser).callonDocumentHeader279,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2865, col: 10, offset: 90715},
+																												pos:        position{line: 2868, col: 10, offset: 90818},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17459,38 +17518,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1142, col: 40, offset: 35252},
+																					pos:   position{line: 1145, col: 40, offset: 35355},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1142, col: 46, offset: 35258},
+																						pos: position{line: 1145, col: 46, offset: 35361},
 																						expr: &actionExpr{
-																							pos: position{line: 1170, col: 5, offset: 36011},
+																							pos: position{line: 1173, col: 5, offset: 36114},
 																							run: (*parser).callonDocumentHeader283,
 																							expr: &seqExpr{
-																								pos: position{line: 1170, col: 5, offset: 36011},
+																								pos: position{line: 1173, col: 5, offset: 36114},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2882, col: 11, offset: 91049},
+																										pos: position{line: 2885, col: 11, offset: 91152},
 																										expr: &anyMatcher{
-																											line: 2882, col: 13, offset: 91051,
+																											line: 2885, col: 13, offset: 91154,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1171, col: 5, offset: 36023},
+																										pos:        position{line: 1174, col: 5, offset: 36126},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1172, col: 5, offset: 36032},
+																										pos:   position{line: 1175, col: 5, offset: 36135},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1172, col: 12, offset: 36039},
+																											pos: position{line: 1175, col: 12, offset: 36142},
 																											run: (*parser).callonDocumentHeader289,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1172, col: 13, offset: 36040},
+																												pos: position{line: 1175, col: 13, offset: 36143},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1172, col: 13, offset: 36040},
+																													pos:        position{line: 1175, col: 13, offset: 36143},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -17500,7 +17559,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1175, col: 5, offset: 36100},
+																										pos:        position{line: 1178, col: 5, offset: 36203},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -17511,12 +17570,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1142, col: 69, offset: 35281},
+																					pos: position{line: 1145, col: 69, offset: 35384},
 																					expr: &actionExpr{
-																						pos: position{line: 2865, col: 10, offset: 90715},
+																						pos: position{line: 2868, col: 10, offset: 90818},
 																						run: (*parser).callonDocumentHeader294,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2865, col: 10, offset: 90715},
+																							pos:        position{line: 2868, col: 10, offset: 90818},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17525,21 +17584,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1142, col: 76, offset: 35288},
+																					pos: position{line: 1145, col: 76, offset: 35391},
 																					expr: &litMatcher{
-																						pos:        position{line: 1142, col: 76, offset: 35288},
+																						pos:        position{line: 1145, col: 76, offset: 35391},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1142, col: 81, offset: 35293},
+																					pos: position{line: 1145, col: 81, offset: 35396},
 																					expr: &actionExpr{
-																						pos: position{line: 2865, col: 10, offset: 90715},
+																						pos: position{line: 2868, col: 10, offset: 90818},
 																						run: (*parser).callonDocumentHeader299,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2865, col: 10, offset: 90715},
+																							pos:        position{line: 2868, col: 10, offset: 90818},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17548,7 +17607,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1143, col: 5, offset: 35305},
+																					pos: position{line: 1146, col: 5, offset: 35408},
 																					run: (*parser).callonDocumentHeader301,
 																				},
 																			},
@@ -17557,28 +17616,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2887, col: 8, offset: 91113},
+																pos: position{line: 2890, col: 8, offset: 91216},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2874, col: 12, offset: 90886},
+																		pos: position{line: 2877, col: 12, offset: 90989},
 																		run: (*parser).callonDocumentHeader303,
 																		expr: &choiceExpr{
-																			pos: position{line: 2874, col: 13, offset: 90887},
+																			pos: position{line: 2877, col: 13, offset: 90990},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2874, col: 13, offset: 90887},
+																					pos:        position{line: 2877, col: 13, offset: 90990},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2874, col: 20, offset: 90894},
+																					pos:        position{line: 2877, col: 20, offset: 90997},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2874, col: 29, offset: 90903},
+																					pos:        position{line: 2877, col: 29, offset: 91006},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17587,9 +17646,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2884, col: 8, offset: 91063},
+																		pos: position{line: 2887, col: 8, offset: 91166},
 																		expr: &anyMatcher{
-																			line: 2884, col: 9, offset: 91064,
+																			line: 2887, col: 9, offset: 91167,
 																		},
 																	},
 																},
@@ -17599,41 +17658,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1132, col: 5, offset: 34862},
+												pos: position{line: 1135, col: 5, offset: 34965},
 												expr: &choiceExpr{
-													pos: position{line: 1132, col: 6, offset: 34863},
+													pos: position{line: 1135, col: 6, offset: 34966},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2475, col: 22, offset: 79658},
+															pos: position{line: 2478, col: 22, offset: 79761},
 															run: (*parser).callonDocumentHeader312,
 															expr: &seqExpr{
-																pos: position{line: 2475, col: 22, offset: 79658},
+																pos: position{line: 2478, col: 22, offset: 79761},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2480, col: 31, offset: 79879},
+																		pos:        position{line: 2483, col: 31, offset: 79982},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2480, col: 36, offset: 79884},
+																		pos: position{line: 2483, col: 36, offset: 79987},
 																		expr: &litMatcher{
-																			pos:        position{line: 2480, col: 37, offset: 79885},
+																			pos:        position{line: 2483, col: 37, offset: 79988},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2475, col: 49, offset: 79685},
+																		pos:   position{line: 2478, col: 49, offset: 79788},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2811, col: 13, offset: 89241},
+																			pos: position{line: 2814, col: 13, offset: 89344},
 																			run: (*parser).callonDocumentHeader318,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2811, col: 13, offset: 89241},
+																				pos: position{line: 2814, col: 13, offset: 89344},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2811, col: 13, offset: 89241},
+																					pos:        position{line: 2814, col: 13, offset: 89344},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17643,28 +17702,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2887, col: 8, offset: 91113},
+																		pos: position{line: 2890, col: 8, offset: 91216},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2874, col: 12, offset: 90886},
+																				pos: position{line: 2877, col: 12, offset: 90989},
 																				run: (*parser).callonDocumentHeader322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 13, offset: 90887},
+																					pos: position{line: 2877, col: 13, offset: 90990},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 13, offset: 90887},
+																							pos:        position{line: 2877, col: 13, offset: 90990},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 20, offset: 90894},
+																							pos:        position{line: 2877, col: 20, offset: 90997},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 29, offset: 90903},
+																							pos:        position{line: 2877, col: 29, offset: 91006},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17673,9 +17732,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2884, col: 8, offset: 91063},
+																				pos: position{line: 2887, col: 8, offset: 91166},
 																				expr: &anyMatcher{
-																					line: 2884, col: 9, offset: 91064,
+																					line: 2887, col: 9, offset: 91167,
 																				},
 																			},
 																		},
@@ -17684,39 +17743,39 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 820, col: 5, offset: 26324},
+															pos: position{line: 823, col: 5, offset: 26427},
 															run: (*parser).callonDocumentHeader329,
 															expr: &seqExpr{
-																pos: position{line: 820, col: 5, offset: 26324},
+																pos: position{line: 823, col: 5, offset: 26427},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 820, col: 5, offset: 26324},
+																		pos:   position{line: 823, col: 5, offset: 26427},
 																		label: "start",
 																		expr: &actionExpr{
-																			pos: position{line: 740, col: 5, offset: 23584},
+																			pos: position{line: 743, col: 5, offset: 23687},
 																			run: (*parser).callonDocumentHeader332,
 																			expr: &seqExpr{
-																				pos: position{line: 740, col: 5, offset: 23584},
+																				pos: position{line: 743, col: 5, offset: 23687},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 740, col: 5, offset: 23584},
+																						pos:   position{line: 743, col: 5, offset: 23687},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 740, col: 16, offset: 23595},
+																							pos: position{line: 743, col: 16, offset: 23698},
 																							run: (*parser).callonDocumentHeader335,
 																							expr: &seqExpr{
-																								pos: position{line: 740, col: 16, offset: 23595},
+																								pos: position{line: 743, col: 16, offset: 23698},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 740, col: 16, offset: 23595},
+																										pos:        position{line: 743, col: 16, offset: 23698},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 740, col: 23, offset: 23602},
+																										pos: position{line: 743, col: 23, offset: 23705},
 																										expr: &litMatcher{
-																											pos:        position{line: 740, col: 23, offset: 23602},
+																											pos:        position{line: 743, col: 23, offset: 23705},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -17727,12 +17786,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 742, col: 8, offset: 23686},
+																						pos: position{line: 745, col: 8, offset: 23789},
 																						expr: &actionExpr{
-																							pos: position{line: 2865, col: 10, offset: 90715},
+																							pos: position{line: 2868, col: 10, offset: 90818},
 																							run: (*parser).callonDocumentHeader341,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2865, col: 10, offset: 90715},
+																								pos:        position{line: 2868, col: 10, offset: 90818},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17741,28 +17800,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2887, col: 8, offset: 91113},
+																						pos: position{line: 2890, col: 8, offset: 91216},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2874, col: 12, offset: 90886},
+																								pos: position{line: 2877, col: 12, offset: 90989},
 																								run: (*parser).callonDocumentHeader344,
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 13, offset: 90887},
+																									pos: position{line: 2877, col: 13, offset: 90990},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 13, offset: 90887},
+																											pos:        position{line: 2877, col: 13, offset: 90990},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 20, offset: 90894},
+																											pos:        position{line: 2877, col: 20, offset: 90997},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 29, offset: 90903},
+																											pos:        position{line: 2877, col: 29, offset: 91006},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17771,9 +17830,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2884, col: 8, offset: 91063},
+																								pos: position{line: 2887, col: 8, offset: 91166},
 																								expr: &anyMatcher{
-																									line: 2884, col: 9, offset: 91064,
+																									line: 2887, col: 9, offset: 91167,
 																								},
 																							},
 																						},
@@ -17783,56 +17842,56 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 821, col: 5, offset: 26363},
+																		pos: position{line: 824, col: 5, offset: 26466},
 																		run: (*parser).callonDocumentHeader351,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 824, col: 5, offset: 26455},
+																		pos:   position{line: 827, col: 5, offset: 26558},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 839, col: 5, offset: 26853},
+																			pos: position{line: 842, col: 5, offset: 26956},
 																			expr: &actionExpr{
-																				pos: position{line: 839, col: 6, offset: 26854},
+																				pos: position{line: 842, col: 6, offset: 26957},
 																				run: (*parser).callonDocumentHeader354,
 																				expr: &seqExpr{
-																					pos: position{line: 839, col: 6, offset: 26854},
+																					pos: position{line: 842, col: 6, offset: 26957},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 839, col: 6, offset: 26854},
+																							pos: position{line: 842, col: 6, offset: 26957},
 																							expr: &choiceExpr{
-																								pos: position{line: 832, col: 5, offset: 26695},
+																								pos: position{line: 835, col: 5, offset: 26798},
 																								alternatives: []interface{}{
 																									&seqExpr{
-																										pos: position{line: 832, col: 5, offset: 26695},
+																										pos: position{line: 835, col: 5, offset: 26798},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 832, col: 5, offset: 26695},
+																												pos:   position{line: 835, col: 5, offset: 26798},
 																												label: "end",
 																												expr: &actionExpr{
-																													pos: position{line: 740, col: 5, offset: 23584},
+																													pos: position{line: 743, col: 5, offset: 23687},
 																													run: (*parser).callonDocumentHeader360,
 																													expr: &seqExpr{
-																														pos: position{line: 740, col: 5, offset: 23584},
+																														pos: position{line: 743, col: 5, offset: 23687},
 																														exprs: []interface{}{
 																															&labeledExpr{
-																																pos:   position{line: 740, col: 5, offset: 23584},
+																																pos:   position{line: 743, col: 5, offset: 23687},
 																																label: "delimiter",
 																																expr: &actionExpr{
-																																	pos: position{line: 740, col: 16, offset: 23595},
+																																	pos: position{line: 743, col: 16, offset: 23698},
 																																	run: (*parser).callonDocumentHeader363,
 																																	expr: &seqExpr{
-																																		pos: position{line: 740, col: 16, offset: 23595},
+																																		pos: position{line: 743, col: 16, offset: 23698},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 740, col: 16, offset: 23595},
+																																				pos:        position{line: 743, col: 16, offset: 23698},
 																																				val:        "////",
 																																				ignoreCase: false,
 																																				want:       "\"////\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 740, col: 23, offset: 23602},
+																																				pos: position{line: 743, col: 23, offset: 23705},
 																																				expr: &litMatcher{
-																																					pos:        position{line: 740, col: 23, offset: 23602},
+																																					pos:        position{line: 743, col: 23, offset: 23705},
 																																					val:        "/",
 																																					ignoreCase: false,
 																																					want:       "\"/\"",
@@ -17843,12 +17902,12 @@ var g = &grammar{
 																																},
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 742, col: 8, offset: 23686},
+																																pos: position{line: 745, col: 8, offset: 23789},
 																																expr: &actionExpr{
-																																	pos: position{line: 2865, col: 10, offset: 90715},
+																																	pos: position{line: 2868, col: 10, offset: 90818},
 																																	run: (*parser).callonDocumentHeader369,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2865, col: 10, offset: 90715},
+																																		pos:        position{line: 2868, col: 10, offset: 90818},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -17857,28 +17916,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2887, col: 8, offset: 91113},
+																																pos: position{line: 2890, col: 8, offset: 91216},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2874, col: 12, offset: 90886},
+																																		pos: position{line: 2877, col: 12, offset: 90989},
 																																		run: (*parser).callonDocumentHeader372,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2874, col: 13, offset: 90887},
+																																			pos: position{line: 2877, col: 13, offset: 90990},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2874, col: 13, offset: 90887},
+																																					pos:        position{line: 2877, col: 13, offset: 90990},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2874, col: 20, offset: 90894},
+																																					pos:        position{line: 2877, col: 20, offset: 90997},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2874, col: 29, offset: 90903},
+																																					pos:        position{line: 2877, col: 29, offset: 91006},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -17887,9 +17946,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2884, col: 8, offset: 91063},
+																																		pos: position{line: 2887, col: 8, offset: 91166},
 																																		expr: &anyMatcher{
-																																			line: 2884, col: 9, offset: 91064,
+																																			line: 2887, col: 9, offset: 91167,
 																																		},
 																																	},
 																																},
@@ -17899,45 +17958,45 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 833, col: 5, offset: 26726},
+																												pos: position{line: 836, col: 5, offset: 26829},
 																												run: (*parser).callonDocumentHeader379,
 																											},
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2884, col: 8, offset: 91063},
+																										pos: position{line: 2887, col: 8, offset: 91166},
 																										expr: &anyMatcher{
-																											line: 2884, col: 9, offset: 91064,
+																											line: 2887, col: 9, offset: 91167,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 840, col: 5, offset: 26884},
+																							pos:   position{line: 843, col: 5, offset: 26987},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 811, col: 5, offset: 26088},
+																								pos: position{line: 814, col: 5, offset: 26191},
 																								run: (*parser).callonDocumentHeader383,
 																								expr: &seqExpr{
-																									pos: position{line: 811, col: 5, offset: 26088},
+																									pos: position{line: 814, col: 5, offset: 26191},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2882, col: 11, offset: 91049},
+																											pos: position{line: 2885, col: 11, offset: 91152},
 																											expr: &anyMatcher{
-																												line: 2882, col: 13, offset: 91051,
+																												line: 2885, col: 13, offset: 91154,
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 812, col: 5, offset: 26163},
+																											pos:   position{line: 815, col: 5, offset: 26266},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2811, col: 13, offset: 89241},
+																												pos: position{line: 2814, col: 13, offset: 89344},
 																												run: (*parser).callonDocumentHeader388,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2811, col: 13, offset: 89241},
+																													pos: position{line: 2814, col: 13, offset: 89344},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2811, col: 13, offset: 89241},
+																														pos:        position{line: 2814, col: 13, offset: 89344},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -17947,28 +18006,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2887, col: 8, offset: 91113},
+																											pos: position{line: 2890, col: 8, offset: 91216},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2874, col: 12, offset: 90886},
+																													pos: position{line: 2877, col: 12, offset: 90989},
 																													run: (*parser).callonDocumentHeader392,
 																													expr: &choiceExpr{
-																														pos: position{line: 2874, col: 13, offset: 90887},
+																														pos: position{line: 2877, col: 13, offset: 90990},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17977,9 +18036,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2884, col: 8, offset: 91063},
+																													pos: position{line: 2887, col: 8, offset: 91166},
 																													expr: &anyMatcher{
-																														line: 2884, col: 9, offset: 91064,
+																														line: 2887, col: 9, offset: 91167,
 																													},
 																												},
 																											},
@@ -17994,44 +18053,44 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 825, col: 5, offset: 26489},
+																		pos:   position{line: 828, col: 5, offset: 26592},
 																		label: "end",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 825, col: 9, offset: 26493},
+																			pos: position{line: 828, col: 9, offset: 26596},
 																			expr: &choiceExpr{
-																				pos: position{line: 832, col: 5, offset: 26695},
+																				pos: position{line: 835, col: 5, offset: 26798},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 832, col: 5, offset: 26695},
+																						pos: position{line: 835, col: 5, offset: 26798},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 832, col: 5, offset: 26695},
+																								pos:   position{line: 835, col: 5, offset: 26798},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 5, offset: 23584},
+																									pos: position{line: 743, col: 5, offset: 23687},
 																									run: (*parser).callonDocumentHeader404,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 5, offset: 23584},
+																										pos: position{line: 743, col: 5, offset: 23687},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 740, col: 5, offset: 23584},
+																												pos:   position{line: 743, col: 5, offset: 23687},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 740, col: 16, offset: 23595},
+																													pos: position{line: 743, col: 16, offset: 23698},
 																													run: (*parser).callonDocumentHeader407,
 																													expr: &seqExpr{
-																														pos: position{line: 740, col: 16, offset: 23595},
+																														pos: position{line: 743, col: 16, offset: 23698},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 740, col: 16, offset: 23595},
+																																pos:        position{line: 743, col: 16, offset: 23698},
 																																val:        "////",
 																																ignoreCase: false,
 																																want:       "\"////\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 740, col: 23, offset: 23602},
+																																pos: position{line: 743, col: 23, offset: 23705},
 																																expr: &litMatcher{
-																																	pos:        position{line: 740, col: 23, offset: 23602},
+																																	pos:        position{line: 743, col: 23, offset: 23705},
 																																	val:        "/",
 																																	ignoreCase: false,
 																																	want:       "\"/\"",
@@ -18042,12 +18101,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 742, col: 8, offset: 23686},
+																												pos: position{line: 745, col: 8, offset: 23789},
 																												expr: &actionExpr{
-																													pos: position{line: 2865, col: 10, offset: 90715},
+																													pos: position{line: 2868, col: 10, offset: 90818},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2865, col: 10, offset: 90715},
+																														pos:        position{line: 2868, col: 10, offset: 90818},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -18056,28 +18115,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2887, col: 8, offset: 91113},
+																												pos: position{line: 2890, col: 8, offset: 91216},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2874, col: 12, offset: 90886},
+																														pos: position{line: 2877, col: 12, offset: 90989},
 																														run: (*parser).callonDocumentHeader416,
 																														expr: &choiceExpr{
-																															pos: position{line: 2874, col: 13, offset: 90887},
+																															pos: position{line: 2877, col: 13, offset: 90990},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 13, offset: 90887},
+																																	pos:        position{line: 2877, col: 13, offset: 90990},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 20, offset: 90894},
+																																	pos:        position{line: 2877, col: 20, offset: 90997},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 29, offset: 90903},
+																																	pos:        position{line: 2877, col: 29, offset: 91006},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -18086,9 +18145,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2884, col: 8, offset: 91063},
+																														pos: position{line: 2887, col: 8, offset: 91166},
 																														expr: &anyMatcher{
-																															line: 2884, col: 9, offset: 91064,
+																															line: 2887, col: 9, offset: 91167,
 																														},
 																													},
 																												},
@@ -18098,15 +18157,15 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 833, col: 5, offset: 26726},
+																								pos: position{line: 836, col: 5, offset: 26829},
 																								run: (*parser).callonDocumentHeader423,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2884, col: 8, offset: 91063},
+																						pos: position{line: 2887, col: 8, offset: 91166},
 																						expr: &anyMatcher{
-																							line: 2884, col: 9, offset: 91064,
+																							line: 2887, col: 9, offset: 91167,
 																						},
 																					},
 																				},
@@ -18120,23 +18179,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1133, col: 5, offset: 34937},
+												pos:   position{line: 1136, col: 5, offset: 35040},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1133, col: 14, offset: 34946},
+													pos: position{line: 1136, col: 14, offset: 35049},
 													expr: &actionExpr{
-														pos: position{line: 1181, col: 21, offset: 36289},
+														pos: position{line: 1184, col: 21, offset: 36392},
 														run: (*parser).callonDocumentHeader428,
 														expr: &seqExpr{
-															pos: position{line: 1181, col: 21, offset: 36289},
+															pos: position{line: 1184, col: 21, offset: 36392},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1181, col: 21, offset: 36289},
+																	pos: position{line: 1184, col: 21, offset: 36392},
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 10, offset: 90715},
+																		pos: position{line: 2868, col: 10, offset: 90818},
 																		run: (*parser).callonDocumentHeader431,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90715},
+																			pos:        position{line: 2868, col: 10, offset: 90818},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18145,55 +18204,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1181, col: 28, offset: 36296},
+																	pos: position{line: 1184, col: 28, offset: 36399},
 																	expr: &litMatcher{
-																		pos:        position{line: 1181, col: 29, offset: 36297},
+																		pos:        position{line: 1184, col: 29, offset: 36400},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1181, col: 33, offset: 36301},
+																	pos:   position{line: 1184, col: 33, offset: 36404},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1182, col: 9, offset: 36320},
+																		pos: position{line: 1185, col: 9, offset: 36423},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1182, col: 10, offset: 36321},
+																				pos: position{line: 1185, col: 10, offset: 36424},
 																				run: (*parser).callonDocumentHeader437,
 																				expr: &seqExpr{
-																					pos: position{line: 1182, col: 10, offset: 36321},
+																					pos: position{line: 1185, col: 10, offset: 36424},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1182, col: 10, offset: 36321},
+																							pos:   position{line: 1185, col: 10, offset: 36424},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1191, col: 27, offset: 36838},
+																								pos: position{line: 1194, col: 27, offset: 36941},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1191, col: 27, offset: 36838},
+																										pos: position{line: 1194, col: 27, offset: 36941},
 																										run: (*parser).callonDocumentHeader441,
 																										expr: &seqExpr{
-																											pos: position{line: 1191, col: 27, offset: 36838},
+																											pos: position{line: 1194, col: 27, offset: 36941},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1191, col: 27, offset: 36838},
+																													pos:        position{line: 1194, col: 27, offset: 36941},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1191, col: 32, offset: 36843},
+																													pos:        position{line: 1194, col: 32, offset: 36946},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1191, col: 38, offset: 36849},
+																													pos: position{line: 1194, col: 38, offset: 36952},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1191, col: 38, offset: 36849},
+																														pos:        position{line: 1194, col: 38, offset: 36952},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18204,31 +18263,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1193, col: 5, offset: 36897},
+																										pos: position{line: 1196, col: 5, offset: 37000},
 																										run: (*parser).callonDocumentHeader447,
 																										expr: &seqExpr{
-																											pos: position{line: 1193, col: 5, offset: 36897},
+																											pos: position{line: 1196, col: 5, offset: 37000},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1193, col: 5, offset: 36897},
+																													pos: position{line: 1196, col: 5, offset: 37000},
 																													expr: &litMatcher{
-																														pos:        position{line: 1193, col: 5, offset: 36897},
+																														pos:        position{line: 1196, col: 5, offset: 37000},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1193, col: 11, offset: 36903},
+																													pos:        position{line: 1196, col: 11, offset: 37006},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1193, col: 17, offset: 36909},
+																													pos: position{line: 1196, col: 17, offset: 37012},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1193, col: 17, offset: 36909},
+																														pos:        position{line: 1196, col: 17, offset: 37012},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18236,12 +18295,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1193, col: 28, offset: 36920},
+																													pos: position{line: 1196, col: 28, offset: 37023},
 																													expr: &actionExpr{
-																														pos: position{line: 2865, col: 10, offset: 90715},
+																														pos: position{line: 2868, col: 10, offset: 90818},
 																														run: (*parser).callonDocumentHeader455,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2865, col: 10, offset: 90715},
+																															pos:        position{line: 2868, col: 10, offset: 90818},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18250,9 +18309,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1193, col: 35, offset: 36927},
+																													pos: position{line: 1196, col: 35, offset: 37030},
 																													expr: &litMatcher{
-																														pos:        position{line: 1193, col: 36, offset: 36928},
+																														pos:        position{line: 1196, col: 36, offset: 37031},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -18265,26 +18324,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1182, col: 45, offset: 36356},
+																							pos: position{line: 1185, col: 45, offset: 36459},
 																							expr: &litMatcher{
-																								pos:        position{line: 1182, col: 45, offset: 36356},
+																								pos:        position{line: 1185, col: 45, offset: 36459},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1182, col: 50, offset: 36361},
+																							pos:   position{line: 1185, col: 50, offset: 36464},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1182, col: 58, offset: 36369},
+																								pos: position{line: 1185, col: 58, offset: 36472},
 																								expr: &actionExpr{
-																									pos: position{line: 1197, col: 25, offset: 36992},
+																									pos: position{line: 1200, col: 25, offset: 37095},
 																									run: (*parser).callonDocumentHeader463,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1197, col: 25, offset: 36992},
+																										pos: position{line: 1200, col: 25, offset: 37095},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1197, col: 25, offset: 36992},
+																											pos:        position{line: 1200, col: 25, offset: 37095},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -18295,26 +18354,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1182, col: 82, offset: 36393},
+																							pos: position{line: 1185, col: 82, offset: 36496},
 																							expr: &litMatcher{
-																								pos:        position{line: 1182, col: 82, offset: 36393},
+																								pos:        position{line: 1185, col: 82, offset: 36496},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1182, col: 87, offset: 36398},
+																							pos:   position{line: 1185, col: 87, offset: 36501},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1182, col: 97, offset: 36408},
+																								pos: position{line: 1185, col: 97, offset: 36511},
 																								expr: &actionExpr{
-																									pos: position{line: 1201, col: 27, offset: 37064},
+																									pos: position{line: 1204, col: 27, offset: 37167},
 																									run: (*parser).callonDocumentHeader470,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1201, col: 27, offset: 37064},
+																										pos: position{line: 1204, col: 27, offset: 37167},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1201, col: 27, offset: 37064},
+																											pos:        position{line: 1204, col: 27, offset: 37167},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18328,21 +18387,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1184, col: 15, offset: 36526},
+																				pos: position{line: 1187, col: 15, offset: 36629},
 																				run: (*parser).callonDocumentHeader473,
 																				expr: &seqExpr{
-																					pos: position{line: 1184, col: 15, offset: 36526},
+																					pos: position{line: 1187, col: 15, offset: 36629},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1184, col: 15, offset: 36526},
+																							pos:   position{line: 1187, col: 15, offset: 36629},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1197, col: 25, offset: 36992},
+																								pos: position{line: 1200, col: 25, offset: 37095},
 																								run: (*parser).callonDocumentHeader476,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1197, col: 25, offset: 36992},
+																									pos: position{line: 1200, col: 25, offset: 37095},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1197, col: 25, offset: 36992},
+																										pos:        position{line: 1200, col: 25, offset: 37095},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -18352,26 +18411,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1184, col: 46, offset: 36557},
+																							pos: position{line: 1187, col: 46, offset: 36660},
 																							expr: &litMatcher{
-																								pos:        position{line: 1184, col: 46, offset: 36557},
+																								pos:        position{line: 1187, col: 46, offset: 36660},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1184, col: 51, offset: 36562},
+																							pos:   position{line: 1187, col: 51, offset: 36665},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1184, col: 61, offset: 36572},
+																								pos: position{line: 1187, col: 61, offset: 36675},
 																								expr: &actionExpr{
-																									pos: position{line: 1201, col: 27, offset: 37064},
+																									pos: position{line: 1204, col: 27, offset: 37167},
 																									run: (*parser).callonDocumentHeader483,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1201, col: 27, offset: 37064},
+																										pos: position{line: 1204, col: 27, offset: 37167},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1201, col: 27, offset: 37064},
+																											pos:        position{line: 1204, col: 27, offset: 37167},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18388,28 +18447,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonDocumentHeader487,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18418,9 +18477,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -18436,15 +18495,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1120, col: 5, offset: 34483},
+							pos:   position{line: 1123, col: 5, offset: 34586},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1120, col: 19, offset: 34497},
+								pos: position{line: 1123, col: 19, offset: 34600},
 								expr: &choiceExpr{
-									pos: position{line: 1120, col: 20, offset: 34498},
+									pos: position{line: 1123, col: 20, offset: 34601},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1120, col: 20, offset: 34498},
+											pos:  position{line: 1123, col: 20, offset: 34601},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
@@ -18500,10 +18559,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 360, col: 49, offset: 10940},
 														expr: &actionExpr{
-															pos: position{line: 2865, col: 10, offset: 90715},
+															pos: position{line: 2868, col: 10, offset: 90818},
 															run: (*parser).callonDocumentHeader509,
 															expr: &charClassMatcher{
-																pos:        position{line: 2865, col: 10, offset: 90715},
+																pos:        position{line: 2868, col: 10, offset: 90818},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18512,28 +18571,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2887, col: 8, offset: 91113},
+														pos: position{line: 2890, col: 8, offset: 91216},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2874, col: 12, offset: 90886},
+																pos: position{line: 2877, col: 12, offset: 90989},
 																run: (*parser).callonDocumentHeader512,
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 13, offset: 90887},
+																	pos: position{line: 2877, col: 13, offset: 90990},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 13, offset: 90887},
+																			pos:        position{line: 2877, col: 13, offset: 90990},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 20, offset: 90894},
+																			pos:        position{line: 2877, col: 20, offset: 90997},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 29, offset: 90903},
+																			pos:        position{line: 2877, col: 29, offset: 91006},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18542,9 +18601,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2884, col: 8, offset: 91063},
+																pos: position{line: 2887, col: 8, offset: 91166},
 																expr: &anyMatcher{
-																	line: 2884, col: 9, offset: 91064,
+																	line: 2887, col: 9, offset: 91167,
 																},
 															},
 														},
@@ -18605,10 +18664,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 362, col: 39, offset: 11061},
 														expr: &actionExpr{
-															pos: position{line: 2865, col: 10, offset: 90715},
+															pos: position{line: 2868, col: 10, offset: 90818},
 															run: (*parser).callonDocumentHeader530,
 															expr: &charClassMatcher{
-																pos:        position{line: 2865, col: 10, offset: 90715},
+																pos:        position{line: 2868, col: 10, offset: 90818},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18617,28 +18676,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2887, col: 8, offset: 91113},
+														pos: position{line: 2890, col: 8, offset: 91216},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2874, col: 12, offset: 90886},
+																pos: position{line: 2877, col: 12, offset: 90989},
 																run: (*parser).callonDocumentHeader533,
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 13, offset: 90887},
+																	pos: position{line: 2877, col: 13, offset: 90990},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 13, offset: 90887},
+																			pos:        position{line: 2877, col: 13, offset: 90990},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 20, offset: 90894},
+																			pos:        position{line: 2877, col: 20, offset: 90997},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 29, offset: 90903},
+																			pos:        position{line: 2877, col: 29, offset: 91006},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18647,9 +18706,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2884, col: 8, offset: 91063},
+																pos: position{line: 2887, col: 8, offset: 91166},
 																expr: &anyMatcher{
-																	line: 2884, col: 9, offset: 91064,
+																	line: 2887, col: 9, offset: 91167,
 																},
 															},
 														},
@@ -18658,36 +18717,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2475, col: 22, offset: 79658},
+											pos: position{line: 2478, col: 22, offset: 79761},
 											run: (*parser).callonDocumentHeader540,
 											expr: &seqExpr{
-												pos: position{line: 2475, col: 22, offset: 79658},
+												pos: position{line: 2478, col: 22, offset: 79761},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2480, col: 31, offset: 79879},
+														pos:        position{line: 2483, col: 31, offset: 79982},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2480, col: 36, offset: 79884},
+														pos: position{line: 2483, col: 36, offset: 79987},
 														expr: &litMatcher{
-															pos:        position{line: 2480, col: 37, offset: 79885},
+															pos:        position{line: 2483, col: 37, offset: 79988},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2475, col: 49, offset: 79685},
+														pos:   position{line: 2478, col: 49, offset: 79788},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2811, col: 13, offset: 89241},
+															pos: position{line: 2814, col: 13, offset: 89344},
 															run: (*parser).callonDocumentHeader546,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2811, col: 13, offset: 89241},
+																pos: position{line: 2814, col: 13, offset: 89344},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2811, col: 13, offset: 89241},
+																	pos:        position{line: 2814, col: 13, offset: 89344},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18697,28 +18756,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2887, col: 8, offset: 91113},
+														pos: position{line: 2890, col: 8, offset: 91216},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2874, col: 12, offset: 90886},
+																pos: position{line: 2877, col: 12, offset: 90989},
 																run: (*parser).callonDocumentHeader550,
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 13, offset: 90887},
+																	pos: position{line: 2877, col: 13, offset: 90990},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 13, offset: 90887},
+																			pos:        position{line: 2877, col: 13, offset: 90990},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 20, offset: 90894},
+																			pos:        position{line: 2877, col: 20, offset: 90997},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 29, offset: 90903},
+																			pos:        position{line: 2877, col: 29, offset: 91006},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18727,9 +18786,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2884, col: 8, offset: 91063},
+																pos: position{line: 2887, col: 8, offset: 91166},
 																expr: &anyMatcher{
-																	line: 2884, col: 9, offset: 91064,
+																	line: 2887, col: 9, offset: 91167,
 																},
 															},
 														},
@@ -18738,39 +18797,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 823, col: 5, offset: 26427},
 											run: (*parser).callonDocumentHeader557,
 											expr: &seqExpr{
-												pos: position{line: 820, col: 5, offset: 26324},
+												pos: position{line: 823, col: 5, offset: 26427},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 820, col: 5, offset: 26324},
+														pos:   position{line: 823, col: 5, offset: 26427},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 740, col: 5, offset: 23584},
+															pos: position{line: 743, col: 5, offset: 23687},
 															run: (*parser).callonDocumentHeader560,
 															expr: &seqExpr{
-																pos: position{line: 740, col: 5, offset: 23584},
+																pos: position{line: 743, col: 5, offset: 23687},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 740, col: 5, offset: 23584},
+																		pos:   position{line: 743, col: 5, offset: 23687},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 740, col: 16, offset: 23595},
+																			pos: position{line: 743, col: 16, offset: 23698},
 																			run: (*parser).callonDocumentHeader563,
 																			expr: &seqExpr{
-																				pos: position{line: 740, col: 16, offset: 23595},
+																				pos: position{line: 743, col: 16, offset: 23698},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 740, col: 16, offset: 23595},
+																						pos:        position{line: 743, col: 16, offset: 23698},
 																						val:        "////",
 																						ignoreCase: false,
 																						want:       "\"////\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 740, col: 23, offset: 23602},
+																						pos: position{line: 743, col: 23, offset: 23705},
 																						expr: &litMatcher{
-																							pos:        position{line: 740, col: 23, offset: 23602},
+																							pos:        position{line: 743, col: 23, offset: 23705},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -18781,12 +18840,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 742, col: 8, offset: 23686},
+																		pos: position{line: 745, col: 8, offset: 23789},
 																		expr: &actionExpr{
-																			pos: position{line: 2865, col: 10, offset: 90715},
+																			pos: position{line: 2868, col: 10, offset: 90818},
 																			run: (*parser).callonDocumentHeader569,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 10, offset: 90715},
+																				pos:        position{line: 2868, col: 10, offset: 90818},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -18795,28 +18854,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2887, col: 8, offset: 91113},
+																		pos: position{line: 2890, col: 8, offset: 91216},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2874, col: 12, offset: 90886},
+																				pos: position{line: 2877, col: 12, offset: 90989},
 																				run: (*parser).callonDocumentHeader572,
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 13, offset: 90887},
+																					pos: position{line: 2877, col: 13, offset: 90990},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 13, offset: 90887},
+																							pos:        position{line: 2877, col: 13, offset: 90990},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 20, offset: 90894},
+																							pos:        position{line: 2877, col: 20, offset: 90997},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 29, offset: 90903},
+																							pos:        position{line: 2877, col: 29, offset: 91006},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18825,9 +18884,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2884, col: 8, offset: 91063},
+																				pos: position{line: 2887, col: 8, offset: 91166},
 																				expr: &anyMatcher{
-																					line: 2884, col: 9, offset: 91064,
+																					line: 2887, col: 9, offset: 91167,
 																				},
 																			},
 																		},
@@ -18837,56 +18896,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 821, col: 5, offset: 26363},
+														pos: position{line: 824, col: 5, offset: 26466},
 														run: (*parser).callonDocumentHeader579,
 													},
 													&labeledExpr{
-														pos:   position{line: 824, col: 5, offset: 26455},
+														pos:   position{line: 827, col: 5, offset: 26558},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 839, col: 5, offset: 26853},
+															pos: position{line: 842, col: 5, offset: 26956},
 															expr: &actionExpr{
-																pos: position{line: 839, col: 6, offset: 26854},
+																pos: position{line: 842, col: 6, offset: 26957},
 																run: (*parser).callonDocumentHeader582,
 																expr: &seqExpr{
-																	pos: position{line: 839, col: 6, offset: 26854},
+																	pos: position{line: 842, col: 6, offset: 26957},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 839, col: 6, offset: 26854},
+																			pos: position{line: 842, col: 6, offset: 26957},
 																			expr: &choiceExpr{
-																				pos: position{line: 832, col: 5, offset: 26695},
+																				pos: position{line: 835, col: 5, offset: 26798},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 832, col: 5, offset: 26695},
+																						pos: position{line: 835, col: 5, offset: 26798},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 832, col: 5, offset: 26695},
+																								pos:   position{line: 835, col: 5, offset: 26798},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 5, offset: 23584},
+																									pos: position{line: 743, col: 5, offset: 23687},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 5, offset: 23584},
+																										pos: position{line: 743, col: 5, offset: 23687},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 740, col: 5, offset: 23584},
+																												pos:   position{line: 743, col: 5, offset: 23687},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 740, col: 16, offset: 23595},
+																													pos: position{line: 743, col: 16, offset: 23698},
 																													run: (*parser).callonDocumentHeader591,
 																													expr: &seqExpr{
-																														pos: position{line: 740, col: 16, offset: 23595},
+																														pos: position{line: 743, col: 16, offset: 23698},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 740, col: 16, offset: 23595},
+																																pos:        position{line: 743, col: 16, offset: 23698},
 																																val:        "////",
 																																ignoreCase: false,
 																																want:       "\"////\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 740, col: 23, offset: 23602},
+																																pos: position{line: 743, col: 23, offset: 23705},
 																																expr: &litMatcher{
-																																	pos:        position{line: 740, col: 23, offset: 23602},
+																																	pos:        position{line: 743, col: 23, offset: 23705},
 																																	val:        "/",
 																																	ignoreCase: false,
 																																	want:       "\"/\"",
@@ -18897,12 +18956,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 742, col: 8, offset: 23686},
+																												pos: position{line: 745, col: 8, offset: 23789},
 																												expr: &actionExpr{
-																													pos: position{line: 2865, col: 10, offset: 90715},
+																													pos: position{line: 2868, col: 10, offset: 90818},
 																													run: (*parser).callonDocumentHeader597,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2865, col: 10, offset: 90715},
+																														pos:        position{line: 2868, col: 10, offset: 90818},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -18911,28 +18970,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2887, col: 8, offset: 91113},
+																												pos: position{line: 2890, col: 8, offset: 91216},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2874, col: 12, offset: 90886},
+																														pos: position{line: 2877, col: 12, offset: 90989},
 																														run: (*parser).callonDocumentHeader600,
 																														expr: &choiceExpr{
-																															pos: position{line: 2874, col: 13, offset: 90887},
+																															pos: position{line: 2877, col: 13, offset: 90990},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 13, offset: 90887},
+																																	pos:        position{line: 2877, col: 13, offset: 90990},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 20, offset: 90894},
+																																	pos:        position{line: 2877, col: 20, offset: 90997},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2874, col: 29, offset: 90903},
+																																	pos:        position{line: 2877, col: 29, offset: 91006},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -18941,9 +19000,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2884, col: 8, offset: 91063},
+																														pos: position{line: 2887, col: 8, offset: 91166},
 																														expr: &anyMatcher{
-																															line: 2884, col: 9, offset: 91064,
+																															line: 2887, col: 9, offset: 91167,
 																														},
 																													},
 																												},
@@ -18953,45 +19012,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 833, col: 5, offset: 26726},
+																								pos: position{line: 836, col: 5, offset: 26829},
 																								run: (*parser).callonDocumentHeader607,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2884, col: 8, offset: 91063},
+																						pos: position{line: 2887, col: 8, offset: 91166},
 																						expr: &anyMatcher{
-																							line: 2884, col: 9, offset: 91064,
+																							line: 2887, col: 9, offset: 91167,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 840, col: 5, offset: 26884},
+																			pos:   position{line: 843, col: 5, offset: 26987},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 814, col: 5, offset: 26191},
 																				run: (*parser).callonDocumentHeader611,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26088},
+																					pos: position{line: 814, col: 5, offset: 26191},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2882, col: 11, offset: 91049},
+																							pos: position{line: 2885, col: 11, offset: 91152},
 																							expr: &anyMatcher{
-																								line: 2882, col: 13, offset: 91051,
+																								line: 2885, col: 13, offset: 91154,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 812, col: 5, offset: 26163},
+																							pos:   position{line: 815, col: 5, offset: 26266},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2811, col: 13, offset: 89241},
+																								pos: position{line: 2814, col: 13, offset: 89344},
 																								run: (*parser).callonDocumentHeader616,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2811, col: 13, offset: 89241},
+																									pos: position{line: 2814, col: 13, offset: 89344},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2811, col: 13, offset: 89241},
+																										pos:        position{line: 2814, col: 13, offset: 89344},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19001,28 +19060,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonDocumentHeader620,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19031,9 +19090,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -19048,44 +19107,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 825, col: 5, offset: 26489},
+														pos:   position{line: 828, col: 5, offset: 26592},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 825, col: 9, offset: 26493},
+															pos: position{line: 828, col: 9, offset: 26596},
 															expr: &choiceExpr{
-																pos: position{line: 832, col: 5, offset: 26695},
+																pos: position{line: 835, col: 5, offset: 26798},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 832, col: 5, offset: 26695},
+																		pos: position{line: 835, col: 5, offset: 26798},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 832, col: 5, offset: 26695},
+																				pos:   position{line: 835, col: 5, offset: 26798},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 743, col: 5, offset: 23687},
 																					run: (*parser).callonDocumentHeader632,
 																					expr: &seqExpr{
-																						pos: position{line: 740, col: 5, offset: 23584},
+																						pos: position{line: 743, col: 5, offset: 23687},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 740, col: 5, offset: 23584},
+																								pos:   position{line: 743, col: 5, offset: 23687},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 743, col: 16, offset: 23698},
 																									run: (*parser).callonDocumentHeader635,
 																									expr: &seqExpr{
-																										pos: position{line: 740, col: 16, offset: 23595},
+																										pos: position{line: 743, col: 16, offset: 23698},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 740, col: 16, offset: 23595},
+																												pos:        position{line: 743, col: 16, offset: 23698},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 740, col: 23, offset: 23602},
+																												pos: position{line: 743, col: 23, offset: 23705},
 																												expr: &litMatcher{
-																													pos:        position{line: 740, col: 23, offset: 23602},
+																													pos:        position{line: 743, col: 23, offset: 23705},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -19096,12 +19155,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 742, col: 8, offset: 23686},
+																								pos: position{line: 745, col: 8, offset: 23789},
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 10, offset: 90715},
+																									pos: position{line: 2868, col: 10, offset: 90818},
 																									run: (*parser).callonDocumentHeader641,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2865, col: 10, offset: 90715},
+																										pos:        position{line: 2868, col: 10, offset: 90818},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -19110,28 +19169,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2887, col: 8, offset: 91113},
+																								pos: position{line: 2890, col: 8, offset: 91216},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2874, col: 12, offset: 90886},
+																										pos: position{line: 2877, col: 12, offset: 90989},
 																										run: (*parser).callonDocumentHeader644,
 																										expr: &choiceExpr{
-																											pos: position{line: 2874, col: 13, offset: 90887},
+																											pos: position{line: 2877, col: 13, offset: 90990},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 13, offset: 90887},
+																													pos:        position{line: 2877, col: 13, offset: 90990},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 20, offset: 90894},
+																													pos:        position{line: 2877, col: 20, offset: 90997},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 29, offset: 90903},
+																													pos:        position{line: 2877, col: 29, offset: 91006},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -19140,9 +19199,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2884, col: 8, offset: 91063},
+																										pos: position{line: 2887, col: 8, offset: 91166},
 																										expr: &anyMatcher{
-																											line: 2884, col: 9, offset: 91064,
+																											line: 2887, col: 9, offset: 91167,
 																										},
 																									},
 																								},
@@ -19152,15 +19211,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 833, col: 5, offset: 26726},
+																				pos: position{line: 836, col: 5, offset: 26829},
 																				run: (*parser).callonDocumentHeader651,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2884, col: 8, offset: 91063},
+																		pos: position{line: 2887, col: 8, offset: 91166},
 																		expr: &anyMatcher{
-																			line: 2884, col: 9, offset: 91064,
+																			line: 2887, col: 9, offset: 91167,
 																		},
 																	},
 																},
@@ -19180,26 +19239,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1124, col: 1, offset: 34695},
+			pos:  position{line: 1127, col: 1, offset: 34798},
 			expr: &actionExpr{
-				pos: position{line: 1125, col: 5, offset: 34717},
+				pos: position{line: 1128, col: 5, offset: 34820},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1125, col: 5, offset: 34717},
+					pos: position{line: 1128, col: 5, offset: 34820},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1125, col: 5, offset: 34717},
+							pos:        position{line: 1128, col: 5, offset: 34820},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2869, col: 11, offset: 90776},
+							pos: position{line: 2872, col: 11, offset: 90879},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2869, col: 11, offset: 90776},
+								pos: position{line: 2872, col: 11, offset: 90879},
 								expr: &charClassMatcher{
-									pos:        position{line: 2869, col: 11, offset: 90776},
+									pos:        position{line: 2872, col: 11, offset: 90879},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19208,36 +19267,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1125, col: 16, offset: 34728},
+							pos:   position{line: 1128, col: 16, offset: 34831},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1125, col: 23, offset: 34735},
+								pos:  position{line: 1128, col: 23, offset: 34838},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2887, col: 8, offset: 91113},
+							pos: position{line: 2890, col: 8, offset: 91216},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2874, col: 12, offset: 90886},
+									pos: position{line: 2877, col: 12, offset: 90989},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2874, col: 13, offset: 90887},
+										pos: position{line: 2877, col: 13, offset: 90990},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2874, col: 13, offset: 90887},
+												pos:        position{line: 2877, col: 13, offset: 90990},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2874, col: 20, offset: 90894},
+												pos:        position{line: 2877, col: 20, offset: 90997},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2874, col: 29, offset: 90903},
+												pos:        position{line: 2877, col: 29, offset: 91006},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19246,9 +19305,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2884, col: 8, offset: 91063},
+									pos: position{line: 2887, col: 8, offset: 91166},
 									expr: &anyMatcher{
-										line: 2884, col: 9, offset: 91064,
+										line: 2887, col: 9, offset: 91167,
 									},
 								},
 							},
@@ -19259,23 +19318,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1152, col: 1, offset: 35575},
+			pos:  position{line: 1155, col: 1, offset: 35678},
 			expr: &actionExpr{
-				pos: position{line: 1153, col: 5, offset: 35606},
+				pos: position{line: 1156, col: 5, offset: 35709},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1153, col: 5, offset: 35606},
+					pos: position{line: 1156, col: 5, offset: 35709},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1153, col: 5, offset: 35606},
+							pos:   position{line: 1156, col: 5, offset: 35709},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1153, col: 12, offset: 35613},
+								pos: position{line: 1156, col: 12, offset: 35716},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1153, col: 12, offset: 35613},
+									pos: position{line: 1156, col: 12, offset: 35716},
 									expr: &charClassMatcher{
-										pos:        position{line: 1153, col: 12, offset: 35613},
+										pos:        position{line: 1156, col: 12, offset: 35716},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -19285,12 +19344,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1156, col: 5, offset: 35693},
+							pos: position{line: 1159, col: 5, offset: 35796},
 							expr: &actionExpr{
-								pos: position{line: 2865, col: 10, offset: 90715},
+								pos: position{line: 2868, col: 10, offset: 90818},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2865, col: 10, offset: 90715},
+									pos:        position{line: 2868, col: 10, offset: 90818},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19299,17 +19358,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1157, col: 5, offset: 35704},
+							pos:   position{line: 1160, col: 5, offset: 35807},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1157, col: 11, offset: 35710},
+								pos: position{line: 1160, col: 11, offset: 35813},
 								expr: &actionExpr{
-									pos: position{line: 1157, col: 12, offset: 35711},
+									pos: position{line: 1160, col: 12, offset: 35814},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1157, col: 12, offset: 35711},
+										pos: position{line: 1160, col: 12, offset: 35814},
 										expr: &charClassMatcher{
-											pos:        position{line: 1157, col: 12, offset: 35711},
+											pos:        position{line: 1160, col: 12, offset: 35814},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -19320,12 +19379,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1160, col: 5, offset: 35792},
+							pos: position{line: 1163, col: 5, offset: 35895},
 							expr: &actionExpr{
-								pos: position{line: 2865, col: 10, offset: 90715},
+								pos: position{line: 2868, col: 10, offset: 90818},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2865, col: 10, offset: 90715},
+									pos:        position{line: 2868, col: 10, offset: 90818},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19334,17 +19393,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1161, col: 5, offset: 35803},
+							pos:   position{line: 1164, col: 5, offset: 35906},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1161, col: 11, offset: 35809},
+								pos: position{line: 1164, col: 11, offset: 35912},
 								expr: &actionExpr{
-									pos: position{line: 1161, col: 12, offset: 35810},
+									pos: position{line: 1164, col: 12, offset: 35913},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1161, col: 12, offset: 35810},
+										pos: position{line: 1164, col: 12, offset: 35913},
 										expr: &charClassMatcher{
-											pos:        position{line: 1161, col: 12, offset: 35810},
+											pos:        position{line: 1164, col: 12, offset: 35913},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -19355,12 +19414,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1164, col: 5, offset: 35889},
+							pos: position{line: 1167, col: 5, offset: 35992},
 							expr: &actionExpr{
-								pos: position{line: 2865, col: 10, offset: 90715},
+								pos: position{line: 2868, col: 10, offset: 90818},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2865, col: 10, offset: 90715},
+									pos:        position{line: 2868, col: 10, offset: 90818},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19374,28 +19433,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1277, col: 1, offset: 39618},
+			pos:  position{line: 1280, col: 1, offset: 39721},
 			expr: &actionExpr{
-				pos: position{line: 1278, col: 5, offset: 39639},
+				pos: position{line: 1281, col: 5, offset: 39742},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1278, col: 5, offset: 39639},
+					pos: position{line: 1281, col: 5, offset: 39742},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1278, col: 5, offset: 39639},
+							pos: position{line: 1281, col: 5, offset: 39742},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1281, col: 5, offset: 39698},
+							pos:        position{line: 1284, col: 5, offset: 39801},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1281, col: 12, offset: 39705},
+							pos:   position{line: 1284, col: 12, offset: 39808},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1281, col: 24, offset: 39717},
+								pos:  position{line: 1284, col: 24, offset: 39820},
 								name: "InlineAttributes",
 							},
 						},
@@ -19405,33 +19464,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1288, col: 1, offset: 40005},
+			pos:  position{line: 1291, col: 1, offset: 40108},
 			expr: &actionExpr{
-				pos: position{line: 1289, col: 5, offset: 40024},
+				pos: position{line: 1292, col: 5, offset: 40127},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1289, col: 5, offset: 40024},
+					pos: position{line: 1292, col: 5, offset: 40127},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1289, col: 5, offset: 40024},
+							pos: position{line: 1292, col: 5, offset: 40127},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1292, col: 5, offset: 40083},
+							pos:        position{line: 1295, col: 5, offset: 40186},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1292, col: 13, offset: 40091},
+							pos:   position{line: 1295, col: 13, offset: 40194},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2850, col: 7, offset: 90367},
+								pos: position{line: 2853, col: 7, offset: 90470},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2850, col: 7, offset: 90367},
+									pos: position{line: 2853, col: 7, offset: 90470},
 									expr: &charClassMatcher{
-										pos:        position{line: 2850, col: 7, offset: 90367},
+										pos:        position{line: 2853, col: 7, offset: 90470},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19441,10 +19500,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1292, col: 21, offset: 40099},
+							pos:   position{line: 1295, col: 21, offset: 40202},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1292, col: 33, offset: 40111},
+								pos:  position{line: 1295, col: 33, offset: 40214},
 								name: "InlineAttributes",
 							},
 						},
@@ -19454,29 +19513,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1299, col: 1, offset: 40410},
+			pos:  position{line: 1302, col: 1, offset: 40513},
 			expr: &actionExpr{
-				pos: position{line: 1299, col: 14, offset: 40423},
+				pos: position{line: 1302, col: 14, offset: 40526},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1299, col: 14, offset: 40423},
+					pos: position{line: 1302, col: 14, offset: 40526},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1299, col: 14, offset: 40423},
+							pos:        position{line: 1302, col: 14, offset: 40526},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1299, col: 19, offset: 40428},
+							pos:   position{line: 1302, col: 19, offset: 40531},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1299, col: 25, offset: 40434},
+								pos:  position{line: 1302, col: 25, offset: 40537},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1299, col: 43, offset: 40452},
+							pos:        position{line: 1302, col: 43, offset: 40555},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19487,25 +19546,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1303, col: 1, offset: 40521},
+			pos:  position{line: 1306, col: 1, offset: 40624},
 			expr: &actionExpr{
-				pos: position{line: 1303, col: 21, offset: 40541},
+				pos: position{line: 1306, col: 21, offset: 40644},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1303, col: 21, offset: 40541},
+					pos:   position{line: 1306, col: 21, offset: 40644},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1303, col: 30, offset: 40550},
+						pos: position{line: 1306, col: 30, offset: 40653},
 						expr: &choiceExpr{
-							pos: position{line: 1303, col: 31, offset: 40551},
+							pos: position{line: 1306, col: 31, offset: 40654},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2759, col: 14, offset: 87884},
+									pos: position{line: 2762, col: 14, offset: 87987},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2759, col: 14, offset: 87884},
+										pos: position{line: 2762, col: 14, offset: 87987},
 										expr: &charClassMatcher{
-											pos:        position{line: 2759, col: 14, offset: 87884},
+											pos:        position{line: 2762, col: 14, offset: 87987},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19514,14 +19573,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1303, col: 43, offset: 40563},
+									pos:  position{line: 1306, col: 43, offset: 40666},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2865, col: 10, offset: 90715},
+									pos: position{line: 2868, col: 10, offset: 90818},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2865, col: 10, offset: 90715},
+										pos:        position{line: 2868, col: 10, offset: 90818},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19529,23 +19588,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2462, col: 5, offset: 79204},
+									pos: position{line: 2465, col: 5, offset: 79307},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2462, col: 5, offset: 79204},
+										pos: position{line: 2465, col: 5, offset: 79307},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2462, col: 5, offset: 79204},
+												pos: position{line: 2465, col: 5, offset: 79307},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2465, col: 5, offset: 79280},
+												pos:   position{line: 2468, col: 5, offset: 79383},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2466, col: 9, offset: 79298},
+													pos: position{line: 2469, col: 9, offset: 79401},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2466, col: 10, offset: 79299},
+														pos:        position{line: 2469, col: 10, offset: 79402},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19557,27 +19616,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1210, col: 23, offset: 37374},
+									pos: position{line: 1213, col: 23, offset: 37477},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1210, col: 23, offset: 37374},
+										pos: position{line: 1213, col: 23, offset: 37477},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1208, col: 32, offset: 37342},
+												pos:        position{line: 1211, col: 32, offset: 37445},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1210, col: 51, offset: 37402},
+												pos:   position{line: 1213, col: 51, offset: 37505},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1210, col: 56, offset: 37407},
+													pos: position{line: 1213, col: 56, offset: 37510},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1210, col: 56, offset: 37407},
+														pos: position{line: 1213, col: 56, offset: 37510},
 														expr: &charClassMatcher{
-															pos:        position{line: 1210, col: 56, offset: 37407},
+															pos:        position{line: 1213, col: 56, offset: 37510},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -19587,7 +19646,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1208, col: 32, offset: 37342},
+												pos:        position{line: 1211, col: 32, offset: 37445},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
@@ -19596,22 +19655,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1303, col: 104, offset: 40624},
+									pos: position{line: 1306, col: 104, offset: 40727},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1303, col: 105, offset: 40625},
+										pos: position{line: 1306, col: 105, offset: 40728},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1303, col: 105, offset: 40625},
+												pos: position{line: 1306, col: 105, offset: 40728},
 												expr: &litMatcher{
-													pos:        position{line: 1303, col: 106, offset: 40626},
+													pos:        position{line: 1306, col: 106, offset: 40729},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1303, col: 111, offset: 40631,
+												line: 1306, col: 111, offset: 40734,
 											},
 										},
 									},
@@ -19624,65 +19683,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1323, col: 1, offset: 41340},
+			pos:  position{line: 1326, col: 1, offset: 41443},
 			expr: &actionExpr{
-				pos: position{line: 1324, col: 5, offset: 41359},
+				pos: position{line: 1327, col: 5, offset: 41462},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1324, col: 5, offset: 41359},
+					pos: position{line: 1327, col: 5, offset: 41462},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1324, col: 5, offset: 41359},
+							pos:        position{line: 1327, col: 5, offset: 41462},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1324, col: 15, offset: 41369},
+							pos:   position{line: 1327, col: 15, offset: 41472},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2823, col: 13, offset: 89474},
+								pos: position{line: 2826, col: 13, offset: 89577},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2823, col: 13, offset: 89474},
+									pos: position{line: 2826, col: 13, offset: 89577},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2823, col: 13, offset: 89474},
+											pos:   position{line: 2826, col: 13, offset: 89577},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2823, col: 20, offset: 89481},
+												pos: position{line: 2826, col: 20, offset: 89584},
 												expr: &actionExpr{
-													pos: position{line: 2831, col: 11, offset: 89720},
+													pos: position{line: 2834, col: 11, offset: 89823},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2831, col: 12, offset: 89721},
+														pos: position{line: 2834, col: 12, offset: 89824},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2831, col: 12, offset: 89721},
+																pos:        position{line: 2834, col: 12, offset: 89824},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2831, col: 24, offset: 89733},
+																pos:        position{line: 2834, col: 24, offset: 89836},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2831, col: 37, offset: 89746},
+																pos:        position{line: 2834, col: 37, offset: 89849},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2831, col: 48, offset: 89757},
+																pos:        position{line: 2834, col: 48, offset: 89860},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2831, col: 59, offset: 89768},
+																pos:        position{line: 2834, col: 59, offset: 89871},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19693,38 +19752,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2823, col: 30, offset: 89491},
+											pos:   position{line: 2826, col: 30, offset: 89594},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2836, col: 5, offset: 89832},
+												pos: position{line: 2839, col: 5, offset: 89935},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2836, col: 5, offset: 89832},
+													pos:   position{line: 2839, col: 5, offset: 89935},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2836, col: 14, offset: 89841},
+														pos: position{line: 2839, col: 14, offset: 89944},
 														expr: &choiceExpr{
-															pos: position{line: 2837, col: 9, offset: 89851},
+															pos: position{line: 2840, col: 9, offset: 89954},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2837, col: 9, offset: 89851},
+																	pos: position{line: 2840, col: 9, offset: 89954},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2837, col: 9, offset: 89851},
+																		pos: position{line: 2840, col: 9, offset: 89954},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2837, col: 9, offset: 89851},
+																				pos: position{line: 2840, col: 9, offset: 89954},
 																				expr: &litMatcher{
-																					pos:        position{line: 2837, col: 10, offset: 89852},
+																					pos:        position{line: 2840, col: 10, offset: 89955},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2838, col: 9, offset: 89880},
+																				pos: position{line: 2841, col: 9, offset: 89983},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2838, col: 10, offset: 89881},
+																					pos:        position{line: 2841, col: 10, offset: 89984},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19735,27 +19794,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2841, col: 11, offset: 90093},
+																	pos: position{line: 2844, col: 11, offset: 90196},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2841, col: 11, offset: 90093},
+																			pos:        position{line: 2844, col: 11, offset: 90196},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2841, col: 19, offset: 90101},
+																			pos: position{line: 2844, col: 19, offset: 90204},
 																			expr: &seqExpr{
-																				pos: position{line: 2841, col: 21, offset: 90103},
+																				pos: position{line: 2844, col: 21, offset: 90206},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2841, col: 21, offset: 90103},
+																						pos: position{line: 2844, col: 21, offset: 90206},
 																						expr: &actionExpr{
-																							pos: position{line: 2865, col: 10, offset: 90715},
+																							pos: position{line: 2868, col: 10, offset: 90818},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2865, col: 10, offset: 90715},
+																								pos:        position{line: 2868, col: 10, offset: 90818},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19764,11 +19823,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2841, col: 28, offset: 90110},
+																						pos: position{line: 2844, col: 28, offset: 90213},
 																						expr: &notExpr{
-																							pos: position{line: 2884, col: 8, offset: 91063},
+																							pos: position{line: 2887, col: 8, offset: 91166},
 																							expr: &anyMatcher{
-																								line: 2884, col: 9, offset: 91064,
+																								line: 2887, col: 9, offset: 91167,
 																							},
 																						},
 																					},
@@ -19778,35 +19837,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 636, col: 5, offset: 20109},
+																	pos: position{line: 639, col: 5, offset: 20212},
 																	run: (*parser).callonImageBlock37,
 																	expr: &seqExpr{
-																		pos: position{line: 636, col: 5, offset: 20109},
+																		pos: position{line: 639, col: 5, offset: 20212},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 639, col: 5, offset: 20212},
 																				run: (*parser).callonImageBlock39,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 639, col: 5, offset: 20181},
+																				pos:   position{line: 642, col: 5, offset: 20284},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 639, col: 14, offset: 20190},
+																					pos: position{line: 642, col: 14, offset: 20293},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 648, col: 5, offset: 20422},
 																							run: (*parser).callonImageBlock42,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20319},
+																								pos: position{line: 648, col: 5, offset: 20422},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20319},
+																										pos:        position{line: 648, col: 5, offset: 20422},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20327},
+																										pos:   position{line: 648, col: 13, offset: 20430},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -19838,7 +19897,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20346},
+																										pos:        position{line: 648, col: 32, offset: 20449},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19847,19 +19906,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 655, col: 5, offset: 20690},
 																							run: (*parser).callonImageBlock52,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20587},
+																								pos: position{line: 655, col: 5, offset: 20690},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20587},
+																										pos:        position{line: 655, col: 5, offset: 20690},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20591},
+																										pos:   position{line: 655, col: 9, offset: 20694},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -19891,7 +19950,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20610},
+																										pos:        position{line: 655, col: 28, offset: 20713},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19900,19 +19959,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 658, col: 25, offset: 20791},
+																							pos: position{line: 661, col: 25, offset: 20894},
 																							run: (*parser).callonImageBlock62,
 																							expr: &seqExpr{
-																								pos: position{line: 658, col: 25, offset: 20791},
+																								pos: position{line: 661, col: 25, offset: 20894},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 658, col: 25, offset: 20791},
+																										pos:        position{line: 661, col: 25, offset: 20894},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 37, offset: 20803},
+																										pos:   position{line: 661, col: 37, offset: 20906},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -19944,33 +20003,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 56, offset: 20822},
+																										pos:   position{line: 661, col: 56, offset: 20925},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 658, col: 62, offset: 20828},
+																											pos: position{line: 661, col: 62, offset: 20931},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21123},
+																												pos: position{line: 669, col: 17, offset: 21226},
 																												run: (*parser).callonImageBlock73,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21123},
+																													pos: position{line: 669, col: 17, offset: 21226},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21123},
+																															pos:        position{line: 669, col: 17, offset: 21226},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21127},
+																															pos:   position{line: 669, col: 21, offset: 21230},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 669, col: 28, offset: 21237},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 669, col: 28, offset: 21237},
 																																		run: (*parser).callonImageBlock78,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21134},
+																																			pos:        position{line: 669, col: 28, offset: 21237},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -19978,12 +20037,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21188},
+																																		pos: position{line: 671, col: 9, offset: 21291},
 																																		run: (*parser).callonImageBlock80,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21188},
+																																			pos: position{line: 671, col: 9, offset: 21291},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21188},
+																																				pos:        position{line: 671, col: 9, offset: 21291},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20000,7 +20059,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 658, col: 78, offset: 20844},
+																										pos:        position{line: 661, col: 78, offset: 20947},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20009,19 +20068,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 662, col: 25, offset: 20962},
+																							pos: position{line: 665, col: 25, offset: 21065},
 																							run: (*parser).callonImageBlock84,
 																							expr: &seqExpr{
-																								pos: position{line: 662, col: 25, offset: 20962},
+																								pos: position{line: 665, col: 25, offset: 21065},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 662, col: 25, offset: 20962},
+																										pos:        position{line: 665, col: 25, offset: 21065},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 38, offset: 20975},
+																										pos:   position{line: 665, col: 38, offset: 21078},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20053,33 +20112,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 57, offset: 20994},
+																										pos:   position{line: 665, col: 57, offset: 21097},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 662, col: 63, offset: 21000},
+																											pos: position{line: 665, col: 63, offset: 21103},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21123},
+																												pos: position{line: 669, col: 17, offset: 21226},
 																												run: (*parser).callonImageBlock95,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21123},
+																													pos: position{line: 669, col: 17, offset: 21226},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21123},
+																															pos:        position{line: 669, col: 17, offset: 21226},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21127},
+																															pos:   position{line: 669, col: 21, offset: 21230},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 669, col: 28, offset: 21237},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 669, col: 28, offset: 21237},
 																																		run: (*parser).callonImageBlock100,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21134},
+																																			pos:        position{line: 669, col: 28, offset: 21237},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20087,12 +20146,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21188},
+																																		pos: position{line: 671, col: 9, offset: 21291},
 																																		run: (*parser).callonImageBlock102,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21188},
+																																			pos: position{line: 671, col: 9, offset: 21291},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21188},
+																																				pos:        position{line: 671, col: 9, offset: 21291},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20109,7 +20168,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 662, col: 79, offset: 21016},
+																										pos:        position{line: 665, col: 79, offset: 21119},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20124,27 +20183,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1210, col: 23, offset: 37374},
+																	pos: position{line: 1213, col: 23, offset: 37477},
 																	run: (*parser).callonImageBlock106,
 																	expr: &seqExpr{
-																		pos: position{line: 1210, col: 23, offset: 37374},
+																		pos: position{line: 1213, col: 23, offset: 37477},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1208, col: 32, offset: 37342},
+																				pos:        position{line: 1211, col: 32, offset: 37445},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1210, col: 51, offset: 37402},
+																				pos:   position{line: 1213, col: 51, offset: 37505},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1210, col: 56, offset: 37407},
+																					pos: position{line: 1213, col: 56, offset: 37510},
 																					run: (*parser).callonImageBlock110,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1210, col: 56, offset: 37407},
+																						pos: position{line: 1213, col: 56, offset: 37510},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1210, col: 56, offset: 37407},
+																							pos:        position{line: 1213, col: 56, offset: 37510},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20154,7 +20213,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1208, col: 32, offset: 37342},
+																				pos:        position{line: 1211, col: 32, offset: 37445},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20163,10 +20222,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2844, col: 11, offset: 90230},
+																	pos: position{line: 2847, col: 11, offset: 90333},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2844, col: 11, offset: 90230},
+																		pos:        position{line: 2847, col: 11, offset: 90333},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20183,20 +20242,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1324, col: 31, offset: 41385},
+							pos:   position{line: 1327, col: 31, offset: 41488},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1324, col: 43, offset: 41397},
+								pos:  position{line: 1327, col: 43, offset: 41500},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1324, col: 61, offset: 41415},
+							pos: position{line: 1327, col: 61, offset: 41518},
 							expr: &actionExpr{
-								pos: position{line: 2865, col: 10, offset: 90715},
+								pos: position{line: 2868, col: 10, offset: 90818},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2865, col: 10, offset: 90715},
+									pos:        position{line: 2868, col: 10, offset: 90818},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20205,28 +20264,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2887, col: 8, offset: 91113},
+							pos: position{line: 2890, col: 8, offset: 91216},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2874, col: 12, offset: 90886},
+									pos: position{line: 2877, col: 12, offset: 90989},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2874, col: 13, offset: 90887},
+										pos: position{line: 2877, col: 13, offset: 90990},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2874, col: 13, offset: 90887},
+												pos:        position{line: 2877, col: 13, offset: 90990},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2874, col: 20, offset: 90894},
+												pos:        position{line: 2877, col: 20, offset: 90997},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2874, col: 29, offset: 90903},
+												pos:        position{line: 2877, col: 29, offset: 91006},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20235,9 +20294,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2884, col: 8, offset: 91063},
+									pos: position{line: 2887, col: 8, offset: 91166},
 									expr: &anyMatcher{
-										line: 2884, col: 9, offset: 91064,
+										line: 2887, col: 9, offset: 91167,
 									},
 								},
 							},
@@ -20248,74 +20307,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1329, col: 1, offset: 41632},
+			pos:  position{line: 1332, col: 1, offset: 41735},
 			expr: &actionExpr{
-				pos: position{line: 1329, col: 16, offset: 41647},
+				pos: position{line: 1332, col: 16, offset: 41750},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1329, col: 16, offset: 41647},
+					pos: position{line: 1332, col: 16, offset: 41750},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1329, col: 16, offset: 41647},
+							pos:        position{line: 1332, col: 16, offset: 41750},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1329, col: 25, offset: 41656},
+							pos: position{line: 1332, col: 25, offset: 41759},
 							expr: &litMatcher{
-								pos:        position{line: 1329, col: 26, offset: 41657},
+								pos:        position{line: 1332, col: 26, offset: 41760},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1329, col: 30, offset: 41661},
+							pos:   position{line: 1332, col: 30, offset: 41764},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2823, col: 13, offset: 89474},
+								pos: position{line: 2826, col: 13, offset: 89577},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2823, col: 13, offset: 89474},
+									pos: position{line: 2826, col: 13, offset: 89577},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2823, col: 13, offset: 89474},
+											pos:   position{line: 2826, col: 13, offset: 89577},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2823, col: 20, offset: 89481},
+												pos: position{line: 2826, col: 20, offset: 89584},
 												expr: &actionExpr{
-													pos: position{line: 2831, col: 11, offset: 89720},
+													pos: position{line: 2834, col: 11, offset: 89823},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2831, col: 12, offset: 89721},
+														pos: position{line: 2834, col: 12, offset: 89824},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2831, col: 12, offset: 89721},
+																pos:        position{line: 2834, col: 12, offset: 89824},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2831, col: 24, offset: 89733},
+																pos:        position{line: 2834, col: 24, offset: 89836},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2831, col: 37, offset: 89746},
+																pos:        position{line: 2834, col: 37, offset: 89849},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2831, col: 48, offset: 89757},
+																pos:        position{line: 2834, col: 48, offset: 89860},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2831, col: 59, offset: 89768},
+																pos:        position{line: 2834, col: 59, offset: 89871},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20326,38 +20385,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2823, col: 30, offset: 89491},
+											pos:   position{line: 2826, col: 30, offset: 89594},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2836, col: 5, offset: 89832},
+												pos: position{line: 2839, col: 5, offset: 89935},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2836, col: 5, offset: 89832},
+													pos:   position{line: 2839, col: 5, offset: 89935},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2836, col: 14, offset: 89841},
+														pos: position{line: 2839, col: 14, offset: 89944},
 														expr: &choiceExpr{
-															pos: position{line: 2837, col: 9, offset: 89851},
+															pos: position{line: 2840, col: 9, offset: 89954},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2837, col: 9, offset: 89851},
+																	pos: position{line: 2840, col: 9, offset: 89954},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2837, col: 9, offset: 89851},
+																		pos: position{line: 2840, col: 9, offset: 89954},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2837, col: 9, offset: 89851},
+																				pos: position{line: 2840, col: 9, offset: 89954},
 																				expr: &litMatcher{
-																					pos:        position{line: 2837, col: 10, offset: 89852},
+																					pos:        position{line: 2840, col: 10, offset: 89955},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2838, col: 9, offset: 89880},
+																				pos: position{line: 2841, col: 9, offset: 89983},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2838, col: 10, offset: 89881},
+																					pos:        position{line: 2841, col: 10, offset: 89984},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20368,27 +20427,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2841, col: 11, offset: 90093},
+																	pos: position{line: 2844, col: 11, offset: 90196},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2841, col: 11, offset: 90093},
+																			pos:        position{line: 2844, col: 11, offset: 90196},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2841, col: 19, offset: 90101},
+																			pos: position{line: 2844, col: 19, offset: 90204},
 																			expr: &seqExpr{
-																				pos: position{line: 2841, col: 21, offset: 90103},
+																				pos: position{line: 2844, col: 21, offset: 90206},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2841, col: 21, offset: 90103},
+																						pos: position{line: 2844, col: 21, offset: 90206},
 																						expr: &actionExpr{
-																							pos: position{line: 2865, col: 10, offset: 90715},
+																							pos: position{line: 2868, col: 10, offset: 90818},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2865, col: 10, offset: 90715},
+																								pos:        position{line: 2868, col: 10, offset: 90818},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20397,11 +20456,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2841, col: 28, offset: 90110},
+																						pos: position{line: 2844, col: 28, offset: 90213},
 																						expr: &notExpr{
-																							pos: position{line: 2884, col: 8, offset: 91063},
+																							pos: position{line: 2887, col: 8, offset: 91166},
 																							expr: &anyMatcher{
-																								line: 2884, col: 9, offset: 91064,
+																								line: 2887, col: 9, offset: 91167,
 																							},
 																						},
 																					},
@@ -20411,35 +20470,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 636, col: 5, offset: 20109},
+																	pos: position{line: 639, col: 5, offset: 20212},
 																	run: (*parser).callonInlineImage39,
 																	expr: &seqExpr{
-																		pos: position{line: 636, col: 5, offset: 20109},
+																		pos: position{line: 639, col: 5, offset: 20212},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 639, col: 5, offset: 20212},
 																				run: (*parser).callonInlineImage41,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 639, col: 5, offset: 20181},
+																				pos:   position{line: 642, col: 5, offset: 20284},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 639, col: 14, offset: 20190},
+																					pos: position{line: 642, col: 14, offset: 20293},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 645, col: 5, offset: 20319},
+																							pos: position{line: 648, col: 5, offset: 20422},
 																							run: (*parser).callonInlineImage44,
 																							expr: &seqExpr{
-																								pos: position{line: 645, col: 5, offset: 20319},
+																								pos: position{line: 648, col: 5, offset: 20422},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 645, col: 5, offset: 20319},
+																										pos:        position{line: 648, col: 5, offset: 20422},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 645, col: 13, offset: 20327},
+																										pos:   position{line: 648, col: 13, offset: 20430},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20471,7 +20530,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 645, col: 32, offset: 20346},
+																										pos:        position{line: 648, col: 32, offset: 20449},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20480,19 +20539,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 652, col: 5, offset: 20587},
+																							pos: position{line: 655, col: 5, offset: 20690},
 																							run: (*parser).callonInlineImage54,
 																							expr: &seqExpr{
-																								pos: position{line: 652, col: 5, offset: 20587},
+																								pos: position{line: 655, col: 5, offset: 20690},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 652, col: 5, offset: 20587},
+																										pos:        position{line: 655, col: 5, offset: 20690},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 652, col: 9, offset: 20591},
+																										pos:   position{line: 655, col: 9, offset: 20694},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20524,7 +20583,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 652, col: 28, offset: 20610},
+																										pos:        position{line: 655, col: 28, offset: 20713},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20533,19 +20592,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 658, col: 25, offset: 20791},
+																							pos: position{line: 661, col: 25, offset: 20894},
 																							run: (*parser).callonInlineImage64,
 																							expr: &seqExpr{
-																								pos: position{line: 658, col: 25, offset: 20791},
+																								pos: position{line: 661, col: 25, offset: 20894},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 658, col: 25, offset: 20791},
+																										pos:        position{line: 661, col: 25, offset: 20894},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 37, offset: 20803},
+																										pos:   position{line: 661, col: 37, offset: 20906},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20577,33 +20636,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 658, col: 56, offset: 20822},
+																										pos:   position{line: 661, col: 56, offset: 20925},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 658, col: 62, offset: 20828},
+																											pos: position{line: 661, col: 62, offset: 20931},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21123},
+																												pos: position{line: 669, col: 17, offset: 21226},
 																												run: (*parser).callonInlineImage75,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21123},
+																													pos: position{line: 669, col: 17, offset: 21226},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21123},
+																															pos:        position{line: 669, col: 17, offset: 21226},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21127},
+																															pos:   position{line: 669, col: 21, offset: 21230},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 669, col: 28, offset: 21237},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 669, col: 28, offset: 21237},
 																																		run: (*parser).callonInlineImage80,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21134},
+																																			pos:        position{line: 669, col: 28, offset: 21237},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20611,12 +20670,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21188},
+																																		pos: position{line: 671, col: 9, offset: 21291},
 																																		run: (*parser).callonInlineImage82,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21188},
+																																			pos: position{line: 671, col: 9, offset: 21291},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21188},
+																																				pos:        position{line: 671, col: 9, offset: 21291},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20633,7 +20692,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 658, col: 78, offset: 20844},
+																										pos:        position{line: 661, col: 78, offset: 20947},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20642,19 +20701,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 662, col: 25, offset: 20962},
+																							pos: position{line: 665, col: 25, offset: 21065},
 																							run: (*parser).callonInlineImage86,
 																							expr: &seqExpr{
-																								pos: position{line: 662, col: 25, offset: 20962},
+																								pos: position{line: 665, col: 25, offset: 21065},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 662, col: 25, offset: 20962},
+																										pos:        position{line: 665, col: 25, offset: 21065},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 38, offset: 20975},
+																										pos:   position{line: 665, col: 38, offset: 21078},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20686,33 +20745,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 57, offset: 20994},
+																										pos:   position{line: 665, col: 57, offset: 21097},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 662, col: 63, offset: 21000},
+																											pos: position{line: 665, col: 63, offset: 21103},
 																											expr: &actionExpr{
-																												pos: position{line: 666, col: 17, offset: 21123},
+																												pos: position{line: 669, col: 17, offset: 21226},
 																												run: (*parser).callonInlineImage97,
 																												expr: &seqExpr{
-																													pos: position{line: 666, col: 17, offset: 21123},
+																													pos: position{line: 669, col: 17, offset: 21226},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 666, col: 17, offset: 21123},
+																															pos:        position{line: 669, col: 17, offset: 21226},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 666, col: 21, offset: 21127},
+																															pos:   position{line: 669, col: 21, offset: 21230},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 669, col: 28, offset: 21237},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 669, col: 28, offset: 21237},
 																																		run: (*parser).callonInlineImage102,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 666, col: 28, offset: 21134},
+																																			pos:        position{line: 669, col: 28, offset: 21237},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20720,12 +20779,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 668, col: 9, offset: 21188},
+																																		pos: position{line: 671, col: 9, offset: 21291},
 																																		run: (*parser).callonInlineImage104,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 668, col: 9, offset: 21188},
+																																			pos: position{line: 671, col: 9, offset: 21291},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 668, col: 9, offset: 21188},
+																																				pos:        position{line: 671, col: 9, offset: 21291},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20742,7 +20801,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 662, col: 79, offset: 21016},
+																										pos:        position{line: 665, col: 79, offset: 21119},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20757,27 +20816,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1210, col: 23, offset: 37374},
+																	pos: position{line: 1213, col: 23, offset: 37477},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1210, col: 23, offset: 37374},
+																		pos: position{line: 1213, col: 23, offset: 37477},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1208, col: 32, offset: 37342},
+																				pos:        position{line: 1211, col: 32, offset: 37445},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1210, col: 51, offset: 37402},
+																				pos:   position{line: 1213, col: 51, offset: 37505},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1210, col: 56, offset: 37407},
+																					pos: position{line: 1213, col: 56, offset: 37510},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1210, col: 56, offset: 37407},
+																						pos: position{line: 1213, col: 56, offset: 37510},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1210, col: 56, offset: 37407},
+																							pos:        position{line: 1213, col: 56, offset: 37510},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20787,7 +20846,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1208, col: 32, offset: 37342},
+																				pos:        position{line: 1211, col: 32, offset: 37445},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20796,10 +20855,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2844, col: 11, offset: 90230},
+																	pos: position{line: 2847, col: 11, offset: 90333},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2844, col: 11, offset: 90230},
+																		pos:        position{line: 2847, col: 11, offset: 90333},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20816,10 +20875,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1329, col: 46, offset: 41677},
+							pos:   position{line: 1332, col: 46, offset: 41780},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1329, col: 58, offset: 41689},
+								pos:  position{line: 1332, col: 58, offset: 41792},
 								name: "InlineAttributes",
 							},
 						},
@@ -20829,29 +20888,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1336, col: 1, offset: 42085},
+			pos:  position{line: 1339, col: 1, offset: 42188},
 			expr: &actionExpr{
-				pos: position{line: 1336, col: 15, offset: 42099},
+				pos: position{line: 1339, col: 15, offset: 42202},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1336, col: 15, offset: 42099},
+					pos: position{line: 1339, col: 15, offset: 42202},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1336, col: 15, offset: 42099},
+							pos:        position{line: 1339, col: 15, offset: 42202},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1336, col: 23, offset: 42107},
+							pos:   position{line: 1339, col: 23, offset: 42210},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1336, col: 29, offset: 42113},
+								pos: position{line: 1339, col: 29, offset: 42216},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1336, col: 29, offset: 42113},
+									pos: position{line: 1339, col: 29, offset: 42216},
 									expr: &charClassMatcher{
-										pos:        position{line: 1336, col: 29, offset: 42113},
+										pos:        position{line: 1339, col: 29, offset: 42216},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20862,10 +20921,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1336, col: 73, offset: 42157},
+							pos:   position{line: 1339, col: 73, offset: 42260},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1336, col: 85, offset: 42169},
+								pos:  position{line: 1339, col: 85, offset: 42272},
 								name: "InlineAttributes",
 							},
 						},
@@ -20875,31 +20934,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1343, col: 1, offset: 42535},
+			pos:  position{line: 1346, col: 1, offset: 42638},
 			expr: &actionExpr{
-				pos: position{line: 1343, col: 19, offset: 42553},
+				pos: position{line: 1346, col: 19, offset: 42656},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1343, col: 19, offset: 42553},
+					pos: position{line: 1346, col: 19, offset: 42656},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1343, col: 19, offset: 42553},
+							pos:        position{line: 1346, col: 19, offset: 42656},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1343, col: 31, offset: 42565},
+							pos:   position{line: 1346, col: 31, offset: 42668},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1343, col: 35, offset: 42569},
+								pos: position{line: 1346, col: 35, offset: 42672},
 								expr: &actionExpr{
-									pos: position{line: 2759, col: 14, offset: 87884},
+									pos: position{line: 2762, col: 14, offset: 87987},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2759, col: 14, offset: 87884},
+										pos: position{line: 2762, col: 14, offset: 87987},
 										expr: &charClassMatcher{
-											pos:        position{line: 2759, col: 14, offset: 87884},
+											pos:        position{line: 2762, col: 14, offset: 87987},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20910,21 +20969,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1343, col: 50, offset: 42584},
+							pos:        position{line: 1346, col: 50, offset: 42687},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1343, col: 54, offset: 42588},
+							pos:   position{line: 1346, col: 54, offset: 42691},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1343, col: 64, offset: 42598},
+								pos:  position{line: 1346, col: 64, offset: 42701},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1343, col: 82, offset: 42616},
+							pos:        position{line: 1346, col: 82, offset: 42719},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20935,17 +20994,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1349, col: 1, offset: 42773},
+			pos:  position{line: 1352, col: 1, offset: 42876},
 			expr: &actionExpr{
-				pos: position{line: 1349, col: 21, offset: 42793},
+				pos: position{line: 1352, col: 21, offset: 42896},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1349, col: 21, offset: 42793},
+					pos:   position{line: 1352, col: 21, offset: 42896},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1349, col: 30, offset: 42802},
+						pos: position{line: 1352, col: 30, offset: 42905},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1349, col: 31, offset: 42803},
+							pos:  position{line: 1352, col: 31, offset: 42906},
 							name: "FootnoteElement",
 						},
 					},
@@ -20954,44 +21013,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1353, col: 1, offset: 42895},
+			pos:  position{line: 1356, col: 1, offset: 42998},
 			expr: &actionExpr{
-				pos: position{line: 1354, col: 5, offset: 42919},
+				pos: position{line: 1357, col: 5, offset: 43022},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1354, col: 5, offset: 42919},
+					pos: position{line: 1357, col: 5, offset: 43022},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1354, col: 5, offset: 42919},
+							pos: position{line: 1357, col: 5, offset: 43022},
 							expr: &litMatcher{
-								pos:        position{line: 1354, col: 6, offset: 42920},
+								pos:        position{line: 1357, col: 6, offset: 43023},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1355, col: 5, offset: 42929},
+							pos:   position{line: 1358, col: 5, offset: 43032},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1356, col: 9, offset: 42947},
+								pos: position{line: 1359, col: 9, offset: 43050},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2764, col: 5, offset: 87957},
+										pos: position{line: 2767, col: 5, offset: 88060},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2764, col: 5, offset: 87957},
+											pos: position{line: 2767, col: 5, offset: 88060},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2764, col: 5, offset: 87957},
+													pos:   position{line: 2767, col: 5, offset: 88060},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2764, col: 11, offset: 87963},
+														pos: position{line: 2767, col: 11, offset: 88066},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2764, col: 11, offset: 87963},
+															pos: position{line: 2767, col: 11, offset: 88066},
 															expr: &charClassMatcher{
-																pos:        position{line: 2764, col: 11, offset: 87963},
+																pos:        position{line: 2767, col: 11, offset: 88066},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21001,36 +21060,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2767, col: 5, offset: 88021},
+													pos: position{line: 2770, col: 5, offset: 88124},
 													expr: &seqExpr{
-														pos: position{line: 2768, col: 9, offset: 88032},
+														pos: position{line: 2771, col: 9, offset: 88135},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2768, col: 9, offset: 88032},
+																pos:        position{line: 2771, col: 9, offset: 88135},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2769, col: 9, offset: 88081},
+																pos: position{line: 2772, col: 9, offset: 88184},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2773, col: 5, offset: 88161},
+													pos: position{line: 2776, col: 5, offset: 88264},
 													expr: &seqExpr{
-														pos: position{line: 2774, col: 9, offset: 88172},
+														pos: position{line: 2777, col: 9, offset: 88275},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2774, col: 9, offset: 88172},
+																pos:        position{line: 2777, col: 9, offset: 88275},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2774, col: 13, offset: 88176},
+																pos:        position{line: 2777, col: 13, offset: 88279},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21043,12 +21102,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2869, col: 11, offset: 90776},
+										pos: position{line: 2872, col: 11, offset: 90879},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2869, col: 11, offset: 90776},
+											pos: position{line: 2872, col: 11, offset: 90879},
 											expr: &charClassMatcher{
-												pos:        position{line: 2869, col: 11, offset: 90776},
+												pos:        position{line: 2872, col: 11, offset: 90879},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21057,21 +21116,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2493, col: 5, offset: 80375},
+										pos: position{line: 2496, col: 5, offset: 80478},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2493, col: 5, offset: 80375},
+											pos: position{line: 2496, col: 5, offset: 80478},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2493, col: 5, offset: 80375},
+													pos:        position{line: 2496, col: 5, offset: 80478},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2493, col: 10, offset: 80380},
+													pos: position{line: 2496, col: 10, offset: 80483},
 													expr: &charClassMatcher{
-														pos:        position{line: 2493, col: 11, offset: 80381},
+														pos:        position{line: 2496, col: 11, offset: 80484},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21082,29 +21141,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2499, col: 5, offset: 80573},
+										pos: position{line: 2502, col: 5, offset: 80676},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2499, col: 5, offset: 80573},
+											pos: position{line: 2502, col: 5, offset: 80676},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2499, col: 5, offset: 80573},
+													pos: position{line: 2502, col: 5, offset: 80676},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2502, col: 5, offset: 80644},
+													pos: position{line: 2505, col: 5, offset: 80747},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2506, col: 5, offset: 80769},
+													pos:        position{line: 2509, col: 5, offset: 80872},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2506, col: 9, offset: 80773},
+													pos: position{line: 2509, col: 9, offset: 80876},
 													expr: &charClassMatcher{
-														pos:        position{line: 2506, col: 10, offset: 80774},
+														pos:        position{line: 2509, col: 10, offset: 80877},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21115,35 +21174,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1359, col: 11, offset: 43014},
+										pos:  position{line: 1362, col: 11, offset: 43117},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1360, col: 11, offset: 43030},
+										pos:  position{line: 1363, col: 11, offset: 43133},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2782, col: 5, offset: 88369},
+										pos: position{line: 2785, col: 5, offset: 88472},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2783, col: 9, offset: 88379},
+											pos: position{line: 2786, col: 9, offset: 88482},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2783, col: 10, offset: 88380},
+													pos:        position{line: 2786, col: 10, offset: 88483},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2785, col: 13, offset: 88477},
+													pos: position{line: 2788, col: 13, offset: 88580},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2785, col: 13, offset: 88477},
+															pos: position{line: 2788, col: 13, offset: 88580},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2788, col: 13, offset: 88577},
+															pos:        position{line: 2791, col: 13, offset: 88680},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21151,20 +21210,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2788, col: 19, offset: 88583},
+													pos:        position{line: 2791, col: 19, offset: 88686},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2791, col: 13, offset: 88621},
+													pos: position{line: 2794, col: 13, offset: 88724},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2791, col: 13, offset: 88621},
+															pos: position{line: 2794, col: 13, offset: 88724},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2794, col: 14, offset: 88714},
+															pos:        position{line: 2797, col: 14, offset: 88817},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21173,18 +21232,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2796, col: 12, offset: 88758},
+													pos: position{line: 2799, col: 12, offset: 88861},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2796, col: 12, offset: 88758},
+															pos:        position{line: 2799, col: 12, offset: 88861},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2796, col: 16, offset: 88762},
+															pos: position{line: 2799, col: 16, offset: 88865},
 															expr: &litMatcher{
-																pos:        position{line: 2796, col: 17, offset: 88763},
+																pos:        position{line: 2799, col: 17, offset: 88866},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21196,36 +21255,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1362, col: 11, offset: 43103},
+										pos:  position{line: 1365, col: 11, offset: 43206},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1218, col: 5, offset: 37820},
+										pos: position{line: 1221, col: 5, offset: 37923},
 										run: (*parser).callonFootnoteElement53,
 										expr: &seqExpr{
-											pos: position{line: 1218, col: 5, offset: 37820},
+											pos: position{line: 1221, col: 5, offset: 37923},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1218, col: 5, offset: 37820},
+													pos: position{line: 1221, col: 5, offset: 37923},
 													run: (*parser).callonFootnoteElement55,
 												},
 												&litMatcher{
-													pos:        position{line: 1221, col: 5, offset: 37896},
+													pos:        position{line: 1224, col: 5, offset: 37999},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1222, col: 5, offset: 37904},
+													pos: position{line: 1225, col: 5, offset: 38007},
 													run: (*parser).callonFootnoteElement57,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1226, col: 5, offset: 37991},
+													pos: position{line: 1229, col: 5, offset: 38094},
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 10, offset: 90715},
+														pos: position{line: 2868, col: 10, offset: 90818},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2865, col: 10, offset: 90715},
+															pos:        position{line: 2868, col: 10, offset: 90818},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21234,30 +21293,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1226, col: 12, offset: 37998},
+													pos: position{line: 1229, col: 12, offset: 38101},
 													expr: &choiceExpr{
-														pos: position{line: 2887, col: 8, offset: 91113},
+														pos: position{line: 2890, col: 8, offset: 91216},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2874, col: 12, offset: 90886},
+																pos: position{line: 2877, col: 12, offset: 90989},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 13, offset: 90887},
+																	pos: position{line: 2877, col: 13, offset: 90990},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 13, offset: 90887},
+																			pos:        position{line: 2877, col: 13, offset: 90990},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 20, offset: 90894},
+																			pos:        position{line: 2877, col: 20, offset: 90997},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 29, offset: 90903},
+																			pos:        position{line: 2877, col: 29, offset: 91006},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21266,9 +21325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2884, col: 8, offset: 91063},
+																pos: position{line: 2887, col: 8, offset: 91166},
 																expr: &anyMatcher{
-																	line: 2884, col: 9, offset: 91064,
+																	line: 2887, col: 9, offset: 91167,
 																},
 															},
 														},
@@ -21278,35 +21337,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
+										pos: position{line: 639, col: 5, offset: 20212},
 										run: (*parser).callonFootnoteElement70,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 639, col: 5, offset: 20212},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20109},
+													pos: position{line: 639, col: 5, offset: 20212},
 													run: (*parser).callonFootnoteElement72,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20181},
+													pos:   position{line: 642, col: 5, offset: 20284},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20190},
+														pos: position{line: 642, col: 14, offset: 20293},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
+																pos: position{line: 648, col: 5, offset: 20422},
 																run: (*parser).callonFootnoteElement75,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 648, col: 5, offset: 20422},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20319},
+																			pos:        position{line: 648, col: 5, offset: 20422},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20327},
+																			pos:   position{line: 648, col: 13, offset: 20430},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -21338,7 +21397,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20346},
+																			pos:        position{line: 648, col: 32, offset: 20449},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21347,19 +21406,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
+																pos: position{line: 655, col: 5, offset: 20690},
 																run: (*parser).callonFootnoteElement85,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 655, col: 5, offset: 20690},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20587},
+																			pos:        position{line: 655, col: 5, offset: 20690},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20591},
+																			pos:   position{line: 655, col: 9, offset: 20694},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -21391,7 +21450,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20610},
+																			pos:        position{line: 655, col: 28, offset: 20713},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21400,19 +21459,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
+																pos: position{line: 661, col: 25, offset: 20894},
 																run: (*parser).callonFootnoteElement95,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 661, col: 25, offset: 20894},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20791},
+																			pos:        position{line: 661, col: 25, offset: 20894},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20803},
+																			pos:   position{line: 661, col: 37, offset: 20906},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -21444,33 +21503,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20822},
+																			pos:   position{line: 661, col: 56, offset: 20925},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20828},
+																				pos: position{line: 661, col: 62, offset: 20931},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 669, col: 17, offset: 21226},
 																					run: (*parser).callonFootnoteElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 669, col: 17, offset: 21226},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 669, col: 17, offset: 21226},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 669, col: 21, offset: 21230},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 669, col: 28, offset: 21237},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 669, col: 28, offset: 21237},
 																											run: (*parser).callonFootnoteElement111,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 669, col: 28, offset: 21237},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21478,12 +21537,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 671, col: 9, offset: 21291},
 																											run: (*parser).callonFootnoteElement113,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 671, col: 9, offset: 21291},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 671, col: 9, offset: 21291},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21500,7 +21559,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20844},
+																			pos:        position{line: 661, col: 78, offset: 20947},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21509,19 +21568,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
+																pos: position{line: 665, col: 25, offset: 21065},
 																run: (*parser).callonFootnoteElement117,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 665, col: 25, offset: 21065},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 20962},
+																			pos:        position{line: 665, col: 25, offset: 21065},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 20975},
+																			pos:   position{line: 665, col: 38, offset: 21078},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -21553,33 +21612,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 20994},
+																			pos:   position{line: 665, col: 57, offset: 21097},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21000},
+																				pos: position{line: 665, col: 63, offset: 21103},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 669, col: 17, offset: 21226},
 																					run: (*parser).callonFootnoteElement128,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 669, col: 17, offset: 21226},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 669, col: 17, offset: 21226},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 669, col: 21, offset: 21230},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 669, col: 28, offset: 21237},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 669, col: 28, offset: 21237},
 																											run: (*parser).callonFootnoteElement133,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 669, col: 28, offset: 21237},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21587,12 +21646,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 671, col: 9, offset: 21291},
 																											run: (*parser).callonFootnoteElement135,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 671, col: 9, offset: 21291},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 671, col: 9, offset: 21291},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21609,7 +21668,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21016},
+																			pos:        position{line: 665, col: 79, offset: 21119},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21624,23 +21683,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2462, col: 5, offset: 79204},
+										pos: position{line: 2465, col: 5, offset: 79307},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 5, offset: 79204},
+											pos: position{line: 2465, col: 5, offset: 79307},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2462, col: 5, offset: 79204},
+													pos: position{line: 2465, col: 5, offset: 79307},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2465, col: 5, offset: 79280},
+													pos:   position{line: 2468, col: 5, offset: 79383},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2466, col: 9, offset: 79298},
+														pos: position{line: 2469, col: 9, offset: 79401},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2466, col: 10, offset: 79299},
+															pos:        position{line: 2469, col: 10, offset: 79402},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21652,25 +21711,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2874, col: 12, offset: 90886},
+										pos: position{line: 2877, col: 12, offset: 90989},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2874, col: 13, offset: 90887},
+											pos: position{line: 2877, col: 13, offset: 90990},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2874, col: 13, offset: 90887},
+													pos:        position{line: 2877, col: 13, offset: 90990},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2874, col: 20, offset: 90894},
+													pos:        position{line: 2877, col: 20, offset: 90997},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2874, col: 29, offset: 90903},
+													pos:        position{line: 2877, col: 29, offset: 91006},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21679,10 +21738,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2804, col: 12, offset: 89023},
+										pos: position{line: 2807, col: 12, offset: 89126},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2804, col: 12, offset: 89023},
+											pos:        position{line: 2807, col: 12, offset: 89126},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21698,32 +21757,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1401, col: 1, offset: 44948},
+			pos:  position{line: 1404, col: 1, offset: 45051},
 			expr: &choiceExpr{
-				pos: position{line: 1401, col: 21, offset: 44968},
+				pos: position{line: 1404, col: 21, offset: 45071},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1401, col: 21, offset: 44968},
+						pos: position{line: 1404, col: 21, offset: 45071},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1401, col: 21, offset: 44968},
+							pos: position{line: 1404, col: 21, offset: 45071},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1401, col: 21, offset: 44968},
+									pos:        position{line: 1404, col: 21, offset: 45071},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1401, col: 30, offset: 44977},
+									pos:   position{line: 1404, col: 30, offset: 45080},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1401, col: 38, offset: 44985},
+										pos: position{line: 1404, col: 38, offset: 45088},
 										expr: &actionExpr{
-											pos: position{line: 1407, col: 30, offset: 45311},
+											pos: position{line: 1410, col: 30, offset: 45414},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1407, col: 30, offset: 45311},
+												pos:        position{line: 1410, col: 30, offset: 45414},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21733,7 +21792,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1401, col: 67, offset: 45014},
+									pos:        position{line: 1404, col: 67, offset: 45117},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21742,34 +21801,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1403, col: 9, offset: 45118},
+						pos: position{line: 1406, col: 9, offset: 45221},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1403, col: 9, offset: 45118},
+							pos: position{line: 1406, col: 9, offset: 45221},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1403, col: 9, offset: 45118},
+									pos:        position{line: 1406, col: 9, offset: 45221},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1403, col: 19, offset: 45128},
+									pos:   position{line: 1406, col: 19, offset: 45231},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1403, col: 27, offset: 45136},
+										pos: position{line: 1406, col: 27, offset: 45239},
 										expr: &choiceExpr{
-											pos: position{line: 1403, col: 28, offset: 45137},
+											pos: position{line: 1406, col: 28, offset: 45240},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1403, col: 28, offset: 45137},
+													pos:  position{line: 1406, col: 28, offset: 45240},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1407, col: 30, offset: 45311},
+													pos: position{line: 1410, col: 30, offset: 45414},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1407, col: 30, offset: 45311},
+														pos:        position{line: 1410, col: 30, offset: 45414},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -21781,7 +21840,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1403, col: 69, offset: 45178},
+									pos:        position{line: 1406, col: 69, offset: 45281},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21794,75 +21853,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1414, col: 1, offset: 45567},
+			pos:  position{line: 1417, col: 1, offset: 45670},
 			expr: &choiceExpr{
-				pos: position{line: 1414, col: 9, offset: 45575},
+				pos: position{line: 1417, col: 9, offset: 45678},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1417, col: 5, offset: 45644},
+						pos: position{line: 1420, col: 5, offset: 45747},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1417, col: 5, offset: 45644},
+							pos: position{line: 1420, col: 5, offset: 45747},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1417, col: 5, offset: 45644},
+									pos:        position{line: 1420, col: 5, offset: 45747},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1418, col: 5, offset: 45653},
+									pos:   position{line: 1421, col: 5, offset: 45756},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2827, col: 23, offset: 89601},
+										pos: position{line: 2830, col: 23, offset: 89704},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2827, col: 23, offset: 89601},
+											pos: position{line: 2830, col: 23, offset: 89704},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2827, col: 23, offset: 89601},
+													pos: position{line: 2830, col: 23, offset: 89704},
 													expr: &litMatcher{
-														pos:        position{line: 2827, col: 24, offset: 89602},
+														pos:        position{line: 2830, col: 24, offset: 89705},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2827, col: 28, offset: 89606},
+													pos:   position{line: 2830, col: 28, offset: 89709},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2831, col: 11, offset: 89720},
+														pos: position{line: 2834, col: 11, offset: 89823},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2831, col: 12, offset: 89721},
+															pos: position{line: 2834, col: 12, offset: 89824},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2831, col: 12, offset: 89721},
+																	pos:        position{line: 2834, col: 12, offset: 89824},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2831, col: 24, offset: 89733},
+																	pos:        position{line: 2834, col: 24, offset: 89836},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2831, col: 37, offset: 89746},
+																	pos:        position{line: 2834, col: 37, offset: 89849},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2831, col: 48, offset: 89757},
+																	pos:        position{line: 2834, col: 48, offset: 89860},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2831, col: 59, offset: 89768},
+																	pos:        position{line: 2834, col: 59, offset: 89871},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21872,38 +21931,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2827, col: 44, offset: 89622},
+													pos:   position{line: 2830, col: 44, offset: 89725},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2836, col: 5, offset: 89832},
+														pos: position{line: 2839, col: 5, offset: 89935},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2836, col: 5, offset: 89832},
+															pos:   position{line: 2839, col: 5, offset: 89935},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2836, col: 14, offset: 89841},
+																pos: position{line: 2839, col: 14, offset: 89944},
 																expr: &choiceExpr{
-																	pos: position{line: 2837, col: 9, offset: 89851},
+																	pos: position{line: 2840, col: 9, offset: 89954},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2837, col: 9, offset: 89851},
+																			pos: position{line: 2840, col: 9, offset: 89954},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2837, col: 9, offset: 89851},
+																				pos: position{line: 2840, col: 9, offset: 89954},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2837, col: 9, offset: 89851},
+																						pos: position{line: 2840, col: 9, offset: 89954},
 																						expr: &litMatcher{
-																							pos:        position{line: 2837, col: 10, offset: 89852},
+																							pos:        position{line: 2840, col: 10, offset: 89955},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2838, col: 9, offset: 89880},
+																						pos: position{line: 2841, col: 9, offset: 89983},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2838, col: 10, offset: 89881},
+																							pos:        position{line: 2841, col: 10, offset: 89984},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21914,27 +21973,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2841, col: 11, offset: 90093},
+																			pos: position{line: 2844, col: 11, offset: 90196},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2841, col: 11, offset: 90093},
+																					pos:        position{line: 2844, col: 11, offset: 90196},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2841, col: 19, offset: 90101},
+																					pos: position{line: 2844, col: 19, offset: 90204},
 																					expr: &seqExpr{
-																						pos: position{line: 2841, col: 21, offset: 90103},
+																						pos: position{line: 2844, col: 21, offset: 90206},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2841, col: 21, offset: 90103},
+																								pos: position{line: 2844, col: 21, offset: 90206},
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 10, offset: 90715},
+																									pos: position{line: 2868, col: 10, offset: 90818},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2865, col: 10, offset: 90715},
+																										pos:        position{line: 2868, col: 10, offset: 90818},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -21943,11 +22002,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2841, col: 28, offset: 90110},
+																								pos: position{line: 2844, col: 28, offset: 90213},
 																								expr: &notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -21957,35 +22016,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 639, col: 5, offset: 20212},
 																			run: (*parser).callonLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 639, col: 5, offset: 20212},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 639, col: 5, offset: 20212},
 																						run: (*parser).callonLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 642, col: 5, offset: 20284},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 642, col: 14, offset: 20293},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 648, col: 5, offset: 20422},
 																									run: (*parser).callonLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 648, col: 5, offset: 20422},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 648, col: 5, offset: 20422},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 648, col: 13, offset: 20430},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22017,7 +22076,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 648, col: 32, offset: 20449},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22026,19 +22085,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 655, col: 5, offset: 20690},
 																									run: (*parser).callonLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 655, col: 5, offset: 20690},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 655, col: 5, offset: 20690},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 655, col: 9, offset: 20694},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22070,7 +22129,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 655, col: 28, offset: 20713},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22079,19 +22138,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 661, col: 25, offset: 20894},
 																									run: (*parser).callonLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 661, col: 25, offset: 20894},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 661, col: 25, offset: 20894},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 661, col: 37, offset: 20906},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22123,33 +22182,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 661, col: 56, offset: 20925},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 661, col: 62, offset: 20931},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 669, col: 17, offset: 21226},
 																														run: (*parser).callonLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 669, col: 17, offset: 21226},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 669, col: 17, offset: 21226},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 669, col: 21, offset: 21230},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 669, col: 28, offset: 21237},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 669, col: 28, offset: 21237},
 																																				run: (*parser).callonLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 669, col: 28, offset: 21237},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22157,12 +22216,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 671, col: 9, offset: 21291},
 																																				run: (*parser).callonLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 671, col: 9, offset: 21291},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 671, col: 9, offset: 21291},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22179,7 +22238,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 661, col: 78, offset: 20947},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22188,19 +22247,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 665, col: 25, offset: 21065},
 																									run: (*parser).callonLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 665, col: 25, offset: 21065},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 665, col: 25, offset: 21065},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 665, col: 38, offset: 21078},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22232,33 +22291,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 665, col: 57, offset: 21097},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 665, col: 63, offset: 21103},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 669, col: 17, offset: 21226},
 																														run: (*parser).callonLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 669, col: 17, offset: 21226},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 669, col: 17, offset: 21226},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 669, col: 21, offset: 21230},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 669, col: 28, offset: 21237},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 669, col: 28, offset: 21237},
 																																				run: (*parser).callonLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 669, col: 28, offset: 21237},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22266,12 +22325,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 671, col: 9, offset: 21291},
 																																				run: (*parser).callonLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 671, col: 9, offset: 21291},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 671, col: 9, offset: 21291},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22288,7 +22347,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 665, col: 79, offset: 21119},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22303,27 +22362,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1210, col: 23, offset: 37374},
+																			pos: position{line: 1213, col: 23, offset: 37477},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1210, col: 23, offset: 37374},
+																				pos: position{line: 1213, col: 23, offset: 37477},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1208, col: 32, offset: 37342},
+																						pos:        position{line: 1211, col: 32, offset: 37445},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1210, col: 51, offset: 37402},
+																						pos:   position{line: 1213, col: 51, offset: 37505},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1210, col: 56, offset: 37407},
+																							pos: position{line: 1213, col: 56, offset: 37510},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1210, col: 56, offset: 37407},
+																								pos: position{line: 1213, col: 56, offset: 37510},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1210, col: 56, offset: 37407},
+																									pos:        position{line: 1213, col: 56, offset: 37510},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22333,7 +22392,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1208, col: 32, offset: 37342},
+																						pos:        position{line: 1211, col: 32, offset: 37445},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22342,10 +22401,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2844, col: 11, offset: 90230},
+																			pos: position{line: 2847, col: 11, offset: 90333},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2844, col: 11, offset: 90230},
+																				pos:        position{line: 2847, col: 11, offset: 90333},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22362,7 +22421,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1423, col: 5, offset: 45872},
+									pos:        position{line: 1426, col: 5, offset: 45975},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22371,38 +22430,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1414, col: 19, offset: 45585},
+						pos:  position{line: 1417, col: 19, offset: 45688},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1414, col: 34, offset: 45600},
+						pos:  position{line: 1417, col: 34, offset: 45703},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1452, col: 17, offset: 46865},
+						pos: position{line: 1455, col: 17, offset: 46968},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1452, col: 17, offset: 46865},
+							pos: position{line: 1455, col: 17, offset: 46968},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1452, col: 17, offset: 46865},
+									pos:   position{line: 1455, col: 17, offset: 46968},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1457, col: 5, offset: 47030},
+										pos: position{line: 1460, col: 5, offset: 47133},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1457, col: 5, offset: 47030},
+											pos: position{line: 1460, col: 5, offset: 47133},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1457, col: 5, offset: 47030},
+													pos:   position{line: 1460, col: 5, offset: 47133},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1457, col: 12, offset: 47037},
+														pos: position{line: 1460, col: 12, offset: 47140},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1457, col: 12, offset: 47037},
+															pos: position{line: 1460, col: 12, offset: 47140},
 															expr: &charClassMatcher{
-																pos:        position{line: 1457, col: 12, offset: 47037},
+																pos:        position{line: 1460, col: 12, offset: 47140},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22414,7 +22473,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1460, col: 5, offset: 47121},
+													pos: position{line: 1463, col: 5, offset: 47224},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -22422,33 +22481,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1452, col: 43, offset: 46891},
+									pos:        position{line: 1455, col: 43, offset: 46994},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1452, col: 47, offset: 46895},
+									pos:   position{line: 1455, col: 47, offset: 46998},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1469, col: 23, offset: 47415},
+										pos: position{line: 1472, col: 23, offset: 47518},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1469, col: 23, offset: 47415},
+											pos: position{line: 1472, col: 23, offset: 47518},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1469, col: 23, offset: 47415},
+													pos:   position{line: 1472, col: 23, offset: 47518},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1469, col: 31, offset: 47423},
+														pos: position{line: 1472, col: 31, offset: 47526},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1469, col: 31, offset: 47423},
+															pos: position{line: 1472, col: 31, offset: 47526},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1469, col: 31, offset: 47423},
+																	pos: position{line: 1472, col: 31, offset: 47526},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1469, col: 31, offset: 47423},
+																		pos:        position{line: 1472, col: 31, offset: 47526},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -22456,20 +22515,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1469, col: 41, offset: 47433},
+																	pos: position{line: 1472, col: 41, offset: 47536},
 																	expr: &seqExpr{
-																		pos: position{line: 1469, col: 42, offset: 47434},
+																		pos: position{line: 1472, col: 42, offset: 47537},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1469, col: 42, offset: 47434},
+																				pos:        position{line: 1472, col: 42, offset: 47537},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1469, col: 46, offset: 47438},
+																				pos: position{line: 1472, col: 46, offset: 47541},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1469, col: 46, offset: 47438},
+																					pos:        position{line: 1472, col: 46, offset: 47541},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22485,7 +22544,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1472, col: 5, offset: 47499},
+													pos: position{line: 1475, col: 5, offset: 47602},
 													run: (*parser).callonLink145,
 												},
 											},
@@ -22500,68 +22559,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1429, col: 1, offset: 46020},
+			pos:  position{line: 1432, col: 1, offset: 46123},
 			expr: &choiceExpr{
-				pos: position{line: 1431, col: 5, offset: 46056},
+				pos: position{line: 1434, col: 5, offset: 46159},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1431, col: 5, offset: 46056},
+						pos: position{line: 1434, col: 5, offset: 46159},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1431, col: 5, offset: 46056},
+							pos: position{line: 1434, col: 5, offset: 46159},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1431, col: 5, offset: 46056},
+									pos:        position{line: 1434, col: 5, offset: 46159},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1431, col: 17, offset: 46068},
+									pos:   position{line: 1434, col: 17, offset: 46171},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2823, col: 13, offset: 89474},
+										pos: position{line: 2826, col: 13, offset: 89577},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2823, col: 13, offset: 89474},
+											pos: position{line: 2826, col: 13, offset: 89577},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2823, col: 13, offset: 89474},
+													pos:   position{line: 2826, col: 13, offset: 89577},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2823, col: 20, offset: 89481},
+														pos: position{line: 2826, col: 20, offset: 89584},
 														expr: &actionExpr{
-															pos: position{line: 2831, col: 11, offset: 89720},
+															pos: position{line: 2834, col: 11, offset: 89823},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2831, col: 12, offset: 89721},
+																pos: position{line: 2834, col: 12, offset: 89824},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2831, col: 12, offset: 89721},
+																		pos:        position{line: 2834, col: 12, offset: 89824},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2831, col: 24, offset: 89733},
+																		pos:        position{line: 2834, col: 24, offset: 89836},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2831, col: 37, offset: 89746},
+																		pos:        position{line: 2834, col: 37, offset: 89849},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2831, col: 48, offset: 89757},
+																		pos:        position{line: 2834, col: 48, offset: 89860},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2831, col: 59, offset: 89768},
+																		pos:        position{line: 2834, col: 59, offset: 89871},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22572,38 +22631,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2823, col: 30, offset: 89491},
+													pos:   position{line: 2826, col: 30, offset: 89594},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2836, col: 5, offset: 89832},
+														pos: position{line: 2839, col: 5, offset: 89935},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2836, col: 5, offset: 89832},
+															pos:   position{line: 2839, col: 5, offset: 89935},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2836, col: 14, offset: 89841},
+																pos: position{line: 2839, col: 14, offset: 89944},
 																expr: &choiceExpr{
-																	pos: position{line: 2837, col: 9, offset: 89851},
+																	pos: position{line: 2840, col: 9, offset: 89954},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2837, col: 9, offset: 89851},
+																			pos: position{line: 2840, col: 9, offset: 89954},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2837, col: 9, offset: 89851},
+																				pos: position{line: 2840, col: 9, offset: 89954},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2837, col: 9, offset: 89851},
+																						pos: position{line: 2840, col: 9, offset: 89954},
 																						expr: &litMatcher{
-																							pos:        position{line: 2837, col: 10, offset: 89852},
+																							pos:        position{line: 2840, col: 10, offset: 89955},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2838, col: 9, offset: 89880},
+																						pos: position{line: 2841, col: 9, offset: 89983},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2838, col: 10, offset: 89881},
+																							pos:        position{line: 2841, col: 10, offset: 89984},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22614,27 +22673,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2841, col: 11, offset: 90093},
+																			pos: position{line: 2844, col: 11, offset: 90196},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2841, col: 11, offset: 90093},
+																					pos:        position{line: 2844, col: 11, offset: 90196},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2841, col: 19, offset: 90101},
+																					pos: position{line: 2844, col: 19, offset: 90204},
 																					expr: &seqExpr{
-																						pos: position{line: 2841, col: 21, offset: 90103},
+																						pos: position{line: 2844, col: 21, offset: 90206},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2841, col: 21, offset: 90103},
+																								pos: position{line: 2844, col: 21, offset: 90206},
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 10, offset: 90715},
+																									pos: position{line: 2868, col: 10, offset: 90818},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2865, col: 10, offset: 90715},
+																										pos:        position{line: 2868, col: 10, offset: 90818},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22643,11 +22702,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2841, col: 28, offset: 90110},
+																								pos: position{line: 2844, col: 28, offset: 90213},
 																								expr: &notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -22657,35 +22716,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 639, col: 5, offset: 20212},
 																			run: (*parser).callonRelativeLink38,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 639, col: 5, offset: 20212},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 639, col: 5, offset: 20212},
 																						run: (*parser).callonRelativeLink40,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 642, col: 5, offset: 20284},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 642, col: 14, offset: 20293},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 648, col: 5, offset: 20422},
 																									run: (*parser).callonRelativeLink43,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 648, col: 5, offset: 20422},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 648, col: 5, offset: 20422},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 648, col: 13, offset: 20430},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22717,7 +22776,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 648, col: 32, offset: 20449},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22726,19 +22785,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 655, col: 5, offset: 20690},
 																									run: (*parser).callonRelativeLink53,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 655, col: 5, offset: 20690},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 655, col: 5, offset: 20690},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 655, col: 9, offset: 20694},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22770,7 +22829,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 655, col: 28, offset: 20713},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22779,19 +22838,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 661, col: 25, offset: 20894},
 																									run: (*parser).callonRelativeLink63,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 661, col: 25, offset: 20894},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 661, col: 25, offset: 20894},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 661, col: 37, offset: 20906},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22823,33 +22882,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 661, col: 56, offset: 20925},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 661, col: 62, offset: 20931},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 669, col: 17, offset: 21226},
 																														run: (*parser).callonRelativeLink74,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 669, col: 17, offset: 21226},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 669, col: 17, offset: 21226},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 669, col: 21, offset: 21230},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 669, col: 28, offset: 21237},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 669, col: 28, offset: 21237},
 																																				run: (*parser).callonRelativeLink79,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 669, col: 28, offset: 21237},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22857,12 +22916,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 671, col: 9, offset: 21291},
 																																				run: (*parser).callonRelativeLink81,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 671, col: 9, offset: 21291},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 671, col: 9, offset: 21291},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22879,7 +22938,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 661, col: 78, offset: 20947},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22888,19 +22947,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 665, col: 25, offset: 21065},
 																									run: (*parser).callonRelativeLink85,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 665, col: 25, offset: 21065},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 665, col: 25, offset: 21065},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 665, col: 38, offset: 21078},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22932,33 +22991,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 665, col: 57, offset: 21097},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 665, col: 63, offset: 21103},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 669, col: 17, offset: 21226},
 																														run: (*parser).callonRelativeLink96,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 669, col: 17, offset: 21226},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 669, col: 17, offset: 21226},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 669, col: 21, offset: 21230},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 669, col: 28, offset: 21237},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 669, col: 28, offset: 21237},
 																																				run: (*parser).callonRelativeLink101,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 669, col: 28, offset: 21237},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22966,12 +23025,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 671, col: 9, offset: 21291},
 																																				run: (*parser).callonRelativeLink103,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 671, col: 9, offset: 21291},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 671, col: 9, offset: 21291},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22988,7 +23047,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 665, col: 79, offset: 21119},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23003,27 +23062,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1210, col: 23, offset: 37374},
+																			pos: position{line: 1213, col: 23, offset: 37477},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1210, col: 23, offset: 37374},
+																				pos: position{line: 1213, col: 23, offset: 37477},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1208, col: 32, offset: 37342},
+																						pos:        position{line: 1211, col: 32, offset: 37445},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1210, col: 51, offset: 37402},
+																						pos:   position{line: 1213, col: 51, offset: 37505},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1210, col: 56, offset: 37407},
+																							pos: position{line: 1213, col: 56, offset: 37510},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1210, col: 56, offset: 37407},
+																								pos: position{line: 1213, col: 56, offset: 37510},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1210, col: 56, offset: 37407},
+																									pos:        position{line: 1213, col: 56, offset: 37510},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23033,7 +23092,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1208, col: 32, offset: 37342},
+																						pos:        position{line: 1211, col: 32, offset: 37445},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23042,10 +23101,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2844, col: 11, offset: 90230},
+																			pos: position{line: 2847, col: 11, offset: 90333},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2844, col: 11, offset: 90230},
+																				pos:        position{line: 2847, col: 11, offset: 90333},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23062,10 +23121,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1431, col: 32, offset: 46083},
+									pos:   position{line: 1434, col: 32, offset: 46186},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1431, col: 44, offset: 46095},
+										pos:  position{line: 1434, col: 44, offset: 46198},
 										name: "InlineAttributes",
 									},
 								},
@@ -23073,63 +23132,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1436, col: 5, offset: 46227},
+						pos: position{line: 1439, col: 5, offset: 46330},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1436, col: 5, offset: 46227},
+							pos: position{line: 1439, col: 5, offset: 46330},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1436, col: 5, offset: 46227},
+									pos:        position{line: 1439, col: 5, offset: 46330},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1436, col: 13, offset: 46235},
+									pos:   position{line: 1439, col: 13, offset: 46338},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2823, col: 13, offset: 89474},
+										pos: position{line: 2826, col: 13, offset: 89577},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2823, col: 13, offset: 89474},
+											pos: position{line: 2826, col: 13, offset: 89577},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2823, col: 13, offset: 89474},
+													pos:   position{line: 2826, col: 13, offset: 89577},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2823, col: 20, offset: 89481},
+														pos: position{line: 2826, col: 20, offset: 89584},
 														expr: &actionExpr{
-															pos: position{line: 2831, col: 11, offset: 89720},
+															pos: position{line: 2834, col: 11, offset: 89823},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2831, col: 12, offset: 89721},
+																pos: position{line: 2834, col: 12, offset: 89824},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2831, col: 12, offset: 89721},
+																		pos:        position{line: 2834, col: 12, offset: 89824},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2831, col: 24, offset: 89733},
+																		pos:        position{line: 2834, col: 24, offset: 89836},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2831, col: 37, offset: 89746},
+																		pos:        position{line: 2834, col: 37, offset: 89849},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2831, col: 48, offset: 89757},
+																		pos:        position{line: 2834, col: 48, offset: 89860},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2831, col: 59, offset: 89768},
+																		pos:        position{line: 2834, col: 59, offset: 89871},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23140,38 +23199,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2823, col: 30, offset: 89491},
+													pos:   position{line: 2826, col: 30, offset: 89594},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2836, col: 5, offset: 89832},
+														pos: position{line: 2839, col: 5, offset: 89935},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2836, col: 5, offset: 89832},
+															pos:   position{line: 2839, col: 5, offset: 89935},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2836, col: 14, offset: 89841},
+																pos: position{line: 2839, col: 14, offset: 89944},
 																expr: &choiceExpr{
-																	pos: position{line: 2837, col: 9, offset: 89851},
+																	pos: position{line: 2840, col: 9, offset: 89954},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2837, col: 9, offset: 89851},
+																			pos: position{line: 2840, col: 9, offset: 89954},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2837, col: 9, offset: 89851},
+																				pos: position{line: 2840, col: 9, offset: 89954},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2837, col: 9, offset: 89851},
+																						pos: position{line: 2840, col: 9, offset: 89954},
 																						expr: &litMatcher{
-																							pos:        position{line: 2837, col: 10, offset: 89852},
+																							pos:        position{line: 2840, col: 10, offset: 89955},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2838, col: 9, offset: 89880},
+																						pos: position{line: 2841, col: 9, offset: 89983},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2838, col: 10, offset: 89881},
+																							pos:        position{line: 2841, col: 10, offset: 89984},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23182,27 +23241,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2841, col: 11, offset: 90093},
+																			pos: position{line: 2844, col: 11, offset: 90196},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2841, col: 11, offset: 90093},
+																					pos:        position{line: 2844, col: 11, offset: 90196},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2841, col: 19, offset: 90101},
+																					pos: position{line: 2844, col: 19, offset: 90204},
 																					expr: &seqExpr{
-																						pos: position{line: 2841, col: 21, offset: 90103},
+																						pos: position{line: 2844, col: 21, offset: 90206},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2841, col: 21, offset: 90103},
+																								pos: position{line: 2844, col: 21, offset: 90206},
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 10, offset: 90715},
+																									pos: position{line: 2868, col: 10, offset: 90818},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2865, col: 10, offset: 90715},
+																										pos:        position{line: 2868, col: 10, offset: 90818},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23211,11 +23270,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2841, col: 28, offset: 90110},
+																								pos: position{line: 2844, col: 28, offset: 90213},
 																								expr: &notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -23225,35 +23284,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 639, col: 5, offset: 20212},
 																			run: (*parser).callonRelativeLink155,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 639, col: 5, offset: 20212},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 639, col: 5, offset: 20212},
 																						run: (*parser).callonRelativeLink157,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 642, col: 5, offset: 20284},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 642, col: 14, offset: 20293},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 648, col: 5, offset: 20422},
 																									run: (*parser).callonRelativeLink160,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 648, col: 5, offset: 20422},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 648, col: 5, offset: 20422},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 648, col: 13, offset: 20430},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23285,7 +23344,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 648, col: 32, offset: 20449},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23294,19 +23353,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 655, col: 5, offset: 20690},
 																									run: (*parser).callonRelativeLink170,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 655, col: 5, offset: 20690},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 655, col: 5, offset: 20690},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 655, col: 9, offset: 20694},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23338,7 +23397,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 655, col: 28, offset: 20713},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23347,19 +23406,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 661, col: 25, offset: 20894},
 																									run: (*parser).callonRelativeLink180,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 661, col: 25, offset: 20894},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 661, col: 25, offset: 20894},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 661, col: 37, offset: 20906},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23391,33 +23450,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 661, col: 56, offset: 20925},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 661, col: 62, offset: 20931},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 669, col: 17, offset: 21226},
 																														run: (*parser).callonRelativeLink191,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 669, col: 17, offset: 21226},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 669, col: 17, offset: 21226},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 669, col: 21, offset: 21230},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 669, col: 28, offset: 21237},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 669, col: 28, offset: 21237},
 																																				run: (*parser).callonRelativeLink196,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 669, col: 28, offset: 21237},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23425,12 +23484,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 671, col: 9, offset: 21291},
 																																				run: (*parser).callonRelativeLink198,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 671, col: 9, offset: 21291},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 671, col: 9, offset: 21291},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23447,7 +23506,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 661, col: 78, offset: 20947},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23456,19 +23515,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 665, col: 25, offset: 21065},
 																									run: (*parser).callonRelativeLink202,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 665, col: 25, offset: 21065},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 665, col: 25, offset: 21065},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 665, col: 38, offset: 21078},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23500,33 +23559,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 665, col: 57, offset: 21097},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 665, col: 63, offset: 21103},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 669, col: 17, offset: 21226},
 																														run: (*parser).callonRelativeLink213,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 669, col: 17, offset: 21226},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 669, col: 17, offset: 21226},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 669, col: 21, offset: 21230},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 669, col: 28, offset: 21237},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 669, col: 28, offset: 21237},
 																																				run: (*parser).callonRelativeLink218,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 669, col: 28, offset: 21237},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23534,12 +23593,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 671, col: 9, offset: 21291},
 																																				run: (*parser).callonRelativeLink220,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 671, col: 9, offset: 21291},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 671, col: 9, offset: 21291},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23556,7 +23615,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 665, col: 79, offset: 21119},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23571,27 +23630,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1210, col: 23, offset: 37374},
+																			pos: position{line: 1213, col: 23, offset: 37477},
 																			run: (*parser).callonRelativeLink224,
 																			expr: &seqExpr{
-																				pos: position{line: 1210, col: 23, offset: 37374},
+																				pos: position{line: 1213, col: 23, offset: 37477},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1208, col: 32, offset: 37342},
+																						pos:        position{line: 1211, col: 32, offset: 37445},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1210, col: 51, offset: 37402},
+																						pos:   position{line: 1213, col: 51, offset: 37505},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1210, col: 56, offset: 37407},
+																							pos: position{line: 1213, col: 56, offset: 37510},
 																							run: (*parser).callonRelativeLink228,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1210, col: 56, offset: 37407},
+																								pos: position{line: 1213, col: 56, offset: 37510},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1210, col: 56, offset: 37407},
+																									pos:        position{line: 1213, col: 56, offset: 37510},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23601,7 +23660,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1208, col: 32, offset: 37342},
+																						pos:        position{line: 1211, col: 32, offset: 37445},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23610,10 +23669,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2844, col: 11, offset: 90230},
+																			pos: position{line: 2847, col: 11, offset: 90333},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2844, col: 11, offset: 90230},
+																				pos:        position{line: 2847, col: 11, offset: 90333},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23630,10 +23689,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1436, col: 28, offset: 46250},
+									pos:   position{line: 1439, col: 28, offset: 46353},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1436, col: 40, offset: 46262},
+										pos:  position{line: 1439, col: 40, offset: 46365},
 										name: "InlineAttributes",
 									},
 								},
@@ -23645,75 +23704,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1440, col: 1, offset: 46378},
+			pos:  position{line: 1443, col: 1, offset: 46481},
 			expr: &choiceExpr{
-				pos: position{line: 1443, col: 5, offset: 46540},
+				pos: position{line: 1446, col: 5, offset: 46643},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1443, col: 5, offset: 46540},
+						pos: position{line: 1446, col: 5, offset: 46643},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1443, col: 5, offset: 46540},
+							pos: position{line: 1446, col: 5, offset: 46643},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1443, col: 5, offset: 46540},
+									pos:        position{line: 1446, col: 5, offset: 46643},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1443, col: 9, offset: 46544},
+									pos:   position{line: 1446, col: 9, offset: 46647},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2827, col: 23, offset: 89601},
+										pos: position{line: 2830, col: 23, offset: 89704},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2827, col: 23, offset: 89601},
+											pos: position{line: 2830, col: 23, offset: 89704},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2827, col: 23, offset: 89601},
+													pos: position{line: 2830, col: 23, offset: 89704},
 													expr: &litMatcher{
-														pos:        position{line: 2827, col: 24, offset: 89602},
+														pos:        position{line: 2830, col: 24, offset: 89705},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2827, col: 28, offset: 89606},
+													pos:   position{line: 2830, col: 28, offset: 89709},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2831, col: 11, offset: 89720},
+														pos: position{line: 2834, col: 11, offset: 89823},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2831, col: 12, offset: 89721},
+															pos: position{line: 2834, col: 12, offset: 89824},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2831, col: 12, offset: 89721},
+																	pos:        position{line: 2834, col: 12, offset: 89824},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2831, col: 24, offset: 89733},
+																	pos:        position{line: 2834, col: 24, offset: 89836},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2831, col: 37, offset: 89746},
+																	pos:        position{line: 2834, col: 37, offset: 89849},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2831, col: 48, offset: 89757},
+																	pos:        position{line: 2834, col: 48, offset: 89860},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2831, col: 59, offset: 89768},
+																	pos:        position{line: 2834, col: 59, offset: 89871},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23723,38 +23782,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2827, col: 44, offset: 89622},
+													pos:   position{line: 2830, col: 44, offset: 89725},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2836, col: 5, offset: 89832},
+														pos: position{line: 2839, col: 5, offset: 89935},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2836, col: 5, offset: 89832},
+															pos:   position{line: 2839, col: 5, offset: 89935},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2836, col: 14, offset: 89841},
+																pos: position{line: 2839, col: 14, offset: 89944},
 																expr: &choiceExpr{
-																	pos: position{line: 2837, col: 9, offset: 89851},
+																	pos: position{line: 2840, col: 9, offset: 89954},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2837, col: 9, offset: 89851},
+																			pos: position{line: 2840, col: 9, offset: 89954},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2837, col: 9, offset: 89851},
+																				pos: position{line: 2840, col: 9, offset: 89954},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2837, col: 9, offset: 89851},
+																						pos: position{line: 2840, col: 9, offset: 89954},
 																						expr: &litMatcher{
-																							pos:        position{line: 2837, col: 10, offset: 89852},
+																							pos:        position{line: 2840, col: 10, offset: 89955},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2838, col: 9, offset: 89880},
+																						pos: position{line: 2841, col: 9, offset: 89983},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2838, col: 10, offset: 89881},
+																							pos:        position{line: 2841, col: 10, offset: 89984},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23765,27 +23824,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2841, col: 11, offset: 90093},
+																			pos: position{line: 2844, col: 11, offset: 90196},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2841, col: 11, offset: 90093},
+																					pos:        position{line: 2844, col: 11, offset: 90196},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2841, col: 19, offset: 90101},
+																					pos: position{line: 2844, col: 19, offset: 90204},
 																					expr: &seqExpr{
-																						pos: position{line: 2841, col: 21, offset: 90103},
+																						pos: position{line: 2844, col: 21, offset: 90206},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2841, col: 21, offset: 90103},
+																								pos: position{line: 2844, col: 21, offset: 90206},
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 10, offset: 90715},
+																									pos: position{line: 2868, col: 10, offset: 90818},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2865, col: 10, offset: 90715},
+																										pos:        position{line: 2868, col: 10, offset: 90818},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23794,11 +23853,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2841, col: 28, offset: 90110},
+																								pos: position{line: 2844, col: 28, offset: 90213},
 																								expr: &notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -23808,35 +23867,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 639, col: 5, offset: 20212},
 																			run: (*parser).callonExternalLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 639, col: 5, offset: 20212},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 639, col: 5, offset: 20212},
 																						run: (*parser).callonExternalLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 642, col: 5, offset: 20284},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 642, col: 14, offset: 20293},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 648, col: 5, offset: 20422},
 																									run: (*parser).callonExternalLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 648, col: 5, offset: 20422},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 648, col: 5, offset: 20422},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 648, col: 13, offset: 20430},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23868,7 +23927,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 648, col: 32, offset: 20449},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23877,19 +23936,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 655, col: 5, offset: 20690},
 																									run: (*parser).callonExternalLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 655, col: 5, offset: 20690},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 655, col: 5, offset: 20690},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 655, col: 9, offset: 20694},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23921,7 +23980,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 655, col: 28, offset: 20713},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23930,19 +23989,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 661, col: 25, offset: 20894},
 																									run: (*parser).callonExternalLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 661, col: 25, offset: 20894},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 661, col: 25, offset: 20894},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 661, col: 37, offset: 20906},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23974,33 +24033,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 661, col: 56, offset: 20925},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 661, col: 62, offset: 20931},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 669, col: 17, offset: 21226},
 																														run: (*parser).callonExternalLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 669, col: 17, offset: 21226},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 669, col: 17, offset: 21226},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 669, col: 21, offset: 21230},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 669, col: 28, offset: 21237},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 669, col: 28, offset: 21237},
 																																				run: (*parser).callonExternalLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 669, col: 28, offset: 21237},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24008,12 +24067,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 671, col: 9, offset: 21291},
 																																				run: (*parser).callonExternalLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 671, col: 9, offset: 21291},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 671, col: 9, offset: 21291},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24030,7 +24089,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 661, col: 78, offset: 20947},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24039,19 +24098,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 665, col: 25, offset: 21065},
 																									run: (*parser).callonExternalLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 665, col: 25, offset: 21065},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 665, col: 25, offset: 21065},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 665, col: 38, offset: 21078},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24083,33 +24142,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 665, col: 57, offset: 21097},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 665, col: 63, offset: 21103},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 669, col: 17, offset: 21226},
 																														run: (*parser).callonExternalLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 669, col: 17, offset: 21226},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 669, col: 17, offset: 21226},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 669, col: 21, offset: 21230},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 669, col: 28, offset: 21237},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 669, col: 28, offset: 21237},
 																																				run: (*parser).callonExternalLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 669, col: 28, offset: 21237},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24117,12 +24176,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 671, col: 9, offset: 21291},
 																																				run: (*parser).callonExternalLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 671, col: 9, offset: 21291},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 671, col: 9, offset: 21291},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24139,7 +24198,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 665, col: 79, offset: 21119},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24154,27 +24213,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1210, col: 23, offset: 37374},
+																			pos: position{line: 1213, col: 23, offset: 37477},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1210, col: 23, offset: 37374},
+																				pos: position{line: 1213, col: 23, offset: 37477},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1208, col: 32, offset: 37342},
+																						pos:        position{line: 1211, col: 32, offset: 37445},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1210, col: 51, offset: 37402},
+																						pos:   position{line: 1213, col: 51, offset: 37505},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1210, col: 56, offset: 37407},
+																							pos: position{line: 1213, col: 56, offset: 37510},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1210, col: 56, offset: 37407},
+																								pos: position{line: 1213, col: 56, offset: 37510},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1210, col: 56, offset: 37407},
+																									pos:        position{line: 1213, col: 56, offset: 37510},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24184,7 +24243,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1208, col: 32, offset: 37342},
+																						pos:        position{line: 1211, col: 32, offset: 37445},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24193,10 +24252,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2844, col: 11, offset: 90230},
+																			pos: position{line: 2847, col: 11, offset: 90333},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2844, col: 11, offset: 90230},
+																				pos:        position{line: 2847, col: 11, offset: 90333},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24213,12 +24272,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1443, col: 34, offset: 46569},
+									pos:   position{line: 1446, col: 34, offset: 46672},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1443, col: 45, offset: 46580},
+										pos: position{line: 1446, col: 45, offset: 46683},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1443, col: 46, offset: 46581},
+											pos:  position{line: 1446, col: 46, offset: 46684},
 											name: "InlineAttributes",
 										},
 									},
@@ -24227,64 +24286,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1448, col: 5, offset: 46714},
+						pos: position{line: 1451, col: 5, offset: 46817},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1448, col: 5, offset: 46714},
+							pos: position{line: 1451, col: 5, offset: 46817},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1448, col: 5, offset: 46714},
+									pos:   position{line: 1451, col: 5, offset: 46817},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2827, col: 23, offset: 89601},
+										pos: position{line: 2830, col: 23, offset: 89704},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2827, col: 23, offset: 89601},
+											pos: position{line: 2830, col: 23, offset: 89704},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2827, col: 23, offset: 89601},
+													pos: position{line: 2830, col: 23, offset: 89704},
 													expr: &litMatcher{
-														pos:        position{line: 2827, col: 24, offset: 89602},
+														pos:        position{line: 2830, col: 24, offset: 89705},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2827, col: 28, offset: 89606},
+													pos:   position{line: 2830, col: 28, offset: 89709},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2831, col: 11, offset: 89720},
+														pos: position{line: 2834, col: 11, offset: 89823},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2831, col: 12, offset: 89721},
+															pos: position{line: 2834, col: 12, offset: 89824},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2831, col: 12, offset: 89721},
+																	pos:        position{line: 2834, col: 12, offset: 89824},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2831, col: 24, offset: 89733},
+																	pos:        position{line: 2834, col: 24, offset: 89836},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2831, col: 37, offset: 89746},
+																	pos:        position{line: 2834, col: 37, offset: 89849},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2831, col: 48, offset: 89757},
+																	pos:        position{line: 2834, col: 48, offset: 89860},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2831, col: 59, offset: 89768},
+																	pos:        position{line: 2834, col: 59, offset: 89871},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24294,38 +24353,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2827, col: 44, offset: 89622},
+													pos:   position{line: 2830, col: 44, offset: 89725},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2836, col: 5, offset: 89832},
+														pos: position{line: 2839, col: 5, offset: 89935},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2836, col: 5, offset: 89832},
+															pos:   position{line: 2839, col: 5, offset: 89935},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2836, col: 14, offset: 89841},
+																pos: position{line: 2839, col: 14, offset: 89944},
 																expr: &choiceExpr{
-																	pos: position{line: 2837, col: 9, offset: 89851},
+																	pos: position{line: 2840, col: 9, offset: 89954},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2837, col: 9, offset: 89851},
+																			pos: position{line: 2840, col: 9, offset: 89954},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2837, col: 9, offset: 89851},
+																				pos: position{line: 2840, col: 9, offset: 89954},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2837, col: 9, offset: 89851},
+																						pos: position{line: 2840, col: 9, offset: 89954},
 																						expr: &litMatcher{
-																							pos:        position{line: 2837, col: 10, offset: 89852},
+																							pos:        position{line: 2840, col: 10, offset: 89955},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2838, col: 9, offset: 89880},
+																						pos: position{line: 2841, col: 9, offset: 89983},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2838, col: 10, offset: 89881},
+																							pos:        position{line: 2841, col: 10, offset: 89984},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24336,27 +24395,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2841, col: 11, offset: 90093},
+																			pos: position{line: 2844, col: 11, offset: 90196},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2841, col: 11, offset: 90093},
+																					pos:        position{line: 2844, col: 11, offset: 90196},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2841, col: 19, offset: 90101},
+																					pos: position{line: 2844, col: 19, offset: 90204},
 																					expr: &seqExpr{
-																						pos: position{line: 2841, col: 21, offset: 90103},
+																						pos: position{line: 2844, col: 21, offset: 90206},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2841, col: 21, offset: 90103},
+																								pos: position{line: 2844, col: 21, offset: 90206},
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 10, offset: 90715},
+																									pos: position{line: 2868, col: 10, offset: 90818},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2865, col: 10, offset: 90715},
+																										pos:        position{line: 2868, col: 10, offset: 90818},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24365,11 +24424,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2841, col: 28, offset: 90110},
+																								pos: position{line: 2844, col: 28, offset: 90213},
 																								expr: &notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -24379,35 +24438,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 636, col: 5, offset: 20109},
+																			pos: position{line: 639, col: 5, offset: 20212},
 																			run: (*parser).callonExternalLink157,
 																			expr: &seqExpr{
-																				pos: position{line: 636, col: 5, offset: 20109},
+																				pos: position{line: 639, col: 5, offset: 20212},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 636, col: 5, offset: 20109},
+																						pos: position{line: 639, col: 5, offset: 20212},
 																						run: (*parser).callonExternalLink159,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 639, col: 5, offset: 20181},
+																						pos:   position{line: 642, col: 5, offset: 20284},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 639, col: 14, offset: 20190},
+																							pos: position{line: 642, col: 14, offset: 20293},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 645, col: 5, offset: 20319},
+																									pos: position{line: 648, col: 5, offset: 20422},
 																									run: (*parser).callonExternalLink162,
 																									expr: &seqExpr{
-																										pos: position{line: 645, col: 5, offset: 20319},
+																										pos: position{line: 648, col: 5, offset: 20422},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 645, col: 5, offset: 20319},
+																												pos:        position{line: 648, col: 5, offset: 20422},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 645, col: 13, offset: 20327},
+																												pos:   position{line: 648, col: 13, offset: 20430},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24439,7 +24498,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 645, col: 32, offset: 20346},
+																												pos:        position{line: 648, col: 32, offset: 20449},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24448,19 +24507,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 652, col: 5, offset: 20587},
+																									pos: position{line: 655, col: 5, offset: 20690},
 																									run: (*parser).callonExternalLink172,
 																									expr: &seqExpr{
-																										pos: position{line: 652, col: 5, offset: 20587},
+																										pos: position{line: 655, col: 5, offset: 20690},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 652, col: 5, offset: 20587},
+																												pos:        position{line: 655, col: 5, offset: 20690},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 652, col: 9, offset: 20591},
+																												pos:   position{line: 655, col: 9, offset: 20694},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24492,7 +24551,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 652, col: 28, offset: 20610},
+																												pos:        position{line: 655, col: 28, offset: 20713},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24501,19 +24560,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 658, col: 25, offset: 20791},
+																									pos: position{line: 661, col: 25, offset: 20894},
 																									run: (*parser).callonExternalLink182,
 																									expr: &seqExpr{
-																										pos: position{line: 658, col: 25, offset: 20791},
+																										pos: position{line: 661, col: 25, offset: 20894},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 658, col: 25, offset: 20791},
+																												pos:        position{line: 661, col: 25, offset: 20894},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 37, offset: 20803},
+																												pos:   position{line: 661, col: 37, offset: 20906},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24545,33 +24604,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 658, col: 56, offset: 20822},
+																												pos:   position{line: 661, col: 56, offset: 20925},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 658, col: 62, offset: 20828},
+																													pos: position{line: 661, col: 62, offset: 20931},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 669, col: 17, offset: 21226},
 																														run: (*parser).callonExternalLink193,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 669, col: 17, offset: 21226},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 669, col: 17, offset: 21226},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 669, col: 21, offset: 21230},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 669, col: 28, offset: 21237},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 669, col: 28, offset: 21237},
 																																				run: (*parser).callonExternalLink198,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 669, col: 28, offset: 21237},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24579,12 +24638,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 671, col: 9, offset: 21291},
 																																				run: (*parser).callonExternalLink200,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 671, col: 9, offset: 21291},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 671, col: 9, offset: 21291},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24601,7 +24660,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 658, col: 78, offset: 20844},
+																												pos:        position{line: 661, col: 78, offset: 20947},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24610,19 +24669,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 25, offset: 20962},
+																									pos: position{line: 665, col: 25, offset: 21065},
 																									run: (*parser).callonExternalLink204,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 25, offset: 20962},
+																										pos: position{line: 665, col: 25, offset: 21065},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 25, offset: 20962},
+																												pos:        position{line: 665, col: 25, offset: 21065},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 38, offset: 20975},
+																												pos:   position{line: 665, col: 38, offset: 21078},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24654,33 +24713,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 57, offset: 20994},
+																												pos:   position{line: 665, col: 57, offset: 21097},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 662, col: 63, offset: 21000},
+																													pos: position{line: 665, col: 63, offset: 21103},
 																													expr: &actionExpr{
-																														pos: position{line: 666, col: 17, offset: 21123},
+																														pos: position{line: 669, col: 17, offset: 21226},
 																														run: (*parser).callonExternalLink215,
 																														expr: &seqExpr{
-																															pos: position{line: 666, col: 17, offset: 21123},
+																															pos: position{line: 669, col: 17, offset: 21226},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 666, col: 17, offset: 21123},
+																																	pos:        position{line: 669, col: 17, offset: 21226},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 666, col: 21, offset: 21127},
+																																	pos:   position{line: 669, col: 21, offset: 21230},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 666, col: 28, offset: 21134},
+																																		pos: position{line: 669, col: 28, offset: 21237},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 666, col: 28, offset: 21134},
+																																				pos: position{line: 669, col: 28, offset: 21237},
 																																				run: (*parser).callonExternalLink220,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 666, col: 28, offset: 21134},
+																																					pos:        position{line: 669, col: 28, offset: 21237},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24688,12 +24747,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 668, col: 9, offset: 21188},
+																																				pos: position{line: 671, col: 9, offset: 21291},
 																																				run: (*parser).callonExternalLink222,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 668, col: 9, offset: 21188},
+																																					pos: position{line: 671, col: 9, offset: 21291},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 668, col: 9, offset: 21188},
+																																						pos:        position{line: 671, col: 9, offset: 21291},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24710,7 +24769,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 79, offset: 21016},
+																												pos:        position{line: 665, col: 79, offset: 21119},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24725,27 +24784,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1210, col: 23, offset: 37374},
+																			pos: position{line: 1213, col: 23, offset: 37477},
 																			run: (*parser).callonExternalLink226,
 																			expr: &seqExpr{
-																				pos: position{line: 1210, col: 23, offset: 37374},
+																				pos: position{line: 1213, col: 23, offset: 37477},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1208, col: 32, offset: 37342},
+																						pos:        position{line: 1211, col: 32, offset: 37445},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1210, col: 51, offset: 37402},
+																						pos:   position{line: 1213, col: 51, offset: 37505},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1210, col: 56, offset: 37407},
+																							pos: position{line: 1213, col: 56, offset: 37510},
 																							run: (*parser).callonExternalLink230,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1210, col: 56, offset: 37407},
+																								pos: position{line: 1213, col: 56, offset: 37510},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1210, col: 56, offset: 37407},
+																									pos:        position{line: 1213, col: 56, offset: 37510},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24755,7 +24814,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1208, col: 32, offset: 37342},
+																						pos:        position{line: 1211, col: 32, offset: 37445},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24764,10 +24823,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2844, col: 11, offset: 90230},
+																			pos: position{line: 2847, col: 11, offset: 90333},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2844, col: 11, offset: 90230},
+																				pos:        position{line: 2847, col: 11, offset: 90333},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24784,12 +24843,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1448, col: 30, offset: 46739},
+									pos:   position{line: 1451, col: 30, offset: 46842},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1448, col: 41, offset: 46750},
+										pos: position{line: 1451, col: 41, offset: 46853},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1448, col: 42, offset: 46751},
+											pos:  position{line: 1451, col: 42, offset: 46854},
 											name: "InlineAttributes",
 										},
 									},
@@ -24802,41 +24861,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1482, col: 1, offset: 47892},
+			pos:  position{line: 1485, col: 1, offset: 47995},
 			expr: &actionExpr{
-				pos: position{line: 1483, col: 5, offset: 47913},
+				pos: position{line: 1486, col: 5, offset: 48016},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1483, col: 5, offset: 47913},
+					pos: position{line: 1486, col: 5, offset: 48016},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1483, col: 5, offset: 47913},
+							pos:   position{line: 1486, col: 5, offset: 48016},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1489, col: 5, offset: 48115},
+								pos: position{line: 1492, col: 5, offset: 48218},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1582, col: 5, offset: 51049},
+										pos: position{line: 1585, col: 5, offset: 51152},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1582, col: 5, offset: 51049},
+											pos: position{line: 1585, col: 5, offset: 51152},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1582, col: 5, offset: 51049},
+													pos:   position{line: 1585, col: 5, offset: 51152},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1589, col: 5, offset: 51257},
+														pos: position{line: 1592, col: 5, offset: 51360},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1589, col: 5, offset: 51257},
+															pos: position{line: 1592, col: 5, offset: 51360},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1589, col: 5, offset: 51257},
+																	pos: position{line: 1592, col: 5, offset: 51360},
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 10, offset: 90715},
+																		pos: position{line: 2868, col: 10, offset: 90818},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90715},
+																			pos:        position{line: 2868, col: 10, offset: 90818},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24845,27 +24904,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1589, col: 12, offset: 51264},
+																	pos:   position{line: 1592, col: 12, offset: 51367},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1591, col: 9, offset: 51327},
+																		pos: position{line: 1594, col: 9, offset: 51430},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1591, col: 9, offset: 51327},
+																				pos: position{line: 1594, col: 9, offset: 51430},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1591, col: 9, offset: 51327},
+																					pos: position{line: 1594, col: 9, offset: 51430},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1591, col: 9, offset: 51327},
+																							pos:   position{line: 1594, col: 9, offset: 51430},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1591, col: 16, offset: 51334},
+																								pos: position{line: 1594, col: 16, offset: 51437},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1591, col: 16, offset: 51334},
+																									pos: position{line: 1594, col: 16, offset: 51437},
 																									expr: &litMatcher{
-																										pos:        position{line: 1591, col: 17, offset: 51335},
+																										pos:        position{line: 1594, col: 17, offset: 51438},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24874,22 +24933,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1595, col: 9, offset: 51435},
+																							pos: position{line: 1598, col: 9, offset: 51538},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 11, offset: 52152},
+																				pos: position{line: 1617, col: 11, offset: 52255},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 11, offset: 52152},
+																					pos: position{line: 1617, col: 11, offset: 52255},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1614, col: 11, offset: 52152},
+																							pos: position{line: 1617, col: 11, offset: 52255},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1614, col: 12, offset: 52153},
+																								pos:        position{line: 1617, col: 12, offset: 52256},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24897,7 +24956,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 20, offset: 52161},
+																							pos:        position{line: 1617, col: 20, offset: 52264},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24906,20 +24965,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52278},
+																				pos: position{line: 1619, col: 13, offset: 52381},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52278},
+																					pos: position{line: 1619, col: 13, offset: 52381},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1616, col: 14, offset: 52279},
+																							pos:        position{line: 1619, col: 14, offset: 52382},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 21, offset: 52286},
+																							pos:        position{line: 1619, col: 21, offset: 52389},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24928,20 +24987,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52406},
+																				pos: position{line: 1621, col: 13, offset: 52509},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52406},
+																					pos: position{line: 1621, col: 13, offset: 52509},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1618, col: 14, offset: 52407},
+																							pos:        position{line: 1621, col: 14, offset: 52510},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 21, offset: 52414},
+																							pos:        position{line: 1621, col: 21, offset: 52517},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24950,15 +25009,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1620, col: 13, offset: 52534},
+																				pos: position{line: 1623, col: 13, offset: 52637},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 13, offset: 52534},
+																					pos: position{line: 1623, col: 13, offset: 52637},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1620, col: 13, offset: 52534},
+																							pos: position{line: 1623, col: 13, offset: 52637},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1620, col: 14, offset: 52535},
+																								pos:        position{line: 1623, col: 14, offset: 52638},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -24966,7 +25025,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1620, col: 26, offset: 52547},
+																							pos:        position{line: 1623, col: 26, offset: 52650},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -24975,15 +25034,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1622, col: 13, offset: 52667},
+																				pos: position{line: 1625, col: 13, offset: 52770},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1622, col: 13, offset: 52667},
+																					pos: position{line: 1625, col: 13, offset: 52770},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1622, col: 13, offset: 52667},
+																							pos: position{line: 1625, col: 13, offset: 52770},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1622, col: 14, offset: 52668},
+																								pos:        position{line: 1625, col: 14, offset: 52771},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -24991,7 +25050,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1622, col: 26, offset: 52680},
+																							pos:        position{line: 1625, col: 26, offset: 52783},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25003,12 +25062,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2869, col: 11, offset: 90776},
+																	pos: position{line: 2872, col: 11, offset: 90879},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2869, col: 11, offset: 90776},
+																		pos: position{line: 2872, col: 11, offset: 90879},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2869, col: 11, offset: 90776},
+																			pos:        position{line: 2872, col: 11, offset: 90879},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25021,26 +25080,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1583, col: 5, offset: 51088},
+													pos:   position{line: 1586, col: 5, offset: 51191},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1530, col: 5, offset: 49555},
+														pos: position{line: 1533, col: 5, offset: 49658},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1530, col: 5, offset: 49555},
+															pos: position{line: 1533, col: 5, offset: 49658},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1530, col: 5, offset: 49555},
+																	pos:   position{line: 1533, col: 5, offset: 49658},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1530, col: 14, offset: 49564},
+																		pos: position{line: 1533, col: 14, offset: 49667},
 																		expr: &actionExpr{
-																			pos: position{line: 1530, col: 15, offset: 49565},
+																			pos: position{line: 1533, col: 15, offset: 49668},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1530, col: 15, offset: 49565},
+																				pos: position{line: 1533, col: 15, offset: 49668},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1530, col: 15, offset: 49565},
+																					pos:        position{line: 1533, col: 15, offset: 49668},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25051,28 +25110,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25081,9 +25140,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -25096,27 +25155,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1632, col: 5, offset: 52946},
+										pos: position{line: 1635, col: 5, offset: 53049},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1632, col: 5, offset: 52946},
+											pos: position{line: 1635, col: 5, offset: 53049},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1632, col: 5, offset: 52946},
+													pos:   position{line: 1635, col: 5, offset: 53049},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1639, col: 5, offset: 53219},
+														pos: position{line: 1642, col: 5, offset: 53322},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1639, col: 5, offset: 53219},
+															pos: position{line: 1642, col: 5, offset: 53322},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1639, col: 5, offset: 53219},
+																	pos: position{line: 1642, col: 5, offset: 53322},
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 10, offset: 90715},
+																		pos: position{line: 2868, col: 10, offset: 90818},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90715},
+																			pos:        position{line: 2868, col: 10, offset: 90818},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25125,24 +25184,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1640, col: 5, offset: 53231},
+																	pos:   position{line: 1643, col: 5, offset: 53334},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1641, col: 9, offset: 53247},
+																		pos: position{line: 1644, col: 9, offset: 53350},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1641, col: 10, offset: 53248},
+																			pos: position{line: 1644, col: 10, offset: 53351},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1641, col: 11, offset: 53249},
+																					pos:        position{line: 1644, col: 11, offset: 53352},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1641, col: 18, offset: 53256},
+																					pos: position{line: 1644, col: 18, offset: 53359},
 																					expr: &litMatcher{
-																						pos:        position{line: 1641, col: 19, offset: 53257},
+																						pos:        position{line: 1644, col: 19, offset: 53360},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -25153,16 +25212,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1644, col: 7, offset: 53347},
+																	pos: position{line: 1647, col: 7, offset: 53450},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2869, col: 11, offset: 90776},
+																	pos: position{line: 2872, col: 11, offset: 90879},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2869, col: 11, offset: 90776},
+																		pos: position{line: 2872, col: 11, offset: 90879},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2869, col: 11, offset: 90776},
+																			pos:        position{line: 2872, col: 11, offset: 90879},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25175,56 +25234,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1633, col: 5, offset: 52987},
+													pos:   position{line: 1636, col: 5, offset: 53090},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1633, col: 16, offset: 52998},
+														pos: position{line: 1636, col: 16, offset: 53101},
 														expr: &actionExpr{
-															pos: position{line: 1654, col: 5, offset: 53612},
+															pos: position{line: 1657, col: 5, offset: 53715},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1654, col: 5, offset: 53612},
+																pos: position{line: 1657, col: 5, offset: 53715},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1654, col: 5, offset: 53612},
+																		pos: position{line: 1657, col: 5, offset: 53715},
 																		expr: &litMatcher{
-																			pos:        position{line: 1654, col: 6, offset: 53613},
+																			pos:        position{line: 1657, col: 6, offset: 53716},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1654, col: 10, offset: 53617},
+																		pos:   position{line: 1657, col: 10, offset: 53720},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1655, col: 7, offset: 53631},
+																			pos: position{line: 1658, col: 7, offset: 53734},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1655, col: 7, offset: 53631},
+																					pos: position{line: 1658, col: 7, offset: 53734},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1655, col: 7, offset: 53631},
+																						pos:        position{line: 1658, col: 7, offset: 53734},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1656, col: 7, offset: 53676},
+																					pos: position{line: 1659, col: 7, offset: 53779},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1656, col: 7, offset: 53676},
+																						pos:        position{line: 1659, col: 7, offset: 53779},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1657, col: 7, offset: 53719},
+																					pos: position{line: 1660, col: 7, offset: 53822},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1657, col: 7, offset: 53719},
+																						pos:        position{line: 1660, col: 7, offset: 53822},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -25234,12 +25293,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2869, col: 11, offset: 90776},
+																		pos: position{line: 2872, col: 11, offset: 90879},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2869, col: 11, offset: 90776},
+																			pos: position{line: 2872, col: 11, offset: 90879},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2869, col: 11, offset: 90776},
+																				pos:        position{line: 2872, col: 11, offset: 90879},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25253,26 +25312,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1634, col: 5, offset: 53037},
+													pos:   position{line: 1637, col: 5, offset: 53140},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1530, col: 5, offset: 49555},
+														pos: position{line: 1533, col: 5, offset: 49658},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1530, col: 5, offset: 49555},
+															pos: position{line: 1533, col: 5, offset: 49658},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1530, col: 5, offset: 49555},
+																	pos:   position{line: 1533, col: 5, offset: 49658},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1530, col: 14, offset: 49564},
+																		pos: position{line: 1533, col: 14, offset: 49667},
 																		expr: &actionExpr{
-																			pos: position{line: 1530, col: 15, offset: 49565},
+																			pos: position{line: 1533, col: 15, offset: 49668},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1530, col: 15, offset: 49565},
+																				pos: position{line: 1533, col: 15, offset: 49668},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1530, col: 15, offset: 49565},
+																					pos:        position{line: 1533, col: 15, offset: 49668},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25283,28 +25342,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25313,9 +25372,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -25328,36 +25387,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1723, col: 5, offset: 55591},
+										pos: position{line: 1726, col: 5, offset: 55694},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1723, col: 5, offset: 55591},
+											pos: position{line: 1726, col: 5, offset: 55694},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1723, col: 5, offset: 55591},
+													pos:   position{line: 1726, col: 5, offset: 55694},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1729, col: 5, offset: 55788},
+														pos: position{line: 1732, col: 5, offset: 55891},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1729, col: 5, offset: 55788},
+															pos: position{line: 1732, col: 5, offset: 55891},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1729, col: 5, offset: 55788},
+																	pos:        position{line: 1732, col: 5, offset: 55891},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1729, col: 9, offset: 55792},
+																	pos:   position{line: 1732, col: 9, offset: 55895},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1729, col: 14, offset: 55797},
+																		pos: position{line: 1732, col: 14, offset: 55900},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1729, col: 14, offset: 55797},
+																			pos: position{line: 1732, col: 14, offset: 55900},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1729, col: 14, offset: 55797},
+																				pos:        position{line: 1732, col: 14, offset: 55900},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25367,18 +25426,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1729, col: 62, offset: 55845},
+																	pos:        position{line: 1732, col: 62, offset: 55948},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2869, col: 11, offset: 90776},
+																	pos: position{line: 2872, col: 11, offset: 90879},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2869, col: 11, offset: 90776},
+																		pos: position{line: 2872, col: 11, offset: 90879},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2869, col: 11, offset: 90776},
+																			pos:        position{line: 2872, col: 11, offset: 90879},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25391,26 +25450,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1724, col: 5, offset: 55627},
+													pos:   position{line: 1727, col: 5, offset: 55730},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1530, col: 5, offset: 49555},
+														pos: position{line: 1533, col: 5, offset: 49658},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1530, col: 5, offset: 49555},
+															pos: position{line: 1533, col: 5, offset: 49658},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1530, col: 5, offset: 49555},
+																	pos:   position{line: 1533, col: 5, offset: 49658},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1530, col: 14, offset: 49564},
+																		pos: position{line: 1533, col: 14, offset: 49667},
 																		expr: &actionExpr{
-																			pos: position{line: 1530, col: 15, offset: 49565},
+																			pos: position{line: 1533, col: 15, offset: 49668},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1530, col: 15, offset: 49565},
+																				pos: position{line: 1533, col: 15, offset: 49668},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1530, col: 15, offset: 49565},
+																					pos:        position{line: 1533, col: 15, offset: 49668},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25421,28 +25480,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25451,9 +25510,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -25466,35 +25525,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1666, col: 5, offset: 53912},
+										pos: position{line: 1669, col: 5, offset: 54015},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1666, col: 5, offset: 53912},
+											pos: position{line: 1669, col: 5, offset: 54015},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1666, col: 5, offset: 53912},
+													pos:   position{line: 1669, col: 5, offset: 54015},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1674, col: 5, offset: 54238},
+														pos: position{line: 1677, col: 5, offset: 54341},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1674, col: 5, offset: 54238},
+															pos: position{line: 1677, col: 5, offset: 54341},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1674, col: 5, offset: 54238},
+																	pos: position{line: 1677, col: 5, offset: 54341},
 																	expr: &seqExpr{
-																		pos: position{line: 2480, col: 31, offset: 79879},
+																		pos: position{line: 2483, col: 31, offset: 79982},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2480, col: 31, offset: 79879},
+																				pos:        position{line: 2483, col: 31, offset: 79982},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2480, col: 36, offset: 79884},
+																				pos: position{line: 2483, col: 36, offset: 79987},
 																				expr: &litMatcher{
-																					pos:        position{line: 2480, col: 37, offset: 79885},
+																					pos:        position{line: 2483, col: 37, offset: 79988},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -25504,28 +25563,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1675, col: 5, offset: 54270},
+																	pos: position{line: 1678, col: 5, offset: 54373},
 																	expr: &seqExpr{
-																		pos: position{line: 1675, col: 6, offset: 54271},
+																		pos: position{line: 1678, col: 6, offset: 54374},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1675, col: 6, offset: 54271},
+																				pos: position{line: 1678, col: 6, offset: 54374},
 																				expr: &actionExpr{
-																					pos: position{line: 1680, col: 5, offset: 54421},
+																					pos: position{line: 1683, col: 5, offset: 54524},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1680, col: 5, offset: 54421},
+																						pos: position{line: 1683, col: 5, offset: 54524},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1680, col: 5, offset: 54421},
+																								pos:   position{line: 1683, col: 5, offset: 54524},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1680, col: 16, offset: 54432},
+																									pos: position{line: 1683, col: 16, offset: 54535},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1680, col: 16, offset: 54432},
+																										pos: position{line: 1683, col: 16, offset: 54535},
 																										expr: &litMatcher{
-																											pos:        position{line: 1680, col: 17, offset: 54433},
+																											pos:        position{line: 1683, col: 17, offset: 54536},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -25534,7 +25593,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1683, col: 5, offset: 54490},
+																								pos: position{line: 1686, col: 5, offset: 54593},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -25542,30 +25601,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1675, col: 35, offset: 54300},
+																				pos: position{line: 1678, col: 35, offset: 54403},
 																				expr: &choiceExpr{
-																					pos: position{line: 2887, col: 8, offset: 91113},
+																					pos: position{line: 2890, col: 8, offset: 91216},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2874, col: 12, offset: 90886},
+																							pos: position{line: 2877, col: 12, offset: 90989},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2874, col: 13, offset: 90887},
+																								pos: position{line: 2877, col: 13, offset: 90990},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 90887},
+																										pos:        position{line: 2877, col: 13, offset: 90990},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 20, offset: 90894},
+																										pos:        position{line: 2877, col: 20, offset: 90997},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 29, offset: 90903},
+																										pos:        position{line: 2877, col: 29, offset: 91006},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25574,16 +25633,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2884, col: 8, offset: 91063},
+																							pos: position{line: 2887, col: 8, offset: 91166},
 																							expr: &anyMatcher{
-																								line: 2884, col: 9, offset: 91064,
+																								line: 2887, col: 9, offset: 91167,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1675, col: 40, offset: 54305,
+																				line: 1678, col: 40, offset: 54408,
 																			},
 																		},
 																	},
@@ -25593,24 +25652,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1667, col: 5, offset: 53947},
+													pos:   position{line: 1670, col: 5, offset: 54050},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1680, col: 5, offset: 54421},
+														pos: position{line: 1683, col: 5, offset: 54524},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1680, col: 5, offset: 54421},
+															pos: position{line: 1683, col: 5, offset: 54524},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1680, col: 5, offset: 54421},
+																	pos:   position{line: 1683, col: 5, offset: 54524},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1680, col: 16, offset: 54432},
+																		pos: position{line: 1683, col: 16, offset: 54535},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1680, col: 16, offset: 54432},
+																			pos: position{line: 1683, col: 16, offset: 54535},
 																			expr: &litMatcher{
-																				pos:        position{line: 1680, col: 17, offset: 54433},
+																				pos:        position{line: 1683, col: 17, offset: 54536},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25619,7 +25678,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1683, col: 5, offset: 54490},
+																	pos: position{line: 1686, col: 5, offset: 54593},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -25627,24 +25686,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1668, col: 5, offset: 53992},
+													pos:   position{line: 1671, col: 5, offset: 54095},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1691, col: 5, offset: 54739},
+														pos: position{line: 1694, col: 5, offset: 54842},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1693, col: 9, offset: 54805},
+																pos: position{line: 1696, col: 9, offset: 54908},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1693, col: 9, offset: 54805},
+																	pos: position{line: 1696, col: 9, offset: 54908},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1693, col: 9, offset: 54805},
+																			pos: position{line: 1696, col: 9, offset: 54908},
 																			expr: &actionExpr{
-																				pos: position{line: 2865, col: 10, offset: 90715},
+																				pos: position{line: 2868, col: 10, offset: 90818},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2865, col: 10, offset: 90715},
+																					pos:        position{line: 2868, col: 10, offset: 90818},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25653,28 +25712,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2887, col: 8, offset: 91113},
+																			pos: position{line: 2890, col: 8, offset: 91216},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2874, col: 12, offset: 90886},
+																					pos: position{line: 2877, col: 12, offset: 90989},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2874, col: 13, offset: 90887},
+																						pos: position{line: 2877, col: 13, offset: 90990},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 13, offset: 90887},
+																								pos:        position{line: 2877, col: 13, offset: 90990},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 20, offset: 90894},
+																								pos:        position{line: 2877, col: 20, offset: 90997},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 29, offset: 90903},
+																								pos:        position{line: 2877, col: 29, offset: 91006},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25683,34 +25742,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1694, col: 9, offset: 54824},
+																			pos: position{line: 1697, col: 9, offset: 54927},
 																			expr: &actionExpr{
-																				pos: position{line: 677, col: 14, offset: 21489},
+																				pos: position{line: 680, col: 14, offset: 21592},
 																				run: (*parser).callonListElements199,
 																				expr: &seqExpr{
-																					pos: position{line: 677, col: 14, offset: 21489},
+																					pos: position{line: 680, col: 14, offset: 21592},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2882, col: 11, offset: 91049},
+																							pos: position{line: 2885, col: 11, offset: 91152},
 																							expr: &anyMatcher{
-																								line: 2882, col: 13, offset: 91051,
+																								line: 2885, col: 13, offset: 91154,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 677, col: 21, offset: 21496},
+																							pos: position{line: 680, col: 21, offset: 21599},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25719,28 +25778,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25749,9 +25808,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -25764,18 +25823,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1700, col: 9, offset: 54953},
+																pos: position{line: 1703, col: 9, offset: 55056},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1700, col: 9, offset: 54953},
+																	pos: position{line: 1703, col: 9, offset: 55056},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 11, offset: 90776},
+																			pos: position{line: 2872, col: 11, offset: 90879},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2869, col: 11, offset: 90776},
+																				pos: position{line: 2872, col: 11, offset: 90879},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2869, col: 11, offset: 90776},
+																					pos:        position{line: 2872, col: 11, offset: 90879},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25784,15 +25843,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1701, col: 9, offset: 55026},
+																			pos:   position{line: 1704, col: 9, offset: 55129},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1701, col: 18, offset: 55035},
+																				pos: position{line: 1704, col: 18, offset: 55138},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1701, col: 18, offset: 55035},
+																					pos: position{line: 1704, col: 18, offset: 55138},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1701, col: 18, offset: 55035},
+																						pos:        position{line: 1704, col: 18, offset: 55138},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25802,28 +25861,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2887, col: 8, offset: 91113},
+																			pos: position{line: 2890, col: 8, offset: 91216},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2874, col: 12, offset: 90886},
+																					pos: position{line: 2877, col: 12, offset: 90989},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2874, col: 13, offset: 90887},
+																						pos: position{line: 2877, col: 13, offset: 90990},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 13, offset: 90887},
+																								pos:        position{line: 2877, col: 13, offset: 90990},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 20, offset: 90894},
+																								pos:        position{line: 2877, col: 20, offset: 90997},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 29, offset: 90903},
+																								pos:        position{line: 2877, col: 29, offset: 91006},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25832,9 +25891,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
@@ -25852,10 +25911,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1484, col: 5, offset: 47944},
+							pos:   position{line: 1487, col: 5, offset: 48047},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1484, col: 20, offset: 47959},
+								pos:  position{line: 1487, col: 20, offset: 48062},
 								name: "ExtraListElements",
 							},
 						},
@@ -25865,17 +25924,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1494, col: 1, offset: 48214},
+			pos:  position{line: 1497, col: 1, offset: 48317},
 			expr: &actionExpr{
-				pos: position{line: 1494, col: 22, offset: 48235},
+				pos: position{line: 1497, col: 22, offset: 48338},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1494, col: 22, offset: 48235},
+					pos:   position{line: 1497, col: 22, offset: 48338},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1494, col: 31, offset: 48244},
+						pos: position{line: 1497, col: 31, offset: 48347},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1494, col: 32, offset: 48245},
+							pos:  position{line: 1497, col: 32, offset: 48348},
 							name: "ExtraListElement",
 						},
 					},
@@ -25884,52 +25943,52 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1498, col: 1, offset: 48325},
+			pos:  position{line: 1501, col: 1, offset: 48428},
 			expr: &actionExpr{
-				pos: position{line: 1499, col: 5, offset: 48464},
+				pos: position{line: 1502, col: 5, offset: 48567},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1499, col: 5, offset: 48464},
+					pos: position{line: 1502, col: 5, offset: 48567},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2882, col: 11, offset: 91049},
+							pos: position{line: 2885, col: 11, offset: 91152},
 							expr: &anyMatcher{
-								line: 2882, col: 13, offset: 91051,
+								line: 2885, col: 13, offset: 91154,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1500, col: 5, offset: 48476},
+							pos:   position{line: 1503, col: 5, offset: 48579},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1501, col: 9, offset: 48494},
+								pos: position{line: 1504, col: 9, offset: 48597},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1501, col: 13, offset: 48498},
+										pos: position{line: 1504, col: 13, offset: 48601},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1501, col: 13, offset: 48498},
+											pos: position{line: 1504, col: 13, offset: 48601},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1501, col: 13, offset: 48498},
+													pos: position{line: 1504, col: 13, offset: 48601},
 													expr: &actionExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 680, col: 14, offset: 21592},
 														run: (*parser).callonExtraListElement10,
 														expr: &seqExpr{
-															pos: position{line: 677, col: 14, offset: 21489},
+															pos: position{line: 680, col: 14, offset: 21592},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2882, col: 11, offset: 91049},
+																	pos: position{line: 2885, col: 11, offset: 91152},
 																	expr: &anyMatcher{
-																		line: 2882, col: 13, offset: 91051,
+																		line: 2885, col: 13, offset: 91154,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 677, col: 21, offset: 21496},
+																	pos: position{line: 680, col: 21, offset: 21599},
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 10, offset: 90715},
+																		pos: position{line: 2868, col: 10, offset: 90818},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90715},
+																			pos:        position{line: 2868, col: 10, offset: 90818},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25938,28 +25997,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25968,9 +26027,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -25980,33 +26039,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1502, col: 13, offset: 48522},
+													pos:   position{line: 1505, col: 13, offset: 48625},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1502, col: 22, offset: 48531},
+														pos: position{line: 1505, col: 22, offset: 48634},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1582, col: 5, offset: 51049},
+																pos: position{line: 1585, col: 5, offset: 51152},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1582, col: 5, offset: 51049},
+																	pos: position{line: 1585, col: 5, offset: 51152},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1582, col: 5, offset: 51049},
+																			pos:   position{line: 1585, col: 5, offset: 51152},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1589, col: 5, offset: 51257},
+																				pos: position{line: 1592, col: 5, offset: 51360},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1589, col: 5, offset: 51257},
+																					pos: position{line: 1592, col: 5, offset: 51360},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1589, col: 5, offset: 51257},
+																							pos: position{line: 1592, col: 5, offset: 51360},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26015,27 +26074,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1589, col: 12, offset: 51264},
+																							pos:   position{line: 1592, col: 12, offset: 51367},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1591, col: 9, offset: 51327},
+																								pos: position{line: 1594, col: 9, offset: 51430},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1591, col: 9, offset: 51327},
+																										pos: position{line: 1594, col: 9, offset: 51430},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1591, col: 9, offset: 51327},
+																											pos: position{line: 1594, col: 9, offset: 51430},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1591, col: 9, offset: 51327},
+																													pos:   position{line: 1594, col: 9, offset: 51430},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1591, col: 16, offset: 51334},
+																														pos: position{line: 1594, col: 16, offset: 51437},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1591, col: 16, offset: 51334},
+																															pos: position{line: 1594, col: 16, offset: 51437},
 																															expr: &litMatcher{
-																																pos:        position{line: 1591, col: 17, offset: 51335},
+																																pos:        position{line: 1594, col: 17, offset: 51438},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26044,22 +26103,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1595, col: 9, offset: 51435},
+																													pos: position{line: 1598, col: 9, offset: 51538},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1614, col: 11, offset: 52152},
+																										pos: position{line: 1617, col: 11, offset: 52255},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1614, col: 11, offset: 52152},
+																											pos: position{line: 1617, col: 11, offset: 52255},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1614, col: 11, offset: 52152},
+																													pos: position{line: 1617, col: 11, offset: 52255},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1614, col: 12, offset: 52153},
+																														pos:        position{line: 1617, col: 12, offset: 52256},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26067,7 +26126,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1614, col: 20, offset: 52161},
+																													pos:        position{line: 1617, col: 20, offset: 52264},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26076,20 +26135,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1616, col: 13, offset: 52278},
+																										pos: position{line: 1619, col: 13, offset: 52381},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1616, col: 13, offset: 52278},
+																											pos: position{line: 1619, col: 13, offset: 52381},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1616, col: 14, offset: 52279},
+																													pos:        position{line: 1619, col: 14, offset: 52382},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1616, col: 21, offset: 52286},
+																													pos:        position{line: 1619, col: 21, offset: 52389},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26098,20 +26157,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1618, col: 13, offset: 52406},
+																										pos: position{line: 1621, col: 13, offset: 52509},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 13, offset: 52406},
+																											pos: position{line: 1621, col: 13, offset: 52509},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1618, col: 14, offset: 52407},
+																													pos:        position{line: 1621, col: 14, offset: 52510},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1618, col: 21, offset: 52414},
+																													pos:        position{line: 1621, col: 21, offset: 52517},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26120,15 +26179,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1620, col: 13, offset: 52534},
+																										pos: position{line: 1623, col: 13, offset: 52637},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1620, col: 13, offset: 52534},
+																											pos: position{line: 1623, col: 13, offset: 52637},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1620, col: 13, offset: 52534},
+																													pos: position{line: 1623, col: 13, offset: 52637},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1620, col: 14, offset: 52535},
+																														pos:        position{line: 1623, col: 14, offset: 52638},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26136,7 +26195,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1620, col: 26, offset: 52547},
+																													pos:        position{line: 1623, col: 26, offset: 52650},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26145,15 +26204,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1622, col: 13, offset: 52667},
+																										pos: position{line: 1625, col: 13, offset: 52770},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1622, col: 13, offset: 52667},
+																											pos: position{line: 1625, col: 13, offset: 52770},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1622, col: 13, offset: 52667},
+																													pos: position{line: 1625, col: 13, offset: 52770},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1622, col: 14, offset: 52668},
+																														pos:        position{line: 1625, col: 14, offset: 52771},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26161,7 +26220,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1622, col: 26, offset: 52680},
+																													pos:        position{line: 1625, col: 26, offset: 52783},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26173,12 +26232,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2869, col: 11, offset: 90776},
+																							pos: position{line: 2872, col: 11, offset: 90879},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2869, col: 11, offset: 90776},
+																								pos: position{line: 2872, col: 11, offset: 90879},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2869, col: 11, offset: 90776},
+																									pos:        position{line: 2872, col: 11, offset: 90879},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26191,26 +26250,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1583, col: 5, offset: 51088},
+																			pos:   position{line: 1586, col: 5, offset: 51191},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1530, col: 5, offset: 49555},
+																				pos: position{line: 1533, col: 5, offset: 49658},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1530, col: 5, offset: 49555},
+																					pos: position{line: 1533, col: 5, offset: 49658},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1530, col: 5, offset: 49555},
+																							pos:   position{line: 1533, col: 5, offset: 49658},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1530, col: 14, offset: 49564},
+																								pos: position{line: 1533, col: 14, offset: 49667},
 																								expr: &actionExpr{
-																									pos: position{line: 1530, col: 15, offset: 49565},
+																									pos: position{line: 1533, col: 15, offset: 49668},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1530, col: 15, offset: 49565},
+																										pos: position{line: 1533, col: 15, offset: 49668},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1530, col: 15, offset: 49565},
+																											pos:        position{line: 1533, col: 15, offset: 49668},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26221,28 +26280,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26251,9 +26310,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -26266,27 +26325,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1632, col: 5, offset: 52946},
+																pos: position{line: 1635, col: 5, offset: 53049},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1632, col: 5, offset: 52946},
+																	pos: position{line: 1635, col: 5, offset: 53049},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1632, col: 5, offset: 52946},
+																			pos:   position{line: 1635, col: 5, offset: 53049},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1639, col: 5, offset: 53219},
+																				pos: position{line: 1642, col: 5, offset: 53322},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1639, col: 5, offset: 53219},
+																					pos: position{line: 1642, col: 5, offset: 53322},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1639, col: 5, offset: 53219},
+																							pos: position{line: 1642, col: 5, offset: 53322},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26295,24 +26354,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1640, col: 5, offset: 53231},
+																							pos:   position{line: 1643, col: 5, offset: 53334},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1641, col: 9, offset: 53247},
+																								pos: position{line: 1644, col: 9, offset: 53350},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1641, col: 10, offset: 53248},
+																									pos: position{line: 1644, col: 10, offset: 53351},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1641, col: 11, offset: 53249},
+																											pos:        position{line: 1644, col: 11, offset: 53352},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1641, col: 18, offset: 53256},
+																											pos: position{line: 1644, col: 18, offset: 53359},
 																											expr: &litMatcher{
-																												pos:        position{line: 1641, col: 19, offset: 53257},
+																												pos:        position{line: 1644, col: 19, offset: 53360},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26323,16 +26382,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1644, col: 7, offset: 53347},
+																							pos: position{line: 1647, col: 7, offset: 53450},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2869, col: 11, offset: 90776},
+																							pos: position{line: 2872, col: 11, offset: 90879},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2869, col: 11, offset: 90776},
+																								pos: position{line: 2872, col: 11, offset: 90879},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2869, col: 11, offset: 90776},
+																									pos:        position{line: 2872, col: 11, offset: 90879},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26345,56 +26404,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1633, col: 5, offset: 52987},
+																			pos:   position{line: 1636, col: 5, offset: 53090},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1633, col: 16, offset: 52998},
+																				pos: position{line: 1636, col: 16, offset: 53101},
 																				expr: &actionExpr{
-																					pos: position{line: 1654, col: 5, offset: 53612},
+																					pos: position{line: 1657, col: 5, offset: 53715},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1654, col: 5, offset: 53612},
+																						pos: position{line: 1657, col: 5, offset: 53715},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1654, col: 5, offset: 53612},
+																								pos: position{line: 1657, col: 5, offset: 53715},
 																								expr: &litMatcher{
-																									pos:        position{line: 1654, col: 6, offset: 53613},
+																									pos:        position{line: 1657, col: 6, offset: 53716},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1654, col: 10, offset: 53617},
+																								pos:   position{line: 1657, col: 10, offset: 53720},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1655, col: 7, offset: 53631},
+																									pos: position{line: 1658, col: 7, offset: 53734},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1655, col: 7, offset: 53631},
+																											pos: position{line: 1658, col: 7, offset: 53734},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1655, col: 7, offset: 53631},
+																												pos:        position{line: 1658, col: 7, offset: 53734},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1656, col: 7, offset: 53676},
+																											pos: position{line: 1659, col: 7, offset: 53779},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1656, col: 7, offset: 53676},
+																												pos:        position{line: 1659, col: 7, offset: 53779},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1657, col: 7, offset: 53719},
+																											pos: position{line: 1660, col: 7, offset: 53822},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1657, col: 7, offset: 53719},
+																												pos:        position{line: 1660, col: 7, offset: 53822},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26404,12 +26463,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2869, col: 11, offset: 90776},
+																								pos: position{line: 2872, col: 11, offset: 90879},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2869, col: 11, offset: 90776},
+																									pos: position{line: 2872, col: 11, offset: 90879},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2869, col: 11, offset: 90776},
+																										pos:        position{line: 2872, col: 11, offset: 90879},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26423,26 +26482,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1634, col: 5, offset: 53037},
+																			pos:   position{line: 1637, col: 5, offset: 53140},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1530, col: 5, offset: 49555},
+																				pos: position{line: 1533, col: 5, offset: 49658},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1530, col: 5, offset: 49555},
+																					pos: position{line: 1533, col: 5, offset: 49658},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1530, col: 5, offset: 49555},
+																							pos:   position{line: 1533, col: 5, offset: 49658},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1530, col: 14, offset: 49564},
+																								pos: position{line: 1533, col: 14, offset: 49667},
 																								expr: &actionExpr{
-																									pos: position{line: 1530, col: 15, offset: 49565},
+																									pos: position{line: 1533, col: 15, offset: 49668},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1530, col: 15, offset: 49565},
+																										pos: position{line: 1533, col: 15, offset: 49668},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1530, col: 15, offset: 49565},
+																											pos:        position{line: 1533, col: 15, offset: 49668},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26453,28 +26512,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26483,9 +26542,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -26498,36 +26557,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1723, col: 5, offset: 55591},
+																pos: position{line: 1726, col: 5, offset: 55694},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1723, col: 5, offset: 55591},
+																	pos: position{line: 1726, col: 5, offset: 55694},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1723, col: 5, offset: 55591},
+																			pos:   position{line: 1726, col: 5, offset: 55694},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1729, col: 5, offset: 55788},
+																				pos: position{line: 1732, col: 5, offset: 55891},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1729, col: 5, offset: 55788},
+																					pos: position{line: 1732, col: 5, offset: 55891},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1729, col: 5, offset: 55788},
+																							pos:        position{line: 1732, col: 5, offset: 55891},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1729, col: 9, offset: 55792},
+																							pos:   position{line: 1732, col: 9, offset: 55895},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1729, col: 14, offset: 55797},
+																								pos: position{line: 1732, col: 14, offset: 55900},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1729, col: 14, offset: 55797},
+																									pos: position{line: 1732, col: 14, offset: 55900},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1729, col: 14, offset: 55797},
+																										pos:        position{line: 1732, col: 14, offset: 55900},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26537,18 +26596,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1729, col: 62, offset: 55845},
+																							pos:        position{line: 1732, col: 62, offset: 55948},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2869, col: 11, offset: 90776},
+																							pos: position{line: 2872, col: 11, offset: 90879},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2869, col: 11, offset: 90776},
+																								pos: position{line: 2872, col: 11, offset: 90879},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2869, col: 11, offset: 90776},
+																									pos:        position{line: 2872, col: 11, offset: 90879},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26561,26 +26620,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1724, col: 5, offset: 55627},
+																			pos:   position{line: 1727, col: 5, offset: 55730},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1530, col: 5, offset: 49555},
+																				pos: position{line: 1533, col: 5, offset: 49658},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1530, col: 5, offset: 49555},
+																					pos: position{line: 1533, col: 5, offset: 49658},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1530, col: 5, offset: 49555},
+																							pos:   position{line: 1533, col: 5, offset: 49658},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1530, col: 14, offset: 49564},
+																								pos: position{line: 1533, col: 14, offset: 49667},
 																								expr: &actionExpr{
-																									pos: position{line: 1530, col: 15, offset: 49565},
+																									pos: position{line: 1533, col: 15, offset: 49668},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1530, col: 15, offset: 49565},
+																										pos: position{line: 1533, col: 15, offset: 49668},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1530, col: 15, offset: 49565},
+																											pos:        position{line: 1533, col: 15, offset: 49668},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26591,28 +26650,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26621,9 +26680,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -26636,35 +26695,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1666, col: 5, offset: 53912},
+																pos: position{line: 1669, col: 5, offset: 54015},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1666, col: 5, offset: 53912},
+																	pos: position{line: 1669, col: 5, offset: 54015},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1666, col: 5, offset: 53912},
+																			pos:   position{line: 1669, col: 5, offset: 54015},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1674, col: 5, offset: 54238},
+																				pos: position{line: 1677, col: 5, offset: 54341},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1674, col: 5, offset: 54238},
+																					pos: position{line: 1677, col: 5, offset: 54341},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1674, col: 5, offset: 54238},
+																							pos: position{line: 1677, col: 5, offset: 54341},
 																							expr: &seqExpr{
-																								pos: position{line: 2480, col: 31, offset: 79879},
+																								pos: position{line: 2483, col: 31, offset: 79982},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2480, col: 31, offset: 79879},
+																										pos:        position{line: 2483, col: 31, offset: 79982},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2480, col: 36, offset: 79884},
+																										pos: position{line: 2483, col: 36, offset: 79987},
 																										expr: &litMatcher{
-																											pos:        position{line: 2480, col: 37, offset: 79885},
+																											pos:        position{line: 2483, col: 37, offset: 79988},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -26674,28 +26733,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1675, col: 5, offset: 54270},
+																							pos: position{line: 1678, col: 5, offset: 54373},
 																							expr: &seqExpr{
-																								pos: position{line: 1675, col: 6, offset: 54271},
+																								pos: position{line: 1678, col: 6, offset: 54374},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1675, col: 6, offset: 54271},
+																										pos: position{line: 1678, col: 6, offset: 54374},
 																										expr: &actionExpr{
-																											pos: position{line: 1680, col: 5, offset: 54421},
+																											pos: position{line: 1683, col: 5, offset: 54524},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1680, col: 5, offset: 54421},
+																												pos: position{line: 1683, col: 5, offset: 54524},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1680, col: 5, offset: 54421},
+																														pos:   position{line: 1683, col: 5, offset: 54524},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1680, col: 16, offset: 54432},
+																															pos: position{line: 1683, col: 16, offset: 54535},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1680, col: 16, offset: 54432},
+																																pos: position{line: 1683, col: 16, offset: 54535},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1680, col: 17, offset: 54433},
+																																	pos:        position{line: 1683, col: 17, offset: 54536},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -26704,7 +26763,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1683, col: 5, offset: 54490},
+																														pos: position{line: 1686, col: 5, offset: 54593},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -26712,30 +26771,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1675, col: 35, offset: 54300},
+																										pos: position{line: 1678, col: 35, offset: 54403},
 																										expr: &choiceExpr{
-																											pos: position{line: 2887, col: 8, offset: 91113},
+																											pos: position{line: 2890, col: 8, offset: 91216},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2874, col: 12, offset: 90886},
+																													pos: position{line: 2877, col: 12, offset: 90989},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2874, col: 13, offset: 90887},
+																														pos: position{line: 2877, col: 13, offset: 90990},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26744,16 +26803,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2884, col: 8, offset: 91063},
+																													pos: position{line: 2887, col: 8, offset: 91166},
 																													expr: &anyMatcher{
-																														line: 2884, col: 9, offset: 91064,
+																														line: 2887, col: 9, offset: 91167,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1675, col: 40, offset: 54305,
+																										line: 1678, col: 40, offset: 54408,
 																									},
 																								},
 																							},
@@ -26763,24 +26822,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1667, col: 5, offset: 53947},
+																			pos:   position{line: 1670, col: 5, offset: 54050},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1680, col: 5, offset: 54421},
+																				pos: position{line: 1683, col: 5, offset: 54524},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1680, col: 5, offset: 54421},
+																					pos: position{line: 1683, col: 5, offset: 54524},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1680, col: 5, offset: 54421},
+																							pos:   position{line: 1683, col: 5, offset: 54524},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1680, col: 16, offset: 54432},
+																								pos: position{line: 1683, col: 16, offset: 54535},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1680, col: 16, offset: 54432},
+																									pos: position{line: 1683, col: 16, offset: 54535},
 																									expr: &litMatcher{
-																										pos:        position{line: 1680, col: 17, offset: 54433},
+																										pos:        position{line: 1683, col: 17, offset: 54536},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26789,7 +26848,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1683, col: 5, offset: 54490},
+																							pos: position{line: 1686, col: 5, offset: 54593},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -26797,24 +26856,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1668, col: 5, offset: 53992},
+																			pos:   position{line: 1671, col: 5, offset: 54095},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1691, col: 5, offset: 54739},
+																				pos: position{line: 1694, col: 5, offset: 54842},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1693, col: 9, offset: 54805},
+																						pos: position{line: 1696, col: 9, offset: 54908},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1693, col: 9, offset: 54805},
+																							pos: position{line: 1696, col: 9, offset: 54908},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1693, col: 9, offset: 54805},
+																									pos: position{line: 1696, col: 9, offset: 54908},
 																									expr: &actionExpr{
-																										pos: position{line: 2865, col: 10, offset: 90715},
+																										pos: position{line: 2868, col: 10, offset: 90818},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2865, col: 10, offset: 90715},
+																											pos:        position{line: 2868, col: 10, offset: 90818},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26823,28 +26882,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2887, col: 8, offset: 91113},
+																									pos: position{line: 2890, col: 8, offset: 91216},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2874, col: 12, offset: 90886},
+																											pos: position{line: 2877, col: 12, offset: 90989},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2874, col: 13, offset: 90887},
+																												pos: position{line: 2877, col: 13, offset: 90990},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2874, col: 13, offset: 90887},
+																														pos:        position{line: 2877, col: 13, offset: 90990},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2874, col: 20, offset: 90894},
+																														pos:        position{line: 2877, col: 20, offset: 90997},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2874, col: 29, offset: 90903},
+																														pos:        position{line: 2877, col: 29, offset: 91006},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26853,34 +26912,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2884, col: 8, offset: 91063},
+																											pos: position{line: 2887, col: 8, offset: 91166},
 																											expr: &anyMatcher{
-																												line: 2884, col: 9, offset: 91064,
+																												line: 2887, col: 9, offset: 91167,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1694, col: 9, offset: 54824},
+																									pos: position{line: 1697, col: 9, offset: 54927},
 																									expr: &actionExpr{
-																										pos: position{line: 677, col: 14, offset: 21489},
+																										pos: position{line: 680, col: 14, offset: 21592},
 																										run: (*parser).callonExtraListElement221,
 																										expr: &seqExpr{
-																											pos: position{line: 677, col: 14, offset: 21489},
+																											pos: position{line: 680, col: 14, offset: 21592},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2882, col: 11, offset: 91049},
+																													pos: position{line: 2885, col: 11, offset: 91152},
 																													expr: &anyMatcher{
-																														line: 2882, col: 13, offset: 91051,
+																														line: 2885, col: 13, offset: 91154,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 677, col: 21, offset: 21496},
+																													pos: position{line: 680, col: 21, offset: 21599},
 																													expr: &actionExpr{
-																														pos: position{line: 2865, col: 10, offset: 90715},
+																														pos: position{line: 2868, col: 10, offset: 90818},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2865, col: 10, offset: 90715},
+																															pos:        position{line: 2868, col: 10, offset: 90818},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26889,28 +26948,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2887, col: 8, offset: 91113},
+																													pos: position{line: 2890, col: 8, offset: 91216},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2874, col: 12, offset: 90886},
+																															pos: position{line: 2877, col: 12, offset: 90989},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2874, col: 13, offset: 90887},
+																																pos: position{line: 2877, col: 13, offset: 90990},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2874, col: 13, offset: 90887},
+																																		pos:        position{line: 2877, col: 13, offset: 90990},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2874, col: 20, offset: 90894},
+																																		pos:        position{line: 2877, col: 20, offset: 90997},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2874, col: 29, offset: 90903},
+																																		pos:        position{line: 2877, col: 29, offset: 91006},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26919,9 +26978,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2884, col: 8, offset: 91063},
+																															pos: position{line: 2887, col: 8, offset: 91166},
 																															expr: &anyMatcher{
-																																line: 2884, col: 9, offset: 91064,
+																																line: 2887, col: 9, offset: 91167,
 																															},
 																														},
 																													},
@@ -26934,18 +26993,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1700, col: 9, offset: 54953},
+																						pos: position{line: 1703, col: 9, offset: 55056},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1700, col: 9, offset: 54953},
+																							pos: position{line: 1703, col: 9, offset: 55056},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 11, offset: 90776},
+																									pos: position{line: 2872, col: 11, offset: 90879},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2869, col: 11, offset: 90776},
+																										pos: position{line: 2872, col: 11, offset: 90879},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2869, col: 11, offset: 90776},
+																											pos:        position{line: 2872, col: 11, offset: 90879},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26954,15 +27013,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1701, col: 9, offset: 55026},
+																									pos:   position{line: 1704, col: 9, offset: 55129},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1701, col: 18, offset: 55035},
+																										pos: position{line: 1704, col: 18, offset: 55138},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1701, col: 18, offset: 55035},
+																											pos: position{line: 1704, col: 18, offset: 55138},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1701, col: 18, offset: 55035},
+																												pos:        position{line: 1704, col: 18, offset: 55138},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -26972,28 +27031,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2887, col: 8, offset: 91113},
+																									pos: position{line: 2890, col: 8, offset: 91216},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2874, col: 12, offset: 90886},
+																											pos: position{line: 2877, col: 12, offset: 90989},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2874, col: 13, offset: 90887},
+																												pos: position{line: 2877, col: 13, offset: 90990},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2874, col: 13, offset: 90887},
+																														pos:        position{line: 2877, col: 13, offset: 90990},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2874, col: 20, offset: 90894},
+																														pos:        position{line: 2877, col: 20, offset: 90997},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2874, col: 29, offset: 90903},
+																														pos:        position{line: 2877, col: 29, offset: 91006},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27002,9 +27061,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2884, col: 8, offset: 91063},
+																											pos: position{line: 2887, col: 8, offset: 91166},
 																											expr: &anyMatcher{
-																												line: 2884, col: 9, offset: 91064,
+																												line: 2887, col: 9, offset: 91167,
 																											},
 																										},
 																									},
@@ -27025,50 +27084,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1505, col: 13, offset: 48682},
+										pos: position{line: 1508, col: 13, offset: 48785},
 										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
-											pos: position{line: 1505, col: 13, offset: 48682},
+											pos: position{line: 1508, col: 13, offset: 48785},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1505, col: 13, offset: 48682},
+													pos:   position{line: 1508, col: 13, offset: 48785},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1505, col: 24, offset: 48693},
+														pos: position{line: 1508, col: 24, offset: 48796},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1505, col: 25, offset: 48694},
+															pos:  position{line: 1508, col: 25, offset: 48797},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1506, col: 13, offset: 48725},
+													pos:   position{line: 1509, col: 13, offset: 48828},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1506, col: 22, offset: 48734},
+														pos: position{line: 1509, col: 22, offset: 48837},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1582, col: 5, offset: 51049},
+																pos: position{line: 1585, col: 5, offset: 51152},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1582, col: 5, offset: 51049},
+																	pos: position{line: 1585, col: 5, offset: 51152},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1582, col: 5, offset: 51049},
+																			pos:   position{line: 1585, col: 5, offset: 51152},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1589, col: 5, offset: 51257},
+																				pos: position{line: 1592, col: 5, offset: 51360},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1589, col: 5, offset: 51257},
+																					pos: position{line: 1592, col: 5, offset: 51360},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1589, col: 5, offset: 51257},
+																							pos: position{line: 1592, col: 5, offset: 51360},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27077,27 +27136,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1589, col: 12, offset: 51264},
+																							pos:   position{line: 1592, col: 12, offset: 51367},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1591, col: 9, offset: 51327},
+																								pos: position{line: 1594, col: 9, offset: 51430},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1591, col: 9, offset: 51327},
+																										pos: position{line: 1594, col: 9, offset: 51430},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1591, col: 9, offset: 51327},
+																											pos: position{line: 1594, col: 9, offset: 51430},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1591, col: 9, offset: 51327},
+																													pos:   position{line: 1594, col: 9, offset: 51430},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1591, col: 16, offset: 51334},
+																														pos: position{line: 1594, col: 16, offset: 51437},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1591, col: 16, offset: 51334},
+																															pos: position{line: 1594, col: 16, offset: 51437},
 																															expr: &litMatcher{
-																																pos:        position{line: 1591, col: 17, offset: 51335},
+																																pos:        position{line: 1594, col: 17, offset: 51438},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27106,22 +27165,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1595, col: 9, offset: 51435},
+																													pos: position{line: 1598, col: 9, offset: 51538},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1614, col: 11, offset: 52152},
+																										pos: position{line: 1617, col: 11, offset: 52255},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1614, col: 11, offset: 52152},
+																											pos: position{line: 1617, col: 11, offset: 52255},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1614, col: 11, offset: 52152},
+																													pos: position{line: 1617, col: 11, offset: 52255},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1614, col: 12, offset: 52153},
+																														pos:        position{line: 1617, col: 12, offset: 52256},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27129,7 +27188,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1614, col: 20, offset: 52161},
+																													pos:        position{line: 1617, col: 20, offset: 52264},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27138,20 +27197,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1616, col: 13, offset: 52278},
+																										pos: position{line: 1619, col: 13, offset: 52381},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1616, col: 13, offset: 52278},
+																											pos: position{line: 1619, col: 13, offset: 52381},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1616, col: 14, offset: 52279},
+																													pos:        position{line: 1619, col: 14, offset: 52382},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1616, col: 21, offset: 52286},
+																													pos:        position{line: 1619, col: 21, offset: 52389},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27160,20 +27219,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1618, col: 13, offset: 52406},
+																										pos: position{line: 1621, col: 13, offset: 52509},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1618, col: 13, offset: 52406},
+																											pos: position{line: 1621, col: 13, offset: 52509},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1618, col: 14, offset: 52407},
+																													pos:        position{line: 1621, col: 14, offset: 52510},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1618, col: 21, offset: 52414},
+																													pos:        position{line: 1621, col: 21, offset: 52517},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27182,15 +27241,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1620, col: 13, offset: 52534},
+																										pos: position{line: 1623, col: 13, offset: 52637},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1620, col: 13, offset: 52534},
+																											pos: position{line: 1623, col: 13, offset: 52637},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1620, col: 13, offset: 52534},
+																													pos: position{line: 1623, col: 13, offset: 52637},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1620, col: 14, offset: 52535},
+																														pos:        position{line: 1623, col: 14, offset: 52638},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27198,7 +27257,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1620, col: 26, offset: 52547},
+																													pos:        position{line: 1623, col: 26, offset: 52650},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27207,15 +27266,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1622, col: 13, offset: 52667},
+																										pos: position{line: 1625, col: 13, offset: 52770},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1622, col: 13, offset: 52667},
+																											pos: position{line: 1625, col: 13, offset: 52770},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1622, col: 13, offset: 52667},
+																													pos: position{line: 1625, col: 13, offset: 52770},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1622, col: 14, offset: 52668},
+																														pos:        position{line: 1625, col: 14, offset: 52771},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27223,7 +27282,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1622, col: 26, offset: 52680},
+																													pos:        position{line: 1625, col: 26, offset: 52783},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27235,12 +27294,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2869, col: 11, offset: 90776},
+																							pos: position{line: 2872, col: 11, offset: 90879},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2869, col: 11, offset: 90776},
+																								pos: position{line: 2872, col: 11, offset: 90879},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2869, col: 11, offset: 90776},
+																									pos:        position{line: 2872, col: 11, offset: 90879},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27253,26 +27312,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1583, col: 5, offset: 51088},
+																			pos:   position{line: 1586, col: 5, offset: 51191},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1530, col: 5, offset: 49555},
+																				pos: position{line: 1533, col: 5, offset: 49658},
 																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
-																					pos: position{line: 1530, col: 5, offset: 49555},
+																					pos: position{line: 1533, col: 5, offset: 49658},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1530, col: 5, offset: 49555},
+																							pos:   position{line: 1533, col: 5, offset: 49658},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1530, col: 14, offset: 49564},
+																								pos: position{line: 1533, col: 14, offset: 49667},
 																								expr: &actionExpr{
-																									pos: position{line: 1530, col: 15, offset: 49565},
+																									pos: position{line: 1533, col: 15, offset: 49668},
 																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1530, col: 15, offset: 49565},
+																										pos: position{line: 1533, col: 15, offset: 49668},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1530, col: 15, offset: 49565},
+																											pos:        position{line: 1533, col: 15, offset: 49668},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27283,28 +27342,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27313,9 +27372,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -27328,27 +27387,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1632, col: 5, offset: 52946},
+																pos: position{line: 1635, col: 5, offset: 53049},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1632, col: 5, offset: 52946},
+																	pos: position{line: 1635, col: 5, offset: 53049},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1632, col: 5, offset: 52946},
+																			pos:   position{line: 1635, col: 5, offset: 53049},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1639, col: 5, offset: 53219},
+																				pos: position{line: 1642, col: 5, offset: 53322},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1639, col: 5, offset: 53219},
+																					pos: position{line: 1642, col: 5, offset: 53322},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1639, col: 5, offset: 53219},
+																							pos: position{line: 1642, col: 5, offset: 53322},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27357,24 +27416,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1640, col: 5, offset: 53231},
+																							pos:   position{line: 1643, col: 5, offset: 53334},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1641, col: 9, offset: 53247},
+																								pos: position{line: 1644, col: 9, offset: 53350},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1641, col: 10, offset: 53248},
+																									pos: position{line: 1644, col: 10, offset: 53351},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1641, col: 11, offset: 53249},
+																											pos:        position{line: 1644, col: 11, offset: 53352},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1641, col: 18, offset: 53256},
+																											pos: position{line: 1644, col: 18, offset: 53359},
 																											expr: &litMatcher{
-																												pos:        position{line: 1641, col: 19, offset: 53257},
+																												pos:        position{line: 1644, col: 19, offset: 53360},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27385,16 +27444,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1644, col: 7, offset: 53347},
+																							pos: position{line: 1647, col: 7, offset: 53450},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2869, col: 11, offset: 90776},
+																							pos: position{line: 2872, col: 11, offset: 90879},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2869, col: 11, offset: 90776},
+																								pos: position{line: 2872, col: 11, offset: 90879},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2869, col: 11, offset: 90776},
+																									pos:        position{line: 2872, col: 11, offset: 90879},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27407,56 +27466,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1633, col: 5, offset: 52987},
+																			pos:   position{line: 1636, col: 5, offset: 53090},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1633, col: 16, offset: 52998},
+																				pos: position{line: 1636, col: 16, offset: 53101},
 																				expr: &actionExpr{
-																					pos: position{line: 1654, col: 5, offset: 53612},
+																					pos: position{line: 1657, col: 5, offset: 53715},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1654, col: 5, offset: 53612},
+																						pos: position{line: 1657, col: 5, offset: 53715},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1654, col: 5, offset: 53612},
+																								pos: position{line: 1657, col: 5, offset: 53715},
 																								expr: &litMatcher{
-																									pos:        position{line: 1654, col: 6, offset: 53613},
+																									pos:        position{line: 1657, col: 6, offset: 53716},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1654, col: 10, offset: 53617},
+																								pos:   position{line: 1657, col: 10, offset: 53720},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1655, col: 7, offset: 53631},
+																									pos: position{line: 1658, col: 7, offset: 53734},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1655, col: 7, offset: 53631},
+																											pos: position{line: 1658, col: 7, offset: 53734},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1655, col: 7, offset: 53631},
+																												pos:        position{line: 1658, col: 7, offset: 53734},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1656, col: 7, offset: 53676},
+																											pos: position{line: 1659, col: 7, offset: 53779},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1656, col: 7, offset: 53676},
+																												pos:        position{line: 1659, col: 7, offset: 53779},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1657, col: 7, offset: 53719},
+																											pos: position{line: 1660, col: 7, offset: 53822},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1657, col: 7, offset: 53719},
+																												pos:        position{line: 1660, col: 7, offset: 53822},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27466,12 +27525,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2869, col: 11, offset: 90776},
+																								pos: position{line: 2872, col: 11, offset: 90879},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2869, col: 11, offset: 90776},
+																									pos: position{line: 2872, col: 11, offset: 90879},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2869, col: 11, offset: 90776},
+																										pos:        position{line: 2872, col: 11, offset: 90879},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27485,26 +27544,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1634, col: 5, offset: 53037},
+																			pos:   position{line: 1637, col: 5, offset: 53140},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1530, col: 5, offset: 49555},
+																				pos: position{line: 1533, col: 5, offset: 49658},
 																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
-																					pos: position{line: 1530, col: 5, offset: 49555},
+																					pos: position{line: 1533, col: 5, offset: 49658},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1530, col: 5, offset: 49555},
+																							pos:   position{line: 1533, col: 5, offset: 49658},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1530, col: 14, offset: 49564},
+																								pos: position{line: 1533, col: 14, offset: 49667},
 																								expr: &actionExpr{
-																									pos: position{line: 1530, col: 15, offset: 49565},
+																									pos: position{line: 1533, col: 15, offset: 49668},
 																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1530, col: 15, offset: 49565},
+																										pos: position{line: 1533, col: 15, offset: 49668},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1530, col: 15, offset: 49565},
+																											pos:        position{line: 1533, col: 15, offset: 49668},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27515,28 +27574,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27545,9 +27604,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -27560,36 +27619,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1723, col: 5, offset: 55591},
+																pos: position{line: 1726, col: 5, offset: 55694},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1723, col: 5, offset: 55591},
+																	pos: position{line: 1726, col: 5, offset: 55694},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1723, col: 5, offset: 55591},
+																			pos:   position{line: 1726, col: 5, offset: 55694},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1729, col: 5, offset: 55788},
+																				pos: position{line: 1732, col: 5, offset: 55891},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1729, col: 5, offset: 55788},
+																					pos: position{line: 1732, col: 5, offset: 55891},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1729, col: 5, offset: 55788},
+																							pos:        position{line: 1732, col: 5, offset: 55891},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1729, col: 9, offset: 55792},
+																							pos:   position{line: 1732, col: 9, offset: 55895},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1729, col: 14, offset: 55797},
+																								pos: position{line: 1732, col: 14, offset: 55900},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1729, col: 14, offset: 55797},
+																									pos: position{line: 1732, col: 14, offset: 55900},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1729, col: 14, offset: 55797},
+																										pos:        position{line: 1732, col: 14, offset: 55900},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27599,18 +27658,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1729, col: 62, offset: 55845},
+																							pos:        position{line: 1732, col: 62, offset: 55948},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2869, col: 11, offset: 90776},
+																							pos: position{line: 2872, col: 11, offset: 90879},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2869, col: 11, offset: 90776},
+																								pos: position{line: 2872, col: 11, offset: 90879},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2869, col: 11, offset: 90776},
+																									pos:        position{line: 2872, col: 11, offset: 90879},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27623,26 +27682,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1724, col: 5, offset: 55627},
+																			pos:   position{line: 1727, col: 5, offset: 55730},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1530, col: 5, offset: 49555},
+																				pos: position{line: 1533, col: 5, offset: 49658},
 																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
-																					pos: position{line: 1530, col: 5, offset: 49555},
+																					pos: position{line: 1533, col: 5, offset: 49658},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1530, col: 5, offset: 49555},
+																							pos:   position{line: 1533, col: 5, offset: 49658},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1530, col: 14, offset: 49564},
+																								pos: position{line: 1533, col: 14, offset: 49667},
 																								expr: &actionExpr{
-																									pos: position{line: 1530, col: 15, offset: 49565},
+																									pos: position{line: 1533, col: 15, offset: 49668},
 																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1530, col: 15, offset: 49565},
+																										pos: position{line: 1533, col: 15, offset: 49668},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1530, col: 15, offset: 49565},
+																											pos:        position{line: 1533, col: 15, offset: 49668},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27653,28 +27712,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27683,9 +27742,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -27698,35 +27757,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1666, col: 5, offset: 53912},
+																pos: position{line: 1669, col: 5, offset: 54015},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1666, col: 5, offset: 53912},
+																	pos: position{line: 1669, col: 5, offset: 54015},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1666, col: 5, offset: 53912},
+																			pos:   position{line: 1669, col: 5, offset: 54015},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1674, col: 5, offset: 54238},
+																				pos: position{line: 1677, col: 5, offset: 54341},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1674, col: 5, offset: 54238},
+																					pos: position{line: 1677, col: 5, offset: 54341},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1674, col: 5, offset: 54238},
+																							pos: position{line: 1677, col: 5, offset: 54341},
 																							expr: &seqExpr{
-																								pos: position{line: 2480, col: 31, offset: 79879},
+																								pos: position{line: 2483, col: 31, offset: 79982},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2480, col: 31, offset: 79879},
+																										pos:        position{line: 2483, col: 31, offset: 79982},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2480, col: 36, offset: 79884},
+																										pos: position{line: 2483, col: 36, offset: 79987},
 																										expr: &litMatcher{
-																											pos:        position{line: 2480, col: 37, offset: 79885},
+																											pos:        position{line: 2483, col: 37, offset: 79988},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -27736,28 +27795,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1675, col: 5, offset: 54270},
+																							pos: position{line: 1678, col: 5, offset: 54373},
 																							expr: &seqExpr{
-																								pos: position{line: 1675, col: 6, offset: 54271},
+																								pos: position{line: 1678, col: 6, offset: 54374},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1675, col: 6, offset: 54271},
+																										pos: position{line: 1678, col: 6, offset: 54374},
 																										expr: &actionExpr{
-																											pos: position{line: 1680, col: 5, offset: 54421},
+																											pos: position{line: 1683, col: 5, offset: 54524},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1680, col: 5, offset: 54421},
+																												pos: position{line: 1683, col: 5, offset: 54524},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1680, col: 5, offset: 54421},
+																														pos:   position{line: 1683, col: 5, offset: 54524},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1680, col: 16, offset: 54432},
+																															pos: position{line: 1683, col: 16, offset: 54535},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1680, col: 16, offset: 54432},
+																																pos: position{line: 1683, col: 16, offset: 54535},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1680, col: 17, offset: 54433},
+																																	pos:        position{line: 1683, col: 17, offset: 54536},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -27766,7 +27825,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1683, col: 5, offset: 54490},
+																														pos: position{line: 1686, col: 5, offset: 54593},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -27774,30 +27833,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1675, col: 35, offset: 54300},
+																										pos: position{line: 1678, col: 35, offset: 54403},
 																										expr: &choiceExpr{
-																											pos: position{line: 2887, col: 8, offset: 91113},
+																											pos: position{line: 2890, col: 8, offset: 91216},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2874, col: 12, offset: 90886},
+																													pos: position{line: 2877, col: 12, offset: 90989},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2874, col: 13, offset: 90887},
+																														pos: position{line: 2877, col: 13, offset: 90990},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27806,16 +27865,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2884, col: 8, offset: 91063},
+																													pos: position{line: 2887, col: 8, offset: 91166},
 																													expr: &anyMatcher{
-																														line: 2884, col: 9, offset: 91064,
+																														line: 2887, col: 9, offset: 91167,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1675, col: 40, offset: 54305,
+																										line: 1678, col: 40, offset: 54408,
 																									},
 																								},
 																							},
@@ -27825,24 +27884,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1667, col: 5, offset: 53947},
+																			pos:   position{line: 1670, col: 5, offset: 54050},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1680, col: 5, offset: 54421},
+																				pos: position{line: 1683, col: 5, offset: 54524},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1680, col: 5, offset: 54421},
+																					pos: position{line: 1683, col: 5, offset: 54524},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1680, col: 5, offset: 54421},
+																							pos:   position{line: 1683, col: 5, offset: 54524},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1680, col: 16, offset: 54432},
+																								pos: position{line: 1683, col: 16, offset: 54535},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1680, col: 16, offset: 54432},
+																									pos: position{line: 1683, col: 16, offset: 54535},
 																									expr: &litMatcher{
-																										pos:        position{line: 1680, col: 17, offset: 54433},
+																										pos:        position{line: 1683, col: 17, offset: 54536},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27851,7 +27910,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1683, col: 5, offset: 54490},
+																							pos: position{line: 1686, col: 5, offset: 54593},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -27859,24 +27918,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1668, col: 5, offset: 53992},
+																			pos:   position{line: 1671, col: 5, offset: 54095},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1691, col: 5, offset: 54739},
+																				pos: position{line: 1694, col: 5, offset: 54842},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1693, col: 9, offset: 54805},
+																						pos: position{line: 1696, col: 9, offset: 54908},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1693, col: 9, offset: 54805},
+																							pos: position{line: 1696, col: 9, offset: 54908},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1693, col: 9, offset: 54805},
+																									pos: position{line: 1696, col: 9, offset: 54908},
 																									expr: &actionExpr{
-																										pos: position{line: 2865, col: 10, offset: 90715},
+																										pos: position{line: 2868, col: 10, offset: 90818},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2865, col: 10, offset: 90715},
+																											pos:        position{line: 2868, col: 10, offset: 90818},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27885,28 +27944,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2887, col: 8, offset: 91113},
+																									pos: position{line: 2890, col: 8, offset: 91216},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2874, col: 12, offset: 90886},
+																											pos: position{line: 2877, col: 12, offset: 90989},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2874, col: 13, offset: 90887},
+																												pos: position{line: 2877, col: 13, offset: 90990},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2874, col: 13, offset: 90887},
+																														pos:        position{line: 2877, col: 13, offset: 90990},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2874, col: 20, offset: 90894},
+																														pos:        position{line: 2877, col: 20, offset: 90997},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2874, col: 29, offset: 90903},
+																														pos:        position{line: 2877, col: 29, offset: 91006},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27915,34 +27974,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2884, col: 8, offset: 91063},
+																											pos: position{line: 2887, col: 8, offset: 91166},
 																											expr: &anyMatcher{
-																												line: 2884, col: 9, offset: 91064,
+																												line: 2887, col: 9, offset: 91167,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1694, col: 9, offset: 54824},
+																									pos: position{line: 1697, col: 9, offset: 54927},
 																									expr: &actionExpr{
-																										pos: position{line: 677, col: 14, offset: 21489},
+																										pos: position{line: 680, col: 14, offset: 21592},
 																										run: (*parser).callonExtraListElement454,
 																										expr: &seqExpr{
-																											pos: position{line: 677, col: 14, offset: 21489},
+																											pos: position{line: 680, col: 14, offset: 21592},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2882, col: 11, offset: 91049},
+																													pos: position{line: 2885, col: 11, offset: 91152},
 																													expr: &anyMatcher{
-																														line: 2882, col: 13, offset: 91051,
+																														line: 2885, col: 13, offset: 91154,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 677, col: 21, offset: 21496},
+																													pos: position{line: 680, col: 21, offset: 21599},
 																													expr: &actionExpr{
-																														pos: position{line: 2865, col: 10, offset: 90715},
+																														pos: position{line: 2868, col: 10, offset: 90818},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2865, col: 10, offset: 90715},
+																															pos:        position{line: 2868, col: 10, offset: 90818},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27951,28 +28010,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2887, col: 8, offset: 91113},
+																													pos: position{line: 2890, col: 8, offset: 91216},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2874, col: 12, offset: 90886},
+																															pos: position{line: 2877, col: 12, offset: 90989},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2874, col: 13, offset: 90887},
+																																pos: position{line: 2877, col: 13, offset: 90990},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2874, col: 13, offset: 90887},
+																																		pos:        position{line: 2877, col: 13, offset: 90990},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2874, col: 20, offset: 90894},
+																																		pos:        position{line: 2877, col: 20, offset: 90997},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2874, col: 29, offset: 90903},
+																																		pos:        position{line: 2877, col: 29, offset: 91006},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27981,9 +28040,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2884, col: 8, offset: 91063},
+																															pos: position{line: 2887, col: 8, offset: 91166},
 																															expr: &anyMatcher{
-																																line: 2884, col: 9, offset: 91064,
+																																line: 2887, col: 9, offset: 91167,
 																															},
 																														},
 																													},
@@ -27996,18 +28055,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1700, col: 9, offset: 54953},
+																						pos: position{line: 1703, col: 9, offset: 55056},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1700, col: 9, offset: 54953},
+																							pos: position{line: 1703, col: 9, offset: 55056},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 11, offset: 90776},
+																									pos: position{line: 2872, col: 11, offset: 90879},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2869, col: 11, offset: 90776},
+																										pos: position{line: 2872, col: 11, offset: 90879},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2869, col: 11, offset: 90776},
+																											pos:        position{line: 2872, col: 11, offset: 90879},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28016,15 +28075,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1701, col: 9, offset: 55026},
+																									pos:   position{line: 1704, col: 9, offset: 55129},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1701, col: 18, offset: 55035},
+																										pos: position{line: 1704, col: 18, offset: 55138},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1701, col: 18, offset: 55035},
+																											pos: position{line: 1704, col: 18, offset: 55138},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1701, col: 18, offset: 55035},
+																												pos:        position{line: 1704, col: 18, offset: 55138},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28034,28 +28093,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2887, col: 8, offset: 91113},
+																									pos: position{line: 2890, col: 8, offset: 91216},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2874, col: 12, offset: 90886},
+																											pos: position{line: 2877, col: 12, offset: 90989},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2874, col: 13, offset: 90887},
+																												pos: position{line: 2877, col: 13, offset: 90990},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2874, col: 13, offset: 90887},
+																														pos:        position{line: 2877, col: 13, offset: 90990},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2874, col: 20, offset: 90894},
+																														pos:        position{line: 2877, col: 20, offset: 90997},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2874, col: 29, offset: 90903},
+																														pos:        position{line: 2877, col: 29, offset: 91006},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28064,9 +28123,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2884, col: 8, offset: 91063},
+																											pos: position{line: 2887, col: 8, offset: 91166},
 																											expr: &anyMatcher{
-																												line: 2884, col: 9, offset: 91064,
+																												line: 2887, col: 9, offset: 91167,
 																											},
 																										},
 																									},
@@ -28087,40 +28146,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1509, col: 11, offset: 48919},
+										pos:  position{line: 1512, col: 11, offset: 49022},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2475, col: 22, offset: 79658},
+										pos: position{line: 2478, col: 22, offset: 79761},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2475, col: 22, offset: 79658},
+											pos: position{line: 2478, col: 22, offset: 79761},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2480, col: 31, offset: 79879},
+													pos:        position{line: 2483, col: 31, offset: 79982},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2480, col: 36, offset: 79884},
+													pos: position{line: 2483, col: 36, offset: 79987},
 													expr: &litMatcher{
-														pos:        position{line: 2480, col: 37, offset: 79885},
+														pos:        position{line: 2483, col: 37, offset: 79988},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2475, col: 49, offset: 79685},
+													pos:   position{line: 2478, col: 49, offset: 79788},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2811, col: 13, offset: 89241},
+														pos: position{line: 2814, col: 13, offset: 89344},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2811, col: 13, offset: 89241},
+															pos: position{line: 2814, col: 13, offset: 89344},
 															expr: &charClassMatcher{
-																pos:        position{line: 2811, col: 13, offset: 89241},
+																pos:        position{line: 2814, col: 13, offset: 89344},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28130,28 +28189,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2887, col: 8, offset: 91113},
+													pos: position{line: 2890, col: 8, offset: 91216},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2874, col: 12, offset: 90886},
+															pos: position{line: 2877, col: 12, offset: 90989},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2874, col: 13, offset: 90887},
+																pos: position{line: 2877, col: 13, offset: 90990},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 13, offset: 90887},
+																		pos:        position{line: 2877, col: 13, offset: 90990},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 20, offset: 90894},
+																		pos:        position{line: 2877, col: 20, offset: 90997},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 29, offset: 90903},
+																		pos:        position{line: 2877, col: 29, offset: 91006},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28160,9 +28219,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2884, col: 8, offset: 91063},
+															pos: position{line: 2887, col: 8, offset: 91166},
 															expr: &anyMatcher{
-																line: 2884, col: 9, offset: 91064,
+																line: 2887, col: 9, offset: 91167,
 															},
 														},
 													},
@@ -28171,32 +28230,32 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1517, col: 5, offset: 49197},
+										pos: position{line: 1520, col: 5, offset: 49300},
 										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
-											pos: position{line: 1517, col: 5, offset: 49197},
+											pos: position{line: 1520, col: 5, offset: 49300},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1517, col: 5, offset: 49197},
+													pos: position{line: 1520, col: 5, offset: 49300},
 													expr: &actionExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 680, col: 14, offset: 21592},
 														run: (*parser).callonExtraListElement507,
 														expr: &seqExpr{
-															pos: position{line: 677, col: 14, offset: 21489},
+															pos: position{line: 680, col: 14, offset: 21592},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2882, col: 11, offset: 91049},
+																	pos: position{line: 2885, col: 11, offset: 91152},
 																	expr: &anyMatcher{
-																		line: 2882, col: 13, offset: 91051,
+																		line: 2885, col: 13, offset: 91154,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 677, col: 21, offset: 21496},
+																	pos: position{line: 680, col: 21, offset: 21599},
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 10, offset: 90715},
+																		pos: position{line: 2868, col: 10, offset: 90818},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90715},
+																			pos:        position{line: 2868, col: 10, offset: 90818},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28205,28 +28264,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28235,9 +28294,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -28247,23 +28306,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1518, col: 5, offset: 49212},
+													pos: position{line: 1521, col: 5, offset: 49315},
 													expr: &seqExpr{
-														pos: position{line: 1548, col: 27, offset: 50038},
+														pos: position{line: 1551, col: 27, offset: 50141},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1548, col: 27, offset: 50038},
+																pos:        position{line: 1551, col: 27, offset: 50141},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1548, col: 31, offset: 50042},
+																pos: position{line: 1551, col: 31, offset: 50145},
 																expr: &actionExpr{
-																	pos: position{line: 2865, col: 10, offset: 90715},
+																	pos: position{line: 2868, col: 10, offset: 90818},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2865, col: 10, offset: 90715},
+																		pos:        position{line: 2868, col: 10, offset: 90818},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28272,25 +28331,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2874, col: 12, offset: 90886},
+																pos: position{line: 2877, col: 12, offset: 90989},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 13, offset: 90887},
+																	pos: position{line: 2877, col: 13, offset: 90990},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 13, offset: 90887},
+																			pos:        position{line: 2877, col: 13, offset: 90990},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 20, offset: 90894},
+																			pos:        position{line: 2877, col: 20, offset: 90997},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 29, offset: 90903},
+																			pos:        position{line: 2877, col: 29, offset: 91006},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28302,20 +28361,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1519, col: 5, offset: 49240},
+													pos: position{line: 1522, col: 5, offset: 49343},
 													expr: &actionExpr{
-														pos: position{line: 1589, col: 5, offset: 51257},
+														pos: position{line: 1592, col: 5, offset: 51360},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1589, col: 5, offset: 51257},
+															pos: position{line: 1592, col: 5, offset: 51360},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1589, col: 5, offset: 51257},
+																	pos: position{line: 1592, col: 5, offset: 51360},
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 10, offset: 90715},
+																		pos: position{line: 2868, col: 10, offset: 90818},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90715},
+																			pos:        position{line: 2868, col: 10, offset: 90818},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28324,27 +28383,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1589, col: 12, offset: 51264},
+																	pos:   position{line: 1592, col: 12, offset: 51367},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1591, col: 9, offset: 51327},
+																		pos: position{line: 1594, col: 9, offset: 51430},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1591, col: 9, offset: 51327},
+																				pos: position{line: 1594, col: 9, offset: 51430},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1591, col: 9, offset: 51327},
+																					pos: position{line: 1594, col: 9, offset: 51430},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1591, col: 9, offset: 51327},
+																							pos:   position{line: 1594, col: 9, offset: 51430},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1591, col: 16, offset: 51334},
+																								pos: position{line: 1594, col: 16, offset: 51437},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1591, col: 16, offset: 51334},
+																									pos: position{line: 1594, col: 16, offset: 51437},
 																									expr: &litMatcher{
-																										pos:        position{line: 1591, col: 17, offset: 51335},
+																										pos:        position{line: 1594, col: 17, offset: 51438},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28353,22 +28412,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1595, col: 9, offset: 51435},
+																							pos: position{line: 1598, col: 9, offset: 51538},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 11, offset: 52152},
+																				pos: position{line: 1617, col: 11, offset: 52255},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 11, offset: 52152},
+																					pos: position{line: 1617, col: 11, offset: 52255},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1614, col: 11, offset: 52152},
+																							pos: position{line: 1617, col: 11, offset: 52255},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1614, col: 12, offset: 52153},
+																								pos:        position{line: 1617, col: 12, offset: 52256},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28376,7 +28435,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 20, offset: 52161},
+																							pos:        position{line: 1617, col: 20, offset: 52264},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28385,20 +28444,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52278},
+																				pos: position{line: 1619, col: 13, offset: 52381},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52278},
+																					pos: position{line: 1619, col: 13, offset: 52381},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1616, col: 14, offset: 52279},
+																							pos:        position{line: 1619, col: 14, offset: 52382},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 21, offset: 52286},
+																							pos:        position{line: 1619, col: 21, offset: 52389},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28407,20 +28466,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52406},
+																				pos: position{line: 1621, col: 13, offset: 52509},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52406},
+																					pos: position{line: 1621, col: 13, offset: 52509},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1618, col: 14, offset: 52407},
+																							pos:        position{line: 1621, col: 14, offset: 52510},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 21, offset: 52414},
+																							pos:        position{line: 1621, col: 21, offset: 52517},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28429,15 +28488,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1620, col: 13, offset: 52534},
+																				pos: position{line: 1623, col: 13, offset: 52637},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 13, offset: 52534},
+																					pos: position{line: 1623, col: 13, offset: 52637},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1620, col: 13, offset: 52534},
+																							pos: position{line: 1623, col: 13, offset: 52637},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1620, col: 14, offset: 52535},
+																								pos:        position{line: 1623, col: 14, offset: 52638},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28445,7 +28504,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1620, col: 26, offset: 52547},
+																							pos:        position{line: 1623, col: 26, offset: 52650},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28454,15 +28513,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1622, col: 13, offset: 52667},
+																				pos: position{line: 1625, col: 13, offset: 52770},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1622, col: 13, offset: 52667},
+																					pos: position{line: 1625, col: 13, offset: 52770},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1622, col: 13, offset: 52667},
+																							pos: position{line: 1625, col: 13, offset: 52770},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1622, col: 14, offset: 52668},
+																								pos:        position{line: 1625, col: 14, offset: 52771},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28470,7 +28529,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1622, col: 26, offset: 52680},
+																							pos:        position{line: 1625, col: 26, offset: 52783},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28482,12 +28541,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2869, col: 11, offset: 90776},
+																	pos: position{line: 2872, col: 11, offset: 90879},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2869, col: 11, offset: 90776},
+																		pos: position{line: 2872, col: 11, offset: 90879},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2869, col: 11, offset: 90776},
+																			pos:        position{line: 2872, col: 11, offset: 90879},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28500,20 +28559,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1520, col: 5, offset: 49270},
+													pos: position{line: 1523, col: 5, offset: 49373},
 													expr: &actionExpr{
-														pos: position{line: 1639, col: 5, offset: 53219},
+														pos: position{line: 1642, col: 5, offset: 53322},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1639, col: 5, offset: 53219},
+															pos: position{line: 1642, col: 5, offset: 53322},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1639, col: 5, offset: 53219},
+																	pos: position{line: 1642, col: 5, offset: 53322},
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 10, offset: 90715},
+																		pos: position{line: 2868, col: 10, offset: 90818},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90715},
+																			pos:        position{line: 2868, col: 10, offset: 90818},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28522,24 +28581,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1640, col: 5, offset: 53231},
+																	pos:   position{line: 1643, col: 5, offset: 53334},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1641, col: 9, offset: 53247},
+																		pos: position{line: 1644, col: 9, offset: 53350},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1641, col: 10, offset: 53248},
+																			pos: position{line: 1644, col: 10, offset: 53351},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1641, col: 11, offset: 53249},
+																					pos:        position{line: 1644, col: 11, offset: 53352},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1641, col: 18, offset: 53256},
+																					pos: position{line: 1644, col: 18, offset: 53359},
 																					expr: &litMatcher{
-																						pos:        position{line: 1641, col: 19, offset: 53257},
+																						pos:        position{line: 1644, col: 19, offset: 53360},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28550,16 +28609,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1644, col: 7, offset: 53347},
+																	pos: position{line: 1647, col: 7, offset: 53450},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2869, col: 11, offset: 90776},
+																	pos: position{line: 2872, col: 11, offset: 90879},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2869, col: 11, offset: 90776},
+																		pos: position{line: 2872, col: 11, offset: 90879},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2869, col: 11, offset: 90776},
+																			pos:        position{line: 2872, col: 11, offset: 90879},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28572,29 +28631,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1521, col: 5, offset: 49302},
+													pos: position{line: 1524, col: 5, offset: 49405},
 													expr: &actionExpr{
-														pos: position{line: 1729, col: 5, offset: 55788},
+														pos: position{line: 1732, col: 5, offset: 55891},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1729, col: 5, offset: 55788},
+															pos: position{line: 1732, col: 5, offset: 55891},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1729, col: 5, offset: 55788},
+																	pos:        position{line: 1732, col: 5, offset: 55891},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1729, col: 9, offset: 55792},
+																	pos:   position{line: 1732, col: 9, offset: 55895},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1729, col: 14, offset: 55797},
+																		pos: position{line: 1732, col: 14, offset: 55900},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1729, col: 14, offset: 55797},
+																			pos: position{line: 1732, col: 14, offset: 55900},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1729, col: 14, offset: 55797},
+																				pos:        position{line: 1732, col: 14, offset: 55900},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28604,18 +28663,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1729, col: 62, offset: 55845},
+																	pos:        position{line: 1732, col: 62, offset: 55948},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2869, col: 11, offset: 90776},
+																	pos: position{line: 2872, col: 11, offset: 90879},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2869, col: 11, offset: 90776},
+																		pos: position{line: 2872, col: 11, offset: 90879},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2869, col: 11, offset: 90776},
+																			pos:        position{line: 2872, col: 11, offset: 90879},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28628,31 +28687,31 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1522, col: 5, offset: 49332},
+													pos: position{line: 1525, col: 5, offset: 49435},
 													expr: &seqExpr{
-														pos: position{line: 1522, col: 7, offset: 49334},
+														pos: position{line: 1525, col: 7, offset: 49437},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1674, col: 5, offset: 54238},
+																pos: position{line: 1677, col: 5, offset: 54341},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1674, col: 5, offset: 54238},
+																	pos: position{line: 1677, col: 5, offset: 54341},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1674, col: 5, offset: 54238},
+																			pos: position{line: 1677, col: 5, offset: 54341},
 																			expr: &seqExpr{
-																				pos: position{line: 2480, col: 31, offset: 79879},
+																				pos: position{line: 2483, col: 31, offset: 79982},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2480, col: 31, offset: 79879},
+																						pos:        position{line: 2483, col: 31, offset: 79982},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2480, col: 36, offset: 79884},
+																						pos: position{line: 2483, col: 36, offset: 79987},
 																						expr: &litMatcher{
-																							pos:        position{line: 2480, col: 37, offset: 79885},
+																							pos:        position{line: 2483, col: 37, offset: 79988},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
@@ -28662,28 +28721,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1675, col: 5, offset: 54270},
+																			pos: position{line: 1678, col: 5, offset: 54373},
 																			expr: &seqExpr{
-																				pos: position{line: 1675, col: 6, offset: 54271},
+																				pos: position{line: 1678, col: 6, offset: 54374},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1675, col: 6, offset: 54271},
+																						pos: position{line: 1678, col: 6, offset: 54374},
 																						expr: &actionExpr{
-																							pos: position{line: 1680, col: 5, offset: 54421},
+																							pos: position{line: 1683, col: 5, offset: 54524},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1680, col: 5, offset: 54421},
+																								pos: position{line: 1683, col: 5, offset: 54524},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1680, col: 5, offset: 54421},
+																										pos:   position{line: 1683, col: 5, offset: 54524},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1680, col: 16, offset: 54432},
+																											pos: position{line: 1683, col: 16, offset: 54535},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1680, col: 16, offset: 54432},
+																												pos: position{line: 1683, col: 16, offset: 54535},
 																												expr: &litMatcher{
-																													pos:        position{line: 1680, col: 17, offset: 54433},
+																													pos:        position{line: 1683, col: 17, offset: 54536},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -28692,7 +28751,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1683, col: 5, offset: 54490},
+																										pos: position{line: 1686, col: 5, offset: 54593},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -28700,30 +28759,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1675, col: 35, offset: 54300},
+																						pos: position{line: 1678, col: 35, offset: 54403},
 																						expr: &choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28732,16 +28791,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1675, col: 40, offset: 54305,
+																						line: 1678, col: 40, offset: 54408,
 																					},
 																				},
 																			},
@@ -28750,21 +28809,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1680, col: 5, offset: 54421},
+																pos: position{line: 1683, col: 5, offset: 54524},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1680, col: 5, offset: 54421},
+																	pos: position{line: 1683, col: 5, offset: 54524},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1680, col: 5, offset: 54421},
+																			pos:   position{line: 1683, col: 5, offset: 54524},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1680, col: 16, offset: 54432},
+																				pos: position{line: 1683, col: 16, offset: 54535},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1680, col: 16, offset: 54432},
+																					pos: position{line: 1683, col: 16, offset: 54535},
 																					expr: &litMatcher{
-																						pos:        position{line: 1680, col: 17, offset: 54433},
+																						pos:        position{line: 1683, col: 17, offset: 54536},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28773,7 +28832,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1683, col: 5, offset: 54490},
+																			pos: position{line: 1686, col: 5, offset: 54593},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -28783,17 +28842,17 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1523, col: 5, offset: 49390},
+													pos: position{line: 1526, col: 5, offset: 49493},
 													expr: &actionExpr{
-														pos: position{line: 724, col: 5, offset: 23042},
+														pos: position{line: 727, col: 5, offset: 23145},
 														run: (*parser).callonExtraListElement639,
 														expr: &seqExpr{
-															pos: position{line: 724, col: 5, offset: 23042},
+															pos: position{line: 727, col: 5, offset: 23145},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 724, col: 5, offset: 23042},
+																	pos: position{line: 727, col: 5, offset: 23145},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2755, col: 13, offset: 87810},
+																		pos:        position{line: 2758, col: 13, offset: 87913},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28801,36 +28860,36 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 725, col: 5, offset: 23072},
+																	pos:   position{line: 728, col: 5, offset: 23175},
 																	label: "delimiter",
 																	expr: &choiceExpr{
-																		pos: position{line: 726, col: 9, offset: 23092},
+																		pos: position{line: 729, col: 9, offset: 23195},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 740, col: 5, offset: 23584},
+																				pos: position{line: 743, col: 5, offset: 23687},
 																				run: (*parser).callonExtraListElement645,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 743, col: 5, offset: 23687},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 740, col: 5, offset: 23584},
+																							pos:   position{line: 743, col: 5, offset: 23687},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 16, offset: 23595},
+																								pos: position{line: 743, col: 16, offset: 23698},
 																								run: (*parser).callonExtraListElement648,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 743, col: 16, offset: 23698},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 740, col: 16, offset: 23595},
+																											pos:        position{line: 743, col: 16, offset: 23698},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 740, col: 23, offset: 23602},
+																											pos: position{line: 743, col: 23, offset: 23705},
 																											expr: &litMatcher{
-																												pos:        position{line: 740, col: 23, offset: 23602},
+																												pos:        position{line: 743, col: 23, offset: 23705},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -28841,12 +28900,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 742, col: 8, offset: 23686},
+																							pos: position{line: 745, col: 8, offset: 23789},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28855,28 +28914,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28885,9 +28944,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -28896,30 +28955,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 747, col: 5, offset: 23832},
+																				pos: position{line: 750, col: 5, offset: 23935},
 																				run: (*parser).callonExtraListElement664,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 5, offset: 23832},
+																					pos: position{line: 750, col: 5, offset: 23935},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 747, col: 5, offset: 23832},
+																							pos:   position{line: 750, col: 5, offset: 23935},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 16, offset: 23843},
+																								pos: position{line: 750, col: 16, offset: 23946},
 																								run: (*parser).callonExtraListElement667,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 16, offset: 23843},
+																									pos: position{line: 750, col: 16, offset: 23946},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 747, col: 16, offset: 23843},
+																											pos:        position{line: 750, col: 16, offset: 23946},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 747, col: 23, offset: 23850},
+																											pos: position{line: 750, col: 23, offset: 23953},
 																											expr: &litMatcher{
-																												pos:        position{line: 747, col: 23, offset: 23850},
+																												pos:        position{line: 750, col: 23, offset: 23953},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -28930,12 +28989,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 8, offset: 23934},
+																							pos: position{line: 752, col: 8, offset: 24037},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28944,28 +29003,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28974,9 +29033,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -28985,27 +29044,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 760, col: 26, offset: 24320},
+																				pos: position{line: 763, col: 26, offset: 24423},
 																				run: (*parser).callonExtraListElement683,
 																				expr: &seqExpr{
-																					pos: position{line: 760, col: 26, offset: 24320},
+																					pos: position{line: 763, col: 26, offset: 24423},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 760, col: 26, offset: 24320},
+																							pos:        position{line: 763, col: 26, offset: 24423},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 760, col: 32, offset: 24326},
+																							pos:   position{line: 763, col: 32, offset: 24429},
 																							label: "language",
 																							expr: &actionExpr{
-																								pos: position{line: 764, col: 13, offset: 24456},
+																								pos: position{line: 767, col: 13, offset: 24559},
 																								run: (*parser).callonExtraListElement687,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 764, col: 14, offset: 24457},
+																									pos: position{line: 767, col: 14, offset: 24560},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 764, col: 14, offset: 24457},
+																										pos:        position{line: 767, col: 14, offset: 24560},
 																										val:        "[^\\r\\n` ]",
 																										chars:      []rune{'\r', '\n', '`', ' '},
 																										ignoreCase: false,
@@ -29015,12 +29074,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 760, col: 52, offset: 24346},
+																							pos: position{line: 763, col: 52, offset: 24449},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29029,28 +29088,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29059,9 +29118,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -29070,30 +29129,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 754, col: 5, offset: 24079},
+																				pos: position{line: 757, col: 5, offset: 24182},
 																				run: (*parser).callonExtraListElement701,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 5, offset: 24079},
+																					pos: position{line: 757, col: 5, offset: 24182},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 754, col: 5, offset: 24079},
+																							pos:   position{line: 757, col: 5, offset: 24182},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 16, offset: 24090},
+																								pos: position{line: 757, col: 16, offset: 24193},
 																								run: (*parser).callonExtraListElement704,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 16, offset: 24090},
+																									pos: position{line: 757, col: 16, offset: 24193},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 754, col: 16, offset: 24090},
+																											pos:        position{line: 757, col: 16, offset: 24193},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 754, col: 22, offset: 24096},
+																											pos: position{line: 757, col: 22, offset: 24199},
 																											expr: &litMatcher{
-																												pos:        position{line: 754, col: 22, offset: 24096},
+																												pos:        position{line: 757, col: 22, offset: 24199},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -29104,12 +29163,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 8, offset: 24180},
+																							pos: position{line: 759, col: 8, offset: 24283},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29118,28 +29177,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29148,9 +29207,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -29159,30 +29218,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 769, col: 5, offset: 24616},
+																				pos: position{line: 772, col: 5, offset: 24719},
 																				run: (*parser).callonExtraListElement720,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 5, offset: 24616},
+																					pos: position{line: 772, col: 5, offset: 24719},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 769, col: 5, offset: 24616},
+																							pos:   position{line: 772, col: 5, offset: 24719},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 16, offset: 24627},
+																								pos: position{line: 772, col: 16, offset: 24730},
 																								run: (*parser).callonExtraListElement723,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 16, offset: 24627},
+																									pos: position{line: 772, col: 16, offset: 24730},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 769, col: 16, offset: 24627},
+																											pos:        position{line: 772, col: 16, offset: 24730},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 23, offset: 24634},
+																											pos: position{line: 772, col: 23, offset: 24737},
 																											expr: &litMatcher{
-																												pos:        position{line: 769, col: 23, offset: 24634},
+																												pos:        position{line: 772, col: 23, offset: 24737},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -29193,12 +29252,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 771, col: 8, offset: 24718},
+																							pos: position{line: 774, col: 8, offset: 24821},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29207,28 +29266,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29237,9 +29296,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -29248,30 +29307,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 783, col: 5, offset: 25092},
+																				pos: position{line: 786, col: 5, offset: 25195},
 																				run: (*parser).callonExtraListElement739,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 5, offset: 25092},
+																					pos: position{line: 786, col: 5, offset: 25195},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 783, col: 5, offset: 25092},
+																							pos:   position{line: 786, col: 5, offset: 25195},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 16, offset: 25103},
+																								pos: position{line: 786, col: 16, offset: 25206},
 																								run: (*parser).callonExtraListElement742,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 16, offset: 25103},
+																									pos: position{line: 786, col: 16, offset: 25206},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 783, col: 16, offset: 25103},
+																											pos:        position{line: 786, col: 16, offset: 25206},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 783, col: 23, offset: 25110},
+																											pos: position{line: 786, col: 23, offset: 25213},
 																											expr: &litMatcher{
-																												pos:        position{line: 783, col: 23, offset: 25110},
+																												pos:        position{line: 786, col: 23, offset: 25213},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -29282,12 +29341,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 8, offset: 25194},
+																							pos: position{line: 788, col: 8, offset: 25297},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29296,28 +29355,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29326,9 +29385,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -29337,30 +29396,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 790, col: 5, offset: 25344},
+																				pos: position{line: 793, col: 5, offset: 25447},
 																				run: (*parser).callonExtraListElement758,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 5, offset: 25344},
+																					pos: position{line: 793, col: 5, offset: 25447},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 790, col: 5, offset: 25344},
+																							pos:   position{line: 793, col: 5, offset: 25447},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 16, offset: 25355},
+																								pos: position{line: 793, col: 16, offset: 25458},
 																								run: (*parser).callonExtraListElement761,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 16, offset: 25355},
+																									pos: position{line: 793, col: 16, offset: 25458},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 790, col: 16, offset: 25355},
+																											pos:        position{line: 793, col: 16, offset: 25458},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 790, col: 23, offset: 25362},
+																											pos: position{line: 793, col: 23, offset: 25465},
 																											expr: &litMatcher{
-																												pos:        position{line: 790, col: 23, offset: 25362},
+																												pos:        position{line: 793, col: 23, offset: 25465},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -29371,12 +29430,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 792, col: 8, offset: 25446},
+																							pos: position{line: 795, col: 8, offset: 25549},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29385,28 +29444,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29415,9 +29474,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -29426,30 +29485,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 797, col: 5, offset: 25594},
+																				pos: position{line: 800, col: 5, offset: 25697},
 																				run: (*parser).callonExtraListElement777,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 5, offset: 25594},
+																					pos: position{line: 800, col: 5, offset: 25697},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 797, col: 5, offset: 25594},
+																							pos:   position{line: 800, col: 5, offset: 25697},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 16, offset: 25605},
+																								pos: position{line: 800, col: 16, offset: 25708},
 																								run: (*parser).callonExtraListElement780,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 16, offset: 25605},
+																									pos: position{line: 800, col: 16, offset: 25708},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 797, col: 16, offset: 25605},
+																											pos:        position{line: 800, col: 16, offset: 25708},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 797, col: 23, offset: 25612},
+																											pos: position{line: 800, col: 23, offset: 25715},
 																											expr: &litMatcher{
-																												pos:        position{line: 797, col: 23, offset: 25612},
+																												pos:        position{line: 800, col: 23, offset: 25715},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -29460,12 +29519,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 8, offset: 25696},
+																							pos: position{line: 802, col: 8, offset: 25799},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29474,28 +29533,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29504,9 +29563,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -29515,30 +29574,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 804, col: 5, offset: 25840},
+																				pos: position{line: 807, col: 5, offset: 25943},
 																				run: (*parser).callonExtraListElement796,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 5, offset: 25840},
+																					pos: position{line: 807, col: 5, offset: 25943},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 804, col: 5, offset: 25840},
+																							pos:   position{line: 807, col: 5, offset: 25943},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 16, offset: 25851},
+																								pos: position{line: 807, col: 16, offset: 25954},
 																								run: (*parser).callonExtraListElement799,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 16, offset: 25851},
+																									pos: position{line: 807, col: 16, offset: 25954},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 804, col: 16, offset: 25851},
+																											pos:        position{line: 807, col: 16, offset: 25954},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 804, col: 23, offset: 25858},
+																											pos: position{line: 807, col: 23, offset: 25961},
 																											expr: &litMatcher{
-																												pos:        position{line: 804, col: 23, offset: 25858},
+																												pos:        position{line: 807, col: 23, offset: 25961},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -29549,12 +29608,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 8, offset: 25942},
+																							pos: position{line: 809, col: 8, offset: 26045},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29563,28 +29622,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29593,9 +29652,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -29611,15 +29670,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1524, col: 5, offset: 49410},
+													pos:   position{line: 1527, col: 5, offset: 49513},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2815, col: 14, offset: 89308},
+														pos: position{line: 2818, col: 14, offset: 89411},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2815, col: 14, offset: 89308},
+															pos: position{line: 2818, col: 14, offset: 89411},
 															expr: &charClassMatcher{
-																pos:        position{line: 2815, col: 14, offset: 89308},
+																pos:        position{line: 2818, col: 14, offset: 89411},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29629,28 +29688,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2887, col: 8, offset: 91113},
+													pos: position{line: 2890, col: 8, offset: 91216},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2874, col: 12, offset: 90886},
+															pos: position{line: 2877, col: 12, offset: 90989},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2874, col: 13, offset: 90887},
+																pos: position{line: 2877, col: 13, offset: 90990},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 13, offset: 90887},
+																		pos:        position{line: 2877, col: 13, offset: 90990},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 20, offset: 90894},
+																		pos:        position{line: 2877, col: 20, offset: 90997},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 29, offset: 90903},
+																		pos:        position{line: 2877, col: 29, offset: 91006},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29659,9 +29718,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2884, col: 8, offset: 91063},
+															pos: position{line: 2887, col: 8, offset: 91166},
 															expr: &anyMatcher{
-																line: 2884, col: 9, offset: 91064,
+																line: 2887, col: 9, offset: 91167,
 															},
 														},
 													},
@@ -29678,28 +29737,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1540, col: 1, offset: 49801},
+			pos:  position{line: 1543, col: 1, offset: 49904},
 			expr: &actionExpr{
-				pos: position{line: 1541, col: 5, offset: 49826},
+				pos: position{line: 1544, col: 5, offset: 49929},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1541, col: 5, offset: 49826},
+					pos: position{line: 1544, col: 5, offset: 49929},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1541, col: 5, offset: 49826},
+							pos:   position{line: 1544, col: 5, offset: 49929},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1541, col: 12, offset: 49833},
+								pos: position{line: 1544, col: 12, offset: 49936},
 								expr: &seqExpr{
-									pos: position{line: 1541, col: 13, offset: 49834},
+									pos: position{line: 1544, col: 13, offset: 49937},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1541, col: 13, offset: 49834},
+											pos: position{line: 1544, col: 13, offset: 49937},
 											expr: &actionExpr{
-												pos: position{line: 2865, col: 10, offset: 90715},
+												pos: position{line: 2868, col: 10, offset: 90818},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2865, col: 10, offset: 90715},
+													pos:        position{line: 2868, col: 10, offset: 90818},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29708,25 +29767,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2874, col: 12, offset: 90886},
+											pos: position{line: 2877, col: 12, offset: 90989},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2874, col: 13, offset: 90887},
+												pos: position{line: 2877, col: 13, offset: 90990},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2874, col: 13, offset: 90887},
+														pos:        position{line: 2877, col: 13, offset: 90990},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2874, col: 20, offset: 90894},
+														pos:        position{line: 2877, col: 20, offset: 90997},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2874, col: 29, offset: 90903},
+														pos:        position{line: 2877, col: 29, offset: 91006},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29739,18 +29798,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1548, col: 27, offset: 50038},
+							pos:        position{line: 1551, col: 27, offset: 50141},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1548, col: 31, offset: 50042},
+							pos: position{line: 1551, col: 31, offset: 50145},
 							expr: &actionExpr{
-								pos: position{line: 2865, col: 10, offset: 90715},
+								pos: position{line: 2868, col: 10, offset: 90818},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2865, col: 10, offset: 90715},
+									pos:        position{line: 2868, col: 10, offset: 90818},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29759,25 +29818,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2874, col: 12, offset: 90886},
+							pos: position{line: 2877, col: 12, offset: 90989},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2874, col: 13, offset: 90887},
+								pos: position{line: 2877, col: 13, offset: 90990},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2874, col: 13, offset: 90887},
+										pos:        position{line: 2877, col: 13, offset: 90990},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2874, col: 20, offset: 90894},
+										pos:        position{line: 2877, col: 20, offset: 90997},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2874, col: 29, offset: 90903},
+										pos:        position{line: 2877, col: 29, offset: 91006},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29786,12 +29845,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1543, col: 5, offset: 49883},
+							pos:   position{line: 1546, col: 5, offset: 49986},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1543, col: 13, offset: 49891},
+								pos: position{line: 1546, col: 13, offset: 49994},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1543, col: 13, offset: 49891},
+									pos:  position{line: 1546, col: 13, offset: 49994},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29802,46 +29861,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1550, col: 1, offset: 50058},
+			pos:  position{line: 1553, col: 1, offset: 50161},
 			expr: &actionExpr{
-				pos: position{line: 1551, col: 5, offset: 50129},
+				pos: position{line: 1554, col: 5, offset: 50232},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1551, col: 5, offset: 50129},
+					pos: position{line: 1554, col: 5, offset: 50232},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2882, col: 11, offset: 91049},
+							pos: position{line: 2885, col: 11, offset: 91152},
 							expr: &anyMatcher{
-								line: 2882, col: 13, offset: 91051,
+								line: 2885, col: 13, offset: 91154,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1552, col: 5, offset: 50157},
+							pos: position{line: 1555, col: 5, offset: 50260},
 							expr: &choiceExpr{
-								pos: position{line: 1489, col: 5, offset: 48115},
+								pos: position{line: 1492, col: 5, offset: 48218},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1582, col: 5, offset: 51049},
+										pos: position{line: 1585, col: 5, offset: 51152},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1582, col: 5, offset: 51049},
+											pos: position{line: 1585, col: 5, offset: 51152},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1582, col: 5, offset: 51049},
+													pos:   position{line: 1585, col: 5, offset: 51152},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1589, col: 5, offset: 51257},
+														pos: position{line: 1592, col: 5, offset: 51360},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1589, col: 5, offset: 51257},
+															pos: position{line: 1592, col: 5, offset: 51360},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1589, col: 5, offset: 51257},
+																	pos: position{line: 1592, col: 5, offset: 51360},
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 10, offset: 90715},
+																		pos: position{line: 2868, col: 10, offset: 90818},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90715},
+																			pos:        position{line: 2868, col: 10, offset: 90818},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29850,27 +29909,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1589, col: 12, offset: 51264},
+																	pos:   position{line: 1592, col: 12, offset: 51367},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1591, col: 9, offset: 51327},
+																		pos: position{line: 1594, col: 9, offset: 51430},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1591, col: 9, offset: 51327},
+																				pos: position{line: 1594, col: 9, offset: 51430},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1591, col: 9, offset: 51327},
+																					pos: position{line: 1594, col: 9, offset: 51430},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1591, col: 9, offset: 51327},
+																							pos:   position{line: 1594, col: 9, offset: 51430},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1591, col: 16, offset: 51334},
+																								pos: position{line: 1594, col: 16, offset: 51437},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1591, col: 16, offset: 51334},
+																									pos: position{line: 1594, col: 16, offset: 51437},
 																									expr: &litMatcher{
-																										pos:        position{line: 1591, col: 17, offset: 51335},
+																										pos:        position{line: 1594, col: 17, offset: 51438},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29879,22 +29938,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1595, col: 9, offset: 51435},
+																							pos: position{line: 1598, col: 9, offset: 51538},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1614, col: 11, offset: 52152},
+																				pos: position{line: 1617, col: 11, offset: 52255},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1614, col: 11, offset: 52152},
+																					pos: position{line: 1617, col: 11, offset: 52255},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1614, col: 11, offset: 52152},
+																							pos: position{line: 1617, col: 11, offset: 52255},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1614, col: 12, offset: 52153},
+																								pos:        position{line: 1617, col: 12, offset: 52256},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29902,7 +29961,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1614, col: 20, offset: 52161},
+																							pos:        position{line: 1617, col: 20, offset: 52264},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29911,20 +29970,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1616, col: 13, offset: 52278},
+																				pos: position{line: 1619, col: 13, offset: 52381},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1616, col: 13, offset: 52278},
+																					pos: position{line: 1619, col: 13, offset: 52381},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1616, col: 14, offset: 52279},
+																							pos:        position{line: 1619, col: 14, offset: 52382},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1616, col: 21, offset: 52286},
+																							pos:        position{line: 1619, col: 21, offset: 52389},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29933,20 +29992,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1618, col: 13, offset: 52406},
+																				pos: position{line: 1621, col: 13, offset: 52509},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1618, col: 13, offset: 52406},
+																					pos: position{line: 1621, col: 13, offset: 52509},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1618, col: 14, offset: 52407},
+																							pos:        position{line: 1621, col: 14, offset: 52510},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1618, col: 21, offset: 52414},
+																							pos:        position{line: 1621, col: 21, offset: 52517},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29955,15 +30014,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1620, col: 13, offset: 52534},
+																				pos: position{line: 1623, col: 13, offset: 52637},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1620, col: 13, offset: 52534},
+																					pos: position{line: 1623, col: 13, offset: 52637},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1620, col: 13, offset: 52534},
+																							pos: position{line: 1623, col: 13, offset: 52637},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1620, col: 14, offset: 52535},
+																								pos:        position{line: 1623, col: 14, offset: 52638},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -29971,7 +30030,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1620, col: 26, offset: 52547},
+																							pos:        position{line: 1623, col: 26, offset: 52650},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -29980,15 +30039,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1622, col: 13, offset: 52667},
+																				pos: position{line: 1625, col: 13, offset: 52770},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1622, col: 13, offset: 52667},
+																					pos: position{line: 1625, col: 13, offset: 52770},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1622, col: 13, offset: 52667},
+																							pos: position{line: 1625, col: 13, offset: 52770},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1622, col: 14, offset: 52668},
+																								pos:        position{line: 1625, col: 14, offset: 52771},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -29996,7 +30055,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1622, col: 26, offset: 52680},
+																							pos:        position{line: 1625, col: 26, offset: 52783},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30008,12 +30067,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2869, col: 11, offset: 90776},
+																	pos: position{line: 2872, col: 11, offset: 90879},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2869, col: 11, offset: 90776},
+																		pos: position{line: 2872, col: 11, offset: 90879},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2869, col: 11, offset: 90776},
+																			pos:        position{line: 2872, col: 11, offset: 90879},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30026,26 +30085,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1583, col: 5, offset: 51088},
+													pos:   position{line: 1586, col: 5, offset: 51191},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1530, col: 5, offset: 49555},
+														pos: position{line: 1533, col: 5, offset: 49658},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1530, col: 5, offset: 49555},
+															pos: position{line: 1533, col: 5, offset: 49658},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1530, col: 5, offset: 49555},
+																	pos:   position{line: 1533, col: 5, offset: 49658},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1530, col: 14, offset: 49564},
+																		pos: position{line: 1533, col: 14, offset: 49667},
 																		expr: &actionExpr{
-																			pos: position{line: 1530, col: 15, offset: 49565},
+																			pos: position{line: 1533, col: 15, offset: 49668},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1530, col: 15, offset: 49565},
+																				pos: position{line: 1533, col: 15, offset: 49668},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1530, col: 15, offset: 49565},
+																					pos:        position{line: 1533, col: 15, offset: 49668},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30056,28 +30115,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30086,9 +30145,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -30101,27 +30160,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1632, col: 5, offset: 52946},
+										pos: position{line: 1635, col: 5, offset: 53049},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1632, col: 5, offset: 52946},
+											pos: position{line: 1635, col: 5, offset: 53049},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1632, col: 5, offset: 52946},
+													pos:   position{line: 1635, col: 5, offset: 53049},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1639, col: 5, offset: 53219},
+														pos: position{line: 1642, col: 5, offset: 53322},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1639, col: 5, offset: 53219},
+															pos: position{line: 1642, col: 5, offset: 53322},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1639, col: 5, offset: 53219},
+																	pos: position{line: 1642, col: 5, offset: 53322},
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 10, offset: 90715},
+																		pos: position{line: 2868, col: 10, offset: 90818},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90715},
+																			pos:        position{line: 2868, col: 10, offset: 90818},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30130,24 +30189,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1640, col: 5, offset: 53231},
+																	pos:   position{line: 1643, col: 5, offset: 53334},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1641, col: 9, offset: 53247},
+																		pos: position{line: 1644, col: 9, offset: 53350},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1641, col: 10, offset: 53248},
+																			pos: position{line: 1644, col: 10, offset: 53351},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1641, col: 11, offset: 53249},
+																					pos:        position{line: 1644, col: 11, offset: 53352},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1641, col: 18, offset: 53256},
+																					pos: position{line: 1644, col: 18, offset: 53359},
 																					expr: &litMatcher{
-																						pos:        position{line: 1641, col: 19, offset: 53257},
+																						pos:        position{line: 1644, col: 19, offset: 53360},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -30158,16 +30217,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1644, col: 7, offset: 53347},
+																	pos: position{line: 1647, col: 7, offset: 53450},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2869, col: 11, offset: 90776},
+																	pos: position{line: 2872, col: 11, offset: 90879},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2869, col: 11, offset: 90776},
+																		pos: position{line: 2872, col: 11, offset: 90879},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2869, col: 11, offset: 90776},
+																			pos:        position{line: 2872, col: 11, offset: 90879},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30180,56 +30239,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1633, col: 5, offset: 52987},
+													pos:   position{line: 1636, col: 5, offset: 53090},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1633, col: 16, offset: 52998},
+														pos: position{line: 1636, col: 16, offset: 53101},
 														expr: &actionExpr{
-															pos: position{line: 1654, col: 5, offset: 53612},
+															pos: position{line: 1657, col: 5, offset: 53715},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1654, col: 5, offset: 53612},
+																pos: position{line: 1657, col: 5, offset: 53715},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1654, col: 5, offset: 53612},
+																		pos: position{line: 1657, col: 5, offset: 53715},
 																		expr: &litMatcher{
-																			pos:        position{line: 1654, col: 6, offset: 53613},
+																			pos:        position{line: 1657, col: 6, offset: 53716},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1654, col: 10, offset: 53617},
+																		pos:   position{line: 1657, col: 10, offset: 53720},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1655, col: 7, offset: 53631},
+																			pos: position{line: 1658, col: 7, offset: 53734},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1655, col: 7, offset: 53631},
+																					pos: position{line: 1658, col: 7, offset: 53734},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1655, col: 7, offset: 53631},
+																						pos:        position{line: 1658, col: 7, offset: 53734},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1656, col: 7, offset: 53676},
+																					pos: position{line: 1659, col: 7, offset: 53779},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1656, col: 7, offset: 53676},
+																						pos:        position{line: 1659, col: 7, offset: 53779},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1657, col: 7, offset: 53719},
+																					pos: position{line: 1660, col: 7, offset: 53822},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1657, col: 7, offset: 53719},
+																						pos:        position{line: 1660, col: 7, offset: 53822},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -30239,12 +30298,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2869, col: 11, offset: 90776},
+																		pos: position{line: 2872, col: 11, offset: 90879},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2869, col: 11, offset: 90776},
+																			pos: position{line: 2872, col: 11, offset: 90879},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2869, col: 11, offset: 90776},
+																				pos:        position{line: 2872, col: 11, offset: 90879},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30258,26 +30317,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1634, col: 5, offset: 53037},
+													pos:   position{line: 1637, col: 5, offset: 53140},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1530, col: 5, offset: 49555},
+														pos: position{line: 1533, col: 5, offset: 49658},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1530, col: 5, offset: 49555},
+															pos: position{line: 1533, col: 5, offset: 49658},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1530, col: 5, offset: 49555},
+																	pos:   position{line: 1533, col: 5, offset: 49658},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1530, col: 14, offset: 49564},
+																		pos: position{line: 1533, col: 14, offset: 49667},
 																		expr: &actionExpr{
-																			pos: position{line: 1530, col: 15, offset: 49565},
+																			pos: position{line: 1533, col: 15, offset: 49668},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1530, col: 15, offset: 49565},
+																				pos: position{line: 1533, col: 15, offset: 49668},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1530, col: 15, offset: 49565},
+																					pos:        position{line: 1533, col: 15, offset: 49668},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30288,28 +30347,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30318,9 +30377,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -30333,36 +30392,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1723, col: 5, offset: 55591},
+										pos: position{line: 1726, col: 5, offset: 55694},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1723, col: 5, offset: 55591},
+											pos: position{line: 1726, col: 5, offset: 55694},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1723, col: 5, offset: 55591},
+													pos:   position{line: 1726, col: 5, offset: 55694},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1729, col: 5, offset: 55788},
+														pos: position{line: 1732, col: 5, offset: 55891},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1729, col: 5, offset: 55788},
+															pos: position{line: 1732, col: 5, offset: 55891},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1729, col: 5, offset: 55788},
+																	pos:        position{line: 1732, col: 5, offset: 55891},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1729, col: 9, offset: 55792},
+																	pos:   position{line: 1732, col: 9, offset: 55895},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1729, col: 14, offset: 55797},
+																		pos: position{line: 1732, col: 14, offset: 55900},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1729, col: 14, offset: 55797},
+																			pos: position{line: 1732, col: 14, offset: 55900},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1729, col: 14, offset: 55797},
+																				pos:        position{line: 1732, col: 14, offset: 55900},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30372,18 +30431,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1729, col: 62, offset: 55845},
+																	pos:        position{line: 1732, col: 62, offset: 55948},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2869, col: 11, offset: 90776},
+																	pos: position{line: 2872, col: 11, offset: 90879},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2869, col: 11, offset: 90776},
+																		pos: position{line: 2872, col: 11, offset: 90879},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2869, col: 11, offset: 90776},
+																			pos:        position{line: 2872, col: 11, offset: 90879},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30396,26 +30455,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1724, col: 5, offset: 55627},
+													pos:   position{line: 1727, col: 5, offset: 55730},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1530, col: 5, offset: 49555},
+														pos: position{line: 1533, col: 5, offset: 49658},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1530, col: 5, offset: 49555},
+															pos: position{line: 1533, col: 5, offset: 49658},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1530, col: 5, offset: 49555},
+																	pos:   position{line: 1533, col: 5, offset: 49658},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1530, col: 14, offset: 49564},
+																		pos: position{line: 1533, col: 14, offset: 49667},
 																		expr: &actionExpr{
-																			pos: position{line: 1530, col: 15, offset: 49565},
+																			pos: position{line: 1533, col: 15, offset: 49668},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1530, col: 15, offset: 49565},
+																				pos: position{line: 1533, col: 15, offset: 49668},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1530, col: 15, offset: 49565},
+																					pos:        position{line: 1533, col: 15, offset: 49668},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30426,28 +30485,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30456,9 +30515,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -30471,35 +30530,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1666, col: 5, offset: 53912},
+										pos: position{line: 1669, col: 5, offset: 54015},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1666, col: 5, offset: 53912},
+											pos: position{line: 1669, col: 5, offset: 54015},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1666, col: 5, offset: 53912},
+													pos:   position{line: 1669, col: 5, offset: 54015},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1674, col: 5, offset: 54238},
+														pos: position{line: 1677, col: 5, offset: 54341},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1674, col: 5, offset: 54238},
+															pos: position{line: 1677, col: 5, offset: 54341},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1674, col: 5, offset: 54238},
+																	pos: position{line: 1677, col: 5, offset: 54341},
 																	expr: &seqExpr{
-																		pos: position{line: 2480, col: 31, offset: 79879},
+																		pos: position{line: 2483, col: 31, offset: 79982},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2480, col: 31, offset: 79879},
+																				pos:        position{line: 2483, col: 31, offset: 79982},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2480, col: 36, offset: 79884},
+																				pos: position{line: 2483, col: 36, offset: 79987},
 																				expr: &litMatcher{
-																					pos:        position{line: 2480, col: 37, offset: 79885},
+																					pos:        position{line: 2483, col: 37, offset: 79988},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -30509,28 +30568,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1675, col: 5, offset: 54270},
+																	pos: position{line: 1678, col: 5, offset: 54373},
 																	expr: &seqExpr{
-																		pos: position{line: 1675, col: 6, offset: 54271},
+																		pos: position{line: 1678, col: 6, offset: 54374},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1675, col: 6, offset: 54271},
+																				pos: position{line: 1678, col: 6, offset: 54374},
 																				expr: &actionExpr{
-																					pos: position{line: 1680, col: 5, offset: 54421},
+																					pos: position{line: 1683, col: 5, offset: 54524},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1680, col: 5, offset: 54421},
+																						pos: position{line: 1683, col: 5, offset: 54524},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1680, col: 5, offset: 54421},
+																								pos:   position{line: 1683, col: 5, offset: 54524},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1680, col: 16, offset: 54432},
+																									pos: position{line: 1683, col: 16, offset: 54535},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1680, col: 16, offset: 54432},
+																										pos: position{line: 1683, col: 16, offset: 54535},
 																										expr: &litMatcher{
-																											pos:        position{line: 1680, col: 17, offset: 54433},
+																											pos:        position{line: 1683, col: 17, offset: 54536},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -30539,7 +30598,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1683, col: 5, offset: 54490},
+																								pos: position{line: 1686, col: 5, offset: 54593},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -30547,30 +30606,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1675, col: 35, offset: 54300},
+																				pos: position{line: 1678, col: 35, offset: 54403},
 																				expr: &choiceExpr{
-																					pos: position{line: 2887, col: 8, offset: 91113},
+																					pos: position{line: 2890, col: 8, offset: 91216},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2874, col: 12, offset: 90886},
+																							pos: position{line: 2877, col: 12, offset: 90989},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2874, col: 13, offset: 90887},
+																								pos: position{line: 2877, col: 13, offset: 90990},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 90887},
+																										pos:        position{line: 2877, col: 13, offset: 90990},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 20, offset: 90894},
+																										pos:        position{line: 2877, col: 20, offset: 90997},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 29, offset: 90903},
+																										pos:        position{line: 2877, col: 29, offset: 91006},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30579,16 +30638,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2884, col: 8, offset: 91063},
+																							pos: position{line: 2887, col: 8, offset: 91166},
 																							expr: &anyMatcher{
-																								line: 2884, col: 9, offset: 91064,
+																								line: 2887, col: 9, offset: 91167,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1675, col: 40, offset: 54305,
+																				line: 1678, col: 40, offset: 54408,
 																			},
 																		},
 																	},
@@ -30598,24 +30657,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1667, col: 5, offset: 53947},
+													pos:   position{line: 1670, col: 5, offset: 54050},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1680, col: 5, offset: 54421},
+														pos: position{line: 1683, col: 5, offset: 54524},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1680, col: 5, offset: 54421},
+															pos: position{line: 1683, col: 5, offset: 54524},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1680, col: 5, offset: 54421},
+																	pos:   position{line: 1683, col: 5, offset: 54524},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1680, col: 16, offset: 54432},
+																		pos: position{line: 1683, col: 16, offset: 54535},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1680, col: 16, offset: 54432},
+																			pos: position{line: 1683, col: 16, offset: 54535},
 																			expr: &litMatcher{
-																				pos:        position{line: 1680, col: 17, offset: 54433},
+																				pos:        position{line: 1683, col: 17, offset: 54536},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30624,7 +30683,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1683, col: 5, offset: 54490},
+																	pos: position{line: 1686, col: 5, offset: 54593},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -30632,24 +30691,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1668, col: 5, offset: 53992},
+													pos:   position{line: 1671, col: 5, offset: 54095},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1691, col: 5, offset: 54739},
+														pos: position{line: 1694, col: 5, offset: 54842},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1693, col: 9, offset: 54805},
+																pos: position{line: 1696, col: 9, offset: 54908},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1693, col: 9, offset: 54805},
+																	pos: position{line: 1696, col: 9, offset: 54908},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1693, col: 9, offset: 54805},
+																			pos: position{line: 1696, col: 9, offset: 54908},
 																			expr: &actionExpr{
-																				pos: position{line: 2865, col: 10, offset: 90715},
+																				pos: position{line: 2868, col: 10, offset: 90818},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2865, col: 10, offset: 90715},
+																					pos:        position{line: 2868, col: 10, offset: 90818},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30658,28 +30717,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2887, col: 8, offset: 91113},
+																			pos: position{line: 2890, col: 8, offset: 91216},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2874, col: 12, offset: 90886},
+																					pos: position{line: 2877, col: 12, offset: 90989},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2874, col: 13, offset: 90887},
+																						pos: position{line: 2877, col: 13, offset: 90990},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 13, offset: 90887},
+																								pos:        position{line: 2877, col: 13, offset: 90990},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 20, offset: 90894},
+																								pos:        position{line: 2877, col: 20, offset: 90997},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 29, offset: 90903},
+																								pos:        position{line: 2877, col: 29, offset: 91006},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30688,34 +30747,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1694, col: 9, offset: 54824},
+																			pos: position{line: 1697, col: 9, offset: 54927},
 																			expr: &actionExpr{
-																				pos: position{line: 677, col: 14, offset: 21489},
+																				pos: position{line: 680, col: 14, offset: 21592},
 																				run: (*parser).callonListContinuationElement201,
 																				expr: &seqExpr{
-																					pos: position{line: 677, col: 14, offset: 21489},
+																					pos: position{line: 680, col: 14, offset: 21592},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2882, col: 11, offset: 91049},
+																							pos: position{line: 2885, col: 11, offset: 91152},
 																							expr: &anyMatcher{
-																								line: 2882, col: 13, offset: 91051,
+																								line: 2885, col: 13, offset: 91154,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 677, col: 21, offset: 21496},
+																							pos: position{line: 680, col: 21, offset: 21599},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30724,28 +30783,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30754,9 +30813,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -30769,18 +30828,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1700, col: 9, offset: 54953},
+																pos: position{line: 1703, col: 9, offset: 55056},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1700, col: 9, offset: 54953},
+																	pos: position{line: 1703, col: 9, offset: 55056},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2869, col: 11, offset: 90776},
+																			pos: position{line: 2872, col: 11, offset: 90879},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2869, col: 11, offset: 90776},
+																				pos: position{line: 2872, col: 11, offset: 90879},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2869, col: 11, offset: 90776},
+																					pos:        position{line: 2872, col: 11, offset: 90879},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30789,15 +30848,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1701, col: 9, offset: 55026},
+																			pos:   position{line: 1704, col: 9, offset: 55129},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1701, col: 18, offset: 55035},
+																				pos: position{line: 1704, col: 18, offset: 55138},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1701, col: 18, offset: 55035},
+																					pos: position{line: 1704, col: 18, offset: 55138},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1701, col: 18, offset: 55035},
+																						pos:        position{line: 1704, col: 18, offset: 55138},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30807,28 +30866,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2887, col: 8, offset: 91113},
+																			pos: position{line: 2890, col: 8, offset: 91216},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2874, col: 12, offset: 90886},
+																					pos: position{line: 2877, col: 12, offset: 90989},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2874, col: 13, offset: 90887},
+																						pos: position{line: 2877, col: 13, offset: 90990},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 13, offset: 90887},
+																								pos:        position{line: 2877, col: 13, offset: 90990},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 20, offset: 90894},
+																								pos:        position{line: 2877, col: 20, offset: 90997},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 29, offset: 90903},
+																								pos:        position{line: 2877, col: 29, offset: 91006},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30837,9 +30896,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
@@ -30857,41 +30916,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1553, col: 5, offset: 50174},
+							pos:   position{line: 1556, col: 5, offset: 50277},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1553, col: 16, offset: 50185},
+								pos: position{line: 1556, col: 16, offset: 50288},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1553, col: 17, offset: 50186},
+									pos:  position{line: 1556, col: 17, offset: 50289},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1554, col: 5, offset: 50208},
+							pos:   position{line: 1557, col: 5, offset: 50311},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1555, col: 9, offset: 50226},
+								pos: position{line: 1558, col: 9, offset: 50329},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 677, col: 14, offset: 21489},
+										pos: position{line: 680, col: 14, offset: 21592},
 										run: (*parser).callonListContinuationElement238,
 										expr: &seqExpr{
-											pos: position{line: 677, col: 14, offset: 21489},
+											pos: position{line: 680, col: 14, offset: 21592},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2882, col: 11, offset: 91049},
+													pos: position{line: 2885, col: 11, offset: 91152},
 													expr: &anyMatcher{
-														line: 2882, col: 13, offset: 91051,
+														line: 2885, col: 13, offset: 91154,
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 677, col: 21, offset: 21496},
+													pos: position{line: 680, col: 21, offset: 21599},
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 10, offset: 90715},
+														pos: position{line: 2868, col: 10, offset: 90818},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2865, col: 10, offset: 90715},
+															pos:        position{line: 2868, col: 10, offset: 90818},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30900,28 +30959,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2887, col: 8, offset: 91113},
+													pos: position{line: 2890, col: 8, offset: 91216},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2874, col: 12, offset: 90886},
+															pos: position{line: 2877, col: 12, offset: 90989},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2874, col: 13, offset: 90887},
+																pos: position{line: 2877, col: 13, offset: 90990},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 13, offset: 90887},
+																		pos:        position{line: 2877, col: 13, offset: 90990},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 20, offset: 90894},
+																		pos:        position{line: 2877, col: 20, offset: 90997},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 29, offset: 90903},
+																		pos:        position{line: 2877, col: 29, offset: 91006},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30930,9 +30989,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2884, col: 8, offset: 91063},
+															pos: position{line: 2887, col: 8, offset: 91166},
 															expr: &anyMatcher{
-																line: 2884, col: 9, offset: 91064,
+																line: 2887, col: 9, offset: 91167,
 															},
 														},
 													},
@@ -30941,7 +31000,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1556, col: 11, offset: 50246},
+										pos:  position{line: 1559, col: 11, offset: 50349},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -30997,10 +31056,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 360, col: 49, offset: 10940},
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 10, offset: 90715},
+														pos: position{line: 2868, col: 10, offset: 90818},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2865, col: 10, offset: 90715},
+															pos:        position{line: 2868, col: 10, offset: 90818},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31009,28 +31068,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2887, col: 8, offset: 91113},
+													pos: position{line: 2890, col: 8, offset: 91216},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2874, col: 12, offset: 90886},
+															pos: position{line: 2877, col: 12, offset: 90989},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2874, col: 13, offset: 90887},
+																pos: position{line: 2877, col: 13, offset: 90990},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 13, offset: 90887},
+																		pos:        position{line: 2877, col: 13, offset: 90990},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 20, offset: 90894},
+																		pos:        position{line: 2877, col: 20, offset: 90997},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 29, offset: 90903},
+																		pos:        position{line: 2877, col: 29, offset: 91006},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31039,9 +31098,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2884, col: 8, offset: 91063},
+															pos: position{line: 2887, col: 8, offset: 91166},
 															expr: &anyMatcher{
-																line: 2884, col: 9, offset: 91064,
+																line: 2887, col: 9, offset: 91167,
 															},
 														},
 													},
@@ -31102,10 +31161,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 362, col: 39, offset: 11061},
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 10, offset: 90715},
+														pos: position{line: 2868, col: 10, offset: 90818},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2865, col: 10, offset: 90715},
+															pos:        position{line: 2868, col: 10, offset: 90818},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31114,28 +31173,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2887, col: 8, offset: 91113},
+													pos: position{line: 2890, col: 8, offset: 91216},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2874, col: 12, offset: 90886},
+															pos: position{line: 2877, col: 12, offset: 90989},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2874, col: 13, offset: 90887},
+																pos: position{line: 2877, col: 13, offset: 90990},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 13, offset: 90887},
+																		pos:        position{line: 2877, col: 13, offset: 90990},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 20, offset: 90894},
+																		pos:        position{line: 2877, col: 20, offset: 90997},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 29, offset: 90903},
+																		pos:        position{line: 2877, col: 29, offset: 91006},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31144,9 +31203,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2884, col: 8, offset: 91063},
+															pos: position{line: 2887, col: 8, offset: 91166},
 															expr: &anyMatcher{
-																line: 2884, col: 9, offset: 91064,
+																line: 2887, col: 9, offset: 91167,
 															},
 														},
 													},
@@ -31155,39 +31214,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 820, col: 5, offset: 26324},
+										pos: position{line: 823, col: 5, offset: 26427},
 										run: (*parser).callonListContinuationElement296,
 										expr: &seqExpr{
-											pos: position{line: 820, col: 5, offset: 26324},
+											pos: position{line: 823, col: 5, offset: 26427},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 820, col: 5, offset: 26324},
+													pos:   position{line: 823, col: 5, offset: 26427},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 740, col: 5, offset: 23584},
+														pos: position{line: 743, col: 5, offset: 23687},
 														run: (*parser).callonListContinuationElement299,
 														expr: &seqExpr{
-															pos: position{line: 740, col: 5, offset: 23584},
+															pos: position{line: 743, col: 5, offset: 23687},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 740, col: 5, offset: 23584},
+																	pos:   position{line: 743, col: 5, offset: 23687},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 740, col: 16, offset: 23595},
+																		pos: position{line: 743, col: 16, offset: 23698},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &seqExpr{
-																			pos: position{line: 740, col: 16, offset: 23595},
+																			pos: position{line: 743, col: 16, offset: 23698},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 740, col: 16, offset: 23595},
+																					pos:        position{line: 743, col: 16, offset: 23698},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 740, col: 23, offset: 23602},
+																					pos: position{line: 743, col: 23, offset: 23705},
 																					expr: &litMatcher{
-																						pos:        position{line: 740, col: 23, offset: 23602},
+																						pos:        position{line: 743, col: 23, offset: 23705},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -31198,12 +31257,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 742, col: 8, offset: 23686},
+																	pos: position{line: 745, col: 8, offset: 23789},
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 10, offset: 90715},
+																		pos: position{line: 2868, col: 10, offset: 90818},
 																		run: (*parser).callonListContinuationElement308,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90715},
+																			pos:        position{line: 2868, col: 10, offset: 90818},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31212,28 +31271,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonListContinuationElement311,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31242,9 +31301,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -31254,56 +31313,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 821, col: 5, offset: 26363},
+													pos: position{line: 824, col: 5, offset: 26466},
 													run: (*parser).callonListContinuationElement318,
 												},
 												&labeledExpr{
-													pos:   position{line: 824, col: 5, offset: 26455},
+													pos:   position{line: 827, col: 5, offset: 26558},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 839, col: 5, offset: 26853},
+														pos: position{line: 842, col: 5, offset: 26956},
 														expr: &actionExpr{
-															pos: position{line: 839, col: 6, offset: 26854},
+															pos: position{line: 842, col: 6, offset: 26957},
 															run: (*parser).callonListContinuationElement321,
 															expr: &seqExpr{
-																pos: position{line: 839, col: 6, offset: 26854},
+																pos: position{line: 842, col: 6, offset: 26957},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 839, col: 6, offset: 26854},
+																		pos: position{line: 842, col: 6, offset: 26957},
 																		expr: &choiceExpr{
-																			pos: position{line: 832, col: 5, offset: 26695},
+																			pos: position{line: 835, col: 5, offset: 26798},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 832, col: 5, offset: 26695},
+																					pos: position{line: 835, col: 5, offset: 26798},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 832, col: 5, offset: 26695},
+																							pos:   position{line: 835, col: 5, offset: 26798},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 5, offset: 23584},
+																								pos: position{line: 743, col: 5, offset: 23687},
 																								run: (*parser).callonListContinuationElement327,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 5, offset: 23584},
+																									pos: position{line: 743, col: 5, offset: 23687},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 740, col: 5, offset: 23584},
+																											pos:   position{line: 743, col: 5, offset: 23687},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 740, col: 16, offset: 23595},
+																												pos: position{line: 743, col: 16, offset: 23698},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &seqExpr{
-																													pos: position{line: 740, col: 16, offset: 23595},
+																													pos: position{line: 743, col: 16, offset: 23698},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 740, col: 16, offset: 23595},
+																															pos:        position{line: 743, col: 16, offset: 23698},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 740, col: 23, offset: 23602},
+																															pos: position{line: 743, col: 23, offset: 23705},
 																															expr: &litMatcher{
-																																pos:        position{line: 740, col: 23, offset: 23602},
+																																pos:        position{line: 743, col: 23, offset: 23705},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -31314,12 +31373,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 742, col: 8, offset: 23686},
+																											pos: position{line: 745, col: 8, offset: 23789},
 																											expr: &actionExpr{
-																												pos: position{line: 2865, col: 10, offset: 90715},
+																												pos: position{line: 2868, col: 10, offset: 90818},
 																												run: (*parser).callonListContinuationElement336,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 10, offset: 90715},
+																													pos:        position{line: 2868, col: 10, offset: 90818},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31328,28 +31387,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2887, col: 8, offset: 91113},
+																											pos: position{line: 2890, col: 8, offset: 91216},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2874, col: 12, offset: 90886},
+																													pos: position{line: 2877, col: 12, offset: 90989},
 																													run: (*parser).callonListContinuationElement339,
 																													expr: &choiceExpr{
-																														pos: position{line: 2874, col: 13, offset: 90887},
+																														pos: position{line: 2877, col: 13, offset: 90990},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31358,9 +31417,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2884, col: 8, offset: 91063},
+																													pos: position{line: 2887, col: 8, offset: 91166},
 																													expr: &anyMatcher{
-																														line: 2884, col: 9, offset: 91064,
+																														line: 2887, col: 9, offset: 91167,
 																													},
 																												},
 																											},
@@ -31370,45 +31429,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 833, col: 5, offset: 26726},
+																							pos: position{line: 836, col: 5, offset: 26829},
 																							run: (*parser).callonListContinuationElement346,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 840, col: 5, offset: 26884},
+																		pos:   position{line: 843, col: 5, offset: 26987},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 814, col: 5, offset: 26191},
 																			run: (*parser).callonListContinuationElement350,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 814, col: 5, offset: 26191},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2882, col: 11, offset: 91049},
+																						pos: position{line: 2885, col: 11, offset: 91152},
 																						expr: &anyMatcher{
-																							line: 2882, col: 13, offset: 91051,
+																							line: 2885, col: 13, offset: 91154,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 815, col: 5, offset: 26266},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2811, col: 13, offset: 89241},
+																							pos: position{line: 2814, col: 13, offset: 89344},
 																							run: (*parser).callonListContinuationElement355,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2811, col: 13, offset: 89241},
+																								pos: position{line: 2814, col: 13, offset: 89344},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2811, col: 13, offset: 89241},
+																									pos:        position{line: 2814, col: 13, offset: 89344},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31418,28 +31477,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2887, col: 8, offset: 91113},
+																						pos: position{line: 2890, col: 8, offset: 91216},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2874, col: 12, offset: 90886},
+																								pos: position{line: 2877, col: 12, offset: 90989},
 																								run: (*parser).callonListContinuationElement359,
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 13, offset: 90887},
+																									pos: position{line: 2877, col: 13, offset: 90990},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 13, offset: 90887},
+																											pos:        position{line: 2877, col: 13, offset: 90990},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 20, offset: 90894},
+																											pos:        position{line: 2877, col: 20, offset: 90997},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 29, offset: 90903},
+																											pos:        position{line: 2877, col: 29, offset: 91006},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31448,9 +31507,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2884, col: 8, offset: 91063},
+																								pos: position{line: 2887, col: 8, offset: 91166},
 																								expr: &anyMatcher{
-																									line: 2884, col: 9, offset: 91064,
+																									line: 2887, col: 9, offset: 91167,
 																								},
 																							},
 																						},
@@ -31465,44 +31524,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 825, col: 5, offset: 26489},
+													pos:   position{line: 828, col: 5, offset: 26592},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 825, col: 9, offset: 26493},
+														pos: position{line: 828, col: 9, offset: 26596},
 														expr: &choiceExpr{
-															pos: position{line: 832, col: 5, offset: 26695},
+															pos: position{line: 835, col: 5, offset: 26798},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 832, col: 5, offset: 26695},
+																	pos: position{line: 835, col: 5, offset: 26798},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 832, col: 5, offset: 26695},
+																			pos:   position{line: 835, col: 5, offset: 26798},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 740, col: 5, offset: 23584},
+																				pos: position{line: 743, col: 5, offset: 23687},
 																				run: (*parser).callonListContinuationElement371,
 																				expr: &seqExpr{
-																					pos: position{line: 740, col: 5, offset: 23584},
+																					pos: position{line: 743, col: 5, offset: 23687},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 740, col: 5, offset: 23584},
+																							pos:   position{line: 743, col: 5, offset: 23687},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 740, col: 16, offset: 23595},
+																								pos: position{line: 743, col: 16, offset: 23698},
 																								run: (*parser).callonListContinuationElement374,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 16, offset: 23595},
+																									pos: position{line: 743, col: 16, offset: 23698},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 740, col: 16, offset: 23595},
+																											pos:        position{line: 743, col: 16, offset: 23698},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 740, col: 23, offset: 23602},
+																											pos: position{line: 743, col: 23, offset: 23705},
 																											expr: &litMatcher{
-																												pos:        position{line: 740, col: 23, offset: 23602},
+																												pos:        position{line: 743, col: 23, offset: 23705},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -31513,12 +31572,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 742, col: 8, offset: 23686},
+																							pos: position{line: 745, col: 8, offset: 23789},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonListContinuationElement380,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31527,28 +31586,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonListContinuationElement383,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31557,9 +31616,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -31569,15 +31628,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 833, col: 5, offset: 26726},
+																			pos: position{line: 836, col: 5, offset: 26829},
 																			run: (*parser).callonListContinuationElement390,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2884, col: 8, offset: 91063},
+																	pos: position{line: 2887, col: 8, offset: 91166},
 																	expr: &anyMatcher{
-																		line: 2884, col: 9, offset: 91064,
+																		line: 2887, col: 9, offset: 91167,
 																	},
 																},
 															},
@@ -31588,39 +31647,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 848, col: 5, offset: 27037},
+										pos: position{line: 851, col: 5, offset: 27140},
 										run: (*parser).callonListContinuationElement393,
 										expr: &seqExpr{
-											pos: position{line: 848, col: 5, offset: 27037},
+											pos: position{line: 851, col: 5, offset: 27140},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 848, col: 5, offset: 27037},
+													pos:   position{line: 851, col: 5, offset: 27140},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 747, col: 5, offset: 23832},
+														pos: position{line: 750, col: 5, offset: 23935},
 														run: (*parser).callonListContinuationElement396,
 														expr: &seqExpr{
-															pos: position{line: 747, col: 5, offset: 23832},
+															pos: position{line: 750, col: 5, offset: 23935},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 747, col: 5, offset: 23832},
+																	pos:   position{line: 750, col: 5, offset: 23935},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 747, col: 16, offset: 23843},
+																		pos: position{line: 750, col: 16, offset: 23946},
 																		run: (*parser).callonListContinuationElement399,
 																		expr: &seqExpr{
-																			pos: position{line: 747, col: 16, offset: 23843},
+																			pos: position{line: 750, col: 16, offset: 23946},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 747, col: 16, offset: 23843},
+																					pos:        position{line: 750, col: 16, offset: 23946},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 747, col: 23, offset: 23850},
+																					pos: position{line: 750, col: 23, offset: 23953},
 																					expr: &litMatcher{
-																						pos:        position{line: 747, col: 23, offset: 23850},
+																						pos:        position{line: 750, col: 23, offset: 23953},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -31631,12 +31690,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 749, col: 8, offset: 23934},
+																	pos: position{line: 752, col: 8, offset: 24037},
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 10, offset: 90715},
+																		pos: position{line: 2868, col: 10, offset: 90818},
 																		run: (*parser).callonListContinuationElement405,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90715},
+																			pos:        position{line: 2868, col: 10, offset: 90818},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31645,28 +31704,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonListContinuationElement408,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31675,9 +31734,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -31687,56 +31746,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 849, col: 5, offset: 27076},
+													pos: position{line: 852, col: 5, offset: 27179},
 													run: (*parser).callonListContinuationElement415,
 												},
 												&labeledExpr{
-													pos:   position{line: 852, col: 5, offset: 27168},
+													pos:   position{line: 855, col: 5, offset: 27271},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 867, col: 4, offset: 27565},
+														pos: position{line: 870, col: 4, offset: 27668},
 														expr: &actionExpr{
-															pos: position{line: 867, col: 5, offset: 27566},
+															pos: position{line: 870, col: 5, offset: 27669},
 															run: (*parser).callonListContinuationElement418,
 															expr: &seqExpr{
-																pos: position{line: 867, col: 5, offset: 27566},
+																pos: position{line: 870, col: 5, offset: 27669},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 867, col: 5, offset: 27566},
+																		pos: position{line: 870, col: 5, offset: 27669},
 																		expr: &choiceExpr{
-																			pos: position{line: 860, col: 5, offset: 27408},
+																			pos: position{line: 863, col: 5, offset: 27511},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 860, col: 5, offset: 27408},
+																					pos: position{line: 863, col: 5, offset: 27511},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 860, col: 5, offset: 27408},
+																							pos:   position{line: 863, col: 5, offset: 27511},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 5, offset: 23832},
+																								pos: position{line: 750, col: 5, offset: 23935},
 																								run: (*parser).callonListContinuationElement424,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 5, offset: 23832},
+																									pos: position{line: 750, col: 5, offset: 23935},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 747, col: 5, offset: 23832},
+																											pos:   position{line: 750, col: 5, offset: 23935},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 747, col: 16, offset: 23843},
+																												pos: position{line: 750, col: 16, offset: 23946},
 																												run: (*parser).callonListContinuationElement427,
 																												expr: &seqExpr{
-																													pos: position{line: 747, col: 16, offset: 23843},
+																													pos: position{line: 750, col: 16, offset: 23946},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 747, col: 16, offset: 23843},
+																															pos:        position{line: 750, col: 16, offset: 23946},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 747, col: 23, offset: 23850},
+																															pos: position{line: 750, col: 23, offset: 23953},
 																															expr: &litMatcher{
-																																pos:        position{line: 747, col: 23, offset: 23850},
+																																pos:        position{line: 750, col: 23, offset: 23953},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -31747,12 +31806,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 749, col: 8, offset: 23934},
+																											pos: position{line: 752, col: 8, offset: 24037},
 																											expr: &actionExpr{
-																												pos: position{line: 2865, col: 10, offset: 90715},
+																												pos: position{line: 2868, col: 10, offset: 90818},
 																												run: (*parser).callonListContinuationElement433,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 10, offset: 90715},
+																													pos:        position{line: 2868, col: 10, offset: 90818},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31761,28 +31820,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2887, col: 8, offset: 91113},
+																											pos: position{line: 2890, col: 8, offset: 91216},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2874, col: 12, offset: 90886},
+																													pos: position{line: 2877, col: 12, offset: 90989},
 																													run: (*parser).callonListContinuationElement436,
 																													expr: &choiceExpr{
-																														pos: position{line: 2874, col: 13, offset: 90887},
+																														pos: position{line: 2877, col: 13, offset: 90990},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31791,9 +31850,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2884, col: 8, offset: 91063},
+																													pos: position{line: 2887, col: 8, offset: 91166},
 																													expr: &anyMatcher{
-																														line: 2884, col: 9, offset: 91064,
+																														line: 2887, col: 9, offset: 91167,
 																													},
 																												},
 																											},
@@ -31803,45 +31862,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 861, col: 5, offset: 27439},
+																							pos: position{line: 864, col: 5, offset: 27542},
 																							run: (*parser).callonListContinuationElement443,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 868, col: 5, offset: 27596},
+																		pos:   position{line: 871, col: 5, offset: 27699},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 814, col: 5, offset: 26191},
 																			run: (*parser).callonListContinuationElement447,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 814, col: 5, offset: 26191},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2882, col: 11, offset: 91049},
+																						pos: position{line: 2885, col: 11, offset: 91152},
 																						expr: &anyMatcher{
-																							line: 2882, col: 13, offset: 91051,
+																							line: 2885, col: 13, offset: 91154,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 815, col: 5, offset: 26266},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2811, col: 13, offset: 89241},
+																							pos: position{line: 2814, col: 13, offset: 89344},
 																							run: (*parser).callonListContinuationElement452,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2811, col: 13, offset: 89241},
+																								pos: position{line: 2814, col: 13, offset: 89344},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2811, col: 13, offset: 89241},
+																									pos:        position{line: 2814, col: 13, offset: 89344},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31851,28 +31910,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2887, col: 8, offset: 91113},
+																						pos: position{line: 2890, col: 8, offset: 91216},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2874, col: 12, offset: 90886},
+																								pos: position{line: 2877, col: 12, offset: 90989},
 																								run: (*parser).callonListContinuationElement456,
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 13, offset: 90887},
+																									pos: position{line: 2877, col: 13, offset: 90990},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 13, offset: 90887},
+																											pos:        position{line: 2877, col: 13, offset: 90990},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 20, offset: 90894},
+																											pos:        position{line: 2877, col: 20, offset: 90997},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 29, offset: 90903},
+																											pos:        position{line: 2877, col: 29, offset: 91006},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31881,9 +31940,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2884, col: 8, offset: 91063},
+																								pos: position{line: 2887, col: 8, offset: 91166},
 																								expr: &anyMatcher{
-																									line: 2884, col: 9, offset: 91064,
+																									line: 2887, col: 9, offset: 91167,
 																								},
 																							},
 																						},
@@ -31898,44 +31957,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 853, col: 5, offset: 27202},
+													pos:   position{line: 856, col: 5, offset: 27305},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 853, col: 9, offset: 27206},
+														pos: position{line: 856, col: 9, offset: 27309},
 														expr: &choiceExpr{
-															pos: position{line: 860, col: 5, offset: 27408},
+															pos: position{line: 863, col: 5, offset: 27511},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 860, col: 5, offset: 27408},
+																	pos: position{line: 863, col: 5, offset: 27511},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 860, col: 5, offset: 27408},
+																			pos:   position{line: 863, col: 5, offset: 27511},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 747, col: 5, offset: 23832},
+																				pos: position{line: 750, col: 5, offset: 23935},
 																				run: (*parser).callonListContinuationElement468,
 																				expr: &seqExpr{
-																					pos: position{line: 747, col: 5, offset: 23832},
+																					pos: position{line: 750, col: 5, offset: 23935},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 747, col: 5, offset: 23832},
+																							pos:   position{line: 750, col: 5, offset: 23935},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 747, col: 16, offset: 23843},
+																								pos: position{line: 750, col: 16, offset: 23946},
 																								run: (*parser).callonListContinuationElement471,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 16, offset: 23843},
+																									pos: position{line: 750, col: 16, offset: 23946},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 747, col: 16, offset: 23843},
+																											pos:        position{line: 750, col: 16, offset: 23946},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 747, col: 23, offset: 23850},
+																											pos: position{line: 750, col: 23, offset: 23953},
 																											expr: &litMatcher{
-																												pos:        position{line: 747, col: 23, offset: 23850},
+																												pos:        position{line: 750, col: 23, offset: 23953},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -31946,12 +32005,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 749, col: 8, offset: 23934},
+																							pos: position{line: 752, col: 8, offset: 24037},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonListContinuationElement477,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31960,28 +32019,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonListContinuationElement480,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31990,9 +32049,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -32002,15 +32061,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 861, col: 5, offset: 27439},
+																			pos: position{line: 864, col: 5, offset: 27542},
 																			run: (*parser).callonListContinuationElement487,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2884, col: 8, offset: 91063},
+																	pos: position{line: 2887, col: 8, offset: 91166},
 																	expr: &anyMatcher{
-																		line: 2884, col: 9, offset: 91064,
+																		line: 2887, col: 9, offset: 91167,
 																	},
 																},
 															},
@@ -32021,36 +32080,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 960, col: 5, offset: 29888},
+										pos: position{line: 963, col: 5, offset: 29991},
 										run: (*parser).callonListContinuationElement490,
 										expr: &seqExpr{
-											pos: position{line: 960, col: 5, offset: 29888},
+											pos: position{line: 963, col: 5, offset: 29991},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 960, col: 5, offset: 29888},
+													pos:   position{line: 963, col: 5, offset: 29991},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 760, col: 26, offset: 24320},
+														pos: position{line: 763, col: 26, offset: 24423},
 														run: (*parser).callonListContinuationElement493,
 														expr: &seqExpr{
-															pos: position{line: 760, col: 26, offset: 24320},
+															pos: position{line: 763, col: 26, offset: 24423},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 760, col: 26, offset: 24320},
+																	pos:        position{line: 763, col: 26, offset: 24423},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 760, col: 32, offset: 24326},
+																	pos:   position{line: 763, col: 32, offset: 24429},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 764, col: 13, offset: 24456},
+																		pos: position{line: 767, col: 13, offset: 24559},
 																		run: (*parser).callonListContinuationElement497,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 764, col: 14, offset: 24457},
+																			pos: position{line: 767, col: 14, offset: 24560},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 764, col: 14, offset: 24457},
+																				pos:        position{line: 767, col: 14, offset: 24560},
 																				val:        "[^\\r\\n` ]",
 																				chars:      []rune{'\r', '\n', '`', ' '},
 																				ignoreCase: false,
@@ -32060,12 +32119,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 760, col: 52, offset: 24346},
+																	pos: position{line: 763, col: 52, offset: 24449},
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 10, offset: 90715},
+																		pos: position{line: 2868, col: 10, offset: 90818},
 																		run: (*parser).callonListContinuationElement501,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90715},
+																			pos:        position{line: 2868, col: 10, offset: 90818},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32074,28 +32133,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonListContinuationElement504,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32104,9 +32163,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -32116,34 +32175,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 961, col: 5, offset: 29934},
+													pos:   position{line: 964, col: 5, offset: 30037},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 974, col: 5, offset: 30407},
+														pos: position{line: 977, col: 5, offset: 30510},
 														expr: &actionExpr{
-															pos: position{line: 974, col: 6, offset: 30408},
+															pos: position{line: 977, col: 6, offset: 30511},
 															run: (*parser).callonListContinuationElement513,
 															expr: &seqExpr{
-																pos: position{line: 974, col: 6, offset: 30408},
+																pos: position{line: 977, col: 6, offset: 30511},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 974, col: 6, offset: 30408},
+																		pos: position{line: 977, col: 6, offset: 30511},
 																		expr: &seqExpr{
-																			pos: position{line: 971, col: 34, offset: 30355},
+																			pos: position{line: 974, col: 34, offset: 30458},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 971, col: 34, offset: 30355},
+																					pos:        position{line: 974, col: 34, offset: 30458},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 971, col: 40, offset: 30361},
+																					pos: position{line: 974, col: 40, offset: 30464},
 																					expr: &actionExpr{
-																						pos: position{line: 2865, col: 10, offset: 90715},
+																						pos: position{line: 2868, col: 10, offset: 90818},
 																						run: (*parser).callonListContinuationElement519,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2865, col: 10, offset: 90715},
+																							pos:        position{line: 2868, col: 10, offset: 90818},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32152,28 +32211,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2887, col: 8, offset: 91113},
+																					pos: position{line: 2890, col: 8, offset: 91216},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2874, col: 12, offset: 90886},
+																							pos: position{line: 2877, col: 12, offset: 90989},
 																							run: (*parser).callonListContinuationElement522,
 																							expr: &choiceExpr{
-																								pos: position{line: 2874, col: 13, offset: 90887},
+																								pos: position{line: 2877, col: 13, offset: 90990},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 90887},
+																										pos:        position{line: 2877, col: 13, offset: 90990},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 20, offset: 90894},
+																										pos:        position{line: 2877, col: 20, offset: 90997},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 29, offset: 90903},
+																										pos:        position{line: 2877, col: 29, offset: 91006},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32182,9 +32241,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2884, col: 8, offset: 91063},
+																							pos: position{line: 2887, col: 8, offset: 91166},
 																							expr: &anyMatcher{
-																								line: 2884, col: 9, offset: 91064,
+																								line: 2887, col: 9, offset: 91167,
 																							},
 																						},
 																					},
@@ -32193,30 +32252,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 975, col: 5, offset: 30443},
+																		pos:   position{line: 978, col: 5, offset: 30546},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 814, col: 5, offset: 26191},
 																			run: (*parser).callonListContinuationElement530,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 814, col: 5, offset: 26191},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2882, col: 11, offset: 91049},
+																						pos: position{line: 2885, col: 11, offset: 91152},
 																						expr: &anyMatcher{
-																							line: 2882, col: 13, offset: 91051,
+																							line: 2885, col: 13, offset: 91154,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 815, col: 5, offset: 26266},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2811, col: 13, offset: 89241},
+																							pos: position{line: 2814, col: 13, offset: 89344},
 																							run: (*parser).callonListContinuationElement535,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2811, col: 13, offset: 89241},
+																								pos: position{line: 2814, col: 13, offset: 89344},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2811, col: 13, offset: 89241},
+																									pos:        position{line: 2814, col: 13, offset: 89344},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32226,28 +32285,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2887, col: 8, offset: 91113},
+																						pos: position{line: 2890, col: 8, offset: 91216},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2874, col: 12, offset: 90886},
+																								pos: position{line: 2877, col: 12, offset: 90989},
 																								run: (*parser).callonListContinuationElement539,
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 13, offset: 90887},
+																									pos: position{line: 2877, col: 13, offset: 90990},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 13, offset: 90887},
+																											pos:        position{line: 2877, col: 13, offset: 90990},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 20, offset: 90894},
+																											pos:        position{line: 2877, col: 20, offset: 90997},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 29, offset: 90903},
+																											pos:        position{line: 2877, col: 29, offset: 91006},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32256,9 +32315,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2884, col: 8, offset: 91063},
+																								pos: position{line: 2887, col: 8, offset: 91166},
 																								expr: &anyMatcher{
-																									line: 2884, col: 9, offset: 91064,
+																									line: 2887, col: 9, offset: 91167,
 																								},
 																							},
 																						},
@@ -32273,23 +32332,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 962, col: 5, offset: 29973},
+													pos: position{line: 965, col: 5, offset: 30076},
 													expr: &seqExpr{
-														pos: position{line: 971, col: 34, offset: 30355},
+														pos: position{line: 974, col: 34, offset: 30458},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 971, col: 34, offset: 30355},
+																pos:        position{line: 974, col: 34, offset: 30458},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 971, col: 40, offset: 30361},
+																pos: position{line: 974, col: 40, offset: 30464},
 																expr: &actionExpr{
-																	pos: position{line: 2865, col: 10, offset: 90715},
+																	pos: position{line: 2868, col: 10, offset: 90818},
 																	run: (*parser).callonListContinuationElement550,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2865, col: 10, offset: 90715},
+																		pos:        position{line: 2868, col: 10, offset: 90818},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32298,28 +32357,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2887, col: 8, offset: 91113},
+																pos: position{line: 2890, col: 8, offset: 91216},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2874, col: 12, offset: 90886},
+																		pos: position{line: 2877, col: 12, offset: 90989},
 																		run: (*parser).callonListContinuationElement553,
 																		expr: &choiceExpr{
-																			pos: position{line: 2874, col: 13, offset: 90887},
+																			pos: position{line: 2877, col: 13, offset: 90990},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2874, col: 13, offset: 90887},
+																					pos:        position{line: 2877, col: 13, offset: 90990},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2874, col: 20, offset: 90894},
+																					pos:        position{line: 2877, col: 20, offset: 90997},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2874, col: 29, offset: 90903},
+																					pos:        position{line: 2877, col: 29, offset: 91006},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32328,9 +32387,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2884, col: 8, offset: 91063},
+																		pos: position{line: 2887, col: 8, offset: 91166},
 																		expr: &anyMatcher{
-																			line: 2884, col: 9, offset: 91064,
+																			line: 2887, col: 9, offset: 91167,
 																		},
 																	},
 																},
@@ -32342,39 +32401,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 876, col: 5, offset: 27749},
+										pos: position{line: 879, col: 5, offset: 27852},
 										run: (*parser).callonListContinuationElement560,
 										expr: &seqExpr{
-											pos: position{line: 876, col: 5, offset: 27749},
+											pos: position{line: 879, col: 5, offset: 27852},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 876, col: 5, offset: 27749},
+													pos:   position{line: 879, col: 5, offset: 27852},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 754, col: 5, offset: 24079},
+														pos: position{line: 757, col: 5, offset: 24182},
 														run: (*parser).callonListContinuationElement563,
 														expr: &seqExpr{
-															pos: position{line: 754, col: 5, offset: 24079},
+															pos: position{line: 757, col: 5, offset: 24182},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 754, col: 5, offset: 24079},
+																	pos:   position{line: 757, col: 5, offset: 24182},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 754, col: 16, offset: 24090},
+																		pos: position{line: 757, col: 16, offset: 24193},
 																		run: (*parser).callonListContinuationElement566,
 																		expr: &seqExpr{
-																			pos: position{line: 754, col: 16, offset: 24090},
+																			pos: position{line: 757, col: 16, offset: 24193},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 754, col: 16, offset: 24090},
+																					pos:        position{line: 757, col: 16, offset: 24193},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 754, col: 22, offset: 24096},
+																					pos: position{line: 757, col: 22, offset: 24199},
 																					expr: &litMatcher{
-																						pos:        position{line: 754, col: 22, offset: 24096},
+																						pos:        position{line: 757, col: 22, offset: 24199},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -32385,12 +32444,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 756, col: 8, offset: 24180},
+																	pos: position{line: 759, col: 8, offset: 24283},
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 10, offset: 90715},
+																		pos: position{line: 2868, col: 10, offset: 90818},
 																		run: (*parser).callonListContinuationElement572,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90715},
+																			pos:        position{line: 2868, col: 10, offset: 90818},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32399,28 +32458,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonListContinuationElement575,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32429,9 +32488,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -32441,56 +32500,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 877, col: 5, offset: 27787},
+													pos: position{line: 880, col: 5, offset: 27890},
 													run: (*parser).callonListContinuationElement582,
 												},
 												&labeledExpr{
-													pos:   position{line: 880, col: 5, offset: 27879},
+													pos:   position{line: 883, col: 5, offset: 27982},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 895, col: 5, offset: 28269},
+														pos: position{line: 898, col: 5, offset: 28372},
 														expr: &actionExpr{
-															pos: position{line: 895, col: 6, offset: 28270},
+															pos: position{line: 898, col: 6, offset: 28373},
 															run: (*parser).callonListContinuationElement585,
 															expr: &seqExpr{
-																pos: position{line: 895, col: 6, offset: 28270},
+																pos: position{line: 898, col: 6, offset: 28373},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 895, col: 6, offset: 28270},
+																		pos: position{line: 898, col: 6, offset: 28373},
 																		expr: &choiceExpr{
-																			pos: position{line: 888, col: 5, offset: 28113},
+																			pos: position{line: 891, col: 5, offset: 28216},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 888, col: 5, offset: 28113},
+																					pos: position{line: 891, col: 5, offset: 28216},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 888, col: 5, offset: 28113},
+																							pos:   position{line: 891, col: 5, offset: 28216},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 5, offset: 24079},
+																								pos: position{line: 757, col: 5, offset: 24182},
 																								run: (*parser).callonListContinuationElement591,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 5, offset: 24079},
+																									pos: position{line: 757, col: 5, offset: 24182},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 754, col: 5, offset: 24079},
+																											pos:   position{line: 757, col: 5, offset: 24182},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 754, col: 16, offset: 24090},
+																												pos: position{line: 757, col: 16, offset: 24193},
 																												run: (*parser).callonListContinuationElement594,
 																												expr: &seqExpr{
-																													pos: position{line: 754, col: 16, offset: 24090},
+																													pos: position{line: 757, col: 16, offset: 24193},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 754, col: 16, offset: 24090},
+																															pos:        position{line: 757, col: 16, offset: 24193},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 754, col: 22, offset: 24096},
+																															pos: position{line: 757, col: 22, offset: 24199},
 																															expr: &litMatcher{
-																																pos:        position{line: 754, col: 22, offset: 24096},
+																																pos:        position{line: 757, col: 22, offset: 24199},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -32501,12 +32560,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 8, offset: 24180},
+																											pos: position{line: 759, col: 8, offset: 24283},
 																											expr: &actionExpr{
-																												pos: position{line: 2865, col: 10, offset: 90715},
+																												pos: position{line: 2868, col: 10, offset: 90818},
 																												run: (*parser).callonListContinuationElement600,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 10, offset: 90715},
+																													pos:        position{line: 2868, col: 10, offset: 90818},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32515,28 +32574,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2887, col: 8, offset: 91113},
+																											pos: position{line: 2890, col: 8, offset: 91216},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2874, col: 12, offset: 90886},
+																													pos: position{line: 2877, col: 12, offset: 90989},
 																													run: (*parser).callonListContinuationElement603,
 																													expr: &choiceExpr{
-																														pos: position{line: 2874, col: 13, offset: 90887},
+																														pos: position{line: 2877, col: 13, offset: 90990},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32545,9 +32604,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2884, col: 8, offset: 91063},
+																													pos: position{line: 2887, col: 8, offset: 91166},
 																													expr: &anyMatcher{
-																														line: 2884, col: 9, offset: 91064,
+																														line: 2887, col: 9, offset: 91167,
 																													},
 																												},
 																											},
@@ -32557,45 +32616,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 889, col: 5, offset: 28143},
+																							pos: position{line: 892, col: 5, offset: 28246},
 																							run: (*parser).callonListContinuationElement610,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 896, col: 5, offset: 28299},
+																		pos:   position{line: 899, col: 5, offset: 28402},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 814, col: 5, offset: 26191},
 																			run: (*parser).callonListContinuationElement614,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 814, col: 5, offset: 26191},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2882, col: 11, offset: 91049},
+																						pos: position{line: 2885, col: 11, offset: 91152},
 																						expr: &anyMatcher{
-																							line: 2882, col: 13, offset: 91051,
+																							line: 2885, col: 13, offset: 91154,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 815, col: 5, offset: 26266},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2811, col: 13, offset: 89241},
+																							pos: position{line: 2814, col: 13, offset: 89344},
 																							run: (*parser).callonListContinuationElement619,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2811, col: 13, offset: 89241},
+																								pos: position{line: 2814, col: 13, offset: 89344},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2811, col: 13, offset: 89241},
+																									pos:        position{line: 2814, col: 13, offset: 89344},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32605,28 +32664,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2887, col: 8, offset: 91113},
+																						pos: position{line: 2890, col: 8, offset: 91216},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2874, col: 12, offset: 90886},
+																								pos: position{line: 2877, col: 12, offset: 90989},
 																								run: (*parser).callonListContinuationElement623,
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 13, offset: 90887},
+																									pos: position{line: 2877, col: 13, offset: 90990},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 13, offset: 90887},
+																											pos:        position{line: 2877, col: 13, offset: 90990},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 20, offset: 90894},
+																											pos:        position{line: 2877, col: 20, offset: 90997},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 29, offset: 90903},
+																											pos:        position{line: 2877, col: 29, offset: 91006},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32635,9 +32694,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2884, col: 8, offset: 91063},
+																								pos: position{line: 2887, col: 8, offset: 91166},
 																								expr: &anyMatcher{
-																									line: 2884, col: 9, offset: 91064,
+																									line: 2887, col: 9, offset: 91167,
 																								},
 																							},
 																						},
@@ -32652,44 +32711,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 881, col: 5, offset: 27912},
+													pos:   position{line: 884, col: 5, offset: 28015},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 881, col: 9, offset: 27916},
+														pos: position{line: 884, col: 9, offset: 28019},
 														expr: &choiceExpr{
-															pos: position{line: 888, col: 5, offset: 28113},
+															pos: position{line: 891, col: 5, offset: 28216},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 888, col: 5, offset: 28113},
+																	pos: position{line: 891, col: 5, offset: 28216},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 888, col: 5, offset: 28113},
+																			pos:   position{line: 891, col: 5, offset: 28216},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 5, offset: 24079},
+																				pos: position{line: 757, col: 5, offset: 24182},
 																				run: (*parser).callonListContinuationElement635,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 5, offset: 24079},
+																					pos: position{line: 757, col: 5, offset: 24182},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 754, col: 5, offset: 24079},
+																							pos:   position{line: 757, col: 5, offset: 24182},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 16, offset: 24090},
+																								pos: position{line: 757, col: 16, offset: 24193},
 																								run: (*parser).callonListContinuationElement638,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 16, offset: 24090},
+																									pos: position{line: 757, col: 16, offset: 24193},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 754, col: 16, offset: 24090},
+																											pos:        position{line: 757, col: 16, offset: 24193},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 754, col: 22, offset: 24096},
+																											pos: position{line: 757, col: 22, offset: 24199},
 																											expr: &litMatcher{
-																												pos:        position{line: 754, col: 22, offset: 24096},
+																												pos:        position{line: 757, col: 22, offset: 24199},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -32700,12 +32759,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 8, offset: 24180},
+																							pos: position{line: 759, col: 8, offset: 24283},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonListContinuationElement644,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32714,28 +32773,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonListContinuationElement647,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32744,9 +32803,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -32756,15 +32815,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 889, col: 5, offset: 28143},
+																			pos: position{line: 892, col: 5, offset: 28246},
 																			run: (*parser).callonListContinuationElement654,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2884, col: 8, offset: 91063},
+																	pos: position{line: 2887, col: 8, offset: 91166},
 																	expr: &anyMatcher{
-																		line: 2884, col: 9, offset: 91064,
+																		line: 2887, col: 9, offset: 91167,
 																	},
 																},
 															},
@@ -32775,39 +32834,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 904, col: 5, offset: 28454},
+										pos: position{line: 907, col: 5, offset: 28557},
 										run: (*parser).callonListContinuationElement657,
 										expr: &seqExpr{
-											pos: position{line: 904, col: 5, offset: 28454},
+											pos: position{line: 907, col: 5, offset: 28557},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 904, col: 5, offset: 28454},
+													pos:   position{line: 907, col: 5, offset: 28557},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 769, col: 5, offset: 24616},
+														pos: position{line: 772, col: 5, offset: 24719},
 														run: (*parser).callonListContinuationElement660,
 														expr: &seqExpr{
-															pos: position{line: 769, col: 5, offset: 24616},
+															pos: position{line: 772, col: 5, offset: 24719},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 769, col: 5, offset: 24616},
+																	pos:   position{line: 772, col: 5, offset: 24719},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 769, col: 16, offset: 24627},
+																		pos: position{line: 772, col: 16, offset: 24730},
 																		run: (*parser).callonListContinuationElement663,
 																		expr: &seqExpr{
-																			pos: position{line: 769, col: 16, offset: 24627},
+																			pos: position{line: 772, col: 16, offset: 24730},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 769, col: 16, offset: 24627},
+																					pos:        position{line: 772, col: 16, offset: 24730},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 769, col: 23, offset: 24634},
+																					pos: position{line: 772, col: 23, offset: 24737},
 																					expr: &litMatcher{
-																						pos:        position{line: 769, col: 23, offset: 24634},
+																						pos:        position{line: 772, col: 23, offset: 24737},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -32818,12 +32877,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 771, col: 8, offset: 24718},
+																	pos: position{line: 774, col: 8, offset: 24821},
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 10, offset: 90715},
+																		pos: position{line: 2868, col: 10, offset: 90818},
 																		run: (*parser).callonListContinuationElement669,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90715},
+																			pos:        position{line: 2868, col: 10, offset: 90818},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32832,28 +32891,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonListContinuationElement672,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32862,9 +32921,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -32874,56 +32933,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 905, col: 5, offset: 28493},
+													pos: position{line: 908, col: 5, offset: 28596},
 													run: (*parser).callonListContinuationElement679,
 												},
 												&labeledExpr{
-													pos:   position{line: 908, col: 5, offset: 28585},
+													pos:   position{line: 911, col: 5, offset: 28688},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 923, col: 5, offset: 28983},
+														pos: position{line: 926, col: 5, offset: 29086},
 														expr: &actionExpr{
-															pos: position{line: 923, col: 6, offset: 28984},
+															pos: position{line: 926, col: 6, offset: 29087},
 															run: (*parser).callonListContinuationElement682,
 															expr: &seqExpr{
-																pos: position{line: 923, col: 6, offset: 28984},
+																pos: position{line: 926, col: 6, offset: 29087},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 923, col: 6, offset: 28984},
+																		pos: position{line: 926, col: 6, offset: 29087},
 																		expr: &choiceExpr{
-																			pos: position{line: 916, col: 5, offset: 28825},
+																			pos: position{line: 919, col: 5, offset: 28928},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 916, col: 5, offset: 28825},
+																					pos: position{line: 919, col: 5, offset: 28928},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 916, col: 5, offset: 28825},
+																							pos:   position{line: 919, col: 5, offset: 28928},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 5, offset: 24616},
+																								pos: position{line: 772, col: 5, offset: 24719},
 																								run: (*parser).callonListContinuationElement688,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 5, offset: 24616},
+																									pos: position{line: 772, col: 5, offset: 24719},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 769, col: 5, offset: 24616},
+																											pos:   position{line: 772, col: 5, offset: 24719},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 769, col: 16, offset: 24627},
+																												pos: position{line: 772, col: 16, offset: 24730},
 																												run: (*parser).callonListContinuationElement691,
 																												expr: &seqExpr{
-																													pos: position{line: 769, col: 16, offset: 24627},
+																													pos: position{line: 772, col: 16, offset: 24730},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 769, col: 16, offset: 24627},
+																															pos:        position{line: 772, col: 16, offset: 24730},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 769, col: 23, offset: 24634},
+																															pos: position{line: 772, col: 23, offset: 24737},
 																															expr: &litMatcher{
-																																pos:        position{line: 769, col: 23, offset: 24634},
+																																pos:        position{line: 772, col: 23, offset: 24737},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -32934,12 +32993,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 771, col: 8, offset: 24718},
+																											pos: position{line: 774, col: 8, offset: 24821},
 																											expr: &actionExpr{
-																												pos: position{line: 2865, col: 10, offset: 90715},
+																												pos: position{line: 2868, col: 10, offset: 90818},
 																												run: (*parser).callonListContinuationElement697,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 10, offset: 90715},
+																													pos:        position{line: 2868, col: 10, offset: 90818},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32948,28 +33007,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2887, col: 8, offset: 91113},
+																											pos: position{line: 2890, col: 8, offset: 91216},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2874, col: 12, offset: 90886},
+																													pos: position{line: 2877, col: 12, offset: 90989},
 																													run: (*parser).callonListContinuationElement700,
 																													expr: &choiceExpr{
-																														pos: position{line: 2874, col: 13, offset: 90887},
+																														pos: position{line: 2877, col: 13, offset: 90990},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32978,9 +33037,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2884, col: 8, offset: 91063},
+																													pos: position{line: 2887, col: 8, offset: 91166},
 																													expr: &anyMatcher{
-																														line: 2884, col: 9, offset: 91064,
+																														line: 2887, col: 9, offset: 91167,
 																													},
 																												},
 																											},
@@ -32990,45 +33049,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 917, col: 5, offset: 28856},
+																							pos: position{line: 920, col: 5, offset: 28959},
 																							run: (*parser).callonListContinuationElement707,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 924, col: 5, offset: 29014},
+																		pos:   position{line: 927, col: 5, offset: 29117},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 814, col: 5, offset: 26191},
 																			run: (*parser).callonListContinuationElement711,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 814, col: 5, offset: 26191},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2882, col: 11, offset: 91049},
+																						pos: position{line: 2885, col: 11, offset: 91152},
 																						expr: &anyMatcher{
-																							line: 2882, col: 13, offset: 91051,
+																							line: 2885, col: 13, offset: 91154,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 815, col: 5, offset: 26266},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2811, col: 13, offset: 89241},
+																							pos: position{line: 2814, col: 13, offset: 89344},
 																							run: (*parser).callonListContinuationElement716,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2811, col: 13, offset: 89241},
+																								pos: position{line: 2814, col: 13, offset: 89344},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2811, col: 13, offset: 89241},
+																									pos:        position{line: 2814, col: 13, offset: 89344},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33038,28 +33097,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2887, col: 8, offset: 91113},
+																						pos: position{line: 2890, col: 8, offset: 91216},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2874, col: 12, offset: 90886},
+																								pos: position{line: 2877, col: 12, offset: 90989},
 																								run: (*parser).callonListContinuationElement720,
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 13, offset: 90887},
+																									pos: position{line: 2877, col: 13, offset: 90990},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 13, offset: 90887},
+																											pos:        position{line: 2877, col: 13, offset: 90990},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 20, offset: 90894},
+																											pos:        position{line: 2877, col: 20, offset: 90997},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 29, offset: 90903},
+																											pos:        position{line: 2877, col: 29, offset: 91006},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33068,9 +33127,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2884, col: 8, offset: 91063},
+																								pos: position{line: 2887, col: 8, offset: 91166},
 																								expr: &anyMatcher{
-																									line: 2884, col: 9, offset: 91064,
+																									line: 2887, col: 9, offset: 91167,
 																								},
 																							},
 																						},
@@ -33085,44 +33144,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 909, col: 5, offset: 28619},
+													pos:   position{line: 912, col: 5, offset: 28722},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 909, col: 9, offset: 28623},
+														pos: position{line: 912, col: 9, offset: 28726},
 														expr: &choiceExpr{
-															pos: position{line: 916, col: 5, offset: 28825},
+															pos: position{line: 919, col: 5, offset: 28928},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 916, col: 5, offset: 28825},
+																	pos: position{line: 919, col: 5, offset: 28928},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 916, col: 5, offset: 28825},
+																			pos:   position{line: 919, col: 5, offset: 28928},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 769, col: 5, offset: 24616},
+																				pos: position{line: 772, col: 5, offset: 24719},
 																				run: (*parser).callonListContinuationElement732,
 																				expr: &seqExpr{
-																					pos: position{line: 769, col: 5, offset: 24616},
+																					pos: position{line: 772, col: 5, offset: 24719},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 769, col: 5, offset: 24616},
+																							pos:   position{line: 772, col: 5, offset: 24719},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 769, col: 16, offset: 24627},
+																								pos: position{line: 772, col: 16, offset: 24730},
 																								run: (*parser).callonListContinuationElement735,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 16, offset: 24627},
+																									pos: position{line: 772, col: 16, offset: 24730},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 769, col: 16, offset: 24627},
+																											pos:        position{line: 772, col: 16, offset: 24730},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 769, col: 23, offset: 24634},
+																											pos: position{line: 772, col: 23, offset: 24737},
 																											expr: &litMatcher{
-																												pos:        position{line: 769, col: 23, offset: 24634},
+																												pos:        position{line: 772, col: 23, offset: 24737},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -33133,12 +33192,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 771, col: 8, offset: 24718},
+																							pos: position{line: 774, col: 8, offset: 24821},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonListContinuationElement741,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33147,28 +33206,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonListContinuationElement744,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33177,9 +33236,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -33189,15 +33248,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 917, col: 5, offset: 28856},
+																			pos: position{line: 920, col: 5, offset: 28959},
 																			run: (*parser).callonListContinuationElement751,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2884, col: 8, offset: 91063},
+																	pos: position{line: 2887, col: 8, offset: 91166},
 																	expr: &anyMatcher{
-																		line: 2884, col: 9, offset: 91064,
+																		line: 2887, col: 9, offset: 91167,
 																	},
 																},
 															},
@@ -33208,39 +33267,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 932, col: 5, offset: 29169},
+										pos: position{line: 935, col: 5, offset: 29272},
 										run: (*parser).callonListContinuationElement754,
 										expr: &seqExpr{
-											pos: position{line: 932, col: 5, offset: 29169},
+											pos: position{line: 935, col: 5, offset: 29272},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 932, col: 5, offset: 29169},
+													pos:   position{line: 935, col: 5, offset: 29272},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 783, col: 5, offset: 25092},
+														pos: position{line: 786, col: 5, offset: 25195},
 														run: (*parser).callonListContinuationElement757,
 														expr: &seqExpr{
-															pos: position{line: 783, col: 5, offset: 25092},
+															pos: position{line: 786, col: 5, offset: 25195},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 783, col: 5, offset: 25092},
+																	pos:   position{line: 786, col: 5, offset: 25195},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 783, col: 16, offset: 25103},
+																		pos: position{line: 786, col: 16, offset: 25206},
 																		run: (*parser).callonListContinuationElement760,
 																		expr: &seqExpr{
-																			pos: position{line: 783, col: 16, offset: 25103},
+																			pos: position{line: 786, col: 16, offset: 25206},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 783, col: 16, offset: 25103},
+																					pos:        position{line: 786, col: 16, offset: 25206},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 783, col: 23, offset: 25110},
+																					pos: position{line: 786, col: 23, offset: 25213},
 																					expr: &litMatcher{
-																						pos:        position{line: 783, col: 23, offset: 25110},
+																						pos:        position{line: 786, col: 23, offset: 25213},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -33251,12 +33310,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 785, col: 8, offset: 25194},
+																	pos: position{line: 788, col: 8, offset: 25297},
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 10, offset: 90715},
+																		pos: position{line: 2868, col: 10, offset: 90818},
 																		run: (*parser).callonListContinuationElement766,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90715},
+																			pos:        position{line: 2868, col: 10, offset: 90818},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33265,28 +33324,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonListContinuationElement769,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33295,9 +33354,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -33307,56 +33366,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 933, col: 5, offset: 29208},
+													pos: position{line: 936, col: 5, offset: 29311},
 													run: (*parser).callonListContinuationElement776,
 												},
 												&labeledExpr{
-													pos:   position{line: 936, col: 5, offset: 29300},
+													pos:   position{line: 939, col: 5, offset: 29403},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 951, col: 5, offset: 29698},
+														pos: position{line: 954, col: 5, offset: 29801},
 														expr: &actionExpr{
-															pos: position{line: 951, col: 6, offset: 29699},
+															pos: position{line: 954, col: 6, offset: 29802},
 															run: (*parser).callonListContinuationElement779,
 															expr: &seqExpr{
-																pos: position{line: 951, col: 6, offset: 29699},
+																pos: position{line: 954, col: 6, offset: 29802},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 951, col: 6, offset: 29699},
+																		pos: position{line: 954, col: 6, offset: 29802},
 																		expr: &choiceExpr{
-																			pos: position{line: 944, col: 5, offset: 29540},
+																			pos: position{line: 947, col: 5, offset: 29643},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 944, col: 5, offset: 29540},
+																					pos: position{line: 947, col: 5, offset: 29643},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 944, col: 5, offset: 29540},
+																							pos:   position{line: 947, col: 5, offset: 29643},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 5, offset: 25092},
+																								pos: position{line: 786, col: 5, offset: 25195},
 																								run: (*parser).callonListContinuationElement785,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 5, offset: 25092},
+																									pos: position{line: 786, col: 5, offset: 25195},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 783, col: 5, offset: 25092},
+																											pos:   position{line: 786, col: 5, offset: 25195},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 783, col: 16, offset: 25103},
+																												pos: position{line: 786, col: 16, offset: 25206},
 																												run: (*parser).callonListContinuationElement788,
 																												expr: &seqExpr{
-																													pos: position{line: 783, col: 16, offset: 25103},
+																													pos: position{line: 786, col: 16, offset: 25206},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 783, col: 16, offset: 25103},
+																															pos:        position{line: 786, col: 16, offset: 25206},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 783, col: 23, offset: 25110},
+																															pos: position{line: 786, col: 23, offset: 25213},
 																															expr: &litMatcher{
-																																pos:        position{line: 783, col: 23, offset: 25110},
+																																pos:        position{line: 786, col: 23, offset: 25213},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -33367,12 +33426,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 785, col: 8, offset: 25194},
+																											pos: position{line: 788, col: 8, offset: 25297},
 																											expr: &actionExpr{
-																												pos: position{line: 2865, col: 10, offset: 90715},
+																												pos: position{line: 2868, col: 10, offset: 90818},
 																												run: (*parser).callonListContinuationElement794,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 10, offset: 90715},
+																													pos:        position{line: 2868, col: 10, offset: 90818},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33381,28 +33440,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2887, col: 8, offset: 91113},
+																											pos: position{line: 2890, col: 8, offset: 91216},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2874, col: 12, offset: 90886},
+																													pos: position{line: 2877, col: 12, offset: 90989},
 																													run: (*parser).callonListContinuationElement797,
 																													expr: &choiceExpr{
-																														pos: position{line: 2874, col: 13, offset: 90887},
+																														pos: position{line: 2877, col: 13, offset: 90990},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33411,9 +33470,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2884, col: 8, offset: 91063},
+																													pos: position{line: 2887, col: 8, offset: 91166},
 																													expr: &anyMatcher{
-																														line: 2884, col: 9, offset: 91064,
+																														line: 2887, col: 9, offset: 91167,
 																													},
 																												},
 																											},
@@ -33423,45 +33482,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 945, col: 5, offset: 29571},
+																							pos: position{line: 948, col: 5, offset: 29674},
 																							run: (*parser).callonListContinuationElement804,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 952, col: 5, offset: 29729},
+																		pos:   position{line: 955, col: 5, offset: 29832},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 814, col: 5, offset: 26191},
 																			run: (*parser).callonListContinuationElement808,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 814, col: 5, offset: 26191},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2882, col: 11, offset: 91049},
+																						pos: position{line: 2885, col: 11, offset: 91152},
 																						expr: &anyMatcher{
-																							line: 2882, col: 13, offset: 91051,
+																							line: 2885, col: 13, offset: 91154,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 815, col: 5, offset: 26266},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2811, col: 13, offset: 89241},
+																							pos: position{line: 2814, col: 13, offset: 89344},
 																							run: (*parser).callonListContinuationElement813,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2811, col: 13, offset: 89241},
+																								pos: position{line: 2814, col: 13, offset: 89344},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2811, col: 13, offset: 89241},
+																									pos:        position{line: 2814, col: 13, offset: 89344},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33471,28 +33530,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2887, col: 8, offset: 91113},
+																						pos: position{line: 2890, col: 8, offset: 91216},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2874, col: 12, offset: 90886},
+																								pos: position{line: 2877, col: 12, offset: 90989},
 																								run: (*parser).callonListContinuationElement817,
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 13, offset: 90887},
+																									pos: position{line: 2877, col: 13, offset: 90990},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 13, offset: 90887},
+																											pos:        position{line: 2877, col: 13, offset: 90990},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 20, offset: 90894},
+																											pos:        position{line: 2877, col: 20, offset: 90997},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 29, offset: 90903},
+																											pos:        position{line: 2877, col: 29, offset: 91006},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33501,9 +33560,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2884, col: 8, offset: 91063},
+																								pos: position{line: 2887, col: 8, offset: 91166},
 																								expr: &anyMatcher{
-																									line: 2884, col: 9, offset: 91064,
+																									line: 2887, col: 9, offset: 91167,
 																								},
 																							},
 																						},
@@ -33518,44 +33577,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 937, col: 5, offset: 29334},
+													pos:   position{line: 940, col: 5, offset: 29437},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 937, col: 9, offset: 29338},
+														pos: position{line: 940, col: 9, offset: 29441},
 														expr: &choiceExpr{
-															pos: position{line: 944, col: 5, offset: 29540},
+															pos: position{line: 947, col: 5, offset: 29643},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 944, col: 5, offset: 29540},
+																	pos: position{line: 947, col: 5, offset: 29643},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 944, col: 5, offset: 29540},
+																			pos:   position{line: 947, col: 5, offset: 29643},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 5, offset: 25092},
+																				pos: position{line: 786, col: 5, offset: 25195},
 																				run: (*parser).callonListContinuationElement829,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 5, offset: 25092},
+																					pos: position{line: 786, col: 5, offset: 25195},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 783, col: 5, offset: 25092},
+																							pos:   position{line: 786, col: 5, offset: 25195},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 16, offset: 25103},
+																								pos: position{line: 786, col: 16, offset: 25206},
 																								run: (*parser).callonListContinuationElement832,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 16, offset: 25103},
+																									pos: position{line: 786, col: 16, offset: 25206},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 783, col: 16, offset: 25103},
+																											pos:        position{line: 786, col: 16, offset: 25206},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 783, col: 23, offset: 25110},
+																											pos: position{line: 786, col: 23, offset: 25213},
 																											expr: &litMatcher{
-																												pos:        position{line: 783, col: 23, offset: 25110},
+																												pos:        position{line: 786, col: 23, offset: 25213},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -33566,12 +33625,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 8, offset: 25194},
+																							pos: position{line: 788, col: 8, offset: 25297},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonListContinuationElement838,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33580,28 +33639,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonListContinuationElement841,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33610,9 +33669,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -33622,15 +33681,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 945, col: 5, offset: 29571},
+																			pos: position{line: 948, col: 5, offset: 29674},
 																			run: (*parser).callonListContinuationElement848,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2884, col: 8, offset: 91063},
+																	pos: position{line: 2887, col: 8, offset: 91166},
 																	expr: &anyMatcher{
-																		line: 2884, col: 9, offset: 91064,
+																		line: 2887, col: 9, offset: 91167,
 																	},
 																},
 															},
@@ -33641,63 +33700,63 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 983, col: 5, offset: 30612},
+										pos: position{line: 986, col: 5, offset: 30715},
 										run: (*parser).callonListContinuationElement851,
 										expr: &seqExpr{
-											pos: position{line: 983, col: 5, offset: 30612},
+											pos: position{line: 986, col: 5, offset: 30715},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 983, col: 5, offset: 30612},
+													pos:   position{line: 986, col: 5, offset: 30715},
 													label: "firstLine",
 													expr: &choiceExpr{
-														pos: position{line: 983, col: 16, offset: 30623},
+														pos: position{line: 986, col: 16, offset: 30726},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 996, col: 35, offset: 31099},
+																pos: position{line: 999, col: 35, offset: 31202},
 																run: (*parser).callonListContinuationElement855,
 																expr: &seqExpr{
-																	pos: position{line: 996, col: 35, offset: 31099},
+																	pos: position{line: 999, col: 35, offset: 31202},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 996, col: 35, offset: 31099},
+																			pos:        position{line: 999, col: 35, offset: 31202},
 																			val:        "> ",
 																			ignoreCase: false,
 																			want:       "\"> \"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 996, col: 40, offset: 31104},
+																			pos:   position{line: 999, col: 40, offset: 31207},
 																			label: "comment",
 																			expr: &actionExpr{
-																				pos: position{line: 2475, col: 22, offset: 79658},
+																				pos: position{line: 2478, col: 22, offset: 79761},
 																				run: (*parser).callonListContinuationElement859,
 																				expr: &seqExpr{
-																					pos: position{line: 2475, col: 22, offset: 79658},
+																					pos: position{line: 2478, col: 22, offset: 79761},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2480, col: 31, offset: 79879},
+																							pos:        position{line: 2483, col: 31, offset: 79982},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
 																						},
 																						&notExpr{
-																							pos: position{line: 2480, col: 36, offset: 79884},
+																							pos: position{line: 2483, col: 36, offset: 79987},
 																							expr: &litMatcher{
-																								pos:        position{line: 2480, col: 37, offset: 79885},
+																								pos:        position{line: 2483, col: 37, offset: 79988},
 																								val:        "//",
 																								ignoreCase: false,
 																								want:       "\"//\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 2475, col: 49, offset: 79685},
+																							pos:   position{line: 2478, col: 49, offset: 79788},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2811, col: 13, offset: 89241},
+																								pos: position{line: 2814, col: 13, offset: 89344},
 																								run: (*parser).callonListContinuationElement865,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2811, col: 13, offset: 89241},
+																									pos: position{line: 2814, col: 13, offset: 89344},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2811, col: 13, offset: 89241},
+																										pos:        position{line: 2814, col: 13, offset: 89344},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -33707,28 +33766,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonListContinuationElement869,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33737,9 +33796,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -33752,32 +33811,32 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 990, col: 5, offset: 30957},
+																pos: position{line: 993, col: 5, offset: 31060},
 																run: (*parser).callonListContinuationElement876,
 																expr: &seqExpr{
-																	pos: position{line: 990, col: 5, offset: 30957},
+																	pos: position{line: 993, col: 5, offset: 31060},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 990, col: 5, offset: 30957},
+																			pos: position{line: 993, col: 5, offset: 31060},
 																			expr: &actionExpr{
-																				pos: position{line: 677, col: 14, offset: 21489},
+																				pos: position{line: 680, col: 14, offset: 21592},
 																				run: (*parser).callonListContinuationElement879,
 																				expr: &seqExpr{
-																					pos: position{line: 677, col: 14, offset: 21489},
+																					pos: position{line: 680, col: 14, offset: 21592},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2882, col: 11, offset: 91049},
+																							pos: position{line: 2885, col: 11, offset: 91152},
 																							expr: &anyMatcher{
-																								line: 2882, col: 13, offset: 91051,
+																								line: 2885, col: 13, offset: 91154,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 677, col: 21, offset: 21496},
+																							pos: position{line: 680, col: 21, offset: 21599},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonListContinuationElement884,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33786,28 +33845,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33816,9 +33875,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -33828,21 +33887,21 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 991, col: 5, offset: 30972},
+																			pos:        position{line: 994, col: 5, offset: 31075},
 																			val:        "> ",
 																			ignoreCase: false,
 																			want:       "\"> \"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 992, col: 5, offset: 30982},
+																			pos:   position{line: 995, col: 5, offset: 31085},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 2815, col: 14, offset: 89308},
+																				pos: position{line: 2818, col: 14, offset: 89411},
 																				run: (*parser).callonListContinuationElement896,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2815, col: 14, offset: 89308},
+																					pos: position{line: 2818, col: 14, offset: 89411},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2815, col: 14, offset: 89308},
+																						pos:        position{line: 2818, col: 14, offset: 89411},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -33852,28 +33911,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2887, col: 8, offset: 91113},
+																			pos: position{line: 2890, col: 8, offset: 91216},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2874, col: 12, offset: 90886},
+																					pos: position{line: 2877, col: 12, offset: 90989},
 																					run: (*parser).callonListContinuationElement900,
 																					expr: &choiceExpr{
-																						pos: position{line: 2874, col: 13, offset: 90887},
+																						pos: position{line: 2877, col: 13, offset: 90990},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 13, offset: 90887},
+																								pos:        position{line: 2877, col: 13, offset: 90990},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 20, offset: 90894},
+																								pos:        position{line: 2877, col: 20, offset: 90997},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 29, offset: 90903},
+																								pos:        position{line: 2877, col: 29, offset: 91006},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -33882,9 +33941,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
@@ -33896,44 +33955,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 984, col: 5, offset: 30682},
+													pos:   position{line: 987, col: 5, offset: 30785},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 984, col: 16, offset: 30693},
+														pos: position{line: 987, col: 16, offset: 30796},
 														expr: &choiceExpr{
-															pos: position{line: 984, col: 17, offset: 30694},
+															pos: position{line: 987, col: 17, offset: 30797},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2475, col: 22, offset: 79658},
+																	pos: position{line: 2478, col: 22, offset: 79761},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 2475, col: 22, offset: 79658},
+																		pos: position{line: 2478, col: 22, offset: 79761},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2480, col: 31, offset: 79879},
+																				pos:        position{line: 2483, col: 31, offset: 79982},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2480, col: 36, offset: 79884},
+																				pos: position{line: 2483, col: 36, offset: 79987},
 																				expr: &litMatcher{
-																					pos:        position{line: 2480, col: 37, offset: 79885},
+																					pos:        position{line: 2483, col: 37, offset: 79988},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2475, col: 49, offset: 79685},
+																				pos:   position{line: 2478, col: 49, offset: 79788},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2811, col: 13, offset: 89241},
+																					pos: position{line: 2814, col: 13, offset: 89344},
 																					run: (*parser).callonListContinuationElement916,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2811, col: 13, offset: 89241},
+																						pos: position{line: 2814, col: 13, offset: 89344},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2811, col: 13, offset: 89241},
+																							pos:        position{line: 2814, col: 13, offset: 89344},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -33943,28 +34002,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2887, col: 8, offset: 91113},
+																				pos: position{line: 2890, col: 8, offset: 91216},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2874, col: 12, offset: 90886},
+																						pos: position{line: 2877, col: 12, offset: 90989},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2874, col: 13, offset: 90887},
+																							pos: position{line: 2877, col: 13, offset: 90990},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 90887},
+																									pos:        position{line: 2877, col: 13, offset: 90990},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2874, col: 20, offset: 90894},
+																									pos:        position{line: 2877, col: 20, offset: 90997},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2874, col: 29, offset: 90903},
+																									pos:        position{line: 2877, col: 29, offset: 91006},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -33973,9 +34032,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2884, col: 8, offset: 91063},
+																						pos: position{line: 2887, col: 8, offset: 91166},
 																						expr: &anyMatcher{
-																							line: 2884, col: 9, offset: 91064,
+																							line: 2887, col: 9, offset: 91167,
 																						},
 																					},
 																				},
@@ -33984,51 +34043,51 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 996, col: 35, offset: 31099},
+																	pos: position{line: 999, col: 35, offset: 31202},
 																	run: (*parser).callonListContinuationElement927,
 																	expr: &seqExpr{
-																		pos: position{line: 996, col: 35, offset: 31099},
+																		pos: position{line: 999, col: 35, offset: 31202},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 996, col: 35, offset: 31099},
+																				pos:        position{line: 999, col: 35, offset: 31202},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 996, col: 40, offset: 31104},
+																				pos:   position{line: 999, col: 40, offset: 31207},
 																				label: "comment",
 																				expr: &actionExpr{
-																					pos: position{line: 2475, col: 22, offset: 79658},
+																					pos: position{line: 2478, col: 22, offset: 79761},
 																					run: (*parser).callonListContinuationElement931,
 																					expr: &seqExpr{
-																						pos: position{line: 2475, col: 22, offset: 79658},
+																						pos: position{line: 2478, col: 22, offset: 79761},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2480, col: 31, offset: 79879},
+																								pos:        position{line: 2483, col: 31, offset: 79982},
 																								val:        "//",
 																								ignoreCase: false,
 																								want:       "\"//\"",
 																							},
 																							&notExpr{
-																								pos: position{line: 2480, col: 36, offset: 79884},
+																								pos: position{line: 2483, col: 36, offset: 79987},
 																								expr: &litMatcher{
-																									pos:        position{line: 2480, col: 37, offset: 79885},
+																									pos:        position{line: 2483, col: 37, offset: 79988},
 																									val:        "//",
 																									ignoreCase: false,
 																									want:       "\"//\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 2475, col: 49, offset: 79685},
+																								pos:   position{line: 2478, col: 49, offset: 79788},
 																								label: "content",
 																								expr: &actionExpr{
-																									pos: position{line: 2811, col: 13, offset: 89241},
+																									pos: position{line: 2814, col: 13, offset: 89344},
 																									run: (*parser).callonListContinuationElement937,
 																									expr: &zeroOrMoreExpr{
-																										pos: position{line: 2811, col: 13, offset: 89241},
+																										pos: position{line: 2814, col: 13, offset: 89344},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2811, col: 13, offset: 89241},
+																											pos:        position{line: 2814, col: 13, offset: 89344},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -34038,28 +34097,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2887, col: 8, offset: 91113},
+																								pos: position{line: 2890, col: 8, offset: 91216},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2874, col: 12, offset: 90886},
+																										pos: position{line: 2877, col: 12, offset: 90989},
 																										run: (*parser).callonListContinuationElement941,
 																										expr: &choiceExpr{
-																											pos: position{line: 2874, col: 13, offset: 90887},
+																											pos: position{line: 2877, col: 13, offset: 90990},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 13, offset: 90887},
+																													pos:        position{line: 2877, col: 13, offset: 90990},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 20, offset: 90894},
+																													pos:        position{line: 2877, col: 20, offset: 90997},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 29, offset: 90903},
+																													pos:        position{line: 2877, col: 29, offset: 91006},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34068,9 +34127,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2884, col: 8, offset: 91063},
+																										pos: position{line: 2887, col: 8, offset: 91166},
 																										expr: &anyMatcher{
-																											line: 2884, col: 9, offset: 91064,
+																											line: 2887, col: 9, offset: 91167,
 																										},
 																									},
 																								},
@@ -34083,32 +34142,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 990, col: 5, offset: 30957},
+																	pos: position{line: 993, col: 5, offset: 31060},
 																	run: (*parser).callonListContinuationElement948,
 																	expr: &seqExpr{
-																		pos: position{line: 990, col: 5, offset: 30957},
+																		pos: position{line: 993, col: 5, offset: 31060},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 990, col: 5, offset: 30957},
+																				pos: position{line: 993, col: 5, offset: 31060},
 																				expr: &actionExpr{
-																					pos: position{line: 677, col: 14, offset: 21489},
+																					pos: position{line: 680, col: 14, offset: 21592},
 																					run: (*parser).callonListContinuationElement951,
 																					expr: &seqExpr{
-																						pos: position{line: 677, col: 14, offset: 21489},
+																						pos: position{line: 680, col: 14, offset: 21592},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2882, col: 11, offset: 91049},
+																								pos: position{line: 2885, col: 11, offset: 91152},
 																								expr: &anyMatcher{
-																									line: 2882, col: 13, offset: 91051,
+																									line: 2885, col: 13, offset: 91154,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 677, col: 21, offset: 21496},
+																								pos: position{line: 680, col: 21, offset: 21599},
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 10, offset: 90715},
+																									pos: position{line: 2868, col: 10, offset: 90818},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2865, col: 10, offset: 90715},
+																										pos:        position{line: 2868, col: 10, offset: 90818},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34117,28 +34176,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2887, col: 8, offset: 91113},
+																								pos: position{line: 2890, col: 8, offset: 91216},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2874, col: 12, offset: 90886},
+																										pos: position{line: 2877, col: 12, offset: 90989},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2874, col: 13, offset: 90887},
+																											pos: position{line: 2877, col: 13, offset: 90990},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 13, offset: 90887},
+																													pos:        position{line: 2877, col: 13, offset: 90990},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 20, offset: 90894},
+																													pos:        position{line: 2877, col: 20, offset: 90997},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 29, offset: 90903},
+																													pos:        position{line: 2877, col: 29, offset: 91006},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34147,9 +34206,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2884, col: 8, offset: 91063},
+																										pos: position{line: 2887, col: 8, offset: 91166},
 																										expr: &anyMatcher{
-																											line: 2884, col: 9, offset: 91064,
+																											line: 2887, col: 9, offset: 91167,
 																										},
 																									},
 																								},
@@ -34159,21 +34218,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 991, col: 5, offset: 30972},
+																				pos:        position{line: 994, col: 5, offset: 31075},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 992, col: 5, offset: 30982},
+																				pos:   position{line: 995, col: 5, offset: 31085},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2815, col: 14, offset: 89308},
+																					pos: position{line: 2818, col: 14, offset: 89411},
 																					run: (*parser).callonListContinuationElement968,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2815, col: 14, offset: 89308},
+																						pos: position{line: 2818, col: 14, offset: 89411},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2815, col: 14, offset: 89308},
+																							pos:        position{line: 2818, col: 14, offset: 89411},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34183,28 +34242,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2887, col: 8, offset: 91113},
+																				pos: position{line: 2890, col: 8, offset: 91216},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2874, col: 12, offset: 90886},
+																						pos: position{line: 2877, col: 12, offset: 90989},
 																						run: (*parser).callonListContinuationElement972,
 																						expr: &choiceExpr{
-																							pos: position{line: 2874, col: 13, offset: 90887},
+																							pos: position{line: 2877, col: 13, offset: 90990},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 90887},
+																									pos:        position{line: 2877, col: 13, offset: 90990},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2874, col: 20, offset: 90894},
+																									pos:        position{line: 2877, col: 20, offset: 90997},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2874, col: 29, offset: 90903},
+																									pos:        position{line: 2877, col: 29, offset: 91006},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34213,9 +34272,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2884, col: 8, offset: 91063},
+																						pos: position{line: 2887, col: 8, offset: 91166},
 																						expr: &anyMatcher{
-																							line: 2884, col: 9, offset: 91064,
+																							line: 2887, col: 9, offset: 91167,
 																						},
 																					},
 																				},
@@ -34224,21 +34283,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1797, col: 5, offset: 58039},
+																	pos: position{line: 1800, col: 5, offset: 58142},
 																	run: (*parser).callonListContinuationElement979,
 																	expr: &seqExpr{
-																		pos: position{line: 1797, col: 5, offset: 58039},
+																		pos: position{line: 1800, col: 5, offset: 58142},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1797, col: 5, offset: 58039},
+																				pos:   position{line: 1800, col: 5, offset: 58142},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2815, col: 14, offset: 89308},
+																					pos: position{line: 2818, col: 14, offset: 89411},
 																					run: (*parser).callonListContinuationElement982,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2815, col: 14, offset: 89308},
+																						pos: position{line: 2818, col: 14, offset: 89411},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2815, col: 14, offset: 89308},
+																							pos:        position{line: 2818, col: 14, offset: 89411},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34248,32 +34307,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1798, col: 5, offset: 58063},
+																				pos: position{line: 1801, col: 5, offset: 58166},
 																				run: (*parser).callonListContinuationElement985,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2887, col: 8, offset: 91113},
+																				pos: position{line: 2890, col: 8, offset: 91216},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2874, col: 12, offset: 90886},
+																						pos: position{line: 2877, col: 12, offset: 90989},
 																						run: (*parser).callonListContinuationElement987,
 																						expr: &choiceExpr{
-																							pos: position{line: 2874, col: 13, offset: 90887},
+																							pos: position{line: 2877, col: 13, offset: 90990},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 90887},
+																									pos:        position{line: 2877, col: 13, offset: 90990},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2874, col: 20, offset: 90894},
+																									pos:        position{line: 2877, col: 20, offset: 90997},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2874, col: 29, offset: 90903},
+																									pos:        position{line: 2877, col: 29, offset: 91006},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34282,9 +34341,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2884, col: 8, offset: 91063},
+																						pos: position{line: 2887, col: 8, offset: 91166},
 																						expr: &anyMatcher{
-																							line: 2884, col: 9, offset: 91064,
+																							line: 2887, col: 9, offset: 91167,
 																						},
 																					},
 																				},
@@ -34300,28 +34359,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1009, col: 5, offset: 31351},
+										pos: position{line: 1012, col: 5, offset: 31454},
 										run: (*parser).callonListContinuationElement994,
 										expr: &seqExpr{
-											pos: position{line: 1009, col: 5, offset: 31351},
+											pos: position{line: 1012, col: 5, offset: 31454},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1009, col: 5, offset: 31351},
+													pos:   position{line: 1012, col: 5, offset: 31454},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 776, col: 5, offset: 24861},
+														pos: position{line: 779, col: 5, offset: 24964},
 														run: (*parser).callonListContinuationElement997,
 														expr: &seqExpr{
-															pos: position{line: 776, col: 5, offset: 24861},
+															pos: position{line: 779, col: 5, offset: 24964},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 776, col: 5, offset: 24861},
+																	pos:   position{line: 779, col: 5, offset: 24964},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 776, col: 16, offset: 24872},
+																		pos: position{line: 779, col: 16, offset: 24975},
 																		run: (*parser).callonListContinuationElement1000,
 																		expr: &litMatcher{
-																			pos:        position{line: 776, col: 16, offset: 24872},
+																			pos:        position{line: 779, col: 16, offset: 24975},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -34329,12 +34388,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 778, col: 8, offset: 24949},
+																	pos: position{line: 781, col: 8, offset: 25052},
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 10, offset: 90715},
+																		pos: position{line: 2868, col: 10, offset: 90818},
 																		run: (*parser).callonListContinuationElement1003,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90715},
+																			pos:        position{line: 2868, col: 10, offset: 90818},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34343,28 +34402,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonListContinuationElement1006,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34373,9 +34432,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -34385,35 +34444,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1010, col: 5, offset: 31387},
+													pos:   position{line: 1013, col: 5, offset: 31490},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1020, col: 5, offset: 31655},
+														pos: position{line: 1023, col: 5, offset: 31758},
 														expr: &actionExpr{
-															pos: position{line: 1020, col: 6, offset: 31656},
+															pos: position{line: 1023, col: 6, offset: 31759},
 															run: (*parser).callonListContinuationElement1015,
 															expr: &seqExpr{
-																pos: position{line: 1020, col: 6, offset: 31656},
+																pos: position{line: 1023, col: 6, offset: 31759},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1020, col: 6, offset: 31656},
+																		pos: position{line: 1023, col: 6, offset: 31759},
 																		expr: &choiceExpr{
-																			pos: position{line: 1017, col: 26, offset: 31604},
+																			pos: position{line: 1020, col: 26, offset: 31707},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 776, col: 5, offset: 24861},
+																					pos: position{line: 779, col: 5, offset: 24964},
 																					run: (*parser).callonListContinuationElement1019,
 																					expr: &seqExpr{
-																						pos: position{line: 776, col: 5, offset: 24861},
+																						pos: position{line: 779, col: 5, offset: 24964},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 776, col: 5, offset: 24861},
+																								pos:   position{line: 779, col: 5, offset: 24964},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 776, col: 16, offset: 24872},
+																									pos: position{line: 779, col: 16, offset: 24975},
 																									run: (*parser).callonListContinuationElement1022,
 																									expr: &litMatcher{
-																										pos:        position{line: 776, col: 16, offset: 24872},
+																										pos:        position{line: 779, col: 16, offset: 24975},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -34421,12 +34480,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 778, col: 8, offset: 24949},
+																								pos: position{line: 781, col: 8, offset: 25052},
 																								expr: &actionExpr{
-																									pos: position{line: 2865, col: 10, offset: 90715},
+																									pos: position{line: 2868, col: 10, offset: 90818},
 																									run: (*parser).callonListContinuationElement1025,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2865, col: 10, offset: 90715},
+																										pos:        position{line: 2868, col: 10, offset: 90818},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34435,28 +34494,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2887, col: 8, offset: 91113},
+																								pos: position{line: 2890, col: 8, offset: 91216},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2874, col: 12, offset: 90886},
+																										pos: position{line: 2877, col: 12, offset: 90989},
 																										run: (*parser).callonListContinuationElement1028,
 																										expr: &choiceExpr{
-																											pos: position{line: 2874, col: 13, offset: 90887},
+																											pos: position{line: 2877, col: 13, offset: 90990},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 13, offset: 90887},
+																													pos:        position{line: 2877, col: 13, offset: 90990},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 20, offset: 90894},
+																													pos:        position{line: 2877, col: 20, offset: 90997},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2874, col: 29, offset: 90903},
+																													pos:        position{line: 2877, col: 29, offset: 91006},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34465,9 +34524,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2884, col: 8, offset: 91063},
+																										pos: position{line: 2887, col: 8, offset: 91166},
 																										expr: &anyMatcher{
-																											line: 2884, col: 9, offset: 91064,
+																											line: 2887, col: 9, offset: 91167,
 																										},
 																									},
 																								},
@@ -34476,39 +34535,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1021, col: 5, offset: 31683},
+																		pos:   position{line: 1024, col: 5, offset: 31786},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 814, col: 5, offset: 26191},
 																			run: (*parser).callonListContinuationElement1038,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 814, col: 5, offset: 26191},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2882, col: 11, offset: 91049},
+																						pos: position{line: 2885, col: 11, offset: 91152},
 																						expr: &anyMatcher{
-																							line: 2882, col: 13, offset: 91051,
+																							line: 2885, col: 13, offset: 91154,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 815, col: 5, offset: 26266},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2811, col: 13, offset: 89241},
+																							pos: position{line: 2814, col: 13, offset: 89344},
 																							run: (*parser).callonListContinuationElement1043,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2811, col: 13, offset: 89241},
+																								pos: position{line: 2814, col: 13, offset: 89344},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2811, col: 13, offset: 89241},
+																									pos:        position{line: 2814, col: 13, offset: 89344},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34518,28 +34577,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2887, col: 8, offset: 91113},
+																						pos: position{line: 2890, col: 8, offset: 91216},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2874, col: 12, offset: 90886},
+																								pos: position{line: 2877, col: 12, offset: 90989},
 																								run: (*parser).callonListContinuationElement1047,
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 13, offset: 90887},
+																									pos: position{line: 2877, col: 13, offset: 90990},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 13, offset: 90887},
+																											pos:        position{line: 2877, col: 13, offset: 90990},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 20, offset: 90894},
+																											pos:        position{line: 2877, col: 20, offset: 90997},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 29, offset: 90903},
+																											pos:        position{line: 2877, col: 29, offset: 91006},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34548,9 +34607,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2884, col: 8, offset: 91063},
+																								pos: position{line: 2887, col: 8, offset: 91166},
 																								expr: &anyMatcher{
-																									line: 2884, col: 9, offset: 91064,
+																									line: 2887, col: 9, offset: 91167,
 																								},
 																							},
 																						},
@@ -34565,27 +34624,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1011, col: 5, offset: 31418},
+													pos:   position{line: 1014, col: 5, offset: 31521},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1011, col: 9, offset: 31422},
+														pos: position{line: 1014, col: 9, offset: 31525},
 														expr: &choiceExpr{
-															pos: position{line: 1017, col: 26, offset: 31604},
+															pos: position{line: 1020, col: 26, offset: 31707},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 776, col: 5, offset: 24861},
+																	pos: position{line: 779, col: 5, offset: 24964},
 																	run: (*parser).callonListContinuationElement1057,
 																	expr: &seqExpr{
-																		pos: position{line: 776, col: 5, offset: 24861},
+																		pos: position{line: 779, col: 5, offset: 24964},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 776, col: 5, offset: 24861},
+																				pos:   position{line: 779, col: 5, offset: 24964},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 776, col: 16, offset: 24872},
+																					pos: position{line: 779, col: 16, offset: 24975},
 																					run: (*parser).callonListContinuationElement1060,
 																					expr: &litMatcher{
-																						pos:        position{line: 776, col: 16, offset: 24872},
+																						pos:        position{line: 779, col: 16, offset: 24975},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -34593,12 +34652,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 778, col: 8, offset: 24949},
+																				pos: position{line: 781, col: 8, offset: 25052},
 																				expr: &actionExpr{
-																					pos: position{line: 2865, col: 10, offset: 90715},
+																					pos: position{line: 2868, col: 10, offset: 90818},
 																					run: (*parser).callonListContinuationElement1063,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2865, col: 10, offset: 90715},
+																						pos:        position{line: 2868, col: 10, offset: 90818},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34607,28 +34666,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2887, col: 8, offset: 91113},
+																				pos: position{line: 2890, col: 8, offset: 91216},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2874, col: 12, offset: 90886},
+																						pos: position{line: 2877, col: 12, offset: 90989},
 																						run: (*parser).callonListContinuationElement1066,
 																						expr: &choiceExpr{
-																							pos: position{line: 2874, col: 13, offset: 90887},
+																							pos: position{line: 2877, col: 13, offset: 90990},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 90887},
+																									pos:        position{line: 2877, col: 13, offset: 90990},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2874, col: 20, offset: 90894},
+																									pos:        position{line: 2877, col: 20, offset: 90997},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2874, col: 29, offset: 90903},
+																									pos:        position{line: 2877, col: 29, offset: 91006},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34637,9 +34696,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2884, col: 8, offset: 91063},
+																						pos: position{line: 2887, col: 8, offset: 91166},
 																						expr: &anyMatcher{
-																							line: 2884, col: 9, offset: 91064,
+																							line: 2887, col: 9, offset: 91167,
 																						},
 																					},
 																				},
@@ -34648,9 +34707,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2884, col: 8, offset: 91063},
+																	pos: position{line: 2887, col: 8, offset: 91166},
 																	expr: &anyMatcher{
-																		line: 2884, col: 9, offset: 91064,
+																		line: 2887, col: 9, offset: 91167,
 																	},
 																},
 															},
@@ -34661,39 +34720,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1029, col: 5, offset: 31846},
+										pos: position{line: 1032, col: 5, offset: 31949},
 										run: (*parser).callonListContinuationElement1075,
 										expr: &seqExpr{
-											pos: position{line: 1029, col: 5, offset: 31846},
+											pos: position{line: 1032, col: 5, offset: 31949},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1029, col: 5, offset: 31846},
+													pos:   position{line: 1032, col: 5, offset: 31949},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 790, col: 5, offset: 25344},
+														pos: position{line: 793, col: 5, offset: 25447},
 														run: (*parser).callonListContinuationElement1078,
 														expr: &seqExpr{
-															pos: position{line: 790, col: 5, offset: 25344},
+															pos: position{line: 793, col: 5, offset: 25447},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 790, col: 5, offset: 25344},
+																	pos:   position{line: 793, col: 5, offset: 25447},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 790, col: 16, offset: 25355},
+																		pos: position{line: 793, col: 16, offset: 25458},
 																		run: (*parser).callonListContinuationElement1081,
 																		expr: &seqExpr{
-																			pos: position{line: 790, col: 16, offset: 25355},
+																			pos: position{line: 793, col: 16, offset: 25458},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 790, col: 16, offset: 25355},
+																					pos:        position{line: 793, col: 16, offset: 25458},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 790, col: 23, offset: 25362},
+																					pos: position{line: 793, col: 23, offset: 25465},
 																					expr: &litMatcher{
-																						pos:        position{line: 790, col: 23, offset: 25362},
+																						pos:        position{line: 793, col: 23, offset: 25465},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -34704,12 +34763,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 792, col: 8, offset: 25446},
+																	pos: position{line: 795, col: 8, offset: 25549},
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 10, offset: 90715},
+																		pos: position{line: 2868, col: 10, offset: 90818},
 																		run: (*parser).callonListContinuationElement1087,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90715},
+																			pos:        position{line: 2868, col: 10, offset: 90818},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34718,28 +34777,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonListContinuationElement1090,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34748,9 +34807,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -34760,56 +34819,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1030, col: 5, offset: 31889},
+													pos: position{line: 1033, col: 5, offset: 31992},
 													run: (*parser).callonListContinuationElement1097,
 												},
 												&labeledExpr{
-													pos:   position{line: 1033, col: 5, offset: 31981},
+													pos:   position{line: 1036, col: 5, offset: 32084},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1048, col: 5, offset: 32411},
+														pos: position{line: 1051, col: 5, offset: 32514},
 														expr: &actionExpr{
-															pos: position{line: 1048, col: 6, offset: 32412},
+															pos: position{line: 1051, col: 6, offset: 32515},
 															run: (*parser).callonListContinuationElement1100,
 															expr: &seqExpr{
-																pos: position{line: 1048, col: 6, offset: 32412},
+																pos: position{line: 1051, col: 6, offset: 32515},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1048, col: 6, offset: 32412},
+																		pos: position{line: 1051, col: 6, offset: 32515},
 																		expr: &choiceExpr{
-																			pos: position{line: 1041, col: 5, offset: 32245},
+																			pos: position{line: 1044, col: 5, offset: 32348},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1041, col: 5, offset: 32245},
+																					pos: position{line: 1044, col: 5, offset: 32348},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1041, col: 5, offset: 32245},
+																							pos:   position{line: 1044, col: 5, offset: 32348},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 5, offset: 25344},
+																								pos: position{line: 793, col: 5, offset: 25447},
 																								run: (*parser).callonListContinuationElement1106,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 5, offset: 25344},
+																									pos: position{line: 793, col: 5, offset: 25447},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 790, col: 5, offset: 25344},
+																											pos:   position{line: 793, col: 5, offset: 25447},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 790, col: 16, offset: 25355},
+																												pos: position{line: 793, col: 16, offset: 25458},
 																												run: (*parser).callonListContinuationElement1109,
 																												expr: &seqExpr{
-																													pos: position{line: 790, col: 16, offset: 25355},
+																													pos: position{line: 793, col: 16, offset: 25458},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 790, col: 16, offset: 25355},
+																															pos:        position{line: 793, col: 16, offset: 25458},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 790, col: 23, offset: 25362},
+																															pos: position{line: 793, col: 23, offset: 25465},
 																															expr: &litMatcher{
-																																pos:        position{line: 790, col: 23, offset: 25362},
+																																pos:        position{line: 793, col: 23, offset: 25465},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -34820,12 +34879,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 792, col: 8, offset: 25446},
+																											pos: position{line: 795, col: 8, offset: 25549},
 																											expr: &actionExpr{
-																												pos: position{line: 2865, col: 10, offset: 90715},
+																												pos: position{line: 2868, col: 10, offset: 90818},
 																												run: (*parser).callonListContinuationElement1115,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 10, offset: 90715},
+																													pos:        position{line: 2868, col: 10, offset: 90818},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34834,28 +34893,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2887, col: 8, offset: 91113},
+																											pos: position{line: 2890, col: 8, offset: 91216},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2874, col: 12, offset: 90886},
+																													pos: position{line: 2877, col: 12, offset: 90989},
 																													run: (*parser).callonListContinuationElement1118,
 																													expr: &choiceExpr{
-																														pos: position{line: 2874, col: 13, offset: 90887},
+																														pos: position{line: 2877, col: 13, offset: 90990},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34864,9 +34923,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2884, col: 8, offset: 91063},
+																													pos: position{line: 2887, col: 8, offset: 91166},
 																													expr: &anyMatcher{
-																														line: 2884, col: 9, offset: 91064,
+																														line: 2887, col: 9, offset: 91167,
 																													},
 																												},
 																											},
@@ -34876,45 +34935,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1042, col: 5, offset: 32280},
+																							pos: position{line: 1045, col: 5, offset: 32383},
 																							run: (*parser).callonListContinuationElement1125,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1049, col: 5, offset: 32446},
+																		pos:   position{line: 1052, col: 5, offset: 32549},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 814, col: 5, offset: 26191},
 																			run: (*parser).callonListContinuationElement1129,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 814, col: 5, offset: 26191},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2882, col: 11, offset: 91049},
+																						pos: position{line: 2885, col: 11, offset: 91152},
 																						expr: &anyMatcher{
-																							line: 2882, col: 13, offset: 91051,
+																							line: 2885, col: 13, offset: 91154,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 815, col: 5, offset: 26266},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2811, col: 13, offset: 89241},
+																							pos: position{line: 2814, col: 13, offset: 89344},
 																							run: (*parser).callonListContinuationElement1134,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2811, col: 13, offset: 89241},
+																								pos: position{line: 2814, col: 13, offset: 89344},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2811, col: 13, offset: 89241},
+																									pos:        position{line: 2814, col: 13, offset: 89344},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34924,28 +34983,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2887, col: 8, offset: 91113},
+																						pos: position{line: 2890, col: 8, offset: 91216},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2874, col: 12, offset: 90886},
+																								pos: position{line: 2877, col: 12, offset: 90989},
 																								run: (*parser).callonListContinuationElement1138,
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 13, offset: 90887},
+																									pos: position{line: 2877, col: 13, offset: 90990},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 13, offset: 90887},
+																											pos:        position{line: 2877, col: 13, offset: 90990},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 20, offset: 90894},
+																											pos:        position{line: 2877, col: 20, offset: 90997},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 29, offset: 90903},
+																											pos:        position{line: 2877, col: 29, offset: 91006},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34954,9 +35013,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2884, col: 8, offset: 91063},
+																								pos: position{line: 2887, col: 8, offset: 91166},
 																								expr: &anyMatcher{
-																									line: 2884, col: 9, offset: 91064,
+																									line: 2887, col: 9, offset: 91167,
 																								},
 																							},
 																						},
@@ -34971,44 +35030,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1034, col: 5, offset: 32019},
+													pos:   position{line: 1037, col: 5, offset: 32122},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1034, col: 9, offset: 32023},
+														pos: position{line: 1037, col: 9, offset: 32126},
 														expr: &choiceExpr{
-															pos: position{line: 1041, col: 5, offset: 32245},
+															pos: position{line: 1044, col: 5, offset: 32348},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1041, col: 5, offset: 32245},
+																	pos: position{line: 1044, col: 5, offset: 32348},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1041, col: 5, offset: 32245},
+																			pos:   position{line: 1044, col: 5, offset: 32348},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 790, col: 5, offset: 25344},
+																				pos: position{line: 793, col: 5, offset: 25447},
 																				run: (*parser).callonListContinuationElement1150,
 																				expr: &seqExpr{
-																					pos: position{line: 790, col: 5, offset: 25344},
+																					pos: position{line: 793, col: 5, offset: 25447},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 790, col: 5, offset: 25344},
+																							pos:   position{line: 793, col: 5, offset: 25447},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 790, col: 16, offset: 25355},
+																								pos: position{line: 793, col: 16, offset: 25458},
 																								run: (*parser).callonListContinuationElement1153,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 16, offset: 25355},
+																									pos: position{line: 793, col: 16, offset: 25458},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 790, col: 16, offset: 25355},
+																											pos:        position{line: 793, col: 16, offset: 25458},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 790, col: 23, offset: 25362},
+																											pos: position{line: 793, col: 23, offset: 25465},
 																											expr: &litMatcher{
-																												pos:        position{line: 790, col: 23, offset: 25362},
+																												pos:        position{line: 793, col: 23, offset: 25465},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -35019,12 +35078,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 792, col: 8, offset: 25446},
+																							pos: position{line: 795, col: 8, offset: 25549},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonListContinuationElement1159,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35033,28 +35092,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonListContinuationElement1162,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35063,9 +35122,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -35075,15 +35134,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1042, col: 5, offset: 32280},
+																			pos: position{line: 1045, col: 5, offset: 32383},
 																			run: (*parser).callonListContinuationElement1169,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2884, col: 8, offset: 91063},
+																	pos: position{line: 2887, col: 8, offset: 91166},
 																	expr: &anyMatcher{
-																		line: 2884, col: 9, offset: 91064,
+																		line: 2887, col: 9, offset: 91167,
 																	},
 																},
 															},
@@ -35094,39 +35153,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1057, col: 5, offset: 32597},
+										pos: position{line: 1060, col: 5, offset: 32700},
 										run: (*parser).callonListContinuationElement1172,
 										expr: &seqExpr{
-											pos: position{line: 1057, col: 5, offset: 32597},
+											pos: position{line: 1060, col: 5, offset: 32700},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1057, col: 5, offset: 32597},
+													pos:   position{line: 1060, col: 5, offset: 32700},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 797, col: 5, offset: 25594},
+														pos: position{line: 800, col: 5, offset: 25697},
 														run: (*parser).callonListContinuationElement1175,
 														expr: &seqExpr{
-															pos: position{line: 797, col: 5, offset: 25594},
+															pos: position{line: 800, col: 5, offset: 25697},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 797, col: 5, offset: 25594},
+																	pos:   position{line: 800, col: 5, offset: 25697},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 797, col: 16, offset: 25605},
+																		pos: position{line: 800, col: 16, offset: 25708},
 																		run: (*parser).callonListContinuationElement1178,
 																		expr: &seqExpr{
-																			pos: position{line: 797, col: 16, offset: 25605},
+																			pos: position{line: 800, col: 16, offset: 25708},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 797, col: 16, offset: 25605},
+																					pos:        position{line: 800, col: 16, offset: 25708},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 797, col: 23, offset: 25612},
+																					pos: position{line: 800, col: 23, offset: 25715},
 																					expr: &litMatcher{
-																						pos:        position{line: 797, col: 23, offset: 25612},
+																						pos:        position{line: 800, col: 23, offset: 25715},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -35137,12 +35196,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 799, col: 8, offset: 25696},
+																	pos: position{line: 802, col: 8, offset: 25799},
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 10, offset: 90715},
+																		pos: position{line: 2868, col: 10, offset: 90818},
 																		run: (*parser).callonListContinuationElement1184,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90715},
+																			pos:        position{line: 2868, col: 10, offset: 90818},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35151,28 +35210,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonListContinuationElement1187,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35181,9 +35240,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -35193,56 +35252,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1058, col: 5, offset: 32634},
+													pos: position{line: 1061, col: 5, offset: 32737},
 													run: (*parser).callonListContinuationElement1194,
 												},
 												&labeledExpr{
-													pos:   position{line: 1061, col: 5, offset: 32726},
+													pos:   position{line: 1064, col: 5, offset: 32829},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1076, col: 4, offset: 33107},
+														pos: position{line: 1079, col: 4, offset: 33210},
 														expr: &actionExpr{
-															pos: position{line: 1076, col: 5, offset: 33108},
+															pos: position{line: 1079, col: 5, offset: 33211},
 															run: (*parser).callonListContinuationElement1197,
 															expr: &seqExpr{
-																pos: position{line: 1076, col: 5, offset: 33108},
+																pos: position{line: 1079, col: 5, offset: 33211},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1076, col: 5, offset: 33108},
+																		pos: position{line: 1079, col: 5, offset: 33211},
 																		expr: &choiceExpr{
-																			pos: position{line: 1069, col: 5, offset: 32954},
+																			pos: position{line: 1072, col: 5, offset: 33057},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1069, col: 5, offset: 32954},
+																					pos: position{line: 1072, col: 5, offset: 33057},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1069, col: 5, offset: 32954},
+																							pos:   position{line: 1072, col: 5, offset: 33057},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 5, offset: 25594},
+																								pos: position{line: 800, col: 5, offset: 25697},
 																								run: (*parser).callonListContinuationElement1203,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 5, offset: 25594},
+																									pos: position{line: 800, col: 5, offset: 25697},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 797, col: 5, offset: 25594},
+																											pos:   position{line: 800, col: 5, offset: 25697},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 797, col: 16, offset: 25605},
+																												pos: position{line: 800, col: 16, offset: 25708},
 																												run: (*parser).callonListContinuationElement1206,
 																												expr: &seqExpr{
-																													pos: position{line: 797, col: 16, offset: 25605},
+																													pos: position{line: 800, col: 16, offset: 25708},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 797, col: 16, offset: 25605},
+																															pos:        position{line: 800, col: 16, offset: 25708},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 797, col: 23, offset: 25612},
+																															pos: position{line: 800, col: 23, offset: 25715},
 																															expr: &litMatcher{
-																																pos:        position{line: 797, col: 23, offset: 25612},
+																																pos:        position{line: 800, col: 23, offset: 25715},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -35253,12 +35312,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 8, offset: 25696},
+																											pos: position{line: 802, col: 8, offset: 25799},
 																											expr: &actionExpr{
-																												pos: position{line: 2865, col: 10, offset: 90715},
+																												pos: position{line: 2868, col: 10, offset: 90818},
 																												run: (*parser).callonListContinuationElement1212,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 10, offset: 90715},
+																													pos:        position{line: 2868, col: 10, offset: 90818},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35267,28 +35326,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2887, col: 8, offset: 91113},
+																											pos: position{line: 2890, col: 8, offset: 91216},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2874, col: 12, offset: 90886},
+																													pos: position{line: 2877, col: 12, offset: 90989},
 																													run: (*parser).callonListContinuationElement1215,
 																													expr: &choiceExpr{
-																														pos: position{line: 2874, col: 13, offset: 90887},
+																														pos: position{line: 2877, col: 13, offset: 90990},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35297,9 +35356,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2884, col: 8, offset: 91063},
+																													pos: position{line: 2887, col: 8, offset: 91166},
 																													expr: &anyMatcher{
-																														line: 2884, col: 9, offset: 91064,
+																														line: 2887, col: 9, offset: 91167,
 																													},
 																												},
 																											},
@@ -35309,45 +35368,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1070, col: 5, offset: 32983},
+																							pos: position{line: 1073, col: 5, offset: 33086},
 																							run: (*parser).callonListContinuationElement1222,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1077, col: 5, offset: 33136},
+																		pos:   position{line: 1080, col: 5, offset: 33239},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 814, col: 5, offset: 26191},
 																			run: (*parser).callonListContinuationElement1226,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 814, col: 5, offset: 26191},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2882, col: 11, offset: 91049},
+																						pos: position{line: 2885, col: 11, offset: 91152},
 																						expr: &anyMatcher{
-																							line: 2882, col: 13, offset: 91051,
+																							line: 2885, col: 13, offset: 91154,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 815, col: 5, offset: 26266},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2811, col: 13, offset: 89241},
+																							pos: position{line: 2814, col: 13, offset: 89344},
 																							run: (*parser).callonListContinuationElement1231,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2811, col: 13, offset: 89241},
+																								pos: position{line: 2814, col: 13, offset: 89344},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2811, col: 13, offset: 89241},
+																									pos:        position{line: 2814, col: 13, offset: 89344},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35357,28 +35416,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2887, col: 8, offset: 91113},
+																						pos: position{line: 2890, col: 8, offset: 91216},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2874, col: 12, offset: 90886},
+																								pos: position{line: 2877, col: 12, offset: 90989},
 																								run: (*parser).callonListContinuationElement1235,
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 13, offset: 90887},
+																									pos: position{line: 2877, col: 13, offset: 90990},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 13, offset: 90887},
+																											pos:        position{line: 2877, col: 13, offset: 90990},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 20, offset: 90894},
+																											pos:        position{line: 2877, col: 20, offset: 90997},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 29, offset: 90903},
+																											pos:        position{line: 2877, col: 29, offset: 91006},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35387,9 +35446,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2884, col: 8, offset: 91063},
+																								pos: position{line: 2887, col: 8, offset: 91166},
 																								expr: &anyMatcher{
-																									line: 2884, col: 9, offset: 91064,
+																									line: 2887, col: 9, offset: 91167,
 																								},
 																							},
 																						},
@@ -35404,44 +35463,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1062, col: 5, offset: 32758},
+													pos:   position{line: 1065, col: 5, offset: 32861},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1062, col: 9, offset: 32762},
+														pos: position{line: 1065, col: 9, offset: 32865},
 														expr: &choiceExpr{
-															pos: position{line: 1069, col: 5, offset: 32954},
+															pos: position{line: 1072, col: 5, offset: 33057},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1069, col: 5, offset: 32954},
+																	pos: position{line: 1072, col: 5, offset: 33057},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1069, col: 5, offset: 32954},
+																			pos:   position{line: 1072, col: 5, offset: 33057},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 5, offset: 25594},
+																				pos: position{line: 800, col: 5, offset: 25697},
 																				run: (*parser).callonListContinuationElement1247,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 5, offset: 25594},
+																					pos: position{line: 800, col: 5, offset: 25697},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 797, col: 5, offset: 25594},
+																							pos:   position{line: 800, col: 5, offset: 25697},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 16, offset: 25605},
+																								pos: position{line: 800, col: 16, offset: 25708},
 																								run: (*parser).callonListContinuationElement1250,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 16, offset: 25605},
+																									pos: position{line: 800, col: 16, offset: 25708},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 797, col: 16, offset: 25605},
+																											pos:        position{line: 800, col: 16, offset: 25708},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 797, col: 23, offset: 25612},
+																											pos: position{line: 800, col: 23, offset: 25715},
 																											expr: &litMatcher{
-																												pos:        position{line: 797, col: 23, offset: 25612},
+																												pos:        position{line: 800, col: 23, offset: 25715},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -35452,12 +35511,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 8, offset: 25696},
+																							pos: position{line: 802, col: 8, offset: 25799},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonListContinuationElement1256,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35466,28 +35525,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonListContinuationElement1259,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35496,9 +35555,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -35508,15 +35567,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1070, col: 5, offset: 32983},
+																			pos: position{line: 1073, col: 5, offset: 33086},
 																			run: (*parser).callonListContinuationElement1266,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2884, col: 8, offset: 91063},
+																	pos: position{line: 2887, col: 8, offset: 91166},
 																	expr: &anyMatcher{
-																		line: 2884, col: 9, offset: 91064,
+																		line: 2887, col: 9, offset: 91167,
 																	},
 																},
 															},
@@ -35527,39 +35586,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1085, col: 5, offset: 33291},
+										pos: position{line: 1088, col: 5, offset: 33394},
 										run: (*parser).callonListContinuationElement1269,
 										expr: &seqExpr{
-											pos: position{line: 1085, col: 5, offset: 33291},
+											pos: position{line: 1088, col: 5, offset: 33394},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1085, col: 5, offset: 33291},
+													pos:   position{line: 1088, col: 5, offset: 33394},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 804, col: 5, offset: 25840},
+														pos: position{line: 807, col: 5, offset: 25943},
 														run: (*parser).callonListContinuationElement1272,
 														expr: &seqExpr{
-															pos: position{line: 804, col: 5, offset: 25840},
+															pos: position{line: 807, col: 5, offset: 25943},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 804, col: 5, offset: 25840},
+																	pos:   position{line: 807, col: 5, offset: 25943},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 804, col: 16, offset: 25851},
+																		pos: position{line: 807, col: 16, offset: 25954},
 																		run: (*parser).callonListContinuationElement1275,
 																		expr: &seqExpr{
-																			pos: position{line: 804, col: 16, offset: 25851},
+																			pos: position{line: 807, col: 16, offset: 25954},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 804, col: 16, offset: 25851},
+																					pos:        position{line: 807, col: 16, offset: 25954},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 804, col: 23, offset: 25858},
+																					pos: position{line: 807, col: 23, offset: 25961},
 																					expr: &litMatcher{
-																						pos:        position{line: 804, col: 23, offset: 25858},
+																						pos:        position{line: 807, col: 23, offset: 25961},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -35570,12 +35629,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 806, col: 8, offset: 25942},
+																	pos: position{line: 809, col: 8, offset: 26045},
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 10, offset: 90715},
+																		pos: position{line: 2868, col: 10, offset: 90818},
 																		run: (*parser).callonListContinuationElement1281,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90715},
+																			pos:        position{line: 2868, col: 10, offset: 90818},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35584,28 +35643,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonListContinuationElement1284,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35614,9 +35673,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -35626,56 +35685,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1086, col: 5, offset: 33330},
+													pos: position{line: 1089, col: 5, offset: 33433},
 													run: (*parser).callonListContinuationElement1291,
 												},
 												&labeledExpr{
-													pos:   position{line: 1089, col: 5, offset: 33422},
+													pos:   position{line: 1092, col: 5, offset: 33525},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1104, col: 4, offset: 33819},
+														pos: position{line: 1107, col: 4, offset: 33922},
 														expr: &actionExpr{
-															pos: position{line: 1104, col: 5, offset: 33820},
+															pos: position{line: 1107, col: 5, offset: 33923},
 															run: (*parser).callonListContinuationElement1294,
 															expr: &seqExpr{
-																pos: position{line: 1104, col: 5, offset: 33820},
+																pos: position{line: 1107, col: 5, offset: 33923},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1104, col: 5, offset: 33820},
+																		pos: position{line: 1107, col: 5, offset: 33923},
 																		expr: &choiceExpr{
-																			pos: position{line: 1097, col: 5, offset: 33662},
+																			pos: position{line: 1100, col: 5, offset: 33765},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1097, col: 5, offset: 33662},
+																					pos: position{line: 1100, col: 5, offset: 33765},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1097, col: 5, offset: 33662},
+																							pos:   position{line: 1100, col: 5, offset: 33765},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 5, offset: 25840},
+																								pos: position{line: 807, col: 5, offset: 25943},
 																								run: (*parser).callonListContinuationElement1300,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 5, offset: 25840},
+																									pos: position{line: 807, col: 5, offset: 25943},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 804, col: 5, offset: 25840},
+																											pos:   position{line: 807, col: 5, offset: 25943},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 804, col: 16, offset: 25851},
+																												pos: position{line: 807, col: 16, offset: 25954},
 																												run: (*parser).callonListContinuationElement1303,
 																												expr: &seqExpr{
-																													pos: position{line: 804, col: 16, offset: 25851},
+																													pos: position{line: 807, col: 16, offset: 25954},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 804, col: 16, offset: 25851},
+																															pos:        position{line: 807, col: 16, offset: 25954},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 804, col: 23, offset: 25858},
+																															pos: position{line: 807, col: 23, offset: 25961},
 																															expr: &litMatcher{
-																																pos:        position{line: 804, col: 23, offset: 25858},
+																																pos:        position{line: 807, col: 23, offset: 25961},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -35686,12 +35745,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 8, offset: 25942},
+																											pos: position{line: 809, col: 8, offset: 26045},
 																											expr: &actionExpr{
-																												pos: position{line: 2865, col: 10, offset: 90715},
+																												pos: position{line: 2868, col: 10, offset: 90818},
 																												run: (*parser).callonListContinuationElement1309,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 10, offset: 90715},
+																													pos:        position{line: 2868, col: 10, offset: 90818},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35700,28 +35759,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2887, col: 8, offset: 91113},
+																											pos: position{line: 2890, col: 8, offset: 91216},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2874, col: 12, offset: 90886},
+																													pos: position{line: 2877, col: 12, offset: 90989},
 																													run: (*parser).callonListContinuationElement1312,
 																													expr: &choiceExpr{
-																														pos: position{line: 2874, col: 13, offset: 90887},
+																														pos: position{line: 2877, col: 13, offset: 90990},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35730,9 +35789,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2884, col: 8, offset: 91063},
+																													pos: position{line: 2887, col: 8, offset: 91166},
 																													expr: &anyMatcher{
-																														line: 2884, col: 9, offset: 91064,
+																														line: 2887, col: 9, offset: 91167,
 																													},
 																												},
 																											},
@@ -35742,45 +35801,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1098, col: 5, offset: 33693},
+																							pos: position{line: 1101, col: 5, offset: 33796},
 																							run: (*parser).callonListContinuationElement1319,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1105, col: 5, offset: 33850},
+																		pos:   position{line: 1108, col: 5, offset: 33953},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26088},
+																			pos: position{line: 814, col: 5, offset: 26191},
 																			run: (*parser).callonListContinuationElement1323,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26088},
+																				pos: position{line: 814, col: 5, offset: 26191},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2882, col: 11, offset: 91049},
+																						pos: position{line: 2885, col: 11, offset: 91152},
 																						expr: &anyMatcher{
-																							line: 2882, col: 13, offset: 91051,
+																							line: 2885, col: 13, offset: 91154,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 812, col: 5, offset: 26163},
+																						pos:   position{line: 815, col: 5, offset: 26266},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2811, col: 13, offset: 89241},
+																							pos: position{line: 2814, col: 13, offset: 89344},
 																							run: (*parser).callonListContinuationElement1328,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2811, col: 13, offset: 89241},
+																								pos: position{line: 2814, col: 13, offset: 89344},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2811, col: 13, offset: 89241},
+																									pos:        position{line: 2814, col: 13, offset: 89344},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35790,28 +35849,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2887, col: 8, offset: 91113},
+																						pos: position{line: 2890, col: 8, offset: 91216},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2874, col: 12, offset: 90886},
+																								pos: position{line: 2877, col: 12, offset: 90989},
 																								run: (*parser).callonListContinuationElement1332,
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 13, offset: 90887},
+																									pos: position{line: 2877, col: 13, offset: 90990},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 13, offset: 90887},
+																											pos:        position{line: 2877, col: 13, offset: 90990},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 20, offset: 90894},
+																											pos:        position{line: 2877, col: 20, offset: 90997},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 29, offset: 90903},
+																											pos:        position{line: 2877, col: 29, offset: 91006},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35820,9 +35879,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2884, col: 8, offset: 91063},
+																								pos: position{line: 2887, col: 8, offset: 91166},
 																								expr: &anyMatcher{
-																									line: 2884, col: 9, offset: 91064,
+																									line: 2887, col: 9, offset: 91167,
 																								},
 																							},
 																						},
@@ -35837,44 +35896,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1090, col: 5, offset: 33456},
+													pos:   position{line: 1093, col: 5, offset: 33559},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1090, col: 9, offset: 33460},
+														pos: position{line: 1093, col: 9, offset: 33563},
 														expr: &choiceExpr{
-															pos: position{line: 1097, col: 5, offset: 33662},
+															pos: position{line: 1100, col: 5, offset: 33765},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1097, col: 5, offset: 33662},
+																	pos: position{line: 1100, col: 5, offset: 33765},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1097, col: 5, offset: 33662},
+																			pos:   position{line: 1100, col: 5, offset: 33765},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 5, offset: 25840},
+																				pos: position{line: 807, col: 5, offset: 25943},
 																				run: (*parser).callonListContinuationElement1344,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 5, offset: 25840},
+																					pos: position{line: 807, col: 5, offset: 25943},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 804, col: 5, offset: 25840},
+																							pos:   position{line: 807, col: 5, offset: 25943},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 16, offset: 25851},
+																								pos: position{line: 807, col: 16, offset: 25954},
 																								run: (*parser).callonListContinuationElement1347,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 16, offset: 25851},
+																									pos: position{line: 807, col: 16, offset: 25954},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 804, col: 16, offset: 25851},
+																											pos:        position{line: 807, col: 16, offset: 25954},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 804, col: 23, offset: 25858},
+																											pos: position{line: 807, col: 23, offset: 25961},
 																											expr: &litMatcher{
-																												pos:        position{line: 804, col: 23, offset: 25858},
+																												pos:        position{line: 807, col: 23, offset: 25961},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -35885,12 +35944,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 8, offset: 25942},
+																							pos: position{line: 809, col: 8, offset: 26045},
 																							expr: &actionExpr{
-																								pos: position{line: 2865, col: 10, offset: 90715},
+																								pos: position{line: 2868, col: 10, offset: 90818},
 																								run: (*parser).callonListContinuationElement1353,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2865, col: 10, offset: 90715},
+																									pos:        position{line: 2868, col: 10, offset: 90818},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35899,28 +35958,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2887, col: 8, offset: 91113},
+																							pos: position{line: 2890, col: 8, offset: 91216},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2874, col: 12, offset: 90886},
+																									pos: position{line: 2877, col: 12, offset: 90989},
 																									run: (*parser).callonListContinuationElement1356,
 																									expr: &choiceExpr{
-																										pos: position{line: 2874, col: 13, offset: 90887},
+																										pos: position{line: 2877, col: 13, offset: 90990},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 13, offset: 90887},
+																												pos:        position{line: 2877, col: 13, offset: 90990},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 20, offset: 90894},
+																												pos:        position{line: 2877, col: 20, offset: 90997},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2874, col: 29, offset: 90903},
+																												pos:        position{line: 2877, col: 29, offset: 91006},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35929,9 +35988,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2884, col: 8, offset: 91063},
+																									pos: position{line: 2887, col: 8, offset: 91166},
 																									expr: &anyMatcher{
-																										line: 2884, col: 9, offset: 91064,
+																										line: 2887, col: 9, offset: 91167,
 																									},
 																								},
 																							},
@@ -35941,15 +36000,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1098, col: 5, offset: 33693},
+																			pos: position{line: 1101, col: 5, offset: 33796},
 																			run: (*parser).callonListContinuationElement1363,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2884, col: 8, offset: 91063},
+																	pos: position{line: 2887, col: 8, offset: 91166},
 																	expr: &anyMatcher{
-																		line: 2884, col: 9, offset: 91064,
+																		line: 2887, col: 9, offset: 91167,
 																	},
 																},
 															},
@@ -35960,52 +36019,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2710, col: 18, offset: 86305},
+										pos: position{line: 2713, col: 18, offset: 86408},
 										run: (*parser).callonListContinuationElement1366,
 										expr: &seqExpr{
-											pos: position{line: 2710, col: 18, offset: 86305},
+											pos: position{line: 2713, col: 18, offset: 86408},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2711, col: 9, offset: 86315},
+													pos: position{line: 2714, col: 9, offset: 86418},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2711, col: 9, offset: 86315},
+															pos:        position{line: 2714, col: 9, offset: 86418},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2712, col: 11, offset: 86351},
+															pos:        position{line: 2715, col: 11, offset: 86454},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2712, col: 19, offset: 86359},
+															pos:        position{line: 2715, col: 19, offset: 86462},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2712, col: 29, offset: 86369},
+															pos:        position{line: 2715, col: 29, offset: 86472},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2712, col: 37, offset: 86377},
+															pos:        position{line: 2715, col: 37, offset: 86480},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2712, col: 47, offset: 86387},
+															pos:        position{line: 2715, col: 47, offset: 86490},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2712, col: 55, offset: 86395},
+															pos:        position{line: 2715, col: 55, offset: 86498},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -36013,12 +36072,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2713, col: 11, offset: 86453},
+													pos: position{line: 2716, col: 11, offset: 86556},
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 10, offset: 90715},
+														pos: position{line: 2868, col: 10, offset: 90818},
 														run: (*parser).callonListContinuationElement1377,
 														expr: &charClassMatcher{
-															pos:        position{line: 2865, col: 10, offset: 90715},
+															pos:        position{line: 2868, col: 10, offset: 90818},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36027,28 +36086,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2887, col: 8, offset: 91113},
+													pos: position{line: 2890, col: 8, offset: 91216},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2874, col: 12, offset: 90886},
+															pos: position{line: 2877, col: 12, offset: 90989},
 															run: (*parser).callonListContinuationElement1380,
 															expr: &choiceExpr{
-																pos: position{line: 2874, col: 13, offset: 90887},
+																pos: position{line: 2877, col: 13, offset: 90990},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 13, offset: 90887},
+																		pos:        position{line: 2877, col: 13, offset: 90990},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 20, offset: 90894},
+																		pos:        position{line: 2877, col: 20, offset: 90997},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 29, offset: 90903},
+																		pos:        position{line: 2877, col: 29, offset: 91006},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36057,36 +36116,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2884, col: 8, offset: 91063},
+															pos: position{line: 2887, col: 8, offset: 91166},
 															expr: &anyMatcher{
-																line: 2884, col: 9, offset: 91064,
+																line: 2887, col: 9, offset: 91167,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2887, col: 8, offset: 91113},
+													pos: position{line: 2890, col: 8, offset: 91216},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2874, col: 12, offset: 90886},
+															pos: position{line: 2877, col: 12, offset: 90989},
 															run: (*parser).callonListContinuationElement1388,
 															expr: &choiceExpr{
-																pos: position{line: 2874, col: 13, offset: 90887},
+																pos: position{line: 2877, col: 13, offset: 90990},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 13, offset: 90887},
+																		pos:        position{line: 2877, col: 13, offset: 90990},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 20, offset: 90894},
+																		pos:        position{line: 2877, col: 20, offset: 90997},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 29, offset: 90903},
+																		pos:        position{line: 2877, col: 29, offset: 91006},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36095,9 +36154,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2884, col: 8, offset: 91063},
+															pos: position{line: 2887, col: 8, offset: 91166},
 															expr: &anyMatcher{
-																line: 2884, col: 9, offset: 91064,
+																line: 2887, col: 9, offset: 91167,
 															},
 														},
 													},
@@ -36106,28 +36165,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1560, col: 11, offset: 50388},
+										pos:  position{line: 1563, col: 11, offset: 50491},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2601, col: 5, offset: 83199},
+										pos: position{line: 2604, col: 5, offset: 83302},
 										run: (*parser).callonListContinuationElement1396,
 										expr: &seqExpr{
-											pos: position{line: 2601, col: 5, offset: 83199},
+											pos: position{line: 2604, col: 5, offset: 83302},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2607, col: 19, offset: 83356},
+													pos:        position{line: 2610, col: 19, offset: 83459},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2607, col: 26, offset: 83363},
+													pos: position{line: 2610, col: 26, offset: 83466},
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 10, offset: 90715},
+														pos: position{line: 2868, col: 10, offset: 90818},
 														run: (*parser).callonListContinuationElement1400,
 														expr: &charClassMatcher{
-															pos:        position{line: 2865, col: 10, offset: 90715},
+															pos:        position{line: 2868, col: 10, offset: 90818},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36136,28 +36195,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2887, col: 8, offset: 91113},
+													pos: position{line: 2890, col: 8, offset: 91216},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2874, col: 12, offset: 90886},
+															pos: position{line: 2877, col: 12, offset: 90989},
 															run: (*parser).callonListContinuationElement1403,
 															expr: &choiceExpr{
-																pos: position{line: 2874, col: 13, offset: 90887},
+																pos: position{line: 2877, col: 13, offset: 90990},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 13, offset: 90887},
+																		pos:        position{line: 2877, col: 13, offset: 90990},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 20, offset: 90894},
+																		pos:        position{line: 2877, col: 20, offset: 90997},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 29, offset: 90903},
+																		pos:        position{line: 2877, col: 29, offset: 91006},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36166,40 +36225,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2884, col: 8, offset: 91063},
+															pos: position{line: 2887, col: 8, offset: 91166},
 															expr: &anyMatcher{
-																line: 2884, col: 9, offset: 91064,
+																line: 2887, col: 9, offset: 91167,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2602, col: 5, offset: 83223},
+													pos:   position{line: 2605, col: 5, offset: 83326},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2602, col: 11, offset: 83229},
+														pos: position{line: 2605, col: 11, offset: 83332},
 														expr: &choiceExpr{
-															pos: position{line: 2602, col: 12, offset: 83230},
+															pos: position{line: 2605, col: 12, offset: 83333},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 677, col: 14, offset: 21489},
+																	pos: position{line: 680, col: 14, offset: 21592},
 																	run: (*parser).callonListContinuationElement1413,
 																	expr: &seqExpr{
-																		pos: position{line: 677, col: 14, offset: 21489},
+																		pos: position{line: 680, col: 14, offset: 21592},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2882, col: 11, offset: 91049},
+																				pos: position{line: 2885, col: 11, offset: 91152},
 																				expr: &anyMatcher{
-																					line: 2882, col: 13, offset: 91051,
+																					line: 2885, col: 13, offset: 91154,
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 677, col: 21, offset: 21496},
+																				pos: position{line: 680, col: 21, offset: 21599},
 																				expr: &actionExpr{
-																					pos: position{line: 2865, col: 10, offset: 90715},
+																					pos: position{line: 2868, col: 10, offset: 90818},
 																					run: (*parser).callonListContinuationElement1418,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2865, col: 10, offset: 90715},
+																						pos:        position{line: 2868, col: 10, offset: 90818},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36208,28 +36267,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2887, col: 8, offset: 91113},
+																				pos: position{line: 2890, col: 8, offset: 91216},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2874, col: 12, offset: 90886},
+																						pos: position{line: 2877, col: 12, offset: 90989},
 																						run: (*parser).callonListContinuationElement1421,
 																						expr: &choiceExpr{
-																							pos: position{line: 2874, col: 13, offset: 90887},
+																							pos: position{line: 2877, col: 13, offset: 90990},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2874, col: 13, offset: 90887},
+																									pos:        position{line: 2877, col: 13, offset: 90990},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2874, col: 20, offset: 90894},
+																									pos:        position{line: 2877, col: 20, offset: 90997},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2874, col: 29, offset: 90903},
+																									pos:        position{line: 2877, col: 29, offset: 91006},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36238,9 +36297,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2884, col: 8, offset: 91063},
+																						pos: position{line: 2887, col: 8, offset: 91166},
 																						expr: &anyMatcher{
-																							line: 2884, col: 9, offset: 91064,
+																							line: 2887, col: 9, offset: 91167,
 																						},
 																					},
 																				},
@@ -36249,32 +36308,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2614, col: 5, offset: 83475},
+																	pos: position{line: 2617, col: 5, offset: 83578},
 																	run: (*parser).callonListContinuationElement1428,
 																	expr: &seqExpr{
-																		pos: position{line: 2614, col: 5, offset: 83475},
+																		pos: position{line: 2617, col: 5, offset: 83578},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2614, col: 5, offset: 83475},
+																				pos: position{line: 2617, col: 5, offset: 83578},
 																				expr: &choiceExpr{
-																					pos: position{line: 2611, col: 22, offset: 83436},
+																					pos: position{line: 2614, col: 22, offset: 83539},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2607, col: 19, offset: 83356},
+																							pos: position{line: 2610, col: 19, offset: 83459},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2607, col: 19, offset: 83356},
+																									pos:        position{line: 2610, col: 19, offset: 83459},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2607, col: 26, offset: 83363},
+																									pos: position{line: 2610, col: 26, offset: 83466},
 																									expr: &actionExpr{
-																										pos: position{line: 2865, col: 10, offset: 90715},
+																										pos: position{line: 2868, col: 10, offset: 90818},
 																										run: (*parser).callonListContinuationElement1435,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2865, col: 10, offset: 90715},
+																											pos:        position{line: 2868, col: 10, offset: 90818},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36283,28 +36342,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2887, col: 8, offset: 91113},
+																									pos: position{line: 2890, col: 8, offset: 91216},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2874, col: 12, offset: 90886},
+																											pos: position{line: 2877, col: 12, offset: 90989},
 																											run: (*parser).callonListContinuationElement1438,
 																											expr: &choiceExpr{
-																												pos: position{line: 2874, col: 13, offset: 90887},
+																												pos: position{line: 2877, col: 13, offset: 90990},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2874, col: 13, offset: 90887},
+																														pos:        position{line: 2877, col: 13, offset: 90990},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2874, col: 20, offset: 90894},
+																														pos:        position{line: 2877, col: 20, offset: 90997},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2874, col: 29, offset: 90903},
+																														pos:        position{line: 2877, col: 29, offset: 91006},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36313,9 +36372,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2884, col: 8, offset: 91063},
+																											pos: position{line: 2887, col: 8, offset: 91166},
 																											expr: &anyMatcher{
-																												line: 2884, col: 9, offset: 91064,
+																												line: 2887, col: 9, offset: 91167,
 																											},
 																										},
 																									},
@@ -36323,59 +36382,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2884, col: 8, offset: 91063},
+																							pos: position{line: 2887, col: 8, offset: 91166},
 																							expr: &anyMatcher{
-																								line: 2884, col: 9, offset: 91064,
+																								line: 2887, col: 9, offset: 91167,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2615, col: 5, offset: 83498},
+																				pos:   position{line: 2618, col: 5, offset: 83601},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2616, col: 9, offset: 83516},
+																					pos: position{line: 2619, col: 9, offset: 83619},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2616, col: 10, offset: 83517},
+																							pos: position{line: 2619, col: 10, offset: 83620},
 																							run: (*parser).callonListContinuationElement1449,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2616, col: 10, offset: 83517},
+																								pos:   position{line: 2619, col: 10, offset: 83620},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2616, col: 17, offset: 83524},
+																									pos: position{line: 2619, col: 17, offset: 83627},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2624, col: 21, offset: 83720},
+																											pos: position{line: 2627, col: 21, offset: 83823},
 																											run: (*parser).callonListContinuationElement1452,
 																											expr: &seqExpr{
-																												pos: position{line: 2624, col: 21, offset: 83720},
+																												pos: position{line: 2627, col: 21, offset: 83823},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2624, col: 21, offset: 83720},
+																														pos:   position{line: 2627, col: 21, offset: 83823},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2624, col: 27, offset: 83726},
+																															pos: position{line: 2627, col: 27, offset: 83829},
 																															expr: &actionExpr{
-																																pos: position{line: 2629, col: 5, offset: 83801},
+																																pos: position{line: 2632, col: 5, offset: 83904},
 																																run: (*parser).callonListContinuationElement1456,
 																																expr: &seqExpr{
-																																	pos: position{line: 2629, col: 5, offset: 83801},
+																																	pos: position{line: 2632, col: 5, offset: 83904},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2629, col: 5, offset: 83801},
+																																			pos:        position{line: 2632, col: 5, offset: 83904},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2629, col: 9, offset: 83805},
+																																			pos: position{line: 2632, col: 9, offset: 83908},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2865, col: 10, offset: 90715},
+																																				pos: position{line: 2868, col: 10, offset: 90818},
 																																				run: (*parser).callonListContinuationElement1460,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2865, col: 10, offset: 90715},
+																																					pos:        position{line: 2868, col: 10, offset: 90818},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36384,21 +36443,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2629, col: 16, offset: 83812},
+																																			pos:   position{line: 2632, col: 16, offset: 83915},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2635, col: 5, offset: 84012},
+																																				pos: position{line: 2638, col: 5, offset: 84115},
 																																				run: (*parser).callonListContinuationElement1463,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2635, col: 5, offset: 84012},
+																																					pos:   position{line: 2638, col: 5, offset: 84115},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2635, col: 14, offset: 84021},
+																																						pos: position{line: 2638, col: 14, offset: 84124},
 																																						run: (*parser).callonListContinuationElement1465,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2635, col: 14, offset: 84021},
+																																							pos: position{line: 2638, col: 14, offset: 84124},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2635, col: 14, offset: 84021},
+																																								pos:        position{line: 2638, col: 14, offset: 84124},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36415,28 +36474,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2887, col: 8, offset: 91113},
+																														pos: position{line: 2890, col: 8, offset: 91216},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2874, col: 12, offset: 90886},
+																																pos: position{line: 2877, col: 12, offset: 90989},
 																																run: (*parser).callonListContinuationElement1469,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2874, col: 13, offset: 90887},
+																																	pos: position{line: 2877, col: 13, offset: 90990},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2874, col: 13, offset: 90887},
+																																			pos:        position{line: 2877, col: 13, offset: 90990},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2874, col: 20, offset: 90894},
+																																			pos:        position{line: 2877, col: 20, offset: 90997},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2874, col: 29, offset: 90903},
+																																			pos:        position{line: 2877, col: 29, offset: 91006},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36445,9 +36504,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2884, col: 8, offset: 91063},
+																																pos: position{line: 2887, col: 8, offset: 91166},
 																																expr: &anyMatcher{
-																																	line: 2884, col: 9, offset: 91064,
+																																	line: 2887, col: 9, offset: 91167,
 																																},
 																															},
 																														},
@@ -36456,40 +36515,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2641, col: 24, offset: 84157},
+																											pos: position{line: 2644, col: 24, offset: 84260},
 																											run: (*parser).callonListContinuationElement1476,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2641, col: 24, offset: 84157},
+																												pos:   position{line: 2644, col: 24, offset: 84260},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2641, col: 30, offset: 84163},
+																													pos: position{line: 2644, col: 30, offset: 84266},
 																													expr: &actionExpr{
-																														pos: position{line: 2646, col: 5, offset: 84239},
+																														pos: position{line: 2649, col: 5, offset: 84342},
 																														run: (*parser).callonListContinuationElement1479,
 																														expr: &seqExpr{
-																															pos: position{line: 2646, col: 5, offset: 84239},
+																															pos: position{line: 2649, col: 5, offset: 84342},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2646, col: 5, offset: 84239},
+																																	pos: position{line: 2649, col: 5, offset: 84342},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2611, col: 22, offset: 83436},
+																																		pos: position{line: 2614, col: 22, offset: 83539},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2607, col: 19, offset: 83356},
+																																				pos: position{line: 2610, col: 19, offset: 83459},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2607, col: 19, offset: 83356},
+																																						pos:        position{line: 2610, col: 19, offset: 83459},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2607, col: 26, offset: 83363},
+																																						pos: position{line: 2610, col: 26, offset: 83466},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2865, col: 10, offset: 90715},
+																																							pos: position{line: 2868, col: 10, offset: 90818},
 																																							run: (*parser).callonListContinuationElement1486,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2865, col: 10, offset: 90715},
+																																								pos:        position{line: 2868, col: 10, offset: 90818},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36498,28 +36557,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2887, col: 8, offset: 91113},
+																																						pos: position{line: 2890, col: 8, offset: 91216},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2874, col: 12, offset: 90886},
+																																								pos: position{line: 2877, col: 12, offset: 90989},
 																																								run: (*parser).callonListContinuationElement1489,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2874, col: 13, offset: 90887},
+																																									pos: position{line: 2877, col: 13, offset: 90990},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2874, col: 13, offset: 90887},
+																																											pos:        position{line: 2877, col: 13, offset: 90990},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2874, col: 20, offset: 90894},
+																																											pos:        position{line: 2877, col: 20, offset: 90997},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2874, col: 29, offset: 90903},
+																																											pos:        position{line: 2877, col: 29, offset: 91006},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36528,9 +36587,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2884, col: 8, offset: 91063},
+																																								pos: position{line: 2887, col: 8, offset: 91166},
 																																								expr: &anyMatcher{
-																																									line: 2884, col: 9, offset: 91064,
+																																									line: 2887, col: 9, offset: 91167,
 																																								},
 																																							},
 																																						},
@@ -36538,35 +36597,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2884, col: 8, offset: 91063},
+																																				pos: position{line: 2887, col: 8, offset: 91166},
 																																				expr: &anyMatcher{
-																																					line: 2884, col: 9, offset: 91064,
+																																					line: 2887, col: 9, offset: 91167,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2647, col: 5, offset: 84262},
+																																	pos: position{line: 2650, col: 5, offset: 84365},
 																																	expr: &actionExpr{
-																																		pos: position{line: 677, col: 14, offset: 21489},
+																																		pos: position{line: 680, col: 14, offset: 21592},
 																																		run: (*parser).callonListContinuationElement1499,
 																																		expr: &seqExpr{
-																																			pos: position{line: 677, col: 14, offset: 21489},
+																																			pos: position{line: 680, col: 14, offset: 21592},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2882, col: 11, offset: 91049},
+																																					pos: position{line: 2885, col: 11, offset: 91152},
 																																					expr: &anyMatcher{
-																																						line: 2882, col: 13, offset: 91051,
+																																						line: 2885, col: 13, offset: 91154,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 677, col: 21, offset: 21496},
+																																					pos: position{line: 680, col: 21, offset: 21599},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2865, col: 10, offset: 90715},
+																																						pos: position{line: 2868, col: 10, offset: 90818},
 																																						run: (*parser).callonListContinuationElement1504,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2865, col: 10, offset: 90715},
+																																							pos:        position{line: 2868, col: 10, offset: 90818},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36575,28 +36634,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2887, col: 8, offset: 91113},
+																																					pos: position{line: 2890, col: 8, offset: 91216},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2874, col: 12, offset: 90886},
+																																							pos: position{line: 2877, col: 12, offset: 90989},
 																																							run: (*parser).callonListContinuationElement1507,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2874, col: 13, offset: 90887},
+																																								pos: position{line: 2877, col: 13, offset: 90990},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2874, col: 13, offset: 90887},
+																																										pos:        position{line: 2877, col: 13, offset: 90990},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2874, col: 20, offset: 90894},
+																																										pos:        position{line: 2877, col: 20, offset: 90997},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2874, col: 29, offset: 90903},
+																																										pos:        position{line: 2877, col: 29, offset: 91006},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36605,9 +36664,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2884, col: 8, offset: 91063},
+																																							pos: position{line: 2887, col: 8, offset: 91166},
 																																							expr: &anyMatcher{
-																																								line: 2884, col: 9, offset: 91064,
+																																								line: 2887, col: 9, offset: 91167,
 																																							},
 																																						},
 																																					},
@@ -36617,17 +36676,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2648, col: 5, offset: 84277},
+																																	pos:   position{line: 2651, col: 5, offset: 84380},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2648, col: 12, offset: 84284},
+																																		pos: position{line: 2651, col: 12, offset: 84387},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2665, col: 20, offset: 84790},
+																																			pos: position{line: 2668, col: 20, offset: 84893},
 																																			run: (*parser).callonListContinuationElement1516,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2665, col: 20, offset: 84790},
+																																				pos: position{line: 2668, col: 20, offset: 84893},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2665, col: 20, offset: 84790},
+																																					pos:        position{line: 2668, col: 20, offset: 84893},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36638,18 +36697,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2648, col: 31, offset: 84303},
+																																	pos:        position{line: 2651, col: 31, offset: 84406},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2648, col: 35, offset: 84307},
+																																	pos: position{line: 2651, col: 35, offset: 84410},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2865, col: 10, offset: 90715},
+																																		pos: position{line: 2868, col: 10, offset: 90818},
 																																		run: (*parser).callonListContinuationElement1521,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2865, col: 10, offset: 90715},
+																																			pos:        position{line: 2868, col: 10, offset: 90818},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36658,30 +36717,30 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2648, col: 42, offset: 84314},
+																																	pos: position{line: 2651, col: 42, offset: 84417},
 																																	expr: &seqExpr{
-																																		pos: position{line: 2648, col: 43, offset: 84315},
+																																		pos: position{line: 2651, col: 43, offset: 84418},
 																																		exprs: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 2874, col: 12, offset: 90886},
+																																				pos: position{line: 2877, col: 12, offset: 90989},
 																																				run: (*parser).callonListContinuationElement1525,
 																																				expr: &choiceExpr{
-																																					pos: position{line: 2874, col: 13, offset: 90887},
+																																					pos: position{line: 2877, col: 13, offset: 90990},
 																																					alternatives: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2874, col: 13, offset: 90887},
+																																							pos:        position{line: 2877, col: 13, offset: 90990},
 																																							val:        "\n",
 																																							ignoreCase: false,
 																																							want:       "\"\\n\"",
 																																						},
 																																						&litMatcher{
-																																							pos:        position{line: 2874, col: 20, offset: 90894},
+																																							pos:        position{line: 2877, col: 20, offset: 90997},
 																																							val:        "\r\n",
 																																							ignoreCase: false,
 																																							want:       "\"\\r\\n\"",
 																																						},
 																																						&litMatcher{
-																																							pos:        position{line: 2874, col: 29, offset: 90903},
+																																							pos:        position{line: 2877, col: 29, offset: 91006},
 																																							val:        "\r",
 																																							ignoreCase: false,
 																																							want:       "\"\\r\"",
@@ -36690,38 +36749,38 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2648, col: 51, offset: 84323},
+																																				pos: position{line: 2651, col: 51, offset: 84426},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2475, col: 22, offset: 79658},
+																																					pos: position{line: 2478, col: 22, offset: 79761},
 																																					run: (*parser).callonListContinuationElement1531,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2475, col: 22, offset: 79658},
+																																						pos: position{line: 2478, col: 22, offset: 79761},
 																																						exprs: []interface{}{
 																																							&litMatcher{
-																																								pos:        position{line: 2480, col: 31, offset: 79879},
+																																								pos:        position{line: 2483, col: 31, offset: 79982},
 																																								val:        "//",
 																																								ignoreCase: false,
 																																								want:       "\"//\"",
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2480, col: 36, offset: 79884},
+																																								pos: position{line: 2483, col: 36, offset: 79987},
 																																								expr: &litMatcher{
-																																									pos:        position{line: 2480, col: 37, offset: 79885},
+																																									pos:        position{line: 2483, col: 37, offset: 79988},
 																																									val:        "//",
 																																									ignoreCase: false,
 																																									want:       "\"//\"",
 																																								},
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2475, col: 49, offset: 79685},
+																																								pos:   position{line: 2478, col: 49, offset: 79788},
 																																								label: "content",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2811, col: 13, offset: 89241},
+																																									pos: position{line: 2814, col: 13, offset: 89344},
 																																									run: (*parser).callonListContinuationElement1537,
 																																									expr: &zeroOrMoreExpr{
-																																										pos: position{line: 2811, col: 13, offset: 89241},
+																																										pos: position{line: 2814, col: 13, offset: 89344},
 																																										expr: &charClassMatcher{
-																																											pos:        position{line: 2811, col: 13, offset: 89241},
+																																											pos:        position{line: 2814, col: 13, offset: 89344},
 																																											val:        "[^\\r\\n]",
 																																											chars:      []rune{'\r', '\n'},
 																																											ignoreCase: false,
@@ -36731,28 +36790,28 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&choiceExpr{
-																																								pos: position{line: 2887, col: 8, offset: 91113},
+																																								pos: position{line: 2890, col: 8, offset: 91216},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2874, col: 12, offset: 90886},
+																																										pos: position{line: 2877, col: 12, offset: 90989},
 																																										run: (*parser).callonListContinuationElement1541,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2874, col: 13, offset: 90887},
+																																											pos: position{line: 2877, col: 13, offset: 90990},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2874, col: 13, offset: 90887},
+																																													pos:        position{line: 2877, col: 13, offset: 90990},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2874, col: 20, offset: 90894},
+																																													pos:        position{line: 2877, col: 20, offset: 90997},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2874, col: 29, offset: 90903},
+																																													pos:        position{line: 2877, col: 29, offset: 91006},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -36761,9 +36820,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2884, col: 8, offset: 91063},
+																																										pos: position{line: 2887, col: 8, offset: 91166},
 																																										expr: &anyMatcher{
-																																											line: 2884, col: 9, offset: 91064,
+																																											line: 2887, col: 9, offset: 91167,
 																																										},
 																																									},
 																																								},
@@ -36776,37 +36835,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2648, col: 72, offset: 84344},
+																																	pos:   position{line: 2651, col: 72, offset: 84447},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2654, col: 5, offset: 84503},
+																																		pos: position{line: 2657, col: 5, offset: 84606},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2655, col: 9, offset: 84513},
+																																			pos: position{line: 2658, col: 9, offset: 84616},
 																																			run: (*parser).callonListContinuationElement1550,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2655, col: 9, offset: 84513},
+																																				pos: position{line: 2658, col: 9, offset: 84616},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2655, col: 9, offset: 84513},
+																																						pos: position{line: 2658, col: 9, offset: 84616},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2611, col: 22, offset: 83436},
+																																							pos: position{line: 2614, col: 22, offset: 83539},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2607, col: 19, offset: 83356},
+																																									pos: position{line: 2610, col: 19, offset: 83459},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2607, col: 19, offset: 83356},
+																																											pos:        position{line: 2610, col: 19, offset: 83459},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2607, col: 26, offset: 83363},
+																																											pos: position{line: 2610, col: 26, offset: 83466},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2865, col: 10, offset: 90715},
+																																												pos: position{line: 2868, col: 10, offset: 90818},
 																																												run: (*parser).callonListContinuationElement1557,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2865, col: 10, offset: 90715},
+																																													pos:        position{line: 2868, col: 10, offset: 90818},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36815,28 +36874,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2887, col: 8, offset: 91113},
+																																											pos: position{line: 2890, col: 8, offset: 91216},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2874, col: 12, offset: 90886},
+																																													pos: position{line: 2877, col: 12, offset: 90989},
 																																													run: (*parser).callonListContinuationElement1560,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2874, col: 13, offset: 90887},
+																																														pos: position{line: 2877, col: 13, offset: 90990},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36845,9 +36904,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2884, col: 8, offset: 91063},
+																																													pos: position{line: 2887, col: 8, offset: 91166},
 																																													expr: &anyMatcher{
-																																														line: 2884, col: 9, offset: 91064,
+																																														line: 2887, col: 9, offset: 91167,
 																																													},
 																																												},
 																																											},
@@ -36855,35 +36914,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2884, col: 8, offset: 91063},
+																																									pos: position{line: 2887, col: 8, offset: 91166},
 																																									expr: &anyMatcher{
-																																										line: 2884, col: 9, offset: 91064,
+																																										line: 2887, col: 9, offset: 91167,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2656, col: 9, offset: 84540},
+																																						pos: position{line: 2659, col: 9, offset: 84643},
 																																						expr: &actionExpr{
-																																							pos: position{line: 677, col: 14, offset: 21489},
+																																							pos: position{line: 680, col: 14, offset: 21592},
 																																							run: (*parser).callonListContinuationElement1570,
 																																							expr: &seqExpr{
-																																								pos: position{line: 677, col: 14, offset: 21489},
+																																								pos: position{line: 680, col: 14, offset: 21592},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2882, col: 11, offset: 91049},
+																																										pos: position{line: 2885, col: 11, offset: 91152},
 																																										expr: &anyMatcher{
-																																											line: 2882, col: 13, offset: 91051,
+																																											line: 2885, col: 13, offset: 91154,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
-																																										pos: position{line: 677, col: 21, offset: 21496},
+																																										pos: position{line: 680, col: 21, offset: 21599},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2865, col: 10, offset: 90715},
+																																											pos: position{line: 2868, col: 10, offset: 90818},
 																																											run: (*parser).callonListContinuationElement1575,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2865, col: 10, offset: 90715},
+																																												pos:        position{line: 2868, col: 10, offset: 90818},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36892,28 +36951,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2887, col: 8, offset: 91113},
+																																										pos: position{line: 2890, col: 8, offset: 91216},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2874, col: 12, offset: 90886},
+																																												pos: position{line: 2877, col: 12, offset: 90989},
 																																												run: (*parser).callonListContinuationElement1578,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2874, col: 13, offset: 90887},
+																																													pos: position{line: 2877, col: 13, offset: 90990},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2874, col: 13, offset: 90887},
+																																															pos:        position{line: 2877, col: 13, offset: 90990},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2874, col: 20, offset: 90894},
+																																															pos:        position{line: 2877, col: 20, offset: 90997},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2874, col: 29, offset: 90903},
+																																															pos:        position{line: 2877, col: 29, offset: 91006},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36922,9 +36981,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2884, col: 8, offset: 91063},
+																																												pos: position{line: 2887, col: 8, offset: 91166},
 																																												expr: &anyMatcher{
-																																													line: 2884, col: 9, offset: 91064,
+																																													line: 2887, col: 9, offset: 91167,
 																																												},
 																																											},
 																																										},
@@ -36934,22 +36993,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2657, col: 9, offset: 84559},
+																																						pos: position{line: 2660, col: 9, offset: 84662},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2657, col: 11, offset: 84561},
+																																							pos: position{line: 2660, col: 11, offset: 84664},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2657, col: 11, offset: 84561},
+																																									pos:   position{line: 2660, col: 11, offset: 84664},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2657, col: 18, offset: 84568},
+																																										pos: position{line: 2660, col: 18, offset: 84671},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2665, col: 20, offset: 84790},
+																																											pos: position{line: 2668, col: 20, offset: 84893},
 																																											run: (*parser).callonListContinuationElement1589,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2665, col: 20, offset: 84790},
+																																												pos: position{line: 2668, col: 20, offset: 84893},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2665, col: 20, offset: 84790},
+																																													pos:        position{line: 2668, col: 20, offset: 84893},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -36960,7 +37019,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2657, col: 37, offset: 84587},
+																																									pos:        position{line: 2660, col: 37, offset: 84690},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -36969,15 +37028,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2658, col: 9, offset: 84600},
+																																						pos:   position{line: 2661, col: 9, offset: 84703},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2658, col: 18, offset: 84609},
+																																							pos: position{line: 2661, col: 18, offset: 84712},
 																																							run: (*parser).callonListContinuationElement1594,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2658, col: 18, offset: 84609},
+																																								pos: position{line: 2661, col: 18, offset: 84712},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2658, col: 18, offset: 84609},
+																																									pos:        position{line: 2661, col: 18, offset: 84712},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -36987,33 +37046,33 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2660, col: 12, offset: 84671},
+																																						pos: position{line: 2663, col: 12, offset: 84774},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2660, col: 13, offset: 84672},
+																																							pos: position{line: 2663, col: 13, offset: 84775},
 																																							exprs: []interface{}{
 																																								&choiceExpr{
-																																									pos: position{line: 2887, col: 8, offset: 91113},
+																																									pos: position{line: 2890, col: 8, offset: 91216},
 																																									alternatives: []interface{}{
 																																										&actionExpr{
-																																											pos: position{line: 2874, col: 12, offset: 90886},
+																																											pos: position{line: 2877, col: 12, offset: 90989},
 																																											run: (*parser).callonListContinuationElement1600,
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2874, col: 13, offset: 90887},
+																																												pos: position{line: 2877, col: 13, offset: 90990},
 																																												alternatives: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2874, col: 13, offset: 90887},
+																																														pos:        position{line: 2877, col: 13, offset: 90990},
 																																														val:        "\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2874, col: 20, offset: 90894},
+																																														pos:        position{line: 2877, col: 20, offset: 90997},
 																																														val:        "\r\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2874, col: 29, offset: 90903},
+																																														pos:        position{line: 2877, col: 29, offset: 91006},
 																																														val:        "\r",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\"",
@@ -37022,46 +37081,46 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2884, col: 8, offset: 91063},
+																																											pos: position{line: 2887, col: 8, offset: 91166},
 																																											expr: &anyMatcher{
-																																												line: 2884, col: 9, offset: 91064,
+																																												line: 2887, col: 9, offset: 91167,
 																																											},
 																																										},
 																																									},
 																																								},
 																																								&zeroOrMoreExpr{
-																																									pos: position{line: 2660, col: 17, offset: 84676},
+																																									pos: position{line: 2663, col: 17, offset: 84779},
 																																									expr: &actionExpr{
-																																										pos: position{line: 2475, col: 22, offset: 79658},
+																																										pos: position{line: 2478, col: 22, offset: 79761},
 																																										run: (*parser).callonListContinuationElement1608,
 																																										expr: &seqExpr{
-																																											pos: position{line: 2475, col: 22, offset: 79658},
+																																											pos: position{line: 2478, col: 22, offset: 79761},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2480, col: 31, offset: 79879},
+																																													pos:        position{line: 2483, col: 31, offset: 79982},
 																																													val:        "//",
 																																													ignoreCase: false,
 																																													want:       "\"//\"",
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2480, col: 36, offset: 79884},
+																																													pos: position{line: 2483, col: 36, offset: 79987},
 																																													expr: &litMatcher{
-																																														pos:        position{line: 2480, col: 37, offset: 79885},
+																																														pos:        position{line: 2483, col: 37, offset: 79988},
 																																														val:        "//",
 																																														ignoreCase: false,
 																																														want:       "\"//\"",
 																																													},
 																																												},
 																																												&labeledExpr{
-																																													pos:   position{line: 2475, col: 49, offset: 79685},
+																																													pos:   position{line: 2478, col: 49, offset: 79788},
 																																													label: "content",
 																																													expr: &actionExpr{
-																																														pos: position{line: 2811, col: 13, offset: 89241},
+																																														pos: position{line: 2814, col: 13, offset: 89344},
 																																														run: (*parser).callonListContinuationElement1614,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2811, col: 13, offset: 89241},
+																																															pos: position{line: 2814, col: 13, offset: 89344},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2811, col: 13, offset: 89241},
+																																																pos:        position{line: 2814, col: 13, offset: 89344},
 																																																val:        "[^\\r\\n]",
 																																																chars:      []rune{'\r', '\n'},
 																																																ignoreCase: false,
@@ -37071,28 +37130,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2887, col: 8, offset: 91113},
+																																													pos: position{line: 2890, col: 8, offset: 91216},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2874, col: 12, offset: 90886},
+																																															pos: position{line: 2877, col: 12, offset: 90989},
 																																															run: (*parser).callonListContinuationElement1618,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2874, col: 13, offset: 90887},
+																																																pos: position{line: 2877, col: 13, offset: 90990},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2874, col: 13, offset: 90887},
+																																																		pos:        position{line: 2877, col: 13, offset: 90990},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2874, col: 20, offset: 90894},
+																																																		pos:        position{line: 2877, col: 20, offset: 90997},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2874, col: 29, offset: 90903},
+																																																		pos:        position{line: 2877, col: 29, offset: 91006},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -37101,9 +37160,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2884, col: 8, offset: 91063},
+																																															pos: position{line: 2887, col: 8, offset: 91166},
 																																															expr: &anyMatcher{
-																																																line: 2884, col: 9, offset: 91064,
+																																																line: 2887, col: 9, offset: 91167,
 																																															},
 																																														},
 																																													},
@@ -37131,24 +37190,24 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 677, col: 14, offset: 21489},
+																							pos: position{line: 680, col: 14, offset: 21592},
 																							run: (*parser).callonListContinuationElement1625,
 																							expr: &seqExpr{
-																								pos: position{line: 677, col: 14, offset: 21489},
+																								pos: position{line: 680, col: 14, offset: 21592},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2882, col: 11, offset: 91049},
+																										pos: position{line: 2885, col: 11, offset: 91152},
 																										expr: &anyMatcher{
-																											line: 2882, col: 13, offset: 91051,
+																											line: 2885, col: 13, offset: 91154,
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 677, col: 21, offset: 21496},
+																										pos: position{line: 680, col: 21, offset: 21599},
 																										expr: &actionExpr{
-																											pos: position{line: 2865, col: 10, offset: 90715},
+																											pos: position{line: 2868, col: 10, offset: 90818},
 																											run: (*parser).callonListContinuationElement1630,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2865, col: 10, offset: 90715},
+																												pos:        position{line: 2868, col: 10, offset: 90818},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -37157,28 +37216,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2887, col: 8, offset: 91113},
+																										pos: position{line: 2890, col: 8, offset: 91216},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2874, col: 12, offset: 90886},
+																												pos: position{line: 2877, col: 12, offset: 90989},
 																												run: (*parser).callonListContinuationElement1633,
 																												expr: &choiceExpr{
-																													pos: position{line: 2874, col: 13, offset: 90887},
+																													pos: position{line: 2877, col: 13, offset: 90990},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2874, col: 13, offset: 90887},
+																															pos:        position{line: 2877, col: 13, offset: 90990},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2874, col: 20, offset: 90894},
+																															pos:        position{line: 2877, col: 20, offset: 90997},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2874, col: 29, offset: 90903},
+																															pos:        position{line: 2877, col: 29, offset: 91006},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -37187,9 +37246,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2884, col: 8, offset: 91063},
+																												pos: position{line: 2887, col: 8, offset: 91166},
 																												expr: &anyMatcher{
-																													line: 2884, col: 9, offset: 91064,
+																													line: 2887, col: 9, offset: 91167,
 																												},
 																											},
 																										},
@@ -37208,24 +37267,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2611, col: 22, offset: 83436},
+													pos: position{line: 2614, col: 22, offset: 83539},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2607, col: 19, offset: 83356},
+															pos: position{line: 2610, col: 19, offset: 83459},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2607, col: 19, offset: 83356},
+																	pos:        position{line: 2610, col: 19, offset: 83459},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2607, col: 26, offset: 83363},
+																	pos: position{line: 2610, col: 26, offset: 83466},
 																	expr: &actionExpr{
-																		pos: position{line: 2865, col: 10, offset: 90715},
+																		pos: position{line: 2868, col: 10, offset: 90818},
 																		run: (*parser).callonListContinuationElement1644,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90715},
+																			pos:        position{line: 2868, col: 10, offset: 90818},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37234,28 +37293,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonListContinuationElement1647,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37264,9 +37323,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -37274,9 +37333,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2884, col: 8, offset: 91063},
+															pos: position{line: 2887, col: 8, offset: 91166},
 															expr: &anyMatcher{
-																line: 2884, col: 9, offset: 91064,
+																line: 2887, col: 9, offset: 91167,
 															},
 														},
 													},
@@ -37285,36 +37344,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2475, col: 22, offset: 79658},
+										pos: position{line: 2478, col: 22, offset: 79761},
 										run: (*parser).callonListContinuationElement1656,
 										expr: &seqExpr{
-											pos: position{line: 2475, col: 22, offset: 79658},
+											pos: position{line: 2478, col: 22, offset: 79761},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2480, col: 31, offset: 79879},
+													pos:        position{line: 2483, col: 31, offset: 79982},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2480, col: 36, offset: 79884},
+													pos: position{line: 2483, col: 36, offset: 79987},
 													expr: &litMatcher{
-														pos:        position{line: 2480, col: 37, offset: 79885},
+														pos:        position{line: 2483, col: 37, offset: 79988},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2475, col: 49, offset: 79685},
+													pos:   position{line: 2478, col: 49, offset: 79788},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2811, col: 13, offset: 89241},
+														pos: position{line: 2814, col: 13, offset: 89344},
 														run: (*parser).callonListContinuationElement1662,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2811, col: 13, offset: 89241},
+															pos: position{line: 2814, col: 13, offset: 89344},
 															expr: &charClassMatcher{
-																pos:        position{line: 2811, col: 13, offset: 89241},
+																pos:        position{line: 2814, col: 13, offset: 89344},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37324,28 +37383,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2887, col: 8, offset: 91113},
+													pos: position{line: 2890, col: 8, offset: 91216},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2874, col: 12, offset: 90886},
+															pos: position{line: 2877, col: 12, offset: 90989},
 															run: (*parser).callonListContinuationElement1666,
 															expr: &choiceExpr{
-																pos: position{line: 2874, col: 13, offset: 90887},
+																pos: position{line: 2877, col: 13, offset: 90990},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 13, offset: 90887},
+																		pos:        position{line: 2877, col: 13, offset: 90990},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 20, offset: 90894},
+																		pos:        position{line: 2877, col: 20, offset: 90997},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 29, offset: 90903},
+																		pos:        position{line: 2877, col: 29, offset: 91006},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37354,9 +37413,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2884, col: 8, offset: 91063},
+															pos: position{line: 2887, col: 8, offset: 91166},
 															expr: &anyMatcher{
-																line: 2884, col: 9, offset: 91064,
+																line: 2887, col: 9, offset: 91167,
 															},
 														},
 													},
@@ -37365,94 +37424,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1573, col: 5, offset: 50818},
+										pos: position{line: 1576, col: 5, offset: 50921},
 										run: (*parser).callonListContinuationElement1673,
 										expr: &seqExpr{
-											pos: position{line: 1573, col: 5, offset: 50818},
+											pos: position{line: 1576, col: 5, offset: 50921},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1573, col: 5, offset: 50818},
+													pos:   position{line: 1576, col: 5, offset: 50921},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1573, col: 11, offset: 50824},
+														pos: position{line: 1576, col: 11, offset: 50927},
 														expr: &actionExpr{
-															pos: position{line: 1738, col: 5, offset: 56173},
+															pos: position{line: 1741, col: 5, offset: 56276},
 															run: (*parser).callonListContinuationElement1677,
 															expr: &seqExpr{
-																pos: position{line: 1738, col: 5, offset: 56173},
+																pos: position{line: 1741, col: 5, offset: 56276},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1738, col: 5, offset: 56173},
+																		pos: position{line: 1741, col: 5, offset: 56276},
 																		run: (*parser).callonListContinuationElement1679,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1741, col: 5, offset: 56236},
+																		pos:   position{line: 1744, col: 5, offset: 56339},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1741, col: 12, offset: 56243},
+																			pos: position{line: 1744, col: 12, offset: 56346},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1741, col: 12, offset: 56243},
+																					pos: position{line: 1744, col: 12, offset: 56346},
 																					run: (*parser).callonListContinuationElement1682,
 																					expr: &litMatcher{
-																						pos:        position{line: 1741, col: 12, offset: 56243},
+																						pos:        position{line: 1744, col: 12, offset: 56346},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1743, col: 13, offset: 56299},
+																					pos: position{line: 1746, col: 13, offset: 56402},
 																					run: (*parser).callonListContinuationElement1684,
 																					expr: &litMatcher{
-																						pos:        position{line: 1743, col: 13, offset: 56299},
+																						pos:        position{line: 1746, col: 13, offset: 56402},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1745, col: 13, offset: 56357},
+																					pos: position{line: 1748, col: 13, offset: 56460},
 																					run: (*parser).callonListContinuationElement1686,
 																					expr: &litMatcher{
-																						pos:        position{line: 1745, col: 13, offset: 56357},
+																						pos:        position{line: 1748, col: 13, offset: 56460},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1747, col: 13, offset: 56425},
+																					pos: position{line: 1750, col: 13, offset: 56528},
 																					run: (*parser).callonListContinuationElement1688,
 																					expr: &litMatcher{
-																						pos:        position{line: 1747, col: 13, offset: 56425},
+																						pos:        position{line: 1750, col: 13, offset: 56528},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1749, col: 13, offset: 56489},
+																					pos: position{line: 1752, col: 13, offset: 56592},
 																					run: (*parser).callonListContinuationElement1690,
 																					expr: &litMatcher{
-																						pos:        position{line: 1749, col: 13, offset: 56489},
+																						pos:        position{line: 1752, col: 13, offset: 56592},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1751, col: 13, offset: 56553},
+																					pos: position{line: 1754, col: 13, offset: 56656},
 																					run: (*parser).callonListContinuationElement1692,
 																					expr: &andExpr{
-																						pos: position{line: 1751, col: 13, offset: 56553},
+																						pos: position{line: 1754, col: 13, offset: 56656},
 																						expr: &actionExpr{
-																							pos: position{line: 2869, col: 11, offset: 90776},
+																							pos: position{line: 2872, col: 11, offset: 90879},
 																							run: (*parser).callonListContinuationElement1694,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2869, col: 11, offset: 90776},
+																								pos: position{line: 2872, col: 11, offset: 90879},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2869, col: 11, offset: 90776},
+																									pos:        position{line: 2872, col: 11, offset: 90879},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37471,35 +37530,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1574, col: 5, offset: 50847},
+													pos:   position{line: 1577, col: 5, offset: 50950},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1517, col: 5, offset: 49197},
+														pos: position{line: 1520, col: 5, offset: 49300},
 														run: (*parser).callonListContinuationElement1698,
 														expr: &seqExpr{
-															pos: position{line: 1517, col: 5, offset: 49197},
+															pos: position{line: 1520, col: 5, offset: 49300},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1517, col: 5, offset: 49197},
+																	pos: position{line: 1520, col: 5, offset: 49300},
 																	expr: &actionExpr{
-																		pos: position{line: 677, col: 14, offset: 21489},
+																		pos: position{line: 680, col: 14, offset: 21592},
 																		run: (*parser).callonListContinuationElement1701,
 																		expr: &seqExpr{
-																			pos: position{line: 677, col: 14, offset: 21489},
+																			pos: position{line: 680, col: 14, offset: 21592},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2882, col: 11, offset: 91049},
+																					pos: position{line: 2885, col: 11, offset: 91152},
 																					expr: &anyMatcher{
-																						line: 2882, col: 13, offset: 91051,
+																						line: 2885, col: 13, offset: 91154,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 677, col: 21, offset: 21496},
+																					pos: position{line: 680, col: 21, offset: 21599},
 																					expr: &actionExpr{
-																						pos: position{line: 2865, col: 10, offset: 90715},
+																						pos: position{line: 2868, col: 10, offset: 90818},
 																						run: (*parser).callonListContinuationElement1706,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2865, col: 10, offset: 90715},
+																							pos:        position{line: 2868, col: 10, offset: 90818},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37508,28 +37567,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2887, col: 8, offset: 91113},
+																					pos: position{line: 2890, col: 8, offset: 91216},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2874, col: 12, offset: 90886},
+																							pos: position{line: 2877, col: 12, offset: 90989},
 																							run: (*parser).callonListContinuationElement1709,
 																							expr: &choiceExpr{
-																								pos: position{line: 2874, col: 13, offset: 90887},
+																								pos: position{line: 2877, col: 13, offset: 90990},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 90887},
+																										pos:        position{line: 2877, col: 13, offset: 90990},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 20, offset: 90894},
+																										pos:        position{line: 2877, col: 20, offset: 90997},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 29, offset: 90903},
+																										pos:        position{line: 2877, col: 29, offset: 91006},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37538,9 +37597,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2884, col: 8, offset: 91063},
+																							pos: position{line: 2887, col: 8, offset: 91166},
 																							expr: &anyMatcher{
-																								line: 2884, col: 9, offset: 91064,
+																								line: 2887, col: 9, offset: 91167,
 																							},
 																						},
 																					},
@@ -37550,23 +37609,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1518, col: 5, offset: 49212},
+																	pos: position{line: 1521, col: 5, offset: 49315},
 																	expr: &seqExpr{
-																		pos: position{line: 1548, col: 27, offset: 50038},
+																		pos: position{line: 1551, col: 27, offset: 50141},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1548, col: 27, offset: 50038},
+																				pos:        position{line: 1551, col: 27, offset: 50141},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1548, col: 31, offset: 50042},
+																				pos: position{line: 1551, col: 31, offset: 50145},
 																				expr: &actionExpr{
-																					pos: position{line: 2865, col: 10, offset: 90715},
+																					pos: position{line: 2868, col: 10, offset: 90818},
 																					run: (*parser).callonListContinuationElement1720,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2865, col: 10, offset: 90715},
+																						pos:        position{line: 2868, col: 10, offset: 90818},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37575,25 +37634,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2874, col: 12, offset: 90886},
+																				pos: position{line: 2877, col: 12, offset: 90989},
 																				run: (*parser).callonListContinuationElement1722,
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 13, offset: 90887},
+																					pos: position{line: 2877, col: 13, offset: 90990},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 13, offset: 90887},
+																							pos:        position{line: 2877, col: 13, offset: 90990},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 20, offset: 90894},
+																							pos:        position{line: 2877, col: 20, offset: 90997},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 29, offset: 90903},
+																							pos:        position{line: 2877, col: 29, offset: 91006},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37605,20 +37664,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1519, col: 5, offset: 49240},
+																	pos: position{line: 1522, col: 5, offset: 49343},
 																	expr: &actionExpr{
-																		pos: position{line: 1589, col: 5, offset: 51257},
+																		pos: position{line: 1592, col: 5, offset: 51360},
 																		run: (*parser).callonListContinuationElement1728,
 																		expr: &seqExpr{
-																			pos: position{line: 1589, col: 5, offset: 51257},
+																			pos: position{line: 1592, col: 5, offset: 51360},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1589, col: 5, offset: 51257},
+																					pos: position{line: 1592, col: 5, offset: 51360},
 																					expr: &actionExpr{
-																						pos: position{line: 2865, col: 10, offset: 90715},
+																						pos: position{line: 2868, col: 10, offset: 90818},
 																						run: (*parser).callonListContinuationElement1731,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2865, col: 10, offset: 90715},
+																							pos:        position{line: 2868, col: 10, offset: 90818},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37627,27 +37686,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1589, col: 12, offset: 51264},
+																					pos:   position{line: 1592, col: 12, offset: 51367},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1591, col: 9, offset: 51327},
+																						pos: position{line: 1594, col: 9, offset: 51430},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1591, col: 9, offset: 51327},
+																								pos: position{line: 1594, col: 9, offset: 51430},
 																								run: (*parser).callonListContinuationElement1735,
 																								expr: &seqExpr{
-																									pos: position{line: 1591, col: 9, offset: 51327},
+																									pos: position{line: 1594, col: 9, offset: 51430},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1591, col: 9, offset: 51327},
+																											pos:   position{line: 1594, col: 9, offset: 51430},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1591, col: 16, offset: 51334},
+																												pos: position{line: 1594, col: 16, offset: 51437},
 																												run: (*parser).callonListContinuationElement1738,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1591, col: 16, offset: 51334},
+																													pos: position{line: 1594, col: 16, offset: 51437},
 																													expr: &litMatcher{
-																														pos:        position{line: 1591, col: 17, offset: 51335},
+																														pos:        position{line: 1594, col: 17, offset: 51438},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -37656,22 +37715,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1595, col: 9, offset: 51435},
+																											pos: position{line: 1598, col: 9, offset: 51538},
 																											run: (*parser).callonListContinuationElement1741,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1614, col: 11, offset: 52152},
+																								pos: position{line: 1617, col: 11, offset: 52255},
 																								run: (*parser).callonListContinuationElement1742,
 																								expr: &seqExpr{
-																									pos: position{line: 1614, col: 11, offset: 52152},
+																									pos: position{line: 1617, col: 11, offset: 52255},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1614, col: 11, offset: 52152},
+																											pos: position{line: 1617, col: 11, offset: 52255},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1614, col: 12, offset: 52153},
+																												pos:        position{line: 1617, col: 12, offset: 52256},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -37679,7 +37738,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1614, col: 20, offset: 52161},
+																											pos:        position{line: 1617, col: 20, offset: 52264},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37688,20 +37747,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1616, col: 13, offset: 52278},
+																								pos: position{line: 1619, col: 13, offset: 52381},
 																								run: (*parser).callonListContinuationElement1747,
 																								expr: &seqExpr{
-																									pos: position{line: 1616, col: 13, offset: 52278},
+																									pos: position{line: 1619, col: 13, offset: 52381},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1616, col: 14, offset: 52279},
+																											pos:        position{line: 1619, col: 14, offset: 52382},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1616, col: 21, offset: 52286},
+																											pos:        position{line: 1619, col: 21, offset: 52389},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37710,20 +37769,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1618, col: 13, offset: 52406},
+																								pos: position{line: 1621, col: 13, offset: 52509},
 																								run: (*parser).callonListContinuationElement1751,
 																								expr: &seqExpr{
-																									pos: position{line: 1618, col: 13, offset: 52406},
+																									pos: position{line: 1621, col: 13, offset: 52509},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1618, col: 14, offset: 52407},
+																											pos:        position{line: 1621, col: 14, offset: 52510},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1618, col: 21, offset: 52414},
+																											pos:        position{line: 1621, col: 21, offset: 52517},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37732,15 +37791,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1620, col: 13, offset: 52534},
+																								pos: position{line: 1623, col: 13, offset: 52637},
 																								run: (*parser).callonListContinuationElement1755,
 																								expr: &seqExpr{
-																									pos: position{line: 1620, col: 13, offset: 52534},
+																									pos: position{line: 1623, col: 13, offset: 52637},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1620, col: 13, offset: 52534},
+																											pos: position{line: 1623, col: 13, offset: 52637},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1620, col: 14, offset: 52535},
+																												pos:        position{line: 1623, col: 14, offset: 52638},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -37748,7 +37807,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1620, col: 26, offset: 52547},
+																											pos:        position{line: 1623, col: 26, offset: 52650},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37757,15 +37816,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1622, col: 13, offset: 52667},
+																								pos: position{line: 1625, col: 13, offset: 52770},
 																								run: (*parser).callonListContinuationElement1760,
 																								expr: &seqExpr{
-																									pos: position{line: 1622, col: 13, offset: 52667},
+																									pos: position{line: 1625, col: 13, offset: 52770},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1622, col: 13, offset: 52667},
+																											pos: position{line: 1625, col: 13, offset: 52770},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1622, col: 14, offset: 52668},
+																												pos:        position{line: 1625, col: 14, offset: 52771},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -37773,7 +37832,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1622, col: 26, offset: 52680},
+																											pos:        position{line: 1625, col: 26, offset: 52783},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37785,12 +37844,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2869, col: 11, offset: 90776},
+																					pos: position{line: 2872, col: 11, offset: 90879},
 																					run: (*parser).callonListContinuationElement1765,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2869, col: 11, offset: 90776},
+																						pos: position{line: 2872, col: 11, offset: 90879},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2869, col: 11, offset: 90776},
+																							pos:        position{line: 2872, col: 11, offset: 90879},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37803,20 +37862,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1520, col: 5, offset: 49270},
+																	pos: position{line: 1523, col: 5, offset: 49373},
 																	expr: &actionExpr{
-																		pos: position{line: 1639, col: 5, offset: 53219},
+																		pos: position{line: 1642, col: 5, offset: 53322},
 																		run: (*parser).callonListContinuationElement1769,
 																		expr: &seqExpr{
-																			pos: position{line: 1639, col: 5, offset: 53219},
+																			pos: position{line: 1642, col: 5, offset: 53322},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1639, col: 5, offset: 53219},
+																					pos: position{line: 1642, col: 5, offset: 53322},
 																					expr: &actionExpr{
-																						pos: position{line: 2865, col: 10, offset: 90715},
+																						pos: position{line: 2868, col: 10, offset: 90818},
 																						run: (*parser).callonListContinuationElement1772,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2865, col: 10, offset: 90715},
+																							pos:        position{line: 2868, col: 10, offset: 90818},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37825,24 +37884,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1640, col: 5, offset: 53231},
+																					pos:   position{line: 1643, col: 5, offset: 53334},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1641, col: 9, offset: 53247},
+																						pos: position{line: 1644, col: 9, offset: 53350},
 																						run: (*parser).callonListContinuationElement1775,
 																						expr: &choiceExpr{
-																							pos: position{line: 1641, col: 10, offset: 53248},
+																							pos: position{line: 1644, col: 10, offset: 53351},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1641, col: 11, offset: 53249},
+																									pos:        position{line: 1644, col: 11, offset: 53352},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1641, col: 18, offset: 53256},
+																									pos: position{line: 1644, col: 18, offset: 53359},
 																									expr: &litMatcher{
-																										pos:        position{line: 1641, col: 19, offset: 53257},
+																										pos:        position{line: 1644, col: 19, offset: 53360},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37853,16 +37912,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1644, col: 7, offset: 53347},
+																					pos: position{line: 1647, col: 7, offset: 53450},
 																					run: (*parser).callonListContinuationElement1780,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2869, col: 11, offset: 90776},
+																					pos: position{line: 2872, col: 11, offset: 90879},
 																					run: (*parser).callonListContinuationElement1781,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2869, col: 11, offset: 90776},
+																						pos: position{line: 2872, col: 11, offset: 90879},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2869, col: 11, offset: 90776},
+																							pos:        position{line: 2872, col: 11, offset: 90879},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37875,29 +37934,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1521, col: 5, offset: 49302},
+																	pos: position{line: 1524, col: 5, offset: 49405},
 																	expr: &actionExpr{
-																		pos: position{line: 1729, col: 5, offset: 55788},
+																		pos: position{line: 1732, col: 5, offset: 55891},
 																		run: (*parser).callonListContinuationElement1785,
 																		expr: &seqExpr{
-																			pos: position{line: 1729, col: 5, offset: 55788},
+																			pos: position{line: 1732, col: 5, offset: 55891},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1729, col: 5, offset: 55788},
+																					pos:        position{line: 1732, col: 5, offset: 55891},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1729, col: 9, offset: 55792},
+																					pos:   position{line: 1732, col: 9, offset: 55895},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1729, col: 14, offset: 55797},
+																						pos: position{line: 1732, col: 14, offset: 55900},
 																						run: (*parser).callonListContinuationElement1789,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1729, col: 14, offset: 55797},
+																							pos: position{line: 1732, col: 14, offset: 55900},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1729, col: 14, offset: 55797},
+																								pos:        position{line: 1732, col: 14, offset: 55900},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37907,18 +37966,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1729, col: 62, offset: 55845},
+																					pos:        position{line: 1732, col: 62, offset: 55948},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2869, col: 11, offset: 90776},
+																					pos: position{line: 2872, col: 11, offset: 90879},
 																					run: (*parser).callonListContinuationElement1793,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2869, col: 11, offset: 90776},
+																						pos: position{line: 2872, col: 11, offset: 90879},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2869, col: 11, offset: 90776},
+																							pos:        position{line: 2872, col: 11, offset: 90879},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37931,31 +37990,31 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1522, col: 5, offset: 49332},
+																	pos: position{line: 1525, col: 5, offset: 49435},
 																	expr: &seqExpr{
-																		pos: position{line: 1522, col: 7, offset: 49334},
+																		pos: position{line: 1525, col: 7, offset: 49437},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1674, col: 5, offset: 54238},
+																				pos: position{line: 1677, col: 5, offset: 54341},
 																				run: (*parser).callonListContinuationElement1798,
 																				expr: &seqExpr{
-																					pos: position{line: 1674, col: 5, offset: 54238},
+																					pos: position{line: 1677, col: 5, offset: 54341},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1674, col: 5, offset: 54238},
+																							pos: position{line: 1677, col: 5, offset: 54341},
 																							expr: &seqExpr{
-																								pos: position{line: 2480, col: 31, offset: 79879},
+																								pos: position{line: 2483, col: 31, offset: 79982},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2480, col: 31, offset: 79879},
+																										pos:        position{line: 2483, col: 31, offset: 79982},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2480, col: 36, offset: 79884},
+																										pos: position{line: 2483, col: 36, offset: 79987},
 																										expr: &litMatcher{
-																											pos:        position{line: 2480, col: 37, offset: 79885},
+																											pos:        position{line: 2483, col: 37, offset: 79988},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -37965,28 +38024,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1675, col: 5, offset: 54270},
+																							pos: position{line: 1678, col: 5, offset: 54373},
 																							expr: &seqExpr{
-																								pos: position{line: 1675, col: 6, offset: 54271},
+																								pos: position{line: 1678, col: 6, offset: 54374},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1675, col: 6, offset: 54271},
+																										pos: position{line: 1678, col: 6, offset: 54374},
 																										expr: &actionExpr{
-																											pos: position{line: 1680, col: 5, offset: 54421},
+																											pos: position{line: 1683, col: 5, offset: 54524},
 																											run: (*parser).callonListContinuationElement1808,
 																											expr: &seqExpr{
-																												pos: position{line: 1680, col: 5, offset: 54421},
+																												pos: position{line: 1683, col: 5, offset: 54524},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1680, col: 5, offset: 54421},
+																														pos:   position{line: 1683, col: 5, offset: 54524},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1680, col: 16, offset: 54432},
+																															pos: position{line: 1683, col: 16, offset: 54535},
 																															run: (*parser).callonListContinuationElement1811,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1680, col: 16, offset: 54432},
+																																pos: position{line: 1683, col: 16, offset: 54535},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1680, col: 17, offset: 54433},
+																																	pos:        position{line: 1683, col: 17, offset: 54536},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -37995,7 +38054,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1683, col: 5, offset: 54490},
+																														pos: position{line: 1686, col: 5, offset: 54593},
 																														run: (*parser).callonListContinuationElement1814,
 																													},
 																												},
@@ -38003,30 +38062,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1675, col: 35, offset: 54300},
+																										pos: position{line: 1678, col: 35, offset: 54403},
 																										expr: &choiceExpr{
-																											pos: position{line: 2887, col: 8, offset: 91113},
+																											pos: position{line: 2890, col: 8, offset: 91216},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2874, col: 12, offset: 90886},
+																													pos: position{line: 2877, col: 12, offset: 90989},
 																													run: (*parser).callonListContinuationElement1817,
 																													expr: &choiceExpr{
-																														pos: position{line: 2874, col: 13, offset: 90887},
+																														pos: position{line: 2877, col: 13, offset: 90990},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38035,16 +38094,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2884, col: 8, offset: 91063},
+																													pos: position{line: 2887, col: 8, offset: 91166},
 																													expr: &anyMatcher{
-																														line: 2884, col: 9, offset: 91064,
+																														line: 2887, col: 9, offset: 91167,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1675, col: 40, offset: 54305,
+																										line: 1678, col: 40, offset: 54408,
 																									},
 																								},
 																							},
@@ -38053,21 +38112,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1680, col: 5, offset: 54421},
+																				pos: position{line: 1683, col: 5, offset: 54524},
 																				run: (*parser).callonListContinuationElement1825,
 																				expr: &seqExpr{
-																					pos: position{line: 1680, col: 5, offset: 54421},
+																					pos: position{line: 1683, col: 5, offset: 54524},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1680, col: 5, offset: 54421},
+																							pos:   position{line: 1683, col: 5, offset: 54524},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1680, col: 16, offset: 54432},
+																								pos: position{line: 1683, col: 16, offset: 54535},
 																								run: (*parser).callonListContinuationElement1828,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1680, col: 16, offset: 54432},
+																									pos: position{line: 1683, col: 16, offset: 54535},
 																									expr: &litMatcher{
-																										pos:        position{line: 1680, col: 17, offset: 54433},
+																										pos:        position{line: 1683, col: 17, offset: 54536},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -38076,7 +38135,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1683, col: 5, offset: 54490},
+																							pos: position{line: 1686, col: 5, offset: 54593},
 																							run: (*parser).callonListContinuationElement1831,
 																						},
 																					},
@@ -38086,17 +38145,17 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1523, col: 5, offset: 49390},
+																	pos: position{line: 1526, col: 5, offset: 49493},
 																	expr: &actionExpr{
-																		pos: position{line: 724, col: 5, offset: 23042},
+																		pos: position{line: 727, col: 5, offset: 23145},
 																		run: (*parser).callonListContinuationElement1833,
 																		expr: &seqExpr{
-																			pos: position{line: 724, col: 5, offset: 23042},
+																			pos: position{line: 727, col: 5, offset: 23145},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 724, col: 5, offset: 23042},
+																					pos: position{line: 727, col: 5, offset: 23145},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2755, col: 13, offset: 87810},
+																						pos:        position{line: 2758, col: 13, offset: 87913},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -38104,36 +38163,36 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 725, col: 5, offset: 23072},
+																					pos:   position{line: 728, col: 5, offset: 23175},
 																					label: "delimiter",
 																					expr: &choiceExpr{
-																						pos: position{line: 726, col: 9, offset: 23092},
+																						pos: position{line: 729, col: 9, offset: 23195},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 740, col: 5, offset: 23584},
+																								pos: position{line: 743, col: 5, offset: 23687},
 																								run: (*parser).callonListContinuationElement1839,
 																								expr: &seqExpr{
-																									pos: position{line: 740, col: 5, offset: 23584},
+																									pos: position{line: 743, col: 5, offset: 23687},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 740, col: 5, offset: 23584},
+																											pos:   position{line: 743, col: 5, offset: 23687},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 740, col: 16, offset: 23595},
+																												pos: position{line: 743, col: 16, offset: 23698},
 																												run: (*parser).callonListContinuationElement1842,
 																												expr: &seqExpr{
-																													pos: position{line: 740, col: 16, offset: 23595},
+																													pos: position{line: 743, col: 16, offset: 23698},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 740, col: 16, offset: 23595},
+																															pos:        position{line: 743, col: 16, offset: 23698},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 740, col: 23, offset: 23602},
+																															pos: position{line: 743, col: 23, offset: 23705},
 																															expr: &litMatcher{
-																																pos:        position{line: 740, col: 23, offset: 23602},
+																																pos:        position{line: 743, col: 23, offset: 23705},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -38144,12 +38203,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 742, col: 8, offset: 23686},
+																											pos: position{line: 745, col: 8, offset: 23789},
 																											expr: &actionExpr{
-																												pos: position{line: 2865, col: 10, offset: 90715},
+																												pos: position{line: 2868, col: 10, offset: 90818},
 																												run: (*parser).callonListContinuationElement1848,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 10, offset: 90715},
+																													pos:        position{line: 2868, col: 10, offset: 90818},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38158,28 +38217,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2887, col: 8, offset: 91113},
+																											pos: position{line: 2890, col: 8, offset: 91216},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2874, col: 12, offset: 90886},
+																													pos: position{line: 2877, col: 12, offset: 90989},
 																													run: (*parser).callonListContinuationElement1851,
 																													expr: &choiceExpr{
-																														pos: position{line: 2874, col: 13, offset: 90887},
+																														pos: position{line: 2877, col: 13, offset: 90990},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38188,9 +38247,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2884, col: 8, offset: 91063},
+																													pos: position{line: 2887, col: 8, offset: 91166},
 																													expr: &anyMatcher{
-																														line: 2884, col: 9, offset: 91064,
+																														line: 2887, col: 9, offset: 91167,
 																													},
 																												},
 																											},
@@ -38199,30 +38258,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 747, col: 5, offset: 23832},
+																								pos: position{line: 750, col: 5, offset: 23935},
 																								run: (*parser).callonListContinuationElement1858,
 																								expr: &seqExpr{
-																									pos: position{line: 747, col: 5, offset: 23832},
+																									pos: position{line: 750, col: 5, offset: 23935},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 747, col: 5, offset: 23832},
+																											pos:   position{line: 750, col: 5, offset: 23935},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 747, col: 16, offset: 23843},
+																												pos: position{line: 750, col: 16, offset: 23946},
 																												run: (*parser).callonListContinuationElement1861,
 																												expr: &seqExpr{
-																													pos: position{line: 747, col: 16, offset: 23843},
+																													pos: position{line: 750, col: 16, offset: 23946},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 747, col: 16, offset: 23843},
+																															pos:        position{line: 750, col: 16, offset: 23946},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 747, col: 23, offset: 23850},
+																															pos: position{line: 750, col: 23, offset: 23953},
 																															expr: &litMatcher{
-																																pos:        position{line: 747, col: 23, offset: 23850},
+																																pos:        position{line: 750, col: 23, offset: 23953},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -38233,12 +38292,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 749, col: 8, offset: 23934},
+																											pos: position{line: 752, col: 8, offset: 24037},
 																											expr: &actionExpr{
-																												pos: position{line: 2865, col: 10, offset: 90715},
+																												pos: position{line: 2868, col: 10, offset: 90818},
 																												run: (*parser).callonListContinuationElement1867,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 10, offset: 90715},
+																													pos:        position{line: 2868, col: 10, offset: 90818},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38247,28 +38306,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2887, col: 8, offset: 91113},
+																											pos: position{line: 2890, col: 8, offset: 91216},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2874, col: 12, offset: 90886},
+																													pos: position{line: 2877, col: 12, offset: 90989},
 																													run: (*parser).callonListContinuationElement1870,
 																													expr: &choiceExpr{
-																														pos: position{line: 2874, col: 13, offset: 90887},
+																														pos: position{line: 2877, col: 13, offset: 90990},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38277,9 +38336,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2884, col: 8, offset: 91063},
+																													pos: position{line: 2887, col: 8, offset: 91166},
 																													expr: &anyMatcher{
-																														line: 2884, col: 9, offset: 91064,
+																														line: 2887, col: 9, offset: 91167,
 																													},
 																												},
 																											},
@@ -38288,27 +38347,27 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 760, col: 26, offset: 24320},
+																								pos: position{line: 763, col: 26, offset: 24423},
 																								run: (*parser).callonListContinuationElement1877,
 																								expr: &seqExpr{
-																									pos: position{line: 760, col: 26, offset: 24320},
+																									pos: position{line: 763, col: 26, offset: 24423},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 760, col: 26, offset: 24320},
+																											pos:        position{line: 763, col: 26, offset: 24423},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 760, col: 32, offset: 24326},
+																											pos:   position{line: 763, col: 32, offset: 24429},
 																											label: "language",
 																											expr: &actionExpr{
-																												pos: position{line: 764, col: 13, offset: 24456},
+																												pos: position{line: 767, col: 13, offset: 24559},
 																												run: (*parser).callonListContinuationElement1881,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 764, col: 14, offset: 24457},
+																													pos: position{line: 767, col: 14, offset: 24560},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 764, col: 14, offset: 24457},
+																														pos:        position{line: 767, col: 14, offset: 24560},
 																														val:        "[^\\r\\n` ]",
 																														chars:      []rune{'\r', '\n', '`', ' '},
 																														ignoreCase: false,
@@ -38318,12 +38377,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 760, col: 52, offset: 24346},
+																											pos: position{line: 763, col: 52, offset: 24449},
 																											expr: &actionExpr{
-																												pos: position{line: 2865, col: 10, offset: 90715},
+																												pos: position{line: 2868, col: 10, offset: 90818},
 																												run: (*parser).callonListContinuationElement1885,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 10, offset: 90715},
+																													pos:        position{line: 2868, col: 10, offset: 90818},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38332,28 +38391,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2887, col: 8, offset: 91113},
+																											pos: position{line: 2890, col: 8, offset: 91216},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2874, col: 12, offset: 90886},
+																													pos: position{line: 2877, col: 12, offset: 90989},
 																													run: (*parser).callonListContinuationElement1888,
 																													expr: &choiceExpr{
-																														pos: position{line: 2874, col: 13, offset: 90887},
+																														pos: position{line: 2877, col: 13, offset: 90990},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38362,9 +38421,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2884, col: 8, offset: 91063},
+																													pos: position{line: 2887, col: 8, offset: 91166},
 																													expr: &anyMatcher{
-																														line: 2884, col: 9, offset: 91064,
+																														line: 2887, col: 9, offset: 91167,
 																													},
 																												},
 																											},
@@ -38373,30 +38432,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 754, col: 5, offset: 24079},
+																								pos: position{line: 757, col: 5, offset: 24182},
 																								run: (*parser).callonListContinuationElement1895,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 5, offset: 24079},
+																									pos: position{line: 757, col: 5, offset: 24182},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 754, col: 5, offset: 24079},
+																											pos:   position{line: 757, col: 5, offset: 24182},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 754, col: 16, offset: 24090},
+																												pos: position{line: 757, col: 16, offset: 24193},
 																												run: (*parser).callonListContinuationElement1898,
 																												expr: &seqExpr{
-																													pos: position{line: 754, col: 16, offset: 24090},
+																													pos: position{line: 757, col: 16, offset: 24193},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 754, col: 16, offset: 24090},
+																															pos:        position{line: 757, col: 16, offset: 24193},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 754, col: 22, offset: 24096},
+																															pos: position{line: 757, col: 22, offset: 24199},
 																															expr: &litMatcher{
-																																pos:        position{line: 754, col: 22, offset: 24096},
+																																pos:        position{line: 757, col: 22, offset: 24199},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -38407,12 +38466,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 8, offset: 24180},
+																											pos: position{line: 759, col: 8, offset: 24283},
 																											expr: &actionExpr{
-																												pos: position{line: 2865, col: 10, offset: 90715},
+																												pos: position{line: 2868, col: 10, offset: 90818},
 																												run: (*parser).callonListContinuationElement1904,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 10, offset: 90715},
+																													pos:        position{line: 2868, col: 10, offset: 90818},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38421,28 +38480,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2887, col: 8, offset: 91113},
+																											pos: position{line: 2890, col: 8, offset: 91216},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2874, col: 12, offset: 90886},
+																													pos: position{line: 2877, col: 12, offset: 90989},
 																													run: (*parser).callonListContinuationElement1907,
 																													expr: &choiceExpr{
-																														pos: position{line: 2874, col: 13, offset: 90887},
+																														pos: position{line: 2877, col: 13, offset: 90990},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38451,9 +38510,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2884, col: 8, offset: 91063},
+																													pos: position{line: 2887, col: 8, offset: 91166},
 																													expr: &anyMatcher{
-																														line: 2884, col: 9, offset: 91064,
+																														line: 2887, col: 9, offset: 91167,
 																													},
 																												},
 																											},
@@ -38462,30 +38521,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 769, col: 5, offset: 24616},
+																								pos: position{line: 772, col: 5, offset: 24719},
 																								run: (*parser).callonListContinuationElement1914,
 																								expr: &seqExpr{
-																									pos: position{line: 769, col: 5, offset: 24616},
+																									pos: position{line: 772, col: 5, offset: 24719},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 769, col: 5, offset: 24616},
+																											pos:   position{line: 772, col: 5, offset: 24719},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 769, col: 16, offset: 24627},
+																												pos: position{line: 772, col: 16, offset: 24730},
 																												run: (*parser).callonListContinuationElement1917,
 																												expr: &seqExpr{
-																													pos: position{line: 769, col: 16, offset: 24627},
+																													pos: position{line: 772, col: 16, offset: 24730},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 769, col: 16, offset: 24627},
+																															pos:        position{line: 772, col: 16, offset: 24730},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 769, col: 23, offset: 24634},
+																															pos: position{line: 772, col: 23, offset: 24737},
 																															expr: &litMatcher{
-																																pos:        position{line: 769, col: 23, offset: 24634},
+																																pos:        position{line: 772, col: 23, offset: 24737},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -38496,12 +38555,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 771, col: 8, offset: 24718},
+																											pos: position{line: 774, col: 8, offset: 24821},
 																											expr: &actionExpr{
-																												pos: position{line: 2865, col: 10, offset: 90715},
+																												pos: position{line: 2868, col: 10, offset: 90818},
 																												run: (*parser).callonListContinuationElement1923,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 10, offset: 90715},
+																													pos:        position{line: 2868, col: 10, offset: 90818},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38510,28 +38569,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2887, col: 8, offset: 91113},
+																											pos: position{line: 2890, col: 8, offset: 91216},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2874, col: 12, offset: 90886},
+																													pos: position{line: 2877, col: 12, offset: 90989},
 																													run: (*parser).callonListContinuationElement1926,
 																													expr: &choiceExpr{
-																														pos: position{line: 2874, col: 13, offset: 90887},
+																														pos: position{line: 2877, col: 13, offset: 90990},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38540,9 +38599,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2884, col: 8, offset: 91063},
+																													pos: position{line: 2887, col: 8, offset: 91166},
 																													expr: &anyMatcher{
-																														line: 2884, col: 9, offset: 91064,
+																														line: 2887, col: 9, offset: 91167,
 																													},
 																												},
 																											},
@@ -38551,30 +38610,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 783, col: 5, offset: 25092},
+																								pos: position{line: 786, col: 5, offset: 25195},
 																								run: (*parser).callonListContinuationElement1933,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 5, offset: 25092},
+																									pos: position{line: 786, col: 5, offset: 25195},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 783, col: 5, offset: 25092},
+																											pos:   position{line: 786, col: 5, offset: 25195},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 783, col: 16, offset: 25103},
+																												pos: position{line: 786, col: 16, offset: 25206},
 																												run: (*parser).callonListContinuationElement1936,
 																												expr: &seqExpr{
-																													pos: position{line: 783, col: 16, offset: 25103},
+																													pos: position{line: 786, col: 16, offset: 25206},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 783, col: 16, offset: 25103},
+																															pos:        position{line: 786, col: 16, offset: 25206},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 783, col: 23, offset: 25110},
+																															pos: position{line: 786, col: 23, offset: 25213},
 																															expr: &litMatcher{
-																																pos:        position{line: 783, col: 23, offset: 25110},
+																																pos:        position{line: 786, col: 23, offset: 25213},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -38585,12 +38644,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 785, col: 8, offset: 25194},
+																											pos: position{line: 788, col: 8, offset: 25297},
 																											expr: &actionExpr{
-																												pos: position{line: 2865, col: 10, offset: 90715},
+																												pos: position{line: 2868, col: 10, offset: 90818},
 																												run: (*parser).callonListContinuationElement1942,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 10, offset: 90715},
+																													pos:        position{line: 2868, col: 10, offset: 90818},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38599,28 +38658,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2887, col: 8, offset: 91113},
+																											pos: position{line: 2890, col: 8, offset: 91216},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2874, col: 12, offset: 90886},
+																													pos: position{line: 2877, col: 12, offset: 90989},
 																													run: (*parser).callonListContinuationElement1945,
 																													expr: &choiceExpr{
-																														pos: position{line: 2874, col: 13, offset: 90887},
+																														pos: position{line: 2877, col: 13, offset: 90990},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38629,9 +38688,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2884, col: 8, offset: 91063},
+																													pos: position{line: 2887, col: 8, offset: 91166},
 																													expr: &anyMatcher{
-																														line: 2884, col: 9, offset: 91064,
+																														line: 2887, col: 9, offset: 91167,
 																													},
 																												},
 																											},
@@ -38640,30 +38699,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 790, col: 5, offset: 25344},
+																								pos: position{line: 793, col: 5, offset: 25447},
 																								run: (*parser).callonListContinuationElement1952,
 																								expr: &seqExpr{
-																									pos: position{line: 790, col: 5, offset: 25344},
+																									pos: position{line: 793, col: 5, offset: 25447},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 790, col: 5, offset: 25344},
+																											pos:   position{line: 793, col: 5, offset: 25447},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 790, col: 16, offset: 25355},
+																												pos: position{line: 793, col: 16, offset: 25458},
 																												run: (*parser).callonListContinuationElement1955,
 																												expr: &seqExpr{
-																													pos: position{line: 790, col: 16, offset: 25355},
+																													pos: position{line: 793, col: 16, offset: 25458},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 790, col: 16, offset: 25355},
+																															pos:        position{line: 793, col: 16, offset: 25458},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 790, col: 23, offset: 25362},
+																															pos: position{line: 793, col: 23, offset: 25465},
 																															expr: &litMatcher{
-																																pos:        position{line: 790, col: 23, offset: 25362},
+																																pos:        position{line: 793, col: 23, offset: 25465},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -38674,12 +38733,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 792, col: 8, offset: 25446},
+																											pos: position{line: 795, col: 8, offset: 25549},
 																											expr: &actionExpr{
-																												pos: position{line: 2865, col: 10, offset: 90715},
+																												pos: position{line: 2868, col: 10, offset: 90818},
 																												run: (*parser).callonListContinuationElement1961,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 10, offset: 90715},
+																													pos:        position{line: 2868, col: 10, offset: 90818},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38688,28 +38747,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2887, col: 8, offset: 91113},
+																											pos: position{line: 2890, col: 8, offset: 91216},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2874, col: 12, offset: 90886},
+																													pos: position{line: 2877, col: 12, offset: 90989},
 																													run: (*parser).callonListContinuationElement1964,
 																													expr: &choiceExpr{
-																														pos: position{line: 2874, col: 13, offset: 90887},
+																														pos: position{line: 2877, col: 13, offset: 90990},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38718,9 +38777,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2884, col: 8, offset: 91063},
+																													pos: position{line: 2887, col: 8, offset: 91166},
 																													expr: &anyMatcher{
-																														line: 2884, col: 9, offset: 91064,
+																														line: 2887, col: 9, offset: 91167,
 																													},
 																												},
 																											},
@@ -38729,30 +38788,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 797, col: 5, offset: 25594},
+																								pos: position{line: 800, col: 5, offset: 25697},
 																								run: (*parser).callonListContinuationElement1971,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 5, offset: 25594},
+																									pos: position{line: 800, col: 5, offset: 25697},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 797, col: 5, offset: 25594},
+																											pos:   position{line: 800, col: 5, offset: 25697},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 797, col: 16, offset: 25605},
+																												pos: position{line: 800, col: 16, offset: 25708},
 																												run: (*parser).callonListContinuationElement1974,
 																												expr: &seqExpr{
-																													pos: position{line: 797, col: 16, offset: 25605},
+																													pos: position{line: 800, col: 16, offset: 25708},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 797, col: 16, offset: 25605},
+																															pos:        position{line: 800, col: 16, offset: 25708},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 797, col: 23, offset: 25612},
+																															pos: position{line: 800, col: 23, offset: 25715},
 																															expr: &litMatcher{
-																																pos:        position{line: 797, col: 23, offset: 25612},
+																																pos:        position{line: 800, col: 23, offset: 25715},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -38763,12 +38822,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 8, offset: 25696},
+																											pos: position{line: 802, col: 8, offset: 25799},
 																											expr: &actionExpr{
-																												pos: position{line: 2865, col: 10, offset: 90715},
+																												pos: position{line: 2868, col: 10, offset: 90818},
 																												run: (*parser).callonListContinuationElement1980,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 10, offset: 90715},
+																													pos:        position{line: 2868, col: 10, offset: 90818},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38777,28 +38836,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2887, col: 8, offset: 91113},
+																											pos: position{line: 2890, col: 8, offset: 91216},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2874, col: 12, offset: 90886},
+																													pos: position{line: 2877, col: 12, offset: 90989},
 																													run: (*parser).callonListContinuationElement1983,
 																													expr: &choiceExpr{
-																														pos: position{line: 2874, col: 13, offset: 90887},
+																														pos: position{line: 2877, col: 13, offset: 90990},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38807,9 +38866,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2884, col: 8, offset: 91063},
+																													pos: position{line: 2887, col: 8, offset: 91166},
 																													expr: &anyMatcher{
-																														line: 2884, col: 9, offset: 91064,
+																														line: 2887, col: 9, offset: 91167,
 																													},
 																												},
 																											},
@@ -38818,30 +38877,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 804, col: 5, offset: 25840},
+																								pos: position{line: 807, col: 5, offset: 25943},
 																								run: (*parser).callonListContinuationElement1990,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 5, offset: 25840},
+																									pos: position{line: 807, col: 5, offset: 25943},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 804, col: 5, offset: 25840},
+																											pos:   position{line: 807, col: 5, offset: 25943},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 804, col: 16, offset: 25851},
+																												pos: position{line: 807, col: 16, offset: 25954},
 																												run: (*parser).callonListContinuationElement1993,
 																												expr: &seqExpr{
-																													pos: position{line: 804, col: 16, offset: 25851},
+																													pos: position{line: 807, col: 16, offset: 25954},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 804, col: 16, offset: 25851},
+																															pos:        position{line: 807, col: 16, offset: 25954},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 804, col: 23, offset: 25858},
+																															pos: position{line: 807, col: 23, offset: 25961},
 																															expr: &litMatcher{
-																																pos:        position{line: 804, col: 23, offset: 25858},
+																																pos:        position{line: 807, col: 23, offset: 25961},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -38852,12 +38911,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 8, offset: 25942},
+																											pos: position{line: 809, col: 8, offset: 26045},
 																											expr: &actionExpr{
-																												pos: position{line: 2865, col: 10, offset: 90715},
+																												pos: position{line: 2868, col: 10, offset: 90818},
 																												run: (*parser).callonListContinuationElement1999,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2865, col: 10, offset: 90715},
+																													pos:        position{line: 2868, col: 10, offset: 90818},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38866,28 +38925,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2887, col: 8, offset: 91113},
+																											pos: position{line: 2890, col: 8, offset: 91216},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2874, col: 12, offset: 90886},
+																													pos: position{line: 2877, col: 12, offset: 90989},
 																													run: (*parser).callonListContinuationElement2002,
 																													expr: &choiceExpr{
-																														pos: position{line: 2874, col: 13, offset: 90887},
+																														pos: position{line: 2877, col: 13, offset: 90990},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 13, offset: 90887},
+																																pos:        position{line: 2877, col: 13, offset: 90990},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 20, offset: 90894},
+																																pos:        position{line: 2877, col: 20, offset: 90997},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2874, col: 29, offset: 90903},
+																																pos:        position{line: 2877, col: 29, offset: 91006},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38896,9 +38955,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2884, col: 8, offset: 91063},
+																													pos: position{line: 2887, col: 8, offset: 91166},
 																													expr: &anyMatcher{
-																														line: 2884, col: 9, offset: 91064,
+																														line: 2887, col: 9, offset: 91167,
 																													},
 																												},
 																											},
@@ -38914,15 +38973,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1524, col: 5, offset: 49410},
+																	pos:   position{line: 1527, col: 5, offset: 49513},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2815, col: 14, offset: 89308},
+																		pos: position{line: 2818, col: 14, offset: 89411},
 																		run: (*parser).callonListContinuationElement2010,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2815, col: 14, offset: 89308},
+																			pos: position{line: 2818, col: 14, offset: 89411},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2815, col: 14, offset: 89308},
+																				pos:        position{line: 2818, col: 14, offset: 89411},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38932,28 +38991,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonListContinuationElement2014,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -38962,9 +39021,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -38985,33 +39044,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1713, col: 1, offset: 55282},
+			pos:  position{line: 1716, col: 1, offset: 55385},
 			expr: &actionExpr{
-				pos: position{line: 1715, col: 5, offset: 55360},
+				pos: position{line: 1718, col: 5, offset: 55463},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1715, col: 5, offset: 55360},
+					pos: position{line: 1718, col: 5, offset: 55463},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1715, col: 5, offset: 55360},
+							pos: position{line: 1718, col: 5, offset: 55463},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1718, col: 5, offset: 55427},
+							pos:        position{line: 1721, col: 5, offset: 55530},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1718, col: 9, offset: 55431},
+							pos:   position{line: 1721, col: 9, offset: 55534},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1718, col: 14, offset: 55436},
+								pos: position{line: 1721, col: 14, offset: 55539},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1718, col: 14, offset: 55436},
+									pos: position{line: 1721, col: 14, offset: 55539},
 									expr: &charClassMatcher{
-										pos:        position{line: 1718, col: 14, offset: 55436},
+										pos:        position{line: 1721, col: 14, offset: 55539},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -39021,18 +39080,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1718, col: 62, offset: 55484},
+							pos:        position{line: 1721, col: 62, offset: 55587},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1718, col: 66, offset: 55488},
+							pos: position{line: 1721, col: 66, offset: 55591},
 							expr: &actionExpr{
-								pos: position{line: 2865, col: 10, offset: 90715},
+								pos: position{line: 2868, col: 10, offset: 90818},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2865, col: 10, offset: 90715},
+									pos:        position{line: 2868, col: 10, offset: 90818},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -39041,30 +39100,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1718, col: 73, offset: 55495},
+							pos: position{line: 1721, col: 73, offset: 55598},
 							expr: &choiceExpr{
-								pos: position{line: 1718, col: 75, offset: 55497},
+								pos: position{line: 1721, col: 75, offset: 55600},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2874, col: 12, offset: 90886},
+										pos: position{line: 2877, col: 12, offset: 90989},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2874, col: 13, offset: 90887},
+											pos: position{line: 2877, col: 13, offset: 90990},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2874, col: 13, offset: 90887},
+													pos:        position{line: 2877, col: 13, offset: 90990},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2874, col: 20, offset: 90894},
+													pos:        position{line: 2877, col: 20, offset: 90997},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2874, col: 29, offset: 90903},
+													pos:        position{line: 2877, col: 29, offset: 91006},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -39073,13 +39132,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2884, col: 8, offset: 91063},
+										pos: position{line: 2887, col: 8, offset: 91166},
 										expr: &anyMatcher{
-											line: 2884, col: 9, offset: 91064,
+											line: 2887, col: 9, offset: 91167,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1718, col: 81, offset: 55503},
+										pos:  position{line: 1721, col: 81, offset: 55606},
 										name: "Callout",
 									},
 								},
@@ -39091,44 +39150,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1757, col: 1, offset: 56676},
+			pos:  position{line: 1760, col: 1, offset: 56779},
 			expr: &actionExpr{
-				pos: position{line: 1759, col: 5, offset: 56750},
+				pos: position{line: 1762, col: 5, offset: 56853},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1759, col: 5, offset: 56750},
+					pos: position{line: 1762, col: 5, offset: 56853},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1759, col: 5, offset: 56750},
+							pos: position{line: 1762, col: 5, offset: 56853},
 							expr: &seqExpr{
-								pos: position{line: 1759, col: 7, offset: 56752},
+								pos: position{line: 1762, col: 7, offset: 56855},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2755, col: 13, offset: 87810},
+										pos:        position{line: 2758, col: 13, offset: 87913},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1759, col: 16, offset: 56761},
+										pos: position{line: 1762, col: 16, offset: 56864},
 										expr: &seqExpr{
-											pos: position{line: 1759, col: 18, offset: 56763},
+											pos: position{line: 1762, col: 18, offset: 56866},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1759, col: 19, offset: 56764},
+													pos:        position{line: 1762, col: 19, offset: 56867},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2869, col: 11, offset: 90776},
+													pos: position{line: 2872, col: 11, offset: 90879},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2869, col: 11, offset: 90776},
+														pos: position{line: 2872, col: 11, offset: 90879},
 														expr: &charClassMatcher{
-															pos:        position{line: 2869, col: 11, offset: 90776},
+															pos:        position{line: 2872, col: 11, offset: 90879},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -39143,88 +39202,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1760, col: 5, offset: 56904},
+							pos:   position{line: 1763, col: 5, offset: 57007},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1760, col: 11, offset: 56910},
+								pos: position{line: 1763, col: 11, offset: 57013},
 								expr: &actionExpr{
-									pos: position{line: 1738, col: 5, offset: 56173},
+									pos: position{line: 1741, col: 5, offset: 56276},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1738, col: 5, offset: 56173},
+										pos: position{line: 1741, col: 5, offset: 56276},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1738, col: 5, offset: 56173},
+												pos: position{line: 1741, col: 5, offset: 56276},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1741, col: 5, offset: 56236},
+												pos:   position{line: 1744, col: 5, offset: 56339},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1741, col: 12, offset: 56243},
+													pos: position{line: 1744, col: 12, offset: 56346},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1741, col: 12, offset: 56243},
+															pos: position{line: 1744, col: 12, offset: 56346},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1741, col: 12, offset: 56243},
+																pos:        position{line: 1744, col: 12, offset: 56346},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1743, col: 13, offset: 56299},
+															pos: position{line: 1746, col: 13, offset: 56402},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1743, col: 13, offset: 56299},
+																pos:        position{line: 1746, col: 13, offset: 56402},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1745, col: 13, offset: 56357},
+															pos: position{line: 1748, col: 13, offset: 56460},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1745, col: 13, offset: 56357},
+																pos:        position{line: 1748, col: 13, offset: 56460},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1747, col: 13, offset: 56425},
+															pos: position{line: 1750, col: 13, offset: 56528},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1747, col: 13, offset: 56425},
+																pos:        position{line: 1750, col: 13, offset: 56528},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1749, col: 13, offset: 56489},
+															pos: position{line: 1752, col: 13, offset: 56592},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1749, col: 13, offset: 56489},
+																pos:        position{line: 1752, col: 13, offset: 56592},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1751, col: 13, offset: 56553},
+															pos: position{line: 1754, col: 13, offset: 56656},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1751, col: 13, offset: 56553},
+																pos: position{line: 1754, col: 13, offset: 56656},
 																expr: &actionExpr{
-																	pos: position{line: 2869, col: 11, offset: 90776},
+																	pos: position{line: 2872, col: 11, offset: 90879},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2869, col: 11, offset: 90776},
+																		pos: position{line: 2872, col: 11, offset: 90879},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2869, col: 11, offset: 90776},
+																			pos:        position{line: 2872, col: 11, offset: 90879},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39243,24 +39302,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1761, col: 5, offset: 56932},
+							pos:   position{line: 1764, col: 5, offset: 57035},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1797, col: 5, offset: 58039},
+								pos: position{line: 1800, col: 5, offset: 58142},
 								run: (*parser).callonShortcutParagraph35,
 								expr: &seqExpr{
-									pos: position{line: 1797, col: 5, offset: 58039},
+									pos: position{line: 1800, col: 5, offset: 58142},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1797, col: 5, offset: 58039},
+											pos:   position{line: 1800, col: 5, offset: 58142},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2815, col: 14, offset: 89308},
+												pos: position{line: 2818, col: 14, offset: 89411},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2815, col: 14, offset: 89308},
+													pos: position{line: 2818, col: 14, offset: 89411},
 													expr: &charClassMatcher{
-														pos:        position{line: 2815, col: 14, offset: 89308},
+														pos:        position{line: 2818, col: 14, offset: 89411},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39270,32 +39329,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1798, col: 5, offset: 58063},
+											pos: position{line: 1801, col: 5, offset: 58166},
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2887, col: 8, offset: 91113},
+											pos: position{line: 2890, col: 8, offset: 91216},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2874, col: 12, offset: 90886},
+													pos: position{line: 2877, col: 12, offset: 90989},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2874, col: 13, offset: 90887},
+														pos: position{line: 2877, col: 13, offset: 90990},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2874, col: 13, offset: 90887},
+																pos:        position{line: 2877, col: 13, offset: 90990},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2874, col: 20, offset: 90894},
+																pos:        position{line: 2877, col: 20, offset: 90997},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2874, col: 29, offset: 90903},
+																pos:        position{line: 2877, col: 29, offset: 91006},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39304,9 +39363,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2884, col: 8, offset: 91063},
+													pos: position{line: 2887, col: 8, offset: 91166},
 													expr: &anyMatcher{
-														line: 2884, col: 9, offset: 91064,
+														line: 2887, col: 9, offset: 91167,
 													},
 												},
 											},
@@ -39316,47 +39375,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1762, col: 5, offset: 56966},
+							pos: position{line: 1765, col: 5, offset: 57069},
 							run: (*parser).callonShortcutParagraph50,
 						},
 						&labeledExpr{
-							pos:   position{line: 1769, col: 5, offset: 57296},
+							pos:   position{line: 1772, col: 5, offset: 57399},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1769, col: 16, offset: 57307},
+								pos: position{line: 1772, col: 16, offset: 57410},
 								expr: &actionExpr{
-									pos: position{line: 1770, col: 9, offset: 57317},
+									pos: position{line: 1773, col: 9, offset: 57420},
 									run: (*parser).callonShortcutParagraph53,
 									expr: &seqExpr{
-										pos: position{line: 1770, col: 9, offset: 57317},
+										pos: position{line: 1773, col: 9, offset: 57420},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2882, col: 11, offset: 91049},
+												pos: position{line: 2885, col: 11, offset: 91152},
 												expr: &anyMatcher{
-													line: 2882, col: 13, offset: 91051,
+													line: 2885, col: 13, offset: 91154,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1771, col: 9, offset: 57333},
+												pos: position{line: 1774, col: 9, offset: 57436},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
+													pos: position{line: 680, col: 14, offset: 21592},
 													run: (*parser).callonShortcutParagraph58,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 680, col: 14, offset: 21592},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2882, col: 11, offset: 91049},
+																pos: position{line: 2885, col: 11, offset: 91152},
 																expr: &anyMatcher{
-																	line: 2882, col: 13, offset: 91051,
+																	line: 2885, col: 13, offset: 91154,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 680, col: 21, offset: 21599},
 																expr: &actionExpr{
-																	pos: position{line: 2865, col: 10, offset: 90715},
+																	pos: position{line: 2868, col: 10, offset: 90818},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2865, col: 10, offset: 90715},
+																		pos:        position{line: 2868, col: 10, offset: 90818},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39365,28 +39424,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2887, col: 8, offset: 91113},
+																pos: position{line: 2890, col: 8, offset: 91216},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2874, col: 12, offset: 90886},
+																		pos: position{line: 2877, col: 12, offset: 90989},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2874, col: 13, offset: 90887},
+																			pos: position{line: 2877, col: 13, offset: 90990},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2874, col: 13, offset: 90887},
+																					pos:        position{line: 2877, col: 13, offset: 90990},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2874, col: 20, offset: 90894},
+																					pos:        position{line: 2877, col: 20, offset: 90997},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2874, col: 29, offset: 90903},
+																					pos:        position{line: 2877, col: 29, offset: 91006},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39395,9 +39454,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2884, col: 8, offset: 91063},
+																		pos: position{line: 2887, col: 8, offset: 91166},
 																		expr: &anyMatcher{
-																			line: 2884, col: 9, offset: 91064,
+																			line: 2887, col: 9, offset: 91167,
 																		},
 																	},
 																},
@@ -39407,24 +39466,24 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1772, col: 9, offset: 57352},
+												pos: position{line: 1775, col: 9, offset: 57455},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1772, col: 10, offset: 57353},
+													pos:  position{line: 1775, col: 10, offset: 57456},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1773, col: 9, offset: 57377},
+												pos: position{line: 1776, col: 9, offset: 57480},
 												expr: &actionExpr{
-													pos: position{line: 724, col: 5, offset: 23042},
+													pos: position{line: 727, col: 5, offset: 23145},
 													run: (*parser).callonShortcutParagraph76,
 													expr: &seqExpr{
-														pos: position{line: 724, col: 5, offset: 23042},
+														pos: position{line: 727, col: 5, offset: 23145},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 724, col: 5, offset: 23042},
+																pos: position{line: 727, col: 5, offset: 23145},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2755, col: 13, offset: 87810},
+																	pos:        position{line: 2758, col: 13, offset: 87913},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39432,36 +39491,36 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 725, col: 5, offset: 23072},
+																pos:   position{line: 728, col: 5, offset: 23175},
 																label: "delimiter",
 																expr: &choiceExpr{
-																	pos: position{line: 726, col: 9, offset: 23092},
+																	pos: position{line: 729, col: 9, offset: 23195},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 740, col: 5, offset: 23584},
+																			pos: position{line: 743, col: 5, offset: 23687},
 																			run: (*parser).callonShortcutParagraph82,
 																			expr: &seqExpr{
-																				pos: position{line: 740, col: 5, offset: 23584},
+																				pos: position{line: 743, col: 5, offset: 23687},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 740, col: 5, offset: 23584},
+																						pos:   position{line: 743, col: 5, offset: 23687},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 740, col: 16, offset: 23595},
+																							pos: position{line: 743, col: 16, offset: 23698},
 																							run: (*parser).callonShortcutParagraph85,
 																							expr: &seqExpr{
-																								pos: position{line: 740, col: 16, offset: 23595},
+																								pos: position{line: 743, col: 16, offset: 23698},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 740, col: 16, offset: 23595},
+																										pos:        position{line: 743, col: 16, offset: 23698},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 740, col: 23, offset: 23602},
+																										pos: position{line: 743, col: 23, offset: 23705},
 																										expr: &litMatcher{
-																											pos:        position{line: 740, col: 23, offset: 23602},
+																											pos:        position{line: 743, col: 23, offset: 23705},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -39472,12 +39531,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 742, col: 8, offset: 23686},
+																						pos: position{line: 745, col: 8, offset: 23789},
 																						expr: &actionExpr{
-																							pos: position{line: 2865, col: 10, offset: 90715},
+																							pos: position{line: 2868, col: 10, offset: 90818},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2865, col: 10, offset: 90715},
+																								pos:        position{line: 2868, col: 10, offset: 90818},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39486,28 +39545,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2887, col: 8, offset: 91113},
+																						pos: position{line: 2890, col: 8, offset: 91216},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2874, col: 12, offset: 90886},
+																								pos: position{line: 2877, col: 12, offset: 90989},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 13, offset: 90887},
+																									pos: position{line: 2877, col: 13, offset: 90990},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 13, offset: 90887},
+																											pos:        position{line: 2877, col: 13, offset: 90990},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 20, offset: 90894},
+																											pos:        position{line: 2877, col: 20, offset: 90997},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 29, offset: 90903},
+																											pos:        position{line: 2877, col: 29, offset: 91006},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39516,9 +39575,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2884, col: 8, offset: 91063},
+																								pos: position{line: 2887, col: 8, offset: 91166},
 																								expr: &anyMatcher{
-																									line: 2884, col: 9, offset: 91064,
+																									line: 2887, col: 9, offset: 91167,
 																								},
 																							},
 																						},
@@ -39527,30 +39586,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 747, col: 5, offset: 23832},
+																			pos: position{line: 750, col: 5, offset: 23935},
 																			run: (*parser).callonShortcutParagraph101,
 																			expr: &seqExpr{
-																				pos: position{line: 747, col: 5, offset: 23832},
+																				pos: position{line: 750, col: 5, offset: 23935},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 747, col: 5, offset: 23832},
+																						pos:   position{line: 750, col: 5, offset: 23935},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 747, col: 16, offset: 23843},
+																							pos: position{line: 750, col: 16, offset: 23946},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &seqExpr{
-																								pos: position{line: 747, col: 16, offset: 23843},
+																								pos: position{line: 750, col: 16, offset: 23946},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 747, col: 16, offset: 23843},
+																										pos:        position{line: 750, col: 16, offset: 23946},
 																										val:        "====",
 																										ignoreCase: false,
 																										want:       "\"====\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 747, col: 23, offset: 23850},
+																										pos: position{line: 750, col: 23, offset: 23953},
 																										expr: &litMatcher{
-																											pos:        position{line: 747, col: 23, offset: 23850},
+																											pos:        position{line: 750, col: 23, offset: 23953},
 																											val:        "=",
 																											ignoreCase: false,
 																											want:       "\"=\"",
@@ -39561,12 +39620,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 749, col: 8, offset: 23934},
+																						pos: position{line: 752, col: 8, offset: 24037},
 																						expr: &actionExpr{
-																							pos: position{line: 2865, col: 10, offset: 90715},
+																							pos: position{line: 2868, col: 10, offset: 90818},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2865, col: 10, offset: 90715},
+																								pos:        position{line: 2868, col: 10, offset: 90818},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39575,28 +39634,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2887, col: 8, offset: 91113},
+																						pos: position{line: 2890, col: 8, offset: 91216},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2874, col: 12, offset: 90886},
+																								pos: position{line: 2877, col: 12, offset: 90989},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 13, offset: 90887},
+																									pos: position{line: 2877, col: 13, offset: 90990},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 13, offset: 90887},
+																											pos:        position{line: 2877, col: 13, offset: 90990},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 20, offset: 90894},
+																											pos:        position{line: 2877, col: 20, offset: 90997},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 29, offset: 90903},
+																											pos:        position{line: 2877, col: 29, offset: 91006},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39605,9 +39664,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2884, col: 8, offset: 91063},
+																								pos: position{line: 2887, col: 8, offset: 91166},
 																								expr: &anyMatcher{
-																									line: 2884, col: 9, offset: 91064,
+																									line: 2887, col: 9, offset: 91167,
 																								},
 																							},
 																						},
@@ -39616,27 +39675,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 760, col: 26, offset: 24320},
+																			pos: position{line: 763, col: 26, offset: 24423},
 																			run: (*parser).callonShortcutParagraph120,
 																			expr: &seqExpr{
-																				pos: position{line: 760, col: 26, offset: 24320},
+																				pos: position{line: 763, col: 26, offset: 24423},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 760, col: 26, offset: 24320},
+																						pos:        position{line: 763, col: 26, offset: 24423},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 760, col: 32, offset: 24326},
+																						pos:   position{line: 763, col: 32, offset: 24429},
 																						label: "language",
 																						expr: &actionExpr{
-																							pos: position{line: 764, col: 13, offset: 24456},
+																							pos: position{line: 767, col: 13, offset: 24559},
 																							run: (*parser).callonShortcutParagraph124,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 764, col: 14, offset: 24457},
+																								pos: position{line: 767, col: 14, offset: 24560},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 764, col: 14, offset: 24457},
+																									pos:        position{line: 767, col: 14, offset: 24560},
 																									val:        "[^\\r\\n` ]",
 																									chars:      []rune{'\r', '\n', '`', ' '},
 																									ignoreCase: false,
@@ -39646,12 +39705,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 760, col: 52, offset: 24346},
+																						pos: position{line: 763, col: 52, offset: 24449},
 																						expr: &actionExpr{
-																							pos: position{line: 2865, col: 10, offset: 90715},
+																							pos: position{line: 2868, col: 10, offset: 90818},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2865, col: 10, offset: 90715},
+																								pos:        position{line: 2868, col: 10, offset: 90818},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39660,28 +39719,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2887, col: 8, offset: 91113},
+																						pos: position{line: 2890, col: 8, offset: 91216},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2874, col: 12, offset: 90886},
+																								pos: position{line: 2877, col: 12, offset: 90989},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 13, offset: 90887},
+																									pos: position{line: 2877, col: 13, offset: 90990},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 13, offset: 90887},
+																											pos:        position{line: 2877, col: 13, offset: 90990},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 20, offset: 90894},
+																											pos:        position{line: 2877, col: 20, offset: 90997},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 29, offset: 90903},
+																											pos:        position{line: 2877, col: 29, offset: 91006},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39690,9 +39749,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2884, col: 8, offset: 91063},
+																								pos: position{line: 2887, col: 8, offset: 91166},
 																								expr: &anyMatcher{
-																									line: 2884, col: 9, offset: 91064,
+																									line: 2887, col: 9, offset: 91167,
 																								},
 																							},
 																						},
@@ -39701,30 +39760,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 754, col: 5, offset: 24079},
+																			pos: position{line: 757, col: 5, offset: 24182},
 																			run: (*parser).callonShortcutParagraph138,
 																			expr: &seqExpr{
-																				pos: position{line: 754, col: 5, offset: 24079},
+																				pos: position{line: 757, col: 5, offset: 24182},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 754, col: 5, offset: 24079},
+																						pos:   position{line: 757, col: 5, offset: 24182},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 754, col: 16, offset: 24090},
+																							pos: position{line: 757, col: 16, offset: 24193},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &seqExpr{
-																								pos: position{line: 754, col: 16, offset: 24090},
+																								pos: position{line: 757, col: 16, offset: 24193},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 754, col: 16, offset: 24090},
+																										pos:        position{line: 757, col: 16, offset: 24193},
 																										val:        "```",
 																										ignoreCase: false,
 																										want:       "\"```\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 754, col: 22, offset: 24096},
+																										pos: position{line: 757, col: 22, offset: 24199},
 																										expr: &litMatcher{
-																											pos:        position{line: 754, col: 22, offset: 24096},
+																											pos:        position{line: 757, col: 22, offset: 24199},
 																											val:        "`",
 																											ignoreCase: false,
 																											want:       "\"`\"",
@@ -39735,12 +39794,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 756, col: 8, offset: 24180},
+																						pos: position{line: 759, col: 8, offset: 24283},
 																						expr: &actionExpr{
-																							pos: position{line: 2865, col: 10, offset: 90715},
+																							pos: position{line: 2868, col: 10, offset: 90818},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2865, col: 10, offset: 90715},
+																								pos:        position{line: 2868, col: 10, offset: 90818},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39749,28 +39808,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2887, col: 8, offset: 91113},
+																						pos: position{line: 2890, col: 8, offset: 91216},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2874, col: 12, offset: 90886},
+																								pos: position{line: 2877, col: 12, offset: 90989},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 13, offset: 90887},
+																									pos: position{line: 2877, col: 13, offset: 90990},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 13, offset: 90887},
+																											pos:        position{line: 2877, col: 13, offset: 90990},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 20, offset: 90894},
+																											pos:        position{line: 2877, col: 20, offset: 90997},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 29, offset: 90903},
+																											pos:        position{line: 2877, col: 29, offset: 91006},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39779,9 +39838,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2884, col: 8, offset: 91063},
+																								pos: position{line: 2887, col: 8, offset: 91166},
 																								expr: &anyMatcher{
-																									line: 2884, col: 9, offset: 91064,
+																									line: 2887, col: 9, offset: 91167,
 																								},
 																							},
 																						},
@@ -39790,30 +39849,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 769, col: 5, offset: 24616},
+																			pos: position{line: 772, col: 5, offset: 24719},
 																			run: (*parser).callonShortcutParagraph157,
 																			expr: &seqExpr{
-																				pos: position{line: 769, col: 5, offset: 24616},
+																				pos: position{line: 772, col: 5, offset: 24719},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 769, col: 5, offset: 24616},
+																						pos:   position{line: 772, col: 5, offset: 24719},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 769, col: 16, offset: 24627},
+																							pos: position{line: 772, col: 16, offset: 24730},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &seqExpr{
-																								pos: position{line: 769, col: 16, offset: 24627},
+																								pos: position{line: 772, col: 16, offset: 24730},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 769, col: 16, offset: 24627},
+																										pos:        position{line: 772, col: 16, offset: 24730},
 																										val:        "----",
 																										ignoreCase: false,
 																										want:       "\"----\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 769, col: 23, offset: 24634},
+																										pos: position{line: 772, col: 23, offset: 24737},
 																										expr: &litMatcher{
-																											pos:        position{line: 769, col: 23, offset: 24634},
+																											pos:        position{line: 772, col: 23, offset: 24737},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
@@ -39824,12 +39883,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 771, col: 8, offset: 24718},
+																						pos: position{line: 774, col: 8, offset: 24821},
 																						expr: &actionExpr{
-																							pos: position{line: 2865, col: 10, offset: 90715},
+																							pos: position{line: 2868, col: 10, offset: 90818},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2865, col: 10, offset: 90715},
+																								pos:        position{line: 2868, col: 10, offset: 90818},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39838,28 +39897,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2887, col: 8, offset: 91113},
+																						pos: position{line: 2890, col: 8, offset: 91216},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2874, col: 12, offset: 90886},
+																								pos: position{line: 2877, col: 12, offset: 90989},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 13, offset: 90887},
+																									pos: position{line: 2877, col: 13, offset: 90990},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 13, offset: 90887},
+																											pos:        position{line: 2877, col: 13, offset: 90990},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 20, offset: 90894},
+																											pos:        position{line: 2877, col: 20, offset: 90997},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 29, offset: 90903},
+																											pos:        position{line: 2877, col: 29, offset: 91006},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39868,9 +39927,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2884, col: 8, offset: 91063},
+																								pos: position{line: 2887, col: 8, offset: 91166},
 																								expr: &anyMatcher{
-																									line: 2884, col: 9, offset: 91064,
+																									line: 2887, col: 9, offset: 91167,
 																								},
 																							},
 																						},
@@ -39879,30 +39938,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 783, col: 5, offset: 25092},
+																			pos: position{line: 786, col: 5, offset: 25195},
 																			run: (*parser).callonShortcutParagraph176,
 																			expr: &seqExpr{
-																				pos: position{line: 783, col: 5, offset: 25092},
+																				pos: position{line: 786, col: 5, offset: 25195},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 783, col: 5, offset: 25092},
+																						pos:   position{line: 786, col: 5, offset: 25195},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 783, col: 16, offset: 25103},
+																							pos: position{line: 786, col: 16, offset: 25206},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &seqExpr{
-																								pos: position{line: 783, col: 16, offset: 25103},
+																								pos: position{line: 786, col: 16, offset: 25206},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 783, col: 16, offset: 25103},
+																										pos:        position{line: 786, col: 16, offset: 25206},
 																										val:        "....",
 																										ignoreCase: false,
 																										want:       "\"....\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 783, col: 23, offset: 25110},
+																										pos: position{line: 786, col: 23, offset: 25213},
 																										expr: &litMatcher{
-																											pos:        position{line: 783, col: 23, offset: 25110},
+																											pos:        position{line: 786, col: 23, offset: 25213},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -39913,12 +39972,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 785, col: 8, offset: 25194},
+																						pos: position{line: 788, col: 8, offset: 25297},
 																						expr: &actionExpr{
-																							pos: position{line: 2865, col: 10, offset: 90715},
+																							pos: position{line: 2868, col: 10, offset: 90818},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2865, col: 10, offset: 90715},
+																								pos:        position{line: 2868, col: 10, offset: 90818},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39927,28 +39986,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2887, col: 8, offset: 91113},
+																						pos: position{line: 2890, col: 8, offset: 91216},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2874, col: 12, offset: 90886},
+																								pos: position{line: 2877, col: 12, offset: 90989},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 13, offset: 90887},
+																									pos: position{line: 2877, col: 13, offset: 90990},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 13, offset: 90887},
+																											pos:        position{line: 2877, col: 13, offset: 90990},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 20, offset: 90894},
+																											pos:        position{line: 2877, col: 20, offset: 90997},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 29, offset: 90903},
+																											pos:        position{line: 2877, col: 29, offset: 91006},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39957,9 +40016,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2884, col: 8, offset: 91063},
+																								pos: position{line: 2887, col: 8, offset: 91166},
 																								expr: &anyMatcher{
-																									line: 2884, col: 9, offset: 91064,
+																									line: 2887, col: 9, offset: 91167,
 																								},
 																							},
 																						},
@@ -39968,30 +40027,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 790, col: 5, offset: 25344},
+																			pos: position{line: 793, col: 5, offset: 25447},
 																			run: (*parser).callonShortcutParagraph195,
 																			expr: &seqExpr{
-																				pos: position{line: 790, col: 5, offset: 25344},
+																				pos: position{line: 793, col: 5, offset: 25447},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 790, col: 5, offset: 25344},
+																						pos:   position{line: 793, col: 5, offset: 25447},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 790, col: 16, offset: 25355},
+																							pos: position{line: 793, col: 16, offset: 25458},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &seqExpr{
-																								pos: position{line: 790, col: 16, offset: 25355},
+																								pos: position{line: 793, col: 16, offset: 25458},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 790, col: 16, offset: 25355},
+																										pos:        position{line: 793, col: 16, offset: 25458},
 																										val:        "++++",
 																										ignoreCase: false,
 																										want:       "\"++++\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 790, col: 23, offset: 25362},
+																										pos: position{line: 793, col: 23, offset: 25465},
 																										expr: &litMatcher{
-																											pos:        position{line: 790, col: 23, offset: 25362},
+																											pos:        position{line: 793, col: 23, offset: 25465},
 																											val:        "+",
 																											ignoreCase: false,
 																											want:       "\"+\"",
@@ -40002,12 +40061,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 792, col: 8, offset: 25446},
+																						pos: position{line: 795, col: 8, offset: 25549},
 																						expr: &actionExpr{
-																							pos: position{line: 2865, col: 10, offset: 90715},
+																							pos: position{line: 2868, col: 10, offset: 90818},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2865, col: 10, offset: 90715},
+																								pos:        position{line: 2868, col: 10, offset: 90818},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40016,28 +40075,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2887, col: 8, offset: 91113},
+																						pos: position{line: 2890, col: 8, offset: 91216},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2874, col: 12, offset: 90886},
+																								pos: position{line: 2877, col: 12, offset: 90989},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 13, offset: 90887},
+																									pos: position{line: 2877, col: 13, offset: 90990},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 13, offset: 90887},
+																											pos:        position{line: 2877, col: 13, offset: 90990},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 20, offset: 90894},
+																											pos:        position{line: 2877, col: 20, offset: 90997},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 29, offset: 90903},
+																											pos:        position{line: 2877, col: 29, offset: 91006},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40046,9 +40105,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2884, col: 8, offset: 91063},
+																								pos: position{line: 2887, col: 8, offset: 91166},
 																								expr: &anyMatcher{
-																									line: 2884, col: 9, offset: 91064,
+																									line: 2887, col: 9, offset: 91167,
 																								},
 																							},
 																						},
@@ -40057,30 +40116,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 797, col: 5, offset: 25594},
+																			pos: position{line: 800, col: 5, offset: 25697},
 																			run: (*parser).callonShortcutParagraph214,
 																			expr: &seqExpr{
-																				pos: position{line: 797, col: 5, offset: 25594},
+																				pos: position{line: 800, col: 5, offset: 25697},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 797, col: 5, offset: 25594},
+																						pos:   position{line: 800, col: 5, offset: 25697},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 797, col: 16, offset: 25605},
+																							pos: position{line: 800, col: 16, offset: 25708},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &seqExpr{
-																								pos: position{line: 797, col: 16, offset: 25605},
+																								pos: position{line: 800, col: 16, offset: 25708},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 797, col: 16, offset: 25605},
+																										pos:        position{line: 800, col: 16, offset: 25708},
 																										val:        "____",
 																										ignoreCase: false,
 																										want:       "\"____\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 797, col: 23, offset: 25612},
+																										pos: position{line: 800, col: 23, offset: 25715},
 																										expr: &litMatcher{
-																											pos:        position{line: 797, col: 23, offset: 25612},
+																											pos:        position{line: 800, col: 23, offset: 25715},
 																											val:        "_",
 																											ignoreCase: false,
 																											want:       "\"_\"",
@@ -40091,12 +40150,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 799, col: 8, offset: 25696},
+																						pos: position{line: 802, col: 8, offset: 25799},
 																						expr: &actionExpr{
-																							pos: position{line: 2865, col: 10, offset: 90715},
+																							pos: position{line: 2868, col: 10, offset: 90818},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2865, col: 10, offset: 90715},
+																								pos:        position{line: 2868, col: 10, offset: 90818},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40105,28 +40164,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2887, col: 8, offset: 91113},
+																						pos: position{line: 2890, col: 8, offset: 91216},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2874, col: 12, offset: 90886},
+																								pos: position{line: 2877, col: 12, offset: 90989},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 13, offset: 90887},
+																									pos: position{line: 2877, col: 13, offset: 90990},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 13, offset: 90887},
+																											pos:        position{line: 2877, col: 13, offset: 90990},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 20, offset: 90894},
+																											pos:        position{line: 2877, col: 20, offset: 90997},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 29, offset: 90903},
+																											pos:        position{line: 2877, col: 29, offset: 91006},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40135,9 +40194,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2884, col: 8, offset: 91063},
+																								pos: position{line: 2887, col: 8, offset: 91166},
 																								expr: &anyMatcher{
-																									line: 2884, col: 9, offset: 91064,
+																									line: 2887, col: 9, offset: 91167,
 																								},
 																							},
 																						},
@@ -40146,30 +40205,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 804, col: 5, offset: 25840},
+																			pos: position{line: 807, col: 5, offset: 25943},
 																			run: (*parser).callonShortcutParagraph233,
 																			expr: &seqExpr{
-																				pos: position{line: 804, col: 5, offset: 25840},
+																				pos: position{line: 807, col: 5, offset: 25943},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 804, col: 5, offset: 25840},
+																						pos:   position{line: 807, col: 5, offset: 25943},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 804, col: 16, offset: 25851},
+																							pos: position{line: 807, col: 16, offset: 25954},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &seqExpr{
-																								pos: position{line: 804, col: 16, offset: 25851},
+																								pos: position{line: 807, col: 16, offset: 25954},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 804, col: 16, offset: 25851},
+																										pos:        position{line: 807, col: 16, offset: 25954},
 																										val:        "****",
 																										ignoreCase: false,
 																										want:       "\"****\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 804, col: 23, offset: 25858},
+																										pos: position{line: 807, col: 23, offset: 25961},
 																										expr: &litMatcher{
-																											pos:        position{line: 804, col: 23, offset: 25858},
+																											pos:        position{line: 807, col: 23, offset: 25961},
 																											val:        "*",
 																											ignoreCase: false,
 																											want:       "\"*\"",
@@ -40180,12 +40239,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 806, col: 8, offset: 25942},
+																						pos: position{line: 809, col: 8, offset: 26045},
 																						expr: &actionExpr{
-																							pos: position{line: 2865, col: 10, offset: 90715},
+																							pos: position{line: 2868, col: 10, offset: 90818},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2865, col: 10, offset: 90715},
+																								pos:        position{line: 2868, col: 10, offset: 90818},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40194,28 +40253,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2887, col: 8, offset: 91113},
+																						pos: position{line: 2890, col: 8, offset: 91216},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2874, col: 12, offset: 90886},
+																								pos: position{line: 2877, col: 12, offset: 90989},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2874, col: 13, offset: 90887},
+																									pos: position{line: 2877, col: 13, offset: 90990},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 13, offset: 90887},
+																											pos:        position{line: 2877, col: 13, offset: 90990},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 20, offset: 90894},
+																											pos:        position{line: 2877, col: 20, offset: 90997},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2874, col: 29, offset: 90903},
+																											pos:        position{line: 2877, col: 29, offset: 91006},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40224,9 +40283,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2884, col: 8, offset: 91063},
+																								pos: position{line: 2887, col: 8, offset: 91166},
 																								expr: &anyMatcher{
-																									line: 2884, col: 9, offset: 91064,
+																									line: 2887, col: 9, offset: 91167,
 																								},
 																							},
 																						},
@@ -40242,23 +40301,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1774, col: 9, offset: 57401},
+												pos: position{line: 1777, col: 9, offset: 57504},
 												expr: &seqExpr{
-													pos: position{line: 1548, col: 27, offset: 50038},
+													pos: position{line: 1551, col: 27, offset: 50141},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1548, col: 27, offset: 50038},
+															pos:        position{line: 1551, col: 27, offset: 50141},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1548, col: 31, offset: 50042},
+															pos: position{line: 1551, col: 31, offset: 50145},
 															expr: &actionExpr{
-																pos: position{line: 2865, col: 10, offset: 90715},
+																pos: position{line: 2868, col: 10, offset: 90818},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2865, col: 10, offset: 90715},
+																	pos:        position{line: 2868, col: 10, offset: 90818},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40267,25 +40326,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2874, col: 12, offset: 90886},
+															pos: position{line: 2877, col: 12, offset: 90989},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2874, col: 13, offset: 90887},
+																pos: position{line: 2877, col: 13, offset: 90990},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 13, offset: 90887},
+																		pos:        position{line: 2877, col: 13, offset: 90990},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 20, offset: 90894},
+																		pos:        position{line: 2877, col: 20, offset: 90997},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 29, offset: 90903},
+																		pos:        position{line: 2877, col: 29, offset: 91006},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40297,42 +40356,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1775, col: 9, offset: 57433},
+												pos:   position{line: 1778, col: 9, offset: 57536},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1775, col: 15, offset: 57439},
+													pos: position{line: 1778, col: 15, offset: 57542},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2475, col: 22, offset: 79658},
+															pos: position{line: 2478, col: 22, offset: 79761},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2475, col: 22, offset: 79658},
+																pos: position{line: 2478, col: 22, offset: 79761},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2480, col: 31, offset: 79879},
+																		pos:        position{line: 2483, col: 31, offset: 79982},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2480, col: 36, offset: 79884},
+																		pos: position{line: 2483, col: 36, offset: 79987},
 																		expr: &litMatcher{
-																			pos:        position{line: 2480, col: 37, offset: 79885},
+																			pos:        position{line: 2483, col: 37, offset: 79988},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2475, col: 49, offset: 79685},
+																		pos:   position{line: 2478, col: 49, offset: 79788},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2811, col: 13, offset: 89241},
+																			pos: position{line: 2814, col: 13, offset: 89344},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2811, col: 13, offset: 89241},
+																				pos: position{line: 2814, col: 13, offset: 89344},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2811, col: 13, offset: 89241},
+																					pos:        position{line: 2814, col: 13, offset: 89344},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40342,28 +40401,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2887, col: 8, offset: 91113},
+																		pos: position{line: 2890, col: 8, offset: 91216},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2874, col: 12, offset: 90886},
+																				pos: position{line: 2877, col: 12, offset: 90989},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 13, offset: 90887},
+																					pos: position{line: 2877, col: 13, offset: 90990},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 13, offset: 90887},
+																							pos:        position{line: 2877, col: 13, offset: 90990},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 20, offset: 90894},
+																							pos:        position{line: 2877, col: 20, offset: 90997},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 29, offset: 90903},
+																							pos:        position{line: 2877, col: 29, offset: 91006},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40372,9 +40431,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2884, col: 8, offset: 91063},
+																				pos: position{line: 2887, col: 8, offset: 91166},
 																				expr: &anyMatcher{
-																					line: 2884, col: 9, offset: 91064,
+																					line: 2887, col: 9, offset: 91167,
 																				},
 																			},
 																		},
@@ -40383,21 +40442,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1797, col: 5, offset: 58039},
+															pos: position{line: 1800, col: 5, offset: 58142},
 															run: (*parser).callonShortcutParagraph282,
 															expr: &seqExpr{
-																pos: position{line: 1797, col: 5, offset: 58039},
+																pos: position{line: 1800, col: 5, offset: 58142},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1797, col: 5, offset: 58039},
+																		pos:   position{line: 1800, col: 5, offset: 58142},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2815, col: 14, offset: 89308},
+																			pos: position{line: 2818, col: 14, offset: 89411},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2815, col: 14, offset: 89308},
+																				pos: position{line: 2818, col: 14, offset: 89411},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2815, col: 14, offset: 89308},
+																					pos:        position{line: 2818, col: 14, offset: 89411},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40407,32 +40466,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1798, col: 5, offset: 58063},
+																		pos: position{line: 1801, col: 5, offset: 58166},
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2887, col: 8, offset: 91113},
+																		pos: position{line: 2890, col: 8, offset: 91216},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2874, col: 12, offset: 90886},
+																				pos: position{line: 2877, col: 12, offset: 90989},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 13, offset: 90887},
+																					pos: position{line: 2877, col: 13, offset: 90990},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 13, offset: 90887},
+																							pos:        position{line: 2877, col: 13, offset: 90990},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 20, offset: 90894},
+																							pos:        position{line: 2877, col: 20, offset: 90997},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 29, offset: 90903},
+																							pos:        position{line: 2877, col: 29, offset: 91006},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40441,9 +40500,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2884, col: 8, offset: 91063},
+																				pos: position{line: 2887, col: 8, offset: 91166},
 																				expr: &anyMatcher{
-																					line: 2884, col: 9, offset: 91064,
+																					line: 2887, col: 9, offset: 91167,
 																				},
 																			},
 																		},
@@ -40465,96 +40524,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1782, col: 1, offset: 57643},
+			pos:  position{line: 1785, col: 1, offset: 57746},
 			expr: &actionExpr{
-				pos: position{line: 1783, col: 5, offset: 57661},
+				pos: position{line: 1786, col: 5, offset: 57764},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1783, col: 5, offset: 57661},
+					pos: position{line: 1786, col: 5, offset: 57764},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1783, col: 5, offset: 57661},
+							pos:   position{line: 1786, col: 5, offset: 57764},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1783, col: 11, offset: 57667},
+								pos: position{line: 1786, col: 11, offset: 57770},
 								expr: &actionExpr{
-									pos: position{line: 1738, col: 5, offset: 56173},
+									pos: position{line: 1741, col: 5, offset: 56276},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1738, col: 5, offset: 56173},
+										pos: position{line: 1741, col: 5, offset: 56276},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1738, col: 5, offset: 56173},
+												pos: position{line: 1741, col: 5, offset: 56276},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1741, col: 5, offset: 56236},
+												pos:   position{line: 1744, col: 5, offset: 56339},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1741, col: 12, offset: 56243},
+													pos: position{line: 1744, col: 12, offset: 56346},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1741, col: 12, offset: 56243},
+															pos: position{line: 1744, col: 12, offset: 56346},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1741, col: 12, offset: 56243},
+																pos:        position{line: 1744, col: 12, offset: 56346},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1743, col: 13, offset: 56299},
+															pos: position{line: 1746, col: 13, offset: 56402},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1743, col: 13, offset: 56299},
+																pos:        position{line: 1746, col: 13, offset: 56402},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1745, col: 13, offset: 56357},
+															pos: position{line: 1748, col: 13, offset: 56460},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1745, col: 13, offset: 56357},
+																pos:        position{line: 1748, col: 13, offset: 56460},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1747, col: 13, offset: 56425},
+															pos: position{line: 1750, col: 13, offset: 56528},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1747, col: 13, offset: 56425},
+																pos:        position{line: 1750, col: 13, offset: 56528},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1749, col: 13, offset: 56489},
+															pos: position{line: 1752, col: 13, offset: 56592},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1749, col: 13, offset: 56489},
+																pos:        position{line: 1752, col: 13, offset: 56592},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1751, col: 13, offset: 56553},
+															pos: position{line: 1754, col: 13, offset: 56656},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1751, col: 13, offset: 56553},
+																pos: position{line: 1754, col: 13, offset: 56656},
 																expr: &actionExpr{
-																	pos: position{line: 2869, col: 11, offset: 90776},
+																	pos: position{line: 2872, col: 11, offset: 90879},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2869, col: 11, offset: 90776},
+																		pos: position{line: 2872, col: 11, offset: 90879},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2869, col: 11, offset: 90776},
+																			pos:        position{line: 2872, col: 11, offset: 90879},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40573,24 +40632,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1784, col: 5, offset: 57690},
+							pos:   position{line: 1787, col: 5, offset: 57793},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1797, col: 5, offset: 58039},
+								pos: position{line: 1800, col: 5, offset: 58142},
 								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1797, col: 5, offset: 58039},
+									pos: position{line: 1800, col: 5, offset: 58142},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1797, col: 5, offset: 58039},
+											pos:   position{line: 1800, col: 5, offset: 58142},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2815, col: 14, offset: 89308},
+												pos: position{line: 2818, col: 14, offset: 89411},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2815, col: 14, offset: 89308},
+													pos: position{line: 2818, col: 14, offset: 89411},
 													expr: &charClassMatcher{
-														pos:        position{line: 2815, col: 14, offset: 89308},
+														pos:        position{line: 2818, col: 14, offset: 89411},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40600,32 +40659,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1798, col: 5, offset: 58063},
+											pos: position{line: 1801, col: 5, offset: 58166},
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2887, col: 8, offset: 91113},
+											pos: position{line: 2890, col: 8, offset: 91216},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2874, col: 12, offset: 90886},
+													pos: position{line: 2877, col: 12, offset: 90989},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2874, col: 13, offset: 90887},
+														pos: position{line: 2877, col: 13, offset: 90990},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2874, col: 13, offset: 90887},
+																pos:        position{line: 2877, col: 13, offset: 90990},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2874, col: 20, offset: 90894},
+																pos:        position{line: 2877, col: 20, offset: 90997},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2874, col: 29, offset: 90903},
+																pos:        position{line: 2877, col: 29, offset: 91006},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40634,9 +40693,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2884, col: 8, offset: 91063},
+													pos: position{line: 2887, col: 8, offset: 91166},
 													expr: &anyMatcher{
-														line: 2884, col: 9, offset: 91064,
+														line: 2887, col: 9, offset: 91167,
 													},
 												},
 											},
@@ -40646,43 +40705,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1785, col: 5, offset: 57724},
+							pos:   position{line: 1788, col: 5, offset: 57827},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1785, col: 16, offset: 57735},
+								pos: position{line: 1788, col: 16, offset: 57838},
 								expr: &actionExpr{
-									pos: position{line: 1786, col: 9, offset: 57745},
+									pos: position{line: 1789, col: 9, offset: 57848},
 									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1786, col: 9, offset: 57745},
+										pos: position{line: 1789, col: 9, offset: 57848},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2882, col: 11, offset: 91049},
+												pos: position{line: 2885, col: 11, offset: 91152},
 												expr: &anyMatcher{
-													line: 2882, col: 13, offset: 91051,
+													line: 2885, col: 13, offset: 91154,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1787, col: 9, offset: 57760},
+												pos: position{line: 1790, col: 9, offset: 57863},
 												expr: &actionExpr{
-													pos: position{line: 677, col: 14, offset: 21489},
+													pos: position{line: 680, col: 14, offset: 21592},
 													run: (*parser).callonParagraph48,
 													expr: &seqExpr{
-														pos: position{line: 677, col: 14, offset: 21489},
+														pos: position{line: 680, col: 14, offset: 21592},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2882, col: 11, offset: 91049},
+																pos: position{line: 2885, col: 11, offset: 91152},
 																expr: &anyMatcher{
-																	line: 2882, col: 13, offset: 91051,
+																	line: 2885, col: 13, offset: 91154,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 677, col: 21, offset: 21496},
+																pos: position{line: 680, col: 21, offset: 21599},
 																expr: &actionExpr{
-																	pos: position{line: 2865, col: 10, offset: 90715},
+																	pos: position{line: 2868, col: 10, offset: 90818},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2865, col: 10, offset: 90715},
+																		pos:        position{line: 2868, col: 10, offset: 90818},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40691,28 +40750,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2887, col: 8, offset: 91113},
+																pos: position{line: 2890, col: 8, offset: 91216},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2874, col: 12, offset: 90886},
+																		pos: position{line: 2877, col: 12, offset: 90989},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2874, col: 13, offset: 90887},
+																			pos: position{line: 2877, col: 13, offset: 90990},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2874, col: 13, offset: 90887},
+																					pos:        position{line: 2877, col: 13, offset: 90990},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2874, col: 20, offset: 90894},
+																					pos:        position{line: 2877, col: 20, offset: 90997},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2874, col: 29, offset: 90903},
+																					pos:        position{line: 2877, col: 29, offset: 91006},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40721,9 +40780,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2884, col: 8, offset: 91063},
+																		pos: position{line: 2887, col: 8, offset: 91166},
 																		expr: &anyMatcher{
-																			line: 2884, col: 9, offset: 91064,
+																			line: 2887, col: 9, offset: 91167,
 																		},
 																	},
 																},
@@ -40733,49 +40792,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1788, col: 9, offset: 57779},
+												pos: position{line: 1791, col: 9, offset: 57882},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1788, col: 10, offset: 57780},
+													pos:  position{line: 1791, col: 10, offset: 57883},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1789, col: 9, offset: 57804},
+												pos:   position{line: 1792, col: 9, offset: 57907},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1789, col: 15, offset: 57810},
+													pos: position{line: 1792, col: 15, offset: 57913},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2475, col: 22, offset: 79658},
+															pos: position{line: 2478, col: 22, offset: 79761},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2475, col: 22, offset: 79658},
+																pos: position{line: 2478, col: 22, offset: 79761},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2480, col: 31, offset: 79879},
+																		pos:        position{line: 2483, col: 31, offset: 79982},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2480, col: 36, offset: 79884},
+																		pos: position{line: 2483, col: 36, offset: 79987},
 																		expr: &litMatcher{
-																			pos:        position{line: 2480, col: 37, offset: 79885},
+																			pos:        position{line: 2483, col: 37, offset: 79988},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2475, col: 49, offset: 79685},
+																		pos:   position{line: 2478, col: 49, offset: 79788},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2811, col: 13, offset: 89241},
+																			pos: position{line: 2814, col: 13, offset: 89344},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2811, col: 13, offset: 89241},
+																				pos: position{line: 2814, col: 13, offset: 89344},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2811, col: 13, offset: 89241},
+																					pos:        position{line: 2814, col: 13, offset: 89344},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40785,28 +40844,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2887, col: 8, offset: 91113},
+																		pos: position{line: 2890, col: 8, offset: 91216},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2874, col: 12, offset: 90886},
+																				pos: position{line: 2877, col: 12, offset: 90989},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 13, offset: 90887},
+																					pos: position{line: 2877, col: 13, offset: 90990},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 13, offset: 90887},
+																							pos:        position{line: 2877, col: 13, offset: 90990},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 20, offset: 90894},
+																							pos:        position{line: 2877, col: 20, offset: 90997},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 29, offset: 90903},
+																							pos:        position{line: 2877, col: 29, offset: 91006},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40815,9 +40874,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2884, col: 8, offset: 91063},
+																				pos: position{line: 2887, col: 8, offset: 91166},
 																				expr: &anyMatcher{
-																					line: 2884, col: 9, offset: 91064,
+																					line: 2887, col: 9, offset: 91167,
 																				},
 																			},
 																		},
@@ -40826,21 +40885,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1797, col: 5, offset: 58039},
+															pos: position{line: 1800, col: 5, offset: 58142},
 															run: (*parser).callonParagraph84,
 															expr: &seqExpr{
-																pos: position{line: 1797, col: 5, offset: 58039},
+																pos: position{line: 1800, col: 5, offset: 58142},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1797, col: 5, offset: 58039},
+																		pos:   position{line: 1800, col: 5, offset: 58142},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2815, col: 14, offset: 89308},
+																			pos: position{line: 2818, col: 14, offset: 89411},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2815, col: 14, offset: 89308},
+																				pos: position{line: 2818, col: 14, offset: 89411},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2815, col: 14, offset: 89308},
+																					pos:        position{line: 2818, col: 14, offset: 89411},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40850,32 +40909,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1798, col: 5, offset: 58063},
+																		pos: position{line: 1801, col: 5, offset: 58166},
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2887, col: 8, offset: 91113},
+																		pos: position{line: 2890, col: 8, offset: 91216},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2874, col: 12, offset: 90886},
+																				pos: position{line: 2877, col: 12, offset: 90989},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 13, offset: 90887},
+																					pos: position{line: 2877, col: 13, offset: 90990},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 13, offset: 90887},
+																							pos:        position{line: 2877, col: 13, offset: 90990},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 20, offset: 90894},
+																							pos:        position{line: 2877, col: 20, offset: 90997},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 29, offset: 90903},
+																							pos:        position{line: 2877, col: 29, offset: 91006},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40884,9 +40943,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2884, col: 8, offset: 91063},
+																				pos: position{line: 2887, col: 8, offset: 91166},
 																				expr: &anyMatcher{
-																					line: 2884, col: 9, offset: 91064,
+																					line: 2887, col: 9, offset: 91167,
 																				},
 																			},
 																		},
@@ -40908,16 +40967,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1808, col: 1, offset: 58549},
+			pos:  position{line: 1811, col: 1, offset: 58652},
 			expr: &choiceExpr{
-				pos: position{line: 1808, col: 15, offset: 58563},
+				pos: position{line: 1811, col: 15, offset: 58666},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1808, col: 15, offset: 58563},
+						pos:  position{line: 1811, col: 15, offset: 58666},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1808, col: 35, offset: 58583},
+						pos:  position{line: 1811, col: 35, offset: 58686},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -40925,65 +40984,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1810, col: 1, offset: 58604},
+			pos:  position{line: 1813, col: 1, offset: 58707},
 			expr: &actionExpr{
-				pos: position{line: 1811, col: 5, offset: 58629},
+				pos: position{line: 1814, col: 5, offset: 58732},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1811, col: 5, offset: 58629},
+					pos: position{line: 1814, col: 5, offset: 58732},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1811, col: 5, offset: 58629},
+							pos:   position{line: 1814, col: 5, offset: 58732},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1811, col: 16, offset: 58640},
+								pos: position{line: 1814, col: 16, offset: 58743},
 								expr: &actionExpr{
-									pos: position{line: 1811, col: 17, offset: 58641},
+									pos: position{line: 1814, col: 17, offset: 58744},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1811, col: 17, offset: 58641},
+										pos:  position{line: 1814, col: 17, offset: 58744},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1814, col: 5, offset: 58709},
+							pos: position{line: 1817, col: 5, offset: 58812},
 							expr: &litMatcher{
-								pos:        position{line: 1814, col: 7, offset: 58711},
+								pos:        position{line: 1817, col: 7, offset: 58814},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1815, col: 5, offset: 58720},
+							pos:   position{line: 1818, col: 5, offset: 58823},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1816, col: 9, offset: 58738},
+								pos: position{line: 1819, col: 9, offset: 58841},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1816, col: 9, offset: 58738},
+										pos:  position{line: 1819, col: 9, offset: 58841},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1817, col: 11, offset: 58765},
+										pos:  position{line: 1820, col: 11, offset: 58868},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1818, col: 11, offset: 58793},
+										pos:  position{line: 1821, col: 11, offset: 58896},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1819, col: 11, offset: 58824},
+										pos:  position{line: 1822, col: 11, offset: 58927},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1820, col: 11, offset: 58852},
+										pos:  position{line: 1823, col: 11, offset: 58955},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1821, col: 11, offset: 58883},
+										pos:  position{line: 1824, col: 11, offset: 58986},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -40995,36 +41054,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1826, col: 1, offset: 59003},
+			pos:  position{line: 1829, col: 1, offset: 59106},
 			expr: &actionExpr{
-				pos: position{line: 1827, col: 5, offset: 59045},
+				pos: position{line: 1830, col: 5, offset: 59148},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1827, col: 5, offset: 59045},
+					pos: position{line: 1830, col: 5, offset: 59148},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1827, col: 5, offset: 59045},
+							pos:   position{line: 1830, col: 5, offset: 59148},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1827, col: 16, offset: 59056},
+								pos: position{line: 1830, col: 16, offset: 59159},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1827, col: 17, offset: 59057},
+									pos:  position{line: 1830, col: 17, offset: 59160},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1828, col: 5, offset: 59082},
+							pos:   position{line: 1831, col: 5, offset: 59185},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1828, col: 14, offset: 59091},
+								pos: position{line: 1831, col: 14, offset: 59194},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1828, col: 14, offset: 59091},
+										pos:  position{line: 1831, col: 14, offset: 59194},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1828, col: 33, offset: 59110},
+										pos:  position{line: 1831, col: 33, offset: 59213},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -41036,32 +41095,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1836, col: 1, offset: 59341},
+			pos:  position{line: 1839, col: 1, offset: 59444},
 			expr: &choiceExpr{
-				pos: position{line: 1837, col: 5, offset: 59366},
+				pos: position{line: 1840, col: 5, offset: 59469},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1837, col: 5, offset: 59366},
+						pos:  position{line: 1840, col: 5, offset: 59469},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1838, col: 7, offset: 59393},
+						pos:  position{line: 1841, col: 7, offset: 59496},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1839, col: 7, offset: 59421},
+						pos:  position{line: 1842, col: 7, offset: 59524},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1840, col: 7, offset: 59453},
+						pos:  position{line: 1843, col: 7, offset: 59556},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1841, col: 7, offset: 59481},
+						pos:  position{line: 1844, col: 7, offset: 59584},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1842, col: 7, offset: 59502},
+						pos:  position{line: 1845, col: 7, offset: 59605},
 						name: "SuperscriptText",
 					},
 				},
@@ -41069,24 +41128,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1844, col: 1, offset: 59520},
+			pos:  position{line: 1847, col: 1, offset: 59623},
 			expr: &choiceExpr{
-				pos: position{line: 1845, col: 5, offset: 59545},
+				pos: position{line: 1848, col: 5, offset: 59648},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1845, col: 5, offset: 59545},
+						pos:  position{line: 1848, col: 5, offset: 59648},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1846, col: 7, offset: 59571},
+						pos:  position{line: 1849, col: 7, offset: 59674},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1847, col: 7, offset: 59599},
+						pos:  position{line: 1850, col: 7, offset: 59702},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1848, col: 7, offset: 59630},
+						pos:  position{line: 1851, col: 7, offset: 59733},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -41094,26 +41153,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1862, col: 1, offset: 59984},
+			pos:  position{line: 1865, col: 1, offset: 60087},
 			expr: &choiceExpr{
-				pos: position{line: 1863, col: 5, offset: 60010},
+				pos: position{line: 1866, col: 5, offset: 60113},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2764, col: 5, offset: 87957},
+						pos: position{line: 2767, col: 5, offset: 88060},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2764, col: 5, offset: 87957},
+							pos: position{line: 2767, col: 5, offset: 88060},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2764, col: 5, offset: 87957},
+									pos:   position{line: 2767, col: 5, offset: 88060},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2764, col: 11, offset: 87963},
+										pos: position{line: 2767, col: 11, offset: 88066},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2764, col: 11, offset: 87963},
+											pos: position{line: 2767, col: 11, offset: 88066},
 											expr: &charClassMatcher{
-												pos:        position{line: 2764, col: 11, offset: 87963},
+												pos:        position{line: 2767, col: 11, offset: 88066},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41123,36 +41182,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2767, col: 5, offset: 88021},
+									pos: position{line: 2770, col: 5, offset: 88124},
 									expr: &seqExpr{
-										pos: position{line: 2768, col: 9, offset: 88032},
+										pos: position{line: 2771, col: 9, offset: 88135},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2768, col: 9, offset: 88032},
+												pos:        position{line: 2771, col: 9, offset: 88135},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2769, col: 9, offset: 88081},
+												pos: position{line: 2772, col: 9, offset: 88184},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2773, col: 5, offset: 88161},
+									pos: position{line: 2776, col: 5, offset: 88264},
 									expr: &seqExpr{
-										pos: position{line: 2774, col: 9, offset: 88172},
+										pos: position{line: 2777, col: 9, offset: 88275},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2774, col: 9, offset: 88172},
+												pos:        position{line: 2777, col: 9, offset: 88275},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2774, col: 13, offset: 88176},
+												pos:        position{line: 2777, col: 13, offset: 88279},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41165,12 +41224,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2869, col: 11, offset: 90776},
+						pos: position{line: 2872, col: 11, offset: 90879},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2869, col: 11, offset: 90776},
+							pos: position{line: 2872, col: 11, offset: 90879},
 							expr: &charClassMatcher{
-								pos:        position{line: 2869, col: 11, offset: 90776},
+								pos:        position{line: 2872, col: 11, offset: 90879},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -41179,25 +41238,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1865, col: 7, offset: 60073},
+						pos:  position{line: 1868, col: 7, offset: 60176},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2493, col: 5, offset: 80375},
+						pos: position{line: 2496, col: 5, offset: 80478},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2493, col: 5, offset: 80375},
+							pos: position{line: 2496, col: 5, offset: 80478},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2493, col: 5, offset: 80375},
+									pos:        position{line: 2496, col: 5, offset: 80478},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2493, col: 10, offset: 80380},
+									pos: position{line: 2496, col: 10, offset: 80483},
 									expr: &charClassMatcher{
-										pos:        position{line: 2493, col: 11, offset: 80381},
+										pos:        position{line: 2496, col: 11, offset: 80484},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41208,29 +41267,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2499, col: 5, offset: 80573},
+						pos: position{line: 2502, col: 5, offset: 80676},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2499, col: 5, offset: 80573},
+							pos: position{line: 2502, col: 5, offset: 80676},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2499, col: 5, offset: 80573},
+									pos: position{line: 2502, col: 5, offset: 80676},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2502, col: 5, offset: 80644},
+									pos: position{line: 2505, col: 5, offset: 80747},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2506, col: 5, offset: 80769},
+									pos:        position{line: 2509, col: 5, offset: 80872},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2506, col: 9, offset: 80773},
+									pos: position{line: 2509, col: 9, offset: 80876},
 									expr: &charClassMatcher{
-										pos:        position{line: 2506, col: 10, offset: 80774},
+										pos:        position{line: 2509, col: 10, offset: 80877},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41241,27 +41300,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2782, col: 5, offset: 88369},
+						pos: position{line: 2785, col: 5, offset: 88472},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2783, col: 9, offset: 88379},
+							pos: position{line: 2786, col: 9, offset: 88482},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2783, col: 10, offset: 88380},
+									pos:        position{line: 2786, col: 10, offset: 88483},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2785, col: 13, offset: 88477},
+									pos: position{line: 2788, col: 13, offset: 88580},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2785, col: 13, offset: 88477},
+											pos: position{line: 2788, col: 13, offset: 88580},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2788, col: 13, offset: 88577},
+											pos:        position{line: 2791, col: 13, offset: 88680},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -41269,20 +41328,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2788, col: 19, offset: 88583},
+									pos:        position{line: 2791, col: 19, offset: 88686},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2791, col: 13, offset: 88621},
+									pos: position{line: 2794, col: 13, offset: 88724},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2791, col: 13, offset: 88621},
+											pos: position{line: 2794, col: 13, offset: 88724},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2794, col: 14, offset: 88714},
+											pos:        position{line: 2797, col: 14, offset: 88817},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -41291,18 +41350,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2796, col: 12, offset: 88758},
+									pos: position{line: 2799, col: 12, offset: 88861},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2796, col: 12, offset: 88758},
+											pos:        position{line: 2799, col: 12, offset: 88861},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2796, col: 16, offset: 88762},
+											pos: position{line: 2799, col: 16, offset: 88865},
 											expr: &litMatcher{
-												pos:        position{line: 2796, col: 17, offset: 88763},
+												pos:        position{line: 2799, col: 17, offset: 88866},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41314,35 +41373,35 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 636, col: 5, offset: 20109},
+						pos: position{line: 639, col: 5, offset: 20212},
 						run: (*parser).callonQuotedTextElement46,
 						expr: &seqExpr{
-							pos: position{line: 636, col: 5, offset: 20109},
+							pos: position{line: 639, col: 5, offset: 20212},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 636, col: 5, offset: 20109},
+									pos: position{line: 639, col: 5, offset: 20212},
 									run: (*parser).callonQuotedTextElement48,
 								},
 								&labeledExpr{
-									pos:   position{line: 639, col: 5, offset: 20181},
+									pos:   position{line: 642, col: 5, offset: 20284},
 									label: "element",
 									expr: &choiceExpr{
-										pos: position{line: 639, col: 14, offset: 20190},
+										pos: position{line: 642, col: 14, offset: 20293},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 645, col: 5, offset: 20319},
+												pos: position{line: 648, col: 5, offset: 20422},
 												run: (*parser).callonQuotedTextElement51,
 												expr: &seqExpr{
-													pos: position{line: 645, col: 5, offset: 20319},
+													pos: position{line: 648, col: 5, offset: 20422},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 645, col: 5, offset: 20319},
+															pos:        position{line: 648, col: 5, offset: 20422},
 															val:        "\\{",
 															ignoreCase: false,
 															want:       "\"\\\\{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 645, col: 13, offset: 20327},
+															pos:   position{line: 648, col: 13, offset: 20430},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
@@ -41374,7 +41433,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 645, col: 32, offset: 20346},
+															pos:        position{line: 648, col: 32, offset: 20449},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41383,19 +41442,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 652, col: 5, offset: 20587},
+												pos: position{line: 655, col: 5, offset: 20690},
 												run: (*parser).callonQuotedTextElement61,
 												expr: &seqExpr{
-													pos: position{line: 652, col: 5, offset: 20587},
+													pos: position{line: 655, col: 5, offset: 20690},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 652, col: 5, offset: 20587},
+															pos:        position{line: 655, col: 5, offset: 20690},
 															val:        "{",
 															ignoreCase: false,
 															want:       "\"{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 652, col: 9, offset: 20591},
+															pos:   position{line: 655, col: 9, offset: 20694},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
@@ -41427,7 +41486,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 652, col: 28, offset: 20610},
+															pos:        position{line: 655, col: 28, offset: 20713},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41436,19 +41495,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 658, col: 25, offset: 20791},
+												pos: position{line: 661, col: 25, offset: 20894},
 												run: (*parser).callonQuotedTextElement71,
 												expr: &seqExpr{
-													pos: position{line: 658, col: 25, offset: 20791},
+													pos: position{line: 661, col: 25, offset: 20894},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 658, col: 25, offset: 20791},
+															pos:        position{line: 661, col: 25, offset: 20894},
 															val:        "{counter:",
 															ignoreCase: false,
 															want:       "\"{counter:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 658, col: 37, offset: 20803},
+															pos:   position{line: 661, col: 37, offset: 20906},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
@@ -41480,33 +41539,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 658, col: 56, offset: 20822},
+															pos:   position{line: 661, col: 56, offset: 20925},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 658, col: 62, offset: 20828},
+																pos: position{line: 661, col: 62, offset: 20931},
 																expr: &actionExpr{
-																	pos: position{line: 666, col: 17, offset: 21123},
+																	pos: position{line: 669, col: 17, offset: 21226},
 																	run: (*parser).callonQuotedTextElement82,
 																	expr: &seqExpr{
-																		pos: position{line: 666, col: 17, offset: 21123},
+																		pos: position{line: 669, col: 17, offset: 21226},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 666, col: 17, offset: 21123},
+																				pos:        position{line: 669, col: 17, offset: 21226},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 666, col: 21, offset: 21127},
+																				pos:   position{line: 669, col: 21, offset: 21230},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 666, col: 28, offset: 21134},
+																					pos: position{line: 669, col: 28, offset: 21237},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 666, col: 28, offset: 21134},
+																							pos: position{line: 669, col: 28, offset: 21237},
 																							run: (*parser).callonQuotedTextElement87,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 666, col: 28, offset: 21134},
+																								pos:        position{line: 669, col: 28, offset: 21237},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -41514,12 +41573,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 668, col: 9, offset: 21188},
+																							pos: position{line: 671, col: 9, offset: 21291},
 																							run: (*parser).callonQuotedTextElement89,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 668, col: 9, offset: 21188},
+																								pos: position{line: 671, col: 9, offset: 21291},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 668, col: 9, offset: 21188},
+																									pos:        position{line: 671, col: 9, offset: 21291},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -41536,7 +41595,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 658, col: 78, offset: 20844},
+															pos:        position{line: 661, col: 78, offset: 20947},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41545,19 +41604,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 662, col: 25, offset: 20962},
+												pos: position{line: 665, col: 25, offset: 21065},
 												run: (*parser).callonQuotedTextElement93,
 												expr: &seqExpr{
-													pos: position{line: 662, col: 25, offset: 20962},
+													pos: position{line: 665, col: 25, offset: 21065},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 662, col: 25, offset: 20962},
+															pos:        position{line: 665, col: 25, offset: 21065},
 															val:        "{counter2:",
 															ignoreCase: false,
 															want:       "\"{counter2:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 662, col: 38, offset: 20975},
+															pos:   position{line: 665, col: 38, offset: 21078},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
@@ -41589,33 +41648,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 662, col: 57, offset: 20994},
+															pos:   position{line: 665, col: 57, offset: 21097},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 662, col: 63, offset: 21000},
+																pos: position{line: 665, col: 63, offset: 21103},
 																expr: &actionExpr{
-																	pos: position{line: 666, col: 17, offset: 21123},
+																	pos: position{line: 669, col: 17, offset: 21226},
 																	run: (*parser).callonQuotedTextElement104,
 																	expr: &seqExpr{
-																		pos: position{line: 666, col: 17, offset: 21123},
+																		pos: position{line: 669, col: 17, offset: 21226},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 666, col: 17, offset: 21123},
+																				pos:        position{line: 669, col: 17, offset: 21226},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 666, col: 21, offset: 21127},
+																				pos:   position{line: 669, col: 21, offset: 21230},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 666, col: 28, offset: 21134},
+																					pos: position{line: 669, col: 28, offset: 21237},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 666, col: 28, offset: 21134},
+																							pos: position{line: 669, col: 28, offset: 21237},
 																							run: (*parser).callonQuotedTextElement109,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 666, col: 28, offset: 21134},
+																								pos:        position{line: 669, col: 28, offset: 21237},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -41623,12 +41682,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 668, col: 9, offset: 21188},
+																							pos: position{line: 671, col: 9, offset: 21291},
 																							run: (*parser).callonQuotedTextElement111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 668, col: 9, offset: 21188},
+																								pos: position{line: 671, col: 9, offset: 21291},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 668, col: 9, offset: 21188},
+																									pos:        position{line: 671, col: 9, offset: 21291},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -41645,7 +41704,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 662, col: 79, offset: 21016},
+															pos:        position{line: 665, col: 79, offset: 21119},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41660,31 +41719,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2878, col: 18, offset: 90986},
+						pos: position{line: 2881, col: 18, offset: 91089},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2878, col: 18, offset: 90986},
+							pos: position{line: 2881, col: 18, offset: 91089},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2874, col: 12, offset: 90886},
+									pos: position{line: 2877, col: 12, offset: 90989},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2874, col: 13, offset: 90887},
+										pos: position{line: 2877, col: 13, offset: 90990},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2874, col: 13, offset: 90887},
+												pos:        position{line: 2877, col: 13, offset: 90990},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2874, col: 20, offset: 90894},
+												pos:        position{line: 2877, col: 20, offset: 90997},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2874, col: 29, offset: 90903},
+												pos:        position{line: 2877, col: 29, offset: 91006},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41693,27 +41752,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2878, col: 26, offset: 90994},
+									pos: position{line: 2881, col: 26, offset: 91097},
 									expr: &actionExpr{
-										pos: position{line: 2874, col: 12, offset: 90886},
+										pos: position{line: 2877, col: 12, offset: 90989},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2874, col: 13, offset: 90887},
+											pos: position{line: 2877, col: 13, offset: 90990},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2874, col: 13, offset: 90887},
+													pos:        position{line: 2877, col: 13, offset: 90990},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2874, col: 20, offset: 90894},
+													pos:        position{line: 2877, col: 20, offset: 90997},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2874, col: 29, offset: 90903},
+													pos:        position{line: 2877, col: 29, offset: 91006},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41726,31 +41785,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1870, col: 7, offset: 60240},
+						pos:  position{line: 1873, col: 7, offset: 60343},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1871, col: 7, offset: 60287},
+						pos:  position{line: 1874, col: 7, offset: 60390},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2462, col: 5, offset: 79204},
+						pos: position{line: 2465, col: 5, offset: 79307},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2462, col: 5, offset: 79204},
+							pos: position{line: 2465, col: 5, offset: 79307},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2462, col: 5, offset: 79204},
+									pos: position{line: 2465, col: 5, offset: 79307},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2465, col: 5, offset: 79280},
+									pos:   position{line: 2468, col: 5, offset: 79383},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2466, col: 9, offset: 79298},
+										pos: position{line: 2469, col: 9, offset: 79401},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2466, col: 10, offset: 79299},
+											pos:        position{line: 2469, col: 10, offset: 79402},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41762,27 +41821,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1210, col: 23, offset: 37374},
+						pos: position{line: 1213, col: 23, offset: 37477},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 1210, col: 23, offset: 37374},
+							pos: position{line: 1213, col: 23, offset: 37477},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1208, col: 32, offset: 37342},
+									pos:        position{line: 1211, col: 32, offset: 37445},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1210, col: 51, offset: 37402},
+									pos:   position{line: 1213, col: 51, offset: 37505},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1210, col: 56, offset: 37407},
+										pos: position{line: 1213, col: 56, offset: 37510},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1210, col: 56, offset: 37407},
+											pos: position{line: 1213, col: 56, offset: 37510},
 											expr: &charClassMatcher{
-												pos:        position{line: 1210, col: 56, offset: 37407},
+												pos:        position{line: 1213, col: 56, offset: 37510},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -41792,7 +41851,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1208, col: 32, offset: 37342},
+									pos:        position{line: 1211, col: 32, offset: 37445},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
@@ -41801,10 +41860,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2804, col: 12, offset: 89023},
+						pos: position{line: 2807, col: 12, offset: 89126},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &charClassMatcher{
-							pos:        position{line: 2804, col: 12, offset: 89023},
+							pos:        position{line: 2807, col: 12, offset: 89126},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41816,29 +41875,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1889, col: 1, offset: 60757},
+			pos:  position{line: 1892, col: 1, offset: 60860},
 			expr: &actionExpr{
-				pos: position{line: 1890, col: 5, offset: 60785},
+				pos: position{line: 1893, col: 5, offset: 60888},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1890, col: 5, offset: 60785},
+					pos: position{line: 1893, col: 5, offset: 60888},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1885, col: 38, offset: 60710},
+							pos:        position{line: 1888, col: 38, offset: 60813},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1891, col: 5, offset: 60824},
+							pos:   position{line: 1894, col: 5, offset: 60927},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1891, col: 15, offset: 60834},
+								pos:  position{line: 1894, col: 15, offset: 60937},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1887, col: 36, offset: 60751},
+							pos:        position{line: 1890, col: 36, offset: 60854},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -41849,44 +41908,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1896, col: 1, offset: 60994},
+			pos:  position{line: 1899, col: 1, offset: 61097},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1896, col: 32, offset: 61025},
+				pos: position{line: 1899, col: 32, offset: 61128},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1896, col: 32, offset: 61025},
+					pos:  position{line: 1899, col: 32, offset: 61128},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1898, col: 1, offset: 61056},
+			pos:  position{line: 1901, col: 1, offset: 61159},
 			expr: &actionExpr{
-				pos: position{line: 1899, col: 5, offset: 61091},
+				pos: position{line: 1902, col: 5, offset: 61194},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1899, col: 5, offset: 61091},
+					pos: position{line: 1902, col: 5, offset: 61194},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2882, col: 11, offset: 91049},
+							pos: position{line: 2885, col: 11, offset: 91152},
 							expr: &anyMatcher{
-								line: 2882, col: 13, offset: 91051,
+								line: 2885, col: 13, offset: 91154,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1900, col: 5, offset: 61102},
+							pos: position{line: 1903, col: 5, offset: 61205},
 							expr: &litMatcher{
-								pos:        position{line: 1887, col: 36, offset: 60751},
+								pos:        position{line: 1890, col: 36, offset: 60854},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1901, col: 5, offset: 61139},
+							pos:   position{line: 1904, col: 5, offset: 61242},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1901, col: 14, offset: 61148},
+								pos:  position{line: 1904, col: 14, offset: 61251},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41896,29 +41955,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1926, col: 1, offset: 61828},
+			pos:  position{line: 1929, col: 1, offset: 61931},
 			expr: &actionExpr{
-				pos: position{line: 1927, col: 5, offset: 61856},
+				pos: position{line: 1930, col: 5, offset: 61959},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1927, col: 5, offset: 61856},
+					pos: position{line: 1930, col: 5, offset: 61959},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1910, col: 5, offset: 61382},
+							pos:        position{line: 1913, col: 5, offset: 61485},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1911, col: 5, offset: 61391},
+							pos: position{line: 1914, col: 5, offset: 61494},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1915, col: 5, offset: 61509},
+							pos: position{line: 1918, col: 5, offset: 61612},
 							expr: &notExpr{
-								pos: position{line: 1915, col: 7, offset: 61511},
+								pos: position{line: 1918, col: 7, offset: 61614},
 								expr: &litMatcher{
-									pos:        position{line: 1915, col: 8, offset: 61512},
+									pos:        position{line: 1918, col: 8, offset: 61615},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41926,38 +41985,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1928, col: 5, offset: 61894},
+							pos:   position{line: 1931, col: 5, offset: 61997},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1928, col: 15, offset: 61904},
+								pos:  position{line: 1931, col: 15, offset: 62007},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1918, col: 5, offset: 61632},
+							pos:        position{line: 1921, col: 5, offset: 61735},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1919, col: 5, offset: 61641},
+							pos: position{line: 1922, col: 5, offset: 61744},
 							expr: &litMatcher{
-								pos:        position{line: 1919, col: 6, offset: 61642},
+								pos:        position{line: 1922, col: 6, offset: 61745},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1920, col: 5, offset: 61705},
+							pos: position{line: 1923, col: 5, offset: 61808},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1924, col: 5, offset: 61814},
+							pos: position{line: 1927, col: 5, offset: 61917},
 							expr: &notExpr{
-								pos: position{line: 1924, col: 7, offset: 61816},
+								pos: position{line: 1927, col: 7, offset: 61919},
 								expr: &charClassMatcher{
-									pos:        position{line: 2755, col: 13, offset: 87810},
+									pos:        position{line: 2758, col: 13, offset: 87913},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -41971,20 +42030,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1933, col: 1, offset: 62064},
+			pos:  position{line: 1936, col: 1, offset: 62167},
 			expr: &actionExpr{
-				pos: position{line: 1934, col: 5, offset: 62101},
+				pos: position{line: 1937, col: 5, offset: 62204},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1934, col: 5, offset: 62101},
+					pos: position{line: 1937, col: 5, offset: 62204},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1934, col: 5, offset: 62101},
+							pos: position{line: 1937, col: 5, offset: 62204},
 							expr: &actionExpr{
-								pos: position{line: 2865, col: 10, offset: 90715},
+								pos: position{line: 2868, col: 10, offset: 90818},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2865, col: 10, offset: 90715},
+									pos:        position{line: 2868, col: 10, offset: 90818},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -41993,18 +42052,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1935, col: 5, offset: 62140},
+							pos:   position{line: 1938, col: 5, offset: 62243},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1935, col: 14, offset: 62149},
+								pos: position{line: 1938, col: 14, offset: 62252},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1935, col: 15, offset: 62150},
+									pos:  position{line: 1938, col: 15, offset: 62253},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1936, col: 5, offset: 62184},
+							pos: position{line: 1939, col: 5, offset: 62287},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -42013,49 +42072,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1942, col: 1, offset: 62325},
+			pos:  position{line: 1945, col: 1, offset: 62428},
 			expr: &actionExpr{
-				pos: position{line: 1943, col: 5, offset: 62360},
+				pos: position{line: 1946, col: 5, offset: 62463},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1943, col: 5, offset: 62360},
+					pos: position{line: 1946, col: 5, offset: 62463},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2882, col: 11, offset: 91049},
+							pos: position{line: 2885, col: 11, offset: 91152},
 							expr: &anyMatcher{
-								line: 2882, col: 13, offset: 91051,
+								line: 2885, col: 13, offset: 91154,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1944, col: 5, offset: 62388},
+							pos: position{line: 1947, col: 5, offset: 62491},
 							expr: &seqExpr{
-								pos: position{line: 1918, col: 5, offset: 61632},
+								pos: position{line: 1921, col: 5, offset: 61735},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1918, col: 5, offset: 61632},
+										pos:        position{line: 1921, col: 5, offset: 61735},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1919, col: 5, offset: 61641},
+										pos: position{line: 1922, col: 5, offset: 61744},
 										expr: &litMatcher{
-											pos:        position{line: 1919, col: 6, offset: 61642},
+											pos:        position{line: 1922, col: 6, offset: 61745},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1920, col: 5, offset: 61705},
+										pos: position{line: 1923, col: 5, offset: 61808},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1924, col: 5, offset: 61814},
+										pos: position{line: 1927, col: 5, offset: 61917},
 										expr: &notExpr{
-											pos: position{line: 1924, col: 7, offset: 61816},
+											pos: position{line: 1927, col: 7, offset: 61919},
 											expr: &charClassMatcher{
-												pos:        position{line: 2755, col: 13, offset: 87810},
+												pos:        position{line: 2758, col: 13, offset: 87913},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42067,10 +42126,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1945, col: 5, offset: 62425},
+							pos:   position{line: 1948, col: 5, offset: 62528},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1945, col: 14, offset: 62434},
+								pos:  position{line: 1948, col: 14, offset: 62537},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42080,35 +42139,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1950, col: 1, offset: 62522},
+			pos:  position{line: 1953, col: 1, offset: 62625},
 			expr: &choiceExpr{
-				pos: position{line: 1952, col: 5, offset: 62583},
+				pos: position{line: 1955, col: 5, offset: 62686},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1952, col: 5, offset: 62583},
+						pos: position{line: 1955, col: 5, offset: 62686},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1952, col: 5, offset: 62583},
+							pos: position{line: 1955, col: 5, offset: 62686},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1952, col: 5, offset: 62583},
+									pos:   position{line: 1955, col: 5, offset: 62686},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1858, col: 25, offset: 59930},
+										pos: position{line: 1861, col: 25, offset: 60033},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1858, col: 25, offset: 59930},
+											pos: position{line: 1861, col: 25, offset: 60033},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1858, col: 25, offset: 59930},
+													pos:        position{line: 1861, col: 25, offset: 60033},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1858, col: 30, offset: 59935},
+													pos: position{line: 1861, col: 30, offset: 60038},
 													expr: &litMatcher{
-														pos:        position{line: 1858, col: 30, offset: 59935},
+														pos:        position{line: 1861, col: 30, offset: 60038},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42119,21 +42178,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1952, col: 40, offset: 62618},
+									pos:        position{line: 1955, col: 40, offset: 62721},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1952, col: 45, offset: 62623},
+									pos:   position{line: 1955, col: 45, offset: 62726},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1952, col: 55, offset: 62633},
+										pos:  position{line: 1955, col: 55, offset: 62736},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1952, col: 84, offset: 62662},
+									pos:        position{line: 1955, col: 84, offset: 62765},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -42142,21 +42201,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1956, col: 7, offset: 62826},
+						pos: position{line: 1959, col: 7, offset: 62929},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1956, col: 7, offset: 62826},
+							pos: position{line: 1959, col: 7, offset: 62929},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1956, col: 7, offset: 62826},
+									pos:   position{line: 1959, col: 7, offset: 62929},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1854, col: 25, offset: 59857},
+										pos: position{line: 1857, col: 25, offset: 59960},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1854, col: 25, offset: 59857},
+											pos: position{line: 1857, col: 25, offset: 59960},
 											expr: &litMatcher{
-												pos:        position{line: 1854, col: 25, offset: 59857},
+												pos:        position{line: 1857, col: 25, offset: 59960},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42165,21 +42224,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1956, col: 42, offset: 62861},
+									pos:        position{line: 1959, col: 42, offset: 62964},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1956, col: 47, offset: 62866},
+									pos:   position{line: 1959, col: 47, offset: 62969},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1956, col: 57, offset: 62876},
+										pos:  position{line: 1959, col: 57, offset: 62979},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1956, col: 86, offset: 62905},
+									pos:        position{line: 1959, col: 86, offset: 63008},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42188,21 +42247,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1961, col: 7, offset: 63107},
+						pos: position{line: 1964, col: 7, offset: 63210},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1961, col: 7, offset: 63107},
+							pos: position{line: 1964, col: 7, offset: 63210},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1961, col: 7, offset: 63107},
+									pos:   position{line: 1964, col: 7, offset: 63210},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1854, col: 25, offset: 59857},
+										pos: position{line: 1857, col: 25, offset: 59960},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1854, col: 25, offset: 59857},
+											pos: position{line: 1857, col: 25, offset: 59960},
 											expr: &litMatcher{
-												pos:        position{line: 1854, col: 25, offset: 59857},
+												pos:        position{line: 1857, col: 25, offset: 59960},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42211,21 +42270,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1961, col: 42, offset: 63142},
+									pos:        position{line: 1964, col: 42, offset: 63245},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1961, col: 46, offset: 63146},
+									pos:   position{line: 1964, col: 46, offset: 63249},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1961, col: 56, offset: 63156},
+										pos:  position{line: 1964, col: 56, offset: 63259},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1961, col: 85, offset: 63185},
+									pos:        position{line: 1964, col: 85, offset: 63288},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42238,29 +42297,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1978, col: 1, offset: 63665},
+			pos:  position{line: 1981, col: 1, offset: 63768},
 			expr: &actionExpr{
-				pos: position{line: 1979, col: 5, offset: 63695},
+				pos: position{line: 1982, col: 5, offset: 63798},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1979, col: 5, offset: 63695},
+					pos: position{line: 1982, col: 5, offset: 63798},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1974, col: 40, offset: 63616},
+							pos:        position{line: 1977, col: 40, offset: 63719},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1980, col: 5, offset: 63736},
+							pos:   position{line: 1983, col: 5, offset: 63839},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1980, col: 15, offset: 63746},
+								pos:  position{line: 1983, col: 15, offset: 63849},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1976, col: 38, offset: 63659},
+							pos:        position{line: 1979, col: 38, offset: 63762},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -42271,44 +42330,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1985, col: 1, offset: 63911},
+			pos:  position{line: 1988, col: 1, offset: 64014},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1985, col: 34, offset: 63944},
+				pos: position{line: 1988, col: 34, offset: 64047},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1985, col: 34, offset: 63944},
+					pos:  position{line: 1988, col: 34, offset: 64047},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1987, col: 1, offset: 63976},
+			pos:  position{line: 1990, col: 1, offset: 64079},
 			expr: &actionExpr{
-				pos: position{line: 1988, col: 5, offset: 64013},
+				pos: position{line: 1991, col: 5, offset: 64116},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1988, col: 5, offset: 64013},
+					pos: position{line: 1991, col: 5, offset: 64116},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2882, col: 11, offset: 91049},
+							pos: position{line: 2885, col: 11, offset: 91152},
 							expr: &anyMatcher{
-								line: 2882, col: 13, offset: 91051,
+								line: 2885, col: 13, offset: 91154,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1989, col: 5, offset: 64024},
+							pos: position{line: 1992, col: 5, offset: 64127},
 							expr: &litMatcher{
-								pos:        position{line: 1976, col: 38, offset: 63659},
+								pos:        position{line: 1979, col: 38, offset: 63762},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1990, col: 5, offset: 64063},
+							pos:   position{line: 1993, col: 5, offset: 64166},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1990, col: 14, offset: 64072},
+								pos:  position{line: 1993, col: 14, offset: 64175},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42318,29 +42377,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2016, col: 1, offset: 64756},
+			pos:  position{line: 2019, col: 1, offset: 64859},
 			expr: &actionExpr{
-				pos: position{line: 2017, col: 5, offset: 64786},
+				pos: position{line: 2020, col: 5, offset: 64889},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2017, col: 5, offset: 64786},
+					pos: position{line: 2020, col: 5, offset: 64889},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1999, col: 5, offset: 64314},
+							pos:        position{line: 2002, col: 5, offset: 64417},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2000, col: 5, offset: 64323},
+							pos: position{line: 2003, col: 5, offset: 64426},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2004, col: 5, offset: 64443},
+							pos: position{line: 2007, col: 5, offset: 64546},
 							expr: &notExpr{
-								pos: position{line: 2004, col: 7, offset: 64445},
+								pos: position{line: 2007, col: 7, offset: 64548},
 								expr: &litMatcher{
-									pos:        position{line: 2004, col: 8, offset: 64446},
+									pos:        position{line: 2007, col: 8, offset: 64549},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42348,38 +42407,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2018, col: 5, offset: 64826},
+							pos:   position{line: 2021, col: 5, offset: 64929},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2018, col: 15, offset: 64836},
+								pos:  position{line: 2021, col: 15, offset: 64939},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2008, col: 5, offset: 64556},
+							pos:        position{line: 2011, col: 5, offset: 64659},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2009, col: 5, offset: 64565},
+							pos: position{line: 2012, col: 5, offset: 64668},
 							expr: &litMatcher{
-								pos:        position{line: 2009, col: 6, offset: 64566},
+								pos:        position{line: 2012, col: 6, offset: 64669},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2010, col: 5, offset: 64631},
+							pos: position{line: 2013, col: 5, offset: 64734},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2014, col: 5, offset: 64742},
+							pos: position{line: 2017, col: 5, offset: 64845},
 							expr: &notExpr{
-								pos: position{line: 2014, col: 7, offset: 64744},
+								pos: position{line: 2017, col: 7, offset: 64847},
 								expr: &charClassMatcher{
-									pos:        position{line: 2755, col: 13, offset: 87810},
+									pos:        position{line: 2758, col: 13, offset: 87913},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42393,20 +42452,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2023, col: 1, offset: 65003},
+			pos:  position{line: 2026, col: 1, offset: 65106},
 			expr: &actionExpr{
-				pos: position{line: 2024, col: 5, offset: 65041},
+				pos: position{line: 2027, col: 5, offset: 65144},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2024, col: 5, offset: 65041},
+					pos: position{line: 2027, col: 5, offset: 65144},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2024, col: 5, offset: 65041},
+							pos: position{line: 2027, col: 5, offset: 65144},
 							expr: &actionExpr{
-								pos: position{line: 2865, col: 10, offset: 90715},
+								pos: position{line: 2868, col: 10, offset: 90818},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2865, col: 10, offset: 90715},
+									pos:        position{line: 2868, col: 10, offset: 90818},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42415,18 +42474,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2025, col: 5, offset: 65080},
+							pos:   position{line: 2028, col: 5, offset: 65183},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2025, col: 14, offset: 65089},
+								pos: position{line: 2028, col: 14, offset: 65192},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2025, col: 15, offset: 65090},
+									pos:  position{line: 2028, col: 15, offset: 65193},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2026, col: 5, offset: 65125},
+							pos: position{line: 2029, col: 5, offset: 65228},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -42435,49 +42494,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2032, col: 1, offset: 65266},
+			pos:  position{line: 2035, col: 1, offset: 65369},
 			expr: &actionExpr{
-				pos: position{line: 2033, col: 5, offset: 65303},
+				pos: position{line: 2036, col: 5, offset: 65406},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2033, col: 5, offset: 65303},
+					pos: position{line: 2036, col: 5, offset: 65406},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2882, col: 11, offset: 91049},
+							pos: position{line: 2885, col: 11, offset: 91152},
 							expr: &anyMatcher{
-								line: 2882, col: 13, offset: 91051,
+								line: 2885, col: 13, offset: 91154,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2034, col: 5, offset: 65314},
+							pos: position{line: 2037, col: 5, offset: 65417},
 							expr: &seqExpr{
-								pos: position{line: 2008, col: 5, offset: 64556},
+								pos: position{line: 2011, col: 5, offset: 64659},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2008, col: 5, offset: 64556},
+										pos:        position{line: 2011, col: 5, offset: 64659},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2009, col: 5, offset: 64565},
+										pos: position{line: 2012, col: 5, offset: 64668},
 										expr: &litMatcher{
-											pos:        position{line: 2009, col: 6, offset: 64566},
+											pos:        position{line: 2012, col: 6, offset: 64669},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2010, col: 5, offset: 64631},
+										pos: position{line: 2013, col: 5, offset: 64734},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2014, col: 5, offset: 64742},
+										pos: position{line: 2017, col: 5, offset: 64845},
 										expr: &notExpr{
-											pos: position{line: 2014, col: 7, offset: 64744},
+											pos: position{line: 2017, col: 7, offset: 64847},
 											expr: &charClassMatcher{
-												pos:        position{line: 2755, col: 13, offset: 87810},
+												pos:        position{line: 2758, col: 13, offset: 87913},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42489,10 +42548,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2035, col: 5, offset: 65353},
+							pos:   position{line: 2038, col: 5, offset: 65456},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2035, col: 14, offset: 65362},
+								pos:  position{line: 2038, col: 14, offset: 65465},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42502,35 +42561,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2040, col: 1, offset: 65450},
+			pos:  position{line: 2043, col: 1, offset: 65553},
 			expr: &choiceExpr{
-				pos: position{line: 2042, col: 5, offset: 65515},
+				pos: position{line: 2045, col: 5, offset: 65618},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2042, col: 5, offset: 65515},
+						pos: position{line: 2045, col: 5, offset: 65618},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2042, col: 5, offset: 65515},
+							pos: position{line: 2045, col: 5, offset: 65618},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2042, col: 5, offset: 65515},
+									pos:   position{line: 2045, col: 5, offset: 65618},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1858, col: 25, offset: 59930},
+										pos: position{line: 1861, col: 25, offset: 60033},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1858, col: 25, offset: 59930},
+											pos: position{line: 1861, col: 25, offset: 60033},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1858, col: 25, offset: 59930},
+													pos:        position{line: 1861, col: 25, offset: 60033},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1858, col: 30, offset: 59935},
+													pos: position{line: 1861, col: 30, offset: 60038},
 													expr: &litMatcher{
-														pos:        position{line: 1858, col: 30, offset: 59935},
+														pos:        position{line: 1861, col: 30, offset: 60038},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42541,21 +42600,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2042, col: 40, offset: 65550},
+									pos:        position{line: 2045, col: 40, offset: 65653},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2042, col: 45, offset: 65555},
+									pos:   position{line: 2045, col: 45, offset: 65658},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2042, col: 55, offset: 65565},
+										pos:  position{line: 2045, col: 55, offset: 65668},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2042, col: 86, offset: 65596},
+									pos:        position{line: 2045, col: 86, offset: 65699},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -42564,21 +42623,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2046, col: 7, offset: 65761},
+						pos: position{line: 2049, col: 7, offset: 65864},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2046, col: 7, offset: 65761},
+							pos: position{line: 2049, col: 7, offset: 65864},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2046, col: 7, offset: 65761},
+									pos:   position{line: 2049, col: 7, offset: 65864},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1854, col: 25, offset: 59857},
+										pos: position{line: 1857, col: 25, offset: 59960},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1854, col: 25, offset: 59857},
+											pos: position{line: 1857, col: 25, offset: 59960},
 											expr: &litMatcher{
-												pos:        position{line: 1854, col: 25, offset: 59857},
+												pos:        position{line: 1857, col: 25, offset: 59960},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42587,21 +42646,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2046, col: 42, offset: 65796},
+									pos:        position{line: 2049, col: 42, offset: 65899},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2046, col: 47, offset: 65801},
+									pos:   position{line: 2049, col: 47, offset: 65904},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2046, col: 57, offset: 65811},
+										pos:  position{line: 2049, col: 57, offset: 65914},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2046, col: 88, offset: 65842},
+									pos:        position{line: 2049, col: 88, offset: 65945},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42610,21 +42669,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2051, col: 7, offset: 66083},
+						pos: position{line: 2054, col: 7, offset: 66186},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2051, col: 7, offset: 66083},
+							pos: position{line: 2054, col: 7, offset: 66186},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2051, col: 7, offset: 66083},
+									pos:   position{line: 2054, col: 7, offset: 66186},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1854, col: 25, offset: 59857},
+										pos: position{line: 1857, col: 25, offset: 59960},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1854, col: 25, offset: 59857},
+											pos: position{line: 1857, col: 25, offset: 59960},
 											expr: &litMatcher{
-												pos:        position{line: 1854, col: 25, offset: 59857},
+												pos:        position{line: 1857, col: 25, offset: 59960},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42633,21 +42692,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2051, col: 42, offset: 66118},
+									pos:        position{line: 2054, col: 42, offset: 66221},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2051, col: 46, offset: 66122},
+									pos:   position{line: 2054, col: 46, offset: 66225},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2051, col: 56, offset: 66132},
+										pos:  position{line: 2054, col: 56, offset: 66235},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2051, col: 87, offset: 66163},
+									pos:        position{line: 2054, col: 87, offset: 66266},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42660,29 +42719,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2068, col: 1, offset: 66727},
+			pos:  position{line: 2071, col: 1, offset: 66830},
 			expr: &actionExpr{
-				pos: position{line: 2069, col: 5, offset: 66760},
+				pos: position{line: 2072, col: 5, offset: 66863},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2069, col: 5, offset: 66760},
+					pos: position{line: 2072, col: 5, offset: 66863},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2064, col: 43, offset: 66675},
+							pos:        position{line: 2067, col: 43, offset: 66778},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2070, col: 5, offset: 66804},
+							pos:   position{line: 2073, col: 5, offset: 66907},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2070, col: 15, offset: 66814},
+								pos:  position{line: 2073, col: 15, offset: 66917},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2066, col: 41, offset: 66721},
+							pos:        position{line: 2069, col: 41, offset: 66824},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -42693,44 +42752,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2075, col: 1, offset: 66989},
+			pos:  position{line: 2078, col: 1, offset: 67092},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2075, col: 37, offset: 67025},
+				pos: position{line: 2078, col: 37, offset: 67128},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2075, col: 37, offset: 67025},
+					pos:  position{line: 2078, col: 37, offset: 67128},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2077, col: 1, offset: 67092},
+			pos:  position{line: 2080, col: 1, offset: 67195},
 			expr: &actionExpr{
-				pos: position{line: 2078, col: 5, offset: 67132},
+				pos: position{line: 2081, col: 5, offset: 67235},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2078, col: 5, offset: 67132},
+					pos: position{line: 2081, col: 5, offset: 67235},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2882, col: 11, offset: 91049},
+							pos: position{line: 2885, col: 11, offset: 91152},
 							expr: &anyMatcher{
-								line: 2882, col: 13, offset: 91051,
+								line: 2885, col: 13, offset: 91154,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2079, col: 5, offset: 67143},
+							pos: position{line: 2082, col: 5, offset: 67246},
 							expr: &litMatcher{
-								pos:        position{line: 2066, col: 41, offset: 66721},
+								pos:        position{line: 2069, col: 41, offset: 66824},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2080, col: 5, offset: 67185},
+							pos:   position{line: 2083, col: 5, offset: 67288},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2080, col: 14, offset: 67194},
+								pos:  position{line: 2083, col: 14, offset: 67297},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42740,33 +42799,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2098, col: 1, offset: 67736},
+			pos:  position{line: 2101, col: 1, offset: 67839},
 			expr: &seqExpr{
-				pos: position{line: 2099, col: 5, offset: 67781},
+				pos: position{line: 2102, col: 5, offset: 67884},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2099, col: 5, offset: 67781},
+						pos: position{line: 2102, col: 5, offset: 67884},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2099, col: 6, offset: 67782},
+							pos:  position{line: 2102, col: 6, offset: 67885},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2100, col: 5, offset: 67801},
+						pos:        position{line: 2103, col: 5, offset: 67904},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2101, col: 5, offset: 67809},
+						pos: position{line: 2104, col: 5, offset: 67912},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2105, col: 5, offset: 67923},
+						pos: position{line: 2108, col: 5, offset: 68026},
 						expr: &notExpr{
-							pos: position{line: 2105, col: 7, offset: 67925},
+							pos: position{line: 2108, col: 7, offset: 68028},
 							expr: &charClassMatcher{
-								pos:        position{line: 2755, col: 13, offset: 87810},
+								pos:        position{line: 2758, col: 13, offset: 87913},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42779,29 +42838,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2108, col: 1, offset: 67942},
+			pos:  position{line: 2111, col: 1, offset: 68045},
 			expr: &actionExpr{
-				pos: position{line: 2109, col: 5, offset: 67975},
+				pos: position{line: 2112, col: 5, offset: 68078},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2109, col: 5, offset: 67975},
+					pos: position{line: 2112, col: 5, offset: 68078},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2091, col: 5, offset: 67538},
+							pos:        position{line: 2094, col: 5, offset: 67641},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2092, col: 5, offset: 67547},
+							pos: position{line: 2095, col: 5, offset: 67650},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2096, col: 5, offset: 67670},
+							pos: position{line: 2099, col: 5, offset: 67773},
 							expr: &notExpr{
-								pos: position{line: 2096, col: 7, offset: 67672},
+								pos: position{line: 2099, col: 7, offset: 67775},
 								expr: &litMatcher{
-									pos:        position{line: 2096, col: 8, offset: 67673},
+									pos:        position{line: 2099, col: 8, offset: 67776},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42809,15 +42868,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2110, col: 5, offset: 68019},
+							pos:   position{line: 2113, col: 5, offset: 68122},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2110, col: 15, offset: 68029},
+								pos:  position{line: 2113, col: 15, offset: 68132},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2111, col: 5, offset: 68068},
+							pos:  position{line: 2114, col: 5, offset: 68171},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -42826,20 +42885,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2115, col: 1, offset: 68205},
+			pos:  position{line: 2118, col: 1, offset: 68308},
 			expr: &actionExpr{
-				pos: position{line: 2116, col: 5, offset: 68246},
+				pos: position{line: 2119, col: 5, offset: 68349},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2116, col: 5, offset: 68246},
+					pos: position{line: 2119, col: 5, offset: 68349},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2116, col: 5, offset: 68246},
+							pos: position{line: 2119, col: 5, offset: 68349},
 							expr: &actionExpr{
-								pos: position{line: 2865, col: 10, offset: 90715},
+								pos: position{line: 2868, col: 10, offset: 90818},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2865, col: 10, offset: 90715},
+									pos:        position{line: 2868, col: 10, offset: 90818},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42848,18 +42907,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2117, col: 5, offset: 68285},
+							pos:   position{line: 2120, col: 5, offset: 68388},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2117, col: 14, offset: 68294},
+								pos: position{line: 2120, col: 14, offset: 68397},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2117, col: 15, offset: 68295},
+									pos:  position{line: 2120, col: 15, offset: 68398},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2118, col: 5, offset: 68333},
+							pos: position{line: 2121, col: 5, offset: 68436},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -42868,31 +42927,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2124, col: 1, offset: 68474},
+			pos:  position{line: 2127, col: 1, offset: 68577},
 			expr: &actionExpr{
-				pos: position{line: 2125, col: 5, offset: 68514},
+				pos: position{line: 2128, col: 5, offset: 68617},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2125, col: 5, offset: 68514},
+					pos: position{line: 2128, col: 5, offset: 68617},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2882, col: 11, offset: 91049},
+							pos: position{line: 2885, col: 11, offset: 91152},
 							expr: &anyMatcher{
-								line: 2882, col: 13, offset: 91051,
+								line: 2885, col: 13, offset: 91154,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2126, col: 5, offset: 68525},
+							pos: position{line: 2129, col: 5, offset: 68628},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2126, col: 6, offset: 68526},
+								pos:  position{line: 2129, col: 6, offset: 68629},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2127, col: 5, offset: 68567},
+							pos:   position{line: 2130, col: 5, offset: 68670},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2127, col: 14, offset: 68576},
+								pos:  position{line: 2130, col: 14, offset: 68679},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42902,35 +42961,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2132, col: 1, offset: 68664},
+			pos:  position{line: 2135, col: 1, offset: 68767},
 			expr: &choiceExpr{
-				pos: position{line: 2134, col: 5, offset: 68735},
+				pos: position{line: 2137, col: 5, offset: 68838},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2134, col: 5, offset: 68735},
+						pos: position{line: 2137, col: 5, offset: 68838},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2134, col: 5, offset: 68735},
+							pos: position{line: 2137, col: 5, offset: 68838},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2134, col: 5, offset: 68735},
+									pos:   position{line: 2137, col: 5, offset: 68838},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1858, col: 25, offset: 59930},
+										pos: position{line: 1861, col: 25, offset: 60033},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1858, col: 25, offset: 59930},
+											pos: position{line: 1861, col: 25, offset: 60033},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1858, col: 25, offset: 59930},
+													pos:        position{line: 1861, col: 25, offset: 60033},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1858, col: 30, offset: 59935},
+													pos: position{line: 1861, col: 30, offset: 60038},
 													expr: &litMatcher{
-														pos:        position{line: 1858, col: 30, offset: 59935},
+														pos:        position{line: 1861, col: 30, offset: 60038},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42941,21 +43000,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2134, col: 40, offset: 68770},
+									pos:        position{line: 2137, col: 40, offset: 68873},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2134, col: 45, offset: 68775},
+									pos:   position{line: 2137, col: 45, offset: 68878},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2134, col: 55, offset: 68785},
+										pos:  position{line: 2137, col: 55, offset: 68888},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2134, col: 89, offset: 68819},
+									pos:        position{line: 2137, col: 89, offset: 68922},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -42964,21 +43023,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2138, col: 7, offset: 68988},
+						pos: position{line: 2141, col: 7, offset: 69091},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2138, col: 7, offset: 68988},
+							pos: position{line: 2141, col: 7, offset: 69091},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2138, col: 7, offset: 68988},
+									pos:   position{line: 2141, col: 7, offset: 69091},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1854, col: 25, offset: 59857},
+										pos: position{line: 1857, col: 25, offset: 59960},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1854, col: 25, offset: 59857},
+											pos: position{line: 1857, col: 25, offset: 59960},
 											expr: &litMatcher{
-												pos:        position{line: 1854, col: 25, offset: 59857},
+												pos:        position{line: 1857, col: 25, offset: 59960},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42987,21 +43046,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2138, col: 42, offset: 69023},
+									pos:        position{line: 2141, col: 42, offset: 69126},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2138, col: 47, offset: 69028},
+									pos:   position{line: 2141, col: 47, offset: 69131},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2138, col: 57, offset: 69038},
+										pos:  position{line: 2141, col: 57, offset: 69141},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2138, col: 91, offset: 69072},
+									pos:        position{line: 2141, col: 91, offset: 69175},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43010,21 +43069,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2143, col: 7, offset: 69278},
+						pos: position{line: 2146, col: 7, offset: 69381},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2143, col: 7, offset: 69278},
+							pos: position{line: 2146, col: 7, offset: 69381},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2143, col: 7, offset: 69278},
+									pos:   position{line: 2146, col: 7, offset: 69381},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1854, col: 25, offset: 59857},
+										pos: position{line: 1857, col: 25, offset: 59960},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1854, col: 25, offset: 59857},
+											pos: position{line: 1857, col: 25, offset: 59960},
 											expr: &litMatcher{
-												pos:        position{line: 1854, col: 25, offset: 59857},
+												pos:        position{line: 1857, col: 25, offset: 59960},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43033,21 +43092,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2143, col: 42, offset: 69313},
+									pos:        position{line: 2146, col: 42, offset: 69416},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2143, col: 46, offset: 69317},
+									pos:   position{line: 2146, col: 46, offset: 69420},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2143, col: 56, offset: 69327},
+										pos:  position{line: 2146, col: 56, offset: 69430},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2143, col: 90, offset: 69361},
+									pos:        position{line: 2146, col: 90, offset: 69464},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43060,29 +43119,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2160, col: 1, offset: 69846},
+			pos:  position{line: 2163, col: 1, offset: 69949},
 			expr: &actionExpr{
-				pos: position{line: 2161, col: 5, offset: 69876},
+				pos: position{line: 2164, col: 5, offset: 69979},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2161, col: 5, offset: 69876},
+					pos: position{line: 2164, col: 5, offset: 69979},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2156, col: 40, offset: 69797},
+							pos:        position{line: 2159, col: 40, offset: 69900},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2162, col: 5, offset: 69917},
+							pos:   position{line: 2165, col: 5, offset: 70020},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2162, col: 15, offset: 69927},
+								pos:  position{line: 2165, col: 15, offset: 70030},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2158, col: 38, offset: 69840},
+							pos:        position{line: 2161, col: 38, offset: 69943},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -43093,44 +43152,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2167, col: 1, offset: 70093},
+			pos:  position{line: 2170, col: 1, offset: 70196},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2167, col: 34, offset: 70126},
+				pos: position{line: 2170, col: 34, offset: 70229},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2167, col: 34, offset: 70126},
+					pos:  position{line: 2170, col: 34, offset: 70229},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2169, col: 1, offset: 70157},
+			pos:  position{line: 2172, col: 1, offset: 70260},
 			expr: &actionExpr{
-				pos: position{line: 2170, col: 5, offset: 70226},
+				pos: position{line: 2173, col: 5, offset: 70329},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2170, col: 5, offset: 70226},
+					pos: position{line: 2173, col: 5, offset: 70329},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2882, col: 11, offset: 91049},
+							pos: position{line: 2885, col: 11, offset: 91152},
 							expr: &anyMatcher{
-								line: 2882, col: 13, offset: 91051,
+								line: 2885, col: 13, offset: 91154,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2171, col: 5, offset: 70237},
+							pos: position{line: 2174, col: 5, offset: 70340},
 							expr: &litMatcher{
-								pos:        position{line: 2158, col: 38, offset: 69840},
+								pos:        position{line: 2161, col: 38, offset: 69943},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2172, col: 5, offset: 70276},
+							pos:   position{line: 2175, col: 5, offset: 70379},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2172, col: 14, offset: 70285},
+								pos:  position{line: 2175, col: 14, offset: 70388},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43140,29 +43199,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2197, col: 1, offset: 70967},
+			pos:  position{line: 2200, col: 1, offset: 71070},
 			expr: &actionExpr{
-				pos: position{line: 2198, col: 5, offset: 70997},
+				pos: position{line: 2201, col: 5, offset: 71100},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2198, col: 5, offset: 70997},
+					pos: position{line: 2201, col: 5, offset: 71100},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2181, col: 5, offset: 70533},
+							pos:        position{line: 2184, col: 5, offset: 70636},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2182, col: 5, offset: 70542},
+							pos: position{line: 2185, col: 5, offset: 70645},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2186, col: 5, offset: 70662},
+							pos: position{line: 2189, col: 5, offset: 70765},
 							expr: &notExpr{
-								pos: position{line: 2186, col: 7, offset: 70664},
+								pos: position{line: 2189, col: 7, offset: 70767},
 								expr: &litMatcher{
-									pos:        position{line: 2186, col: 8, offset: 70665},
+									pos:        position{line: 2189, col: 8, offset: 70768},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43170,38 +43229,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2199, col: 5, offset: 71037},
+							pos:   position{line: 2202, col: 5, offset: 71140},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2199, col: 15, offset: 71047},
+								pos:  position{line: 2202, col: 15, offset: 71150},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2189, col: 5, offset: 70770},
+							pos:        position{line: 2192, col: 5, offset: 70873},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2190, col: 5, offset: 70778},
+							pos: position{line: 2193, col: 5, offset: 70881},
 							expr: &litMatcher{
-								pos:        position{line: 2190, col: 6, offset: 70779},
+								pos:        position{line: 2193, col: 6, offset: 70882},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2191, col: 5, offset: 70842},
+							pos: position{line: 2194, col: 5, offset: 70945},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2195, col: 5, offset: 70953},
+							pos: position{line: 2198, col: 5, offset: 71056},
 							expr: &notExpr{
-								pos: position{line: 2195, col: 7, offset: 70955},
+								pos: position{line: 2198, col: 7, offset: 71058},
 								expr: &charClassMatcher{
-									pos:        position{line: 2755, col: 13, offset: 87810},
+									pos:        position{line: 2758, col: 13, offset: 87913},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43215,20 +43274,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2204, col: 1, offset: 71214},
+			pos:  position{line: 2207, col: 1, offset: 71317},
 			expr: &actionExpr{
-				pos: position{line: 2205, col: 5, offset: 71252},
+				pos: position{line: 2208, col: 5, offset: 71355},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2205, col: 5, offset: 71252},
+					pos: position{line: 2208, col: 5, offset: 71355},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2205, col: 5, offset: 71252},
+							pos: position{line: 2208, col: 5, offset: 71355},
 							expr: &actionExpr{
-								pos: position{line: 2865, col: 10, offset: 90715},
+								pos: position{line: 2868, col: 10, offset: 90818},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2865, col: 10, offset: 90715},
+									pos:        position{line: 2868, col: 10, offset: 90818},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43237,18 +43296,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2206, col: 5, offset: 71291},
+							pos:   position{line: 2209, col: 5, offset: 71394},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2206, col: 14, offset: 71300},
+								pos: position{line: 2209, col: 14, offset: 71403},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2206, col: 15, offset: 71301},
+									pos:  position{line: 2209, col: 15, offset: 71404},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2207, col: 5, offset: 71337},
+							pos: position{line: 2210, col: 5, offset: 71440},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -43257,49 +43316,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2213, col: 1, offset: 71478},
+			pos:  position{line: 2216, col: 1, offset: 71581},
 			expr: &actionExpr{
-				pos: position{line: 2214, col: 5, offset: 71515},
+				pos: position{line: 2217, col: 5, offset: 71618},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2214, col: 5, offset: 71515},
+					pos: position{line: 2217, col: 5, offset: 71618},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2882, col: 11, offset: 91049},
+							pos: position{line: 2885, col: 11, offset: 91152},
 							expr: &anyMatcher{
-								line: 2882, col: 13, offset: 91051,
+								line: 2885, col: 13, offset: 91154,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2215, col: 5, offset: 71526},
+							pos: position{line: 2218, col: 5, offset: 71629},
 							expr: &seqExpr{
-								pos: position{line: 2189, col: 5, offset: 70770},
+								pos: position{line: 2192, col: 5, offset: 70873},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2189, col: 5, offset: 70770},
+										pos:        position{line: 2192, col: 5, offset: 70873},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2190, col: 5, offset: 70778},
+										pos: position{line: 2193, col: 5, offset: 70881},
 										expr: &litMatcher{
-											pos:        position{line: 2190, col: 6, offset: 70779},
+											pos:        position{line: 2193, col: 6, offset: 70882},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2191, col: 5, offset: 70842},
+										pos: position{line: 2194, col: 5, offset: 70945},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2195, col: 5, offset: 70953},
+										pos: position{line: 2198, col: 5, offset: 71056},
 										expr: &notExpr{
-											pos: position{line: 2195, col: 7, offset: 70955},
+											pos: position{line: 2198, col: 7, offset: 71058},
 											expr: &charClassMatcher{
-												pos:        position{line: 2755, col: 13, offset: 87810},
+												pos:        position{line: 2758, col: 13, offset: 87913},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43311,10 +43370,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2216, col: 5, offset: 71565},
+							pos:   position{line: 2219, col: 5, offset: 71668},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2216, col: 14, offset: 71574},
+								pos:  position{line: 2219, col: 14, offset: 71677},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43324,35 +43383,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2221, col: 1, offset: 71662},
+			pos:  position{line: 2224, col: 1, offset: 71765},
 			expr: &choiceExpr{
-				pos: position{line: 2223, col: 5, offset: 71726},
+				pos: position{line: 2226, col: 5, offset: 71829},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2223, col: 5, offset: 71726},
+						pos: position{line: 2226, col: 5, offset: 71829},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2223, col: 5, offset: 71726},
+							pos: position{line: 2226, col: 5, offset: 71829},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2223, col: 5, offset: 71726},
+									pos:   position{line: 2226, col: 5, offset: 71829},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1858, col: 25, offset: 59930},
+										pos: position{line: 1861, col: 25, offset: 60033},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1858, col: 25, offset: 59930},
+											pos: position{line: 1861, col: 25, offset: 60033},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1858, col: 25, offset: 59930},
+													pos:        position{line: 1861, col: 25, offset: 60033},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1858, col: 30, offset: 59935},
+													pos: position{line: 1861, col: 30, offset: 60038},
 													expr: &litMatcher{
-														pos:        position{line: 1858, col: 30, offset: 59935},
+														pos:        position{line: 1861, col: 30, offset: 60038},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43363,21 +43422,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2223, col: 40, offset: 71761},
+									pos:        position{line: 2226, col: 40, offset: 71864},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2223, col: 45, offset: 71766},
+									pos:   position{line: 2226, col: 45, offset: 71869},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2223, col: 55, offset: 71776},
+										pos:  position{line: 2226, col: 55, offset: 71879},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2223, col: 86, offset: 71807},
+									pos:        position{line: 2226, col: 86, offset: 71910},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -43386,21 +43445,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2227, col: 7, offset: 71972},
+						pos: position{line: 2230, col: 7, offset: 72075},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2227, col: 7, offset: 71972},
+							pos: position{line: 2230, col: 7, offset: 72075},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2227, col: 7, offset: 71972},
+									pos:   position{line: 2230, col: 7, offset: 72075},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1854, col: 25, offset: 59857},
+										pos: position{line: 1857, col: 25, offset: 59960},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1854, col: 25, offset: 59857},
+											pos: position{line: 1857, col: 25, offset: 59960},
 											expr: &litMatcher{
-												pos:        position{line: 1854, col: 25, offset: 59857},
+												pos:        position{line: 1857, col: 25, offset: 59960},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43409,21 +43468,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2227, col: 42, offset: 72007},
+									pos:        position{line: 2230, col: 42, offset: 72110},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2227, col: 47, offset: 72012},
+									pos:   position{line: 2230, col: 47, offset: 72115},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2227, col: 57, offset: 72022},
+										pos:  position{line: 2230, col: 57, offset: 72125},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2227, col: 88, offset: 72053},
+									pos:        position{line: 2230, col: 88, offset: 72156},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43432,21 +43491,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2232, col: 7, offset: 72256},
+						pos: position{line: 2235, col: 7, offset: 72359},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2232, col: 7, offset: 72256},
+							pos: position{line: 2235, col: 7, offset: 72359},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2232, col: 7, offset: 72256},
+									pos:   position{line: 2235, col: 7, offset: 72359},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1854, col: 25, offset: 59857},
+										pos: position{line: 1857, col: 25, offset: 59960},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1854, col: 25, offset: 59857},
+											pos: position{line: 1857, col: 25, offset: 59960},
 											expr: &litMatcher{
-												pos:        position{line: 1854, col: 25, offset: 59857},
+												pos:        position{line: 1857, col: 25, offset: 59960},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43455,21 +43514,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2232, col: 42, offset: 72291},
+									pos:        position{line: 2235, col: 42, offset: 72394},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2232, col: 46, offset: 72295},
+									pos:   position{line: 2235, col: 46, offset: 72398},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2232, col: 56, offset: 72305},
+										pos:  position{line: 2235, col: 56, offset: 72408},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2232, col: 87, offset: 72336},
+									pos:        position{line: 2235, col: 87, offset: 72439},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43482,29 +43541,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2239, col: 1, offset: 72603},
+			pos:  position{line: 2242, col: 1, offset: 72706},
 			expr: &actionExpr{
-				pos: position{line: 2240, col: 5, offset: 72625},
+				pos: position{line: 2243, col: 5, offset: 72728},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2240, col: 5, offset: 72625},
+					pos: position{line: 2243, col: 5, offset: 72728},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2246, col: 27, offset: 72840},
+							pos:        position{line: 2249, col: 27, offset: 72943},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2241, col: 5, offset: 72652},
+							pos:   position{line: 2244, col: 5, offset: 72755},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2241, col: 14, offset: 72661},
+								pos:  position{line: 2244, col: 14, offset: 72764},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2246, col: 27, offset: 72840},
+							pos:        position{line: 2249, col: 27, offset: 72943},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43515,21 +43574,21 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2248, col: 1, offset: 72845},
+			pos:  position{line: 2251, col: 1, offset: 72948},
 			expr: &choiceExpr{
-				pos: position{line: 2248, col: 25, offset: 72869},
+				pos: position{line: 2251, col: 25, offset: 72972},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2248, col: 25, offset: 72869},
+						pos:  position{line: 2251, col: 25, offset: 72972},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2250, col: 21, offset: 72921},
+						pos: position{line: 2253, col: 21, offset: 73024},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2250, col: 21, offset: 72921},
+							pos: position{line: 2253, col: 21, offset: 73024},
 							expr: &charClassMatcher{
-								pos:        position{line: 2250, col: 21, offset: 72921},
+								pos:        position{line: 2253, col: 21, offset: 73024},
 								val:        "[^\\r\\n ~]",
 								chars:      []rune{'\r', '\n', ' ', '~'},
 								ignoreCase: false,
@@ -43542,23 +43601,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2254, col: 1, offset: 73006},
+			pos:  position{line: 2257, col: 1, offset: 73109},
 			expr: &actionExpr{
-				pos: position{line: 2256, col: 5, offset: 73073},
+				pos: position{line: 2259, col: 5, offset: 73176},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2256, col: 5, offset: 73073},
+					pos: position{line: 2259, col: 5, offset: 73176},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2256, col: 5, offset: 73073},
+							pos:   position{line: 2259, col: 5, offset: 73176},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1854, col: 25, offset: 59857},
+								pos: position{line: 1857, col: 25, offset: 59960},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1854, col: 25, offset: 59857},
+									pos: position{line: 1857, col: 25, offset: 59960},
 									expr: &litMatcher{
-										pos:        position{line: 1854, col: 25, offset: 59857},
+										pos:        position{line: 1857, col: 25, offset: 59960},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43567,21 +43626,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2246, col: 27, offset: 72840},
+							pos:        position{line: 2249, col: 27, offset: 72943},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2258, col: 5, offset: 73141},
+							pos:   position{line: 2261, col: 5, offset: 73244},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2258, col: 14, offset: 73150},
+								pos:  position{line: 2261, col: 14, offset: 73253},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2246, col: 27, offset: 72840},
+							pos:        position{line: 2249, col: 27, offset: 72943},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43592,29 +43651,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2266, col: 1, offset: 73413},
+			pos:  position{line: 2269, col: 1, offset: 73516},
 			expr: &actionExpr{
-				pos: position{line: 2267, col: 5, offset: 73437},
+				pos: position{line: 2270, col: 5, offset: 73540},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2267, col: 5, offset: 73437},
+					pos: position{line: 2270, col: 5, offset: 73540},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2273, col: 29, offset: 73664},
+							pos:        position{line: 2276, col: 29, offset: 73767},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2268, col: 5, offset: 73467},
+							pos:   position{line: 2271, col: 5, offset: 73570},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2268, col: 14, offset: 73476},
+								pos:  position{line: 2271, col: 14, offset: 73579},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2273, col: 29, offset: 73664},
+							pos:        position{line: 2276, col: 29, offset: 73767},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43625,21 +43684,21 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2275, col: 1, offset: 73669},
+			pos:  position{line: 2278, col: 1, offset: 73772},
 			expr: &choiceExpr{
-				pos: position{line: 2275, col: 27, offset: 73695},
+				pos: position{line: 2278, col: 27, offset: 73798},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2275, col: 27, offset: 73695},
+						pos:  position{line: 2278, col: 27, offset: 73798},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2277, col: 23, offset: 73751},
+						pos: position{line: 2280, col: 23, offset: 73854},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2277, col: 23, offset: 73751},
+							pos: position{line: 2280, col: 23, offset: 73854},
 							expr: &charClassMatcher{
-								pos:        position{line: 2277, col: 23, offset: 73751},
+								pos:        position{line: 2280, col: 23, offset: 73854},
 								val:        "[^\\r\\n ^]",
 								chars:      []rune{'\r', '\n', ' ', '^'},
 								ignoreCase: false,
@@ -43652,23 +43711,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2281, col: 1, offset: 73836},
+			pos:  position{line: 2284, col: 1, offset: 73939},
 			expr: &actionExpr{
-				pos: position{line: 2283, col: 5, offset: 73908},
+				pos: position{line: 2286, col: 5, offset: 74011},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2283, col: 5, offset: 73908},
+					pos: position{line: 2286, col: 5, offset: 74011},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2283, col: 5, offset: 73908},
+							pos:   position{line: 2286, col: 5, offset: 74011},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1854, col: 25, offset: 59857},
+								pos: position{line: 1857, col: 25, offset: 59960},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1854, col: 25, offset: 59857},
+									pos: position{line: 1857, col: 25, offset: 59960},
 									expr: &litMatcher{
-										pos:        position{line: 1854, col: 25, offset: 59857},
+										pos:        position{line: 1857, col: 25, offset: 59960},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43677,21 +43736,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2273, col: 29, offset: 73664},
+							pos:        position{line: 2276, col: 29, offset: 73767},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2285, col: 5, offset: 73978},
+							pos:   position{line: 2288, col: 5, offset: 74081},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2285, col: 14, offset: 73987},
+								pos:  position{line: 2288, col: 14, offset: 74090},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2273, col: 29, offset: 73664},
+							pos:        position{line: 2276, col: 29, offset: 73767},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43702,27 +43761,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2294, col: 1, offset: 74456},
+			pos:  position{line: 2297, col: 1, offset: 74559},
 			expr: &actionExpr{
-				pos: position{line: 2295, col: 5, offset: 74472},
+				pos: position{line: 2298, col: 5, offset: 74575},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2295, col: 5, offset: 74472},
+					pos: position{line: 2298, col: 5, offset: 74575},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2295, col: 5, offset: 74472},
+							pos: position{line: 2298, col: 5, offset: 74575},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2298, col: 5, offset: 74535},
+							pos:   position{line: 2301, col: 5, offset: 74638},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2298, col: 12, offset: 74542},
+								pos: position{line: 2301, col: 12, offset: 74645},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2298, col: 12, offset: 74542},
+									pos: position{line: 2301, col: 12, offset: 74645},
 									expr: &litMatcher{
-										pos:        position{line: 2298, col: 13, offset: 74543},
+										pos:        position{line: 2301, col: 13, offset: 74646},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -43731,16 +43790,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2302, col: 5, offset: 74651},
+							pos: position{line: 2305, col: 5, offset: 74754},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2869, col: 11, offset: 90776},
+							pos: position{line: 2872, col: 11, offset: 90879},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2869, col: 11, offset: 90776},
+								pos: position{line: 2872, col: 11, offset: 90879},
 								expr: &charClassMatcher{
-									pos:        position{line: 2869, col: 11, offset: 90776},
+									pos:        position{line: 2872, col: 11, offset: 90879},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43749,36 +43808,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2306, col: 12, offset: 74810},
+							pos:   position{line: 2309, col: 12, offset: 74913},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2306, col: 19, offset: 74817},
+								pos:  position{line: 2309, col: 19, offset: 74920},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2887, col: 8, offset: 91113},
+							pos: position{line: 2890, col: 8, offset: 91216},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2874, col: 12, offset: 90886},
+									pos: position{line: 2877, col: 12, offset: 90989},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2874, col: 13, offset: 90887},
+										pos: position{line: 2877, col: 13, offset: 90990},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2874, col: 13, offset: 90887},
+												pos:        position{line: 2877, col: 13, offset: 90990},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2874, col: 20, offset: 90894},
+												pos:        position{line: 2877, col: 20, offset: 90997},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2874, col: 29, offset: 90903},
+												pos:        position{line: 2877, col: 29, offset: 91006},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43787,9 +43846,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2884, col: 8, offset: 91063},
+									pos: position{line: 2887, col: 8, offset: 91166},
 									expr: &anyMatcher{
-										line: 2884, col: 9, offset: 91064,
+										line: 2887, col: 9, offset: 91167,
 									},
 								},
 							},
@@ -43800,24 +43859,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2310, col: 1, offset: 74913},
+			pos:  position{line: 2313, col: 1, offset: 75016},
 			expr: &actionExpr{
-				pos: position{line: 2311, col: 5, offset: 74934},
+				pos: position{line: 2314, col: 5, offset: 75037},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2311, col: 5, offset: 74934},
+					pos: position{line: 2314, col: 5, offset: 75037},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2311, col: 5, offset: 74934},
+							pos: position{line: 2314, col: 5, offset: 75037},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2316, col: 5, offset: 75049},
+							pos:   position{line: 2319, col: 5, offset: 75152},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2316, col: 14, offset: 75058},
+								pos: position{line: 2319, col: 14, offset: 75161},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2316, col: 15, offset: 75059},
+									pos:  position{line: 2319, col: 15, offset: 75162},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43828,38 +43887,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2320, col: 1, offset: 75140},
+			pos:  position{line: 2323, col: 1, offset: 75243},
 			expr: &actionExpr{
-				pos: position{line: 2321, col: 5, offset: 75167},
+				pos: position{line: 2324, col: 5, offset: 75270},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2321, col: 5, offset: 75167},
+					pos: position{line: 2324, col: 5, offset: 75270},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2321, col: 5, offset: 75167},
+							pos: position{line: 2324, col: 5, offset: 75270},
 							expr: &choiceExpr{
-								pos: position{line: 2887, col: 8, offset: 91113},
+								pos: position{line: 2890, col: 8, offset: 91216},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2874, col: 12, offset: 90886},
+										pos: position{line: 2877, col: 12, offset: 90989},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2874, col: 13, offset: 90887},
+											pos: position{line: 2877, col: 13, offset: 90990},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2874, col: 13, offset: 90887},
+													pos:        position{line: 2877, col: 13, offset: 90990},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2874, col: 20, offset: 90894},
+													pos:        position{line: 2877, col: 20, offset: 90997},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2874, col: 29, offset: 90903},
+													pos:        position{line: 2877, col: 29, offset: 91006},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43868,36 +43927,36 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2884, col: 8, offset: 91063},
+										pos: position{line: 2887, col: 8, offset: 91166},
 										expr: &anyMatcher{
-											line: 2884, col: 9, offset: 91064,
+											line: 2887, col: 9, offset: 91167,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2322, col: 5, offset: 75176},
+							pos:   position{line: 2325, col: 5, offset: 75279},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2323, col: 9, offset: 75194},
+								pos: position{line: 2326, col: 9, offset: 75297},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2764, col: 5, offset: 87957},
+										pos: position{line: 2767, col: 5, offset: 88060},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2764, col: 5, offset: 87957},
+											pos: position{line: 2767, col: 5, offset: 88060},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2764, col: 5, offset: 87957},
+													pos:   position{line: 2767, col: 5, offset: 88060},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2764, col: 11, offset: 87963},
+														pos: position{line: 2767, col: 11, offset: 88066},
 														run: (*parser).callonSectionTitleElement17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2764, col: 11, offset: 87963},
+															pos: position{line: 2767, col: 11, offset: 88066},
 															expr: &charClassMatcher{
-																pos:        position{line: 2764, col: 11, offset: 87963},
+																pos:        position{line: 2767, col: 11, offset: 88066},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43907,36 +43966,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2767, col: 5, offset: 88021},
+													pos: position{line: 2770, col: 5, offset: 88124},
 													expr: &seqExpr{
-														pos: position{line: 2768, col: 9, offset: 88032},
+														pos: position{line: 2771, col: 9, offset: 88135},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2768, col: 9, offset: 88032},
+																pos:        position{line: 2771, col: 9, offset: 88135},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2769, col: 9, offset: 88081},
+																pos: position{line: 2772, col: 9, offset: 88184},
 																run: (*parser).callonSectionTitleElement23,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2773, col: 5, offset: 88161},
+													pos: position{line: 2776, col: 5, offset: 88264},
 													expr: &seqExpr{
-														pos: position{line: 2774, col: 9, offset: 88172},
+														pos: position{line: 2777, col: 9, offset: 88275},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2774, col: 9, offset: 88172},
+																pos:        position{line: 2777, col: 9, offset: 88275},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2774, col: 13, offset: 88176},
+																pos:        position{line: 2777, col: 13, offset: 88279},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -43949,12 +44008,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2869, col: 11, offset: 90776},
+										pos: position{line: 2872, col: 11, offset: 90879},
 										run: (*parser).callonSectionTitleElement28,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2869, col: 11, offset: 90776},
+											pos: position{line: 2872, col: 11, offset: 90879},
 											expr: &charClassMatcher{
-												pos:        position{line: 2869, col: 11, offset: 90776},
+												pos:        position{line: 2872, col: 11, offset: 90879},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -43963,21 +44022,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2493, col: 5, offset: 80375},
+										pos: position{line: 2496, col: 5, offset: 80478},
 										run: (*parser).callonSectionTitleElement31,
 										expr: &seqExpr{
-											pos: position{line: 2493, col: 5, offset: 80375},
+											pos: position{line: 2496, col: 5, offset: 80478},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2493, col: 5, offset: 80375},
+													pos:        position{line: 2496, col: 5, offset: 80478},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2493, col: 10, offset: 80380},
+													pos: position{line: 2496, col: 10, offset: 80483},
 													expr: &charClassMatcher{
-														pos:        position{line: 2493, col: 11, offset: 80381},
+														pos:        position{line: 2496, col: 11, offset: 80484},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -43988,29 +44047,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2499, col: 5, offset: 80573},
+										pos: position{line: 2502, col: 5, offset: 80676},
 										run: (*parser).callonSectionTitleElement36,
 										expr: &seqExpr{
-											pos: position{line: 2499, col: 5, offset: 80573},
+											pos: position{line: 2502, col: 5, offset: 80676},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2499, col: 5, offset: 80573},
+													pos: position{line: 2502, col: 5, offset: 80676},
 													run: (*parser).callonSectionTitleElement38,
 												},
 												&andCodeExpr{
-													pos: position{line: 2502, col: 5, offset: 80644},
+													pos: position{line: 2505, col: 5, offset: 80747},
 													run: (*parser).callonSectionTitleElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2506, col: 5, offset: 80769},
+													pos:        position{line: 2509, col: 5, offset: 80872},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2506, col: 9, offset: 80773},
+													pos: position{line: 2509, col: 9, offset: 80876},
 													expr: &charClassMatcher{
-														pos:        position{line: 2506, col: 10, offset: 80774},
+														pos:        position{line: 2509, col: 10, offset: 80877},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -44021,31 +44080,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2326, col: 11, offset: 75259},
+										pos:  position{line: 2329, col: 11, offset: 75362},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2782, col: 5, offset: 88369},
+										pos: position{line: 2785, col: 5, offset: 88472},
 										run: (*parser).callonSectionTitleElement44,
 										expr: &choiceExpr{
-											pos: position{line: 2783, col: 9, offset: 88379},
+											pos: position{line: 2786, col: 9, offset: 88482},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2783, col: 10, offset: 88380},
+													pos:        position{line: 2786, col: 10, offset: 88483},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2785, col: 13, offset: 88477},
+													pos: position{line: 2788, col: 13, offset: 88580},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2785, col: 13, offset: 88477},
+															pos: position{line: 2788, col: 13, offset: 88580},
 															run: (*parser).callonSectionTitleElement48,
 														},
 														&litMatcher{
-															pos:        position{line: 2788, col: 13, offset: 88577},
+															pos:        position{line: 2791, col: 13, offset: 88680},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -44053,20 +44112,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2788, col: 19, offset: 88583},
+													pos:        position{line: 2791, col: 19, offset: 88686},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2791, col: 13, offset: 88621},
+													pos: position{line: 2794, col: 13, offset: 88724},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2791, col: 13, offset: 88621},
+															pos: position{line: 2794, col: 13, offset: 88724},
 															run: (*parser).callonSectionTitleElement52,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2794, col: 14, offset: 88714},
+															pos:        position{line: 2797, col: 14, offset: 88817},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -44075,18 +44134,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2796, col: 12, offset: 88758},
+													pos: position{line: 2799, col: 12, offset: 88861},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2796, col: 12, offset: 88758},
+															pos:        position{line: 2799, col: 12, offset: 88861},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2796, col: 16, offset: 88762},
+															pos: position{line: 2799, col: 16, offset: 88865},
 															expr: &litMatcher{
-																pos:        position{line: 2796, col: 17, offset: 88763},
+																pos:        position{line: 2799, col: 17, offset: 88866},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -44098,35 +44157,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2328, col: 11, offset: 75332},
+										pos:  position{line: 2331, col: 11, offset: 75435},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2329, col: 11, offset: 75348},
+										pos:  position{line: 2332, col: 11, offset: 75451},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2330, col: 11, offset: 75376},
+										pos:  position{line: 2333, col: 11, offset: 75479},
 										name: "Link",
 									},
 									&actionExpr{
-										pos: position{line: 2462, col: 5, offset: 79204},
+										pos: position{line: 2465, col: 5, offset: 79307},
 										run: (*parser).callonSectionTitleElement61,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 5, offset: 79204},
+											pos: position{line: 2465, col: 5, offset: 79307},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2462, col: 5, offset: 79204},
+													pos: position{line: 2465, col: 5, offset: 79307},
 													run: (*parser).callonSectionTitleElement63,
 												},
 												&labeledExpr{
-													pos:   position{line: 2465, col: 5, offset: 79280},
+													pos:   position{line: 2468, col: 5, offset: 79383},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2466, col: 9, offset: 79298},
+														pos: position{line: 2469, col: 9, offset: 79401},
 														run: (*parser).callonSectionTitleElement65,
 														expr: &charClassMatcher{
-															pos:        position{line: 2466, col: 10, offset: 79299},
+															pos:        position{line: 2469, col: 10, offset: 79402},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -44138,39 +44197,39 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2332, col: 11, offset: 75461},
+										pos:  position{line: 2335, col: 11, offset: 75564},
 										name: "InlineIcon",
 									},
 									&actionExpr{
-										pos: position{line: 636, col: 5, offset: 20109},
+										pos: position{line: 639, col: 5, offset: 20212},
 										run: (*parser).callonSectionTitleElement68,
 										expr: &seqExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 639, col: 5, offset: 20212},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 636, col: 5, offset: 20109},
+													pos: position{line: 639, col: 5, offset: 20212},
 													run: (*parser).callonSectionTitleElement70,
 												},
 												&labeledExpr{
-													pos:   position{line: 639, col: 5, offset: 20181},
+													pos:   position{line: 642, col: 5, offset: 20284},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 639, col: 14, offset: 20190},
+														pos: position{line: 642, col: 14, offset: 20293},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 645, col: 5, offset: 20319},
+																pos: position{line: 648, col: 5, offset: 20422},
 																run: (*parser).callonSectionTitleElement73,
 																expr: &seqExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 648, col: 5, offset: 20422},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 645, col: 5, offset: 20319},
+																			pos:        position{line: 648, col: 5, offset: 20422},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 645, col: 13, offset: 20327},
+																			pos:   position{line: 648, col: 13, offset: 20430},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -44202,7 +44261,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 645, col: 32, offset: 20346},
+																			pos:        position{line: 648, col: 32, offset: 20449},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44211,19 +44270,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 652, col: 5, offset: 20587},
+																pos: position{line: 655, col: 5, offset: 20690},
 																run: (*parser).callonSectionTitleElement83,
 																expr: &seqExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 655, col: 5, offset: 20690},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 652, col: 5, offset: 20587},
+																			pos:        position{line: 655, col: 5, offset: 20690},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 652, col: 9, offset: 20591},
+																			pos:   position{line: 655, col: 9, offset: 20694},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -44255,7 +44314,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 652, col: 28, offset: 20610},
+																			pos:        position{line: 655, col: 28, offset: 20713},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44264,19 +44323,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 658, col: 25, offset: 20791},
+																pos: position{line: 661, col: 25, offset: 20894},
 																run: (*parser).callonSectionTitleElement93,
 																expr: &seqExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 661, col: 25, offset: 20894},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 658, col: 25, offset: 20791},
+																			pos:        position{line: 661, col: 25, offset: 20894},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 37, offset: 20803},
+																			pos:   position{line: 661, col: 37, offset: 20906},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -44308,33 +44367,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 658, col: 56, offset: 20822},
+																			pos:   position{line: 661, col: 56, offset: 20925},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 658, col: 62, offset: 20828},
+																				pos: position{line: 661, col: 62, offset: 20931},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 669, col: 17, offset: 21226},
 																					run: (*parser).callonSectionTitleElement104,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 669, col: 17, offset: 21226},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 669, col: 17, offset: 21226},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 669, col: 21, offset: 21230},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 669, col: 28, offset: 21237},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 669, col: 28, offset: 21237},
 																											run: (*parser).callonSectionTitleElement109,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 669, col: 28, offset: 21237},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -44342,12 +44401,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 671, col: 9, offset: 21291},
 																											run: (*parser).callonSectionTitleElement111,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 671, col: 9, offset: 21291},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 671, col: 9, offset: 21291},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44364,7 +44423,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 658, col: 78, offset: 20844},
+																			pos:        position{line: 661, col: 78, offset: 20947},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44373,19 +44432,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 25, offset: 20962},
+																pos: position{line: 665, col: 25, offset: 21065},
 																run: (*parser).callonSectionTitleElement115,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 665, col: 25, offset: 21065},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 25, offset: 20962},
+																			pos:        position{line: 665, col: 25, offset: 21065},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 38, offset: 20975},
+																			pos:   position{line: 665, col: 38, offset: 21078},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -44417,33 +44476,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 57, offset: 20994},
+																			pos:   position{line: 665, col: 57, offset: 21097},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 662, col: 63, offset: 21000},
+																				pos: position{line: 665, col: 63, offset: 21103},
 																				expr: &actionExpr{
-																					pos: position{line: 666, col: 17, offset: 21123},
+																					pos: position{line: 669, col: 17, offset: 21226},
 																					run: (*parser).callonSectionTitleElement126,
 																					expr: &seqExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 669, col: 17, offset: 21226},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 666, col: 17, offset: 21123},
+																								pos:        position{line: 669, col: 17, offset: 21226},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 666, col: 21, offset: 21127},
+																								pos:   position{line: 669, col: 21, offset: 21230},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 666, col: 28, offset: 21134},
+																									pos: position{line: 669, col: 28, offset: 21237},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 666, col: 28, offset: 21134},
+																											pos: position{line: 669, col: 28, offset: 21237},
 																											run: (*parser).callonSectionTitleElement131,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 666, col: 28, offset: 21134},
+																												pos:        position{line: 669, col: 28, offset: 21237},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -44451,12 +44510,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 9, offset: 21188},
+																											pos: position{line: 671, col: 9, offset: 21291},
 																											run: (*parser).callonSectionTitleElement133,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 671, col: 9, offset: 21291},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 668, col: 9, offset: 21188},
+																													pos:        position{line: 671, col: 9, offset: 21291},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44473,7 +44532,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 79, offset: 21016},
+																			pos:        position{line: 665, col: 79, offset: 21119},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -44488,27 +44547,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1210, col: 23, offset: 37374},
+										pos: position{line: 1213, col: 23, offset: 37477},
 										run: (*parser).callonSectionTitleElement137,
 										expr: &seqExpr{
-											pos: position{line: 1210, col: 23, offset: 37374},
+											pos: position{line: 1213, col: 23, offset: 37477},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1208, col: 32, offset: 37342},
+													pos:        position{line: 1211, col: 32, offset: 37445},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1210, col: 51, offset: 37402},
+													pos:   position{line: 1213, col: 51, offset: 37505},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1210, col: 56, offset: 37407},
+														pos: position{line: 1213, col: 56, offset: 37510},
 														run: (*parser).callonSectionTitleElement141,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1210, col: 56, offset: 37407},
+															pos: position{line: 1213, col: 56, offset: 37510},
 															expr: &charClassMatcher{
-																pos:        position{line: 1210, col: 56, offset: 37407},
+																pos:        position{line: 1213, col: 56, offset: 37510},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -44518,7 +44577,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1208, col: 32, offset: 37342},
+													pos:        position{line: 1211, col: 32, offset: 37445},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -44527,17 +44586,17 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2345, col: 5, offset: 75914},
+										pos: position{line: 2348, col: 5, offset: 76017},
 										run: (*parser).callonSectionTitleElement145,
 										expr: &seqExpr{
-											pos: position{line: 2345, col: 5, offset: 75914},
+											pos: position{line: 2348, col: 5, offset: 76017},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2345, col: 5, offset: 75914},
+													pos: position{line: 2348, col: 5, offset: 76017},
 													run: (*parser).callonSectionTitleElement147,
 												},
 												&labeledExpr{
-													pos:   position{line: 2348, col: 5, offset: 75969},
+													pos:   position{line: 2351, col: 5, offset: 76072},
 													label: "id",
 													expr: &actionExpr{
 														pos: position{line: 404, col: 5, offset: 12337},
@@ -44580,27 +44639,27 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 1210, col: 23, offset: 37374},
+																							pos: position{line: 1213, col: 23, offset: 37477},
 																							run: (*parser).callonSectionTitleElement160,
 																							expr: &seqExpr{
-																								pos: position{line: 1210, col: 23, offset: 37374},
+																								pos: position{line: 1213, col: 23, offset: 37477},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 1208, col: 32, offset: 37342},
+																										pos:        position{line: 1211, col: 32, offset: 37445},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1210, col: 51, offset: 37402},
+																										pos:   position{line: 1213, col: 51, offset: 37505},
 																										label: "ref",
 																										expr: &actionExpr{
-																											pos: position{line: 1210, col: 56, offset: 37407},
+																											pos: position{line: 1213, col: 56, offset: 37510},
 																											run: (*parser).callonSectionTitleElement164,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1210, col: 56, offset: 37407},
+																												pos: position{line: 1213, col: 56, offset: 37510},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1210, col: 56, offset: 37407},
+																													pos:        position{line: 1213, col: 56, offset: 37510},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -44610,7 +44669,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1208, col: 32, offset: 37342},
+																										pos:        position{line: 1211, col: 32, offset: 37445},
 																										val:        "�",
 																										ignoreCase: false,
 																										want:       "\"�\"",
@@ -44619,35 +44678,35 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 636, col: 5, offset: 20109},
+																							pos: position{line: 639, col: 5, offset: 20212},
 																							run: (*parser).callonSectionTitleElement168,
 																							expr: &seqExpr{
-																								pos: position{line: 636, col: 5, offset: 20109},
+																								pos: position{line: 639, col: 5, offset: 20212},
 																								exprs: []interface{}{
 																									&andCodeExpr{
-																										pos: position{line: 636, col: 5, offset: 20109},
+																										pos: position{line: 639, col: 5, offset: 20212},
 																										run: (*parser).callonSectionTitleElement170,
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 639, col: 5, offset: 20181},
+																										pos:   position{line: 642, col: 5, offset: 20284},
 																										label: "element",
 																										expr: &choiceExpr{
-																											pos: position{line: 639, col: 14, offset: 20190},
+																											pos: position{line: 642, col: 14, offset: 20293},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 645, col: 5, offset: 20319},
+																													pos: position{line: 648, col: 5, offset: 20422},
 																													run: (*parser).callonSectionTitleElement173,
 																													expr: &seqExpr{
-																														pos: position{line: 645, col: 5, offset: 20319},
+																														pos: position{line: 648, col: 5, offset: 20422},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 645, col: 5, offset: 20319},
+																																pos:        position{line: 648, col: 5, offset: 20422},
 																																val:        "\\{",
 																																ignoreCase: false,
 																																want:       "\"\\\\{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 645, col: 13, offset: 20327},
+																																pos:   position{line: 648, col: 13, offset: 20430},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9736},
@@ -44679,7 +44738,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 645, col: 32, offset: 20346},
+																																pos:        position{line: 648, col: 32, offset: 20449},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44688,19 +44747,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 652, col: 5, offset: 20587},
+																													pos: position{line: 655, col: 5, offset: 20690},
 																													run: (*parser).callonSectionTitleElement183,
 																													expr: &seqExpr{
-																														pos: position{line: 652, col: 5, offset: 20587},
+																														pos: position{line: 655, col: 5, offset: 20690},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 652, col: 5, offset: 20587},
+																																pos:        position{line: 655, col: 5, offset: 20690},
 																																val:        "{",
 																																ignoreCase: false,
 																																want:       "\"{\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 652, col: 9, offset: 20591},
+																																pos:   position{line: 655, col: 9, offset: 20694},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9736},
@@ -44732,7 +44791,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 652, col: 28, offset: 20610},
+																																pos:        position{line: 655, col: 28, offset: 20713},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44741,19 +44800,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 658, col: 25, offset: 20791},
+																													pos: position{line: 661, col: 25, offset: 20894},
 																													run: (*parser).callonSectionTitleElement193,
 																													expr: &seqExpr{
-																														pos: position{line: 658, col: 25, offset: 20791},
+																														pos: position{line: 661, col: 25, offset: 20894},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 658, col: 25, offset: 20791},
+																																pos:        position{line: 661, col: 25, offset: 20894},
 																																val:        "{counter:",
 																																ignoreCase: false,
 																																want:       "\"{counter:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 658, col: 37, offset: 20803},
+																																pos:   position{line: 661, col: 37, offset: 20906},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9736},
@@ -44785,33 +44844,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 658, col: 56, offset: 20822},
+																																pos:   position{line: 661, col: 56, offset: 20925},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 658, col: 62, offset: 20828},
+																																	pos: position{line: 661, col: 62, offset: 20931},
 																																	expr: &actionExpr{
-																																		pos: position{line: 666, col: 17, offset: 21123},
+																																		pos: position{line: 669, col: 17, offset: 21226},
 																																		run: (*parser).callonSectionTitleElement204,
 																																		expr: &seqExpr{
-																																			pos: position{line: 666, col: 17, offset: 21123},
+																																			pos: position{line: 669, col: 17, offset: 21226},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 666, col: 17, offset: 21123},
+																																					pos:        position{line: 669, col: 17, offset: 21226},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 666, col: 21, offset: 21127},
+																																					pos:   position{line: 669, col: 21, offset: 21230},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 666, col: 28, offset: 21134},
+																																						pos: position{line: 669, col: 28, offset: 21237},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 666, col: 28, offset: 21134},
+																																								pos: position{line: 669, col: 28, offset: 21237},
 																																								run: (*parser).callonSectionTitleElement209,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 666, col: 28, offset: 21134},
+																																									pos:        position{line: 669, col: 28, offset: 21237},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -44819,12 +44878,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 668, col: 9, offset: 21188},
+																																								pos: position{line: 671, col: 9, offset: 21291},
 																																								run: (*parser).callonSectionTitleElement211,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 668, col: 9, offset: 21188},
+																																									pos: position{line: 671, col: 9, offset: 21291},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 668, col: 9, offset: 21188},
+																																										pos:        position{line: 671, col: 9, offset: 21291},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -44841,7 +44900,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 658, col: 78, offset: 20844},
+																																pos:        position{line: 661, col: 78, offset: 20947},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44850,19 +44909,19 @@ var g = &grammar{
 																													},
 																												},
 																												&actionExpr{
-																													pos: position{line: 662, col: 25, offset: 20962},
+																													pos: position{line: 665, col: 25, offset: 21065},
 																													run: (*parser).callonSectionTitleElement215,
 																													expr: &seqExpr{
-																														pos: position{line: 662, col: 25, offset: 20962},
+																														pos: position{line: 665, col: 25, offset: 21065},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 662, col: 25, offset: 20962},
+																																pos:        position{line: 665, col: 25, offset: 21065},
 																																val:        "{counter2:",
 																																ignoreCase: false,
 																																want:       "\"{counter2:\"",
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 662, col: 38, offset: 20975},
+																																pos:   position{line: 665, col: 38, offset: 21078},
 																																label: "name",
 																																expr: &actionExpr{
 																																	pos: position{line: 318, col: 18, offset: 9736},
@@ -44894,33 +44953,33 @@ var g = &grammar{
 																																},
 																															},
 																															&labeledExpr{
-																																pos:   position{line: 662, col: 57, offset: 20994},
+																																pos:   position{line: 665, col: 57, offset: 21097},
 																																label: "start",
 																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 662, col: 63, offset: 21000},
+																																	pos: position{line: 665, col: 63, offset: 21103},
 																																	expr: &actionExpr{
-																																		pos: position{line: 666, col: 17, offset: 21123},
+																																		pos: position{line: 669, col: 17, offset: 21226},
 																																		run: (*parser).callonSectionTitleElement226,
 																																		expr: &seqExpr{
-																																			pos: position{line: 666, col: 17, offset: 21123},
+																																			pos: position{line: 669, col: 17, offset: 21226},
 																																			exprs: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 666, col: 17, offset: 21123},
+																																					pos:        position{line: 669, col: 17, offset: 21226},
 																																					val:        ":",
 																																					ignoreCase: false,
 																																					want:       "\":\"",
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 666, col: 21, offset: 21127},
+																																					pos:   position{line: 669, col: 21, offset: 21230},
 																																					label: "start",
 																																					expr: &choiceExpr{
-																																						pos: position{line: 666, col: 28, offset: 21134},
+																																						pos: position{line: 669, col: 28, offset: 21237},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 666, col: 28, offset: 21134},
+																																								pos: position{line: 669, col: 28, offset: 21237},
 																																								run: (*parser).callonSectionTitleElement231,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 666, col: 28, offset: 21134},
+																																									pos:        position{line: 669, col: 28, offset: 21237},
 																																									val:        "[A-Za-z]",
 																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																									ignoreCase: false,
@@ -44928,12 +44987,12 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&actionExpr{
-																																								pos: position{line: 668, col: 9, offset: 21188},
+																																								pos: position{line: 671, col: 9, offset: 21291},
 																																								run: (*parser).callonSectionTitleElement233,
 																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 668, col: 9, offset: 21188},
+																																									pos: position{line: 671, col: 9, offset: 21291},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 668, col: 9, offset: 21188},
+																																										pos:        position{line: 671, col: 9, offset: 21291},
 																																										val:        "[0-9]",
 																																										ranges:     []rune{'0', '9'},
 																																										ignoreCase: false,
@@ -44950,7 +45009,7 @@ var g = &grammar{
 																																},
 																															},
 																															&litMatcher{
-																																pos:        position{line: 662, col: 79, offset: 21016},
+																																pos:        position{line: 665, col: 79, offset: 21119},
 																																val:        "}",
 																																ignoreCase: false,
 																																want:       "\"}\"",
@@ -44991,12 +45050,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2348, col: 26, offset: 75990},
+													pos: position{line: 2351, col: 26, offset: 76093},
 													expr: &actionExpr{
-														pos: position{line: 2865, col: 10, offset: 90715},
+														pos: position{line: 2868, col: 10, offset: 90818},
 														run: (*parser).callonSectionTitleElement241,
 														expr: &charClassMatcher{
-															pos:        position{line: 2865, col: 10, offset: 90715},
+															pos:        position{line: 2868, col: 10, offset: 90818},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -45005,30 +45064,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 2348, col: 33, offset: 75997},
+													pos: position{line: 2351, col: 33, offset: 76100},
 													expr: &choiceExpr{
-														pos: position{line: 2887, col: 8, offset: 91113},
+														pos: position{line: 2890, col: 8, offset: 91216},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2874, col: 12, offset: 90886},
+																pos: position{line: 2877, col: 12, offset: 90989},
 																run: (*parser).callonSectionTitleElement245,
 																expr: &choiceExpr{
-																	pos: position{line: 2874, col: 13, offset: 90887},
+																	pos: position{line: 2877, col: 13, offset: 90990},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 13, offset: 90887},
+																			pos:        position{line: 2877, col: 13, offset: 90990},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 20, offset: 90894},
+																			pos:        position{line: 2877, col: 20, offset: 90997},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2874, col: 29, offset: 90903},
+																			pos:        position{line: 2877, col: 29, offset: 91006},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -45037,9 +45096,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2884, col: 8, offset: 91063},
+																pos: position{line: 2887, col: 8, offset: 91166},
 																expr: &anyMatcher{
-																	line: 2884, col: 9, offset: 91064,
+																	line: 2887, col: 9, offset: 91167,
 																},
 															},
 														},
@@ -45049,27 +45108,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1265, col: 5, offset: 39134},
+										pos: position{line: 1268, col: 5, offset: 39237},
 										run: (*parser).callonSectionTitleElement252,
 										expr: &seqExpr{
-											pos: position{line: 1265, col: 5, offset: 39134},
+											pos: position{line: 1268, col: 5, offset: 39237},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1265, col: 5, offset: 39134},
+													pos:        position{line: 1268, col: 5, offset: 39237},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1265, col: 14, offset: 39143},
+													pos:   position{line: 1268, col: 14, offset: 39246},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2850, col: 7, offset: 90367},
+														pos: position{line: 2853, col: 7, offset: 90470},
 														run: (*parser).callonSectionTitleElement256,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2850, col: 7, offset: 90367},
+															pos: position{line: 2853, col: 7, offset: 90470},
 															expr: &charClassMatcher{
-																pos:        position{line: 2850, col: 7, offset: 90367},
+																pos:        position{line: 2853, col: 7, offset: 90470},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45079,7 +45138,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1265, col: 22, offset: 39151},
+													pos:        position{line: 1268, col: 22, offset: 39254},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45088,27 +45147,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1270, col: 5, offset: 39270},
+										pos: position{line: 1273, col: 5, offset: 39373},
 										run: (*parser).callonSectionTitleElement260,
 										expr: &seqExpr{
-											pos: position{line: 1270, col: 5, offset: 39270},
+											pos: position{line: 1273, col: 5, offset: 39373},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1270, col: 5, offset: 39270},
+													pos:        position{line: 1273, col: 5, offset: 39373},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1270, col: 10, offset: 39275},
+													pos:   position{line: 1273, col: 10, offset: 39378},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2850, col: 7, offset: 90367},
+														pos: position{line: 2853, col: 7, offset: 90470},
 														run: (*parser).callonSectionTitleElement264,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2850, col: 7, offset: 90367},
+															pos: position{line: 2853, col: 7, offset: 90470},
 															expr: &charClassMatcher{
-																pos:        position{line: 2850, col: 7, offset: 90367},
+																pos:        position{line: 2853, col: 7, offset: 90470},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -45118,7 +45177,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1270, col: 18, offset: 39283},
+													pos:        position{line: 1273, col: 18, offset: 39386},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -45127,14 +45186,14 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2337, col: 11, offset: 75715},
+										pos:  position{line: 2340, col: 11, offset: 75818},
 										name: "InlineFootnote",
 									},
 									&actionExpr{
-										pos: position{line: 2804, col: 12, offset: 89023},
+										pos: position{line: 2807, col: 12, offset: 89126},
 										run: (*parser).callonSectionTitleElement269,
 										expr: &charClassMatcher{
-											pos:        position{line: 2804, col: 12, offset: 89023},
+											pos:        position{line: 2807, col: 12, offset: 89126},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -45150,52 +45209,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2358, col: 1, offset: 76259},
+			pos:  position{line: 2361, col: 1, offset: 76362},
 			expr: &actionExpr{
-				pos: position{line: 2359, col: 5, offset: 76346},
+				pos: position{line: 2362, col: 5, offset: 76449},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2359, col: 5, offset: 76346},
+					pos: position{line: 2362, col: 5, offset: 76449},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2359, col: 5, offset: 76346},
+							pos:   position{line: 2362, col: 5, offset: 76449},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2359, col: 14, offset: 76355},
+								pos: position{line: 2362, col: 14, offset: 76458},
 								expr: &actionExpr{
-									pos: position{line: 2361, col: 9, offset: 76381},
+									pos: position{line: 2364, col: 9, offset: 76484},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2361, col: 9, offset: 76381},
+										pos: position{line: 2364, col: 9, offset: 76484},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2882, col: 11, offset: 91049},
+												pos: position{line: 2885, col: 11, offset: 91152},
 												expr: &anyMatcher{
-													line: 2882, col: 13, offset: 91051,
+													line: 2885, col: 13, offset: 91154,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2362, col: 9, offset: 76396},
+												pos:   position{line: 2365, col: 9, offset: 76499},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2363, col: 13, offset: 76418},
+													pos: position{line: 2366, col: 13, offset: 76521},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2764, col: 5, offset: 87957},
+															pos: position{line: 2767, col: 5, offset: 88060},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2764, col: 5, offset: 87957},
+																pos: position{line: 2767, col: 5, offset: 88060},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2764, col: 5, offset: 87957},
+																		pos:   position{line: 2767, col: 5, offset: 88060},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2764, col: 11, offset: 87963},
+																			pos: position{line: 2767, col: 11, offset: 88066},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2764, col: 11, offset: 87963},
+																				pos: position{line: 2767, col: 11, offset: 88066},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2764, col: 11, offset: 87963},
+																					pos:        position{line: 2767, col: 11, offset: 88066},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45205,36 +45264,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2767, col: 5, offset: 88021},
+																		pos: position{line: 2770, col: 5, offset: 88124},
 																		expr: &seqExpr{
-																			pos: position{line: 2768, col: 9, offset: 88032},
+																			pos: position{line: 2771, col: 9, offset: 88135},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2768, col: 9, offset: 88032},
+																					pos:        position{line: 2771, col: 9, offset: 88135},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2769, col: 9, offset: 88081},
+																					pos: position{line: 2772, col: 9, offset: 88184},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2773, col: 5, offset: 88161},
+																		pos: position{line: 2776, col: 5, offset: 88264},
 																		expr: &seqExpr{
-																			pos: position{line: 2774, col: 9, offset: 88172},
+																			pos: position{line: 2777, col: 9, offset: 88275},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2774, col: 9, offset: 88172},
+																					pos:        position{line: 2777, col: 9, offset: 88275},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2774, col: 13, offset: 88176},
+																					pos:        position{line: 2777, col: 13, offset: 88279},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45247,12 +45306,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2869, col: 11, offset: 90776},
+															pos: position{line: 2872, col: 11, offset: 90879},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2869, col: 11, offset: 90776},
+																pos: position{line: 2872, col: 11, offset: 90879},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2869, col: 11, offset: 90776},
+																	pos:        position{line: 2872, col: 11, offset: 90879},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45261,25 +45320,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2365, col: 15, offset: 76464},
+															pos:  position{line: 2368, col: 15, offset: 76567},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2493, col: 5, offset: 80375},
+															pos: position{line: 2496, col: 5, offset: 80478},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2493, col: 5, offset: 80375},
+																pos: position{line: 2496, col: 5, offset: 80478},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2493, col: 5, offset: 80375},
+																		pos:        position{line: 2496, col: 5, offset: 80478},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2493, col: 10, offset: 80380},
+																		pos: position{line: 2496, col: 10, offset: 80483},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2493, col: 11, offset: 80381},
+																			pos:        position{line: 2496, col: 11, offset: 80484},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45290,29 +45349,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2499, col: 5, offset: 80573},
+															pos: position{line: 2502, col: 5, offset: 80676},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2499, col: 5, offset: 80573},
+																pos: position{line: 2502, col: 5, offset: 80676},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2499, col: 5, offset: 80573},
+																		pos: position{line: 2502, col: 5, offset: 80676},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2502, col: 5, offset: 80644},
+																		pos: position{line: 2505, col: 5, offset: 80747},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2506, col: 5, offset: 80769},
+																		pos:        position{line: 2509, col: 5, offset: 80872},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2506, col: 9, offset: 80773},
+																		pos: position{line: 2509, col: 9, offset: 80876},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2506, col: 10, offset: 80774},
+																			pos:        position{line: 2509, col: 10, offset: 80877},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45323,27 +45382,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2782, col: 5, offset: 88369},
+															pos: position{line: 2785, col: 5, offset: 88472},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2783, col: 9, offset: 88379},
+																pos: position{line: 2786, col: 9, offset: 88482},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2783, col: 10, offset: 88380},
+																		pos:        position{line: 2786, col: 10, offset: 88483},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2785, col: 13, offset: 88477},
+																		pos: position{line: 2788, col: 13, offset: 88580},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2785, col: 13, offset: 88477},
+																				pos: position{line: 2788, col: 13, offset: 88580},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2788, col: 13, offset: 88577},
+																				pos:        position{line: 2791, col: 13, offset: 88680},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45351,20 +45410,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2788, col: 19, offset: 88583},
+																		pos:        position{line: 2791, col: 19, offset: 88686},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2791, col: 13, offset: 88621},
+																		pos: position{line: 2794, col: 13, offset: 88724},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2791, col: 13, offset: 88621},
+																				pos: position{line: 2794, col: 13, offset: 88724},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2794, col: 14, offset: 88714},
+																				pos:        position{line: 2797, col: 14, offset: 88817},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45373,18 +45432,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2796, col: 12, offset: 88758},
+																		pos: position{line: 2799, col: 12, offset: 88861},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2796, col: 12, offset: 88758},
+																				pos:        position{line: 2799, col: 12, offset: 88861},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2796, col: 16, offset: 88762},
+																				pos: position{line: 2799, col: 16, offset: 88865},
 																				expr: &litMatcher{
-																					pos:        position{line: 2796, col: 17, offset: 88763},
+																					pos:        position{line: 2799, col: 17, offset: 88866},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45396,25 +45455,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2874, col: 12, offset: 90886},
+															pos: position{line: 2877, col: 12, offset: 90989},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2874, col: 13, offset: 90887},
+																pos: position{line: 2877, col: 13, offset: 90990},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 13, offset: 90887},
+																		pos:        position{line: 2877, col: 13, offset: 90990},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 20, offset: 90894},
+																		pos:        position{line: 2877, col: 20, offset: 90997},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2874, col: 29, offset: 90903},
+																		pos:        position{line: 2877, col: 29, offset: 91006},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45423,35 +45482,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 636, col: 5, offset: 20109},
+															pos: position{line: 639, col: 5, offset: 20212},
 															run: (*parser).callonNormalGroup60,
 															expr: &seqExpr{
-																pos: position{line: 636, col: 5, offset: 20109},
+																pos: position{line: 639, col: 5, offset: 20212},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 636, col: 5, offset: 20109},
+																		pos: position{line: 639, col: 5, offset: 20212},
 																		run: (*parser).callonNormalGroup62,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 639, col: 5, offset: 20181},
+																		pos:   position{line: 642, col: 5, offset: 20284},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 639, col: 14, offset: 20190},
+																			pos: position{line: 642, col: 14, offset: 20293},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 645, col: 5, offset: 20319},
+																					pos: position{line: 648, col: 5, offset: 20422},
 																					run: (*parser).callonNormalGroup65,
 																					expr: &seqExpr{
-																						pos: position{line: 645, col: 5, offset: 20319},
+																						pos: position{line: 648, col: 5, offset: 20422},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 645, col: 5, offset: 20319},
+																								pos:        position{line: 648, col: 5, offset: 20422},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 645, col: 13, offset: 20327},
+																								pos:   position{line: 648, col: 13, offset: 20430},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -45483,7 +45542,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 645, col: 32, offset: 20346},
+																								pos:        position{line: 648, col: 32, offset: 20449},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45492,19 +45551,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 652, col: 5, offset: 20587},
+																					pos: position{line: 655, col: 5, offset: 20690},
 																					run: (*parser).callonNormalGroup75,
 																					expr: &seqExpr{
-																						pos: position{line: 652, col: 5, offset: 20587},
+																						pos: position{line: 655, col: 5, offset: 20690},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 652, col: 5, offset: 20587},
+																								pos:        position{line: 655, col: 5, offset: 20690},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 652, col: 9, offset: 20591},
+																								pos:   position{line: 655, col: 9, offset: 20694},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -45536,7 +45595,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 652, col: 28, offset: 20610},
+																								pos:        position{line: 655, col: 28, offset: 20713},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45545,19 +45604,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 658, col: 25, offset: 20791},
+																					pos: position{line: 661, col: 25, offset: 20894},
 																					run: (*parser).callonNormalGroup85,
 																					expr: &seqExpr{
-																						pos: position{line: 658, col: 25, offset: 20791},
+																						pos: position{line: 661, col: 25, offset: 20894},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 658, col: 25, offset: 20791},
+																								pos:        position{line: 661, col: 25, offset: 20894},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 37, offset: 20803},
+																								pos:   position{line: 661, col: 37, offset: 20906},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -45589,33 +45648,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 658, col: 56, offset: 20822},
+																								pos:   position{line: 661, col: 56, offset: 20925},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 658, col: 62, offset: 20828},
+																									pos: position{line: 661, col: 62, offset: 20931},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21123},
+																										pos: position{line: 669, col: 17, offset: 21226},
 																										run: (*parser).callonNormalGroup96,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21123},
+																											pos: position{line: 669, col: 17, offset: 21226},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21123},
+																													pos:        position{line: 669, col: 17, offset: 21226},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21127},
+																													pos:   position{line: 669, col: 21, offset: 21230},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 669, col: 28, offset: 21237},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 669, col: 28, offset: 21237},
 																																run: (*parser).callonNormalGroup101,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21134},
+																																	pos:        position{line: 669, col: 28, offset: 21237},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -45623,12 +45682,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21188},
+																																pos: position{line: 671, col: 9, offset: 21291},
 																																run: (*parser).callonNormalGroup103,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21188},
+																																	pos: position{line: 671, col: 9, offset: 21291},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21188},
+																																		pos:        position{line: 671, col: 9, offset: 21291},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -45645,7 +45704,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 658, col: 78, offset: 20844},
+																								pos:        position{line: 661, col: 78, offset: 20947},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45654,19 +45713,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 662, col: 25, offset: 20962},
+																					pos: position{line: 665, col: 25, offset: 21065},
 																					run: (*parser).callonNormalGroup107,
 																					expr: &seqExpr{
-																						pos: position{line: 662, col: 25, offset: 20962},
+																						pos: position{line: 665, col: 25, offset: 21065},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 662, col: 25, offset: 20962},
+																								pos:        position{line: 665, col: 25, offset: 21065},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 38, offset: 20975},
+																								pos:   position{line: 665, col: 38, offset: 21078},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -45698,33 +45757,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 57, offset: 20994},
+																								pos:   position{line: 665, col: 57, offset: 21097},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 662, col: 63, offset: 21000},
+																									pos: position{line: 665, col: 63, offset: 21103},
 																									expr: &actionExpr{
-																										pos: position{line: 666, col: 17, offset: 21123},
+																										pos: position{line: 669, col: 17, offset: 21226},
 																										run: (*parser).callonNormalGroup118,
 																										expr: &seqExpr{
-																											pos: position{line: 666, col: 17, offset: 21123},
+																											pos: position{line: 669, col: 17, offset: 21226},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 666, col: 17, offset: 21123},
+																													pos:        position{line: 669, col: 17, offset: 21226},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 666, col: 21, offset: 21127},
+																													pos:   position{line: 669, col: 21, offset: 21230},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 666, col: 28, offset: 21134},
+																														pos: position{line: 669, col: 28, offset: 21237},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 666, col: 28, offset: 21134},
+																																pos: position{line: 669, col: 28, offset: 21237},
 																																run: (*parser).callonNormalGroup123,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 666, col: 28, offset: 21134},
+																																	pos:        position{line: 669, col: 28, offset: 21237},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -45732,12 +45791,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 668, col: 9, offset: 21188},
+																																pos: position{line: 671, col: 9, offset: 21291},
 																																run: (*parser).callonNormalGroup125,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 668, col: 9, offset: 21188},
+																																	pos: position{line: 671, col: 9, offset: 21291},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 668, col: 9, offset: 21188},
+																																		pos:        position{line: 671, col: 9, offset: 21291},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -45754,7 +45813,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 662, col: 79, offset: 21016},
+																								pos:        position{line: 665, col: 79, offset: 21119},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45769,35 +45828,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2370, col: 15, offset: 76631},
+															pos:  position{line: 2373, col: 15, offset: 76734},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2371, col: 15, offset: 76651},
+															pos:  position{line: 2374, col: 15, offset: 76754},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2372, col: 15, offset: 76740},
+															pos:  position{line: 2375, col: 15, offset: 76843},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2462, col: 5, offset: 79204},
+															pos: position{line: 2465, col: 5, offset: 79307},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2462, col: 5, offset: 79204},
+																pos: position{line: 2465, col: 5, offset: 79307},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2462, col: 5, offset: 79204},
+																		pos: position{line: 2465, col: 5, offset: 79307},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2465, col: 5, offset: 79280},
+																		pos:   position{line: 2468, col: 5, offset: 79383},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2466, col: 9, offset: 79298},
+																			pos: position{line: 2469, col: 9, offset: 79401},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2466, col: 10, offset: 79299},
+																				pos:        position{line: 2469, col: 10, offset: 79402},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -45809,32 +45868,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1218, col: 5, offset: 37820},
+															pos: position{line: 1221, col: 5, offset: 37923},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 1218, col: 5, offset: 37820},
+																pos: position{line: 1221, col: 5, offset: 37923},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1218, col: 5, offset: 37820},
+																		pos: position{line: 1221, col: 5, offset: 37923},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1221, col: 5, offset: 37896},
+																		pos:        position{line: 1224, col: 5, offset: 37999},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1222, col: 5, offset: 37904},
+																		pos: position{line: 1225, col: 5, offset: 38007},
 																		run: (*parser).callonNormalGroup142,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1226, col: 5, offset: 37991},
+																		pos: position{line: 1229, col: 5, offset: 38094},
 																		expr: &actionExpr{
-																			pos: position{line: 2865, col: 10, offset: 90715},
+																			pos: position{line: 2868, col: 10, offset: 90818},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 10, offset: 90715},
+																				pos:        position{line: 2868, col: 10, offset: 90818},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45843,30 +45902,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1226, col: 12, offset: 37998},
+																		pos: position{line: 1229, col: 12, offset: 38101},
 																		expr: &choiceExpr{
-																			pos: position{line: 2887, col: 8, offset: 91113},
+																			pos: position{line: 2890, col: 8, offset: 91216},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2874, col: 12, offset: 90886},
+																					pos: position{line: 2877, col: 12, offset: 90989},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2874, col: 13, offset: 90887},
+																						pos: position{line: 2877, col: 13, offset: 90990},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 13, offset: 90887},
+																								pos:        position{line: 2877, col: 13, offset: 90990},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 20, offset: 90894},
+																								pos:        position{line: 2877, col: 20, offset: 90997},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 29, offset: 90903},
+																								pos:        position{line: 2877, col: 29, offset: 91006},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45875,9 +45934,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2884, col: 8, offset: 91063},
+																					pos: position{line: 2887, col: 8, offset: 91166},
 																					expr: &anyMatcher{
-																						line: 2884, col: 9, offset: 91064,
+																						line: 2887, col: 9, offset: 91167,
 																					},
 																				},
 																			},
@@ -45887,31 +45946,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2375, col: 15, offset: 76922},
+															pos:  position{line: 2378, col: 15, offset: 77025},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1210, col: 23, offset: 37374},
+															pos: position{line: 1213, col: 23, offset: 37477},
 															run: (*parser).callonNormalGroup156,
 															expr: &seqExpr{
-																pos: position{line: 1210, col: 23, offset: 37374},
+																pos: position{line: 1213, col: 23, offset: 37477},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1208, col: 32, offset: 37342},
+																		pos:        position{line: 1211, col: 32, offset: 37445},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1210, col: 51, offset: 37402},
+																		pos:   position{line: 1213, col: 51, offset: 37505},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1210, col: 56, offset: 37407},
+																			pos: position{line: 1213, col: 56, offset: 37510},
 																			run: (*parser).callonNormalGroup160,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1210, col: 56, offset: 37407},
+																				pos: position{line: 1213, col: 56, offset: 37510},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1210, col: 56, offset: 37407},
+																					pos:        position{line: 1213, col: 56, offset: 37510},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -45921,7 +45980,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1208, col: 32, offset: 37342},
+																		pos:        position{line: 1211, col: 32, offset: 37445},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -45930,10 +45989,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2804, col: 12, offset: 89023},
+															pos: position{line: 2807, col: 12, offset: 89126},
 															run: (*parser).callonNormalGroup164,
 															expr: &charClassMatcher{
-																pos:        position{line: 2804, col: 12, offset: 89023},
+																pos:        position{line: 2807, col: 12, offset: 89126},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -45949,9 +46008,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2884, col: 8, offset: 91063},
+							pos: position{line: 2887, col: 8, offset: 91166},
 							expr: &anyMatcher{
-								line: 2884, col: 9, offset: 91064,
+								line: 2887, col: 9, offset: 91167,
 							},
 						},
 					},
@@ -45960,28 +46019,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2386, col: 1, offset: 77360},
+			pos:  position{line: 2389, col: 1, offset: 77463},
 			expr: &actionExpr{
-				pos: position{line: 2387, col: 5, offset: 77393},
+				pos: position{line: 2390, col: 5, offset: 77496},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2387, col: 5, offset: 77393},
+					pos: position{line: 2390, col: 5, offset: 77496},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2387, col: 5, offset: 77393},
+							pos:   position{line: 2390, col: 5, offset: 77496},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2387, col: 14, offset: 77402},
+								pos: position{line: 2390, col: 14, offset: 77505},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2387, col: 15, offset: 77403},
+									pos:  position{line: 2390, col: 15, offset: 77506},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2884, col: 8, offset: 91063},
+							pos: position{line: 2887, col: 8, offset: 91166},
 							expr: &anyMatcher{
-								line: 2884, col: 9, offset: 91064,
+								line: 2887, col: 9, offset: 91167,
 							},
 						},
 					},
@@ -45990,41 +46049,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2391, col: 1, offset: 77500},
+			pos:  position{line: 2394, col: 1, offset: 77603},
 			expr: &actionExpr{
-				pos: position{line: 2392, col: 5, offset: 77540},
+				pos: position{line: 2395, col: 5, offset: 77643},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2392, col: 5, offset: 77540},
+					pos: position{line: 2395, col: 5, offset: 77643},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2882, col: 11, offset: 91049},
+							pos: position{line: 2885, col: 11, offset: 91152},
 							expr: &anyMatcher{
-								line: 2882, col: 13, offset: 91051,
+								line: 2885, col: 13, offset: 91154,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2393, col: 5, offset: 77551},
+							pos:   position{line: 2396, col: 5, offset: 77654},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2394, col: 9, offset: 77569},
+								pos: position{line: 2397, col: 9, offset: 77672},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2764, col: 5, offset: 87957},
+										pos: position{line: 2767, col: 5, offset: 88060},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2764, col: 5, offset: 87957},
+											pos: position{line: 2767, col: 5, offset: 88060},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2764, col: 5, offset: 87957},
+													pos:   position{line: 2767, col: 5, offset: 88060},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2764, col: 11, offset: 87963},
+														pos: position{line: 2767, col: 11, offset: 88066},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2764, col: 11, offset: 87963},
+															pos: position{line: 2767, col: 11, offset: 88066},
 															expr: &charClassMatcher{
-																pos:        position{line: 2764, col: 11, offset: 87963},
+																pos:        position{line: 2767, col: 11, offset: 88066},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46034,36 +46093,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2767, col: 5, offset: 88021},
+													pos: position{line: 2770, col: 5, offset: 88124},
 													expr: &seqExpr{
-														pos: position{line: 2768, col: 9, offset: 88032},
+														pos: position{line: 2771, col: 9, offset: 88135},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2768, col: 9, offset: 88032},
+																pos:        position{line: 2771, col: 9, offset: 88135},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2769, col: 9, offset: 88081},
+																pos: position{line: 2772, col: 9, offset: 88184},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2773, col: 5, offset: 88161},
+													pos: position{line: 2776, col: 5, offset: 88264},
 													expr: &seqExpr{
-														pos: position{line: 2774, col: 9, offset: 88172},
+														pos: position{line: 2777, col: 9, offset: 88275},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2774, col: 9, offset: 88172},
+																pos:        position{line: 2777, col: 9, offset: 88275},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2774, col: 13, offset: 88176},
+																pos:        position{line: 2777, col: 13, offset: 88279},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46076,10 +46135,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2865, col: 10, offset: 90715},
+										pos: position{line: 2868, col: 10, offset: 90818},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2865, col: 10, offset: 90715},
+											pos:        position{line: 2868, col: 10, offset: 90818},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -46087,31 +46146,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2396, col: 11, offset: 77607},
+										pos:  position{line: 2399, col: 11, offset: 77710},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2782, col: 5, offset: 88369},
+										pos: position{line: 2785, col: 5, offset: 88472},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2783, col: 9, offset: 88379},
+											pos: position{line: 2786, col: 9, offset: 88482},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2783, col: 10, offset: 88380},
+													pos:        position{line: 2786, col: 10, offset: 88483},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2785, col: 13, offset: 88477},
+													pos: position{line: 2788, col: 13, offset: 88580},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2785, col: 13, offset: 88477},
+															pos: position{line: 2788, col: 13, offset: 88580},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2788, col: 13, offset: 88577},
+															pos:        position{line: 2791, col: 13, offset: 88680},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46119,20 +46178,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2788, col: 19, offset: 88583},
+													pos:        position{line: 2791, col: 19, offset: 88686},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2791, col: 13, offset: 88621},
+													pos: position{line: 2794, col: 13, offset: 88724},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2791, col: 13, offset: 88621},
+															pos: position{line: 2794, col: 13, offset: 88724},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2794, col: 14, offset: 88714},
+															pos:        position{line: 2797, col: 14, offset: 88817},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46141,18 +46200,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2796, col: 12, offset: 88758},
+													pos: position{line: 2799, col: 12, offset: 88861},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2796, col: 12, offset: 88758},
+															pos:        position{line: 2799, col: 12, offset: 88861},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2796, col: 16, offset: 88762},
+															pos: position{line: 2799, col: 16, offset: 88865},
 															expr: &litMatcher{
-																pos:        position{line: 2796, col: 17, offset: 88763},
+																pos:        position{line: 2799, col: 17, offset: 88866},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46164,31 +46223,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2398, col: 11, offset: 77680},
+										pos:  position{line: 2401, col: 11, offset: 77783},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2399, col: 11, offset: 77696},
+										pos:  position{line: 2402, col: 11, offset: 77799},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2462, col: 5, offset: 79204},
+										pos: position{line: 2465, col: 5, offset: 79307},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2462, col: 5, offset: 79204},
+											pos: position{line: 2465, col: 5, offset: 79307},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2462, col: 5, offset: 79204},
+													pos: position{line: 2465, col: 5, offset: 79307},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2465, col: 5, offset: 79280},
+													pos:   position{line: 2468, col: 5, offset: 79383},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2466, col: 9, offset: 79298},
+														pos: position{line: 2469, col: 9, offset: 79401},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2466, col: 10, offset: 79299},
+															pos:        position{line: 2469, col: 10, offset: 79402},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46200,27 +46259,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1210, col: 23, offset: 37374},
+										pos: position{line: 1213, col: 23, offset: 37477},
 										run: (*parser).callonAttributeStructuredValueElement46,
 										expr: &seqExpr{
-											pos: position{line: 1210, col: 23, offset: 37374},
+											pos: position{line: 1213, col: 23, offset: 37477},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1208, col: 32, offset: 37342},
+													pos:        position{line: 1211, col: 32, offset: 37445},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1210, col: 51, offset: 37402},
+													pos:   position{line: 1213, col: 51, offset: 37505},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1210, col: 56, offset: 37407},
+														pos: position{line: 1213, col: 56, offset: 37510},
 														run: (*parser).callonAttributeStructuredValueElement50,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1210, col: 56, offset: 37407},
+															pos: position{line: 1213, col: 56, offset: 37510},
 															expr: &charClassMatcher{
-																pos:        position{line: 1210, col: 56, offset: 37407},
+																pos:        position{line: 1213, col: 56, offset: 37510},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -46230,7 +46289,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1208, col: 32, offset: 37342},
+													pos:        position{line: 1211, col: 32, offset: 37445},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -46239,25 +46298,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2874, col: 12, offset: 90886},
+										pos: position{line: 2877, col: 12, offset: 90989},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2874, col: 13, offset: 90887},
+											pos: position{line: 2877, col: 13, offset: 90990},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2874, col: 13, offset: 90887},
+													pos:        position{line: 2877, col: 13, offset: 90990},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2874, col: 20, offset: 90894},
+													pos:        position{line: 2877, col: 20, offset: 90997},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2874, col: 29, offset: 90903},
+													pos:        position{line: 2877, col: 29, offset: 91006},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46266,10 +46325,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2804, col: 12, offset: 89023},
+										pos: position{line: 2807, col: 12, offset: 89126},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2804, col: 12, offset: 89023},
+											pos:        position{line: 2807, col: 12, offset: 89126},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46285,73 +46344,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2410, col: 1, offset: 77966},
+			pos:  position{line: 2413, col: 1, offset: 78069},
 			expr: &actionExpr{
-				pos: position{line: 2412, col: 5, offset: 78048},
+				pos: position{line: 2415, col: 5, offset: 78151},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2412, col: 5, offset: 78048},
+					pos: position{line: 2415, col: 5, offset: 78151},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2412, col: 5, offset: 78048},
+							pos: position{line: 2415, col: 5, offset: 78151},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2415, col: 5, offset: 78113},
+							pos:   position{line: 2418, col: 5, offset: 78216},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2416, col: 9, offset: 78131},
+								pos: position{line: 2419, col: 9, offset: 78234},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2416, col: 9, offset: 78131},
+										pos:  position{line: 2419, col: 9, offset: 78234},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2417, col: 11, offset: 78152},
+										pos:  position{line: 2420, col: 11, offset: 78255},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2418, col: 11, offset: 78175},
+										pos:  position{line: 2421, col: 11, offset: 78278},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2419, col: 11, offset: 78191},
+										pos:  position{line: 2422, col: 11, offset: 78294},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2420, col: 11, offset: 78220},
+										pos:  position{line: 2423, col: 11, offset: 78323},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2421, col: 11, offset: 78246},
+										pos:  position{line: 2424, col: 11, offset: 78349},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2422, col: 11, offset: 78272},
+										pos:  position{line: 2425, col: 11, offset: 78375},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1265, col: 5, offset: 39134},
+										pos: position{line: 1268, col: 5, offset: 39237},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1265, col: 5, offset: 39134},
+											pos: position{line: 1268, col: 5, offset: 39237},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1265, col: 5, offset: 39134},
+													pos:        position{line: 1268, col: 5, offset: 39237},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1265, col: 14, offset: 39143},
+													pos:   position{line: 1268, col: 14, offset: 39246},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2850, col: 7, offset: 90367},
+														pos: position{line: 2853, col: 7, offset: 90470},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2850, col: 7, offset: 90367},
+															pos: position{line: 2853, col: 7, offset: 90470},
 															expr: &charClassMatcher{
-																pos:        position{line: 2850, col: 7, offset: 90367},
+																pos:        position{line: 2853, col: 7, offset: 90470},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46361,7 +46420,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1265, col: 22, offset: 39151},
+													pos:        position{line: 1268, col: 22, offset: 39254},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46370,27 +46429,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1270, col: 5, offset: 39270},
+										pos: position{line: 1273, col: 5, offset: 39373},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1270, col: 5, offset: 39270},
+											pos: position{line: 1273, col: 5, offset: 39373},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1270, col: 5, offset: 39270},
+													pos:        position{line: 1273, col: 5, offset: 39373},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1270, col: 10, offset: 39275},
+													pos:   position{line: 1273, col: 10, offset: 39378},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2850, col: 7, offset: 90367},
+														pos: position{line: 2853, col: 7, offset: 90470},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2850, col: 7, offset: 90367},
+															pos: position{line: 2853, col: 7, offset: 90470},
 															expr: &charClassMatcher{
-																pos:        position{line: 2850, col: 7, offset: 90367},
+																pos:        position{line: 2853, col: 7, offset: 90470},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46400,7 +46459,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1270, col: 18, offset: 39283},
+													pos:        position{line: 1273, col: 18, offset: 39386},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46409,40 +46468,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1309, col: 23, offset: 40759},
+										pos: position{line: 1312, col: 23, offset: 40862},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1309, col: 23, offset: 40759},
+											pos: position{line: 1312, col: 23, offset: 40862},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1309, col: 23, offset: 40759},
+													pos:        position{line: 1312, col: 23, offset: 40862},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1309, col: 29, offset: 40765},
+													pos:   position{line: 1312, col: 29, offset: 40868},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1316, col: 30, offset: 41096},
+														pos: position{line: 1319, col: 30, offset: 41199},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1316, col: 30, offset: 41096},
+															pos: position{line: 1319, col: 30, offset: 41199},
 															expr: &choiceExpr{
-																pos: position{line: 1316, col: 31, offset: 41097},
+																pos: position{line: 1319, col: 31, offset: 41200},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2755, col: 13, offset: 87810},
+																		pos:        position{line: 2758, col: 13, offset: 87913},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2865, col: 10, offset: 90715},
+																		pos: position{line: 2868, col: 10, offset: 90818},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90715},
+																			pos:        position{line: 2868, col: 10, offset: 90818},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46455,23 +46514,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1310, col: 5, offset: 40804},
+													pos:   position{line: 1313, col: 5, offset: 40907},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1310, col: 11, offset: 40810},
+														pos: position{line: 1313, col: 11, offset: 40913},
 														expr: &actionExpr{
-															pos: position{line: 1310, col: 12, offset: 40811},
+															pos: position{line: 1313, col: 12, offset: 40914},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1310, col: 12, offset: 40811},
+																pos: position{line: 1313, col: 12, offset: 40914},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1310, col: 12, offset: 40811},
+																		pos: position{line: 1313, col: 12, offset: 40914},
 																		expr: &actionExpr{
-																			pos: position{line: 2865, col: 10, offset: 90715},
+																			pos: position{line: 2868, col: 10, offset: 90818},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 10, offset: 90715},
+																				pos:        position{line: 2868, col: 10, offset: 90818},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46480,18 +46539,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1310, col: 19, offset: 40818},
+																		pos:        position{line: 1313, col: 19, offset: 40921},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1310, col: 23, offset: 40822},
+																		pos: position{line: 1313, col: 23, offset: 40925},
 																		expr: &actionExpr{
-																			pos: position{line: 2865, col: 10, offset: 90715},
+																			pos: position{line: 2868, col: 10, offset: 90818},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 10, offset: 90715},
+																				pos:        position{line: 2868, col: 10, offset: 90818},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46500,28 +46559,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1310, col: 30, offset: 40829},
+																		pos:   position{line: 1313, col: 30, offset: 40932},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1316, col: 30, offset: 41096},
+																			pos: position{line: 1319, col: 30, offset: 41199},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1316, col: 30, offset: 41096},
+																				pos: position{line: 1319, col: 30, offset: 41199},
 																				expr: &choiceExpr{
-																					pos: position{line: 1316, col: 31, offset: 41097},
+																					pos: position{line: 1319, col: 31, offset: 41200},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2755, col: 13, offset: 87810},
+																							pos:        position{line: 2758, col: 13, offset: 87913},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2865, col: 10, offset: 90715},
+																							pos: position{line: 2868, col: 10, offset: 90818},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2865, col: 10, offset: 90715},
+																								pos:        position{line: 2868, col: 10, offset: 90818},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46539,23 +46598,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1311, col: 5, offset: 40896},
+													pos:   position{line: 1314, col: 5, offset: 40999},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1311, col: 11, offset: 40902},
+														pos: position{line: 1314, col: 11, offset: 41005},
 														expr: &actionExpr{
-															pos: position{line: 1311, col: 12, offset: 40903},
+															pos: position{line: 1314, col: 12, offset: 41006},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1311, col: 12, offset: 40903},
+																pos: position{line: 1314, col: 12, offset: 41006},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1311, col: 12, offset: 40903},
+																		pos: position{line: 1314, col: 12, offset: 41006},
 																		expr: &actionExpr{
-																			pos: position{line: 2865, col: 10, offset: 90715},
+																			pos: position{line: 2868, col: 10, offset: 90818},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 10, offset: 90715},
+																				pos:        position{line: 2868, col: 10, offset: 90818},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46564,18 +46623,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1311, col: 19, offset: 40910},
+																		pos:        position{line: 1314, col: 19, offset: 41013},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1311, col: 23, offset: 40914},
+																		pos: position{line: 1314, col: 23, offset: 41017},
 																		expr: &actionExpr{
-																			pos: position{line: 2865, col: 10, offset: 90715},
+																			pos: position{line: 2868, col: 10, offset: 90818},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2865, col: 10, offset: 90715},
+																				pos:        position{line: 2868, col: 10, offset: 90818},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46584,28 +46643,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1311, col: 30, offset: 40921},
+																		pos:   position{line: 1314, col: 30, offset: 41024},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1316, col: 30, offset: 41096},
+																			pos: position{line: 1319, col: 30, offset: 41199},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1316, col: 30, offset: 41096},
+																				pos: position{line: 1319, col: 30, offset: 41199},
 																				expr: &choiceExpr{
-																					pos: position{line: 1316, col: 31, offset: 41097},
+																					pos: position{line: 1319, col: 31, offset: 41200},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2755, col: 13, offset: 87810},
+																							pos:        position{line: 2758, col: 13, offset: 87913},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2865, col: 10, offset: 90715},
+																							pos: position{line: 2868, col: 10, offset: 90818},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2865, col: 10, offset: 90715},
+																								pos:        position{line: 2868, col: 10, offset: 90818},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46623,7 +46682,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1312, col: 5, offset: 40988},
+													pos:        position{line: 1315, col: 5, offset: 41091},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -46632,15 +46691,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2425, col: 11, offset: 78351},
+										pos:  position{line: 2428, col: 11, offset: 78454},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2426, col: 11, offset: 78371},
+										pos:  position{line: 2429, col: 11, offset: 78474},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2427, col: 11, offset: 78394},
+										pos:  position{line: 2430, col: 11, offset: 78497},
 										name: "InlineMenu",
 									},
 								},
@@ -46652,80 +46711,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2431, col: 1, offset: 78451},
+			pos:  position{line: 2434, col: 1, offset: 78554},
 			expr: &actionExpr{
-				pos: position{line: 2433, col: 5, offset: 78539},
+				pos: position{line: 2436, col: 5, offset: 78642},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2433, col: 5, offset: 78539},
+					pos: position{line: 2436, col: 5, offset: 78642},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2433, col: 5, offset: 78539},
+							pos: position{line: 2436, col: 5, offset: 78642},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2436, col: 5, offset: 78616},
+							pos:   position{line: 2439, col: 5, offset: 78719},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2437, col: 9, offset: 78634},
+								pos: position{line: 2440, col: 9, offset: 78737},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1391, col: 26, offset: 44366},
+										pos: position{line: 1394, col: 26, offset: 44469},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1391, col: 26, offset: 44366},
+											pos: position{line: 1394, col: 26, offset: 44469},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1389, col: 32, offset: 44334},
+													pos:        position{line: 1392, col: 32, offset: 44437},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1391, col: 54, offset: 44394},
+													pos:   position{line: 1394, col: 54, offset: 44497},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1395, col: 33, offset: 44607},
+														pos: position{line: 1398, col: 33, offset: 44710},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1395, col: 34, offset: 44608},
+																pos: position{line: 1398, col: 34, offset: 44711},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1395, col: 34, offset: 44608},
+																	pos: position{line: 1398, col: 34, offset: 44711},
 																	expr: &seqExpr{
-																		pos: position{line: 1395, col: 35, offset: 44609},
+																		pos: position{line: 1398, col: 35, offset: 44712},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1395, col: 35, offset: 44609},
+																				pos: position{line: 1398, col: 35, offset: 44712},
 																				expr: &litMatcher{
-																					pos:        position{line: 1389, col: 32, offset: 44334},
+																					pos:        position{line: 1392, col: 32, offset: 44437},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1395, col: 64, offset: 44638,
+																				line: 1398, col: 64, offset: 44741,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1397, col: 11, offset: 44811},
+																pos: position{line: 1400, col: 11, offset: 44914},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1397, col: 11, offset: 44811},
+																	pos: position{line: 1400, col: 11, offset: 44914},
 																	expr: &seqExpr{
-																		pos: position{line: 1397, col: 12, offset: 44812},
+																		pos: position{line: 1400, col: 12, offset: 44915},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1397, col: 12, offset: 44812},
+																				pos: position{line: 1400, col: 12, offset: 44915},
 																				expr: &actionExpr{
-																					pos: position{line: 2865, col: 10, offset: 90715},
+																					pos: position{line: 2868, col: 10, offset: 90818},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2865, col: 10, offset: 90715},
+																						pos:        position{line: 2868, col: 10, offset: 90818},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46734,27 +46793,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1397, col: 19, offset: 44819},
+																				pos: position{line: 1400, col: 19, offset: 44922},
 																				expr: &actionExpr{
-																					pos: position{line: 2874, col: 12, offset: 90886},
+																					pos: position{line: 2877, col: 12, offset: 90989},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2874, col: 13, offset: 90887},
+																						pos: position{line: 2877, col: 13, offset: 90990},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 13, offset: 90887},
+																								pos:        position{line: 2877, col: 13, offset: 90990},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 20, offset: 90894},
+																								pos:        position{line: 2877, col: 20, offset: 90997},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2874, col: 29, offset: 90903},
+																								pos:        position{line: 2877, col: 29, offset: 91006},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46764,16 +46823,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1397, col: 28, offset: 44828},
+																				pos: position{line: 1400, col: 28, offset: 44931},
 																				expr: &litMatcher{
-																					pos:        position{line: 1389, col: 32, offset: 44334},
+																					pos:        position{line: 1392, col: 32, offset: 44437},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1397, col: 57, offset: 44857,
+																				line: 1400, col: 57, offset: 44960,
 																			},
 																		},
 																	},
@@ -46783,15 +46842,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1389, col: 32, offset: 44334},
+													pos:        position{line: 1392, col: 32, offset: 44437},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1391, col: 121, offset: 44461},
+													pos: position{line: 1394, col: 121, offset: 44564},
 													expr: &charClassMatcher{
-														pos:        position{line: 2755, col: 13, offset: 87810},
+														pos:        position{line: 2758, col: 13, offset: 87913},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46802,45 +46861,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1379, col: 26, offset: 43649},
+										pos: position{line: 1382, col: 26, offset: 43752},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1379, col: 26, offset: 43649},
+											pos: position{line: 1382, col: 26, offset: 43752},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1377, col: 32, offset: 43619},
+													pos:        position{line: 1380, col: 32, offset: 43722},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1379, col: 54, offset: 43677},
+													pos:   position{line: 1382, col: 54, offset: 43780},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1383, col: 33, offset: 43890},
+														pos: position{line: 1386, col: 33, offset: 43993},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1383, col: 34, offset: 43891},
+																pos: position{line: 1386, col: 34, offset: 43994},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1383, col: 34, offset: 43891},
+																	pos: position{line: 1386, col: 34, offset: 43994},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1383, col: 35, offset: 43892},
+																			pos: position{line: 1386, col: 35, offset: 43995},
 																			expr: &litMatcher{
-																				pos:        position{line: 1377, col: 32, offset: 43619},
+																				pos:        position{line: 1380, col: 32, offset: 43722},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1383, col: 64, offset: 43921},
+																			pos: position{line: 1386, col: 64, offset: 44024},
 																			expr: &actionExpr{
-																				pos: position{line: 2865, col: 10, offset: 90715},
+																				pos: position{line: 2868, col: 10, offset: 90818},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2865, col: 10, offset: 90715},
+																					pos:        position{line: 2868, col: 10, offset: 90818},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46849,27 +46908,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1383, col: 71, offset: 43928},
+																			pos: position{line: 1386, col: 71, offset: 44031},
 																			expr: &actionExpr{
-																				pos: position{line: 2874, col: 12, offset: 90886},
+																				pos: position{line: 2877, col: 12, offset: 90989},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 13, offset: 90887},
+																					pos: position{line: 2877, col: 13, offset: 90990},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 13, offset: 90887},
+																							pos:        position{line: 2877, col: 13, offset: 90990},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 20, offset: 90894},
+																							pos:        position{line: 2877, col: 20, offset: 90997},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 29, offset: 90903},
+																							pos:        position{line: 2877, col: 29, offset: 91006},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46879,25 +46938,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1383, col: 80, offset: 43937,
+																			line: 1386, col: 80, offset: 44040,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1383, col: 83, offset: 43940},
+																			pos: position{line: 1386, col: 83, offset: 44043},
 																			expr: &seqExpr{
-																				pos: position{line: 1383, col: 84, offset: 43941},
+																				pos: position{line: 1386, col: 84, offset: 44044},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1383, col: 84, offset: 43941},
+																						pos: position{line: 1386, col: 84, offset: 44044},
 																						expr: &seqExpr{
-																							pos: position{line: 1383, col: 86, offset: 43943},
+																							pos: position{line: 1386, col: 86, offset: 44046},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2869, col: 11, offset: 90776},
+																									pos: position{line: 2872, col: 11, offset: 90879},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2869, col: 11, offset: 90776},
+																										pos: position{line: 2872, col: 11, offset: 90879},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2869, col: 11, offset: 90776},
+																											pos:        position{line: 2872, col: 11, offset: 90879},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46906,7 +46965,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1377, col: 32, offset: 43619},
+																									pos:        position{line: 1380, col: 32, offset: 43722},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -46915,36 +46974,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1383, col: 122, offset: 43979},
+																						pos: position{line: 1386, col: 122, offset: 44082},
 																						expr: &litMatcher{
-																							pos:        position{line: 1377, col: 32, offset: 43619},
+																							pos:        position{line: 1380, col: 32, offset: 43722},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1383, col: 151, offset: 44008},
+																						pos: position{line: 1386, col: 151, offset: 44111},
 																						expr: &actionExpr{
-																							pos: position{line: 2874, col: 12, offset: 90886},
+																							pos: position{line: 2877, col: 12, offset: 90989},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2874, col: 13, offset: 90887},
+																								pos: position{line: 2877, col: 13, offset: 90990},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 13, offset: 90887},
+																										pos:        position{line: 2877, col: 13, offset: 90990},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 20, offset: 90894},
+																										pos:        position{line: 2877, col: 20, offset: 90997},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2874, col: 29, offset: 90903},
+																										pos:        position{line: 2877, col: 29, offset: 91006},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -46954,7 +47013,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1383, col: 160, offset: 44017,
+																						line: 1386, col: 160, offset: 44120,
 																					},
 																				},
 																			},
@@ -46963,18 +47022,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1385, col: 11, offset: 44167},
+																pos: position{line: 1388, col: 11, offset: 44270},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1385, col: 12, offset: 44168},
+																	pos: position{line: 1388, col: 12, offset: 44271},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1385, col: 12, offset: 44168},
+																			pos: position{line: 1388, col: 12, offset: 44271},
 																			expr: &actionExpr{
-																				pos: position{line: 2865, col: 10, offset: 90715},
+																				pos: position{line: 2868, col: 10, offset: 90818},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2865, col: 10, offset: 90715},
+																					pos:        position{line: 2868, col: 10, offset: 90818},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46983,27 +47042,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1385, col: 19, offset: 44175},
+																			pos: position{line: 1388, col: 19, offset: 44278},
 																			expr: &actionExpr{
-																				pos: position{line: 2874, col: 12, offset: 90886},
+																				pos: position{line: 2877, col: 12, offset: 90989},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2874, col: 13, offset: 90887},
+																					pos: position{line: 2877, col: 13, offset: 90990},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 13, offset: 90887},
+																							pos:        position{line: 2877, col: 13, offset: 90990},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 20, offset: 90894},
+																							pos:        position{line: 2877, col: 20, offset: 90997},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2874, col: 29, offset: 90903},
+																							pos:        position{line: 2877, col: 29, offset: 91006},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47013,16 +47072,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1385, col: 28, offset: 44184},
+																			pos: position{line: 1388, col: 28, offset: 44287},
 																			expr: &litMatcher{
-																				pos:        position{line: 1377, col: 32, offset: 43619},
+																				pos:        position{line: 1380, col: 32, offset: 43722},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1385, col: 57, offset: 44213,
+																			line: 1388, col: 57, offset: 44316,
 																		},
 																	},
 																},
@@ -47031,15 +47090,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1377, col: 32, offset: 43619},
+													pos:        position{line: 1380, col: 32, offset: 43722},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1379, col: 121, offset: 43744},
+													pos: position{line: 1382, col: 121, offset: 43847},
 													expr: &charClassMatcher{
-														pos:        position{line: 2755, col: 13, offset: 87810},
+														pos:        position{line: 2758, col: 13, offset: 87913},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47050,7 +47109,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2437, col: 57, offset: 78682},
+										pos:  position{line: 2440, col: 57, offset: 78785},
 										name: "PassthroughMacro",
 									},
 								},
@@ -47062,16 +47121,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2442, col: 1, offset: 78742},
+			pos:  position{line: 2445, col: 1, offset: 78845},
 			expr: &seqExpr{
-				pos: position{line: 2444, col: 5, offset: 78818},
+				pos: position{line: 2447, col: 5, offset: 78921},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2444, col: 5, offset: 78818},
+						pos: position{line: 2447, col: 5, offset: 78921},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2447, col: 5, offset: 78883},
+						pos:  position{line: 2450, col: 5, offset: 78986},
 						name: "QuotedText",
 					},
 				},
@@ -47079,22 +47138,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2449, col: 1, offset: 78896},
+			pos:  position{line: 2452, col: 1, offset: 78999},
 			expr: &actionExpr{
-				pos: position{line: 2451, col: 5, offset: 78978},
+				pos: position{line: 2454, col: 5, offset: 79081},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2451, col: 5, offset: 78978},
+					pos: position{line: 2454, col: 5, offset: 79081},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2451, col: 5, offset: 78978},
+							pos: position{line: 2454, col: 5, offset: 79081},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2454, col: 5, offset: 79049},
+							pos:   position{line: 2457, col: 5, offset: 79152},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2455, col: 9, offset: 79067},
+								pos:  position{line: 2458, col: 9, offset: 79170},
 								name: "Symbol",
 							},
 						},
@@ -47104,103 +47163,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2510, col: 1, offset: 80826},
+			pos:  position{line: 2513, col: 1, offset: 80929},
 			expr: &choiceExpr{
-				pos: position{line: 2512, col: 5, offset: 80856},
+				pos: position{line: 2515, col: 5, offset: 80959},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2512, col: 5, offset: 80856},
+						pos: position{line: 2515, col: 5, offset: 80959},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2512, col: 5, offset: 80856},
+							pos: position{line: 2515, col: 5, offset: 80959},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2512, col: 5, offset: 80856},
+									pos:        position{line: 2515, col: 5, offset: 80959},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2512, col: 10, offset: 80861},
+									pos: position{line: 2515, col: 10, offset: 80964},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2512, col: 10, offset: 80861},
+											pos:  position{line: 2515, col: 10, offset: 80964},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2541, col: 14, offset: 81965},
+											pos: position{line: 2544, col: 14, offset: 82068},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2541, col: 14, offset: 81965},
+												pos:        position{line: 2544, col: 14, offset: 82068},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2545, col: 14, offset: 82031},
+											pos: position{line: 2548, col: 14, offset: 82134},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2545, col: 14, offset: 82031},
+												pos:        position{line: 2548, col: 14, offset: 82134},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2549, col: 15, offset: 82100},
+											pos: position{line: 2552, col: 15, offset: 82203},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2549, col: 15, offset: 82100},
+												pos:        position{line: 2552, col: 15, offset: 82203},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2553, col: 13, offset: 82165},
+											pos: position{line: 2556, col: 13, offset: 82268},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2553, col: 13, offset: 82165},
+												pos:        position{line: 2556, col: 13, offset: 82268},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2581, col: 21, offset: 82735},
+											pos: position{line: 2584, col: 21, offset: 82838},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2581, col: 21, offset: 82735},
+												pos:        position{line: 2584, col: 21, offset: 82838},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2560, col: 5, offset: 82321},
+											pos: position{line: 2563, col: 5, offset: 82424},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2560, col: 5, offset: 82321},
+												pos: position{line: 2563, col: 5, offset: 82424},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2560, col: 5, offset: 82321},
+														pos:        position{line: 2563, col: 5, offset: 82424},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2561, col: 5, offset: 82331},
+														pos: position{line: 2564, col: 5, offset: 82434},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2565, col: 6, offset: 82418},
+														pos: position{line: 2568, col: 6, offset: 82521},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2865, col: 10, offset: 90715},
+																pos: position{line: 2868, col: 10, offset: 90818},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2865, col: 10, offset: 90715},
+																	pos:        position{line: 2868, col: 10, offset: 90818},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47208,30 +47267,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2565, col: 14, offset: 82426},
+																pos: position{line: 2568, col: 14, offset: 82529},
 																expr: &choiceExpr{
-																	pos: position{line: 2887, col: 8, offset: 91113},
+																	pos: position{line: 2890, col: 8, offset: 91216},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2874, col: 12, offset: 90886},
+																			pos: position{line: 2877, col: 12, offset: 90989},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2874, col: 13, offset: 90887},
+																				pos: position{line: 2877, col: 13, offset: 90990},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 13, offset: 90887},
+																						pos:        position{line: 2877, col: 13, offset: 90990},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 20, offset: 90894},
+																						pos:        position{line: 2877, col: 20, offset: 90997},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2874, col: 29, offset: 90903},
+																						pos:        position{line: 2877, col: 29, offset: 91006},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47240,9 +47299,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2884, col: 8, offset: 91063},
+																			pos: position{line: 2887, col: 8, offset: 91166},
 																			expr: &anyMatcher{
-																				line: 2884, col: 9, offset: 91064,
+																				line: 2887, col: 9, offset: 91167,
 																			},
 																		},
 																	},
@@ -47254,53 +47313,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2570, col: 5, offset: 82546},
+											pos: position{line: 2573, col: 5, offset: 82649},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2570, col: 5, offset: 82546},
+												pos: position{line: 2573, col: 5, offset: 82649},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2570, col: 5, offset: 82546},
+														pos:        position{line: 2573, col: 5, offset: 82649},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2571, col: 5, offset: 82556},
+														pos: position{line: 2574, col: 5, offset: 82659},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2575, col: 5, offset: 82645},
+														pos: position{line: 2578, col: 5, offset: 82748},
 														expr: &choiceExpr{
-															pos: position{line: 2575, col: 7, offset: 82647},
+															pos: position{line: 2578, col: 7, offset: 82750},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2755, col: 13, offset: 87810},
+																	pos:        position{line: 2758, col: 13, offset: 87913},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2874, col: 12, offset: 90886},
+																	pos: position{line: 2877, col: 12, offset: 90989},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2874, col: 13, offset: 90887},
+																		pos: position{line: 2877, col: 13, offset: 90990},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2874, col: 13, offset: 90887},
+																				pos:        position{line: 2877, col: 13, offset: 90990},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2874, col: 20, offset: 90894},
+																				pos:        position{line: 2877, col: 20, offset: 90997},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2874, col: 29, offset: 90903},
+																				pos:        position{line: 2877, col: 29, offset: 91006},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47309,9 +47368,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2884, col: 8, offset: 91063},
+																	pos: position{line: 2887, col: 8, offset: 91166},
 																	expr: &anyMatcher{
-																		line: 2884, col: 9, offset: 91064,
+																		line: 2887, col: 9, offset: 91167,
 																	},
 																},
 															},
@@ -47321,30 +47380,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2585, col: 20, offset: 82805},
+											pos: position{line: 2588, col: 20, offset: 82908},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2585, col: 20, offset: 82805},
+												pos:        position{line: 2588, col: 20, offset: 82908},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2589, col: 21, offset: 82876},
+											pos: position{line: 2592, col: 21, offset: 82979},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2589, col: 21, offset: 82876},
+												pos:        position{line: 2592, col: 21, offset: 82979},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2593, col: 20, offset: 82946},
+											pos: position{line: 2596, col: 20, offset: 83049},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2593, col: 20, offset: 82946},
+												pos:        position{line: 2596, col: 20, offset: 83049},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -47356,73 +47415,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2516, col: 7, offset: 81116},
+						pos:  position{line: 2519, col: 7, offset: 81219},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2541, col: 14, offset: 81965},
+						pos: position{line: 2544, col: 14, offset: 82068},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2541, col: 14, offset: 81965},
+							pos:        position{line: 2544, col: 14, offset: 82068},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2545, col: 14, offset: 82031},
+						pos: position{line: 2548, col: 14, offset: 82134},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2545, col: 14, offset: 82031},
+							pos:        position{line: 2548, col: 14, offset: 82134},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2549, col: 15, offset: 82100},
+						pos: position{line: 2552, col: 15, offset: 82203},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2549, col: 15, offset: 82100},
+							pos:        position{line: 2552, col: 15, offset: 82203},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2553, col: 13, offset: 82165},
+						pos: position{line: 2556, col: 13, offset: 82268},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2553, col: 13, offset: 82165},
+							pos:        position{line: 2556, col: 13, offset: 82268},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2560, col: 5, offset: 82321},
+						pos: position{line: 2563, col: 5, offset: 82424},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2560, col: 5, offset: 82321},
+							pos: position{line: 2563, col: 5, offset: 82424},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2560, col: 5, offset: 82321},
+									pos:        position{line: 2563, col: 5, offset: 82424},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2561, col: 5, offset: 82331},
+									pos: position{line: 2564, col: 5, offset: 82434},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2565, col: 6, offset: 82418},
+									pos: position{line: 2568, col: 6, offset: 82521},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2865, col: 10, offset: 90715},
+											pos: position{line: 2868, col: 10, offset: 90818},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2865, col: 10, offset: 90715},
+												pos:        position{line: 2868, col: 10, offset: 90818},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47430,30 +47489,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2565, col: 14, offset: 82426},
+											pos: position{line: 2568, col: 14, offset: 82529},
 											expr: &choiceExpr{
-												pos: position{line: 2887, col: 8, offset: 91113},
+												pos: position{line: 2890, col: 8, offset: 91216},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2874, col: 12, offset: 90886},
+														pos: position{line: 2877, col: 12, offset: 90989},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2874, col: 13, offset: 90887},
+															pos: position{line: 2877, col: 13, offset: 90990},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2874, col: 13, offset: 90887},
+																	pos:        position{line: 2877, col: 13, offset: 90990},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2874, col: 20, offset: 90894},
+																	pos:        position{line: 2877, col: 20, offset: 90997},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2874, col: 29, offset: 90903},
+																	pos:        position{line: 2877, col: 29, offset: 91006},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47462,9 +47521,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2884, col: 8, offset: 91063},
+														pos: position{line: 2887, col: 8, offset: 91166},
 														expr: &anyMatcher{
-															line: 2884, col: 9, offset: 91064,
+															line: 2887, col: 9, offset: 91167,
 														},
 													},
 												},
@@ -47476,53 +47535,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2570, col: 5, offset: 82546},
+						pos: position{line: 2573, col: 5, offset: 82649},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2570, col: 5, offset: 82546},
+							pos: position{line: 2573, col: 5, offset: 82649},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2570, col: 5, offset: 82546},
+									pos:        position{line: 2573, col: 5, offset: 82649},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2571, col: 5, offset: 82556},
+									pos: position{line: 2574, col: 5, offset: 82659},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2575, col: 5, offset: 82645},
+									pos: position{line: 2578, col: 5, offset: 82748},
 									expr: &choiceExpr{
-										pos: position{line: 2575, col: 7, offset: 82647},
+										pos: position{line: 2578, col: 7, offset: 82750},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2755, col: 13, offset: 87810},
+												pos:        position{line: 2758, col: 13, offset: 87913},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2874, col: 12, offset: 90886},
+												pos: position{line: 2877, col: 12, offset: 90989},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2874, col: 13, offset: 90887},
+													pos: position{line: 2877, col: 13, offset: 90990},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2874, col: 13, offset: 90887},
+															pos:        position{line: 2877, col: 13, offset: 90990},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2874, col: 20, offset: 90894},
+															pos:        position{line: 2877, col: 20, offset: 90997},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2874, col: 29, offset: 90903},
+															pos:        position{line: 2877, col: 29, offset: 91006},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47531,9 +47590,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2884, col: 8, offset: 91063},
+												pos: position{line: 2887, col: 8, offset: 91166},
 												expr: &anyMatcher{
-													line: 2884, col: 9, offset: 91064,
+													line: 2887, col: 9, offset: 91167,
 												},
 											},
 										},
@@ -47543,40 +47602,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2581, col: 21, offset: 82735},
+						pos: position{line: 2584, col: 21, offset: 82838},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2581, col: 21, offset: 82735},
+							pos:        position{line: 2584, col: 21, offset: 82838},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2585, col: 20, offset: 82805},
+						pos: position{line: 2588, col: 20, offset: 82908},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2585, col: 20, offset: 82805},
+							pos:        position{line: 2588, col: 20, offset: 82908},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2589, col: 21, offset: 82876},
+						pos: position{line: 2592, col: 21, offset: 82979},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2589, col: 21, offset: 82876},
+							pos:        position{line: 2592, col: 21, offset: 82979},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2593, col: 20, offset: 82946},
+						pos: position{line: 2596, col: 20, offset: 83049},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2593, col: 20, offset: 82946},
+							pos:        position{line: 2596, col: 20, offset: 83049},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47587,43 +47646,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2527, col: 1, offset: 81306},
+			pos:  position{line: 2530, col: 1, offset: 81409},
 			expr: &choiceExpr{
-				pos: position{line: 2528, col: 5, offset: 81328},
+				pos: position{line: 2531, col: 5, offset: 81431},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2528, col: 5, offset: 81328},
+						pos: position{line: 2531, col: 5, offset: 81431},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2528, col: 5, offset: 81328},
+							pos: position{line: 2531, col: 5, offset: 81431},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2528, col: 5, offset: 81328},
+									pos:        position{line: 2531, col: 5, offset: 81431},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2528, col: 11, offset: 81334},
+									pos: position{line: 2531, col: 11, offset: 81437},
 									expr: &seqExpr{
-										pos: position{line: 2091, col: 5, offset: 67538},
+										pos: position{line: 2094, col: 5, offset: 67641},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2091, col: 5, offset: 67538},
+												pos:        position{line: 2094, col: 5, offset: 67641},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2092, col: 5, offset: 67547},
+												pos: position{line: 2095, col: 5, offset: 67650},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2096, col: 5, offset: 67670},
+												pos: position{line: 2099, col: 5, offset: 67773},
 												expr: &notExpr{
-													pos: position{line: 2096, col: 7, offset: 67672},
+													pos: position{line: 2099, col: 7, offset: 67775},
 													expr: &litMatcher{
-														pos:        position{line: 2096, col: 8, offset: 67673},
+														pos:        position{line: 2099, col: 8, offset: 67776},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47637,21 +47696,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2531, col: 7, offset: 81487},
+						pos: position{line: 2534, col: 7, offset: 81590},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2531, col: 7, offset: 81487},
+							pos: position{line: 2534, col: 7, offset: 81590},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2531, col: 7, offset: 81487},
+									pos:        position{line: 2534, col: 7, offset: 81590},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2531, col: 13, offset: 81493},
+									pos: position{line: 2534, col: 13, offset: 81596},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2531, col: 14, offset: 81494},
+										pos:  position{line: 2534, col: 14, offset: 81597},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47659,38 +47718,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2534, col: 7, offset: 81644},
+						pos: position{line: 2537, col: 7, offset: 81747},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2534, col: 7, offset: 81644},
+							pos: position{line: 2537, col: 7, offset: 81747},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2534, col: 7, offset: 81644},
+									pos:        position{line: 2537, col: 7, offset: 81747},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2534, col: 12, offset: 81649},
+									pos: position{line: 2537, col: 12, offset: 81752},
 									expr: &seqExpr{
-										pos: position{line: 2091, col: 5, offset: 67538},
+										pos: position{line: 2094, col: 5, offset: 67641},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2091, col: 5, offset: 67538},
+												pos:        position{line: 2094, col: 5, offset: 67641},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2092, col: 5, offset: 67547},
+												pos: position{line: 2095, col: 5, offset: 67650},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2096, col: 5, offset: 67670},
+												pos: position{line: 2099, col: 5, offset: 67773},
 												expr: &notExpr{
-													pos: position{line: 2096, col: 7, offset: 67672},
+													pos: position{line: 2099, col: 7, offset: 67775},
 													expr: &litMatcher{
-														pos:        position{line: 2096, col: 8, offset: 67673},
+														pos:        position{line: 2099, col: 8, offset: 67776},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47704,21 +47763,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2537, col: 7, offset: 81802},
+						pos: position{line: 2540, col: 7, offset: 81905},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2537, col: 7, offset: 81802},
+							pos: position{line: 2540, col: 7, offset: 81905},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2537, col: 7, offset: 81802},
+									pos:        position{line: 2540, col: 7, offset: 81905},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2537, col: 12, offset: 81807},
+									pos: position{line: 2540, col: 12, offset: 81910},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2537, col: 13, offset: 81808},
+										pos:  position{line: 2540, col: 13, offset: 81911},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47730,63 +47789,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2670, col: 1, offset: 84890},
+			pos:  position{line: 2673, col: 1, offset: 84993},
 			expr: &actionExpr{
-				pos: position{line: 2670, col: 26, offset: 84915},
+				pos: position{line: 2673, col: 26, offset: 85018},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2670, col: 26, offset: 84915},
+					pos: position{line: 2673, col: 26, offset: 85018},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2670, col: 26, offset: 84915},
+							pos:   position{line: 2673, col: 26, offset: 85018},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2670, col: 31, offset: 84920},
+								pos: position{line: 2673, col: 31, offset: 85023},
 								expr: &actionExpr{
-									pos: position{line: 2675, col: 5, offset: 84983},
+									pos: position{line: 2678, col: 5, offset: 85086},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2675, col: 5, offset: 84983},
+										pos: position{line: 2678, col: 5, offset: 85086},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2882, col: 11, offset: 91049},
+												pos: position{line: 2885, col: 11, offset: 91152},
 												expr: &anyMatcher{
-													line: 2882, col: 13, offset: 91051,
+													line: 2885, col: 13, offset: 91154,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2678, col: 5, offset: 85109},
+												pos:   position{line: 2681, col: 5, offset: 85212},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2678, col: 16, offset: 85120},
+													pos: position{line: 2681, col: 16, offset: 85223},
 													expr: &actionExpr{
-														pos: position{line: 2678, col: 17, offset: 85121},
+														pos: position{line: 2681, col: 17, offset: 85224},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2678, col: 17, offset: 85121},
+															pos: position{line: 2681, col: 17, offset: 85224},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2678, col: 17, offset: 85121},
+																	pos:   position{line: 2681, col: 17, offset: 85224},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2857, col: 12, offset: 90542},
+																		pos: position{line: 2860, col: 12, offset: 90645},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2857, col: 13, offset: 90543},
+																			pos: position{line: 2860, col: 13, offset: 90646},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2857, col: 13, offset: 90543},
+																					pos: position{line: 2860, col: 13, offset: 90646},
 																					expr: &litMatcher{
-																						pos:        position{line: 2857, col: 13, offset: 90543},
+																						pos:        position{line: 2860, col: 13, offset: 90646},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2857, col: 18, offset: 90548},
+																					pos: position{line: 2860, col: 18, offset: 90651},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2857, col: 18, offset: 90548},
+																						pos:        position{line: 2860, col: 18, offset: 90651},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47798,7 +47857,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2678, col: 27, offset: 85131},
+																	pos:        position{line: 2681, col: 27, offset: 85234},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47809,38 +47868,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2679, col: 5, offset: 85159},
+												pos:   position{line: 2682, col: 5, offset: 85262},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2679, col: 12, offset: 85166},
+													pos: position{line: 2682, col: 12, offset: 85269},
 													expr: &choiceExpr{
-														pos: position{line: 2680, col: 9, offset: 85176},
+														pos: position{line: 2683, col: 9, offset: 85279},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2680, col: 9, offset: 85176},
+																pos: position{line: 2683, col: 9, offset: 85279},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2680, col: 9, offset: 85176},
+																	pos:        position{line: 2683, col: 9, offset: 85279},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2681, col: 11, offset: 85223},
+																pos: position{line: 2684, col: 11, offset: 85326},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2681, col: 11, offset: 85223},
+																	pos:        position{line: 2684, col: 11, offset: 85326},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2682, col: 11, offset: 85271},
+																pos: position{line: 2685, col: 11, offset: 85374},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2682, col: 11, offset: 85271},
+																	pos:        position{line: 2685, col: 11, offset: 85374},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47851,38 +47910,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2684, col: 5, offset: 85321},
+												pos:   position{line: 2687, col: 5, offset: 85424},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2684, col: 12, offset: 85328},
+													pos: position{line: 2687, col: 12, offset: 85431},
 													expr: &choiceExpr{
-														pos: position{line: 2685, col: 9, offset: 85338},
+														pos: position{line: 2688, col: 9, offset: 85441},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2685, col: 9, offset: 85338},
+																pos: position{line: 2688, col: 9, offset: 85441},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2685, col: 9, offset: 85338},
+																	pos:        position{line: 2688, col: 9, offset: 85441},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2686, col: 11, offset: 85385},
+																pos: position{line: 2689, col: 11, offset: 85488},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2686, col: 11, offset: 85385},
+																	pos:        position{line: 2689, col: 11, offset: 85488},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2687, col: 11, offset: 85435},
+																pos: position{line: 2690, col: 11, offset: 85538},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2687, col: 11, offset: 85435},
+																	pos:        position{line: 2690, col: 11, offset: 85538},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47893,32 +47952,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2689, col: 5, offset: 85486},
+												pos:   position{line: 2692, col: 5, offset: 85589},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2689, col: 12, offset: 85493},
+													pos: position{line: 2692, col: 12, offset: 85596},
 													expr: &choiceExpr{
-														pos: position{line: 2689, col: 13, offset: 85494},
+														pos: position{line: 2692, col: 13, offset: 85597},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2857, col: 12, offset: 90542},
+																pos: position{line: 2860, col: 12, offset: 90645},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2857, col: 13, offset: 90543},
+																	pos: position{line: 2860, col: 13, offset: 90646},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2857, col: 13, offset: 90543},
+																			pos: position{line: 2860, col: 13, offset: 90646},
 																			expr: &litMatcher{
-																				pos:        position{line: 2857, col: 13, offset: 90543},
+																				pos:        position{line: 2860, col: 13, offset: 90646},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2857, col: 18, offset: 90548},
+																			pos: position{line: 2860, col: 18, offset: 90651},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2857, col: 18, offset: 90548},
+																				pos:        position{line: 2860, col: 18, offset: 90651},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47929,10 +47988,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2689, col: 24, offset: 85505},
+																pos: position{line: 2692, col: 24, offset: 85608},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2689, col: 24, offset: 85505},
+																	pos:        position{line: 2692, col: 24, offset: 85608},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -47943,15 +48002,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2690, col: 5, offset: 85547},
+												pos:   position{line: 2693, col: 5, offset: 85650},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2690, col: 11, offset: 85553},
+													pos: position{line: 2693, col: 11, offset: 85656},
 													expr: &actionExpr{
-														pos: position{line: 2690, col: 12, offset: 85554},
+														pos: position{line: 2693, col: 12, offset: 85657},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2690, col: 12, offset: 85554},
+															pos:        position{line: 2693, col: 12, offset: 85657},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -47961,12 +48020,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2692, col: 5, offset: 85684},
+												pos:   position{line: 2695, col: 5, offset: 85787},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2692, col: 11, offset: 85690},
+													pos: position{line: 2695, col: 11, offset: 85793},
 													expr: &litMatcher{
-														pos:        position{line: 2692, col: 12, offset: 85691},
+														pos:        position{line: 2695, col: 12, offset: 85794},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -47974,7 +48033,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2693, col: 5, offset: 85701},
+												pos: position{line: 2696, col: 5, offset: 85804},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -47983,9 +48042,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2884, col: 8, offset: 91063},
+							pos: position{line: 2887, col: 8, offset: 91166},
 							expr: &anyMatcher{
-								line: 2884, col: 9, offset: 91064,
+								line: 2887, col: 9, offset: 91167,
 							},
 						},
 					},
@@ -47994,23 +48053,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2720, col: 1, offset: 86710},
+			pos:  position{line: 2723, col: 1, offset: 86813},
 			expr: &actionExpr{
-				pos: position{line: 2721, col: 5, offset: 86733},
+				pos: position{line: 2724, col: 5, offset: 86836},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2721, col: 5, offset: 86733},
+					pos: position{line: 2724, col: 5, offset: 86836},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2721, col: 5, offset: 86733},
+							pos:   position{line: 2724, col: 5, offset: 86836},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2744, col: 18, offset: 87474},
+								pos: position{line: 2747, col: 18, offset: 87577},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2744, col: 19, offset: 87475},
+									pos: position{line: 2747, col: 19, offset: 87578},
 									expr: &charClassMatcher{
-										pos:        position{line: 2744, col: 19, offset: 87475},
+										pos:        position{line: 2747, col: 19, offset: 87578},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48021,25 +48080,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2722, col: 5, offset: 86759},
+							pos: position{line: 2725, col: 5, offset: 86862},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2726, col: 5, offset: 86887},
+							pos:        position{line: 2729, col: 5, offset: 86990},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2727, col: 5, offset: 86897},
+							pos:   position{line: 2730, col: 5, offset: 87000},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2748, col: 19, offset: 87550},
+								pos: position{line: 2751, col: 19, offset: 87653},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2748, col: 19, offset: 87550},
+									pos: position{line: 2751, col: 19, offset: 87653},
 									expr: &charClassMatcher{
-										pos:        position{line: 2748, col: 19, offset: 87550},
+										pos:        position{line: 2751, col: 19, offset: 87653},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48049,36 +48108,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2728, col: 5, offset: 86925},
+							pos:   position{line: 2731, col: 5, offset: 87028},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2728, col: 17, offset: 86937},
+								pos:  position{line: 2731, col: 17, offset: 87040},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2887, col: 8, offset: 91113},
+							pos: position{line: 2890, col: 8, offset: 91216},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2874, col: 12, offset: 90886},
+									pos: position{line: 2877, col: 12, offset: 90989},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2874, col: 13, offset: 90887},
+										pos: position{line: 2877, col: 13, offset: 90990},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2874, col: 13, offset: 90887},
+												pos:        position{line: 2877, col: 13, offset: 90990},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2874, col: 20, offset: 90894},
+												pos:        position{line: 2877, col: 20, offset: 90997},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2874, col: 29, offset: 90903},
+												pos:        position{line: 2877, col: 29, offset: 91006},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -48087,9 +48146,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2884, col: 8, offset: 91063},
+									pos: position{line: 2887, col: 8, offset: 91166},
 									expr: &anyMatcher{
-										line: 2884, col: 9, offset: 91064,
+										line: 2887, col: 9, offset: 91167,
 									},
 								},
 							},
@@ -48100,23 +48159,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2732, col: 1, offset: 87085},
+			pos:  position{line: 2735, col: 1, offset: 87188},
 			expr: &actionExpr{
-				pos: position{line: 2733, col: 5, offset: 87109},
+				pos: position{line: 2736, col: 5, offset: 87212},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2733, col: 5, offset: 87109},
+					pos: position{line: 2736, col: 5, offset: 87212},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2733, col: 5, offset: 87109},
+							pos:   position{line: 2736, col: 5, offset: 87212},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2744, col: 18, offset: 87474},
+								pos: position{line: 2747, col: 18, offset: 87577},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2744, col: 19, offset: 87475},
+									pos: position{line: 2747, col: 19, offset: 87578},
 									expr: &charClassMatcher{
-										pos:        position{line: 2744, col: 19, offset: 87475},
+										pos:        position{line: 2747, col: 19, offset: 87578},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48127,25 +48186,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2734, col: 5, offset: 87135},
+							pos: position{line: 2737, col: 5, offset: 87238},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2738, col: 5, offset: 87263},
+							pos:        position{line: 2741, col: 5, offset: 87366},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2739, col: 5, offset: 87272},
+							pos:   position{line: 2742, col: 5, offset: 87375},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2748, col: 19, offset: 87550},
+								pos: position{line: 2751, col: 19, offset: 87653},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2748, col: 19, offset: 87550},
+									pos: position{line: 2751, col: 19, offset: 87653},
 									expr: &charClassMatcher{
-										pos:        position{line: 2748, col: 19, offset: 87550},
+										pos:        position{line: 2751, col: 19, offset: 87653},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48155,10 +48214,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2740, col: 5, offset: 87300},
+							pos:   position{line: 2743, col: 5, offset: 87403},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2740, col: 17, offset: 87312},
+								pos:  position{line: 2743, col: 17, offset: 87415},
 								name: "InlineAttributes",
 							},
 						},
@@ -48168,43 +48227,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2819, col: 1, offset: 89362},
+			pos:  position{line: 2822, col: 1, offset: 89465},
 			expr: &actionExpr{
-				pos: position{line: 2819, col: 17, offset: 89378},
+				pos: position{line: 2822, col: 17, offset: 89481},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2819, col: 17, offset: 89378},
+					pos:   position{line: 2822, col: 17, offset: 89481},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2836, col: 5, offset: 89832},
+						pos: position{line: 2839, col: 5, offset: 89935},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2836, col: 5, offset: 89832},
+							pos:   position{line: 2839, col: 5, offset: 89935},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2836, col: 14, offset: 89841},
+								pos: position{line: 2839, col: 14, offset: 89944},
 								expr: &choiceExpr{
-									pos: position{line: 2837, col: 9, offset: 89851},
+									pos: position{line: 2840, col: 9, offset: 89954},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2837, col: 9, offset: 89851},
+											pos: position{line: 2840, col: 9, offset: 89954},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2837, col: 9, offset: 89851},
+												pos: position{line: 2840, col: 9, offset: 89954},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2837, col: 9, offset: 89851},
+														pos: position{line: 2840, col: 9, offset: 89954},
 														expr: &litMatcher{
-															pos:        position{line: 2837, col: 10, offset: 89852},
+															pos:        position{line: 2840, col: 10, offset: 89955},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2838, col: 9, offset: 89880},
+														pos: position{line: 2841, col: 9, offset: 89983},
 														expr: &charClassMatcher{
-															pos:        position{line: 2838, col: 10, offset: 89881},
+															pos:        position{line: 2841, col: 10, offset: 89984},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48215,27 +48274,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2841, col: 11, offset: 90093},
+											pos: position{line: 2844, col: 11, offset: 90196},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2841, col: 11, offset: 90093},
+													pos:        position{line: 2844, col: 11, offset: 90196},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2841, col: 19, offset: 90101},
+													pos: position{line: 2844, col: 19, offset: 90204},
 													expr: &seqExpr{
-														pos: position{line: 2841, col: 21, offset: 90103},
+														pos: position{line: 2844, col: 21, offset: 90206},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2841, col: 21, offset: 90103},
+																pos: position{line: 2844, col: 21, offset: 90206},
 																expr: &actionExpr{
-																	pos: position{line: 2865, col: 10, offset: 90715},
+																	pos: position{line: 2868, col: 10, offset: 90818},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2865, col: 10, offset: 90715},
+																		pos:        position{line: 2868, col: 10, offset: 90818},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48244,11 +48303,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2841, col: 28, offset: 90110},
+																pos: position{line: 2844, col: 28, offset: 90213},
 																expr: &notExpr{
-																	pos: position{line: 2884, col: 8, offset: 91063},
+																	pos: position{line: 2887, col: 8, offset: 91166},
 																	expr: &anyMatcher{
-																		line: 2884, col: 9, offset: 91064,
+																		line: 2887, col: 9, offset: 91167,
 																	},
 																},
 															},
@@ -48258,35 +48317,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 636, col: 5, offset: 20109},
+											pos: position{line: 639, col: 5, offset: 20212},
 											run: (*parser).callonFileLocation23,
 											expr: &seqExpr{
-												pos: position{line: 636, col: 5, offset: 20109},
+												pos: position{line: 639, col: 5, offset: 20212},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 636, col: 5, offset: 20109},
+														pos: position{line: 639, col: 5, offset: 20212},
 														run: (*parser).callonFileLocation25,
 													},
 													&labeledExpr{
-														pos:   position{line: 639, col: 5, offset: 20181},
+														pos:   position{line: 642, col: 5, offset: 20284},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 639, col: 14, offset: 20190},
+															pos: position{line: 642, col: 14, offset: 20293},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 645, col: 5, offset: 20319},
+																	pos: position{line: 648, col: 5, offset: 20422},
 																	run: (*parser).callonFileLocation28,
 																	expr: &seqExpr{
-																		pos: position{line: 645, col: 5, offset: 20319},
+																		pos: position{line: 648, col: 5, offset: 20422},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 645, col: 5, offset: 20319},
+																				pos:        position{line: 648, col: 5, offset: 20422},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 645, col: 13, offset: 20327},
+																				pos:   position{line: 648, col: 13, offset: 20430},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -48318,7 +48377,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 645, col: 32, offset: 20346},
+																				pos:        position{line: 648, col: 32, offset: 20449},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48327,19 +48386,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 652, col: 5, offset: 20587},
+																	pos: position{line: 655, col: 5, offset: 20690},
 																	run: (*parser).callonFileLocation38,
 																	expr: &seqExpr{
-																		pos: position{line: 652, col: 5, offset: 20587},
+																		pos: position{line: 655, col: 5, offset: 20690},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 652, col: 5, offset: 20587},
+																				pos:        position{line: 655, col: 5, offset: 20690},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 652, col: 9, offset: 20591},
+																				pos:   position{line: 655, col: 9, offset: 20694},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -48371,7 +48430,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 652, col: 28, offset: 20610},
+																				pos:        position{line: 655, col: 28, offset: 20713},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48380,19 +48439,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 658, col: 25, offset: 20791},
+																	pos: position{line: 661, col: 25, offset: 20894},
 																	run: (*parser).callonFileLocation48,
 																	expr: &seqExpr{
-																		pos: position{line: 658, col: 25, offset: 20791},
+																		pos: position{line: 661, col: 25, offset: 20894},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 658, col: 25, offset: 20791},
+																				pos:        position{line: 661, col: 25, offset: 20894},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 37, offset: 20803},
+																				pos:   position{line: 661, col: 37, offset: 20906},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -48424,33 +48483,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 658, col: 56, offset: 20822},
+																				pos:   position{line: 661, col: 56, offset: 20925},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 658, col: 62, offset: 20828},
+																					pos: position{line: 661, col: 62, offset: 20931},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 669, col: 17, offset: 21226},
 																						run: (*parser).callonFileLocation59,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21123},
+																							pos: position{line: 669, col: 17, offset: 21226},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21123},
+																									pos:        position{line: 669, col: 17, offset: 21226},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21127},
+																									pos:   position{line: 669, col: 21, offset: 21230},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 669, col: 28, offset: 21237},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 669, col: 28, offset: 21237},
 																												run: (*parser).callonFileLocation64,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21134},
+																													pos:        position{line: 669, col: 28, offset: 21237},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -48458,12 +48517,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 671, col: 9, offset: 21291},
 																												run: (*parser).callonFileLocation66,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21188},
+																													pos: position{line: 671, col: 9, offset: 21291},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21188},
+																														pos:        position{line: 671, col: 9, offset: 21291},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -48480,7 +48539,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 658, col: 78, offset: 20844},
+																				pos:        position{line: 661, col: 78, offset: 20947},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48489,19 +48548,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 662, col: 25, offset: 20962},
+																	pos: position{line: 665, col: 25, offset: 21065},
 																	run: (*parser).callonFileLocation70,
 																	expr: &seqExpr{
-																		pos: position{line: 662, col: 25, offset: 20962},
+																		pos: position{line: 665, col: 25, offset: 21065},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 662, col: 25, offset: 20962},
+																				pos:        position{line: 665, col: 25, offset: 21065},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 38, offset: 20975},
+																				pos:   position{line: 665, col: 38, offset: 21078},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -48533,33 +48592,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 57, offset: 20994},
+																				pos:   position{line: 665, col: 57, offset: 21097},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 662, col: 63, offset: 21000},
+																					pos: position{line: 665, col: 63, offset: 21103},
 																					expr: &actionExpr{
-																						pos: position{line: 666, col: 17, offset: 21123},
+																						pos: position{line: 669, col: 17, offset: 21226},
 																						run: (*parser).callonFileLocation81,
 																						expr: &seqExpr{
-																							pos: position{line: 666, col: 17, offset: 21123},
+																							pos: position{line: 669, col: 17, offset: 21226},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 666, col: 17, offset: 21123},
+																									pos:        position{line: 669, col: 17, offset: 21226},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 666, col: 21, offset: 21127},
+																									pos:   position{line: 669, col: 21, offset: 21230},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 666, col: 28, offset: 21134},
+																										pos: position{line: 669, col: 28, offset: 21237},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 666, col: 28, offset: 21134},
+																												pos: position{line: 669, col: 28, offset: 21237},
 																												run: (*parser).callonFileLocation86,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 666, col: 28, offset: 21134},
+																													pos:        position{line: 669, col: 28, offset: 21237},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -48567,12 +48626,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 9, offset: 21188},
+																												pos: position{line: 671, col: 9, offset: 21291},
 																												run: (*parser).callonFileLocation88,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 668, col: 9, offset: 21188},
+																													pos: position{line: 671, col: 9, offset: 21291},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 668, col: 9, offset: 21188},
+																														pos:        position{line: 671, col: 9, offset: 21291},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -48589,7 +48648,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 662, col: 79, offset: 21016},
+																				pos:        position{line: 665, col: 79, offset: 21119},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48604,27 +48663,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1210, col: 23, offset: 37374},
+											pos: position{line: 1213, col: 23, offset: 37477},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1210, col: 23, offset: 37374},
+												pos: position{line: 1213, col: 23, offset: 37477},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1208, col: 32, offset: 37342},
+														pos:        position{line: 1211, col: 32, offset: 37445},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1210, col: 51, offset: 37402},
+														pos:   position{line: 1213, col: 51, offset: 37505},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1210, col: 56, offset: 37407},
+															pos: position{line: 1213, col: 56, offset: 37510},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1210, col: 56, offset: 37407},
+																pos: position{line: 1213, col: 56, offset: 37510},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1210, col: 56, offset: 37407},
+																	pos:        position{line: 1213, col: 56, offset: 37510},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -48634,7 +48693,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1208, col: 32, offset: 37342},
+														pos:        position{line: 1211, col: 32, offset: 37445},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -48643,10 +48702,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2844, col: 11, offset: 90230},
+											pos: position{line: 2847, col: 11, offset: 90333},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2844, col: 11, offset: 90230},
+												pos:        position{line: 2847, col: 11, offset: 90333},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -56530,6 +56589,28 @@ func (p *parser) callonUnquotedAttributeValue85() (interface{}, error) {
 	return p.cur.onUnquotedAttributeValue85()
 }
 
+func (c *current) onUnquotedAttributeValue90() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonUnquotedAttributeValue90() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onUnquotedAttributeValue90()
+}
+
+func (c *current) onUnquotedAttributeValue88() (interface{}, error) {
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonUnquotedAttributeValue88() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onUnquotedAttributeValue88()
+}
+
 func (c *current) onUnquotedAttributeValue1(elements interface{}) (interface{}, error) {
 	return types.Reduce(elements, strings.TrimSpace), nil
 
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 7852288..bde9e9e 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -621,7 +621,10 @@ UnquotedAttributeValue <-
         ("[" UnquotedAttributeValue "]") // recursively within brackets (see comment above)
         / AttributeReference / "{" // standalone, if `AttributeReference` is not enabled
         / Space
-        / ([^=,\]{ ]+ { // not within brackets and stop on space and quotation marks (`"')
+        / ([^=,\]{ \r\n]+ { // not within brackets and stop on space and quotation marks (`"')
+            return string(c.text), nil
+        })
+        / (Newline !SinglelineCommentDelimiter {
             return string(c.text), nil
         })
     )+ {
-- 
2.43.0


From 3559903b43368db5c97f73bf8ab701624b26b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:59 +0000
Subject: [PATCH 060/108] fix: keep section titles and attribute values on
 their line

the elements of a title or of the value of an attribute could extend to the next lines, including comments
---
 pkg/parser/parser.go     | 21657 +++++++++++++++++++------------------
 pkg/parser/parser.peg    |    25 +-
 pkg/parser/parser_ext.go |     9 +
 3 files changed, 10925 insertions(+), 10766 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index c3452f6..f232765 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -45,19 +45,19 @@ var g = &grammar{
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
-										pos: position{line: 360, col: 19, offset: 10910},
+										pos: position{line: 367, col: 19, offset: 11153},
 										run: (*parser).callonDocumentRawLine6,
 										expr: &seqExpr{
-											pos: position{line: 360, col: 19, offset: 10910},
+											pos: position{line: 367, col: 19, offset: 11153},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 360, col: 19, offset: 10910},
+													pos:        position{line: 367, col: 19, offset: 11153},
 													val:        ":!",
 													ignoreCase: false,
 													want:       "\":!\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 360, col: 24, offset: 10915},
+													pos:   position{line: 367, col: 24, offset: 11158},
 													label: "name",
 													expr: &actionExpr{
 														pos: position{line: 318, col: 18, offset: 9736},
@@ -89,18 +89,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 360, col: 45, offset: 10936},
+													pos:        position{line: 367, col: 45, offset: 11179},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 360, col: 49, offset: 10940},
+													pos: position{line: 367, col: 49, offset: 11183},
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 10, offset: 90818},
+														pos: position{line: 2883, col: 10, offset: 91286},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2868, col: 10, offset: 90818},
+															pos:        position{line: 2883, col: 10, offset: 91286},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2890, col: 8, offset: 91216},
+													pos: position{line: 2905, col: 8, offset: 91684},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2877, col: 12, offset: 90989},
+															pos: position{line: 2892, col: 12, offset: 91457},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2877, col: 13, offset: 90990},
+																pos: position{line: 2892, col: 13, offset: 91458},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 13, offset: 90990},
+																		pos:        position{line: 2892, col: 13, offset: 91458},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 20, offset: 90997},
+																		pos:        position{line: 2892, col: 20, offset: 91465},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 29, offset: 91006},
+																		pos:        position{line: 2892, col: 29, offset: 91474},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2887, col: 8, offset: 91166},
+															pos: position{line: 2902, col: 8, offset: 91634},
 															expr: &anyMatcher{
-																line: 2887, col: 9, offset: 91167,
+																line: 2902, col: 9, offset: 91635,
 															},
 														},
 													},
@@ -150,19 +150,19 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 362, col: 9, offset: 11031},
+										pos: position{line: 369, col: 9, offset: 11274},
 										run: (*parser).callonDocumentRawLine27,
 										expr: &seqExpr{
-											pos: position{line: 362, col: 9, offset: 11031},
+											pos: position{line: 369, col: 9, offset: 11274},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 362, col: 9, offset: 11031},
+													pos:        position{line: 369, col: 9, offset: 11274},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 362, col: 13, offset: 11035},
+													pos:   position{line: 369, col: 13, offset: 11278},
 													label: "name",
 													expr: &actionExpr{
 														pos: position{line: 318, col: 18, offset: 9736},
@@ -194,18 +194,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 362, col: 34, offset: 11056},
+													pos:        position{line: 369, col: 34, offset: 11299},
 													val:        "!:",
 													ignoreCase: false,
 													want:       "\"!:\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 362, col: 39, offset: 11061},
+													pos: position{line: 369, col: 39, offset: 11304},
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 10, offset: 90818},
+														pos: position{line: 2883, col: 10, offset: 91286},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2868, col: 10, offset: 90818},
+															pos:        position{line: 2883, col: 10, offset: 91286},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2890, col: 8, offset: 91216},
+													pos: position{line: 2905, col: 8, offset: 91684},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2877, col: 12, offset: 90989},
+															pos: position{line: 2892, col: 12, offset: 91457},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2877, col: 13, offset: 90990},
+																pos: position{line: 2892, col: 13, offset: 91458},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 13, offset: 90990},
+																		pos:        position{line: 2892, col: 13, offset: 91458},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 20, offset: 90997},
+																		pos:        position{line: 2892, col: 20, offset: 91465},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 29, offset: 91006},
+																		pos:        position{line: 2892, col: 29, offset: 91474},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2887, col: 8, offset: 91166},
+															pos: position{line: 2902, col: 8, offset: 91634},
 															expr: &anyMatcher{
-																line: 2887, col: 9, offset: 91167,
+																line: 2902, col: 9, offset: 91635,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 10, offset: 90818},
+														pos: position{line: 2883, col: 10, offset: 91286},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2868, col: 10, offset: 90818},
+															pos:        position{line: 2883, col: 10, offset: 91286},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2887, col: 8, offset: 91166},
+													pos: position{line: 2902, col: 8, offset: 91634},
 													expr: &anyMatcher{
-														line: 2887, col: 9, offset: 91167,
+														line: 2902, col: 9, offset: 91635,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 10, offset: 90818},
+														pos: position{line: 2883, col: 10, offset: 91286},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2868, col: 10, offset: 90818},
+															pos:        position{line: 2883, col: 10, offset: 91286},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2887, col: 8, offset: 91166},
+													pos: position{line: 2902, col: 8, offset: 91634},
 													expr: &anyMatcher{
-														line: 2887, col: 9, offset: 91167,
+														line: 2902, col: 9, offset: 91635,
 													},
 												},
 											},
@@ -464,22 +464,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 648, col: 5, offset: 20422},
+																				pos: position{line: 655, col: 5, offset: 20665},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 648, col: 5, offset: 20422},
+																						pos: position{line: 655, col: 5, offset: 20665},
 																						run: (*parser).callonDocumentRawLine97,
 																						expr: &seqExpr{
-																							pos: position{line: 648, col: 5, offset: 20422},
+																							pos: position{line: 655, col: 5, offset: 20665},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 648, col: 5, offset: 20422},
+																									pos:        position{line: 655, col: 5, offset: 20665},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 648, col: 13, offset: 20430},
+																									pos:   position{line: 655, col: 13, offset: 20673},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -511,7 +511,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 648, col: 32, offset: 20449},
+																									pos:        position{line: 655, col: 32, offset: 20692},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -520,19 +520,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 655, col: 5, offset: 20690},
+																						pos: position{line: 662, col: 5, offset: 20933},
 																						run: (*parser).callonDocumentRawLine107,
 																						expr: &seqExpr{
-																							pos: position{line: 655, col: 5, offset: 20690},
+																							pos: position{line: 662, col: 5, offset: 20933},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 655, col: 5, offset: 20690},
+																									pos:        position{line: 662, col: 5, offset: 20933},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 655, col: 9, offset: 20694},
+																									pos:   position{line: 662, col: 9, offset: 20937},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -564,7 +564,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 655, col: 28, offset: 20713},
+																									pos:        position{line: 662, col: 28, offset: 20956},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -600,22 +600,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 648, col: 5, offset: 20422},
+																				pos: position{line: 655, col: 5, offset: 20665},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 648, col: 5, offset: 20422},
+																						pos: position{line: 655, col: 5, offset: 20665},
 																						run: (*parser).callonDocumentRawLine123,
 																						expr: &seqExpr{
-																							pos: position{line: 648, col: 5, offset: 20422},
+																							pos: position{line: 655, col: 5, offset: 20665},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 648, col: 5, offset: 20422},
+																									pos:        position{line: 655, col: 5, offset: 20665},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 648, col: 13, offset: 20430},
+																									pos:   position{line: 655, col: 13, offset: 20673},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -647,7 +647,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 648, col: 32, offset: 20449},
+																									pos:        position{line: 655, col: 32, offset: 20692},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -656,19 +656,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 655, col: 5, offset: 20690},
+																						pos: position{line: 662, col: 5, offset: 20933},
 																						run: (*parser).callonDocumentRawLine133,
 																						expr: &seqExpr{
-																							pos: position{line: 655, col: 5, offset: 20690},
+																							pos: position{line: 662, col: 5, offset: 20933},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 655, col: 5, offset: 20690},
+																									pos:        position{line: 662, col: 5, offset: 20933},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 655, col: 9, offset: 20694},
+																									pos:   position{line: 662, col: 9, offset: 20937},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -700,7 +700,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 655, col: 28, offset: 20713},
+																									pos:        position{line: 662, col: 28, offset: 20956},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -727,22 +727,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 648, col: 5, offset: 20422},
+																		pos: position{line: 655, col: 5, offset: 20665},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 648, col: 5, offset: 20422},
+																				pos: position{line: 655, col: 5, offset: 20665},
 																				run: (*parser).callonDocumentRawLine147,
 																				expr: &seqExpr{
-																					pos: position{line: 648, col: 5, offset: 20422},
+																					pos: position{line: 655, col: 5, offset: 20665},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 648, col: 5, offset: 20422},
+																							pos:        position{line: 655, col: 5, offset: 20665},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 648, col: 13, offset: 20430},
+																							pos:   position{line: 655, col: 13, offset: 20673},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -774,7 +774,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 648, col: 32, offset: 20449},
+																							pos:        position{line: 655, col: 32, offset: 20692},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -783,19 +783,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 655, col: 5, offset: 20690},
+																				pos: position{line: 662, col: 5, offset: 20933},
 																				run: (*parser).callonDocumentRawLine157,
 																				expr: &seqExpr{
-																					pos: position{line: 655, col: 5, offset: 20690},
+																					pos: position{line: 662, col: 5, offset: 20933},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 655, col: 5, offset: 20690},
+																							pos:        position{line: 662, col: 5, offset: 20933},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 655, col: 9, offset: 20694},
+																							pos:   position{line: 662, col: 9, offset: 20937},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -827,7 +827,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 655, col: 28, offset: 20713},
+																							pos:        position{line: 662, col: 28, offset: 20956},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2860, col: 12, offset: 90645},
+																pos: position{line: 2875, col: 12, offset: 91113},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2860, col: 13, offset: 90646},
+																	pos: position{line: 2875, col: 13, offset: 91114},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2860, col: 13, offset: 90646},
+																			pos: position{line: 2875, col: 13, offset: 91114},
 																			expr: &litMatcher{
-																				pos:        position{line: 2860, col: 13, offset: 90646},
+																				pos:        position{line: 2875, col: 13, offset: 91114},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2860, col: 18, offset: 90651},
+																			pos: position{line: 2875, col: 18, offset: 91119},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2860, col: 18, offset: 90651},
+																				pos:        position{line: 2875, col: 18, offset: 91119},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 10, offset: 90818},
+														pos: position{line: 2883, col: 10, offset: 91286},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2868, col: 10, offset: 90818},
+															pos:        position{line: 2883, col: 10, offset: 91286},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 10, offset: 90818},
+														pos: position{line: 2883, col: 10, offset: 91286},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2868, col: 10, offset: 90818},
+															pos:        position{line: 2883, col: 10, offset: 91286},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1069,22 +1069,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 648, col: 5, offset: 20422},
+																				pos: position{line: 655, col: 5, offset: 20665},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 648, col: 5, offset: 20422},
+																						pos: position{line: 655, col: 5, offset: 20665},
 																						run: (*parser).callonDocumentRawLine216,
 																						expr: &seqExpr{
-																							pos: position{line: 648, col: 5, offset: 20422},
+																							pos: position{line: 655, col: 5, offset: 20665},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 648, col: 5, offset: 20422},
+																									pos:        position{line: 655, col: 5, offset: 20665},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 648, col: 13, offset: 20430},
+																									pos:   position{line: 655, col: 13, offset: 20673},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -1116,7 +1116,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 648, col: 32, offset: 20449},
+																									pos:        position{line: 655, col: 32, offset: 20692},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1125,19 +1125,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 655, col: 5, offset: 20690},
+																						pos: position{line: 662, col: 5, offset: 20933},
 																						run: (*parser).callonDocumentRawLine226,
 																						expr: &seqExpr{
-																							pos: position{line: 655, col: 5, offset: 20690},
+																							pos: position{line: 662, col: 5, offset: 20933},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 655, col: 5, offset: 20690},
+																									pos:        position{line: 662, col: 5, offset: 20933},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 655, col: 9, offset: 20694},
+																									pos:   position{line: 662, col: 9, offset: 20937},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -1169,7 +1169,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 655, col: 28, offset: 20713},
+																									pos:        position{line: 662, col: 28, offset: 20956},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1205,22 +1205,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 648, col: 5, offset: 20422},
+																				pos: position{line: 655, col: 5, offset: 20665},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 648, col: 5, offset: 20422},
+																						pos: position{line: 655, col: 5, offset: 20665},
 																						run: (*parser).callonDocumentRawLine242,
 																						expr: &seqExpr{
-																							pos: position{line: 648, col: 5, offset: 20422},
+																							pos: position{line: 655, col: 5, offset: 20665},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 648, col: 5, offset: 20422},
+																									pos:        position{line: 655, col: 5, offset: 20665},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 648, col: 13, offset: 20430},
+																									pos:   position{line: 655, col: 13, offset: 20673},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -1252,7 +1252,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 648, col: 32, offset: 20449},
+																									pos:        position{line: 655, col: 32, offset: 20692},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1261,19 +1261,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 655, col: 5, offset: 20690},
+																						pos: position{line: 662, col: 5, offset: 20933},
 																						run: (*parser).callonDocumentRawLine252,
 																						expr: &seqExpr{
-																							pos: position{line: 655, col: 5, offset: 20690},
+																							pos: position{line: 662, col: 5, offset: 20933},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 655, col: 5, offset: 20690},
+																									pos:        position{line: 662, col: 5, offset: 20933},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 655, col: 9, offset: 20694},
+																									pos:   position{line: 662, col: 9, offset: 20937},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -1305,7 +1305,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 655, col: 28, offset: 20713},
+																									pos:        position{line: 662, col: 28, offset: 20956},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1332,22 +1332,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 648, col: 5, offset: 20422},
+																		pos: position{line: 655, col: 5, offset: 20665},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 648, col: 5, offset: 20422},
+																				pos: position{line: 655, col: 5, offset: 20665},
 																				run: (*parser).callonDocumentRawLine266,
 																				expr: &seqExpr{
-																					pos: position{line: 648, col: 5, offset: 20422},
+																					pos: position{line: 655, col: 5, offset: 20665},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 648, col: 5, offset: 20422},
+																							pos:        position{line: 655, col: 5, offset: 20665},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 648, col: 13, offset: 20430},
+																							pos:   position{line: 655, col: 13, offset: 20673},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -1379,7 +1379,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 648, col: 32, offset: 20449},
+																							pos:        position{line: 655, col: 32, offset: 20692},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1388,19 +1388,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 655, col: 5, offset: 20690},
+																				pos: position{line: 662, col: 5, offset: 20933},
 																				run: (*parser).callonDocumentRawLine276,
 																				expr: &seqExpr{
-																					pos: position{line: 655, col: 5, offset: 20690},
+																					pos: position{line: 662, col: 5, offset: 20933},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 655, col: 5, offset: 20690},
+																							pos:        position{line: 662, col: 5, offset: 20933},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 655, col: 9, offset: 20694},
+																							pos:   position{line: 662, col: 9, offset: 20937},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -1432,7 +1432,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 655, col: 28, offset: 20713},
+																							pos:        position{line: 662, col: 28, offset: 20956},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2860, col: 12, offset: 90645},
+																pos: position{line: 2875, col: 12, offset: 91113},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2860, col: 13, offset: 90646},
+																	pos: position{line: 2875, col: 13, offset: 91114},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2860, col: 13, offset: 90646},
+																			pos: position{line: 2875, col: 13, offset: 91114},
 																			expr: &litMatcher{
-																				pos:        position{line: 2860, col: 13, offset: 90646},
+																				pos:        position{line: 2875, col: 13, offset: 91114},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2860, col: 18, offset: 90651},
+																			pos: position{line: 2875, col: 18, offset: 91119},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2860, col: 18, offset: 90651},
+																				pos:        position{line: 2875, col: 18, offset: 91119},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 10, offset: 90818},
+														pos: position{line: 2883, col: 10, offset: 91286},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2868, col: 10, offset: 90818},
+															pos:        position{line: 2883, col: 10, offset: 91286},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2887, col: 8, offset: 91166},
+													pos: position{line: 2902, col: 8, offset: 91634},
 													expr: &anyMatcher{
-														line: 2887, col: 9, offset: 91167,
+														line: 2902, col: 9, offset: 91635,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 10, offset: 90818},
+														pos: position{line: 2883, col: 10, offset: 91286},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2868, col: 10, offset: 90818},
+															pos:        position{line: 2883, col: 10, offset: 91286},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,24 +1665,24 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2887, col: 8, offset: 91166},
+													pos: position{line: 2902, col: 8, offset: 91634},
 													expr: &anyMatcher{
-														line: 2887, col: 9, offset: 91167,
+														line: 2902, col: 9, offset: 91635,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 727, col: 5, offset: 23145},
+										pos: position{line: 734, col: 5, offset: 23388},
 										run: (*parser).callonDocumentRawLine334,
 										expr: &seqExpr{
-											pos: position{line: 727, col: 5, offset: 23145},
+											pos: position{line: 734, col: 5, offset: 23388},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 727, col: 5, offset: 23145},
+													pos: position{line: 734, col: 5, offset: 23388},
 													expr: &charClassMatcher{
-														pos:        position{line: 2758, col: 13, offset: 87913},
+														pos:        position{line: 2773, col: 13, offset: 88381},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1690,36 +1690,36 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 728, col: 5, offset: 23175},
+													pos:   position{line: 735, col: 5, offset: 23418},
 													label: "delimiter",
 													expr: &choiceExpr{
-														pos: position{line: 729, col: 9, offset: 23195},
+														pos: position{line: 736, col: 9, offset: 23438},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 743, col: 5, offset: 23687},
+																pos: position{line: 750, col: 5, offset: 23930},
 																run: (*parser).callonDocumentRawLine340,
 																expr: &seqExpr{
-																	pos: position{line: 743, col: 5, offset: 23687},
+																	pos: position{line: 750, col: 5, offset: 23930},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 743, col: 5, offset: 23687},
+																			pos:   position{line: 750, col: 5, offset: 23930},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 743, col: 16, offset: 23698},
+																				pos: position{line: 750, col: 16, offset: 23941},
 																				run: (*parser).callonDocumentRawLine343,
 																				expr: &seqExpr{
-																					pos: position{line: 743, col: 16, offset: 23698},
+																					pos: position{line: 750, col: 16, offset: 23941},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 743, col: 16, offset: 23698},
+																							pos:        position{line: 750, col: 16, offset: 23941},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 743, col: 23, offset: 23705},
+																							pos: position{line: 750, col: 23, offset: 23948},
 																							expr: &litMatcher{
-																								pos:        position{line: 743, col: 23, offset: 23705},
+																								pos:        position{line: 750, col: 23, offset: 23948},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1730,12 +1730,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 745, col: 8, offset: 23789},
+																			pos: position{line: 752, col: 8, offset: 24032},
 																			expr: &actionExpr{
-																				pos: position{line: 2868, col: 10, offset: 90818},
+																				pos: position{line: 2883, col: 10, offset: 91286},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 10, offset: 90818},
+																					pos:        position{line: 2883, col: 10, offset: 91286},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2890, col: 8, offset: 91216},
+																			pos: position{line: 2905, col: 8, offset: 91684},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2877, col: 12, offset: 90989},
+																					pos: position{line: 2892, col: 12, offset: 91457},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2877, col: 13, offset: 90990},
+																						pos: position{line: 2892, col: 13, offset: 91458},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 13, offset: 90990},
+																								pos:        position{line: 2892, col: 13, offset: 91458},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 20, offset: 90997},
+																								pos:        position{line: 2892, col: 20, offset: 91465},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 29, offset: 91006},
+																								pos:        position{line: 2892, col: 29, offset: 91474},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
@@ -1785,30 +1785,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 750, col: 5, offset: 23935},
+																pos: position{line: 757, col: 5, offset: 24178},
 																run: (*parser).callonDocumentRawLine359,
 																expr: &seqExpr{
-																	pos: position{line: 750, col: 5, offset: 23935},
+																	pos: position{line: 757, col: 5, offset: 24178},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 750, col: 5, offset: 23935},
+																			pos:   position{line: 757, col: 5, offset: 24178},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 750, col: 16, offset: 23946},
+																				pos: position{line: 757, col: 16, offset: 24189},
 																				run: (*parser).callonDocumentRawLine362,
 																				expr: &seqExpr{
-																					pos: position{line: 750, col: 16, offset: 23946},
+																					pos: position{line: 757, col: 16, offset: 24189},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 750, col: 16, offset: 23946},
+																							pos:        position{line: 757, col: 16, offset: 24189},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 750, col: 23, offset: 23953},
+																							pos: position{line: 757, col: 23, offset: 24196},
 																							expr: &litMatcher{
-																								pos:        position{line: 750, col: 23, offset: 23953},
+																								pos:        position{line: 757, col: 23, offset: 24196},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1819,12 +1819,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 752, col: 8, offset: 24037},
+																			pos: position{line: 759, col: 8, offset: 24280},
 																			expr: &actionExpr{
-																				pos: position{line: 2868, col: 10, offset: 90818},
+																				pos: position{line: 2883, col: 10, offset: 91286},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 10, offset: 90818},
+																					pos:        position{line: 2883, col: 10, offset: 91286},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2890, col: 8, offset: 91216},
+																			pos: position{line: 2905, col: 8, offset: 91684},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2877, col: 12, offset: 90989},
+																					pos: position{line: 2892, col: 12, offset: 91457},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2877, col: 13, offset: 90990},
+																						pos: position{line: 2892, col: 13, offset: 91458},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 13, offset: 90990},
+																								pos:        position{line: 2892, col: 13, offset: 91458},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 20, offset: 90997},
+																								pos:        position{line: 2892, col: 20, offset: 91465},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 29, offset: 91006},
+																								pos:        position{line: 2892, col: 29, offset: 91474},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
@@ -1874,27 +1874,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 763, col: 26, offset: 24423},
+																pos: position{line: 770, col: 26, offset: 24666},
 																run: (*parser).callonDocumentRawLine378,
 																expr: &seqExpr{
-																	pos: position{line: 763, col: 26, offset: 24423},
+																	pos: position{line: 770, col: 26, offset: 24666},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 763, col: 26, offset: 24423},
+																			pos:        position{line: 770, col: 26, offset: 24666},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 763, col: 32, offset: 24429},
+																			pos:   position{line: 770, col: 32, offset: 24672},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 767, col: 13, offset: 24559},
+																				pos: position{line: 774, col: 13, offset: 24802},
 																				run: (*parser).callonDocumentRawLine382,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 767, col: 14, offset: 24560},
+																					pos: position{line: 774, col: 14, offset: 24803},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 767, col: 14, offset: 24560},
+																						pos:        position{line: 774, col: 14, offset: 24803},
 																						val:        "[^\\r\\n` ]",
 																						chars:      []rune{'\r', '\n', '`', ' '},
 																						ignoreCase: false,
@@ -1904,12 +1904,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 763, col: 52, offset: 24449},
+																			pos: position{line: 770, col: 52, offset: 24692},
 																			expr: &actionExpr{
-																				pos: position{line: 2868, col: 10, offset: 90818},
+																				pos: position{line: 2883, col: 10, offset: 91286},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 10, offset: 90818},
+																					pos:        position{line: 2883, col: 10, offset: 91286},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2890, col: 8, offset: 91216},
+																			pos: position{line: 2905, col: 8, offset: 91684},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2877, col: 12, offset: 90989},
+																					pos: position{line: 2892, col: 12, offset: 91457},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2877, col: 13, offset: 90990},
+																						pos: position{line: 2892, col: 13, offset: 91458},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 13, offset: 90990},
+																								pos:        position{line: 2892, col: 13, offset: 91458},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 20, offset: 90997},
+																								pos:        position{line: 2892, col: 20, offset: 91465},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 29, offset: 91006},
+																								pos:        position{line: 2892, col: 29, offset: 91474},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
@@ -1959,30 +1959,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 757, col: 5, offset: 24182},
+																pos: position{line: 764, col: 5, offset: 24425},
 																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
-																	pos: position{line: 757, col: 5, offset: 24182},
+																	pos: position{line: 764, col: 5, offset: 24425},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 757, col: 5, offset: 24182},
+																			pos:   position{line: 764, col: 5, offset: 24425},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 757, col: 16, offset: 24193},
+																				pos: position{line: 764, col: 16, offset: 24436},
 																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
-																					pos: position{line: 757, col: 16, offset: 24193},
+																					pos: position{line: 764, col: 16, offset: 24436},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 757, col: 16, offset: 24193},
+																							pos:        position{line: 764, col: 16, offset: 24436},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 757, col: 22, offset: 24199},
+																							pos: position{line: 764, col: 22, offset: 24442},
 																							expr: &litMatcher{
-																								pos:        position{line: 757, col: 22, offset: 24199},
+																								pos:        position{line: 764, col: 22, offset: 24442},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -1993,12 +1993,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 759, col: 8, offset: 24283},
+																			pos: position{line: 766, col: 8, offset: 24526},
 																			expr: &actionExpr{
-																				pos: position{line: 2868, col: 10, offset: 90818},
+																				pos: position{line: 2883, col: 10, offset: 91286},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 10, offset: 90818},
+																					pos:        position{line: 2883, col: 10, offset: 91286},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2890, col: 8, offset: 91216},
+																			pos: position{line: 2905, col: 8, offset: 91684},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2877, col: 12, offset: 90989},
+																					pos: position{line: 2892, col: 12, offset: 91457},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2877, col: 13, offset: 90990},
+																						pos: position{line: 2892, col: 13, offset: 91458},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 13, offset: 90990},
+																								pos:        position{line: 2892, col: 13, offset: 91458},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 20, offset: 90997},
+																								pos:        position{line: 2892, col: 20, offset: 91465},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 29, offset: 91006},
+																								pos:        position{line: 2892, col: 29, offset: 91474},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
@@ -2048,30 +2048,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 772, col: 5, offset: 24719},
+																pos: position{line: 779, col: 5, offset: 24962},
 																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
-																	pos: position{line: 772, col: 5, offset: 24719},
+																	pos: position{line: 779, col: 5, offset: 24962},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 772, col: 5, offset: 24719},
+																			pos:   position{line: 779, col: 5, offset: 24962},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 772, col: 16, offset: 24730},
+																				pos: position{line: 779, col: 16, offset: 24973},
 																				run: (*parser).callonDocumentRawLine418,
 																				expr: &seqExpr{
-																					pos: position{line: 772, col: 16, offset: 24730},
+																					pos: position{line: 779, col: 16, offset: 24973},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 772, col: 16, offset: 24730},
+																							pos:        position{line: 779, col: 16, offset: 24973},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 772, col: 23, offset: 24737},
+																							pos: position{line: 779, col: 23, offset: 24980},
 																							expr: &litMatcher{
-																								pos:        position{line: 772, col: 23, offset: 24737},
+																								pos:        position{line: 779, col: 23, offset: 24980},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2082,12 +2082,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 774, col: 8, offset: 24821},
+																			pos: position{line: 781, col: 8, offset: 25064},
 																			expr: &actionExpr{
-																				pos: position{line: 2868, col: 10, offset: 90818},
+																				pos: position{line: 2883, col: 10, offset: 91286},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 10, offset: 90818},
+																					pos:        position{line: 2883, col: 10, offset: 91286},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2890, col: 8, offset: 91216},
+																			pos: position{line: 2905, col: 8, offset: 91684},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2877, col: 12, offset: 90989},
+																					pos: position{line: 2892, col: 12, offset: 91457},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2877, col: 13, offset: 90990},
+																						pos: position{line: 2892, col: 13, offset: 91458},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 13, offset: 90990},
+																								pos:        position{line: 2892, col: 13, offset: 91458},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 20, offset: 90997},
+																								pos:        position{line: 2892, col: 20, offset: 91465},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 29, offset: 91006},
+																								pos:        position{line: 2892, col: 29, offset: 91474},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
@@ -2137,30 +2137,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 786, col: 5, offset: 25195},
+																pos: position{line: 793, col: 5, offset: 25438},
 																run: (*parser).callonDocumentRawLine434,
 																expr: &seqExpr{
-																	pos: position{line: 786, col: 5, offset: 25195},
+																	pos: position{line: 793, col: 5, offset: 25438},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 786, col: 5, offset: 25195},
+																			pos:   position{line: 793, col: 5, offset: 25438},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 786, col: 16, offset: 25206},
+																				pos: position{line: 793, col: 16, offset: 25449},
 																				run: (*parser).callonDocumentRawLine437,
 																				expr: &seqExpr{
-																					pos: position{line: 786, col: 16, offset: 25206},
+																					pos: position{line: 793, col: 16, offset: 25449},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 786, col: 16, offset: 25206},
+																							pos:        position{line: 793, col: 16, offset: 25449},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 786, col: 23, offset: 25213},
+																							pos: position{line: 793, col: 23, offset: 25456},
 																							expr: &litMatcher{
-																								pos:        position{line: 786, col: 23, offset: 25213},
+																								pos:        position{line: 793, col: 23, offset: 25456},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2171,12 +2171,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 788, col: 8, offset: 25297},
+																			pos: position{line: 795, col: 8, offset: 25540},
 																			expr: &actionExpr{
-																				pos: position{line: 2868, col: 10, offset: 90818},
+																				pos: position{line: 2883, col: 10, offset: 91286},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 10, offset: 90818},
+																					pos:        position{line: 2883, col: 10, offset: 91286},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2890, col: 8, offset: 91216},
+																			pos: position{line: 2905, col: 8, offset: 91684},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2877, col: 12, offset: 90989},
+																					pos: position{line: 2892, col: 12, offset: 91457},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2877, col: 13, offset: 90990},
+																						pos: position{line: 2892, col: 13, offset: 91458},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 13, offset: 90990},
+																								pos:        position{line: 2892, col: 13, offset: 91458},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 20, offset: 90997},
+																								pos:        position{line: 2892, col: 20, offset: 91465},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 29, offset: 91006},
+																								pos:        position{line: 2892, col: 29, offset: 91474},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
@@ -2226,30 +2226,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 793, col: 5, offset: 25447},
+																pos: position{line: 800, col: 5, offset: 25690},
 																run: (*parser).callonDocumentRawLine453,
 																expr: &seqExpr{
-																	pos: position{line: 793, col: 5, offset: 25447},
+																	pos: position{line: 800, col: 5, offset: 25690},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 793, col: 5, offset: 25447},
+																			pos:   position{line: 800, col: 5, offset: 25690},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 793, col: 16, offset: 25458},
+																				pos: position{line: 800, col: 16, offset: 25701},
 																				run: (*parser).callonDocumentRawLine456,
 																				expr: &seqExpr{
-																					pos: position{line: 793, col: 16, offset: 25458},
+																					pos: position{line: 800, col: 16, offset: 25701},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 793, col: 16, offset: 25458},
+																							pos:        position{line: 800, col: 16, offset: 25701},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 793, col: 23, offset: 25465},
+																							pos: position{line: 800, col: 23, offset: 25708},
 																							expr: &litMatcher{
-																								pos:        position{line: 793, col: 23, offset: 25465},
+																								pos:        position{line: 800, col: 23, offset: 25708},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2260,12 +2260,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 795, col: 8, offset: 25549},
+																			pos: position{line: 802, col: 8, offset: 25792},
 																			expr: &actionExpr{
-																				pos: position{line: 2868, col: 10, offset: 90818},
+																				pos: position{line: 2883, col: 10, offset: 91286},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 10, offset: 90818},
+																					pos:        position{line: 2883, col: 10, offset: 91286},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2890, col: 8, offset: 91216},
+																			pos: position{line: 2905, col: 8, offset: 91684},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2877, col: 12, offset: 90989},
+																					pos: position{line: 2892, col: 12, offset: 91457},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2877, col: 13, offset: 90990},
+																						pos: position{line: 2892, col: 13, offset: 91458},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 13, offset: 90990},
+																								pos:        position{line: 2892, col: 13, offset: 91458},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 20, offset: 90997},
+																								pos:        position{line: 2892, col: 20, offset: 91465},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 29, offset: 91006},
+																								pos:        position{line: 2892, col: 29, offset: 91474},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
@@ -2315,30 +2315,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 800, col: 5, offset: 25697},
+																pos: position{line: 807, col: 5, offset: 25940},
 																run: (*parser).callonDocumentRawLine472,
 																expr: &seqExpr{
-																	pos: position{line: 800, col: 5, offset: 25697},
+																	pos: position{line: 807, col: 5, offset: 25940},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 800, col: 5, offset: 25697},
+																			pos:   position{line: 807, col: 5, offset: 25940},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 800, col: 16, offset: 25708},
+																				pos: position{line: 807, col: 16, offset: 25951},
 																				run: (*parser).callonDocumentRawLine475,
 																				expr: &seqExpr{
-																					pos: position{line: 800, col: 16, offset: 25708},
+																					pos: position{line: 807, col: 16, offset: 25951},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 800, col: 16, offset: 25708},
+																							pos:        position{line: 807, col: 16, offset: 25951},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 800, col: 23, offset: 25715},
+																							pos: position{line: 807, col: 23, offset: 25958},
 																							expr: &litMatcher{
-																								pos:        position{line: 800, col: 23, offset: 25715},
+																								pos:        position{line: 807, col: 23, offset: 25958},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2349,12 +2349,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 802, col: 8, offset: 25799},
+																			pos: position{line: 809, col: 8, offset: 26042},
 																			expr: &actionExpr{
-																				pos: position{line: 2868, col: 10, offset: 90818},
+																				pos: position{line: 2883, col: 10, offset: 91286},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 10, offset: 90818},
+																					pos:        position{line: 2883, col: 10, offset: 91286},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2890, col: 8, offset: 91216},
+																			pos: position{line: 2905, col: 8, offset: 91684},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2877, col: 12, offset: 90989},
+																					pos: position{line: 2892, col: 12, offset: 91457},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2877, col: 13, offset: 90990},
+																						pos: position{line: 2892, col: 13, offset: 91458},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 13, offset: 90990},
+																								pos:        position{line: 2892, col: 13, offset: 91458},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 20, offset: 90997},
+																								pos:        position{line: 2892, col: 20, offset: 91465},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 29, offset: 91006},
+																								pos:        position{line: 2892, col: 29, offset: 91474},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
@@ -2404,30 +2404,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 807, col: 5, offset: 25943},
+																pos: position{line: 814, col: 5, offset: 26186},
 																run: (*parser).callonDocumentRawLine491,
 																expr: &seqExpr{
-																	pos: position{line: 807, col: 5, offset: 25943},
+																	pos: position{line: 814, col: 5, offset: 26186},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 807, col: 5, offset: 25943},
+																			pos:   position{line: 814, col: 5, offset: 26186},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 807, col: 16, offset: 25954},
+																				pos: position{line: 814, col: 16, offset: 26197},
 																				run: (*parser).callonDocumentRawLine494,
 																				expr: &seqExpr{
-																					pos: position{line: 807, col: 16, offset: 25954},
+																					pos: position{line: 814, col: 16, offset: 26197},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 807, col: 16, offset: 25954},
+																							pos:        position{line: 814, col: 16, offset: 26197},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 807, col: 23, offset: 25961},
+																							pos: position{line: 814, col: 23, offset: 26204},
 																							expr: &litMatcher{
-																								pos:        position{line: 807, col: 23, offset: 25961},
+																								pos:        position{line: 814, col: 23, offset: 26204},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2438,12 +2438,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 809, col: 8, offset: 26045},
+																			pos: position{line: 816, col: 8, offset: 26288},
 																			expr: &actionExpr{
-																				pos: position{line: 2868, col: 10, offset: 90818},
+																				pos: position{line: 2883, col: 10, offset: 91286},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 10, offset: 90818},
+																					pos:        position{line: 2883, col: 10, offset: 91286},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2890, col: 8, offset: 91216},
+																			pos: position{line: 2905, col: 8, offset: 91684},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2877, col: 12, offset: 90989},
+																					pos: position{line: 2892, col: 12, offset: 91457},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2877, col: 13, offset: 90990},
+																						pos: position{line: 2892, col: 13, offset: 91458},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 13, offset: 90990},
+																								pos:        position{line: 2892, col: 13, offset: 91458},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 20, offset: 90997},
+																								pos:        position{line: 2892, col: 20, offset: 91465},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 29, offset: 91006},
+																								pos:        position{line: 2892, col: 29, offset: 91474},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2872, col: 11, offset: 90879},
+													pos: position{line: 2887, col: 11, offset: 91347},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2872, col: 11, offset: 90879},
+														pos: position{line: 2887, col: 11, offset: 91347},
 														expr: &charClassMatcher{
-															pos:        position{line: 2872, col: 11, offset: 90879},
+															pos:        position{line: 2887, col: 11, offset: 91347},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2818, col: 14, offset: 89411},
+													pos: position{line: 2833, col: 14, offset: 89879},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2818, col: 14, offset: 89411},
+														pos: position{line: 2833, col: 14, offset: 89879},
 														expr: &charClassMatcher{
-															pos:        position{line: 2818, col: 14, offset: 89411},
+															pos:        position{line: 2833, col: 14, offset: 89879},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2887, col: 8, offset: 91166},
+													pos: position{line: 2902, col: 8, offset: 91634},
 													expr: &anyMatcher{
-														line: 2887, col: 9, offset: 91167,
+														line: 2902, col: 9, offset: 91635,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2887, col: 8, offset: 91166},
+							pos: position{line: 2902, col: 8, offset: 91634},
 							expr: &anyMatcher{
-								line: 2887, col: 9, offset: 91167,
+								line: 2902, col: 9, offset: 91635,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2822, col: 17, offset: 89481},
+												pos: position{line: 2837, col: 17, offset: 89949},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2822, col: 17, offset: 89481},
+													pos:   position{line: 2837, col: 17, offset: 89949},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2839, col: 5, offset: 89935},
+														pos: position{line: 2854, col: 5, offset: 90403},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2839, col: 5, offset: 89935},
+															pos:   position{line: 2854, col: 5, offset: 90403},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2839, col: 14, offset: 89944},
+																pos: position{line: 2854, col: 14, offset: 90412},
 																expr: &choiceExpr{
-																	pos: position{line: 2840, col: 9, offset: 89954},
+																	pos: position{line: 2855, col: 9, offset: 90422},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2840, col: 9, offset: 89954},
+																			pos: position{line: 2855, col: 9, offset: 90422},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2840, col: 9, offset: 89954},
+																				pos: position{line: 2855, col: 9, offset: 90422},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2840, col: 9, offset: 89954},
+																						pos: position{line: 2855, col: 9, offset: 90422},
 																						expr: &litMatcher{
-																							pos:        position{line: 2840, col: 10, offset: 89955},
+																							pos:        position{line: 2855, col: 10, offset: 90423},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2841, col: 9, offset: 89983},
+																						pos: position{line: 2856, col: 9, offset: 90451},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2841, col: 10, offset: 89984},
+																							pos:        position{line: 2856, col: 10, offset: 90452},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2844, col: 11, offset: 90196},
+																			pos: position{line: 2859, col: 11, offset: 90664},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2844, col: 11, offset: 90196},
+																					pos:        position{line: 2859, col: 11, offset: 90664},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2844, col: 19, offset: 90204},
+																					pos: position{line: 2859, col: 19, offset: 90672},
 																					expr: &seqExpr{
-																						pos: position{line: 2844, col: 21, offset: 90206},
+																						pos: position{line: 2859, col: 21, offset: 90674},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2844, col: 21, offset: 90206},
+																								pos: position{line: 2859, col: 21, offset: 90674},
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 10, offset: 90818},
+																									pos: position{line: 2883, col: 10, offset: 91286},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 10, offset: 90818},
+																										pos:        position{line: 2883, col: 10, offset: 91286},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2844, col: 28, offset: 90213},
+																								pos: position{line: 2859, col: 28, offset: 90681},
 																								expr: &notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -2699,35 +2699,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 639, col: 5, offset: 20212},
+																			pos: position{line: 646, col: 5, offset: 20455},
 																			run: (*parser).callonFileInclusion30,
 																			expr: &seqExpr{
-																				pos: position{line: 639, col: 5, offset: 20212},
+																				pos: position{line: 646, col: 5, offset: 20455},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 639, col: 5, offset: 20212},
+																						pos: position{line: 646, col: 5, offset: 20455},
 																						run: (*parser).callonFileInclusion32,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 642, col: 5, offset: 20284},
+																						pos:   position{line: 649, col: 5, offset: 20527},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 642, col: 14, offset: 20293},
+																							pos: position{line: 649, col: 14, offset: 20536},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 648, col: 5, offset: 20422},
+																									pos: position{line: 655, col: 5, offset: 20665},
 																									run: (*parser).callonFileInclusion35,
 																									expr: &seqExpr{
-																										pos: position{line: 648, col: 5, offset: 20422},
+																										pos: position{line: 655, col: 5, offset: 20665},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 648, col: 5, offset: 20422},
+																												pos:        position{line: 655, col: 5, offset: 20665},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 648, col: 13, offset: 20430},
+																												pos:   position{line: 655, col: 13, offset: 20673},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -2759,7 +2759,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 648, col: 32, offset: 20449},
+																												pos:        position{line: 655, col: 32, offset: 20692},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2768,19 +2768,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 655, col: 5, offset: 20690},
+																									pos: position{line: 662, col: 5, offset: 20933},
 																									run: (*parser).callonFileInclusion45,
 																									expr: &seqExpr{
-																										pos: position{line: 655, col: 5, offset: 20690},
+																										pos: position{line: 662, col: 5, offset: 20933},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 655, col: 5, offset: 20690},
+																												pos:        position{line: 662, col: 5, offset: 20933},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 655, col: 9, offset: 20694},
+																												pos:   position{line: 662, col: 9, offset: 20937},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -2812,7 +2812,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 655, col: 28, offset: 20713},
+																												pos:        position{line: 662, col: 28, offset: 20956},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2821,19 +2821,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 661, col: 25, offset: 20894},
+																									pos: position{line: 668, col: 25, offset: 21137},
 																									run: (*parser).callonFileInclusion55,
 																									expr: &seqExpr{
-																										pos: position{line: 661, col: 25, offset: 20894},
+																										pos: position{line: 668, col: 25, offset: 21137},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 661, col: 25, offset: 20894},
+																												pos:        position{line: 668, col: 25, offset: 21137},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 37, offset: 20906},
+																												pos:   position{line: 668, col: 37, offset: 21149},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -2865,33 +2865,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 56, offset: 20925},
+																												pos:   position{line: 668, col: 56, offset: 21168},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 661, col: 62, offset: 20931},
+																													pos: position{line: 668, col: 62, offset: 21174},
 																													expr: &actionExpr{
-																														pos: position{line: 669, col: 17, offset: 21226},
+																														pos: position{line: 676, col: 17, offset: 21469},
 																														run: (*parser).callonFileInclusion66,
 																														expr: &seqExpr{
-																															pos: position{line: 669, col: 17, offset: 21226},
+																															pos: position{line: 676, col: 17, offset: 21469},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 669, col: 17, offset: 21226},
+																																	pos:        position{line: 676, col: 17, offset: 21469},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 669, col: 21, offset: 21230},
+																																	pos:   position{line: 676, col: 21, offset: 21473},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 669, col: 28, offset: 21237},
+																																		pos: position{line: 676, col: 28, offset: 21480},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 28, offset: 21237},
+																																				pos: position{line: 676, col: 28, offset: 21480},
 																																				run: (*parser).callonFileInclusion71,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 669, col: 28, offset: 21237},
+																																					pos:        position{line: 676, col: 28, offset: 21480},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -2899,12 +2899,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 671, col: 9, offset: 21291},
+																																				pos: position{line: 678, col: 9, offset: 21534},
 																																				run: (*parser).callonFileInclusion73,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 671, col: 9, offset: 21291},
+																																					pos: position{line: 678, col: 9, offset: 21534},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 671, col: 9, offset: 21291},
+																																						pos:        position{line: 678, col: 9, offset: 21534},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -2921,7 +2921,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 661, col: 78, offset: 20947},
+																												pos:        position{line: 668, col: 78, offset: 21190},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2930,19 +2930,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 25, offset: 21065},
+																									pos: position{line: 672, col: 25, offset: 21308},
 																									run: (*parser).callonFileInclusion77,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 25, offset: 21065},
+																										pos: position{line: 672, col: 25, offset: 21308},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 25, offset: 21065},
+																												pos:        position{line: 672, col: 25, offset: 21308},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 38, offset: 21078},
+																												pos:   position{line: 672, col: 38, offset: 21321},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -2974,33 +2974,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 57, offset: 21097},
+																												pos:   position{line: 672, col: 57, offset: 21340},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 665, col: 63, offset: 21103},
+																													pos: position{line: 672, col: 63, offset: 21346},
 																													expr: &actionExpr{
-																														pos: position{line: 669, col: 17, offset: 21226},
+																														pos: position{line: 676, col: 17, offset: 21469},
 																														run: (*parser).callonFileInclusion88,
 																														expr: &seqExpr{
-																															pos: position{line: 669, col: 17, offset: 21226},
+																															pos: position{line: 676, col: 17, offset: 21469},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 669, col: 17, offset: 21226},
+																																	pos:        position{line: 676, col: 17, offset: 21469},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 669, col: 21, offset: 21230},
+																																	pos:   position{line: 676, col: 21, offset: 21473},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 669, col: 28, offset: 21237},
+																																		pos: position{line: 676, col: 28, offset: 21480},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 28, offset: 21237},
+																																				pos: position{line: 676, col: 28, offset: 21480},
 																																				run: (*parser).callonFileInclusion93,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 669, col: 28, offset: 21237},
+																																					pos:        position{line: 676, col: 28, offset: 21480},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3008,12 +3008,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 671, col: 9, offset: 21291},
+																																				pos: position{line: 678, col: 9, offset: 21534},
 																																				run: (*parser).callonFileInclusion95,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 671, col: 9, offset: 21291},
+																																					pos: position{line: 678, col: 9, offset: 21534},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 671, col: 9, offset: 21291},
+																																						pos:        position{line: 678, col: 9, offset: 21534},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3030,7 +3030,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 79, offset: 21119},
+																												pos:        position{line: 672, col: 79, offset: 21362},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3045,27 +3045,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1213, col: 23, offset: 37477},
+																			pos: position{line: 1220, col: 23, offset: 37720},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1213, col: 23, offset: 37477},
+																				pos: position{line: 1220, col: 23, offset: 37720},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1211, col: 32, offset: 37445},
+																						pos:        position{line: 1218, col: 32, offset: 37688},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1213, col: 51, offset: 37505},
+																						pos:   position{line: 1220, col: 51, offset: 37748},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1213, col: 56, offset: 37510},
+																							pos: position{line: 1220, col: 56, offset: 37753},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1213, col: 56, offset: 37510},
+																								pos: position{line: 1220, col: 56, offset: 37753},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1213, col: 56, offset: 37510},
+																									pos:        position{line: 1220, col: 56, offset: 37753},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3075,7 +3075,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1211, col: 32, offset: 37445},
+																						pos:        position{line: 1218, col: 32, offset: 37688},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2847, col: 11, offset: 90333},
+																			pos: position{line: 2862, col: 11, offset: 90801},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2847, col: 11, offset: 90333},
+																				pos:        position{line: 2862, col: 11, offset: 90801},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2868, col: 10, offset: 90818},
+								pos: position{line: 2883, col: 10, offset: 91286},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2868, col: 10, offset: 90818},
+									pos:        position{line: 2883, col: 10, offset: 91286},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2890, col: 8, offset: 91216},
+							pos: position{line: 2905, col: 8, offset: 91684},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2877, col: 12, offset: 90989},
+									pos: position{line: 2892, col: 12, offset: 91457},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2877, col: 13, offset: 90990},
+										pos: position{line: 2892, col: 13, offset: 91458},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2877, col: 13, offset: 90990},
+												pos:        position{line: 2892, col: 13, offset: 91458},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2877, col: 20, offset: 90997},
+												pos:        position{line: 2892, col: 20, offset: 91465},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2877, col: 29, offset: 91006},
+												pos:        position{line: 2892, col: 29, offset: 91474},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2887, col: 8, offset: 91166},
+									pos: position{line: 2902, col: 8, offset: 91634},
 									expr: &anyMatcher{
-										line: 2887, col: 9, offset: 91167,
+										line: 2902, col: 9, offset: 91635,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2860, col: 12, offset: 90645},
+																				pos: position{line: 2875, col: 12, offset: 91113},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2860, col: 13, offset: 90646},
+																					pos: position{line: 2875, col: 13, offset: 91114},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2860, col: 13, offset: 90646},
+																							pos: position{line: 2875, col: 13, offset: 91114},
 																							expr: &litMatcher{
-																								pos:        position{line: 2860, col: 13, offset: 90646},
+																								pos:        position{line: 2875, col: 13, offset: 91114},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2860, col: 18, offset: 90651},
+																							pos: position{line: 2875, col: 18, offset: 91119},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2860, col: 18, offset: 90651},
+																								pos:        position{line: 2875, col: 18, offset: 91119},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2860, col: 12, offset: 90645},
+																				pos: position{line: 2875, col: 12, offset: 91113},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2860, col: 13, offset: 90646},
+																					pos: position{line: 2875, col: 13, offset: 91114},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2860, col: 13, offset: 90646},
+																							pos: position{line: 2875, col: 13, offset: 91114},
 																							expr: &litMatcher{
-																								pos:        position{line: 2860, col: 13, offset: 90646},
+																								pos:        position{line: 2875, col: 13, offset: 91114},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2860, col: 18, offset: 90651},
+																							pos: position{line: 2875, col: 18, offset: 91119},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2860, col: 18, offset: 90651},
+																								pos:        position{line: 2875, col: 18, offset: 91119},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 12, offset: 90645},
+																		pos: position{line: 2875, col: 12, offset: 91113},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2860, col: 13, offset: 90646},
+																			pos: position{line: 2875, col: 13, offset: 91114},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2860, col: 13, offset: 90646},
+																					pos: position{line: 2875, col: 13, offset: 91114},
 																					expr: &litMatcher{
-																						pos:        position{line: 2860, col: 13, offset: 90646},
+																						pos:        position{line: 2875, col: 13, offset: 91114},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2860, col: 18, offset: 90651},
+																					pos: position{line: 2875, col: 18, offset: 91119},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2860, col: 18, offset: 90651},
+																						pos:        position{line: 2875, col: 18, offset: 91119},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2860, col: 12, offset: 90645},
+																									pos: position{line: 2875, col: 12, offset: 91113},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2860, col: 13, offset: 90646},
+																										pos: position{line: 2875, col: 13, offset: 91114},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2860, col: 13, offset: 90646},
+																												pos: position{line: 2875, col: 13, offset: 91114},
 																												expr: &litMatcher{
-																													pos:        position{line: 2860, col: 13, offset: 90646},
+																													pos:        position{line: 2875, col: 13, offset: 91114},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2860, col: 18, offset: 90651},
+																												pos: position{line: 2875, col: 18, offset: 91119},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2860, col: 18, offset: 90651},
+																													pos:        position{line: 2875, col: 18, offset: 91119},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2860, col: 12, offset: 90645},
+																									pos: position{line: 2875, col: 12, offset: 91113},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2860, col: 13, offset: 90646},
+																										pos: position{line: 2875, col: 13, offset: 91114},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2860, col: 13, offset: 90646},
+																												pos: position{line: 2875, col: 13, offset: 91114},
 																												expr: &litMatcher{
-																													pos:        position{line: 2860, col: 13, offset: 90646},
+																													pos:        position{line: 2875, col: 13, offset: 91114},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2860, col: 18, offset: 90651},
+																												pos: position{line: 2875, col: 18, offset: 91119},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2860, col: 18, offset: 90651},
+																													pos:        position{line: 2875, col: 18, offset: 91119},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2860, col: 12, offset: 90645},
+																							pos: position{line: 2875, col: 12, offset: 91113},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2860, col: 13, offset: 90646},
+																								pos: position{line: 2875, col: 13, offset: 91114},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2860, col: 13, offset: 90646},
+																										pos: position{line: 2875, col: 13, offset: 91114},
 																										expr: &litMatcher{
-																											pos:        position{line: 2860, col: 13, offset: 90646},
+																											pos:        position{line: 2875, col: 13, offset: 91114},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2860, col: 18, offset: 90651},
+																										pos: position{line: 2875, col: 18, offset: 91119},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2860, col: 18, offset: 90651},
+																											pos:        position{line: 2875, col: 18, offset: 91119},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 12, offset: 90645},
+														pos: position{line: 2875, col: 12, offset: 91113},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2860, col: 13, offset: 90646},
+															pos: position{line: 2875, col: 13, offset: 91114},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2860, col: 13, offset: 90646},
+																	pos: position{line: 2875, col: 13, offset: 91114},
 																	expr: &litMatcher{
-																		pos:        position{line: 2860, col: 13, offset: 90646},
+																		pos:        position{line: 2875, col: 13, offset: 91114},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2860, col: 18, offset: 90651},
+																	pos: position{line: 2875, col: 18, offset: 91119},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2860, col: 18, offset: 90651},
+																		pos:        position{line: 2875, col: 18, offset: 91119},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 12, offset: 90645},
+														pos: position{line: 2875, col: 12, offset: 91113},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2860, col: 13, offset: 90646},
+															pos: position{line: 2875, col: 13, offset: 91114},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2860, col: 13, offset: 90646},
+																	pos: position{line: 2875, col: 13, offset: 91114},
 																	expr: &litMatcher{
-																		pos:        position{line: 2860, col: 13, offset: 90646},
+																		pos:        position{line: 2875, col: 13, offset: 91114},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2860, col: 18, offset: 90651},
+																	pos: position{line: 2875, col: 18, offset: 91119},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2860, col: 18, offset: 90651},
+																		pos:        position{line: 2875, col: 18, offset: 91119},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2860, col: 12, offset: 90645},
+												pos: position{line: 2875, col: 12, offset: 91113},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2860, col: 13, offset: 90646},
+													pos: position{line: 2875, col: 13, offset: 91114},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2860, col: 13, offset: 90646},
+															pos: position{line: 2875, col: 13, offset: 91114},
 															expr: &litMatcher{
-																pos:        position{line: 2860, col: 13, offset: 90646},
+																pos:        position{line: 2875, col: 13, offset: 91114},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2860, col: 18, offset: 90651},
+															pos: position{line: 2875, col: 18, offset: 91119},
 															expr: &charClassMatcher{
-																pos:        position{line: 2860, col: 18, offset: 90651},
+																pos:        position{line: 2875, col: 18, offset: 91119},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2887, col: 8, offset: 91166},
+							pos: position{line: 2902, col: 8, offset: 91634},
 							expr: &anyMatcher{
-								line: 2887, col: 9, offset: 91167,
+								line: 2902, col: 9, offset: 91635,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2762, col: 14, offset: 87987},
+																		pos: position{line: 2777, col: 14, offset: 88455},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2762, col: 14, offset: 87987},
+																			pos: position{line: 2777, col: 14, offset: 88455},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2762, col: 14, offset: 87987},
+																				pos:        position{line: 2777, col: 14, offset: 88455},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2762, col: 14, offset: 87987},
+																				pos: position{line: 2777, col: 14, offset: 88455},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2762, col: 14, offset: 87987},
+																					pos: position{line: 2777, col: 14, offset: 88455},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2762, col: 14, offset: 87987},
+																						pos:        position{line: 2777, col: 14, offset: 88455},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2762, col: 14, offset: 87987},
+																							pos: position{line: 2777, col: 14, offset: 88455},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2762, col: 14, offset: 87987},
+																								pos: position{line: 2777, col: 14, offset: 88455},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2762, col: 14, offset: 87987},
+																									pos:        position{line: 2777, col: 14, offset: 88455},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2762, col: 14, offset: 87987},
+																									pos: position{line: 2777, col: 14, offset: 88455},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2762, col: 14, offset: 87987},
+																										pos: position{line: 2777, col: 14, offset: 88455},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2762, col: 14, offset: 87987},
+																											pos:        position{line: 2777, col: 14, offset: 88455},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2887, col: 8, offset: 91166},
+							pos: position{line: 2902, col: 8, offset: 91634},
 							expr: &anyMatcher{
-								line: 2887, col: 9, offset: 91167,
+								line: 2902, col: 9, offset: 91635,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2762, col: 14, offset: 87987},
+																pos: position{line: 2777, col: 14, offset: 88455},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2762, col: 14, offset: 87987},
+																	pos: position{line: 2777, col: 14, offset: 88455},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2762, col: 14, offset: 87987},
+																		pos:        position{line: 2777, col: 14, offset: 88455},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2762, col: 14, offset: 87987},
+																pos: position{line: 2777, col: 14, offset: 88455},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2762, col: 14, offset: 87987},
+																	pos: position{line: 2777, col: 14, offset: 88455},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2762, col: 14, offset: 87987},
+																		pos:        position{line: 2777, col: 14, offset: 88455},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2890, col: 8, offset: 91216},
+							pos: position{line: 2905, col: 8, offset: 91684},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2877, col: 12, offset: 90989},
+									pos: position{line: 2892, col: 12, offset: 91457},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2877, col: 13, offset: 90990},
+										pos: position{line: 2892, col: 13, offset: 91458},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2877, col: 13, offset: 90990},
+												pos:        position{line: 2892, col: 13, offset: 91458},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2877, col: 20, offset: 90997},
+												pos:        position{line: 2892, col: 20, offset: 91465},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2877, col: 29, offset: 91006},
+												pos:        position{line: 2892, col: 29, offset: 91474},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2887, col: 8, offset: 91166},
+									pos: position{line: 2902, col: 8, offset: 91634},
 									expr: &anyMatcher{
-										line: 2887, col: 9, offset: 91167,
+										line: 2902, col: 9, offset: 91635,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2885, col: 11, offset: 91152},
+							pos: position{line: 2900, col: 11, offset: 91620},
 							expr: &anyMatcher{
-								line: 2885, col: 13, offset: 91154,
+								line: 2900, col: 13, offset: 91622,
 							},
 						},
 						&labeledExpr{
@@ -4126,19 +4126,19 @@ var g = &grammar{
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
-											pos: position{line: 360, col: 19, offset: 10910},
+											pos: position{line: 367, col: 19, offset: 11153},
 											run: (*parser).callonDocumentFragment16,
 											expr: &seqExpr{
-												pos: position{line: 360, col: 19, offset: 10910},
+												pos: position{line: 367, col: 19, offset: 11153},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 360, col: 19, offset: 10910},
+														pos:        position{line: 367, col: 19, offset: 11153},
 														val:        ":!",
 														ignoreCase: false,
 														want:       "\":!\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 360, col: 24, offset: 10915},
+														pos:   position{line: 367, col: 24, offset: 11158},
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 318, col: 18, offset: 9736},
@@ -4170,18 +4170,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 360, col: 45, offset: 10936},
+														pos:        position{line: 367, col: 45, offset: 11179},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 360, col: 49, offset: 10940},
+														pos: position{line: 367, col: 49, offset: 11183},
 														expr: &actionExpr{
-															pos: position{line: 2868, col: 10, offset: 90818},
+															pos: position{line: 2883, col: 10, offset: 91286},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 10, offset: 90818},
+																pos:        position{line: 2883, col: 10, offset: 91286},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2890, col: 8, offset: 91216},
+														pos: position{line: 2905, col: 8, offset: 91684},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2877, col: 12, offset: 90989},
+																pos: position{line: 2892, col: 12, offset: 91457},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2877, col: 13, offset: 90990},
+																	pos: position{line: 2892, col: 13, offset: 91458},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 13, offset: 90990},
+																			pos:        position{line: 2892, col: 13, offset: 91458},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 20, offset: 90997},
+																			pos:        position{line: 2892, col: 20, offset: 91465},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 29, offset: 91006},
+																			pos:        position{line: 2892, col: 29, offset: 91474},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2887, col: 8, offset: 91166},
+																pos: position{line: 2902, col: 8, offset: 91634},
 																expr: &anyMatcher{
-																	line: 2887, col: 9, offset: 91167,
+																	line: 2902, col: 9, offset: 91635,
 																},
 															},
 														},
@@ -4231,19 +4231,19 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 362, col: 9, offset: 11031},
+											pos: position{line: 369, col: 9, offset: 11274},
 											run: (*parser).callonDocumentFragment37,
 											expr: &seqExpr{
-												pos: position{line: 362, col: 9, offset: 11031},
+												pos: position{line: 369, col: 9, offset: 11274},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 362, col: 9, offset: 11031},
+														pos:        position{line: 369, col: 9, offset: 11274},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 362, col: 13, offset: 11035},
+														pos:   position{line: 369, col: 13, offset: 11278},
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 318, col: 18, offset: 9736},
@@ -4275,18 +4275,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 362, col: 34, offset: 11056},
+														pos:        position{line: 369, col: 34, offset: 11299},
 														val:        "!:",
 														ignoreCase: false,
 														want:       "\"!:\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 362, col: 39, offset: 11061},
+														pos: position{line: 369, col: 39, offset: 11304},
 														expr: &actionExpr{
-															pos: position{line: 2868, col: 10, offset: 90818},
+															pos: position{line: 2883, col: 10, offset: 91286},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 10, offset: 90818},
+																pos:        position{line: 2883, col: 10, offset: 91286},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2890, col: 8, offset: 91216},
+														pos: position{line: 2905, col: 8, offset: 91684},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2877, col: 12, offset: 90989},
+																pos: position{line: 2892, col: 12, offset: 91457},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2877, col: 13, offset: 90990},
+																	pos: position{line: 2892, col: 13, offset: 91458},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 13, offset: 90990},
+																			pos:        position{line: 2892, col: 13, offset: 91458},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 20, offset: 90997},
+																			pos:        position{line: 2892, col: 20, offset: 91465},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 29, offset: 91006},
+																			pos:        position{line: 2892, col: 29, offset: 91474},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2887, col: 8, offset: 91166},
+																pos: position{line: 2902, col: 8, offset: 91634},
 																expr: &anyMatcher{
-																	line: 2887, col: 9, offset: 91167,
+																	line: 2902, col: 9, offset: 91635,
 																},
 															},
 														},
@@ -4336,24 +4336,24 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 680, col: 14, offset: 21592},
+											pos: position{line: 687, col: 14, offset: 21835},
 											run: (*parser).callonDocumentFragment58,
 											expr: &seqExpr{
-												pos: position{line: 680, col: 14, offset: 21592},
+												pos: position{line: 687, col: 14, offset: 21835},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2885, col: 11, offset: 91152},
+														pos: position{line: 2900, col: 11, offset: 91620},
 														expr: &anyMatcher{
-															line: 2885, col: 13, offset: 91154,
+															line: 2900, col: 13, offset: 91622,
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 680, col: 21, offset: 21599},
+														pos: position{line: 687, col: 21, offset: 21842},
 														expr: &actionExpr{
-															pos: position{line: 2868, col: 10, offset: 90818},
+															pos: position{line: 2883, col: 10, offset: 91286},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 10, offset: 90818},
+																pos:        position{line: 2883, col: 10, offset: 91286},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2890, col: 8, offset: 91216},
+														pos: position{line: 2905, col: 8, offset: 91684},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2877, col: 12, offset: 90989},
+																pos: position{line: 2892, col: 12, offset: 91457},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2877, col: 13, offset: 90990},
+																	pos: position{line: 2892, col: 13, offset: 91458},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 13, offset: 90990},
+																			pos:        position{line: 2892, col: 13, offset: 91458},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 20, offset: 90997},
+																			pos:        position{line: 2892, col: 20, offset: 91465},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 29, offset: 91006},
+																			pos:        position{line: 2892, col: 29, offset: 91474},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2887, col: 8, offset: 91166},
+																pos: position{line: 2902, col: 8, offset: 91634},
 																expr: &anyMatcher{
-																	line: 2887, col: 9, offset: 91167,
+																	line: 2902, col: 9, offset: 91635,
 																},
 															},
 														},
@@ -4411,39 +4411,39 @@ var g = &grammar{
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 823, col: 5, offset: 26427},
+											pos: position{line: 830, col: 5, offset: 26670},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 823, col: 5, offset: 26427},
+												pos: position{line: 830, col: 5, offset: 26670},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 823, col: 5, offset: 26427},
+														pos:   position{line: 830, col: 5, offset: 26670},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 743, col: 5, offset: 23687},
+															pos: position{line: 750, col: 5, offset: 23930},
 															run: (*parser).callonDocumentFragment78,
 															expr: &seqExpr{
-																pos: position{line: 743, col: 5, offset: 23687},
+																pos: position{line: 750, col: 5, offset: 23930},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 743, col: 5, offset: 23687},
+																		pos:   position{line: 750, col: 5, offset: 23930},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 743, col: 16, offset: 23698},
+																			pos: position{line: 750, col: 16, offset: 23941},
 																			run: (*parser).callonDocumentFragment81,
 																			expr: &seqExpr{
-																				pos: position{line: 743, col: 16, offset: 23698},
+																				pos: position{line: 750, col: 16, offset: 23941},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 743, col: 16, offset: 23698},
+																						pos:        position{line: 750, col: 16, offset: 23941},
 																						val:        "////",
 																						ignoreCase: false,
 																						want:       "\"////\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 743, col: 23, offset: 23705},
+																						pos: position{line: 750, col: 23, offset: 23948},
 																						expr: &litMatcher{
-																							pos:        position{line: 743, col: 23, offset: 23705},
+																							pos:        position{line: 750, col: 23, offset: 23948},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -4454,12 +4454,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 745, col: 8, offset: 23789},
+																		pos: position{line: 752, col: 8, offset: 24032},
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 10, offset: 90818},
+																			pos: position{line: 2883, col: 10, offset: 91286},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 10, offset: 90818},
+																				pos:        position{line: 2883, col: 10, offset: 91286},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2890, col: 8, offset: 91216},
+																		pos: position{line: 2905, col: 8, offset: 91684},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2877, col: 12, offset: 90989},
+																				pos: position{line: 2892, col: 12, offset: 91457},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2877, col: 13, offset: 90990},
+																					pos: position{line: 2892, col: 13, offset: 91458},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 13, offset: 90990},
+																							pos:        position{line: 2892, col: 13, offset: 91458},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 20, offset: 90997},
+																							pos:        position{line: 2892, col: 20, offset: 91465},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 29, offset: 91006},
+																							pos:        position{line: 2892, col: 29, offset: 91474},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2887, col: 8, offset: 91166},
+																				pos: position{line: 2902, col: 8, offset: 91634},
 																				expr: &anyMatcher{
-																					line: 2887, col: 9, offset: 91167,
+																					line: 2902, col: 9, offset: 91635,
 																				},
 																			},
 																		},
@@ -4510,56 +4510,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 824, col: 5, offset: 26466},
+														pos: position{line: 831, col: 5, offset: 26709},
 														run: (*parser).callonDocumentFragment97,
 													},
 													&labeledExpr{
-														pos:   position{line: 827, col: 5, offset: 26558},
+														pos:   position{line: 834, col: 5, offset: 26801},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 842, col: 5, offset: 26956},
+															pos: position{line: 849, col: 5, offset: 27199},
 															expr: &actionExpr{
-																pos: position{line: 842, col: 6, offset: 26957},
+																pos: position{line: 849, col: 6, offset: 27200},
 																run: (*parser).callonDocumentFragment100,
 																expr: &seqExpr{
-																	pos: position{line: 842, col: 6, offset: 26957},
+																	pos: position{line: 849, col: 6, offset: 27200},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 842, col: 6, offset: 26957},
+																			pos: position{line: 849, col: 6, offset: 27200},
 																			expr: &choiceExpr{
-																				pos: position{line: 835, col: 5, offset: 26798},
+																				pos: position{line: 842, col: 5, offset: 27041},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 835, col: 5, offset: 26798},
+																						pos: position{line: 842, col: 5, offset: 27041},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 835, col: 5, offset: 26798},
+																								pos:   position{line: 842, col: 5, offset: 27041},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 743, col: 5, offset: 23687},
+																									pos: position{line: 750, col: 5, offset: 23930},
 																									run: (*parser).callonDocumentFragment106,
 																									expr: &seqExpr{
-																										pos: position{line: 743, col: 5, offset: 23687},
+																										pos: position{line: 750, col: 5, offset: 23930},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 743, col: 5, offset: 23687},
+																												pos:   position{line: 750, col: 5, offset: 23930},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 743, col: 16, offset: 23698},
+																													pos: position{line: 750, col: 16, offset: 23941},
 																													run: (*parser).callonDocumentFragment109,
 																													expr: &seqExpr{
-																														pos: position{line: 743, col: 16, offset: 23698},
+																														pos: position{line: 750, col: 16, offset: 23941},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 743, col: 16, offset: 23698},
+																																pos:        position{line: 750, col: 16, offset: 23941},
 																																val:        "////",
 																																ignoreCase: false,
 																																want:       "\"////\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 743, col: 23, offset: 23705},
+																																pos: position{line: 750, col: 23, offset: 23948},
 																																expr: &litMatcher{
-																																	pos:        position{line: 743, col: 23, offset: 23705},
+																																	pos:        position{line: 750, col: 23, offset: 23948},
 																																	val:        "/",
 																																	ignoreCase: false,
 																																	want:       "\"/\"",
@@ -4570,12 +4570,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 745, col: 8, offset: 23789},
+																												pos: position{line: 752, col: 8, offset: 24032},
 																												expr: &actionExpr{
-																													pos: position{line: 2868, col: 10, offset: 90818},
+																													pos: position{line: 2883, col: 10, offset: 91286},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2868, col: 10, offset: 90818},
+																														pos:        position{line: 2883, col: 10, offset: 91286},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2890, col: 8, offset: 91216},
+																												pos: position{line: 2905, col: 8, offset: 91684},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2877, col: 12, offset: 90989},
+																														pos: position{line: 2892, col: 12, offset: 91457},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2877, col: 13, offset: 90990},
+																															pos: position{line: 2892, col: 13, offset: 91458},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 13, offset: 90990},
+																																	pos:        position{line: 2892, col: 13, offset: 91458},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 20, offset: 90997},
+																																	pos:        position{line: 2892, col: 20, offset: 91465},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 29, offset: 91006},
+																																	pos:        position{line: 2892, col: 29, offset: 91474},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2887, col: 8, offset: 91166},
+																														pos: position{line: 2902, col: 8, offset: 91634},
 																														expr: &anyMatcher{
-																															line: 2887, col: 9, offset: 91167,
+																															line: 2902, col: 9, offset: 91635,
 																														},
 																													},
 																												},
@@ -4626,45 +4626,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 836, col: 5, offset: 26829},
+																								pos: position{line: 843, col: 5, offset: 27072},
 																								run: (*parser).callonDocumentFragment125,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2887, col: 8, offset: 91166},
+																						pos: position{line: 2902, col: 8, offset: 91634},
 																						expr: &anyMatcher{
-																							line: 2887, col: 9, offset: 91167,
+																							line: 2902, col: 9, offset: 91635,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 843, col: 5, offset: 26987},
+																			pos:   position{line: 850, col: 5, offset: 27230},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 814, col: 5, offset: 26191},
+																				pos: position{line: 821, col: 5, offset: 26434},
 																				run: (*parser).callonDocumentFragment129,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 5, offset: 26191},
+																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2885, col: 11, offset: 91152},
+																							pos: position{line: 2900, col: 11, offset: 91620},
 																							expr: &anyMatcher{
-																								line: 2885, col: 13, offset: 91154,
+																								line: 2900, col: 13, offset: 91622,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 815, col: 5, offset: 26266},
+																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2814, col: 13, offset: 89344},
+																								pos: position{line: 2829, col: 13, offset: 89812},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2814, col: 13, offset: 89344},
+																									pos: position{line: 2829, col: 13, offset: 89812},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2814, col: 13, offset: 89344},
+																										pos:        position{line: 2829, col: 13, offset: 89812},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -4721,44 +4721,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 828, col: 5, offset: 26592},
+														pos:   position{line: 835, col: 5, offset: 26835},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 828, col: 9, offset: 26596},
+															pos: position{line: 835, col: 9, offset: 26839},
 															expr: &choiceExpr{
-																pos: position{line: 835, col: 5, offset: 26798},
+																pos: position{line: 842, col: 5, offset: 27041},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 835, col: 5, offset: 26798},
+																		pos: position{line: 842, col: 5, offset: 27041},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 835, col: 5, offset: 26798},
+																				pos:   position{line: 842, col: 5, offset: 27041},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 743, col: 5, offset: 23687},
+																					pos: position{line: 750, col: 5, offset: 23930},
 																					run: (*parser).callonDocumentFragment150,
 																					expr: &seqExpr{
-																						pos: position{line: 743, col: 5, offset: 23687},
+																						pos: position{line: 750, col: 5, offset: 23930},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 743, col: 5, offset: 23687},
+																								pos:   position{line: 750, col: 5, offset: 23930},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 743, col: 16, offset: 23698},
+																									pos: position{line: 750, col: 16, offset: 23941},
 																									run: (*parser).callonDocumentFragment153,
 																									expr: &seqExpr{
-																										pos: position{line: 743, col: 16, offset: 23698},
+																										pos: position{line: 750, col: 16, offset: 23941},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 743, col: 16, offset: 23698},
+																												pos:        position{line: 750, col: 16, offset: 23941},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 743, col: 23, offset: 23705},
+																												pos: position{line: 750, col: 23, offset: 23948},
 																												expr: &litMatcher{
-																													pos:        position{line: 743, col: 23, offset: 23705},
+																													pos:        position{line: 750, col: 23, offset: 23948},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -4769,12 +4769,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 745, col: 8, offset: 23789},
+																								pos: position{line: 752, col: 8, offset: 24032},
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 10, offset: 90818},
+																									pos: position{line: 2883, col: 10, offset: 91286},
 																									run: (*parser).callonDocumentFragment159,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 10, offset: 90818},
+																										pos:        position{line: 2883, col: 10, offset: 91286},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -4783,28 +4783,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2890, col: 8, offset: 91216},
+																								pos: position{line: 2905, col: 8, offset: 91684},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2877, col: 12, offset: 90989},
+																										pos: position{line: 2892, col: 12, offset: 91457},
 																										run: (*parser).callonDocumentFragment162,
 																										expr: &choiceExpr{
-																											pos: position{line: 2877, col: 13, offset: 90990},
+																											pos: position{line: 2892, col: 13, offset: 91458},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 13, offset: 90990},
+																													pos:        position{line: 2892, col: 13, offset: 91458},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 20, offset: 90997},
+																													pos:        position{line: 2892, col: 20, offset: 91465},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 29, offset: 91006},
+																													pos:        position{line: 2892, col: 29, offset: 91474},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -4813,9 +4813,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2887, col: 8, offset: 91166},
+																										pos: position{line: 2902, col: 8, offset: 91634},
 																										expr: &anyMatcher{
-																											line: 2887, col: 9, offset: 91167,
+																											line: 2902, col: 9, offset: 91635,
 																										},
 																									},
 																								},
@@ -4825,15 +4825,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 836, col: 5, offset: 26829},
+																				pos: position{line: 843, col: 5, offset: 27072},
 																				run: (*parser).callonDocumentFragment169,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2887, col: 8, offset: 91166},
+																		pos: position{line: 2902, col: 8, offset: 91634},
 																		expr: &anyMatcher{
-																			line: 2887, col: 9, offset: 91167,
+																			line: 2902, col: 9, offset: 91635,
 																		},
 																	},
 																},
@@ -4844,39 +4844,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 851, col: 5, offset: 27140},
+											pos: position{line: 858, col: 5, offset: 27383},
 											run: (*parser).callonDocumentFragment172,
 											expr: &seqExpr{
-												pos: position{line: 851, col: 5, offset: 27140},
+												pos: position{line: 858, col: 5, offset: 27383},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 851, col: 5, offset: 27140},
+														pos:   position{line: 858, col: 5, offset: 27383},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 750, col: 5, offset: 23935},
+															pos: position{line: 757, col: 5, offset: 24178},
 															run: (*parser).callonDocumentFragment175,
 															expr: &seqExpr{
-																pos: position{line: 750, col: 5, offset: 23935},
+																pos: position{line: 757, col: 5, offset: 24178},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 750, col: 5, offset: 23935},
+																		pos:   position{line: 757, col: 5, offset: 24178},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 750, col: 16, offset: 23946},
+																			pos: position{line: 757, col: 16, offset: 24189},
 																			run: (*parser).callonDocumentFragment178,
 																			expr: &seqExpr{
-																				pos: position{line: 750, col: 16, offset: 23946},
+																				pos: position{line: 757, col: 16, offset: 24189},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 750, col: 16, offset: 23946},
+																						pos:        position{line: 757, col: 16, offset: 24189},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 750, col: 23, offset: 23953},
+																						pos: position{line: 757, col: 23, offset: 24196},
 																						expr: &litMatcher{
-																							pos:        position{line: 750, col: 23, offset: 23953},
+																							pos:        position{line: 757, col: 23, offset: 24196},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -4887,12 +4887,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 752, col: 8, offset: 24037},
+																		pos: position{line: 759, col: 8, offset: 24280},
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 10, offset: 90818},
+																			pos: position{line: 2883, col: 10, offset: 91286},
 																			run: (*parser).callonDocumentFragment184,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 10, offset: 90818},
+																				pos:        position{line: 2883, col: 10, offset: 91286},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4901,28 +4901,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2890, col: 8, offset: 91216},
+																		pos: position{line: 2905, col: 8, offset: 91684},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2877, col: 12, offset: 90989},
+																				pos: position{line: 2892, col: 12, offset: 91457},
 																				run: (*parser).callonDocumentFragment187,
 																				expr: &choiceExpr{
-																					pos: position{line: 2877, col: 13, offset: 90990},
+																					pos: position{line: 2892, col: 13, offset: 91458},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 13, offset: 90990},
+																							pos:        position{line: 2892, col: 13, offset: 91458},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 20, offset: 90997},
+																							pos:        position{line: 2892, col: 20, offset: 91465},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 29, offset: 91006},
+																							pos:        position{line: 2892, col: 29, offset: 91474},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4931,9 +4931,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2887, col: 8, offset: 91166},
+																				pos: position{line: 2902, col: 8, offset: 91634},
 																				expr: &anyMatcher{
-																					line: 2887, col: 9, offset: 91167,
+																					line: 2902, col: 9, offset: 91635,
 																				},
 																			},
 																		},
@@ -4943,56 +4943,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 852, col: 5, offset: 27179},
+														pos: position{line: 859, col: 5, offset: 27422},
 														run: (*parser).callonDocumentFragment194,
 													},
 													&labeledExpr{
-														pos:   position{line: 855, col: 5, offset: 27271},
+														pos:   position{line: 862, col: 5, offset: 27514},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 870, col: 4, offset: 27668},
+															pos: position{line: 877, col: 4, offset: 27911},
 															expr: &actionExpr{
-																pos: position{line: 870, col: 5, offset: 27669},
+																pos: position{line: 877, col: 5, offset: 27912},
 																run: (*parser).callonDocumentFragment197,
 																expr: &seqExpr{
-																	pos: position{line: 870, col: 5, offset: 27669},
+																	pos: position{line: 877, col: 5, offset: 27912},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 870, col: 5, offset: 27669},
+																			pos: position{line: 877, col: 5, offset: 27912},
 																			expr: &choiceExpr{
-																				pos: position{line: 863, col: 5, offset: 27511},
+																				pos: position{line: 870, col: 5, offset: 27754},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 863, col: 5, offset: 27511},
+																						pos: position{line: 870, col: 5, offset: 27754},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 863, col: 5, offset: 27511},
+																								pos:   position{line: 870, col: 5, offset: 27754},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 750, col: 5, offset: 23935},
+																									pos: position{line: 757, col: 5, offset: 24178},
 																									run: (*parser).callonDocumentFragment203,
 																									expr: &seqExpr{
-																										pos: position{line: 750, col: 5, offset: 23935},
+																										pos: position{line: 757, col: 5, offset: 24178},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 750, col: 5, offset: 23935},
+																												pos:   position{line: 757, col: 5, offset: 24178},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 750, col: 16, offset: 23946},
+																													pos: position{line: 757, col: 16, offset: 24189},
 																													run: (*parser).callonDocumentFragment206,
 																													expr: &seqExpr{
-																														pos: position{line: 750, col: 16, offset: 23946},
+																														pos: position{line: 757, col: 16, offset: 24189},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 750, col: 16, offset: 23946},
+																																pos:        position{line: 757, col: 16, offset: 24189},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 750, col: 23, offset: 23953},
+																																pos: position{line: 757, col: 23, offset: 24196},
 																																expr: &litMatcher{
-																																	pos:        position{line: 750, col: 23, offset: 23953},
+																																	pos:        position{line: 757, col: 23, offset: 24196},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -5003,12 +5003,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 752, col: 8, offset: 24037},
+																												pos: position{line: 759, col: 8, offset: 24280},
 																												expr: &actionExpr{
-																													pos: position{line: 2868, col: 10, offset: 90818},
+																													pos: position{line: 2883, col: 10, offset: 91286},
 																													run: (*parser).callonDocumentFragment212,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2868, col: 10, offset: 90818},
+																														pos:        position{line: 2883, col: 10, offset: 91286},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5017,28 +5017,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2890, col: 8, offset: 91216},
+																												pos: position{line: 2905, col: 8, offset: 91684},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2877, col: 12, offset: 90989},
+																														pos: position{line: 2892, col: 12, offset: 91457},
 																														run: (*parser).callonDocumentFragment215,
 																														expr: &choiceExpr{
-																															pos: position{line: 2877, col: 13, offset: 90990},
+																															pos: position{line: 2892, col: 13, offset: 91458},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 13, offset: 90990},
+																																	pos:        position{line: 2892, col: 13, offset: 91458},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 20, offset: 90997},
+																																	pos:        position{line: 2892, col: 20, offset: 91465},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 29, offset: 91006},
+																																	pos:        position{line: 2892, col: 29, offset: 91474},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5047,9 +5047,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2887, col: 8, offset: 91166},
+																														pos: position{line: 2902, col: 8, offset: 91634},
 																														expr: &anyMatcher{
-																															line: 2887, col: 9, offset: 91167,
+																															line: 2902, col: 9, offset: 91635,
 																														},
 																													},
 																												},
@@ -5059,45 +5059,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 864, col: 5, offset: 27542},
+																								pos: position{line: 871, col: 5, offset: 27785},
 																								run: (*parser).callonDocumentFragment222,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2887, col: 8, offset: 91166},
+																						pos: position{line: 2902, col: 8, offset: 91634},
 																						expr: &anyMatcher{
-																							line: 2887, col: 9, offset: 91167,
+																							line: 2902, col: 9, offset: 91635,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 871, col: 5, offset: 27699},
+																			pos:   position{line: 878, col: 5, offset: 27942},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 814, col: 5, offset: 26191},
+																				pos: position{line: 821, col: 5, offset: 26434},
 																				run: (*parser).callonDocumentFragment226,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 5, offset: 26191},
+																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2885, col: 11, offset: 91152},
+																							pos: position{line: 2900, col: 11, offset: 91620},
 																							expr: &anyMatcher{
-																								line: 2885, col: 13, offset: 91154,
+																								line: 2900, col: 13, offset: 91622,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 815, col: 5, offset: 26266},
+																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2814, col: 13, offset: 89344},
+																								pos: position{line: 2829, col: 13, offset: 89812},
 																								run: (*parser).callonDocumentFragment231,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2814, col: 13, offset: 89344},
+																									pos: position{line: 2829, col: 13, offset: 89812},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2814, col: 13, offset: 89344},
+																										pos:        position{line: 2829, col: 13, offset: 89812},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5107,28 +5107,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonDocumentFragment235,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5137,9 +5137,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -5154,44 +5154,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 856, col: 5, offset: 27305},
+														pos:   position{line: 863, col: 5, offset: 27548},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 856, col: 9, offset: 27309},
+															pos: position{line: 863, col: 9, offset: 27552},
 															expr: &choiceExpr{
-																pos: position{line: 863, col: 5, offset: 27511},
+																pos: position{line: 870, col: 5, offset: 27754},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 863, col: 5, offset: 27511},
+																		pos: position{line: 870, col: 5, offset: 27754},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 863, col: 5, offset: 27511},
+																				pos:   position{line: 870, col: 5, offset: 27754},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 750, col: 5, offset: 23935},
+																					pos: position{line: 757, col: 5, offset: 24178},
 																					run: (*parser).callonDocumentFragment247,
 																					expr: &seqExpr{
-																						pos: position{line: 750, col: 5, offset: 23935},
+																						pos: position{line: 757, col: 5, offset: 24178},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 750, col: 5, offset: 23935},
+																								pos:   position{line: 757, col: 5, offset: 24178},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 750, col: 16, offset: 23946},
+																									pos: position{line: 757, col: 16, offset: 24189},
 																									run: (*parser).callonDocumentFragment250,
 																									expr: &seqExpr{
-																										pos: position{line: 750, col: 16, offset: 23946},
+																										pos: position{line: 757, col: 16, offset: 24189},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 750, col: 16, offset: 23946},
+																												pos:        position{line: 757, col: 16, offset: 24189},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 750, col: 23, offset: 23953},
+																												pos: position{line: 757, col: 23, offset: 24196},
 																												expr: &litMatcher{
-																													pos:        position{line: 750, col: 23, offset: 23953},
+																													pos:        position{line: 757, col: 23, offset: 24196},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5202,12 +5202,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 752, col: 8, offset: 24037},
+																								pos: position{line: 759, col: 8, offset: 24280},
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 10, offset: 90818},
+																									pos: position{line: 2883, col: 10, offset: 91286},
 																									run: (*parser).callonDocumentFragment256,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 10, offset: 90818},
+																										pos:        position{line: 2883, col: 10, offset: 91286},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5216,28 +5216,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2890, col: 8, offset: 91216},
+																								pos: position{line: 2905, col: 8, offset: 91684},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2877, col: 12, offset: 90989},
+																										pos: position{line: 2892, col: 12, offset: 91457},
 																										run: (*parser).callonDocumentFragment259,
 																										expr: &choiceExpr{
-																											pos: position{line: 2877, col: 13, offset: 90990},
+																											pos: position{line: 2892, col: 13, offset: 91458},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 13, offset: 90990},
+																													pos:        position{line: 2892, col: 13, offset: 91458},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 20, offset: 90997},
+																													pos:        position{line: 2892, col: 20, offset: 91465},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 29, offset: 91006},
+																													pos:        position{line: 2892, col: 29, offset: 91474},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5246,9 +5246,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2887, col: 8, offset: 91166},
+																										pos: position{line: 2902, col: 8, offset: 91634},
 																										expr: &anyMatcher{
-																											line: 2887, col: 9, offset: 91167,
+																											line: 2902, col: 9, offset: 91635,
 																										},
 																									},
 																								},
@@ -5258,15 +5258,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 864, col: 5, offset: 27542},
+																				pos: position{line: 871, col: 5, offset: 27785},
 																				run: (*parser).callonDocumentFragment266,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2887, col: 8, offset: 91166},
+																		pos: position{line: 2902, col: 8, offset: 91634},
 																		expr: &anyMatcher{
-																			line: 2887, col: 9, offset: 91167,
+																			line: 2902, col: 9, offset: 91635,
 																		},
 																	},
 																},
@@ -5277,36 +5277,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 963, col: 5, offset: 29991},
+											pos: position{line: 970, col: 5, offset: 30234},
 											run: (*parser).callonDocumentFragment269,
 											expr: &seqExpr{
-												pos: position{line: 963, col: 5, offset: 29991},
+												pos: position{line: 970, col: 5, offset: 30234},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 963, col: 5, offset: 29991},
+														pos:   position{line: 970, col: 5, offset: 30234},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 763, col: 26, offset: 24423},
+															pos: position{line: 770, col: 26, offset: 24666},
 															run: (*parser).callonDocumentFragment272,
 															expr: &seqExpr{
-																pos: position{line: 763, col: 26, offset: 24423},
+																pos: position{line: 770, col: 26, offset: 24666},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 763, col: 26, offset: 24423},
+																		pos:        position{line: 770, col: 26, offset: 24666},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 763, col: 32, offset: 24429},
+																		pos:   position{line: 770, col: 32, offset: 24672},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 767, col: 13, offset: 24559},
+																			pos: position{line: 774, col: 13, offset: 24802},
 																			run: (*parser).callonDocumentFragment276,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 767, col: 14, offset: 24560},
+																				pos: position{line: 774, col: 14, offset: 24803},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 767, col: 14, offset: 24560},
+																					pos:        position{line: 774, col: 14, offset: 24803},
 																					val:        "[^\\r\\n` ]",
 																					chars:      []rune{'\r', '\n', '`', ' '},
 																					ignoreCase: false,
@@ -5316,12 +5316,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 763, col: 52, offset: 24449},
+																		pos: position{line: 770, col: 52, offset: 24692},
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 10, offset: 90818},
+																			pos: position{line: 2883, col: 10, offset: 91286},
 																			run: (*parser).callonDocumentFragment280,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 10, offset: 90818},
+																				pos:        position{line: 2883, col: 10, offset: 91286},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5330,28 +5330,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2890, col: 8, offset: 91216},
+																		pos: position{line: 2905, col: 8, offset: 91684},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2877, col: 12, offset: 90989},
+																				pos: position{line: 2892, col: 12, offset: 91457},
 																				run: (*parser).callonDocumentFragment283,
 																				expr: &choiceExpr{
-																					pos: position{line: 2877, col: 13, offset: 90990},
+																					pos: position{line: 2892, col: 13, offset: 91458},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 13, offset: 90990},
+																							pos:        position{line: 2892, col: 13, offset: 91458},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 20, offset: 90997},
+																							pos:        position{line: 2892, col: 20, offset: 91465},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 29, offset: 91006},
+																							pos:        position{line: 2892, col: 29, offset: 91474},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5360,9 +5360,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2887, col: 8, offset: 91166},
+																				pos: position{line: 2902, col: 8, offset: 91634},
 																				expr: &anyMatcher{
-																					line: 2887, col: 9, offset: 91167,
+																					line: 2902, col: 9, offset: 91635,
 																				},
 																			},
 																		},
@@ -5372,34 +5372,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 964, col: 5, offset: 30037},
+														pos:   position{line: 971, col: 5, offset: 30280},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 977, col: 5, offset: 30510},
+															pos: position{line: 984, col: 5, offset: 30753},
 															expr: &actionExpr{
-																pos: position{line: 977, col: 6, offset: 30511},
+																pos: position{line: 984, col: 6, offset: 30754},
 																run: (*parser).callonDocumentFragment292,
 																expr: &seqExpr{
-																	pos: position{line: 977, col: 6, offset: 30511},
+																	pos: position{line: 984, col: 6, offset: 30754},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 977, col: 6, offset: 30511},
+																			pos: position{line: 984, col: 6, offset: 30754},
 																			expr: &seqExpr{
-																				pos: position{line: 974, col: 34, offset: 30458},
+																				pos: position{line: 981, col: 34, offset: 30701},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 974, col: 34, offset: 30458},
+																						pos:        position{line: 981, col: 34, offset: 30701},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 974, col: 40, offset: 30464},
+																						pos: position{line: 981, col: 40, offset: 30707},
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 10, offset: 90818},
+																							pos: position{line: 2883, col: 10, offset: 91286},
 																							run: (*parser).callonDocumentFragment298,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 10, offset: 90818},
+																								pos:        position{line: 2883, col: 10, offset: 91286},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5408,28 +5408,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2890, col: 8, offset: 91216},
+																						pos: position{line: 2905, col: 8, offset: 91684},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2877, col: 12, offset: 90989},
+																								pos: position{line: 2892, col: 12, offset: 91457},
 																								run: (*parser).callonDocumentFragment301,
 																								expr: &choiceExpr{
-																									pos: position{line: 2877, col: 13, offset: 90990},
+																									pos: position{line: 2892, col: 13, offset: 91458},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 13, offset: 90990},
+																											pos:        position{line: 2892, col: 13, offset: 91458},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 20, offset: 90997},
+																											pos:        position{line: 2892, col: 20, offset: 91465},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 29, offset: 91006},
+																											pos:        position{line: 2892, col: 29, offset: 91474},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5438,9 +5438,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2887, col: 8, offset: 91166},
+																								pos: position{line: 2902, col: 8, offset: 91634},
 																								expr: &anyMatcher{
-																									line: 2887, col: 9, offset: 91167,
+																									line: 2902, col: 9, offset: 91635,
 																								},
 																							},
 																						},
@@ -5449,30 +5449,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 978, col: 5, offset: 30546},
+																			pos:   position{line: 985, col: 5, offset: 30789},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 814, col: 5, offset: 26191},
+																				pos: position{line: 821, col: 5, offset: 26434},
 																				run: (*parser).callonDocumentFragment309,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 5, offset: 26191},
+																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2885, col: 11, offset: 91152},
+																							pos: position{line: 2900, col: 11, offset: 91620},
 																							expr: &anyMatcher{
-																								line: 2885, col: 13, offset: 91154,
+																								line: 2900, col: 13, offset: 91622,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 815, col: 5, offset: 26266},
+																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2814, col: 13, offset: 89344},
+																								pos: position{line: 2829, col: 13, offset: 89812},
 																								run: (*parser).callonDocumentFragment314,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2814, col: 13, offset: 89344},
+																									pos: position{line: 2829, col: 13, offset: 89812},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2814, col: 13, offset: 89344},
+																										pos:        position{line: 2829, col: 13, offset: 89812},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5482,28 +5482,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonDocumentFragment318,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5512,9 +5512,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -5529,23 +5529,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 965, col: 5, offset: 30076},
+														pos: position{line: 972, col: 5, offset: 30319},
 														expr: &seqExpr{
-															pos: position{line: 974, col: 34, offset: 30458},
+															pos: position{line: 981, col: 34, offset: 30701},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 974, col: 34, offset: 30458},
+																	pos:        position{line: 981, col: 34, offset: 30701},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 974, col: 40, offset: 30464},
+																	pos: position{line: 981, col: 40, offset: 30707},
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 10, offset: 90818},
+																		pos: position{line: 2883, col: 10, offset: 91286},
 																		run: (*parser).callonDocumentFragment329,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90818},
+																			pos:        position{line: 2883, col: 10, offset: 91286},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5554,28 +5554,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonDocumentFragment332,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5584,9 +5584,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -5598,39 +5598,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 879, col: 5, offset: 27852},
+											pos: position{line: 886, col: 5, offset: 28095},
 											run: (*parser).callonDocumentFragment339,
 											expr: &seqExpr{
-												pos: position{line: 879, col: 5, offset: 27852},
+												pos: position{line: 886, col: 5, offset: 28095},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 879, col: 5, offset: 27852},
+														pos:   position{line: 886, col: 5, offset: 28095},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 757, col: 5, offset: 24182},
+															pos: position{line: 764, col: 5, offset: 24425},
 															run: (*parser).callonDocumentFragment342,
 															expr: &seqExpr{
-																pos: position{line: 757, col: 5, offset: 24182},
+																pos: position{line: 764, col: 5, offset: 24425},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 757, col: 5, offset: 24182},
+																		pos:   position{line: 764, col: 5, offset: 24425},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 757, col: 16, offset: 24193},
+																			pos: position{line: 764, col: 16, offset: 24436},
 																			run: (*parser).callonDocumentFragment345,
 																			expr: &seqExpr{
-																				pos: position{line: 757, col: 16, offset: 24193},
+																				pos: position{line: 764, col: 16, offset: 24436},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 757, col: 16, offset: 24193},
+																						pos:        position{line: 764, col: 16, offset: 24436},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 757, col: 22, offset: 24199},
+																						pos: position{line: 764, col: 22, offset: 24442},
 																						expr: &litMatcher{
-																							pos:        position{line: 757, col: 22, offset: 24199},
+																							pos:        position{line: 764, col: 22, offset: 24442},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5641,12 +5641,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 759, col: 8, offset: 24283},
+																		pos: position{line: 766, col: 8, offset: 24526},
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 10, offset: 90818},
+																			pos: position{line: 2883, col: 10, offset: 91286},
 																			run: (*parser).callonDocumentFragment351,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 10, offset: 90818},
+																				pos:        position{line: 2883, col: 10, offset: 91286},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5655,28 +5655,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2890, col: 8, offset: 91216},
+																		pos: position{line: 2905, col: 8, offset: 91684},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2877, col: 12, offset: 90989},
+																				pos: position{line: 2892, col: 12, offset: 91457},
 																				run: (*parser).callonDocumentFragment354,
 																				expr: &choiceExpr{
-																					pos: position{line: 2877, col: 13, offset: 90990},
+																					pos: position{line: 2892, col: 13, offset: 91458},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 13, offset: 90990},
+																							pos:        position{line: 2892, col: 13, offset: 91458},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 20, offset: 90997},
+																							pos:        position{line: 2892, col: 20, offset: 91465},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 29, offset: 91006},
+																							pos:        position{line: 2892, col: 29, offset: 91474},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5685,9 +5685,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2887, col: 8, offset: 91166},
+																				pos: position{line: 2902, col: 8, offset: 91634},
 																				expr: &anyMatcher{
-																					line: 2887, col: 9, offset: 91167,
+																					line: 2902, col: 9, offset: 91635,
 																				},
 																			},
 																		},
@@ -5697,56 +5697,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 880, col: 5, offset: 27890},
+														pos: position{line: 887, col: 5, offset: 28133},
 														run: (*parser).callonDocumentFragment361,
 													},
 													&labeledExpr{
-														pos:   position{line: 883, col: 5, offset: 27982},
+														pos:   position{line: 890, col: 5, offset: 28225},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 898, col: 5, offset: 28372},
+															pos: position{line: 905, col: 5, offset: 28615},
 															expr: &actionExpr{
-																pos: position{line: 898, col: 6, offset: 28373},
+																pos: position{line: 905, col: 6, offset: 28616},
 																run: (*parser).callonDocumentFragment364,
 																expr: &seqExpr{
-																	pos: position{line: 898, col: 6, offset: 28373},
+																	pos: position{line: 905, col: 6, offset: 28616},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 898, col: 6, offset: 28373},
+																			pos: position{line: 905, col: 6, offset: 28616},
 																			expr: &choiceExpr{
-																				pos: position{line: 891, col: 5, offset: 28216},
+																				pos: position{line: 898, col: 5, offset: 28459},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 891, col: 5, offset: 28216},
+																						pos: position{line: 898, col: 5, offset: 28459},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 891, col: 5, offset: 28216},
+																								pos:   position{line: 898, col: 5, offset: 28459},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 757, col: 5, offset: 24182},
+																									pos: position{line: 764, col: 5, offset: 24425},
 																									run: (*parser).callonDocumentFragment370,
 																									expr: &seqExpr{
-																										pos: position{line: 757, col: 5, offset: 24182},
+																										pos: position{line: 764, col: 5, offset: 24425},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 757, col: 5, offset: 24182},
+																												pos:   position{line: 764, col: 5, offset: 24425},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 757, col: 16, offset: 24193},
+																													pos: position{line: 764, col: 16, offset: 24436},
 																													run: (*parser).callonDocumentFragment373,
 																													expr: &seqExpr{
-																														pos: position{line: 757, col: 16, offset: 24193},
+																														pos: position{line: 764, col: 16, offset: 24436},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 757, col: 16, offset: 24193},
+																																pos:        position{line: 764, col: 16, offset: 24436},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 757, col: 22, offset: 24199},
+																																pos: position{line: 764, col: 22, offset: 24442},
 																																expr: &litMatcher{
-																																	pos:        position{line: 757, col: 22, offset: 24199},
+																																	pos:        position{line: 764, col: 22, offset: 24442},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5757,12 +5757,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 759, col: 8, offset: 24283},
+																												pos: position{line: 766, col: 8, offset: 24526},
 																												expr: &actionExpr{
-																													pos: position{line: 2868, col: 10, offset: 90818},
+																													pos: position{line: 2883, col: 10, offset: 91286},
 																													run: (*parser).callonDocumentFragment379,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2868, col: 10, offset: 90818},
+																														pos:        position{line: 2883, col: 10, offset: 91286},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5771,28 +5771,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2890, col: 8, offset: 91216},
+																												pos: position{line: 2905, col: 8, offset: 91684},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2877, col: 12, offset: 90989},
+																														pos: position{line: 2892, col: 12, offset: 91457},
 																														run: (*parser).callonDocumentFragment382,
 																														expr: &choiceExpr{
-																															pos: position{line: 2877, col: 13, offset: 90990},
+																															pos: position{line: 2892, col: 13, offset: 91458},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 13, offset: 90990},
+																																	pos:        position{line: 2892, col: 13, offset: 91458},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 20, offset: 90997},
+																																	pos:        position{line: 2892, col: 20, offset: 91465},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 29, offset: 91006},
+																																	pos:        position{line: 2892, col: 29, offset: 91474},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5801,9 +5801,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2887, col: 8, offset: 91166},
+																														pos: position{line: 2902, col: 8, offset: 91634},
 																														expr: &anyMatcher{
-																															line: 2887, col: 9, offset: 91167,
+																															line: 2902, col: 9, offset: 91635,
 																														},
 																													},
 																												},
@@ -5813,45 +5813,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 892, col: 5, offset: 28246},
+																								pos: position{line: 899, col: 5, offset: 28489},
 																								run: (*parser).callonDocumentFragment389,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2887, col: 8, offset: 91166},
+																						pos: position{line: 2902, col: 8, offset: 91634},
 																						expr: &anyMatcher{
-																							line: 2887, col: 9, offset: 91167,
+																							line: 2902, col: 9, offset: 91635,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 899, col: 5, offset: 28402},
+																			pos:   position{line: 906, col: 5, offset: 28645},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 814, col: 5, offset: 26191},
+																				pos: position{line: 821, col: 5, offset: 26434},
 																				run: (*parser).callonDocumentFragment393,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 5, offset: 26191},
+																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2885, col: 11, offset: 91152},
+																							pos: position{line: 2900, col: 11, offset: 91620},
 																							expr: &anyMatcher{
-																								line: 2885, col: 13, offset: 91154,
+																								line: 2900, col: 13, offset: 91622,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 815, col: 5, offset: 26266},
+																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2814, col: 13, offset: 89344},
+																								pos: position{line: 2829, col: 13, offset: 89812},
 																								run: (*parser).callonDocumentFragment398,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2814, col: 13, offset: 89344},
+																									pos: position{line: 2829, col: 13, offset: 89812},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2814, col: 13, offset: 89344},
+																										pos:        position{line: 2829, col: 13, offset: 89812},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5861,28 +5861,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonDocumentFragment402,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5891,9 +5891,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -5908,44 +5908,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 884, col: 5, offset: 28015},
+														pos:   position{line: 891, col: 5, offset: 28258},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 884, col: 9, offset: 28019},
+															pos: position{line: 891, col: 9, offset: 28262},
 															expr: &choiceExpr{
-																pos: position{line: 891, col: 5, offset: 28216},
+																pos: position{line: 898, col: 5, offset: 28459},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 891, col: 5, offset: 28216},
+																		pos: position{line: 898, col: 5, offset: 28459},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 891, col: 5, offset: 28216},
+																				pos:   position{line: 898, col: 5, offset: 28459},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 757, col: 5, offset: 24182},
+																					pos: position{line: 764, col: 5, offset: 24425},
 																					run: (*parser).callonDocumentFragment414,
 																					expr: &seqExpr{
-																						pos: position{line: 757, col: 5, offset: 24182},
+																						pos: position{line: 764, col: 5, offset: 24425},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 757, col: 5, offset: 24182},
+																								pos:   position{line: 764, col: 5, offset: 24425},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 757, col: 16, offset: 24193},
+																									pos: position{line: 764, col: 16, offset: 24436},
 																									run: (*parser).callonDocumentFragment417,
 																									expr: &seqExpr{
-																										pos: position{line: 757, col: 16, offset: 24193},
+																										pos: position{line: 764, col: 16, offset: 24436},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 757, col: 16, offset: 24193},
+																												pos:        position{line: 764, col: 16, offset: 24436},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 757, col: 22, offset: 24199},
+																												pos: position{line: 764, col: 22, offset: 24442},
 																												expr: &litMatcher{
-																													pos:        position{line: 757, col: 22, offset: 24199},
+																													pos:        position{line: 764, col: 22, offset: 24442},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -5956,12 +5956,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 759, col: 8, offset: 24283},
+																								pos: position{line: 766, col: 8, offset: 24526},
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 10, offset: 90818},
+																									pos: position{line: 2883, col: 10, offset: 91286},
 																									run: (*parser).callonDocumentFragment423,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 10, offset: 90818},
+																										pos:        position{line: 2883, col: 10, offset: 91286},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5970,28 +5970,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2890, col: 8, offset: 91216},
+																								pos: position{line: 2905, col: 8, offset: 91684},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2877, col: 12, offset: 90989},
+																										pos: position{line: 2892, col: 12, offset: 91457},
 																										run: (*parser).callonDocumentFragment426,
 																										expr: &choiceExpr{
-																											pos: position{line: 2877, col: 13, offset: 90990},
+																											pos: position{line: 2892, col: 13, offset: 91458},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 13, offset: 90990},
+																													pos:        position{line: 2892, col: 13, offset: 91458},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 20, offset: 90997},
+																													pos:        position{line: 2892, col: 20, offset: 91465},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 29, offset: 91006},
+																													pos:        position{line: 2892, col: 29, offset: 91474},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6000,9 +6000,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2887, col: 8, offset: 91166},
+																										pos: position{line: 2902, col: 8, offset: 91634},
 																										expr: &anyMatcher{
-																											line: 2887, col: 9, offset: 91167,
+																											line: 2902, col: 9, offset: 91635,
 																										},
 																									},
 																								},
@@ -6012,15 +6012,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 892, col: 5, offset: 28246},
+																				pos: position{line: 899, col: 5, offset: 28489},
 																				run: (*parser).callonDocumentFragment433,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2887, col: 8, offset: 91166},
+																		pos: position{line: 2902, col: 8, offset: 91634},
 																		expr: &anyMatcher{
-																			line: 2887, col: 9, offset: 91167,
+																			line: 2902, col: 9, offset: 91635,
 																		},
 																	},
 																},
@@ -6031,39 +6031,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 907, col: 5, offset: 28557},
+											pos: position{line: 914, col: 5, offset: 28800},
 											run: (*parser).callonDocumentFragment436,
 											expr: &seqExpr{
-												pos: position{line: 907, col: 5, offset: 28557},
+												pos: position{line: 914, col: 5, offset: 28800},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 907, col: 5, offset: 28557},
+														pos:   position{line: 914, col: 5, offset: 28800},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 772, col: 5, offset: 24719},
+															pos: position{line: 779, col: 5, offset: 24962},
 															run: (*parser).callonDocumentFragment439,
 															expr: &seqExpr{
-																pos: position{line: 772, col: 5, offset: 24719},
+																pos: position{line: 779, col: 5, offset: 24962},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 772, col: 5, offset: 24719},
+																		pos:   position{line: 779, col: 5, offset: 24962},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 772, col: 16, offset: 24730},
+																			pos: position{line: 779, col: 16, offset: 24973},
 																			run: (*parser).callonDocumentFragment442,
 																			expr: &seqExpr{
-																				pos: position{line: 772, col: 16, offset: 24730},
+																				pos: position{line: 779, col: 16, offset: 24973},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 772, col: 16, offset: 24730},
+																						pos:        position{line: 779, col: 16, offset: 24973},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 772, col: 23, offset: 24737},
+																						pos: position{line: 779, col: 23, offset: 24980},
 																						expr: &litMatcher{
-																							pos:        position{line: 772, col: 23, offset: 24737},
+																							pos:        position{line: 779, col: 23, offset: 24980},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6074,12 +6074,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 774, col: 8, offset: 24821},
+																		pos: position{line: 781, col: 8, offset: 25064},
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 10, offset: 90818},
+																			pos: position{line: 2883, col: 10, offset: 91286},
 																			run: (*parser).callonDocumentFragment448,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 10, offset: 90818},
+																				pos:        position{line: 2883, col: 10, offset: 91286},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6088,28 +6088,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2890, col: 8, offset: 91216},
+																		pos: position{line: 2905, col: 8, offset: 91684},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2877, col: 12, offset: 90989},
+																				pos: position{line: 2892, col: 12, offset: 91457},
 																				run: (*parser).callonDocumentFragment451,
 																				expr: &choiceExpr{
-																					pos: position{line: 2877, col: 13, offset: 90990},
+																					pos: position{line: 2892, col: 13, offset: 91458},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 13, offset: 90990},
+																							pos:        position{line: 2892, col: 13, offset: 91458},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 20, offset: 90997},
+																							pos:        position{line: 2892, col: 20, offset: 91465},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 29, offset: 91006},
+																							pos:        position{line: 2892, col: 29, offset: 91474},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6118,9 +6118,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2887, col: 8, offset: 91166},
+																				pos: position{line: 2902, col: 8, offset: 91634},
 																				expr: &anyMatcher{
-																					line: 2887, col: 9, offset: 91167,
+																					line: 2902, col: 9, offset: 91635,
 																				},
 																			},
 																		},
@@ -6130,56 +6130,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 908, col: 5, offset: 28596},
+														pos: position{line: 915, col: 5, offset: 28839},
 														run: (*parser).callonDocumentFragment458,
 													},
 													&labeledExpr{
-														pos:   position{line: 911, col: 5, offset: 28688},
+														pos:   position{line: 918, col: 5, offset: 28931},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 926, col: 5, offset: 29086},
+															pos: position{line: 933, col: 5, offset: 29329},
 															expr: &actionExpr{
-																pos: position{line: 926, col: 6, offset: 29087},
+																pos: position{line: 933, col: 6, offset: 29330},
 																run: (*parser).callonDocumentFragment461,
 																expr: &seqExpr{
-																	pos: position{line: 926, col: 6, offset: 29087},
+																	pos: position{line: 933, col: 6, offset: 29330},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 926, col: 6, offset: 29087},
+																			pos: position{line: 933, col: 6, offset: 29330},
 																			expr: &choiceExpr{
-																				pos: position{line: 919, col: 5, offset: 28928},
+																				pos: position{line: 926, col: 5, offset: 29171},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 919, col: 5, offset: 28928},
+																						pos: position{line: 926, col: 5, offset: 29171},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 919, col: 5, offset: 28928},
+																								pos:   position{line: 926, col: 5, offset: 29171},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 772, col: 5, offset: 24719},
+																									pos: position{line: 779, col: 5, offset: 24962},
 																									run: (*parser).callonDocumentFragment467,
 																									expr: &seqExpr{
-																										pos: position{line: 772, col: 5, offset: 24719},
+																										pos: position{line: 779, col: 5, offset: 24962},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 772, col: 5, offset: 24719},
+																												pos:   position{line: 779, col: 5, offset: 24962},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 772, col: 16, offset: 24730},
+																													pos: position{line: 779, col: 16, offset: 24973},
 																													run: (*parser).callonDocumentFragment470,
 																													expr: &seqExpr{
-																														pos: position{line: 772, col: 16, offset: 24730},
+																														pos: position{line: 779, col: 16, offset: 24973},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 772, col: 16, offset: 24730},
+																																pos:        position{line: 779, col: 16, offset: 24973},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 772, col: 23, offset: 24737},
+																																pos: position{line: 779, col: 23, offset: 24980},
 																																expr: &litMatcher{
-																																	pos:        position{line: 772, col: 23, offset: 24737},
+																																	pos:        position{line: 779, col: 23, offset: 24980},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6190,12 +6190,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 774, col: 8, offset: 24821},
+																												pos: position{line: 781, col: 8, offset: 25064},
 																												expr: &actionExpr{
-																													pos: position{line: 2868, col: 10, offset: 90818},
+																													pos: position{line: 2883, col: 10, offset: 91286},
 																													run: (*parser).callonDocumentFragment476,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2868, col: 10, offset: 90818},
+																														pos:        position{line: 2883, col: 10, offset: 91286},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6204,28 +6204,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2890, col: 8, offset: 91216},
+																												pos: position{line: 2905, col: 8, offset: 91684},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2877, col: 12, offset: 90989},
+																														pos: position{line: 2892, col: 12, offset: 91457},
 																														run: (*parser).callonDocumentFragment479,
 																														expr: &choiceExpr{
-																															pos: position{line: 2877, col: 13, offset: 90990},
+																															pos: position{line: 2892, col: 13, offset: 91458},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 13, offset: 90990},
+																																	pos:        position{line: 2892, col: 13, offset: 91458},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 20, offset: 90997},
+																																	pos:        position{line: 2892, col: 20, offset: 91465},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 29, offset: 91006},
+																																	pos:        position{line: 2892, col: 29, offset: 91474},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6234,9 +6234,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2887, col: 8, offset: 91166},
+																														pos: position{line: 2902, col: 8, offset: 91634},
 																														expr: &anyMatcher{
-																															line: 2887, col: 9, offset: 91167,
+																															line: 2902, col: 9, offset: 91635,
 																														},
 																													},
 																												},
@@ -6246,45 +6246,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 920, col: 5, offset: 28959},
+																								pos: position{line: 927, col: 5, offset: 29202},
 																								run: (*parser).callonDocumentFragment486,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2887, col: 8, offset: 91166},
+																						pos: position{line: 2902, col: 8, offset: 91634},
 																						expr: &anyMatcher{
-																							line: 2887, col: 9, offset: 91167,
+																							line: 2902, col: 9, offset: 91635,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 927, col: 5, offset: 29117},
+																			pos:   position{line: 934, col: 5, offset: 29360},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 814, col: 5, offset: 26191},
+																				pos: position{line: 821, col: 5, offset: 26434},
 																				run: (*parser).callonDocumentFragment490,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 5, offset: 26191},
+																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2885, col: 11, offset: 91152},
+																							pos: position{line: 2900, col: 11, offset: 91620},
 																							expr: &anyMatcher{
-																								line: 2885, col: 13, offset: 91154,
+																								line: 2900, col: 13, offset: 91622,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 815, col: 5, offset: 26266},
+																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2814, col: 13, offset: 89344},
+																								pos: position{line: 2829, col: 13, offset: 89812},
 																								run: (*parser).callonDocumentFragment495,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2814, col: 13, offset: 89344},
+																									pos: position{line: 2829, col: 13, offset: 89812},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2814, col: 13, offset: 89344},
+																										pos:        position{line: 2829, col: 13, offset: 89812},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6294,28 +6294,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonDocumentFragment499,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6324,9 +6324,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -6341,44 +6341,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 912, col: 5, offset: 28722},
+														pos:   position{line: 919, col: 5, offset: 28965},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 912, col: 9, offset: 28726},
+															pos: position{line: 919, col: 9, offset: 28969},
 															expr: &choiceExpr{
-																pos: position{line: 919, col: 5, offset: 28928},
+																pos: position{line: 926, col: 5, offset: 29171},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 919, col: 5, offset: 28928},
+																		pos: position{line: 926, col: 5, offset: 29171},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 919, col: 5, offset: 28928},
+																				pos:   position{line: 926, col: 5, offset: 29171},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 772, col: 5, offset: 24719},
+																					pos: position{line: 779, col: 5, offset: 24962},
 																					run: (*parser).callonDocumentFragment511,
 																					expr: &seqExpr{
-																						pos: position{line: 772, col: 5, offset: 24719},
+																						pos: position{line: 779, col: 5, offset: 24962},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 772, col: 5, offset: 24719},
+																								pos:   position{line: 779, col: 5, offset: 24962},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 772, col: 16, offset: 24730},
+																									pos: position{line: 779, col: 16, offset: 24973},
 																									run: (*parser).callonDocumentFragment514,
 																									expr: &seqExpr{
-																										pos: position{line: 772, col: 16, offset: 24730},
+																										pos: position{line: 779, col: 16, offset: 24973},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 772, col: 16, offset: 24730},
+																												pos:        position{line: 779, col: 16, offset: 24973},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 772, col: 23, offset: 24737},
+																												pos: position{line: 779, col: 23, offset: 24980},
 																												expr: &litMatcher{
-																													pos:        position{line: 772, col: 23, offset: 24737},
+																													pos:        position{line: 779, col: 23, offset: 24980},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6389,12 +6389,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 774, col: 8, offset: 24821},
+																								pos: position{line: 781, col: 8, offset: 25064},
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 10, offset: 90818},
+																									pos: position{line: 2883, col: 10, offset: 91286},
 																									run: (*parser).callonDocumentFragment520,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 10, offset: 90818},
+																										pos:        position{line: 2883, col: 10, offset: 91286},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6403,28 +6403,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2890, col: 8, offset: 91216},
+																								pos: position{line: 2905, col: 8, offset: 91684},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2877, col: 12, offset: 90989},
+																										pos: position{line: 2892, col: 12, offset: 91457},
 																										run: (*parser).callonDocumentFragment523,
 																										expr: &choiceExpr{
-																											pos: position{line: 2877, col: 13, offset: 90990},
+																											pos: position{line: 2892, col: 13, offset: 91458},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 13, offset: 90990},
+																													pos:        position{line: 2892, col: 13, offset: 91458},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 20, offset: 90997},
+																													pos:        position{line: 2892, col: 20, offset: 91465},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 29, offset: 91006},
+																													pos:        position{line: 2892, col: 29, offset: 91474},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6433,9 +6433,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2887, col: 8, offset: 91166},
+																										pos: position{line: 2902, col: 8, offset: 91634},
 																										expr: &anyMatcher{
-																											line: 2887, col: 9, offset: 91167,
+																											line: 2902, col: 9, offset: 91635,
 																										},
 																									},
 																								},
@@ -6445,15 +6445,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 920, col: 5, offset: 28959},
+																				pos: position{line: 927, col: 5, offset: 29202},
 																				run: (*parser).callonDocumentFragment530,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2887, col: 8, offset: 91166},
+																		pos: position{line: 2902, col: 8, offset: 91634},
 																		expr: &anyMatcher{
-																			line: 2887, col: 9, offset: 91167,
+																			line: 2902, col: 9, offset: 91635,
 																		},
 																	},
 																},
@@ -6464,39 +6464,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 935, col: 5, offset: 29272},
+											pos: position{line: 942, col: 5, offset: 29515},
 											run: (*parser).callonDocumentFragment533,
 											expr: &seqExpr{
-												pos: position{line: 935, col: 5, offset: 29272},
+												pos: position{line: 942, col: 5, offset: 29515},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 935, col: 5, offset: 29272},
+														pos:   position{line: 942, col: 5, offset: 29515},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 786, col: 5, offset: 25195},
+															pos: position{line: 793, col: 5, offset: 25438},
 															run: (*parser).callonDocumentFragment536,
 															expr: &seqExpr{
-																pos: position{line: 786, col: 5, offset: 25195},
+																pos: position{line: 793, col: 5, offset: 25438},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 786, col: 5, offset: 25195},
+																		pos:   position{line: 793, col: 5, offset: 25438},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 786, col: 16, offset: 25206},
+																			pos: position{line: 793, col: 16, offset: 25449},
 																			run: (*parser).callonDocumentFragment539,
 																			expr: &seqExpr{
-																				pos: position{line: 786, col: 16, offset: 25206},
+																				pos: position{line: 793, col: 16, offset: 25449},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 786, col: 16, offset: 25206},
+																						pos:        position{line: 793, col: 16, offset: 25449},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 786, col: 23, offset: 25213},
+																						pos: position{line: 793, col: 23, offset: 25456},
 																						expr: &litMatcher{
-																							pos:        position{line: 786, col: 23, offset: 25213},
+																							pos:        position{line: 793, col: 23, offset: 25456},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6507,12 +6507,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 788, col: 8, offset: 25297},
+																		pos: position{line: 795, col: 8, offset: 25540},
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 10, offset: 90818},
+																			pos: position{line: 2883, col: 10, offset: 91286},
 																			run: (*parser).callonDocumentFragment545,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 10, offset: 90818},
+																				pos:        position{line: 2883, col: 10, offset: 91286},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6521,28 +6521,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2890, col: 8, offset: 91216},
+																		pos: position{line: 2905, col: 8, offset: 91684},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2877, col: 12, offset: 90989},
+																				pos: position{line: 2892, col: 12, offset: 91457},
 																				run: (*parser).callonDocumentFragment548,
 																				expr: &choiceExpr{
-																					pos: position{line: 2877, col: 13, offset: 90990},
+																					pos: position{line: 2892, col: 13, offset: 91458},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 13, offset: 90990},
+																							pos:        position{line: 2892, col: 13, offset: 91458},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 20, offset: 90997},
+																							pos:        position{line: 2892, col: 20, offset: 91465},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 29, offset: 91006},
+																							pos:        position{line: 2892, col: 29, offset: 91474},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6551,9 +6551,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2887, col: 8, offset: 91166},
+																				pos: position{line: 2902, col: 8, offset: 91634},
 																				expr: &anyMatcher{
-																					line: 2887, col: 9, offset: 91167,
+																					line: 2902, col: 9, offset: 91635,
 																				},
 																			},
 																		},
@@ -6563,56 +6563,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 936, col: 5, offset: 29311},
+														pos: position{line: 943, col: 5, offset: 29554},
 														run: (*parser).callonDocumentFragment555,
 													},
 													&labeledExpr{
-														pos:   position{line: 939, col: 5, offset: 29403},
+														pos:   position{line: 946, col: 5, offset: 29646},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 954, col: 5, offset: 29801},
+															pos: position{line: 961, col: 5, offset: 30044},
 															expr: &actionExpr{
-																pos: position{line: 954, col: 6, offset: 29802},
+																pos: position{line: 961, col: 6, offset: 30045},
 																run: (*parser).callonDocumentFragment558,
 																expr: &seqExpr{
-																	pos: position{line: 954, col: 6, offset: 29802},
+																	pos: position{line: 961, col: 6, offset: 30045},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 954, col: 6, offset: 29802},
+																			pos: position{line: 961, col: 6, offset: 30045},
 																			expr: &choiceExpr{
-																				pos: position{line: 947, col: 5, offset: 29643},
+																				pos: position{line: 954, col: 5, offset: 29886},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 947, col: 5, offset: 29643},
+																						pos: position{line: 954, col: 5, offset: 29886},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 947, col: 5, offset: 29643},
+																								pos:   position{line: 954, col: 5, offset: 29886},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 786, col: 5, offset: 25195},
+																									pos: position{line: 793, col: 5, offset: 25438},
 																									run: (*parser).callonDocumentFragment564,
 																									expr: &seqExpr{
-																										pos: position{line: 786, col: 5, offset: 25195},
+																										pos: position{line: 793, col: 5, offset: 25438},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 786, col: 5, offset: 25195},
+																												pos:   position{line: 793, col: 5, offset: 25438},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 786, col: 16, offset: 25206},
+																													pos: position{line: 793, col: 16, offset: 25449},
 																													run: (*parser).callonDocumentFragment567,
 																													expr: &seqExpr{
-																														pos: position{line: 786, col: 16, offset: 25206},
+																														pos: position{line: 793, col: 16, offset: 25449},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 786, col: 16, offset: 25206},
+																																pos:        position{line: 793, col: 16, offset: 25449},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 786, col: 23, offset: 25213},
+																																pos: position{line: 793, col: 23, offset: 25456},
 																																expr: &litMatcher{
-																																	pos:        position{line: 786, col: 23, offset: 25213},
+																																	pos:        position{line: 793, col: 23, offset: 25456},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6623,12 +6623,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 788, col: 8, offset: 25297},
+																												pos: position{line: 795, col: 8, offset: 25540},
 																												expr: &actionExpr{
-																													pos: position{line: 2868, col: 10, offset: 90818},
+																													pos: position{line: 2883, col: 10, offset: 91286},
 																													run: (*parser).callonDocumentFragment573,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2868, col: 10, offset: 90818},
+																														pos:        position{line: 2883, col: 10, offset: 91286},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6637,28 +6637,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2890, col: 8, offset: 91216},
+																												pos: position{line: 2905, col: 8, offset: 91684},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2877, col: 12, offset: 90989},
+																														pos: position{line: 2892, col: 12, offset: 91457},
 																														run: (*parser).callonDocumentFragment576,
 																														expr: &choiceExpr{
-																															pos: position{line: 2877, col: 13, offset: 90990},
+																															pos: position{line: 2892, col: 13, offset: 91458},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 13, offset: 90990},
+																																	pos:        position{line: 2892, col: 13, offset: 91458},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 20, offset: 90997},
+																																	pos:        position{line: 2892, col: 20, offset: 91465},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 29, offset: 91006},
+																																	pos:        position{line: 2892, col: 29, offset: 91474},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6667,9 +6667,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2887, col: 8, offset: 91166},
+																														pos: position{line: 2902, col: 8, offset: 91634},
 																														expr: &anyMatcher{
-																															line: 2887, col: 9, offset: 91167,
+																															line: 2902, col: 9, offset: 91635,
 																														},
 																													},
 																												},
@@ -6679,45 +6679,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 948, col: 5, offset: 29674},
+																								pos: position{line: 955, col: 5, offset: 29917},
 																								run: (*parser).callonDocumentFragment583,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2887, col: 8, offset: 91166},
+																						pos: position{line: 2902, col: 8, offset: 91634},
 																						expr: &anyMatcher{
-																							line: 2887, col: 9, offset: 91167,
+																							line: 2902, col: 9, offset: 91635,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 955, col: 5, offset: 29832},
+																			pos:   position{line: 962, col: 5, offset: 30075},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 814, col: 5, offset: 26191},
+																				pos: position{line: 821, col: 5, offset: 26434},
 																				run: (*parser).callonDocumentFragment587,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 5, offset: 26191},
+																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2885, col: 11, offset: 91152},
+																							pos: position{line: 2900, col: 11, offset: 91620},
 																							expr: &anyMatcher{
-																								line: 2885, col: 13, offset: 91154,
+																								line: 2900, col: 13, offset: 91622,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 815, col: 5, offset: 26266},
+																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2814, col: 13, offset: 89344},
+																								pos: position{line: 2829, col: 13, offset: 89812},
 																								run: (*parser).callonDocumentFragment592,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2814, col: 13, offset: 89344},
+																									pos: position{line: 2829, col: 13, offset: 89812},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2814, col: 13, offset: 89344},
+																										pos:        position{line: 2829, col: 13, offset: 89812},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6727,28 +6727,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonDocumentFragment596,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6757,9 +6757,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -6774,44 +6774,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 940, col: 5, offset: 29437},
+														pos:   position{line: 947, col: 5, offset: 29680},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 940, col: 9, offset: 29441},
+															pos: position{line: 947, col: 9, offset: 29684},
 															expr: &choiceExpr{
-																pos: position{line: 947, col: 5, offset: 29643},
+																pos: position{line: 954, col: 5, offset: 29886},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 947, col: 5, offset: 29643},
+																		pos: position{line: 954, col: 5, offset: 29886},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 947, col: 5, offset: 29643},
+																				pos:   position{line: 954, col: 5, offset: 29886},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 786, col: 5, offset: 25195},
+																					pos: position{line: 793, col: 5, offset: 25438},
 																					run: (*parser).callonDocumentFragment608,
 																					expr: &seqExpr{
-																						pos: position{line: 786, col: 5, offset: 25195},
+																						pos: position{line: 793, col: 5, offset: 25438},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 786, col: 5, offset: 25195},
+																								pos:   position{line: 793, col: 5, offset: 25438},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 786, col: 16, offset: 25206},
+																									pos: position{line: 793, col: 16, offset: 25449},
 																									run: (*parser).callonDocumentFragment611,
 																									expr: &seqExpr{
-																										pos: position{line: 786, col: 16, offset: 25206},
+																										pos: position{line: 793, col: 16, offset: 25449},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 786, col: 16, offset: 25206},
+																												pos:        position{line: 793, col: 16, offset: 25449},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 786, col: 23, offset: 25213},
+																												pos: position{line: 793, col: 23, offset: 25456},
 																												expr: &litMatcher{
-																													pos:        position{line: 786, col: 23, offset: 25213},
+																													pos:        position{line: 793, col: 23, offset: 25456},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6822,12 +6822,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 788, col: 8, offset: 25297},
+																								pos: position{line: 795, col: 8, offset: 25540},
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 10, offset: 90818},
+																									pos: position{line: 2883, col: 10, offset: 91286},
 																									run: (*parser).callonDocumentFragment617,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 10, offset: 90818},
+																										pos:        position{line: 2883, col: 10, offset: 91286},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6836,28 +6836,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2890, col: 8, offset: 91216},
+																								pos: position{line: 2905, col: 8, offset: 91684},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2877, col: 12, offset: 90989},
+																										pos: position{line: 2892, col: 12, offset: 91457},
 																										run: (*parser).callonDocumentFragment620,
 																										expr: &choiceExpr{
-																											pos: position{line: 2877, col: 13, offset: 90990},
+																											pos: position{line: 2892, col: 13, offset: 91458},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 13, offset: 90990},
+																													pos:        position{line: 2892, col: 13, offset: 91458},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 20, offset: 90997},
+																													pos:        position{line: 2892, col: 20, offset: 91465},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 29, offset: 91006},
+																													pos:        position{line: 2892, col: 29, offset: 91474},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6866,9 +6866,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2887, col: 8, offset: 91166},
+																										pos: position{line: 2902, col: 8, offset: 91634},
 																										expr: &anyMatcher{
-																											line: 2887, col: 9, offset: 91167,
+																											line: 2902, col: 9, offset: 91635,
 																										},
 																									},
 																								},
@@ -6878,15 +6878,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 948, col: 5, offset: 29674},
+																				pos: position{line: 955, col: 5, offset: 29917},
 																				run: (*parser).callonDocumentFragment627,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2887, col: 8, offset: 91166},
+																		pos: position{line: 2902, col: 8, offset: 91634},
 																		expr: &anyMatcher{
-																			line: 2887, col: 9, offset: 91167,
+																			line: 2902, col: 9, offset: 91635,
 																		},
 																	},
 																},
@@ -6897,63 +6897,63 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 986, col: 5, offset: 30715},
+											pos: position{line: 993, col: 5, offset: 30958},
 											run: (*parser).callonDocumentFragment630,
 											expr: &seqExpr{
-												pos: position{line: 986, col: 5, offset: 30715},
+												pos: position{line: 993, col: 5, offset: 30958},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 986, col: 5, offset: 30715},
+														pos:   position{line: 993, col: 5, offset: 30958},
 														label: "firstLine",
 														expr: &choiceExpr{
-															pos: position{line: 986, col: 16, offset: 30726},
+															pos: position{line: 993, col: 16, offset: 30969},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 999, col: 35, offset: 31202},
+																	pos: position{line: 1006, col: 35, offset: 31445},
 																	run: (*parser).callonDocumentFragment634,
 																	expr: &seqExpr{
-																		pos: position{line: 999, col: 35, offset: 31202},
+																		pos: position{line: 1006, col: 35, offset: 31445},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 999, col: 35, offset: 31202},
+																				pos:        position{line: 1006, col: 35, offset: 31445},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 999, col: 40, offset: 31207},
+																				pos:   position{line: 1006, col: 40, offset: 31450},
 																				label: "comment",
 																				expr: &actionExpr{
-																					pos: position{line: 2478, col: 22, offset: 79761},
+																					pos: position{line: 2493, col: 22, offset: 80229},
 																					run: (*parser).callonDocumentFragment638,
 																					expr: &seqExpr{
-																						pos: position{line: 2478, col: 22, offset: 79761},
+																						pos: position{line: 2493, col: 22, offset: 80229},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2483, col: 31, offset: 79982},
+																								pos:        position{line: 2498, col: 31, offset: 80450},
 																								val:        "//",
 																								ignoreCase: false,
 																								want:       "\"//\"",
 																							},
 																							&notExpr{
-																								pos: position{line: 2483, col: 36, offset: 79987},
+																								pos: position{line: 2498, col: 36, offset: 80455},
 																								expr: &litMatcher{
-																									pos:        position{line: 2483, col: 37, offset: 79988},
+																									pos:        position{line: 2498, col: 37, offset: 80456},
 																									val:        "//",
 																									ignoreCase: false,
 																									want:       "\"//\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 2478, col: 49, offset: 79788},
+																								pos:   position{line: 2493, col: 49, offset: 80256},
 																								label: "content",
 																								expr: &actionExpr{
-																									pos: position{line: 2814, col: 13, offset: 89344},
+																									pos: position{line: 2829, col: 13, offset: 89812},
 																									run: (*parser).callonDocumentFragment644,
 																									expr: &zeroOrMoreExpr{
-																										pos: position{line: 2814, col: 13, offset: 89344},
+																										pos: position{line: 2829, col: 13, offset: 89812},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2814, col: 13, offset: 89344},
+																											pos:        position{line: 2829, col: 13, offset: 89812},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -6963,28 +6963,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2890, col: 8, offset: 91216},
+																								pos: position{line: 2905, col: 8, offset: 91684},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2877, col: 12, offset: 90989},
+																										pos: position{line: 2892, col: 12, offset: 91457},
 																										run: (*parser).callonDocumentFragment648,
 																										expr: &choiceExpr{
-																											pos: position{line: 2877, col: 13, offset: 90990},
+																											pos: position{line: 2892, col: 13, offset: 91458},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 13, offset: 90990},
+																													pos:        position{line: 2892, col: 13, offset: 91458},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 20, offset: 90997},
+																													pos:        position{line: 2892, col: 20, offset: 91465},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 29, offset: 91006},
+																													pos:        position{line: 2892, col: 29, offset: 91474},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6993,9 +6993,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2887, col: 8, offset: 91166},
+																										pos: position{line: 2902, col: 8, offset: 91634},
 																										expr: &anyMatcher{
-																											line: 2887, col: 9, offset: 91167,
+																											line: 2902, col: 9, offset: 91635,
 																										},
 																									},
 																								},
@@ -7008,32 +7008,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 993, col: 5, offset: 31060},
+																	pos: position{line: 1000, col: 5, offset: 31303},
 																	run: (*parser).callonDocumentFragment655,
 																	expr: &seqExpr{
-																		pos: position{line: 993, col: 5, offset: 31060},
+																		pos: position{line: 1000, col: 5, offset: 31303},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 993, col: 5, offset: 31060},
+																				pos: position{line: 1000, col: 5, offset: 31303},
 																				expr: &actionExpr{
-																					pos: position{line: 680, col: 14, offset: 21592},
+																					pos: position{line: 687, col: 14, offset: 21835},
 																					run: (*parser).callonDocumentFragment658,
 																					expr: &seqExpr{
-																						pos: position{line: 680, col: 14, offset: 21592},
+																						pos: position{line: 687, col: 14, offset: 21835},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2885, col: 11, offset: 91152},
+																								pos: position{line: 2900, col: 11, offset: 91620},
 																								expr: &anyMatcher{
-																									line: 2885, col: 13, offset: 91154,
+																									line: 2900, col: 13, offset: 91622,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 680, col: 21, offset: 21599},
+																								pos: position{line: 687, col: 21, offset: 21842},
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 10, offset: 90818},
+																									pos: position{line: 2883, col: 10, offset: 91286},
 																									run: (*parser).callonDocumentFragment663,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 10, offset: 90818},
+																										pos:        position{line: 2883, col: 10, offset: 91286},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7042,28 +7042,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2890, col: 8, offset: 91216},
+																								pos: position{line: 2905, col: 8, offset: 91684},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2877, col: 12, offset: 90989},
+																										pos: position{line: 2892, col: 12, offset: 91457},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &choiceExpr{
-																											pos: position{line: 2877, col: 13, offset: 90990},
+																											pos: position{line: 2892, col: 13, offset: 91458},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 13, offset: 90990},
+																													pos:        position{line: 2892, col: 13, offset: 91458},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 20, offset: 90997},
+																													pos:        position{line: 2892, col: 20, offset: 91465},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 29, offset: 91006},
+																													pos:        position{line: 2892, col: 29, offset: 91474},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7072,9 +7072,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2887, col: 8, offset: 91166},
+																										pos: position{line: 2902, col: 8, offset: 91634},
 																										expr: &anyMatcher{
-																											line: 2887, col: 9, offset: 91167,
+																											line: 2902, col: 9, offset: 91635,
 																										},
 																									},
 																								},
@@ -7084,21 +7084,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 994, col: 5, offset: 31075},
+																				pos:        position{line: 1001, col: 5, offset: 31318},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 995, col: 5, offset: 31085},
+																				pos:   position{line: 1002, col: 5, offset: 31328},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2818, col: 14, offset: 89411},
+																					pos: position{line: 2833, col: 14, offset: 89879},
 																					run: (*parser).callonDocumentFragment675,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2818, col: 14, offset: 89411},
+																						pos: position{line: 2833, col: 14, offset: 89879},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2818, col: 14, offset: 89411},
+																							pos:        position{line: 2833, col: 14, offset: 89879},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -7108,28 +7108,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2890, col: 8, offset: 91216},
+																				pos: position{line: 2905, col: 8, offset: 91684},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2877, col: 12, offset: 90989},
+																						pos: position{line: 2892, col: 12, offset: 91457},
 																						run: (*parser).callonDocumentFragment679,
 																						expr: &choiceExpr{
-																							pos: position{line: 2877, col: 13, offset: 90990},
+																							pos: position{line: 2892, col: 13, offset: 91458},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2877, col: 13, offset: 90990},
+																									pos:        position{line: 2892, col: 13, offset: 91458},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2877, col: 20, offset: 90997},
+																									pos:        position{line: 2892, col: 20, offset: 91465},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2877, col: 29, offset: 91006},
+																									pos:        position{line: 2892, col: 29, offset: 91474},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -7138,9 +7138,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2887, col: 8, offset: 91166},
+																						pos: position{line: 2902, col: 8, offset: 91634},
 																						expr: &anyMatcher{
-																							line: 2887, col: 9, offset: 91167,
+																							line: 2902, col: 9, offset: 91635,
 																						},
 																					},
 																				},
@@ -7152,44 +7152,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 987, col: 5, offset: 30785},
+														pos:   position{line: 994, col: 5, offset: 31028},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 987, col: 16, offset: 30796},
+															pos: position{line: 994, col: 16, offset: 31039},
 															expr: &choiceExpr{
-																pos: position{line: 987, col: 17, offset: 30797},
+																pos: position{line: 994, col: 17, offset: 31040},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2478, col: 22, offset: 79761},
+																		pos: position{line: 2493, col: 22, offset: 80229},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 2478, col: 22, offset: 79761},
+																			pos: position{line: 2493, col: 22, offset: 80229},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2483, col: 31, offset: 79982},
+																					pos:        position{line: 2498, col: 31, offset: 80450},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																				&notExpr{
-																					pos: position{line: 2483, col: 36, offset: 79987},
+																					pos: position{line: 2498, col: 36, offset: 80455},
 																					expr: &litMatcher{
-																						pos:        position{line: 2483, col: 37, offset: 79988},
+																						pos:        position{line: 2498, col: 37, offset: 80456},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2478, col: 49, offset: 79788},
+																					pos:   position{line: 2493, col: 49, offset: 80256},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2814, col: 13, offset: 89344},
+																						pos: position{line: 2829, col: 13, offset: 89812},
 																						run: (*parser).callonDocumentFragment695,
 																						expr: &zeroOrMoreExpr{
-																							pos: position{line: 2814, col: 13, offset: 89344},
+																							pos: position{line: 2829, col: 13, offset: 89812},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2814, col: 13, offset: 89344},
+																								pos:        position{line: 2829, col: 13, offset: 89812},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7199,28 +7199,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2890, col: 8, offset: 91216},
+																					pos: position{line: 2905, col: 8, offset: 91684},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2877, col: 12, offset: 90989},
+																							pos: position{line: 2892, col: 12, offset: 91457},
 																							run: (*parser).callonDocumentFragment699,
 																							expr: &choiceExpr{
-																								pos: position{line: 2877, col: 13, offset: 90990},
+																								pos: position{line: 2892, col: 13, offset: 91458},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 13, offset: 90990},
+																										pos:        position{line: 2892, col: 13, offset: 91458},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 20, offset: 90997},
+																										pos:        position{line: 2892, col: 20, offset: 91465},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 29, offset: 91006},
+																										pos:        position{line: 2892, col: 29, offset: 91474},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7229,9 +7229,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2887, col: 8, offset: 91166},
+																							pos: position{line: 2902, col: 8, offset: 91634},
 																							expr: &anyMatcher{
-																								line: 2887, col: 9, offset: 91167,
+																								line: 2902, col: 9, offset: 91635,
 																							},
 																						},
 																					},
@@ -7240,51 +7240,51 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 999, col: 35, offset: 31202},
+																		pos: position{line: 1006, col: 35, offset: 31445},
 																		run: (*parser).callonDocumentFragment706,
 																		expr: &seqExpr{
-																			pos: position{line: 999, col: 35, offset: 31202},
+																			pos: position{line: 1006, col: 35, offset: 31445},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 999, col: 35, offset: 31202},
+																					pos:        position{line: 1006, col: 35, offset: 31445},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 999, col: 40, offset: 31207},
+																					pos:   position{line: 1006, col: 40, offset: 31450},
 																					label: "comment",
 																					expr: &actionExpr{
-																						pos: position{line: 2478, col: 22, offset: 79761},
+																						pos: position{line: 2493, col: 22, offset: 80229},
 																						run: (*parser).callonDocumentFragment710,
 																						expr: &seqExpr{
-																							pos: position{line: 2478, col: 22, offset: 79761},
+																							pos: position{line: 2493, col: 22, offset: 80229},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2483, col: 31, offset: 79982},
+																									pos:        position{line: 2498, col: 31, offset: 80450},
 																									val:        "//",
 																									ignoreCase: false,
 																									want:       "\"//\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2483, col: 36, offset: 79987},
+																									pos: position{line: 2498, col: 36, offset: 80455},
 																									expr: &litMatcher{
-																										pos:        position{line: 2483, col: 37, offset: 79988},
+																										pos:        position{line: 2498, col: 37, offset: 80456},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 2478, col: 49, offset: 79788},
+																									pos:   position{line: 2493, col: 49, offset: 80256},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 2814, col: 13, offset: 89344},
+																										pos: position{line: 2829, col: 13, offset: 89812},
 																										run: (*parser).callonDocumentFragment716,
 																										expr: &zeroOrMoreExpr{
-																											pos: position{line: 2814, col: 13, offset: 89344},
+																											pos: position{line: 2829, col: 13, offset: 89812},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2814, col: 13, offset: 89344},
+																												pos:        position{line: 2829, col: 13, offset: 89812},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -7294,28 +7294,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2890, col: 8, offset: 91216},
+																									pos: position{line: 2905, col: 8, offset: 91684},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2877, col: 12, offset: 90989},
+																											pos: position{line: 2892, col: 12, offset: 91457},
 																											run: (*parser).callonDocumentFragment720,
 																											expr: &choiceExpr{
-																												pos: position{line: 2877, col: 13, offset: 90990},
+																												pos: position{line: 2892, col: 13, offset: 91458},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2877, col: 13, offset: 90990},
+																														pos:        position{line: 2892, col: 13, offset: 91458},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2877, col: 20, offset: 90997},
+																														pos:        position{line: 2892, col: 20, offset: 91465},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2877, col: 29, offset: 91006},
+																														pos:        position{line: 2892, col: 29, offset: 91474},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7324,9 +7324,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2887, col: 8, offset: 91166},
+																											pos: position{line: 2902, col: 8, offset: 91634},
 																											expr: &anyMatcher{
-																												line: 2887, col: 9, offset: 91167,
+																												line: 2902, col: 9, offset: 91635,
 																											},
 																										},
 																									},
@@ -7339,32 +7339,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 993, col: 5, offset: 31060},
+																		pos: position{line: 1000, col: 5, offset: 31303},
 																		run: (*parser).callonDocumentFragment727,
 																		expr: &seqExpr{
-																			pos: position{line: 993, col: 5, offset: 31060},
+																			pos: position{line: 1000, col: 5, offset: 31303},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 993, col: 5, offset: 31060},
+																					pos: position{line: 1000, col: 5, offset: 31303},
 																					expr: &actionExpr{
-																						pos: position{line: 680, col: 14, offset: 21592},
+																						pos: position{line: 687, col: 14, offset: 21835},
 																						run: (*parser).callonDocumentFragment730,
 																						expr: &seqExpr{
-																							pos: position{line: 680, col: 14, offset: 21592},
+																							pos: position{line: 687, col: 14, offset: 21835},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2885, col: 11, offset: 91152},
+																									pos: position{line: 2900, col: 11, offset: 91620},
 																									expr: &anyMatcher{
-																										line: 2885, col: 13, offset: 91154,
+																										line: 2900, col: 13, offset: 91622,
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 680, col: 21, offset: 21599},
+																									pos: position{line: 687, col: 21, offset: 21842},
 																									expr: &actionExpr{
-																										pos: position{line: 2868, col: 10, offset: 90818},
+																										pos: position{line: 2883, col: 10, offset: 91286},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2868, col: 10, offset: 90818},
+																											pos:        position{line: 2883, col: 10, offset: 91286},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7373,28 +7373,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2890, col: 8, offset: 91216},
+																									pos: position{line: 2905, col: 8, offset: 91684},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2877, col: 12, offset: 90989},
+																											pos: position{line: 2892, col: 12, offset: 91457},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2877, col: 13, offset: 90990},
+																												pos: position{line: 2892, col: 13, offset: 91458},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2877, col: 13, offset: 90990},
+																														pos:        position{line: 2892, col: 13, offset: 91458},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2877, col: 20, offset: 90997},
+																														pos:        position{line: 2892, col: 20, offset: 91465},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2877, col: 29, offset: 91006},
+																														pos:        position{line: 2892, col: 29, offset: 91474},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7403,9 +7403,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2887, col: 8, offset: 91166},
+																											pos: position{line: 2902, col: 8, offset: 91634},
 																											expr: &anyMatcher{
-																												line: 2887, col: 9, offset: 91167,
+																												line: 2902, col: 9, offset: 91635,
 																											},
 																										},
 																									},
@@ -7415,21 +7415,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 994, col: 5, offset: 31075},
+																					pos:        position{line: 1001, col: 5, offset: 31318},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 995, col: 5, offset: 31085},
+																					pos:   position{line: 1002, col: 5, offset: 31328},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2818, col: 14, offset: 89411},
+																						pos: position{line: 2833, col: 14, offset: 89879},
 																						run: (*parser).callonDocumentFragment747,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2818, col: 14, offset: 89411},
+																							pos: position{line: 2833, col: 14, offset: 89879},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2818, col: 14, offset: 89411},
+																								pos:        position{line: 2833, col: 14, offset: 89879},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7439,28 +7439,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2890, col: 8, offset: 91216},
+																					pos: position{line: 2905, col: 8, offset: 91684},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2877, col: 12, offset: 90989},
+																							pos: position{line: 2892, col: 12, offset: 91457},
 																							run: (*parser).callonDocumentFragment751,
 																							expr: &choiceExpr{
-																								pos: position{line: 2877, col: 13, offset: 90990},
+																								pos: position{line: 2892, col: 13, offset: 91458},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 13, offset: 90990},
+																										pos:        position{line: 2892, col: 13, offset: 91458},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 20, offset: 90997},
+																										pos:        position{line: 2892, col: 20, offset: 91465},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 29, offset: 91006},
+																										pos:        position{line: 2892, col: 29, offset: 91474},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7469,9 +7469,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2887, col: 8, offset: 91166},
+																							pos: position{line: 2902, col: 8, offset: 91634},
 																							expr: &anyMatcher{
-																								line: 2887, col: 9, offset: 91167,
+																								line: 2902, col: 9, offset: 91635,
 																							},
 																						},
 																					},
@@ -7480,21 +7480,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1800, col: 5, offset: 58142},
+																		pos: position{line: 1807, col: 5, offset: 58385},
 																		run: (*parser).callonDocumentFragment758,
 																		expr: &seqExpr{
-																			pos: position{line: 1800, col: 5, offset: 58142},
+																			pos: position{line: 1807, col: 5, offset: 58385},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1800, col: 5, offset: 58142},
+																					pos:   position{line: 1807, col: 5, offset: 58385},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2818, col: 14, offset: 89411},
+																						pos: position{line: 2833, col: 14, offset: 89879},
 																						run: (*parser).callonDocumentFragment761,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2818, col: 14, offset: 89411},
+																							pos: position{line: 2833, col: 14, offset: 89879},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2818, col: 14, offset: 89411},
+																								pos:        position{line: 2833, col: 14, offset: 89879},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7504,32 +7504,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1801, col: 5, offset: 58166},
+																					pos: position{line: 1808, col: 5, offset: 58409},
 																					run: (*parser).callonDocumentFragment764,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2890, col: 8, offset: 91216},
+																					pos: position{line: 2905, col: 8, offset: 91684},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2877, col: 12, offset: 90989},
+																							pos: position{line: 2892, col: 12, offset: 91457},
 																							run: (*parser).callonDocumentFragment766,
 																							expr: &choiceExpr{
-																								pos: position{line: 2877, col: 13, offset: 90990},
+																								pos: position{line: 2892, col: 13, offset: 91458},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 13, offset: 90990},
+																										pos:        position{line: 2892, col: 13, offset: 91458},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 20, offset: 90997},
+																										pos:        position{line: 2892, col: 20, offset: 91465},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 29, offset: 91006},
+																										pos:        position{line: 2892, col: 29, offset: 91474},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7538,9 +7538,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2887, col: 8, offset: 91166},
+																							pos: position{line: 2902, col: 8, offset: 91634},
 																							expr: &anyMatcher{
-																								line: 2887, col: 9, offset: 91167,
+																								line: 2902, col: 9, offset: 91635,
 																							},
 																						},
 																					},
@@ -7556,28 +7556,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1012, col: 5, offset: 31454},
+											pos: position{line: 1019, col: 5, offset: 31697},
 											run: (*parser).callonDocumentFragment773,
 											expr: &seqExpr{
-												pos: position{line: 1012, col: 5, offset: 31454},
+												pos: position{line: 1019, col: 5, offset: 31697},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1012, col: 5, offset: 31454},
+														pos:   position{line: 1019, col: 5, offset: 31697},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 779, col: 5, offset: 24964},
+															pos: position{line: 786, col: 5, offset: 25207},
 															run: (*parser).callonDocumentFragment776,
 															expr: &seqExpr{
-																pos: position{line: 779, col: 5, offset: 24964},
+																pos: position{line: 786, col: 5, offset: 25207},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 779, col: 5, offset: 24964},
+																		pos:   position{line: 786, col: 5, offset: 25207},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 779, col: 16, offset: 24975},
+																			pos: position{line: 786, col: 16, offset: 25218},
 																			run: (*parser).callonDocumentFragment779,
 																			expr: &litMatcher{
-																				pos:        position{line: 779, col: 16, offset: 24975},
+																				pos:        position{line: 786, col: 16, offset: 25218},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7585,12 +7585,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 781, col: 8, offset: 25052},
+																		pos: position{line: 788, col: 8, offset: 25295},
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 10, offset: 90818},
+																			pos: position{line: 2883, col: 10, offset: 91286},
 																			run: (*parser).callonDocumentFragment782,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 10, offset: 90818},
+																				pos:        position{line: 2883, col: 10, offset: 91286},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7599,28 +7599,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2890, col: 8, offset: 91216},
+																		pos: position{line: 2905, col: 8, offset: 91684},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2877, col: 12, offset: 90989},
+																				pos: position{line: 2892, col: 12, offset: 91457},
 																				run: (*parser).callonDocumentFragment785,
 																				expr: &choiceExpr{
-																					pos: position{line: 2877, col: 13, offset: 90990},
+																					pos: position{line: 2892, col: 13, offset: 91458},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 13, offset: 90990},
+																							pos:        position{line: 2892, col: 13, offset: 91458},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 20, offset: 90997},
+																							pos:        position{line: 2892, col: 20, offset: 91465},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 29, offset: 91006},
+																							pos:        position{line: 2892, col: 29, offset: 91474},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7629,9 +7629,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2887, col: 8, offset: 91166},
+																				pos: position{line: 2902, col: 8, offset: 91634},
 																				expr: &anyMatcher{
-																					line: 2887, col: 9, offset: 91167,
+																					line: 2902, col: 9, offset: 91635,
 																				},
 																			},
 																		},
@@ -7641,35 +7641,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1013, col: 5, offset: 31490},
+														pos:   position{line: 1020, col: 5, offset: 31733},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1023, col: 5, offset: 31758},
+															pos: position{line: 1030, col: 5, offset: 32001},
 															expr: &actionExpr{
-																pos: position{line: 1023, col: 6, offset: 31759},
+																pos: position{line: 1030, col: 6, offset: 32002},
 																run: (*parser).callonDocumentFragment794,
 																expr: &seqExpr{
-																	pos: position{line: 1023, col: 6, offset: 31759},
+																	pos: position{line: 1030, col: 6, offset: 32002},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1023, col: 6, offset: 31759},
+																			pos: position{line: 1030, col: 6, offset: 32002},
 																			expr: &choiceExpr{
-																				pos: position{line: 1020, col: 26, offset: 31707},
+																				pos: position{line: 1027, col: 26, offset: 31950},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 779, col: 5, offset: 24964},
+																						pos: position{line: 786, col: 5, offset: 25207},
 																						run: (*parser).callonDocumentFragment798,
 																						expr: &seqExpr{
-																							pos: position{line: 779, col: 5, offset: 24964},
+																							pos: position{line: 786, col: 5, offset: 25207},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 779, col: 5, offset: 24964},
+																									pos:   position{line: 786, col: 5, offset: 25207},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 779, col: 16, offset: 24975},
+																										pos: position{line: 786, col: 16, offset: 25218},
 																										run: (*parser).callonDocumentFragment801,
 																										expr: &litMatcher{
-																											pos:        position{line: 779, col: 16, offset: 24975},
+																											pos:        position{line: 786, col: 16, offset: 25218},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7677,12 +7677,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 781, col: 8, offset: 25052},
+																									pos: position{line: 788, col: 8, offset: 25295},
 																									expr: &actionExpr{
-																										pos: position{line: 2868, col: 10, offset: 90818},
+																										pos: position{line: 2883, col: 10, offset: 91286},
 																										run: (*parser).callonDocumentFragment804,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2868, col: 10, offset: 90818},
+																											pos:        position{line: 2883, col: 10, offset: 91286},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7691,28 +7691,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2890, col: 8, offset: 91216},
+																									pos: position{line: 2905, col: 8, offset: 91684},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2877, col: 12, offset: 90989},
+																											pos: position{line: 2892, col: 12, offset: 91457},
 																											run: (*parser).callonDocumentFragment807,
 																											expr: &choiceExpr{
-																												pos: position{line: 2877, col: 13, offset: 90990},
+																												pos: position{line: 2892, col: 13, offset: 91458},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2877, col: 13, offset: 90990},
+																														pos:        position{line: 2892, col: 13, offset: 91458},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2877, col: 20, offset: 90997},
+																														pos:        position{line: 2892, col: 20, offset: 91465},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2877, col: 29, offset: 91006},
+																														pos:        position{line: 2892, col: 29, offset: 91474},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7721,9 +7721,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2887, col: 8, offset: 91166},
+																											pos: position{line: 2902, col: 8, offset: 91634},
 																											expr: &anyMatcher{
-																												line: 2887, col: 9, offset: 91167,
+																												line: 2902, col: 9, offset: 91635,
 																											},
 																										},
 																									},
@@ -7732,39 +7732,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2887, col: 8, offset: 91166},
+																						pos: position{line: 2902, col: 8, offset: 91634},
 																						expr: &anyMatcher{
-																							line: 2887, col: 9, offset: 91167,
+																							line: 2902, col: 9, offset: 91635,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1024, col: 5, offset: 31786},
+																			pos:   position{line: 1031, col: 5, offset: 32029},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 814, col: 5, offset: 26191},
+																				pos: position{line: 821, col: 5, offset: 26434},
 																				run: (*parser).callonDocumentFragment817,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 5, offset: 26191},
+																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2885, col: 11, offset: 91152},
+																							pos: position{line: 2900, col: 11, offset: 91620},
 																							expr: &anyMatcher{
-																								line: 2885, col: 13, offset: 91154,
+																								line: 2900, col: 13, offset: 91622,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 815, col: 5, offset: 26266},
+																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2814, col: 13, offset: 89344},
+																								pos: position{line: 2829, col: 13, offset: 89812},
 																								run: (*parser).callonDocumentFragment822,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2814, col: 13, offset: 89344},
+																									pos: position{line: 2829, col: 13, offset: 89812},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2814, col: 13, offset: 89344},
+																										pos:        position{line: 2829, col: 13, offset: 89812},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7774,28 +7774,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonDocumentFragment826,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7804,9 +7804,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -7821,27 +7821,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1014, col: 5, offset: 31521},
+														pos:   position{line: 1021, col: 5, offset: 31764},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1014, col: 9, offset: 31525},
+															pos: position{line: 1021, col: 9, offset: 31768},
 															expr: &choiceExpr{
-																pos: position{line: 1020, col: 26, offset: 31707},
+																pos: position{line: 1027, col: 26, offset: 31950},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 779, col: 5, offset: 24964},
+																		pos: position{line: 786, col: 5, offset: 25207},
 																		run: (*parser).callonDocumentFragment836,
 																		expr: &seqExpr{
-																			pos: position{line: 779, col: 5, offset: 24964},
+																			pos: position{line: 786, col: 5, offset: 25207},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 779, col: 5, offset: 24964},
+																					pos:   position{line: 786, col: 5, offset: 25207},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 779, col: 16, offset: 24975},
+																						pos: position{line: 786, col: 16, offset: 25218},
 																						run: (*parser).callonDocumentFragment839,
 																						expr: &litMatcher{
-																							pos:        position{line: 779, col: 16, offset: 24975},
+																							pos:        position{line: 786, col: 16, offset: 25218},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7849,12 +7849,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 781, col: 8, offset: 25052},
+																					pos: position{line: 788, col: 8, offset: 25295},
 																					expr: &actionExpr{
-																						pos: position{line: 2868, col: 10, offset: 90818},
+																						pos: position{line: 2883, col: 10, offset: 91286},
 																						run: (*parser).callonDocumentFragment842,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 10, offset: 90818},
+																							pos:        position{line: 2883, col: 10, offset: 91286},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7863,28 +7863,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2890, col: 8, offset: 91216},
+																					pos: position{line: 2905, col: 8, offset: 91684},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2877, col: 12, offset: 90989},
+																							pos: position{line: 2892, col: 12, offset: 91457},
 																							run: (*parser).callonDocumentFragment845,
 																							expr: &choiceExpr{
-																								pos: position{line: 2877, col: 13, offset: 90990},
+																								pos: position{line: 2892, col: 13, offset: 91458},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 13, offset: 90990},
+																										pos:        position{line: 2892, col: 13, offset: 91458},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 20, offset: 90997},
+																										pos:        position{line: 2892, col: 20, offset: 91465},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 29, offset: 91006},
+																										pos:        position{line: 2892, col: 29, offset: 91474},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7893,9 +7893,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2887, col: 8, offset: 91166},
+																							pos: position{line: 2902, col: 8, offset: 91634},
 																							expr: &anyMatcher{
-																								line: 2887, col: 9, offset: 91167,
+																								line: 2902, col: 9, offset: 91635,
 																							},
 																						},
 																					},
@@ -7904,9 +7904,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2887, col: 8, offset: 91166},
+																		pos: position{line: 2902, col: 8, offset: 91634},
 																		expr: &anyMatcher{
-																			line: 2887, col: 9, offset: 91167,
+																			line: 2902, col: 9, offset: 91635,
 																		},
 																	},
 																},
@@ -7917,39 +7917,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1032, col: 5, offset: 31949},
+											pos: position{line: 1039, col: 5, offset: 32192},
 											run: (*parser).callonDocumentFragment854,
 											expr: &seqExpr{
-												pos: position{line: 1032, col: 5, offset: 31949},
+												pos: position{line: 1039, col: 5, offset: 32192},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1032, col: 5, offset: 31949},
+														pos:   position{line: 1039, col: 5, offset: 32192},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 793, col: 5, offset: 25447},
+															pos: position{line: 800, col: 5, offset: 25690},
 															run: (*parser).callonDocumentFragment857,
 															expr: &seqExpr{
-																pos: position{line: 793, col: 5, offset: 25447},
+																pos: position{line: 800, col: 5, offset: 25690},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 793, col: 5, offset: 25447},
+																		pos:   position{line: 800, col: 5, offset: 25690},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 793, col: 16, offset: 25458},
+																			pos: position{line: 800, col: 16, offset: 25701},
 																			run: (*parser).callonDocumentFragment860,
 																			expr: &seqExpr{
-																				pos: position{line: 793, col: 16, offset: 25458},
+																				pos: position{line: 800, col: 16, offset: 25701},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 793, col: 16, offset: 25458},
+																						pos:        position{line: 800, col: 16, offset: 25701},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 793, col: 23, offset: 25465},
+																						pos: position{line: 800, col: 23, offset: 25708},
 																						expr: &litMatcher{
-																							pos:        position{line: 793, col: 23, offset: 25465},
+																							pos:        position{line: 800, col: 23, offset: 25708},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7960,12 +7960,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 795, col: 8, offset: 25549},
+																		pos: position{line: 802, col: 8, offset: 25792},
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 10, offset: 90818},
+																			pos: position{line: 2883, col: 10, offset: 91286},
 																			run: (*parser).callonDocumentFragment866,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 10, offset: 90818},
+																				pos:        position{line: 2883, col: 10, offset: 91286},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7974,28 +7974,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2890, col: 8, offset: 91216},
+																		pos: position{line: 2905, col: 8, offset: 91684},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2877, col: 12, offset: 90989},
+																				pos: position{line: 2892, col: 12, offset: 91457},
 																				run: (*parser).callonDocumentFragment869,
 																				expr: &choiceExpr{
-																					pos: position{line: 2877, col: 13, offset: 90990},
+																					pos: position{line: 2892, col: 13, offset: 91458},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 13, offset: 90990},
+																							pos:        position{line: 2892, col: 13, offset: 91458},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 20, offset: 90997},
+																							pos:        position{line: 2892, col: 20, offset: 91465},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 29, offset: 91006},
+																							pos:        position{line: 2892, col: 29, offset: 91474},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8004,9 +8004,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2887, col: 8, offset: 91166},
+																				pos: position{line: 2902, col: 8, offset: 91634},
 																				expr: &anyMatcher{
-																					line: 2887, col: 9, offset: 91167,
+																					line: 2902, col: 9, offset: 91635,
 																				},
 																			},
 																		},
@@ -8016,56 +8016,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1033, col: 5, offset: 31992},
+														pos: position{line: 1040, col: 5, offset: 32235},
 														run: (*parser).callonDocumentFragment876,
 													},
 													&labeledExpr{
-														pos:   position{line: 1036, col: 5, offset: 32084},
+														pos:   position{line: 1043, col: 5, offset: 32327},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1051, col: 5, offset: 32514},
+															pos: position{line: 1058, col: 5, offset: 32757},
 															expr: &actionExpr{
-																pos: position{line: 1051, col: 6, offset: 32515},
+																pos: position{line: 1058, col: 6, offset: 32758},
 																run: (*parser).callonDocumentFragment879,
 																expr: &seqExpr{
-																	pos: position{line: 1051, col: 6, offset: 32515},
+																	pos: position{line: 1058, col: 6, offset: 32758},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1051, col: 6, offset: 32515},
+																			pos: position{line: 1058, col: 6, offset: 32758},
 																			expr: &choiceExpr{
-																				pos: position{line: 1044, col: 5, offset: 32348},
+																				pos: position{line: 1051, col: 5, offset: 32591},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1044, col: 5, offset: 32348},
+																						pos: position{line: 1051, col: 5, offset: 32591},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1044, col: 5, offset: 32348},
+																								pos:   position{line: 1051, col: 5, offset: 32591},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 793, col: 5, offset: 25447},
+																									pos: position{line: 800, col: 5, offset: 25690},
 																									run: (*parser).callonDocumentFragment885,
 																									expr: &seqExpr{
-																										pos: position{line: 793, col: 5, offset: 25447},
+																										pos: position{line: 800, col: 5, offset: 25690},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 793, col: 5, offset: 25447},
+																												pos:   position{line: 800, col: 5, offset: 25690},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 793, col: 16, offset: 25458},
+																													pos: position{line: 800, col: 16, offset: 25701},
 																													run: (*parser).callonDocumentFragment888,
 																													expr: &seqExpr{
-																														pos: position{line: 793, col: 16, offset: 25458},
+																														pos: position{line: 800, col: 16, offset: 25701},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 793, col: 16, offset: 25458},
+																																pos:        position{line: 800, col: 16, offset: 25701},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 793, col: 23, offset: 25465},
+																																pos: position{line: 800, col: 23, offset: 25708},
 																																expr: &litMatcher{
-																																	pos:        position{line: 793, col: 23, offset: 25465},
+																																	pos:        position{line: 800, col: 23, offset: 25708},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -8076,12 +8076,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 795, col: 8, offset: 25549},
+																												pos: position{line: 802, col: 8, offset: 25792},
 																												expr: &actionExpr{
-																													pos: position{line: 2868, col: 10, offset: 90818},
+																													pos: position{line: 2883, col: 10, offset: 91286},
 																													run: (*parser).callonDocumentFragment894,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2868, col: 10, offset: 90818},
+																														pos:        position{line: 2883, col: 10, offset: 91286},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8090,28 +8090,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2890, col: 8, offset: 91216},
+																												pos: position{line: 2905, col: 8, offset: 91684},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2877, col: 12, offset: 90989},
+																														pos: position{line: 2892, col: 12, offset: 91457},
 																														run: (*parser).callonDocumentFragment897,
 																														expr: &choiceExpr{
-																															pos: position{line: 2877, col: 13, offset: 90990},
+																															pos: position{line: 2892, col: 13, offset: 91458},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 13, offset: 90990},
+																																	pos:        position{line: 2892, col: 13, offset: 91458},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 20, offset: 90997},
+																																	pos:        position{line: 2892, col: 20, offset: 91465},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 29, offset: 91006},
+																																	pos:        position{line: 2892, col: 29, offset: 91474},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8120,9 +8120,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2887, col: 8, offset: 91166},
+																														pos: position{line: 2902, col: 8, offset: 91634},
 																														expr: &anyMatcher{
-																															line: 2887, col: 9, offset: 91167,
+																															line: 2902, col: 9, offset: 91635,
 																														},
 																													},
 																												},
@@ -8132,45 +8132,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1045, col: 5, offset: 32383},
+																								pos: position{line: 1052, col: 5, offset: 32626},
 																								run: (*parser).callonDocumentFragment904,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2887, col: 8, offset: 91166},
+																						pos: position{line: 2902, col: 8, offset: 91634},
 																						expr: &anyMatcher{
-																							line: 2887, col: 9, offset: 91167,
+																							line: 2902, col: 9, offset: 91635,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1052, col: 5, offset: 32549},
+																			pos:   position{line: 1059, col: 5, offset: 32792},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 814, col: 5, offset: 26191},
+																				pos: position{line: 821, col: 5, offset: 26434},
 																				run: (*parser).callonDocumentFragment908,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 5, offset: 26191},
+																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2885, col: 11, offset: 91152},
+																							pos: position{line: 2900, col: 11, offset: 91620},
 																							expr: &anyMatcher{
-																								line: 2885, col: 13, offset: 91154,
+																								line: 2900, col: 13, offset: 91622,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 815, col: 5, offset: 26266},
+																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2814, col: 13, offset: 89344},
+																								pos: position{line: 2829, col: 13, offset: 89812},
 																								run: (*parser).callonDocumentFragment913,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2814, col: 13, offset: 89344},
+																									pos: position{line: 2829, col: 13, offset: 89812},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2814, col: 13, offset: 89344},
+																										pos:        position{line: 2829, col: 13, offset: 89812},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8180,28 +8180,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonDocumentFragment917,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8210,9 +8210,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -8227,44 +8227,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1037, col: 5, offset: 32122},
+														pos:   position{line: 1044, col: 5, offset: 32365},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1037, col: 9, offset: 32126},
+															pos: position{line: 1044, col: 9, offset: 32369},
 															expr: &choiceExpr{
-																pos: position{line: 1044, col: 5, offset: 32348},
+																pos: position{line: 1051, col: 5, offset: 32591},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1044, col: 5, offset: 32348},
+																		pos: position{line: 1051, col: 5, offset: 32591},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1044, col: 5, offset: 32348},
+																				pos:   position{line: 1051, col: 5, offset: 32591},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 793, col: 5, offset: 25447},
+																					pos: position{line: 800, col: 5, offset: 25690},
 																					run: (*parser).callonDocumentFragment929,
 																					expr: &seqExpr{
-																						pos: position{line: 793, col: 5, offset: 25447},
+																						pos: position{line: 800, col: 5, offset: 25690},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 793, col: 5, offset: 25447},
+																								pos:   position{line: 800, col: 5, offset: 25690},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 793, col: 16, offset: 25458},
+																									pos: position{line: 800, col: 16, offset: 25701},
 																									run: (*parser).callonDocumentFragment932,
 																									expr: &seqExpr{
-																										pos: position{line: 793, col: 16, offset: 25458},
+																										pos: position{line: 800, col: 16, offset: 25701},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 793, col: 16, offset: 25458},
+																												pos:        position{line: 800, col: 16, offset: 25701},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 793, col: 23, offset: 25465},
+																												pos: position{line: 800, col: 23, offset: 25708},
 																												expr: &litMatcher{
-																													pos:        position{line: 793, col: 23, offset: 25465},
+																													pos:        position{line: 800, col: 23, offset: 25708},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -8275,12 +8275,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 795, col: 8, offset: 25549},
+																								pos: position{line: 802, col: 8, offset: 25792},
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 10, offset: 90818},
+																									pos: position{line: 2883, col: 10, offset: 91286},
 																									run: (*parser).callonDocumentFragment938,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 10, offset: 90818},
+																										pos:        position{line: 2883, col: 10, offset: 91286},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8289,28 +8289,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2890, col: 8, offset: 91216},
+																								pos: position{line: 2905, col: 8, offset: 91684},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2877, col: 12, offset: 90989},
+																										pos: position{line: 2892, col: 12, offset: 91457},
 																										run: (*parser).callonDocumentFragment941,
 																										expr: &choiceExpr{
-																											pos: position{line: 2877, col: 13, offset: 90990},
+																											pos: position{line: 2892, col: 13, offset: 91458},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 13, offset: 90990},
+																													pos:        position{line: 2892, col: 13, offset: 91458},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 20, offset: 90997},
+																													pos:        position{line: 2892, col: 20, offset: 91465},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 29, offset: 91006},
+																													pos:        position{line: 2892, col: 29, offset: 91474},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8319,9 +8319,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2887, col: 8, offset: 91166},
+																										pos: position{line: 2902, col: 8, offset: 91634},
 																										expr: &anyMatcher{
-																											line: 2887, col: 9, offset: 91167,
+																											line: 2902, col: 9, offset: 91635,
 																										},
 																									},
 																								},
@@ -8331,15 +8331,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1045, col: 5, offset: 32383},
+																				pos: position{line: 1052, col: 5, offset: 32626},
 																				run: (*parser).callonDocumentFragment948,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2887, col: 8, offset: 91166},
+																		pos: position{line: 2902, col: 8, offset: 91634},
 																		expr: &anyMatcher{
-																			line: 2887, col: 9, offset: 91167,
+																			line: 2902, col: 9, offset: 91635,
 																		},
 																	},
 																},
@@ -8350,39 +8350,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1060, col: 5, offset: 32700},
+											pos: position{line: 1067, col: 5, offset: 32943},
 											run: (*parser).callonDocumentFragment951,
 											expr: &seqExpr{
-												pos: position{line: 1060, col: 5, offset: 32700},
+												pos: position{line: 1067, col: 5, offset: 32943},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1060, col: 5, offset: 32700},
+														pos:   position{line: 1067, col: 5, offset: 32943},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 800, col: 5, offset: 25697},
+															pos: position{line: 807, col: 5, offset: 25940},
 															run: (*parser).callonDocumentFragment954,
 															expr: &seqExpr{
-																pos: position{line: 800, col: 5, offset: 25697},
+																pos: position{line: 807, col: 5, offset: 25940},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 800, col: 5, offset: 25697},
+																		pos:   position{line: 807, col: 5, offset: 25940},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 800, col: 16, offset: 25708},
+																			pos: position{line: 807, col: 16, offset: 25951},
 																			run: (*parser).callonDocumentFragment957,
 																			expr: &seqExpr{
-																				pos: position{line: 800, col: 16, offset: 25708},
+																				pos: position{line: 807, col: 16, offset: 25951},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 800, col: 16, offset: 25708},
+																						pos:        position{line: 807, col: 16, offset: 25951},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 800, col: 23, offset: 25715},
+																						pos: position{line: 807, col: 23, offset: 25958},
 																						expr: &litMatcher{
-																							pos:        position{line: 800, col: 23, offset: 25715},
+																							pos:        position{line: 807, col: 23, offset: 25958},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8393,12 +8393,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 802, col: 8, offset: 25799},
+																		pos: position{line: 809, col: 8, offset: 26042},
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 10, offset: 90818},
+																			pos: position{line: 2883, col: 10, offset: 91286},
 																			run: (*parser).callonDocumentFragment963,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 10, offset: 90818},
+																				pos:        position{line: 2883, col: 10, offset: 91286},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8407,28 +8407,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2890, col: 8, offset: 91216},
+																		pos: position{line: 2905, col: 8, offset: 91684},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2877, col: 12, offset: 90989},
+																				pos: position{line: 2892, col: 12, offset: 91457},
 																				run: (*parser).callonDocumentFragment966,
 																				expr: &choiceExpr{
-																					pos: position{line: 2877, col: 13, offset: 90990},
+																					pos: position{line: 2892, col: 13, offset: 91458},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 13, offset: 90990},
+																							pos:        position{line: 2892, col: 13, offset: 91458},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 20, offset: 90997},
+																							pos:        position{line: 2892, col: 20, offset: 91465},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 29, offset: 91006},
+																							pos:        position{line: 2892, col: 29, offset: 91474},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8437,9 +8437,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2887, col: 8, offset: 91166},
+																				pos: position{line: 2902, col: 8, offset: 91634},
 																				expr: &anyMatcher{
-																					line: 2887, col: 9, offset: 91167,
+																					line: 2902, col: 9, offset: 91635,
 																				},
 																			},
 																		},
@@ -8449,56 +8449,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1061, col: 5, offset: 32737},
+														pos: position{line: 1068, col: 5, offset: 32980},
 														run: (*parser).callonDocumentFragment973,
 													},
 													&labeledExpr{
-														pos:   position{line: 1064, col: 5, offset: 32829},
+														pos:   position{line: 1071, col: 5, offset: 33072},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1079, col: 4, offset: 33210},
+															pos: position{line: 1086, col: 4, offset: 33453},
 															expr: &actionExpr{
-																pos: position{line: 1079, col: 5, offset: 33211},
+																pos: position{line: 1086, col: 5, offset: 33454},
 																run: (*parser).callonDocumentFragment976,
 																expr: &seqExpr{
-																	pos: position{line: 1079, col: 5, offset: 33211},
+																	pos: position{line: 1086, col: 5, offset: 33454},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1079, col: 5, offset: 33211},
+																			pos: position{line: 1086, col: 5, offset: 33454},
 																			expr: &choiceExpr{
-																				pos: position{line: 1072, col: 5, offset: 33057},
+																				pos: position{line: 1079, col: 5, offset: 33300},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1072, col: 5, offset: 33057},
+																						pos: position{line: 1079, col: 5, offset: 33300},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1072, col: 5, offset: 33057},
+																								pos:   position{line: 1079, col: 5, offset: 33300},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 800, col: 5, offset: 25697},
+																									pos: position{line: 807, col: 5, offset: 25940},
 																									run: (*parser).callonDocumentFragment982,
 																									expr: &seqExpr{
-																										pos: position{line: 800, col: 5, offset: 25697},
+																										pos: position{line: 807, col: 5, offset: 25940},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 800, col: 5, offset: 25697},
+																												pos:   position{line: 807, col: 5, offset: 25940},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 800, col: 16, offset: 25708},
+																													pos: position{line: 807, col: 16, offset: 25951},
 																													run: (*parser).callonDocumentFragment985,
 																													expr: &seqExpr{
-																														pos: position{line: 800, col: 16, offset: 25708},
+																														pos: position{line: 807, col: 16, offset: 25951},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 800, col: 16, offset: 25708},
+																																pos:        position{line: 807, col: 16, offset: 25951},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 800, col: 23, offset: 25715},
+																																pos: position{line: 807, col: 23, offset: 25958},
 																																expr: &litMatcher{
-																																	pos:        position{line: 800, col: 23, offset: 25715},
+																																	pos:        position{line: 807, col: 23, offset: 25958},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8509,12 +8509,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 802, col: 8, offset: 25799},
+																												pos: position{line: 809, col: 8, offset: 26042},
 																												expr: &actionExpr{
-																													pos: position{line: 2868, col: 10, offset: 90818},
+																													pos: position{line: 2883, col: 10, offset: 91286},
 																													run: (*parser).callonDocumentFragment991,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2868, col: 10, offset: 90818},
+																														pos:        position{line: 2883, col: 10, offset: 91286},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8523,28 +8523,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2890, col: 8, offset: 91216},
+																												pos: position{line: 2905, col: 8, offset: 91684},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2877, col: 12, offset: 90989},
+																														pos: position{line: 2892, col: 12, offset: 91457},
 																														run: (*parser).callonDocumentFragment994,
 																														expr: &choiceExpr{
-																															pos: position{line: 2877, col: 13, offset: 90990},
+																															pos: position{line: 2892, col: 13, offset: 91458},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 13, offset: 90990},
+																																	pos:        position{line: 2892, col: 13, offset: 91458},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 20, offset: 90997},
+																																	pos:        position{line: 2892, col: 20, offset: 91465},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 29, offset: 91006},
+																																	pos:        position{line: 2892, col: 29, offset: 91474},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8553,9 +8553,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2887, col: 8, offset: 91166},
+																														pos: position{line: 2902, col: 8, offset: 91634},
 																														expr: &anyMatcher{
-																															line: 2887, col: 9, offset: 91167,
+																															line: 2902, col: 9, offset: 91635,
 																														},
 																													},
 																												},
@@ -8565,45 +8565,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1073, col: 5, offset: 33086},
+																								pos: position{line: 1080, col: 5, offset: 33329},
 																								run: (*parser).callonDocumentFragment1001,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2887, col: 8, offset: 91166},
+																						pos: position{line: 2902, col: 8, offset: 91634},
 																						expr: &anyMatcher{
-																							line: 2887, col: 9, offset: 91167,
+																							line: 2902, col: 9, offset: 91635,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1080, col: 5, offset: 33239},
+																			pos:   position{line: 1087, col: 5, offset: 33482},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 814, col: 5, offset: 26191},
+																				pos: position{line: 821, col: 5, offset: 26434},
 																				run: (*parser).callonDocumentFragment1005,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 5, offset: 26191},
+																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2885, col: 11, offset: 91152},
+																							pos: position{line: 2900, col: 11, offset: 91620},
 																							expr: &anyMatcher{
-																								line: 2885, col: 13, offset: 91154,
+																								line: 2900, col: 13, offset: 91622,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 815, col: 5, offset: 26266},
+																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2814, col: 13, offset: 89344},
+																								pos: position{line: 2829, col: 13, offset: 89812},
 																								run: (*parser).callonDocumentFragment1010,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2814, col: 13, offset: 89344},
+																									pos: position{line: 2829, col: 13, offset: 89812},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2814, col: 13, offset: 89344},
+																										pos:        position{line: 2829, col: 13, offset: 89812},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8613,28 +8613,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonDocumentFragment1014,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8643,9 +8643,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -8660,44 +8660,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1065, col: 5, offset: 32861},
+														pos:   position{line: 1072, col: 5, offset: 33104},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1065, col: 9, offset: 32865},
+															pos: position{line: 1072, col: 9, offset: 33108},
 															expr: &choiceExpr{
-																pos: position{line: 1072, col: 5, offset: 33057},
+																pos: position{line: 1079, col: 5, offset: 33300},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1072, col: 5, offset: 33057},
+																		pos: position{line: 1079, col: 5, offset: 33300},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1072, col: 5, offset: 33057},
+																				pos:   position{line: 1079, col: 5, offset: 33300},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 800, col: 5, offset: 25697},
+																					pos: position{line: 807, col: 5, offset: 25940},
 																					run: (*parser).callonDocumentFragment1026,
 																					expr: &seqExpr{
-																						pos: position{line: 800, col: 5, offset: 25697},
+																						pos: position{line: 807, col: 5, offset: 25940},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 800, col: 5, offset: 25697},
+																								pos:   position{line: 807, col: 5, offset: 25940},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 800, col: 16, offset: 25708},
+																									pos: position{line: 807, col: 16, offset: 25951},
 																									run: (*parser).callonDocumentFragment1029,
 																									expr: &seqExpr{
-																										pos: position{line: 800, col: 16, offset: 25708},
+																										pos: position{line: 807, col: 16, offset: 25951},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 800, col: 16, offset: 25708},
+																												pos:        position{line: 807, col: 16, offset: 25951},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 800, col: 23, offset: 25715},
+																												pos: position{line: 807, col: 23, offset: 25958},
 																												expr: &litMatcher{
-																													pos:        position{line: 800, col: 23, offset: 25715},
+																													pos:        position{line: 807, col: 23, offset: 25958},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8708,12 +8708,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 802, col: 8, offset: 25799},
+																								pos: position{line: 809, col: 8, offset: 26042},
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 10, offset: 90818},
+																									pos: position{line: 2883, col: 10, offset: 91286},
 																									run: (*parser).callonDocumentFragment1035,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 10, offset: 90818},
+																										pos:        position{line: 2883, col: 10, offset: 91286},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8722,28 +8722,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2890, col: 8, offset: 91216},
+																								pos: position{line: 2905, col: 8, offset: 91684},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2877, col: 12, offset: 90989},
+																										pos: position{line: 2892, col: 12, offset: 91457},
 																										run: (*parser).callonDocumentFragment1038,
 																										expr: &choiceExpr{
-																											pos: position{line: 2877, col: 13, offset: 90990},
+																											pos: position{line: 2892, col: 13, offset: 91458},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 13, offset: 90990},
+																													pos:        position{line: 2892, col: 13, offset: 91458},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 20, offset: 90997},
+																													pos:        position{line: 2892, col: 20, offset: 91465},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 29, offset: 91006},
+																													pos:        position{line: 2892, col: 29, offset: 91474},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8752,9 +8752,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2887, col: 8, offset: 91166},
+																										pos: position{line: 2902, col: 8, offset: 91634},
 																										expr: &anyMatcher{
-																											line: 2887, col: 9, offset: 91167,
+																											line: 2902, col: 9, offset: 91635,
 																										},
 																									},
 																								},
@@ -8764,15 +8764,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1073, col: 5, offset: 33086},
+																				pos: position{line: 1080, col: 5, offset: 33329},
 																				run: (*parser).callonDocumentFragment1045,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2887, col: 8, offset: 91166},
+																		pos: position{line: 2902, col: 8, offset: 91634},
 																		expr: &anyMatcher{
-																			line: 2887, col: 9, offset: 91167,
+																			line: 2902, col: 9, offset: 91635,
 																		},
 																	},
 																},
@@ -8783,39 +8783,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1088, col: 5, offset: 33394},
+											pos: position{line: 1095, col: 5, offset: 33637},
 											run: (*parser).callonDocumentFragment1048,
 											expr: &seqExpr{
-												pos: position{line: 1088, col: 5, offset: 33394},
+												pos: position{line: 1095, col: 5, offset: 33637},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1088, col: 5, offset: 33394},
+														pos:   position{line: 1095, col: 5, offset: 33637},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 807, col: 5, offset: 25943},
+															pos: position{line: 814, col: 5, offset: 26186},
 															run: (*parser).callonDocumentFragment1051,
 															expr: &seqExpr{
-																pos: position{line: 807, col: 5, offset: 25943},
+																pos: position{line: 814, col: 5, offset: 26186},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 807, col: 5, offset: 25943},
+																		pos:   position{line: 814, col: 5, offset: 26186},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 807, col: 16, offset: 25954},
+																			pos: position{line: 814, col: 16, offset: 26197},
 																			run: (*parser).callonDocumentFragment1054,
 																			expr: &seqExpr{
-																				pos: position{line: 807, col: 16, offset: 25954},
+																				pos: position{line: 814, col: 16, offset: 26197},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 807, col: 16, offset: 25954},
+																						pos:        position{line: 814, col: 16, offset: 26197},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 807, col: 23, offset: 25961},
+																						pos: position{line: 814, col: 23, offset: 26204},
 																						expr: &litMatcher{
-																							pos:        position{line: 807, col: 23, offset: 25961},
+																							pos:        position{line: 814, col: 23, offset: 26204},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8826,12 +8826,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 809, col: 8, offset: 26045},
+																		pos: position{line: 816, col: 8, offset: 26288},
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 10, offset: 90818},
+																			pos: position{line: 2883, col: 10, offset: 91286},
 																			run: (*parser).callonDocumentFragment1060,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 10, offset: 90818},
+																				pos:        position{line: 2883, col: 10, offset: 91286},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8840,28 +8840,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2890, col: 8, offset: 91216},
+																		pos: position{line: 2905, col: 8, offset: 91684},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2877, col: 12, offset: 90989},
+																				pos: position{line: 2892, col: 12, offset: 91457},
 																				run: (*parser).callonDocumentFragment1063,
 																				expr: &choiceExpr{
-																					pos: position{line: 2877, col: 13, offset: 90990},
+																					pos: position{line: 2892, col: 13, offset: 91458},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 13, offset: 90990},
+																							pos:        position{line: 2892, col: 13, offset: 91458},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 20, offset: 90997},
+																							pos:        position{line: 2892, col: 20, offset: 91465},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 29, offset: 91006},
+																							pos:        position{line: 2892, col: 29, offset: 91474},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8870,9 +8870,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2887, col: 8, offset: 91166},
+																				pos: position{line: 2902, col: 8, offset: 91634},
 																				expr: &anyMatcher{
-																					line: 2887, col: 9, offset: 91167,
+																					line: 2902, col: 9, offset: 91635,
 																				},
 																			},
 																		},
@@ -8882,56 +8882,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1089, col: 5, offset: 33433},
+														pos: position{line: 1096, col: 5, offset: 33676},
 														run: (*parser).callonDocumentFragment1070,
 													},
 													&labeledExpr{
-														pos:   position{line: 1092, col: 5, offset: 33525},
+														pos:   position{line: 1099, col: 5, offset: 33768},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1107, col: 4, offset: 33922},
+															pos: position{line: 1114, col: 4, offset: 34165},
 															expr: &actionExpr{
-																pos: position{line: 1107, col: 5, offset: 33923},
+																pos: position{line: 1114, col: 5, offset: 34166},
 																run: (*parser).callonDocumentFragment1073,
 																expr: &seqExpr{
-																	pos: position{line: 1107, col: 5, offset: 33923},
+																	pos: position{line: 1114, col: 5, offset: 34166},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1107, col: 5, offset: 33923},
+																			pos: position{line: 1114, col: 5, offset: 34166},
 																			expr: &choiceExpr{
-																				pos: position{line: 1100, col: 5, offset: 33765},
+																				pos: position{line: 1107, col: 5, offset: 34008},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1100, col: 5, offset: 33765},
+																						pos: position{line: 1107, col: 5, offset: 34008},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1100, col: 5, offset: 33765},
+																								pos:   position{line: 1107, col: 5, offset: 34008},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 807, col: 5, offset: 25943},
+																									pos: position{line: 814, col: 5, offset: 26186},
 																									run: (*parser).callonDocumentFragment1079,
 																									expr: &seqExpr{
-																										pos: position{line: 807, col: 5, offset: 25943},
+																										pos: position{line: 814, col: 5, offset: 26186},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 807, col: 5, offset: 25943},
+																												pos:   position{line: 814, col: 5, offset: 26186},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 807, col: 16, offset: 25954},
+																													pos: position{line: 814, col: 16, offset: 26197},
 																													run: (*parser).callonDocumentFragment1082,
 																													expr: &seqExpr{
-																														pos: position{line: 807, col: 16, offset: 25954},
+																														pos: position{line: 814, col: 16, offset: 26197},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 807, col: 16, offset: 25954},
+																																pos:        position{line: 814, col: 16, offset: 26197},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 807, col: 23, offset: 25961},
+																																pos: position{line: 814, col: 23, offset: 26204},
 																																expr: &litMatcher{
-																																	pos:        position{line: 807, col: 23, offset: 25961},
+																																	pos:        position{line: 814, col: 23, offset: 26204},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8942,12 +8942,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 809, col: 8, offset: 26045},
+																												pos: position{line: 816, col: 8, offset: 26288},
 																												expr: &actionExpr{
-																													pos: position{line: 2868, col: 10, offset: 90818},
+																													pos: position{line: 2883, col: 10, offset: 91286},
 																													run: (*parser).callonDocumentFragment1088,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2868, col: 10, offset: 90818},
+																														pos:        position{line: 2883, col: 10, offset: 91286},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8956,28 +8956,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2890, col: 8, offset: 91216},
+																												pos: position{line: 2905, col: 8, offset: 91684},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2877, col: 12, offset: 90989},
+																														pos: position{line: 2892, col: 12, offset: 91457},
 																														run: (*parser).callonDocumentFragment1091,
 																														expr: &choiceExpr{
-																															pos: position{line: 2877, col: 13, offset: 90990},
+																															pos: position{line: 2892, col: 13, offset: 91458},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 13, offset: 90990},
+																																	pos:        position{line: 2892, col: 13, offset: 91458},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 20, offset: 90997},
+																																	pos:        position{line: 2892, col: 20, offset: 91465},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 29, offset: 91006},
+																																	pos:        position{line: 2892, col: 29, offset: 91474},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8986,9 +8986,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2887, col: 8, offset: 91166},
+																														pos: position{line: 2902, col: 8, offset: 91634},
 																														expr: &anyMatcher{
-																															line: 2887, col: 9, offset: 91167,
+																															line: 2902, col: 9, offset: 91635,
 																														},
 																													},
 																												},
@@ -8998,45 +8998,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1101, col: 5, offset: 33796},
+																								pos: position{line: 1108, col: 5, offset: 34039},
 																								run: (*parser).callonDocumentFragment1098,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2887, col: 8, offset: 91166},
+																						pos: position{line: 2902, col: 8, offset: 91634},
 																						expr: &anyMatcher{
-																							line: 2887, col: 9, offset: 91167,
+																							line: 2902, col: 9, offset: 91635,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1108, col: 5, offset: 33953},
+																			pos:   position{line: 1115, col: 5, offset: 34196},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 814, col: 5, offset: 26191},
+																				pos: position{line: 821, col: 5, offset: 26434},
 																				run: (*parser).callonDocumentFragment1102,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 5, offset: 26191},
+																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2885, col: 11, offset: 91152},
+																							pos: position{line: 2900, col: 11, offset: 91620},
 																							expr: &anyMatcher{
-																								line: 2885, col: 13, offset: 91154,
+																								line: 2900, col: 13, offset: 91622,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 815, col: 5, offset: 26266},
+																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2814, col: 13, offset: 89344},
+																								pos: position{line: 2829, col: 13, offset: 89812},
 																								run: (*parser).callonDocumentFragment1107,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2814, col: 13, offset: 89344},
+																									pos: position{line: 2829, col: 13, offset: 89812},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2814, col: 13, offset: 89344},
+																										pos:        position{line: 2829, col: 13, offset: 89812},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -9046,28 +9046,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonDocumentFragment1111,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -9076,9 +9076,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -9093,44 +9093,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1093, col: 5, offset: 33559},
+														pos:   position{line: 1100, col: 5, offset: 33802},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1093, col: 9, offset: 33563},
+															pos: position{line: 1100, col: 9, offset: 33806},
 															expr: &choiceExpr{
-																pos: position{line: 1100, col: 5, offset: 33765},
+																pos: position{line: 1107, col: 5, offset: 34008},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1100, col: 5, offset: 33765},
+																		pos: position{line: 1107, col: 5, offset: 34008},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1100, col: 5, offset: 33765},
+																				pos:   position{line: 1107, col: 5, offset: 34008},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 807, col: 5, offset: 25943},
+																					pos: position{line: 814, col: 5, offset: 26186},
 																					run: (*parser).callonDocumentFragment1123,
 																					expr: &seqExpr{
-																						pos: position{line: 807, col: 5, offset: 25943},
+																						pos: position{line: 814, col: 5, offset: 26186},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 807, col: 5, offset: 25943},
+																								pos:   position{line: 814, col: 5, offset: 26186},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 807, col: 16, offset: 25954},
+																									pos: position{line: 814, col: 16, offset: 26197},
 																									run: (*parser).callonDocumentFragment1126,
 																									expr: &seqExpr{
-																										pos: position{line: 807, col: 16, offset: 25954},
+																										pos: position{line: 814, col: 16, offset: 26197},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 807, col: 16, offset: 25954},
+																												pos:        position{line: 814, col: 16, offset: 26197},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 807, col: 23, offset: 25961},
+																												pos: position{line: 814, col: 23, offset: 26204},
 																												expr: &litMatcher{
-																													pos:        position{line: 807, col: 23, offset: 25961},
+																													pos:        position{line: 814, col: 23, offset: 26204},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -9141,12 +9141,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 809, col: 8, offset: 26045},
+																								pos: position{line: 816, col: 8, offset: 26288},
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 10, offset: 90818},
+																									pos: position{line: 2883, col: 10, offset: 91286},
 																									run: (*parser).callonDocumentFragment1132,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 10, offset: 90818},
+																										pos:        position{line: 2883, col: 10, offset: 91286},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -9155,28 +9155,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2890, col: 8, offset: 91216},
+																								pos: position{line: 2905, col: 8, offset: 91684},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2877, col: 12, offset: 90989},
+																										pos: position{line: 2892, col: 12, offset: 91457},
 																										run: (*parser).callonDocumentFragment1135,
 																										expr: &choiceExpr{
-																											pos: position{line: 2877, col: 13, offset: 90990},
+																											pos: position{line: 2892, col: 13, offset: 91458},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 13, offset: 90990},
+																													pos:        position{line: 2892, col: 13, offset: 91458},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 20, offset: 90997},
+																													pos:        position{line: 2892, col: 20, offset: 91465},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 29, offset: 91006},
+																													pos:        position{line: 2892, col: 29, offset: 91474},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9185,9 +9185,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2887, col: 8, offset: 91166},
+																										pos: position{line: 2902, col: 8, offset: 91634},
 																										expr: &anyMatcher{
-																											line: 2887, col: 9, offset: 91167,
+																											line: 2902, col: 9, offset: 91635,
 																										},
 																									},
 																								},
@@ -9197,15 +9197,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1101, col: 5, offset: 33796},
+																				pos: position{line: 1108, col: 5, offset: 34039},
 																				run: (*parser).callonDocumentFragment1142,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2887, col: 8, offset: 91166},
+																		pos: position{line: 2902, col: 8, offset: 91634},
 																		expr: &anyMatcher{
-																			line: 2887, col: 9, offset: 91167,
+																			line: 2902, col: 9, offset: 91635,
 																		},
 																	},
 																},
@@ -9216,52 +9216,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2713, col: 18, offset: 86408},
+											pos: position{line: 2728, col: 18, offset: 86876},
 											run: (*parser).callonDocumentFragment1145,
 											expr: &seqExpr{
-												pos: position{line: 2713, col: 18, offset: 86408},
+												pos: position{line: 2728, col: 18, offset: 86876},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2714, col: 9, offset: 86418},
+														pos: position{line: 2729, col: 9, offset: 86886},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2714, col: 9, offset: 86418},
+																pos:        position{line: 2729, col: 9, offset: 86886},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2715, col: 11, offset: 86454},
+																pos:        position{line: 2730, col: 11, offset: 86922},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2715, col: 19, offset: 86462},
+																pos:        position{line: 2730, col: 19, offset: 86930},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2715, col: 29, offset: 86472},
+																pos:        position{line: 2730, col: 29, offset: 86940},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2715, col: 37, offset: 86480},
+																pos:        position{line: 2730, col: 37, offset: 86948},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2715, col: 47, offset: 86490},
+																pos:        position{line: 2730, col: 47, offset: 86958},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2715, col: 55, offset: 86498},
+																pos:        position{line: 2730, col: 55, offset: 86966},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9269,12 +9269,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2716, col: 11, offset: 86556},
+														pos: position{line: 2731, col: 11, offset: 87024},
 														expr: &actionExpr{
-															pos: position{line: 2868, col: 10, offset: 90818},
+															pos: position{line: 2883, col: 10, offset: 91286},
 															run: (*parser).callonDocumentFragment1156,
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 10, offset: 90818},
+																pos:        position{line: 2883, col: 10, offset: 91286},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9283,28 +9283,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2890, col: 8, offset: 91216},
+														pos: position{line: 2905, col: 8, offset: 91684},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2877, col: 12, offset: 90989},
+																pos: position{line: 2892, col: 12, offset: 91457},
 																run: (*parser).callonDocumentFragment1159,
 																expr: &choiceExpr{
-																	pos: position{line: 2877, col: 13, offset: 90990},
+																	pos: position{line: 2892, col: 13, offset: 91458},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 13, offset: 90990},
+																			pos:        position{line: 2892, col: 13, offset: 91458},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 20, offset: 90997},
+																			pos:        position{line: 2892, col: 20, offset: 91465},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 29, offset: 91006},
+																			pos:        position{line: 2892, col: 29, offset: 91474},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9313,36 +9313,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2887, col: 8, offset: 91166},
+																pos: position{line: 2902, col: 8, offset: 91634},
 																expr: &anyMatcher{
-																	line: 2887, col: 9, offset: 91167,
+																	line: 2902, col: 9, offset: 91635,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2890, col: 8, offset: 91216},
+														pos: position{line: 2905, col: 8, offset: 91684},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2877, col: 12, offset: 90989},
+																pos: position{line: 2892, col: 12, offset: 91457},
 																run: (*parser).callonDocumentFragment1167,
 																expr: &choiceExpr{
-																	pos: position{line: 2877, col: 13, offset: 90990},
+																	pos: position{line: 2892, col: 13, offset: 91458},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 13, offset: 90990},
+																			pos:        position{line: 2892, col: 13, offset: 91458},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 20, offset: 90997},
+																			pos:        position{line: 2892, col: 20, offset: 91465},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 29, offset: 91006},
+																			pos:        position{line: 2892, col: 29, offset: 91474},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9351,9 +9351,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2887, col: 8, offset: 91166},
+																pos: position{line: 2902, col: 8, offset: 91634},
 																expr: &anyMatcher{
-																	line: 2887, col: 9, offset: 91167,
+																	line: 2902, col: 9, offset: 91635,
 																},
 															},
 														},
@@ -9366,24 +9366,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2604, col: 5, offset: 83302},
+											pos: position{line: 2619, col: 5, offset: 83770},
 											run: (*parser).callonDocumentFragment1175,
 											expr: &seqExpr{
-												pos: position{line: 2604, col: 5, offset: 83302},
+												pos: position{line: 2619, col: 5, offset: 83770},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2610, col: 19, offset: 83459},
+														pos:        position{line: 2625, col: 19, offset: 83927},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2610, col: 26, offset: 83466},
+														pos: position{line: 2625, col: 26, offset: 83934},
 														expr: &actionExpr{
-															pos: position{line: 2868, col: 10, offset: 90818},
+															pos: position{line: 2883, col: 10, offset: 91286},
 															run: (*parser).callonDocumentFragment1179,
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 10, offset: 90818},
+																pos:        position{line: 2883, col: 10, offset: 91286},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9392,28 +9392,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2890, col: 8, offset: 91216},
+														pos: position{line: 2905, col: 8, offset: 91684},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2877, col: 12, offset: 90989},
+																pos: position{line: 2892, col: 12, offset: 91457},
 																run: (*parser).callonDocumentFragment1182,
 																expr: &choiceExpr{
-																	pos: position{line: 2877, col: 13, offset: 90990},
+																	pos: position{line: 2892, col: 13, offset: 91458},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 13, offset: 90990},
+																			pos:        position{line: 2892, col: 13, offset: 91458},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 20, offset: 90997},
+																			pos:        position{line: 2892, col: 20, offset: 91465},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 29, offset: 91006},
+																			pos:        position{line: 2892, col: 29, offset: 91474},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9422,40 +9422,40 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2887, col: 8, offset: 91166},
+																pos: position{line: 2902, col: 8, offset: 91634},
 																expr: &anyMatcher{
-																	line: 2887, col: 9, offset: 91167,
+																	line: 2902, col: 9, offset: 91635,
 																},
 															},
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2605, col: 5, offset: 83326},
+														pos:   position{line: 2620, col: 5, offset: 83794},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2605, col: 11, offset: 83332},
+															pos: position{line: 2620, col: 11, offset: 83800},
 															expr: &choiceExpr{
-																pos: position{line: 2605, col: 12, offset: 83333},
+																pos: position{line: 2620, col: 12, offset: 83801},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 680, col: 14, offset: 21592},
+																		pos: position{line: 687, col: 14, offset: 21835},
 																		run: (*parser).callonDocumentFragment1192,
 																		expr: &seqExpr{
-																			pos: position{line: 680, col: 14, offset: 21592},
+																			pos: position{line: 687, col: 14, offset: 21835},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2885, col: 11, offset: 91152},
+																					pos: position{line: 2900, col: 11, offset: 91620},
 																					expr: &anyMatcher{
-																						line: 2885, col: 13, offset: 91154,
+																						line: 2900, col: 13, offset: 91622,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 680, col: 21, offset: 21599},
+																					pos: position{line: 687, col: 21, offset: 21842},
 																					expr: &actionExpr{
-																						pos: position{line: 2868, col: 10, offset: 90818},
+																						pos: position{line: 2883, col: 10, offset: 91286},
 																						run: (*parser).callonDocumentFragment1197,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 10, offset: 90818},
+																							pos:        position{line: 2883, col: 10, offset: 91286},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -9464,28 +9464,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2890, col: 8, offset: 91216},
+																					pos: position{line: 2905, col: 8, offset: 91684},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2877, col: 12, offset: 90989},
+																							pos: position{line: 2892, col: 12, offset: 91457},
 																							run: (*parser).callonDocumentFragment1200,
 																							expr: &choiceExpr{
-																								pos: position{line: 2877, col: 13, offset: 90990},
+																								pos: position{line: 2892, col: 13, offset: 91458},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 13, offset: 90990},
+																										pos:        position{line: 2892, col: 13, offset: 91458},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 20, offset: 90997},
+																										pos:        position{line: 2892, col: 20, offset: 91465},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 29, offset: 91006},
+																										pos:        position{line: 2892, col: 29, offset: 91474},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -9494,9 +9494,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2887, col: 8, offset: 91166},
+																							pos: position{line: 2902, col: 8, offset: 91634},
 																							expr: &anyMatcher{
-																								line: 2887, col: 9, offset: 91167,
+																								line: 2902, col: 9, offset: 91635,
 																							},
 																						},
 																					},
@@ -9505,32 +9505,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2617, col: 5, offset: 83578},
+																		pos: position{line: 2632, col: 5, offset: 84046},
 																		run: (*parser).callonDocumentFragment1207,
 																		expr: &seqExpr{
-																			pos: position{line: 2617, col: 5, offset: 83578},
+																			pos: position{line: 2632, col: 5, offset: 84046},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 2617, col: 5, offset: 83578},
+																					pos: position{line: 2632, col: 5, offset: 84046},
 																					expr: &choiceExpr{
-																						pos: position{line: 2614, col: 22, offset: 83539},
+																						pos: position{line: 2629, col: 22, offset: 84007},
 																						alternatives: []interface{}{
 																							&seqExpr{
-																								pos: position{line: 2610, col: 19, offset: 83459},
+																								pos: position{line: 2625, col: 19, offset: 83927},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2610, col: 19, offset: 83459},
+																										pos:        position{line: 2625, col: 19, offset: 83927},
 																										val:        "|===",
 																										ignoreCase: false,
 																										want:       "\"|===\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 2610, col: 26, offset: 83466},
+																										pos: position{line: 2625, col: 26, offset: 83934},
 																										expr: &actionExpr{
-																											pos: position{line: 2868, col: 10, offset: 90818},
+																											pos: position{line: 2883, col: 10, offset: 91286},
 																											run: (*parser).callonDocumentFragment1214,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2868, col: 10, offset: 90818},
+																												pos:        position{line: 2883, col: 10, offset: 91286},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -9539,28 +9539,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2890, col: 8, offset: 91216},
+																										pos: position{line: 2905, col: 8, offset: 91684},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2877, col: 12, offset: 90989},
+																												pos: position{line: 2892, col: 12, offset: 91457},
 																												run: (*parser).callonDocumentFragment1217,
 																												expr: &choiceExpr{
-																													pos: position{line: 2877, col: 13, offset: 90990},
+																													pos: position{line: 2892, col: 13, offset: 91458},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2877, col: 13, offset: 90990},
+																															pos:        position{line: 2892, col: 13, offset: 91458},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2877, col: 20, offset: 90997},
+																															pos:        position{line: 2892, col: 20, offset: 91465},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2877, col: 29, offset: 91006},
+																															pos:        position{line: 2892, col: 29, offset: 91474},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -9569,9 +9569,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2887, col: 8, offset: 91166},
+																												pos: position{line: 2902, col: 8, offset: 91634},
 																												expr: &anyMatcher{
-																													line: 2887, col: 9, offset: 91167,
+																													line: 2902, col: 9, offset: 91635,
 																												},
 																											},
 																										},
@@ -9579,59 +9579,59 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2887, col: 8, offset: 91166},
+																								pos: position{line: 2902, col: 8, offset: 91634},
 																								expr: &anyMatcher{
-																									line: 2887, col: 9, offset: 91167,
+																									line: 2902, col: 9, offset: 91635,
 																								},
 																							},
 																						},
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2618, col: 5, offset: 83601},
+																					pos:   position{line: 2633, col: 5, offset: 84069},
 																					label: "content",
 																					expr: &choiceExpr{
-																						pos: position{line: 2619, col: 9, offset: 83619},
+																						pos: position{line: 2634, col: 9, offset: 84087},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2619, col: 10, offset: 83620},
+																								pos: position{line: 2634, col: 10, offset: 84088},
 																								run: (*parser).callonDocumentFragment1228,
 																								expr: &labeledExpr{
-																									pos:   position{line: 2619, col: 10, offset: 83620},
+																									pos:   position{line: 2634, col: 10, offset: 84088},
 																									label: "cells",
 																									expr: &choiceExpr{
-																										pos: position{line: 2619, col: 17, offset: 83627},
+																										pos: position{line: 2634, col: 17, offset: 84095},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2627, col: 21, offset: 83823},
+																												pos: position{line: 2642, col: 21, offset: 84291},
 																												run: (*parser).callonDocumentFragment1231,
 																												expr: &seqExpr{
-																													pos: position{line: 2627, col: 21, offset: 83823},
+																													pos: position{line: 2642, col: 21, offset: 84291},
 																													exprs: []interface{}{
 																														&labeledExpr{
-																															pos:   position{line: 2627, col: 21, offset: 83823},
+																															pos:   position{line: 2642, col: 21, offset: 84291},
 																															label: "cells",
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2627, col: 27, offset: 83829},
+																																pos: position{line: 2642, col: 27, offset: 84297},
 																																expr: &actionExpr{
-																																	pos: position{line: 2632, col: 5, offset: 83904},
+																																	pos: position{line: 2647, col: 5, offset: 84372},
 																																	run: (*parser).callonDocumentFragment1235,
 																																	expr: &seqExpr{
-																																		pos: position{line: 2632, col: 5, offset: 83904},
+																																		pos: position{line: 2647, col: 5, offset: 84372},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2632, col: 5, offset: 83904},
+																																				pos:        position{line: 2647, col: 5, offset: 84372},
 																																				val:        "|",
 																																				ignoreCase: false,
 																																				want:       "\"|\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2632, col: 9, offset: 83908},
+																																				pos: position{line: 2647, col: 9, offset: 84376},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2868, col: 10, offset: 90818},
+																																					pos: position{line: 2883, col: 10, offset: 91286},
 																																					run: (*parser).callonDocumentFragment1239,
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2868, col: 10, offset: 90818},
+																																						pos:        position{line: 2883, col: 10, offset: 91286},
 																																						val:        "[\\t ]",
 																																						chars:      []rune{'\t', ' '},
 																																						ignoreCase: false,
@@ -9640,21 +9640,21 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 2632, col: 16, offset: 83915},
+																																				pos:   position{line: 2647, col: 16, offset: 84383},
 																																				label: "content",
 																																				expr: &actionExpr{
-																																					pos: position{line: 2638, col: 5, offset: 84115},
+																																					pos: position{line: 2653, col: 5, offset: 84583},
 																																					run: (*parser).callonDocumentFragment1242,
 																																					expr: &labeledExpr{
-																																						pos:   position{line: 2638, col: 5, offset: 84115},
+																																						pos:   position{line: 2653, col: 5, offset: 84583},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2638, col: 14, offset: 84124},
+																																							pos: position{line: 2653, col: 14, offset: 84592},
 																																							run: (*parser).callonDocumentFragment1244,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2638, col: 14, offset: 84124},
+																																								pos: position{line: 2653, col: 14, offset: 84592},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2638, col: 14, offset: 84124},
+																																									pos:        position{line: 2653, col: 14, offset: 84592},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -9671,28 +9671,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2890, col: 8, offset: 91216},
+																															pos: position{line: 2905, col: 8, offset: 91684},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2877, col: 12, offset: 90989},
+																																	pos: position{line: 2892, col: 12, offset: 91457},
 																																	run: (*parser).callonDocumentFragment1248,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2877, col: 13, offset: 90990},
+																																		pos: position{line: 2892, col: 13, offset: 91458},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2877, col: 13, offset: 90990},
+																																				pos:        position{line: 2892, col: 13, offset: 91458},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2877, col: 20, offset: 90997},
+																																				pos:        position{line: 2892, col: 20, offset: 91465},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2877, col: 29, offset: 91006},
+																																				pos:        position{line: 2892, col: 29, offset: 91474},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -9701,9 +9701,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2887, col: 8, offset: 91166},
+																																	pos: position{line: 2902, col: 8, offset: 91634},
 																																	expr: &anyMatcher{
-																																		line: 2887, col: 9, offset: 91167,
+																																		line: 2902, col: 9, offset: 91635,
 																																	},
 																																},
 																															},
@@ -9712,40 +9712,40 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 2644, col: 24, offset: 84260},
+																												pos: position{line: 2659, col: 24, offset: 84728},
 																												run: (*parser).callonDocumentFragment1255,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2644, col: 24, offset: 84260},
+																													pos:   position{line: 2659, col: 24, offset: 84728},
 																													label: "cells",
 																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2644, col: 30, offset: 84266},
+																														pos: position{line: 2659, col: 30, offset: 84734},
 																														expr: &actionExpr{
-																															pos: position{line: 2649, col: 5, offset: 84342},
+																															pos: position{line: 2664, col: 5, offset: 84810},
 																															run: (*parser).callonDocumentFragment1258,
 																															expr: &seqExpr{
-																																pos: position{line: 2649, col: 5, offset: 84342},
+																																pos: position{line: 2664, col: 5, offset: 84810},
 																																exprs: []interface{}{
 																																	&notExpr{
-																																		pos: position{line: 2649, col: 5, offset: 84342},
+																																		pos: position{line: 2664, col: 5, offset: 84810},
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2614, col: 22, offset: 83539},
+																																			pos: position{line: 2629, col: 22, offset: 84007},
 																																			alternatives: []interface{}{
 																																				&seqExpr{
-																																					pos: position{line: 2610, col: 19, offset: 83459},
+																																					pos: position{line: 2625, col: 19, offset: 83927},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2610, col: 19, offset: 83459},
+																																							pos:        position{line: 2625, col: 19, offset: 83927},
 																																							val:        "|===",
 																																							ignoreCase: false,
 																																							want:       "\"|===\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2610, col: 26, offset: 83466},
+																																							pos: position{line: 2625, col: 26, offset: 83934},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2868, col: 10, offset: 90818},
+																																								pos: position{line: 2883, col: 10, offset: 91286},
 																																								run: (*parser).callonDocumentFragment1265,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2868, col: 10, offset: 90818},
+																																									pos:        position{line: 2883, col: 10, offset: 91286},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -9754,28 +9754,28 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&choiceExpr{
-																																							pos: position{line: 2890, col: 8, offset: 91216},
+																																							pos: position{line: 2905, col: 8, offset: 91684},
 																																							alternatives: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2877, col: 12, offset: 90989},
+																																									pos: position{line: 2892, col: 12, offset: 91457},
 																																									run: (*parser).callonDocumentFragment1268,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2877, col: 13, offset: 90990},
+																																										pos: position{line: 2892, col: 13, offset: 91458},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2877, col: 13, offset: 90990},
+																																												pos:        position{line: 2892, col: 13, offset: 91458},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2877, col: 20, offset: 90997},
+																																												pos:        position{line: 2892, col: 20, offset: 91465},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2877, col: 29, offset: 91006},
+																																												pos:        position{line: 2892, col: 29, offset: 91474},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -9784,9 +9784,9 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2887, col: 8, offset: 91166},
+																																									pos: position{line: 2902, col: 8, offset: 91634},
 																																									expr: &anyMatcher{
-																																										line: 2887, col: 9, offset: 91167,
+																																										line: 2902, col: 9, offset: 91635,
 																																									},
 																																								},
 																																							},
@@ -9794,35 +9794,35 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2887, col: 8, offset: 91166},
+																																					pos: position{line: 2902, col: 8, offset: 91634},
 																																					expr: &anyMatcher{
-																																						line: 2887, col: 9, offset: 91167,
+																																						line: 2902, col: 9, offset: 91635,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2650, col: 5, offset: 84365},
+																																		pos: position{line: 2665, col: 5, offset: 84833},
 																																		expr: &actionExpr{
-																																			pos: position{line: 680, col: 14, offset: 21592},
+																																			pos: position{line: 687, col: 14, offset: 21835},
 																																			run: (*parser).callonDocumentFragment1278,
 																																			expr: &seqExpr{
-																																				pos: position{line: 680, col: 14, offset: 21592},
+																																				pos: position{line: 687, col: 14, offset: 21835},
 																																				exprs: []interface{}{
 																																					&andExpr{
-																																						pos: position{line: 2885, col: 11, offset: 91152},
+																																						pos: position{line: 2900, col: 11, offset: 91620},
 																																						expr: &anyMatcher{
-																																							line: 2885, col: 13, offset: 91154,
+																																							line: 2900, col: 13, offset: 91622,
 																																						},
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 680, col: 21, offset: 21599},
+																																						pos: position{line: 687, col: 21, offset: 21842},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2868, col: 10, offset: 90818},
+																																							pos: position{line: 2883, col: 10, offset: 91286},
 																																							run: (*parser).callonDocumentFragment1283,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2868, col: 10, offset: 90818},
+																																								pos:        position{line: 2883, col: 10, offset: 91286},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -9831,28 +9831,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2890, col: 8, offset: 91216},
+																																						pos: position{line: 2905, col: 8, offset: 91684},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2877, col: 12, offset: 90989},
+																																								pos: position{line: 2892, col: 12, offset: 91457},
 																																								run: (*parser).callonDocumentFragment1286,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2877, col: 13, offset: 90990},
+																																									pos: position{line: 2892, col: 13, offset: 91458},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2877, col: 13, offset: 90990},
+																																											pos:        position{line: 2892, col: 13, offset: 91458},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2877, col: 20, offset: 90997},
+																																											pos:        position{line: 2892, col: 20, offset: 91465},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2877, col: 29, offset: 91006},
+																																											pos:        position{line: 2892, col: 29, offset: 91474},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -9861,9 +9861,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2887, col: 8, offset: 91166},
+																																								pos: position{line: 2902, col: 8, offset: 91634},
 																																								expr: &anyMatcher{
-																																									line: 2887, col: 9, offset: 91167,
+																																									line: 2902, col: 9, offset: 91635,
 																																								},
 																																							},
 																																						},
@@ -9873,17 +9873,17 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2651, col: 5, offset: 84380},
+																																		pos:   position{line: 2666, col: 5, offset: 84848},
 																																		label: "format",
 																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2651, col: 12, offset: 84387},
+																																			pos: position{line: 2666, col: 12, offset: 84855},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2668, col: 20, offset: 84893},
+																																				pos: position{line: 2683, col: 20, offset: 85361},
 																																				run: (*parser).callonDocumentFragment1295,
 																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2668, col: 20, offset: 84893},
+																																					pos: position{line: 2683, col: 20, offset: 85361},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2668, col: 20, offset: 84893},
+																																						pos:        position{line: 2683, col: 20, offset: 85361},
 																																						val:        "[^ |\\r\\n]",
 																																						chars:      []rune{' ', '|', '\r', '\n'},
 																																						ignoreCase: false,
@@ -9894,18 +9894,18 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2651, col: 31, offset: 84406},
+																																		pos:        position{line: 2666, col: 31, offset: 84874},
 																																		val:        "|",
 																																		ignoreCase: false,
 																																		want:       "\"|\"",
 																																	},
 																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2651, col: 35, offset: 84410},
+																																		pos: position{line: 2666, col: 35, offset: 84878},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2868, col: 10, offset: 90818},
+																																			pos: position{line: 2883, col: 10, offset: 91286},
 																																			run: (*parser).callonDocumentFragment1300,
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2868, col: 10, offset: 90818},
+																																				pos:        position{line: 2883, col: 10, offset: 91286},
 																																				val:        "[\\t ]",
 																																				chars:      []rune{'\t', ' '},
 																																				ignoreCase: false,
@@ -9914,30 +9914,30 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&zeroOrOneExpr{
-																																		pos: position{line: 2651, col: 42, offset: 84417},
+																																		pos: position{line: 2666, col: 42, offset: 84885},
 																																		expr: &seqExpr{
-																																			pos: position{line: 2651, col: 43, offset: 84418},
+																																			pos: position{line: 2666, col: 43, offset: 84886},
 																																			exprs: []interface{}{
 																																				&actionExpr{
-																																					pos: position{line: 2877, col: 12, offset: 90989},
+																																					pos: position{line: 2892, col: 12, offset: 91457},
 																																					run: (*parser).callonDocumentFragment1304,
 																																					expr: &choiceExpr{
-																																						pos: position{line: 2877, col: 13, offset: 90990},
+																																						pos: position{line: 2892, col: 13, offset: 91458},
 																																						alternatives: []interface{}{
 																																							&litMatcher{
-																																								pos:        position{line: 2877, col: 13, offset: 90990},
+																																								pos:        position{line: 2892, col: 13, offset: 91458},
 																																								val:        "\n",
 																																								ignoreCase: false,
 																																								want:       "\"\\n\"",
 																																							},
 																																							&litMatcher{
-																																								pos:        position{line: 2877, col: 20, offset: 90997},
+																																								pos:        position{line: 2892, col: 20, offset: 91465},
 																																								val:        "\r\n",
 																																								ignoreCase: false,
 																																								want:       "\"\\r\\n\"",
 																																							},
 																																							&litMatcher{
-																																								pos:        position{line: 2877, col: 29, offset: 91006},
+																																								pos:        position{line: 2892, col: 29, offset: 91474},
 																																								val:        "\r",
 																																								ignoreCase: false,
 																																								want:       "\"\\r\"",
@@ -9946,38 +9946,38 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 2651, col: 51, offset: 84426},
+																																					pos: position{line: 2666, col: 51, offset: 84894},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2478, col: 22, offset: 79761},
+																																						pos: position{line: 2493, col: 22, offset: 80229},
 																																						run: (*parser).callonDocumentFragment1310,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2478, col: 22, offset: 79761},
+																																							pos: position{line: 2493, col: 22, offset: 80229},
 																																							exprs: []interface{}{
 																																								&litMatcher{
-																																									pos:        position{line: 2483, col: 31, offset: 79982},
+																																									pos:        position{line: 2498, col: 31, offset: 80450},
 																																									val:        "//",
 																																									ignoreCase: false,
 																																									want:       "\"//\"",
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2483, col: 36, offset: 79987},
+																																									pos: position{line: 2498, col: 36, offset: 80455},
 																																									expr: &litMatcher{
-																																										pos:        position{line: 2483, col: 37, offset: 79988},
+																																										pos:        position{line: 2498, col: 37, offset: 80456},
 																																										val:        "//",
 																																										ignoreCase: false,
 																																										want:       "\"//\"",
 																																									},
 																																								},
 																																								&labeledExpr{
-																																									pos:   position{line: 2478, col: 49, offset: 79788},
+																																									pos:   position{line: 2493, col: 49, offset: 80256},
 																																									label: "content",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2814, col: 13, offset: 89344},
+																																										pos: position{line: 2829, col: 13, offset: 89812},
 																																										run: (*parser).callonDocumentFragment1316,
 																																										expr: &zeroOrMoreExpr{
-																																											pos: position{line: 2814, col: 13, offset: 89344},
+																																											pos: position{line: 2829, col: 13, offset: 89812},
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2814, col: 13, offset: 89344},
+																																												pos:        position{line: 2829, col: 13, offset: 89812},
 																																												val:        "[^\\r\\n]",
 																																												chars:      []rune{'\r', '\n'},
 																																												ignoreCase: false,
@@ -9987,28 +9987,28 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&choiceExpr{
-																																									pos: position{line: 2890, col: 8, offset: 91216},
+																																									pos: position{line: 2905, col: 8, offset: 91684},
 																																									alternatives: []interface{}{
 																																										&actionExpr{
-																																											pos: position{line: 2877, col: 12, offset: 90989},
+																																											pos: position{line: 2892, col: 12, offset: 91457},
 																																											run: (*parser).callonDocumentFragment1320,
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2877, col: 13, offset: 90990},
+																																												pos: position{line: 2892, col: 13, offset: 91458},
 																																												alternatives: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2877, col: 13, offset: 90990},
+																																														pos:        position{line: 2892, col: 13, offset: 91458},
 																																														val:        "\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2877, col: 20, offset: 90997},
+																																														pos:        position{line: 2892, col: 20, offset: 91465},
 																																														val:        "\r\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2877, col: 29, offset: 91006},
+																																														pos:        position{line: 2892, col: 29, offset: 91474},
 																																														val:        "\r",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\"",
@@ -10017,9 +10017,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2887, col: 8, offset: 91166},
+																																											pos: position{line: 2902, col: 8, offset: 91634},
 																																											expr: &anyMatcher{
-																																												line: 2887, col: 9, offset: 91167,
+																																												line: 2902, col: 9, offset: 91635,
 																																											},
 																																										},
 																																									},
@@ -10032,37 +10032,37 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&labeledExpr{
-																																		pos:   position{line: 2651, col: 72, offset: 84447},
+																																		pos:   position{line: 2666, col: 72, offset: 84915},
 																																		label: "content",
 																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2657, col: 5, offset: 84606},
+																																			pos: position{line: 2672, col: 5, offset: 85074},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2658, col: 9, offset: 84616},
+																																				pos: position{line: 2673, col: 9, offset: 85084},
 																																				run: (*parser).callonDocumentFragment1329,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2658, col: 9, offset: 84616},
+																																					pos: position{line: 2673, col: 9, offset: 85084},
 																																					exprs: []interface{}{
 																																						&notExpr{
-																																							pos: position{line: 2658, col: 9, offset: 84616},
+																																							pos: position{line: 2673, col: 9, offset: 85084},
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2614, col: 22, offset: 83539},
+																																								pos: position{line: 2629, col: 22, offset: 84007},
 																																								alternatives: []interface{}{
 																																									&seqExpr{
-																																										pos: position{line: 2610, col: 19, offset: 83459},
+																																										pos: position{line: 2625, col: 19, offset: 83927},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2610, col: 19, offset: 83459},
+																																												pos:        position{line: 2625, col: 19, offset: 83927},
 																																												val:        "|===",
 																																												ignoreCase: false,
 																																												want:       "\"|===\"",
 																																											},
 																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2610, col: 26, offset: 83466},
+																																												pos: position{line: 2625, col: 26, offset: 83934},
 																																												expr: &actionExpr{
-																																													pos: position{line: 2868, col: 10, offset: 90818},
+																																													pos: position{line: 2883, col: 10, offset: 91286},
 																																													run: (*parser).callonDocumentFragment1336,
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2868, col: 10, offset: 90818},
+																																														pos:        position{line: 2883, col: 10, offset: 91286},
 																																														val:        "[\\t ]",
 																																														chars:      []rune{'\t', ' '},
 																																														ignoreCase: false,
@@ -10071,28 +10071,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2890, col: 8, offset: 91216},
+																																												pos: position{line: 2905, col: 8, offset: 91684},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2877, col: 12, offset: 90989},
+																																														pos: position{line: 2892, col: 12, offset: 91457},
 																																														run: (*parser).callonDocumentFragment1339,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2877, col: 13, offset: 90990},
+																																															pos: position{line: 2892, col: 13, offset: 91458},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2877, col: 13, offset: 90990},
+																																																	pos:        position{line: 2892, col: 13, offset: 91458},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2877, col: 20, offset: 90997},
+																																																	pos:        position{line: 2892, col: 20, offset: 91465},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2877, col: 29, offset: 91006},
+																																																	pos:        position{line: 2892, col: 29, offset: 91474},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -10101,9 +10101,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2887, col: 8, offset: 91166},
+																																														pos: position{line: 2902, col: 8, offset: 91634},
 																																														expr: &anyMatcher{
-																																															line: 2887, col: 9, offset: 91167,
+																																															line: 2902, col: 9, offset: 91635,
 																																														},
 																																													},
 																																												},
@@ -10111,35 +10111,35 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2887, col: 8, offset: 91166},
+																																										pos: position{line: 2902, col: 8, offset: 91634},
 																																										expr: &anyMatcher{
-																																											line: 2887, col: 9, offset: 91167,
+																																											line: 2902, col: 9, offset: 91635,
 																																										},
 																																									},
 																																								},
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2659, col: 9, offset: 84643},
+																																							pos: position{line: 2674, col: 9, offset: 85111},
 																																							expr: &actionExpr{
-																																								pos: position{line: 680, col: 14, offset: 21592},
+																																								pos: position{line: 687, col: 14, offset: 21835},
 																																								run: (*parser).callonDocumentFragment1349,
 																																								expr: &seqExpr{
-																																									pos: position{line: 680, col: 14, offset: 21592},
+																																									pos: position{line: 687, col: 14, offset: 21835},
 																																									exprs: []interface{}{
 																																										&andExpr{
-																																											pos: position{line: 2885, col: 11, offset: 91152},
+																																											pos: position{line: 2900, col: 11, offset: 91620},
 																																											expr: &anyMatcher{
-																																												line: 2885, col: 13, offset: 91154,
+																																												line: 2900, col: 13, offset: 91622,
 																																											},
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 680, col: 21, offset: 21599},
+																																											pos: position{line: 687, col: 21, offset: 21842},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2868, col: 10, offset: 90818},
+																																												pos: position{line: 2883, col: 10, offset: 91286},
 																																												run: (*parser).callonDocumentFragment1354,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2868, col: 10, offset: 90818},
+																																													pos:        position{line: 2883, col: 10, offset: 91286},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -10148,28 +10148,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2890, col: 8, offset: 91216},
+																																											pos: position{line: 2905, col: 8, offset: 91684},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2877, col: 12, offset: 90989},
+																																													pos: position{line: 2892, col: 12, offset: 91457},
 																																													run: (*parser).callonDocumentFragment1357,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2877, col: 13, offset: 90990},
+																																														pos: position{line: 2892, col: 13, offset: 91458},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -10178,9 +10178,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2887, col: 8, offset: 91166},
+																																													pos: position{line: 2902, col: 8, offset: 91634},
 																																													expr: &anyMatcher{
-																																														line: 2887, col: 9, offset: 91167,
+																																														line: 2902, col: 9, offset: 91635,
 																																													},
 																																												},
 																																											},
@@ -10190,22 +10190,22 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2660, col: 9, offset: 84662},
+																																							pos: position{line: 2675, col: 9, offset: 85130},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2660, col: 11, offset: 84664},
+																																								pos: position{line: 2675, col: 11, offset: 85132},
 																																								exprs: []interface{}{
 																																									&labeledExpr{
-																																										pos:   position{line: 2660, col: 11, offset: 84664},
+																																										pos:   position{line: 2675, col: 11, offset: 85132},
 																																										label: "format",
 																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2660, col: 18, offset: 84671},
+																																											pos: position{line: 2675, col: 18, offset: 85139},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2668, col: 20, offset: 84893},
+																																												pos: position{line: 2683, col: 20, offset: 85361},
 																																												run: (*parser).callonDocumentFragment1368,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2668, col: 20, offset: 84893},
+																																													pos: position{line: 2683, col: 20, offset: 85361},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2668, col: 20, offset: 84893},
+																																														pos:        position{line: 2683, col: 20, offset: 85361},
 																																														val:        "[^ |\\r\\n]",
 																																														chars:      []rune{' ', '|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -10216,7 +10216,7 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2660, col: 37, offset: 84690},
+																																										pos:        position{line: 2675, col: 37, offset: 85158},
 																																										val:        "|",
 																																										ignoreCase: false,
 																																										want:       "\"|\"",
@@ -10225,15 +10225,15 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2661, col: 9, offset: 84703},
+																																							pos:   position{line: 2676, col: 9, offset: 85171},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2661, col: 18, offset: 84712},
+																																								pos: position{line: 2676, col: 18, offset: 85180},
 																																								run: (*parser).callonDocumentFragment1373,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2661, col: 18, offset: 84712},
+																																									pos: position{line: 2676, col: 18, offset: 85180},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2661, col: 18, offset: 84712},
+																																										pos:        position{line: 2676, col: 18, offset: 85180},
 																																										val:        "[^|\\r\\n]",
 																																										chars:      []rune{'|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -10243,33 +10243,33 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&zeroOrOneExpr{
-																																							pos: position{line: 2663, col: 12, offset: 84774},
+																																							pos: position{line: 2678, col: 12, offset: 85242},
 																																							expr: &seqExpr{
-																																								pos: position{line: 2663, col: 13, offset: 84775},
+																																								pos: position{line: 2678, col: 13, offset: 85243},
 																																								exprs: []interface{}{
 																																									&choiceExpr{
-																																										pos: position{line: 2890, col: 8, offset: 91216},
+																																										pos: position{line: 2905, col: 8, offset: 91684},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2877, col: 12, offset: 90989},
+																																												pos: position{line: 2892, col: 12, offset: 91457},
 																																												run: (*parser).callonDocumentFragment1379,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2877, col: 13, offset: 90990},
+																																													pos: position{line: 2892, col: 13, offset: 91458},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2877, col: 13, offset: 90990},
+																																															pos:        position{line: 2892, col: 13, offset: 91458},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2877, col: 20, offset: 90997},
+																																															pos:        position{line: 2892, col: 20, offset: 91465},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2877, col: 29, offset: 91006},
+																																															pos:        position{line: 2892, col: 29, offset: 91474},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -10278,46 +10278,46 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2887, col: 8, offset: 91166},
+																																												pos: position{line: 2902, col: 8, offset: 91634},
 																																												expr: &anyMatcher{
-																																													line: 2887, col: 9, offset: 91167,
+																																													line: 2902, col: 9, offset: 91635,
 																																												},
 																																											},
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
-																																										pos: position{line: 2663, col: 17, offset: 84779},
+																																										pos: position{line: 2678, col: 17, offset: 85247},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2478, col: 22, offset: 79761},
+																																											pos: position{line: 2493, col: 22, offset: 80229},
 																																											run: (*parser).callonDocumentFragment1387,
 																																											expr: &seqExpr{
-																																												pos: position{line: 2478, col: 22, offset: 79761},
+																																												pos: position{line: 2493, col: 22, offset: 80229},
 																																												exprs: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2483, col: 31, offset: 79982},
+																																														pos:        position{line: 2498, col: 31, offset: 80450},
 																																														val:        "//",
 																																														ignoreCase: false,
 																																														want:       "\"//\"",
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2483, col: 36, offset: 79987},
+																																														pos: position{line: 2498, col: 36, offset: 80455},
 																																														expr: &litMatcher{
-																																															pos:        position{line: 2483, col: 37, offset: 79988},
+																																															pos:        position{line: 2498, col: 37, offset: 80456},
 																																															val:        "//",
 																																															ignoreCase: false,
 																																															want:       "\"//\"",
 																																														},
 																																													},
 																																													&labeledExpr{
-																																														pos:   position{line: 2478, col: 49, offset: 79788},
+																																														pos:   position{line: 2493, col: 49, offset: 80256},
 																																														label: "content",
 																																														expr: &actionExpr{
-																																															pos: position{line: 2814, col: 13, offset: 89344},
+																																															pos: position{line: 2829, col: 13, offset: 89812},
 																																															run: (*parser).callonDocumentFragment1393,
 																																															expr: &zeroOrMoreExpr{
-																																																pos: position{line: 2814, col: 13, offset: 89344},
+																																																pos: position{line: 2829, col: 13, offset: 89812},
 																																																expr: &charClassMatcher{
-																																																	pos:        position{line: 2814, col: 13, offset: 89344},
+																																																	pos:        position{line: 2829, col: 13, offset: 89812},
 																																																	val:        "[^\\r\\n]",
 																																																	chars:      []rune{'\r', '\n'},
 																																																	ignoreCase: false,
@@ -10327,28 +10327,28 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&choiceExpr{
-																																														pos: position{line: 2890, col: 8, offset: 91216},
+																																														pos: position{line: 2905, col: 8, offset: 91684},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2877, col: 12, offset: 90989},
+																																																pos: position{line: 2892, col: 12, offset: 91457},
 																																																run: (*parser).callonDocumentFragment1397,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2877, col: 13, offset: 90990},
+																																																	pos: position{line: 2892, col: 13, offset: 91458},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2877, col: 13, offset: 90990},
+																																																			pos:        position{line: 2892, col: 13, offset: 91458},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2877, col: 20, offset: 90997},
+																																																			pos:        position{line: 2892, col: 20, offset: 91465},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2877, col: 29, offset: 91006},
+																																																			pos:        position{line: 2892, col: 29, offset: 91474},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -10357,9 +10357,9 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2887, col: 8, offset: 91166},
+																																																pos: position{line: 2902, col: 8, offset: 91634},
 																																																expr: &anyMatcher{
-																																																	line: 2887, col: 9, offset: 91167,
+																																																	line: 2902, col: 9, offset: 91635,
 																																																},
 																																															},
 																																														},
@@ -10387,24 +10387,24 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 680, col: 14, offset: 21592},
+																								pos: position{line: 687, col: 14, offset: 21835},
 																								run: (*parser).callonDocumentFragment1404,
 																								expr: &seqExpr{
-																									pos: position{line: 680, col: 14, offset: 21592},
+																									pos: position{line: 687, col: 14, offset: 21835},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2885, col: 11, offset: 91152},
+																											pos: position{line: 2900, col: 11, offset: 91620},
 																											expr: &anyMatcher{
-																												line: 2885, col: 13, offset: 91154,
+																												line: 2900, col: 13, offset: 91622,
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 680, col: 21, offset: 21599},
+																											pos: position{line: 687, col: 21, offset: 21842},
 																											expr: &actionExpr{
-																												pos: position{line: 2868, col: 10, offset: 90818},
+																												pos: position{line: 2883, col: 10, offset: 91286},
 																												run: (*parser).callonDocumentFragment1409,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 10, offset: 90818},
+																													pos:        position{line: 2883, col: 10, offset: 91286},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -10413,28 +10413,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2890, col: 8, offset: 91216},
+																											pos: position{line: 2905, col: 8, offset: 91684},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2877, col: 12, offset: 90989},
+																													pos: position{line: 2892, col: 12, offset: 91457},
 																													run: (*parser).callonDocumentFragment1412,
 																													expr: &choiceExpr{
-																														pos: position{line: 2877, col: 13, offset: 90990},
+																														pos: position{line: 2892, col: 13, offset: 91458},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -10443,9 +10443,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2887, col: 8, offset: 91166},
+																													pos: position{line: 2902, col: 8, offset: 91634},
 																													expr: &anyMatcher{
-																														line: 2887, col: 9, offset: 91167,
+																														line: 2902, col: 9, offset: 91635,
 																													},
 																												},
 																											},
@@ -10464,24 +10464,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2614, col: 22, offset: 83539},
+														pos: position{line: 2629, col: 22, offset: 84007},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2610, col: 19, offset: 83459},
+																pos: position{line: 2625, col: 19, offset: 83927},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2610, col: 19, offset: 83459},
+																		pos:        position{line: 2625, col: 19, offset: 83927},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2610, col: 26, offset: 83466},
+																		pos: position{line: 2625, col: 26, offset: 83934},
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 10, offset: 90818},
+																			pos: position{line: 2883, col: 10, offset: 91286},
 																			run: (*parser).callonDocumentFragment1423,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 10, offset: 90818},
+																				pos:        position{line: 2883, col: 10, offset: 91286},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10490,28 +10490,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2890, col: 8, offset: 91216},
+																		pos: position{line: 2905, col: 8, offset: 91684},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2877, col: 12, offset: 90989},
+																				pos: position{line: 2892, col: 12, offset: 91457},
 																				run: (*parser).callonDocumentFragment1426,
 																				expr: &choiceExpr{
-																					pos: position{line: 2877, col: 13, offset: 90990},
+																					pos: position{line: 2892, col: 13, offset: 91458},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 13, offset: 90990},
+																							pos:        position{line: 2892, col: 13, offset: 91458},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 20, offset: 90997},
+																							pos:        position{line: 2892, col: 20, offset: 91465},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 29, offset: 91006},
+																							pos:        position{line: 2892, col: 29, offset: 91474},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10520,9 +10520,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2887, col: 8, offset: 91166},
+																				pos: position{line: 2902, col: 8, offset: 91634},
 																				expr: &anyMatcher{
-																					line: 2887, col: 9, offset: 91167,
+																					line: 2902, col: 9, offset: 91635,
 																				},
 																			},
 																		},
@@ -10530,9 +10530,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2887, col: 8, offset: 91166},
+																pos: position{line: 2902, col: 8, offset: 91634},
 																expr: &anyMatcher{
-																	line: 2887, col: 9, offset: 91167,
+																	line: 2902, col: 9, offset: 91635,
 																},
 															},
 														},
@@ -10541,36 +10541,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2478, col: 22, offset: 79761},
+											pos: position{line: 2493, col: 22, offset: 80229},
 											run: (*parser).callonDocumentFragment1435,
 											expr: &seqExpr{
-												pos: position{line: 2478, col: 22, offset: 79761},
+												pos: position{line: 2493, col: 22, offset: 80229},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2483, col: 31, offset: 79982},
+														pos:        position{line: 2498, col: 31, offset: 80450},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2483, col: 36, offset: 79987},
+														pos: position{line: 2498, col: 36, offset: 80455},
 														expr: &litMatcher{
-															pos:        position{line: 2483, col: 37, offset: 79988},
+															pos:        position{line: 2498, col: 37, offset: 80456},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2478, col: 49, offset: 79788},
+														pos:   position{line: 2493, col: 49, offset: 80256},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2814, col: 13, offset: 89344},
+															pos: position{line: 2829, col: 13, offset: 89812},
 															run: (*parser).callonDocumentFragment1441,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2814, col: 13, offset: 89344},
+																pos: position{line: 2829, col: 13, offset: 89812},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2814, col: 13, offset: 89344},
+																	pos:        position{line: 2829, col: 13, offset: 89812},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10580,28 +10580,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2890, col: 8, offset: 91216},
+														pos: position{line: 2905, col: 8, offset: 91684},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2877, col: 12, offset: 90989},
+																pos: position{line: 2892, col: 12, offset: 91457},
 																run: (*parser).callonDocumentFragment1445,
 																expr: &choiceExpr{
-																	pos: position{line: 2877, col: 13, offset: 90990},
+																	pos: position{line: 2892, col: 13, offset: 91458},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 13, offset: 90990},
+																			pos:        position{line: 2892, col: 13, offset: 91458},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 20, offset: 90997},
+																			pos:        position{line: 2892, col: 20, offset: 91465},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 29, offset: 91006},
+																			pos:        position{line: 2892, col: 29, offset: 91474},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10610,9 +10610,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2887, col: 8, offset: 91166},
+																pos: position{line: 2902, col: 8, offset: 91634},
 																expr: &anyMatcher{
-																	line: 2887, col: 9, offset: 91167,
+																	line: 2902, col: 9, offset: 91635,
 																},
 															},
 														},
@@ -10621,37 +10621,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1237, col: 5, offset: 38371},
+											pos: position{line: 1244, col: 5, offset: 38614},
 											run: (*parser).callonDocumentFragment1452,
 											expr: &seqExpr{
-												pos: position{line: 1237, col: 5, offset: 38371},
+												pos: position{line: 1244, col: 5, offset: 38614},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1237, col: 5, offset: 38371},
+														pos: position{line: 1244, col: 5, offset: 38614},
 														run: (*parser).callonDocumentFragment1454,
 													},
 													&labeledExpr{
-														pos:   position{line: 1240, col: 5, offset: 38429},
+														pos:   position{line: 1247, col: 5, offset: 38672},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1245, col: 20, offset: 38524},
+															pos: position{line: 1252, col: 20, offset: 38767},
 															run: (*parser).callonDocumentFragment1456,
 															expr: &seqExpr{
-																pos: position{line: 1245, col: 20, offset: 38524},
+																pos: position{line: 1252, col: 20, offset: 38767},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1249, col: 30, offset: 38696},
+																		pos:        position{line: 1256, col: 30, offset: 38939},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1249, col: 36, offset: 38702},
+																		pos: position{line: 1256, col: 36, offset: 38945},
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 10, offset: 90818},
+																			pos: position{line: 2883, col: 10, offset: 91286},
 																			run: (*parser).callonDocumentFragment1460,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 10, offset: 90818},
+																				pos:        position{line: 2883, col: 10, offset: 91286},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10660,28 +10660,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2890, col: 8, offset: 91216},
+																		pos: position{line: 2905, col: 8, offset: 91684},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2877, col: 12, offset: 90989},
+																				pos: position{line: 2892, col: 12, offset: 91457},
 																				run: (*parser).callonDocumentFragment1463,
 																				expr: &choiceExpr{
-																					pos: position{line: 2877, col: 13, offset: 90990},
+																					pos: position{line: 2892, col: 13, offset: 91458},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 13, offset: 90990},
+																							pos:        position{line: 2892, col: 13, offset: 91458},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 20, offset: 90997},
+																							pos:        position{line: 2892, col: 20, offset: 91465},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 29, offset: 91006},
+																							pos:        position{line: 2892, col: 29, offset: 91474},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10690,46 +10690,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2887, col: 8, offset: 91166},
+																				pos: position{line: 2902, col: 8, offset: 91634},
 																				expr: &anyMatcher{
-																					line: 2887, col: 9, offset: 91167,
+																					line: 2902, col: 9, offset: 91635,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1245, col: 45, offset: 38549},
+																		pos:   position{line: 1252, col: 45, offset: 38792},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1245, col: 53, offset: 38557},
+																			pos: position{line: 1252, col: 53, offset: 38800},
 																			expr: &actionExpr{
-																				pos: position{line: 1251, col: 27, offset: 38740},
+																				pos: position{line: 1258, col: 27, offset: 38983},
 																				run: (*parser).callonDocumentFragment1472,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1251, col: 27, offset: 38740},
+																					pos: position{line: 1258, col: 27, offset: 38983},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1251, col: 28, offset: 38741},
+																						pos: position{line: 1258, col: 28, offset: 38984},
 																						expr: &seqExpr{
-																							pos: position{line: 1251, col: 29, offset: 38742},
+																							pos: position{line: 1258, col: 29, offset: 38985},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1251, col: 29, offset: 38742},
+																									pos: position{line: 1258, col: 29, offset: 38985},
 																									expr: &seqExpr{
-																										pos: position{line: 1249, col: 30, offset: 38696},
+																										pos: position{line: 1256, col: 30, offset: 38939},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1249, col: 30, offset: 38696},
+																												pos:        position{line: 1256, col: 30, offset: 38939},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1249, col: 36, offset: 38702},
+																												pos: position{line: 1256, col: 36, offset: 38945},
 																												expr: &actionExpr{
-																													pos: position{line: 2868, col: 10, offset: 90818},
+																													pos: position{line: 2883, col: 10, offset: 91286},
 																													run: (*parser).callonDocumentFragment1480,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2868, col: 10, offset: 90818},
+																														pos:        position{line: 2883, col: 10, offset: 91286},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10738,28 +10738,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2890, col: 8, offset: 91216},
+																												pos: position{line: 2905, col: 8, offset: 91684},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2877, col: 12, offset: 90989},
+																														pos: position{line: 2892, col: 12, offset: 91457},
 																														run: (*parser).callonDocumentFragment1483,
 																														expr: &choiceExpr{
-																															pos: position{line: 2877, col: 13, offset: 90990},
+																															pos: position{line: 2892, col: 13, offset: 91458},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 13, offset: 90990},
+																																	pos:        position{line: 2892, col: 13, offset: 91458},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 20, offset: 90997},
+																																	pos:        position{line: 2892, col: 20, offset: 91465},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 29, offset: 91006},
+																																	pos:        position{line: 2892, col: 29, offset: 91474},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10768,9 +10768,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2887, col: 8, offset: 91166},
+																														pos: position{line: 2902, col: 8, offset: 91634},
 																														expr: &anyMatcher{
-																															line: 2887, col: 9, offset: 91167,
+																															line: 2902, col: 9, offset: 91635,
 																														},
 																													},
 																												},
@@ -10779,7 +10779,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1251, col: 55, offset: 38768,
+																									line: 1258, col: 55, offset: 39011,
 																								},
 																							},
 																						},
@@ -10789,18 +10789,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1249, col: 30, offset: 38696},
+																		pos:        position{line: 1256, col: 30, offset: 38939},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1249, col: 36, offset: 38702},
+																		pos: position{line: 1256, col: 36, offset: 38945},
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 10, offset: 90818},
+																			pos: position{line: 2883, col: 10, offset: 91286},
 																			run: (*parser).callonDocumentFragment1493,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 10, offset: 90818},
+																				pos:        position{line: 2883, col: 10, offset: 91286},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10809,28 +10809,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2890, col: 8, offset: 91216},
+																		pos: position{line: 2905, col: 8, offset: 91684},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2877, col: 12, offset: 90989},
+																				pos: position{line: 2892, col: 12, offset: 91457},
 																				run: (*parser).callonDocumentFragment1496,
 																				expr: &choiceExpr{
-																					pos: position{line: 2877, col: 13, offset: 90990},
+																					pos: position{line: 2892, col: 13, offset: 91458},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 13, offset: 90990},
+																							pos:        position{line: 2892, col: 13, offset: 91458},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 20, offset: 90997},
+																							pos:        position{line: 2892, col: 20, offset: 91465},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 29, offset: 91006},
+																							pos:        position{line: 2892, col: 29, offset: 91474},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10839,9 +10839,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2887, col: 8, offset: 91166},
+																				pos: position{line: 2902, col: 8, offset: 91634},
 																				expr: &anyMatcher{
-																					line: 2887, col: 9, offset: 91167,
+																					line: 2902, col: 9, offset: 91635,
 																				},
 																			},
 																		},
@@ -10891,27 +10891,27 @@ var g = &grammar{
 									pos: position{line: 282, col: 9, offset: 8388},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1213, col: 23, offset: 37477},
+											pos: position{line: 1220, col: 23, offset: 37720},
 											run: (*parser).callonDelimitedBlockElements7,
 											expr: &seqExpr{
-												pos: position{line: 1213, col: 23, offset: 37477},
+												pos: position{line: 1220, col: 23, offset: 37720},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1211, col: 32, offset: 37445},
+														pos:        position{line: 1218, col: 32, offset: 37688},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1213, col: 51, offset: 37505},
+														pos:   position{line: 1220, col: 51, offset: 37748},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1213, col: 56, offset: 37510},
+															pos: position{line: 1220, col: 56, offset: 37753},
 															run: (*parser).callonDelimitedBlockElements11,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1213, col: 56, offset: 37510},
+																pos: position{line: 1220, col: 56, offset: 37753},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1213, col: 56, offset: 37510},
+																	pos:        position{line: 1220, col: 56, offset: 37753},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -10921,7 +10921,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1211, col: 32, offset: 37445},
+														pos:        position{line: 1218, col: 32, offset: 37688},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -10938,9 +10938,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2887, col: 8, offset: 91166},
+							pos: position{line: 2902, col: 8, offset: 91634},
 							expr: &anyMatcher{
-								line: 2887, col: 9, offset: 91167,
+								line: 2902, col: 9, offset: 91635,
 							},
 						},
 					},
@@ -11012,12 +11012,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2872, col: 11, offset: 90879},
+												pos: position{line: 2887, col: 11, offset: 91347},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2872, col: 11, offset: 90879},
+													pos: position{line: 2887, col: 11, offset: 91347},
 													expr: &charClassMatcher{
-														pos:        position{line: 2872, col: 11, offset: 90879},
+														pos:        position{line: 2887, col: 11, offset: 91347},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11039,28 +11039,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2890, col: 8, offset: 91216},
+							pos: position{line: 2905, col: 8, offset: 91684},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2877, col: 12, offset: 90989},
+									pos: position{line: 2892, col: 12, offset: 91457},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2877, col: 13, offset: 90990},
+										pos: position{line: 2892, col: 13, offset: 91458},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2877, col: 13, offset: 90990},
+												pos:        position{line: 2892, col: 13, offset: 91458},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2877, col: 20, offset: 90997},
+												pos:        position{line: 2892, col: 20, offset: 91465},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2877, col: 29, offset: 91006},
+												pos:        position{line: 2892, col: 29, offset: 91474},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -11069,9 +11069,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2887, col: 8, offset: 91166},
+									pos: position{line: 2902, col: 8, offset: 91634},
 									expr: &anyMatcher{
-										line: 2887, col: 9, offset: 91167,
+										line: 2902, col: 9, offset: 91635,
 									},
 								},
 							},
@@ -11115,25 +11115,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2877, col: 12, offset: 90989},
+												pos: position{line: 2892, col: 12, offset: 91457},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2877, col: 13, offset: 90990},
+													pos: position{line: 2892, col: 13, offset: 91458},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2877, col: 13, offset: 90990},
+															pos:        position{line: 2892, col: 13, offset: 91458},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2877, col: 20, offset: 90997},
+															pos:        position{line: 2892, col: 20, offset: 91465},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2877, col: 29, offset: 91006},
+															pos:        position{line: 2892, col: 29, offset: 91474},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -11144,10 +11144,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2868, col: 10, offset: 90818},
+													pos: position{line: 2883, col: 10, offset: 91286},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2868, col: 10, offset: 90818},
+														pos:        position{line: 2883, col: 10, offset: 91286},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11217,10 +11217,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2868, col: 10, offset: 90818},
+											pos: position{line: 2883, col: 10, offset: 91286},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2868, col: 10, offset: 90818},
+												pos:        position{line: 2883, col: 10, offset: 91286},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -11229,28 +11229,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2890, col: 8, offset: 91216},
+										pos: position{line: 2905, col: 8, offset: 91684},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2877, col: 12, offset: 90989},
+												pos: position{line: 2892, col: 12, offset: 91457},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2877, col: 13, offset: 90990},
+													pos: position{line: 2892, col: 13, offset: 91458},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2877, col: 13, offset: 90990},
+															pos:        position{line: 2892, col: 13, offset: 91458},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2877, col: 20, offset: 90997},
+															pos:        position{line: 2892, col: 20, offset: 91465},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2877, col: 29, offset: 91006},
+															pos:        position{line: 2892, col: 29, offset: 91474},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -11259,9 +11259,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2887, col: 8, offset: 91166},
+												pos: position{line: 2902, col: 8, offset: 91634},
 												expr: &anyMatcher{
-													line: 2887, col: 9, offset: 91167,
+													line: 2902, col: 9, offset: 91635,
 												},
 											},
 										},
@@ -11275,17 +11275,34 @@ var g = &grammar{
 							expr: &choiceExpr{
 								pos: position{line: 346, col: 9, offset: 10512},
 								alternatives: []interface{}{
-									&ruleRefExpr{
-										pos:  position{line: 346, col: 9, offset: 10512},
-										name: "InlinePassthrough",
+									&actionExpr{
+										pos: position{line: 346, col: 10, offset: 10513},
+										run: (*parser).callonAttributeDeclarationValueElement20,
+										expr: &seqExpr{
+											pos: position{line: 346, col: 10, offset: 10513},
+											exprs: []interface{}{
+												&labeledExpr{
+													pos:   position{line: 346, col: 10, offset: 10513},
+													label: "element",
+													expr: &ruleRefExpr{
+														pos:  position{line: 346, col: 19, offset: 10522},
+														name: "AttributeDeclarationValueInlinePassthrough",
+													},
+												},
+												&andCodeExpr{
+													pos: position{line: 346, col: 63, offset: 10566},
+													run: (*parser).callonAttributeDeclarationValueElement24,
+												},
+											},
+										},
 									},
 									&actionExpr{
-										pos: position{line: 347, col: 12, offset: 10541},
-										run: (*parser).callonAttributeDeclarationValueElement21,
+										pos: position{line: 349, col: 12, offset: 10654},
+										run: (*parser).callonAttributeDeclarationValueElement25,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 347, col: 12, offset: 10541},
+											pos: position{line: 349, col: 12, offset: 10654},
 											expr: &charClassMatcher{
-												pos:        position{line: 347, col: 12, offset: 10541},
+												pos:        position{line: 349, col: 12, offset: 10654},
 												val:        "[^\\r\\n<>&{ ]",
 												chars:      []rune{'\r', '\n', '<', '>', '&', '{', ' '},
 												ignoreCase: false,
@@ -11294,23 +11311,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2465, col: 5, offset: 79307},
-										run: (*parser).callonAttributeDeclarationValueElement24,
+										pos: position{line: 2480, col: 5, offset: 79775},
+										run: (*parser).callonAttributeDeclarationValueElement28,
 										expr: &seqExpr{
-											pos: position{line: 2465, col: 5, offset: 79307},
+											pos: position{line: 2480, col: 5, offset: 79775},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2465, col: 5, offset: 79307},
-													run: (*parser).callonAttributeDeclarationValueElement26,
+													pos: position{line: 2480, col: 5, offset: 79775},
+													run: (*parser).callonAttributeDeclarationValueElement30,
 												},
 												&labeledExpr{
-													pos:   position{line: 2468, col: 5, offset: 79383},
+													pos:   position{line: 2483, col: 5, offset: 79851},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2469, col: 9, offset: 79401},
-														run: (*parser).callonAttributeDeclarationValueElement28,
+														pos: position{line: 2484, col: 9, offset: 79869},
+														run: (*parser).callonAttributeDeclarationValueElement32,
 														expr: &charClassMatcher{
-															pos:        position{line: 2469, col: 10, offset: 79402},
+															pos:        position{line: 2484, col: 10, offset: 79870},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11322,10 +11339,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2868, col: 10, offset: 90818},
-										run: (*parser).callonAttributeDeclarationValueElement30,
+										pos: position{line: 2883, col: 10, offset: 91286},
+										run: (*parser).callonAttributeDeclarationValueElement34,
 										expr: &charClassMatcher{
-											pos:        position{line: 2868, col: 10, offset: 90818},
+											pos:        position{line: 2883, col: 10, offset: 91286},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11333,39 +11350,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 639, col: 5, offset: 20212},
-										run: (*parser).callonAttributeDeclarationValueElement32,
+										pos: position{line: 646, col: 5, offset: 20455},
+										run: (*parser).callonAttributeDeclarationValueElement36,
 										expr: &seqExpr{
-											pos: position{line: 639, col: 5, offset: 20212},
+											pos: position{line: 646, col: 5, offset: 20455},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 639, col: 5, offset: 20212},
-													run: (*parser).callonAttributeDeclarationValueElement34,
+													pos: position{line: 646, col: 5, offset: 20455},
+													run: (*parser).callonAttributeDeclarationValueElement38,
 												},
 												&labeledExpr{
-													pos:   position{line: 642, col: 5, offset: 20284},
+													pos:   position{line: 649, col: 5, offset: 20527},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 642, col: 14, offset: 20293},
+														pos: position{line: 649, col: 14, offset: 20536},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 648, col: 5, offset: 20422},
-																run: (*parser).callonAttributeDeclarationValueElement37,
+																pos: position{line: 655, col: 5, offset: 20665},
+																run: (*parser).callonAttributeDeclarationValueElement41,
 																expr: &seqExpr{
-																	pos: position{line: 648, col: 5, offset: 20422},
+																	pos: position{line: 655, col: 5, offset: 20665},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 648, col: 5, offset: 20422},
+																			pos:        position{line: 655, col: 5, offset: 20665},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 648, col: 13, offset: 20430},
+																			pos:   position{line: 655, col: 13, offset: 20673},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
-																				run: (*parser).callonAttributeDeclarationValueElement41,
+																				run: (*parser).callonAttributeDeclarationValueElement45,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
 																					exprs: []interface{}{
@@ -11393,7 +11410,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 648, col: 32, offset: 20449},
+																			pos:        position{line: 655, col: 32, offset: 20692},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11402,23 +11419,23 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 655, col: 5, offset: 20690},
-																run: (*parser).callonAttributeDeclarationValueElement47,
+																pos: position{line: 662, col: 5, offset: 20933},
+																run: (*parser).callonAttributeDeclarationValueElement51,
 																expr: &seqExpr{
-																	pos: position{line: 655, col: 5, offset: 20690},
+																	pos: position{line: 662, col: 5, offset: 20933},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 655, col: 5, offset: 20690},
+																			pos:        position{line: 662, col: 5, offset: 20933},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 655, col: 9, offset: 20694},
+																			pos:   position{line: 662, col: 9, offset: 20937},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
-																				run: (*parser).callonAttributeDeclarationValueElement51,
+																				run: (*parser).callonAttributeDeclarationValueElement55,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
 																					exprs: []interface{}{
@@ -11446,7 +11463,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 655, col: 28, offset: 20713},
+																			pos:        position{line: 662, col: 28, offset: 20956},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11455,23 +11472,23 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 661, col: 25, offset: 20894},
-																run: (*parser).callonAttributeDeclarationValueElement57,
+																pos: position{line: 668, col: 25, offset: 21137},
+																run: (*parser).callonAttributeDeclarationValueElement61,
 																expr: &seqExpr{
-																	pos: position{line: 661, col: 25, offset: 20894},
+																	pos: position{line: 668, col: 25, offset: 21137},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 661, col: 25, offset: 20894},
+																			pos:        position{line: 668, col: 25, offset: 21137},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 661, col: 37, offset: 20906},
+																			pos:   position{line: 668, col: 37, offset: 21149},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
-																				run: (*parser).callonAttributeDeclarationValueElement61,
+																				run: (*parser).callonAttributeDeclarationValueElement65,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
 																					exprs: []interface{}{
@@ -11499,33 +11516,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 661, col: 56, offset: 20925},
+																			pos:   position{line: 668, col: 56, offset: 21168},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 661, col: 62, offset: 20931},
+																				pos: position{line: 668, col: 62, offset: 21174},
 																				expr: &actionExpr{
-																					pos: position{line: 669, col: 17, offset: 21226},
-																					run: (*parser).callonAttributeDeclarationValueElement68,
+																					pos: position{line: 676, col: 17, offset: 21469},
+																					run: (*parser).callonAttributeDeclarationValueElement72,
 																					expr: &seqExpr{
-																						pos: position{line: 669, col: 17, offset: 21226},
+																						pos: position{line: 676, col: 17, offset: 21469},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 669, col: 17, offset: 21226},
+																								pos:        position{line: 676, col: 17, offset: 21469},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 669, col: 21, offset: 21230},
+																								pos:   position{line: 676, col: 21, offset: 21473},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 669, col: 28, offset: 21237},
+																									pos: position{line: 676, col: 28, offset: 21480},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 669, col: 28, offset: 21237},
-																											run: (*parser).callonAttributeDeclarationValueElement73,
+																											pos: position{line: 676, col: 28, offset: 21480},
+																											run: (*parser).callonAttributeDeclarationValueElement77,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 669, col: 28, offset: 21237},
+																												pos:        position{line: 676, col: 28, offset: 21480},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11533,12 +11550,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 671, col: 9, offset: 21291},
-																											run: (*parser).callonAttributeDeclarationValueElement75,
+																											pos: position{line: 678, col: 9, offset: 21534},
+																											run: (*parser).callonAttributeDeclarationValueElement79,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 671, col: 9, offset: 21291},
+																												pos: position{line: 678, col: 9, offset: 21534},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 671, col: 9, offset: 21291},
+																													pos:        position{line: 678, col: 9, offset: 21534},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11555,7 +11572,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 661, col: 78, offset: 20947},
+																			pos:        position{line: 668, col: 78, offset: 21190},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11564,23 +11581,23 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 665, col: 25, offset: 21065},
-																run: (*parser).callonAttributeDeclarationValueElement79,
+																pos: position{line: 672, col: 25, offset: 21308},
+																run: (*parser).callonAttributeDeclarationValueElement83,
 																expr: &seqExpr{
-																	pos: position{line: 665, col: 25, offset: 21065},
+																	pos: position{line: 672, col: 25, offset: 21308},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 665, col: 25, offset: 21065},
+																			pos:        position{line: 672, col: 25, offset: 21308},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 38, offset: 21078},
+																			pos:   position{line: 672, col: 38, offset: 21321},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
-																				run: (*parser).callonAttributeDeclarationValueElement83,
+																				run: (*parser).callonAttributeDeclarationValueElement87,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
 																					exprs: []interface{}{
@@ -11608,33 +11625,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 57, offset: 21097},
+																			pos:   position{line: 672, col: 57, offset: 21340},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 665, col: 63, offset: 21103},
+																				pos: position{line: 672, col: 63, offset: 21346},
 																				expr: &actionExpr{
-																					pos: position{line: 669, col: 17, offset: 21226},
-																					run: (*parser).callonAttributeDeclarationValueElement90,
+																					pos: position{line: 676, col: 17, offset: 21469},
+																					run: (*parser).callonAttributeDeclarationValueElement94,
 																					expr: &seqExpr{
-																						pos: position{line: 669, col: 17, offset: 21226},
+																						pos: position{line: 676, col: 17, offset: 21469},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 669, col: 17, offset: 21226},
+																								pos:        position{line: 676, col: 17, offset: 21469},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 669, col: 21, offset: 21230},
+																								pos:   position{line: 676, col: 21, offset: 21473},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 669, col: 28, offset: 21237},
+																									pos: position{line: 676, col: 28, offset: 21480},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 669, col: 28, offset: 21237},
-																											run: (*parser).callonAttributeDeclarationValueElement95,
+																											pos: position{line: 676, col: 28, offset: 21480},
+																											run: (*parser).callonAttributeDeclarationValueElement99,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 669, col: 28, offset: 21237},
+																												pos:        position{line: 676, col: 28, offset: 21480},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11642,12 +11659,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 671, col: 9, offset: 21291},
-																											run: (*parser).callonAttributeDeclarationValueElement97,
+																											pos: position{line: 678, col: 9, offset: 21534},
+																											run: (*parser).callonAttributeDeclarationValueElement101,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 671, col: 9, offset: 21291},
+																												pos: position{line: 678, col: 9, offset: 21534},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 671, col: 9, offset: 21291},
+																													pos:        position{line: 678, col: 9, offset: 21534},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11664,7 +11681,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 665, col: 79, offset: 21119},
+																			pos:        position{line: 672, col: 79, offset: 21362},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11685,62 +11702,78 @@ var g = &grammar{
 				},
 			},
 		},
+		{
+			name: "AttributeDeclarationValueInlinePassthrough",
+			pos:  position{line: 362, col: 1, offset: 11005},
+			expr: &actionExpr{
+				pos: position{line: 363, col: 5, offset: 11056},
+				run: (*parser).callonAttributeDeclarationValueInlinePassthrough1,
+				expr: &labeledExpr{
+					pos:   position{line: 363, col: 5, offset: 11056},
+					label: "element",
+					expr: &ruleRefExpr{
+						pos:  position{line: 363, col: 14, offset: 11065},
+						name: "InlinePassthrough",
+					},
+				},
+			},
+		},
 		{
 			name: "BlockAttributes",
-			pos:  position{line: 369, col: 1, offset: 11360},
+			pos:  position{line: 376, col: 1, offset: 11603},
 			expr: &actionExpr{
-				pos: position{line: 370, col: 5, offset: 11383},
+				pos: position{line: 377, col: 5, offset: 11626},
 				run: (*parser).callonBlockAttributes1,
 				expr: &labeledExpr{
-					pos:   position{line: 370, col: 5, offset: 11383},
+					pos:   position{line: 377, col: 5, offset: 11626},
 					label: "attributes",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 370, col: 16, offset: 11394},
+						pos: position{line: 377, col: 16, offset: 11637},
 						expr: &choiceExpr{
-							pos: position{line: 372, col: 9, offset: 11461},
+							pos: position{line: 379, col: 9, offset: 11704},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 372, col: 10, offset: 11462},
+									pos: position{line: 379, col: 10, offset: 11705},
 									run: (*parser).callonBlockAttributes5,
 									expr: &seqExpr{
-										pos: position{line: 372, col: 10, offset: 11462},
+										pos: position{line: 379, col: 10, offset: 11705},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 372, col: 10, offset: 11462},
+												pos:   position{line: 379, col: 10, offset: 11705},
 												label: "anchor",
 												expr: &actionExpr{
-													pos: position{line: 404, col: 5, offset: 12337},
+													pos: position{line: 411, col: 5, offset: 12580},
 													run: (*parser).callonBlockAttributes8,
 													expr: &seqExpr{
-														pos: position{line: 404, col: 5, offset: 12337},
+														pos: position{line: 411, col: 5, offset: 12580},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 404, col: 5, offset: 12337},
+																pos:        position{line: 411, col: 5, offset: 12580},
 																val:        "[[",
 																ignoreCase: false,
 																want:       "\"[[\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 405, col: 5, offset: 12347},
+																pos:   position{line: 412, col: 5, offset: 12590},
 																label: "id",
 																expr: &actionExpr{
-																	pos: position{line: 406, col: 9, offset: 12360},
+																	pos: position{line: 413, col: 9, offset: 12603},
 																	run: (*parser).callonBlockAttributes12,
 																	expr: &labeledExpr{
-																		pos:   position{line: 406, col: 9, offset: 12360},
+																		pos:   position{line: 413, col: 9, offset: 12603},
 																		label: "elements",
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 406, col: 18, offset: 12369},
+																			pos: position{line: 413, col: 18, offset: 12612},
 																			expr: &choiceExpr{
-																				pos: position{line: 407, col: 13, offset: 12383},
+																				pos: position{line: 414, col: 13, offset: 12626},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 407, col: 14, offset: 12384},
+																						pos: position{line: 414, col: 14, offset: 12627},
 																						run: (*parser).callonBlockAttributes16,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 407, col: 14, offset: 12384},
+																							pos: position{line: 414, col: 14, offset: 12627},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 407, col: 14, offset: 12384},
+																								pos:        position{line: 414, col: 14, offset: 12627},
 																								val:        "[^=\\r\\n�{]]",
 																								chars:      []rune{'=', '\r', '\n', '�', '{', ']'},
 																								ignoreCase: false,
@@ -11749,27 +11782,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1213, col: 23, offset: 37477},
+																						pos: position{line: 1220, col: 23, offset: 37720},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1213, col: 23, offset: 37477},
+																							pos: position{line: 1220, col: 23, offset: 37720},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1211, col: 32, offset: 37445},
+																									pos:        position{line: 1218, col: 32, offset: 37688},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1213, col: 51, offset: 37505},
+																									pos:   position{line: 1220, col: 51, offset: 37748},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1213, col: 56, offset: 37510},
+																										pos: position{line: 1220, col: 56, offset: 37753},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1213, col: 56, offset: 37510},
+																											pos: position{line: 1220, col: 56, offset: 37753},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1213, col: 56, offset: 37510},
+																												pos:        position{line: 1220, col: 56, offset: 37753},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11779,7 +11812,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1211, col: 32, offset: 37445},
+																									pos:        position{line: 1218, col: 32, offset: 37688},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
@@ -11788,35 +11821,35 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 639, col: 5, offset: 20212},
+																						pos: position{line: 646, col: 5, offset: 20455},
 																						run: (*parser).callonBlockAttributes27,
 																						expr: &seqExpr{
-																							pos: position{line: 639, col: 5, offset: 20212},
+																							pos: position{line: 646, col: 5, offset: 20455},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 639, col: 5, offset: 20212},
+																									pos: position{line: 646, col: 5, offset: 20455},
 																									run: (*parser).callonBlockAttributes29,
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 642, col: 5, offset: 20284},
+																									pos:   position{line: 649, col: 5, offset: 20527},
 																									label: "element",
 																									expr: &choiceExpr{
-																										pos: position{line: 642, col: 14, offset: 20293},
+																										pos: position{line: 649, col: 14, offset: 20536},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 648, col: 5, offset: 20422},
+																												pos: position{line: 655, col: 5, offset: 20665},
 																												run: (*parser).callonBlockAttributes32,
 																												expr: &seqExpr{
-																													pos: position{line: 648, col: 5, offset: 20422},
+																													pos: position{line: 655, col: 5, offset: 20665},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 648, col: 5, offset: 20422},
+																															pos:        position{line: 655, col: 5, offset: 20665},
 																															val:        "\\{",
 																															ignoreCase: false,
 																															want:       "\"\\\\{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 648, col: 13, offset: 20430},
+																															pos:   position{line: 655, col: 13, offset: 20673},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
@@ -11848,7 +11881,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 648, col: 32, offset: 20449},
+																															pos:        position{line: 655, col: 32, offset: 20692},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11857,19 +11890,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 655, col: 5, offset: 20690},
+																												pos: position{line: 662, col: 5, offset: 20933},
 																												run: (*parser).callonBlockAttributes42,
 																												expr: &seqExpr{
-																													pos: position{line: 655, col: 5, offset: 20690},
+																													pos: position{line: 662, col: 5, offset: 20933},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 655, col: 5, offset: 20690},
+																															pos:        position{line: 662, col: 5, offset: 20933},
 																															val:        "{",
 																															ignoreCase: false,
 																															want:       "\"{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 655, col: 9, offset: 20694},
+																															pos:   position{line: 662, col: 9, offset: 20937},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
@@ -11901,7 +11934,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 655, col: 28, offset: 20713},
+																															pos:        position{line: 662, col: 28, offset: 20956},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -11910,19 +11943,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 661, col: 25, offset: 20894},
+																												pos: position{line: 668, col: 25, offset: 21137},
 																												run: (*parser).callonBlockAttributes52,
 																												expr: &seqExpr{
-																													pos: position{line: 661, col: 25, offset: 20894},
+																													pos: position{line: 668, col: 25, offset: 21137},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 661, col: 25, offset: 20894},
+																															pos:        position{line: 668, col: 25, offset: 21137},
 																															val:        "{counter:",
 																															ignoreCase: false,
 																															want:       "\"{counter:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 661, col: 37, offset: 20906},
+																															pos:   position{line: 668, col: 37, offset: 21149},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
@@ -11954,33 +11987,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 661, col: 56, offset: 20925},
+																															pos:   position{line: 668, col: 56, offset: 21168},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 661, col: 62, offset: 20931},
+																																pos: position{line: 668, col: 62, offset: 21174},
 																																expr: &actionExpr{
-																																	pos: position{line: 669, col: 17, offset: 21226},
+																																	pos: position{line: 676, col: 17, offset: 21469},
 																																	run: (*parser).callonBlockAttributes63,
 																																	expr: &seqExpr{
-																																		pos: position{line: 669, col: 17, offset: 21226},
+																																		pos: position{line: 676, col: 17, offset: 21469},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 669, col: 17, offset: 21226},
+																																				pos:        position{line: 676, col: 17, offset: 21469},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 669, col: 21, offset: 21230},
+																																				pos:   position{line: 676, col: 21, offset: 21473},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 669, col: 28, offset: 21237},
+																																					pos: position{line: 676, col: 28, offset: 21480},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 669, col: 28, offset: 21237},
+																																							pos: position{line: 676, col: 28, offset: 21480},
 																																							run: (*parser).callonBlockAttributes68,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 669, col: 28, offset: 21237},
+																																								pos:        position{line: 676, col: 28, offset: 21480},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -11988,12 +12021,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 671, col: 9, offset: 21291},
+																																							pos: position{line: 678, col: 9, offset: 21534},
 																																							run: (*parser).callonBlockAttributes70,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 671, col: 9, offset: 21291},
+																																								pos: position{line: 678, col: 9, offset: 21534},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 671, col: 9, offset: 21291},
+																																									pos:        position{line: 678, col: 9, offset: 21534},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -12010,7 +12043,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 661, col: 78, offset: 20947},
+																															pos:        position{line: 668, col: 78, offset: 21190},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -12019,19 +12052,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 665, col: 25, offset: 21065},
+																												pos: position{line: 672, col: 25, offset: 21308},
 																												run: (*parser).callonBlockAttributes74,
 																												expr: &seqExpr{
-																													pos: position{line: 665, col: 25, offset: 21065},
+																													pos: position{line: 672, col: 25, offset: 21308},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 665, col: 25, offset: 21065},
+																															pos:        position{line: 672, col: 25, offset: 21308},
 																															val:        "{counter2:",
 																															ignoreCase: false,
 																															want:       "\"{counter2:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 665, col: 38, offset: 21078},
+																															pos:   position{line: 672, col: 38, offset: 21321},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
@@ -12063,33 +12096,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 665, col: 57, offset: 21097},
+																															pos:   position{line: 672, col: 57, offset: 21340},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 665, col: 63, offset: 21103},
+																																pos: position{line: 672, col: 63, offset: 21346},
 																																expr: &actionExpr{
-																																	pos: position{line: 669, col: 17, offset: 21226},
+																																	pos: position{line: 676, col: 17, offset: 21469},
 																																	run: (*parser).callonBlockAttributes85,
 																																	expr: &seqExpr{
-																																		pos: position{line: 669, col: 17, offset: 21226},
+																																		pos: position{line: 676, col: 17, offset: 21469},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 669, col: 17, offset: 21226},
+																																				pos:        position{line: 676, col: 17, offset: 21469},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 669, col: 21, offset: 21230},
+																																				pos:   position{line: 676, col: 21, offset: 21473},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 669, col: 28, offset: 21237},
+																																					pos: position{line: 676, col: 28, offset: 21480},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 669, col: 28, offset: 21237},
+																																							pos: position{line: 676, col: 28, offset: 21480},
 																																							run: (*parser).callonBlockAttributes90,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 669, col: 28, offset: 21237},
+																																								pos:        position{line: 676, col: 28, offset: 21480},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -12097,12 +12130,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 671, col: 9, offset: 21291},
+																																							pos: position{line: 678, col: 9, offset: 21534},
 																																							run: (*parser).callonBlockAttributes92,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 671, col: 9, offset: 21291},
+																																								pos: position{line: 678, col: 9, offset: 21534},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 671, col: 9, offset: 21291},
+																																									pos:        position{line: 678, col: 9, offset: 21534},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -12119,7 +12152,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 665, col: 79, offset: 21119},
+																															pos:        position{line: 672, col: 79, offset: 21362},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -12134,10 +12167,10 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 412, col: 16, offset: 12617},
+																						pos: position{line: 419, col: 16, offset: 12860},
 																						run: (*parser).callonBlockAttributes96,
 																						expr: &litMatcher{
-																							pos:        position{line: 412, col: 16, offset: 12617},
+																							pos:        position{line: 419, col: 16, offset: 12860},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
@@ -12150,7 +12183,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 418, col: 5, offset: 12803},
+																pos:        position{line: 425, col: 5, offset: 13046},
 																val:        "]]",
 																ignoreCase: false,
 																want:       "\"]]\"",
@@ -12160,12 +12193,12 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 372, col: 35, offset: 11487},
+												pos: position{line: 379, col: 35, offset: 11730},
 												expr: &actionExpr{
-													pos: position{line: 2868, col: 10, offset: 90818},
+													pos: position{line: 2883, col: 10, offset: 91286},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2868, col: 10, offset: 90818},
+														pos:        position{line: 2883, col: 10, offset: 91286},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12174,28 +12207,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2890, col: 8, offset: 91216},
+												pos: position{line: 2905, col: 8, offset: 91684},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2877, col: 12, offset: 90989},
+														pos: position{line: 2892, col: 12, offset: 91457},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2877, col: 13, offset: 90990},
+															pos: position{line: 2892, col: 13, offset: 91458},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2877, col: 13, offset: 90990},
+																	pos:        position{line: 2892, col: 13, offset: 91458},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2877, col: 20, offset: 90997},
+																	pos:        position{line: 2892, col: 20, offset: 91465},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2877, col: 29, offset: 91006},
+																	pos:        position{line: 2892, col: 29, offset: 91474},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12204,34 +12237,34 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2887, col: 8, offset: 91166},
+														pos: position{line: 2902, col: 8, offset: 91634},
 														expr: &anyMatcher{
-															line: 2887, col: 9, offset: 91167,
+															line: 2902, col: 9, offset: 91635,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 372, col: 46, offset: 11498},
+												pos: position{line: 379, col: 46, offset: 11741},
 												expr: &actionExpr{
-													pos: position{line: 680, col: 14, offset: 21592},
+													pos: position{line: 687, col: 14, offset: 21835},
 													run: (*parser).callonBlockAttributes111,
 													expr: &seqExpr{
-														pos: position{line: 680, col: 14, offset: 21592},
+														pos: position{line: 687, col: 14, offset: 21835},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2885, col: 11, offset: 91152},
+																pos: position{line: 2900, col: 11, offset: 91620},
 																expr: &anyMatcher{
-																	line: 2885, col: 13, offset: 91154,
+																	line: 2900, col: 13, offset: 91622,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 680, col: 21, offset: 21599},
+																pos: position{line: 687, col: 21, offset: 21842},
 																expr: &actionExpr{
-																	pos: position{line: 2868, col: 10, offset: 90818},
+																	pos: position{line: 2883, col: 10, offset: 91286},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2868, col: 10, offset: 90818},
+																		pos:        position{line: 2883, col: 10, offset: 91286},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12240,28 +12273,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2890, col: 8, offset: 91216},
+																pos: position{line: 2905, col: 8, offset: 91684},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2877, col: 12, offset: 90989},
+																		pos: position{line: 2892, col: 12, offset: 91457},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2877, col: 13, offset: 90990},
+																			pos: position{line: 2892, col: 13, offset: 91458},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2877, col: 13, offset: 90990},
+																					pos:        position{line: 2892, col: 13, offset: 91458},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2877, col: 20, offset: 90997},
+																					pos:        position{line: 2892, col: 20, offset: 91465},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2877, col: 29, offset: 91006},
+																					pos:        position{line: 2892, col: 29, offset: 91474},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12270,9 +12303,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2887, col: 8, offset: 91166},
+																		pos: position{line: 2902, col: 8, offset: 91634},
 																		expr: &anyMatcher{
-																			line: 2887, col: 9, offset: 91167,
+																			line: 2902, col: 9, offset: 91635,
 																		},
 																	},
 																},
@@ -12285,30 +12318,30 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 376, col: 12, offset: 11619},
+									pos: position{line: 383, col: 12, offset: 11862},
 									run: (*parser).callonBlockAttributes126,
 									expr: &seqExpr{
-										pos: position{line: 376, col: 12, offset: 11619},
+										pos: position{line: 383, col: 12, offset: 11862},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 376, col: 12, offset: 11619},
+												pos:   position{line: 383, col: 12, offset: 11862},
 												label: "title",
 												expr: &actionExpr{
-													pos: position{line: 423, col: 19, offset: 12922},
+													pos: position{line: 430, col: 19, offset: 13165},
 													run: (*parser).callonBlockAttributes129,
 													expr: &seqExpr{
-														pos: position{line: 423, col: 19, offset: 12922},
+														pos: position{line: 430, col: 19, offset: 13165},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 423, col: 19, offset: 12922},
+																pos:        position{line: 430, col: 19, offset: 13165},
 																val:        ".",
 																ignoreCase: false,
 																want:       "\".\"",
 															},
 															&notExpr{
-																pos: position{line: 424, col: 5, offset: 12931},
+																pos: position{line: 431, col: 5, offset: 13174},
 																expr: &charClassMatcher{
-																	pos:        position{line: 424, col: 6, offset: 12932},
+																	pos:        position{line: 431, col: 6, offset: 13175},
 																	val:        "[. ]",
 																	chars:      []rune{'.', ' '},
 																	ignoreCase: false,
@@ -12316,20 +12349,20 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 425, col: 5, offset: 13044},
+																pos:   position{line: 432, col: 5, offset: 13287},
 																label: "elements",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 425, col: 14, offset: 13053},
+																	pos: position{line: 432, col: 14, offset: 13296},
 																	expr: &choiceExpr{
-																		pos: position{line: 426, col: 9, offset: 13063},
+																		pos: position{line: 433, col: 9, offset: 13306},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2762, col: 14, offset: 87987},
+																				pos: position{line: 2777, col: 14, offset: 88455},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2762, col: 14, offset: 87987},
+																					pos: position{line: 2777, col: 14, offset: 88455},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2762, col: 14, offset: 87987},
+																						pos:        position{line: 2777, col: 14, offset: 88455},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12338,10 +12371,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2868, col: 10, offset: 90818},
+																				pos: position{line: 2883, col: 10, offset: 91286},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 10, offset: 90818},
+																					pos:        position{line: 2883, col: 10, offset: 91286},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12349,27 +12382,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2785, col: 5, offset: 88472},
+																				pos: position{line: 2800, col: 5, offset: 88940},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2786, col: 9, offset: 88482},
+																					pos: position{line: 2801, col: 9, offset: 88950},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2786, col: 10, offset: 88483},
+																							pos:        position{line: 2801, col: 10, offset: 88951},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2788, col: 13, offset: 88580},
+																							pos: position{line: 2803, col: 13, offset: 89048},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2788, col: 13, offset: 88580},
+																									pos: position{line: 2803, col: 13, offset: 89048},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2791, col: 13, offset: 88680},
+																									pos:        position{line: 2806, col: 13, offset: 89148},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12377,20 +12410,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2791, col: 19, offset: 88686},
+																							pos:        position{line: 2806, col: 19, offset: 89154},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2794, col: 13, offset: 88724},
+																							pos: position{line: 2809, col: 13, offset: 89192},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2794, col: 13, offset: 88724},
+																									pos: position{line: 2809, col: 13, offset: 89192},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2797, col: 14, offset: 88817},
+																									pos:        position{line: 2812, col: 14, offset: 89285},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12399,18 +12432,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2799, col: 12, offset: 88861},
+																							pos: position{line: 2814, col: 12, offset: 89329},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2799, col: 12, offset: 88861},
+																									pos:        position{line: 2814, col: 12, offset: 89329},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2799, col: 16, offset: 88865},
+																									pos: position{line: 2814, col: 16, offset: 89333},
 																									expr: &litMatcher{
-																										pos:        position{line: 2799, col: 17, offset: 88866},
+																										pos:        position{line: 2814, col: 17, offset: 89334},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12422,19 +12455,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 648, col: 5, offset: 20422},
+																				pos: position{line: 655, col: 5, offset: 20665},
 																				run: (*parser).callonBlockAttributes156,
 																				expr: &seqExpr{
-																					pos: position{line: 648, col: 5, offset: 20422},
+																					pos: position{line: 655, col: 5, offset: 20665},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 648, col: 5, offset: 20422},
+																							pos:        position{line: 655, col: 5, offset: 20665},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 648, col: 13, offset: 20430},
+																							pos:   position{line: 655, col: 13, offset: 20673},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -12466,7 +12499,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 648, col: 32, offset: 20449},
+																							pos:        position{line: 655, col: 32, offset: 20692},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12475,19 +12508,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 655, col: 5, offset: 20690},
+																				pos: position{line: 662, col: 5, offset: 20933},
 																				run: (*parser).callonBlockAttributes166,
 																				expr: &seqExpr{
-																					pos: position{line: 655, col: 5, offset: 20690},
+																					pos: position{line: 662, col: 5, offset: 20933},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 655, col: 5, offset: 20690},
+																							pos:        position{line: 662, col: 5, offset: 20933},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 655, col: 9, offset: 20694},
+																							pos:   position{line: 662, col: 9, offset: 20937},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -12519,7 +12552,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 655, col: 28, offset: 20713},
+																							pos:        position{line: 662, col: 28, offset: 20956},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12528,10 +12561,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2807, col: 12, offset: 89126},
+																				pos: position{line: 2822, col: 12, offset: 89594},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2807, col: 12, offset: 89126},
+																					pos:        position{line: 2822, col: 12, offset: 89594},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12547,12 +12580,12 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 376, col: 35, offset: 11642},
+												pos: position{line: 383, col: 35, offset: 11885},
 												expr: &actionExpr{
-													pos: position{line: 2868, col: 10, offset: 90818},
+													pos: position{line: 2883, col: 10, offset: 91286},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2868, col: 10, offset: 90818},
+														pos:        position{line: 2883, col: 10, offset: 91286},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12561,28 +12594,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2890, col: 8, offset: 91216},
+												pos: position{line: 2905, col: 8, offset: 91684},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2877, col: 12, offset: 90989},
+														pos: position{line: 2892, col: 12, offset: 91457},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2877, col: 13, offset: 90990},
+															pos: position{line: 2892, col: 13, offset: 91458},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2877, col: 13, offset: 90990},
+																	pos:        position{line: 2892, col: 13, offset: 91458},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2877, col: 20, offset: 90997},
+																	pos:        position{line: 2892, col: 20, offset: 91465},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2877, col: 29, offset: 91006},
+																	pos:        position{line: 2892, col: 29, offset: 91474},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12591,34 +12624,34 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2887, col: 8, offset: 91166},
+														pos: position{line: 2902, col: 8, offset: 91634},
 														expr: &anyMatcher{
-															line: 2887, col: 9, offset: 91167,
+															line: 2902, col: 9, offset: 91635,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 376, col: 46, offset: 11653},
+												pos: position{line: 383, col: 46, offset: 11896},
 												expr: &actionExpr{
-													pos: position{line: 680, col: 14, offset: 21592},
+													pos: position{line: 687, col: 14, offset: 21835},
 													run: (*parser).callonBlockAttributes190,
 													expr: &seqExpr{
-														pos: position{line: 680, col: 14, offset: 21592},
+														pos: position{line: 687, col: 14, offset: 21835},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2885, col: 11, offset: 91152},
+																pos: position{line: 2900, col: 11, offset: 91620},
 																expr: &anyMatcher{
-																	line: 2885, col: 13, offset: 91154,
+																	line: 2900, col: 13, offset: 91622,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 680, col: 21, offset: 21599},
+																pos: position{line: 687, col: 21, offset: 21842},
 																expr: &actionExpr{
-																	pos: position{line: 2868, col: 10, offset: 90818},
+																	pos: position{line: 2883, col: 10, offset: 91286},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2868, col: 10, offset: 90818},
+																		pos:        position{line: 2883, col: 10, offset: 91286},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12627,28 +12660,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2890, col: 8, offset: 91216},
+																pos: position{line: 2905, col: 8, offset: 91684},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2877, col: 12, offset: 90989},
+																		pos: position{line: 2892, col: 12, offset: 91457},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2877, col: 13, offset: 90990},
+																			pos: position{line: 2892, col: 13, offset: 91458},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2877, col: 13, offset: 90990},
+																					pos:        position{line: 2892, col: 13, offset: 91458},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2877, col: 20, offset: 90997},
+																					pos:        position{line: 2892, col: 20, offset: 91465},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2877, col: 29, offset: 91006},
+																					pos:        position{line: 2892, col: 29, offset: 91474},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12657,9 +12690,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2887, col: 8, offset: 91166},
+																		pos: position{line: 2902, col: 8, offset: 91634},
 																		expr: &anyMatcher{
-																			line: 2887, col: 9, offset: 91167,
+																			line: 2902, col: 9, offset: 91635,
 																		},
 																	},
 																},
@@ -12672,26 +12705,26 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 380, col: 12, offset: 11743},
+									pos: position{line: 387, col: 12, offset: 11986},
 									run: (*parser).callonBlockAttributes205,
 									expr: &seqExpr{
-										pos: position{line: 380, col: 12, offset: 11743},
+										pos: position{line: 387, col: 12, offset: 11986},
 										exprs: []interface{}{
 											&labeledExpr{
-												pos:   position{line: 380, col: 12, offset: 11743},
+												pos:   position{line: 387, col: 12, offset: 11986},
 												label: "attributes",
 												expr: &ruleRefExpr{
-													pos:  position{line: 380, col: 24, offset: 11755},
+													pos:  position{line: 387, col: 24, offset: 11998},
 													name: "LongHandAttributes",
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 380, col: 44, offset: 11775},
+												pos: position{line: 387, col: 44, offset: 12018},
 												expr: &actionExpr{
-													pos: position{line: 2868, col: 10, offset: 90818},
+													pos: position{line: 2883, col: 10, offset: 91286},
 													run: (*parser).callonBlockAttributes210,
 													expr: &charClassMatcher{
-														pos:        position{line: 2868, col: 10, offset: 90818},
+														pos:        position{line: 2883, col: 10, offset: 91286},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12700,28 +12733,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2890, col: 8, offset: 91216},
+												pos: position{line: 2905, col: 8, offset: 91684},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2877, col: 12, offset: 90989},
+														pos: position{line: 2892, col: 12, offset: 91457},
 														run: (*parser).callonBlockAttributes213,
 														expr: &choiceExpr{
-															pos: position{line: 2877, col: 13, offset: 90990},
+															pos: position{line: 2892, col: 13, offset: 91458},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2877, col: 13, offset: 90990},
+																	pos:        position{line: 2892, col: 13, offset: 91458},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2877, col: 20, offset: 90997},
+																	pos:        position{line: 2892, col: 20, offset: 91465},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2877, col: 29, offset: 91006},
+																	pos:        position{line: 2892, col: 29, offset: 91474},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12730,34 +12763,34 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2887, col: 8, offset: 91166},
+														pos: position{line: 2902, col: 8, offset: 91634},
 														expr: &anyMatcher{
-															line: 2887, col: 9, offset: 91167,
+															line: 2902, col: 9, offset: 91635,
 														},
 													},
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 380, col: 55, offset: 11786},
+												pos: position{line: 387, col: 55, offset: 12029},
 												expr: &actionExpr{
-													pos: position{line: 680, col: 14, offset: 21592},
+													pos: position{line: 687, col: 14, offset: 21835},
 													run: (*parser).callonBlockAttributes221,
 													expr: &seqExpr{
-														pos: position{line: 680, col: 14, offset: 21592},
+														pos: position{line: 687, col: 14, offset: 21835},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2885, col: 11, offset: 91152},
+																pos: position{line: 2900, col: 11, offset: 91620},
 																expr: &anyMatcher{
-																	line: 2885, col: 13, offset: 91154,
+																	line: 2900, col: 13, offset: 91622,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 680, col: 21, offset: 21599},
+																pos: position{line: 687, col: 21, offset: 21842},
 																expr: &actionExpr{
-																	pos: position{line: 2868, col: 10, offset: 90818},
+																	pos: position{line: 2883, col: 10, offset: 91286},
 																	run: (*parser).callonBlockAttributes226,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2868, col: 10, offset: 90818},
+																		pos:        position{line: 2883, col: 10, offset: 91286},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12766,28 +12799,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2890, col: 8, offset: 91216},
+																pos: position{line: 2905, col: 8, offset: 91684},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2877, col: 12, offset: 90989},
+																		pos: position{line: 2892, col: 12, offset: 91457},
 																		run: (*parser).callonBlockAttributes229,
 																		expr: &choiceExpr{
-																			pos: position{line: 2877, col: 13, offset: 90990},
+																			pos: position{line: 2892, col: 13, offset: 91458},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2877, col: 13, offset: 90990},
+																					pos:        position{line: 2892, col: 13, offset: 91458},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2877, col: 20, offset: 90997},
+																					pos:        position{line: 2892, col: 20, offset: 91465},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2877, col: 29, offset: 91006},
+																					pos:        position{line: 2892, col: 29, offset: 91474},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12796,9 +12829,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2887, col: 8, offset: 91166},
+																		pos: position{line: 2902, col: 8, offset: 91634},
 																		expr: &anyMatcher{
-																			line: 2887, col: 9, offset: 91167,
+																			line: 2902, col: 9, offset: 91635,
 																		},
 																	},
 																},
@@ -12818,51 +12851,51 @@ var g = &grammar{
 		},
 		{
 			name: "InlineAttributes",
-			pos:  position{line: 388, col: 1, offset: 11970},
+			pos:  position{line: 395, col: 1, offset: 12213},
 			expr: &actionExpr{
-				pos: position{line: 389, col: 5, offset: 11994},
+				pos: position{line: 396, col: 5, offset: 12237},
 				run: (*parser).callonInlineAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 389, col: 5, offset: 11994},
+					pos: position{line: 396, col: 5, offset: 12237},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 389, col: 5, offset: 11994},
+							pos:        position{line: 396, col: 5, offset: 12237},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 390, col: 5, offset: 12002},
+							pos:   position{line: 397, col: 5, offset: 12245},
 							label: "attributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 390, col: 16, offset: 12013},
+								pos: position{line: 397, col: 16, offset: 12256},
 								expr: &actionExpr{
-									pos: position{line: 391, col: 9, offset: 12023},
+									pos: position{line: 398, col: 9, offset: 12266},
 									run: (*parser).callonInlineAttributes6,
 									expr: &seqExpr{
-										pos: position{line: 392, col: 13, offset: 12037},
+										pos: position{line: 399, col: 13, offset: 12280},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 392, col: 13, offset: 12037},
+												pos: position{line: 399, col: 13, offset: 12280},
 												expr: &litMatcher{
-													pos:        position{line: 392, col: 14, offset: 12038},
+													pos:        position{line: 399, col: 14, offset: 12281},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 393, col: 13, offset: 12070},
+												pos:   position{line: 400, col: 13, offset: 12313},
 												label: "attribute",
 												expr: &choiceExpr{
-													pos: position{line: 393, col: 24, offset: 12081},
+													pos: position{line: 400, col: 24, offset: 12324},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 393, col: 24, offset: 12081},
+															pos:  position{line: 400, col: 24, offset: 12324},
 															name: "PositionalAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 393, col: 46, offset: 12103},
+															pos:  position{line: 400, col: 46, offset: 12346},
 															name: "NamedAttribute",
 														},
 													},
@@ -12874,7 +12907,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 398, col: 5, offset: 12186},
+							pos:        position{line: 405, col: 5, offset: 12429},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -12885,62 +12918,62 @@ var g = &grammar{
 		},
 		{
 			name: "LongHandAttributes",
-			pos:  position{line: 437, col: 1, offset: 13444},
+			pos:  position{line: 444, col: 1, offset: 13687},
 			expr: &actionExpr{
-				pos: position{line: 438, col: 5, offset: 13470},
+				pos: position{line: 445, col: 5, offset: 13713},
 				run: (*parser).callonLongHandAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 438, col: 5, offset: 13470},
+					pos: position{line: 445, col: 5, offset: 13713},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 438, col: 5, offset: 13470},
+							pos: position{line: 445, col: 5, offset: 13713},
 							expr: &litMatcher{
-								pos:        position{line: 438, col: 6, offset: 13471},
+								pos:        position{line: 445, col: 6, offset: 13714},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 438, col: 10, offset: 13475},
+							pos:        position{line: 445, col: 10, offset: 13718},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&notExpr{
-							pos: position{line: 438, col: 14, offset: 13479},
+							pos: position{line: 445, col: 14, offset: 13722},
 							expr: &litMatcher{
-								pos:        position{line: 438, col: 15, offset: 13480},
+								pos:        position{line: 445, col: 15, offset: 13723},
 								val:        "[",
 								ignoreCase: false,
 								want:       "\"[\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 439, col: 5, offset: 13593},
+							pos:   position{line: 446, col: 5, offset: 13836},
 							label: "firstPositionalAttributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 439, col: 31, offset: 13619},
+								pos: position{line: 446, col: 31, offset: 13862},
 								expr: &ruleRefExpr{
-									pos:  position{line: 439, col: 32, offset: 13620},
+									pos:  position{line: 446, col: 32, offset: 13863},
 									name: "FirstPositionalAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 440, col: 5, offset: 13652},
+							pos:   position{line: 447, col: 5, offset: 13895},
 							label: "otherAttributes",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 440, col: 21, offset: 13668},
+								pos: position{line: 447, col: 21, offset: 13911},
 								expr: &choiceExpr{
-									pos: position{line: 440, col: 22, offset: 13669},
+									pos: position{line: 447, col: 22, offset: 13912},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 440, col: 22, offset: 13669},
+											pos:  position{line: 447, col: 22, offset: 13912},
 											name: "PositionalAttribute",
 										},
 										&ruleRefExpr{
-											pos:  position{line: 440, col: 44, offset: 13691},
+											pos:  position{line: 447, col: 44, offset: 13934},
 											name: "NamedAttribute",
 										},
 									},
@@ -12948,7 +12981,7 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 441, col: 5, offset: 13712},
+							pos:        position{line: 448, col: 5, offset: 13955},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -12959,69 +12992,69 @@ var g = &grammar{
 		},
 		{
 			name: "FirstPositionalAttributes",
-			pos:  position{line: 454, col: 1, offset: 14240},
+			pos:  position{line: 461, col: 1, offset: 14483},
 			expr: &actionExpr{
-				pos: position{line: 455, col: 5, offset: 14274},
+				pos: position{line: 462, col: 5, offset: 14517},
 				run: (*parser).callonFirstPositionalAttributes1,
 				expr: &seqExpr{
-					pos: position{line: 455, col: 5, offset: 14274},
+					pos: position{line: 462, col: 5, offset: 14517},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 455, col: 5, offset: 14274},
+							pos:   position{line: 462, col: 5, offset: 14517},
 							label: "main",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 455, col: 10, offset: 14279},
+								pos: position{line: 462, col: 10, offset: 14522},
 								expr: &ruleRefExpr{
-									pos:  position{line: 456, col: 9, offset: 14289},
+									pos:  position{line: 463, col: 9, offset: 14532},
 									name: "ShortHandAttribute",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 458, col: 5, offset: 14319},
+							pos:   position{line: 465, col: 5, offset: 14562},
 							label: "extras",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 458, col: 12, offset: 14326},
+								pos: position{line: 465, col: 12, offset: 14569},
 								expr: &actionExpr{
-									pos: position{line: 459, col: 9, offset: 14337},
+									pos: position{line: 466, col: 9, offset: 14580},
 									run: (*parser).callonFirstPositionalAttributes8,
 									expr: &seqExpr{
-										pos: position{line: 459, col: 9, offset: 14337},
+										pos: position{line: 466, col: 9, offset: 14580},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 459, col: 9, offset: 14337},
+												pos: position{line: 466, col: 9, offset: 14580},
 												expr: &litMatcher{
-													pos:        position{line: 459, col: 10, offset: 14338},
+													pos:        position{line: 466, col: 10, offset: 14581},
 													val:        ",",
 													ignoreCase: false,
 													want:       "\",\"",
 												},
 											},
 											&notExpr{
-												pos: position{line: 459, col: 14, offset: 14342},
+												pos: position{line: 466, col: 14, offset: 14585},
 												expr: &litMatcher{
-													pos:        position{line: 459, col: 15, offset: 14343},
+													pos:        position{line: 466, col: 15, offset: 14586},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 460, col: 9, offset: 14355},
+												pos:   position{line: 467, col: 9, offset: 14598},
 												label: "extra",
 												expr: &choiceExpr{
-													pos: position{line: 461, col: 13, offset: 14375},
+													pos: position{line: 468, col: 13, offset: 14618},
 													alternatives: []interface{}{
 														&ruleRefExpr{
-															pos:  position{line: 461, col: 13, offset: 14375},
+															pos:  position{line: 468, col: 13, offset: 14618},
 															name: "ShortHandIDAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 462, col: 15, offset: 14411},
+															pos:  position{line: 469, col: 15, offset: 14654},
 															name: "ShortHandOptionAttribute",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 463, col: 15, offset: 14450},
+															pos:  position{line: 470, col: 15, offset: 14693},
 															name: "ShortHandDotRoleAttribute",
 														},
 													},
@@ -13033,23 +13066,23 @@ var g = &grammar{
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 466, col: 8, offset: 14526},
+							pos: position{line: 473, col: 8, offset: 14769},
 							expr: &seqExpr{
-								pos: position{line: 466, col: 9, offset: 14527},
+								pos: position{line: 473, col: 9, offset: 14770},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 466, col: 9, offset: 14527},
+										pos:        position{line: 473, col: 9, offset: 14770},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 466, col: 13, offset: 14531},
+										pos: position{line: 473, col: 13, offset: 14774},
 										expr: &actionExpr{
-											pos: position{line: 2868, col: 10, offset: 90818},
+											pos: position{line: 2883, col: 10, offset: 91286},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2868, col: 10, offset: 90818},
+												pos:        position{line: 2883, col: 10, offset: 91286},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13061,7 +13094,7 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 467, col: 5, offset: 14545},
+							pos: position{line: 474, col: 5, offset: 14788},
 							run: (*parser).callonFirstPositionalAttributes25,
 						},
 					},
@@ -13070,24 +13103,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandIDAttribute",
-			pos:  position{line: 483, col: 1, offset: 14961},
+			pos:  position{line: 490, col: 1, offset: 15204},
 			expr: &actionExpr{
-				pos: position{line: 483, col: 25, offset: 14985},
+				pos: position{line: 490, col: 25, offset: 15228},
 				run: (*parser).callonShortHandIDAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 483, col: 25, offset: 14985},
+					pos: position{line: 490, col: 25, offset: 15228},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 483, col: 25, offset: 14985},
+							pos:        position{line: 490, col: 25, offset: 15228},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 483, col: 29, offset: 14989},
+							pos:   position{line: 490, col: 29, offset: 15232},
 							label: "id",
 							expr: &ruleRefExpr{
-								pos:  position{line: 483, col: 33, offset: 14993},
+								pos:  position{line: 490, col: 33, offset: 15236},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -13097,15 +13130,15 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttribute",
-			pos:  position{line: 487, col: 1, offset: 15067},
+			pos:  position{line: 494, col: 1, offset: 15310},
 			expr: &actionExpr{
-				pos: position{line: 487, col: 23, offset: 15089},
+				pos: position{line: 494, col: 23, offset: 15332},
 				run: (*parser).callonShortHandAttribute1,
 				expr: &labeledExpr{
-					pos:   position{line: 487, col: 23, offset: 15089},
+					pos:   position{line: 494, col: 23, offset: 15332},
 					label: "value",
 					expr: &ruleRefExpr{
-						pos:  position{line: 487, col: 30, offset: 15096},
+						pos:  position{line: 494, col: 30, offset: 15339},
 						name: "ShortHandAttributeValue",
 					},
 				},
@@ -13113,24 +13146,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandDotRoleAttribute",
-			pos:  position{line: 492, col: 1, offset: 15222},
+			pos:  position{line: 499, col: 1, offset: 15465},
 			expr: &actionExpr{
-				pos: position{line: 492, col: 30, offset: 15251},
+				pos: position{line: 499, col: 30, offset: 15494},
 				run: (*parser).callonShortHandDotRoleAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 492, col: 30, offset: 15251},
+					pos: position{line: 499, col: 30, offset: 15494},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 492, col: 30, offset: 15251},
+							pos:        position{line: 499, col: 30, offset: 15494},
 							val:        ".",
 							ignoreCase: false,
 							want:       "\".\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 492, col: 34, offset: 15255},
+							pos:   position{line: 499, col: 34, offset: 15498},
 							label: "role",
 							expr: &ruleRefExpr{
-								pos:  position{line: 492, col: 40, offset: 15261},
+								pos:  position{line: 499, col: 40, offset: 15504},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -13140,24 +13173,24 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandOptionAttribute",
-			pos:  position{line: 497, col: 1, offset: 15383},
+			pos:  position{line: 504, col: 1, offset: 15626},
 			expr: &actionExpr{
-				pos: position{line: 497, col: 29, offset: 15411},
+				pos: position{line: 504, col: 29, offset: 15654},
 				run: (*parser).callonShortHandOptionAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 497, col: 29, offset: 15411},
+					pos: position{line: 504, col: 29, offset: 15654},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 497, col: 29, offset: 15411},
+							pos:        position{line: 504, col: 29, offset: 15654},
 							val:        "%",
 							ignoreCase: false,
 							want:       "\"%\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 497, col: 33, offset: 15415},
+							pos:   position{line: 504, col: 33, offset: 15658},
 							label: "option",
 							expr: &ruleRefExpr{
-								pos:  position{line: 497, col: 41, offset: 15423},
+								pos:  position{line: 504, col: 41, offset: 15666},
 								name: "ShortHandAttributeValue",
 							},
 						},
@@ -13167,43 +13200,43 @@ var g = &grammar{
 		},
 		{
 			name: "ShortHandAttributeValue",
-			pos:  position{line: 502, col: 1, offset: 15536},
+			pos:  position{line: 509, col: 1, offset: 15779},
 			expr: &choiceExpr{
-				pos: position{line: 503, col: 5, offset: 15568},
+				pos: position{line: 510, col: 5, offset: 15811},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 503, col: 5, offset: 15568},
+						pos:  position{line: 510, col: 5, offset: 15811},
 						name: "SingleQuotedAttributeValue",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 504, col: 7, offset: 15602},
+						pos:  position{line: 511, col: 7, offset: 15845},
 						name: "DoubleQuotedAttributeValue",
 					},
 					&actionExpr{
-						pos: position{line: 505, col: 7, offset: 15636},
+						pos: position{line: 512, col: 7, offset: 15879},
 						run: (*parser).callonShortHandAttributeValue4,
 						expr: &seqExpr{
-							pos: position{line: 505, col: 7, offset: 15636},
+							pos: position{line: 512, col: 7, offset: 15879},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 505, col: 7, offset: 15636},
+									pos:   position{line: 512, col: 7, offset: 15879},
 									label: "elements",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 505, col: 16, offset: 15645},
+										pos: position{line: 512, col: 16, offset: 15888},
 										expr: &choiceExpr{
-											pos: position{line: 508, col: 9, offset: 15827},
+											pos: position{line: 515, col: 9, offset: 16070},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 508, col: 9, offset: 15827},
+													pos:  position{line: 515, col: 9, offset: 16070},
 													name: "QuotationMark",
 												},
 												&actionExpr{
-													pos: position{line: 509, col: 12, offset: 15853},
+													pos: position{line: 516, col: 12, offset: 16096},
 													run: (*parser).callonShortHandAttributeValue10,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 509, col: 12, offset: 15853},
+														pos: position{line: 516, col: 12, offset: 16096},
 														expr: &charClassMatcher{
-															pos:        position{line: 509, col: 12, offset: 15853},
+															pos:        position{line: 516, col: 12, offset: 16096},
 															val:        "[^,=.%# \\r\\n�{]]",
 															chars:      []rune{',', '=', '.', '%', '#', ' ', '\r', '\n', '�', '{', ']'},
 															ignoreCase: false,
@@ -13212,35 +13245,35 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 639, col: 5, offset: 20212},
+													pos: position{line: 646, col: 5, offset: 20455},
 													run: (*parser).callonShortHandAttributeValue13,
 													expr: &seqExpr{
-														pos: position{line: 639, col: 5, offset: 20212},
+														pos: position{line: 646, col: 5, offset: 20455},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 639, col: 5, offset: 20212},
+																pos: position{line: 646, col: 5, offset: 20455},
 																run: (*parser).callonShortHandAttributeValue15,
 															},
 															&labeledExpr{
-																pos:   position{line: 642, col: 5, offset: 20284},
+																pos:   position{line: 649, col: 5, offset: 20527},
 																label: "element",
 																expr: &choiceExpr{
-																	pos: position{line: 642, col: 14, offset: 20293},
+																	pos: position{line: 649, col: 14, offset: 20536},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 648, col: 5, offset: 20422},
+																			pos: position{line: 655, col: 5, offset: 20665},
 																			run: (*parser).callonShortHandAttributeValue18,
 																			expr: &seqExpr{
-																				pos: position{line: 648, col: 5, offset: 20422},
+																				pos: position{line: 655, col: 5, offset: 20665},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 648, col: 5, offset: 20422},
+																						pos:        position{line: 655, col: 5, offset: 20665},
 																						val:        "\\{",
 																						ignoreCase: false,
 																						want:       "\"\\\\{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 648, col: 13, offset: 20430},
+																						pos:   position{line: 655, col: 13, offset: 20673},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -13272,7 +13305,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 648, col: 32, offset: 20449},
+																						pos:        position{line: 655, col: 32, offset: 20692},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13281,19 +13314,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 655, col: 5, offset: 20690},
+																			pos: position{line: 662, col: 5, offset: 20933},
 																			run: (*parser).callonShortHandAttributeValue28,
 																			expr: &seqExpr{
-																				pos: position{line: 655, col: 5, offset: 20690},
+																				pos: position{line: 662, col: 5, offset: 20933},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 655, col: 5, offset: 20690},
+																						pos:        position{line: 662, col: 5, offset: 20933},
 																						val:        "{",
 																						ignoreCase: false,
 																						want:       "\"{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 655, col: 9, offset: 20694},
+																						pos:   position{line: 662, col: 9, offset: 20937},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -13325,7 +13358,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 655, col: 28, offset: 20713},
+																						pos:        position{line: 662, col: 28, offset: 20956},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13334,19 +13367,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 661, col: 25, offset: 20894},
+																			pos: position{line: 668, col: 25, offset: 21137},
 																			run: (*parser).callonShortHandAttributeValue38,
 																			expr: &seqExpr{
-																				pos: position{line: 661, col: 25, offset: 20894},
+																				pos: position{line: 668, col: 25, offset: 21137},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 661, col: 25, offset: 20894},
+																						pos:        position{line: 668, col: 25, offset: 21137},
 																						val:        "{counter:",
 																						ignoreCase: false,
 																						want:       "\"{counter:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 661, col: 37, offset: 20906},
+																						pos:   position{line: 668, col: 37, offset: 21149},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -13378,33 +13411,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 661, col: 56, offset: 20925},
+																						pos:   position{line: 668, col: 56, offset: 21168},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 661, col: 62, offset: 20931},
+																							pos: position{line: 668, col: 62, offset: 21174},
 																							expr: &actionExpr{
-																								pos: position{line: 669, col: 17, offset: 21226},
+																								pos: position{line: 676, col: 17, offset: 21469},
 																								run: (*parser).callonShortHandAttributeValue49,
 																								expr: &seqExpr{
-																									pos: position{line: 669, col: 17, offset: 21226},
+																									pos: position{line: 676, col: 17, offset: 21469},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 669, col: 17, offset: 21226},
+																											pos:        position{line: 676, col: 17, offset: 21469},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 669, col: 21, offset: 21230},
+																											pos:   position{line: 676, col: 21, offset: 21473},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 669, col: 28, offset: 21237},
+																												pos: position{line: 676, col: 28, offset: 21480},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 669, col: 28, offset: 21237},
+																														pos: position{line: 676, col: 28, offset: 21480},
 																														run: (*parser).callonShortHandAttributeValue54,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 669, col: 28, offset: 21237},
+																															pos:        position{line: 676, col: 28, offset: 21480},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13412,12 +13445,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 671, col: 9, offset: 21291},
+																														pos: position{line: 678, col: 9, offset: 21534},
 																														run: (*parser).callonShortHandAttributeValue56,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 671, col: 9, offset: 21291},
+																															pos: position{line: 678, col: 9, offset: 21534},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 671, col: 9, offset: 21291},
+																																pos:        position{line: 678, col: 9, offset: 21534},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13434,7 +13467,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 661, col: 78, offset: 20947},
+																						pos:        position{line: 668, col: 78, offset: 21190},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13443,19 +13476,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 665, col: 25, offset: 21065},
+																			pos: position{line: 672, col: 25, offset: 21308},
 																			run: (*parser).callonShortHandAttributeValue60,
 																			expr: &seqExpr{
-																				pos: position{line: 665, col: 25, offset: 21065},
+																				pos: position{line: 672, col: 25, offset: 21308},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 665, col: 25, offset: 21065},
+																						pos:        position{line: 672, col: 25, offset: 21308},
 																						val:        "{counter2:",
 																						ignoreCase: false,
 																						want:       "\"{counter2:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 665, col: 38, offset: 21078},
+																						pos:   position{line: 672, col: 38, offset: 21321},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -13487,33 +13520,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 665, col: 57, offset: 21097},
+																						pos:   position{line: 672, col: 57, offset: 21340},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 665, col: 63, offset: 21103},
+																							pos: position{line: 672, col: 63, offset: 21346},
 																							expr: &actionExpr{
-																								pos: position{line: 669, col: 17, offset: 21226},
+																								pos: position{line: 676, col: 17, offset: 21469},
 																								run: (*parser).callonShortHandAttributeValue71,
 																								expr: &seqExpr{
-																									pos: position{line: 669, col: 17, offset: 21226},
+																									pos: position{line: 676, col: 17, offset: 21469},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 669, col: 17, offset: 21226},
+																											pos:        position{line: 676, col: 17, offset: 21469},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 669, col: 21, offset: 21230},
+																											pos:   position{line: 676, col: 21, offset: 21473},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 669, col: 28, offset: 21237},
+																												pos: position{line: 676, col: 28, offset: 21480},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 669, col: 28, offset: 21237},
+																														pos: position{line: 676, col: 28, offset: 21480},
 																														run: (*parser).callonShortHandAttributeValue76,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 669, col: 28, offset: 21237},
+																															pos:        position{line: 676, col: 28, offset: 21480},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13521,12 +13554,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 671, col: 9, offset: 21291},
+																														pos: position{line: 678, col: 9, offset: 21534},
 																														run: (*parser).callonShortHandAttributeValue78,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 671, col: 9, offset: 21291},
+																															pos: position{line: 678, col: 9, offset: 21534},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 671, col: 9, offset: 21291},
+																																pos:        position{line: 678, col: 9, offset: 21534},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13543,7 +13576,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 665, col: 79, offset: 21119},
+																						pos:        position{line: 672, col: 79, offset: 21362},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13558,10 +13591,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 514, col: 12, offset: 16021},
+													pos: position{line: 521, col: 12, offset: 16264},
 													run: (*parser).callonShortHandAttributeValue82,
 													expr: &litMatcher{
-														pos:        position{line: 514, col: 12, offset: 16021},
+														pos:        position{line: 521, col: 12, offset: 16264},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -13572,19 +13605,19 @@ var g = &grammar{
 									},
 								},
 								&andExpr{
-									pos: position{line: 518, col: 5, offset: 16109},
+									pos: position{line: 525, col: 5, offset: 16352},
 									expr: &notExpr{
-										pos: position{line: 518, col: 7, offset: 16111},
+										pos: position{line: 525, col: 7, offset: 16354},
 										expr: &seqExpr{
-											pos: position{line: 518, col: 9, offset: 16113},
+											pos: position{line: 525, col: 9, offset: 16356},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 518, col: 9, offset: 16113},
+													pos: position{line: 525, col: 9, offset: 16356},
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 10, offset: 90818},
+														pos: position{line: 2883, col: 10, offset: 91286},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2868, col: 10, offset: 90818},
+															pos:        position{line: 2883, col: 10, offset: 91286},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13593,7 +13626,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 518, col: 16, offset: 16120},
+													pos:        position{line: 525, col: 16, offset: 16363},
 													val:        "=",
 													ignoreCase: false,
 													want:       "\"=\"",
@@ -13610,45 +13643,45 @@ var g = &grammar{
 		},
 		{
 			name: "PositionalAttribute",
-			pos:  position{line: 523, col: 1, offset: 16198},
+			pos:  position{line: 530, col: 1, offset: 16441},
 			expr: &choiceExpr{
-				pos: position{line: 523, col: 24, offset: 16221},
+				pos: position{line: 530, col: 24, offset: 16464},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 524, col: 5, offset: 16227},
+						pos: position{line: 531, col: 5, offset: 16470},
 						run: (*parser).callonPositionalAttribute2,
 						expr: &seqExpr{
-							pos: position{line: 524, col: 5, offset: 16227},
+							pos: position{line: 531, col: 5, offset: 16470},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 524, col: 5, offset: 16227},
+									pos:   position{line: 531, col: 5, offset: 16470},
 									label: "value",
 									expr: &ruleRefExpr{
-										pos:  position{line: 524, col: 12, offset: 16234},
+										pos:  position{line: 531, col: 12, offset: 16477},
 										name: "AttributeValue",
 									},
 								},
 								&choiceExpr{
-									pos: position{line: 524, col: 29, offset: 16251},
+									pos: position{line: 531, col: 29, offset: 16494},
 									alternatives: []interface{}{
 										&zeroOrOneExpr{
-											pos: position{line: 524, col: 29, offset: 16251},
+											pos: position{line: 531, col: 29, offset: 16494},
 											expr: &seqExpr{
-												pos: position{line: 524, col: 30, offset: 16252},
+												pos: position{line: 531, col: 30, offset: 16495},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 524, col: 30, offset: 16252},
+														pos:        position{line: 531, col: 30, offset: 16495},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 524, col: 34, offset: 16256},
+														pos: position{line: 531, col: 34, offset: 16499},
 														expr: &actionExpr{
-															pos: position{line: 2868, col: 10, offset: 90818},
+															pos: position{line: 2883, col: 10, offset: 91286},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 10, offset: 90818},
+																pos:        position{line: 2883, col: 10, offset: 91286},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13660,9 +13693,9 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 524, col: 45, offset: 16267},
+											pos: position{line: 531, col: 45, offset: 16510},
 											expr: &litMatcher{
-												pos:        position{line: 524, col: 46, offset: 16268},
+												pos:        position{line: 531, col: 46, offset: 16511},
 												val:        "]",
 												ignoreCase: false,
 												want:       "\"]\"",
@@ -13674,24 +13707,24 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 529, col: 6, offset: 16413},
+						pos: position{line: 536, col: 6, offset: 16656},
 						run: (*parser).callonPositionalAttribute15,
 						expr: &seqExpr{
-							pos: position{line: 529, col: 6, offset: 16413},
+							pos: position{line: 536, col: 6, offset: 16656},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 529, col: 6, offset: 16413},
+									pos:   position{line: 536, col: 6, offset: 16656},
 									label: "value",
 									expr: &seqExpr{
-										pos: position{line: 529, col: 13, offset: 16420},
+										pos: position{line: 536, col: 13, offset: 16663},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 529, col: 13, offset: 16420},
+												pos: position{line: 536, col: 13, offset: 16663},
 												expr: &actionExpr{
-													pos: position{line: 2868, col: 10, offset: 90818},
+													pos: position{line: 2883, col: 10, offset: 91286},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2868, col: 10, offset: 90818},
+														pos:        position{line: 2883, col: 10, offset: 91286},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13700,24 +13733,24 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 529, col: 21, offset: 16428},
+												pos: position{line: 536, col: 21, offset: 16671},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 529, col: 22, offset: 16429},
+														pos: position{line: 536, col: 22, offset: 16672},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 529, col: 22, offset: 16429},
+																pos:        position{line: 536, col: 22, offset: 16672},
 																val:        ",",
 																ignoreCase: false,
 																want:       "\",\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 529, col: 26, offset: 16433},
+																pos: position{line: 536, col: 26, offset: 16676},
 																expr: &actionExpr{
-																	pos: position{line: 2868, col: 10, offset: 90818},
+																	pos: position{line: 2883, col: 10, offset: 91286},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2868, col: 10, offset: 90818},
+																		pos:        position{line: 2883, col: 10, offset: 91286},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13728,9 +13761,9 @@ var g = &grammar{
 														},
 													},
 													&andExpr{
-														pos: position{line: 529, col: 36, offset: 16443},
+														pos: position{line: 536, col: 36, offset: 16686},
 														expr: &litMatcher{
-															pos:        position{line: 529, col: 37, offset: 16444},
+															pos:        position{line: 536, col: 37, offset: 16687},
 															val:        "]",
 															ignoreCase: false,
 															want:       "\"]\"",
@@ -13742,7 +13775,7 @@ var g = &grammar{
 									},
 								},
 								&andCodeExpr{
-									pos: position{line: 530, col: 5, offset: 16454},
+									pos: position{line: 537, col: 5, offset: 16697},
 									run: (*parser).callonPositionalAttribute30,
 								},
 							},
@@ -13753,29 +13786,29 @@ var g = &grammar{
 		},
 		{
 			name: "NamedAttribute",
-			pos:  position{line: 540, col: 1, offset: 16769},
+			pos:  position{line: 547, col: 1, offset: 17012},
 			expr: &actionExpr{
-				pos: position{line: 541, col: 5, offset: 16792},
+				pos: position{line: 548, col: 5, offset: 17035},
 				run: (*parser).callonNamedAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 541, col: 5, offset: 16792},
+					pos: position{line: 548, col: 5, offset: 17035},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 541, col: 5, offset: 16792},
+							pos:   position{line: 548, col: 5, offset: 17035},
 							label: "key",
 							expr: &actionExpr{
-								pos: position{line: 549, col: 22, offset: 17080},
+								pos: position{line: 556, col: 22, offset: 17323},
 								run: (*parser).callonNamedAttribute4,
 								expr: &seqExpr{
-									pos: position{line: 549, col: 22, offset: 17080},
+									pos: position{line: 556, col: 22, offset: 17323},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 549, col: 22, offset: 17080},
+											pos: position{line: 556, col: 22, offset: 17323},
 											expr: &actionExpr{
-												pos: position{line: 2868, col: 10, offset: 90818},
+												pos: position{line: 2883, col: 10, offset: 91286},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2868, col: 10, offset: 90818},
+													pos:        position{line: 2883, col: 10, offset: 91286},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13784,9 +13817,9 @@ var g = &grammar{
 											},
 										},
 										&oneOrMoreExpr{
-											pos: position{line: 549, col: 29, offset: 17087},
+											pos: position{line: 556, col: 29, offset: 17330},
 											expr: &charClassMatcher{
-												pos:        position{line: 549, col: 29, offset: 17087},
+												pos:        position{line: 556, col: 29, offset: 17330},
 												val:        "[^\\r\\n=,]]",
 												chars:      []rune{'\r', '\n', '=', ',', ']'},
 												ignoreCase: false,
@@ -13798,18 +13831,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 542, col: 5, offset: 16821},
+							pos:        position{line: 549, col: 5, offset: 17064},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 542, col: 9, offset: 16825},
+							pos: position{line: 549, col: 9, offset: 17068},
 							expr: &actionExpr{
-								pos: position{line: 2868, col: 10, offset: 90818},
+								pos: position{line: 2883, col: 10, offset: 91286},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2868, col: 10, offset: 90818},
+									pos:        position{line: 2883, col: 10, offset: 91286},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13818,31 +13851,31 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 543, col: 5, offset: 16837},
+							pos:   position{line: 550, col: 5, offset: 17080},
 							label: "value",
 							expr: &ruleRefExpr{
-								pos:  position{line: 543, col: 12, offset: 16844},
+								pos:  position{line: 550, col: 12, offset: 17087},
 								name: "AttributeValue",
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 543, col: 28, offset: 16860},
+							pos: position{line: 550, col: 28, offset: 17103},
 							expr: &seqExpr{
-								pos: position{line: 543, col: 29, offset: 16861},
+								pos: position{line: 550, col: 29, offset: 17104},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 543, col: 29, offset: 16861},
+										pos:        position{line: 550, col: 29, offset: 17104},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 543, col: 33, offset: 16865},
+										pos: position{line: 550, col: 33, offset: 17108},
 										expr: &actionExpr{
-											pos: position{line: 2868, col: 10, offset: 90818},
+											pos: position{line: 2883, col: 10, offset: 91286},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2868, col: 10, offset: 90818},
+												pos:        position{line: 2883, col: 10, offset: 91286},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13859,48 +13892,48 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeValue",
-			pos:  position{line: 553, col: 1, offset: 17144},
+			pos:  position{line: 560, col: 1, offset: 17387},
 			expr: &actionExpr{
-				pos: position{line: 554, col: 5, offset: 17167},
+				pos: position{line: 561, col: 5, offset: 17410},
 				run: (*parser).callonAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 554, col: 5, offset: 17167},
+					pos: position{line: 561, col: 5, offset: 17410},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 554, col: 5, offset: 17167},
+							pos:   position{line: 561, col: 5, offset: 17410},
 							label: "value",
 							expr: &choiceExpr{
-								pos: position{line: 555, col: 9, offset: 17183},
+								pos: position{line: 562, col: 9, offset: 17426},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 555, col: 9, offset: 17183},
+										pos:  position{line: 562, col: 9, offset: 17426},
 										name: "SingleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 556, col: 11, offset: 17221},
+										pos:  position{line: 563, col: 11, offset: 17464},
 										name: "DoubleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 557, col: 11, offset: 17259},
+										pos:  position{line: 564, col: 11, offset: 17502},
 										name: "UnquotedAttributeValue",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 559, col: 5, offset: 17293},
+							pos: position{line: 566, col: 5, offset: 17536},
 							expr: &notExpr{
-								pos: position{line: 559, col: 7, offset: 17295},
+								pos: position{line: 566, col: 7, offset: 17538},
 								expr: &seqExpr{
-									pos: position{line: 559, col: 9, offset: 17297},
+									pos: position{line: 566, col: 9, offset: 17540},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 559, col: 9, offset: 17297},
+											pos: position{line: 566, col: 9, offset: 17540},
 											expr: &actionExpr{
-												pos: position{line: 2868, col: 10, offset: 90818},
+												pos: position{line: 2883, col: 10, offset: 91286},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2868, col: 10, offset: 90818},
+													pos:        position{line: 2883, col: 10, offset: 91286},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13909,7 +13942,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 559, col: 16, offset: 17304},
+											pos:        position{line: 566, col: 16, offset: 17547},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -13924,38 +13957,38 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValue",
-			pos:  position{line: 563, col: 1, offset: 17345},
+			pos:  position{line: 570, col: 1, offset: 17588},
 			expr: &actionExpr{
-				pos: position{line: 564, col: 5, offset: 17380},
+				pos: position{line: 571, col: 5, offset: 17623},
 				run: (*parser).callonSingleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 564, col: 5, offset: 17380},
+					pos: position{line: 571, col: 5, offset: 17623},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 564, col: 5, offset: 17380},
+							pos:        position{line: 571, col: 5, offset: 17623},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
 						},
 						&notExpr{
-							pos: position{line: 564, col: 9, offset: 17384},
+							pos: position{line: 571, col: 9, offset: 17627},
 							expr: &litMatcher{
-								pos:        position{line: 564, col: 10, offset: 17385},
+								pos:        position{line: 571, col: 10, offset: 17628},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 565, col: 5, offset: 17464},
+							pos:   position{line: 572, col: 5, offset: 17707},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 565, col: 14, offset: 17473},
+								pos:  position{line: 572, col: 14, offset: 17716},
 								name: "SingleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 566, col: 5, offset: 17512},
+							pos:        position{line: 573, col: 5, offset: 17755},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
@@ -13966,25 +13999,25 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValueContent",
-			pos:  position{line: 570, col: 1, offset: 17553},
+			pos:  position{line: 577, col: 1, offset: 17796},
 			expr: &actionExpr{
-				pos: position{line: 571, col: 5, offset: 17595},
+				pos: position{line: 578, col: 5, offset: 17838},
 				run: (*parser).callonSingleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 571, col: 5, offset: 17595},
+					pos:   position{line: 578, col: 5, offset: 17838},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 571, col: 14, offset: 17604},
+						pos: position{line: 578, col: 14, offset: 17847},
 						expr: &choiceExpr{
-							pos: position{line: 572, col: 9, offset: 17614},
+							pos: position{line: 579, col: 9, offset: 17857},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2762, col: 14, offset: 87987},
+									pos: position{line: 2777, col: 14, offset: 88455},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2762, col: 14, offset: 87987},
+										pos: position{line: 2777, col: 14, offset: 88455},
 										expr: &charClassMatcher{
-											pos:        position{line: 2762, col: 14, offset: 87987},
+											pos:        position{line: 2777, col: 14, offset: 88455},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -13993,10 +14026,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2868, col: 10, offset: 90818},
+									pos: position{line: 2883, col: 10, offset: 91286},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2868, col: 10, offset: 90818},
+										pos:        position{line: 2883, col: 10, offset: 91286},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14004,39 +14037,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 574, col: 11, offset: 17650},
+									pos:  position{line: 581, col: 11, offset: 17893},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 639, col: 5, offset: 20212},
+									pos: position{line: 646, col: 5, offset: 20455},
 									run: (*parser).callonSingleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 639, col: 5, offset: 20212},
+										pos: position{line: 646, col: 5, offset: 20455},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 639, col: 5, offset: 20212},
+												pos: position{line: 646, col: 5, offset: 20455},
 												run: (*parser).callonSingleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 642, col: 5, offset: 20284},
+												pos:   position{line: 649, col: 5, offset: 20527},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 642, col: 14, offset: 20293},
+													pos: position{line: 649, col: 14, offset: 20536},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 648, col: 5, offset: 20422},
+															pos: position{line: 655, col: 5, offset: 20665},
 															run: (*parser).callonSingleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 648, col: 5, offset: 20422},
+																pos: position{line: 655, col: 5, offset: 20665},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 648, col: 5, offset: 20422},
+																		pos:        position{line: 655, col: 5, offset: 20665},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 648, col: 13, offset: 20430},
+																		pos:   position{line: 655, col: 13, offset: 20673},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14068,7 +14101,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 648, col: 32, offset: 20449},
+																		pos:        position{line: 655, col: 32, offset: 20692},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14077,19 +14110,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 655, col: 5, offset: 20690},
+															pos: position{line: 662, col: 5, offset: 20933},
 															run: (*parser).callonSingleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 655, col: 5, offset: 20690},
+																pos: position{line: 662, col: 5, offset: 20933},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 655, col: 5, offset: 20690},
+																		pos:        position{line: 662, col: 5, offset: 20933},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 655, col: 9, offset: 20694},
+																		pos:   position{line: 662, col: 9, offset: 20937},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14121,7 +14154,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 655, col: 28, offset: 20713},
+																		pos:        position{line: 662, col: 28, offset: 20956},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14130,19 +14163,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 661, col: 25, offset: 20894},
+															pos: position{line: 668, col: 25, offset: 21137},
 															run: (*parser).callonSingleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 661, col: 25, offset: 20894},
+																pos: position{line: 668, col: 25, offset: 21137},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 661, col: 25, offset: 20894},
+																		pos:        position{line: 668, col: 25, offset: 21137},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 661, col: 37, offset: 20906},
+																		pos:   position{line: 668, col: 37, offset: 21149},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14174,33 +14207,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 661, col: 56, offset: 20925},
+																		pos:   position{line: 668, col: 56, offset: 21168},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 661, col: 62, offset: 20931},
+																			pos: position{line: 668, col: 62, offset: 21174},
 																			expr: &actionExpr{
-																				pos: position{line: 669, col: 17, offset: 21226},
+																				pos: position{line: 676, col: 17, offset: 21469},
 																				run: (*parser).callonSingleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 669, col: 17, offset: 21226},
+																					pos: position{line: 676, col: 17, offset: 21469},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 669, col: 17, offset: 21226},
+																							pos:        position{line: 676, col: 17, offset: 21469},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 669, col: 21, offset: 21230},
+																							pos:   position{line: 676, col: 21, offset: 21473},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 669, col: 28, offset: 21237},
+																								pos: position{line: 676, col: 28, offset: 21480},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 669, col: 28, offset: 21237},
+																										pos: position{line: 676, col: 28, offset: 21480},
 																										run: (*parser).callonSingleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 669, col: 28, offset: 21237},
+																											pos:        position{line: 676, col: 28, offset: 21480},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14208,12 +14241,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 671, col: 9, offset: 21291},
+																										pos: position{line: 678, col: 9, offset: 21534},
 																										run: (*parser).callonSingleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 671, col: 9, offset: 21291},
+																											pos: position{line: 678, col: 9, offset: 21534},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 671, col: 9, offset: 21291},
+																												pos:        position{line: 678, col: 9, offset: 21534},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14230,7 +14263,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 661, col: 78, offset: 20947},
+																		pos:        position{line: 668, col: 78, offset: 21190},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14239,19 +14272,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 665, col: 25, offset: 21065},
+															pos: position{line: 672, col: 25, offset: 21308},
 															run: (*parser).callonSingleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 665, col: 25, offset: 21065},
+																pos: position{line: 672, col: 25, offset: 21308},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 665, col: 25, offset: 21065},
+																		pos:        position{line: 672, col: 25, offset: 21308},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 665, col: 38, offset: 21078},
+																		pos:   position{line: 672, col: 38, offset: 21321},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14283,33 +14316,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 665, col: 57, offset: 21097},
+																		pos:   position{line: 672, col: 57, offset: 21340},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 665, col: 63, offset: 21103},
+																			pos: position{line: 672, col: 63, offset: 21346},
 																			expr: &actionExpr{
-																				pos: position{line: 669, col: 17, offset: 21226},
+																				pos: position{line: 676, col: 17, offset: 21469},
 																				run: (*parser).callonSingleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 669, col: 17, offset: 21226},
+																					pos: position{line: 676, col: 17, offset: 21469},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 669, col: 17, offset: 21226},
+																							pos:        position{line: 676, col: 17, offset: 21469},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 669, col: 21, offset: 21230},
+																							pos:   position{line: 676, col: 21, offset: 21473},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 669, col: 28, offset: 21237},
+																								pos: position{line: 676, col: 28, offset: 21480},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 669, col: 28, offset: 21237},
+																										pos: position{line: 676, col: 28, offset: 21480},
 																										run: (*parser).callonSingleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 669, col: 28, offset: 21237},
+																											pos:        position{line: 676, col: 28, offset: 21480},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14317,12 +14350,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 671, col: 9, offset: 21291},
+																										pos: position{line: 678, col: 9, offset: 21534},
 																										run: (*parser).callonSingleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 671, col: 9, offset: 21291},
+																											pos: position{line: 678, col: 9, offset: 21534},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 671, col: 9, offset: 21291},
+																												pos:        position{line: 678, col: 9, offset: 21534},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14339,7 +14372,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 665, col: 79, offset: 21119},
+																		pos:        position{line: 672, col: 79, offset: 21362},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14354,44 +14387,44 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 576, col: 12, offset: 17704},
+									pos: position{line: 583, col: 12, offset: 17947},
 									run: (*parser).callonSingleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 576, col: 12, offset: 17704},
+										pos:        position{line: 583, col: 12, offset: 17947},
 										val:        "\\'",
 										ignoreCase: false,
 										want:       "\"\\\\'\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 579, col: 13, offset: 17806},
+									pos:        position{line: 586, col: 13, offset: 18049},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 579, col: 20, offset: 17813},
+									pos:        position{line: 586, col: 20, offset: 18056},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&actionExpr{
-									pos: position{line: 579, col: 27, offset: 17820},
+									pos: position{line: 586, col: 27, offset: 18063},
 									run: (*parser).callonSingleQuotedAttributeValueContent84,
 									expr: &litMatcher{
-										pos:        position{line: 579, col: 27, offset: 17820},
+										pos:        position{line: 586, col: 27, offset: 18063},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 582, col: 12, offset: 17980},
+									pos: position{line: 589, col: 12, offset: 18223},
 									run: (*parser).callonSingleQuotedAttributeValueContent86,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 582, col: 12, offset: 17980},
+										pos: position{line: 589, col: 12, offset: 18223},
 										expr: &charClassMatcher{
-											pos:        position{line: 582, col: 12, offset: 17980},
+											pos:        position{line: 589, col: 12, offset: 18223},
 											val:        "[^\\r\\n\\\\\\ ]",
 											chars:      []rune{'\r', '\n', '\\', '\'', ' '},
 											ignoreCase: false,
@@ -14407,56 +14440,56 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValue",
-			pos:  position{line: 589, col: 1, offset: 18177},
+			pos:  position{line: 596, col: 1, offset: 18420},
 			expr: &actionExpr{
-				pos: position{line: 590, col: 5, offset: 18212},
+				pos: position{line: 597, col: 5, offset: 18455},
 				run: (*parser).callonDoubleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 590, col: 5, offset: 18212},
+					pos: position{line: 597, col: 5, offset: 18455},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 590, col: 5, offset: 18212},
+							pos:        position{line: 597, col: 5, offset: 18455},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&notExpr{
-							pos: position{line: 590, col: 10, offset: 18217},
+							pos: position{line: 597, col: 10, offset: 18460},
 							expr: &litMatcher{
-								pos:        position{line: 590, col: 11, offset: 18218},
+								pos:        position{line: 597, col: 11, offset: 18461},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 591, col: 5, offset: 18297},
+							pos:   position{line: 598, col: 5, offset: 18540},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 591, col: 14, offset: 18306},
+								pos:  position{line: 598, col: 14, offset: 18549},
 								name: "DoubleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 592, col: 5, offset: 18345},
+							pos:        position{line: 599, col: 5, offset: 18588},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&andExpr{
-							pos: position{line: 592, col: 10, offset: 18350},
+							pos: position{line: 599, col: 10, offset: 18593},
 							expr: &notExpr{
-								pos: position{line: 592, col: 12, offset: 18352},
+								pos: position{line: 599, col: 12, offset: 18595},
 								expr: &seqExpr{
-									pos: position{line: 592, col: 14, offset: 18354},
+									pos: position{line: 599, col: 14, offset: 18597},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 592, col: 14, offset: 18354},
+											pos: position{line: 599, col: 14, offset: 18597},
 											expr: &actionExpr{
-												pos: position{line: 2868, col: 10, offset: 90818},
+												pos: position{line: 2883, col: 10, offset: 91286},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2868, col: 10, offset: 90818},
+													pos:        position{line: 2883, col: 10, offset: 91286},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14465,7 +14498,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 592, col: 21, offset: 18361},
+											pos:        position{line: 599, col: 21, offset: 18604},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14480,25 +14513,25 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValueContent",
-			pos:  position{line: 596, col: 1, offset: 18404},
+			pos:  position{line: 603, col: 1, offset: 18647},
 			expr: &actionExpr{
-				pos: position{line: 597, col: 5, offset: 18446},
+				pos: position{line: 604, col: 5, offset: 18689},
 				run: (*parser).callonDoubleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 597, col: 5, offset: 18446},
+					pos:   position{line: 604, col: 5, offset: 18689},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 597, col: 14, offset: 18455},
+						pos: position{line: 604, col: 14, offset: 18698},
 						expr: &choiceExpr{
-							pos: position{line: 598, col: 9, offset: 18465},
+							pos: position{line: 605, col: 9, offset: 18708},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2762, col: 14, offset: 87987},
+									pos: position{line: 2777, col: 14, offset: 88455},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2762, col: 14, offset: 87987},
+										pos: position{line: 2777, col: 14, offset: 88455},
 										expr: &charClassMatcher{
-											pos:        position{line: 2762, col: 14, offset: 87987},
+											pos:        position{line: 2777, col: 14, offset: 88455},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14507,10 +14540,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2868, col: 10, offset: 90818},
+									pos: position{line: 2883, col: 10, offset: 91286},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2868, col: 10, offset: 90818},
+										pos:        position{line: 2883, col: 10, offset: 91286},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14518,39 +14551,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 600, col: 11, offset: 18501},
+									pos:  position{line: 607, col: 11, offset: 18744},
 									name: "QuotationMark",
 								},
 								&actionExpr{
-									pos: position{line: 639, col: 5, offset: 20212},
+									pos: position{line: 646, col: 5, offset: 20455},
 									run: (*parser).callonDoubleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 639, col: 5, offset: 20212},
+										pos: position{line: 646, col: 5, offset: 20455},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 639, col: 5, offset: 20212},
+												pos: position{line: 646, col: 5, offset: 20455},
 												run: (*parser).callonDoubleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 642, col: 5, offset: 20284},
+												pos:   position{line: 649, col: 5, offset: 20527},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 642, col: 14, offset: 20293},
+													pos: position{line: 649, col: 14, offset: 20536},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 648, col: 5, offset: 20422},
+															pos: position{line: 655, col: 5, offset: 20665},
 															run: (*parser).callonDoubleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 648, col: 5, offset: 20422},
+																pos: position{line: 655, col: 5, offset: 20665},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 648, col: 5, offset: 20422},
+																		pos:        position{line: 655, col: 5, offset: 20665},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 648, col: 13, offset: 20430},
+																		pos:   position{line: 655, col: 13, offset: 20673},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14582,7 +14615,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 648, col: 32, offset: 20449},
+																		pos:        position{line: 655, col: 32, offset: 20692},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14591,19 +14624,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 655, col: 5, offset: 20690},
+															pos: position{line: 662, col: 5, offset: 20933},
 															run: (*parser).callonDoubleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 655, col: 5, offset: 20690},
+																pos: position{line: 662, col: 5, offset: 20933},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 655, col: 5, offset: 20690},
+																		pos:        position{line: 662, col: 5, offset: 20933},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 655, col: 9, offset: 20694},
+																		pos:   position{line: 662, col: 9, offset: 20937},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14635,7 +14668,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 655, col: 28, offset: 20713},
+																		pos:        position{line: 662, col: 28, offset: 20956},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14644,19 +14677,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 661, col: 25, offset: 20894},
+															pos: position{line: 668, col: 25, offset: 21137},
 															run: (*parser).callonDoubleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 661, col: 25, offset: 20894},
+																pos: position{line: 668, col: 25, offset: 21137},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 661, col: 25, offset: 20894},
+																		pos:        position{line: 668, col: 25, offset: 21137},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 661, col: 37, offset: 20906},
+																		pos:   position{line: 668, col: 37, offset: 21149},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14688,33 +14721,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 661, col: 56, offset: 20925},
+																		pos:   position{line: 668, col: 56, offset: 21168},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 661, col: 62, offset: 20931},
+																			pos: position{line: 668, col: 62, offset: 21174},
 																			expr: &actionExpr{
-																				pos: position{line: 669, col: 17, offset: 21226},
+																				pos: position{line: 676, col: 17, offset: 21469},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 669, col: 17, offset: 21226},
+																					pos: position{line: 676, col: 17, offset: 21469},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 669, col: 17, offset: 21226},
+																							pos:        position{line: 676, col: 17, offset: 21469},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 669, col: 21, offset: 21230},
+																							pos:   position{line: 676, col: 21, offset: 21473},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 669, col: 28, offset: 21237},
+																								pos: position{line: 676, col: 28, offset: 21480},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 669, col: 28, offset: 21237},
+																										pos: position{line: 676, col: 28, offset: 21480},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 669, col: 28, offset: 21237},
+																											pos:        position{line: 676, col: 28, offset: 21480},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14722,12 +14755,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 671, col: 9, offset: 21291},
+																										pos: position{line: 678, col: 9, offset: 21534},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 671, col: 9, offset: 21291},
+																											pos: position{line: 678, col: 9, offset: 21534},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 671, col: 9, offset: 21291},
+																												pos:        position{line: 678, col: 9, offset: 21534},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14744,7 +14777,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 661, col: 78, offset: 20947},
+																		pos:        position{line: 668, col: 78, offset: 21190},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14753,19 +14786,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 665, col: 25, offset: 21065},
+															pos: position{line: 672, col: 25, offset: 21308},
 															run: (*parser).callonDoubleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 665, col: 25, offset: 21065},
+																pos: position{line: 672, col: 25, offset: 21308},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 665, col: 25, offset: 21065},
+																		pos:        position{line: 672, col: 25, offset: 21308},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 665, col: 38, offset: 21078},
+																		pos:   position{line: 672, col: 38, offset: 21321},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14797,33 +14830,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 665, col: 57, offset: 21097},
+																		pos:   position{line: 672, col: 57, offset: 21340},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 665, col: 63, offset: 21103},
+																			pos: position{line: 672, col: 63, offset: 21346},
 																			expr: &actionExpr{
-																				pos: position{line: 669, col: 17, offset: 21226},
+																				pos: position{line: 676, col: 17, offset: 21469},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 669, col: 17, offset: 21226},
+																					pos: position{line: 676, col: 17, offset: 21469},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 669, col: 17, offset: 21226},
+																							pos:        position{line: 676, col: 17, offset: 21469},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 669, col: 21, offset: 21230},
+																							pos:   position{line: 676, col: 21, offset: 21473},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 669, col: 28, offset: 21237},
+																								pos: position{line: 676, col: 28, offset: 21480},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 669, col: 28, offset: 21237},
+																										pos: position{line: 676, col: 28, offset: 21480},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 669, col: 28, offset: 21237},
+																											pos:        position{line: 676, col: 28, offset: 21480},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14831,12 +14864,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 671, col: 9, offset: 21291},
+																										pos: position{line: 678, col: 9, offset: 21534},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 671, col: 9, offset: 21291},
+																											pos: position{line: 678, col: 9, offset: 21534},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 671, col: 9, offset: 21291},
+																												pos:        position{line: 678, col: 9, offset: 21534},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14853,7 +14886,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 665, col: 79, offset: 21119},
+																		pos:        position{line: 672, col: 79, offset: 21362},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14868,50 +14901,50 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 602, col: 12, offset: 18556},
+									pos: position{line: 609, col: 12, offset: 18799},
 									run: (*parser).callonDoubleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 602, col: 12, offset: 18556},
+										pos:        position{line: 609, col: 12, offset: 18799},
 										val:        "\\\"",
 										ignoreCase: false,
 										want:       "\"\\\\\\\"\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 13, offset: 18658},
+									pos:        position{line: 612, col: 13, offset: 18901},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 21, offset: 18666},
+									pos:        position{line: 612, col: 21, offset: 18909},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&litMatcher{
-									pos:        position{line: 605, col: 29, offset: 18674},
+									pos:        position{line: 612, col: 29, offset: 18917},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&actionExpr{
-									pos: position{line: 605, col: 35, offset: 18680},
+									pos: position{line: 612, col: 35, offset: 18923},
 									run: (*parser).callonDoubleQuotedAttributeValueContent85,
 									expr: &litMatcher{
-										pos:        position{line: 605, col: 35, offset: 18680},
+										pos:        position{line: 612, col: 35, offset: 18923},
 										val:        "`",
 										ignoreCase: false,
 										want:       "\"`\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 608, col: 12, offset: 18863},
+									pos: position{line: 615, col: 12, offset: 19106},
 									run: (*parser).callonDoubleQuotedAttributeValueContent87,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 608, col: 12, offset: 18863},
+										pos: position{line: 615, col: 12, offset: 19106},
 										expr: &charClassMatcher{
-											pos:        position{line: 608, col: 12, offset: 18863},
+											pos:        position{line: 615, col: 12, offset: 19106},
 											val:        "[^\\r\\n\\\\\"` ]",
 											chars:      []rune{'\r', '\n', '\\', '"', '`', ' '},
 											ignoreCase: false,
@@ -14927,20 +14960,20 @@ var g = &grammar{
 		},
 		{
 			name: "UnquotedAttributeValue",
-			pos:  position{line: 616, col: 1, offset: 19137},
+			pos:  position{line: 623, col: 1, offset: 19380},
 			expr: &actionExpr{
-				pos: position{line: 619, col: 5, offset: 19321},
+				pos: position{line: 626, col: 5, offset: 19564},
 				run: (*parser).callonUnquotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 619, col: 5, offset: 19321},
+					pos: position{line: 626, col: 5, offset: 19564},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 619, col: 5, offset: 19321},
+							pos: position{line: 626, col: 5, offset: 19564},
 							expr: &actionExpr{
-								pos: position{line: 2868, col: 10, offset: 90818},
+								pos: position{line: 2883, col: 10, offset: 91286},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2868, col: 10, offset: 90818},
+									pos:        position{line: 2883, col: 10, offset: 91286},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14949,28 +14982,28 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 620, col: 5, offset: 19390},
+							pos:   position{line: 627, col: 5, offset: 19633},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 620, col: 14, offset: 19399},
+								pos: position{line: 627, col: 14, offset: 19642},
 								expr: &choiceExpr{
-									pos: position{line: 621, col: 9, offset: 19409},
+									pos: position{line: 628, col: 9, offset: 19652},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 621, col: 10, offset: 19410},
+											pos: position{line: 628, col: 10, offset: 19653},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 621, col: 10, offset: 19410},
+													pos:        position{line: 628, col: 10, offset: 19653},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
 												},
 												&ruleRefExpr{
-													pos:  position{line: 621, col: 14, offset: 19414},
+													pos:  position{line: 628, col: 14, offset: 19657},
 													name: "UnquotedAttributeValue",
 												},
 												&litMatcher{
-													pos:        position{line: 621, col: 37, offset: 19437},
+													pos:        position{line: 628, col: 37, offset: 19680},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
@@ -14978,35 +15011,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 639, col: 5, offset: 20212},
+											pos: position{line: 646, col: 5, offset: 20455},
 											run: (*parser).callonUnquotedAttributeValue13,
 											expr: &seqExpr{
-												pos: position{line: 639, col: 5, offset: 20212},
+												pos: position{line: 646, col: 5, offset: 20455},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 639, col: 5, offset: 20212},
+														pos: position{line: 646, col: 5, offset: 20455},
 														run: (*parser).callonUnquotedAttributeValue15,
 													},
 													&labeledExpr{
-														pos:   position{line: 642, col: 5, offset: 20284},
+														pos:   position{line: 649, col: 5, offset: 20527},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 642, col: 14, offset: 20293},
+															pos: position{line: 649, col: 14, offset: 20536},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 648, col: 5, offset: 20422},
+																	pos: position{line: 655, col: 5, offset: 20665},
 																	run: (*parser).callonUnquotedAttributeValue18,
 																	expr: &seqExpr{
-																		pos: position{line: 648, col: 5, offset: 20422},
+																		pos: position{line: 655, col: 5, offset: 20665},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 648, col: 5, offset: 20422},
+																				pos:        position{line: 655, col: 5, offset: 20665},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 648, col: 13, offset: 20430},
+																				pos:   position{line: 655, col: 13, offset: 20673},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -15038,7 +15071,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 648, col: 32, offset: 20449},
+																				pos:        position{line: 655, col: 32, offset: 20692},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15047,19 +15080,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 655, col: 5, offset: 20690},
+																	pos: position{line: 662, col: 5, offset: 20933},
 																	run: (*parser).callonUnquotedAttributeValue28,
 																	expr: &seqExpr{
-																		pos: position{line: 655, col: 5, offset: 20690},
+																		pos: position{line: 662, col: 5, offset: 20933},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 655, col: 5, offset: 20690},
+																				pos:        position{line: 662, col: 5, offset: 20933},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 655, col: 9, offset: 20694},
+																				pos:   position{line: 662, col: 9, offset: 20937},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -15091,7 +15124,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 655, col: 28, offset: 20713},
+																				pos:        position{line: 662, col: 28, offset: 20956},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15100,19 +15133,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 661, col: 25, offset: 20894},
+																	pos: position{line: 668, col: 25, offset: 21137},
 																	run: (*parser).callonUnquotedAttributeValue38,
 																	expr: &seqExpr{
-																		pos: position{line: 661, col: 25, offset: 20894},
+																		pos: position{line: 668, col: 25, offset: 21137},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 661, col: 25, offset: 20894},
+																				pos:        position{line: 668, col: 25, offset: 21137},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 661, col: 37, offset: 20906},
+																				pos:   position{line: 668, col: 37, offset: 21149},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -15144,33 +15177,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 661, col: 56, offset: 20925},
+																				pos:   position{line: 668, col: 56, offset: 21168},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 661, col: 62, offset: 20931},
+																					pos: position{line: 668, col: 62, offset: 21174},
 																					expr: &actionExpr{
-																						pos: position{line: 669, col: 17, offset: 21226},
+																						pos: position{line: 676, col: 17, offset: 21469},
 																						run: (*parser).callonUnquotedAttributeValue49,
 																						expr: &seqExpr{
-																							pos: position{line: 669, col: 17, offset: 21226},
+																							pos: position{line: 676, col: 17, offset: 21469},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 669, col: 17, offset: 21226},
+																									pos:        position{line: 676, col: 17, offset: 21469},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 669, col: 21, offset: 21230},
+																									pos:   position{line: 676, col: 21, offset: 21473},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 669, col: 28, offset: 21237},
+																										pos: position{line: 676, col: 28, offset: 21480},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 669, col: 28, offset: 21237},
+																												pos: position{line: 676, col: 28, offset: 21480},
 																												run: (*parser).callonUnquotedAttributeValue54,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 28, offset: 21237},
+																													pos:        position{line: 676, col: 28, offset: 21480},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15178,12 +15211,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 671, col: 9, offset: 21291},
+																												pos: position{line: 678, col: 9, offset: 21534},
 																												run: (*parser).callonUnquotedAttributeValue56,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 671, col: 9, offset: 21291},
+																													pos: position{line: 678, col: 9, offset: 21534},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 671, col: 9, offset: 21291},
+																														pos:        position{line: 678, col: 9, offset: 21534},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15200,7 +15233,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 661, col: 78, offset: 20947},
+																				pos:        position{line: 668, col: 78, offset: 21190},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15209,19 +15242,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 665, col: 25, offset: 21065},
+																	pos: position{line: 672, col: 25, offset: 21308},
 																	run: (*parser).callonUnquotedAttributeValue60,
 																	expr: &seqExpr{
-																		pos: position{line: 665, col: 25, offset: 21065},
+																		pos: position{line: 672, col: 25, offset: 21308},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 665, col: 25, offset: 21065},
+																				pos:        position{line: 672, col: 25, offset: 21308},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 665, col: 38, offset: 21078},
+																				pos:   position{line: 672, col: 38, offset: 21321},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -15253,33 +15286,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 665, col: 57, offset: 21097},
+																				pos:   position{line: 672, col: 57, offset: 21340},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 665, col: 63, offset: 21103},
+																					pos: position{line: 672, col: 63, offset: 21346},
 																					expr: &actionExpr{
-																						pos: position{line: 669, col: 17, offset: 21226},
+																						pos: position{line: 676, col: 17, offset: 21469},
 																						run: (*parser).callonUnquotedAttributeValue71,
 																						expr: &seqExpr{
-																							pos: position{line: 669, col: 17, offset: 21226},
+																							pos: position{line: 676, col: 17, offset: 21469},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 669, col: 17, offset: 21226},
+																									pos:        position{line: 676, col: 17, offset: 21469},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 669, col: 21, offset: 21230},
+																									pos:   position{line: 676, col: 21, offset: 21473},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 669, col: 28, offset: 21237},
+																										pos: position{line: 676, col: 28, offset: 21480},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 669, col: 28, offset: 21237},
+																												pos: position{line: 676, col: 28, offset: 21480},
 																												run: (*parser).callonUnquotedAttributeValue76,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 28, offset: 21237},
+																													pos:        position{line: 676, col: 28, offset: 21480},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15287,12 +15320,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 671, col: 9, offset: 21291},
+																												pos: position{line: 678, col: 9, offset: 21534},
 																												run: (*parser).callonUnquotedAttributeValue78,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 671, col: 9, offset: 21291},
+																													pos: position{line: 678, col: 9, offset: 21534},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 671, col: 9, offset: 21291},
+																														pos:        position{line: 678, col: 9, offset: 21534},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15309,7 +15342,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 665, col: 79, offset: 21119},
+																				pos:        position{line: 672, col: 79, offset: 21362},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15324,16 +15357,16 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 622, col: 32, offset: 19524},
+											pos:        position{line: 629, col: 32, offset: 19767},
 											val:        "{",
 											ignoreCase: false,
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2868, col: 10, offset: 90818},
+											pos: position{line: 2883, col: 10, offset: 91286},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2868, col: 10, offset: 90818},
+												pos:        position{line: 2883, col: 10, offset: 91286},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15341,12 +15374,12 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 624, col: 12, offset: 19609},
+											pos: position{line: 631, col: 12, offset: 19852},
 											run: (*parser).callonUnquotedAttributeValue85,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 624, col: 12, offset: 19609},
+												pos: position{line: 631, col: 12, offset: 19852},
 												expr: &charClassMatcher{
-													pos:        position{line: 624, col: 12, offset: 19609},
+													pos:        position{line: 631, col: 12, offset: 19852},
 													val:        "[^=,]{ \\r\\n]",
 													chars:      []rune{'=', ',', ']', '{', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -15355,31 +15388,31 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 627, col: 12, offset: 19754},
+											pos: position{line: 634, col: 12, offset: 19997},
 											run: (*parser).callonUnquotedAttributeValue88,
 											expr: &seqExpr{
-												pos: position{line: 627, col: 12, offset: 19754},
+												pos: position{line: 634, col: 12, offset: 19997},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 2877, col: 12, offset: 90989},
+														pos: position{line: 2892, col: 12, offset: 91457},
 														run: (*parser).callonUnquotedAttributeValue90,
 														expr: &choiceExpr{
-															pos: position{line: 2877, col: 13, offset: 90990},
+															pos: position{line: 2892, col: 13, offset: 91458},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2877, col: 13, offset: 90990},
+																	pos:        position{line: 2892, col: 13, offset: 91458},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2877, col: 20, offset: 90997},
+																	pos:        position{line: 2892, col: 20, offset: 91465},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2877, col: 29, offset: 91006},
+																	pos:        position{line: 2892, col: 29, offset: 91474},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -15388,20 +15421,20 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 627, col: 20, offset: 19762},
+														pos: position{line: 634, col: 20, offset: 20005},
 														expr: &seqExpr{
-															pos: position{line: 2483, col: 31, offset: 79982},
+															pos: position{line: 2498, col: 31, offset: 80450},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2483, col: 31, offset: 79982},
+																	pos:        position{line: 2498, col: 31, offset: 80450},
 																	val:        "//",
 																	ignoreCase: false,
 																	want:       "\"//\"",
 																},
 																&notExpr{
-																	pos: position{line: 2483, col: 36, offset: 79987},
+																	pos: position{line: 2498, col: 36, offset: 80455},
 																	expr: &litMatcher{
-																		pos:        position{line: 2483, col: 37, offset: 79988},
+																		pos:        position{line: 2498, col: 37, offset: 80456},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
@@ -15423,32 +15456,32 @@ var g = &grammar{
 		},
 		{
 			name: "CrossReference",
-			pos:  position{line: 687, col: 1, offset: 21853},
+			pos:  position{line: 694, col: 1, offset: 22096},
 			expr: &choiceExpr{
-				pos: position{line: 687, col: 19, offset: 21871},
+				pos: position{line: 694, col: 19, offset: 22114},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 689, col: 27, offset: 21947},
+						pos: position{line: 696, col: 27, offset: 22190},
 						run: (*parser).callonCrossReference2,
 						expr: &seqExpr{
-							pos: position{line: 689, col: 27, offset: 21947},
+							pos: position{line: 696, col: 27, offset: 22190},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 689, col: 27, offset: 21947},
+									pos:        position{line: 696, col: 27, offset: 22190},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 689, col: 32, offset: 21952},
+									pos:   position{line: 696, col: 32, offset: 22195},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2853, col: 7, offset: 90470},
+										pos: position{line: 2868, col: 7, offset: 90938},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2853, col: 7, offset: 90470},
+											pos: position{line: 2868, col: 7, offset: 90938},
 											expr: &charClassMatcher{
-												pos:        position{line: 2853, col: 7, offset: 90470},
+												pos:        position{line: 2868, col: 7, offset: 90938},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15458,12 +15491,12 @@ var g = &grammar{
 									},
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 689, col: 40, offset: 21960},
+									pos: position{line: 696, col: 40, offset: 22203},
 									expr: &actionExpr{
-										pos: position{line: 2868, col: 10, offset: 90818},
+										pos: position{line: 2883, col: 10, offset: 91286},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2868, col: 10, offset: 90818},
+											pos:        position{line: 2883, col: 10, offset: 91286},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15472,36 +15505,36 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 689, col: 47, offset: 21967},
+									pos:        position{line: 696, col: 47, offset: 22210},
 									val:        ",",
 									ignoreCase: false,
 									want:       "\",\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 689, col: 51, offset: 21971},
+									pos:   position{line: 696, col: 51, offset: 22214},
 									label: "label",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 699, col: 24, offset: 22372},
+										pos: position{line: 706, col: 24, offset: 22615},
 										expr: &choiceExpr{
-											pos: position{line: 700, col: 5, offset: 22378},
+											pos: position{line: 707, col: 5, offset: 22621},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 700, col: 6, offset: 22379},
+													pos: position{line: 707, col: 6, offset: 22622},
 													run: (*parser).callonCrossReference16,
 													expr: &seqExpr{
-														pos: position{line: 700, col: 6, offset: 22379},
+														pos: position{line: 707, col: 6, offset: 22622},
 														exprs: []interface{}{
 															&charClassMatcher{
-																pos:        position{line: 700, col: 6, offset: 22379},
+																pos:        position{line: 707, col: 6, offset: 22622},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
 																inverted:   false,
 															},
 															&oneOrMoreExpr{
-																pos: position{line: 700, col: 14, offset: 22387},
+																pos: position{line: 707, col: 14, offset: 22630},
 																expr: &charClassMatcher{
-																	pos:        position{line: 700, col: 14, offset: 22387},
+																	pos:        position{line: 707, col: 14, offset: 22630},
 																	val:        "[^\\r\\n{<>]",
 																	chars:      []rune{'\r', '\n', '{', '<', '>'},
 																	ignoreCase: false,
@@ -15512,19 +15545,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 648, col: 5, offset: 20422},
+													pos: position{line: 655, col: 5, offset: 20665},
 													run: (*parser).callonCrossReference21,
 													expr: &seqExpr{
-														pos: position{line: 648, col: 5, offset: 20422},
+														pos: position{line: 655, col: 5, offset: 20665},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 648, col: 5, offset: 20422},
+																pos:        position{line: 655, col: 5, offset: 20665},
 																val:        "\\{",
 																ignoreCase: false,
 																want:       "\"\\\\{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 648, col: 13, offset: 20430},
+																pos:   position{line: 655, col: 13, offset: 20673},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 318, col: 18, offset: 9736},
@@ -15556,7 +15589,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 648, col: 32, offset: 20449},
+																pos:        position{line: 655, col: 32, offset: 20692},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15565,19 +15598,19 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 655, col: 5, offset: 20690},
+													pos: position{line: 662, col: 5, offset: 20933},
 													run: (*parser).callonCrossReference31,
 													expr: &seqExpr{
-														pos: position{line: 655, col: 5, offset: 20690},
+														pos: position{line: 662, col: 5, offset: 20933},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 655, col: 5, offset: 20690},
+																pos:        position{line: 662, col: 5, offset: 20933},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
 															},
 															&labeledExpr{
-																pos:   position{line: 655, col: 9, offset: 20694},
+																pos:   position{line: 662, col: 9, offset: 20937},
 																label: "name",
 																expr: &actionExpr{
 																	pos: position{line: 318, col: 18, offset: 9736},
@@ -15609,7 +15642,7 @@ var g = &grammar{
 																},
 															},
 															&litMatcher{
-																pos:        position{line: 655, col: 28, offset: 20713},
+																pos:        position{line: 662, col: 28, offset: 20956},
 																val:        "}",
 																ignoreCase: false,
 																want:       "\"}\"",
@@ -15618,10 +15651,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 704, col: 8, offset: 22613},
+													pos: position{line: 711, col: 8, offset: 22856},
 													run: (*parser).callonCrossReference41,
 													expr: &litMatcher{
-														pos:        position{line: 704, col: 8, offset: 22613},
+														pos:        position{line: 711, col: 8, offset: 22856},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -15632,7 +15665,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 689, col: 79, offset: 21999},
+									pos:        position{line: 696, col: 79, offset: 22242},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15641,27 +15674,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 691, col: 9, offset: 22072},
+						pos: position{line: 698, col: 9, offset: 22315},
 						run: (*parser).callonCrossReference44,
 						expr: &seqExpr{
-							pos: position{line: 691, col: 9, offset: 22072},
+							pos: position{line: 698, col: 9, offset: 22315},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 691, col: 9, offset: 22072},
+									pos:        position{line: 698, col: 9, offset: 22315},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 691, col: 14, offset: 22077},
+									pos:   position{line: 698, col: 14, offset: 22320},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2853, col: 7, offset: 90470},
+										pos: position{line: 2868, col: 7, offset: 90938},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2853, col: 7, offset: 90470},
+											pos: position{line: 2868, col: 7, offset: 90938},
 											expr: &charClassMatcher{
-												pos:        position{line: 2853, col: 7, offset: 90470},
+												pos:        position{line: 2868, col: 7, offset: 90938},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15671,7 +15704,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 691, col: 22, offset: 22085},
+									pos:        position{line: 698, col: 22, offset: 22328},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15680,7 +15713,7 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 687, col: 44, offset: 21896},
+						pos:  position{line: 694, col: 44, offset: 22139},
 						name: "ExternalCrossReference",
 					},
 				},
@@ -15688,58 +15721,58 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalCrossReference",
-			pos:  position{line: 695, col: 1, offset: 22156},
+			pos:  position{line: 702, col: 1, offset: 22399},
 			expr: &actionExpr{
-				pos: position{line: 695, col: 27, offset: 22182},
+				pos: position{line: 702, col: 27, offset: 22425},
 				run: (*parser).callonExternalCrossReference1,
 				expr: &seqExpr{
-					pos: position{line: 695, col: 27, offset: 22182},
+					pos: position{line: 702, col: 27, offset: 22425},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 695, col: 27, offset: 22182},
+							pos:        position{line: 702, col: 27, offset: 22425},
 							val:        "xref:",
 							ignoreCase: false,
 							want:       "\"xref:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 695, col: 35, offset: 22190},
+							pos:   position{line: 702, col: 35, offset: 22433},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2822, col: 17, offset: 89481},
+								pos: position{line: 2837, col: 17, offset: 89949},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2822, col: 17, offset: 89481},
+									pos:   position{line: 2837, col: 17, offset: 89949},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2839, col: 5, offset: 89935},
+										pos: position{line: 2854, col: 5, offset: 90403},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2839, col: 5, offset: 89935},
+											pos:   position{line: 2854, col: 5, offset: 90403},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2839, col: 14, offset: 89944},
+												pos: position{line: 2854, col: 14, offset: 90412},
 												expr: &choiceExpr{
-													pos: position{line: 2840, col: 9, offset: 89954},
+													pos: position{line: 2855, col: 9, offset: 90422},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2840, col: 9, offset: 89954},
+															pos: position{line: 2855, col: 9, offset: 90422},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2840, col: 9, offset: 89954},
+																pos: position{line: 2855, col: 9, offset: 90422},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2840, col: 9, offset: 89954},
+																		pos: position{line: 2855, col: 9, offset: 90422},
 																		expr: &litMatcher{
-																			pos:        position{line: 2840, col: 10, offset: 89955},
+																			pos:        position{line: 2855, col: 10, offset: 90423},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2841, col: 9, offset: 89983},
+																		pos: position{line: 2856, col: 9, offset: 90451},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2841, col: 10, offset: 89984},
+																			pos:        position{line: 2856, col: 10, offset: 90452},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15750,27 +15783,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2844, col: 11, offset: 90196},
+															pos: position{line: 2859, col: 11, offset: 90664},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2844, col: 11, offset: 90196},
+																	pos:        position{line: 2859, col: 11, offset: 90664},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2844, col: 19, offset: 90204},
+																	pos: position{line: 2859, col: 19, offset: 90672},
 																	expr: &seqExpr{
-																		pos: position{line: 2844, col: 21, offset: 90206},
+																		pos: position{line: 2859, col: 21, offset: 90674},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2844, col: 21, offset: 90206},
+																				pos: position{line: 2859, col: 21, offset: 90674},
 																				expr: &actionExpr{
-																					pos: position{line: 2868, col: 10, offset: 90818},
+																					pos: position{line: 2883, col: 10, offset: 91286},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2868, col: 10, offset: 90818},
+																						pos:        position{line: 2883, col: 10, offset: 91286},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15779,11 +15812,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2844, col: 28, offset: 90213},
+																				pos: position{line: 2859, col: 28, offset: 90681},
 																				expr: &notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
@@ -15793,35 +15826,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 639, col: 5, offset: 20212},
+															pos: position{line: 646, col: 5, offset: 20455},
 															run: (*parser).callonExternalCrossReference27,
 															expr: &seqExpr{
-																pos: position{line: 639, col: 5, offset: 20212},
+																pos: position{line: 646, col: 5, offset: 20455},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 639, col: 5, offset: 20212},
+																		pos: position{line: 646, col: 5, offset: 20455},
 																		run: (*parser).callonExternalCrossReference29,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 642, col: 5, offset: 20284},
+																		pos:   position{line: 649, col: 5, offset: 20527},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 642, col: 14, offset: 20293},
+																			pos: position{line: 649, col: 14, offset: 20536},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 648, col: 5, offset: 20422},
+																					pos: position{line: 655, col: 5, offset: 20665},
 																					run: (*parser).callonExternalCrossReference32,
 																					expr: &seqExpr{
-																						pos: position{line: 648, col: 5, offset: 20422},
+																						pos: position{line: 655, col: 5, offset: 20665},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 648, col: 5, offset: 20422},
+																								pos:        position{line: 655, col: 5, offset: 20665},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 648, col: 13, offset: 20430},
+																								pos:   position{line: 655, col: 13, offset: 20673},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -15853,7 +15886,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 648, col: 32, offset: 20449},
+																								pos:        position{line: 655, col: 32, offset: 20692},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15862,19 +15895,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 655, col: 5, offset: 20690},
+																					pos: position{line: 662, col: 5, offset: 20933},
 																					run: (*parser).callonExternalCrossReference42,
 																					expr: &seqExpr{
-																						pos: position{line: 655, col: 5, offset: 20690},
+																						pos: position{line: 662, col: 5, offset: 20933},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 655, col: 5, offset: 20690},
+																								pos:        position{line: 662, col: 5, offset: 20933},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 655, col: 9, offset: 20694},
+																								pos:   position{line: 662, col: 9, offset: 20937},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -15906,7 +15939,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 655, col: 28, offset: 20713},
+																								pos:        position{line: 662, col: 28, offset: 20956},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -15915,19 +15948,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 661, col: 25, offset: 20894},
+																					pos: position{line: 668, col: 25, offset: 21137},
 																					run: (*parser).callonExternalCrossReference52,
 																					expr: &seqExpr{
-																						pos: position{line: 661, col: 25, offset: 20894},
+																						pos: position{line: 668, col: 25, offset: 21137},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 661, col: 25, offset: 20894},
+																								pos:        position{line: 668, col: 25, offset: 21137},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 661, col: 37, offset: 20906},
+																								pos:   position{line: 668, col: 37, offset: 21149},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -15959,33 +15992,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 661, col: 56, offset: 20925},
+																								pos:   position{line: 668, col: 56, offset: 21168},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 661, col: 62, offset: 20931},
+																									pos: position{line: 668, col: 62, offset: 21174},
 																									expr: &actionExpr{
-																										pos: position{line: 669, col: 17, offset: 21226},
+																										pos: position{line: 676, col: 17, offset: 21469},
 																										run: (*parser).callonExternalCrossReference63,
 																										expr: &seqExpr{
-																											pos: position{line: 669, col: 17, offset: 21226},
+																											pos: position{line: 676, col: 17, offset: 21469},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 669, col: 17, offset: 21226},
+																													pos:        position{line: 676, col: 17, offset: 21469},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 669, col: 21, offset: 21230},
+																													pos:   position{line: 676, col: 21, offset: 21473},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 669, col: 28, offset: 21237},
+																														pos: position{line: 676, col: 28, offset: 21480},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 669, col: 28, offset: 21237},
+																																pos: position{line: 676, col: 28, offset: 21480},
 																																run: (*parser).callonExternalCrossReference68,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 669, col: 28, offset: 21237},
+																																	pos:        position{line: 676, col: 28, offset: 21480},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -15993,12 +16026,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 671, col: 9, offset: 21291},
+																																pos: position{line: 678, col: 9, offset: 21534},
 																																run: (*parser).callonExternalCrossReference70,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 671, col: 9, offset: 21291},
+																																	pos: position{line: 678, col: 9, offset: 21534},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 671, col: 9, offset: 21291},
+																																		pos:        position{line: 678, col: 9, offset: 21534},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -16015,7 +16048,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 661, col: 78, offset: 20947},
+																								pos:        position{line: 668, col: 78, offset: 21190},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16024,19 +16057,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 665, col: 25, offset: 21065},
+																					pos: position{line: 672, col: 25, offset: 21308},
 																					run: (*parser).callonExternalCrossReference74,
 																					expr: &seqExpr{
-																						pos: position{line: 665, col: 25, offset: 21065},
+																						pos: position{line: 672, col: 25, offset: 21308},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 665, col: 25, offset: 21065},
+																								pos:        position{line: 672, col: 25, offset: 21308},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 38, offset: 21078},
+																								pos:   position{line: 672, col: 38, offset: 21321},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -16068,33 +16101,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 57, offset: 21097},
+																								pos:   position{line: 672, col: 57, offset: 21340},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 665, col: 63, offset: 21103},
+																									pos: position{line: 672, col: 63, offset: 21346},
 																									expr: &actionExpr{
-																										pos: position{line: 669, col: 17, offset: 21226},
+																										pos: position{line: 676, col: 17, offset: 21469},
 																										run: (*parser).callonExternalCrossReference85,
 																										expr: &seqExpr{
-																											pos: position{line: 669, col: 17, offset: 21226},
+																											pos: position{line: 676, col: 17, offset: 21469},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 669, col: 17, offset: 21226},
+																													pos:        position{line: 676, col: 17, offset: 21469},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 669, col: 21, offset: 21230},
+																													pos:   position{line: 676, col: 21, offset: 21473},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 669, col: 28, offset: 21237},
+																														pos: position{line: 676, col: 28, offset: 21480},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 669, col: 28, offset: 21237},
+																																pos: position{line: 676, col: 28, offset: 21480},
 																																run: (*parser).callonExternalCrossReference90,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 669, col: 28, offset: 21237},
+																																	pos:        position{line: 676, col: 28, offset: 21480},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -16102,12 +16135,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 671, col: 9, offset: 21291},
+																																pos: position{line: 678, col: 9, offset: 21534},
 																																run: (*parser).callonExternalCrossReference92,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 671, col: 9, offset: 21291},
+																																	pos: position{line: 678, col: 9, offset: 21534},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 671, col: 9, offset: 21291},
+																																		pos:        position{line: 678, col: 9, offset: 21534},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -16124,7 +16157,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 665, col: 79, offset: 21119},
+																								pos:        position{line: 672, col: 79, offset: 21362},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16139,27 +16172,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1213, col: 23, offset: 37477},
+															pos: position{line: 1220, col: 23, offset: 37720},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1213, col: 23, offset: 37477},
+																pos: position{line: 1220, col: 23, offset: 37720},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1211, col: 32, offset: 37445},
+																		pos:        position{line: 1218, col: 32, offset: 37688},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1213, col: 51, offset: 37505},
+																		pos:   position{line: 1220, col: 51, offset: 37748},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1213, col: 56, offset: 37510},
+																			pos: position{line: 1220, col: 56, offset: 37753},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1213, col: 56, offset: 37510},
+																				pos: position{line: 1220, col: 56, offset: 37753},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1213, col: 56, offset: 37510},
+																					pos:        position{line: 1220, col: 56, offset: 37753},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -16169,7 +16202,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1211, col: 32, offset: 37445},
+																		pos:        position{line: 1218, col: 32, offset: 37688},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -16178,10 +16211,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2847, col: 11, offset: 90333},
+															pos: position{line: 2862, col: 11, offset: 90801},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2847, col: 11, offset: 90333},
+																pos:        position{line: 2862, col: 11, offset: 90801},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16196,10 +16229,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 695, col: 54, offset: 22209},
+							pos:   position{line: 702, col: 54, offset: 22452},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 695, col: 66, offset: 22221},
+								pos:  position{line: 702, col: 66, offset: 22464},
 								name: "InlineAttributes",
 							},
 						},
@@ -16209,29 +16242,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 1003, col: 1, offset: 31272},
+			pos:  position{line: 1010, col: 1, offset: 31515},
 			expr: &actionExpr{
-				pos: position{line: 1004, col: 5, offset: 31305},
+				pos: position{line: 1011, col: 5, offset: 31548},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 1004, col: 5, offset: 31305},
+					pos: position{line: 1011, col: 5, offset: 31548},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1004, col: 5, offset: 31305},
+							pos:        position{line: 1011, col: 5, offset: 31548},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1004, col: 11, offset: 31311},
+							pos:   position{line: 1011, col: 11, offset: 31554},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2818, col: 14, offset: 89411},
+								pos: position{line: 2833, col: 14, offset: 89879},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2818, col: 14, offset: 89411},
+									pos: position{line: 2833, col: 14, offset: 89879},
 									expr: &charClassMatcher{
-										pos:        position{line: 2818, col: 14, offset: 89411},
+										pos:        position{line: 2833, col: 14, offset: 89879},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16241,28 +16274,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2890, col: 8, offset: 91216},
+							pos: position{line: 2905, col: 8, offset: 91684},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2877, col: 12, offset: 90989},
+									pos: position{line: 2892, col: 12, offset: 91457},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2877, col: 13, offset: 90990},
+										pos: position{line: 2892, col: 13, offset: 91458},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2877, col: 13, offset: 90990},
+												pos:        position{line: 2892, col: 13, offset: 91458},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2877, col: 20, offset: 90997},
+												pos:        position{line: 2892, col: 20, offset: 91465},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2877, col: 29, offset: 91006},
+												pos:        position{line: 2892, col: 29, offset: 91474},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16271,9 +16304,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2887, col: 8, offset: 91166},
+									pos: position{line: 2902, col: 8, offset: 91634},
 									expr: &anyMatcher{
-										line: 2887, col: 9, offset: 91167,
+										line: 2902, col: 9, offset: 91635,
 									},
 								},
 							},
@@ -16284,53 +16317,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1115, col: 1, offset: 34228},
+			pos:  position{line: 1122, col: 1, offset: 34471},
 			expr: &actionExpr{
-				pos: position{line: 1116, col: 5, offset: 34251},
+				pos: position{line: 1123, col: 5, offset: 34494},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1116, col: 5, offset: 34251},
+					pos: position{line: 1123, col: 5, offset: 34494},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1116, col: 5, offset: 34251},
+							pos: position{line: 1123, col: 5, offset: 34494},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1119, col: 5, offset: 34312},
+							pos: position{line: 1126, col: 5, offset: 34555},
 							expr: &choiceExpr{
-								pos: position{line: 1119, col: 6, offset: 34313},
+								pos: position{line: 1126, col: 6, offset: 34556},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2478, col: 22, offset: 79761},
+										pos: position{line: 2493, col: 22, offset: 80229},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2478, col: 22, offset: 79761},
+											pos: position{line: 2493, col: 22, offset: 80229},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2483, col: 31, offset: 79982},
+													pos:        position{line: 2498, col: 31, offset: 80450},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2483, col: 36, offset: 79987},
+													pos: position{line: 2498, col: 36, offset: 80455},
 													expr: &litMatcher{
-														pos:        position{line: 2483, col: 37, offset: 79988},
+														pos:        position{line: 2498, col: 37, offset: 80456},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2478, col: 49, offset: 79788},
+													pos:   position{line: 2493, col: 49, offset: 80256},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2814, col: 13, offset: 89344},
+														pos: position{line: 2829, col: 13, offset: 89812},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2814, col: 13, offset: 89344},
+															pos: position{line: 2829, col: 13, offset: 89812},
 															expr: &charClassMatcher{
-																pos:        position{line: 2814, col: 13, offset: 89344},
+																pos:        position{line: 2829, col: 13, offset: 89812},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16340,28 +16373,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2890, col: 8, offset: 91216},
+													pos: position{line: 2905, col: 8, offset: 91684},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2877, col: 12, offset: 90989},
+															pos: position{line: 2892, col: 12, offset: 91457},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2877, col: 13, offset: 90990},
+																pos: position{line: 2892, col: 13, offset: 91458},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 13, offset: 90990},
+																		pos:        position{line: 2892, col: 13, offset: 91458},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 20, offset: 90997},
+																		pos:        position{line: 2892, col: 20, offset: 91465},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 29, offset: 91006},
+																		pos:        position{line: 2892, col: 29, offset: 91474},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16370,9 +16403,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2887, col: 8, offset: 91166},
+															pos: position{line: 2902, col: 8, offset: 91634},
 															expr: &anyMatcher{
-																line: 2887, col: 9, offset: 91167,
+																line: 2902, col: 9, offset: 91635,
 															},
 														},
 													},
@@ -16381,39 +16414,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 823, col: 5, offset: 26427},
+										pos: position{line: 830, col: 5, offset: 26670},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 823, col: 5, offset: 26427},
+											pos: position{line: 830, col: 5, offset: 26670},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 823, col: 5, offset: 26427},
+													pos:   position{line: 830, col: 5, offset: 26670},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 743, col: 5, offset: 23687},
+														pos: position{line: 750, col: 5, offset: 23930},
 														run: (*parser).callonDocumentHeader26,
 														expr: &seqExpr{
-															pos: position{line: 743, col: 5, offset: 23687},
+															pos: position{line: 750, col: 5, offset: 23930},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 743, col: 5, offset: 23687},
+																	pos:   position{line: 750, col: 5, offset: 23930},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 743, col: 16, offset: 23698},
+																		pos: position{line: 750, col: 16, offset: 23941},
 																		run: (*parser).callonDocumentHeader29,
 																		expr: &seqExpr{
-																			pos: position{line: 743, col: 16, offset: 23698},
+																			pos: position{line: 750, col: 16, offset: 23941},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 743, col: 16, offset: 23698},
+																					pos:        position{line: 750, col: 16, offset: 23941},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 743, col: 23, offset: 23705},
+																					pos: position{line: 750, col: 23, offset: 23948},
 																					expr: &litMatcher{
-																						pos:        position{line: 743, col: 23, offset: 23705},
+																						pos:        position{line: 750, col: 23, offset: 23948},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -16424,12 +16457,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 745, col: 8, offset: 23789},
+																	pos: position{line: 752, col: 8, offset: 24032},
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 10, offset: 90818},
+																		pos: position{line: 2883, col: 10, offset: 91286},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90818},
+																			pos:        position{line: 2883, col: 10, offset: 91286},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16438,28 +16471,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16468,9 +16501,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -16480,56 +16513,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 824, col: 5, offset: 26466},
+													pos: position{line: 831, col: 5, offset: 26709},
 													run: (*parser).callonDocumentHeader45,
 												},
 												&labeledExpr{
-													pos:   position{line: 827, col: 5, offset: 26558},
+													pos:   position{line: 834, col: 5, offset: 26801},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 842, col: 5, offset: 26956},
+														pos: position{line: 849, col: 5, offset: 27199},
 														expr: &actionExpr{
-															pos: position{line: 842, col: 6, offset: 26957},
+															pos: position{line: 849, col: 6, offset: 27200},
 															run: (*parser).callonDocumentHeader48,
 															expr: &seqExpr{
-																pos: position{line: 842, col: 6, offset: 26957},
+																pos: position{line: 849, col: 6, offset: 27200},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 842, col: 6, offset: 26957},
+																		pos: position{line: 849, col: 6, offset: 27200},
 																		expr: &choiceExpr{
-																			pos: position{line: 835, col: 5, offset: 26798},
+																			pos: position{line: 842, col: 5, offset: 27041},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 835, col: 5, offset: 26798},
+																					pos: position{line: 842, col: 5, offset: 27041},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 835, col: 5, offset: 26798},
+																							pos:   position{line: 842, col: 5, offset: 27041},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 743, col: 5, offset: 23687},
+																								pos: position{line: 750, col: 5, offset: 23930},
 																								run: (*parser).callonDocumentHeader54,
 																								expr: &seqExpr{
-																									pos: position{line: 743, col: 5, offset: 23687},
+																									pos: position{line: 750, col: 5, offset: 23930},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 743, col: 5, offset: 23687},
+																											pos:   position{line: 750, col: 5, offset: 23930},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 743, col: 16, offset: 23698},
+																												pos: position{line: 750, col: 16, offset: 23941},
 																												run: (*parser).callonDocumentHeader57,
 																												expr: &seqExpr{
-																													pos: position{line: 743, col: 16, offset: 23698},
+																													pos: position{line: 750, col: 16, offset: 23941},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 743, col: 16, offset: 23698},
+																															pos:        position{line: 750, col: 16, offset: 23941},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 743, col: 23, offset: 23705},
+																															pos: position{line: 750, col: 23, offset: 23948},
 																															expr: &litMatcher{
-																																pos:        position{line: 743, col: 23, offset: 23705},
+																																pos:        position{line: 750, col: 23, offset: 23948},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -16540,12 +16573,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 745, col: 8, offset: 23789},
+																											pos: position{line: 752, col: 8, offset: 24032},
 																											expr: &actionExpr{
-																												pos: position{line: 2868, col: 10, offset: 90818},
+																												pos: position{line: 2883, col: 10, offset: 91286},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 10, offset: 90818},
+																													pos:        position{line: 2883, col: 10, offset: 91286},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -16554,28 +16587,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2890, col: 8, offset: 91216},
+																											pos: position{line: 2905, col: 8, offset: 91684},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2877, col: 12, offset: 90989},
+																													pos: position{line: 2892, col: 12, offset: 91457},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2877, col: 13, offset: 90990},
+																														pos: position{line: 2892, col: 13, offset: 91458},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -16584,9 +16617,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2887, col: 8, offset: 91166},
+																													pos: position{line: 2902, col: 8, offset: 91634},
 																													expr: &anyMatcher{
-																														line: 2887, col: 9, offset: 91167,
+																														line: 2902, col: 9, offset: 91635,
 																													},
 																												},
 																											},
@@ -16596,45 +16629,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 836, col: 5, offset: 26829},
+																							pos: position{line: 843, col: 5, offset: 27072},
 																							run: (*parser).callonDocumentHeader73,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 843, col: 5, offset: 26987},
+																		pos:   position{line: 850, col: 5, offset: 27230},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26191},
+																			pos: position{line: 821, col: 5, offset: 26434},
 																			run: (*parser).callonDocumentHeader77,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26191},
+																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2885, col: 11, offset: 91152},
+																						pos: position{line: 2900, col: 11, offset: 91620},
 																						expr: &anyMatcher{
-																							line: 2885, col: 13, offset: 91154,
+																							line: 2900, col: 13, offset: 91622,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26266},
+																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2814, col: 13, offset: 89344},
+																							pos: position{line: 2829, col: 13, offset: 89812},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2814, col: 13, offset: 89344},
+																								pos: position{line: 2829, col: 13, offset: 89812},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2814, col: 13, offset: 89344},
+																									pos:        position{line: 2829, col: 13, offset: 89812},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16644,28 +16677,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2890, col: 8, offset: 91216},
+																						pos: position{line: 2905, col: 8, offset: 91684},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2877, col: 12, offset: 90989},
+																								pos: position{line: 2892, col: 12, offset: 91457},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2877, col: 13, offset: 90990},
+																									pos: position{line: 2892, col: 13, offset: 91458},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 13, offset: 90990},
+																											pos:        position{line: 2892, col: 13, offset: 91458},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 20, offset: 90997},
+																											pos:        position{line: 2892, col: 20, offset: 91465},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 29, offset: 91006},
+																											pos:        position{line: 2892, col: 29, offset: 91474},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16674,9 +16707,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2887, col: 8, offset: 91166},
+																								pos: position{line: 2902, col: 8, offset: 91634},
 																								expr: &anyMatcher{
-																									line: 2887, col: 9, offset: 91167,
+																									line: 2902, col: 9, offset: 91635,
 																								},
 																							},
 																						},
@@ -16691,44 +16724,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 828, col: 5, offset: 26592},
+													pos:   position{line: 835, col: 5, offset: 26835},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 828, col: 9, offset: 26596},
+														pos: position{line: 835, col: 9, offset: 26839},
 														expr: &choiceExpr{
-															pos: position{line: 835, col: 5, offset: 26798},
+															pos: position{line: 842, col: 5, offset: 27041},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 835, col: 5, offset: 26798},
+																	pos: position{line: 842, col: 5, offset: 27041},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 835, col: 5, offset: 26798},
+																			pos:   position{line: 842, col: 5, offset: 27041},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 743, col: 5, offset: 23687},
+																				pos: position{line: 750, col: 5, offset: 23930},
 																				run: (*parser).callonDocumentHeader98,
 																				expr: &seqExpr{
-																					pos: position{line: 743, col: 5, offset: 23687},
+																					pos: position{line: 750, col: 5, offset: 23930},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 743, col: 5, offset: 23687},
+																							pos:   position{line: 750, col: 5, offset: 23930},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 743, col: 16, offset: 23698},
+																								pos: position{line: 750, col: 16, offset: 23941},
 																								run: (*parser).callonDocumentHeader101,
 																								expr: &seqExpr{
-																									pos: position{line: 743, col: 16, offset: 23698},
+																									pos: position{line: 750, col: 16, offset: 23941},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 743, col: 16, offset: 23698},
+																											pos:        position{line: 750, col: 16, offset: 23941},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 743, col: 23, offset: 23705},
+																											pos: position{line: 750, col: 23, offset: 23948},
 																											expr: &litMatcher{
-																												pos:        position{line: 743, col: 23, offset: 23705},
+																												pos:        position{line: 750, col: 23, offset: 23948},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -16739,12 +16772,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 745, col: 8, offset: 23789},
+																							pos: position{line: 752, col: 8, offset: 24032},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonDocumentHeader107,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -16753,28 +16786,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonDocumentHeader110,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -16783,9 +16816,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -16795,15 +16828,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 836, col: 5, offset: 26829},
+																			pos: position{line: 843, col: 5, offset: 27072},
 																			run: (*parser).callonDocumentHeader117,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2887, col: 8, offset: 91166},
+																	pos: position{line: 2902, col: 8, offset: 91634},
 																	expr: &anyMatcher{
-																		line: 2887, col: 9, offset: 91167,
+																		line: 2902, col: 9, offset: 91635,
 																	},
 																},
 															},
@@ -16817,49 +16850,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1120, col: 5, offset: 34409},
+							pos:   position{line: 1127, col: 5, offset: 34652},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1120, col: 12, offset: 34416},
+								pos:  position{line: 1127, col: 12, offset: 34659},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1121, col: 5, offset: 34435},
+							pos: position{line: 1128, col: 5, offset: 34678},
 							expr: &choiceExpr{
-								pos: position{line: 1121, col: 6, offset: 34436},
+								pos: position{line: 1128, col: 6, offset: 34679},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2478, col: 22, offset: 79761},
+										pos: position{line: 2493, col: 22, offset: 80229},
 										run: (*parser).callonDocumentHeader124,
 										expr: &seqExpr{
-											pos: position{line: 2478, col: 22, offset: 79761},
+											pos: position{line: 2493, col: 22, offset: 80229},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2483, col: 31, offset: 79982},
+													pos:        position{line: 2498, col: 31, offset: 80450},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2483, col: 36, offset: 79987},
+													pos: position{line: 2498, col: 36, offset: 80455},
 													expr: &litMatcher{
-														pos:        position{line: 2483, col: 37, offset: 79988},
+														pos:        position{line: 2498, col: 37, offset: 80456},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2478, col: 49, offset: 79788},
+													pos:   position{line: 2493, col: 49, offset: 80256},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2814, col: 13, offset: 89344},
+														pos: position{line: 2829, col: 13, offset: 89812},
 														run: (*parser).callonDocumentHeader130,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2814, col: 13, offset: 89344},
+															pos: position{line: 2829, col: 13, offset: 89812},
 															expr: &charClassMatcher{
-																pos:        position{line: 2814, col: 13, offset: 89344},
+																pos:        position{line: 2829, col: 13, offset: 89812},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16869,28 +16902,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2890, col: 8, offset: 91216},
+													pos: position{line: 2905, col: 8, offset: 91684},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2877, col: 12, offset: 90989},
+															pos: position{line: 2892, col: 12, offset: 91457},
 															run: (*parser).callonDocumentHeader134,
 															expr: &choiceExpr{
-																pos: position{line: 2877, col: 13, offset: 90990},
+																pos: position{line: 2892, col: 13, offset: 91458},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 13, offset: 90990},
+																		pos:        position{line: 2892, col: 13, offset: 91458},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 20, offset: 90997},
+																		pos:        position{line: 2892, col: 20, offset: 91465},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 29, offset: 91006},
+																		pos:        position{line: 2892, col: 29, offset: 91474},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16899,9 +16932,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2887, col: 8, offset: 91166},
+															pos: position{line: 2902, col: 8, offset: 91634},
 															expr: &anyMatcher{
-																line: 2887, col: 9, offset: 91167,
+																line: 2902, col: 9, offset: 91635,
 															},
 														},
 													},
@@ -16910,39 +16943,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 823, col: 5, offset: 26427},
+										pos: position{line: 830, col: 5, offset: 26670},
 										run: (*parser).callonDocumentHeader141,
 										expr: &seqExpr{
-											pos: position{line: 823, col: 5, offset: 26427},
+											pos: position{line: 830, col: 5, offset: 26670},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 823, col: 5, offset: 26427},
+													pos:   position{line: 830, col: 5, offset: 26670},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 743, col: 5, offset: 23687},
+														pos: position{line: 750, col: 5, offset: 23930},
 														run: (*parser).callonDocumentHeader144,
 														expr: &seqExpr{
-															pos: position{line: 743, col: 5, offset: 23687},
+															pos: position{line: 750, col: 5, offset: 23930},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 743, col: 5, offset: 23687},
+																	pos:   position{line: 750, col: 5, offset: 23930},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 743, col: 16, offset: 23698},
+																		pos: position{line: 750, col: 16, offset: 23941},
 																		run: (*parser).callonDocumentHeader147,
 																		expr: &seqExpr{
-																			pos: position{line: 743, col: 16, offset: 23698},
+																			pos: position{line: 750, col: 16, offset: 23941},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 743, col: 16, offset: 23698},
+																					pos:        position{line: 750, col: 16, offset: 23941},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 743, col: 23, offset: 23705},
+																					pos: position{line: 750, col: 23, offset: 23948},
 																					expr: &litMatcher{
-																						pos:        position{line: 743, col: 23, offset: 23705},
+																						pos:        position{line: 750, col: 23, offset: 23948},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -16953,12 +16986,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 745, col: 8, offset: 23789},
+																	pos: position{line: 752, col: 8, offset: 24032},
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 10, offset: 90818},
+																		pos: position{line: 2883, col: 10, offset: 91286},
 																		run: (*parser).callonDocumentHeader153,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90818},
+																			pos:        position{line: 2883, col: 10, offset: 91286},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16967,28 +17000,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonDocumentHeader156,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16997,9 +17030,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -17009,56 +17042,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 824, col: 5, offset: 26466},
+													pos: position{line: 831, col: 5, offset: 26709},
 													run: (*parser).callonDocumentHeader163,
 												},
 												&labeledExpr{
-													pos:   position{line: 827, col: 5, offset: 26558},
+													pos:   position{line: 834, col: 5, offset: 26801},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 842, col: 5, offset: 26956},
+														pos: position{line: 849, col: 5, offset: 27199},
 														expr: &actionExpr{
-															pos: position{line: 842, col: 6, offset: 26957},
+															pos: position{line: 849, col: 6, offset: 27200},
 															run: (*parser).callonDocumentHeader166,
 															expr: &seqExpr{
-																pos: position{line: 842, col: 6, offset: 26957},
+																pos: position{line: 849, col: 6, offset: 27200},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 842, col: 6, offset: 26957},
+																		pos: position{line: 849, col: 6, offset: 27200},
 																		expr: &choiceExpr{
-																			pos: position{line: 835, col: 5, offset: 26798},
+																			pos: position{line: 842, col: 5, offset: 27041},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 835, col: 5, offset: 26798},
+																					pos: position{line: 842, col: 5, offset: 27041},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 835, col: 5, offset: 26798},
+																							pos:   position{line: 842, col: 5, offset: 27041},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 743, col: 5, offset: 23687},
+																								pos: position{line: 750, col: 5, offset: 23930},
 																								run: (*parser).callonDocumentHeader172,
 																								expr: &seqExpr{
-																									pos: position{line: 743, col: 5, offset: 23687},
+																									pos: position{line: 750, col: 5, offset: 23930},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 743, col: 5, offset: 23687},
+																											pos:   position{line: 750, col: 5, offset: 23930},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 743, col: 16, offset: 23698},
+																												pos: position{line: 750, col: 16, offset: 23941},
 																												run: (*parser).callonDocumentHeader175,
 																												expr: &seqExpr{
-																													pos: position{line: 743, col: 16, offset: 23698},
+																													pos: position{line: 750, col: 16, offset: 23941},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 743, col: 16, offset: 23698},
+																															pos:        position{line: 750, col: 16, offset: 23941},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 743, col: 23, offset: 23705},
+																															pos: position{line: 750, col: 23, offset: 23948},
 																															expr: &litMatcher{
-																																pos:        position{line: 743, col: 23, offset: 23705},
+																																pos:        position{line: 750, col: 23, offset: 23948},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -17069,12 +17102,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 745, col: 8, offset: 23789},
+																											pos: position{line: 752, col: 8, offset: 24032},
 																											expr: &actionExpr{
-																												pos: position{line: 2868, col: 10, offset: 90818},
+																												pos: position{line: 2883, col: 10, offset: 91286},
 																												run: (*parser).callonDocumentHeader181,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 10, offset: 90818},
+																													pos:        position{line: 2883, col: 10, offset: 91286},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17083,28 +17116,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2890, col: 8, offset: 91216},
+																											pos: position{line: 2905, col: 8, offset: 91684},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2877, col: 12, offset: 90989},
+																													pos: position{line: 2892, col: 12, offset: 91457},
 																													run: (*parser).callonDocumentHeader184,
 																													expr: &choiceExpr{
-																														pos: position{line: 2877, col: 13, offset: 90990},
+																														pos: position{line: 2892, col: 13, offset: 91458},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17113,9 +17146,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2887, col: 8, offset: 91166},
+																													pos: position{line: 2902, col: 8, offset: 91634},
 																													expr: &anyMatcher{
-																														line: 2887, col: 9, offset: 91167,
+																														line: 2902, col: 9, offset: 91635,
 																													},
 																												},
 																											},
@@ -17125,45 +17158,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 836, col: 5, offset: 26829},
+																							pos: position{line: 843, col: 5, offset: 27072},
 																							run: (*parser).callonDocumentHeader191,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 843, col: 5, offset: 26987},
+																		pos:   position{line: 850, col: 5, offset: 27230},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26191},
+																			pos: position{line: 821, col: 5, offset: 26434},
 																			run: (*parser).callonDocumentHeader195,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26191},
+																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2885, col: 11, offset: 91152},
+																						pos: position{line: 2900, col: 11, offset: 91620},
 																						expr: &anyMatcher{
-																							line: 2885, col: 13, offset: 91154,
+																							line: 2900, col: 13, offset: 91622,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26266},
+																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2814, col: 13, offset: 89344},
+																							pos: position{line: 2829, col: 13, offset: 89812},
 																							run: (*parser).callonDocumentHeader200,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2814, col: 13, offset: 89344},
+																								pos: position{line: 2829, col: 13, offset: 89812},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2814, col: 13, offset: 89344},
+																									pos:        position{line: 2829, col: 13, offset: 89812},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17173,28 +17206,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2890, col: 8, offset: 91216},
+																						pos: position{line: 2905, col: 8, offset: 91684},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2877, col: 12, offset: 90989},
+																								pos: position{line: 2892, col: 12, offset: 91457},
 																								run: (*parser).callonDocumentHeader204,
 																								expr: &choiceExpr{
-																									pos: position{line: 2877, col: 13, offset: 90990},
+																									pos: position{line: 2892, col: 13, offset: 91458},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 13, offset: 90990},
+																											pos:        position{line: 2892, col: 13, offset: 91458},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 20, offset: 90997},
+																											pos:        position{line: 2892, col: 20, offset: 91465},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 29, offset: 91006},
+																											pos:        position{line: 2892, col: 29, offset: 91474},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17203,9 +17236,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2887, col: 8, offset: 91166},
+																								pos: position{line: 2902, col: 8, offset: 91634},
 																								expr: &anyMatcher{
-																									line: 2887, col: 9, offset: 91167,
+																									line: 2902, col: 9, offset: 91635,
 																								},
 																							},
 																						},
@@ -17220,44 +17253,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 828, col: 5, offset: 26592},
+													pos:   position{line: 835, col: 5, offset: 26835},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 828, col: 9, offset: 26596},
+														pos: position{line: 835, col: 9, offset: 26839},
 														expr: &choiceExpr{
-															pos: position{line: 835, col: 5, offset: 26798},
+															pos: position{line: 842, col: 5, offset: 27041},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 835, col: 5, offset: 26798},
+																	pos: position{line: 842, col: 5, offset: 27041},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 835, col: 5, offset: 26798},
+																			pos:   position{line: 842, col: 5, offset: 27041},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 743, col: 5, offset: 23687},
+																				pos: position{line: 750, col: 5, offset: 23930},
 																				run: (*parser).callonDocumentHeader216,
 																				expr: &seqExpr{
-																					pos: position{line: 743, col: 5, offset: 23687},
+																					pos: position{line: 750, col: 5, offset: 23930},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 743, col: 5, offset: 23687},
+																							pos:   position{line: 750, col: 5, offset: 23930},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 743, col: 16, offset: 23698},
+																								pos: position{line: 750, col: 16, offset: 23941},
 																								run: (*parser).callonDocumentHeader219,
 																								expr: &seqExpr{
-																									pos: position{line: 743, col: 16, offset: 23698},
+																									pos: position{line: 750, col: 16, offset: 23941},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 743, col: 16, offset: 23698},
+																											pos:        position{line: 750, col: 16, offset: 23941},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 743, col: 23, offset: 23705},
+																											pos: position{line: 750, col: 23, offset: 23948},
 																											expr: &litMatcher{
-																												pos:        position{line: 743, col: 23, offset: 23705},
+																												pos:        position{line: 750, col: 23, offset: 23948},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -17268,12 +17301,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 745, col: 8, offset: 23789},
+																							pos: position{line: 752, col: 8, offset: 24032},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonDocumentHeader225,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -17282,28 +17315,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonDocumentHeader228,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -17312,9 +17345,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -17324,15 +17357,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 836, col: 5, offset: 26829},
+																			pos: position{line: 843, col: 5, offset: 27072},
 																			run: (*parser).callonDocumentHeader235,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2887, col: 8, offset: 91166},
+																	pos: position{line: 2902, col: 8, offset: 91634},
 																	expr: &anyMatcher{
-																		line: 2887, col: 9, offset: 91167,
+																		line: 2902, col: 9, offset: 91635,
 																	},
 																},
 															},
@@ -17346,41 +17379,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1122, col: 5, offset: 34532},
+							pos:   position{line: 1129, col: 5, offset: 34775},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1122, col: 24, offset: 34551},
+								pos: position{line: 1129, col: 24, offset: 34794},
 								expr: &actionExpr{
-									pos: position{line: 1133, col: 5, offset: 34926},
+									pos: position{line: 1140, col: 5, offset: 35169},
 									run: (*parser).callonDocumentHeader240,
 									expr: &seqExpr{
-										pos: position{line: 1133, col: 5, offset: 34926},
+										pos: position{line: 1140, col: 5, offset: 35169},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1133, col: 5, offset: 34926},
+												pos: position{line: 1140, col: 5, offset: 35169},
 												expr: &litMatcher{
-													pos:        position{line: 1133, col: 6, offset: 34927},
+													pos:        position{line: 1140, col: 6, offset: 35170},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1134, col: 5, offset: 34935},
+												pos:   position{line: 1141, col: 5, offset: 35178},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1140, col: 20, offset: 35191},
+													pos: position{line: 1147, col: 20, offset: 35434},
 													run: (*parser).callonDocumentHeader245,
 													expr: &seqExpr{
-														pos: position{line: 1140, col: 20, offset: 35191},
+														pos: position{line: 1147, col: 20, offset: 35434},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1140, col: 20, offset: 35191},
+																pos: position{line: 1147, col: 20, offset: 35434},
 																expr: &actionExpr{
-																	pos: position{line: 2868, col: 10, offset: 90818},
+																	pos: position{line: 2883, col: 10, offset: 91286},
 																	run: (*parser).callonDocumentHeader248,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2868, col: 10, offset: 90818},
+																		pos:        position{line: 2883, col: 10, offset: 91286},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17389,37 +17422,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1140, col: 27, offset: 35198},
+																pos:   position{line: 1147, col: 27, offset: 35441},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1140, col: 36, offset: 35207},
+																	pos: position{line: 1147, col: 36, offset: 35450},
 																	expr: &actionExpr{
-																		pos: position{line: 1145, col: 5, offset: 35320},
+																		pos: position{line: 1152, col: 5, offset: 35563},
 																		run: (*parser).callonDocumentHeader252,
 																		expr: &seqExpr{
-																			pos: position{line: 1145, col: 5, offset: 35320},
+																			pos: position{line: 1152, col: 5, offset: 35563},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1145, col: 5, offset: 35320},
+																					pos:   position{line: 1152, col: 5, offset: 35563},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1145, col: 14, offset: 35329},
+																						pos: position{line: 1152, col: 14, offset: 35572},
 																						expr: &actionExpr{
-																							pos: position{line: 1156, col: 5, offset: 35709},
+																							pos: position{line: 1163, col: 5, offset: 35952},
 																							run: (*parser).callonDocumentHeader256,
 																							expr: &seqExpr{
-																								pos: position{line: 1156, col: 5, offset: 35709},
+																								pos: position{line: 1163, col: 5, offset: 35952},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1156, col: 5, offset: 35709},
+																										pos:   position{line: 1163, col: 5, offset: 35952},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1156, col: 12, offset: 35716},
+																											pos: position{line: 1163, col: 12, offset: 35959},
 																											run: (*parser).callonDocumentHeader259,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1156, col: 12, offset: 35716},
+																												pos: position{line: 1163, col: 12, offset: 35959},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1156, col: 12, offset: 35716},
+																													pos:        position{line: 1163, col: 12, offset: 35959},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -17429,12 +17462,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1159, col: 5, offset: 35796},
+																										pos: position{line: 1166, col: 5, offset: 36039},
 																										expr: &actionExpr{
-																											pos: position{line: 2868, col: 10, offset: 90818},
+																											pos: position{line: 2883, col: 10, offset: 91286},
 																											run: (*parser).callonDocumentHeader263,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2868, col: 10, offset: 90818},
+																												pos:        position{line: 2883, col: 10, offset: 91286},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17443,17 +17476,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1160, col: 5, offset: 35807},
+																										pos:   position{line: 1167, col: 5, offset: 36050},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1160, col: 11, offset: 35813},
+																											pos: position{line: 1167, col: 11, offset: 36056},
 																											expr: &actionExpr{
-																												pos: position{line: 1160, col: 12, offset: 35814},
+																												pos: position{line: 1167, col: 12, offset: 36057},
 																												run: (*parser).callonDocumentHeader267,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1160, col: 12, offset: 35814},
+																													pos: position{line: 1167, col: 12, offset: 36057},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1160, col: 12, offset: 35814},
+																														pos:        position{line: 1167, col: 12, offset: 36057},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -17464,12 +17497,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1163, col: 5, offset: 35895},
+																										pos: position{line: 1170, col: 5, offset: 36138},
 																										expr: &actionExpr{
-																											pos: position{line: 2868, col: 10, offset: 90818},
+																											pos: position{line: 2883, col: 10, offset: 91286},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2868, col: 10, offset: 90818},
+																												pos:        position{line: 2883, col: 10, offset: 91286},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17478,17 +17511,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1164, col: 5, offset: 35906},
+																										pos:   position{line: 1171, col: 5, offset: 36149},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1164, col: 11, offset: 35912},
+																											pos: position{line: 1171, col: 11, offset: 36155},
 																											expr: &actionExpr{
-																												pos: position{line: 1164, col: 12, offset: 35913},
+																												pos: position{line: 1171, col: 12, offset: 36156},
 																												run: (*parser).callonDocumentHeader275,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1164, col: 12, offset: 35913},
+																													pos: position{line: 1171, col: 12, offset: 36156},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1164, col: 12, offset: 35913},
+																														pos:        position{line: 1171, col: 12, offset: 36156},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -17499,12 +17532,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1167, col: 5, offset: 35992},
+																										pos: position{line: 1174, col: 5, offset: 36235},
 																										expr: &actionExpr{
-																											pos: position{line: 2868, col: 10, offset: 90818},
+																											pos: position{line: 2883, col: 10, offset: 91286},
 																											run: (*parser).callonDocumentHeader279,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2868, col: 10, offset: 90818},
+																												pos:        position{line: 2883, col: 10, offset: 91286},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17518,38 +17551,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1145, col: 40, offset: 35355},
+																					pos:   position{line: 1152, col: 40, offset: 35598},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1145, col: 46, offset: 35361},
+																						pos: position{line: 1152, col: 46, offset: 35604},
 																						expr: &actionExpr{
-																							pos: position{line: 1173, col: 5, offset: 36114},
+																							pos: position{line: 1180, col: 5, offset: 36357},
 																							run: (*parser).callonDocumentHeader283,
 																							expr: &seqExpr{
-																								pos: position{line: 1173, col: 5, offset: 36114},
+																								pos: position{line: 1180, col: 5, offset: 36357},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2885, col: 11, offset: 91152},
+																										pos: position{line: 2900, col: 11, offset: 91620},
 																										expr: &anyMatcher{
-																											line: 2885, col: 13, offset: 91154,
+																											line: 2900, col: 13, offset: 91622,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1174, col: 5, offset: 36126},
+																										pos:        position{line: 1181, col: 5, offset: 36369},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1175, col: 5, offset: 36135},
+																										pos:   position{line: 1182, col: 5, offset: 36378},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1175, col: 12, offset: 36142},
+																											pos: position{line: 1182, col: 12, offset: 36385},
 																											run: (*parser).callonDocumentHeader289,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1175, col: 13, offset: 36143},
+																												pos: position{line: 1182, col: 13, offset: 36386},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1175, col: 13, offset: 36143},
+																													pos:        position{line: 1182, col: 13, offset: 36386},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -17559,7 +17592,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1178, col: 5, offset: 36203},
+																										pos:        position{line: 1185, col: 5, offset: 36446},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -17570,12 +17603,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1145, col: 69, offset: 35384},
+																					pos: position{line: 1152, col: 69, offset: 35627},
 																					expr: &actionExpr{
-																						pos: position{line: 2868, col: 10, offset: 90818},
+																						pos: position{line: 2883, col: 10, offset: 91286},
 																						run: (*parser).callonDocumentHeader294,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 10, offset: 90818},
+																							pos:        position{line: 2883, col: 10, offset: 91286},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17584,21 +17617,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1145, col: 76, offset: 35391},
+																					pos: position{line: 1152, col: 76, offset: 35634},
 																					expr: &litMatcher{
-																						pos:        position{line: 1145, col: 76, offset: 35391},
+																						pos:        position{line: 1152, col: 76, offset: 35634},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1145, col: 81, offset: 35396},
+																					pos: position{line: 1152, col: 81, offset: 35639},
 																					expr: &actionExpr{
-																						pos: position{line: 2868, col: 10, offset: 90818},
+																						pos: position{line: 2883, col: 10, offset: 91286},
 																						run: (*parser).callonDocumentHeader299,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 10, offset: 90818},
+																							pos:        position{line: 2883, col: 10, offset: 91286},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17607,7 +17640,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1146, col: 5, offset: 35408},
+																					pos: position{line: 1153, col: 5, offset: 35651},
 																					run: (*parser).callonDocumentHeader301,
 																				},
 																			},
@@ -17616,28 +17649,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2890, col: 8, offset: 91216},
+																pos: position{line: 2905, col: 8, offset: 91684},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2877, col: 12, offset: 90989},
+																		pos: position{line: 2892, col: 12, offset: 91457},
 																		run: (*parser).callonDocumentHeader303,
 																		expr: &choiceExpr{
-																			pos: position{line: 2877, col: 13, offset: 90990},
+																			pos: position{line: 2892, col: 13, offset: 91458},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2877, col: 13, offset: 90990},
+																					pos:        position{line: 2892, col: 13, offset: 91458},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2877, col: 20, offset: 90997},
+																					pos:        position{line: 2892, col: 20, offset: 91465},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2877, col: 29, offset: 91006},
+																					pos:        position{line: 2892, col: 29, offset: 91474},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17646,9 +17679,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2887, col: 8, offset: 91166},
+																		pos: position{line: 2902, col: 8, offset: 91634},
 																		expr: &anyMatcher{
-																			line: 2887, col: 9, offset: 91167,
+																			line: 2902, col: 9, offset: 91635,
 																		},
 																	},
 																},
@@ -17658,41 +17691,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1135, col: 5, offset: 34965},
+												pos: position{line: 1142, col: 5, offset: 35208},
 												expr: &choiceExpr{
-													pos: position{line: 1135, col: 6, offset: 34966},
+													pos: position{line: 1142, col: 6, offset: 35209},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2478, col: 22, offset: 79761},
+															pos: position{line: 2493, col: 22, offset: 80229},
 															run: (*parser).callonDocumentHeader312,
 															expr: &seqExpr{
-																pos: position{line: 2478, col: 22, offset: 79761},
+																pos: position{line: 2493, col: 22, offset: 80229},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2483, col: 31, offset: 79982},
+																		pos:        position{line: 2498, col: 31, offset: 80450},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2483, col: 36, offset: 79987},
+																		pos: position{line: 2498, col: 36, offset: 80455},
 																		expr: &litMatcher{
-																			pos:        position{line: 2483, col: 37, offset: 79988},
+																			pos:        position{line: 2498, col: 37, offset: 80456},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2478, col: 49, offset: 79788},
+																		pos:   position{line: 2493, col: 49, offset: 80256},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2814, col: 13, offset: 89344},
+																			pos: position{line: 2829, col: 13, offset: 89812},
 																			run: (*parser).callonDocumentHeader318,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2814, col: 13, offset: 89344},
+																				pos: position{line: 2829, col: 13, offset: 89812},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2814, col: 13, offset: 89344},
+																					pos:        position{line: 2829, col: 13, offset: 89812},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17702,28 +17735,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2890, col: 8, offset: 91216},
+																		pos: position{line: 2905, col: 8, offset: 91684},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2877, col: 12, offset: 90989},
+																				pos: position{line: 2892, col: 12, offset: 91457},
 																				run: (*parser).callonDocumentHeader322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2877, col: 13, offset: 90990},
+																					pos: position{line: 2892, col: 13, offset: 91458},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 13, offset: 90990},
+																							pos:        position{line: 2892, col: 13, offset: 91458},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 20, offset: 90997},
+																							pos:        position{line: 2892, col: 20, offset: 91465},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 29, offset: 91006},
+																							pos:        position{line: 2892, col: 29, offset: 91474},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17732,9 +17765,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2887, col: 8, offset: 91166},
+																				pos: position{line: 2902, col: 8, offset: 91634},
 																				expr: &anyMatcher{
-																					line: 2887, col: 9, offset: 91167,
+																					line: 2902, col: 9, offset: 91635,
 																				},
 																			},
 																		},
@@ -17743,39 +17776,39 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 823, col: 5, offset: 26427},
+															pos: position{line: 830, col: 5, offset: 26670},
 															run: (*parser).callonDocumentHeader329,
 															expr: &seqExpr{
-																pos: position{line: 823, col: 5, offset: 26427},
+																pos: position{line: 830, col: 5, offset: 26670},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 823, col: 5, offset: 26427},
+																		pos:   position{line: 830, col: 5, offset: 26670},
 																		label: "start",
 																		expr: &actionExpr{
-																			pos: position{line: 743, col: 5, offset: 23687},
+																			pos: position{line: 750, col: 5, offset: 23930},
 																			run: (*parser).callonDocumentHeader332,
 																			expr: &seqExpr{
-																				pos: position{line: 743, col: 5, offset: 23687},
+																				pos: position{line: 750, col: 5, offset: 23930},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 743, col: 5, offset: 23687},
+																						pos:   position{line: 750, col: 5, offset: 23930},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 743, col: 16, offset: 23698},
+																							pos: position{line: 750, col: 16, offset: 23941},
 																							run: (*parser).callonDocumentHeader335,
 																							expr: &seqExpr{
-																								pos: position{line: 743, col: 16, offset: 23698},
+																								pos: position{line: 750, col: 16, offset: 23941},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 743, col: 16, offset: 23698},
+																										pos:        position{line: 750, col: 16, offset: 23941},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 743, col: 23, offset: 23705},
+																										pos: position{line: 750, col: 23, offset: 23948},
 																										expr: &litMatcher{
-																											pos:        position{line: 743, col: 23, offset: 23705},
+																											pos:        position{line: 750, col: 23, offset: 23948},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -17786,12 +17819,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 745, col: 8, offset: 23789},
+																						pos: position{line: 752, col: 8, offset: 24032},
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 10, offset: 90818},
+																							pos: position{line: 2883, col: 10, offset: 91286},
 																							run: (*parser).callonDocumentHeader341,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 10, offset: 90818},
+																								pos:        position{line: 2883, col: 10, offset: 91286},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17800,28 +17833,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2890, col: 8, offset: 91216},
+																						pos: position{line: 2905, col: 8, offset: 91684},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2877, col: 12, offset: 90989},
+																								pos: position{line: 2892, col: 12, offset: 91457},
 																								run: (*parser).callonDocumentHeader344,
 																								expr: &choiceExpr{
-																									pos: position{line: 2877, col: 13, offset: 90990},
+																									pos: position{line: 2892, col: 13, offset: 91458},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 13, offset: 90990},
+																											pos:        position{line: 2892, col: 13, offset: 91458},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 20, offset: 90997},
+																											pos:        position{line: 2892, col: 20, offset: 91465},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 29, offset: 91006},
+																											pos:        position{line: 2892, col: 29, offset: 91474},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17830,9 +17863,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2887, col: 8, offset: 91166},
+																								pos: position{line: 2902, col: 8, offset: 91634},
 																								expr: &anyMatcher{
-																									line: 2887, col: 9, offset: 91167,
+																									line: 2902, col: 9, offset: 91635,
 																								},
 																							},
 																						},
@@ -17842,56 +17875,56 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 824, col: 5, offset: 26466},
+																		pos: position{line: 831, col: 5, offset: 26709},
 																		run: (*parser).callonDocumentHeader351,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 827, col: 5, offset: 26558},
+																		pos:   position{line: 834, col: 5, offset: 26801},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 842, col: 5, offset: 26956},
+																			pos: position{line: 849, col: 5, offset: 27199},
 																			expr: &actionExpr{
-																				pos: position{line: 842, col: 6, offset: 26957},
+																				pos: position{line: 849, col: 6, offset: 27200},
 																				run: (*parser).callonDocumentHeader354,
 																				expr: &seqExpr{
-																					pos: position{line: 842, col: 6, offset: 26957},
+																					pos: position{line: 849, col: 6, offset: 27200},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 842, col: 6, offset: 26957},
+																							pos: position{line: 849, col: 6, offset: 27200},
 																							expr: &choiceExpr{
-																								pos: position{line: 835, col: 5, offset: 26798},
+																								pos: position{line: 842, col: 5, offset: 27041},
 																								alternatives: []interface{}{
 																									&seqExpr{
-																										pos: position{line: 835, col: 5, offset: 26798},
+																										pos: position{line: 842, col: 5, offset: 27041},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 835, col: 5, offset: 26798},
+																												pos:   position{line: 842, col: 5, offset: 27041},
 																												label: "end",
 																												expr: &actionExpr{
-																													pos: position{line: 743, col: 5, offset: 23687},
+																													pos: position{line: 750, col: 5, offset: 23930},
 																													run: (*parser).callonDocumentHeader360,
 																													expr: &seqExpr{
-																														pos: position{line: 743, col: 5, offset: 23687},
+																														pos: position{line: 750, col: 5, offset: 23930},
 																														exprs: []interface{}{
 																															&labeledExpr{
-																																pos:   position{line: 743, col: 5, offset: 23687},
+																																pos:   position{line: 750, col: 5, offset: 23930},
 																																label: "delimiter",
 																																expr: &actionExpr{
-																																	pos: position{line: 743, col: 16, offset: 23698},
+																																	pos: position{line: 750, col: 16, offset: 23941},
 																																	run: (*parser).callonDocumentHeader363,
 																																	expr: &seqExpr{
-																																		pos: position{line: 743, col: 16, offset: 23698},
+																																		pos: position{line: 750, col: 16, offset: 23941},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 743, col: 16, offset: 23698},
+																																				pos:        position{line: 750, col: 16, offset: 23941},
 																																				val:        "////",
 																																				ignoreCase: false,
 																																				want:       "\"////\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 743, col: 23, offset: 23705},
+																																				pos: position{line: 750, col: 23, offset: 23948},
 																																				expr: &litMatcher{
-																																					pos:        position{line: 743, col: 23, offset: 23705},
+																																					pos:        position{line: 750, col: 23, offset: 23948},
 																																					val:        "/",
 																																					ignoreCase: false,
 																																					want:       "\"/\"",
@@ -17902,12 +17935,12 @@ var g = &grammar{
 																																},
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 745, col: 8, offset: 23789},
+																																pos: position{line: 752, col: 8, offset: 24032},
 																																expr: &actionExpr{
-																																	pos: position{line: 2868, col: 10, offset: 90818},
+																																	pos: position{line: 2883, col: 10, offset: 91286},
 																																	run: (*parser).callonDocumentHeader369,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2868, col: 10, offset: 90818},
+																																		pos:        position{line: 2883, col: 10, offset: 91286},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -17916,28 +17949,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2890, col: 8, offset: 91216},
+																																pos: position{line: 2905, col: 8, offset: 91684},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2877, col: 12, offset: 90989},
+																																		pos: position{line: 2892, col: 12, offset: 91457},
 																																		run: (*parser).callonDocumentHeader372,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2877, col: 13, offset: 90990},
+																																			pos: position{line: 2892, col: 13, offset: 91458},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2877, col: 13, offset: 90990},
+																																					pos:        position{line: 2892, col: 13, offset: 91458},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2877, col: 20, offset: 90997},
+																																					pos:        position{line: 2892, col: 20, offset: 91465},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2877, col: 29, offset: 91006},
+																																					pos:        position{line: 2892, col: 29, offset: 91474},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -17946,9 +17979,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2887, col: 8, offset: 91166},
+																																		pos: position{line: 2902, col: 8, offset: 91634},
 																																		expr: &anyMatcher{
-																																			line: 2887, col: 9, offset: 91167,
+																																			line: 2902, col: 9, offset: 91635,
 																																		},
 																																	},
 																																},
@@ -17958,45 +17991,45 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 836, col: 5, offset: 26829},
+																												pos: position{line: 843, col: 5, offset: 27072},
 																												run: (*parser).callonDocumentHeader379,
 																											},
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2887, col: 8, offset: 91166},
+																										pos: position{line: 2902, col: 8, offset: 91634},
 																										expr: &anyMatcher{
-																											line: 2887, col: 9, offset: 91167,
+																											line: 2902, col: 9, offset: 91635,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 843, col: 5, offset: 26987},
+																							pos:   position{line: 850, col: 5, offset: 27230},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 814, col: 5, offset: 26191},
+																								pos: position{line: 821, col: 5, offset: 26434},
 																								run: (*parser).callonDocumentHeader383,
 																								expr: &seqExpr{
-																									pos: position{line: 814, col: 5, offset: 26191},
+																									pos: position{line: 821, col: 5, offset: 26434},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2885, col: 11, offset: 91152},
+																											pos: position{line: 2900, col: 11, offset: 91620},
 																											expr: &anyMatcher{
-																												line: 2885, col: 13, offset: 91154,
+																												line: 2900, col: 13, offset: 91622,
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 815, col: 5, offset: 26266},
+																											pos:   position{line: 822, col: 5, offset: 26509},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2814, col: 13, offset: 89344},
+																												pos: position{line: 2829, col: 13, offset: 89812},
 																												run: (*parser).callonDocumentHeader388,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2814, col: 13, offset: 89344},
+																													pos: position{line: 2829, col: 13, offset: 89812},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2814, col: 13, offset: 89344},
+																														pos:        position{line: 2829, col: 13, offset: 89812},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18006,28 +18039,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2890, col: 8, offset: 91216},
+																											pos: position{line: 2905, col: 8, offset: 91684},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2877, col: 12, offset: 90989},
+																													pos: position{line: 2892, col: 12, offset: 91457},
 																													run: (*parser).callonDocumentHeader392,
 																													expr: &choiceExpr{
-																														pos: position{line: 2877, col: 13, offset: 90990},
+																														pos: position{line: 2892, col: 13, offset: 91458},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18036,9 +18069,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2887, col: 8, offset: 91166},
+																													pos: position{line: 2902, col: 8, offset: 91634},
 																													expr: &anyMatcher{
-																														line: 2887, col: 9, offset: 91167,
+																														line: 2902, col: 9, offset: 91635,
 																													},
 																												},
 																											},
@@ -18053,44 +18086,44 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 828, col: 5, offset: 26592},
+																		pos:   position{line: 835, col: 5, offset: 26835},
 																		label: "end",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 828, col: 9, offset: 26596},
+																			pos: position{line: 835, col: 9, offset: 26839},
 																			expr: &choiceExpr{
-																				pos: position{line: 835, col: 5, offset: 26798},
+																				pos: position{line: 842, col: 5, offset: 27041},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 835, col: 5, offset: 26798},
+																						pos: position{line: 842, col: 5, offset: 27041},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 835, col: 5, offset: 26798},
+																								pos:   position{line: 842, col: 5, offset: 27041},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 743, col: 5, offset: 23687},
+																									pos: position{line: 750, col: 5, offset: 23930},
 																									run: (*parser).callonDocumentHeader404,
 																									expr: &seqExpr{
-																										pos: position{line: 743, col: 5, offset: 23687},
+																										pos: position{line: 750, col: 5, offset: 23930},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 743, col: 5, offset: 23687},
+																												pos:   position{line: 750, col: 5, offset: 23930},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 743, col: 16, offset: 23698},
+																													pos: position{line: 750, col: 16, offset: 23941},
 																													run: (*parser).callonDocumentHeader407,
 																													expr: &seqExpr{
-																														pos: position{line: 743, col: 16, offset: 23698},
+																														pos: position{line: 750, col: 16, offset: 23941},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 743, col: 16, offset: 23698},
+																																pos:        position{line: 750, col: 16, offset: 23941},
 																																val:        "////",
 																																ignoreCase: false,
 																																want:       "\"////\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 743, col: 23, offset: 23705},
+																																pos: position{line: 750, col: 23, offset: 23948},
 																																expr: &litMatcher{
-																																	pos:        position{line: 743, col: 23, offset: 23705},
+																																	pos:        position{line: 750, col: 23, offset: 23948},
 																																	val:        "/",
 																																	ignoreCase: false,
 																																	want:       "\"/\"",
@@ -18101,12 +18134,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 745, col: 8, offset: 23789},
+																												pos: position{line: 752, col: 8, offset: 24032},
 																												expr: &actionExpr{
-																													pos: position{line: 2868, col: 10, offset: 90818},
+																													pos: position{line: 2883, col: 10, offset: 91286},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2868, col: 10, offset: 90818},
+																														pos:        position{line: 2883, col: 10, offset: 91286},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -18115,28 +18148,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2890, col: 8, offset: 91216},
+																												pos: position{line: 2905, col: 8, offset: 91684},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2877, col: 12, offset: 90989},
+																														pos: position{line: 2892, col: 12, offset: 91457},
 																														run: (*parser).callonDocumentHeader416,
 																														expr: &choiceExpr{
-																															pos: position{line: 2877, col: 13, offset: 90990},
+																															pos: position{line: 2892, col: 13, offset: 91458},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 13, offset: 90990},
+																																	pos:        position{line: 2892, col: 13, offset: 91458},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 20, offset: 90997},
+																																	pos:        position{line: 2892, col: 20, offset: 91465},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 29, offset: 91006},
+																																	pos:        position{line: 2892, col: 29, offset: 91474},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -18145,9 +18178,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2887, col: 8, offset: 91166},
+																														pos: position{line: 2902, col: 8, offset: 91634},
 																														expr: &anyMatcher{
-																															line: 2887, col: 9, offset: 91167,
+																															line: 2902, col: 9, offset: 91635,
 																														},
 																													},
 																												},
@@ -18157,15 +18190,15 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 836, col: 5, offset: 26829},
+																								pos: position{line: 843, col: 5, offset: 27072},
 																								run: (*parser).callonDocumentHeader423,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2887, col: 8, offset: 91166},
+																						pos: position{line: 2902, col: 8, offset: 91634},
 																						expr: &anyMatcher{
-																							line: 2887, col: 9, offset: 91167,
+																							line: 2902, col: 9, offset: 91635,
 																						},
 																					},
 																				},
@@ -18179,23 +18212,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1136, col: 5, offset: 35040},
+												pos:   position{line: 1143, col: 5, offset: 35283},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1136, col: 14, offset: 35049},
+													pos: position{line: 1143, col: 14, offset: 35292},
 													expr: &actionExpr{
-														pos: position{line: 1184, col: 21, offset: 36392},
+														pos: position{line: 1191, col: 21, offset: 36635},
 														run: (*parser).callonDocumentHeader428,
 														expr: &seqExpr{
-															pos: position{line: 1184, col: 21, offset: 36392},
+															pos: position{line: 1191, col: 21, offset: 36635},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1184, col: 21, offset: 36392},
+																	pos: position{line: 1191, col: 21, offset: 36635},
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 10, offset: 90818},
+																		pos: position{line: 2883, col: 10, offset: 91286},
 																		run: (*parser).callonDocumentHeader431,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90818},
+																			pos:        position{line: 2883, col: 10, offset: 91286},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18204,55 +18237,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1184, col: 28, offset: 36399},
+																	pos: position{line: 1191, col: 28, offset: 36642},
 																	expr: &litMatcher{
-																		pos:        position{line: 1184, col: 29, offset: 36400},
+																		pos:        position{line: 1191, col: 29, offset: 36643},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1184, col: 33, offset: 36404},
+																	pos:   position{line: 1191, col: 33, offset: 36647},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1185, col: 9, offset: 36423},
+																		pos: position{line: 1192, col: 9, offset: 36666},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1185, col: 10, offset: 36424},
+																				pos: position{line: 1192, col: 10, offset: 36667},
 																				run: (*parser).callonDocumentHeader437,
 																				expr: &seqExpr{
-																					pos: position{line: 1185, col: 10, offset: 36424},
+																					pos: position{line: 1192, col: 10, offset: 36667},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1185, col: 10, offset: 36424},
+																							pos:   position{line: 1192, col: 10, offset: 36667},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1194, col: 27, offset: 36941},
+																								pos: position{line: 1201, col: 27, offset: 37184},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1194, col: 27, offset: 36941},
+																										pos: position{line: 1201, col: 27, offset: 37184},
 																										run: (*parser).callonDocumentHeader441,
 																										expr: &seqExpr{
-																											pos: position{line: 1194, col: 27, offset: 36941},
+																											pos: position{line: 1201, col: 27, offset: 37184},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1194, col: 27, offset: 36941},
+																													pos:        position{line: 1201, col: 27, offset: 37184},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1194, col: 32, offset: 36946},
+																													pos:        position{line: 1201, col: 32, offset: 37189},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1194, col: 38, offset: 36952},
+																													pos: position{line: 1201, col: 38, offset: 37195},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1194, col: 38, offset: 36952},
+																														pos:        position{line: 1201, col: 38, offset: 37195},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18263,31 +18296,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1196, col: 5, offset: 37000},
+																										pos: position{line: 1203, col: 5, offset: 37243},
 																										run: (*parser).callonDocumentHeader447,
 																										expr: &seqExpr{
-																											pos: position{line: 1196, col: 5, offset: 37000},
+																											pos: position{line: 1203, col: 5, offset: 37243},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1196, col: 5, offset: 37000},
+																													pos: position{line: 1203, col: 5, offset: 37243},
 																													expr: &litMatcher{
-																														pos:        position{line: 1196, col: 5, offset: 37000},
+																														pos:        position{line: 1203, col: 5, offset: 37243},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1196, col: 11, offset: 37006},
+																													pos:        position{line: 1203, col: 11, offset: 37249},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1196, col: 17, offset: 37012},
+																													pos: position{line: 1203, col: 17, offset: 37255},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1196, col: 17, offset: 37012},
+																														pos:        position{line: 1203, col: 17, offset: 37255},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18295,12 +18328,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1196, col: 28, offset: 37023},
+																													pos: position{line: 1203, col: 28, offset: 37266},
 																													expr: &actionExpr{
-																														pos: position{line: 2868, col: 10, offset: 90818},
+																														pos: position{line: 2883, col: 10, offset: 91286},
 																														run: (*parser).callonDocumentHeader455,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2868, col: 10, offset: 90818},
+																															pos:        position{line: 2883, col: 10, offset: 91286},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18309,9 +18342,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1196, col: 35, offset: 37030},
+																													pos: position{line: 1203, col: 35, offset: 37273},
 																													expr: &litMatcher{
-																														pos:        position{line: 1196, col: 36, offset: 37031},
+																														pos:        position{line: 1203, col: 36, offset: 37274},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -18324,26 +18357,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1185, col: 45, offset: 36459},
+																							pos: position{line: 1192, col: 45, offset: 36702},
 																							expr: &litMatcher{
-																								pos:        position{line: 1185, col: 45, offset: 36459},
+																								pos:        position{line: 1192, col: 45, offset: 36702},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1185, col: 50, offset: 36464},
+																							pos:   position{line: 1192, col: 50, offset: 36707},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1185, col: 58, offset: 36472},
+																								pos: position{line: 1192, col: 58, offset: 36715},
 																								expr: &actionExpr{
-																									pos: position{line: 1200, col: 25, offset: 37095},
+																									pos: position{line: 1207, col: 25, offset: 37338},
 																									run: (*parser).callonDocumentHeader463,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1200, col: 25, offset: 37095},
+																										pos: position{line: 1207, col: 25, offset: 37338},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1200, col: 25, offset: 37095},
+																											pos:        position{line: 1207, col: 25, offset: 37338},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -18354,26 +18387,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1185, col: 82, offset: 36496},
+																							pos: position{line: 1192, col: 82, offset: 36739},
 																							expr: &litMatcher{
-																								pos:        position{line: 1185, col: 82, offset: 36496},
+																								pos:        position{line: 1192, col: 82, offset: 36739},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1185, col: 87, offset: 36501},
+																							pos:   position{line: 1192, col: 87, offset: 36744},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1185, col: 97, offset: 36511},
+																								pos: position{line: 1192, col: 97, offset: 36754},
 																								expr: &actionExpr{
-																									pos: position{line: 1204, col: 27, offset: 37167},
+																									pos: position{line: 1211, col: 27, offset: 37410},
 																									run: (*parser).callonDocumentHeader470,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1204, col: 27, offset: 37167},
+																										pos: position{line: 1211, col: 27, offset: 37410},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1204, col: 27, offset: 37167},
+																											pos:        position{line: 1211, col: 27, offset: 37410},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18387,21 +18420,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1187, col: 15, offset: 36629},
+																				pos: position{line: 1194, col: 15, offset: 36872},
 																				run: (*parser).callonDocumentHeader473,
 																				expr: &seqExpr{
-																					pos: position{line: 1187, col: 15, offset: 36629},
+																					pos: position{line: 1194, col: 15, offset: 36872},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1187, col: 15, offset: 36629},
+																							pos:   position{line: 1194, col: 15, offset: 36872},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1200, col: 25, offset: 37095},
+																								pos: position{line: 1207, col: 25, offset: 37338},
 																								run: (*parser).callonDocumentHeader476,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1200, col: 25, offset: 37095},
+																									pos: position{line: 1207, col: 25, offset: 37338},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1200, col: 25, offset: 37095},
+																										pos:        position{line: 1207, col: 25, offset: 37338},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -18411,26 +18444,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1187, col: 46, offset: 36660},
+																							pos: position{line: 1194, col: 46, offset: 36903},
 																							expr: &litMatcher{
-																								pos:        position{line: 1187, col: 46, offset: 36660},
+																								pos:        position{line: 1194, col: 46, offset: 36903},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1187, col: 51, offset: 36665},
+																							pos:   position{line: 1194, col: 51, offset: 36908},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1187, col: 61, offset: 36675},
+																								pos: position{line: 1194, col: 61, offset: 36918},
 																								expr: &actionExpr{
-																									pos: position{line: 1204, col: 27, offset: 37167},
+																									pos: position{line: 1211, col: 27, offset: 37410},
 																									run: (*parser).callonDocumentHeader483,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1204, col: 27, offset: 37167},
+																										pos: position{line: 1211, col: 27, offset: 37410},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1204, col: 27, offset: 37167},
+																											pos:        position{line: 1211, col: 27, offset: 37410},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18447,28 +18480,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonDocumentHeader487,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18477,9 +18510,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -18495,31 +18528,31 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1123, col: 5, offset: 34586},
+							pos:   position{line: 1130, col: 5, offset: 34829},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1123, col: 19, offset: 34600},
+								pos: position{line: 1130, col: 19, offset: 34843},
 								expr: &choiceExpr{
-									pos: position{line: 1123, col: 20, offset: 34601},
+									pos: position{line: 1130, col: 20, offset: 34844},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1123, col: 20, offset: 34601},
+											pos:  position{line: 1130, col: 20, offset: 34844},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
-											pos: position{line: 360, col: 19, offset: 10910},
+											pos: position{line: 367, col: 19, offset: 11153},
 											run: (*parser).callonDocumentHeader498,
 											expr: &seqExpr{
-												pos: position{line: 360, col: 19, offset: 10910},
+												pos: position{line: 367, col: 19, offset: 11153},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 360, col: 19, offset: 10910},
+														pos:        position{line: 367, col: 19, offset: 11153},
 														val:        ":!",
 														ignoreCase: false,
 														want:       "\":!\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 360, col: 24, offset: 10915},
+														pos:   position{line: 367, col: 24, offset: 11158},
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 318, col: 18, offset: 9736},
@@ -18551,18 +18584,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 360, col: 45, offset: 10936},
+														pos:        position{line: 367, col: 45, offset: 11179},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 360, col: 49, offset: 10940},
+														pos: position{line: 367, col: 49, offset: 11183},
 														expr: &actionExpr{
-															pos: position{line: 2868, col: 10, offset: 90818},
+															pos: position{line: 2883, col: 10, offset: 91286},
 															run: (*parser).callonDocumentHeader509,
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 10, offset: 90818},
+																pos:        position{line: 2883, col: 10, offset: 91286},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18571,28 +18604,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2890, col: 8, offset: 91216},
+														pos: position{line: 2905, col: 8, offset: 91684},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2877, col: 12, offset: 90989},
+																pos: position{line: 2892, col: 12, offset: 91457},
 																run: (*parser).callonDocumentHeader512,
 																expr: &choiceExpr{
-																	pos: position{line: 2877, col: 13, offset: 90990},
+																	pos: position{line: 2892, col: 13, offset: 91458},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 13, offset: 90990},
+																			pos:        position{line: 2892, col: 13, offset: 91458},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 20, offset: 90997},
+																			pos:        position{line: 2892, col: 20, offset: 91465},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 29, offset: 91006},
+																			pos:        position{line: 2892, col: 29, offset: 91474},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18601,9 +18634,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2887, col: 8, offset: 91166},
+																pos: position{line: 2902, col: 8, offset: 91634},
 																expr: &anyMatcher{
-																	line: 2887, col: 9, offset: 91167,
+																	line: 2902, col: 9, offset: 91635,
 																},
 															},
 														},
@@ -18612,19 +18645,19 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 362, col: 9, offset: 11031},
+											pos: position{line: 369, col: 9, offset: 11274},
 											run: (*parser).callonDocumentHeader519,
 											expr: &seqExpr{
-												pos: position{line: 362, col: 9, offset: 11031},
+												pos: position{line: 369, col: 9, offset: 11274},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 362, col: 9, offset: 11031},
+														pos:        position{line: 369, col: 9, offset: 11274},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 362, col: 13, offset: 11035},
+														pos:   position{line: 369, col: 13, offset: 11278},
 														label: "name",
 														expr: &actionExpr{
 															pos: position{line: 318, col: 18, offset: 9736},
@@ -18656,18 +18689,18 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 362, col: 34, offset: 11056},
+														pos:        position{line: 369, col: 34, offset: 11299},
 														val:        "!:",
 														ignoreCase: false,
 														want:       "\"!:\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 362, col: 39, offset: 11061},
+														pos: position{line: 369, col: 39, offset: 11304},
 														expr: &actionExpr{
-															pos: position{line: 2868, col: 10, offset: 90818},
+															pos: position{line: 2883, col: 10, offset: 91286},
 															run: (*parser).callonDocumentHeader530,
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 10, offset: 90818},
+																pos:        position{line: 2883, col: 10, offset: 91286},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18676,28 +18709,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2890, col: 8, offset: 91216},
+														pos: position{line: 2905, col: 8, offset: 91684},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2877, col: 12, offset: 90989},
+																pos: position{line: 2892, col: 12, offset: 91457},
 																run: (*parser).callonDocumentHeader533,
 																expr: &choiceExpr{
-																	pos: position{line: 2877, col: 13, offset: 90990},
+																	pos: position{line: 2892, col: 13, offset: 91458},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 13, offset: 90990},
+																			pos:        position{line: 2892, col: 13, offset: 91458},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 20, offset: 90997},
+																			pos:        position{line: 2892, col: 20, offset: 91465},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 29, offset: 91006},
+																			pos:        position{line: 2892, col: 29, offset: 91474},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18706,9 +18739,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2887, col: 8, offset: 91166},
+																pos: position{line: 2902, col: 8, offset: 91634},
 																expr: &anyMatcher{
-																	line: 2887, col: 9, offset: 91167,
+																	line: 2902, col: 9, offset: 91635,
 																},
 															},
 														},
@@ -18717,36 +18750,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2478, col: 22, offset: 79761},
+											pos: position{line: 2493, col: 22, offset: 80229},
 											run: (*parser).callonDocumentHeader540,
 											expr: &seqExpr{
-												pos: position{line: 2478, col: 22, offset: 79761},
+												pos: position{line: 2493, col: 22, offset: 80229},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2483, col: 31, offset: 79982},
+														pos:        position{line: 2498, col: 31, offset: 80450},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2483, col: 36, offset: 79987},
+														pos: position{line: 2498, col: 36, offset: 80455},
 														expr: &litMatcher{
-															pos:        position{line: 2483, col: 37, offset: 79988},
+															pos:        position{line: 2498, col: 37, offset: 80456},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2478, col: 49, offset: 79788},
+														pos:   position{line: 2493, col: 49, offset: 80256},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2814, col: 13, offset: 89344},
+															pos: position{line: 2829, col: 13, offset: 89812},
 															run: (*parser).callonDocumentHeader546,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2814, col: 13, offset: 89344},
+																pos: position{line: 2829, col: 13, offset: 89812},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2814, col: 13, offset: 89344},
+																	pos:        position{line: 2829, col: 13, offset: 89812},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18756,28 +18789,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2890, col: 8, offset: 91216},
+														pos: position{line: 2905, col: 8, offset: 91684},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2877, col: 12, offset: 90989},
+																pos: position{line: 2892, col: 12, offset: 91457},
 																run: (*parser).callonDocumentHeader550,
 																expr: &choiceExpr{
-																	pos: position{line: 2877, col: 13, offset: 90990},
+																	pos: position{line: 2892, col: 13, offset: 91458},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 13, offset: 90990},
+																			pos:        position{line: 2892, col: 13, offset: 91458},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 20, offset: 90997},
+																			pos:        position{line: 2892, col: 20, offset: 91465},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 29, offset: 91006},
+																			pos:        position{line: 2892, col: 29, offset: 91474},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18786,9 +18819,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2887, col: 8, offset: 91166},
+																pos: position{line: 2902, col: 8, offset: 91634},
 																expr: &anyMatcher{
-																	line: 2887, col: 9, offset: 91167,
+																	line: 2902, col: 9, offset: 91635,
 																},
 															},
 														},
@@ -18797,39 +18830,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 823, col: 5, offset: 26427},
+											pos: position{line: 830, col: 5, offset: 26670},
 											run: (*parser).callonDocumentHeader557,
 											expr: &seqExpr{
-												pos: position{line: 823, col: 5, offset: 26427},
+												pos: position{line: 830, col: 5, offset: 26670},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 823, col: 5, offset: 26427},
+														pos:   position{line: 830, col: 5, offset: 26670},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 743, col: 5, offset: 23687},
+															pos: position{line: 750, col: 5, offset: 23930},
 															run: (*parser).callonDocumentHeader560,
 															expr: &seqExpr{
-																pos: position{line: 743, col: 5, offset: 23687},
+																pos: position{line: 750, col: 5, offset: 23930},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 743, col: 5, offset: 23687},
+																		pos:   position{line: 750, col: 5, offset: 23930},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 743, col: 16, offset: 23698},
+																			pos: position{line: 750, col: 16, offset: 23941},
 																			run: (*parser).callonDocumentHeader563,
 																			expr: &seqExpr{
-																				pos: position{line: 743, col: 16, offset: 23698},
+																				pos: position{line: 750, col: 16, offset: 23941},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 743, col: 16, offset: 23698},
+																						pos:        position{line: 750, col: 16, offset: 23941},
 																						val:        "////",
 																						ignoreCase: false,
 																						want:       "\"////\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 743, col: 23, offset: 23705},
+																						pos: position{line: 750, col: 23, offset: 23948},
 																						expr: &litMatcher{
-																							pos:        position{line: 743, col: 23, offset: 23705},
+																							pos:        position{line: 750, col: 23, offset: 23948},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -18840,12 +18873,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 745, col: 8, offset: 23789},
+																		pos: position{line: 752, col: 8, offset: 24032},
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 10, offset: 90818},
+																			pos: position{line: 2883, col: 10, offset: 91286},
 																			run: (*parser).callonDocumentHeader569,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 10, offset: 90818},
+																				pos:        position{line: 2883, col: 10, offset: 91286},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -18854,28 +18887,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2890, col: 8, offset: 91216},
+																		pos: position{line: 2905, col: 8, offset: 91684},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2877, col: 12, offset: 90989},
+																				pos: position{line: 2892, col: 12, offset: 91457},
 																				run: (*parser).callonDocumentHeader572,
 																				expr: &choiceExpr{
-																					pos: position{line: 2877, col: 13, offset: 90990},
+																					pos: position{line: 2892, col: 13, offset: 91458},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 13, offset: 90990},
+																							pos:        position{line: 2892, col: 13, offset: 91458},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 20, offset: 90997},
+																							pos:        position{line: 2892, col: 20, offset: 91465},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 29, offset: 91006},
+																							pos:        position{line: 2892, col: 29, offset: 91474},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18884,9 +18917,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2887, col: 8, offset: 91166},
+																				pos: position{line: 2902, col: 8, offset: 91634},
 																				expr: &anyMatcher{
-																					line: 2887, col: 9, offset: 91167,
+																					line: 2902, col: 9, offset: 91635,
 																				},
 																			},
 																		},
@@ -18896,56 +18929,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 824, col: 5, offset: 26466},
+														pos: position{line: 831, col: 5, offset: 26709},
 														run: (*parser).callonDocumentHeader579,
 													},
 													&labeledExpr{
-														pos:   position{line: 827, col: 5, offset: 26558},
+														pos:   position{line: 834, col: 5, offset: 26801},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 842, col: 5, offset: 26956},
+															pos: position{line: 849, col: 5, offset: 27199},
 															expr: &actionExpr{
-																pos: position{line: 842, col: 6, offset: 26957},
+																pos: position{line: 849, col: 6, offset: 27200},
 																run: (*parser).callonDocumentHeader582,
 																expr: &seqExpr{
-																	pos: position{line: 842, col: 6, offset: 26957},
+																	pos: position{line: 849, col: 6, offset: 27200},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 842, col: 6, offset: 26957},
+																			pos: position{line: 849, col: 6, offset: 27200},
 																			expr: &choiceExpr{
-																				pos: position{line: 835, col: 5, offset: 26798},
+																				pos: position{line: 842, col: 5, offset: 27041},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 835, col: 5, offset: 26798},
+																						pos: position{line: 842, col: 5, offset: 27041},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 835, col: 5, offset: 26798},
+																								pos:   position{line: 842, col: 5, offset: 27041},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 743, col: 5, offset: 23687},
+																									pos: position{line: 750, col: 5, offset: 23930},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &seqExpr{
-																										pos: position{line: 743, col: 5, offset: 23687},
+																										pos: position{line: 750, col: 5, offset: 23930},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 743, col: 5, offset: 23687},
+																												pos:   position{line: 750, col: 5, offset: 23930},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 743, col: 16, offset: 23698},
+																													pos: position{line: 750, col: 16, offset: 23941},
 																													run: (*parser).callonDocumentHeader591,
 																													expr: &seqExpr{
-																														pos: position{line: 743, col: 16, offset: 23698},
+																														pos: position{line: 750, col: 16, offset: 23941},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 743, col: 16, offset: 23698},
+																																pos:        position{line: 750, col: 16, offset: 23941},
 																																val:        "////",
 																																ignoreCase: false,
 																																want:       "\"////\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 743, col: 23, offset: 23705},
+																																pos: position{line: 750, col: 23, offset: 23948},
 																																expr: &litMatcher{
-																																	pos:        position{line: 743, col: 23, offset: 23705},
+																																	pos:        position{line: 750, col: 23, offset: 23948},
 																																	val:        "/",
 																																	ignoreCase: false,
 																																	want:       "\"/\"",
@@ -18956,12 +18989,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 745, col: 8, offset: 23789},
+																												pos: position{line: 752, col: 8, offset: 24032},
 																												expr: &actionExpr{
-																													pos: position{line: 2868, col: 10, offset: 90818},
+																													pos: position{line: 2883, col: 10, offset: 91286},
 																													run: (*parser).callonDocumentHeader597,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2868, col: 10, offset: 90818},
+																														pos:        position{line: 2883, col: 10, offset: 91286},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -18970,28 +19003,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2890, col: 8, offset: 91216},
+																												pos: position{line: 2905, col: 8, offset: 91684},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2877, col: 12, offset: 90989},
+																														pos: position{line: 2892, col: 12, offset: 91457},
 																														run: (*parser).callonDocumentHeader600,
 																														expr: &choiceExpr{
-																															pos: position{line: 2877, col: 13, offset: 90990},
+																															pos: position{line: 2892, col: 13, offset: 91458},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 13, offset: 90990},
+																																	pos:        position{line: 2892, col: 13, offset: 91458},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 20, offset: 90997},
+																																	pos:        position{line: 2892, col: 20, offset: 91465},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2877, col: 29, offset: 91006},
+																																	pos:        position{line: 2892, col: 29, offset: 91474},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -19000,9 +19033,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2887, col: 8, offset: 91166},
+																														pos: position{line: 2902, col: 8, offset: 91634},
 																														expr: &anyMatcher{
-																															line: 2887, col: 9, offset: 91167,
+																															line: 2902, col: 9, offset: 91635,
 																														},
 																													},
 																												},
@@ -19012,45 +19045,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 836, col: 5, offset: 26829},
+																								pos: position{line: 843, col: 5, offset: 27072},
 																								run: (*parser).callonDocumentHeader607,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2887, col: 8, offset: 91166},
+																						pos: position{line: 2902, col: 8, offset: 91634},
 																						expr: &anyMatcher{
-																							line: 2887, col: 9, offset: 91167,
+																							line: 2902, col: 9, offset: 91635,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 843, col: 5, offset: 26987},
+																			pos:   position{line: 850, col: 5, offset: 27230},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 814, col: 5, offset: 26191},
+																				pos: position{line: 821, col: 5, offset: 26434},
 																				run: (*parser).callonDocumentHeader611,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 5, offset: 26191},
+																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2885, col: 11, offset: 91152},
+																							pos: position{line: 2900, col: 11, offset: 91620},
 																							expr: &anyMatcher{
-																								line: 2885, col: 13, offset: 91154,
+																								line: 2900, col: 13, offset: 91622,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 815, col: 5, offset: 26266},
+																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2814, col: 13, offset: 89344},
+																								pos: position{line: 2829, col: 13, offset: 89812},
 																								run: (*parser).callonDocumentHeader616,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2814, col: 13, offset: 89344},
+																									pos: position{line: 2829, col: 13, offset: 89812},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2814, col: 13, offset: 89344},
+																										pos:        position{line: 2829, col: 13, offset: 89812},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19060,28 +19093,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonDocumentHeader620,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19090,9 +19123,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -19107,44 +19140,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 828, col: 5, offset: 26592},
+														pos:   position{line: 835, col: 5, offset: 26835},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 828, col: 9, offset: 26596},
+															pos: position{line: 835, col: 9, offset: 26839},
 															expr: &choiceExpr{
-																pos: position{line: 835, col: 5, offset: 26798},
+																pos: position{line: 842, col: 5, offset: 27041},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 835, col: 5, offset: 26798},
+																		pos: position{line: 842, col: 5, offset: 27041},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 835, col: 5, offset: 26798},
+																				pos:   position{line: 842, col: 5, offset: 27041},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 743, col: 5, offset: 23687},
+																					pos: position{line: 750, col: 5, offset: 23930},
 																					run: (*parser).callonDocumentHeader632,
 																					expr: &seqExpr{
-																						pos: position{line: 743, col: 5, offset: 23687},
+																						pos: position{line: 750, col: 5, offset: 23930},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 743, col: 5, offset: 23687},
+																								pos:   position{line: 750, col: 5, offset: 23930},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 743, col: 16, offset: 23698},
+																									pos: position{line: 750, col: 16, offset: 23941},
 																									run: (*parser).callonDocumentHeader635,
 																									expr: &seqExpr{
-																										pos: position{line: 743, col: 16, offset: 23698},
+																										pos: position{line: 750, col: 16, offset: 23941},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 743, col: 16, offset: 23698},
+																												pos:        position{line: 750, col: 16, offset: 23941},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 743, col: 23, offset: 23705},
+																												pos: position{line: 750, col: 23, offset: 23948},
 																												expr: &litMatcher{
-																													pos:        position{line: 743, col: 23, offset: 23705},
+																													pos:        position{line: 750, col: 23, offset: 23948},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -19155,12 +19188,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 745, col: 8, offset: 23789},
+																								pos: position{line: 752, col: 8, offset: 24032},
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 10, offset: 90818},
+																									pos: position{line: 2883, col: 10, offset: 91286},
 																									run: (*parser).callonDocumentHeader641,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 10, offset: 90818},
+																										pos:        position{line: 2883, col: 10, offset: 91286},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -19169,28 +19202,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2890, col: 8, offset: 91216},
+																								pos: position{line: 2905, col: 8, offset: 91684},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2877, col: 12, offset: 90989},
+																										pos: position{line: 2892, col: 12, offset: 91457},
 																										run: (*parser).callonDocumentHeader644,
 																										expr: &choiceExpr{
-																											pos: position{line: 2877, col: 13, offset: 90990},
+																											pos: position{line: 2892, col: 13, offset: 91458},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 13, offset: 90990},
+																													pos:        position{line: 2892, col: 13, offset: 91458},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 20, offset: 90997},
+																													pos:        position{line: 2892, col: 20, offset: 91465},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 29, offset: 91006},
+																													pos:        position{line: 2892, col: 29, offset: 91474},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -19199,9 +19232,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2887, col: 8, offset: 91166},
+																										pos: position{line: 2902, col: 8, offset: 91634},
 																										expr: &anyMatcher{
-																											line: 2887, col: 9, offset: 91167,
+																											line: 2902, col: 9, offset: 91635,
 																										},
 																									},
 																								},
@@ -19211,15 +19244,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 836, col: 5, offset: 26829},
+																				pos: position{line: 843, col: 5, offset: 27072},
 																				run: (*parser).callonDocumentHeader651,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2887, col: 8, offset: 91166},
+																		pos: position{line: 2902, col: 8, offset: 91634},
 																		expr: &anyMatcher{
-																			line: 2887, col: 9, offset: 91167,
+																			line: 2902, col: 9, offset: 91635,
 																		},
 																	},
 																},
@@ -19239,26 +19272,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1127, col: 1, offset: 34798},
+			pos:  position{line: 1134, col: 1, offset: 35041},
 			expr: &actionExpr{
-				pos: position{line: 1128, col: 5, offset: 34820},
+				pos: position{line: 1135, col: 5, offset: 35063},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1128, col: 5, offset: 34820},
+					pos: position{line: 1135, col: 5, offset: 35063},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1128, col: 5, offset: 34820},
+							pos:        position{line: 1135, col: 5, offset: 35063},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2872, col: 11, offset: 90879},
+							pos: position{line: 2887, col: 11, offset: 91347},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2872, col: 11, offset: 90879},
+								pos: position{line: 2887, col: 11, offset: 91347},
 								expr: &charClassMatcher{
-									pos:        position{line: 2872, col: 11, offset: 90879},
+									pos:        position{line: 2887, col: 11, offset: 91347},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19267,36 +19300,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1128, col: 16, offset: 34831},
+							pos:   position{line: 1135, col: 16, offset: 35074},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1128, col: 23, offset: 34838},
+								pos:  position{line: 1135, col: 23, offset: 35081},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2890, col: 8, offset: 91216},
+							pos: position{line: 2905, col: 8, offset: 91684},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2877, col: 12, offset: 90989},
+									pos: position{line: 2892, col: 12, offset: 91457},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2877, col: 13, offset: 90990},
+										pos: position{line: 2892, col: 13, offset: 91458},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2877, col: 13, offset: 90990},
+												pos:        position{line: 2892, col: 13, offset: 91458},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2877, col: 20, offset: 90997},
+												pos:        position{line: 2892, col: 20, offset: 91465},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2877, col: 29, offset: 91006},
+												pos:        position{line: 2892, col: 29, offset: 91474},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19305,9 +19338,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2887, col: 8, offset: 91166},
+									pos: position{line: 2902, col: 8, offset: 91634},
 									expr: &anyMatcher{
-										line: 2887, col: 9, offset: 91167,
+										line: 2902, col: 9, offset: 91635,
 									},
 								},
 							},
@@ -19318,23 +19351,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1155, col: 1, offset: 35678},
+			pos:  position{line: 1162, col: 1, offset: 35921},
 			expr: &actionExpr{
-				pos: position{line: 1156, col: 5, offset: 35709},
+				pos: position{line: 1163, col: 5, offset: 35952},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1156, col: 5, offset: 35709},
+					pos: position{line: 1163, col: 5, offset: 35952},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1156, col: 5, offset: 35709},
+							pos:   position{line: 1163, col: 5, offset: 35952},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1156, col: 12, offset: 35716},
+								pos: position{line: 1163, col: 12, offset: 35959},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1156, col: 12, offset: 35716},
+									pos: position{line: 1163, col: 12, offset: 35959},
 									expr: &charClassMatcher{
-										pos:        position{line: 1156, col: 12, offset: 35716},
+										pos:        position{line: 1163, col: 12, offset: 35959},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -19344,12 +19377,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1159, col: 5, offset: 35796},
+							pos: position{line: 1166, col: 5, offset: 36039},
 							expr: &actionExpr{
-								pos: position{line: 2868, col: 10, offset: 90818},
+								pos: position{line: 2883, col: 10, offset: 91286},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2868, col: 10, offset: 90818},
+									pos:        position{line: 2883, col: 10, offset: 91286},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19358,17 +19391,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1160, col: 5, offset: 35807},
+							pos:   position{line: 1167, col: 5, offset: 36050},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1160, col: 11, offset: 35813},
+								pos: position{line: 1167, col: 11, offset: 36056},
 								expr: &actionExpr{
-									pos: position{line: 1160, col: 12, offset: 35814},
+									pos: position{line: 1167, col: 12, offset: 36057},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1160, col: 12, offset: 35814},
+										pos: position{line: 1167, col: 12, offset: 36057},
 										expr: &charClassMatcher{
-											pos:        position{line: 1160, col: 12, offset: 35814},
+											pos:        position{line: 1167, col: 12, offset: 36057},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -19379,12 +19412,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1163, col: 5, offset: 35895},
+							pos: position{line: 1170, col: 5, offset: 36138},
 							expr: &actionExpr{
-								pos: position{line: 2868, col: 10, offset: 90818},
+								pos: position{line: 2883, col: 10, offset: 91286},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2868, col: 10, offset: 90818},
+									pos:        position{line: 2883, col: 10, offset: 91286},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19393,17 +19426,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1164, col: 5, offset: 35906},
+							pos:   position{line: 1171, col: 5, offset: 36149},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1164, col: 11, offset: 35912},
+								pos: position{line: 1171, col: 11, offset: 36155},
 								expr: &actionExpr{
-									pos: position{line: 1164, col: 12, offset: 35913},
+									pos: position{line: 1171, col: 12, offset: 36156},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1164, col: 12, offset: 35913},
+										pos: position{line: 1171, col: 12, offset: 36156},
 										expr: &charClassMatcher{
-											pos:        position{line: 1164, col: 12, offset: 35913},
+											pos:        position{line: 1171, col: 12, offset: 36156},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -19414,12 +19447,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1167, col: 5, offset: 35992},
+							pos: position{line: 1174, col: 5, offset: 36235},
 							expr: &actionExpr{
-								pos: position{line: 2868, col: 10, offset: 90818},
+								pos: position{line: 2883, col: 10, offset: 91286},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2868, col: 10, offset: 90818},
+									pos:        position{line: 2883, col: 10, offset: 91286},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19433,28 +19466,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1280, col: 1, offset: 39721},
+			pos:  position{line: 1287, col: 1, offset: 39964},
 			expr: &actionExpr{
-				pos: position{line: 1281, col: 5, offset: 39742},
+				pos: position{line: 1288, col: 5, offset: 39985},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1281, col: 5, offset: 39742},
+					pos: position{line: 1288, col: 5, offset: 39985},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1281, col: 5, offset: 39742},
+							pos: position{line: 1288, col: 5, offset: 39985},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1284, col: 5, offset: 39801},
+							pos:        position{line: 1291, col: 5, offset: 40044},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1284, col: 12, offset: 39808},
+							pos:   position{line: 1291, col: 12, offset: 40051},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1284, col: 24, offset: 39820},
+								pos:  position{line: 1291, col: 24, offset: 40063},
 								name: "InlineAttributes",
 							},
 						},
@@ -19464,33 +19497,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1291, col: 1, offset: 40108},
+			pos:  position{line: 1298, col: 1, offset: 40351},
 			expr: &actionExpr{
-				pos: position{line: 1292, col: 5, offset: 40127},
+				pos: position{line: 1299, col: 5, offset: 40370},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1292, col: 5, offset: 40127},
+					pos: position{line: 1299, col: 5, offset: 40370},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1292, col: 5, offset: 40127},
+							pos: position{line: 1299, col: 5, offset: 40370},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1295, col: 5, offset: 40186},
+							pos:        position{line: 1302, col: 5, offset: 40429},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1295, col: 13, offset: 40194},
+							pos:   position{line: 1302, col: 13, offset: 40437},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2853, col: 7, offset: 90470},
+								pos: position{line: 2868, col: 7, offset: 90938},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2853, col: 7, offset: 90470},
+									pos: position{line: 2868, col: 7, offset: 90938},
 									expr: &charClassMatcher{
-										pos:        position{line: 2853, col: 7, offset: 90470},
+										pos:        position{line: 2868, col: 7, offset: 90938},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19500,10 +19533,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1295, col: 21, offset: 40202},
+							pos:   position{line: 1302, col: 21, offset: 40445},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1295, col: 33, offset: 40214},
+								pos:  position{line: 1302, col: 33, offset: 40457},
 								name: "InlineAttributes",
 							},
 						},
@@ -19513,29 +19546,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1302, col: 1, offset: 40513},
+			pos:  position{line: 1309, col: 1, offset: 40756},
 			expr: &actionExpr{
-				pos: position{line: 1302, col: 14, offset: 40526},
+				pos: position{line: 1309, col: 14, offset: 40769},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1302, col: 14, offset: 40526},
+					pos: position{line: 1309, col: 14, offset: 40769},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1302, col: 14, offset: 40526},
+							pos:        position{line: 1309, col: 14, offset: 40769},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1302, col: 19, offset: 40531},
+							pos:   position{line: 1309, col: 19, offset: 40774},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1302, col: 25, offset: 40537},
+								pos:  position{line: 1309, col: 25, offset: 40780},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1302, col: 43, offset: 40555},
+							pos:        position{line: 1309, col: 43, offset: 40798},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19546,25 +19579,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1306, col: 1, offset: 40624},
+			pos:  position{line: 1313, col: 1, offset: 40867},
 			expr: &actionExpr{
-				pos: position{line: 1306, col: 21, offset: 40644},
+				pos: position{line: 1313, col: 21, offset: 40887},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1306, col: 21, offset: 40644},
+					pos:   position{line: 1313, col: 21, offset: 40887},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1306, col: 30, offset: 40653},
+						pos: position{line: 1313, col: 30, offset: 40896},
 						expr: &choiceExpr{
-							pos: position{line: 1306, col: 31, offset: 40654},
+							pos: position{line: 1313, col: 31, offset: 40897},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2762, col: 14, offset: 87987},
+									pos: position{line: 2777, col: 14, offset: 88455},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2762, col: 14, offset: 87987},
+										pos: position{line: 2777, col: 14, offset: 88455},
 										expr: &charClassMatcher{
-											pos:        position{line: 2762, col: 14, offset: 87987},
+											pos:        position{line: 2777, col: 14, offset: 88455},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19573,14 +19606,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1306, col: 43, offset: 40666},
+									pos:  position{line: 1313, col: 43, offset: 40909},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2868, col: 10, offset: 90818},
+									pos: position{line: 2883, col: 10, offset: 91286},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2868, col: 10, offset: 90818},
+										pos:        position{line: 2883, col: 10, offset: 91286},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19588,23 +19621,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2465, col: 5, offset: 79307},
+									pos: position{line: 2480, col: 5, offset: 79775},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2465, col: 5, offset: 79307},
+										pos: position{line: 2480, col: 5, offset: 79775},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2465, col: 5, offset: 79307},
+												pos: position{line: 2480, col: 5, offset: 79775},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2468, col: 5, offset: 79383},
+												pos:   position{line: 2483, col: 5, offset: 79851},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2469, col: 9, offset: 79401},
+													pos: position{line: 2484, col: 9, offset: 79869},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2469, col: 10, offset: 79402},
+														pos:        position{line: 2484, col: 10, offset: 79870},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19616,27 +19649,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1213, col: 23, offset: 37477},
+									pos: position{line: 1220, col: 23, offset: 37720},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1213, col: 23, offset: 37477},
+										pos: position{line: 1220, col: 23, offset: 37720},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1211, col: 32, offset: 37445},
+												pos:        position{line: 1218, col: 32, offset: 37688},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1213, col: 51, offset: 37505},
+												pos:   position{line: 1220, col: 51, offset: 37748},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1213, col: 56, offset: 37510},
+													pos: position{line: 1220, col: 56, offset: 37753},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1213, col: 56, offset: 37510},
+														pos: position{line: 1220, col: 56, offset: 37753},
 														expr: &charClassMatcher{
-															pos:        position{line: 1213, col: 56, offset: 37510},
+															pos:        position{line: 1220, col: 56, offset: 37753},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -19646,7 +19679,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1211, col: 32, offset: 37445},
+												pos:        position{line: 1218, col: 32, offset: 37688},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
@@ -19655,22 +19688,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1306, col: 104, offset: 40727},
+									pos: position{line: 1313, col: 104, offset: 40970},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1306, col: 105, offset: 40728},
+										pos: position{line: 1313, col: 105, offset: 40971},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1306, col: 105, offset: 40728},
+												pos: position{line: 1313, col: 105, offset: 40971},
 												expr: &litMatcher{
-													pos:        position{line: 1306, col: 106, offset: 40729},
+													pos:        position{line: 1313, col: 106, offset: 40972},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1306, col: 111, offset: 40734,
+												line: 1313, col: 111, offset: 40977,
 											},
 										},
 									},
@@ -19683,65 +19716,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1326, col: 1, offset: 41443},
+			pos:  position{line: 1333, col: 1, offset: 41686},
 			expr: &actionExpr{
-				pos: position{line: 1327, col: 5, offset: 41462},
+				pos: position{line: 1334, col: 5, offset: 41705},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1327, col: 5, offset: 41462},
+					pos: position{line: 1334, col: 5, offset: 41705},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1327, col: 5, offset: 41462},
+							pos:        position{line: 1334, col: 5, offset: 41705},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1327, col: 15, offset: 41472},
+							pos:   position{line: 1334, col: 15, offset: 41715},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2826, col: 13, offset: 89577},
+								pos: position{line: 2841, col: 13, offset: 90045},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2826, col: 13, offset: 89577},
+									pos: position{line: 2841, col: 13, offset: 90045},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2826, col: 13, offset: 89577},
+											pos:   position{line: 2841, col: 13, offset: 90045},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2826, col: 20, offset: 89584},
+												pos: position{line: 2841, col: 20, offset: 90052},
 												expr: &actionExpr{
-													pos: position{line: 2834, col: 11, offset: 89823},
+													pos: position{line: 2849, col: 11, offset: 90291},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2834, col: 12, offset: 89824},
+														pos: position{line: 2849, col: 12, offset: 90292},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2834, col: 12, offset: 89824},
+																pos:        position{line: 2849, col: 12, offset: 90292},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2834, col: 24, offset: 89836},
+																pos:        position{line: 2849, col: 24, offset: 90304},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2834, col: 37, offset: 89849},
+																pos:        position{line: 2849, col: 37, offset: 90317},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2834, col: 48, offset: 89860},
+																pos:        position{line: 2849, col: 48, offset: 90328},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2834, col: 59, offset: 89871},
+																pos:        position{line: 2849, col: 59, offset: 90339},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19752,38 +19785,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2826, col: 30, offset: 89594},
+											pos:   position{line: 2841, col: 30, offset: 90062},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2839, col: 5, offset: 89935},
+												pos: position{line: 2854, col: 5, offset: 90403},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2839, col: 5, offset: 89935},
+													pos:   position{line: 2854, col: 5, offset: 90403},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2839, col: 14, offset: 89944},
+														pos: position{line: 2854, col: 14, offset: 90412},
 														expr: &choiceExpr{
-															pos: position{line: 2840, col: 9, offset: 89954},
+															pos: position{line: 2855, col: 9, offset: 90422},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2840, col: 9, offset: 89954},
+																	pos: position{line: 2855, col: 9, offset: 90422},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2840, col: 9, offset: 89954},
+																		pos: position{line: 2855, col: 9, offset: 90422},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2840, col: 9, offset: 89954},
+																				pos: position{line: 2855, col: 9, offset: 90422},
 																				expr: &litMatcher{
-																					pos:        position{line: 2840, col: 10, offset: 89955},
+																					pos:        position{line: 2855, col: 10, offset: 90423},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2841, col: 9, offset: 89983},
+																				pos: position{line: 2856, col: 9, offset: 90451},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2841, col: 10, offset: 89984},
+																					pos:        position{line: 2856, col: 10, offset: 90452},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19794,27 +19827,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2844, col: 11, offset: 90196},
+																	pos: position{line: 2859, col: 11, offset: 90664},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2844, col: 11, offset: 90196},
+																			pos:        position{line: 2859, col: 11, offset: 90664},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2844, col: 19, offset: 90204},
+																			pos: position{line: 2859, col: 19, offset: 90672},
 																			expr: &seqExpr{
-																				pos: position{line: 2844, col: 21, offset: 90206},
+																				pos: position{line: 2859, col: 21, offset: 90674},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2844, col: 21, offset: 90206},
+																						pos: position{line: 2859, col: 21, offset: 90674},
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 10, offset: 90818},
+																							pos: position{line: 2883, col: 10, offset: 91286},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 10, offset: 90818},
+																								pos:        position{line: 2883, col: 10, offset: 91286},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19823,11 +19856,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2844, col: 28, offset: 90213},
+																						pos: position{line: 2859, col: 28, offset: 90681},
 																						expr: &notExpr{
-																							pos: position{line: 2887, col: 8, offset: 91166},
+																							pos: position{line: 2902, col: 8, offset: 91634},
 																							expr: &anyMatcher{
-																								line: 2887, col: 9, offset: 91167,
+																								line: 2902, col: 9, offset: 91635,
 																							},
 																						},
 																					},
@@ -19837,35 +19870,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 639, col: 5, offset: 20212},
+																	pos: position{line: 646, col: 5, offset: 20455},
 																	run: (*parser).callonImageBlock37,
 																	expr: &seqExpr{
-																		pos: position{line: 639, col: 5, offset: 20212},
+																		pos: position{line: 646, col: 5, offset: 20455},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 639, col: 5, offset: 20212},
+																				pos: position{line: 646, col: 5, offset: 20455},
 																				run: (*parser).callonImageBlock39,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 642, col: 5, offset: 20284},
+																				pos:   position{line: 649, col: 5, offset: 20527},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 642, col: 14, offset: 20293},
+																					pos: position{line: 649, col: 14, offset: 20536},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 648, col: 5, offset: 20422},
+																							pos: position{line: 655, col: 5, offset: 20665},
 																							run: (*parser).callonImageBlock42,
 																							expr: &seqExpr{
-																								pos: position{line: 648, col: 5, offset: 20422},
+																								pos: position{line: 655, col: 5, offset: 20665},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 648, col: 5, offset: 20422},
+																										pos:        position{line: 655, col: 5, offset: 20665},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 648, col: 13, offset: 20430},
+																										pos:   position{line: 655, col: 13, offset: 20673},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -19897,7 +19930,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 648, col: 32, offset: 20449},
+																										pos:        position{line: 655, col: 32, offset: 20692},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19906,19 +19939,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 655, col: 5, offset: 20690},
+																							pos: position{line: 662, col: 5, offset: 20933},
 																							run: (*parser).callonImageBlock52,
 																							expr: &seqExpr{
-																								pos: position{line: 655, col: 5, offset: 20690},
+																								pos: position{line: 662, col: 5, offset: 20933},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 655, col: 5, offset: 20690},
+																										pos:        position{line: 662, col: 5, offset: 20933},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 655, col: 9, offset: 20694},
+																										pos:   position{line: 662, col: 9, offset: 20937},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -19950,7 +19983,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 655, col: 28, offset: 20713},
+																										pos:        position{line: 662, col: 28, offset: 20956},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -19959,19 +19992,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 661, col: 25, offset: 20894},
+																							pos: position{line: 668, col: 25, offset: 21137},
 																							run: (*parser).callonImageBlock62,
 																							expr: &seqExpr{
-																								pos: position{line: 661, col: 25, offset: 20894},
+																								pos: position{line: 668, col: 25, offset: 21137},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 661, col: 25, offset: 20894},
+																										pos:        position{line: 668, col: 25, offset: 21137},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 661, col: 37, offset: 20906},
+																										pos:   position{line: 668, col: 37, offset: 21149},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20003,33 +20036,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 661, col: 56, offset: 20925},
+																										pos:   position{line: 668, col: 56, offset: 21168},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 661, col: 62, offset: 20931},
+																											pos: position{line: 668, col: 62, offset: 21174},
 																											expr: &actionExpr{
-																												pos: position{line: 669, col: 17, offset: 21226},
+																												pos: position{line: 676, col: 17, offset: 21469},
 																												run: (*parser).callonImageBlock73,
 																												expr: &seqExpr{
-																													pos: position{line: 669, col: 17, offset: 21226},
+																													pos: position{line: 676, col: 17, offset: 21469},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 669, col: 17, offset: 21226},
+																															pos:        position{line: 676, col: 17, offset: 21469},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 669, col: 21, offset: 21230},
+																															pos:   position{line: 676, col: 21, offset: 21473},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 669, col: 28, offset: 21237},
+																																pos: position{line: 676, col: 28, offset: 21480},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 669, col: 28, offset: 21237},
+																																		pos: position{line: 676, col: 28, offset: 21480},
 																																		run: (*parser).callonImageBlock78,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 669, col: 28, offset: 21237},
+																																			pos:        position{line: 676, col: 28, offset: 21480},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20037,12 +20070,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 671, col: 9, offset: 21291},
+																																		pos: position{line: 678, col: 9, offset: 21534},
 																																		run: (*parser).callonImageBlock80,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 671, col: 9, offset: 21291},
+																																			pos: position{line: 678, col: 9, offset: 21534},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 671, col: 9, offset: 21291},
+																																				pos:        position{line: 678, col: 9, offset: 21534},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20059,7 +20092,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 661, col: 78, offset: 20947},
+																										pos:        position{line: 668, col: 78, offset: 21190},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20068,19 +20101,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 665, col: 25, offset: 21065},
+																							pos: position{line: 672, col: 25, offset: 21308},
 																							run: (*parser).callonImageBlock84,
 																							expr: &seqExpr{
-																								pos: position{line: 665, col: 25, offset: 21065},
+																								pos: position{line: 672, col: 25, offset: 21308},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 665, col: 25, offset: 21065},
+																										pos:        position{line: 672, col: 25, offset: 21308},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 665, col: 38, offset: 21078},
+																										pos:   position{line: 672, col: 38, offset: 21321},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20112,33 +20145,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 665, col: 57, offset: 21097},
+																										pos:   position{line: 672, col: 57, offset: 21340},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 665, col: 63, offset: 21103},
+																											pos: position{line: 672, col: 63, offset: 21346},
 																											expr: &actionExpr{
-																												pos: position{line: 669, col: 17, offset: 21226},
+																												pos: position{line: 676, col: 17, offset: 21469},
 																												run: (*parser).callonImageBlock95,
 																												expr: &seqExpr{
-																													pos: position{line: 669, col: 17, offset: 21226},
+																													pos: position{line: 676, col: 17, offset: 21469},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 669, col: 17, offset: 21226},
+																															pos:        position{line: 676, col: 17, offset: 21469},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 669, col: 21, offset: 21230},
+																															pos:   position{line: 676, col: 21, offset: 21473},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 669, col: 28, offset: 21237},
+																																pos: position{line: 676, col: 28, offset: 21480},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 669, col: 28, offset: 21237},
+																																		pos: position{line: 676, col: 28, offset: 21480},
 																																		run: (*parser).callonImageBlock100,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 669, col: 28, offset: 21237},
+																																			pos:        position{line: 676, col: 28, offset: 21480},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20146,12 +20179,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 671, col: 9, offset: 21291},
+																																		pos: position{line: 678, col: 9, offset: 21534},
 																																		run: (*parser).callonImageBlock102,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 671, col: 9, offset: 21291},
+																																			pos: position{line: 678, col: 9, offset: 21534},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 671, col: 9, offset: 21291},
+																																				pos:        position{line: 678, col: 9, offset: 21534},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20168,7 +20201,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 665, col: 79, offset: 21119},
+																										pos:        position{line: 672, col: 79, offset: 21362},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20183,27 +20216,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1213, col: 23, offset: 37477},
+																	pos: position{line: 1220, col: 23, offset: 37720},
 																	run: (*parser).callonImageBlock106,
 																	expr: &seqExpr{
-																		pos: position{line: 1213, col: 23, offset: 37477},
+																		pos: position{line: 1220, col: 23, offset: 37720},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1211, col: 32, offset: 37445},
+																				pos:        position{line: 1218, col: 32, offset: 37688},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1213, col: 51, offset: 37505},
+																				pos:   position{line: 1220, col: 51, offset: 37748},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1213, col: 56, offset: 37510},
+																					pos: position{line: 1220, col: 56, offset: 37753},
 																					run: (*parser).callonImageBlock110,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1213, col: 56, offset: 37510},
+																						pos: position{line: 1220, col: 56, offset: 37753},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1213, col: 56, offset: 37510},
+																							pos:        position{line: 1220, col: 56, offset: 37753},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20213,7 +20246,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1211, col: 32, offset: 37445},
+																				pos:        position{line: 1218, col: 32, offset: 37688},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20222,10 +20255,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2847, col: 11, offset: 90333},
+																	pos: position{line: 2862, col: 11, offset: 90801},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2847, col: 11, offset: 90333},
+																		pos:        position{line: 2862, col: 11, offset: 90801},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20242,20 +20275,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1327, col: 31, offset: 41488},
+							pos:   position{line: 1334, col: 31, offset: 41731},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1327, col: 43, offset: 41500},
+								pos:  position{line: 1334, col: 43, offset: 41743},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1327, col: 61, offset: 41518},
+							pos: position{line: 1334, col: 61, offset: 41761},
 							expr: &actionExpr{
-								pos: position{line: 2868, col: 10, offset: 90818},
+								pos: position{line: 2883, col: 10, offset: 91286},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2868, col: 10, offset: 90818},
+									pos:        position{line: 2883, col: 10, offset: 91286},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20264,28 +20297,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2890, col: 8, offset: 91216},
+							pos: position{line: 2905, col: 8, offset: 91684},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2877, col: 12, offset: 90989},
+									pos: position{line: 2892, col: 12, offset: 91457},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2877, col: 13, offset: 90990},
+										pos: position{line: 2892, col: 13, offset: 91458},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2877, col: 13, offset: 90990},
+												pos:        position{line: 2892, col: 13, offset: 91458},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2877, col: 20, offset: 90997},
+												pos:        position{line: 2892, col: 20, offset: 91465},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2877, col: 29, offset: 91006},
+												pos:        position{line: 2892, col: 29, offset: 91474},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20294,9 +20327,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2887, col: 8, offset: 91166},
+									pos: position{line: 2902, col: 8, offset: 91634},
 									expr: &anyMatcher{
-										line: 2887, col: 9, offset: 91167,
+										line: 2902, col: 9, offset: 91635,
 									},
 								},
 							},
@@ -20307,74 +20340,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1332, col: 1, offset: 41735},
+			pos:  position{line: 1339, col: 1, offset: 41978},
 			expr: &actionExpr{
-				pos: position{line: 1332, col: 16, offset: 41750},
+				pos: position{line: 1339, col: 16, offset: 41993},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1332, col: 16, offset: 41750},
+					pos: position{line: 1339, col: 16, offset: 41993},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1332, col: 16, offset: 41750},
+							pos:        position{line: 1339, col: 16, offset: 41993},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1332, col: 25, offset: 41759},
+							pos: position{line: 1339, col: 25, offset: 42002},
 							expr: &litMatcher{
-								pos:        position{line: 1332, col: 26, offset: 41760},
+								pos:        position{line: 1339, col: 26, offset: 42003},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1332, col: 30, offset: 41764},
+							pos:   position{line: 1339, col: 30, offset: 42007},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2826, col: 13, offset: 89577},
+								pos: position{line: 2841, col: 13, offset: 90045},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2826, col: 13, offset: 89577},
+									pos: position{line: 2841, col: 13, offset: 90045},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2826, col: 13, offset: 89577},
+											pos:   position{line: 2841, col: 13, offset: 90045},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2826, col: 20, offset: 89584},
+												pos: position{line: 2841, col: 20, offset: 90052},
 												expr: &actionExpr{
-													pos: position{line: 2834, col: 11, offset: 89823},
+													pos: position{line: 2849, col: 11, offset: 90291},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2834, col: 12, offset: 89824},
+														pos: position{line: 2849, col: 12, offset: 90292},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2834, col: 12, offset: 89824},
+																pos:        position{line: 2849, col: 12, offset: 90292},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2834, col: 24, offset: 89836},
+																pos:        position{line: 2849, col: 24, offset: 90304},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2834, col: 37, offset: 89849},
+																pos:        position{line: 2849, col: 37, offset: 90317},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2834, col: 48, offset: 89860},
+																pos:        position{line: 2849, col: 48, offset: 90328},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2834, col: 59, offset: 89871},
+																pos:        position{line: 2849, col: 59, offset: 90339},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20385,38 +20418,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2826, col: 30, offset: 89594},
+											pos:   position{line: 2841, col: 30, offset: 90062},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2839, col: 5, offset: 89935},
+												pos: position{line: 2854, col: 5, offset: 90403},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2839, col: 5, offset: 89935},
+													pos:   position{line: 2854, col: 5, offset: 90403},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2839, col: 14, offset: 89944},
+														pos: position{line: 2854, col: 14, offset: 90412},
 														expr: &choiceExpr{
-															pos: position{line: 2840, col: 9, offset: 89954},
+															pos: position{line: 2855, col: 9, offset: 90422},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2840, col: 9, offset: 89954},
+																	pos: position{line: 2855, col: 9, offset: 90422},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2840, col: 9, offset: 89954},
+																		pos: position{line: 2855, col: 9, offset: 90422},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2840, col: 9, offset: 89954},
+																				pos: position{line: 2855, col: 9, offset: 90422},
 																				expr: &litMatcher{
-																					pos:        position{line: 2840, col: 10, offset: 89955},
+																					pos:        position{line: 2855, col: 10, offset: 90423},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2841, col: 9, offset: 89983},
+																				pos: position{line: 2856, col: 9, offset: 90451},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2841, col: 10, offset: 89984},
+																					pos:        position{line: 2856, col: 10, offset: 90452},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20427,27 +20460,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2844, col: 11, offset: 90196},
+																	pos: position{line: 2859, col: 11, offset: 90664},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2844, col: 11, offset: 90196},
+																			pos:        position{line: 2859, col: 11, offset: 90664},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2844, col: 19, offset: 90204},
+																			pos: position{line: 2859, col: 19, offset: 90672},
 																			expr: &seqExpr{
-																				pos: position{line: 2844, col: 21, offset: 90206},
+																				pos: position{line: 2859, col: 21, offset: 90674},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2844, col: 21, offset: 90206},
+																						pos: position{line: 2859, col: 21, offset: 90674},
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 10, offset: 90818},
+																							pos: position{line: 2883, col: 10, offset: 91286},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 10, offset: 90818},
+																								pos:        position{line: 2883, col: 10, offset: 91286},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20456,11 +20489,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2844, col: 28, offset: 90213},
+																						pos: position{line: 2859, col: 28, offset: 90681},
 																						expr: &notExpr{
-																							pos: position{line: 2887, col: 8, offset: 91166},
+																							pos: position{line: 2902, col: 8, offset: 91634},
 																							expr: &anyMatcher{
-																								line: 2887, col: 9, offset: 91167,
+																								line: 2902, col: 9, offset: 91635,
 																							},
 																						},
 																					},
@@ -20470,35 +20503,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 639, col: 5, offset: 20212},
+																	pos: position{line: 646, col: 5, offset: 20455},
 																	run: (*parser).callonInlineImage39,
 																	expr: &seqExpr{
-																		pos: position{line: 639, col: 5, offset: 20212},
+																		pos: position{line: 646, col: 5, offset: 20455},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 639, col: 5, offset: 20212},
+																				pos: position{line: 646, col: 5, offset: 20455},
 																				run: (*parser).callonInlineImage41,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 642, col: 5, offset: 20284},
+																				pos:   position{line: 649, col: 5, offset: 20527},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 642, col: 14, offset: 20293},
+																					pos: position{line: 649, col: 14, offset: 20536},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 648, col: 5, offset: 20422},
+																							pos: position{line: 655, col: 5, offset: 20665},
 																							run: (*parser).callonInlineImage44,
 																							expr: &seqExpr{
-																								pos: position{line: 648, col: 5, offset: 20422},
+																								pos: position{line: 655, col: 5, offset: 20665},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 648, col: 5, offset: 20422},
+																										pos:        position{line: 655, col: 5, offset: 20665},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 648, col: 13, offset: 20430},
+																										pos:   position{line: 655, col: 13, offset: 20673},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20530,7 +20563,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 648, col: 32, offset: 20449},
+																										pos:        position{line: 655, col: 32, offset: 20692},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20539,19 +20572,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 655, col: 5, offset: 20690},
+																							pos: position{line: 662, col: 5, offset: 20933},
 																							run: (*parser).callonInlineImage54,
 																							expr: &seqExpr{
-																								pos: position{line: 655, col: 5, offset: 20690},
+																								pos: position{line: 662, col: 5, offset: 20933},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 655, col: 5, offset: 20690},
+																										pos:        position{line: 662, col: 5, offset: 20933},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 655, col: 9, offset: 20694},
+																										pos:   position{line: 662, col: 9, offset: 20937},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20583,7 +20616,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 655, col: 28, offset: 20713},
+																										pos:        position{line: 662, col: 28, offset: 20956},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20592,19 +20625,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 661, col: 25, offset: 20894},
+																							pos: position{line: 668, col: 25, offset: 21137},
 																							run: (*parser).callonInlineImage64,
 																							expr: &seqExpr{
-																								pos: position{line: 661, col: 25, offset: 20894},
+																								pos: position{line: 668, col: 25, offset: 21137},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 661, col: 25, offset: 20894},
+																										pos:        position{line: 668, col: 25, offset: 21137},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 661, col: 37, offset: 20906},
+																										pos:   position{line: 668, col: 37, offset: 21149},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20636,33 +20669,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 661, col: 56, offset: 20925},
+																										pos:   position{line: 668, col: 56, offset: 21168},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 661, col: 62, offset: 20931},
+																											pos: position{line: 668, col: 62, offset: 21174},
 																											expr: &actionExpr{
-																												pos: position{line: 669, col: 17, offset: 21226},
+																												pos: position{line: 676, col: 17, offset: 21469},
 																												run: (*parser).callonInlineImage75,
 																												expr: &seqExpr{
-																													pos: position{line: 669, col: 17, offset: 21226},
+																													pos: position{line: 676, col: 17, offset: 21469},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 669, col: 17, offset: 21226},
+																															pos:        position{line: 676, col: 17, offset: 21469},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 669, col: 21, offset: 21230},
+																															pos:   position{line: 676, col: 21, offset: 21473},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 669, col: 28, offset: 21237},
+																																pos: position{line: 676, col: 28, offset: 21480},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 669, col: 28, offset: 21237},
+																																		pos: position{line: 676, col: 28, offset: 21480},
 																																		run: (*parser).callonInlineImage80,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 669, col: 28, offset: 21237},
+																																			pos:        position{line: 676, col: 28, offset: 21480},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20670,12 +20703,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 671, col: 9, offset: 21291},
+																																		pos: position{line: 678, col: 9, offset: 21534},
 																																		run: (*parser).callonInlineImage82,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 671, col: 9, offset: 21291},
+																																			pos: position{line: 678, col: 9, offset: 21534},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 671, col: 9, offset: 21291},
+																																				pos:        position{line: 678, col: 9, offset: 21534},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20692,7 +20725,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 661, col: 78, offset: 20947},
+																										pos:        position{line: 668, col: 78, offset: 21190},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20701,19 +20734,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 665, col: 25, offset: 21065},
+																							pos: position{line: 672, col: 25, offset: 21308},
 																							run: (*parser).callonInlineImage86,
 																							expr: &seqExpr{
-																								pos: position{line: 665, col: 25, offset: 21065},
+																								pos: position{line: 672, col: 25, offset: 21308},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 665, col: 25, offset: 21065},
+																										pos:        position{line: 672, col: 25, offset: 21308},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 665, col: 38, offset: 21078},
+																										pos:   position{line: 672, col: 38, offset: 21321},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20745,33 +20778,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 665, col: 57, offset: 21097},
+																										pos:   position{line: 672, col: 57, offset: 21340},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 665, col: 63, offset: 21103},
+																											pos: position{line: 672, col: 63, offset: 21346},
 																											expr: &actionExpr{
-																												pos: position{line: 669, col: 17, offset: 21226},
+																												pos: position{line: 676, col: 17, offset: 21469},
 																												run: (*parser).callonInlineImage97,
 																												expr: &seqExpr{
-																													pos: position{line: 669, col: 17, offset: 21226},
+																													pos: position{line: 676, col: 17, offset: 21469},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 669, col: 17, offset: 21226},
+																															pos:        position{line: 676, col: 17, offset: 21469},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 669, col: 21, offset: 21230},
+																															pos:   position{line: 676, col: 21, offset: 21473},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 669, col: 28, offset: 21237},
+																																pos: position{line: 676, col: 28, offset: 21480},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 669, col: 28, offset: 21237},
+																																		pos: position{line: 676, col: 28, offset: 21480},
 																																		run: (*parser).callonInlineImage102,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 669, col: 28, offset: 21237},
+																																			pos:        position{line: 676, col: 28, offset: 21480},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20779,12 +20812,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 671, col: 9, offset: 21291},
+																																		pos: position{line: 678, col: 9, offset: 21534},
 																																		run: (*parser).callonInlineImage104,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 671, col: 9, offset: 21291},
+																																			pos: position{line: 678, col: 9, offset: 21534},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 671, col: 9, offset: 21291},
+																																				pos:        position{line: 678, col: 9, offset: 21534},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20801,7 +20834,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 665, col: 79, offset: 21119},
+																										pos:        position{line: 672, col: 79, offset: 21362},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20816,27 +20849,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1213, col: 23, offset: 37477},
+																	pos: position{line: 1220, col: 23, offset: 37720},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1213, col: 23, offset: 37477},
+																		pos: position{line: 1220, col: 23, offset: 37720},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1211, col: 32, offset: 37445},
+																				pos:        position{line: 1218, col: 32, offset: 37688},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1213, col: 51, offset: 37505},
+																				pos:   position{line: 1220, col: 51, offset: 37748},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1213, col: 56, offset: 37510},
+																					pos: position{line: 1220, col: 56, offset: 37753},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1213, col: 56, offset: 37510},
+																						pos: position{line: 1220, col: 56, offset: 37753},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1213, col: 56, offset: 37510},
+																							pos:        position{line: 1220, col: 56, offset: 37753},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20846,7 +20879,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1211, col: 32, offset: 37445},
+																				pos:        position{line: 1218, col: 32, offset: 37688},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20855,10 +20888,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2847, col: 11, offset: 90333},
+																	pos: position{line: 2862, col: 11, offset: 90801},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2847, col: 11, offset: 90333},
+																		pos:        position{line: 2862, col: 11, offset: 90801},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20875,10 +20908,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1332, col: 46, offset: 41780},
+							pos:   position{line: 1339, col: 46, offset: 42023},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1332, col: 58, offset: 41792},
+								pos:  position{line: 1339, col: 58, offset: 42035},
 								name: "InlineAttributes",
 							},
 						},
@@ -20888,29 +20921,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1339, col: 1, offset: 42188},
+			pos:  position{line: 1346, col: 1, offset: 42431},
 			expr: &actionExpr{
-				pos: position{line: 1339, col: 15, offset: 42202},
+				pos: position{line: 1346, col: 15, offset: 42445},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1339, col: 15, offset: 42202},
+					pos: position{line: 1346, col: 15, offset: 42445},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1339, col: 15, offset: 42202},
+							pos:        position{line: 1346, col: 15, offset: 42445},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1339, col: 23, offset: 42210},
+							pos:   position{line: 1346, col: 23, offset: 42453},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1339, col: 29, offset: 42216},
+								pos: position{line: 1346, col: 29, offset: 42459},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1339, col: 29, offset: 42216},
+									pos: position{line: 1346, col: 29, offset: 42459},
 									expr: &charClassMatcher{
-										pos:        position{line: 1339, col: 29, offset: 42216},
+										pos:        position{line: 1346, col: 29, offset: 42459},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -20921,10 +20954,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1339, col: 73, offset: 42260},
+							pos:   position{line: 1346, col: 73, offset: 42503},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1339, col: 85, offset: 42272},
+								pos:  position{line: 1346, col: 85, offset: 42515},
 								name: "InlineAttributes",
 							},
 						},
@@ -20934,31 +20967,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1346, col: 1, offset: 42638},
+			pos:  position{line: 1353, col: 1, offset: 42881},
 			expr: &actionExpr{
-				pos: position{line: 1346, col: 19, offset: 42656},
+				pos: position{line: 1353, col: 19, offset: 42899},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1346, col: 19, offset: 42656},
+					pos: position{line: 1353, col: 19, offset: 42899},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1346, col: 19, offset: 42656},
+							pos:        position{line: 1353, col: 19, offset: 42899},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1346, col: 31, offset: 42668},
+							pos:   position{line: 1353, col: 31, offset: 42911},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1346, col: 35, offset: 42672},
+								pos: position{line: 1353, col: 35, offset: 42915},
 								expr: &actionExpr{
-									pos: position{line: 2762, col: 14, offset: 87987},
+									pos: position{line: 2777, col: 14, offset: 88455},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2762, col: 14, offset: 87987},
+										pos: position{line: 2777, col: 14, offset: 88455},
 										expr: &charClassMatcher{
-											pos:        position{line: 2762, col: 14, offset: 87987},
+											pos:        position{line: 2777, col: 14, offset: 88455},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -20969,21 +21002,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1346, col: 50, offset: 42687},
+							pos:        position{line: 1353, col: 50, offset: 42930},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1346, col: 54, offset: 42691},
+							pos:   position{line: 1353, col: 54, offset: 42934},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1346, col: 64, offset: 42701},
+								pos:  position{line: 1353, col: 64, offset: 42944},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1346, col: 82, offset: 42719},
+							pos:        position{line: 1353, col: 82, offset: 42962},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -20994,17 +21027,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1352, col: 1, offset: 42876},
+			pos:  position{line: 1359, col: 1, offset: 43119},
 			expr: &actionExpr{
-				pos: position{line: 1352, col: 21, offset: 42896},
+				pos: position{line: 1359, col: 21, offset: 43139},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1352, col: 21, offset: 42896},
+					pos:   position{line: 1359, col: 21, offset: 43139},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1352, col: 30, offset: 42905},
+						pos: position{line: 1359, col: 30, offset: 43148},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1352, col: 31, offset: 42906},
+							pos:  position{line: 1359, col: 31, offset: 43149},
 							name: "FootnoteElement",
 						},
 					},
@@ -21013,44 +21046,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1356, col: 1, offset: 42998},
+			pos:  position{line: 1363, col: 1, offset: 43241},
 			expr: &actionExpr{
-				pos: position{line: 1357, col: 5, offset: 43022},
+				pos: position{line: 1364, col: 5, offset: 43265},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1357, col: 5, offset: 43022},
+					pos: position{line: 1364, col: 5, offset: 43265},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1357, col: 5, offset: 43022},
+							pos: position{line: 1364, col: 5, offset: 43265},
 							expr: &litMatcher{
-								pos:        position{line: 1357, col: 6, offset: 43023},
+								pos:        position{line: 1364, col: 6, offset: 43266},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1358, col: 5, offset: 43032},
+							pos:   position{line: 1365, col: 5, offset: 43275},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1359, col: 9, offset: 43050},
+								pos: position{line: 1366, col: 9, offset: 43293},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2767, col: 5, offset: 88060},
+										pos: position{line: 2782, col: 5, offset: 88528},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2767, col: 5, offset: 88060},
+											pos: position{line: 2782, col: 5, offset: 88528},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2767, col: 5, offset: 88060},
+													pos:   position{line: 2782, col: 5, offset: 88528},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2767, col: 11, offset: 88066},
+														pos: position{line: 2782, col: 11, offset: 88534},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2767, col: 11, offset: 88066},
+															pos: position{line: 2782, col: 11, offset: 88534},
 															expr: &charClassMatcher{
-																pos:        position{line: 2767, col: 11, offset: 88066},
+																pos:        position{line: 2782, col: 11, offset: 88534},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21060,36 +21093,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2770, col: 5, offset: 88124},
+													pos: position{line: 2785, col: 5, offset: 88592},
 													expr: &seqExpr{
-														pos: position{line: 2771, col: 9, offset: 88135},
+														pos: position{line: 2786, col: 9, offset: 88603},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2771, col: 9, offset: 88135},
+																pos:        position{line: 2786, col: 9, offset: 88603},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2772, col: 9, offset: 88184},
+																pos: position{line: 2787, col: 9, offset: 88652},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2776, col: 5, offset: 88264},
+													pos: position{line: 2791, col: 5, offset: 88732},
 													expr: &seqExpr{
-														pos: position{line: 2777, col: 9, offset: 88275},
+														pos: position{line: 2792, col: 9, offset: 88743},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2777, col: 9, offset: 88275},
+																pos:        position{line: 2792, col: 9, offset: 88743},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2777, col: 13, offset: 88279},
+																pos:        position{line: 2792, col: 13, offset: 88747},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21102,12 +21135,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2872, col: 11, offset: 90879},
+										pos: position{line: 2887, col: 11, offset: 91347},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2872, col: 11, offset: 90879},
+											pos: position{line: 2887, col: 11, offset: 91347},
 											expr: &charClassMatcher{
-												pos:        position{line: 2872, col: 11, offset: 90879},
+												pos:        position{line: 2887, col: 11, offset: 91347},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21116,21 +21149,21 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2496, col: 5, offset: 80478},
+										pos: position{line: 2511, col: 5, offset: 80946},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2496, col: 5, offset: 80478},
+											pos: position{line: 2511, col: 5, offset: 80946},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2496, col: 5, offset: 80478},
+													pos:        position{line: 2511, col: 5, offset: 80946},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2496, col: 10, offset: 80483},
+													pos: position{line: 2511, col: 10, offset: 80951},
 													expr: &charClassMatcher{
-														pos:        position{line: 2496, col: 11, offset: 80484},
+														pos:        position{line: 2511, col: 11, offset: 80952},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21141,29 +21174,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2502, col: 5, offset: 80676},
+										pos: position{line: 2517, col: 5, offset: 81144},
 										run: (*parser).callonFootnoteElement29,
 										expr: &seqExpr{
-											pos: position{line: 2502, col: 5, offset: 80676},
+											pos: position{line: 2517, col: 5, offset: 81144},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2502, col: 5, offset: 80676},
+													pos: position{line: 2517, col: 5, offset: 81144},
 													run: (*parser).callonFootnoteElement31,
 												},
 												&andCodeExpr{
-													pos: position{line: 2505, col: 5, offset: 80747},
+													pos: position{line: 2520, col: 5, offset: 81215},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&litMatcher{
-													pos:        position{line: 2509, col: 5, offset: 80872},
+													pos:        position{line: 2524, col: 5, offset: 81340},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2509, col: 9, offset: 80876},
+													pos: position{line: 2524, col: 9, offset: 81344},
 													expr: &charClassMatcher{
-														pos:        position{line: 2509, col: 10, offset: 80877},
+														pos:        position{line: 2524, col: 10, offset: 81345},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21174,35 +21207,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1362, col: 11, offset: 43117},
+										pos:  position{line: 1369, col: 11, offset: 43360},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1363, col: 11, offset: 43133},
+										pos:  position{line: 1370, col: 11, offset: 43376},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2785, col: 5, offset: 88472},
+										pos: position{line: 2800, col: 5, offset: 88940},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2786, col: 9, offset: 88482},
+											pos: position{line: 2801, col: 9, offset: 88950},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2786, col: 10, offset: 88483},
+													pos:        position{line: 2801, col: 10, offset: 88951},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2788, col: 13, offset: 88580},
+													pos: position{line: 2803, col: 13, offset: 89048},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2788, col: 13, offset: 88580},
+															pos: position{line: 2803, col: 13, offset: 89048},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2791, col: 13, offset: 88680},
+															pos:        position{line: 2806, col: 13, offset: 89148},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21210,20 +21243,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2791, col: 19, offset: 88686},
+													pos:        position{line: 2806, col: 19, offset: 89154},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2794, col: 13, offset: 88724},
+													pos: position{line: 2809, col: 13, offset: 89192},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2794, col: 13, offset: 88724},
+															pos: position{line: 2809, col: 13, offset: 89192},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2797, col: 14, offset: 88817},
+															pos:        position{line: 2812, col: 14, offset: 89285},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21232,18 +21265,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2799, col: 12, offset: 88861},
+													pos: position{line: 2814, col: 12, offset: 89329},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2799, col: 12, offset: 88861},
+															pos:        position{line: 2814, col: 12, offset: 89329},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2799, col: 16, offset: 88865},
+															pos: position{line: 2814, col: 16, offset: 89333},
 															expr: &litMatcher{
-																pos:        position{line: 2799, col: 17, offset: 88866},
+																pos:        position{line: 2814, col: 17, offset: 89334},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21255,36 +21288,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1365, col: 11, offset: 43206},
+										pos:  position{line: 1372, col: 11, offset: 43449},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1221, col: 5, offset: 37923},
+										pos: position{line: 1228, col: 5, offset: 38166},
 										run: (*parser).callonFootnoteElement53,
 										expr: &seqExpr{
-											pos: position{line: 1221, col: 5, offset: 37923},
+											pos: position{line: 1228, col: 5, offset: 38166},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1221, col: 5, offset: 37923},
+													pos: position{line: 1228, col: 5, offset: 38166},
 													run: (*parser).callonFootnoteElement55,
 												},
 												&litMatcher{
-													pos:        position{line: 1224, col: 5, offset: 37999},
+													pos:        position{line: 1231, col: 5, offset: 38242},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1225, col: 5, offset: 38007},
+													pos: position{line: 1232, col: 5, offset: 38250},
 													run: (*parser).callonFootnoteElement57,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1229, col: 5, offset: 38094},
+													pos: position{line: 1236, col: 5, offset: 38337},
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 10, offset: 90818},
+														pos: position{line: 2883, col: 10, offset: 91286},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2868, col: 10, offset: 90818},
+															pos:        position{line: 2883, col: 10, offset: 91286},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21293,30 +21326,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1229, col: 12, offset: 38101},
+													pos: position{line: 1236, col: 12, offset: 38344},
 													expr: &choiceExpr{
-														pos: position{line: 2890, col: 8, offset: 91216},
+														pos: position{line: 2905, col: 8, offset: 91684},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2877, col: 12, offset: 90989},
+																pos: position{line: 2892, col: 12, offset: 91457},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2877, col: 13, offset: 90990},
+																	pos: position{line: 2892, col: 13, offset: 91458},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 13, offset: 90990},
+																			pos:        position{line: 2892, col: 13, offset: 91458},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 20, offset: 90997},
+																			pos:        position{line: 2892, col: 20, offset: 91465},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 29, offset: 91006},
+																			pos:        position{line: 2892, col: 29, offset: 91474},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21325,9 +21358,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2887, col: 8, offset: 91166},
+																pos: position{line: 2902, col: 8, offset: 91634},
 																expr: &anyMatcher{
-																	line: 2887, col: 9, offset: 91167,
+																	line: 2902, col: 9, offset: 91635,
 																},
 															},
 														},
@@ -21337,35 +21370,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 639, col: 5, offset: 20212},
+										pos: position{line: 646, col: 5, offset: 20455},
 										run: (*parser).callonFootnoteElement70,
 										expr: &seqExpr{
-											pos: position{line: 639, col: 5, offset: 20212},
+											pos: position{line: 646, col: 5, offset: 20455},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 639, col: 5, offset: 20212},
+													pos: position{line: 646, col: 5, offset: 20455},
 													run: (*parser).callonFootnoteElement72,
 												},
 												&labeledExpr{
-													pos:   position{line: 642, col: 5, offset: 20284},
+													pos:   position{line: 649, col: 5, offset: 20527},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 642, col: 14, offset: 20293},
+														pos: position{line: 649, col: 14, offset: 20536},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 648, col: 5, offset: 20422},
+																pos: position{line: 655, col: 5, offset: 20665},
 																run: (*parser).callonFootnoteElement75,
 																expr: &seqExpr{
-																	pos: position{line: 648, col: 5, offset: 20422},
+																	pos: position{line: 655, col: 5, offset: 20665},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 648, col: 5, offset: 20422},
+																			pos:        position{line: 655, col: 5, offset: 20665},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 648, col: 13, offset: 20430},
+																			pos:   position{line: 655, col: 13, offset: 20673},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -21397,7 +21430,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 648, col: 32, offset: 20449},
+																			pos:        position{line: 655, col: 32, offset: 20692},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21406,19 +21439,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 655, col: 5, offset: 20690},
+																pos: position{line: 662, col: 5, offset: 20933},
 																run: (*parser).callonFootnoteElement85,
 																expr: &seqExpr{
-																	pos: position{line: 655, col: 5, offset: 20690},
+																	pos: position{line: 662, col: 5, offset: 20933},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 655, col: 5, offset: 20690},
+																			pos:        position{line: 662, col: 5, offset: 20933},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 655, col: 9, offset: 20694},
+																			pos:   position{line: 662, col: 9, offset: 20937},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -21450,7 +21483,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 655, col: 28, offset: 20713},
+																			pos:        position{line: 662, col: 28, offset: 20956},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21459,19 +21492,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 661, col: 25, offset: 20894},
+																pos: position{line: 668, col: 25, offset: 21137},
 																run: (*parser).callonFootnoteElement95,
 																expr: &seqExpr{
-																	pos: position{line: 661, col: 25, offset: 20894},
+																	pos: position{line: 668, col: 25, offset: 21137},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 661, col: 25, offset: 20894},
+																			pos:        position{line: 668, col: 25, offset: 21137},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 661, col: 37, offset: 20906},
+																			pos:   position{line: 668, col: 37, offset: 21149},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -21503,33 +21536,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 661, col: 56, offset: 20925},
+																			pos:   position{line: 668, col: 56, offset: 21168},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 661, col: 62, offset: 20931},
+																				pos: position{line: 668, col: 62, offset: 21174},
 																				expr: &actionExpr{
-																					pos: position{line: 669, col: 17, offset: 21226},
+																					pos: position{line: 676, col: 17, offset: 21469},
 																					run: (*parser).callonFootnoteElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 669, col: 17, offset: 21226},
+																						pos: position{line: 676, col: 17, offset: 21469},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 669, col: 17, offset: 21226},
+																								pos:        position{line: 676, col: 17, offset: 21469},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 669, col: 21, offset: 21230},
+																								pos:   position{line: 676, col: 21, offset: 21473},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 669, col: 28, offset: 21237},
+																									pos: position{line: 676, col: 28, offset: 21480},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 669, col: 28, offset: 21237},
+																											pos: position{line: 676, col: 28, offset: 21480},
 																											run: (*parser).callonFootnoteElement111,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 669, col: 28, offset: 21237},
+																												pos:        position{line: 676, col: 28, offset: 21480},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21537,12 +21570,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 671, col: 9, offset: 21291},
+																											pos: position{line: 678, col: 9, offset: 21534},
 																											run: (*parser).callonFootnoteElement113,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 671, col: 9, offset: 21291},
+																												pos: position{line: 678, col: 9, offset: 21534},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 671, col: 9, offset: 21291},
+																													pos:        position{line: 678, col: 9, offset: 21534},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21559,7 +21592,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 661, col: 78, offset: 20947},
+																			pos:        position{line: 668, col: 78, offset: 21190},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21568,19 +21601,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 665, col: 25, offset: 21065},
+																pos: position{line: 672, col: 25, offset: 21308},
 																run: (*parser).callonFootnoteElement117,
 																expr: &seqExpr{
-																	pos: position{line: 665, col: 25, offset: 21065},
+																	pos: position{line: 672, col: 25, offset: 21308},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 665, col: 25, offset: 21065},
+																			pos:        position{line: 672, col: 25, offset: 21308},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 38, offset: 21078},
+																			pos:   position{line: 672, col: 38, offset: 21321},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -21612,33 +21645,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 665, col: 57, offset: 21097},
+																			pos:   position{line: 672, col: 57, offset: 21340},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 665, col: 63, offset: 21103},
+																				pos: position{line: 672, col: 63, offset: 21346},
 																				expr: &actionExpr{
-																					pos: position{line: 669, col: 17, offset: 21226},
+																					pos: position{line: 676, col: 17, offset: 21469},
 																					run: (*parser).callonFootnoteElement128,
 																					expr: &seqExpr{
-																						pos: position{line: 669, col: 17, offset: 21226},
+																						pos: position{line: 676, col: 17, offset: 21469},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 669, col: 17, offset: 21226},
+																								pos:        position{line: 676, col: 17, offset: 21469},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 669, col: 21, offset: 21230},
+																								pos:   position{line: 676, col: 21, offset: 21473},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 669, col: 28, offset: 21237},
+																									pos: position{line: 676, col: 28, offset: 21480},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 669, col: 28, offset: 21237},
+																											pos: position{line: 676, col: 28, offset: 21480},
 																											run: (*parser).callonFootnoteElement133,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 669, col: 28, offset: 21237},
+																												pos:        position{line: 676, col: 28, offset: 21480},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21646,12 +21679,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 671, col: 9, offset: 21291},
+																											pos: position{line: 678, col: 9, offset: 21534},
 																											run: (*parser).callonFootnoteElement135,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 671, col: 9, offset: 21291},
+																												pos: position{line: 678, col: 9, offset: 21534},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 671, col: 9, offset: 21291},
+																													pos:        position{line: 678, col: 9, offset: 21534},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21668,7 +21701,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 665, col: 79, offset: 21119},
+																			pos:        position{line: 672, col: 79, offset: 21362},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21683,23 +21716,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2465, col: 5, offset: 79307},
+										pos: position{line: 2480, col: 5, offset: 79775},
 										run: (*parser).callonFootnoteElement139,
 										expr: &seqExpr{
-											pos: position{line: 2465, col: 5, offset: 79307},
+											pos: position{line: 2480, col: 5, offset: 79775},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2465, col: 5, offset: 79307},
+													pos: position{line: 2480, col: 5, offset: 79775},
 													run: (*parser).callonFootnoteElement141,
 												},
 												&labeledExpr{
-													pos:   position{line: 2468, col: 5, offset: 79383},
+													pos:   position{line: 2483, col: 5, offset: 79851},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2469, col: 9, offset: 79401},
+														pos: position{line: 2484, col: 9, offset: 79869},
 														run: (*parser).callonFootnoteElement143,
 														expr: &charClassMatcher{
-															pos:        position{line: 2469, col: 10, offset: 79402},
+															pos:        position{line: 2484, col: 10, offset: 79870},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21711,25 +21744,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2877, col: 12, offset: 90989},
+										pos: position{line: 2892, col: 12, offset: 91457},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2877, col: 13, offset: 90990},
+											pos: position{line: 2892, col: 13, offset: 91458},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2877, col: 13, offset: 90990},
+													pos:        position{line: 2892, col: 13, offset: 91458},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2877, col: 20, offset: 90997},
+													pos:        position{line: 2892, col: 20, offset: 91465},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2877, col: 29, offset: 91006},
+													pos:        position{line: 2892, col: 29, offset: 91474},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21738,10 +21771,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2807, col: 12, offset: 89126},
+										pos: position{line: 2822, col: 12, offset: 89594},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2807, col: 12, offset: 89126},
+											pos:        position{line: 2822, col: 12, offset: 89594},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21757,32 +21790,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1404, col: 1, offset: 45051},
+			pos:  position{line: 1411, col: 1, offset: 45294},
 			expr: &choiceExpr{
-				pos: position{line: 1404, col: 21, offset: 45071},
+				pos: position{line: 1411, col: 21, offset: 45314},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1404, col: 21, offset: 45071},
+						pos: position{line: 1411, col: 21, offset: 45314},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1404, col: 21, offset: 45071},
+							pos: position{line: 1411, col: 21, offset: 45314},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1404, col: 21, offset: 45071},
+									pos:        position{line: 1411, col: 21, offset: 45314},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1404, col: 30, offset: 45080},
+									pos:   position{line: 1411, col: 30, offset: 45323},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1404, col: 38, offset: 45088},
+										pos: position{line: 1411, col: 38, offset: 45331},
 										expr: &actionExpr{
-											pos: position{line: 1410, col: 30, offset: 45414},
+											pos: position{line: 1417, col: 30, offset: 45657},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1410, col: 30, offset: 45414},
+												pos:        position{line: 1417, col: 30, offset: 45657},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -21792,7 +21825,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1404, col: 67, offset: 45117},
+									pos:        position{line: 1411, col: 67, offset: 45360},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21801,34 +21834,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1406, col: 9, offset: 45221},
+						pos: position{line: 1413, col: 9, offset: 45464},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1406, col: 9, offset: 45221},
+							pos: position{line: 1413, col: 9, offset: 45464},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1406, col: 9, offset: 45221},
+									pos:        position{line: 1413, col: 9, offset: 45464},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1406, col: 19, offset: 45231},
+									pos:   position{line: 1413, col: 19, offset: 45474},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1406, col: 27, offset: 45239},
+										pos: position{line: 1413, col: 27, offset: 45482},
 										expr: &choiceExpr{
-											pos: position{line: 1406, col: 28, offset: 45240},
+											pos: position{line: 1413, col: 28, offset: 45483},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1406, col: 28, offset: 45240},
+													pos:  position{line: 1413, col: 28, offset: 45483},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1410, col: 30, offset: 45414},
+													pos: position{line: 1417, col: 30, offset: 45657},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1410, col: 30, offset: 45414},
+														pos:        position{line: 1417, col: 30, offset: 45657},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -21840,7 +21873,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1406, col: 69, offset: 45281},
+									pos:        position{line: 1413, col: 69, offset: 45524},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -21853,75 +21886,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1417, col: 1, offset: 45670},
+			pos:  position{line: 1424, col: 1, offset: 45913},
 			expr: &choiceExpr{
-				pos: position{line: 1417, col: 9, offset: 45678},
+				pos: position{line: 1424, col: 9, offset: 45921},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1420, col: 5, offset: 45747},
+						pos: position{line: 1427, col: 5, offset: 45990},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1420, col: 5, offset: 45747},
+							pos: position{line: 1427, col: 5, offset: 45990},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1420, col: 5, offset: 45747},
+									pos:        position{line: 1427, col: 5, offset: 45990},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1421, col: 5, offset: 45756},
+									pos:   position{line: 1428, col: 5, offset: 45999},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2830, col: 23, offset: 89704},
+										pos: position{line: 2845, col: 23, offset: 90172},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2830, col: 23, offset: 89704},
+											pos: position{line: 2845, col: 23, offset: 90172},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2830, col: 23, offset: 89704},
+													pos: position{line: 2845, col: 23, offset: 90172},
 													expr: &litMatcher{
-														pos:        position{line: 2830, col: 24, offset: 89705},
+														pos:        position{line: 2845, col: 24, offset: 90173},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2830, col: 28, offset: 89709},
+													pos:   position{line: 2845, col: 28, offset: 90177},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2834, col: 11, offset: 89823},
+														pos: position{line: 2849, col: 11, offset: 90291},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2834, col: 12, offset: 89824},
+															pos: position{line: 2849, col: 12, offset: 90292},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2834, col: 12, offset: 89824},
+																	pos:        position{line: 2849, col: 12, offset: 90292},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2834, col: 24, offset: 89836},
+																	pos:        position{line: 2849, col: 24, offset: 90304},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2834, col: 37, offset: 89849},
+																	pos:        position{line: 2849, col: 37, offset: 90317},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2834, col: 48, offset: 89860},
+																	pos:        position{line: 2849, col: 48, offset: 90328},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2834, col: 59, offset: 89871},
+																	pos:        position{line: 2849, col: 59, offset: 90339},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21931,38 +21964,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2830, col: 44, offset: 89725},
+													pos:   position{line: 2845, col: 44, offset: 90193},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2839, col: 5, offset: 89935},
+														pos: position{line: 2854, col: 5, offset: 90403},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2839, col: 5, offset: 89935},
+															pos:   position{line: 2854, col: 5, offset: 90403},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2839, col: 14, offset: 89944},
+																pos: position{line: 2854, col: 14, offset: 90412},
 																expr: &choiceExpr{
-																	pos: position{line: 2840, col: 9, offset: 89954},
+																	pos: position{line: 2855, col: 9, offset: 90422},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2840, col: 9, offset: 89954},
+																			pos: position{line: 2855, col: 9, offset: 90422},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2840, col: 9, offset: 89954},
+																				pos: position{line: 2855, col: 9, offset: 90422},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2840, col: 9, offset: 89954},
+																						pos: position{line: 2855, col: 9, offset: 90422},
 																						expr: &litMatcher{
-																							pos:        position{line: 2840, col: 10, offset: 89955},
+																							pos:        position{line: 2855, col: 10, offset: 90423},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2841, col: 9, offset: 89983},
+																						pos: position{line: 2856, col: 9, offset: 90451},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2841, col: 10, offset: 89984},
+																							pos:        position{line: 2856, col: 10, offset: 90452},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -21973,27 +22006,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2844, col: 11, offset: 90196},
+																			pos: position{line: 2859, col: 11, offset: 90664},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2844, col: 11, offset: 90196},
+																					pos:        position{line: 2859, col: 11, offset: 90664},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2844, col: 19, offset: 90204},
+																					pos: position{line: 2859, col: 19, offset: 90672},
 																					expr: &seqExpr{
-																						pos: position{line: 2844, col: 21, offset: 90206},
+																						pos: position{line: 2859, col: 21, offset: 90674},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2844, col: 21, offset: 90206},
+																								pos: position{line: 2859, col: 21, offset: 90674},
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 10, offset: 90818},
+																									pos: position{line: 2883, col: 10, offset: 91286},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 10, offset: 90818},
+																										pos:        position{line: 2883, col: 10, offset: 91286},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22002,11 +22035,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2844, col: 28, offset: 90213},
+																								pos: position{line: 2859, col: 28, offset: 90681},
 																								expr: &notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -22016,35 +22049,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 639, col: 5, offset: 20212},
+																			pos: position{line: 646, col: 5, offset: 20455},
 																			run: (*parser).callonLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 639, col: 5, offset: 20212},
+																				pos: position{line: 646, col: 5, offset: 20455},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 639, col: 5, offset: 20212},
+																						pos: position{line: 646, col: 5, offset: 20455},
 																						run: (*parser).callonLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 642, col: 5, offset: 20284},
+																						pos:   position{line: 649, col: 5, offset: 20527},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 642, col: 14, offset: 20293},
+																							pos: position{line: 649, col: 14, offset: 20536},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 648, col: 5, offset: 20422},
+																									pos: position{line: 655, col: 5, offset: 20665},
 																									run: (*parser).callonLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 648, col: 5, offset: 20422},
+																										pos: position{line: 655, col: 5, offset: 20665},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 648, col: 5, offset: 20422},
+																												pos:        position{line: 655, col: 5, offset: 20665},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 648, col: 13, offset: 20430},
+																												pos:   position{line: 655, col: 13, offset: 20673},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22076,7 +22109,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 648, col: 32, offset: 20449},
+																												pos:        position{line: 655, col: 32, offset: 20692},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22085,19 +22118,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 655, col: 5, offset: 20690},
+																									pos: position{line: 662, col: 5, offset: 20933},
 																									run: (*parser).callonLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 655, col: 5, offset: 20690},
+																										pos: position{line: 662, col: 5, offset: 20933},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 655, col: 5, offset: 20690},
+																												pos:        position{line: 662, col: 5, offset: 20933},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 655, col: 9, offset: 20694},
+																												pos:   position{line: 662, col: 9, offset: 20937},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22129,7 +22162,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 655, col: 28, offset: 20713},
+																												pos:        position{line: 662, col: 28, offset: 20956},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22138,19 +22171,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 661, col: 25, offset: 20894},
+																									pos: position{line: 668, col: 25, offset: 21137},
 																									run: (*parser).callonLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 661, col: 25, offset: 20894},
+																										pos: position{line: 668, col: 25, offset: 21137},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 661, col: 25, offset: 20894},
+																												pos:        position{line: 668, col: 25, offset: 21137},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 37, offset: 20906},
+																												pos:   position{line: 668, col: 37, offset: 21149},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22182,33 +22215,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 56, offset: 20925},
+																												pos:   position{line: 668, col: 56, offset: 21168},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 661, col: 62, offset: 20931},
+																													pos: position{line: 668, col: 62, offset: 21174},
 																													expr: &actionExpr{
-																														pos: position{line: 669, col: 17, offset: 21226},
+																														pos: position{line: 676, col: 17, offset: 21469},
 																														run: (*parser).callonLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 669, col: 17, offset: 21226},
+																															pos: position{line: 676, col: 17, offset: 21469},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 669, col: 17, offset: 21226},
+																																	pos:        position{line: 676, col: 17, offset: 21469},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 669, col: 21, offset: 21230},
+																																	pos:   position{line: 676, col: 21, offset: 21473},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 669, col: 28, offset: 21237},
+																																		pos: position{line: 676, col: 28, offset: 21480},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 28, offset: 21237},
+																																				pos: position{line: 676, col: 28, offset: 21480},
 																																				run: (*parser).callonLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 669, col: 28, offset: 21237},
+																																					pos:        position{line: 676, col: 28, offset: 21480},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22216,12 +22249,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 671, col: 9, offset: 21291},
+																																				pos: position{line: 678, col: 9, offset: 21534},
 																																				run: (*parser).callonLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 671, col: 9, offset: 21291},
+																																					pos: position{line: 678, col: 9, offset: 21534},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 671, col: 9, offset: 21291},
+																																						pos:        position{line: 678, col: 9, offset: 21534},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22238,7 +22271,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 661, col: 78, offset: 20947},
+																												pos:        position{line: 668, col: 78, offset: 21190},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22247,19 +22280,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 25, offset: 21065},
+																									pos: position{line: 672, col: 25, offset: 21308},
 																									run: (*parser).callonLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 25, offset: 21065},
+																										pos: position{line: 672, col: 25, offset: 21308},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 25, offset: 21065},
+																												pos:        position{line: 672, col: 25, offset: 21308},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 38, offset: 21078},
+																												pos:   position{line: 672, col: 38, offset: 21321},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22291,33 +22324,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 57, offset: 21097},
+																												pos:   position{line: 672, col: 57, offset: 21340},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 665, col: 63, offset: 21103},
+																													pos: position{line: 672, col: 63, offset: 21346},
 																													expr: &actionExpr{
-																														pos: position{line: 669, col: 17, offset: 21226},
+																														pos: position{line: 676, col: 17, offset: 21469},
 																														run: (*parser).callonLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 669, col: 17, offset: 21226},
+																															pos: position{line: 676, col: 17, offset: 21469},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 669, col: 17, offset: 21226},
+																																	pos:        position{line: 676, col: 17, offset: 21469},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 669, col: 21, offset: 21230},
+																																	pos:   position{line: 676, col: 21, offset: 21473},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 669, col: 28, offset: 21237},
+																																		pos: position{line: 676, col: 28, offset: 21480},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 28, offset: 21237},
+																																				pos: position{line: 676, col: 28, offset: 21480},
 																																				run: (*parser).callonLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 669, col: 28, offset: 21237},
+																																					pos:        position{line: 676, col: 28, offset: 21480},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22325,12 +22358,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 671, col: 9, offset: 21291},
+																																				pos: position{line: 678, col: 9, offset: 21534},
 																																				run: (*parser).callonLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 671, col: 9, offset: 21291},
+																																					pos: position{line: 678, col: 9, offset: 21534},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 671, col: 9, offset: 21291},
+																																						pos:        position{line: 678, col: 9, offset: 21534},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22347,7 +22380,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 79, offset: 21119},
+																												pos:        position{line: 672, col: 79, offset: 21362},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22362,27 +22395,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1213, col: 23, offset: 37477},
+																			pos: position{line: 1220, col: 23, offset: 37720},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1213, col: 23, offset: 37477},
+																				pos: position{line: 1220, col: 23, offset: 37720},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1211, col: 32, offset: 37445},
+																						pos:        position{line: 1218, col: 32, offset: 37688},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1213, col: 51, offset: 37505},
+																						pos:   position{line: 1220, col: 51, offset: 37748},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1213, col: 56, offset: 37510},
+																							pos: position{line: 1220, col: 56, offset: 37753},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1213, col: 56, offset: 37510},
+																								pos: position{line: 1220, col: 56, offset: 37753},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1213, col: 56, offset: 37510},
+																									pos:        position{line: 1220, col: 56, offset: 37753},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22392,7 +22425,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1211, col: 32, offset: 37445},
+																						pos:        position{line: 1218, col: 32, offset: 37688},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22401,10 +22434,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2847, col: 11, offset: 90333},
+																			pos: position{line: 2862, col: 11, offset: 90801},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2847, col: 11, offset: 90333},
+																				pos:        position{line: 2862, col: 11, offset: 90801},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22421,7 +22454,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1426, col: 5, offset: 45975},
+									pos:        position{line: 1433, col: 5, offset: 46218},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22430,38 +22463,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1417, col: 19, offset: 45688},
+						pos:  position{line: 1424, col: 19, offset: 45931},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1417, col: 34, offset: 45703},
+						pos:  position{line: 1424, col: 34, offset: 45946},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1455, col: 17, offset: 46968},
+						pos: position{line: 1462, col: 17, offset: 47211},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1455, col: 17, offset: 46968},
+							pos: position{line: 1462, col: 17, offset: 47211},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1455, col: 17, offset: 46968},
+									pos:   position{line: 1462, col: 17, offset: 47211},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1460, col: 5, offset: 47133},
+										pos: position{line: 1467, col: 5, offset: 47376},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1460, col: 5, offset: 47133},
+											pos: position{line: 1467, col: 5, offset: 47376},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1460, col: 5, offset: 47133},
+													pos:   position{line: 1467, col: 5, offset: 47376},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1460, col: 12, offset: 47140},
+														pos: position{line: 1467, col: 12, offset: 47383},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1460, col: 12, offset: 47140},
+															pos: position{line: 1467, col: 12, offset: 47383},
 															expr: &charClassMatcher{
-																pos:        position{line: 1460, col: 12, offset: 47140},
+																pos:        position{line: 1467, col: 12, offset: 47383},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22473,7 +22506,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1463, col: 5, offset: 47224},
+													pos: position{line: 1470, col: 5, offset: 47467},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -22481,33 +22514,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1455, col: 43, offset: 46994},
+									pos:        position{line: 1462, col: 43, offset: 47237},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1455, col: 47, offset: 46998},
+									pos:   position{line: 1462, col: 47, offset: 47241},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1472, col: 23, offset: 47518},
+										pos: position{line: 1479, col: 23, offset: 47761},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1472, col: 23, offset: 47518},
+											pos: position{line: 1479, col: 23, offset: 47761},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1472, col: 23, offset: 47518},
+													pos:   position{line: 1479, col: 23, offset: 47761},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1472, col: 31, offset: 47526},
+														pos: position{line: 1479, col: 31, offset: 47769},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1472, col: 31, offset: 47526},
+															pos: position{line: 1479, col: 31, offset: 47769},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1472, col: 31, offset: 47526},
+																	pos: position{line: 1479, col: 31, offset: 47769},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1472, col: 31, offset: 47526},
+																		pos:        position{line: 1479, col: 31, offset: 47769},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -22515,20 +22548,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1472, col: 41, offset: 47536},
+																	pos: position{line: 1479, col: 41, offset: 47779},
 																	expr: &seqExpr{
-																		pos: position{line: 1472, col: 42, offset: 47537},
+																		pos: position{line: 1479, col: 42, offset: 47780},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1472, col: 42, offset: 47537},
+																				pos:        position{line: 1479, col: 42, offset: 47780},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1472, col: 46, offset: 47541},
+																				pos: position{line: 1479, col: 46, offset: 47784},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1472, col: 46, offset: 47541},
+																					pos:        position{line: 1479, col: 46, offset: 47784},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22544,7 +22577,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1475, col: 5, offset: 47602},
+													pos: position{line: 1482, col: 5, offset: 47845},
 													run: (*parser).callonLink145,
 												},
 											},
@@ -22559,68 +22592,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1432, col: 1, offset: 46123},
+			pos:  position{line: 1439, col: 1, offset: 46366},
 			expr: &choiceExpr{
-				pos: position{line: 1434, col: 5, offset: 46159},
+				pos: position{line: 1441, col: 5, offset: 46402},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1434, col: 5, offset: 46159},
+						pos: position{line: 1441, col: 5, offset: 46402},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1434, col: 5, offset: 46159},
+							pos: position{line: 1441, col: 5, offset: 46402},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1434, col: 5, offset: 46159},
+									pos:        position{line: 1441, col: 5, offset: 46402},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1434, col: 17, offset: 46171},
+									pos:   position{line: 1441, col: 17, offset: 46414},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2826, col: 13, offset: 89577},
+										pos: position{line: 2841, col: 13, offset: 90045},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2826, col: 13, offset: 89577},
+											pos: position{line: 2841, col: 13, offset: 90045},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2826, col: 13, offset: 89577},
+													pos:   position{line: 2841, col: 13, offset: 90045},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2826, col: 20, offset: 89584},
+														pos: position{line: 2841, col: 20, offset: 90052},
 														expr: &actionExpr{
-															pos: position{line: 2834, col: 11, offset: 89823},
+															pos: position{line: 2849, col: 11, offset: 90291},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2834, col: 12, offset: 89824},
+																pos: position{line: 2849, col: 12, offset: 90292},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2834, col: 12, offset: 89824},
+																		pos:        position{line: 2849, col: 12, offset: 90292},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2834, col: 24, offset: 89836},
+																		pos:        position{line: 2849, col: 24, offset: 90304},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2834, col: 37, offset: 89849},
+																		pos:        position{line: 2849, col: 37, offset: 90317},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2834, col: 48, offset: 89860},
+																		pos:        position{line: 2849, col: 48, offset: 90328},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2834, col: 59, offset: 89871},
+																		pos:        position{line: 2849, col: 59, offset: 90339},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22631,38 +22664,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2826, col: 30, offset: 89594},
+													pos:   position{line: 2841, col: 30, offset: 90062},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2839, col: 5, offset: 89935},
+														pos: position{line: 2854, col: 5, offset: 90403},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2839, col: 5, offset: 89935},
+															pos:   position{line: 2854, col: 5, offset: 90403},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2839, col: 14, offset: 89944},
+																pos: position{line: 2854, col: 14, offset: 90412},
 																expr: &choiceExpr{
-																	pos: position{line: 2840, col: 9, offset: 89954},
+																	pos: position{line: 2855, col: 9, offset: 90422},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2840, col: 9, offset: 89954},
+																			pos: position{line: 2855, col: 9, offset: 90422},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2840, col: 9, offset: 89954},
+																				pos: position{line: 2855, col: 9, offset: 90422},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2840, col: 9, offset: 89954},
+																						pos: position{line: 2855, col: 9, offset: 90422},
 																						expr: &litMatcher{
-																							pos:        position{line: 2840, col: 10, offset: 89955},
+																							pos:        position{line: 2855, col: 10, offset: 90423},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2841, col: 9, offset: 89983},
+																						pos: position{line: 2856, col: 9, offset: 90451},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2841, col: 10, offset: 89984},
+																							pos:        position{line: 2856, col: 10, offset: 90452},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22673,27 +22706,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2844, col: 11, offset: 90196},
+																			pos: position{line: 2859, col: 11, offset: 90664},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2844, col: 11, offset: 90196},
+																					pos:        position{line: 2859, col: 11, offset: 90664},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2844, col: 19, offset: 90204},
+																					pos: position{line: 2859, col: 19, offset: 90672},
 																					expr: &seqExpr{
-																						pos: position{line: 2844, col: 21, offset: 90206},
+																						pos: position{line: 2859, col: 21, offset: 90674},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2844, col: 21, offset: 90206},
+																								pos: position{line: 2859, col: 21, offset: 90674},
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 10, offset: 90818},
+																									pos: position{line: 2883, col: 10, offset: 91286},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 10, offset: 90818},
+																										pos:        position{line: 2883, col: 10, offset: 91286},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22702,11 +22735,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2844, col: 28, offset: 90213},
+																								pos: position{line: 2859, col: 28, offset: 90681},
 																								expr: &notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -22716,35 +22749,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 639, col: 5, offset: 20212},
+																			pos: position{line: 646, col: 5, offset: 20455},
 																			run: (*parser).callonRelativeLink38,
 																			expr: &seqExpr{
-																				pos: position{line: 639, col: 5, offset: 20212},
+																				pos: position{line: 646, col: 5, offset: 20455},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 639, col: 5, offset: 20212},
+																						pos: position{line: 646, col: 5, offset: 20455},
 																						run: (*parser).callonRelativeLink40,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 642, col: 5, offset: 20284},
+																						pos:   position{line: 649, col: 5, offset: 20527},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 642, col: 14, offset: 20293},
+																							pos: position{line: 649, col: 14, offset: 20536},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 648, col: 5, offset: 20422},
+																									pos: position{line: 655, col: 5, offset: 20665},
 																									run: (*parser).callonRelativeLink43,
 																									expr: &seqExpr{
-																										pos: position{line: 648, col: 5, offset: 20422},
+																										pos: position{line: 655, col: 5, offset: 20665},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 648, col: 5, offset: 20422},
+																												pos:        position{line: 655, col: 5, offset: 20665},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 648, col: 13, offset: 20430},
+																												pos:   position{line: 655, col: 13, offset: 20673},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22776,7 +22809,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 648, col: 32, offset: 20449},
+																												pos:        position{line: 655, col: 32, offset: 20692},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22785,19 +22818,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 655, col: 5, offset: 20690},
+																									pos: position{line: 662, col: 5, offset: 20933},
 																									run: (*parser).callonRelativeLink53,
 																									expr: &seqExpr{
-																										pos: position{line: 655, col: 5, offset: 20690},
+																										pos: position{line: 662, col: 5, offset: 20933},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 655, col: 5, offset: 20690},
+																												pos:        position{line: 662, col: 5, offset: 20933},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 655, col: 9, offset: 20694},
+																												pos:   position{line: 662, col: 9, offset: 20937},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22829,7 +22862,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 655, col: 28, offset: 20713},
+																												pos:        position{line: 662, col: 28, offset: 20956},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22838,19 +22871,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 661, col: 25, offset: 20894},
+																									pos: position{line: 668, col: 25, offset: 21137},
 																									run: (*parser).callonRelativeLink63,
 																									expr: &seqExpr{
-																										pos: position{line: 661, col: 25, offset: 20894},
+																										pos: position{line: 668, col: 25, offset: 21137},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 661, col: 25, offset: 20894},
+																												pos:        position{line: 668, col: 25, offset: 21137},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 37, offset: 20906},
+																												pos:   position{line: 668, col: 37, offset: 21149},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22882,33 +22915,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 56, offset: 20925},
+																												pos:   position{line: 668, col: 56, offset: 21168},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 661, col: 62, offset: 20931},
+																													pos: position{line: 668, col: 62, offset: 21174},
 																													expr: &actionExpr{
-																														pos: position{line: 669, col: 17, offset: 21226},
+																														pos: position{line: 676, col: 17, offset: 21469},
 																														run: (*parser).callonRelativeLink74,
 																														expr: &seqExpr{
-																															pos: position{line: 669, col: 17, offset: 21226},
+																															pos: position{line: 676, col: 17, offset: 21469},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 669, col: 17, offset: 21226},
+																																	pos:        position{line: 676, col: 17, offset: 21469},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 669, col: 21, offset: 21230},
+																																	pos:   position{line: 676, col: 21, offset: 21473},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 669, col: 28, offset: 21237},
+																																		pos: position{line: 676, col: 28, offset: 21480},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 28, offset: 21237},
+																																				pos: position{line: 676, col: 28, offset: 21480},
 																																				run: (*parser).callonRelativeLink79,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 669, col: 28, offset: 21237},
+																																					pos:        position{line: 676, col: 28, offset: 21480},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22916,12 +22949,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 671, col: 9, offset: 21291},
+																																				pos: position{line: 678, col: 9, offset: 21534},
 																																				run: (*parser).callonRelativeLink81,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 671, col: 9, offset: 21291},
+																																					pos: position{line: 678, col: 9, offset: 21534},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 671, col: 9, offset: 21291},
+																																						pos:        position{line: 678, col: 9, offset: 21534},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22938,7 +22971,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 661, col: 78, offset: 20947},
+																												pos:        position{line: 668, col: 78, offset: 21190},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22947,19 +22980,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 25, offset: 21065},
+																									pos: position{line: 672, col: 25, offset: 21308},
 																									run: (*parser).callonRelativeLink85,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 25, offset: 21065},
+																										pos: position{line: 672, col: 25, offset: 21308},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 25, offset: 21065},
+																												pos:        position{line: 672, col: 25, offset: 21308},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 38, offset: 21078},
+																												pos:   position{line: 672, col: 38, offset: 21321},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22991,33 +23024,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 57, offset: 21097},
+																												pos:   position{line: 672, col: 57, offset: 21340},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 665, col: 63, offset: 21103},
+																													pos: position{line: 672, col: 63, offset: 21346},
 																													expr: &actionExpr{
-																														pos: position{line: 669, col: 17, offset: 21226},
+																														pos: position{line: 676, col: 17, offset: 21469},
 																														run: (*parser).callonRelativeLink96,
 																														expr: &seqExpr{
-																															pos: position{line: 669, col: 17, offset: 21226},
+																															pos: position{line: 676, col: 17, offset: 21469},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 669, col: 17, offset: 21226},
+																																	pos:        position{line: 676, col: 17, offset: 21469},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 669, col: 21, offset: 21230},
+																																	pos:   position{line: 676, col: 21, offset: 21473},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 669, col: 28, offset: 21237},
+																																		pos: position{line: 676, col: 28, offset: 21480},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 28, offset: 21237},
+																																				pos: position{line: 676, col: 28, offset: 21480},
 																																				run: (*parser).callonRelativeLink101,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 669, col: 28, offset: 21237},
+																																					pos:        position{line: 676, col: 28, offset: 21480},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23025,12 +23058,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 671, col: 9, offset: 21291},
+																																				pos: position{line: 678, col: 9, offset: 21534},
 																																				run: (*parser).callonRelativeLink103,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 671, col: 9, offset: 21291},
+																																					pos: position{line: 678, col: 9, offset: 21534},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 671, col: 9, offset: 21291},
+																																						pos:        position{line: 678, col: 9, offset: 21534},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23047,7 +23080,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 79, offset: 21119},
+																												pos:        position{line: 672, col: 79, offset: 21362},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23062,27 +23095,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1213, col: 23, offset: 37477},
+																			pos: position{line: 1220, col: 23, offset: 37720},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1213, col: 23, offset: 37477},
+																				pos: position{line: 1220, col: 23, offset: 37720},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1211, col: 32, offset: 37445},
+																						pos:        position{line: 1218, col: 32, offset: 37688},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1213, col: 51, offset: 37505},
+																						pos:   position{line: 1220, col: 51, offset: 37748},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1213, col: 56, offset: 37510},
+																							pos: position{line: 1220, col: 56, offset: 37753},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1213, col: 56, offset: 37510},
+																								pos: position{line: 1220, col: 56, offset: 37753},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1213, col: 56, offset: 37510},
+																									pos:        position{line: 1220, col: 56, offset: 37753},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23092,7 +23125,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1211, col: 32, offset: 37445},
+																						pos:        position{line: 1218, col: 32, offset: 37688},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23101,10 +23134,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2847, col: 11, offset: 90333},
+																			pos: position{line: 2862, col: 11, offset: 90801},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2847, col: 11, offset: 90333},
+																				pos:        position{line: 2862, col: 11, offset: 90801},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23121,10 +23154,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1434, col: 32, offset: 46186},
+									pos:   position{line: 1441, col: 32, offset: 46429},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1434, col: 44, offset: 46198},
+										pos:  position{line: 1441, col: 44, offset: 46441},
 										name: "InlineAttributes",
 									},
 								},
@@ -23132,63 +23165,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1439, col: 5, offset: 46330},
+						pos: position{line: 1446, col: 5, offset: 46573},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1439, col: 5, offset: 46330},
+							pos: position{line: 1446, col: 5, offset: 46573},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1439, col: 5, offset: 46330},
+									pos:        position{line: 1446, col: 5, offset: 46573},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1439, col: 13, offset: 46338},
+									pos:   position{line: 1446, col: 13, offset: 46581},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2826, col: 13, offset: 89577},
+										pos: position{line: 2841, col: 13, offset: 90045},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2826, col: 13, offset: 89577},
+											pos: position{line: 2841, col: 13, offset: 90045},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2826, col: 13, offset: 89577},
+													pos:   position{line: 2841, col: 13, offset: 90045},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2826, col: 20, offset: 89584},
+														pos: position{line: 2841, col: 20, offset: 90052},
 														expr: &actionExpr{
-															pos: position{line: 2834, col: 11, offset: 89823},
+															pos: position{line: 2849, col: 11, offset: 90291},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2834, col: 12, offset: 89824},
+																pos: position{line: 2849, col: 12, offset: 90292},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2834, col: 12, offset: 89824},
+																		pos:        position{line: 2849, col: 12, offset: 90292},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2834, col: 24, offset: 89836},
+																		pos:        position{line: 2849, col: 24, offset: 90304},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2834, col: 37, offset: 89849},
+																		pos:        position{line: 2849, col: 37, offset: 90317},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2834, col: 48, offset: 89860},
+																		pos:        position{line: 2849, col: 48, offset: 90328},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2834, col: 59, offset: 89871},
+																		pos:        position{line: 2849, col: 59, offset: 90339},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23199,38 +23232,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2826, col: 30, offset: 89594},
+													pos:   position{line: 2841, col: 30, offset: 90062},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2839, col: 5, offset: 89935},
+														pos: position{line: 2854, col: 5, offset: 90403},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2839, col: 5, offset: 89935},
+															pos:   position{line: 2854, col: 5, offset: 90403},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2839, col: 14, offset: 89944},
+																pos: position{line: 2854, col: 14, offset: 90412},
 																expr: &choiceExpr{
-																	pos: position{line: 2840, col: 9, offset: 89954},
+																	pos: position{line: 2855, col: 9, offset: 90422},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2840, col: 9, offset: 89954},
+																			pos: position{line: 2855, col: 9, offset: 90422},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2840, col: 9, offset: 89954},
+																				pos: position{line: 2855, col: 9, offset: 90422},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2840, col: 9, offset: 89954},
+																						pos: position{line: 2855, col: 9, offset: 90422},
 																						expr: &litMatcher{
-																							pos:        position{line: 2840, col: 10, offset: 89955},
+																							pos:        position{line: 2855, col: 10, offset: 90423},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2841, col: 9, offset: 89983},
+																						pos: position{line: 2856, col: 9, offset: 90451},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2841, col: 10, offset: 89984},
+																							pos:        position{line: 2856, col: 10, offset: 90452},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23241,27 +23274,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2844, col: 11, offset: 90196},
+																			pos: position{line: 2859, col: 11, offset: 90664},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2844, col: 11, offset: 90196},
+																					pos:        position{line: 2859, col: 11, offset: 90664},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2844, col: 19, offset: 90204},
+																					pos: position{line: 2859, col: 19, offset: 90672},
 																					expr: &seqExpr{
-																						pos: position{line: 2844, col: 21, offset: 90206},
+																						pos: position{line: 2859, col: 21, offset: 90674},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2844, col: 21, offset: 90206},
+																								pos: position{line: 2859, col: 21, offset: 90674},
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 10, offset: 90818},
+																									pos: position{line: 2883, col: 10, offset: 91286},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 10, offset: 90818},
+																										pos:        position{line: 2883, col: 10, offset: 91286},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23270,11 +23303,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2844, col: 28, offset: 90213},
+																								pos: position{line: 2859, col: 28, offset: 90681},
 																								expr: &notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -23284,35 +23317,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 639, col: 5, offset: 20212},
+																			pos: position{line: 646, col: 5, offset: 20455},
 																			run: (*parser).callonRelativeLink155,
 																			expr: &seqExpr{
-																				pos: position{line: 639, col: 5, offset: 20212},
+																				pos: position{line: 646, col: 5, offset: 20455},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 639, col: 5, offset: 20212},
+																						pos: position{line: 646, col: 5, offset: 20455},
 																						run: (*parser).callonRelativeLink157,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 642, col: 5, offset: 20284},
+																						pos:   position{line: 649, col: 5, offset: 20527},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 642, col: 14, offset: 20293},
+																							pos: position{line: 649, col: 14, offset: 20536},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 648, col: 5, offset: 20422},
+																									pos: position{line: 655, col: 5, offset: 20665},
 																									run: (*parser).callonRelativeLink160,
 																									expr: &seqExpr{
-																										pos: position{line: 648, col: 5, offset: 20422},
+																										pos: position{line: 655, col: 5, offset: 20665},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 648, col: 5, offset: 20422},
+																												pos:        position{line: 655, col: 5, offset: 20665},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 648, col: 13, offset: 20430},
+																												pos:   position{line: 655, col: 13, offset: 20673},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23344,7 +23377,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 648, col: 32, offset: 20449},
+																												pos:        position{line: 655, col: 32, offset: 20692},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23353,19 +23386,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 655, col: 5, offset: 20690},
+																									pos: position{line: 662, col: 5, offset: 20933},
 																									run: (*parser).callonRelativeLink170,
 																									expr: &seqExpr{
-																										pos: position{line: 655, col: 5, offset: 20690},
+																										pos: position{line: 662, col: 5, offset: 20933},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 655, col: 5, offset: 20690},
+																												pos:        position{line: 662, col: 5, offset: 20933},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 655, col: 9, offset: 20694},
+																												pos:   position{line: 662, col: 9, offset: 20937},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23397,7 +23430,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 655, col: 28, offset: 20713},
+																												pos:        position{line: 662, col: 28, offset: 20956},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23406,19 +23439,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 661, col: 25, offset: 20894},
+																									pos: position{line: 668, col: 25, offset: 21137},
 																									run: (*parser).callonRelativeLink180,
 																									expr: &seqExpr{
-																										pos: position{line: 661, col: 25, offset: 20894},
+																										pos: position{line: 668, col: 25, offset: 21137},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 661, col: 25, offset: 20894},
+																												pos:        position{line: 668, col: 25, offset: 21137},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 37, offset: 20906},
+																												pos:   position{line: 668, col: 37, offset: 21149},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23450,33 +23483,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 56, offset: 20925},
+																												pos:   position{line: 668, col: 56, offset: 21168},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 661, col: 62, offset: 20931},
+																													pos: position{line: 668, col: 62, offset: 21174},
 																													expr: &actionExpr{
-																														pos: position{line: 669, col: 17, offset: 21226},
+																														pos: position{line: 676, col: 17, offset: 21469},
 																														run: (*parser).callonRelativeLink191,
 																														expr: &seqExpr{
-																															pos: position{line: 669, col: 17, offset: 21226},
+																															pos: position{line: 676, col: 17, offset: 21469},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 669, col: 17, offset: 21226},
+																																	pos:        position{line: 676, col: 17, offset: 21469},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 669, col: 21, offset: 21230},
+																																	pos:   position{line: 676, col: 21, offset: 21473},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 669, col: 28, offset: 21237},
+																																		pos: position{line: 676, col: 28, offset: 21480},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 28, offset: 21237},
+																																				pos: position{line: 676, col: 28, offset: 21480},
 																																				run: (*parser).callonRelativeLink196,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 669, col: 28, offset: 21237},
+																																					pos:        position{line: 676, col: 28, offset: 21480},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23484,12 +23517,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 671, col: 9, offset: 21291},
+																																				pos: position{line: 678, col: 9, offset: 21534},
 																																				run: (*parser).callonRelativeLink198,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 671, col: 9, offset: 21291},
+																																					pos: position{line: 678, col: 9, offset: 21534},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 671, col: 9, offset: 21291},
+																																						pos:        position{line: 678, col: 9, offset: 21534},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23506,7 +23539,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 661, col: 78, offset: 20947},
+																												pos:        position{line: 668, col: 78, offset: 21190},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23515,19 +23548,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 25, offset: 21065},
+																									pos: position{line: 672, col: 25, offset: 21308},
 																									run: (*parser).callonRelativeLink202,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 25, offset: 21065},
+																										pos: position{line: 672, col: 25, offset: 21308},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 25, offset: 21065},
+																												pos:        position{line: 672, col: 25, offset: 21308},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 38, offset: 21078},
+																												pos:   position{line: 672, col: 38, offset: 21321},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23559,33 +23592,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 57, offset: 21097},
+																												pos:   position{line: 672, col: 57, offset: 21340},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 665, col: 63, offset: 21103},
+																													pos: position{line: 672, col: 63, offset: 21346},
 																													expr: &actionExpr{
-																														pos: position{line: 669, col: 17, offset: 21226},
+																														pos: position{line: 676, col: 17, offset: 21469},
 																														run: (*parser).callonRelativeLink213,
 																														expr: &seqExpr{
-																															pos: position{line: 669, col: 17, offset: 21226},
+																															pos: position{line: 676, col: 17, offset: 21469},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 669, col: 17, offset: 21226},
+																																	pos:        position{line: 676, col: 17, offset: 21469},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 669, col: 21, offset: 21230},
+																																	pos:   position{line: 676, col: 21, offset: 21473},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 669, col: 28, offset: 21237},
+																																		pos: position{line: 676, col: 28, offset: 21480},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 28, offset: 21237},
+																																				pos: position{line: 676, col: 28, offset: 21480},
 																																				run: (*parser).callonRelativeLink218,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 669, col: 28, offset: 21237},
+																																					pos:        position{line: 676, col: 28, offset: 21480},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23593,12 +23626,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 671, col: 9, offset: 21291},
+																																				pos: position{line: 678, col: 9, offset: 21534},
 																																				run: (*parser).callonRelativeLink220,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 671, col: 9, offset: 21291},
+																																					pos: position{line: 678, col: 9, offset: 21534},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 671, col: 9, offset: 21291},
+																																						pos:        position{line: 678, col: 9, offset: 21534},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23615,7 +23648,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 79, offset: 21119},
+																												pos:        position{line: 672, col: 79, offset: 21362},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23630,27 +23663,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1213, col: 23, offset: 37477},
+																			pos: position{line: 1220, col: 23, offset: 37720},
 																			run: (*parser).callonRelativeLink224,
 																			expr: &seqExpr{
-																				pos: position{line: 1213, col: 23, offset: 37477},
+																				pos: position{line: 1220, col: 23, offset: 37720},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1211, col: 32, offset: 37445},
+																						pos:        position{line: 1218, col: 32, offset: 37688},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1213, col: 51, offset: 37505},
+																						pos:   position{line: 1220, col: 51, offset: 37748},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1213, col: 56, offset: 37510},
+																							pos: position{line: 1220, col: 56, offset: 37753},
 																							run: (*parser).callonRelativeLink228,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1213, col: 56, offset: 37510},
+																								pos: position{line: 1220, col: 56, offset: 37753},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1213, col: 56, offset: 37510},
+																									pos:        position{line: 1220, col: 56, offset: 37753},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23660,7 +23693,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1211, col: 32, offset: 37445},
+																						pos:        position{line: 1218, col: 32, offset: 37688},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23669,10 +23702,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2847, col: 11, offset: 90333},
+																			pos: position{line: 2862, col: 11, offset: 90801},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2847, col: 11, offset: 90333},
+																				pos:        position{line: 2862, col: 11, offset: 90801},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23689,10 +23722,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1439, col: 28, offset: 46353},
+									pos:   position{line: 1446, col: 28, offset: 46596},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1439, col: 40, offset: 46365},
+										pos:  position{line: 1446, col: 40, offset: 46608},
 										name: "InlineAttributes",
 									},
 								},
@@ -23704,75 +23737,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1443, col: 1, offset: 46481},
+			pos:  position{line: 1450, col: 1, offset: 46724},
 			expr: &choiceExpr{
-				pos: position{line: 1446, col: 5, offset: 46643},
+				pos: position{line: 1453, col: 5, offset: 46886},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1446, col: 5, offset: 46643},
+						pos: position{line: 1453, col: 5, offset: 46886},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1446, col: 5, offset: 46643},
+							pos: position{line: 1453, col: 5, offset: 46886},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1446, col: 5, offset: 46643},
+									pos:        position{line: 1453, col: 5, offset: 46886},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1446, col: 9, offset: 46647},
+									pos:   position{line: 1453, col: 9, offset: 46890},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2830, col: 23, offset: 89704},
+										pos: position{line: 2845, col: 23, offset: 90172},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2830, col: 23, offset: 89704},
+											pos: position{line: 2845, col: 23, offset: 90172},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2830, col: 23, offset: 89704},
+													pos: position{line: 2845, col: 23, offset: 90172},
 													expr: &litMatcher{
-														pos:        position{line: 2830, col: 24, offset: 89705},
+														pos:        position{line: 2845, col: 24, offset: 90173},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2830, col: 28, offset: 89709},
+													pos:   position{line: 2845, col: 28, offset: 90177},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2834, col: 11, offset: 89823},
+														pos: position{line: 2849, col: 11, offset: 90291},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2834, col: 12, offset: 89824},
+															pos: position{line: 2849, col: 12, offset: 90292},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2834, col: 12, offset: 89824},
+																	pos:        position{line: 2849, col: 12, offset: 90292},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2834, col: 24, offset: 89836},
+																	pos:        position{line: 2849, col: 24, offset: 90304},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2834, col: 37, offset: 89849},
+																	pos:        position{line: 2849, col: 37, offset: 90317},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2834, col: 48, offset: 89860},
+																	pos:        position{line: 2849, col: 48, offset: 90328},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2834, col: 59, offset: 89871},
+																	pos:        position{line: 2849, col: 59, offset: 90339},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23782,38 +23815,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2830, col: 44, offset: 89725},
+													pos:   position{line: 2845, col: 44, offset: 90193},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2839, col: 5, offset: 89935},
+														pos: position{line: 2854, col: 5, offset: 90403},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2839, col: 5, offset: 89935},
+															pos:   position{line: 2854, col: 5, offset: 90403},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2839, col: 14, offset: 89944},
+																pos: position{line: 2854, col: 14, offset: 90412},
 																expr: &choiceExpr{
-																	pos: position{line: 2840, col: 9, offset: 89954},
+																	pos: position{line: 2855, col: 9, offset: 90422},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2840, col: 9, offset: 89954},
+																			pos: position{line: 2855, col: 9, offset: 90422},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2840, col: 9, offset: 89954},
+																				pos: position{line: 2855, col: 9, offset: 90422},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2840, col: 9, offset: 89954},
+																						pos: position{line: 2855, col: 9, offset: 90422},
 																						expr: &litMatcher{
-																							pos:        position{line: 2840, col: 10, offset: 89955},
+																							pos:        position{line: 2855, col: 10, offset: 90423},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2841, col: 9, offset: 89983},
+																						pos: position{line: 2856, col: 9, offset: 90451},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2841, col: 10, offset: 89984},
+																							pos:        position{line: 2856, col: 10, offset: 90452},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23824,27 +23857,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2844, col: 11, offset: 90196},
+																			pos: position{line: 2859, col: 11, offset: 90664},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2844, col: 11, offset: 90196},
+																					pos:        position{line: 2859, col: 11, offset: 90664},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2844, col: 19, offset: 90204},
+																					pos: position{line: 2859, col: 19, offset: 90672},
 																					expr: &seqExpr{
-																						pos: position{line: 2844, col: 21, offset: 90206},
+																						pos: position{line: 2859, col: 21, offset: 90674},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2844, col: 21, offset: 90206},
+																								pos: position{line: 2859, col: 21, offset: 90674},
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 10, offset: 90818},
+																									pos: position{line: 2883, col: 10, offset: 91286},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 10, offset: 90818},
+																										pos:        position{line: 2883, col: 10, offset: 91286},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23853,11 +23886,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2844, col: 28, offset: 90213},
+																								pos: position{line: 2859, col: 28, offset: 90681},
 																								expr: &notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -23867,35 +23900,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 639, col: 5, offset: 20212},
+																			pos: position{line: 646, col: 5, offset: 20455},
 																			run: (*parser).callonExternalLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 639, col: 5, offset: 20212},
+																				pos: position{line: 646, col: 5, offset: 20455},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 639, col: 5, offset: 20212},
+																						pos: position{line: 646, col: 5, offset: 20455},
 																						run: (*parser).callonExternalLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 642, col: 5, offset: 20284},
+																						pos:   position{line: 649, col: 5, offset: 20527},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 642, col: 14, offset: 20293},
+																							pos: position{line: 649, col: 14, offset: 20536},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 648, col: 5, offset: 20422},
+																									pos: position{line: 655, col: 5, offset: 20665},
 																									run: (*parser).callonExternalLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 648, col: 5, offset: 20422},
+																										pos: position{line: 655, col: 5, offset: 20665},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 648, col: 5, offset: 20422},
+																												pos:        position{line: 655, col: 5, offset: 20665},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 648, col: 13, offset: 20430},
+																												pos:   position{line: 655, col: 13, offset: 20673},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23927,7 +23960,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 648, col: 32, offset: 20449},
+																												pos:        position{line: 655, col: 32, offset: 20692},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23936,19 +23969,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 655, col: 5, offset: 20690},
+																									pos: position{line: 662, col: 5, offset: 20933},
 																									run: (*parser).callonExternalLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 655, col: 5, offset: 20690},
+																										pos: position{line: 662, col: 5, offset: 20933},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 655, col: 5, offset: 20690},
+																												pos:        position{line: 662, col: 5, offset: 20933},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 655, col: 9, offset: 20694},
+																												pos:   position{line: 662, col: 9, offset: 20937},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23980,7 +24013,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 655, col: 28, offset: 20713},
+																												pos:        position{line: 662, col: 28, offset: 20956},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23989,19 +24022,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 661, col: 25, offset: 20894},
+																									pos: position{line: 668, col: 25, offset: 21137},
 																									run: (*parser).callonExternalLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 661, col: 25, offset: 20894},
+																										pos: position{line: 668, col: 25, offset: 21137},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 661, col: 25, offset: 20894},
+																												pos:        position{line: 668, col: 25, offset: 21137},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 37, offset: 20906},
+																												pos:   position{line: 668, col: 37, offset: 21149},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24033,33 +24066,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 56, offset: 20925},
+																												pos:   position{line: 668, col: 56, offset: 21168},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 661, col: 62, offset: 20931},
+																													pos: position{line: 668, col: 62, offset: 21174},
 																													expr: &actionExpr{
-																														pos: position{line: 669, col: 17, offset: 21226},
+																														pos: position{line: 676, col: 17, offset: 21469},
 																														run: (*parser).callonExternalLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 669, col: 17, offset: 21226},
+																															pos: position{line: 676, col: 17, offset: 21469},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 669, col: 17, offset: 21226},
+																																	pos:        position{line: 676, col: 17, offset: 21469},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 669, col: 21, offset: 21230},
+																																	pos:   position{line: 676, col: 21, offset: 21473},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 669, col: 28, offset: 21237},
+																																		pos: position{line: 676, col: 28, offset: 21480},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 28, offset: 21237},
+																																				pos: position{line: 676, col: 28, offset: 21480},
 																																				run: (*parser).callonExternalLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 669, col: 28, offset: 21237},
+																																					pos:        position{line: 676, col: 28, offset: 21480},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24067,12 +24100,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 671, col: 9, offset: 21291},
+																																				pos: position{line: 678, col: 9, offset: 21534},
 																																				run: (*parser).callonExternalLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 671, col: 9, offset: 21291},
+																																					pos: position{line: 678, col: 9, offset: 21534},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 671, col: 9, offset: 21291},
+																																						pos:        position{line: 678, col: 9, offset: 21534},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24089,7 +24122,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 661, col: 78, offset: 20947},
+																												pos:        position{line: 668, col: 78, offset: 21190},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24098,19 +24131,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 25, offset: 21065},
+																									pos: position{line: 672, col: 25, offset: 21308},
 																									run: (*parser).callonExternalLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 25, offset: 21065},
+																										pos: position{line: 672, col: 25, offset: 21308},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 25, offset: 21065},
+																												pos:        position{line: 672, col: 25, offset: 21308},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 38, offset: 21078},
+																												pos:   position{line: 672, col: 38, offset: 21321},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24142,33 +24175,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 57, offset: 21097},
+																												pos:   position{line: 672, col: 57, offset: 21340},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 665, col: 63, offset: 21103},
+																													pos: position{line: 672, col: 63, offset: 21346},
 																													expr: &actionExpr{
-																														pos: position{line: 669, col: 17, offset: 21226},
+																														pos: position{line: 676, col: 17, offset: 21469},
 																														run: (*parser).callonExternalLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 669, col: 17, offset: 21226},
+																															pos: position{line: 676, col: 17, offset: 21469},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 669, col: 17, offset: 21226},
+																																	pos:        position{line: 676, col: 17, offset: 21469},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 669, col: 21, offset: 21230},
+																																	pos:   position{line: 676, col: 21, offset: 21473},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 669, col: 28, offset: 21237},
+																																		pos: position{line: 676, col: 28, offset: 21480},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 28, offset: 21237},
+																																				pos: position{line: 676, col: 28, offset: 21480},
 																																				run: (*parser).callonExternalLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 669, col: 28, offset: 21237},
+																																					pos:        position{line: 676, col: 28, offset: 21480},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24176,12 +24209,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 671, col: 9, offset: 21291},
+																																				pos: position{line: 678, col: 9, offset: 21534},
 																																				run: (*parser).callonExternalLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 671, col: 9, offset: 21291},
+																																					pos: position{line: 678, col: 9, offset: 21534},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 671, col: 9, offset: 21291},
+																																						pos:        position{line: 678, col: 9, offset: 21534},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24198,7 +24231,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 79, offset: 21119},
+																												pos:        position{line: 672, col: 79, offset: 21362},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24213,27 +24246,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1213, col: 23, offset: 37477},
+																			pos: position{line: 1220, col: 23, offset: 37720},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1213, col: 23, offset: 37477},
+																				pos: position{line: 1220, col: 23, offset: 37720},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1211, col: 32, offset: 37445},
+																						pos:        position{line: 1218, col: 32, offset: 37688},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1213, col: 51, offset: 37505},
+																						pos:   position{line: 1220, col: 51, offset: 37748},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1213, col: 56, offset: 37510},
+																							pos: position{line: 1220, col: 56, offset: 37753},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1213, col: 56, offset: 37510},
+																								pos: position{line: 1220, col: 56, offset: 37753},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1213, col: 56, offset: 37510},
+																									pos:        position{line: 1220, col: 56, offset: 37753},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24243,7 +24276,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1211, col: 32, offset: 37445},
+																						pos:        position{line: 1218, col: 32, offset: 37688},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24252,10 +24285,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2847, col: 11, offset: 90333},
+																			pos: position{line: 2862, col: 11, offset: 90801},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2847, col: 11, offset: 90333},
+																				pos:        position{line: 2862, col: 11, offset: 90801},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24272,12 +24305,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1446, col: 34, offset: 46672},
+									pos:   position{line: 1453, col: 34, offset: 46915},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1446, col: 45, offset: 46683},
+										pos: position{line: 1453, col: 45, offset: 46926},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1446, col: 46, offset: 46684},
+											pos:  position{line: 1453, col: 46, offset: 46927},
 											name: "InlineAttributes",
 										},
 									},
@@ -24286,64 +24319,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1451, col: 5, offset: 46817},
+						pos: position{line: 1458, col: 5, offset: 47060},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1451, col: 5, offset: 46817},
+							pos: position{line: 1458, col: 5, offset: 47060},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1451, col: 5, offset: 46817},
+									pos:   position{line: 1458, col: 5, offset: 47060},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2830, col: 23, offset: 89704},
+										pos: position{line: 2845, col: 23, offset: 90172},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2830, col: 23, offset: 89704},
+											pos: position{line: 2845, col: 23, offset: 90172},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2830, col: 23, offset: 89704},
+													pos: position{line: 2845, col: 23, offset: 90172},
 													expr: &litMatcher{
-														pos:        position{line: 2830, col: 24, offset: 89705},
+														pos:        position{line: 2845, col: 24, offset: 90173},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2830, col: 28, offset: 89709},
+													pos:   position{line: 2845, col: 28, offset: 90177},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2834, col: 11, offset: 89823},
+														pos: position{line: 2849, col: 11, offset: 90291},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2834, col: 12, offset: 89824},
+															pos: position{line: 2849, col: 12, offset: 90292},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2834, col: 12, offset: 89824},
+																	pos:        position{line: 2849, col: 12, offset: 90292},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2834, col: 24, offset: 89836},
+																	pos:        position{line: 2849, col: 24, offset: 90304},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2834, col: 37, offset: 89849},
+																	pos:        position{line: 2849, col: 37, offset: 90317},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2834, col: 48, offset: 89860},
+																	pos:        position{line: 2849, col: 48, offset: 90328},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2834, col: 59, offset: 89871},
+																	pos:        position{line: 2849, col: 59, offset: 90339},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24353,38 +24386,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2830, col: 44, offset: 89725},
+													pos:   position{line: 2845, col: 44, offset: 90193},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2839, col: 5, offset: 89935},
+														pos: position{line: 2854, col: 5, offset: 90403},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2839, col: 5, offset: 89935},
+															pos:   position{line: 2854, col: 5, offset: 90403},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2839, col: 14, offset: 89944},
+																pos: position{line: 2854, col: 14, offset: 90412},
 																expr: &choiceExpr{
-																	pos: position{line: 2840, col: 9, offset: 89954},
+																	pos: position{line: 2855, col: 9, offset: 90422},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2840, col: 9, offset: 89954},
+																			pos: position{line: 2855, col: 9, offset: 90422},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2840, col: 9, offset: 89954},
+																				pos: position{line: 2855, col: 9, offset: 90422},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2840, col: 9, offset: 89954},
+																						pos: position{line: 2855, col: 9, offset: 90422},
 																						expr: &litMatcher{
-																							pos:        position{line: 2840, col: 10, offset: 89955},
+																							pos:        position{line: 2855, col: 10, offset: 90423},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2841, col: 9, offset: 89983},
+																						pos: position{line: 2856, col: 9, offset: 90451},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2841, col: 10, offset: 89984},
+																							pos:        position{line: 2856, col: 10, offset: 90452},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24395,27 +24428,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2844, col: 11, offset: 90196},
+																			pos: position{line: 2859, col: 11, offset: 90664},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2844, col: 11, offset: 90196},
+																					pos:        position{line: 2859, col: 11, offset: 90664},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2844, col: 19, offset: 90204},
+																					pos: position{line: 2859, col: 19, offset: 90672},
 																					expr: &seqExpr{
-																						pos: position{line: 2844, col: 21, offset: 90206},
+																						pos: position{line: 2859, col: 21, offset: 90674},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2844, col: 21, offset: 90206},
+																								pos: position{line: 2859, col: 21, offset: 90674},
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 10, offset: 90818},
+																									pos: position{line: 2883, col: 10, offset: 91286},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 10, offset: 90818},
+																										pos:        position{line: 2883, col: 10, offset: 91286},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24424,11 +24457,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2844, col: 28, offset: 90213},
+																								pos: position{line: 2859, col: 28, offset: 90681},
 																								expr: &notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -24438,35 +24471,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 639, col: 5, offset: 20212},
+																			pos: position{line: 646, col: 5, offset: 20455},
 																			run: (*parser).callonExternalLink157,
 																			expr: &seqExpr{
-																				pos: position{line: 639, col: 5, offset: 20212},
+																				pos: position{line: 646, col: 5, offset: 20455},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 639, col: 5, offset: 20212},
+																						pos: position{line: 646, col: 5, offset: 20455},
 																						run: (*parser).callonExternalLink159,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 642, col: 5, offset: 20284},
+																						pos:   position{line: 649, col: 5, offset: 20527},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 642, col: 14, offset: 20293},
+																							pos: position{line: 649, col: 14, offset: 20536},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 648, col: 5, offset: 20422},
+																									pos: position{line: 655, col: 5, offset: 20665},
 																									run: (*parser).callonExternalLink162,
 																									expr: &seqExpr{
-																										pos: position{line: 648, col: 5, offset: 20422},
+																										pos: position{line: 655, col: 5, offset: 20665},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 648, col: 5, offset: 20422},
+																												pos:        position{line: 655, col: 5, offset: 20665},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 648, col: 13, offset: 20430},
+																												pos:   position{line: 655, col: 13, offset: 20673},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24498,7 +24531,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 648, col: 32, offset: 20449},
+																												pos:        position{line: 655, col: 32, offset: 20692},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24507,19 +24540,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 655, col: 5, offset: 20690},
+																									pos: position{line: 662, col: 5, offset: 20933},
 																									run: (*parser).callonExternalLink172,
 																									expr: &seqExpr{
-																										pos: position{line: 655, col: 5, offset: 20690},
+																										pos: position{line: 662, col: 5, offset: 20933},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 655, col: 5, offset: 20690},
+																												pos:        position{line: 662, col: 5, offset: 20933},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 655, col: 9, offset: 20694},
+																												pos:   position{line: 662, col: 9, offset: 20937},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24551,7 +24584,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 655, col: 28, offset: 20713},
+																												pos:        position{line: 662, col: 28, offset: 20956},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24560,19 +24593,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 661, col: 25, offset: 20894},
+																									pos: position{line: 668, col: 25, offset: 21137},
 																									run: (*parser).callonExternalLink182,
 																									expr: &seqExpr{
-																										pos: position{line: 661, col: 25, offset: 20894},
+																										pos: position{line: 668, col: 25, offset: 21137},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 661, col: 25, offset: 20894},
+																												pos:        position{line: 668, col: 25, offset: 21137},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 37, offset: 20906},
+																												pos:   position{line: 668, col: 37, offset: 21149},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24604,33 +24637,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 661, col: 56, offset: 20925},
+																												pos:   position{line: 668, col: 56, offset: 21168},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 661, col: 62, offset: 20931},
+																													pos: position{line: 668, col: 62, offset: 21174},
 																													expr: &actionExpr{
-																														pos: position{line: 669, col: 17, offset: 21226},
+																														pos: position{line: 676, col: 17, offset: 21469},
 																														run: (*parser).callonExternalLink193,
 																														expr: &seqExpr{
-																															pos: position{line: 669, col: 17, offset: 21226},
+																															pos: position{line: 676, col: 17, offset: 21469},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 669, col: 17, offset: 21226},
+																																	pos:        position{line: 676, col: 17, offset: 21469},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 669, col: 21, offset: 21230},
+																																	pos:   position{line: 676, col: 21, offset: 21473},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 669, col: 28, offset: 21237},
+																																		pos: position{line: 676, col: 28, offset: 21480},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 28, offset: 21237},
+																																				pos: position{line: 676, col: 28, offset: 21480},
 																																				run: (*parser).callonExternalLink198,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 669, col: 28, offset: 21237},
+																																					pos:        position{line: 676, col: 28, offset: 21480},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24638,12 +24671,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 671, col: 9, offset: 21291},
+																																				pos: position{line: 678, col: 9, offset: 21534},
 																																				run: (*parser).callonExternalLink200,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 671, col: 9, offset: 21291},
+																																					pos: position{line: 678, col: 9, offset: 21534},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 671, col: 9, offset: 21291},
+																																						pos:        position{line: 678, col: 9, offset: 21534},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24660,7 +24693,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 661, col: 78, offset: 20947},
+																												pos:        position{line: 668, col: 78, offset: 21190},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24669,19 +24702,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 665, col: 25, offset: 21065},
+																									pos: position{line: 672, col: 25, offset: 21308},
 																									run: (*parser).callonExternalLink204,
 																									expr: &seqExpr{
-																										pos: position{line: 665, col: 25, offset: 21065},
+																										pos: position{line: 672, col: 25, offset: 21308},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 665, col: 25, offset: 21065},
+																												pos:        position{line: 672, col: 25, offset: 21308},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 38, offset: 21078},
+																												pos:   position{line: 672, col: 38, offset: 21321},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24713,33 +24746,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 665, col: 57, offset: 21097},
+																												pos:   position{line: 672, col: 57, offset: 21340},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 665, col: 63, offset: 21103},
+																													pos: position{line: 672, col: 63, offset: 21346},
 																													expr: &actionExpr{
-																														pos: position{line: 669, col: 17, offset: 21226},
+																														pos: position{line: 676, col: 17, offset: 21469},
 																														run: (*parser).callonExternalLink215,
 																														expr: &seqExpr{
-																															pos: position{line: 669, col: 17, offset: 21226},
+																															pos: position{line: 676, col: 17, offset: 21469},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 669, col: 17, offset: 21226},
+																																	pos:        position{line: 676, col: 17, offset: 21469},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 669, col: 21, offset: 21230},
+																																	pos:   position{line: 676, col: 21, offset: 21473},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 669, col: 28, offset: 21237},
+																																		pos: position{line: 676, col: 28, offset: 21480},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 669, col: 28, offset: 21237},
+																																				pos: position{line: 676, col: 28, offset: 21480},
 																																				run: (*parser).callonExternalLink220,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 669, col: 28, offset: 21237},
+																																					pos:        position{line: 676, col: 28, offset: 21480},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24747,12 +24780,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 671, col: 9, offset: 21291},
+																																				pos: position{line: 678, col: 9, offset: 21534},
 																																				run: (*parser).callonExternalLink222,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 671, col: 9, offset: 21291},
+																																					pos: position{line: 678, col: 9, offset: 21534},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 671, col: 9, offset: 21291},
+																																						pos:        position{line: 678, col: 9, offset: 21534},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24769,7 +24802,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 665, col: 79, offset: 21119},
+																												pos:        position{line: 672, col: 79, offset: 21362},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24784,27 +24817,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1213, col: 23, offset: 37477},
+																			pos: position{line: 1220, col: 23, offset: 37720},
 																			run: (*parser).callonExternalLink226,
 																			expr: &seqExpr{
-																				pos: position{line: 1213, col: 23, offset: 37477},
+																				pos: position{line: 1220, col: 23, offset: 37720},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1211, col: 32, offset: 37445},
+																						pos:        position{line: 1218, col: 32, offset: 37688},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1213, col: 51, offset: 37505},
+																						pos:   position{line: 1220, col: 51, offset: 37748},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1213, col: 56, offset: 37510},
+																							pos: position{line: 1220, col: 56, offset: 37753},
 																							run: (*parser).callonExternalLink230,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1213, col: 56, offset: 37510},
+																								pos: position{line: 1220, col: 56, offset: 37753},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1213, col: 56, offset: 37510},
+																									pos:        position{line: 1220, col: 56, offset: 37753},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24814,7 +24847,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1211, col: 32, offset: 37445},
+																						pos:        position{line: 1218, col: 32, offset: 37688},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24823,10 +24856,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2847, col: 11, offset: 90333},
+																			pos: position{line: 2862, col: 11, offset: 90801},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2847, col: 11, offset: 90333},
+																				pos:        position{line: 2862, col: 11, offset: 90801},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24843,12 +24876,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1451, col: 30, offset: 46842},
+									pos:   position{line: 1458, col: 30, offset: 47085},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1451, col: 41, offset: 46853},
+										pos: position{line: 1458, col: 41, offset: 47096},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1451, col: 42, offset: 46854},
+											pos:  position{line: 1458, col: 42, offset: 47097},
 											name: "InlineAttributes",
 										},
 									},
@@ -24861,41 +24894,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1485, col: 1, offset: 47995},
+			pos:  position{line: 1492, col: 1, offset: 48238},
 			expr: &actionExpr{
-				pos: position{line: 1486, col: 5, offset: 48016},
+				pos: position{line: 1493, col: 5, offset: 48259},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1486, col: 5, offset: 48016},
+					pos: position{line: 1493, col: 5, offset: 48259},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1486, col: 5, offset: 48016},
+							pos:   position{line: 1493, col: 5, offset: 48259},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1492, col: 5, offset: 48218},
+								pos: position{line: 1499, col: 5, offset: 48461},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1585, col: 5, offset: 51152},
+										pos: position{line: 1592, col: 5, offset: 51395},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1585, col: 5, offset: 51152},
+											pos: position{line: 1592, col: 5, offset: 51395},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1585, col: 5, offset: 51152},
+													pos:   position{line: 1592, col: 5, offset: 51395},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1592, col: 5, offset: 51360},
+														pos: position{line: 1599, col: 5, offset: 51603},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1592, col: 5, offset: 51360},
+															pos: position{line: 1599, col: 5, offset: 51603},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1592, col: 5, offset: 51360},
+																	pos: position{line: 1599, col: 5, offset: 51603},
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 10, offset: 90818},
+																		pos: position{line: 2883, col: 10, offset: 91286},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90818},
+																			pos:        position{line: 2883, col: 10, offset: 91286},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -24904,27 +24937,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1592, col: 12, offset: 51367},
+																	pos:   position{line: 1599, col: 12, offset: 51610},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1594, col: 9, offset: 51430},
+																		pos: position{line: 1601, col: 9, offset: 51673},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1594, col: 9, offset: 51430},
+																				pos: position{line: 1601, col: 9, offset: 51673},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1594, col: 9, offset: 51430},
+																					pos: position{line: 1601, col: 9, offset: 51673},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1594, col: 9, offset: 51430},
+																							pos:   position{line: 1601, col: 9, offset: 51673},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1594, col: 16, offset: 51437},
+																								pos: position{line: 1601, col: 16, offset: 51680},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1594, col: 16, offset: 51437},
+																									pos: position{line: 1601, col: 16, offset: 51680},
 																									expr: &litMatcher{
-																										pos:        position{line: 1594, col: 17, offset: 51438},
+																										pos:        position{line: 1601, col: 17, offset: 51681},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -24933,22 +24966,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1598, col: 9, offset: 51538},
+																							pos: position{line: 1605, col: 9, offset: 51781},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1617, col: 11, offset: 52255},
+																				pos: position{line: 1624, col: 11, offset: 52498},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 11, offset: 52255},
+																					pos: position{line: 1624, col: 11, offset: 52498},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1617, col: 11, offset: 52255},
+																							pos: position{line: 1624, col: 11, offset: 52498},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1617, col: 12, offset: 52256},
+																								pos:        position{line: 1624, col: 12, offset: 52499},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -24956,7 +24989,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1617, col: 20, offset: 52264},
+																							pos:        position{line: 1624, col: 20, offset: 52507},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24965,20 +24998,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1619, col: 13, offset: 52381},
+																				pos: position{line: 1626, col: 13, offset: 52624},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1619, col: 13, offset: 52381},
+																					pos: position{line: 1626, col: 13, offset: 52624},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1619, col: 14, offset: 52382},
+																							pos:        position{line: 1626, col: 14, offset: 52625},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1619, col: 21, offset: 52389},
+																							pos:        position{line: 1626, col: 21, offset: 52632},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -24987,20 +25020,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 13, offset: 52509},
+																				pos: position{line: 1628, col: 13, offset: 52752},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 13, offset: 52509},
+																					pos: position{line: 1628, col: 13, offset: 52752},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1621, col: 14, offset: 52510},
+																							pos:        position{line: 1628, col: 14, offset: 52753},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 21, offset: 52517},
+																							pos:        position{line: 1628, col: 21, offset: 52760},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25009,15 +25042,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1623, col: 13, offset: 52637},
+																				pos: position{line: 1630, col: 13, offset: 52880},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1623, col: 13, offset: 52637},
+																					pos: position{line: 1630, col: 13, offset: 52880},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1623, col: 13, offset: 52637},
+																							pos: position{line: 1630, col: 13, offset: 52880},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1623, col: 14, offset: 52638},
+																								pos:        position{line: 1630, col: 14, offset: 52881},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -25025,7 +25058,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1623, col: 26, offset: 52650},
+																							pos:        position{line: 1630, col: 26, offset: 52893},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25034,15 +25067,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1625, col: 13, offset: 52770},
+																				pos: position{line: 1632, col: 13, offset: 53013},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1625, col: 13, offset: 52770},
+																					pos: position{line: 1632, col: 13, offset: 53013},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1625, col: 13, offset: 52770},
+																							pos: position{line: 1632, col: 13, offset: 53013},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1625, col: 14, offset: 52771},
+																								pos:        position{line: 1632, col: 14, offset: 53014},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -25050,7 +25083,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1625, col: 26, offset: 52783},
+																							pos:        position{line: 1632, col: 26, offset: 53026},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25062,12 +25095,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2872, col: 11, offset: 90879},
+																	pos: position{line: 2887, col: 11, offset: 91347},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2872, col: 11, offset: 90879},
+																		pos: position{line: 2887, col: 11, offset: 91347},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 11, offset: 90879},
+																			pos:        position{line: 2887, col: 11, offset: 91347},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25080,26 +25113,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1586, col: 5, offset: 51191},
+													pos:   position{line: 1593, col: 5, offset: 51434},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1533, col: 5, offset: 49658},
+														pos: position{line: 1540, col: 5, offset: 49901},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1533, col: 5, offset: 49658},
+															pos: position{line: 1540, col: 5, offset: 49901},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1533, col: 5, offset: 49658},
+																	pos:   position{line: 1540, col: 5, offset: 49901},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1533, col: 14, offset: 49667},
+																		pos: position{line: 1540, col: 14, offset: 49910},
 																		expr: &actionExpr{
-																			pos: position{line: 1533, col: 15, offset: 49668},
+																			pos: position{line: 1540, col: 15, offset: 49911},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1533, col: 15, offset: 49668},
+																				pos: position{line: 1540, col: 15, offset: 49911},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1533, col: 15, offset: 49668},
+																					pos:        position{line: 1540, col: 15, offset: 49911},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25110,28 +25143,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25140,9 +25173,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -25155,27 +25188,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1635, col: 5, offset: 53049},
+										pos: position{line: 1642, col: 5, offset: 53292},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1635, col: 5, offset: 53049},
+											pos: position{line: 1642, col: 5, offset: 53292},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1635, col: 5, offset: 53049},
+													pos:   position{line: 1642, col: 5, offset: 53292},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1642, col: 5, offset: 53322},
+														pos: position{line: 1649, col: 5, offset: 53565},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1642, col: 5, offset: 53322},
+															pos: position{line: 1649, col: 5, offset: 53565},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1642, col: 5, offset: 53322},
+																	pos: position{line: 1649, col: 5, offset: 53565},
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 10, offset: 90818},
+																		pos: position{line: 2883, col: 10, offset: 91286},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90818},
+																			pos:        position{line: 2883, col: 10, offset: 91286},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25184,24 +25217,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1643, col: 5, offset: 53334},
+																	pos:   position{line: 1650, col: 5, offset: 53577},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1644, col: 9, offset: 53350},
+																		pos: position{line: 1651, col: 9, offset: 53593},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1644, col: 10, offset: 53351},
+																			pos: position{line: 1651, col: 10, offset: 53594},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1644, col: 11, offset: 53352},
+																					pos:        position{line: 1651, col: 11, offset: 53595},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1644, col: 18, offset: 53359},
+																					pos: position{line: 1651, col: 18, offset: 53602},
 																					expr: &litMatcher{
-																						pos:        position{line: 1644, col: 19, offset: 53360},
+																						pos:        position{line: 1651, col: 19, offset: 53603},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -25212,16 +25245,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1647, col: 7, offset: 53450},
+																	pos: position{line: 1654, col: 7, offset: 53693},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2872, col: 11, offset: 90879},
+																	pos: position{line: 2887, col: 11, offset: 91347},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2872, col: 11, offset: 90879},
+																		pos: position{line: 2887, col: 11, offset: 91347},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 11, offset: 90879},
+																			pos:        position{line: 2887, col: 11, offset: 91347},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25234,56 +25267,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1636, col: 5, offset: 53090},
+													pos:   position{line: 1643, col: 5, offset: 53333},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1636, col: 16, offset: 53101},
+														pos: position{line: 1643, col: 16, offset: 53344},
 														expr: &actionExpr{
-															pos: position{line: 1657, col: 5, offset: 53715},
+															pos: position{line: 1664, col: 5, offset: 53958},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1657, col: 5, offset: 53715},
+																pos: position{line: 1664, col: 5, offset: 53958},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1657, col: 5, offset: 53715},
+																		pos: position{line: 1664, col: 5, offset: 53958},
 																		expr: &litMatcher{
-																			pos:        position{line: 1657, col: 6, offset: 53716},
+																			pos:        position{line: 1664, col: 6, offset: 53959},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1657, col: 10, offset: 53720},
+																		pos:   position{line: 1664, col: 10, offset: 53963},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1658, col: 7, offset: 53734},
+																			pos: position{line: 1665, col: 7, offset: 53977},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1658, col: 7, offset: 53734},
+																					pos: position{line: 1665, col: 7, offset: 53977},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1658, col: 7, offset: 53734},
+																						pos:        position{line: 1665, col: 7, offset: 53977},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1659, col: 7, offset: 53779},
+																					pos: position{line: 1666, col: 7, offset: 54022},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1659, col: 7, offset: 53779},
+																						pos:        position{line: 1666, col: 7, offset: 54022},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1660, col: 7, offset: 53822},
+																					pos: position{line: 1667, col: 7, offset: 54065},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1660, col: 7, offset: 53822},
+																						pos:        position{line: 1667, col: 7, offset: 54065},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -25293,12 +25326,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2872, col: 11, offset: 90879},
+																		pos: position{line: 2887, col: 11, offset: 91347},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2872, col: 11, offset: 90879},
+																			pos: position{line: 2887, col: 11, offset: 91347},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 11, offset: 90879},
+																				pos:        position{line: 2887, col: 11, offset: 91347},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25312,26 +25345,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1637, col: 5, offset: 53140},
+													pos:   position{line: 1644, col: 5, offset: 53383},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1533, col: 5, offset: 49658},
+														pos: position{line: 1540, col: 5, offset: 49901},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1533, col: 5, offset: 49658},
+															pos: position{line: 1540, col: 5, offset: 49901},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1533, col: 5, offset: 49658},
+																	pos:   position{line: 1540, col: 5, offset: 49901},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1533, col: 14, offset: 49667},
+																		pos: position{line: 1540, col: 14, offset: 49910},
 																		expr: &actionExpr{
-																			pos: position{line: 1533, col: 15, offset: 49668},
+																			pos: position{line: 1540, col: 15, offset: 49911},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1533, col: 15, offset: 49668},
+																				pos: position{line: 1540, col: 15, offset: 49911},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1533, col: 15, offset: 49668},
+																					pos:        position{line: 1540, col: 15, offset: 49911},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25342,28 +25375,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25372,9 +25405,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -25387,36 +25420,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1726, col: 5, offset: 55694},
+										pos: position{line: 1733, col: 5, offset: 55937},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1726, col: 5, offset: 55694},
+											pos: position{line: 1733, col: 5, offset: 55937},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1726, col: 5, offset: 55694},
+													pos:   position{line: 1733, col: 5, offset: 55937},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1732, col: 5, offset: 55891},
+														pos: position{line: 1739, col: 5, offset: 56134},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1732, col: 5, offset: 55891},
+															pos: position{line: 1739, col: 5, offset: 56134},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1732, col: 5, offset: 55891},
+																	pos:        position{line: 1739, col: 5, offset: 56134},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1732, col: 9, offset: 55895},
+																	pos:   position{line: 1739, col: 9, offset: 56138},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1732, col: 14, offset: 55900},
+																		pos: position{line: 1739, col: 14, offset: 56143},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1732, col: 14, offset: 55900},
+																			pos: position{line: 1739, col: 14, offset: 56143},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1732, col: 14, offset: 55900},
+																				pos:        position{line: 1739, col: 14, offset: 56143},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25426,18 +25459,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1732, col: 62, offset: 55948},
+																	pos:        position{line: 1739, col: 62, offset: 56191},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2872, col: 11, offset: 90879},
+																	pos: position{line: 2887, col: 11, offset: 91347},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2872, col: 11, offset: 90879},
+																		pos: position{line: 2887, col: 11, offset: 91347},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 11, offset: 90879},
+																			pos:        position{line: 2887, col: 11, offset: 91347},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25450,26 +25483,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1727, col: 5, offset: 55730},
+													pos:   position{line: 1734, col: 5, offset: 55973},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1533, col: 5, offset: 49658},
+														pos: position{line: 1540, col: 5, offset: 49901},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1533, col: 5, offset: 49658},
+															pos: position{line: 1540, col: 5, offset: 49901},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1533, col: 5, offset: 49658},
+																	pos:   position{line: 1540, col: 5, offset: 49901},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1533, col: 14, offset: 49667},
+																		pos: position{line: 1540, col: 14, offset: 49910},
 																		expr: &actionExpr{
-																			pos: position{line: 1533, col: 15, offset: 49668},
+																			pos: position{line: 1540, col: 15, offset: 49911},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1533, col: 15, offset: 49668},
+																				pos: position{line: 1540, col: 15, offset: 49911},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1533, col: 15, offset: 49668},
+																					pos:        position{line: 1540, col: 15, offset: 49911},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25480,28 +25513,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25510,9 +25543,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -25525,35 +25558,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1669, col: 5, offset: 54015},
+										pos: position{line: 1676, col: 5, offset: 54258},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1669, col: 5, offset: 54015},
+											pos: position{line: 1676, col: 5, offset: 54258},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1669, col: 5, offset: 54015},
+													pos:   position{line: 1676, col: 5, offset: 54258},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1677, col: 5, offset: 54341},
+														pos: position{line: 1684, col: 5, offset: 54584},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1677, col: 5, offset: 54341},
+															pos: position{line: 1684, col: 5, offset: 54584},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1677, col: 5, offset: 54341},
+																	pos: position{line: 1684, col: 5, offset: 54584},
 																	expr: &seqExpr{
-																		pos: position{line: 2483, col: 31, offset: 79982},
+																		pos: position{line: 2498, col: 31, offset: 80450},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2483, col: 31, offset: 79982},
+																				pos:        position{line: 2498, col: 31, offset: 80450},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2483, col: 36, offset: 79987},
+																				pos: position{line: 2498, col: 36, offset: 80455},
 																				expr: &litMatcher{
-																					pos:        position{line: 2483, col: 37, offset: 79988},
+																					pos:        position{line: 2498, col: 37, offset: 80456},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -25563,28 +25596,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1678, col: 5, offset: 54373},
+																	pos: position{line: 1685, col: 5, offset: 54616},
 																	expr: &seqExpr{
-																		pos: position{line: 1678, col: 6, offset: 54374},
+																		pos: position{line: 1685, col: 6, offset: 54617},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1678, col: 6, offset: 54374},
+																				pos: position{line: 1685, col: 6, offset: 54617},
 																				expr: &actionExpr{
-																					pos: position{line: 1683, col: 5, offset: 54524},
+																					pos: position{line: 1690, col: 5, offset: 54767},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1683, col: 5, offset: 54524},
+																						pos: position{line: 1690, col: 5, offset: 54767},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1683, col: 5, offset: 54524},
+																								pos:   position{line: 1690, col: 5, offset: 54767},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1683, col: 16, offset: 54535},
+																									pos: position{line: 1690, col: 16, offset: 54778},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1683, col: 16, offset: 54535},
+																										pos: position{line: 1690, col: 16, offset: 54778},
 																										expr: &litMatcher{
-																											pos:        position{line: 1683, col: 17, offset: 54536},
+																											pos:        position{line: 1690, col: 17, offset: 54779},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -25593,7 +25626,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1686, col: 5, offset: 54593},
+																								pos: position{line: 1693, col: 5, offset: 54836},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -25601,30 +25634,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1678, col: 35, offset: 54403},
+																				pos: position{line: 1685, col: 35, offset: 54646},
 																				expr: &choiceExpr{
-																					pos: position{line: 2890, col: 8, offset: 91216},
+																					pos: position{line: 2905, col: 8, offset: 91684},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2877, col: 12, offset: 90989},
+																							pos: position{line: 2892, col: 12, offset: 91457},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2877, col: 13, offset: 90990},
+																								pos: position{line: 2892, col: 13, offset: 91458},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 13, offset: 90990},
+																										pos:        position{line: 2892, col: 13, offset: 91458},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 20, offset: 90997},
+																										pos:        position{line: 2892, col: 20, offset: 91465},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 29, offset: 91006},
+																										pos:        position{line: 2892, col: 29, offset: 91474},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25633,16 +25666,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2887, col: 8, offset: 91166},
+																							pos: position{line: 2902, col: 8, offset: 91634},
 																							expr: &anyMatcher{
-																								line: 2887, col: 9, offset: 91167,
+																								line: 2902, col: 9, offset: 91635,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1678, col: 40, offset: 54408,
+																				line: 1685, col: 40, offset: 54651,
 																			},
 																		},
 																	},
@@ -25652,24 +25685,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1670, col: 5, offset: 54050},
+													pos:   position{line: 1677, col: 5, offset: 54293},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1683, col: 5, offset: 54524},
+														pos: position{line: 1690, col: 5, offset: 54767},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1683, col: 5, offset: 54524},
+															pos: position{line: 1690, col: 5, offset: 54767},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1683, col: 5, offset: 54524},
+																	pos:   position{line: 1690, col: 5, offset: 54767},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1683, col: 16, offset: 54535},
+																		pos: position{line: 1690, col: 16, offset: 54778},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1683, col: 16, offset: 54535},
+																			pos: position{line: 1690, col: 16, offset: 54778},
 																			expr: &litMatcher{
-																				pos:        position{line: 1683, col: 17, offset: 54536},
+																				pos:        position{line: 1690, col: 17, offset: 54779},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25678,7 +25711,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1686, col: 5, offset: 54593},
+																	pos: position{line: 1693, col: 5, offset: 54836},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -25686,24 +25719,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1671, col: 5, offset: 54095},
+													pos:   position{line: 1678, col: 5, offset: 54338},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1694, col: 5, offset: 54842},
+														pos: position{line: 1701, col: 5, offset: 55085},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1696, col: 9, offset: 54908},
+																pos: position{line: 1703, col: 9, offset: 55151},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1696, col: 9, offset: 54908},
+																	pos: position{line: 1703, col: 9, offset: 55151},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1696, col: 9, offset: 54908},
+																			pos: position{line: 1703, col: 9, offset: 55151},
 																			expr: &actionExpr{
-																				pos: position{line: 2868, col: 10, offset: 90818},
+																				pos: position{line: 2883, col: 10, offset: 91286},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 10, offset: 90818},
+																					pos:        position{line: 2883, col: 10, offset: 91286},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25712,28 +25745,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2890, col: 8, offset: 91216},
+																			pos: position{line: 2905, col: 8, offset: 91684},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2877, col: 12, offset: 90989},
+																					pos: position{line: 2892, col: 12, offset: 91457},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2877, col: 13, offset: 90990},
+																						pos: position{line: 2892, col: 13, offset: 91458},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 13, offset: 90990},
+																								pos:        position{line: 2892, col: 13, offset: 91458},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 20, offset: 90997},
+																								pos:        position{line: 2892, col: 20, offset: 91465},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 29, offset: 91006},
+																								pos:        position{line: 2892, col: 29, offset: 91474},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25742,34 +25775,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1697, col: 9, offset: 54927},
+																			pos: position{line: 1704, col: 9, offset: 55170},
 																			expr: &actionExpr{
-																				pos: position{line: 680, col: 14, offset: 21592},
+																				pos: position{line: 687, col: 14, offset: 21835},
 																				run: (*parser).callonListElements199,
 																				expr: &seqExpr{
-																					pos: position{line: 680, col: 14, offset: 21592},
+																					pos: position{line: 687, col: 14, offset: 21835},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2885, col: 11, offset: 91152},
+																							pos: position{line: 2900, col: 11, offset: 91620},
 																							expr: &anyMatcher{
-																								line: 2885, col: 13, offset: 91154,
+																								line: 2900, col: 13, offset: 91622,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 680, col: 21, offset: 21599},
+																							pos: position{line: 687, col: 21, offset: 21842},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25778,28 +25811,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25808,9 +25841,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -25823,18 +25856,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1703, col: 9, offset: 55056},
+																pos: position{line: 1710, col: 9, offset: 55299},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1703, col: 9, offset: 55056},
+																	pos: position{line: 1710, col: 9, offset: 55299},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 11, offset: 90879},
+																			pos: position{line: 2887, col: 11, offset: 91347},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2872, col: 11, offset: 90879},
+																				pos: position{line: 2887, col: 11, offset: 91347},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 11, offset: 90879},
+																					pos:        position{line: 2887, col: 11, offset: 91347},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25843,15 +25876,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1704, col: 9, offset: 55129},
+																			pos:   position{line: 1711, col: 9, offset: 55372},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1704, col: 18, offset: 55138},
+																				pos: position{line: 1711, col: 18, offset: 55381},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1704, col: 18, offset: 55138},
+																					pos: position{line: 1711, col: 18, offset: 55381},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1704, col: 18, offset: 55138},
+																						pos:        position{line: 1711, col: 18, offset: 55381},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -25861,28 +25894,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2890, col: 8, offset: 91216},
+																			pos: position{line: 2905, col: 8, offset: 91684},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2877, col: 12, offset: 90989},
+																					pos: position{line: 2892, col: 12, offset: 91457},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2877, col: 13, offset: 90990},
+																						pos: position{line: 2892, col: 13, offset: 91458},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 13, offset: 90990},
+																								pos:        position{line: 2892, col: 13, offset: 91458},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 20, offset: 90997},
+																								pos:        position{line: 2892, col: 20, offset: 91465},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 29, offset: 91006},
+																								pos:        position{line: 2892, col: 29, offset: 91474},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25891,9 +25924,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
@@ -25911,10 +25944,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1487, col: 5, offset: 48047},
+							pos:   position{line: 1494, col: 5, offset: 48290},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1487, col: 20, offset: 48062},
+								pos:  position{line: 1494, col: 20, offset: 48305},
 								name: "ExtraListElements",
 							},
 						},
@@ -25924,17 +25957,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1497, col: 1, offset: 48317},
+			pos:  position{line: 1504, col: 1, offset: 48560},
 			expr: &actionExpr{
-				pos: position{line: 1497, col: 22, offset: 48338},
+				pos: position{line: 1504, col: 22, offset: 48581},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1497, col: 22, offset: 48338},
+					pos:   position{line: 1504, col: 22, offset: 48581},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1497, col: 31, offset: 48347},
+						pos: position{line: 1504, col: 31, offset: 48590},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1497, col: 32, offset: 48348},
+							pos:  position{line: 1504, col: 32, offset: 48591},
 							name: "ExtraListElement",
 						},
 					},
@@ -25943,52 +25976,52 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1501, col: 1, offset: 48428},
+			pos:  position{line: 1508, col: 1, offset: 48671},
 			expr: &actionExpr{
-				pos: position{line: 1502, col: 5, offset: 48567},
+				pos: position{line: 1509, col: 5, offset: 48810},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1502, col: 5, offset: 48567},
+					pos: position{line: 1509, col: 5, offset: 48810},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2885, col: 11, offset: 91152},
+							pos: position{line: 2900, col: 11, offset: 91620},
 							expr: &anyMatcher{
-								line: 2885, col: 13, offset: 91154,
+								line: 2900, col: 13, offset: 91622,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1503, col: 5, offset: 48579},
+							pos:   position{line: 1510, col: 5, offset: 48822},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1504, col: 9, offset: 48597},
+								pos: position{line: 1511, col: 9, offset: 48840},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1504, col: 13, offset: 48601},
+										pos: position{line: 1511, col: 13, offset: 48844},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1504, col: 13, offset: 48601},
+											pos: position{line: 1511, col: 13, offset: 48844},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1504, col: 13, offset: 48601},
+													pos: position{line: 1511, col: 13, offset: 48844},
 													expr: &actionExpr{
-														pos: position{line: 680, col: 14, offset: 21592},
+														pos: position{line: 687, col: 14, offset: 21835},
 														run: (*parser).callonExtraListElement10,
 														expr: &seqExpr{
-															pos: position{line: 680, col: 14, offset: 21592},
+															pos: position{line: 687, col: 14, offset: 21835},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2885, col: 11, offset: 91152},
+																	pos: position{line: 2900, col: 11, offset: 91620},
 																	expr: &anyMatcher{
-																		line: 2885, col: 13, offset: 91154,
+																		line: 2900, col: 13, offset: 91622,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 680, col: 21, offset: 21599},
+																	pos: position{line: 687, col: 21, offset: 21842},
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 10, offset: 90818},
+																		pos: position{line: 2883, col: 10, offset: 91286},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90818},
+																			pos:        position{line: 2883, col: 10, offset: 91286},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25997,28 +26030,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26027,9 +26060,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -26039,33 +26072,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1505, col: 13, offset: 48625},
+													pos:   position{line: 1512, col: 13, offset: 48868},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1505, col: 22, offset: 48634},
+														pos: position{line: 1512, col: 22, offset: 48877},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1585, col: 5, offset: 51152},
+																pos: position{line: 1592, col: 5, offset: 51395},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1585, col: 5, offset: 51152},
+																	pos: position{line: 1592, col: 5, offset: 51395},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1585, col: 5, offset: 51152},
+																			pos:   position{line: 1592, col: 5, offset: 51395},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1592, col: 5, offset: 51360},
+																				pos: position{line: 1599, col: 5, offset: 51603},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1592, col: 5, offset: 51360},
+																					pos: position{line: 1599, col: 5, offset: 51603},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1592, col: 5, offset: 51360},
+																							pos: position{line: 1599, col: 5, offset: 51603},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26074,27 +26107,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1592, col: 12, offset: 51367},
+																							pos:   position{line: 1599, col: 12, offset: 51610},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1594, col: 9, offset: 51430},
+																								pos: position{line: 1601, col: 9, offset: 51673},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1594, col: 9, offset: 51430},
+																										pos: position{line: 1601, col: 9, offset: 51673},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1594, col: 9, offset: 51430},
+																											pos: position{line: 1601, col: 9, offset: 51673},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1594, col: 9, offset: 51430},
+																													pos:   position{line: 1601, col: 9, offset: 51673},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1594, col: 16, offset: 51437},
+																														pos: position{line: 1601, col: 16, offset: 51680},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1594, col: 16, offset: 51437},
+																															pos: position{line: 1601, col: 16, offset: 51680},
 																															expr: &litMatcher{
-																																pos:        position{line: 1594, col: 17, offset: 51438},
+																																pos:        position{line: 1601, col: 17, offset: 51681},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26103,22 +26136,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1598, col: 9, offset: 51538},
+																													pos: position{line: 1605, col: 9, offset: 51781},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1617, col: 11, offset: 52255},
+																										pos: position{line: 1624, col: 11, offset: 52498},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1617, col: 11, offset: 52255},
+																											pos: position{line: 1624, col: 11, offset: 52498},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1617, col: 11, offset: 52255},
+																													pos: position{line: 1624, col: 11, offset: 52498},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1617, col: 12, offset: 52256},
+																														pos:        position{line: 1624, col: 12, offset: 52499},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26126,7 +26159,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1617, col: 20, offset: 52264},
+																													pos:        position{line: 1624, col: 20, offset: 52507},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26135,20 +26168,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1619, col: 13, offset: 52381},
+																										pos: position{line: 1626, col: 13, offset: 52624},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1619, col: 13, offset: 52381},
+																											pos: position{line: 1626, col: 13, offset: 52624},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1619, col: 14, offset: 52382},
+																													pos:        position{line: 1626, col: 14, offset: 52625},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1619, col: 21, offset: 52389},
+																													pos:        position{line: 1626, col: 21, offset: 52632},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26157,20 +26190,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1621, col: 13, offset: 52509},
+																										pos: position{line: 1628, col: 13, offset: 52752},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1621, col: 13, offset: 52509},
+																											pos: position{line: 1628, col: 13, offset: 52752},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1621, col: 14, offset: 52510},
+																													pos:        position{line: 1628, col: 14, offset: 52753},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1621, col: 21, offset: 52517},
+																													pos:        position{line: 1628, col: 21, offset: 52760},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26179,15 +26212,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1623, col: 13, offset: 52637},
+																										pos: position{line: 1630, col: 13, offset: 52880},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1623, col: 13, offset: 52637},
+																											pos: position{line: 1630, col: 13, offset: 52880},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1623, col: 13, offset: 52637},
+																													pos: position{line: 1630, col: 13, offset: 52880},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1623, col: 14, offset: 52638},
+																														pos:        position{line: 1630, col: 14, offset: 52881},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26195,7 +26228,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1623, col: 26, offset: 52650},
+																													pos:        position{line: 1630, col: 26, offset: 52893},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26204,15 +26237,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1625, col: 13, offset: 52770},
+																										pos: position{line: 1632, col: 13, offset: 53013},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1625, col: 13, offset: 52770},
+																											pos: position{line: 1632, col: 13, offset: 53013},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1625, col: 13, offset: 52770},
+																													pos: position{line: 1632, col: 13, offset: 53013},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1625, col: 14, offset: 52771},
+																														pos:        position{line: 1632, col: 14, offset: 53014},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26220,7 +26253,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1625, col: 26, offset: 52783},
+																													pos:        position{line: 1632, col: 26, offset: 53026},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26232,12 +26265,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2872, col: 11, offset: 90879},
+																							pos: position{line: 2887, col: 11, offset: 91347},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2872, col: 11, offset: 90879},
+																								pos: position{line: 2887, col: 11, offset: 91347},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 11, offset: 90879},
+																									pos:        position{line: 2887, col: 11, offset: 91347},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26250,26 +26283,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1586, col: 5, offset: 51191},
+																			pos:   position{line: 1593, col: 5, offset: 51434},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1533, col: 5, offset: 49658},
+																				pos: position{line: 1540, col: 5, offset: 49901},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1533, col: 5, offset: 49658},
+																					pos: position{line: 1540, col: 5, offset: 49901},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1533, col: 5, offset: 49658},
+																							pos:   position{line: 1540, col: 5, offset: 49901},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1533, col: 14, offset: 49667},
+																								pos: position{line: 1540, col: 14, offset: 49910},
 																								expr: &actionExpr{
-																									pos: position{line: 1533, col: 15, offset: 49668},
+																									pos: position{line: 1540, col: 15, offset: 49911},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1533, col: 15, offset: 49668},
+																										pos: position{line: 1540, col: 15, offset: 49911},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1533, col: 15, offset: 49668},
+																											pos:        position{line: 1540, col: 15, offset: 49911},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26280,28 +26313,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26310,9 +26343,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -26325,27 +26358,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1635, col: 5, offset: 53049},
+																pos: position{line: 1642, col: 5, offset: 53292},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1635, col: 5, offset: 53049},
+																	pos: position{line: 1642, col: 5, offset: 53292},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1635, col: 5, offset: 53049},
+																			pos:   position{line: 1642, col: 5, offset: 53292},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1642, col: 5, offset: 53322},
+																				pos: position{line: 1649, col: 5, offset: 53565},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1642, col: 5, offset: 53322},
+																					pos: position{line: 1649, col: 5, offset: 53565},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1642, col: 5, offset: 53322},
+																							pos: position{line: 1649, col: 5, offset: 53565},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26354,24 +26387,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1643, col: 5, offset: 53334},
+																							pos:   position{line: 1650, col: 5, offset: 53577},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1644, col: 9, offset: 53350},
+																								pos: position{line: 1651, col: 9, offset: 53593},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1644, col: 10, offset: 53351},
+																									pos: position{line: 1651, col: 10, offset: 53594},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1644, col: 11, offset: 53352},
+																											pos:        position{line: 1651, col: 11, offset: 53595},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1644, col: 18, offset: 53359},
+																											pos: position{line: 1651, col: 18, offset: 53602},
 																											expr: &litMatcher{
-																												pos:        position{line: 1644, col: 19, offset: 53360},
+																												pos:        position{line: 1651, col: 19, offset: 53603},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26382,16 +26415,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1647, col: 7, offset: 53450},
+																							pos: position{line: 1654, col: 7, offset: 53693},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2872, col: 11, offset: 90879},
+																							pos: position{line: 2887, col: 11, offset: 91347},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2872, col: 11, offset: 90879},
+																								pos: position{line: 2887, col: 11, offset: 91347},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 11, offset: 90879},
+																									pos:        position{line: 2887, col: 11, offset: 91347},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26404,56 +26437,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1636, col: 5, offset: 53090},
+																			pos:   position{line: 1643, col: 5, offset: 53333},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1636, col: 16, offset: 53101},
+																				pos: position{line: 1643, col: 16, offset: 53344},
 																				expr: &actionExpr{
-																					pos: position{line: 1657, col: 5, offset: 53715},
+																					pos: position{line: 1664, col: 5, offset: 53958},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1657, col: 5, offset: 53715},
+																						pos: position{line: 1664, col: 5, offset: 53958},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1657, col: 5, offset: 53715},
+																								pos: position{line: 1664, col: 5, offset: 53958},
 																								expr: &litMatcher{
-																									pos:        position{line: 1657, col: 6, offset: 53716},
+																									pos:        position{line: 1664, col: 6, offset: 53959},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1657, col: 10, offset: 53720},
+																								pos:   position{line: 1664, col: 10, offset: 53963},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1658, col: 7, offset: 53734},
+																									pos: position{line: 1665, col: 7, offset: 53977},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1658, col: 7, offset: 53734},
+																											pos: position{line: 1665, col: 7, offset: 53977},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1658, col: 7, offset: 53734},
+																												pos:        position{line: 1665, col: 7, offset: 53977},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1659, col: 7, offset: 53779},
+																											pos: position{line: 1666, col: 7, offset: 54022},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1659, col: 7, offset: 53779},
+																												pos:        position{line: 1666, col: 7, offset: 54022},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1660, col: 7, offset: 53822},
+																											pos: position{line: 1667, col: 7, offset: 54065},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1660, col: 7, offset: 53822},
+																												pos:        position{line: 1667, col: 7, offset: 54065},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26463,12 +26496,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2872, col: 11, offset: 90879},
+																								pos: position{line: 2887, col: 11, offset: 91347},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2872, col: 11, offset: 90879},
+																									pos: position{line: 2887, col: 11, offset: 91347},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2872, col: 11, offset: 90879},
+																										pos:        position{line: 2887, col: 11, offset: 91347},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26482,26 +26515,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1637, col: 5, offset: 53140},
+																			pos:   position{line: 1644, col: 5, offset: 53383},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1533, col: 5, offset: 49658},
+																				pos: position{line: 1540, col: 5, offset: 49901},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1533, col: 5, offset: 49658},
+																					pos: position{line: 1540, col: 5, offset: 49901},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1533, col: 5, offset: 49658},
+																							pos:   position{line: 1540, col: 5, offset: 49901},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1533, col: 14, offset: 49667},
+																								pos: position{line: 1540, col: 14, offset: 49910},
 																								expr: &actionExpr{
-																									pos: position{line: 1533, col: 15, offset: 49668},
+																									pos: position{line: 1540, col: 15, offset: 49911},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1533, col: 15, offset: 49668},
+																										pos: position{line: 1540, col: 15, offset: 49911},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1533, col: 15, offset: 49668},
+																											pos:        position{line: 1540, col: 15, offset: 49911},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26512,28 +26545,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26542,9 +26575,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -26557,36 +26590,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1726, col: 5, offset: 55694},
+																pos: position{line: 1733, col: 5, offset: 55937},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1726, col: 5, offset: 55694},
+																	pos: position{line: 1733, col: 5, offset: 55937},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1726, col: 5, offset: 55694},
+																			pos:   position{line: 1733, col: 5, offset: 55937},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1732, col: 5, offset: 55891},
+																				pos: position{line: 1739, col: 5, offset: 56134},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1732, col: 5, offset: 55891},
+																					pos: position{line: 1739, col: 5, offset: 56134},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1732, col: 5, offset: 55891},
+																							pos:        position{line: 1739, col: 5, offset: 56134},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1732, col: 9, offset: 55895},
+																							pos:   position{line: 1739, col: 9, offset: 56138},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1732, col: 14, offset: 55900},
+																								pos: position{line: 1739, col: 14, offset: 56143},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1732, col: 14, offset: 55900},
+																									pos: position{line: 1739, col: 14, offset: 56143},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1732, col: 14, offset: 55900},
+																										pos:        position{line: 1739, col: 14, offset: 56143},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26596,18 +26629,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1732, col: 62, offset: 55948},
+																							pos:        position{line: 1739, col: 62, offset: 56191},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2872, col: 11, offset: 90879},
+																							pos: position{line: 2887, col: 11, offset: 91347},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2872, col: 11, offset: 90879},
+																								pos: position{line: 2887, col: 11, offset: 91347},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 11, offset: 90879},
+																									pos:        position{line: 2887, col: 11, offset: 91347},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26620,26 +26653,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1727, col: 5, offset: 55730},
+																			pos:   position{line: 1734, col: 5, offset: 55973},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1533, col: 5, offset: 49658},
+																				pos: position{line: 1540, col: 5, offset: 49901},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1533, col: 5, offset: 49658},
+																					pos: position{line: 1540, col: 5, offset: 49901},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1533, col: 5, offset: 49658},
+																							pos:   position{line: 1540, col: 5, offset: 49901},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1533, col: 14, offset: 49667},
+																								pos: position{line: 1540, col: 14, offset: 49910},
 																								expr: &actionExpr{
-																									pos: position{line: 1533, col: 15, offset: 49668},
+																									pos: position{line: 1540, col: 15, offset: 49911},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1533, col: 15, offset: 49668},
+																										pos: position{line: 1540, col: 15, offset: 49911},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1533, col: 15, offset: 49668},
+																											pos:        position{line: 1540, col: 15, offset: 49911},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26650,28 +26683,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26680,9 +26713,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -26695,35 +26728,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1669, col: 5, offset: 54015},
+																pos: position{line: 1676, col: 5, offset: 54258},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1669, col: 5, offset: 54015},
+																	pos: position{line: 1676, col: 5, offset: 54258},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1669, col: 5, offset: 54015},
+																			pos:   position{line: 1676, col: 5, offset: 54258},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1677, col: 5, offset: 54341},
+																				pos: position{line: 1684, col: 5, offset: 54584},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1677, col: 5, offset: 54341},
+																					pos: position{line: 1684, col: 5, offset: 54584},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1677, col: 5, offset: 54341},
+																							pos: position{line: 1684, col: 5, offset: 54584},
 																							expr: &seqExpr{
-																								pos: position{line: 2483, col: 31, offset: 79982},
+																								pos: position{line: 2498, col: 31, offset: 80450},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2483, col: 31, offset: 79982},
+																										pos:        position{line: 2498, col: 31, offset: 80450},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2483, col: 36, offset: 79987},
+																										pos: position{line: 2498, col: 36, offset: 80455},
 																										expr: &litMatcher{
-																											pos:        position{line: 2483, col: 37, offset: 79988},
+																											pos:        position{line: 2498, col: 37, offset: 80456},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -26733,28 +26766,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1678, col: 5, offset: 54373},
+																							pos: position{line: 1685, col: 5, offset: 54616},
 																							expr: &seqExpr{
-																								pos: position{line: 1678, col: 6, offset: 54374},
+																								pos: position{line: 1685, col: 6, offset: 54617},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1678, col: 6, offset: 54374},
+																										pos: position{line: 1685, col: 6, offset: 54617},
 																										expr: &actionExpr{
-																											pos: position{line: 1683, col: 5, offset: 54524},
+																											pos: position{line: 1690, col: 5, offset: 54767},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1683, col: 5, offset: 54524},
+																												pos: position{line: 1690, col: 5, offset: 54767},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1683, col: 5, offset: 54524},
+																														pos:   position{line: 1690, col: 5, offset: 54767},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1683, col: 16, offset: 54535},
+																															pos: position{line: 1690, col: 16, offset: 54778},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1683, col: 16, offset: 54535},
+																																pos: position{line: 1690, col: 16, offset: 54778},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1683, col: 17, offset: 54536},
+																																	pos:        position{line: 1690, col: 17, offset: 54779},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -26763,7 +26796,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1686, col: 5, offset: 54593},
+																														pos: position{line: 1693, col: 5, offset: 54836},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -26771,30 +26804,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1678, col: 35, offset: 54403},
+																										pos: position{line: 1685, col: 35, offset: 54646},
 																										expr: &choiceExpr{
-																											pos: position{line: 2890, col: 8, offset: 91216},
+																											pos: position{line: 2905, col: 8, offset: 91684},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2877, col: 12, offset: 90989},
+																													pos: position{line: 2892, col: 12, offset: 91457},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2877, col: 13, offset: 90990},
+																														pos: position{line: 2892, col: 13, offset: 91458},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26803,16 +26836,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2887, col: 8, offset: 91166},
+																													pos: position{line: 2902, col: 8, offset: 91634},
 																													expr: &anyMatcher{
-																														line: 2887, col: 9, offset: 91167,
+																														line: 2902, col: 9, offset: 91635,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1678, col: 40, offset: 54408,
+																										line: 1685, col: 40, offset: 54651,
 																									},
 																								},
 																							},
@@ -26822,24 +26855,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1670, col: 5, offset: 54050},
+																			pos:   position{line: 1677, col: 5, offset: 54293},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1683, col: 5, offset: 54524},
+																				pos: position{line: 1690, col: 5, offset: 54767},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1683, col: 5, offset: 54524},
+																					pos: position{line: 1690, col: 5, offset: 54767},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1683, col: 5, offset: 54524},
+																							pos:   position{line: 1690, col: 5, offset: 54767},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1683, col: 16, offset: 54535},
+																								pos: position{line: 1690, col: 16, offset: 54778},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1683, col: 16, offset: 54535},
+																									pos: position{line: 1690, col: 16, offset: 54778},
 																									expr: &litMatcher{
-																										pos:        position{line: 1683, col: 17, offset: 54536},
+																										pos:        position{line: 1690, col: 17, offset: 54779},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -26848,7 +26881,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1686, col: 5, offset: 54593},
+																							pos: position{line: 1693, col: 5, offset: 54836},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -26856,24 +26889,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1671, col: 5, offset: 54095},
+																			pos:   position{line: 1678, col: 5, offset: 54338},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1694, col: 5, offset: 54842},
+																				pos: position{line: 1701, col: 5, offset: 55085},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1696, col: 9, offset: 54908},
+																						pos: position{line: 1703, col: 9, offset: 55151},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1696, col: 9, offset: 54908},
+																							pos: position{line: 1703, col: 9, offset: 55151},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1696, col: 9, offset: 54908},
+																									pos: position{line: 1703, col: 9, offset: 55151},
 																									expr: &actionExpr{
-																										pos: position{line: 2868, col: 10, offset: 90818},
+																										pos: position{line: 2883, col: 10, offset: 91286},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2868, col: 10, offset: 90818},
+																											pos:        position{line: 2883, col: 10, offset: 91286},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26882,28 +26915,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2890, col: 8, offset: 91216},
+																									pos: position{line: 2905, col: 8, offset: 91684},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2877, col: 12, offset: 90989},
+																											pos: position{line: 2892, col: 12, offset: 91457},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2877, col: 13, offset: 90990},
+																												pos: position{line: 2892, col: 13, offset: 91458},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2877, col: 13, offset: 90990},
+																														pos:        position{line: 2892, col: 13, offset: 91458},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2877, col: 20, offset: 90997},
+																														pos:        position{line: 2892, col: 20, offset: 91465},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2877, col: 29, offset: 91006},
+																														pos:        position{line: 2892, col: 29, offset: 91474},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26912,34 +26945,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2887, col: 8, offset: 91166},
+																											pos: position{line: 2902, col: 8, offset: 91634},
 																											expr: &anyMatcher{
-																												line: 2887, col: 9, offset: 91167,
+																												line: 2902, col: 9, offset: 91635,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1697, col: 9, offset: 54927},
+																									pos: position{line: 1704, col: 9, offset: 55170},
 																									expr: &actionExpr{
-																										pos: position{line: 680, col: 14, offset: 21592},
+																										pos: position{line: 687, col: 14, offset: 21835},
 																										run: (*parser).callonExtraListElement221,
 																										expr: &seqExpr{
-																											pos: position{line: 680, col: 14, offset: 21592},
+																											pos: position{line: 687, col: 14, offset: 21835},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2885, col: 11, offset: 91152},
+																													pos: position{line: 2900, col: 11, offset: 91620},
 																													expr: &anyMatcher{
-																														line: 2885, col: 13, offset: 91154,
+																														line: 2900, col: 13, offset: 91622,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 680, col: 21, offset: 21599},
+																													pos: position{line: 687, col: 21, offset: 21842},
 																													expr: &actionExpr{
-																														pos: position{line: 2868, col: 10, offset: 90818},
+																														pos: position{line: 2883, col: 10, offset: 91286},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2868, col: 10, offset: 90818},
+																															pos:        position{line: 2883, col: 10, offset: 91286},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26948,28 +26981,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2890, col: 8, offset: 91216},
+																													pos: position{line: 2905, col: 8, offset: 91684},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2877, col: 12, offset: 90989},
+																															pos: position{line: 2892, col: 12, offset: 91457},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2877, col: 13, offset: 90990},
+																																pos: position{line: 2892, col: 13, offset: 91458},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2877, col: 13, offset: 90990},
+																																		pos:        position{line: 2892, col: 13, offset: 91458},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2877, col: 20, offset: 90997},
+																																		pos:        position{line: 2892, col: 20, offset: 91465},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2877, col: 29, offset: 91006},
+																																		pos:        position{line: 2892, col: 29, offset: 91474},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -26978,9 +27011,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2887, col: 8, offset: 91166},
+																															pos: position{line: 2902, col: 8, offset: 91634},
 																															expr: &anyMatcher{
-																																line: 2887, col: 9, offset: 91167,
+																																line: 2902, col: 9, offset: 91635,
 																															},
 																														},
 																													},
@@ -26993,18 +27026,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1703, col: 9, offset: 55056},
+																						pos: position{line: 1710, col: 9, offset: 55299},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1703, col: 9, offset: 55056},
+																							pos: position{line: 1710, col: 9, offset: 55299},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 11, offset: 90879},
+																									pos: position{line: 2887, col: 11, offset: 91347},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2872, col: 11, offset: 90879},
+																										pos: position{line: 2887, col: 11, offset: 91347},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2872, col: 11, offset: 90879},
+																											pos:        position{line: 2887, col: 11, offset: 91347},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27013,15 +27046,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1704, col: 9, offset: 55129},
+																									pos:   position{line: 1711, col: 9, offset: 55372},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1704, col: 18, offset: 55138},
+																										pos: position{line: 1711, col: 18, offset: 55381},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1704, col: 18, offset: 55138},
+																											pos: position{line: 1711, col: 18, offset: 55381},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1704, col: 18, offset: 55138},
+																												pos:        position{line: 1711, col: 18, offset: 55381},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27031,28 +27064,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2890, col: 8, offset: 91216},
+																									pos: position{line: 2905, col: 8, offset: 91684},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2877, col: 12, offset: 90989},
+																											pos: position{line: 2892, col: 12, offset: 91457},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2877, col: 13, offset: 90990},
+																												pos: position{line: 2892, col: 13, offset: 91458},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2877, col: 13, offset: 90990},
+																														pos:        position{line: 2892, col: 13, offset: 91458},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2877, col: 20, offset: 90997},
+																														pos:        position{line: 2892, col: 20, offset: 91465},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2877, col: 29, offset: 91006},
+																														pos:        position{line: 2892, col: 29, offset: 91474},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27061,9 +27094,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2887, col: 8, offset: 91166},
+																											pos: position{line: 2902, col: 8, offset: 91634},
 																											expr: &anyMatcher{
-																												line: 2887, col: 9, offset: 91167,
+																												line: 2902, col: 9, offset: 91635,
 																											},
 																										},
 																									},
@@ -27084,50 +27117,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1508, col: 13, offset: 48785},
+										pos: position{line: 1515, col: 13, offset: 49028},
 										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
-											pos: position{line: 1508, col: 13, offset: 48785},
+											pos: position{line: 1515, col: 13, offset: 49028},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1508, col: 13, offset: 48785},
+													pos:   position{line: 1515, col: 13, offset: 49028},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1508, col: 24, offset: 48796},
+														pos: position{line: 1515, col: 24, offset: 49039},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1508, col: 25, offset: 48797},
+															pos:  position{line: 1515, col: 25, offset: 49040},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1509, col: 13, offset: 48828},
+													pos:   position{line: 1516, col: 13, offset: 49071},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1509, col: 22, offset: 48837},
+														pos: position{line: 1516, col: 22, offset: 49080},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1585, col: 5, offset: 51152},
+																pos: position{line: 1592, col: 5, offset: 51395},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1585, col: 5, offset: 51152},
+																	pos: position{line: 1592, col: 5, offset: 51395},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1585, col: 5, offset: 51152},
+																			pos:   position{line: 1592, col: 5, offset: 51395},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1592, col: 5, offset: 51360},
+																				pos: position{line: 1599, col: 5, offset: 51603},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1592, col: 5, offset: 51360},
+																					pos: position{line: 1599, col: 5, offset: 51603},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1592, col: 5, offset: 51360},
+																							pos: position{line: 1599, col: 5, offset: 51603},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27136,27 +27169,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1592, col: 12, offset: 51367},
+																							pos:   position{line: 1599, col: 12, offset: 51610},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1594, col: 9, offset: 51430},
+																								pos: position{line: 1601, col: 9, offset: 51673},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1594, col: 9, offset: 51430},
+																										pos: position{line: 1601, col: 9, offset: 51673},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1594, col: 9, offset: 51430},
+																											pos: position{line: 1601, col: 9, offset: 51673},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1594, col: 9, offset: 51430},
+																													pos:   position{line: 1601, col: 9, offset: 51673},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1594, col: 16, offset: 51437},
+																														pos: position{line: 1601, col: 16, offset: 51680},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1594, col: 16, offset: 51437},
+																															pos: position{line: 1601, col: 16, offset: 51680},
 																															expr: &litMatcher{
-																																pos:        position{line: 1594, col: 17, offset: 51438},
+																																pos:        position{line: 1601, col: 17, offset: 51681},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27165,22 +27198,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1598, col: 9, offset: 51538},
+																													pos: position{line: 1605, col: 9, offset: 51781},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1617, col: 11, offset: 52255},
+																										pos: position{line: 1624, col: 11, offset: 52498},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1617, col: 11, offset: 52255},
+																											pos: position{line: 1624, col: 11, offset: 52498},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1617, col: 11, offset: 52255},
+																													pos: position{line: 1624, col: 11, offset: 52498},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1617, col: 12, offset: 52256},
+																														pos:        position{line: 1624, col: 12, offset: 52499},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27188,7 +27221,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1617, col: 20, offset: 52264},
+																													pos:        position{line: 1624, col: 20, offset: 52507},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27197,20 +27230,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1619, col: 13, offset: 52381},
+																										pos: position{line: 1626, col: 13, offset: 52624},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1619, col: 13, offset: 52381},
+																											pos: position{line: 1626, col: 13, offset: 52624},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1619, col: 14, offset: 52382},
+																													pos:        position{line: 1626, col: 14, offset: 52625},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1619, col: 21, offset: 52389},
+																													pos:        position{line: 1626, col: 21, offset: 52632},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27219,20 +27252,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1621, col: 13, offset: 52509},
+																										pos: position{line: 1628, col: 13, offset: 52752},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1621, col: 13, offset: 52509},
+																											pos: position{line: 1628, col: 13, offset: 52752},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1621, col: 14, offset: 52510},
+																													pos:        position{line: 1628, col: 14, offset: 52753},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1621, col: 21, offset: 52517},
+																													pos:        position{line: 1628, col: 21, offset: 52760},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27241,15 +27274,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1623, col: 13, offset: 52637},
+																										pos: position{line: 1630, col: 13, offset: 52880},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1623, col: 13, offset: 52637},
+																											pos: position{line: 1630, col: 13, offset: 52880},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1623, col: 13, offset: 52637},
+																													pos: position{line: 1630, col: 13, offset: 52880},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1623, col: 14, offset: 52638},
+																														pos:        position{line: 1630, col: 14, offset: 52881},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27257,7 +27290,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1623, col: 26, offset: 52650},
+																													pos:        position{line: 1630, col: 26, offset: 52893},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27266,15 +27299,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1625, col: 13, offset: 52770},
+																										pos: position{line: 1632, col: 13, offset: 53013},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1625, col: 13, offset: 52770},
+																											pos: position{line: 1632, col: 13, offset: 53013},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1625, col: 13, offset: 52770},
+																													pos: position{line: 1632, col: 13, offset: 53013},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1625, col: 14, offset: 52771},
+																														pos:        position{line: 1632, col: 14, offset: 53014},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27282,7 +27315,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1625, col: 26, offset: 52783},
+																													pos:        position{line: 1632, col: 26, offset: 53026},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27294,12 +27327,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2872, col: 11, offset: 90879},
+																							pos: position{line: 2887, col: 11, offset: 91347},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2872, col: 11, offset: 90879},
+																								pos: position{line: 2887, col: 11, offset: 91347},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 11, offset: 90879},
+																									pos:        position{line: 2887, col: 11, offset: 91347},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27312,26 +27345,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1586, col: 5, offset: 51191},
+																			pos:   position{line: 1593, col: 5, offset: 51434},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1533, col: 5, offset: 49658},
+																				pos: position{line: 1540, col: 5, offset: 49901},
 																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
-																					pos: position{line: 1533, col: 5, offset: 49658},
+																					pos: position{line: 1540, col: 5, offset: 49901},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1533, col: 5, offset: 49658},
+																							pos:   position{line: 1540, col: 5, offset: 49901},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1533, col: 14, offset: 49667},
+																								pos: position{line: 1540, col: 14, offset: 49910},
 																								expr: &actionExpr{
-																									pos: position{line: 1533, col: 15, offset: 49668},
+																									pos: position{line: 1540, col: 15, offset: 49911},
 																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1533, col: 15, offset: 49668},
+																										pos: position{line: 1540, col: 15, offset: 49911},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1533, col: 15, offset: 49668},
+																											pos:        position{line: 1540, col: 15, offset: 49911},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27342,28 +27375,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27372,9 +27405,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -27387,27 +27420,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1635, col: 5, offset: 53049},
+																pos: position{line: 1642, col: 5, offset: 53292},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1635, col: 5, offset: 53049},
+																	pos: position{line: 1642, col: 5, offset: 53292},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1635, col: 5, offset: 53049},
+																			pos:   position{line: 1642, col: 5, offset: 53292},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1642, col: 5, offset: 53322},
+																				pos: position{line: 1649, col: 5, offset: 53565},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1642, col: 5, offset: 53322},
+																					pos: position{line: 1649, col: 5, offset: 53565},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1642, col: 5, offset: 53322},
+																							pos: position{line: 1649, col: 5, offset: 53565},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27416,24 +27449,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1643, col: 5, offset: 53334},
+																							pos:   position{line: 1650, col: 5, offset: 53577},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1644, col: 9, offset: 53350},
+																								pos: position{line: 1651, col: 9, offset: 53593},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1644, col: 10, offset: 53351},
+																									pos: position{line: 1651, col: 10, offset: 53594},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1644, col: 11, offset: 53352},
+																											pos:        position{line: 1651, col: 11, offset: 53595},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1644, col: 18, offset: 53359},
+																											pos: position{line: 1651, col: 18, offset: 53602},
 																											expr: &litMatcher{
-																												pos:        position{line: 1644, col: 19, offset: 53360},
+																												pos:        position{line: 1651, col: 19, offset: 53603},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27444,16 +27477,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1647, col: 7, offset: 53450},
+																							pos: position{line: 1654, col: 7, offset: 53693},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2872, col: 11, offset: 90879},
+																							pos: position{line: 2887, col: 11, offset: 91347},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2872, col: 11, offset: 90879},
+																								pos: position{line: 2887, col: 11, offset: 91347},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 11, offset: 90879},
+																									pos:        position{line: 2887, col: 11, offset: 91347},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27466,56 +27499,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1636, col: 5, offset: 53090},
+																			pos:   position{line: 1643, col: 5, offset: 53333},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1636, col: 16, offset: 53101},
+																				pos: position{line: 1643, col: 16, offset: 53344},
 																				expr: &actionExpr{
-																					pos: position{line: 1657, col: 5, offset: 53715},
+																					pos: position{line: 1664, col: 5, offset: 53958},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1657, col: 5, offset: 53715},
+																						pos: position{line: 1664, col: 5, offset: 53958},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1657, col: 5, offset: 53715},
+																								pos: position{line: 1664, col: 5, offset: 53958},
 																								expr: &litMatcher{
-																									pos:        position{line: 1657, col: 6, offset: 53716},
+																									pos:        position{line: 1664, col: 6, offset: 53959},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1657, col: 10, offset: 53720},
+																								pos:   position{line: 1664, col: 10, offset: 53963},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1658, col: 7, offset: 53734},
+																									pos: position{line: 1665, col: 7, offset: 53977},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1658, col: 7, offset: 53734},
+																											pos: position{line: 1665, col: 7, offset: 53977},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1658, col: 7, offset: 53734},
+																												pos:        position{line: 1665, col: 7, offset: 53977},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1659, col: 7, offset: 53779},
+																											pos: position{line: 1666, col: 7, offset: 54022},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1659, col: 7, offset: 53779},
+																												pos:        position{line: 1666, col: 7, offset: 54022},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1660, col: 7, offset: 53822},
+																											pos: position{line: 1667, col: 7, offset: 54065},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1660, col: 7, offset: 53822},
+																												pos:        position{line: 1667, col: 7, offset: 54065},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27525,12 +27558,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2872, col: 11, offset: 90879},
+																								pos: position{line: 2887, col: 11, offset: 91347},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2872, col: 11, offset: 90879},
+																									pos: position{line: 2887, col: 11, offset: 91347},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2872, col: 11, offset: 90879},
+																										pos:        position{line: 2887, col: 11, offset: 91347},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27544,26 +27577,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1637, col: 5, offset: 53140},
+																			pos:   position{line: 1644, col: 5, offset: 53383},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1533, col: 5, offset: 49658},
+																				pos: position{line: 1540, col: 5, offset: 49901},
 																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
-																					pos: position{line: 1533, col: 5, offset: 49658},
+																					pos: position{line: 1540, col: 5, offset: 49901},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1533, col: 5, offset: 49658},
+																							pos:   position{line: 1540, col: 5, offset: 49901},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1533, col: 14, offset: 49667},
+																								pos: position{line: 1540, col: 14, offset: 49910},
 																								expr: &actionExpr{
-																									pos: position{line: 1533, col: 15, offset: 49668},
+																									pos: position{line: 1540, col: 15, offset: 49911},
 																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1533, col: 15, offset: 49668},
+																										pos: position{line: 1540, col: 15, offset: 49911},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1533, col: 15, offset: 49668},
+																											pos:        position{line: 1540, col: 15, offset: 49911},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27574,28 +27607,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27604,9 +27637,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -27619,36 +27652,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1726, col: 5, offset: 55694},
+																pos: position{line: 1733, col: 5, offset: 55937},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1726, col: 5, offset: 55694},
+																	pos: position{line: 1733, col: 5, offset: 55937},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1726, col: 5, offset: 55694},
+																			pos:   position{line: 1733, col: 5, offset: 55937},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1732, col: 5, offset: 55891},
+																				pos: position{line: 1739, col: 5, offset: 56134},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1732, col: 5, offset: 55891},
+																					pos: position{line: 1739, col: 5, offset: 56134},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1732, col: 5, offset: 55891},
+																							pos:        position{line: 1739, col: 5, offset: 56134},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1732, col: 9, offset: 55895},
+																							pos:   position{line: 1739, col: 9, offset: 56138},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1732, col: 14, offset: 55900},
+																								pos: position{line: 1739, col: 14, offset: 56143},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1732, col: 14, offset: 55900},
+																									pos: position{line: 1739, col: 14, offset: 56143},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1732, col: 14, offset: 55900},
+																										pos:        position{line: 1739, col: 14, offset: 56143},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27658,18 +27691,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1732, col: 62, offset: 55948},
+																							pos:        position{line: 1739, col: 62, offset: 56191},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2872, col: 11, offset: 90879},
+																							pos: position{line: 2887, col: 11, offset: 91347},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2872, col: 11, offset: 90879},
+																								pos: position{line: 2887, col: 11, offset: 91347},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 11, offset: 90879},
+																									pos:        position{line: 2887, col: 11, offset: 91347},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27682,26 +27715,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1727, col: 5, offset: 55730},
+																			pos:   position{line: 1734, col: 5, offset: 55973},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1533, col: 5, offset: 49658},
+																				pos: position{line: 1540, col: 5, offset: 49901},
 																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
-																					pos: position{line: 1533, col: 5, offset: 49658},
+																					pos: position{line: 1540, col: 5, offset: 49901},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1533, col: 5, offset: 49658},
+																							pos:   position{line: 1540, col: 5, offset: 49901},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1533, col: 14, offset: 49667},
+																								pos: position{line: 1540, col: 14, offset: 49910},
 																								expr: &actionExpr{
-																									pos: position{line: 1533, col: 15, offset: 49668},
+																									pos: position{line: 1540, col: 15, offset: 49911},
 																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1533, col: 15, offset: 49668},
+																										pos: position{line: 1540, col: 15, offset: 49911},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1533, col: 15, offset: 49668},
+																											pos:        position{line: 1540, col: 15, offset: 49911},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27712,28 +27745,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27742,9 +27775,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -27757,35 +27790,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1669, col: 5, offset: 54015},
+																pos: position{line: 1676, col: 5, offset: 54258},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1669, col: 5, offset: 54015},
+																	pos: position{line: 1676, col: 5, offset: 54258},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1669, col: 5, offset: 54015},
+																			pos:   position{line: 1676, col: 5, offset: 54258},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1677, col: 5, offset: 54341},
+																				pos: position{line: 1684, col: 5, offset: 54584},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1677, col: 5, offset: 54341},
+																					pos: position{line: 1684, col: 5, offset: 54584},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1677, col: 5, offset: 54341},
+																							pos: position{line: 1684, col: 5, offset: 54584},
 																							expr: &seqExpr{
-																								pos: position{line: 2483, col: 31, offset: 79982},
+																								pos: position{line: 2498, col: 31, offset: 80450},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2483, col: 31, offset: 79982},
+																										pos:        position{line: 2498, col: 31, offset: 80450},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2483, col: 36, offset: 79987},
+																										pos: position{line: 2498, col: 36, offset: 80455},
 																										expr: &litMatcher{
-																											pos:        position{line: 2483, col: 37, offset: 79988},
+																											pos:        position{line: 2498, col: 37, offset: 80456},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -27795,28 +27828,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1678, col: 5, offset: 54373},
+																							pos: position{line: 1685, col: 5, offset: 54616},
 																							expr: &seqExpr{
-																								pos: position{line: 1678, col: 6, offset: 54374},
+																								pos: position{line: 1685, col: 6, offset: 54617},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1678, col: 6, offset: 54374},
+																										pos: position{line: 1685, col: 6, offset: 54617},
 																										expr: &actionExpr{
-																											pos: position{line: 1683, col: 5, offset: 54524},
+																											pos: position{line: 1690, col: 5, offset: 54767},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1683, col: 5, offset: 54524},
+																												pos: position{line: 1690, col: 5, offset: 54767},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1683, col: 5, offset: 54524},
+																														pos:   position{line: 1690, col: 5, offset: 54767},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1683, col: 16, offset: 54535},
+																															pos: position{line: 1690, col: 16, offset: 54778},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1683, col: 16, offset: 54535},
+																																pos: position{line: 1690, col: 16, offset: 54778},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1683, col: 17, offset: 54536},
+																																	pos:        position{line: 1690, col: 17, offset: 54779},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -27825,7 +27858,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1686, col: 5, offset: 54593},
+																														pos: position{line: 1693, col: 5, offset: 54836},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -27833,30 +27866,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1678, col: 35, offset: 54403},
+																										pos: position{line: 1685, col: 35, offset: 54646},
 																										expr: &choiceExpr{
-																											pos: position{line: 2890, col: 8, offset: 91216},
+																											pos: position{line: 2905, col: 8, offset: 91684},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2877, col: 12, offset: 90989},
+																													pos: position{line: 2892, col: 12, offset: 91457},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2877, col: 13, offset: 90990},
+																														pos: position{line: 2892, col: 13, offset: 91458},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27865,16 +27898,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2887, col: 8, offset: 91166},
+																													pos: position{line: 2902, col: 8, offset: 91634},
 																													expr: &anyMatcher{
-																														line: 2887, col: 9, offset: 91167,
+																														line: 2902, col: 9, offset: 91635,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1678, col: 40, offset: 54408,
+																										line: 1685, col: 40, offset: 54651,
 																									},
 																								},
 																							},
@@ -27884,24 +27917,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1670, col: 5, offset: 54050},
+																			pos:   position{line: 1677, col: 5, offset: 54293},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1683, col: 5, offset: 54524},
+																				pos: position{line: 1690, col: 5, offset: 54767},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1683, col: 5, offset: 54524},
+																					pos: position{line: 1690, col: 5, offset: 54767},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1683, col: 5, offset: 54524},
+																							pos:   position{line: 1690, col: 5, offset: 54767},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1683, col: 16, offset: 54535},
+																								pos: position{line: 1690, col: 16, offset: 54778},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1683, col: 16, offset: 54535},
+																									pos: position{line: 1690, col: 16, offset: 54778},
 																									expr: &litMatcher{
-																										pos:        position{line: 1683, col: 17, offset: 54536},
+																										pos:        position{line: 1690, col: 17, offset: 54779},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27910,7 +27943,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1686, col: 5, offset: 54593},
+																							pos: position{line: 1693, col: 5, offset: 54836},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -27918,24 +27951,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1671, col: 5, offset: 54095},
+																			pos:   position{line: 1678, col: 5, offset: 54338},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1694, col: 5, offset: 54842},
+																				pos: position{line: 1701, col: 5, offset: 55085},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1696, col: 9, offset: 54908},
+																						pos: position{line: 1703, col: 9, offset: 55151},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1696, col: 9, offset: 54908},
+																							pos: position{line: 1703, col: 9, offset: 55151},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1696, col: 9, offset: 54908},
+																									pos: position{line: 1703, col: 9, offset: 55151},
 																									expr: &actionExpr{
-																										pos: position{line: 2868, col: 10, offset: 90818},
+																										pos: position{line: 2883, col: 10, offset: 91286},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2868, col: 10, offset: 90818},
+																											pos:        position{line: 2883, col: 10, offset: 91286},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27944,28 +27977,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2890, col: 8, offset: 91216},
+																									pos: position{line: 2905, col: 8, offset: 91684},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2877, col: 12, offset: 90989},
+																											pos: position{line: 2892, col: 12, offset: 91457},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2877, col: 13, offset: 90990},
+																												pos: position{line: 2892, col: 13, offset: 91458},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2877, col: 13, offset: 90990},
+																														pos:        position{line: 2892, col: 13, offset: 91458},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2877, col: 20, offset: 90997},
+																														pos:        position{line: 2892, col: 20, offset: 91465},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2877, col: 29, offset: 91006},
+																														pos:        position{line: 2892, col: 29, offset: 91474},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27974,34 +28007,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2887, col: 8, offset: 91166},
+																											pos: position{line: 2902, col: 8, offset: 91634},
 																											expr: &anyMatcher{
-																												line: 2887, col: 9, offset: 91167,
+																												line: 2902, col: 9, offset: 91635,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1697, col: 9, offset: 54927},
+																									pos: position{line: 1704, col: 9, offset: 55170},
 																									expr: &actionExpr{
-																										pos: position{line: 680, col: 14, offset: 21592},
+																										pos: position{line: 687, col: 14, offset: 21835},
 																										run: (*parser).callonExtraListElement454,
 																										expr: &seqExpr{
-																											pos: position{line: 680, col: 14, offset: 21592},
+																											pos: position{line: 687, col: 14, offset: 21835},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2885, col: 11, offset: 91152},
+																													pos: position{line: 2900, col: 11, offset: 91620},
 																													expr: &anyMatcher{
-																														line: 2885, col: 13, offset: 91154,
+																														line: 2900, col: 13, offset: 91622,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 680, col: 21, offset: 21599},
+																													pos: position{line: 687, col: 21, offset: 21842},
 																													expr: &actionExpr{
-																														pos: position{line: 2868, col: 10, offset: 90818},
+																														pos: position{line: 2883, col: 10, offset: 91286},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2868, col: 10, offset: 90818},
+																															pos:        position{line: 2883, col: 10, offset: 91286},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -28010,28 +28043,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2890, col: 8, offset: 91216},
+																													pos: position{line: 2905, col: 8, offset: 91684},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2877, col: 12, offset: 90989},
+																															pos: position{line: 2892, col: 12, offset: 91457},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2877, col: 13, offset: 90990},
+																																pos: position{line: 2892, col: 13, offset: 91458},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2877, col: 13, offset: 90990},
+																																		pos:        position{line: 2892, col: 13, offset: 91458},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2877, col: 20, offset: 90997},
+																																		pos:        position{line: 2892, col: 20, offset: 91465},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2877, col: 29, offset: 91006},
+																																		pos:        position{line: 2892, col: 29, offset: 91474},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28040,9 +28073,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2887, col: 8, offset: 91166},
+																															pos: position{line: 2902, col: 8, offset: 91634},
 																															expr: &anyMatcher{
-																																line: 2887, col: 9, offset: 91167,
+																																line: 2902, col: 9, offset: 91635,
 																															},
 																														},
 																													},
@@ -28055,18 +28088,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1703, col: 9, offset: 55056},
+																						pos: position{line: 1710, col: 9, offset: 55299},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1703, col: 9, offset: 55056},
+																							pos: position{line: 1710, col: 9, offset: 55299},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 11, offset: 90879},
+																									pos: position{line: 2887, col: 11, offset: 91347},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2872, col: 11, offset: 90879},
+																										pos: position{line: 2887, col: 11, offset: 91347},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2872, col: 11, offset: 90879},
+																											pos:        position{line: 2887, col: 11, offset: 91347},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28075,15 +28108,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1704, col: 9, offset: 55129},
+																									pos:   position{line: 1711, col: 9, offset: 55372},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1704, col: 18, offset: 55138},
+																										pos: position{line: 1711, col: 18, offset: 55381},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1704, col: 18, offset: 55138},
+																											pos: position{line: 1711, col: 18, offset: 55381},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1704, col: 18, offset: 55138},
+																												pos:        position{line: 1711, col: 18, offset: 55381},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28093,28 +28126,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2890, col: 8, offset: 91216},
+																									pos: position{line: 2905, col: 8, offset: 91684},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2877, col: 12, offset: 90989},
+																											pos: position{line: 2892, col: 12, offset: 91457},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2877, col: 13, offset: 90990},
+																												pos: position{line: 2892, col: 13, offset: 91458},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2877, col: 13, offset: 90990},
+																														pos:        position{line: 2892, col: 13, offset: 91458},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2877, col: 20, offset: 90997},
+																														pos:        position{line: 2892, col: 20, offset: 91465},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2877, col: 29, offset: 91006},
+																														pos:        position{line: 2892, col: 29, offset: 91474},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28123,9 +28156,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2887, col: 8, offset: 91166},
+																											pos: position{line: 2902, col: 8, offset: 91634},
 																											expr: &anyMatcher{
-																												line: 2887, col: 9, offset: 91167,
+																												line: 2902, col: 9, offset: 91635,
 																											},
 																										},
 																									},
@@ -28146,40 +28179,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1512, col: 11, offset: 49022},
+										pos:  position{line: 1519, col: 11, offset: 49265},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2478, col: 22, offset: 79761},
+										pos: position{line: 2493, col: 22, offset: 80229},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2478, col: 22, offset: 79761},
+											pos: position{line: 2493, col: 22, offset: 80229},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2483, col: 31, offset: 79982},
+													pos:        position{line: 2498, col: 31, offset: 80450},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2483, col: 36, offset: 79987},
+													pos: position{line: 2498, col: 36, offset: 80455},
 													expr: &litMatcher{
-														pos:        position{line: 2483, col: 37, offset: 79988},
+														pos:        position{line: 2498, col: 37, offset: 80456},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2478, col: 49, offset: 79788},
+													pos:   position{line: 2493, col: 49, offset: 80256},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2814, col: 13, offset: 89344},
+														pos: position{line: 2829, col: 13, offset: 89812},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2814, col: 13, offset: 89344},
+															pos: position{line: 2829, col: 13, offset: 89812},
 															expr: &charClassMatcher{
-																pos:        position{line: 2814, col: 13, offset: 89344},
+																pos:        position{line: 2829, col: 13, offset: 89812},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28189,28 +28222,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2890, col: 8, offset: 91216},
+													pos: position{line: 2905, col: 8, offset: 91684},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2877, col: 12, offset: 90989},
+															pos: position{line: 2892, col: 12, offset: 91457},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2877, col: 13, offset: 90990},
+																pos: position{line: 2892, col: 13, offset: 91458},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 13, offset: 90990},
+																		pos:        position{line: 2892, col: 13, offset: 91458},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 20, offset: 90997},
+																		pos:        position{line: 2892, col: 20, offset: 91465},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 29, offset: 91006},
+																		pos:        position{line: 2892, col: 29, offset: 91474},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28219,9 +28252,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2887, col: 8, offset: 91166},
+															pos: position{line: 2902, col: 8, offset: 91634},
 															expr: &anyMatcher{
-																line: 2887, col: 9, offset: 91167,
+																line: 2902, col: 9, offset: 91635,
 															},
 														},
 													},
@@ -28230,32 +28263,32 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1520, col: 5, offset: 49300},
+										pos: position{line: 1527, col: 5, offset: 49543},
 										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
-											pos: position{line: 1520, col: 5, offset: 49300},
+											pos: position{line: 1527, col: 5, offset: 49543},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1520, col: 5, offset: 49300},
+													pos: position{line: 1527, col: 5, offset: 49543},
 													expr: &actionExpr{
-														pos: position{line: 680, col: 14, offset: 21592},
+														pos: position{line: 687, col: 14, offset: 21835},
 														run: (*parser).callonExtraListElement507,
 														expr: &seqExpr{
-															pos: position{line: 680, col: 14, offset: 21592},
+															pos: position{line: 687, col: 14, offset: 21835},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2885, col: 11, offset: 91152},
+																	pos: position{line: 2900, col: 11, offset: 91620},
 																	expr: &anyMatcher{
-																		line: 2885, col: 13, offset: 91154,
+																		line: 2900, col: 13, offset: 91622,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 680, col: 21, offset: 21599},
+																	pos: position{line: 687, col: 21, offset: 21842},
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 10, offset: 90818},
+																		pos: position{line: 2883, col: 10, offset: 91286},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90818},
+																			pos:        position{line: 2883, col: 10, offset: 91286},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28264,28 +28297,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28294,9 +28327,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -28306,23 +28339,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1521, col: 5, offset: 49315},
+													pos: position{line: 1528, col: 5, offset: 49558},
 													expr: &seqExpr{
-														pos: position{line: 1551, col: 27, offset: 50141},
+														pos: position{line: 1558, col: 27, offset: 50384},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1551, col: 27, offset: 50141},
+																pos:        position{line: 1558, col: 27, offset: 50384},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1551, col: 31, offset: 50145},
+																pos: position{line: 1558, col: 31, offset: 50388},
 																expr: &actionExpr{
-																	pos: position{line: 2868, col: 10, offset: 90818},
+																	pos: position{line: 2883, col: 10, offset: 91286},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2868, col: 10, offset: 90818},
+																		pos:        position{line: 2883, col: 10, offset: 91286},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28331,25 +28364,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2877, col: 12, offset: 90989},
+																pos: position{line: 2892, col: 12, offset: 91457},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2877, col: 13, offset: 90990},
+																	pos: position{line: 2892, col: 13, offset: 91458},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 13, offset: 90990},
+																			pos:        position{line: 2892, col: 13, offset: 91458},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 20, offset: 90997},
+																			pos:        position{line: 2892, col: 20, offset: 91465},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2877, col: 29, offset: 91006},
+																			pos:        position{line: 2892, col: 29, offset: 91474},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28361,20 +28394,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1522, col: 5, offset: 49343},
+													pos: position{line: 1529, col: 5, offset: 49586},
 													expr: &actionExpr{
-														pos: position{line: 1592, col: 5, offset: 51360},
+														pos: position{line: 1599, col: 5, offset: 51603},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1592, col: 5, offset: 51360},
+															pos: position{line: 1599, col: 5, offset: 51603},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1592, col: 5, offset: 51360},
+																	pos: position{line: 1599, col: 5, offset: 51603},
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 10, offset: 90818},
+																		pos: position{line: 2883, col: 10, offset: 91286},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90818},
+																			pos:        position{line: 2883, col: 10, offset: 91286},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28383,27 +28416,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1592, col: 12, offset: 51367},
+																	pos:   position{line: 1599, col: 12, offset: 51610},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1594, col: 9, offset: 51430},
+																		pos: position{line: 1601, col: 9, offset: 51673},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1594, col: 9, offset: 51430},
+																				pos: position{line: 1601, col: 9, offset: 51673},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1594, col: 9, offset: 51430},
+																					pos: position{line: 1601, col: 9, offset: 51673},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1594, col: 9, offset: 51430},
+																							pos:   position{line: 1601, col: 9, offset: 51673},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1594, col: 16, offset: 51437},
+																								pos: position{line: 1601, col: 16, offset: 51680},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1594, col: 16, offset: 51437},
+																									pos: position{line: 1601, col: 16, offset: 51680},
 																									expr: &litMatcher{
-																										pos:        position{line: 1594, col: 17, offset: 51438},
+																										pos:        position{line: 1601, col: 17, offset: 51681},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28412,22 +28445,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1598, col: 9, offset: 51538},
+																							pos: position{line: 1605, col: 9, offset: 51781},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1617, col: 11, offset: 52255},
+																				pos: position{line: 1624, col: 11, offset: 52498},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 11, offset: 52255},
+																					pos: position{line: 1624, col: 11, offset: 52498},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1617, col: 11, offset: 52255},
+																							pos: position{line: 1624, col: 11, offset: 52498},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1617, col: 12, offset: 52256},
+																								pos:        position{line: 1624, col: 12, offset: 52499},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28435,7 +28468,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1617, col: 20, offset: 52264},
+																							pos:        position{line: 1624, col: 20, offset: 52507},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28444,20 +28477,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1619, col: 13, offset: 52381},
+																				pos: position{line: 1626, col: 13, offset: 52624},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1619, col: 13, offset: 52381},
+																					pos: position{line: 1626, col: 13, offset: 52624},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1619, col: 14, offset: 52382},
+																							pos:        position{line: 1626, col: 14, offset: 52625},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1619, col: 21, offset: 52389},
+																							pos:        position{line: 1626, col: 21, offset: 52632},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28466,20 +28499,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 13, offset: 52509},
+																				pos: position{line: 1628, col: 13, offset: 52752},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 13, offset: 52509},
+																					pos: position{line: 1628, col: 13, offset: 52752},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1621, col: 14, offset: 52510},
+																							pos:        position{line: 1628, col: 14, offset: 52753},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 21, offset: 52517},
+																							pos:        position{line: 1628, col: 21, offset: 52760},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28488,15 +28521,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1623, col: 13, offset: 52637},
+																				pos: position{line: 1630, col: 13, offset: 52880},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1623, col: 13, offset: 52637},
+																					pos: position{line: 1630, col: 13, offset: 52880},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1623, col: 13, offset: 52637},
+																							pos: position{line: 1630, col: 13, offset: 52880},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1623, col: 14, offset: 52638},
+																								pos:        position{line: 1630, col: 14, offset: 52881},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28504,7 +28537,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1623, col: 26, offset: 52650},
+																							pos:        position{line: 1630, col: 26, offset: 52893},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28513,15 +28546,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1625, col: 13, offset: 52770},
+																				pos: position{line: 1632, col: 13, offset: 53013},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1625, col: 13, offset: 52770},
+																					pos: position{line: 1632, col: 13, offset: 53013},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1625, col: 13, offset: 52770},
+																							pos: position{line: 1632, col: 13, offset: 53013},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1625, col: 14, offset: 52771},
+																								pos:        position{line: 1632, col: 14, offset: 53014},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28529,7 +28562,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1625, col: 26, offset: 52783},
+																							pos:        position{line: 1632, col: 26, offset: 53026},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28541,12 +28574,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2872, col: 11, offset: 90879},
+																	pos: position{line: 2887, col: 11, offset: 91347},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2872, col: 11, offset: 90879},
+																		pos: position{line: 2887, col: 11, offset: 91347},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 11, offset: 90879},
+																			pos:        position{line: 2887, col: 11, offset: 91347},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28559,20 +28592,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1523, col: 5, offset: 49373},
+													pos: position{line: 1530, col: 5, offset: 49616},
 													expr: &actionExpr{
-														pos: position{line: 1642, col: 5, offset: 53322},
+														pos: position{line: 1649, col: 5, offset: 53565},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1642, col: 5, offset: 53322},
+															pos: position{line: 1649, col: 5, offset: 53565},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1642, col: 5, offset: 53322},
+																	pos: position{line: 1649, col: 5, offset: 53565},
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 10, offset: 90818},
+																		pos: position{line: 2883, col: 10, offset: 91286},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90818},
+																			pos:        position{line: 2883, col: 10, offset: 91286},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28581,24 +28614,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1643, col: 5, offset: 53334},
+																	pos:   position{line: 1650, col: 5, offset: 53577},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1644, col: 9, offset: 53350},
+																		pos: position{line: 1651, col: 9, offset: 53593},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1644, col: 10, offset: 53351},
+																			pos: position{line: 1651, col: 10, offset: 53594},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1644, col: 11, offset: 53352},
+																					pos:        position{line: 1651, col: 11, offset: 53595},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1644, col: 18, offset: 53359},
+																					pos: position{line: 1651, col: 18, offset: 53602},
 																					expr: &litMatcher{
-																						pos:        position{line: 1644, col: 19, offset: 53360},
+																						pos:        position{line: 1651, col: 19, offset: 53603},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28609,16 +28642,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1647, col: 7, offset: 53450},
+																	pos: position{line: 1654, col: 7, offset: 53693},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2872, col: 11, offset: 90879},
+																	pos: position{line: 2887, col: 11, offset: 91347},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2872, col: 11, offset: 90879},
+																		pos: position{line: 2887, col: 11, offset: 91347},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 11, offset: 90879},
+																			pos:        position{line: 2887, col: 11, offset: 91347},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28631,29 +28664,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1524, col: 5, offset: 49405},
+													pos: position{line: 1531, col: 5, offset: 49648},
 													expr: &actionExpr{
-														pos: position{line: 1732, col: 5, offset: 55891},
+														pos: position{line: 1739, col: 5, offset: 56134},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1732, col: 5, offset: 55891},
+															pos: position{line: 1739, col: 5, offset: 56134},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1732, col: 5, offset: 55891},
+																	pos:        position{line: 1739, col: 5, offset: 56134},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1732, col: 9, offset: 55895},
+																	pos:   position{line: 1739, col: 9, offset: 56138},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1732, col: 14, offset: 55900},
+																		pos: position{line: 1739, col: 14, offset: 56143},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1732, col: 14, offset: 55900},
+																			pos: position{line: 1739, col: 14, offset: 56143},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1732, col: 14, offset: 55900},
+																				pos:        position{line: 1739, col: 14, offset: 56143},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28663,18 +28696,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1732, col: 62, offset: 55948},
+																	pos:        position{line: 1739, col: 62, offset: 56191},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2872, col: 11, offset: 90879},
+																	pos: position{line: 2887, col: 11, offset: 91347},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2872, col: 11, offset: 90879},
+																		pos: position{line: 2887, col: 11, offset: 91347},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 11, offset: 90879},
+																			pos:        position{line: 2887, col: 11, offset: 91347},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28687,31 +28720,31 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1525, col: 5, offset: 49435},
+													pos: position{line: 1532, col: 5, offset: 49678},
 													expr: &seqExpr{
-														pos: position{line: 1525, col: 7, offset: 49437},
+														pos: position{line: 1532, col: 7, offset: 49680},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1677, col: 5, offset: 54341},
+																pos: position{line: 1684, col: 5, offset: 54584},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1677, col: 5, offset: 54341},
+																	pos: position{line: 1684, col: 5, offset: 54584},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1677, col: 5, offset: 54341},
+																			pos: position{line: 1684, col: 5, offset: 54584},
 																			expr: &seqExpr{
-																				pos: position{line: 2483, col: 31, offset: 79982},
+																				pos: position{line: 2498, col: 31, offset: 80450},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2483, col: 31, offset: 79982},
+																						pos:        position{line: 2498, col: 31, offset: 80450},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2483, col: 36, offset: 79987},
+																						pos: position{line: 2498, col: 36, offset: 80455},
 																						expr: &litMatcher{
-																							pos:        position{line: 2483, col: 37, offset: 79988},
+																							pos:        position{line: 2498, col: 37, offset: 80456},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
@@ -28721,28 +28754,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1678, col: 5, offset: 54373},
+																			pos: position{line: 1685, col: 5, offset: 54616},
 																			expr: &seqExpr{
-																				pos: position{line: 1678, col: 6, offset: 54374},
+																				pos: position{line: 1685, col: 6, offset: 54617},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1678, col: 6, offset: 54374},
+																						pos: position{line: 1685, col: 6, offset: 54617},
 																						expr: &actionExpr{
-																							pos: position{line: 1683, col: 5, offset: 54524},
+																							pos: position{line: 1690, col: 5, offset: 54767},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1683, col: 5, offset: 54524},
+																								pos: position{line: 1690, col: 5, offset: 54767},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1683, col: 5, offset: 54524},
+																										pos:   position{line: 1690, col: 5, offset: 54767},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1683, col: 16, offset: 54535},
+																											pos: position{line: 1690, col: 16, offset: 54778},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1683, col: 16, offset: 54535},
+																												pos: position{line: 1690, col: 16, offset: 54778},
 																												expr: &litMatcher{
-																													pos:        position{line: 1683, col: 17, offset: 54536},
+																													pos:        position{line: 1690, col: 17, offset: 54779},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -28751,7 +28784,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1686, col: 5, offset: 54593},
+																										pos: position{line: 1693, col: 5, offset: 54836},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -28759,30 +28792,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1678, col: 35, offset: 54403},
+																						pos: position{line: 1685, col: 35, offset: 54646},
 																						expr: &choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28791,16 +28824,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1678, col: 40, offset: 54408,
+																						line: 1685, col: 40, offset: 54651,
 																					},
 																				},
 																			},
@@ -28809,21 +28842,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1683, col: 5, offset: 54524},
+																pos: position{line: 1690, col: 5, offset: 54767},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1683, col: 5, offset: 54524},
+																	pos: position{line: 1690, col: 5, offset: 54767},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1683, col: 5, offset: 54524},
+																			pos:   position{line: 1690, col: 5, offset: 54767},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1683, col: 16, offset: 54535},
+																				pos: position{line: 1690, col: 16, offset: 54778},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1683, col: 16, offset: 54535},
+																					pos: position{line: 1690, col: 16, offset: 54778},
 																					expr: &litMatcher{
-																						pos:        position{line: 1683, col: 17, offset: 54536},
+																						pos:        position{line: 1690, col: 17, offset: 54779},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -28832,7 +28865,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1686, col: 5, offset: 54593},
+																			pos: position{line: 1693, col: 5, offset: 54836},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -28842,17 +28875,17 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1526, col: 5, offset: 49493},
+													pos: position{line: 1533, col: 5, offset: 49736},
 													expr: &actionExpr{
-														pos: position{line: 727, col: 5, offset: 23145},
+														pos: position{line: 734, col: 5, offset: 23388},
 														run: (*parser).callonExtraListElement639,
 														expr: &seqExpr{
-															pos: position{line: 727, col: 5, offset: 23145},
+															pos: position{line: 734, col: 5, offset: 23388},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 727, col: 5, offset: 23145},
+																	pos: position{line: 734, col: 5, offset: 23388},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2758, col: 13, offset: 87913},
+																		pos:        position{line: 2773, col: 13, offset: 88381},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28860,36 +28893,36 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 728, col: 5, offset: 23175},
+																	pos:   position{line: 735, col: 5, offset: 23418},
 																	label: "delimiter",
 																	expr: &choiceExpr{
-																		pos: position{line: 729, col: 9, offset: 23195},
+																		pos: position{line: 736, col: 9, offset: 23438},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 743, col: 5, offset: 23687},
+																				pos: position{line: 750, col: 5, offset: 23930},
 																				run: (*parser).callonExtraListElement645,
 																				expr: &seqExpr{
-																					pos: position{line: 743, col: 5, offset: 23687},
+																					pos: position{line: 750, col: 5, offset: 23930},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 743, col: 5, offset: 23687},
+																							pos:   position{line: 750, col: 5, offset: 23930},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 743, col: 16, offset: 23698},
+																								pos: position{line: 750, col: 16, offset: 23941},
 																								run: (*parser).callonExtraListElement648,
 																								expr: &seqExpr{
-																									pos: position{line: 743, col: 16, offset: 23698},
+																									pos: position{line: 750, col: 16, offset: 23941},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 743, col: 16, offset: 23698},
+																											pos:        position{line: 750, col: 16, offset: 23941},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 743, col: 23, offset: 23705},
+																											pos: position{line: 750, col: 23, offset: 23948},
 																											expr: &litMatcher{
-																												pos:        position{line: 743, col: 23, offset: 23705},
+																												pos:        position{line: 750, col: 23, offset: 23948},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -28900,12 +28933,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 745, col: 8, offset: 23789},
+																							pos: position{line: 752, col: 8, offset: 24032},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28914,28 +28947,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28944,9 +28977,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -28955,30 +28988,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 750, col: 5, offset: 23935},
+																				pos: position{line: 757, col: 5, offset: 24178},
 																				run: (*parser).callonExtraListElement664,
 																				expr: &seqExpr{
-																					pos: position{line: 750, col: 5, offset: 23935},
+																					pos: position{line: 757, col: 5, offset: 24178},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 750, col: 5, offset: 23935},
+																							pos:   position{line: 757, col: 5, offset: 24178},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 750, col: 16, offset: 23946},
+																								pos: position{line: 757, col: 16, offset: 24189},
 																								run: (*parser).callonExtraListElement667,
 																								expr: &seqExpr{
-																									pos: position{line: 750, col: 16, offset: 23946},
+																									pos: position{line: 757, col: 16, offset: 24189},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 750, col: 16, offset: 23946},
+																											pos:        position{line: 757, col: 16, offset: 24189},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 750, col: 23, offset: 23953},
+																											pos: position{line: 757, col: 23, offset: 24196},
 																											expr: &litMatcher{
-																												pos:        position{line: 750, col: 23, offset: 23953},
+																												pos:        position{line: 757, col: 23, offset: 24196},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -28989,12 +29022,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 752, col: 8, offset: 24037},
+																							pos: position{line: 759, col: 8, offset: 24280},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29003,28 +29036,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29033,9 +29066,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -29044,27 +29077,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 763, col: 26, offset: 24423},
+																				pos: position{line: 770, col: 26, offset: 24666},
 																				run: (*parser).callonExtraListElement683,
 																				expr: &seqExpr{
-																					pos: position{line: 763, col: 26, offset: 24423},
+																					pos: position{line: 770, col: 26, offset: 24666},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 763, col: 26, offset: 24423},
+																							pos:        position{line: 770, col: 26, offset: 24666},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 763, col: 32, offset: 24429},
+																							pos:   position{line: 770, col: 32, offset: 24672},
 																							label: "language",
 																							expr: &actionExpr{
-																								pos: position{line: 767, col: 13, offset: 24559},
+																								pos: position{line: 774, col: 13, offset: 24802},
 																								run: (*parser).callonExtraListElement687,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 767, col: 14, offset: 24560},
+																									pos: position{line: 774, col: 14, offset: 24803},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 767, col: 14, offset: 24560},
+																										pos:        position{line: 774, col: 14, offset: 24803},
 																										val:        "[^\\r\\n` ]",
 																										chars:      []rune{'\r', '\n', '`', ' '},
 																										ignoreCase: false,
@@ -29074,12 +29107,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 763, col: 52, offset: 24449},
+																							pos: position{line: 770, col: 52, offset: 24692},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29088,28 +29121,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29118,9 +29151,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -29129,30 +29162,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 757, col: 5, offset: 24182},
+																				pos: position{line: 764, col: 5, offset: 24425},
 																				run: (*parser).callonExtraListElement701,
 																				expr: &seqExpr{
-																					pos: position{line: 757, col: 5, offset: 24182},
+																					pos: position{line: 764, col: 5, offset: 24425},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 757, col: 5, offset: 24182},
+																							pos:   position{line: 764, col: 5, offset: 24425},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 757, col: 16, offset: 24193},
+																								pos: position{line: 764, col: 16, offset: 24436},
 																								run: (*parser).callonExtraListElement704,
 																								expr: &seqExpr{
-																									pos: position{line: 757, col: 16, offset: 24193},
+																									pos: position{line: 764, col: 16, offset: 24436},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 757, col: 16, offset: 24193},
+																											pos:        position{line: 764, col: 16, offset: 24436},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 757, col: 22, offset: 24199},
+																											pos: position{line: 764, col: 22, offset: 24442},
 																											expr: &litMatcher{
-																												pos:        position{line: 757, col: 22, offset: 24199},
+																												pos:        position{line: 764, col: 22, offset: 24442},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -29163,12 +29196,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 759, col: 8, offset: 24283},
+																							pos: position{line: 766, col: 8, offset: 24526},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29177,28 +29210,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29207,9 +29240,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -29218,30 +29251,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 772, col: 5, offset: 24719},
+																				pos: position{line: 779, col: 5, offset: 24962},
 																				run: (*parser).callonExtraListElement720,
 																				expr: &seqExpr{
-																					pos: position{line: 772, col: 5, offset: 24719},
+																					pos: position{line: 779, col: 5, offset: 24962},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 772, col: 5, offset: 24719},
+																							pos:   position{line: 779, col: 5, offset: 24962},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 772, col: 16, offset: 24730},
+																								pos: position{line: 779, col: 16, offset: 24973},
 																								run: (*parser).callonExtraListElement723,
 																								expr: &seqExpr{
-																									pos: position{line: 772, col: 16, offset: 24730},
+																									pos: position{line: 779, col: 16, offset: 24973},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 772, col: 16, offset: 24730},
+																											pos:        position{line: 779, col: 16, offset: 24973},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 772, col: 23, offset: 24737},
+																											pos: position{line: 779, col: 23, offset: 24980},
 																											expr: &litMatcher{
-																												pos:        position{line: 772, col: 23, offset: 24737},
+																												pos:        position{line: 779, col: 23, offset: 24980},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -29252,12 +29285,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 774, col: 8, offset: 24821},
+																							pos: position{line: 781, col: 8, offset: 25064},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29266,28 +29299,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29296,9 +29329,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -29307,30 +29340,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 786, col: 5, offset: 25195},
+																				pos: position{line: 793, col: 5, offset: 25438},
 																				run: (*parser).callonExtraListElement739,
 																				expr: &seqExpr{
-																					pos: position{line: 786, col: 5, offset: 25195},
+																					pos: position{line: 793, col: 5, offset: 25438},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 786, col: 5, offset: 25195},
+																							pos:   position{line: 793, col: 5, offset: 25438},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 786, col: 16, offset: 25206},
+																								pos: position{line: 793, col: 16, offset: 25449},
 																								run: (*parser).callonExtraListElement742,
 																								expr: &seqExpr{
-																									pos: position{line: 786, col: 16, offset: 25206},
+																									pos: position{line: 793, col: 16, offset: 25449},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 786, col: 16, offset: 25206},
+																											pos:        position{line: 793, col: 16, offset: 25449},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 786, col: 23, offset: 25213},
+																											pos: position{line: 793, col: 23, offset: 25456},
 																											expr: &litMatcher{
-																												pos:        position{line: 786, col: 23, offset: 25213},
+																												pos:        position{line: 793, col: 23, offset: 25456},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -29341,12 +29374,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 788, col: 8, offset: 25297},
+																							pos: position{line: 795, col: 8, offset: 25540},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29355,28 +29388,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29385,9 +29418,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -29396,30 +29429,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 793, col: 5, offset: 25447},
+																				pos: position{line: 800, col: 5, offset: 25690},
 																				run: (*parser).callonExtraListElement758,
 																				expr: &seqExpr{
-																					pos: position{line: 793, col: 5, offset: 25447},
+																					pos: position{line: 800, col: 5, offset: 25690},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 793, col: 5, offset: 25447},
+																							pos:   position{line: 800, col: 5, offset: 25690},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 793, col: 16, offset: 25458},
+																								pos: position{line: 800, col: 16, offset: 25701},
 																								run: (*parser).callonExtraListElement761,
 																								expr: &seqExpr{
-																									pos: position{line: 793, col: 16, offset: 25458},
+																									pos: position{line: 800, col: 16, offset: 25701},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 793, col: 16, offset: 25458},
+																											pos:        position{line: 800, col: 16, offset: 25701},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 793, col: 23, offset: 25465},
+																											pos: position{line: 800, col: 23, offset: 25708},
 																											expr: &litMatcher{
-																												pos:        position{line: 793, col: 23, offset: 25465},
+																												pos:        position{line: 800, col: 23, offset: 25708},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -29430,12 +29463,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 795, col: 8, offset: 25549},
+																							pos: position{line: 802, col: 8, offset: 25792},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29444,28 +29477,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29474,9 +29507,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -29485,30 +29518,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 800, col: 5, offset: 25697},
+																				pos: position{line: 807, col: 5, offset: 25940},
 																				run: (*parser).callonExtraListElement777,
 																				expr: &seqExpr{
-																					pos: position{line: 800, col: 5, offset: 25697},
+																					pos: position{line: 807, col: 5, offset: 25940},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 800, col: 5, offset: 25697},
+																							pos:   position{line: 807, col: 5, offset: 25940},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 800, col: 16, offset: 25708},
+																								pos: position{line: 807, col: 16, offset: 25951},
 																								run: (*parser).callonExtraListElement780,
 																								expr: &seqExpr{
-																									pos: position{line: 800, col: 16, offset: 25708},
+																									pos: position{line: 807, col: 16, offset: 25951},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 800, col: 16, offset: 25708},
+																											pos:        position{line: 807, col: 16, offset: 25951},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 800, col: 23, offset: 25715},
+																											pos: position{line: 807, col: 23, offset: 25958},
 																											expr: &litMatcher{
-																												pos:        position{line: 800, col: 23, offset: 25715},
+																												pos:        position{line: 807, col: 23, offset: 25958},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -29519,12 +29552,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 802, col: 8, offset: 25799},
+																							pos: position{line: 809, col: 8, offset: 26042},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29533,28 +29566,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29563,9 +29596,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -29574,30 +29607,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 807, col: 5, offset: 25943},
+																				pos: position{line: 814, col: 5, offset: 26186},
 																				run: (*parser).callonExtraListElement796,
 																				expr: &seqExpr{
-																					pos: position{line: 807, col: 5, offset: 25943},
+																					pos: position{line: 814, col: 5, offset: 26186},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 807, col: 5, offset: 25943},
+																							pos:   position{line: 814, col: 5, offset: 26186},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 807, col: 16, offset: 25954},
+																								pos: position{line: 814, col: 16, offset: 26197},
 																								run: (*parser).callonExtraListElement799,
 																								expr: &seqExpr{
-																									pos: position{line: 807, col: 16, offset: 25954},
+																									pos: position{line: 814, col: 16, offset: 26197},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 807, col: 16, offset: 25954},
+																											pos:        position{line: 814, col: 16, offset: 26197},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 807, col: 23, offset: 25961},
+																											pos: position{line: 814, col: 23, offset: 26204},
 																											expr: &litMatcher{
-																												pos:        position{line: 807, col: 23, offset: 25961},
+																												pos:        position{line: 814, col: 23, offset: 26204},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -29608,12 +29641,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 809, col: 8, offset: 26045},
+																							pos: position{line: 816, col: 8, offset: 26288},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29622,28 +29655,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29652,9 +29685,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -29670,15 +29703,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1527, col: 5, offset: 49513},
+													pos:   position{line: 1534, col: 5, offset: 49756},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2818, col: 14, offset: 89411},
+														pos: position{line: 2833, col: 14, offset: 89879},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2818, col: 14, offset: 89411},
+															pos: position{line: 2833, col: 14, offset: 89879},
 															expr: &charClassMatcher{
-																pos:        position{line: 2818, col: 14, offset: 89411},
+																pos:        position{line: 2833, col: 14, offset: 89879},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29688,28 +29721,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2890, col: 8, offset: 91216},
+													pos: position{line: 2905, col: 8, offset: 91684},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2877, col: 12, offset: 90989},
+															pos: position{line: 2892, col: 12, offset: 91457},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2877, col: 13, offset: 90990},
+																pos: position{line: 2892, col: 13, offset: 91458},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 13, offset: 90990},
+																		pos:        position{line: 2892, col: 13, offset: 91458},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 20, offset: 90997},
+																		pos:        position{line: 2892, col: 20, offset: 91465},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 29, offset: 91006},
+																		pos:        position{line: 2892, col: 29, offset: 91474},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29718,9 +29751,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2887, col: 8, offset: 91166},
+															pos: position{line: 2902, col: 8, offset: 91634},
 															expr: &anyMatcher{
-																line: 2887, col: 9, offset: 91167,
+																line: 2902, col: 9, offset: 91635,
 															},
 														},
 													},
@@ -29737,28 +29770,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1543, col: 1, offset: 49904},
+			pos:  position{line: 1550, col: 1, offset: 50147},
 			expr: &actionExpr{
-				pos: position{line: 1544, col: 5, offset: 49929},
+				pos: position{line: 1551, col: 5, offset: 50172},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1544, col: 5, offset: 49929},
+					pos: position{line: 1551, col: 5, offset: 50172},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1544, col: 5, offset: 49929},
+							pos:   position{line: 1551, col: 5, offset: 50172},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1544, col: 12, offset: 49936},
+								pos: position{line: 1551, col: 12, offset: 50179},
 								expr: &seqExpr{
-									pos: position{line: 1544, col: 13, offset: 49937},
+									pos: position{line: 1551, col: 13, offset: 50180},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1544, col: 13, offset: 49937},
+											pos: position{line: 1551, col: 13, offset: 50180},
 											expr: &actionExpr{
-												pos: position{line: 2868, col: 10, offset: 90818},
+												pos: position{line: 2883, col: 10, offset: 91286},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2868, col: 10, offset: 90818},
+													pos:        position{line: 2883, col: 10, offset: 91286},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29767,25 +29800,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2877, col: 12, offset: 90989},
+											pos: position{line: 2892, col: 12, offset: 91457},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2877, col: 13, offset: 90990},
+												pos: position{line: 2892, col: 13, offset: 91458},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2877, col: 13, offset: 90990},
+														pos:        position{line: 2892, col: 13, offset: 91458},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2877, col: 20, offset: 90997},
+														pos:        position{line: 2892, col: 20, offset: 91465},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2877, col: 29, offset: 91006},
+														pos:        position{line: 2892, col: 29, offset: 91474},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29798,18 +29831,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1551, col: 27, offset: 50141},
+							pos:        position{line: 1558, col: 27, offset: 50384},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1551, col: 31, offset: 50145},
+							pos: position{line: 1558, col: 31, offset: 50388},
 							expr: &actionExpr{
-								pos: position{line: 2868, col: 10, offset: 90818},
+								pos: position{line: 2883, col: 10, offset: 91286},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2868, col: 10, offset: 90818},
+									pos:        position{line: 2883, col: 10, offset: 91286},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29818,25 +29851,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2877, col: 12, offset: 90989},
+							pos: position{line: 2892, col: 12, offset: 91457},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2877, col: 13, offset: 90990},
+								pos: position{line: 2892, col: 13, offset: 91458},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2877, col: 13, offset: 90990},
+										pos:        position{line: 2892, col: 13, offset: 91458},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2877, col: 20, offset: 90997},
+										pos:        position{line: 2892, col: 20, offset: 91465},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2877, col: 29, offset: 91006},
+										pos:        position{line: 2892, col: 29, offset: 91474},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29845,12 +29878,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1546, col: 5, offset: 49986},
+							pos:   position{line: 1553, col: 5, offset: 50229},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1546, col: 13, offset: 49994},
+								pos: position{line: 1553, col: 13, offset: 50237},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1546, col: 13, offset: 49994},
+									pos:  position{line: 1553, col: 13, offset: 50237},
 									name: "ListContinuationElement",
 								},
 							},
@@ -29861,46 +29894,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1553, col: 1, offset: 50161},
+			pos:  position{line: 1560, col: 1, offset: 50404},
 			expr: &actionExpr{
-				pos: position{line: 1554, col: 5, offset: 50232},
+				pos: position{line: 1561, col: 5, offset: 50475},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1554, col: 5, offset: 50232},
+					pos: position{line: 1561, col: 5, offset: 50475},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2885, col: 11, offset: 91152},
+							pos: position{line: 2900, col: 11, offset: 91620},
 							expr: &anyMatcher{
-								line: 2885, col: 13, offset: 91154,
+								line: 2900, col: 13, offset: 91622,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1555, col: 5, offset: 50260},
+							pos: position{line: 1562, col: 5, offset: 50503},
 							expr: &choiceExpr{
-								pos: position{line: 1492, col: 5, offset: 48218},
+								pos: position{line: 1499, col: 5, offset: 48461},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1585, col: 5, offset: 51152},
+										pos: position{line: 1592, col: 5, offset: 51395},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1585, col: 5, offset: 51152},
+											pos: position{line: 1592, col: 5, offset: 51395},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1585, col: 5, offset: 51152},
+													pos:   position{line: 1592, col: 5, offset: 51395},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1592, col: 5, offset: 51360},
+														pos: position{line: 1599, col: 5, offset: 51603},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1592, col: 5, offset: 51360},
+															pos: position{line: 1599, col: 5, offset: 51603},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1592, col: 5, offset: 51360},
+																	pos: position{line: 1599, col: 5, offset: 51603},
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 10, offset: 90818},
+																		pos: position{line: 2883, col: 10, offset: 91286},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90818},
+																			pos:        position{line: 2883, col: 10, offset: 91286},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -29909,27 +29942,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1592, col: 12, offset: 51367},
+																	pos:   position{line: 1599, col: 12, offset: 51610},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1594, col: 9, offset: 51430},
+																		pos: position{line: 1601, col: 9, offset: 51673},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1594, col: 9, offset: 51430},
+																				pos: position{line: 1601, col: 9, offset: 51673},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1594, col: 9, offset: 51430},
+																					pos: position{line: 1601, col: 9, offset: 51673},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1594, col: 9, offset: 51430},
+																							pos:   position{line: 1601, col: 9, offset: 51673},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1594, col: 16, offset: 51437},
+																								pos: position{line: 1601, col: 16, offset: 51680},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1594, col: 16, offset: 51437},
+																									pos: position{line: 1601, col: 16, offset: 51680},
 																									expr: &litMatcher{
-																										pos:        position{line: 1594, col: 17, offset: 51438},
+																										pos:        position{line: 1601, col: 17, offset: 51681},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -29938,22 +29971,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1598, col: 9, offset: 51538},
+																							pos: position{line: 1605, col: 9, offset: 51781},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1617, col: 11, offset: 52255},
+																				pos: position{line: 1624, col: 11, offset: 52498},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1617, col: 11, offset: 52255},
+																					pos: position{line: 1624, col: 11, offset: 52498},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1617, col: 11, offset: 52255},
+																							pos: position{line: 1624, col: 11, offset: 52498},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1617, col: 12, offset: 52256},
+																								pos:        position{line: 1624, col: 12, offset: 52499},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -29961,7 +29994,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1617, col: 20, offset: 52264},
+																							pos:        position{line: 1624, col: 20, offset: 52507},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29970,20 +30003,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1619, col: 13, offset: 52381},
+																				pos: position{line: 1626, col: 13, offset: 52624},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1619, col: 13, offset: 52381},
+																					pos: position{line: 1626, col: 13, offset: 52624},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1619, col: 14, offset: 52382},
+																							pos:        position{line: 1626, col: 14, offset: 52625},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1619, col: 21, offset: 52389},
+																							pos:        position{line: 1626, col: 21, offset: 52632},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -29992,20 +30025,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1621, col: 13, offset: 52509},
+																				pos: position{line: 1628, col: 13, offset: 52752},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1621, col: 13, offset: 52509},
+																					pos: position{line: 1628, col: 13, offset: 52752},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1621, col: 14, offset: 52510},
+																							pos:        position{line: 1628, col: 14, offset: 52753},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1621, col: 21, offset: 52517},
+																							pos:        position{line: 1628, col: 21, offset: 52760},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30014,15 +30047,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1623, col: 13, offset: 52637},
+																				pos: position{line: 1630, col: 13, offset: 52880},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1623, col: 13, offset: 52637},
+																					pos: position{line: 1630, col: 13, offset: 52880},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1623, col: 13, offset: 52637},
+																							pos: position{line: 1630, col: 13, offset: 52880},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1623, col: 14, offset: 52638},
+																								pos:        position{line: 1630, col: 14, offset: 52881},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -30030,7 +30063,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1623, col: 26, offset: 52650},
+																							pos:        position{line: 1630, col: 26, offset: 52893},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30039,15 +30072,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1625, col: 13, offset: 52770},
+																				pos: position{line: 1632, col: 13, offset: 53013},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1625, col: 13, offset: 52770},
+																					pos: position{line: 1632, col: 13, offset: 53013},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1625, col: 13, offset: 52770},
+																							pos: position{line: 1632, col: 13, offset: 53013},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1625, col: 14, offset: 52771},
+																								pos:        position{line: 1632, col: 14, offset: 53014},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -30055,7 +30088,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1625, col: 26, offset: 52783},
+																							pos:        position{line: 1632, col: 26, offset: 53026},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30067,12 +30100,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2872, col: 11, offset: 90879},
+																	pos: position{line: 2887, col: 11, offset: 91347},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2872, col: 11, offset: 90879},
+																		pos: position{line: 2887, col: 11, offset: 91347},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 11, offset: 90879},
+																			pos:        position{line: 2887, col: 11, offset: 91347},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30085,26 +30118,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1586, col: 5, offset: 51191},
+													pos:   position{line: 1593, col: 5, offset: 51434},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1533, col: 5, offset: 49658},
+														pos: position{line: 1540, col: 5, offset: 49901},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1533, col: 5, offset: 49658},
+															pos: position{line: 1540, col: 5, offset: 49901},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1533, col: 5, offset: 49658},
+																	pos:   position{line: 1540, col: 5, offset: 49901},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1533, col: 14, offset: 49667},
+																		pos: position{line: 1540, col: 14, offset: 49910},
 																		expr: &actionExpr{
-																			pos: position{line: 1533, col: 15, offset: 49668},
+																			pos: position{line: 1540, col: 15, offset: 49911},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1533, col: 15, offset: 49668},
+																				pos: position{line: 1540, col: 15, offset: 49911},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1533, col: 15, offset: 49668},
+																					pos:        position{line: 1540, col: 15, offset: 49911},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30115,28 +30148,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30145,9 +30178,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -30160,27 +30193,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1635, col: 5, offset: 53049},
+										pos: position{line: 1642, col: 5, offset: 53292},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1635, col: 5, offset: 53049},
+											pos: position{line: 1642, col: 5, offset: 53292},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1635, col: 5, offset: 53049},
+													pos:   position{line: 1642, col: 5, offset: 53292},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1642, col: 5, offset: 53322},
+														pos: position{line: 1649, col: 5, offset: 53565},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1642, col: 5, offset: 53322},
+															pos: position{line: 1649, col: 5, offset: 53565},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1642, col: 5, offset: 53322},
+																	pos: position{line: 1649, col: 5, offset: 53565},
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 10, offset: 90818},
+																		pos: position{line: 2883, col: 10, offset: 91286},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90818},
+																			pos:        position{line: 2883, col: 10, offset: 91286},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30189,24 +30222,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1643, col: 5, offset: 53334},
+																	pos:   position{line: 1650, col: 5, offset: 53577},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1644, col: 9, offset: 53350},
+																		pos: position{line: 1651, col: 9, offset: 53593},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1644, col: 10, offset: 53351},
+																			pos: position{line: 1651, col: 10, offset: 53594},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1644, col: 11, offset: 53352},
+																					pos:        position{line: 1651, col: 11, offset: 53595},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1644, col: 18, offset: 53359},
+																					pos: position{line: 1651, col: 18, offset: 53602},
 																					expr: &litMatcher{
-																						pos:        position{line: 1644, col: 19, offset: 53360},
+																						pos:        position{line: 1651, col: 19, offset: 53603},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -30217,16 +30250,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1647, col: 7, offset: 53450},
+																	pos: position{line: 1654, col: 7, offset: 53693},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2872, col: 11, offset: 90879},
+																	pos: position{line: 2887, col: 11, offset: 91347},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2872, col: 11, offset: 90879},
+																		pos: position{line: 2887, col: 11, offset: 91347},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 11, offset: 90879},
+																			pos:        position{line: 2887, col: 11, offset: 91347},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30239,56 +30272,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1636, col: 5, offset: 53090},
+													pos:   position{line: 1643, col: 5, offset: 53333},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1636, col: 16, offset: 53101},
+														pos: position{line: 1643, col: 16, offset: 53344},
 														expr: &actionExpr{
-															pos: position{line: 1657, col: 5, offset: 53715},
+															pos: position{line: 1664, col: 5, offset: 53958},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1657, col: 5, offset: 53715},
+																pos: position{line: 1664, col: 5, offset: 53958},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1657, col: 5, offset: 53715},
+																		pos: position{line: 1664, col: 5, offset: 53958},
 																		expr: &litMatcher{
-																			pos:        position{line: 1657, col: 6, offset: 53716},
+																			pos:        position{line: 1664, col: 6, offset: 53959},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1657, col: 10, offset: 53720},
+																		pos:   position{line: 1664, col: 10, offset: 53963},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1658, col: 7, offset: 53734},
+																			pos: position{line: 1665, col: 7, offset: 53977},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1658, col: 7, offset: 53734},
+																					pos: position{line: 1665, col: 7, offset: 53977},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1658, col: 7, offset: 53734},
+																						pos:        position{line: 1665, col: 7, offset: 53977},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1659, col: 7, offset: 53779},
+																					pos: position{line: 1666, col: 7, offset: 54022},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1659, col: 7, offset: 53779},
+																						pos:        position{line: 1666, col: 7, offset: 54022},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1660, col: 7, offset: 53822},
+																					pos: position{line: 1667, col: 7, offset: 54065},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1660, col: 7, offset: 53822},
+																						pos:        position{line: 1667, col: 7, offset: 54065},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -30298,12 +30331,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2872, col: 11, offset: 90879},
+																		pos: position{line: 2887, col: 11, offset: 91347},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2872, col: 11, offset: 90879},
+																			pos: position{line: 2887, col: 11, offset: 91347},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2872, col: 11, offset: 90879},
+																				pos:        position{line: 2887, col: 11, offset: 91347},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30317,26 +30350,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1637, col: 5, offset: 53140},
+													pos:   position{line: 1644, col: 5, offset: 53383},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1533, col: 5, offset: 49658},
+														pos: position{line: 1540, col: 5, offset: 49901},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1533, col: 5, offset: 49658},
+															pos: position{line: 1540, col: 5, offset: 49901},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1533, col: 5, offset: 49658},
+																	pos:   position{line: 1540, col: 5, offset: 49901},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1533, col: 14, offset: 49667},
+																		pos: position{line: 1540, col: 14, offset: 49910},
 																		expr: &actionExpr{
-																			pos: position{line: 1533, col: 15, offset: 49668},
+																			pos: position{line: 1540, col: 15, offset: 49911},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1533, col: 15, offset: 49668},
+																				pos: position{line: 1540, col: 15, offset: 49911},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1533, col: 15, offset: 49668},
+																					pos:        position{line: 1540, col: 15, offset: 49911},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30347,28 +30380,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30377,9 +30410,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -30392,36 +30425,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1726, col: 5, offset: 55694},
+										pos: position{line: 1733, col: 5, offset: 55937},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1726, col: 5, offset: 55694},
+											pos: position{line: 1733, col: 5, offset: 55937},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1726, col: 5, offset: 55694},
+													pos:   position{line: 1733, col: 5, offset: 55937},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1732, col: 5, offset: 55891},
+														pos: position{line: 1739, col: 5, offset: 56134},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1732, col: 5, offset: 55891},
+															pos: position{line: 1739, col: 5, offset: 56134},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1732, col: 5, offset: 55891},
+																	pos:        position{line: 1739, col: 5, offset: 56134},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1732, col: 9, offset: 55895},
+																	pos:   position{line: 1739, col: 9, offset: 56138},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1732, col: 14, offset: 55900},
+																		pos: position{line: 1739, col: 14, offset: 56143},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1732, col: 14, offset: 55900},
+																			pos: position{line: 1739, col: 14, offset: 56143},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1732, col: 14, offset: 55900},
+																				pos:        position{line: 1739, col: 14, offset: 56143},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30431,18 +30464,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1732, col: 62, offset: 55948},
+																	pos:        position{line: 1739, col: 62, offset: 56191},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2872, col: 11, offset: 90879},
+																	pos: position{line: 2887, col: 11, offset: 91347},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2872, col: 11, offset: 90879},
+																		pos: position{line: 2887, col: 11, offset: 91347},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 11, offset: 90879},
+																			pos:        position{line: 2887, col: 11, offset: 91347},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30455,26 +30488,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1727, col: 5, offset: 55730},
+													pos:   position{line: 1734, col: 5, offset: 55973},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1533, col: 5, offset: 49658},
+														pos: position{line: 1540, col: 5, offset: 49901},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1533, col: 5, offset: 49658},
+															pos: position{line: 1540, col: 5, offset: 49901},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1533, col: 5, offset: 49658},
+																	pos:   position{line: 1540, col: 5, offset: 49901},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1533, col: 14, offset: 49667},
+																		pos: position{line: 1540, col: 14, offset: 49910},
 																		expr: &actionExpr{
-																			pos: position{line: 1533, col: 15, offset: 49668},
+																			pos: position{line: 1540, col: 15, offset: 49911},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1533, col: 15, offset: 49668},
+																				pos: position{line: 1540, col: 15, offset: 49911},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1533, col: 15, offset: 49668},
+																					pos:        position{line: 1540, col: 15, offset: 49911},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30485,28 +30518,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30515,9 +30548,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -30530,35 +30563,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1669, col: 5, offset: 54015},
+										pos: position{line: 1676, col: 5, offset: 54258},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1669, col: 5, offset: 54015},
+											pos: position{line: 1676, col: 5, offset: 54258},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1669, col: 5, offset: 54015},
+													pos:   position{line: 1676, col: 5, offset: 54258},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1677, col: 5, offset: 54341},
+														pos: position{line: 1684, col: 5, offset: 54584},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1677, col: 5, offset: 54341},
+															pos: position{line: 1684, col: 5, offset: 54584},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1677, col: 5, offset: 54341},
+																	pos: position{line: 1684, col: 5, offset: 54584},
 																	expr: &seqExpr{
-																		pos: position{line: 2483, col: 31, offset: 79982},
+																		pos: position{line: 2498, col: 31, offset: 80450},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2483, col: 31, offset: 79982},
+																				pos:        position{line: 2498, col: 31, offset: 80450},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2483, col: 36, offset: 79987},
+																				pos: position{line: 2498, col: 36, offset: 80455},
 																				expr: &litMatcher{
-																					pos:        position{line: 2483, col: 37, offset: 79988},
+																					pos:        position{line: 2498, col: 37, offset: 80456},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -30568,28 +30601,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1678, col: 5, offset: 54373},
+																	pos: position{line: 1685, col: 5, offset: 54616},
 																	expr: &seqExpr{
-																		pos: position{line: 1678, col: 6, offset: 54374},
+																		pos: position{line: 1685, col: 6, offset: 54617},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1678, col: 6, offset: 54374},
+																				pos: position{line: 1685, col: 6, offset: 54617},
 																				expr: &actionExpr{
-																					pos: position{line: 1683, col: 5, offset: 54524},
+																					pos: position{line: 1690, col: 5, offset: 54767},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1683, col: 5, offset: 54524},
+																						pos: position{line: 1690, col: 5, offset: 54767},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1683, col: 5, offset: 54524},
+																								pos:   position{line: 1690, col: 5, offset: 54767},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1683, col: 16, offset: 54535},
+																									pos: position{line: 1690, col: 16, offset: 54778},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1683, col: 16, offset: 54535},
+																										pos: position{line: 1690, col: 16, offset: 54778},
 																										expr: &litMatcher{
-																											pos:        position{line: 1683, col: 17, offset: 54536},
+																											pos:        position{line: 1690, col: 17, offset: 54779},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -30598,7 +30631,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1686, col: 5, offset: 54593},
+																								pos: position{line: 1693, col: 5, offset: 54836},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -30606,30 +30639,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1678, col: 35, offset: 54403},
+																				pos: position{line: 1685, col: 35, offset: 54646},
 																				expr: &choiceExpr{
-																					pos: position{line: 2890, col: 8, offset: 91216},
+																					pos: position{line: 2905, col: 8, offset: 91684},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2877, col: 12, offset: 90989},
+																							pos: position{line: 2892, col: 12, offset: 91457},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2877, col: 13, offset: 90990},
+																								pos: position{line: 2892, col: 13, offset: 91458},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 13, offset: 90990},
+																										pos:        position{line: 2892, col: 13, offset: 91458},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 20, offset: 90997},
+																										pos:        position{line: 2892, col: 20, offset: 91465},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 29, offset: 91006},
+																										pos:        position{line: 2892, col: 29, offset: 91474},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30638,16 +30671,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2887, col: 8, offset: 91166},
+																							pos: position{line: 2902, col: 8, offset: 91634},
 																							expr: &anyMatcher{
-																								line: 2887, col: 9, offset: 91167,
+																								line: 2902, col: 9, offset: 91635,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1678, col: 40, offset: 54408,
+																				line: 1685, col: 40, offset: 54651,
 																			},
 																		},
 																	},
@@ -30657,24 +30690,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1670, col: 5, offset: 54050},
+													pos:   position{line: 1677, col: 5, offset: 54293},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1683, col: 5, offset: 54524},
+														pos: position{line: 1690, col: 5, offset: 54767},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1683, col: 5, offset: 54524},
+															pos: position{line: 1690, col: 5, offset: 54767},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1683, col: 5, offset: 54524},
+																	pos:   position{line: 1690, col: 5, offset: 54767},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1683, col: 16, offset: 54535},
+																		pos: position{line: 1690, col: 16, offset: 54778},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1683, col: 16, offset: 54535},
+																			pos: position{line: 1690, col: 16, offset: 54778},
 																			expr: &litMatcher{
-																				pos:        position{line: 1683, col: 17, offset: 54536},
+																				pos:        position{line: 1690, col: 17, offset: 54779},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30683,7 +30716,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1686, col: 5, offset: 54593},
+																	pos: position{line: 1693, col: 5, offset: 54836},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -30691,24 +30724,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1671, col: 5, offset: 54095},
+													pos:   position{line: 1678, col: 5, offset: 54338},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1694, col: 5, offset: 54842},
+														pos: position{line: 1701, col: 5, offset: 55085},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1696, col: 9, offset: 54908},
+																pos: position{line: 1703, col: 9, offset: 55151},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1696, col: 9, offset: 54908},
+																	pos: position{line: 1703, col: 9, offset: 55151},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1696, col: 9, offset: 54908},
+																			pos: position{line: 1703, col: 9, offset: 55151},
 																			expr: &actionExpr{
-																				pos: position{line: 2868, col: 10, offset: 90818},
+																				pos: position{line: 2883, col: 10, offset: 91286},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 10, offset: 90818},
+																					pos:        position{line: 2883, col: 10, offset: 91286},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30717,28 +30750,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2890, col: 8, offset: 91216},
+																			pos: position{line: 2905, col: 8, offset: 91684},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2877, col: 12, offset: 90989},
+																					pos: position{line: 2892, col: 12, offset: 91457},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2877, col: 13, offset: 90990},
+																						pos: position{line: 2892, col: 13, offset: 91458},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 13, offset: 90990},
+																								pos:        position{line: 2892, col: 13, offset: 91458},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 20, offset: 90997},
+																								pos:        position{line: 2892, col: 20, offset: 91465},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 29, offset: 91006},
+																								pos:        position{line: 2892, col: 29, offset: 91474},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30747,34 +30780,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1697, col: 9, offset: 54927},
+																			pos: position{line: 1704, col: 9, offset: 55170},
 																			expr: &actionExpr{
-																				pos: position{line: 680, col: 14, offset: 21592},
+																				pos: position{line: 687, col: 14, offset: 21835},
 																				run: (*parser).callonListContinuationElement201,
 																				expr: &seqExpr{
-																					pos: position{line: 680, col: 14, offset: 21592},
+																					pos: position{line: 687, col: 14, offset: 21835},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2885, col: 11, offset: 91152},
+																							pos: position{line: 2900, col: 11, offset: 91620},
 																							expr: &anyMatcher{
-																								line: 2885, col: 13, offset: 91154,
+																								line: 2900, col: 13, offset: 91622,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 680, col: 21, offset: 21599},
+																							pos: position{line: 687, col: 21, offset: 21842},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30783,28 +30816,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30813,9 +30846,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -30828,18 +30861,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1703, col: 9, offset: 55056},
+																pos: position{line: 1710, col: 9, offset: 55299},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1703, col: 9, offset: 55056},
+																	pos: position{line: 1710, col: 9, offset: 55299},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2872, col: 11, offset: 90879},
+																			pos: position{line: 2887, col: 11, offset: 91347},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2872, col: 11, offset: 90879},
+																				pos: position{line: 2887, col: 11, offset: 91347},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2872, col: 11, offset: 90879},
+																					pos:        position{line: 2887, col: 11, offset: 91347},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30848,15 +30881,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1704, col: 9, offset: 55129},
+																			pos:   position{line: 1711, col: 9, offset: 55372},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1704, col: 18, offset: 55138},
+																				pos: position{line: 1711, col: 18, offset: 55381},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1704, col: 18, offset: 55138},
+																					pos: position{line: 1711, col: 18, offset: 55381},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1704, col: 18, offset: 55138},
+																						pos:        position{line: 1711, col: 18, offset: 55381},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -30866,28 +30899,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2890, col: 8, offset: 91216},
+																			pos: position{line: 2905, col: 8, offset: 91684},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2877, col: 12, offset: 90989},
+																					pos: position{line: 2892, col: 12, offset: 91457},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2877, col: 13, offset: 90990},
+																						pos: position{line: 2892, col: 13, offset: 91458},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 13, offset: 90990},
+																								pos:        position{line: 2892, col: 13, offset: 91458},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 20, offset: 90997},
+																								pos:        position{line: 2892, col: 20, offset: 91465},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 29, offset: 91006},
+																								pos:        position{line: 2892, col: 29, offset: 91474},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30896,9 +30929,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
@@ -30916,41 +30949,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1556, col: 5, offset: 50277},
+							pos:   position{line: 1563, col: 5, offset: 50520},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1556, col: 16, offset: 50288},
+								pos: position{line: 1563, col: 16, offset: 50531},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1556, col: 17, offset: 50289},
+									pos:  position{line: 1563, col: 17, offset: 50532},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1557, col: 5, offset: 50311},
+							pos:   position{line: 1564, col: 5, offset: 50554},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1558, col: 9, offset: 50329},
+								pos: position{line: 1565, col: 9, offset: 50572},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 680, col: 14, offset: 21592},
+										pos: position{line: 687, col: 14, offset: 21835},
 										run: (*parser).callonListContinuationElement238,
 										expr: &seqExpr{
-											pos: position{line: 680, col: 14, offset: 21592},
+											pos: position{line: 687, col: 14, offset: 21835},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2885, col: 11, offset: 91152},
+													pos: position{line: 2900, col: 11, offset: 91620},
 													expr: &anyMatcher{
-														line: 2885, col: 13, offset: 91154,
+														line: 2900, col: 13, offset: 91622,
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 680, col: 21, offset: 21599},
+													pos: position{line: 687, col: 21, offset: 21842},
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 10, offset: 90818},
+														pos: position{line: 2883, col: 10, offset: 91286},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2868, col: 10, offset: 90818},
+															pos:        position{line: 2883, col: 10, offset: 91286},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30959,28 +30992,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2890, col: 8, offset: 91216},
+													pos: position{line: 2905, col: 8, offset: 91684},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2877, col: 12, offset: 90989},
+															pos: position{line: 2892, col: 12, offset: 91457},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2877, col: 13, offset: 90990},
+																pos: position{line: 2892, col: 13, offset: 91458},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 13, offset: 90990},
+																		pos:        position{line: 2892, col: 13, offset: 91458},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 20, offset: 90997},
+																		pos:        position{line: 2892, col: 20, offset: 91465},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 29, offset: 91006},
+																		pos:        position{line: 2892, col: 29, offset: 91474},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -30989,9 +31022,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2887, col: 8, offset: 91166},
+															pos: position{line: 2902, col: 8, offset: 91634},
 															expr: &anyMatcher{
-																line: 2887, col: 9, offset: 91167,
+																line: 2902, col: 9, offset: 91635,
 															},
 														},
 													},
@@ -31000,23 +31033,23 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1559, col: 11, offset: 50349},
+										pos:  position{line: 1566, col: 11, offset: 50592},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
-										pos: position{line: 360, col: 19, offset: 10910},
+										pos: position{line: 367, col: 19, offset: 11153},
 										run: (*parser).callonListContinuationElement254,
 										expr: &seqExpr{
-											pos: position{line: 360, col: 19, offset: 10910},
+											pos: position{line: 367, col: 19, offset: 11153},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 360, col: 19, offset: 10910},
+													pos:        position{line: 367, col: 19, offset: 11153},
 													val:        ":!",
 													ignoreCase: false,
 													want:       "\":!\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 360, col: 24, offset: 10915},
+													pos:   position{line: 367, col: 24, offset: 11158},
 													label: "name",
 													expr: &actionExpr{
 														pos: position{line: 318, col: 18, offset: 9736},
@@ -31048,18 +31081,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 360, col: 45, offset: 10936},
+													pos:        position{line: 367, col: 45, offset: 11179},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 360, col: 49, offset: 10940},
+													pos: position{line: 367, col: 49, offset: 11183},
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 10, offset: 90818},
+														pos: position{line: 2883, col: 10, offset: 91286},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2868, col: 10, offset: 90818},
+															pos:        position{line: 2883, col: 10, offset: 91286},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31068,28 +31101,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2890, col: 8, offset: 91216},
+													pos: position{line: 2905, col: 8, offset: 91684},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2877, col: 12, offset: 90989},
+															pos: position{line: 2892, col: 12, offset: 91457},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2877, col: 13, offset: 90990},
+																pos: position{line: 2892, col: 13, offset: 91458},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 13, offset: 90990},
+																		pos:        position{line: 2892, col: 13, offset: 91458},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 20, offset: 90997},
+																		pos:        position{line: 2892, col: 20, offset: 91465},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 29, offset: 91006},
+																		pos:        position{line: 2892, col: 29, offset: 91474},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31098,9 +31131,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2887, col: 8, offset: 91166},
+															pos: position{line: 2902, col: 8, offset: 91634},
 															expr: &anyMatcher{
-																line: 2887, col: 9, offset: 91167,
+																line: 2902, col: 9, offset: 91635,
 															},
 														},
 													},
@@ -31109,19 +31142,19 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 362, col: 9, offset: 11031},
+										pos: position{line: 369, col: 9, offset: 11274},
 										run: (*parser).callonListContinuationElement275,
 										expr: &seqExpr{
-											pos: position{line: 362, col: 9, offset: 11031},
+											pos: position{line: 369, col: 9, offset: 11274},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 362, col: 9, offset: 11031},
+													pos:        position{line: 369, col: 9, offset: 11274},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 362, col: 13, offset: 11035},
+													pos:   position{line: 369, col: 13, offset: 11278},
 													label: "name",
 													expr: &actionExpr{
 														pos: position{line: 318, col: 18, offset: 9736},
@@ -31153,18 +31186,18 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 362, col: 34, offset: 11056},
+													pos:        position{line: 369, col: 34, offset: 11299},
 													val:        "!:",
 													ignoreCase: false,
 													want:       "\"!:\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 362, col: 39, offset: 11061},
+													pos: position{line: 369, col: 39, offset: 11304},
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 10, offset: 90818},
+														pos: position{line: 2883, col: 10, offset: 91286},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2868, col: 10, offset: 90818},
+															pos:        position{line: 2883, col: 10, offset: 91286},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31173,28 +31206,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2890, col: 8, offset: 91216},
+													pos: position{line: 2905, col: 8, offset: 91684},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2877, col: 12, offset: 90989},
+															pos: position{line: 2892, col: 12, offset: 91457},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2877, col: 13, offset: 90990},
+																pos: position{line: 2892, col: 13, offset: 91458},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 13, offset: 90990},
+																		pos:        position{line: 2892, col: 13, offset: 91458},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 20, offset: 90997},
+																		pos:        position{line: 2892, col: 20, offset: 91465},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 29, offset: 91006},
+																		pos:        position{line: 2892, col: 29, offset: 91474},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31203,9 +31236,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2887, col: 8, offset: 91166},
+															pos: position{line: 2902, col: 8, offset: 91634},
 															expr: &anyMatcher{
-																line: 2887, col: 9, offset: 91167,
+																line: 2902, col: 9, offset: 91635,
 															},
 														},
 													},
@@ -31214,39 +31247,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 823, col: 5, offset: 26427},
+										pos: position{line: 830, col: 5, offset: 26670},
 										run: (*parser).callonListContinuationElement296,
 										expr: &seqExpr{
-											pos: position{line: 823, col: 5, offset: 26427},
+											pos: position{line: 830, col: 5, offset: 26670},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 823, col: 5, offset: 26427},
+													pos:   position{line: 830, col: 5, offset: 26670},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 743, col: 5, offset: 23687},
+														pos: position{line: 750, col: 5, offset: 23930},
 														run: (*parser).callonListContinuationElement299,
 														expr: &seqExpr{
-															pos: position{line: 743, col: 5, offset: 23687},
+															pos: position{line: 750, col: 5, offset: 23930},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 743, col: 5, offset: 23687},
+																	pos:   position{line: 750, col: 5, offset: 23930},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 743, col: 16, offset: 23698},
+																		pos: position{line: 750, col: 16, offset: 23941},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &seqExpr{
-																			pos: position{line: 743, col: 16, offset: 23698},
+																			pos: position{line: 750, col: 16, offset: 23941},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 743, col: 16, offset: 23698},
+																					pos:        position{line: 750, col: 16, offset: 23941},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 743, col: 23, offset: 23705},
+																					pos: position{line: 750, col: 23, offset: 23948},
 																					expr: &litMatcher{
-																						pos:        position{line: 743, col: 23, offset: 23705},
+																						pos:        position{line: 750, col: 23, offset: 23948},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -31257,12 +31290,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 745, col: 8, offset: 23789},
+																	pos: position{line: 752, col: 8, offset: 24032},
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 10, offset: 90818},
+																		pos: position{line: 2883, col: 10, offset: 91286},
 																		run: (*parser).callonListContinuationElement308,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90818},
+																			pos:        position{line: 2883, col: 10, offset: 91286},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31271,28 +31304,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonListContinuationElement311,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31301,9 +31334,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -31313,56 +31346,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 824, col: 5, offset: 26466},
+													pos: position{line: 831, col: 5, offset: 26709},
 													run: (*parser).callonListContinuationElement318,
 												},
 												&labeledExpr{
-													pos:   position{line: 827, col: 5, offset: 26558},
+													pos:   position{line: 834, col: 5, offset: 26801},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 842, col: 5, offset: 26956},
+														pos: position{line: 849, col: 5, offset: 27199},
 														expr: &actionExpr{
-															pos: position{line: 842, col: 6, offset: 26957},
+															pos: position{line: 849, col: 6, offset: 27200},
 															run: (*parser).callonListContinuationElement321,
 															expr: &seqExpr{
-																pos: position{line: 842, col: 6, offset: 26957},
+																pos: position{line: 849, col: 6, offset: 27200},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 842, col: 6, offset: 26957},
+																		pos: position{line: 849, col: 6, offset: 27200},
 																		expr: &choiceExpr{
-																			pos: position{line: 835, col: 5, offset: 26798},
+																			pos: position{line: 842, col: 5, offset: 27041},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 835, col: 5, offset: 26798},
+																					pos: position{line: 842, col: 5, offset: 27041},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 835, col: 5, offset: 26798},
+																							pos:   position{line: 842, col: 5, offset: 27041},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 743, col: 5, offset: 23687},
+																								pos: position{line: 750, col: 5, offset: 23930},
 																								run: (*parser).callonListContinuationElement327,
 																								expr: &seqExpr{
-																									pos: position{line: 743, col: 5, offset: 23687},
+																									pos: position{line: 750, col: 5, offset: 23930},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 743, col: 5, offset: 23687},
+																											pos:   position{line: 750, col: 5, offset: 23930},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 743, col: 16, offset: 23698},
+																												pos: position{line: 750, col: 16, offset: 23941},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &seqExpr{
-																													pos: position{line: 743, col: 16, offset: 23698},
+																													pos: position{line: 750, col: 16, offset: 23941},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 743, col: 16, offset: 23698},
+																															pos:        position{line: 750, col: 16, offset: 23941},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 743, col: 23, offset: 23705},
+																															pos: position{line: 750, col: 23, offset: 23948},
 																															expr: &litMatcher{
-																																pos:        position{line: 743, col: 23, offset: 23705},
+																																pos:        position{line: 750, col: 23, offset: 23948},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -31373,12 +31406,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 745, col: 8, offset: 23789},
+																											pos: position{line: 752, col: 8, offset: 24032},
 																											expr: &actionExpr{
-																												pos: position{line: 2868, col: 10, offset: 90818},
+																												pos: position{line: 2883, col: 10, offset: 91286},
 																												run: (*parser).callonListContinuationElement336,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 10, offset: 90818},
+																													pos:        position{line: 2883, col: 10, offset: 91286},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31387,28 +31420,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2890, col: 8, offset: 91216},
+																											pos: position{line: 2905, col: 8, offset: 91684},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2877, col: 12, offset: 90989},
+																													pos: position{line: 2892, col: 12, offset: 91457},
 																													run: (*parser).callonListContinuationElement339,
 																													expr: &choiceExpr{
-																														pos: position{line: 2877, col: 13, offset: 90990},
+																														pos: position{line: 2892, col: 13, offset: 91458},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31417,9 +31450,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2887, col: 8, offset: 91166},
+																													pos: position{line: 2902, col: 8, offset: 91634},
 																													expr: &anyMatcher{
-																														line: 2887, col: 9, offset: 91167,
+																														line: 2902, col: 9, offset: 91635,
 																													},
 																												},
 																											},
@@ -31429,45 +31462,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 836, col: 5, offset: 26829},
+																							pos: position{line: 843, col: 5, offset: 27072},
 																							run: (*parser).callonListContinuationElement346,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 843, col: 5, offset: 26987},
+																		pos:   position{line: 850, col: 5, offset: 27230},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26191},
+																			pos: position{line: 821, col: 5, offset: 26434},
 																			run: (*parser).callonListContinuationElement350,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26191},
+																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2885, col: 11, offset: 91152},
+																						pos: position{line: 2900, col: 11, offset: 91620},
 																						expr: &anyMatcher{
-																							line: 2885, col: 13, offset: 91154,
+																							line: 2900, col: 13, offset: 91622,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26266},
+																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2814, col: 13, offset: 89344},
+																							pos: position{line: 2829, col: 13, offset: 89812},
 																							run: (*parser).callonListContinuationElement355,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2814, col: 13, offset: 89344},
+																								pos: position{line: 2829, col: 13, offset: 89812},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2814, col: 13, offset: 89344},
+																									pos:        position{line: 2829, col: 13, offset: 89812},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31477,28 +31510,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2890, col: 8, offset: 91216},
+																						pos: position{line: 2905, col: 8, offset: 91684},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2877, col: 12, offset: 90989},
+																								pos: position{line: 2892, col: 12, offset: 91457},
 																								run: (*parser).callonListContinuationElement359,
 																								expr: &choiceExpr{
-																									pos: position{line: 2877, col: 13, offset: 90990},
+																									pos: position{line: 2892, col: 13, offset: 91458},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 13, offset: 90990},
+																											pos:        position{line: 2892, col: 13, offset: 91458},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 20, offset: 90997},
+																											pos:        position{line: 2892, col: 20, offset: 91465},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 29, offset: 91006},
+																											pos:        position{line: 2892, col: 29, offset: 91474},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31507,9 +31540,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2887, col: 8, offset: 91166},
+																								pos: position{line: 2902, col: 8, offset: 91634},
 																								expr: &anyMatcher{
-																									line: 2887, col: 9, offset: 91167,
+																									line: 2902, col: 9, offset: 91635,
 																								},
 																							},
 																						},
@@ -31524,44 +31557,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 828, col: 5, offset: 26592},
+													pos:   position{line: 835, col: 5, offset: 26835},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 828, col: 9, offset: 26596},
+														pos: position{line: 835, col: 9, offset: 26839},
 														expr: &choiceExpr{
-															pos: position{line: 835, col: 5, offset: 26798},
+															pos: position{line: 842, col: 5, offset: 27041},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 835, col: 5, offset: 26798},
+																	pos: position{line: 842, col: 5, offset: 27041},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 835, col: 5, offset: 26798},
+																			pos:   position{line: 842, col: 5, offset: 27041},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 743, col: 5, offset: 23687},
+																				pos: position{line: 750, col: 5, offset: 23930},
 																				run: (*parser).callonListContinuationElement371,
 																				expr: &seqExpr{
-																					pos: position{line: 743, col: 5, offset: 23687},
+																					pos: position{line: 750, col: 5, offset: 23930},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 743, col: 5, offset: 23687},
+																							pos:   position{line: 750, col: 5, offset: 23930},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 743, col: 16, offset: 23698},
+																								pos: position{line: 750, col: 16, offset: 23941},
 																								run: (*parser).callonListContinuationElement374,
 																								expr: &seqExpr{
-																									pos: position{line: 743, col: 16, offset: 23698},
+																									pos: position{line: 750, col: 16, offset: 23941},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 743, col: 16, offset: 23698},
+																											pos:        position{line: 750, col: 16, offset: 23941},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 743, col: 23, offset: 23705},
+																											pos: position{line: 750, col: 23, offset: 23948},
 																											expr: &litMatcher{
-																												pos:        position{line: 743, col: 23, offset: 23705},
+																												pos:        position{line: 750, col: 23, offset: 23948},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -31572,12 +31605,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 745, col: 8, offset: 23789},
+																							pos: position{line: 752, col: 8, offset: 24032},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonListContinuationElement380,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31586,28 +31619,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonListContinuationElement383,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31616,9 +31649,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -31628,15 +31661,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 836, col: 5, offset: 26829},
+																			pos: position{line: 843, col: 5, offset: 27072},
 																			run: (*parser).callonListContinuationElement390,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2887, col: 8, offset: 91166},
+																	pos: position{line: 2902, col: 8, offset: 91634},
 																	expr: &anyMatcher{
-																		line: 2887, col: 9, offset: 91167,
+																		line: 2902, col: 9, offset: 91635,
 																	},
 																},
 															},
@@ -31647,39 +31680,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 851, col: 5, offset: 27140},
+										pos: position{line: 858, col: 5, offset: 27383},
 										run: (*parser).callonListContinuationElement393,
 										expr: &seqExpr{
-											pos: position{line: 851, col: 5, offset: 27140},
+											pos: position{line: 858, col: 5, offset: 27383},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 851, col: 5, offset: 27140},
+													pos:   position{line: 858, col: 5, offset: 27383},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 750, col: 5, offset: 23935},
+														pos: position{line: 757, col: 5, offset: 24178},
 														run: (*parser).callonListContinuationElement396,
 														expr: &seqExpr{
-															pos: position{line: 750, col: 5, offset: 23935},
+															pos: position{line: 757, col: 5, offset: 24178},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 750, col: 5, offset: 23935},
+																	pos:   position{line: 757, col: 5, offset: 24178},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 750, col: 16, offset: 23946},
+																		pos: position{line: 757, col: 16, offset: 24189},
 																		run: (*parser).callonListContinuationElement399,
 																		expr: &seqExpr{
-																			pos: position{line: 750, col: 16, offset: 23946},
+																			pos: position{line: 757, col: 16, offset: 24189},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 750, col: 16, offset: 23946},
+																					pos:        position{line: 757, col: 16, offset: 24189},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 750, col: 23, offset: 23953},
+																					pos: position{line: 757, col: 23, offset: 24196},
 																					expr: &litMatcher{
-																						pos:        position{line: 750, col: 23, offset: 23953},
+																						pos:        position{line: 757, col: 23, offset: 24196},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -31690,12 +31723,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 752, col: 8, offset: 24037},
+																	pos: position{line: 759, col: 8, offset: 24280},
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 10, offset: 90818},
+																		pos: position{line: 2883, col: 10, offset: 91286},
 																		run: (*parser).callonListContinuationElement405,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90818},
+																			pos:        position{line: 2883, col: 10, offset: 91286},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31704,28 +31737,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonListContinuationElement408,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31734,9 +31767,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -31746,56 +31779,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 852, col: 5, offset: 27179},
+													pos: position{line: 859, col: 5, offset: 27422},
 													run: (*parser).callonListContinuationElement415,
 												},
 												&labeledExpr{
-													pos:   position{line: 855, col: 5, offset: 27271},
+													pos:   position{line: 862, col: 5, offset: 27514},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 870, col: 4, offset: 27668},
+														pos: position{line: 877, col: 4, offset: 27911},
 														expr: &actionExpr{
-															pos: position{line: 870, col: 5, offset: 27669},
+															pos: position{line: 877, col: 5, offset: 27912},
 															run: (*parser).callonListContinuationElement418,
 															expr: &seqExpr{
-																pos: position{line: 870, col: 5, offset: 27669},
+																pos: position{line: 877, col: 5, offset: 27912},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 870, col: 5, offset: 27669},
+																		pos: position{line: 877, col: 5, offset: 27912},
 																		expr: &choiceExpr{
-																			pos: position{line: 863, col: 5, offset: 27511},
+																			pos: position{line: 870, col: 5, offset: 27754},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 863, col: 5, offset: 27511},
+																					pos: position{line: 870, col: 5, offset: 27754},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 863, col: 5, offset: 27511},
+																							pos:   position{line: 870, col: 5, offset: 27754},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 750, col: 5, offset: 23935},
+																								pos: position{line: 757, col: 5, offset: 24178},
 																								run: (*parser).callonListContinuationElement424,
 																								expr: &seqExpr{
-																									pos: position{line: 750, col: 5, offset: 23935},
+																									pos: position{line: 757, col: 5, offset: 24178},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 750, col: 5, offset: 23935},
+																											pos:   position{line: 757, col: 5, offset: 24178},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 750, col: 16, offset: 23946},
+																												pos: position{line: 757, col: 16, offset: 24189},
 																												run: (*parser).callonListContinuationElement427,
 																												expr: &seqExpr{
-																													pos: position{line: 750, col: 16, offset: 23946},
+																													pos: position{line: 757, col: 16, offset: 24189},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 750, col: 16, offset: 23946},
+																															pos:        position{line: 757, col: 16, offset: 24189},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 750, col: 23, offset: 23953},
+																															pos: position{line: 757, col: 23, offset: 24196},
 																															expr: &litMatcher{
-																																pos:        position{line: 750, col: 23, offset: 23953},
+																																pos:        position{line: 757, col: 23, offset: 24196},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -31806,12 +31839,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 752, col: 8, offset: 24037},
+																											pos: position{line: 759, col: 8, offset: 24280},
 																											expr: &actionExpr{
-																												pos: position{line: 2868, col: 10, offset: 90818},
+																												pos: position{line: 2883, col: 10, offset: 91286},
 																												run: (*parser).callonListContinuationElement433,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 10, offset: 90818},
+																													pos:        position{line: 2883, col: 10, offset: 91286},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31820,28 +31853,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2890, col: 8, offset: 91216},
+																											pos: position{line: 2905, col: 8, offset: 91684},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2877, col: 12, offset: 90989},
+																													pos: position{line: 2892, col: 12, offset: 91457},
 																													run: (*parser).callonListContinuationElement436,
 																													expr: &choiceExpr{
-																														pos: position{line: 2877, col: 13, offset: 90990},
+																														pos: position{line: 2892, col: 13, offset: 91458},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31850,9 +31883,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2887, col: 8, offset: 91166},
+																													pos: position{line: 2902, col: 8, offset: 91634},
 																													expr: &anyMatcher{
-																														line: 2887, col: 9, offset: 91167,
+																														line: 2902, col: 9, offset: 91635,
 																													},
 																												},
 																											},
@@ -31862,45 +31895,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 864, col: 5, offset: 27542},
+																							pos: position{line: 871, col: 5, offset: 27785},
 																							run: (*parser).callonListContinuationElement443,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 871, col: 5, offset: 27699},
+																		pos:   position{line: 878, col: 5, offset: 27942},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26191},
+																			pos: position{line: 821, col: 5, offset: 26434},
 																			run: (*parser).callonListContinuationElement447,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26191},
+																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2885, col: 11, offset: 91152},
+																						pos: position{line: 2900, col: 11, offset: 91620},
 																						expr: &anyMatcher{
-																							line: 2885, col: 13, offset: 91154,
+																							line: 2900, col: 13, offset: 91622,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26266},
+																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2814, col: 13, offset: 89344},
+																							pos: position{line: 2829, col: 13, offset: 89812},
 																							run: (*parser).callonListContinuationElement452,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2814, col: 13, offset: 89344},
+																								pos: position{line: 2829, col: 13, offset: 89812},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2814, col: 13, offset: 89344},
+																									pos:        position{line: 2829, col: 13, offset: 89812},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31910,28 +31943,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2890, col: 8, offset: 91216},
+																						pos: position{line: 2905, col: 8, offset: 91684},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2877, col: 12, offset: 90989},
+																								pos: position{line: 2892, col: 12, offset: 91457},
 																								run: (*parser).callonListContinuationElement456,
 																								expr: &choiceExpr{
-																									pos: position{line: 2877, col: 13, offset: 90990},
+																									pos: position{line: 2892, col: 13, offset: 91458},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 13, offset: 90990},
+																											pos:        position{line: 2892, col: 13, offset: 91458},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 20, offset: 90997},
+																											pos:        position{line: 2892, col: 20, offset: 91465},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 29, offset: 91006},
+																											pos:        position{line: 2892, col: 29, offset: 91474},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31940,9 +31973,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2887, col: 8, offset: 91166},
+																								pos: position{line: 2902, col: 8, offset: 91634},
 																								expr: &anyMatcher{
-																									line: 2887, col: 9, offset: 91167,
+																									line: 2902, col: 9, offset: 91635,
 																								},
 																							},
 																						},
@@ -31957,44 +31990,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 856, col: 5, offset: 27305},
+													pos:   position{line: 863, col: 5, offset: 27548},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 856, col: 9, offset: 27309},
+														pos: position{line: 863, col: 9, offset: 27552},
 														expr: &choiceExpr{
-															pos: position{line: 863, col: 5, offset: 27511},
+															pos: position{line: 870, col: 5, offset: 27754},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 863, col: 5, offset: 27511},
+																	pos: position{line: 870, col: 5, offset: 27754},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 863, col: 5, offset: 27511},
+																			pos:   position{line: 870, col: 5, offset: 27754},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 750, col: 5, offset: 23935},
+																				pos: position{line: 757, col: 5, offset: 24178},
 																				run: (*parser).callonListContinuationElement468,
 																				expr: &seqExpr{
-																					pos: position{line: 750, col: 5, offset: 23935},
+																					pos: position{line: 757, col: 5, offset: 24178},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 750, col: 5, offset: 23935},
+																							pos:   position{line: 757, col: 5, offset: 24178},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 750, col: 16, offset: 23946},
+																								pos: position{line: 757, col: 16, offset: 24189},
 																								run: (*parser).callonListContinuationElement471,
 																								expr: &seqExpr{
-																									pos: position{line: 750, col: 16, offset: 23946},
+																									pos: position{line: 757, col: 16, offset: 24189},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 750, col: 16, offset: 23946},
+																											pos:        position{line: 757, col: 16, offset: 24189},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 750, col: 23, offset: 23953},
+																											pos: position{line: 757, col: 23, offset: 24196},
 																											expr: &litMatcher{
-																												pos:        position{line: 750, col: 23, offset: 23953},
+																												pos:        position{line: 757, col: 23, offset: 24196},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -32005,12 +32038,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 752, col: 8, offset: 24037},
+																							pos: position{line: 759, col: 8, offset: 24280},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonListContinuationElement477,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32019,28 +32052,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonListContinuationElement480,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32049,9 +32082,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -32061,15 +32094,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 864, col: 5, offset: 27542},
+																			pos: position{line: 871, col: 5, offset: 27785},
 																			run: (*parser).callonListContinuationElement487,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2887, col: 8, offset: 91166},
+																	pos: position{line: 2902, col: 8, offset: 91634},
 																	expr: &anyMatcher{
-																		line: 2887, col: 9, offset: 91167,
+																		line: 2902, col: 9, offset: 91635,
 																	},
 																},
 															},
@@ -32080,36 +32113,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 963, col: 5, offset: 29991},
+										pos: position{line: 970, col: 5, offset: 30234},
 										run: (*parser).callonListContinuationElement490,
 										expr: &seqExpr{
-											pos: position{line: 963, col: 5, offset: 29991},
+											pos: position{line: 970, col: 5, offset: 30234},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 963, col: 5, offset: 29991},
+													pos:   position{line: 970, col: 5, offset: 30234},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 763, col: 26, offset: 24423},
+														pos: position{line: 770, col: 26, offset: 24666},
 														run: (*parser).callonListContinuationElement493,
 														expr: &seqExpr{
-															pos: position{line: 763, col: 26, offset: 24423},
+															pos: position{line: 770, col: 26, offset: 24666},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 763, col: 26, offset: 24423},
+																	pos:        position{line: 770, col: 26, offset: 24666},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 763, col: 32, offset: 24429},
+																	pos:   position{line: 770, col: 32, offset: 24672},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 767, col: 13, offset: 24559},
+																		pos: position{line: 774, col: 13, offset: 24802},
 																		run: (*parser).callonListContinuationElement497,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 767, col: 14, offset: 24560},
+																			pos: position{line: 774, col: 14, offset: 24803},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 767, col: 14, offset: 24560},
+																				pos:        position{line: 774, col: 14, offset: 24803},
 																				val:        "[^\\r\\n` ]",
 																				chars:      []rune{'\r', '\n', '`', ' '},
 																				ignoreCase: false,
@@ -32119,12 +32152,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 763, col: 52, offset: 24449},
+																	pos: position{line: 770, col: 52, offset: 24692},
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 10, offset: 90818},
+																		pos: position{line: 2883, col: 10, offset: 91286},
 																		run: (*parser).callonListContinuationElement501,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90818},
+																			pos:        position{line: 2883, col: 10, offset: 91286},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32133,28 +32166,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonListContinuationElement504,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32163,9 +32196,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -32175,34 +32208,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 964, col: 5, offset: 30037},
+													pos:   position{line: 971, col: 5, offset: 30280},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 977, col: 5, offset: 30510},
+														pos: position{line: 984, col: 5, offset: 30753},
 														expr: &actionExpr{
-															pos: position{line: 977, col: 6, offset: 30511},
+															pos: position{line: 984, col: 6, offset: 30754},
 															run: (*parser).callonListContinuationElement513,
 															expr: &seqExpr{
-																pos: position{line: 977, col: 6, offset: 30511},
+																pos: position{line: 984, col: 6, offset: 30754},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 977, col: 6, offset: 30511},
+																		pos: position{line: 984, col: 6, offset: 30754},
 																		expr: &seqExpr{
-																			pos: position{line: 974, col: 34, offset: 30458},
+																			pos: position{line: 981, col: 34, offset: 30701},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 974, col: 34, offset: 30458},
+																					pos:        position{line: 981, col: 34, offset: 30701},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 974, col: 40, offset: 30464},
+																					pos: position{line: 981, col: 40, offset: 30707},
 																					expr: &actionExpr{
-																						pos: position{line: 2868, col: 10, offset: 90818},
+																						pos: position{line: 2883, col: 10, offset: 91286},
 																						run: (*parser).callonListContinuationElement519,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 10, offset: 90818},
+																							pos:        position{line: 2883, col: 10, offset: 91286},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32211,28 +32244,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2890, col: 8, offset: 91216},
+																					pos: position{line: 2905, col: 8, offset: 91684},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2877, col: 12, offset: 90989},
+																							pos: position{line: 2892, col: 12, offset: 91457},
 																							run: (*parser).callonListContinuationElement522,
 																							expr: &choiceExpr{
-																								pos: position{line: 2877, col: 13, offset: 90990},
+																								pos: position{line: 2892, col: 13, offset: 91458},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 13, offset: 90990},
+																										pos:        position{line: 2892, col: 13, offset: 91458},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 20, offset: 90997},
+																										pos:        position{line: 2892, col: 20, offset: 91465},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 29, offset: 91006},
+																										pos:        position{line: 2892, col: 29, offset: 91474},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32241,9 +32274,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2887, col: 8, offset: 91166},
+																							pos: position{line: 2902, col: 8, offset: 91634},
 																							expr: &anyMatcher{
-																								line: 2887, col: 9, offset: 91167,
+																								line: 2902, col: 9, offset: 91635,
 																							},
 																						},
 																					},
@@ -32252,30 +32285,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 978, col: 5, offset: 30546},
+																		pos:   position{line: 985, col: 5, offset: 30789},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26191},
+																			pos: position{line: 821, col: 5, offset: 26434},
 																			run: (*parser).callonListContinuationElement530,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26191},
+																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2885, col: 11, offset: 91152},
+																						pos: position{line: 2900, col: 11, offset: 91620},
 																						expr: &anyMatcher{
-																							line: 2885, col: 13, offset: 91154,
+																							line: 2900, col: 13, offset: 91622,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26266},
+																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2814, col: 13, offset: 89344},
+																							pos: position{line: 2829, col: 13, offset: 89812},
 																							run: (*parser).callonListContinuationElement535,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2814, col: 13, offset: 89344},
+																								pos: position{line: 2829, col: 13, offset: 89812},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2814, col: 13, offset: 89344},
+																									pos:        position{line: 2829, col: 13, offset: 89812},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32285,28 +32318,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2890, col: 8, offset: 91216},
+																						pos: position{line: 2905, col: 8, offset: 91684},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2877, col: 12, offset: 90989},
+																								pos: position{line: 2892, col: 12, offset: 91457},
 																								run: (*parser).callonListContinuationElement539,
 																								expr: &choiceExpr{
-																									pos: position{line: 2877, col: 13, offset: 90990},
+																									pos: position{line: 2892, col: 13, offset: 91458},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 13, offset: 90990},
+																											pos:        position{line: 2892, col: 13, offset: 91458},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 20, offset: 90997},
+																											pos:        position{line: 2892, col: 20, offset: 91465},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 29, offset: 91006},
+																											pos:        position{line: 2892, col: 29, offset: 91474},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32315,9 +32348,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2887, col: 8, offset: 91166},
+																								pos: position{line: 2902, col: 8, offset: 91634},
 																								expr: &anyMatcher{
-																									line: 2887, col: 9, offset: 91167,
+																									line: 2902, col: 9, offset: 91635,
 																								},
 																							},
 																						},
@@ -32332,23 +32365,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 965, col: 5, offset: 30076},
+													pos: position{line: 972, col: 5, offset: 30319},
 													expr: &seqExpr{
-														pos: position{line: 974, col: 34, offset: 30458},
+														pos: position{line: 981, col: 34, offset: 30701},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 974, col: 34, offset: 30458},
+																pos:        position{line: 981, col: 34, offset: 30701},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 974, col: 40, offset: 30464},
+																pos: position{line: 981, col: 40, offset: 30707},
 																expr: &actionExpr{
-																	pos: position{line: 2868, col: 10, offset: 90818},
+																	pos: position{line: 2883, col: 10, offset: 91286},
 																	run: (*parser).callonListContinuationElement550,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2868, col: 10, offset: 90818},
+																		pos:        position{line: 2883, col: 10, offset: 91286},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32357,28 +32390,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2890, col: 8, offset: 91216},
+																pos: position{line: 2905, col: 8, offset: 91684},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2877, col: 12, offset: 90989},
+																		pos: position{line: 2892, col: 12, offset: 91457},
 																		run: (*parser).callonListContinuationElement553,
 																		expr: &choiceExpr{
-																			pos: position{line: 2877, col: 13, offset: 90990},
+																			pos: position{line: 2892, col: 13, offset: 91458},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2877, col: 13, offset: 90990},
+																					pos:        position{line: 2892, col: 13, offset: 91458},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2877, col: 20, offset: 90997},
+																					pos:        position{line: 2892, col: 20, offset: 91465},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2877, col: 29, offset: 91006},
+																					pos:        position{line: 2892, col: 29, offset: 91474},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32387,9 +32420,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2887, col: 8, offset: 91166},
+																		pos: position{line: 2902, col: 8, offset: 91634},
 																		expr: &anyMatcher{
-																			line: 2887, col: 9, offset: 91167,
+																			line: 2902, col: 9, offset: 91635,
 																		},
 																	},
 																},
@@ -32401,39 +32434,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 879, col: 5, offset: 27852},
+										pos: position{line: 886, col: 5, offset: 28095},
 										run: (*parser).callonListContinuationElement560,
 										expr: &seqExpr{
-											pos: position{line: 879, col: 5, offset: 27852},
+											pos: position{line: 886, col: 5, offset: 28095},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 879, col: 5, offset: 27852},
+													pos:   position{line: 886, col: 5, offset: 28095},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 757, col: 5, offset: 24182},
+														pos: position{line: 764, col: 5, offset: 24425},
 														run: (*parser).callonListContinuationElement563,
 														expr: &seqExpr{
-															pos: position{line: 757, col: 5, offset: 24182},
+															pos: position{line: 764, col: 5, offset: 24425},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 757, col: 5, offset: 24182},
+																	pos:   position{line: 764, col: 5, offset: 24425},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 757, col: 16, offset: 24193},
+																		pos: position{line: 764, col: 16, offset: 24436},
 																		run: (*parser).callonListContinuationElement566,
 																		expr: &seqExpr{
-																			pos: position{line: 757, col: 16, offset: 24193},
+																			pos: position{line: 764, col: 16, offset: 24436},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 757, col: 16, offset: 24193},
+																					pos:        position{line: 764, col: 16, offset: 24436},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 757, col: 22, offset: 24199},
+																					pos: position{line: 764, col: 22, offset: 24442},
 																					expr: &litMatcher{
-																						pos:        position{line: 757, col: 22, offset: 24199},
+																						pos:        position{line: 764, col: 22, offset: 24442},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -32444,12 +32477,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 759, col: 8, offset: 24283},
+																	pos: position{line: 766, col: 8, offset: 24526},
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 10, offset: 90818},
+																		pos: position{line: 2883, col: 10, offset: 91286},
 																		run: (*parser).callonListContinuationElement572,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90818},
+																			pos:        position{line: 2883, col: 10, offset: 91286},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32458,28 +32491,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonListContinuationElement575,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32488,9 +32521,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -32500,56 +32533,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 880, col: 5, offset: 27890},
+													pos: position{line: 887, col: 5, offset: 28133},
 													run: (*parser).callonListContinuationElement582,
 												},
 												&labeledExpr{
-													pos:   position{line: 883, col: 5, offset: 27982},
+													pos:   position{line: 890, col: 5, offset: 28225},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 898, col: 5, offset: 28372},
+														pos: position{line: 905, col: 5, offset: 28615},
 														expr: &actionExpr{
-															pos: position{line: 898, col: 6, offset: 28373},
+															pos: position{line: 905, col: 6, offset: 28616},
 															run: (*parser).callonListContinuationElement585,
 															expr: &seqExpr{
-																pos: position{line: 898, col: 6, offset: 28373},
+																pos: position{line: 905, col: 6, offset: 28616},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 898, col: 6, offset: 28373},
+																		pos: position{line: 905, col: 6, offset: 28616},
 																		expr: &choiceExpr{
-																			pos: position{line: 891, col: 5, offset: 28216},
+																			pos: position{line: 898, col: 5, offset: 28459},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 891, col: 5, offset: 28216},
+																					pos: position{line: 898, col: 5, offset: 28459},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 891, col: 5, offset: 28216},
+																							pos:   position{line: 898, col: 5, offset: 28459},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 757, col: 5, offset: 24182},
+																								pos: position{line: 764, col: 5, offset: 24425},
 																								run: (*parser).callonListContinuationElement591,
 																								expr: &seqExpr{
-																									pos: position{line: 757, col: 5, offset: 24182},
+																									pos: position{line: 764, col: 5, offset: 24425},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 757, col: 5, offset: 24182},
+																											pos:   position{line: 764, col: 5, offset: 24425},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 757, col: 16, offset: 24193},
+																												pos: position{line: 764, col: 16, offset: 24436},
 																												run: (*parser).callonListContinuationElement594,
 																												expr: &seqExpr{
-																													pos: position{line: 757, col: 16, offset: 24193},
+																													pos: position{line: 764, col: 16, offset: 24436},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 757, col: 16, offset: 24193},
+																															pos:        position{line: 764, col: 16, offset: 24436},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 757, col: 22, offset: 24199},
+																															pos: position{line: 764, col: 22, offset: 24442},
 																															expr: &litMatcher{
-																																pos:        position{line: 757, col: 22, offset: 24199},
+																																pos:        position{line: 764, col: 22, offset: 24442},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -32560,12 +32593,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 759, col: 8, offset: 24283},
+																											pos: position{line: 766, col: 8, offset: 24526},
 																											expr: &actionExpr{
-																												pos: position{line: 2868, col: 10, offset: 90818},
+																												pos: position{line: 2883, col: 10, offset: 91286},
 																												run: (*parser).callonListContinuationElement600,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 10, offset: 90818},
+																													pos:        position{line: 2883, col: 10, offset: 91286},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32574,28 +32607,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2890, col: 8, offset: 91216},
+																											pos: position{line: 2905, col: 8, offset: 91684},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2877, col: 12, offset: 90989},
+																													pos: position{line: 2892, col: 12, offset: 91457},
 																													run: (*parser).callonListContinuationElement603,
 																													expr: &choiceExpr{
-																														pos: position{line: 2877, col: 13, offset: 90990},
+																														pos: position{line: 2892, col: 13, offset: 91458},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32604,9 +32637,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2887, col: 8, offset: 91166},
+																													pos: position{line: 2902, col: 8, offset: 91634},
 																													expr: &anyMatcher{
-																														line: 2887, col: 9, offset: 91167,
+																														line: 2902, col: 9, offset: 91635,
 																													},
 																												},
 																											},
@@ -32616,45 +32649,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 892, col: 5, offset: 28246},
+																							pos: position{line: 899, col: 5, offset: 28489},
 																							run: (*parser).callonListContinuationElement610,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 899, col: 5, offset: 28402},
+																		pos:   position{line: 906, col: 5, offset: 28645},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26191},
+																			pos: position{line: 821, col: 5, offset: 26434},
 																			run: (*parser).callonListContinuationElement614,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26191},
+																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2885, col: 11, offset: 91152},
+																						pos: position{line: 2900, col: 11, offset: 91620},
 																						expr: &anyMatcher{
-																							line: 2885, col: 13, offset: 91154,
+																							line: 2900, col: 13, offset: 91622,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26266},
+																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2814, col: 13, offset: 89344},
+																							pos: position{line: 2829, col: 13, offset: 89812},
 																							run: (*parser).callonListContinuationElement619,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2814, col: 13, offset: 89344},
+																								pos: position{line: 2829, col: 13, offset: 89812},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2814, col: 13, offset: 89344},
+																									pos:        position{line: 2829, col: 13, offset: 89812},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32664,28 +32697,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2890, col: 8, offset: 91216},
+																						pos: position{line: 2905, col: 8, offset: 91684},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2877, col: 12, offset: 90989},
+																								pos: position{line: 2892, col: 12, offset: 91457},
 																								run: (*parser).callonListContinuationElement623,
 																								expr: &choiceExpr{
-																									pos: position{line: 2877, col: 13, offset: 90990},
+																									pos: position{line: 2892, col: 13, offset: 91458},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 13, offset: 90990},
+																											pos:        position{line: 2892, col: 13, offset: 91458},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 20, offset: 90997},
+																											pos:        position{line: 2892, col: 20, offset: 91465},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 29, offset: 91006},
+																											pos:        position{line: 2892, col: 29, offset: 91474},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32694,9 +32727,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2887, col: 8, offset: 91166},
+																								pos: position{line: 2902, col: 8, offset: 91634},
 																								expr: &anyMatcher{
-																									line: 2887, col: 9, offset: 91167,
+																									line: 2902, col: 9, offset: 91635,
 																								},
 																							},
 																						},
@@ -32711,44 +32744,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 884, col: 5, offset: 28015},
+													pos:   position{line: 891, col: 5, offset: 28258},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 884, col: 9, offset: 28019},
+														pos: position{line: 891, col: 9, offset: 28262},
 														expr: &choiceExpr{
-															pos: position{line: 891, col: 5, offset: 28216},
+															pos: position{line: 898, col: 5, offset: 28459},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 891, col: 5, offset: 28216},
+																	pos: position{line: 898, col: 5, offset: 28459},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 891, col: 5, offset: 28216},
+																			pos:   position{line: 898, col: 5, offset: 28459},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 757, col: 5, offset: 24182},
+																				pos: position{line: 764, col: 5, offset: 24425},
 																				run: (*parser).callonListContinuationElement635,
 																				expr: &seqExpr{
-																					pos: position{line: 757, col: 5, offset: 24182},
+																					pos: position{line: 764, col: 5, offset: 24425},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 757, col: 5, offset: 24182},
+																							pos:   position{line: 764, col: 5, offset: 24425},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 757, col: 16, offset: 24193},
+																								pos: position{line: 764, col: 16, offset: 24436},
 																								run: (*parser).callonListContinuationElement638,
 																								expr: &seqExpr{
-																									pos: position{line: 757, col: 16, offset: 24193},
+																									pos: position{line: 764, col: 16, offset: 24436},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 757, col: 16, offset: 24193},
+																											pos:        position{line: 764, col: 16, offset: 24436},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 757, col: 22, offset: 24199},
+																											pos: position{line: 764, col: 22, offset: 24442},
 																											expr: &litMatcher{
-																												pos:        position{line: 757, col: 22, offset: 24199},
+																												pos:        position{line: 764, col: 22, offset: 24442},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -32759,12 +32792,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 759, col: 8, offset: 24283},
+																							pos: position{line: 766, col: 8, offset: 24526},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonListContinuationElement644,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32773,28 +32806,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonListContinuationElement647,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32803,9 +32836,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -32815,15 +32848,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 892, col: 5, offset: 28246},
+																			pos: position{line: 899, col: 5, offset: 28489},
 																			run: (*parser).callonListContinuationElement654,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2887, col: 8, offset: 91166},
+																	pos: position{line: 2902, col: 8, offset: 91634},
 																	expr: &anyMatcher{
-																		line: 2887, col: 9, offset: 91167,
+																		line: 2902, col: 9, offset: 91635,
 																	},
 																},
 															},
@@ -32834,39 +32867,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 907, col: 5, offset: 28557},
+										pos: position{line: 914, col: 5, offset: 28800},
 										run: (*parser).callonListContinuationElement657,
 										expr: &seqExpr{
-											pos: position{line: 907, col: 5, offset: 28557},
+											pos: position{line: 914, col: 5, offset: 28800},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 907, col: 5, offset: 28557},
+													pos:   position{line: 914, col: 5, offset: 28800},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 772, col: 5, offset: 24719},
+														pos: position{line: 779, col: 5, offset: 24962},
 														run: (*parser).callonListContinuationElement660,
 														expr: &seqExpr{
-															pos: position{line: 772, col: 5, offset: 24719},
+															pos: position{line: 779, col: 5, offset: 24962},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 772, col: 5, offset: 24719},
+																	pos:   position{line: 779, col: 5, offset: 24962},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 772, col: 16, offset: 24730},
+																		pos: position{line: 779, col: 16, offset: 24973},
 																		run: (*parser).callonListContinuationElement663,
 																		expr: &seqExpr{
-																			pos: position{line: 772, col: 16, offset: 24730},
+																			pos: position{line: 779, col: 16, offset: 24973},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 772, col: 16, offset: 24730},
+																					pos:        position{line: 779, col: 16, offset: 24973},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 772, col: 23, offset: 24737},
+																					pos: position{line: 779, col: 23, offset: 24980},
 																					expr: &litMatcher{
-																						pos:        position{line: 772, col: 23, offset: 24737},
+																						pos:        position{line: 779, col: 23, offset: 24980},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -32877,12 +32910,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 774, col: 8, offset: 24821},
+																	pos: position{line: 781, col: 8, offset: 25064},
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 10, offset: 90818},
+																		pos: position{line: 2883, col: 10, offset: 91286},
 																		run: (*parser).callonListContinuationElement669,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90818},
+																			pos:        position{line: 2883, col: 10, offset: 91286},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32891,28 +32924,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonListContinuationElement672,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32921,9 +32954,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -32933,56 +32966,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 908, col: 5, offset: 28596},
+													pos: position{line: 915, col: 5, offset: 28839},
 													run: (*parser).callonListContinuationElement679,
 												},
 												&labeledExpr{
-													pos:   position{line: 911, col: 5, offset: 28688},
+													pos:   position{line: 918, col: 5, offset: 28931},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 926, col: 5, offset: 29086},
+														pos: position{line: 933, col: 5, offset: 29329},
 														expr: &actionExpr{
-															pos: position{line: 926, col: 6, offset: 29087},
+															pos: position{line: 933, col: 6, offset: 29330},
 															run: (*parser).callonListContinuationElement682,
 															expr: &seqExpr{
-																pos: position{line: 926, col: 6, offset: 29087},
+																pos: position{line: 933, col: 6, offset: 29330},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 926, col: 6, offset: 29087},
+																		pos: position{line: 933, col: 6, offset: 29330},
 																		expr: &choiceExpr{
-																			pos: position{line: 919, col: 5, offset: 28928},
+																			pos: position{line: 926, col: 5, offset: 29171},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 919, col: 5, offset: 28928},
+																					pos: position{line: 926, col: 5, offset: 29171},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 919, col: 5, offset: 28928},
+																							pos:   position{line: 926, col: 5, offset: 29171},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 772, col: 5, offset: 24719},
+																								pos: position{line: 779, col: 5, offset: 24962},
 																								run: (*parser).callonListContinuationElement688,
 																								expr: &seqExpr{
-																									pos: position{line: 772, col: 5, offset: 24719},
+																									pos: position{line: 779, col: 5, offset: 24962},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 772, col: 5, offset: 24719},
+																											pos:   position{line: 779, col: 5, offset: 24962},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 772, col: 16, offset: 24730},
+																												pos: position{line: 779, col: 16, offset: 24973},
 																												run: (*parser).callonListContinuationElement691,
 																												expr: &seqExpr{
-																													pos: position{line: 772, col: 16, offset: 24730},
+																													pos: position{line: 779, col: 16, offset: 24973},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 772, col: 16, offset: 24730},
+																															pos:        position{line: 779, col: 16, offset: 24973},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 772, col: 23, offset: 24737},
+																															pos: position{line: 779, col: 23, offset: 24980},
 																															expr: &litMatcher{
-																																pos:        position{line: 772, col: 23, offset: 24737},
+																																pos:        position{line: 779, col: 23, offset: 24980},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -32993,12 +33026,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 774, col: 8, offset: 24821},
+																											pos: position{line: 781, col: 8, offset: 25064},
 																											expr: &actionExpr{
-																												pos: position{line: 2868, col: 10, offset: 90818},
+																												pos: position{line: 2883, col: 10, offset: 91286},
 																												run: (*parser).callonListContinuationElement697,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 10, offset: 90818},
+																													pos:        position{line: 2883, col: 10, offset: 91286},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33007,28 +33040,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2890, col: 8, offset: 91216},
+																											pos: position{line: 2905, col: 8, offset: 91684},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2877, col: 12, offset: 90989},
+																													pos: position{line: 2892, col: 12, offset: 91457},
 																													run: (*parser).callonListContinuationElement700,
 																													expr: &choiceExpr{
-																														pos: position{line: 2877, col: 13, offset: 90990},
+																														pos: position{line: 2892, col: 13, offset: 91458},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33037,9 +33070,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2887, col: 8, offset: 91166},
+																													pos: position{line: 2902, col: 8, offset: 91634},
 																													expr: &anyMatcher{
-																														line: 2887, col: 9, offset: 91167,
+																														line: 2902, col: 9, offset: 91635,
 																													},
 																												},
 																											},
@@ -33049,45 +33082,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 920, col: 5, offset: 28959},
+																							pos: position{line: 927, col: 5, offset: 29202},
 																							run: (*parser).callonListContinuationElement707,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 927, col: 5, offset: 29117},
+																		pos:   position{line: 934, col: 5, offset: 29360},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26191},
+																			pos: position{line: 821, col: 5, offset: 26434},
 																			run: (*parser).callonListContinuationElement711,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26191},
+																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2885, col: 11, offset: 91152},
+																						pos: position{line: 2900, col: 11, offset: 91620},
 																						expr: &anyMatcher{
-																							line: 2885, col: 13, offset: 91154,
+																							line: 2900, col: 13, offset: 91622,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26266},
+																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2814, col: 13, offset: 89344},
+																							pos: position{line: 2829, col: 13, offset: 89812},
 																							run: (*parser).callonListContinuationElement716,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2814, col: 13, offset: 89344},
+																								pos: position{line: 2829, col: 13, offset: 89812},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2814, col: 13, offset: 89344},
+																									pos:        position{line: 2829, col: 13, offset: 89812},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33097,28 +33130,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2890, col: 8, offset: 91216},
+																						pos: position{line: 2905, col: 8, offset: 91684},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2877, col: 12, offset: 90989},
+																								pos: position{line: 2892, col: 12, offset: 91457},
 																								run: (*parser).callonListContinuationElement720,
 																								expr: &choiceExpr{
-																									pos: position{line: 2877, col: 13, offset: 90990},
+																									pos: position{line: 2892, col: 13, offset: 91458},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 13, offset: 90990},
+																											pos:        position{line: 2892, col: 13, offset: 91458},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 20, offset: 90997},
+																											pos:        position{line: 2892, col: 20, offset: 91465},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 29, offset: 91006},
+																											pos:        position{line: 2892, col: 29, offset: 91474},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33127,9 +33160,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2887, col: 8, offset: 91166},
+																								pos: position{line: 2902, col: 8, offset: 91634},
 																								expr: &anyMatcher{
-																									line: 2887, col: 9, offset: 91167,
+																									line: 2902, col: 9, offset: 91635,
 																								},
 																							},
 																						},
@@ -33144,44 +33177,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 912, col: 5, offset: 28722},
+													pos:   position{line: 919, col: 5, offset: 28965},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 912, col: 9, offset: 28726},
+														pos: position{line: 919, col: 9, offset: 28969},
 														expr: &choiceExpr{
-															pos: position{line: 919, col: 5, offset: 28928},
+															pos: position{line: 926, col: 5, offset: 29171},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 919, col: 5, offset: 28928},
+																	pos: position{line: 926, col: 5, offset: 29171},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 919, col: 5, offset: 28928},
+																			pos:   position{line: 926, col: 5, offset: 29171},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 772, col: 5, offset: 24719},
+																				pos: position{line: 779, col: 5, offset: 24962},
 																				run: (*parser).callonListContinuationElement732,
 																				expr: &seqExpr{
-																					pos: position{line: 772, col: 5, offset: 24719},
+																					pos: position{line: 779, col: 5, offset: 24962},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 772, col: 5, offset: 24719},
+																							pos:   position{line: 779, col: 5, offset: 24962},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 772, col: 16, offset: 24730},
+																								pos: position{line: 779, col: 16, offset: 24973},
 																								run: (*parser).callonListContinuationElement735,
 																								expr: &seqExpr{
-																									pos: position{line: 772, col: 16, offset: 24730},
+																									pos: position{line: 779, col: 16, offset: 24973},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 772, col: 16, offset: 24730},
+																											pos:        position{line: 779, col: 16, offset: 24973},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 772, col: 23, offset: 24737},
+																											pos: position{line: 779, col: 23, offset: 24980},
 																											expr: &litMatcher{
-																												pos:        position{line: 772, col: 23, offset: 24737},
+																												pos:        position{line: 779, col: 23, offset: 24980},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -33192,12 +33225,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 774, col: 8, offset: 24821},
+																							pos: position{line: 781, col: 8, offset: 25064},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonListContinuationElement741,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33206,28 +33239,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonListContinuationElement744,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33236,9 +33269,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -33248,15 +33281,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 920, col: 5, offset: 28959},
+																			pos: position{line: 927, col: 5, offset: 29202},
 																			run: (*parser).callonListContinuationElement751,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2887, col: 8, offset: 91166},
+																	pos: position{line: 2902, col: 8, offset: 91634},
 																	expr: &anyMatcher{
-																		line: 2887, col: 9, offset: 91167,
+																		line: 2902, col: 9, offset: 91635,
 																	},
 																},
 															},
@@ -33267,39 +33300,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 935, col: 5, offset: 29272},
+										pos: position{line: 942, col: 5, offset: 29515},
 										run: (*parser).callonListContinuationElement754,
 										expr: &seqExpr{
-											pos: position{line: 935, col: 5, offset: 29272},
+											pos: position{line: 942, col: 5, offset: 29515},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 935, col: 5, offset: 29272},
+													pos:   position{line: 942, col: 5, offset: 29515},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 786, col: 5, offset: 25195},
+														pos: position{line: 793, col: 5, offset: 25438},
 														run: (*parser).callonListContinuationElement757,
 														expr: &seqExpr{
-															pos: position{line: 786, col: 5, offset: 25195},
+															pos: position{line: 793, col: 5, offset: 25438},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 786, col: 5, offset: 25195},
+																	pos:   position{line: 793, col: 5, offset: 25438},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 786, col: 16, offset: 25206},
+																		pos: position{line: 793, col: 16, offset: 25449},
 																		run: (*parser).callonListContinuationElement760,
 																		expr: &seqExpr{
-																			pos: position{line: 786, col: 16, offset: 25206},
+																			pos: position{line: 793, col: 16, offset: 25449},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 786, col: 16, offset: 25206},
+																					pos:        position{line: 793, col: 16, offset: 25449},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 786, col: 23, offset: 25213},
+																					pos: position{line: 793, col: 23, offset: 25456},
 																					expr: &litMatcher{
-																						pos:        position{line: 786, col: 23, offset: 25213},
+																						pos:        position{line: 793, col: 23, offset: 25456},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -33310,12 +33343,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 788, col: 8, offset: 25297},
+																	pos: position{line: 795, col: 8, offset: 25540},
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 10, offset: 90818},
+																		pos: position{line: 2883, col: 10, offset: 91286},
 																		run: (*parser).callonListContinuationElement766,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90818},
+																			pos:        position{line: 2883, col: 10, offset: 91286},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33324,28 +33357,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonListContinuationElement769,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33354,9 +33387,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -33366,56 +33399,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 936, col: 5, offset: 29311},
+													pos: position{line: 943, col: 5, offset: 29554},
 													run: (*parser).callonListContinuationElement776,
 												},
 												&labeledExpr{
-													pos:   position{line: 939, col: 5, offset: 29403},
+													pos:   position{line: 946, col: 5, offset: 29646},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 954, col: 5, offset: 29801},
+														pos: position{line: 961, col: 5, offset: 30044},
 														expr: &actionExpr{
-															pos: position{line: 954, col: 6, offset: 29802},
+															pos: position{line: 961, col: 6, offset: 30045},
 															run: (*parser).callonListContinuationElement779,
 															expr: &seqExpr{
-																pos: position{line: 954, col: 6, offset: 29802},
+																pos: position{line: 961, col: 6, offset: 30045},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 954, col: 6, offset: 29802},
+																		pos: position{line: 961, col: 6, offset: 30045},
 																		expr: &choiceExpr{
-																			pos: position{line: 947, col: 5, offset: 29643},
+																			pos: position{line: 954, col: 5, offset: 29886},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 947, col: 5, offset: 29643},
+																					pos: position{line: 954, col: 5, offset: 29886},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 947, col: 5, offset: 29643},
+																							pos:   position{line: 954, col: 5, offset: 29886},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 786, col: 5, offset: 25195},
+																								pos: position{line: 793, col: 5, offset: 25438},
 																								run: (*parser).callonListContinuationElement785,
 																								expr: &seqExpr{
-																									pos: position{line: 786, col: 5, offset: 25195},
+																									pos: position{line: 793, col: 5, offset: 25438},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 786, col: 5, offset: 25195},
+																											pos:   position{line: 793, col: 5, offset: 25438},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 786, col: 16, offset: 25206},
+																												pos: position{line: 793, col: 16, offset: 25449},
 																												run: (*parser).callonListContinuationElement788,
 																												expr: &seqExpr{
-																													pos: position{line: 786, col: 16, offset: 25206},
+																													pos: position{line: 793, col: 16, offset: 25449},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 786, col: 16, offset: 25206},
+																															pos:        position{line: 793, col: 16, offset: 25449},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 786, col: 23, offset: 25213},
+																															pos: position{line: 793, col: 23, offset: 25456},
 																															expr: &litMatcher{
-																																pos:        position{line: 786, col: 23, offset: 25213},
+																																pos:        position{line: 793, col: 23, offset: 25456},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -33426,12 +33459,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 788, col: 8, offset: 25297},
+																											pos: position{line: 795, col: 8, offset: 25540},
 																											expr: &actionExpr{
-																												pos: position{line: 2868, col: 10, offset: 90818},
+																												pos: position{line: 2883, col: 10, offset: 91286},
 																												run: (*parser).callonListContinuationElement794,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 10, offset: 90818},
+																													pos:        position{line: 2883, col: 10, offset: 91286},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33440,28 +33473,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2890, col: 8, offset: 91216},
+																											pos: position{line: 2905, col: 8, offset: 91684},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2877, col: 12, offset: 90989},
+																													pos: position{line: 2892, col: 12, offset: 91457},
 																													run: (*parser).callonListContinuationElement797,
 																													expr: &choiceExpr{
-																														pos: position{line: 2877, col: 13, offset: 90990},
+																														pos: position{line: 2892, col: 13, offset: 91458},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33470,9 +33503,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2887, col: 8, offset: 91166},
+																													pos: position{line: 2902, col: 8, offset: 91634},
 																													expr: &anyMatcher{
-																														line: 2887, col: 9, offset: 91167,
+																														line: 2902, col: 9, offset: 91635,
 																													},
 																												},
 																											},
@@ -33482,45 +33515,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 948, col: 5, offset: 29674},
+																							pos: position{line: 955, col: 5, offset: 29917},
 																							run: (*parser).callonListContinuationElement804,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 955, col: 5, offset: 29832},
+																		pos:   position{line: 962, col: 5, offset: 30075},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26191},
+																			pos: position{line: 821, col: 5, offset: 26434},
 																			run: (*parser).callonListContinuationElement808,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26191},
+																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2885, col: 11, offset: 91152},
+																						pos: position{line: 2900, col: 11, offset: 91620},
 																						expr: &anyMatcher{
-																							line: 2885, col: 13, offset: 91154,
+																							line: 2900, col: 13, offset: 91622,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26266},
+																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2814, col: 13, offset: 89344},
+																							pos: position{line: 2829, col: 13, offset: 89812},
 																							run: (*parser).callonListContinuationElement813,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2814, col: 13, offset: 89344},
+																								pos: position{line: 2829, col: 13, offset: 89812},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2814, col: 13, offset: 89344},
+																									pos:        position{line: 2829, col: 13, offset: 89812},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33530,28 +33563,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2890, col: 8, offset: 91216},
+																						pos: position{line: 2905, col: 8, offset: 91684},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2877, col: 12, offset: 90989},
+																								pos: position{line: 2892, col: 12, offset: 91457},
 																								run: (*parser).callonListContinuationElement817,
 																								expr: &choiceExpr{
-																									pos: position{line: 2877, col: 13, offset: 90990},
+																									pos: position{line: 2892, col: 13, offset: 91458},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 13, offset: 90990},
+																											pos:        position{line: 2892, col: 13, offset: 91458},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 20, offset: 90997},
+																											pos:        position{line: 2892, col: 20, offset: 91465},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 29, offset: 91006},
+																											pos:        position{line: 2892, col: 29, offset: 91474},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33560,9 +33593,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2887, col: 8, offset: 91166},
+																								pos: position{line: 2902, col: 8, offset: 91634},
 																								expr: &anyMatcher{
-																									line: 2887, col: 9, offset: 91167,
+																									line: 2902, col: 9, offset: 91635,
 																								},
 																							},
 																						},
@@ -33577,44 +33610,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 940, col: 5, offset: 29437},
+													pos:   position{line: 947, col: 5, offset: 29680},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 940, col: 9, offset: 29441},
+														pos: position{line: 947, col: 9, offset: 29684},
 														expr: &choiceExpr{
-															pos: position{line: 947, col: 5, offset: 29643},
+															pos: position{line: 954, col: 5, offset: 29886},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 947, col: 5, offset: 29643},
+																	pos: position{line: 954, col: 5, offset: 29886},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 947, col: 5, offset: 29643},
+																			pos:   position{line: 954, col: 5, offset: 29886},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 786, col: 5, offset: 25195},
+																				pos: position{line: 793, col: 5, offset: 25438},
 																				run: (*parser).callonListContinuationElement829,
 																				expr: &seqExpr{
-																					pos: position{line: 786, col: 5, offset: 25195},
+																					pos: position{line: 793, col: 5, offset: 25438},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 786, col: 5, offset: 25195},
+																							pos:   position{line: 793, col: 5, offset: 25438},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 786, col: 16, offset: 25206},
+																								pos: position{line: 793, col: 16, offset: 25449},
 																								run: (*parser).callonListContinuationElement832,
 																								expr: &seqExpr{
-																									pos: position{line: 786, col: 16, offset: 25206},
+																									pos: position{line: 793, col: 16, offset: 25449},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 786, col: 16, offset: 25206},
+																											pos:        position{line: 793, col: 16, offset: 25449},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 786, col: 23, offset: 25213},
+																											pos: position{line: 793, col: 23, offset: 25456},
 																											expr: &litMatcher{
-																												pos:        position{line: 786, col: 23, offset: 25213},
+																												pos:        position{line: 793, col: 23, offset: 25456},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -33625,12 +33658,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 788, col: 8, offset: 25297},
+																							pos: position{line: 795, col: 8, offset: 25540},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonListContinuationElement838,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33639,28 +33672,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonListContinuationElement841,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33669,9 +33702,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -33681,15 +33714,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 948, col: 5, offset: 29674},
+																			pos: position{line: 955, col: 5, offset: 29917},
 																			run: (*parser).callonListContinuationElement848,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2887, col: 8, offset: 91166},
+																	pos: position{line: 2902, col: 8, offset: 91634},
 																	expr: &anyMatcher{
-																		line: 2887, col: 9, offset: 91167,
+																		line: 2902, col: 9, offset: 91635,
 																	},
 																},
 															},
@@ -33700,63 +33733,63 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 986, col: 5, offset: 30715},
+										pos: position{line: 993, col: 5, offset: 30958},
 										run: (*parser).callonListContinuationElement851,
 										expr: &seqExpr{
-											pos: position{line: 986, col: 5, offset: 30715},
+											pos: position{line: 993, col: 5, offset: 30958},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 986, col: 5, offset: 30715},
+													pos:   position{line: 993, col: 5, offset: 30958},
 													label: "firstLine",
 													expr: &choiceExpr{
-														pos: position{line: 986, col: 16, offset: 30726},
+														pos: position{line: 993, col: 16, offset: 30969},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 999, col: 35, offset: 31202},
+																pos: position{line: 1006, col: 35, offset: 31445},
 																run: (*parser).callonListContinuationElement855,
 																expr: &seqExpr{
-																	pos: position{line: 999, col: 35, offset: 31202},
+																	pos: position{line: 1006, col: 35, offset: 31445},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 999, col: 35, offset: 31202},
+																			pos:        position{line: 1006, col: 35, offset: 31445},
 																			val:        "> ",
 																			ignoreCase: false,
 																			want:       "\"> \"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 999, col: 40, offset: 31207},
+																			pos:   position{line: 1006, col: 40, offset: 31450},
 																			label: "comment",
 																			expr: &actionExpr{
-																				pos: position{line: 2478, col: 22, offset: 79761},
+																				pos: position{line: 2493, col: 22, offset: 80229},
 																				run: (*parser).callonListContinuationElement859,
 																				expr: &seqExpr{
-																					pos: position{line: 2478, col: 22, offset: 79761},
+																					pos: position{line: 2493, col: 22, offset: 80229},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2483, col: 31, offset: 79982},
+																							pos:        position{line: 2498, col: 31, offset: 80450},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
 																						},
 																						&notExpr{
-																							pos: position{line: 2483, col: 36, offset: 79987},
+																							pos: position{line: 2498, col: 36, offset: 80455},
 																							expr: &litMatcher{
-																								pos:        position{line: 2483, col: 37, offset: 79988},
+																								pos:        position{line: 2498, col: 37, offset: 80456},
 																								val:        "//",
 																								ignoreCase: false,
 																								want:       "\"//\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 2478, col: 49, offset: 79788},
+																							pos:   position{line: 2493, col: 49, offset: 80256},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2814, col: 13, offset: 89344},
+																								pos: position{line: 2829, col: 13, offset: 89812},
 																								run: (*parser).callonListContinuationElement865,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2814, col: 13, offset: 89344},
+																									pos: position{line: 2829, col: 13, offset: 89812},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2814, col: 13, offset: 89344},
+																										pos:        position{line: 2829, col: 13, offset: 89812},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -33766,28 +33799,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonListContinuationElement869,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33796,9 +33829,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -33811,32 +33844,32 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 993, col: 5, offset: 31060},
+																pos: position{line: 1000, col: 5, offset: 31303},
 																run: (*parser).callonListContinuationElement876,
 																expr: &seqExpr{
-																	pos: position{line: 993, col: 5, offset: 31060},
+																	pos: position{line: 1000, col: 5, offset: 31303},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 993, col: 5, offset: 31060},
+																			pos: position{line: 1000, col: 5, offset: 31303},
 																			expr: &actionExpr{
-																				pos: position{line: 680, col: 14, offset: 21592},
+																				pos: position{line: 687, col: 14, offset: 21835},
 																				run: (*parser).callonListContinuationElement879,
 																				expr: &seqExpr{
-																					pos: position{line: 680, col: 14, offset: 21592},
+																					pos: position{line: 687, col: 14, offset: 21835},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2885, col: 11, offset: 91152},
+																							pos: position{line: 2900, col: 11, offset: 91620},
 																							expr: &anyMatcher{
-																								line: 2885, col: 13, offset: 91154,
+																								line: 2900, col: 13, offset: 91622,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 680, col: 21, offset: 21599},
+																							pos: position{line: 687, col: 21, offset: 21842},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonListContinuationElement884,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33845,28 +33878,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33875,9 +33908,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -33887,21 +33920,21 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 994, col: 5, offset: 31075},
+																			pos:        position{line: 1001, col: 5, offset: 31318},
 																			val:        "> ",
 																			ignoreCase: false,
 																			want:       "\"> \"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 995, col: 5, offset: 31085},
+																			pos:   position{line: 1002, col: 5, offset: 31328},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 2818, col: 14, offset: 89411},
+																				pos: position{line: 2833, col: 14, offset: 89879},
 																				run: (*parser).callonListContinuationElement896,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2818, col: 14, offset: 89411},
+																					pos: position{line: 2833, col: 14, offset: 89879},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2818, col: 14, offset: 89411},
+																						pos:        position{line: 2833, col: 14, offset: 89879},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -33911,28 +33944,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2890, col: 8, offset: 91216},
+																			pos: position{line: 2905, col: 8, offset: 91684},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2877, col: 12, offset: 90989},
+																					pos: position{line: 2892, col: 12, offset: 91457},
 																					run: (*parser).callonListContinuationElement900,
 																					expr: &choiceExpr{
-																						pos: position{line: 2877, col: 13, offset: 90990},
+																						pos: position{line: 2892, col: 13, offset: 91458},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 13, offset: 90990},
+																								pos:        position{line: 2892, col: 13, offset: 91458},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 20, offset: 90997},
+																								pos:        position{line: 2892, col: 20, offset: 91465},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 29, offset: 91006},
+																								pos:        position{line: 2892, col: 29, offset: 91474},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -33941,9 +33974,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
@@ -33955,44 +33988,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 987, col: 5, offset: 30785},
+													pos:   position{line: 994, col: 5, offset: 31028},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 987, col: 16, offset: 30796},
+														pos: position{line: 994, col: 16, offset: 31039},
 														expr: &choiceExpr{
-															pos: position{line: 987, col: 17, offset: 30797},
+															pos: position{line: 994, col: 17, offset: 31040},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2478, col: 22, offset: 79761},
+																	pos: position{line: 2493, col: 22, offset: 80229},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 2478, col: 22, offset: 79761},
+																		pos: position{line: 2493, col: 22, offset: 80229},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2483, col: 31, offset: 79982},
+																				pos:        position{line: 2498, col: 31, offset: 80450},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2483, col: 36, offset: 79987},
+																				pos: position{line: 2498, col: 36, offset: 80455},
 																				expr: &litMatcher{
-																					pos:        position{line: 2483, col: 37, offset: 79988},
+																					pos:        position{line: 2498, col: 37, offset: 80456},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2478, col: 49, offset: 79788},
+																				pos:   position{line: 2493, col: 49, offset: 80256},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2814, col: 13, offset: 89344},
+																					pos: position{line: 2829, col: 13, offset: 89812},
 																					run: (*parser).callonListContinuationElement916,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2814, col: 13, offset: 89344},
+																						pos: position{line: 2829, col: 13, offset: 89812},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2814, col: 13, offset: 89344},
+																							pos:        position{line: 2829, col: 13, offset: 89812},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34002,28 +34035,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2890, col: 8, offset: 91216},
+																				pos: position{line: 2905, col: 8, offset: 91684},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2877, col: 12, offset: 90989},
+																						pos: position{line: 2892, col: 12, offset: 91457},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2877, col: 13, offset: 90990},
+																							pos: position{line: 2892, col: 13, offset: 91458},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2877, col: 13, offset: 90990},
+																									pos:        position{line: 2892, col: 13, offset: 91458},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2877, col: 20, offset: 90997},
+																									pos:        position{line: 2892, col: 20, offset: 91465},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2877, col: 29, offset: 91006},
+																									pos:        position{line: 2892, col: 29, offset: 91474},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34032,9 +34065,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2887, col: 8, offset: 91166},
+																						pos: position{line: 2902, col: 8, offset: 91634},
 																						expr: &anyMatcher{
-																							line: 2887, col: 9, offset: 91167,
+																							line: 2902, col: 9, offset: 91635,
 																						},
 																					},
 																				},
@@ -34043,51 +34076,51 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 999, col: 35, offset: 31202},
+																	pos: position{line: 1006, col: 35, offset: 31445},
 																	run: (*parser).callonListContinuationElement927,
 																	expr: &seqExpr{
-																		pos: position{line: 999, col: 35, offset: 31202},
+																		pos: position{line: 1006, col: 35, offset: 31445},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 999, col: 35, offset: 31202},
+																				pos:        position{line: 1006, col: 35, offset: 31445},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 999, col: 40, offset: 31207},
+																				pos:   position{line: 1006, col: 40, offset: 31450},
 																				label: "comment",
 																				expr: &actionExpr{
-																					pos: position{line: 2478, col: 22, offset: 79761},
+																					pos: position{line: 2493, col: 22, offset: 80229},
 																					run: (*parser).callonListContinuationElement931,
 																					expr: &seqExpr{
-																						pos: position{line: 2478, col: 22, offset: 79761},
+																						pos: position{line: 2493, col: 22, offset: 80229},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2483, col: 31, offset: 79982},
+																								pos:        position{line: 2498, col: 31, offset: 80450},
 																								val:        "//",
 																								ignoreCase: false,
 																								want:       "\"//\"",
 																							},
 																							&notExpr{
-																								pos: position{line: 2483, col: 36, offset: 79987},
+																								pos: position{line: 2498, col: 36, offset: 80455},
 																								expr: &litMatcher{
-																									pos:        position{line: 2483, col: 37, offset: 79988},
+																									pos:        position{line: 2498, col: 37, offset: 80456},
 																									val:        "//",
 																									ignoreCase: false,
 																									want:       "\"//\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 2478, col: 49, offset: 79788},
+																								pos:   position{line: 2493, col: 49, offset: 80256},
 																								label: "content",
 																								expr: &actionExpr{
-																									pos: position{line: 2814, col: 13, offset: 89344},
+																									pos: position{line: 2829, col: 13, offset: 89812},
 																									run: (*parser).callonListContinuationElement937,
 																									expr: &zeroOrMoreExpr{
-																										pos: position{line: 2814, col: 13, offset: 89344},
+																										pos: position{line: 2829, col: 13, offset: 89812},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2814, col: 13, offset: 89344},
+																											pos:        position{line: 2829, col: 13, offset: 89812},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -34097,28 +34130,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2890, col: 8, offset: 91216},
+																								pos: position{line: 2905, col: 8, offset: 91684},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2877, col: 12, offset: 90989},
+																										pos: position{line: 2892, col: 12, offset: 91457},
 																										run: (*parser).callonListContinuationElement941,
 																										expr: &choiceExpr{
-																											pos: position{line: 2877, col: 13, offset: 90990},
+																											pos: position{line: 2892, col: 13, offset: 91458},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 13, offset: 90990},
+																													pos:        position{line: 2892, col: 13, offset: 91458},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 20, offset: 90997},
+																													pos:        position{line: 2892, col: 20, offset: 91465},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 29, offset: 91006},
+																													pos:        position{line: 2892, col: 29, offset: 91474},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34127,9 +34160,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2887, col: 8, offset: 91166},
+																										pos: position{line: 2902, col: 8, offset: 91634},
 																										expr: &anyMatcher{
-																											line: 2887, col: 9, offset: 91167,
+																											line: 2902, col: 9, offset: 91635,
 																										},
 																									},
 																								},
@@ -34142,32 +34175,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 993, col: 5, offset: 31060},
+																	pos: position{line: 1000, col: 5, offset: 31303},
 																	run: (*parser).callonListContinuationElement948,
 																	expr: &seqExpr{
-																		pos: position{line: 993, col: 5, offset: 31060},
+																		pos: position{line: 1000, col: 5, offset: 31303},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 993, col: 5, offset: 31060},
+																				pos: position{line: 1000, col: 5, offset: 31303},
 																				expr: &actionExpr{
-																					pos: position{line: 680, col: 14, offset: 21592},
+																					pos: position{line: 687, col: 14, offset: 21835},
 																					run: (*parser).callonListContinuationElement951,
 																					expr: &seqExpr{
-																						pos: position{line: 680, col: 14, offset: 21592},
+																						pos: position{line: 687, col: 14, offset: 21835},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2885, col: 11, offset: 91152},
+																								pos: position{line: 2900, col: 11, offset: 91620},
 																								expr: &anyMatcher{
-																									line: 2885, col: 13, offset: 91154,
+																									line: 2900, col: 13, offset: 91622,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 680, col: 21, offset: 21599},
+																								pos: position{line: 687, col: 21, offset: 21842},
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 10, offset: 90818},
+																									pos: position{line: 2883, col: 10, offset: 91286},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 10, offset: 90818},
+																										pos:        position{line: 2883, col: 10, offset: 91286},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34176,28 +34209,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2890, col: 8, offset: 91216},
+																								pos: position{line: 2905, col: 8, offset: 91684},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2877, col: 12, offset: 90989},
+																										pos: position{line: 2892, col: 12, offset: 91457},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2877, col: 13, offset: 90990},
+																											pos: position{line: 2892, col: 13, offset: 91458},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 13, offset: 90990},
+																													pos:        position{line: 2892, col: 13, offset: 91458},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 20, offset: 90997},
+																													pos:        position{line: 2892, col: 20, offset: 91465},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 29, offset: 91006},
+																													pos:        position{line: 2892, col: 29, offset: 91474},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34206,9 +34239,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2887, col: 8, offset: 91166},
+																										pos: position{line: 2902, col: 8, offset: 91634},
 																										expr: &anyMatcher{
-																											line: 2887, col: 9, offset: 91167,
+																											line: 2902, col: 9, offset: 91635,
 																										},
 																									},
 																								},
@@ -34218,21 +34251,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 994, col: 5, offset: 31075},
+																				pos:        position{line: 1001, col: 5, offset: 31318},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 995, col: 5, offset: 31085},
+																				pos:   position{line: 1002, col: 5, offset: 31328},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2818, col: 14, offset: 89411},
+																					pos: position{line: 2833, col: 14, offset: 89879},
 																					run: (*parser).callonListContinuationElement968,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2818, col: 14, offset: 89411},
+																						pos: position{line: 2833, col: 14, offset: 89879},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2818, col: 14, offset: 89411},
+																							pos:        position{line: 2833, col: 14, offset: 89879},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34242,28 +34275,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2890, col: 8, offset: 91216},
+																				pos: position{line: 2905, col: 8, offset: 91684},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2877, col: 12, offset: 90989},
+																						pos: position{line: 2892, col: 12, offset: 91457},
 																						run: (*parser).callonListContinuationElement972,
 																						expr: &choiceExpr{
-																							pos: position{line: 2877, col: 13, offset: 90990},
+																							pos: position{line: 2892, col: 13, offset: 91458},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2877, col: 13, offset: 90990},
+																									pos:        position{line: 2892, col: 13, offset: 91458},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2877, col: 20, offset: 90997},
+																									pos:        position{line: 2892, col: 20, offset: 91465},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2877, col: 29, offset: 91006},
+																									pos:        position{line: 2892, col: 29, offset: 91474},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34272,9 +34305,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2887, col: 8, offset: 91166},
+																						pos: position{line: 2902, col: 8, offset: 91634},
 																						expr: &anyMatcher{
-																							line: 2887, col: 9, offset: 91167,
+																							line: 2902, col: 9, offset: 91635,
 																						},
 																					},
 																				},
@@ -34283,21 +34316,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1800, col: 5, offset: 58142},
+																	pos: position{line: 1807, col: 5, offset: 58385},
 																	run: (*parser).callonListContinuationElement979,
 																	expr: &seqExpr{
-																		pos: position{line: 1800, col: 5, offset: 58142},
+																		pos: position{line: 1807, col: 5, offset: 58385},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1800, col: 5, offset: 58142},
+																				pos:   position{line: 1807, col: 5, offset: 58385},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2818, col: 14, offset: 89411},
+																					pos: position{line: 2833, col: 14, offset: 89879},
 																					run: (*parser).callonListContinuationElement982,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2818, col: 14, offset: 89411},
+																						pos: position{line: 2833, col: 14, offset: 89879},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2818, col: 14, offset: 89411},
+																							pos:        position{line: 2833, col: 14, offset: 89879},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34307,32 +34340,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1801, col: 5, offset: 58166},
+																				pos: position{line: 1808, col: 5, offset: 58409},
 																				run: (*parser).callonListContinuationElement985,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2890, col: 8, offset: 91216},
+																				pos: position{line: 2905, col: 8, offset: 91684},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2877, col: 12, offset: 90989},
+																						pos: position{line: 2892, col: 12, offset: 91457},
 																						run: (*parser).callonListContinuationElement987,
 																						expr: &choiceExpr{
-																							pos: position{line: 2877, col: 13, offset: 90990},
+																							pos: position{line: 2892, col: 13, offset: 91458},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2877, col: 13, offset: 90990},
+																									pos:        position{line: 2892, col: 13, offset: 91458},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2877, col: 20, offset: 90997},
+																									pos:        position{line: 2892, col: 20, offset: 91465},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2877, col: 29, offset: 91006},
+																									pos:        position{line: 2892, col: 29, offset: 91474},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34341,9 +34374,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2887, col: 8, offset: 91166},
+																						pos: position{line: 2902, col: 8, offset: 91634},
 																						expr: &anyMatcher{
-																							line: 2887, col: 9, offset: 91167,
+																							line: 2902, col: 9, offset: 91635,
 																						},
 																					},
 																				},
@@ -34359,28 +34392,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1012, col: 5, offset: 31454},
+										pos: position{line: 1019, col: 5, offset: 31697},
 										run: (*parser).callonListContinuationElement994,
 										expr: &seqExpr{
-											pos: position{line: 1012, col: 5, offset: 31454},
+											pos: position{line: 1019, col: 5, offset: 31697},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1012, col: 5, offset: 31454},
+													pos:   position{line: 1019, col: 5, offset: 31697},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 779, col: 5, offset: 24964},
+														pos: position{line: 786, col: 5, offset: 25207},
 														run: (*parser).callonListContinuationElement997,
 														expr: &seqExpr{
-															pos: position{line: 779, col: 5, offset: 24964},
+															pos: position{line: 786, col: 5, offset: 25207},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 779, col: 5, offset: 24964},
+																	pos:   position{line: 786, col: 5, offset: 25207},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 779, col: 16, offset: 24975},
+																		pos: position{line: 786, col: 16, offset: 25218},
 																		run: (*parser).callonListContinuationElement1000,
 																		expr: &litMatcher{
-																			pos:        position{line: 779, col: 16, offset: 24975},
+																			pos:        position{line: 786, col: 16, offset: 25218},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -34388,12 +34421,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 781, col: 8, offset: 25052},
+																	pos: position{line: 788, col: 8, offset: 25295},
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 10, offset: 90818},
+																		pos: position{line: 2883, col: 10, offset: 91286},
 																		run: (*parser).callonListContinuationElement1003,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90818},
+																			pos:        position{line: 2883, col: 10, offset: 91286},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34402,28 +34435,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonListContinuationElement1006,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34432,9 +34465,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -34444,35 +34477,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1013, col: 5, offset: 31490},
+													pos:   position{line: 1020, col: 5, offset: 31733},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1023, col: 5, offset: 31758},
+														pos: position{line: 1030, col: 5, offset: 32001},
 														expr: &actionExpr{
-															pos: position{line: 1023, col: 6, offset: 31759},
+															pos: position{line: 1030, col: 6, offset: 32002},
 															run: (*parser).callonListContinuationElement1015,
 															expr: &seqExpr{
-																pos: position{line: 1023, col: 6, offset: 31759},
+																pos: position{line: 1030, col: 6, offset: 32002},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1023, col: 6, offset: 31759},
+																		pos: position{line: 1030, col: 6, offset: 32002},
 																		expr: &choiceExpr{
-																			pos: position{line: 1020, col: 26, offset: 31707},
+																			pos: position{line: 1027, col: 26, offset: 31950},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 779, col: 5, offset: 24964},
+																					pos: position{line: 786, col: 5, offset: 25207},
 																					run: (*parser).callonListContinuationElement1019,
 																					expr: &seqExpr{
-																						pos: position{line: 779, col: 5, offset: 24964},
+																						pos: position{line: 786, col: 5, offset: 25207},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 779, col: 5, offset: 24964},
+																								pos:   position{line: 786, col: 5, offset: 25207},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 779, col: 16, offset: 24975},
+																									pos: position{line: 786, col: 16, offset: 25218},
 																									run: (*parser).callonListContinuationElement1022,
 																									expr: &litMatcher{
-																										pos:        position{line: 779, col: 16, offset: 24975},
+																										pos:        position{line: 786, col: 16, offset: 25218},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -34480,12 +34513,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 781, col: 8, offset: 25052},
+																								pos: position{line: 788, col: 8, offset: 25295},
 																								expr: &actionExpr{
-																									pos: position{line: 2868, col: 10, offset: 90818},
+																									pos: position{line: 2883, col: 10, offset: 91286},
 																									run: (*parser).callonListContinuationElement1025,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2868, col: 10, offset: 90818},
+																										pos:        position{line: 2883, col: 10, offset: 91286},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34494,28 +34527,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2890, col: 8, offset: 91216},
+																								pos: position{line: 2905, col: 8, offset: 91684},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2877, col: 12, offset: 90989},
+																										pos: position{line: 2892, col: 12, offset: 91457},
 																										run: (*parser).callonListContinuationElement1028,
 																										expr: &choiceExpr{
-																											pos: position{line: 2877, col: 13, offset: 90990},
+																											pos: position{line: 2892, col: 13, offset: 91458},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 13, offset: 90990},
+																													pos:        position{line: 2892, col: 13, offset: 91458},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 20, offset: 90997},
+																													pos:        position{line: 2892, col: 20, offset: 91465},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2877, col: 29, offset: 91006},
+																													pos:        position{line: 2892, col: 29, offset: 91474},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34524,9 +34557,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2887, col: 8, offset: 91166},
+																										pos: position{line: 2902, col: 8, offset: 91634},
 																										expr: &anyMatcher{
-																											line: 2887, col: 9, offset: 91167,
+																											line: 2902, col: 9, offset: 91635,
 																										},
 																									},
 																								},
@@ -34535,39 +34568,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1024, col: 5, offset: 31786},
+																		pos:   position{line: 1031, col: 5, offset: 32029},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26191},
+																			pos: position{line: 821, col: 5, offset: 26434},
 																			run: (*parser).callonListContinuationElement1038,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26191},
+																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2885, col: 11, offset: 91152},
+																						pos: position{line: 2900, col: 11, offset: 91620},
 																						expr: &anyMatcher{
-																							line: 2885, col: 13, offset: 91154,
+																							line: 2900, col: 13, offset: 91622,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26266},
+																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2814, col: 13, offset: 89344},
+																							pos: position{line: 2829, col: 13, offset: 89812},
 																							run: (*parser).callonListContinuationElement1043,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2814, col: 13, offset: 89344},
+																								pos: position{line: 2829, col: 13, offset: 89812},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2814, col: 13, offset: 89344},
+																									pos:        position{line: 2829, col: 13, offset: 89812},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34577,28 +34610,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2890, col: 8, offset: 91216},
+																						pos: position{line: 2905, col: 8, offset: 91684},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2877, col: 12, offset: 90989},
+																								pos: position{line: 2892, col: 12, offset: 91457},
 																								run: (*parser).callonListContinuationElement1047,
 																								expr: &choiceExpr{
-																									pos: position{line: 2877, col: 13, offset: 90990},
+																									pos: position{line: 2892, col: 13, offset: 91458},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 13, offset: 90990},
+																											pos:        position{line: 2892, col: 13, offset: 91458},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 20, offset: 90997},
+																											pos:        position{line: 2892, col: 20, offset: 91465},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 29, offset: 91006},
+																											pos:        position{line: 2892, col: 29, offset: 91474},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34607,9 +34640,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2887, col: 8, offset: 91166},
+																								pos: position{line: 2902, col: 8, offset: 91634},
 																								expr: &anyMatcher{
-																									line: 2887, col: 9, offset: 91167,
+																									line: 2902, col: 9, offset: 91635,
 																								},
 																							},
 																						},
@@ -34624,27 +34657,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1014, col: 5, offset: 31521},
+													pos:   position{line: 1021, col: 5, offset: 31764},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1014, col: 9, offset: 31525},
+														pos: position{line: 1021, col: 9, offset: 31768},
 														expr: &choiceExpr{
-															pos: position{line: 1020, col: 26, offset: 31707},
+															pos: position{line: 1027, col: 26, offset: 31950},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 779, col: 5, offset: 24964},
+																	pos: position{line: 786, col: 5, offset: 25207},
 																	run: (*parser).callonListContinuationElement1057,
 																	expr: &seqExpr{
-																		pos: position{line: 779, col: 5, offset: 24964},
+																		pos: position{line: 786, col: 5, offset: 25207},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 779, col: 5, offset: 24964},
+																				pos:   position{line: 786, col: 5, offset: 25207},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 779, col: 16, offset: 24975},
+																					pos: position{line: 786, col: 16, offset: 25218},
 																					run: (*parser).callonListContinuationElement1060,
 																					expr: &litMatcher{
-																						pos:        position{line: 779, col: 16, offset: 24975},
+																						pos:        position{line: 786, col: 16, offset: 25218},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -34652,12 +34685,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 781, col: 8, offset: 25052},
+																				pos: position{line: 788, col: 8, offset: 25295},
 																				expr: &actionExpr{
-																					pos: position{line: 2868, col: 10, offset: 90818},
+																					pos: position{line: 2883, col: 10, offset: 91286},
 																					run: (*parser).callonListContinuationElement1063,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2868, col: 10, offset: 90818},
+																						pos:        position{line: 2883, col: 10, offset: 91286},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34666,28 +34699,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2890, col: 8, offset: 91216},
+																				pos: position{line: 2905, col: 8, offset: 91684},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2877, col: 12, offset: 90989},
+																						pos: position{line: 2892, col: 12, offset: 91457},
 																						run: (*parser).callonListContinuationElement1066,
 																						expr: &choiceExpr{
-																							pos: position{line: 2877, col: 13, offset: 90990},
+																							pos: position{line: 2892, col: 13, offset: 91458},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2877, col: 13, offset: 90990},
+																									pos:        position{line: 2892, col: 13, offset: 91458},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2877, col: 20, offset: 90997},
+																									pos:        position{line: 2892, col: 20, offset: 91465},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2877, col: 29, offset: 91006},
+																									pos:        position{line: 2892, col: 29, offset: 91474},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34696,9 +34729,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2887, col: 8, offset: 91166},
+																						pos: position{line: 2902, col: 8, offset: 91634},
 																						expr: &anyMatcher{
-																							line: 2887, col: 9, offset: 91167,
+																							line: 2902, col: 9, offset: 91635,
 																						},
 																					},
 																				},
@@ -34707,9 +34740,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2887, col: 8, offset: 91166},
+																	pos: position{line: 2902, col: 8, offset: 91634},
 																	expr: &anyMatcher{
-																		line: 2887, col: 9, offset: 91167,
+																		line: 2902, col: 9, offset: 91635,
 																	},
 																},
 															},
@@ -34720,39 +34753,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1032, col: 5, offset: 31949},
+										pos: position{line: 1039, col: 5, offset: 32192},
 										run: (*parser).callonListContinuationElement1075,
 										expr: &seqExpr{
-											pos: position{line: 1032, col: 5, offset: 31949},
+											pos: position{line: 1039, col: 5, offset: 32192},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1032, col: 5, offset: 31949},
+													pos:   position{line: 1039, col: 5, offset: 32192},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 793, col: 5, offset: 25447},
+														pos: position{line: 800, col: 5, offset: 25690},
 														run: (*parser).callonListContinuationElement1078,
 														expr: &seqExpr{
-															pos: position{line: 793, col: 5, offset: 25447},
+															pos: position{line: 800, col: 5, offset: 25690},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 793, col: 5, offset: 25447},
+																	pos:   position{line: 800, col: 5, offset: 25690},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 793, col: 16, offset: 25458},
+																		pos: position{line: 800, col: 16, offset: 25701},
 																		run: (*parser).callonListContinuationElement1081,
 																		expr: &seqExpr{
-																			pos: position{line: 793, col: 16, offset: 25458},
+																			pos: position{line: 800, col: 16, offset: 25701},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 793, col: 16, offset: 25458},
+																					pos:        position{line: 800, col: 16, offset: 25701},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 793, col: 23, offset: 25465},
+																					pos: position{line: 800, col: 23, offset: 25708},
 																					expr: &litMatcher{
-																						pos:        position{line: 793, col: 23, offset: 25465},
+																						pos:        position{line: 800, col: 23, offset: 25708},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -34763,12 +34796,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 795, col: 8, offset: 25549},
+																	pos: position{line: 802, col: 8, offset: 25792},
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 10, offset: 90818},
+																		pos: position{line: 2883, col: 10, offset: 91286},
 																		run: (*parser).callonListContinuationElement1087,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90818},
+																			pos:        position{line: 2883, col: 10, offset: 91286},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34777,28 +34810,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonListContinuationElement1090,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34807,9 +34840,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -34819,56 +34852,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1033, col: 5, offset: 31992},
+													pos: position{line: 1040, col: 5, offset: 32235},
 													run: (*parser).callonListContinuationElement1097,
 												},
 												&labeledExpr{
-													pos:   position{line: 1036, col: 5, offset: 32084},
+													pos:   position{line: 1043, col: 5, offset: 32327},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1051, col: 5, offset: 32514},
+														pos: position{line: 1058, col: 5, offset: 32757},
 														expr: &actionExpr{
-															pos: position{line: 1051, col: 6, offset: 32515},
+															pos: position{line: 1058, col: 6, offset: 32758},
 															run: (*parser).callonListContinuationElement1100,
 															expr: &seqExpr{
-																pos: position{line: 1051, col: 6, offset: 32515},
+																pos: position{line: 1058, col: 6, offset: 32758},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1051, col: 6, offset: 32515},
+																		pos: position{line: 1058, col: 6, offset: 32758},
 																		expr: &choiceExpr{
-																			pos: position{line: 1044, col: 5, offset: 32348},
+																			pos: position{line: 1051, col: 5, offset: 32591},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1044, col: 5, offset: 32348},
+																					pos: position{line: 1051, col: 5, offset: 32591},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1044, col: 5, offset: 32348},
+																							pos:   position{line: 1051, col: 5, offset: 32591},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 793, col: 5, offset: 25447},
+																								pos: position{line: 800, col: 5, offset: 25690},
 																								run: (*parser).callonListContinuationElement1106,
 																								expr: &seqExpr{
-																									pos: position{line: 793, col: 5, offset: 25447},
+																									pos: position{line: 800, col: 5, offset: 25690},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 793, col: 5, offset: 25447},
+																											pos:   position{line: 800, col: 5, offset: 25690},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 793, col: 16, offset: 25458},
+																												pos: position{line: 800, col: 16, offset: 25701},
 																												run: (*parser).callonListContinuationElement1109,
 																												expr: &seqExpr{
-																													pos: position{line: 793, col: 16, offset: 25458},
+																													pos: position{line: 800, col: 16, offset: 25701},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 793, col: 16, offset: 25458},
+																															pos:        position{line: 800, col: 16, offset: 25701},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 793, col: 23, offset: 25465},
+																															pos: position{line: 800, col: 23, offset: 25708},
 																															expr: &litMatcher{
-																																pos:        position{line: 793, col: 23, offset: 25465},
+																																pos:        position{line: 800, col: 23, offset: 25708},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -34879,12 +34912,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 795, col: 8, offset: 25549},
+																											pos: position{line: 802, col: 8, offset: 25792},
 																											expr: &actionExpr{
-																												pos: position{line: 2868, col: 10, offset: 90818},
+																												pos: position{line: 2883, col: 10, offset: 91286},
 																												run: (*parser).callonListContinuationElement1115,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 10, offset: 90818},
+																													pos:        position{line: 2883, col: 10, offset: 91286},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34893,28 +34926,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2890, col: 8, offset: 91216},
+																											pos: position{line: 2905, col: 8, offset: 91684},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2877, col: 12, offset: 90989},
+																													pos: position{line: 2892, col: 12, offset: 91457},
 																													run: (*parser).callonListContinuationElement1118,
 																													expr: &choiceExpr{
-																														pos: position{line: 2877, col: 13, offset: 90990},
+																														pos: position{line: 2892, col: 13, offset: 91458},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34923,9 +34956,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2887, col: 8, offset: 91166},
+																													pos: position{line: 2902, col: 8, offset: 91634},
 																													expr: &anyMatcher{
-																														line: 2887, col: 9, offset: 91167,
+																														line: 2902, col: 9, offset: 91635,
 																													},
 																												},
 																											},
@@ -34935,45 +34968,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1045, col: 5, offset: 32383},
+																							pos: position{line: 1052, col: 5, offset: 32626},
 																							run: (*parser).callonListContinuationElement1125,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1052, col: 5, offset: 32549},
+																		pos:   position{line: 1059, col: 5, offset: 32792},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26191},
+																			pos: position{line: 821, col: 5, offset: 26434},
 																			run: (*parser).callonListContinuationElement1129,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26191},
+																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2885, col: 11, offset: 91152},
+																						pos: position{line: 2900, col: 11, offset: 91620},
 																						expr: &anyMatcher{
-																							line: 2885, col: 13, offset: 91154,
+																							line: 2900, col: 13, offset: 91622,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26266},
+																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2814, col: 13, offset: 89344},
+																							pos: position{line: 2829, col: 13, offset: 89812},
 																							run: (*parser).callonListContinuationElement1134,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2814, col: 13, offset: 89344},
+																								pos: position{line: 2829, col: 13, offset: 89812},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2814, col: 13, offset: 89344},
+																									pos:        position{line: 2829, col: 13, offset: 89812},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34983,28 +35016,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2890, col: 8, offset: 91216},
+																						pos: position{line: 2905, col: 8, offset: 91684},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2877, col: 12, offset: 90989},
+																								pos: position{line: 2892, col: 12, offset: 91457},
 																								run: (*parser).callonListContinuationElement1138,
 																								expr: &choiceExpr{
-																									pos: position{line: 2877, col: 13, offset: 90990},
+																									pos: position{line: 2892, col: 13, offset: 91458},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 13, offset: 90990},
+																											pos:        position{line: 2892, col: 13, offset: 91458},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 20, offset: 90997},
+																											pos:        position{line: 2892, col: 20, offset: 91465},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 29, offset: 91006},
+																											pos:        position{line: 2892, col: 29, offset: 91474},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35013,9 +35046,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2887, col: 8, offset: 91166},
+																								pos: position{line: 2902, col: 8, offset: 91634},
 																								expr: &anyMatcher{
-																									line: 2887, col: 9, offset: 91167,
+																									line: 2902, col: 9, offset: 91635,
 																								},
 																							},
 																						},
@@ -35030,44 +35063,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1037, col: 5, offset: 32122},
+													pos:   position{line: 1044, col: 5, offset: 32365},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1037, col: 9, offset: 32126},
+														pos: position{line: 1044, col: 9, offset: 32369},
 														expr: &choiceExpr{
-															pos: position{line: 1044, col: 5, offset: 32348},
+															pos: position{line: 1051, col: 5, offset: 32591},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1044, col: 5, offset: 32348},
+																	pos: position{line: 1051, col: 5, offset: 32591},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1044, col: 5, offset: 32348},
+																			pos:   position{line: 1051, col: 5, offset: 32591},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 793, col: 5, offset: 25447},
+																				pos: position{line: 800, col: 5, offset: 25690},
 																				run: (*parser).callonListContinuationElement1150,
 																				expr: &seqExpr{
-																					pos: position{line: 793, col: 5, offset: 25447},
+																					pos: position{line: 800, col: 5, offset: 25690},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 793, col: 5, offset: 25447},
+																							pos:   position{line: 800, col: 5, offset: 25690},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 793, col: 16, offset: 25458},
+																								pos: position{line: 800, col: 16, offset: 25701},
 																								run: (*parser).callonListContinuationElement1153,
 																								expr: &seqExpr{
-																									pos: position{line: 793, col: 16, offset: 25458},
+																									pos: position{line: 800, col: 16, offset: 25701},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 793, col: 16, offset: 25458},
+																											pos:        position{line: 800, col: 16, offset: 25701},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 793, col: 23, offset: 25465},
+																											pos: position{line: 800, col: 23, offset: 25708},
 																											expr: &litMatcher{
-																												pos:        position{line: 793, col: 23, offset: 25465},
+																												pos:        position{line: 800, col: 23, offset: 25708},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -35078,12 +35111,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 795, col: 8, offset: 25549},
+																							pos: position{line: 802, col: 8, offset: 25792},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonListContinuationElement1159,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35092,28 +35125,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonListContinuationElement1162,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35122,9 +35155,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -35134,15 +35167,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1045, col: 5, offset: 32383},
+																			pos: position{line: 1052, col: 5, offset: 32626},
 																			run: (*parser).callonListContinuationElement1169,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2887, col: 8, offset: 91166},
+																	pos: position{line: 2902, col: 8, offset: 91634},
 																	expr: &anyMatcher{
-																		line: 2887, col: 9, offset: 91167,
+																		line: 2902, col: 9, offset: 91635,
 																	},
 																},
 															},
@@ -35153,39 +35186,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1060, col: 5, offset: 32700},
+										pos: position{line: 1067, col: 5, offset: 32943},
 										run: (*parser).callonListContinuationElement1172,
 										expr: &seqExpr{
-											pos: position{line: 1060, col: 5, offset: 32700},
+											pos: position{line: 1067, col: 5, offset: 32943},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1060, col: 5, offset: 32700},
+													pos:   position{line: 1067, col: 5, offset: 32943},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 800, col: 5, offset: 25697},
+														pos: position{line: 807, col: 5, offset: 25940},
 														run: (*parser).callonListContinuationElement1175,
 														expr: &seqExpr{
-															pos: position{line: 800, col: 5, offset: 25697},
+															pos: position{line: 807, col: 5, offset: 25940},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 800, col: 5, offset: 25697},
+																	pos:   position{line: 807, col: 5, offset: 25940},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 800, col: 16, offset: 25708},
+																		pos: position{line: 807, col: 16, offset: 25951},
 																		run: (*parser).callonListContinuationElement1178,
 																		expr: &seqExpr{
-																			pos: position{line: 800, col: 16, offset: 25708},
+																			pos: position{line: 807, col: 16, offset: 25951},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 800, col: 16, offset: 25708},
+																					pos:        position{line: 807, col: 16, offset: 25951},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 800, col: 23, offset: 25715},
+																					pos: position{line: 807, col: 23, offset: 25958},
 																					expr: &litMatcher{
-																						pos:        position{line: 800, col: 23, offset: 25715},
+																						pos:        position{line: 807, col: 23, offset: 25958},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -35196,12 +35229,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 802, col: 8, offset: 25799},
+																	pos: position{line: 809, col: 8, offset: 26042},
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 10, offset: 90818},
+																		pos: position{line: 2883, col: 10, offset: 91286},
 																		run: (*parser).callonListContinuationElement1184,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90818},
+																			pos:        position{line: 2883, col: 10, offset: 91286},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35210,28 +35243,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonListContinuationElement1187,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35240,9 +35273,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -35252,56 +35285,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1061, col: 5, offset: 32737},
+													pos: position{line: 1068, col: 5, offset: 32980},
 													run: (*parser).callonListContinuationElement1194,
 												},
 												&labeledExpr{
-													pos:   position{line: 1064, col: 5, offset: 32829},
+													pos:   position{line: 1071, col: 5, offset: 33072},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1079, col: 4, offset: 33210},
+														pos: position{line: 1086, col: 4, offset: 33453},
 														expr: &actionExpr{
-															pos: position{line: 1079, col: 5, offset: 33211},
+															pos: position{line: 1086, col: 5, offset: 33454},
 															run: (*parser).callonListContinuationElement1197,
 															expr: &seqExpr{
-																pos: position{line: 1079, col: 5, offset: 33211},
+																pos: position{line: 1086, col: 5, offset: 33454},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1079, col: 5, offset: 33211},
+																		pos: position{line: 1086, col: 5, offset: 33454},
 																		expr: &choiceExpr{
-																			pos: position{line: 1072, col: 5, offset: 33057},
+																			pos: position{line: 1079, col: 5, offset: 33300},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1072, col: 5, offset: 33057},
+																					pos: position{line: 1079, col: 5, offset: 33300},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1072, col: 5, offset: 33057},
+																							pos:   position{line: 1079, col: 5, offset: 33300},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 800, col: 5, offset: 25697},
+																								pos: position{line: 807, col: 5, offset: 25940},
 																								run: (*parser).callonListContinuationElement1203,
 																								expr: &seqExpr{
-																									pos: position{line: 800, col: 5, offset: 25697},
+																									pos: position{line: 807, col: 5, offset: 25940},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 800, col: 5, offset: 25697},
+																											pos:   position{line: 807, col: 5, offset: 25940},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 800, col: 16, offset: 25708},
+																												pos: position{line: 807, col: 16, offset: 25951},
 																												run: (*parser).callonListContinuationElement1206,
 																												expr: &seqExpr{
-																													pos: position{line: 800, col: 16, offset: 25708},
+																													pos: position{line: 807, col: 16, offset: 25951},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 800, col: 16, offset: 25708},
+																															pos:        position{line: 807, col: 16, offset: 25951},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 800, col: 23, offset: 25715},
+																															pos: position{line: 807, col: 23, offset: 25958},
 																															expr: &litMatcher{
-																																pos:        position{line: 800, col: 23, offset: 25715},
+																																pos:        position{line: 807, col: 23, offset: 25958},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -35312,12 +35345,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 802, col: 8, offset: 25799},
+																											pos: position{line: 809, col: 8, offset: 26042},
 																											expr: &actionExpr{
-																												pos: position{line: 2868, col: 10, offset: 90818},
+																												pos: position{line: 2883, col: 10, offset: 91286},
 																												run: (*parser).callonListContinuationElement1212,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 10, offset: 90818},
+																													pos:        position{line: 2883, col: 10, offset: 91286},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35326,28 +35359,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2890, col: 8, offset: 91216},
+																											pos: position{line: 2905, col: 8, offset: 91684},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2877, col: 12, offset: 90989},
+																													pos: position{line: 2892, col: 12, offset: 91457},
 																													run: (*parser).callonListContinuationElement1215,
 																													expr: &choiceExpr{
-																														pos: position{line: 2877, col: 13, offset: 90990},
+																														pos: position{line: 2892, col: 13, offset: 91458},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35356,9 +35389,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2887, col: 8, offset: 91166},
+																													pos: position{line: 2902, col: 8, offset: 91634},
 																													expr: &anyMatcher{
-																														line: 2887, col: 9, offset: 91167,
+																														line: 2902, col: 9, offset: 91635,
 																													},
 																												},
 																											},
@@ -35368,45 +35401,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1073, col: 5, offset: 33086},
+																							pos: position{line: 1080, col: 5, offset: 33329},
 																							run: (*parser).callonListContinuationElement1222,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1080, col: 5, offset: 33239},
+																		pos:   position{line: 1087, col: 5, offset: 33482},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26191},
+																			pos: position{line: 821, col: 5, offset: 26434},
 																			run: (*parser).callonListContinuationElement1226,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26191},
+																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2885, col: 11, offset: 91152},
+																						pos: position{line: 2900, col: 11, offset: 91620},
 																						expr: &anyMatcher{
-																							line: 2885, col: 13, offset: 91154,
+																							line: 2900, col: 13, offset: 91622,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26266},
+																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2814, col: 13, offset: 89344},
+																							pos: position{line: 2829, col: 13, offset: 89812},
 																							run: (*parser).callonListContinuationElement1231,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2814, col: 13, offset: 89344},
+																								pos: position{line: 2829, col: 13, offset: 89812},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2814, col: 13, offset: 89344},
+																									pos:        position{line: 2829, col: 13, offset: 89812},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35416,28 +35449,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2890, col: 8, offset: 91216},
+																						pos: position{line: 2905, col: 8, offset: 91684},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2877, col: 12, offset: 90989},
+																								pos: position{line: 2892, col: 12, offset: 91457},
 																								run: (*parser).callonListContinuationElement1235,
 																								expr: &choiceExpr{
-																									pos: position{line: 2877, col: 13, offset: 90990},
+																									pos: position{line: 2892, col: 13, offset: 91458},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 13, offset: 90990},
+																											pos:        position{line: 2892, col: 13, offset: 91458},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 20, offset: 90997},
+																											pos:        position{line: 2892, col: 20, offset: 91465},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 29, offset: 91006},
+																											pos:        position{line: 2892, col: 29, offset: 91474},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35446,9 +35479,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2887, col: 8, offset: 91166},
+																								pos: position{line: 2902, col: 8, offset: 91634},
 																								expr: &anyMatcher{
-																									line: 2887, col: 9, offset: 91167,
+																									line: 2902, col: 9, offset: 91635,
 																								},
 																							},
 																						},
@@ -35463,44 +35496,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1065, col: 5, offset: 32861},
+													pos:   position{line: 1072, col: 5, offset: 33104},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1065, col: 9, offset: 32865},
+														pos: position{line: 1072, col: 9, offset: 33108},
 														expr: &choiceExpr{
-															pos: position{line: 1072, col: 5, offset: 33057},
+															pos: position{line: 1079, col: 5, offset: 33300},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1072, col: 5, offset: 33057},
+																	pos: position{line: 1079, col: 5, offset: 33300},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1072, col: 5, offset: 33057},
+																			pos:   position{line: 1079, col: 5, offset: 33300},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 800, col: 5, offset: 25697},
+																				pos: position{line: 807, col: 5, offset: 25940},
 																				run: (*parser).callonListContinuationElement1247,
 																				expr: &seqExpr{
-																					pos: position{line: 800, col: 5, offset: 25697},
+																					pos: position{line: 807, col: 5, offset: 25940},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 800, col: 5, offset: 25697},
+																							pos:   position{line: 807, col: 5, offset: 25940},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 800, col: 16, offset: 25708},
+																								pos: position{line: 807, col: 16, offset: 25951},
 																								run: (*parser).callonListContinuationElement1250,
 																								expr: &seqExpr{
-																									pos: position{line: 800, col: 16, offset: 25708},
+																									pos: position{line: 807, col: 16, offset: 25951},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 800, col: 16, offset: 25708},
+																											pos:        position{line: 807, col: 16, offset: 25951},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 800, col: 23, offset: 25715},
+																											pos: position{line: 807, col: 23, offset: 25958},
 																											expr: &litMatcher{
-																												pos:        position{line: 800, col: 23, offset: 25715},
+																												pos:        position{line: 807, col: 23, offset: 25958},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -35511,12 +35544,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 802, col: 8, offset: 25799},
+																							pos: position{line: 809, col: 8, offset: 26042},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonListContinuationElement1256,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35525,28 +35558,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonListContinuationElement1259,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35555,9 +35588,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -35567,15 +35600,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1073, col: 5, offset: 33086},
+																			pos: position{line: 1080, col: 5, offset: 33329},
 																			run: (*parser).callonListContinuationElement1266,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2887, col: 8, offset: 91166},
+																	pos: position{line: 2902, col: 8, offset: 91634},
 																	expr: &anyMatcher{
-																		line: 2887, col: 9, offset: 91167,
+																		line: 2902, col: 9, offset: 91635,
 																	},
 																},
 															},
@@ -35586,39 +35619,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1088, col: 5, offset: 33394},
+										pos: position{line: 1095, col: 5, offset: 33637},
 										run: (*parser).callonListContinuationElement1269,
 										expr: &seqExpr{
-											pos: position{line: 1088, col: 5, offset: 33394},
+											pos: position{line: 1095, col: 5, offset: 33637},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1088, col: 5, offset: 33394},
+													pos:   position{line: 1095, col: 5, offset: 33637},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 807, col: 5, offset: 25943},
+														pos: position{line: 814, col: 5, offset: 26186},
 														run: (*parser).callonListContinuationElement1272,
 														expr: &seqExpr{
-															pos: position{line: 807, col: 5, offset: 25943},
+															pos: position{line: 814, col: 5, offset: 26186},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 807, col: 5, offset: 25943},
+																	pos:   position{line: 814, col: 5, offset: 26186},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 807, col: 16, offset: 25954},
+																		pos: position{line: 814, col: 16, offset: 26197},
 																		run: (*parser).callonListContinuationElement1275,
 																		expr: &seqExpr{
-																			pos: position{line: 807, col: 16, offset: 25954},
+																			pos: position{line: 814, col: 16, offset: 26197},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 807, col: 16, offset: 25954},
+																					pos:        position{line: 814, col: 16, offset: 26197},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 807, col: 23, offset: 25961},
+																					pos: position{line: 814, col: 23, offset: 26204},
 																					expr: &litMatcher{
-																						pos:        position{line: 807, col: 23, offset: 25961},
+																						pos:        position{line: 814, col: 23, offset: 26204},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -35629,12 +35662,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 809, col: 8, offset: 26045},
+																	pos: position{line: 816, col: 8, offset: 26288},
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 10, offset: 90818},
+																		pos: position{line: 2883, col: 10, offset: 91286},
 																		run: (*parser).callonListContinuationElement1281,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90818},
+																			pos:        position{line: 2883, col: 10, offset: 91286},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35643,28 +35676,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonListContinuationElement1284,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35673,9 +35706,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -35685,56 +35718,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1089, col: 5, offset: 33433},
+													pos: position{line: 1096, col: 5, offset: 33676},
 													run: (*parser).callonListContinuationElement1291,
 												},
 												&labeledExpr{
-													pos:   position{line: 1092, col: 5, offset: 33525},
+													pos:   position{line: 1099, col: 5, offset: 33768},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1107, col: 4, offset: 33922},
+														pos: position{line: 1114, col: 4, offset: 34165},
 														expr: &actionExpr{
-															pos: position{line: 1107, col: 5, offset: 33923},
+															pos: position{line: 1114, col: 5, offset: 34166},
 															run: (*parser).callonListContinuationElement1294,
 															expr: &seqExpr{
-																pos: position{line: 1107, col: 5, offset: 33923},
+																pos: position{line: 1114, col: 5, offset: 34166},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1107, col: 5, offset: 33923},
+																		pos: position{line: 1114, col: 5, offset: 34166},
 																		expr: &choiceExpr{
-																			pos: position{line: 1100, col: 5, offset: 33765},
+																			pos: position{line: 1107, col: 5, offset: 34008},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1100, col: 5, offset: 33765},
+																					pos: position{line: 1107, col: 5, offset: 34008},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1100, col: 5, offset: 33765},
+																							pos:   position{line: 1107, col: 5, offset: 34008},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 807, col: 5, offset: 25943},
+																								pos: position{line: 814, col: 5, offset: 26186},
 																								run: (*parser).callonListContinuationElement1300,
 																								expr: &seqExpr{
-																									pos: position{line: 807, col: 5, offset: 25943},
+																									pos: position{line: 814, col: 5, offset: 26186},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 807, col: 5, offset: 25943},
+																											pos:   position{line: 814, col: 5, offset: 26186},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 807, col: 16, offset: 25954},
+																												pos: position{line: 814, col: 16, offset: 26197},
 																												run: (*parser).callonListContinuationElement1303,
 																												expr: &seqExpr{
-																													pos: position{line: 807, col: 16, offset: 25954},
+																													pos: position{line: 814, col: 16, offset: 26197},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 807, col: 16, offset: 25954},
+																															pos:        position{line: 814, col: 16, offset: 26197},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 807, col: 23, offset: 25961},
+																															pos: position{line: 814, col: 23, offset: 26204},
 																															expr: &litMatcher{
-																																pos:        position{line: 807, col: 23, offset: 25961},
+																																pos:        position{line: 814, col: 23, offset: 26204},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -35745,12 +35778,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 809, col: 8, offset: 26045},
+																											pos: position{line: 816, col: 8, offset: 26288},
 																											expr: &actionExpr{
-																												pos: position{line: 2868, col: 10, offset: 90818},
+																												pos: position{line: 2883, col: 10, offset: 91286},
 																												run: (*parser).callonListContinuationElement1309,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 10, offset: 90818},
+																													pos:        position{line: 2883, col: 10, offset: 91286},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35759,28 +35792,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2890, col: 8, offset: 91216},
+																											pos: position{line: 2905, col: 8, offset: 91684},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2877, col: 12, offset: 90989},
+																													pos: position{line: 2892, col: 12, offset: 91457},
 																													run: (*parser).callonListContinuationElement1312,
 																													expr: &choiceExpr{
-																														pos: position{line: 2877, col: 13, offset: 90990},
+																														pos: position{line: 2892, col: 13, offset: 91458},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35789,9 +35822,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2887, col: 8, offset: 91166},
+																													pos: position{line: 2902, col: 8, offset: 91634},
 																													expr: &anyMatcher{
-																														line: 2887, col: 9, offset: 91167,
+																														line: 2902, col: 9, offset: 91635,
 																													},
 																												},
 																											},
@@ -35801,45 +35834,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1101, col: 5, offset: 33796},
+																							pos: position{line: 1108, col: 5, offset: 34039},
 																							run: (*parser).callonListContinuationElement1319,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1108, col: 5, offset: 33953},
+																		pos:   position{line: 1115, col: 5, offset: 34196},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26191},
+																			pos: position{line: 821, col: 5, offset: 26434},
 																			run: (*parser).callonListContinuationElement1323,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26191},
+																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2885, col: 11, offset: 91152},
+																						pos: position{line: 2900, col: 11, offset: 91620},
 																						expr: &anyMatcher{
-																							line: 2885, col: 13, offset: 91154,
+																							line: 2900, col: 13, offset: 91622,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 815, col: 5, offset: 26266},
+																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2814, col: 13, offset: 89344},
+																							pos: position{line: 2829, col: 13, offset: 89812},
 																							run: (*parser).callonListContinuationElement1328,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2814, col: 13, offset: 89344},
+																								pos: position{line: 2829, col: 13, offset: 89812},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2814, col: 13, offset: 89344},
+																									pos:        position{line: 2829, col: 13, offset: 89812},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35849,28 +35882,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2890, col: 8, offset: 91216},
+																						pos: position{line: 2905, col: 8, offset: 91684},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2877, col: 12, offset: 90989},
+																								pos: position{line: 2892, col: 12, offset: 91457},
 																								run: (*parser).callonListContinuationElement1332,
 																								expr: &choiceExpr{
-																									pos: position{line: 2877, col: 13, offset: 90990},
+																									pos: position{line: 2892, col: 13, offset: 91458},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 13, offset: 90990},
+																											pos:        position{line: 2892, col: 13, offset: 91458},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 20, offset: 90997},
+																											pos:        position{line: 2892, col: 20, offset: 91465},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 29, offset: 91006},
+																											pos:        position{line: 2892, col: 29, offset: 91474},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35879,9 +35912,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2887, col: 8, offset: 91166},
+																								pos: position{line: 2902, col: 8, offset: 91634},
 																								expr: &anyMatcher{
-																									line: 2887, col: 9, offset: 91167,
+																									line: 2902, col: 9, offset: 91635,
 																								},
 																							},
 																						},
@@ -35896,44 +35929,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1093, col: 5, offset: 33559},
+													pos:   position{line: 1100, col: 5, offset: 33802},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1093, col: 9, offset: 33563},
+														pos: position{line: 1100, col: 9, offset: 33806},
 														expr: &choiceExpr{
-															pos: position{line: 1100, col: 5, offset: 33765},
+															pos: position{line: 1107, col: 5, offset: 34008},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1100, col: 5, offset: 33765},
+																	pos: position{line: 1107, col: 5, offset: 34008},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1100, col: 5, offset: 33765},
+																			pos:   position{line: 1107, col: 5, offset: 34008},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 807, col: 5, offset: 25943},
+																				pos: position{line: 814, col: 5, offset: 26186},
 																				run: (*parser).callonListContinuationElement1344,
 																				expr: &seqExpr{
-																					pos: position{line: 807, col: 5, offset: 25943},
+																					pos: position{line: 814, col: 5, offset: 26186},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 807, col: 5, offset: 25943},
+																							pos:   position{line: 814, col: 5, offset: 26186},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 807, col: 16, offset: 25954},
+																								pos: position{line: 814, col: 16, offset: 26197},
 																								run: (*parser).callonListContinuationElement1347,
 																								expr: &seqExpr{
-																									pos: position{line: 807, col: 16, offset: 25954},
+																									pos: position{line: 814, col: 16, offset: 26197},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 807, col: 16, offset: 25954},
+																											pos:        position{line: 814, col: 16, offset: 26197},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 807, col: 23, offset: 25961},
+																											pos: position{line: 814, col: 23, offset: 26204},
 																											expr: &litMatcher{
-																												pos:        position{line: 807, col: 23, offset: 25961},
+																												pos:        position{line: 814, col: 23, offset: 26204},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -35944,12 +35977,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 809, col: 8, offset: 26045},
+																							pos: position{line: 816, col: 8, offset: 26288},
 																							expr: &actionExpr{
-																								pos: position{line: 2868, col: 10, offset: 90818},
+																								pos: position{line: 2883, col: 10, offset: 91286},
 																								run: (*parser).callonListContinuationElement1353,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2868, col: 10, offset: 90818},
+																									pos:        position{line: 2883, col: 10, offset: 91286},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35958,28 +35991,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2890, col: 8, offset: 91216},
+																							pos: position{line: 2905, col: 8, offset: 91684},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2877, col: 12, offset: 90989},
+																									pos: position{line: 2892, col: 12, offset: 91457},
 																									run: (*parser).callonListContinuationElement1356,
 																									expr: &choiceExpr{
-																										pos: position{line: 2877, col: 13, offset: 90990},
+																										pos: position{line: 2892, col: 13, offset: 91458},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 13, offset: 90990},
+																												pos:        position{line: 2892, col: 13, offset: 91458},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 20, offset: 90997},
+																												pos:        position{line: 2892, col: 20, offset: 91465},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2877, col: 29, offset: 91006},
+																												pos:        position{line: 2892, col: 29, offset: 91474},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35988,9 +36021,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2887, col: 8, offset: 91166},
+																									pos: position{line: 2902, col: 8, offset: 91634},
 																									expr: &anyMatcher{
-																										line: 2887, col: 9, offset: 91167,
+																										line: 2902, col: 9, offset: 91635,
 																									},
 																								},
 																							},
@@ -36000,15 +36033,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1101, col: 5, offset: 33796},
+																			pos: position{line: 1108, col: 5, offset: 34039},
 																			run: (*parser).callonListContinuationElement1363,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2887, col: 8, offset: 91166},
+																	pos: position{line: 2902, col: 8, offset: 91634},
 																	expr: &anyMatcher{
-																		line: 2887, col: 9, offset: 91167,
+																		line: 2902, col: 9, offset: 91635,
 																	},
 																},
 															},
@@ -36019,52 +36052,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2713, col: 18, offset: 86408},
+										pos: position{line: 2728, col: 18, offset: 86876},
 										run: (*parser).callonListContinuationElement1366,
 										expr: &seqExpr{
-											pos: position{line: 2713, col: 18, offset: 86408},
+											pos: position{line: 2728, col: 18, offset: 86876},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2714, col: 9, offset: 86418},
+													pos: position{line: 2729, col: 9, offset: 86886},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2714, col: 9, offset: 86418},
+															pos:        position{line: 2729, col: 9, offset: 86886},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2715, col: 11, offset: 86454},
+															pos:        position{line: 2730, col: 11, offset: 86922},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2715, col: 19, offset: 86462},
+															pos:        position{line: 2730, col: 19, offset: 86930},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2715, col: 29, offset: 86472},
+															pos:        position{line: 2730, col: 29, offset: 86940},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2715, col: 37, offset: 86480},
+															pos:        position{line: 2730, col: 37, offset: 86948},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2715, col: 47, offset: 86490},
+															pos:        position{line: 2730, col: 47, offset: 86958},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2715, col: 55, offset: 86498},
+															pos:        position{line: 2730, col: 55, offset: 86966},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -36072,12 +36105,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2716, col: 11, offset: 86556},
+													pos: position{line: 2731, col: 11, offset: 87024},
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 10, offset: 90818},
+														pos: position{line: 2883, col: 10, offset: 91286},
 														run: (*parser).callonListContinuationElement1377,
 														expr: &charClassMatcher{
-															pos:        position{line: 2868, col: 10, offset: 90818},
+															pos:        position{line: 2883, col: 10, offset: 91286},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36086,28 +36119,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2890, col: 8, offset: 91216},
+													pos: position{line: 2905, col: 8, offset: 91684},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2877, col: 12, offset: 90989},
+															pos: position{line: 2892, col: 12, offset: 91457},
 															run: (*parser).callonListContinuationElement1380,
 															expr: &choiceExpr{
-																pos: position{line: 2877, col: 13, offset: 90990},
+																pos: position{line: 2892, col: 13, offset: 91458},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 13, offset: 90990},
+																		pos:        position{line: 2892, col: 13, offset: 91458},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 20, offset: 90997},
+																		pos:        position{line: 2892, col: 20, offset: 91465},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 29, offset: 91006},
+																		pos:        position{line: 2892, col: 29, offset: 91474},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36116,36 +36149,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2887, col: 8, offset: 91166},
+															pos: position{line: 2902, col: 8, offset: 91634},
 															expr: &anyMatcher{
-																line: 2887, col: 9, offset: 91167,
+																line: 2902, col: 9, offset: 91635,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2890, col: 8, offset: 91216},
+													pos: position{line: 2905, col: 8, offset: 91684},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2877, col: 12, offset: 90989},
+															pos: position{line: 2892, col: 12, offset: 91457},
 															run: (*parser).callonListContinuationElement1388,
 															expr: &choiceExpr{
-																pos: position{line: 2877, col: 13, offset: 90990},
+																pos: position{line: 2892, col: 13, offset: 91458},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 13, offset: 90990},
+																		pos:        position{line: 2892, col: 13, offset: 91458},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 20, offset: 90997},
+																		pos:        position{line: 2892, col: 20, offset: 91465},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 29, offset: 91006},
+																		pos:        position{line: 2892, col: 29, offset: 91474},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36154,9 +36187,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2887, col: 8, offset: 91166},
+															pos: position{line: 2902, col: 8, offset: 91634},
 															expr: &anyMatcher{
-																line: 2887, col: 9, offset: 91167,
+																line: 2902, col: 9, offset: 91635,
 															},
 														},
 													},
@@ -36165,28 +36198,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1563, col: 11, offset: 50491},
+										pos:  position{line: 1570, col: 11, offset: 50734},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2604, col: 5, offset: 83302},
+										pos: position{line: 2619, col: 5, offset: 83770},
 										run: (*parser).callonListContinuationElement1396,
 										expr: &seqExpr{
-											pos: position{line: 2604, col: 5, offset: 83302},
+											pos: position{line: 2619, col: 5, offset: 83770},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2610, col: 19, offset: 83459},
+													pos:        position{line: 2625, col: 19, offset: 83927},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2610, col: 26, offset: 83466},
+													pos: position{line: 2625, col: 26, offset: 83934},
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 10, offset: 90818},
+														pos: position{line: 2883, col: 10, offset: 91286},
 														run: (*parser).callonListContinuationElement1400,
 														expr: &charClassMatcher{
-															pos:        position{line: 2868, col: 10, offset: 90818},
+															pos:        position{line: 2883, col: 10, offset: 91286},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36195,28 +36228,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2890, col: 8, offset: 91216},
+													pos: position{line: 2905, col: 8, offset: 91684},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2877, col: 12, offset: 90989},
+															pos: position{line: 2892, col: 12, offset: 91457},
 															run: (*parser).callonListContinuationElement1403,
 															expr: &choiceExpr{
-																pos: position{line: 2877, col: 13, offset: 90990},
+																pos: position{line: 2892, col: 13, offset: 91458},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 13, offset: 90990},
+																		pos:        position{line: 2892, col: 13, offset: 91458},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 20, offset: 90997},
+																		pos:        position{line: 2892, col: 20, offset: 91465},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 29, offset: 91006},
+																		pos:        position{line: 2892, col: 29, offset: 91474},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36225,40 +36258,40 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2887, col: 8, offset: 91166},
+															pos: position{line: 2902, col: 8, offset: 91634},
 															expr: &anyMatcher{
-																line: 2887, col: 9, offset: 91167,
+																line: 2902, col: 9, offset: 91635,
 															},
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2605, col: 5, offset: 83326},
+													pos:   position{line: 2620, col: 5, offset: 83794},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2605, col: 11, offset: 83332},
+														pos: position{line: 2620, col: 11, offset: 83800},
 														expr: &choiceExpr{
-															pos: position{line: 2605, col: 12, offset: 83333},
+															pos: position{line: 2620, col: 12, offset: 83801},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 680, col: 14, offset: 21592},
+																	pos: position{line: 687, col: 14, offset: 21835},
 																	run: (*parser).callonListContinuationElement1413,
 																	expr: &seqExpr{
-																		pos: position{line: 680, col: 14, offset: 21592},
+																		pos: position{line: 687, col: 14, offset: 21835},
 																		exprs: []interface{}{
 																			&andExpr{
-																				pos: position{line: 2885, col: 11, offset: 91152},
+																				pos: position{line: 2900, col: 11, offset: 91620},
 																				expr: &anyMatcher{
-																					line: 2885, col: 13, offset: 91154,
+																					line: 2900, col: 13, offset: 91622,
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 680, col: 21, offset: 21599},
+																				pos: position{line: 687, col: 21, offset: 21842},
 																				expr: &actionExpr{
-																					pos: position{line: 2868, col: 10, offset: 90818},
+																					pos: position{line: 2883, col: 10, offset: 91286},
 																					run: (*parser).callonListContinuationElement1418,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2868, col: 10, offset: 90818},
+																						pos:        position{line: 2883, col: 10, offset: 91286},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -36267,28 +36300,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2890, col: 8, offset: 91216},
+																				pos: position{line: 2905, col: 8, offset: 91684},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2877, col: 12, offset: 90989},
+																						pos: position{line: 2892, col: 12, offset: 91457},
 																						run: (*parser).callonListContinuationElement1421,
 																						expr: &choiceExpr{
-																							pos: position{line: 2877, col: 13, offset: 90990},
+																							pos: position{line: 2892, col: 13, offset: 91458},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2877, col: 13, offset: 90990},
+																									pos:        position{line: 2892, col: 13, offset: 91458},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2877, col: 20, offset: 90997},
+																									pos:        position{line: 2892, col: 20, offset: 91465},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2877, col: 29, offset: 91006},
+																									pos:        position{line: 2892, col: 29, offset: 91474},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -36297,9 +36330,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2887, col: 8, offset: 91166},
+																						pos: position{line: 2902, col: 8, offset: 91634},
 																						expr: &anyMatcher{
-																							line: 2887, col: 9, offset: 91167,
+																							line: 2902, col: 9, offset: 91635,
 																						},
 																					},
 																				},
@@ -36308,32 +36341,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2617, col: 5, offset: 83578},
+																	pos: position{line: 2632, col: 5, offset: 84046},
 																	run: (*parser).callonListContinuationElement1428,
 																	expr: &seqExpr{
-																		pos: position{line: 2617, col: 5, offset: 83578},
+																		pos: position{line: 2632, col: 5, offset: 84046},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2617, col: 5, offset: 83578},
+																				pos: position{line: 2632, col: 5, offset: 84046},
 																				expr: &choiceExpr{
-																					pos: position{line: 2614, col: 22, offset: 83539},
+																					pos: position{line: 2629, col: 22, offset: 84007},
 																					alternatives: []interface{}{
 																						&seqExpr{
-																							pos: position{line: 2610, col: 19, offset: 83459},
+																							pos: position{line: 2625, col: 19, offset: 83927},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2610, col: 19, offset: 83459},
+																									pos:        position{line: 2625, col: 19, offset: 83927},
 																									val:        "|===",
 																									ignoreCase: false,
 																									want:       "\"|===\"",
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 2610, col: 26, offset: 83466},
+																									pos: position{line: 2625, col: 26, offset: 83934},
 																									expr: &actionExpr{
-																										pos: position{line: 2868, col: 10, offset: 90818},
+																										pos: position{line: 2883, col: 10, offset: 91286},
 																										run: (*parser).callonListContinuationElement1435,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2868, col: 10, offset: 90818},
+																											pos:        position{line: 2883, col: 10, offset: 91286},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -36342,28 +36375,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2890, col: 8, offset: 91216},
+																									pos: position{line: 2905, col: 8, offset: 91684},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2877, col: 12, offset: 90989},
+																											pos: position{line: 2892, col: 12, offset: 91457},
 																											run: (*parser).callonListContinuationElement1438,
 																											expr: &choiceExpr{
-																												pos: position{line: 2877, col: 13, offset: 90990},
+																												pos: position{line: 2892, col: 13, offset: 91458},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2877, col: 13, offset: 90990},
+																														pos:        position{line: 2892, col: 13, offset: 91458},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2877, col: 20, offset: 90997},
+																														pos:        position{line: 2892, col: 20, offset: 91465},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2877, col: 29, offset: 91006},
+																														pos:        position{line: 2892, col: 29, offset: 91474},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -36372,9 +36405,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2887, col: 8, offset: 91166},
+																											pos: position{line: 2902, col: 8, offset: 91634},
 																											expr: &anyMatcher{
-																												line: 2887, col: 9, offset: 91167,
+																												line: 2902, col: 9, offset: 91635,
 																											},
 																										},
 																									},
@@ -36382,59 +36415,59 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2887, col: 8, offset: 91166},
+																							pos: position{line: 2902, col: 8, offset: 91634},
 																							expr: &anyMatcher{
-																								line: 2887, col: 9, offset: 91167,
+																								line: 2902, col: 9, offset: 91635,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2618, col: 5, offset: 83601},
+																				pos:   position{line: 2633, col: 5, offset: 84069},
 																				label: "content",
 																				expr: &choiceExpr{
-																					pos: position{line: 2619, col: 9, offset: 83619},
+																					pos: position{line: 2634, col: 9, offset: 84087},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2619, col: 10, offset: 83620},
+																							pos: position{line: 2634, col: 10, offset: 84088},
 																							run: (*parser).callonListContinuationElement1449,
 																							expr: &labeledExpr{
-																								pos:   position{line: 2619, col: 10, offset: 83620},
+																								pos:   position{line: 2634, col: 10, offset: 84088},
 																								label: "cells",
 																								expr: &choiceExpr{
-																									pos: position{line: 2619, col: 17, offset: 83627},
+																									pos: position{line: 2634, col: 17, offset: 84095},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2627, col: 21, offset: 83823},
+																											pos: position{line: 2642, col: 21, offset: 84291},
 																											run: (*parser).callonListContinuationElement1452,
 																											expr: &seqExpr{
-																												pos: position{line: 2627, col: 21, offset: 83823},
+																												pos: position{line: 2642, col: 21, offset: 84291},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 2627, col: 21, offset: 83823},
+																														pos:   position{line: 2642, col: 21, offset: 84291},
 																														label: "cells",
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2627, col: 27, offset: 83829},
+																															pos: position{line: 2642, col: 27, offset: 84297},
 																															expr: &actionExpr{
-																																pos: position{line: 2632, col: 5, offset: 83904},
+																																pos: position{line: 2647, col: 5, offset: 84372},
 																																run: (*parser).callonListContinuationElement1456,
 																																expr: &seqExpr{
-																																	pos: position{line: 2632, col: 5, offset: 83904},
+																																	pos: position{line: 2647, col: 5, offset: 84372},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2632, col: 5, offset: 83904},
+																																			pos:        position{line: 2647, col: 5, offset: 84372},
 																																			val:        "|",
 																																			ignoreCase: false,
 																																			want:       "\"|\"",
 																																		},
 																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2632, col: 9, offset: 83908},
+																																			pos: position{line: 2647, col: 9, offset: 84376},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2868, col: 10, offset: 90818},
+																																				pos: position{line: 2883, col: 10, offset: 91286},
 																																				run: (*parser).callonListContinuationElement1460,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2868, col: 10, offset: 90818},
+																																					pos:        position{line: 2883, col: 10, offset: 91286},
 																																					val:        "[\\t ]",
 																																					chars:      []rune{'\t', ' '},
 																																					ignoreCase: false,
@@ -36443,21 +36476,21 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 2632, col: 16, offset: 83915},
+																																			pos:   position{line: 2647, col: 16, offset: 84383},
 																																			label: "content",
 																																			expr: &actionExpr{
-																																				pos: position{line: 2638, col: 5, offset: 84115},
+																																				pos: position{line: 2653, col: 5, offset: 84583},
 																																				run: (*parser).callonListContinuationElement1463,
 																																				expr: &labeledExpr{
-																																					pos:   position{line: 2638, col: 5, offset: 84115},
+																																					pos:   position{line: 2653, col: 5, offset: 84583},
 																																					label: "content",
 																																					expr: &actionExpr{
-																																						pos: position{line: 2638, col: 14, offset: 84124},
+																																						pos: position{line: 2653, col: 14, offset: 84592},
 																																						run: (*parser).callonListContinuationElement1465,
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2638, col: 14, offset: 84124},
+																																							pos: position{line: 2653, col: 14, offset: 84592},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2638, col: 14, offset: 84124},
+																																								pos:        position{line: 2653, col: 14, offset: 84592},
 																																								val:        "[^|\\r\\n]",
 																																								chars:      []rune{'|', '\r', '\n'},
 																																								ignoreCase: false,
@@ -36474,28 +36507,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2890, col: 8, offset: 91216},
+																														pos: position{line: 2905, col: 8, offset: 91684},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2877, col: 12, offset: 90989},
+																																pos: position{line: 2892, col: 12, offset: 91457},
 																																run: (*parser).callonListContinuationElement1469,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2877, col: 13, offset: 90990},
+																																	pos: position{line: 2892, col: 13, offset: 91458},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2877, col: 13, offset: 90990},
+																																			pos:        position{line: 2892, col: 13, offset: 91458},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2877, col: 20, offset: 90997},
+																																			pos:        position{line: 2892, col: 20, offset: 91465},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2877, col: 29, offset: 91006},
+																																			pos:        position{line: 2892, col: 29, offset: 91474},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -36504,9 +36537,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2887, col: 8, offset: 91166},
+																																pos: position{line: 2902, col: 8, offset: 91634},
 																																expr: &anyMatcher{
-																																	line: 2887, col: 9, offset: 91167,
+																																	line: 2902, col: 9, offset: 91635,
 																																},
 																															},
 																														},
@@ -36515,40 +36548,40 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 2644, col: 24, offset: 84260},
+																											pos: position{line: 2659, col: 24, offset: 84728},
 																											run: (*parser).callonListContinuationElement1476,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2644, col: 24, offset: 84260},
+																												pos:   position{line: 2659, col: 24, offset: 84728},
 																												label: "cells",
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2644, col: 30, offset: 84266},
+																													pos: position{line: 2659, col: 30, offset: 84734},
 																													expr: &actionExpr{
-																														pos: position{line: 2649, col: 5, offset: 84342},
+																														pos: position{line: 2664, col: 5, offset: 84810},
 																														run: (*parser).callonListContinuationElement1479,
 																														expr: &seqExpr{
-																															pos: position{line: 2649, col: 5, offset: 84342},
+																															pos: position{line: 2664, col: 5, offset: 84810},
 																															exprs: []interface{}{
 																																&notExpr{
-																																	pos: position{line: 2649, col: 5, offset: 84342},
+																																	pos: position{line: 2664, col: 5, offset: 84810},
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2614, col: 22, offset: 83539},
+																																		pos: position{line: 2629, col: 22, offset: 84007},
 																																		alternatives: []interface{}{
 																																			&seqExpr{
-																																				pos: position{line: 2610, col: 19, offset: 83459},
+																																				pos: position{line: 2625, col: 19, offset: 83927},
 																																				exprs: []interface{}{
 																																					&litMatcher{
-																																						pos:        position{line: 2610, col: 19, offset: 83459},
+																																						pos:        position{line: 2625, col: 19, offset: 83927},
 																																						val:        "|===",
 																																						ignoreCase: false,
 																																						want:       "\"|===\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2610, col: 26, offset: 83466},
+																																						pos: position{line: 2625, col: 26, offset: 83934},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2868, col: 10, offset: 90818},
+																																							pos: position{line: 2883, col: 10, offset: 91286},
 																																							run: (*parser).callonListContinuationElement1486,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2868, col: 10, offset: 90818},
+																																								pos:        position{line: 2883, col: 10, offset: 91286},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -36557,28 +36590,28 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&choiceExpr{
-																																						pos: position{line: 2890, col: 8, offset: 91216},
+																																						pos: position{line: 2905, col: 8, offset: 91684},
 																																						alternatives: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2877, col: 12, offset: 90989},
+																																								pos: position{line: 2892, col: 12, offset: 91457},
 																																								run: (*parser).callonListContinuationElement1489,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2877, col: 13, offset: 90990},
+																																									pos: position{line: 2892, col: 13, offset: 91458},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2877, col: 13, offset: 90990},
+																																											pos:        position{line: 2892, col: 13, offset: 91458},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2877, col: 20, offset: 90997},
+																																											pos:        position{line: 2892, col: 20, offset: 91465},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2877, col: 29, offset: 91006},
+																																											pos:        position{line: 2892, col: 29, offset: 91474},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -36587,9 +36620,9 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2887, col: 8, offset: 91166},
+																																								pos: position{line: 2902, col: 8, offset: 91634},
 																																								expr: &anyMatcher{
-																																									line: 2887, col: 9, offset: 91167,
+																																									line: 2902, col: 9, offset: 91635,
 																																								},
 																																							},
 																																						},
@@ -36597,35 +36630,35 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2887, col: 8, offset: 91166},
+																																				pos: position{line: 2902, col: 8, offset: 91634},
 																																				expr: &anyMatcher{
-																																					line: 2887, col: 9, offset: 91167,
+																																					line: 2902, col: 9, offset: 91635,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2650, col: 5, offset: 84365},
+																																	pos: position{line: 2665, col: 5, offset: 84833},
 																																	expr: &actionExpr{
-																																		pos: position{line: 680, col: 14, offset: 21592},
+																																		pos: position{line: 687, col: 14, offset: 21835},
 																																		run: (*parser).callonListContinuationElement1499,
 																																		expr: &seqExpr{
-																																			pos: position{line: 680, col: 14, offset: 21592},
+																																			pos: position{line: 687, col: 14, offset: 21835},
 																																			exprs: []interface{}{
 																																				&andExpr{
-																																					pos: position{line: 2885, col: 11, offset: 91152},
+																																					pos: position{line: 2900, col: 11, offset: 91620},
 																																					expr: &anyMatcher{
-																																						line: 2885, col: 13, offset: 91154,
+																																						line: 2900, col: 13, offset: 91622,
 																																					},
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 680, col: 21, offset: 21599},
+																																					pos: position{line: 687, col: 21, offset: 21842},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2868, col: 10, offset: 90818},
+																																						pos: position{line: 2883, col: 10, offset: 91286},
 																																						run: (*parser).callonListContinuationElement1504,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2868, col: 10, offset: 90818},
+																																							pos:        position{line: 2883, col: 10, offset: 91286},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -36634,28 +36667,28 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&choiceExpr{
-																																					pos: position{line: 2890, col: 8, offset: 91216},
+																																					pos: position{line: 2905, col: 8, offset: 91684},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 2877, col: 12, offset: 90989},
+																																							pos: position{line: 2892, col: 12, offset: 91457},
 																																							run: (*parser).callonListContinuationElement1507,
 																																							expr: &choiceExpr{
-																																								pos: position{line: 2877, col: 13, offset: 90990},
+																																								pos: position{line: 2892, col: 13, offset: 91458},
 																																								alternatives: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2877, col: 13, offset: 90990},
+																																										pos:        position{line: 2892, col: 13, offset: 91458},
 																																										val:        "\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2877, col: 20, offset: 90997},
+																																										pos:        position{line: 2892, col: 20, offset: 91465},
 																																										val:        "\r\n",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\\n\"",
 																																									},
 																																									&litMatcher{
-																																										pos:        position{line: 2877, col: 29, offset: 91006},
+																																										pos:        position{line: 2892, col: 29, offset: 91474},
 																																										val:        "\r",
 																																										ignoreCase: false,
 																																										want:       "\"\\r\"",
@@ -36664,9 +36697,9 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&notExpr{
-																																							pos: position{line: 2887, col: 8, offset: 91166},
+																																							pos: position{line: 2902, col: 8, offset: 91634},
 																																							expr: &anyMatcher{
-																																								line: 2887, col: 9, offset: 91167,
+																																								line: 2902, col: 9, offset: 91635,
 																																							},
 																																						},
 																																					},
@@ -36676,17 +36709,17 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2651, col: 5, offset: 84380},
+																																	pos:   position{line: 2666, col: 5, offset: 84848},
 																																	label: "format",
 																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2651, col: 12, offset: 84387},
+																																		pos: position{line: 2666, col: 12, offset: 84855},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2668, col: 20, offset: 84893},
+																																			pos: position{line: 2683, col: 20, offset: 85361},
 																																			run: (*parser).callonListContinuationElement1516,
 																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2668, col: 20, offset: 84893},
+																																				pos: position{line: 2683, col: 20, offset: 85361},
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2668, col: 20, offset: 84893},
+																																					pos:        position{line: 2683, col: 20, offset: 85361},
 																																					val:        "[^ |\\r\\n]",
 																																					chars:      []rune{' ', '|', '\r', '\n'},
 																																					ignoreCase: false,
@@ -36697,18 +36730,18 @@ var g = &grammar{
 																																	},
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2651, col: 31, offset: 84406},
+																																	pos:        position{line: 2666, col: 31, offset: 84874},
 																																	val:        "|",
 																																	ignoreCase: false,
 																																	want:       "\"|\"",
 																																},
 																																&zeroOrMoreExpr{
-																																	pos: position{line: 2651, col: 35, offset: 84410},
+																																	pos: position{line: 2666, col: 35, offset: 84878},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2868, col: 10, offset: 90818},
+																																		pos: position{line: 2883, col: 10, offset: 91286},
 																																		run: (*parser).callonListContinuationElement1521,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2868, col: 10, offset: 90818},
+																																			pos:        position{line: 2883, col: 10, offset: 91286},
 																																			val:        "[\\t ]",
 																																			chars:      []rune{'\t', ' '},
 																																			ignoreCase: false,
@@ -36717,30 +36750,30 @@ var g = &grammar{
 																																	},
 																																},
 																																&zeroOrOneExpr{
-																																	pos: position{line: 2651, col: 42, offset: 84417},
+																																	pos: position{line: 2666, col: 42, offset: 84885},
 																																	expr: &seqExpr{
-																																		pos: position{line: 2651, col: 43, offset: 84418},
+																																		pos: position{line: 2666, col: 43, offset: 84886},
 																																		exprs: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 2877, col: 12, offset: 90989},
+																																				pos: position{line: 2892, col: 12, offset: 91457},
 																																				run: (*parser).callonListContinuationElement1525,
 																																				expr: &choiceExpr{
-																																					pos: position{line: 2877, col: 13, offset: 90990},
+																																					pos: position{line: 2892, col: 13, offset: 91458},
 																																					alternatives: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2877, col: 13, offset: 90990},
+																																							pos:        position{line: 2892, col: 13, offset: 91458},
 																																							val:        "\n",
 																																							ignoreCase: false,
 																																							want:       "\"\\n\"",
 																																						},
 																																						&litMatcher{
-																																							pos:        position{line: 2877, col: 20, offset: 90997},
+																																							pos:        position{line: 2892, col: 20, offset: 91465},
 																																							val:        "\r\n",
 																																							ignoreCase: false,
 																																							want:       "\"\\r\\n\"",
 																																						},
 																																						&litMatcher{
-																																							pos:        position{line: 2877, col: 29, offset: 91006},
+																																							pos:        position{line: 2892, col: 29, offset: 91474},
 																																							val:        "\r",
 																																							ignoreCase: false,
 																																							want:       "\"\\r\"",
@@ -36749,38 +36782,38 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2651, col: 51, offset: 84426},
+																																				pos: position{line: 2666, col: 51, offset: 84894},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2478, col: 22, offset: 79761},
+																																					pos: position{line: 2493, col: 22, offset: 80229},
 																																					run: (*parser).callonListContinuationElement1531,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2478, col: 22, offset: 79761},
+																																						pos: position{line: 2493, col: 22, offset: 80229},
 																																						exprs: []interface{}{
 																																							&litMatcher{
-																																								pos:        position{line: 2483, col: 31, offset: 79982},
+																																								pos:        position{line: 2498, col: 31, offset: 80450},
 																																								val:        "//",
 																																								ignoreCase: false,
 																																								want:       "\"//\"",
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2483, col: 36, offset: 79987},
+																																								pos: position{line: 2498, col: 36, offset: 80455},
 																																								expr: &litMatcher{
-																																									pos:        position{line: 2483, col: 37, offset: 79988},
+																																									pos:        position{line: 2498, col: 37, offset: 80456},
 																																									val:        "//",
 																																									ignoreCase: false,
 																																									want:       "\"//\"",
 																																								},
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2478, col: 49, offset: 79788},
+																																								pos:   position{line: 2493, col: 49, offset: 80256},
 																																								label: "content",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2814, col: 13, offset: 89344},
+																																									pos: position{line: 2829, col: 13, offset: 89812},
 																																									run: (*parser).callonListContinuationElement1537,
 																																									expr: &zeroOrMoreExpr{
-																																										pos: position{line: 2814, col: 13, offset: 89344},
+																																										pos: position{line: 2829, col: 13, offset: 89812},
 																																										expr: &charClassMatcher{
-																																											pos:        position{line: 2814, col: 13, offset: 89344},
+																																											pos:        position{line: 2829, col: 13, offset: 89812},
 																																											val:        "[^\\r\\n]",
 																																											chars:      []rune{'\r', '\n'},
 																																											ignoreCase: false,
@@ -36790,28 +36823,28 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&choiceExpr{
-																																								pos: position{line: 2890, col: 8, offset: 91216},
+																																								pos: position{line: 2905, col: 8, offset: 91684},
 																																								alternatives: []interface{}{
 																																									&actionExpr{
-																																										pos: position{line: 2877, col: 12, offset: 90989},
+																																										pos: position{line: 2892, col: 12, offset: 91457},
 																																										run: (*parser).callonListContinuationElement1541,
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2877, col: 13, offset: 90990},
+																																											pos: position{line: 2892, col: 13, offset: 91458},
 																																											alternatives: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2877, col: 13, offset: 90990},
+																																													pos:        position{line: 2892, col: 13, offset: 91458},
 																																													val:        "\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2877, col: 20, offset: 90997},
+																																													pos:        position{line: 2892, col: 20, offset: 91465},
 																																													val:        "\r\n",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\\n\"",
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2877, col: 29, offset: 91006},
+																																													pos:        position{line: 2892, col: 29, offset: 91474},
 																																													val:        "\r",
 																																													ignoreCase: false,
 																																													want:       "\"\\r\"",
@@ -36820,9 +36853,9 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2887, col: 8, offset: 91166},
+																																										pos: position{line: 2902, col: 8, offset: 91634},
 																																										expr: &anyMatcher{
-																																											line: 2887, col: 9, offset: 91167,
+																																											line: 2902, col: 9, offset: 91635,
 																																										},
 																																									},
 																																								},
@@ -36835,37 +36868,37 @@ var g = &grammar{
 																																	},
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 2651, col: 72, offset: 84447},
+																																	pos:   position{line: 2666, col: 72, offset: 84915},
 																																	label: "content",
 																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2657, col: 5, offset: 84606},
+																																		pos: position{line: 2672, col: 5, offset: 85074},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2658, col: 9, offset: 84616},
+																																			pos: position{line: 2673, col: 9, offset: 85084},
 																																			run: (*parser).callonListContinuationElement1550,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2658, col: 9, offset: 84616},
+																																				pos: position{line: 2673, col: 9, offset: 85084},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2658, col: 9, offset: 84616},
+																																						pos: position{line: 2673, col: 9, offset: 85084},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2614, col: 22, offset: 83539},
+																																							pos: position{line: 2629, col: 22, offset: 84007},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2610, col: 19, offset: 83459},
+																																									pos: position{line: 2625, col: 19, offset: 83927},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2610, col: 19, offset: 83459},
+																																											pos:        position{line: 2625, col: 19, offset: 83927},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2610, col: 26, offset: 83466},
+																																											pos: position{line: 2625, col: 26, offset: 83934},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2868, col: 10, offset: 90818},
+																																												pos: position{line: 2883, col: 10, offset: 91286},
 																																												run: (*parser).callonListContinuationElement1557,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2868, col: 10, offset: 90818},
+																																													pos:        position{line: 2883, col: 10, offset: 91286},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -36874,28 +36907,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2890, col: 8, offset: 91216},
+																																											pos: position{line: 2905, col: 8, offset: 91684},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2877, col: 12, offset: 90989},
+																																													pos: position{line: 2892, col: 12, offset: 91457},
 																																													run: (*parser).callonListContinuationElement1560,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2877, col: 13, offset: 90990},
+																																														pos: position{line: 2892, col: 13, offset: 91458},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -36904,9 +36937,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2887, col: 8, offset: 91166},
+																																													pos: position{line: 2902, col: 8, offset: 91634},
 																																													expr: &anyMatcher{
-																																														line: 2887, col: 9, offset: 91167,
+																																														line: 2902, col: 9, offset: 91635,
 																																													},
 																																												},
 																																											},
@@ -36914,35 +36947,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2887, col: 8, offset: 91166},
+																																									pos: position{line: 2902, col: 8, offset: 91634},
 																																									expr: &anyMatcher{
-																																										line: 2887, col: 9, offset: 91167,
+																																										line: 2902, col: 9, offset: 91635,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2659, col: 9, offset: 84643},
+																																						pos: position{line: 2674, col: 9, offset: 85111},
 																																						expr: &actionExpr{
-																																							pos: position{line: 680, col: 14, offset: 21592},
+																																							pos: position{line: 687, col: 14, offset: 21835},
 																																							run: (*parser).callonListContinuationElement1570,
 																																							expr: &seqExpr{
-																																								pos: position{line: 680, col: 14, offset: 21592},
+																																								pos: position{line: 687, col: 14, offset: 21835},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2885, col: 11, offset: 91152},
+																																										pos: position{line: 2900, col: 11, offset: 91620},
 																																										expr: &anyMatcher{
-																																											line: 2885, col: 13, offset: 91154,
+																																											line: 2900, col: 13, offset: 91622,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
-																																										pos: position{line: 680, col: 21, offset: 21599},
+																																										pos: position{line: 687, col: 21, offset: 21842},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2868, col: 10, offset: 90818},
+																																											pos: position{line: 2883, col: 10, offset: 91286},
 																																											run: (*parser).callonListContinuationElement1575,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2868, col: 10, offset: 90818},
+																																												pos:        position{line: 2883, col: 10, offset: 91286},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36951,28 +36984,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2890, col: 8, offset: 91216},
+																																										pos: position{line: 2905, col: 8, offset: 91684},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2877, col: 12, offset: 90989},
+																																												pos: position{line: 2892, col: 12, offset: 91457},
 																																												run: (*parser).callonListContinuationElement1578,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2877, col: 13, offset: 90990},
+																																													pos: position{line: 2892, col: 13, offset: 91458},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2877, col: 13, offset: 90990},
+																																															pos:        position{line: 2892, col: 13, offset: 91458},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2877, col: 20, offset: 90997},
+																																															pos:        position{line: 2892, col: 20, offset: 91465},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2877, col: 29, offset: 91006},
+																																															pos:        position{line: 2892, col: 29, offset: 91474},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36981,9 +37014,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2887, col: 8, offset: 91166},
+																																												pos: position{line: 2902, col: 8, offset: 91634},
 																																												expr: &anyMatcher{
-																																													line: 2887, col: 9, offset: 91167,
+																																													line: 2902, col: 9, offset: 91635,
 																																												},
 																																											},
 																																										},
@@ -36993,22 +37026,22 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2660, col: 9, offset: 84662},
+																																						pos: position{line: 2675, col: 9, offset: 85130},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2660, col: 11, offset: 84664},
+																																							pos: position{line: 2675, col: 11, offset: 85132},
 																																							exprs: []interface{}{
 																																								&labeledExpr{
-																																									pos:   position{line: 2660, col: 11, offset: 84664},
+																																									pos:   position{line: 2675, col: 11, offset: 85132},
 																																									label: "format",
 																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2660, col: 18, offset: 84671},
+																																										pos: position{line: 2675, col: 18, offset: 85139},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2668, col: 20, offset: 84893},
+																																											pos: position{line: 2683, col: 20, offset: 85361},
 																																											run: (*parser).callonListContinuationElement1589,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2668, col: 20, offset: 84893},
+																																												pos: position{line: 2683, col: 20, offset: 85361},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2668, col: 20, offset: 84893},
+																																													pos:        position{line: 2683, col: 20, offset: 85361},
 																																													val:        "[^ |\\r\\n]",
 																																													chars:      []rune{' ', '|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -37019,7 +37052,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&litMatcher{
-																																									pos:        position{line: 2660, col: 37, offset: 84690},
+																																									pos:        position{line: 2675, col: 37, offset: 85158},
 																																									val:        "|",
 																																									ignoreCase: false,
 																																									want:       "\"|\"",
@@ -37028,15 +37061,15 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2661, col: 9, offset: 84703},
+																																						pos:   position{line: 2676, col: 9, offset: 85171},
 																																						label: "content",
 																																						expr: &actionExpr{
-																																							pos: position{line: 2661, col: 18, offset: 84712},
+																																							pos: position{line: 2676, col: 18, offset: 85180},
 																																							run: (*parser).callonListContinuationElement1594,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2661, col: 18, offset: 84712},
+																																								pos: position{line: 2676, col: 18, offset: 85180},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2661, col: 18, offset: 84712},
+																																									pos:        position{line: 2676, col: 18, offset: 85180},
 																																									val:        "[^|\\r\\n]",
 																																									chars:      []rune{'|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -37046,33 +37079,33 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2663, col: 12, offset: 84774},
+																																						pos: position{line: 2678, col: 12, offset: 85242},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2663, col: 13, offset: 84775},
+																																							pos: position{line: 2678, col: 13, offset: 85243},
 																																							exprs: []interface{}{
 																																								&choiceExpr{
-																																									pos: position{line: 2890, col: 8, offset: 91216},
+																																									pos: position{line: 2905, col: 8, offset: 91684},
 																																									alternatives: []interface{}{
 																																										&actionExpr{
-																																											pos: position{line: 2877, col: 12, offset: 90989},
+																																											pos: position{line: 2892, col: 12, offset: 91457},
 																																											run: (*parser).callonListContinuationElement1600,
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2877, col: 13, offset: 90990},
+																																												pos: position{line: 2892, col: 13, offset: 91458},
 																																												alternatives: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2877, col: 13, offset: 90990},
+																																														pos:        position{line: 2892, col: 13, offset: 91458},
 																																														val:        "\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2877, col: 20, offset: 90997},
+																																														pos:        position{line: 2892, col: 20, offset: 91465},
 																																														val:        "\r\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2877, col: 29, offset: 91006},
+																																														pos:        position{line: 2892, col: 29, offset: 91474},
 																																														val:        "\r",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\"",
@@ -37081,46 +37114,46 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2887, col: 8, offset: 91166},
+																																											pos: position{line: 2902, col: 8, offset: 91634},
 																																											expr: &anyMatcher{
-																																												line: 2887, col: 9, offset: 91167,
+																																												line: 2902, col: 9, offset: 91635,
 																																											},
 																																										},
 																																									},
 																																								},
 																																								&zeroOrMoreExpr{
-																																									pos: position{line: 2663, col: 17, offset: 84779},
+																																									pos: position{line: 2678, col: 17, offset: 85247},
 																																									expr: &actionExpr{
-																																										pos: position{line: 2478, col: 22, offset: 79761},
+																																										pos: position{line: 2493, col: 22, offset: 80229},
 																																										run: (*parser).callonListContinuationElement1608,
 																																										expr: &seqExpr{
-																																											pos: position{line: 2478, col: 22, offset: 79761},
+																																											pos: position{line: 2493, col: 22, offset: 80229},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2483, col: 31, offset: 79982},
+																																													pos:        position{line: 2498, col: 31, offset: 80450},
 																																													val:        "//",
 																																													ignoreCase: false,
 																																													want:       "\"//\"",
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2483, col: 36, offset: 79987},
+																																													pos: position{line: 2498, col: 36, offset: 80455},
 																																													expr: &litMatcher{
-																																														pos:        position{line: 2483, col: 37, offset: 79988},
+																																														pos:        position{line: 2498, col: 37, offset: 80456},
 																																														val:        "//",
 																																														ignoreCase: false,
 																																														want:       "\"//\"",
 																																													},
 																																												},
 																																												&labeledExpr{
-																																													pos:   position{line: 2478, col: 49, offset: 79788},
+																																													pos:   position{line: 2493, col: 49, offset: 80256},
 																																													label: "content",
 																																													expr: &actionExpr{
-																																														pos: position{line: 2814, col: 13, offset: 89344},
+																																														pos: position{line: 2829, col: 13, offset: 89812},
 																																														run: (*parser).callonListContinuationElement1614,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2814, col: 13, offset: 89344},
+																																															pos: position{line: 2829, col: 13, offset: 89812},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2814, col: 13, offset: 89344},
+																																																pos:        position{line: 2829, col: 13, offset: 89812},
 																																																val:        "[^\\r\\n]",
 																																																chars:      []rune{'\r', '\n'},
 																																																ignoreCase: false,
@@ -37130,28 +37163,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2890, col: 8, offset: 91216},
+																																													pos: position{line: 2905, col: 8, offset: 91684},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2877, col: 12, offset: 90989},
+																																															pos: position{line: 2892, col: 12, offset: 91457},
 																																															run: (*parser).callonListContinuationElement1618,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2877, col: 13, offset: 90990},
+																																																pos: position{line: 2892, col: 13, offset: 91458},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2877, col: 13, offset: 90990},
+																																																		pos:        position{line: 2892, col: 13, offset: 91458},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2877, col: 20, offset: 90997},
+																																																		pos:        position{line: 2892, col: 20, offset: 91465},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2877, col: 29, offset: 91006},
+																																																		pos:        position{line: 2892, col: 29, offset: 91474},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -37160,9 +37193,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2887, col: 8, offset: 91166},
+																																															pos: position{line: 2902, col: 8, offset: 91634},
 																																															expr: &anyMatcher{
-																																																line: 2887, col: 9, offset: 91167,
+																																																line: 2902, col: 9, offset: 91635,
 																																															},
 																																														},
 																																													},
@@ -37190,24 +37223,24 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 680, col: 14, offset: 21592},
+																							pos: position{line: 687, col: 14, offset: 21835},
 																							run: (*parser).callonListContinuationElement1625,
 																							expr: &seqExpr{
-																								pos: position{line: 680, col: 14, offset: 21592},
+																								pos: position{line: 687, col: 14, offset: 21835},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2885, col: 11, offset: 91152},
+																										pos: position{line: 2900, col: 11, offset: 91620},
 																										expr: &anyMatcher{
-																											line: 2885, col: 13, offset: 91154,
+																											line: 2900, col: 13, offset: 91622,
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 680, col: 21, offset: 21599},
+																										pos: position{line: 687, col: 21, offset: 21842},
 																										expr: &actionExpr{
-																											pos: position{line: 2868, col: 10, offset: 90818},
+																											pos: position{line: 2883, col: 10, offset: 91286},
 																											run: (*parser).callonListContinuationElement1630,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2868, col: 10, offset: 90818},
+																												pos:        position{line: 2883, col: 10, offset: 91286},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -37216,28 +37249,28 @@ var g = &grammar{
 																										},
 																									},
 																									&choiceExpr{
-																										pos: position{line: 2890, col: 8, offset: 91216},
+																										pos: position{line: 2905, col: 8, offset: 91684},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2877, col: 12, offset: 90989},
+																												pos: position{line: 2892, col: 12, offset: 91457},
 																												run: (*parser).callonListContinuationElement1633,
 																												expr: &choiceExpr{
-																													pos: position{line: 2877, col: 13, offset: 90990},
+																													pos: position{line: 2892, col: 13, offset: 91458},
 																													alternatives: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 2877, col: 13, offset: 90990},
+																															pos:        position{line: 2892, col: 13, offset: 91458},
 																															val:        "\n",
 																															ignoreCase: false,
 																															want:       "\"\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2877, col: 20, offset: 90997},
+																															pos:        position{line: 2892, col: 20, offset: 91465},
 																															val:        "\r\n",
 																															ignoreCase: false,
 																															want:       "\"\\r\\n\"",
 																														},
 																														&litMatcher{
-																															pos:        position{line: 2877, col: 29, offset: 91006},
+																															pos:        position{line: 2892, col: 29, offset: 91474},
 																															val:        "\r",
 																															ignoreCase: false,
 																															want:       "\"\\r\"",
@@ -37246,9 +37279,9 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2887, col: 8, offset: 91166},
+																												pos: position{line: 2902, col: 8, offset: 91634},
 																												expr: &anyMatcher{
-																													line: 2887, col: 9, offset: 91167,
+																													line: 2902, col: 9, offset: 91635,
 																												},
 																											},
 																										},
@@ -37267,24 +37300,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2614, col: 22, offset: 83539},
+													pos: position{line: 2629, col: 22, offset: 84007},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2610, col: 19, offset: 83459},
+															pos: position{line: 2625, col: 19, offset: 83927},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2610, col: 19, offset: 83459},
+																	pos:        position{line: 2625, col: 19, offset: 83927},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2610, col: 26, offset: 83466},
+																	pos: position{line: 2625, col: 26, offset: 83934},
 																	expr: &actionExpr{
-																		pos: position{line: 2868, col: 10, offset: 90818},
+																		pos: position{line: 2883, col: 10, offset: 91286},
 																		run: (*parser).callonListContinuationElement1644,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90818},
+																			pos:        position{line: 2883, col: 10, offset: 91286},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37293,28 +37326,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonListContinuationElement1647,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37323,9 +37356,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -37333,9 +37366,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2887, col: 8, offset: 91166},
+															pos: position{line: 2902, col: 8, offset: 91634},
 															expr: &anyMatcher{
-																line: 2887, col: 9, offset: 91167,
+																line: 2902, col: 9, offset: 91635,
 															},
 														},
 													},
@@ -37344,36 +37377,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2478, col: 22, offset: 79761},
+										pos: position{line: 2493, col: 22, offset: 80229},
 										run: (*parser).callonListContinuationElement1656,
 										expr: &seqExpr{
-											pos: position{line: 2478, col: 22, offset: 79761},
+											pos: position{line: 2493, col: 22, offset: 80229},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2483, col: 31, offset: 79982},
+													pos:        position{line: 2498, col: 31, offset: 80450},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2483, col: 36, offset: 79987},
+													pos: position{line: 2498, col: 36, offset: 80455},
 													expr: &litMatcher{
-														pos:        position{line: 2483, col: 37, offset: 79988},
+														pos:        position{line: 2498, col: 37, offset: 80456},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2478, col: 49, offset: 79788},
+													pos:   position{line: 2493, col: 49, offset: 80256},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2814, col: 13, offset: 89344},
+														pos: position{line: 2829, col: 13, offset: 89812},
 														run: (*parser).callonListContinuationElement1662,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2814, col: 13, offset: 89344},
+															pos: position{line: 2829, col: 13, offset: 89812},
 															expr: &charClassMatcher{
-																pos:        position{line: 2814, col: 13, offset: 89344},
+																pos:        position{line: 2829, col: 13, offset: 89812},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37383,28 +37416,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2890, col: 8, offset: 91216},
+													pos: position{line: 2905, col: 8, offset: 91684},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2877, col: 12, offset: 90989},
+															pos: position{line: 2892, col: 12, offset: 91457},
 															run: (*parser).callonListContinuationElement1666,
 															expr: &choiceExpr{
-																pos: position{line: 2877, col: 13, offset: 90990},
+																pos: position{line: 2892, col: 13, offset: 91458},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 13, offset: 90990},
+																		pos:        position{line: 2892, col: 13, offset: 91458},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 20, offset: 90997},
+																		pos:        position{line: 2892, col: 20, offset: 91465},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 29, offset: 91006},
+																		pos:        position{line: 2892, col: 29, offset: 91474},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37413,9 +37446,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2887, col: 8, offset: 91166},
+															pos: position{line: 2902, col: 8, offset: 91634},
 															expr: &anyMatcher{
-																line: 2887, col: 9, offset: 91167,
+																line: 2902, col: 9, offset: 91635,
 															},
 														},
 													},
@@ -37424,94 +37457,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1576, col: 5, offset: 50921},
+										pos: position{line: 1583, col: 5, offset: 51164},
 										run: (*parser).callonListContinuationElement1673,
 										expr: &seqExpr{
-											pos: position{line: 1576, col: 5, offset: 50921},
+											pos: position{line: 1583, col: 5, offset: 51164},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1576, col: 5, offset: 50921},
+													pos:   position{line: 1583, col: 5, offset: 51164},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1576, col: 11, offset: 50927},
+														pos: position{line: 1583, col: 11, offset: 51170},
 														expr: &actionExpr{
-															pos: position{line: 1741, col: 5, offset: 56276},
+															pos: position{line: 1748, col: 5, offset: 56519},
 															run: (*parser).callonListContinuationElement1677,
 															expr: &seqExpr{
-																pos: position{line: 1741, col: 5, offset: 56276},
+																pos: position{line: 1748, col: 5, offset: 56519},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1741, col: 5, offset: 56276},
+																		pos: position{line: 1748, col: 5, offset: 56519},
 																		run: (*parser).callonListContinuationElement1679,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1744, col: 5, offset: 56339},
+																		pos:   position{line: 1751, col: 5, offset: 56582},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1744, col: 12, offset: 56346},
+																			pos: position{line: 1751, col: 12, offset: 56589},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1744, col: 12, offset: 56346},
+																					pos: position{line: 1751, col: 12, offset: 56589},
 																					run: (*parser).callonListContinuationElement1682,
 																					expr: &litMatcher{
-																						pos:        position{line: 1744, col: 12, offset: 56346},
+																						pos:        position{line: 1751, col: 12, offset: 56589},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1746, col: 13, offset: 56402},
+																					pos: position{line: 1753, col: 13, offset: 56645},
 																					run: (*parser).callonListContinuationElement1684,
 																					expr: &litMatcher{
-																						pos:        position{line: 1746, col: 13, offset: 56402},
+																						pos:        position{line: 1753, col: 13, offset: 56645},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1748, col: 13, offset: 56460},
+																					pos: position{line: 1755, col: 13, offset: 56703},
 																					run: (*parser).callonListContinuationElement1686,
 																					expr: &litMatcher{
-																						pos:        position{line: 1748, col: 13, offset: 56460},
+																						pos:        position{line: 1755, col: 13, offset: 56703},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1750, col: 13, offset: 56528},
+																					pos: position{line: 1757, col: 13, offset: 56771},
 																					run: (*parser).callonListContinuationElement1688,
 																					expr: &litMatcher{
-																						pos:        position{line: 1750, col: 13, offset: 56528},
+																						pos:        position{line: 1757, col: 13, offset: 56771},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1752, col: 13, offset: 56592},
+																					pos: position{line: 1759, col: 13, offset: 56835},
 																					run: (*parser).callonListContinuationElement1690,
 																					expr: &litMatcher{
-																						pos:        position{line: 1752, col: 13, offset: 56592},
+																						pos:        position{line: 1759, col: 13, offset: 56835},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1754, col: 13, offset: 56656},
+																					pos: position{line: 1761, col: 13, offset: 56899},
 																					run: (*parser).callonListContinuationElement1692,
 																					expr: &andExpr{
-																						pos: position{line: 1754, col: 13, offset: 56656},
+																						pos: position{line: 1761, col: 13, offset: 56899},
 																						expr: &actionExpr{
-																							pos: position{line: 2872, col: 11, offset: 90879},
+																							pos: position{line: 2887, col: 11, offset: 91347},
 																							run: (*parser).callonListContinuationElement1694,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2872, col: 11, offset: 90879},
+																								pos: position{line: 2887, col: 11, offset: 91347},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2872, col: 11, offset: 90879},
+																									pos:        position{line: 2887, col: 11, offset: 91347},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37530,35 +37563,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1577, col: 5, offset: 50950},
+													pos:   position{line: 1584, col: 5, offset: 51193},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1520, col: 5, offset: 49300},
+														pos: position{line: 1527, col: 5, offset: 49543},
 														run: (*parser).callonListContinuationElement1698,
 														expr: &seqExpr{
-															pos: position{line: 1520, col: 5, offset: 49300},
+															pos: position{line: 1527, col: 5, offset: 49543},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1520, col: 5, offset: 49300},
+																	pos: position{line: 1527, col: 5, offset: 49543},
 																	expr: &actionExpr{
-																		pos: position{line: 680, col: 14, offset: 21592},
+																		pos: position{line: 687, col: 14, offset: 21835},
 																		run: (*parser).callonListContinuationElement1701,
 																		expr: &seqExpr{
-																			pos: position{line: 680, col: 14, offset: 21592},
+																			pos: position{line: 687, col: 14, offset: 21835},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2885, col: 11, offset: 91152},
+																					pos: position{line: 2900, col: 11, offset: 91620},
 																					expr: &anyMatcher{
-																						line: 2885, col: 13, offset: 91154,
+																						line: 2900, col: 13, offset: 91622,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 680, col: 21, offset: 21599},
+																					pos: position{line: 687, col: 21, offset: 21842},
 																					expr: &actionExpr{
-																						pos: position{line: 2868, col: 10, offset: 90818},
+																						pos: position{line: 2883, col: 10, offset: 91286},
 																						run: (*parser).callonListContinuationElement1706,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 10, offset: 90818},
+																							pos:        position{line: 2883, col: 10, offset: 91286},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37567,28 +37600,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2890, col: 8, offset: 91216},
+																					pos: position{line: 2905, col: 8, offset: 91684},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2877, col: 12, offset: 90989},
+																							pos: position{line: 2892, col: 12, offset: 91457},
 																							run: (*parser).callonListContinuationElement1709,
 																							expr: &choiceExpr{
-																								pos: position{line: 2877, col: 13, offset: 90990},
+																								pos: position{line: 2892, col: 13, offset: 91458},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 13, offset: 90990},
+																										pos:        position{line: 2892, col: 13, offset: 91458},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 20, offset: 90997},
+																										pos:        position{line: 2892, col: 20, offset: 91465},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 29, offset: 91006},
+																										pos:        position{line: 2892, col: 29, offset: 91474},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37597,9 +37630,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2887, col: 8, offset: 91166},
+																							pos: position{line: 2902, col: 8, offset: 91634},
 																							expr: &anyMatcher{
-																								line: 2887, col: 9, offset: 91167,
+																								line: 2902, col: 9, offset: 91635,
 																							},
 																						},
 																					},
@@ -37609,23 +37642,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1521, col: 5, offset: 49315},
+																	pos: position{line: 1528, col: 5, offset: 49558},
 																	expr: &seqExpr{
-																		pos: position{line: 1551, col: 27, offset: 50141},
+																		pos: position{line: 1558, col: 27, offset: 50384},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1551, col: 27, offset: 50141},
+																				pos:        position{line: 1558, col: 27, offset: 50384},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1551, col: 31, offset: 50145},
+																				pos: position{line: 1558, col: 31, offset: 50388},
 																				expr: &actionExpr{
-																					pos: position{line: 2868, col: 10, offset: 90818},
+																					pos: position{line: 2883, col: 10, offset: 91286},
 																					run: (*parser).callonListContinuationElement1720,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2868, col: 10, offset: 90818},
+																						pos:        position{line: 2883, col: 10, offset: 91286},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37634,25 +37667,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2877, col: 12, offset: 90989},
+																				pos: position{line: 2892, col: 12, offset: 91457},
 																				run: (*parser).callonListContinuationElement1722,
 																				expr: &choiceExpr{
-																					pos: position{line: 2877, col: 13, offset: 90990},
+																					pos: position{line: 2892, col: 13, offset: 91458},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 13, offset: 90990},
+																							pos:        position{line: 2892, col: 13, offset: 91458},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 20, offset: 90997},
+																							pos:        position{line: 2892, col: 20, offset: 91465},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 29, offset: 91006},
+																							pos:        position{line: 2892, col: 29, offset: 91474},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37664,20 +37697,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1522, col: 5, offset: 49343},
+																	pos: position{line: 1529, col: 5, offset: 49586},
 																	expr: &actionExpr{
-																		pos: position{line: 1592, col: 5, offset: 51360},
+																		pos: position{line: 1599, col: 5, offset: 51603},
 																		run: (*parser).callonListContinuationElement1728,
 																		expr: &seqExpr{
-																			pos: position{line: 1592, col: 5, offset: 51360},
+																			pos: position{line: 1599, col: 5, offset: 51603},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1592, col: 5, offset: 51360},
+																					pos: position{line: 1599, col: 5, offset: 51603},
 																					expr: &actionExpr{
-																						pos: position{line: 2868, col: 10, offset: 90818},
+																						pos: position{line: 2883, col: 10, offset: 91286},
 																						run: (*parser).callonListContinuationElement1731,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 10, offset: 90818},
+																							pos:        position{line: 2883, col: 10, offset: 91286},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37686,27 +37719,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1592, col: 12, offset: 51367},
+																					pos:   position{line: 1599, col: 12, offset: 51610},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1594, col: 9, offset: 51430},
+																						pos: position{line: 1601, col: 9, offset: 51673},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1594, col: 9, offset: 51430},
+																								pos: position{line: 1601, col: 9, offset: 51673},
 																								run: (*parser).callonListContinuationElement1735,
 																								expr: &seqExpr{
-																									pos: position{line: 1594, col: 9, offset: 51430},
+																									pos: position{line: 1601, col: 9, offset: 51673},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1594, col: 9, offset: 51430},
+																											pos:   position{line: 1601, col: 9, offset: 51673},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1594, col: 16, offset: 51437},
+																												pos: position{line: 1601, col: 16, offset: 51680},
 																												run: (*parser).callonListContinuationElement1738,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1594, col: 16, offset: 51437},
+																													pos: position{line: 1601, col: 16, offset: 51680},
 																													expr: &litMatcher{
-																														pos:        position{line: 1594, col: 17, offset: 51438},
+																														pos:        position{line: 1601, col: 17, offset: 51681},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -37715,22 +37748,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1598, col: 9, offset: 51538},
+																											pos: position{line: 1605, col: 9, offset: 51781},
 																											run: (*parser).callonListContinuationElement1741,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1617, col: 11, offset: 52255},
+																								pos: position{line: 1624, col: 11, offset: 52498},
 																								run: (*parser).callonListContinuationElement1742,
 																								expr: &seqExpr{
-																									pos: position{line: 1617, col: 11, offset: 52255},
+																									pos: position{line: 1624, col: 11, offset: 52498},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1617, col: 11, offset: 52255},
+																											pos: position{line: 1624, col: 11, offset: 52498},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1617, col: 12, offset: 52256},
+																												pos:        position{line: 1624, col: 12, offset: 52499},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -37738,7 +37771,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1617, col: 20, offset: 52264},
+																											pos:        position{line: 1624, col: 20, offset: 52507},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37747,20 +37780,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1619, col: 13, offset: 52381},
+																								pos: position{line: 1626, col: 13, offset: 52624},
 																								run: (*parser).callonListContinuationElement1747,
 																								expr: &seqExpr{
-																									pos: position{line: 1619, col: 13, offset: 52381},
+																									pos: position{line: 1626, col: 13, offset: 52624},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1619, col: 14, offset: 52382},
+																											pos:        position{line: 1626, col: 14, offset: 52625},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1619, col: 21, offset: 52389},
+																											pos:        position{line: 1626, col: 21, offset: 52632},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37769,20 +37802,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1621, col: 13, offset: 52509},
+																								pos: position{line: 1628, col: 13, offset: 52752},
 																								run: (*parser).callonListContinuationElement1751,
 																								expr: &seqExpr{
-																									pos: position{line: 1621, col: 13, offset: 52509},
+																									pos: position{line: 1628, col: 13, offset: 52752},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1621, col: 14, offset: 52510},
+																											pos:        position{line: 1628, col: 14, offset: 52753},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1621, col: 21, offset: 52517},
+																											pos:        position{line: 1628, col: 21, offset: 52760},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -37791,15 +37824,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1623, col: 13, offset: 52637},
+																								pos: position{line: 1630, col: 13, offset: 52880},
 																								run: (*parser).callonListContinuationElement1755,
 																								expr: &seqExpr{
-																									pos: position{line: 1623, col: 13, offset: 52637},
+																									pos: position{line: 1630, col: 13, offset: 52880},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1623, col: 13, offset: 52637},
+																											pos: position{line: 1630, col: 13, offset: 52880},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1623, col: 14, offset: 52638},
+																												pos:        position{line: 1630, col: 14, offset: 52881},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -37807,7 +37840,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1623, col: 26, offset: 52650},
+																											pos:        position{line: 1630, col: 26, offset: 52893},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37816,15 +37849,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1625, col: 13, offset: 52770},
+																								pos: position{line: 1632, col: 13, offset: 53013},
 																								run: (*parser).callonListContinuationElement1760,
 																								expr: &seqExpr{
-																									pos: position{line: 1625, col: 13, offset: 52770},
+																									pos: position{line: 1632, col: 13, offset: 53013},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1625, col: 13, offset: 52770},
+																											pos: position{line: 1632, col: 13, offset: 53013},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1625, col: 14, offset: 52771},
+																												pos:        position{line: 1632, col: 14, offset: 53014},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -37832,7 +37865,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1625, col: 26, offset: 52783},
+																											pos:        position{line: 1632, col: 26, offset: 53026},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -37844,12 +37877,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2872, col: 11, offset: 90879},
+																					pos: position{line: 2887, col: 11, offset: 91347},
 																					run: (*parser).callonListContinuationElement1765,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2872, col: 11, offset: 90879},
+																						pos: position{line: 2887, col: 11, offset: 91347},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2872, col: 11, offset: 90879},
+																							pos:        position{line: 2887, col: 11, offset: 91347},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37862,20 +37895,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1523, col: 5, offset: 49373},
+																	pos: position{line: 1530, col: 5, offset: 49616},
 																	expr: &actionExpr{
-																		pos: position{line: 1642, col: 5, offset: 53322},
+																		pos: position{line: 1649, col: 5, offset: 53565},
 																		run: (*parser).callonListContinuationElement1769,
 																		expr: &seqExpr{
-																			pos: position{line: 1642, col: 5, offset: 53322},
+																			pos: position{line: 1649, col: 5, offset: 53565},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1642, col: 5, offset: 53322},
+																					pos: position{line: 1649, col: 5, offset: 53565},
 																					expr: &actionExpr{
-																						pos: position{line: 2868, col: 10, offset: 90818},
+																						pos: position{line: 2883, col: 10, offset: 91286},
 																						run: (*parser).callonListContinuationElement1772,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2868, col: 10, offset: 90818},
+																							pos:        position{line: 2883, col: 10, offset: 91286},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37884,24 +37917,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1643, col: 5, offset: 53334},
+																					pos:   position{line: 1650, col: 5, offset: 53577},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1644, col: 9, offset: 53350},
+																						pos: position{line: 1651, col: 9, offset: 53593},
 																						run: (*parser).callonListContinuationElement1775,
 																						expr: &choiceExpr{
-																							pos: position{line: 1644, col: 10, offset: 53351},
+																							pos: position{line: 1651, col: 10, offset: 53594},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1644, col: 11, offset: 53352},
+																									pos:        position{line: 1651, col: 11, offset: 53595},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1644, col: 18, offset: 53359},
+																									pos: position{line: 1651, col: 18, offset: 53602},
 																									expr: &litMatcher{
-																										pos:        position{line: 1644, col: 19, offset: 53360},
+																										pos:        position{line: 1651, col: 19, offset: 53603},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -37912,16 +37945,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1647, col: 7, offset: 53450},
+																					pos: position{line: 1654, col: 7, offset: 53693},
 																					run: (*parser).callonListContinuationElement1780,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2872, col: 11, offset: 90879},
+																					pos: position{line: 2887, col: 11, offset: 91347},
 																					run: (*parser).callonListContinuationElement1781,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2872, col: 11, offset: 90879},
+																						pos: position{line: 2887, col: 11, offset: 91347},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2872, col: 11, offset: 90879},
+																							pos:        position{line: 2887, col: 11, offset: 91347},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37934,29 +37967,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1524, col: 5, offset: 49405},
+																	pos: position{line: 1531, col: 5, offset: 49648},
 																	expr: &actionExpr{
-																		pos: position{line: 1732, col: 5, offset: 55891},
+																		pos: position{line: 1739, col: 5, offset: 56134},
 																		run: (*parser).callonListContinuationElement1785,
 																		expr: &seqExpr{
-																			pos: position{line: 1732, col: 5, offset: 55891},
+																			pos: position{line: 1739, col: 5, offset: 56134},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1732, col: 5, offset: 55891},
+																					pos:        position{line: 1739, col: 5, offset: 56134},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1732, col: 9, offset: 55895},
+																					pos:   position{line: 1739, col: 9, offset: 56138},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1732, col: 14, offset: 55900},
+																						pos: position{line: 1739, col: 14, offset: 56143},
 																						run: (*parser).callonListContinuationElement1789,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1732, col: 14, offset: 55900},
+																							pos: position{line: 1739, col: 14, offset: 56143},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1732, col: 14, offset: 55900},
+																								pos:        position{line: 1739, col: 14, offset: 56143},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -37966,18 +37999,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1732, col: 62, offset: 55948},
+																					pos:        position{line: 1739, col: 62, offset: 56191},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2872, col: 11, offset: 90879},
+																					pos: position{line: 2887, col: 11, offset: 91347},
 																					run: (*parser).callonListContinuationElement1793,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2872, col: 11, offset: 90879},
+																						pos: position{line: 2887, col: 11, offset: 91347},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2872, col: 11, offset: 90879},
+																							pos:        position{line: 2887, col: 11, offset: 91347},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37990,31 +38023,31 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1525, col: 5, offset: 49435},
+																	pos: position{line: 1532, col: 5, offset: 49678},
 																	expr: &seqExpr{
-																		pos: position{line: 1525, col: 7, offset: 49437},
+																		pos: position{line: 1532, col: 7, offset: 49680},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1677, col: 5, offset: 54341},
+																				pos: position{line: 1684, col: 5, offset: 54584},
 																				run: (*parser).callonListContinuationElement1798,
 																				expr: &seqExpr{
-																					pos: position{line: 1677, col: 5, offset: 54341},
+																					pos: position{line: 1684, col: 5, offset: 54584},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1677, col: 5, offset: 54341},
+																							pos: position{line: 1684, col: 5, offset: 54584},
 																							expr: &seqExpr{
-																								pos: position{line: 2483, col: 31, offset: 79982},
+																								pos: position{line: 2498, col: 31, offset: 80450},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2483, col: 31, offset: 79982},
+																										pos:        position{line: 2498, col: 31, offset: 80450},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2483, col: 36, offset: 79987},
+																										pos: position{line: 2498, col: 36, offset: 80455},
 																										expr: &litMatcher{
-																											pos:        position{line: 2483, col: 37, offset: 79988},
+																											pos:        position{line: 2498, col: 37, offset: 80456},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -38024,28 +38057,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1678, col: 5, offset: 54373},
+																							pos: position{line: 1685, col: 5, offset: 54616},
 																							expr: &seqExpr{
-																								pos: position{line: 1678, col: 6, offset: 54374},
+																								pos: position{line: 1685, col: 6, offset: 54617},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1678, col: 6, offset: 54374},
+																										pos: position{line: 1685, col: 6, offset: 54617},
 																										expr: &actionExpr{
-																											pos: position{line: 1683, col: 5, offset: 54524},
+																											pos: position{line: 1690, col: 5, offset: 54767},
 																											run: (*parser).callonListContinuationElement1808,
 																											expr: &seqExpr{
-																												pos: position{line: 1683, col: 5, offset: 54524},
+																												pos: position{line: 1690, col: 5, offset: 54767},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1683, col: 5, offset: 54524},
+																														pos:   position{line: 1690, col: 5, offset: 54767},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1683, col: 16, offset: 54535},
+																															pos: position{line: 1690, col: 16, offset: 54778},
 																															run: (*parser).callonListContinuationElement1811,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1683, col: 16, offset: 54535},
+																																pos: position{line: 1690, col: 16, offset: 54778},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1683, col: 17, offset: 54536},
+																																	pos:        position{line: 1690, col: 17, offset: 54779},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -38054,7 +38087,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1686, col: 5, offset: 54593},
+																														pos: position{line: 1693, col: 5, offset: 54836},
 																														run: (*parser).callonListContinuationElement1814,
 																													},
 																												},
@@ -38062,30 +38095,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1678, col: 35, offset: 54403},
+																										pos: position{line: 1685, col: 35, offset: 54646},
 																										expr: &choiceExpr{
-																											pos: position{line: 2890, col: 8, offset: 91216},
+																											pos: position{line: 2905, col: 8, offset: 91684},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2877, col: 12, offset: 90989},
+																													pos: position{line: 2892, col: 12, offset: 91457},
 																													run: (*parser).callonListContinuationElement1817,
 																													expr: &choiceExpr{
-																														pos: position{line: 2877, col: 13, offset: 90990},
+																														pos: position{line: 2892, col: 13, offset: 91458},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38094,16 +38127,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2887, col: 8, offset: 91166},
+																													pos: position{line: 2902, col: 8, offset: 91634},
 																													expr: &anyMatcher{
-																														line: 2887, col: 9, offset: 91167,
+																														line: 2902, col: 9, offset: 91635,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1678, col: 40, offset: 54408,
+																										line: 1685, col: 40, offset: 54651,
 																									},
 																								},
 																							},
@@ -38112,21 +38145,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1683, col: 5, offset: 54524},
+																				pos: position{line: 1690, col: 5, offset: 54767},
 																				run: (*parser).callonListContinuationElement1825,
 																				expr: &seqExpr{
-																					pos: position{line: 1683, col: 5, offset: 54524},
+																					pos: position{line: 1690, col: 5, offset: 54767},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1683, col: 5, offset: 54524},
+																							pos:   position{line: 1690, col: 5, offset: 54767},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1683, col: 16, offset: 54535},
+																								pos: position{line: 1690, col: 16, offset: 54778},
 																								run: (*parser).callonListContinuationElement1828,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1683, col: 16, offset: 54535},
+																									pos: position{line: 1690, col: 16, offset: 54778},
 																									expr: &litMatcher{
-																										pos:        position{line: 1683, col: 17, offset: 54536},
+																										pos:        position{line: 1690, col: 17, offset: 54779},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -38135,7 +38168,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1686, col: 5, offset: 54593},
+																							pos: position{line: 1693, col: 5, offset: 54836},
 																							run: (*parser).callonListContinuationElement1831,
 																						},
 																					},
@@ -38145,17 +38178,17 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1526, col: 5, offset: 49493},
+																	pos: position{line: 1533, col: 5, offset: 49736},
 																	expr: &actionExpr{
-																		pos: position{line: 727, col: 5, offset: 23145},
+																		pos: position{line: 734, col: 5, offset: 23388},
 																		run: (*parser).callonListContinuationElement1833,
 																		expr: &seqExpr{
-																			pos: position{line: 727, col: 5, offset: 23145},
+																			pos: position{line: 734, col: 5, offset: 23388},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 727, col: 5, offset: 23145},
+																					pos: position{line: 734, col: 5, offset: 23388},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2758, col: 13, offset: 87913},
+																						pos:        position{line: 2773, col: 13, offset: 88381},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -38163,36 +38196,36 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 728, col: 5, offset: 23175},
+																					pos:   position{line: 735, col: 5, offset: 23418},
 																					label: "delimiter",
 																					expr: &choiceExpr{
-																						pos: position{line: 729, col: 9, offset: 23195},
+																						pos: position{line: 736, col: 9, offset: 23438},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 743, col: 5, offset: 23687},
+																								pos: position{line: 750, col: 5, offset: 23930},
 																								run: (*parser).callonListContinuationElement1839,
 																								expr: &seqExpr{
-																									pos: position{line: 743, col: 5, offset: 23687},
+																									pos: position{line: 750, col: 5, offset: 23930},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 743, col: 5, offset: 23687},
+																											pos:   position{line: 750, col: 5, offset: 23930},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 743, col: 16, offset: 23698},
+																												pos: position{line: 750, col: 16, offset: 23941},
 																												run: (*parser).callonListContinuationElement1842,
 																												expr: &seqExpr{
-																													pos: position{line: 743, col: 16, offset: 23698},
+																													pos: position{line: 750, col: 16, offset: 23941},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 743, col: 16, offset: 23698},
+																															pos:        position{line: 750, col: 16, offset: 23941},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 743, col: 23, offset: 23705},
+																															pos: position{line: 750, col: 23, offset: 23948},
 																															expr: &litMatcher{
-																																pos:        position{line: 743, col: 23, offset: 23705},
+																																pos:        position{line: 750, col: 23, offset: 23948},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -38203,12 +38236,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 745, col: 8, offset: 23789},
+																											pos: position{line: 752, col: 8, offset: 24032},
 																											expr: &actionExpr{
-																												pos: position{line: 2868, col: 10, offset: 90818},
+																												pos: position{line: 2883, col: 10, offset: 91286},
 																												run: (*parser).callonListContinuationElement1848,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 10, offset: 90818},
+																													pos:        position{line: 2883, col: 10, offset: 91286},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38217,28 +38250,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2890, col: 8, offset: 91216},
+																											pos: position{line: 2905, col: 8, offset: 91684},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2877, col: 12, offset: 90989},
+																													pos: position{line: 2892, col: 12, offset: 91457},
 																													run: (*parser).callonListContinuationElement1851,
 																													expr: &choiceExpr{
-																														pos: position{line: 2877, col: 13, offset: 90990},
+																														pos: position{line: 2892, col: 13, offset: 91458},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38247,9 +38280,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2887, col: 8, offset: 91166},
+																													pos: position{line: 2902, col: 8, offset: 91634},
 																													expr: &anyMatcher{
-																														line: 2887, col: 9, offset: 91167,
+																														line: 2902, col: 9, offset: 91635,
 																													},
 																												},
 																											},
@@ -38258,30 +38291,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 750, col: 5, offset: 23935},
+																								pos: position{line: 757, col: 5, offset: 24178},
 																								run: (*parser).callonListContinuationElement1858,
 																								expr: &seqExpr{
-																									pos: position{line: 750, col: 5, offset: 23935},
+																									pos: position{line: 757, col: 5, offset: 24178},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 750, col: 5, offset: 23935},
+																											pos:   position{line: 757, col: 5, offset: 24178},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 750, col: 16, offset: 23946},
+																												pos: position{line: 757, col: 16, offset: 24189},
 																												run: (*parser).callonListContinuationElement1861,
 																												expr: &seqExpr{
-																													pos: position{line: 750, col: 16, offset: 23946},
+																													pos: position{line: 757, col: 16, offset: 24189},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 750, col: 16, offset: 23946},
+																															pos:        position{line: 757, col: 16, offset: 24189},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 750, col: 23, offset: 23953},
+																															pos: position{line: 757, col: 23, offset: 24196},
 																															expr: &litMatcher{
-																																pos:        position{line: 750, col: 23, offset: 23953},
+																																pos:        position{line: 757, col: 23, offset: 24196},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -38292,12 +38325,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 752, col: 8, offset: 24037},
+																											pos: position{line: 759, col: 8, offset: 24280},
 																											expr: &actionExpr{
-																												pos: position{line: 2868, col: 10, offset: 90818},
+																												pos: position{line: 2883, col: 10, offset: 91286},
 																												run: (*parser).callonListContinuationElement1867,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 10, offset: 90818},
+																													pos:        position{line: 2883, col: 10, offset: 91286},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38306,28 +38339,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2890, col: 8, offset: 91216},
+																											pos: position{line: 2905, col: 8, offset: 91684},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2877, col: 12, offset: 90989},
+																													pos: position{line: 2892, col: 12, offset: 91457},
 																													run: (*parser).callonListContinuationElement1870,
 																													expr: &choiceExpr{
-																														pos: position{line: 2877, col: 13, offset: 90990},
+																														pos: position{line: 2892, col: 13, offset: 91458},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38336,9 +38369,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2887, col: 8, offset: 91166},
+																													pos: position{line: 2902, col: 8, offset: 91634},
 																													expr: &anyMatcher{
-																														line: 2887, col: 9, offset: 91167,
+																														line: 2902, col: 9, offset: 91635,
 																													},
 																												},
 																											},
@@ -38347,27 +38380,27 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 763, col: 26, offset: 24423},
+																								pos: position{line: 770, col: 26, offset: 24666},
 																								run: (*parser).callonListContinuationElement1877,
 																								expr: &seqExpr{
-																									pos: position{line: 763, col: 26, offset: 24423},
+																									pos: position{line: 770, col: 26, offset: 24666},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 763, col: 26, offset: 24423},
+																											pos:        position{line: 770, col: 26, offset: 24666},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 763, col: 32, offset: 24429},
+																											pos:   position{line: 770, col: 32, offset: 24672},
 																											label: "language",
 																											expr: &actionExpr{
-																												pos: position{line: 767, col: 13, offset: 24559},
+																												pos: position{line: 774, col: 13, offset: 24802},
 																												run: (*parser).callonListContinuationElement1881,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 767, col: 14, offset: 24560},
+																													pos: position{line: 774, col: 14, offset: 24803},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 767, col: 14, offset: 24560},
+																														pos:        position{line: 774, col: 14, offset: 24803},
 																														val:        "[^\\r\\n` ]",
 																														chars:      []rune{'\r', '\n', '`', ' '},
 																														ignoreCase: false,
@@ -38377,12 +38410,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 763, col: 52, offset: 24449},
+																											pos: position{line: 770, col: 52, offset: 24692},
 																											expr: &actionExpr{
-																												pos: position{line: 2868, col: 10, offset: 90818},
+																												pos: position{line: 2883, col: 10, offset: 91286},
 																												run: (*parser).callonListContinuationElement1885,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 10, offset: 90818},
+																													pos:        position{line: 2883, col: 10, offset: 91286},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38391,28 +38424,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2890, col: 8, offset: 91216},
+																											pos: position{line: 2905, col: 8, offset: 91684},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2877, col: 12, offset: 90989},
+																													pos: position{line: 2892, col: 12, offset: 91457},
 																													run: (*parser).callonListContinuationElement1888,
 																													expr: &choiceExpr{
-																														pos: position{line: 2877, col: 13, offset: 90990},
+																														pos: position{line: 2892, col: 13, offset: 91458},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38421,9 +38454,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2887, col: 8, offset: 91166},
+																													pos: position{line: 2902, col: 8, offset: 91634},
 																													expr: &anyMatcher{
-																														line: 2887, col: 9, offset: 91167,
+																														line: 2902, col: 9, offset: 91635,
 																													},
 																												},
 																											},
@@ -38432,30 +38465,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 757, col: 5, offset: 24182},
+																								pos: position{line: 764, col: 5, offset: 24425},
 																								run: (*parser).callonListContinuationElement1895,
 																								expr: &seqExpr{
-																									pos: position{line: 757, col: 5, offset: 24182},
+																									pos: position{line: 764, col: 5, offset: 24425},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 757, col: 5, offset: 24182},
+																											pos:   position{line: 764, col: 5, offset: 24425},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 757, col: 16, offset: 24193},
+																												pos: position{line: 764, col: 16, offset: 24436},
 																												run: (*parser).callonListContinuationElement1898,
 																												expr: &seqExpr{
-																													pos: position{line: 757, col: 16, offset: 24193},
+																													pos: position{line: 764, col: 16, offset: 24436},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 757, col: 16, offset: 24193},
+																															pos:        position{line: 764, col: 16, offset: 24436},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 757, col: 22, offset: 24199},
+																															pos: position{line: 764, col: 22, offset: 24442},
 																															expr: &litMatcher{
-																																pos:        position{line: 757, col: 22, offset: 24199},
+																																pos:        position{line: 764, col: 22, offset: 24442},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -38466,12 +38499,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 759, col: 8, offset: 24283},
+																											pos: position{line: 766, col: 8, offset: 24526},
 																											expr: &actionExpr{
-																												pos: position{line: 2868, col: 10, offset: 90818},
+																												pos: position{line: 2883, col: 10, offset: 91286},
 																												run: (*parser).callonListContinuationElement1904,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 10, offset: 90818},
+																													pos:        position{line: 2883, col: 10, offset: 91286},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38480,28 +38513,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2890, col: 8, offset: 91216},
+																											pos: position{line: 2905, col: 8, offset: 91684},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2877, col: 12, offset: 90989},
+																													pos: position{line: 2892, col: 12, offset: 91457},
 																													run: (*parser).callonListContinuationElement1907,
 																													expr: &choiceExpr{
-																														pos: position{line: 2877, col: 13, offset: 90990},
+																														pos: position{line: 2892, col: 13, offset: 91458},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38510,9 +38543,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2887, col: 8, offset: 91166},
+																													pos: position{line: 2902, col: 8, offset: 91634},
 																													expr: &anyMatcher{
-																														line: 2887, col: 9, offset: 91167,
+																														line: 2902, col: 9, offset: 91635,
 																													},
 																												},
 																											},
@@ -38521,30 +38554,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 772, col: 5, offset: 24719},
+																								pos: position{line: 779, col: 5, offset: 24962},
 																								run: (*parser).callonListContinuationElement1914,
 																								expr: &seqExpr{
-																									pos: position{line: 772, col: 5, offset: 24719},
+																									pos: position{line: 779, col: 5, offset: 24962},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 772, col: 5, offset: 24719},
+																											pos:   position{line: 779, col: 5, offset: 24962},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 772, col: 16, offset: 24730},
+																												pos: position{line: 779, col: 16, offset: 24973},
 																												run: (*parser).callonListContinuationElement1917,
 																												expr: &seqExpr{
-																													pos: position{line: 772, col: 16, offset: 24730},
+																													pos: position{line: 779, col: 16, offset: 24973},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 772, col: 16, offset: 24730},
+																															pos:        position{line: 779, col: 16, offset: 24973},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 772, col: 23, offset: 24737},
+																															pos: position{line: 779, col: 23, offset: 24980},
 																															expr: &litMatcher{
-																																pos:        position{line: 772, col: 23, offset: 24737},
+																																pos:        position{line: 779, col: 23, offset: 24980},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -38555,12 +38588,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 774, col: 8, offset: 24821},
+																											pos: position{line: 781, col: 8, offset: 25064},
 																											expr: &actionExpr{
-																												pos: position{line: 2868, col: 10, offset: 90818},
+																												pos: position{line: 2883, col: 10, offset: 91286},
 																												run: (*parser).callonListContinuationElement1923,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 10, offset: 90818},
+																													pos:        position{line: 2883, col: 10, offset: 91286},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38569,28 +38602,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2890, col: 8, offset: 91216},
+																											pos: position{line: 2905, col: 8, offset: 91684},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2877, col: 12, offset: 90989},
+																													pos: position{line: 2892, col: 12, offset: 91457},
 																													run: (*parser).callonListContinuationElement1926,
 																													expr: &choiceExpr{
-																														pos: position{line: 2877, col: 13, offset: 90990},
+																														pos: position{line: 2892, col: 13, offset: 91458},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38599,9 +38632,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2887, col: 8, offset: 91166},
+																													pos: position{line: 2902, col: 8, offset: 91634},
 																													expr: &anyMatcher{
-																														line: 2887, col: 9, offset: 91167,
+																														line: 2902, col: 9, offset: 91635,
 																													},
 																												},
 																											},
@@ -38610,30 +38643,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 786, col: 5, offset: 25195},
+																								pos: position{line: 793, col: 5, offset: 25438},
 																								run: (*parser).callonListContinuationElement1933,
 																								expr: &seqExpr{
-																									pos: position{line: 786, col: 5, offset: 25195},
+																									pos: position{line: 793, col: 5, offset: 25438},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 786, col: 5, offset: 25195},
+																											pos:   position{line: 793, col: 5, offset: 25438},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 786, col: 16, offset: 25206},
+																												pos: position{line: 793, col: 16, offset: 25449},
 																												run: (*parser).callonListContinuationElement1936,
 																												expr: &seqExpr{
-																													pos: position{line: 786, col: 16, offset: 25206},
+																													pos: position{line: 793, col: 16, offset: 25449},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 786, col: 16, offset: 25206},
+																															pos:        position{line: 793, col: 16, offset: 25449},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 786, col: 23, offset: 25213},
+																															pos: position{line: 793, col: 23, offset: 25456},
 																															expr: &litMatcher{
-																																pos:        position{line: 786, col: 23, offset: 25213},
+																																pos:        position{line: 793, col: 23, offset: 25456},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -38644,12 +38677,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 788, col: 8, offset: 25297},
+																											pos: position{line: 795, col: 8, offset: 25540},
 																											expr: &actionExpr{
-																												pos: position{line: 2868, col: 10, offset: 90818},
+																												pos: position{line: 2883, col: 10, offset: 91286},
 																												run: (*parser).callonListContinuationElement1942,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 10, offset: 90818},
+																													pos:        position{line: 2883, col: 10, offset: 91286},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38658,28 +38691,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2890, col: 8, offset: 91216},
+																											pos: position{line: 2905, col: 8, offset: 91684},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2877, col: 12, offset: 90989},
+																													pos: position{line: 2892, col: 12, offset: 91457},
 																													run: (*parser).callonListContinuationElement1945,
 																													expr: &choiceExpr{
-																														pos: position{line: 2877, col: 13, offset: 90990},
+																														pos: position{line: 2892, col: 13, offset: 91458},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38688,9 +38721,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2887, col: 8, offset: 91166},
+																													pos: position{line: 2902, col: 8, offset: 91634},
 																													expr: &anyMatcher{
-																														line: 2887, col: 9, offset: 91167,
+																														line: 2902, col: 9, offset: 91635,
 																													},
 																												},
 																											},
@@ -38699,30 +38732,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 793, col: 5, offset: 25447},
+																								pos: position{line: 800, col: 5, offset: 25690},
 																								run: (*parser).callonListContinuationElement1952,
 																								expr: &seqExpr{
-																									pos: position{line: 793, col: 5, offset: 25447},
+																									pos: position{line: 800, col: 5, offset: 25690},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 793, col: 5, offset: 25447},
+																											pos:   position{line: 800, col: 5, offset: 25690},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 793, col: 16, offset: 25458},
+																												pos: position{line: 800, col: 16, offset: 25701},
 																												run: (*parser).callonListContinuationElement1955,
 																												expr: &seqExpr{
-																													pos: position{line: 793, col: 16, offset: 25458},
+																													pos: position{line: 800, col: 16, offset: 25701},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 793, col: 16, offset: 25458},
+																															pos:        position{line: 800, col: 16, offset: 25701},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 793, col: 23, offset: 25465},
+																															pos: position{line: 800, col: 23, offset: 25708},
 																															expr: &litMatcher{
-																																pos:        position{line: 793, col: 23, offset: 25465},
+																																pos:        position{line: 800, col: 23, offset: 25708},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -38733,12 +38766,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 795, col: 8, offset: 25549},
+																											pos: position{line: 802, col: 8, offset: 25792},
 																											expr: &actionExpr{
-																												pos: position{line: 2868, col: 10, offset: 90818},
+																												pos: position{line: 2883, col: 10, offset: 91286},
 																												run: (*parser).callonListContinuationElement1961,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 10, offset: 90818},
+																													pos:        position{line: 2883, col: 10, offset: 91286},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38747,28 +38780,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2890, col: 8, offset: 91216},
+																											pos: position{line: 2905, col: 8, offset: 91684},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2877, col: 12, offset: 90989},
+																													pos: position{line: 2892, col: 12, offset: 91457},
 																													run: (*parser).callonListContinuationElement1964,
 																													expr: &choiceExpr{
-																														pos: position{line: 2877, col: 13, offset: 90990},
+																														pos: position{line: 2892, col: 13, offset: 91458},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38777,9 +38810,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2887, col: 8, offset: 91166},
+																													pos: position{line: 2902, col: 8, offset: 91634},
 																													expr: &anyMatcher{
-																														line: 2887, col: 9, offset: 91167,
+																														line: 2902, col: 9, offset: 91635,
 																													},
 																												},
 																											},
@@ -38788,30 +38821,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 800, col: 5, offset: 25697},
+																								pos: position{line: 807, col: 5, offset: 25940},
 																								run: (*parser).callonListContinuationElement1971,
 																								expr: &seqExpr{
-																									pos: position{line: 800, col: 5, offset: 25697},
+																									pos: position{line: 807, col: 5, offset: 25940},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 800, col: 5, offset: 25697},
+																											pos:   position{line: 807, col: 5, offset: 25940},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 800, col: 16, offset: 25708},
+																												pos: position{line: 807, col: 16, offset: 25951},
 																												run: (*parser).callonListContinuationElement1974,
 																												expr: &seqExpr{
-																													pos: position{line: 800, col: 16, offset: 25708},
+																													pos: position{line: 807, col: 16, offset: 25951},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 800, col: 16, offset: 25708},
+																															pos:        position{line: 807, col: 16, offset: 25951},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 800, col: 23, offset: 25715},
+																															pos: position{line: 807, col: 23, offset: 25958},
 																															expr: &litMatcher{
-																																pos:        position{line: 800, col: 23, offset: 25715},
+																																pos:        position{line: 807, col: 23, offset: 25958},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -38822,12 +38855,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 802, col: 8, offset: 25799},
+																											pos: position{line: 809, col: 8, offset: 26042},
 																											expr: &actionExpr{
-																												pos: position{line: 2868, col: 10, offset: 90818},
+																												pos: position{line: 2883, col: 10, offset: 91286},
 																												run: (*parser).callonListContinuationElement1980,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 10, offset: 90818},
+																													pos:        position{line: 2883, col: 10, offset: 91286},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38836,28 +38869,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2890, col: 8, offset: 91216},
+																											pos: position{line: 2905, col: 8, offset: 91684},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2877, col: 12, offset: 90989},
+																													pos: position{line: 2892, col: 12, offset: 91457},
 																													run: (*parser).callonListContinuationElement1983,
 																													expr: &choiceExpr{
-																														pos: position{line: 2877, col: 13, offset: 90990},
+																														pos: position{line: 2892, col: 13, offset: 91458},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38866,9 +38899,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2887, col: 8, offset: 91166},
+																													pos: position{line: 2902, col: 8, offset: 91634},
 																													expr: &anyMatcher{
-																														line: 2887, col: 9, offset: 91167,
+																														line: 2902, col: 9, offset: 91635,
 																													},
 																												},
 																											},
@@ -38877,30 +38910,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 807, col: 5, offset: 25943},
+																								pos: position{line: 814, col: 5, offset: 26186},
 																								run: (*parser).callonListContinuationElement1990,
 																								expr: &seqExpr{
-																									pos: position{line: 807, col: 5, offset: 25943},
+																									pos: position{line: 814, col: 5, offset: 26186},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 807, col: 5, offset: 25943},
+																											pos:   position{line: 814, col: 5, offset: 26186},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 807, col: 16, offset: 25954},
+																												pos: position{line: 814, col: 16, offset: 26197},
 																												run: (*parser).callonListContinuationElement1993,
 																												expr: &seqExpr{
-																													pos: position{line: 807, col: 16, offset: 25954},
+																													pos: position{line: 814, col: 16, offset: 26197},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 807, col: 16, offset: 25954},
+																															pos:        position{line: 814, col: 16, offset: 26197},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 807, col: 23, offset: 25961},
+																															pos: position{line: 814, col: 23, offset: 26204},
 																															expr: &litMatcher{
-																																pos:        position{line: 807, col: 23, offset: 25961},
+																																pos:        position{line: 814, col: 23, offset: 26204},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -38911,12 +38944,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 809, col: 8, offset: 26045},
+																											pos: position{line: 816, col: 8, offset: 26288},
 																											expr: &actionExpr{
-																												pos: position{line: 2868, col: 10, offset: 90818},
+																												pos: position{line: 2883, col: 10, offset: 91286},
 																												run: (*parser).callonListContinuationElement1999,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2868, col: 10, offset: 90818},
+																													pos:        position{line: 2883, col: 10, offset: 91286},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38925,28 +38958,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2890, col: 8, offset: 91216},
+																											pos: position{line: 2905, col: 8, offset: 91684},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2877, col: 12, offset: 90989},
+																													pos: position{line: 2892, col: 12, offset: 91457},
 																													run: (*parser).callonListContinuationElement2002,
 																													expr: &choiceExpr{
-																														pos: position{line: 2877, col: 13, offset: 90990},
+																														pos: position{line: 2892, col: 13, offset: 91458},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 13, offset: 90990},
+																																pos:        position{line: 2892, col: 13, offset: 91458},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 20, offset: 90997},
+																																pos:        position{line: 2892, col: 20, offset: 91465},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2877, col: 29, offset: 91006},
+																																pos:        position{line: 2892, col: 29, offset: 91474},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38955,9 +38988,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2887, col: 8, offset: 91166},
+																													pos: position{line: 2902, col: 8, offset: 91634},
 																													expr: &anyMatcher{
-																														line: 2887, col: 9, offset: 91167,
+																														line: 2902, col: 9, offset: 91635,
 																													},
 																												},
 																											},
@@ -38973,15 +39006,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1527, col: 5, offset: 49513},
+																	pos:   position{line: 1534, col: 5, offset: 49756},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2818, col: 14, offset: 89411},
+																		pos: position{line: 2833, col: 14, offset: 89879},
 																		run: (*parser).callonListContinuationElement2010,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2818, col: 14, offset: 89411},
+																			pos: position{line: 2833, col: 14, offset: 89879},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2818, col: 14, offset: 89411},
+																				pos:        position{line: 2833, col: 14, offset: 89879},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -38991,28 +39024,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonListContinuationElement2014,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -39021,9 +39054,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -39044,33 +39077,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1716, col: 1, offset: 55385},
+			pos:  position{line: 1723, col: 1, offset: 55628},
 			expr: &actionExpr{
-				pos: position{line: 1718, col: 5, offset: 55463},
+				pos: position{line: 1725, col: 5, offset: 55706},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1718, col: 5, offset: 55463},
+					pos: position{line: 1725, col: 5, offset: 55706},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1718, col: 5, offset: 55463},
+							pos: position{line: 1725, col: 5, offset: 55706},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1721, col: 5, offset: 55530},
+							pos:        position{line: 1728, col: 5, offset: 55773},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1721, col: 9, offset: 55534},
+							pos:   position{line: 1728, col: 9, offset: 55777},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1721, col: 14, offset: 55539},
+								pos: position{line: 1728, col: 14, offset: 55782},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1721, col: 14, offset: 55539},
+									pos: position{line: 1728, col: 14, offset: 55782},
 									expr: &charClassMatcher{
-										pos:        position{line: 1721, col: 14, offset: 55539},
+										pos:        position{line: 1728, col: 14, offset: 55782},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -39080,18 +39113,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1721, col: 62, offset: 55587},
+							pos:        position{line: 1728, col: 62, offset: 55830},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1721, col: 66, offset: 55591},
+							pos: position{line: 1728, col: 66, offset: 55834},
 							expr: &actionExpr{
-								pos: position{line: 2868, col: 10, offset: 90818},
+								pos: position{line: 2883, col: 10, offset: 91286},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2868, col: 10, offset: 90818},
+									pos:        position{line: 2883, col: 10, offset: 91286},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -39100,30 +39133,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1721, col: 73, offset: 55598},
+							pos: position{line: 1728, col: 73, offset: 55841},
 							expr: &choiceExpr{
-								pos: position{line: 1721, col: 75, offset: 55600},
+								pos: position{line: 1728, col: 75, offset: 55843},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2877, col: 12, offset: 90989},
+										pos: position{line: 2892, col: 12, offset: 91457},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2877, col: 13, offset: 90990},
+											pos: position{line: 2892, col: 13, offset: 91458},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2877, col: 13, offset: 90990},
+													pos:        position{line: 2892, col: 13, offset: 91458},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2877, col: 20, offset: 90997},
+													pos:        position{line: 2892, col: 20, offset: 91465},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2877, col: 29, offset: 91006},
+													pos:        position{line: 2892, col: 29, offset: 91474},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -39132,13 +39165,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2887, col: 8, offset: 91166},
+										pos: position{line: 2902, col: 8, offset: 91634},
 										expr: &anyMatcher{
-											line: 2887, col: 9, offset: 91167,
+											line: 2902, col: 9, offset: 91635,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1721, col: 81, offset: 55606},
+										pos:  position{line: 1728, col: 81, offset: 55849},
 										name: "Callout",
 									},
 								},
@@ -39150,44 +39183,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1760, col: 1, offset: 56779},
+			pos:  position{line: 1767, col: 1, offset: 57022},
 			expr: &actionExpr{
-				pos: position{line: 1762, col: 5, offset: 56853},
+				pos: position{line: 1769, col: 5, offset: 57096},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1762, col: 5, offset: 56853},
+					pos: position{line: 1769, col: 5, offset: 57096},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1762, col: 5, offset: 56853},
+							pos: position{line: 1769, col: 5, offset: 57096},
 							expr: &seqExpr{
-								pos: position{line: 1762, col: 7, offset: 56855},
+								pos: position{line: 1769, col: 7, offset: 57098},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2758, col: 13, offset: 87913},
+										pos:        position{line: 2773, col: 13, offset: 88381},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1762, col: 16, offset: 56864},
+										pos: position{line: 1769, col: 16, offset: 57107},
 										expr: &seqExpr{
-											pos: position{line: 1762, col: 18, offset: 56866},
+											pos: position{line: 1769, col: 18, offset: 57109},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1762, col: 19, offset: 56867},
+													pos:        position{line: 1769, col: 19, offset: 57110},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2872, col: 11, offset: 90879},
+													pos: position{line: 2887, col: 11, offset: 91347},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2872, col: 11, offset: 90879},
+														pos: position{line: 2887, col: 11, offset: 91347},
 														expr: &charClassMatcher{
-															pos:        position{line: 2872, col: 11, offset: 90879},
+															pos:        position{line: 2887, col: 11, offset: 91347},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -39202,88 +39235,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1763, col: 5, offset: 57007},
+							pos:   position{line: 1770, col: 5, offset: 57250},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1763, col: 11, offset: 57013},
+								pos: position{line: 1770, col: 11, offset: 57256},
 								expr: &actionExpr{
-									pos: position{line: 1741, col: 5, offset: 56276},
+									pos: position{line: 1748, col: 5, offset: 56519},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1741, col: 5, offset: 56276},
+										pos: position{line: 1748, col: 5, offset: 56519},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1741, col: 5, offset: 56276},
+												pos: position{line: 1748, col: 5, offset: 56519},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1744, col: 5, offset: 56339},
+												pos:   position{line: 1751, col: 5, offset: 56582},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1744, col: 12, offset: 56346},
+													pos: position{line: 1751, col: 12, offset: 56589},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1744, col: 12, offset: 56346},
+															pos: position{line: 1751, col: 12, offset: 56589},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1744, col: 12, offset: 56346},
+																pos:        position{line: 1751, col: 12, offset: 56589},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1746, col: 13, offset: 56402},
+															pos: position{line: 1753, col: 13, offset: 56645},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1746, col: 13, offset: 56402},
+																pos:        position{line: 1753, col: 13, offset: 56645},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1748, col: 13, offset: 56460},
+															pos: position{line: 1755, col: 13, offset: 56703},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1748, col: 13, offset: 56460},
+																pos:        position{line: 1755, col: 13, offset: 56703},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1750, col: 13, offset: 56528},
+															pos: position{line: 1757, col: 13, offset: 56771},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1750, col: 13, offset: 56528},
+																pos:        position{line: 1757, col: 13, offset: 56771},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1752, col: 13, offset: 56592},
+															pos: position{line: 1759, col: 13, offset: 56835},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1752, col: 13, offset: 56592},
+																pos:        position{line: 1759, col: 13, offset: 56835},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1754, col: 13, offset: 56656},
+															pos: position{line: 1761, col: 13, offset: 56899},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1754, col: 13, offset: 56656},
+																pos: position{line: 1761, col: 13, offset: 56899},
 																expr: &actionExpr{
-																	pos: position{line: 2872, col: 11, offset: 90879},
+																	pos: position{line: 2887, col: 11, offset: 91347},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2872, col: 11, offset: 90879},
+																		pos: position{line: 2887, col: 11, offset: 91347},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 11, offset: 90879},
+																			pos:        position{line: 2887, col: 11, offset: 91347},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39302,24 +39335,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1764, col: 5, offset: 57035},
+							pos:   position{line: 1771, col: 5, offset: 57278},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1800, col: 5, offset: 58142},
+								pos: position{line: 1807, col: 5, offset: 58385},
 								run: (*parser).callonShortcutParagraph35,
 								expr: &seqExpr{
-									pos: position{line: 1800, col: 5, offset: 58142},
+									pos: position{line: 1807, col: 5, offset: 58385},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1800, col: 5, offset: 58142},
+											pos:   position{line: 1807, col: 5, offset: 58385},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2818, col: 14, offset: 89411},
+												pos: position{line: 2833, col: 14, offset: 89879},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2818, col: 14, offset: 89411},
+													pos: position{line: 2833, col: 14, offset: 89879},
 													expr: &charClassMatcher{
-														pos:        position{line: 2818, col: 14, offset: 89411},
+														pos:        position{line: 2833, col: 14, offset: 89879},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39329,32 +39362,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1801, col: 5, offset: 58166},
+											pos: position{line: 1808, col: 5, offset: 58409},
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2890, col: 8, offset: 91216},
+											pos: position{line: 2905, col: 8, offset: 91684},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2877, col: 12, offset: 90989},
+													pos: position{line: 2892, col: 12, offset: 91457},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2877, col: 13, offset: 90990},
+														pos: position{line: 2892, col: 13, offset: 91458},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2877, col: 13, offset: 90990},
+																pos:        position{line: 2892, col: 13, offset: 91458},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2877, col: 20, offset: 90997},
+																pos:        position{line: 2892, col: 20, offset: 91465},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2877, col: 29, offset: 91006},
+																pos:        position{line: 2892, col: 29, offset: 91474},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39363,9 +39396,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2887, col: 8, offset: 91166},
+													pos: position{line: 2902, col: 8, offset: 91634},
 													expr: &anyMatcher{
-														line: 2887, col: 9, offset: 91167,
+														line: 2902, col: 9, offset: 91635,
 													},
 												},
 											},
@@ -39375,47 +39408,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1765, col: 5, offset: 57069},
+							pos: position{line: 1772, col: 5, offset: 57312},
 							run: (*parser).callonShortcutParagraph50,
 						},
 						&labeledExpr{
-							pos:   position{line: 1772, col: 5, offset: 57399},
+							pos:   position{line: 1779, col: 5, offset: 57642},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1772, col: 16, offset: 57410},
+								pos: position{line: 1779, col: 16, offset: 57653},
 								expr: &actionExpr{
-									pos: position{line: 1773, col: 9, offset: 57420},
+									pos: position{line: 1780, col: 9, offset: 57663},
 									run: (*parser).callonShortcutParagraph53,
 									expr: &seqExpr{
-										pos: position{line: 1773, col: 9, offset: 57420},
+										pos: position{line: 1780, col: 9, offset: 57663},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2885, col: 11, offset: 91152},
+												pos: position{line: 2900, col: 11, offset: 91620},
 												expr: &anyMatcher{
-													line: 2885, col: 13, offset: 91154,
+													line: 2900, col: 13, offset: 91622,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1774, col: 9, offset: 57436},
+												pos: position{line: 1781, col: 9, offset: 57679},
 												expr: &actionExpr{
-													pos: position{line: 680, col: 14, offset: 21592},
+													pos: position{line: 687, col: 14, offset: 21835},
 													run: (*parser).callonShortcutParagraph58,
 													expr: &seqExpr{
-														pos: position{line: 680, col: 14, offset: 21592},
+														pos: position{line: 687, col: 14, offset: 21835},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2885, col: 11, offset: 91152},
+																pos: position{line: 2900, col: 11, offset: 91620},
 																expr: &anyMatcher{
-																	line: 2885, col: 13, offset: 91154,
+																	line: 2900, col: 13, offset: 91622,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 680, col: 21, offset: 21599},
+																pos: position{line: 687, col: 21, offset: 21842},
 																expr: &actionExpr{
-																	pos: position{line: 2868, col: 10, offset: 90818},
+																	pos: position{line: 2883, col: 10, offset: 91286},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2868, col: 10, offset: 90818},
+																		pos:        position{line: 2883, col: 10, offset: 91286},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39424,28 +39457,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2890, col: 8, offset: 91216},
+																pos: position{line: 2905, col: 8, offset: 91684},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2877, col: 12, offset: 90989},
+																		pos: position{line: 2892, col: 12, offset: 91457},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2877, col: 13, offset: 90990},
+																			pos: position{line: 2892, col: 13, offset: 91458},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2877, col: 13, offset: 90990},
+																					pos:        position{line: 2892, col: 13, offset: 91458},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2877, col: 20, offset: 90997},
+																					pos:        position{line: 2892, col: 20, offset: 91465},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2877, col: 29, offset: 91006},
+																					pos:        position{line: 2892, col: 29, offset: 91474},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39454,9 +39487,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2887, col: 8, offset: 91166},
+																		pos: position{line: 2902, col: 8, offset: 91634},
 																		expr: &anyMatcher{
-																			line: 2887, col: 9, offset: 91167,
+																			line: 2902, col: 9, offset: 91635,
 																		},
 																	},
 																},
@@ -39466,24 +39499,24 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1775, col: 9, offset: 57455},
+												pos: position{line: 1782, col: 9, offset: 57698},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1775, col: 10, offset: 57456},
+													pos:  position{line: 1782, col: 10, offset: 57699},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1776, col: 9, offset: 57480},
+												pos: position{line: 1783, col: 9, offset: 57723},
 												expr: &actionExpr{
-													pos: position{line: 727, col: 5, offset: 23145},
+													pos: position{line: 734, col: 5, offset: 23388},
 													run: (*parser).callonShortcutParagraph76,
 													expr: &seqExpr{
-														pos: position{line: 727, col: 5, offset: 23145},
+														pos: position{line: 734, col: 5, offset: 23388},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 727, col: 5, offset: 23145},
+																pos: position{line: 734, col: 5, offset: 23388},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2758, col: 13, offset: 87913},
+																	pos:        position{line: 2773, col: 13, offset: 88381},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39491,36 +39524,36 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 728, col: 5, offset: 23175},
+																pos:   position{line: 735, col: 5, offset: 23418},
 																label: "delimiter",
 																expr: &choiceExpr{
-																	pos: position{line: 729, col: 9, offset: 23195},
+																	pos: position{line: 736, col: 9, offset: 23438},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 743, col: 5, offset: 23687},
+																			pos: position{line: 750, col: 5, offset: 23930},
 																			run: (*parser).callonShortcutParagraph82,
 																			expr: &seqExpr{
-																				pos: position{line: 743, col: 5, offset: 23687},
+																				pos: position{line: 750, col: 5, offset: 23930},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 743, col: 5, offset: 23687},
+																						pos:   position{line: 750, col: 5, offset: 23930},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 743, col: 16, offset: 23698},
+																							pos: position{line: 750, col: 16, offset: 23941},
 																							run: (*parser).callonShortcutParagraph85,
 																							expr: &seqExpr{
-																								pos: position{line: 743, col: 16, offset: 23698},
+																								pos: position{line: 750, col: 16, offset: 23941},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 743, col: 16, offset: 23698},
+																										pos:        position{line: 750, col: 16, offset: 23941},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 743, col: 23, offset: 23705},
+																										pos: position{line: 750, col: 23, offset: 23948},
 																										expr: &litMatcher{
-																											pos:        position{line: 743, col: 23, offset: 23705},
+																											pos:        position{line: 750, col: 23, offset: 23948},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -39531,12 +39564,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 745, col: 8, offset: 23789},
+																						pos: position{line: 752, col: 8, offset: 24032},
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 10, offset: 90818},
+																							pos: position{line: 2883, col: 10, offset: 91286},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 10, offset: 90818},
+																								pos:        position{line: 2883, col: 10, offset: 91286},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39545,28 +39578,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2890, col: 8, offset: 91216},
+																						pos: position{line: 2905, col: 8, offset: 91684},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2877, col: 12, offset: 90989},
+																								pos: position{line: 2892, col: 12, offset: 91457},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2877, col: 13, offset: 90990},
+																									pos: position{line: 2892, col: 13, offset: 91458},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 13, offset: 90990},
+																											pos:        position{line: 2892, col: 13, offset: 91458},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 20, offset: 90997},
+																											pos:        position{line: 2892, col: 20, offset: 91465},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 29, offset: 91006},
+																											pos:        position{line: 2892, col: 29, offset: 91474},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39575,9 +39608,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2887, col: 8, offset: 91166},
+																								pos: position{line: 2902, col: 8, offset: 91634},
 																								expr: &anyMatcher{
-																									line: 2887, col: 9, offset: 91167,
+																									line: 2902, col: 9, offset: 91635,
 																								},
 																							},
 																						},
@@ -39586,30 +39619,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 750, col: 5, offset: 23935},
+																			pos: position{line: 757, col: 5, offset: 24178},
 																			run: (*parser).callonShortcutParagraph101,
 																			expr: &seqExpr{
-																				pos: position{line: 750, col: 5, offset: 23935},
+																				pos: position{line: 757, col: 5, offset: 24178},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 750, col: 5, offset: 23935},
+																						pos:   position{line: 757, col: 5, offset: 24178},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 750, col: 16, offset: 23946},
+																							pos: position{line: 757, col: 16, offset: 24189},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &seqExpr{
-																								pos: position{line: 750, col: 16, offset: 23946},
+																								pos: position{line: 757, col: 16, offset: 24189},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 750, col: 16, offset: 23946},
+																										pos:        position{line: 757, col: 16, offset: 24189},
 																										val:        "====",
 																										ignoreCase: false,
 																										want:       "\"====\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 750, col: 23, offset: 23953},
+																										pos: position{line: 757, col: 23, offset: 24196},
 																										expr: &litMatcher{
-																											pos:        position{line: 750, col: 23, offset: 23953},
+																											pos:        position{line: 757, col: 23, offset: 24196},
 																											val:        "=",
 																											ignoreCase: false,
 																											want:       "\"=\"",
@@ -39620,12 +39653,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 752, col: 8, offset: 24037},
+																						pos: position{line: 759, col: 8, offset: 24280},
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 10, offset: 90818},
+																							pos: position{line: 2883, col: 10, offset: 91286},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 10, offset: 90818},
+																								pos:        position{line: 2883, col: 10, offset: 91286},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39634,28 +39667,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2890, col: 8, offset: 91216},
+																						pos: position{line: 2905, col: 8, offset: 91684},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2877, col: 12, offset: 90989},
+																								pos: position{line: 2892, col: 12, offset: 91457},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2877, col: 13, offset: 90990},
+																									pos: position{line: 2892, col: 13, offset: 91458},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 13, offset: 90990},
+																											pos:        position{line: 2892, col: 13, offset: 91458},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 20, offset: 90997},
+																											pos:        position{line: 2892, col: 20, offset: 91465},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 29, offset: 91006},
+																											pos:        position{line: 2892, col: 29, offset: 91474},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39664,9 +39697,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2887, col: 8, offset: 91166},
+																								pos: position{line: 2902, col: 8, offset: 91634},
 																								expr: &anyMatcher{
-																									line: 2887, col: 9, offset: 91167,
+																									line: 2902, col: 9, offset: 91635,
 																								},
 																							},
 																						},
@@ -39675,27 +39708,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 763, col: 26, offset: 24423},
+																			pos: position{line: 770, col: 26, offset: 24666},
 																			run: (*parser).callonShortcutParagraph120,
 																			expr: &seqExpr{
-																				pos: position{line: 763, col: 26, offset: 24423},
+																				pos: position{line: 770, col: 26, offset: 24666},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 763, col: 26, offset: 24423},
+																						pos:        position{line: 770, col: 26, offset: 24666},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 763, col: 32, offset: 24429},
+																						pos:   position{line: 770, col: 32, offset: 24672},
 																						label: "language",
 																						expr: &actionExpr{
-																							pos: position{line: 767, col: 13, offset: 24559},
+																							pos: position{line: 774, col: 13, offset: 24802},
 																							run: (*parser).callonShortcutParagraph124,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 767, col: 14, offset: 24560},
+																								pos: position{line: 774, col: 14, offset: 24803},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 767, col: 14, offset: 24560},
+																									pos:        position{line: 774, col: 14, offset: 24803},
 																									val:        "[^\\r\\n` ]",
 																									chars:      []rune{'\r', '\n', '`', ' '},
 																									ignoreCase: false,
@@ -39705,12 +39738,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 763, col: 52, offset: 24449},
+																						pos: position{line: 770, col: 52, offset: 24692},
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 10, offset: 90818},
+																							pos: position{line: 2883, col: 10, offset: 91286},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 10, offset: 90818},
+																								pos:        position{line: 2883, col: 10, offset: 91286},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39719,28 +39752,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2890, col: 8, offset: 91216},
+																						pos: position{line: 2905, col: 8, offset: 91684},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2877, col: 12, offset: 90989},
+																								pos: position{line: 2892, col: 12, offset: 91457},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2877, col: 13, offset: 90990},
+																									pos: position{line: 2892, col: 13, offset: 91458},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 13, offset: 90990},
+																											pos:        position{line: 2892, col: 13, offset: 91458},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 20, offset: 90997},
+																											pos:        position{line: 2892, col: 20, offset: 91465},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 29, offset: 91006},
+																											pos:        position{line: 2892, col: 29, offset: 91474},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39749,9 +39782,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2887, col: 8, offset: 91166},
+																								pos: position{line: 2902, col: 8, offset: 91634},
 																								expr: &anyMatcher{
-																									line: 2887, col: 9, offset: 91167,
+																									line: 2902, col: 9, offset: 91635,
 																								},
 																							},
 																						},
@@ -39760,30 +39793,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 757, col: 5, offset: 24182},
+																			pos: position{line: 764, col: 5, offset: 24425},
 																			run: (*parser).callonShortcutParagraph138,
 																			expr: &seqExpr{
-																				pos: position{line: 757, col: 5, offset: 24182},
+																				pos: position{line: 764, col: 5, offset: 24425},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 757, col: 5, offset: 24182},
+																						pos:   position{line: 764, col: 5, offset: 24425},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 757, col: 16, offset: 24193},
+																							pos: position{line: 764, col: 16, offset: 24436},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &seqExpr{
-																								pos: position{line: 757, col: 16, offset: 24193},
+																								pos: position{line: 764, col: 16, offset: 24436},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 757, col: 16, offset: 24193},
+																										pos:        position{line: 764, col: 16, offset: 24436},
 																										val:        "```",
 																										ignoreCase: false,
 																										want:       "\"```\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 757, col: 22, offset: 24199},
+																										pos: position{line: 764, col: 22, offset: 24442},
 																										expr: &litMatcher{
-																											pos:        position{line: 757, col: 22, offset: 24199},
+																											pos:        position{line: 764, col: 22, offset: 24442},
 																											val:        "`",
 																											ignoreCase: false,
 																											want:       "\"`\"",
@@ -39794,12 +39827,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 759, col: 8, offset: 24283},
+																						pos: position{line: 766, col: 8, offset: 24526},
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 10, offset: 90818},
+																							pos: position{line: 2883, col: 10, offset: 91286},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 10, offset: 90818},
+																								pos:        position{line: 2883, col: 10, offset: 91286},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39808,28 +39841,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2890, col: 8, offset: 91216},
+																						pos: position{line: 2905, col: 8, offset: 91684},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2877, col: 12, offset: 90989},
+																								pos: position{line: 2892, col: 12, offset: 91457},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2877, col: 13, offset: 90990},
+																									pos: position{line: 2892, col: 13, offset: 91458},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 13, offset: 90990},
+																											pos:        position{line: 2892, col: 13, offset: 91458},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 20, offset: 90997},
+																											pos:        position{line: 2892, col: 20, offset: 91465},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 29, offset: 91006},
+																											pos:        position{line: 2892, col: 29, offset: 91474},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39838,9 +39871,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2887, col: 8, offset: 91166},
+																								pos: position{line: 2902, col: 8, offset: 91634},
 																								expr: &anyMatcher{
-																									line: 2887, col: 9, offset: 91167,
+																									line: 2902, col: 9, offset: 91635,
 																								},
 																							},
 																						},
@@ -39849,30 +39882,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 772, col: 5, offset: 24719},
+																			pos: position{line: 779, col: 5, offset: 24962},
 																			run: (*parser).callonShortcutParagraph157,
 																			expr: &seqExpr{
-																				pos: position{line: 772, col: 5, offset: 24719},
+																				pos: position{line: 779, col: 5, offset: 24962},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 772, col: 5, offset: 24719},
+																						pos:   position{line: 779, col: 5, offset: 24962},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 772, col: 16, offset: 24730},
+																							pos: position{line: 779, col: 16, offset: 24973},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &seqExpr{
-																								pos: position{line: 772, col: 16, offset: 24730},
+																								pos: position{line: 779, col: 16, offset: 24973},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 772, col: 16, offset: 24730},
+																										pos:        position{line: 779, col: 16, offset: 24973},
 																										val:        "----",
 																										ignoreCase: false,
 																										want:       "\"----\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 772, col: 23, offset: 24737},
+																										pos: position{line: 779, col: 23, offset: 24980},
 																										expr: &litMatcher{
-																											pos:        position{line: 772, col: 23, offset: 24737},
+																											pos:        position{line: 779, col: 23, offset: 24980},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
@@ -39883,12 +39916,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 774, col: 8, offset: 24821},
+																						pos: position{line: 781, col: 8, offset: 25064},
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 10, offset: 90818},
+																							pos: position{line: 2883, col: 10, offset: 91286},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 10, offset: 90818},
+																								pos:        position{line: 2883, col: 10, offset: 91286},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39897,28 +39930,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2890, col: 8, offset: 91216},
+																						pos: position{line: 2905, col: 8, offset: 91684},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2877, col: 12, offset: 90989},
+																								pos: position{line: 2892, col: 12, offset: 91457},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2877, col: 13, offset: 90990},
+																									pos: position{line: 2892, col: 13, offset: 91458},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 13, offset: 90990},
+																											pos:        position{line: 2892, col: 13, offset: 91458},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 20, offset: 90997},
+																											pos:        position{line: 2892, col: 20, offset: 91465},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 29, offset: 91006},
+																											pos:        position{line: 2892, col: 29, offset: 91474},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39927,9 +39960,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2887, col: 8, offset: 91166},
+																								pos: position{line: 2902, col: 8, offset: 91634},
 																								expr: &anyMatcher{
-																									line: 2887, col: 9, offset: 91167,
+																									line: 2902, col: 9, offset: 91635,
 																								},
 																							},
 																						},
@@ -39938,30 +39971,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 786, col: 5, offset: 25195},
+																			pos: position{line: 793, col: 5, offset: 25438},
 																			run: (*parser).callonShortcutParagraph176,
 																			expr: &seqExpr{
-																				pos: position{line: 786, col: 5, offset: 25195},
+																				pos: position{line: 793, col: 5, offset: 25438},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 786, col: 5, offset: 25195},
+																						pos:   position{line: 793, col: 5, offset: 25438},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 786, col: 16, offset: 25206},
+																							pos: position{line: 793, col: 16, offset: 25449},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &seqExpr{
-																								pos: position{line: 786, col: 16, offset: 25206},
+																								pos: position{line: 793, col: 16, offset: 25449},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 786, col: 16, offset: 25206},
+																										pos:        position{line: 793, col: 16, offset: 25449},
 																										val:        "....",
 																										ignoreCase: false,
 																										want:       "\"....\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 786, col: 23, offset: 25213},
+																										pos: position{line: 793, col: 23, offset: 25456},
 																										expr: &litMatcher{
-																											pos:        position{line: 786, col: 23, offset: 25213},
+																											pos:        position{line: 793, col: 23, offset: 25456},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -39972,12 +40005,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 788, col: 8, offset: 25297},
+																						pos: position{line: 795, col: 8, offset: 25540},
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 10, offset: 90818},
+																							pos: position{line: 2883, col: 10, offset: 91286},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 10, offset: 90818},
+																								pos:        position{line: 2883, col: 10, offset: 91286},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39986,28 +40019,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2890, col: 8, offset: 91216},
+																						pos: position{line: 2905, col: 8, offset: 91684},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2877, col: 12, offset: 90989},
+																								pos: position{line: 2892, col: 12, offset: 91457},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2877, col: 13, offset: 90990},
+																									pos: position{line: 2892, col: 13, offset: 91458},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 13, offset: 90990},
+																											pos:        position{line: 2892, col: 13, offset: 91458},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 20, offset: 90997},
+																											pos:        position{line: 2892, col: 20, offset: 91465},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 29, offset: 91006},
+																											pos:        position{line: 2892, col: 29, offset: 91474},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40016,9 +40049,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2887, col: 8, offset: 91166},
+																								pos: position{line: 2902, col: 8, offset: 91634},
 																								expr: &anyMatcher{
-																									line: 2887, col: 9, offset: 91167,
+																									line: 2902, col: 9, offset: 91635,
 																								},
 																							},
 																						},
@@ -40027,30 +40060,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 793, col: 5, offset: 25447},
+																			pos: position{line: 800, col: 5, offset: 25690},
 																			run: (*parser).callonShortcutParagraph195,
 																			expr: &seqExpr{
-																				pos: position{line: 793, col: 5, offset: 25447},
+																				pos: position{line: 800, col: 5, offset: 25690},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 793, col: 5, offset: 25447},
+																						pos:   position{line: 800, col: 5, offset: 25690},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 793, col: 16, offset: 25458},
+																							pos: position{line: 800, col: 16, offset: 25701},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &seqExpr{
-																								pos: position{line: 793, col: 16, offset: 25458},
+																								pos: position{line: 800, col: 16, offset: 25701},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 793, col: 16, offset: 25458},
+																										pos:        position{line: 800, col: 16, offset: 25701},
 																										val:        "++++",
 																										ignoreCase: false,
 																										want:       "\"++++\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 793, col: 23, offset: 25465},
+																										pos: position{line: 800, col: 23, offset: 25708},
 																										expr: &litMatcher{
-																											pos:        position{line: 793, col: 23, offset: 25465},
+																											pos:        position{line: 800, col: 23, offset: 25708},
 																											val:        "+",
 																											ignoreCase: false,
 																											want:       "\"+\"",
@@ -40061,12 +40094,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 795, col: 8, offset: 25549},
+																						pos: position{line: 802, col: 8, offset: 25792},
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 10, offset: 90818},
+																							pos: position{line: 2883, col: 10, offset: 91286},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 10, offset: 90818},
+																								pos:        position{line: 2883, col: 10, offset: 91286},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40075,28 +40108,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2890, col: 8, offset: 91216},
+																						pos: position{line: 2905, col: 8, offset: 91684},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2877, col: 12, offset: 90989},
+																								pos: position{line: 2892, col: 12, offset: 91457},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2877, col: 13, offset: 90990},
+																									pos: position{line: 2892, col: 13, offset: 91458},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 13, offset: 90990},
+																											pos:        position{line: 2892, col: 13, offset: 91458},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 20, offset: 90997},
+																											pos:        position{line: 2892, col: 20, offset: 91465},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 29, offset: 91006},
+																											pos:        position{line: 2892, col: 29, offset: 91474},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40105,9 +40138,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2887, col: 8, offset: 91166},
+																								pos: position{line: 2902, col: 8, offset: 91634},
 																								expr: &anyMatcher{
-																									line: 2887, col: 9, offset: 91167,
+																									line: 2902, col: 9, offset: 91635,
 																								},
 																							},
 																						},
@@ -40116,30 +40149,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 800, col: 5, offset: 25697},
+																			pos: position{line: 807, col: 5, offset: 25940},
 																			run: (*parser).callonShortcutParagraph214,
 																			expr: &seqExpr{
-																				pos: position{line: 800, col: 5, offset: 25697},
+																				pos: position{line: 807, col: 5, offset: 25940},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 800, col: 5, offset: 25697},
+																						pos:   position{line: 807, col: 5, offset: 25940},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 800, col: 16, offset: 25708},
+																							pos: position{line: 807, col: 16, offset: 25951},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &seqExpr{
-																								pos: position{line: 800, col: 16, offset: 25708},
+																								pos: position{line: 807, col: 16, offset: 25951},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 800, col: 16, offset: 25708},
+																										pos:        position{line: 807, col: 16, offset: 25951},
 																										val:        "____",
 																										ignoreCase: false,
 																										want:       "\"____\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 800, col: 23, offset: 25715},
+																										pos: position{line: 807, col: 23, offset: 25958},
 																										expr: &litMatcher{
-																											pos:        position{line: 800, col: 23, offset: 25715},
+																											pos:        position{line: 807, col: 23, offset: 25958},
 																											val:        "_",
 																											ignoreCase: false,
 																											want:       "\"_\"",
@@ -40150,12 +40183,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 802, col: 8, offset: 25799},
+																						pos: position{line: 809, col: 8, offset: 26042},
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 10, offset: 90818},
+																							pos: position{line: 2883, col: 10, offset: 91286},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 10, offset: 90818},
+																								pos:        position{line: 2883, col: 10, offset: 91286},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40164,28 +40197,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2890, col: 8, offset: 91216},
+																						pos: position{line: 2905, col: 8, offset: 91684},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2877, col: 12, offset: 90989},
+																								pos: position{line: 2892, col: 12, offset: 91457},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2877, col: 13, offset: 90990},
+																									pos: position{line: 2892, col: 13, offset: 91458},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 13, offset: 90990},
+																											pos:        position{line: 2892, col: 13, offset: 91458},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 20, offset: 90997},
+																											pos:        position{line: 2892, col: 20, offset: 91465},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 29, offset: 91006},
+																											pos:        position{line: 2892, col: 29, offset: 91474},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40194,9 +40227,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2887, col: 8, offset: 91166},
+																								pos: position{line: 2902, col: 8, offset: 91634},
 																								expr: &anyMatcher{
-																									line: 2887, col: 9, offset: 91167,
+																									line: 2902, col: 9, offset: 91635,
 																								},
 																							},
 																						},
@@ -40205,30 +40238,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 807, col: 5, offset: 25943},
+																			pos: position{line: 814, col: 5, offset: 26186},
 																			run: (*parser).callonShortcutParagraph233,
 																			expr: &seqExpr{
-																				pos: position{line: 807, col: 5, offset: 25943},
+																				pos: position{line: 814, col: 5, offset: 26186},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 807, col: 5, offset: 25943},
+																						pos:   position{line: 814, col: 5, offset: 26186},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 807, col: 16, offset: 25954},
+																							pos: position{line: 814, col: 16, offset: 26197},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &seqExpr{
-																								pos: position{line: 807, col: 16, offset: 25954},
+																								pos: position{line: 814, col: 16, offset: 26197},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 807, col: 16, offset: 25954},
+																										pos:        position{line: 814, col: 16, offset: 26197},
 																										val:        "****",
 																										ignoreCase: false,
 																										want:       "\"****\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 807, col: 23, offset: 25961},
+																										pos: position{line: 814, col: 23, offset: 26204},
 																										expr: &litMatcher{
-																											pos:        position{line: 807, col: 23, offset: 25961},
+																											pos:        position{line: 814, col: 23, offset: 26204},
 																											val:        "*",
 																											ignoreCase: false,
 																											want:       "\"*\"",
@@ -40239,12 +40272,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 809, col: 8, offset: 26045},
+																						pos: position{line: 816, col: 8, offset: 26288},
 																						expr: &actionExpr{
-																							pos: position{line: 2868, col: 10, offset: 90818},
+																							pos: position{line: 2883, col: 10, offset: 91286},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 10, offset: 90818},
+																								pos:        position{line: 2883, col: 10, offset: 91286},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40253,28 +40286,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2890, col: 8, offset: 91216},
+																						pos: position{line: 2905, col: 8, offset: 91684},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2877, col: 12, offset: 90989},
+																								pos: position{line: 2892, col: 12, offset: 91457},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2877, col: 13, offset: 90990},
+																									pos: position{line: 2892, col: 13, offset: 91458},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 13, offset: 90990},
+																											pos:        position{line: 2892, col: 13, offset: 91458},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 20, offset: 90997},
+																											pos:        position{line: 2892, col: 20, offset: 91465},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2877, col: 29, offset: 91006},
+																											pos:        position{line: 2892, col: 29, offset: 91474},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40283,9 +40316,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2887, col: 8, offset: 91166},
+																								pos: position{line: 2902, col: 8, offset: 91634},
 																								expr: &anyMatcher{
-																									line: 2887, col: 9, offset: 91167,
+																									line: 2902, col: 9, offset: 91635,
 																								},
 																							},
 																						},
@@ -40301,23 +40334,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1777, col: 9, offset: 57504},
+												pos: position{line: 1784, col: 9, offset: 57747},
 												expr: &seqExpr{
-													pos: position{line: 1551, col: 27, offset: 50141},
+													pos: position{line: 1558, col: 27, offset: 50384},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1551, col: 27, offset: 50141},
+															pos:        position{line: 1558, col: 27, offset: 50384},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1551, col: 31, offset: 50145},
+															pos: position{line: 1558, col: 31, offset: 50388},
 															expr: &actionExpr{
-																pos: position{line: 2868, col: 10, offset: 90818},
+																pos: position{line: 2883, col: 10, offset: 91286},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2868, col: 10, offset: 90818},
+																	pos:        position{line: 2883, col: 10, offset: 91286},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40326,25 +40359,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2877, col: 12, offset: 90989},
+															pos: position{line: 2892, col: 12, offset: 91457},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2877, col: 13, offset: 90990},
+																pos: position{line: 2892, col: 13, offset: 91458},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 13, offset: 90990},
+																		pos:        position{line: 2892, col: 13, offset: 91458},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 20, offset: 90997},
+																		pos:        position{line: 2892, col: 20, offset: 91465},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 29, offset: 91006},
+																		pos:        position{line: 2892, col: 29, offset: 91474},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40356,42 +40389,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1778, col: 9, offset: 57536},
+												pos:   position{line: 1785, col: 9, offset: 57779},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1778, col: 15, offset: 57542},
+													pos: position{line: 1785, col: 15, offset: 57785},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2478, col: 22, offset: 79761},
+															pos: position{line: 2493, col: 22, offset: 80229},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2478, col: 22, offset: 79761},
+																pos: position{line: 2493, col: 22, offset: 80229},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2483, col: 31, offset: 79982},
+																		pos:        position{line: 2498, col: 31, offset: 80450},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2483, col: 36, offset: 79987},
+																		pos: position{line: 2498, col: 36, offset: 80455},
 																		expr: &litMatcher{
-																			pos:        position{line: 2483, col: 37, offset: 79988},
+																			pos:        position{line: 2498, col: 37, offset: 80456},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2478, col: 49, offset: 79788},
+																		pos:   position{line: 2493, col: 49, offset: 80256},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2814, col: 13, offset: 89344},
+																			pos: position{line: 2829, col: 13, offset: 89812},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2814, col: 13, offset: 89344},
+																				pos: position{line: 2829, col: 13, offset: 89812},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2814, col: 13, offset: 89344},
+																					pos:        position{line: 2829, col: 13, offset: 89812},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40401,28 +40434,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2890, col: 8, offset: 91216},
+																		pos: position{line: 2905, col: 8, offset: 91684},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2877, col: 12, offset: 90989},
+																				pos: position{line: 2892, col: 12, offset: 91457},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2877, col: 13, offset: 90990},
+																					pos: position{line: 2892, col: 13, offset: 91458},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 13, offset: 90990},
+																							pos:        position{line: 2892, col: 13, offset: 91458},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 20, offset: 90997},
+																							pos:        position{line: 2892, col: 20, offset: 91465},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 29, offset: 91006},
+																							pos:        position{line: 2892, col: 29, offset: 91474},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40431,9 +40464,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2887, col: 8, offset: 91166},
+																				pos: position{line: 2902, col: 8, offset: 91634},
 																				expr: &anyMatcher{
-																					line: 2887, col: 9, offset: 91167,
+																					line: 2902, col: 9, offset: 91635,
 																				},
 																			},
 																		},
@@ -40442,21 +40475,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1800, col: 5, offset: 58142},
+															pos: position{line: 1807, col: 5, offset: 58385},
 															run: (*parser).callonShortcutParagraph282,
 															expr: &seqExpr{
-																pos: position{line: 1800, col: 5, offset: 58142},
+																pos: position{line: 1807, col: 5, offset: 58385},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1800, col: 5, offset: 58142},
+																		pos:   position{line: 1807, col: 5, offset: 58385},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2818, col: 14, offset: 89411},
+																			pos: position{line: 2833, col: 14, offset: 89879},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2818, col: 14, offset: 89411},
+																				pos: position{line: 2833, col: 14, offset: 89879},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2818, col: 14, offset: 89411},
+																					pos:        position{line: 2833, col: 14, offset: 89879},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40466,32 +40499,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1801, col: 5, offset: 58166},
+																		pos: position{line: 1808, col: 5, offset: 58409},
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2890, col: 8, offset: 91216},
+																		pos: position{line: 2905, col: 8, offset: 91684},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2877, col: 12, offset: 90989},
+																				pos: position{line: 2892, col: 12, offset: 91457},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2877, col: 13, offset: 90990},
+																					pos: position{line: 2892, col: 13, offset: 91458},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 13, offset: 90990},
+																							pos:        position{line: 2892, col: 13, offset: 91458},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 20, offset: 90997},
+																							pos:        position{line: 2892, col: 20, offset: 91465},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 29, offset: 91006},
+																							pos:        position{line: 2892, col: 29, offset: 91474},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40500,9 +40533,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2887, col: 8, offset: 91166},
+																				pos: position{line: 2902, col: 8, offset: 91634},
 																				expr: &anyMatcher{
-																					line: 2887, col: 9, offset: 91167,
+																					line: 2902, col: 9, offset: 91635,
 																				},
 																			},
 																		},
@@ -40524,96 +40557,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1785, col: 1, offset: 57746},
+			pos:  position{line: 1792, col: 1, offset: 57989},
 			expr: &actionExpr{
-				pos: position{line: 1786, col: 5, offset: 57764},
+				pos: position{line: 1793, col: 5, offset: 58007},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1786, col: 5, offset: 57764},
+					pos: position{line: 1793, col: 5, offset: 58007},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1786, col: 5, offset: 57764},
+							pos:   position{line: 1793, col: 5, offset: 58007},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1786, col: 11, offset: 57770},
+								pos: position{line: 1793, col: 11, offset: 58013},
 								expr: &actionExpr{
-									pos: position{line: 1741, col: 5, offset: 56276},
+									pos: position{line: 1748, col: 5, offset: 56519},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1741, col: 5, offset: 56276},
+										pos: position{line: 1748, col: 5, offset: 56519},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1741, col: 5, offset: 56276},
+												pos: position{line: 1748, col: 5, offset: 56519},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1744, col: 5, offset: 56339},
+												pos:   position{line: 1751, col: 5, offset: 56582},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1744, col: 12, offset: 56346},
+													pos: position{line: 1751, col: 12, offset: 56589},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1744, col: 12, offset: 56346},
+															pos: position{line: 1751, col: 12, offset: 56589},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1744, col: 12, offset: 56346},
+																pos:        position{line: 1751, col: 12, offset: 56589},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1746, col: 13, offset: 56402},
+															pos: position{line: 1753, col: 13, offset: 56645},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1746, col: 13, offset: 56402},
+																pos:        position{line: 1753, col: 13, offset: 56645},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1748, col: 13, offset: 56460},
+															pos: position{line: 1755, col: 13, offset: 56703},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1748, col: 13, offset: 56460},
+																pos:        position{line: 1755, col: 13, offset: 56703},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1750, col: 13, offset: 56528},
+															pos: position{line: 1757, col: 13, offset: 56771},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1750, col: 13, offset: 56528},
+																pos:        position{line: 1757, col: 13, offset: 56771},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1752, col: 13, offset: 56592},
+															pos: position{line: 1759, col: 13, offset: 56835},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1752, col: 13, offset: 56592},
+																pos:        position{line: 1759, col: 13, offset: 56835},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1754, col: 13, offset: 56656},
+															pos: position{line: 1761, col: 13, offset: 56899},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1754, col: 13, offset: 56656},
+																pos: position{line: 1761, col: 13, offset: 56899},
 																expr: &actionExpr{
-																	pos: position{line: 2872, col: 11, offset: 90879},
+																	pos: position{line: 2887, col: 11, offset: 91347},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2872, col: 11, offset: 90879},
+																		pos: position{line: 2887, col: 11, offset: 91347},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2872, col: 11, offset: 90879},
+																			pos:        position{line: 2887, col: 11, offset: 91347},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40632,24 +40665,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1787, col: 5, offset: 57793},
+							pos:   position{line: 1794, col: 5, offset: 58036},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1800, col: 5, offset: 58142},
+								pos: position{line: 1807, col: 5, offset: 58385},
 								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1800, col: 5, offset: 58142},
+									pos: position{line: 1807, col: 5, offset: 58385},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1800, col: 5, offset: 58142},
+											pos:   position{line: 1807, col: 5, offset: 58385},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2818, col: 14, offset: 89411},
+												pos: position{line: 2833, col: 14, offset: 89879},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2818, col: 14, offset: 89411},
+													pos: position{line: 2833, col: 14, offset: 89879},
 													expr: &charClassMatcher{
-														pos:        position{line: 2818, col: 14, offset: 89411},
+														pos:        position{line: 2833, col: 14, offset: 89879},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40659,32 +40692,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1801, col: 5, offset: 58166},
+											pos: position{line: 1808, col: 5, offset: 58409},
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2890, col: 8, offset: 91216},
+											pos: position{line: 2905, col: 8, offset: 91684},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2877, col: 12, offset: 90989},
+													pos: position{line: 2892, col: 12, offset: 91457},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2877, col: 13, offset: 90990},
+														pos: position{line: 2892, col: 13, offset: 91458},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2877, col: 13, offset: 90990},
+																pos:        position{line: 2892, col: 13, offset: 91458},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2877, col: 20, offset: 90997},
+																pos:        position{line: 2892, col: 20, offset: 91465},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2877, col: 29, offset: 91006},
+																pos:        position{line: 2892, col: 29, offset: 91474},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40693,9 +40726,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2887, col: 8, offset: 91166},
+													pos: position{line: 2902, col: 8, offset: 91634},
 													expr: &anyMatcher{
-														line: 2887, col: 9, offset: 91167,
+														line: 2902, col: 9, offset: 91635,
 													},
 												},
 											},
@@ -40705,43 +40738,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1788, col: 5, offset: 57827},
+							pos:   position{line: 1795, col: 5, offset: 58070},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1788, col: 16, offset: 57838},
+								pos: position{line: 1795, col: 16, offset: 58081},
 								expr: &actionExpr{
-									pos: position{line: 1789, col: 9, offset: 57848},
+									pos: position{line: 1796, col: 9, offset: 58091},
 									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1789, col: 9, offset: 57848},
+										pos: position{line: 1796, col: 9, offset: 58091},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2885, col: 11, offset: 91152},
+												pos: position{line: 2900, col: 11, offset: 91620},
 												expr: &anyMatcher{
-													line: 2885, col: 13, offset: 91154,
+													line: 2900, col: 13, offset: 91622,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1790, col: 9, offset: 57863},
+												pos: position{line: 1797, col: 9, offset: 58106},
 												expr: &actionExpr{
-													pos: position{line: 680, col: 14, offset: 21592},
+													pos: position{line: 687, col: 14, offset: 21835},
 													run: (*parser).callonParagraph48,
 													expr: &seqExpr{
-														pos: position{line: 680, col: 14, offset: 21592},
+														pos: position{line: 687, col: 14, offset: 21835},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2885, col: 11, offset: 91152},
+																pos: position{line: 2900, col: 11, offset: 91620},
 																expr: &anyMatcher{
-																	line: 2885, col: 13, offset: 91154,
+																	line: 2900, col: 13, offset: 91622,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 680, col: 21, offset: 21599},
+																pos: position{line: 687, col: 21, offset: 21842},
 																expr: &actionExpr{
-																	pos: position{line: 2868, col: 10, offset: 90818},
+																	pos: position{line: 2883, col: 10, offset: 91286},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2868, col: 10, offset: 90818},
+																		pos:        position{line: 2883, col: 10, offset: 91286},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40750,28 +40783,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2890, col: 8, offset: 91216},
+																pos: position{line: 2905, col: 8, offset: 91684},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2877, col: 12, offset: 90989},
+																		pos: position{line: 2892, col: 12, offset: 91457},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2877, col: 13, offset: 90990},
+																			pos: position{line: 2892, col: 13, offset: 91458},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2877, col: 13, offset: 90990},
+																					pos:        position{line: 2892, col: 13, offset: 91458},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2877, col: 20, offset: 90997},
+																					pos:        position{line: 2892, col: 20, offset: 91465},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2877, col: 29, offset: 91006},
+																					pos:        position{line: 2892, col: 29, offset: 91474},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40780,9 +40813,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2887, col: 8, offset: 91166},
+																		pos: position{line: 2902, col: 8, offset: 91634},
 																		expr: &anyMatcher{
-																			line: 2887, col: 9, offset: 91167,
+																			line: 2902, col: 9, offset: 91635,
 																		},
 																	},
 																},
@@ -40792,49 +40825,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1791, col: 9, offset: 57882},
+												pos: position{line: 1798, col: 9, offset: 58125},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1791, col: 10, offset: 57883},
+													pos:  position{line: 1798, col: 10, offset: 58126},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1792, col: 9, offset: 57907},
+												pos:   position{line: 1799, col: 9, offset: 58150},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1792, col: 15, offset: 57913},
+													pos: position{line: 1799, col: 15, offset: 58156},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2478, col: 22, offset: 79761},
+															pos: position{line: 2493, col: 22, offset: 80229},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2478, col: 22, offset: 79761},
+																pos: position{line: 2493, col: 22, offset: 80229},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2483, col: 31, offset: 79982},
+																		pos:        position{line: 2498, col: 31, offset: 80450},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2483, col: 36, offset: 79987},
+																		pos: position{line: 2498, col: 36, offset: 80455},
 																		expr: &litMatcher{
-																			pos:        position{line: 2483, col: 37, offset: 79988},
+																			pos:        position{line: 2498, col: 37, offset: 80456},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2478, col: 49, offset: 79788},
+																		pos:   position{line: 2493, col: 49, offset: 80256},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2814, col: 13, offset: 89344},
+																			pos: position{line: 2829, col: 13, offset: 89812},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2814, col: 13, offset: 89344},
+																				pos: position{line: 2829, col: 13, offset: 89812},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2814, col: 13, offset: 89344},
+																					pos:        position{line: 2829, col: 13, offset: 89812},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40844,28 +40877,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2890, col: 8, offset: 91216},
+																		pos: position{line: 2905, col: 8, offset: 91684},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2877, col: 12, offset: 90989},
+																				pos: position{line: 2892, col: 12, offset: 91457},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2877, col: 13, offset: 90990},
+																					pos: position{line: 2892, col: 13, offset: 91458},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 13, offset: 90990},
+																							pos:        position{line: 2892, col: 13, offset: 91458},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 20, offset: 90997},
+																							pos:        position{line: 2892, col: 20, offset: 91465},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 29, offset: 91006},
+																							pos:        position{line: 2892, col: 29, offset: 91474},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40874,9 +40907,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2887, col: 8, offset: 91166},
+																				pos: position{line: 2902, col: 8, offset: 91634},
 																				expr: &anyMatcher{
-																					line: 2887, col: 9, offset: 91167,
+																					line: 2902, col: 9, offset: 91635,
 																				},
 																			},
 																		},
@@ -40885,21 +40918,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1800, col: 5, offset: 58142},
+															pos: position{line: 1807, col: 5, offset: 58385},
 															run: (*parser).callonParagraph84,
 															expr: &seqExpr{
-																pos: position{line: 1800, col: 5, offset: 58142},
+																pos: position{line: 1807, col: 5, offset: 58385},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1800, col: 5, offset: 58142},
+																		pos:   position{line: 1807, col: 5, offset: 58385},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2818, col: 14, offset: 89411},
+																			pos: position{line: 2833, col: 14, offset: 89879},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2818, col: 14, offset: 89411},
+																				pos: position{line: 2833, col: 14, offset: 89879},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2818, col: 14, offset: 89411},
+																					pos:        position{line: 2833, col: 14, offset: 89879},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40909,32 +40942,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1801, col: 5, offset: 58166},
+																		pos: position{line: 1808, col: 5, offset: 58409},
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2890, col: 8, offset: 91216},
+																		pos: position{line: 2905, col: 8, offset: 91684},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2877, col: 12, offset: 90989},
+																				pos: position{line: 2892, col: 12, offset: 91457},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2877, col: 13, offset: 90990},
+																					pos: position{line: 2892, col: 13, offset: 91458},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 13, offset: 90990},
+																							pos:        position{line: 2892, col: 13, offset: 91458},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 20, offset: 90997},
+																							pos:        position{line: 2892, col: 20, offset: 91465},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 29, offset: 91006},
+																							pos:        position{line: 2892, col: 29, offset: 91474},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40943,9 +40976,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2887, col: 8, offset: 91166},
+																				pos: position{line: 2902, col: 8, offset: 91634},
 																				expr: &anyMatcher{
-																					line: 2887, col: 9, offset: 91167,
+																					line: 2902, col: 9, offset: 91635,
 																				},
 																			},
 																		},
@@ -40967,16 +41000,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1811, col: 1, offset: 58652},
+			pos:  position{line: 1818, col: 1, offset: 58895},
 			expr: &choiceExpr{
-				pos: position{line: 1811, col: 15, offset: 58666},
+				pos: position{line: 1818, col: 15, offset: 58909},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1811, col: 15, offset: 58666},
+						pos:  position{line: 1818, col: 15, offset: 58909},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1811, col: 35, offset: 58686},
+						pos:  position{line: 1818, col: 35, offset: 58929},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -40984,65 +41017,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1813, col: 1, offset: 58707},
+			pos:  position{line: 1820, col: 1, offset: 58950},
 			expr: &actionExpr{
-				pos: position{line: 1814, col: 5, offset: 58732},
+				pos: position{line: 1821, col: 5, offset: 58975},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1814, col: 5, offset: 58732},
+					pos: position{line: 1821, col: 5, offset: 58975},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1814, col: 5, offset: 58732},
+							pos:   position{line: 1821, col: 5, offset: 58975},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1814, col: 16, offset: 58743},
+								pos: position{line: 1821, col: 16, offset: 58986},
 								expr: &actionExpr{
-									pos: position{line: 1814, col: 17, offset: 58744},
+									pos: position{line: 1821, col: 17, offset: 58987},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1814, col: 17, offset: 58744},
+										pos:  position{line: 1821, col: 17, offset: 58987},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1817, col: 5, offset: 58812},
+							pos: position{line: 1824, col: 5, offset: 59055},
 							expr: &litMatcher{
-								pos:        position{line: 1817, col: 7, offset: 58814},
+								pos:        position{line: 1824, col: 7, offset: 59057},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1818, col: 5, offset: 58823},
+							pos:   position{line: 1825, col: 5, offset: 59066},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1819, col: 9, offset: 58841},
+								pos: position{line: 1826, col: 9, offset: 59084},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1819, col: 9, offset: 58841},
+										pos:  position{line: 1826, col: 9, offset: 59084},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1820, col: 11, offset: 58868},
+										pos:  position{line: 1827, col: 11, offset: 59111},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1821, col: 11, offset: 58896},
+										pos:  position{line: 1828, col: 11, offset: 59139},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1822, col: 11, offset: 58927},
+										pos:  position{line: 1829, col: 11, offset: 59170},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1823, col: 11, offset: 58955},
+										pos:  position{line: 1830, col: 11, offset: 59198},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1824, col: 11, offset: 58986},
+										pos:  position{line: 1831, col: 11, offset: 59229},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -41054,36 +41087,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1829, col: 1, offset: 59106},
+			pos:  position{line: 1836, col: 1, offset: 59349},
 			expr: &actionExpr{
-				pos: position{line: 1830, col: 5, offset: 59148},
+				pos: position{line: 1837, col: 5, offset: 59391},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1830, col: 5, offset: 59148},
+					pos: position{line: 1837, col: 5, offset: 59391},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1830, col: 5, offset: 59148},
+							pos:   position{line: 1837, col: 5, offset: 59391},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1830, col: 16, offset: 59159},
+								pos: position{line: 1837, col: 16, offset: 59402},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1830, col: 17, offset: 59160},
+									pos:  position{line: 1837, col: 17, offset: 59403},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1831, col: 5, offset: 59185},
+							pos:   position{line: 1838, col: 5, offset: 59428},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1831, col: 14, offset: 59194},
+								pos: position{line: 1838, col: 14, offset: 59437},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1831, col: 14, offset: 59194},
+										pos:  position{line: 1838, col: 14, offset: 59437},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1831, col: 33, offset: 59213},
+										pos:  position{line: 1838, col: 33, offset: 59456},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -41095,32 +41128,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1839, col: 1, offset: 59444},
+			pos:  position{line: 1846, col: 1, offset: 59687},
 			expr: &choiceExpr{
-				pos: position{line: 1840, col: 5, offset: 59469},
+				pos: position{line: 1847, col: 5, offset: 59712},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1840, col: 5, offset: 59469},
+						pos:  position{line: 1847, col: 5, offset: 59712},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1841, col: 7, offset: 59496},
+						pos:  position{line: 1848, col: 7, offset: 59739},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1842, col: 7, offset: 59524},
+						pos:  position{line: 1849, col: 7, offset: 59767},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1843, col: 7, offset: 59556},
+						pos:  position{line: 1850, col: 7, offset: 59799},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1844, col: 7, offset: 59584},
+						pos:  position{line: 1851, col: 7, offset: 59827},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1845, col: 7, offset: 59605},
+						pos:  position{line: 1852, col: 7, offset: 59848},
 						name: "SuperscriptText",
 					},
 				},
@@ -41128,24 +41161,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1847, col: 1, offset: 59623},
+			pos:  position{line: 1854, col: 1, offset: 59866},
 			expr: &choiceExpr{
-				pos: position{line: 1848, col: 5, offset: 59648},
+				pos: position{line: 1855, col: 5, offset: 59891},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1848, col: 5, offset: 59648},
+						pos:  position{line: 1855, col: 5, offset: 59891},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1849, col: 7, offset: 59674},
+						pos:  position{line: 1856, col: 7, offset: 59917},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1850, col: 7, offset: 59702},
+						pos:  position{line: 1857, col: 7, offset: 59945},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1851, col: 7, offset: 59733},
+						pos:  position{line: 1858, col: 7, offset: 59976},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -41153,26 +41186,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1865, col: 1, offset: 60087},
+			pos:  position{line: 1872, col: 1, offset: 60330},
 			expr: &choiceExpr{
-				pos: position{line: 1866, col: 5, offset: 60113},
+				pos: position{line: 1873, col: 5, offset: 60356},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2767, col: 5, offset: 88060},
+						pos: position{line: 2782, col: 5, offset: 88528},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2767, col: 5, offset: 88060},
+							pos: position{line: 2782, col: 5, offset: 88528},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2767, col: 5, offset: 88060},
+									pos:   position{line: 2782, col: 5, offset: 88528},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2767, col: 11, offset: 88066},
+										pos: position{line: 2782, col: 11, offset: 88534},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2767, col: 11, offset: 88066},
+											pos: position{line: 2782, col: 11, offset: 88534},
 											expr: &charClassMatcher{
-												pos:        position{line: 2767, col: 11, offset: 88066},
+												pos:        position{line: 2782, col: 11, offset: 88534},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41182,36 +41215,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2770, col: 5, offset: 88124},
+									pos: position{line: 2785, col: 5, offset: 88592},
 									expr: &seqExpr{
-										pos: position{line: 2771, col: 9, offset: 88135},
+										pos: position{line: 2786, col: 9, offset: 88603},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2771, col: 9, offset: 88135},
+												pos:        position{line: 2786, col: 9, offset: 88603},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2772, col: 9, offset: 88184},
+												pos: position{line: 2787, col: 9, offset: 88652},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2776, col: 5, offset: 88264},
+									pos: position{line: 2791, col: 5, offset: 88732},
 									expr: &seqExpr{
-										pos: position{line: 2777, col: 9, offset: 88275},
+										pos: position{line: 2792, col: 9, offset: 88743},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2777, col: 9, offset: 88275},
+												pos:        position{line: 2792, col: 9, offset: 88743},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2777, col: 13, offset: 88279},
+												pos:        position{line: 2792, col: 13, offset: 88747},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41224,12 +41257,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2872, col: 11, offset: 90879},
+						pos: position{line: 2887, col: 11, offset: 91347},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2872, col: 11, offset: 90879},
+							pos: position{line: 2887, col: 11, offset: 91347},
 							expr: &charClassMatcher{
-								pos:        position{line: 2872, col: 11, offset: 90879},
+								pos:        position{line: 2887, col: 11, offset: 91347},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -41238,25 +41271,25 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1868, col: 7, offset: 60176},
+						pos:  position{line: 1875, col: 7, offset: 60419},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2496, col: 5, offset: 80478},
+						pos: position{line: 2511, col: 5, offset: 80946},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2496, col: 5, offset: 80478},
+							pos: position{line: 2511, col: 5, offset: 80946},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2496, col: 5, offset: 80478},
+									pos:        position{line: 2511, col: 5, offset: 80946},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2496, col: 10, offset: 80483},
+									pos: position{line: 2511, col: 10, offset: 80951},
 									expr: &charClassMatcher{
-										pos:        position{line: 2496, col: 11, offset: 80484},
+										pos:        position{line: 2511, col: 11, offset: 80952},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41267,29 +41300,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2502, col: 5, offset: 80676},
+						pos: position{line: 2517, col: 5, offset: 81144},
 						run: (*parser).callonQuotedTextElement25,
 						expr: &seqExpr{
-							pos: position{line: 2502, col: 5, offset: 80676},
+							pos: position{line: 2517, col: 5, offset: 81144},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2502, col: 5, offset: 80676},
+									pos: position{line: 2517, col: 5, offset: 81144},
 									run: (*parser).callonQuotedTextElement27,
 								},
 								&andCodeExpr{
-									pos: position{line: 2505, col: 5, offset: 80747},
+									pos: position{line: 2520, col: 5, offset: 81215},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&litMatcher{
-									pos:        position{line: 2509, col: 5, offset: 80872},
+									pos:        position{line: 2524, col: 5, offset: 81340},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2509, col: 9, offset: 80876},
+									pos: position{line: 2524, col: 9, offset: 81344},
 									expr: &charClassMatcher{
-										pos:        position{line: 2509, col: 10, offset: 80877},
+										pos:        position{line: 2524, col: 10, offset: 81345},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41300,27 +41333,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2785, col: 5, offset: 88472},
+						pos: position{line: 2800, col: 5, offset: 88940},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2786, col: 9, offset: 88482},
+							pos: position{line: 2801, col: 9, offset: 88950},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2786, col: 10, offset: 88483},
+									pos:        position{line: 2801, col: 10, offset: 88951},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2788, col: 13, offset: 88580},
+									pos: position{line: 2803, col: 13, offset: 89048},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2788, col: 13, offset: 88580},
+											pos: position{line: 2803, col: 13, offset: 89048},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2791, col: 13, offset: 88680},
+											pos:        position{line: 2806, col: 13, offset: 89148},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -41328,20 +41361,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2791, col: 19, offset: 88686},
+									pos:        position{line: 2806, col: 19, offset: 89154},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2794, col: 13, offset: 88724},
+									pos: position{line: 2809, col: 13, offset: 89192},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2794, col: 13, offset: 88724},
+											pos: position{line: 2809, col: 13, offset: 89192},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2797, col: 14, offset: 88817},
+											pos:        position{line: 2812, col: 14, offset: 89285},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -41350,18 +41383,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2799, col: 12, offset: 88861},
+									pos: position{line: 2814, col: 12, offset: 89329},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2799, col: 12, offset: 88861},
+											pos:        position{line: 2814, col: 12, offset: 89329},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2799, col: 16, offset: 88865},
+											pos: position{line: 2814, col: 16, offset: 89333},
 											expr: &litMatcher{
-												pos:        position{line: 2799, col: 17, offset: 88866},
+												pos:        position{line: 2814, col: 17, offset: 89334},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41373,35 +41406,35 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 639, col: 5, offset: 20212},
+						pos: position{line: 646, col: 5, offset: 20455},
 						run: (*parser).callonQuotedTextElement46,
 						expr: &seqExpr{
-							pos: position{line: 639, col: 5, offset: 20212},
+							pos: position{line: 646, col: 5, offset: 20455},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 639, col: 5, offset: 20212},
+									pos: position{line: 646, col: 5, offset: 20455},
 									run: (*parser).callonQuotedTextElement48,
 								},
 								&labeledExpr{
-									pos:   position{line: 642, col: 5, offset: 20284},
+									pos:   position{line: 649, col: 5, offset: 20527},
 									label: "element",
 									expr: &choiceExpr{
-										pos: position{line: 642, col: 14, offset: 20293},
+										pos: position{line: 649, col: 14, offset: 20536},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 648, col: 5, offset: 20422},
+												pos: position{line: 655, col: 5, offset: 20665},
 												run: (*parser).callonQuotedTextElement51,
 												expr: &seqExpr{
-													pos: position{line: 648, col: 5, offset: 20422},
+													pos: position{line: 655, col: 5, offset: 20665},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 648, col: 5, offset: 20422},
+															pos:        position{line: 655, col: 5, offset: 20665},
 															val:        "\\{",
 															ignoreCase: false,
 															want:       "\"\\\\{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 648, col: 13, offset: 20430},
+															pos:   position{line: 655, col: 13, offset: 20673},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
@@ -41433,7 +41466,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 648, col: 32, offset: 20449},
+															pos:        position{line: 655, col: 32, offset: 20692},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41442,19 +41475,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 655, col: 5, offset: 20690},
+												pos: position{line: 662, col: 5, offset: 20933},
 												run: (*parser).callonQuotedTextElement61,
 												expr: &seqExpr{
-													pos: position{line: 655, col: 5, offset: 20690},
+													pos: position{line: 662, col: 5, offset: 20933},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 655, col: 5, offset: 20690},
+															pos:        position{line: 662, col: 5, offset: 20933},
 															val:        "{",
 															ignoreCase: false,
 															want:       "\"{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 655, col: 9, offset: 20694},
+															pos:   position{line: 662, col: 9, offset: 20937},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
@@ -41486,7 +41519,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 655, col: 28, offset: 20713},
+															pos:        position{line: 662, col: 28, offset: 20956},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41495,19 +41528,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 661, col: 25, offset: 20894},
+												pos: position{line: 668, col: 25, offset: 21137},
 												run: (*parser).callonQuotedTextElement71,
 												expr: &seqExpr{
-													pos: position{line: 661, col: 25, offset: 20894},
+													pos: position{line: 668, col: 25, offset: 21137},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 661, col: 25, offset: 20894},
+															pos:        position{line: 668, col: 25, offset: 21137},
 															val:        "{counter:",
 															ignoreCase: false,
 															want:       "\"{counter:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 661, col: 37, offset: 20906},
+															pos:   position{line: 668, col: 37, offset: 21149},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
@@ -41539,33 +41572,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 661, col: 56, offset: 20925},
+															pos:   position{line: 668, col: 56, offset: 21168},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 661, col: 62, offset: 20931},
+																pos: position{line: 668, col: 62, offset: 21174},
 																expr: &actionExpr{
-																	pos: position{line: 669, col: 17, offset: 21226},
+																	pos: position{line: 676, col: 17, offset: 21469},
 																	run: (*parser).callonQuotedTextElement82,
 																	expr: &seqExpr{
-																		pos: position{line: 669, col: 17, offset: 21226},
+																		pos: position{line: 676, col: 17, offset: 21469},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 669, col: 17, offset: 21226},
+																				pos:        position{line: 676, col: 17, offset: 21469},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 669, col: 21, offset: 21230},
+																				pos:   position{line: 676, col: 21, offset: 21473},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 669, col: 28, offset: 21237},
+																					pos: position{line: 676, col: 28, offset: 21480},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 669, col: 28, offset: 21237},
+																							pos: position{line: 676, col: 28, offset: 21480},
 																							run: (*parser).callonQuotedTextElement87,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 669, col: 28, offset: 21237},
+																								pos:        position{line: 676, col: 28, offset: 21480},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -41573,12 +41606,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 671, col: 9, offset: 21291},
+																							pos: position{line: 678, col: 9, offset: 21534},
 																							run: (*parser).callonQuotedTextElement89,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 671, col: 9, offset: 21291},
+																								pos: position{line: 678, col: 9, offset: 21534},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 671, col: 9, offset: 21291},
+																									pos:        position{line: 678, col: 9, offset: 21534},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -41595,7 +41628,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 661, col: 78, offset: 20947},
+															pos:        position{line: 668, col: 78, offset: 21190},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41604,19 +41637,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 665, col: 25, offset: 21065},
+												pos: position{line: 672, col: 25, offset: 21308},
 												run: (*parser).callonQuotedTextElement93,
 												expr: &seqExpr{
-													pos: position{line: 665, col: 25, offset: 21065},
+													pos: position{line: 672, col: 25, offset: 21308},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 665, col: 25, offset: 21065},
+															pos:        position{line: 672, col: 25, offset: 21308},
 															val:        "{counter2:",
 															ignoreCase: false,
 															want:       "\"{counter2:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 665, col: 38, offset: 21078},
+															pos:   position{line: 672, col: 38, offset: 21321},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
@@ -41648,33 +41681,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 665, col: 57, offset: 21097},
+															pos:   position{line: 672, col: 57, offset: 21340},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 665, col: 63, offset: 21103},
+																pos: position{line: 672, col: 63, offset: 21346},
 																expr: &actionExpr{
-																	pos: position{line: 669, col: 17, offset: 21226},
+																	pos: position{line: 676, col: 17, offset: 21469},
 																	run: (*parser).callonQuotedTextElement104,
 																	expr: &seqExpr{
-																		pos: position{line: 669, col: 17, offset: 21226},
+																		pos: position{line: 676, col: 17, offset: 21469},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 669, col: 17, offset: 21226},
+																				pos:        position{line: 676, col: 17, offset: 21469},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 669, col: 21, offset: 21230},
+																				pos:   position{line: 676, col: 21, offset: 21473},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 669, col: 28, offset: 21237},
+																					pos: position{line: 676, col: 28, offset: 21480},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 669, col: 28, offset: 21237},
+																							pos: position{line: 676, col: 28, offset: 21480},
 																							run: (*parser).callonQuotedTextElement109,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 669, col: 28, offset: 21237},
+																								pos:        position{line: 676, col: 28, offset: 21480},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -41682,12 +41715,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 671, col: 9, offset: 21291},
+																							pos: position{line: 678, col: 9, offset: 21534},
 																							run: (*parser).callonQuotedTextElement111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 671, col: 9, offset: 21291},
+																								pos: position{line: 678, col: 9, offset: 21534},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 671, col: 9, offset: 21291},
+																									pos:        position{line: 678, col: 9, offset: 21534},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -41704,7 +41737,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 665, col: 79, offset: 21119},
+															pos:        position{line: 672, col: 79, offset: 21362},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41719,31 +41752,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2881, col: 18, offset: 91089},
+						pos: position{line: 2896, col: 18, offset: 91557},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2881, col: 18, offset: 91089},
+							pos: position{line: 2896, col: 18, offset: 91557},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2877, col: 12, offset: 90989},
+									pos: position{line: 2892, col: 12, offset: 91457},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2877, col: 13, offset: 90990},
+										pos: position{line: 2892, col: 13, offset: 91458},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2877, col: 13, offset: 90990},
+												pos:        position{line: 2892, col: 13, offset: 91458},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2877, col: 20, offset: 90997},
+												pos:        position{line: 2892, col: 20, offset: 91465},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2877, col: 29, offset: 91006},
+												pos:        position{line: 2892, col: 29, offset: 91474},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41752,27 +41785,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2881, col: 26, offset: 91097},
+									pos: position{line: 2896, col: 26, offset: 91565},
 									expr: &actionExpr{
-										pos: position{line: 2877, col: 12, offset: 90989},
+										pos: position{line: 2892, col: 12, offset: 91457},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2877, col: 13, offset: 90990},
+											pos: position{line: 2892, col: 13, offset: 91458},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2877, col: 13, offset: 90990},
+													pos:        position{line: 2892, col: 13, offset: 91458},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2877, col: 20, offset: 90997},
+													pos:        position{line: 2892, col: 20, offset: 91465},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2877, col: 29, offset: 91006},
+													pos:        position{line: 2892, col: 29, offset: 91474},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41785,31 +41818,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1873, col: 7, offset: 60343},
+						pos:  position{line: 1880, col: 7, offset: 60586},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1874, col: 7, offset: 60390},
+						pos:  position{line: 1881, col: 7, offset: 60633},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2465, col: 5, offset: 79307},
+						pos: position{line: 2480, col: 5, offset: 79775},
 						run: (*parser).callonQuotedTextElement130,
 						expr: &seqExpr{
-							pos: position{line: 2465, col: 5, offset: 79307},
+							pos: position{line: 2480, col: 5, offset: 79775},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2465, col: 5, offset: 79307},
+									pos: position{line: 2480, col: 5, offset: 79775},
 									run: (*parser).callonQuotedTextElement132,
 								},
 								&labeledExpr{
-									pos:   position{line: 2468, col: 5, offset: 79383},
+									pos:   position{line: 2483, col: 5, offset: 79851},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2469, col: 9, offset: 79401},
+										pos: position{line: 2484, col: 9, offset: 79869},
 										run: (*parser).callonQuotedTextElement134,
 										expr: &charClassMatcher{
-											pos:        position{line: 2469, col: 10, offset: 79402},
+											pos:        position{line: 2484, col: 10, offset: 79870},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -41821,27 +41854,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1213, col: 23, offset: 37477},
+						pos: position{line: 1220, col: 23, offset: 37720},
 						run: (*parser).callonQuotedTextElement136,
 						expr: &seqExpr{
-							pos: position{line: 1213, col: 23, offset: 37477},
+							pos: position{line: 1220, col: 23, offset: 37720},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1211, col: 32, offset: 37445},
+									pos:        position{line: 1218, col: 32, offset: 37688},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1213, col: 51, offset: 37505},
+									pos:   position{line: 1220, col: 51, offset: 37748},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1213, col: 56, offset: 37510},
+										pos: position{line: 1220, col: 56, offset: 37753},
 										run: (*parser).callonQuotedTextElement140,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1213, col: 56, offset: 37510},
+											pos: position{line: 1220, col: 56, offset: 37753},
 											expr: &charClassMatcher{
-												pos:        position{line: 1213, col: 56, offset: 37510},
+												pos:        position{line: 1220, col: 56, offset: 37753},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -41851,7 +41884,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1211, col: 32, offset: 37445},
+									pos:        position{line: 1218, col: 32, offset: 37688},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
@@ -41860,10 +41893,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2807, col: 12, offset: 89126},
+						pos: position{line: 2822, col: 12, offset: 89594},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &charClassMatcher{
-							pos:        position{line: 2807, col: 12, offset: 89126},
+							pos:        position{line: 2822, col: 12, offset: 89594},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41875,29 +41908,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1892, col: 1, offset: 60860},
+			pos:  position{line: 1899, col: 1, offset: 61103},
 			expr: &actionExpr{
-				pos: position{line: 1893, col: 5, offset: 60888},
+				pos: position{line: 1900, col: 5, offset: 61131},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1893, col: 5, offset: 60888},
+					pos: position{line: 1900, col: 5, offset: 61131},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1888, col: 38, offset: 60813},
+							pos:        position{line: 1895, col: 38, offset: 61056},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1894, col: 5, offset: 60927},
+							pos:   position{line: 1901, col: 5, offset: 61170},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1894, col: 15, offset: 60937},
+								pos:  position{line: 1901, col: 15, offset: 61180},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1890, col: 36, offset: 60854},
+							pos:        position{line: 1897, col: 36, offset: 61097},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -41908,44 +41941,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1899, col: 1, offset: 61097},
+			pos:  position{line: 1906, col: 1, offset: 61340},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1899, col: 32, offset: 61128},
+				pos: position{line: 1906, col: 32, offset: 61371},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1899, col: 32, offset: 61128},
+					pos:  position{line: 1906, col: 32, offset: 61371},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1901, col: 1, offset: 61159},
+			pos:  position{line: 1908, col: 1, offset: 61402},
 			expr: &actionExpr{
-				pos: position{line: 1902, col: 5, offset: 61194},
+				pos: position{line: 1909, col: 5, offset: 61437},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1902, col: 5, offset: 61194},
+					pos: position{line: 1909, col: 5, offset: 61437},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2885, col: 11, offset: 91152},
+							pos: position{line: 2900, col: 11, offset: 91620},
 							expr: &anyMatcher{
-								line: 2885, col: 13, offset: 91154,
+								line: 2900, col: 13, offset: 91622,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1903, col: 5, offset: 61205},
+							pos: position{line: 1910, col: 5, offset: 61448},
 							expr: &litMatcher{
-								pos:        position{line: 1890, col: 36, offset: 60854},
+								pos:        position{line: 1897, col: 36, offset: 61097},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1904, col: 5, offset: 61242},
+							pos:   position{line: 1911, col: 5, offset: 61485},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1904, col: 14, offset: 61251},
+								pos:  position{line: 1911, col: 14, offset: 61494},
 								name: "QuotedTextElement",
 							},
 						},
@@ -41955,29 +41988,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1929, col: 1, offset: 61931},
+			pos:  position{line: 1936, col: 1, offset: 62174},
 			expr: &actionExpr{
-				pos: position{line: 1930, col: 5, offset: 61959},
+				pos: position{line: 1937, col: 5, offset: 62202},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1930, col: 5, offset: 61959},
+					pos: position{line: 1937, col: 5, offset: 62202},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1913, col: 5, offset: 61485},
+							pos:        position{line: 1920, col: 5, offset: 61728},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1914, col: 5, offset: 61494},
+							pos: position{line: 1921, col: 5, offset: 61737},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1918, col: 5, offset: 61612},
+							pos: position{line: 1925, col: 5, offset: 61855},
 							expr: &notExpr{
-								pos: position{line: 1918, col: 7, offset: 61614},
+								pos: position{line: 1925, col: 7, offset: 61857},
 								expr: &litMatcher{
-									pos:        position{line: 1918, col: 8, offset: 61615},
+									pos:        position{line: 1925, col: 8, offset: 61858},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -41985,38 +42018,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1931, col: 5, offset: 61997},
+							pos:   position{line: 1938, col: 5, offset: 62240},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1931, col: 15, offset: 62007},
+								pos:  position{line: 1938, col: 15, offset: 62250},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1921, col: 5, offset: 61735},
+							pos:        position{line: 1928, col: 5, offset: 61978},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1922, col: 5, offset: 61744},
+							pos: position{line: 1929, col: 5, offset: 61987},
 							expr: &litMatcher{
-								pos:        position{line: 1922, col: 6, offset: 61745},
+								pos:        position{line: 1929, col: 6, offset: 61988},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1923, col: 5, offset: 61808},
+							pos: position{line: 1930, col: 5, offset: 62051},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1927, col: 5, offset: 61917},
+							pos: position{line: 1934, col: 5, offset: 62160},
 							expr: &notExpr{
-								pos: position{line: 1927, col: 7, offset: 61919},
+								pos: position{line: 1934, col: 7, offset: 62162},
 								expr: &charClassMatcher{
-									pos:        position{line: 2758, col: 13, offset: 87913},
+									pos:        position{line: 2773, col: 13, offset: 88381},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42030,20 +42063,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1936, col: 1, offset: 62167},
+			pos:  position{line: 1943, col: 1, offset: 62410},
 			expr: &actionExpr{
-				pos: position{line: 1937, col: 5, offset: 62204},
+				pos: position{line: 1944, col: 5, offset: 62447},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1937, col: 5, offset: 62204},
+					pos: position{line: 1944, col: 5, offset: 62447},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1937, col: 5, offset: 62204},
+							pos: position{line: 1944, col: 5, offset: 62447},
 							expr: &actionExpr{
-								pos: position{line: 2868, col: 10, offset: 90818},
+								pos: position{line: 2883, col: 10, offset: 91286},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2868, col: 10, offset: 90818},
+									pos:        position{line: 2883, col: 10, offset: 91286},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42052,18 +42085,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1938, col: 5, offset: 62243},
+							pos:   position{line: 1945, col: 5, offset: 62486},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1938, col: 14, offset: 62252},
+								pos: position{line: 1945, col: 14, offset: 62495},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1938, col: 15, offset: 62253},
+									pos:  position{line: 1945, col: 15, offset: 62496},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1939, col: 5, offset: 62287},
+							pos: position{line: 1946, col: 5, offset: 62530},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -42072,49 +42105,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1945, col: 1, offset: 62428},
+			pos:  position{line: 1952, col: 1, offset: 62671},
 			expr: &actionExpr{
-				pos: position{line: 1946, col: 5, offset: 62463},
+				pos: position{line: 1953, col: 5, offset: 62706},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1946, col: 5, offset: 62463},
+					pos: position{line: 1953, col: 5, offset: 62706},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2885, col: 11, offset: 91152},
+							pos: position{line: 2900, col: 11, offset: 91620},
 							expr: &anyMatcher{
-								line: 2885, col: 13, offset: 91154,
+								line: 2900, col: 13, offset: 91622,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1947, col: 5, offset: 62491},
+							pos: position{line: 1954, col: 5, offset: 62734},
 							expr: &seqExpr{
-								pos: position{line: 1921, col: 5, offset: 61735},
+								pos: position{line: 1928, col: 5, offset: 61978},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1921, col: 5, offset: 61735},
+										pos:        position{line: 1928, col: 5, offset: 61978},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1922, col: 5, offset: 61744},
+										pos: position{line: 1929, col: 5, offset: 61987},
 										expr: &litMatcher{
-											pos:        position{line: 1922, col: 6, offset: 61745},
+											pos:        position{line: 1929, col: 6, offset: 61988},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1923, col: 5, offset: 61808},
+										pos: position{line: 1930, col: 5, offset: 62051},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1927, col: 5, offset: 61917},
+										pos: position{line: 1934, col: 5, offset: 62160},
 										expr: &notExpr{
-											pos: position{line: 1927, col: 7, offset: 61919},
+											pos: position{line: 1934, col: 7, offset: 62162},
 											expr: &charClassMatcher{
-												pos:        position{line: 2758, col: 13, offset: 87913},
+												pos:        position{line: 2773, col: 13, offset: 88381},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42126,10 +42159,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1948, col: 5, offset: 62528},
+							pos:   position{line: 1955, col: 5, offset: 62771},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1948, col: 14, offset: 62537},
+								pos:  position{line: 1955, col: 14, offset: 62780},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42139,35 +42172,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1953, col: 1, offset: 62625},
+			pos:  position{line: 1960, col: 1, offset: 62868},
 			expr: &choiceExpr{
-				pos: position{line: 1955, col: 5, offset: 62686},
+				pos: position{line: 1962, col: 5, offset: 62929},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1955, col: 5, offset: 62686},
+						pos: position{line: 1962, col: 5, offset: 62929},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1955, col: 5, offset: 62686},
+							pos: position{line: 1962, col: 5, offset: 62929},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1955, col: 5, offset: 62686},
+									pos:   position{line: 1962, col: 5, offset: 62929},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60033},
+										pos: position{line: 1868, col: 25, offset: 60276},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1861, col: 25, offset: 60033},
+											pos: position{line: 1868, col: 25, offset: 60276},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1861, col: 25, offset: 60033},
+													pos:        position{line: 1868, col: 25, offset: 60276},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1861, col: 30, offset: 60038},
+													pos: position{line: 1868, col: 30, offset: 60281},
 													expr: &litMatcher{
-														pos:        position{line: 1861, col: 30, offset: 60038},
+														pos:        position{line: 1868, col: 30, offset: 60281},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42178,21 +42211,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1955, col: 40, offset: 62721},
+									pos:        position{line: 1962, col: 40, offset: 62964},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1955, col: 45, offset: 62726},
+									pos:   position{line: 1962, col: 45, offset: 62969},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1955, col: 55, offset: 62736},
+										pos:  position{line: 1962, col: 55, offset: 62979},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1955, col: 84, offset: 62765},
+									pos:        position{line: 1962, col: 84, offset: 63008},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -42201,21 +42234,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1959, col: 7, offset: 62929},
+						pos: position{line: 1966, col: 7, offset: 63172},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1959, col: 7, offset: 62929},
+							pos: position{line: 1966, col: 7, offset: 63172},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1959, col: 7, offset: 62929},
+									pos:   position{line: 1966, col: 7, offset: 63172},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 59960},
+										pos: position{line: 1864, col: 25, offset: 60203},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1857, col: 25, offset: 59960},
+											pos: position{line: 1864, col: 25, offset: 60203},
 											expr: &litMatcher{
-												pos:        position{line: 1857, col: 25, offset: 59960},
+												pos:        position{line: 1864, col: 25, offset: 60203},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42224,21 +42257,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1959, col: 42, offset: 62964},
+									pos:        position{line: 1966, col: 42, offset: 63207},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1959, col: 47, offset: 62969},
+									pos:   position{line: 1966, col: 47, offset: 63212},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1959, col: 57, offset: 62979},
+										pos:  position{line: 1966, col: 57, offset: 63222},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1959, col: 86, offset: 63008},
+									pos:        position{line: 1966, col: 86, offset: 63251},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42247,21 +42280,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1964, col: 7, offset: 63210},
+						pos: position{line: 1971, col: 7, offset: 63453},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1964, col: 7, offset: 63210},
+							pos: position{line: 1971, col: 7, offset: 63453},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1964, col: 7, offset: 63210},
+									pos:   position{line: 1971, col: 7, offset: 63453},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 59960},
+										pos: position{line: 1864, col: 25, offset: 60203},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1857, col: 25, offset: 59960},
+											pos: position{line: 1864, col: 25, offset: 60203},
 											expr: &litMatcher{
-												pos:        position{line: 1857, col: 25, offset: 59960},
+												pos:        position{line: 1864, col: 25, offset: 60203},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42270,21 +42303,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1964, col: 42, offset: 63245},
+									pos:        position{line: 1971, col: 42, offset: 63488},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1964, col: 46, offset: 63249},
+									pos:   position{line: 1971, col: 46, offset: 63492},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1964, col: 56, offset: 63259},
+										pos:  position{line: 1971, col: 56, offset: 63502},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1964, col: 85, offset: 63288},
+									pos:        position{line: 1971, col: 85, offset: 63531},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42297,29 +42330,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1981, col: 1, offset: 63768},
+			pos:  position{line: 1988, col: 1, offset: 64011},
 			expr: &actionExpr{
-				pos: position{line: 1982, col: 5, offset: 63798},
+				pos: position{line: 1989, col: 5, offset: 64041},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1982, col: 5, offset: 63798},
+					pos: position{line: 1989, col: 5, offset: 64041},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1977, col: 40, offset: 63719},
+							pos:        position{line: 1984, col: 40, offset: 63962},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1983, col: 5, offset: 63839},
+							pos:   position{line: 1990, col: 5, offset: 64082},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1983, col: 15, offset: 63849},
+								pos:  position{line: 1990, col: 15, offset: 64092},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1979, col: 38, offset: 63762},
+							pos:        position{line: 1986, col: 38, offset: 64005},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -42330,44 +42363,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1988, col: 1, offset: 64014},
+			pos:  position{line: 1995, col: 1, offset: 64257},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1988, col: 34, offset: 64047},
+				pos: position{line: 1995, col: 34, offset: 64290},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1988, col: 34, offset: 64047},
+					pos:  position{line: 1995, col: 34, offset: 64290},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1990, col: 1, offset: 64079},
+			pos:  position{line: 1997, col: 1, offset: 64322},
 			expr: &actionExpr{
-				pos: position{line: 1991, col: 5, offset: 64116},
+				pos: position{line: 1998, col: 5, offset: 64359},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1991, col: 5, offset: 64116},
+					pos: position{line: 1998, col: 5, offset: 64359},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2885, col: 11, offset: 91152},
+							pos: position{line: 2900, col: 11, offset: 91620},
 							expr: &anyMatcher{
-								line: 2885, col: 13, offset: 91154,
+								line: 2900, col: 13, offset: 91622,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1992, col: 5, offset: 64127},
+							pos: position{line: 1999, col: 5, offset: 64370},
 							expr: &litMatcher{
-								pos:        position{line: 1979, col: 38, offset: 63762},
+								pos:        position{line: 1986, col: 38, offset: 64005},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1993, col: 5, offset: 64166},
+							pos:   position{line: 2000, col: 5, offset: 64409},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1993, col: 14, offset: 64175},
+								pos:  position{line: 2000, col: 14, offset: 64418},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42377,29 +42410,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2019, col: 1, offset: 64859},
+			pos:  position{line: 2026, col: 1, offset: 65102},
 			expr: &actionExpr{
-				pos: position{line: 2020, col: 5, offset: 64889},
+				pos: position{line: 2027, col: 5, offset: 65132},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2020, col: 5, offset: 64889},
+					pos: position{line: 2027, col: 5, offset: 65132},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2002, col: 5, offset: 64417},
+							pos:        position{line: 2009, col: 5, offset: 64660},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2003, col: 5, offset: 64426},
+							pos: position{line: 2010, col: 5, offset: 64669},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2007, col: 5, offset: 64546},
+							pos: position{line: 2014, col: 5, offset: 64789},
 							expr: &notExpr{
-								pos: position{line: 2007, col: 7, offset: 64548},
+								pos: position{line: 2014, col: 7, offset: 64791},
 								expr: &litMatcher{
-									pos:        position{line: 2007, col: 8, offset: 64549},
+									pos:        position{line: 2014, col: 8, offset: 64792},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42407,38 +42440,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2021, col: 5, offset: 64929},
+							pos:   position{line: 2028, col: 5, offset: 65172},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2021, col: 15, offset: 64939},
+								pos:  position{line: 2028, col: 15, offset: 65182},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2011, col: 5, offset: 64659},
+							pos:        position{line: 2018, col: 5, offset: 64902},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2012, col: 5, offset: 64668},
+							pos: position{line: 2019, col: 5, offset: 64911},
 							expr: &litMatcher{
-								pos:        position{line: 2012, col: 6, offset: 64669},
+								pos:        position{line: 2019, col: 6, offset: 64912},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2013, col: 5, offset: 64734},
+							pos: position{line: 2020, col: 5, offset: 64977},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2017, col: 5, offset: 64845},
+							pos: position{line: 2024, col: 5, offset: 65088},
 							expr: &notExpr{
-								pos: position{line: 2017, col: 7, offset: 64847},
+								pos: position{line: 2024, col: 7, offset: 65090},
 								expr: &charClassMatcher{
-									pos:        position{line: 2758, col: 13, offset: 87913},
+									pos:        position{line: 2773, col: 13, offset: 88381},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42452,20 +42485,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2026, col: 1, offset: 65106},
+			pos:  position{line: 2033, col: 1, offset: 65349},
 			expr: &actionExpr{
-				pos: position{line: 2027, col: 5, offset: 65144},
+				pos: position{line: 2034, col: 5, offset: 65387},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2027, col: 5, offset: 65144},
+					pos: position{line: 2034, col: 5, offset: 65387},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2027, col: 5, offset: 65144},
+							pos: position{line: 2034, col: 5, offset: 65387},
 							expr: &actionExpr{
-								pos: position{line: 2868, col: 10, offset: 90818},
+								pos: position{line: 2883, col: 10, offset: 91286},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2868, col: 10, offset: 90818},
+									pos:        position{line: 2883, col: 10, offset: 91286},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42474,18 +42507,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2028, col: 5, offset: 65183},
+							pos:   position{line: 2035, col: 5, offset: 65426},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2028, col: 14, offset: 65192},
+								pos: position{line: 2035, col: 14, offset: 65435},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2028, col: 15, offset: 65193},
+									pos:  position{line: 2035, col: 15, offset: 65436},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2029, col: 5, offset: 65228},
+							pos: position{line: 2036, col: 5, offset: 65471},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -42494,49 +42527,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2035, col: 1, offset: 65369},
+			pos:  position{line: 2042, col: 1, offset: 65612},
 			expr: &actionExpr{
-				pos: position{line: 2036, col: 5, offset: 65406},
+				pos: position{line: 2043, col: 5, offset: 65649},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2036, col: 5, offset: 65406},
+					pos: position{line: 2043, col: 5, offset: 65649},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2885, col: 11, offset: 91152},
+							pos: position{line: 2900, col: 11, offset: 91620},
 							expr: &anyMatcher{
-								line: 2885, col: 13, offset: 91154,
+								line: 2900, col: 13, offset: 91622,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2037, col: 5, offset: 65417},
+							pos: position{line: 2044, col: 5, offset: 65660},
 							expr: &seqExpr{
-								pos: position{line: 2011, col: 5, offset: 64659},
+								pos: position{line: 2018, col: 5, offset: 64902},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2011, col: 5, offset: 64659},
+										pos:        position{line: 2018, col: 5, offset: 64902},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2012, col: 5, offset: 64668},
+										pos: position{line: 2019, col: 5, offset: 64911},
 										expr: &litMatcher{
-											pos:        position{line: 2012, col: 6, offset: 64669},
+											pos:        position{line: 2019, col: 6, offset: 64912},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2013, col: 5, offset: 64734},
+										pos: position{line: 2020, col: 5, offset: 64977},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2017, col: 5, offset: 64845},
+										pos: position{line: 2024, col: 5, offset: 65088},
 										expr: &notExpr{
-											pos: position{line: 2017, col: 7, offset: 64847},
+											pos: position{line: 2024, col: 7, offset: 65090},
 											expr: &charClassMatcher{
-												pos:        position{line: 2758, col: 13, offset: 87913},
+												pos:        position{line: 2773, col: 13, offset: 88381},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42548,10 +42581,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2038, col: 5, offset: 65456},
+							pos:   position{line: 2045, col: 5, offset: 65699},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2038, col: 14, offset: 65465},
+								pos:  position{line: 2045, col: 14, offset: 65708},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42561,35 +42594,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2043, col: 1, offset: 65553},
+			pos:  position{line: 2050, col: 1, offset: 65796},
 			expr: &choiceExpr{
-				pos: position{line: 2045, col: 5, offset: 65618},
+				pos: position{line: 2052, col: 5, offset: 65861},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2045, col: 5, offset: 65618},
+						pos: position{line: 2052, col: 5, offset: 65861},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2045, col: 5, offset: 65618},
+							pos: position{line: 2052, col: 5, offset: 65861},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2045, col: 5, offset: 65618},
+									pos:   position{line: 2052, col: 5, offset: 65861},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60033},
+										pos: position{line: 1868, col: 25, offset: 60276},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1861, col: 25, offset: 60033},
+											pos: position{line: 1868, col: 25, offset: 60276},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1861, col: 25, offset: 60033},
+													pos:        position{line: 1868, col: 25, offset: 60276},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1861, col: 30, offset: 60038},
+													pos: position{line: 1868, col: 30, offset: 60281},
 													expr: &litMatcher{
-														pos:        position{line: 1861, col: 30, offset: 60038},
+														pos:        position{line: 1868, col: 30, offset: 60281},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42600,21 +42633,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2045, col: 40, offset: 65653},
+									pos:        position{line: 2052, col: 40, offset: 65896},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2045, col: 45, offset: 65658},
+									pos:   position{line: 2052, col: 45, offset: 65901},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2045, col: 55, offset: 65668},
+										pos:  position{line: 2052, col: 55, offset: 65911},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2045, col: 86, offset: 65699},
+									pos:        position{line: 2052, col: 86, offset: 65942},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -42623,21 +42656,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2049, col: 7, offset: 65864},
+						pos: position{line: 2056, col: 7, offset: 66107},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2049, col: 7, offset: 65864},
+							pos: position{line: 2056, col: 7, offset: 66107},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2049, col: 7, offset: 65864},
+									pos:   position{line: 2056, col: 7, offset: 66107},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 59960},
+										pos: position{line: 1864, col: 25, offset: 60203},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1857, col: 25, offset: 59960},
+											pos: position{line: 1864, col: 25, offset: 60203},
 											expr: &litMatcher{
-												pos:        position{line: 1857, col: 25, offset: 59960},
+												pos:        position{line: 1864, col: 25, offset: 60203},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42646,21 +42679,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2049, col: 42, offset: 65899},
+									pos:        position{line: 2056, col: 42, offset: 66142},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2049, col: 47, offset: 65904},
+									pos:   position{line: 2056, col: 47, offset: 66147},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2049, col: 57, offset: 65914},
+										pos:  position{line: 2056, col: 57, offset: 66157},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2049, col: 88, offset: 65945},
+									pos:        position{line: 2056, col: 88, offset: 66188},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42669,21 +42702,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2054, col: 7, offset: 66186},
+						pos: position{line: 2061, col: 7, offset: 66429},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2054, col: 7, offset: 66186},
+							pos: position{line: 2061, col: 7, offset: 66429},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2054, col: 7, offset: 66186},
+									pos:   position{line: 2061, col: 7, offset: 66429},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 59960},
+										pos: position{line: 1864, col: 25, offset: 60203},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1857, col: 25, offset: 59960},
+											pos: position{line: 1864, col: 25, offset: 60203},
 											expr: &litMatcher{
-												pos:        position{line: 1857, col: 25, offset: 59960},
+												pos:        position{line: 1864, col: 25, offset: 60203},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42692,21 +42725,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2054, col: 42, offset: 66221},
+									pos:        position{line: 2061, col: 42, offset: 66464},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2054, col: 46, offset: 66225},
+									pos:   position{line: 2061, col: 46, offset: 66468},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2054, col: 56, offset: 66235},
+										pos:  position{line: 2061, col: 56, offset: 66478},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2054, col: 87, offset: 66266},
+									pos:        position{line: 2061, col: 87, offset: 66509},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42719,29 +42752,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2071, col: 1, offset: 66830},
+			pos:  position{line: 2078, col: 1, offset: 67073},
 			expr: &actionExpr{
-				pos: position{line: 2072, col: 5, offset: 66863},
+				pos: position{line: 2079, col: 5, offset: 67106},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2072, col: 5, offset: 66863},
+					pos: position{line: 2079, col: 5, offset: 67106},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2067, col: 43, offset: 66778},
+							pos:        position{line: 2074, col: 43, offset: 67021},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2073, col: 5, offset: 66907},
+							pos:   position{line: 2080, col: 5, offset: 67150},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2073, col: 15, offset: 66917},
+								pos:  position{line: 2080, col: 15, offset: 67160},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2069, col: 41, offset: 66824},
+							pos:        position{line: 2076, col: 41, offset: 67067},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -42752,44 +42785,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2078, col: 1, offset: 67092},
+			pos:  position{line: 2085, col: 1, offset: 67335},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2078, col: 37, offset: 67128},
+				pos: position{line: 2085, col: 37, offset: 67371},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2078, col: 37, offset: 67128},
+					pos:  position{line: 2085, col: 37, offset: 67371},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2080, col: 1, offset: 67195},
+			pos:  position{line: 2087, col: 1, offset: 67438},
 			expr: &actionExpr{
-				pos: position{line: 2081, col: 5, offset: 67235},
+				pos: position{line: 2088, col: 5, offset: 67478},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2081, col: 5, offset: 67235},
+					pos: position{line: 2088, col: 5, offset: 67478},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2885, col: 11, offset: 91152},
+							pos: position{line: 2900, col: 11, offset: 91620},
 							expr: &anyMatcher{
-								line: 2885, col: 13, offset: 91154,
+								line: 2900, col: 13, offset: 91622,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2082, col: 5, offset: 67246},
+							pos: position{line: 2089, col: 5, offset: 67489},
 							expr: &litMatcher{
-								pos:        position{line: 2069, col: 41, offset: 66824},
+								pos:        position{line: 2076, col: 41, offset: 67067},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2083, col: 5, offset: 67288},
+							pos:   position{line: 2090, col: 5, offset: 67531},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2083, col: 14, offset: 67297},
+								pos:  position{line: 2090, col: 14, offset: 67540},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42799,33 +42832,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2101, col: 1, offset: 67839},
+			pos:  position{line: 2108, col: 1, offset: 68082},
 			expr: &seqExpr{
-				pos: position{line: 2102, col: 5, offset: 67884},
+				pos: position{line: 2109, col: 5, offset: 68127},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2102, col: 5, offset: 67884},
+						pos: position{line: 2109, col: 5, offset: 68127},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2102, col: 6, offset: 67885},
+							pos:  position{line: 2109, col: 6, offset: 68128},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2103, col: 5, offset: 67904},
+						pos:        position{line: 2110, col: 5, offset: 68147},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2104, col: 5, offset: 67912},
+						pos: position{line: 2111, col: 5, offset: 68155},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2108, col: 5, offset: 68026},
+						pos: position{line: 2115, col: 5, offset: 68269},
 						expr: &notExpr{
-							pos: position{line: 2108, col: 7, offset: 68028},
+							pos: position{line: 2115, col: 7, offset: 68271},
 							expr: &charClassMatcher{
-								pos:        position{line: 2758, col: 13, offset: 87913},
+								pos:        position{line: 2773, col: 13, offset: 88381},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42838,29 +42871,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2111, col: 1, offset: 68045},
+			pos:  position{line: 2118, col: 1, offset: 68288},
 			expr: &actionExpr{
-				pos: position{line: 2112, col: 5, offset: 68078},
+				pos: position{line: 2119, col: 5, offset: 68321},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2112, col: 5, offset: 68078},
+					pos: position{line: 2119, col: 5, offset: 68321},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2094, col: 5, offset: 67641},
+							pos:        position{line: 2101, col: 5, offset: 67884},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2095, col: 5, offset: 67650},
+							pos: position{line: 2102, col: 5, offset: 67893},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2099, col: 5, offset: 67773},
+							pos: position{line: 2106, col: 5, offset: 68016},
 							expr: &notExpr{
-								pos: position{line: 2099, col: 7, offset: 67775},
+								pos: position{line: 2106, col: 7, offset: 68018},
 								expr: &litMatcher{
-									pos:        position{line: 2099, col: 8, offset: 67776},
+									pos:        position{line: 2106, col: 8, offset: 68019},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -42868,15 +42901,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2113, col: 5, offset: 68122},
+							pos:   position{line: 2120, col: 5, offset: 68365},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2113, col: 15, offset: 68132},
+								pos:  position{line: 2120, col: 15, offset: 68375},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2114, col: 5, offset: 68171},
+							pos:  position{line: 2121, col: 5, offset: 68414},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -42885,20 +42918,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2118, col: 1, offset: 68308},
+			pos:  position{line: 2125, col: 1, offset: 68551},
 			expr: &actionExpr{
-				pos: position{line: 2119, col: 5, offset: 68349},
+				pos: position{line: 2126, col: 5, offset: 68592},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2119, col: 5, offset: 68349},
+					pos: position{line: 2126, col: 5, offset: 68592},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2119, col: 5, offset: 68349},
+							pos: position{line: 2126, col: 5, offset: 68592},
 							expr: &actionExpr{
-								pos: position{line: 2868, col: 10, offset: 90818},
+								pos: position{line: 2883, col: 10, offset: 91286},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2868, col: 10, offset: 90818},
+									pos:        position{line: 2883, col: 10, offset: 91286},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42907,18 +42940,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2120, col: 5, offset: 68388},
+							pos:   position{line: 2127, col: 5, offset: 68631},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2120, col: 14, offset: 68397},
+								pos: position{line: 2127, col: 14, offset: 68640},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2120, col: 15, offset: 68398},
+									pos:  position{line: 2127, col: 15, offset: 68641},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2121, col: 5, offset: 68436},
+							pos: position{line: 2128, col: 5, offset: 68679},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -42927,31 +42960,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2127, col: 1, offset: 68577},
+			pos:  position{line: 2134, col: 1, offset: 68820},
 			expr: &actionExpr{
-				pos: position{line: 2128, col: 5, offset: 68617},
+				pos: position{line: 2135, col: 5, offset: 68860},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2128, col: 5, offset: 68617},
+					pos: position{line: 2135, col: 5, offset: 68860},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2885, col: 11, offset: 91152},
+							pos: position{line: 2900, col: 11, offset: 91620},
 							expr: &anyMatcher{
-								line: 2885, col: 13, offset: 91154,
+								line: 2900, col: 13, offset: 91622,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2129, col: 5, offset: 68628},
+							pos: position{line: 2136, col: 5, offset: 68871},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2129, col: 6, offset: 68629},
+								pos:  position{line: 2136, col: 6, offset: 68872},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2130, col: 5, offset: 68670},
+							pos:   position{line: 2137, col: 5, offset: 68913},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2130, col: 14, offset: 68679},
+								pos:  position{line: 2137, col: 14, offset: 68922},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42961,35 +42994,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2135, col: 1, offset: 68767},
+			pos:  position{line: 2142, col: 1, offset: 69010},
 			expr: &choiceExpr{
-				pos: position{line: 2137, col: 5, offset: 68838},
+				pos: position{line: 2144, col: 5, offset: 69081},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2137, col: 5, offset: 68838},
+						pos: position{line: 2144, col: 5, offset: 69081},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2137, col: 5, offset: 68838},
+							pos: position{line: 2144, col: 5, offset: 69081},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2137, col: 5, offset: 68838},
+									pos:   position{line: 2144, col: 5, offset: 69081},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60033},
+										pos: position{line: 1868, col: 25, offset: 60276},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1861, col: 25, offset: 60033},
+											pos: position{line: 1868, col: 25, offset: 60276},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1861, col: 25, offset: 60033},
+													pos:        position{line: 1868, col: 25, offset: 60276},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1861, col: 30, offset: 60038},
+													pos: position{line: 1868, col: 30, offset: 60281},
 													expr: &litMatcher{
-														pos:        position{line: 1861, col: 30, offset: 60038},
+														pos:        position{line: 1868, col: 30, offset: 60281},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43000,21 +43033,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2137, col: 40, offset: 68873},
+									pos:        position{line: 2144, col: 40, offset: 69116},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2137, col: 45, offset: 68878},
+									pos:   position{line: 2144, col: 45, offset: 69121},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2137, col: 55, offset: 68888},
+										pos:  position{line: 2144, col: 55, offset: 69131},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2137, col: 89, offset: 68922},
+									pos:        position{line: 2144, col: 89, offset: 69165},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -43023,21 +43056,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2141, col: 7, offset: 69091},
+						pos: position{line: 2148, col: 7, offset: 69334},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2141, col: 7, offset: 69091},
+							pos: position{line: 2148, col: 7, offset: 69334},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2141, col: 7, offset: 69091},
+									pos:   position{line: 2148, col: 7, offset: 69334},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 59960},
+										pos: position{line: 1864, col: 25, offset: 60203},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1857, col: 25, offset: 59960},
+											pos: position{line: 1864, col: 25, offset: 60203},
 											expr: &litMatcher{
-												pos:        position{line: 1857, col: 25, offset: 59960},
+												pos:        position{line: 1864, col: 25, offset: 60203},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43046,21 +43079,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2141, col: 42, offset: 69126},
+									pos:        position{line: 2148, col: 42, offset: 69369},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2141, col: 47, offset: 69131},
+									pos:   position{line: 2148, col: 47, offset: 69374},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2141, col: 57, offset: 69141},
+										pos:  position{line: 2148, col: 57, offset: 69384},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2141, col: 91, offset: 69175},
+									pos:        position{line: 2148, col: 91, offset: 69418},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43069,21 +43102,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2146, col: 7, offset: 69381},
+						pos: position{line: 2153, col: 7, offset: 69624},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2146, col: 7, offset: 69381},
+							pos: position{line: 2153, col: 7, offset: 69624},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2146, col: 7, offset: 69381},
+									pos:   position{line: 2153, col: 7, offset: 69624},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 59960},
+										pos: position{line: 1864, col: 25, offset: 60203},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1857, col: 25, offset: 59960},
+											pos: position{line: 1864, col: 25, offset: 60203},
 											expr: &litMatcher{
-												pos:        position{line: 1857, col: 25, offset: 59960},
+												pos:        position{line: 1864, col: 25, offset: 60203},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43092,21 +43125,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2146, col: 42, offset: 69416},
+									pos:        position{line: 2153, col: 42, offset: 69659},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2146, col: 46, offset: 69420},
+									pos:   position{line: 2153, col: 46, offset: 69663},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2146, col: 56, offset: 69430},
+										pos:  position{line: 2153, col: 56, offset: 69673},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2146, col: 90, offset: 69464},
+									pos:        position{line: 2153, col: 90, offset: 69707},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43119,29 +43152,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2163, col: 1, offset: 69949},
+			pos:  position{line: 2170, col: 1, offset: 70192},
 			expr: &actionExpr{
-				pos: position{line: 2164, col: 5, offset: 69979},
+				pos: position{line: 2171, col: 5, offset: 70222},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2164, col: 5, offset: 69979},
+					pos: position{line: 2171, col: 5, offset: 70222},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2159, col: 40, offset: 69900},
+							pos:        position{line: 2166, col: 40, offset: 70143},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2165, col: 5, offset: 70020},
+							pos:   position{line: 2172, col: 5, offset: 70263},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2165, col: 15, offset: 70030},
+								pos:  position{line: 2172, col: 15, offset: 70273},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2161, col: 38, offset: 69943},
+							pos:        position{line: 2168, col: 38, offset: 70186},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -43152,44 +43185,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2170, col: 1, offset: 70196},
+			pos:  position{line: 2177, col: 1, offset: 70439},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2170, col: 34, offset: 70229},
+				pos: position{line: 2177, col: 34, offset: 70472},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2170, col: 34, offset: 70229},
+					pos:  position{line: 2177, col: 34, offset: 70472},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2172, col: 1, offset: 70260},
+			pos:  position{line: 2179, col: 1, offset: 70503},
 			expr: &actionExpr{
-				pos: position{line: 2173, col: 5, offset: 70329},
+				pos: position{line: 2180, col: 5, offset: 70572},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2173, col: 5, offset: 70329},
+					pos: position{line: 2180, col: 5, offset: 70572},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2885, col: 11, offset: 91152},
+							pos: position{line: 2900, col: 11, offset: 91620},
 							expr: &anyMatcher{
-								line: 2885, col: 13, offset: 91154,
+								line: 2900, col: 13, offset: 91622,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2174, col: 5, offset: 70340},
+							pos: position{line: 2181, col: 5, offset: 70583},
 							expr: &litMatcher{
-								pos:        position{line: 2161, col: 38, offset: 69943},
+								pos:        position{line: 2168, col: 38, offset: 70186},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2175, col: 5, offset: 70379},
+							pos:   position{line: 2182, col: 5, offset: 70622},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2175, col: 14, offset: 70388},
+								pos:  position{line: 2182, col: 14, offset: 70631},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43199,29 +43232,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2200, col: 1, offset: 71070},
+			pos:  position{line: 2207, col: 1, offset: 71313},
 			expr: &actionExpr{
-				pos: position{line: 2201, col: 5, offset: 71100},
+				pos: position{line: 2208, col: 5, offset: 71343},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2201, col: 5, offset: 71100},
+					pos: position{line: 2208, col: 5, offset: 71343},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2184, col: 5, offset: 70636},
+							pos:        position{line: 2191, col: 5, offset: 70879},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2185, col: 5, offset: 70645},
+							pos: position{line: 2192, col: 5, offset: 70888},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2189, col: 5, offset: 70765},
+							pos: position{line: 2196, col: 5, offset: 71008},
 							expr: &notExpr{
-								pos: position{line: 2189, col: 7, offset: 70767},
+								pos: position{line: 2196, col: 7, offset: 71010},
 								expr: &litMatcher{
-									pos:        position{line: 2189, col: 8, offset: 70768},
+									pos:        position{line: 2196, col: 8, offset: 71011},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43229,38 +43262,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2202, col: 5, offset: 71140},
+							pos:   position{line: 2209, col: 5, offset: 71383},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2202, col: 15, offset: 71150},
+								pos:  position{line: 2209, col: 15, offset: 71393},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2192, col: 5, offset: 70873},
+							pos:        position{line: 2199, col: 5, offset: 71116},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2193, col: 5, offset: 70881},
+							pos: position{line: 2200, col: 5, offset: 71124},
 							expr: &litMatcher{
-								pos:        position{line: 2193, col: 6, offset: 70882},
+								pos:        position{line: 2200, col: 6, offset: 71125},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2194, col: 5, offset: 70945},
+							pos: position{line: 2201, col: 5, offset: 71188},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2198, col: 5, offset: 71056},
+							pos: position{line: 2205, col: 5, offset: 71299},
 							expr: &notExpr{
-								pos: position{line: 2198, col: 7, offset: 71058},
+								pos: position{line: 2205, col: 7, offset: 71301},
 								expr: &charClassMatcher{
-									pos:        position{line: 2758, col: 13, offset: 87913},
+									pos:        position{line: 2773, col: 13, offset: 88381},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43274,20 +43307,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2207, col: 1, offset: 71317},
+			pos:  position{line: 2214, col: 1, offset: 71560},
 			expr: &actionExpr{
-				pos: position{line: 2208, col: 5, offset: 71355},
+				pos: position{line: 2215, col: 5, offset: 71598},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2208, col: 5, offset: 71355},
+					pos: position{line: 2215, col: 5, offset: 71598},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2208, col: 5, offset: 71355},
+							pos: position{line: 2215, col: 5, offset: 71598},
 							expr: &actionExpr{
-								pos: position{line: 2868, col: 10, offset: 90818},
+								pos: position{line: 2883, col: 10, offset: 91286},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2868, col: 10, offset: 90818},
+									pos:        position{line: 2883, col: 10, offset: 91286},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43296,18 +43329,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2209, col: 5, offset: 71394},
+							pos:   position{line: 2216, col: 5, offset: 71637},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2209, col: 14, offset: 71403},
+								pos: position{line: 2216, col: 14, offset: 71646},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2209, col: 15, offset: 71404},
+									pos:  position{line: 2216, col: 15, offset: 71647},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2210, col: 5, offset: 71440},
+							pos: position{line: 2217, col: 5, offset: 71683},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -43316,49 +43349,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2216, col: 1, offset: 71581},
+			pos:  position{line: 2223, col: 1, offset: 71824},
 			expr: &actionExpr{
-				pos: position{line: 2217, col: 5, offset: 71618},
+				pos: position{line: 2224, col: 5, offset: 71861},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2217, col: 5, offset: 71618},
+					pos: position{line: 2224, col: 5, offset: 71861},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2885, col: 11, offset: 91152},
+							pos: position{line: 2900, col: 11, offset: 91620},
 							expr: &anyMatcher{
-								line: 2885, col: 13, offset: 91154,
+								line: 2900, col: 13, offset: 91622,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2218, col: 5, offset: 71629},
+							pos: position{line: 2225, col: 5, offset: 71872},
 							expr: &seqExpr{
-								pos: position{line: 2192, col: 5, offset: 70873},
+								pos: position{line: 2199, col: 5, offset: 71116},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2192, col: 5, offset: 70873},
+										pos:        position{line: 2199, col: 5, offset: 71116},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2193, col: 5, offset: 70881},
+										pos: position{line: 2200, col: 5, offset: 71124},
 										expr: &litMatcher{
-											pos:        position{line: 2193, col: 6, offset: 70882},
+											pos:        position{line: 2200, col: 6, offset: 71125},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2194, col: 5, offset: 70945},
+										pos: position{line: 2201, col: 5, offset: 71188},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2198, col: 5, offset: 71056},
+										pos: position{line: 2205, col: 5, offset: 71299},
 										expr: &notExpr{
-											pos: position{line: 2198, col: 7, offset: 71058},
+											pos: position{line: 2205, col: 7, offset: 71301},
 											expr: &charClassMatcher{
-												pos:        position{line: 2758, col: 13, offset: 87913},
+												pos:        position{line: 2773, col: 13, offset: 88381},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43370,10 +43403,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2219, col: 5, offset: 71668},
+							pos:   position{line: 2226, col: 5, offset: 71911},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2219, col: 14, offset: 71677},
+								pos:  position{line: 2226, col: 14, offset: 71920},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43383,35 +43416,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2224, col: 1, offset: 71765},
+			pos:  position{line: 2231, col: 1, offset: 72008},
 			expr: &choiceExpr{
-				pos: position{line: 2226, col: 5, offset: 71829},
+				pos: position{line: 2233, col: 5, offset: 72072},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2226, col: 5, offset: 71829},
+						pos: position{line: 2233, col: 5, offset: 72072},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2226, col: 5, offset: 71829},
+							pos: position{line: 2233, col: 5, offset: 72072},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2226, col: 5, offset: 71829},
+									pos:   position{line: 2233, col: 5, offset: 72072},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1861, col: 25, offset: 60033},
+										pos: position{line: 1868, col: 25, offset: 60276},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1861, col: 25, offset: 60033},
+											pos: position{line: 1868, col: 25, offset: 60276},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1861, col: 25, offset: 60033},
+													pos:        position{line: 1868, col: 25, offset: 60276},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1861, col: 30, offset: 60038},
+													pos: position{line: 1868, col: 30, offset: 60281},
 													expr: &litMatcher{
-														pos:        position{line: 1861, col: 30, offset: 60038},
+														pos:        position{line: 1868, col: 30, offset: 60281},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43422,21 +43455,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2226, col: 40, offset: 71864},
+									pos:        position{line: 2233, col: 40, offset: 72107},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2226, col: 45, offset: 71869},
+									pos:   position{line: 2233, col: 45, offset: 72112},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2226, col: 55, offset: 71879},
+										pos:  position{line: 2233, col: 55, offset: 72122},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2226, col: 86, offset: 71910},
+									pos:        position{line: 2233, col: 86, offset: 72153},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -43445,21 +43478,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2230, col: 7, offset: 72075},
+						pos: position{line: 2237, col: 7, offset: 72318},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2230, col: 7, offset: 72075},
+							pos: position{line: 2237, col: 7, offset: 72318},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2230, col: 7, offset: 72075},
+									pos:   position{line: 2237, col: 7, offset: 72318},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 59960},
+										pos: position{line: 1864, col: 25, offset: 60203},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1857, col: 25, offset: 59960},
+											pos: position{line: 1864, col: 25, offset: 60203},
 											expr: &litMatcher{
-												pos:        position{line: 1857, col: 25, offset: 59960},
+												pos:        position{line: 1864, col: 25, offset: 60203},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43468,21 +43501,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2230, col: 42, offset: 72110},
+									pos:        position{line: 2237, col: 42, offset: 72353},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2230, col: 47, offset: 72115},
+									pos:   position{line: 2237, col: 47, offset: 72358},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2230, col: 57, offset: 72125},
+										pos:  position{line: 2237, col: 57, offset: 72368},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2230, col: 88, offset: 72156},
+									pos:        position{line: 2237, col: 88, offset: 72399},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43491,21 +43524,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2235, col: 7, offset: 72359},
+						pos: position{line: 2242, col: 7, offset: 72602},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2235, col: 7, offset: 72359},
+							pos: position{line: 2242, col: 7, offset: 72602},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2235, col: 7, offset: 72359},
+									pos:   position{line: 2242, col: 7, offset: 72602},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1857, col: 25, offset: 59960},
+										pos: position{line: 1864, col: 25, offset: 60203},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1857, col: 25, offset: 59960},
+											pos: position{line: 1864, col: 25, offset: 60203},
 											expr: &litMatcher{
-												pos:        position{line: 1857, col: 25, offset: 59960},
+												pos:        position{line: 1864, col: 25, offset: 60203},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43514,21 +43547,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2235, col: 42, offset: 72394},
+									pos:        position{line: 2242, col: 42, offset: 72637},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2235, col: 46, offset: 72398},
+									pos:   position{line: 2242, col: 46, offset: 72641},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2235, col: 56, offset: 72408},
+										pos:  position{line: 2242, col: 56, offset: 72651},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2235, col: 87, offset: 72439},
+									pos:        position{line: 2242, col: 87, offset: 72682},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43541,29 +43574,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2242, col: 1, offset: 72706},
+			pos:  position{line: 2249, col: 1, offset: 72949},
 			expr: &actionExpr{
-				pos: position{line: 2243, col: 5, offset: 72728},
+				pos: position{line: 2250, col: 5, offset: 72971},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2243, col: 5, offset: 72728},
+					pos: position{line: 2250, col: 5, offset: 72971},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2249, col: 27, offset: 72943},
+							pos:        position{line: 2256, col: 27, offset: 73186},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2244, col: 5, offset: 72755},
+							pos:   position{line: 2251, col: 5, offset: 72998},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2244, col: 14, offset: 72764},
+								pos:  position{line: 2251, col: 14, offset: 73007},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2249, col: 27, offset: 72943},
+							pos:        position{line: 2256, col: 27, offset: 73186},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43574,21 +43607,21 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2251, col: 1, offset: 72948},
+			pos:  position{line: 2258, col: 1, offset: 73191},
 			expr: &choiceExpr{
-				pos: position{line: 2251, col: 25, offset: 72972},
+				pos: position{line: 2258, col: 25, offset: 73215},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2251, col: 25, offset: 72972},
+						pos:  position{line: 2258, col: 25, offset: 73215},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2253, col: 21, offset: 73024},
+						pos: position{line: 2260, col: 21, offset: 73267},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2253, col: 21, offset: 73024},
+							pos: position{line: 2260, col: 21, offset: 73267},
 							expr: &charClassMatcher{
-								pos:        position{line: 2253, col: 21, offset: 73024},
+								pos:        position{line: 2260, col: 21, offset: 73267},
 								val:        "[^\\r\\n ~]",
 								chars:      []rune{'\r', '\n', ' ', '~'},
 								ignoreCase: false,
@@ -43601,23 +43634,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2257, col: 1, offset: 73109},
+			pos:  position{line: 2264, col: 1, offset: 73352},
 			expr: &actionExpr{
-				pos: position{line: 2259, col: 5, offset: 73176},
+				pos: position{line: 2266, col: 5, offset: 73419},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2259, col: 5, offset: 73176},
+					pos: position{line: 2266, col: 5, offset: 73419},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2259, col: 5, offset: 73176},
+							pos:   position{line: 2266, col: 5, offset: 73419},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1857, col: 25, offset: 59960},
+								pos: position{line: 1864, col: 25, offset: 60203},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1857, col: 25, offset: 59960},
+									pos: position{line: 1864, col: 25, offset: 60203},
 									expr: &litMatcher{
-										pos:        position{line: 1857, col: 25, offset: 59960},
+										pos:        position{line: 1864, col: 25, offset: 60203},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43626,21 +43659,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2249, col: 27, offset: 72943},
+							pos:        position{line: 2256, col: 27, offset: 73186},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2261, col: 5, offset: 73244},
+							pos:   position{line: 2268, col: 5, offset: 73487},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2261, col: 14, offset: 73253},
+								pos:  position{line: 2268, col: 14, offset: 73496},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2249, col: 27, offset: 72943},
+							pos:        position{line: 2256, col: 27, offset: 73186},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43651,29 +43684,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2269, col: 1, offset: 73516},
+			pos:  position{line: 2276, col: 1, offset: 73759},
 			expr: &actionExpr{
-				pos: position{line: 2270, col: 5, offset: 73540},
+				pos: position{line: 2277, col: 5, offset: 73783},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2270, col: 5, offset: 73540},
+					pos: position{line: 2277, col: 5, offset: 73783},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2276, col: 29, offset: 73767},
+							pos:        position{line: 2283, col: 29, offset: 74010},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2271, col: 5, offset: 73570},
+							pos:   position{line: 2278, col: 5, offset: 73813},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2271, col: 14, offset: 73579},
+								pos:  position{line: 2278, col: 14, offset: 73822},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2276, col: 29, offset: 73767},
+							pos:        position{line: 2283, col: 29, offset: 74010},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43684,21 +43717,21 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2278, col: 1, offset: 73772},
+			pos:  position{line: 2285, col: 1, offset: 74015},
 			expr: &choiceExpr{
-				pos: position{line: 2278, col: 27, offset: 73798},
+				pos: position{line: 2285, col: 27, offset: 74041},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2278, col: 27, offset: 73798},
+						pos:  position{line: 2285, col: 27, offset: 74041},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2280, col: 23, offset: 73854},
+						pos: position{line: 2287, col: 23, offset: 74097},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2280, col: 23, offset: 73854},
+							pos: position{line: 2287, col: 23, offset: 74097},
 							expr: &charClassMatcher{
-								pos:        position{line: 2280, col: 23, offset: 73854},
+								pos:        position{line: 2287, col: 23, offset: 74097},
 								val:        "[^\\r\\n ^]",
 								chars:      []rune{'\r', '\n', ' ', '^'},
 								ignoreCase: false,
@@ -43711,23 +43744,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2284, col: 1, offset: 73939},
+			pos:  position{line: 2291, col: 1, offset: 74182},
 			expr: &actionExpr{
-				pos: position{line: 2286, col: 5, offset: 74011},
+				pos: position{line: 2293, col: 5, offset: 74254},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2286, col: 5, offset: 74011},
+					pos: position{line: 2293, col: 5, offset: 74254},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2286, col: 5, offset: 74011},
+							pos:   position{line: 2293, col: 5, offset: 74254},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1857, col: 25, offset: 59960},
+								pos: position{line: 1864, col: 25, offset: 60203},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1857, col: 25, offset: 59960},
+									pos: position{line: 1864, col: 25, offset: 60203},
 									expr: &litMatcher{
-										pos:        position{line: 1857, col: 25, offset: 59960},
+										pos:        position{line: 1864, col: 25, offset: 60203},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -43736,21 +43769,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2276, col: 29, offset: 73767},
+							pos:        position{line: 2283, col: 29, offset: 74010},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2288, col: 5, offset: 74081},
+							pos:   position{line: 2295, col: 5, offset: 74324},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2288, col: 14, offset: 74090},
+								pos:  position{line: 2295, col: 14, offset: 74333},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2276, col: 29, offset: 73767},
+							pos:        position{line: 2283, col: 29, offset: 74010},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -43761,27 +43794,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2297, col: 1, offset: 74559},
+			pos:  position{line: 2304, col: 1, offset: 74802},
 			expr: &actionExpr{
-				pos: position{line: 2298, col: 5, offset: 74575},
+				pos: position{line: 2305, col: 5, offset: 74818},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2298, col: 5, offset: 74575},
+					pos: position{line: 2305, col: 5, offset: 74818},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2298, col: 5, offset: 74575},
+							pos: position{line: 2305, col: 5, offset: 74818},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2301, col: 5, offset: 74638},
+							pos:   position{line: 2308, col: 5, offset: 74881},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2301, col: 12, offset: 74645},
+								pos: position{line: 2308, col: 12, offset: 74888},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2301, col: 12, offset: 74645},
+									pos: position{line: 2308, col: 12, offset: 74888},
 									expr: &litMatcher{
-										pos:        position{line: 2301, col: 13, offset: 74646},
+										pos:        position{line: 2308, col: 13, offset: 74889},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -43790,16 +43823,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2305, col: 5, offset: 74754},
+							pos: position{line: 2312, col: 5, offset: 74997},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2872, col: 11, offset: 90879},
+							pos: position{line: 2887, col: 11, offset: 91347},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2872, col: 11, offset: 90879},
+								pos: position{line: 2887, col: 11, offset: 91347},
 								expr: &charClassMatcher{
-									pos:        position{line: 2872, col: 11, offset: 90879},
+									pos:        position{line: 2887, col: 11, offset: 91347},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43808,36 +43841,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2309, col: 12, offset: 74913},
+							pos:   position{line: 2316, col: 12, offset: 75156},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2309, col: 19, offset: 74920},
+								pos:  position{line: 2316, col: 19, offset: 75163},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2890, col: 8, offset: 91216},
+							pos: position{line: 2905, col: 8, offset: 91684},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2877, col: 12, offset: 90989},
+									pos: position{line: 2892, col: 12, offset: 91457},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2877, col: 13, offset: 90990},
+										pos: position{line: 2892, col: 13, offset: 91458},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2877, col: 13, offset: 90990},
+												pos:        position{line: 2892, col: 13, offset: 91458},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2877, col: 20, offset: 90997},
+												pos:        position{line: 2892, col: 20, offset: 91465},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2877, col: 29, offset: 91006},
+												pos:        position{line: 2892, col: 29, offset: 91474},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43846,9 +43879,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2887, col: 8, offset: 91166},
+									pos: position{line: 2902, col: 8, offset: 91634},
 									expr: &anyMatcher{
-										line: 2887, col: 9, offset: 91167,
+										line: 2902, col: 9, offset: 91635,
 									},
 								},
 							},
@@ -43859,24 +43892,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2313, col: 1, offset: 75016},
+			pos:  position{line: 2320, col: 1, offset: 75259},
 			expr: &actionExpr{
-				pos: position{line: 2314, col: 5, offset: 75037},
+				pos: position{line: 2321, col: 5, offset: 75280},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2314, col: 5, offset: 75037},
+					pos: position{line: 2321, col: 5, offset: 75280},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2314, col: 5, offset: 75037},
+							pos: position{line: 2321, col: 5, offset: 75280},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2319, col: 5, offset: 75152},
+							pos:   position{line: 2326, col: 5, offset: 75395},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2319, col: 14, offset: 75161},
+								pos: position{line: 2326, col: 14, offset: 75404},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2319, col: 15, offset: 75162},
+									pos:  position{line: 2326, col: 15, offset: 75405},
 									name: "SectionTitleElement",
 								},
 							},
@@ -43887,38 +43920,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2323, col: 1, offset: 75243},
+			pos:  position{line: 2330, col: 1, offset: 75486},
 			expr: &actionExpr{
-				pos: position{line: 2324, col: 5, offset: 75270},
+				pos: position{line: 2331, col: 5, offset: 75513},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2324, col: 5, offset: 75270},
+					pos: position{line: 2331, col: 5, offset: 75513},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2324, col: 5, offset: 75270},
+							pos: position{line: 2331, col: 5, offset: 75513},
 							expr: &choiceExpr{
-								pos: position{line: 2890, col: 8, offset: 91216},
+								pos: position{line: 2905, col: 8, offset: 91684},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2877, col: 12, offset: 90989},
+										pos: position{line: 2892, col: 12, offset: 91457},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2877, col: 13, offset: 90990},
+											pos: position{line: 2892, col: 13, offset: 91458},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2877, col: 13, offset: 90990},
+													pos:        position{line: 2892, col: 13, offset: 91458},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2877, col: 20, offset: 90997},
+													pos:        position{line: 2892, col: 20, offset: 91465},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2877, col: 29, offset: 91006},
+													pos:        position{line: 2892, col: 29, offset: 91474},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43927,492 +43960,541 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2887, col: 8, offset: 91166},
+										pos: position{line: 2902, col: 8, offset: 91634},
 										expr: &anyMatcher{
-											line: 2887, col: 9, offset: 91167,
+											line: 2902, col: 9, offset: 91635,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2325, col: 5, offset: 75279},
+							pos:   position{line: 2332, col: 5, offset: 75522},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2326, col: 9, offset: 75297},
+								pos: position{line: 2333, col: 9, offset: 75540},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2767, col: 5, offset: 88060},
+										pos: position{line: 2333, col: 10, offset: 75541},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2767, col: 5, offset: 88060},
+											pos: position{line: 2333, col: 10, offset: 75541},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2767, col: 5, offset: 88060},
-													label: "text",
-													expr: &actionExpr{
-														pos: position{line: 2767, col: 11, offset: 88066},
-														run: (*parser).callonSectionTitleElement17,
-														expr: &oneOrMoreExpr{
-															pos: position{line: 2767, col: 11, offset: 88066},
-															expr: &charClassMatcher{
-																pos:        position{line: 2767, col: 11, offset: 88066},
-																val:        "[\\pL\\pN]",
-																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																ignoreCase: false,
-																inverted:   false,
-															},
-														},
+													pos:   position{line: 2333, col: 10, offset: 75541},
+													label: "element",
+													expr: &ruleRefExpr{
+														pos:  position{line: 2333, col: 19, offset: 75550},
+														name: "SectionTitleInlineElement",
 													},
 												},
-												&notExpr{
-													pos: position{line: 2770, col: 5, offset: 88124},
-													expr: &seqExpr{
-														pos: position{line: 2771, col: 9, offset: 88135},
-														exprs: []interface{}{
-															&litMatcher{
-																pos:        position{line: 2771, col: 9, offset: 88135},
-																val:        ":",
-																ignoreCase: false,
-																want:       "\":\"",
-															},
-															&andCodeExpr{
-																pos: position{line: 2772, col: 9, offset: 88184},
-																run: (*parser).callonSectionTitleElement23,
-															},
-														},
+												&andCodeExpr{
+													pos: position{line: 2333, col: 46, offset: 75577},
+													run: (*parser).callonSectionTitleElement18,
+												},
+											},
+										},
+									},
+									&actionExpr{
+										pos: position{line: 2822, col: 12, offset: 89594},
+										run: (*parser).callonSectionTitleElement19,
+										expr: &charClassMatcher{
+											pos:        position{line: 2822, col: 12, offset: 89594},
+											val:        "[^\\r\\n]",
+											chars:      []rune{'\r', '\n'},
+											ignoreCase: false,
+											inverted:   true,
+										},
+									},
+								},
+							},
+						},
+					},
+				},
+			},
+		},
+		{
+			name: "SectionTitleInlineElement",
+			pos:  position{line: 2341, col: 1, offset: 75754},
+			expr: &actionExpr{
+				pos: position{line: 2342, col: 5, offset: 75787},
+				run: (*parser).callonSectionTitleInlineElement1,
+				expr: &labeledExpr{
+					pos:   position{line: 2342, col: 5, offset: 75787},
+					label: "element",
+					expr: &choiceExpr{
+						pos: position{line: 2343, col: 9, offset: 75805},
+						alternatives: []interface{}{
+							&actionExpr{
+								pos: position{line: 2782, col: 5, offset: 88528},
+								run: (*parser).callonSectionTitleInlineElement4,
+								expr: &seqExpr{
+									pos: position{line: 2782, col: 5, offset: 88528},
+									exprs: []interface{}{
+										&labeledExpr{
+											pos:   position{line: 2782, col: 5, offset: 88528},
+											label: "text",
+											expr: &actionExpr{
+												pos: position{line: 2782, col: 11, offset: 88534},
+												run: (*parser).callonSectionTitleInlineElement7,
+												expr: &oneOrMoreExpr{
+													pos: position{line: 2782, col: 11, offset: 88534},
+													expr: &charClassMatcher{
+														pos:        position{line: 2782, col: 11, offset: 88534},
+														val:        "[\\pL\\pN]",
+														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+														ignoreCase: false,
+														inverted:   false,
 													},
 												},
-												&notExpr{
-													pos: position{line: 2776, col: 5, offset: 88264},
-													expr: &seqExpr{
-														pos: position{line: 2777, col: 9, offset: 88275},
-														exprs: []interface{}{
-															&litMatcher{
-																pos:        position{line: 2777, col: 9, offset: 88275},
-																val:        "@",
-																ignoreCase: false,
-																want:       "\"@\"",
-															},
-															&charClassMatcher{
-																pos:        position{line: 2777, col: 13, offset: 88279},
-																val:        "[\\pL\\pN]",
-																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																ignoreCase: false,
-																inverted:   false,
-															},
-														},
+											},
+										},
+										&notExpr{
+											pos: position{line: 2785, col: 5, offset: 88592},
+											expr: &seqExpr{
+												pos: position{line: 2786, col: 9, offset: 88603},
+												exprs: []interface{}{
+													&litMatcher{
+														pos:        position{line: 2786, col: 9, offset: 88603},
+														val:        ":",
+														ignoreCase: false,
+														want:       "\":\"",
+													},
+													&andCodeExpr{
+														pos: position{line: 2787, col: 9, offset: 88652},
+														run: (*parser).callonSectionTitleInlineElement13,
+													},
+												},
+											},
+										},
+										&notExpr{
+											pos: position{line: 2791, col: 5, offset: 88732},
+											expr: &seqExpr{
+												pos: position{line: 2792, col: 9, offset: 88743},
+												exprs: []interface{}{
+													&litMatcher{
+														pos:        position{line: 2792, col: 9, offset: 88743},
+														val:        "@",
+														ignoreCase: false,
+														want:       "\"@\"",
+													},
+													&charClassMatcher{
+														pos:        position{line: 2792, col: 13, offset: 88747},
+														val:        "[\\pL\\pN]",
+														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+														ignoreCase: false,
+														inverted:   false,
 													},
 												},
 											},
 										},
 									},
-									&actionExpr{
-										pos: position{line: 2872, col: 11, offset: 90879},
-										run: (*parser).callonSectionTitleElement28,
-										expr: &oneOrMoreExpr{
-											pos: position{line: 2872, col: 11, offset: 90879},
+								},
+							},
+							&actionExpr{
+								pos: position{line: 2887, col: 11, offset: 91347},
+								run: (*parser).callonSectionTitleInlineElement18,
+								expr: &oneOrMoreExpr{
+									pos: position{line: 2887, col: 11, offset: 91347},
+									expr: &charClassMatcher{
+										pos:        position{line: 2887, col: 11, offset: 91347},
+										val:        "[\\t ]",
+										chars:      []rune{'\t', ' '},
+										ignoreCase: false,
+										inverted:   false,
+									},
+								},
+							},
+							&actionExpr{
+								pos: position{line: 2511, col: 5, offset: 80946},
+								run: (*parser).callonSectionTitleInlineElement21,
+								expr: &seqExpr{
+									pos: position{line: 2511, col: 5, offset: 80946},
+									exprs: []interface{}{
+										&litMatcher{
+											pos:        position{line: 2511, col: 5, offset: 80946},
+											val:        "\\'",
+											ignoreCase: false,
+											want:       "\"\\\\'\"",
+										},
+										&andExpr{
+											pos: position{line: 2511, col: 10, offset: 80951},
 											expr: &charClassMatcher{
-												pos:        position{line: 2872, col: 11, offset: 90879},
-												val:        "[\\t ]",
-												chars:      []rune{'\t', ' '},
+												pos:        position{line: 2511, col: 11, offset: 80952},
+												val:        "[\\pL]",
+												classes:    []*unicode.RangeTable{rangeTable("L")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 										},
 									},
-									&actionExpr{
-										pos: position{line: 2496, col: 5, offset: 80478},
-										run: (*parser).callonSectionTitleElement31,
-										expr: &seqExpr{
-											pos: position{line: 2496, col: 5, offset: 80478},
-											exprs: []interface{}{
-												&litMatcher{
-													pos:        position{line: 2496, col: 5, offset: 80478},
-													val:        "\\'",
-													ignoreCase: false,
-													want:       "\"\\\\'\"",
-												},
-												&andExpr{
-													pos: position{line: 2496, col: 10, offset: 80483},
-													expr: &charClassMatcher{
-														pos:        position{line: 2496, col: 11, offset: 80484},
-														val:        "[\\pL]",
-														classes:    []*unicode.RangeTable{rangeTable("L")},
-														ignoreCase: false,
-														inverted:   false,
-													},
-												},
+								},
+							},
+							&actionExpr{
+								pos: position{line: 2517, col: 5, offset: 81144},
+								run: (*parser).callonSectionTitleInlineElement26,
+								expr: &seqExpr{
+									pos: position{line: 2517, col: 5, offset: 81144},
+									exprs: []interface{}{
+										&andCodeExpr{
+											pos: position{line: 2517, col: 5, offset: 81144},
+											run: (*parser).callonSectionTitleInlineElement28,
+										},
+										&andCodeExpr{
+											pos: position{line: 2520, col: 5, offset: 81215},
+											run: (*parser).callonSectionTitleInlineElement29,
+										},
+										&litMatcher{
+											pos:        position{line: 2524, col: 5, offset: 81340},
+											val:        "'",
+											ignoreCase: false,
+											want:       "\"'\"",
+										},
+										&andExpr{
+											pos: position{line: 2524, col: 9, offset: 81344},
+											expr: &charClassMatcher{
+												pos:        position{line: 2524, col: 10, offset: 81345},
+												val:        "[\\pL]",
+												classes:    []*unicode.RangeTable{rangeTable("L")},
+												ignoreCase: false,
+												inverted:   false,
 											},
 										},
 									},
-									&actionExpr{
-										pos: position{line: 2502, col: 5, offset: 80676},
-										run: (*parser).callonSectionTitleElement36,
-										expr: &seqExpr{
-											pos: position{line: 2502, col: 5, offset: 80676},
+								},
+							},
+							&ruleRefExpr{
+								pos:  position{line: 2346, col: 11, offset: 75870},
+								name: "Replacement",
+							},
+							&actionExpr{
+								pos: position{line: 2800, col: 5, offset: 88940},
+								run: (*parser).callonSectionTitleInlineElement34,
+								expr: &choiceExpr{
+									pos: position{line: 2801, col: 9, offset: 88950},
+									alternatives: []interface{}{
+										&charClassMatcher{
+											pos:        position{line: 2801, col: 10, offset: 88951},
+											val:        "[.,;?)!/:\"\\@=-]",
+											chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
+											ignoreCase: false,
+											inverted:   false,
+										},
+										&seqExpr{
+											pos: position{line: 2803, col: 13, offset: 89048},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2502, col: 5, offset: 80676},
-													run: (*parser).callonSectionTitleElement38,
-												},
-												&andCodeExpr{
-													pos: position{line: 2505, col: 5, offset: 80747},
-													run: (*parser).callonSectionTitleElement39,
+													pos: position{line: 2803, col: 13, offset: 89048},
+													run: (*parser).callonSectionTitleInlineElement38,
 												},
 												&litMatcher{
-													pos:        position{line: 2509, col: 5, offset: 80872},
-													val:        "'",
+													pos:        position{line: 2806, col: 13, offset: 89148},
+													val:        "[",
 													ignoreCase: false,
-													want:       "\"'\"",
-												},
-												&andExpr{
-													pos: position{line: 2509, col: 9, offset: 80876},
-													expr: &charClassMatcher{
-														pos:        position{line: 2509, col: 10, offset: 80877},
-														val:        "[\\pL]",
-														classes:    []*unicode.RangeTable{rangeTable("L")},
-														ignoreCase: false,
-														inverted:   false,
-													},
+													want:       "\"[\"",
 												},
 											},
 										},
-									},
-									&ruleRefExpr{
-										pos:  position{line: 2329, col: 11, offset: 75362},
-										name: "Replacement",
-									},
-									&actionExpr{
-										pos: position{line: 2785, col: 5, offset: 88472},
-										run: (*parser).callonSectionTitleElement44,
-										expr: &choiceExpr{
-											pos: position{line: 2786, col: 9, offset: 88482},
-											alternatives: []interface{}{
+										&litMatcher{
+											pos:        position{line: 2806, col: 19, offset: 89154},
+											val:        "]",
+											ignoreCase: false,
+											want:       "\"]\"",
+										},
+										&seqExpr{
+											pos: position{line: 2809, col: 13, offset: 89192},
+											exprs: []interface{}{
+												&andCodeExpr{
+													pos: position{line: 2809, col: 13, offset: 89192},
+													run: (*parser).callonSectionTitleInlineElement42,
+												},
 												&charClassMatcher{
-													pos:        position{line: 2786, col: 10, offset: 88483},
-													val:        "[.,;?)!/:\"\\@=-]",
-													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
+													pos:        position{line: 2812, col: 14, offset: 89285},
+													val:        "[*_`#]",
+													chars:      []rune{'*', '_', '`', '#'},
 													ignoreCase: false,
 													inverted:   false,
 												},
-												&seqExpr{
-													pos: position{line: 2788, col: 13, offset: 88580},
-													exprs: []interface{}{
-														&andCodeExpr{
-															pos: position{line: 2788, col: 13, offset: 88580},
-															run: (*parser).callonSectionTitleElement48,
-														},
-														&litMatcher{
-															pos:        position{line: 2791, col: 13, offset: 88680},
-															val:        "[",
-															ignoreCase: false,
-															want:       "\"[\"",
-														},
-													},
-												},
+											},
+										},
+										&seqExpr{
+											pos: position{line: 2814, col: 12, offset: 89329},
+											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2791, col: 19, offset: 88686},
-													val:        "]",
+													pos:        position{line: 2814, col: 12, offset: 89329},
+													val:        "(",
 													ignoreCase: false,
-													want:       "\"]\"",
-												},
-												&seqExpr{
-													pos: position{line: 2794, col: 13, offset: 88724},
-													exprs: []interface{}{
-														&andCodeExpr{
-															pos: position{line: 2794, col: 13, offset: 88724},
-															run: (*parser).callonSectionTitleElement52,
-														},
-														&charClassMatcher{
-															pos:        position{line: 2797, col: 14, offset: 88817},
-															val:        "[*_`#]",
-															chars:      []rune{'*', '_', '`', '#'},
-															ignoreCase: false,
-															inverted:   false,
-														},
-													},
+													want:       "\"(\"",
 												},
-												&seqExpr{
-													pos: position{line: 2799, col: 12, offset: 88861},
-													exprs: []interface{}{
-														&litMatcher{
-															pos:        position{line: 2799, col: 12, offset: 88861},
-															val:        "(",
-															ignoreCase: false,
-															want:       "\"(\"",
-														},
-														&notExpr{
-															pos: position{line: 2799, col: 16, offset: 88865},
-															expr: &litMatcher{
-																pos:        position{line: 2799, col: 17, offset: 88866},
-																val:        "(",
-																ignoreCase: false,
-																want:       "\"(\"",
-															},
-														},
+												&notExpr{
+													pos: position{line: 2814, col: 16, offset: 89333},
+													expr: &litMatcher{
+														pos:        position{line: 2814, col: 17, offset: 89334},
+														val:        "(",
+														ignoreCase: false,
+														want:       "\"(\"",
 													},
 												},
 											},
 										},
 									},
-									&ruleRefExpr{
-										pos:  position{line: 2331, col: 11, offset: 75435},
-										name: "Quote",
-									},
-									&ruleRefExpr{
-										pos:  position{line: 2332, col: 11, offset: 75451},
-										name: "InlinePassthrough",
-									},
-									&ruleRefExpr{
-										pos:  position{line: 2333, col: 11, offset: 75479},
-										name: "Link",
-									},
-									&actionExpr{
-										pos: position{line: 2465, col: 5, offset: 79307},
-										run: (*parser).callonSectionTitleElement61,
-										expr: &seqExpr{
-											pos: position{line: 2465, col: 5, offset: 79307},
-											exprs: []interface{}{
-												&andCodeExpr{
-													pos: position{line: 2465, col: 5, offset: 79307},
-													run: (*parser).callonSectionTitleElement63,
-												},
-												&labeledExpr{
-													pos:   position{line: 2468, col: 5, offset: 79383},
-													label: "element",
-													expr: &actionExpr{
-														pos: position{line: 2469, col: 9, offset: 79401},
-														run: (*parser).callonSectionTitleElement65,
-														expr: &charClassMatcher{
-															pos:        position{line: 2469, col: 10, offset: 79402},
-															val:        "[<>&]",
-															chars:      []rune{'<', '>', '&'},
-															ignoreCase: false,
-															inverted:   false,
-														},
-													},
+								},
+							},
+							&ruleRefExpr{
+								pos:  position{line: 2348, col: 11, offset: 75943},
+								name: "Quote",
+							},
+							&ruleRefExpr{
+								pos:  position{line: 2349, col: 11, offset: 75959},
+								name: "InlinePassthrough",
+							},
+							&ruleRefExpr{
+								pos:  position{line: 2350, col: 11, offset: 75987},
+								name: "Link",
+							},
+							&actionExpr{
+								pos: position{line: 2480, col: 5, offset: 79775},
+								run: (*parser).callonSectionTitleInlineElement51,
+								expr: &seqExpr{
+									pos: position{line: 2480, col: 5, offset: 79775},
+									exprs: []interface{}{
+										&andCodeExpr{
+											pos: position{line: 2480, col: 5, offset: 79775},
+											run: (*parser).callonSectionTitleInlineElement53,
+										},
+										&labeledExpr{
+											pos:   position{line: 2483, col: 5, offset: 79851},
+											label: "element",
+											expr: &actionExpr{
+												pos: position{line: 2484, col: 9, offset: 79869},
+												run: (*parser).callonSectionTitleInlineElement55,
+												expr: &charClassMatcher{
+													pos:        position{line: 2484, col: 10, offset: 79870},
+													val:        "[<>&]",
+													chars:      []rune{'<', '>', '&'},
+													ignoreCase: false,
+													inverted:   false,
 												},
 											},
 										},
 									},
-									&ruleRefExpr{
-										pos:  position{line: 2335, col: 11, offset: 75564},
-										name: "InlineIcon",
-									},
-									&actionExpr{
-										pos: position{line: 639, col: 5, offset: 20212},
-										run: (*parser).callonSectionTitleElement68,
-										expr: &seqExpr{
-											pos: position{line: 639, col: 5, offset: 20212},
-											exprs: []interface{}{
-												&andCodeExpr{
-													pos: position{line: 639, col: 5, offset: 20212},
-													run: (*parser).callonSectionTitleElement70,
-												},
-												&labeledExpr{
-													pos:   position{line: 642, col: 5, offset: 20284},
-													label: "element",
-													expr: &choiceExpr{
-														pos: position{line: 642, col: 14, offset: 20293},
-														alternatives: []interface{}{
-															&actionExpr{
-																pos: position{line: 648, col: 5, offset: 20422},
-																run: (*parser).callonSectionTitleElement73,
-																expr: &seqExpr{
-																	pos: position{line: 648, col: 5, offset: 20422},
-																	exprs: []interface{}{
-																		&litMatcher{
-																			pos:        position{line: 648, col: 5, offset: 20422},
-																			val:        "\\{",
-																			ignoreCase: false,
-																			want:       "\"\\\\{\"",
-																		},
-																		&labeledExpr{
-																			pos:   position{line: 648, col: 13, offset: 20430},
-																			label: "name",
-																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
-																				run: (*parser).callonSectionTitleElement77,
-																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
-																					exprs: []interface{}{
-																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
-																							val:        "[_\\pL\\pN]",
-																							chars:      []rune{'_'},
-																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																							ignoreCase: false,
-																							inverted:   false,
-																						},
-																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
-																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
-																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																								ignoreCase: false,
-																								inverted:   false,
-																							},
-																						},
+								},
+							},
+							&ruleRefExpr{
+								pos:  position{line: 2352, col: 11, offset: 76072},
+								name: "InlineIcon",
+							},
+							&actionExpr{
+								pos: position{line: 646, col: 5, offset: 20455},
+								run: (*parser).callonSectionTitleInlineElement58,
+								expr: &seqExpr{
+									pos: position{line: 646, col: 5, offset: 20455},
+									exprs: []interface{}{
+										&andCodeExpr{
+											pos: position{line: 646, col: 5, offset: 20455},
+											run: (*parser).callonSectionTitleInlineElement60,
+										},
+										&labeledExpr{
+											pos:   position{line: 649, col: 5, offset: 20527},
+											label: "element",
+											expr: &choiceExpr{
+												pos: position{line: 649, col: 14, offset: 20536},
+												alternatives: []interface{}{
+													&actionExpr{
+														pos: position{line: 655, col: 5, offset: 20665},
+														run: (*parser).callonSectionTitleInlineElement63,
+														expr: &seqExpr{
+															pos: position{line: 655, col: 5, offset: 20665},
+															exprs: []interface{}{
+																&litMatcher{
+																	pos:        position{line: 655, col: 5, offset: 20665},
+																	val:        "\\{",
+																	ignoreCase: false,
+																	want:       "\"\\\\{\"",
+																},
+																&labeledExpr{
+																	pos:   position{line: 655, col: 13, offset: 20673},
+																	label: "name",
+																	expr: &actionExpr{
+																		pos: position{line: 318, col: 18, offset: 9736},
+																		run: (*parser).callonSectionTitleInlineElement67,
+																		expr: &seqExpr{
+																			pos: position{line: 318, col: 18, offset: 9736},
+																			exprs: []interface{}{
+																				&charClassMatcher{
+																					pos:        position{line: 318, col: 18, offset: 9736},
+																					val:        "[_\\pL\\pN]",
+																					chars:      []rune{'_'},
+																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																					ignoreCase: false,
+																					inverted:   false,
+																				},
+																				&zeroOrMoreExpr{
+																					pos: position{line: 318, col: 28, offset: 9746},
+																					expr: &charClassMatcher{
+																						pos:        position{line: 318, col: 29, offset: 9747},
+																						val:        "[-\\pL\\pN]",
+																						chars:      []rune{'-'},
+																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																						ignoreCase: false,
+																						inverted:   false,
 																					},
 																				},
 																			},
 																		},
-																		&litMatcher{
-																			pos:        position{line: 648, col: 32, offset: 20449},
-																			val:        "}",
-																			ignoreCase: false,
-																			want:       "\"}\"",
-																		},
 																	},
 																},
+																&litMatcher{
+																	pos:        position{line: 655, col: 32, offset: 20692},
+																	val:        "}",
+																	ignoreCase: false,
+																	want:       "\"}\"",
+																},
 															},
-															&actionExpr{
-																pos: position{line: 655, col: 5, offset: 20690},
-																run: (*parser).callonSectionTitleElement83,
-																expr: &seqExpr{
-																	pos: position{line: 655, col: 5, offset: 20690},
-																	exprs: []interface{}{
-																		&litMatcher{
-																			pos:        position{line: 655, col: 5, offset: 20690},
-																			val:        "{",
-																			ignoreCase: false,
-																			want:       "\"{\"",
-																		},
-																		&labeledExpr{
-																			pos:   position{line: 655, col: 9, offset: 20694},
-																			label: "name",
-																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
-																				run: (*parser).callonSectionTitleElement87,
-																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
-																					exprs: []interface{}{
-																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
-																							val:        "[_\\pL\\pN]",
-																							chars:      []rune{'_'},
-																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																							ignoreCase: false,
-																							inverted:   false,
-																						},
-																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
-																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
-																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																								ignoreCase: false,
-																								inverted:   false,
-																							},
-																						},
+														},
+													},
+													&actionExpr{
+														pos: position{line: 662, col: 5, offset: 20933},
+														run: (*parser).callonSectionTitleInlineElement73,
+														expr: &seqExpr{
+															pos: position{line: 662, col: 5, offset: 20933},
+															exprs: []interface{}{
+																&litMatcher{
+																	pos:        position{line: 662, col: 5, offset: 20933},
+																	val:        "{",
+																	ignoreCase: false,
+																	want:       "\"{\"",
+																},
+																&labeledExpr{
+																	pos:   position{line: 662, col: 9, offset: 20937},
+																	label: "name",
+																	expr: &actionExpr{
+																		pos: position{line: 318, col: 18, offset: 9736},
+																		run: (*parser).callonSectionTitleInlineElement77,
+																		expr: &seqExpr{
+																			pos: position{line: 318, col: 18, offset: 9736},
+																			exprs: []interface{}{
+																				&charClassMatcher{
+																					pos:        position{line: 318, col: 18, offset: 9736},
+																					val:        "[_\\pL\\pN]",
+																					chars:      []rune{'_'},
+																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																					ignoreCase: false,
+																					inverted:   false,
+																				},
+																				&zeroOrMoreExpr{
+																					pos: position{line: 318, col: 28, offset: 9746},
+																					expr: &charClassMatcher{
+																						pos:        position{line: 318, col: 29, offset: 9747},
+																						val:        "[-\\pL\\pN]",
+																						chars:      []rune{'-'},
+																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																						ignoreCase: false,
+																						inverted:   false,
 																					},
 																				},
 																			},
 																		},
-																		&litMatcher{
-																			pos:        position{line: 655, col: 28, offset: 20713},
-																			val:        "}",
-																			ignoreCase: false,
-																			want:       "\"}\"",
-																		},
 																	},
 																},
+																&litMatcher{
+																	pos:        position{line: 662, col: 28, offset: 20956},
+																	val:        "}",
+																	ignoreCase: false,
+																	want:       "\"}\"",
+																},
 															},
-															&actionExpr{
-																pos: position{line: 661, col: 25, offset: 20894},
-																run: (*parser).callonSectionTitleElement93,
-																expr: &seqExpr{
-																	pos: position{line: 661, col: 25, offset: 20894},
-																	exprs: []interface{}{
-																		&litMatcher{
-																			pos:        position{line: 661, col: 25, offset: 20894},
-																			val:        "{counter:",
-																			ignoreCase: false,
-																			want:       "\"{counter:\"",
-																		},
-																		&labeledExpr{
-																			pos:   position{line: 661, col: 37, offset: 20906},
-																			label: "name",
-																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
-																				run: (*parser).callonSectionTitleElement97,
-																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
-																					exprs: []interface{}{
-																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
-																							val:        "[_\\pL\\pN]",
-																							chars:      []rune{'_'},
-																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																							ignoreCase: false,
-																							inverted:   false,
-																						},
-																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
-																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
-																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																								ignoreCase: false,
-																								inverted:   false,
-																							},
-																						},
+														},
+													},
+													&actionExpr{
+														pos: position{line: 668, col: 25, offset: 21137},
+														run: (*parser).callonSectionTitleInlineElement83,
+														expr: &seqExpr{
+															pos: position{line: 668, col: 25, offset: 21137},
+															exprs: []interface{}{
+																&litMatcher{
+																	pos:        position{line: 668, col: 25, offset: 21137},
+																	val:        "{counter:",
+																	ignoreCase: false,
+																	want:       "\"{counter:\"",
+																},
+																&labeledExpr{
+																	pos:   position{line: 668, col: 37, offset: 21149},
+																	label: "name",
+																	expr: &actionExpr{
+																		pos: position{line: 318, col: 18, offset: 9736},
+																		run: (*parser).callonSectionTitleInlineElement87,
+																		expr: &seqExpr{
+																			pos: position{line: 318, col: 18, offset: 9736},
+																			exprs: []interface{}{
+																				&charClassMatcher{
+																					pos:        position{line: 318, col: 18, offset: 9736},
+																					val:        "[_\\pL\\pN]",
+																					chars:      []rune{'_'},
+																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																					ignoreCase: false,
+																					inverted:   false,
+																				},
+																				&zeroOrMoreExpr{
+																					pos: position{line: 318, col: 28, offset: 9746},
+																					expr: &charClassMatcher{
+																						pos:        position{line: 318, col: 29, offset: 9747},
+																						val:        "[-\\pL\\pN]",
+																						chars:      []rune{'-'},
+																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																						ignoreCase: false,
+																						inverted:   false,
 																					},
 																				},
 																			},
 																		},
-																		&labeledExpr{
-																			pos:   position{line: 661, col: 56, offset: 20925},
-																			label: "start",
-																			expr: &zeroOrOneExpr{
-																				pos: position{line: 661, col: 62, offset: 20931},
-																				expr: &actionExpr{
-																					pos: position{line: 669, col: 17, offset: 21226},
-																					run: (*parser).callonSectionTitleElement104,
-																					expr: &seqExpr{
-																						pos: position{line: 669, col: 17, offset: 21226},
-																						exprs: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 669, col: 17, offset: 21226},
-																								val:        ":",
-																								ignoreCase: false,
-																								want:       "\":\"",
-																							},
-																							&labeledExpr{
-																								pos:   position{line: 669, col: 21, offset: 21230},
-																								label: "start",
-																								expr: &choiceExpr{
-																									pos: position{line: 669, col: 28, offset: 21237},
-																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 669, col: 28, offset: 21237},
-																											run: (*parser).callonSectionTitleElement109,
-																											expr: &charClassMatcher{
-																												pos:        position{line: 669, col: 28, offset: 21237},
-																												val:        "[A-Za-z]",
-																												ranges:     []rune{'A', 'Z', 'a', 'z'},
-																												ignoreCase: false,
-																												inverted:   false,
-																											},
-																										},
-																										&actionExpr{
-																											pos: position{line: 671, col: 9, offset: 21291},
-																											run: (*parser).callonSectionTitleElement111,
-																											expr: &oneOrMoreExpr{
-																												pos: position{line: 671, col: 9, offset: 21291},
-																												expr: &charClassMatcher{
-																													pos:        position{line: 671, col: 9, offset: 21291},
-																													val:        "[0-9]",
-																													ranges:     []rune{'0', '9'},
-																													ignoreCase: false,
-																													inverted:   false,
-																												},
-																											},
+																	},
+																},
+																&labeledExpr{
+																	pos:   position{line: 668, col: 56, offset: 21168},
+																	label: "start",
+																	expr: &zeroOrOneExpr{
+																		pos: position{line: 668, col: 62, offset: 21174},
+																		expr: &actionExpr{
+																			pos: position{line: 676, col: 17, offset: 21469},
+																			run: (*parser).callonSectionTitleInlineElement94,
+																			expr: &seqExpr{
+																				pos: position{line: 676, col: 17, offset: 21469},
+																				exprs: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 676, col: 17, offset: 21469},
+																						val:        ":",
+																						ignoreCase: false,
+																						want:       "\":\"",
+																					},
+																					&labeledExpr{
+																						pos:   position{line: 676, col: 21, offset: 21473},
+																						label: "start",
+																						expr: &choiceExpr{
+																							pos: position{line: 676, col: 28, offset: 21480},
+																							alternatives: []interface{}{
+																								&actionExpr{
+																									pos: position{line: 676, col: 28, offset: 21480},
+																									run: (*parser).callonSectionTitleInlineElement99,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 676, col: 28, offset: 21480},
+																										val:        "[A-Za-z]",
+																										ranges:     []rune{'A', 'Z', 'a', 'z'},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																								},
+																								&actionExpr{
+																									pos: position{line: 678, col: 9, offset: 21534},
+																									run: (*parser).callonSectionTitleInlineElement101,
+																									expr: &oneOrMoreExpr{
+																										pos: position{line: 678, col: 9, offset: 21534},
+																										expr: &charClassMatcher{
+																											pos:        position{line: 678, col: 9, offset: 21534},
+																											val:        "[0-9]",
+																											ranges:     []rune{'0', '9'},
+																											ignoreCase: false,
+																											inverted:   false,
 																										},
 																									},
 																								},
@@ -44422,106 +44504,106 @@ var g = &grammar{
 																				},
 																			},
 																		},
-																		&litMatcher{
-																			pos:        position{line: 661, col: 78, offset: 20947},
-																			val:        "}",
-																			ignoreCase: false,
-																			want:       "\"}\"",
-																		},
 																	},
 																},
+																&litMatcher{
+																	pos:        position{line: 668, col: 78, offset: 21190},
+																	val:        "}",
+																	ignoreCase: false,
+																	want:       "\"}\"",
+																},
 															},
-															&actionExpr{
-																pos: position{line: 665, col: 25, offset: 21065},
-																run: (*parser).callonSectionTitleElement115,
-																expr: &seqExpr{
-																	pos: position{line: 665, col: 25, offset: 21065},
-																	exprs: []interface{}{
-																		&litMatcher{
-																			pos:        position{line: 665, col: 25, offset: 21065},
-																			val:        "{counter2:",
-																			ignoreCase: false,
-																			want:       "\"{counter2:\"",
-																		},
-																		&labeledExpr{
-																			pos:   position{line: 665, col: 38, offset: 21078},
-																			label: "name",
-																			expr: &actionExpr{
-																				pos: position{line: 318, col: 18, offset: 9736},
-																				run: (*parser).callonSectionTitleElement119,
-																				expr: &seqExpr{
-																					pos: position{line: 318, col: 18, offset: 9736},
-																					exprs: []interface{}{
-																						&charClassMatcher{
-																							pos:        position{line: 318, col: 18, offset: 9736},
-																							val:        "[_\\pL\\pN]",
-																							chars:      []rune{'_'},
-																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																							ignoreCase: false,
-																							inverted:   false,
-																						},
-																						&zeroOrMoreExpr{
-																							pos: position{line: 318, col: 28, offset: 9746},
-																							expr: &charClassMatcher{
-																								pos:        position{line: 318, col: 29, offset: 9747},
-																								val:        "[-\\pL\\pN]",
-																								chars:      []rune{'-'},
-																								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																								ignoreCase: false,
-																								inverted:   false,
-																							},
-																						},
+														},
+													},
+													&actionExpr{
+														pos: position{line: 672, col: 25, offset: 21308},
+														run: (*parser).callonSectionTitleInlineElement105,
+														expr: &seqExpr{
+															pos: position{line: 672, col: 25, offset: 21308},
+															exprs: []interface{}{
+																&litMatcher{
+																	pos:        position{line: 672, col: 25, offset: 21308},
+																	val:        "{counter2:",
+																	ignoreCase: false,
+																	want:       "\"{counter2:\"",
+																},
+																&labeledExpr{
+																	pos:   position{line: 672, col: 38, offset: 21321},
+																	label: "name",
+																	expr: &actionExpr{
+																		pos: position{line: 318, col: 18, offset: 9736},
+																		run: (*parser).callonSectionTitleInlineElement109,
+																		expr: &seqExpr{
+																			pos: position{line: 318, col: 18, offset: 9736},
+																			exprs: []interface{}{
+																				&charClassMatcher{
+																					pos:        position{line: 318, col: 18, offset: 9736},
+																					val:        "[_\\pL\\pN]",
+																					chars:      []rune{'_'},
+																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																					ignoreCase: false,
+																					inverted:   false,
+																				},
+																				&zeroOrMoreExpr{
+																					pos: position{line: 318, col: 28, offset: 9746},
+																					expr: &charClassMatcher{
+																						pos:        position{line: 318, col: 29, offset: 9747},
+																						val:        "[-\\pL\\pN]",
+																						chars:      []rune{'-'},
+																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																						ignoreCase: false,
+																						inverted:   false,
 																					},
 																				},
 																			},
 																		},
-																		&labeledExpr{
-																			pos:   position{line: 665, col: 57, offset: 21097},
-																			label: "start",
-																			expr: &zeroOrOneExpr{
-																				pos: position{line: 665, col: 63, offset: 21103},
-																				expr: &actionExpr{
-																					pos: position{line: 669, col: 17, offset: 21226},
-																					run: (*parser).callonSectionTitleElement126,
-																					expr: &seqExpr{
-																						pos: position{line: 669, col: 17, offset: 21226},
-																						exprs: []interface{}{
-																							&litMatcher{
-																								pos:        position{line: 669, col: 17, offset: 21226},
-																								val:        ":",
-																								ignoreCase: false,
-																								want:       "\":\"",
-																							},
-																							&labeledExpr{
-																								pos:   position{line: 669, col: 21, offset: 21230},
-																								label: "start",
-																								expr: &choiceExpr{
-																									pos: position{line: 669, col: 28, offset: 21237},
-																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 669, col: 28, offset: 21237},
-																											run: (*parser).callonSectionTitleElement131,
-																											expr: &charClassMatcher{
-																												pos:        position{line: 669, col: 28, offset: 21237},
-																												val:        "[A-Za-z]",
-																												ranges:     []rune{'A', 'Z', 'a', 'z'},
-																												ignoreCase: false,
-																												inverted:   false,
-																											},
-																										},
-																										&actionExpr{
-																											pos: position{line: 671, col: 9, offset: 21291},
-																											run: (*parser).callonSectionTitleElement133,
-																											expr: &oneOrMoreExpr{
-																												pos: position{line: 671, col: 9, offset: 21291},
-																												expr: &charClassMatcher{
-																													pos:        position{line: 671, col: 9, offset: 21291},
-																													val:        "[0-9]",
-																													ranges:     []rune{'0', '9'},
-																													ignoreCase: false,
-																													inverted:   false,
-																												},
-																											},
+																	},
+																},
+																&labeledExpr{
+																	pos:   position{line: 672, col: 57, offset: 21340},
+																	label: "start",
+																	expr: &zeroOrOneExpr{
+																		pos: position{line: 672, col: 63, offset: 21346},
+																		expr: &actionExpr{
+																			pos: position{line: 676, col: 17, offset: 21469},
+																			run: (*parser).callonSectionTitleInlineElement116,
+																			expr: &seqExpr{
+																				pos: position{line: 676, col: 17, offset: 21469},
+																				exprs: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 676, col: 17, offset: 21469},
+																						val:        ":",
+																						ignoreCase: false,
+																						want:       "\":\"",
+																					},
+																					&labeledExpr{
+																						pos:   position{line: 676, col: 21, offset: 21473},
+																						label: "start",
+																						expr: &choiceExpr{
+																							pos: position{line: 676, col: 28, offset: 21480},
+																							alternatives: []interface{}{
+																								&actionExpr{
+																									pos: position{line: 676, col: 28, offset: 21480},
+																									run: (*parser).callonSectionTitleInlineElement121,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 676, col: 28, offset: 21480},
+																										val:        "[A-Za-z]",
+																										ranges:     []rune{'A', 'Z', 'a', 'z'},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																								},
+																								&actionExpr{
+																									pos: position{line: 678, col: 9, offset: 21534},
+																									run: (*parser).callonSectionTitleInlineElement123,
+																									expr: &oneOrMoreExpr{
+																										pos: position{line: 678, col: 9, offset: 21534},
+																										expr: &charClassMatcher{
+																											pos:        position{line: 678, col: 9, offset: 21534},
+																											val:        "[0-9]",
+																											ranges:     []rune{'0', '9'},
+																											ignoreCase: false,
+																											inverted:   false,
 																										},
 																									},
 																								},
@@ -44531,14 +44613,14 @@ var g = &grammar{
 																				},
 																			},
 																		},
-																		&litMatcher{
-																			pos:        position{line: 665, col: 79, offset: 21119},
-																			val:        "}",
-																			ignoreCase: false,
-																			want:       "\"}\"",
-																		},
 																	},
 																},
+																&litMatcher{
+																	pos:        position{line: 672, col: 79, offset: 21362},
+																	val:        "}",
+																	ignoreCase: false,
+																	want:       "\"}\"",
+																},
 															},
 														},
 													},
@@ -44546,350 +44628,350 @@ var g = &grammar{
 											},
 										},
 									},
-									&actionExpr{
-										pos: position{line: 1213, col: 23, offset: 37477},
-										run: (*parser).callonSectionTitleElement137,
-										expr: &seqExpr{
-											pos: position{line: 1213, col: 23, offset: 37477},
-											exprs: []interface{}{
-												&litMatcher{
-													pos:        position{line: 1211, col: 32, offset: 37445},
-													val:        "�",
-													ignoreCase: false,
-													want:       "\"�\"",
-												},
-												&labeledExpr{
-													pos:   position{line: 1213, col: 51, offset: 37505},
-													label: "ref",
-													expr: &actionExpr{
-														pos: position{line: 1213, col: 56, offset: 37510},
-														run: (*parser).callonSectionTitleElement141,
-														expr: &oneOrMoreExpr{
-															pos: position{line: 1213, col: 56, offset: 37510},
-															expr: &charClassMatcher{
-																pos:        position{line: 1213, col: 56, offset: 37510},
-																val:        "[0-9]",
-																ranges:     []rune{'0', '9'},
-																ignoreCase: false,
-																inverted:   false,
-															},
-														},
+								},
+							},
+							&actionExpr{
+								pos: position{line: 1220, col: 23, offset: 37720},
+								run: (*parser).callonSectionTitleInlineElement127,
+								expr: &seqExpr{
+									pos: position{line: 1220, col: 23, offset: 37720},
+									exprs: []interface{}{
+										&litMatcher{
+											pos:        position{line: 1218, col: 32, offset: 37688},
+											val:        "�",
+											ignoreCase: false,
+											want:       "\"�\"",
+										},
+										&labeledExpr{
+											pos:   position{line: 1220, col: 51, offset: 37748},
+											label: "ref",
+											expr: &actionExpr{
+												pos: position{line: 1220, col: 56, offset: 37753},
+												run: (*parser).callonSectionTitleInlineElement131,
+												expr: &oneOrMoreExpr{
+													pos: position{line: 1220, col: 56, offset: 37753},
+													expr: &charClassMatcher{
+														pos:        position{line: 1220, col: 56, offset: 37753},
+														val:        "[0-9]",
+														ranges:     []rune{'0', '9'},
+														ignoreCase: false,
+														inverted:   false,
 													},
 												},
-												&litMatcher{
-													pos:        position{line: 1211, col: 32, offset: 37445},
-													val:        "�",
-													ignoreCase: false,
-													want:       "\"�\"",
-												},
 											},
 										},
+										&litMatcher{
+											pos:        position{line: 1218, col: 32, offset: 37688},
+											val:        "�",
+											ignoreCase: false,
+											want:       "\"�\"",
+										},
 									},
-									&actionExpr{
-										pos: position{line: 2348, col: 5, offset: 76017},
-										run: (*parser).callonSectionTitleElement145,
-										expr: &seqExpr{
-											pos: position{line: 2348, col: 5, offset: 76017},
-											exprs: []interface{}{
-												&andCodeExpr{
-													pos: position{line: 2348, col: 5, offset: 76017},
-													run: (*parser).callonSectionTitleElement147,
-												},
-												&labeledExpr{
-													pos:   position{line: 2351, col: 5, offset: 76072},
-													label: "id",
-													expr: &actionExpr{
-														pos: position{line: 404, col: 5, offset: 12337},
-														run: (*parser).callonSectionTitleElement149,
-														expr: &seqExpr{
-															pos: position{line: 404, col: 5, offset: 12337},
-															exprs: []interface{}{
-																&litMatcher{
-																	pos:        position{line: 404, col: 5, offset: 12337},
-																	val:        "[[",
-																	ignoreCase: false,
-																	want:       "\"[[\"",
-																},
-																&labeledExpr{
-																	pos:   position{line: 405, col: 5, offset: 12347},
-																	label: "id",
-																	expr: &actionExpr{
-																		pos: position{line: 406, col: 9, offset: 12360},
-																		run: (*parser).callonSectionTitleElement153,
-																		expr: &labeledExpr{
-																			pos:   position{line: 406, col: 9, offset: 12360},
-																			label: "elements",
-																			expr: &oneOrMoreExpr{
-																				pos: position{line: 406, col: 18, offset: 12369},
-																				expr: &choiceExpr{
-																					pos: position{line: 407, col: 13, offset: 12383},
-																					alternatives: []interface{}{
-																						&actionExpr{
-																							pos: position{line: 407, col: 14, offset: 12384},
-																							run: (*parser).callonSectionTitleElement157,
-																							expr: &oneOrMoreExpr{
-																								pos: position{line: 407, col: 14, offset: 12384},
-																								expr: &charClassMatcher{
-																									pos:        position{line: 407, col: 14, offset: 12384},
-																									val:        "[^=\\r\\n�{]]",
-																									chars:      []rune{'=', '\r', '\n', '�', '{', ']'},
-																									ignoreCase: false,
-																									inverted:   true,
-																								},
-																							},
+								},
+							},
+							&actionExpr{
+								pos: position{line: 2363, col: 5, offset: 76485},
+								run: (*parser).callonSectionTitleInlineElement135,
+								expr: &seqExpr{
+									pos: position{line: 2363, col: 5, offset: 76485},
+									exprs: []interface{}{
+										&andCodeExpr{
+											pos: position{line: 2363, col: 5, offset: 76485},
+											run: (*parser).callonSectionTitleInlineElement137,
+										},
+										&labeledExpr{
+											pos:   position{line: 2366, col: 5, offset: 76540},
+											label: "id",
+											expr: &actionExpr{
+												pos: position{line: 411, col: 5, offset: 12580},
+												run: (*parser).callonSectionTitleInlineElement139,
+												expr: &seqExpr{
+													pos: position{line: 411, col: 5, offset: 12580},
+													exprs: []interface{}{
+														&litMatcher{
+															pos:        position{line: 411, col: 5, offset: 12580},
+															val:        "[[",
+															ignoreCase: false,
+															want:       "\"[[\"",
+														},
+														&labeledExpr{
+															pos:   position{line: 412, col: 5, offset: 12590},
+															label: "id",
+															expr: &actionExpr{
+																pos: position{line: 413, col: 9, offset: 12603},
+																run: (*parser).callonSectionTitleInlineElement143,
+																expr: &labeledExpr{
+																	pos:   position{line: 413, col: 9, offset: 12603},
+																	label: "elements",
+																	expr: &oneOrMoreExpr{
+																		pos: position{line: 413, col: 18, offset: 12612},
+																		expr: &choiceExpr{
+																			pos: position{line: 414, col: 13, offset: 12626},
+																			alternatives: []interface{}{
+																				&actionExpr{
+																					pos: position{line: 414, col: 14, offset: 12627},
+																					run: (*parser).callonSectionTitleInlineElement147,
+																					expr: &oneOrMoreExpr{
+																						pos: position{line: 414, col: 14, offset: 12627},
+																						expr: &charClassMatcher{
+																							pos:        position{line: 414, col: 14, offset: 12627},
+																							val:        "[^=\\r\\n�{]]",
+																							chars:      []rune{'=', '\r', '\n', '�', '{', ']'},
+																							ignoreCase: false,
+																							inverted:   true,
 																						},
-																						&actionExpr{
-																							pos: position{line: 1213, col: 23, offset: 37477},
-																							run: (*parser).callonSectionTitleElement160,
-																							expr: &seqExpr{
-																								pos: position{line: 1213, col: 23, offset: 37477},
-																								exprs: []interface{}{
-																									&litMatcher{
-																										pos:        position{line: 1211, col: 32, offset: 37445},
-																										val:        "�",
-																										ignoreCase: false,
-																										want:       "\"�\"",
-																									},
-																									&labeledExpr{
-																										pos:   position{line: 1213, col: 51, offset: 37505},
-																										label: "ref",
-																										expr: &actionExpr{
-																											pos: position{line: 1213, col: 56, offset: 37510},
-																											run: (*parser).callonSectionTitleElement164,
-																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1213, col: 56, offset: 37510},
-																												expr: &charClassMatcher{
-																													pos:        position{line: 1213, col: 56, offset: 37510},
-																													val:        "[0-9]",
-																													ranges:     []rune{'0', '9'},
-																													ignoreCase: false,
-																													inverted:   false,
-																												},
-																											},
+																					},
+																				},
+																				&actionExpr{
+																					pos: position{line: 1220, col: 23, offset: 37720},
+																					run: (*parser).callonSectionTitleInlineElement150,
+																					expr: &seqExpr{
+																						pos: position{line: 1220, col: 23, offset: 37720},
+																						exprs: []interface{}{
+																							&litMatcher{
+																								pos:        position{line: 1218, col: 32, offset: 37688},
+																								val:        "�",
+																								ignoreCase: false,
+																								want:       "\"�\"",
+																							},
+																							&labeledExpr{
+																								pos:   position{line: 1220, col: 51, offset: 37748},
+																								label: "ref",
+																								expr: &actionExpr{
+																									pos: position{line: 1220, col: 56, offset: 37753},
+																									run: (*parser).callonSectionTitleInlineElement154,
+																									expr: &oneOrMoreExpr{
+																										pos: position{line: 1220, col: 56, offset: 37753},
+																										expr: &charClassMatcher{
+																											pos:        position{line: 1220, col: 56, offset: 37753},
+																											val:        "[0-9]",
+																											ranges:     []rune{'0', '9'},
+																											ignoreCase: false,
+																											inverted:   false,
 																										},
 																									},
-																									&litMatcher{
-																										pos:        position{line: 1211, col: 32, offset: 37445},
-																										val:        "�",
-																										ignoreCase: false,
-																										want:       "\"�\"",
-																									},
 																								},
 																							},
+																							&litMatcher{
+																								pos:        position{line: 1218, col: 32, offset: 37688},
+																								val:        "�",
+																								ignoreCase: false,
+																								want:       "\"�\"",
+																							},
 																						},
-																						&actionExpr{
-																							pos: position{line: 639, col: 5, offset: 20212},
-																							run: (*parser).callonSectionTitleElement168,
-																							expr: &seqExpr{
-																								pos: position{line: 639, col: 5, offset: 20212},
-																								exprs: []interface{}{
-																									&andCodeExpr{
-																										pos: position{line: 639, col: 5, offset: 20212},
-																										run: (*parser).callonSectionTitleElement170,
-																									},
-																									&labeledExpr{
-																										pos:   position{line: 642, col: 5, offset: 20284},
-																										label: "element",
-																										expr: &choiceExpr{
-																											pos: position{line: 642, col: 14, offset: 20293},
-																											alternatives: []interface{}{
-																												&actionExpr{
-																													pos: position{line: 648, col: 5, offset: 20422},
-																													run: (*parser).callonSectionTitleElement173,
-																													expr: &seqExpr{
-																														pos: position{line: 648, col: 5, offset: 20422},
-																														exprs: []interface{}{
-																															&litMatcher{
-																																pos:        position{line: 648, col: 5, offset: 20422},
-																																val:        "\\{",
-																																ignoreCase: false,
-																																want:       "\"\\\\{\"",
-																															},
-																															&labeledExpr{
-																																pos:   position{line: 648, col: 13, offset: 20430},
-																																label: "name",
-																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
-																																	run: (*parser).callonSectionTitleElement177,
-																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9736},
-																																		exprs: []interface{}{
-																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9736},
-																																				val:        "[_\\pL\\pN]",
-																																				chars:      []rune{'_'},
-																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																																				ignoreCase: false,
-																																				inverted:   false,
-																																			},
-																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9746},
-																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9747},
-																																					val:        "[-\\pL\\pN]",
-																																					chars:      []rune{'-'},
-																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																																					ignoreCase: false,
-																																					inverted:   false,
-																																				},
-																																			},
+																					},
+																				},
+																				&actionExpr{
+																					pos: position{line: 646, col: 5, offset: 20455},
+																					run: (*parser).callonSectionTitleInlineElement158,
+																					expr: &seqExpr{
+																						pos: position{line: 646, col: 5, offset: 20455},
+																						exprs: []interface{}{
+																							&andCodeExpr{
+																								pos: position{line: 646, col: 5, offset: 20455},
+																								run: (*parser).callonSectionTitleInlineElement160,
+																							},
+																							&labeledExpr{
+																								pos:   position{line: 649, col: 5, offset: 20527},
+																								label: "element",
+																								expr: &choiceExpr{
+																									pos: position{line: 649, col: 14, offset: 20536},
+																									alternatives: []interface{}{
+																										&actionExpr{
+																											pos: position{line: 655, col: 5, offset: 20665},
+																											run: (*parser).callonSectionTitleInlineElement163,
+																											expr: &seqExpr{
+																												pos: position{line: 655, col: 5, offset: 20665},
+																												exprs: []interface{}{
+																													&litMatcher{
+																														pos:        position{line: 655, col: 5, offset: 20665},
+																														val:        "\\{",
+																														ignoreCase: false,
+																														want:       "\"\\\\{\"",
+																													},
+																													&labeledExpr{
+																														pos:   position{line: 655, col: 13, offset: 20673},
+																														label: "name",
+																														expr: &actionExpr{
+																															pos: position{line: 318, col: 18, offset: 9736},
+																															run: (*parser).callonSectionTitleInlineElement167,
+																															expr: &seqExpr{
+																																pos: position{line: 318, col: 18, offset: 9736},
+																																exprs: []interface{}{
+																																	&charClassMatcher{
+																																		pos:        position{line: 318, col: 18, offset: 9736},
+																																		val:        "[_\\pL\\pN]",
+																																		chars:      []rune{'_'},
+																																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																																		ignoreCase: false,
+																																		inverted:   false,
+																																	},
+																																	&zeroOrMoreExpr{
+																																		pos: position{line: 318, col: 28, offset: 9746},
+																																		expr: &charClassMatcher{
+																																			pos:        position{line: 318, col: 29, offset: 9747},
+																																			val:        "[-\\pL\\pN]",
+																																			chars:      []rune{'-'},
+																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																																			ignoreCase: false,
+																																			inverted:   false,
 																																		},
 																																	},
 																																},
 																															},
-																															&litMatcher{
-																																pos:        position{line: 648, col: 32, offset: 20449},
-																																val:        "}",
-																																ignoreCase: false,
-																																want:       "\"}\"",
-																															},
 																														},
 																													},
+																													&litMatcher{
+																														pos:        position{line: 655, col: 32, offset: 20692},
+																														val:        "}",
+																														ignoreCase: false,
+																														want:       "\"}\"",
+																													},
 																												},
-																												&actionExpr{
-																													pos: position{line: 655, col: 5, offset: 20690},
-																													run: (*parser).callonSectionTitleElement183,
-																													expr: &seqExpr{
-																														pos: position{line: 655, col: 5, offset: 20690},
-																														exprs: []interface{}{
-																															&litMatcher{
-																																pos:        position{line: 655, col: 5, offset: 20690},
-																																val:        "{",
-																																ignoreCase: false,
-																																want:       "\"{\"",
-																															},
-																															&labeledExpr{
-																																pos:   position{line: 655, col: 9, offset: 20694},
-																																label: "name",
-																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
-																																	run: (*parser).callonSectionTitleElement187,
-																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9736},
-																																		exprs: []interface{}{
-																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9736},
-																																				val:        "[_\\pL\\pN]",
-																																				chars:      []rune{'_'},
-																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																																				ignoreCase: false,
-																																				inverted:   false,
-																																			},
-																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9746},
-																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9747},
-																																					val:        "[-\\pL\\pN]",
-																																					chars:      []rune{'-'},
-																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																																					ignoreCase: false,
-																																					inverted:   false,
-																																				},
-																																			},
+																											},
+																										},
+																										&actionExpr{
+																											pos: position{line: 662, col: 5, offset: 20933},
+																											run: (*parser).callonSectionTitleInlineElement173,
+																											expr: &seqExpr{
+																												pos: position{line: 662, col: 5, offset: 20933},
+																												exprs: []interface{}{
+																													&litMatcher{
+																														pos:        position{line: 662, col: 5, offset: 20933},
+																														val:        "{",
+																														ignoreCase: false,
+																														want:       "\"{\"",
+																													},
+																													&labeledExpr{
+																														pos:   position{line: 662, col: 9, offset: 20937},
+																														label: "name",
+																														expr: &actionExpr{
+																															pos: position{line: 318, col: 18, offset: 9736},
+																															run: (*parser).callonSectionTitleInlineElement177,
+																															expr: &seqExpr{
+																																pos: position{line: 318, col: 18, offset: 9736},
+																																exprs: []interface{}{
+																																	&charClassMatcher{
+																																		pos:        position{line: 318, col: 18, offset: 9736},
+																																		val:        "[_\\pL\\pN]",
+																																		chars:      []rune{'_'},
+																																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																																		ignoreCase: false,
+																																		inverted:   false,
+																																	},
+																																	&zeroOrMoreExpr{
+																																		pos: position{line: 318, col: 28, offset: 9746},
+																																		expr: &charClassMatcher{
+																																			pos:        position{line: 318, col: 29, offset: 9747},
+																																			val:        "[-\\pL\\pN]",
+																																			chars:      []rune{'-'},
+																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																																			ignoreCase: false,
+																																			inverted:   false,
 																																		},
 																																	},
 																																},
 																															},
-																															&litMatcher{
-																																pos:        position{line: 655, col: 28, offset: 20713},
-																																val:        "}",
-																																ignoreCase: false,
-																																want:       "\"}\"",
-																															},
 																														},
 																													},
+																													&litMatcher{
+																														pos:        position{line: 662, col: 28, offset: 20956},
+																														val:        "}",
+																														ignoreCase: false,
+																														want:       "\"}\"",
+																													},
 																												},
-																												&actionExpr{
-																													pos: position{line: 661, col: 25, offset: 20894},
-																													run: (*parser).callonSectionTitleElement193,
-																													expr: &seqExpr{
-																														pos: position{line: 661, col: 25, offset: 20894},
-																														exprs: []interface{}{
-																															&litMatcher{
-																																pos:        position{line: 661, col: 25, offset: 20894},
-																																val:        "{counter:",
-																																ignoreCase: false,
-																																want:       "\"{counter:\"",
-																															},
-																															&labeledExpr{
-																																pos:   position{line: 661, col: 37, offset: 20906},
-																																label: "name",
-																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
-																																	run: (*parser).callonSectionTitleElement197,
-																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9736},
-																																		exprs: []interface{}{
-																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9736},
-																																				val:        "[_\\pL\\pN]",
-																																				chars:      []rune{'_'},
-																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																																				ignoreCase: false,
-																																				inverted:   false,
-																																			},
-																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9746},
-																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9747},
-																																					val:        "[-\\pL\\pN]",
-																																					chars:      []rune{'-'},
-																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																																					ignoreCase: false,
-																																					inverted:   false,
-																																				},
-																																			},
+																											},
+																										},
+																										&actionExpr{
+																											pos: position{line: 668, col: 25, offset: 21137},
+																											run: (*parser).callonSectionTitleInlineElement183,
+																											expr: &seqExpr{
+																												pos: position{line: 668, col: 25, offset: 21137},
+																												exprs: []interface{}{
+																													&litMatcher{
+																														pos:        position{line: 668, col: 25, offset: 21137},
+																														val:        "{counter:",
+																														ignoreCase: false,
+																														want:       "\"{counter:\"",
+																													},
+																													&labeledExpr{
+																														pos:   position{line: 668, col: 37, offset: 21149},
+																														label: "name",
+																														expr: &actionExpr{
+																															pos: position{line: 318, col: 18, offset: 9736},
+																															run: (*parser).callonSectionTitleInlineElement187,
+																															expr: &seqExpr{
+																																pos: position{line: 318, col: 18, offset: 9736},
+																																exprs: []interface{}{
+																																	&charClassMatcher{
+																																		pos:        position{line: 318, col: 18, offset: 9736},
+																																		val:        "[_\\pL\\pN]",
+																																		chars:      []rune{'_'},
+																																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																																		ignoreCase: false,
+																																		inverted:   false,
+																																	},
+																																	&zeroOrMoreExpr{
+																																		pos: position{line: 318, col: 28, offset: 9746},
+																																		expr: &charClassMatcher{
+																																			pos:        position{line: 318, col: 29, offset: 9747},
+																																			val:        "[-\\pL\\pN]",
+																																			chars:      []rune{'-'},
+																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																																			ignoreCase: false,
+																																			inverted:   false,
 																																		},
 																																	},
 																																},
 																															},
-																															&labeledExpr{
-																																pos:   position{line: 661, col: 56, offset: 20925},
-																																label: "start",
-																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 661, col: 62, offset: 20931},
-																																	expr: &actionExpr{
-																																		pos: position{line: 669, col: 17, offset: 21226},
-																																		run: (*parser).callonSectionTitleElement204,
-																																		expr: &seqExpr{
-																																			pos: position{line: 669, col: 17, offset: 21226},
-																																			exprs: []interface{}{
-																																				&litMatcher{
-																																					pos:        position{line: 669, col: 17, offset: 21226},
-																																					val:        ":",
-																																					ignoreCase: false,
-																																					want:       "\":\"",
-																																				},
-																																				&labeledExpr{
-																																					pos:   position{line: 669, col: 21, offset: 21230},
-																																					label: "start",
-																																					expr: &choiceExpr{
-																																						pos: position{line: 669, col: 28, offset: 21237},
-																																						alternatives: []interface{}{
-																																							&actionExpr{
-																																								pos: position{line: 669, col: 28, offset: 21237},
-																																								run: (*parser).callonSectionTitleElement209,
-																																								expr: &charClassMatcher{
-																																									pos:        position{line: 669, col: 28, offset: 21237},
-																																									val:        "[A-Za-z]",
-																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
-																																									ignoreCase: false,
-																																									inverted:   false,
-																																								},
-																																							},
-																																							&actionExpr{
-																																								pos: position{line: 671, col: 9, offset: 21291},
-																																								run: (*parser).callonSectionTitleElement211,
-																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 671, col: 9, offset: 21291},
-																																									expr: &charClassMatcher{
-																																										pos:        position{line: 671, col: 9, offset: 21291},
-																																										val:        "[0-9]",
-																																										ranges:     []rune{'0', '9'},
-																																										ignoreCase: false,
-																																										inverted:   false,
-																																									},
-																																								},
+																														},
+																													},
+																													&labeledExpr{
+																														pos:   position{line: 668, col: 56, offset: 21168},
+																														label: "start",
+																														expr: &zeroOrOneExpr{
+																															pos: position{line: 668, col: 62, offset: 21174},
+																															expr: &actionExpr{
+																																pos: position{line: 676, col: 17, offset: 21469},
+																																run: (*parser).callonSectionTitleInlineElement194,
+																																expr: &seqExpr{
+																																	pos: position{line: 676, col: 17, offset: 21469},
+																																	exprs: []interface{}{
+																																		&litMatcher{
+																																			pos:        position{line: 676, col: 17, offset: 21469},
+																																			val:        ":",
+																																			ignoreCase: false,
+																																			want:       "\":\"",
+																																		},
+																																		&labeledExpr{
+																																			pos:   position{line: 676, col: 21, offset: 21473},
+																																			label: "start",
+																																			expr: &choiceExpr{
+																																				pos: position{line: 676, col: 28, offset: 21480},
+																																				alternatives: []interface{}{
+																																					&actionExpr{
+																																						pos: position{line: 676, col: 28, offset: 21480},
+																																						run: (*parser).callonSectionTitleInlineElement199,
+																																						expr: &charClassMatcher{
+																																							pos:        position{line: 676, col: 28, offset: 21480},
+																																							val:        "[A-Za-z]",
+																																							ranges:     []rune{'A', 'Z', 'a', 'z'},
+																																							ignoreCase: false,
+																																							inverted:   false,
+																																						},
+																																					},
+																																					&actionExpr{
+																																						pos: position{line: 678, col: 9, offset: 21534},
+																																						run: (*parser).callonSectionTitleInlineElement201,
+																																						expr: &oneOrMoreExpr{
+																																							pos: position{line: 678, col: 9, offset: 21534},
+																																							expr: &charClassMatcher{
+																																								pos:        position{line: 678, col: 9, offset: 21534},
+																																								val:        "[0-9]",
+																																								ranges:     []rune{'0', '9'},
+																																								ignoreCase: false,
+																																								inverted:   false,
 																																							},
 																																						},
 																																					},
@@ -44899,106 +44981,106 @@ var g = &grammar{
 																																	},
 																																},
 																															},
-																															&litMatcher{
-																																pos:        position{line: 661, col: 78, offset: 20947},
-																																val:        "}",
-																																ignoreCase: false,
-																																want:       "\"}\"",
-																															},
 																														},
 																													},
+																													&litMatcher{
+																														pos:        position{line: 668, col: 78, offset: 21190},
+																														val:        "}",
+																														ignoreCase: false,
+																														want:       "\"}\"",
+																													},
 																												},
-																												&actionExpr{
-																													pos: position{line: 665, col: 25, offset: 21065},
-																													run: (*parser).callonSectionTitleElement215,
-																													expr: &seqExpr{
-																														pos: position{line: 665, col: 25, offset: 21065},
-																														exprs: []interface{}{
-																															&litMatcher{
-																																pos:        position{line: 665, col: 25, offset: 21065},
-																																val:        "{counter2:",
-																																ignoreCase: false,
-																																want:       "\"{counter2:\"",
-																															},
-																															&labeledExpr{
-																																pos:   position{line: 665, col: 38, offset: 21078},
-																																label: "name",
-																																expr: &actionExpr{
-																																	pos: position{line: 318, col: 18, offset: 9736},
-																																	run: (*parser).callonSectionTitleElement219,
-																																	expr: &seqExpr{
-																																		pos: position{line: 318, col: 18, offset: 9736},
-																																		exprs: []interface{}{
-																																			&charClassMatcher{
-																																				pos:        position{line: 318, col: 18, offset: 9736},
-																																				val:        "[_\\pL\\pN]",
-																																				chars:      []rune{'_'},
-																																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																																				ignoreCase: false,
-																																				inverted:   false,
-																																			},
-																																			&zeroOrMoreExpr{
-																																				pos: position{line: 318, col: 28, offset: 9746},
-																																				expr: &charClassMatcher{
-																																					pos:        position{line: 318, col: 29, offset: 9747},
-																																					val:        "[-\\pL\\pN]",
-																																					chars:      []rune{'-'},
-																																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																																					ignoreCase: false,
-																																					inverted:   false,
-																																				},
-																																			},
+																											},
+																										},
+																										&actionExpr{
+																											pos: position{line: 672, col: 25, offset: 21308},
+																											run: (*parser).callonSectionTitleInlineElement205,
+																											expr: &seqExpr{
+																												pos: position{line: 672, col: 25, offset: 21308},
+																												exprs: []interface{}{
+																													&litMatcher{
+																														pos:        position{line: 672, col: 25, offset: 21308},
+																														val:        "{counter2:",
+																														ignoreCase: false,
+																														want:       "\"{counter2:\"",
+																													},
+																													&labeledExpr{
+																														pos:   position{line: 672, col: 38, offset: 21321},
+																														label: "name",
+																														expr: &actionExpr{
+																															pos: position{line: 318, col: 18, offset: 9736},
+																															run: (*parser).callonSectionTitleInlineElement209,
+																															expr: &seqExpr{
+																																pos: position{line: 318, col: 18, offset: 9736},
+																																exprs: []interface{}{
+																																	&charClassMatcher{
+																																		pos:        position{line: 318, col: 18, offset: 9736},
+																																		val:        "[_\\pL\\pN]",
+																																		chars:      []rune{'_'},
+																																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																																		ignoreCase: false,
+																																		inverted:   false,
+																																	},
+																																	&zeroOrMoreExpr{
+																																		pos: position{line: 318, col: 28, offset: 9746},
+																																		expr: &charClassMatcher{
+																																			pos:        position{line: 318, col: 29, offset: 9747},
+																																			val:        "[-\\pL\\pN]",
+																																			chars:      []rune{'-'},
+																																			classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																																			ignoreCase: false,
+																																			inverted:   false,
 																																		},
 																																	},
 																																},
 																															},
-																															&labeledExpr{
-																																pos:   position{line: 665, col: 57, offset: 21097},
-																																label: "start",
-																																expr: &zeroOrOneExpr{
-																																	pos: position{line: 665, col: 63, offset: 21103},
-																																	expr: &actionExpr{
-																																		pos: position{line: 669, col: 17, offset: 21226},
-																																		run: (*parser).callonSectionTitleElement226,
-																																		expr: &seqExpr{
-																																			pos: position{line: 669, col: 17, offset: 21226},
-																																			exprs: []interface{}{
-																																				&litMatcher{
-																																					pos:        position{line: 669, col: 17, offset: 21226},
-																																					val:        ":",
-																																					ignoreCase: false,
-																																					want:       "\":\"",
-																																				},
-																																				&labeledExpr{
-																																					pos:   position{line: 669, col: 21, offset: 21230},
-																																					label: "start",
-																																					expr: &choiceExpr{
-																																						pos: position{line: 669, col: 28, offset: 21237},
-																																						alternatives: []interface{}{
-																																							&actionExpr{
-																																								pos: position{line: 669, col: 28, offset: 21237},
-																																								run: (*parser).callonSectionTitleElement231,
-																																								expr: &charClassMatcher{
-																																									pos:        position{line: 669, col: 28, offset: 21237},
-																																									val:        "[A-Za-z]",
-																																									ranges:     []rune{'A', 'Z', 'a', 'z'},
-																																									ignoreCase: false,
-																																									inverted:   false,
-																																								},
-																																							},
-																																							&actionExpr{
-																																								pos: position{line: 671, col: 9, offset: 21291},
-																																								run: (*parser).callonSectionTitleElement233,
-																																								expr: &oneOrMoreExpr{
-																																									pos: position{line: 671, col: 9, offset: 21291},
-																																									expr: &charClassMatcher{
-																																										pos:        position{line: 671, col: 9, offset: 21291},
-																																										val:        "[0-9]",
-																																										ranges:     []rune{'0', '9'},
-																																										ignoreCase: false,
-																																										inverted:   false,
-																																									},
-																																								},
+																														},
+																													},
+																													&labeledExpr{
+																														pos:   position{line: 672, col: 57, offset: 21340},
+																														label: "start",
+																														expr: &zeroOrOneExpr{
+																															pos: position{line: 672, col: 63, offset: 21346},
+																															expr: &actionExpr{
+																																pos: position{line: 676, col: 17, offset: 21469},
+																																run: (*parser).callonSectionTitleInlineElement216,
+																																expr: &seqExpr{
+																																	pos: position{line: 676, col: 17, offset: 21469},
+																																	exprs: []interface{}{
+																																		&litMatcher{
+																																			pos:        position{line: 676, col: 17, offset: 21469},
+																																			val:        ":",
+																																			ignoreCase: false,
+																																			want:       "\":\"",
+																																		},
+																																		&labeledExpr{
+																																			pos:   position{line: 676, col: 21, offset: 21473},
+																																			label: "start",
+																																			expr: &choiceExpr{
+																																				pos: position{line: 676, col: 28, offset: 21480},
+																																				alternatives: []interface{}{
+																																					&actionExpr{
+																																						pos: position{line: 676, col: 28, offset: 21480},
+																																						run: (*parser).callonSectionTitleInlineElement221,
+																																						expr: &charClassMatcher{
+																																							pos:        position{line: 676, col: 28, offset: 21480},
+																																							val:        "[A-Za-z]",
+																																							ranges:     []rune{'A', 'Z', 'a', 'z'},
+																																							ignoreCase: false,
+																																							inverted:   false,
+																																						},
+																																					},
+																																					&actionExpr{
+																																						pos: position{line: 678, col: 9, offset: 21534},
+																																						run: (*parser).callonSectionTitleInlineElement223,
+																																						expr: &oneOrMoreExpr{
+																																							pos: position{line: 678, col: 9, offset: 21534},
+																																							expr: &charClassMatcher{
+																																								pos:        position{line: 678, col: 9, offset: 21534},
+																																								val:        "[0-9]",
+																																								ranges:     []rune{'0', '9'},
+																																								ignoreCase: false,
+																																								inverted:   false,
 																																							},
 																																						},
 																																					},
@@ -45008,14 +45090,14 @@ var g = &grammar{
 																																	},
 																																},
 																															},
-																															&litMatcher{
-																																pos:        position{line: 665, col: 79, offset: 21119},
-																																val:        "}",
-																																ignoreCase: false,
-																																want:       "\"}\"",
-																															},
 																														},
 																													},
+																													&litMatcher{
+																														pos:        position{line: 672, col: 79, offset: 21362},
+																														val:        "}",
+																														ignoreCase: false,
+																														want:       "\"}\"",
+																													},
 																												},
 																											},
 																										},
@@ -45023,185 +45105,174 @@ var g = &grammar{
 																								},
 																							},
 																						},
-																						&actionExpr{
-																							pos: position{line: 412, col: 16, offset: 12617},
-																							run: (*parser).callonSectionTitleElement237,
-																							expr: &litMatcher{
-																								pos:        position{line: 412, col: 16, offset: 12617},
-																								val:        "{",
-																								ignoreCase: false,
-																								want:       "\"{\"",
-																							},
-																						},
+																					},
+																				},
+																				&actionExpr{
+																					pos: position{line: 419, col: 16, offset: 12860},
+																					run: (*parser).callonSectionTitleInlineElement227,
+																					expr: &litMatcher{
+																						pos:        position{line: 419, col: 16, offset: 12860},
+																						val:        "{",
+																						ignoreCase: false,
+																						want:       "\"{\"",
 																					},
 																				},
 																			},
 																		},
 																	},
 																},
-																&litMatcher{
-																	pos:        position{line: 418, col: 5, offset: 12803},
-																	val:        "]]",
-																	ignoreCase: false,
-																	want:       "\"]]\"",
-																},
 															},
 														},
-													},
-												},
-												&zeroOrMoreExpr{
-													pos: position{line: 2351, col: 26, offset: 76093},
-													expr: &actionExpr{
-														pos: position{line: 2868, col: 10, offset: 90818},
-														run: (*parser).callonSectionTitleElement241,
-														expr: &charClassMatcher{
-															pos:        position{line: 2868, col: 10, offset: 90818},
-															val:        "[\\t ]",
-															chars:      []rune{'\t', ' '},
+														&litMatcher{
+															pos:        position{line: 425, col: 5, offset: 13046},
+															val:        "]]",
 															ignoreCase: false,
-															inverted:   false,
+															want:       "\"]]\"",
 														},
 													},
 												},
-												&andExpr{
-													pos: position{line: 2351, col: 33, offset: 76100},
-													expr: &choiceExpr{
-														pos: position{line: 2890, col: 8, offset: 91216},
-														alternatives: []interface{}{
-															&actionExpr{
-																pos: position{line: 2877, col: 12, offset: 90989},
-																run: (*parser).callonSectionTitleElement245,
-																expr: &choiceExpr{
-																	pos: position{line: 2877, col: 13, offset: 90990},
-																	alternatives: []interface{}{
-																		&litMatcher{
-																			pos:        position{line: 2877, col: 13, offset: 90990},
-																			val:        "\n",
-																			ignoreCase: false,
-																			want:       "\"\\n\"",
-																		},
-																		&litMatcher{
-																			pos:        position{line: 2877, col: 20, offset: 90997},
-																			val:        "\r\n",
-																			ignoreCase: false,
-																			want:       "\"\\r\\n\"",
-																		},
-																		&litMatcher{
-																			pos:        position{line: 2877, col: 29, offset: 91006},
-																			val:        "\r",
-																			ignoreCase: false,
-																			want:       "\"\\r\"",
-																		},
-																	},
+											},
+										},
+										&zeroOrMoreExpr{
+											pos: position{line: 2366, col: 26, offset: 76561},
+											expr: &actionExpr{
+												pos: position{line: 2883, col: 10, offset: 91286},
+												run: (*parser).callonSectionTitleInlineElement231,
+												expr: &charClassMatcher{
+													pos:        position{line: 2883, col: 10, offset: 91286},
+													val:        "[\\t ]",
+													chars:      []rune{'\t', ' '},
+													ignoreCase: false,
+													inverted:   false,
+												},
+											},
+										},
+										&andExpr{
+											pos: position{line: 2366, col: 33, offset: 76568},
+											expr: &choiceExpr{
+												pos: position{line: 2905, col: 8, offset: 91684},
+												alternatives: []interface{}{
+													&actionExpr{
+														pos: position{line: 2892, col: 12, offset: 91457},
+														run: (*parser).callonSectionTitleInlineElement235,
+														expr: &choiceExpr{
+															pos: position{line: 2892, col: 13, offset: 91458},
+															alternatives: []interface{}{
+																&litMatcher{
+																	pos:        position{line: 2892, col: 13, offset: 91458},
+																	val:        "\n",
+																	ignoreCase: false,
+																	want:       "\"\\n\"",
 																},
-															},
-															&notExpr{
-																pos: position{line: 2887, col: 8, offset: 91166},
-																expr: &anyMatcher{
-																	line: 2887, col: 9, offset: 91167,
+																&litMatcher{
+																	pos:        position{line: 2892, col: 20, offset: 91465},
+																	val:        "\r\n",
+																	ignoreCase: false,
+																	want:       "\"\\r\\n\"",
+																},
+																&litMatcher{
+																	pos:        position{line: 2892, col: 29, offset: 91474},
+																	val:        "\r",
+																	ignoreCase: false,
+																	want:       "\"\\r\"",
 																},
 															},
 														},
 													},
+													&notExpr{
+														pos: position{line: 2902, col: 8, offset: 91634},
+														expr: &anyMatcher{
+															line: 2902, col: 9, offset: 91635,
+														},
+													},
 												},
 											},
 										},
 									},
-									&actionExpr{
-										pos: position{line: 1268, col: 5, offset: 39237},
-										run: (*parser).callonSectionTitleElement252,
-										expr: &seqExpr{
-											pos: position{line: 1268, col: 5, offset: 39237},
-											exprs: []interface{}{
-												&litMatcher{
-													pos:        position{line: 1268, col: 5, offset: 39237},
-													val:        "\\[[",
-													ignoreCase: false,
-													want:       "\"\\\\[[\"",
-												},
-												&labeledExpr{
-													pos:   position{line: 1268, col: 14, offset: 39246},
-													label: "id",
-													expr: &actionExpr{
-														pos: position{line: 2853, col: 7, offset: 90470},
-														run: (*parser).callonSectionTitleElement256,
-														expr: &oneOrMoreExpr{
-															pos: position{line: 2853, col: 7, offset: 90470},
-															expr: &charClassMatcher{
-																pos:        position{line: 2853, col: 7, offset: 90470},
-																val:        "[^[]<>,]",
-																chars:      []rune{'[', ']', '<', '>', ','},
-																ignoreCase: false,
-																inverted:   true,
-															},
-														},
+								},
+							},
+							&actionExpr{
+								pos: position{line: 1275, col: 5, offset: 39480},
+								run: (*parser).callonSectionTitleInlineElement242,
+								expr: &seqExpr{
+									pos: position{line: 1275, col: 5, offset: 39480},
+									exprs: []interface{}{
+										&litMatcher{
+											pos:        position{line: 1275, col: 5, offset: 39480},
+											val:        "\\[[",
+											ignoreCase: false,
+											want:       "\"\\\\[[\"",
+										},
+										&labeledExpr{
+											pos:   position{line: 1275, col: 14, offset: 39489},
+											label: "id",
+											expr: &actionExpr{
+												pos: position{line: 2868, col: 7, offset: 90938},
+												run: (*parser).callonSectionTitleInlineElement246,
+												expr: &oneOrMoreExpr{
+													pos: position{line: 2868, col: 7, offset: 90938},
+													expr: &charClassMatcher{
+														pos:        position{line: 2868, col: 7, offset: 90938},
+														val:        "[^[]<>,]",
+														chars:      []rune{'[', ']', '<', '>', ','},
+														ignoreCase: false,
+														inverted:   true,
 													},
 												},
-												&litMatcher{
-													pos:        position{line: 1268, col: 22, offset: 39254},
-													val:        "]]",
-													ignoreCase: false,
-													want:       "\"]]\"",
-												},
 											},
 										},
+										&litMatcher{
+											pos:        position{line: 1275, col: 22, offset: 39497},
+											val:        "]]",
+											ignoreCase: false,
+											want:       "\"]]\"",
+										},
 									},
-									&actionExpr{
-										pos: position{line: 1273, col: 5, offset: 39373},
-										run: (*parser).callonSectionTitleElement260,
-										expr: &seqExpr{
-											pos: position{line: 1273, col: 5, offset: 39373},
-											exprs: []interface{}{
-												&litMatcher{
-													pos:        position{line: 1273, col: 5, offset: 39373},
-													val:        "[[",
-													ignoreCase: false,
-													want:       "\"[[\"",
-												},
-												&labeledExpr{
-													pos:   position{line: 1273, col: 10, offset: 39378},
-													label: "id",
-													expr: &actionExpr{
-														pos: position{line: 2853, col: 7, offset: 90470},
-														run: (*parser).callonSectionTitleElement264,
-														expr: &oneOrMoreExpr{
-															pos: position{line: 2853, col: 7, offset: 90470},
-															expr: &charClassMatcher{
-																pos:        position{line: 2853, col: 7, offset: 90470},
-																val:        "[^[]<>,]",
-																chars:      []rune{'[', ']', '<', '>', ','},
-																ignoreCase: false,
-																inverted:   true,
-															},
-														},
+								},
+							},
+							&actionExpr{
+								pos: position{line: 1280, col: 5, offset: 39616},
+								run: (*parser).callonSectionTitleInlineElement250,
+								expr: &seqExpr{
+									pos: position{line: 1280, col: 5, offset: 39616},
+									exprs: []interface{}{
+										&litMatcher{
+											pos:        position{line: 1280, col: 5, offset: 39616},
+											val:        "[[",
+											ignoreCase: false,
+											want:       "\"[[\"",
+										},
+										&labeledExpr{
+											pos:   position{line: 1280, col: 10, offset: 39621},
+											label: "id",
+											expr: &actionExpr{
+												pos: position{line: 2868, col: 7, offset: 90938},
+												run: (*parser).callonSectionTitleInlineElement254,
+												expr: &oneOrMoreExpr{
+													pos: position{line: 2868, col: 7, offset: 90938},
+													expr: &charClassMatcher{
+														pos:        position{line: 2868, col: 7, offset: 90938},
+														val:        "[^[]<>,]",
+														chars:      []rune{'[', ']', '<', '>', ','},
+														ignoreCase: false,
+														inverted:   true,
 													},
 												},
-												&litMatcher{
-													pos:        position{line: 1273, col: 18, offset: 39386},
-													val:        "]]",
-													ignoreCase: false,
-													want:       "\"]]\"",
-												},
 											},
 										},
-									},
-									&ruleRefExpr{
-										pos:  position{line: 2340, col: 11, offset: 75818},
-										name: "InlineFootnote",
-									},
-									&actionExpr{
-										pos: position{line: 2807, col: 12, offset: 89126},
-										run: (*parser).callonSectionTitleElement269,
-										expr: &charClassMatcher{
-											pos:        position{line: 2807, col: 12, offset: 89126},
-											val:        "[^\\r\\n]",
-											chars:      []rune{'\r', '\n'},
+										&litMatcher{
+											pos:        position{line: 1280, col: 18, offset: 39629},
+											val:        "]]",
 											ignoreCase: false,
-											inverted:   true,
+											want:       "\"]]\"",
 										},
 									},
 								},
 							},
+							&ruleRefExpr{
+								pos:  position{line: 2357, col: 11, offset: 76326},
+								name: "InlineFootnote",
+							},
 						},
 					},
 				},
@@ -45209,52 +45280,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2361, col: 1, offset: 76362},
+			pos:  position{line: 2376, col: 1, offset: 76830},
 			expr: &actionExpr{
-				pos: position{line: 2362, col: 5, offset: 76449},
+				pos: position{line: 2377, col: 5, offset: 76917},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2362, col: 5, offset: 76449},
+					pos: position{line: 2377, col: 5, offset: 76917},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2362, col: 5, offset: 76449},
+							pos:   position{line: 2377, col: 5, offset: 76917},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2362, col: 14, offset: 76458},
+								pos: position{line: 2377, col: 14, offset: 76926},
 								expr: &actionExpr{
-									pos: position{line: 2364, col: 9, offset: 76484},
+									pos: position{line: 2379, col: 9, offset: 76952},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2364, col: 9, offset: 76484},
+										pos: position{line: 2379, col: 9, offset: 76952},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2885, col: 11, offset: 91152},
+												pos: position{line: 2900, col: 11, offset: 91620},
 												expr: &anyMatcher{
-													line: 2885, col: 13, offset: 91154,
+													line: 2900, col: 13, offset: 91622,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2365, col: 9, offset: 76499},
+												pos:   position{line: 2380, col: 9, offset: 76967},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2366, col: 13, offset: 76521},
+													pos: position{line: 2381, col: 13, offset: 76989},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2767, col: 5, offset: 88060},
+															pos: position{line: 2782, col: 5, offset: 88528},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2767, col: 5, offset: 88060},
+																pos: position{line: 2782, col: 5, offset: 88528},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2767, col: 5, offset: 88060},
+																		pos:   position{line: 2782, col: 5, offset: 88528},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2767, col: 11, offset: 88066},
+																			pos: position{line: 2782, col: 11, offset: 88534},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2767, col: 11, offset: 88066},
+																				pos: position{line: 2782, col: 11, offset: 88534},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2767, col: 11, offset: 88066},
+																					pos:        position{line: 2782, col: 11, offset: 88534},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45264,36 +45335,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2770, col: 5, offset: 88124},
+																		pos: position{line: 2785, col: 5, offset: 88592},
 																		expr: &seqExpr{
-																			pos: position{line: 2771, col: 9, offset: 88135},
+																			pos: position{line: 2786, col: 9, offset: 88603},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2771, col: 9, offset: 88135},
+																					pos:        position{line: 2786, col: 9, offset: 88603},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2772, col: 9, offset: 88184},
+																					pos: position{line: 2787, col: 9, offset: 88652},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2776, col: 5, offset: 88264},
+																		pos: position{line: 2791, col: 5, offset: 88732},
 																		expr: &seqExpr{
-																			pos: position{line: 2777, col: 9, offset: 88275},
+																			pos: position{line: 2792, col: 9, offset: 88743},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2777, col: 9, offset: 88275},
+																					pos:        position{line: 2792, col: 9, offset: 88743},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2777, col: 13, offset: 88279},
+																					pos:        position{line: 2792, col: 13, offset: 88747},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45306,12 +45377,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2872, col: 11, offset: 90879},
+															pos: position{line: 2887, col: 11, offset: 91347},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2872, col: 11, offset: 90879},
+																pos: position{line: 2887, col: 11, offset: 91347},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2872, col: 11, offset: 90879},
+																	pos:        position{line: 2887, col: 11, offset: 91347},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45320,25 +45391,25 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2368, col: 15, offset: 76567},
+															pos:  position{line: 2383, col: 15, offset: 77035},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2496, col: 5, offset: 80478},
+															pos: position{line: 2511, col: 5, offset: 80946},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2496, col: 5, offset: 80478},
+																pos: position{line: 2511, col: 5, offset: 80946},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2496, col: 5, offset: 80478},
+																		pos:        position{line: 2511, col: 5, offset: 80946},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2496, col: 10, offset: 80483},
+																		pos: position{line: 2511, col: 10, offset: 80951},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2496, col: 11, offset: 80484},
+																			pos:        position{line: 2511, col: 11, offset: 80952},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45349,29 +45420,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2502, col: 5, offset: 80676},
+															pos: position{line: 2517, col: 5, offset: 81144},
 															run: (*parser).callonNormalGroup34,
 															expr: &seqExpr{
-																pos: position{line: 2502, col: 5, offset: 80676},
+																pos: position{line: 2517, col: 5, offset: 81144},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2502, col: 5, offset: 80676},
+																		pos: position{line: 2517, col: 5, offset: 81144},
 																		run: (*parser).callonNormalGroup36,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2505, col: 5, offset: 80747},
+																		pos: position{line: 2520, col: 5, offset: 81215},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2509, col: 5, offset: 80872},
+																		pos:        position{line: 2524, col: 5, offset: 81340},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2509, col: 9, offset: 80876},
+																		pos: position{line: 2524, col: 9, offset: 81344},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2509, col: 10, offset: 80877},
+																			pos:        position{line: 2524, col: 10, offset: 81345},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45382,27 +45453,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2785, col: 5, offset: 88472},
+															pos: position{line: 2800, col: 5, offset: 88940},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2786, col: 9, offset: 88482},
+																pos: position{line: 2801, col: 9, offset: 88950},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2786, col: 10, offset: 88483},
+																		pos:        position{line: 2801, col: 10, offset: 88951},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2788, col: 13, offset: 88580},
+																		pos: position{line: 2803, col: 13, offset: 89048},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2788, col: 13, offset: 88580},
+																				pos: position{line: 2803, col: 13, offset: 89048},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2791, col: 13, offset: 88680},
+																				pos:        position{line: 2806, col: 13, offset: 89148},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45410,20 +45481,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2791, col: 19, offset: 88686},
+																		pos:        position{line: 2806, col: 19, offset: 89154},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2794, col: 13, offset: 88724},
+																		pos: position{line: 2809, col: 13, offset: 89192},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2794, col: 13, offset: 88724},
+																				pos: position{line: 2809, col: 13, offset: 89192},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2797, col: 14, offset: 88817},
+																				pos:        position{line: 2812, col: 14, offset: 89285},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45432,18 +45503,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2799, col: 12, offset: 88861},
+																		pos: position{line: 2814, col: 12, offset: 89329},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2799, col: 12, offset: 88861},
+																				pos:        position{line: 2814, col: 12, offset: 89329},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2799, col: 16, offset: 88865},
+																				pos: position{line: 2814, col: 16, offset: 89333},
 																				expr: &litMatcher{
-																					pos:        position{line: 2799, col: 17, offset: 88866},
+																					pos:        position{line: 2814, col: 17, offset: 89334},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45455,25 +45526,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2877, col: 12, offset: 90989},
+															pos: position{line: 2892, col: 12, offset: 91457},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2877, col: 13, offset: 90990},
+																pos: position{line: 2892, col: 13, offset: 91458},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 13, offset: 90990},
+																		pos:        position{line: 2892, col: 13, offset: 91458},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 20, offset: 90997},
+																		pos:        position{line: 2892, col: 20, offset: 91465},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2877, col: 29, offset: 91006},
+																		pos:        position{line: 2892, col: 29, offset: 91474},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45482,35 +45553,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 639, col: 5, offset: 20212},
+															pos: position{line: 646, col: 5, offset: 20455},
 															run: (*parser).callonNormalGroup60,
 															expr: &seqExpr{
-																pos: position{line: 639, col: 5, offset: 20212},
+																pos: position{line: 646, col: 5, offset: 20455},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 639, col: 5, offset: 20212},
+																		pos: position{line: 646, col: 5, offset: 20455},
 																		run: (*parser).callonNormalGroup62,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 642, col: 5, offset: 20284},
+																		pos:   position{line: 649, col: 5, offset: 20527},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 642, col: 14, offset: 20293},
+																			pos: position{line: 649, col: 14, offset: 20536},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 648, col: 5, offset: 20422},
+																					pos: position{line: 655, col: 5, offset: 20665},
 																					run: (*parser).callonNormalGroup65,
 																					expr: &seqExpr{
-																						pos: position{line: 648, col: 5, offset: 20422},
+																						pos: position{line: 655, col: 5, offset: 20665},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 648, col: 5, offset: 20422},
+																								pos:        position{line: 655, col: 5, offset: 20665},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 648, col: 13, offset: 20430},
+																								pos:   position{line: 655, col: 13, offset: 20673},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -45542,7 +45613,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 648, col: 32, offset: 20449},
+																								pos:        position{line: 655, col: 32, offset: 20692},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45551,19 +45622,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 655, col: 5, offset: 20690},
+																					pos: position{line: 662, col: 5, offset: 20933},
 																					run: (*parser).callonNormalGroup75,
 																					expr: &seqExpr{
-																						pos: position{line: 655, col: 5, offset: 20690},
+																						pos: position{line: 662, col: 5, offset: 20933},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 655, col: 5, offset: 20690},
+																								pos:        position{line: 662, col: 5, offset: 20933},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 655, col: 9, offset: 20694},
+																								pos:   position{line: 662, col: 9, offset: 20937},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -45595,7 +45666,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 655, col: 28, offset: 20713},
+																								pos:        position{line: 662, col: 28, offset: 20956},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45604,19 +45675,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 661, col: 25, offset: 20894},
+																					pos: position{line: 668, col: 25, offset: 21137},
 																					run: (*parser).callonNormalGroup85,
 																					expr: &seqExpr{
-																						pos: position{line: 661, col: 25, offset: 20894},
+																						pos: position{line: 668, col: 25, offset: 21137},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 661, col: 25, offset: 20894},
+																								pos:        position{line: 668, col: 25, offset: 21137},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 661, col: 37, offset: 20906},
+																								pos:   position{line: 668, col: 37, offset: 21149},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -45648,33 +45719,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 661, col: 56, offset: 20925},
+																								pos:   position{line: 668, col: 56, offset: 21168},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 661, col: 62, offset: 20931},
+																									pos: position{line: 668, col: 62, offset: 21174},
 																									expr: &actionExpr{
-																										pos: position{line: 669, col: 17, offset: 21226},
+																										pos: position{line: 676, col: 17, offset: 21469},
 																										run: (*parser).callonNormalGroup96,
 																										expr: &seqExpr{
-																											pos: position{line: 669, col: 17, offset: 21226},
+																											pos: position{line: 676, col: 17, offset: 21469},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 669, col: 17, offset: 21226},
+																													pos:        position{line: 676, col: 17, offset: 21469},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 669, col: 21, offset: 21230},
+																													pos:   position{line: 676, col: 21, offset: 21473},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 669, col: 28, offset: 21237},
+																														pos: position{line: 676, col: 28, offset: 21480},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 669, col: 28, offset: 21237},
+																																pos: position{line: 676, col: 28, offset: 21480},
 																																run: (*parser).callonNormalGroup101,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 669, col: 28, offset: 21237},
+																																	pos:        position{line: 676, col: 28, offset: 21480},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -45682,12 +45753,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 671, col: 9, offset: 21291},
+																																pos: position{line: 678, col: 9, offset: 21534},
 																																run: (*parser).callonNormalGroup103,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 671, col: 9, offset: 21291},
+																																	pos: position{line: 678, col: 9, offset: 21534},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 671, col: 9, offset: 21291},
+																																		pos:        position{line: 678, col: 9, offset: 21534},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -45704,7 +45775,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 661, col: 78, offset: 20947},
+																								pos:        position{line: 668, col: 78, offset: 21190},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45713,19 +45784,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 665, col: 25, offset: 21065},
+																					pos: position{line: 672, col: 25, offset: 21308},
 																					run: (*parser).callonNormalGroup107,
 																					expr: &seqExpr{
-																						pos: position{line: 665, col: 25, offset: 21065},
+																						pos: position{line: 672, col: 25, offset: 21308},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 665, col: 25, offset: 21065},
+																								pos:        position{line: 672, col: 25, offset: 21308},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 38, offset: 21078},
+																								pos:   position{line: 672, col: 38, offset: 21321},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -45757,33 +45828,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 665, col: 57, offset: 21097},
+																								pos:   position{line: 672, col: 57, offset: 21340},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 665, col: 63, offset: 21103},
+																									pos: position{line: 672, col: 63, offset: 21346},
 																									expr: &actionExpr{
-																										pos: position{line: 669, col: 17, offset: 21226},
+																										pos: position{line: 676, col: 17, offset: 21469},
 																										run: (*parser).callonNormalGroup118,
 																										expr: &seqExpr{
-																											pos: position{line: 669, col: 17, offset: 21226},
+																											pos: position{line: 676, col: 17, offset: 21469},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 669, col: 17, offset: 21226},
+																													pos:        position{line: 676, col: 17, offset: 21469},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 669, col: 21, offset: 21230},
+																													pos:   position{line: 676, col: 21, offset: 21473},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 669, col: 28, offset: 21237},
+																														pos: position{line: 676, col: 28, offset: 21480},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 669, col: 28, offset: 21237},
+																																pos: position{line: 676, col: 28, offset: 21480},
 																																run: (*parser).callonNormalGroup123,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 669, col: 28, offset: 21237},
+																																	pos:        position{line: 676, col: 28, offset: 21480},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -45791,12 +45862,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 671, col: 9, offset: 21291},
+																																pos: position{line: 678, col: 9, offset: 21534},
 																																run: (*parser).callonNormalGroup125,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 671, col: 9, offset: 21291},
+																																	pos: position{line: 678, col: 9, offset: 21534},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 671, col: 9, offset: 21291},
+																																		pos:        position{line: 678, col: 9, offset: 21534},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -45813,7 +45884,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 665, col: 79, offset: 21119},
+																								pos:        position{line: 672, col: 79, offset: 21362},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -45828,35 +45899,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2373, col: 15, offset: 76734},
+															pos:  position{line: 2388, col: 15, offset: 77202},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2374, col: 15, offset: 76754},
+															pos:  position{line: 2389, col: 15, offset: 77222},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2375, col: 15, offset: 76843},
+															pos:  position{line: 2390, col: 15, offset: 77311},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2465, col: 5, offset: 79307},
+															pos: position{line: 2480, col: 5, offset: 79775},
 															run: (*parser).callonNormalGroup132,
 															expr: &seqExpr{
-																pos: position{line: 2465, col: 5, offset: 79307},
+																pos: position{line: 2480, col: 5, offset: 79775},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2465, col: 5, offset: 79307},
+																		pos: position{line: 2480, col: 5, offset: 79775},
 																		run: (*parser).callonNormalGroup134,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2468, col: 5, offset: 79383},
+																		pos:   position{line: 2483, col: 5, offset: 79851},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2469, col: 9, offset: 79401},
+																			pos: position{line: 2484, col: 9, offset: 79869},
 																			run: (*parser).callonNormalGroup136,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2469, col: 10, offset: 79402},
+																				pos:        position{line: 2484, col: 10, offset: 79870},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -45868,32 +45939,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1221, col: 5, offset: 37923},
+															pos: position{line: 1228, col: 5, offset: 38166},
 															run: (*parser).callonNormalGroup138,
 															expr: &seqExpr{
-																pos: position{line: 1221, col: 5, offset: 37923},
+																pos: position{line: 1228, col: 5, offset: 38166},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1221, col: 5, offset: 37923},
+																		pos: position{line: 1228, col: 5, offset: 38166},
 																		run: (*parser).callonNormalGroup140,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1224, col: 5, offset: 37999},
+																		pos:        position{line: 1231, col: 5, offset: 38242},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1225, col: 5, offset: 38007},
+																		pos: position{line: 1232, col: 5, offset: 38250},
 																		run: (*parser).callonNormalGroup142,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1229, col: 5, offset: 38094},
+																		pos: position{line: 1236, col: 5, offset: 38337},
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 10, offset: 90818},
+																			pos: position{line: 2883, col: 10, offset: 91286},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 10, offset: 90818},
+																				pos:        position{line: 2883, col: 10, offset: 91286},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45902,30 +45973,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1229, col: 12, offset: 38101},
+																		pos: position{line: 1236, col: 12, offset: 38344},
 																		expr: &choiceExpr{
-																			pos: position{line: 2890, col: 8, offset: 91216},
+																			pos: position{line: 2905, col: 8, offset: 91684},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2877, col: 12, offset: 90989},
+																					pos: position{line: 2892, col: 12, offset: 91457},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2877, col: 13, offset: 90990},
+																						pos: position{line: 2892, col: 13, offset: 91458},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 13, offset: 90990},
+																								pos:        position{line: 2892, col: 13, offset: 91458},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 20, offset: 90997},
+																								pos:        position{line: 2892, col: 20, offset: 91465},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 29, offset: 91006},
+																								pos:        position{line: 2892, col: 29, offset: 91474},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -45934,9 +46005,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2887, col: 8, offset: 91166},
+																					pos: position{line: 2902, col: 8, offset: 91634},
 																					expr: &anyMatcher{
-																						line: 2887, col: 9, offset: 91167,
+																						line: 2902, col: 9, offset: 91635,
 																					},
 																				},
 																			},
@@ -45946,31 +46017,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2378, col: 15, offset: 77025},
+															pos:  position{line: 2393, col: 15, offset: 77493},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1213, col: 23, offset: 37477},
+															pos: position{line: 1220, col: 23, offset: 37720},
 															run: (*parser).callonNormalGroup156,
 															expr: &seqExpr{
-																pos: position{line: 1213, col: 23, offset: 37477},
+																pos: position{line: 1220, col: 23, offset: 37720},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1211, col: 32, offset: 37445},
+																		pos:        position{line: 1218, col: 32, offset: 37688},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1213, col: 51, offset: 37505},
+																		pos:   position{line: 1220, col: 51, offset: 37748},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1213, col: 56, offset: 37510},
+																			pos: position{line: 1220, col: 56, offset: 37753},
 																			run: (*parser).callonNormalGroup160,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1213, col: 56, offset: 37510},
+																				pos: position{line: 1220, col: 56, offset: 37753},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1213, col: 56, offset: 37510},
+																					pos:        position{line: 1220, col: 56, offset: 37753},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -45980,7 +46051,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1211, col: 32, offset: 37445},
+																		pos:        position{line: 1218, col: 32, offset: 37688},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -45989,10 +46060,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2807, col: 12, offset: 89126},
+															pos: position{line: 2822, col: 12, offset: 89594},
 															run: (*parser).callonNormalGroup164,
 															expr: &charClassMatcher{
-																pos:        position{line: 2807, col: 12, offset: 89126},
+																pos:        position{line: 2822, col: 12, offset: 89594},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -46008,9 +46079,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2887, col: 8, offset: 91166},
+							pos: position{line: 2902, col: 8, offset: 91634},
 							expr: &anyMatcher{
-								line: 2887, col: 9, offset: 91167,
+								line: 2902, col: 9, offset: 91635,
 							},
 						},
 					},
@@ -46019,28 +46090,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2389, col: 1, offset: 77463},
+			pos:  position{line: 2404, col: 1, offset: 77931},
 			expr: &actionExpr{
-				pos: position{line: 2390, col: 5, offset: 77496},
+				pos: position{line: 2405, col: 5, offset: 77964},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2390, col: 5, offset: 77496},
+					pos: position{line: 2405, col: 5, offset: 77964},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2390, col: 5, offset: 77496},
+							pos:   position{line: 2405, col: 5, offset: 77964},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2390, col: 14, offset: 77505},
+								pos: position{line: 2405, col: 14, offset: 77973},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2390, col: 15, offset: 77506},
+									pos:  position{line: 2405, col: 15, offset: 77974},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2887, col: 8, offset: 91166},
+							pos: position{line: 2902, col: 8, offset: 91634},
 							expr: &anyMatcher{
-								line: 2887, col: 9, offset: 91167,
+								line: 2902, col: 9, offset: 91635,
 							},
 						},
 					},
@@ -46049,41 +46120,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2394, col: 1, offset: 77603},
+			pos:  position{line: 2409, col: 1, offset: 78071},
 			expr: &actionExpr{
-				pos: position{line: 2395, col: 5, offset: 77643},
+				pos: position{line: 2410, col: 5, offset: 78111},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2395, col: 5, offset: 77643},
+					pos: position{line: 2410, col: 5, offset: 78111},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2885, col: 11, offset: 91152},
+							pos: position{line: 2900, col: 11, offset: 91620},
 							expr: &anyMatcher{
-								line: 2885, col: 13, offset: 91154,
+								line: 2900, col: 13, offset: 91622,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2396, col: 5, offset: 77654},
+							pos:   position{line: 2411, col: 5, offset: 78122},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2397, col: 9, offset: 77672},
+								pos: position{line: 2412, col: 9, offset: 78140},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2767, col: 5, offset: 88060},
+										pos: position{line: 2782, col: 5, offset: 88528},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2767, col: 5, offset: 88060},
+											pos: position{line: 2782, col: 5, offset: 88528},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2767, col: 5, offset: 88060},
+													pos:   position{line: 2782, col: 5, offset: 88528},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2767, col: 11, offset: 88066},
+														pos: position{line: 2782, col: 11, offset: 88534},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2767, col: 11, offset: 88066},
+															pos: position{line: 2782, col: 11, offset: 88534},
 															expr: &charClassMatcher{
-																pos:        position{line: 2767, col: 11, offset: 88066},
+																pos:        position{line: 2782, col: 11, offset: 88534},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46093,36 +46164,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2770, col: 5, offset: 88124},
+													pos: position{line: 2785, col: 5, offset: 88592},
 													expr: &seqExpr{
-														pos: position{line: 2771, col: 9, offset: 88135},
+														pos: position{line: 2786, col: 9, offset: 88603},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2771, col: 9, offset: 88135},
+																pos:        position{line: 2786, col: 9, offset: 88603},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2772, col: 9, offset: 88184},
+																pos: position{line: 2787, col: 9, offset: 88652},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2776, col: 5, offset: 88264},
+													pos: position{line: 2791, col: 5, offset: 88732},
 													expr: &seqExpr{
-														pos: position{line: 2777, col: 9, offset: 88275},
+														pos: position{line: 2792, col: 9, offset: 88743},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2777, col: 9, offset: 88275},
+																pos:        position{line: 2792, col: 9, offset: 88743},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2777, col: 13, offset: 88279},
+																pos:        position{line: 2792, col: 13, offset: 88747},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46135,10 +46206,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2868, col: 10, offset: 90818},
+										pos: position{line: 2883, col: 10, offset: 91286},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2868, col: 10, offset: 90818},
+											pos:        position{line: 2883, col: 10, offset: 91286},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -46146,31 +46217,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2399, col: 11, offset: 77710},
+										pos:  position{line: 2414, col: 11, offset: 78178},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2785, col: 5, offset: 88472},
+										pos: position{line: 2800, col: 5, offset: 88940},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2786, col: 9, offset: 88482},
+											pos: position{line: 2801, col: 9, offset: 88950},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2786, col: 10, offset: 88483},
+													pos:        position{line: 2801, col: 10, offset: 88951},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2788, col: 13, offset: 88580},
+													pos: position{line: 2803, col: 13, offset: 89048},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2788, col: 13, offset: 88580},
+															pos: position{line: 2803, col: 13, offset: 89048},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2791, col: 13, offset: 88680},
+															pos:        position{line: 2806, col: 13, offset: 89148},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46178,20 +46249,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2791, col: 19, offset: 88686},
+													pos:        position{line: 2806, col: 19, offset: 89154},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2794, col: 13, offset: 88724},
+													pos: position{line: 2809, col: 13, offset: 89192},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2794, col: 13, offset: 88724},
+															pos: position{line: 2809, col: 13, offset: 89192},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2797, col: 14, offset: 88817},
+															pos:        position{line: 2812, col: 14, offset: 89285},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46200,18 +46271,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2799, col: 12, offset: 88861},
+													pos: position{line: 2814, col: 12, offset: 89329},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2799, col: 12, offset: 88861},
+															pos:        position{line: 2814, col: 12, offset: 89329},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2799, col: 16, offset: 88865},
+															pos: position{line: 2814, col: 16, offset: 89333},
 															expr: &litMatcher{
-																pos:        position{line: 2799, col: 17, offset: 88866},
+																pos:        position{line: 2814, col: 17, offset: 89334},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46223,31 +46294,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2401, col: 11, offset: 77783},
+										pos:  position{line: 2416, col: 11, offset: 78251},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2402, col: 11, offset: 77799},
+										pos:  position{line: 2417, col: 11, offset: 78267},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2465, col: 5, offset: 79307},
+										pos: position{line: 2480, col: 5, offset: 79775},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2465, col: 5, offset: 79307},
+											pos: position{line: 2480, col: 5, offset: 79775},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2465, col: 5, offset: 79307},
+													pos: position{line: 2480, col: 5, offset: 79775},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2468, col: 5, offset: 79383},
+													pos:   position{line: 2483, col: 5, offset: 79851},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2469, col: 9, offset: 79401},
+														pos: position{line: 2484, col: 9, offset: 79869},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2469, col: 10, offset: 79402},
+															pos:        position{line: 2484, col: 10, offset: 79870},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46259,27 +46330,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1213, col: 23, offset: 37477},
+										pos: position{line: 1220, col: 23, offset: 37720},
 										run: (*parser).callonAttributeStructuredValueElement46,
 										expr: &seqExpr{
-											pos: position{line: 1213, col: 23, offset: 37477},
+											pos: position{line: 1220, col: 23, offset: 37720},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1211, col: 32, offset: 37445},
+													pos:        position{line: 1218, col: 32, offset: 37688},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1213, col: 51, offset: 37505},
+													pos:   position{line: 1220, col: 51, offset: 37748},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1213, col: 56, offset: 37510},
+														pos: position{line: 1220, col: 56, offset: 37753},
 														run: (*parser).callonAttributeStructuredValueElement50,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1213, col: 56, offset: 37510},
+															pos: position{line: 1220, col: 56, offset: 37753},
 															expr: &charClassMatcher{
-																pos:        position{line: 1213, col: 56, offset: 37510},
+																pos:        position{line: 1220, col: 56, offset: 37753},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -46289,7 +46360,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1211, col: 32, offset: 37445},
+													pos:        position{line: 1218, col: 32, offset: 37688},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -46298,25 +46369,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2877, col: 12, offset: 90989},
+										pos: position{line: 2892, col: 12, offset: 91457},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2877, col: 13, offset: 90990},
+											pos: position{line: 2892, col: 13, offset: 91458},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2877, col: 13, offset: 90990},
+													pos:        position{line: 2892, col: 13, offset: 91458},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2877, col: 20, offset: 90997},
+													pos:        position{line: 2892, col: 20, offset: 91465},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2877, col: 29, offset: 91006},
+													pos:        position{line: 2892, col: 29, offset: 91474},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46325,10 +46396,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2807, col: 12, offset: 89126},
+										pos: position{line: 2822, col: 12, offset: 89594},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2807, col: 12, offset: 89126},
+											pos:        position{line: 2822, col: 12, offset: 89594},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46344,73 +46415,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2413, col: 1, offset: 78069},
+			pos:  position{line: 2428, col: 1, offset: 78537},
 			expr: &actionExpr{
-				pos: position{line: 2415, col: 5, offset: 78151},
+				pos: position{line: 2430, col: 5, offset: 78619},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2415, col: 5, offset: 78151},
+					pos: position{line: 2430, col: 5, offset: 78619},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2415, col: 5, offset: 78151},
+							pos: position{line: 2430, col: 5, offset: 78619},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2418, col: 5, offset: 78216},
+							pos:   position{line: 2433, col: 5, offset: 78684},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2419, col: 9, offset: 78234},
+								pos: position{line: 2434, col: 9, offset: 78702},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2419, col: 9, offset: 78234},
+										pos:  position{line: 2434, col: 9, offset: 78702},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2420, col: 11, offset: 78255},
+										pos:  position{line: 2435, col: 11, offset: 78723},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2421, col: 11, offset: 78278},
+										pos:  position{line: 2436, col: 11, offset: 78746},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2422, col: 11, offset: 78294},
+										pos:  position{line: 2437, col: 11, offset: 78762},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2423, col: 11, offset: 78323},
+										pos:  position{line: 2438, col: 11, offset: 78791},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2424, col: 11, offset: 78349},
+										pos:  position{line: 2439, col: 11, offset: 78817},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2425, col: 11, offset: 78375},
+										pos:  position{line: 2440, col: 11, offset: 78843},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1268, col: 5, offset: 39237},
+										pos: position{line: 1275, col: 5, offset: 39480},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1268, col: 5, offset: 39237},
+											pos: position{line: 1275, col: 5, offset: 39480},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1268, col: 5, offset: 39237},
+													pos:        position{line: 1275, col: 5, offset: 39480},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1268, col: 14, offset: 39246},
+													pos:   position{line: 1275, col: 14, offset: 39489},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2853, col: 7, offset: 90470},
+														pos: position{line: 2868, col: 7, offset: 90938},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2853, col: 7, offset: 90470},
+															pos: position{line: 2868, col: 7, offset: 90938},
 															expr: &charClassMatcher{
-																pos:        position{line: 2853, col: 7, offset: 90470},
+																pos:        position{line: 2868, col: 7, offset: 90938},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46420,7 +46491,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1268, col: 22, offset: 39254},
+													pos:        position{line: 1275, col: 22, offset: 39497},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46429,27 +46500,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1273, col: 5, offset: 39373},
+										pos: position{line: 1280, col: 5, offset: 39616},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1273, col: 5, offset: 39373},
+											pos: position{line: 1280, col: 5, offset: 39616},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1273, col: 5, offset: 39373},
+													pos:        position{line: 1280, col: 5, offset: 39616},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1273, col: 10, offset: 39378},
+													pos:   position{line: 1280, col: 10, offset: 39621},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2853, col: 7, offset: 90470},
+														pos: position{line: 2868, col: 7, offset: 90938},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2853, col: 7, offset: 90470},
+															pos: position{line: 2868, col: 7, offset: 90938},
 															expr: &charClassMatcher{
-																pos:        position{line: 2853, col: 7, offset: 90470},
+																pos:        position{line: 2868, col: 7, offset: 90938},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46459,7 +46530,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1273, col: 18, offset: 39386},
+													pos:        position{line: 1280, col: 18, offset: 39629},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46468,40 +46539,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1312, col: 23, offset: 40862},
+										pos: position{line: 1319, col: 23, offset: 41105},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1312, col: 23, offset: 40862},
+											pos: position{line: 1319, col: 23, offset: 41105},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1312, col: 23, offset: 40862},
+													pos:        position{line: 1319, col: 23, offset: 41105},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1312, col: 29, offset: 40868},
+													pos:   position{line: 1319, col: 29, offset: 41111},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1319, col: 30, offset: 41199},
+														pos: position{line: 1326, col: 30, offset: 41442},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1319, col: 30, offset: 41199},
+															pos: position{line: 1326, col: 30, offset: 41442},
 															expr: &choiceExpr{
-																pos: position{line: 1319, col: 31, offset: 41200},
+																pos: position{line: 1326, col: 31, offset: 41443},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2758, col: 13, offset: 87913},
+																		pos:        position{line: 2773, col: 13, offset: 88381},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2868, col: 10, offset: 90818},
+																		pos: position{line: 2883, col: 10, offset: 91286},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90818},
+																			pos:        position{line: 2883, col: 10, offset: 91286},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46514,23 +46585,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1313, col: 5, offset: 40907},
+													pos:   position{line: 1320, col: 5, offset: 41150},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1313, col: 11, offset: 40913},
+														pos: position{line: 1320, col: 11, offset: 41156},
 														expr: &actionExpr{
-															pos: position{line: 1313, col: 12, offset: 40914},
+															pos: position{line: 1320, col: 12, offset: 41157},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1313, col: 12, offset: 40914},
+																pos: position{line: 1320, col: 12, offset: 41157},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1313, col: 12, offset: 40914},
+																		pos: position{line: 1320, col: 12, offset: 41157},
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 10, offset: 90818},
+																			pos: position{line: 2883, col: 10, offset: 91286},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 10, offset: 90818},
+																				pos:        position{line: 2883, col: 10, offset: 91286},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46539,18 +46610,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1313, col: 19, offset: 40921},
+																		pos:        position{line: 1320, col: 19, offset: 41164},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1313, col: 23, offset: 40925},
+																		pos: position{line: 1320, col: 23, offset: 41168},
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 10, offset: 90818},
+																			pos: position{line: 2883, col: 10, offset: 91286},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 10, offset: 90818},
+																				pos:        position{line: 2883, col: 10, offset: 91286},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46559,28 +46630,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1313, col: 30, offset: 40932},
+																		pos:   position{line: 1320, col: 30, offset: 41175},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1319, col: 30, offset: 41199},
+																			pos: position{line: 1326, col: 30, offset: 41442},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1319, col: 30, offset: 41199},
+																				pos: position{line: 1326, col: 30, offset: 41442},
 																				expr: &choiceExpr{
-																					pos: position{line: 1319, col: 31, offset: 41200},
+																					pos: position{line: 1326, col: 31, offset: 41443},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2758, col: 13, offset: 87913},
+																							pos:        position{line: 2773, col: 13, offset: 88381},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2868, col: 10, offset: 90818},
+																							pos: position{line: 2883, col: 10, offset: 91286},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 10, offset: 90818},
+																								pos:        position{line: 2883, col: 10, offset: 91286},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46598,23 +46669,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1314, col: 5, offset: 40999},
+													pos:   position{line: 1321, col: 5, offset: 41242},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1314, col: 11, offset: 41005},
+														pos: position{line: 1321, col: 11, offset: 41248},
 														expr: &actionExpr{
-															pos: position{line: 1314, col: 12, offset: 41006},
+															pos: position{line: 1321, col: 12, offset: 41249},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1314, col: 12, offset: 41006},
+																pos: position{line: 1321, col: 12, offset: 41249},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1314, col: 12, offset: 41006},
+																		pos: position{line: 1321, col: 12, offset: 41249},
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 10, offset: 90818},
+																			pos: position{line: 2883, col: 10, offset: 91286},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 10, offset: 90818},
+																				pos:        position{line: 2883, col: 10, offset: 91286},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46623,18 +46694,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1314, col: 19, offset: 41013},
+																		pos:        position{line: 1321, col: 19, offset: 41256},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1314, col: 23, offset: 41017},
+																		pos: position{line: 1321, col: 23, offset: 41260},
 																		expr: &actionExpr{
-																			pos: position{line: 2868, col: 10, offset: 90818},
+																			pos: position{line: 2883, col: 10, offset: 91286},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2868, col: 10, offset: 90818},
+																				pos:        position{line: 2883, col: 10, offset: 91286},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46643,28 +46714,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1314, col: 30, offset: 41024},
+																		pos:   position{line: 1321, col: 30, offset: 41267},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1319, col: 30, offset: 41199},
+																			pos: position{line: 1326, col: 30, offset: 41442},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1319, col: 30, offset: 41199},
+																				pos: position{line: 1326, col: 30, offset: 41442},
 																				expr: &choiceExpr{
-																					pos: position{line: 1319, col: 31, offset: 41200},
+																					pos: position{line: 1326, col: 31, offset: 41443},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2758, col: 13, offset: 87913},
+																							pos:        position{line: 2773, col: 13, offset: 88381},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2868, col: 10, offset: 90818},
+																							pos: position{line: 2883, col: 10, offset: 91286},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2868, col: 10, offset: 90818},
+																								pos:        position{line: 2883, col: 10, offset: 91286},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46682,7 +46753,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1315, col: 5, offset: 41091},
+													pos:        position{line: 1322, col: 5, offset: 41334},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -46691,15 +46762,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2428, col: 11, offset: 78454},
+										pos:  position{line: 2443, col: 11, offset: 78922},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2429, col: 11, offset: 78474},
+										pos:  position{line: 2444, col: 11, offset: 78942},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2430, col: 11, offset: 78497},
+										pos:  position{line: 2445, col: 11, offset: 78965},
 										name: "InlineMenu",
 									},
 								},
@@ -46711,80 +46782,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2434, col: 1, offset: 78554},
+			pos:  position{line: 2449, col: 1, offset: 79022},
 			expr: &actionExpr{
-				pos: position{line: 2436, col: 5, offset: 78642},
+				pos: position{line: 2451, col: 5, offset: 79110},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2436, col: 5, offset: 78642},
+					pos: position{line: 2451, col: 5, offset: 79110},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2436, col: 5, offset: 78642},
+							pos: position{line: 2451, col: 5, offset: 79110},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2439, col: 5, offset: 78719},
+							pos:   position{line: 2454, col: 5, offset: 79187},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2440, col: 9, offset: 78737},
+								pos: position{line: 2455, col: 9, offset: 79205},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1394, col: 26, offset: 44469},
+										pos: position{line: 1401, col: 26, offset: 44712},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1394, col: 26, offset: 44469},
+											pos: position{line: 1401, col: 26, offset: 44712},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1392, col: 32, offset: 44437},
+													pos:        position{line: 1399, col: 32, offset: 44680},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1394, col: 54, offset: 44497},
+													pos:   position{line: 1401, col: 54, offset: 44740},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1398, col: 33, offset: 44710},
+														pos: position{line: 1405, col: 33, offset: 44953},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1398, col: 34, offset: 44711},
+																pos: position{line: 1405, col: 34, offset: 44954},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1398, col: 34, offset: 44711},
+																	pos: position{line: 1405, col: 34, offset: 44954},
 																	expr: &seqExpr{
-																		pos: position{line: 1398, col: 35, offset: 44712},
+																		pos: position{line: 1405, col: 35, offset: 44955},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1398, col: 35, offset: 44712},
+																				pos: position{line: 1405, col: 35, offset: 44955},
 																				expr: &litMatcher{
-																					pos:        position{line: 1392, col: 32, offset: 44437},
+																					pos:        position{line: 1399, col: 32, offset: 44680},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1398, col: 64, offset: 44741,
+																				line: 1405, col: 64, offset: 44984,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1400, col: 11, offset: 44914},
+																pos: position{line: 1407, col: 11, offset: 45157},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1400, col: 11, offset: 44914},
+																	pos: position{line: 1407, col: 11, offset: 45157},
 																	expr: &seqExpr{
-																		pos: position{line: 1400, col: 12, offset: 44915},
+																		pos: position{line: 1407, col: 12, offset: 45158},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1400, col: 12, offset: 44915},
+																				pos: position{line: 1407, col: 12, offset: 45158},
 																				expr: &actionExpr{
-																					pos: position{line: 2868, col: 10, offset: 90818},
+																					pos: position{line: 2883, col: 10, offset: 91286},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2868, col: 10, offset: 90818},
+																						pos:        position{line: 2883, col: 10, offset: 91286},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46793,27 +46864,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1400, col: 19, offset: 44922},
+																				pos: position{line: 1407, col: 19, offset: 45165},
 																				expr: &actionExpr{
-																					pos: position{line: 2877, col: 12, offset: 90989},
+																					pos: position{line: 2892, col: 12, offset: 91457},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2877, col: 13, offset: 90990},
+																						pos: position{line: 2892, col: 13, offset: 91458},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 13, offset: 90990},
+																								pos:        position{line: 2892, col: 13, offset: 91458},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 20, offset: 90997},
+																								pos:        position{line: 2892, col: 20, offset: 91465},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2877, col: 29, offset: 91006},
+																								pos:        position{line: 2892, col: 29, offset: 91474},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46823,16 +46894,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1400, col: 28, offset: 44931},
+																				pos: position{line: 1407, col: 28, offset: 45174},
 																				expr: &litMatcher{
-																					pos:        position{line: 1392, col: 32, offset: 44437},
+																					pos:        position{line: 1399, col: 32, offset: 44680},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1400, col: 57, offset: 44960,
+																				line: 1407, col: 57, offset: 45203,
 																			},
 																		},
 																	},
@@ -46842,15 +46913,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1392, col: 32, offset: 44437},
+													pos:        position{line: 1399, col: 32, offset: 44680},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1394, col: 121, offset: 44564},
+													pos: position{line: 1401, col: 121, offset: 44807},
 													expr: &charClassMatcher{
-														pos:        position{line: 2758, col: 13, offset: 87913},
+														pos:        position{line: 2773, col: 13, offset: 88381},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46861,45 +46932,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1382, col: 26, offset: 43752},
+										pos: position{line: 1389, col: 26, offset: 43995},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1382, col: 26, offset: 43752},
+											pos: position{line: 1389, col: 26, offset: 43995},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1380, col: 32, offset: 43722},
+													pos:        position{line: 1387, col: 32, offset: 43965},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1382, col: 54, offset: 43780},
+													pos:   position{line: 1389, col: 54, offset: 44023},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1386, col: 33, offset: 43993},
+														pos: position{line: 1393, col: 33, offset: 44236},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1386, col: 34, offset: 43994},
+																pos: position{line: 1393, col: 34, offset: 44237},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1386, col: 34, offset: 43994},
+																	pos: position{line: 1393, col: 34, offset: 44237},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1386, col: 35, offset: 43995},
+																			pos: position{line: 1393, col: 35, offset: 44238},
 																			expr: &litMatcher{
-																				pos:        position{line: 1380, col: 32, offset: 43722},
+																				pos:        position{line: 1387, col: 32, offset: 43965},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1386, col: 64, offset: 44024},
+																			pos: position{line: 1393, col: 64, offset: 44267},
 																			expr: &actionExpr{
-																				pos: position{line: 2868, col: 10, offset: 90818},
+																				pos: position{line: 2883, col: 10, offset: 91286},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 10, offset: 90818},
+																					pos:        position{line: 2883, col: 10, offset: 91286},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46908,27 +46979,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1386, col: 71, offset: 44031},
+																			pos: position{line: 1393, col: 71, offset: 44274},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 12, offset: 90989},
+																				pos: position{line: 2892, col: 12, offset: 91457},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2877, col: 13, offset: 90990},
+																					pos: position{line: 2892, col: 13, offset: 91458},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 13, offset: 90990},
+																							pos:        position{line: 2892, col: 13, offset: 91458},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 20, offset: 90997},
+																							pos:        position{line: 2892, col: 20, offset: 91465},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 29, offset: 91006},
+																							pos:        position{line: 2892, col: 29, offset: 91474},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -46938,25 +47009,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1386, col: 80, offset: 44040,
+																			line: 1393, col: 80, offset: 44283,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1386, col: 83, offset: 44043},
+																			pos: position{line: 1393, col: 83, offset: 44286},
 																			expr: &seqExpr{
-																				pos: position{line: 1386, col: 84, offset: 44044},
+																				pos: position{line: 1393, col: 84, offset: 44287},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1386, col: 84, offset: 44044},
+																						pos: position{line: 1393, col: 84, offset: 44287},
 																						expr: &seqExpr{
-																							pos: position{line: 1386, col: 86, offset: 44046},
+																							pos: position{line: 1393, col: 86, offset: 44289},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2872, col: 11, offset: 90879},
+																									pos: position{line: 2887, col: 11, offset: 91347},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2872, col: 11, offset: 90879},
+																										pos: position{line: 2887, col: 11, offset: 91347},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2872, col: 11, offset: 90879},
+																											pos:        position{line: 2887, col: 11, offset: 91347},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -46965,7 +47036,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1380, col: 32, offset: 43722},
+																									pos:        position{line: 1387, col: 32, offset: 43965},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -46974,36 +47045,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1386, col: 122, offset: 44082},
+																						pos: position{line: 1393, col: 122, offset: 44325},
 																						expr: &litMatcher{
-																							pos:        position{line: 1380, col: 32, offset: 43722},
+																							pos:        position{line: 1387, col: 32, offset: 43965},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1386, col: 151, offset: 44111},
+																						pos: position{line: 1393, col: 151, offset: 44354},
 																						expr: &actionExpr{
-																							pos: position{line: 2877, col: 12, offset: 90989},
+																							pos: position{line: 2892, col: 12, offset: 91457},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2877, col: 13, offset: 90990},
+																								pos: position{line: 2892, col: 13, offset: 91458},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 13, offset: 90990},
+																										pos:        position{line: 2892, col: 13, offset: 91458},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 20, offset: 90997},
+																										pos:        position{line: 2892, col: 20, offset: 91465},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2877, col: 29, offset: 91006},
+																										pos:        position{line: 2892, col: 29, offset: 91474},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -47013,7 +47084,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1386, col: 160, offset: 44120,
+																						line: 1393, col: 160, offset: 44363,
 																					},
 																				},
 																			},
@@ -47022,18 +47093,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1388, col: 11, offset: 44270},
+																pos: position{line: 1395, col: 11, offset: 44513},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1388, col: 12, offset: 44271},
+																	pos: position{line: 1395, col: 12, offset: 44514},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1388, col: 12, offset: 44271},
+																			pos: position{line: 1395, col: 12, offset: 44514},
 																			expr: &actionExpr{
-																				pos: position{line: 2868, col: 10, offset: 90818},
+																				pos: position{line: 2883, col: 10, offset: 91286},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2868, col: 10, offset: 90818},
+																					pos:        position{line: 2883, col: 10, offset: 91286},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47042,27 +47113,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1388, col: 19, offset: 44278},
+																			pos: position{line: 1395, col: 19, offset: 44521},
 																			expr: &actionExpr{
-																				pos: position{line: 2877, col: 12, offset: 90989},
+																				pos: position{line: 2892, col: 12, offset: 91457},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2877, col: 13, offset: 90990},
+																					pos: position{line: 2892, col: 13, offset: 91458},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 13, offset: 90990},
+																							pos:        position{line: 2892, col: 13, offset: 91458},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 20, offset: 90997},
+																							pos:        position{line: 2892, col: 20, offset: 91465},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2877, col: 29, offset: 91006},
+																							pos:        position{line: 2892, col: 29, offset: 91474},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47072,16 +47143,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1388, col: 28, offset: 44287},
+																			pos: position{line: 1395, col: 28, offset: 44530},
 																			expr: &litMatcher{
-																				pos:        position{line: 1380, col: 32, offset: 43722},
+																				pos:        position{line: 1387, col: 32, offset: 43965},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1388, col: 57, offset: 44316,
+																			line: 1395, col: 57, offset: 44559,
 																		},
 																	},
 																},
@@ -47090,15 +47161,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1380, col: 32, offset: 43722},
+													pos:        position{line: 1387, col: 32, offset: 43965},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1382, col: 121, offset: 43847},
+													pos: position{line: 1389, col: 121, offset: 44090},
 													expr: &charClassMatcher{
-														pos:        position{line: 2758, col: 13, offset: 87913},
+														pos:        position{line: 2773, col: 13, offset: 88381},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47109,7 +47180,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2440, col: 57, offset: 78785},
+										pos:  position{line: 2455, col: 57, offset: 79253},
 										name: "PassthroughMacro",
 									},
 								},
@@ -47121,16 +47192,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2445, col: 1, offset: 78845},
+			pos:  position{line: 2460, col: 1, offset: 79313},
 			expr: &seqExpr{
-				pos: position{line: 2447, col: 5, offset: 78921},
+				pos: position{line: 2462, col: 5, offset: 79389},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2447, col: 5, offset: 78921},
+						pos: position{line: 2462, col: 5, offset: 79389},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2450, col: 5, offset: 78986},
+						pos:  position{line: 2465, col: 5, offset: 79454},
 						name: "QuotedText",
 					},
 				},
@@ -47138,22 +47209,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2452, col: 1, offset: 78999},
+			pos:  position{line: 2467, col: 1, offset: 79467},
 			expr: &actionExpr{
-				pos: position{line: 2454, col: 5, offset: 79081},
+				pos: position{line: 2469, col: 5, offset: 79549},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2454, col: 5, offset: 79081},
+					pos: position{line: 2469, col: 5, offset: 79549},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2454, col: 5, offset: 79081},
+							pos: position{line: 2469, col: 5, offset: 79549},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2457, col: 5, offset: 79152},
+							pos:   position{line: 2472, col: 5, offset: 79620},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2458, col: 9, offset: 79170},
+								pos:  position{line: 2473, col: 9, offset: 79638},
 								name: "Symbol",
 							},
 						},
@@ -47163,103 +47234,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2513, col: 1, offset: 80929},
+			pos:  position{line: 2528, col: 1, offset: 81397},
 			expr: &choiceExpr{
-				pos: position{line: 2515, col: 5, offset: 80959},
+				pos: position{line: 2530, col: 5, offset: 81427},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2515, col: 5, offset: 80959},
+						pos: position{line: 2530, col: 5, offset: 81427},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2515, col: 5, offset: 80959},
+							pos: position{line: 2530, col: 5, offset: 81427},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2515, col: 5, offset: 80959},
+									pos:        position{line: 2530, col: 5, offset: 81427},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2515, col: 10, offset: 80964},
+									pos: position{line: 2530, col: 10, offset: 81432},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2515, col: 10, offset: 80964},
+											pos:  position{line: 2530, col: 10, offset: 81432},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2544, col: 14, offset: 82068},
+											pos: position{line: 2559, col: 14, offset: 82536},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2544, col: 14, offset: 82068},
+												pos:        position{line: 2559, col: 14, offset: 82536},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2548, col: 14, offset: 82134},
+											pos: position{line: 2563, col: 14, offset: 82602},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2548, col: 14, offset: 82134},
+												pos:        position{line: 2563, col: 14, offset: 82602},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2552, col: 15, offset: 82203},
+											pos: position{line: 2567, col: 15, offset: 82671},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2552, col: 15, offset: 82203},
+												pos:        position{line: 2567, col: 15, offset: 82671},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2556, col: 13, offset: 82268},
+											pos: position{line: 2571, col: 13, offset: 82736},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2556, col: 13, offset: 82268},
+												pos:        position{line: 2571, col: 13, offset: 82736},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2584, col: 21, offset: 82838},
+											pos: position{line: 2599, col: 21, offset: 83306},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2584, col: 21, offset: 82838},
+												pos:        position{line: 2599, col: 21, offset: 83306},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2563, col: 5, offset: 82424},
+											pos: position{line: 2578, col: 5, offset: 82892},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2563, col: 5, offset: 82424},
+												pos: position{line: 2578, col: 5, offset: 82892},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2563, col: 5, offset: 82424},
+														pos:        position{line: 2578, col: 5, offset: 82892},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2564, col: 5, offset: 82434},
+														pos: position{line: 2579, col: 5, offset: 82902},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2568, col: 6, offset: 82521},
+														pos: position{line: 2583, col: 6, offset: 82989},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2868, col: 10, offset: 90818},
+																pos: position{line: 2883, col: 10, offset: 91286},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2868, col: 10, offset: 90818},
+																	pos:        position{line: 2883, col: 10, offset: 91286},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47267,30 +47338,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2568, col: 14, offset: 82529},
+																pos: position{line: 2583, col: 14, offset: 82997},
 																expr: &choiceExpr{
-																	pos: position{line: 2890, col: 8, offset: 91216},
+																	pos: position{line: 2905, col: 8, offset: 91684},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 12, offset: 90989},
+																			pos: position{line: 2892, col: 12, offset: 91457},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2877, col: 13, offset: 90990},
+																				pos: position{line: 2892, col: 13, offset: 91458},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 13, offset: 90990},
+																						pos:        position{line: 2892, col: 13, offset: 91458},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 20, offset: 90997},
+																						pos:        position{line: 2892, col: 20, offset: 91465},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2877, col: 29, offset: 91006},
+																						pos:        position{line: 2892, col: 29, offset: 91474},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47299,9 +47370,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2887, col: 8, offset: 91166},
+																			pos: position{line: 2902, col: 8, offset: 91634},
 																			expr: &anyMatcher{
-																				line: 2887, col: 9, offset: 91167,
+																				line: 2902, col: 9, offset: 91635,
 																			},
 																		},
 																	},
@@ -47313,53 +47384,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2573, col: 5, offset: 82649},
+											pos: position{line: 2588, col: 5, offset: 83117},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2573, col: 5, offset: 82649},
+												pos: position{line: 2588, col: 5, offset: 83117},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2573, col: 5, offset: 82649},
+														pos:        position{line: 2588, col: 5, offset: 83117},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2574, col: 5, offset: 82659},
+														pos: position{line: 2589, col: 5, offset: 83127},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2578, col: 5, offset: 82748},
+														pos: position{line: 2593, col: 5, offset: 83216},
 														expr: &choiceExpr{
-															pos: position{line: 2578, col: 7, offset: 82750},
+															pos: position{line: 2593, col: 7, offset: 83218},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2758, col: 13, offset: 87913},
+																	pos:        position{line: 2773, col: 13, offset: 88381},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2877, col: 12, offset: 90989},
+																	pos: position{line: 2892, col: 12, offset: 91457},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2877, col: 13, offset: 90990},
+																		pos: position{line: 2892, col: 13, offset: 91458},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2877, col: 13, offset: 90990},
+																				pos:        position{line: 2892, col: 13, offset: 91458},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2877, col: 20, offset: 90997},
+																				pos:        position{line: 2892, col: 20, offset: 91465},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2877, col: 29, offset: 91006},
+																				pos:        position{line: 2892, col: 29, offset: 91474},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47368,9 +47439,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2887, col: 8, offset: 91166},
+																	pos: position{line: 2902, col: 8, offset: 91634},
 																	expr: &anyMatcher{
-																		line: 2887, col: 9, offset: 91167,
+																		line: 2902, col: 9, offset: 91635,
 																	},
 																},
 															},
@@ -47380,30 +47451,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2588, col: 20, offset: 82908},
+											pos: position{line: 2603, col: 20, offset: 83376},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2588, col: 20, offset: 82908},
+												pos:        position{line: 2603, col: 20, offset: 83376},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2592, col: 21, offset: 82979},
+											pos: position{line: 2607, col: 21, offset: 83447},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2592, col: 21, offset: 82979},
+												pos:        position{line: 2607, col: 21, offset: 83447},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2596, col: 20, offset: 83049},
+											pos: position{line: 2611, col: 20, offset: 83517},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2596, col: 20, offset: 83049},
+												pos:        position{line: 2611, col: 20, offset: 83517},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -47415,73 +47486,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2519, col: 7, offset: 81219},
+						pos:  position{line: 2534, col: 7, offset: 81687},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2544, col: 14, offset: 82068},
+						pos: position{line: 2559, col: 14, offset: 82536},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2544, col: 14, offset: 82068},
+							pos:        position{line: 2559, col: 14, offset: 82536},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2548, col: 14, offset: 82134},
+						pos: position{line: 2563, col: 14, offset: 82602},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2548, col: 14, offset: 82134},
+							pos:        position{line: 2563, col: 14, offset: 82602},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2552, col: 15, offset: 82203},
+						pos: position{line: 2567, col: 15, offset: 82671},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2552, col: 15, offset: 82203},
+							pos:        position{line: 2567, col: 15, offset: 82671},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2556, col: 13, offset: 82268},
+						pos: position{line: 2571, col: 13, offset: 82736},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2556, col: 13, offset: 82268},
+							pos:        position{line: 2571, col: 13, offset: 82736},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2563, col: 5, offset: 82424},
+						pos: position{line: 2578, col: 5, offset: 82892},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2563, col: 5, offset: 82424},
+							pos: position{line: 2578, col: 5, offset: 82892},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2563, col: 5, offset: 82424},
+									pos:        position{line: 2578, col: 5, offset: 82892},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2564, col: 5, offset: 82434},
+									pos: position{line: 2579, col: 5, offset: 82902},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2568, col: 6, offset: 82521},
+									pos: position{line: 2583, col: 6, offset: 82989},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2868, col: 10, offset: 90818},
+											pos: position{line: 2883, col: 10, offset: 91286},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2868, col: 10, offset: 90818},
+												pos:        position{line: 2883, col: 10, offset: 91286},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47489,30 +47560,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2568, col: 14, offset: 82529},
+											pos: position{line: 2583, col: 14, offset: 82997},
 											expr: &choiceExpr{
-												pos: position{line: 2890, col: 8, offset: 91216},
+												pos: position{line: 2905, col: 8, offset: 91684},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2877, col: 12, offset: 90989},
+														pos: position{line: 2892, col: 12, offset: 91457},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2877, col: 13, offset: 90990},
+															pos: position{line: 2892, col: 13, offset: 91458},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2877, col: 13, offset: 90990},
+																	pos:        position{line: 2892, col: 13, offset: 91458},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2877, col: 20, offset: 90997},
+																	pos:        position{line: 2892, col: 20, offset: 91465},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2877, col: 29, offset: 91006},
+																	pos:        position{line: 2892, col: 29, offset: 91474},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47521,9 +47592,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2887, col: 8, offset: 91166},
+														pos: position{line: 2902, col: 8, offset: 91634},
 														expr: &anyMatcher{
-															line: 2887, col: 9, offset: 91167,
+															line: 2902, col: 9, offset: 91635,
 														},
 													},
 												},
@@ -47535,53 +47606,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2573, col: 5, offset: 82649},
+						pos: position{line: 2588, col: 5, offset: 83117},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2573, col: 5, offset: 82649},
+							pos: position{line: 2588, col: 5, offset: 83117},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2573, col: 5, offset: 82649},
+									pos:        position{line: 2588, col: 5, offset: 83117},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2574, col: 5, offset: 82659},
+									pos: position{line: 2589, col: 5, offset: 83127},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2578, col: 5, offset: 82748},
+									pos: position{line: 2593, col: 5, offset: 83216},
 									expr: &choiceExpr{
-										pos: position{line: 2578, col: 7, offset: 82750},
+										pos: position{line: 2593, col: 7, offset: 83218},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2758, col: 13, offset: 87913},
+												pos:        position{line: 2773, col: 13, offset: 88381},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2877, col: 12, offset: 90989},
+												pos: position{line: 2892, col: 12, offset: 91457},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2877, col: 13, offset: 90990},
+													pos: position{line: 2892, col: 13, offset: 91458},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2877, col: 13, offset: 90990},
+															pos:        position{line: 2892, col: 13, offset: 91458},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2877, col: 20, offset: 90997},
+															pos:        position{line: 2892, col: 20, offset: 91465},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2877, col: 29, offset: 91006},
+															pos:        position{line: 2892, col: 29, offset: 91474},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47590,9 +47661,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2887, col: 8, offset: 91166},
+												pos: position{line: 2902, col: 8, offset: 91634},
 												expr: &anyMatcher{
-													line: 2887, col: 9, offset: 91167,
+													line: 2902, col: 9, offset: 91635,
 												},
 											},
 										},
@@ -47602,40 +47673,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2584, col: 21, offset: 82838},
+						pos: position{line: 2599, col: 21, offset: 83306},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2584, col: 21, offset: 82838},
+							pos:        position{line: 2599, col: 21, offset: 83306},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2588, col: 20, offset: 82908},
+						pos: position{line: 2603, col: 20, offset: 83376},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2588, col: 20, offset: 82908},
+							pos:        position{line: 2603, col: 20, offset: 83376},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2592, col: 21, offset: 82979},
+						pos: position{line: 2607, col: 21, offset: 83447},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2592, col: 21, offset: 82979},
+							pos:        position{line: 2607, col: 21, offset: 83447},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2596, col: 20, offset: 83049},
+						pos: position{line: 2611, col: 20, offset: 83517},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2596, col: 20, offset: 83049},
+							pos:        position{line: 2611, col: 20, offset: 83517},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -47646,43 +47717,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2530, col: 1, offset: 81409},
+			pos:  position{line: 2545, col: 1, offset: 81877},
 			expr: &choiceExpr{
-				pos: position{line: 2531, col: 5, offset: 81431},
+				pos: position{line: 2546, col: 5, offset: 81899},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2531, col: 5, offset: 81431},
+						pos: position{line: 2546, col: 5, offset: 81899},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2531, col: 5, offset: 81431},
+							pos: position{line: 2546, col: 5, offset: 81899},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2531, col: 5, offset: 81431},
+									pos:        position{line: 2546, col: 5, offset: 81899},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2531, col: 11, offset: 81437},
+									pos: position{line: 2546, col: 11, offset: 81905},
 									expr: &seqExpr{
-										pos: position{line: 2094, col: 5, offset: 67641},
+										pos: position{line: 2101, col: 5, offset: 67884},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2094, col: 5, offset: 67641},
+												pos:        position{line: 2101, col: 5, offset: 67884},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2095, col: 5, offset: 67650},
+												pos: position{line: 2102, col: 5, offset: 67893},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2099, col: 5, offset: 67773},
+												pos: position{line: 2106, col: 5, offset: 68016},
 												expr: &notExpr{
-													pos: position{line: 2099, col: 7, offset: 67775},
+													pos: position{line: 2106, col: 7, offset: 68018},
 													expr: &litMatcher{
-														pos:        position{line: 2099, col: 8, offset: 67776},
+														pos:        position{line: 2106, col: 8, offset: 68019},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47696,21 +47767,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2534, col: 7, offset: 81590},
+						pos: position{line: 2549, col: 7, offset: 82058},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2534, col: 7, offset: 81590},
+							pos: position{line: 2549, col: 7, offset: 82058},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2534, col: 7, offset: 81590},
+									pos:        position{line: 2549, col: 7, offset: 82058},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2534, col: 13, offset: 81596},
+									pos: position{line: 2549, col: 13, offset: 82064},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2534, col: 14, offset: 81597},
+										pos:  position{line: 2549, col: 14, offset: 82065},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47718,38 +47789,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2537, col: 7, offset: 81747},
+						pos: position{line: 2552, col: 7, offset: 82215},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2537, col: 7, offset: 81747},
+							pos: position{line: 2552, col: 7, offset: 82215},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2537, col: 7, offset: 81747},
+									pos:        position{line: 2552, col: 7, offset: 82215},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2537, col: 12, offset: 81752},
+									pos: position{line: 2552, col: 12, offset: 82220},
 									expr: &seqExpr{
-										pos: position{line: 2094, col: 5, offset: 67641},
+										pos: position{line: 2101, col: 5, offset: 67884},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2094, col: 5, offset: 67641},
+												pos:        position{line: 2101, col: 5, offset: 67884},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2095, col: 5, offset: 67650},
+												pos: position{line: 2102, col: 5, offset: 67893},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2099, col: 5, offset: 67773},
+												pos: position{line: 2106, col: 5, offset: 68016},
 												expr: &notExpr{
-													pos: position{line: 2099, col: 7, offset: 67775},
+													pos: position{line: 2106, col: 7, offset: 68018},
 													expr: &litMatcher{
-														pos:        position{line: 2099, col: 8, offset: 67776},
+														pos:        position{line: 2106, col: 8, offset: 68019},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -47763,21 +47834,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2540, col: 7, offset: 81905},
+						pos: position{line: 2555, col: 7, offset: 82373},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2540, col: 7, offset: 81905},
+							pos: position{line: 2555, col: 7, offset: 82373},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2540, col: 7, offset: 81905},
+									pos:        position{line: 2555, col: 7, offset: 82373},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2540, col: 12, offset: 81910},
+									pos: position{line: 2555, col: 12, offset: 82378},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2540, col: 13, offset: 81911},
+										pos:  position{line: 2555, col: 13, offset: 82379},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -47789,63 +47860,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2673, col: 1, offset: 84993},
+			pos:  position{line: 2688, col: 1, offset: 85461},
 			expr: &actionExpr{
-				pos: position{line: 2673, col: 26, offset: 85018},
+				pos: position{line: 2688, col: 26, offset: 85486},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2673, col: 26, offset: 85018},
+					pos: position{line: 2688, col: 26, offset: 85486},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2673, col: 26, offset: 85018},
+							pos:   position{line: 2688, col: 26, offset: 85486},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2673, col: 31, offset: 85023},
+								pos: position{line: 2688, col: 31, offset: 85491},
 								expr: &actionExpr{
-									pos: position{line: 2678, col: 5, offset: 85086},
+									pos: position{line: 2693, col: 5, offset: 85554},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2678, col: 5, offset: 85086},
+										pos: position{line: 2693, col: 5, offset: 85554},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2885, col: 11, offset: 91152},
+												pos: position{line: 2900, col: 11, offset: 91620},
 												expr: &anyMatcher{
-													line: 2885, col: 13, offset: 91154,
+													line: 2900, col: 13, offset: 91622,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2681, col: 5, offset: 85212},
+												pos:   position{line: 2696, col: 5, offset: 85680},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2681, col: 16, offset: 85223},
+													pos: position{line: 2696, col: 16, offset: 85691},
 													expr: &actionExpr{
-														pos: position{line: 2681, col: 17, offset: 85224},
+														pos: position{line: 2696, col: 17, offset: 85692},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2681, col: 17, offset: 85224},
+															pos: position{line: 2696, col: 17, offset: 85692},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2681, col: 17, offset: 85224},
+																	pos:   position{line: 2696, col: 17, offset: 85692},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2860, col: 12, offset: 90645},
+																		pos: position{line: 2875, col: 12, offset: 91113},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2860, col: 13, offset: 90646},
+																			pos: position{line: 2875, col: 13, offset: 91114},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2860, col: 13, offset: 90646},
+																					pos: position{line: 2875, col: 13, offset: 91114},
 																					expr: &litMatcher{
-																						pos:        position{line: 2860, col: 13, offset: 90646},
+																						pos:        position{line: 2875, col: 13, offset: 91114},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2860, col: 18, offset: 90651},
+																					pos: position{line: 2875, col: 18, offset: 91119},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2860, col: 18, offset: 90651},
+																						pos:        position{line: 2875, col: 18, offset: 91119},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47857,7 +47928,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2681, col: 27, offset: 85234},
+																	pos:        position{line: 2696, col: 27, offset: 85702},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47868,38 +47939,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2682, col: 5, offset: 85262},
+												pos:   position{line: 2697, col: 5, offset: 85730},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2682, col: 12, offset: 85269},
+													pos: position{line: 2697, col: 12, offset: 85737},
 													expr: &choiceExpr{
-														pos: position{line: 2683, col: 9, offset: 85279},
+														pos: position{line: 2698, col: 9, offset: 85747},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2683, col: 9, offset: 85279},
+																pos: position{line: 2698, col: 9, offset: 85747},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2683, col: 9, offset: 85279},
+																	pos:        position{line: 2698, col: 9, offset: 85747},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2684, col: 11, offset: 85326},
+																pos: position{line: 2699, col: 11, offset: 85794},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2684, col: 11, offset: 85326},
+																	pos:        position{line: 2699, col: 11, offset: 85794},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2685, col: 11, offset: 85374},
+																pos: position{line: 2700, col: 11, offset: 85842},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2685, col: 11, offset: 85374},
+																	pos:        position{line: 2700, col: 11, offset: 85842},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47910,38 +47981,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2687, col: 5, offset: 85424},
+												pos:   position{line: 2702, col: 5, offset: 85892},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2687, col: 12, offset: 85431},
+													pos: position{line: 2702, col: 12, offset: 85899},
 													expr: &choiceExpr{
-														pos: position{line: 2688, col: 9, offset: 85441},
+														pos: position{line: 2703, col: 9, offset: 85909},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2688, col: 9, offset: 85441},
+																pos: position{line: 2703, col: 9, offset: 85909},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2688, col: 9, offset: 85441},
+																	pos:        position{line: 2703, col: 9, offset: 85909},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2689, col: 11, offset: 85488},
+																pos: position{line: 2704, col: 11, offset: 85956},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2689, col: 11, offset: 85488},
+																	pos:        position{line: 2704, col: 11, offset: 85956},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2690, col: 11, offset: 85538},
+																pos: position{line: 2705, col: 11, offset: 86006},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2690, col: 11, offset: 85538},
+																	pos:        position{line: 2705, col: 11, offset: 86006},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -47952,32 +48023,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2692, col: 5, offset: 85589},
+												pos:   position{line: 2707, col: 5, offset: 86057},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2692, col: 12, offset: 85596},
+													pos: position{line: 2707, col: 12, offset: 86064},
 													expr: &choiceExpr{
-														pos: position{line: 2692, col: 13, offset: 85597},
+														pos: position{line: 2707, col: 13, offset: 86065},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2860, col: 12, offset: 90645},
+																pos: position{line: 2875, col: 12, offset: 91113},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2860, col: 13, offset: 90646},
+																	pos: position{line: 2875, col: 13, offset: 91114},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2860, col: 13, offset: 90646},
+																			pos: position{line: 2875, col: 13, offset: 91114},
 																			expr: &litMatcher{
-																				pos:        position{line: 2860, col: 13, offset: 90646},
+																				pos:        position{line: 2875, col: 13, offset: 91114},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2860, col: 18, offset: 90651},
+																			pos: position{line: 2875, col: 18, offset: 91119},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2860, col: 18, offset: 90651},
+																				pos:        position{line: 2875, col: 18, offset: 91119},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -47988,10 +48059,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2692, col: 24, offset: 85608},
+																pos: position{line: 2707, col: 24, offset: 86076},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2692, col: 24, offset: 85608},
+																	pos:        position{line: 2707, col: 24, offset: 86076},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -48002,15 +48073,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2693, col: 5, offset: 85650},
+												pos:   position{line: 2708, col: 5, offset: 86118},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2693, col: 11, offset: 85656},
+													pos: position{line: 2708, col: 11, offset: 86124},
 													expr: &actionExpr{
-														pos: position{line: 2693, col: 12, offset: 85657},
+														pos: position{line: 2708, col: 12, offset: 86125},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2693, col: 12, offset: 85657},
+															pos:        position{line: 2708, col: 12, offset: 86125},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -48020,12 +48091,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2695, col: 5, offset: 85787},
+												pos:   position{line: 2710, col: 5, offset: 86255},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2695, col: 11, offset: 85793},
+													pos: position{line: 2710, col: 11, offset: 86261},
 													expr: &litMatcher{
-														pos:        position{line: 2695, col: 12, offset: 85794},
+														pos:        position{line: 2710, col: 12, offset: 86262},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -48033,7 +48104,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2696, col: 5, offset: 85804},
+												pos: position{line: 2711, col: 5, offset: 86272},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -48042,9 +48113,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2887, col: 8, offset: 91166},
+							pos: position{line: 2902, col: 8, offset: 91634},
 							expr: &anyMatcher{
-								line: 2887, col: 9, offset: 91167,
+								line: 2902, col: 9, offset: 91635,
 							},
 						},
 					},
@@ -48053,23 +48124,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2723, col: 1, offset: 86813},
+			pos:  position{line: 2738, col: 1, offset: 87281},
 			expr: &actionExpr{
-				pos: position{line: 2724, col: 5, offset: 86836},
+				pos: position{line: 2739, col: 5, offset: 87304},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2724, col: 5, offset: 86836},
+					pos: position{line: 2739, col: 5, offset: 87304},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2724, col: 5, offset: 86836},
+							pos:   position{line: 2739, col: 5, offset: 87304},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2747, col: 18, offset: 87577},
+								pos: position{line: 2762, col: 18, offset: 88045},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2747, col: 19, offset: 87578},
+									pos: position{line: 2762, col: 19, offset: 88046},
 									expr: &charClassMatcher{
-										pos:        position{line: 2747, col: 19, offset: 87578},
+										pos:        position{line: 2762, col: 19, offset: 88046},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48080,25 +48151,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2725, col: 5, offset: 86862},
+							pos: position{line: 2740, col: 5, offset: 87330},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2729, col: 5, offset: 86990},
+							pos:        position{line: 2744, col: 5, offset: 87458},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2730, col: 5, offset: 87000},
+							pos:   position{line: 2745, col: 5, offset: 87468},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2751, col: 19, offset: 87653},
+								pos: position{line: 2766, col: 19, offset: 88121},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2751, col: 19, offset: 87653},
+									pos: position{line: 2766, col: 19, offset: 88121},
 									expr: &charClassMatcher{
-										pos:        position{line: 2751, col: 19, offset: 87653},
+										pos:        position{line: 2766, col: 19, offset: 88121},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48108,36 +48179,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2731, col: 5, offset: 87028},
+							pos:   position{line: 2746, col: 5, offset: 87496},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2731, col: 17, offset: 87040},
+								pos:  position{line: 2746, col: 17, offset: 87508},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2890, col: 8, offset: 91216},
+							pos: position{line: 2905, col: 8, offset: 91684},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2877, col: 12, offset: 90989},
+									pos: position{line: 2892, col: 12, offset: 91457},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2877, col: 13, offset: 90990},
+										pos: position{line: 2892, col: 13, offset: 91458},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2877, col: 13, offset: 90990},
+												pos:        position{line: 2892, col: 13, offset: 91458},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2877, col: 20, offset: 90997},
+												pos:        position{line: 2892, col: 20, offset: 91465},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2877, col: 29, offset: 91006},
+												pos:        position{line: 2892, col: 29, offset: 91474},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -48146,9 +48217,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2887, col: 8, offset: 91166},
+									pos: position{line: 2902, col: 8, offset: 91634},
 									expr: &anyMatcher{
-										line: 2887, col: 9, offset: 91167,
+										line: 2902, col: 9, offset: 91635,
 									},
 								},
 							},
@@ -48159,23 +48230,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2735, col: 1, offset: 87188},
+			pos:  position{line: 2750, col: 1, offset: 87656},
 			expr: &actionExpr{
-				pos: position{line: 2736, col: 5, offset: 87212},
+				pos: position{line: 2751, col: 5, offset: 87680},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2736, col: 5, offset: 87212},
+					pos: position{line: 2751, col: 5, offset: 87680},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2736, col: 5, offset: 87212},
+							pos:   position{line: 2751, col: 5, offset: 87680},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2747, col: 18, offset: 87577},
+								pos: position{line: 2762, col: 18, offset: 88045},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2747, col: 19, offset: 87578},
+									pos: position{line: 2762, col: 19, offset: 88046},
 									expr: &charClassMatcher{
-										pos:        position{line: 2747, col: 19, offset: 87578},
+										pos:        position{line: 2762, col: 19, offset: 88046},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48186,25 +48257,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2737, col: 5, offset: 87238},
+							pos: position{line: 2752, col: 5, offset: 87706},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2741, col: 5, offset: 87366},
+							pos:        position{line: 2756, col: 5, offset: 87834},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2742, col: 5, offset: 87375},
+							pos:   position{line: 2757, col: 5, offset: 87843},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2751, col: 19, offset: 87653},
+								pos: position{line: 2766, col: 19, offset: 88121},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2751, col: 19, offset: 87653},
+									pos: position{line: 2766, col: 19, offset: 88121},
 									expr: &charClassMatcher{
-										pos:        position{line: 2751, col: 19, offset: 87653},
+										pos:        position{line: 2766, col: 19, offset: 88121},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48214,10 +48285,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2743, col: 5, offset: 87403},
+							pos:   position{line: 2758, col: 5, offset: 87871},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2743, col: 17, offset: 87415},
+								pos:  position{line: 2758, col: 17, offset: 87883},
 								name: "InlineAttributes",
 							},
 						},
@@ -48227,43 +48298,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2822, col: 1, offset: 89465},
+			pos:  position{line: 2837, col: 1, offset: 89933},
 			expr: &actionExpr{
-				pos: position{line: 2822, col: 17, offset: 89481},
+				pos: position{line: 2837, col: 17, offset: 89949},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2822, col: 17, offset: 89481},
+					pos:   position{line: 2837, col: 17, offset: 89949},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2839, col: 5, offset: 89935},
+						pos: position{line: 2854, col: 5, offset: 90403},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2839, col: 5, offset: 89935},
+							pos:   position{line: 2854, col: 5, offset: 90403},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2839, col: 14, offset: 89944},
+								pos: position{line: 2854, col: 14, offset: 90412},
 								expr: &choiceExpr{
-									pos: position{line: 2840, col: 9, offset: 89954},
+									pos: position{line: 2855, col: 9, offset: 90422},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2840, col: 9, offset: 89954},
+											pos: position{line: 2855, col: 9, offset: 90422},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2840, col: 9, offset: 89954},
+												pos: position{line: 2855, col: 9, offset: 90422},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2840, col: 9, offset: 89954},
+														pos: position{line: 2855, col: 9, offset: 90422},
 														expr: &litMatcher{
-															pos:        position{line: 2840, col: 10, offset: 89955},
+															pos:        position{line: 2855, col: 10, offset: 90423},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2841, col: 9, offset: 89983},
+														pos: position{line: 2856, col: 9, offset: 90451},
 														expr: &charClassMatcher{
-															pos:        position{line: 2841, col: 10, offset: 89984},
+															pos:        position{line: 2856, col: 10, offset: 90452},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48274,27 +48345,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2844, col: 11, offset: 90196},
+											pos: position{line: 2859, col: 11, offset: 90664},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2844, col: 11, offset: 90196},
+													pos:        position{line: 2859, col: 11, offset: 90664},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2844, col: 19, offset: 90204},
+													pos: position{line: 2859, col: 19, offset: 90672},
 													expr: &seqExpr{
-														pos: position{line: 2844, col: 21, offset: 90206},
+														pos: position{line: 2859, col: 21, offset: 90674},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2844, col: 21, offset: 90206},
+																pos: position{line: 2859, col: 21, offset: 90674},
 																expr: &actionExpr{
-																	pos: position{line: 2868, col: 10, offset: 90818},
+																	pos: position{line: 2883, col: 10, offset: 91286},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2868, col: 10, offset: 90818},
+																		pos:        position{line: 2883, col: 10, offset: 91286},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48303,11 +48374,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2844, col: 28, offset: 90213},
+																pos: position{line: 2859, col: 28, offset: 90681},
 																expr: &notExpr{
-																	pos: position{line: 2887, col: 8, offset: 91166},
+																	pos: position{line: 2902, col: 8, offset: 91634},
 																	expr: &anyMatcher{
-																		line: 2887, col: 9, offset: 91167,
+																		line: 2902, col: 9, offset: 91635,
 																	},
 																},
 															},
@@ -48317,35 +48388,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 639, col: 5, offset: 20212},
+											pos: position{line: 646, col: 5, offset: 20455},
 											run: (*parser).callonFileLocation23,
 											expr: &seqExpr{
-												pos: position{line: 639, col: 5, offset: 20212},
+												pos: position{line: 646, col: 5, offset: 20455},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 639, col: 5, offset: 20212},
+														pos: position{line: 646, col: 5, offset: 20455},
 														run: (*parser).callonFileLocation25,
 													},
 													&labeledExpr{
-														pos:   position{line: 642, col: 5, offset: 20284},
+														pos:   position{line: 649, col: 5, offset: 20527},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 642, col: 14, offset: 20293},
+															pos: position{line: 649, col: 14, offset: 20536},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 648, col: 5, offset: 20422},
+																	pos: position{line: 655, col: 5, offset: 20665},
 																	run: (*parser).callonFileLocation28,
 																	expr: &seqExpr{
-																		pos: position{line: 648, col: 5, offset: 20422},
+																		pos: position{line: 655, col: 5, offset: 20665},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 648, col: 5, offset: 20422},
+																				pos:        position{line: 655, col: 5, offset: 20665},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 648, col: 13, offset: 20430},
+																				pos:   position{line: 655, col: 13, offset: 20673},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -48377,7 +48448,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 648, col: 32, offset: 20449},
+																				pos:        position{line: 655, col: 32, offset: 20692},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48386,19 +48457,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 655, col: 5, offset: 20690},
+																	pos: position{line: 662, col: 5, offset: 20933},
 																	run: (*parser).callonFileLocation38,
 																	expr: &seqExpr{
-																		pos: position{line: 655, col: 5, offset: 20690},
+																		pos: position{line: 662, col: 5, offset: 20933},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 655, col: 5, offset: 20690},
+																				pos:        position{line: 662, col: 5, offset: 20933},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 655, col: 9, offset: 20694},
+																				pos:   position{line: 662, col: 9, offset: 20937},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -48430,7 +48501,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 655, col: 28, offset: 20713},
+																				pos:        position{line: 662, col: 28, offset: 20956},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48439,19 +48510,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 661, col: 25, offset: 20894},
+																	pos: position{line: 668, col: 25, offset: 21137},
 																	run: (*parser).callonFileLocation48,
 																	expr: &seqExpr{
-																		pos: position{line: 661, col: 25, offset: 20894},
+																		pos: position{line: 668, col: 25, offset: 21137},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 661, col: 25, offset: 20894},
+																				pos:        position{line: 668, col: 25, offset: 21137},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 661, col: 37, offset: 20906},
+																				pos:   position{line: 668, col: 37, offset: 21149},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -48483,33 +48554,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 661, col: 56, offset: 20925},
+																				pos:   position{line: 668, col: 56, offset: 21168},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 661, col: 62, offset: 20931},
+																					pos: position{line: 668, col: 62, offset: 21174},
 																					expr: &actionExpr{
-																						pos: position{line: 669, col: 17, offset: 21226},
+																						pos: position{line: 676, col: 17, offset: 21469},
 																						run: (*parser).callonFileLocation59,
 																						expr: &seqExpr{
-																							pos: position{line: 669, col: 17, offset: 21226},
+																							pos: position{line: 676, col: 17, offset: 21469},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 669, col: 17, offset: 21226},
+																									pos:        position{line: 676, col: 17, offset: 21469},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 669, col: 21, offset: 21230},
+																									pos:   position{line: 676, col: 21, offset: 21473},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 669, col: 28, offset: 21237},
+																										pos: position{line: 676, col: 28, offset: 21480},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 669, col: 28, offset: 21237},
+																												pos: position{line: 676, col: 28, offset: 21480},
 																												run: (*parser).callonFileLocation64,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 28, offset: 21237},
+																													pos:        position{line: 676, col: 28, offset: 21480},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -48517,12 +48588,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 671, col: 9, offset: 21291},
+																												pos: position{line: 678, col: 9, offset: 21534},
 																												run: (*parser).callonFileLocation66,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 671, col: 9, offset: 21291},
+																													pos: position{line: 678, col: 9, offset: 21534},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 671, col: 9, offset: 21291},
+																														pos:        position{line: 678, col: 9, offset: 21534},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -48539,7 +48610,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 661, col: 78, offset: 20947},
+																				pos:        position{line: 668, col: 78, offset: 21190},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48548,19 +48619,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 665, col: 25, offset: 21065},
+																	pos: position{line: 672, col: 25, offset: 21308},
 																	run: (*parser).callonFileLocation70,
 																	expr: &seqExpr{
-																		pos: position{line: 665, col: 25, offset: 21065},
+																		pos: position{line: 672, col: 25, offset: 21308},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 665, col: 25, offset: 21065},
+																				pos:        position{line: 672, col: 25, offset: 21308},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 665, col: 38, offset: 21078},
+																				pos:   position{line: 672, col: 38, offset: 21321},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -48592,33 +48663,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 665, col: 57, offset: 21097},
+																				pos:   position{line: 672, col: 57, offset: 21340},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 665, col: 63, offset: 21103},
+																					pos: position{line: 672, col: 63, offset: 21346},
 																					expr: &actionExpr{
-																						pos: position{line: 669, col: 17, offset: 21226},
+																						pos: position{line: 676, col: 17, offset: 21469},
 																						run: (*parser).callonFileLocation81,
 																						expr: &seqExpr{
-																							pos: position{line: 669, col: 17, offset: 21226},
+																							pos: position{line: 676, col: 17, offset: 21469},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 669, col: 17, offset: 21226},
+																									pos:        position{line: 676, col: 17, offset: 21469},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 669, col: 21, offset: 21230},
+																									pos:   position{line: 676, col: 21, offset: 21473},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 669, col: 28, offset: 21237},
+																										pos: position{line: 676, col: 28, offset: 21480},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 669, col: 28, offset: 21237},
+																												pos: position{line: 676, col: 28, offset: 21480},
 																												run: (*parser).callonFileLocation86,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 669, col: 28, offset: 21237},
+																													pos:        position{line: 676, col: 28, offset: 21480},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -48626,12 +48697,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 671, col: 9, offset: 21291},
+																												pos: position{line: 678, col: 9, offset: 21534},
 																												run: (*parser).callonFileLocation88,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 671, col: 9, offset: 21291},
+																													pos: position{line: 678, col: 9, offset: 21534},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 671, col: 9, offset: 21291},
+																														pos:        position{line: 678, col: 9, offset: 21534},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -48648,7 +48719,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 665, col: 79, offset: 21119},
+																				pos:        position{line: 672, col: 79, offset: 21362},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48663,27 +48734,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1213, col: 23, offset: 37477},
+											pos: position{line: 1220, col: 23, offset: 37720},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1213, col: 23, offset: 37477},
+												pos: position{line: 1220, col: 23, offset: 37720},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1211, col: 32, offset: 37445},
+														pos:        position{line: 1218, col: 32, offset: 37688},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1213, col: 51, offset: 37505},
+														pos:   position{line: 1220, col: 51, offset: 37748},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1213, col: 56, offset: 37510},
+															pos: position{line: 1220, col: 56, offset: 37753},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1213, col: 56, offset: 37510},
+																pos: position{line: 1220, col: 56, offset: 37753},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1213, col: 56, offset: 37510},
+																	pos:        position{line: 1220, col: 56, offset: 37753},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -48693,7 +48764,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1211, col: 32, offset: 37445},
+														pos:        position{line: 1218, col: 32, offset: 37688},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -48702,10 +48773,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2847, col: 11, offset: 90333},
+											pos: position{line: 2862, col: 11, offset: 90801},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2847, col: 11, offset: 90333},
+												pos:        position{line: 2862, col: 11, offset: 90801},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -54475,85 +54546,106 @@ func (p *parser) callonAttributeDeclarationValueElement11() (interface{}, error)
 	return p.cur.onAttributeDeclarationValueElement11()
 }
 
-func (c *current) onAttributeDeclarationValueElement21() (interface{}, error) {
+func (c *current) onAttributeDeclarationValueElement24(element interface{}) (bool, error) {
+	return element != nil, nil
+}
+
+func (p *parser) callonAttributeDeclarationValueElement24() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onAttributeDeclarationValueElement24(stack["element"])
+}
+
+func (c *current) onAttributeDeclarationValueElement20(element interface{}) (interface{}, error) {
+	return element, nil
+
+}
+
+func (p *parser) callonAttributeDeclarationValueElement20() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onAttributeDeclarationValueElement20(stack["element"])
+}
+
+func (c *current) onAttributeDeclarationValueElement25() (interface{}, error) {
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonAttributeDeclarationValueElement21() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValueElement25() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement21()
+	return p.cur.onAttributeDeclarationValueElement25()
 }
 
-func (c *current) onAttributeDeclarationValueElement26() (bool, error) {
+func (c *current) onAttributeDeclarationValueElement30() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonAttributeDeclarationValueElement26() (bool, error) {
+func (p *parser) callonAttributeDeclarationValueElement30() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement26()
+	return p.cur.onAttributeDeclarationValueElement30()
 }
 
-func (c *current) onAttributeDeclarationValueElement28() (interface{}, error) {
+func (c *current) onAttributeDeclarationValueElement32() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonAttributeDeclarationValueElement28() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValueElement32() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement28()
+	return p.cur.onAttributeDeclarationValueElement32()
 }
 
-func (c *current) onAttributeDeclarationValueElement24(element interface{}) (interface{}, error) {
+func (c *current) onAttributeDeclarationValueElement28(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonAttributeDeclarationValueElement24() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValueElement28() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement24(stack["element"])
+	return p.cur.onAttributeDeclarationValueElement28(stack["element"])
 }
 
-func (c *current) onAttributeDeclarationValueElement30() (interface{}, error) {
+func (c *current) onAttributeDeclarationValueElement34() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonAttributeDeclarationValueElement30() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValueElement34() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement30()
+	return p.cur.onAttributeDeclarationValueElement34()
 }
 
-func (c *current) onAttributeDeclarationValueElement34() (bool, error) {
+func (c *current) onAttributeDeclarationValueElement38() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonAttributeDeclarationValueElement34() (bool, error) {
+func (p *parser) callonAttributeDeclarationValueElement38() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement34()
+	return p.cur.onAttributeDeclarationValueElement38()
 }
 
-func (c *current) onAttributeDeclarationValueElement41() (interface{}, error) {
+func (c *current) onAttributeDeclarationValueElement45() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonAttributeDeclarationValueElement41() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValueElement45() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement41()
+	return p.cur.onAttributeDeclarationValueElement45()
 }
 
-func (c *current) onAttributeDeclarationValueElement37(name interface{}) (interface{}, error) {
+func (c *current) onAttributeDeclarationValueElement41(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -54561,154 +54653,154 @@ func (c *current) onAttributeDeclarationValueElement37(name interface{}) (interf
 
 }
 
-func (p *parser) callonAttributeDeclarationValueElement37() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValueElement41() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement37(stack["name"])
+	return p.cur.onAttributeDeclarationValueElement41(stack["name"])
 }
 
-func (c *current) onAttributeDeclarationValueElement51() (interface{}, error) {
+func (c *current) onAttributeDeclarationValueElement55() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonAttributeDeclarationValueElement51() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValueElement55() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement51()
+	return p.cur.onAttributeDeclarationValueElement55()
 }
 
-func (c *current) onAttributeDeclarationValueElement47(name interface{}) (interface{}, error) {
+func (c *current) onAttributeDeclarationValueElement51(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonAttributeDeclarationValueElement47() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValueElement51() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement47(stack["name"])
+	return p.cur.onAttributeDeclarationValueElement51(stack["name"])
 }
 
-func (c *current) onAttributeDeclarationValueElement61() (interface{}, error) {
+func (c *current) onAttributeDeclarationValueElement65() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonAttributeDeclarationValueElement61() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValueElement65() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement61()
+	return p.cur.onAttributeDeclarationValueElement65()
 }
 
-func (c *current) onAttributeDeclarationValueElement73() (interface{}, error) {
+func (c *current) onAttributeDeclarationValueElement77() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonAttributeDeclarationValueElement73() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValueElement77() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement73()
+	return p.cur.onAttributeDeclarationValueElement77()
 }
 
-func (c *current) onAttributeDeclarationValueElement75() (interface{}, error) {
+func (c *current) onAttributeDeclarationValueElement79() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonAttributeDeclarationValueElement75() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValueElement79() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement75()
+	return p.cur.onAttributeDeclarationValueElement79()
 }
 
-func (c *current) onAttributeDeclarationValueElement68(start interface{}) (interface{}, error) {
+func (c *current) onAttributeDeclarationValueElement72(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonAttributeDeclarationValueElement68() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValueElement72() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement68(stack["start"])
+	return p.cur.onAttributeDeclarationValueElement72(stack["start"])
 }
 
-func (c *current) onAttributeDeclarationValueElement57(name, start interface{}) (interface{}, error) {
+func (c *current) onAttributeDeclarationValueElement61(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonAttributeDeclarationValueElement57() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValueElement61() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement57(stack["name"], stack["start"])
+	return p.cur.onAttributeDeclarationValueElement61(stack["name"], stack["start"])
 }
 
-func (c *current) onAttributeDeclarationValueElement83() (interface{}, error) {
+func (c *current) onAttributeDeclarationValueElement87() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonAttributeDeclarationValueElement83() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValueElement87() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement83()
+	return p.cur.onAttributeDeclarationValueElement87()
 }
 
-func (c *current) onAttributeDeclarationValueElement95() (interface{}, error) {
+func (c *current) onAttributeDeclarationValueElement99() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonAttributeDeclarationValueElement95() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValueElement99() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement95()
+	return p.cur.onAttributeDeclarationValueElement99()
 }
 
-func (c *current) onAttributeDeclarationValueElement97() (interface{}, error) {
+func (c *current) onAttributeDeclarationValueElement101() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonAttributeDeclarationValueElement97() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValueElement101() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement97()
+	return p.cur.onAttributeDeclarationValueElement101()
 }
 
-func (c *current) onAttributeDeclarationValueElement90(start interface{}) (interface{}, error) {
+func (c *current) onAttributeDeclarationValueElement94(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonAttributeDeclarationValueElement90() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValueElement94() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement90(stack["start"])
+	return p.cur.onAttributeDeclarationValueElement94(stack["start"])
 }
 
-func (c *current) onAttributeDeclarationValueElement79(name, start interface{}) (interface{}, error) {
+func (c *current) onAttributeDeclarationValueElement83(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonAttributeDeclarationValueElement79() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValueElement83() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement79(stack["name"], stack["start"])
+	return p.cur.onAttributeDeclarationValueElement83(stack["name"], stack["start"])
 }
 
-func (c *current) onAttributeDeclarationValueElement32(element interface{}) (interface{}, error) {
+func (c *current) onAttributeDeclarationValueElement36(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonAttributeDeclarationValueElement32() (interface{}, error) {
+func (p *parser) callonAttributeDeclarationValueElement36() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onAttributeDeclarationValueElement32(stack["element"])
+	return p.cur.onAttributeDeclarationValueElement36(stack["element"])
 }
 
 func (c *current) onAttributeDeclarationValueElement1(element interface{}) (interface{}, error) {
@@ -54726,6 +54818,17 @@ func (p *parser) callonAttributeDeclarationValueElement1() (interface{}, error)
 	return p.cur.onAttributeDeclarationValueElement1(stack["element"])
 }
 
+func (c *current) onAttributeDeclarationValueInlinePassthrough1(element interface{}) (interface{}, error) {
+	return c.withinLine(element), nil
+
+}
+
+func (p *parser) callonAttributeDeclarationValueInlinePassthrough1() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onAttributeDeclarationValueInlinePassthrough1(stack["element"])
+}
+
 func (c *current) onBlockAttributes16() (interface{}, error) {
 	// spaces, commas and dots are allowed in this syntax
 	return types.NewStringElement(string(c.text))
@@ -71686,191 +71789,239 @@ func (p *parser) callonSectionTitleElement5() (interface{}, error) {
 	return p.cur.onSectionTitleElement5()
 }
 
-func (c *current) onSectionTitleElement17() (interface{}, error) {
+func (c *current) onSectionTitleElement18(element interface{}) (bool, error) {
+	return element != nil, nil
+}
+
+func (p *parser) callonSectionTitleElement18() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSectionTitleElement18(stack["element"])
+}
+
+func (c *current) onSectionTitleElement14(element interface{}) (interface{}, error) {
+	return element, nil
+
+}
+
+func (p *parser) callonSectionTitleElement14() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSectionTitleElement14(stack["element"])
+}
+
+func (c *current) onSectionTitleElement19() (interface{}, error) {
+
+	if log.IsLevelEnabled(log.DebugLevel) {
+		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
+	}
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonSectionTitleElement19() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSectionTitleElement19()
+}
+
+func (c *current) onSectionTitleElement1(element interface{}) (interface{}, error) {
+	c.trackElement(element)
+	return element, nil
+
+}
+
+func (p *parser) callonSectionTitleElement1() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSectionTitleElement1(stack["element"])
+}
+
+func (c *current) onSectionTitleInlineElement7() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement17() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement7() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement17()
+	return p.cur.onSectionTitleInlineElement7()
 }
 
-func (c *current) onSectionTitleElement23() (bool, error) {
+func (c *current) onSectionTitleInlineElement13() (bool, error) {
 	return c.isInlineMacro(string(c.text)), nil
 
 }
 
-func (p *parser) callonSectionTitleElement23() (bool, error) {
+func (p *parser) callonSectionTitleInlineElement13() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement23()
+	return p.cur.onSectionTitleInlineElement13()
 }
 
-func (c *current) onSectionTitleElement14(text interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement4(text interface{}) (interface{}, error) {
 	log.Debugf("new text: '%v'", string(c.text))
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement14() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement4() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement14(stack["text"])
+	return p.cur.onSectionTitleInlineElement4(stack["text"])
 }
 
-func (c *current) onSectionTitleElement28() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement18() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement28() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement18() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement28()
+	return p.cur.onSectionTitleInlineElement18()
 }
 
-func (c *current) onSectionTitleElement31() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement21() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
 
 }
 
-func (p *parser) callonSectionTitleElement31() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement21() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement31()
+	return p.cur.onSectionTitleInlineElement21()
 }
 
-func (c *current) onSectionTitleElement38() (bool, error) {
+func (c *current) onSectionTitleInlineElement28() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonSectionTitleElement38() (bool, error) {
+func (p *parser) callonSectionTitleInlineElement28() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement38()
+	return p.cur.onSectionTitleInlineElement28()
 }
 
-func (c *current) onSectionTitleElement39() (bool, error) {
+func (c *current) onSectionTitleInlineElement29() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonSectionTitleElement39() (bool, error) {
+func (p *parser) callonSectionTitleInlineElement29() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement39()
+	return p.cur.onSectionTitleInlineElement29()
 }
 
-func (c *current) onSectionTitleElement36() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement26() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonSectionTitleElement36() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement26() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement36()
+	return p.cur.onSectionTitleInlineElement26()
 }
 
-func (c *current) onSectionTitleElement48() (bool, error) {
+func (c *current) onSectionTitleInlineElement38() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonSectionTitleElement48() (bool, error) {
+func (p *parser) callonSectionTitleInlineElement38() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement48()
+	return p.cur.onSectionTitleInlineElement38()
 }
 
-func (c *current) onSectionTitleElement52() (bool, error) {
+func (c *current) onSectionTitleInlineElement42() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonSectionTitleElement52() (bool, error) {
+func (p *parser) callonSectionTitleInlineElement42() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement52()
+	return p.cur.onSectionTitleInlineElement42()
 }
 
-func (c *current) onSectionTitleElement44() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement34() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement44() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement34() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement44()
+	return p.cur.onSectionTitleInlineElement34()
 }
 
-func (c *current) onSectionTitleElement63() (bool, error) {
+func (c *current) onSectionTitleInlineElement53() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonSectionTitleElement63() (bool, error) {
+func (p *parser) callonSectionTitleInlineElement53() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement63()
+	return p.cur.onSectionTitleInlineElement53()
 }
 
-func (c *current) onSectionTitleElement65() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement55() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement65() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement55() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement65()
+	return p.cur.onSectionTitleInlineElement55()
 }
 
-func (c *current) onSectionTitleElement61(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement51(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleElement61() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement51() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement61(stack["element"])
+	return p.cur.onSectionTitleInlineElement51(stack["element"])
 }
 
-func (c *current) onSectionTitleElement70() (bool, error) {
+func (c *current) onSectionTitleInlineElement60() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonSectionTitleElement70() (bool, error) {
+func (p *parser) callonSectionTitleInlineElement60() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement70()
+	return p.cur.onSectionTitleInlineElement60()
 }
 
-func (c *current) onSectionTitleElement77() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement67() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement77() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement67() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement77()
+	return p.cur.onSectionTitleInlineElement67()
 }
 
-func (c *current) onSectionTitleElement73(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement63(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -71878,242 +72029,242 @@ func (c *current) onSectionTitleElement73(name interface{}) (interface{}, error)
 
 }
 
-func (p *parser) callonSectionTitleElement73() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement63() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement73(stack["name"])
+	return p.cur.onSectionTitleInlineElement63(stack["name"])
 }
 
-func (c *current) onSectionTitleElement87() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement77() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement87() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement77() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement87()
+	return p.cur.onSectionTitleInlineElement77()
 }
 
-func (c *current) onSectionTitleElement83(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement73(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement83() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement73() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement83(stack["name"])
+	return p.cur.onSectionTitleInlineElement73(stack["name"])
 }
 
-func (c *current) onSectionTitleElement97() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement87() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement97() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement87() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement97()
+	return p.cur.onSectionTitleInlineElement87()
 }
 
-func (c *current) onSectionTitleElement109() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement99() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement109() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement99() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement109()
+	return p.cur.onSectionTitleInlineElement99()
 }
 
-func (c *current) onSectionTitleElement111() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement101() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement111() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement101() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement111()
+	return p.cur.onSectionTitleInlineElement101()
 }
 
-func (c *current) onSectionTitleElement104(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement94(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement104() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement94() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement104(stack["start"])
+	return p.cur.onSectionTitleInlineElement94(stack["start"])
 }
 
-func (c *current) onSectionTitleElement93(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement83(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement93() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement83() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement93(stack["name"], stack["start"])
+	return p.cur.onSectionTitleInlineElement83(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement119() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement109() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement119() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement109() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement119()
+	return p.cur.onSectionTitleInlineElement109()
 }
 
-func (c *current) onSectionTitleElement131() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement121() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement131() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement121() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement131()
+	return p.cur.onSectionTitleInlineElement121()
 }
 
-func (c *current) onSectionTitleElement133() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement123() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement133() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement123() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement133()
+	return p.cur.onSectionTitleInlineElement123()
 }
 
-func (c *current) onSectionTitleElement126(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement116(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement126() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement116() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement126(stack["start"])
+	return p.cur.onSectionTitleInlineElement116(stack["start"])
 }
 
-func (c *current) onSectionTitleElement115(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement105(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement115() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement105() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement115(stack["name"], stack["start"])
+	return p.cur.onSectionTitleInlineElement105(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement68(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement58(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleElement68() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement58() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement68(stack["element"])
+	return p.cur.onSectionTitleInlineElement58(stack["element"])
 }
 
-func (c *current) onSectionTitleElement141() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement131() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleElement141() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement131() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement141()
+	return p.cur.onSectionTitleInlineElement131()
 }
 
-func (c *current) onSectionTitleElement137(ref interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement127(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonSectionTitleElement137() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement127() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement137(stack["ref"])
+	return p.cur.onSectionTitleInlineElement127(stack["ref"])
 }
 
-func (c *current) onSectionTitleElement147() (bool, error) {
+func (c *current) onSectionTitleInlineElement137() (bool, error) {
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonSectionTitleElement147() (bool, error) {
+func (p *parser) callonSectionTitleInlineElement137() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement147()
+	return p.cur.onSectionTitleInlineElement137()
 }
 
-func (c *current) onSectionTitleElement157() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement147() (interface{}, error) {
 	// spaces, commas and dots are allowed in this syntax
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement157() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement147() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement157()
+	return p.cur.onSectionTitleInlineElement147()
 }
 
-func (c *current) onSectionTitleElement164() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement154() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleElement164() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement154() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement164()
+	return p.cur.onSectionTitleInlineElement154()
 }
 
-func (c *current) onSectionTitleElement160(ref interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement150(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonSectionTitleElement160() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement150() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement160(stack["ref"])
+	return p.cur.onSectionTitleInlineElement150(stack["ref"])
 }
 
-func (c *current) onSectionTitleElement170() (bool, error) {
+func (c *current) onSectionTitleInlineElement160() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonSectionTitleElement170() (bool, error) {
+func (p *parser) callonSectionTitleInlineElement160() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement170()
+	return p.cur.onSectionTitleInlineElement160()
 }
 
-func (c *current) onSectionTitleElement177() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement167() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement177() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement167() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement177()
+	return p.cur.onSectionTitleInlineElement167()
 }
 
-func (c *current) onSectionTitleElement173(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement163(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -72121,297 +72272,281 @@ func (c *current) onSectionTitleElement173(name interface{}) (interface{}, error
 
 }
 
-func (p *parser) callonSectionTitleElement173() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement163() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement173(stack["name"])
+	return p.cur.onSectionTitleInlineElement163(stack["name"])
 }
 
-func (c *current) onSectionTitleElement187() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement177() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement187() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement177() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement187()
+	return p.cur.onSectionTitleInlineElement177()
 }
 
-func (c *current) onSectionTitleElement183(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement173(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement183() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement173() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement183(stack["name"])
+	return p.cur.onSectionTitleInlineElement173(stack["name"])
 }
 
-func (c *current) onSectionTitleElement197() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement187() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement197() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement187() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement197()
+	return p.cur.onSectionTitleInlineElement187()
 }
 
-func (c *current) onSectionTitleElement209() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement199() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement209() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement199() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement209()
+	return p.cur.onSectionTitleInlineElement199()
 }
 
-func (c *current) onSectionTitleElement211() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement201() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement211() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement201() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement211()
+	return p.cur.onSectionTitleInlineElement201()
 }
 
-func (c *current) onSectionTitleElement204(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement194(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement204() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement194() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement204(stack["start"])
+	return p.cur.onSectionTitleInlineElement194(stack["start"])
 }
 
-func (c *current) onSectionTitleElement193(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement183(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement193() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement183() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement193(stack["name"], stack["start"])
+	return p.cur.onSectionTitleInlineElement183(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement219() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement209() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement219() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement209() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement219()
+	return p.cur.onSectionTitleInlineElement209()
 }
 
-func (c *current) onSectionTitleElement231() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement221() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement231() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement221() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement231()
+	return p.cur.onSectionTitleInlineElement221()
 }
 
-func (c *current) onSectionTitleElement233() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement223() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement233() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement223() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement233()
+	return p.cur.onSectionTitleInlineElement223()
 }
 
-func (c *current) onSectionTitleElement226(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement216(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleElement226() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement216() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement226(stack["start"])
+	return p.cur.onSectionTitleInlineElement216(stack["start"])
 }
 
-func (c *current) onSectionTitleElement215(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement205(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonSectionTitleElement215() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement205() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement215(stack["name"], stack["start"])
+	return p.cur.onSectionTitleInlineElement205(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleElement168(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement158(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleElement168() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement158() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement168(stack["element"])
+	return p.cur.onSectionTitleInlineElement158(stack["element"])
 }
 
-func (c *current) onSectionTitleElement237() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement227() (interface{}, error) {
 
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleElement237() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement227() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement237()
+	return p.cur.onSectionTitleInlineElement227()
 }
 
-func (c *current) onSectionTitleElement153(elements interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement143(elements interface{}) (interface{}, error) {
 	return types.Reduce(elements, strings.TrimSpace), nil
 
 }
 
-func (p *parser) callonSectionTitleElement153() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement143() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement153(stack["elements"])
+	return p.cur.onSectionTitleInlineElement143(stack["elements"])
 }
 
-func (c *current) onSectionTitleElement149(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement139(id interface{}) (interface{}, error) {
 	return types.NewIDAttribute(id)
 
 }
 
-func (p *parser) callonSectionTitleElement149() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement139() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement149(stack["id"])
+	return p.cur.onSectionTitleInlineElement139(stack["id"])
 }
 
-func (c *current) onSectionTitleElement241() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement231() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement241() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement231() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement241()
+	return p.cur.onSectionTitleInlineElement231()
 }
 
-func (c *current) onSectionTitleElement245() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement235() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleElement245() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement235() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement245()
+	return p.cur.onSectionTitleInlineElement235()
 }
 
-func (c *current) onSectionTitleElement145(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement135(id interface{}) (interface{}, error) {
 
 	return id, nil
 
 }
 
-func (p *parser) callonSectionTitleElement145() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement135() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement145(stack["id"])
+	return p.cur.onSectionTitleInlineElement135(stack["id"])
 }
 
-func (c *current) onSectionTitleElement256() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement246() (interface{}, error) {
 	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement256() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement246() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement256()
+	return p.cur.onSectionTitleInlineElement246()
 }
 
-func (c *current) onSectionTitleElement252(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement242(id interface{}) (interface{}, error) {
 	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
 
 }
 
-func (p *parser) callonSectionTitleElement252() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement242() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement252(stack["id"])
+	return p.cur.onSectionTitleInlineElement242(stack["id"])
 }
 
-func (c *current) onSectionTitleElement264() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement254() (interface{}, error) {
 	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleElement264() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement254() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement264()
+	return p.cur.onSectionTitleInlineElement254()
 }
 
-func (c *current) onSectionTitleElement260(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement250(id interface{}) (interface{}, error) {
 	// no EOL here since there can be multiple InlineElementID on the same line
 	return types.NewInlineAnchor(id.(string))
 
 }
 
-func (p *parser) callonSectionTitleElement260() (interface{}, error) {
-	stack := p.vstack[len(p.vstack)-1]
-	_ = stack
-	return p.cur.onSectionTitleElement260(stack["id"])
-}
-
-func (c *current) onSectionTitleElement269() (interface{}, error) {
-
-	if log.IsLevelEnabled(log.DebugLevel) {
-		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
-	}
-	return string(c.text), nil
-
-}
-
-func (p *parser) callonSectionTitleElement269() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement250() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement269()
+	return p.cur.onSectionTitleInlineElement250(stack["id"])
 }
 
-func (c *current) onSectionTitleElement1(element interface{}) (interface{}, error) {
-	c.trackElement(element)
-	return element, nil
+func (c *current) onSectionTitleInlineElement1(element interface{}) (interface{}, error) {
+	return c.withinLine(element), nil
 
 }
 
-func (p *parser) callonSectionTitleElement1() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement1() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleElement1(stack["element"])
+	return p.cur.onSectionTitleInlineElement1(stack["element"])
 }
 
 func (c *current) onNormalGroup14() (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index bde9e9e..b369ecb 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -343,7 +343,9 @@ AttributeDeclarationValueElements <-
 AttributeDeclarationValueElement <- 
     !("\\"? Space* EOL)
     element:(
-        InlinePassthrough
+        (element:(AttributeDeclarationValueInlinePassthrough) &{ return element != nil, nil } {
+            return element, nil
+        })
         / ([^\r\n<>&{ ]+ {
                 return types.NewStringElement(string(c.text))
         })
@@ -357,6 +359,11 @@ AttributeDeclarationValueElement <-
         return element, nil
     }
 
+AttributeDeclarationValueInlinePassthrough <- 
+    element:(InlinePassthrough) {
+        return c.withinLine(element), nil
+    }
+
 AttributeReset <- ":!" name:(AttributeName) ":" Space* EOL {
         return types.NewAttributeReset(name.(string), string(c.text))
     } / ":" name:(AttributeName) "!:" Space* EOL {
@@ -2322,6 +2329,16 @@ SectionTitle <-
 
 SectionTitleElement <-
     !EOL
+    element:(
+        (element:(SectionTitleInlineElement) &{ return element != nil, nil } {
+            return element, nil
+        })
+        / AnyChar) {
+            c.trackElement(element)
+            return element, nil
+        }
+
+SectionTitleInlineElement <-
     element:(
         InlineText
         / Spaces
@@ -2337,10 +2354,8 @@ SectionTitleElement <-
         / ElementPlaceHolder // needed when parsing a second time, after first pass returned attribute substitutions
         / SectionTitleLegacyID
         / InlineAnchor // must be after LegacyElementID
-        / InlineFootnote
-        / AnyChar) {
-            c.trackElement(element)
-            return element, nil
+        / InlineFootnote) {
+            return c.withinLine(element), nil
         }
 
 SectionTitleLegacyID <-
diff --git a/pkg/parser/parser_ext.go b/pkg/parser/parser_ext.go
index 1fd921d..5d8e144 100644
--- a/pkg/parser/parser_ext.go
+++ b/pkg/parser/parser_ext.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"sort"
@@ -127,6 +128,14 @@ func (c *current) trackElement(element interface{}) {
 	c.globalStore[suffixTrackingKey] = rune(c.text[len(c.text)-1])
 }
 
+// withinLine returns the given element, or `nil` if its source is on multiple lines
+func (c *current) withinLine(element interface{}) interface{} {
+	if bytes.ContainsAny(c.text, "\r\n") {
+		return nil
+	}
+	return element
+}
+
 func (c *current) isPrecededBySpace() bool {
 	if r, ok := c.globalStore[suffixTrackingKey].(rune); ok {
 		log.Debugf("---checking if preceded by space (tracked='%s')", string(r))
-- 
2.43.0


From e4599d90695eb5903fe59f813b5ab06b0ad0a9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:17 +0000
Subject: [PATCH 061/108] fix: ignore comments between the rows of tables

a comment line in a table made a paragraph of the table, or was taken as the format of a cell
---
 pkg/parser/parser.go  | 12506 +++++++++++++++++++++-------------------
 pkg/parser/parser.peg |     8 +-
 2 files changed, 6518 insertions(+), 5996 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index f232765..df61acf 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 367, col: 49, offset: 11183},
 													expr: &actionExpr{
-														pos: position{line: 2883, col: 10, offset: 91286},
+														pos: position{line: 2889, col: 10, offset: 91398},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2883, col: 10, offset: 91286},
+															pos:        position{line: 2889, col: 10, offset: 91398},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2905, col: 8, offset: 91684},
+													pos: position{line: 2911, col: 8, offset: 91796},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2892, col: 12, offset: 91457},
+															pos: position{line: 2898, col: 12, offset: 91569},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2892, col: 13, offset: 91458},
+																pos: position{line: 2898, col: 13, offset: 91570},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 13, offset: 91458},
+																		pos:        position{line: 2898, col: 13, offset: 91570},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 20, offset: 91465},
+																		pos:        position{line: 2898, col: 20, offset: 91577},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 29, offset: 91474},
+																		pos:        position{line: 2898, col: 29, offset: 91586},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2902, col: 8, offset: 91634},
+															pos: position{line: 2908, col: 8, offset: 91746},
 															expr: &anyMatcher{
-																line: 2902, col: 9, offset: 91635,
+																line: 2908, col: 9, offset: 91747,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 369, col: 39, offset: 11304},
 													expr: &actionExpr{
-														pos: position{line: 2883, col: 10, offset: 91286},
+														pos: position{line: 2889, col: 10, offset: 91398},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2883, col: 10, offset: 91286},
+															pos:        position{line: 2889, col: 10, offset: 91398},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2905, col: 8, offset: 91684},
+													pos: position{line: 2911, col: 8, offset: 91796},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2892, col: 12, offset: 91457},
+															pos: position{line: 2898, col: 12, offset: 91569},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2892, col: 13, offset: 91458},
+																pos: position{line: 2898, col: 13, offset: 91570},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 13, offset: 91458},
+																		pos:        position{line: 2898, col: 13, offset: 91570},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 20, offset: 91465},
+																		pos:        position{line: 2898, col: 20, offset: 91577},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 29, offset: 91474},
+																		pos:        position{line: 2898, col: 29, offset: 91586},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2902, col: 8, offset: 91634},
+															pos: position{line: 2908, col: 8, offset: 91746},
 															expr: &anyMatcher{
-																line: 2902, col: 9, offset: 91635,
+																line: 2908, col: 9, offset: 91747,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2883, col: 10, offset: 91286},
+														pos: position{line: 2889, col: 10, offset: 91398},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2883, col: 10, offset: 91286},
+															pos:        position{line: 2889, col: 10, offset: 91398},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2902, col: 8, offset: 91634},
+													pos: position{line: 2908, col: 8, offset: 91746},
 													expr: &anyMatcher{
-														line: 2902, col: 9, offset: 91635,
+														line: 2908, col: 9, offset: 91747,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2883, col: 10, offset: 91286},
+														pos: position{line: 2889, col: 10, offset: 91398},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2883, col: 10, offset: 91286},
+															pos:        position{line: 2889, col: 10, offset: 91398},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2902, col: 8, offset: 91634},
+													pos: position{line: 2908, col: 8, offset: 91746},
 													expr: &anyMatcher{
-														line: 2902, col: 9, offset: 91635,
+														line: 2908, col: 9, offset: 91747,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 91113},
+																pos: position{line: 2881, col: 12, offset: 91225},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2875, col: 13, offset: 91114},
+																	pos: position{line: 2881, col: 13, offset: 91226},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2875, col: 13, offset: 91114},
+																			pos: position{line: 2881, col: 13, offset: 91226},
 																			expr: &litMatcher{
-																				pos:        position{line: 2875, col: 13, offset: 91114},
+																				pos:        position{line: 2881, col: 13, offset: 91226},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2875, col: 18, offset: 91119},
+																			pos: position{line: 2881, col: 18, offset: 91231},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2875, col: 18, offset: 91119},
+																				pos:        position{line: 2881, col: 18, offset: 91231},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2883, col: 10, offset: 91286},
+														pos: position{line: 2889, col: 10, offset: 91398},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2883, col: 10, offset: 91286},
+															pos:        position{line: 2889, col: 10, offset: 91398},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2883, col: 10, offset: 91286},
+														pos: position{line: 2889, col: 10, offset: 91398},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2883, col: 10, offset: 91286},
+															pos:        position{line: 2889, col: 10, offset: 91398},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 91113},
+																pos: position{line: 2881, col: 12, offset: 91225},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2875, col: 13, offset: 91114},
+																	pos: position{line: 2881, col: 13, offset: 91226},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2875, col: 13, offset: 91114},
+																			pos: position{line: 2881, col: 13, offset: 91226},
 																			expr: &litMatcher{
-																				pos:        position{line: 2875, col: 13, offset: 91114},
+																				pos:        position{line: 2881, col: 13, offset: 91226},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2875, col: 18, offset: 91119},
+																			pos: position{line: 2881, col: 18, offset: 91231},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2875, col: 18, offset: 91119},
+																				pos:        position{line: 2881, col: 18, offset: 91231},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2883, col: 10, offset: 91286},
+														pos: position{line: 2889, col: 10, offset: 91398},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2883, col: 10, offset: 91286},
+															pos:        position{line: 2889, col: 10, offset: 91398},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2902, col: 8, offset: 91634},
+													pos: position{line: 2908, col: 8, offset: 91746},
 													expr: &anyMatcher{
-														line: 2902, col: 9, offset: 91635,
+														line: 2908, col: 9, offset: 91747,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2883, col: 10, offset: 91286},
+														pos: position{line: 2889, col: 10, offset: 91398},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2883, col: 10, offset: 91286},
+															pos:        position{line: 2889, col: 10, offset: 91398},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2902, col: 8, offset: 91634},
+													pos: position{line: 2908, col: 8, offset: 91746},
 													expr: &anyMatcher{
-														line: 2902, col: 9, offset: 91635,
+														line: 2908, col: 9, offset: 91747,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 734, col: 5, offset: 23388},
 													expr: &charClassMatcher{
-														pos:        position{line: 2773, col: 13, offset: 88381},
+														pos:        position{line: 2779, col: 13, offset: 88493},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 752, col: 8, offset: 24032},
 																			expr: &actionExpr{
-																				pos: position{line: 2883, col: 10, offset: 91286},
+																				pos: position{line: 2889, col: 10, offset: 91398},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2883, col: 10, offset: 91286},
+																					pos:        position{line: 2889, col: 10, offset: 91398},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2905, col: 8, offset: 91684},
+																			pos: position{line: 2911, col: 8, offset: 91796},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2892, col: 12, offset: 91457},
+																					pos: position{line: 2898, col: 12, offset: 91569},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2892, col: 13, offset: 91458},
+																						pos: position{line: 2898, col: 13, offset: 91570},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 13, offset: 91458},
+																								pos:        position{line: 2898, col: 13, offset: 91570},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 20, offset: 91465},
+																								pos:        position{line: 2898, col: 20, offset: 91577},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 29, offset: 91474},
+																								pos:        position{line: 2898, col: 29, offset: 91586},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 759, col: 8, offset: 24280},
 																			expr: &actionExpr{
-																				pos: position{line: 2883, col: 10, offset: 91286},
+																				pos: position{line: 2889, col: 10, offset: 91398},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2883, col: 10, offset: 91286},
+																					pos:        position{line: 2889, col: 10, offset: 91398},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2905, col: 8, offset: 91684},
+																			pos: position{line: 2911, col: 8, offset: 91796},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2892, col: 12, offset: 91457},
+																					pos: position{line: 2898, col: 12, offset: 91569},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2892, col: 13, offset: 91458},
+																						pos: position{line: 2898, col: 13, offset: 91570},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 13, offset: 91458},
+																								pos:        position{line: 2898, col: 13, offset: 91570},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 20, offset: 91465},
+																								pos:        position{line: 2898, col: 20, offset: 91577},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 29, offset: 91474},
+																								pos:        position{line: 2898, col: 29, offset: 91586},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 770, col: 52, offset: 24692},
 																			expr: &actionExpr{
-																				pos: position{line: 2883, col: 10, offset: 91286},
+																				pos: position{line: 2889, col: 10, offset: 91398},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2883, col: 10, offset: 91286},
+																					pos:        position{line: 2889, col: 10, offset: 91398},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2905, col: 8, offset: 91684},
+																			pos: position{line: 2911, col: 8, offset: 91796},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2892, col: 12, offset: 91457},
+																					pos: position{line: 2898, col: 12, offset: 91569},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2892, col: 13, offset: 91458},
+																						pos: position{line: 2898, col: 13, offset: 91570},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 13, offset: 91458},
+																								pos:        position{line: 2898, col: 13, offset: 91570},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 20, offset: 91465},
+																								pos:        position{line: 2898, col: 20, offset: 91577},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 29, offset: 91474},
+																								pos:        position{line: 2898, col: 29, offset: 91586},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 766, col: 8, offset: 24526},
 																			expr: &actionExpr{
-																				pos: position{line: 2883, col: 10, offset: 91286},
+																				pos: position{line: 2889, col: 10, offset: 91398},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2883, col: 10, offset: 91286},
+																					pos:        position{line: 2889, col: 10, offset: 91398},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2905, col: 8, offset: 91684},
+																			pos: position{line: 2911, col: 8, offset: 91796},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2892, col: 12, offset: 91457},
+																					pos: position{line: 2898, col: 12, offset: 91569},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2892, col: 13, offset: 91458},
+																						pos: position{line: 2898, col: 13, offset: 91570},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 13, offset: 91458},
+																								pos:        position{line: 2898, col: 13, offset: 91570},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 20, offset: 91465},
+																								pos:        position{line: 2898, col: 20, offset: 91577},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 29, offset: 91474},
+																								pos:        position{line: 2898, col: 29, offset: 91586},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 781, col: 8, offset: 25064},
 																			expr: &actionExpr{
-																				pos: position{line: 2883, col: 10, offset: 91286},
+																				pos: position{line: 2889, col: 10, offset: 91398},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2883, col: 10, offset: 91286},
+																					pos:        position{line: 2889, col: 10, offset: 91398},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2905, col: 8, offset: 91684},
+																			pos: position{line: 2911, col: 8, offset: 91796},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2892, col: 12, offset: 91457},
+																					pos: position{line: 2898, col: 12, offset: 91569},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2892, col: 13, offset: 91458},
+																						pos: position{line: 2898, col: 13, offset: 91570},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 13, offset: 91458},
+																								pos:        position{line: 2898, col: 13, offset: 91570},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 20, offset: 91465},
+																								pos:        position{line: 2898, col: 20, offset: 91577},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 29, offset: 91474},
+																								pos:        position{line: 2898, col: 29, offset: 91586},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 795, col: 8, offset: 25540},
 																			expr: &actionExpr{
-																				pos: position{line: 2883, col: 10, offset: 91286},
+																				pos: position{line: 2889, col: 10, offset: 91398},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2883, col: 10, offset: 91286},
+																					pos:        position{line: 2889, col: 10, offset: 91398},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2905, col: 8, offset: 91684},
+																			pos: position{line: 2911, col: 8, offset: 91796},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2892, col: 12, offset: 91457},
+																					pos: position{line: 2898, col: 12, offset: 91569},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2892, col: 13, offset: 91458},
+																						pos: position{line: 2898, col: 13, offset: 91570},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 13, offset: 91458},
+																								pos:        position{line: 2898, col: 13, offset: 91570},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 20, offset: 91465},
+																								pos:        position{line: 2898, col: 20, offset: 91577},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 29, offset: 91474},
+																								pos:        position{line: 2898, col: 29, offset: 91586},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 802, col: 8, offset: 25792},
 																			expr: &actionExpr{
-																				pos: position{line: 2883, col: 10, offset: 91286},
+																				pos: position{line: 2889, col: 10, offset: 91398},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2883, col: 10, offset: 91286},
+																					pos:        position{line: 2889, col: 10, offset: 91398},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2905, col: 8, offset: 91684},
+																			pos: position{line: 2911, col: 8, offset: 91796},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2892, col: 12, offset: 91457},
+																					pos: position{line: 2898, col: 12, offset: 91569},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2892, col: 13, offset: 91458},
+																						pos: position{line: 2898, col: 13, offset: 91570},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 13, offset: 91458},
+																								pos:        position{line: 2898, col: 13, offset: 91570},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 20, offset: 91465},
+																								pos:        position{line: 2898, col: 20, offset: 91577},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 29, offset: 91474},
+																								pos:        position{line: 2898, col: 29, offset: 91586},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 809, col: 8, offset: 26042},
 																			expr: &actionExpr{
-																				pos: position{line: 2883, col: 10, offset: 91286},
+																				pos: position{line: 2889, col: 10, offset: 91398},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2883, col: 10, offset: 91286},
+																					pos:        position{line: 2889, col: 10, offset: 91398},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2905, col: 8, offset: 91684},
+																			pos: position{line: 2911, col: 8, offset: 91796},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2892, col: 12, offset: 91457},
+																					pos: position{line: 2898, col: 12, offset: 91569},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2892, col: 13, offset: 91458},
+																						pos: position{line: 2898, col: 13, offset: 91570},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 13, offset: 91458},
+																								pos:        position{line: 2898, col: 13, offset: 91570},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 20, offset: 91465},
+																								pos:        position{line: 2898, col: 20, offset: 91577},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 29, offset: 91474},
+																								pos:        position{line: 2898, col: 29, offset: 91586},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 816, col: 8, offset: 26288},
 																			expr: &actionExpr{
-																				pos: position{line: 2883, col: 10, offset: 91286},
+																				pos: position{line: 2889, col: 10, offset: 91398},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2883, col: 10, offset: 91286},
+																					pos:        position{line: 2889, col: 10, offset: 91398},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2905, col: 8, offset: 91684},
+																			pos: position{line: 2911, col: 8, offset: 91796},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2892, col: 12, offset: 91457},
+																					pos: position{line: 2898, col: 12, offset: 91569},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2892, col: 13, offset: 91458},
+																						pos: position{line: 2898, col: 13, offset: 91570},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 13, offset: 91458},
+																								pos:        position{line: 2898, col: 13, offset: 91570},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 20, offset: 91465},
+																								pos:        position{line: 2898, col: 20, offset: 91577},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 29, offset: 91474},
+																								pos:        position{line: 2898, col: 29, offset: 91586},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2887, col: 11, offset: 91347},
+													pos: position{line: 2893, col: 11, offset: 91459},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2887, col: 11, offset: 91347},
+														pos: position{line: 2893, col: 11, offset: 91459},
 														expr: &charClassMatcher{
-															pos:        position{line: 2887, col: 11, offset: 91347},
+															pos:        position{line: 2893, col: 11, offset: 91459},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2833, col: 14, offset: 89879},
+													pos: position{line: 2839, col: 14, offset: 89991},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2833, col: 14, offset: 89879},
+														pos: position{line: 2839, col: 14, offset: 89991},
 														expr: &charClassMatcher{
-															pos:        position{line: 2833, col: 14, offset: 89879},
+															pos:        position{line: 2839, col: 14, offset: 89991},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2902, col: 8, offset: 91634},
+													pos: position{line: 2908, col: 8, offset: 91746},
 													expr: &anyMatcher{
-														line: 2902, col: 9, offset: 91635,
+														line: 2908, col: 9, offset: 91747,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2902, col: 8, offset: 91634},
+							pos: position{line: 2908, col: 8, offset: 91746},
 							expr: &anyMatcher{
-								line: 2902, col: 9, offset: 91635,
+								line: 2908, col: 9, offset: 91747,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2837, col: 17, offset: 89949},
+												pos: position{line: 2843, col: 17, offset: 90061},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2837, col: 17, offset: 89949},
+													pos:   position{line: 2843, col: 17, offset: 90061},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2854, col: 5, offset: 90403},
+														pos: position{line: 2860, col: 5, offset: 90515},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2854, col: 5, offset: 90403},
+															pos:   position{line: 2860, col: 5, offset: 90515},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2854, col: 14, offset: 90412},
+																pos: position{line: 2860, col: 14, offset: 90524},
 																expr: &choiceExpr{
-																	pos: position{line: 2855, col: 9, offset: 90422},
+																	pos: position{line: 2861, col: 9, offset: 90534},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2855, col: 9, offset: 90422},
+																			pos: position{line: 2861, col: 9, offset: 90534},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2855, col: 9, offset: 90422},
+																				pos: position{line: 2861, col: 9, offset: 90534},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2855, col: 9, offset: 90422},
+																						pos: position{line: 2861, col: 9, offset: 90534},
 																						expr: &litMatcher{
-																							pos:        position{line: 2855, col: 10, offset: 90423},
+																							pos:        position{line: 2861, col: 10, offset: 90535},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2856, col: 9, offset: 90451},
+																						pos: position{line: 2862, col: 9, offset: 90563},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2856, col: 10, offset: 90452},
+																							pos:        position{line: 2862, col: 10, offset: 90564},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2859, col: 11, offset: 90664},
+																			pos: position{line: 2865, col: 11, offset: 90776},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2859, col: 11, offset: 90664},
+																					pos:        position{line: 2865, col: 11, offset: 90776},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2859, col: 19, offset: 90672},
+																					pos: position{line: 2865, col: 19, offset: 90784},
 																					expr: &seqExpr{
-																						pos: position{line: 2859, col: 21, offset: 90674},
+																						pos: position{line: 2865, col: 21, offset: 90786},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2859, col: 21, offset: 90674},
+																								pos: position{line: 2865, col: 21, offset: 90786},
 																								expr: &actionExpr{
-																									pos: position{line: 2883, col: 10, offset: 91286},
+																									pos: position{line: 2889, col: 10, offset: 91398},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2883, col: 10, offset: 91286},
+																										pos:        position{line: 2889, col: 10, offset: 91398},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2859, col: 28, offset: 90681},
+																								pos: position{line: 2865, col: 28, offset: 90793},
 																								expr: &notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2862, col: 11, offset: 90801},
+																			pos: position{line: 2868, col: 11, offset: 90913},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2862, col: 11, offset: 90801},
+																				pos:        position{line: 2868, col: 11, offset: 90913},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2883, col: 10, offset: 91286},
+								pos: position{line: 2889, col: 10, offset: 91398},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2883, col: 10, offset: 91286},
+									pos:        position{line: 2889, col: 10, offset: 91398},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2905, col: 8, offset: 91684},
+							pos: position{line: 2911, col: 8, offset: 91796},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2892, col: 12, offset: 91457},
+									pos: position{line: 2898, col: 12, offset: 91569},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2892, col: 13, offset: 91458},
+										pos: position{line: 2898, col: 13, offset: 91570},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2892, col: 13, offset: 91458},
+												pos:        position{line: 2898, col: 13, offset: 91570},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2892, col: 20, offset: 91465},
+												pos:        position{line: 2898, col: 20, offset: 91577},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2892, col: 29, offset: 91474},
+												pos:        position{line: 2898, col: 29, offset: 91586},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2902, col: 8, offset: 91634},
+									pos: position{line: 2908, col: 8, offset: 91746},
 									expr: &anyMatcher{
-										line: 2902, col: 9, offset: 91635,
+										line: 2908, col: 9, offset: 91747,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 91113},
+																				pos: position{line: 2881, col: 12, offset: 91225},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2875, col: 13, offset: 91114},
+																					pos: position{line: 2881, col: 13, offset: 91226},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2875, col: 13, offset: 91114},
+																							pos: position{line: 2881, col: 13, offset: 91226},
 																							expr: &litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 91114},
+																								pos:        position{line: 2881, col: 13, offset: 91226},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2875, col: 18, offset: 91119},
+																							pos: position{line: 2881, col: 18, offset: 91231},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2875, col: 18, offset: 91119},
+																								pos:        position{line: 2881, col: 18, offset: 91231},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2875, col: 12, offset: 91113},
+																				pos: position{line: 2881, col: 12, offset: 91225},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2875, col: 13, offset: 91114},
+																					pos: position{line: 2881, col: 13, offset: 91226},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2875, col: 13, offset: 91114},
+																							pos: position{line: 2881, col: 13, offset: 91226},
 																							expr: &litMatcher{
-																								pos:        position{line: 2875, col: 13, offset: 91114},
+																								pos:        position{line: 2881, col: 13, offset: 91226},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2875, col: 18, offset: 91119},
+																							pos: position{line: 2881, col: 18, offset: 91231},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2875, col: 18, offset: 91119},
+																								pos:        position{line: 2881, col: 18, offset: 91231},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 12, offset: 91113},
+																		pos: position{line: 2881, col: 12, offset: 91225},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2875, col: 13, offset: 91114},
+																			pos: position{line: 2881, col: 13, offset: 91226},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2875, col: 13, offset: 91114},
+																					pos: position{line: 2881, col: 13, offset: 91226},
 																					expr: &litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 91114},
+																						pos:        position{line: 2881, col: 13, offset: 91226},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2875, col: 18, offset: 91119},
+																					pos: position{line: 2881, col: 18, offset: 91231},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2875, col: 18, offset: 91119},
+																						pos:        position{line: 2881, col: 18, offset: 91231},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 91113},
+																									pos: position{line: 2881, col: 12, offset: 91225},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2875, col: 13, offset: 91114},
+																										pos: position{line: 2881, col: 13, offset: 91226},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2875, col: 13, offset: 91114},
+																												pos: position{line: 2881, col: 13, offset: 91226},
 																												expr: &litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 91114},
+																													pos:        position{line: 2881, col: 13, offset: 91226},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2875, col: 18, offset: 91119},
+																												pos: position{line: 2881, col: 18, offset: 91231},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2875, col: 18, offset: 91119},
+																													pos:        position{line: 2881, col: 18, offset: 91231},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2875, col: 12, offset: 91113},
+																									pos: position{line: 2881, col: 12, offset: 91225},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2875, col: 13, offset: 91114},
+																										pos: position{line: 2881, col: 13, offset: 91226},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2875, col: 13, offset: 91114},
+																												pos: position{line: 2881, col: 13, offset: 91226},
 																												expr: &litMatcher{
-																													pos:        position{line: 2875, col: 13, offset: 91114},
+																													pos:        position{line: 2881, col: 13, offset: 91226},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2875, col: 18, offset: 91119},
+																												pos: position{line: 2881, col: 18, offset: 91231},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2875, col: 18, offset: 91119},
+																													pos:        position{line: 2881, col: 18, offset: 91231},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2875, col: 12, offset: 91113},
+																							pos: position{line: 2881, col: 12, offset: 91225},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2875, col: 13, offset: 91114},
+																								pos: position{line: 2881, col: 13, offset: 91226},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2875, col: 13, offset: 91114},
+																										pos: position{line: 2881, col: 13, offset: 91226},
 																										expr: &litMatcher{
-																											pos:        position{line: 2875, col: 13, offset: 91114},
+																											pos:        position{line: 2881, col: 13, offset: 91226},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2875, col: 18, offset: 91119},
+																										pos: position{line: 2881, col: 18, offset: 91231},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2875, col: 18, offset: 91119},
+																											pos:        position{line: 2881, col: 18, offset: 91231},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2875, col: 12, offset: 91113},
+														pos: position{line: 2881, col: 12, offset: 91225},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2875, col: 13, offset: 91114},
+															pos: position{line: 2881, col: 13, offset: 91226},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2875, col: 13, offset: 91114},
+																	pos: position{line: 2881, col: 13, offset: 91226},
 																	expr: &litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 91114},
+																		pos:        position{line: 2881, col: 13, offset: 91226},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2875, col: 18, offset: 91119},
+																	pos: position{line: 2881, col: 18, offset: 91231},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2875, col: 18, offset: 91119},
+																		pos:        position{line: 2881, col: 18, offset: 91231},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2875, col: 12, offset: 91113},
+														pos: position{line: 2881, col: 12, offset: 91225},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2875, col: 13, offset: 91114},
+															pos: position{line: 2881, col: 13, offset: 91226},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2875, col: 13, offset: 91114},
+																	pos: position{line: 2881, col: 13, offset: 91226},
 																	expr: &litMatcher{
-																		pos:        position{line: 2875, col: 13, offset: 91114},
+																		pos:        position{line: 2881, col: 13, offset: 91226},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2875, col: 18, offset: 91119},
+																	pos: position{line: 2881, col: 18, offset: 91231},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2875, col: 18, offset: 91119},
+																		pos:        position{line: 2881, col: 18, offset: 91231},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2875, col: 12, offset: 91113},
+												pos: position{line: 2881, col: 12, offset: 91225},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2875, col: 13, offset: 91114},
+													pos: position{line: 2881, col: 13, offset: 91226},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2875, col: 13, offset: 91114},
+															pos: position{line: 2881, col: 13, offset: 91226},
 															expr: &litMatcher{
-																pos:        position{line: 2875, col: 13, offset: 91114},
+																pos:        position{line: 2881, col: 13, offset: 91226},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2875, col: 18, offset: 91119},
+															pos: position{line: 2881, col: 18, offset: 91231},
 															expr: &charClassMatcher{
-																pos:        position{line: 2875, col: 18, offset: 91119},
+																pos:        position{line: 2881, col: 18, offset: 91231},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2902, col: 8, offset: 91634},
+							pos: position{line: 2908, col: 8, offset: 91746},
 							expr: &anyMatcher{
-								line: 2902, col: 9, offset: 91635,
+								line: 2908, col: 9, offset: 91747,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2777, col: 14, offset: 88455},
+																		pos: position{line: 2783, col: 14, offset: 88567},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2777, col: 14, offset: 88455},
+																			pos: position{line: 2783, col: 14, offset: 88567},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2777, col: 14, offset: 88455},
+																				pos:        position{line: 2783, col: 14, offset: 88567},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2777, col: 14, offset: 88455},
+																				pos: position{line: 2783, col: 14, offset: 88567},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2777, col: 14, offset: 88455},
+																					pos: position{line: 2783, col: 14, offset: 88567},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2777, col: 14, offset: 88455},
+																						pos:        position{line: 2783, col: 14, offset: 88567},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2777, col: 14, offset: 88455},
+																							pos: position{line: 2783, col: 14, offset: 88567},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2777, col: 14, offset: 88455},
+																								pos: position{line: 2783, col: 14, offset: 88567},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2777, col: 14, offset: 88455},
+																									pos:        position{line: 2783, col: 14, offset: 88567},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2777, col: 14, offset: 88455},
+																									pos: position{line: 2783, col: 14, offset: 88567},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2777, col: 14, offset: 88455},
+																										pos: position{line: 2783, col: 14, offset: 88567},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2777, col: 14, offset: 88455},
+																											pos:        position{line: 2783, col: 14, offset: 88567},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2902, col: 8, offset: 91634},
+							pos: position{line: 2908, col: 8, offset: 91746},
 							expr: &anyMatcher{
-								line: 2902, col: 9, offset: 91635,
+								line: 2908, col: 9, offset: 91747,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2777, col: 14, offset: 88455},
+																pos: position{line: 2783, col: 14, offset: 88567},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2777, col: 14, offset: 88455},
+																	pos: position{line: 2783, col: 14, offset: 88567},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2777, col: 14, offset: 88455},
+																		pos:        position{line: 2783, col: 14, offset: 88567},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2777, col: 14, offset: 88455},
+																pos: position{line: 2783, col: 14, offset: 88567},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2777, col: 14, offset: 88455},
+																	pos: position{line: 2783, col: 14, offset: 88567},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2777, col: 14, offset: 88455},
+																		pos:        position{line: 2783, col: 14, offset: 88567},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2905, col: 8, offset: 91684},
+							pos: position{line: 2911, col: 8, offset: 91796},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2892, col: 12, offset: 91457},
+									pos: position{line: 2898, col: 12, offset: 91569},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2892, col: 13, offset: 91458},
+										pos: position{line: 2898, col: 13, offset: 91570},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2892, col: 13, offset: 91458},
+												pos:        position{line: 2898, col: 13, offset: 91570},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2892, col: 20, offset: 91465},
+												pos:        position{line: 2898, col: 20, offset: 91577},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2892, col: 29, offset: 91474},
+												pos:        position{line: 2898, col: 29, offset: 91586},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2902, col: 8, offset: 91634},
+									pos: position{line: 2908, col: 8, offset: 91746},
 									expr: &anyMatcher{
-										line: 2902, col: 9, offset: 91635,
+										line: 2908, col: 9, offset: 91747,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2900, col: 11, offset: 91620},
+							pos: position{line: 2906, col: 11, offset: 91732},
 							expr: &anyMatcher{
-								line: 2900, col: 13, offset: 91622,
+								line: 2906, col: 13, offset: 91734,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 367, col: 49, offset: 11183},
 														expr: &actionExpr{
-															pos: position{line: 2883, col: 10, offset: 91286},
+															pos: position{line: 2889, col: 10, offset: 91398},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2883, col: 10, offset: 91286},
+																pos:        position{line: 2889, col: 10, offset: 91398},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2905, col: 8, offset: 91684},
+														pos: position{line: 2911, col: 8, offset: 91796},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2892, col: 12, offset: 91457},
+																pos: position{line: 2898, col: 12, offset: 91569},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2892, col: 13, offset: 91458},
+																	pos: position{line: 2898, col: 13, offset: 91570},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 13, offset: 91458},
+																			pos:        position{line: 2898, col: 13, offset: 91570},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 20, offset: 91465},
+																			pos:        position{line: 2898, col: 20, offset: 91577},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 29, offset: 91474},
+																			pos:        position{line: 2898, col: 29, offset: 91586},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2902, col: 8, offset: 91634},
+																pos: position{line: 2908, col: 8, offset: 91746},
 																expr: &anyMatcher{
-																	line: 2902, col: 9, offset: 91635,
+																	line: 2908, col: 9, offset: 91747,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 369, col: 39, offset: 11304},
 														expr: &actionExpr{
-															pos: position{line: 2883, col: 10, offset: 91286},
+															pos: position{line: 2889, col: 10, offset: 91398},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2883, col: 10, offset: 91286},
+																pos:        position{line: 2889, col: 10, offset: 91398},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2905, col: 8, offset: 91684},
+														pos: position{line: 2911, col: 8, offset: 91796},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2892, col: 12, offset: 91457},
+																pos: position{line: 2898, col: 12, offset: 91569},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2892, col: 13, offset: 91458},
+																	pos: position{line: 2898, col: 13, offset: 91570},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 13, offset: 91458},
+																			pos:        position{line: 2898, col: 13, offset: 91570},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 20, offset: 91465},
+																			pos:        position{line: 2898, col: 20, offset: 91577},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 29, offset: 91474},
+																			pos:        position{line: 2898, col: 29, offset: 91586},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2902, col: 8, offset: 91634},
+																pos: position{line: 2908, col: 8, offset: 91746},
 																expr: &anyMatcher{
-																	line: 2902, col: 9, offset: 91635,
+																	line: 2908, col: 9, offset: 91747,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 687, col: 14, offset: 21835},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2900, col: 11, offset: 91620},
+														pos: position{line: 2906, col: 11, offset: 91732},
 														expr: &anyMatcher{
-															line: 2900, col: 13, offset: 91622,
+															line: 2906, col: 13, offset: 91734,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 687, col: 21, offset: 21842},
 														expr: &actionExpr{
-															pos: position{line: 2883, col: 10, offset: 91286},
+															pos: position{line: 2889, col: 10, offset: 91398},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2883, col: 10, offset: 91286},
+																pos:        position{line: 2889, col: 10, offset: 91398},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2905, col: 8, offset: 91684},
+														pos: position{line: 2911, col: 8, offset: 91796},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2892, col: 12, offset: 91457},
+																pos: position{line: 2898, col: 12, offset: 91569},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2892, col: 13, offset: 91458},
+																	pos: position{line: 2898, col: 13, offset: 91570},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 13, offset: 91458},
+																			pos:        position{line: 2898, col: 13, offset: 91570},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 20, offset: 91465},
+																			pos:        position{line: 2898, col: 20, offset: 91577},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 29, offset: 91474},
+																			pos:        position{line: 2898, col: 29, offset: 91586},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2902, col: 8, offset: 91634},
+																pos: position{line: 2908, col: 8, offset: 91746},
 																expr: &anyMatcher{
-																	line: 2902, col: 9, offset: 91635,
+																	line: 2908, col: 9, offset: 91747,
 																},
 															},
 														},
@@ -4456,10 +4456,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 752, col: 8, offset: 24032},
 																		expr: &actionExpr{
-																			pos: position{line: 2883, col: 10, offset: 91286},
+																			pos: position{line: 2889, col: 10, offset: 91398},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2883, col: 10, offset: 91286},
+																				pos:        position{line: 2889, col: 10, offset: 91398},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2905, col: 8, offset: 91684},
+																		pos: position{line: 2911, col: 8, offset: 91796},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2892, col: 12, offset: 91457},
+																				pos: position{line: 2898, col: 12, offset: 91569},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2892, col: 13, offset: 91458},
+																					pos: position{line: 2898, col: 13, offset: 91570},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 13, offset: 91458},
+																							pos:        position{line: 2898, col: 13, offset: 91570},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 20, offset: 91465},
+																							pos:        position{line: 2898, col: 20, offset: 91577},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 29, offset: 91474},
+																							pos:        position{line: 2898, col: 29, offset: 91586},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2902, col: 8, offset: 91634},
+																				pos: position{line: 2908, col: 8, offset: 91746},
 																				expr: &anyMatcher{
-																					line: 2902, col: 9, offset: 91635,
+																					line: 2908, col: 9, offset: 91747,
 																				},
 																			},
 																		},
@@ -4572,10 +4572,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 752, col: 8, offset: 24032},
 																												expr: &actionExpr{
-																													pos: position{line: 2883, col: 10, offset: 91286},
+																													pos: position{line: 2889, col: 10, offset: 91398},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2883, col: 10, offset: 91286},
+																														pos:        position{line: 2889, col: 10, offset: 91398},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2905, col: 8, offset: 91684},
+																												pos: position{line: 2911, col: 8, offset: 91796},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2892, col: 12, offset: 91457},
+																														pos: position{line: 2898, col: 12, offset: 91569},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2892, col: 13, offset: 91458},
+																															pos: position{line: 2898, col: 13, offset: 91570},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 13, offset: 91458},
+																																	pos:        position{line: 2898, col: 13, offset: 91570},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 20, offset: 91465},
+																																	pos:        position{line: 2898, col: 20, offset: 91577},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 29, offset: 91474},
+																																	pos:        position{line: 2898, col: 29, offset: 91586},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2902, col: 8, offset: 91634},
+																														pos: position{line: 2908, col: 8, offset: 91746},
 																														expr: &anyMatcher{
-																															line: 2902, col: 9, offset: 91635,
+																															line: 2908, col: 9, offset: 91747,
 																														},
 																													},
 																												},
@@ -4632,9 +4632,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2902, col: 8, offset: 91634},
+																						pos: position{line: 2908, col: 8, offset: 91746},
 																						expr: &anyMatcher{
-																							line: 2902, col: 9, offset: 91635,
+																							line: 2908, col: 9, offset: 91747,
 																						},
 																					},
 																				},
@@ -4650,21 +4650,21 @@ var g = &grammar{
 																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2900, col: 11, offset: 91620},
+																							pos: position{line: 2906, col: 11, offset: 91732},
 																							expr: &anyMatcher{
-																								line: 2900, col: 13, offset: 91622,
+																								line: 2906, col: 13, offset: 91734,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2829, col: 13, offset: 89812},
+																								pos: position{line: 2835, col: 13, offset: 89924},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2829, col: 13, offset: 89812},
+																									pos: position{line: 2835, col: 13, offset: 89924},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2829, col: 13, offset: 89812},
+																										pos:        position{line: 2835, col: 13, offset: 89924},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -4771,10 +4771,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 752, col: 8, offset: 24032},
 																								expr: &actionExpr{
-																									pos: position{line: 2883, col: 10, offset: 91286},
+																									pos: position{line: 2889, col: 10, offset: 91398},
 																									run: (*parser).callonDocumentFragment159,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2883, col: 10, offset: 91286},
+																										pos:        position{line: 2889, col: 10, offset: 91398},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -4783,28 +4783,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2905, col: 8, offset: 91684},
+																								pos: position{line: 2911, col: 8, offset: 91796},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2892, col: 12, offset: 91457},
+																										pos: position{line: 2898, col: 12, offset: 91569},
 																										run: (*parser).callonDocumentFragment162,
 																										expr: &choiceExpr{
-																											pos: position{line: 2892, col: 13, offset: 91458},
+																											pos: position{line: 2898, col: 13, offset: 91570},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 13, offset: 91458},
+																													pos:        position{line: 2898, col: 13, offset: 91570},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 20, offset: 91465},
+																													pos:        position{line: 2898, col: 20, offset: 91577},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 29, offset: 91474},
+																													pos:        position{line: 2898, col: 29, offset: 91586},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -4813,9 +4813,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2902, col: 8, offset: 91634},
+																										pos: position{line: 2908, col: 8, offset: 91746},
 																										expr: &anyMatcher{
-																											line: 2902, col: 9, offset: 91635,
+																											line: 2908, col: 9, offset: 91747,
 																										},
 																									},
 																								},
@@ -4831,9 +4831,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2902, col: 8, offset: 91634},
+																		pos: position{line: 2908, col: 8, offset: 91746},
 																		expr: &anyMatcher{
-																			line: 2902, col: 9, offset: 91635,
+																			line: 2908, col: 9, offset: 91747,
 																		},
 																	},
 																},
@@ -4889,10 +4889,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 759, col: 8, offset: 24280},
 																		expr: &actionExpr{
-																			pos: position{line: 2883, col: 10, offset: 91286},
+																			pos: position{line: 2889, col: 10, offset: 91398},
 																			run: (*parser).callonDocumentFragment184,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2883, col: 10, offset: 91286},
+																				pos:        position{line: 2889, col: 10, offset: 91398},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4901,28 +4901,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2905, col: 8, offset: 91684},
+																		pos: position{line: 2911, col: 8, offset: 91796},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2892, col: 12, offset: 91457},
+																				pos: position{line: 2898, col: 12, offset: 91569},
 																				run: (*parser).callonDocumentFragment187,
 																				expr: &choiceExpr{
-																					pos: position{line: 2892, col: 13, offset: 91458},
+																					pos: position{line: 2898, col: 13, offset: 91570},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 13, offset: 91458},
+																							pos:        position{line: 2898, col: 13, offset: 91570},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 20, offset: 91465},
+																							pos:        position{line: 2898, col: 20, offset: 91577},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 29, offset: 91474},
+																							pos:        position{line: 2898, col: 29, offset: 91586},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4931,9 +4931,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2902, col: 8, offset: 91634},
+																				pos: position{line: 2908, col: 8, offset: 91746},
 																				expr: &anyMatcher{
-																					line: 2902, col: 9, offset: 91635,
+																					line: 2908, col: 9, offset: 91747,
 																				},
 																			},
 																		},
@@ -5005,10 +5005,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 759, col: 8, offset: 24280},
 																												expr: &actionExpr{
-																													pos: position{line: 2883, col: 10, offset: 91286},
+																													pos: position{line: 2889, col: 10, offset: 91398},
 																													run: (*parser).callonDocumentFragment212,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2883, col: 10, offset: 91286},
+																														pos:        position{line: 2889, col: 10, offset: 91398},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5017,28 +5017,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2905, col: 8, offset: 91684},
+																												pos: position{line: 2911, col: 8, offset: 91796},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2892, col: 12, offset: 91457},
+																														pos: position{line: 2898, col: 12, offset: 91569},
 																														run: (*parser).callonDocumentFragment215,
 																														expr: &choiceExpr{
-																															pos: position{line: 2892, col: 13, offset: 91458},
+																															pos: position{line: 2898, col: 13, offset: 91570},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 13, offset: 91458},
+																																	pos:        position{line: 2898, col: 13, offset: 91570},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 20, offset: 91465},
+																																	pos:        position{line: 2898, col: 20, offset: 91577},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 29, offset: 91474},
+																																	pos:        position{line: 2898, col: 29, offset: 91586},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5047,9 +5047,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2902, col: 8, offset: 91634},
+																														pos: position{line: 2908, col: 8, offset: 91746},
 																														expr: &anyMatcher{
-																															line: 2902, col: 9, offset: 91635,
+																															line: 2908, col: 9, offset: 91747,
 																														},
 																													},
 																												},
@@ -5065,9 +5065,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2902, col: 8, offset: 91634},
+																						pos: position{line: 2908, col: 8, offset: 91746},
 																						expr: &anyMatcher{
-																							line: 2902, col: 9, offset: 91635,
+																							line: 2908, col: 9, offset: 91747,
 																						},
 																					},
 																				},
@@ -5083,21 +5083,21 @@ var g = &grammar{
 																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2900, col: 11, offset: 91620},
+																							pos: position{line: 2906, col: 11, offset: 91732},
 																							expr: &anyMatcher{
-																								line: 2900, col: 13, offset: 91622,
+																								line: 2906, col: 13, offset: 91734,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2829, col: 13, offset: 89812},
+																								pos: position{line: 2835, col: 13, offset: 89924},
 																								run: (*parser).callonDocumentFragment231,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2829, col: 13, offset: 89812},
+																									pos: position{line: 2835, col: 13, offset: 89924},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2829, col: 13, offset: 89812},
+																										pos:        position{line: 2835, col: 13, offset: 89924},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5107,28 +5107,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonDocumentFragment235,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5137,9 +5137,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -5204,10 +5204,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 759, col: 8, offset: 24280},
 																								expr: &actionExpr{
-																									pos: position{line: 2883, col: 10, offset: 91286},
+																									pos: position{line: 2889, col: 10, offset: 91398},
 																									run: (*parser).callonDocumentFragment256,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2883, col: 10, offset: 91286},
+																										pos:        position{line: 2889, col: 10, offset: 91398},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5216,28 +5216,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2905, col: 8, offset: 91684},
+																								pos: position{line: 2911, col: 8, offset: 91796},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2892, col: 12, offset: 91457},
+																										pos: position{line: 2898, col: 12, offset: 91569},
 																										run: (*parser).callonDocumentFragment259,
 																										expr: &choiceExpr{
-																											pos: position{line: 2892, col: 13, offset: 91458},
+																											pos: position{line: 2898, col: 13, offset: 91570},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 13, offset: 91458},
+																													pos:        position{line: 2898, col: 13, offset: 91570},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 20, offset: 91465},
+																													pos:        position{line: 2898, col: 20, offset: 91577},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 29, offset: 91474},
+																													pos:        position{line: 2898, col: 29, offset: 91586},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5246,9 +5246,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2902, col: 8, offset: 91634},
+																										pos: position{line: 2908, col: 8, offset: 91746},
 																										expr: &anyMatcher{
-																											line: 2902, col: 9, offset: 91635,
+																											line: 2908, col: 9, offset: 91747,
 																										},
 																									},
 																								},
@@ -5264,9 +5264,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2902, col: 8, offset: 91634},
+																		pos: position{line: 2908, col: 8, offset: 91746},
 																		expr: &anyMatcher{
-																			line: 2902, col: 9, offset: 91635,
+																			line: 2908, col: 9, offset: 91747,
 																		},
 																	},
 																},
@@ -5318,10 +5318,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 770, col: 52, offset: 24692},
 																		expr: &actionExpr{
-																			pos: position{line: 2883, col: 10, offset: 91286},
+																			pos: position{line: 2889, col: 10, offset: 91398},
 																			run: (*parser).callonDocumentFragment280,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2883, col: 10, offset: 91286},
+																				pos:        position{line: 2889, col: 10, offset: 91398},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5330,28 +5330,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2905, col: 8, offset: 91684},
+																		pos: position{line: 2911, col: 8, offset: 91796},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2892, col: 12, offset: 91457},
+																				pos: position{line: 2898, col: 12, offset: 91569},
 																				run: (*parser).callonDocumentFragment283,
 																				expr: &choiceExpr{
-																					pos: position{line: 2892, col: 13, offset: 91458},
+																					pos: position{line: 2898, col: 13, offset: 91570},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 13, offset: 91458},
+																							pos:        position{line: 2898, col: 13, offset: 91570},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 20, offset: 91465},
+																							pos:        position{line: 2898, col: 20, offset: 91577},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 29, offset: 91474},
+																							pos:        position{line: 2898, col: 29, offset: 91586},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5360,9 +5360,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2902, col: 8, offset: 91634},
+																				pos: position{line: 2908, col: 8, offset: 91746},
 																				expr: &anyMatcher{
-																					line: 2902, col: 9, offset: 91635,
+																					line: 2908, col: 9, offset: 91747,
 																				},
 																			},
 																		},
@@ -5396,10 +5396,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 981, col: 40, offset: 30707},
 																						expr: &actionExpr{
-																							pos: position{line: 2883, col: 10, offset: 91286},
+																							pos: position{line: 2889, col: 10, offset: 91398},
 																							run: (*parser).callonDocumentFragment298,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2883, col: 10, offset: 91286},
+																								pos:        position{line: 2889, col: 10, offset: 91398},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5408,28 +5408,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2905, col: 8, offset: 91684},
+																						pos: position{line: 2911, col: 8, offset: 91796},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2892, col: 12, offset: 91457},
+																								pos: position{line: 2898, col: 12, offset: 91569},
 																								run: (*parser).callonDocumentFragment301,
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 13, offset: 91458},
+																									pos: position{line: 2898, col: 13, offset: 91570},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 13, offset: 91458},
+																											pos:        position{line: 2898, col: 13, offset: 91570},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 20, offset: 91465},
+																											pos:        position{line: 2898, col: 20, offset: 91577},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 29, offset: 91474},
+																											pos:        position{line: 2898, col: 29, offset: 91586},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5438,9 +5438,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2902, col: 8, offset: 91634},
+																								pos: position{line: 2908, col: 8, offset: 91746},
 																								expr: &anyMatcher{
-																									line: 2902, col: 9, offset: 91635,
+																									line: 2908, col: 9, offset: 91747,
 																								},
 																							},
 																						},
@@ -5458,21 +5458,21 @@ var g = &grammar{
 																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2900, col: 11, offset: 91620},
+																							pos: position{line: 2906, col: 11, offset: 91732},
 																							expr: &anyMatcher{
-																								line: 2900, col: 13, offset: 91622,
+																								line: 2906, col: 13, offset: 91734,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2829, col: 13, offset: 89812},
+																								pos: position{line: 2835, col: 13, offset: 89924},
 																								run: (*parser).callonDocumentFragment314,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2829, col: 13, offset: 89812},
+																									pos: position{line: 2835, col: 13, offset: 89924},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2829, col: 13, offset: 89812},
+																										pos:        position{line: 2835, col: 13, offset: 89924},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5482,28 +5482,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonDocumentFragment318,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5512,9 +5512,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -5542,10 +5542,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 981, col: 40, offset: 30707},
 																	expr: &actionExpr{
-																		pos: position{line: 2883, col: 10, offset: 91286},
+																		pos: position{line: 2889, col: 10, offset: 91398},
 																		run: (*parser).callonDocumentFragment329,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91286},
+																			pos:        position{line: 2889, col: 10, offset: 91398},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5554,28 +5554,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
+																			pos: position{line: 2898, col: 12, offset: 91569},
 																			run: (*parser).callonDocumentFragment332,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5584,9 +5584,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -5643,10 +5643,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 766, col: 8, offset: 24526},
 																		expr: &actionExpr{
-																			pos: position{line: 2883, col: 10, offset: 91286},
+																			pos: position{line: 2889, col: 10, offset: 91398},
 																			run: (*parser).callonDocumentFragment351,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2883, col: 10, offset: 91286},
+																				pos:        position{line: 2889, col: 10, offset: 91398},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5655,28 +5655,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2905, col: 8, offset: 91684},
+																		pos: position{line: 2911, col: 8, offset: 91796},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2892, col: 12, offset: 91457},
+																				pos: position{line: 2898, col: 12, offset: 91569},
 																				run: (*parser).callonDocumentFragment354,
 																				expr: &choiceExpr{
-																					pos: position{line: 2892, col: 13, offset: 91458},
+																					pos: position{line: 2898, col: 13, offset: 91570},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 13, offset: 91458},
+																							pos:        position{line: 2898, col: 13, offset: 91570},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 20, offset: 91465},
+																							pos:        position{line: 2898, col: 20, offset: 91577},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 29, offset: 91474},
+																							pos:        position{line: 2898, col: 29, offset: 91586},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5685,9 +5685,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2902, col: 8, offset: 91634},
+																				pos: position{line: 2908, col: 8, offset: 91746},
 																				expr: &anyMatcher{
-																					line: 2902, col: 9, offset: 91635,
+																					line: 2908, col: 9, offset: 91747,
 																				},
 																			},
 																		},
@@ -5759,10 +5759,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 766, col: 8, offset: 24526},
 																												expr: &actionExpr{
-																													pos: position{line: 2883, col: 10, offset: 91286},
+																													pos: position{line: 2889, col: 10, offset: 91398},
 																													run: (*parser).callonDocumentFragment379,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2883, col: 10, offset: 91286},
+																														pos:        position{line: 2889, col: 10, offset: 91398},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5771,28 +5771,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2905, col: 8, offset: 91684},
+																												pos: position{line: 2911, col: 8, offset: 91796},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2892, col: 12, offset: 91457},
+																														pos: position{line: 2898, col: 12, offset: 91569},
 																														run: (*parser).callonDocumentFragment382,
 																														expr: &choiceExpr{
-																															pos: position{line: 2892, col: 13, offset: 91458},
+																															pos: position{line: 2898, col: 13, offset: 91570},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 13, offset: 91458},
+																																	pos:        position{line: 2898, col: 13, offset: 91570},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 20, offset: 91465},
+																																	pos:        position{line: 2898, col: 20, offset: 91577},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 29, offset: 91474},
+																																	pos:        position{line: 2898, col: 29, offset: 91586},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5801,9 +5801,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2902, col: 8, offset: 91634},
+																														pos: position{line: 2908, col: 8, offset: 91746},
 																														expr: &anyMatcher{
-																															line: 2902, col: 9, offset: 91635,
+																															line: 2908, col: 9, offset: 91747,
 																														},
 																													},
 																												},
@@ -5819,9 +5819,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2902, col: 8, offset: 91634},
+																						pos: position{line: 2908, col: 8, offset: 91746},
 																						expr: &anyMatcher{
-																							line: 2902, col: 9, offset: 91635,
+																							line: 2908, col: 9, offset: 91747,
 																						},
 																					},
 																				},
@@ -5837,21 +5837,21 @@ var g = &grammar{
 																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2900, col: 11, offset: 91620},
+																							pos: position{line: 2906, col: 11, offset: 91732},
 																							expr: &anyMatcher{
-																								line: 2900, col: 13, offset: 91622,
+																								line: 2906, col: 13, offset: 91734,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2829, col: 13, offset: 89812},
+																								pos: position{line: 2835, col: 13, offset: 89924},
 																								run: (*parser).callonDocumentFragment398,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2829, col: 13, offset: 89812},
+																									pos: position{line: 2835, col: 13, offset: 89924},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2829, col: 13, offset: 89812},
+																										pos:        position{line: 2835, col: 13, offset: 89924},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5861,28 +5861,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonDocumentFragment402,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5891,9 +5891,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -5958,10 +5958,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 766, col: 8, offset: 24526},
 																								expr: &actionExpr{
-																									pos: position{line: 2883, col: 10, offset: 91286},
+																									pos: position{line: 2889, col: 10, offset: 91398},
 																									run: (*parser).callonDocumentFragment423,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2883, col: 10, offset: 91286},
+																										pos:        position{line: 2889, col: 10, offset: 91398},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5970,28 +5970,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2905, col: 8, offset: 91684},
+																								pos: position{line: 2911, col: 8, offset: 91796},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2892, col: 12, offset: 91457},
+																										pos: position{line: 2898, col: 12, offset: 91569},
 																										run: (*parser).callonDocumentFragment426,
 																										expr: &choiceExpr{
-																											pos: position{line: 2892, col: 13, offset: 91458},
+																											pos: position{line: 2898, col: 13, offset: 91570},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 13, offset: 91458},
+																													pos:        position{line: 2898, col: 13, offset: 91570},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 20, offset: 91465},
+																													pos:        position{line: 2898, col: 20, offset: 91577},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 29, offset: 91474},
+																													pos:        position{line: 2898, col: 29, offset: 91586},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6000,9 +6000,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2902, col: 8, offset: 91634},
+																										pos: position{line: 2908, col: 8, offset: 91746},
 																										expr: &anyMatcher{
-																											line: 2902, col: 9, offset: 91635,
+																											line: 2908, col: 9, offset: 91747,
 																										},
 																									},
 																								},
@@ -6018,9 +6018,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2902, col: 8, offset: 91634},
+																		pos: position{line: 2908, col: 8, offset: 91746},
 																		expr: &anyMatcher{
-																			line: 2902, col: 9, offset: 91635,
+																			line: 2908, col: 9, offset: 91747,
 																		},
 																	},
 																},
@@ -6076,10 +6076,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 781, col: 8, offset: 25064},
 																		expr: &actionExpr{
-																			pos: position{line: 2883, col: 10, offset: 91286},
+																			pos: position{line: 2889, col: 10, offset: 91398},
 																			run: (*parser).callonDocumentFragment448,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2883, col: 10, offset: 91286},
+																				pos:        position{line: 2889, col: 10, offset: 91398},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6088,28 +6088,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2905, col: 8, offset: 91684},
+																		pos: position{line: 2911, col: 8, offset: 91796},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2892, col: 12, offset: 91457},
+																				pos: position{line: 2898, col: 12, offset: 91569},
 																				run: (*parser).callonDocumentFragment451,
 																				expr: &choiceExpr{
-																					pos: position{line: 2892, col: 13, offset: 91458},
+																					pos: position{line: 2898, col: 13, offset: 91570},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 13, offset: 91458},
+																							pos:        position{line: 2898, col: 13, offset: 91570},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 20, offset: 91465},
+																							pos:        position{line: 2898, col: 20, offset: 91577},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 29, offset: 91474},
+																							pos:        position{line: 2898, col: 29, offset: 91586},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6118,9 +6118,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2902, col: 8, offset: 91634},
+																				pos: position{line: 2908, col: 8, offset: 91746},
 																				expr: &anyMatcher{
-																					line: 2902, col: 9, offset: 91635,
+																					line: 2908, col: 9, offset: 91747,
 																				},
 																			},
 																		},
@@ -6192,10 +6192,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 781, col: 8, offset: 25064},
 																												expr: &actionExpr{
-																													pos: position{line: 2883, col: 10, offset: 91286},
+																													pos: position{line: 2889, col: 10, offset: 91398},
 																													run: (*parser).callonDocumentFragment476,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2883, col: 10, offset: 91286},
+																														pos:        position{line: 2889, col: 10, offset: 91398},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6204,28 +6204,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2905, col: 8, offset: 91684},
+																												pos: position{line: 2911, col: 8, offset: 91796},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2892, col: 12, offset: 91457},
+																														pos: position{line: 2898, col: 12, offset: 91569},
 																														run: (*parser).callonDocumentFragment479,
 																														expr: &choiceExpr{
-																															pos: position{line: 2892, col: 13, offset: 91458},
+																															pos: position{line: 2898, col: 13, offset: 91570},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 13, offset: 91458},
+																																	pos:        position{line: 2898, col: 13, offset: 91570},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 20, offset: 91465},
+																																	pos:        position{line: 2898, col: 20, offset: 91577},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 29, offset: 91474},
+																																	pos:        position{line: 2898, col: 29, offset: 91586},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6234,9 +6234,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2902, col: 8, offset: 91634},
+																														pos: position{line: 2908, col: 8, offset: 91746},
 																														expr: &anyMatcher{
-																															line: 2902, col: 9, offset: 91635,
+																															line: 2908, col: 9, offset: 91747,
 																														},
 																													},
 																												},
@@ -6252,9 +6252,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2902, col: 8, offset: 91634},
+																						pos: position{line: 2908, col: 8, offset: 91746},
 																						expr: &anyMatcher{
-																							line: 2902, col: 9, offset: 91635,
+																							line: 2908, col: 9, offset: 91747,
 																						},
 																					},
 																				},
@@ -6270,21 +6270,21 @@ var g = &grammar{
 																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2900, col: 11, offset: 91620},
+																							pos: position{line: 2906, col: 11, offset: 91732},
 																							expr: &anyMatcher{
-																								line: 2900, col: 13, offset: 91622,
+																								line: 2906, col: 13, offset: 91734,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2829, col: 13, offset: 89812},
+																								pos: position{line: 2835, col: 13, offset: 89924},
 																								run: (*parser).callonDocumentFragment495,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2829, col: 13, offset: 89812},
+																									pos: position{line: 2835, col: 13, offset: 89924},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2829, col: 13, offset: 89812},
+																										pos:        position{line: 2835, col: 13, offset: 89924},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6294,28 +6294,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonDocumentFragment499,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6324,9 +6324,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -6391,10 +6391,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 781, col: 8, offset: 25064},
 																								expr: &actionExpr{
-																									pos: position{line: 2883, col: 10, offset: 91286},
+																									pos: position{line: 2889, col: 10, offset: 91398},
 																									run: (*parser).callonDocumentFragment520,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2883, col: 10, offset: 91286},
+																										pos:        position{line: 2889, col: 10, offset: 91398},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6403,28 +6403,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2905, col: 8, offset: 91684},
+																								pos: position{line: 2911, col: 8, offset: 91796},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2892, col: 12, offset: 91457},
+																										pos: position{line: 2898, col: 12, offset: 91569},
 																										run: (*parser).callonDocumentFragment523,
 																										expr: &choiceExpr{
-																											pos: position{line: 2892, col: 13, offset: 91458},
+																											pos: position{line: 2898, col: 13, offset: 91570},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 13, offset: 91458},
+																													pos:        position{line: 2898, col: 13, offset: 91570},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 20, offset: 91465},
+																													pos:        position{line: 2898, col: 20, offset: 91577},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 29, offset: 91474},
+																													pos:        position{line: 2898, col: 29, offset: 91586},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6433,9 +6433,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2902, col: 8, offset: 91634},
+																										pos: position{line: 2908, col: 8, offset: 91746},
 																										expr: &anyMatcher{
-																											line: 2902, col: 9, offset: 91635,
+																											line: 2908, col: 9, offset: 91747,
 																										},
 																									},
 																								},
@@ -6451,9 +6451,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2902, col: 8, offset: 91634},
+																		pos: position{line: 2908, col: 8, offset: 91746},
 																		expr: &anyMatcher{
-																			line: 2902, col: 9, offset: 91635,
+																			line: 2908, col: 9, offset: 91747,
 																		},
 																	},
 																},
@@ -6509,10 +6509,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 795, col: 8, offset: 25540},
 																		expr: &actionExpr{
-																			pos: position{line: 2883, col: 10, offset: 91286},
+																			pos: position{line: 2889, col: 10, offset: 91398},
 																			run: (*parser).callonDocumentFragment545,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2883, col: 10, offset: 91286},
+																				pos:        position{line: 2889, col: 10, offset: 91398},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6521,28 +6521,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2905, col: 8, offset: 91684},
+																		pos: position{line: 2911, col: 8, offset: 91796},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2892, col: 12, offset: 91457},
+																				pos: position{line: 2898, col: 12, offset: 91569},
 																				run: (*parser).callonDocumentFragment548,
 																				expr: &choiceExpr{
-																					pos: position{line: 2892, col: 13, offset: 91458},
+																					pos: position{line: 2898, col: 13, offset: 91570},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 13, offset: 91458},
+																							pos:        position{line: 2898, col: 13, offset: 91570},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 20, offset: 91465},
+																							pos:        position{line: 2898, col: 20, offset: 91577},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 29, offset: 91474},
+																							pos:        position{line: 2898, col: 29, offset: 91586},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6551,9 +6551,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2902, col: 8, offset: 91634},
+																				pos: position{line: 2908, col: 8, offset: 91746},
 																				expr: &anyMatcher{
-																					line: 2902, col: 9, offset: 91635,
+																					line: 2908, col: 9, offset: 91747,
 																				},
 																			},
 																		},
@@ -6625,10 +6625,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 795, col: 8, offset: 25540},
 																												expr: &actionExpr{
-																													pos: position{line: 2883, col: 10, offset: 91286},
+																													pos: position{line: 2889, col: 10, offset: 91398},
 																													run: (*parser).callonDocumentFragment573,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2883, col: 10, offset: 91286},
+																														pos:        position{line: 2889, col: 10, offset: 91398},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6637,28 +6637,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2905, col: 8, offset: 91684},
+																												pos: position{line: 2911, col: 8, offset: 91796},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2892, col: 12, offset: 91457},
+																														pos: position{line: 2898, col: 12, offset: 91569},
 																														run: (*parser).callonDocumentFragment576,
 																														expr: &choiceExpr{
-																															pos: position{line: 2892, col: 13, offset: 91458},
+																															pos: position{line: 2898, col: 13, offset: 91570},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 13, offset: 91458},
+																																	pos:        position{line: 2898, col: 13, offset: 91570},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 20, offset: 91465},
+																																	pos:        position{line: 2898, col: 20, offset: 91577},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 29, offset: 91474},
+																																	pos:        position{line: 2898, col: 29, offset: 91586},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6667,9 +6667,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2902, col: 8, offset: 91634},
+																														pos: position{line: 2908, col: 8, offset: 91746},
 																														expr: &anyMatcher{
-																															line: 2902, col: 9, offset: 91635,
+																															line: 2908, col: 9, offset: 91747,
 																														},
 																													},
 																												},
@@ -6685,9 +6685,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2902, col: 8, offset: 91634},
+																						pos: position{line: 2908, col: 8, offset: 91746},
 																						expr: &anyMatcher{
-																							line: 2902, col: 9, offset: 91635,
+																							line: 2908, col: 9, offset: 91747,
 																						},
 																					},
 																				},
@@ -6703,21 +6703,21 @@ var g = &grammar{
 																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2900, col: 11, offset: 91620},
+																							pos: position{line: 2906, col: 11, offset: 91732},
 																							expr: &anyMatcher{
-																								line: 2900, col: 13, offset: 91622,
+																								line: 2906, col: 13, offset: 91734,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2829, col: 13, offset: 89812},
+																								pos: position{line: 2835, col: 13, offset: 89924},
 																								run: (*parser).callonDocumentFragment592,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2829, col: 13, offset: 89812},
+																									pos: position{line: 2835, col: 13, offset: 89924},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2829, col: 13, offset: 89812},
+																										pos:        position{line: 2835, col: 13, offset: 89924},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6727,28 +6727,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonDocumentFragment596,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6757,9 +6757,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -6824,10 +6824,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 795, col: 8, offset: 25540},
 																								expr: &actionExpr{
-																									pos: position{line: 2883, col: 10, offset: 91286},
+																									pos: position{line: 2889, col: 10, offset: 91398},
 																									run: (*parser).callonDocumentFragment617,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2883, col: 10, offset: 91286},
+																										pos:        position{line: 2889, col: 10, offset: 91398},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6836,28 +6836,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2905, col: 8, offset: 91684},
+																								pos: position{line: 2911, col: 8, offset: 91796},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2892, col: 12, offset: 91457},
+																										pos: position{line: 2898, col: 12, offset: 91569},
 																										run: (*parser).callonDocumentFragment620,
 																										expr: &choiceExpr{
-																											pos: position{line: 2892, col: 13, offset: 91458},
+																											pos: position{line: 2898, col: 13, offset: 91570},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 13, offset: 91458},
+																													pos:        position{line: 2898, col: 13, offset: 91570},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 20, offset: 91465},
+																													pos:        position{line: 2898, col: 20, offset: 91577},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 29, offset: 91474},
+																													pos:        position{line: 2898, col: 29, offset: 91586},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6866,9 +6866,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2902, col: 8, offset: 91634},
+																										pos: position{line: 2908, col: 8, offset: 91746},
 																										expr: &anyMatcher{
-																											line: 2902, col: 9, offset: 91635,
+																											line: 2908, col: 9, offset: 91747,
 																										},
 																									},
 																								},
@@ -6884,9 +6884,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2902, col: 8, offset: 91634},
+																		pos: position{line: 2908, col: 8, offset: 91746},
 																		expr: &anyMatcher{
-																			line: 2902, col: 9, offset: 91635,
+																			line: 2908, col: 9, offset: 91747,
 																		},
 																	},
 																},
@@ -6948,12 +6948,12 @@ var g = &grammar{
 																								pos:   position{line: 2493, col: 49, offset: 80256},
 																								label: "content",
 																								expr: &actionExpr{
-																									pos: position{line: 2829, col: 13, offset: 89812},
+																									pos: position{line: 2835, col: 13, offset: 89924},
 																									run: (*parser).callonDocumentFragment644,
 																									expr: &zeroOrMoreExpr{
-																										pos: position{line: 2829, col: 13, offset: 89812},
+																										pos: position{line: 2835, col: 13, offset: 89924},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2829, col: 13, offset: 89812},
+																											pos:        position{line: 2835, col: 13, offset: 89924},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -6963,28 +6963,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2905, col: 8, offset: 91684},
+																								pos: position{line: 2911, col: 8, offset: 91796},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2892, col: 12, offset: 91457},
+																										pos: position{line: 2898, col: 12, offset: 91569},
 																										run: (*parser).callonDocumentFragment648,
 																										expr: &choiceExpr{
-																											pos: position{line: 2892, col: 13, offset: 91458},
+																											pos: position{line: 2898, col: 13, offset: 91570},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 13, offset: 91458},
+																													pos:        position{line: 2898, col: 13, offset: 91570},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 20, offset: 91465},
+																													pos:        position{line: 2898, col: 20, offset: 91577},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 29, offset: 91474},
+																													pos:        position{line: 2898, col: 29, offset: 91586},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6993,9 +6993,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2902, col: 8, offset: 91634},
+																										pos: position{line: 2908, col: 8, offset: 91746},
 																										expr: &anyMatcher{
-																											line: 2902, col: 9, offset: 91635,
+																											line: 2908, col: 9, offset: 91747,
 																										},
 																									},
 																								},
@@ -7022,18 +7022,18 @@ var g = &grammar{
 																						pos: position{line: 687, col: 14, offset: 21835},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2900, col: 11, offset: 91620},
+																								pos: position{line: 2906, col: 11, offset: 91732},
 																								expr: &anyMatcher{
-																									line: 2900, col: 13, offset: 91622,
+																									line: 2906, col: 13, offset: 91734,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 687, col: 21, offset: 21842},
 																								expr: &actionExpr{
-																									pos: position{line: 2883, col: 10, offset: 91286},
+																									pos: position{line: 2889, col: 10, offset: 91398},
 																									run: (*parser).callonDocumentFragment663,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2883, col: 10, offset: 91286},
+																										pos:        position{line: 2889, col: 10, offset: 91398},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7042,28 +7042,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2905, col: 8, offset: 91684},
+																								pos: position{line: 2911, col: 8, offset: 91796},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2892, col: 12, offset: 91457},
+																										pos: position{line: 2898, col: 12, offset: 91569},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &choiceExpr{
-																											pos: position{line: 2892, col: 13, offset: 91458},
+																											pos: position{line: 2898, col: 13, offset: 91570},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 13, offset: 91458},
+																													pos:        position{line: 2898, col: 13, offset: 91570},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 20, offset: 91465},
+																													pos:        position{line: 2898, col: 20, offset: 91577},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 29, offset: 91474},
+																													pos:        position{line: 2898, col: 29, offset: 91586},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7072,9 +7072,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2902, col: 8, offset: 91634},
+																										pos: position{line: 2908, col: 8, offset: 91746},
 																										expr: &anyMatcher{
-																											line: 2902, col: 9, offset: 91635,
+																											line: 2908, col: 9, offset: 91747,
 																										},
 																									},
 																								},
@@ -7093,12 +7093,12 @@ var g = &grammar{
 																				pos:   position{line: 1002, col: 5, offset: 31328},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2833, col: 14, offset: 89879},
+																					pos: position{line: 2839, col: 14, offset: 89991},
 																					run: (*parser).callonDocumentFragment675,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2833, col: 14, offset: 89879},
+																						pos: position{line: 2839, col: 14, offset: 89991},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2833, col: 14, offset: 89879},
+																							pos:        position{line: 2839, col: 14, offset: 89991},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -7108,28 +7108,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2905, col: 8, offset: 91684},
+																				pos: position{line: 2911, col: 8, offset: 91796},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2892, col: 12, offset: 91457},
+																						pos: position{line: 2898, col: 12, offset: 91569},
 																						run: (*parser).callonDocumentFragment679,
 																						expr: &choiceExpr{
-																							pos: position{line: 2892, col: 13, offset: 91458},
+																							pos: position{line: 2898, col: 13, offset: 91570},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91458},
+																									pos:        position{line: 2898, col: 13, offset: 91570},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2892, col: 20, offset: 91465},
+																									pos:        position{line: 2898, col: 20, offset: 91577},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2892, col: 29, offset: 91474},
+																									pos:        position{line: 2898, col: 29, offset: 91586},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -7138,9 +7138,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2902, col: 8, offset: 91634},
+																						pos: position{line: 2908, col: 8, offset: 91746},
 																						expr: &anyMatcher{
-																							line: 2902, col: 9, offset: 91635,
+																							line: 2908, col: 9, offset: 91747,
 																						},
 																					},
 																				},
@@ -7184,12 +7184,12 @@ var g = &grammar{
 																					pos:   position{line: 2493, col: 49, offset: 80256},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2829, col: 13, offset: 89812},
+																						pos: position{line: 2835, col: 13, offset: 89924},
 																						run: (*parser).callonDocumentFragment695,
 																						expr: &zeroOrMoreExpr{
-																							pos: position{line: 2829, col: 13, offset: 89812},
+																							pos: position{line: 2835, col: 13, offset: 89924},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2829, col: 13, offset: 89812},
+																								pos:        position{line: 2835, col: 13, offset: 89924},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7199,28 +7199,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2905, col: 8, offset: 91684},
+																					pos: position{line: 2911, col: 8, offset: 91796},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2892, col: 12, offset: 91457},
+																							pos: position{line: 2898, col: 12, offset: 91569},
 																							run: (*parser).callonDocumentFragment699,
 																							expr: &choiceExpr{
-																								pos: position{line: 2892, col: 13, offset: 91458},
+																								pos: position{line: 2898, col: 13, offset: 91570},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91458},
+																										pos:        position{line: 2898, col: 13, offset: 91570},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 20, offset: 91465},
+																										pos:        position{line: 2898, col: 20, offset: 91577},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 29, offset: 91474},
+																										pos:        position{line: 2898, col: 29, offset: 91586},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7229,9 +7229,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2902, col: 8, offset: 91634},
+																							pos: position{line: 2908, col: 8, offset: 91746},
 																							expr: &anyMatcher{
-																								line: 2902, col: 9, offset: 91635,
+																								line: 2908, col: 9, offset: 91747,
 																							},
 																						},
 																					},
@@ -7279,12 +7279,12 @@ var g = &grammar{
 																									pos:   position{line: 2493, col: 49, offset: 80256},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 2829, col: 13, offset: 89812},
+																										pos: position{line: 2835, col: 13, offset: 89924},
 																										run: (*parser).callonDocumentFragment716,
 																										expr: &zeroOrMoreExpr{
-																											pos: position{line: 2829, col: 13, offset: 89812},
+																											pos: position{line: 2835, col: 13, offset: 89924},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2829, col: 13, offset: 89812},
+																												pos:        position{line: 2835, col: 13, offset: 89924},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -7294,28 +7294,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2905, col: 8, offset: 91684},
+																									pos: position{line: 2911, col: 8, offset: 91796},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2892, col: 12, offset: 91457},
+																											pos: position{line: 2898, col: 12, offset: 91569},
 																											run: (*parser).callonDocumentFragment720,
 																											expr: &choiceExpr{
-																												pos: position{line: 2892, col: 13, offset: 91458},
+																												pos: position{line: 2898, col: 13, offset: 91570},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2892, col: 13, offset: 91458},
+																														pos:        position{line: 2898, col: 13, offset: 91570},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2892, col: 20, offset: 91465},
+																														pos:        position{line: 2898, col: 20, offset: 91577},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2892, col: 29, offset: 91474},
+																														pos:        position{line: 2898, col: 29, offset: 91586},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7324,9 +7324,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2902, col: 8, offset: 91634},
+																											pos: position{line: 2908, col: 8, offset: 91746},
 																											expr: &anyMatcher{
-																												line: 2902, col: 9, offset: 91635,
+																												line: 2908, col: 9, offset: 91747,
 																											},
 																										},
 																									},
@@ -7353,18 +7353,18 @@ var g = &grammar{
 																							pos: position{line: 687, col: 14, offset: 21835},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2900, col: 11, offset: 91620},
+																									pos: position{line: 2906, col: 11, offset: 91732},
 																									expr: &anyMatcher{
-																										line: 2900, col: 13, offset: 91622,
+																										line: 2906, col: 13, offset: 91734,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 687, col: 21, offset: 21842},
 																									expr: &actionExpr{
-																										pos: position{line: 2883, col: 10, offset: 91286},
+																										pos: position{line: 2889, col: 10, offset: 91398},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2883, col: 10, offset: 91286},
+																											pos:        position{line: 2889, col: 10, offset: 91398},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7373,28 +7373,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2905, col: 8, offset: 91684},
+																									pos: position{line: 2911, col: 8, offset: 91796},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2892, col: 12, offset: 91457},
+																											pos: position{line: 2898, col: 12, offset: 91569},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2892, col: 13, offset: 91458},
+																												pos: position{line: 2898, col: 13, offset: 91570},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2892, col: 13, offset: 91458},
+																														pos:        position{line: 2898, col: 13, offset: 91570},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2892, col: 20, offset: 91465},
+																														pos:        position{line: 2898, col: 20, offset: 91577},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2892, col: 29, offset: 91474},
+																														pos:        position{line: 2898, col: 29, offset: 91586},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7403,9 +7403,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2902, col: 8, offset: 91634},
+																											pos: position{line: 2908, col: 8, offset: 91746},
 																											expr: &anyMatcher{
-																												line: 2902, col: 9, offset: 91635,
+																												line: 2908, col: 9, offset: 91747,
 																											},
 																										},
 																									},
@@ -7424,12 +7424,12 @@ var g = &grammar{
 																					pos:   position{line: 1002, col: 5, offset: 31328},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2833, col: 14, offset: 89879},
+																						pos: position{line: 2839, col: 14, offset: 89991},
 																						run: (*parser).callonDocumentFragment747,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2833, col: 14, offset: 89879},
+																							pos: position{line: 2839, col: 14, offset: 89991},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2833, col: 14, offset: 89879},
+																								pos:        position{line: 2839, col: 14, offset: 89991},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7439,28 +7439,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2905, col: 8, offset: 91684},
+																					pos: position{line: 2911, col: 8, offset: 91796},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2892, col: 12, offset: 91457},
+																							pos: position{line: 2898, col: 12, offset: 91569},
 																							run: (*parser).callonDocumentFragment751,
 																							expr: &choiceExpr{
-																								pos: position{line: 2892, col: 13, offset: 91458},
+																								pos: position{line: 2898, col: 13, offset: 91570},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91458},
+																										pos:        position{line: 2898, col: 13, offset: 91570},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 20, offset: 91465},
+																										pos:        position{line: 2898, col: 20, offset: 91577},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 29, offset: 91474},
+																										pos:        position{line: 2898, col: 29, offset: 91586},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7469,9 +7469,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2902, col: 8, offset: 91634},
+																							pos: position{line: 2908, col: 8, offset: 91746},
 																							expr: &anyMatcher{
-																								line: 2902, col: 9, offset: 91635,
+																								line: 2908, col: 9, offset: 91747,
 																							},
 																						},
 																					},
@@ -7489,12 +7489,12 @@ var g = &grammar{
 																					pos:   position{line: 1807, col: 5, offset: 58385},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2833, col: 14, offset: 89879},
+																						pos: position{line: 2839, col: 14, offset: 89991},
 																						run: (*parser).callonDocumentFragment761,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2833, col: 14, offset: 89879},
+																							pos: position{line: 2839, col: 14, offset: 89991},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2833, col: 14, offset: 89879},
+																								pos:        position{line: 2839, col: 14, offset: 89991},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7508,28 +7508,28 @@ var g = &grammar{
 																					run: (*parser).callonDocumentFragment764,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2905, col: 8, offset: 91684},
+																					pos: position{line: 2911, col: 8, offset: 91796},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2892, col: 12, offset: 91457},
+																							pos: position{line: 2898, col: 12, offset: 91569},
 																							run: (*parser).callonDocumentFragment766,
 																							expr: &choiceExpr{
-																								pos: position{line: 2892, col: 13, offset: 91458},
+																								pos: position{line: 2898, col: 13, offset: 91570},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91458},
+																										pos:        position{line: 2898, col: 13, offset: 91570},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 20, offset: 91465},
+																										pos:        position{line: 2898, col: 20, offset: 91577},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 29, offset: 91474},
+																										pos:        position{line: 2898, col: 29, offset: 91586},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7538,9 +7538,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2902, col: 8, offset: 91634},
+																							pos: position{line: 2908, col: 8, offset: 91746},
 																							expr: &anyMatcher{
-																								line: 2902, col: 9, offset: 91635,
+																								line: 2908, col: 9, offset: 91747,
 																							},
 																						},
 																					},
@@ -7587,10 +7587,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 788, col: 8, offset: 25295},
 																		expr: &actionExpr{
-																			pos: position{line: 2883, col: 10, offset: 91286},
+																			pos: position{line: 2889, col: 10, offset: 91398},
 																			run: (*parser).callonDocumentFragment782,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2883, col: 10, offset: 91286},
+																				pos:        position{line: 2889, col: 10, offset: 91398},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7599,28 +7599,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2905, col: 8, offset: 91684},
+																		pos: position{line: 2911, col: 8, offset: 91796},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2892, col: 12, offset: 91457},
+																				pos: position{line: 2898, col: 12, offset: 91569},
 																				run: (*parser).callonDocumentFragment785,
 																				expr: &choiceExpr{
-																					pos: position{line: 2892, col: 13, offset: 91458},
+																					pos: position{line: 2898, col: 13, offset: 91570},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 13, offset: 91458},
+																							pos:        position{line: 2898, col: 13, offset: 91570},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 20, offset: 91465},
+																							pos:        position{line: 2898, col: 20, offset: 91577},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 29, offset: 91474},
+																							pos:        position{line: 2898, col: 29, offset: 91586},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7629,9 +7629,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2902, col: 8, offset: 91634},
+																				pos: position{line: 2908, col: 8, offset: 91746},
 																				expr: &anyMatcher{
-																					line: 2902, col: 9, offset: 91635,
+																					line: 2908, col: 9, offset: 91747,
 																				},
 																			},
 																		},
@@ -7679,10 +7679,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 788, col: 8, offset: 25295},
 																									expr: &actionExpr{
-																										pos: position{line: 2883, col: 10, offset: 91286},
+																										pos: position{line: 2889, col: 10, offset: 91398},
 																										run: (*parser).callonDocumentFragment804,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2883, col: 10, offset: 91286},
+																											pos:        position{line: 2889, col: 10, offset: 91398},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7691,28 +7691,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2905, col: 8, offset: 91684},
+																									pos: position{line: 2911, col: 8, offset: 91796},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2892, col: 12, offset: 91457},
+																											pos: position{line: 2898, col: 12, offset: 91569},
 																											run: (*parser).callonDocumentFragment807,
 																											expr: &choiceExpr{
-																												pos: position{line: 2892, col: 13, offset: 91458},
+																												pos: position{line: 2898, col: 13, offset: 91570},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2892, col: 13, offset: 91458},
+																														pos:        position{line: 2898, col: 13, offset: 91570},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2892, col: 20, offset: 91465},
+																														pos:        position{line: 2898, col: 20, offset: 91577},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2892, col: 29, offset: 91474},
+																														pos:        position{line: 2898, col: 29, offset: 91586},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7721,9 +7721,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2902, col: 8, offset: 91634},
+																											pos: position{line: 2908, col: 8, offset: 91746},
 																											expr: &anyMatcher{
-																												line: 2902, col: 9, offset: 91635,
+																												line: 2908, col: 9, offset: 91747,
 																											},
 																										},
 																									},
@@ -7732,9 +7732,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2902, col: 8, offset: 91634},
+																						pos: position{line: 2908, col: 8, offset: 91746},
 																						expr: &anyMatcher{
-																							line: 2902, col: 9, offset: 91635,
+																							line: 2908, col: 9, offset: 91747,
 																						},
 																					},
 																				},
@@ -7750,21 +7750,21 @@ var g = &grammar{
 																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2900, col: 11, offset: 91620},
+																							pos: position{line: 2906, col: 11, offset: 91732},
 																							expr: &anyMatcher{
-																								line: 2900, col: 13, offset: 91622,
+																								line: 2906, col: 13, offset: 91734,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2829, col: 13, offset: 89812},
+																								pos: position{line: 2835, col: 13, offset: 89924},
 																								run: (*parser).callonDocumentFragment822,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2829, col: 13, offset: 89812},
+																									pos: position{line: 2835, col: 13, offset: 89924},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2829, col: 13, offset: 89812},
+																										pos:        position{line: 2835, col: 13, offset: 89924},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7774,28 +7774,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonDocumentFragment826,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7804,9 +7804,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -7851,10 +7851,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 788, col: 8, offset: 25295},
 																					expr: &actionExpr{
-																						pos: position{line: 2883, col: 10, offset: 91286},
+																						pos: position{line: 2889, col: 10, offset: 91398},
 																						run: (*parser).callonDocumentFragment842,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2883, col: 10, offset: 91286},
+																							pos:        position{line: 2889, col: 10, offset: 91398},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7863,28 +7863,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2905, col: 8, offset: 91684},
+																					pos: position{line: 2911, col: 8, offset: 91796},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2892, col: 12, offset: 91457},
+																							pos: position{line: 2898, col: 12, offset: 91569},
 																							run: (*parser).callonDocumentFragment845,
 																							expr: &choiceExpr{
-																								pos: position{line: 2892, col: 13, offset: 91458},
+																								pos: position{line: 2898, col: 13, offset: 91570},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91458},
+																										pos:        position{line: 2898, col: 13, offset: 91570},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 20, offset: 91465},
+																										pos:        position{line: 2898, col: 20, offset: 91577},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 29, offset: 91474},
+																										pos:        position{line: 2898, col: 29, offset: 91586},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7893,9 +7893,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2902, col: 8, offset: 91634},
+																							pos: position{line: 2908, col: 8, offset: 91746},
 																							expr: &anyMatcher{
-																								line: 2902, col: 9, offset: 91635,
+																								line: 2908, col: 9, offset: 91747,
 																							},
 																						},
 																					},
@@ -7904,9 +7904,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2902, col: 8, offset: 91634},
+																		pos: position{line: 2908, col: 8, offset: 91746},
 																		expr: &anyMatcher{
-																			line: 2902, col: 9, offset: 91635,
+																			line: 2908, col: 9, offset: 91747,
 																		},
 																	},
 																},
@@ -7962,10 +7962,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 802, col: 8, offset: 25792},
 																		expr: &actionExpr{
-																			pos: position{line: 2883, col: 10, offset: 91286},
+																			pos: position{line: 2889, col: 10, offset: 91398},
 																			run: (*parser).callonDocumentFragment866,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2883, col: 10, offset: 91286},
+																				pos:        position{line: 2889, col: 10, offset: 91398},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7974,28 +7974,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2905, col: 8, offset: 91684},
+																		pos: position{line: 2911, col: 8, offset: 91796},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2892, col: 12, offset: 91457},
+																				pos: position{line: 2898, col: 12, offset: 91569},
 																				run: (*parser).callonDocumentFragment869,
 																				expr: &choiceExpr{
-																					pos: position{line: 2892, col: 13, offset: 91458},
+																					pos: position{line: 2898, col: 13, offset: 91570},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 13, offset: 91458},
+																							pos:        position{line: 2898, col: 13, offset: 91570},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 20, offset: 91465},
+																							pos:        position{line: 2898, col: 20, offset: 91577},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 29, offset: 91474},
+																							pos:        position{line: 2898, col: 29, offset: 91586},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8004,9 +8004,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2902, col: 8, offset: 91634},
+																				pos: position{line: 2908, col: 8, offset: 91746},
 																				expr: &anyMatcher{
-																					line: 2902, col: 9, offset: 91635,
+																					line: 2908, col: 9, offset: 91747,
 																				},
 																			},
 																		},
@@ -8078,10 +8078,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 802, col: 8, offset: 25792},
 																												expr: &actionExpr{
-																													pos: position{line: 2883, col: 10, offset: 91286},
+																													pos: position{line: 2889, col: 10, offset: 91398},
 																													run: (*parser).callonDocumentFragment894,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2883, col: 10, offset: 91286},
+																														pos:        position{line: 2889, col: 10, offset: 91398},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8090,28 +8090,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2905, col: 8, offset: 91684},
+																												pos: position{line: 2911, col: 8, offset: 91796},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2892, col: 12, offset: 91457},
+																														pos: position{line: 2898, col: 12, offset: 91569},
 																														run: (*parser).callonDocumentFragment897,
 																														expr: &choiceExpr{
-																															pos: position{line: 2892, col: 13, offset: 91458},
+																															pos: position{line: 2898, col: 13, offset: 91570},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 13, offset: 91458},
+																																	pos:        position{line: 2898, col: 13, offset: 91570},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 20, offset: 91465},
+																																	pos:        position{line: 2898, col: 20, offset: 91577},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 29, offset: 91474},
+																																	pos:        position{line: 2898, col: 29, offset: 91586},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8120,9 +8120,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2902, col: 8, offset: 91634},
+																														pos: position{line: 2908, col: 8, offset: 91746},
 																														expr: &anyMatcher{
-																															line: 2902, col: 9, offset: 91635,
+																															line: 2908, col: 9, offset: 91747,
 																														},
 																													},
 																												},
@@ -8138,9 +8138,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2902, col: 8, offset: 91634},
+																						pos: position{line: 2908, col: 8, offset: 91746},
 																						expr: &anyMatcher{
-																							line: 2902, col: 9, offset: 91635,
+																							line: 2908, col: 9, offset: 91747,
 																						},
 																					},
 																				},
@@ -8156,21 +8156,21 @@ var g = &grammar{
 																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2900, col: 11, offset: 91620},
+																							pos: position{line: 2906, col: 11, offset: 91732},
 																							expr: &anyMatcher{
-																								line: 2900, col: 13, offset: 91622,
+																								line: 2906, col: 13, offset: 91734,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2829, col: 13, offset: 89812},
+																								pos: position{line: 2835, col: 13, offset: 89924},
 																								run: (*parser).callonDocumentFragment913,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2829, col: 13, offset: 89812},
+																									pos: position{line: 2835, col: 13, offset: 89924},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2829, col: 13, offset: 89812},
+																										pos:        position{line: 2835, col: 13, offset: 89924},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8180,28 +8180,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonDocumentFragment917,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8210,9 +8210,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -8277,10 +8277,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 802, col: 8, offset: 25792},
 																								expr: &actionExpr{
-																									pos: position{line: 2883, col: 10, offset: 91286},
+																									pos: position{line: 2889, col: 10, offset: 91398},
 																									run: (*parser).callonDocumentFragment938,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2883, col: 10, offset: 91286},
+																										pos:        position{line: 2889, col: 10, offset: 91398},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8289,28 +8289,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2905, col: 8, offset: 91684},
+																								pos: position{line: 2911, col: 8, offset: 91796},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2892, col: 12, offset: 91457},
+																										pos: position{line: 2898, col: 12, offset: 91569},
 																										run: (*parser).callonDocumentFragment941,
 																										expr: &choiceExpr{
-																											pos: position{line: 2892, col: 13, offset: 91458},
+																											pos: position{line: 2898, col: 13, offset: 91570},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 13, offset: 91458},
+																													pos:        position{line: 2898, col: 13, offset: 91570},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 20, offset: 91465},
+																													pos:        position{line: 2898, col: 20, offset: 91577},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 29, offset: 91474},
+																													pos:        position{line: 2898, col: 29, offset: 91586},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8319,9 +8319,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2902, col: 8, offset: 91634},
+																										pos: position{line: 2908, col: 8, offset: 91746},
 																										expr: &anyMatcher{
-																											line: 2902, col: 9, offset: 91635,
+																											line: 2908, col: 9, offset: 91747,
 																										},
 																									},
 																								},
@@ -8337,9 +8337,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2902, col: 8, offset: 91634},
+																		pos: position{line: 2908, col: 8, offset: 91746},
 																		expr: &anyMatcher{
-																			line: 2902, col: 9, offset: 91635,
+																			line: 2908, col: 9, offset: 91747,
 																		},
 																	},
 																},
@@ -8395,10 +8395,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 809, col: 8, offset: 26042},
 																		expr: &actionExpr{
-																			pos: position{line: 2883, col: 10, offset: 91286},
+																			pos: position{line: 2889, col: 10, offset: 91398},
 																			run: (*parser).callonDocumentFragment963,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2883, col: 10, offset: 91286},
+																				pos:        position{line: 2889, col: 10, offset: 91398},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8407,28 +8407,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2905, col: 8, offset: 91684},
+																		pos: position{line: 2911, col: 8, offset: 91796},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2892, col: 12, offset: 91457},
+																				pos: position{line: 2898, col: 12, offset: 91569},
 																				run: (*parser).callonDocumentFragment966,
 																				expr: &choiceExpr{
-																					pos: position{line: 2892, col: 13, offset: 91458},
+																					pos: position{line: 2898, col: 13, offset: 91570},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 13, offset: 91458},
+																							pos:        position{line: 2898, col: 13, offset: 91570},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 20, offset: 91465},
+																							pos:        position{line: 2898, col: 20, offset: 91577},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 29, offset: 91474},
+																							pos:        position{line: 2898, col: 29, offset: 91586},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8437,9 +8437,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2902, col: 8, offset: 91634},
+																				pos: position{line: 2908, col: 8, offset: 91746},
 																				expr: &anyMatcher{
-																					line: 2902, col: 9, offset: 91635,
+																					line: 2908, col: 9, offset: 91747,
 																				},
 																			},
 																		},
@@ -8511,10 +8511,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 809, col: 8, offset: 26042},
 																												expr: &actionExpr{
-																													pos: position{line: 2883, col: 10, offset: 91286},
+																													pos: position{line: 2889, col: 10, offset: 91398},
 																													run: (*parser).callonDocumentFragment991,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2883, col: 10, offset: 91286},
+																														pos:        position{line: 2889, col: 10, offset: 91398},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8523,28 +8523,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2905, col: 8, offset: 91684},
+																												pos: position{line: 2911, col: 8, offset: 91796},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2892, col: 12, offset: 91457},
+																														pos: position{line: 2898, col: 12, offset: 91569},
 																														run: (*parser).callonDocumentFragment994,
 																														expr: &choiceExpr{
-																															pos: position{line: 2892, col: 13, offset: 91458},
+																															pos: position{line: 2898, col: 13, offset: 91570},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 13, offset: 91458},
+																																	pos:        position{line: 2898, col: 13, offset: 91570},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 20, offset: 91465},
+																																	pos:        position{line: 2898, col: 20, offset: 91577},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 29, offset: 91474},
+																																	pos:        position{line: 2898, col: 29, offset: 91586},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8553,9 +8553,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2902, col: 8, offset: 91634},
+																														pos: position{line: 2908, col: 8, offset: 91746},
 																														expr: &anyMatcher{
-																															line: 2902, col: 9, offset: 91635,
+																															line: 2908, col: 9, offset: 91747,
 																														},
 																													},
 																												},
@@ -8571,9 +8571,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2902, col: 8, offset: 91634},
+																						pos: position{line: 2908, col: 8, offset: 91746},
 																						expr: &anyMatcher{
-																							line: 2902, col: 9, offset: 91635,
+																							line: 2908, col: 9, offset: 91747,
 																						},
 																					},
 																				},
@@ -8589,21 +8589,21 @@ var g = &grammar{
 																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2900, col: 11, offset: 91620},
+																							pos: position{line: 2906, col: 11, offset: 91732},
 																							expr: &anyMatcher{
-																								line: 2900, col: 13, offset: 91622,
+																								line: 2906, col: 13, offset: 91734,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2829, col: 13, offset: 89812},
+																								pos: position{line: 2835, col: 13, offset: 89924},
 																								run: (*parser).callonDocumentFragment1010,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2829, col: 13, offset: 89812},
+																									pos: position{line: 2835, col: 13, offset: 89924},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2829, col: 13, offset: 89812},
+																										pos:        position{line: 2835, col: 13, offset: 89924},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8613,28 +8613,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonDocumentFragment1014,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8643,9 +8643,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -8710,10 +8710,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 809, col: 8, offset: 26042},
 																								expr: &actionExpr{
-																									pos: position{line: 2883, col: 10, offset: 91286},
+																									pos: position{line: 2889, col: 10, offset: 91398},
 																									run: (*parser).callonDocumentFragment1035,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2883, col: 10, offset: 91286},
+																										pos:        position{line: 2889, col: 10, offset: 91398},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8722,28 +8722,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2905, col: 8, offset: 91684},
+																								pos: position{line: 2911, col: 8, offset: 91796},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2892, col: 12, offset: 91457},
+																										pos: position{line: 2898, col: 12, offset: 91569},
 																										run: (*parser).callonDocumentFragment1038,
 																										expr: &choiceExpr{
-																											pos: position{line: 2892, col: 13, offset: 91458},
+																											pos: position{line: 2898, col: 13, offset: 91570},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 13, offset: 91458},
+																													pos:        position{line: 2898, col: 13, offset: 91570},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 20, offset: 91465},
+																													pos:        position{line: 2898, col: 20, offset: 91577},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 29, offset: 91474},
+																													pos:        position{line: 2898, col: 29, offset: 91586},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8752,9 +8752,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2902, col: 8, offset: 91634},
+																										pos: position{line: 2908, col: 8, offset: 91746},
 																										expr: &anyMatcher{
-																											line: 2902, col: 9, offset: 91635,
+																											line: 2908, col: 9, offset: 91747,
 																										},
 																									},
 																								},
@@ -8770,9 +8770,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2902, col: 8, offset: 91634},
+																		pos: position{line: 2908, col: 8, offset: 91746},
 																		expr: &anyMatcher{
-																			line: 2902, col: 9, offset: 91635,
+																			line: 2908, col: 9, offset: 91747,
 																		},
 																	},
 																},
@@ -8828,10 +8828,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 816, col: 8, offset: 26288},
 																		expr: &actionExpr{
-																			pos: position{line: 2883, col: 10, offset: 91286},
+																			pos: position{line: 2889, col: 10, offset: 91398},
 																			run: (*parser).callonDocumentFragment1060,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2883, col: 10, offset: 91286},
+																				pos:        position{line: 2889, col: 10, offset: 91398},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8840,28 +8840,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2905, col: 8, offset: 91684},
+																		pos: position{line: 2911, col: 8, offset: 91796},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2892, col: 12, offset: 91457},
+																				pos: position{line: 2898, col: 12, offset: 91569},
 																				run: (*parser).callonDocumentFragment1063,
 																				expr: &choiceExpr{
-																					pos: position{line: 2892, col: 13, offset: 91458},
+																					pos: position{line: 2898, col: 13, offset: 91570},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 13, offset: 91458},
+																							pos:        position{line: 2898, col: 13, offset: 91570},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 20, offset: 91465},
+																							pos:        position{line: 2898, col: 20, offset: 91577},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 29, offset: 91474},
+																							pos:        position{line: 2898, col: 29, offset: 91586},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8870,9 +8870,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2902, col: 8, offset: 91634},
+																				pos: position{line: 2908, col: 8, offset: 91746},
 																				expr: &anyMatcher{
-																					line: 2902, col: 9, offset: 91635,
+																					line: 2908, col: 9, offset: 91747,
 																				},
 																			},
 																		},
@@ -8944,10 +8944,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 816, col: 8, offset: 26288},
 																												expr: &actionExpr{
-																													pos: position{line: 2883, col: 10, offset: 91286},
+																													pos: position{line: 2889, col: 10, offset: 91398},
 																													run: (*parser).callonDocumentFragment1088,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2883, col: 10, offset: 91286},
+																														pos:        position{line: 2889, col: 10, offset: 91398},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8956,28 +8956,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2905, col: 8, offset: 91684},
+																												pos: position{line: 2911, col: 8, offset: 91796},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2892, col: 12, offset: 91457},
+																														pos: position{line: 2898, col: 12, offset: 91569},
 																														run: (*parser).callonDocumentFragment1091,
 																														expr: &choiceExpr{
-																															pos: position{line: 2892, col: 13, offset: 91458},
+																															pos: position{line: 2898, col: 13, offset: 91570},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 13, offset: 91458},
+																																	pos:        position{line: 2898, col: 13, offset: 91570},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 20, offset: 91465},
+																																	pos:        position{line: 2898, col: 20, offset: 91577},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 29, offset: 91474},
+																																	pos:        position{line: 2898, col: 29, offset: 91586},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8986,9 +8986,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2902, col: 8, offset: 91634},
+																														pos: position{line: 2908, col: 8, offset: 91746},
 																														expr: &anyMatcher{
-																															line: 2902, col: 9, offset: 91635,
+																															line: 2908, col: 9, offset: 91747,
 																														},
 																													},
 																												},
@@ -9004,9 +9004,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2902, col: 8, offset: 91634},
+																						pos: position{line: 2908, col: 8, offset: 91746},
 																						expr: &anyMatcher{
-																							line: 2902, col: 9, offset: 91635,
+																							line: 2908, col: 9, offset: 91747,
 																						},
 																					},
 																				},
@@ -9022,21 +9022,21 @@ var g = &grammar{
 																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2900, col: 11, offset: 91620},
+																							pos: position{line: 2906, col: 11, offset: 91732},
 																							expr: &anyMatcher{
-																								line: 2900, col: 13, offset: 91622,
+																								line: 2906, col: 13, offset: 91734,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2829, col: 13, offset: 89812},
+																								pos: position{line: 2835, col: 13, offset: 89924},
 																								run: (*parser).callonDocumentFragment1107,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2829, col: 13, offset: 89812},
+																									pos: position{line: 2835, col: 13, offset: 89924},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2829, col: 13, offset: 89812},
+																										pos:        position{line: 2835, col: 13, offset: 89924},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -9046,28 +9046,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonDocumentFragment1111,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -9076,9 +9076,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -9143,10 +9143,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 816, col: 8, offset: 26288},
 																								expr: &actionExpr{
-																									pos: position{line: 2883, col: 10, offset: 91286},
+																									pos: position{line: 2889, col: 10, offset: 91398},
 																									run: (*parser).callonDocumentFragment1132,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2883, col: 10, offset: 91286},
+																										pos:        position{line: 2889, col: 10, offset: 91398},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -9155,28 +9155,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2905, col: 8, offset: 91684},
+																								pos: position{line: 2911, col: 8, offset: 91796},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2892, col: 12, offset: 91457},
+																										pos: position{line: 2898, col: 12, offset: 91569},
 																										run: (*parser).callonDocumentFragment1135,
 																										expr: &choiceExpr{
-																											pos: position{line: 2892, col: 13, offset: 91458},
+																											pos: position{line: 2898, col: 13, offset: 91570},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 13, offset: 91458},
+																													pos:        position{line: 2898, col: 13, offset: 91570},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 20, offset: 91465},
+																													pos:        position{line: 2898, col: 20, offset: 91577},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 29, offset: 91474},
+																													pos:        position{line: 2898, col: 29, offset: 91586},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9185,9 +9185,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2902, col: 8, offset: 91634},
+																										pos: position{line: 2908, col: 8, offset: 91746},
 																										expr: &anyMatcher{
-																											line: 2902, col: 9, offset: 91635,
+																											line: 2908, col: 9, offset: 91747,
 																										},
 																									},
 																								},
@@ -9203,9 +9203,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2902, col: 8, offset: 91634},
+																		pos: position{line: 2908, col: 8, offset: 91746},
 																		expr: &anyMatcher{
-																			line: 2902, col: 9, offset: 91635,
+																			line: 2908, col: 9, offset: 91747,
 																		},
 																	},
 																},
@@ -9216,52 +9216,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2728, col: 18, offset: 86876},
+											pos: position{line: 2734, col: 18, offset: 86988},
 											run: (*parser).callonDocumentFragment1145,
 											expr: &seqExpr{
-												pos: position{line: 2728, col: 18, offset: 86876},
+												pos: position{line: 2734, col: 18, offset: 86988},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2729, col: 9, offset: 86886},
+														pos: position{line: 2735, col: 9, offset: 86998},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2729, col: 9, offset: 86886},
+																pos:        position{line: 2735, col: 9, offset: 86998},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2730, col: 11, offset: 86922},
+																pos:        position{line: 2736, col: 11, offset: 87034},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2730, col: 19, offset: 86930},
+																pos:        position{line: 2736, col: 19, offset: 87042},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2730, col: 29, offset: 86940},
+																pos:        position{line: 2736, col: 29, offset: 87052},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2730, col: 37, offset: 86948},
+																pos:        position{line: 2736, col: 37, offset: 87060},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2730, col: 47, offset: 86958},
+																pos:        position{line: 2736, col: 47, offset: 87070},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2730, col: 55, offset: 86966},
+																pos:        position{line: 2736, col: 55, offset: 87078},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9269,12 +9269,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2731, col: 11, offset: 87024},
+														pos: position{line: 2737, col: 11, offset: 87136},
 														expr: &actionExpr{
-															pos: position{line: 2883, col: 10, offset: 91286},
+															pos: position{line: 2889, col: 10, offset: 91398},
 															run: (*parser).callonDocumentFragment1156,
 															expr: &charClassMatcher{
-																pos:        position{line: 2883, col: 10, offset: 91286},
+																pos:        position{line: 2889, col: 10, offset: 91398},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9283,28 +9283,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2905, col: 8, offset: 91684},
+														pos: position{line: 2911, col: 8, offset: 91796},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2892, col: 12, offset: 91457},
+																pos: position{line: 2898, col: 12, offset: 91569},
 																run: (*parser).callonDocumentFragment1159,
 																expr: &choiceExpr{
-																	pos: position{line: 2892, col: 13, offset: 91458},
+																	pos: position{line: 2898, col: 13, offset: 91570},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 13, offset: 91458},
+																			pos:        position{line: 2898, col: 13, offset: 91570},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 20, offset: 91465},
+																			pos:        position{line: 2898, col: 20, offset: 91577},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 29, offset: 91474},
+																			pos:        position{line: 2898, col: 29, offset: 91586},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9313,36 +9313,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2902, col: 8, offset: 91634},
+																pos: position{line: 2908, col: 8, offset: 91746},
 																expr: &anyMatcher{
-																	line: 2902, col: 9, offset: 91635,
+																	line: 2908, col: 9, offset: 91747,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2905, col: 8, offset: 91684},
+														pos: position{line: 2911, col: 8, offset: 91796},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2892, col: 12, offset: 91457},
+																pos: position{line: 2898, col: 12, offset: 91569},
 																run: (*parser).callonDocumentFragment1167,
 																expr: &choiceExpr{
-																	pos: position{line: 2892, col: 13, offset: 91458},
+																	pos: position{line: 2898, col: 13, offset: 91570},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 13, offset: 91458},
+																			pos:        position{line: 2898, col: 13, offset: 91570},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 20, offset: 91465},
+																			pos:        position{line: 2898, col: 20, offset: 91577},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 29, offset: 91474},
+																			pos:        position{line: 2898, col: 29, offset: 91586},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9351,9 +9351,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2902, col: 8, offset: 91634},
+																pos: position{line: 2908, col: 8, offset: 91746},
 																expr: &anyMatcher{
-																	line: 2902, col: 9, offset: 91635,
+																	line: 2908, col: 9, offset: 91747,
 																},
 															},
 														},
@@ -9372,18 +9372,18 @@ var g = &grammar{
 												pos: position{line: 2619, col: 5, offset: 83770},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2625, col: 19, offset: 83927},
+														pos:        position{line: 2631, col: 19, offset: 84039},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2625, col: 26, offset: 83934},
+														pos: position{line: 2631, col: 26, offset: 84046},
 														expr: &actionExpr{
-															pos: position{line: 2883, col: 10, offset: 91286},
+															pos: position{line: 2889, col: 10, offset: 91398},
 															run: (*parser).callonDocumentFragment1179,
 															expr: &charClassMatcher{
-																pos:        position{line: 2883, col: 10, offset: 91286},
+																pos:        position{line: 2889, col: 10, offset: 91398},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9392,28 +9392,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2905, col: 8, offset: 91684},
+														pos: position{line: 2911, col: 8, offset: 91796},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2892, col: 12, offset: 91457},
+																pos: position{line: 2898, col: 12, offset: 91569},
 																run: (*parser).callonDocumentFragment1182,
 																expr: &choiceExpr{
-																	pos: position{line: 2892, col: 13, offset: 91458},
+																	pos: position{line: 2898, col: 13, offset: 91570},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 13, offset: 91458},
+																			pos:        position{line: 2898, col: 13, offset: 91570},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 20, offset: 91465},
+																			pos:        position{line: 2898, col: 20, offset: 91577},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 29, offset: 91474},
+																			pos:        position{line: 2898, col: 29, offset: 91586},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9422,522 +9422,369 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2902, col: 8, offset: 91634},
+																pos: position{line: 2908, col: 8, offset: 91746},
 																expr: &anyMatcher{
-																	line: 2902, col: 9, offset: 91635,
+																	line: 2908, col: 9, offset: 91747,
 																},
 															},
 														},
 													},
-													&labeledExpr{
-														pos:   position{line: 2620, col: 5, offset: 83794},
-														label: "lines",
-														expr: &zeroOrMoreExpr{
-															pos: position{line: 2620, col: 11, offset: 83800},
-															expr: &choiceExpr{
-																pos: position{line: 2620, col: 12, offset: 83801},
-																alternatives: []interface{}{
-																	&actionExpr{
-																		pos: position{line: 687, col: 14, offset: 21835},
-																		run: (*parser).callonDocumentFragment1192,
-																		expr: &seqExpr{
-																			pos: position{line: 687, col: 14, offset: 21835},
-																			exprs: []interface{}{
-																				&andExpr{
-																					pos: position{line: 2900, col: 11, offset: 91620},
-																					expr: &anyMatcher{
-																						line: 2900, col: 13, offset: 91622,
-																					},
+													&zeroOrMoreExpr{
+														pos: position{line: 2620, col: 5, offset: 83794},
+														expr: &actionExpr{
+															pos: position{line: 2493, col: 22, offset: 80229},
+															run: (*parser).callonDocumentFragment1190,
+															expr: &seqExpr{
+																pos: position{line: 2493, col: 22, offset: 80229},
+																exprs: []interface{}{
+																	&litMatcher{
+																		pos:        position{line: 2498, col: 31, offset: 80450},
+																		val:        "//",
+																		ignoreCase: false,
+																		want:       "\"//\"",
+																	},
+																	&notExpr{
+																		pos: position{line: 2498, col: 36, offset: 80455},
+																		expr: &litMatcher{
+																			pos:        position{line: 2498, col: 37, offset: 80456},
+																			val:        "//",
+																			ignoreCase: false,
+																			want:       "\"//\"",
+																		},
+																	},
+																	&labeledExpr{
+																		pos:   position{line: 2493, col: 49, offset: 80256},
+																		label: "content",
+																		expr: &actionExpr{
+																			pos: position{line: 2835, col: 13, offset: 89924},
+																			run: (*parser).callonDocumentFragment1196,
+																			expr: &zeroOrMoreExpr{
+																				pos: position{line: 2835, col: 13, offset: 89924},
+																				expr: &charClassMatcher{
+																					pos:        position{line: 2835, col: 13, offset: 89924},
+																					val:        "[^\\r\\n]",
+																					chars:      []rune{'\r', '\n'},
+																					ignoreCase: false,
+																					inverted:   true,
 																				},
-																				&zeroOrMoreExpr{
-																					pos: position{line: 687, col: 21, offset: 21842},
-																					expr: &actionExpr{
-																						pos: position{line: 2883, col: 10, offset: 91286},
-																						run: (*parser).callonDocumentFragment1197,
-																						expr: &charClassMatcher{
-																							pos:        position{line: 2883, col: 10, offset: 91286},
-																							val:        "[\\t ]",
-																							chars:      []rune{'\t', ' '},
+																			},
+																		},
+																	},
+																	&choiceExpr{
+																		pos: position{line: 2911, col: 8, offset: 91796},
+																		alternatives: []interface{}{
+																			&actionExpr{
+																				pos: position{line: 2898, col: 12, offset: 91569},
+																				run: (*parser).callonDocumentFragment1200,
+																				expr: &choiceExpr{
+																					pos: position{line: 2898, col: 13, offset: 91570},
+																					alternatives: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 2898, col: 13, offset: 91570},
+																							val:        "\n",
 																							ignoreCase: false,
-																							inverted:   false,
+																							want:       "\"\\n\"",
 																						},
-																					},
-																				},
-																				&choiceExpr{
-																					pos: position{line: 2905, col: 8, offset: 91684},
-																					alternatives: []interface{}{
-																						&actionExpr{
-																							pos: position{line: 2892, col: 12, offset: 91457},
-																							run: (*parser).callonDocumentFragment1200,
-																							expr: &choiceExpr{
-																								pos: position{line: 2892, col: 13, offset: 91458},
-																								alternatives: []interface{}{
-																									&litMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91458},
-																										val:        "\n",
-																										ignoreCase: false,
-																										want:       "\"\\n\"",
-																									},
-																									&litMatcher{
-																										pos:        position{line: 2892, col: 20, offset: 91465},
-																										val:        "\r\n",
-																										ignoreCase: false,
-																										want:       "\"\\r\\n\"",
-																									},
-																									&litMatcher{
-																										pos:        position{line: 2892, col: 29, offset: 91474},
-																										val:        "\r",
-																										ignoreCase: false,
-																										want:       "\"\\r\"",
-																									},
-																								},
-																							},
+																						&litMatcher{
+																							pos:        position{line: 2898, col: 20, offset: 91577},
+																							val:        "\r\n",
+																							ignoreCase: false,
+																							want:       "\"\\r\\n\"",
 																						},
-																						&notExpr{
-																							pos: position{line: 2902, col: 8, offset: 91634},
-																							expr: &anyMatcher{
-																								line: 2902, col: 9, offset: 91635,
-																							},
+																						&litMatcher{
+																							pos:        position{line: 2898, col: 29, offset: 91586},
+																							val:        "\r",
+																							ignoreCase: false,
+																							want:       "\"\\r\"",
 																						},
 																					},
 																				},
 																			},
+																			&notExpr{
+																				pos: position{line: 2908, col: 8, offset: 91746},
+																				expr: &anyMatcher{
+																					line: 2908, col: 9, offset: 91747,
+																				},
+																			},
 																		},
 																	},
-																	&actionExpr{
-																		pos: position{line: 2632, col: 5, offset: 84046},
-																		run: (*parser).callonDocumentFragment1207,
-																		expr: &seqExpr{
-																			pos: position{line: 2632, col: 5, offset: 84046},
-																			exprs: []interface{}{
-																				&notExpr{
-																					pos: position{line: 2632, col: 5, offset: 84046},
-																					expr: &choiceExpr{
-																						pos: position{line: 2629, col: 22, offset: 84007},
-																						alternatives: []interface{}{
-																							&seqExpr{
-																								pos: position{line: 2625, col: 19, offset: 83927},
-																								exprs: []interface{}{
-																									&litMatcher{
-																										pos:        position{line: 2625, col: 19, offset: 83927},
-																										val:        "|===",
-																										ignoreCase: false,
-																										want:       "\"|===\"",
+																},
+															},
+														},
+													},
+													&labeledExpr{
+														pos:   position{line: 2621, col: 5, offset: 83817},
+														label: "lines",
+														expr: &zeroOrMoreExpr{
+															pos: position{line: 2621, col: 11, offset: 83823},
+															expr: &actionExpr{
+																pos: position{line: 2622, col: 9, offset: 83833},
+																run: (*parser).callonDocumentFragment1209,
+																expr: &seqExpr{
+																	pos: position{line: 2622, col: 9, offset: 83833},
+																	exprs: []interface{}{
+																		&labeledExpr{
+																			pos:   position{line: 2622, col: 9, offset: 83833},
+																			label: "line",
+																			expr: &choiceExpr{
+																				pos: position{line: 2622, col: 15, offset: 83839},
+																				alternatives: []interface{}{
+																					&actionExpr{
+																						pos: position{line: 687, col: 14, offset: 21835},
+																						run: (*parser).callonDocumentFragment1213,
+																						expr: &seqExpr{
+																							pos: position{line: 687, col: 14, offset: 21835},
+																							exprs: []interface{}{
+																								&andExpr{
+																									pos: position{line: 2906, col: 11, offset: 91732},
+																									expr: &anyMatcher{
+																										line: 2906, col: 13, offset: 91734,
 																									},
-																									&zeroOrMoreExpr{
-																										pos: position{line: 2625, col: 26, offset: 83934},
-																										expr: &actionExpr{
-																											pos: position{line: 2883, col: 10, offset: 91286},
-																											run: (*parser).callonDocumentFragment1214,
-																											expr: &charClassMatcher{
-																												pos:        position{line: 2883, col: 10, offset: 91286},
-																												val:        "[\\t ]",
-																												chars:      []rune{'\t', ' '},
-																												ignoreCase: false,
-																												inverted:   false,
-																											},
+																								},
+																								&zeroOrMoreExpr{
+																									pos: position{line: 687, col: 21, offset: 21842},
+																									expr: &actionExpr{
+																										pos: position{line: 2889, col: 10, offset: 91398},
+																										run: (*parser).callonDocumentFragment1218,
+																										expr: &charClassMatcher{
+																											pos:        position{line: 2889, col: 10, offset: 91398},
+																											val:        "[\\t ]",
+																											chars:      []rune{'\t', ' '},
+																											ignoreCase: false,
+																											inverted:   false,
 																										},
 																									},
-																									&choiceExpr{
-																										pos: position{line: 2905, col: 8, offset: 91684},
-																										alternatives: []interface{}{
-																											&actionExpr{
-																												pos: position{line: 2892, col: 12, offset: 91457},
-																												run: (*parser).callonDocumentFragment1217,
-																												expr: &choiceExpr{
-																													pos: position{line: 2892, col: 13, offset: 91458},
-																													alternatives: []interface{}{
-																														&litMatcher{
-																															pos:        position{line: 2892, col: 13, offset: 91458},
-																															val:        "\n",
-																															ignoreCase: false,
-																															want:       "\"\\n\"",
-																														},
-																														&litMatcher{
-																															pos:        position{line: 2892, col: 20, offset: 91465},
-																															val:        "\r\n",
-																															ignoreCase: false,
-																															want:       "\"\\r\\n\"",
-																														},
-																														&litMatcher{
-																															pos:        position{line: 2892, col: 29, offset: 91474},
-																															val:        "\r",
-																															ignoreCase: false,
-																															want:       "\"\\r\"",
-																														},
+																								},
+																								&choiceExpr{
+																									pos: position{line: 2911, col: 8, offset: 91796},
+																									alternatives: []interface{}{
+																										&actionExpr{
+																											pos: position{line: 2898, col: 12, offset: 91569},
+																											run: (*parser).callonDocumentFragment1221,
+																											expr: &choiceExpr{
+																												pos: position{line: 2898, col: 13, offset: 91570},
+																												alternatives: []interface{}{
+																													&litMatcher{
+																														pos:        position{line: 2898, col: 13, offset: 91570},
+																														val:        "\n",
+																														ignoreCase: false,
+																														want:       "\"\\n\"",
+																													},
+																													&litMatcher{
+																														pos:        position{line: 2898, col: 20, offset: 91577},
+																														val:        "\r\n",
+																														ignoreCase: false,
+																														want:       "\"\\r\\n\"",
+																													},
+																													&litMatcher{
+																														pos:        position{line: 2898, col: 29, offset: 91586},
+																														val:        "\r",
+																														ignoreCase: false,
+																														want:       "\"\\r\"",
 																													},
 																												},
 																											},
-																											&notExpr{
-																												pos: position{line: 2902, col: 8, offset: 91634},
-																												expr: &anyMatcher{
-																													line: 2902, col: 9, offset: 91635,
-																												},
+																										},
+																										&notExpr{
+																											pos: position{line: 2908, col: 8, offset: 91746},
+																											expr: &anyMatcher{
+																												line: 2908, col: 9, offset: 91747,
 																											},
 																										},
 																									},
 																								},
 																							},
-																							&notExpr{
-																								pos: position{line: 2902, col: 8, offset: 91634},
-																								expr: &anyMatcher{
-																									line: 2902, col: 9, offset: 91635,
-																								},
-																							},
 																						},
 																					},
-																				},
-																				&labeledExpr{
-																					pos:   position{line: 2633, col: 5, offset: 84069},
-																					label: "content",
-																					expr: &choiceExpr{
-																						pos: position{line: 2634, col: 9, offset: 84087},
-																						alternatives: []interface{}{
-																							&actionExpr{
-																								pos: position{line: 2634, col: 10, offset: 84088},
-																								run: (*parser).callonDocumentFragment1228,
-																								expr: &labeledExpr{
-																									pos:   position{line: 2634, col: 10, offset: 84088},
-																									label: "cells",
+																					&actionExpr{
+																						pos: position{line: 2638, col: 5, offset: 84158},
+																						run: (*parser).callonDocumentFragment1228,
+																						expr: &seqExpr{
+																							pos: position{line: 2638, col: 5, offset: 84158},
+																							exprs: []interface{}{
+																								&notExpr{
+																									pos: position{line: 2638, col: 5, offset: 84158},
 																									expr: &choiceExpr{
-																										pos: position{line: 2634, col: 17, offset: 84095},
+																										pos: position{line: 2635, col: 22, offset: 84119},
 																										alternatives: []interface{}{
-																											&actionExpr{
-																												pos: position{line: 2642, col: 21, offset: 84291},
-																												run: (*parser).callonDocumentFragment1231,
-																												expr: &seqExpr{
-																													pos: position{line: 2642, col: 21, offset: 84291},
-																													exprs: []interface{}{
-																														&labeledExpr{
-																															pos:   position{line: 2642, col: 21, offset: 84291},
-																															label: "cells",
-																															expr: &oneOrMoreExpr{
-																																pos: position{line: 2642, col: 27, offset: 84297},
-																																expr: &actionExpr{
-																																	pos: position{line: 2647, col: 5, offset: 84372},
-																																	run: (*parser).callonDocumentFragment1235,
-																																	expr: &seqExpr{
-																																		pos: position{line: 2647, col: 5, offset: 84372},
-																																		exprs: []interface{}{
-																																			&litMatcher{
-																																				pos:        position{line: 2647, col: 5, offset: 84372},
-																																				val:        "|",
-																																				ignoreCase: false,
-																																				want:       "\"|\"",
-																																			},
-																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2647, col: 9, offset: 84376},
-																																				expr: &actionExpr{
-																																					pos: position{line: 2883, col: 10, offset: 91286},
-																																					run: (*parser).callonDocumentFragment1239,
-																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2883, col: 10, offset: 91286},
-																																						val:        "[\\t ]",
-																																						chars:      []rune{'\t', ' '},
-																																						ignoreCase: false,
-																																						inverted:   false,
-																																					},
-																																				},
-																																			},
-																																			&labeledExpr{
-																																				pos:   position{line: 2647, col: 16, offset: 84383},
-																																				label: "content",
-																																				expr: &actionExpr{
-																																					pos: position{line: 2653, col: 5, offset: 84583},
-																																					run: (*parser).callonDocumentFragment1242,
-																																					expr: &labeledExpr{
-																																						pos:   position{line: 2653, col: 5, offset: 84583},
-																																						label: "content",
-																																						expr: &actionExpr{
-																																							pos: position{line: 2653, col: 14, offset: 84592},
-																																							run: (*parser).callonDocumentFragment1244,
-																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2653, col: 14, offset: 84592},
-																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2653, col: 14, offset: 84592},
-																																									val:        "[^|\\r\\n]",
-																																									chars:      []rune{'|', '\r', '\n'},
-																																									ignoreCase: false,
-																																									inverted:   true,
-																																								},
-																																							},
-																																						},
-																																					},
-																																				},
-																																			},
-																																		},
-																																	},
-																																},
+																											&seqExpr{
+																												pos: position{line: 2631, col: 19, offset: 84039},
+																												exprs: []interface{}{
+																													&litMatcher{
+																														pos:        position{line: 2631, col: 19, offset: 84039},
+																														val:        "|===",
+																														ignoreCase: false,
+																														want:       "\"|===\"",
+																													},
+																													&zeroOrMoreExpr{
+																														pos: position{line: 2631, col: 26, offset: 84046},
+																														expr: &actionExpr{
+																															pos: position{line: 2889, col: 10, offset: 91398},
+																															run: (*parser).callonDocumentFragment1235,
+																															expr: &charClassMatcher{
+																																pos:        position{line: 2889, col: 10, offset: 91398},
+																																val:        "[\\t ]",
+																																chars:      []rune{'\t', ' '},
+																																ignoreCase: false,
+																																inverted:   false,
 																															},
 																														},
-																														&choiceExpr{
-																															pos: position{line: 2905, col: 8, offset: 91684},
-																															alternatives: []interface{}{
-																																&actionExpr{
-																																	pos: position{line: 2892, col: 12, offset: 91457},
-																																	run: (*parser).callonDocumentFragment1248,
-																																	expr: &choiceExpr{
-																																		pos: position{line: 2892, col: 13, offset: 91458},
-																																		alternatives: []interface{}{
-																																			&litMatcher{
-																																				pos:        position{line: 2892, col: 13, offset: 91458},
-																																				val:        "\n",
-																																				ignoreCase: false,
-																																				want:       "\"\\n\"",
-																																			},
-																																			&litMatcher{
-																																				pos:        position{line: 2892, col: 20, offset: 91465},
-																																				val:        "\r\n",
-																																				ignoreCase: false,
-																																				want:       "\"\\r\\n\"",
-																																			},
-																																			&litMatcher{
-																																				pos:        position{line: 2892, col: 29, offset: 91474},
-																																				val:        "\r",
-																																				ignoreCase: false,
-																																				want:       "\"\\r\"",
-																																			},
+																													},
+																													&choiceExpr{
+																														pos: position{line: 2911, col: 8, offset: 91796},
+																														alternatives: []interface{}{
+																															&actionExpr{
+																																pos: position{line: 2898, col: 12, offset: 91569},
+																																run: (*parser).callonDocumentFragment1238,
+																																expr: &choiceExpr{
+																																	pos: position{line: 2898, col: 13, offset: 91570},
+																																	alternatives: []interface{}{
+																																		&litMatcher{
+																																			pos:        position{line: 2898, col: 13, offset: 91570},
+																																			val:        "\n",
+																																			ignoreCase: false,
+																																			want:       "\"\\n\"",
+																																		},
+																																		&litMatcher{
+																																			pos:        position{line: 2898, col: 20, offset: 91577},
+																																			val:        "\r\n",
+																																			ignoreCase: false,
+																																			want:       "\"\\r\\n\"",
+																																		},
+																																		&litMatcher{
+																																			pos:        position{line: 2898, col: 29, offset: 91586},
+																																			val:        "\r",
+																																			ignoreCase: false,
+																																			want:       "\"\\r\"",
 																																		},
 																																	},
 																																},
-																																&notExpr{
-																																	pos: position{line: 2902, col: 8, offset: 91634},
-																																	expr: &anyMatcher{
-																																		line: 2902, col: 9, offset: 91635,
-																																	},
+																															},
+																															&notExpr{
+																																pos: position{line: 2908, col: 8, offset: 91746},
+																																expr: &anyMatcher{
+																																	line: 2908, col: 9, offset: 91747,
 																																},
 																															},
 																														},
 																													},
 																												},
 																											},
+																											&notExpr{
+																												pos: position{line: 2908, col: 8, offset: 91746},
+																												expr: &anyMatcher{
+																													line: 2908, col: 9, offset: 91747,
+																												},
+																											},
+																										},
+																									},
+																								},
+																								&labeledExpr{
+																									pos:   position{line: 2639, col: 5, offset: 84181},
+																									label: "content",
+																									expr: &choiceExpr{
+																										pos: position{line: 2640, col: 9, offset: 84199},
+																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2659, col: 24, offset: 84728},
-																												run: (*parser).callonDocumentFragment1255,
+																												pos: position{line: 2640, col: 10, offset: 84200},
+																												run: (*parser).callonDocumentFragment1249,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2659, col: 24, offset: 84728},
+																													pos:   position{line: 2640, col: 10, offset: 84200},
 																													label: "cells",
-																													expr: &oneOrMoreExpr{
-																														pos: position{line: 2659, col: 30, offset: 84734},
-																														expr: &actionExpr{
-																															pos: position{line: 2664, col: 5, offset: 84810},
-																															run: (*parser).callonDocumentFragment1258,
-																															expr: &seqExpr{
-																																pos: position{line: 2664, col: 5, offset: 84810},
-																																exprs: []interface{}{
-																																	&notExpr{
-																																		pos: position{line: 2664, col: 5, offset: 84810},
-																																		expr: &choiceExpr{
-																																			pos: position{line: 2629, col: 22, offset: 84007},
-																																			alternatives: []interface{}{
-																																				&seqExpr{
-																																					pos: position{line: 2625, col: 19, offset: 83927},
-																																					exprs: []interface{}{
-																																						&litMatcher{
-																																							pos:        position{line: 2625, col: 19, offset: 83927},
-																																							val:        "|===",
-																																							ignoreCase: false,
-																																							want:       "\"|===\"",
-																																						},
-																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2625, col: 26, offset: 83934},
-																																							expr: &actionExpr{
-																																								pos: position{line: 2883, col: 10, offset: 91286},
-																																								run: (*parser).callonDocumentFragment1265,
-																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2883, col: 10, offset: 91286},
-																																									val:        "[\\t ]",
-																																									chars:      []rune{'\t', ' '},
-																																									ignoreCase: false,
-																																									inverted:   false,
-																																								},
+																													expr: &choiceExpr{
+																														pos: position{line: 2640, col: 17, offset: 84207},
+																														alternatives: []interface{}{
+																															&actionExpr{
+																																pos: position{line: 2648, col: 21, offset: 84403},
+																																run: (*parser).callonDocumentFragment1252,
+																																expr: &seqExpr{
+																																	pos: position{line: 2648, col: 21, offset: 84403},
+																																	exprs: []interface{}{
+																																		&labeledExpr{
+																																			pos:   position{line: 2648, col: 21, offset: 84403},
+																																			label: "cells",
+																																			expr: &oneOrMoreExpr{
+																																				pos: position{line: 2648, col: 27, offset: 84409},
+																																				expr: &actionExpr{
+																																					pos: position{line: 2653, col: 5, offset: 84484},
+																																					run: (*parser).callonDocumentFragment1256,
+																																					expr: &seqExpr{
+																																						pos: position{line: 2653, col: 5, offset: 84484},
+																																						exprs: []interface{}{
+																																							&litMatcher{
+																																								pos:        position{line: 2653, col: 5, offset: 84484},
+																																								val:        "|",
+																																								ignoreCase: false,
+																																								want:       "\"|\"",
 																																							},
-																																						},
-																																						&choiceExpr{
-																																							pos: position{line: 2905, col: 8, offset: 91684},
-																																							alternatives: []interface{}{
-																																								&actionExpr{
-																																									pos: position{line: 2892, col: 12, offset: 91457},
-																																									run: (*parser).callonDocumentFragment1268,
-																																									expr: &choiceExpr{
-																																										pos: position{line: 2892, col: 13, offset: 91458},
-																																										alternatives: []interface{}{
-																																											&litMatcher{
-																																												pos:        position{line: 2892, col: 13, offset: 91458},
-																																												val:        "\n",
-																																												ignoreCase: false,
-																																												want:       "\"\\n\"",
-																																											},
-																																											&litMatcher{
-																																												pos:        position{line: 2892, col: 20, offset: 91465},
-																																												val:        "\r\n",
-																																												ignoreCase: false,
-																																												want:       "\"\\r\\n\"",
-																																											},
-																																											&litMatcher{
-																																												pos:        position{line: 2892, col: 29, offset: 91474},
-																																												val:        "\r",
-																																												ignoreCase: false,
-																																												want:       "\"\\r\"",
-																																											},
-																																										},
-																																									},
-																																								},
-																																								&notExpr{
-																																									pos: position{line: 2902, col: 8, offset: 91634},
-																																									expr: &anyMatcher{
-																																										line: 2902, col: 9, offset: 91635,
+																																							&zeroOrMoreExpr{
+																																								pos: position{line: 2653, col: 9, offset: 84488},
+																																								expr: &actionExpr{
+																																									pos: position{line: 2889, col: 10, offset: 91398},
+																																									run: (*parser).callonDocumentFragment1260,
+																																									expr: &charClassMatcher{
+																																										pos:        position{line: 2889, col: 10, offset: 91398},
+																																										val:        "[\\t ]",
+																																										chars:      []rune{'\t', ' '},
+																																										ignoreCase: false,
+																																										inverted:   false,
 																																									},
 																																								},
 																																							},
-																																						},
-																																					},
-																																				},
-																																				&notExpr{
-																																					pos: position{line: 2902, col: 8, offset: 91634},
-																																					expr: &anyMatcher{
-																																						line: 2902, col: 9, offset: 91635,
-																																					},
-																																				},
-																																			},
-																																		},
-																																	},
-																																	&notExpr{
-																																		pos: position{line: 2665, col: 5, offset: 84833},
-																																		expr: &actionExpr{
-																																			pos: position{line: 687, col: 14, offset: 21835},
-																																			run: (*parser).callonDocumentFragment1278,
-																																			expr: &seqExpr{
-																																				pos: position{line: 687, col: 14, offset: 21835},
-																																				exprs: []interface{}{
-																																					&andExpr{
-																																						pos: position{line: 2900, col: 11, offset: 91620},
-																																						expr: &anyMatcher{
-																																							line: 2900, col: 13, offset: 91622,
-																																						},
-																																					},
-																																					&zeroOrMoreExpr{
-																																						pos: position{line: 687, col: 21, offset: 21842},
-																																						expr: &actionExpr{
-																																							pos: position{line: 2883, col: 10, offset: 91286},
-																																							run: (*parser).callonDocumentFragment1283,
-																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2883, col: 10, offset: 91286},
-																																								val:        "[\\t ]",
-																																								chars:      []rune{'\t', ' '},
-																																								ignoreCase: false,
-																																								inverted:   false,
-																																							},
-																																						},
-																																					},
-																																					&choiceExpr{
-																																						pos: position{line: 2905, col: 8, offset: 91684},
-																																						alternatives: []interface{}{
-																																							&actionExpr{
-																																								pos: position{line: 2892, col: 12, offset: 91457},
-																																								run: (*parser).callonDocumentFragment1286,
-																																								expr: &choiceExpr{
-																																									pos: position{line: 2892, col: 13, offset: 91458},
-																																									alternatives: []interface{}{
-																																										&litMatcher{
-																																											pos:        position{line: 2892, col: 13, offset: 91458},
-																																											val:        "\n",
-																																											ignoreCase: false,
-																																											want:       "\"\\n\"",
-																																										},
-																																										&litMatcher{
-																																											pos:        position{line: 2892, col: 20, offset: 91465},
-																																											val:        "\r\n",
-																																											ignoreCase: false,
-																																											want:       "\"\\r\\n\"",
-																																										},
-																																										&litMatcher{
-																																											pos:        position{line: 2892, col: 29, offset: 91474},
-																																											val:        "\r",
-																																											ignoreCase: false,
-																																											want:       "\"\\r\"",
+																																							&labeledExpr{
+																																								pos:   position{line: 2653, col: 16, offset: 84495},
+																																								label: "content",
+																																								expr: &actionExpr{
+																																									pos: position{line: 2659, col: 5, offset: 84695},
+																																									run: (*parser).callonDocumentFragment1263,
+																																									expr: &labeledExpr{
+																																										pos:   position{line: 2659, col: 5, offset: 84695},
+																																										label: "content",
+																																										expr: &actionExpr{
+																																											pos: position{line: 2659, col: 14, offset: 84704},
+																																											run: (*parser).callonDocumentFragment1265,
+																																											expr: &zeroOrMoreExpr{
+																																												pos: position{line: 2659, col: 14, offset: 84704},
+																																												expr: &charClassMatcher{
+																																													pos:        position{line: 2659, col: 14, offset: 84704},
+																																													val:        "[^|\\r\\n]",
+																																													chars:      []rune{'|', '\r', '\n'},
+																																													ignoreCase: false,
+																																													inverted:   true,
+																																												},
+																																											},
 																																										},
 																																									},
 																																								},
 																																							},
-																																							&notExpr{
-																																								pos: position{line: 2902, col: 8, offset: 91634},
-																																								expr: &anyMatcher{
-																																									line: 2902, col: 9, offset: 91635,
-																																								},
-																																							},
 																																						},
 																																					},
 																																				},
 																																			},
 																																		},
-																																	},
-																																	&labeledExpr{
-																																		pos:   position{line: 2666, col: 5, offset: 84848},
-																																		label: "format",
-																																		expr: &zeroOrOneExpr{
-																																			pos: position{line: 2666, col: 12, offset: 84855},
-																																			expr: &actionExpr{
-																																				pos: position{line: 2683, col: 20, offset: 85361},
-																																				run: (*parser).callonDocumentFragment1295,
-																																				expr: &zeroOrMoreExpr{
-																																					pos: position{line: 2683, col: 20, offset: 85361},
-																																					expr: &charClassMatcher{
-																																						pos:        position{line: 2683, col: 20, offset: 85361},
-																																						val:        "[^ |\\r\\n]",
-																																						chars:      []rune{' ', '|', '\r', '\n'},
-																																						ignoreCase: false,
-																																						inverted:   true,
-																																					},
-																																				},
-																																			},
-																																		},
-																																	},
-																																	&litMatcher{
-																																		pos:        position{line: 2666, col: 31, offset: 84874},
-																																		val:        "|",
-																																		ignoreCase: false,
-																																		want:       "\"|\"",
-																																	},
-																																	&zeroOrMoreExpr{
-																																		pos: position{line: 2666, col: 35, offset: 84878},
-																																		expr: &actionExpr{
-																																			pos: position{line: 2883, col: 10, offset: 91286},
-																																			run: (*parser).callonDocumentFragment1300,
-																																			expr: &charClassMatcher{
-																																				pos:        position{line: 2883, col: 10, offset: 91286},
-																																				val:        "[\\t ]",
-																																				chars:      []rune{'\t', ' '},
-																																				ignoreCase: false,
-																																				inverted:   false,
-																																			},
-																																		},
-																																	},
-																																	&zeroOrOneExpr{
-																																		pos: position{line: 2666, col: 42, offset: 84885},
-																																		expr: &seqExpr{
-																																			pos: position{line: 2666, col: 43, offset: 84886},
-																																			exprs: []interface{}{
+																																		&choiceExpr{
+																																			pos: position{line: 2911, col: 8, offset: 91796},
+																																			alternatives: []interface{}{
 																																				&actionExpr{
-																																					pos: position{line: 2892, col: 12, offset: 91457},
-																																					run: (*parser).callonDocumentFragment1304,
+																																					pos: position{line: 2898, col: 12, offset: 91569},
+																																					run: (*parser).callonDocumentFragment1269,
 																																					expr: &choiceExpr{
-																																						pos: position{line: 2892, col: 13, offset: 91458},
+																																						pos: position{line: 2898, col: 13, offset: 91570},
 																																						alternatives: []interface{}{
 																																							&litMatcher{
-																																								pos:        position{line: 2892, col: 13, offset: 91458},
+																																								pos:        position{line: 2898, col: 13, offset: 91570},
 																																								val:        "\n",
 																																								ignoreCase: false,
 																																								want:       "\"\\n\"",
 																																							},
 																																							&litMatcher{
-																																								pos:        position{line: 2892, col: 20, offset: 91465},
+																																								pos:        position{line: 2898, col: 20, offset: 91577},
 																																								val:        "\r\n",
 																																								ignoreCase: false,
 																																								want:       "\"\\r\\n\"",
 																																							},
 																																							&litMatcher{
-																																								pos:        position{line: 2892, col: 29, offset: 91474},
+																																								pos:        position{line: 2898, col: 29, offset: 91586},
 																																								val:        "\r",
 																																								ignoreCase: false,
 																																								want:       "\"\\r\"",
@@ -9945,201 +9792,52 @@ var g = &grammar{
 																																						},
 																																					},
 																																				},
-																																				&zeroOrMoreExpr{
-																																					pos: position{line: 2666, col: 51, offset: 84894},
-																																					expr: &actionExpr{
-																																						pos: position{line: 2493, col: 22, offset: 80229},
-																																						run: (*parser).callonDocumentFragment1310,
-																																						expr: &seqExpr{
-																																							pos: position{line: 2493, col: 22, offset: 80229},
-																																							exprs: []interface{}{
-																																								&litMatcher{
-																																									pos:        position{line: 2498, col: 31, offset: 80450},
-																																									val:        "//",
-																																									ignoreCase: false,
-																																									want:       "\"//\"",
-																																								},
-																																								&notExpr{
-																																									pos: position{line: 2498, col: 36, offset: 80455},
-																																									expr: &litMatcher{
-																																										pos:        position{line: 2498, col: 37, offset: 80456},
-																																										val:        "//",
-																																										ignoreCase: false,
-																																										want:       "\"//\"",
-																																									},
-																																								},
-																																								&labeledExpr{
-																																									pos:   position{line: 2493, col: 49, offset: 80256},
-																																									label: "content",
-																																									expr: &actionExpr{
-																																										pos: position{line: 2829, col: 13, offset: 89812},
-																																										run: (*parser).callonDocumentFragment1316,
-																																										expr: &zeroOrMoreExpr{
-																																											pos: position{line: 2829, col: 13, offset: 89812},
-																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2829, col: 13, offset: 89812},
-																																												val:        "[^\\r\\n]",
-																																												chars:      []rune{'\r', '\n'},
-																																												ignoreCase: false,
-																																												inverted:   true,
-																																											},
-																																										},
-																																									},
-																																								},
-																																								&choiceExpr{
-																																									pos: position{line: 2905, col: 8, offset: 91684},
-																																									alternatives: []interface{}{
-																																										&actionExpr{
-																																											pos: position{line: 2892, col: 12, offset: 91457},
-																																											run: (*parser).callonDocumentFragment1320,
-																																											expr: &choiceExpr{
-																																												pos: position{line: 2892, col: 13, offset: 91458},
-																																												alternatives: []interface{}{
-																																													&litMatcher{
-																																														pos:        position{line: 2892, col: 13, offset: 91458},
-																																														val:        "\n",
-																																														ignoreCase: false,
-																																														want:       "\"\\n\"",
-																																													},
-																																													&litMatcher{
-																																														pos:        position{line: 2892, col: 20, offset: 91465},
-																																														val:        "\r\n",
-																																														ignoreCase: false,
-																																														want:       "\"\\r\\n\"",
-																																													},
-																																													&litMatcher{
-																																														pos:        position{line: 2892, col: 29, offset: 91474},
-																																														val:        "\r",
-																																														ignoreCase: false,
-																																														want:       "\"\\r\"",
-																																													},
-																																												},
-																																											},
-																																										},
-																																										&notExpr{
-																																											pos: position{line: 2902, col: 8, offset: 91634},
-																																											expr: &anyMatcher{
-																																												line: 2902, col: 9, offset: 91635,
-																																											},
-																																										},
-																																									},
-																																								},
-																																							},
-																																						},
+																																				&notExpr{
+																																					pos: position{line: 2908, col: 8, offset: 91746},
+																																					expr: &anyMatcher{
+																																						line: 2908, col: 9, offset: 91747,
 																																					},
 																																				},
 																																			},
 																																		},
 																																	},
-																																	&labeledExpr{
-																																		pos:   position{line: 2666, col: 72, offset: 84915},
-																																		label: "content",
-																																		expr: &zeroOrMoreExpr{
-																																			pos: position{line: 2672, col: 5, offset: 85074},
-																																			expr: &actionExpr{
-																																				pos: position{line: 2673, col: 9, offset: 85084},
-																																				run: (*parser).callonDocumentFragment1329,
-																																				expr: &seqExpr{
-																																					pos: position{line: 2673, col: 9, offset: 85084},
-																																					exprs: []interface{}{
-																																						&notExpr{
-																																							pos: position{line: 2673, col: 9, offset: 85084},
-																																							expr: &choiceExpr{
-																																								pos: position{line: 2629, col: 22, offset: 84007},
-																																								alternatives: []interface{}{
-																																									&seqExpr{
-																																										pos: position{line: 2625, col: 19, offset: 83927},
-																																										exprs: []interface{}{
-																																											&litMatcher{
-																																												pos:        position{line: 2625, col: 19, offset: 83927},
-																																												val:        "|===",
-																																												ignoreCase: false,
-																																												want:       "\"|===\"",
-																																											},
-																																											&zeroOrMoreExpr{
-																																												pos: position{line: 2625, col: 26, offset: 83934},
-																																												expr: &actionExpr{
-																																													pos: position{line: 2883, col: 10, offset: 91286},
-																																													run: (*parser).callonDocumentFragment1336,
-																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2883, col: 10, offset: 91286},
-																																														val:        "[\\t ]",
-																																														chars:      []rune{'\t', ' '},
-																																														ignoreCase: false,
-																																														inverted:   false,
-																																													},
-																																												},
-																																											},
-																																											&choiceExpr{
-																																												pos: position{line: 2905, col: 8, offset: 91684},
-																																												alternatives: []interface{}{
-																																													&actionExpr{
-																																														pos: position{line: 2892, col: 12, offset: 91457},
-																																														run: (*parser).callonDocumentFragment1339,
-																																														expr: &choiceExpr{
-																																															pos: position{line: 2892, col: 13, offset: 91458},
-																																															alternatives: []interface{}{
-																																																&litMatcher{
-																																																	pos:        position{line: 2892, col: 13, offset: 91458},
-																																																	val:        "\n",
-																																																	ignoreCase: false,
-																																																	want:       "\"\\n\"",
-																																																},
-																																																&litMatcher{
-																																																	pos:        position{line: 2892, col: 20, offset: 91465},
-																																																	val:        "\r\n",
-																																																	ignoreCase: false,
-																																																	want:       "\"\\r\\n\"",
-																																																},
-																																																&litMatcher{
-																																																	pos:        position{line: 2892, col: 29, offset: 91474},
-																																																	val:        "\r",
-																																																	ignoreCase: false,
-																																																	want:       "\"\\r\"",
-																																																},
-																																															},
-																																														},
-																																													},
-																																													&notExpr{
-																																														pos: position{line: 2902, col: 8, offset: 91634},
-																																														expr: &anyMatcher{
-																																															line: 2902, col: 9, offset: 91635,
-																																														},
-																																													},
-																																												},
-																																											},
-																																										},
-																																									},
-																																									&notExpr{
-																																										pos: position{line: 2902, col: 8, offset: 91634},
-																																										expr: &anyMatcher{
-																																											line: 2902, col: 9, offset: 91635,
-																																										},
-																																									},
-																																								},
-																																							},
-																																						},
-																																						&notExpr{
-																																							pos: position{line: 2674, col: 9, offset: 85111},
-																																							expr: &actionExpr{
-																																								pos: position{line: 687, col: 14, offset: 21835},
-																																								run: (*parser).callonDocumentFragment1349,
-																																								expr: &seqExpr{
-																																									pos: position{line: 687, col: 14, offset: 21835},
+																																},
+																															},
+																															&actionExpr{
+																																pos: position{line: 2665, col: 24, offset: 84840},
+																																run: (*parser).callonDocumentFragment1276,
+																																expr: &labeledExpr{
+																																	pos:   position{line: 2665, col: 24, offset: 84840},
+																																	label: "cells",
+																																	expr: &oneOrMoreExpr{
+																																		pos: position{line: 2665, col: 30, offset: 84846},
+																																		expr: &actionExpr{
+																																			pos: position{line: 2670, col: 5, offset: 84922},
+																																			run: (*parser).callonDocumentFragment1279,
+																																			expr: &seqExpr{
+																																				pos: position{line: 2670, col: 5, offset: 84922},
+																																				exprs: []interface{}{
+																																					&notExpr{
+																																						pos: position{line: 2670, col: 5, offset: 84922},
+																																						expr: &choiceExpr{
+																																							pos: position{line: 2635, col: 22, offset: 84119},
+																																							alternatives: []interface{}{
+																																								&seqExpr{
+																																									pos: position{line: 2631, col: 19, offset: 84039},
 																																									exprs: []interface{}{
-																																										&andExpr{
-																																											pos: position{line: 2900, col: 11, offset: 91620},
-																																											expr: &anyMatcher{
-																																												line: 2900, col: 13, offset: 91622,
-																																											},
+																																										&litMatcher{
+																																											pos:        position{line: 2631, col: 19, offset: 84039},
+																																											val:        "|===",
+																																											ignoreCase: false,
+																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 687, col: 21, offset: 21842},
+																																											pos: position{line: 2631, col: 26, offset: 84046},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2883, col: 10, offset: 91286},
-																																												run: (*parser).callonDocumentFragment1354,
+																																												pos: position{line: 2889, col: 10, offset: 91398},
+																																												run: (*parser).callonDocumentFragment1286,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2883, col: 10, offset: 91286},
+																																													pos:        position{line: 2889, col: 10, offset: 91398},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -10148,28 +9846,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2905, col: 8, offset: 91684},
+																																											pos: position{line: 2911, col: 8, offset: 91796},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2892, col: 12, offset: 91457},
-																																													run: (*parser).callonDocumentFragment1357,
+																																													pos: position{line: 2898, col: 12, offset: 91569},
+																																													run: (*parser).callonDocumentFragment1289,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2892, col: 13, offset: 91458},
+																																														pos: position{line: 2898, col: 13, offset: 91570},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2892, col: 13, offset: 91458},
+																																																pos:        position{line: 2898, col: 13, offset: 91570},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2892, col: 20, offset: 91465},
+																																																pos:        position{line: 2898, col: 20, offset: 91577},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2892, col: 29, offset: 91474},
+																																																pos:        position{line: 2898, col: 29, offset: 91586},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -10178,98 +9876,75 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2902, col: 8, offset: 91634},
+																																													pos: position{line: 2908, col: 8, offset: 91746},
 																																													expr: &anyMatcher{
-																																														line: 2902, col: 9, offset: 91635,
+																																														line: 2908, col: 9, offset: 91747,
 																																													},
 																																												},
 																																											},
 																																										},
 																																									},
 																																								},
+																																								&notExpr{
+																																									pos: position{line: 2908, col: 8, offset: 91746},
+																																									expr: &anyMatcher{
+																																										line: 2908, col: 9, offset: 91747,
+																																									},
+																																								},
 																																							},
 																																						},
-																																						&notExpr{
-																																							pos: position{line: 2675, col: 9, offset: 85130},
+																																					},
+																																					&notExpr{
+																																						pos: position{line: 2671, col: 5, offset: 84945},
+																																						expr: &actionExpr{
+																																							pos: position{line: 687, col: 14, offset: 21835},
+																																							run: (*parser).callonDocumentFragment1299,
 																																							expr: &seqExpr{
-																																								pos: position{line: 2675, col: 11, offset: 85132},
+																																								pos: position{line: 687, col: 14, offset: 21835},
 																																								exprs: []interface{}{
-																																									&labeledExpr{
-																																										pos:   position{line: 2675, col: 11, offset: 85132},
-																																										label: "format",
-																																										expr: &zeroOrOneExpr{
-																																											pos: position{line: 2675, col: 18, offset: 85139},
-																																											expr: &actionExpr{
-																																												pos: position{line: 2683, col: 20, offset: 85361},
-																																												run: (*parser).callonDocumentFragment1368,
-																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2683, col: 20, offset: 85361},
-																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2683, col: 20, offset: 85361},
-																																														val:        "[^ |\\r\\n]",
-																																														chars:      []rune{' ', '|', '\r', '\n'},
-																																														ignoreCase: false,
-																																														inverted:   true,
-																																													},
-																																												},
-																																											},
+																																									&andExpr{
+																																										pos: position{line: 2906, col: 11, offset: 91732},
+																																										expr: &anyMatcher{
+																																											line: 2906, col: 13, offset: 91734,
 																																										},
 																																									},
-																																									&litMatcher{
-																																										pos:        position{line: 2675, col: 37, offset: 85158},
-																																										val:        "|",
-																																										ignoreCase: false,
-																																										want:       "\"|\"",
-																																									},
-																																								},
-																																							},
-																																						},
-																																						&labeledExpr{
-																																							pos:   position{line: 2676, col: 9, offset: 85171},
-																																							label: "content",
-																																							expr: &actionExpr{
-																																								pos: position{line: 2676, col: 18, offset: 85180},
-																																								run: (*parser).callonDocumentFragment1373,
-																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2676, col: 18, offset: 85180},
-																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2676, col: 18, offset: 85180},
-																																										val:        "[^|\\r\\n]",
-																																										chars:      []rune{'|', '\r', '\n'},
-																																										ignoreCase: false,
-																																										inverted:   true,
+																																									&zeroOrMoreExpr{
+																																										pos: position{line: 687, col: 21, offset: 21842},
+																																										expr: &actionExpr{
+																																											pos: position{line: 2889, col: 10, offset: 91398},
+																																											run: (*parser).callonDocumentFragment1304,
+																																											expr: &charClassMatcher{
+																																												pos:        position{line: 2889, col: 10, offset: 91398},
+																																												val:        "[\\t ]",
+																																												chars:      []rune{'\t', ' '},
+																																												ignoreCase: false,
+																																												inverted:   false,
+																																											},
+																																										},
 																																									},
-																																								},
-																																							},
-																																						},
-																																						&zeroOrOneExpr{
-																																							pos: position{line: 2678, col: 12, offset: 85242},
-																																							expr: &seqExpr{
-																																								pos: position{line: 2678, col: 13, offset: 85243},
-																																								exprs: []interface{}{
 																																									&choiceExpr{
-																																										pos: position{line: 2905, col: 8, offset: 91684},
+																																										pos: position{line: 2911, col: 8, offset: 91796},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2892, col: 12, offset: 91457},
-																																												run: (*parser).callonDocumentFragment1379,
+																																												pos: position{line: 2898, col: 12, offset: 91569},
+																																												run: (*parser).callonDocumentFragment1307,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2892, col: 13, offset: 91458},
+																																													pos: position{line: 2898, col: 13, offset: 91570},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2892, col: 13, offset: 91458},
+																																															pos:        position{line: 2898, col: 13, offset: 91570},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2892, col: 20, offset: 91465},
+																																															pos:        position{line: 2898, col: 20, offset: 91577},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2892, col: 29, offset: 91474},
+																																															pos:        position{line: 2898, col: 29, offset: 91586},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -10278,77 +9953,415 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2902, col: 8, offset: 91634},
+																																												pos: position{line: 2908, col: 8, offset: 91746},
 																																												expr: &anyMatcher{
-																																													line: 2902, col: 9, offset: 91635,
+																																													line: 2908, col: 9, offset: 91747,
 																																												},
 																																											},
 																																										},
 																																									},
-																																									&zeroOrMoreExpr{
-																																										pos: position{line: 2678, col: 17, offset: 85247},
-																																										expr: &actionExpr{
+																																								},
+																																							},
+																																						},
+																																					},
+																																					&labeledExpr{
+																																						pos:   position{line: 2672, col: 5, offset: 84960},
+																																						label: "format",
+																																						expr: &zeroOrOneExpr{
+																																							pos: position{line: 2672, col: 12, offset: 84967},
+																																							expr: &actionExpr{
+																																								pos: position{line: 2689, col: 20, offset: 85473},
+																																								run: (*parser).callonDocumentFragment1316,
+																																								expr: &zeroOrMoreExpr{
+																																									pos: position{line: 2689, col: 20, offset: 85473},
+																																									expr: &charClassMatcher{
+																																										pos:        position{line: 2689, col: 20, offset: 85473},
+																																										val:        "[^ |\\r\\n]",
+																																										chars:      []rune{' ', '|', '\r', '\n'},
+																																										ignoreCase: false,
+																																										inverted:   true,
+																																									},
+																																								},
+																																							},
+																																						},
+																																					},
+																																					&litMatcher{
+																																						pos:        position{line: 2672, col: 31, offset: 84986},
+																																						val:        "|",
+																																						ignoreCase: false,
+																																						want:       "\"|\"",
+																																					},
+																																					&zeroOrMoreExpr{
+																																						pos: position{line: 2672, col: 35, offset: 84990},
+																																						expr: &actionExpr{
+																																							pos: position{line: 2889, col: 10, offset: 91398},
+																																							run: (*parser).callonDocumentFragment1321,
+																																							expr: &charClassMatcher{
+																																								pos:        position{line: 2889, col: 10, offset: 91398},
+																																								val:        "[\\t ]",
+																																								chars:      []rune{'\t', ' '},
+																																								ignoreCase: false,
+																																								inverted:   false,
+																																							},
+																																						},
+																																					},
+																																					&zeroOrOneExpr{
+																																						pos: position{line: 2672, col: 42, offset: 84997},
+																																						expr: &seqExpr{
+																																							pos: position{line: 2672, col: 43, offset: 84998},
+																																							exprs: []interface{}{
+																																								&actionExpr{
+																																									pos: position{line: 2898, col: 12, offset: 91569},
+																																									run: (*parser).callonDocumentFragment1325,
+																																									expr: &choiceExpr{
+																																										pos: position{line: 2898, col: 13, offset: 91570},
+																																										alternatives: []interface{}{
+																																											&litMatcher{
+																																												pos:        position{line: 2898, col: 13, offset: 91570},
+																																												val:        "\n",
+																																												ignoreCase: false,
+																																												want:       "\"\\n\"",
+																																											},
+																																											&litMatcher{
+																																												pos:        position{line: 2898, col: 20, offset: 91577},
+																																												val:        "\r\n",
+																																												ignoreCase: false,
+																																												want:       "\"\\r\\n\"",
+																																											},
+																																											&litMatcher{
+																																												pos:        position{line: 2898, col: 29, offset: 91586},
+																																												val:        "\r",
+																																												ignoreCase: false,
+																																												want:       "\"\\r\"",
+																																											},
+																																										},
+																																									},
+																																								},
+																																								&zeroOrMoreExpr{
+																																									pos: position{line: 2672, col: 51, offset: 85006},
+																																									expr: &actionExpr{
+																																										pos: position{line: 2493, col: 22, offset: 80229},
+																																										run: (*parser).callonDocumentFragment1331,
+																																										expr: &seqExpr{
 																																											pos: position{line: 2493, col: 22, offset: 80229},
-																																											run: (*parser).callonDocumentFragment1387,
-																																											expr: &seqExpr{
-																																												pos: position{line: 2493, col: 22, offset: 80229},
-																																												exprs: []interface{}{
-																																													&litMatcher{
-																																														pos:        position{line: 2498, col: 31, offset: 80450},
+																																											exprs: []interface{}{
+																																												&litMatcher{
+																																													pos:        position{line: 2498, col: 31, offset: 80450},
+																																													val:        "//",
+																																													ignoreCase: false,
+																																													want:       "\"//\"",
+																																												},
+																																												&notExpr{
+																																													pos: position{line: 2498, col: 36, offset: 80455},
+																																													expr: &litMatcher{
+																																														pos:        position{line: 2498, col: 37, offset: 80456},
 																																														val:        "//",
 																																														ignoreCase: false,
 																																														want:       "\"//\"",
 																																													},
+																																												},
+																																												&labeledExpr{
+																																													pos:   position{line: 2493, col: 49, offset: 80256},
+																																													label: "content",
+																																													expr: &actionExpr{
+																																														pos: position{line: 2835, col: 13, offset: 89924},
+																																														run: (*parser).callonDocumentFragment1337,
+																																														expr: &zeroOrMoreExpr{
+																																															pos: position{line: 2835, col: 13, offset: 89924},
+																																															expr: &charClassMatcher{
+																																																pos:        position{line: 2835, col: 13, offset: 89924},
+																																																val:        "[^\\r\\n]",
+																																																chars:      []rune{'\r', '\n'},
+																																																ignoreCase: false,
+																																																inverted:   true,
+																																															},
+																																														},
+																																													},
+																																												},
+																																												&choiceExpr{
+																																													pos: position{line: 2911, col: 8, offset: 91796},
+																																													alternatives: []interface{}{
+																																														&actionExpr{
+																																															pos: position{line: 2898, col: 12, offset: 91569},
+																																															run: (*parser).callonDocumentFragment1341,
+																																															expr: &choiceExpr{
+																																																pos: position{line: 2898, col: 13, offset: 91570},
+																																																alternatives: []interface{}{
+																																																	&litMatcher{
+																																																		pos:        position{line: 2898, col: 13, offset: 91570},
+																																																		val:        "\n",
+																																																		ignoreCase: false,
+																																																		want:       "\"\\n\"",
+																																																	},
+																																																	&litMatcher{
+																																																		pos:        position{line: 2898, col: 20, offset: 91577},
+																																																		val:        "\r\n",
+																																																		ignoreCase: false,
+																																																		want:       "\"\\r\\n\"",
+																																																	},
+																																																	&litMatcher{
+																																																		pos:        position{line: 2898, col: 29, offset: 91586},
+																																																		val:        "\r",
+																																																		ignoreCase: false,
+																																																		want:       "\"\\r\"",
+																																																	},
+																																																},
+																																															},
+																																														},
+																																														&notExpr{
+																																															pos: position{line: 2908, col: 8, offset: 91746},
+																																															expr: &anyMatcher{
+																																																line: 2908, col: 9, offset: 91747,
+																																															},
+																																														},
+																																													},
+																																												},
+																																											},
+																																										},
+																																									},
+																																								},
+																																							},
+																																						},
+																																					},
+																																					&labeledExpr{
+																																						pos:   position{line: 2672, col: 72, offset: 85027},
+																																						label: "content",
+																																						expr: &zeroOrMoreExpr{
+																																							pos: position{line: 2678, col: 5, offset: 85186},
+																																							expr: &actionExpr{
+																																								pos: position{line: 2679, col: 9, offset: 85196},
+																																								run: (*parser).callonDocumentFragment1350,
+																																								expr: &seqExpr{
+																																									pos: position{line: 2679, col: 9, offset: 85196},
+																																									exprs: []interface{}{
+																																										&notExpr{
+																																											pos: position{line: 2679, col: 9, offset: 85196},
+																																											expr: &choiceExpr{
+																																												pos: position{line: 2635, col: 22, offset: 84119},
+																																												alternatives: []interface{}{
+																																													&seqExpr{
+																																														pos: position{line: 2631, col: 19, offset: 84039},
+																																														exprs: []interface{}{
+																																															&litMatcher{
+																																																pos:        position{line: 2631, col: 19, offset: 84039},
+																																																val:        "|===",
+																																																ignoreCase: false,
+																																																want:       "\"|===\"",
+																																															},
+																																															&zeroOrMoreExpr{
+																																																pos: position{line: 2631, col: 26, offset: 84046},
+																																																expr: &actionExpr{
+																																																	pos: position{line: 2889, col: 10, offset: 91398},
+																																																	run: (*parser).callonDocumentFragment1357,
+																																																	expr: &charClassMatcher{
+																																																		pos:        position{line: 2889, col: 10, offset: 91398},
+																																																		val:        "[\\t ]",
+																																																		chars:      []rune{'\t', ' '},
+																																																		ignoreCase: false,
+																																																		inverted:   false,
+																																																	},
+																																																},
+																																															},
+																																															&choiceExpr{
+																																																pos: position{line: 2911, col: 8, offset: 91796},
+																																																alternatives: []interface{}{
+																																																	&actionExpr{
+																																																		pos: position{line: 2898, col: 12, offset: 91569},
+																																																		run: (*parser).callonDocumentFragment1360,
+																																																		expr: &choiceExpr{
+																																																			pos: position{line: 2898, col: 13, offset: 91570},
+																																																			alternatives: []interface{}{
+																																																				&litMatcher{
+																																																					pos:        position{line: 2898, col: 13, offset: 91570},
+																																																					val:        "\n",
+																																																					ignoreCase: false,
+																																																					want:       "\"\\n\"",
+																																																				},
+																																																				&litMatcher{
+																																																					pos:        position{line: 2898, col: 20, offset: 91577},
+																																																					val:        "\r\n",
+																																																					ignoreCase: false,
+																																																					want:       "\"\\r\\n\"",
+																																																				},
+																																																				&litMatcher{
+																																																					pos:        position{line: 2898, col: 29, offset: 91586},
+																																																					val:        "\r",
+																																																					ignoreCase: false,
+																																																					want:       "\"\\r\"",
+																																																				},
+																																																			},
+																																																		},
+																																																	},
+																																																	&notExpr{
+																																																		pos: position{line: 2908, col: 8, offset: 91746},
+																																																		expr: &anyMatcher{
+																																																			line: 2908, col: 9, offset: 91747,
+																																																		},
+																																																	},
+																																																},
+																																															},
+																																														},
+																																													},
 																																													&notExpr{
-																																														pos: position{line: 2498, col: 36, offset: 80455},
-																																														expr: &litMatcher{
-																																															pos:        position{line: 2498, col: 37, offset: 80456},
-																																															val:        "//",
-																																															ignoreCase: false,
-																																															want:       "\"//\"",
+																																														pos: position{line: 2908, col: 8, offset: 91746},
+																																														expr: &anyMatcher{
+																																															line: 2908, col: 9, offset: 91747,
 																																														},
 																																													},
-																																													&labeledExpr{
-																																														pos:   position{line: 2493, col: 49, offset: 80256},
-																																														label: "content",
-																																														expr: &actionExpr{
-																																															pos: position{line: 2829, col: 13, offset: 89812},
-																																															run: (*parser).callonDocumentFragment1393,
-																																															expr: &zeroOrMoreExpr{
-																																																pos: position{line: 2829, col: 13, offset: 89812},
+																																												},
+																																											},
+																																										},
+																																										&notExpr{
+																																											pos: position{line: 2680, col: 9, offset: 85223},
+																																											expr: &actionExpr{
+																																												pos: position{line: 687, col: 14, offset: 21835},
+																																												run: (*parser).callonDocumentFragment1370,
+																																												expr: &seqExpr{
+																																													pos: position{line: 687, col: 14, offset: 21835},
+																																													exprs: []interface{}{
+																																														&andExpr{
+																																															pos: position{line: 2906, col: 11, offset: 91732},
+																																															expr: &anyMatcher{
+																																																line: 2906, col: 13, offset: 91734,
+																																															},
+																																														},
+																																														&zeroOrMoreExpr{
+																																															pos: position{line: 687, col: 21, offset: 21842},
+																																															expr: &actionExpr{
+																																																pos: position{line: 2889, col: 10, offset: 91398},
+																																																run: (*parser).callonDocumentFragment1375,
 																																																expr: &charClassMatcher{
-																																																	pos:        position{line: 2829, col: 13, offset: 89812},
-																																																	val:        "[^\\r\\n]",
-																																																	chars:      []rune{'\r', '\n'},
+																																																	pos:        position{line: 2889, col: 10, offset: 91398},
+																																																	val:        "[\\t ]",
+																																																	chars:      []rune{'\t', ' '},
 																																																	ignoreCase: false,
-																																																	inverted:   true,
+																																																	inverted:   false,
+																																																},
+																																															},
+																																														},
+																																														&choiceExpr{
+																																															pos: position{line: 2911, col: 8, offset: 91796},
+																																															alternatives: []interface{}{
+																																																&actionExpr{
+																																																	pos: position{line: 2898, col: 12, offset: 91569},
+																																																	run: (*parser).callonDocumentFragment1378,
+																																																	expr: &choiceExpr{
+																																																		pos: position{line: 2898, col: 13, offset: 91570},
+																																																		alternatives: []interface{}{
+																																																			&litMatcher{
+																																																				pos:        position{line: 2898, col: 13, offset: 91570},
+																																																				val:        "\n",
+																																																				ignoreCase: false,
+																																																				want:       "\"\\n\"",
+																																																			},
+																																																			&litMatcher{
+																																																				pos:        position{line: 2898, col: 20, offset: 91577},
+																																																				val:        "\r\n",
+																																																				ignoreCase: false,
+																																																				want:       "\"\\r\\n\"",
+																																																			},
+																																																			&litMatcher{
+																																																				pos:        position{line: 2898, col: 29, offset: 91586},
+																																																				val:        "\r",
+																																																				ignoreCase: false,
+																																																				want:       "\"\\r\"",
+																																																			},
+																																																		},
+																																																	},
+																																																},
+																																																&notExpr{
+																																																	pos: position{line: 2908, col: 8, offset: 91746},
+																																																	expr: &anyMatcher{
+																																																		line: 2908, col: 9, offset: 91747,
+																																																	},
+																																																},
+																																															},
+																																														},
+																																													},
+																																												},
+																																											},
+																																										},
+																																										&notExpr{
+																																											pos: position{line: 2681, col: 9, offset: 85242},
+																																											expr: &seqExpr{
+																																												pos: position{line: 2681, col: 11, offset: 85244},
+																																												exprs: []interface{}{
+																																													&labeledExpr{
+																																														pos:   position{line: 2681, col: 11, offset: 85244},
+																																														label: "format",
+																																														expr: &zeroOrOneExpr{
+																																															pos: position{line: 2681, col: 18, offset: 85251},
+																																															expr: &actionExpr{
+																																																pos: position{line: 2689, col: 20, offset: 85473},
+																																																run: (*parser).callonDocumentFragment1389,
+																																																expr: &zeroOrMoreExpr{
+																																																	pos: position{line: 2689, col: 20, offset: 85473},
+																																																	expr: &charClassMatcher{
+																																																		pos:        position{line: 2689, col: 20, offset: 85473},
+																																																		val:        "[^ |\\r\\n]",
+																																																		chars:      []rune{' ', '|', '\r', '\n'},
+																																																		ignoreCase: false,
+																																																		inverted:   true,
+																																																	},
 																																																},
 																																															},
 																																														},
 																																													},
+																																													&litMatcher{
+																																														pos:        position{line: 2681, col: 37, offset: 85270},
+																																														val:        "|",
+																																														ignoreCase: false,
+																																														want:       "\"|\"",
+																																													},
+																																												},
+																																											},
+																																										},
+																																										&labeledExpr{
+																																											pos:   position{line: 2682, col: 9, offset: 85283},
+																																											label: "content",
+																																											expr: &actionExpr{
+																																												pos: position{line: 2682, col: 18, offset: 85292},
+																																												run: (*parser).callonDocumentFragment1394,
+																																												expr: &zeroOrMoreExpr{
+																																													pos: position{line: 2682, col: 18, offset: 85292},
+																																													expr: &charClassMatcher{
+																																														pos:        position{line: 2682, col: 18, offset: 85292},
+																																														val:        "[^|\\r\\n]",
+																																														chars:      []rune{'|', '\r', '\n'},
+																																														ignoreCase: false,
+																																														inverted:   true,
+																																													},
+																																												},
+																																											},
+																																										},
+																																										&zeroOrOneExpr{
+																																											pos: position{line: 2684, col: 12, offset: 85354},
+																																											expr: &seqExpr{
+																																												pos: position{line: 2684, col: 13, offset: 85355},
+																																												exprs: []interface{}{
 																																													&choiceExpr{
-																																														pos: position{line: 2905, col: 8, offset: 91684},
+																																														pos: position{line: 2911, col: 8, offset: 91796},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2892, col: 12, offset: 91457},
-																																																run: (*parser).callonDocumentFragment1397,
+																																																pos: position{line: 2898, col: 12, offset: 91569},
+																																																run: (*parser).callonDocumentFragment1400,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2892, col: 13, offset: 91458},
+																																																	pos: position{line: 2898, col: 13, offset: 91570},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2892, col: 13, offset: 91458},
+																																																			pos:        position{line: 2898, col: 13, offset: 91570},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2892, col: 20, offset: 91465},
+																																																			pos:        position{line: 2898, col: 20, offset: 91577},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2892, col: 29, offset: 91474},
+																																																			pos:        position{line: 2898, col: 29, offset: 91586},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -10357,9 +10370,92 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2902, col: 8, offset: 91634},
+																																																pos: position{line: 2908, col: 8, offset: 91746},
 																																																expr: &anyMatcher{
-																																																	line: 2902, col: 9, offset: 91635,
+																																																	line: 2908, col: 9, offset: 91747,
+																																																},
+																																															},
+																																														},
+																																													},
+																																													&zeroOrMoreExpr{
+																																														pos: position{line: 2684, col: 17, offset: 85359},
+																																														expr: &actionExpr{
+																																															pos: position{line: 2493, col: 22, offset: 80229},
+																																															run: (*parser).callonDocumentFragment1408,
+																																															expr: &seqExpr{
+																																																pos: position{line: 2493, col: 22, offset: 80229},
+																																																exprs: []interface{}{
+																																																	&litMatcher{
+																																																		pos:        position{line: 2498, col: 31, offset: 80450},
+																																																		val:        "//",
+																																																		ignoreCase: false,
+																																																		want:       "\"//\"",
+																																																	},
+																																																	&notExpr{
+																																																		pos: position{line: 2498, col: 36, offset: 80455},
+																																																		expr: &litMatcher{
+																																																			pos:        position{line: 2498, col: 37, offset: 80456},
+																																																			val:        "//",
+																																																			ignoreCase: false,
+																																																			want:       "\"//\"",
+																																																		},
+																																																	},
+																																																	&labeledExpr{
+																																																		pos:   position{line: 2493, col: 49, offset: 80256},
+																																																		label: "content",
+																																																		expr: &actionExpr{
+																																																			pos: position{line: 2835, col: 13, offset: 89924},
+																																																			run: (*parser).callonDocumentFragment1414,
+																																																			expr: &zeroOrMoreExpr{
+																																																				pos: position{line: 2835, col: 13, offset: 89924},
+																																																				expr: &charClassMatcher{
+																																																					pos:        position{line: 2835, col: 13, offset: 89924},
+																																																					val:        "[^\\r\\n]",
+																																																					chars:      []rune{'\r', '\n'},
+																																																					ignoreCase: false,
+																																																					inverted:   true,
+																																																				},
+																																																			},
+																																																		},
+																																																	},
+																																																	&choiceExpr{
+																																																		pos: position{line: 2911, col: 8, offset: 91796},
+																																																		alternatives: []interface{}{
+																																																			&actionExpr{
+																																																				pos: position{line: 2898, col: 12, offset: 91569},
+																																																				run: (*parser).callonDocumentFragment1418,
+																																																				expr: &choiceExpr{
+																																																					pos: position{line: 2898, col: 13, offset: 91570},
+																																																					alternatives: []interface{}{
+																																																						&litMatcher{
+																																																							pos:        position{line: 2898, col: 13, offset: 91570},
+																																																							val:        "\n",
+																																																							ignoreCase: false,
+																																																							want:       "\"\\n\"",
+																																																						},
+																																																						&litMatcher{
+																																																							pos:        position{line: 2898, col: 20, offset: 91577},
+																																																							val:        "\r\n",
+																																																							ignoreCase: false,
+																																																							want:       "\"\\r\\n\"",
+																																																						},
+																																																						&litMatcher{
+																																																							pos:        position{line: 2898, col: 29, offset: 91586},
+																																																							val:        "\r",
+																																																							ignoreCase: false,
+																																																							want:       "\"\\r\"",
+																																																						},
+																																																					},
+																																																				},
+																																																			},
+																																																			&notExpr{
+																																																				pos: position{line: 2908, col: 8, offset: 91746},
+																																																				expr: &anyMatcher{
+																																																					line: 2908, col: 9, offset: 91747,
+																																																				},
+																																																			},
+																																																		},
+																																																	},
 																																																},
 																																															},
 																																														},
@@ -10382,72 +10478,72 @@ var g = &grammar{
 																													},
 																												},
 																											},
-																										},
-																									},
-																								},
-																							},
-																							&actionExpr{
-																								pos: position{line: 687, col: 14, offset: 21835},
-																								run: (*parser).callonDocumentFragment1404,
-																								expr: &seqExpr{
-																									pos: position{line: 687, col: 14, offset: 21835},
-																									exprs: []interface{}{
-																										&andExpr{
-																											pos: position{line: 2900, col: 11, offset: 91620},
-																											expr: &anyMatcher{
-																												line: 2900, col: 13, offset: 91622,
-																											},
-																										},
-																										&zeroOrMoreExpr{
-																											pos: position{line: 687, col: 21, offset: 21842},
-																											expr: &actionExpr{
-																												pos: position{line: 2883, col: 10, offset: 91286},
-																												run: (*parser).callonDocumentFragment1409,
-																												expr: &charClassMatcher{
-																													pos:        position{line: 2883, col: 10, offset: 91286},
-																													val:        "[\\t ]",
-																													chars:      []rune{'\t', ' '},
-																													ignoreCase: false,
-																													inverted:   false,
-																												},
-																											},
-																										},
-																										&choiceExpr{
-																											pos: position{line: 2905, col: 8, offset: 91684},
-																											alternatives: []interface{}{
-																												&actionExpr{
-																													pos: position{line: 2892, col: 12, offset: 91457},
-																													run: (*parser).callonDocumentFragment1412,
-																													expr: &choiceExpr{
-																														pos: position{line: 2892, col: 13, offset: 91458},
-																														alternatives: []interface{}{
-																															&litMatcher{
-																																pos:        position{line: 2892, col: 13, offset: 91458},
-																																val:        "\n",
-																																ignoreCase: false,
-																																want:       "\"\\n\"",
+																											&actionExpr{
+																												pos: position{line: 687, col: 14, offset: 21835},
+																												run: (*parser).callonDocumentFragment1425,
+																												expr: &seqExpr{
+																													pos: position{line: 687, col: 14, offset: 21835},
+																													exprs: []interface{}{
+																														&andExpr{
+																															pos: position{line: 2906, col: 11, offset: 91732},
+																															expr: &anyMatcher{
+																																line: 2906, col: 13, offset: 91734,
 																															},
-																															&litMatcher{
-																																pos:        position{line: 2892, col: 20, offset: 91465},
-																																val:        "\r\n",
-																																ignoreCase: false,
-																																want:       "\"\\r\\n\"",
+																														},
+																														&zeroOrMoreExpr{
+																															pos: position{line: 687, col: 21, offset: 21842},
+																															expr: &actionExpr{
+																																pos: position{line: 2889, col: 10, offset: 91398},
+																																run: (*parser).callonDocumentFragment1430,
+																																expr: &charClassMatcher{
+																																	pos:        position{line: 2889, col: 10, offset: 91398},
+																																	val:        "[\\t ]",
+																																	chars:      []rune{'\t', ' '},
+																																	ignoreCase: false,
+																																	inverted:   false,
+																																},
 																															},
-																															&litMatcher{
-																																pos:        position{line: 2892, col: 29, offset: 91474},
-																																val:        "\r",
-																																ignoreCase: false,
-																																want:       "\"\\r\"",
+																														},
+																														&choiceExpr{
+																															pos: position{line: 2911, col: 8, offset: 91796},
+																															alternatives: []interface{}{
+																																&actionExpr{
+																																	pos: position{line: 2898, col: 12, offset: 91569},
+																																	run: (*parser).callonDocumentFragment1433,
+																																	expr: &choiceExpr{
+																																		pos: position{line: 2898, col: 13, offset: 91570},
+																																		alternatives: []interface{}{
+																																			&litMatcher{
+																																				pos:        position{line: 2898, col: 13, offset: 91570},
+																																				val:        "\n",
+																																				ignoreCase: false,
+																																				want:       "\"\\n\"",
+																																			},
+																																			&litMatcher{
+																																				pos:        position{line: 2898, col: 20, offset: 91577},
+																																				val:        "\r\n",
+																																				ignoreCase: false,
+																																				want:       "\"\\r\\n\"",
+																																			},
+																																			&litMatcher{
+																																				pos:        position{line: 2898, col: 29, offset: 91586},
+																																				val:        "\r",
+																																				ignoreCase: false,
+																																				want:       "\"\\r\"",
+																																			},
+																																		},
+																																	},
+																																},
+																																&notExpr{
+																																	pos: position{line: 2908, col: 8, offset: 91746},
+																																	expr: &anyMatcher{
+																																		line: 2908, col: 9, offset: 91747,
+																																	},
+																																},
 																															},
 																														},
 																													},
 																												},
-																												&notExpr{
-																													pos: position{line: 2902, col: 8, offset: 91634},
-																													expr: &anyMatcher{
-																														line: 2902, col: 9, offset: 91635,
-																													},
-																												},
 																											},
 																										},
 																									},
@@ -10458,30 +10554,113 @@ var g = &grammar{
 																				},
 																			},
 																		},
+																		&zeroOrMoreExpr{
+																			pos: position{line: 2623, col: 9, offset: 83870},
+																			expr: &actionExpr{
+																				pos: position{line: 2493, col: 22, offset: 80229},
+																				run: (*parser).callonDocumentFragment1441,
+																				expr: &seqExpr{
+																					pos: position{line: 2493, col: 22, offset: 80229},
+																					exprs: []interface{}{
+																						&litMatcher{
+																							pos:        position{line: 2498, col: 31, offset: 80450},
+																							val:        "//",
+																							ignoreCase: false,
+																							want:       "\"//\"",
+																						},
+																						&notExpr{
+																							pos: position{line: 2498, col: 36, offset: 80455},
+																							expr: &litMatcher{
+																								pos:        position{line: 2498, col: 37, offset: 80456},
+																								val:        "//",
+																								ignoreCase: false,
+																								want:       "\"//\"",
+																							},
+																						},
+																						&labeledExpr{
+																							pos:   position{line: 2493, col: 49, offset: 80256},
+																							label: "content",
+																							expr: &actionExpr{
+																								pos: position{line: 2835, col: 13, offset: 89924},
+																								run: (*parser).callonDocumentFragment1447,
+																								expr: &zeroOrMoreExpr{
+																									pos: position{line: 2835, col: 13, offset: 89924},
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2835, col: 13, offset: 89924},
+																										val:        "[^\\r\\n]",
+																										chars:      []rune{'\r', '\n'},
+																										ignoreCase: false,
+																										inverted:   true,
+																									},
+																								},
+																							},
+																						},
+																						&choiceExpr{
+																							pos: position{line: 2911, col: 8, offset: 91796},
+																							alternatives: []interface{}{
+																								&actionExpr{
+																									pos: position{line: 2898, col: 12, offset: 91569},
+																									run: (*parser).callonDocumentFragment1451,
+																									expr: &choiceExpr{
+																										pos: position{line: 2898, col: 13, offset: 91570},
+																										alternatives: []interface{}{
+																											&litMatcher{
+																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												val:        "\n",
+																												ignoreCase: false,
+																												want:       "\"\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												val:        "\r\n",
+																												ignoreCase: false,
+																												want:       "\"\\r\\n\"",
+																											},
+																											&litMatcher{
+																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												val:        "\r",
+																												ignoreCase: false,
+																												want:       "\"\\r\"",
+																											},
+																										},
+																									},
+																								},
+																								&notExpr{
+																									pos: position{line: 2908, col: 8, offset: 91746},
+																									expr: &anyMatcher{
+																										line: 2908, col: 9, offset: 91747,
+																									},
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																		},
 																	},
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2629, col: 22, offset: 84007},
+														pos: position{line: 2635, col: 22, offset: 84119},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2625, col: 19, offset: 83927},
+																pos: position{line: 2631, col: 19, offset: 84039},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2625, col: 19, offset: 83927},
+																		pos:        position{line: 2631, col: 19, offset: 84039},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2625, col: 26, offset: 83934},
+																		pos: position{line: 2631, col: 26, offset: 84046},
 																		expr: &actionExpr{
-																			pos: position{line: 2883, col: 10, offset: 91286},
-																			run: (*parser).callonDocumentFragment1423,
+																			pos: position{line: 2889, col: 10, offset: 91398},
+																			run: (*parser).callonDocumentFragment1462,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2883, col: 10, offset: 91286},
+																				pos:        position{line: 2889, col: 10, offset: 91398},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10490,28 +10669,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2905, col: 8, offset: 91684},
+																		pos: position{line: 2911, col: 8, offset: 91796},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2892, col: 12, offset: 91457},
-																				run: (*parser).callonDocumentFragment1426,
+																				pos: position{line: 2898, col: 12, offset: 91569},
+																				run: (*parser).callonDocumentFragment1465,
 																				expr: &choiceExpr{
-																					pos: position{line: 2892, col: 13, offset: 91458},
+																					pos: position{line: 2898, col: 13, offset: 91570},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 13, offset: 91458},
+																							pos:        position{line: 2898, col: 13, offset: 91570},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 20, offset: 91465},
+																							pos:        position{line: 2898, col: 20, offset: 91577},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 29, offset: 91474},
+																							pos:        position{line: 2898, col: 29, offset: 91586},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10520,9 +10699,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2902, col: 8, offset: 91634},
+																				pos: position{line: 2908, col: 8, offset: 91746},
 																				expr: &anyMatcher{
-																					line: 2902, col: 9, offset: 91635,
+																					line: 2908, col: 9, offset: 91747,
 																				},
 																			},
 																		},
@@ -10530,9 +10709,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2902, col: 8, offset: 91634},
+																pos: position{line: 2908, col: 8, offset: 91746},
 																expr: &anyMatcher{
-																	line: 2902, col: 9, offset: 91635,
+																	line: 2908, col: 9, offset: 91747,
 																},
 															},
 														},
@@ -10542,7 +10721,7 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 2493, col: 22, offset: 80229},
-											run: (*parser).callonDocumentFragment1435,
+											run: (*parser).callonDocumentFragment1474,
 											expr: &seqExpr{
 												pos: position{line: 2493, col: 22, offset: 80229},
 												exprs: []interface{}{
@@ -10565,12 +10744,12 @@ var g = &grammar{
 														pos:   position{line: 2493, col: 49, offset: 80256},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2829, col: 13, offset: 89812},
-															run: (*parser).callonDocumentFragment1441,
+															pos: position{line: 2835, col: 13, offset: 89924},
+															run: (*parser).callonDocumentFragment1480,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2829, col: 13, offset: 89812},
+																pos: position{line: 2835, col: 13, offset: 89924},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2829, col: 13, offset: 89812},
+																	pos:        position{line: 2835, col: 13, offset: 89924},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10580,28 +10759,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2905, col: 8, offset: 91684},
+														pos: position{line: 2911, col: 8, offset: 91796},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2892, col: 12, offset: 91457},
-																run: (*parser).callonDocumentFragment1445,
+																pos: position{line: 2898, col: 12, offset: 91569},
+																run: (*parser).callonDocumentFragment1484,
 																expr: &choiceExpr{
-																	pos: position{line: 2892, col: 13, offset: 91458},
+																	pos: position{line: 2898, col: 13, offset: 91570},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 13, offset: 91458},
+																			pos:        position{line: 2898, col: 13, offset: 91570},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 20, offset: 91465},
+																			pos:        position{line: 2898, col: 20, offset: 91577},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 29, offset: 91474},
+																			pos:        position{line: 2898, col: 29, offset: 91586},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10610,9 +10789,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2902, col: 8, offset: 91634},
+																pos: position{line: 2908, col: 8, offset: 91746},
 																expr: &anyMatcher{
-																	line: 2902, col: 9, offset: 91635,
+																	line: 2908, col: 9, offset: 91747,
 																},
 															},
 														},
@@ -10622,20 +10801,20 @@ var g = &grammar{
 										},
 										&actionExpr{
 											pos: position{line: 1244, col: 5, offset: 38614},
-											run: (*parser).callonDocumentFragment1452,
+											run: (*parser).callonDocumentFragment1491,
 											expr: &seqExpr{
 												pos: position{line: 1244, col: 5, offset: 38614},
 												exprs: []interface{}{
 													&andCodeExpr{
 														pos: position{line: 1244, col: 5, offset: 38614},
-														run: (*parser).callonDocumentFragment1454,
+														run: (*parser).callonDocumentFragment1493,
 													},
 													&labeledExpr{
 														pos:   position{line: 1247, col: 5, offset: 38672},
 														label: "frontmatter",
 														expr: &actionExpr{
 															pos: position{line: 1252, col: 20, offset: 38767},
-															run: (*parser).callonDocumentFragment1456,
+															run: (*parser).callonDocumentFragment1495,
 															expr: &seqExpr{
 																pos: position{line: 1252, col: 20, offset: 38767},
 																exprs: []interface{}{
@@ -10648,10 +10827,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1256, col: 36, offset: 38945},
 																		expr: &actionExpr{
-																			pos: position{line: 2883, col: 10, offset: 91286},
-																			run: (*parser).callonDocumentFragment1460,
+																			pos: position{line: 2889, col: 10, offset: 91398},
+																			run: (*parser).callonDocumentFragment1499,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2883, col: 10, offset: 91286},
+																				pos:        position{line: 2889, col: 10, offset: 91398},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10660,28 +10839,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2905, col: 8, offset: 91684},
+																		pos: position{line: 2911, col: 8, offset: 91796},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2892, col: 12, offset: 91457},
-																				run: (*parser).callonDocumentFragment1463,
+																				pos: position{line: 2898, col: 12, offset: 91569},
+																				run: (*parser).callonDocumentFragment1502,
 																				expr: &choiceExpr{
-																					pos: position{line: 2892, col: 13, offset: 91458},
+																					pos: position{line: 2898, col: 13, offset: 91570},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 13, offset: 91458},
+																							pos:        position{line: 2898, col: 13, offset: 91570},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 20, offset: 91465},
+																							pos:        position{line: 2898, col: 20, offset: 91577},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 29, offset: 91474},
+																							pos:        position{line: 2898, col: 29, offset: 91586},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10690,9 +10869,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2902, col: 8, offset: 91634},
+																				pos: position{line: 2908, col: 8, offset: 91746},
 																				expr: &anyMatcher{
-																					line: 2902, col: 9, offset: 91635,
+																					line: 2908, col: 9, offset: 91747,
 																				},
 																			},
 																		},
@@ -10704,7 +10883,7 @@ var g = &grammar{
 																			pos: position{line: 1252, col: 53, offset: 38800},
 																			expr: &actionExpr{
 																				pos: position{line: 1258, col: 27, offset: 38983},
-																				run: (*parser).callonDocumentFragment1472,
+																				run: (*parser).callonDocumentFragment1511,
 																				expr: &zeroOrMoreExpr{
 																					pos: position{line: 1258, col: 27, offset: 38983},
 																					expr: &oneOrMoreExpr{
@@ -10726,10 +10905,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1256, col: 36, offset: 38945},
 																												expr: &actionExpr{
-																													pos: position{line: 2883, col: 10, offset: 91286},
-																													run: (*parser).callonDocumentFragment1480,
+																													pos: position{line: 2889, col: 10, offset: 91398},
+																													run: (*parser).callonDocumentFragment1519,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2883, col: 10, offset: 91286},
+																														pos:        position{line: 2889, col: 10, offset: 91398},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10738,28 +10917,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2905, col: 8, offset: 91684},
+																												pos: position{line: 2911, col: 8, offset: 91796},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2892, col: 12, offset: 91457},
-																														run: (*parser).callonDocumentFragment1483,
+																														pos: position{line: 2898, col: 12, offset: 91569},
+																														run: (*parser).callonDocumentFragment1522,
 																														expr: &choiceExpr{
-																															pos: position{line: 2892, col: 13, offset: 91458},
+																															pos: position{line: 2898, col: 13, offset: 91570},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 13, offset: 91458},
+																																	pos:        position{line: 2898, col: 13, offset: 91570},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 20, offset: 91465},
+																																	pos:        position{line: 2898, col: 20, offset: 91577},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 29, offset: 91474},
+																																	pos:        position{line: 2898, col: 29, offset: 91586},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10768,9 +10947,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2902, col: 8, offset: 91634},
+																														pos: position{line: 2908, col: 8, offset: 91746},
 																														expr: &anyMatcher{
-																															line: 2902, col: 9, offset: 91635,
+																															line: 2908, col: 9, offset: 91747,
 																														},
 																													},
 																												},
@@ -10797,10 +10976,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1256, col: 36, offset: 38945},
 																		expr: &actionExpr{
-																			pos: position{line: 2883, col: 10, offset: 91286},
-																			run: (*parser).callonDocumentFragment1493,
+																			pos: position{line: 2889, col: 10, offset: 91398},
+																			run: (*parser).callonDocumentFragment1532,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2883, col: 10, offset: 91286},
+																				pos:        position{line: 2889, col: 10, offset: 91398},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10809,28 +10988,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2905, col: 8, offset: 91684},
+																		pos: position{line: 2911, col: 8, offset: 91796},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2892, col: 12, offset: 91457},
-																				run: (*parser).callonDocumentFragment1496,
+																				pos: position{line: 2898, col: 12, offset: 91569},
+																				run: (*parser).callonDocumentFragment1535,
 																				expr: &choiceExpr{
-																					pos: position{line: 2892, col: 13, offset: 91458},
+																					pos: position{line: 2898, col: 13, offset: 91570},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 13, offset: 91458},
+																							pos:        position{line: 2898, col: 13, offset: 91570},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 20, offset: 91465},
+																							pos:        position{line: 2898, col: 20, offset: 91577},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 29, offset: 91474},
+																							pos:        position{line: 2898, col: 29, offset: 91586},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10839,9 +11018,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2902, col: 8, offset: 91634},
+																				pos: position{line: 2908, col: 8, offset: 91746},
 																				expr: &anyMatcher{
-																					line: 2902, col: 9, offset: 91635,
+																					line: 2908, col: 9, offset: 91747,
 																				},
 																			},
 																		},
@@ -10863,7 +11042,7 @@ var g = &grammar{
 						},
 						&andCodeExpr{
 							pos: position{line: 253, col: 5, offset: 7555},
-							run: (*parser).callonDocumentFragment1504,
+							run: (*parser).callonDocumentFragment1543,
 						},
 					},
 				},
@@ -10938,9 +11117,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2902, col: 8, offset: 91634},
+							pos: position{line: 2908, col: 8, offset: 91746},
 							expr: &anyMatcher{
-								line: 2902, col: 9, offset: 91635,
+								line: 2908, col: 9, offset: 91747,
 							},
 						},
 					},
@@ -11012,12 +11191,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2887, col: 11, offset: 91347},
+												pos: position{line: 2893, col: 11, offset: 91459},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2887, col: 11, offset: 91347},
+													pos: position{line: 2893, col: 11, offset: 91459},
 													expr: &charClassMatcher{
-														pos:        position{line: 2887, col: 11, offset: 91347},
+														pos:        position{line: 2893, col: 11, offset: 91459},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11039,28 +11218,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2905, col: 8, offset: 91684},
+							pos: position{line: 2911, col: 8, offset: 91796},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2892, col: 12, offset: 91457},
+									pos: position{line: 2898, col: 12, offset: 91569},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2892, col: 13, offset: 91458},
+										pos: position{line: 2898, col: 13, offset: 91570},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2892, col: 13, offset: 91458},
+												pos:        position{line: 2898, col: 13, offset: 91570},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2892, col: 20, offset: 91465},
+												pos:        position{line: 2898, col: 20, offset: 91577},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2892, col: 29, offset: 91474},
+												pos:        position{line: 2898, col: 29, offset: 91586},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -11069,9 +11248,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2902, col: 8, offset: 91634},
+									pos: position{line: 2908, col: 8, offset: 91746},
 									expr: &anyMatcher{
-										line: 2902, col: 9, offset: 91635,
+										line: 2908, col: 9, offset: 91747,
 									},
 								},
 							},
@@ -11115,25 +11294,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2892, col: 12, offset: 91457},
+												pos: position{line: 2898, col: 12, offset: 91569},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2892, col: 13, offset: 91458},
+													pos: position{line: 2898, col: 13, offset: 91570},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2892, col: 13, offset: 91458},
+															pos:        position{line: 2898, col: 13, offset: 91570},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2892, col: 20, offset: 91465},
+															pos:        position{line: 2898, col: 20, offset: 91577},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2892, col: 29, offset: 91474},
+															pos:        position{line: 2898, col: 29, offset: 91586},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -11144,10 +11323,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2883, col: 10, offset: 91286},
+													pos: position{line: 2889, col: 10, offset: 91398},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2883, col: 10, offset: 91286},
+														pos:        position{line: 2889, col: 10, offset: 91398},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11217,10 +11396,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2883, col: 10, offset: 91286},
+											pos: position{line: 2889, col: 10, offset: 91398},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2883, col: 10, offset: 91286},
+												pos:        position{line: 2889, col: 10, offset: 91398},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -11229,28 +11408,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2905, col: 8, offset: 91684},
+										pos: position{line: 2911, col: 8, offset: 91796},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2892, col: 12, offset: 91457},
+												pos: position{line: 2898, col: 12, offset: 91569},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2892, col: 13, offset: 91458},
+													pos: position{line: 2898, col: 13, offset: 91570},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2892, col: 13, offset: 91458},
+															pos:        position{line: 2898, col: 13, offset: 91570},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2892, col: 20, offset: 91465},
+															pos:        position{line: 2898, col: 20, offset: 91577},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2892, col: 29, offset: 91474},
+															pos:        position{line: 2898, col: 29, offset: 91586},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -11259,9 +11438,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2902, col: 8, offset: 91634},
+												pos: position{line: 2908, col: 8, offset: 91746},
 												expr: &anyMatcher{
-													line: 2902, col: 9, offset: 91635,
+													line: 2908, col: 9, offset: 91747,
 												},
 											},
 										},
@@ -11339,10 +11518,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2883, col: 10, offset: 91286},
+										pos: position{line: 2889, col: 10, offset: 91398},
 										run: (*parser).callonAttributeDeclarationValueElement34,
 										expr: &charClassMatcher{
-											pos:        position{line: 2883, col: 10, offset: 91286},
+											pos:        position{line: 2889, col: 10, offset: 91398},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -12195,10 +12374,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 379, col: 35, offset: 11730},
 												expr: &actionExpr{
-													pos: position{line: 2883, col: 10, offset: 91286},
+													pos: position{line: 2889, col: 10, offset: 91398},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2883, col: 10, offset: 91286},
+														pos:        position{line: 2889, col: 10, offset: 91398},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12207,28 +12386,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2905, col: 8, offset: 91684},
+												pos: position{line: 2911, col: 8, offset: 91796},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2892, col: 12, offset: 91457},
+														pos: position{line: 2898, col: 12, offset: 91569},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2892, col: 13, offset: 91458},
+															pos: position{line: 2898, col: 13, offset: 91570},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2892, col: 13, offset: 91458},
+																	pos:        position{line: 2898, col: 13, offset: 91570},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2892, col: 20, offset: 91465},
+																	pos:        position{line: 2898, col: 20, offset: 91577},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2892, col: 29, offset: 91474},
+																	pos:        position{line: 2898, col: 29, offset: 91586},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12237,9 +12416,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2902, col: 8, offset: 91634},
+														pos: position{line: 2908, col: 8, offset: 91746},
 														expr: &anyMatcher{
-															line: 2902, col: 9, offset: 91635,
+															line: 2908, col: 9, offset: 91747,
 														},
 													},
 												},
@@ -12253,18 +12432,18 @@ var g = &grammar{
 														pos: position{line: 687, col: 14, offset: 21835},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2900, col: 11, offset: 91620},
+																pos: position{line: 2906, col: 11, offset: 91732},
 																expr: &anyMatcher{
-																	line: 2900, col: 13, offset: 91622,
+																	line: 2906, col: 13, offset: 91734,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 687, col: 21, offset: 21842},
 																expr: &actionExpr{
-																	pos: position{line: 2883, col: 10, offset: 91286},
+																	pos: position{line: 2889, col: 10, offset: 91398},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2883, col: 10, offset: 91286},
+																		pos:        position{line: 2889, col: 10, offset: 91398},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12273,28 +12452,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2905, col: 8, offset: 91684},
+																pos: position{line: 2911, col: 8, offset: 91796},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2892, col: 12, offset: 91457},
+																		pos: position{line: 2898, col: 12, offset: 91569},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2892, col: 13, offset: 91458},
+																			pos: position{line: 2898, col: 13, offset: 91570},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2892, col: 13, offset: 91458},
+																					pos:        position{line: 2898, col: 13, offset: 91570},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2892, col: 20, offset: 91465},
+																					pos:        position{line: 2898, col: 20, offset: 91577},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2892, col: 29, offset: 91474},
+																					pos:        position{line: 2898, col: 29, offset: 91586},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12303,9 +12482,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2902, col: 8, offset: 91634},
+																		pos: position{line: 2908, col: 8, offset: 91746},
 																		expr: &anyMatcher{
-																			line: 2902, col: 9, offset: 91635,
+																			line: 2908, col: 9, offset: 91747,
 																		},
 																	},
 																},
@@ -12357,12 +12536,12 @@ var g = &grammar{
 																		pos: position{line: 433, col: 9, offset: 13306},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2777, col: 14, offset: 88455},
+																				pos: position{line: 2783, col: 14, offset: 88567},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2777, col: 14, offset: 88455},
+																					pos: position{line: 2783, col: 14, offset: 88567},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2777, col: 14, offset: 88455},
+																						pos:        position{line: 2783, col: 14, offset: 88567},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12371,10 +12550,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2883, col: 10, offset: 91286},
+																				pos: position{line: 2889, col: 10, offset: 91398},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2883, col: 10, offset: 91286},
+																					pos:        position{line: 2889, col: 10, offset: 91398},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12382,27 +12561,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2800, col: 5, offset: 88940},
+																				pos: position{line: 2806, col: 5, offset: 89052},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2801, col: 9, offset: 88950},
+																					pos: position{line: 2807, col: 9, offset: 89062},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2801, col: 10, offset: 88951},
+																							pos:        position{line: 2807, col: 10, offset: 89063},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2803, col: 13, offset: 89048},
+																							pos: position{line: 2809, col: 13, offset: 89160},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2803, col: 13, offset: 89048},
+																									pos: position{line: 2809, col: 13, offset: 89160},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2806, col: 13, offset: 89148},
+																									pos:        position{line: 2812, col: 13, offset: 89260},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12410,20 +12589,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2806, col: 19, offset: 89154},
+																							pos:        position{line: 2812, col: 19, offset: 89266},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2809, col: 13, offset: 89192},
+																							pos: position{line: 2815, col: 13, offset: 89304},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2809, col: 13, offset: 89192},
+																									pos: position{line: 2815, col: 13, offset: 89304},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2812, col: 14, offset: 89285},
+																									pos:        position{line: 2818, col: 14, offset: 89397},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12432,18 +12611,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2814, col: 12, offset: 89329},
+																							pos: position{line: 2820, col: 12, offset: 89441},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2814, col: 12, offset: 89329},
+																									pos:        position{line: 2820, col: 12, offset: 89441},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2814, col: 16, offset: 89333},
+																									pos: position{line: 2820, col: 16, offset: 89445},
 																									expr: &litMatcher{
-																										pos:        position{line: 2814, col: 17, offset: 89334},
+																										pos:        position{line: 2820, col: 17, offset: 89446},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12561,10 +12740,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2822, col: 12, offset: 89594},
+																				pos: position{line: 2828, col: 12, offset: 89706},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2822, col: 12, offset: 89594},
+																					pos:        position{line: 2828, col: 12, offset: 89706},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12582,10 +12761,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 383, col: 35, offset: 11885},
 												expr: &actionExpr{
-													pos: position{line: 2883, col: 10, offset: 91286},
+													pos: position{line: 2889, col: 10, offset: 91398},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2883, col: 10, offset: 91286},
+														pos:        position{line: 2889, col: 10, offset: 91398},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12594,28 +12773,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2905, col: 8, offset: 91684},
+												pos: position{line: 2911, col: 8, offset: 91796},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2892, col: 12, offset: 91457},
+														pos: position{line: 2898, col: 12, offset: 91569},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2892, col: 13, offset: 91458},
+															pos: position{line: 2898, col: 13, offset: 91570},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2892, col: 13, offset: 91458},
+																	pos:        position{line: 2898, col: 13, offset: 91570},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2892, col: 20, offset: 91465},
+																	pos:        position{line: 2898, col: 20, offset: 91577},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2892, col: 29, offset: 91474},
+																	pos:        position{line: 2898, col: 29, offset: 91586},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12624,9 +12803,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2902, col: 8, offset: 91634},
+														pos: position{line: 2908, col: 8, offset: 91746},
 														expr: &anyMatcher{
-															line: 2902, col: 9, offset: 91635,
+															line: 2908, col: 9, offset: 91747,
 														},
 													},
 												},
@@ -12640,18 +12819,18 @@ var g = &grammar{
 														pos: position{line: 687, col: 14, offset: 21835},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2900, col: 11, offset: 91620},
+																pos: position{line: 2906, col: 11, offset: 91732},
 																expr: &anyMatcher{
-																	line: 2900, col: 13, offset: 91622,
+																	line: 2906, col: 13, offset: 91734,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 687, col: 21, offset: 21842},
 																expr: &actionExpr{
-																	pos: position{line: 2883, col: 10, offset: 91286},
+																	pos: position{line: 2889, col: 10, offset: 91398},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2883, col: 10, offset: 91286},
+																		pos:        position{line: 2889, col: 10, offset: 91398},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12660,28 +12839,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2905, col: 8, offset: 91684},
+																pos: position{line: 2911, col: 8, offset: 91796},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2892, col: 12, offset: 91457},
+																		pos: position{line: 2898, col: 12, offset: 91569},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2892, col: 13, offset: 91458},
+																			pos: position{line: 2898, col: 13, offset: 91570},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2892, col: 13, offset: 91458},
+																					pos:        position{line: 2898, col: 13, offset: 91570},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2892, col: 20, offset: 91465},
+																					pos:        position{line: 2898, col: 20, offset: 91577},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2892, col: 29, offset: 91474},
+																					pos:        position{line: 2898, col: 29, offset: 91586},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12690,9 +12869,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2902, col: 8, offset: 91634},
+																		pos: position{line: 2908, col: 8, offset: 91746},
 																		expr: &anyMatcher{
-																			line: 2902, col: 9, offset: 91635,
+																			line: 2908, col: 9, offset: 91747,
 																		},
 																	},
 																},
@@ -12721,10 +12900,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 387, col: 44, offset: 12018},
 												expr: &actionExpr{
-													pos: position{line: 2883, col: 10, offset: 91286},
+													pos: position{line: 2889, col: 10, offset: 91398},
 													run: (*parser).callonBlockAttributes210,
 													expr: &charClassMatcher{
-														pos:        position{line: 2883, col: 10, offset: 91286},
+														pos:        position{line: 2889, col: 10, offset: 91398},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12733,28 +12912,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2905, col: 8, offset: 91684},
+												pos: position{line: 2911, col: 8, offset: 91796},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2892, col: 12, offset: 91457},
+														pos: position{line: 2898, col: 12, offset: 91569},
 														run: (*parser).callonBlockAttributes213,
 														expr: &choiceExpr{
-															pos: position{line: 2892, col: 13, offset: 91458},
+															pos: position{line: 2898, col: 13, offset: 91570},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2892, col: 13, offset: 91458},
+																	pos:        position{line: 2898, col: 13, offset: 91570},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2892, col: 20, offset: 91465},
+																	pos:        position{line: 2898, col: 20, offset: 91577},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2892, col: 29, offset: 91474},
+																	pos:        position{line: 2898, col: 29, offset: 91586},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12763,9 +12942,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2902, col: 8, offset: 91634},
+														pos: position{line: 2908, col: 8, offset: 91746},
 														expr: &anyMatcher{
-															line: 2902, col: 9, offset: 91635,
+															line: 2908, col: 9, offset: 91747,
 														},
 													},
 												},
@@ -12779,18 +12958,18 @@ var g = &grammar{
 														pos: position{line: 687, col: 14, offset: 21835},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2900, col: 11, offset: 91620},
+																pos: position{line: 2906, col: 11, offset: 91732},
 																expr: &anyMatcher{
-																	line: 2900, col: 13, offset: 91622,
+																	line: 2906, col: 13, offset: 91734,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 687, col: 21, offset: 21842},
 																expr: &actionExpr{
-																	pos: position{line: 2883, col: 10, offset: 91286},
+																	pos: position{line: 2889, col: 10, offset: 91398},
 																	run: (*parser).callonBlockAttributes226,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2883, col: 10, offset: 91286},
+																		pos:        position{line: 2889, col: 10, offset: 91398},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12799,28 +12978,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2905, col: 8, offset: 91684},
+																pos: position{line: 2911, col: 8, offset: 91796},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2892, col: 12, offset: 91457},
+																		pos: position{line: 2898, col: 12, offset: 91569},
 																		run: (*parser).callonBlockAttributes229,
 																		expr: &choiceExpr{
-																			pos: position{line: 2892, col: 13, offset: 91458},
+																			pos: position{line: 2898, col: 13, offset: 91570},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2892, col: 13, offset: 91458},
+																					pos:        position{line: 2898, col: 13, offset: 91570},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2892, col: 20, offset: 91465},
+																					pos:        position{line: 2898, col: 20, offset: 91577},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2892, col: 29, offset: 91474},
+																					pos:        position{line: 2898, col: 29, offset: 91586},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12829,9 +13008,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2902, col: 8, offset: 91634},
+																		pos: position{line: 2908, col: 8, offset: 91746},
 																		expr: &anyMatcher{
-																			line: 2902, col: 9, offset: 91635,
+																			line: 2908, col: 9, offset: 91747,
 																		},
 																	},
 																},
@@ -13079,10 +13258,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 473, col: 13, offset: 14774},
 										expr: &actionExpr{
-											pos: position{line: 2883, col: 10, offset: 91286},
+											pos: position{line: 2889, col: 10, offset: 91398},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2883, col: 10, offset: 91286},
+												pos:        position{line: 2889, col: 10, offset: 91398},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13614,10 +13793,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 525, col: 9, offset: 16356},
 													expr: &actionExpr{
-														pos: position{line: 2883, col: 10, offset: 91286},
+														pos: position{line: 2889, col: 10, offset: 91398},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2883, col: 10, offset: 91286},
+															pos:        position{line: 2889, col: 10, offset: 91398},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13678,10 +13857,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 531, col: 34, offset: 16499},
 														expr: &actionExpr{
-															pos: position{line: 2883, col: 10, offset: 91286},
+															pos: position{line: 2889, col: 10, offset: 91398},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2883, col: 10, offset: 91286},
+																pos:        position{line: 2889, col: 10, offset: 91398},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13721,10 +13900,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 536, col: 13, offset: 16663},
 												expr: &actionExpr{
-													pos: position{line: 2883, col: 10, offset: 91286},
+													pos: position{line: 2889, col: 10, offset: 91398},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2883, col: 10, offset: 91286},
+														pos:        position{line: 2889, col: 10, offset: 91398},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13747,10 +13926,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 536, col: 26, offset: 16676},
 																expr: &actionExpr{
-																	pos: position{line: 2883, col: 10, offset: 91286},
+																	pos: position{line: 2889, col: 10, offset: 91398},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2883, col: 10, offset: 91286},
+																		pos:        position{line: 2889, col: 10, offset: 91398},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13805,10 +13984,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 556, col: 22, offset: 17323},
 											expr: &actionExpr{
-												pos: position{line: 2883, col: 10, offset: 91286},
+												pos: position{line: 2889, col: 10, offset: 91398},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2883, col: 10, offset: 91286},
+													pos:        position{line: 2889, col: 10, offset: 91398},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13839,10 +14018,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 549, col: 9, offset: 17068},
 							expr: &actionExpr{
-								pos: position{line: 2883, col: 10, offset: 91286},
+								pos: position{line: 2889, col: 10, offset: 91398},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2883, col: 10, offset: 91286},
+									pos:        position{line: 2889, col: 10, offset: 91398},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -13872,10 +14051,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 550, col: 33, offset: 17108},
 										expr: &actionExpr{
-											pos: position{line: 2883, col: 10, offset: 91286},
+											pos: position{line: 2889, col: 10, offset: 91398},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2883, col: 10, offset: 91286},
+												pos:        position{line: 2889, col: 10, offset: 91398},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13930,10 +14109,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 566, col: 9, offset: 17540},
 											expr: &actionExpr{
-												pos: position{line: 2883, col: 10, offset: 91286},
+												pos: position{line: 2889, col: 10, offset: 91398},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2883, col: 10, offset: 91286},
+													pos:        position{line: 2889, col: 10, offset: 91398},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14012,12 +14191,12 @@ var g = &grammar{
 							pos: position{line: 579, col: 9, offset: 17857},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2777, col: 14, offset: 88455},
+									pos: position{line: 2783, col: 14, offset: 88567},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2777, col: 14, offset: 88455},
+										pos: position{line: 2783, col: 14, offset: 88567},
 										expr: &charClassMatcher{
-											pos:        position{line: 2777, col: 14, offset: 88455},
+											pos:        position{line: 2783, col: 14, offset: 88567},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14026,10 +14205,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2883, col: 10, offset: 91286},
+									pos: position{line: 2889, col: 10, offset: 91398},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2883, col: 10, offset: 91286},
+										pos:        position{line: 2889, col: 10, offset: 91398},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14486,10 +14665,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 599, col: 14, offset: 18597},
 											expr: &actionExpr{
-												pos: position{line: 2883, col: 10, offset: 91286},
+												pos: position{line: 2889, col: 10, offset: 91398},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2883, col: 10, offset: 91286},
+													pos:        position{line: 2889, col: 10, offset: 91398},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14526,12 +14705,12 @@ var g = &grammar{
 							pos: position{line: 605, col: 9, offset: 18708},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2777, col: 14, offset: 88455},
+									pos: position{line: 2783, col: 14, offset: 88567},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2777, col: 14, offset: 88455},
+										pos: position{line: 2783, col: 14, offset: 88567},
 										expr: &charClassMatcher{
-											pos:        position{line: 2777, col: 14, offset: 88455},
+											pos:        position{line: 2783, col: 14, offset: 88567},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14540,10 +14719,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2883, col: 10, offset: 91286},
+									pos: position{line: 2889, col: 10, offset: 91398},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2883, col: 10, offset: 91286},
+										pos:        position{line: 2889, col: 10, offset: 91398},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14970,10 +15149,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 626, col: 5, offset: 19564},
 							expr: &actionExpr{
-								pos: position{line: 2883, col: 10, offset: 91286},
+								pos: position{line: 2889, col: 10, offset: 91398},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2883, col: 10, offset: 91286},
+									pos:        position{line: 2889, col: 10, offset: 91398},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15363,10 +15542,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2883, col: 10, offset: 91286},
+											pos: position{line: 2889, col: 10, offset: 91398},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2883, col: 10, offset: 91286},
+												pos:        position{line: 2889, col: 10, offset: 91398},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15394,25 +15573,25 @@ var g = &grammar{
 												pos: position{line: 634, col: 12, offset: 19997},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 2892, col: 12, offset: 91457},
+														pos: position{line: 2898, col: 12, offset: 91569},
 														run: (*parser).callonUnquotedAttributeValue90,
 														expr: &choiceExpr{
-															pos: position{line: 2892, col: 13, offset: 91458},
+															pos: position{line: 2898, col: 13, offset: 91570},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2892, col: 13, offset: 91458},
+																	pos:        position{line: 2898, col: 13, offset: 91570},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2892, col: 20, offset: 91465},
+																	pos:        position{line: 2898, col: 20, offset: 91577},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2892, col: 29, offset: 91474},
+																	pos:        position{line: 2898, col: 29, offset: 91586},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -15476,12 +15655,12 @@ var g = &grammar{
 									pos:   position{line: 696, col: 32, offset: 22195},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2868, col: 7, offset: 90938},
+										pos: position{line: 2874, col: 7, offset: 91050},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2868, col: 7, offset: 90938},
+											pos: position{line: 2874, col: 7, offset: 91050},
 											expr: &charClassMatcher{
-												pos:        position{line: 2868, col: 7, offset: 90938},
+												pos:        position{line: 2874, col: 7, offset: 91050},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15493,10 +15672,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 696, col: 40, offset: 22203},
 									expr: &actionExpr{
-										pos: position{line: 2883, col: 10, offset: 91286},
+										pos: position{line: 2889, col: 10, offset: 91398},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2883, col: 10, offset: 91286},
+											pos:        position{line: 2889, col: 10, offset: 91398},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15689,12 +15868,12 @@ var g = &grammar{
 									pos:   position{line: 698, col: 14, offset: 22320},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2868, col: 7, offset: 90938},
+										pos: position{line: 2874, col: 7, offset: 91050},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2868, col: 7, offset: 90938},
+											pos: position{line: 2874, col: 7, offset: 91050},
 											expr: &charClassMatcher{
-												pos:        position{line: 2868, col: 7, offset: 90938},
+												pos:        position{line: 2874, col: 7, offset: 91050},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15738,41 +15917,41 @@ var g = &grammar{
 							pos:   position{line: 702, col: 35, offset: 22433},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2837, col: 17, offset: 89949},
+								pos: position{line: 2843, col: 17, offset: 90061},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2837, col: 17, offset: 89949},
+									pos:   position{line: 2843, col: 17, offset: 90061},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2854, col: 5, offset: 90403},
+										pos: position{line: 2860, col: 5, offset: 90515},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2854, col: 5, offset: 90403},
+											pos:   position{line: 2860, col: 5, offset: 90515},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2854, col: 14, offset: 90412},
+												pos: position{line: 2860, col: 14, offset: 90524},
 												expr: &choiceExpr{
-													pos: position{line: 2855, col: 9, offset: 90422},
+													pos: position{line: 2861, col: 9, offset: 90534},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2855, col: 9, offset: 90422},
+															pos: position{line: 2861, col: 9, offset: 90534},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2855, col: 9, offset: 90422},
+																pos: position{line: 2861, col: 9, offset: 90534},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2855, col: 9, offset: 90422},
+																		pos: position{line: 2861, col: 9, offset: 90534},
 																		expr: &litMatcher{
-																			pos:        position{line: 2855, col: 10, offset: 90423},
+																			pos:        position{line: 2861, col: 10, offset: 90535},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2856, col: 9, offset: 90451},
+																		pos: position{line: 2862, col: 9, offset: 90563},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2856, col: 10, offset: 90452},
+																			pos:        position{line: 2862, col: 10, offset: 90564},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15783,27 +15962,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2859, col: 11, offset: 90664},
+															pos: position{line: 2865, col: 11, offset: 90776},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2859, col: 11, offset: 90664},
+																	pos:        position{line: 2865, col: 11, offset: 90776},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2859, col: 19, offset: 90672},
+																	pos: position{line: 2865, col: 19, offset: 90784},
 																	expr: &seqExpr{
-																		pos: position{line: 2859, col: 21, offset: 90674},
+																		pos: position{line: 2865, col: 21, offset: 90786},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2859, col: 21, offset: 90674},
+																				pos: position{line: 2865, col: 21, offset: 90786},
 																				expr: &actionExpr{
-																					pos: position{line: 2883, col: 10, offset: 91286},
+																					pos: position{line: 2889, col: 10, offset: 91398},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2883, col: 10, offset: 91286},
+																						pos:        position{line: 2889, col: 10, offset: 91398},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15812,11 +15991,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2859, col: 28, offset: 90681},
+																				pos: position{line: 2865, col: 28, offset: 90793},
 																				expr: &notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -16211,10 +16390,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2862, col: 11, offset: 90801},
+															pos: position{line: 2868, col: 11, offset: 90913},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2862, col: 11, offset: 90801},
+																pos:        position{line: 2868, col: 11, offset: 90913},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16259,12 +16438,12 @@ var g = &grammar{
 							pos:   position{line: 1011, col: 11, offset: 31554},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2833, col: 14, offset: 89879},
+								pos: position{line: 2839, col: 14, offset: 89991},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2833, col: 14, offset: 89879},
+									pos: position{line: 2839, col: 14, offset: 89991},
 									expr: &charClassMatcher{
-										pos:        position{line: 2833, col: 14, offset: 89879},
+										pos:        position{line: 2839, col: 14, offset: 89991},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16274,28 +16453,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2905, col: 8, offset: 91684},
+							pos: position{line: 2911, col: 8, offset: 91796},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2892, col: 12, offset: 91457},
+									pos: position{line: 2898, col: 12, offset: 91569},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2892, col: 13, offset: 91458},
+										pos: position{line: 2898, col: 13, offset: 91570},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2892, col: 13, offset: 91458},
+												pos:        position{line: 2898, col: 13, offset: 91570},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2892, col: 20, offset: 91465},
+												pos:        position{line: 2898, col: 20, offset: 91577},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2892, col: 29, offset: 91474},
+												pos:        position{line: 2898, col: 29, offset: 91586},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16304,9 +16483,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2902, col: 8, offset: 91634},
+									pos: position{line: 2908, col: 8, offset: 91746},
 									expr: &anyMatcher{
-										line: 2902, col: 9, offset: 91635,
+										line: 2908, col: 9, offset: 91747,
 									},
 								},
 							},
@@ -16358,12 +16537,12 @@ var g = &grammar{
 													pos:   position{line: 2493, col: 49, offset: 80256},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2829, col: 13, offset: 89812},
+														pos: position{line: 2835, col: 13, offset: 89924},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2829, col: 13, offset: 89812},
+															pos: position{line: 2835, col: 13, offset: 89924},
 															expr: &charClassMatcher{
-																pos:        position{line: 2829, col: 13, offset: 89812},
+																pos:        position{line: 2835, col: 13, offset: 89924},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16373,28 +16552,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2905, col: 8, offset: 91684},
+													pos: position{line: 2911, col: 8, offset: 91796},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2892, col: 12, offset: 91457},
+															pos: position{line: 2898, col: 12, offset: 91569},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2892, col: 13, offset: 91458},
+																pos: position{line: 2898, col: 13, offset: 91570},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 13, offset: 91458},
+																		pos:        position{line: 2898, col: 13, offset: 91570},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 20, offset: 91465},
+																		pos:        position{line: 2898, col: 20, offset: 91577},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 29, offset: 91474},
+																		pos:        position{line: 2898, col: 29, offset: 91586},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16403,9 +16582,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2902, col: 8, offset: 91634},
+															pos: position{line: 2908, col: 8, offset: 91746},
 															expr: &anyMatcher{
-																line: 2902, col: 9, offset: 91635,
+																line: 2908, col: 9, offset: 91747,
 															},
 														},
 													},
@@ -16459,10 +16638,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 752, col: 8, offset: 24032},
 																	expr: &actionExpr{
-																		pos: position{line: 2883, col: 10, offset: 91286},
+																		pos: position{line: 2889, col: 10, offset: 91398},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91286},
+																			pos:        position{line: 2889, col: 10, offset: 91398},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16471,28 +16650,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
+																			pos: position{line: 2898, col: 12, offset: 91569},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16501,9 +16680,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -16575,10 +16754,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 752, col: 8, offset: 24032},
 																											expr: &actionExpr{
-																												pos: position{line: 2883, col: 10, offset: 91286},
+																												pos: position{line: 2889, col: 10, offset: 91398},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2883, col: 10, offset: 91286},
+																													pos:        position{line: 2889, col: 10, offset: 91398},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -16587,28 +16766,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2905, col: 8, offset: 91684},
+																											pos: position{line: 2911, col: 8, offset: 91796},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2892, col: 12, offset: 91457},
+																													pos: position{line: 2898, col: 12, offset: 91569},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2892, col: 13, offset: 91458},
+																														pos: position{line: 2898, col: 13, offset: 91570},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 13, offset: 91458},
+																																pos:        position{line: 2898, col: 13, offset: 91570},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 20, offset: 91465},
+																																pos:        position{line: 2898, col: 20, offset: 91577},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 29, offset: 91474},
+																																pos:        position{line: 2898, col: 29, offset: 91586},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -16617,9 +16796,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2902, col: 8, offset: 91634},
+																													pos: position{line: 2908, col: 8, offset: 91746},
 																													expr: &anyMatcher{
-																														line: 2902, col: 9, offset: 91635,
+																														line: 2908, col: 9, offset: 91747,
 																													},
 																												},
 																											},
@@ -16635,9 +16814,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -16653,21 +16832,21 @@ var g = &grammar{
 																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2900, col: 11, offset: 91620},
+																						pos: position{line: 2906, col: 11, offset: 91732},
 																						expr: &anyMatcher{
-																							line: 2900, col: 13, offset: 91622,
+																							line: 2906, col: 13, offset: 91734,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2829, col: 13, offset: 89812},
+																							pos: position{line: 2835, col: 13, offset: 89924},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2829, col: 13, offset: 89812},
+																								pos: position{line: 2835, col: 13, offset: 89924},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2829, col: 13, offset: 89812},
+																									pos:        position{line: 2835, col: 13, offset: 89924},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16677,28 +16856,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2905, col: 8, offset: 91684},
+																						pos: position{line: 2911, col: 8, offset: 91796},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2892, col: 12, offset: 91457},
+																								pos: position{line: 2898, col: 12, offset: 91569},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 13, offset: 91458},
+																									pos: position{line: 2898, col: 13, offset: 91570},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 13, offset: 91458},
+																											pos:        position{line: 2898, col: 13, offset: 91570},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 20, offset: 91465},
+																											pos:        position{line: 2898, col: 20, offset: 91577},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 29, offset: 91474},
+																											pos:        position{line: 2898, col: 29, offset: 91586},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16707,9 +16886,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2902, col: 8, offset: 91634},
+																								pos: position{line: 2908, col: 8, offset: 91746},
 																								expr: &anyMatcher{
-																									line: 2902, col: 9, offset: 91635,
+																									line: 2908, col: 9, offset: 91747,
 																								},
 																							},
 																						},
@@ -16774,10 +16953,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 752, col: 8, offset: 24032},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonDocumentHeader107,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -16786,28 +16965,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonDocumentHeader110,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -16816,9 +16995,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -16834,9 +17013,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2902, col: 8, offset: 91634},
+																	pos: position{line: 2908, col: 8, offset: 91746},
 																	expr: &anyMatcher{
-																		line: 2902, col: 9, offset: 91635,
+																		line: 2908, col: 9, offset: 91747,
 																	},
 																},
 															},
@@ -16887,12 +17066,12 @@ var g = &grammar{
 													pos:   position{line: 2493, col: 49, offset: 80256},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2829, col: 13, offset: 89812},
+														pos: position{line: 2835, col: 13, offset: 89924},
 														run: (*parser).callonDocumentHeader130,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2829, col: 13, offset: 89812},
+															pos: position{line: 2835, col: 13, offset: 89924},
 															expr: &charClassMatcher{
-																pos:        position{line: 2829, col: 13, offset: 89812},
+																pos:        position{line: 2835, col: 13, offset: 89924},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16902,28 +17081,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2905, col: 8, offset: 91684},
+													pos: position{line: 2911, col: 8, offset: 91796},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2892, col: 12, offset: 91457},
+															pos: position{line: 2898, col: 12, offset: 91569},
 															run: (*parser).callonDocumentHeader134,
 															expr: &choiceExpr{
-																pos: position{line: 2892, col: 13, offset: 91458},
+																pos: position{line: 2898, col: 13, offset: 91570},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 13, offset: 91458},
+																		pos:        position{line: 2898, col: 13, offset: 91570},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 20, offset: 91465},
+																		pos:        position{line: 2898, col: 20, offset: 91577},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 29, offset: 91474},
+																		pos:        position{line: 2898, col: 29, offset: 91586},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16932,9 +17111,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2902, col: 8, offset: 91634},
+															pos: position{line: 2908, col: 8, offset: 91746},
 															expr: &anyMatcher{
-																line: 2902, col: 9, offset: 91635,
+																line: 2908, col: 9, offset: 91747,
 															},
 														},
 													},
@@ -16988,10 +17167,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 752, col: 8, offset: 24032},
 																	expr: &actionExpr{
-																		pos: position{line: 2883, col: 10, offset: 91286},
+																		pos: position{line: 2889, col: 10, offset: 91398},
 																		run: (*parser).callonDocumentHeader153,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91286},
+																			pos:        position{line: 2889, col: 10, offset: 91398},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17000,28 +17179,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
+																			pos: position{line: 2898, col: 12, offset: 91569},
 																			run: (*parser).callonDocumentHeader156,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17030,9 +17209,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -17104,10 +17283,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 752, col: 8, offset: 24032},
 																											expr: &actionExpr{
-																												pos: position{line: 2883, col: 10, offset: 91286},
+																												pos: position{line: 2889, col: 10, offset: 91398},
 																												run: (*parser).callonDocumentHeader181,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2883, col: 10, offset: 91286},
+																													pos:        position{line: 2889, col: 10, offset: 91398},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17116,28 +17295,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2905, col: 8, offset: 91684},
+																											pos: position{line: 2911, col: 8, offset: 91796},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2892, col: 12, offset: 91457},
+																													pos: position{line: 2898, col: 12, offset: 91569},
 																													run: (*parser).callonDocumentHeader184,
 																													expr: &choiceExpr{
-																														pos: position{line: 2892, col: 13, offset: 91458},
+																														pos: position{line: 2898, col: 13, offset: 91570},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 13, offset: 91458},
+																																pos:        position{line: 2898, col: 13, offset: 91570},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 20, offset: 91465},
+																																pos:        position{line: 2898, col: 20, offset: 91577},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 29, offset: 91474},
+																																pos:        position{line: 2898, col: 29, offset: 91586},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17146,9 +17325,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2902, col: 8, offset: 91634},
+																													pos: position{line: 2908, col: 8, offset: 91746},
 																													expr: &anyMatcher{
-																														line: 2902, col: 9, offset: 91635,
+																														line: 2908, col: 9, offset: 91747,
 																													},
 																												},
 																											},
@@ -17164,9 +17343,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -17182,21 +17361,21 @@ var g = &grammar{
 																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2900, col: 11, offset: 91620},
+																						pos: position{line: 2906, col: 11, offset: 91732},
 																						expr: &anyMatcher{
-																							line: 2900, col: 13, offset: 91622,
+																							line: 2906, col: 13, offset: 91734,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2829, col: 13, offset: 89812},
+																							pos: position{line: 2835, col: 13, offset: 89924},
 																							run: (*parser).callonDocumentHeader200,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2829, col: 13, offset: 89812},
+																								pos: position{line: 2835, col: 13, offset: 89924},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2829, col: 13, offset: 89812},
+																									pos:        position{line: 2835, col: 13, offset: 89924},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17206,28 +17385,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2905, col: 8, offset: 91684},
+																						pos: position{line: 2911, col: 8, offset: 91796},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2892, col: 12, offset: 91457},
+																								pos: position{line: 2898, col: 12, offset: 91569},
 																								run: (*parser).callonDocumentHeader204,
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 13, offset: 91458},
+																									pos: position{line: 2898, col: 13, offset: 91570},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 13, offset: 91458},
+																											pos:        position{line: 2898, col: 13, offset: 91570},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 20, offset: 91465},
+																											pos:        position{line: 2898, col: 20, offset: 91577},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 29, offset: 91474},
+																											pos:        position{line: 2898, col: 29, offset: 91586},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17236,9 +17415,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2902, col: 8, offset: 91634},
+																								pos: position{line: 2908, col: 8, offset: 91746},
 																								expr: &anyMatcher{
-																									line: 2902, col: 9, offset: 91635,
+																									line: 2908, col: 9, offset: 91747,
 																								},
 																							},
 																						},
@@ -17303,10 +17482,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 752, col: 8, offset: 24032},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonDocumentHeader225,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -17315,28 +17494,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonDocumentHeader228,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -17345,9 +17524,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -17363,9 +17542,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2902, col: 8, offset: 91634},
+																	pos: position{line: 2908, col: 8, offset: 91746},
 																	expr: &anyMatcher{
-																		line: 2902, col: 9, offset: 91635,
+																		line: 2908, col: 9, offset: 91747,
 																	},
 																},
 															},
@@ -17410,10 +17589,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1147, col: 20, offset: 35434},
 																expr: &actionExpr{
-																	pos: position{line: 2883, col: 10, offset: 91286},
+																	pos: position{line: 2889, col: 10, offset: 91398},
 																	run: (*parser).callonDocumentHeader248,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2883, col: 10, offset: 91286},
+																		pos:        position{line: 2889, col: 10, offset: 91398},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17464,10 +17643,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1166, col: 5, offset: 36039},
 																										expr: &actionExpr{
-																											pos: position{line: 2883, col: 10, offset: 91286},
+																											pos: position{line: 2889, col: 10, offset: 91398},
 																											run: (*parser).callonDocumentHeader263,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2883, col: 10, offset: 91286},
+																												pos:        position{line: 2889, col: 10, offset: 91398},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17499,10 +17678,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1170, col: 5, offset: 36138},
 																										expr: &actionExpr{
-																											pos: position{line: 2883, col: 10, offset: 91286},
+																											pos: position{line: 2889, col: 10, offset: 91398},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2883, col: 10, offset: 91286},
+																												pos:        position{line: 2889, col: 10, offset: 91398},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17534,10 +17713,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1174, col: 5, offset: 36235},
 																										expr: &actionExpr{
-																											pos: position{line: 2883, col: 10, offset: 91286},
+																											pos: position{line: 2889, col: 10, offset: 91398},
 																											run: (*parser).callonDocumentHeader279,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2883, col: 10, offset: 91286},
+																												pos:        position{line: 2889, col: 10, offset: 91398},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17562,9 +17741,9 @@ var g = &grammar{
 																								pos: position{line: 1180, col: 5, offset: 36357},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2900, col: 11, offset: 91620},
+																										pos: position{line: 2906, col: 11, offset: 91732},
 																										expr: &anyMatcher{
-																											line: 2900, col: 13, offset: 91622,
+																											line: 2906, col: 13, offset: 91734,
 																										},
 																									},
 																									&litMatcher{
@@ -17605,10 +17784,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1152, col: 69, offset: 35627},
 																					expr: &actionExpr{
-																						pos: position{line: 2883, col: 10, offset: 91286},
+																						pos: position{line: 2889, col: 10, offset: 91398},
 																						run: (*parser).callonDocumentHeader294,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2883, col: 10, offset: 91286},
+																							pos:        position{line: 2889, col: 10, offset: 91398},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17628,10 +17807,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1152, col: 81, offset: 35639},
 																					expr: &actionExpr{
-																						pos: position{line: 2883, col: 10, offset: 91286},
+																						pos: position{line: 2889, col: 10, offset: 91398},
 																						run: (*parser).callonDocumentHeader299,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2883, col: 10, offset: 91286},
+																							pos:        position{line: 2889, col: 10, offset: 91398},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17649,28 +17828,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2905, col: 8, offset: 91684},
+																pos: position{line: 2911, col: 8, offset: 91796},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2892, col: 12, offset: 91457},
+																		pos: position{line: 2898, col: 12, offset: 91569},
 																		run: (*parser).callonDocumentHeader303,
 																		expr: &choiceExpr{
-																			pos: position{line: 2892, col: 13, offset: 91458},
+																			pos: position{line: 2898, col: 13, offset: 91570},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2892, col: 13, offset: 91458},
+																					pos:        position{line: 2898, col: 13, offset: 91570},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2892, col: 20, offset: 91465},
+																					pos:        position{line: 2898, col: 20, offset: 91577},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2892, col: 29, offset: 91474},
+																					pos:        position{line: 2898, col: 29, offset: 91586},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17679,9 +17858,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2902, col: 8, offset: 91634},
+																		pos: position{line: 2908, col: 8, offset: 91746},
 																		expr: &anyMatcher{
-																			line: 2902, col: 9, offset: 91635,
+																			line: 2908, col: 9, offset: 91747,
 																		},
 																	},
 																},
@@ -17720,12 +17899,12 @@ var g = &grammar{
 																		pos:   position{line: 2493, col: 49, offset: 80256},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2829, col: 13, offset: 89812},
+																			pos: position{line: 2835, col: 13, offset: 89924},
 																			run: (*parser).callonDocumentHeader318,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2829, col: 13, offset: 89812},
+																				pos: position{line: 2835, col: 13, offset: 89924},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2829, col: 13, offset: 89812},
+																					pos:        position{line: 2835, col: 13, offset: 89924},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17735,28 +17914,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2905, col: 8, offset: 91684},
+																		pos: position{line: 2911, col: 8, offset: 91796},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2892, col: 12, offset: 91457},
+																				pos: position{line: 2898, col: 12, offset: 91569},
 																				run: (*parser).callonDocumentHeader322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2892, col: 13, offset: 91458},
+																					pos: position{line: 2898, col: 13, offset: 91570},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 13, offset: 91458},
+																							pos:        position{line: 2898, col: 13, offset: 91570},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 20, offset: 91465},
+																							pos:        position{line: 2898, col: 20, offset: 91577},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 29, offset: 91474},
+																							pos:        position{line: 2898, col: 29, offset: 91586},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17765,9 +17944,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2902, col: 8, offset: 91634},
+																				pos: position{line: 2908, col: 8, offset: 91746},
 																				expr: &anyMatcher{
-																					line: 2902, col: 9, offset: 91635,
+																					line: 2908, col: 9, offset: 91747,
 																				},
 																			},
 																		},
@@ -17821,10 +18000,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 752, col: 8, offset: 24032},
 																						expr: &actionExpr{
-																							pos: position{line: 2883, col: 10, offset: 91286},
+																							pos: position{line: 2889, col: 10, offset: 91398},
 																							run: (*parser).callonDocumentHeader341,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2883, col: 10, offset: 91286},
+																								pos:        position{line: 2889, col: 10, offset: 91398},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -17833,28 +18012,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2905, col: 8, offset: 91684},
+																						pos: position{line: 2911, col: 8, offset: 91796},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2892, col: 12, offset: 91457},
+																								pos: position{line: 2898, col: 12, offset: 91569},
 																								run: (*parser).callonDocumentHeader344,
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 13, offset: 91458},
+																									pos: position{line: 2898, col: 13, offset: 91570},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 13, offset: 91458},
+																											pos:        position{line: 2898, col: 13, offset: 91570},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 20, offset: 91465},
+																											pos:        position{line: 2898, col: 20, offset: 91577},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 29, offset: 91474},
+																											pos:        position{line: 2898, col: 29, offset: 91586},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17863,9 +18042,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2902, col: 8, offset: 91634},
+																								pos: position{line: 2908, col: 8, offset: 91746},
 																								expr: &anyMatcher{
-																									line: 2902, col: 9, offset: 91635,
+																									line: 2908, col: 9, offset: 91747,
 																								},
 																							},
 																						},
@@ -17937,10 +18116,10 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 752, col: 8, offset: 24032},
 																																expr: &actionExpr{
-																																	pos: position{line: 2883, col: 10, offset: 91286},
+																																	pos: position{line: 2889, col: 10, offset: 91398},
 																																	run: (*parser).callonDocumentHeader369,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2883, col: 10, offset: 91286},
+																																		pos:        position{line: 2889, col: 10, offset: 91398},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -17949,28 +18128,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2905, col: 8, offset: 91684},
+																																pos: position{line: 2911, col: 8, offset: 91796},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2892, col: 12, offset: 91457},
+																																		pos: position{line: 2898, col: 12, offset: 91569},
 																																		run: (*parser).callonDocumentHeader372,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2892, col: 13, offset: 91458},
+																																			pos: position{line: 2898, col: 13, offset: 91570},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2892, col: 13, offset: 91458},
+																																					pos:        position{line: 2898, col: 13, offset: 91570},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2892, col: 20, offset: 91465},
+																																					pos:        position{line: 2898, col: 20, offset: 91577},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2892, col: 29, offset: 91474},
+																																					pos:        position{line: 2898, col: 29, offset: 91586},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -17979,9 +18158,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2902, col: 8, offset: 91634},
+																																		pos: position{line: 2908, col: 8, offset: 91746},
 																																		expr: &anyMatcher{
-																																			line: 2902, col: 9, offset: 91635,
+																																			line: 2908, col: 9, offset: 91747,
 																																		},
 																																	},
 																																},
@@ -17997,9 +18176,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2902, col: 8, offset: 91634},
+																										pos: position{line: 2908, col: 8, offset: 91746},
 																										expr: &anyMatcher{
-																											line: 2902, col: 9, offset: 91635,
+																											line: 2908, col: 9, offset: 91747,
 																										},
 																									},
 																								},
@@ -18015,21 +18194,21 @@ var g = &grammar{
 																									pos: position{line: 821, col: 5, offset: 26434},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2900, col: 11, offset: 91620},
+																											pos: position{line: 2906, col: 11, offset: 91732},
 																											expr: &anyMatcher{
-																												line: 2900, col: 13, offset: 91622,
+																												line: 2906, col: 13, offset: 91734,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 822, col: 5, offset: 26509},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2829, col: 13, offset: 89812},
+																												pos: position{line: 2835, col: 13, offset: 89924},
 																												run: (*parser).callonDocumentHeader388,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2829, col: 13, offset: 89812},
+																													pos: position{line: 2835, col: 13, offset: 89924},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2829, col: 13, offset: 89812},
+																														pos:        position{line: 2835, col: 13, offset: 89924},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18039,28 +18218,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2905, col: 8, offset: 91684},
+																											pos: position{line: 2911, col: 8, offset: 91796},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2892, col: 12, offset: 91457},
+																													pos: position{line: 2898, col: 12, offset: 91569},
 																													run: (*parser).callonDocumentHeader392,
 																													expr: &choiceExpr{
-																														pos: position{line: 2892, col: 13, offset: 91458},
+																														pos: position{line: 2898, col: 13, offset: 91570},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 13, offset: 91458},
+																																pos:        position{line: 2898, col: 13, offset: 91570},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 20, offset: 91465},
+																																pos:        position{line: 2898, col: 20, offset: 91577},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 29, offset: 91474},
+																																pos:        position{line: 2898, col: 29, offset: 91586},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18069,9 +18248,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2902, col: 8, offset: 91634},
+																													pos: position{line: 2908, col: 8, offset: 91746},
 																													expr: &anyMatcher{
-																														line: 2902, col: 9, offset: 91635,
+																														line: 2908, col: 9, offset: 91747,
 																													},
 																												},
 																											},
@@ -18136,10 +18315,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 752, col: 8, offset: 24032},
 																												expr: &actionExpr{
-																													pos: position{line: 2883, col: 10, offset: 91286},
+																													pos: position{line: 2889, col: 10, offset: 91398},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2883, col: 10, offset: 91286},
+																														pos:        position{line: 2889, col: 10, offset: 91398},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -18148,28 +18327,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2905, col: 8, offset: 91684},
+																												pos: position{line: 2911, col: 8, offset: 91796},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2892, col: 12, offset: 91457},
+																														pos: position{line: 2898, col: 12, offset: 91569},
 																														run: (*parser).callonDocumentHeader416,
 																														expr: &choiceExpr{
-																															pos: position{line: 2892, col: 13, offset: 91458},
+																															pos: position{line: 2898, col: 13, offset: 91570},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 13, offset: 91458},
+																																	pos:        position{line: 2898, col: 13, offset: 91570},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 20, offset: 91465},
+																																	pos:        position{line: 2898, col: 20, offset: 91577},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 29, offset: 91474},
+																																	pos:        position{line: 2898, col: 29, offset: 91586},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -18178,9 +18357,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2902, col: 8, offset: 91634},
+																														pos: position{line: 2908, col: 8, offset: 91746},
 																														expr: &anyMatcher{
-																															line: 2902, col: 9, offset: 91635,
+																															line: 2908, col: 9, offset: 91747,
 																														},
 																													},
 																												},
@@ -18196,9 +18375,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2902, col: 8, offset: 91634},
+																						pos: position{line: 2908, col: 8, offset: 91746},
 																						expr: &anyMatcher{
-																							line: 2902, col: 9, offset: 91635,
+																							line: 2908, col: 9, offset: 91747,
 																						},
 																					},
 																				},
@@ -18225,10 +18404,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1191, col: 21, offset: 36635},
 																	expr: &actionExpr{
-																		pos: position{line: 2883, col: 10, offset: 91286},
+																		pos: position{line: 2889, col: 10, offset: 91398},
 																		run: (*parser).callonDocumentHeader431,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91286},
+																			pos:        position{line: 2889, col: 10, offset: 91398},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18330,10 +18509,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1203, col: 28, offset: 37266},
 																													expr: &actionExpr{
-																														pos: position{line: 2883, col: 10, offset: 91286},
+																														pos: position{line: 2889, col: 10, offset: 91398},
 																														run: (*parser).callonDocumentHeader455,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2883, col: 10, offset: 91286},
+																															pos:        position{line: 2889, col: 10, offset: 91398},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18480,28 +18659,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
+																			pos: position{line: 2898, col: 12, offset: 91569},
 																			run: (*parser).callonDocumentHeader487,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18510,9 +18689,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -18592,10 +18771,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 367, col: 49, offset: 11183},
 														expr: &actionExpr{
-															pos: position{line: 2883, col: 10, offset: 91286},
+															pos: position{line: 2889, col: 10, offset: 91398},
 															run: (*parser).callonDocumentHeader509,
 															expr: &charClassMatcher{
-																pos:        position{line: 2883, col: 10, offset: 91286},
+																pos:        position{line: 2889, col: 10, offset: 91398},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18604,28 +18783,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2905, col: 8, offset: 91684},
+														pos: position{line: 2911, col: 8, offset: 91796},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2892, col: 12, offset: 91457},
+																pos: position{line: 2898, col: 12, offset: 91569},
 																run: (*parser).callonDocumentHeader512,
 																expr: &choiceExpr{
-																	pos: position{line: 2892, col: 13, offset: 91458},
+																	pos: position{line: 2898, col: 13, offset: 91570},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 13, offset: 91458},
+																			pos:        position{line: 2898, col: 13, offset: 91570},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 20, offset: 91465},
+																			pos:        position{line: 2898, col: 20, offset: 91577},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 29, offset: 91474},
+																			pos:        position{line: 2898, col: 29, offset: 91586},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18634,9 +18813,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2902, col: 8, offset: 91634},
+																pos: position{line: 2908, col: 8, offset: 91746},
 																expr: &anyMatcher{
-																	line: 2902, col: 9, offset: 91635,
+																	line: 2908, col: 9, offset: 91747,
 																},
 															},
 														},
@@ -18697,10 +18876,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 369, col: 39, offset: 11304},
 														expr: &actionExpr{
-															pos: position{line: 2883, col: 10, offset: 91286},
+															pos: position{line: 2889, col: 10, offset: 91398},
 															run: (*parser).callonDocumentHeader530,
 															expr: &charClassMatcher{
-																pos:        position{line: 2883, col: 10, offset: 91286},
+																pos:        position{line: 2889, col: 10, offset: 91398},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18709,28 +18888,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2905, col: 8, offset: 91684},
+														pos: position{line: 2911, col: 8, offset: 91796},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2892, col: 12, offset: 91457},
+																pos: position{line: 2898, col: 12, offset: 91569},
 																run: (*parser).callonDocumentHeader533,
 																expr: &choiceExpr{
-																	pos: position{line: 2892, col: 13, offset: 91458},
+																	pos: position{line: 2898, col: 13, offset: 91570},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 13, offset: 91458},
+																			pos:        position{line: 2898, col: 13, offset: 91570},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 20, offset: 91465},
+																			pos:        position{line: 2898, col: 20, offset: 91577},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 29, offset: 91474},
+																			pos:        position{line: 2898, col: 29, offset: 91586},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18739,9 +18918,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2902, col: 8, offset: 91634},
+																pos: position{line: 2908, col: 8, offset: 91746},
 																expr: &anyMatcher{
-																	line: 2902, col: 9, offset: 91635,
+																	line: 2908, col: 9, offset: 91747,
 																},
 															},
 														},
@@ -18774,12 +18953,12 @@ var g = &grammar{
 														pos:   position{line: 2493, col: 49, offset: 80256},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2829, col: 13, offset: 89812},
+															pos: position{line: 2835, col: 13, offset: 89924},
 															run: (*parser).callonDocumentHeader546,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2829, col: 13, offset: 89812},
+																pos: position{line: 2835, col: 13, offset: 89924},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2829, col: 13, offset: 89812},
+																	pos:        position{line: 2835, col: 13, offset: 89924},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18789,28 +18968,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2905, col: 8, offset: 91684},
+														pos: position{line: 2911, col: 8, offset: 91796},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2892, col: 12, offset: 91457},
+																pos: position{line: 2898, col: 12, offset: 91569},
 																run: (*parser).callonDocumentHeader550,
 																expr: &choiceExpr{
-																	pos: position{line: 2892, col: 13, offset: 91458},
+																	pos: position{line: 2898, col: 13, offset: 91570},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 13, offset: 91458},
+																			pos:        position{line: 2898, col: 13, offset: 91570},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 20, offset: 91465},
+																			pos:        position{line: 2898, col: 20, offset: 91577},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 29, offset: 91474},
+																			pos:        position{line: 2898, col: 29, offset: 91586},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18819,9 +18998,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2902, col: 8, offset: 91634},
+																pos: position{line: 2908, col: 8, offset: 91746},
 																expr: &anyMatcher{
-																	line: 2902, col: 9, offset: 91635,
+																	line: 2908, col: 9, offset: 91747,
 																},
 															},
 														},
@@ -18875,10 +19054,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 752, col: 8, offset: 24032},
 																		expr: &actionExpr{
-																			pos: position{line: 2883, col: 10, offset: 91286},
+																			pos: position{line: 2889, col: 10, offset: 91398},
 																			run: (*parser).callonDocumentHeader569,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2883, col: 10, offset: 91286},
+																				pos:        position{line: 2889, col: 10, offset: 91398},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -18887,28 +19066,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2905, col: 8, offset: 91684},
+																		pos: position{line: 2911, col: 8, offset: 91796},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2892, col: 12, offset: 91457},
+																				pos: position{line: 2898, col: 12, offset: 91569},
 																				run: (*parser).callonDocumentHeader572,
 																				expr: &choiceExpr{
-																					pos: position{line: 2892, col: 13, offset: 91458},
+																					pos: position{line: 2898, col: 13, offset: 91570},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 13, offset: 91458},
+																							pos:        position{line: 2898, col: 13, offset: 91570},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 20, offset: 91465},
+																							pos:        position{line: 2898, col: 20, offset: 91577},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 29, offset: 91474},
+																							pos:        position{line: 2898, col: 29, offset: 91586},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -18917,9 +19096,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2902, col: 8, offset: 91634},
+																				pos: position{line: 2908, col: 8, offset: 91746},
 																				expr: &anyMatcher{
-																					line: 2902, col: 9, offset: 91635,
+																					line: 2908, col: 9, offset: 91747,
 																				},
 																			},
 																		},
@@ -18991,10 +19170,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 752, col: 8, offset: 24032},
 																												expr: &actionExpr{
-																													pos: position{line: 2883, col: 10, offset: 91286},
+																													pos: position{line: 2889, col: 10, offset: 91398},
 																													run: (*parser).callonDocumentHeader597,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2883, col: 10, offset: 91286},
+																														pos:        position{line: 2889, col: 10, offset: 91398},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -19003,28 +19182,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2905, col: 8, offset: 91684},
+																												pos: position{line: 2911, col: 8, offset: 91796},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2892, col: 12, offset: 91457},
+																														pos: position{line: 2898, col: 12, offset: 91569},
 																														run: (*parser).callonDocumentHeader600,
 																														expr: &choiceExpr{
-																															pos: position{line: 2892, col: 13, offset: 91458},
+																															pos: position{line: 2898, col: 13, offset: 91570},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 13, offset: 91458},
+																																	pos:        position{line: 2898, col: 13, offset: 91570},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 20, offset: 91465},
+																																	pos:        position{line: 2898, col: 20, offset: 91577},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2892, col: 29, offset: 91474},
+																																	pos:        position{line: 2898, col: 29, offset: 91586},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -19033,9 +19212,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2902, col: 8, offset: 91634},
+																														pos: position{line: 2908, col: 8, offset: 91746},
 																														expr: &anyMatcher{
-																															line: 2902, col: 9, offset: 91635,
+																															line: 2908, col: 9, offset: 91747,
 																														},
 																													},
 																												},
@@ -19051,9 +19230,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2902, col: 8, offset: 91634},
+																						pos: position{line: 2908, col: 8, offset: 91746},
 																						expr: &anyMatcher{
-																							line: 2902, col: 9, offset: 91635,
+																							line: 2908, col: 9, offset: 91747,
 																						},
 																					},
 																				},
@@ -19069,21 +19248,21 @@ var g = &grammar{
 																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2900, col: 11, offset: 91620},
+																							pos: position{line: 2906, col: 11, offset: 91732},
 																							expr: &anyMatcher{
-																								line: 2900, col: 13, offset: 91622,
+																								line: 2906, col: 13, offset: 91734,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2829, col: 13, offset: 89812},
+																								pos: position{line: 2835, col: 13, offset: 89924},
 																								run: (*parser).callonDocumentHeader616,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2829, col: 13, offset: 89812},
+																									pos: position{line: 2835, col: 13, offset: 89924},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2829, col: 13, offset: 89812},
+																										pos:        position{line: 2835, col: 13, offset: 89924},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19093,28 +19272,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonDocumentHeader620,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19123,9 +19302,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -19190,10 +19369,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 752, col: 8, offset: 24032},
 																								expr: &actionExpr{
-																									pos: position{line: 2883, col: 10, offset: 91286},
+																									pos: position{line: 2889, col: 10, offset: 91398},
 																									run: (*parser).callonDocumentHeader641,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2883, col: 10, offset: 91286},
+																										pos:        position{line: 2889, col: 10, offset: 91398},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -19202,28 +19381,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2905, col: 8, offset: 91684},
+																								pos: position{line: 2911, col: 8, offset: 91796},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2892, col: 12, offset: 91457},
+																										pos: position{line: 2898, col: 12, offset: 91569},
 																										run: (*parser).callonDocumentHeader644,
 																										expr: &choiceExpr{
-																											pos: position{line: 2892, col: 13, offset: 91458},
+																											pos: position{line: 2898, col: 13, offset: 91570},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 13, offset: 91458},
+																													pos:        position{line: 2898, col: 13, offset: 91570},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 20, offset: 91465},
+																													pos:        position{line: 2898, col: 20, offset: 91577},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 29, offset: 91474},
+																													pos:        position{line: 2898, col: 29, offset: 91586},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -19232,9 +19411,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2902, col: 8, offset: 91634},
+																										pos: position{line: 2908, col: 8, offset: 91746},
 																										expr: &anyMatcher{
-																											line: 2902, col: 9, offset: 91635,
+																											line: 2908, col: 9, offset: 91747,
 																										},
 																									},
 																								},
@@ -19250,9 +19429,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2902, col: 8, offset: 91634},
+																		pos: position{line: 2908, col: 8, offset: 91746},
 																		expr: &anyMatcher{
-																			line: 2902, col: 9, offset: 91635,
+																			line: 2908, col: 9, offset: 91747,
 																		},
 																	},
 																},
@@ -19286,12 +19465,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2887, col: 11, offset: 91347},
+							pos: position{line: 2893, col: 11, offset: 91459},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2887, col: 11, offset: 91347},
+								pos: position{line: 2893, col: 11, offset: 91459},
 								expr: &charClassMatcher{
-									pos:        position{line: 2887, col: 11, offset: 91347},
+									pos:        position{line: 2893, col: 11, offset: 91459},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19308,28 +19487,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2905, col: 8, offset: 91684},
+							pos: position{line: 2911, col: 8, offset: 91796},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2892, col: 12, offset: 91457},
+									pos: position{line: 2898, col: 12, offset: 91569},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2892, col: 13, offset: 91458},
+										pos: position{line: 2898, col: 13, offset: 91570},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2892, col: 13, offset: 91458},
+												pos:        position{line: 2898, col: 13, offset: 91570},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2892, col: 20, offset: 91465},
+												pos:        position{line: 2898, col: 20, offset: 91577},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2892, col: 29, offset: 91474},
+												pos:        position{line: 2898, col: 29, offset: 91586},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19338,9 +19517,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2902, col: 8, offset: 91634},
+									pos: position{line: 2908, col: 8, offset: 91746},
 									expr: &anyMatcher{
-										line: 2902, col: 9, offset: 91635,
+										line: 2908, col: 9, offset: 91747,
 									},
 								},
 							},
@@ -19379,10 +19558,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1166, col: 5, offset: 36039},
 							expr: &actionExpr{
-								pos: position{line: 2883, col: 10, offset: 91286},
+								pos: position{line: 2889, col: 10, offset: 91398},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2883, col: 10, offset: 91286},
+									pos:        position{line: 2889, col: 10, offset: 91398},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19414,10 +19593,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1170, col: 5, offset: 36138},
 							expr: &actionExpr{
-								pos: position{line: 2883, col: 10, offset: 91286},
+								pos: position{line: 2889, col: 10, offset: 91398},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2883, col: 10, offset: 91286},
+									pos:        position{line: 2889, col: 10, offset: 91398},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19449,10 +19628,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1174, col: 5, offset: 36235},
 							expr: &actionExpr{
-								pos: position{line: 2883, col: 10, offset: 91286},
+								pos: position{line: 2889, col: 10, offset: 91398},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2883, col: 10, offset: 91286},
+									pos:        position{line: 2889, col: 10, offset: 91398},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19518,12 +19697,12 @@ var g = &grammar{
 							pos:   position{line: 1302, col: 13, offset: 40437},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2868, col: 7, offset: 90938},
+								pos: position{line: 2874, col: 7, offset: 91050},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2868, col: 7, offset: 90938},
+									pos: position{line: 2874, col: 7, offset: 91050},
 									expr: &charClassMatcher{
-										pos:        position{line: 2868, col: 7, offset: 90938},
+										pos:        position{line: 2874, col: 7, offset: 91050},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19592,12 +19771,12 @@ var g = &grammar{
 							pos: position{line: 1313, col: 31, offset: 40897},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2777, col: 14, offset: 88455},
+									pos: position{line: 2783, col: 14, offset: 88567},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2777, col: 14, offset: 88455},
+										pos: position{line: 2783, col: 14, offset: 88567},
 										expr: &charClassMatcher{
-											pos:        position{line: 2777, col: 14, offset: 88455},
+											pos:        position{line: 2783, col: 14, offset: 88567},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19610,10 +19789,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2883, col: 10, offset: 91286},
+									pos: position{line: 2889, col: 10, offset: 91398},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2883, col: 10, offset: 91286},
+										pos:        position{line: 2889, col: 10, offset: 91398},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19733,48 +19912,48 @@ var g = &grammar{
 							pos:   position{line: 1334, col: 15, offset: 41715},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2841, col: 13, offset: 90045},
+								pos: position{line: 2847, col: 13, offset: 90157},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2841, col: 13, offset: 90045},
+									pos: position{line: 2847, col: 13, offset: 90157},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2841, col: 13, offset: 90045},
+											pos:   position{line: 2847, col: 13, offset: 90157},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2841, col: 20, offset: 90052},
+												pos: position{line: 2847, col: 20, offset: 90164},
 												expr: &actionExpr{
-													pos: position{line: 2849, col: 11, offset: 90291},
+													pos: position{line: 2855, col: 11, offset: 90403},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2849, col: 12, offset: 90292},
+														pos: position{line: 2855, col: 12, offset: 90404},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2849, col: 12, offset: 90292},
+																pos:        position{line: 2855, col: 12, offset: 90404},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2849, col: 24, offset: 90304},
+																pos:        position{line: 2855, col: 24, offset: 90416},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2849, col: 37, offset: 90317},
+																pos:        position{line: 2855, col: 37, offset: 90429},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2849, col: 48, offset: 90328},
+																pos:        position{line: 2855, col: 48, offset: 90440},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2849, col: 59, offset: 90339},
+																pos:        position{line: 2855, col: 59, offset: 90451},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19785,38 +19964,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2841, col: 30, offset: 90062},
+											pos:   position{line: 2847, col: 30, offset: 90174},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2854, col: 5, offset: 90403},
+												pos: position{line: 2860, col: 5, offset: 90515},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2854, col: 5, offset: 90403},
+													pos:   position{line: 2860, col: 5, offset: 90515},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2854, col: 14, offset: 90412},
+														pos: position{line: 2860, col: 14, offset: 90524},
 														expr: &choiceExpr{
-															pos: position{line: 2855, col: 9, offset: 90422},
+															pos: position{line: 2861, col: 9, offset: 90534},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2855, col: 9, offset: 90422},
+																	pos: position{line: 2861, col: 9, offset: 90534},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2855, col: 9, offset: 90422},
+																		pos: position{line: 2861, col: 9, offset: 90534},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2855, col: 9, offset: 90422},
+																				pos: position{line: 2861, col: 9, offset: 90534},
 																				expr: &litMatcher{
-																					pos:        position{line: 2855, col: 10, offset: 90423},
+																					pos:        position{line: 2861, col: 10, offset: 90535},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2856, col: 9, offset: 90451},
+																				pos: position{line: 2862, col: 9, offset: 90563},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2856, col: 10, offset: 90452},
+																					pos:        position{line: 2862, col: 10, offset: 90564},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -19827,27 +20006,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2859, col: 11, offset: 90664},
+																	pos: position{line: 2865, col: 11, offset: 90776},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2859, col: 11, offset: 90664},
+																			pos:        position{line: 2865, col: 11, offset: 90776},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2859, col: 19, offset: 90672},
+																			pos: position{line: 2865, col: 19, offset: 90784},
 																			expr: &seqExpr{
-																				pos: position{line: 2859, col: 21, offset: 90674},
+																				pos: position{line: 2865, col: 21, offset: 90786},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2859, col: 21, offset: 90674},
+																						pos: position{line: 2865, col: 21, offset: 90786},
 																						expr: &actionExpr{
-																							pos: position{line: 2883, col: 10, offset: 91286},
+																							pos: position{line: 2889, col: 10, offset: 91398},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2883, col: 10, offset: 91286},
+																								pos:        position{line: 2889, col: 10, offset: 91398},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -19856,11 +20035,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2859, col: 28, offset: 90681},
+																						pos: position{line: 2865, col: 28, offset: 90793},
 																						expr: &notExpr{
-																							pos: position{line: 2902, col: 8, offset: 91634},
+																							pos: position{line: 2908, col: 8, offset: 91746},
 																							expr: &anyMatcher{
-																								line: 2902, col: 9, offset: 91635,
+																								line: 2908, col: 9, offset: 91747,
 																							},
 																						},
 																					},
@@ -20255,10 +20434,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2862, col: 11, offset: 90801},
+																	pos: position{line: 2868, col: 11, offset: 90913},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2862, col: 11, offset: 90801},
+																		pos:        position{line: 2868, col: 11, offset: 90913},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20285,10 +20464,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1334, col: 61, offset: 41761},
 							expr: &actionExpr{
-								pos: position{line: 2883, col: 10, offset: 91286},
+								pos: position{line: 2889, col: 10, offset: 91398},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2883, col: 10, offset: 91286},
+									pos:        position{line: 2889, col: 10, offset: 91398},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20297,28 +20476,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2905, col: 8, offset: 91684},
+							pos: position{line: 2911, col: 8, offset: 91796},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2892, col: 12, offset: 91457},
+									pos: position{line: 2898, col: 12, offset: 91569},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2892, col: 13, offset: 91458},
+										pos: position{line: 2898, col: 13, offset: 91570},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2892, col: 13, offset: 91458},
+												pos:        position{line: 2898, col: 13, offset: 91570},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2892, col: 20, offset: 91465},
+												pos:        position{line: 2898, col: 20, offset: 91577},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2892, col: 29, offset: 91474},
+												pos:        position{line: 2898, col: 29, offset: 91586},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20327,9 +20506,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2902, col: 8, offset: 91634},
+									pos: position{line: 2908, col: 8, offset: 91746},
 									expr: &anyMatcher{
-										line: 2902, col: 9, offset: 91635,
+										line: 2908, col: 9, offset: 91747,
 									},
 								},
 							},
@@ -20366,48 +20545,48 @@ var g = &grammar{
 							pos:   position{line: 1339, col: 30, offset: 42007},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2841, col: 13, offset: 90045},
+								pos: position{line: 2847, col: 13, offset: 90157},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2841, col: 13, offset: 90045},
+									pos: position{line: 2847, col: 13, offset: 90157},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2841, col: 13, offset: 90045},
+											pos:   position{line: 2847, col: 13, offset: 90157},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2841, col: 20, offset: 90052},
+												pos: position{line: 2847, col: 20, offset: 90164},
 												expr: &actionExpr{
-													pos: position{line: 2849, col: 11, offset: 90291},
+													pos: position{line: 2855, col: 11, offset: 90403},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2849, col: 12, offset: 90292},
+														pos: position{line: 2855, col: 12, offset: 90404},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2849, col: 12, offset: 90292},
+																pos:        position{line: 2855, col: 12, offset: 90404},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2849, col: 24, offset: 90304},
+																pos:        position{line: 2855, col: 24, offset: 90416},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2849, col: 37, offset: 90317},
+																pos:        position{line: 2855, col: 37, offset: 90429},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2849, col: 48, offset: 90328},
+																pos:        position{line: 2855, col: 48, offset: 90440},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2849, col: 59, offset: 90339},
+																pos:        position{line: 2855, col: 59, offset: 90451},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20418,38 +20597,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2841, col: 30, offset: 90062},
+											pos:   position{line: 2847, col: 30, offset: 90174},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2854, col: 5, offset: 90403},
+												pos: position{line: 2860, col: 5, offset: 90515},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2854, col: 5, offset: 90403},
+													pos:   position{line: 2860, col: 5, offset: 90515},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2854, col: 14, offset: 90412},
+														pos: position{line: 2860, col: 14, offset: 90524},
 														expr: &choiceExpr{
-															pos: position{line: 2855, col: 9, offset: 90422},
+															pos: position{line: 2861, col: 9, offset: 90534},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2855, col: 9, offset: 90422},
+																	pos: position{line: 2861, col: 9, offset: 90534},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2855, col: 9, offset: 90422},
+																		pos: position{line: 2861, col: 9, offset: 90534},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2855, col: 9, offset: 90422},
+																				pos: position{line: 2861, col: 9, offset: 90534},
 																				expr: &litMatcher{
-																					pos:        position{line: 2855, col: 10, offset: 90423},
+																					pos:        position{line: 2861, col: 10, offset: 90535},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2856, col: 9, offset: 90451},
+																				pos: position{line: 2862, col: 9, offset: 90563},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2856, col: 10, offset: 90452},
+																					pos:        position{line: 2862, col: 10, offset: 90564},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20460,27 +20639,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2859, col: 11, offset: 90664},
+																	pos: position{line: 2865, col: 11, offset: 90776},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2859, col: 11, offset: 90664},
+																			pos:        position{line: 2865, col: 11, offset: 90776},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2859, col: 19, offset: 90672},
+																			pos: position{line: 2865, col: 19, offset: 90784},
 																			expr: &seqExpr{
-																				pos: position{line: 2859, col: 21, offset: 90674},
+																				pos: position{line: 2865, col: 21, offset: 90786},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2859, col: 21, offset: 90674},
+																						pos: position{line: 2865, col: 21, offset: 90786},
 																						expr: &actionExpr{
-																							pos: position{line: 2883, col: 10, offset: 91286},
+																							pos: position{line: 2889, col: 10, offset: 91398},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2883, col: 10, offset: 91286},
+																								pos:        position{line: 2889, col: 10, offset: 91398},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20489,11 +20668,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2859, col: 28, offset: 90681},
+																						pos: position{line: 2865, col: 28, offset: 90793},
 																						expr: &notExpr{
-																							pos: position{line: 2902, col: 8, offset: 91634},
+																							pos: position{line: 2908, col: 8, offset: 91746},
 																							expr: &anyMatcher{
-																								line: 2902, col: 9, offset: 91635,
+																								line: 2908, col: 9, offset: 91747,
 																							},
 																						},
 																					},
@@ -20888,10 +21067,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2862, col: 11, offset: 90801},
+																	pos: position{line: 2868, col: 11, offset: 90913},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2862, col: 11, offset: 90801},
+																		pos:        position{line: 2868, col: 11, offset: 90913},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20986,12 +21165,12 @@ var g = &grammar{
 							expr: &zeroOrOneExpr{
 								pos: position{line: 1353, col: 35, offset: 42915},
 								expr: &actionExpr{
-									pos: position{line: 2777, col: 14, offset: 88455},
+									pos: position{line: 2783, col: 14, offset: 88567},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2777, col: 14, offset: 88455},
+										pos: position{line: 2783, col: 14, offset: 88567},
 										expr: &charClassMatcher{
-											pos:        position{line: 2777, col: 14, offset: 88455},
+											pos:        position{line: 2783, col: 14, offset: 88567},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -21069,21 +21248,21 @@ var g = &grammar{
 								pos: position{line: 1366, col: 9, offset: 43293},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2782, col: 5, offset: 88528},
+										pos: position{line: 2788, col: 5, offset: 88640},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2782, col: 5, offset: 88528},
+											pos: position{line: 2788, col: 5, offset: 88640},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2782, col: 5, offset: 88528},
+													pos:   position{line: 2788, col: 5, offset: 88640},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2782, col: 11, offset: 88534},
+														pos: position{line: 2788, col: 11, offset: 88646},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2782, col: 11, offset: 88534},
+															pos: position{line: 2788, col: 11, offset: 88646},
 															expr: &charClassMatcher{
-																pos:        position{line: 2782, col: 11, offset: 88534},
+																pos:        position{line: 2788, col: 11, offset: 88646},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21093,36 +21272,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2785, col: 5, offset: 88592},
+													pos: position{line: 2791, col: 5, offset: 88704},
 													expr: &seqExpr{
-														pos: position{line: 2786, col: 9, offset: 88603},
+														pos: position{line: 2792, col: 9, offset: 88715},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2786, col: 9, offset: 88603},
+																pos:        position{line: 2792, col: 9, offset: 88715},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2787, col: 9, offset: 88652},
+																pos: position{line: 2793, col: 9, offset: 88764},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2791, col: 5, offset: 88732},
+													pos: position{line: 2797, col: 5, offset: 88844},
 													expr: &seqExpr{
-														pos: position{line: 2792, col: 9, offset: 88743},
+														pos: position{line: 2798, col: 9, offset: 88855},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2792, col: 9, offset: 88743},
+																pos:        position{line: 2798, col: 9, offset: 88855},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2792, col: 13, offset: 88747},
+																pos:        position{line: 2798, col: 13, offset: 88859},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21135,12 +21314,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2887, col: 11, offset: 91347},
+										pos: position{line: 2893, col: 11, offset: 91459},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2887, col: 11, offset: 91347},
+											pos: position{line: 2893, col: 11, offset: 91459},
 											expr: &charClassMatcher{
-												pos:        position{line: 2887, col: 11, offset: 91347},
+												pos:        position{line: 2893, col: 11, offset: 91459},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21215,27 +21394,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2800, col: 5, offset: 88940},
+										pos: position{line: 2806, col: 5, offset: 89052},
 										run: (*parser).callonFootnoteElement38,
 										expr: &choiceExpr{
-											pos: position{line: 2801, col: 9, offset: 88950},
+											pos: position{line: 2807, col: 9, offset: 89062},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2801, col: 10, offset: 88951},
+													pos:        position{line: 2807, col: 10, offset: 89063},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2803, col: 13, offset: 89048},
+													pos: position{line: 2809, col: 13, offset: 89160},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2803, col: 13, offset: 89048},
+															pos: position{line: 2809, col: 13, offset: 89160},
 															run: (*parser).callonFootnoteElement42,
 														},
 														&litMatcher{
-															pos:        position{line: 2806, col: 13, offset: 89148},
+															pos:        position{line: 2812, col: 13, offset: 89260},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21243,20 +21422,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2806, col: 19, offset: 89154},
+													pos:        position{line: 2812, col: 19, offset: 89266},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2809, col: 13, offset: 89192},
+													pos: position{line: 2815, col: 13, offset: 89304},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2809, col: 13, offset: 89192},
+															pos: position{line: 2815, col: 13, offset: 89304},
 															run: (*parser).callonFootnoteElement46,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2812, col: 14, offset: 89285},
+															pos:        position{line: 2818, col: 14, offset: 89397},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21265,18 +21444,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2814, col: 12, offset: 89329},
+													pos: position{line: 2820, col: 12, offset: 89441},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2814, col: 12, offset: 89329},
+															pos:        position{line: 2820, col: 12, offset: 89441},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2814, col: 16, offset: 89333},
+															pos: position{line: 2820, col: 16, offset: 89445},
 															expr: &litMatcher{
-																pos:        position{line: 2814, col: 17, offset: 89334},
+																pos:        position{line: 2820, col: 17, offset: 89446},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21314,10 +21493,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1236, col: 5, offset: 38337},
 													expr: &actionExpr{
-														pos: position{line: 2883, col: 10, offset: 91286},
+														pos: position{line: 2889, col: 10, offset: 91398},
 														run: (*parser).callonFootnoteElement59,
 														expr: &charClassMatcher{
-															pos:        position{line: 2883, col: 10, offset: 91286},
+															pos:        position{line: 2889, col: 10, offset: 91398},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21328,28 +21507,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1236, col: 12, offset: 38344},
 													expr: &choiceExpr{
-														pos: position{line: 2905, col: 8, offset: 91684},
+														pos: position{line: 2911, col: 8, offset: 91796},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2892, col: 12, offset: 91457},
+																pos: position{line: 2898, col: 12, offset: 91569},
 																run: (*parser).callonFootnoteElement63,
 																expr: &choiceExpr{
-																	pos: position{line: 2892, col: 13, offset: 91458},
+																	pos: position{line: 2898, col: 13, offset: 91570},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 13, offset: 91458},
+																			pos:        position{line: 2898, col: 13, offset: 91570},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 20, offset: 91465},
+																			pos:        position{line: 2898, col: 20, offset: 91577},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 29, offset: 91474},
+																			pos:        position{line: 2898, col: 29, offset: 91586},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21358,9 +21537,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2902, col: 8, offset: 91634},
+																pos: position{line: 2908, col: 8, offset: 91746},
 																expr: &anyMatcher{
-																	line: 2902, col: 9, offset: 91635,
+																	line: 2908, col: 9, offset: 91747,
 																},
 															},
 														},
@@ -21744,25 +21923,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2892, col: 12, offset: 91457},
+										pos: position{line: 2898, col: 12, offset: 91569},
 										run: (*parser).callonFootnoteElement145,
 										expr: &choiceExpr{
-											pos: position{line: 2892, col: 13, offset: 91458},
+											pos: position{line: 2898, col: 13, offset: 91570},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2892, col: 13, offset: 91458},
+													pos:        position{line: 2898, col: 13, offset: 91570},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2892, col: 20, offset: 91465},
+													pos:        position{line: 2898, col: 20, offset: 91577},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2892, col: 29, offset: 91474},
+													pos:        position{line: 2898, col: 29, offset: 91586},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21771,10 +21950,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2822, col: 12, offset: 89594},
+										pos: position{line: 2828, col: 12, offset: 89706},
 										run: (*parser).callonFootnoteElement150,
 										expr: &charClassMatcher{
-											pos:        position{line: 2822, col: 12, offset: 89594},
+											pos:        position{line: 2828, col: 12, offset: 89706},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21906,55 +22085,55 @@ var g = &grammar{
 									pos:   position{line: 1428, col: 5, offset: 45999},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2845, col: 23, offset: 90172},
+										pos: position{line: 2851, col: 23, offset: 90284},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2845, col: 23, offset: 90172},
+											pos: position{line: 2851, col: 23, offset: 90284},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2845, col: 23, offset: 90172},
+													pos: position{line: 2851, col: 23, offset: 90284},
 													expr: &litMatcher{
-														pos:        position{line: 2845, col: 24, offset: 90173},
+														pos:        position{line: 2851, col: 24, offset: 90285},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2845, col: 28, offset: 90177},
+													pos:   position{line: 2851, col: 28, offset: 90289},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2849, col: 11, offset: 90291},
+														pos: position{line: 2855, col: 11, offset: 90403},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2849, col: 12, offset: 90292},
+															pos: position{line: 2855, col: 12, offset: 90404},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2849, col: 12, offset: 90292},
+																	pos:        position{line: 2855, col: 12, offset: 90404},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2849, col: 24, offset: 90304},
+																	pos:        position{line: 2855, col: 24, offset: 90416},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2849, col: 37, offset: 90317},
+																	pos:        position{line: 2855, col: 37, offset: 90429},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2849, col: 48, offset: 90328},
+																	pos:        position{line: 2855, col: 48, offset: 90440},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2849, col: 59, offset: 90339},
+																	pos:        position{line: 2855, col: 59, offset: 90451},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -21964,38 +22143,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2845, col: 44, offset: 90193},
+													pos:   position{line: 2851, col: 44, offset: 90305},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2854, col: 5, offset: 90403},
+														pos: position{line: 2860, col: 5, offset: 90515},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2854, col: 5, offset: 90403},
+															pos:   position{line: 2860, col: 5, offset: 90515},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2854, col: 14, offset: 90412},
+																pos: position{line: 2860, col: 14, offset: 90524},
 																expr: &choiceExpr{
-																	pos: position{line: 2855, col: 9, offset: 90422},
+																	pos: position{line: 2861, col: 9, offset: 90534},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2855, col: 9, offset: 90422},
+																			pos: position{line: 2861, col: 9, offset: 90534},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2855, col: 9, offset: 90422},
+																				pos: position{line: 2861, col: 9, offset: 90534},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2855, col: 9, offset: 90422},
+																						pos: position{line: 2861, col: 9, offset: 90534},
 																						expr: &litMatcher{
-																							pos:        position{line: 2855, col: 10, offset: 90423},
+																							pos:        position{line: 2861, col: 10, offset: 90535},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2856, col: 9, offset: 90451},
+																						pos: position{line: 2862, col: 9, offset: 90563},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2856, col: 10, offset: 90452},
+																							pos:        position{line: 2862, col: 10, offset: 90564},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22006,27 +22185,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2859, col: 11, offset: 90664},
+																			pos: position{line: 2865, col: 11, offset: 90776},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2859, col: 11, offset: 90664},
+																					pos:        position{line: 2865, col: 11, offset: 90776},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2859, col: 19, offset: 90672},
+																					pos: position{line: 2865, col: 19, offset: 90784},
 																					expr: &seqExpr{
-																						pos: position{line: 2859, col: 21, offset: 90674},
+																						pos: position{line: 2865, col: 21, offset: 90786},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2859, col: 21, offset: 90674},
+																								pos: position{line: 2865, col: 21, offset: 90786},
 																								expr: &actionExpr{
-																									pos: position{line: 2883, col: 10, offset: 91286},
+																									pos: position{line: 2889, col: 10, offset: 91398},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2883, col: 10, offset: 91286},
+																										pos:        position{line: 2889, col: 10, offset: 91398},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22035,11 +22214,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2859, col: 28, offset: 90681},
+																								pos: position{line: 2865, col: 28, offset: 90793},
 																								expr: &notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -22434,10 +22613,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2862, col: 11, offset: 90801},
+																			pos: position{line: 2868, col: 11, offset: 90913},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2862, col: 11, offset: 90801},
+																				pos:        position{line: 2868, col: 11, offset: 90913},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22612,48 +22791,48 @@ var g = &grammar{
 									pos:   position{line: 1441, col: 17, offset: 46414},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2841, col: 13, offset: 90045},
+										pos: position{line: 2847, col: 13, offset: 90157},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2841, col: 13, offset: 90045},
+											pos: position{line: 2847, col: 13, offset: 90157},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2841, col: 13, offset: 90045},
+													pos:   position{line: 2847, col: 13, offset: 90157},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2841, col: 20, offset: 90052},
+														pos: position{line: 2847, col: 20, offset: 90164},
 														expr: &actionExpr{
-															pos: position{line: 2849, col: 11, offset: 90291},
+															pos: position{line: 2855, col: 11, offset: 90403},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2849, col: 12, offset: 90292},
+																pos: position{line: 2855, col: 12, offset: 90404},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2849, col: 12, offset: 90292},
+																		pos:        position{line: 2855, col: 12, offset: 90404},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2849, col: 24, offset: 90304},
+																		pos:        position{line: 2855, col: 24, offset: 90416},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2849, col: 37, offset: 90317},
+																		pos:        position{line: 2855, col: 37, offset: 90429},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2849, col: 48, offset: 90328},
+																		pos:        position{line: 2855, col: 48, offset: 90440},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2849, col: 59, offset: 90339},
+																		pos:        position{line: 2855, col: 59, offset: 90451},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22664,38 +22843,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2841, col: 30, offset: 90062},
+													pos:   position{line: 2847, col: 30, offset: 90174},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2854, col: 5, offset: 90403},
+														pos: position{line: 2860, col: 5, offset: 90515},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2854, col: 5, offset: 90403},
+															pos:   position{line: 2860, col: 5, offset: 90515},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2854, col: 14, offset: 90412},
+																pos: position{line: 2860, col: 14, offset: 90524},
 																expr: &choiceExpr{
-																	pos: position{line: 2855, col: 9, offset: 90422},
+																	pos: position{line: 2861, col: 9, offset: 90534},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2855, col: 9, offset: 90422},
+																			pos: position{line: 2861, col: 9, offset: 90534},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2855, col: 9, offset: 90422},
+																				pos: position{line: 2861, col: 9, offset: 90534},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2855, col: 9, offset: 90422},
+																						pos: position{line: 2861, col: 9, offset: 90534},
 																						expr: &litMatcher{
-																							pos:        position{line: 2855, col: 10, offset: 90423},
+																							pos:        position{line: 2861, col: 10, offset: 90535},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2856, col: 9, offset: 90451},
+																						pos: position{line: 2862, col: 9, offset: 90563},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2856, col: 10, offset: 90452},
+																							pos:        position{line: 2862, col: 10, offset: 90564},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22706,27 +22885,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2859, col: 11, offset: 90664},
+																			pos: position{line: 2865, col: 11, offset: 90776},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2859, col: 11, offset: 90664},
+																					pos:        position{line: 2865, col: 11, offset: 90776},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2859, col: 19, offset: 90672},
+																					pos: position{line: 2865, col: 19, offset: 90784},
 																					expr: &seqExpr{
-																						pos: position{line: 2859, col: 21, offset: 90674},
+																						pos: position{line: 2865, col: 21, offset: 90786},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2859, col: 21, offset: 90674},
+																								pos: position{line: 2865, col: 21, offset: 90786},
 																								expr: &actionExpr{
-																									pos: position{line: 2883, col: 10, offset: 91286},
+																									pos: position{line: 2889, col: 10, offset: 91398},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2883, col: 10, offset: 91286},
+																										pos:        position{line: 2889, col: 10, offset: 91398},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22735,11 +22914,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2859, col: 28, offset: 90681},
+																								pos: position{line: 2865, col: 28, offset: 90793},
 																								expr: &notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -23134,10 +23313,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2862, col: 11, offset: 90801},
+																			pos: position{line: 2868, col: 11, offset: 90913},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2862, col: 11, offset: 90801},
+																				pos:        position{line: 2868, col: 11, offset: 90913},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23180,48 +23359,48 @@ var g = &grammar{
 									pos:   position{line: 1446, col: 13, offset: 46581},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2841, col: 13, offset: 90045},
+										pos: position{line: 2847, col: 13, offset: 90157},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2841, col: 13, offset: 90045},
+											pos: position{line: 2847, col: 13, offset: 90157},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2841, col: 13, offset: 90045},
+													pos:   position{line: 2847, col: 13, offset: 90157},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2841, col: 20, offset: 90052},
+														pos: position{line: 2847, col: 20, offset: 90164},
 														expr: &actionExpr{
-															pos: position{line: 2849, col: 11, offset: 90291},
+															pos: position{line: 2855, col: 11, offset: 90403},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2849, col: 12, offset: 90292},
+																pos: position{line: 2855, col: 12, offset: 90404},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2849, col: 12, offset: 90292},
+																		pos:        position{line: 2855, col: 12, offset: 90404},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2849, col: 24, offset: 90304},
+																		pos:        position{line: 2855, col: 24, offset: 90416},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2849, col: 37, offset: 90317},
+																		pos:        position{line: 2855, col: 37, offset: 90429},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2849, col: 48, offset: 90328},
+																		pos:        position{line: 2855, col: 48, offset: 90440},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2849, col: 59, offset: 90339},
+																		pos:        position{line: 2855, col: 59, offset: 90451},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23232,38 +23411,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2841, col: 30, offset: 90062},
+													pos:   position{line: 2847, col: 30, offset: 90174},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2854, col: 5, offset: 90403},
+														pos: position{line: 2860, col: 5, offset: 90515},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2854, col: 5, offset: 90403},
+															pos:   position{line: 2860, col: 5, offset: 90515},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2854, col: 14, offset: 90412},
+																pos: position{line: 2860, col: 14, offset: 90524},
 																expr: &choiceExpr{
-																	pos: position{line: 2855, col: 9, offset: 90422},
+																	pos: position{line: 2861, col: 9, offset: 90534},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2855, col: 9, offset: 90422},
+																			pos: position{line: 2861, col: 9, offset: 90534},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2855, col: 9, offset: 90422},
+																				pos: position{line: 2861, col: 9, offset: 90534},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2855, col: 9, offset: 90422},
+																						pos: position{line: 2861, col: 9, offset: 90534},
 																						expr: &litMatcher{
-																							pos:        position{line: 2855, col: 10, offset: 90423},
+																							pos:        position{line: 2861, col: 10, offset: 90535},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2856, col: 9, offset: 90451},
+																						pos: position{line: 2862, col: 9, offset: 90563},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2856, col: 10, offset: 90452},
+																							pos:        position{line: 2862, col: 10, offset: 90564},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23274,27 +23453,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2859, col: 11, offset: 90664},
+																			pos: position{line: 2865, col: 11, offset: 90776},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2859, col: 11, offset: 90664},
+																					pos:        position{line: 2865, col: 11, offset: 90776},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2859, col: 19, offset: 90672},
+																					pos: position{line: 2865, col: 19, offset: 90784},
 																					expr: &seqExpr{
-																						pos: position{line: 2859, col: 21, offset: 90674},
+																						pos: position{line: 2865, col: 21, offset: 90786},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2859, col: 21, offset: 90674},
+																								pos: position{line: 2865, col: 21, offset: 90786},
 																								expr: &actionExpr{
-																									pos: position{line: 2883, col: 10, offset: 91286},
+																									pos: position{line: 2889, col: 10, offset: 91398},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2883, col: 10, offset: 91286},
+																										pos:        position{line: 2889, col: 10, offset: 91398},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23303,11 +23482,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2859, col: 28, offset: 90681},
+																								pos: position{line: 2865, col: 28, offset: 90793},
 																								expr: &notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -23702,10 +23881,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2862, col: 11, offset: 90801},
+																			pos: position{line: 2868, col: 11, offset: 90913},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2862, col: 11, offset: 90801},
+																				pos:        position{line: 2868, col: 11, offset: 90913},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23757,55 +23936,55 @@ var g = &grammar{
 									pos:   position{line: 1453, col: 9, offset: 46890},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2845, col: 23, offset: 90172},
+										pos: position{line: 2851, col: 23, offset: 90284},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2845, col: 23, offset: 90172},
+											pos: position{line: 2851, col: 23, offset: 90284},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2845, col: 23, offset: 90172},
+													pos: position{line: 2851, col: 23, offset: 90284},
 													expr: &litMatcher{
-														pos:        position{line: 2845, col: 24, offset: 90173},
+														pos:        position{line: 2851, col: 24, offset: 90285},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2845, col: 28, offset: 90177},
+													pos:   position{line: 2851, col: 28, offset: 90289},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2849, col: 11, offset: 90291},
+														pos: position{line: 2855, col: 11, offset: 90403},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2849, col: 12, offset: 90292},
+															pos: position{line: 2855, col: 12, offset: 90404},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2849, col: 12, offset: 90292},
+																	pos:        position{line: 2855, col: 12, offset: 90404},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2849, col: 24, offset: 90304},
+																	pos:        position{line: 2855, col: 24, offset: 90416},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2849, col: 37, offset: 90317},
+																	pos:        position{line: 2855, col: 37, offset: 90429},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2849, col: 48, offset: 90328},
+																	pos:        position{line: 2855, col: 48, offset: 90440},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2849, col: 59, offset: 90339},
+																	pos:        position{line: 2855, col: 59, offset: 90451},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23815,38 +23994,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2845, col: 44, offset: 90193},
+													pos:   position{line: 2851, col: 44, offset: 90305},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2854, col: 5, offset: 90403},
+														pos: position{line: 2860, col: 5, offset: 90515},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2854, col: 5, offset: 90403},
+															pos:   position{line: 2860, col: 5, offset: 90515},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2854, col: 14, offset: 90412},
+																pos: position{line: 2860, col: 14, offset: 90524},
 																expr: &choiceExpr{
-																	pos: position{line: 2855, col: 9, offset: 90422},
+																	pos: position{line: 2861, col: 9, offset: 90534},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2855, col: 9, offset: 90422},
+																			pos: position{line: 2861, col: 9, offset: 90534},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2855, col: 9, offset: 90422},
+																				pos: position{line: 2861, col: 9, offset: 90534},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2855, col: 9, offset: 90422},
+																						pos: position{line: 2861, col: 9, offset: 90534},
 																						expr: &litMatcher{
-																							pos:        position{line: 2855, col: 10, offset: 90423},
+																							pos:        position{line: 2861, col: 10, offset: 90535},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2856, col: 9, offset: 90451},
+																						pos: position{line: 2862, col: 9, offset: 90563},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2856, col: 10, offset: 90452},
+																							pos:        position{line: 2862, col: 10, offset: 90564},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23857,27 +24036,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2859, col: 11, offset: 90664},
+																			pos: position{line: 2865, col: 11, offset: 90776},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2859, col: 11, offset: 90664},
+																					pos:        position{line: 2865, col: 11, offset: 90776},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2859, col: 19, offset: 90672},
+																					pos: position{line: 2865, col: 19, offset: 90784},
 																					expr: &seqExpr{
-																						pos: position{line: 2859, col: 21, offset: 90674},
+																						pos: position{line: 2865, col: 21, offset: 90786},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2859, col: 21, offset: 90674},
+																								pos: position{line: 2865, col: 21, offset: 90786},
 																								expr: &actionExpr{
-																									pos: position{line: 2883, col: 10, offset: 91286},
+																									pos: position{line: 2889, col: 10, offset: 91398},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2883, col: 10, offset: 91286},
+																										pos:        position{line: 2889, col: 10, offset: 91398},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23886,11 +24065,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2859, col: 28, offset: 90681},
+																								pos: position{line: 2865, col: 28, offset: 90793},
 																								expr: &notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -24285,10 +24464,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2862, col: 11, offset: 90801},
+																			pos: position{line: 2868, col: 11, offset: 90913},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2862, col: 11, offset: 90801},
+																				pos:        position{line: 2868, col: 11, offset: 90913},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24328,55 +24507,55 @@ var g = &grammar{
 									pos:   position{line: 1458, col: 5, offset: 47060},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2845, col: 23, offset: 90172},
+										pos: position{line: 2851, col: 23, offset: 90284},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2845, col: 23, offset: 90172},
+											pos: position{line: 2851, col: 23, offset: 90284},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2845, col: 23, offset: 90172},
+													pos: position{line: 2851, col: 23, offset: 90284},
 													expr: &litMatcher{
-														pos:        position{line: 2845, col: 24, offset: 90173},
+														pos:        position{line: 2851, col: 24, offset: 90285},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2845, col: 28, offset: 90177},
+													pos:   position{line: 2851, col: 28, offset: 90289},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2849, col: 11, offset: 90291},
+														pos: position{line: 2855, col: 11, offset: 90403},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2849, col: 12, offset: 90292},
+															pos: position{line: 2855, col: 12, offset: 90404},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2849, col: 12, offset: 90292},
+																	pos:        position{line: 2855, col: 12, offset: 90404},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2849, col: 24, offset: 90304},
+																	pos:        position{line: 2855, col: 24, offset: 90416},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2849, col: 37, offset: 90317},
+																	pos:        position{line: 2855, col: 37, offset: 90429},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2849, col: 48, offset: 90328},
+																	pos:        position{line: 2855, col: 48, offset: 90440},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2849, col: 59, offset: 90339},
+																	pos:        position{line: 2855, col: 59, offset: 90451},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24386,38 +24565,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2845, col: 44, offset: 90193},
+													pos:   position{line: 2851, col: 44, offset: 90305},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2854, col: 5, offset: 90403},
+														pos: position{line: 2860, col: 5, offset: 90515},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2854, col: 5, offset: 90403},
+															pos:   position{line: 2860, col: 5, offset: 90515},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2854, col: 14, offset: 90412},
+																pos: position{line: 2860, col: 14, offset: 90524},
 																expr: &choiceExpr{
-																	pos: position{line: 2855, col: 9, offset: 90422},
+																	pos: position{line: 2861, col: 9, offset: 90534},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2855, col: 9, offset: 90422},
+																			pos: position{line: 2861, col: 9, offset: 90534},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2855, col: 9, offset: 90422},
+																				pos: position{line: 2861, col: 9, offset: 90534},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2855, col: 9, offset: 90422},
+																						pos: position{line: 2861, col: 9, offset: 90534},
 																						expr: &litMatcher{
-																							pos:        position{line: 2855, col: 10, offset: 90423},
+																							pos:        position{line: 2861, col: 10, offset: 90535},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2856, col: 9, offset: 90451},
+																						pos: position{line: 2862, col: 9, offset: 90563},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2856, col: 10, offset: 90452},
+																							pos:        position{line: 2862, col: 10, offset: 90564},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24428,27 +24607,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2859, col: 11, offset: 90664},
+																			pos: position{line: 2865, col: 11, offset: 90776},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2859, col: 11, offset: 90664},
+																					pos:        position{line: 2865, col: 11, offset: 90776},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2859, col: 19, offset: 90672},
+																					pos: position{line: 2865, col: 19, offset: 90784},
 																					expr: &seqExpr{
-																						pos: position{line: 2859, col: 21, offset: 90674},
+																						pos: position{line: 2865, col: 21, offset: 90786},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2859, col: 21, offset: 90674},
+																								pos: position{line: 2865, col: 21, offset: 90786},
 																								expr: &actionExpr{
-																									pos: position{line: 2883, col: 10, offset: 91286},
+																									pos: position{line: 2889, col: 10, offset: 91398},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2883, col: 10, offset: 91286},
+																										pos:        position{line: 2889, col: 10, offset: 91398},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24457,11 +24636,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2859, col: 28, offset: 90681},
+																								pos: position{line: 2865, col: 28, offset: 90793},
 																								expr: &notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -24856,10 +25035,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2862, col: 11, offset: 90801},
+																			pos: position{line: 2868, col: 11, offset: 90913},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2862, col: 11, offset: 90801},
+																				pos:        position{line: 2868, col: 11, offset: 90913},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24925,10 +25104,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1599, col: 5, offset: 51603},
 																	expr: &actionExpr{
-																		pos: position{line: 2883, col: 10, offset: 91286},
+																		pos: position{line: 2889, col: 10, offset: 91398},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91286},
+																			pos:        position{line: 2889, col: 10, offset: 91398},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25095,12 +25274,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2887, col: 11, offset: 91347},
+																	pos: position{line: 2893, col: 11, offset: 91459},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2887, col: 11, offset: 91347},
+																		pos: position{line: 2893, col: 11, offset: 91459},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2887, col: 11, offset: 91347},
+																			pos:        position{line: 2893, col: 11, offset: 91459},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25143,28 +25322,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
+																			pos: position{line: 2898, col: 12, offset: 91569},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25173,9 +25352,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -25205,10 +25384,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1649, col: 5, offset: 53565},
 																	expr: &actionExpr{
-																		pos: position{line: 2883, col: 10, offset: 91286},
+																		pos: position{line: 2889, col: 10, offset: 91398},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91286},
+																			pos:        position{line: 2889, col: 10, offset: 91398},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25249,12 +25428,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2887, col: 11, offset: 91347},
+																	pos: position{line: 2893, col: 11, offset: 91459},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2887, col: 11, offset: 91347},
+																		pos: position{line: 2893, col: 11, offset: 91459},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2887, col: 11, offset: 91347},
+																			pos:        position{line: 2893, col: 11, offset: 91459},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25326,12 +25505,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2887, col: 11, offset: 91347},
+																		pos: position{line: 2893, col: 11, offset: 91459},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2887, col: 11, offset: 91347},
+																			pos: position{line: 2893, col: 11, offset: 91459},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2887, col: 11, offset: 91347},
+																				pos:        position{line: 2893, col: 11, offset: 91459},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25375,28 +25554,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
+																			pos: position{line: 2898, col: 12, offset: 91569},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25405,9 +25584,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -25465,12 +25644,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2887, col: 11, offset: 91347},
+																	pos: position{line: 2893, col: 11, offset: 91459},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2887, col: 11, offset: 91347},
+																		pos: position{line: 2893, col: 11, offset: 91459},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2887, col: 11, offset: 91347},
+																			pos:        position{line: 2893, col: 11, offset: 91459},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25513,28 +25692,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
+																			pos: position{line: 2898, col: 12, offset: 91569},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25543,9 +25722,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -25636,28 +25815,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1685, col: 35, offset: 54646},
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 8, offset: 91684},
+																					pos: position{line: 2911, col: 8, offset: 91796},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2892, col: 12, offset: 91457},
+																							pos: position{line: 2898, col: 12, offset: 91569},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2892, col: 13, offset: 91458},
+																								pos: position{line: 2898, col: 13, offset: 91570},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91458},
+																										pos:        position{line: 2898, col: 13, offset: 91570},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 20, offset: 91465},
+																										pos:        position{line: 2898, col: 20, offset: 91577},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 29, offset: 91474},
+																										pos:        position{line: 2898, col: 29, offset: 91586},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25666,9 +25845,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2902, col: 8, offset: 91634},
+																							pos: position{line: 2908, col: 8, offset: 91746},
 																							expr: &anyMatcher{
-																								line: 2902, col: 9, offset: 91635,
+																								line: 2908, col: 9, offset: 91747,
 																							},
 																						},
 																					},
@@ -25733,10 +25912,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1703, col: 9, offset: 55151},
 																			expr: &actionExpr{
-																				pos: position{line: 2883, col: 10, offset: 91286},
+																				pos: position{line: 2889, col: 10, offset: 91398},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2883, col: 10, offset: 91286},
+																					pos:        position{line: 2889, col: 10, offset: 91398},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25745,28 +25924,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2905, col: 8, offset: 91684},
+																			pos: position{line: 2911, col: 8, offset: 91796},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2892, col: 12, offset: 91457},
+																					pos: position{line: 2898, col: 12, offset: 91569},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2892, col: 13, offset: 91458},
+																						pos: position{line: 2898, col: 13, offset: 91570},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 13, offset: 91458},
+																								pos:        position{line: 2898, col: 13, offset: 91570},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 20, offset: 91465},
+																								pos:        position{line: 2898, col: 20, offset: 91577},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 29, offset: 91474},
+																								pos:        position{line: 2898, col: 29, offset: 91586},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25775,9 +25954,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -25791,18 +25970,18 @@ var g = &grammar{
 																					pos: position{line: 687, col: 14, offset: 21835},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2900, col: 11, offset: 91620},
+																							pos: position{line: 2906, col: 11, offset: 91732},
 																							expr: &anyMatcher{
-																								line: 2900, col: 13, offset: 91622,
+																								line: 2906, col: 13, offset: 91734,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 687, col: 21, offset: 21842},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25811,28 +25990,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -25841,9 +26020,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -25862,12 +26041,12 @@ var g = &grammar{
 																	pos: position{line: 1710, col: 9, offset: 55299},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 11, offset: 91347},
+																			pos: position{line: 2893, col: 11, offset: 91459},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2887, col: 11, offset: 91347},
+																				pos: position{line: 2893, col: 11, offset: 91459},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2887, col: 11, offset: 91347},
+																					pos:        position{line: 2893, col: 11, offset: 91459},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25894,28 +26073,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2905, col: 8, offset: 91684},
+																			pos: position{line: 2911, col: 8, offset: 91796},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2892, col: 12, offset: 91457},
+																					pos: position{line: 2898, col: 12, offset: 91569},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2892, col: 13, offset: 91458},
+																						pos: position{line: 2898, col: 13, offset: 91570},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 13, offset: 91458},
+																								pos:        position{line: 2898, col: 13, offset: 91570},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 20, offset: 91465},
+																								pos:        position{line: 2898, col: 20, offset: 91577},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 29, offset: 91474},
+																								pos:        position{line: 2898, col: 29, offset: 91586},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25924,9 +26103,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -25984,9 +26163,9 @@ var g = &grammar{
 					pos: position{line: 1509, col: 5, offset: 48810},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2900, col: 11, offset: 91620},
+							pos: position{line: 2906, col: 11, offset: 91732},
 							expr: &anyMatcher{
-								line: 2900, col: 13, offset: 91622,
+								line: 2906, col: 13, offset: 91734,
 							},
 						},
 						&labeledExpr{
@@ -26010,18 +26189,18 @@ var g = &grammar{
 															pos: position{line: 687, col: 14, offset: 21835},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2900, col: 11, offset: 91620},
+																	pos: position{line: 2906, col: 11, offset: 91732},
 																	expr: &anyMatcher{
-																		line: 2900, col: 13, offset: 91622,
+																		line: 2906, col: 13, offset: 91734,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 687, col: 21, offset: 21842},
 																	expr: &actionExpr{
-																		pos: position{line: 2883, col: 10, offset: 91286},
+																		pos: position{line: 2889, col: 10, offset: 91398},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91286},
+																			pos:        position{line: 2889, col: 10, offset: 91398},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26030,28 +26209,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
+																			pos: position{line: 2898, col: 12, offset: 91569},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26060,9 +26239,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -26095,10 +26274,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1599, col: 5, offset: 51603},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26265,12 +26444,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2887, col: 11, offset: 91347},
+																							pos: position{line: 2893, col: 11, offset: 91459},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2887, col: 11, offset: 91347},
+																								pos: position{line: 2893, col: 11, offset: 91459},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2887, col: 11, offset: 91347},
+																									pos:        position{line: 2893, col: 11, offset: 91459},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26313,28 +26492,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26343,9 +26522,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -26375,10 +26554,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1649, col: 5, offset: 53565},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26419,12 +26598,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2887, col: 11, offset: 91347},
+																							pos: position{line: 2893, col: 11, offset: 91459},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2887, col: 11, offset: 91347},
+																								pos: position{line: 2893, col: 11, offset: 91459},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2887, col: 11, offset: 91347},
+																									pos:        position{line: 2893, col: 11, offset: 91459},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26496,12 +26675,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2887, col: 11, offset: 91347},
+																								pos: position{line: 2893, col: 11, offset: 91459},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2887, col: 11, offset: 91347},
+																									pos: position{line: 2893, col: 11, offset: 91459},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2887, col: 11, offset: 91347},
+																										pos:        position{line: 2893, col: 11, offset: 91459},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26545,28 +26724,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26575,9 +26754,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -26635,12 +26814,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2887, col: 11, offset: 91347},
+																							pos: position{line: 2893, col: 11, offset: 91459},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2887, col: 11, offset: 91347},
+																								pos: position{line: 2893, col: 11, offset: 91459},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2887, col: 11, offset: 91347},
+																									pos:        position{line: 2893, col: 11, offset: 91459},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26683,28 +26862,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26713,9 +26892,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -26806,28 +26985,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1685, col: 35, offset: 54646},
 																										expr: &choiceExpr{
-																											pos: position{line: 2905, col: 8, offset: 91684},
+																											pos: position{line: 2911, col: 8, offset: 91796},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2892, col: 12, offset: 91457},
+																													pos: position{line: 2898, col: 12, offset: 91569},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2892, col: 13, offset: 91458},
+																														pos: position{line: 2898, col: 13, offset: 91570},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 13, offset: 91458},
+																																pos:        position{line: 2898, col: 13, offset: 91570},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 20, offset: 91465},
+																																pos:        position{line: 2898, col: 20, offset: 91577},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 29, offset: 91474},
+																																pos:        position{line: 2898, col: 29, offset: 91586},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -26836,9 +27015,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2902, col: 8, offset: 91634},
+																													pos: position{line: 2908, col: 8, offset: 91746},
 																													expr: &anyMatcher{
-																														line: 2902, col: 9, offset: 91635,
+																														line: 2908, col: 9, offset: 91747,
 																													},
 																												},
 																											},
@@ -26903,10 +27082,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1703, col: 9, offset: 55151},
 																									expr: &actionExpr{
-																										pos: position{line: 2883, col: 10, offset: 91286},
+																										pos: position{line: 2889, col: 10, offset: 91398},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2883, col: 10, offset: 91286},
+																											pos:        position{line: 2889, col: 10, offset: 91398},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -26915,28 +27094,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2905, col: 8, offset: 91684},
+																									pos: position{line: 2911, col: 8, offset: 91796},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2892, col: 12, offset: 91457},
+																											pos: position{line: 2898, col: 12, offset: 91569},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2892, col: 13, offset: 91458},
+																												pos: position{line: 2898, col: 13, offset: 91570},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2892, col: 13, offset: 91458},
+																														pos:        position{line: 2898, col: 13, offset: 91570},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2892, col: 20, offset: 91465},
+																														pos:        position{line: 2898, col: 20, offset: 91577},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2892, col: 29, offset: 91474},
+																														pos:        position{line: 2898, col: 29, offset: 91586},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -26945,9 +27124,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2902, col: 8, offset: 91634},
+																											pos: position{line: 2908, col: 8, offset: 91746},
 																											expr: &anyMatcher{
-																												line: 2902, col: 9, offset: 91635,
+																												line: 2908, col: 9, offset: 91747,
 																											},
 																										},
 																									},
@@ -26961,18 +27140,18 @@ var g = &grammar{
 																											pos: position{line: 687, col: 14, offset: 21835},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2900, col: 11, offset: 91620},
+																													pos: position{line: 2906, col: 11, offset: 91732},
 																													expr: &anyMatcher{
-																														line: 2900, col: 13, offset: 91622,
+																														line: 2906, col: 13, offset: 91734,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 687, col: 21, offset: 21842},
 																													expr: &actionExpr{
-																														pos: position{line: 2883, col: 10, offset: 91286},
+																														pos: position{line: 2889, col: 10, offset: 91398},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2883, col: 10, offset: 91286},
+																															pos:        position{line: 2889, col: 10, offset: 91398},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -26981,28 +27160,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2905, col: 8, offset: 91684},
+																													pos: position{line: 2911, col: 8, offset: 91796},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2892, col: 12, offset: 91457},
+																															pos: position{line: 2898, col: 12, offset: 91569},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2892, col: 13, offset: 91458},
+																																pos: position{line: 2898, col: 13, offset: 91570},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2892, col: 13, offset: 91458},
+																																		pos:        position{line: 2898, col: 13, offset: 91570},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2892, col: 20, offset: 91465},
+																																		pos:        position{line: 2898, col: 20, offset: 91577},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2892, col: 29, offset: 91474},
+																																		pos:        position{line: 2898, col: 29, offset: 91586},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27011,9 +27190,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2902, col: 8, offset: 91634},
+																															pos: position{line: 2908, col: 8, offset: 91746},
 																															expr: &anyMatcher{
-																																line: 2902, col: 9, offset: 91635,
+																																line: 2908, col: 9, offset: 91747,
 																															},
 																														},
 																													},
@@ -27032,12 +27211,12 @@ var g = &grammar{
 																							pos: position{line: 1710, col: 9, offset: 55299},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 11, offset: 91347},
+																									pos: position{line: 2893, col: 11, offset: 91459},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2887, col: 11, offset: 91347},
+																										pos: position{line: 2893, col: 11, offset: 91459},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2887, col: 11, offset: 91347},
+																											pos:        position{line: 2893, col: 11, offset: 91459},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27064,28 +27243,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2905, col: 8, offset: 91684},
+																									pos: position{line: 2911, col: 8, offset: 91796},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2892, col: 12, offset: 91457},
+																											pos: position{line: 2898, col: 12, offset: 91569},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2892, col: 13, offset: 91458},
+																												pos: position{line: 2898, col: 13, offset: 91570},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2892, col: 13, offset: 91458},
+																														pos:        position{line: 2898, col: 13, offset: 91570},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2892, col: 20, offset: 91465},
+																														pos:        position{line: 2898, col: 20, offset: 91577},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2892, col: 29, offset: 91474},
+																														pos:        position{line: 2898, col: 29, offset: 91586},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27094,9 +27273,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2902, col: 8, offset: 91634},
+																											pos: position{line: 2908, col: 8, offset: 91746},
 																											expr: &anyMatcher{
-																												line: 2902, col: 9, offset: 91635,
+																												line: 2908, col: 9, offset: 91747,
 																											},
 																										},
 																									},
@@ -27157,10 +27336,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1599, col: 5, offset: 51603},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27327,12 +27506,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2887, col: 11, offset: 91347},
+																							pos: position{line: 2893, col: 11, offset: 91459},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2887, col: 11, offset: 91347},
+																								pos: position{line: 2893, col: 11, offset: 91459},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2887, col: 11, offset: 91347},
+																									pos:        position{line: 2893, col: 11, offset: 91459},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27375,28 +27554,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27405,9 +27584,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -27437,10 +27616,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1649, col: 5, offset: 53565},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27481,12 +27660,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2887, col: 11, offset: 91347},
+																							pos: position{line: 2893, col: 11, offset: 91459},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2887, col: 11, offset: 91347},
+																								pos: position{line: 2893, col: 11, offset: 91459},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2887, col: 11, offset: 91347},
+																									pos:        position{line: 2893, col: 11, offset: 91459},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27558,12 +27737,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2887, col: 11, offset: 91347},
+																								pos: position{line: 2893, col: 11, offset: 91459},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2887, col: 11, offset: 91347},
+																									pos: position{line: 2893, col: 11, offset: 91459},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2887, col: 11, offset: 91347},
+																										pos:        position{line: 2893, col: 11, offset: 91459},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27607,28 +27786,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27637,9 +27816,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -27697,12 +27876,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2887, col: 11, offset: 91347},
+																							pos: position{line: 2893, col: 11, offset: 91459},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2887, col: 11, offset: 91347},
+																								pos: position{line: 2893, col: 11, offset: 91459},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2887, col: 11, offset: 91347},
+																									pos:        position{line: 2893, col: 11, offset: 91459},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27745,28 +27924,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27775,9 +27954,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -27868,28 +28047,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1685, col: 35, offset: 54646},
 																										expr: &choiceExpr{
-																											pos: position{line: 2905, col: 8, offset: 91684},
+																											pos: position{line: 2911, col: 8, offset: 91796},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2892, col: 12, offset: 91457},
+																													pos: position{line: 2898, col: 12, offset: 91569},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2892, col: 13, offset: 91458},
+																														pos: position{line: 2898, col: 13, offset: 91570},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 13, offset: 91458},
+																																pos:        position{line: 2898, col: 13, offset: 91570},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 20, offset: 91465},
+																																pos:        position{line: 2898, col: 20, offset: 91577},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 29, offset: 91474},
+																																pos:        position{line: 2898, col: 29, offset: 91586},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27898,9 +28077,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2902, col: 8, offset: 91634},
+																													pos: position{line: 2908, col: 8, offset: 91746},
 																													expr: &anyMatcher{
-																														line: 2902, col: 9, offset: 91635,
+																														line: 2908, col: 9, offset: 91747,
 																													},
 																												},
 																											},
@@ -27965,10 +28144,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1703, col: 9, offset: 55151},
 																									expr: &actionExpr{
-																										pos: position{line: 2883, col: 10, offset: 91286},
+																										pos: position{line: 2889, col: 10, offset: 91398},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2883, col: 10, offset: 91286},
+																											pos:        position{line: 2889, col: 10, offset: 91398},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27977,28 +28156,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2905, col: 8, offset: 91684},
+																									pos: position{line: 2911, col: 8, offset: 91796},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2892, col: 12, offset: 91457},
+																											pos: position{line: 2898, col: 12, offset: 91569},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2892, col: 13, offset: 91458},
+																												pos: position{line: 2898, col: 13, offset: 91570},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2892, col: 13, offset: 91458},
+																														pos:        position{line: 2898, col: 13, offset: 91570},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2892, col: 20, offset: 91465},
+																														pos:        position{line: 2898, col: 20, offset: 91577},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2892, col: 29, offset: 91474},
+																														pos:        position{line: 2898, col: 29, offset: 91586},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28007,9 +28186,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2902, col: 8, offset: 91634},
+																											pos: position{line: 2908, col: 8, offset: 91746},
 																											expr: &anyMatcher{
-																												line: 2902, col: 9, offset: 91635,
+																												line: 2908, col: 9, offset: 91747,
 																											},
 																										},
 																									},
@@ -28023,18 +28202,18 @@ var g = &grammar{
 																											pos: position{line: 687, col: 14, offset: 21835},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2900, col: 11, offset: 91620},
+																													pos: position{line: 2906, col: 11, offset: 91732},
 																													expr: &anyMatcher{
-																														line: 2900, col: 13, offset: 91622,
+																														line: 2906, col: 13, offset: 91734,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 687, col: 21, offset: 21842},
 																													expr: &actionExpr{
-																														pos: position{line: 2883, col: 10, offset: 91286},
+																														pos: position{line: 2889, col: 10, offset: 91398},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2883, col: 10, offset: 91286},
+																															pos:        position{line: 2889, col: 10, offset: 91398},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -28043,28 +28222,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2905, col: 8, offset: 91684},
+																													pos: position{line: 2911, col: 8, offset: 91796},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2892, col: 12, offset: 91457},
+																															pos: position{line: 2898, col: 12, offset: 91569},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2892, col: 13, offset: 91458},
+																																pos: position{line: 2898, col: 13, offset: 91570},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2892, col: 13, offset: 91458},
+																																		pos:        position{line: 2898, col: 13, offset: 91570},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2892, col: 20, offset: 91465},
+																																		pos:        position{line: 2898, col: 20, offset: 91577},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2892, col: 29, offset: 91474},
+																																		pos:        position{line: 2898, col: 29, offset: 91586},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28073,9 +28252,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2902, col: 8, offset: 91634},
+																															pos: position{line: 2908, col: 8, offset: 91746},
 																															expr: &anyMatcher{
-																																line: 2902, col: 9, offset: 91635,
+																																line: 2908, col: 9, offset: 91747,
 																															},
 																														},
 																													},
@@ -28094,12 +28273,12 @@ var g = &grammar{
 																							pos: position{line: 1710, col: 9, offset: 55299},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 11, offset: 91347},
+																									pos: position{line: 2893, col: 11, offset: 91459},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2887, col: 11, offset: 91347},
+																										pos: position{line: 2893, col: 11, offset: 91459},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2887, col: 11, offset: 91347},
+																											pos:        position{line: 2893, col: 11, offset: 91459},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28126,28 +28305,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2905, col: 8, offset: 91684},
+																									pos: position{line: 2911, col: 8, offset: 91796},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2892, col: 12, offset: 91457},
+																											pos: position{line: 2898, col: 12, offset: 91569},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2892, col: 13, offset: 91458},
+																												pos: position{line: 2898, col: 13, offset: 91570},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2892, col: 13, offset: 91458},
+																														pos:        position{line: 2898, col: 13, offset: 91570},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2892, col: 20, offset: 91465},
+																														pos:        position{line: 2898, col: 20, offset: 91577},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2892, col: 29, offset: 91474},
+																														pos:        position{line: 2898, col: 29, offset: 91586},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28156,9 +28335,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2902, col: 8, offset: 91634},
+																											pos: position{line: 2908, col: 8, offset: 91746},
 																											expr: &anyMatcher{
-																												line: 2902, col: 9, offset: 91635,
+																												line: 2908, col: 9, offset: 91747,
 																											},
 																										},
 																									},
@@ -28207,12 +28386,12 @@ var g = &grammar{
 													pos:   position{line: 2493, col: 49, offset: 80256},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2829, col: 13, offset: 89812},
+														pos: position{line: 2835, col: 13, offset: 89924},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2829, col: 13, offset: 89812},
+															pos: position{line: 2835, col: 13, offset: 89924},
 															expr: &charClassMatcher{
-																pos:        position{line: 2829, col: 13, offset: 89812},
+																pos:        position{line: 2835, col: 13, offset: 89924},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28222,28 +28401,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2905, col: 8, offset: 91684},
+													pos: position{line: 2911, col: 8, offset: 91796},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2892, col: 12, offset: 91457},
+															pos: position{line: 2898, col: 12, offset: 91569},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2892, col: 13, offset: 91458},
+																pos: position{line: 2898, col: 13, offset: 91570},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 13, offset: 91458},
+																		pos:        position{line: 2898, col: 13, offset: 91570},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 20, offset: 91465},
+																		pos:        position{line: 2898, col: 20, offset: 91577},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 29, offset: 91474},
+																		pos:        position{line: 2898, col: 29, offset: 91586},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28252,9 +28431,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2902, col: 8, offset: 91634},
+															pos: position{line: 2908, col: 8, offset: 91746},
 															expr: &anyMatcher{
-																line: 2902, col: 9, offset: 91635,
+																line: 2908, col: 9, offset: 91747,
 															},
 														},
 													},
@@ -28277,18 +28456,18 @@ var g = &grammar{
 															pos: position{line: 687, col: 14, offset: 21835},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2900, col: 11, offset: 91620},
+																	pos: position{line: 2906, col: 11, offset: 91732},
 																	expr: &anyMatcher{
-																		line: 2900, col: 13, offset: 91622,
+																		line: 2906, col: 13, offset: 91734,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 687, col: 21, offset: 21842},
 																	expr: &actionExpr{
-																		pos: position{line: 2883, col: 10, offset: 91286},
+																		pos: position{line: 2889, col: 10, offset: 91398},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91286},
+																			pos:        position{line: 2889, col: 10, offset: 91398},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28297,28 +28476,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
+																			pos: position{line: 2898, col: 12, offset: 91569},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28327,9 +28506,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -28352,10 +28531,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1558, col: 31, offset: 50388},
 																expr: &actionExpr{
-																	pos: position{line: 2883, col: 10, offset: 91286},
+																	pos: position{line: 2889, col: 10, offset: 91398},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2883, col: 10, offset: 91286},
+																		pos:        position{line: 2889, col: 10, offset: 91398},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28364,25 +28543,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2892, col: 12, offset: 91457},
+																pos: position{line: 2898, col: 12, offset: 91569},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2892, col: 13, offset: 91458},
+																	pos: position{line: 2898, col: 13, offset: 91570},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 13, offset: 91458},
+																			pos:        position{line: 2898, col: 13, offset: 91570},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 20, offset: 91465},
+																			pos:        position{line: 2898, col: 20, offset: 91577},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2892, col: 29, offset: 91474},
+																			pos:        position{line: 2898, col: 29, offset: 91586},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28404,10 +28583,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1599, col: 5, offset: 51603},
 																	expr: &actionExpr{
-																		pos: position{line: 2883, col: 10, offset: 91286},
+																		pos: position{line: 2889, col: 10, offset: 91398},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91286},
+																			pos:        position{line: 2889, col: 10, offset: 91398},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28574,12 +28753,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2887, col: 11, offset: 91347},
+																	pos: position{line: 2893, col: 11, offset: 91459},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2887, col: 11, offset: 91347},
+																		pos: position{line: 2893, col: 11, offset: 91459},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2887, col: 11, offset: 91347},
+																			pos:        position{line: 2893, col: 11, offset: 91459},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28602,10 +28781,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1649, col: 5, offset: 53565},
 																	expr: &actionExpr{
-																		pos: position{line: 2883, col: 10, offset: 91286},
+																		pos: position{line: 2889, col: 10, offset: 91398},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91286},
+																			pos:        position{line: 2889, col: 10, offset: 91398},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28646,12 +28825,12 @@ var g = &grammar{
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2887, col: 11, offset: 91347},
+																	pos: position{line: 2893, col: 11, offset: 91459},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2887, col: 11, offset: 91347},
+																		pos: position{line: 2893, col: 11, offset: 91459},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2887, col: 11, offset: 91347},
+																			pos:        position{line: 2893, col: 11, offset: 91459},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28702,12 +28881,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2887, col: 11, offset: 91347},
+																	pos: position{line: 2893, col: 11, offset: 91459},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2887, col: 11, offset: 91347},
+																		pos: position{line: 2893, col: 11, offset: 91459},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2887, col: 11, offset: 91347},
+																			pos:        position{line: 2893, col: 11, offset: 91459},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28794,28 +28973,28 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1685, col: 35, offset: 54646},
 																						expr: &choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28824,9 +29003,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -28885,7 +29064,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 734, col: 5, offset: 23388},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2773, col: 13, offset: 88381},
+																		pos:        position{line: 2779, col: 13, offset: 88493},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -28935,10 +29114,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 752, col: 8, offset: 24032},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -28947,28 +29126,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -28977,9 +29156,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -29024,10 +29203,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 759, col: 8, offset: 24280},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29036,28 +29215,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29066,9 +29245,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -29109,10 +29288,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 770, col: 52, offset: 24692},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29121,28 +29300,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29151,9 +29330,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -29198,10 +29377,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 766, col: 8, offset: 24526},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29210,28 +29389,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29240,9 +29419,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -29287,10 +29466,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 781, col: 8, offset: 25064},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29299,28 +29478,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29329,9 +29508,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -29376,10 +29555,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 795, col: 8, offset: 25540},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29388,28 +29567,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29418,9 +29597,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -29465,10 +29644,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 802, col: 8, offset: 25792},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29477,28 +29656,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29507,9 +29686,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -29554,10 +29733,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 809, col: 8, offset: 26042},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29566,28 +29745,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29596,9 +29775,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -29643,10 +29822,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 816, col: 8, offset: 26288},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29655,28 +29834,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29685,9 +29864,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -29706,12 +29885,12 @@ var g = &grammar{
 													pos:   position{line: 1534, col: 5, offset: 49756},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2833, col: 14, offset: 89879},
+														pos: position{line: 2839, col: 14, offset: 89991},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2833, col: 14, offset: 89879},
+															pos: position{line: 2839, col: 14, offset: 89991},
 															expr: &charClassMatcher{
-																pos:        position{line: 2833, col: 14, offset: 89879},
+																pos:        position{line: 2839, col: 14, offset: 89991},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29721,28 +29900,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2905, col: 8, offset: 91684},
+													pos: position{line: 2911, col: 8, offset: 91796},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2892, col: 12, offset: 91457},
+															pos: position{line: 2898, col: 12, offset: 91569},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2892, col: 13, offset: 91458},
+																pos: position{line: 2898, col: 13, offset: 91570},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 13, offset: 91458},
+																		pos:        position{line: 2898, col: 13, offset: 91570},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 20, offset: 91465},
+																		pos:        position{line: 2898, col: 20, offset: 91577},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 29, offset: 91474},
+																		pos:        position{line: 2898, col: 29, offset: 91586},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29751,9 +29930,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2902, col: 8, offset: 91634},
+															pos: position{line: 2908, col: 8, offset: 91746},
 															expr: &anyMatcher{
-																line: 2902, col: 9, offset: 91635,
+																line: 2908, col: 9, offset: 91747,
 															},
 														},
 													},
@@ -29788,10 +29967,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1551, col: 13, offset: 50180},
 											expr: &actionExpr{
-												pos: position{line: 2883, col: 10, offset: 91286},
+												pos: position{line: 2889, col: 10, offset: 91398},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2883, col: 10, offset: 91286},
+													pos:        position{line: 2889, col: 10, offset: 91398},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29800,25 +29979,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2892, col: 12, offset: 91457},
+											pos: position{line: 2898, col: 12, offset: 91569},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2892, col: 13, offset: 91458},
+												pos: position{line: 2898, col: 13, offset: 91570},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2892, col: 13, offset: 91458},
+														pos:        position{line: 2898, col: 13, offset: 91570},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2892, col: 20, offset: 91465},
+														pos:        position{line: 2898, col: 20, offset: 91577},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2892, col: 29, offset: 91474},
+														pos:        position{line: 2898, col: 29, offset: 91586},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -29839,10 +30018,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1558, col: 31, offset: 50388},
 							expr: &actionExpr{
-								pos: position{line: 2883, col: 10, offset: 91286},
+								pos: position{line: 2889, col: 10, offset: 91398},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2883, col: 10, offset: 91286},
+									pos:        position{line: 2889, col: 10, offset: 91398},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -29851,25 +30030,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2892, col: 12, offset: 91457},
+							pos: position{line: 2898, col: 12, offset: 91569},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2892, col: 13, offset: 91458},
+								pos: position{line: 2898, col: 13, offset: 91570},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2892, col: 13, offset: 91458},
+										pos:        position{line: 2898, col: 13, offset: 91570},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2892, col: 20, offset: 91465},
+										pos:        position{line: 2898, col: 20, offset: 91577},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2892, col: 29, offset: 91474},
+										pos:        position{line: 2898, col: 29, offset: 91586},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -29902,9 +30081,9 @@ var g = &grammar{
 					pos: position{line: 1561, col: 5, offset: 50475},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2900, col: 11, offset: 91620},
+							pos: position{line: 2906, col: 11, offset: 91732},
 							expr: &anyMatcher{
-								line: 2900, col: 13, offset: 91622,
+								line: 2906, col: 13, offset: 91734,
 							},
 						},
 						&notExpr{
@@ -29930,10 +30109,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1599, col: 5, offset: 51603},
 																	expr: &actionExpr{
-																		pos: position{line: 2883, col: 10, offset: 91286},
+																		pos: position{line: 2889, col: 10, offset: 91398},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91286},
+																			pos:        position{line: 2889, col: 10, offset: 91398},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30100,12 +30279,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2887, col: 11, offset: 91347},
+																	pos: position{line: 2893, col: 11, offset: 91459},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2887, col: 11, offset: 91347},
+																		pos: position{line: 2893, col: 11, offset: 91459},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2887, col: 11, offset: 91347},
+																			pos:        position{line: 2893, col: 11, offset: 91459},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30148,28 +30327,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
+																			pos: position{line: 2898, col: 12, offset: 91569},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30178,9 +30357,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -30210,10 +30389,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1649, col: 5, offset: 53565},
 																	expr: &actionExpr{
-																		pos: position{line: 2883, col: 10, offset: 91286},
+																		pos: position{line: 2889, col: 10, offset: 91398},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91286},
+																			pos:        position{line: 2889, col: 10, offset: 91398},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30254,12 +30433,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2887, col: 11, offset: 91347},
+																	pos: position{line: 2893, col: 11, offset: 91459},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2887, col: 11, offset: 91347},
+																		pos: position{line: 2893, col: 11, offset: 91459},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2887, col: 11, offset: 91347},
+																			pos:        position{line: 2893, col: 11, offset: 91459},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30331,12 +30510,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2887, col: 11, offset: 91347},
+																		pos: position{line: 2893, col: 11, offset: 91459},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2887, col: 11, offset: 91347},
+																			pos: position{line: 2893, col: 11, offset: 91459},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2887, col: 11, offset: 91347},
+																				pos:        position{line: 2893, col: 11, offset: 91459},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30380,28 +30559,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
+																			pos: position{line: 2898, col: 12, offset: 91569},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30410,9 +30589,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -30470,12 +30649,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2887, col: 11, offset: 91347},
+																	pos: position{line: 2893, col: 11, offset: 91459},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2887, col: 11, offset: 91347},
+																		pos: position{line: 2893, col: 11, offset: 91459},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2887, col: 11, offset: 91347},
+																			pos:        position{line: 2893, col: 11, offset: 91459},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30518,28 +30697,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
+																			pos: position{line: 2898, col: 12, offset: 91569},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30548,9 +30727,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -30641,28 +30820,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1685, col: 35, offset: 54646},
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 8, offset: 91684},
+																					pos: position{line: 2911, col: 8, offset: 91796},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2892, col: 12, offset: 91457},
+																							pos: position{line: 2898, col: 12, offset: 91569},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2892, col: 13, offset: 91458},
+																								pos: position{line: 2898, col: 13, offset: 91570},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91458},
+																										pos:        position{line: 2898, col: 13, offset: 91570},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 20, offset: 91465},
+																										pos:        position{line: 2898, col: 20, offset: 91577},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 29, offset: 91474},
+																										pos:        position{line: 2898, col: 29, offset: 91586},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30671,9 +30850,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2902, col: 8, offset: 91634},
+																							pos: position{line: 2908, col: 8, offset: 91746},
 																							expr: &anyMatcher{
-																								line: 2902, col: 9, offset: 91635,
+																								line: 2908, col: 9, offset: 91747,
 																							},
 																						},
 																					},
@@ -30738,10 +30917,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1703, col: 9, offset: 55151},
 																			expr: &actionExpr{
-																				pos: position{line: 2883, col: 10, offset: 91286},
+																				pos: position{line: 2889, col: 10, offset: 91398},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2883, col: 10, offset: 91286},
+																					pos:        position{line: 2889, col: 10, offset: 91398},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30750,28 +30929,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2905, col: 8, offset: 91684},
+																			pos: position{line: 2911, col: 8, offset: 91796},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2892, col: 12, offset: 91457},
+																					pos: position{line: 2898, col: 12, offset: 91569},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2892, col: 13, offset: 91458},
+																						pos: position{line: 2898, col: 13, offset: 91570},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 13, offset: 91458},
+																								pos:        position{line: 2898, col: 13, offset: 91570},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 20, offset: 91465},
+																								pos:        position{line: 2898, col: 20, offset: 91577},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 29, offset: 91474},
+																								pos:        position{line: 2898, col: 29, offset: 91586},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30780,9 +30959,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -30796,18 +30975,18 @@ var g = &grammar{
 																					pos: position{line: 687, col: 14, offset: 21835},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2900, col: 11, offset: 91620},
+																							pos: position{line: 2906, col: 11, offset: 91732},
 																							expr: &anyMatcher{
-																								line: 2900, col: 13, offset: 91622,
+																								line: 2906, col: 13, offset: 91734,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 687, col: 21, offset: 21842},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30816,28 +30995,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -30846,9 +31025,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -30867,12 +31046,12 @@ var g = &grammar{
 																	pos: position{line: 1710, col: 9, offset: 55299},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2887, col: 11, offset: 91347},
+																			pos: position{line: 2893, col: 11, offset: 91459},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2887, col: 11, offset: 91347},
+																				pos: position{line: 2893, col: 11, offset: 91459},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2887, col: 11, offset: 91347},
+																					pos:        position{line: 2893, col: 11, offset: 91459},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30899,28 +31078,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2905, col: 8, offset: 91684},
+																			pos: position{line: 2911, col: 8, offset: 91796},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2892, col: 12, offset: 91457},
+																					pos: position{line: 2898, col: 12, offset: 91569},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2892, col: 13, offset: 91458},
+																						pos: position{line: 2898, col: 13, offset: 91570},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 13, offset: 91458},
+																								pos:        position{line: 2898, col: 13, offset: 91570},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 20, offset: 91465},
+																								pos:        position{line: 2898, col: 20, offset: 91577},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 29, offset: 91474},
+																								pos:        position{line: 2898, col: 29, offset: 91586},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30929,9 +31108,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -30972,18 +31151,18 @@ var g = &grammar{
 											pos: position{line: 687, col: 14, offset: 21835},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2900, col: 11, offset: 91620},
+													pos: position{line: 2906, col: 11, offset: 91732},
 													expr: &anyMatcher{
-														line: 2900, col: 13, offset: 91622,
+														line: 2906, col: 13, offset: 91734,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 687, col: 21, offset: 21842},
 													expr: &actionExpr{
-														pos: position{line: 2883, col: 10, offset: 91286},
+														pos: position{line: 2889, col: 10, offset: 91398},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2883, col: 10, offset: 91286},
+															pos:        position{line: 2889, col: 10, offset: 91398},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -30992,28 +31171,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2905, col: 8, offset: 91684},
+													pos: position{line: 2911, col: 8, offset: 91796},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2892, col: 12, offset: 91457},
+															pos: position{line: 2898, col: 12, offset: 91569},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2892, col: 13, offset: 91458},
+																pos: position{line: 2898, col: 13, offset: 91570},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 13, offset: 91458},
+																		pos:        position{line: 2898, col: 13, offset: 91570},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 20, offset: 91465},
+																		pos:        position{line: 2898, col: 20, offset: 91577},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 29, offset: 91474},
+																		pos:        position{line: 2898, col: 29, offset: 91586},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31022,9 +31201,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2902, col: 8, offset: 91634},
+															pos: position{line: 2908, col: 8, offset: 91746},
 															expr: &anyMatcher{
-																line: 2902, col: 9, offset: 91635,
+																line: 2908, col: 9, offset: 91747,
 															},
 														},
 													},
@@ -31089,10 +31268,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 367, col: 49, offset: 11183},
 													expr: &actionExpr{
-														pos: position{line: 2883, col: 10, offset: 91286},
+														pos: position{line: 2889, col: 10, offset: 91398},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2883, col: 10, offset: 91286},
+															pos:        position{line: 2889, col: 10, offset: 91398},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31101,28 +31280,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2905, col: 8, offset: 91684},
+													pos: position{line: 2911, col: 8, offset: 91796},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2892, col: 12, offset: 91457},
+															pos: position{line: 2898, col: 12, offset: 91569},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2892, col: 13, offset: 91458},
+																pos: position{line: 2898, col: 13, offset: 91570},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 13, offset: 91458},
+																		pos:        position{line: 2898, col: 13, offset: 91570},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 20, offset: 91465},
+																		pos:        position{line: 2898, col: 20, offset: 91577},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 29, offset: 91474},
+																		pos:        position{line: 2898, col: 29, offset: 91586},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31131,9 +31310,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2902, col: 8, offset: 91634},
+															pos: position{line: 2908, col: 8, offset: 91746},
 															expr: &anyMatcher{
-																line: 2902, col: 9, offset: 91635,
+																line: 2908, col: 9, offset: 91747,
 															},
 														},
 													},
@@ -31194,10 +31373,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 369, col: 39, offset: 11304},
 													expr: &actionExpr{
-														pos: position{line: 2883, col: 10, offset: 91286},
+														pos: position{line: 2889, col: 10, offset: 91398},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2883, col: 10, offset: 91286},
+															pos:        position{line: 2889, col: 10, offset: 91398},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31206,28 +31385,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2905, col: 8, offset: 91684},
+													pos: position{line: 2911, col: 8, offset: 91796},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2892, col: 12, offset: 91457},
+															pos: position{line: 2898, col: 12, offset: 91569},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2892, col: 13, offset: 91458},
+																pos: position{line: 2898, col: 13, offset: 91570},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 13, offset: 91458},
+																		pos:        position{line: 2898, col: 13, offset: 91570},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 20, offset: 91465},
+																		pos:        position{line: 2898, col: 20, offset: 91577},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 29, offset: 91474},
+																		pos:        position{line: 2898, col: 29, offset: 91586},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31236,9 +31415,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2902, col: 8, offset: 91634},
+															pos: position{line: 2908, col: 8, offset: 91746},
 															expr: &anyMatcher{
-																line: 2902, col: 9, offset: 91635,
+																line: 2908, col: 9, offset: 91747,
 															},
 														},
 													},
@@ -31292,10 +31471,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 752, col: 8, offset: 24032},
 																	expr: &actionExpr{
-																		pos: position{line: 2883, col: 10, offset: 91286},
+																		pos: position{line: 2889, col: 10, offset: 91398},
 																		run: (*parser).callonListContinuationElement308,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91286},
+																			pos:        position{line: 2889, col: 10, offset: 91398},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31304,28 +31483,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
+																			pos: position{line: 2898, col: 12, offset: 91569},
 																			run: (*parser).callonListContinuationElement311,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31334,9 +31513,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -31408,10 +31587,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 752, col: 8, offset: 24032},
 																											expr: &actionExpr{
-																												pos: position{line: 2883, col: 10, offset: 91286},
+																												pos: position{line: 2889, col: 10, offset: 91398},
 																												run: (*parser).callonListContinuationElement336,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2883, col: 10, offset: 91286},
+																													pos:        position{line: 2889, col: 10, offset: 91398},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31420,28 +31599,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2905, col: 8, offset: 91684},
+																											pos: position{line: 2911, col: 8, offset: 91796},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2892, col: 12, offset: 91457},
+																													pos: position{line: 2898, col: 12, offset: 91569},
 																													run: (*parser).callonListContinuationElement339,
 																													expr: &choiceExpr{
-																														pos: position{line: 2892, col: 13, offset: 91458},
+																														pos: position{line: 2898, col: 13, offset: 91570},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 13, offset: 91458},
+																																pos:        position{line: 2898, col: 13, offset: 91570},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 20, offset: 91465},
+																																pos:        position{line: 2898, col: 20, offset: 91577},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 29, offset: 91474},
+																																pos:        position{line: 2898, col: 29, offset: 91586},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31450,9 +31629,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2902, col: 8, offset: 91634},
+																													pos: position{line: 2908, col: 8, offset: 91746},
 																													expr: &anyMatcher{
-																														line: 2902, col: 9, offset: 91635,
+																														line: 2908, col: 9, offset: 91747,
 																													},
 																												},
 																											},
@@ -31468,9 +31647,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -31486,21 +31665,21 @@ var g = &grammar{
 																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2900, col: 11, offset: 91620},
+																						pos: position{line: 2906, col: 11, offset: 91732},
 																						expr: &anyMatcher{
-																							line: 2900, col: 13, offset: 91622,
+																							line: 2906, col: 13, offset: 91734,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2829, col: 13, offset: 89812},
+																							pos: position{line: 2835, col: 13, offset: 89924},
 																							run: (*parser).callonListContinuationElement355,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2829, col: 13, offset: 89812},
+																								pos: position{line: 2835, col: 13, offset: 89924},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2829, col: 13, offset: 89812},
+																									pos:        position{line: 2835, col: 13, offset: 89924},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31510,28 +31689,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2905, col: 8, offset: 91684},
+																						pos: position{line: 2911, col: 8, offset: 91796},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2892, col: 12, offset: 91457},
+																								pos: position{line: 2898, col: 12, offset: 91569},
 																								run: (*parser).callonListContinuationElement359,
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 13, offset: 91458},
+																									pos: position{line: 2898, col: 13, offset: 91570},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 13, offset: 91458},
+																											pos:        position{line: 2898, col: 13, offset: 91570},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 20, offset: 91465},
+																											pos:        position{line: 2898, col: 20, offset: 91577},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 29, offset: 91474},
+																											pos:        position{line: 2898, col: 29, offset: 91586},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31540,9 +31719,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2902, col: 8, offset: 91634},
+																								pos: position{line: 2908, col: 8, offset: 91746},
 																								expr: &anyMatcher{
-																									line: 2902, col: 9, offset: 91635,
+																									line: 2908, col: 9, offset: 91747,
 																								},
 																							},
 																						},
@@ -31607,10 +31786,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 752, col: 8, offset: 24032},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonListContinuationElement380,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31619,28 +31798,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonListContinuationElement383,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31649,9 +31828,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -31667,9 +31846,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2902, col: 8, offset: 91634},
+																	pos: position{line: 2908, col: 8, offset: 91746},
 																	expr: &anyMatcher{
-																		line: 2902, col: 9, offset: 91635,
+																		line: 2908, col: 9, offset: 91747,
 																	},
 																},
 															},
@@ -31725,10 +31904,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 759, col: 8, offset: 24280},
 																	expr: &actionExpr{
-																		pos: position{line: 2883, col: 10, offset: 91286},
+																		pos: position{line: 2889, col: 10, offset: 91398},
 																		run: (*parser).callonListContinuationElement405,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91286},
+																			pos:        position{line: 2889, col: 10, offset: 91398},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31737,28 +31916,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
+																			pos: position{line: 2898, col: 12, offset: 91569},
 																			run: (*parser).callonListContinuationElement408,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31767,9 +31946,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -31841,10 +32020,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 759, col: 8, offset: 24280},
 																											expr: &actionExpr{
-																												pos: position{line: 2883, col: 10, offset: 91286},
+																												pos: position{line: 2889, col: 10, offset: 91398},
 																												run: (*parser).callonListContinuationElement433,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2883, col: 10, offset: 91286},
+																													pos:        position{line: 2889, col: 10, offset: 91398},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31853,28 +32032,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2905, col: 8, offset: 91684},
+																											pos: position{line: 2911, col: 8, offset: 91796},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2892, col: 12, offset: 91457},
+																													pos: position{line: 2898, col: 12, offset: 91569},
 																													run: (*parser).callonListContinuationElement436,
 																													expr: &choiceExpr{
-																														pos: position{line: 2892, col: 13, offset: 91458},
+																														pos: position{line: 2898, col: 13, offset: 91570},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 13, offset: 91458},
+																																pos:        position{line: 2898, col: 13, offset: 91570},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 20, offset: 91465},
+																																pos:        position{line: 2898, col: 20, offset: 91577},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 29, offset: 91474},
+																																pos:        position{line: 2898, col: 29, offset: 91586},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31883,9 +32062,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2902, col: 8, offset: 91634},
+																													pos: position{line: 2908, col: 8, offset: 91746},
 																													expr: &anyMatcher{
-																														line: 2902, col: 9, offset: 91635,
+																														line: 2908, col: 9, offset: 91747,
 																													},
 																												},
 																											},
@@ -31901,9 +32080,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -31919,21 +32098,21 @@ var g = &grammar{
 																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2900, col: 11, offset: 91620},
+																						pos: position{line: 2906, col: 11, offset: 91732},
 																						expr: &anyMatcher{
-																							line: 2900, col: 13, offset: 91622,
+																							line: 2906, col: 13, offset: 91734,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2829, col: 13, offset: 89812},
+																							pos: position{line: 2835, col: 13, offset: 89924},
 																							run: (*parser).callonListContinuationElement452,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2829, col: 13, offset: 89812},
+																								pos: position{line: 2835, col: 13, offset: 89924},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2829, col: 13, offset: 89812},
+																									pos:        position{line: 2835, col: 13, offset: 89924},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31943,28 +32122,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2905, col: 8, offset: 91684},
+																						pos: position{line: 2911, col: 8, offset: 91796},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2892, col: 12, offset: 91457},
+																								pos: position{line: 2898, col: 12, offset: 91569},
 																								run: (*parser).callonListContinuationElement456,
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 13, offset: 91458},
+																									pos: position{line: 2898, col: 13, offset: 91570},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 13, offset: 91458},
+																											pos:        position{line: 2898, col: 13, offset: 91570},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 20, offset: 91465},
+																											pos:        position{line: 2898, col: 20, offset: 91577},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 29, offset: 91474},
+																											pos:        position{line: 2898, col: 29, offset: 91586},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31973,9 +32152,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2902, col: 8, offset: 91634},
+																								pos: position{line: 2908, col: 8, offset: 91746},
 																								expr: &anyMatcher{
-																									line: 2902, col: 9, offset: 91635,
+																									line: 2908, col: 9, offset: 91747,
 																								},
 																							},
 																						},
@@ -32040,10 +32219,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 759, col: 8, offset: 24280},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonListContinuationElement477,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32052,28 +32231,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonListContinuationElement480,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32082,9 +32261,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -32100,9 +32279,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2902, col: 8, offset: 91634},
+																	pos: position{line: 2908, col: 8, offset: 91746},
 																	expr: &anyMatcher{
-																		line: 2902, col: 9, offset: 91635,
+																		line: 2908, col: 9, offset: 91747,
 																	},
 																},
 															},
@@ -32154,10 +32333,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 770, col: 52, offset: 24692},
 																	expr: &actionExpr{
-																		pos: position{line: 2883, col: 10, offset: 91286},
+																		pos: position{line: 2889, col: 10, offset: 91398},
 																		run: (*parser).callonListContinuationElement501,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91286},
+																			pos:        position{line: 2889, col: 10, offset: 91398},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32166,28 +32345,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
+																			pos: position{line: 2898, col: 12, offset: 91569},
 																			run: (*parser).callonListContinuationElement504,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32196,9 +32375,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -32232,10 +32411,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 981, col: 40, offset: 30707},
 																					expr: &actionExpr{
-																						pos: position{line: 2883, col: 10, offset: 91286},
+																						pos: position{line: 2889, col: 10, offset: 91398},
 																						run: (*parser).callonListContinuationElement519,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2883, col: 10, offset: 91286},
+																							pos:        position{line: 2889, col: 10, offset: 91398},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32244,28 +32423,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2905, col: 8, offset: 91684},
+																					pos: position{line: 2911, col: 8, offset: 91796},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2892, col: 12, offset: 91457},
+																							pos: position{line: 2898, col: 12, offset: 91569},
 																							run: (*parser).callonListContinuationElement522,
 																							expr: &choiceExpr{
-																								pos: position{line: 2892, col: 13, offset: 91458},
+																								pos: position{line: 2898, col: 13, offset: 91570},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91458},
+																										pos:        position{line: 2898, col: 13, offset: 91570},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 20, offset: 91465},
+																										pos:        position{line: 2898, col: 20, offset: 91577},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 29, offset: 91474},
+																										pos:        position{line: 2898, col: 29, offset: 91586},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32274,9 +32453,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2902, col: 8, offset: 91634},
+																							pos: position{line: 2908, col: 8, offset: 91746},
 																							expr: &anyMatcher{
-																								line: 2902, col: 9, offset: 91635,
+																								line: 2908, col: 9, offset: 91747,
 																							},
 																						},
 																					},
@@ -32294,21 +32473,21 @@ var g = &grammar{
 																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2900, col: 11, offset: 91620},
+																						pos: position{line: 2906, col: 11, offset: 91732},
 																						expr: &anyMatcher{
-																							line: 2900, col: 13, offset: 91622,
+																							line: 2906, col: 13, offset: 91734,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2829, col: 13, offset: 89812},
+																							pos: position{line: 2835, col: 13, offset: 89924},
 																							run: (*parser).callonListContinuationElement535,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2829, col: 13, offset: 89812},
+																								pos: position{line: 2835, col: 13, offset: 89924},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2829, col: 13, offset: 89812},
+																									pos:        position{line: 2835, col: 13, offset: 89924},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32318,28 +32497,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2905, col: 8, offset: 91684},
+																						pos: position{line: 2911, col: 8, offset: 91796},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2892, col: 12, offset: 91457},
+																								pos: position{line: 2898, col: 12, offset: 91569},
 																								run: (*parser).callonListContinuationElement539,
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 13, offset: 91458},
+																									pos: position{line: 2898, col: 13, offset: 91570},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 13, offset: 91458},
+																											pos:        position{line: 2898, col: 13, offset: 91570},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 20, offset: 91465},
+																											pos:        position{line: 2898, col: 20, offset: 91577},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 29, offset: 91474},
+																											pos:        position{line: 2898, col: 29, offset: 91586},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32348,9 +32527,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2902, col: 8, offset: 91634},
+																								pos: position{line: 2908, col: 8, offset: 91746},
 																								expr: &anyMatcher{
-																									line: 2902, col: 9, offset: 91635,
+																									line: 2908, col: 9, offset: 91747,
 																								},
 																							},
 																						},
@@ -32378,10 +32557,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 981, col: 40, offset: 30707},
 																expr: &actionExpr{
-																	pos: position{line: 2883, col: 10, offset: 91286},
+																	pos: position{line: 2889, col: 10, offset: 91398},
 																	run: (*parser).callonListContinuationElement550,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2883, col: 10, offset: 91286},
+																		pos:        position{line: 2889, col: 10, offset: 91398},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32390,28 +32569,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2905, col: 8, offset: 91684},
+																pos: position{line: 2911, col: 8, offset: 91796},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2892, col: 12, offset: 91457},
+																		pos: position{line: 2898, col: 12, offset: 91569},
 																		run: (*parser).callonListContinuationElement553,
 																		expr: &choiceExpr{
-																			pos: position{line: 2892, col: 13, offset: 91458},
+																			pos: position{line: 2898, col: 13, offset: 91570},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2892, col: 13, offset: 91458},
+																					pos:        position{line: 2898, col: 13, offset: 91570},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2892, col: 20, offset: 91465},
+																					pos:        position{line: 2898, col: 20, offset: 91577},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2892, col: 29, offset: 91474},
+																					pos:        position{line: 2898, col: 29, offset: 91586},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32420,9 +32599,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2902, col: 8, offset: 91634},
+																		pos: position{line: 2908, col: 8, offset: 91746},
 																		expr: &anyMatcher{
-																			line: 2902, col: 9, offset: 91635,
+																			line: 2908, col: 9, offset: 91747,
 																		},
 																	},
 																},
@@ -32479,10 +32658,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 766, col: 8, offset: 24526},
 																	expr: &actionExpr{
-																		pos: position{line: 2883, col: 10, offset: 91286},
+																		pos: position{line: 2889, col: 10, offset: 91398},
 																		run: (*parser).callonListContinuationElement572,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91286},
+																			pos:        position{line: 2889, col: 10, offset: 91398},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32491,28 +32670,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
+																			pos: position{line: 2898, col: 12, offset: 91569},
 																			run: (*parser).callonListContinuationElement575,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32521,9 +32700,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -32595,10 +32774,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 766, col: 8, offset: 24526},
 																											expr: &actionExpr{
-																												pos: position{line: 2883, col: 10, offset: 91286},
+																												pos: position{line: 2889, col: 10, offset: 91398},
 																												run: (*parser).callonListContinuationElement600,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2883, col: 10, offset: 91286},
+																													pos:        position{line: 2889, col: 10, offset: 91398},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32607,28 +32786,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2905, col: 8, offset: 91684},
+																											pos: position{line: 2911, col: 8, offset: 91796},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2892, col: 12, offset: 91457},
+																													pos: position{line: 2898, col: 12, offset: 91569},
 																													run: (*parser).callonListContinuationElement603,
 																													expr: &choiceExpr{
-																														pos: position{line: 2892, col: 13, offset: 91458},
+																														pos: position{line: 2898, col: 13, offset: 91570},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 13, offset: 91458},
+																																pos:        position{line: 2898, col: 13, offset: 91570},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 20, offset: 91465},
+																																pos:        position{line: 2898, col: 20, offset: 91577},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 29, offset: 91474},
+																																pos:        position{line: 2898, col: 29, offset: 91586},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32637,9 +32816,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2902, col: 8, offset: 91634},
+																													pos: position{line: 2908, col: 8, offset: 91746},
 																													expr: &anyMatcher{
-																														line: 2902, col: 9, offset: 91635,
+																														line: 2908, col: 9, offset: 91747,
 																													},
 																												},
 																											},
@@ -32655,9 +32834,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -32673,21 +32852,21 @@ var g = &grammar{
 																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2900, col: 11, offset: 91620},
+																						pos: position{line: 2906, col: 11, offset: 91732},
 																						expr: &anyMatcher{
-																							line: 2900, col: 13, offset: 91622,
+																							line: 2906, col: 13, offset: 91734,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2829, col: 13, offset: 89812},
+																							pos: position{line: 2835, col: 13, offset: 89924},
 																							run: (*parser).callonListContinuationElement619,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2829, col: 13, offset: 89812},
+																								pos: position{line: 2835, col: 13, offset: 89924},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2829, col: 13, offset: 89812},
+																									pos:        position{line: 2835, col: 13, offset: 89924},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32697,28 +32876,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2905, col: 8, offset: 91684},
+																						pos: position{line: 2911, col: 8, offset: 91796},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2892, col: 12, offset: 91457},
+																								pos: position{line: 2898, col: 12, offset: 91569},
 																								run: (*parser).callonListContinuationElement623,
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 13, offset: 91458},
+																									pos: position{line: 2898, col: 13, offset: 91570},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 13, offset: 91458},
+																											pos:        position{line: 2898, col: 13, offset: 91570},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 20, offset: 91465},
+																											pos:        position{line: 2898, col: 20, offset: 91577},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 29, offset: 91474},
+																											pos:        position{line: 2898, col: 29, offset: 91586},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32727,9 +32906,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2902, col: 8, offset: 91634},
+																								pos: position{line: 2908, col: 8, offset: 91746},
 																								expr: &anyMatcher{
-																									line: 2902, col: 9, offset: 91635,
+																									line: 2908, col: 9, offset: 91747,
 																								},
 																							},
 																						},
@@ -32794,10 +32973,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 766, col: 8, offset: 24526},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonListContinuationElement644,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32806,28 +32985,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonListContinuationElement647,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32836,9 +33015,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -32854,9 +33033,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2902, col: 8, offset: 91634},
+																	pos: position{line: 2908, col: 8, offset: 91746},
 																	expr: &anyMatcher{
-																		line: 2902, col: 9, offset: 91635,
+																		line: 2908, col: 9, offset: 91747,
 																	},
 																},
 															},
@@ -32912,10 +33091,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 781, col: 8, offset: 25064},
 																	expr: &actionExpr{
-																		pos: position{line: 2883, col: 10, offset: 91286},
+																		pos: position{line: 2889, col: 10, offset: 91398},
 																		run: (*parser).callonListContinuationElement669,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91286},
+																			pos:        position{line: 2889, col: 10, offset: 91398},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32924,28 +33103,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
+																			pos: position{line: 2898, col: 12, offset: 91569},
 																			run: (*parser).callonListContinuationElement672,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32954,9 +33133,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -33028,10 +33207,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 781, col: 8, offset: 25064},
 																											expr: &actionExpr{
-																												pos: position{line: 2883, col: 10, offset: 91286},
+																												pos: position{line: 2889, col: 10, offset: 91398},
 																												run: (*parser).callonListContinuationElement697,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2883, col: 10, offset: 91286},
+																													pos:        position{line: 2889, col: 10, offset: 91398},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33040,28 +33219,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2905, col: 8, offset: 91684},
+																											pos: position{line: 2911, col: 8, offset: 91796},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2892, col: 12, offset: 91457},
+																													pos: position{line: 2898, col: 12, offset: 91569},
 																													run: (*parser).callonListContinuationElement700,
 																													expr: &choiceExpr{
-																														pos: position{line: 2892, col: 13, offset: 91458},
+																														pos: position{line: 2898, col: 13, offset: 91570},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 13, offset: 91458},
+																																pos:        position{line: 2898, col: 13, offset: 91570},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 20, offset: 91465},
+																																pos:        position{line: 2898, col: 20, offset: 91577},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 29, offset: 91474},
+																																pos:        position{line: 2898, col: 29, offset: 91586},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33070,9 +33249,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2902, col: 8, offset: 91634},
+																													pos: position{line: 2908, col: 8, offset: 91746},
 																													expr: &anyMatcher{
-																														line: 2902, col: 9, offset: 91635,
+																														line: 2908, col: 9, offset: 91747,
 																													},
 																												},
 																											},
@@ -33088,9 +33267,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -33106,21 +33285,21 @@ var g = &grammar{
 																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2900, col: 11, offset: 91620},
+																						pos: position{line: 2906, col: 11, offset: 91732},
 																						expr: &anyMatcher{
-																							line: 2900, col: 13, offset: 91622,
+																							line: 2906, col: 13, offset: 91734,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2829, col: 13, offset: 89812},
+																							pos: position{line: 2835, col: 13, offset: 89924},
 																							run: (*parser).callonListContinuationElement716,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2829, col: 13, offset: 89812},
+																								pos: position{line: 2835, col: 13, offset: 89924},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2829, col: 13, offset: 89812},
+																									pos:        position{line: 2835, col: 13, offset: 89924},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33130,28 +33309,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2905, col: 8, offset: 91684},
+																						pos: position{line: 2911, col: 8, offset: 91796},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2892, col: 12, offset: 91457},
+																								pos: position{line: 2898, col: 12, offset: 91569},
 																								run: (*parser).callonListContinuationElement720,
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 13, offset: 91458},
+																									pos: position{line: 2898, col: 13, offset: 91570},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 13, offset: 91458},
+																											pos:        position{line: 2898, col: 13, offset: 91570},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 20, offset: 91465},
+																											pos:        position{line: 2898, col: 20, offset: 91577},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 29, offset: 91474},
+																											pos:        position{line: 2898, col: 29, offset: 91586},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33160,9 +33339,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2902, col: 8, offset: 91634},
+																								pos: position{line: 2908, col: 8, offset: 91746},
 																								expr: &anyMatcher{
-																									line: 2902, col: 9, offset: 91635,
+																									line: 2908, col: 9, offset: 91747,
 																								},
 																							},
 																						},
@@ -33227,10 +33406,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 781, col: 8, offset: 25064},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonListContinuationElement741,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33239,28 +33418,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonListContinuationElement744,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33269,9 +33448,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -33287,9 +33466,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2902, col: 8, offset: 91634},
+																	pos: position{line: 2908, col: 8, offset: 91746},
 																	expr: &anyMatcher{
-																		line: 2902, col: 9, offset: 91635,
+																		line: 2908, col: 9, offset: 91747,
 																	},
 																},
 															},
@@ -33345,10 +33524,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 795, col: 8, offset: 25540},
 																	expr: &actionExpr{
-																		pos: position{line: 2883, col: 10, offset: 91286},
+																		pos: position{line: 2889, col: 10, offset: 91398},
 																		run: (*parser).callonListContinuationElement766,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91286},
+																			pos:        position{line: 2889, col: 10, offset: 91398},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33357,28 +33536,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
+																			pos: position{line: 2898, col: 12, offset: 91569},
 																			run: (*parser).callonListContinuationElement769,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33387,9 +33566,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -33461,10 +33640,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 795, col: 8, offset: 25540},
 																											expr: &actionExpr{
-																												pos: position{line: 2883, col: 10, offset: 91286},
+																												pos: position{line: 2889, col: 10, offset: 91398},
 																												run: (*parser).callonListContinuationElement794,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2883, col: 10, offset: 91286},
+																													pos:        position{line: 2889, col: 10, offset: 91398},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33473,28 +33652,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2905, col: 8, offset: 91684},
+																											pos: position{line: 2911, col: 8, offset: 91796},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2892, col: 12, offset: 91457},
+																													pos: position{line: 2898, col: 12, offset: 91569},
 																													run: (*parser).callonListContinuationElement797,
 																													expr: &choiceExpr{
-																														pos: position{line: 2892, col: 13, offset: 91458},
+																														pos: position{line: 2898, col: 13, offset: 91570},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 13, offset: 91458},
+																																pos:        position{line: 2898, col: 13, offset: 91570},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 20, offset: 91465},
+																																pos:        position{line: 2898, col: 20, offset: 91577},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 29, offset: 91474},
+																																pos:        position{line: 2898, col: 29, offset: 91586},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33503,9 +33682,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2902, col: 8, offset: 91634},
+																													pos: position{line: 2908, col: 8, offset: 91746},
 																													expr: &anyMatcher{
-																														line: 2902, col: 9, offset: 91635,
+																														line: 2908, col: 9, offset: 91747,
 																													},
 																												},
 																											},
@@ -33521,9 +33700,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -33539,21 +33718,21 @@ var g = &grammar{
 																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2900, col: 11, offset: 91620},
+																						pos: position{line: 2906, col: 11, offset: 91732},
 																						expr: &anyMatcher{
-																							line: 2900, col: 13, offset: 91622,
+																							line: 2906, col: 13, offset: 91734,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2829, col: 13, offset: 89812},
+																							pos: position{line: 2835, col: 13, offset: 89924},
 																							run: (*parser).callonListContinuationElement813,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2829, col: 13, offset: 89812},
+																								pos: position{line: 2835, col: 13, offset: 89924},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2829, col: 13, offset: 89812},
+																									pos:        position{line: 2835, col: 13, offset: 89924},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33563,28 +33742,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2905, col: 8, offset: 91684},
+																						pos: position{line: 2911, col: 8, offset: 91796},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2892, col: 12, offset: 91457},
+																								pos: position{line: 2898, col: 12, offset: 91569},
 																								run: (*parser).callonListContinuationElement817,
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 13, offset: 91458},
+																									pos: position{line: 2898, col: 13, offset: 91570},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 13, offset: 91458},
+																											pos:        position{line: 2898, col: 13, offset: 91570},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 20, offset: 91465},
+																											pos:        position{line: 2898, col: 20, offset: 91577},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 29, offset: 91474},
+																											pos:        position{line: 2898, col: 29, offset: 91586},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33593,9 +33772,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2902, col: 8, offset: 91634},
+																								pos: position{line: 2908, col: 8, offset: 91746},
 																								expr: &anyMatcher{
-																									line: 2902, col: 9, offset: 91635,
+																									line: 2908, col: 9, offset: 91747,
 																								},
 																							},
 																						},
@@ -33660,10 +33839,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 795, col: 8, offset: 25540},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonListContinuationElement838,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33672,28 +33851,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonListContinuationElement841,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33702,9 +33881,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -33720,9 +33899,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2902, col: 8, offset: 91634},
+																	pos: position{line: 2908, col: 8, offset: 91746},
 																	expr: &anyMatcher{
-																		line: 2902, col: 9, offset: 91635,
+																		line: 2908, col: 9, offset: 91747,
 																	},
 																},
 															},
@@ -33784,12 +33963,12 @@ var g = &grammar{
 																							pos:   position{line: 2493, col: 49, offset: 80256},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2829, col: 13, offset: 89812},
+																								pos: position{line: 2835, col: 13, offset: 89924},
 																								run: (*parser).callonListContinuationElement865,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2829, col: 13, offset: 89812},
+																									pos: position{line: 2835, col: 13, offset: 89924},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2829, col: 13, offset: 89812},
+																										pos:        position{line: 2835, col: 13, offset: 89924},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -33799,28 +33978,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonListContinuationElement869,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33829,9 +34008,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -33858,18 +34037,18 @@ var g = &grammar{
 																					pos: position{line: 687, col: 14, offset: 21835},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2900, col: 11, offset: 91620},
+																							pos: position{line: 2906, col: 11, offset: 91732},
 																							expr: &anyMatcher{
-																								line: 2900, col: 13, offset: 91622,
+																								line: 2906, col: 13, offset: 91734,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 687, col: 21, offset: 21842},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonListContinuationElement884,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33878,28 +34057,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33908,9 +34087,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -33929,12 +34108,12 @@ var g = &grammar{
 																			pos:   position{line: 1002, col: 5, offset: 31328},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 2833, col: 14, offset: 89879},
+																				pos: position{line: 2839, col: 14, offset: 89991},
 																				run: (*parser).callonListContinuationElement896,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2833, col: 14, offset: 89879},
+																					pos: position{line: 2839, col: 14, offset: 89991},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2833, col: 14, offset: 89879},
+																						pos:        position{line: 2839, col: 14, offset: 89991},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -33944,28 +34123,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2905, col: 8, offset: 91684},
+																			pos: position{line: 2911, col: 8, offset: 91796},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2892, col: 12, offset: 91457},
+																					pos: position{line: 2898, col: 12, offset: 91569},
 																					run: (*parser).callonListContinuationElement900,
 																					expr: &choiceExpr{
-																						pos: position{line: 2892, col: 13, offset: 91458},
+																						pos: position{line: 2898, col: 13, offset: 91570},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 13, offset: 91458},
+																								pos:        position{line: 2898, col: 13, offset: 91570},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 20, offset: 91465},
+																								pos:        position{line: 2898, col: 20, offset: 91577},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 29, offset: 91474},
+																								pos:        position{line: 2898, col: 29, offset: 91586},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -33974,9 +34153,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -34020,12 +34199,12 @@ var g = &grammar{
 																				pos:   position{line: 2493, col: 49, offset: 80256},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2829, col: 13, offset: 89812},
+																					pos: position{line: 2835, col: 13, offset: 89924},
 																					run: (*parser).callonListContinuationElement916,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2829, col: 13, offset: 89812},
+																						pos: position{line: 2835, col: 13, offset: 89924},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2829, col: 13, offset: 89812},
+																							pos:        position{line: 2835, col: 13, offset: 89924},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34035,28 +34214,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2905, col: 8, offset: 91684},
+																				pos: position{line: 2911, col: 8, offset: 91796},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2892, col: 12, offset: 91457},
+																						pos: position{line: 2898, col: 12, offset: 91569},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2892, col: 13, offset: 91458},
+																							pos: position{line: 2898, col: 13, offset: 91570},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91458},
+																									pos:        position{line: 2898, col: 13, offset: 91570},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2892, col: 20, offset: 91465},
+																									pos:        position{line: 2898, col: 20, offset: 91577},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2892, col: 29, offset: 91474},
+																									pos:        position{line: 2898, col: 29, offset: 91586},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34065,9 +34244,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2902, col: 8, offset: 91634},
+																						pos: position{line: 2908, col: 8, offset: 91746},
 																						expr: &anyMatcher{
-																							line: 2902, col: 9, offset: 91635,
+																							line: 2908, col: 9, offset: 91747,
 																						},
 																					},
 																				},
@@ -34115,12 +34294,12 @@ var g = &grammar{
 																								pos:   position{line: 2493, col: 49, offset: 80256},
 																								label: "content",
 																								expr: &actionExpr{
-																									pos: position{line: 2829, col: 13, offset: 89812},
+																									pos: position{line: 2835, col: 13, offset: 89924},
 																									run: (*parser).callonListContinuationElement937,
 																									expr: &zeroOrMoreExpr{
-																										pos: position{line: 2829, col: 13, offset: 89812},
+																										pos: position{line: 2835, col: 13, offset: 89924},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2829, col: 13, offset: 89812},
+																											pos:        position{line: 2835, col: 13, offset: 89924},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -34130,28 +34309,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2905, col: 8, offset: 91684},
+																								pos: position{line: 2911, col: 8, offset: 91796},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2892, col: 12, offset: 91457},
+																										pos: position{line: 2898, col: 12, offset: 91569},
 																										run: (*parser).callonListContinuationElement941,
 																										expr: &choiceExpr{
-																											pos: position{line: 2892, col: 13, offset: 91458},
+																											pos: position{line: 2898, col: 13, offset: 91570},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 13, offset: 91458},
+																													pos:        position{line: 2898, col: 13, offset: 91570},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 20, offset: 91465},
+																													pos:        position{line: 2898, col: 20, offset: 91577},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 29, offset: 91474},
+																													pos:        position{line: 2898, col: 29, offset: 91586},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34160,9 +34339,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2902, col: 8, offset: 91634},
+																										pos: position{line: 2908, col: 8, offset: 91746},
 																										expr: &anyMatcher{
-																											line: 2902, col: 9, offset: 91635,
+																											line: 2908, col: 9, offset: 91747,
 																										},
 																									},
 																								},
@@ -34189,18 +34368,18 @@ var g = &grammar{
 																						pos: position{line: 687, col: 14, offset: 21835},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2900, col: 11, offset: 91620},
+																								pos: position{line: 2906, col: 11, offset: 91732},
 																								expr: &anyMatcher{
-																									line: 2900, col: 13, offset: 91622,
+																									line: 2906, col: 13, offset: 91734,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 687, col: 21, offset: 21842},
 																								expr: &actionExpr{
-																									pos: position{line: 2883, col: 10, offset: 91286},
+																									pos: position{line: 2889, col: 10, offset: 91398},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2883, col: 10, offset: 91286},
+																										pos:        position{line: 2889, col: 10, offset: 91398},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34209,28 +34388,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2905, col: 8, offset: 91684},
+																								pos: position{line: 2911, col: 8, offset: 91796},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2892, col: 12, offset: 91457},
+																										pos: position{line: 2898, col: 12, offset: 91569},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2892, col: 13, offset: 91458},
+																											pos: position{line: 2898, col: 13, offset: 91570},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 13, offset: 91458},
+																													pos:        position{line: 2898, col: 13, offset: 91570},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 20, offset: 91465},
+																													pos:        position{line: 2898, col: 20, offset: 91577},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 29, offset: 91474},
+																													pos:        position{line: 2898, col: 29, offset: 91586},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34239,9 +34418,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2902, col: 8, offset: 91634},
+																										pos: position{line: 2908, col: 8, offset: 91746},
 																										expr: &anyMatcher{
-																											line: 2902, col: 9, offset: 91635,
+																											line: 2908, col: 9, offset: 91747,
 																										},
 																									},
 																								},
@@ -34260,12 +34439,12 @@ var g = &grammar{
 																				pos:   position{line: 1002, col: 5, offset: 31328},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2833, col: 14, offset: 89879},
+																					pos: position{line: 2839, col: 14, offset: 89991},
 																					run: (*parser).callonListContinuationElement968,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2833, col: 14, offset: 89879},
+																						pos: position{line: 2839, col: 14, offset: 89991},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2833, col: 14, offset: 89879},
+																							pos:        position{line: 2839, col: 14, offset: 89991},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34275,28 +34454,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2905, col: 8, offset: 91684},
+																				pos: position{line: 2911, col: 8, offset: 91796},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2892, col: 12, offset: 91457},
+																						pos: position{line: 2898, col: 12, offset: 91569},
 																						run: (*parser).callonListContinuationElement972,
 																						expr: &choiceExpr{
-																							pos: position{line: 2892, col: 13, offset: 91458},
+																							pos: position{line: 2898, col: 13, offset: 91570},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91458},
+																									pos:        position{line: 2898, col: 13, offset: 91570},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2892, col: 20, offset: 91465},
+																									pos:        position{line: 2898, col: 20, offset: 91577},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2892, col: 29, offset: 91474},
+																									pos:        position{line: 2898, col: 29, offset: 91586},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34305,9 +34484,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2902, col: 8, offset: 91634},
+																						pos: position{line: 2908, col: 8, offset: 91746},
 																						expr: &anyMatcher{
-																							line: 2902, col: 9, offset: 91635,
+																							line: 2908, col: 9, offset: 91747,
 																						},
 																					},
 																				},
@@ -34325,12 +34504,12 @@ var g = &grammar{
 																				pos:   position{line: 1807, col: 5, offset: 58385},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2833, col: 14, offset: 89879},
+																					pos: position{line: 2839, col: 14, offset: 89991},
 																					run: (*parser).callonListContinuationElement982,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2833, col: 14, offset: 89879},
+																						pos: position{line: 2839, col: 14, offset: 89991},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2833, col: 14, offset: 89879},
+																							pos:        position{line: 2839, col: 14, offset: 89991},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34344,28 +34523,28 @@ var g = &grammar{
 																				run: (*parser).callonListContinuationElement985,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2905, col: 8, offset: 91684},
+																				pos: position{line: 2911, col: 8, offset: 91796},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2892, col: 12, offset: 91457},
+																						pos: position{line: 2898, col: 12, offset: 91569},
 																						run: (*parser).callonListContinuationElement987,
 																						expr: &choiceExpr{
-																							pos: position{line: 2892, col: 13, offset: 91458},
+																							pos: position{line: 2898, col: 13, offset: 91570},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91458},
+																									pos:        position{line: 2898, col: 13, offset: 91570},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2892, col: 20, offset: 91465},
+																									pos:        position{line: 2898, col: 20, offset: 91577},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2892, col: 29, offset: 91474},
+																									pos:        position{line: 2898, col: 29, offset: 91586},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34374,9 +34553,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2902, col: 8, offset: 91634},
+																						pos: position{line: 2908, col: 8, offset: 91746},
 																						expr: &anyMatcher{
-																							line: 2902, col: 9, offset: 91635,
+																							line: 2908, col: 9, offset: 91747,
 																						},
 																					},
 																				},
@@ -34423,10 +34602,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 788, col: 8, offset: 25295},
 																	expr: &actionExpr{
-																		pos: position{line: 2883, col: 10, offset: 91286},
+																		pos: position{line: 2889, col: 10, offset: 91398},
 																		run: (*parser).callonListContinuationElement1003,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91286},
+																			pos:        position{line: 2889, col: 10, offset: 91398},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34435,28 +34614,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
+																			pos: position{line: 2898, col: 12, offset: 91569},
 																			run: (*parser).callonListContinuationElement1006,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34465,9 +34644,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -34515,10 +34694,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 788, col: 8, offset: 25295},
 																								expr: &actionExpr{
-																									pos: position{line: 2883, col: 10, offset: 91286},
+																									pos: position{line: 2889, col: 10, offset: 91398},
 																									run: (*parser).callonListContinuationElement1025,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2883, col: 10, offset: 91286},
+																										pos:        position{line: 2889, col: 10, offset: 91398},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34527,28 +34706,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2905, col: 8, offset: 91684},
+																								pos: position{line: 2911, col: 8, offset: 91796},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2892, col: 12, offset: 91457},
+																										pos: position{line: 2898, col: 12, offset: 91569},
 																										run: (*parser).callonListContinuationElement1028,
 																										expr: &choiceExpr{
-																											pos: position{line: 2892, col: 13, offset: 91458},
+																											pos: position{line: 2898, col: 13, offset: 91570},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 13, offset: 91458},
+																													pos:        position{line: 2898, col: 13, offset: 91570},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 20, offset: 91465},
+																													pos:        position{line: 2898, col: 20, offset: 91577},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2892, col: 29, offset: 91474},
+																													pos:        position{line: 2898, col: 29, offset: 91586},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34557,9 +34736,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2902, col: 8, offset: 91634},
+																										pos: position{line: 2908, col: 8, offset: 91746},
 																										expr: &anyMatcher{
-																											line: 2902, col: 9, offset: 91635,
+																											line: 2908, col: 9, offset: 91747,
 																										},
 																									},
 																								},
@@ -34568,9 +34747,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -34586,21 +34765,21 @@ var g = &grammar{
 																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2900, col: 11, offset: 91620},
+																						pos: position{line: 2906, col: 11, offset: 91732},
 																						expr: &anyMatcher{
-																							line: 2900, col: 13, offset: 91622,
+																							line: 2906, col: 13, offset: 91734,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2829, col: 13, offset: 89812},
+																							pos: position{line: 2835, col: 13, offset: 89924},
 																							run: (*parser).callonListContinuationElement1043,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2829, col: 13, offset: 89812},
+																								pos: position{line: 2835, col: 13, offset: 89924},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2829, col: 13, offset: 89812},
+																									pos:        position{line: 2835, col: 13, offset: 89924},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34610,28 +34789,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2905, col: 8, offset: 91684},
+																						pos: position{line: 2911, col: 8, offset: 91796},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2892, col: 12, offset: 91457},
+																								pos: position{line: 2898, col: 12, offset: 91569},
 																								run: (*parser).callonListContinuationElement1047,
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 13, offset: 91458},
+																									pos: position{line: 2898, col: 13, offset: 91570},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 13, offset: 91458},
+																											pos:        position{line: 2898, col: 13, offset: 91570},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 20, offset: 91465},
+																											pos:        position{line: 2898, col: 20, offset: 91577},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 29, offset: 91474},
+																											pos:        position{line: 2898, col: 29, offset: 91586},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34640,9 +34819,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2902, col: 8, offset: 91634},
+																								pos: position{line: 2908, col: 8, offset: 91746},
 																								expr: &anyMatcher{
-																									line: 2902, col: 9, offset: 91635,
+																									line: 2908, col: 9, offset: 91747,
 																								},
 																							},
 																						},
@@ -34687,10 +34866,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 788, col: 8, offset: 25295},
 																				expr: &actionExpr{
-																					pos: position{line: 2883, col: 10, offset: 91286},
+																					pos: position{line: 2889, col: 10, offset: 91398},
 																					run: (*parser).callonListContinuationElement1063,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2883, col: 10, offset: 91286},
+																						pos:        position{line: 2889, col: 10, offset: 91398},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34699,28 +34878,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2905, col: 8, offset: 91684},
+																				pos: position{line: 2911, col: 8, offset: 91796},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2892, col: 12, offset: 91457},
+																						pos: position{line: 2898, col: 12, offset: 91569},
 																						run: (*parser).callonListContinuationElement1066,
 																						expr: &choiceExpr{
-																							pos: position{line: 2892, col: 13, offset: 91458},
+																							pos: position{line: 2898, col: 13, offset: 91570},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91458},
+																									pos:        position{line: 2898, col: 13, offset: 91570},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2892, col: 20, offset: 91465},
+																									pos:        position{line: 2898, col: 20, offset: 91577},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2892, col: 29, offset: 91474},
+																									pos:        position{line: 2898, col: 29, offset: 91586},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34729,9 +34908,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2902, col: 8, offset: 91634},
+																						pos: position{line: 2908, col: 8, offset: 91746},
 																						expr: &anyMatcher{
-																							line: 2902, col: 9, offset: 91635,
+																							line: 2908, col: 9, offset: 91747,
 																						},
 																					},
 																				},
@@ -34740,9 +34919,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2902, col: 8, offset: 91634},
+																	pos: position{line: 2908, col: 8, offset: 91746},
 																	expr: &anyMatcher{
-																		line: 2902, col: 9, offset: 91635,
+																		line: 2908, col: 9, offset: 91747,
 																	},
 																},
 															},
@@ -34798,10 +34977,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 802, col: 8, offset: 25792},
 																	expr: &actionExpr{
-																		pos: position{line: 2883, col: 10, offset: 91286},
+																		pos: position{line: 2889, col: 10, offset: 91398},
 																		run: (*parser).callonListContinuationElement1087,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91286},
+																			pos:        position{line: 2889, col: 10, offset: 91398},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34810,28 +34989,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
+																			pos: position{line: 2898, col: 12, offset: 91569},
 																			run: (*parser).callonListContinuationElement1090,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34840,9 +35019,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -34914,10 +35093,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 802, col: 8, offset: 25792},
 																											expr: &actionExpr{
-																												pos: position{line: 2883, col: 10, offset: 91286},
+																												pos: position{line: 2889, col: 10, offset: 91398},
 																												run: (*parser).callonListContinuationElement1115,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2883, col: 10, offset: 91286},
+																													pos:        position{line: 2889, col: 10, offset: 91398},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -34926,28 +35105,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2905, col: 8, offset: 91684},
+																											pos: position{line: 2911, col: 8, offset: 91796},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2892, col: 12, offset: 91457},
+																													pos: position{line: 2898, col: 12, offset: 91569},
 																													run: (*parser).callonListContinuationElement1118,
 																													expr: &choiceExpr{
-																														pos: position{line: 2892, col: 13, offset: 91458},
+																														pos: position{line: 2898, col: 13, offset: 91570},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 13, offset: 91458},
+																																pos:        position{line: 2898, col: 13, offset: 91570},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 20, offset: 91465},
+																																pos:        position{line: 2898, col: 20, offset: 91577},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 29, offset: 91474},
+																																pos:        position{line: 2898, col: 29, offset: 91586},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -34956,9 +35135,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2902, col: 8, offset: 91634},
+																													pos: position{line: 2908, col: 8, offset: 91746},
 																													expr: &anyMatcher{
-																														line: 2902, col: 9, offset: 91635,
+																														line: 2908, col: 9, offset: 91747,
 																													},
 																												},
 																											},
@@ -34974,9 +35153,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -34992,21 +35171,21 @@ var g = &grammar{
 																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2900, col: 11, offset: 91620},
+																						pos: position{line: 2906, col: 11, offset: 91732},
 																						expr: &anyMatcher{
-																							line: 2900, col: 13, offset: 91622,
+																							line: 2906, col: 13, offset: 91734,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2829, col: 13, offset: 89812},
+																							pos: position{line: 2835, col: 13, offset: 89924},
 																							run: (*parser).callonListContinuationElement1134,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2829, col: 13, offset: 89812},
+																								pos: position{line: 2835, col: 13, offset: 89924},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2829, col: 13, offset: 89812},
+																									pos:        position{line: 2835, col: 13, offset: 89924},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35016,28 +35195,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2905, col: 8, offset: 91684},
+																						pos: position{line: 2911, col: 8, offset: 91796},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2892, col: 12, offset: 91457},
+																								pos: position{line: 2898, col: 12, offset: 91569},
 																								run: (*parser).callonListContinuationElement1138,
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 13, offset: 91458},
+																									pos: position{line: 2898, col: 13, offset: 91570},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 13, offset: 91458},
+																											pos:        position{line: 2898, col: 13, offset: 91570},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 20, offset: 91465},
+																											pos:        position{line: 2898, col: 20, offset: 91577},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 29, offset: 91474},
+																											pos:        position{line: 2898, col: 29, offset: 91586},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35046,9 +35225,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2902, col: 8, offset: 91634},
+																								pos: position{line: 2908, col: 8, offset: 91746},
 																								expr: &anyMatcher{
-																									line: 2902, col: 9, offset: 91635,
+																									line: 2908, col: 9, offset: 91747,
 																								},
 																							},
 																						},
@@ -35113,10 +35292,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 802, col: 8, offset: 25792},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonListContinuationElement1159,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35125,28 +35304,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonListContinuationElement1162,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35155,9 +35334,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -35173,9 +35352,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2902, col: 8, offset: 91634},
+																	pos: position{line: 2908, col: 8, offset: 91746},
 																	expr: &anyMatcher{
-																		line: 2902, col: 9, offset: 91635,
+																		line: 2908, col: 9, offset: 91747,
 																	},
 																},
 															},
@@ -35231,10 +35410,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 809, col: 8, offset: 26042},
 																	expr: &actionExpr{
-																		pos: position{line: 2883, col: 10, offset: 91286},
+																		pos: position{line: 2889, col: 10, offset: 91398},
 																		run: (*parser).callonListContinuationElement1184,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91286},
+																			pos:        position{line: 2889, col: 10, offset: 91398},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35243,28 +35422,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
+																			pos: position{line: 2898, col: 12, offset: 91569},
 																			run: (*parser).callonListContinuationElement1187,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35273,9 +35452,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -35347,10 +35526,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 809, col: 8, offset: 26042},
 																											expr: &actionExpr{
-																												pos: position{line: 2883, col: 10, offset: 91286},
+																												pos: position{line: 2889, col: 10, offset: 91398},
 																												run: (*parser).callonListContinuationElement1212,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2883, col: 10, offset: 91286},
+																													pos:        position{line: 2889, col: 10, offset: 91398},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35359,28 +35538,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2905, col: 8, offset: 91684},
+																											pos: position{line: 2911, col: 8, offset: 91796},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2892, col: 12, offset: 91457},
+																													pos: position{line: 2898, col: 12, offset: 91569},
 																													run: (*parser).callonListContinuationElement1215,
 																													expr: &choiceExpr{
-																														pos: position{line: 2892, col: 13, offset: 91458},
+																														pos: position{line: 2898, col: 13, offset: 91570},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 13, offset: 91458},
+																																pos:        position{line: 2898, col: 13, offset: 91570},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 20, offset: 91465},
+																																pos:        position{line: 2898, col: 20, offset: 91577},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 29, offset: 91474},
+																																pos:        position{line: 2898, col: 29, offset: 91586},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35389,9 +35568,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2902, col: 8, offset: 91634},
+																													pos: position{line: 2908, col: 8, offset: 91746},
 																													expr: &anyMatcher{
-																														line: 2902, col: 9, offset: 91635,
+																														line: 2908, col: 9, offset: 91747,
 																													},
 																												},
 																											},
@@ -35407,9 +35586,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -35425,21 +35604,21 @@ var g = &grammar{
 																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2900, col: 11, offset: 91620},
+																						pos: position{line: 2906, col: 11, offset: 91732},
 																						expr: &anyMatcher{
-																							line: 2900, col: 13, offset: 91622,
+																							line: 2906, col: 13, offset: 91734,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2829, col: 13, offset: 89812},
+																							pos: position{line: 2835, col: 13, offset: 89924},
 																							run: (*parser).callonListContinuationElement1231,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2829, col: 13, offset: 89812},
+																								pos: position{line: 2835, col: 13, offset: 89924},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2829, col: 13, offset: 89812},
+																									pos:        position{line: 2835, col: 13, offset: 89924},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35449,28 +35628,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2905, col: 8, offset: 91684},
+																						pos: position{line: 2911, col: 8, offset: 91796},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2892, col: 12, offset: 91457},
+																								pos: position{line: 2898, col: 12, offset: 91569},
 																								run: (*parser).callonListContinuationElement1235,
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 13, offset: 91458},
+																									pos: position{line: 2898, col: 13, offset: 91570},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 13, offset: 91458},
+																											pos:        position{line: 2898, col: 13, offset: 91570},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 20, offset: 91465},
+																											pos:        position{line: 2898, col: 20, offset: 91577},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 29, offset: 91474},
+																											pos:        position{line: 2898, col: 29, offset: 91586},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35479,9 +35658,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2902, col: 8, offset: 91634},
+																								pos: position{line: 2908, col: 8, offset: 91746},
 																								expr: &anyMatcher{
-																									line: 2902, col: 9, offset: 91635,
+																									line: 2908, col: 9, offset: 91747,
 																								},
 																							},
 																						},
@@ -35546,10 +35725,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 809, col: 8, offset: 26042},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonListContinuationElement1256,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35558,28 +35737,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonListContinuationElement1259,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35588,9 +35767,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -35606,9 +35785,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2902, col: 8, offset: 91634},
+																	pos: position{line: 2908, col: 8, offset: 91746},
 																	expr: &anyMatcher{
-																		line: 2902, col: 9, offset: 91635,
+																		line: 2908, col: 9, offset: 91747,
 																	},
 																},
 															},
@@ -35664,10 +35843,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 816, col: 8, offset: 26288},
 																	expr: &actionExpr{
-																		pos: position{line: 2883, col: 10, offset: 91286},
+																		pos: position{line: 2889, col: 10, offset: 91398},
 																		run: (*parser).callonListContinuationElement1281,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91286},
+																			pos:        position{line: 2889, col: 10, offset: 91398},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35676,28 +35855,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
+																			pos: position{line: 2898, col: 12, offset: 91569},
 																			run: (*parser).callonListContinuationElement1284,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35706,9 +35885,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -35780,10 +35959,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 816, col: 8, offset: 26288},
 																											expr: &actionExpr{
-																												pos: position{line: 2883, col: 10, offset: 91286},
+																												pos: position{line: 2889, col: 10, offset: 91398},
 																												run: (*parser).callonListContinuationElement1309,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2883, col: 10, offset: 91286},
+																													pos:        position{line: 2889, col: 10, offset: 91398},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35792,28 +35971,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2905, col: 8, offset: 91684},
+																											pos: position{line: 2911, col: 8, offset: 91796},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2892, col: 12, offset: 91457},
+																													pos: position{line: 2898, col: 12, offset: 91569},
 																													run: (*parser).callonListContinuationElement1312,
 																													expr: &choiceExpr{
-																														pos: position{line: 2892, col: 13, offset: 91458},
+																														pos: position{line: 2898, col: 13, offset: 91570},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 13, offset: 91458},
+																																pos:        position{line: 2898, col: 13, offset: 91570},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 20, offset: 91465},
+																																pos:        position{line: 2898, col: 20, offset: 91577},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 29, offset: 91474},
+																																pos:        position{line: 2898, col: 29, offset: 91586},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35822,9 +36001,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2902, col: 8, offset: 91634},
+																													pos: position{line: 2908, col: 8, offset: 91746},
 																													expr: &anyMatcher{
-																														line: 2902, col: 9, offset: 91635,
+																														line: 2908, col: 9, offset: 91747,
 																													},
 																												},
 																											},
@@ -35840,9 +36019,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -35858,21 +36037,21 @@ var g = &grammar{
 																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2900, col: 11, offset: 91620},
+																						pos: position{line: 2906, col: 11, offset: 91732},
 																						expr: &anyMatcher{
-																							line: 2900, col: 13, offset: 91622,
+																							line: 2906, col: 13, offset: 91734,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2829, col: 13, offset: 89812},
+																							pos: position{line: 2835, col: 13, offset: 89924},
 																							run: (*parser).callonListContinuationElement1328,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2829, col: 13, offset: 89812},
+																								pos: position{line: 2835, col: 13, offset: 89924},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2829, col: 13, offset: 89812},
+																									pos:        position{line: 2835, col: 13, offset: 89924},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35882,28 +36061,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2905, col: 8, offset: 91684},
+																						pos: position{line: 2911, col: 8, offset: 91796},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2892, col: 12, offset: 91457},
+																								pos: position{line: 2898, col: 12, offset: 91569},
 																								run: (*parser).callonListContinuationElement1332,
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 13, offset: 91458},
+																									pos: position{line: 2898, col: 13, offset: 91570},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 13, offset: 91458},
+																											pos:        position{line: 2898, col: 13, offset: 91570},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 20, offset: 91465},
+																											pos:        position{line: 2898, col: 20, offset: 91577},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 29, offset: 91474},
+																											pos:        position{line: 2898, col: 29, offset: 91586},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35912,9 +36091,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2902, col: 8, offset: 91634},
+																								pos: position{line: 2908, col: 8, offset: 91746},
 																								expr: &anyMatcher{
-																									line: 2902, col: 9, offset: 91635,
+																									line: 2908, col: 9, offset: 91747,
 																								},
 																							},
 																						},
@@ -35979,10 +36158,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 816, col: 8, offset: 26288},
 																							expr: &actionExpr{
-																								pos: position{line: 2883, col: 10, offset: 91286},
+																								pos: position{line: 2889, col: 10, offset: 91398},
 																								run: (*parser).callonListContinuationElement1353,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2883, col: 10, offset: 91286},
+																									pos:        position{line: 2889, col: 10, offset: 91398},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35991,28 +36170,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2905, col: 8, offset: 91684},
+																							pos: position{line: 2911, col: 8, offset: 91796},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2892, col: 12, offset: 91457},
+																									pos: position{line: 2898, col: 12, offset: 91569},
 																									run: (*parser).callonListContinuationElement1356,
 																									expr: &choiceExpr{
-																										pos: position{line: 2892, col: 13, offset: 91458},
+																										pos: position{line: 2898, col: 13, offset: 91570},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 13, offset: 91458},
+																												pos:        position{line: 2898, col: 13, offset: 91570},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 20, offset: 91465},
+																												pos:        position{line: 2898, col: 20, offset: 91577},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2892, col: 29, offset: 91474},
+																												pos:        position{line: 2898, col: 29, offset: 91586},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36021,9 +36200,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2902, col: 8, offset: 91634},
+																									pos: position{line: 2908, col: 8, offset: 91746},
 																									expr: &anyMatcher{
-																										line: 2902, col: 9, offset: 91635,
+																										line: 2908, col: 9, offset: 91747,
 																									},
 																								},
 																							},
@@ -36039,9 +36218,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2902, col: 8, offset: 91634},
+																	pos: position{line: 2908, col: 8, offset: 91746},
 																	expr: &anyMatcher{
-																		line: 2902, col: 9, offset: 91635,
+																		line: 2908, col: 9, offset: 91747,
 																	},
 																},
 															},
@@ -36052,52 +36231,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2728, col: 18, offset: 86876},
+										pos: position{line: 2734, col: 18, offset: 86988},
 										run: (*parser).callonListContinuationElement1366,
 										expr: &seqExpr{
-											pos: position{line: 2728, col: 18, offset: 86876},
+											pos: position{line: 2734, col: 18, offset: 86988},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2729, col: 9, offset: 86886},
+													pos: position{line: 2735, col: 9, offset: 86998},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2729, col: 9, offset: 86886},
+															pos:        position{line: 2735, col: 9, offset: 86998},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2730, col: 11, offset: 86922},
+															pos:        position{line: 2736, col: 11, offset: 87034},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2730, col: 19, offset: 86930},
+															pos:        position{line: 2736, col: 19, offset: 87042},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2730, col: 29, offset: 86940},
+															pos:        position{line: 2736, col: 29, offset: 87052},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2730, col: 37, offset: 86948},
+															pos:        position{line: 2736, col: 37, offset: 87060},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2730, col: 47, offset: 86958},
+															pos:        position{line: 2736, col: 47, offset: 87070},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2730, col: 55, offset: 86966},
+															pos:        position{line: 2736, col: 55, offset: 87078},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -36105,12 +36284,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2731, col: 11, offset: 87024},
+													pos: position{line: 2737, col: 11, offset: 87136},
 													expr: &actionExpr{
-														pos: position{line: 2883, col: 10, offset: 91286},
+														pos: position{line: 2889, col: 10, offset: 91398},
 														run: (*parser).callonListContinuationElement1377,
 														expr: &charClassMatcher{
-															pos:        position{line: 2883, col: 10, offset: 91286},
+															pos:        position{line: 2889, col: 10, offset: 91398},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36119,28 +36298,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2905, col: 8, offset: 91684},
+													pos: position{line: 2911, col: 8, offset: 91796},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2892, col: 12, offset: 91457},
+															pos: position{line: 2898, col: 12, offset: 91569},
 															run: (*parser).callonListContinuationElement1380,
 															expr: &choiceExpr{
-																pos: position{line: 2892, col: 13, offset: 91458},
+																pos: position{line: 2898, col: 13, offset: 91570},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 13, offset: 91458},
+																		pos:        position{line: 2898, col: 13, offset: 91570},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 20, offset: 91465},
+																		pos:        position{line: 2898, col: 20, offset: 91577},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 29, offset: 91474},
+																		pos:        position{line: 2898, col: 29, offset: 91586},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36149,36 +36328,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2902, col: 8, offset: 91634},
+															pos: position{line: 2908, col: 8, offset: 91746},
 															expr: &anyMatcher{
-																line: 2902, col: 9, offset: 91635,
+																line: 2908, col: 9, offset: 91747,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2905, col: 8, offset: 91684},
+													pos: position{line: 2911, col: 8, offset: 91796},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2892, col: 12, offset: 91457},
+															pos: position{line: 2898, col: 12, offset: 91569},
 															run: (*parser).callonListContinuationElement1388,
 															expr: &choiceExpr{
-																pos: position{line: 2892, col: 13, offset: 91458},
+																pos: position{line: 2898, col: 13, offset: 91570},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 13, offset: 91458},
+																		pos:        position{line: 2898, col: 13, offset: 91570},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 20, offset: 91465},
+																		pos:        position{line: 2898, col: 20, offset: 91577},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 29, offset: 91474},
+																		pos:        position{line: 2898, col: 29, offset: 91586},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36187,9 +36366,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2902, col: 8, offset: 91634},
+															pos: position{line: 2908, col: 8, offset: 91746},
 															expr: &anyMatcher{
-																line: 2902, col: 9, offset: 91635,
+																line: 2908, col: 9, offset: 91747,
 															},
 														},
 													},
@@ -36208,18 +36387,18 @@ var g = &grammar{
 											pos: position{line: 2619, col: 5, offset: 83770},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2625, col: 19, offset: 83927},
+													pos:        position{line: 2631, col: 19, offset: 84039},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2625, col: 26, offset: 83934},
+													pos: position{line: 2631, col: 26, offset: 84046},
 													expr: &actionExpr{
-														pos: position{line: 2883, col: 10, offset: 91286},
+														pos: position{line: 2889, col: 10, offset: 91398},
 														run: (*parser).callonListContinuationElement1400,
 														expr: &charClassMatcher{
-															pos:        position{line: 2883, col: 10, offset: 91286},
+															pos:        position{line: 2889, col: 10, offset: 91398},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36228,28 +36407,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2905, col: 8, offset: 91684},
+													pos: position{line: 2911, col: 8, offset: 91796},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2892, col: 12, offset: 91457},
+															pos: position{line: 2898, col: 12, offset: 91569},
 															run: (*parser).callonListContinuationElement1403,
 															expr: &choiceExpr{
-																pos: position{line: 2892, col: 13, offset: 91458},
+																pos: position{line: 2898, col: 13, offset: 91570},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 13, offset: 91458},
+																		pos:        position{line: 2898, col: 13, offset: 91570},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 20, offset: 91465},
+																		pos:        position{line: 2898, col: 20, offset: 91577},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 29, offset: 91474},
+																		pos:        position{line: 2898, col: 29, offset: 91586},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36258,448 +36437,339 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2902, col: 8, offset: 91634},
+															pos: position{line: 2908, col: 8, offset: 91746},
 															expr: &anyMatcher{
-																line: 2902, col: 9, offset: 91635,
+																line: 2908, col: 9, offset: 91747,
 															},
 														},
 													},
 												},
-												&labeledExpr{
-													pos:   position{line: 2620, col: 5, offset: 83794},
-													label: "lines",
-													expr: &zeroOrMoreExpr{
-														pos: position{line: 2620, col: 11, offset: 83800},
-														expr: &choiceExpr{
-															pos: position{line: 2620, col: 12, offset: 83801},
-															alternatives: []interface{}{
-																&actionExpr{
-																	pos: position{line: 687, col: 14, offset: 21835},
-																	run: (*parser).callonListContinuationElement1413,
-																	expr: &seqExpr{
-																		pos: position{line: 687, col: 14, offset: 21835},
-																		exprs: []interface{}{
-																			&andExpr{
-																				pos: position{line: 2900, col: 11, offset: 91620},
-																				expr: &anyMatcher{
-																					line: 2900, col: 13, offset: 91622,
-																				},
+												&zeroOrMoreExpr{
+													pos: position{line: 2620, col: 5, offset: 83794},
+													expr: &actionExpr{
+														pos: position{line: 2493, col: 22, offset: 80229},
+														run: (*parser).callonListContinuationElement1411,
+														expr: &seqExpr{
+															pos: position{line: 2493, col: 22, offset: 80229},
+															exprs: []interface{}{
+																&litMatcher{
+																	pos:        position{line: 2498, col: 31, offset: 80450},
+																	val:        "//",
+																	ignoreCase: false,
+																	want:       "\"//\"",
+																},
+																&notExpr{
+																	pos: position{line: 2498, col: 36, offset: 80455},
+																	expr: &litMatcher{
+																		pos:        position{line: 2498, col: 37, offset: 80456},
+																		val:        "//",
+																		ignoreCase: false,
+																		want:       "\"//\"",
+																	},
+																},
+																&labeledExpr{
+																	pos:   position{line: 2493, col: 49, offset: 80256},
+																	label: "content",
+																	expr: &actionExpr{
+																		pos: position{line: 2835, col: 13, offset: 89924},
+																		run: (*parser).callonListContinuationElement1417,
+																		expr: &zeroOrMoreExpr{
+																			pos: position{line: 2835, col: 13, offset: 89924},
+																			expr: &charClassMatcher{
+																				pos:        position{line: 2835, col: 13, offset: 89924},
+																				val:        "[^\\r\\n]",
+																				chars:      []rune{'\r', '\n'},
+																				ignoreCase: false,
+																				inverted:   true,
 																			},
-																			&zeroOrMoreExpr{
-																				pos: position{line: 687, col: 21, offset: 21842},
-																				expr: &actionExpr{
-																					pos: position{line: 2883, col: 10, offset: 91286},
-																					run: (*parser).callonListContinuationElement1418,
-																					expr: &charClassMatcher{
-																						pos:        position{line: 2883, col: 10, offset: 91286},
-																						val:        "[\\t ]",
-																						chars:      []rune{'\t', ' '},
+																		},
+																	},
+																},
+																&choiceExpr{
+																	pos: position{line: 2911, col: 8, offset: 91796},
+																	alternatives: []interface{}{
+																		&actionExpr{
+																			pos: position{line: 2898, col: 12, offset: 91569},
+																			run: (*parser).callonListContinuationElement1421,
+																			expr: &choiceExpr{
+																				pos: position{line: 2898, col: 13, offset: 91570},
+																				alternatives: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						val:        "\n",
 																						ignoreCase: false,
-																						inverted:   false,
+																						want:       "\"\\n\"",
 																					},
-																				},
-																			},
-																			&choiceExpr{
-																				pos: position{line: 2905, col: 8, offset: 91684},
-																				alternatives: []interface{}{
-																					&actionExpr{
-																						pos: position{line: 2892, col: 12, offset: 91457},
-																						run: (*parser).callonListContinuationElement1421,
-																						expr: &choiceExpr{
-																							pos: position{line: 2892, col: 13, offset: 91458},
-																							alternatives: []interface{}{
-																								&litMatcher{
-																									pos:        position{line: 2892, col: 13, offset: 91458},
-																									val:        "\n",
-																									ignoreCase: false,
-																									want:       "\"\\n\"",
-																								},
-																								&litMatcher{
-																									pos:        position{line: 2892, col: 20, offset: 91465},
-																									val:        "\r\n",
-																									ignoreCase: false,
-																									want:       "\"\\r\\n\"",
-																								},
-																								&litMatcher{
-																									pos:        position{line: 2892, col: 29, offset: 91474},
-																									val:        "\r",
-																									ignoreCase: false,
-																									want:       "\"\\r\"",
-																								},
-																							},
-																						},
+																					&litMatcher{
+																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						val:        "\r\n",
+																						ignoreCase: false,
+																						want:       "\"\\r\\n\"",
 																					},
-																					&notExpr{
-																						pos: position{line: 2902, col: 8, offset: 91634},
-																						expr: &anyMatcher{
-																							line: 2902, col: 9, offset: 91635,
-																						},
+																					&litMatcher{
+																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						val:        "\r",
+																						ignoreCase: false,
+																						want:       "\"\\r\"",
 																					},
 																				},
 																			},
 																		},
+																		&notExpr{
+																			pos: position{line: 2908, col: 8, offset: 91746},
+																			expr: &anyMatcher{
+																				line: 2908, col: 9, offset: 91747,
+																			},
+																		},
 																	},
 																},
-																&actionExpr{
-																	pos: position{line: 2632, col: 5, offset: 84046},
-																	run: (*parser).callonListContinuationElement1428,
-																	expr: &seqExpr{
-																		pos: position{line: 2632, col: 5, offset: 84046},
-																		exprs: []interface{}{
-																			&notExpr{
-																				pos: position{line: 2632, col: 5, offset: 84046},
-																				expr: &choiceExpr{
-																					pos: position{line: 2629, col: 22, offset: 84007},
-																					alternatives: []interface{}{
-																						&seqExpr{
-																							pos: position{line: 2625, col: 19, offset: 83927},
-																							exprs: []interface{}{
-																								&litMatcher{
-																									pos:        position{line: 2625, col: 19, offset: 83927},
-																									val:        "|===",
-																									ignoreCase: false,
-																									want:       "\"|===\"",
+															},
+														},
+													},
+												},
+												&labeledExpr{
+													pos:   position{line: 2621, col: 5, offset: 83817},
+													label: "lines",
+													expr: &zeroOrMoreExpr{
+														pos: position{line: 2621, col: 11, offset: 83823},
+														expr: &actionExpr{
+															pos: position{line: 2622, col: 9, offset: 83833},
+															run: (*parser).callonListContinuationElement1430,
+															expr: &seqExpr{
+																pos: position{line: 2622, col: 9, offset: 83833},
+																exprs: []interface{}{
+																	&labeledExpr{
+																		pos:   position{line: 2622, col: 9, offset: 83833},
+																		label: "line",
+																		expr: &choiceExpr{
+																			pos: position{line: 2622, col: 15, offset: 83839},
+																			alternatives: []interface{}{
+																				&actionExpr{
+																					pos: position{line: 687, col: 14, offset: 21835},
+																					run: (*parser).callonListContinuationElement1434,
+																					expr: &seqExpr{
+																						pos: position{line: 687, col: 14, offset: 21835},
+																						exprs: []interface{}{
+																							&andExpr{
+																								pos: position{line: 2906, col: 11, offset: 91732},
+																								expr: &anyMatcher{
+																									line: 2906, col: 13, offset: 91734,
 																								},
-																								&zeroOrMoreExpr{
-																									pos: position{line: 2625, col: 26, offset: 83934},
-																									expr: &actionExpr{
-																										pos: position{line: 2883, col: 10, offset: 91286},
-																										run: (*parser).callonListContinuationElement1435,
-																										expr: &charClassMatcher{
-																											pos:        position{line: 2883, col: 10, offset: 91286},
-																											val:        "[\\t ]",
-																											chars:      []rune{'\t', ' '},
-																											ignoreCase: false,
-																											inverted:   false,
-																										},
+																							},
+																							&zeroOrMoreExpr{
+																								pos: position{line: 687, col: 21, offset: 21842},
+																								expr: &actionExpr{
+																									pos: position{line: 2889, col: 10, offset: 91398},
+																									run: (*parser).callonListContinuationElement1439,
+																									expr: &charClassMatcher{
+																										pos:        position{line: 2889, col: 10, offset: 91398},
+																										val:        "[\\t ]",
+																										chars:      []rune{'\t', ' '},
+																										ignoreCase: false,
+																										inverted:   false,
 																									},
 																								},
-																								&choiceExpr{
-																									pos: position{line: 2905, col: 8, offset: 91684},
-																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 2892, col: 12, offset: 91457},
-																											run: (*parser).callonListContinuationElement1438,
-																											expr: &choiceExpr{
-																												pos: position{line: 2892, col: 13, offset: 91458},
-																												alternatives: []interface{}{
-																													&litMatcher{
-																														pos:        position{line: 2892, col: 13, offset: 91458},
-																														val:        "\n",
-																														ignoreCase: false,
-																														want:       "\"\\n\"",
-																													},
-																													&litMatcher{
-																														pos:        position{line: 2892, col: 20, offset: 91465},
-																														val:        "\r\n",
-																														ignoreCase: false,
-																														want:       "\"\\r\\n\"",
-																													},
-																													&litMatcher{
-																														pos:        position{line: 2892, col: 29, offset: 91474},
-																														val:        "\r",
-																														ignoreCase: false,
-																														want:       "\"\\r\"",
-																													},
+																							},
+																							&choiceExpr{
+																								pos: position{line: 2911, col: 8, offset: 91796},
+																								alternatives: []interface{}{
+																									&actionExpr{
+																										pos: position{line: 2898, col: 12, offset: 91569},
+																										run: (*parser).callonListContinuationElement1442,
+																										expr: &choiceExpr{
+																											pos: position{line: 2898, col: 13, offset: 91570},
+																											alternatives: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2898, col: 13, offset: 91570},
+																													val:        "\n",
+																													ignoreCase: false,
+																													want:       "\"\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2898, col: 20, offset: 91577},
+																													val:        "\r\n",
+																													ignoreCase: false,
+																													want:       "\"\\r\\n\"",
+																												},
+																												&litMatcher{
+																													pos:        position{line: 2898, col: 29, offset: 91586},
+																													val:        "\r",
+																													ignoreCase: false,
+																													want:       "\"\\r\"",
 																												},
 																											},
 																										},
-																										&notExpr{
-																											pos: position{line: 2902, col: 8, offset: 91634},
-																											expr: &anyMatcher{
-																												line: 2902, col: 9, offset: 91635,
-																											},
+																									},
+																									&notExpr{
+																										pos: position{line: 2908, col: 8, offset: 91746},
+																										expr: &anyMatcher{
+																											line: 2908, col: 9, offset: 91747,
 																										},
 																									},
 																								},
 																							},
 																						},
-																						&notExpr{
-																							pos: position{line: 2902, col: 8, offset: 91634},
-																							expr: &anyMatcher{
-																								line: 2902, col: 9, offset: 91635,
-																							},
-																						},
 																					},
 																				},
-																			},
-																			&labeledExpr{
-																				pos:   position{line: 2633, col: 5, offset: 84069},
-																				label: "content",
-																				expr: &choiceExpr{
-																					pos: position{line: 2634, col: 9, offset: 84087},
-																					alternatives: []interface{}{
-																						&actionExpr{
-																							pos: position{line: 2634, col: 10, offset: 84088},
-																							run: (*parser).callonListContinuationElement1449,
-																							expr: &labeledExpr{
-																								pos:   position{line: 2634, col: 10, offset: 84088},
-																								label: "cells",
+																				&actionExpr{
+																					pos: position{line: 2638, col: 5, offset: 84158},
+																					run: (*parser).callonListContinuationElement1449,
+																					expr: &seqExpr{
+																						pos: position{line: 2638, col: 5, offset: 84158},
+																						exprs: []interface{}{
+																							&notExpr{
+																								pos: position{line: 2638, col: 5, offset: 84158},
 																								expr: &choiceExpr{
-																									pos: position{line: 2634, col: 17, offset: 84095},
+																									pos: position{line: 2635, col: 22, offset: 84119},
 																									alternatives: []interface{}{
-																										&actionExpr{
-																											pos: position{line: 2642, col: 21, offset: 84291},
-																											run: (*parser).callonListContinuationElement1452,
-																											expr: &seqExpr{
-																												pos: position{line: 2642, col: 21, offset: 84291},
-																												exprs: []interface{}{
-																													&labeledExpr{
-																														pos:   position{line: 2642, col: 21, offset: 84291},
-																														label: "cells",
-																														expr: &oneOrMoreExpr{
-																															pos: position{line: 2642, col: 27, offset: 84297},
-																															expr: &actionExpr{
-																																pos: position{line: 2647, col: 5, offset: 84372},
-																																run: (*parser).callonListContinuationElement1456,
-																																expr: &seqExpr{
-																																	pos: position{line: 2647, col: 5, offset: 84372},
-																																	exprs: []interface{}{
-																																		&litMatcher{
-																																			pos:        position{line: 2647, col: 5, offset: 84372},
-																																			val:        "|",
-																																			ignoreCase: false,
-																																			want:       "\"|\"",
-																																		},
-																																		&zeroOrMoreExpr{
-																																			pos: position{line: 2647, col: 9, offset: 84376},
-																																			expr: &actionExpr{
-																																				pos: position{line: 2883, col: 10, offset: 91286},
-																																				run: (*parser).callonListContinuationElement1460,
-																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2883, col: 10, offset: 91286},
-																																					val:        "[\\t ]",
-																																					chars:      []rune{'\t', ' '},
-																																					ignoreCase: false,
-																																					inverted:   false,
-																																				},
-																																			},
-																																		},
-																																		&labeledExpr{
-																																			pos:   position{line: 2647, col: 16, offset: 84383},
-																																			label: "content",
-																																			expr: &actionExpr{
-																																				pos: position{line: 2653, col: 5, offset: 84583},
-																																				run: (*parser).callonListContinuationElement1463,
-																																				expr: &labeledExpr{
-																																					pos:   position{line: 2653, col: 5, offset: 84583},
-																																					label: "content",
-																																					expr: &actionExpr{
-																																						pos: position{line: 2653, col: 14, offset: 84592},
-																																						run: (*parser).callonListContinuationElement1465,
-																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2653, col: 14, offset: 84592},
-																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2653, col: 14, offset: 84592},
-																																								val:        "[^|\\r\\n]",
-																																								chars:      []rune{'|', '\r', '\n'},
-																																								ignoreCase: false,
-																																								inverted:   true,
-																																							},
-																																						},
-																																					},
-																																				},
-																																			},
-																																		},
-																																	},
-																																},
-																															},
-																														},
-																													},
-																													&choiceExpr{
-																														pos: position{line: 2905, col: 8, offset: 91684},
-																														alternatives: []interface{}{
-																															&actionExpr{
-																																pos: position{line: 2892, col: 12, offset: 91457},
-																																run: (*parser).callonListContinuationElement1469,
-																																expr: &choiceExpr{
-																																	pos: position{line: 2892, col: 13, offset: 91458},
-																																	alternatives: []interface{}{
-																																		&litMatcher{
-																																			pos:        position{line: 2892, col: 13, offset: 91458},
-																																			val:        "\n",
-																																			ignoreCase: false,
-																																			want:       "\"\\n\"",
-																																		},
-																																		&litMatcher{
-																																			pos:        position{line: 2892, col: 20, offset: 91465},
-																																			val:        "\r\n",
-																																			ignoreCase: false,
-																																			want:       "\"\\r\\n\"",
-																																		},
-																																		&litMatcher{
-																																			pos:        position{line: 2892, col: 29, offset: 91474},
-																																			val:        "\r",
-																																			ignoreCase: false,
-																																			want:       "\"\\r\"",
-																																		},
-																																	},
-																																},
-																															},
-																															&notExpr{
-																																pos: position{line: 2902, col: 8, offset: 91634},
-																																expr: &anyMatcher{
-																																	line: 2902, col: 9, offset: 91635,
-																																},
-																															},
+																										&seqExpr{
+																											pos: position{line: 2631, col: 19, offset: 84039},
+																											exprs: []interface{}{
+																												&litMatcher{
+																													pos:        position{line: 2631, col: 19, offset: 84039},
+																													val:        "|===",
+																													ignoreCase: false,
+																													want:       "\"|===\"",
+																												},
+																												&zeroOrMoreExpr{
+																													pos: position{line: 2631, col: 26, offset: 84046},
+																													expr: &actionExpr{
+																														pos: position{line: 2889, col: 10, offset: 91398},
+																														run: (*parser).callonListContinuationElement1456,
+																														expr: &charClassMatcher{
+																															pos:        position{line: 2889, col: 10, offset: 91398},
+																															val:        "[\\t ]",
+																															chars:      []rune{'\t', ' '},
+																															ignoreCase: false,
+																															inverted:   false,
 																														},
 																													},
 																												},
-																											},
-																										},
-																										&actionExpr{
-																											pos: position{line: 2659, col: 24, offset: 84728},
-																											run: (*parser).callonListContinuationElement1476,
-																											expr: &labeledExpr{
-																												pos:   position{line: 2659, col: 24, offset: 84728},
-																												label: "cells",
-																												expr: &oneOrMoreExpr{
-																													pos: position{line: 2659, col: 30, offset: 84734},
-																													expr: &actionExpr{
-																														pos: position{line: 2664, col: 5, offset: 84810},
-																														run: (*parser).callonListContinuationElement1479,
-																														expr: &seqExpr{
-																															pos: position{line: 2664, col: 5, offset: 84810},
-																															exprs: []interface{}{
-																																&notExpr{
-																																	pos: position{line: 2664, col: 5, offset: 84810},
-																																	expr: &choiceExpr{
-																																		pos: position{line: 2629, col: 22, offset: 84007},
-																																		alternatives: []interface{}{
-																																			&seqExpr{
-																																				pos: position{line: 2625, col: 19, offset: 83927},
-																																				exprs: []interface{}{
-																																					&litMatcher{
-																																						pos:        position{line: 2625, col: 19, offset: 83927},
-																																						val:        "|===",
-																																						ignoreCase: false,
-																																						want:       "\"|===\"",
-																																					},
-																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2625, col: 26, offset: 83934},
-																																						expr: &actionExpr{
-																																							pos: position{line: 2883, col: 10, offset: 91286},
-																																							run: (*parser).callonListContinuationElement1486,
-																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2883, col: 10, offset: 91286},
-																																								val:        "[\\t ]",
-																																								chars:      []rune{'\t', ' '},
-																																								ignoreCase: false,
-																																								inverted:   false,
-																																							},
-																																						},
-																																					},
-																																					&choiceExpr{
-																																						pos: position{line: 2905, col: 8, offset: 91684},
-																																						alternatives: []interface{}{
-																																							&actionExpr{
-																																								pos: position{line: 2892, col: 12, offset: 91457},
-																																								run: (*parser).callonListContinuationElement1489,
-																																								expr: &choiceExpr{
-																																									pos: position{line: 2892, col: 13, offset: 91458},
-																																									alternatives: []interface{}{
-																																										&litMatcher{
-																																											pos:        position{line: 2892, col: 13, offset: 91458},
-																																											val:        "\n",
-																																											ignoreCase: false,
-																																											want:       "\"\\n\"",
-																																										},
-																																										&litMatcher{
-																																											pos:        position{line: 2892, col: 20, offset: 91465},
-																																											val:        "\r\n",
-																																											ignoreCase: false,
-																																											want:       "\"\\r\\n\"",
-																																										},
-																																										&litMatcher{
-																																											pos:        position{line: 2892, col: 29, offset: 91474},
-																																											val:        "\r",
-																																											ignoreCase: false,
-																																											want:       "\"\\r\"",
-																																										},
-																																									},
-																																								},
-																																							},
-																																							&notExpr{
-																																								pos: position{line: 2902, col: 8, offset: 91634},
-																																								expr: &anyMatcher{
-																																									line: 2902, col: 9, offset: 91635,
-																																								},
-																																							},
-																																						},
-																																					},
-																																				},
-																																			},
-																																			&notExpr{
-																																				pos: position{line: 2902, col: 8, offset: 91634},
-																																				expr: &anyMatcher{
-																																					line: 2902, col: 9, offset: 91635,
-																																				},
-																																			},
-																																		},
+																												&choiceExpr{
+																													pos: position{line: 2911, col: 8, offset: 91796},
+																													alternatives: []interface{}{
+																														&actionExpr{
+																															pos: position{line: 2898, col: 12, offset: 91569},
+																															run: (*parser).callonListContinuationElement1459,
+																															expr: &choiceExpr{
+																																pos: position{line: 2898, col: 13, offset: 91570},
+																																alternatives: []interface{}{
+																																	&litMatcher{
+																																		pos:        position{line: 2898, col: 13, offset: 91570},
+																																		val:        "\n",
+																																		ignoreCase: false,
+																																		want:       "\"\\n\"",
+																																	},
+																																	&litMatcher{
+																																		pos:        position{line: 2898, col: 20, offset: 91577},
+																																		val:        "\r\n",
+																																		ignoreCase: false,
+																																		want:       "\"\\r\\n\"",
+																																	},
+																																	&litMatcher{
+																																		pos:        position{line: 2898, col: 29, offset: 91586},
+																																		val:        "\r",
+																																		ignoreCase: false,
+																																		want:       "\"\\r\"",
 																																	},
 																																},
-																																&notExpr{
-																																	pos: position{line: 2665, col: 5, offset: 84833},
-																																	expr: &actionExpr{
-																																		pos: position{line: 687, col: 14, offset: 21835},
-																																		run: (*parser).callonListContinuationElement1499,
-																																		expr: &seqExpr{
-																																			pos: position{line: 687, col: 14, offset: 21835},
-																																			exprs: []interface{}{
-																																				&andExpr{
-																																					pos: position{line: 2900, col: 11, offset: 91620},
-																																					expr: &anyMatcher{
-																																						line: 2900, col: 13, offset: 91622,
-																																					},
-																																				},
-																																				&zeroOrMoreExpr{
-																																					pos: position{line: 687, col: 21, offset: 21842},
-																																					expr: &actionExpr{
-																																						pos: position{line: 2883, col: 10, offset: 91286},
-																																						run: (*parser).callonListContinuationElement1504,
-																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2883, col: 10, offset: 91286},
-																																							val:        "[\\t ]",
-																																							chars:      []rune{'\t', ' '},
+																															},
+																														},
+																														&notExpr{
+																															pos: position{line: 2908, col: 8, offset: 91746},
+																															expr: &anyMatcher{
+																																line: 2908, col: 9, offset: 91747,
+																															},
+																														},
+																													},
+																												},
+																											},
+																										},
+																										&notExpr{
+																											pos: position{line: 2908, col: 8, offset: 91746},
+																											expr: &anyMatcher{
+																												line: 2908, col: 9, offset: 91747,
+																											},
+																										},
+																									},
+																								},
+																							},
+																							&labeledExpr{
+																								pos:   position{line: 2639, col: 5, offset: 84181},
+																								label: "content",
+																								expr: &choiceExpr{
+																									pos: position{line: 2640, col: 9, offset: 84199},
+																									alternatives: []interface{}{
+																										&actionExpr{
+																											pos: position{line: 2640, col: 10, offset: 84200},
+																											run: (*parser).callonListContinuationElement1470,
+																											expr: &labeledExpr{
+																												pos:   position{line: 2640, col: 10, offset: 84200},
+																												label: "cells",
+																												expr: &choiceExpr{
+																													pos: position{line: 2640, col: 17, offset: 84207},
+																													alternatives: []interface{}{
+																														&actionExpr{
+																															pos: position{line: 2648, col: 21, offset: 84403},
+																															run: (*parser).callonListContinuationElement1473,
+																															expr: &seqExpr{
+																																pos: position{line: 2648, col: 21, offset: 84403},
+																																exprs: []interface{}{
+																																	&labeledExpr{
+																																		pos:   position{line: 2648, col: 21, offset: 84403},
+																																		label: "cells",
+																																		expr: &oneOrMoreExpr{
+																																			pos: position{line: 2648, col: 27, offset: 84409},
+																																			expr: &actionExpr{
+																																				pos: position{line: 2653, col: 5, offset: 84484},
+																																				run: (*parser).callonListContinuationElement1477,
+																																				expr: &seqExpr{
+																																					pos: position{line: 2653, col: 5, offset: 84484},
+																																					exprs: []interface{}{
+																																						&litMatcher{
+																																							pos:        position{line: 2653, col: 5, offset: 84484},
+																																							val:        "|",
 																																							ignoreCase: false,
-																																							inverted:   false,
+																																							want:       "\"|\"",
 																																						},
-																																					},
-																																				},
-																																				&choiceExpr{
-																																					pos: position{line: 2905, col: 8, offset: 91684},
-																																					alternatives: []interface{}{
-																																						&actionExpr{
-																																							pos: position{line: 2892, col: 12, offset: 91457},
-																																							run: (*parser).callonListContinuationElement1507,
-																																							expr: &choiceExpr{
-																																								pos: position{line: 2892, col: 13, offset: 91458},
-																																								alternatives: []interface{}{
-																																									&litMatcher{
-																																										pos:        position{line: 2892, col: 13, offset: 91458},
-																																										val:        "\n",
-																																										ignoreCase: false,
-																																										want:       "\"\\n\"",
-																																									},
-																																									&litMatcher{
-																																										pos:        position{line: 2892, col: 20, offset: 91465},
-																																										val:        "\r\n",
-																																										ignoreCase: false,
-																																										want:       "\"\\r\\n\"",
-																																									},
-																																									&litMatcher{
-																																										pos:        position{line: 2892, col: 29, offset: 91474},
-																																										val:        "\r",
-																																										ignoreCase: false,
-																																										want:       "\"\\r\"",
-																																									},
+																																						&zeroOrMoreExpr{
+																																							pos: position{line: 2653, col: 9, offset: 84488},
+																																							expr: &actionExpr{
+																																								pos: position{line: 2889, col: 10, offset: 91398},
+																																								run: (*parser).callonListContinuationElement1481,
+																																								expr: &charClassMatcher{
+																																									pos:        position{line: 2889, col: 10, offset: 91398},
+																																									val:        "[\\t ]",
+																																									chars:      []rune{'\t', ' '},
+																																									ignoreCase: false,
+																																									inverted:   false,
 																																								},
 																																							},
 																																						},
-																																						&notExpr{
-																																							pos: position{line: 2902, col: 8, offset: 91634},
-																																							expr: &anyMatcher{
-																																								line: 2902, col: 9, offset: 91635,
+																																						&labeledExpr{
+																																							pos:   position{line: 2653, col: 16, offset: 84495},
+																																							label: "content",
+																																							expr: &actionExpr{
+																																								pos: position{line: 2659, col: 5, offset: 84695},
+																																								run: (*parser).callonListContinuationElement1484,
+																																								expr: &labeledExpr{
+																																									pos:   position{line: 2659, col: 5, offset: 84695},
+																																									label: "content",
+																																									expr: &actionExpr{
+																																										pos: position{line: 2659, col: 14, offset: 84704},
+																																										run: (*parser).callonListContinuationElement1486,
+																																										expr: &zeroOrMoreExpr{
+																																											pos: position{line: 2659, col: 14, offset: 84704},
+																																											expr: &charClassMatcher{
+																																												pos:        position{line: 2659, col: 14, offset: 84704},
+																																												val:        "[^|\\r\\n]",
+																																												chars:      []rune{'|', '\r', '\n'},
+																																												ignoreCase: false,
+																																												inverted:   true,
+																																											},
+																																										},
+																																									},
+																																								},
 																																							},
 																																						},
 																																					},
@@ -36707,73 +36777,29 @@ var g = &grammar{
 																																			},
 																																		},
 																																	},
-																																},
-																																&labeledExpr{
-																																	pos:   position{line: 2666, col: 5, offset: 84848},
-																																	label: "format",
-																																	expr: &zeroOrOneExpr{
-																																		pos: position{line: 2666, col: 12, offset: 84855},
-																																		expr: &actionExpr{
-																																			pos: position{line: 2683, col: 20, offset: 85361},
-																																			run: (*parser).callonListContinuationElement1516,
-																																			expr: &zeroOrMoreExpr{
-																																				pos: position{line: 2683, col: 20, offset: 85361},
-																																				expr: &charClassMatcher{
-																																					pos:        position{line: 2683, col: 20, offset: 85361},
-																																					val:        "[^ |\\r\\n]",
-																																					chars:      []rune{' ', '|', '\r', '\n'},
-																																					ignoreCase: false,
-																																					inverted:   true,
-																																				},
-																																			},
-																																		},
-																																	},
-																																},
-																																&litMatcher{
-																																	pos:        position{line: 2666, col: 31, offset: 84874},
-																																	val:        "|",
-																																	ignoreCase: false,
-																																	want:       "\"|\"",
-																																},
-																																&zeroOrMoreExpr{
-																																	pos: position{line: 2666, col: 35, offset: 84878},
-																																	expr: &actionExpr{
-																																		pos: position{line: 2883, col: 10, offset: 91286},
-																																		run: (*parser).callonListContinuationElement1521,
-																																		expr: &charClassMatcher{
-																																			pos:        position{line: 2883, col: 10, offset: 91286},
-																																			val:        "[\\t ]",
-																																			chars:      []rune{'\t', ' '},
-																																			ignoreCase: false,
-																																			inverted:   false,
-																																		},
-																																	},
-																																},
-																																&zeroOrOneExpr{
-																																	pos: position{line: 2666, col: 42, offset: 84885},
-																																	expr: &seqExpr{
-																																		pos: position{line: 2666, col: 43, offset: 84886},
-																																		exprs: []interface{}{
+																																	&choiceExpr{
+																																		pos: position{line: 2911, col: 8, offset: 91796},
+																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 2892, col: 12, offset: 91457},
-																																				run: (*parser).callonListContinuationElement1525,
+																																				pos: position{line: 2898, col: 12, offset: 91569},
+																																				run: (*parser).callonListContinuationElement1490,
 																																				expr: &choiceExpr{
-																																					pos: position{line: 2892, col: 13, offset: 91458},
+																																					pos: position{line: 2898, col: 13, offset: 91570},
 																																					alternatives: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2892, col: 13, offset: 91458},
+																																							pos:        position{line: 2898, col: 13, offset: 91570},
 																																							val:        "\n",
 																																							ignoreCase: false,
 																																							want:       "\"\\n\"",
 																																						},
 																																						&litMatcher{
-																																							pos:        position{line: 2892, col: 20, offset: 91465},
+																																							pos:        position{line: 2898, col: 20, offset: 91577},
 																																							val:        "\r\n",
 																																							ignoreCase: false,
 																																							want:       "\"\\r\\n\"",
 																																						},
 																																						&litMatcher{
-																																							pos:        position{line: 2892, col: 29, offset: 91474},
+																																							pos:        position{line: 2898, col: 29, offset: 91586},
 																																							val:        "\r",
 																																							ignoreCase: false,
 																																							want:       "\"\\r\"",
@@ -36781,201 +36807,52 @@ var g = &grammar{
 																																					},
 																																				},
 																																			},
-																																			&zeroOrMoreExpr{
-																																				pos: position{line: 2666, col: 51, offset: 84894},
-																																				expr: &actionExpr{
-																																					pos: position{line: 2493, col: 22, offset: 80229},
-																																					run: (*parser).callonListContinuationElement1531,
-																																					expr: &seqExpr{
-																																						pos: position{line: 2493, col: 22, offset: 80229},
-																																						exprs: []interface{}{
-																																							&litMatcher{
-																																								pos:        position{line: 2498, col: 31, offset: 80450},
-																																								val:        "//",
-																																								ignoreCase: false,
-																																								want:       "\"//\"",
-																																							},
-																																							&notExpr{
-																																								pos: position{line: 2498, col: 36, offset: 80455},
-																																								expr: &litMatcher{
-																																									pos:        position{line: 2498, col: 37, offset: 80456},
-																																									val:        "//",
-																																									ignoreCase: false,
-																																									want:       "\"//\"",
-																																								},
-																																							},
-																																							&labeledExpr{
-																																								pos:   position{line: 2493, col: 49, offset: 80256},
-																																								label: "content",
-																																								expr: &actionExpr{
-																																									pos: position{line: 2829, col: 13, offset: 89812},
-																																									run: (*parser).callonListContinuationElement1537,
-																																									expr: &zeroOrMoreExpr{
-																																										pos: position{line: 2829, col: 13, offset: 89812},
-																																										expr: &charClassMatcher{
-																																											pos:        position{line: 2829, col: 13, offset: 89812},
-																																											val:        "[^\\r\\n]",
-																																											chars:      []rune{'\r', '\n'},
-																																											ignoreCase: false,
-																																											inverted:   true,
-																																										},
-																																									},
-																																								},
-																																							},
-																																							&choiceExpr{
-																																								pos: position{line: 2905, col: 8, offset: 91684},
-																																								alternatives: []interface{}{
-																																									&actionExpr{
-																																										pos: position{line: 2892, col: 12, offset: 91457},
-																																										run: (*parser).callonListContinuationElement1541,
-																																										expr: &choiceExpr{
-																																											pos: position{line: 2892, col: 13, offset: 91458},
-																																											alternatives: []interface{}{
-																																												&litMatcher{
-																																													pos:        position{line: 2892, col: 13, offset: 91458},
-																																													val:        "\n",
-																																													ignoreCase: false,
-																																													want:       "\"\\n\"",
-																																												},
-																																												&litMatcher{
-																																													pos:        position{line: 2892, col: 20, offset: 91465},
-																																													val:        "\r\n",
-																																													ignoreCase: false,
-																																													want:       "\"\\r\\n\"",
-																																												},
-																																												&litMatcher{
-																																													pos:        position{line: 2892, col: 29, offset: 91474},
-																																													val:        "\r",
-																																													ignoreCase: false,
-																																													want:       "\"\\r\"",
-																																												},
-																																											},
-																																										},
-																																									},
-																																									&notExpr{
-																																										pos: position{line: 2902, col: 8, offset: 91634},
-																																										expr: &anyMatcher{
-																																											line: 2902, col: 9, offset: 91635,
-																																										},
-																																									},
-																																								},
-																																							},
-																																						},
-																																					},
+																																			&notExpr{
+																																				pos: position{line: 2908, col: 8, offset: 91746},
+																																				expr: &anyMatcher{
+																																					line: 2908, col: 9, offset: 91747,
 																																				},
 																																			},
 																																		},
 																																	},
 																																},
-																																&labeledExpr{
-																																	pos:   position{line: 2666, col: 72, offset: 84915},
-																																	label: "content",
-																																	expr: &zeroOrMoreExpr{
-																																		pos: position{line: 2672, col: 5, offset: 85074},
-																																		expr: &actionExpr{
-																																			pos: position{line: 2673, col: 9, offset: 85084},
-																																			run: (*parser).callonListContinuationElement1550,
-																																			expr: &seqExpr{
-																																				pos: position{line: 2673, col: 9, offset: 85084},
-																																				exprs: []interface{}{
-																																					&notExpr{
-																																						pos: position{line: 2673, col: 9, offset: 85084},
-																																						expr: &choiceExpr{
-																																							pos: position{line: 2629, col: 22, offset: 84007},
-																																							alternatives: []interface{}{
-																																								&seqExpr{
-																																									pos: position{line: 2625, col: 19, offset: 83927},
-																																									exprs: []interface{}{
-																																										&litMatcher{
-																																											pos:        position{line: 2625, col: 19, offset: 83927},
-																																											val:        "|===",
-																																											ignoreCase: false,
-																																											want:       "\"|===\"",
-																																										},
-																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2625, col: 26, offset: 83934},
-																																											expr: &actionExpr{
-																																												pos: position{line: 2883, col: 10, offset: 91286},
-																																												run: (*parser).callonListContinuationElement1557,
-																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2883, col: 10, offset: 91286},
-																																													val:        "[\\t ]",
-																																													chars:      []rune{'\t', ' '},
-																																													ignoreCase: false,
-																																													inverted:   false,
-																																												},
-																																											},
-																																										},
-																																										&choiceExpr{
-																																											pos: position{line: 2905, col: 8, offset: 91684},
-																																											alternatives: []interface{}{
-																																												&actionExpr{
-																																													pos: position{line: 2892, col: 12, offset: 91457},
-																																													run: (*parser).callonListContinuationElement1560,
-																																													expr: &choiceExpr{
-																																														pos: position{line: 2892, col: 13, offset: 91458},
-																																														alternatives: []interface{}{
-																																															&litMatcher{
-																																																pos:        position{line: 2892, col: 13, offset: 91458},
-																																																val:        "\n",
-																																																ignoreCase: false,
-																																																want:       "\"\\n\"",
-																																															},
-																																															&litMatcher{
-																																																pos:        position{line: 2892, col: 20, offset: 91465},
-																																																val:        "\r\n",
-																																																ignoreCase: false,
-																																																want:       "\"\\r\\n\"",
-																																															},
-																																															&litMatcher{
-																																																pos:        position{line: 2892, col: 29, offset: 91474},
-																																																val:        "\r",
-																																																ignoreCase: false,
-																																																want:       "\"\\r\"",
-																																															},
-																																														},
-																																													},
-																																												},
-																																												&notExpr{
-																																													pos: position{line: 2902, col: 8, offset: 91634},
-																																													expr: &anyMatcher{
-																																														line: 2902, col: 9, offset: 91635,
-																																													},
-																																												},
-																																											},
-																																										},
-																																									},
-																																								},
-																																								&notExpr{
-																																									pos: position{line: 2902, col: 8, offset: 91634},
-																																									expr: &anyMatcher{
-																																										line: 2902, col: 9, offset: 91635,
-																																									},
-																																								},
-																																							},
-																																						},
-																																					},
-																																					&notExpr{
-																																						pos: position{line: 2674, col: 9, offset: 85111},
-																																						expr: &actionExpr{
-																																							pos: position{line: 687, col: 14, offset: 21835},
-																																							run: (*parser).callonListContinuationElement1570,
-																																							expr: &seqExpr{
-																																								pos: position{line: 687, col: 14, offset: 21835},
+																															},
+																														},
+																														&actionExpr{
+																															pos: position{line: 2665, col: 24, offset: 84840},
+																															run: (*parser).callonListContinuationElement1497,
+																															expr: &labeledExpr{
+																																pos:   position{line: 2665, col: 24, offset: 84840},
+																																label: "cells",
+																																expr: &oneOrMoreExpr{
+																																	pos: position{line: 2665, col: 30, offset: 84846},
+																																	expr: &actionExpr{
+																																		pos: position{line: 2670, col: 5, offset: 84922},
+																																		run: (*parser).callonListContinuationElement1500,
+																																		expr: &seqExpr{
+																																			pos: position{line: 2670, col: 5, offset: 84922},
+																																			exprs: []interface{}{
+																																				&notExpr{
+																																					pos: position{line: 2670, col: 5, offset: 84922},
+																																					expr: &choiceExpr{
+																																						pos: position{line: 2635, col: 22, offset: 84119},
+																																						alternatives: []interface{}{
+																																							&seqExpr{
+																																								pos: position{line: 2631, col: 19, offset: 84039},
 																																								exprs: []interface{}{
-																																									&andExpr{
-																																										pos: position{line: 2900, col: 11, offset: 91620},
-																																										expr: &anyMatcher{
-																																											line: 2900, col: 13, offset: 91622,
-																																										},
+																																									&litMatcher{
+																																										pos:        position{line: 2631, col: 19, offset: 84039},
+																																										val:        "|===",
+																																										ignoreCase: false,
+																																										want:       "\"|===\"",
 																																									},
 																																									&zeroOrMoreExpr{
-																																										pos: position{line: 687, col: 21, offset: 21842},
+																																										pos: position{line: 2631, col: 26, offset: 84046},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2883, col: 10, offset: 91286},
-																																											run: (*parser).callonListContinuationElement1575,
+																																											pos: position{line: 2889, col: 10, offset: 91398},
+																																											run: (*parser).callonListContinuationElement1507,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2883, col: 10, offset: 91286},
+																																												pos:        position{line: 2889, col: 10, offset: 91398},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36984,28 +36861,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2905, col: 8, offset: 91684},
+																																										pos: position{line: 2911, col: 8, offset: 91796},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2892, col: 12, offset: 91457},
-																																												run: (*parser).callonListContinuationElement1578,
+																																												pos: position{line: 2898, col: 12, offset: 91569},
+																																												run: (*parser).callonListContinuationElement1510,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2892, col: 13, offset: 91458},
+																																													pos: position{line: 2898, col: 13, offset: 91570},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2892, col: 13, offset: 91458},
+																																															pos:        position{line: 2898, col: 13, offset: 91570},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2892, col: 20, offset: 91465},
+																																															pos:        position{line: 2898, col: 20, offset: 91577},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2892, col: 29, offset: 91474},
+																																															pos:        position{line: 2898, col: 29, offset: 91586},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -37014,98 +36891,75 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2902, col: 8, offset: 91634},
+																																												pos: position{line: 2908, col: 8, offset: 91746},
 																																												expr: &anyMatcher{
-																																													line: 2902, col: 9, offset: 91635,
+																																													line: 2908, col: 9, offset: 91747,
 																																												},
 																																											},
 																																										},
 																																									},
 																																								},
 																																							},
+																																							&notExpr{
+																																								pos: position{line: 2908, col: 8, offset: 91746},
+																																								expr: &anyMatcher{
+																																									line: 2908, col: 9, offset: 91747,
+																																								},
+																																							},
 																																						},
 																																					},
-																																					&notExpr{
-																																						pos: position{line: 2675, col: 9, offset: 85130},
+																																				},
+																																				&notExpr{
+																																					pos: position{line: 2671, col: 5, offset: 84945},
+																																					expr: &actionExpr{
+																																						pos: position{line: 687, col: 14, offset: 21835},
+																																						run: (*parser).callonListContinuationElement1520,
 																																						expr: &seqExpr{
-																																							pos: position{line: 2675, col: 11, offset: 85132},
+																																							pos: position{line: 687, col: 14, offset: 21835},
 																																							exprs: []interface{}{
-																																								&labeledExpr{
-																																									pos:   position{line: 2675, col: 11, offset: 85132},
-																																									label: "format",
-																																									expr: &zeroOrOneExpr{
-																																										pos: position{line: 2675, col: 18, offset: 85139},
-																																										expr: &actionExpr{
-																																											pos: position{line: 2683, col: 20, offset: 85361},
-																																											run: (*parser).callonListContinuationElement1589,
-																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2683, col: 20, offset: 85361},
-																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2683, col: 20, offset: 85361},
-																																													val:        "[^ |\\r\\n]",
-																																													chars:      []rune{' ', '|', '\r', '\n'},
-																																													ignoreCase: false,
-																																													inverted:   true,
-																																												},
-																																											},
-																																										},
+																																								&andExpr{
+																																									pos: position{line: 2906, col: 11, offset: 91732},
+																																									expr: &anyMatcher{
+																																										line: 2906, col: 13, offset: 91734,
 																																									},
 																																								},
-																																								&litMatcher{
-																																									pos:        position{line: 2675, col: 37, offset: 85158},
-																																									val:        "|",
-																																									ignoreCase: false,
-																																									want:       "\"|\"",
-																																								},
-																																							},
-																																						},
-																																					},
-																																					&labeledExpr{
-																																						pos:   position{line: 2676, col: 9, offset: 85171},
-																																						label: "content",
-																																						expr: &actionExpr{
-																																							pos: position{line: 2676, col: 18, offset: 85180},
-																																							run: (*parser).callonListContinuationElement1594,
-																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2676, col: 18, offset: 85180},
-																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2676, col: 18, offset: 85180},
-																																									val:        "[^|\\r\\n]",
-																																									chars:      []rune{'|', '\r', '\n'},
-																																									ignoreCase: false,
-																																									inverted:   true,
+																																								&zeroOrMoreExpr{
+																																									pos: position{line: 687, col: 21, offset: 21842},
+																																									expr: &actionExpr{
+																																										pos: position{line: 2889, col: 10, offset: 91398},
+																																										run: (*parser).callonListContinuationElement1525,
+																																										expr: &charClassMatcher{
+																																											pos:        position{line: 2889, col: 10, offset: 91398},
+																																											val:        "[\\t ]",
+																																											chars:      []rune{'\t', ' '},
+																																											ignoreCase: false,
+																																											inverted:   false,
+																																										},
+																																									},
 																																								},
-																																							},
-																																						},
-																																					},
-																																					&zeroOrOneExpr{
-																																						pos: position{line: 2678, col: 12, offset: 85242},
-																																						expr: &seqExpr{
-																																							pos: position{line: 2678, col: 13, offset: 85243},
-																																							exprs: []interface{}{
 																																								&choiceExpr{
-																																									pos: position{line: 2905, col: 8, offset: 91684},
+																																									pos: position{line: 2911, col: 8, offset: 91796},
 																																									alternatives: []interface{}{
 																																										&actionExpr{
-																																											pos: position{line: 2892, col: 12, offset: 91457},
-																																											run: (*parser).callonListContinuationElement1600,
+																																											pos: position{line: 2898, col: 12, offset: 91569},
+																																											run: (*parser).callonListContinuationElement1528,
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2892, col: 13, offset: 91458},
+																																												pos: position{line: 2898, col: 13, offset: 91570},
 																																												alternatives: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2892, col: 13, offset: 91458},
+																																														pos:        position{line: 2898, col: 13, offset: 91570},
 																																														val:        "\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2892, col: 20, offset: 91465},
+																																														pos:        position{line: 2898, col: 20, offset: 91577},
 																																														val:        "\r\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2892, col: 29, offset: 91474},
+																																														pos:        position{line: 2898, col: 29, offset: 91586},
 																																														val:        "\r",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\"",
@@ -37114,77 +36968,415 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2902, col: 8, offset: 91634},
+																																											pos: position{line: 2908, col: 8, offset: 91746},
 																																											expr: &anyMatcher{
-																																												line: 2902, col: 9, offset: 91635,
+																																												line: 2908, col: 9, offset: 91747,
 																																											},
 																																										},
 																																									},
 																																								},
-																																								&zeroOrMoreExpr{
-																																									pos: position{line: 2678, col: 17, offset: 85247},
-																																									expr: &actionExpr{
+																																							},
+																																						},
+																																					},
+																																				},
+																																				&labeledExpr{
+																																					pos:   position{line: 2672, col: 5, offset: 84960},
+																																					label: "format",
+																																					expr: &zeroOrOneExpr{
+																																						pos: position{line: 2672, col: 12, offset: 84967},
+																																						expr: &actionExpr{
+																																							pos: position{line: 2689, col: 20, offset: 85473},
+																																							run: (*parser).callonListContinuationElement1537,
+																																							expr: &zeroOrMoreExpr{
+																																								pos: position{line: 2689, col: 20, offset: 85473},
+																																								expr: &charClassMatcher{
+																																									pos:        position{line: 2689, col: 20, offset: 85473},
+																																									val:        "[^ |\\r\\n]",
+																																									chars:      []rune{' ', '|', '\r', '\n'},
+																																									ignoreCase: false,
+																																									inverted:   true,
+																																								},
+																																							},
+																																						},
+																																					},
+																																				},
+																																				&litMatcher{
+																																					pos:        position{line: 2672, col: 31, offset: 84986},
+																																					val:        "|",
+																																					ignoreCase: false,
+																																					want:       "\"|\"",
+																																				},
+																																				&zeroOrMoreExpr{
+																																					pos: position{line: 2672, col: 35, offset: 84990},
+																																					expr: &actionExpr{
+																																						pos: position{line: 2889, col: 10, offset: 91398},
+																																						run: (*parser).callonListContinuationElement1542,
+																																						expr: &charClassMatcher{
+																																							pos:        position{line: 2889, col: 10, offset: 91398},
+																																							val:        "[\\t ]",
+																																							chars:      []rune{'\t', ' '},
+																																							ignoreCase: false,
+																																							inverted:   false,
+																																						},
+																																					},
+																																				},
+																																				&zeroOrOneExpr{
+																																					pos: position{line: 2672, col: 42, offset: 84997},
+																																					expr: &seqExpr{
+																																						pos: position{line: 2672, col: 43, offset: 84998},
+																																						exprs: []interface{}{
+																																							&actionExpr{
+																																								pos: position{line: 2898, col: 12, offset: 91569},
+																																								run: (*parser).callonListContinuationElement1546,
+																																								expr: &choiceExpr{
+																																									pos: position{line: 2898, col: 13, offset: 91570},
+																																									alternatives: []interface{}{
+																																										&litMatcher{
+																																											pos:        position{line: 2898, col: 13, offset: 91570},
+																																											val:        "\n",
+																																											ignoreCase: false,
+																																											want:       "\"\\n\"",
+																																										},
+																																										&litMatcher{
+																																											pos:        position{line: 2898, col: 20, offset: 91577},
+																																											val:        "\r\n",
+																																											ignoreCase: false,
+																																											want:       "\"\\r\\n\"",
+																																										},
+																																										&litMatcher{
+																																											pos:        position{line: 2898, col: 29, offset: 91586},
+																																											val:        "\r",
+																																											ignoreCase: false,
+																																											want:       "\"\\r\"",
+																																										},
+																																									},
+																																								},
+																																							},
+																																							&zeroOrMoreExpr{
+																																								pos: position{line: 2672, col: 51, offset: 85006},
+																																								expr: &actionExpr{
+																																									pos: position{line: 2493, col: 22, offset: 80229},
+																																									run: (*parser).callonListContinuationElement1552,
+																																									expr: &seqExpr{
 																																										pos: position{line: 2493, col: 22, offset: 80229},
-																																										run: (*parser).callonListContinuationElement1608,
-																																										expr: &seqExpr{
-																																											pos: position{line: 2493, col: 22, offset: 80229},
-																																											exprs: []interface{}{
-																																												&litMatcher{
-																																													pos:        position{line: 2498, col: 31, offset: 80450},
+																																										exprs: []interface{}{
+																																											&litMatcher{
+																																												pos:        position{line: 2498, col: 31, offset: 80450},
+																																												val:        "//",
+																																												ignoreCase: false,
+																																												want:       "\"//\"",
+																																											},
+																																											&notExpr{
+																																												pos: position{line: 2498, col: 36, offset: 80455},
+																																												expr: &litMatcher{
+																																													pos:        position{line: 2498, col: 37, offset: 80456},
 																																													val:        "//",
 																																													ignoreCase: false,
 																																													want:       "\"//\"",
 																																												},
+																																											},
+																																											&labeledExpr{
+																																												pos:   position{line: 2493, col: 49, offset: 80256},
+																																												label: "content",
+																																												expr: &actionExpr{
+																																													pos: position{line: 2835, col: 13, offset: 89924},
+																																													run: (*parser).callonListContinuationElement1558,
+																																													expr: &zeroOrMoreExpr{
+																																														pos: position{line: 2835, col: 13, offset: 89924},
+																																														expr: &charClassMatcher{
+																																															pos:        position{line: 2835, col: 13, offset: 89924},
+																																															val:        "[^\\r\\n]",
+																																															chars:      []rune{'\r', '\n'},
+																																															ignoreCase: false,
+																																															inverted:   true,
+																																														},
+																																													},
+																																												},
+																																											},
+																																											&choiceExpr{
+																																												pos: position{line: 2911, col: 8, offset: 91796},
+																																												alternatives: []interface{}{
+																																													&actionExpr{
+																																														pos: position{line: 2898, col: 12, offset: 91569},
+																																														run: (*parser).callonListContinuationElement1562,
+																																														expr: &choiceExpr{
+																																															pos: position{line: 2898, col: 13, offset: 91570},
+																																															alternatives: []interface{}{
+																																																&litMatcher{
+																																																	pos:        position{line: 2898, col: 13, offset: 91570},
+																																																	val:        "\n",
+																																																	ignoreCase: false,
+																																																	want:       "\"\\n\"",
+																																																},
+																																																&litMatcher{
+																																																	pos:        position{line: 2898, col: 20, offset: 91577},
+																																																	val:        "\r\n",
+																																																	ignoreCase: false,
+																																																	want:       "\"\\r\\n\"",
+																																																},
+																																																&litMatcher{
+																																																	pos:        position{line: 2898, col: 29, offset: 91586},
+																																																	val:        "\r",
+																																																	ignoreCase: false,
+																																																	want:       "\"\\r\"",
+																																																},
+																																															},
+																																														},
+																																													},
+																																													&notExpr{
+																																														pos: position{line: 2908, col: 8, offset: 91746},
+																																														expr: &anyMatcher{
+																																															line: 2908, col: 9, offset: 91747,
+																																														},
+																																													},
+																																												},
+																																											},
+																																										},
+																																									},
+																																								},
+																																							},
+																																						},
+																																					},
+																																				},
+																																				&labeledExpr{
+																																					pos:   position{line: 2672, col: 72, offset: 85027},
+																																					label: "content",
+																																					expr: &zeroOrMoreExpr{
+																																						pos: position{line: 2678, col: 5, offset: 85186},
+																																						expr: &actionExpr{
+																																							pos: position{line: 2679, col: 9, offset: 85196},
+																																							run: (*parser).callonListContinuationElement1571,
+																																							expr: &seqExpr{
+																																								pos: position{line: 2679, col: 9, offset: 85196},
+																																								exprs: []interface{}{
+																																									&notExpr{
+																																										pos: position{line: 2679, col: 9, offset: 85196},
+																																										expr: &choiceExpr{
+																																											pos: position{line: 2635, col: 22, offset: 84119},
+																																											alternatives: []interface{}{
+																																												&seqExpr{
+																																													pos: position{line: 2631, col: 19, offset: 84039},
+																																													exprs: []interface{}{
+																																														&litMatcher{
+																																															pos:        position{line: 2631, col: 19, offset: 84039},
+																																															val:        "|===",
+																																															ignoreCase: false,
+																																															want:       "\"|===\"",
+																																														},
+																																														&zeroOrMoreExpr{
+																																															pos: position{line: 2631, col: 26, offset: 84046},
+																																															expr: &actionExpr{
+																																																pos: position{line: 2889, col: 10, offset: 91398},
+																																																run: (*parser).callonListContinuationElement1578,
+																																																expr: &charClassMatcher{
+																																																	pos:        position{line: 2889, col: 10, offset: 91398},
+																																																	val:        "[\\t ]",
+																																																	chars:      []rune{'\t', ' '},
+																																																	ignoreCase: false,
+																																																	inverted:   false,
+																																																},
+																																															},
+																																														},
+																																														&choiceExpr{
+																																															pos: position{line: 2911, col: 8, offset: 91796},
+																																															alternatives: []interface{}{
+																																																&actionExpr{
+																																																	pos: position{line: 2898, col: 12, offset: 91569},
+																																																	run: (*parser).callonListContinuationElement1581,
+																																																	expr: &choiceExpr{
+																																																		pos: position{line: 2898, col: 13, offset: 91570},
+																																																		alternatives: []interface{}{
+																																																			&litMatcher{
+																																																				pos:        position{line: 2898, col: 13, offset: 91570},
+																																																				val:        "\n",
+																																																				ignoreCase: false,
+																																																				want:       "\"\\n\"",
+																																																			},
+																																																			&litMatcher{
+																																																				pos:        position{line: 2898, col: 20, offset: 91577},
+																																																				val:        "\r\n",
+																																																				ignoreCase: false,
+																																																				want:       "\"\\r\\n\"",
+																																																			},
+																																																			&litMatcher{
+																																																				pos:        position{line: 2898, col: 29, offset: 91586},
+																																																				val:        "\r",
+																																																				ignoreCase: false,
+																																																				want:       "\"\\r\"",
+																																																			},
+																																																		},
+																																																	},
+																																																},
+																																																&notExpr{
+																																																	pos: position{line: 2908, col: 8, offset: 91746},
+																																																	expr: &anyMatcher{
+																																																		line: 2908, col: 9, offset: 91747,
+																																																	},
+																																																},
+																																															},
+																																														},
+																																													},
+																																												},
 																																												&notExpr{
-																																													pos: position{line: 2498, col: 36, offset: 80455},
-																																													expr: &litMatcher{
-																																														pos:        position{line: 2498, col: 37, offset: 80456},
-																																														val:        "//",
-																																														ignoreCase: false,
-																																														want:       "\"//\"",
+																																													pos: position{line: 2908, col: 8, offset: 91746},
+																																													expr: &anyMatcher{
+																																														line: 2908, col: 9, offset: 91747,
 																																													},
 																																												},
-																																												&labeledExpr{
-																																													pos:   position{line: 2493, col: 49, offset: 80256},
-																																													label: "content",
-																																													expr: &actionExpr{
-																																														pos: position{line: 2829, col: 13, offset: 89812},
-																																														run: (*parser).callonListContinuationElement1614,
-																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2829, col: 13, offset: 89812},
+																																											},
+																																										},
+																																									},
+																																									&notExpr{
+																																										pos: position{line: 2680, col: 9, offset: 85223},
+																																										expr: &actionExpr{
+																																											pos: position{line: 687, col: 14, offset: 21835},
+																																											run: (*parser).callonListContinuationElement1591,
+																																											expr: &seqExpr{
+																																												pos: position{line: 687, col: 14, offset: 21835},
+																																												exprs: []interface{}{
+																																													&andExpr{
+																																														pos: position{line: 2906, col: 11, offset: 91732},
+																																														expr: &anyMatcher{
+																																															line: 2906, col: 13, offset: 91734,
+																																														},
+																																													},
+																																													&zeroOrMoreExpr{
+																																														pos: position{line: 687, col: 21, offset: 21842},
+																																														expr: &actionExpr{
+																																															pos: position{line: 2889, col: 10, offset: 91398},
+																																															run: (*parser).callonListContinuationElement1596,
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2829, col: 13, offset: 89812},
-																																																val:        "[^\\r\\n]",
-																																																chars:      []rune{'\r', '\n'},
+																																																pos:        position{line: 2889, col: 10, offset: 91398},
+																																																val:        "[\\t ]",
+																																																chars:      []rune{'\t', ' '},
 																																																ignoreCase: false,
-																																																inverted:   true,
+																																																inverted:   false,
 																																															},
 																																														},
 																																													},
+																																													&choiceExpr{
+																																														pos: position{line: 2911, col: 8, offset: 91796},
+																																														alternatives: []interface{}{
+																																															&actionExpr{
+																																																pos: position{line: 2898, col: 12, offset: 91569},
+																																																run: (*parser).callonListContinuationElement1599,
+																																																expr: &choiceExpr{
+																																																	pos: position{line: 2898, col: 13, offset: 91570},
+																																																	alternatives: []interface{}{
+																																																		&litMatcher{
+																																																			pos:        position{line: 2898, col: 13, offset: 91570},
+																																																			val:        "\n",
+																																																			ignoreCase: false,
+																																																			want:       "\"\\n\"",
+																																																		},
+																																																		&litMatcher{
+																																																			pos:        position{line: 2898, col: 20, offset: 91577},
+																																																			val:        "\r\n",
+																																																			ignoreCase: false,
+																																																			want:       "\"\\r\\n\"",
+																																																		},
+																																																		&litMatcher{
+																																																			pos:        position{line: 2898, col: 29, offset: 91586},
+																																																			val:        "\r",
+																																																			ignoreCase: false,
+																																																			want:       "\"\\r\"",
+																																																		},
+																																																	},
+																																																},
+																																															},
+																																															&notExpr{
+																																																pos: position{line: 2908, col: 8, offset: 91746},
+																																																expr: &anyMatcher{
+																																																	line: 2908, col: 9, offset: 91747,
+																																																},
+																																															},
+																																														},
+																																													},
+																																												},
+																																											},
+																																										},
+																																									},
+																																									&notExpr{
+																																										pos: position{line: 2681, col: 9, offset: 85242},
+																																										expr: &seqExpr{
+																																											pos: position{line: 2681, col: 11, offset: 85244},
+																																											exprs: []interface{}{
+																																												&labeledExpr{
+																																													pos:   position{line: 2681, col: 11, offset: 85244},
+																																													label: "format",
+																																													expr: &zeroOrOneExpr{
+																																														pos: position{line: 2681, col: 18, offset: 85251},
+																																														expr: &actionExpr{
+																																															pos: position{line: 2689, col: 20, offset: 85473},
+																																															run: (*parser).callonListContinuationElement1610,
+																																															expr: &zeroOrMoreExpr{
+																																																pos: position{line: 2689, col: 20, offset: 85473},
+																																																expr: &charClassMatcher{
+																																																	pos:        position{line: 2689, col: 20, offset: 85473},
+																																																	val:        "[^ |\\r\\n]",
+																																																	chars:      []rune{' ', '|', '\r', '\n'},
+																																																	ignoreCase: false,
+																																																	inverted:   true,
+																																																},
+																																															},
+																																														},
+																																													},
+																																												},
+																																												&litMatcher{
+																																													pos:        position{line: 2681, col: 37, offset: 85270},
+																																													val:        "|",
+																																													ignoreCase: false,
+																																													want:       "\"|\"",
+																																												},
+																																											},
+																																										},
+																																									},
+																																									&labeledExpr{
+																																										pos:   position{line: 2682, col: 9, offset: 85283},
+																																										label: "content",
+																																										expr: &actionExpr{
+																																											pos: position{line: 2682, col: 18, offset: 85292},
+																																											run: (*parser).callonListContinuationElement1615,
+																																											expr: &zeroOrMoreExpr{
+																																												pos: position{line: 2682, col: 18, offset: 85292},
+																																												expr: &charClassMatcher{
+																																													pos:        position{line: 2682, col: 18, offset: 85292},
+																																													val:        "[^|\\r\\n]",
+																																													chars:      []rune{'|', '\r', '\n'},
+																																													ignoreCase: false,
+																																													inverted:   true,
 																																												},
+																																											},
+																																										},
+																																									},
+																																									&zeroOrOneExpr{
+																																										pos: position{line: 2684, col: 12, offset: 85354},
+																																										expr: &seqExpr{
+																																											pos: position{line: 2684, col: 13, offset: 85355},
+																																											exprs: []interface{}{
 																																												&choiceExpr{
-																																													pos: position{line: 2905, col: 8, offset: 91684},
+																																													pos: position{line: 2911, col: 8, offset: 91796},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2892, col: 12, offset: 91457},
-																																															run: (*parser).callonListContinuationElement1618,
+																																															pos: position{line: 2898, col: 12, offset: 91569},
+																																															run: (*parser).callonListContinuationElement1621,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2892, col: 13, offset: 91458},
+																																																pos: position{line: 2898, col: 13, offset: 91570},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2892, col: 13, offset: 91458},
+																																																		pos:        position{line: 2898, col: 13, offset: 91570},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2892, col: 20, offset: 91465},
+																																																		pos:        position{line: 2898, col: 20, offset: 91577},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2892, col: 29, offset: 91474},
+																																																		pos:        position{line: 2898, col: 29, offset: 91586},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -37193,9 +37385,92 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2902, col: 8, offset: 91634},
+																																															pos: position{line: 2908, col: 8, offset: 91746},
 																																															expr: &anyMatcher{
-																																																line: 2902, col: 9, offset: 91635,
+																																																line: 2908, col: 9, offset: 91747,
+																																															},
+																																														},
+																																													},
+																																												},
+																																												&zeroOrMoreExpr{
+																																													pos: position{line: 2684, col: 17, offset: 85359},
+																																													expr: &actionExpr{
+																																														pos: position{line: 2493, col: 22, offset: 80229},
+																																														run: (*parser).callonListContinuationElement1629,
+																																														expr: &seqExpr{
+																																															pos: position{line: 2493, col: 22, offset: 80229},
+																																															exprs: []interface{}{
+																																																&litMatcher{
+																																																	pos:        position{line: 2498, col: 31, offset: 80450},
+																																																	val:        "//",
+																																																	ignoreCase: false,
+																																																	want:       "\"//\"",
+																																																},
+																																																&notExpr{
+																																																	pos: position{line: 2498, col: 36, offset: 80455},
+																																																	expr: &litMatcher{
+																																																		pos:        position{line: 2498, col: 37, offset: 80456},
+																																																		val:        "//",
+																																																		ignoreCase: false,
+																																																		want:       "\"//\"",
+																																																	},
+																																																},
+																																																&labeledExpr{
+																																																	pos:   position{line: 2493, col: 49, offset: 80256},
+																																																	label: "content",
+																																																	expr: &actionExpr{
+																																																		pos: position{line: 2835, col: 13, offset: 89924},
+																																																		run: (*parser).callonListContinuationElement1635,
+																																																		expr: &zeroOrMoreExpr{
+																																																			pos: position{line: 2835, col: 13, offset: 89924},
+																																																			expr: &charClassMatcher{
+																																																				pos:        position{line: 2835, col: 13, offset: 89924},
+																																																				val:        "[^\\r\\n]",
+																																																				chars:      []rune{'\r', '\n'},
+																																																				ignoreCase: false,
+																																																				inverted:   true,
+																																																			},
+																																																		},
+																																																	},
+																																																},
+																																																&choiceExpr{
+																																																	pos: position{line: 2911, col: 8, offset: 91796},
+																																																	alternatives: []interface{}{
+																																																		&actionExpr{
+																																																			pos: position{line: 2898, col: 12, offset: 91569},
+																																																			run: (*parser).callonListContinuationElement1639,
+																																																			expr: &choiceExpr{
+																																																				pos: position{line: 2898, col: 13, offset: 91570},
+																																																				alternatives: []interface{}{
+																																																					&litMatcher{
+																																																						pos:        position{line: 2898, col: 13, offset: 91570},
+																																																						val:        "\n",
+																																																						ignoreCase: false,
+																																																						want:       "\"\\n\"",
+																																																					},
+																																																					&litMatcher{
+																																																						pos:        position{line: 2898, col: 20, offset: 91577},
+																																																						val:        "\r\n",
+																																																						ignoreCase: false,
+																																																						want:       "\"\\r\\n\"",
+																																																					},
+																																																					&litMatcher{
+																																																						pos:        position{line: 2898, col: 29, offset: 91586},
+																																																						val:        "\r",
+																																																						ignoreCase: false,
+																																																						want:       "\"\\r\"",
+																																																					},
+																																																				},
+																																																			},
+																																																		},
+																																																		&notExpr{
+																																																			pos: position{line: 2908, col: 8, offset: 91746},
+																																																			expr: &anyMatcher{
+																																																				line: 2908, col: 9, offset: 91747,
+																																																			},
+																																																		},
+																																																	},
+																																																},
 																																															},
 																																														},
 																																													},
@@ -37218,72 +37493,72 @@ var g = &grammar{
 																												},
 																											},
 																										},
-																									},
-																								},
-																							},
-																						},
-																						&actionExpr{
-																							pos: position{line: 687, col: 14, offset: 21835},
-																							run: (*parser).callonListContinuationElement1625,
-																							expr: &seqExpr{
-																								pos: position{line: 687, col: 14, offset: 21835},
-																								exprs: []interface{}{
-																									&andExpr{
-																										pos: position{line: 2900, col: 11, offset: 91620},
-																										expr: &anyMatcher{
-																											line: 2900, col: 13, offset: 91622,
-																										},
-																									},
-																									&zeroOrMoreExpr{
-																										pos: position{line: 687, col: 21, offset: 21842},
-																										expr: &actionExpr{
-																											pos: position{line: 2883, col: 10, offset: 91286},
-																											run: (*parser).callonListContinuationElement1630,
-																											expr: &charClassMatcher{
-																												pos:        position{line: 2883, col: 10, offset: 91286},
-																												val:        "[\\t ]",
-																												chars:      []rune{'\t', ' '},
-																												ignoreCase: false,
-																												inverted:   false,
-																											},
-																										},
-																									},
-																									&choiceExpr{
-																										pos: position{line: 2905, col: 8, offset: 91684},
-																										alternatives: []interface{}{
-																											&actionExpr{
-																												pos: position{line: 2892, col: 12, offset: 91457},
-																												run: (*parser).callonListContinuationElement1633,
-																												expr: &choiceExpr{
-																													pos: position{line: 2892, col: 13, offset: 91458},
-																													alternatives: []interface{}{
-																														&litMatcher{
-																															pos:        position{line: 2892, col: 13, offset: 91458},
-																															val:        "\n",
-																															ignoreCase: false,
-																															want:       "\"\\n\"",
+																										&actionExpr{
+																											pos: position{line: 687, col: 14, offset: 21835},
+																											run: (*parser).callonListContinuationElement1646,
+																											expr: &seqExpr{
+																												pos: position{line: 687, col: 14, offset: 21835},
+																												exprs: []interface{}{
+																													&andExpr{
+																														pos: position{line: 2906, col: 11, offset: 91732},
+																														expr: &anyMatcher{
+																															line: 2906, col: 13, offset: 91734,
 																														},
-																														&litMatcher{
-																															pos:        position{line: 2892, col: 20, offset: 91465},
-																															val:        "\r\n",
-																															ignoreCase: false,
-																															want:       "\"\\r\\n\"",
+																													},
+																													&zeroOrMoreExpr{
+																														pos: position{line: 687, col: 21, offset: 21842},
+																														expr: &actionExpr{
+																															pos: position{line: 2889, col: 10, offset: 91398},
+																															run: (*parser).callonListContinuationElement1651,
+																															expr: &charClassMatcher{
+																																pos:        position{line: 2889, col: 10, offset: 91398},
+																																val:        "[\\t ]",
+																																chars:      []rune{'\t', ' '},
+																																ignoreCase: false,
+																																inverted:   false,
+																															},
 																														},
-																														&litMatcher{
-																															pos:        position{line: 2892, col: 29, offset: 91474},
-																															val:        "\r",
-																															ignoreCase: false,
-																															want:       "\"\\r\"",
+																													},
+																													&choiceExpr{
+																														pos: position{line: 2911, col: 8, offset: 91796},
+																														alternatives: []interface{}{
+																															&actionExpr{
+																																pos: position{line: 2898, col: 12, offset: 91569},
+																																run: (*parser).callonListContinuationElement1654,
+																																expr: &choiceExpr{
+																																	pos: position{line: 2898, col: 13, offset: 91570},
+																																	alternatives: []interface{}{
+																																		&litMatcher{
+																																			pos:        position{line: 2898, col: 13, offset: 91570},
+																																			val:        "\n",
+																																			ignoreCase: false,
+																																			want:       "\"\\n\"",
+																																		},
+																																		&litMatcher{
+																																			pos:        position{line: 2898, col: 20, offset: 91577},
+																																			val:        "\r\n",
+																																			ignoreCase: false,
+																																			want:       "\"\\r\\n\"",
+																																		},
+																																		&litMatcher{
+																																			pos:        position{line: 2898, col: 29, offset: 91586},
+																																			val:        "\r",
+																																			ignoreCase: false,
+																																			want:       "\"\\r\"",
+																																		},
+																																	},
+																																},
+																															},
+																															&notExpr{
+																																pos: position{line: 2908, col: 8, offset: 91746},
+																																expr: &anyMatcher{
+																																	line: 2908, col: 9, offset: 91747,
+																																},
+																															},
 																														},
 																													},
 																												},
 																											},
-																											&notExpr{
-																												pos: position{line: 2902, col: 8, offset: 91634},
-																												expr: &anyMatcher{
-																													line: 2902, col: 9, offset: 91635,
-																												},
-																											},
 																										},
 																									},
 																								},
@@ -37294,30 +37569,113 @@ var g = &grammar{
 																			},
 																		},
 																	},
+																	&zeroOrMoreExpr{
+																		pos: position{line: 2623, col: 9, offset: 83870},
+																		expr: &actionExpr{
+																			pos: position{line: 2493, col: 22, offset: 80229},
+																			run: (*parser).callonListContinuationElement1662,
+																			expr: &seqExpr{
+																				pos: position{line: 2493, col: 22, offset: 80229},
+																				exprs: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 2498, col: 31, offset: 80450},
+																						val:        "//",
+																						ignoreCase: false,
+																						want:       "\"//\"",
+																					},
+																					&notExpr{
+																						pos: position{line: 2498, col: 36, offset: 80455},
+																						expr: &litMatcher{
+																							pos:        position{line: 2498, col: 37, offset: 80456},
+																							val:        "//",
+																							ignoreCase: false,
+																							want:       "\"//\"",
+																						},
+																					},
+																					&labeledExpr{
+																						pos:   position{line: 2493, col: 49, offset: 80256},
+																						label: "content",
+																						expr: &actionExpr{
+																							pos: position{line: 2835, col: 13, offset: 89924},
+																							run: (*parser).callonListContinuationElement1668,
+																							expr: &zeroOrMoreExpr{
+																								pos: position{line: 2835, col: 13, offset: 89924},
+																								expr: &charClassMatcher{
+																									pos:        position{line: 2835, col: 13, offset: 89924},
+																									val:        "[^\\r\\n]",
+																									chars:      []rune{'\r', '\n'},
+																									ignoreCase: false,
+																									inverted:   true,
+																								},
+																							},
+																						},
+																					},
+																					&choiceExpr{
+																						pos: position{line: 2911, col: 8, offset: 91796},
+																						alternatives: []interface{}{
+																							&actionExpr{
+																								pos: position{line: 2898, col: 12, offset: 91569},
+																								run: (*parser).callonListContinuationElement1672,
+																								expr: &choiceExpr{
+																									pos: position{line: 2898, col: 13, offset: 91570},
+																									alternatives: []interface{}{
+																										&litMatcher{
+																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											val:        "\n",
+																											ignoreCase: false,
+																											want:       "\"\\n\"",
+																										},
+																										&litMatcher{
+																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											val:        "\r\n",
+																											ignoreCase: false,
+																											want:       "\"\\r\\n\"",
+																										},
+																										&litMatcher{
+																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											val:        "\r",
+																											ignoreCase: false,
+																											want:       "\"\\r\"",
+																										},
+																									},
+																								},
+																							},
+																							&notExpr{
+																								pos: position{line: 2908, col: 8, offset: 91746},
+																								expr: &anyMatcher{
+																									line: 2908, col: 9, offset: 91747,
+																								},
+																							},
+																						},
+																					},
+																				},
+																			},
+																		},
+																	},
 																},
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2629, col: 22, offset: 84007},
+													pos: position{line: 2635, col: 22, offset: 84119},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2625, col: 19, offset: 83927},
+															pos: position{line: 2631, col: 19, offset: 84039},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2625, col: 19, offset: 83927},
+																	pos:        position{line: 2631, col: 19, offset: 84039},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2625, col: 26, offset: 83934},
+																	pos: position{line: 2631, col: 26, offset: 84046},
 																	expr: &actionExpr{
-																		pos: position{line: 2883, col: 10, offset: 91286},
-																		run: (*parser).callonListContinuationElement1644,
+																		pos: position{line: 2889, col: 10, offset: 91398},
+																		run: (*parser).callonListContinuationElement1683,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91286},
+																			pos:        position{line: 2889, col: 10, offset: 91398},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37326,28 +37684,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
-																			run: (*parser).callonListContinuationElement1647,
+																			pos: position{line: 2898, col: 12, offset: 91569},
+																			run: (*parser).callonListContinuationElement1686,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37356,9 +37714,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -37366,9 +37724,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2902, col: 8, offset: 91634},
+															pos: position{line: 2908, col: 8, offset: 91746},
 															expr: &anyMatcher{
-																line: 2902, col: 9, offset: 91635,
+																line: 2908, col: 9, offset: 91747,
 															},
 														},
 													},
@@ -37378,7 +37736,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2493, col: 22, offset: 80229},
-										run: (*parser).callonListContinuationElement1656,
+										run: (*parser).callonListContinuationElement1695,
 										expr: &seqExpr{
 											pos: position{line: 2493, col: 22, offset: 80229},
 											exprs: []interface{}{
@@ -37401,12 +37759,12 @@ var g = &grammar{
 													pos:   position{line: 2493, col: 49, offset: 80256},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2829, col: 13, offset: 89812},
-														run: (*parser).callonListContinuationElement1662,
+														pos: position{line: 2835, col: 13, offset: 89924},
+														run: (*parser).callonListContinuationElement1701,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2829, col: 13, offset: 89812},
+															pos: position{line: 2835, col: 13, offset: 89924},
 															expr: &charClassMatcher{
-																pos:        position{line: 2829, col: 13, offset: 89812},
+																pos:        position{line: 2835, col: 13, offset: 89924},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37416,28 +37774,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2905, col: 8, offset: 91684},
+													pos: position{line: 2911, col: 8, offset: 91796},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2892, col: 12, offset: 91457},
-															run: (*parser).callonListContinuationElement1666,
+															pos: position{line: 2898, col: 12, offset: 91569},
+															run: (*parser).callonListContinuationElement1705,
 															expr: &choiceExpr{
-																pos: position{line: 2892, col: 13, offset: 91458},
+																pos: position{line: 2898, col: 13, offset: 91570},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 13, offset: 91458},
+																		pos:        position{line: 2898, col: 13, offset: 91570},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 20, offset: 91465},
+																		pos:        position{line: 2898, col: 20, offset: 91577},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 29, offset: 91474},
+																		pos:        position{line: 2898, col: 29, offset: 91586},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37446,9 +37804,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2902, col: 8, offset: 91634},
+															pos: position{line: 2908, col: 8, offset: 91746},
 															expr: &anyMatcher{
-																line: 2902, col: 9, offset: 91635,
+																line: 2908, col: 9, offset: 91747,
 															},
 														},
 													},
@@ -37458,7 +37816,7 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1583, col: 5, offset: 51164},
-										run: (*parser).callonListContinuationElement1673,
+										run: (*parser).callonListContinuationElement1712,
 										expr: &seqExpr{
 											pos: position{line: 1583, col: 5, offset: 51164},
 											exprs: []interface{}{
@@ -37469,13 +37827,13 @@ var g = &grammar{
 														pos: position{line: 1583, col: 11, offset: 51170},
 														expr: &actionExpr{
 															pos: position{line: 1748, col: 5, offset: 56519},
-															run: (*parser).callonListContinuationElement1677,
+															run: (*parser).callonListContinuationElement1716,
 															expr: &seqExpr{
 																pos: position{line: 1748, col: 5, offset: 56519},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 1748, col: 5, offset: 56519},
-																		run: (*parser).callonListContinuationElement1679,
+																		run: (*parser).callonListContinuationElement1718,
 																	},
 																	&labeledExpr{
 																		pos:   position{line: 1751, col: 5, offset: 56582},
@@ -37485,7 +37843,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 1751, col: 12, offset: 56589},
-																					run: (*parser).callonListContinuationElement1682,
+																					run: (*parser).callonListContinuationElement1721,
 																					expr: &litMatcher{
 																						pos:        position{line: 1751, col: 12, offset: 56589},
 																						val:        "TIP: ",
@@ -37495,7 +37853,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1753, col: 13, offset: 56645},
-																					run: (*parser).callonListContinuationElement1684,
+																					run: (*parser).callonListContinuationElement1723,
 																					expr: &litMatcher{
 																						pos:        position{line: 1753, col: 13, offset: 56645},
 																						val:        "NOTE: ",
@@ -37505,7 +37863,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1755, col: 13, offset: 56703},
-																					run: (*parser).callonListContinuationElement1686,
+																					run: (*parser).callonListContinuationElement1725,
 																					expr: &litMatcher{
 																						pos:        position{line: 1755, col: 13, offset: 56703},
 																						val:        "IMPORTANT: ",
@@ -37515,7 +37873,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1757, col: 13, offset: 56771},
-																					run: (*parser).callonListContinuationElement1688,
+																					run: (*parser).callonListContinuationElement1727,
 																					expr: &litMatcher{
 																						pos:        position{line: 1757, col: 13, offset: 56771},
 																						val:        "WARNING: ",
@@ -37525,7 +37883,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1759, col: 13, offset: 56835},
-																					run: (*parser).callonListContinuationElement1690,
+																					run: (*parser).callonListContinuationElement1729,
 																					expr: &litMatcher{
 																						pos:        position{line: 1759, col: 13, offset: 56835},
 																						val:        "CAUTION: ",
@@ -37535,16 +37893,16 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1761, col: 13, offset: 56899},
-																					run: (*parser).callonListContinuationElement1692,
+																					run: (*parser).callonListContinuationElement1731,
 																					expr: &andExpr{
 																						pos: position{line: 1761, col: 13, offset: 56899},
 																						expr: &actionExpr{
-																							pos: position{line: 2887, col: 11, offset: 91347},
-																							run: (*parser).callonListContinuationElement1694,
+																							pos: position{line: 2893, col: 11, offset: 91459},
+																							run: (*parser).callonListContinuationElement1733,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2887, col: 11, offset: 91347},
+																								pos: position{line: 2893, col: 11, offset: 91459},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2887, col: 11, offset: 91347},
+																									pos:        position{line: 2893, col: 11, offset: 91459},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37567,7 +37925,7 @@ var g = &grammar{
 													label: "content",
 													expr: &actionExpr{
 														pos: position{line: 1527, col: 5, offset: 49543},
-														run: (*parser).callonListContinuationElement1698,
+														run: (*parser).callonListContinuationElement1737,
 														expr: &seqExpr{
 															pos: position{line: 1527, col: 5, offset: 49543},
 															exprs: []interface{}{
@@ -37575,23 +37933,23 @@ var g = &grammar{
 																	pos: position{line: 1527, col: 5, offset: 49543},
 																	expr: &actionExpr{
 																		pos: position{line: 687, col: 14, offset: 21835},
-																		run: (*parser).callonListContinuationElement1701,
+																		run: (*parser).callonListContinuationElement1740,
 																		expr: &seqExpr{
 																			pos: position{line: 687, col: 14, offset: 21835},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2900, col: 11, offset: 91620},
+																					pos: position{line: 2906, col: 11, offset: 91732},
 																					expr: &anyMatcher{
-																						line: 2900, col: 13, offset: 91622,
+																						line: 2906, col: 13, offset: 91734,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 687, col: 21, offset: 21842},
 																					expr: &actionExpr{
-																						pos: position{line: 2883, col: 10, offset: 91286},
-																						run: (*parser).callonListContinuationElement1706,
+																						pos: position{line: 2889, col: 10, offset: 91398},
+																						run: (*parser).callonListContinuationElement1745,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2883, col: 10, offset: 91286},
+																							pos:        position{line: 2889, col: 10, offset: 91398},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37600,28 +37958,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2905, col: 8, offset: 91684},
+																					pos: position{line: 2911, col: 8, offset: 91796},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2892, col: 12, offset: 91457},
-																							run: (*parser).callonListContinuationElement1709,
+																							pos: position{line: 2898, col: 12, offset: 91569},
+																							run: (*parser).callonListContinuationElement1748,
 																							expr: &choiceExpr{
-																								pos: position{line: 2892, col: 13, offset: 91458},
+																								pos: position{line: 2898, col: 13, offset: 91570},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91458},
+																										pos:        position{line: 2898, col: 13, offset: 91570},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 20, offset: 91465},
+																										pos:        position{line: 2898, col: 20, offset: 91577},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 29, offset: 91474},
+																										pos:        position{line: 2898, col: 29, offset: 91586},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37630,9 +37988,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2902, col: 8, offset: 91634},
+																							pos: position{line: 2908, col: 8, offset: 91746},
 																							expr: &anyMatcher{
-																								line: 2902, col: 9, offset: 91635,
+																								line: 2908, col: 9, offset: 91747,
 																							},
 																						},
 																					},
@@ -37655,10 +38013,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1558, col: 31, offset: 50388},
 																				expr: &actionExpr{
-																					pos: position{line: 2883, col: 10, offset: 91286},
-																					run: (*parser).callonListContinuationElement1720,
+																					pos: position{line: 2889, col: 10, offset: 91398},
+																					run: (*parser).callonListContinuationElement1759,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2883, col: 10, offset: 91286},
+																						pos:        position{line: 2889, col: 10, offset: 91398},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -37667,25 +38025,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2892, col: 12, offset: 91457},
-																				run: (*parser).callonListContinuationElement1722,
+																				pos: position{line: 2898, col: 12, offset: 91569},
+																				run: (*parser).callonListContinuationElement1761,
 																				expr: &choiceExpr{
-																					pos: position{line: 2892, col: 13, offset: 91458},
+																					pos: position{line: 2898, col: 13, offset: 91570},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 13, offset: 91458},
+																							pos:        position{line: 2898, col: 13, offset: 91570},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 20, offset: 91465},
+																							pos:        position{line: 2898, col: 20, offset: 91577},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 29, offset: 91474},
+																							pos:        position{line: 2898, col: 29, offset: 91586},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -37700,17 +38058,17 @@ var g = &grammar{
 																	pos: position{line: 1529, col: 5, offset: 49586},
 																	expr: &actionExpr{
 																		pos: position{line: 1599, col: 5, offset: 51603},
-																		run: (*parser).callonListContinuationElement1728,
+																		run: (*parser).callonListContinuationElement1767,
 																		expr: &seqExpr{
 																			pos: position{line: 1599, col: 5, offset: 51603},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1599, col: 5, offset: 51603},
 																					expr: &actionExpr{
-																						pos: position{line: 2883, col: 10, offset: 91286},
-																						run: (*parser).callonListContinuationElement1731,
+																						pos: position{line: 2889, col: 10, offset: 91398},
+																						run: (*parser).callonListContinuationElement1770,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2883, col: 10, offset: 91286},
+																							pos:        position{line: 2889, col: 10, offset: 91398},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37726,7 +38084,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 1601, col: 9, offset: 51673},
-																								run: (*parser).callonListContinuationElement1735,
+																								run: (*parser).callonListContinuationElement1774,
 																								expr: &seqExpr{
 																									pos: position{line: 1601, col: 9, offset: 51673},
 																									exprs: []interface{}{
@@ -37735,7 +38093,7 @@ var g = &grammar{
 																											label: "depth",
 																											expr: &actionExpr{
 																												pos: position{line: 1601, col: 16, offset: 51680},
-																												run: (*parser).callonListContinuationElement1738,
+																												run: (*parser).callonListContinuationElement1777,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 1601, col: 16, offset: 51680},
 																													expr: &litMatcher{
@@ -37749,14 +38107,14 @@ var g = &grammar{
 																										},
 																										&andCodeExpr{
 																											pos: position{line: 1605, col: 9, offset: 51781},
-																											run: (*parser).callonListContinuationElement1741,
+																											run: (*parser).callonListContinuationElement1780,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
 																								pos: position{line: 1624, col: 11, offset: 52498},
-																								run: (*parser).callonListContinuationElement1742,
+																								run: (*parser).callonListContinuationElement1781,
 																								expr: &seqExpr{
 																									pos: position{line: 1624, col: 11, offset: 52498},
 																									exprs: []interface{}{
@@ -37781,7 +38139,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1626, col: 13, offset: 52624},
-																								run: (*parser).callonListContinuationElement1747,
+																								run: (*parser).callonListContinuationElement1786,
 																								expr: &seqExpr{
 																									pos: position{line: 1626, col: 13, offset: 52624},
 																									exprs: []interface{}{
@@ -37803,7 +38161,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1628, col: 13, offset: 52752},
-																								run: (*parser).callonListContinuationElement1751,
+																								run: (*parser).callonListContinuationElement1790,
 																								expr: &seqExpr{
 																									pos: position{line: 1628, col: 13, offset: 52752},
 																									exprs: []interface{}{
@@ -37825,7 +38183,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1630, col: 13, offset: 52880},
-																								run: (*parser).callonListContinuationElement1755,
+																								run: (*parser).callonListContinuationElement1794,
 																								expr: &seqExpr{
 																									pos: position{line: 1630, col: 13, offset: 52880},
 																									exprs: []interface{}{
@@ -37850,7 +38208,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 1632, col: 13, offset: 53013},
-																								run: (*parser).callonListContinuationElement1760,
+																								run: (*parser).callonListContinuationElement1799,
 																								expr: &seqExpr{
 																									pos: position{line: 1632, col: 13, offset: 53013},
 																									exprs: []interface{}{
@@ -37877,12 +38235,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2887, col: 11, offset: 91347},
-																					run: (*parser).callonListContinuationElement1765,
+																					pos: position{line: 2893, col: 11, offset: 91459},
+																					run: (*parser).callonListContinuationElement1804,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2887, col: 11, offset: 91347},
+																						pos: position{line: 2893, col: 11, offset: 91459},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2887, col: 11, offset: 91347},
+																							pos:        position{line: 2893, col: 11, offset: 91459},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37898,17 +38256,17 @@ var g = &grammar{
 																	pos: position{line: 1530, col: 5, offset: 49616},
 																	expr: &actionExpr{
 																		pos: position{line: 1649, col: 5, offset: 53565},
-																		run: (*parser).callonListContinuationElement1769,
+																		run: (*parser).callonListContinuationElement1808,
 																		expr: &seqExpr{
 																			pos: position{line: 1649, col: 5, offset: 53565},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1649, col: 5, offset: 53565},
 																					expr: &actionExpr{
-																						pos: position{line: 2883, col: 10, offset: 91286},
-																						run: (*parser).callonListContinuationElement1772,
+																						pos: position{line: 2889, col: 10, offset: 91398},
+																						run: (*parser).callonListContinuationElement1811,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2883, col: 10, offset: 91286},
+																							pos:        position{line: 2889, col: 10, offset: 91398},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37921,7 +38279,7 @@ var g = &grammar{
 																					label: "style",
 																					expr: &actionExpr{
 																						pos: position{line: 1651, col: 9, offset: 53593},
-																						run: (*parser).callonListContinuationElement1775,
+																						run: (*parser).callonListContinuationElement1814,
 																						expr: &choiceExpr{
 																							pos: position{line: 1651, col: 10, offset: 53594},
 																							alternatives: []interface{}{
@@ -37946,15 +38304,15 @@ var g = &grammar{
 																				},
 																				&andCodeExpr{
 																					pos: position{line: 1654, col: 7, offset: 53693},
-																					run: (*parser).callonListContinuationElement1780,
+																					run: (*parser).callonListContinuationElement1819,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2887, col: 11, offset: 91347},
-																					run: (*parser).callonListContinuationElement1781,
+																					pos: position{line: 2893, col: 11, offset: 91459},
+																					run: (*parser).callonListContinuationElement1820,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2887, col: 11, offset: 91347},
+																						pos: position{line: 2893, col: 11, offset: 91459},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2887, col: 11, offset: 91347},
+																							pos:        position{line: 2893, col: 11, offset: 91459},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37970,7 +38328,7 @@ var g = &grammar{
 																	pos: position{line: 1531, col: 5, offset: 49648},
 																	expr: &actionExpr{
 																		pos: position{line: 1739, col: 5, offset: 56134},
-																		run: (*parser).callonListContinuationElement1785,
+																		run: (*parser).callonListContinuationElement1824,
 																		expr: &seqExpr{
 																			pos: position{line: 1739, col: 5, offset: 56134},
 																			exprs: []interface{}{
@@ -37985,7 +38343,7 @@ var g = &grammar{
 																					label: "ref",
 																					expr: &actionExpr{
 																						pos: position{line: 1739, col: 14, offset: 56143},
-																						run: (*parser).callonListContinuationElement1789,
+																						run: (*parser).callonListContinuationElement1828,
 																						expr: &oneOrMoreExpr{
 																							pos: position{line: 1739, col: 14, offset: 56143},
 																							expr: &charClassMatcher{
@@ -38005,12 +38363,12 @@ var g = &grammar{
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2887, col: 11, offset: 91347},
-																					run: (*parser).callonListContinuationElement1793,
+																					pos: position{line: 2893, col: 11, offset: 91459},
+																					run: (*parser).callonListContinuationElement1832,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2887, col: 11, offset: 91347},
+																						pos: position{line: 2893, col: 11, offset: 91459},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2887, col: 11, offset: 91347},
+																							pos:        position{line: 2893, col: 11, offset: 91459},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38029,7 +38387,7 @@ var g = &grammar{
 																		exprs: []interface{}{
 																			&actionExpr{
 																				pos: position{line: 1684, col: 5, offset: 54584},
-																				run: (*parser).callonListContinuationElement1798,
+																				run: (*parser).callonListContinuationElement1837,
 																				expr: &seqExpr{
 																					pos: position{line: 1684, col: 5, offset: 54584},
 																					exprs: []interface{}{
@@ -38065,7 +38423,7 @@ var g = &grammar{
 																										pos: position{line: 1685, col: 6, offset: 54617},
 																										expr: &actionExpr{
 																											pos: position{line: 1690, col: 5, offset: 54767},
-																											run: (*parser).callonListContinuationElement1808,
+																											run: (*parser).callonListContinuationElement1847,
 																											expr: &seqExpr{
 																												pos: position{line: 1690, col: 5, offset: 54767},
 																												exprs: []interface{}{
@@ -38074,7 +38432,7 @@ var g = &grammar{
 																														label: "separator",
 																														expr: &actionExpr{
 																															pos: position{line: 1690, col: 16, offset: 54778},
-																															run: (*parser).callonListContinuationElement1811,
+																															run: (*parser).callonListContinuationElement1850,
 																															expr: &oneOrMoreExpr{
 																																pos: position{line: 1690, col: 16, offset: 54778},
 																																expr: &litMatcher{
@@ -38088,7 +38446,7 @@ var g = &grammar{
 																													},
 																													&andCodeExpr{
 																														pos: position{line: 1693, col: 5, offset: 54836},
-																														run: (*parser).callonListContinuationElement1814,
+																														run: (*parser).callonListContinuationElement1853,
 																													},
 																												},
 																											},
@@ -38097,28 +38455,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1685, col: 35, offset: 54646},
 																										expr: &choiceExpr{
-																											pos: position{line: 2905, col: 8, offset: 91684},
+																											pos: position{line: 2911, col: 8, offset: 91796},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2892, col: 12, offset: 91457},
-																													run: (*parser).callonListContinuationElement1817,
+																													pos: position{line: 2898, col: 12, offset: 91569},
+																													run: (*parser).callonListContinuationElement1856,
 																													expr: &choiceExpr{
-																														pos: position{line: 2892, col: 13, offset: 91458},
+																														pos: position{line: 2898, col: 13, offset: 91570},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 13, offset: 91458},
+																																pos:        position{line: 2898, col: 13, offset: 91570},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 20, offset: 91465},
+																																pos:        position{line: 2898, col: 20, offset: 91577},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 29, offset: 91474},
+																																pos:        position{line: 2898, col: 29, offset: 91586},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38127,9 +38485,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2902, col: 8, offset: 91634},
+																													pos: position{line: 2908, col: 8, offset: 91746},
 																													expr: &anyMatcher{
-																														line: 2902, col: 9, offset: 91635,
+																														line: 2908, col: 9, offset: 91747,
 																													},
 																												},
 																											},
@@ -38146,7 +38504,7 @@ var g = &grammar{
 																			},
 																			&actionExpr{
 																				pos: position{line: 1690, col: 5, offset: 54767},
-																				run: (*parser).callonListContinuationElement1825,
+																				run: (*parser).callonListContinuationElement1864,
 																				expr: &seqExpr{
 																					pos: position{line: 1690, col: 5, offset: 54767},
 																					exprs: []interface{}{
@@ -38155,7 +38513,7 @@ var g = &grammar{
 																							label: "separator",
 																							expr: &actionExpr{
 																								pos: position{line: 1690, col: 16, offset: 54778},
-																								run: (*parser).callonListContinuationElement1828,
+																								run: (*parser).callonListContinuationElement1867,
 																								expr: &oneOrMoreExpr{
 																									pos: position{line: 1690, col: 16, offset: 54778},
 																									expr: &litMatcher{
@@ -38169,7 +38527,7 @@ var g = &grammar{
 																						},
 																						&andCodeExpr{
 																							pos: position{line: 1693, col: 5, offset: 54836},
-																							run: (*parser).callonListContinuationElement1831,
+																							run: (*parser).callonListContinuationElement1870,
 																						},
 																					},
 																				},
@@ -38181,14 +38539,14 @@ var g = &grammar{
 																	pos: position{line: 1533, col: 5, offset: 49736},
 																	expr: &actionExpr{
 																		pos: position{line: 734, col: 5, offset: 23388},
-																		run: (*parser).callonListContinuationElement1833,
+																		run: (*parser).callonListContinuationElement1872,
 																		expr: &seqExpr{
 																			pos: position{line: 734, col: 5, offset: 23388},
 																			exprs: []interface{}{
 																				&notExpr{
 																					pos: position{line: 734, col: 5, offset: 23388},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2773, col: 13, offset: 88381},
+																						pos:        position{line: 2779, col: 13, offset: 88493},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -38203,7 +38561,7 @@ var g = &grammar{
 																						alternatives: []interface{}{
 																							&actionExpr{
 																								pos: position{line: 750, col: 5, offset: 23930},
-																								run: (*parser).callonListContinuationElement1839,
+																								run: (*parser).callonListContinuationElement1878,
 																								expr: &seqExpr{
 																									pos: position{line: 750, col: 5, offset: 23930},
 																									exprs: []interface{}{
@@ -38212,7 +38570,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 750, col: 16, offset: 23941},
-																												run: (*parser).callonListContinuationElement1842,
+																												run: (*parser).callonListContinuationElement1881,
 																												expr: &seqExpr{
 																													pos: position{line: 750, col: 16, offset: 23941},
 																													exprs: []interface{}{
@@ -38238,10 +38596,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 752, col: 8, offset: 24032},
 																											expr: &actionExpr{
-																												pos: position{line: 2883, col: 10, offset: 91286},
-																												run: (*parser).callonListContinuationElement1848,
+																												pos: position{line: 2889, col: 10, offset: 91398},
+																												run: (*parser).callonListContinuationElement1887,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2883, col: 10, offset: 91286},
+																													pos:        position{line: 2889, col: 10, offset: 91398},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38250,28 +38608,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2905, col: 8, offset: 91684},
+																											pos: position{line: 2911, col: 8, offset: 91796},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2892, col: 12, offset: 91457},
-																													run: (*parser).callonListContinuationElement1851,
+																													pos: position{line: 2898, col: 12, offset: 91569},
+																													run: (*parser).callonListContinuationElement1890,
 																													expr: &choiceExpr{
-																														pos: position{line: 2892, col: 13, offset: 91458},
+																														pos: position{line: 2898, col: 13, offset: 91570},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 13, offset: 91458},
+																																pos:        position{line: 2898, col: 13, offset: 91570},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 20, offset: 91465},
+																																pos:        position{line: 2898, col: 20, offset: 91577},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 29, offset: 91474},
+																																pos:        position{line: 2898, col: 29, offset: 91586},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38280,9 +38638,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2902, col: 8, offset: 91634},
+																													pos: position{line: 2908, col: 8, offset: 91746},
 																													expr: &anyMatcher{
-																														line: 2902, col: 9, offset: 91635,
+																														line: 2908, col: 9, offset: 91747,
 																													},
 																												},
 																											},
@@ -38292,7 +38650,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 757, col: 5, offset: 24178},
-																								run: (*parser).callonListContinuationElement1858,
+																								run: (*parser).callonListContinuationElement1897,
 																								expr: &seqExpr{
 																									pos: position{line: 757, col: 5, offset: 24178},
 																									exprs: []interface{}{
@@ -38301,7 +38659,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 757, col: 16, offset: 24189},
-																												run: (*parser).callonListContinuationElement1861,
+																												run: (*parser).callonListContinuationElement1900,
 																												expr: &seqExpr{
 																													pos: position{line: 757, col: 16, offset: 24189},
 																													exprs: []interface{}{
@@ -38327,10 +38685,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 759, col: 8, offset: 24280},
 																											expr: &actionExpr{
-																												pos: position{line: 2883, col: 10, offset: 91286},
-																												run: (*parser).callonListContinuationElement1867,
+																												pos: position{line: 2889, col: 10, offset: 91398},
+																												run: (*parser).callonListContinuationElement1906,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2883, col: 10, offset: 91286},
+																													pos:        position{line: 2889, col: 10, offset: 91398},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38339,28 +38697,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2905, col: 8, offset: 91684},
+																											pos: position{line: 2911, col: 8, offset: 91796},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2892, col: 12, offset: 91457},
-																													run: (*parser).callonListContinuationElement1870,
+																													pos: position{line: 2898, col: 12, offset: 91569},
+																													run: (*parser).callonListContinuationElement1909,
 																													expr: &choiceExpr{
-																														pos: position{line: 2892, col: 13, offset: 91458},
+																														pos: position{line: 2898, col: 13, offset: 91570},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 13, offset: 91458},
+																																pos:        position{line: 2898, col: 13, offset: 91570},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 20, offset: 91465},
+																																pos:        position{line: 2898, col: 20, offset: 91577},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 29, offset: 91474},
+																																pos:        position{line: 2898, col: 29, offset: 91586},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38369,9 +38727,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2902, col: 8, offset: 91634},
+																													pos: position{line: 2908, col: 8, offset: 91746},
 																													expr: &anyMatcher{
-																														line: 2902, col: 9, offset: 91635,
+																														line: 2908, col: 9, offset: 91747,
 																													},
 																												},
 																											},
@@ -38381,7 +38739,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 770, col: 26, offset: 24666},
-																								run: (*parser).callonListContinuationElement1877,
+																								run: (*parser).callonListContinuationElement1916,
 																								expr: &seqExpr{
 																									pos: position{line: 770, col: 26, offset: 24666},
 																									exprs: []interface{}{
@@ -38396,7 +38754,7 @@ var g = &grammar{
 																											label: "language",
 																											expr: &actionExpr{
 																												pos: position{line: 774, col: 13, offset: 24802},
-																												run: (*parser).callonListContinuationElement1881,
+																												run: (*parser).callonListContinuationElement1920,
 																												expr: &oneOrMoreExpr{
 																													pos: position{line: 774, col: 14, offset: 24803},
 																													expr: &charClassMatcher{
@@ -38412,10 +38770,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 770, col: 52, offset: 24692},
 																											expr: &actionExpr{
-																												pos: position{line: 2883, col: 10, offset: 91286},
-																												run: (*parser).callonListContinuationElement1885,
+																												pos: position{line: 2889, col: 10, offset: 91398},
+																												run: (*parser).callonListContinuationElement1924,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2883, col: 10, offset: 91286},
+																													pos:        position{line: 2889, col: 10, offset: 91398},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38424,28 +38782,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2905, col: 8, offset: 91684},
+																											pos: position{line: 2911, col: 8, offset: 91796},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2892, col: 12, offset: 91457},
-																													run: (*parser).callonListContinuationElement1888,
+																													pos: position{line: 2898, col: 12, offset: 91569},
+																													run: (*parser).callonListContinuationElement1927,
 																													expr: &choiceExpr{
-																														pos: position{line: 2892, col: 13, offset: 91458},
+																														pos: position{line: 2898, col: 13, offset: 91570},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 13, offset: 91458},
+																																pos:        position{line: 2898, col: 13, offset: 91570},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 20, offset: 91465},
+																																pos:        position{line: 2898, col: 20, offset: 91577},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 29, offset: 91474},
+																																pos:        position{line: 2898, col: 29, offset: 91586},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38454,9 +38812,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2902, col: 8, offset: 91634},
+																													pos: position{line: 2908, col: 8, offset: 91746},
 																													expr: &anyMatcher{
-																														line: 2902, col: 9, offset: 91635,
+																														line: 2908, col: 9, offset: 91747,
 																													},
 																												},
 																											},
@@ -38466,7 +38824,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 764, col: 5, offset: 24425},
-																								run: (*parser).callonListContinuationElement1895,
+																								run: (*parser).callonListContinuationElement1934,
 																								expr: &seqExpr{
 																									pos: position{line: 764, col: 5, offset: 24425},
 																									exprs: []interface{}{
@@ -38475,7 +38833,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 764, col: 16, offset: 24436},
-																												run: (*parser).callonListContinuationElement1898,
+																												run: (*parser).callonListContinuationElement1937,
 																												expr: &seqExpr{
 																													pos: position{line: 764, col: 16, offset: 24436},
 																													exprs: []interface{}{
@@ -38501,10 +38859,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 766, col: 8, offset: 24526},
 																											expr: &actionExpr{
-																												pos: position{line: 2883, col: 10, offset: 91286},
-																												run: (*parser).callonListContinuationElement1904,
+																												pos: position{line: 2889, col: 10, offset: 91398},
+																												run: (*parser).callonListContinuationElement1943,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2883, col: 10, offset: 91286},
+																													pos:        position{line: 2889, col: 10, offset: 91398},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38513,28 +38871,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2905, col: 8, offset: 91684},
+																											pos: position{line: 2911, col: 8, offset: 91796},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2892, col: 12, offset: 91457},
-																													run: (*parser).callonListContinuationElement1907,
+																													pos: position{line: 2898, col: 12, offset: 91569},
+																													run: (*parser).callonListContinuationElement1946,
 																													expr: &choiceExpr{
-																														pos: position{line: 2892, col: 13, offset: 91458},
+																														pos: position{line: 2898, col: 13, offset: 91570},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 13, offset: 91458},
+																																pos:        position{line: 2898, col: 13, offset: 91570},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 20, offset: 91465},
+																																pos:        position{line: 2898, col: 20, offset: 91577},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 29, offset: 91474},
+																																pos:        position{line: 2898, col: 29, offset: 91586},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38543,9 +38901,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2902, col: 8, offset: 91634},
+																													pos: position{line: 2908, col: 8, offset: 91746},
 																													expr: &anyMatcher{
-																														line: 2902, col: 9, offset: 91635,
+																														line: 2908, col: 9, offset: 91747,
 																													},
 																												},
 																											},
@@ -38555,7 +38913,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 779, col: 5, offset: 24962},
-																								run: (*parser).callonListContinuationElement1914,
+																								run: (*parser).callonListContinuationElement1953,
 																								expr: &seqExpr{
 																									pos: position{line: 779, col: 5, offset: 24962},
 																									exprs: []interface{}{
@@ -38564,7 +38922,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 779, col: 16, offset: 24973},
-																												run: (*parser).callonListContinuationElement1917,
+																												run: (*parser).callonListContinuationElement1956,
 																												expr: &seqExpr{
 																													pos: position{line: 779, col: 16, offset: 24973},
 																													exprs: []interface{}{
@@ -38590,10 +38948,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 781, col: 8, offset: 25064},
 																											expr: &actionExpr{
-																												pos: position{line: 2883, col: 10, offset: 91286},
-																												run: (*parser).callonListContinuationElement1923,
+																												pos: position{line: 2889, col: 10, offset: 91398},
+																												run: (*parser).callonListContinuationElement1962,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2883, col: 10, offset: 91286},
+																													pos:        position{line: 2889, col: 10, offset: 91398},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38602,28 +38960,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2905, col: 8, offset: 91684},
+																											pos: position{line: 2911, col: 8, offset: 91796},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2892, col: 12, offset: 91457},
-																													run: (*parser).callonListContinuationElement1926,
+																													pos: position{line: 2898, col: 12, offset: 91569},
+																													run: (*parser).callonListContinuationElement1965,
 																													expr: &choiceExpr{
-																														pos: position{line: 2892, col: 13, offset: 91458},
+																														pos: position{line: 2898, col: 13, offset: 91570},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 13, offset: 91458},
+																																pos:        position{line: 2898, col: 13, offset: 91570},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 20, offset: 91465},
+																																pos:        position{line: 2898, col: 20, offset: 91577},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 29, offset: 91474},
+																																pos:        position{line: 2898, col: 29, offset: 91586},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38632,9 +38990,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2902, col: 8, offset: 91634},
+																													pos: position{line: 2908, col: 8, offset: 91746},
 																													expr: &anyMatcher{
-																														line: 2902, col: 9, offset: 91635,
+																														line: 2908, col: 9, offset: 91747,
 																													},
 																												},
 																											},
@@ -38644,7 +39002,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 793, col: 5, offset: 25438},
-																								run: (*parser).callonListContinuationElement1933,
+																								run: (*parser).callonListContinuationElement1972,
 																								expr: &seqExpr{
 																									pos: position{line: 793, col: 5, offset: 25438},
 																									exprs: []interface{}{
@@ -38653,7 +39011,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 793, col: 16, offset: 25449},
-																												run: (*parser).callonListContinuationElement1936,
+																												run: (*parser).callonListContinuationElement1975,
 																												expr: &seqExpr{
 																													pos: position{line: 793, col: 16, offset: 25449},
 																													exprs: []interface{}{
@@ -38679,10 +39037,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 795, col: 8, offset: 25540},
 																											expr: &actionExpr{
-																												pos: position{line: 2883, col: 10, offset: 91286},
-																												run: (*parser).callonListContinuationElement1942,
+																												pos: position{line: 2889, col: 10, offset: 91398},
+																												run: (*parser).callonListContinuationElement1981,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2883, col: 10, offset: 91286},
+																													pos:        position{line: 2889, col: 10, offset: 91398},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38691,28 +39049,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2905, col: 8, offset: 91684},
+																											pos: position{line: 2911, col: 8, offset: 91796},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2892, col: 12, offset: 91457},
-																													run: (*parser).callonListContinuationElement1945,
+																													pos: position{line: 2898, col: 12, offset: 91569},
+																													run: (*parser).callonListContinuationElement1984,
 																													expr: &choiceExpr{
-																														pos: position{line: 2892, col: 13, offset: 91458},
+																														pos: position{line: 2898, col: 13, offset: 91570},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 13, offset: 91458},
+																																pos:        position{line: 2898, col: 13, offset: 91570},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 20, offset: 91465},
+																																pos:        position{line: 2898, col: 20, offset: 91577},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 29, offset: 91474},
+																																pos:        position{line: 2898, col: 29, offset: 91586},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38721,9 +39079,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2902, col: 8, offset: 91634},
+																													pos: position{line: 2908, col: 8, offset: 91746},
 																													expr: &anyMatcher{
-																														line: 2902, col: 9, offset: 91635,
+																														line: 2908, col: 9, offset: 91747,
 																													},
 																												},
 																											},
@@ -38733,7 +39091,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 800, col: 5, offset: 25690},
-																								run: (*parser).callonListContinuationElement1952,
+																								run: (*parser).callonListContinuationElement1991,
 																								expr: &seqExpr{
 																									pos: position{line: 800, col: 5, offset: 25690},
 																									exprs: []interface{}{
@@ -38742,7 +39100,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 800, col: 16, offset: 25701},
-																												run: (*parser).callonListContinuationElement1955,
+																												run: (*parser).callonListContinuationElement1994,
 																												expr: &seqExpr{
 																													pos: position{line: 800, col: 16, offset: 25701},
 																													exprs: []interface{}{
@@ -38768,10 +39126,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 802, col: 8, offset: 25792},
 																											expr: &actionExpr{
-																												pos: position{line: 2883, col: 10, offset: 91286},
-																												run: (*parser).callonListContinuationElement1961,
+																												pos: position{line: 2889, col: 10, offset: 91398},
+																												run: (*parser).callonListContinuationElement2000,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2883, col: 10, offset: 91286},
+																													pos:        position{line: 2889, col: 10, offset: 91398},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38780,28 +39138,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2905, col: 8, offset: 91684},
+																											pos: position{line: 2911, col: 8, offset: 91796},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2892, col: 12, offset: 91457},
-																													run: (*parser).callonListContinuationElement1964,
+																													pos: position{line: 2898, col: 12, offset: 91569},
+																													run: (*parser).callonListContinuationElement2003,
 																													expr: &choiceExpr{
-																														pos: position{line: 2892, col: 13, offset: 91458},
+																														pos: position{line: 2898, col: 13, offset: 91570},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 13, offset: 91458},
+																																pos:        position{line: 2898, col: 13, offset: 91570},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 20, offset: 91465},
+																																pos:        position{line: 2898, col: 20, offset: 91577},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 29, offset: 91474},
+																																pos:        position{line: 2898, col: 29, offset: 91586},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38810,9 +39168,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2902, col: 8, offset: 91634},
+																													pos: position{line: 2908, col: 8, offset: 91746},
 																													expr: &anyMatcher{
-																														line: 2902, col: 9, offset: 91635,
+																														line: 2908, col: 9, offset: 91747,
 																													},
 																												},
 																											},
@@ -38822,7 +39180,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 807, col: 5, offset: 25940},
-																								run: (*parser).callonListContinuationElement1971,
+																								run: (*parser).callonListContinuationElement2010,
 																								expr: &seqExpr{
 																									pos: position{line: 807, col: 5, offset: 25940},
 																									exprs: []interface{}{
@@ -38831,7 +39189,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 807, col: 16, offset: 25951},
-																												run: (*parser).callonListContinuationElement1974,
+																												run: (*parser).callonListContinuationElement2013,
 																												expr: &seqExpr{
 																													pos: position{line: 807, col: 16, offset: 25951},
 																													exprs: []interface{}{
@@ -38857,10 +39215,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 809, col: 8, offset: 26042},
 																											expr: &actionExpr{
-																												pos: position{line: 2883, col: 10, offset: 91286},
-																												run: (*parser).callonListContinuationElement1980,
+																												pos: position{line: 2889, col: 10, offset: 91398},
+																												run: (*parser).callonListContinuationElement2019,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2883, col: 10, offset: 91286},
+																													pos:        position{line: 2889, col: 10, offset: 91398},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38869,28 +39227,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2905, col: 8, offset: 91684},
+																											pos: position{line: 2911, col: 8, offset: 91796},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2892, col: 12, offset: 91457},
-																													run: (*parser).callonListContinuationElement1983,
+																													pos: position{line: 2898, col: 12, offset: 91569},
+																													run: (*parser).callonListContinuationElement2022,
 																													expr: &choiceExpr{
-																														pos: position{line: 2892, col: 13, offset: 91458},
+																														pos: position{line: 2898, col: 13, offset: 91570},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 13, offset: 91458},
+																																pos:        position{line: 2898, col: 13, offset: 91570},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 20, offset: 91465},
+																																pos:        position{line: 2898, col: 20, offset: 91577},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 29, offset: 91474},
+																																pos:        position{line: 2898, col: 29, offset: 91586},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38899,9 +39257,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2902, col: 8, offset: 91634},
+																													pos: position{line: 2908, col: 8, offset: 91746},
 																													expr: &anyMatcher{
-																														line: 2902, col: 9, offset: 91635,
+																														line: 2908, col: 9, offset: 91747,
 																													},
 																												},
 																											},
@@ -38911,7 +39269,7 @@ var g = &grammar{
 																							},
 																							&actionExpr{
 																								pos: position{line: 814, col: 5, offset: 26186},
-																								run: (*parser).callonListContinuationElement1990,
+																								run: (*parser).callonListContinuationElement2029,
 																								expr: &seqExpr{
 																									pos: position{line: 814, col: 5, offset: 26186},
 																									exprs: []interface{}{
@@ -38920,7 +39278,7 @@ var g = &grammar{
 																											label: "delimiter",
 																											expr: &actionExpr{
 																												pos: position{line: 814, col: 16, offset: 26197},
-																												run: (*parser).callonListContinuationElement1993,
+																												run: (*parser).callonListContinuationElement2032,
 																												expr: &seqExpr{
 																													pos: position{line: 814, col: 16, offset: 26197},
 																													exprs: []interface{}{
@@ -38946,10 +39304,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 816, col: 8, offset: 26288},
 																											expr: &actionExpr{
-																												pos: position{line: 2883, col: 10, offset: 91286},
-																												run: (*parser).callonListContinuationElement1999,
+																												pos: position{line: 2889, col: 10, offset: 91398},
+																												run: (*parser).callonListContinuationElement2038,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2883, col: 10, offset: 91286},
+																													pos:        position{line: 2889, col: 10, offset: 91398},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38958,28 +39316,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2905, col: 8, offset: 91684},
+																											pos: position{line: 2911, col: 8, offset: 91796},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2892, col: 12, offset: 91457},
-																													run: (*parser).callonListContinuationElement2002,
+																													pos: position{line: 2898, col: 12, offset: 91569},
+																													run: (*parser).callonListContinuationElement2041,
 																													expr: &choiceExpr{
-																														pos: position{line: 2892, col: 13, offset: 91458},
+																														pos: position{line: 2898, col: 13, offset: 91570},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 13, offset: 91458},
+																																pos:        position{line: 2898, col: 13, offset: 91570},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 20, offset: 91465},
+																																pos:        position{line: 2898, col: 20, offset: 91577},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2892, col: 29, offset: 91474},
+																																pos:        position{line: 2898, col: 29, offset: 91586},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38988,9 +39346,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2902, col: 8, offset: 91634},
+																													pos: position{line: 2908, col: 8, offset: 91746},
 																													expr: &anyMatcher{
-																														line: 2902, col: 9, offset: 91635,
+																														line: 2908, col: 9, offset: 91747,
 																													},
 																												},
 																											},
@@ -39009,12 +39367,12 @@ var g = &grammar{
 																	pos:   position{line: 1534, col: 5, offset: 49756},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2833, col: 14, offset: 89879},
-																		run: (*parser).callonListContinuationElement2010,
+																		pos: position{line: 2839, col: 14, offset: 89991},
+																		run: (*parser).callonListContinuationElement2049,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2833, col: 14, offset: 89879},
+																			pos: position{line: 2839, col: 14, offset: 89991},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2833, col: 14, offset: 89879},
+																				pos:        position{line: 2839, col: 14, offset: 89991},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -39024,28 +39382,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
-																			run: (*parser).callonListContinuationElement2014,
+																			pos: position{line: 2898, col: 12, offset: 91569},
+																			run: (*parser).callonListContinuationElement2053,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -39054,9 +39412,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -39121,10 +39479,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1728, col: 66, offset: 55834},
 							expr: &actionExpr{
-								pos: position{line: 2883, col: 10, offset: 91286},
+								pos: position{line: 2889, col: 10, offset: 91398},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2883, col: 10, offset: 91286},
+									pos:        position{line: 2889, col: 10, offset: 91398},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -39138,25 +39496,25 @@ var g = &grammar{
 								pos: position{line: 1728, col: 75, offset: 55843},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2892, col: 12, offset: 91457},
+										pos: position{line: 2898, col: 12, offset: 91569},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2892, col: 13, offset: 91458},
+											pos: position{line: 2898, col: 13, offset: 91570},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2892, col: 13, offset: 91458},
+													pos:        position{line: 2898, col: 13, offset: 91570},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2892, col: 20, offset: 91465},
+													pos:        position{line: 2898, col: 20, offset: 91577},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2892, col: 29, offset: 91474},
+													pos:        position{line: 2898, col: 29, offset: 91586},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -39165,9 +39523,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2902, col: 8, offset: 91634},
+										pos: position{line: 2908, col: 8, offset: 91746},
 										expr: &anyMatcher{
-											line: 2902, col: 9, offset: 91635,
+											line: 2908, col: 9, offset: 91747,
 										},
 									},
 									&ruleRefExpr{
@@ -39196,7 +39554,7 @@ var g = &grammar{
 								pos: position{line: 1769, col: 7, offset: 57098},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2773, col: 13, offset: 88381},
+										pos:        position{line: 2779, col: 13, offset: 88493},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
@@ -39215,12 +39573,12 @@ var g = &grammar{
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2887, col: 11, offset: 91347},
+													pos: position{line: 2893, col: 11, offset: 91459},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2887, col: 11, offset: 91347},
+														pos: position{line: 2893, col: 11, offset: 91459},
 														expr: &charClassMatcher{
-															pos:        position{line: 2887, col: 11, offset: 91347},
+															pos:        position{line: 2893, col: 11, offset: 91459},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -39311,12 +39669,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1761, col: 13, offset: 56899},
 																expr: &actionExpr{
-																	pos: position{line: 2887, col: 11, offset: 91347},
+																	pos: position{line: 2893, col: 11, offset: 91459},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2887, col: 11, offset: 91347},
+																		pos: position{line: 2893, col: 11, offset: 91459},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2887, col: 11, offset: 91347},
+																			pos:        position{line: 2893, col: 11, offset: 91459},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39347,12 +39705,12 @@ var g = &grammar{
 											pos:   position{line: 1807, col: 5, offset: 58385},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2833, col: 14, offset: 89879},
+												pos: position{line: 2839, col: 14, offset: 89991},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2833, col: 14, offset: 89879},
+													pos: position{line: 2839, col: 14, offset: 89991},
 													expr: &charClassMatcher{
-														pos:        position{line: 2833, col: 14, offset: 89879},
+														pos:        position{line: 2839, col: 14, offset: 89991},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39366,28 +39724,28 @@ var g = &grammar{
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2905, col: 8, offset: 91684},
+											pos: position{line: 2911, col: 8, offset: 91796},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2892, col: 12, offset: 91457},
+													pos: position{line: 2898, col: 12, offset: 91569},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2892, col: 13, offset: 91458},
+														pos: position{line: 2898, col: 13, offset: 91570},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2892, col: 13, offset: 91458},
+																pos:        position{line: 2898, col: 13, offset: 91570},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2892, col: 20, offset: 91465},
+																pos:        position{line: 2898, col: 20, offset: 91577},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2892, col: 29, offset: 91474},
+																pos:        position{line: 2898, col: 29, offset: 91586},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39396,9 +39754,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2902, col: 8, offset: 91634},
+													pos: position{line: 2908, col: 8, offset: 91746},
 													expr: &anyMatcher{
-														line: 2902, col: 9, offset: 91635,
+														line: 2908, col: 9, offset: 91747,
 													},
 												},
 											},
@@ -39423,9 +39781,9 @@ var g = &grammar{
 										pos: position{line: 1780, col: 9, offset: 57663},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2900, col: 11, offset: 91620},
+												pos: position{line: 2906, col: 11, offset: 91732},
 												expr: &anyMatcher{
-													line: 2900, col: 13, offset: 91622,
+													line: 2906, col: 13, offset: 91734,
 												},
 											},
 											&notExpr{
@@ -39437,18 +39795,18 @@ var g = &grammar{
 														pos: position{line: 687, col: 14, offset: 21835},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2900, col: 11, offset: 91620},
+																pos: position{line: 2906, col: 11, offset: 91732},
 																expr: &anyMatcher{
-																	line: 2900, col: 13, offset: 91622,
+																	line: 2906, col: 13, offset: 91734,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 687, col: 21, offset: 21842},
 																expr: &actionExpr{
-																	pos: position{line: 2883, col: 10, offset: 91286},
+																	pos: position{line: 2889, col: 10, offset: 91398},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2883, col: 10, offset: 91286},
+																		pos:        position{line: 2889, col: 10, offset: 91398},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39457,28 +39815,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2905, col: 8, offset: 91684},
+																pos: position{line: 2911, col: 8, offset: 91796},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2892, col: 12, offset: 91457},
+																		pos: position{line: 2898, col: 12, offset: 91569},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2892, col: 13, offset: 91458},
+																			pos: position{line: 2898, col: 13, offset: 91570},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2892, col: 13, offset: 91458},
+																					pos:        position{line: 2898, col: 13, offset: 91570},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2892, col: 20, offset: 91465},
+																					pos:        position{line: 2898, col: 20, offset: 91577},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2892, col: 29, offset: 91474},
+																					pos:        position{line: 2898, col: 29, offset: 91586},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39487,9 +39845,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2902, col: 8, offset: 91634},
+																		pos: position{line: 2908, col: 8, offset: 91746},
 																		expr: &anyMatcher{
-																			line: 2902, col: 9, offset: 91635,
+																			line: 2908, col: 9, offset: 91747,
 																		},
 																	},
 																},
@@ -39516,7 +39874,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 734, col: 5, offset: 23388},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2773, col: 13, offset: 88381},
+																	pos:        position{line: 2779, col: 13, offset: 88493},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39566,10 +39924,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 752, col: 8, offset: 24032},
 																						expr: &actionExpr{
-																							pos: position{line: 2883, col: 10, offset: 91286},
+																							pos: position{line: 2889, col: 10, offset: 91398},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2883, col: 10, offset: 91286},
+																								pos:        position{line: 2889, col: 10, offset: 91398},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39578,28 +39936,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2905, col: 8, offset: 91684},
+																						pos: position{line: 2911, col: 8, offset: 91796},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2892, col: 12, offset: 91457},
+																								pos: position{line: 2898, col: 12, offset: 91569},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 13, offset: 91458},
+																									pos: position{line: 2898, col: 13, offset: 91570},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 13, offset: 91458},
+																											pos:        position{line: 2898, col: 13, offset: 91570},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 20, offset: 91465},
+																											pos:        position{line: 2898, col: 20, offset: 91577},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 29, offset: 91474},
+																											pos:        position{line: 2898, col: 29, offset: 91586},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39608,9 +39966,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2902, col: 8, offset: 91634},
+																								pos: position{line: 2908, col: 8, offset: 91746},
 																								expr: &anyMatcher{
-																									line: 2902, col: 9, offset: 91635,
+																									line: 2908, col: 9, offset: 91747,
 																								},
 																							},
 																						},
@@ -39655,10 +40013,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 759, col: 8, offset: 24280},
 																						expr: &actionExpr{
-																							pos: position{line: 2883, col: 10, offset: 91286},
+																							pos: position{line: 2889, col: 10, offset: 91398},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2883, col: 10, offset: 91286},
+																								pos:        position{line: 2889, col: 10, offset: 91398},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39667,28 +40025,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2905, col: 8, offset: 91684},
+																						pos: position{line: 2911, col: 8, offset: 91796},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2892, col: 12, offset: 91457},
+																								pos: position{line: 2898, col: 12, offset: 91569},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 13, offset: 91458},
+																									pos: position{line: 2898, col: 13, offset: 91570},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 13, offset: 91458},
+																											pos:        position{line: 2898, col: 13, offset: 91570},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 20, offset: 91465},
+																											pos:        position{line: 2898, col: 20, offset: 91577},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 29, offset: 91474},
+																											pos:        position{line: 2898, col: 29, offset: 91586},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39697,9 +40055,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2902, col: 8, offset: 91634},
+																								pos: position{line: 2908, col: 8, offset: 91746},
 																								expr: &anyMatcher{
-																									line: 2902, col: 9, offset: 91635,
+																									line: 2908, col: 9, offset: 91747,
 																								},
 																							},
 																						},
@@ -39740,10 +40098,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 770, col: 52, offset: 24692},
 																						expr: &actionExpr{
-																							pos: position{line: 2883, col: 10, offset: 91286},
+																							pos: position{line: 2889, col: 10, offset: 91398},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2883, col: 10, offset: 91286},
+																								pos:        position{line: 2889, col: 10, offset: 91398},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39752,28 +40110,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2905, col: 8, offset: 91684},
+																						pos: position{line: 2911, col: 8, offset: 91796},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2892, col: 12, offset: 91457},
+																								pos: position{line: 2898, col: 12, offset: 91569},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 13, offset: 91458},
+																									pos: position{line: 2898, col: 13, offset: 91570},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 13, offset: 91458},
+																											pos:        position{line: 2898, col: 13, offset: 91570},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 20, offset: 91465},
+																											pos:        position{line: 2898, col: 20, offset: 91577},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 29, offset: 91474},
+																											pos:        position{line: 2898, col: 29, offset: 91586},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39782,9 +40140,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2902, col: 8, offset: 91634},
+																								pos: position{line: 2908, col: 8, offset: 91746},
 																								expr: &anyMatcher{
-																									line: 2902, col: 9, offset: 91635,
+																									line: 2908, col: 9, offset: 91747,
 																								},
 																							},
 																						},
@@ -39829,10 +40187,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 766, col: 8, offset: 24526},
 																						expr: &actionExpr{
-																							pos: position{line: 2883, col: 10, offset: 91286},
+																							pos: position{line: 2889, col: 10, offset: 91398},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2883, col: 10, offset: 91286},
+																								pos:        position{line: 2889, col: 10, offset: 91398},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39841,28 +40199,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2905, col: 8, offset: 91684},
+																						pos: position{line: 2911, col: 8, offset: 91796},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2892, col: 12, offset: 91457},
+																								pos: position{line: 2898, col: 12, offset: 91569},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 13, offset: 91458},
+																									pos: position{line: 2898, col: 13, offset: 91570},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 13, offset: 91458},
+																											pos:        position{line: 2898, col: 13, offset: 91570},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 20, offset: 91465},
+																											pos:        position{line: 2898, col: 20, offset: 91577},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 29, offset: 91474},
+																											pos:        position{line: 2898, col: 29, offset: 91586},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39871,9 +40229,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2902, col: 8, offset: 91634},
+																								pos: position{line: 2908, col: 8, offset: 91746},
 																								expr: &anyMatcher{
-																									line: 2902, col: 9, offset: 91635,
+																									line: 2908, col: 9, offset: 91747,
 																								},
 																							},
 																						},
@@ -39918,10 +40276,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 781, col: 8, offset: 25064},
 																						expr: &actionExpr{
-																							pos: position{line: 2883, col: 10, offset: 91286},
+																							pos: position{line: 2889, col: 10, offset: 91398},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2883, col: 10, offset: 91286},
+																								pos:        position{line: 2889, col: 10, offset: 91398},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39930,28 +40288,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2905, col: 8, offset: 91684},
+																						pos: position{line: 2911, col: 8, offset: 91796},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2892, col: 12, offset: 91457},
+																								pos: position{line: 2898, col: 12, offset: 91569},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 13, offset: 91458},
+																									pos: position{line: 2898, col: 13, offset: 91570},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 13, offset: 91458},
+																											pos:        position{line: 2898, col: 13, offset: 91570},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 20, offset: 91465},
+																											pos:        position{line: 2898, col: 20, offset: 91577},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 29, offset: 91474},
+																											pos:        position{line: 2898, col: 29, offset: 91586},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39960,9 +40318,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2902, col: 8, offset: 91634},
+																								pos: position{line: 2908, col: 8, offset: 91746},
 																								expr: &anyMatcher{
-																									line: 2902, col: 9, offset: 91635,
+																									line: 2908, col: 9, offset: 91747,
 																								},
 																							},
 																						},
@@ -40007,10 +40365,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 795, col: 8, offset: 25540},
 																						expr: &actionExpr{
-																							pos: position{line: 2883, col: 10, offset: 91286},
+																							pos: position{line: 2889, col: 10, offset: 91398},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2883, col: 10, offset: 91286},
+																								pos:        position{line: 2889, col: 10, offset: 91398},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40019,28 +40377,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2905, col: 8, offset: 91684},
+																						pos: position{line: 2911, col: 8, offset: 91796},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2892, col: 12, offset: 91457},
+																								pos: position{line: 2898, col: 12, offset: 91569},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 13, offset: 91458},
+																									pos: position{line: 2898, col: 13, offset: 91570},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 13, offset: 91458},
+																											pos:        position{line: 2898, col: 13, offset: 91570},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 20, offset: 91465},
+																											pos:        position{line: 2898, col: 20, offset: 91577},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 29, offset: 91474},
+																											pos:        position{line: 2898, col: 29, offset: 91586},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40049,9 +40407,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2902, col: 8, offset: 91634},
+																								pos: position{line: 2908, col: 8, offset: 91746},
 																								expr: &anyMatcher{
-																									line: 2902, col: 9, offset: 91635,
+																									line: 2908, col: 9, offset: 91747,
 																								},
 																							},
 																						},
@@ -40096,10 +40454,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 802, col: 8, offset: 25792},
 																						expr: &actionExpr{
-																							pos: position{line: 2883, col: 10, offset: 91286},
+																							pos: position{line: 2889, col: 10, offset: 91398},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2883, col: 10, offset: 91286},
+																								pos:        position{line: 2889, col: 10, offset: 91398},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40108,28 +40466,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2905, col: 8, offset: 91684},
+																						pos: position{line: 2911, col: 8, offset: 91796},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2892, col: 12, offset: 91457},
+																								pos: position{line: 2898, col: 12, offset: 91569},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 13, offset: 91458},
+																									pos: position{line: 2898, col: 13, offset: 91570},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 13, offset: 91458},
+																											pos:        position{line: 2898, col: 13, offset: 91570},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 20, offset: 91465},
+																											pos:        position{line: 2898, col: 20, offset: 91577},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 29, offset: 91474},
+																											pos:        position{line: 2898, col: 29, offset: 91586},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40138,9 +40496,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2902, col: 8, offset: 91634},
+																								pos: position{line: 2908, col: 8, offset: 91746},
 																								expr: &anyMatcher{
-																									line: 2902, col: 9, offset: 91635,
+																									line: 2908, col: 9, offset: 91747,
 																								},
 																							},
 																						},
@@ -40185,10 +40543,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 809, col: 8, offset: 26042},
 																						expr: &actionExpr{
-																							pos: position{line: 2883, col: 10, offset: 91286},
+																							pos: position{line: 2889, col: 10, offset: 91398},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2883, col: 10, offset: 91286},
+																								pos:        position{line: 2889, col: 10, offset: 91398},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40197,28 +40555,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2905, col: 8, offset: 91684},
+																						pos: position{line: 2911, col: 8, offset: 91796},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2892, col: 12, offset: 91457},
+																								pos: position{line: 2898, col: 12, offset: 91569},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 13, offset: 91458},
+																									pos: position{line: 2898, col: 13, offset: 91570},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 13, offset: 91458},
+																											pos:        position{line: 2898, col: 13, offset: 91570},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 20, offset: 91465},
+																											pos:        position{line: 2898, col: 20, offset: 91577},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 29, offset: 91474},
+																											pos:        position{line: 2898, col: 29, offset: 91586},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40227,9 +40585,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2902, col: 8, offset: 91634},
+																								pos: position{line: 2908, col: 8, offset: 91746},
 																								expr: &anyMatcher{
-																									line: 2902, col: 9, offset: 91635,
+																									line: 2908, col: 9, offset: 91747,
 																								},
 																							},
 																						},
@@ -40274,10 +40632,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 816, col: 8, offset: 26288},
 																						expr: &actionExpr{
-																							pos: position{line: 2883, col: 10, offset: 91286},
+																							pos: position{line: 2889, col: 10, offset: 91398},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2883, col: 10, offset: 91286},
+																								pos:        position{line: 2889, col: 10, offset: 91398},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40286,28 +40644,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2905, col: 8, offset: 91684},
+																						pos: position{line: 2911, col: 8, offset: 91796},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2892, col: 12, offset: 91457},
+																								pos: position{line: 2898, col: 12, offset: 91569},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2892, col: 13, offset: 91458},
+																									pos: position{line: 2898, col: 13, offset: 91570},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 13, offset: 91458},
+																											pos:        position{line: 2898, col: 13, offset: 91570},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 20, offset: 91465},
+																											pos:        position{line: 2898, col: 20, offset: 91577},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2892, col: 29, offset: 91474},
+																											pos:        position{line: 2898, col: 29, offset: 91586},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40316,9 +40674,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2902, col: 8, offset: 91634},
+																								pos: position{line: 2908, col: 8, offset: 91746},
 																								expr: &anyMatcher{
-																									line: 2902, col: 9, offset: 91635,
+																									line: 2908, col: 9, offset: 91747,
 																								},
 																							},
 																						},
@@ -40347,10 +40705,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1558, col: 31, offset: 50388},
 															expr: &actionExpr{
-																pos: position{line: 2883, col: 10, offset: 91286},
+																pos: position{line: 2889, col: 10, offset: 91398},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2883, col: 10, offset: 91286},
+																	pos:        position{line: 2889, col: 10, offset: 91398},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40359,25 +40717,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2892, col: 12, offset: 91457},
+															pos: position{line: 2898, col: 12, offset: 91569},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2892, col: 13, offset: 91458},
+																pos: position{line: 2898, col: 13, offset: 91570},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 13, offset: 91458},
+																		pos:        position{line: 2898, col: 13, offset: 91570},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 20, offset: 91465},
+																		pos:        position{line: 2898, col: 20, offset: 91577},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 29, offset: 91474},
+																		pos:        position{line: 2898, col: 29, offset: 91586},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40419,12 +40777,12 @@ var g = &grammar{
 																		pos:   position{line: 2493, col: 49, offset: 80256},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2829, col: 13, offset: 89812},
+																			pos: position{line: 2835, col: 13, offset: 89924},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2829, col: 13, offset: 89812},
+																				pos: position{line: 2835, col: 13, offset: 89924},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2829, col: 13, offset: 89812},
+																					pos:        position{line: 2835, col: 13, offset: 89924},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40434,28 +40792,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2905, col: 8, offset: 91684},
+																		pos: position{line: 2911, col: 8, offset: 91796},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2892, col: 12, offset: 91457},
+																				pos: position{line: 2898, col: 12, offset: 91569},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2892, col: 13, offset: 91458},
+																					pos: position{line: 2898, col: 13, offset: 91570},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 13, offset: 91458},
+																							pos:        position{line: 2898, col: 13, offset: 91570},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 20, offset: 91465},
+																							pos:        position{line: 2898, col: 20, offset: 91577},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 29, offset: 91474},
+																							pos:        position{line: 2898, col: 29, offset: 91586},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40464,9 +40822,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2902, col: 8, offset: 91634},
+																				pos: position{line: 2908, col: 8, offset: 91746},
 																				expr: &anyMatcher{
-																					line: 2902, col: 9, offset: 91635,
+																					line: 2908, col: 9, offset: 91747,
 																				},
 																			},
 																		},
@@ -40484,12 +40842,12 @@ var g = &grammar{
 																		pos:   position{line: 1807, col: 5, offset: 58385},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2833, col: 14, offset: 89879},
+																			pos: position{line: 2839, col: 14, offset: 89991},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2833, col: 14, offset: 89879},
+																				pos: position{line: 2839, col: 14, offset: 89991},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2833, col: 14, offset: 89879},
+																					pos:        position{line: 2839, col: 14, offset: 89991},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40503,28 +40861,28 @@ var g = &grammar{
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2905, col: 8, offset: 91684},
+																		pos: position{line: 2911, col: 8, offset: 91796},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2892, col: 12, offset: 91457},
+																				pos: position{line: 2898, col: 12, offset: 91569},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2892, col: 13, offset: 91458},
+																					pos: position{line: 2898, col: 13, offset: 91570},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 13, offset: 91458},
+																							pos:        position{line: 2898, col: 13, offset: 91570},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 20, offset: 91465},
+																							pos:        position{line: 2898, col: 20, offset: 91577},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 29, offset: 91474},
+																							pos:        position{line: 2898, col: 29, offset: 91586},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40533,9 +40891,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2902, col: 8, offset: 91634},
+																				pos: position{line: 2908, col: 8, offset: 91746},
 																				expr: &anyMatcher{
-																					line: 2902, col: 9, offset: 91635,
+																					line: 2908, col: 9, offset: 91747,
 																				},
 																			},
 																		},
@@ -40641,12 +40999,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1761, col: 13, offset: 56899},
 																expr: &actionExpr{
-																	pos: position{line: 2887, col: 11, offset: 91347},
+																	pos: position{line: 2893, col: 11, offset: 91459},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2887, col: 11, offset: 91347},
+																		pos: position{line: 2893, col: 11, offset: 91459},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2887, col: 11, offset: 91347},
+																			pos:        position{line: 2893, col: 11, offset: 91459},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -40677,12 +41035,12 @@ var g = &grammar{
 											pos:   position{line: 1807, col: 5, offset: 58385},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2833, col: 14, offset: 89879},
+												pos: position{line: 2839, col: 14, offset: 89991},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2833, col: 14, offset: 89879},
+													pos: position{line: 2839, col: 14, offset: 89991},
 													expr: &charClassMatcher{
-														pos:        position{line: 2833, col: 14, offset: 89879},
+														pos:        position{line: 2839, col: 14, offset: 89991},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -40696,28 +41054,28 @@ var g = &grammar{
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2905, col: 8, offset: 91684},
+											pos: position{line: 2911, col: 8, offset: 91796},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2892, col: 12, offset: 91457},
+													pos: position{line: 2898, col: 12, offset: 91569},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2892, col: 13, offset: 91458},
+														pos: position{line: 2898, col: 13, offset: 91570},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2892, col: 13, offset: 91458},
+																pos:        position{line: 2898, col: 13, offset: 91570},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2892, col: 20, offset: 91465},
+																pos:        position{line: 2898, col: 20, offset: 91577},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2892, col: 29, offset: 91474},
+																pos:        position{line: 2898, col: 29, offset: 91586},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -40726,9 +41084,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2902, col: 8, offset: 91634},
+													pos: position{line: 2908, col: 8, offset: 91746},
 													expr: &anyMatcher{
-														line: 2902, col: 9, offset: 91635,
+														line: 2908, col: 9, offset: 91747,
 													},
 												},
 											},
@@ -40749,9 +41107,9 @@ var g = &grammar{
 										pos: position{line: 1796, col: 9, offset: 58091},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2900, col: 11, offset: 91620},
+												pos: position{line: 2906, col: 11, offset: 91732},
 												expr: &anyMatcher{
-													line: 2900, col: 13, offset: 91622,
+													line: 2906, col: 13, offset: 91734,
 												},
 											},
 											&notExpr{
@@ -40763,18 +41121,18 @@ var g = &grammar{
 														pos: position{line: 687, col: 14, offset: 21835},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2900, col: 11, offset: 91620},
+																pos: position{line: 2906, col: 11, offset: 91732},
 																expr: &anyMatcher{
-																	line: 2900, col: 13, offset: 91622,
+																	line: 2906, col: 13, offset: 91734,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 687, col: 21, offset: 21842},
 																expr: &actionExpr{
-																	pos: position{line: 2883, col: 10, offset: 91286},
+																	pos: position{line: 2889, col: 10, offset: 91398},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2883, col: 10, offset: 91286},
+																		pos:        position{line: 2889, col: 10, offset: 91398},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -40783,28 +41141,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2905, col: 8, offset: 91684},
+																pos: position{line: 2911, col: 8, offset: 91796},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2892, col: 12, offset: 91457},
+																		pos: position{line: 2898, col: 12, offset: 91569},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2892, col: 13, offset: 91458},
+																			pos: position{line: 2898, col: 13, offset: 91570},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2892, col: 13, offset: 91458},
+																					pos:        position{line: 2898, col: 13, offset: 91570},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2892, col: 20, offset: 91465},
+																					pos:        position{line: 2898, col: 20, offset: 91577},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2892, col: 29, offset: 91474},
+																					pos:        position{line: 2898, col: 29, offset: 91586},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -40813,9 +41171,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2902, col: 8, offset: 91634},
+																		pos: position{line: 2908, col: 8, offset: 91746},
 																		expr: &anyMatcher{
-																			line: 2902, col: 9, offset: 91635,
+																			line: 2908, col: 9, offset: 91747,
 																		},
 																	},
 																},
@@ -40862,12 +41220,12 @@ var g = &grammar{
 																		pos:   position{line: 2493, col: 49, offset: 80256},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2829, col: 13, offset: 89812},
+																			pos: position{line: 2835, col: 13, offset: 89924},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2829, col: 13, offset: 89812},
+																				pos: position{line: 2835, col: 13, offset: 89924},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2829, col: 13, offset: 89812},
+																					pos:        position{line: 2835, col: 13, offset: 89924},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40877,28 +41235,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2905, col: 8, offset: 91684},
+																		pos: position{line: 2911, col: 8, offset: 91796},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2892, col: 12, offset: 91457},
+																				pos: position{line: 2898, col: 12, offset: 91569},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2892, col: 13, offset: 91458},
+																					pos: position{line: 2898, col: 13, offset: 91570},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 13, offset: 91458},
+																							pos:        position{line: 2898, col: 13, offset: 91570},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 20, offset: 91465},
+																							pos:        position{line: 2898, col: 20, offset: 91577},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 29, offset: 91474},
+																							pos:        position{line: 2898, col: 29, offset: 91586},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40907,9 +41265,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2902, col: 8, offset: 91634},
+																				pos: position{line: 2908, col: 8, offset: 91746},
 																				expr: &anyMatcher{
-																					line: 2902, col: 9, offset: 91635,
+																					line: 2908, col: 9, offset: 91747,
 																				},
 																			},
 																		},
@@ -40927,12 +41285,12 @@ var g = &grammar{
 																		pos:   position{line: 1807, col: 5, offset: 58385},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2833, col: 14, offset: 89879},
+																			pos: position{line: 2839, col: 14, offset: 89991},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2833, col: 14, offset: 89879},
+																				pos: position{line: 2839, col: 14, offset: 89991},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2833, col: 14, offset: 89879},
+																					pos:        position{line: 2839, col: 14, offset: 89991},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40946,28 +41304,28 @@ var g = &grammar{
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2905, col: 8, offset: 91684},
+																		pos: position{line: 2911, col: 8, offset: 91796},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2892, col: 12, offset: 91457},
+																				pos: position{line: 2898, col: 12, offset: 91569},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2892, col: 13, offset: 91458},
+																					pos: position{line: 2898, col: 13, offset: 91570},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 13, offset: 91458},
+																							pos:        position{line: 2898, col: 13, offset: 91570},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 20, offset: 91465},
+																							pos:        position{line: 2898, col: 20, offset: 91577},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 29, offset: 91474},
+																							pos:        position{line: 2898, col: 29, offset: 91586},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40976,9 +41334,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2902, col: 8, offset: 91634},
+																				pos: position{line: 2908, col: 8, offset: 91746},
 																				expr: &anyMatcher{
-																					line: 2902, col: 9, offset: 91635,
+																					line: 2908, col: 9, offset: 91747,
 																				},
 																			},
 																		},
@@ -41191,21 +41549,21 @@ var g = &grammar{
 				pos: position{line: 1873, col: 5, offset: 60356},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2782, col: 5, offset: 88528},
+						pos: position{line: 2788, col: 5, offset: 88640},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2782, col: 5, offset: 88528},
+							pos: position{line: 2788, col: 5, offset: 88640},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2782, col: 5, offset: 88528},
+									pos:   position{line: 2788, col: 5, offset: 88640},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2782, col: 11, offset: 88534},
+										pos: position{line: 2788, col: 11, offset: 88646},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2782, col: 11, offset: 88534},
+											pos: position{line: 2788, col: 11, offset: 88646},
 											expr: &charClassMatcher{
-												pos:        position{line: 2782, col: 11, offset: 88534},
+												pos:        position{line: 2788, col: 11, offset: 88646},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41215,36 +41573,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2785, col: 5, offset: 88592},
+									pos: position{line: 2791, col: 5, offset: 88704},
 									expr: &seqExpr{
-										pos: position{line: 2786, col: 9, offset: 88603},
+										pos: position{line: 2792, col: 9, offset: 88715},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2786, col: 9, offset: 88603},
+												pos:        position{line: 2792, col: 9, offset: 88715},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2787, col: 9, offset: 88652},
+												pos: position{line: 2793, col: 9, offset: 88764},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2791, col: 5, offset: 88732},
+									pos: position{line: 2797, col: 5, offset: 88844},
 									expr: &seqExpr{
-										pos: position{line: 2792, col: 9, offset: 88743},
+										pos: position{line: 2798, col: 9, offset: 88855},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2792, col: 9, offset: 88743},
+												pos:        position{line: 2798, col: 9, offset: 88855},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2792, col: 13, offset: 88747},
+												pos:        position{line: 2798, col: 13, offset: 88859},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41257,12 +41615,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2887, col: 11, offset: 91347},
+						pos: position{line: 2893, col: 11, offset: 91459},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2887, col: 11, offset: 91347},
+							pos: position{line: 2893, col: 11, offset: 91459},
 							expr: &charClassMatcher{
-								pos:        position{line: 2887, col: 11, offset: 91347},
+								pos:        position{line: 2893, col: 11, offset: 91459},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -41333,27 +41691,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2800, col: 5, offset: 88940},
+						pos: position{line: 2806, col: 5, offset: 89052},
 						run: (*parser).callonQuotedTextElement32,
 						expr: &choiceExpr{
-							pos: position{line: 2801, col: 9, offset: 88950},
+							pos: position{line: 2807, col: 9, offset: 89062},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2801, col: 10, offset: 88951},
+									pos:        position{line: 2807, col: 10, offset: 89063},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2803, col: 13, offset: 89048},
+									pos: position{line: 2809, col: 13, offset: 89160},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2803, col: 13, offset: 89048},
+											pos: position{line: 2809, col: 13, offset: 89160},
 											run: (*parser).callonQuotedTextElement36,
 										},
 										&litMatcher{
-											pos:        position{line: 2806, col: 13, offset: 89148},
+											pos:        position{line: 2812, col: 13, offset: 89260},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -41361,20 +41719,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2806, col: 19, offset: 89154},
+									pos:        position{line: 2812, col: 19, offset: 89266},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2809, col: 13, offset: 89192},
+									pos: position{line: 2815, col: 13, offset: 89304},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2809, col: 13, offset: 89192},
+											pos: position{line: 2815, col: 13, offset: 89304},
 											run: (*parser).callonQuotedTextElement40,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2812, col: 14, offset: 89285},
+											pos:        position{line: 2818, col: 14, offset: 89397},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -41383,18 +41741,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2814, col: 12, offset: 89329},
+									pos: position{line: 2820, col: 12, offset: 89441},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2814, col: 12, offset: 89329},
+											pos:        position{line: 2820, col: 12, offset: 89441},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2814, col: 16, offset: 89333},
+											pos: position{line: 2820, col: 16, offset: 89445},
 											expr: &litMatcher{
-												pos:        position{line: 2814, col: 17, offset: 89334},
+												pos:        position{line: 2820, col: 17, offset: 89446},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41752,31 +42110,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2896, col: 18, offset: 91557},
+						pos: position{line: 2902, col: 18, offset: 91669},
 						run: (*parser).callonQuotedTextElement115,
 						expr: &seqExpr{
-							pos: position{line: 2896, col: 18, offset: 91557},
+							pos: position{line: 2902, col: 18, offset: 91669},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2892, col: 12, offset: 91457},
+									pos: position{line: 2898, col: 12, offset: 91569},
 									run: (*parser).callonQuotedTextElement117,
 									expr: &choiceExpr{
-										pos: position{line: 2892, col: 13, offset: 91458},
+										pos: position{line: 2898, col: 13, offset: 91570},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2892, col: 13, offset: 91458},
+												pos:        position{line: 2898, col: 13, offset: 91570},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2892, col: 20, offset: 91465},
+												pos:        position{line: 2898, col: 20, offset: 91577},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2892, col: 29, offset: 91474},
+												pos:        position{line: 2898, col: 29, offset: 91586},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -41785,27 +42143,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2896, col: 26, offset: 91565},
+									pos: position{line: 2902, col: 26, offset: 91677},
 									expr: &actionExpr{
-										pos: position{line: 2892, col: 12, offset: 91457},
+										pos: position{line: 2898, col: 12, offset: 91569},
 										run: (*parser).callonQuotedTextElement123,
 										expr: &choiceExpr{
-											pos: position{line: 2892, col: 13, offset: 91458},
+											pos: position{line: 2898, col: 13, offset: 91570},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2892, col: 13, offset: 91458},
+													pos:        position{line: 2898, col: 13, offset: 91570},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2892, col: 20, offset: 91465},
+													pos:        position{line: 2898, col: 20, offset: 91577},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2892, col: 29, offset: 91474},
+													pos:        position{line: 2898, col: 29, offset: 91586},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -41893,10 +42251,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2822, col: 12, offset: 89594},
+						pos: position{line: 2828, col: 12, offset: 89706},
 						run: (*parser).callonQuotedTextElement144,
 						expr: &charClassMatcher{
-							pos:        position{line: 2822, col: 12, offset: 89594},
+							pos:        position{line: 2828, col: 12, offset: 89706},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -41960,9 +42318,9 @@ var g = &grammar{
 					pos: position{line: 1909, col: 5, offset: 61437},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2900, col: 11, offset: 91620},
+							pos: position{line: 2906, col: 11, offset: 91732},
 							expr: &anyMatcher{
-								line: 2900, col: 13, offset: 91622,
+								line: 2906, col: 13, offset: 91734,
 							},
 						},
 						&notExpr{
@@ -42049,7 +42407,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 1934, col: 7, offset: 62162},
 								expr: &charClassMatcher{
-									pos:        position{line: 2773, col: 13, offset: 88381},
+									pos:        position{line: 2779, col: 13, offset: 88493},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42073,10 +42431,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 1944, col: 5, offset: 62447},
 							expr: &actionExpr{
-								pos: position{line: 2883, col: 10, offset: 91286},
+								pos: position{line: 2889, col: 10, offset: 91398},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2883, col: 10, offset: 91286},
+									pos:        position{line: 2889, col: 10, offset: 91398},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42113,9 +42471,9 @@ var g = &grammar{
 					pos: position{line: 1953, col: 5, offset: 62706},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2900, col: 11, offset: 91620},
+							pos: position{line: 2906, col: 11, offset: 91732},
 							expr: &anyMatcher{
-								line: 2900, col: 13, offset: 91622,
+								line: 2906, col: 13, offset: 91734,
 							},
 						},
 						&notExpr{
@@ -42147,7 +42505,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 1934, col: 7, offset: 62162},
 											expr: &charClassMatcher{
-												pos:        position{line: 2773, col: 13, offset: 88381},
+												pos:        position{line: 2779, col: 13, offset: 88493},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42382,9 +42740,9 @@ var g = &grammar{
 					pos: position{line: 1998, col: 5, offset: 64359},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2900, col: 11, offset: 91620},
+							pos: position{line: 2906, col: 11, offset: 91732},
 							expr: &anyMatcher{
-								line: 2900, col: 13, offset: 91622,
+								line: 2906, col: 13, offset: 91734,
 							},
 						},
 						&notExpr{
@@ -42471,7 +42829,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2024, col: 7, offset: 65090},
 								expr: &charClassMatcher{
-									pos:        position{line: 2773, col: 13, offset: 88381},
+									pos:        position{line: 2779, col: 13, offset: 88493},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42495,10 +42853,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2034, col: 5, offset: 65387},
 							expr: &actionExpr{
-								pos: position{line: 2883, col: 10, offset: 91286},
+								pos: position{line: 2889, col: 10, offset: 91398},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2883, col: 10, offset: 91286},
+									pos:        position{line: 2889, col: 10, offset: 91398},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42535,9 +42893,9 @@ var g = &grammar{
 					pos: position{line: 2043, col: 5, offset: 65649},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2900, col: 11, offset: 91620},
+							pos: position{line: 2906, col: 11, offset: 91732},
 							expr: &anyMatcher{
-								line: 2900, col: 13, offset: 91622,
+								line: 2906, col: 13, offset: 91734,
 							},
 						},
 						&notExpr{
@@ -42569,7 +42927,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2024, col: 7, offset: 65090},
 											expr: &charClassMatcher{
-												pos:        position{line: 2773, col: 13, offset: 88381},
+												pos:        position{line: 2779, col: 13, offset: 88493},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42804,9 +43162,9 @@ var g = &grammar{
 					pos: position{line: 2088, col: 5, offset: 67478},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2900, col: 11, offset: 91620},
+							pos: position{line: 2906, col: 11, offset: 91732},
 							expr: &anyMatcher{
-								line: 2900, col: 13, offset: 91622,
+								line: 2906, col: 13, offset: 91734,
 							},
 						},
 						&notExpr{
@@ -42858,7 +43216,7 @@ var g = &grammar{
 						expr: &notExpr{
 							pos: position{line: 2115, col: 7, offset: 68271},
 							expr: &charClassMatcher{
-								pos:        position{line: 2773, col: 13, offset: 88381},
+								pos:        position{line: 2779, col: 13, offset: 88493},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -42928,10 +43286,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2126, col: 5, offset: 68592},
 							expr: &actionExpr{
-								pos: position{line: 2883, col: 10, offset: 91286},
+								pos: position{line: 2889, col: 10, offset: 91398},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2883, col: 10, offset: 91286},
+									pos:        position{line: 2889, col: 10, offset: 91398},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42968,9 +43326,9 @@ var g = &grammar{
 					pos: position{line: 2135, col: 5, offset: 68860},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2900, col: 11, offset: 91620},
+							pos: position{line: 2906, col: 11, offset: 91732},
 							expr: &anyMatcher{
-								line: 2900, col: 13, offset: 91622,
+								line: 2906, col: 13, offset: 91734,
 							},
 						},
 						&notExpr{
@@ -43204,9 +43562,9 @@ var g = &grammar{
 					pos: position{line: 2180, col: 5, offset: 70572},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2900, col: 11, offset: 91620},
+							pos: position{line: 2906, col: 11, offset: 91732},
 							expr: &anyMatcher{
-								line: 2900, col: 13, offset: 91622,
+								line: 2906, col: 13, offset: 91734,
 							},
 						},
 						&notExpr{
@@ -43293,7 +43651,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2205, col: 7, offset: 71301},
 								expr: &charClassMatcher{
-									pos:        position{line: 2773, col: 13, offset: 88381},
+									pos:        position{line: 2779, col: 13, offset: 88493},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43317,10 +43675,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2215, col: 5, offset: 71598},
 							expr: &actionExpr{
-								pos: position{line: 2883, col: 10, offset: 91286},
+								pos: position{line: 2889, col: 10, offset: 91398},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2883, col: 10, offset: 91286},
+									pos:        position{line: 2889, col: 10, offset: 91398},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43357,9 +43715,9 @@ var g = &grammar{
 					pos: position{line: 2224, col: 5, offset: 71861},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2900, col: 11, offset: 91620},
+							pos: position{line: 2906, col: 11, offset: 91732},
 							expr: &anyMatcher{
-								line: 2900, col: 13, offset: 91622,
+								line: 2906, col: 13, offset: 91734,
 							},
 						},
 						&notExpr{
@@ -43391,7 +43749,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2205, col: 7, offset: 71301},
 											expr: &charClassMatcher{
-												pos:        position{line: 2773, col: 13, offset: 88381},
+												pos:        position{line: 2779, col: 13, offset: 88493},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43827,12 +44185,12 @@ var g = &grammar{
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2887, col: 11, offset: 91347},
+							pos: position{line: 2893, col: 11, offset: 91459},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2887, col: 11, offset: 91347},
+								pos: position{line: 2893, col: 11, offset: 91459},
 								expr: &charClassMatcher{
-									pos:        position{line: 2887, col: 11, offset: 91347},
+									pos:        position{line: 2893, col: 11, offset: 91459},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43849,28 +44207,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2905, col: 8, offset: 91684},
+							pos: position{line: 2911, col: 8, offset: 91796},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2892, col: 12, offset: 91457},
+									pos: position{line: 2898, col: 12, offset: 91569},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2892, col: 13, offset: 91458},
+										pos: position{line: 2898, col: 13, offset: 91570},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2892, col: 13, offset: 91458},
+												pos:        position{line: 2898, col: 13, offset: 91570},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2892, col: 20, offset: 91465},
+												pos:        position{line: 2898, col: 20, offset: 91577},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2892, col: 29, offset: 91474},
+												pos:        position{line: 2898, col: 29, offset: 91586},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -43879,9 +44237,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2902, col: 8, offset: 91634},
+									pos: position{line: 2908, col: 8, offset: 91746},
 									expr: &anyMatcher{
-										line: 2902, col: 9, offset: 91635,
+										line: 2908, col: 9, offset: 91747,
 									},
 								},
 							},
@@ -43930,28 +44288,28 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2331, col: 5, offset: 75513},
 							expr: &choiceExpr{
-								pos: position{line: 2905, col: 8, offset: 91684},
+								pos: position{line: 2911, col: 8, offset: 91796},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2892, col: 12, offset: 91457},
+										pos: position{line: 2898, col: 12, offset: 91569},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2892, col: 13, offset: 91458},
+											pos: position{line: 2898, col: 13, offset: 91570},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2892, col: 13, offset: 91458},
+													pos:        position{line: 2898, col: 13, offset: 91570},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2892, col: 20, offset: 91465},
+													pos:        position{line: 2898, col: 20, offset: 91577},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2892, col: 29, offset: 91474},
+													pos:        position{line: 2898, col: 29, offset: 91586},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -43960,9 +44318,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2902, col: 8, offset: 91634},
+										pos: position{line: 2908, col: 8, offset: 91746},
 										expr: &anyMatcher{
-											line: 2902, col: 9, offset: 91635,
+											line: 2908, col: 9, offset: 91747,
 										},
 									},
 								},
@@ -43996,10 +44354,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2822, col: 12, offset: 89594},
+										pos: position{line: 2828, col: 12, offset: 89706},
 										run: (*parser).callonSectionTitleElement19,
 										expr: &charClassMatcher{
-											pos:        position{line: 2822, col: 12, offset: 89594},
+											pos:        position{line: 2828, col: 12, offset: 89706},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -44026,21 +44384,21 @@ var g = &grammar{
 						pos: position{line: 2343, col: 9, offset: 75805},
 						alternatives: []interface{}{
 							&actionExpr{
-								pos: position{line: 2782, col: 5, offset: 88528},
+								pos: position{line: 2788, col: 5, offset: 88640},
 								run: (*parser).callonSectionTitleInlineElement4,
 								expr: &seqExpr{
-									pos: position{line: 2782, col: 5, offset: 88528},
+									pos: position{line: 2788, col: 5, offset: 88640},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2782, col: 5, offset: 88528},
+											pos:   position{line: 2788, col: 5, offset: 88640},
 											label: "text",
 											expr: &actionExpr{
-												pos: position{line: 2782, col: 11, offset: 88534},
+												pos: position{line: 2788, col: 11, offset: 88646},
 												run: (*parser).callonSectionTitleInlineElement7,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2782, col: 11, offset: 88534},
+													pos: position{line: 2788, col: 11, offset: 88646},
 													expr: &charClassMatcher{
-														pos:        position{line: 2782, col: 11, offset: 88534},
+														pos:        position{line: 2788, col: 11, offset: 88646},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -44050,36 +44408,36 @@ var g = &grammar{
 											},
 										},
 										&notExpr{
-											pos: position{line: 2785, col: 5, offset: 88592},
+											pos: position{line: 2791, col: 5, offset: 88704},
 											expr: &seqExpr{
-												pos: position{line: 2786, col: 9, offset: 88603},
+												pos: position{line: 2792, col: 9, offset: 88715},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2786, col: 9, offset: 88603},
+														pos:        position{line: 2792, col: 9, offset: 88715},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2787, col: 9, offset: 88652},
+														pos: position{line: 2793, col: 9, offset: 88764},
 														run: (*parser).callonSectionTitleInlineElement13,
 													},
 												},
 											},
 										},
 										&notExpr{
-											pos: position{line: 2791, col: 5, offset: 88732},
+											pos: position{line: 2797, col: 5, offset: 88844},
 											expr: &seqExpr{
-												pos: position{line: 2792, col: 9, offset: 88743},
+												pos: position{line: 2798, col: 9, offset: 88855},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2792, col: 9, offset: 88743},
+														pos:        position{line: 2798, col: 9, offset: 88855},
 														val:        "@",
 														ignoreCase: false,
 														want:       "\"@\"",
 													},
 													&charClassMatcher{
-														pos:        position{line: 2792, col: 13, offset: 88747},
+														pos:        position{line: 2798, col: 13, offset: 88859},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -44092,12 +44450,12 @@ var g = &grammar{
 								},
 							},
 							&actionExpr{
-								pos: position{line: 2887, col: 11, offset: 91347},
+								pos: position{line: 2893, col: 11, offset: 91459},
 								run: (*parser).callonSectionTitleInlineElement18,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2887, col: 11, offset: 91347},
+									pos: position{line: 2893, col: 11, offset: 91459},
 									expr: &charClassMatcher{
-										pos:        position{line: 2887, col: 11, offset: 91347},
+										pos:        position{line: 2893, col: 11, offset: 91459},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -44168,27 +44526,27 @@ var g = &grammar{
 								name: "Replacement",
 							},
 							&actionExpr{
-								pos: position{line: 2800, col: 5, offset: 88940},
+								pos: position{line: 2806, col: 5, offset: 89052},
 								run: (*parser).callonSectionTitleInlineElement34,
 								expr: &choiceExpr{
-									pos: position{line: 2801, col: 9, offset: 88950},
+									pos: position{line: 2807, col: 9, offset: 89062},
 									alternatives: []interface{}{
 										&charClassMatcher{
-											pos:        position{line: 2801, col: 10, offset: 88951},
+											pos:        position{line: 2807, col: 10, offset: 89063},
 											val:        "[.,;?)!/:\"\\@=-]",
 											chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 											ignoreCase: false,
 											inverted:   false,
 										},
 										&seqExpr{
-											pos: position{line: 2803, col: 13, offset: 89048},
+											pos: position{line: 2809, col: 13, offset: 89160},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2803, col: 13, offset: 89048},
+													pos: position{line: 2809, col: 13, offset: 89160},
 													run: (*parser).callonSectionTitleInlineElement38,
 												},
 												&litMatcher{
-													pos:        position{line: 2806, col: 13, offset: 89148},
+													pos:        position{line: 2812, col: 13, offset: 89260},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
@@ -44196,20 +44554,20 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 2806, col: 19, offset: 89154},
+											pos:        position{line: 2812, col: 19, offset: 89266},
 											val:        "]",
 											ignoreCase: false,
 											want:       "\"]\"",
 										},
 										&seqExpr{
-											pos: position{line: 2809, col: 13, offset: 89192},
+											pos: position{line: 2815, col: 13, offset: 89304},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2809, col: 13, offset: 89192},
+													pos: position{line: 2815, col: 13, offset: 89304},
 													run: (*parser).callonSectionTitleInlineElement42,
 												},
 												&charClassMatcher{
-													pos:        position{line: 2812, col: 14, offset: 89285},
+													pos:        position{line: 2818, col: 14, offset: 89397},
 													val:        "[*_`#]",
 													chars:      []rune{'*', '_', '`', '#'},
 													ignoreCase: false,
@@ -44218,18 +44576,18 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2814, col: 12, offset: 89329},
+											pos: position{line: 2820, col: 12, offset: 89441},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2814, col: 12, offset: 89329},
+													pos:        position{line: 2820, col: 12, offset: 89441},
 													val:        "(",
 													ignoreCase: false,
 													want:       "\"(\"",
 												},
 												&notExpr{
-													pos: position{line: 2814, col: 16, offset: 89333},
+													pos: position{line: 2820, col: 16, offset: 89445},
 													expr: &litMatcher{
-														pos:        position{line: 2814, col: 17, offset: 89334},
+														pos:        position{line: 2820, col: 17, offset: 89446},
 														val:        "(",
 														ignoreCase: false,
 														want:       "\"(\"",
@@ -45136,10 +45494,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 2366, col: 26, offset: 76561},
 											expr: &actionExpr{
-												pos: position{line: 2883, col: 10, offset: 91286},
+												pos: position{line: 2889, col: 10, offset: 91398},
 												run: (*parser).callonSectionTitleInlineElement231,
 												expr: &charClassMatcher{
-													pos:        position{line: 2883, col: 10, offset: 91286},
+													pos:        position{line: 2889, col: 10, offset: 91398},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -45150,28 +45508,28 @@ var g = &grammar{
 										&andExpr{
 											pos: position{line: 2366, col: 33, offset: 76568},
 											expr: &choiceExpr{
-												pos: position{line: 2905, col: 8, offset: 91684},
+												pos: position{line: 2911, col: 8, offset: 91796},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2892, col: 12, offset: 91457},
+														pos: position{line: 2898, col: 12, offset: 91569},
 														run: (*parser).callonSectionTitleInlineElement235,
 														expr: &choiceExpr{
-															pos: position{line: 2892, col: 13, offset: 91458},
+															pos: position{line: 2898, col: 13, offset: 91570},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2892, col: 13, offset: 91458},
+																	pos:        position{line: 2898, col: 13, offset: 91570},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2892, col: 20, offset: 91465},
+																	pos:        position{line: 2898, col: 20, offset: 91577},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2892, col: 29, offset: 91474},
+																	pos:        position{line: 2898, col: 29, offset: 91586},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -45180,9 +45538,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2902, col: 8, offset: 91634},
+														pos: position{line: 2908, col: 8, offset: 91746},
 														expr: &anyMatcher{
-															line: 2902, col: 9, offset: 91635,
+															line: 2908, col: 9, offset: 91747,
 														},
 													},
 												},
@@ -45207,12 +45565,12 @@ var g = &grammar{
 											pos:   position{line: 1275, col: 14, offset: 39489},
 											label: "id",
 											expr: &actionExpr{
-												pos: position{line: 2868, col: 7, offset: 90938},
+												pos: position{line: 2874, col: 7, offset: 91050},
 												run: (*parser).callonSectionTitleInlineElement246,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2868, col: 7, offset: 90938},
+													pos: position{line: 2874, col: 7, offset: 91050},
 													expr: &charClassMatcher{
-														pos:        position{line: 2868, col: 7, offset: 90938},
+														pos:        position{line: 2874, col: 7, offset: 91050},
 														val:        "[^[]<>,]",
 														chars:      []rune{'[', ']', '<', '>', ','},
 														ignoreCase: false,
@@ -45246,12 +45604,12 @@ var g = &grammar{
 											pos:   position{line: 1280, col: 10, offset: 39621},
 											label: "id",
 											expr: &actionExpr{
-												pos: position{line: 2868, col: 7, offset: 90938},
+												pos: position{line: 2874, col: 7, offset: 91050},
 												run: (*parser).callonSectionTitleInlineElement254,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2868, col: 7, offset: 90938},
+													pos: position{line: 2874, col: 7, offset: 91050},
 													expr: &charClassMatcher{
-														pos:        position{line: 2868, col: 7, offset: 90938},
+														pos:        position{line: 2874, col: 7, offset: 91050},
 														val:        "[^[]<>,]",
 														chars:      []rune{'[', ']', '<', '>', ','},
 														ignoreCase: false,
@@ -45299,9 +45657,9 @@ var g = &grammar{
 										pos: position{line: 2379, col: 9, offset: 76952},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2900, col: 11, offset: 91620},
+												pos: position{line: 2906, col: 11, offset: 91732},
 												expr: &anyMatcher{
-													line: 2900, col: 13, offset: 91622,
+													line: 2906, col: 13, offset: 91734,
 												},
 											},
 											&labeledExpr{
@@ -45311,21 +45669,21 @@ var g = &grammar{
 													pos: position{line: 2381, col: 13, offset: 76989},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2782, col: 5, offset: 88528},
+															pos: position{line: 2788, col: 5, offset: 88640},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2782, col: 5, offset: 88528},
+																pos: position{line: 2788, col: 5, offset: 88640},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2782, col: 5, offset: 88528},
+																		pos:   position{line: 2788, col: 5, offset: 88640},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2782, col: 11, offset: 88534},
+																			pos: position{line: 2788, col: 11, offset: 88646},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2782, col: 11, offset: 88534},
+																				pos: position{line: 2788, col: 11, offset: 88646},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2782, col: 11, offset: 88534},
+																					pos:        position{line: 2788, col: 11, offset: 88646},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45335,36 +45693,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2785, col: 5, offset: 88592},
+																		pos: position{line: 2791, col: 5, offset: 88704},
 																		expr: &seqExpr{
-																			pos: position{line: 2786, col: 9, offset: 88603},
+																			pos: position{line: 2792, col: 9, offset: 88715},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2786, col: 9, offset: 88603},
+																					pos:        position{line: 2792, col: 9, offset: 88715},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2787, col: 9, offset: 88652},
+																					pos: position{line: 2793, col: 9, offset: 88764},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2791, col: 5, offset: 88732},
+																		pos: position{line: 2797, col: 5, offset: 88844},
 																		expr: &seqExpr{
-																			pos: position{line: 2792, col: 9, offset: 88743},
+																			pos: position{line: 2798, col: 9, offset: 88855},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2792, col: 9, offset: 88743},
+																					pos:        position{line: 2798, col: 9, offset: 88855},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2792, col: 13, offset: 88747},
+																					pos:        position{line: 2798, col: 13, offset: 88859},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45377,12 +45735,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2887, col: 11, offset: 91347},
+															pos: position{line: 2893, col: 11, offset: 91459},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2887, col: 11, offset: 91347},
+																pos: position{line: 2893, col: 11, offset: 91459},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2887, col: 11, offset: 91347},
+																	pos:        position{line: 2893, col: 11, offset: 91459},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45453,27 +45811,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2800, col: 5, offset: 88940},
+															pos: position{line: 2806, col: 5, offset: 89052},
 															run: (*parser).callonNormalGroup41,
 															expr: &choiceExpr{
-																pos: position{line: 2801, col: 9, offset: 88950},
+																pos: position{line: 2807, col: 9, offset: 89062},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2801, col: 10, offset: 88951},
+																		pos:        position{line: 2807, col: 10, offset: 89063},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2803, col: 13, offset: 89048},
+																		pos: position{line: 2809, col: 13, offset: 89160},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2803, col: 13, offset: 89048},
+																				pos: position{line: 2809, col: 13, offset: 89160},
 																				run: (*parser).callonNormalGroup45,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2806, col: 13, offset: 89148},
+																				pos:        position{line: 2812, col: 13, offset: 89260},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45481,20 +45839,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2806, col: 19, offset: 89154},
+																		pos:        position{line: 2812, col: 19, offset: 89266},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2809, col: 13, offset: 89192},
+																		pos: position{line: 2815, col: 13, offset: 89304},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2809, col: 13, offset: 89192},
+																				pos: position{line: 2815, col: 13, offset: 89304},
 																				run: (*parser).callonNormalGroup49,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2812, col: 14, offset: 89285},
+																				pos:        position{line: 2818, col: 14, offset: 89397},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45503,18 +45861,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2814, col: 12, offset: 89329},
+																		pos: position{line: 2820, col: 12, offset: 89441},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2814, col: 12, offset: 89329},
+																				pos:        position{line: 2820, col: 12, offset: 89441},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2814, col: 16, offset: 89333},
+																				pos: position{line: 2820, col: 16, offset: 89445},
 																				expr: &litMatcher{
-																					pos:        position{line: 2814, col: 17, offset: 89334},
+																					pos:        position{line: 2820, col: 17, offset: 89446},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45526,25 +45884,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2892, col: 12, offset: 91457},
+															pos: position{line: 2898, col: 12, offset: 91569},
 															run: (*parser).callonNormalGroup55,
 															expr: &choiceExpr{
-																pos: position{line: 2892, col: 13, offset: 91458},
+																pos: position{line: 2898, col: 13, offset: 91570},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 13, offset: 91458},
+																		pos:        position{line: 2898, col: 13, offset: 91570},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 20, offset: 91465},
+																		pos:        position{line: 2898, col: 20, offset: 91577},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2892, col: 29, offset: 91474},
+																		pos:        position{line: 2898, col: 29, offset: 91586},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45961,10 +46319,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1236, col: 5, offset: 38337},
 																		expr: &actionExpr{
-																			pos: position{line: 2883, col: 10, offset: 91286},
+																			pos: position{line: 2889, col: 10, offset: 91398},
 																			run: (*parser).callonNormalGroup144,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2883, col: 10, offset: 91286},
+																				pos:        position{line: 2889, col: 10, offset: 91398},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -45975,28 +46333,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1236, col: 12, offset: 38344},
 																		expr: &choiceExpr{
-																			pos: position{line: 2905, col: 8, offset: 91684},
+																			pos: position{line: 2911, col: 8, offset: 91796},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2892, col: 12, offset: 91457},
+																					pos: position{line: 2898, col: 12, offset: 91569},
 																					run: (*parser).callonNormalGroup148,
 																					expr: &choiceExpr{
-																						pos: position{line: 2892, col: 13, offset: 91458},
+																						pos: position{line: 2898, col: 13, offset: 91570},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 13, offset: 91458},
+																								pos:        position{line: 2898, col: 13, offset: 91570},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 20, offset: 91465},
+																								pos:        position{line: 2898, col: 20, offset: 91577},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 29, offset: 91474},
+																								pos:        position{line: 2898, col: 29, offset: 91586},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46005,9 +46363,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2902, col: 8, offset: 91634},
+																					pos: position{line: 2908, col: 8, offset: 91746},
 																					expr: &anyMatcher{
-																						line: 2902, col: 9, offset: 91635,
+																						line: 2908, col: 9, offset: 91747,
 																					},
 																				},
 																			},
@@ -46060,10 +46418,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2822, col: 12, offset: 89594},
+															pos: position{line: 2828, col: 12, offset: 89706},
 															run: (*parser).callonNormalGroup164,
 															expr: &charClassMatcher{
-																pos:        position{line: 2822, col: 12, offset: 89594},
+																pos:        position{line: 2828, col: 12, offset: 89706},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -46079,9 +46437,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2902, col: 8, offset: 91634},
+							pos: position{line: 2908, col: 8, offset: 91746},
 							expr: &anyMatcher{
-								line: 2902, col: 9, offset: 91635,
+								line: 2908, col: 9, offset: 91747,
 							},
 						},
 					},
@@ -46109,9 +46467,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2902, col: 8, offset: 91634},
+							pos: position{line: 2908, col: 8, offset: 91746},
 							expr: &anyMatcher{
-								line: 2902, col: 9, offset: 91635,
+								line: 2908, col: 9, offset: 91747,
 							},
 						},
 					},
@@ -46128,9 +46486,9 @@ var g = &grammar{
 					pos: position{line: 2410, col: 5, offset: 78111},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2900, col: 11, offset: 91620},
+							pos: position{line: 2906, col: 11, offset: 91732},
 							expr: &anyMatcher{
-								line: 2900, col: 13, offset: 91622,
+								line: 2906, col: 13, offset: 91734,
 							},
 						},
 						&labeledExpr{
@@ -46140,21 +46498,21 @@ var g = &grammar{
 								pos: position{line: 2412, col: 9, offset: 78140},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2782, col: 5, offset: 88528},
+										pos: position{line: 2788, col: 5, offset: 88640},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2782, col: 5, offset: 88528},
+											pos: position{line: 2788, col: 5, offset: 88640},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2782, col: 5, offset: 88528},
+													pos:   position{line: 2788, col: 5, offset: 88640},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2782, col: 11, offset: 88534},
+														pos: position{line: 2788, col: 11, offset: 88646},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2782, col: 11, offset: 88534},
+															pos: position{line: 2788, col: 11, offset: 88646},
 															expr: &charClassMatcher{
-																pos:        position{line: 2782, col: 11, offset: 88534},
+																pos:        position{line: 2788, col: 11, offset: 88646},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46164,36 +46522,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2785, col: 5, offset: 88592},
+													pos: position{line: 2791, col: 5, offset: 88704},
 													expr: &seqExpr{
-														pos: position{line: 2786, col: 9, offset: 88603},
+														pos: position{line: 2792, col: 9, offset: 88715},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2786, col: 9, offset: 88603},
+																pos:        position{line: 2792, col: 9, offset: 88715},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2787, col: 9, offset: 88652},
+																pos: position{line: 2793, col: 9, offset: 88764},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2791, col: 5, offset: 88732},
+													pos: position{line: 2797, col: 5, offset: 88844},
 													expr: &seqExpr{
-														pos: position{line: 2792, col: 9, offset: 88743},
+														pos: position{line: 2798, col: 9, offset: 88855},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2792, col: 9, offset: 88743},
+																pos:        position{line: 2798, col: 9, offset: 88855},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2792, col: 13, offset: 88747},
+																pos:        position{line: 2798, col: 13, offset: 88859},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46206,10 +46564,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2883, col: 10, offset: 91286},
+										pos: position{line: 2889, col: 10, offset: 91398},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2883, col: 10, offset: 91286},
+											pos:        position{line: 2889, col: 10, offset: 91398},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -46221,27 +46579,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2800, col: 5, offset: 88940},
+										pos: position{line: 2806, col: 5, offset: 89052},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2801, col: 9, offset: 88950},
+											pos: position{line: 2807, col: 9, offset: 89062},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2801, col: 10, offset: 88951},
+													pos:        position{line: 2807, col: 10, offset: 89063},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2803, col: 13, offset: 89048},
+													pos: position{line: 2809, col: 13, offset: 89160},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2803, col: 13, offset: 89048},
+															pos: position{line: 2809, col: 13, offset: 89160},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2806, col: 13, offset: 89148},
+															pos:        position{line: 2812, col: 13, offset: 89260},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46249,20 +46607,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2806, col: 19, offset: 89154},
+													pos:        position{line: 2812, col: 19, offset: 89266},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2809, col: 13, offset: 89192},
+													pos: position{line: 2815, col: 13, offset: 89304},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2809, col: 13, offset: 89192},
+															pos: position{line: 2815, col: 13, offset: 89304},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2812, col: 14, offset: 89285},
+															pos:        position{line: 2818, col: 14, offset: 89397},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46271,18 +46629,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2814, col: 12, offset: 89329},
+													pos: position{line: 2820, col: 12, offset: 89441},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2814, col: 12, offset: 89329},
+															pos:        position{line: 2820, col: 12, offset: 89441},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2814, col: 16, offset: 89333},
+															pos: position{line: 2820, col: 16, offset: 89445},
 															expr: &litMatcher{
-																pos:        position{line: 2814, col: 17, offset: 89334},
+																pos:        position{line: 2820, col: 17, offset: 89446},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46369,25 +46727,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2892, col: 12, offset: 91457},
+										pos: position{line: 2898, col: 12, offset: 91569},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2892, col: 13, offset: 91458},
+											pos: position{line: 2898, col: 13, offset: 91570},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2892, col: 13, offset: 91458},
+													pos:        position{line: 2898, col: 13, offset: 91570},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2892, col: 20, offset: 91465},
+													pos:        position{line: 2898, col: 20, offset: 91577},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2892, col: 29, offset: 91474},
+													pos:        position{line: 2898, col: 29, offset: 91586},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46396,10 +46754,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2822, col: 12, offset: 89594},
+										pos: position{line: 2828, col: 12, offset: 89706},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2822, col: 12, offset: 89594},
+											pos:        position{line: 2828, col: 12, offset: 89706},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46476,12 +46834,12 @@ var g = &grammar{
 													pos:   position{line: 1275, col: 14, offset: 39489},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 7, offset: 90938},
+														pos: position{line: 2874, col: 7, offset: 91050},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2868, col: 7, offset: 90938},
+															pos: position{line: 2874, col: 7, offset: 91050},
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 7, offset: 90938},
+																pos:        position{line: 2874, col: 7, offset: 91050},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46515,12 +46873,12 @@ var g = &grammar{
 													pos:   position{line: 1280, col: 10, offset: 39621},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2868, col: 7, offset: 90938},
+														pos: position{line: 2874, col: 7, offset: 91050},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2868, col: 7, offset: 90938},
+															pos: position{line: 2874, col: 7, offset: 91050},
 															expr: &charClassMatcher{
-																pos:        position{line: 2868, col: 7, offset: 90938},
+																pos:        position{line: 2874, col: 7, offset: 91050},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46562,17 +46920,17 @@ var g = &grammar{
 																pos: position{line: 1326, col: 31, offset: 41443},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2773, col: 13, offset: 88381},
+																		pos:        position{line: 2779, col: 13, offset: 88493},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2883, col: 10, offset: 91286},
+																		pos: position{line: 2889, col: 10, offset: 91398},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2883, col: 10, offset: 91286},
+																			pos:        position{line: 2889, col: 10, offset: 91398},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46598,10 +46956,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1320, col: 12, offset: 41157},
 																		expr: &actionExpr{
-																			pos: position{line: 2883, col: 10, offset: 91286},
+																			pos: position{line: 2889, col: 10, offset: 91398},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2883, col: 10, offset: 91286},
+																				pos:        position{line: 2889, col: 10, offset: 91398},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46618,10 +46976,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1320, col: 23, offset: 41168},
 																		expr: &actionExpr{
-																			pos: position{line: 2883, col: 10, offset: 91286},
+																			pos: position{line: 2889, col: 10, offset: 91398},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2883, col: 10, offset: 91286},
+																				pos:        position{line: 2889, col: 10, offset: 91398},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46641,17 +46999,17 @@ var g = &grammar{
 																					pos: position{line: 1326, col: 31, offset: 41443},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2773, col: 13, offset: 88381},
+																							pos:        position{line: 2779, col: 13, offset: 88493},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2883, col: 10, offset: 91286},
+																							pos: position{line: 2889, col: 10, offset: 91398},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2883, col: 10, offset: 91286},
+																								pos:        position{line: 2889, col: 10, offset: 91398},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46682,10 +47040,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1321, col: 12, offset: 41249},
 																		expr: &actionExpr{
-																			pos: position{line: 2883, col: 10, offset: 91286},
+																			pos: position{line: 2889, col: 10, offset: 91398},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2883, col: 10, offset: 91286},
+																				pos:        position{line: 2889, col: 10, offset: 91398},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46702,10 +47060,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1321, col: 23, offset: 41260},
 																		expr: &actionExpr{
-																			pos: position{line: 2883, col: 10, offset: 91286},
+																			pos: position{line: 2889, col: 10, offset: 91398},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2883, col: 10, offset: 91286},
+																				pos:        position{line: 2889, col: 10, offset: 91398},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46725,17 +47083,17 @@ var g = &grammar{
 																					pos: position{line: 1326, col: 31, offset: 41443},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2773, col: 13, offset: 88381},
+																							pos:        position{line: 2779, col: 13, offset: 88493},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2883, col: 10, offset: 91286},
+																							pos: position{line: 2889, col: 10, offset: 91398},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2883, col: 10, offset: 91286},
+																								pos:        position{line: 2889, col: 10, offset: 91398},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -46852,10 +47210,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1407, col: 12, offset: 45158},
 																				expr: &actionExpr{
-																					pos: position{line: 2883, col: 10, offset: 91286},
+																					pos: position{line: 2889, col: 10, offset: 91398},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2883, col: 10, offset: 91286},
+																						pos:        position{line: 2889, col: 10, offset: 91398},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -46866,25 +47224,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1407, col: 19, offset: 45165},
 																				expr: &actionExpr{
-																					pos: position{line: 2892, col: 12, offset: 91457},
+																					pos: position{line: 2898, col: 12, offset: 91569},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2892, col: 13, offset: 91458},
+																						pos: position{line: 2898, col: 13, offset: 91570},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 13, offset: 91458},
+																								pos:        position{line: 2898, col: 13, offset: 91570},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 20, offset: 91465},
+																								pos:        position{line: 2898, col: 20, offset: 91577},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2892, col: 29, offset: 91474},
+																								pos:        position{line: 2898, col: 29, offset: 91586},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46921,7 +47279,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1401, col: 121, offset: 44807},
 													expr: &charClassMatcher{
-														pos:        position{line: 2773, col: 13, offset: 88381},
+														pos:        position{line: 2779, col: 13, offset: 88493},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -46967,10 +47325,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1393, col: 64, offset: 44267},
 																			expr: &actionExpr{
-																				pos: position{line: 2883, col: 10, offset: 91286},
+																				pos: position{line: 2889, col: 10, offset: 91398},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2883, col: 10, offset: 91286},
+																					pos:        position{line: 2889, col: 10, offset: 91398},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -46981,25 +47339,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1393, col: 71, offset: 44274},
 																			expr: &actionExpr{
-																				pos: position{line: 2892, col: 12, offset: 91457},
+																				pos: position{line: 2898, col: 12, offset: 91569},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2892, col: 13, offset: 91458},
+																					pos: position{line: 2898, col: 13, offset: 91570},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 13, offset: 91458},
+																							pos:        position{line: 2898, col: 13, offset: 91570},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 20, offset: 91465},
+																							pos:        position{line: 2898, col: 20, offset: 91577},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 29, offset: 91474},
+																							pos:        position{line: 2898, col: 29, offset: 91586},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47022,12 +47380,12 @@ var g = &grammar{
 																							pos: position{line: 1393, col: 86, offset: 44289},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2887, col: 11, offset: 91347},
+																									pos: position{line: 2893, col: 11, offset: 91459},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2887, col: 11, offset: 91347},
+																										pos: position{line: 2893, col: 11, offset: 91459},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2887, col: 11, offset: 91347},
+																											pos:        position{line: 2893, col: 11, offset: 91459},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -47056,25 +47414,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1393, col: 151, offset: 44354},
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 12, offset: 91457},
+																							pos: position{line: 2898, col: 12, offset: 91569},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2892, col: 13, offset: 91458},
+																								pos: position{line: 2898, col: 13, offset: 91570},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 13, offset: 91458},
+																										pos:        position{line: 2898, col: 13, offset: 91570},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 20, offset: 91465},
+																										pos:        position{line: 2898, col: 20, offset: 91577},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2892, col: 29, offset: 91474},
+																										pos:        position{line: 2898, col: 29, offset: 91586},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -47101,10 +47459,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1395, col: 12, offset: 44514},
 																			expr: &actionExpr{
-																				pos: position{line: 2883, col: 10, offset: 91286},
+																				pos: position{line: 2889, col: 10, offset: 91398},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2883, col: 10, offset: 91286},
+																					pos:        position{line: 2889, col: 10, offset: 91398},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47115,25 +47473,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1395, col: 19, offset: 44521},
 																			expr: &actionExpr{
-																				pos: position{line: 2892, col: 12, offset: 91457},
+																				pos: position{line: 2898, col: 12, offset: 91569},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2892, col: 13, offset: 91458},
+																					pos: position{line: 2898, col: 13, offset: 91570},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 13, offset: 91458},
+																							pos:        position{line: 2898, col: 13, offset: 91570},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 20, offset: 91465},
+																							pos:        position{line: 2898, col: 20, offset: 91577},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2892, col: 29, offset: 91474},
+																							pos:        position{line: 2898, col: 29, offset: 91586},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47169,7 +47527,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1389, col: 121, offset: 44090},
 													expr: &charClassMatcher{
-														pos:        position{line: 2773, col: 13, offset: 88381},
+														pos:        position{line: 2779, col: 13, offset: 88493},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47327,10 +47685,10 @@ var g = &grammar{
 														pos: position{line: 2583, col: 6, offset: 82989},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2883, col: 10, offset: 91286},
+																pos: position{line: 2889, col: 10, offset: 91398},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2883, col: 10, offset: 91286},
+																	pos:        position{line: 2889, col: 10, offset: 91398},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47340,28 +47698,28 @@ var g = &grammar{
 															&andExpr{
 																pos: position{line: 2583, col: 14, offset: 82997},
 																expr: &choiceExpr{
-																	pos: position{line: 2905, col: 8, offset: 91684},
+																	pos: position{line: 2911, col: 8, offset: 91796},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2892, col: 12, offset: 91457},
+																			pos: position{line: 2898, col: 12, offset: 91569},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2892, col: 13, offset: 91458},
+																				pos: position{line: 2898, col: 13, offset: 91570},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 13, offset: 91458},
+																						pos:        position{line: 2898, col: 13, offset: 91570},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 20, offset: 91465},
+																						pos:        position{line: 2898, col: 20, offset: 91577},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2892, col: 29, offset: 91474},
+																						pos:        position{line: 2898, col: 29, offset: 91586},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47370,9 +47728,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2902, col: 8, offset: 91634},
+																			pos: position{line: 2908, col: 8, offset: 91746},
 																			expr: &anyMatcher{
-																				line: 2902, col: 9, offset: 91635,
+																				line: 2908, col: 9, offset: 91747,
 																			},
 																		},
 																	},
@@ -47405,32 +47763,32 @@ var g = &grammar{
 															pos: position{line: 2593, col: 7, offset: 83218},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2773, col: 13, offset: 88381},
+																	pos:        position{line: 2779, col: 13, offset: 88493},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2892, col: 12, offset: 91457},
+																	pos: position{line: 2898, col: 12, offset: 91569},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2892, col: 13, offset: 91458},
+																		pos: position{line: 2898, col: 13, offset: 91570},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2892, col: 13, offset: 91458},
+																				pos:        position{line: 2898, col: 13, offset: 91570},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2892, col: 20, offset: 91465},
+																				pos:        position{line: 2898, col: 20, offset: 91577},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2892, col: 29, offset: 91474},
+																				pos:        position{line: 2898, col: 29, offset: 91586},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47439,9 +47797,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2902, col: 8, offset: 91634},
+																	pos: position{line: 2908, col: 8, offset: 91746},
 																	expr: &anyMatcher{
-																		line: 2902, col: 9, offset: 91635,
+																		line: 2908, col: 9, offset: 91747,
 																	},
 																},
 															},
@@ -47549,10 +47907,10 @@ var g = &grammar{
 									pos: position{line: 2583, col: 6, offset: 82989},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2883, col: 10, offset: 91286},
+											pos: position{line: 2889, col: 10, offset: 91398},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2883, col: 10, offset: 91286},
+												pos:        position{line: 2889, col: 10, offset: 91398},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47562,28 +47920,28 @@ var g = &grammar{
 										&andExpr{
 											pos: position{line: 2583, col: 14, offset: 82997},
 											expr: &choiceExpr{
-												pos: position{line: 2905, col: 8, offset: 91684},
+												pos: position{line: 2911, col: 8, offset: 91796},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2892, col: 12, offset: 91457},
+														pos: position{line: 2898, col: 12, offset: 91569},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2892, col: 13, offset: 91458},
+															pos: position{line: 2898, col: 13, offset: 91570},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2892, col: 13, offset: 91458},
+																	pos:        position{line: 2898, col: 13, offset: 91570},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2892, col: 20, offset: 91465},
+																	pos:        position{line: 2898, col: 20, offset: 91577},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2892, col: 29, offset: 91474},
+																	pos:        position{line: 2898, col: 29, offset: 91586},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47592,9 +47950,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2902, col: 8, offset: 91634},
+														pos: position{line: 2908, col: 8, offset: 91746},
 														expr: &anyMatcher{
-															line: 2902, col: 9, offset: 91635,
+															line: 2908, col: 9, offset: 91747,
 														},
 													},
 												},
@@ -47627,32 +47985,32 @@ var g = &grammar{
 										pos: position{line: 2593, col: 7, offset: 83218},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2773, col: 13, offset: 88381},
+												pos:        position{line: 2779, col: 13, offset: 88493},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2892, col: 12, offset: 91457},
+												pos: position{line: 2898, col: 12, offset: 91569},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2892, col: 13, offset: 91458},
+													pos: position{line: 2898, col: 13, offset: 91570},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2892, col: 13, offset: 91458},
+															pos:        position{line: 2898, col: 13, offset: 91570},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2892, col: 20, offset: 91465},
+															pos:        position{line: 2898, col: 20, offset: 91577},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2892, col: 29, offset: 91474},
+															pos:        position{line: 2898, col: 29, offset: 91586},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -47661,9 +48019,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2902, col: 8, offset: 91634},
+												pos: position{line: 2908, col: 8, offset: 91746},
 												expr: &anyMatcher{
-													line: 2902, col: 9, offset: 91635,
+													line: 2908, col: 9, offset: 91747,
 												},
 											},
 										},
@@ -47860,63 +48218,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2688, col: 1, offset: 85461},
+			pos:  position{line: 2694, col: 1, offset: 85573},
 			expr: &actionExpr{
-				pos: position{line: 2688, col: 26, offset: 85486},
+				pos: position{line: 2694, col: 26, offset: 85598},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2688, col: 26, offset: 85486},
+					pos: position{line: 2694, col: 26, offset: 85598},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2688, col: 26, offset: 85486},
+							pos:   position{line: 2694, col: 26, offset: 85598},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2688, col: 31, offset: 85491},
+								pos: position{line: 2694, col: 31, offset: 85603},
 								expr: &actionExpr{
-									pos: position{line: 2693, col: 5, offset: 85554},
+									pos: position{line: 2699, col: 5, offset: 85666},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2693, col: 5, offset: 85554},
+										pos: position{line: 2699, col: 5, offset: 85666},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2900, col: 11, offset: 91620},
+												pos: position{line: 2906, col: 11, offset: 91732},
 												expr: &anyMatcher{
-													line: 2900, col: 13, offset: 91622,
+													line: 2906, col: 13, offset: 91734,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2696, col: 5, offset: 85680},
+												pos:   position{line: 2702, col: 5, offset: 85792},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2696, col: 16, offset: 85691},
+													pos: position{line: 2702, col: 16, offset: 85803},
 													expr: &actionExpr{
-														pos: position{line: 2696, col: 17, offset: 85692},
+														pos: position{line: 2702, col: 17, offset: 85804},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2696, col: 17, offset: 85692},
+															pos: position{line: 2702, col: 17, offset: 85804},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2696, col: 17, offset: 85692},
+																	pos:   position{line: 2702, col: 17, offset: 85804},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2875, col: 12, offset: 91113},
+																		pos: position{line: 2881, col: 12, offset: 91225},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2875, col: 13, offset: 91114},
+																			pos: position{line: 2881, col: 13, offset: 91226},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2875, col: 13, offset: 91114},
+																					pos: position{line: 2881, col: 13, offset: 91226},
 																					expr: &litMatcher{
-																						pos:        position{line: 2875, col: 13, offset: 91114},
+																						pos:        position{line: 2881, col: 13, offset: 91226},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2875, col: 18, offset: 91119},
+																					pos: position{line: 2881, col: 18, offset: 91231},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2875, col: 18, offset: 91119},
+																						pos:        position{line: 2881, col: 18, offset: 91231},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -47928,7 +48286,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2696, col: 27, offset: 85702},
+																	pos:        position{line: 2702, col: 27, offset: 85814},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -47939,38 +48297,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2697, col: 5, offset: 85730},
+												pos:   position{line: 2703, col: 5, offset: 85842},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2697, col: 12, offset: 85737},
+													pos: position{line: 2703, col: 12, offset: 85849},
 													expr: &choiceExpr{
-														pos: position{line: 2698, col: 9, offset: 85747},
+														pos: position{line: 2704, col: 9, offset: 85859},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2698, col: 9, offset: 85747},
+																pos: position{line: 2704, col: 9, offset: 85859},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2698, col: 9, offset: 85747},
+																	pos:        position{line: 2704, col: 9, offset: 85859},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2699, col: 11, offset: 85794},
+																pos: position{line: 2705, col: 11, offset: 85906},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2699, col: 11, offset: 85794},
+																	pos:        position{line: 2705, col: 11, offset: 85906},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2700, col: 11, offset: 85842},
+																pos: position{line: 2706, col: 11, offset: 85954},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2700, col: 11, offset: 85842},
+																	pos:        position{line: 2706, col: 11, offset: 85954},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -47981,38 +48339,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2702, col: 5, offset: 85892},
+												pos:   position{line: 2708, col: 5, offset: 86004},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2702, col: 12, offset: 85899},
+													pos: position{line: 2708, col: 12, offset: 86011},
 													expr: &choiceExpr{
-														pos: position{line: 2703, col: 9, offset: 85909},
+														pos: position{line: 2709, col: 9, offset: 86021},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2703, col: 9, offset: 85909},
+																pos: position{line: 2709, col: 9, offset: 86021},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2703, col: 9, offset: 85909},
+																	pos:        position{line: 2709, col: 9, offset: 86021},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2704, col: 11, offset: 85956},
+																pos: position{line: 2710, col: 11, offset: 86068},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2704, col: 11, offset: 85956},
+																	pos:        position{line: 2710, col: 11, offset: 86068},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2705, col: 11, offset: 86006},
+																pos: position{line: 2711, col: 11, offset: 86118},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2705, col: 11, offset: 86006},
+																	pos:        position{line: 2711, col: 11, offset: 86118},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -48023,32 +48381,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2707, col: 5, offset: 86057},
+												pos:   position{line: 2713, col: 5, offset: 86169},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2707, col: 12, offset: 86064},
+													pos: position{line: 2713, col: 12, offset: 86176},
 													expr: &choiceExpr{
-														pos: position{line: 2707, col: 13, offset: 86065},
+														pos: position{line: 2713, col: 13, offset: 86177},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2875, col: 12, offset: 91113},
+																pos: position{line: 2881, col: 12, offset: 91225},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2875, col: 13, offset: 91114},
+																	pos: position{line: 2881, col: 13, offset: 91226},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2875, col: 13, offset: 91114},
+																			pos: position{line: 2881, col: 13, offset: 91226},
 																			expr: &litMatcher{
-																				pos:        position{line: 2875, col: 13, offset: 91114},
+																				pos:        position{line: 2881, col: 13, offset: 91226},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2875, col: 18, offset: 91119},
+																			pos: position{line: 2881, col: 18, offset: 91231},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2875, col: 18, offset: 91119},
+																				pos:        position{line: 2881, col: 18, offset: 91231},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -48059,10 +48417,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2707, col: 24, offset: 86076},
+																pos: position{line: 2713, col: 24, offset: 86188},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2707, col: 24, offset: 86076},
+																	pos:        position{line: 2713, col: 24, offset: 86188},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -48073,15 +48431,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2708, col: 5, offset: 86118},
+												pos:   position{line: 2714, col: 5, offset: 86230},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2708, col: 11, offset: 86124},
+													pos: position{line: 2714, col: 11, offset: 86236},
 													expr: &actionExpr{
-														pos: position{line: 2708, col: 12, offset: 86125},
+														pos: position{line: 2714, col: 12, offset: 86237},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2708, col: 12, offset: 86125},
+															pos:        position{line: 2714, col: 12, offset: 86237},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -48091,12 +48449,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2710, col: 5, offset: 86255},
+												pos:   position{line: 2716, col: 5, offset: 86367},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2710, col: 11, offset: 86261},
+													pos: position{line: 2716, col: 11, offset: 86373},
 													expr: &litMatcher{
-														pos:        position{line: 2710, col: 12, offset: 86262},
+														pos:        position{line: 2716, col: 12, offset: 86374},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -48104,7 +48462,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2711, col: 5, offset: 86272},
+												pos: position{line: 2717, col: 5, offset: 86384},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -48113,9 +48471,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2902, col: 8, offset: 91634},
+							pos: position{line: 2908, col: 8, offset: 91746},
 							expr: &anyMatcher{
-								line: 2902, col: 9, offset: 91635,
+								line: 2908, col: 9, offset: 91747,
 							},
 						},
 					},
@@ -48124,23 +48482,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2738, col: 1, offset: 87281},
+			pos:  position{line: 2744, col: 1, offset: 87393},
 			expr: &actionExpr{
-				pos: position{line: 2739, col: 5, offset: 87304},
+				pos: position{line: 2745, col: 5, offset: 87416},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2739, col: 5, offset: 87304},
+					pos: position{line: 2745, col: 5, offset: 87416},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2739, col: 5, offset: 87304},
+							pos:   position{line: 2745, col: 5, offset: 87416},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2762, col: 18, offset: 88045},
+								pos: position{line: 2768, col: 18, offset: 88157},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2762, col: 19, offset: 88046},
+									pos: position{line: 2768, col: 19, offset: 88158},
 									expr: &charClassMatcher{
-										pos:        position{line: 2762, col: 19, offset: 88046},
+										pos:        position{line: 2768, col: 19, offset: 88158},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48151,25 +48509,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2740, col: 5, offset: 87330},
+							pos: position{line: 2746, col: 5, offset: 87442},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2744, col: 5, offset: 87458},
+							pos:        position{line: 2750, col: 5, offset: 87570},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2745, col: 5, offset: 87468},
+							pos:   position{line: 2751, col: 5, offset: 87580},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2766, col: 19, offset: 88121},
+								pos: position{line: 2772, col: 19, offset: 88233},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2766, col: 19, offset: 88121},
+									pos: position{line: 2772, col: 19, offset: 88233},
 									expr: &charClassMatcher{
-										pos:        position{line: 2766, col: 19, offset: 88121},
+										pos:        position{line: 2772, col: 19, offset: 88233},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48179,36 +48537,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2746, col: 5, offset: 87496},
+							pos:   position{line: 2752, col: 5, offset: 87608},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2746, col: 17, offset: 87508},
+								pos:  position{line: 2752, col: 17, offset: 87620},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2905, col: 8, offset: 91684},
+							pos: position{line: 2911, col: 8, offset: 91796},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2892, col: 12, offset: 91457},
+									pos: position{line: 2898, col: 12, offset: 91569},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2892, col: 13, offset: 91458},
+										pos: position{line: 2898, col: 13, offset: 91570},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2892, col: 13, offset: 91458},
+												pos:        position{line: 2898, col: 13, offset: 91570},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2892, col: 20, offset: 91465},
+												pos:        position{line: 2898, col: 20, offset: 91577},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2892, col: 29, offset: 91474},
+												pos:        position{line: 2898, col: 29, offset: 91586},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -48217,9 +48575,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2902, col: 8, offset: 91634},
+									pos: position{line: 2908, col: 8, offset: 91746},
 									expr: &anyMatcher{
-										line: 2902, col: 9, offset: 91635,
+										line: 2908, col: 9, offset: 91747,
 									},
 								},
 							},
@@ -48230,23 +48588,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2750, col: 1, offset: 87656},
+			pos:  position{line: 2756, col: 1, offset: 87768},
 			expr: &actionExpr{
-				pos: position{line: 2751, col: 5, offset: 87680},
+				pos: position{line: 2757, col: 5, offset: 87792},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2751, col: 5, offset: 87680},
+					pos: position{line: 2757, col: 5, offset: 87792},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2751, col: 5, offset: 87680},
+							pos:   position{line: 2757, col: 5, offset: 87792},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2762, col: 18, offset: 88045},
+								pos: position{line: 2768, col: 18, offset: 88157},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2762, col: 19, offset: 88046},
+									pos: position{line: 2768, col: 19, offset: 88158},
 									expr: &charClassMatcher{
-										pos:        position{line: 2762, col: 19, offset: 88046},
+										pos:        position{line: 2768, col: 19, offset: 88158},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48257,25 +48615,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2752, col: 5, offset: 87706},
+							pos: position{line: 2758, col: 5, offset: 87818},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2756, col: 5, offset: 87834},
+							pos:        position{line: 2762, col: 5, offset: 87946},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2757, col: 5, offset: 87843},
+							pos:   position{line: 2763, col: 5, offset: 87955},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2766, col: 19, offset: 88121},
+								pos: position{line: 2772, col: 19, offset: 88233},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2766, col: 19, offset: 88121},
+									pos: position{line: 2772, col: 19, offset: 88233},
 									expr: &charClassMatcher{
-										pos:        position{line: 2766, col: 19, offset: 88121},
+										pos:        position{line: 2772, col: 19, offset: 88233},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48285,10 +48643,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2758, col: 5, offset: 87871},
+							pos:   position{line: 2764, col: 5, offset: 87983},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2758, col: 17, offset: 87883},
+								pos:  position{line: 2764, col: 17, offset: 87995},
 								name: "InlineAttributes",
 							},
 						},
@@ -48298,43 +48656,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2837, col: 1, offset: 89933},
+			pos:  position{line: 2843, col: 1, offset: 90045},
 			expr: &actionExpr{
-				pos: position{line: 2837, col: 17, offset: 89949},
+				pos: position{line: 2843, col: 17, offset: 90061},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2837, col: 17, offset: 89949},
+					pos:   position{line: 2843, col: 17, offset: 90061},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2854, col: 5, offset: 90403},
+						pos: position{line: 2860, col: 5, offset: 90515},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2854, col: 5, offset: 90403},
+							pos:   position{line: 2860, col: 5, offset: 90515},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2854, col: 14, offset: 90412},
+								pos: position{line: 2860, col: 14, offset: 90524},
 								expr: &choiceExpr{
-									pos: position{line: 2855, col: 9, offset: 90422},
+									pos: position{line: 2861, col: 9, offset: 90534},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2855, col: 9, offset: 90422},
+											pos: position{line: 2861, col: 9, offset: 90534},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2855, col: 9, offset: 90422},
+												pos: position{line: 2861, col: 9, offset: 90534},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2855, col: 9, offset: 90422},
+														pos: position{line: 2861, col: 9, offset: 90534},
 														expr: &litMatcher{
-															pos:        position{line: 2855, col: 10, offset: 90423},
+															pos:        position{line: 2861, col: 10, offset: 90535},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2856, col: 9, offset: 90451},
+														pos: position{line: 2862, col: 9, offset: 90563},
 														expr: &charClassMatcher{
-															pos:        position{line: 2856, col: 10, offset: 90452},
+															pos:        position{line: 2862, col: 10, offset: 90564},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48345,27 +48703,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2859, col: 11, offset: 90664},
+											pos: position{line: 2865, col: 11, offset: 90776},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2859, col: 11, offset: 90664},
+													pos:        position{line: 2865, col: 11, offset: 90776},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2859, col: 19, offset: 90672},
+													pos: position{line: 2865, col: 19, offset: 90784},
 													expr: &seqExpr{
-														pos: position{line: 2859, col: 21, offset: 90674},
+														pos: position{line: 2865, col: 21, offset: 90786},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2859, col: 21, offset: 90674},
+																pos: position{line: 2865, col: 21, offset: 90786},
 																expr: &actionExpr{
-																	pos: position{line: 2883, col: 10, offset: 91286},
+																	pos: position{line: 2889, col: 10, offset: 91398},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2883, col: 10, offset: 91286},
+																		pos:        position{line: 2889, col: 10, offset: 91398},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48374,11 +48732,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2859, col: 28, offset: 90681},
+																pos: position{line: 2865, col: 28, offset: 90793},
 																expr: &notExpr{
-																	pos: position{line: 2902, col: 8, offset: 91634},
+																	pos: position{line: 2908, col: 8, offset: 91746},
 																	expr: &anyMatcher{
-																		line: 2902, col: 9, offset: 91635,
+																		line: 2908, col: 9, offset: 91747,
 																	},
 																},
 															},
@@ -48773,10 +49131,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2862, col: 11, offset: 90801},
+											pos: position{line: 2868, col: 11, offset: 90913},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2862, col: 11, offset: 90801},
+												pos:        position{line: 2868, col: 11, offset: 90913},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -53697,16 +54055,16 @@ func (p *parser) callonDocumentFragment1182() (interface{}, error) {
 	return p.cur.onDocumentFragment1182()
 }
 
-func (c *current) onDocumentFragment1197() (interface{}, error) {
+func (c *current) onDocumentFragment1196() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1197() (interface{}, error) {
+func (p *parser) callonDocumentFragment1196() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1197()
+	return p.cur.onDocumentFragment1196()
 }
 
 func (c *current) onDocumentFragment1200() (interface{}, error) {
@@ -53720,463 +54078,542 @@ func (p *parser) callonDocumentFragment1200() (interface{}, error) {
 	return p.cur.onDocumentFragment1200()
 }
 
-func (c *current) onDocumentFragment1192() (interface{}, error) {
+func (c *current) onDocumentFragment1190(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
+
+}
+
+func (p *parser) callonDocumentFragment1190() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1190(stack["content"])
+}
+
+func (c *current) onDocumentFragment1218() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment1218() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1218()
+}
+
+func (c *current) onDocumentFragment1221() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment1221() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1221()
+}
+
+func (c *current) onDocumentFragment1213() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1192() (interface{}, error) {
+func (p *parser) callonDocumentFragment1213() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1192()
+	return p.cur.onDocumentFragment1213()
 }
 
-func (c *current) onDocumentFragment1214() (interface{}, error) {
+func (c *current) onDocumentFragment1235() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1214() (interface{}, error) {
+func (p *parser) callonDocumentFragment1235() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1214()
+	return p.cur.onDocumentFragment1235()
 }
 
-func (c *current) onDocumentFragment1217() (interface{}, error) {
+func (c *current) onDocumentFragment1238() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1217() (interface{}, error) {
+func (p *parser) callonDocumentFragment1238() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1217()
+	return p.cur.onDocumentFragment1238()
 }
 
-func (c *current) onDocumentFragment1239() (interface{}, error) {
+func (c *current) onDocumentFragment1260() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1239() (interface{}, error) {
+func (p *parser) callonDocumentFragment1260() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1239()
+	return p.cur.onDocumentFragment1260()
 }
 
-func (c *current) onDocumentFragment1244() (interface{}, error) {
+func (c *current) onDocumentFragment1265() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1244() (interface{}, error) {
+func (p *parser) callonDocumentFragment1265() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1244()
+	return p.cur.onDocumentFragment1265()
 }
 
-func (c *current) onDocumentFragment1242(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1263(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1242() (interface{}, error) {
+func (p *parser) callonDocumentFragment1263() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1242(stack["content"])
+	return p.cur.onDocumentFragment1263(stack["content"])
 }
 
-func (c *current) onDocumentFragment1235(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1256(content interface{}) (interface{}, error) {
 	return types.NewInlineTableCell(content.(*types.RawLine))
 
 }
 
-func (p *parser) callonDocumentFragment1235() (interface{}, error) {
+func (p *parser) callonDocumentFragment1256() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1235(stack["content"])
+	return p.cur.onDocumentFragment1256(stack["content"])
 }
 
-func (c *current) onDocumentFragment1248() (interface{}, error) {
+func (c *current) onDocumentFragment1269() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1248() (interface{}, error) {
+func (p *parser) callonDocumentFragment1269() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1248()
+	return p.cur.onDocumentFragment1269()
 }
 
-func (c *current) onDocumentFragment1231(cells interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1252(cells interface{}) (interface{}, error) {
 
 	return cells, nil
 }
 
-func (p *parser) callonDocumentFragment1231() (interface{}, error) {
+func (p *parser) callonDocumentFragment1252() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1231(stack["cells"])
+	return p.cur.onDocumentFragment1252(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1265() (interface{}, error) {
+func (c *current) onDocumentFragment1286() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1265() (interface{}, error) {
+func (p *parser) callonDocumentFragment1286() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1265()
+	return p.cur.onDocumentFragment1286()
 }
 
-func (c *current) onDocumentFragment1268() (interface{}, error) {
+func (c *current) onDocumentFragment1289() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1268() (interface{}, error) {
+func (p *parser) callonDocumentFragment1289() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1268()
+	return p.cur.onDocumentFragment1289()
 }
 
-func (c *current) onDocumentFragment1283() (interface{}, error) {
+func (c *current) onDocumentFragment1304() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1283() (interface{}, error) {
+func (p *parser) callonDocumentFragment1304() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1283()
+	return p.cur.onDocumentFragment1304()
 }
 
-func (c *current) onDocumentFragment1286() (interface{}, error) {
+func (c *current) onDocumentFragment1307() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1286() (interface{}, error) {
+func (p *parser) callonDocumentFragment1307() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1286()
+	return p.cur.onDocumentFragment1307()
 }
 
-func (c *current) onDocumentFragment1278() (interface{}, error) {
+func (c *current) onDocumentFragment1299() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1278() (interface{}, error) {
+func (p *parser) callonDocumentFragment1299() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1278()
+	return p.cur.onDocumentFragment1299()
 }
 
-func (c *current) onDocumentFragment1295() (interface{}, error) {
+func (c *current) onDocumentFragment1316() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1295() (interface{}, error) {
+func (p *parser) callonDocumentFragment1316() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1295()
+	return p.cur.onDocumentFragment1316()
 }
 
-func (c *current) onDocumentFragment1300() (interface{}, error) {
+func (c *current) onDocumentFragment1321() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1300() (interface{}, error) {
+func (p *parser) callonDocumentFragment1321() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1300()
+	return p.cur.onDocumentFragment1321()
 }
 
-func (c *current) onDocumentFragment1304() (interface{}, error) {
+func (c *current) onDocumentFragment1325() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1304() (interface{}, error) {
+func (p *parser) callonDocumentFragment1325() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1304()
+	return p.cur.onDocumentFragment1325()
 }
 
-func (c *current) onDocumentFragment1316() (interface{}, error) {
+func (c *current) onDocumentFragment1337() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1316() (interface{}, error) {
+func (p *parser) callonDocumentFragment1337() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1316()
+	return p.cur.onDocumentFragment1337()
 }
 
-func (c *current) onDocumentFragment1320() (interface{}, error) {
+func (c *current) onDocumentFragment1341() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1320() (interface{}, error) {
+func (p *parser) callonDocumentFragment1341() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1320()
+	return p.cur.onDocumentFragment1341()
 }
 
-func (c *current) onDocumentFragment1310(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1331(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1310() (interface{}, error) {
+func (p *parser) callonDocumentFragment1331() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1310(stack["content"])
+	return p.cur.onDocumentFragment1331(stack["content"])
 }
 
-func (c *current) onDocumentFragment1336() (interface{}, error) {
+func (c *current) onDocumentFragment1357() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1336() (interface{}, error) {
+func (p *parser) callonDocumentFragment1357() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1336()
+	return p.cur.onDocumentFragment1357()
 }
 
-func (c *current) onDocumentFragment1339() (interface{}, error) {
+func (c *current) onDocumentFragment1360() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1339() (interface{}, error) {
+func (p *parser) callonDocumentFragment1360() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1339()
+	return p.cur.onDocumentFragment1360()
 }
 
-func (c *current) onDocumentFragment1354() (interface{}, error) {
+func (c *current) onDocumentFragment1375() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1354() (interface{}, error) {
+func (p *parser) callonDocumentFragment1375() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1354()
+	return p.cur.onDocumentFragment1375()
 }
 
-func (c *current) onDocumentFragment1357() (interface{}, error) {
+func (c *current) onDocumentFragment1378() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1357() (interface{}, error) {
+func (p *parser) callonDocumentFragment1378() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1357()
+	return p.cur.onDocumentFragment1378()
 }
 
-func (c *current) onDocumentFragment1349() (interface{}, error) {
+func (c *current) onDocumentFragment1370() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1349() (interface{}, error) {
+func (p *parser) callonDocumentFragment1370() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1349()
+	return p.cur.onDocumentFragment1370()
 }
 
-func (c *current) onDocumentFragment1368() (interface{}, error) {
+func (c *current) onDocumentFragment1389() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1368() (interface{}, error) {
+func (p *parser) callonDocumentFragment1389() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1368()
+	return p.cur.onDocumentFragment1389()
 }
 
-func (c *current) onDocumentFragment1373() (interface{}, error) {
+func (c *current) onDocumentFragment1394() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1373() (interface{}, error) {
+func (p *parser) callonDocumentFragment1394() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1373()
+	return p.cur.onDocumentFragment1394()
 }
 
-func (c *current) onDocumentFragment1379() (interface{}, error) {
+func (c *current) onDocumentFragment1400() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1379() (interface{}, error) {
+func (p *parser) callonDocumentFragment1400() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1379()
+	return p.cur.onDocumentFragment1400()
 }
 
-func (c *current) onDocumentFragment1393() (interface{}, error) {
+func (c *current) onDocumentFragment1414() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1393() (interface{}, error) {
+func (p *parser) callonDocumentFragment1414() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1393()
+	return p.cur.onDocumentFragment1414()
 }
 
-func (c *current) onDocumentFragment1397() (interface{}, error) {
+func (c *current) onDocumentFragment1418() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1397() (interface{}, error) {
+func (p *parser) callonDocumentFragment1418() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1397()
+	return p.cur.onDocumentFragment1418()
 }
 
-func (c *current) onDocumentFragment1387(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1408(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1387() (interface{}, error) {
+func (p *parser) callonDocumentFragment1408() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1387(stack["content"])
+	return p.cur.onDocumentFragment1408(stack["content"])
 }
 
-func (c *current) onDocumentFragment1329(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1350(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1329() (interface{}, error) {
+func (p *parser) callonDocumentFragment1350() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1329(stack["content"])
+	return p.cur.onDocumentFragment1350(stack["content"])
 }
 
-func (c *current) onDocumentFragment1258(format, content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1279(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonDocumentFragment1258() (interface{}, error) {
+func (p *parser) callonDocumentFragment1279() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1258(stack["format"], stack["content"])
+	return p.cur.onDocumentFragment1279(stack["format"], stack["content"])
 }
 
-func (c *current) onDocumentFragment1255(cells interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1276(cells interface{}) (interface{}, error) {
 	return cells, nil
 }
 
-func (p *parser) callonDocumentFragment1255() (interface{}, error) {
+func (p *parser) callonDocumentFragment1276() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1255(stack["cells"])
+	return p.cur.onDocumentFragment1276(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1228(cells interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1249(cells interface{}) (interface{}, error) {
 	return types.NewTableRow(cells.([]interface{}))
 
 }
 
-func (p *parser) callonDocumentFragment1228() (interface{}, error) {
+func (p *parser) callonDocumentFragment1249() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1228(stack["cells"])
+	return p.cur.onDocumentFragment1249(stack["cells"])
 }
 
-func (c *current) onDocumentFragment1409() (interface{}, error) {
+func (c *current) onDocumentFragment1430() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1409() (interface{}, error) {
+func (p *parser) callonDocumentFragment1430() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1409()
+	return p.cur.onDocumentFragment1430()
 }
 
-func (c *current) onDocumentFragment1412() (interface{}, error) {
+func (c *current) onDocumentFragment1433() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1412() (interface{}, error) {
+func (p *parser) callonDocumentFragment1433() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1412()
+	return p.cur.onDocumentFragment1433()
 }
 
-func (c *current) onDocumentFragment1404() (interface{}, error) {
+func (c *current) onDocumentFragment1425() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonDocumentFragment1404() (interface{}, error) {
+func (p *parser) callonDocumentFragment1425() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1404()
+	return p.cur.onDocumentFragment1425()
 }
 
-func (c *current) onDocumentFragment1207(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1228(content interface{}) (interface{}, error) {
 	return content, nil
 
 }
 
-func (p *parser) callonDocumentFragment1207() (interface{}, error) {
+func (p *parser) callonDocumentFragment1228() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1228(stack["content"])
+}
+
+func (c *current) onDocumentFragment1447() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonDocumentFragment1447() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1447()
+}
+
+func (c *current) onDocumentFragment1451() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonDocumentFragment1451() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1451()
+}
+
+func (c *current) onDocumentFragment1441(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
+
+}
+
+func (p *parser) callonDocumentFragment1441() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onDocumentFragment1441(stack["content"])
+}
+
+func (c *current) onDocumentFragment1209(line interface{}) (interface{}, error) {
+	return line, nil
+
+}
+
+func (p *parser) callonDocumentFragment1209() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1207(stack["content"])
+	return p.cur.onDocumentFragment1209(stack["line"])
 }
 
-func (c *current) onDocumentFragment1423() (interface{}, error) {
+func (c *current) onDocumentFragment1462() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1423() (interface{}, error) {
+func (p *parser) callonDocumentFragment1462() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1423()
+	return p.cur.onDocumentFragment1462()
 }
 
-func (c *current) onDocumentFragment1426() (interface{}, error) {
+func (c *current) onDocumentFragment1465() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1426() (interface{}, error) {
+func (p *parser) callonDocumentFragment1465() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1426()
+	return p.cur.onDocumentFragment1465()
 }
 
 func (c *current) onDocumentFragment1175(lines interface{}) (interface{}, error) {
@@ -54190,161 +54627,161 @@ func (p *parser) callonDocumentFragment1175() (interface{}, error) {
 	return p.cur.onDocumentFragment1175(stack["lines"])
 }
 
-func (c *current) onDocumentFragment1441() (interface{}, error) {
+func (c *current) onDocumentFragment1480() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1441() (interface{}, error) {
+func (p *parser) callonDocumentFragment1480() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1441()
+	return p.cur.onDocumentFragment1480()
 }
 
-func (c *current) onDocumentFragment1445() (interface{}, error) {
+func (c *current) onDocumentFragment1484() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1445() (interface{}, error) {
+func (p *parser) callonDocumentFragment1484() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1445()
+	return p.cur.onDocumentFragment1484()
 }
 
-func (c *current) onDocumentFragment1435(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1474(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonDocumentFragment1435() (interface{}, error) {
+func (p *parser) callonDocumentFragment1474() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1435(stack["content"])
+	return p.cur.onDocumentFragment1474(stack["content"])
 }
 
-func (c *current) onDocumentFragment1454() (bool, error) {
+func (c *current) onDocumentFragment1493() (bool, error) {
 	return c.isFrontMatterAllowed(), nil
 
 }
 
-func (p *parser) callonDocumentFragment1454() (bool, error) {
+func (p *parser) callonDocumentFragment1493() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1454()
+	return p.cur.onDocumentFragment1493()
 }
 
-func (c *current) onDocumentFragment1460() (interface{}, error) {
+func (c *current) onDocumentFragment1499() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1460() (interface{}, error) {
+func (p *parser) callonDocumentFragment1499() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1460()
+	return p.cur.onDocumentFragment1499()
 }
 
-func (c *current) onDocumentFragment1463() (interface{}, error) {
+func (c *current) onDocumentFragment1502() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1463() (interface{}, error) {
+func (p *parser) callonDocumentFragment1502() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1463()
+	return p.cur.onDocumentFragment1502()
 }
 
-func (c *current) onDocumentFragment1480() (interface{}, error) {
+func (c *current) onDocumentFragment1519() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1480() (interface{}, error) {
+func (p *parser) callonDocumentFragment1519() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1480()
+	return p.cur.onDocumentFragment1519()
 }
 
-func (c *current) onDocumentFragment1483() (interface{}, error) {
+func (c *current) onDocumentFragment1522() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1483() (interface{}, error) {
+func (p *parser) callonDocumentFragment1522() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1483()
+	return p.cur.onDocumentFragment1522()
 }
 
-func (c *current) onDocumentFragment1472() (interface{}, error) {
+func (c *current) onDocumentFragment1511() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1472() (interface{}, error) {
+func (p *parser) callonDocumentFragment1511() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1472()
+	return p.cur.onDocumentFragment1511()
 }
 
-func (c *current) onDocumentFragment1493() (interface{}, error) {
+func (c *current) onDocumentFragment1532() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonDocumentFragment1493() (interface{}, error) {
+func (p *parser) callonDocumentFragment1532() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1493()
+	return p.cur.onDocumentFragment1532()
 }
 
-func (c *current) onDocumentFragment1496() (interface{}, error) {
+func (c *current) onDocumentFragment1535() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonDocumentFragment1496() (interface{}, error) {
+func (p *parser) callonDocumentFragment1535() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1496()
+	return p.cur.onDocumentFragment1535()
 }
 
-func (c *current) onDocumentFragment1456(content interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1495(content interface{}) (interface{}, error) {
 	return types.NewYamlFrontMatter(content.(string))
 }
 
-func (p *parser) callonDocumentFragment1456() (interface{}, error) {
+func (p *parser) callonDocumentFragment1495() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1456(stack["content"])
+	return p.cur.onDocumentFragment1495(stack["content"])
 }
 
-func (c *current) onDocumentFragment1452(frontmatter interface{}) (interface{}, error) {
+func (c *current) onDocumentFragment1491(frontmatter interface{}) (interface{}, error) {
 	return frontmatter, nil
 
 }
 
-func (p *parser) callonDocumentFragment1452() (interface{}, error) {
+func (p *parser) callonDocumentFragment1491() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1452(stack["frontmatter"])
+	return p.cur.onDocumentFragment1491(stack["frontmatter"])
 }
 
-func (c *current) onDocumentFragment1504(attributes, element interface{}) (bool, error) {
+func (c *current) onDocumentFragment1543(attributes, element interface{}) (bool, error) {
 	// there must be at least `attributes` or `element`
 	return attributes != nil || element != nil, nil
 
 }
 
-func (p *parser) callonDocumentFragment1504() (bool, error) {
+func (p *parser) callonDocumentFragment1543() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onDocumentFragment1504(stack["attributes"], stack["element"])
+	return p.cur.onDocumentFragment1543(stack["attributes"], stack["element"])
 }
 
 func (c *current) onDocumentFragment1(attributes, element interface{}) (interface{}, error) {
@@ -67812,16 +68249,16 @@ func (p *parser) callonListContinuationElement1403() (interface{}, error) {
 	return p.cur.onListContinuationElement1403()
 }
 
-func (c *current) onListContinuationElement1418() (interface{}, error) {
+func (c *current) onListContinuationElement1417() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1418() (interface{}, error) {
+func (p *parser) callonListContinuationElement1417() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1418()
+	return p.cur.onListContinuationElement1417()
 }
 
 func (c *current) onListContinuationElement1421() (interface{}, error) {
@@ -67835,463 +68272,542 @@ func (p *parser) callonListContinuationElement1421() (interface{}, error) {
 	return p.cur.onListContinuationElement1421()
 }
 
-func (c *current) onListContinuationElement1413() (interface{}, error) {
+func (c *current) onListContinuationElement1411(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
+
+}
+
+func (p *parser) callonListContinuationElement1411() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1411(stack["content"])
+}
+
+func (c *current) onListContinuationElement1439() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1439() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1439()
+}
+
+func (c *current) onListContinuationElement1442() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1442() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1442()
+}
+
+func (c *current) onListContinuationElement1434() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1413() (interface{}, error) {
+func (p *parser) callonListContinuationElement1434() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1413()
+	return p.cur.onListContinuationElement1434()
 }
 
-func (c *current) onListContinuationElement1435() (interface{}, error) {
+func (c *current) onListContinuationElement1456() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1435() (interface{}, error) {
+func (p *parser) callonListContinuationElement1456() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1435()
+	return p.cur.onListContinuationElement1456()
 }
 
-func (c *current) onListContinuationElement1438() (interface{}, error) {
+func (c *current) onListContinuationElement1459() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1438() (interface{}, error) {
+func (p *parser) callonListContinuationElement1459() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1438()
+	return p.cur.onListContinuationElement1459()
 }
 
-func (c *current) onListContinuationElement1460() (interface{}, error) {
+func (c *current) onListContinuationElement1481() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1460() (interface{}, error) {
+func (p *parser) callonListContinuationElement1481() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1460()
+	return p.cur.onListContinuationElement1481()
 }
 
-func (c *current) onListContinuationElement1465() (interface{}, error) {
+func (c *current) onListContinuationElement1486() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1465() (interface{}, error) {
+func (p *parser) callonListContinuationElement1486() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1465()
+	return p.cur.onListContinuationElement1486()
 }
 
-func (c *current) onListContinuationElement1463(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1484(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1463() (interface{}, error) {
+func (p *parser) callonListContinuationElement1484() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1463(stack["content"])
+	return p.cur.onListContinuationElement1484(stack["content"])
 }
 
-func (c *current) onListContinuationElement1456(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1477(content interface{}) (interface{}, error) {
 	return types.NewInlineTableCell(content.(*types.RawLine))
 
 }
 
-func (p *parser) callonListContinuationElement1456() (interface{}, error) {
+func (p *parser) callonListContinuationElement1477() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1456(stack["content"])
+	return p.cur.onListContinuationElement1477(stack["content"])
 }
 
-func (c *current) onListContinuationElement1469() (interface{}, error) {
+func (c *current) onListContinuationElement1490() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1469() (interface{}, error) {
+func (p *parser) callonListContinuationElement1490() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1469()
+	return p.cur.onListContinuationElement1490()
 }
 
-func (c *current) onListContinuationElement1452(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1473(cells interface{}) (interface{}, error) {
 
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1452() (interface{}, error) {
+func (p *parser) callonListContinuationElement1473() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1452(stack["cells"])
+	return p.cur.onListContinuationElement1473(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1486() (interface{}, error) {
+func (c *current) onListContinuationElement1507() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1486() (interface{}, error) {
+func (p *parser) callonListContinuationElement1507() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1486()
+	return p.cur.onListContinuationElement1507()
 }
 
-func (c *current) onListContinuationElement1489() (interface{}, error) {
+func (c *current) onListContinuationElement1510() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1489() (interface{}, error) {
+func (p *parser) callonListContinuationElement1510() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1489()
+	return p.cur.onListContinuationElement1510()
 }
 
-func (c *current) onListContinuationElement1504() (interface{}, error) {
+func (c *current) onListContinuationElement1525() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1504() (interface{}, error) {
+func (p *parser) callonListContinuationElement1525() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1504()
+	return p.cur.onListContinuationElement1525()
 }
 
-func (c *current) onListContinuationElement1507() (interface{}, error) {
+func (c *current) onListContinuationElement1528() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1507() (interface{}, error) {
+func (p *parser) callonListContinuationElement1528() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1507()
+	return p.cur.onListContinuationElement1528()
 }
 
-func (c *current) onListContinuationElement1499() (interface{}, error) {
+func (c *current) onListContinuationElement1520() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1499() (interface{}, error) {
+func (p *parser) callonListContinuationElement1520() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1499()
+	return p.cur.onListContinuationElement1520()
 }
 
-func (c *current) onListContinuationElement1516() (interface{}, error) {
+func (c *current) onListContinuationElement1537() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1516() (interface{}, error) {
+func (p *parser) callonListContinuationElement1537() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1516()
+	return p.cur.onListContinuationElement1537()
 }
 
-func (c *current) onListContinuationElement1521() (interface{}, error) {
+func (c *current) onListContinuationElement1542() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1521() (interface{}, error) {
+func (p *parser) callonListContinuationElement1542() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1521()
+	return p.cur.onListContinuationElement1542()
 }
 
-func (c *current) onListContinuationElement1525() (interface{}, error) {
+func (c *current) onListContinuationElement1546() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1525() (interface{}, error) {
+func (p *parser) callonListContinuationElement1546() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1525()
+	return p.cur.onListContinuationElement1546()
 }
 
-func (c *current) onListContinuationElement1537() (interface{}, error) {
+func (c *current) onListContinuationElement1558() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1537() (interface{}, error) {
+func (p *parser) callonListContinuationElement1558() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1537()
+	return p.cur.onListContinuationElement1558()
 }
 
-func (c *current) onListContinuationElement1541() (interface{}, error) {
+func (c *current) onListContinuationElement1562() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1541() (interface{}, error) {
+func (p *parser) callonListContinuationElement1562() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1541()
+	return p.cur.onListContinuationElement1562()
 }
 
-func (c *current) onListContinuationElement1531(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1552(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1531() (interface{}, error) {
+func (p *parser) callonListContinuationElement1552() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1531(stack["content"])
+	return p.cur.onListContinuationElement1552(stack["content"])
 }
 
-func (c *current) onListContinuationElement1557() (interface{}, error) {
+func (c *current) onListContinuationElement1578() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1557() (interface{}, error) {
+func (p *parser) callonListContinuationElement1578() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1557()
+	return p.cur.onListContinuationElement1578()
 }
 
-func (c *current) onListContinuationElement1560() (interface{}, error) {
+func (c *current) onListContinuationElement1581() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1560() (interface{}, error) {
+func (p *parser) callonListContinuationElement1581() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1560()
+	return p.cur.onListContinuationElement1581()
 }
 
-func (c *current) onListContinuationElement1575() (interface{}, error) {
+func (c *current) onListContinuationElement1596() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1575() (interface{}, error) {
+func (p *parser) callonListContinuationElement1596() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1575()
+	return p.cur.onListContinuationElement1596()
 }
 
-func (c *current) onListContinuationElement1578() (interface{}, error) {
+func (c *current) onListContinuationElement1599() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1578() (interface{}, error) {
+func (p *parser) callonListContinuationElement1599() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1578()
+	return p.cur.onListContinuationElement1599()
 }
 
-func (c *current) onListContinuationElement1570() (interface{}, error) {
+func (c *current) onListContinuationElement1591() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1570() (interface{}, error) {
+func (p *parser) callonListContinuationElement1591() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1570()
+	return p.cur.onListContinuationElement1591()
 }
 
-func (c *current) onListContinuationElement1589() (interface{}, error) {
+func (c *current) onListContinuationElement1610() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1589() (interface{}, error) {
+func (p *parser) callonListContinuationElement1610() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1589()
+	return p.cur.onListContinuationElement1610()
 }
 
-func (c *current) onListContinuationElement1594() (interface{}, error) {
+func (c *current) onListContinuationElement1615() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1594() (interface{}, error) {
+func (p *parser) callonListContinuationElement1615() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1594()
+	return p.cur.onListContinuationElement1615()
 }
 
-func (c *current) onListContinuationElement1600() (interface{}, error) {
+func (c *current) onListContinuationElement1621() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1600() (interface{}, error) {
+func (p *parser) callonListContinuationElement1621() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1600()
+	return p.cur.onListContinuationElement1621()
 }
 
-func (c *current) onListContinuationElement1614() (interface{}, error) {
+func (c *current) onListContinuationElement1635() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1614() (interface{}, error) {
+func (p *parser) callonListContinuationElement1635() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1614()
+	return p.cur.onListContinuationElement1635()
 }
 
-func (c *current) onListContinuationElement1618() (interface{}, error) {
+func (c *current) onListContinuationElement1639() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1618() (interface{}, error) {
+func (p *parser) callonListContinuationElement1639() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1618()
+	return p.cur.onListContinuationElement1639()
 }
 
-func (c *current) onListContinuationElement1608(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1629(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1608() (interface{}, error) {
+func (p *parser) callonListContinuationElement1629() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1608(stack["content"])
+	return p.cur.onListContinuationElement1629(stack["content"])
 }
 
-func (c *current) onListContinuationElement1550(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1571(content interface{}) (interface{}, error) {
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1550() (interface{}, error) {
+func (p *parser) callonListContinuationElement1571() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1550(stack["content"])
+	return p.cur.onListContinuationElement1571(stack["content"])
 }
 
-func (c *current) onListContinuationElement1479(format, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1500(format, content interface{}) (interface{}, error) {
 	return types.NewMultilineTableCell(content.([]interface{}), format)
 
 }
 
-func (p *parser) callonListContinuationElement1479() (interface{}, error) {
+func (p *parser) callonListContinuationElement1500() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1479(stack["format"], stack["content"])
+	return p.cur.onListContinuationElement1500(stack["format"], stack["content"])
 }
 
-func (c *current) onListContinuationElement1476(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1497(cells interface{}) (interface{}, error) {
 	return cells, nil
 }
 
-func (p *parser) callonListContinuationElement1476() (interface{}, error) {
+func (p *parser) callonListContinuationElement1497() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1476(stack["cells"])
+	return p.cur.onListContinuationElement1497(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1449(cells interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1470(cells interface{}) (interface{}, error) {
 	return types.NewTableRow(cells.([]interface{}))
 
 }
 
-func (p *parser) callonListContinuationElement1449() (interface{}, error) {
+func (p *parser) callonListContinuationElement1470() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1449(stack["cells"])
+	return p.cur.onListContinuationElement1470(stack["cells"])
 }
 
-func (c *current) onListContinuationElement1630() (interface{}, error) {
+func (c *current) onListContinuationElement1651() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1630() (interface{}, error) {
+func (p *parser) callonListContinuationElement1651() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1630()
+	return p.cur.onListContinuationElement1651()
 }
 
-func (c *current) onListContinuationElement1633() (interface{}, error) {
+func (c *current) onListContinuationElement1654() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1633() (interface{}, error) {
+func (p *parser) callonListContinuationElement1654() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1633()
+	return p.cur.onListContinuationElement1654()
 }
 
-func (c *current) onListContinuationElement1625() (interface{}, error) {
+func (c *current) onListContinuationElement1646() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1625() (interface{}, error) {
+func (p *parser) callonListContinuationElement1646() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1625()
+	return p.cur.onListContinuationElement1646()
 }
 
-func (c *current) onListContinuationElement1428(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1449(content interface{}) (interface{}, error) {
 	return content, nil
 
 }
 
-func (p *parser) callonListContinuationElement1428() (interface{}, error) {
+func (p *parser) callonListContinuationElement1449() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1449(stack["content"])
+}
+
+func (c *current) onListContinuationElement1668() (interface{}, error) {
+
+	return string(c.text), nil
+
+}
+
+func (p *parser) callonListContinuationElement1668() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1668()
+}
+
+func (c *current) onListContinuationElement1672() (interface{}, error) {
+	// TODO: just use "\n"
+	return string(c.text), nil
+}
+
+func (p *parser) callonListContinuationElement1672() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1672()
+}
+
+func (c *current) onListContinuationElement1662(content interface{}) (interface{}, error) {
+	return types.NewSinglelineComment(content.(string))
+
+}
+
+func (p *parser) callonListContinuationElement1662() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onListContinuationElement1662(stack["content"])
+}
+
+func (c *current) onListContinuationElement1430(line interface{}) (interface{}, error) {
+	return line, nil
+
+}
+
+func (p *parser) callonListContinuationElement1430() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1428(stack["content"])
+	return p.cur.onListContinuationElement1430(stack["line"])
 }
 
-func (c *current) onListContinuationElement1644() (interface{}, error) {
+func (c *current) onListContinuationElement1683() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1644() (interface{}, error) {
+func (p *parser) callonListContinuationElement1683() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1644()
+	return p.cur.onListContinuationElement1683()
 }
 
-func (c *current) onListContinuationElement1647() (interface{}, error) {
+func (c *current) onListContinuationElement1686() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1647() (interface{}, error) {
+func (p *parser) callonListContinuationElement1686() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1647()
+	return p.cur.onListContinuationElement1686()
 }
 
 func (c *current) onListContinuationElement1396(lines interface{}) (interface{}, error) {
@@ -68305,237 +68821,237 @@ func (p *parser) callonListContinuationElement1396() (interface{}, error) {
 	return p.cur.onListContinuationElement1396(stack["lines"])
 }
 
-func (c *current) onListContinuationElement1662() (interface{}, error) {
+func (c *current) onListContinuationElement1701() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1662() (interface{}, error) {
+func (p *parser) callonListContinuationElement1701() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1662()
+	return p.cur.onListContinuationElement1701()
 }
 
-func (c *current) onListContinuationElement1666() (interface{}, error) {
+func (c *current) onListContinuationElement1705() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1666() (interface{}, error) {
+func (p *parser) callonListContinuationElement1705() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1666()
+	return p.cur.onListContinuationElement1705()
 }
 
-func (c *current) onListContinuationElement1656(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1695(content interface{}) (interface{}, error) {
 	return types.NewSinglelineComment(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1656() (interface{}, error) {
+func (p *parser) callonListContinuationElement1695() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1656(stack["content"])
+	return p.cur.onListContinuationElement1695(stack["content"])
 }
 
-func (c *current) onListContinuationElement1679() (bool, error) {
+func (c *current) onListContinuationElement1718() (bool, error) {
 	return !c.isWithinLiteralParagraph(), nil
 
 }
 
-func (p *parser) callonListContinuationElement1679() (bool, error) {
+func (p *parser) callonListContinuationElement1718() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1679()
+	return p.cur.onListContinuationElement1718()
 }
 
-func (c *current) onListContinuationElement1682() (interface{}, error) {
+func (c *current) onListContinuationElement1721() (interface{}, error) {
 	return types.Tip, nil
 
 }
 
-func (p *parser) callonListContinuationElement1682() (interface{}, error) {
+func (p *parser) callonListContinuationElement1721() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1682()
+	return p.cur.onListContinuationElement1721()
 }
 
-func (c *current) onListContinuationElement1684() (interface{}, error) {
+func (c *current) onListContinuationElement1723() (interface{}, error) {
 	return types.Note, nil
 
 }
 
-func (p *parser) callonListContinuationElement1684() (interface{}, error) {
+func (p *parser) callonListContinuationElement1723() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1684()
+	return p.cur.onListContinuationElement1723()
 }
 
-func (c *current) onListContinuationElement1686() (interface{}, error) {
+func (c *current) onListContinuationElement1725() (interface{}, error) {
 	return types.Important, nil
 
 }
 
-func (p *parser) callonListContinuationElement1686() (interface{}, error) {
+func (p *parser) callonListContinuationElement1725() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1686()
+	return p.cur.onListContinuationElement1725()
 }
 
-func (c *current) onListContinuationElement1688() (interface{}, error) {
+func (c *current) onListContinuationElement1727() (interface{}, error) {
 	return types.Warning, nil
 
 }
 
-func (p *parser) callonListContinuationElement1688() (interface{}, error) {
+func (p *parser) callonListContinuationElement1727() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1688()
+	return p.cur.onListContinuationElement1727()
 }
 
-func (c *current) onListContinuationElement1690() (interface{}, error) {
+func (c *current) onListContinuationElement1729() (interface{}, error) {
 	return types.Caution, nil
 
 }
 
-func (p *parser) callonListContinuationElement1690() (interface{}, error) {
+func (p *parser) callonListContinuationElement1729() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1690()
+	return p.cur.onListContinuationElement1729()
 }
 
-func (c *current) onListContinuationElement1694() (interface{}, error) {
+func (c *current) onListContinuationElement1733() (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1694() (interface{}, error) {
+func (p *parser) callonListContinuationElement1733() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1694()
+	return p.cur.onListContinuationElement1733()
 }
 
-func (c *current) onListContinuationElement1692() (interface{}, error) {
+func (c *current) onListContinuationElement1731() (interface{}, error) {
 	// check
 	return types.LiteralParagraph, nil
 
 }
 
-func (p *parser) callonListContinuationElement1692() (interface{}, error) {
+func (p *parser) callonListContinuationElement1731() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1692()
+	return p.cur.onListContinuationElement1731()
 }
 
-func (c *current) onListContinuationElement1677(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1716(style interface{}) (interface{}, error) {
 	return style, nil
 
 }
 
-func (p *parser) callonListContinuationElement1677() (interface{}, error) {
+func (p *parser) callonListContinuationElement1716() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1677(stack["style"])
+	return p.cur.onListContinuationElement1716(stack["style"])
 }
 
-func (c *current) onListContinuationElement1706() (interface{}, error) {
+func (c *current) onListContinuationElement1745() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1706() (interface{}, error) {
+func (p *parser) callonListContinuationElement1745() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1706()
+	return p.cur.onListContinuationElement1745()
 }
 
-func (c *current) onListContinuationElement1709() (interface{}, error) {
+func (c *current) onListContinuationElement1748() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1709() (interface{}, error) {
+func (p *parser) callonListContinuationElement1748() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1709()
+	return p.cur.onListContinuationElement1748()
 }
 
-func (c *current) onListContinuationElement1701() (interface{}, error) {
+func (c *current) onListContinuationElement1740() (interface{}, error) {
 	return types.NewBlankLine()
 
 }
 
-func (p *parser) callonListContinuationElement1701() (interface{}, error) {
+func (p *parser) callonListContinuationElement1740() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1701()
+	return p.cur.onListContinuationElement1740()
 }
 
-func (c *current) onListContinuationElement1720() (interface{}, error) {
+func (c *current) onListContinuationElement1759() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1720() (interface{}, error) {
+func (p *parser) callonListContinuationElement1759() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1720()
+	return p.cur.onListContinuationElement1759()
 }
 
-func (c *current) onListContinuationElement1722() (interface{}, error) {
+func (c *current) onListContinuationElement1761() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1722() (interface{}, error) {
+func (p *parser) callonListContinuationElement1761() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1722()
+	return p.cur.onListContinuationElement1761()
 }
 
-func (c *current) onListContinuationElement1731() (interface{}, error) {
+func (c *current) onListContinuationElement1770() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1731() (interface{}, error) {
+func (p *parser) callonListContinuationElement1770() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1731()
+	return p.cur.onListContinuationElement1770()
 }
 
-func (c *current) onListContinuationElement1738() (interface{}, error) {
+func (c *current) onListContinuationElement1777() (interface{}, error) {
 
 	// `.` is 1, etc.
 	return (len(c.text)), nil
 
 }
 
-func (p *parser) callonListContinuationElement1738() (interface{}, error) {
+func (p *parser) callonListContinuationElement1777() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1738()
+	return p.cur.onListContinuationElement1777()
 }
 
-func (c *current) onListContinuationElement1741(depth interface{}) (bool, error) {
+func (c *current) onListContinuationElement1780(depth interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `.` to `.....` are allowed
 	return depth.(int) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1741() (bool, error) {
+func (p *parser) callonListContinuationElement1780() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1741(stack["depth"])
+	return p.cur.onListContinuationElement1780(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1735(depth interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1774(depth interface{}) (interface{}, error) {
 	switch depth.(int) {
 	case 1:
 		return types.NewOrderedListElementPrefix(types.Arabic)
@@ -68551,756 +69067,756 @@ func (c *current) onListContinuationElement1735(depth interface{}) (interface{},
 
 }
 
-func (p *parser) callonListContinuationElement1735() (interface{}, error) {
+func (p *parser) callonListContinuationElement1774() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1735(stack["depth"])
+	return p.cur.onListContinuationElement1774(stack["depth"])
 }
 
-func (c *current) onListContinuationElement1742() (interface{}, error) {
+func (c *current) onListContinuationElement1781() (interface{}, error) {
 	// numbering style: "1.", etc.
 	return types.NewOrderedListElementPrefix(types.Arabic)
 
 }
 
-func (p *parser) callonListContinuationElement1742() (interface{}, error) {
+func (p *parser) callonListContinuationElement1781() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1742()
+	return p.cur.onListContinuationElement1781()
 }
 
-func (c *current) onListContinuationElement1747() (interface{}, error) {
+func (c *current) onListContinuationElement1786() (interface{}, error) {
 	// numbering style: "a.", etc.
 	return types.NewOrderedListElementPrefix(types.LowerAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1747() (interface{}, error) {
+func (p *parser) callonListContinuationElement1786() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1747()
+	return p.cur.onListContinuationElement1786()
 }
 
-func (c *current) onListContinuationElement1751() (interface{}, error) {
+func (c *current) onListContinuationElement1790() (interface{}, error) {
 	// numbering style: "A.", etc.
 	return types.NewOrderedListElementPrefix(types.UpperAlpha)
 
 }
 
-func (p *parser) callonListContinuationElement1751() (interface{}, error) {
+func (p *parser) callonListContinuationElement1790() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1751()
+	return p.cur.onListContinuationElement1790()
 }
 
-func (c *current) onListContinuationElement1755() (interface{}, error) {
+func (c *current) onListContinuationElement1794() (interface{}, error) {
 	// numbering style: "i)", etc.
 	return types.NewOrderedListElementPrefix(types.LowerRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1755() (interface{}, error) {
+func (p *parser) callonListContinuationElement1794() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1755()
+	return p.cur.onListContinuationElement1794()
 }
 
-func (c *current) onListContinuationElement1760() (interface{}, error) {
+func (c *current) onListContinuationElement1799() (interface{}, error) {
 	// numbering style: "I)", etc.
 	return types.NewOrderedListElementPrefix(types.UpperRoman)
 
 }
 
-func (p *parser) callonListContinuationElement1760() (interface{}, error) {
+func (p *parser) callonListContinuationElement1799() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1760()
+	return p.cur.onListContinuationElement1799()
 }
 
-func (c *current) onListContinuationElement1765(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1804(prefix interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1765() (interface{}, error) {
+func (p *parser) callonListContinuationElement1804() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1765(stack["prefix"])
+	return p.cur.onListContinuationElement1804(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1728(prefix interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1767(prefix interface{}) (interface{}, error) {
 	return prefix, nil
 }
 
-func (p *parser) callonListContinuationElement1728() (interface{}, error) {
+func (p *parser) callonListContinuationElement1767() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1728(stack["prefix"])
+	return p.cur.onListContinuationElement1767(stack["prefix"])
 }
 
-func (c *current) onListContinuationElement1772() (interface{}, error) {
+func (c *current) onListContinuationElement1811() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1772() (interface{}, error) {
+func (p *parser) callonListContinuationElement1811() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1772()
+	return p.cur.onListContinuationElement1811()
 }
 
-func (c *current) onListContinuationElement1775() (interface{}, error) {
+func (c *current) onListContinuationElement1814() (interface{}, error) {
 	// `-` or `*` to `*****`
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1775() (interface{}, error) {
+func (p *parser) callonListContinuationElement1814() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1775()
+	return p.cur.onListContinuationElement1814()
 }
 
-func (c *current) onListContinuationElement1780(style interface{}) (bool, error) {
+func (c *current) onListContinuationElement1819(style interface{}) (bool, error) {
 
 	// use a predicate to make sure that only `*` to `*****` are allowed
 	return len(style.(string)) <= 5, nil
 
 }
 
-func (p *parser) callonListContinuationElement1780() (bool, error) {
+func (p *parser) callonListContinuationElement1819() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1780(stack["style"])
+	return p.cur.onListContinuationElement1819(stack["style"])
 }
 
-func (c *current) onListContinuationElement1781(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1820(style interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1781() (interface{}, error) {
+func (p *parser) callonListContinuationElement1820() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1781(stack["style"])
+	return p.cur.onListContinuationElement1820(stack["style"])
 }
 
-func (c *current) onListContinuationElement1769(style interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1808(style interface{}) (interface{}, error) {
 	return types.NewUnorderedListElementPrefix(style.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1769() (interface{}, error) {
+func (p *parser) callonListContinuationElement1808() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1769(stack["style"])
+	return p.cur.onListContinuationElement1808(stack["style"])
 }
 
-func (c *current) onListContinuationElement1789() (interface{}, error) {
+func (c *current) onListContinuationElement1828() (interface{}, error) {
 	return strconv.Atoi(string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1789() (interface{}, error) {
+func (p *parser) callonListContinuationElement1828() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1789()
+	return p.cur.onListContinuationElement1828()
 }
 
-func (c *current) onListContinuationElement1793(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1832(ref interface{}) (interface{}, error) {
 	// log.Debug("matched multiple spaces")
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1793() (interface{}, error) {
+func (p *parser) callonListContinuationElement1832() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1793(stack["ref"])
+	return p.cur.onListContinuationElement1832(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1785(ref interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1824(ref interface{}) (interface{}, error) {
 	return ref, nil
 
 }
 
-func (p *parser) callonListContinuationElement1785() (interface{}, error) {
+func (p *parser) callonListContinuationElement1824() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1785(stack["ref"])
+	return p.cur.onListContinuationElement1824(stack["ref"])
 }
 
-func (c *current) onListContinuationElement1811() (interface{}, error) {
+func (c *current) onListContinuationElement1850() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1811() (interface{}, error) {
+func (p *parser) callonListContinuationElement1850() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1811()
+	return p.cur.onListContinuationElement1850()
 }
 
-func (c *current) onListContinuationElement1814(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1853(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1814() (bool, error) {
+func (p *parser) callonListContinuationElement1853() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1814(stack["separator"])
+	return p.cur.onListContinuationElement1853(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1808(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1847(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1808() (interface{}, error) {
+func (p *parser) callonListContinuationElement1847() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1808(stack["separator"])
+	return p.cur.onListContinuationElement1847(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1817() (interface{}, error) {
+func (c *current) onListContinuationElement1856() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1817() (interface{}, error) {
+func (p *parser) callonListContinuationElement1856() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1817()
+	return p.cur.onListContinuationElement1856()
 }
 
-func (c *current) onListContinuationElement1798() (interface{}, error) {
+func (c *current) onListContinuationElement1837() (interface{}, error) {
 	return types.NewRawLine(strings.TrimSpace(string(c.text)))
 
 }
 
-func (p *parser) callonListContinuationElement1798() (interface{}, error) {
+func (p *parser) callonListContinuationElement1837() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1798()
+	return p.cur.onListContinuationElement1837()
 }
 
-func (c *current) onListContinuationElement1828() (interface{}, error) {
+func (c *current) onListContinuationElement1867() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1828() (interface{}, error) {
+func (p *parser) callonListContinuationElement1867() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1828()
+	return p.cur.onListContinuationElement1867()
 }
 
-func (c *current) onListContinuationElement1831(separator interface{}) (bool, error) {
+func (c *current) onListContinuationElement1870(separator interface{}) (bool, error) {
 
 	// use a predicate to make sure that separator is `::`, `:::` or `::::`
 	return len(separator.(string)) >= 2 && len(separator.(string)) <= 4, nil
 
 }
 
-func (p *parser) callonListContinuationElement1831() (bool, error) {
+func (p *parser) callonListContinuationElement1870() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1831(stack["separator"])
+	return p.cur.onListContinuationElement1870(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1825(separator interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1864(separator interface{}) (interface{}, error) {
 	return separator, nil
 
 }
 
-func (p *parser) callonListContinuationElement1825() (interface{}, error) {
+func (p *parser) callonListContinuationElement1864() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1825(stack["separator"])
+	return p.cur.onListContinuationElement1864(stack["separator"])
 }
 
-func (c *current) onListContinuationElement1842() (interface{}, error) {
+func (c *current) onListContinuationElement1881() (interface{}, error) {
 	// sequence of 4 "/" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1842() (interface{}, error) {
+func (p *parser) callonListContinuationElement1881() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1842()
+	return p.cur.onListContinuationElement1881()
 }
 
-func (c *current) onListContinuationElement1848() (interface{}, error) {
+func (c *current) onListContinuationElement1887() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1848() (interface{}, error) {
+func (p *parser) callonListContinuationElement1887() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1848()
+	return p.cur.onListContinuationElement1887()
 }
 
-func (c *current) onListContinuationElement1851() (interface{}, error) {
+func (c *current) onListContinuationElement1890() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1851() (interface{}, error) {
+func (p *parser) callonListContinuationElement1890() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1851()
+	return p.cur.onListContinuationElement1890()
 }
 
-func (c *current) onListContinuationElement1839(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1878(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Comment, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1839() (interface{}, error) {
+func (p *parser) callonListContinuationElement1878() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1839(stack["delimiter"])
+	return p.cur.onListContinuationElement1878(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1861() (interface{}, error) {
+func (c *current) onListContinuationElement1900() (interface{}, error) {
 	// sequence of 4 "=" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1861() (interface{}, error) {
+func (p *parser) callonListContinuationElement1900() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1861()
+	return p.cur.onListContinuationElement1900()
 }
 
-func (c *current) onListContinuationElement1867() (interface{}, error) {
+func (c *current) onListContinuationElement1906() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1867() (interface{}, error) {
+func (p *parser) callonListContinuationElement1906() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1867()
+	return p.cur.onListContinuationElement1906()
 }
 
-func (c *current) onListContinuationElement1870() (interface{}, error) {
+func (c *current) onListContinuationElement1909() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1870() (interface{}, error) {
+func (p *parser) callonListContinuationElement1909() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1870()
+	return p.cur.onListContinuationElement1909()
 }
 
-func (c *current) onListContinuationElement1858(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1897(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Example, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1858() (interface{}, error) {
+func (p *parser) callonListContinuationElement1897() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1858(stack["delimiter"])
+	return p.cur.onListContinuationElement1897(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1881() (interface{}, error) {
+func (c *current) onListContinuationElement1920() (interface{}, error) {
 	// exclude ` to avoid matching fenced blocks with more than 3 "`" delimter chars
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1881() (interface{}, error) {
+func (p *parser) callonListContinuationElement1920() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1881()
+	return p.cur.onListContinuationElement1920()
 }
 
-func (c *current) onListContinuationElement1885() (interface{}, error) {
+func (c *current) onListContinuationElement1924() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1885() (interface{}, error) {
+func (p *parser) callonListContinuationElement1924() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1885()
+	return p.cur.onListContinuationElement1924()
 }
 
-func (c *current) onListContinuationElement1888() (interface{}, error) {
+func (c *current) onListContinuationElement1927() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1888() (interface{}, error) {
+func (p *parser) callonListContinuationElement1927() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1888()
+	return p.cur.onListContinuationElement1927()
 }
 
-func (c *current) onListContinuationElement1877(language interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1916(language interface{}) (interface{}, error) {
 	return types.NewMarkdownCodeBlockDelimiter(language.(string), string(c.text))
 }
 
-func (p *parser) callonListContinuationElement1877() (interface{}, error) {
+func (p *parser) callonListContinuationElement1916() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1877(stack["language"])
+	return p.cur.onListContinuationElement1916(stack["language"])
 }
 
-func (c *current) onListContinuationElement1898() (interface{}, error) {
+func (c *current) onListContinuationElement1937() (interface{}, error) {
 	// sequence of 3 "`" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1898() (interface{}, error) {
+func (p *parser) callonListContinuationElement1937() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1898()
+	return p.cur.onListContinuationElement1937()
 }
 
-func (c *current) onListContinuationElement1904() (interface{}, error) {
+func (c *current) onListContinuationElement1943() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1904() (interface{}, error) {
+func (p *parser) callonListContinuationElement1943() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1904()
+	return p.cur.onListContinuationElement1943()
 }
 
-func (c *current) onListContinuationElement1907() (interface{}, error) {
+func (c *current) onListContinuationElement1946() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1907() (interface{}, error) {
+func (p *parser) callonListContinuationElement1946() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1907()
+	return p.cur.onListContinuationElement1946()
 }
 
-func (c *current) onListContinuationElement1895(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1934(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Fenced, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1895() (interface{}, error) {
+func (p *parser) callonListContinuationElement1934() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1895(stack["delimiter"])
+	return p.cur.onListContinuationElement1934(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1917() (interface{}, error) {
+func (c *current) onListContinuationElement1956() (interface{}, error) {
 	// sequence of 4 "-" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1917() (interface{}, error) {
+func (p *parser) callonListContinuationElement1956() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1917()
+	return p.cur.onListContinuationElement1956()
 }
 
-func (c *current) onListContinuationElement1923() (interface{}, error) {
+func (c *current) onListContinuationElement1962() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1923() (interface{}, error) {
+func (p *parser) callonListContinuationElement1962() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1923()
+	return p.cur.onListContinuationElement1962()
 }
 
-func (c *current) onListContinuationElement1926() (interface{}, error) {
+func (c *current) onListContinuationElement1965() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1926() (interface{}, error) {
+func (p *parser) callonListContinuationElement1965() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1926()
+	return p.cur.onListContinuationElement1965()
 }
 
-func (c *current) onListContinuationElement1914(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1953(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1914() (interface{}, error) {
+func (p *parser) callonListContinuationElement1953() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1914(stack["delimiter"])
+	return p.cur.onListContinuationElement1953(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1936() (interface{}, error) {
+func (c *current) onListContinuationElement1975() (interface{}, error) {
 	// sequence of 4 "." chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1936() (interface{}, error) {
+func (p *parser) callonListContinuationElement1975() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1936()
+	return p.cur.onListContinuationElement1975()
 }
 
-func (c *current) onListContinuationElement1942() (interface{}, error) {
+func (c *current) onListContinuationElement1981() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1942() (interface{}, error) {
+func (p *parser) callonListContinuationElement1981() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1942()
+	return p.cur.onListContinuationElement1981()
 }
 
-func (c *current) onListContinuationElement1945() (interface{}, error) {
+func (c *current) onListContinuationElement1984() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1945() (interface{}, error) {
+func (p *parser) callonListContinuationElement1984() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1945()
+	return p.cur.onListContinuationElement1984()
 }
 
-func (c *current) onListContinuationElement1933(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1972(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Listing, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1933() (interface{}, error) {
+func (p *parser) callonListContinuationElement1972() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1933(stack["delimiter"])
+	return p.cur.onListContinuationElement1972(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1955() (interface{}, error) {
+func (c *current) onListContinuationElement1994() (interface{}, error) {
 	// sequence of 4 "+" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1955() (interface{}, error) {
+func (p *parser) callonListContinuationElement1994() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1955()
+	return p.cur.onListContinuationElement1994()
 }
 
-func (c *current) onListContinuationElement1961() (interface{}, error) {
+func (c *current) onListContinuationElement2000() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1961() (interface{}, error) {
+func (p *parser) callonListContinuationElement2000() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1961()
+	return p.cur.onListContinuationElement2000()
 }
 
-func (c *current) onListContinuationElement1964() (interface{}, error) {
+func (c *current) onListContinuationElement2003() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1964() (interface{}, error) {
+func (p *parser) callonListContinuationElement2003() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1964()
+	return p.cur.onListContinuationElement2003()
 }
 
-func (c *current) onListContinuationElement1952(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1991(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Passthrough, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1952() (interface{}, error) {
+func (p *parser) callonListContinuationElement1991() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1952(stack["delimiter"])
+	return p.cur.onListContinuationElement1991(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1974() (interface{}, error) {
+func (c *current) onListContinuationElement2013() (interface{}, error) {
 	// sequence of 4 "_" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1974() (interface{}, error) {
+func (p *parser) callonListContinuationElement2013() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1974()
+	return p.cur.onListContinuationElement2013()
 }
 
-func (c *current) onListContinuationElement1980() (interface{}, error) {
+func (c *current) onListContinuationElement2019() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1980() (interface{}, error) {
+func (p *parser) callonListContinuationElement2019() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1980()
+	return p.cur.onListContinuationElement2019()
 }
 
-func (c *current) onListContinuationElement1983() (interface{}, error) {
+func (c *current) onListContinuationElement2022() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement1983() (interface{}, error) {
+func (p *parser) callonListContinuationElement2022() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1983()
+	return p.cur.onListContinuationElement2022()
 }
 
-func (c *current) onListContinuationElement1971(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement2010(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Quote, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1971() (interface{}, error) {
+func (p *parser) callonListContinuationElement2010() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1971(stack["delimiter"])
+	return p.cur.onListContinuationElement2010(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1993() (interface{}, error) {
+func (c *current) onListContinuationElement2032() (interface{}, error) {
 	// sequence of 4 "*" chars or more
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1993() (interface{}, error) {
+func (p *parser) callonListContinuationElement2032() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1993()
+	return p.cur.onListContinuationElement2032()
 }
 
-func (c *current) onListContinuationElement1999() (interface{}, error) {
+func (c *current) onListContinuationElement2038() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement1999() (interface{}, error) {
+func (p *parser) callonListContinuationElement2038() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1999()
+	return p.cur.onListContinuationElement2038()
 }
 
-func (c *current) onListContinuationElement2002() (interface{}, error) {
+func (c *current) onListContinuationElement2041() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement2002() (interface{}, error) {
+func (p *parser) callonListContinuationElement2041() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement2002()
+	return p.cur.onListContinuationElement2041()
 }
 
-func (c *current) onListContinuationElement1990(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement2029(delimiter interface{}) (interface{}, error) {
 
 	return types.NewBlockDelimiter(types.Sidebar, len(delimiter.(string)), string(c.text))
 
 }
 
-func (p *parser) callonListContinuationElement1990() (interface{}, error) {
+func (p *parser) callonListContinuationElement2029() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1990(stack["delimiter"])
+	return p.cur.onListContinuationElement2029(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement1833(delimiter interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1872(delimiter interface{}) (interface{}, error) {
 	return delimiter, nil
 
 }
 
-func (p *parser) callonListContinuationElement1833() (interface{}, error) {
+func (p *parser) callonListContinuationElement1872() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1833(stack["delimiter"])
+	return p.cur.onListContinuationElement1872(stack["delimiter"])
 }
 
-func (c *current) onListContinuationElement2010() (interface{}, error) {
+func (c *current) onListContinuationElement2049() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonListContinuationElement2010() (interface{}, error) {
+func (p *parser) callonListContinuationElement2049() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement2010()
+	return p.cur.onListContinuationElement2049()
 }
 
-func (c *current) onListContinuationElement2014() (interface{}, error) {
+func (c *current) onListContinuationElement2053() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonListContinuationElement2014() (interface{}, error) {
+func (p *parser) callonListContinuationElement2053() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement2014()
+	return p.cur.onListContinuationElement2053()
 }
 
-func (c *current) onListContinuationElement1698(content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1737(content interface{}) (interface{}, error) {
 	// do not retain the EOL chars
 	return types.NewRawLine(content.(string))
 
 }
 
-func (p *parser) callonListContinuationElement1698() (interface{}, error) {
+func (p *parser) callonListContinuationElement1737() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1698(stack["content"])
+	return p.cur.onListContinuationElement1737(stack["content"])
 }
 
-func (c *current) onListContinuationElement1673(style, content interface{}) (interface{}, error) {
+func (c *current) onListContinuationElement1712(style, content interface{}) (interface{}, error) {
 	return types.NewParagraph(style, content)
 
 }
 
-func (p *parser) callonListContinuationElement1673() (interface{}, error) {
+func (p *parser) callonListContinuationElement1712() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onListContinuationElement1673(stack["style"], stack["content"])
+	return p.cur.onListContinuationElement1712(stack["style"], stack["content"])
 }
 
 func (c *current) onListContinuationElement1(attributes, element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index b369ecb..09e5b0b 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -2617,7 +2617,13 @@ DoubleLeftArrow <- "<=" {
 // -------------------------------------------------------------------------------------
 Table <- 
     TableStartDelimiter
-    lines:(BlankLine / TableLine)*
+    SinglelineComment*
+    lines:(
+        line:(BlankLine / TableLine)
+        SinglelineComment* {
+            return line, nil
+        }
+    )*
     TableEndDelimiter {
         return types.NewTable(lines.([]interface{}))
     }
-- 
2.43.0


From c4f5680f5f1b0e5257380c785b80c7bf317fd5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:47 +0000
Subject: [PATCH 062/108] fix: do not change attributes in place when
 placeholders are restored

the attributes may be shared by several elements
---
 .../document_processing_apply_substitutions.go     | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 26c0790..52a8afb 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -861,7 +861,7 @@ func (p *placeholders) restore(elements []interface{}) ([]interface{}, error) {
 			if err := e.SetElements(elmts); err != nil {
 				return nil, err
 			}
-			if err := p.restoreInAttributes(e.GetAttributes()); err != nil {
+			if err := p.restoreInAttributes(e); err != nil {
 				return nil, err
 			}
 		case *types.InlinePassthrough:
@@ -884,7 +884,7 @@ func (p *placeholders) restore(elements []interface{}) ([]interface{}, error) {
 				e.Label = types.Reduce(p.split(label))
 			}
 		case types.WithLocation:
-			if err := p.restoreInAttributes(e.GetAttributes()); err != nil {
+			if err := p.restoreInAttributes(e); err != nil {
 				return nil, err
 			}
 			if err := p.restoreInLocation(e.GetLocation()); err != nil {
@@ -895,14 +895,20 @@ func (p *placeholders) restore(elements []interface{}) ([]interface{}, error) {
 	return elements, nil
 }
 
-func (p *placeholders) restoreInAttributes(attributes types.Attributes) error {
+func (p *placeholders) restoreInAttributes(element types.WithAttributes) error {
+	attributes := element.GetAttributes()
+	if len(attributes) == 0 {
+		return nil
+	}
+	restored := make(types.Attributes, len(attributes))
 	for name, value := range attributes {
 		v, err := p.restoreInValue(value)
 		if err != nil {
 			return err
 		}
-		attributes[name] = v
+		restored[name] = v
 	}
+	element.SetAttributes(restored)
 	return nil
 }
 
-- 
2.43.0


From f9a8fdbe63b358936afb340b40f93f34aa22e79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:40 +0000
Subject: [PATCH 063/108] fix: restore the text of the elements which were
 replaced in texts

the text of quoted text was dropped
---
 ...document_processing_apply_substitutions.go | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 52a8afb..7c635f4 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -937,10 +937,28 @@ func (p *placeholders) restoreInValue(value interface{}) (interface{}, error) {
 
 // replace the placeholders with the text of their original element
 func (p *placeholders) restoreInText(text string) string {
+	return textOf(p.split(text))
+}
+
+// the text of the elements, without their markup
+func textOf(elements []interface{}) string {
 	result := &strings.Builder{}
-	for _, element := range p.split(text) {
-		if text, err := serializePlainText([]interface{}{element}); err == nil {
-			result.WriteString(text)
+	for _, element := range elements {
+		switch element := element.(type) {
+		case []interface{}:
+			result.WriteString(textOf(element))
+		case string:
+			result.WriteString(element)
+		case *types.RawLine:
+			result.WriteString(element.Content)
+		case *types.StringElement:
+			result.WriteString(element.Content)
+		case *types.SpecialCharacter:
+			result.WriteString(element.Name)
+		case *types.InlinePassthrough:
+			result.WriteString(textOf(element.Elements))
+		case types.WithElements:
+			result.WriteString(textOf(element.GetElements()))
 		}
 	}
 	return result.String()
-- 
2.43.0


From 56a6b6f1d70f19d01827dc13b37da59b00be2bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:45 +0000
Subject: [PATCH 064/108] fix: define footnotes with the same name once

A footnote whose name was already used was listed again, and its reference got
the same id as the first one. Also, footnotes without a name nor a content were
rendered as references to the first footnote without a name.
---
 pkg/types/types.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 62fece1..6b347ba 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2236,6 +2236,9 @@ func NewFootnotes() *Footnotes {
 
 // IndexOf returns the index of the given note in the footnotes.
 func (f *Footnotes) indexOf(actual *Footnote) (int, bool) {
+	if actual.Ref == "" {
+		return -1, false
+	}
 	for _, note := range f.Notes {
 		if note.Ref == actual.Ref {
 			return note.ID, true
@@ -2255,14 +2258,14 @@ func (f *Footnotes) Reference(note *Footnote) *FootnoteReference {
 		log.Debug("referencing footnote")
 	}
 	r := &FootnoteReference{}
-	if len(note.Elements) > 0 {
+	if id, found := f.indexOf(note); found {
+		r.ID = id
+		r.Duplicate = true
+	} else if len(note.Elements) > 0 {
 		note.ID = f.sequence.nextVal()
 		f.Notes = append(f.Notes, note)
 		r.ID = note.ID
 		substituteFootnotes(note.Elements, f) // footnotes in this footnote
-	} else if id, found := f.indexOf(note); found {
-		r.ID = id
-		r.Duplicate = true
 	} else {
 		r.ID = InvalidFootnoteReference
 		log.Warnf("no footnote with reference '%s'", note.Ref)
-- 
2.43.0


From 22c5c9aed3105343efdc783a7d01752857d33536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:19 +0000
Subject: [PATCH 065/108] fix: support footnotes in passthroughs and index
 terms

A footnote in the quoted text of a passthrough or of an index term was not
replaced by a reference, and the document could not be rendered.
---
 pkg/types/types.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 6b347ba..72cccaa 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2939,6 +2939,14 @@ type InlinePassthrough struct {
 	Elements []interface{} // TODO: refactor to `Content string` ?
 }
 
+var _ WithFootnotes = &InlinePassthrough{}
+
+// SubstituteFootnotes replaces the footnotes in the passthrough
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (p *InlinePassthrough) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotes(p.Elements, notes)
+}
+
 // PassthroughKind the kind of passthrough
 type PassthroughKind string
 
@@ -3747,6 +3755,14 @@ type IndexTerm struct {
 	Term []interface{}
 }
 
+var _ WithFootnotes = &IndexTerm{}
+
+// SubstituteFootnotes replaces the footnotes in the term
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (t *IndexTerm) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotes(t.Term, notes)
+}
+
 // NewIndexTerm returns a new IndexTerm
 func NewIndexTerm(term []interface{}) (*IndexTerm, error) {
 	return &IndexTerm{
-- 
2.43.0


From 2daef8843fbf932619a327bfd439b667e778a37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:07 +0000
Subject: [PATCH 066/108] fix: support footnotes in titles of inline images and
 labels of cross references

These footnotes were not replaced by references, and the document could not be
rendered.
---
 pkg/types/types.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index 72cccaa..b507455 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -1942,6 +1942,16 @@ type ExternalCrossReference struct {
 	Attributes Attributes
 }
 
+var _ WithFootnotes = &ExternalCrossReference{}
+
+// SubstituteFootnotes replaces the footnotes in the label of the cross reference
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (x *ExternalCrossReference) SubstituteFootnotes(notes *Footnotes) {
+	if label, ok := x.Attributes[AttrXRefLabel].([]interface{}); ok {
+		substituteFootnotes(label, notes)
+	}
+}
+
 // NewExternalCrossReference initializes a new `InternalCrossReference` from the given ID
 func NewExternalCrossReference(location *Location, attributes interface{}) (*ExternalCrossReference, error) {
 	attrs := toAttributesWithMapping(attributes, map[string]string{
@@ -2091,6 +2101,14 @@ type InlineImage struct {
 	Attributes Attributes
 }
 
+var _ WithFootnotes = &InlineImage{}
+
+// SubstituteFootnotes replaces the footnotes in the title of the image
+// with footnote references. The footnotes are stored in the given 'notes' param
+func (i *InlineImage) SubstituteFootnotes(notes *Footnotes) {
+	substituteFootnotesInTitle(i.Attributes, notes)
+}
+
 // NewInlineImage initializes a new `InlineImage` (similar to ImageBlock, but without attributes)
 func NewInlineImage(location *Location, attributes interface{}) (*InlineImage, error) {
 	attrs := toAttributesWithMapping(attributes, map[string]string{
-- 
2.43.0


From ac76791ea0ce413211ad61233747292044397bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:29 +0000
Subject: [PATCH 067/108] fix: retain escaped apostrophes when replacements are
 disabled

The backslashes were discarded in listing and literal blocks, too.
---
 pkg/parser/parser.go  | 9966 +++++++++++++++++++++--------------------
 pkg/parser/parser.peg |    3 +
 2 files changed, 5016 insertions(+), 4953 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index df61acf..b74cb76 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 367, col: 49, offset: 11183},
 													expr: &actionExpr{
-														pos: position{line: 2889, col: 10, offset: 91398},
+														pos: position{line: 2892, col: 10, offset: 91469},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2889, col: 10, offset: 91398},
+															pos:        position{line: 2892, col: 10, offset: 91469},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2911, col: 8, offset: 91796},
+													pos: position{line: 2914, col: 8, offset: 91867},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2898, col: 12, offset: 91569},
+															pos: position{line: 2901, col: 12, offset: 91640},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2898, col: 13, offset: 91570},
+																pos: position{line: 2901, col: 13, offset: 91641},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 13, offset: 91570},
+																		pos:        position{line: 2901, col: 13, offset: 91641},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 20, offset: 91577},
+																		pos:        position{line: 2901, col: 20, offset: 91648},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 29, offset: 91586},
+																		pos:        position{line: 2901, col: 29, offset: 91657},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2908, col: 8, offset: 91746},
+															pos: position{line: 2911, col: 8, offset: 91817},
 															expr: &anyMatcher{
-																line: 2908, col: 9, offset: 91747,
+																line: 2911, col: 9, offset: 91818,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 369, col: 39, offset: 11304},
 													expr: &actionExpr{
-														pos: position{line: 2889, col: 10, offset: 91398},
+														pos: position{line: 2892, col: 10, offset: 91469},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2889, col: 10, offset: 91398},
+															pos:        position{line: 2892, col: 10, offset: 91469},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2911, col: 8, offset: 91796},
+													pos: position{line: 2914, col: 8, offset: 91867},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2898, col: 12, offset: 91569},
+															pos: position{line: 2901, col: 12, offset: 91640},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2898, col: 13, offset: 91570},
+																pos: position{line: 2901, col: 13, offset: 91641},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 13, offset: 91570},
+																		pos:        position{line: 2901, col: 13, offset: 91641},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 20, offset: 91577},
+																		pos:        position{line: 2901, col: 20, offset: 91648},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 29, offset: 91586},
+																		pos:        position{line: 2901, col: 29, offset: 91657},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2908, col: 8, offset: 91746},
+															pos: position{line: 2911, col: 8, offset: 91817},
 															expr: &anyMatcher{
-																line: 2908, col: 9, offset: 91747,
+																line: 2911, col: 9, offset: 91818,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2889, col: 10, offset: 91398},
+														pos: position{line: 2892, col: 10, offset: 91469},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2889, col: 10, offset: 91398},
+															pos:        position{line: 2892, col: 10, offset: 91469},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2908, col: 8, offset: 91746},
+													pos: position{line: 2911, col: 8, offset: 91817},
 													expr: &anyMatcher{
-														line: 2908, col: 9, offset: 91747,
+														line: 2911, col: 9, offset: 91818,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2889, col: 10, offset: 91398},
+														pos: position{line: 2892, col: 10, offset: 91469},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2889, col: 10, offset: 91398},
+															pos:        position{line: 2892, col: 10, offset: 91469},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2908, col: 8, offset: 91746},
+													pos: position{line: 2911, col: 8, offset: 91817},
 													expr: &anyMatcher{
-														line: 2908, col: 9, offset: 91747,
+														line: 2911, col: 9, offset: 91818,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2881, col: 12, offset: 91225},
+																pos: position{line: 2884, col: 12, offset: 91296},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2881, col: 13, offset: 91226},
+																	pos: position{line: 2884, col: 13, offset: 91297},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2881, col: 13, offset: 91226},
+																			pos: position{line: 2884, col: 13, offset: 91297},
 																			expr: &litMatcher{
-																				pos:        position{line: 2881, col: 13, offset: 91226},
+																				pos:        position{line: 2884, col: 13, offset: 91297},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2881, col: 18, offset: 91231},
+																			pos: position{line: 2884, col: 18, offset: 91302},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 18, offset: 91231},
+																				pos:        position{line: 2884, col: 18, offset: 91302},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2889, col: 10, offset: 91398},
+														pos: position{line: 2892, col: 10, offset: 91469},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2889, col: 10, offset: 91398},
+															pos:        position{line: 2892, col: 10, offset: 91469},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2889, col: 10, offset: 91398},
+														pos: position{line: 2892, col: 10, offset: 91469},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2889, col: 10, offset: 91398},
+															pos:        position{line: 2892, col: 10, offset: 91469},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2881, col: 12, offset: 91225},
+																pos: position{line: 2884, col: 12, offset: 91296},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2881, col: 13, offset: 91226},
+																	pos: position{line: 2884, col: 13, offset: 91297},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2881, col: 13, offset: 91226},
+																			pos: position{line: 2884, col: 13, offset: 91297},
 																			expr: &litMatcher{
-																				pos:        position{line: 2881, col: 13, offset: 91226},
+																				pos:        position{line: 2884, col: 13, offset: 91297},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2881, col: 18, offset: 91231},
+																			pos: position{line: 2884, col: 18, offset: 91302},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 18, offset: 91231},
+																				pos:        position{line: 2884, col: 18, offset: 91302},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2889, col: 10, offset: 91398},
+														pos: position{line: 2892, col: 10, offset: 91469},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2889, col: 10, offset: 91398},
+															pos:        position{line: 2892, col: 10, offset: 91469},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2908, col: 8, offset: 91746},
+													pos: position{line: 2911, col: 8, offset: 91817},
 													expr: &anyMatcher{
-														line: 2908, col: 9, offset: 91747,
+														line: 2911, col: 9, offset: 91818,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2889, col: 10, offset: 91398},
+														pos: position{line: 2892, col: 10, offset: 91469},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2889, col: 10, offset: 91398},
+															pos:        position{line: 2892, col: 10, offset: 91469},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2908, col: 8, offset: 91746},
+													pos: position{line: 2911, col: 8, offset: 91817},
 													expr: &anyMatcher{
-														line: 2908, col: 9, offset: 91747,
+														line: 2911, col: 9, offset: 91818,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 734, col: 5, offset: 23388},
 													expr: &charClassMatcher{
-														pos:        position{line: 2779, col: 13, offset: 88493},
+														pos:        position{line: 2782, col: 13, offset: 88564},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 752, col: 8, offset: 24032},
 																			expr: &actionExpr{
-																				pos: position{line: 2889, col: 10, offset: 91398},
+																				pos: position{line: 2892, col: 10, offset: 91469},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2889, col: 10, offset: 91398},
+																					pos:        position{line: 2892, col: 10, offset: 91469},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2911, col: 8, offset: 91796},
+																			pos: position{line: 2914, col: 8, offset: 91867},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2898, col: 12, offset: 91569},
+																					pos: position{line: 2901, col: 12, offset: 91640},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2898, col: 13, offset: 91570},
+																						pos: position{line: 2901, col: 13, offset: 91641},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 13, offset: 91570},
+																								pos:        position{line: 2901, col: 13, offset: 91641},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 20, offset: 91577},
+																								pos:        position{line: 2901, col: 20, offset: 91648},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 29, offset: 91586},
+																								pos:        position{line: 2901, col: 29, offset: 91657},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 759, col: 8, offset: 24280},
 																			expr: &actionExpr{
-																				pos: position{line: 2889, col: 10, offset: 91398},
+																				pos: position{line: 2892, col: 10, offset: 91469},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2889, col: 10, offset: 91398},
+																					pos:        position{line: 2892, col: 10, offset: 91469},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2911, col: 8, offset: 91796},
+																			pos: position{line: 2914, col: 8, offset: 91867},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2898, col: 12, offset: 91569},
+																					pos: position{line: 2901, col: 12, offset: 91640},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2898, col: 13, offset: 91570},
+																						pos: position{line: 2901, col: 13, offset: 91641},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 13, offset: 91570},
+																								pos:        position{line: 2901, col: 13, offset: 91641},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 20, offset: 91577},
+																								pos:        position{line: 2901, col: 20, offset: 91648},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 29, offset: 91586},
+																								pos:        position{line: 2901, col: 29, offset: 91657},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 770, col: 52, offset: 24692},
 																			expr: &actionExpr{
-																				pos: position{line: 2889, col: 10, offset: 91398},
+																				pos: position{line: 2892, col: 10, offset: 91469},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2889, col: 10, offset: 91398},
+																					pos:        position{line: 2892, col: 10, offset: 91469},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2911, col: 8, offset: 91796},
+																			pos: position{line: 2914, col: 8, offset: 91867},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2898, col: 12, offset: 91569},
+																					pos: position{line: 2901, col: 12, offset: 91640},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2898, col: 13, offset: 91570},
+																						pos: position{line: 2901, col: 13, offset: 91641},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 13, offset: 91570},
+																								pos:        position{line: 2901, col: 13, offset: 91641},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 20, offset: 91577},
+																								pos:        position{line: 2901, col: 20, offset: 91648},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 29, offset: 91586},
+																								pos:        position{line: 2901, col: 29, offset: 91657},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 766, col: 8, offset: 24526},
 																			expr: &actionExpr{
-																				pos: position{line: 2889, col: 10, offset: 91398},
+																				pos: position{line: 2892, col: 10, offset: 91469},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2889, col: 10, offset: 91398},
+																					pos:        position{line: 2892, col: 10, offset: 91469},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2911, col: 8, offset: 91796},
+																			pos: position{line: 2914, col: 8, offset: 91867},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2898, col: 12, offset: 91569},
+																					pos: position{line: 2901, col: 12, offset: 91640},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2898, col: 13, offset: 91570},
+																						pos: position{line: 2901, col: 13, offset: 91641},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 13, offset: 91570},
+																								pos:        position{line: 2901, col: 13, offset: 91641},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 20, offset: 91577},
+																								pos:        position{line: 2901, col: 20, offset: 91648},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 29, offset: 91586},
+																								pos:        position{line: 2901, col: 29, offset: 91657},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 781, col: 8, offset: 25064},
 																			expr: &actionExpr{
-																				pos: position{line: 2889, col: 10, offset: 91398},
+																				pos: position{line: 2892, col: 10, offset: 91469},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2889, col: 10, offset: 91398},
+																					pos:        position{line: 2892, col: 10, offset: 91469},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2911, col: 8, offset: 91796},
+																			pos: position{line: 2914, col: 8, offset: 91867},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2898, col: 12, offset: 91569},
+																					pos: position{line: 2901, col: 12, offset: 91640},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2898, col: 13, offset: 91570},
+																						pos: position{line: 2901, col: 13, offset: 91641},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 13, offset: 91570},
+																								pos:        position{line: 2901, col: 13, offset: 91641},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 20, offset: 91577},
+																								pos:        position{line: 2901, col: 20, offset: 91648},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 29, offset: 91586},
+																								pos:        position{line: 2901, col: 29, offset: 91657},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 795, col: 8, offset: 25540},
 																			expr: &actionExpr{
-																				pos: position{line: 2889, col: 10, offset: 91398},
+																				pos: position{line: 2892, col: 10, offset: 91469},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2889, col: 10, offset: 91398},
+																					pos:        position{line: 2892, col: 10, offset: 91469},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2911, col: 8, offset: 91796},
+																			pos: position{line: 2914, col: 8, offset: 91867},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2898, col: 12, offset: 91569},
+																					pos: position{line: 2901, col: 12, offset: 91640},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2898, col: 13, offset: 91570},
+																						pos: position{line: 2901, col: 13, offset: 91641},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 13, offset: 91570},
+																								pos:        position{line: 2901, col: 13, offset: 91641},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 20, offset: 91577},
+																								pos:        position{line: 2901, col: 20, offset: 91648},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 29, offset: 91586},
+																								pos:        position{line: 2901, col: 29, offset: 91657},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 802, col: 8, offset: 25792},
 																			expr: &actionExpr{
-																				pos: position{line: 2889, col: 10, offset: 91398},
+																				pos: position{line: 2892, col: 10, offset: 91469},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2889, col: 10, offset: 91398},
+																					pos:        position{line: 2892, col: 10, offset: 91469},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2911, col: 8, offset: 91796},
+																			pos: position{line: 2914, col: 8, offset: 91867},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2898, col: 12, offset: 91569},
+																					pos: position{line: 2901, col: 12, offset: 91640},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2898, col: 13, offset: 91570},
+																						pos: position{line: 2901, col: 13, offset: 91641},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 13, offset: 91570},
+																								pos:        position{line: 2901, col: 13, offset: 91641},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 20, offset: 91577},
+																								pos:        position{line: 2901, col: 20, offset: 91648},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 29, offset: 91586},
+																								pos:        position{line: 2901, col: 29, offset: 91657},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 809, col: 8, offset: 26042},
 																			expr: &actionExpr{
-																				pos: position{line: 2889, col: 10, offset: 91398},
+																				pos: position{line: 2892, col: 10, offset: 91469},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2889, col: 10, offset: 91398},
+																					pos:        position{line: 2892, col: 10, offset: 91469},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2911, col: 8, offset: 91796},
+																			pos: position{line: 2914, col: 8, offset: 91867},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2898, col: 12, offset: 91569},
+																					pos: position{line: 2901, col: 12, offset: 91640},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2898, col: 13, offset: 91570},
+																						pos: position{line: 2901, col: 13, offset: 91641},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 13, offset: 91570},
+																								pos:        position{line: 2901, col: 13, offset: 91641},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 20, offset: 91577},
+																								pos:        position{line: 2901, col: 20, offset: 91648},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 29, offset: 91586},
+																								pos:        position{line: 2901, col: 29, offset: 91657},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 816, col: 8, offset: 26288},
 																			expr: &actionExpr{
-																				pos: position{line: 2889, col: 10, offset: 91398},
+																				pos: position{line: 2892, col: 10, offset: 91469},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2889, col: 10, offset: 91398},
+																					pos:        position{line: 2892, col: 10, offset: 91469},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2911, col: 8, offset: 91796},
+																			pos: position{line: 2914, col: 8, offset: 91867},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2898, col: 12, offset: 91569},
+																					pos: position{line: 2901, col: 12, offset: 91640},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2898, col: 13, offset: 91570},
+																						pos: position{line: 2901, col: 13, offset: 91641},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 13, offset: 91570},
+																								pos:        position{line: 2901, col: 13, offset: 91641},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 20, offset: 91577},
+																								pos:        position{line: 2901, col: 20, offset: 91648},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 29, offset: 91586},
+																								pos:        position{line: 2901, col: 29, offset: 91657},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2893, col: 11, offset: 91459},
+													pos: position{line: 2896, col: 11, offset: 91530},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2893, col: 11, offset: 91459},
+														pos: position{line: 2896, col: 11, offset: 91530},
 														expr: &charClassMatcher{
-															pos:        position{line: 2893, col: 11, offset: 91459},
+															pos:        position{line: 2896, col: 11, offset: 91530},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2839, col: 14, offset: 89991},
+													pos: position{line: 2842, col: 14, offset: 90062},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2839, col: 14, offset: 89991},
+														pos: position{line: 2842, col: 14, offset: 90062},
 														expr: &charClassMatcher{
-															pos:        position{line: 2839, col: 14, offset: 89991},
+															pos:        position{line: 2842, col: 14, offset: 90062},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2908, col: 8, offset: 91746},
+													pos: position{line: 2911, col: 8, offset: 91817},
 													expr: &anyMatcher{
-														line: 2908, col: 9, offset: 91747,
+														line: 2911, col: 9, offset: 91818,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2908, col: 8, offset: 91746},
+							pos: position{line: 2911, col: 8, offset: 91817},
 							expr: &anyMatcher{
-								line: 2908, col: 9, offset: 91747,
+								line: 2911, col: 9, offset: 91818,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2843, col: 17, offset: 90061},
+												pos: position{line: 2846, col: 17, offset: 90132},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2843, col: 17, offset: 90061},
+													pos:   position{line: 2846, col: 17, offset: 90132},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 5, offset: 90515},
+														pos: position{line: 2863, col: 5, offset: 90586},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2860, col: 5, offset: 90515},
+															pos:   position{line: 2863, col: 5, offset: 90586},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2860, col: 14, offset: 90524},
+																pos: position{line: 2863, col: 14, offset: 90595},
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 9, offset: 90534},
+																	pos: position{line: 2864, col: 9, offset: 90605},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 9, offset: 90534},
+																			pos: position{line: 2864, col: 9, offset: 90605},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2861, col: 9, offset: 90534},
+																				pos: position{line: 2864, col: 9, offset: 90605},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2861, col: 9, offset: 90534},
+																						pos: position{line: 2864, col: 9, offset: 90605},
 																						expr: &litMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90535},
+																							pos:        position{line: 2864, col: 10, offset: 90606},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2862, col: 9, offset: 90563},
+																						pos: position{line: 2865, col: 9, offset: 90634},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2862, col: 10, offset: 90564},
+																							pos:        position{line: 2865, col: 10, offset: 90635},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2865, col: 11, offset: 90776},
+																			pos: position{line: 2868, col: 11, offset: 90847},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2865, col: 11, offset: 90776},
+																					pos:        position{line: 2868, col: 11, offset: 90847},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2865, col: 19, offset: 90784},
+																					pos: position{line: 2868, col: 19, offset: 90855},
 																					expr: &seqExpr{
-																						pos: position{line: 2865, col: 21, offset: 90786},
+																						pos: position{line: 2868, col: 21, offset: 90857},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2865, col: 21, offset: 90786},
+																								pos: position{line: 2868, col: 21, offset: 90857},
 																								expr: &actionExpr{
-																									pos: position{line: 2889, col: 10, offset: 91398},
+																									pos: position{line: 2892, col: 10, offset: 91469},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2889, col: 10, offset: 91398},
+																										pos:        position{line: 2892, col: 10, offset: 91469},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2865, col: 28, offset: 90793},
+																								pos: position{line: 2868, col: 28, offset: 90864},
 																								expr: &notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2868, col: 11, offset: 90913},
+																			pos: position{line: 2871, col: 11, offset: 90984},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2868, col: 11, offset: 90913},
+																				pos:        position{line: 2871, col: 11, offset: 90984},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2889, col: 10, offset: 91398},
+								pos: position{line: 2892, col: 10, offset: 91469},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2889, col: 10, offset: 91398},
+									pos:        position{line: 2892, col: 10, offset: 91469},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2911, col: 8, offset: 91796},
+							pos: position{line: 2914, col: 8, offset: 91867},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2898, col: 12, offset: 91569},
+									pos: position{line: 2901, col: 12, offset: 91640},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2898, col: 13, offset: 91570},
+										pos: position{line: 2901, col: 13, offset: 91641},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2898, col: 13, offset: 91570},
+												pos:        position{line: 2901, col: 13, offset: 91641},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2898, col: 20, offset: 91577},
+												pos:        position{line: 2901, col: 20, offset: 91648},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2898, col: 29, offset: 91586},
+												pos:        position{line: 2901, col: 29, offset: 91657},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2908, col: 8, offset: 91746},
+									pos: position{line: 2911, col: 8, offset: 91817},
 									expr: &anyMatcher{
-										line: 2908, col: 9, offset: 91747,
+										line: 2911, col: 9, offset: 91818,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2881, col: 12, offset: 91225},
+																				pos: position{line: 2884, col: 12, offset: 91296},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2881, col: 13, offset: 91226},
+																					pos: position{line: 2884, col: 13, offset: 91297},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2881, col: 13, offset: 91226},
+																							pos: position{line: 2884, col: 13, offset: 91297},
 																							expr: &litMatcher{
-																								pos:        position{line: 2881, col: 13, offset: 91226},
+																								pos:        position{line: 2884, col: 13, offset: 91297},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2881, col: 18, offset: 91231},
+																							pos: position{line: 2884, col: 18, offset: 91302},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2881, col: 18, offset: 91231},
+																								pos:        position{line: 2884, col: 18, offset: 91302},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2881, col: 12, offset: 91225},
+																				pos: position{line: 2884, col: 12, offset: 91296},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2881, col: 13, offset: 91226},
+																					pos: position{line: 2884, col: 13, offset: 91297},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2881, col: 13, offset: 91226},
+																							pos: position{line: 2884, col: 13, offset: 91297},
 																							expr: &litMatcher{
-																								pos:        position{line: 2881, col: 13, offset: 91226},
+																								pos:        position{line: 2884, col: 13, offset: 91297},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2881, col: 18, offset: 91231},
+																							pos: position{line: 2884, col: 18, offset: 91302},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2881, col: 18, offset: 91231},
+																								pos:        position{line: 2884, col: 18, offset: 91302},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 12, offset: 91225},
+																		pos: position{line: 2884, col: 12, offset: 91296},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2881, col: 13, offset: 91226},
+																			pos: position{line: 2884, col: 13, offset: 91297},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2881, col: 13, offset: 91226},
+																					pos: position{line: 2884, col: 13, offset: 91297},
 																					expr: &litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91226},
+																						pos:        position{line: 2884, col: 13, offset: 91297},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2881, col: 18, offset: 91231},
+																					pos: position{line: 2884, col: 18, offset: 91302},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2881, col: 18, offset: 91231},
+																						pos:        position{line: 2884, col: 18, offset: 91302},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91225},
+																									pos: position{line: 2884, col: 12, offset: 91296},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2881, col: 13, offset: 91226},
+																										pos: position{line: 2884, col: 13, offset: 91297},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2881, col: 13, offset: 91226},
+																												pos: position{line: 2884, col: 13, offset: 91297},
 																												expr: &litMatcher{
-																													pos:        position{line: 2881, col: 13, offset: 91226},
+																													pos:        position{line: 2884, col: 13, offset: 91297},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2881, col: 18, offset: 91231},
+																												pos: position{line: 2884, col: 18, offset: 91302},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2881, col: 18, offset: 91231},
+																													pos:        position{line: 2884, col: 18, offset: 91302},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2881, col: 12, offset: 91225},
+																									pos: position{line: 2884, col: 12, offset: 91296},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2881, col: 13, offset: 91226},
+																										pos: position{line: 2884, col: 13, offset: 91297},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2881, col: 13, offset: 91226},
+																												pos: position{line: 2884, col: 13, offset: 91297},
 																												expr: &litMatcher{
-																													pos:        position{line: 2881, col: 13, offset: 91226},
+																													pos:        position{line: 2884, col: 13, offset: 91297},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2881, col: 18, offset: 91231},
+																												pos: position{line: 2884, col: 18, offset: 91302},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2881, col: 18, offset: 91231},
+																													pos:        position{line: 2884, col: 18, offset: 91302},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2881, col: 12, offset: 91225},
+																							pos: position{line: 2884, col: 12, offset: 91296},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2881, col: 13, offset: 91226},
+																								pos: position{line: 2884, col: 13, offset: 91297},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2881, col: 13, offset: 91226},
+																										pos: position{line: 2884, col: 13, offset: 91297},
 																										expr: &litMatcher{
-																											pos:        position{line: 2881, col: 13, offset: 91226},
+																											pos:        position{line: 2884, col: 13, offset: 91297},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2881, col: 18, offset: 91231},
+																										pos: position{line: 2884, col: 18, offset: 91302},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2881, col: 18, offset: 91231},
+																											pos:        position{line: 2884, col: 18, offset: 91302},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 12, offset: 91225},
+														pos: position{line: 2884, col: 12, offset: 91296},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2881, col: 13, offset: 91226},
+															pos: position{line: 2884, col: 13, offset: 91297},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2881, col: 13, offset: 91226},
+																	pos: position{line: 2884, col: 13, offset: 91297},
 																	expr: &litMatcher{
-																		pos:        position{line: 2881, col: 13, offset: 91226},
+																		pos:        position{line: 2884, col: 13, offset: 91297},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2881, col: 18, offset: 91231},
+																	pos: position{line: 2884, col: 18, offset: 91302},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2881, col: 18, offset: 91231},
+																		pos:        position{line: 2884, col: 18, offset: 91302},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 12, offset: 91225},
+														pos: position{line: 2884, col: 12, offset: 91296},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2881, col: 13, offset: 91226},
+															pos: position{line: 2884, col: 13, offset: 91297},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2881, col: 13, offset: 91226},
+																	pos: position{line: 2884, col: 13, offset: 91297},
 																	expr: &litMatcher{
-																		pos:        position{line: 2881, col: 13, offset: 91226},
+																		pos:        position{line: 2884, col: 13, offset: 91297},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2881, col: 18, offset: 91231},
+																	pos: position{line: 2884, col: 18, offset: 91302},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2881, col: 18, offset: 91231},
+																		pos:        position{line: 2884, col: 18, offset: 91302},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2881, col: 12, offset: 91225},
+												pos: position{line: 2884, col: 12, offset: 91296},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2881, col: 13, offset: 91226},
+													pos: position{line: 2884, col: 13, offset: 91297},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2881, col: 13, offset: 91226},
+															pos: position{line: 2884, col: 13, offset: 91297},
 															expr: &litMatcher{
-																pos:        position{line: 2881, col: 13, offset: 91226},
+																pos:        position{line: 2884, col: 13, offset: 91297},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2881, col: 18, offset: 91231},
+															pos: position{line: 2884, col: 18, offset: 91302},
 															expr: &charClassMatcher{
-																pos:        position{line: 2881, col: 18, offset: 91231},
+																pos:        position{line: 2884, col: 18, offset: 91302},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2908, col: 8, offset: 91746},
+							pos: position{line: 2911, col: 8, offset: 91817},
 							expr: &anyMatcher{
-								line: 2908, col: 9, offset: 91747,
+								line: 2911, col: 9, offset: 91818,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2783, col: 14, offset: 88567},
+																		pos: position{line: 2786, col: 14, offset: 88638},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2783, col: 14, offset: 88567},
+																			pos: position{line: 2786, col: 14, offset: 88638},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2783, col: 14, offset: 88567},
+																				pos:        position{line: 2786, col: 14, offset: 88638},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2783, col: 14, offset: 88567},
+																				pos: position{line: 2786, col: 14, offset: 88638},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2783, col: 14, offset: 88567},
+																					pos: position{line: 2786, col: 14, offset: 88638},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2783, col: 14, offset: 88567},
+																						pos:        position{line: 2786, col: 14, offset: 88638},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2783, col: 14, offset: 88567},
+																							pos: position{line: 2786, col: 14, offset: 88638},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2783, col: 14, offset: 88567},
+																								pos: position{line: 2786, col: 14, offset: 88638},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2783, col: 14, offset: 88567},
+																									pos:        position{line: 2786, col: 14, offset: 88638},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2783, col: 14, offset: 88567},
+																									pos: position{line: 2786, col: 14, offset: 88638},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2783, col: 14, offset: 88567},
+																										pos: position{line: 2786, col: 14, offset: 88638},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2783, col: 14, offset: 88567},
+																											pos:        position{line: 2786, col: 14, offset: 88638},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2908, col: 8, offset: 91746},
+							pos: position{line: 2911, col: 8, offset: 91817},
 							expr: &anyMatcher{
-								line: 2908, col: 9, offset: 91747,
+								line: 2911, col: 9, offset: 91818,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2783, col: 14, offset: 88567},
+																pos: position{line: 2786, col: 14, offset: 88638},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2783, col: 14, offset: 88567},
+																	pos: position{line: 2786, col: 14, offset: 88638},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2783, col: 14, offset: 88567},
+																		pos:        position{line: 2786, col: 14, offset: 88638},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2783, col: 14, offset: 88567},
+																pos: position{line: 2786, col: 14, offset: 88638},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2783, col: 14, offset: 88567},
+																	pos: position{line: 2786, col: 14, offset: 88638},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2783, col: 14, offset: 88567},
+																		pos:        position{line: 2786, col: 14, offset: 88638},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2911, col: 8, offset: 91796},
+							pos: position{line: 2914, col: 8, offset: 91867},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2898, col: 12, offset: 91569},
+									pos: position{line: 2901, col: 12, offset: 91640},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2898, col: 13, offset: 91570},
+										pos: position{line: 2901, col: 13, offset: 91641},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2898, col: 13, offset: 91570},
+												pos:        position{line: 2901, col: 13, offset: 91641},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2898, col: 20, offset: 91577},
+												pos:        position{line: 2901, col: 20, offset: 91648},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2898, col: 29, offset: 91586},
+												pos:        position{line: 2901, col: 29, offset: 91657},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2908, col: 8, offset: 91746},
+									pos: position{line: 2911, col: 8, offset: 91817},
 									expr: &anyMatcher{
-										line: 2908, col: 9, offset: 91747,
+										line: 2911, col: 9, offset: 91818,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2906, col: 11, offset: 91732},
+							pos: position{line: 2909, col: 11, offset: 91803},
 							expr: &anyMatcher{
-								line: 2906, col: 13, offset: 91734,
+								line: 2909, col: 13, offset: 91805,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 367, col: 49, offset: 11183},
 														expr: &actionExpr{
-															pos: position{line: 2889, col: 10, offset: 91398},
+															pos: position{line: 2892, col: 10, offset: 91469},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2889, col: 10, offset: 91398},
+																pos:        position{line: 2892, col: 10, offset: 91469},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2911, col: 8, offset: 91796},
+														pos: position{line: 2914, col: 8, offset: 91867},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2898, col: 12, offset: 91569},
+																pos: position{line: 2901, col: 12, offset: 91640},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2898, col: 13, offset: 91570},
+																	pos: position{line: 2901, col: 13, offset: 91641},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 13, offset: 91570},
+																			pos:        position{line: 2901, col: 13, offset: 91641},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 20, offset: 91577},
+																			pos:        position{line: 2901, col: 20, offset: 91648},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 29, offset: 91586},
+																			pos:        position{line: 2901, col: 29, offset: 91657},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2908, col: 8, offset: 91746},
+																pos: position{line: 2911, col: 8, offset: 91817},
 																expr: &anyMatcher{
-																	line: 2908, col: 9, offset: 91747,
+																	line: 2911, col: 9, offset: 91818,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 369, col: 39, offset: 11304},
 														expr: &actionExpr{
-															pos: position{line: 2889, col: 10, offset: 91398},
+															pos: position{line: 2892, col: 10, offset: 91469},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2889, col: 10, offset: 91398},
+																pos:        position{line: 2892, col: 10, offset: 91469},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2911, col: 8, offset: 91796},
+														pos: position{line: 2914, col: 8, offset: 91867},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2898, col: 12, offset: 91569},
+																pos: position{line: 2901, col: 12, offset: 91640},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2898, col: 13, offset: 91570},
+																	pos: position{line: 2901, col: 13, offset: 91641},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 13, offset: 91570},
+																			pos:        position{line: 2901, col: 13, offset: 91641},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 20, offset: 91577},
+																			pos:        position{line: 2901, col: 20, offset: 91648},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 29, offset: 91586},
+																			pos:        position{line: 2901, col: 29, offset: 91657},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2908, col: 8, offset: 91746},
+																pos: position{line: 2911, col: 8, offset: 91817},
 																expr: &anyMatcher{
-																	line: 2908, col: 9, offset: 91747,
+																	line: 2911, col: 9, offset: 91818,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 687, col: 14, offset: 21835},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2906, col: 11, offset: 91732},
+														pos: position{line: 2909, col: 11, offset: 91803},
 														expr: &anyMatcher{
-															line: 2906, col: 13, offset: 91734,
+															line: 2909, col: 13, offset: 91805,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 687, col: 21, offset: 21842},
 														expr: &actionExpr{
-															pos: position{line: 2889, col: 10, offset: 91398},
+															pos: position{line: 2892, col: 10, offset: 91469},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2889, col: 10, offset: 91398},
+																pos:        position{line: 2892, col: 10, offset: 91469},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2911, col: 8, offset: 91796},
+														pos: position{line: 2914, col: 8, offset: 91867},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2898, col: 12, offset: 91569},
+																pos: position{line: 2901, col: 12, offset: 91640},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2898, col: 13, offset: 91570},
+																	pos: position{line: 2901, col: 13, offset: 91641},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 13, offset: 91570},
+																			pos:        position{line: 2901, col: 13, offset: 91641},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 20, offset: 91577},
+																			pos:        position{line: 2901, col: 20, offset: 91648},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 29, offset: 91586},
+																			pos:        position{line: 2901, col: 29, offset: 91657},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2908, col: 8, offset: 91746},
+																pos: position{line: 2911, col: 8, offset: 91817},
 																expr: &anyMatcher{
-																	line: 2908, col: 9, offset: 91747,
+																	line: 2911, col: 9, offset: 91818,
 																},
 															},
 														},
@@ -4456,10 +4456,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 752, col: 8, offset: 24032},
 																		expr: &actionExpr{
-																			pos: position{line: 2889, col: 10, offset: 91398},
+																			pos: position{line: 2892, col: 10, offset: 91469},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2889, col: 10, offset: 91398},
+																				pos:        position{line: 2892, col: 10, offset: 91469},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2911, col: 8, offset: 91796},
+																		pos: position{line: 2914, col: 8, offset: 91867},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2898, col: 12, offset: 91569},
+																				pos: position{line: 2901, col: 12, offset: 91640},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 13, offset: 91570},
+																					pos: position{line: 2901, col: 13, offset: 91641},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 13, offset: 91570},
+																							pos:        position{line: 2901, col: 13, offset: 91641},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 20, offset: 91577},
+																							pos:        position{line: 2901, col: 20, offset: 91648},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 29, offset: 91586},
+																							pos:        position{line: 2901, col: 29, offset: 91657},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2908, col: 8, offset: 91746},
+																				pos: position{line: 2911, col: 8, offset: 91817},
 																				expr: &anyMatcher{
-																					line: 2908, col: 9, offset: 91747,
+																					line: 2911, col: 9, offset: 91818,
 																				},
 																			},
 																		},
@@ -4572,10 +4572,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 752, col: 8, offset: 24032},
 																												expr: &actionExpr{
-																													pos: position{line: 2889, col: 10, offset: 91398},
+																													pos: position{line: 2892, col: 10, offset: 91469},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2889, col: 10, offset: 91398},
+																														pos:        position{line: 2892, col: 10, offset: 91469},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2911, col: 8, offset: 91796},
+																												pos: position{line: 2914, col: 8, offset: 91867},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2898, col: 12, offset: 91569},
+																														pos: position{line: 2901, col: 12, offset: 91640},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2898, col: 13, offset: 91570},
+																															pos: position{line: 2901, col: 13, offset: 91641},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 13, offset: 91570},
+																																	pos:        position{line: 2901, col: 13, offset: 91641},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 20, offset: 91577},
+																																	pos:        position{line: 2901, col: 20, offset: 91648},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 29, offset: 91586},
+																																	pos:        position{line: 2901, col: 29, offset: 91657},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2908, col: 8, offset: 91746},
+																														pos: position{line: 2911, col: 8, offset: 91817},
 																														expr: &anyMatcher{
-																															line: 2908, col: 9, offset: 91747,
+																															line: 2911, col: 9, offset: 91818,
 																														},
 																													},
 																												},
@@ -4632,9 +4632,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2908, col: 8, offset: 91746},
+																						pos: position{line: 2911, col: 8, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2908, col: 9, offset: 91747,
+																							line: 2911, col: 9, offset: 91818,
 																						},
 																					},
 																				},
@@ -4650,21 +4650,21 @@ var g = &grammar{
 																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2906, col: 11, offset: 91732},
+																							pos: position{line: 2909, col: 11, offset: 91803},
 																							expr: &anyMatcher{
-																								line: 2906, col: 13, offset: 91734,
+																								line: 2909, col: 13, offset: 91805,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2835, col: 13, offset: 89924},
+																									pos: position{line: 2838, col: 13, offset: 89995},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2835, col: 13, offset: 89924},
+																										pos:        position{line: 2838, col: 13, offset: 89995},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -4771,10 +4771,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 752, col: 8, offset: 24032},
 																								expr: &actionExpr{
-																									pos: position{line: 2889, col: 10, offset: 91398},
+																									pos: position{line: 2892, col: 10, offset: 91469},
 																									run: (*parser).callonDocumentFragment159,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2889, col: 10, offset: 91398},
+																										pos:        position{line: 2892, col: 10, offset: 91469},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -4783,28 +4783,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2911, col: 8, offset: 91796},
+																								pos: position{line: 2914, col: 8, offset: 91867},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2898, col: 12, offset: 91569},
+																										pos: position{line: 2901, col: 12, offset: 91640},
 																										run: (*parser).callonDocumentFragment162,
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 13, offset: 91570},
+																											pos: position{line: 2901, col: 13, offset: 91641},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 13, offset: 91570},
+																													pos:        position{line: 2901, col: 13, offset: 91641},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 20, offset: 91577},
+																													pos:        position{line: 2901, col: 20, offset: 91648},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 29, offset: 91586},
+																													pos:        position{line: 2901, col: 29, offset: 91657},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -4813,9 +4813,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2908, col: 8, offset: 91746},
+																										pos: position{line: 2911, col: 8, offset: 91817},
 																										expr: &anyMatcher{
-																											line: 2908, col: 9, offset: 91747,
+																											line: 2911, col: 9, offset: 91818,
 																										},
 																									},
 																								},
@@ -4831,9 +4831,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2908, col: 8, offset: 91746},
+																		pos: position{line: 2911, col: 8, offset: 91817},
 																		expr: &anyMatcher{
-																			line: 2908, col: 9, offset: 91747,
+																			line: 2911, col: 9, offset: 91818,
 																		},
 																	},
 																},
@@ -4889,10 +4889,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 759, col: 8, offset: 24280},
 																		expr: &actionExpr{
-																			pos: position{line: 2889, col: 10, offset: 91398},
+																			pos: position{line: 2892, col: 10, offset: 91469},
 																			run: (*parser).callonDocumentFragment184,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2889, col: 10, offset: 91398},
+																				pos:        position{line: 2892, col: 10, offset: 91469},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4901,28 +4901,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2911, col: 8, offset: 91796},
+																		pos: position{line: 2914, col: 8, offset: 91867},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2898, col: 12, offset: 91569},
+																				pos: position{line: 2901, col: 12, offset: 91640},
 																				run: (*parser).callonDocumentFragment187,
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 13, offset: 91570},
+																					pos: position{line: 2901, col: 13, offset: 91641},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 13, offset: 91570},
+																							pos:        position{line: 2901, col: 13, offset: 91641},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 20, offset: 91577},
+																							pos:        position{line: 2901, col: 20, offset: 91648},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 29, offset: 91586},
+																							pos:        position{line: 2901, col: 29, offset: 91657},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4931,9 +4931,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2908, col: 8, offset: 91746},
+																				pos: position{line: 2911, col: 8, offset: 91817},
 																				expr: &anyMatcher{
-																					line: 2908, col: 9, offset: 91747,
+																					line: 2911, col: 9, offset: 91818,
 																				},
 																			},
 																		},
@@ -5005,10 +5005,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 759, col: 8, offset: 24280},
 																												expr: &actionExpr{
-																													pos: position{line: 2889, col: 10, offset: 91398},
+																													pos: position{line: 2892, col: 10, offset: 91469},
 																													run: (*parser).callonDocumentFragment212,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2889, col: 10, offset: 91398},
+																														pos:        position{line: 2892, col: 10, offset: 91469},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5017,28 +5017,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2911, col: 8, offset: 91796},
+																												pos: position{line: 2914, col: 8, offset: 91867},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2898, col: 12, offset: 91569},
+																														pos: position{line: 2901, col: 12, offset: 91640},
 																														run: (*parser).callonDocumentFragment215,
 																														expr: &choiceExpr{
-																															pos: position{line: 2898, col: 13, offset: 91570},
+																															pos: position{line: 2901, col: 13, offset: 91641},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 13, offset: 91570},
+																																	pos:        position{line: 2901, col: 13, offset: 91641},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 20, offset: 91577},
+																																	pos:        position{line: 2901, col: 20, offset: 91648},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 29, offset: 91586},
+																																	pos:        position{line: 2901, col: 29, offset: 91657},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5047,9 +5047,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2908, col: 8, offset: 91746},
+																														pos: position{line: 2911, col: 8, offset: 91817},
 																														expr: &anyMatcher{
-																															line: 2908, col: 9, offset: 91747,
+																															line: 2911, col: 9, offset: 91818,
 																														},
 																													},
 																												},
@@ -5065,9 +5065,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2908, col: 8, offset: 91746},
+																						pos: position{line: 2911, col: 8, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2908, col: 9, offset: 91747,
+																							line: 2911, col: 9, offset: 91818,
 																						},
 																					},
 																				},
@@ -5083,21 +5083,21 @@ var g = &grammar{
 																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2906, col: 11, offset: 91732},
+																							pos: position{line: 2909, col: 11, offset: 91803},
 																							expr: &anyMatcher{
-																								line: 2906, col: 13, offset: 91734,
+																								line: 2909, col: 13, offset: 91805,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								run: (*parser).callonDocumentFragment231,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2835, col: 13, offset: 89924},
+																									pos: position{line: 2838, col: 13, offset: 89995},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2835, col: 13, offset: 89924},
+																										pos:        position{line: 2838, col: 13, offset: 89995},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5107,28 +5107,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonDocumentFragment235,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5137,9 +5137,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -5204,10 +5204,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 759, col: 8, offset: 24280},
 																								expr: &actionExpr{
-																									pos: position{line: 2889, col: 10, offset: 91398},
+																									pos: position{line: 2892, col: 10, offset: 91469},
 																									run: (*parser).callonDocumentFragment256,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2889, col: 10, offset: 91398},
+																										pos:        position{line: 2892, col: 10, offset: 91469},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5216,28 +5216,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2911, col: 8, offset: 91796},
+																								pos: position{line: 2914, col: 8, offset: 91867},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2898, col: 12, offset: 91569},
+																										pos: position{line: 2901, col: 12, offset: 91640},
 																										run: (*parser).callonDocumentFragment259,
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 13, offset: 91570},
+																											pos: position{line: 2901, col: 13, offset: 91641},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 13, offset: 91570},
+																													pos:        position{line: 2901, col: 13, offset: 91641},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 20, offset: 91577},
+																													pos:        position{line: 2901, col: 20, offset: 91648},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 29, offset: 91586},
+																													pos:        position{line: 2901, col: 29, offset: 91657},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5246,9 +5246,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2908, col: 8, offset: 91746},
+																										pos: position{line: 2911, col: 8, offset: 91817},
 																										expr: &anyMatcher{
-																											line: 2908, col: 9, offset: 91747,
+																											line: 2911, col: 9, offset: 91818,
 																										},
 																									},
 																								},
@@ -5264,9 +5264,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2908, col: 8, offset: 91746},
+																		pos: position{line: 2911, col: 8, offset: 91817},
 																		expr: &anyMatcher{
-																			line: 2908, col: 9, offset: 91747,
+																			line: 2911, col: 9, offset: 91818,
 																		},
 																	},
 																},
@@ -5318,10 +5318,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 770, col: 52, offset: 24692},
 																		expr: &actionExpr{
-																			pos: position{line: 2889, col: 10, offset: 91398},
+																			pos: position{line: 2892, col: 10, offset: 91469},
 																			run: (*parser).callonDocumentFragment280,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2889, col: 10, offset: 91398},
+																				pos:        position{line: 2892, col: 10, offset: 91469},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5330,28 +5330,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2911, col: 8, offset: 91796},
+																		pos: position{line: 2914, col: 8, offset: 91867},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2898, col: 12, offset: 91569},
+																				pos: position{line: 2901, col: 12, offset: 91640},
 																				run: (*parser).callonDocumentFragment283,
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 13, offset: 91570},
+																					pos: position{line: 2901, col: 13, offset: 91641},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 13, offset: 91570},
+																							pos:        position{line: 2901, col: 13, offset: 91641},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 20, offset: 91577},
+																							pos:        position{line: 2901, col: 20, offset: 91648},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 29, offset: 91586},
+																							pos:        position{line: 2901, col: 29, offset: 91657},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5360,9 +5360,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2908, col: 8, offset: 91746},
+																				pos: position{line: 2911, col: 8, offset: 91817},
 																				expr: &anyMatcher{
-																					line: 2908, col: 9, offset: 91747,
+																					line: 2911, col: 9, offset: 91818,
 																				},
 																			},
 																		},
@@ -5396,10 +5396,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 981, col: 40, offset: 30707},
 																						expr: &actionExpr{
-																							pos: position{line: 2889, col: 10, offset: 91398},
+																							pos: position{line: 2892, col: 10, offset: 91469},
 																							run: (*parser).callonDocumentFragment298,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2889, col: 10, offset: 91398},
+																								pos:        position{line: 2892, col: 10, offset: 91469},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5408,28 +5408,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2911, col: 8, offset: 91796},
+																						pos: position{line: 2914, col: 8, offset: 91867},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2898, col: 12, offset: 91569},
+																								pos: position{line: 2901, col: 12, offset: 91640},
 																								run: (*parser).callonDocumentFragment301,
 																								expr: &choiceExpr{
-																									pos: position{line: 2898, col: 13, offset: 91570},
+																									pos: position{line: 2901, col: 13, offset: 91641},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											pos:        position{line: 2901, col: 13, offset: 91641},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											pos:        position{line: 2901, col: 20, offset: 91648},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											pos:        position{line: 2901, col: 29, offset: 91657},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5438,9 +5438,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 8, offset: 91746},
+																								pos: position{line: 2911, col: 8, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2908, col: 9, offset: 91747,
+																									line: 2911, col: 9, offset: 91818,
 																								},
 																							},
 																						},
@@ -5458,21 +5458,21 @@ var g = &grammar{
 																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2906, col: 11, offset: 91732},
+																							pos: position{line: 2909, col: 11, offset: 91803},
 																							expr: &anyMatcher{
-																								line: 2906, col: 13, offset: 91734,
+																								line: 2909, col: 13, offset: 91805,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								run: (*parser).callonDocumentFragment314,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2835, col: 13, offset: 89924},
+																									pos: position{line: 2838, col: 13, offset: 89995},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2835, col: 13, offset: 89924},
+																										pos:        position{line: 2838, col: 13, offset: 89995},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5482,28 +5482,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonDocumentFragment318,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5512,9 +5512,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -5542,10 +5542,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 981, col: 40, offset: 30707},
 																	expr: &actionExpr{
-																		pos: position{line: 2889, col: 10, offset: 91398},
+																		pos: position{line: 2892, col: 10, offset: 91469},
 																		run: (*parser).callonDocumentFragment329,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2889, col: 10, offset: 91398},
+																			pos:        position{line: 2892, col: 10, offset: 91469},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5554,28 +5554,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonDocumentFragment332,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5584,9 +5584,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -5643,10 +5643,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 766, col: 8, offset: 24526},
 																		expr: &actionExpr{
-																			pos: position{line: 2889, col: 10, offset: 91398},
+																			pos: position{line: 2892, col: 10, offset: 91469},
 																			run: (*parser).callonDocumentFragment351,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2889, col: 10, offset: 91398},
+																				pos:        position{line: 2892, col: 10, offset: 91469},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5655,28 +5655,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2911, col: 8, offset: 91796},
+																		pos: position{line: 2914, col: 8, offset: 91867},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2898, col: 12, offset: 91569},
+																				pos: position{line: 2901, col: 12, offset: 91640},
 																				run: (*parser).callonDocumentFragment354,
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 13, offset: 91570},
+																					pos: position{line: 2901, col: 13, offset: 91641},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 13, offset: 91570},
+																							pos:        position{line: 2901, col: 13, offset: 91641},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 20, offset: 91577},
+																							pos:        position{line: 2901, col: 20, offset: 91648},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 29, offset: 91586},
+																							pos:        position{line: 2901, col: 29, offset: 91657},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5685,9 +5685,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2908, col: 8, offset: 91746},
+																				pos: position{line: 2911, col: 8, offset: 91817},
 																				expr: &anyMatcher{
-																					line: 2908, col: 9, offset: 91747,
+																					line: 2911, col: 9, offset: 91818,
 																				},
 																			},
 																		},
@@ -5759,10 +5759,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 766, col: 8, offset: 24526},
 																												expr: &actionExpr{
-																													pos: position{line: 2889, col: 10, offset: 91398},
+																													pos: position{line: 2892, col: 10, offset: 91469},
 																													run: (*parser).callonDocumentFragment379,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2889, col: 10, offset: 91398},
+																														pos:        position{line: 2892, col: 10, offset: 91469},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5771,28 +5771,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2911, col: 8, offset: 91796},
+																												pos: position{line: 2914, col: 8, offset: 91867},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2898, col: 12, offset: 91569},
+																														pos: position{line: 2901, col: 12, offset: 91640},
 																														run: (*parser).callonDocumentFragment382,
 																														expr: &choiceExpr{
-																															pos: position{line: 2898, col: 13, offset: 91570},
+																															pos: position{line: 2901, col: 13, offset: 91641},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 13, offset: 91570},
+																																	pos:        position{line: 2901, col: 13, offset: 91641},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 20, offset: 91577},
+																																	pos:        position{line: 2901, col: 20, offset: 91648},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 29, offset: 91586},
+																																	pos:        position{line: 2901, col: 29, offset: 91657},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5801,9 +5801,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2908, col: 8, offset: 91746},
+																														pos: position{line: 2911, col: 8, offset: 91817},
 																														expr: &anyMatcher{
-																															line: 2908, col: 9, offset: 91747,
+																															line: 2911, col: 9, offset: 91818,
 																														},
 																													},
 																												},
@@ -5819,9 +5819,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2908, col: 8, offset: 91746},
+																						pos: position{line: 2911, col: 8, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2908, col: 9, offset: 91747,
+																							line: 2911, col: 9, offset: 91818,
 																						},
 																					},
 																				},
@@ -5837,21 +5837,21 @@ var g = &grammar{
 																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2906, col: 11, offset: 91732},
+																							pos: position{line: 2909, col: 11, offset: 91803},
 																							expr: &anyMatcher{
-																								line: 2906, col: 13, offset: 91734,
+																								line: 2909, col: 13, offset: 91805,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								run: (*parser).callonDocumentFragment398,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2835, col: 13, offset: 89924},
+																									pos: position{line: 2838, col: 13, offset: 89995},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2835, col: 13, offset: 89924},
+																										pos:        position{line: 2838, col: 13, offset: 89995},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5861,28 +5861,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonDocumentFragment402,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5891,9 +5891,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -5958,10 +5958,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 766, col: 8, offset: 24526},
 																								expr: &actionExpr{
-																									pos: position{line: 2889, col: 10, offset: 91398},
+																									pos: position{line: 2892, col: 10, offset: 91469},
 																									run: (*parser).callonDocumentFragment423,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2889, col: 10, offset: 91398},
+																										pos:        position{line: 2892, col: 10, offset: 91469},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5970,28 +5970,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2911, col: 8, offset: 91796},
+																								pos: position{line: 2914, col: 8, offset: 91867},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2898, col: 12, offset: 91569},
+																										pos: position{line: 2901, col: 12, offset: 91640},
 																										run: (*parser).callonDocumentFragment426,
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 13, offset: 91570},
+																											pos: position{line: 2901, col: 13, offset: 91641},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 13, offset: 91570},
+																													pos:        position{line: 2901, col: 13, offset: 91641},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 20, offset: 91577},
+																													pos:        position{line: 2901, col: 20, offset: 91648},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 29, offset: 91586},
+																													pos:        position{line: 2901, col: 29, offset: 91657},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6000,9 +6000,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2908, col: 8, offset: 91746},
+																										pos: position{line: 2911, col: 8, offset: 91817},
 																										expr: &anyMatcher{
-																											line: 2908, col: 9, offset: 91747,
+																											line: 2911, col: 9, offset: 91818,
 																										},
 																									},
 																								},
@@ -6018,9 +6018,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2908, col: 8, offset: 91746},
+																		pos: position{line: 2911, col: 8, offset: 91817},
 																		expr: &anyMatcher{
-																			line: 2908, col: 9, offset: 91747,
+																			line: 2911, col: 9, offset: 91818,
 																		},
 																	},
 																},
@@ -6076,10 +6076,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 781, col: 8, offset: 25064},
 																		expr: &actionExpr{
-																			pos: position{line: 2889, col: 10, offset: 91398},
+																			pos: position{line: 2892, col: 10, offset: 91469},
 																			run: (*parser).callonDocumentFragment448,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2889, col: 10, offset: 91398},
+																				pos:        position{line: 2892, col: 10, offset: 91469},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6088,28 +6088,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2911, col: 8, offset: 91796},
+																		pos: position{line: 2914, col: 8, offset: 91867},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2898, col: 12, offset: 91569},
+																				pos: position{line: 2901, col: 12, offset: 91640},
 																				run: (*parser).callonDocumentFragment451,
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 13, offset: 91570},
+																					pos: position{line: 2901, col: 13, offset: 91641},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 13, offset: 91570},
+																							pos:        position{line: 2901, col: 13, offset: 91641},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 20, offset: 91577},
+																							pos:        position{line: 2901, col: 20, offset: 91648},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 29, offset: 91586},
+																							pos:        position{line: 2901, col: 29, offset: 91657},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6118,9 +6118,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2908, col: 8, offset: 91746},
+																				pos: position{line: 2911, col: 8, offset: 91817},
 																				expr: &anyMatcher{
-																					line: 2908, col: 9, offset: 91747,
+																					line: 2911, col: 9, offset: 91818,
 																				},
 																			},
 																		},
@@ -6192,10 +6192,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 781, col: 8, offset: 25064},
 																												expr: &actionExpr{
-																													pos: position{line: 2889, col: 10, offset: 91398},
+																													pos: position{line: 2892, col: 10, offset: 91469},
 																													run: (*parser).callonDocumentFragment476,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2889, col: 10, offset: 91398},
+																														pos:        position{line: 2892, col: 10, offset: 91469},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6204,28 +6204,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2911, col: 8, offset: 91796},
+																												pos: position{line: 2914, col: 8, offset: 91867},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2898, col: 12, offset: 91569},
+																														pos: position{line: 2901, col: 12, offset: 91640},
 																														run: (*parser).callonDocumentFragment479,
 																														expr: &choiceExpr{
-																															pos: position{line: 2898, col: 13, offset: 91570},
+																															pos: position{line: 2901, col: 13, offset: 91641},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 13, offset: 91570},
+																																	pos:        position{line: 2901, col: 13, offset: 91641},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 20, offset: 91577},
+																																	pos:        position{line: 2901, col: 20, offset: 91648},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 29, offset: 91586},
+																																	pos:        position{line: 2901, col: 29, offset: 91657},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6234,9 +6234,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2908, col: 8, offset: 91746},
+																														pos: position{line: 2911, col: 8, offset: 91817},
 																														expr: &anyMatcher{
-																															line: 2908, col: 9, offset: 91747,
+																															line: 2911, col: 9, offset: 91818,
 																														},
 																													},
 																												},
@@ -6252,9 +6252,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2908, col: 8, offset: 91746},
+																						pos: position{line: 2911, col: 8, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2908, col: 9, offset: 91747,
+																							line: 2911, col: 9, offset: 91818,
 																						},
 																					},
 																				},
@@ -6270,21 +6270,21 @@ var g = &grammar{
 																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2906, col: 11, offset: 91732},
+																							pos: position{line: 2909, col: 11, offset: 91803},
 																							expr: &anyMatcher{
-																								line: 2906, col: 13, offset: 91734,
+																								line: 2909, col: 13, offset: 91805,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								run: (*parser).callonDocumentFragment495,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2835, col: 13, offset: 89924},
+																									pos: position{line: 2838, col: 13, offset: 89995},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2835, col: 13, offset: 89924},
+																										pos:        position{line: 2838, col: 13, offset: 89995},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6294,28 +6294,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonDocumentFragment499,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6324,9 +6324,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -6391,10 +6391,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 781, col: 8, offset: 25064},
 																								expr: &actionExpr{
-																									pos: position{line: 2889, col: 10, offset: 91398},
+																									pos: position{line: 2892, col: 10, offset: 91469},
 																									run: (*parser).callonDocumentFragment520,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2889, col: 10, offset: 91398},
+																										pos:        position{line: 2892, col: 10, offset: 91469},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6403,28 +6403,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2911, col: 8, offset: 91796},
+																								pos: position{line: 2914, col: 8, offset: 91867},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2898, col: 12, offset: 91569},
+																										pos: position{line: 2901, col: 12, offset: 91640},
 																										run: (*parser).callonDocumentFragment523,
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 13, offset: 91570},
+																											pos: position{line: 2901, col: 13, offset: 91641},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 13, offset: 91570},
+																													pos:        position{line: 2901, col: 13, offset: 91641},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 20, offset: 91577},
+																													pos:        position{line: 2901, col: 20, offset: 91648},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 29, offset: 91586},
+																													pos:        position{line: 2901, col: 29, offset: 91657},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6433,9 +6433,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2908, col: 8, offset: 91746},
+																										pos: position{line: 2911, col: 8, offset: 91817},
 																										expr: &anyMatcher{
-																											line: 2908, col: 9, offset: 91747,
+																											line: 2911, col: 9, offset: 91818,
 																										},
 																									},
 																								},
@@ -6451,9 +6451,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2908, col: 8, offset: 91746},
+																		pos: position{line: 2911, col: 8, offset: 91817},
 																		expr: &anyMatcher{
-																			line: 2908, col: 9, offset: 91747,
+																			line: 2911, col: 9, offset: 91818,
 																		},
 																	},
 																},
@@ -6509,10 +6509,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 795, col: 8, offset: 25540},
 																		expr: &actionExpr{
-																			pos: position{line: 2889, col: 10, offset: 91398},
+																			pos: position{line: 2892, col: 10, offset: 91469},
 																			run: (*parser).callonDocumentFragment545,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2889, col: 10, offset: 91398},
+																				pos:        position{line: 2892, col: 10, offset: 91469},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6521,28 +6521,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2911, col: 8, offset: 91796},
+																		pos: position{line: 2914, col: 8, offset: 91867},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2898, col: 12, offset: 91569},
+																				pos: position{line: 2901, col: 12, offset: 91640},
 																				run: (*parser).callonDocumentFragment548,
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 13, offset: 91570},
+																					pos: position{line: 2901, col: 13, offset: 91641},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 13, offset: 91570},
+																							pos:        position{line: 2901, col: 13, offset: 91641},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 20, offset: 91577},
+																							pos:        position{line: 2901, col: 20, offset: 91648},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 29, offset: 91586},
+																							pos:        position{line: 2901, col: 29, offset: 91657},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6551,9 +6551,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2908, col: 8, offset: 91746},
+																				pos: position{line: 2911, col: 8, offset: 91817},
 																				expr: &anyMatcher{
-																					line: 2908, col: 9, offset: 91747,
+																					line: 2911, col: 9, offset: 91818,
 																				},
 																			},
 																		},
@@ -6625,10 +6625,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 795, col: 8, offset: 25540},
 																												expr: &actionExpr{
-																													pos: position{line: 2889, col: 10, offset: 91398},
+																													pos: position{line: 2892, col: 10, offset: 91469},
 																													run: (*parser).callonDocumentFragment573,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2889, col: 10, offset: 91398},
+																														pos:        position{line: 2892, col: 10, offset: 91469},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6637,28 +6637,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2911, col: 8, offset: 91796},
+																												pos: position{line: 2914, col: 8, offset: 91867},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2898, col: 12, offset: 91569},
+																														pos: position{line: 2901, col: 12, offset: 91640},
 																														run: (*parser).callonDocumentFragment576,
 																														expr: &choiceExpr{
-																															pos: position{line: 2898, col: 13, offset: 91570},
+																															pos: position{line: 2901, col: 13, offset: 91641},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 13, offset: 91570},
+																																	pos:        position{line: 2901, col: 13, offset: 91641},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 20, offset: 91577},
+																																	pos:        position{line: 2901, col: 20, offset: 91648},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 29, offset: 91586},
+																																	pos:        position{line: 2901, col: 29, offset: 91657},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6667,9 +6667,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2908, col: 8, offset: 91746},
+																														pos: position{line: 2911, col: 8, offset: 91817},
 																														expr: &anyMatcher{
-																															line: 2908, col: 9, offset: 91747,
+																															line: 2911, col: 9, offset: 91818,
 																														},
 																													},
 																												},
@@ -6685,9 +6685,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2908, col: 8, offset: 91746},
+																						pos: position{line: 2911, col: 8, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2908, col: 9, offset: 91747,
+																							line: 2911, col: 9, offset: 91818,
 																						},
 																					},
 																				},
@@ -6703,21 +6703,21 @@ var g = &grammar{
 																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2906, col: 11, offset: 91732},
+																							pos: position{line: 2909, col: 11, offset: 91803},
 																							expr: &anyMatcher{
-																								line: 2906, col: 13, offset: 91734,
+																								line: 2909, col: 13, offset: 91805,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								run: (*parser).callonDocumentFragment592,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2835, col: 13, offset: 89924},
+																									pos: position{line: 2838, col: 13, offset: 89995},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2835, col: 13, offset: 89924},
+																										pos:        position{line: 2838, col: 13, offset: 89995},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6727,28 +6727,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonDocumentFragment596,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6757,9 +6757,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -6824,10 +6824,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 795, col: 8, offset: 25540},
 																								expr: &actionExpr{
-																									pos: position{line: 2889, col: 10, offset: 91398},
+																									pos: position{line: 2892, col: 10, offset: 91469},
 																									run: (*parser).callonDocumentFragment617,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2889, col: 10, offset: 91398},
+																										pos:        position{line: 2892, col: 10, offset: 91469},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6836,28 +6836,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2911, col: 8, offset: 91796},
+																								pos: position{line: 2914, col: 8, offset: 91867},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2898, col: 12, offset: 91569},
+																										pos: position{line: 2901, col: 12, offset: 91640},
 																										run: (*parser).callonDocumentFragment620,
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 13, offset: 91570},
+																											pos: position{line: 2901, col: 13, offset: 91641},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 13, offset: 91570},
+																													pos:        position{line: 2901, col: 13, offset: 91641},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 20, offset: 91577},
+																													pos:        position{line: 2901, col: 20, offset: 91648},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 29, offset: 91586},
+																													pos:        position{line: 2901, col: 29, offset: 91657},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6866,9 +6866,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2908, col: 8, offset: 91746},
+																										pos: position{line: 2911, col: 8, offset: 91817},
 																										expr: &anyMatcher{
-																											line: 2908, col: 9, offset: 91747,
+																											line: 2911, col: 9, offset: 91818,
 																										},
 																									},
 																								},
@@ -6884,9 +6884,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2908, col: 8, offset: 91746},
+																		pos: position{line: 2911, col: 8, offset: 91817},
 																		expr: &anyMatcher{
-																			line: 2908, col: 9, offset: 91747,
+																			line: 2911, col: 9, offset: 91818,
 																		},
 																	},
 																},
@@ -6948,12 +6948,12 @@ var g = &grammar{
 																								pos:   position{line: 2493, col: 49, offset: 80256},
 																								label: "content",
 																								expr: &actionExpr{
-																									pos: position{line: 2835, col: 13, offset: 89924},
+																									pos: position{line: 2838, col: 13, offset: 89995},
 																									run: (*parser).callonDocumentFragment644,
 																									expr: &zeroOrMoreExpr{
-																										pos: position{line: 2835, col: 13, offset: 89924},
+																										pos: position{line: 2838, col: 13, offset: 89995},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2835, col: 13, offset: 89924},
+																											pos:        position{line: 2838, col: 13, offset: 89995},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -6963,28 +6963,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2911, col: 8, offset: 91796},
+																								pos: position{line: 2914, col: 8, offset: 91867},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2898, col: 12, offset: 91569},
+																										pos: position{line: 2901, col: 12, offset: 91640},
 																										run: (*parser).callonDocumentFragment648,
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 13, offset: 91570},
+																											pos: position{line: 2901, col: 13, offset: 91641},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 13, offset: 91570},
+																													pos:        position{line: 2901, col: 13, offset: 91641},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 20, offset: 91577},
+																													pos:        position{line: 2901, col: 20, offset: 91648},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 29, offset: 91586},
+																													pos:        position{line: 2901, col: 29, offset: 91657},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6993,9 +6993,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2908, col: 8, offset: 91746},
+																										pos: position{line: 2911, col: 8, offset: 91817},
 																										expr: &anyMatcher{
-																											line: 2908, col: 9, offset: 91747,
+																											line: 2911, col: 9, offset: 91818,
 																										},
 																									},
 																								},
@@ -7022,18 +7022,18 @@ var g = &grammar{
 																						pos: position{line: 687, col: 14, offset: 21835},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2906, col: 11, offset: 91732},
+																								pos: position{line: 2909, col: 11, offset: 91803},
 																								expr: &anyMatcher{
-																									line: 2906, col: 13, offset: 91734,
+																									line: 2909, col: 13, offset: 91805,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 687, col: 21, offset: 21842},
 																								expr: &actionExpr{
-																									pos: position{line: 2889, col: 10, offset: 91398},
+																									pos: position{line: 2892, col: 10, offset: 91469},
 																									run: (*parser).callonDocumentFragment663,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2889, col: 10, offset: 91398},
+																										pos:        position{line: 2892, col: 10, offset: 91469},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7042,28 +7042,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2911, col: 8, offset: 91796},
+																								pos: position{line: 2914, col: 8, offset: 91867},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2898, col: 12, offset: 91569},
+																										pos: position{line: 2901, col: 12, offset: 91640},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 13, offset: 91570},
+																											pos: position{line: 2901, col: 13, offset: 91641},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 13, offset: 91570},
+																													pos:        position{line: 2901, col: 13, offset: 91641},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 20, offset: 91577},
+																													pos:        position{line: 2901, col: 20, offset: 91648},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 29, offset: 91586},
+																													pos:        position{line: 2901, col: 29, offset: 91657},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7072,9 +7072,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2908, col: 8, offset: 91746},
+																										pos: position{line: 2911, col: 8, offset: 91817},
 																										expr: &anyMatcher{
-																											line: 2908, col: 9, offset: 91747,
+																											line: 2911, col: 9, offset: 91818,
 																										},
 																									},
 																								},
@@ -7093,12 +7093,12 @@ var g = &grammar{
 																				pos:   position{line: 1002, col: 5, offset: 31328},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2839, col: 14, offset: 89991},
+																					pos: position{line: 2842, col: 14, offset: 90062},
 																					run: (*parser).callonDocumentFragment675,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2839, col: 14, offset: 89991},
+																						pos: position{line: 2842, col: 14, offset: 90062},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2839, col: 14, offset: 89991},
+																							pos:        position{line: 2842, col: 14, offset: 90062},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -7108,28 +7108,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2911, col: 8, offset: 91796},
+																				pos: position{line: 2914, col: 8, offset: 91867},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2898, col: 12, offset: 91569},
+																						pos: position{line: 2901, col: 12, offset: 91640},
 																						run: (*parser).callonDocumentFragment679,
 																						expr: &choiceExpr{
-																							pos: position{line: 2898, col: 13, offset: 91570},
+																							pos: position{line: 2901, col: 13, offset: 91641},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2898, col: 13, offset: 91570},
+																									pos:        position{line: 2901, col: 13, offset: 91641},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2898, col: 20, offset: 91577},
+																									pos:        position{line: 2901, col: 20, offset: 91648},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2898, col: 29, offset: 91586},
+																									pos:        position{line: 2901, col: 29, offset: 91657},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -7138,9 +7138,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2908, col: 8, offset: 91746},
+																						pos: position{line: 2911, col: 8, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2908, col: 9, offset: 91747,
+																							line: 2911, col: 9, offset: 91818,
 																						},
 																					},
 																				},
@@ -7184,12 +7184,12 @@ var g = &grammar{
 																					pos:   position{line: 2493, col: 49, offset: 80256},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2835, col: 13, offset: 89924},
+																						pos: position{line: 2838, col: 13, offset: 89995},
 																						run: (*parser).callonDocumentFragment695,
 																						expr: &zeroOrMoreExpr{
-																							pos: position{line: 2835, col: 13, offset: 89924},
+																							pos: position{line: 2838, col: 13, offset: 89995},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2835, col: 13, offset: 89924},
+																								pos:        position{line: 2838, col: 13, offset: 89995},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7199,28 +7199,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2911, col: 8, offset: 91796},
+																					pos: position{line: 2914, col: 8, offset: 91867},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2898, col: 12, offset: 91569},
+																							pos: position{line: 2901, col: 12, offset: 91640},
 																							run: (*parser).callonDocumentFragment699,
 																							expr: &choiceExpr{
-																								pos: position{line: 2898, col: 13, offset: 91570},
+																								pos: position{line: 2901, col: 13, offset: 91641},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 13, offset: 91570},
+																										pos:        position{line: 2901, col: 13, offset: 91641},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 20, offset: 91577},
+																										pos:        position{line: 2901, col: 20, offset: 91648},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 29, offset: 91586},
+																										pos:        position{line: 2901, col: 29, offset: 91657},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7229,9 +7229,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2908, col: 8, offset: 91746},
+																							pos: position{line: 2911, col: 8, offset: 91817},
 																							expr: &anyMatcher{
-																								line: 2908, col: 9, offset: 91747,
+																								line: 2911, col: 9, offset: 91818,
 																							},
 																						},
 																					},
@@ -7279,12 +7279,12 @@ var g = &grammar{
 																									pos:   position{line: 2493, col: 49, offset: 80256},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 2835, col: 13, offset: 89924},
+																										pos: position{line: 2838, col: 13, offset: 89995},
 																										run: (*parser).callonDocumentFragment716,
 																										expr: &zeroOrMoreExpr{
-																											pos: position{line: 2835, col: 13, offset: 89924},
+																											pos: position{line: 2838, col: 13, offset: 89995},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2835, col: 13, offset: 89924},
+																												pos:        position{line: 2838, col: 13, offset: 89995},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -7294,28 +7294,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2911, col: 8, offset: 91796},
+																									pos: position{line: 2914, col: 8, offset: 91867},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2898, col: 12, offset: 91569},
+																											pos: position{line: 2901, col: 12, offset: 91640},
 																											run: (*parser).callonDocumentFragment720,
 																											expr: &choiceExpr{
-																												pos: position{line: 2898, col: 13, offset: 91570},
+																												pos: position{line: 2901, col: 13, offset: 91641},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2898, col: 13, offset: 91570},
+																														pos:        position{line: 2901, col: 13, offset: 91641},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2898, col: 20, offset: 91577},
+																														pos:        position{line: 2901, col: 20, offset: 91648},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2898, col: 29, offset: 91586},
+																														pos:        position{line: 2901, col: 29, offset: 91657},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7324,9 +7324,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2908, col: 8, offset: 91746},
+																											pos: position{line: 2911, col: 8, offset: 91817},
 																											expr: &anyMatcher{
-																												line: 2908, col: 9, offset: 91747,
+																												line: 2911, col: 9, offset: 91818,
 																											},
 																										},
 																									},
@@ -7353,18 +7353,18 @@ var g = &grammar{
 																							pos: position{line: 687, col: 14, offset: 21835},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2906, col: 11, offset: 91732},
+																									pos: position{line: 2909, col: 11, offset: 91803},
 																									expr: &anyMatcher{
-																										line: 2906, col: 13, offset: 91734,
+																										line: 2909, col: 13, offset: 91805,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 687, col: 21, offset: 21842},
 																									expr: &actionExpr{
-																										pos: position{line: 2889, col: 10, offset: 91398},
+																										pos: position{line: 2892, col: 10, offset: 91469},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2889, col: 10, offset: 91398},
+																											pos:        position{line: 2892, col: 10, offset: 91469},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7373,28 +7373,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2911, col: 8, offset: 91796},
+																									pos: position{line: 2914, col: 8, offset: 91867},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2898, col: 12, offset: 91569},
+																											pos: position{line: 2901, col: 12, offset: 91640},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2898, col: 13, offset: 91570},
+																												pos: position{line: 2901, col: 13, offset: 91641},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2898, col: 13, offset: 91570},
+																														pos:        position{line: 2901, col: 13, offset: 91641},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2898, col: 20, offset: 91577},
+																														pos:        position{line: 2901, col: 20, offset: 91648},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2898, col: 29, offset: 91586},
+																														pos:        position{line: 2901, col: 29, offset: 91657},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7403,9 +7403,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2908, col: 8, offset: 91746},
+																											pos: position{line: 2911, col: 8, offset: 91817},
 																											expr: &anyMatcher{
-																												line: 2908, col: 9, offset: 91747,
+																												line: 2911, col: 9, offset: 91818,
 																											},
 																										},
 																									},
@@ -7424,12 +7424,12 @@ var g = &grammar{
 																					pos:   position{line: 1002, col: 5, offset: 31328},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2839, col: 14, offset: 89991},
+																						pos: position{line: 2842, col: 14, offset: 90062},
 																						run: (*parser).callonDocumentFragment747,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2839, col: 14, offset: 89991},
+																							pos: position{line: 2842, col: 14, offset: 90062},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2839, col: 14, offset: 89991},
+																								pos:        position{line: 2842, col: 14, offset: 90062},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7439,28 +7439,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2911, col: 8, offset: 91796},
+																					pos: position{line: 2914, col: 8, offset: 91867},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2898, col: 12, offset: 91569},
+																							pos: position{line: 2901, col: 12, offset: 91640},
 																							run: (*parser).callonDocumentFragment751,
 																							expr: &choiceExpr{
-																								pos: position{line: 2898, col: 13, offset: 91570},
+																								pos: position{line: 2901, col: 13, offset: 91641},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 13, offset: 91570},
+																										pos:        position{line: 2901, col: 13, offset: 91641},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 20, offset: 91577},
+																										pos:        position{line: 2901, col: 20, offset: 91648},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 29, offset: 91586},
+																										pos:        position{line: 2901, col: 29, offset: 91657},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7469,9 +7469,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2908, col: 8, offset: 91746},
+																							pos: position{line: 2911, col: 8, offset: 91817},
 																							expr: &anyMatcher{
-																								line: 2908, col: 9, offset: 91747,
+																								line: 2911, col: 9, offset: 91818,
 																							},
 																						},
 																					},
@@ -7489,12 +7489,12 @@ var g = &grammar{
 																					pos:   position{line: 1807, col: 5, offset: 58385},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2839, col: 14, offset: 89991},
+																						pos: position{line: 2842, col: 14, offset: 90062},
 																						run: (*parser).callonDocumentFragment761,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2839, col: 14, offset: 89991},
+																							pos: position{line: 2842, col: 14, offset: 90062},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2839, col: 14, offset: 89991},
+																								pos:        position{line: 2842, col: 14, offset: 90062},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7508,28 +7508,28 @@ var g = &grammar{
 																					run: (*parser).callonDocumentFragment764,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2911, col: 8, offset: 91796},
+																					pos: position{line: 2914, col: 8, offset: 91867},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2898, col: 12, offset: 91569},
+																							pos: position{line: 2901, col: 12, offset: 91640},
 																							run: (*parser).callonDocumentFragment766,
 																							expr: &choiceExpr{
-																								pos: position{line: 2898, col: 13, offset: 91570},
+																								pos: position{line: 2901, col: 13, offset: 91641},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 13, offset: 91570},
+																										pos:        position{line: 2901, col: 13, offset: 91641},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 20, offset: 91577},
+																										pos:        position{line: 2901, col: 20, offset: 91648},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 29, offset: 91586},
+																										pos:        position{line: 2901, col: 29, offset: 91657},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7538,9 +7538,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2908, col: 8, offset: 91746},
+																							pos: position{line: 2911, col: 8, offset: 91817},
 																							expr: &anyMatcher{
-																								line: 2908, col: 9, offset: 91747,
+																								line: 2911, col: 9, offset: 91818,
 																							},
 																						},
 																					},
@@ -7587,10 +7587,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 788, col: 8, offset: 25295},
 																		expr: &actionExpr{
-																			pos: position{line: 2889, col: 10, offset: 91398},
+																			pos: position{line: 2892, col: 10, offset: 91469},
 																			run: (*parser).callonDocumentFragment782,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2889, col: 10, offset: 91398},
+																				pos:        position{line: 2892, col: 10, offset: 91469},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7599,28 +7599,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2911, col: 8, offset: 91796},
+																		pos: position{line: 2914, col: 8, offset: 91867},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2898, col: 12, offset: 91569},
+																				pos: position{line: 2901, col: 12, offset: 91640},
 																				run: (*parser).callonDocumentFragment785,
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 13, offset: 91570},
+																					pos: position{line: 2901, col: 13, offset: 91641},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 13, offset: 91570},
+																							pos:        position{line: 2901, col: 13, offset: 91641},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 20, offset: 91577},
+																							pos:        position{line: 2901, col: 20, offset: 91648},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 29, offset: 91586},
+																							pos:        position{line: 2901, col: 29, offset: 91657},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7629,9 +7629,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2908, col: 8, offset: 91746},
+																				pos: position{line: 2911, col: 8, offset: 91817},
 																				expr: &anyMatcher{
-																					line: 2908, col: 9, offset: 91747,
+																					line: 2911, col: 9, offset: 91818,
 																				},
 																			},
 																		},
@@ -7679,10 +7679,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 788, col: 8, offset: 25295},
 																									expr: &actionExpr{
-																										pos: position{line: 2889, col: 10, offset: 91398},
+																										pos: position{line: 2892, col: 10, offset: 91469},
 																										run: (*parser).callonDocumentFragment804,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2889, col: 10, offset: 91398},
+																											pos:        position{line: 2892, col: 10, offset: 91469},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7691,28 +7691,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2911, col: 8, offset: 91796},
+																									pos: position{line: 2914, col: 8, offset: 91867},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2898, col: 12, offset: 91569},
+																											pos: position{line: 2901, col: 12, offset: 91640},
 																											run: (*parser).callonDocumentFragment807,
 																											expr: &choiceExpr{
-																												pos: position{line: 2898, col: 13, offset: 91570},
+																												pos: position{line: 2901, col: 13, offset: 91641},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2898, col: 13, offset: 91570},
+																														pos:        position{line: 2901, col: 13, offset: 91641},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2898, col: 20, offset: 91577},
+																														pos:        position{line: 2901, col: 20, offset: 91648},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2898, col: 29, offset: 91586},
+																														pos:        position{line: 2901, col: 29, offset: 91657},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7721,9 +7721,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2908, col: 8, offset: 91746},
+																											pos: position{line: 2911, col: 8, offset: 91817},
 																											expr: &anyMatcher{
-																												line: 2908, col: 9, offset: 91747,
+																												line: 2911, col: 9, offset: 91818,
 																											},
 																										},
 																									},
@@ -7732,9 +7732,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2908, col: 8, offset: 91746},
+																						pos: position{line: 2911, col: 8, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2908, col: 9, offset: 91747,
+																							line: 2911, col: 9, offset: 91818,
 																						},
 																					},
 																				},
@@ -7750,21 +7750,21 @@ var g = &grammar{
 																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2906, col: 11, offset: 91732},
+																							pos: position{line: 2909, col: 11, offset: 91803},
 																							expr: &anyMatcher{
-																								line: 2906, col: 13, offset: 91734,
+																								line: 2909, col: 13, offset: 91805,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								run: (*parser).callonDocumentFragment822,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2835, col: 13, offset: 89924},
+																									pos: position{line: 2838, col: 13, offset: 89995},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2835, col: 13, offset: 89924},
+																										pos:        position{line: 2838, col: 13, offset: 89995},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7774,28 +7774,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonDocumentFragment826,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7804,9 +7804,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -7851,10 +7851,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 788, col: 8, offset: 25295},
 																					expr: &actionExpr{
-																						pos: position{line: 2889, col: 10, offset: 91398},
+																						pos: position{line: 2892, col: 10, offset: 91469},
 																						run: (*parser).callonDocumentFragment842,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2889, col: 10, offset: 91398},
+																							pos:        position{line: 2892, col: 10, offset: 91469},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7863,28 +7863,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2911, col: 8, offset: 91796},
+																					pos: position{line: 2914, col: 8, offset: 91867},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2898, col: 12, offset: 91569},
+																							pos: position{line: 2901, col: 12, offset: 91640},
 																							run: (*parser).callonDocumentFragment845,
 																							expr: &choiceExpr{
-																								pos: position{line: 2898, col: 13, offset: 91570},
+																								pos: position{line: 2901, col: 13, offset: 91641},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 13, offset: 91570},
+																										pos:        position{line: 2901, col: 13, offset: 91641},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 20, offset: 91577},
+																										pos:        position{line: 2901, col: 20, offset: 91648},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 29, offset: 91586},
+																										pos:        position{line: 2901, col: 29, offset: 91657},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7893,9 +7893,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2908, col: 8, offset: 91746},
+																							pos: position{line: 2911, col: 8, offset: 91817},
 																							expr: &anyMatcher{
-																								line: 2908, col: 9, offset: 91747,
+																								line: 2911, col: 9, offset: 91818,
 																							},
 																						},
 																					},
@@ -7904,9 +7904,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2908, col: 8, offset: 91746},
+																		pos: position{line: 2911, col: 8, offset: 91817},
 																		expr: &anyMatcher{
-																			line: 2908, col: 9, offset: 91747,
+																			line: 2911, col: 9, offset: 91818,
 																		},
 																	},
 																},
@@ -7962,10 +7962,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 802, col: 8, offset: 25792},
 																		expr: &actionExpr{
-																			pos: position{line: 2889, col: 10, offset: 91398},
+																			pos: position{line: 2892, col: 10, offset: 91469},
 																			run: (*parser).callonDocumentFragment866,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2889, col: 10, offset: 91398},
+																				pos:        position{line: 2892, col: 10, offset: 91469},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7974,28 +7974,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2911, col: 8, offset: 91796},
+																		pos: position{line: 2914, col: 8, offset: 91867},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2898, col: 12, offset: 91569},
+																				pos: position{line: 2901, col: 12, offset: 91640},
 																				run: (*parser).callonDocumentFragment869,
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 13, offset: 91570},
+																					pos: position{line: 2901, col: 13, offset: 91641},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 13, offset: 91570},
+																							pos:        position{line: 2901, col: 13, offset: 91641},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 20, offset: 91577},
+																							pos:        position{line: 2901, col: 20, offset: 91648},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 29, offset: 91586},
+																							pos:        position{line: 2901, col: 29, offset: 91657},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8004,9 +8004,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2908, col: 8, offset: 91746},
+																				pos: position{line: 2911, col: 8, offset: 91817},
 																				expr: &anyMatcher{
-																					line: 2908, col: 9, offset: 91747,
+																					line: 2911, col: 9, offset: 91818,
 																				},
 																			},
 																		},
@@ -8078,10 +8078,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 802, col: 8, offset: 25792},
 																												expr: &actionExpr{
-																													pos: position{line: 2889, col: 10, offset: 91398},
+																													pos: position{line: 2892, col: 10, offset: 91469},
 																													run: (*parser).callonDocumentFragment894,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2889, col: 10, offset: 91398},
+																														pos:        position{line: 2892, col: 10, offset: 91469},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8090,28 +8090,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2911, col: 8, offset: 91796},
+																												pos: position{line: 2914, col: 8, offset: 91867},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2898, col: 12, offset: 91569},
+																														pos: position{line: 2901, col: 12, offset: 91640},
 																														run: (*parser).callonDocumentFragment897,
 																														expr: &choiceExpr{
-																															pos: position{line: 2898, col: 13, offset: 91570},
+																															pos: position{line: 2901, col: 13, offset: 91641},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 13, offset: 91570},
+																																	pos:        position{line: 2901, col: 13, offset: 91641},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 20, offset: 91577},
+																																	pos:        position{line: 2901, col: 20, offset: 91648},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 29, offset: 91586},
+																																	pos:        position{line: 2901, col: 29, offset: 91657},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8120,9 +8120,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2908, col: 8, offset: 91746},
+																														pos: position{line: 2911, col: 8, offset: 91817},
 																														expr: &anyMatcher{
-																															line: 2908, col: 9, offset: 91747,
+																															line: 2911, col: 9, offset: 91818,
 																														},
 																													},
 																												},
@@ -8138,9 +8138,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2908, col: 8, offset: 91746},
+																						pos: position{line: 2911, col: 8, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2908, col: 9, offset: 91747,
+																							line: 2911, col: 9, offset: 91818,
 																						},
 																					},
 																				},
@@ -8156,21 +8156,21 @@ var g = &grammar{
 																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2906, col: 11, offset: 91732},
+																							pos: position{line: 2909, col: 11, offset: 91803},
 																							expr: &anyMatcher{
-																								line: 2906, col: 13, offset: 91734,
+																								line: 2909, col: 13, offset: 91805,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								run: (*parser).callonDocumentFragment913,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2835, col: 13, offset: 89924},
+																									pos: position{line: 2838, col: 13, offset: 89995},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2835, col: 13, offset: 89924},
+																										pos:        position{line: 2838, col: 13, offset: 89995},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8180,28 +8180,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonDocumentFragment917,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8210,9 +8210,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -8277,10 +8277,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 802, col: 8, offset: 25792},
 																								expr: &actionExpr{
-																									pos: position{line: 2889, col: 10, offset: 91398},
+																									pos: position{line: 2892, col: 10, offset: 91469},
 																									run: (*parser).callonDocumentFragment938,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2889, col: 10, offset: 91398},
+																										pos:        position{line: 2892, col: 10, offset: 91469},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8289,28 +8289,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2911, col: 8, offset: 91796},
+																								pos: position{line: 2914, col: 8, offset: 91867},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2898, col: 12, offset: 91569},
+																										pos: position{line: 2901, col: 12, offset: 91640},
 																										run: (*parser).callonDocumentFragment941,
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 13, offset: 91570},
+																											pos: position{line: 2901, col: 13, offset: 91641},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 13, offset: 91570},
+																													pos:        position{line: 2901, col: 13, offset: 91641},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 20, offset: 91577},
+																													pos:        position{line: 2901, col: 20, offset: 91648},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 29, offset: 91586},
+																													pos:        position{line: 2901, col: 29, offset: 91657},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8319,9 +8319,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2908, col: 8, offset: 91746},
+																										pos: position{line: 2911, col: 8, offset: 91817},
 																										expr: &anyMatcher{
-																											line: 2908, col: 9, offset: 91747,
+																											line: 2911, col: 9, offset: 91818,
 																										},
 																									},
 																								},
@@ -8337,9 +8337,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2908, col: 8, offset: 91746},
+																		pos: position{line: 2911, col: 8, offset: 91817},
 																		expr: &anyMatcher{
-																			line: 2908, col: 9, offset: 91747,
+																			line: 2911, col: 9, offset: 91818,
 																		},
 																	},
 																},
@@ -8395,10 +8395,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 809, col: 8, offset: 26042},
 																		expr: &actionExpr{
-																			pos: position{line: 2889, col: 10, offset: 91398},
+																			pos: position{line: 2892, col: 10, offset: 91469},
 																			run: (*parser).callonDocumentFragment963,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2889, col: 10, offset: 91398},
+																				pos:        position{line: 2892, col: 10, offset: 91469},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8407,28 +8407,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2911, col: 8, offset: 91796},
+																		pos: position{line: 2914, col: 8, offset: 91867},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2898, col: 12, offset: 91569},
+																				pos: position{line: 2901, col: 12, offset: 91640},
 																				run: (*parser).callonDocumentFragment966,
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 13, offset: 91570},
+																					pos: position{line: 2901, col: 13, offset: 91641},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 13, offset: 91570},
+																							pos:        position{line: 2901, col: 13, offset: 91641},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 20, offset: 91577},
+																							pos:        position{line: 2901, col: 20, offset: 91648},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 29, offset: 91586},
+																							pos:        position{line: 2901, col: 29, offset: 91657},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8437,9 +8437,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2908, col: 8, offset: 91746},
+																				pos: position{line: 2911, col: 8, offset: 91817},
 																				expr: &anyMatcher{
-																					line: 2908, col: 9, offset: 91747,
+																					line: 2911, col: 9, offset: 91818,
 																				},
 																			},
 																		},
@@ -8511,10 +8511,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 809, col: 8, offset: 26042},
 																												expr: &actionExpr{
-																													pos: position{line: 2889, col: 10, offset: 91398},
+																													pos: position{line: 2892, col: 10, offset: 91469},
 																													run: (*parser).callonDocumentFragment991,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2889, col: 10, offset: 91398},
+																														pos:        position{line: 2892, col: 10, offset: 91469},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8523,28 +8523,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2911, col: 8, offset: 91796},
+																												pos: position{line: 2914, col: 8, offset: 91867},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2898, col: 12, offset: 91569},
+																														pos: position{line: 2901, col: 12, offset: 91640},
 																														run: (*parser).callonDocumentFragment994,
 																														expr: &choiceExpr{
-																															pos: position{line: 2898, col: 13, offset: 91570},
+																															pos: position{line: 2901, col: 13, offset: 91641},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 13, offset: 91570},
+																																	pos:        position{line: 2901, col: 13, offset: 91641},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 20, offset: 91577},
+																																	pos:        position{line: 2901, col: 20, offset: 91648},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 29, offset: 91586},
+																																	pos:        position{line: 2901, col: 29, offset: 91657},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8553,9 +8553,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2908, col: 8, offset: 91746},
+																														pos: position{line: 2911, col: 8, offset: 91817},
 																														expr: &anyMatcher{
-																															line: 2908, col: 9, offset: 91747,
+																															line: 2911, col: 9, offset: 91818,
 																														},
 																													},
 																												},
@@ -8571,9 +8571,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2908, col: 8, offset: 91746},
+																						pos: position{line: 2911, col: 8, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2908, col: 9, offset: 91747,
+																							line: 2911, col: 9, offset: 91818,
 																						},
 																					},
 																				},
@@ -8589,21 +8589,21 @@ var g = &grammar{
 																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2906, col: 11, offset: 91732},
+																							pos: position{line: 2909, col: 11, offset: 91803},
 																							expr: &anyMatcher{
-																								line: 2906, col: 13, offset: 91734,
+																								line: 2909, col: 13, offset: 91805,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								run: (*parser).callonDocumentFragment1010,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2835, col: 13, offset: 89924},
+																									pos: position{line: 2838, col: 13, offset: 89995},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2835, col: 13, offset: 89924},
+																										pos:        position{line: 2838, col: 13, offset: 89995},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8613,28 +8613,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonDocumentFragment1014,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8643,9 +8643,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -8710,10 +8710,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 809, col: 8, offset: 26042},
 																								expr: &actionExpr{
-																									pos: position{line: 2889, col: 10, offset: 91398},
+																									pos: position{line: 2892, col: 10, offset: 91469},
 																									run: (*parser).callonDocumentFragment1035,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2889, col: 10, offset: 91398},
+																										pos:        position{line: 2892, col: 10, offset: 91469},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8722,28 +8722,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2911, col: 8, offset: 91796},
+																								pos: position{line: 2914, col: 8, offset: 91867},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2898, col: 12, offset: 91569},
+																										pos: position{line: 2901, col: 12, offset: 91640},
 																										run: (*parser).callonDocumentFragment1038,
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 13, offset: 91570},
+																											pos: position{line: 2901, col: 13, offset: 91641},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 13, offset: 91570},
+																													pos:        position{line: 2901, col: 13, offset: 91641},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 20, offset: 91577},
+																													pos:        position{line: 2901, col: 20, offset: 91648},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 29, offset: 91586},
+																													pos:        position{line: 2901, col: 29, offset: 91657},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8752,9 +8752,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2908, col: 8, offset: 91746},
+																										pos: position{line: 2911, col: 8, offset: 91817},
 																										expr: &anyMatcher{
-																											line: 2908, col: 9, offset: 91747,
+																											line: 2911, col: 9, offset: 91818,
 																										},
 																									},
 																								},
@@ -8770,9 +8770,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2908, col: 8, offset: 91746},
+																		pos: position{line: 2911, col: 8, offset: 91817},
 																		expr: &anyMatcher{
-																			line: 2908, col: 9, offset: 91747,
+																			line: 2911, col: 9, offset: 91818,
 																		},
 																	},
 																},
@@ -8828,10 +8828,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 816, col: 8, offset: 26288},
 																		expr: &actionExpr{
-																			pos: position{line: 2889, col: 10, offset: 91398},
+																			pos: position{line: 2892, col: 10, offset: 91469},
 																			run: (*parser).callonDocumentFragment1060,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2889, col: 10, offset: 91398},
+																				pos:        position{line: 2892, col: 10, offset: 91469},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8840,28 +8840,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2911, col: 8, offset: 91796},
+																		pos: position{line: 2914, col: 8, offset: 91867},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2898, col: 12, offset: 91569},
+																				pos: position{line: 2901, col: 12, offset: 91640},
 																				run: (*parser).callonDocumentFragment1063,
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 13, offset: 91570},
+																					pos: position{line: 2901, col: 13, offset: 91641},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 13, offset: 91570},
+																							pos:        position{line: 2901, col: 13, offset: 91641},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 20, offset: 91577},
+																							pos:        position{line: 2901, col: 20, offset: 91648},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 29, offset: 91586},
+																							pos:        position{line: 2901, col: 29, offset: 91657},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8870,9 +8870,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2908, col: 8, offset: 91746},
+																				pos: position{line: 2911, col: 8, offset: 91817},
 																				expr: &anyMatcher{
-																					line: 2908, col: 9, offset: 91747,
+																					line: 2911, col: 9, offset: 91818,
 																				},
 																			},
 																		},
@@ -8944,10 +8944,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 816, col: 8, offset: 26288},
 																												expr: &actionExpr{
-																													pos: position{line: 2889, col: 10, offset: 91398},
+																													pos: position{line: 2892, col: 10, offset: 91469},
 																													run: (*parser).callonDocumentFragment1088,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2889, col: 10, offset: 91398},
+																														pos:        position{line: 2892, col: 10, offset: 91469},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8956,28 +8956,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2911, col: 8, offset: 91796},
+																												pos: position{line: 2914, col: 8, offset: 91867},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2898, col: 12, offset: 91569},
+																														pos: position{line: 2901, col: 12, offset: 91640},
 																														run: (*parser).callonDocumentFragment1091,
 																														expr: &choiceExpr{
-																															pos: position{line: 2898, col: 13, offset: 91570},
+																															pos: position{line: 2901, col: 13, offset: 91641},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 13, offset: 91570},
+																																	pos:        position{line: 2901, col: 13, offset: 91641},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 20, offset: 91577},
+																																	pos:        position{line: 2901, col: 20, offset: 91648},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 29, offset: 91586},
+																																	pos:        position{line: 2901, col: 29, offset: 91657},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8986,9 +8986,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2908, col: 8, offset: 91746},
+																														pos: position{line: 2911, col: 8, offset: 91817},
 																														expr: &anyMatcher{
-																															line: 2908, col: 9, offset: 91747,
+																															line: 2911, col: 9, offset: 91818,
 																														},
 																													},
 																												},
@@ -9004,9 +9004,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2908, col: 8, offset: 91746},
+																						pos: position{line: 2911, col: 8, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2908, col: 9, offset: 91747,
+																							line: 2911, col: 9, offset: 91818,
 																						},
 																					},
 																				},
@@ -9022,21 +9022,21 @@ var g = &grammar{
 																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2906, col: 11, offset: 91732},
+																							pos: position{line: 2909, col: 11, offset: 91803},
 																							expr: &anyMatcher{
-																								line: 2906, col: 13, offset: 91734,
+																								line: 2909, col: 13, offset: 91805,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								run: (*parser).callonDocumentFragment1107,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2835, col: 13, offset: 89924},
+																									pos: position{line: 2838, col: 13, offset: 89995},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2835, col: 13, offset: 89924},
+																										pos:        position{line: 2838, col: 13, offset: 89995},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -9046,28 +9046,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonDocumentFragment1111,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -9076,9 +9076,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -9143,10 +9143,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 816, col: 8, offset: 26288},
 																								expr: &actionExpr{
-																									pos: position{line: 2889, col: 10, offset: 91398},
+																									pos: position{line: 2892, col: 10, offset: 91469},
 																									run: (*parser).callonDocumentFragment1132,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2889, col: 10, offset: 91398},
+																										pos:        position{line: 2892, col: 10, offset: 91469},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -9155,28 +9155,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2911, col: 8, offset: 91796},
+																								pos: position{line: 2914, col: 8, offset: 91867},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2898, col: 12, offset: 91569},
+																										pos: position{line: 2901, col: 12, offset: 91640},
 																										run: (*parser).callonDocumentFragment1135,
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 13, offset: 91570},
+																											pos: position{line: 2901, col: 13, offset: 91641},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 13, offset: 91570},
+																													pos:        position{line: 2901, col: 13, offset: 91641},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 20, offset: 91577},
+																													pos:        position{line: 2901, col: 20, offset: 91648},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 29, offset: 91586},
+																													pos:        position{line: 2901, col: 29, offset: 91657},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9185,9 +9185,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2908, col: 8, offset: 91746},
+																										pos: position{line: 2911, col: 8, offset: 91817},
 																										expr: &anyMatcher{
-																											line: 2908, col: 9, offset: 91747,
+																											line: 2911, col: 9, offset: 91818,
 																										},
 																									},
 																								},
@@ -9203,9 +9203,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2908, col: 8, offset: 91746},
+																		pos: position{line: 2911, col: 8, offset: 91817},
 																		expr: &anyMatcher{
-																			line: 2908, col: 9, offset: 91747,
+																			line: 2911, col: 9, offset: 91818,
 																		},
 																	},
 																},
@@ -9216,52 +9216,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2734, col: 18, offset: 86988},
+											pos: position{line: 2737, col: 18, offset: 87059},
 											run: (*parser).callonDocumentFragment1145,
 											expr: &seqExpr{
-												pos: position{line: 2734, col: 18, offset: 86988},
+												pos: position{line: 2737, col: 18, offset: 87059},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2735, col: 9, offset: 86998},
+														pos: position{line: 2738, col: 9, offset: 87069},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2735, col: 9, offset: 86998},
+																pos:        position{line: 2738, col: 9, offset: 87069},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2736, col: 11, offset: 87034},
+																pos:        position{line: 2739, col: 11, offset: 87105},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2736, col: 19, offset: 87042},
+																pos:        position{line: 2739, col: 19, offset: 87113},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2736, col: 29, offset: 87052},
+																pos:        position{line: 2739, col: 29, offset: 87123},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2736, col: 37, offset: 87060},
+																pos:        position{line: 2739, col: 37, offset: 87131},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2736, col: 47, offset: 87070},
+																pos:        position{line: 2739, col: 47, offset: 87141},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2736, col: 55, offset: 87078},
+																pos:        position{line: 2739, col: 55, offset: 87149},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9269,12 +9269,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2737, col: 11, offset: 87136},
+														pos: position{line: 2740, col: 11, offset: 87207},
 														expr: &actionExpr{
-															pos: position{line: 2889, col: 10, offset: 91398},
+															pos: position{line: 2892, col: 10, offset: 91469},
 															run: (*parser).callonDocumentFragment1156,
 															expr: &charClassMatcher{
-																pos:        position{line: 2889, col: 10, offset: 91398},
+																pos:        position{line: 2892, col: 10, offset: 91469},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9283,28 +9283,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2911, col: 8, offset: 91796},
+														pos: position{line: 2914, col: 8, offset: 91867},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2898, col: 12, offset: 91569},
+																pos: position{line: 2901, col: 12, offset: 91640},
 																run: (*parser).callonDocumentFragment1159,
 																expr: &choiceExpr{
-																	pos: position{line: 2898, col: 13, offset: 91570},
+																	pos: position{line: 2901, col: 13, offset: 91641},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 13, offset: 91570},
+																			pos:        position{line: 2901, col: 13, offset: 91641},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 20, offset: 91577},
+																			pos:        position{line: 2901, col: 20, offset: 91648},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 29, offset: 91586},
+																			pos:        position{line: 2901, col: 29, offset: 91657},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9313,36 +9313,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2908, col: 8, offset: 91746},
+																pos: position{line: 2911, col: 8, offset: 91817},
 																expr: &anyMatcher{
-																	line: 2908, col: 9, offset: 91747,
+																	line: 2911, col: 9, offset: 91818,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2911, col: 8, offset: 91796},
+														pos: position{line: 2914, col: 8, offset: 91867},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2898, col: 12, offset: 91569},
+																pos: position{line: 2901, col: 12, offset: 91640},
 																run: (*parser).callonDocumentFragment1167,
 																expr: &choiceExpr{
-																	pos: position{line: 2898, col: 13, offset: 91570},
+																	pos: position{line: 2901, col: 13, offset: 91641},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 13, offset: 91570},
+																			pos:        position{line: 2901, col: 13, offset: 91641},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 20, offset: 91577},
+																			pos:        position{line: 2901, col: 20, offset: 91648},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 29, offset: 91586},
+																			pos:        position{line: 2901, col: 29, offset: 91657},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9351,9 +9351,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2908, col: 8, offset: 91746},
+																pos: position{line: 2911, col: 8, offset: 91817},
 																expr: &anyMatcher{
-																	line: 2908, col: 9, offset: 91747,
+																	line: 2911, col: 9, offset: 91818,
 																},
 															},
 														},
@@ -9366,24 +9366,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2619, col: 5, offset: 83770},
+											pos: position{line: 2622, col: 5, offset: 83841},
 											run: (*parser).callonDocumentFragment1175,
 											expr: &seqExpr{
-												pos: position{line: 2619, col: 5, offset: 83770},
+												pos: position{line: 2622, col: 5, offset: 83841},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2631, col: 19, offset: 84039},
+														pos:        position{line: 2634, col: 19, offset: 84110},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2631, col: 26, offset: 84046},
+														pos: position{line: 2634, col: 26, offset: 84117},
 														expr: &actionExpr{
-															pos: position{line: 2889, col: 10, offset: 91398},
+															pos: position{line: 2892, col: 10, offset: 91469},
 															run: (*parser).callonDocumentFragment1179,
 															expr: &charClassMatcher{
-																pos:        position{line: 2889, col: 10, offset: 91398},
+																pos:        position{line: 2892, col: 10, offset: 91469},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9392,28 +9392,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2911, col: 8, offset: 91796},
+														pos: position{line: 2914, col: 8, offset: 91867},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2898, col: 12, offset: 91569},
+																pos: position{line: 2901, col: 12, offset: 91640},
 																run: (*parser).callonDocumentFragment1182,
 																expr: &choiceExpr{
-																	pos: position{line: 2898, col: 13, offset: 91570},
+																	pos: position{line: 2901, col: 13, offset: 91641},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 13, offset: 91570},
+																			pos:        position{line: 2901, col: 13, offset: 91641},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 20, offset: 91577},
+																			pos:        position{line: 2901, col: 20, offset: 91648},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 29, offset: 91586},
+																			pos:        position{line: 2901, col: 29, offset: 91657},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9422,15 +9422,15 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2908, col: 8, offset: 91746},
+																pos: position{line: 2911, col: 8, offset: 91817},
 																expr: &anyMatcher{
-																	line: 2908, col: 9, offset: 91747,
+																	line: 2911, col: 9, offset: 91818,
 																},
 															},
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2620, col: 5, offset: 83794},
+														pos: position{line: 2623, col: 5, offset: 83865},
 														expr: &actionExpr{
 															pos: position{line: 2493, col: 22, offset: 80229},
 															run: (*parser).callonDocumentFragment1190,
@@ -9456,12 +9456,12 @@ var g = &grammar{
 																		pos:   position{line: 2493, col: 49, offset: 80256},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2835, col: 13, offset: 89924},
+																			pos: position{line: 2838, col: 13, offset: 89995},
 																			run: (*parser).callonDocumentFragment1196,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2835, col: 13, offset: 89924},
+																				pos: position{line: 2838, col: 13, offset: 89995},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2835, col: 13, offset: 89924},
+																					pos:        position{line: 2838, col: 13, offset: 89995},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -9471,28 +9471,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2911, col: 8, offset: 91796},
+																		pos: position{line: 2914, col: 8, offset: 91867},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2898, col: 12, offset: 91569},
+																				pos: position{line: 2901, col: 12, offset: 91640},
 																				run: (*parser).callonDocumentFragment1200,
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 13, offset: 91570},
+																					pos: position{line: 2901, col: 13, offset: 91641},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 13, offset: 91570},
+																							pos:        position{line: 2901, col: 13, offset: 91641},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 20, offset: 91577},
+																							pos:        position{line: 2901, col: 20, offset: 91648},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 29, offset: 91586},
+																							pos:        position{line: 2901, col: 29, offset: 91657},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -9501,9 +9501,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2908, col: 8, offset: 91746},
+																				pos: position{line: 2911, col: 8, offset: 91817},
 																				expr: &anyMatcher{
-																					line: 2908, col: 9, offset: 91747,
+																					line: 2911, col: 9, offset: 91818,
 																				},
 																			},
 																		},
@@ -9513,21 +9513,21 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2621, col: 5, offset: 83817},
+														pos:   position{line: 2624, col: 5, offset: 83888},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2621, col: 11, offset: 83823},
+															pos: position{line: 2624, col: 11, offset: 83894},
 															expr: &actionExpr{
-																pos: position{line: 2622, col: 9, offset: 83833},
+																pos: position{line: 2625, col: 9, offset: 83904},
 																run: (*parser).callonDocumentFragment1209,
 																expr: &seqExpr{
-																	pos: position{line: 2622, col: 9, offset: 83833},
+																	pos: position{line: 2625, col: 9, offset: 83904},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 2622, col: 9, offset: 83833},
+																			pos:   position{line: 2625, col: 9, offset: 83904},
 																			label: "line",
 																			expr: &choiceExpr{
-																				pos: position{line: 2622, col: 15, offset: 83839},
+																				pos: position{line: 2625, col: 15, offset: 83910},
 																				alternatives: []interface{}{
 																					&actionExpr{
 																						pos: position{line: 687, col: 14, offset: 21835},
@@ -9536,18 +9536,18 @@ var g = &grammar{
 																							pos: position{line: 687, col: 14, offset: 21835},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2906, col: 11, offset: 91732},
+																									pos: position{line: 2909, col: 11, offset: 91803},
 																									expr: &anyMatcher{
-																										line: 2906, col: 13, offset: 91734,
+																										line: 2909, col: 13, offset: 91805,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 687, col: 21, offset: 21842},
 																									expr: &actionExpr{
-																										pos: position{line: 2889, col: 10, offset: 91398},
+																										pos: position{line: 2892, col: 10, offset: 91469},
 																										run: (*parser).callonDocumentFragment1218,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2889, col: 10, offset: 91398},
+																											pos:        position{line: 2892, col: 10, offset: 91469},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -9556,28 +9556,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2911, col: 8, offset: 91796},
+																									pos: position{line: 2914, col: 8, offset: 91867},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2898, col: 12, offset: 91569},
+																											pos: position{line: 2901, col: 12, offset: 91640},
 																											run: (*parser).callonDocumentFragment1221,
 																											expr: &choiceExpr{
-																												pos: position{line: 2898, col: 13, offset: 91570},
+																												pos: position{line: 2901, col: 13, offset: 91641},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2898, col: 13, offset: 91570},
+																														pos:        position{line: 2901, col: 13, offset: 91641},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2898, col: 20, offset: 91577},
+																														pos:        position{line: 2901, col: 20, offset: 91648},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2898, col: 29, offset: 91586},
+																														pos:        position{line: 2901, col: 29, offset: 91657},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -9586,9 +9586,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2908, col: 8, offset: 91746},
+																											pos: position{line: 2911, col: 8, offset: 91817},
 																											expr: &anyMatcher{
-																												line: 2908, col: 9, offset: 91747,
+																												line: 2911, col: 9, offset: 91818,
 																											},
 																										},
 																									},
@@ -9597,32 +9597,32 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2638, col: 5, offset: 84158},
+																						pos: position{line: 2641, col: 5, offset: 84229},
 																						run: (*parser).callonDocumentFragment1228,
 																						expr: &seqExpr{
-																							pos: position{line: 2638, col: 5, offset: 84158},
+																							pos: position{line: 2641, col: 5, offset: 84229},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 2638, col: 5, offset: 84158},
+																									pos: position{line: 2641, col: 5, offset: 84229},
 																									expr: &choiceExpr{
-																										pos: position{line: 2635, col: 22, offset: 84119},
+																										pos: position{line: 2638, col: 22, offset: 84190},
 																										alternatives: []interface{}{
 																											&seqExpr{
-																												pos: position{line: 2631, col: 19, offset: 84039},
+																												pos: position{line: 2634, col: 19, offset: 84110},
 																												exprs: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2631, col: 19, offset: 84039},
+																														pos:        position{line: 2634, col: 19, offset: 84110},
 																														val:        "|===",
 																														ignoreCase: false,
 																														want:       "\"|===\"",
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 2631, col: 26, offset: 84046},
+																														pos: position{line: 2634, col: 26, offset: 84117},
 																														expr: &actionExpr{
-																															pos: position{line: 2889, col: 10, offset: 91398},
+																															pos: position{line: 2892, col: 10, offset: 91469},
 																															run: (*parser).callonDocumentFragment1235,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 2889, col: 10, offset: 91398},
+																																pos:        position{line: 2892, col: 10, offset: 91469},
 																																val:        "[\\t ]",
 																																chars:      []rune{'\t', ' '},
 																																ignoreCase: false,
@@ -9631,28 +9631,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2911, col: 8, offset: 91796},
+																														pos: position{line: 2914, col: 8, offset: 91867},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2898, col: 12, offset: 91569},
+																																pos: position{line: 2901, col: 12, offset: 91640},
 																																run: (*parser).callonDocumentFragment1238,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2898, col: 13, offset: 91570},
+																																	pos: position{line: 2901, col: 13, offset: 91641},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2898, col: 13, offset: 91570},
+																																			pos:        position{line: 2901, col: 13, offset: 91641},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2898, col: 20, offset: 91577},
+																																			pos:        position{line: 2901, col: 20, offset: 91648},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2898, col: 29, offset: 91586},
+																																			pos:        position{line: 2901, col: 29, offset: 91657},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -9661,9 +9661,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2908, col: 8, offset: 91746},
+																																pos: position{line: 2911, col: 8, offset: 91817},
 																																expr: &anyMatcher{
-																																	line: 2908, col: 9, offset: 91747,
+																																	line: 2911, col: 9, offset: 91818,
 																																},
 																															},
 																														},
@@ -9671,59 +9671,59 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2908, col: 8, offset: 91746},
+																												pos: position{line: 2911, col: 8, offset: 91817},
 																												expr: &anyMatcher{
-																													line: 2908, col: 9, offset: 91747,
+																													line: 2911, col: 9, offset: 91818,
 																												},
 																											},
 																										},
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 2639, col: 5, offset: 84181},
+																									pos:   position{line: 2642, col: 5, offset: 84252},
 																									label: "content",
 																									expr: &choiceExpr{
-																										pos: position{line: 2640, col: 9, offset: 84199},
+																										pos: position{line: 2643, col: 9, offset: 84270},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2640, col: 10, offset: 84200},
+																												pos: position{line: 2643, col: 10, offset: 84271},
 																												run: (*parser).callonDocumentFragment1249,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2640, col: 10, offset: 84200},
+																													pos:   position{line: 2643, col: 10, offset: 84271},
 																													label: "cells",
 																													expr: &choiceExpr{
-																														pos: position{line: 2640, col: 17, offset: 84207},
+																														pos: position{line: 2643, col: 17, offset: 84278},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2648, col: 21, offset: 84403},
+																																pos: position{line: 2651, col: 21, offset: 84474},
 																																run: (*parser).callonDocumentFragment1252,
 																																expr: &seqExpr{
-																																	pos: position{line: 2648, col: 21, offset: 84403},
+																																	pos: position{line: 2651, col: 21, offset: 84474},
 																																	exprs: []interface{}{
 																																		&labeledExpr{
-																																			pos:   position{line: 2648, col: 21, offset: 84403},
+																																			pos:   position{line: 2651, col: 21, offset: 84474},
 																																			label: "cells",
 																																			expr: &oneOrMoreExpr{
-																																				pos: position{line: 2648, col: 27, offset: 84409},
+																																				pos: position{line: 2651, col: 27, offset: 84480},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2653, col: 5, offset: 84484},
+																																					pos: position{line: 2656, col: 5, offset: 84555},
 																																					run: (*parser).callonDocumentFragment1256,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2653, col: 5, offset: 84484},
+																																						pos: position{line: 2656, col: 5, offset: 84555},
 																																						exprs: []interface{}{
 																																							&litMatcher{
-																																								pos:        position{line: 2653, col: 5, offset: 84484},
+																																								pos:        position{line: 2656, col: 5, offset: 84555},
 																																								val:        "|",
 																																								ignoreCase: false,
 																																								want:       "\"|\"",
 																																							},
 																																							&zeroOrMoreExpr{
-																																								pos: position{line: 2653, col: 9, offset: 84488},
+																																								pos: position{line: 2656, col: 9, offset: 84559},
 																																								expr: &actionExpr{
-																																									pos: position{line: 2889, col: 10, offset: 91398},
+																																									pos: position{line: 2892, col: 10, offset: 91469},
 																																									run: (*parser).callonDocumentFragment1260,
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2889, col: 10, offset: 91398},
+																																										pos:        position{line: 2892, col: 10, offset: 91469},
 																																										val:        "[\\t ]",
 																																										chars:      []rune{'\t', ' '},
 																																										ignoreCase: false,
@@ -9732,21 +9732,21 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2653, col: 16, offset: 84495},
+																																								pos:   position{line: 2656, col: 16, offset: 84566},
 																																								label: "content",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2659, col: 5, offset: 84695},
+																																									pos: position{line: 2662, col: 5, offset: 84766},
 																																									run: (*parser).callonDocumentFragment1263,
 																																									expr: &labeledExpr{
-																																										pos:   position{line: 2659, col: 5, offset: 84695},
+																																										pos:   position{line: 2662, col: 5, offset: 84766},
 																																										label: "content",
 																																										expr: &actionExpr{
-																																											pos: position{line: 2659, col: 14, offset: 84704},
+																																											pos: position{line: 2662, col: 14, offset: 84775},
 																																											run: (*parser).callonDocumentFragment1265,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2659, col: 14, offset: 84704},
+																																												pos: position{line: 2662, col: 14, offset: 84775},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2659, col: 14, offset: 84704},
+																																													pos:        position{line: 2662, col: 14, offset: 84775},
 																																													val:        "[^|\\r\\n]",
 																																													chars:      []rune{'|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -9763,28 +9763,28 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&choiceExpr{
-																																			pos: position{line: 2911, col: 8, offset: 91796},
+																																			pos: position{line: 2914, col: 8, offset: 91867},
 																																			alternatives: []interface{}{
 																																				&actionExpr{
-																																					pos: position{line: 2898, col: 12, offset: 91569},
+																																					pos: position{line: 2901, col: 12, offset: 91640},
 																																					run: (*parser).callonDocumentFragment1269,
 																																					expr: &choiceExpr{
-																																						pos: position{line: 2898, col: 13, offset: 91570},
+																																						pos: position{line: 2901, col: 13, offset: 91641},
 																																						alternatives: []interface{}{
 																																							&litMatcher{
-																																								pos:        position{line: 2898, col: 13, offset: 91570},
+																																								pos:        position{line: 2901, col: 13, offset: 91641},
 																																								val:        "\n",
 																																								ignoreCase: false,
 																																								want:       "\"\\n\"",
 																																							},
 																																							&litMatcher{
-																																								pos:        position{line: 2898, col: 20, offset: 91577},
+																																								pos:        position{line: 2901, col: 20, offset: 91648},
 																																								val:        "\r\n",
 																																								ignoreCase: false,
 																																								want:       "\"\\r\\n\"",
 																																							},
 																																							&litMatcher{
-																																								pos:        position{line: 2898, col: 29, offset: 91586},
+																																								pos:        position{line: 2901, col: 29, offset: 91657},
 																																								val:        "\r",
 																																								ignoreCase: false,
 																																								want:       "\"\\r\"",
@@ -9793,9 +9793,9 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2908, col: 8, offset: 91746},
+																																					pos: position{line: 2911, col: 8, offset: 91817},
 																																					expr: &anyMatcher{
-																																						line: 2908, col: 9, offset: 91747,
+																																						line: 2911, col: 9, offset: 91818,
 																																					},
 																																				},
 																																			},
@@ -9804,40 +9804,40 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 2665, col: 24, offset: 84840},
+																																pos: position{line: 2668, col: 24, offset: 84911},
 																																run: (*parser).callonDocumentFragment1276,
 																																expr: &labeledExpr{
-																																	pos:   position{line: 2665, col: 24, offset: 84840},
+																																	pos:   position{line: 2668, col: 24, offset: 84911},
 																																	label: "cells",
 																																	expr: &oneOrMoreExpr{
-																																		pos: position{line: 2665, col: 30, offset: 84846},
+																																		pos: position{line: 2668, col: 30, offset: 84917},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2670, col: 5, offset: 84922},
+																																			pos: position{line: 2673, col: 5, offset: 84993},
 																																			run: (*parser).callonDocumentFragment1279,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2670, col: 5, offset: 84922},
+																																				pos: position{line: 2673, col: 5, offset: 84993},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2670, col: 5, offset: 84922},
+																																						pos: position{line: 2673, col: 5, offset: 84993},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2635, col: 22, offset: 84119},
+																																							pos: position{line: 2638, col: 22, offset: 84190},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2631, col: 19, offset: 84039},
+																																									pos: position{line: 2634, col: 19, offset: 84110},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2631, col: 19, offset: 84039},
+																																											pos:        position{line: 2634, col: 19, offset: 84110},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2631, col: 26, offset: 84046},
+																																											pos: position{line: 2634, col: 26, offset: 84117},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2889, col: 10, offset: 91398},
+																																												pos: position{line: 2892, col: 10, offset: 91469},
 																																												run: (*parser).callonDocumentFragment1286,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2889, col: 10, offset: 91398},
+																																													pos:        position{line: 2892, col: 10, offset: 91469},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9846,28 +9846,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2911, col: 8, offset: 91796},
+																																											pos: position{line: 2914, col: 8, offset: 91867},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2898, col: 12, offset: 91569},
+																																													pos: position{line: 2901, col: 12, offset: 91640},
 																																													run: (*parser).callonDocumentFragment1289,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2898, col: 13, offset: 91570},
+																																														pos: position{line: 2901, col: 13, offset: 91641},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2898, col: 13, offset: 91570},
+																																																pos:        position{line: 2901, col: 13, offset: 91641},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2898, col: 20, offset: 91577},
+																																																pos:        position{line: 2901, col: 20, offset: 91648},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2898, col: 29, offset: 91586},
+																																																pos:        position{line: 2901, col: 29, offset: 91657},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9876,9 +9876,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2908, col: 8, offset: 91746},
+																																													pos: position{line: 2911, col: 8, offset: 91817},
 																																													expr: &anyMatcher{
-																																														line: 2908, col: 9, offset: 91747,
+																																														line: 2911, col: 9, offset: 91818,
 																																													},
 																																												},
 																																											},
@@ -9886,16 +9886,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2908, col: 8, offset: 91746},
+																																									pos: position{line: 2911, col: 8, offset: 91817},
 																																									expr: &anyMatcher{
-																																										line: 2908, col: 9, offset: 91747,
+																																										line: 2911, col: 9, offset: 91818,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2671, col: 5, offset: 84945},
+																																						pos: position{line: 2674, col: 5, offset: 85016},
 																																						expr: &actionExpr{
 																																							pos: position{line: 687, col: 14, offset: 21835},
 																																							run: (*parser).callonDocumentFragment1299,
@@ -9903,18 +9903,18 @@ var g = &grammar{
 																																								pos: position{line: 687, col: 14, offset: 21835},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2906, col: 11, offset: 91732},
+																																										pos: position{line: 2909, col: 11, offset: 91803},
 																																										expr: &anyMatcher{
-																																											line: 2906, col: 13, offset: 91734,
+																																											line: 2909, col: 13, offset: 91805,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 687, col: 21, offset: 21842},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2889, col: 10, offset: 91398},
+																																											pos: position{line: 2892, col: 10, offset: 91469},
 																																											run: (*parser).callonDocumentFragment1304,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2889, col: 10, offset: 91398},
+																																												pos:        position{line: 2892, col: 10, offset: 91469},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -9923,28 +9923,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2911, col: 8, offset: 91796},
+																																										pos: position{line: 2914, col: 8, offset: 91867},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2898, col: 12, offset: 91569},
+																																												pos: position{line: 2901, col: 12, offset: 91640},
 																																												run: (*parser).callonDocumentFragment1307,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2898, col: 13, offset: 91570},
+																																													pos: position{line: 2901, col: 13, offset: 91641},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2898, col: 13, offset: 91570},
+																																															pos:        position{line: 2901, col: 13, offset: 91641},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2898, col: 20, offset: 91577},
+																																															pos:        position{line: 2901, col: 20, offset: 91648},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2898, col: 29, offset: 91586},
+																																															pos:        position{line: 2901, col: 29, offset: 91657},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -9953,9 +9953,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2908, col: 8, offset: 91746},
+																																												pos: position{line: 2911, col: 8, offset: 91817},
 																																												expr: &anyMatcher{
-																																													line: 2908, col: 9, offset: 91747,
+																																													line: 2911, col: 9, offset: 91818,
 																																												},
 																																											},
 																																										},
@@ -9965,17 +9965,17 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2672, col: 5, offset: 84960},
+																																						pos:   position{line: 2675, col: 5, offset: 85031},
 																																						label: "format",
 																																						expr: &zeroOrOneExpr{
-																																							pos: position{line: 2672, col: 12, offset: 84967},
+																																							pos: position{line: 2675, col: 12, offset: 85038},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2689, col: 20, offset: 85473},
+																																								pos: position{line: 2692, col: 20, offset: 85544},
 																																								run: (*parser).callonDocumentFragment1316,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2689, col: 20, offset: 85473},
+																																									pos: position{line: 2692, col: 20, offset: 85544},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2689, col: 20, offset: 85473},
+																																										pos:        position{line: 2692, col: 20, offset: 85544},
 																																										val:        "[^ |\\r\\n]",
 																																										chars:      []rune{' ', '|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9986,18 +9986,18 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2672, col: 31, offset: 84986},
+																																						pos:        position{line: 2675, col: 31, offset: 85057},
 																																						val:        "|",
 																																						ignoreCase: false,
 																																						want:       "\"|\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2672, col: 35, offset: 84990},
+																																						pos: position{line: 2675, col: 35, offset: 85061},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2889, col: 10, offset: 91398},
+																																							pos: position{line: 2892, col: 10, offset: 91469},
 																																							run: (*parser).callonDocumentFragment1321,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2889, col: 10, offset: 91398},
+																																								pos:        position{line: 2892, col: 10, offset: 91469},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -10006,30 +10006,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2672, col: 42, offset: 84997},
+																																						pos: position{line: 2675, col: 42, offset: 85068},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2672, col: 43, offset: 84998},
+																																							pos: position{line: 2675, col: 43, offset: 85069},
 																																							exprs: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2898, col: 12, offset: 91569},
+																																									pos: position{line: 2901, col: 12, offset: 91640},
 																																									run: (*parser).callonDocumentFragment1325,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2898, col: 13, offset: 91570},
+																																										pos: position{line: 2901, col: 13, offset: 91641},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2898, col: 13, offset: 91570},
+																																												pos:        position{line: 2901, col: 13, offset: 91641},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2898, col: 20, offset: 91577},
+																																												pos:        position{line: 2901, col: 20, offset: 91648},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2898, col: 29, offset: 91586},
+																																												pos:        position{line: 2901, col: 29, offset: 91657},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -10038,7 +10038,7 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&zeroOrMoreExpr{
-																																									pos: position{line: 2672, col: 51, offset: 85006},
+																																									pos: position{line: 2675, col: 51, offset: 85077},
 																																									expr: &actionExpr{
 																																										pos: position{line: 2493, col: 22, offset: 80229},
 																																										run: (*parser).callonDocumentFragment1331,
@@ -10064,12 +10064,12 @@ var g = &grammar{
 																																													pos:   position{line: 2493, col: 49, offset: 80256},
 																																													label: "content",
 																																													expr: &actionExpr{
-																																														pos: position{line: 2835, col: 13, offset: 89924},
+																																														pos: position{line: 2838, col: 13, offset: 89995},
 																																														run: (*parser).callonDocumentFragment1337,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2835, col: 13, offset: 89924},
+																																															pos: position{line: 2838, col: 13, offset: 89995},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2835, col: 13, offset: 89924},
+																																																pos:        position{line: 2838, col: 13, offset: 89995},
 																																																val:        "[^\\r\\n]",
 																																																chars:      []rune{'\r', '\n'},
 																																																ignoreCase: false,
@@ -10079,28 +10079,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2911, col: 8, offset: 91796},
+																																													pos: position{line: 2914, col: 8, offset: 91867},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2898, col: 12, offset: 91569},
+																																															pos: position{line: 2901, col: 12, offset: 91640},
 																																															run: (*parser).callonDocumentFragment1341,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2898, col: 13, offset: 91570},
+																																																pos: position{line: 2901, col: 13, offset: 91641},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2898, col: 13, offset: 91570},
+																																																		pos:        position{line: 2901, col: 13, offset: 91641},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2898, col: 20, offset: 91577},
+																																																		pos:        position{line: 2901, col: 20, offset: 91648},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2898, col: 29, offset: 91586},
+																																																		pos:        position{line: 2901, col: 29, offset: 91657},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -10109,9 +10109,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2908, col: 8, offset: 91746},
+																																															pos: position{line: 2911, col: 8, offset: 91817},
 																																															expr: &anyMatcher{
-																																																line: 2908, col: 9, offset: 91747,
+																																																line: 2911, col: 9, offset: 91818,
 																																															},
 																																														},
 																																													},
@@ -10124,37 +10124,37 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2672, col: 72, offset: 85027},
+																																						pos:   position{line: 2675, col: 72, offset: 85098},
 																																						label: "content",
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2678, col: 5, offset: 85186},
+																																							pos: position{line: 2681, col: 5, offset: 85257},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2679, col: 9, offset: 85196},
+																																								pos: position{line: 2682, col: 9, offset: 85267},
 																																								run: (*parser).callonDocumentFragment1350,
 																																								expr: &seqExpr{
-																																									pos: position{line: 2679, col: 9, offset: 85196},
+																																									pos: position{line: 2682, col: 9, offset: 85267},
 																																									exprs: []interface{}{
 																																										&notExpr{
-																																											pos: position{line: 2679, col: 9, offset: 85196},
+																																											pos: position{line: 2682, col: 9, offset: 85267},
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2635, col: 22, offset: 84119},
+																																												pos: position{line: 2638, col: 22, offset: 84190},
 																																												alternatives: []interface{}{
 																																													&seqExpr{
-																																														pos: position{line: 2631, col: 19, offset: 84039},
+																																														pos: position{line: 2634, col: 19, offset: 84110},
 																																														exprs: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2631, col: 19, offset: 84039},
+																																																pos:        position{line: 2634, col: 19, offset: 84110},
 																																																val:        "|===",
 																																																ignoreCase: false,
 																																																want:       "\"|===\"",
 																																															},
 																																															&zeroOrMoreExpr{
-																																																pos: position{line: 2631, col: 26, offset: 84046},
+																																																pos: position{line: 2634, col: 26, offset: 84117},
 																																																expr: &actionExpr{
-																																																	pos: position{line: 2889, col: 10, offset: 91398},
+																																																	pos: position{line: 2892, col: 10, offset: 91469},
 																																																	run: (*parser).callonDocumentFragment1357,
 																																																	expr: &charClassMatcher{
-																																																		pos:        position{line: 2889, col: 10, offset: 91398},
+																																																		pos:        position{line: 2892, col: 10, offset: 91469},
 																																																		val:        "[\\t ]",
 																																																		chars:      []rune{'\t', ' '},
 																																																		ignoreCase: false,
@@ -10163,28 +10163,28 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&choiceExpr{
-																																																pos: position{line: 2911, col: 8, offset: 91796},
+																																																pos: position{line: 2914, col: 8, offset: 91867},
 																																																alternatives: []interface{}{
 																																																	&actionExpr{
-																																																		pos: position{line: 2898, col: 12, offset: 91569},
+																																																		pos: position{line: 2901, col: 12, offset: 91640},
 																																																		run: (*parser).callonDocumentFragment1360,
 																																																		expr: &choiceExpr{
-																																																			pos: position{line: 2898, col: 13, offset: 91570},
+																																																			pos: position{line: 2901, col: 13, offset: 91641},
 																																																			alternatives: []interface{}{
 																																																				&litMatcher{
-																																																					pos:        position{line: 2898, col: 13, offset: 91570},
+																																																					pos:        position{line: 2901, col: 13, offset: 91641},
 																																																					val:        "\n",
 																																																					ignoreCase: false,
 																																																					want:       "\"\\n\"",
 																																																				},
 																																																				&litMatcher{
-																																																					pos:        position{line: 2898, col: 20, offset: 91577},
+																																																					pos:        position{line: 2901, col: 20, offset: 91648},
 																																																					val:        "\r\n",
 																																																					ignoreCase: false,
 																																																					want:       "\"\\r\\n\"",
 																																																				},
 																																																				&litMatcher{
-																																																					pos:        position{line: 2898, col: 29, offset: 91586},
+																																																					pos:        position{line: 2901, col: 29, offset: 91657},
 																																																					val:        "\r",
 																																																					ignoreCase: false,
 																																																					want:       "\"\\r\"",
@@ -10193,9 +10193,9 @@ var g = &grammar{
 																																																		},
 																																																	},
 																																																	&notExpr{
-																																																		pos: position{line: 2908, col: 8, offset: 91746},
+																																																		pos: position{line: 2911, col: 8, offset: 91817},
 																																																		expr: &anyMatcher{
-																																																			line: 2908, col: 9, offset: 91747,
+																																																			line: 2911, col: 9, offset: 91818,
 																																																		},
 																																																	},
 																																																},
@@ -10203,16 +10203,16 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2908, col: 8, offset: 91746},
+																																														pos: position{line: 2911, col: 8, offset: 91817},
 																																														expr: &anyMatcher{
-																																															line: 2908, col: 9, offset: 91747,
+																																															line: 2911, col: 9, offset: 91818,
 																																														},
 																																													},
 																																												},
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2680, col: 9, offset: 85223},
+																																											pos: position{line: 2683, col: 9, offset: 85294},
 																																											expr: &actionExpr{
 																																												pos: position{line: 687, col: 14, offset: 21835},
 																																												run: (*parser).callonDocumentFragment1370,
@@ -10220,18 +10220,18 @@ var g = &grammar{
 																																													pos: position{line: 687, col: 14, offset: 21835},
 																																													exprs: []interface{}{
 																																														&andExpr{
-																																															pos: position{line: 2906, col: 11, offset: 91732},
+																																															pos: position{line: 2909, col: 11, offset: 91803},
 																																															expr: &anyMatcher{
-																																																line: 2906, col: 13, offset: 91734,
+																																																line: 2909, col: 13, offset: 91805,
 																																															},
 																																														},
 																																														&zeroOrMoreExpr{
 																																															pos: position{line: 687, col: 21, offset: 21842},
 																																															expr: &actionExpr{
-																																																pos: position{line: 2889, col: 10, offset: 91398},
+																																																pos: position{line: 2892, col: 10, offset: 91469},
 																																																run: (*parser).callonDocumentFragment1375,
 																																																expr: &charClassMatcher{
-																																																	pos:        position{line: 2889, col: 10, offset: 91398},
+																																																	pos:        position{line: 2892, col: 10, offset: 91469},
 																																																	val:        "[\\t ]",
 																																																	chars:      []rune{'\t', ' '},
 																																																	ignoreCase: false,
@@ -10240,28 +10240,28 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&choiceExpr{
-																																															pos: position{line: 2911, col: 8, offset: 91796},
+																																															pos: position{line: 2914, col: 8, offset: 91867},
 																																															alternatives: []interface{}{
 																																																&actionExpr{
-																																																	pos: position{line: 2898, col: 12, offset: 91569},
+																																																	pos: position{line: 2901, col: 12, offset: 91640},
 																																																	run: (*parser).callonDocumentFragment1378,
 																																																	expr: &choiceExpr{
-																																																		pos: position{line: 2898, col: 13, offset: 91570},
+																																																		pos: position{line: 2901, col: 13, offset: 91641},
 																																																		alternatives: []interface{}{
 																																																			&litMatcher{
-																																																				pos:        position{line: 2898, col: 13, offset: 91570},
+																																																				pos:        position{line: 2901, col: 13, offset: 91641},
 																																																				val:        "\n",
 																																																				ignoreCase: false,
 																																																				want:       "\"\\n\"",
 																																																			},
 																																																			&litMatcher{
-																																																				pos:        position{line: 2898, col: 20, offset: 91577},
+																																																				pos:        position{line: 2901, col: 20, offset: 91648},
 																																																				val:        "\r\n",
 																																																				ignoreCase: false,
 																																																				want:       "\"\\r\\n\"",
 																																																			},
 																																																			&litMatcher{
-																																																				pos:        position{line: 2898, col: 29, offset: 91586},
+																																																				pos:        position{line: 2901, col: 29, offset: 91657},
 																																																				val:        "\r",
 																																																				ignoreCase: false,
 																																																				want:       "\"\\r\"",
@@ -10270,9 +10270,9 @@ var g = &grammar{
 																																																	},
 																																																},
 																																																&notExpr{
-																																																	pos: position{line: 2908, col: 8, offset: 91746},
+																																																	pos: position{line: 2911, col: 8, offset: 91817},
 																																																	expr: &anyMatcher{
-																																																		line: 2908, col: 9, offset: 91747,
+																																																		line: 2911, col: 9, offset: 91818,
 																																																	},
 																																																},
 																																															},
@@ -10282,22 +10282,22 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2681, col: 9, offset: 85242},
+																																											pos: position{line: 2684, col: 9, offset: 85313},
 																																											expr: &seqExpr{
-																																												pos: position{line: 2681, col: 11, offset: 85244},
+																																												pos: position{line: 2684, col: 11, offset: 85315},
 																																												exprs: []interface{}{
 																																													&labeledExpr{
-																																														pos:   position{line: 2681, col: 11, offset: 85244},
+																																														pos:   position{line: 2684, col: 11, offset: 85315},
 																																														label: "format",
 																																														expr: &zeroOrOneExpr{
-																																															pos: position{line: 2681, col: 18, offset: 85251},
+																																															pos: position{line: 2684, col: 18, offset: 85322},
 																																															expr: &actionExpr{
-																																																pos: position{line: 2689, col: 20, offset: 85473},
+																																																pos: position{line: 2692, col: 20, offset: 85544},
 																																																run: (*parser).callonDocumentFragment1389,
 																																																expr: &zeroOrMoreExpr{
-																																																	pos: position{line: 2689, col: 20, offset: 85473},
+																																																	pos: position{line: 2692, col: 20, offset: 85544},
 																																																	expr: &charClassMatcher{
-																																																		pos:        position{line: 2689, col: 20, offset: 85473},
+																																																		pos:        position{line: 2692, col: 20, offset: 85544},
 																																																		val:        "[^ |\\r\\n]",
 																																																		chars:      []rune{' ', '|', '\r', '\n'},
 																																																		ignoreCase: false,
@@ -10308,7 +10308,7 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2681, col: 37, offset: 85270},
+																																														pos:        position{line: 2684, col: 37, offset: 85341},
 																																														val:        "|",
 																																														ignoreCase: false,
 																																														want:       "\"|\"",
@@ -10317,15 +10317,15 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&labeledExpr{
-																																											pos:   position{line: 2682, col: 9, offset: 85283},
+																																											pos:   position{line: 2685, col: 9, offset: 85354},
 																																											label: "content",
 																																											expr: &actionExpr{
-																																												pos: position{line: 2682, col: 18, offset: 85292},
+																																												pos: position{line: 2685, col: 18, offset: 85363},
 																																												run: (*parser).callonDocumentFragment1394,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2682, col: 18, offset: 85292},
+																																													pos: position{line: 2685, col: 18, offset: 85363},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2682, col: 18, offset: 85292},
+																																														pos:        position{line: 2685, col: 18, offset: 85363},
 																																														val:        "[^|\\r\\n]",
 																																														chars:      []rune{'|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -10335,33 +10335,33 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&zeroOrOneExpr{
-																																											pos: position{line: 2684, col: 12, offset: 85354},
+																																											pos: position{line: 2687, col: 12, offset: 85425},
 																																											expr: &seqExpr{
-																																												pos: position{line: 2684, col: 13, offset: 85355},
+																																												pos: position{line: 2687, col: 13, offset: 85426},
 																																												exprs: []interface{}{
 																																													&choiceExpr{
-																																														pos: position{line: 2911, col: 8, offset: 91796},
+																																														pos: position{line: 2914, col: 8, offset: 91867},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2898, col: 12, offset: 91569},
+																																																pos: position{line: 2901, col: 12, offset: 91640},
 																																																run: (*parser).callonDocumentFragment1400,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2898, col: 13, offset: 91570},
+																																																	pos: position{line: 2901, col: 13, offset: 91641},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2898, col: 13, offset: 91570},
+																																																			pos:        position{line: 2901, col: 13, offset: 91641},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2898, col: 20, offset: 91577},
+																																																			pos:        position{line: 2901, col: 20, offset: 91648},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2898, col: 29, offset: 91586},
+																																																			pos:        position{line: 2901, col: 29, offset: 91657},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -10370,15 +10370,15 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2908, col: 8, offset: 91746},
+																																																pos: position{line: 2911, col: 8, offset: 91817},
 																																																expr: &anyMatcher{
-																																																	line: 2908, col: 9, offset: 91747,
+																																																	line: 2911, col: 9, offset: 91818,
 																																																},
 																																															},
 																																														},
 																																													},
 																																													&zeroOrMoreExpr{
-																																														pos: position{line: 2684, col: 17, offset: 85359},
+																																														pos: position{line: 2687, col: 17, offset: 85430},
 																																														expr: &actionExpr{
 																																															pos: position{line: 2493, col: 22, offset: 80229},
 																																															run: (*parser).callonDocumentFragment1408,
@@ -10404,12 +10404,12 @@ var g = &grammar{
 																																																		pos:   position{line: 2493, col: 49, offset: 80256},
 																																																		label: "content",
 																																																		expr: &actionExpr{
-																																																			pos: position{line: 2835, col: 13, offset: 89924},
+																																																			pos: position{line: 2838, col: 13, offset: 89995},
 																																																			run: (*parser).callonDocumentFragment1414,
 																																																			expr: &zeroOrMoreExpr{
-																																																				pos: position{line: 2835, col: 13, offset: 89924},
+																																																				pos: position{line: 2838, col: 13, offset: 89995},
 																																																				expr: &charClassMatcher{
-																																																					pos:        position{line: 2835, col: 13, offset: 89924},
+																																																					pos:        position{line: 2838, col: 13, offset: 89995},
 																																																					val:        "[^\\r\\n]",
 																																																					chars:      []rune{'\r', '\n'},
 																																																					ignoreCase: false,
@@ -10419,28 +10419,28 @@ var g = &grammar{
 																																																		},
 																																																	},
 																																																	&choiceExpr{
-																																																		pos: position{line: 2911, col: 8, offset: 91796},
+																																																		pos: position{line: 2914, col: 8, offset: 91867},
 																																																		alternatives: []interface{}{
 																																																			&actionExpr{
-																																																				pos: position{line: 2898, col: 12, offset: 91569},
+																																																				pos: position{line: 2901, col: 12, offset: 91640},
 																																																				run: (*parser).callonDocumentFragment1418,
 																																																				expr: &choiceExpr{
-																																																					pos: position{line: 2898, col: 13, offset: 91570},
+																																																					pos: position{line: 2901, col: 13, offset: 91641},
 																																																					alternatives: []interface{}{
 																																																						&litMatcher{
-																																																							pos:        position{line: 2898, col: 13, offset: 91570},
+																																																							pos:        position{line: 2901, col: 13, offset: 91641},
 																																																							val:        "\n",
 																																																							ignoreCase: false,
 																																																							want:       "\"\\n\"",
 																																																						},
 																																																						&litMatcher{
-																																																							pos:        position{line: 2898, col: 20, offset: 91577},
+																																																							pos:        position{line: 2901, col: 20, offset: 91648},
 																																																							val:        "\r\n",
 																																																							ignoreCase: false,
 																																																							want:       "\"\\r\\n\"",
 																																																						},
 																																																						&litMatcher{
-																																																							pos:        position{line: 2898, col: 29, offset: 91586},
+																																																							pos:        position{line: 2901, col: 29, offset: 91657},
 																																																							val:        "\r",
 																																																							ignoreCase: false,
 																																																							want:       "\"\\r\"",
@@ -10449,9 +10449,9 @@ var g = &grammar{
 																																																				},
 																																																			},
 																																																			&notExpr{
-																																																				pos: position{line: 2908, col: 8, offset: 91746},
+																																																				pos: position{line: 2911, col: 8, offset: 91817},
 																																																				expr: &anyMatcher{
-																																																					line: 2908, col: 9, offset: 91747,
+																																																					line: 2911, col: 9, offset: 91818,
 																																																				},
 																																																			},
 																																																		},
@@ -10485,18 +10485,18 @@ var g = &grammar{
 																													pos: position{line: 687, col: 14, offset: 21835},
 																													exprs: []interface{}{
 																														&andExpr{
-																															pos: position{line: 2906, col: 11, offset: 91732},
+																															pos: position{line: 2909, col: 11, offset: 91803},
 																															expr: &anyMatcher{
-																																line: 2906, col: 13, offset: 91734,
+																																line: 2909, col: 13, offset: 91805,
 																															},
 																														},
 																														&zeroOrMoreExpr{
 																															pos: position{line: 687, col: 21, offset: 21842},
 																															expr: &actionExpr{
-																																pos: position{line: 2889, col: 10, offset: 91398},
+																																pos: position{line: 2892, col: 10, offset: 91469},
 																																run: (*parser).callonDocumentFragment1430,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 2889, col: 10, offset: 91398},
+																																	pos:        position{line: 2892, col: 10, offset: 91469},
 																																	val:        "[\\t ]",
 																																	chars:      []rune{'\t', ' '},
 																																	ignoreCase: false,
@@ -10505,28 +10505,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2911, col: 8, offset: 91796},
+																															pos: position{line: 2914, col: 8, offset: 91867},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2898, col: 12, offset: 91569},
+																																	pos: position{line: 2901, col: 12, offset: 91640},
 																																	run: (*parser).callonDocumentFragment1433,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2898, col: 13, offset: 91570},
+																																		pos: position{line: 2901, col: 13, offset: 91641},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2898, col: 13, offset: 91570},
+																																				pos:        position{line: 2901, col: 13, offset: 91641},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2898, col: 20, offset: 91577},
+																																				pos:        position{line: 2901, col: 20, offset: 91648},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2898, col: 29, offset: 91586},
+																																				pos:        position{line: 2901, col: 29, offset: 91657},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -10535,9 +10535,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2908, col: 8, offset: 91746},
+																																	pos: position{line: 2911, col: 8, offset: 91817},
 																																	expr: &anyMatcher{
-																																		line: 2908, col: 9, offset: 91747,
+																																		line: 2911, col: 9, offset: 91818,
 																																	},
 																																},
 																															},
@@ -10555,7 +10555,7 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 2623, col: 9, offset: 83870},
+																			pos: position{line: 2626, col: 9, offset: 83941},
 																			expr: &actionExpr{
 																				pos: position{line: 2493, col: 22, offset: 80229},
 																				run: (*parser).callonDocumentFragment1441,
@@ -10581,12 +10581,12 @@ var g = &grammar{
 																							pos:   position{line: 2493, col: 49, offset: 80256},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								run: (*parser).callonDocumentFragment1447,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2835, col: 13, offset: 89924},
+																									pos: position{line: 2838, col: 13, offset: 89995},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2835, col: 13, offset: 89924},
+																										pos:        position{line: 2838, col: 13, offset: 89995},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -10596,28 +10596,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonDocumentFragment1451,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -10626,9 +10626,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -10643,24 +10643,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2635, col: 22, offset: 84119},
+														pos: position{line: 2638, col: 22, offset: 84190},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2631, col: 19, offset: 84039},
+																pos: position{line: 2634, col: 19, offset: 84110},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2631, col: 19, offset: 84039},
+																		pos:        position{line: 2634, col: 19, offset: 84110},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2631, col: 26, offset: 84046},
+																		pos: position{line: 2634, col: 26, offset: 84117},
 																		expr: &actionExpr{
-																			pos: position{line: 2889, col: 10, offset: 91398},
+																			pos: position{line: 2892, col: 10, offset: 91469},
 																			run: (*parser).callonDocumentFragment1462,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2889, col: 10, offset: 91398},
+																				pos:        position{line: 2892, col: 10, offset: 91469},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10669,28 +10669,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2911, col: 8, offset: 91796},
+																		pos: position{line: 2914, col: 8, offset: 91867},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2898, col: 12, offset: 91569},
+																				pos: position{line: 2901, col: 12, offset: 91640},
 																				run: (*parser).callonDocumentFragment1465,
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 13, offset: 91570},
+																					pos: position{line: 2901, col: 13, offset: 91641},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 13, offset: 91570},
+																							pos:        position{line: 2901, col: 13, offset: 91641},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 20, offset: 91577},
+																							pos:        position{line: 2901, col: 20, offset: 91648},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 29, offset: 91586},
+																							pos:        position{line: 2901, col: 29, offset: 91657},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10699,9 +10699,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2908, col: 8, offset: 91746},
+																				pos: position{line: 2911, col: 8, offset: 91817},
 																				expr: &anyMatcher{
-																					line: 2908, col: 9, offset: 91747,
+																					line: 2911, col: 9, offset: 91818,
 																				},
 																			},
 																		},
@@ -10709,9 +10709,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2908, col: 8, offset: 91746},
+																pos: position{line: 2911, col: 8, offset: 91817},
 																expr: &anyMatcher{
-																	line: 2908, col: 9, offset: 91747,
+																	line: 2911, col: 9, offset: 91818,
 																},
 															},
 														},
@@ -10744,12 +10744,12 @@ var g = &grammar{
 														pos:   position{line: 2493, col: 49, offset: 80256},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2835, col: 13, offset: 89924},
+															pos: position{line: 2838, col: 13, offset: 89995},
 															run: (*parser).callonDocumentFragment1480,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2835, col: 13, offset: 89924},
+																pos: position{line: 2838, col: 13, offset: 89995},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2835, col: 13, offset: 89924},
+																	pos:        position{line: 2838, col: 13, offset: 89995},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10759,28 +10759,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2911, col: 8, offset: 91796},
+														pos: position{line: 2914, col: 8, offset: 91867},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2898, col: 12, offset: 91569},
+																pos: position{line: 2901, col: 12, offset: 91640},
 																run: (*parser).callonDocumentFragment1484,
 																expr: &choiceExpr{
-																	pos: position{line: 2898, col: 13, offset: 91570},
+																	pos: position{line: 2901, col: 13, offset: 91641},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 13, offset: 91570},
+																			pos:        position{line: 2901, col: 13, offset: 91641},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 20, offset: 91577},
+																			pos:        position{line: 2901, col: 20, offset: 91648},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 29, offset: 91586},
+																			pos:        position{line: 2901, col: 29, offset: 91657},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10789,9 +10789,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2908, col: 8, offset: 91746},
+																pos: position{line: 2911, col: 8, offset: 91817},
 																expr: &anyMatcher{
-																	line: 2908, col: 9, offset: 91747,
+																	line: 2911, col: 9, offset: 91818,
 																},
 															},
 														},
@@ -10827,10 +10827,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1256, col: 36, offset: 38945},
 																		expr: &actionExpr{
-																			pos: position{line: 2889, col: 10, offset: 91398},
+																			pos: position{line: 2892, col: 10, offset: 91469},
 																			run: (*parser).callonDocumentFragment1499,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2889, col: 10, offset: 91398},
+																				pos:        position{line: 2892, col: 10, offset: 91469},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10839,28 +10839,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2911, col: 8, offset: 91796},
+																		pos: position{line: 2914, col: 8, offset: 91867},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2898, col: 12, offset: 91569},
+																				pos: position{line: 2901, col: 12, offset: 91640},
 																				run: (*parser).callonDocumentFragment1502,
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 13, offset: 91570},
+																					pos: position{line: 2901, col: 13, offset: 91641},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 13, offset: 91570},
+																							pos:        position{line: 2901, col: 13, offset: 91641},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 20, offset: 91577},
+																							pos:        position{line: 2901, col: 20, offset: 91648},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 29, offset: 91586},
+																							pos:        position{line: 2901, col: 29, offset: 91657},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10869,9 +10869,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2908, col: 8, offset: 91746},
+																				pos: position{line: 2911, col: 8, offset: 91817},
 																				expr: &anyMatcher{
-																					line: 2908, col: 9, offset: 91747,
+																					line: 2911, col: 9, offset: 91818,
 																				},
 																			},
 																		},
@@ -10905,10 +10905,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1256, col: 36, offset: 38945},
 																												expr: &actionExpr{
-																													pos: position{line: 2889, col: 10, offset: 91398},
+																													pos: position{line: 2892, col: 10, offset: 91469},
 																													run: (*parser).callonDocumentFragment1519,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2889, col: 10, offset: 91398},
+																														pos:        position{line: 2892, col: 10, offset: 91469},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10917,28 +10917,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2911, col: 8, offset: 91796},
+																												pos: position{line: 2914, col: 8, offset: 91867},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2898, col: 12, offset: 91569},
+																														pos: position{line: 2901, col: 12, offset: 91640},
 																														run: (*parser).callonDocumentFragment1522,
 																														expr: &choiceExpr{
-																															pos: position{line: 2898, col: 13, offset: 91570},
+																															pos: position{line: 2901, col: 13, offset: 91641},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 13, offset: 91570},
+																																	pos:        position{line: 2901, col: 13, offset: 91641},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 20, offset: 91577},
+																																	pos:        position{line: 2901, col: 20, offset: 91648},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 29, offset: 91586},
+																																	pos:        position{line: 2901, col: 29, offset: 91657},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10947,9 +10947,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2908, col: 8, offset: 91746},
+																														pos: position{line: 2911, col: 8, offset: 91817},
 																														expr: &anyMatcher{
-																															line: 2908, col: 9, offset: 91747,
+																															line: 2911, col: 9, offset: 91818,
 																														},
 																													},
 																												},
@@ -10976,10 +10976,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1256, col: 36, offset: 38945},
 																		expr: &actionExpr{
-																			pos: position{line: 2889, col: 10, offset: 91398},
+																			pos: position{line: 2892, col: 10, offset: 91469},
 																			run: (*parser).callonDocumentFragment1532,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2889, col: 10, offset: 91398},
+																				pos:        position{line: 2892, col: 10, offset: 91469},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10988,28 +10988,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2911, col: 8, offset: 91796},
+																		pos: position{line: 2914, col: 8, offset: 91867},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2898, col: 12, offset: 91569},
+																				pos: position{line: 2901, col: 12, offset: 91640},
 																				run: (*parser).callonDocumentFragment1535,
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 13, offset: 91570},
+																					pos: position{line: 2901, col: 13, offset: 91641},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 13, offset: 91570},
+																							pos:        position{line: 2901, col: 13, offset: 91641},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 20, offset: 91577},
+																							pos:        position{line: 2901, col: 20, offset: 91648},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 29, offset: 91586},
+																							pos:        position{line: 2901, col: 29, offset: 91657},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -11018,9 +11018,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2908, col: 8, offset: 91746},
+																				pos: position{line: 2911, col: 8, offset: 91817},
 																				expr: &anyMatcher{
-																					line: 2908, col: 9, offset: 91747,
+																					line: 2911, col: 9, offset: 91818,
 																				},
 																			},
 																		},
@@ -11117,9 +11117,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2908, col: 8, offset: 91746},
+							pos: position{line: 2911, col: 8, offset: 91817},
 							expr: &anyMatcher{
-								line: 2908, col: 9, offset: 91747,
+								line: 2911, col: 9, offset: 91818,
 							},
 						},
 					},
@@ -11191,12 +11191,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2893, col: 11, offset: 91459},
+												pos: position{line: 2896, col: 11, offset: 91530},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2893, col: 11, offset: 91459},
+													pos: position{line: 2896, col: 11, offset: 91530},
 													expr: &charClassMatcher{
-														pos:        position{line: 2893, col: 11, offset: 91459},
+														pos:        position{line: 2896, col: 11, offset: 91530},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11218,28 +11218,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2911, col: 8, offset: 91796},
+							pos: position{line: 2914, col: 8, offset: 91867},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2898, col: 12, offset: 91569},
+									pos: position{line: 2901, col: 12, offset: 91640},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2898, col: 13, offset: 91570},
+										pos: position{line: 2901, col: 13, offset: 91641},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2898, col: 13, offset: 91570},
+												pos:        position{line: 2901, col: 13, offset: 91641},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2898, col: 20, offset: 91577},
+												pos:        position{line: 2901, col: 20, offset: 91648},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2898, col: 29, offset: 91586},
+												pos:        position{line: 2901, col: 29, offset: 91657},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -11248,9 +11248,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2908, col: 8, offset: 91746},
+									pos: position{line: 2911, col: 8, offset: 91817},
 									expr: &anyMatcher{
-										line: 2908, col: 9, offset: 91747,
+										line: 2911, col: 9, offset: 91818,
 									},
 								},
 							},
@@ -11294,25 +11294,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2898, col: 12, offset: 91569},
+												pos: position{line: 2901, col: 12, offset: 91640},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2898, col: 13, offset: 91570},
+													pos: position{line: 2901, col: 13, offset: 91641},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2898, col: 13, offset: 91570},
+															pos:        position{line: 2901, col: 13, offset: 91641},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2898, col: 20, offset: 91577},
+															pos:        position{line: 2901, col: 20, offset: 91648},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2898, col: 29, offset: 91586},
+															pos:        position{line: 2901, col: 29, offset: 91657},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -11323,10 +11323,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2889, col: 10, offset: 91398},
+													pos: position{line: 2892, col: 10, offset: 91469},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2889, col: 10, offset: 91398},
+														pos:        position{line: 2892, col: 10, offset: 91469},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11396,10 +11396,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2889, col: 10, offset: 91398},
+											pos: position{line: 2892, col: 10, offset: 91469},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2889, col: 10, offset: 91398},
+												pos:        position{line: 2892, col: 10, offset: 91469},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -11408,28 +11408,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2911, col: 8, offset: 91796},
+										pos: position{line: 2914, col: 8, offset: 91867},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2898, col: 12, offset: 91569},
+												pos: position{line: 2901, col: 12, offset: 91640},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2898, col: 13, offset: 91570},
+													pos: position{line: 2901, col: 13, offset: 91641},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2898, col: 13, offset: 91570},
+															pos:        position{line: 2901, col: 13, offset: 91641},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2898, col: 20, offset: 91577},
+															pos:        position{line: 2901, col: 20, offset: 91648},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2898, col: 29, offset: 91586},
+															pos:        position{line: 2901, col: 29, offset: 91657},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -11438,9 +11438,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2908, col: 8, offset: 91746},
+												pos: position{line: 2911, col: 8, offset: 91817},
 												expr: &anyMatcher{
-													line: 2908, col: 9, offset: 91747,
+													line: 2911, col: 9, offset: 91818,
 												},
 											},
 										},
@@ -11518,10 +11518,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2889, col: 10, offset: 91398},
+										pos: position{line: 2892, col: 10, offset: 91469},
 										run: (*parser).callonAttributeDeclarationValueElement34,
 										expr: &charClassMatcher{
-											pos:        position{line: 2889, col: 10, offset: 91398},
+											pos:        position{line: 2892, col: 10, offset: 91469},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -12374,10 +12374,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 379, col: 35, offset: 11730},
 												expr: &actionExpr{
-													pos: position{line: 2889, col: 10, offset: 91398},
+													pos: position{line: 2892, col: 10, offset: 91469},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2889, col: 10, offset: 91398},
+														pos:        position{line: 2892, col: 10, offset: 91469},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12386,28 +12386,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2911, col: 8, offset: 91796},
+												pos: position{line: 2914, col: 8, offset: 91867},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2898, col: 12, offset: 91569},
+														pos: position{line: 2901, col: 12, offset: 91640},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2898, col: 13, offset: 91570},
+															pos: position{line: 2901, col: 13, offset: 91641},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2898, col: 13, offset: 91570},
+																	pos:        position{line: 2901, col: 13, offset: 91641},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 20, offset: 91577},
+																	pos:        position{line: 2901, col: 20, offset: 91648},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 29, offset: 91586},
+																	pos:        position{line: 2901, col: 29, offset: 91657},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12416,9 +12416,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2908, col: 8, offset: 91746},
+														pos: position{line: 2911, col: 8, offset: 91817},
 														expr: &anyMatcher{
-															line: 2908, col: 9, offset: 91747,
+															line: 2911, col: 9, offset: 91818,
 														},
 													},
 												},
@@ -12432,18 +12432,18 @@ var g = &grammar{
 														pos: position{line: 687, col: 14, offset: 21835},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2906, col: 11, offset: 91732},
+																pos: position{line: 2909, col: 11, offset: 91803},
 																expr: &anyMatcher{
-																	line: 2906, col: 13, offset: 91734,
+																	line: 2909, col: 13, offset: 91805,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 687, col: 21, offset: 21842},
 																expr: &actionExpr{
-																	pos: position{line: 2889, col: 10, offset: 91398},
+																	pos: position{line: 2892, col: 10, offset: 91469},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2889, col: 10, offset: 91398},
+																		pos:        position{line: 2892, col: 10, offset: 91469},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12452,28 +12452,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2911, col: 8, offset: 91796},
+																pos: position{line: 2914, col: 8, offset: 91867},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2898, col: 12, offset: 91569},
+																		pos: position{line: 2901, col: 12, offset: 91640},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2898, col: 13, offset: 91570},
+																			pos: position{line: 2901, col: 13, offset: 91641},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2898, col: 13, offset: 91570},
+																					pos:        position{line: 2901, col: 13, offset: 91641},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2898, col: 20, offset: 91577},
+																					pos:        position{line: 2901, col: 20, offset: 91648},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2898, col: 29, offset: 91586},
+																					pos:        position{line: 2901, col: 29, offset: 91657},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12482,9 +12482,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2908, col: 8, offset: 91746},
+																		pos: position{line: 2911, col: 8, offset: 91817},
 																		expr: &anyMatcher{
-																			line: 2908, col: 9, offset: 91747,
+																			line: 2911, col: 9, offset: 91818,
 																		},
 																	},
 																},
@@ -12536,12 +12536,12 @@ var g = &grammar{
 																		pos: position{line: 433, col: 9, offset: 13306},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2783, col: 14, offset: 88567},
+																				pos: position{line: 2786, col: 14, offset: 88638},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2783, col: 14, offset: 88567},
+																					pos: position{line: 2786, col: 14, offset: 88638},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2783, col: 14, offset: 88567},
+																						pos:        position{line: 2786, col: 14, offset: 88638},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12550,10 +12550,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2889, col: 10, offset: 91398},
+																				pos: position{line: 2892, col: 10, offset: 91469},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2889, col: 10, offset: 91398},
+																					pos:        position{line: 2892, col: 10, offset: 91469},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12561,27 +12561,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2806, col: 5, offset: 89052},
+																				pos: position{line: 2809, col: 5, offset: 89123},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2807, col: 9, offset: 89062},
+																					pos: position{line: 2810, col: 9, offset: 89133},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2807, col: 10, offset: 89063},
+																							pos:        position{line: 2810, col: 10, offset: 89134},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2809, col: 13, offset: 89160},
+																							pos: position{line: 2812, col: 13, offset: 89231},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2809, col: 13, offset: 89160},
+																									pos: position{line: 2812, col: 13, offset: 89231},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2812, col: 13, offset: 89260},
+																									pos:        position{line: 2815, col: 13, offset: 89331},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12589,20 +12589,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2812, col: 19, offset: 89266},
+																							pos:        position{line: 2815, col: 19, offset: 89337},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2815, col: 13, offset: 89304},
+																							pos: position{line: 2818, col: 13, offset: 89375},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2815, col: 13, offset: 89304},
+																									pos: position{line: 2818, col: 13, offset: 89375},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2818, col: 14, offset: 89397},
+																									pos:        position{line: 2821, col: 14, offset: 89468},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12611,18 +12611,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2820, col: 12, offset: 89441},
+																							pos: position{line: 2823, col: 12, offset: 89512},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2820, col: 12, offset: 89441},
+																									pos:        position{line: 2823, col: 12, offset: 89512},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2820, col: 16, offset: 89445},
+																									pos: position{line: 2823, col: 16, offset: 89516},
 																									expr: &litMatcher{
-																										pos:        position{line: 2820, col: 17, offset: 89446},
+																										pos:        position{line: 2823, col: 17, offset: 89517},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12740,10 +12740,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2828, col: 12, offset: 89706},
+																				pos: position{line: 2831, col: 12, offset: 89777},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2828, col: 12, offset: 89706},
+																					pos:        position{line: 2831, col: 12, offset: 89777},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12761,10 +12761,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 383, col: 35, offset: 11885},
 												expr: &actionExpr{
-													pos: position{line: 2889, col: 10, offset: 91398},
+													pos: position{line: 2892, col: 10, offset: 91469},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2889, col: 10, offset: 91398},
+														pos:        position{line: 2892, col: 10, offset: 91469},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12773,28 +12773,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2911, col: 8, offset: 91796},
+												pos: position{line: 2914, col: 8, offset: 91867},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2898, col: 12, offset: 91569},
+														pos: position{line: 2901, col: 12, offset: 91640},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2898, col: 13, offset: 91570},
+															pos: position{line: 2901, col: 13, offset: 91641},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2898, col: 13, offset: 91570},
+																	pos:        position{line: 2901, col: 13, offset: 91641},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 20, offset: 91577},
+																	pos:        position{line: 2901, col: 20, offset: 91648},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 29, offset: 91586},
+																	pos:        position{line: 2901, col: 29, offset: 91657},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12803,9 +12803,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2908, col: 8, offset: 91746},
+														pos: position{line: 2911, col: 8, offset: 91817},
 														expr: &anyMatcher{
-															line: 2908, col: 9, offset: 91747,
+															line: 2911, col: 9, offset: 91818,
 														},
 													},
 												},
@@ -12819,18 +12819,18 @@ var g = &grammar{
 														pos: position{line: 687, col: 14, offset: 21835},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2906, col: 11, offset: 91732},
+																pos: position{line: 2909, col: 11, offset: 91803},
 																expr: &anyMatcher{
-																	line: 2906, col: 13, offset: 91734,
+																	line: 2909, col: 13, offset: 91805,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 687, col: 21, offset: 21842},
 																expr: &actionExpr{
-																	pos: position{line: 2889, col: 10, offset: 91398},
+																	pos: position{line: 2892, col: 10, offset: 91469},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2889, col: 10, offset: 91398},
+																		pos:        position{line: 2892, col: 10, offset: 91469},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12839,28 +12839,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2911, col: 8, offset: 91796},
+																pos: position{line: 2914, col: 8, offset: 91867},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2898, col: 12, offset: 91569},
+																		pos: position{line: 2901, col: 12, offset: 91640},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2898, col: 13, offset: 91570},
+																			pos: position{line: 2901, col: 13, offset: 91641},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2898, col: 13, offset: 91570},
+																					pos:        position{line: 2901, col: 13, offset: 91641},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2898, col: 20, offset: 91577},
+																					pos:        position{line: 2901, col: 20, offset: 91648},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2898, col: 29, offset: 91586},
+																					pos:        position{line: 2901, col: 29, offset: 91657},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12869,9 +12869,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2908, col: 8, offset: 91746},
+																		pos: position{line: 2911, col: 8, offset: 91817},
 																		expr: &anyMatcher{
-																			line: 2908, col: 9, offset: 91747,
+																			line: 2911, col: 9, offset: 91818,
 																		},
 																	},
 																},
@@ -12900,10 +12900,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 387, col: 44, offset: 12018},
 												expr: &actionExpr{
-													pos: position{line: 2889, col: 10, offset: 91398},
+													pos: position{line: 2892, col: 10, offset: 91469},
 													run: (*parser).callonBlockAttributes210,
 													expr: &charClassMatcher{
-														pos:        position{line: 2889, col: 10, offset: 91398},
+														pos:        position{line: 2892, col: 10, offset: 91469},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12912,28 +12912,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2911, col: 8, offset: 91796},
+												pos: position{line: 2914, col: 8, offset: 91867},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2898, col: 12, offset: 91569},
+														pos: position{line: 2901, col: 12, offset: 91640},
 														run: (*parser).callonBlockAttributes213,
 														expr: &choiceExpr{
-															pos: position{line: 2898, col: 13, offset: 91570},
+															pos: position{line: 2901, col: 13, offset: 91641},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2898, col: 13, offset: 91570},
+																	pos:        position{line: 2901, col: 13, offset: 91641},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 20, offset: 91577},
+																	pos:        position{line: 2901, col: 20, offset: 91648},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 29, offset: 91586},
+																	pos:        position{line: 2901, col: 29, offset: 91657},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12942,9 +12942,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2908, col: 8, offset: 91746},
+														pos: position{line: 2911, col: 8, offset: 91817},
 														expr: &anyMatcher{
-															line: 2908, col: 9, offset: 91747,
+															line: 2911, col: 9, offset: 91818,
 														},
 													},
 												},
@@ -12958,18 +12958,18 @@ var g = &grammar{
 														pos: position{line: 687, col: 14, offset: 21835},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2906, col: 11, offset: 91732},
+																pos: position{line: 2909, col: 11, offset: 91803},
 																expr: &anyMatcher{
-																	line: 2906, col: 13, offset: 91734,
+																	line: 2909, col: 13, offset: 91805,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 687, col: 21, offset: 21842},
 																expr: &actionExpr{
-																	pos: position{line: 2889, col: 10, offset: 91398},
+																	pos: position{line: 2892, col: 10, offset: 91469},
 																	run: (*parser).callonBlockAttributes226,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2889, col: 10, offset: 91398},
+																		pos:        position{line: 2892, col: 10, offset: 91469},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12978,28 +12978,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2911, col: 8, offset: 91796},
+																pos: position{line: 2914, col: 8, offset: 91867},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2898, col: 12, offset: 91569},
+																		pos: position{line: 2901, col: 12, offset: 91640},
 																		run: (*parser).callonBlockAttributes229,
 																		expr: &choiceExpr{
-																			pos: position{line: 2898, col: 13, offset: 91570},
+																			pos: position{line: 2901, col: 13, offset: 91641},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2898, col: 13, offset: 91570},
+																					pos:        position{line: 2901, col: 13, offset: 91641},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2898, col: 20, offset: 91577},
+																					pos:        position{line: 2901, col: 20, offset: 91648},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2898, col: 29, offset: 91586},
+																					pos:        position{line: 2901, col: 29, offset: 91657},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -13008,9 +13008,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2908, col: 8, offset: 91746},
+																		pos: position{line: 2911, col: 8, offset: 91817},
 																		expr: &anyMatcher{
-																			line: 2908, col: 9, offset: 91747,
+																			line: 2911, col: 9, offset: 91818,
 																		},
 																	},
 																},
@@ -13258,10 +13258,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 473, col: 13, offset: 14774},
 										expr: &actionExpr{
-											pos: position{line: 2889, col: 10, offset: 91398},
+											pos: position{line: 2892, col: 10, offset: 91469},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2889, col: 10, offset: 91398},
+												pos:        position{line: 2892, col: 10, offset: 91469},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13793,10 +13793,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 525, col: 9, offset: 16356},
 													expr: &actionExpr{
-														pos: position{line: 2889, col: 10, offset: 91398},
+														pos: position{line: 2892, col: 10, offset: 91469},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2889, col: 10, offset: 91398},
+															pos:        position{line: 2892, col: 10, offset: 91469},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13857,10 +13857,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 531, col: 34, offset: 16499},
 														expr: &actionExpr{
-															pos: position{line: 2889, col: 10, offset: 91398},
+															pos: position{line: 2892, col: 10, offset: 91469},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2889, col: 10, offset: 91398},
+																pos:        position{line: 2892, col: 10, offset: 91469},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13900,10 +13900,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 536, col: 13, offset: 16663},
 												expr: &actionExpr{
-													pos: position{line: 2889, col: 10, offset: 91398},
+													pos: position{line: 2892, col: 10, offset: 91469},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2889, col: 10, offset: 91398},
+														pos:        position{line: 2892, col: 10, offset: 91469},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13926,10 +13926,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 536, col: 26, offset: 16676},
 																expr: &actionExpr{
-																	pos: position{line: 2889, col: 10, offset: 91398},
+																	pos: position{line: 2892, col: 10, offset: 91469},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2889, col: 10, offset: 91398},
+																		pos:        position{line: 2892, col: 10, offset: 91469},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13984,10 +13984,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 556, col: 22, offset: 17323},
 											expr: &actionExpr{
-												pos: position{line: 2889, col: 10, offset: 91398},
+												pos: position{line: 2892, col: 10, offset: 91469},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2889, col: 10, offset: 91398},
+													pos:        position{line: 2892, col: 10, offset: 91469},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14018,10 +14018,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 549, col: 9, offset: 17068},
 							expr: &actionExpr{
-								pos: position{line: 2889, col: 10, offset: 91398},
+								pos: position{line: 2892, col: 10, offset: 91469},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2889, col: 10, offset: 91398},
+									pos:        position{line: 2892, col: 10, offset: 91469},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14051,10 +14051,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 550, col: 33, offset: 17108},
 										expr: &actionExpr{
-											pos: position{line: 2889, col: 10, offset: 91398},
+											pos: position{line: 2892, col: 10, offset: 91469},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2889, col: 10, offset: 91398},
+												pos:        position{line: 2892, col: 10, offset: 91469},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14109,10 +14109,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 566, col: 9, offset: 17540},
 											expr: &actionExpr{
-												pos: position{line: 2889, col: 10, offset: 91398},
+												pos: position{line: 2892, col: 10, offset: 91469},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2889, col: 10, offset: 91398},
+													pos:        position{line: 2892, col: 10, offset: 91469},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14191,12 +14191,12 @@ var g = &grammar{
 							pos: position{line: 579, col: 9, offset: 17857},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2783, col: 14, offset: 88567},
+									pos: position{line: 2786, col: 14, offset: 88638},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2783, col: 14, offset: 88567},
+										pos: position{line: 2786, col: 14, offset: 88638},
 										expr: &charClassMatcher{
-											pos:        position{line: 2783, col: 14, offset: 88567},
+											pos:        position{line: 2786, col: 14, offset: 88638},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14205,10 +14205,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2889, col: 10, offset: 91398},
+									pos: position{line: 2892, col: 10, offset: 91469},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2889, col: 10, offset: 91398},
+										pos:        position{line: 2892, col: 10, offset: 91469},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14665,10 +14665,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 599, col: 14, offset: 18597},
 											expr: &actionExpr{
-												pos: position{line: 2889, col: 10, offset: 91398},
+												pos: position{line: 2892, col: 10, offset: 91469},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2889, col: 10, offset: 91398},
+													pos:        position{line: 2892, col: 10, offset: 91469},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14705,12 +14705,12 @@ var g = &grammar{
 							pos: position{line: 605, col: 9, offset: 18708},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2783, col: 14, offset: 88567},
+									pos: position{line: 2786, col: 14, offset: 88638},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2783, col: 14, offset: 88567},
+										pos: position{line: 2786, col: 14, offset: 88638},
 										expr: &charClassMatcher{
-											pos:        position{line: 2783, col: 14, offset: 88567},
+											pos:        position{line: 2786, col: 14, offset: 88638},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14719,10 +14719,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2889, col: 10, offset: 91398},
+									pos: position{line: 2892, col: 10, offset: 91469},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2889, col: 10, offset: 91398},
+										pos:        position{line: 2892, col: 10, offset: 91469},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15149,10 +15149,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 626, col: 5, offset: 19564},
 							expr: &actionExpr{
-								pos: position{line: 2889, col: 10, offset: 91398},
+								pos: position{line: 2892, col: 10, offset: 91469},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2889, col: 10, offset: 91398},
+									pos:        position{line: 2892, col: 10, offset: 91469},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15542,10 +15542,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2889, col: 10, offset: 91398},
+											pos: position{line: 2892, col: 10, offset: 91469},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2889, col: 10, offset: 91398},
+												pos:        position{line: 2892, col: 10, offset: 91469},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15573,25 +15573,25 @@ var g = &grammar{
 												pos: position{line: 634, col: 12, offset: 19997},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 2898, col: 12, offset: 91569},
+														pos: position{line: 2901, col: 12, offset: 91640},
 														run: (*parser).callonUnquotedAttributeValue90,
 														expr: &choiceExpr{
-															pos: position{line: 2898, col: 13, offset: 91570},
+															pos: position{line: 2901, col: 13, offset: 91641},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2898, col: 13, offset: 91570},
+																	pos:        position{line: 2901, col: 13, offset: 91641},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 20, offset: 91577},
+																	pos:        position{line: 2901, col: 20, offset: 91648},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 29, offset: 91586},
+																	pos:        position{line: 2901, col: 29, offset: 91657},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -15655,12 +15655,12 @@ var g = &grammar{
 									pos:   position{line: 696, col: 32, offset: 22195},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2874, col: 7, offset: 91050},
+										pos: position{line: 2877, col: 7, offset: 91121},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2874, col: 7, offset: 91050},
+											pos: position{line: 2877, col: 7, offset: 91121},
 											expr: &charClassMatcher{
-												pos:        position{line: 2874, col: 7, offset: 91050},
+												pos:        position{line: 2877, col: 7, offset: 91121},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15672,10 +15672,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 696, col: 40, offset: 22203},
 									expr: &actionExpr{
-										pos: position{line: 2889, col: 10, offset: 91398},
+										pos: position{line: 2892, col: 10, offset: 91469},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2889, col: 10, offset: 91398},
+											pos:        position{line: 2892, col: 10, offset: 91469},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15868,12 +15868,12 @@ var g = &grammar{
 									pos:   position{line: 698, col: 14, offset: 22320},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2874, col: 7, offset: 91050},
+										pos: position{line: 2877, col: 7, offset: 91121},
 										run: (*parser).callonCrossReference48,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2874, col: 7, offset: 91050},
+											pos: position{line: 2877, col: 7, offset: 91121},
 											expr: &charClassMatcher{
-												pos:        position{line: 2874, col: 7, offset: 91050},
+												pos:        position{line: 2877, col: 7, offset: 91121},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15917,41 +15917,41 @@ var g = &grammar{
 							pos:   position{line: 702, col: 35, offset: 22433},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2843, col: 17, offset: 90061},
+								pos: position{line: 2846, col: 17, offset: 90132},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2843, col: 17, offset: 90061},
+									pos:   position{line: 2846, col: 17, offset: 90132},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2860, col: 5, offset: 90515},
+										pos: position{line: 2863, col: 5, offset: 90586},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2860, col: 5, offset: 90515},
+											pos:   position{line: 2863, col: 5, offset: 90586},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2860, col: 14, offset: 90524},
+												pos: position{line: 2863, col: 14, offset: 90595},
 												expr: &choiceExpr{
-													pos: position{line: 2861, col: 9, offset: 90534},
+													pos: position{line: 2864, col: 9, offset: 90605},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2861, col: 9, offset: 90534},
+															pos: position{line: 2864, col: 9, offset: 90605},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2861, col: 9, offset: 90534},
+																pos: position{line: 2864, col: 9, offset: 90605},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2861, col: 9, offset: 90534},
+																		pos: position{line: 2864, col: 9, offset: 90605},
 																		expr: &litMatcher{
-																			pos:        position{line: 2861, col: 10, offset: 90535},
+																			pos:        position{line: 2864, col: 10, offset: 90606},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2862, col: 9, offset: 90563},
+																		pos: position{line: 2865, col: 9, offset: 90634},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2862, col: 10, offset: 90564},
+																			pos:        position{line: 2865, col: 10, offset: 90635},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15962,27 +15962,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2865, col: 11, offset: 90776},
+															pos: position{line: 2868, col: 11, offset: 90847},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2865, col: 11, offset: 90776},
+																	pos:        position{line: 2868, col: 11, offset: 90847},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2865, col: 19, offset: 90784},
+																	pos: position{line: 2868, col: 19, offset: 90855},
 																	expr: &seqExpr{
-																		pos: position{line: 2865, col: 21, offset: 90786},
+																		pos: position{line: 2868, col: 21, offset: 90857},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2865, col: 21, offset: 90786},
+																				pos: position{line: 2868, col: 21, offset: 90857},
 																				expr: &actionExpr{
-																					pos: position{line: 2889, col: 10, offset: 91398},
+																					pos: position{line: 2892, col: 10, offset: 91469},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2889, col: 10, offset: 91398},
+																						pos:        position{line: 2892, col: 10, offset: 91469},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15991,11 +15991,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2865, col: 28, offset: 90793},
+																				pos: position{line: 2868, col: 28, offset: 90864},
 																				expr: &notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -16390,10 +16390,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2868, col: 11, offset: 90913},
+															pos: position{line: 2871, col: 11, offset: 90984},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2868, col: 11, offset: 90913},
+																pos:        position{line: 2871, col: 11, offset: 90984},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16438,12 +16438,12 @@ var g = &grammar{
 							pos:   position{line: 1011, col: 11, offset: 31554},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2839, col: 14, offset: 89991},
+								pos: position{line: 2842, col: 14, offset: 90062},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2839, col: 14, offset: 89991},
+									pos: position{line: 2842, col: 14, offset: 90062},
 									expr: &charClassMatcher{
-										pos:        position{line: 2839, col: 14, offset: 89991},
+										pos:        position{line: 2842, col: 14, offset: 90062},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16453,28 +16453,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2911, col: 8, offset: 91796},
+							pos: position{line: 2914, col: 8, offset: 91867},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2898, col: 12, offset: 91569},
+									pos: position{line: 2901, col: 12, offset: 91640},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2898, col: 13, offset: 91570},
+										pos: position{line: 2901, col: 13, offset: 91641},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2898, col: 13, offset: 91570},
+												pos:        position{line: 2901, col: 13, offset: 91641},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2898, col: 20, offset: 91577},
+												pos:        position{line: 2901, col: 20, offset: 91648},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2898, col: 29, offset: 91586},
+												pos:        position{line: 2901, col: 29, offset: 91657},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16483,9 +16483,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2908, col: 8, offset: 91746},
+									pos: position{line: 2911, col: 8, offset: 91817},
 									expr: &anyMatcher{
-										line: 2908, col: 9, offset: 91747,
+										line: 2911, col: 9, offset: 91818,
 									},
 								},
 							},
@@ -16537,12 +16537,12 @@ var g = &grammar{
 													pos:   position{line: 2493, col: 49, offset: 80256},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2835, col: 13, offset: 89924},
+														pos: position{line: 2838, col: 13, offset: 89995},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2835, col: 13, offset: 89924},
+															pos: position{line: 2838, col: 13, offset: 89995},
 															expr: &charClassMatcher{
-																pos:        position{line: 2835, col: 13, offset: 89924},
+																pos:        position{line: 2838, col: 13, offset: 89995},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16552,28 +16552,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2911, col: 8, offset: 91796},
+													pos: position{line: 2914, col: 8, offset: 91867},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2898, col: 12, offset: 91569},
+															pos: position{line: 2901, col: 12, offset: 91640},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2898, col: 13, offset: 91570},
+																pos: position{line: 2901, col: 13, offset: 91641},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 13, offset: 91570},
+																		pos:        position{line: 2901, col: 13, offset: 91641},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 20, offset: 91577},
+																		pos:        position{line: 2901, col: 20, offset: 91648},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 29, offset: 91586},
+																		pos:        position{line: 2901, col: 29, offset: 91657},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16582,9 +16582,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2908, col: 8, offset: 91746},
+															pos: position{line: 2911, col: 8, offset: 91817},
 															expr: &anyMatcher{
-																line: 2908, col: 9, offset: 91747,
+																line: 2911, col: 9, offset: 91818,
 															},
 														},
 													},
@@ -16638,10 +16638,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 752, col: 8, offset: 24032},
 																	expr: &actionExpr{
-																		pos: position{line: 2889, col: 10, offset: 91398},
+																		pos: position{line: 2892, col: 10, offset: 91469},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2889, col: 10, offset: 91398},
+																			pos:        position{line: 2892, col: 10, offset: 91469},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16650,28 +16650,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16680,9 +16680,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -16754,10 +16754,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 752, col: 8, offset: 24032},
 																											expr: &actionExpr{
-																												pos: position{line: 2889, col: 10, offset: 91398},
+																												pos: position{line: 2892, col: 10, offset: 91469},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2889, col: 10, offset: 91398},
+																													pos:        position{line: 2892, col: 10, offset: 91469},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -16766,28 +16766,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2911, col: 8, offset: 91796},
+																											pos: position{line: 2914, col: 8, offset: 91867},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2898, col: 12, offset: 91569},
+																													pos: position{line: 2901, col: 12, offset: 91640},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2898, col: 13, offset: 91570},
+																														pos: position{line: 2901, col: 13, offset: 91641},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 13, offset: 91570},
+																																pos:        position{line: 2901, col: 13, offset: 91641},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 20, offset: 91577},
+																																pos:        position{line: 2901, col: 20, offset: 91648},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 29, offset: 91586},
+																																pos:        position{line: 2901, col: 29, offset: 91657},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -16796,9 +16796,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2908, col: 8, offset: 91746},
+																													pos: position{line: 2911, col: 8, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2908, col: 9, offset: 91747,
+																														line: 2911, col: 9, offset: 91818,
 																													},
 																												},
 																											},
@@ -16814,9 +16814,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -16832,21 +16832,21 @@ var g = &grammar{
 																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2906, col: 11, offset: 91732},
+																						pos: position{line: 2909, col: 11, offset: 91803},
 																						expr: &anyMatcher{
-																							line: 2906, col: 13, offset: 91734,
+																							line: 2909, col: 13, offset: 91805,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2835, col: 13, offset: 89924},
+																							pos: position{line: 2838, col: 13, offset: 89995},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2835, col: 13, offset: 89924},
+																									pos:        position{line: 2838, col: 13, offset: 89995},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16856,28 +16856,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2911, col: 8, offset: 91796},
+																						pos: position{line: 2914, col: 8, offset: 91867},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2898, col: 12, offset: 91569},
+																								pos: position{line: 2901, col: 12, offset: 91640},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2898, col: 13, offset: 91570},
+																									pos: position{line: 2901, col: 13, offset: 91641},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											pos:        position{line: 2901, col: 13, offset: 91641},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											pos:        position{line: 2901, col: 20, offset: 91648},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											pos:        position{line: 2901, col: 29, offset: 91657},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16886,9 +16886,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 8, offset: 91746},
+																								pos: position{line: 2911, col: 8, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2908, col: 9, offset: 91747,
+																									line: 2911, col: 9, offset: 91818,
 																								},
 																							},
 																						},
@@ -16953,10 +16953,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 752, col: 8, offset: 24032},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonDocumentHeader107,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -16965,28 +16965,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonDocumentHeader110,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -16995,9 +16995,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -17013,9 +17013,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2908, col: 8, offset: 91746},
+																	pos: position{line: 2911, col: 8, offset: 91817},
 																	expr: &anyMatcher{
-																		line: 2908, col: 9, offset: 91747,
+																		line: 2911, col: 9, offset: 91818,
 																	},
 																},
 															},
@@ -17066,12 +17066,12 @@ var g = &grammar{
 													pos:   position{line: 2493, col: 49, offset: 80256},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2835, col: 13, offset: 89924},
+														pos: position{line: 2838, col: 13, offset: 89995},
 														run: (*parser).callonDocumentHeader130,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2835, col: 13, offset: 89924},
+															pos: position{line: 2838, col: 13, offset: 89995},
 															expr: &charClassMatcher{
-																pos:        position{line: 2835, col: 13, offset: 89924},
+																pos:        position{line: 2838, col: 13, offset: 89995},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17081,28 +17081,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2911, col: 8, offset: 91796},
+													pos: position{line: 2914, col: 8, offset: 91867},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2898, col: 12, offset: 91569},
+															pos: position{line: 2901, col: 12, offset: 91640},
 															run: (*parser).callonDocumentHeader134,
 															expr: &choiceExpr{
-																pos: position{line: 2898, col: 13, offset: 91570},
+																pos: position{line: 2901, col: 13, offset: 91641},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 13, offset: 91570},
+																		pos:        position{line: 2901, col: 13, offset: 91641},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 20, offset: 91577},
+																		pos:        position{line: 2901, col: 20, offset: 91648},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 29, offset: 91586},
+																		pos:        position{line: 2901, col: 29, offset: 91657},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17111,9 +17111,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2908, col: 8, offset: 91746},
+															pos: position{line: 2911, col: 8, offset: 91817},
 															expr: &anyMatcher{
-																line: 2908, col: 9, offset: 91747,
+																line: 2911, col: 9, offset: 91818,
 															},
 														},
 													},
@@ -17167,10 +17167,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 752, col: 8, offset: 24032},
 																	expr: &actionExpr{
-																		pos: position{line: 2889, col: 10, offset: 91398},
+																		pos: position{line: 2892, col: 10, offset: 91469},
 																		run: (*parser).callonDocumentHeader153,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2889, col: 10, offset: 91398},
+																			pos:        position{line: 2892, col: 10, offset: 91469},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17179,28 +17179,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonDocumentHeader156,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17209,9 +17209,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -17283,10 +17283,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 752, col: 8, offset: 24032},
 																											expr: &actionExpr{
-																												pos: position{line: 2889, col: 10, offset: 91398},
+																												pos: position{line: 2892, col: 10, offset: 91469},
 																												run: (*parser).callonDocumentHeader181,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2889, col: 10, offset: 91398},
+																													pos:        position{line: 2892, col: 10, offset: 91469},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17295,28 +17295,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2911, col: 8, offset: 91796},
+																											pos: position{line: 2914, col: 8, offset: 91867},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2898, col: 12, offset: 91569},
+																													pos: position{line: 2901, col: 12, offset: 91640},
 																													run: (*parser).callonDocumentHeader184,
 																													expr: &choiceExpr{
-																														pos: position{line: 2898, col: 13, offset: 91570},
+																														pos: position{line: 2901, col: 13, offset: 91641},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 13, offset: 91570},
+																																pos:        position{line: 2901, col: 13, offset: 91641},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 20, offset: 91577},
+																																pos:        position{line: 2901, col: 20, offset: 91648},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 29, offset: 91586},
+																																pos:        position{line: 2901, col: 29, offset: 91657},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17325,9 +17325,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2908, col: 8, offset: 91746},
+																													pos: position{line: 2911, col: 8, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2908, col: 9, offset: 91747,
+																														line: 2911, col: 9, offset: 91818,
 																													},
 																												},
 																											},
@@ -17343,9 +17343,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -17361,21 +17361,21 @@ var g = &grammar{
 																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2906, col: 11, offset: 91732},
+																						pos: position{line: 2909, col: 11, offset: 91803},
 																						expr: &anyMatcher{
-																							line: 2906, col: 13, offset: 91734,
+																							line: 2909, col: 13, offset: 91805,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2835, col: 13, offset: 89924},
+																							pos: position{line: 2838, col: 13, offset: 89995},
 																							run: (*parser).callonDocumentHeader200,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2835, col: 13, offset: 89924},
+																									pos:        position{line: 2838, col: 13, offset: 89995},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17385,28 +17385,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2911, col: 8, offset: 91796},
+																						pos: position{line: 2914, col: 8, offset: 91867},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2898, col: 12, offset: 91569},
+																								pos: position{line: 2901, col: 12, offset: 91640},
 																								run: (*parser).callonDocumentHeader204,
 																								expr: &choiceExpr{
-																									pos: position{line: 2898, col: 13, offset: 91570},
+																									pos: position{line: 2901, col: 13, offset: 91641},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											pos:        position{line: 2901, col: 13, offset: 91641},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											pos:        position{line: 2901, col: 20, offset: 91648},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											pos:        position{line: 2901, col: 29, offset: 91657},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17415,9 +17415,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 8, offset: 91746},
+																								pos: position{line: 2911, col: 8, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2908, col: 9, offset: 91747,
+																									line: 2911, col: 9, offset: 91818,
 																								},
 																							},
 																						},
@@ -17482,10 +17482,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 752, col: 8, offset: 24032},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonDocumentHeader225,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -17494,28 +17494,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonDocumentHeader228,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -17524,9 +17524,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -17542,9 +17542,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2908, col: 8, offset: 91746},
+																	pos: position{line: 2911, col: 8, offset: 91817},
 																	expr: &anyMatcher{
-																		line: 2908, col: 9, offset: 91747,
+																		line: 2911, col: 9, offset: 91818,
 																	},
 																},
 															},
@@ -17589,10 +17589,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1147, col: 20, offset: 35434},
 																expr: &actionExpr{
-																	pos: position{line: 2889, col: 10, offset: 91398},
+																	pos: position{line: 2892, col: 10, offset: 91469},
 																	run: (*parser).callonDocumentHeader248,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2889, col: 10, offset: 91398},
+																		pos:        position{line: 2892, col: 10, offset: 91469},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17643,10 +17643,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1166, col: 5, offset: 36039},
 																										expr: &actionExpr{
-																											pos: position{line: 2889, col: 10, offset: 91398},
+																											pos: position{line: 2892, col: 10, offset: 91469},
 																											run: (*parser).callonDocumentHeader263,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2889, col: 10, offset: 91398},
+																												pos:        position{line: 2892, col: 10, offset: 91469},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17678,10 +17678,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1170, col: 5, offset: 36138},
 																										expr: &actionExpr{
-																											pos: position{line: 2889, col: 10, offset: 91398},
+																											pos: position{line: 2892, col: 10, offset: 91469},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2889, col: 10, offset: 91398},
+																												pos:        position{line: 2892, col: 10, offset: 91469},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17713,10 +17713,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1174, col: 5, offset: 36235},
 																										expr: &actionExpr{
-																											pos: position{line: 2889, col: 10, offset: 91398},
+																											pos: position{line: 2892, col: 10, offset: 91469},
 																											run: (*parser).callonDocumentHeader279,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2889, col: 10, offset: 91398},
+																												pos:        position{line: 2892, col: 10, offset: 91469},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17741,9 +17741,9 @@ var g = &grammar{
 																								pos: position{line: 1180, col: 5, offset: 36357},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2906, col: 11, offset: 91732},
+																										pos: position{line: 2909, col: 11, offset: 91803},
 																										expr: &anyMatcher{
-																											line: 2906, col: 13, offset: 91734,
+																											line: 2909, col: 13, offset: 91805,
 																										},
 																									},
 																									&litMatcher{
@@ -17784,10 +17784,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1152, col: 69, offset: 35627},
 																					expr: &actionExpr{
-																						pos: position{line: 2889, col: 10, offset: 91398},
+																						pos: position{line: 2892, col: 10, offset: 91469},
 																						run: (*parser).callonDocumentHeader294,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2889, col: 10, offset: 91398},
+																							pos:        position{line: 2892, col: 10, offset: 91469},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17807,10 +17807,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1152, col: 81, offset: 35639},
 																					expr: &actionExpr{
-																						pos: position{line: 2889, col: 10, offset: 91398},
+																						pos: position{line: 2892, col: 10, offset: 91469},
 																						run: (*parser).callonDocumentHeader299,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2889, col: 10, offset: 91398},
+																							pos:        position{line: 2892, col: 10, offset: 91469},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17828,28 +17828,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2911, col: 8, offset: 91796},
+																pos: position{line: 2914, col: 8, offset: 91867},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2898, col: 12, offset: 91569},
+																		pos: position{line: 2901, col: 12, offset: 91640},
 																		run: (*parser).callonDocumentHeader303,
 																		expr: &choiceExpr{
-																			pos: position{line: 2898, col: 13, offset: 91570},
+																			pos: position{line: 2901, col: 13, offset: 91641},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2898, col: 13, offset: 91570},
+																					pos:        position{line: 2901, col: 13, offset: 91641},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2898, col: 20, offset: 91577},
+																					pos:        position{line: 2901, col: 20, offset: 91648},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2898, col: 29, offset: 91586},
+																					pos:        position{line: 2901, col: 29, offset: 91657},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17858,9 +17858,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2908, col: 8, offset: 91746},
+																		pos: position{line: 2911, col: 8, offset: 91817},
 																		expr: &anyMatcher{
-																			line: 2908, col: 9, offset: 91747,
+																			line: 2911, col: 9, offset: 91818,
 																		},
 																	},
 																},
@@ -17899,12 +17899,12 @@ var g = &grammar{
 																		pos:   position{line: 2493, col: 49, offset: 80256},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2835, col: 13, offset: 89924},
+																			pos: position{line: 2838, col: 13, offset: 89995},
 																			run: (*parser).callonDocumentHeader318,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2835, col: 13, offset: 89924},
+																				pos: position{line: 2838, col: 13, offset: 89995},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2835, col: 13, offset: 89924},
+																					pos:        position{line: 2838, col: 13, offset: 89995},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17914,28 +17914,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2911, col: 8, offset: 91796},
+																		pos: position{line: 2914, col: 8, offset: 91867},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2898, col: 12, offset: 91569},
+																				pos: position{line: 2901, col: 12, offset: 91640},
 																				run: (*parser).callonDocumentHeader322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 13, offset: 91570},
+																					pos: position{line: 2901, col: 13, offset: 91641},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 13, offset: 91570},
+																							pos:        position{line: 2901, col: 13, offset: 91641},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 20, offset: 91577},
+																							pos:        position{line: 2901, col: 20, offset: 91648},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 29, offset: 91586},
+																							pos:        position{line: 2901, col: 29, offset: 91657},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17944,9 +17944,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2908, col: 8, offset: 91746},
+																				pos: position{line: 2911, col: 8, offset: 91817},
 																				expr: &anyMatcher{
-																					line: 2908, col: 9, offset: 91747,
+																					line: 2911, col: 9, offset: 91818,
 																				},
 																			},
 																		},
@@ -18000,10 +18000,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 752, col: 8, offset: 24032},
 																						expr: &actionExpr{
-																							pos: position{line: 2889, col: 10, offset: 91398},
+																							pos: position{line: 2892, col: 10, offset: 91469},
 																							run: (*parser).callonDocumentHeader341,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2889, col: 10, offset: 91398},
+																								pos:        position{line: 2892, col: 10, offset: 91469},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -18012,28 +18012,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2911, col: 8, offset: 91796},
+																						pos: position{line: 2914, col: 8, offset: 91867},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2898, col: 12, offset: 91569},
+																								pos: position{line: 2901, col: 12, offset: 91640},
 																								run: (*parser).callonDocumentHeader344,
 																								expr: &choiceExpr{
-																									pos: position{line: 2898, col: 13, offset: 91570},
+																									pos: position{line: 2901, col: 13, offset: 91641},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											pos:        position{line: 2901, col: 13, offset: 91641},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											pos:        position{line: 2901, col: 20, offset: 91648},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											pos:        position{line: 2901, col: 29, offset: 91657},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -18042,9 +18042,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 8, offset: 91746},
+																								pos: position{line: 2911, col: 8, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2908, col: 9, offset: 91747,
+																									line: 2911, col: 9, offset: 91818,
 																								},
 																							},
 																						},
@@ -18116,10 +18116,10 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 752, col: 8, offset: 24032},
 																																expr: &actionExpr{
-																																	pos: position{line: 2889, col: 10, offset: 91398},
+																																	pos: position{line: 2892, col: 10, offset: 91469},
 																																	run: (*parser).callonDocumentHeader369,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2889, col: 10, offset: 91398},
+																																		pos:        position{line: 2892, col: 10, offset: 91469},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -18128,28 +18128,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2911, col: 8, offset: 91796},
+																																pos: position{line: 2914, col: 8, offset: 91867},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2898, col: 12, offset: 91569},
+																																		pos: position{line: 2901, col: 12, offset: 91640},
 																																		run: (*parser).callonDocumentHeader372,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2898, col: 13, offset: 91570},
+																																			pos: position{line: 2901, col: 13, offset: 91641},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2898, col: 13, offset: 91570},
+																																					pos:        position{line: 2901, col: 13, offset: 91641},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2898, col: 20, offset: 91577},
+																																					pos:        position{line: 2901, col: 20, offset: 91648},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2898, col: 29, offset: 91586},
+																																					pos:        position{line: 2901, col: 29, offset: 91657},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -18158,9 +18158,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2908, col: 8, offset: 91746},
+																																		pos: position{line: 2911, col: 8, offset: 91817},
 																																		expr: &anyMatcher{
-																																			line: 2908, col: 9, offset: 91747,
+																																			line: 2911, col: 9, offset: 91818,
 																																		},
 																																	},
 																																},
@@ -18176,9 +18176,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2908, col: 8, offset: 91746},
+																										pos: position{line: 2911, col: 8, offset: 91817},
 																										expr: &anyMatcher{
-																											line: 2908, col: 9, offset: 91747,
+																											line: 2911, col: 9, offset: 91818,
 																										},
 																									},
 																								},
@@ -18194,21 +18194,21 @@ var g = &grammar{
 																									pos: position{line: 821, col: 5, offset: 26434},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2906, col: 11, offset: 91732},
+																											pos: position{line: 2909, col: 11, offset: 91803},
 																											expr: &anyMatcher{
-																												line: 2906, col: 13, offset: 91734,
+																												line: 2909, col: 13, offset: 91805,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 822, col: 5, offset: 26509},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2835, col: 13, offset: 89924},
+																												pos: position{line: 2838, col: 13, offset: 89995},
 																												run: (*parser).callonDocumentHeader388,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2835, col: 13, offset: 89924},
+																													pos: position{line: 2838, col: 13, offset: 89995},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2835, col: 13, offset: 89924},
+																														pos:        position{line: 2838, col: 13, offset: 89995},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18218,28 +18218,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2911, col: 8, offset: 91796},
+																											pos: position{line: 2914, col: 8, offset: 91867},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2898, col: 12, offset: 91569},
+																													pos: position{line: 2901, col: 12, offset: 91640},
 																													run: (*parser).callonDocumentHeader392,
 																													expr: &choiceExpr{
-																														pos: position{line: 2898, col: 13, offset: 91570},
+																														pos: position{line: 2901, col: 13, offset: 91641},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 13, offset: 91570},
+																																pos:        position{line: 2901, col: 13, offset: 91641},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 20, offset: 91577},
+																																pos:        position{line: 2901, col: 20, offset: 91648},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 29, offset: 91586},
+																																pos:        position{line: 2901, col: 29, offset: 91657},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18248,9 +18248,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2908, col: 8, offset: 91746},
+																													pos: position{line: 2911, col: 8, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2908, col: 9, offset: 91747,
+																														line: 2911, col: 9, offset: 91818,
 																													},
 																												},
 																											},
@@ -18315,10 +18315,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 752, col: 8, offset: 24032},
 																												expr: &actionExpr{
-																													pos: position{line: 2889, col: 10, offset: 91398},
+																													pos: position{line: 2892, col: 10, offset: 91469},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2889, col: 10, offset: 91398},
+																														pos:        position{line: 2892, col: 10, offset: 91469},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -18327,28 +18327,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2911, col: 8, offset: 91796},
+																												pos: position{line: 2914, col: 8, offset: 91867},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2898, col: 12, offset: 91569},
+																														pos: position{line: 2901, col: 12, offset: 91640},
 																														run: (*parser).callonDocumentHeader416,
 																														expr: &choiceExpr{
-																															pos: position{line: 2898, col: 13, offset: 91570},
+																															pos: position{line: 2901, col: 13, offset: 91641},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 13, offset: 91570},
+																																	pos:        position{line: 2901, col: 13, offset: 91641},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 20, offset: 91577},
+																																	pos:        position{line: 2901, col: 20, offset: 91648},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 29, offset: 91586},
+																																	pos:        position{line: 2901, col: 29, offset: 91657},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -18357,9 +18357,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2908, col: 8, offset: 91746},
+																														pos: position{line: 2911, col: 8, offset: 91817},
 																														expr: &anyMatcher{
-																															line: 2908, col: 9, offset: 91747,
+																															line: 2911, col: 9, offset: 91818,
 																														},
 																													},
 																												},
@@ -18375,9 +18375,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2908, col: 8, offset: 91746},
+																						pos: position{line: 2911, col: 8, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2908, col: 9, offset: 91747,
+																							line: 2911, col: 9, offset: 91818,
 																						},
 																					},
 																				},
@@ -18404,10 +18404,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1191, col: 21, offset: 36635},
 																	expr: &actionExpr{
-																		pos: position{line: 2889, col: 10, offset: 91398},
+																		pos: position{line: 2892, col: 10, offset: 91469},
 																		run: (*parser).callonDocumentHeader431,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2889, col: 10, offset: 91398},
+																			pos:        position{line: 2892, col: 10, offset: 91469},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18509,10 +18509,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1203, col: 28, offset: 37266},
 																													expr: &actionExpr{
-																														pos: position{line: 2889, col: 10, offset: 91398},
+																														pos: position{line: 2892, col: 10, offset: 91469},
 																														run: (*parser).callonDocumentHeader455,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2889, col: 10, offset: 91398},
+																															pos:        position{line: 2892, col: 10, offset: 91469},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18659,28 +18659,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonDocumentHeader487,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18689,9 +18689,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -18771,10 +18771,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 367, col: 49, offset: 11183},
 														expr: &actionExpr{
-															pos: position{line: 2889, col: 10, offset: 91398},
+															pos: position{line: 2892, col: 10, offset: 91469},
 															run: (*parser).callonDocumentHeader509,
 															expr: &charClassMatcher{
-																pos:        position{line: 2889, col: 10, offset: 91398},
+																pos:        position{line: 2892, col: 10, offset: 91469},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18783,28 +18783,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2911, col: 8, offset: 91796},
+														pos: position{line: 2914, col: 8, offset: 91867},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2898, col: 12, offset: 91569},
+																pos: position{line: 2901, col: 12, offset: 91640},
 																run: (*parser).callonDocumentHeader512,
 																expr: &choiceExpr{
-																	pos: position{line: 2898, col: 13, offset: 91570},
+																	pos: position{line: 2901, col: 13, offset: 91641},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 13, offset: 91570},
+																			pos:        position{line: 2901, col: 13, offset: 91641},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 20, offset: 91577},
+																			pos:        position{line: 2901, col: 20, offset: 91648},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 29, offset: 91586},
+																			pos:        position{line: 2901, col: 29, offset: 91657},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18813,9 +18813,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2908, col: 8, offset: 91746},
+																pos: position{line: 2911, col: 8, offset: 91817},
 																expr: &anyMatcher{
-																	line: 2908, col: 9, offset: 91747,
+																	line: 2911, col: 9, offset: 91818,
 																},
 															},
 														},
@@ -18876,10 +18876,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 369, col: 39, offset: 11304},
 														expr: &actionExpr{
-															pos: position{line: 2889, col: 10, offset: 91398},
+															pos: position{line: 2892, col: 10, offset: 91469},
 															run: (*parser).callonDocumentHeader530,
 															expr: &charClassMatcher{
-																pos:        position{line: 2889, col: 10, offset: 91398},
+																pos:        position{line: 2892, col: 10, offset: 91469},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18888,28 +18888,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2911, col: 8, offset: 91796},
+														pos: position{line: 2914, col: 8, offset: 91867},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2898, col: 12, offset: 91569},
+																pos: position{line: 2901, col: 12, offset: 91640},
 																run: (*parser).callonDocumentHeader533,
 																expr: &choiceExpr{
-																	pos: position{line: 2898, col: 13, offset: 91570},
+																	pos: position{line: 2901, col: 13, offset: 91641},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 13, offset: 91570},
+																			pos:        position{line: 2901, col: 13, offset: 91641},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 20, offset: 91577},
+																			pos:        position{line: 2901, col: 20, offset: 91648},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 29, offset: 91586},
+																			pos:        position{line: 2901, col: 29, offset: 91657},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18918,9 +18918,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2908, col: 8, offset: 91746},
+																pos: position{line: 2911, col: 8, offset: 91817},
 																expr: &anyMatcher{
-																	line: 2908, col: 9, offset: 91747,
+																	line: 2911, col: 9, offset: 91818,
 																},
 															},
 														},
@@ -18953,12 +18953,12 @@ var g = &grammar{
 														pos:   position{line: 2493, col: 49, offset: 80256},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2835, col: 13, offset: 89924},
+															pos: position{line: 2838, col: 13, offset: 89995},
 															run: (*parser).callonDocumentHeader546,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2835, col: 13, offset: 89924},
+																pos: position{line: 2838, col: 13, offset: 89995},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2835, col: 13, offset: 89924},
+																	pos:        position{line: 2838, col: 13, offset: 89995},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18968,28 +18968,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2911, col: 8, offset: 91796},
+														pos: position{line: 2914, col: 8, offset: 91867},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2898, col: 12, offset: 91569},
+																pos: position{line: 2901, col: 12, offset: 91640},
 																run: (*parser).callonDocumentHeader550,
 																expr: &choiceExpr{
-																	pos: position{line: 2898, col: 13, offset: 91570},
+																	pos: position{line: 2901, col: 13, offset: 91641},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 13, offset: 91570},
+																			pos:        position{line: 2901, col: 13, offset: 91641},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 20, offset: 91577},
+																			pos:        position{line: 2901, col: 20, offset: 91648},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 29, offset: 91586},
+																			pos:        position{line: 2901, col: 29, offset: 91657},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18998,9 +18998,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2908, col: 8, offset: 91746},
+																pos: position{line: 2911, col: 8, offset: 91817},
 																expr: &anyMatcher{
-																	line: 2908, col: 9, offset: 91747,
+																	line: 2911, col: 9, offset: 91818,
 																},
 															},
 														},
@@ -19054,10 +19054,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 752, col: 8, offset: 24032},
 																		expr: &actionExpr{
-																			pos: position{line: 2889, col: 10, offset: 91398},
+																			pos: position{line: 2892, col: 10, offset: 91469},
 																			run: (*parser).callonDocumentHeader569,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2889, col: 10, offset: 91398},
+																				pos:        position{line: 2892, col: 10, offset: 91469},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -19066,28 +19066,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2911, col: 8, offset: 91796},
+																		pos: position{line: 2914, col: 8, offset: 91867},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2898, col: 12, offset: 91569},
+																				pos: position{line: 2901, col: 12, offset: 91640},
 																				run: (*parser).callonDocumentHeader572,
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 13, offset: 91570},
+																					pos: position{line: 2901, col: 13, offset: 91641},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 13, offset: 91570},
+																							pos:        position{line: 2901, col: 13, offset: 91641},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 20, offset: 91577},
+																							pos:        position{line: 2901, col: 20, offset: 91648},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 29, offset: 91586},
+																							pos:        position{line: 2901, col: 29, offset: 91657},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -19096,9 +19096,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2908, col: 8, offset: 91746},
+																				pos: position{line: 2911, col: 8, offset: 91817},
 																				expr: &anyMatcher{
-																					line: 2908, col: 9, offset: 91747,
+																					line: 2911, col: 9, offset: 91818,
 																				},
 																			},
 																		},
@@ -19170,10 +19170,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 752, col: 8, offset: 24032},
 																												expr: &actionExpr{
-																													pos: position{line: 2889, col: 10, offset: 91398},
+																													pos: position{line: 2892, col: 10, offset: 91469},
 																													run: (*parser).callonDocumentHeader597,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2889, col: 10, offset: 91398},
+																														pos:        position{line: 2892, col: 10, offset: 91469},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -19182,28 +19182,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2911, col: 8, offset: 91796},
+																												pos: position{line: 2914, col: 8, offset: 91867},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2898, col: 12, offset: 91569},
+																														pos: position{line: 2901, col: 12, offset: 91640},
 																														run: (*parser).callonDocumentHeader600,
 																														expr: &choiceExpr{
-																															pos: position{line: 2898, col: 13, offset: 91570},
+																															pos: position{line: 2901, col: 13, offset: 91641},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 13, offset: 91570},
+																																	pos:        position{line: 2901, col: 13, offset: 91641},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 20, offset: 91577},
+																																	pos:        position{line: 2901, col: 20, offset: 91648},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2898, col: 29, offset: 91586},
+																																	pos:        position{line: 2901, col: 29, offset: 91657},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -19212,9 +19212,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2908, col: 8, offset: 91746},
+																														pos: position{line: 2911, col: 8, offset: 91817},
 																														expr: &anyMatcher{
-																															line: 2908, col: 9, offset: 91747,
+																															line: 2911, col: 9, offset: 91818,
 																														},
 																													},
 																												},
@@ -19230,9 +19230,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2908, col: 8, offset: 91746},
+																						pos: position{line: 2911, col: 8, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2908, col: 9, offset: 91747,
+																							line: 2911, col: 9, offset: 91818,
 																						},
 																					},
 																				},
@@ -19248,21 +19248,21 @@ var g = &grammar{
 																					pos: position{line: 821, col: 5, offset: 26434},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2906, col: 11, offset: 91732},
+																							pos: position{line: 2909, col: 11, offset: 91803},
 																							expr: &anyMatcher{
-																								line: 2906, col: 13, offset: 91734,
+																								line: 2909, col: 13, offset: 91805,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 822, col: 5, offset: 26509},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								run: (*parser).callonDocumentHeader616,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2835, col: 13, offset: 89924},
+																									pos: position{line: 2838, col: 13, offset: 89995},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2835, col: 13, offset: 89924},
+																										pos:        position{line: 2838, col: 13, offset: 89995},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19272,28 +19272,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonDocumentHeader620,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19302,9 +19302,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -19369,10 +19369,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 752, col: 8, offset: 24032},
 																								expr: &actionExpr{
-																									pos: position{line: 2889, col: 10, offset: 91398},
+																									pos: position{line: 2892, col: 10, offset: 91469},
 																									run: (*parser).callonDocumentHeader641,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2889, col: 10, offset: 91398},
+																										pos:        position{line: 2892, col: 10, offset: 91469},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -19381,28 +19381,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2911, col: 8, offset: 91796},
+																								pos: position{line: 2914, col: 8, offset: 91867},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2898, col: 12, offset: 91569},
+																										pos: position{line: 2901, col: 12, offset: 91640},
 																										run: (*parser).callonDocumentHeader644,
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 13, offset: 91570},
+																											pos: position{line: 2901, col: 13, offset: 91641},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 13, offset: 91570},
+																													pos:        position{line: 2901, col: 13, offset: 91641},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 20, offset: 91577},
+																													pos:        position{line: 2901, col: 20, offset: 91648},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 29, offset: 91586},
+																													pos:        position{line: 2901, col: 29, offset: 91657},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -19411,9 +19411,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2908, col: 8, offset: 91746},
+																										pos: position{line: 2911, col: 8, offset: 91817},
 																										expr: &anyMatcher{
-																											line: 2908, col: 9, offset: 91747,
+																											line: 2911, col: 9, offset: 91818,
 																										},
 																									},
 																								},
@@ -19429,9 +19429,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2908, col: 8, offset: 91746},
+																		pos: position{line: 2911, col: 8, offset: 91817},
 																		expr: &anyMatcher{
-																			line: 2908, col: 9, offset: 91747,
+																			line: 2911, col: 9, offset: 91818,
 																		},
 																	},
 																},
@@ -19465,12 +19465,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2893, col: 11, offset: 91459},
+							pos: position{line: 2896, col: 11, offset: 91530},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2893, col: 11, offset: 91459},
+								pos: position{line: 2896, col: 11, offset: 91530},
 								expr: &charClassMatcher{
-									pos:        position{line: 2893, col: 11, offset: 91459},
+									pos:        position{line: 2896, col: 11, offset: 91530},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19487,28 +19487,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2911, col: 8, offset: 91796},
+							pos: position{line: 2914, col: 8, offset: 91867},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2898, col: 12, offset: 91569},
+									pos: position{line: 2901, col: 12, offset: 91640},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2898, col: 13, offset: 91570},
+										pos: position{line: 2901, col: 13, offset: 91641},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2898, col: 13, offset: 91570},
+												pos:        position{line: 2901, col: 13, offset: 91641},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2898, col: 20, offset: 91577},
+												pos:        position{line: 2901, col: 20, offset: 91648},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2898, col: 29, offset: 91586},
+												pos:        position{line: 2901, col: 29, offset: 91657},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19517,9 +19517,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2908, col: 8, offset: 91746},
+									pos: position{line: 2911, col: 8, offset: 91817},
 									expr: &anyMatcher{
-										line: 2908, col: 9, offset: 91747,
+										line: 2911, col: 9, offset: 91818,
 									},
 								},
 							},
@@ -19558,10 +19558,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1166, col: 5, offset: 36039},
 							expr: &actionExpr{
-								pos: position{line: 2889, col: 10, offset: 91398},
+								pos: position{line: 2892, col: 10, offset: 91469},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2889, col: 10, offset: 91398},
+									pos:        position{line: 2892, col: 10, offset: 91469},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19593,10 +19593,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1170, col: 5, offset: 36138},
 							expr: &actionExpr{
-								pos: position{line: 2889, col: 10, offset: 91398},
+								pos: position{line: 2892, col: 10, offset: 91469},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2889, col: 10, offset: 91398},
+									pos:        position{line: 2892, col: 10, offset: 91469},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19628,10 +19628,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1174, col: 5, offset: 36235},
 							expr: &actionExpr{
-								pos: position{line: 2889, col: 10, offset: 91398},
+								pos: position{line: 2892, col: 10, offset: 91469},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2889, col: 10, offset: 91398},
+									pos:        position{line: 2892, col: 10, offset: 91469},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19697,12 +19697,12 @@ var g = &grammar{
 							pos:   position{line: 1302, col: 13, offset: 40437},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2874, col: 7, offset: 91050},
+								pos: position{line: 2877, col: 7, offset: 91121},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2874, col: 7, offset: 91050},
+									pos: position{line: 2877, col: 7, offset: 91121},
 									expr: &charClassMatcher{
-										pos:        position{line: 2874, col: 7, offset: 91050},
+										pos:        position{line: 2877, col: 7, offset: 91121},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19771,12 +19771,12 @@ var g = &grammar{
 							pos: position{line: 1313, col: 31, offset: 40897},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2783, col: 14, offset: 88567},
+									pos: position{line: 2786, col: 14, offset: 88638},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2783, col: 14, offset: 88567},
+										pos: position{line: 2786, col: 14, offset: 88638},
 										expr: &charClassMatcher{
-											pos:        position{line: 2783, col: 14, offset: 88567},
+											pos:        position{line: 2786, col: 14, offset: 88638},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19789,10 +19789,10 @@ var g = &grammar{
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2889, col: 10, offset: 91398},
+									pos: position{line: 2892, col: 10, offset: 91469},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2889, col: 10, offset: 91398},
+										pos:        position{line: 2892, col: 10, offset: 91469},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19912,48 +19912,48 @@ var g = &grammar{
 							pos:   position{line: 1334, col: 15, offset: 41715},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2847, col: 13, offset: 90157},
+								pos: position{line: 2850, col: 13, offset: 90228},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2847, col: 13, offset: 90157},
+									pos: position{line: 2850, col: 13, offset: 90228},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2847, col: 13, offset: 90157},
+											pos:   position{line: 2850, col: 13, offset: 90228},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2847, col: 20, offset: 90164},
+												pos: position{line: 2850, col: 20, offset: 90235},
 												expr: &actionExpr{
-													pos: position{line: 2855, col: 11, offset: 90403},
+													pos: position{line: 2858, col: 11, offset: 90474},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2855, col: 12, offset: 90404},
+														pos: position{line: 2858, col: 12, offset: 90475},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2855, col: 12, offset: 90404},
+																pos:        position{line: 2858, col: 12, offset: 90475},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2855, col: 24, offset: 90416},
+																pos:        position{line: 2858, col: 24, offset: 90487},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2855, col: 37, offset: 90429},
+																pos:        position{line: 2858, col: 37, offset: 90500},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2855, col: 48, offset: 90440},
+																pos:        position{line: 2858, col: 48, offset: 90511},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2855, col: 59, offset: 90451},
+																pos:        position{line: 2858, col: 59, offset: 90522},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19964,38 +19964,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2847, col: 30, offset: 90174},
+											pos:   position{line: 2850, col: 30, offset: 90245},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2860, col: 5, offset: 90515},
+												pos: position{line: 2863, col: 5, offset: 90586},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2860, col: 5, offset: 90515},
+													pos:   position{line: 2863, col: 5, offset: 90586},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2860, col: 14, offset: 90524},
+														pos: position{line: 2863, col: 14, offset: 90595},
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 9, offset: 90534},
+															pos: position{line: 2864, col: 9, offset: 90605},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2861, col: 9, offset: 90534},
+																	pos: position{line: 2864, col: 9, offset: 90605},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2861, col: 9, offset: 90534},
+																		pos: position{line: 2864, col: 9, offset: 90605},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2861, col: 9, offset: 90534},
+																				pos: position{line: 2864, col: 9, offset: 90605},
 																				expr: &litMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90535},
+																					pos:        position{line: 2864, col: 10, offset: 90606},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2862, col: 9, offset: 90563},
+																				pos: position{line: 2865, col: 9, offset: 90634},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2862, col: 10, offset: 90564},
+																					pos:        position{line: 2865, col: 10, offset: 90635},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20006,27 +20006,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2865, col: 11, offset: 90776},
+																	pos: position{line: 2868, col: 11, offset: 90847},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2865, col: 11, offset: 90776},
+																			pos:        position{line: 2868, col: 11, offset: 90847},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2865, col: 19, offset: 90784},
+																			pos: position{line: 2868, col: 19, offset: 90855},
 																			expr: &seqExpr{
-																				pos: position{line: 2865, col: 21, offset: 90786},
+																				pos: position{line: 2868, col: 21, offset: 90857},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2865, col: 21, offset: 90786},
+																						pos: position{line: 2868, col: 21, offset: 90857},
 																						expr: &actionExpr{
-																							pos: position{line: 2889, col: 10, offset: 91398},
+																							pos: position{line: 2892, col: 10, offset: 91469},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2889, col: 10, offset: 91398},
+																								pos:        position{line: 2892, col: 10, offset: 91469},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20035,11 +20035,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2865, col: 28, offset: 90793},
+																						pos: position{line: 2868, col: 28, offset: 90864},
 																						expr: &notExpr{
-																							pos: position{line: 2908, col: 8, offset: 91746},
+																							pos: position{line: 2911, col: 8, offset: 91817},
 																							expr: &anyMatcher{
-																								line: 2908, col: 9, offset: 91747,
+																								line: 2911, col: 9, offset: 91818,
 																							},
 																						},
 																					},
@@ -20434,10 +20434,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2868, col: 11, offset: 90913},
+																	pos: position{line: 2871, col: 11, offset: 90984},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2868, col: 11, offset: 90913},
+																		pos:        position{line: 2871, col: 11, offset: 90984},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20464,10 +20464,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1334, col: 61, offset: 41761},
 							expr: &actionExpr{
-								pos: position{line: 2889, col: 10, offset: 91398},
+								pos: position{line: 2892, col: 10, offset: 91469},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2889, col: 10, offset: 91398},
+									pos:        position{line: 2892, col: 10, offset: 91469},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20476,28 +20476,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2911, col: 8, offset: 91796},
+							pos: position{line: 2914, col: 8, offset: 91867},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2898, col: 12, offset: 91569},
+									pos: position{line: 2901, col: 12, offset: 91640},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2898, col: 13, offset: 91570},
+										pos: position{line: 2901, col: 13, offset: 91641},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2898, col: 13, offset: 91570},
+												pos:        position{line: 2901, col: 13, offset: 91641},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2898, col: 20, offset: 91577},
+												pos:        position{line: 2901, col: 20, offset: 91648},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2898, col: 29, offset: 91586},
+												pos:        position{line: 2901, col: 29, offset: 91657},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20506,9 +20506,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2908, col: 8, offset: 91746},
+									pos: position{line: 2911, col: 8, offset: 91817},
 									expr: &anyMatcher{
-										line: 2908, col: 9, offset: 91747,
+										line: 2911, col: 9, offset: 91818,
 									},
 								},
 							},
@@ -20545,48 +20545,48 @@ var g = &grammar{
 							pos:   position{line: 1339, col: 30, offset: 42007},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2847, col: 13, offset: 90157},
+								pos: position{line: 2850, col: 13, offset: 90228},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2847, col: 13, offset: 90157},
+									pos: position{line: 2850, col: 13, offset: 90228},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2847, col: 13, offset: 90157},
+											pos:   position{line: 2850, col: 13, offset: 90228},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2847, col: 20, offset: 90164},
+												pos: position{line: 2850, col: 20, offset: 90235},
 												expr: &actionExpr{
-													pos: position{line: 2855, col: 11, offset: 90403},
+													pos: position{line: 2858, col: 11, offset: 90474},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2855, col: 12, offset: 90404},
+														pos: position{line: 2858, col: 12, offset: 90475},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2855, col: 12, offset: 90404},
+																pos:        position{line: 2858, col: 12, offset: 90475},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2855, col: 24, offset: 90416},
+																pos:        position{line: 2858, col: 24, offset: 90487},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2855, col: 37, offset: 90429},
+																pos:        position{line: 2858, col: 37, offset: 90500},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2855, col: 48, offset: 90440},
+																pos:        position{line: 2858, col: 48, offset: 90511},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2855, col: 59, offset: 90451},
+																pos:        position{line: 2858, col: 59, offset: 90522},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20597,38 +20597,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2847, col: 30, offset: 90174},
+											pos:   position{line: 2850, col: 30, offset: 90245},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2860, col: 5, offset: 90515},
+												pos: position{line: 2863, col: 5, offset: 90586},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2860, col: 5, offset: 90515},
+													pos:   position{line: 2863, col: 5, offset: 90586},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2860, col: 14, offset: 90524},
+														pos: position{line: 2863, col: 14, offset: 90595},
 														expr: &choiceExpr{
-															pos: position{line: 2861, col: 9, offset: 90534},
+															pos: position{line: 2864, col: 9, offset: 90605},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2861, col: 9, offset: 90534},
+																	pos: position{line: 2864, col: 9, offset: 90605},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2861, col: 9, offset: 90534},
+																		pos: position{line: 2864, col: 9, offset: 90605},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2861, col: 9, offset: 90534},
+																				pos: position{line: 2864, col: 9, offset: 90605},
 																				expr: &litMatcher{
-																					pos:        position{line: 2861, col: 10, offset: 90535},
+																					pos:        position{line: 2864, col: 10, offset: 90606},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2862, col: 9, offset: 90563},
+																				pos: position{line: 2865, col: 9, offset: 90634},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2862, col: 10, offset: 90564},
+																					pos:        position{line: 2865, col: 10, offset: 90635},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20639,27 +20639,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2865, col: 11, offset: 90776},
+																	pos: position{line: 2868, col: 11, offset: 90847},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2865, col: 11, offset: 90776},
+																			pos:        position{line: 2868, col: 11, offset: 90847},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2865, col: 19, offset: 90784},
+																			pos: position{line: 2868, col: 19, offset: 90855},
 																			expr: &seqExpr{
-																				pos: position{line: 2865, col: 21, offset: 90786},
+																				pos: position{line: 2868, col: 21, offset: 90857},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2865, col: 21, offset: 90786},
+																						pos: position{line: 2868, col: 21, offset: 90857},
 																						expr: &actionExpr{
-																							pos: position{line: 2889, col: 10, offset: 91398},
+																							pos: position{line: 2892, col: 10, offset: 91469},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2889, col: 10, offset: 91398},
+																								pos:        position{line: 2892, col: 10, offset: 91469},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20668,11 +20668,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2865, col: 28, offset: 90793},
+																						pos: position{line: 2868, col: 28, offset: 90864},
 																						expr: &notExpr{
-																							pos: position{line: 2908, col: 8, offset: 91746},
+																							pos: position{line: 2911, col: 8, offset: 91817},
 																							expr: &anyMatcher{
-																								line: 2908, col: 9, offset: 91747,
+																								line: 2911, col: 9, offset: 91818,
 																							},
 																						},
 																					},
@@ -21067,10 +21067,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2868, col: 11, offset: 90913},
+																	pos: position{line: 2871, col: 11, offset: 90984},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2868, col: 11, offset: 90913},
+																		pos:        position{line: 2871, col: 11, offset: 90984},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21165,12 +21165,12 @@ var g = &grammar{
 							expr: &zeroOrOneExpr{
 								pos: position{line: 1353, col: 35, offset: 42915},
 								expr: &actionExpr{
-									pos: position{line: 2783, col: 14, offset: 88567},
+									pos: position{line: 2786, col: 14, offset: 88638},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2783, col: 14, offset: 88567},
+										pos: position{line: 2786, col: 14, offset: 88638},
 										expr: &charClassMatcher{
-											pos:        position{line: 2783, col: 14, offset: 88567},
+											pos:        position{line: 2786, col: 14, offset: 88638},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -21248,21 +21248,21 @@ var g = &grammar{
 								pos: position{line: 1366, col: 9, offset: 43293},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2788, col: 5, offset: 88640},
+										pos: position{line: 2791, col: 5, offset: 88711},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2788, col: 5, offset: 88640},
+											pos: position{line: 2791, col: 5, offset: 88711},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2788, col: 5, offset: 88640},
+													pos:   position{line: 2791, col: 5, offset: 88711},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2788, col: 11, offset: 88646},
+														pos: position{line: 2791, col: 11, offset: 88717},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2788, col: 11, offset: 88646},
+															pos: position{line: 2791, col: 11, offset: 88717},
 															expr: &charClassMatcher{
-																pos:        position{line: 2788, col: 11, offset: 88646},
+																pos:        position{line: 2791, col: 11, offset: 88717},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21272,36 +21272,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2791, col: 5, offset: 88704},
+													pos: position{line: 2794, col: 5, offset: 88775},
 													expr: &seqExpr{
-														pos: position{line: 2792, col: 9, offset: 88715},
+														pos: position{line: 2795, col: 9, offset: 88786},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2792, col: 9, offset: 88715},
+																pos:        position{line: 2795, col: 9, offset: 88786},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2793, col: 9, offset: 88764},
+																pos: position{line: 2796, col: 9, offset: 88835},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2797, col: 5, offset: 88844},
+													pos: position{line: 2800, col: 5, offset: 88915},
 													expr: &seqExpr{
-														pos: position{line: 2798, col: 9, offset: 88855},
+														pos: position{line: 2801, col: 9, offset: 88926},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2798, col: 9, offset: 88855},
+																pos:        position{line: 2801, col: 9, offset: 88926},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2798, col: 13, offset: 88859},
+																pos:        position{line: 2801, col: 13, offset: 88930},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21314,12 +21314,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2893, col: 11, offset: 91459},
+										pos: position{line: 2896, col: 11, offset: 91530},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2893, col: 11, offset: 91459},
+											pos: position{line: 2896, col: 11, offset: 91530},
 											expr: &charClassMatcher{
-												pos:        position{line: 2893, col: 11, offset: 91459},
+												pos:        position{line: 2896, col: 11, offset: 91530},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21333,16 +21333,20 @@ var g = &grammar{
 										expr: &seqExpr{
 											pos: position{line: 2511, col: 5, offset: 80946},
 											exprs: []interface{}{
+												&andCodeExpr{
+													pos: position{line: 2511, col: 5, offset: 80946},
+													run: (*parser).callonFootnoteElement26,
+												},
 												&litMatcher{
-													pos:        position{line: 2511, col: 5, offset: 80946},
+													pos:        position{line: 2514, col: 5, offset: 81017},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2511, col: 10, offset: 80951},
+													pos: position{line: 2514, col: 10, offset: 81022},
 													expr: &charClassMatcher{
-														pos:        position{line: 2511, col: 11, offset: 80952},
+														pos:        position{line: 2514, col: 11, offset: 81023},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21353,29 +21357,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2517, col: 5, offset: 81144},
-										run: (*parser).callonFootnoteElement29,
+										pos: position{line: 2520, col: 5, offset: 81215},
+										run: (*parser).callonFootnoteElement30,
 										expr: &seqExpr{
-											pos: position{line: 2517, col: 5, offset: 81144},
+											pos: position{line: 2520, col: 5, offset: 81215},
 											exprs: []interface{}{
-												&andCodeExpr{
-													pos: position{line: 2517, col: 5, offset: 81144},
-													run: (*parser).callonFootnoteElement31,
-												},
 												&andCodeExpr{
 													pos: position{line: 2520, col: 5, offset: 81215},
 													run: (*parser).callonFootnoteElement32,
 												},
+												&andCodeExpr{
+													pos: position{line: 2523, col: 5, offset: 81286},
+													run: (*parser).callonFootnoteElement33,
+												},
 												&litMatcher{
-													pos:        position{line: 2524, col: 5, offset: 81340},
+													pos:        position{line: 2527, col: 5, offset: 81411},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2524, col: 9, offset: 81344},
+													pos: position{line: 2527, col: 9, offset: 81415},
 													expr: &charClassMatcher{
-														pos:        position{line: 2524, col: 10, offset: 81345},
+														pos:        position{line: 2527, col: 10, offset: 81416},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21394,27 +21398,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2806, col: 5, offset: 89052},
-										run: (*parser).callonFootnoteElement38,
+										pos: position{line: 2809, col: 5, offset: 89123},
+										run: (*parser).callonFootnoteElement39,
 										expr: &choiceExpr{
-											pos: position{line: 2807, col: 9, offset: 89062},
+											pos: position{line: 2810, col: 9, offset: 89133},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2807, col: 10, offset: 89063},
+													pos:        position{line: 2810, col: 10, offset: 89134},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2809, col: 13, offset: 89160},
+													pos: position{line: 2812, col: 13, offset: 89231},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2809, col: 13, offset: 89160},
-															run: (*parser).callonFootnoteElement42,
+															pos: position{line: 2812, col: 13, offset: 89231},
+															run: (*parser).callonFootnoteElement43,
 														},
 														&litMatcher{
-															pos:        position{line: 2812, col: 13, offset: 89260},
+															pos:        position{line: 2815, col: 13, offset: 89331},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21422,20 +21426,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2812, col: 19, offset: 89266},
+													pos:        position{line: 2815, col: 19, offset: 89337},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2815, col: 13, offset: 89304},
+													pos: position{line: 2818, col: 13, offset: 89375},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2815, col: 13, offset: 89304},
-															run: (*parser).callonFootnoteElement46,
+															pos: position{line: 2818, col: 13, offset: 89375},
+															run: (*parser).callonFootnoteElement47,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2818, col: 14, offset: 89397},
+															pos:        position{line: 2821, col: 14, offset: 89468},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21444,18 +21448,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2820, col: 12, offset: 89441},
+													pos: position{line: 2823, col: 12, offset: 89512},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2820, col: 12, offset: 89441},
+															pos:        position{line: 2823, col: 12, offset: 89512},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2820, col: 16, offset: 89445},
+															pos: position{line: 2823, col: 16, offset: 89516},
 															expr: &litMatcher{
-																pos:        position{line: 2820, col: 17, offset: 89446},
+																pos:        position{line: 2823, col: 17, offset: 89517},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21472,13 +21476,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 1228, col: 5, offset: 38166},
-										run: (*parser).callonFootnoteElement53,
+										run: (*parser).callonFootnoteElement54,
 										expr: &seqExpr{
 											pos: position{line: 1228, col: 5, offset: 38166},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 1228, col: 5, offset: 38166},
-													run: (*parser).callonFootnoteElement55,
+													run: (*parser).callonFootnoteElement56,
 												},
 												&litMatcher{
 													pos:        position{line: 1231, col: 5, offset: 38242},
@@ -21488,15 +21492,15 @@ var g = &grammar{
 												},
 												&andCodeExpr{
 													pos: position{line: 1232, col: 5, offset: 38250},
-													run: (*parser).callonFootnoteElement57,
+													run: (*parser).callonFootnoteElement58,
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 1236, col: 5, offset: 38337},
 													expr: &actionExpr{
-														pos: position{line: 2889, col: 10, offset: 91398},
-														run: (*parser).callonFootnoteElement59,
+														pos: position{line: 2892, col: 10, offset: 91469},
+														run: (*parser).callonFootnoteElement60,
 														expr: &charClassMatcher{
-															pos:        position{line: 2889, col: 10, offset: 91398},
+															pos:        position{line: 2892, col: 10, offset: 91469},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21507,28 +21511,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1236, col: 12, offset: 38344},
 													expr: &choiceExpr{
-														pos: position{line: 2911, col: 8, offset: 91796},
+														pos: position{line: 2914, col: 8, offset: 91867},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2898, col: 12, offset: 91569},
-																run: (*parser).callonFootnoteElement63,
+																pos: position{line: 2901, col: 12, offset: 91640},
+																run: (*parser).callonFootnoteElement64,
 																expr: &choiceExpr{
-																	pos: position{line: 2898, col: 13, offset: 91570},
+																	pos: position{line: 2901, col: 13, offset: 91641},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 13, offset: 91570},
+																			pos:        position{line: 2901, col: 13, offset: 91641},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 20, offset: 91577},
+																			pos:        position{line: 2901, col: 20, offset: 91648},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 29, offset: 91586},
+																			pos:        position{line: 2901, col: 29, offset: 91657},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21537,9 +21541,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2908, col: 8, offset: 91746},
+																pos: position{line: 2911, col: 8, offset: 91817},
 																expr: &anyMatcher{
-																	line: 2908, col: 9, offset: 91747,
+																	line: 2911, col: 9, offset: 91818,
 																},
 															},
 														},
@@ -21550,13 +21554,13 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 646, col: 5, offset: 20455},
-										run: (*parser).callonFootnoteElement70,
+										run: (*parser).callonFootnoteElement71,
 										expr: &seqExpr{
 											pos: position{line: 646, col: 5, offset: 20455},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 646, col: 5, offset: 20455},
-													run: (*parser).callonFootnoteElement72,
+													run: (*parser).callonFootnoteElement73,
 												},
 												&labeledExpr{
 													pos:   position{line: 649, col: 5, offset: 20527},
@@ -21566,7 +21570,7 @@ var g = &grammar{
 														alternatives: []interface{}{
 															&actionExpr{
 																pos: position{line: 655, col: 5, offset: 20665},
-																run: (*parser).callonFootnoteElement75,
+																run: (*parser).callonFootnoteElement76,
 																expr: &seqExpr{
 																	pos: position{line: 655, col: 5, offset: 20665},
 																	exprs: []interface{}{
@@ -21581,7 +21585,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
-																				run: (*parser).callonFootnoteElement79,
+																				run: (*parser).callonFootnoteElement80,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
 																					exprs: []interface{}{
@@ -21619,7 +21623,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 662, col: 5, offset: 20933},
-																run: (*parser).callonFootnoteElement85,
+																run: (*parser).callonFootnoteElement86,
 																expr: &seqExpr{
 																	pos: position{line: 662, col: 5, offset: 20933},
 																	exprs: []interface{}{
@@ -21634,7 +21638,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
-																				run: (*parser).callonFootnoteElement89,
+																				run: (*parser).callonFootnoteElement90,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
 																					exprs: []interface{}{
@@ -21672,7 +21676,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 668, col: 25, offset: 21137},
-																run: (*parser).callonFootnoteElement95,
+																run: (*parser).callonFootnoteElement96,
 																expr: &seqExpr{
 																	pos: position{line: 668, col: 25, offset: 21137},
 																	exprs: []interface{}{
@@ -21687,7 +21691,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
-																				run: (*parser).callonFootnoteElement99,
+																				run: (*parser).callonFootnoteElement100,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
 																					exprs: []interface{}{
@@ -21721,7 +21725,7 @@ var g = &grammar{
 																				pos: position{line: 668, col: 62, offset: 21174},
 																				expr: &actionExpr{
 																					pos: position{line: 676, col: 17, offset: 21469},
-																					run: (*parser).callonFootnoteElement106,
+																					run: (*parser).callonFootnoteElement107,
 																					expr: &seqExpr{
 																						pos: position{line: 676, col: 17, offset: 21469},
 																						exprs: []interface{}{
@@ -21739,7 +21743,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 676, col: 28, offset: 21480},
-																											run: (*parser).callonFootnoteElement111,
+																											run: (*parser).callonFootnoteElement112,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 676, col: 28, offset: 21480},
 																												val:        "[A-Za-z]",
@@ -21750,7 +21754,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 678, col: 9, offset: 21534},
-																											run: (*parser).callonFootnoteElement113,
+																											run: (*parser).callonFootnoteElement114,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 678, col: 9, offset: 21534},
 																												expr: &charClassMatcher{
@@ -21781,7 +21785,7 @@ var g = &grammar{
 															},
 															&actionExpr{
 																pos: position{line: 672, col: 25, offset: 21308},
-																run: (*parser).callonFootnoteElement117,
+																run: (*parser).callonFootnoteElement118,
 																expr: &seqExpr{
 																	pos: position{line: 672, col: 25, offset: 21308},
 																	exprs: []interface{}{
@@ -21796,7 +21800,7 @@ var g = &grammar{
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
-																				run: (*parser).callonFootnoteElement121,
+																				run: (*parser).callonFootnoteElement122,
 																				expr: &seqExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
 																					exprs: []interface{}{
@@ -21830,7 +21834,7 @@ var g = &grammar{
 																				pos: position{line: 672, col: 63, offset: 21346},
 																				expr: &actionExpr{
 																					pos: position{line: 676, col: 17, offset: 21469},
-																					run: (*parser).callonFootnoteElement128,
+																					run: (*parser).callonFootnoteElement129,
 																					expr: &seqExpr{
 																						pos: position{line: 676, col: 17, offset: 21469},
 																						exprs: []interface{}{
@@ -21848,7 +21852,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 676, col: 28, offset: 21480},
-																											run: (*parser).callonFootnoteElement133,
+																											run: (*parser).callonFootnoteElement134,
 																											expr: &charClassMatcher{
 																												pos:        position{line: 676, col: 28, offset: 21480},
 																												val:        "[A-Za-z]",
@@ -21859,7 +21863,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 678, col: 9, offset: 21534},
-																											run: (*parser).callonFootnoteElement135,
+																											run: (*parser).callonFootnoteElement136,
 																											expr: &oneOrMoreExpr{
 																												pos: position{line: 678, col: 9, offset: 21534},
 																												expr: &charClassMatcher{
@@ -21896,20 +21900,20 @@ var g = &grammar{
 									},
 									&actionExpr{
 										pos: position{line: 2480, col: 5, offset: 79775},
-										run: (*parser).callonFootnoteElement139,
+										run: (*parser).callonFootnoteElement140,
 										expr: &seqExpr{
 											pos: position{line: 2480, col: 5, offset: 79775},
 											exprs: []interface{}{
 												&andCodeExpr{
 													pos: position{line: 2480, col: 5, offset: 79775},
-													run: (*parser).callonFootnoteElement141,
+													run: (*parser).callonFootnoteElement142,
 												},
 												&labeledExpr{
 													pos:   position{line: 2483, col: 5, offset: 79851},
 													label: "element",
 													expr: &actionExpr{
 														pos: position{line: 2484, col: 9, offset: 79869},
-														run: (*parser).callonFootnoteElement143,
+														run: (*parser).callonFootnoteElement144,
 														expr: &charClassMatcher{
 															pos:        position{line: 2484, col: 10, offset: 79870},
 															val:        "[<>&]",
@@ -21923,25 +21927,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2898, col: 12, offset: 91569},
-										run: (*parser).callonFootnoteElement145,
+										pos: position{line: 2901, col: 12, offset: 91640},
+										run: (*parser).callonFootnoteElement146,
 										expr: &choiceExpr{
-											pos: position{line: 2898, col: 13, offset: 91570},
+											pos: position{line: 2901, col: 13, offset: 91641},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2898, col: 13, offset: 91570},
+													pos:        position{line: 2901, col: 13, offset: 91641},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2898, col: 20, offset: 91577},
+													pos:        position{line: 2901, col: 20, offset: 91648},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2898, col: 29, offset: 91586},
+													pos:        position{line: 2901, col: 29, offset: 91657},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21950,10 +21954,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2828, col: 12, offset: 89706},
-										run: (*parser).callonFootnoteElement150,
+										pos: position{line: 2831, col: 12, offset: 89777},
+										run: (*parser).callonFootnoteElement151,
 										expr: &charClassMatcher{
-											pos:        position{line: 2828, col: 12, offset: 89706},
+											pos:        position{line: 2831, col: 12, offset: 89777},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -22085,55 +22089,55 @@ var g = &grammar{
 									pos:   position{line: 1428, col: 5, offset: 45999},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2851, col: 23, offset: 90284},
+										pos: position{line: 2854, col: 23, offset: 90355},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2851, col: 23, offset: 90284},
+											pos: position{line: 2854, col: 23, offset: 90355},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2851, col: 23, offset: 90284},
+													pos: position{line: 2854, col: 23, offset: 90355},
 													expr: &litMatcher{
-														pos:        position{line: 2851, col: 24, offset: 90285},
+														pos:        position{line: 2854, col: 24, offset: 90356},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2851, col: 28, offset: 90289},
+													pos:   position{line: 2854, col: 28, offset: 90360},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2855, col: 11, offset: 90403},
+														pos: position{line: 2858, col: 11, offset: 90474},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2855, col: 12, offset: 90404},
+															pos: position{line: 2858, col: 12, offset: 90475},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2855, col: 12, offset: 90404},
+																	pos:        position{line: 2858, col: 12, offset: 90475},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2855, col: 24, offset: 90416},
+																	pos:        position{line: 2858, col: 24, offset: 90487},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2855, col: 37, offset: 90429},
+																	pos:        position{line: 2858, col: 37, offset: 90500},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2855, col: 48, offset: 90440},
+																	pos:        position{line: 2858, col: 48, offset: 90511},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2855, col: 59, offset: 90451},
+																	pos:        position{line: 2858, col: 59, offset: 90522},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -22143,38 +22147,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2851, col: 44, offset: 90305},
+													pos:   position{line: 2854, col: 44, offset: 90376},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 5, offset: 90515},
+														pos: position{line: 2863, col: 5, offset: 90586},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2860, col: 5, offset: 90515},
+															pos:   position{line: 2863, col: 5, offset: 90586},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2860, col: 14, offset: 90524},
+																pos: position{line: 2863, col: 14, offset: 90595},
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 9, offset: 90534},
+																	pos: position{line: 2864, col: 9, offset: 90605},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 9, offset: 90534},
+																			pos: position{line: 2864, col: 9, offset: 90605},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2861, col: 9, offset: 90534},
+																				pos: position{line: 2864, col: 9, offset: 90605},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2861, col: 9, offset: 90534},
+																						pos: position{line: 2864, col: 9, offset: 90605},
 																						expr: &litMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90535},
+																							pos:        position{line: 2864, col: 10, offset: 90606},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2862, col: 9, offset: 90563},
+																						pos: position{line: 2865, col: 9, offset: 90634},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2862, col: 10, offset: 90564},
+																							pos:        position{line: 2865, col: 10, offset: 90635},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22185,27 +22189,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2865, col: 11, offset: 90776},
+																			pos: position{line: 2868, col: 11, offset: 90847},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2865, col: 11, offset: 90776},
+																					pos:        position{line: 2868, col: 11, offset: 90847},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2865, col: 19, offset: 90784},
+																					pos: position{line: 2868, col: 19, offset: 90855},
 																					expr: &seqExpr{
-																						pos: position{line: 2865, col: 21, offset: 90786},
+																						pos: position{line: 2868, col: 21, offset: 90857},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2865, col: 21, offset: 90786},
+																								pos: position{line: 2868, col: 21, offset: 90857},
 																								expr: &actionExpr{
-																									pos: position{line: 2889, col: 10, offset: 91398},
+																									pos: position{line: 2892, col: 10, offset: 91469},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2889, col: 10, offset: 91398},
+																										pos:        position{line: 2892, col: 10, offset: 91469},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22214,11 +22218,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2865, col: 28, offset: 90793},
+																								pos: position{line: 2868, col: 28, offset: 90864},
 																								expr: &notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -22613,10 +22617,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2868, col: 11, offset: 90913},
+																			pos: position{line: 2871, col: 11, offset: 90984},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2868, col: 11, offset: 90913},
+																				pos:        position{line: 2871, col: 11, offset: 90984},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22791,48 +22795,48 @@ var g = &grammar{
 									pos:   position{line: 1441, col: 17, offset: 46414},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2847, col: 13, offset: 90157},
+										pos: position{line: 2850, col: 13, offset: 90228},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2847, col: 13, offset: 90157},
+											pos: position{line: 2850, col: 13, offset: 90228},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2847, col: 13, offset: 90157},
+													pos:   position{line: 2850, col: 13, offset: 90228},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2847, col: 20, offset: 90164},
+														pos: position{line: 2850, col: 20, offset: 90235},
 														expr: &actionExpr{
-															pos: position{line: 2855, col: 11, offset: 90403},
+															pos: position{line: 2858, col: 11, offset: 90474},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2855, col: 12, offset: 90404},
+																pos: position{line: 2858, col: 12, offset: 90475},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2855, col: 12, offset: 90404},
+																		pos:        position{line: 2858, col: 12, offset: 90475},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2855, col: 24, offset: 90416},
+																		pos:        position{line: 2858, col: 24, offset: 90487},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2855, col: 37, offset: 90429},
+																		pos:        position{line: 2858, col: 37, offset: 90500},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2855, col: 48, offset: 90440},
+																		pos:        position{line: 2858, col: 48, offset: 90511},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2855, col: 59, offset: 90451},
+																		pos:        position{line: 2858, col: 59, offset: 90522},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22843,38 +22847,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2847, col: 30, offset: 90174},
+													pos:   position{line: 2850, col: 30, offset: 90245},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 5, offset: 90515},
+														pos: position{line: 2863, col: 5, offset: 90586},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2860, col: 5, offset: 90515},
+															pos:   position{line: 2863, col: 5, offset: 90586},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2860, col: 14, offset: 90524},
+																pos: position{line: 2863, col: 14, offset: 90595},
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 9, offset: 90534},
+																	pos: position{line: 2864, col: 9, offset: 90605},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 9, offset: 90534},
+																			pos: position{line: 2864, col: 9, offset: 90605},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2861, col: 9, offset: 90534},
+																				pos: position{line: 2864, col: 9, offset: 90605},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2861, col: 9, offset: 90534},
+																						pos: position{line: 2864, col: 9, offset: 90605},
 																						expr: &litMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90535},
+																							pos:        position{line: 2864, col: 10, offset: 90606},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2862, col: 9, offset: 90563},
+																						pos: position{line: 2865, col: 9, offset: 90634},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2862, col: 10, offset: 90564},
+																							pos:        position{line: 2865, col: 10, offset: 90635},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22885,27 +22889,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2865, col: 11, offset: 90776},
+																			pos: position{line: 2868, col: 11, offset: 90847},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2865, col: 11, offset: 90776},
+																					pos:        position{line: 2868, col: 11, offset: 90847},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2865, col: 19, offset: 90784},
+																					pos: position{line: 2868, col: 19, offset: 90855},
 																					expr: &seqExpr{
-																						pos: position{line: 2865, col: 21, offset: 90786},
+																						pos: position{line: 2868, col: 21, offset: 90857},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2865, col: 21, offset: 90786},
+																								pos: position{line: 2868, col: 21, offset: 90857},
 																								expr: &actionExpr{
-																									pos: position{line: 2889, col: 10, offset: 91398},
+																									pos: position{line: 2892, col: 10, offset: 91469},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2889, col: 10, offset: 91398},
+																										pos:        position{line: 2892, col: 10, offset: 91469},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22914,11 +22918,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2865, col: 28, offset: 90793},
+																								pos: position{line: 2868, col: 28, offset: 90864},
 																								expr: &notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -23313,10 +23317,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2868, col: 11, offset: 90913},
+																			pos: position{line: 2871, col: 11, offset: 90984},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2868, col: 11, offset: 90913},
+																				pos:        position{line: 2871, col: 11, offset: 90984},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23359,48 +23363,48 @@ var g = &grammar{
 									pos:   position{line: 1446, col: 13, offset: 46581},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2847, col: 13, offset: 90157},
+										pos: position{line: 2850, col: 13, offset: 90228},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2847, col: 13, offset: 90157},
+											pos: position{line: 2850, col: 13, offset: 90228},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2847, col: 13, offset: 90157},
+													pos:   position{line: 2850, col: 13, offset: 90228},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2847, col: 20, offset: 90164},
+														pos: position{line: 2850, col: 20, offset: 90235},
 														expr: &actionExpr{
-															pos: position{line: 2855, col: 11, offset: 90403},
+															pos: position{line: 2858, col: 11, offset: 90474},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2855, col: 12, offset: 90404},
+																pos: position{line: 2858, col: 12, offset: 90475},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2855, col: 12, offset: 90404},
+																		pos:        position{line: 2858, col: 12, offset: 90475},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2855, col: 24, offset: 90416},
+																		pos:        position{line: 2858, col: 24, offset: 90487},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2855, col: 37, offset: 90429},
+																		pos:        position{line: 2858, col: 37, offset: 90500},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2855, col: 48, offset: 90440},
+																		pos:        position{line: 2858, col: 48, offset: 90511},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2855, col: 59, offset: 90451},
+																		pos:        position{line: 2858, col: 59, offset: 90522},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23411,38 +23415,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2847, col: 30, offset: 90174},
+													pos:   position{line: 2850, col: 30, offset: 90245},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 5, offset: 90515},
+														pos: position{line: 2863, col: 5, offset: 90586},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2860, col: 5, offset: 90515},
+															pos:   position{line: 2863, col: 5, offset: 90586},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2860, col: 14, offset: 90524},
+																pos: position{line: 2863, col: 14, offset: 90595},
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 9, offset: 90534},
+																	pos: position{line: 2864, col: 9, offset: 90605},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 9, offset: 90534},
+																			pos: position{line: 2864, col: 9, offset: 90605},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2861, col: 9, offset: 90534},
+																				pos: position{line: 2864, col: 9, offset: 90605},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2861, col: 9, offset: 90534},
+																						pos: position{line: 2864, col: 9, offset: 90605},
 																						expr: &litMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90535},
+																							pos:        position{line: 2864, col: 10, offset: 90606},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2862, col: 9, offset: 90563},
+																						pos: position{line: 2865, col: 9, offset: 90634},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2862, col: 10, offset: 90564},
+																							pos:        position{line: 2865, col: 10, offset: 90635},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23453,27 +23457,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2865, col: 11, offset: 90776},
+																			pos: position{line: 2868, col: 11, offset: 90847},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2865, col: 11, offset: 90776},
+																					pos:        position{line: 2868, col: 11, offset: 90847},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2865, col: 19, offset: 90784},
+																					pos: position{line: 2868, col: 19, offset: 90855},
 																					expr: &seqExpr{
-																						pos: position{line: 2865, col: 21, offset: 90786},
+																						pos: position{line: 2868, col: 21, offset: 90857},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2865, col: 21, offset: 90786},
+																								pos: position{line: 2868, col: 21, offset: 90857},
 																								expr: &actionExpr{
-																									pos: position{line: 2889, col: 10, offset: 91398},
+																									pos: position{line: 2892, col: 10, offset: 91469},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2889, col: 10, offset: 91398},
+																										pos:        position{line: 2892, col: 10, offset: 91469},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23482,11 +23486,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2865, col: 28, offset: 90793},
+																								pos: position{line: 2868, col: 28, offset: 90864},
 																								expr: &notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -23881,10 +23885,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2868, col: 11, offset: 90913},
+																			pos: position{line: 2871, col: 11, offset: 90984},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2868, col: 11, offset: 90913},
+																				pos:        position{line: 2871, col: 11, offset: 90984},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23936,55 +23940,55 @@ var g = &grammar{
 									pos:   position{line: 1453, col: 9, offset: 46890},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2851, col: 23, offset: 90284},
+										pos: position{line: 2854, col: 23, offset: 90355},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2851, col: 23, offset: 90284},
+											pos: position{line: 2854, col: 23, offset: 90355},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2851, col: 23, offset: 90284},
+													pos: position{line: 2854, col: 23, offset: 90355},
 													expr: &litMatcher{
-														pos:        position{line: 2851, col: 24, offset: 90285},
+														pos:        position{line: 2854, col: 24, offset: 90356},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2851, col: 28, offset: 90289},
+													pos:   position{line: 2854, col: 28, offset: 90360},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2855, col: 11, offset: 90403},
+														pos: position{line: 2858, col: 11, offset: 90474},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2855, col: 12, offset: 90404},
+															pos: position{line: 2858, col: 12, offset: 90475},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2855, col: 12, offset: 90404},
+																	pos:        position{line: 2858, col: 12, offset: 90475},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2855, col: 24, offset: 90416},
+																	pos:        position{line: 2858, col: 24, offset: 90487},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2855, col: 37, offset: 90429},
+																	pos:        position{line: 2858, col: 37, offset: 90500},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2855, col: 48, offset: 90440},
+																	pos:        position{line: 2858, col: 48, offset: 90511},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2855, col: 59, offset: 90451},
+																	pos:        position{line: 2858, col: 59, offset: 90522},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23994,38 +23998,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2851, col: 44, offset: 90305},
+													pos:   position{line: 2854, col: 44, offset: 90376},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 5, offset: 90515},
+														pos: position{line: 2863, col: 5, offset: 90586},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2860, col: 5, offset: 90515},
+															pos:   position{line: 2863, col: 5, offset: 90586},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2860, col: 14, offset: 90524},
+																pos: position{line: 2863, col: 14, offset: 90595},
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 9, offset: 90534},
+																	pos: position{line: 2864, col: 9, offset: 90605},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 9, offset: 90534},
+																			pos: position{line: 2864, col: 9, offset: 90605},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2861, col: 9, offset: 90534},
+																				pos: position{line: 2864, col: 9, offset: 90605},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2861, col: 9, offset: 90534},
+																						pos: position{line: 2864, col: 9, offset: 90605},
 																						expr: &litMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90535},
+																							pos:        position{line: 2864, col: 10, offset: 90606},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2862, col: 9, offset: 90563},
+																						pos: position{line: 2865, col: 9, offset: 90634},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2862, col: 10, offset: 90564},
+																							pos:        position{line: 2865, col: 10, offset: 90635},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24036,27 +24040,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2865, col: 11, offset: 90776},
+																			pos: position{line: 2868, col: 11, offset: 90847},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2865, col: 11, offset: 90776},
+																					pos:        position{line: 2868, col: 11, offset: 90847},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2865, col: 19, offset: 90784},
+																					pos: position{line: 2868, col: 19, offset: 90855},
 																					expr: &seqExpr{
-																						pos: position{line: 2865, col: 21, offset: 90786},
+																						pos: position{line: 2868, col: 21, offset: 90857},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2865, col: 21, offset: 90786},
+																								pos: position{line: 2868, col: 21, offset: 90857},
 																								expr: &actionExpr{
-																									pos: position{line: 2889, col: 10, offset: 91398},
+																									pos: position{line: 2892, col: 10, offset: 91469},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2889, col: 10, offset: 91398},
+																										pos:        position{line: 2892, col: 10, offset: 91469},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24065,11 +24069,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2865, col: 28, offset: 90793},
+																								pos: position{line: 2868, col: 28, offset: 90864},
 																								expr: &notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -24464,10 +24468,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2868, col: 11, offset: 90913},
+																			pos: position{line: 2871, col: 11, offset: 90984},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2868, col: 11, offset: 90913},
+																				pos:        position{line: 2871, col: 11, offset: 90984},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24507,55 +24511,55 @@ var g = &grammar{
 									pos:   position{line: 1458, col: 5, offset: 47060},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2851, col: 23, offset: 90284},
+										pos: position{line: 2854, col: 23, offset: 90355},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2851, col: 23, offset: 90284},
+											pos: position{line: 2854, col: 23, offset: 90355},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2851, col: 23, offset: 90284},
+													pos: position{line: 2854, col: 23, offset: 90355},
 													expr: &litMatcher{
-														pos:        position{line: 2851, col: 24, offset: 90285},
+														pos:        position{line: 2854, col: 24, offset: 90356},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2851, col: 28, offset: 90289},
+													pos:   position{line: 2854, col: 28, offset: 90360},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2855, col: 11, offset: 90403},
+														pos: position{line: 2858, col: 11, offset: 90474},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2855, col: 12, offset: 90404},
+															pos: position{line: 2858, col: 12, offset: 90475},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2855, col: 12, offset: 90404},
+																	pos:        position{line: 2858, col: 12, offset: 90475},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2855, col: 24, offset: 90416},
+																	pos:        position{line: 2858, col: 24, offset: 90487},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2855, col: 37, offset: 90429},
+																	pos:        position{line: 2858, col: 37, offset: 90500},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2855, col: 48, offset: 90440},
+																	pos:        position{line: 2858, col: 48, offset: 90511},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2855, col: 59, offset: 90451},
+																	pos:        position{line: 2858, col: 59, offset: 90522},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24565,38 +24569,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2851, col: 44, offset: 90305},
+													pos:   position{line: 2854, col: 44, offset: 90376},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2860, col: 5, offset: 90515},
+														pos: position{line: 2863, col: 5, offset: 90586},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2860, col: 5, offset: 90515},
+															pos:   position{line: 2863, col: 5, offset: 90586},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2860, col: 14, offset: 90524},
+																pos: position{line: 2863, col: 14, offset: 90595},
 																expr: &choiceExpr{
-																	pos: position{line: 2861, col: 9, offset: 90534},
+																	pos: position{line: 2864, col: 9, offset: 90605},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2861, col: 9, offset: 90534},
+																			pos: position{line: 2864, col: 9, offset: 90605},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2861, col: 9, offset: 90534},
+																				pos: position{line: 2864, col: 9, offset: 90605},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2861, col: 9, offset: 90534},
+																						pos: position{line: 2864, col: 9, offset: 90605},
 																						expr: &litMatcher{
-																							pos:        position{line: 2861, col: 10, offset: 90535},
+																							pos:        position{line: 2864, col: 10, offset: 90606},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2862, col: 9, offset: 90563},
+																						pos: position{line: 2865, col: 9, offset: 90634},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2862, col: 10, offset: 90564},
+																							pos:        position{line: 2865, col: 10, offset: 90635},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24607,27 +24611,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2865, col: 11, offset: 90776},
+																			pos: position{line: 2868, col: 11, offset: 90847},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2865, col: 11, offset: 90776},
+																					pos:        position{line: 2868, col: 11, offset: 90847},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2865, col: 19, offset: 90784},
+																					pos: position{line: 2868, col: 19, offset: 90855},
 																					expr: &seqExpr{
-																						pos: position{line: 2865, col: 21, offset: 90786},
+																						pos: position{line: 2868, col: 21, offset: 90857},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2865, col: 21, offset: 90786},
+																								pos: position{line: 2868, col: 21, offset: 90857},
 																								expr: &actionExpr{
-																									pos: position{line: 2889, col: 10, offset: 91398},
+																									pos: position{line: 2892, col: 10, offset: 91469},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2889, col: 10, offset: 91398},
+																										pos:        position{line: 2892, col: 10, offset: 91469},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24636,11 +24640,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2865, col: 28, offset: 90793},
+																								pos: position{line: 2868, col: 28, offset: 90864},
 																								expr: &notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -25035,10 +25039,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2868, col: 11, offset: 90913},
+																			pos: position{line: 2871, col: 11, offset: 90984},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2868, col: 11, offset: 90913},
+																				pos:        position{line: 2871, col: 11, offset: 90984},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25104,10 +25108,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1599, col: 5, offset: 51603},
 																	expr: &actionExpr{
-																		pos: position{line: 2889, col: 10, offset: 91398},
+																		pos: position{line: 2892, col: 10, offset: 91469},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2889, col: 10, offset: 91398},
+																			pos:        position{line: 2892, col: 10, offset: 91469},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25274,12 +25278,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2893, col: 11, offset: 91459},
+																	pos: position{line: 2896, col: 11, offset: 91530},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2893, col: 11, offset: 91459},
+																		pos: position{line: 2896, col: 11, offset: 91530},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2893, col: 11, offset: 91459},
+																			pos:        position{line: 2896, col: 11, offset: 91530},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25322,28 +25326,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25352,9 +25356,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -25384,10 +25388,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1649, col: 5, offset: 53565},
 																	expr: &actionExpr{
-																		pos: position{line: 2889, col: 10, offset: 91398},
+																		pos: position{line: 2892, col: 10, offset: 91469},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2889, col: 10, offset: 91398},
+																			pos:        position{line: 2892, col: 10, offset: 91469},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25428,12 +25432,12 @@ var g = &grammar{
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2893, col: 11, offset: 91459},
+																	pos: position{line: 2896, col: 11, offset: 91530},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2893, col: 11, offset: 91459},
+																		pos: position{line: 2896, col: 11, offset: 91530},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2893, col: 11, offset: 91459},
+																			pos:        position{line: 2896, col: 11, offset: 91530},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25505,12 +25509,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2893, col: 11, offset: 91459},
+																		pos: position{line: 2896, col: 11, offset: 91530},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2893, col: 11, offset: 91459},
+																			pos: position{line: 2896, col: 11, offset: 91530},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2893, col: 11, offset: 91459},
+																				pos:        position{line: 2896, col: 11, offset: 91530},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25554,28 +25558,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25584,9 +25588,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -25644,12 +25648,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2893, col: 11, offset: 91459},
+																	pos: position{line: 2896, col: 11, offset: 91530},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2893, col: 11, offset: 91459},
+																		pos: position{line: 2896, col: 11, offset: 91530},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2893, col: 11, offset: 91459},
+																			pos:        position{line: 2896, col: 11, offset: 91530},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25692,28 +25696,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25722,9 +25726,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -25815,28 +25819,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1685, col: 35, offset: 54646},
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 8, offset: 91796},
+																					pos: position{line: 2914, col: 8, offset: 91867},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2898, col: 12, offset: 91569},
+																							pos: position{line: 2901, col: 12, offset: 91640},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2898, col: 13, offset: 91570},
+																								pos: position{line: 2901, col: 13, offset: 91641},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 13, offset: 91570},
+																										pos:        position{line: 2901, col: 13, offset: 91641},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 20, offset: 91577},
+																										pos:        position{line: 2901, col: 20, offset: 91648},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 29, offset: 91586},
+																										pos:        position{line: 2901, col: 29, offset: 91657},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25845,9 +25849,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2908, col: 8, offset: 91746},
+																							pos: position{line: 2911, col: 8, offset: 91817},
 																							expr: &anyMatcher{
-																								line: 2908, col: 9, offset: 91747,
+																								line: 2911, col: 9, offset: 91818,
 																							},
 																						},
 																					},
@@ -25912,10 +25916,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1703, col: 9, offset: 55151},
 																			expr: &actionExpr{
-																				pos: position{line: 2889, col: 10, offset: 91398},
+																				pos: position{line: 2892, col: 10, offset: 91469},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2889, col: 10, offset: 91398},
+																					pos:        position{line: 2892, col: 10, offset: 91469},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25924,28 +25928,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2911, col: 8, offset: 91796},
+																			pos: position{line: 2914, col: 8, offset: 91867},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2898, col: 12, offset: 91569},
+																					pos: position{line: 2901, col: 12, offset: 91640},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2898, col: 13, offset: 91570},
+																						pos: position{line: 2901, col: 13, offset: 91641},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 13, offset: 91570},
+																								pos:        position{line: 2901, col: 13, offset: 91641},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 20, offset: 91577},
+																								pos:        position{line: 2901, col: 20, offset: 91648},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 29, offset: 91586},
+																								pos:        position{line: 2901, col: 29, offset: 91657},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25954,9 +25958,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -25970,18 +25974,18 @@ var g = &grammar{
 																					pos: position{line: 687, col: 14, offset: 21835},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2906, col: 11, offset: 91732},
+																							pos: position{line: 2909, col: 11, offset: 91803},
 																							expr: &anyMatcher{
-																								line: 2906, col: 13, offset: 91734,
+																								line: 2909, col: 13, offset: 91805,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 687, col: 21, offset: 21842},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25990,28 +25994,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26020,9 +26024,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -26041,12 +26045,12 @@ var g = &grammar{
 																	pos: position{line: 1710, col: 9, offset: 55299},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2893, col: 11, offset: 91459},
+																			pos: position{line: 2896, col: 11, offset: 91530},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2893, col: 11, offset: 91459},
+																				pos: position{line: 2896, col: 11, offset: 91530},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2893, col: 11, offset: 91459},
+																					pos:        position{line: 2896, col: 11, offset: 91530},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26073,28 +26077,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2911, col: 8, offset: 91796},
+																			pos: position{line: 2914, col: 8, offset: 91867},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2898, col: 12, offset: 91569},
+																					pos: position{line: 2901, col: 12, offset: 91640},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2898, col: 13, offset: 91570},
+																						pos: position{line: 2901, col: 13, offset: 91641},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 13, offset: 91570},
+																								pos:        position{line: 2901, col: 13, offset: 91641},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 20, offset: 91577},
+																								pos:        position{line: 2901, col: 20, offset: 91648},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 29, offset: 91586},
+																								pos:        position{line: 2901, col: 29, offset: 91657},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26103,9 +26107,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -26163,9 +26167,9 @@ var g = &grammar{
 					pos: position{line: 1509, col: 5, offset: 48810},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2906, col: 11, offset: 91732},
+							pos: position{line: 2909, col: 11, offset: 91803},
 							expr: &anyMatcher{
-								line: 2906, col: 13, offset: 91734,
+								line: 2909, col: 13, offset: 91805,
 							},
 						},
 						&labeledExpr{
@@ -26189,18 +26193,18 @@ var g = &grammar{
 															pos: position{line: 687, col: 14, offset: 21835},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2906, col: 11, offset: 91732},
+																	pos: position{line: 2909, col: 11, offset: 91803},
 																	expr: &anyMatcher{
-																		line: 2906, col: 13, offset: 91734,
+																		line: 2909, col: 13, offset: 91805,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 687, col: 21, offset: 21842},
 																	expr: &actionExpr{
-																		pos: position{line: 2889, col: 10, offset: 91398},
+																		pos: position{line: 2892, col: 10, offset: 91469},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2889, col: 10, offset: 91398},
+																			pos:        position{line: 2892, col: 10, offset: 91469},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26209,28 +26213,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26239,9 +26243,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -26274,10 +26278,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1599, col: 5, offset: 51603},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26444,12 +26448,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2893, col: 11, offset: 91459},
+																							pos: position{line: 2896, col: 11, offset: 91530},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2893, col: 11, offset: 91459},
+																								pos: position{line: 2896, col: 11, offset: 91530},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2893, col: 11, offset: 91459},
+																									pos:        position{line: 2896, col: 11, offset: 91530},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26492,28 +26496,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26522,9 +26526,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -26554,10 +26558,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1649, col: 5, offset: 53565},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26598,12 +26602,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2893, col: 11, offset: 91459},
+																							pos: position{line: 2896, col: 11, offset: 91530},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2893, col: 11, offset: 91459},
+																								pos: position{line: 2896, col: 11, offset: 91530},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2893, col: 11, offset: 91459},
+																									pos:        position{line: 2896, col: 11, offset: 91530},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26675,12 +26679,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2893, col: 11, offset: 91459},
+																								pos: position{line: 2896, col: 11, offset: 91530},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2893, col: 11, offset: 91459},
+																									pos: position{line: 2896, col: 11, offset: 91530},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2893, col: 11, offset: 91459},
+																										pos:        position{line: 2896, col: 11, offset: 91530},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26724,28 +26728,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26754,9 +26758,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -26814,12 +26818,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2893, col: 11, offset: 91459},
+																							pos: position{line: 2896, col: 11, offset: 91530},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2893, col: 11, offset: 91459},
+																								pos: position{line: 2896, col: 11, offset: 91530},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2893, col: 11, offset: 91459},
+																									pos:        position{line: 2896, col: 11, offset: 91530},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26862,28 +26866,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26892,9 +26896,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -26985,28 +26989,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1685, col: 35, offset: 54646},
 																										expr: &choiceExpr{
-																											pos: position{line: 2911, col: 8, offset: 91796},
+																											pos: position{line: 2914, col: 8, offset: 91867},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2898, col: 12, offset: 91569},
+																													pos: position{line: 2901, col: 12, offset: 91640},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2898, col: 13, offset: 91570},
+																														pos: position{line: 2901, col: 13, offset: 91641},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 13, offset: 91570},
+																																pos:        position{line: 2901, col: 13, offset: 91641},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 20, offset: 91577},
+																																pos:        position{line: 2901, col: 20, offset: 91648},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 29, offset: 91586},
+																																pos:        position{line: 2901, col: 29, offset: 91657},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27015,9 +27019,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2908, col: 8, offset: 91746},
+																													pos: position{line: 2911, col: 8, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2908, col: 9, offset: 91747,
+																														line: 2911, col: 9, offset: 91818,
 																													},
 																												},
 																											},
@@ -27082,10 +27086,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1703, col: 9, offset: 55151},
 																									expr: &actionExpr{
-																										pos: position{line: 2889, col: 10, offset: 91398},
+																										pos: position{line: 2892, col: 10, offset: 91469},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2889, col: 10, offset: 91398},
+																											pos:        position{line: 2892, col: 10, offset: 91469},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27094,28 +27098,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2911, col: 8, offset: 91796},
+																									pos: position{line: 2914, col: 8, offset: 91867},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2898, col: 12, offset: 91569},
+																											pos: position{line: 2901, col: 12, offset: 91640},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2898, col: 13, offset: 91570},
+																												pos: position{line: 2901, col: 13, offset: 91641},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2898, col: 13, offset: 91570},
+																														pos:        position{line: 2901, col: 13, offset: 91641},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2898, col: 20, offset: 91577},
+																														pos:        position{line: 2901, col: 20, offset: 91648},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2898, col: 29, offset: 91586},
+																														pos:        position{line: 2901, col: 29, offset: 91657},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27124,9 +27128,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2908, col: 8, offset: 91746},
+																											pos: position{line: 2911, col: 8, offset: 91817},
 																											expr: &anyMatcher{
-																												line: 2908, col: 9, offset: 91747,
+																												line: 2911, col: 9, offset: 91818,
 																											},
 																										},
 																									},
@@ -27140,18 +27144,18 @@ var g = &grammar{
 																											pos: position{line: 687, col: 14, offset: 21835},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2906, col: 11, offset: 91732},
+																													pos: position{line: 2909, col: 11, offset: 91803},
 																													expr: &anyMatcher{
-																														line: 2906, col: 13, offset: 91734,
+																														line: 2909, col: 13, offset: 91805,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 687, col: 21, offset: 21842},
 																													expr: &actionExpr{
-																														pos: position{line: 2889, col: 10, offset: 91398},
+																														pos: position{line: 2892, col: 10, offset: 91469},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2889, col: 10, offset: 91398},
+																															pos:        position{line: 2892, col: 10, offset: 91469},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27160,28 +27164,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2911, col: 8, offset: 91796},
+																													pos: position{line: 2914, col: 8, offset: 91867},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2898, col: 12, offset: 91569},
+																															pos: position{line: 2901, col: 12, offset: 91640},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2898, col: 13, offset: 91570},
+																																pos: position{line: 2901, col: 13, offset: 91641},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2898, col: 13, offset: 91570},
+																																		pos:        position{line: 2901, col: 13, offset: 91641},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2898, col: 20, offset: 91577},
+																																		pos:        position{line: 2901, col: 20, offset: 91648},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2898, col: 29, offset: 91586},
+																																		pos:        position{line: 2901, col: 29, offset: 91657},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27190,9 +27194,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2908, col: 8, offset: 91746},
+																															pos: position{line: 2911, col: 8, offset: 91817},
 																															expr: &anyMatcher{
-																																line: 2908, col: 9, offset: 91747,
+																																line: 2911, col: 9, offset: 91818,
 																															},
 																														},
 																													},
@@ -27211,12 +27215,12 @@ var g = &grammar{
 																							pos: position{line: 1710, col: 9, offset: 55299},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2893, col: 11, offset: 91459},
+																									pos: position{line: 2896, col: 11, offset: 91530},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2893, col: 11, offset: 91459},
+																										pos: position{line: 2896, col: 11, offset: 91530},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2893, col: 11, offset: 91459},
+																											pos:        position{line: 2896, col: 11, offset: 91530},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27243,28 +27247,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2911, col: 8, offset: 91796},
+																									pos: position{line: 2914, col: 8, offset: 91867},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2898, col: 12, offset: 91569},
+																											pos: position{line: 2901, col: 12, offset: 91640},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2898, col: 13, offset: 91570},
+																												pos: position{line: 2901, col: 13, offset: 91641},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2898, col: 13, offset: 91570},
+																														pos:        position{line: 2901, col: 13, offset: 91641},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2898, col: 20, offset: 91577},
+																														pos:        position{line: 2901, col: 20, offset: 91648},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2898, col: 29, offset: 91586},
+																														pos:        position{line: 2901, col: 29, offset: 91657},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27273,9 +27277,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2908, col: 8, offset: 91746},
+																											pos: position{line: 2911, col: 8, offset: 91817},
 																											expr: &anyMatcher{
-																												line: 2908, col: 9, offset: 91747,
+																												line: 2911, col: 9, offset: 91818,
 																											},
 																										},
 																									},
@@ -27336,10 +27340,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1599, col: 5, offset: 51603},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27506,12 +27510,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2893, col: 11, offset: 91459},
+																							pos: position{line: 2896, col: 11, offset: 91530},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2893, col: 11, offset: 91459},
+																								pos: position{line: 2896, col: 11, offset: 91530},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2893, col: 11, offset: 91459},
+																									pos:        position{line: 2896, col: 11, offset: 91530},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27554,28 +27558,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27584,9 +27588,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -27616,10 +27620,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 1649, col: 5, offset: 53565},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27660,12 +27664,12 @@ var g = &grammar{
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2893, col: 11, offset: 91459},
+																							pos: position{line: 2896, col: 11, offset: 91530},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2893, col: 11, offset: 91459},
+																								pos: position{line: 2896, col: 11, offset: 91530},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2893, col: 11, offset: 91459},
+																									pos:        position{line: 2896, col: 11, offset: 91530},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27737,12 +27741,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2893, col: 11, offset: 91459},
+																								pos: position{line: 2896, col: 11, offset: 91530},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2893, col: 11, offset: 91459},
+																									pos: position{line: 2896, col: 11, offset: 91530},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2893, col: 11, offset: 91459},
+																										pos:        position{line: 2896, col: 11, offset: 91530},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27786,28 +27790,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27816,9 +27820,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -27876,12 +27880,12 @@ var g = &grammar{
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2893, col: 11, offset: 91459},
+																							pos: position{line: 2896, col: 11, offset: 91530},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2893, col: 11, offset: 91459},
+																								pos: position{line: 2896, col: 11, offset: 91530},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2893, col: 11, offset: 91459},
+																									pos:        position{line: 2896, col: 11, offset: 91530},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27924,28 +27928,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27954,9 +27958,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -28047,28 +28051,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1685, col: 35, offset: 54646},
 																										expr: &choiceExpr{
-																											pos: position{line: 2911, col: 8, offset: 91796},
+																											pos: position{line: 2914, col: 8, offset: 91867},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2898, col: 12, offset: 91569},
+																													pos: position{line: 2901, col: 12, offset: 91640},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2898, col: 13, offset: 91570},
+																														pos: position{line: 2901, col: 13, offset: 91641},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 13, offset: 91570},
+																																pos:        position{line: 2901, col: 13, offset: 91641},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 20, offset: 91577},
+																																pos:        position{line: 2901, col: 20, offset: 91648},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 29, offset: 91586},
+																																pos:        position{line: 2901, col: 29, offset: 91657},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -28077,9 +28081,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2908, col: 8, offset: 91746},
+																													pos: position{line: 2911, col: 8, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2908, col: 9, offset: 91747,
+																														line: 2911, col: 9, offset: 91818,
 																													},
 																												},
 																											},
@@ -28144,10 +28148,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 1703, col: 9, offset: 55151},
 																									expr: &actionExpr{
-																										pos: position{line: 2889, col: 10, offset: 91398},
+																										pos: position{line: 2892, col: 10, offset: 91469},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2889, col: 10, offset: 91398},
+																											pos:        position{line: 2892, col: 10, offset: 91469},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28156,28 +28160,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2911, col: 8, offset: 91796},
+																									pos: position{line: 2914, col: 8, offset: 91867},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2898, col: 12, offset: 91569},
+																											pos: position{line: 2901, col: 12, offset: 91640},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2898, col: 13, offset: 91570},
+																												pos: position{line: 2901, col: 13, offset: 91641},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2898, col: 13, offset: 91570},
+																														pos:        position{line: 2901, col: 13, offset: 91641},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2898, col: 20, offset: 91577},
+																														pos:        position{line: 2901, col: 20, offset: 91648},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2898, col: 29, offset: 91586},
+																														pos:        position{line: 2901, col: 29, offset: 91657},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28186,9 +28190,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2908, col: 8, offset: 91746},
+																											pos: position{line: 2911, col: 8, offset: 91817},
 																											expr: &anyMatcher{
-																												line: 2908, col: 9, offset: 91747,
+																												line: 2911, col: 9, offset: 91818,
 																											},
 																										},
 																									},
@@ -28202,18 +28206,18 @@ var g = &grammar{
 																											pos: position{line: 687, col: 14, offset: 21835},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2906, col: 11, offset: 91732},
+																													pos: position{line: 2909, col: 11, offset: 91803},
 																													expr: &anyMatcher{
-																														line: 2906, col: 13, offset: 91734,
+																														line: 2909, col: 13, offset: 91805,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 687, col: 21, offset: 21842},
 																													expr: &actionExpr{
-																														pos: position{line: 2889, col: 10, offset: 91398},
+																														pos: position{line: 2892, col: 10, offset: 91469},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2889, col: 10, offset: 91398},
+																															pos:        position{line: 2892, col: 10, offset: 91469},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -28222,28 +28226,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2911, col: 8, offset: 91796},
+																													pos: position{line: 2914, col: 8, offset: 91867},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2898, col: 12, offset: 91569},
+																															pos: position{line: 2901, col: 12, offset: 91640},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2898, col: 13, offset: 91570},
+																																pos: position{line: 2901, col: 13, offset: 91641},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2898, col: 13, offset: 91570},
+																																		pos:        position{line: 2901, col: 13, offset: 91641},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2898, col: 20, offset: 91577},
+																																		pos:        position{line: 2901, col: 20, offset: 91648},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2898, col: 29, offset: 91586},
+																																		pos:        position{line: 2901, col: 29, offset: 91657},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28252,9 +28256,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2908, col: 8, offset: 91746},
+																															pos: position{line: 2911, col: 8, offset: 91817},
 																															expr: &anyMatcher{
-																																line: 2908, col: 9, offset: 91747,
+																																line: 2911, col: 9, offset: 91818,
 																															},
 																														},
 																													},
@@ -28273,12 +28277,12 @@ var g = &grammar{
 																							pos: position{line: 1710, col: 9, offset: 55299},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2893, col: 11, offset: 91459},
+																									pos: position{line: 2896, col: 11, offset: 91530},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2893, col: 11, offset: 91459},
+																										pos: position{line: 2896, col: 11, offset: 91530},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2893, col: 11, offset: 91459},
+																											pos:        position{line: 2896, col: 11, offset: 91530},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28305,28 +28309,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2911, col: 8, offset: 91796},
+																									pos: position{line: 2914, col: 8, offset: 91867},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2898, col: 12, offset: 91569},
+																											pos: position{line: 2901, col: 12, offset: 91640},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2898, col: 13, offset: 91570},
+																												pos: position{line: 2901, col: 13, offset: 91641},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2898, col: 13, offset: 91570},
+																														pos:        position{line: 2901, col: 13, offset: 91641},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2898, col: 20, offset: 91577},
+																														pos:        position{line: 2901, col: 20, offset: 91648},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2898, col: 29, offset: 91586},
+																														pos:        position{line: 2901, col: 29, offset: 91657},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28335,9 +28339,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2908, col: 8, offset: 91746},
+																											pos: position{line: 2911, col: 8, offset: 91817},
 																											expr: &anyMatcher{
-																												line: 2908, col: 9, offset: 91747,
+																												line: 2911, col: 9, offset: 91818,
 																											},
 																										},
 																									},
@@ -28386,12 +28390,12 @@ var g = &grammar{
 													pos:   position{line: 2493, col: 49, offset: 80256},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2835, col: 13, offset: 89924},
+														pos: position{line: 2838, col: 13, offset: 89995},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2835, col: 13, offset: 89924},
+															pos: position{line: 2838, col: 13, offset: 89995},
 															expr: &charClassMatcher{
-																pos:        position{line: 2835, col: 13, offset: 89924},
+																pos:        position{line: 2838, col: 13, offset: 89995},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28401,28 +28405,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2911, col: 8, offset: 91796},
+													pos: position{line: 2914, col: 8, offset: 91867},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2898, col: 12, offset: 91569},
+															pos: position{line: 2901, col: 12, offset: 91640},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2898, col: 13, offset: 91570},
+																pos: position{line: 2901, col: 13, offset: 91641},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 13, offset: 91570},
+																		pos:        position{line: 2901, col: 13, offset: 91641},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 20, offset: 91577},
+																		pos:        position{line: 2901, col: 20, offset: 91648},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 29, offset: 91586},
+																		pos:        position{line: 2901, col: 29, offset: 91657},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28431,9 +28435,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2908, col: 8, offset: 91746},
+															pos: position{line: 2911, col: 8, offset: 91817},
 															expr: &anyMatcher{
-																line: 2908, col: 9, offset: 91747,
+																line: 2911, col: 9, offset: 91818,
 															},
 														},
 													},
@@ -28456,18 +28460,18 @@ var g = &grammar{
 															pos: position{line: 687, col: 14, offset: 21835},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2906, col: 11, offset: 91732},
+																	pos: position{line: 2909, col: 11, offset: 91803},
 																	expr: &anyMatcher{
-																		line: 2906, col: 13, offset: 91734,
+																		line: 2909, col: 13, offset: 91805,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 687, col: 21, offset: 21842},
 																	expr: &actionExpr{
-																		pos: position{line: 2889, col: 10, offset: 91398},
+																		pos: position{line: 2892, col: 10, offset: 91469},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2889, col: 10, offset: 91398},
+																			pos:        position{line: 2892, col: 10, offset: 91469},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28476,28 +28480,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28506,9 +28510,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -28531,10 +28535,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1558, col: 31, offset: 50388},
 																expr: &actionExpr{
-																	pos: position{line: 2889, col: 10, offset: 91398},
+																	pos: position{line: 2892, col: 10, offset: 91469},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2889, col: 10, offset: 91398},
+																		pos:        position{line: 2892, col: 10, offset: 91469},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28543,25 +28547,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2898, col: 12, offset: 91569},
+																pos: position{line: 2901, col: 12, offset: 91640},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2898, col: 13, offset: 91570},
+																	pos: position{line: 2901, col: 13, offset: 91641},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 13, offset: 91570},
+																			pos:        position{line: 2901, col: 13, offset: 91641},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 20, offset: 91577},
+																			pos:        position{line: 2901, col: 20, offset: 91648},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2898, col: 29, offset: 91586},
+																			pos:        position{line: 2901, col: 29, offset: 91657},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28583,10 +28587,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1599, col: 5, offset: 51603},
 																	expr: &actionExpr{
-																		pos: position{line: 2889, col: 10, offset: 91398},
+																		pos: position{line: 2892, col: 10, offset: 91469},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2889, col: 10, offset: 91398},
+																			pos:        position{line: 2892, col: 10, offset: 91469},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28753,12 +28757,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2893, col: 11, offset: 91459},
+																	pos: position{line: 2896, col: 11, offset: 91530},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2893, col: 11, offset: 91459},
+																		pos: position{line: 2896, col: 11, offset: 91530},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2893, col: 11, offset: 91459},
+																			pos:        position{line: 2896, col: 11, offset: 91530},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28781,10 +28785,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1649, col: 5, offset: 53565},
 																	expr: &actionExpr{
-																		pos: position{line: 2889, col: 10, offset: 91398},
+																		pos: position{line: 2892, col: 10, offset: 91469},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2889, col: 10, offset: 91398},
+																			pos:        position{line: 2892, col: 10, offset: 91469},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28825,12 +28829,12 @@ var g = &grammar{
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2893, col: 11, offset: 91459},
+																	pos: position{line: 2896, col: 11, offset: 91530},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2893, col: 11, offset: 91459},
+																		pos: position{line: 2896, col: 11, offset: 91530},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2893, col: 11, offset: 91459},
+																			pos:        position{line: 2896, col: 11, offset: 91530},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28881,12 +28885,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2893, col: 11, offset: 91459},
+																	pos: position{line: 2896, col: 11, offset: 91530},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2893, col: 11, offset: 91459},
+																		pos: position{line: 2896, col: 11, offset: 91530},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2893, col: 11, offset: 91459},
+																			pos:        position{line: 2896, col: 11, offset: 91530},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28973,28 +28977,28 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1685, col: 35, offset: 54646},
 																						expr: &choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29003,9 +29007,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -29064,7 +29068,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 734, col: 5, offset: 23388},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2779, col: 13, offset: 88493},
+																		pos:        position{line: 2782, col: 13, offset: 88564},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -29114,10 +29118,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 752, col: 8, offset: 24032},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29126,28 +29130,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29156,9 +29160,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -29203,10 +29207,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 759, col: 8, offset: 24280},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29215,28 +29219,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29245,9 +29249,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -29288,10 +29292,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 770, col: 52, offset: 24692},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29300,28 +29304,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29330,9 +29334,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -29377,10 +29381,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 766, col: 8, offset: 24526},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29389,28 +29393,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29419,9 +29423,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -29466,10 +29470,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 781, col: 8, offset: 25064},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29478,28 +29482,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29508,9 +29512,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -29555,10 +29559,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 795, col: 8, offset: 25540},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29567,28 +29571,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29597,9 +29601,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -29644,10 +29648,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 802, col: 8, offset: 25792},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29656,28 +29660,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29686,9 +29690,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -29733,10 +29737,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 809, col: 8, offset: 26042},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29745,28 +29749,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29775,9 +29779,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -29822,10 +29826,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 816, col: 8, offset: 26288},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29834,28 +29838,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29864,9 +29868,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -29885,12 +29889,12 @@ var g = &grammar{
 													pos:   position{line: 1534, col: 5, offset: 49756},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2839, col: 14, offset: 89991},
+														pos: position{line: 2842, col: 14, offset: 90062},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2839, col: 14, offset: 89991},
+															pos: position{line: 2842, col: 14, offset: 90062},
 															expr: &charClassMatcher{
-																pos:        position{line: 2839, col: 14, offset: 89991},
+																pos:        position{line: 2842, col: 14, offset: 90062},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29900,28 +29904,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2911, col: 8, offset: 91796},
+													pos: position{line: 2914, col: 8, offset: 91867},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2898, col: 12, offset: 91569},
+															pos: position{line: 2901, col: 12, offset: 91640},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2898, col: 13, offset: 91570},
+																pos: position{line: 2901, col: 13, offset: 91641},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 13, offset: 91570},
+																		pos:        position{line: 2901, col: 13, offset: 91641},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 20, offset: 91577},
+																		pos:        position{line: 2901, col: 20, offset: 91648},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 29, offset: 91586},
+																		pos:        position{line: 2901, col: 29, offset: 91657},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29930,9 +29934,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2908, col: 8, offset: 91746},
+															pos: position{line: 2911, col: 8, offset: 91817},
 															expr: &anyMatcher{
-																line: 2908, col: 9, offset: 91747,
+																line: 2911, col: 9, offset: 91818,
 															},
 														},
 													},
@@ -29967,10 +29971,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 1551, col: 13, offset: 50180},
 											expr: &actionExpr{
-												pos: position{line: 2889, col: 10, offset: 91398},
+												pos: position{line: 2892, col: 10, offset: 91469},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2889, col: 10, offset: 91398},
+													pos:        position{line: 2892, col: 10, offset: 91469},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29979,25 +29983,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2898, col: 12, offset: 91569},
+											pos: position{line: 2901, col: 12, offset: 91640},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2898, col: 13, offset: 91570},
+												pos: position{line: 2901, col: 13, offset: 91641},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2898, col: 13, offset: 91570},
+														pos:        position{line: 2901, col: 13, offset: 91641},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2898, col: 20, offset: 91577},
+														pos:        position{line: 2901, col: 20, offset: 91648},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2898, col: 29, offset: 91586},
+														pos:        position{line: 2901, col: 29, offset: 91657},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -30018,10 +30022,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1558, col: 31, offset: 50388},
 							expr: &actionExpr{
-								pos: position{line: 2889, col: 10, offset: 91398},
+								pos: position{line: 2892, col: 10, offset: 91469},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2889, col: 10, offset: 91398},
+									pos:        position{line: 2892, col: 10, offset: 91469},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -30030,25 +30034,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2898, col: 12, offset: 91569},
+							pos: position{line: 2901, col: 12, offset: 91640},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2898, col: 13, offset: 91570},
+								pos: position{line: 2901, col: 13, offset: 91641},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2898, col: 13, offset: 91570},
+										pos:        position{line: 2901, col: 13, offset: 91641},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2898, col: 20, offset: 91577},
+										pos:        position{line: 2901, col: 20, offset: 91648},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2898, col: 29, offset: 91586},
+										pos:        position{line: 2901, col: 29, offset: 91657},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -30081,9 +30085,9 @@ var g = &grammar{
 					pos: position{line: 1561, col: 5, offset: 50475},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2906, col: 11, offset: 91732},
+							pos: position{line: 2909, col: 11, offset: 91803},
 							expr: &anyMatcher{
-								line: 2906, col: 13, offset: 91734,
+								line: 2909, col: 13, offset: 91805,
 							},
 						},
 						&notExpr{
@@ -30109,10 +30113,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1599, col: 5, offset: 51603},
 																	expr: &actionExpr{
-																		pos: position{line: 2889, col: 10, offset: 91398},
+																		pos: position{line: 2892, col: 10, offset: 91469},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2889, col: 10, offset: 91398},
+																			pos:        position{line: 2892, col: 10, offset: 91469},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30279,12 +30283,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2893, col: 11, offset: 91459},
+																	pos: position{line: 2896, col: 11, offset: 91530},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2893, col: 11, offset: 91459},
+																		pos: position{line: 2896, col: 11, offset: 91530},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2893, col: 11, offset: 91459},
+																			pos:        position{line: 2896, col: 11, offset: 91530},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30327,28 +30331,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30357,9 +30361,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -30389,10 +30393,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1649, col: 5, offset: 53565},
 																	expr: &actionExpr{
-																		pos: position{line: 2889, col: 10, offset: 91398},
+																		pos: position{line: 2892, col: 10, offset: 91469},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2889, col: 10, offset: 91398},
+																			pos:        position{line: 2892, col: 10, offset: 91469},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30433,12 +30437,12 @@ var g = &grammar{
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2893, col: 11, offset: 91459},
+																	pos: position{line: 2896, col: 11, offset: 91530},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2893, col: 11, offset: 91459},
+																		pos: position{line: 2896, col: 11, offset: 91530},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2893, col: 11, offset: 91459},
+																			pos:        position{line: 2896, col: 11, offset: 91530},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30510,12 +30514,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2893, col: 11, offset: 91459},
+																		pos: position{line: 2896, col: 11, offset: 91530},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2893, col: 11, offset: 91459},
+																			pos: position{line: 2896, col: 11, offset: 91530},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2893, col: 11, offset: 91459},
+																				pos:        position{line: 2896, col: 11, offset: 91530},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30559,28 +30563,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30589,9 +30593,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -30649,12 +30653,12 @@ var g = &grammar{
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2893, col: 11, offset: 91459},
+																	pos: position{line: 2896, col: 11, offset: 91530},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2893, col: 11, offset: 91459},
+																		pos: position{line: 2896, col: 11, offset: 91530},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2893, col: 11, offset: 91459},
+																			pos:        position{line: 2896, col: 11, offset: 91530},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30697,28 +30701,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30727,9 +30731,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -30820,28 +30824,28 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1685, col: 35, offset: 54646},
 																				expr: &choiceExpr{
-																					pos: position{line: 2911, col: 8, offset: 91796},
+																					pos: position{line: 2914, col: 8, offset: 91867},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2898, col: 12, offset: 91569},
+																							pos: position{line: 2901, col: 12, offset: 91640},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2898, col: 13, offset: 91570},
+																								pos: position{line: 2901, col: 13, offset: 91641},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 13, offset: 91570},
+																										pos:        position{line: 2901, col: 13, offset: 91641},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 20, offset: 91577},
+																										pos:        position{line: 2901, col: 20, offset: 91648},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 29, offset: 91586},
+																										pos:        position{line: 2901, col: 29, offset: 91657},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30850,9 +30854,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2908, col: 8, offset: 91746},
+																							pos: position{line: 2911, col: 8, offset: 91817},
 																							expr: &anyMatcher{
-																								line: 2908, col: 9, offset: 91747,
+																								line: 2911, col: 9, offset: 91818,
 																							},
 																						},
 																					},
@@ -30917,10 +30921,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 1703, col: 9, offset: 55151},
 																			expr: &actionExpr{
-																				pos: position{line: 2889, col: 10, offset: 91398},
+																				pos: position{line: 2892, col: 10, offset: 91469},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2889, col: 10, offset: 91398},
+																					pos:        position{line: 2892, col: 10, offset: 91469},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30929,28 +30933,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2911, col: 8, offset: 91796},
+																			pos: position{line: 2914, col: 8, offset: 91867},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2898, col: 12, offset: 91569},
+																					pos: position{line: 2901, col: 12, offset: 91640},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2898, col: 13, offset: 91570},
+																						pos: position{line: 2901, col: 13, offset: 91641},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 13, offset: 91570},
+																								pos:        position{line: 2901, col: 13, offset: 91641},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 20, offset: 91577},
+																								pos:        position{line: 2901, col: 20, offset: 91648},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 29, offset: 91586},
+																								pos:        position{line: 2901, col: 29, offset: 91657},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30959,9 +30963,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -30975,18 +30979,18 @@ var g = &grammar{
 																					pos: position{line: 687, col: 14, offset: 21835},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2906, col: 11, offset: 91732},
+																							pos: position{line: 2909, col: 11, offset: 91803},
 																							expr: &anyMatcher{
-																								line: 2906, col: 13, offset: 91734,
+																								line: 2909, col: 13, offset: 91805,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 687, col: 21, offset: 21842},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30995,28 +30999,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31025,9 +31029,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -31046,12 +31050,12 @@ var g = &grammar{
 																	pos: position{line: 1710, col: 9, offset: 55299},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2893, col: 11, offset: 91459},
+																			pos: position{line: 2896, col: 11, offset: 91530},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2893, col: 11, offset: 91459},
+																				pos: position{line: 2896, col: 11, offset: 91530},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2893, col: 11, offset: 91459},
+																					pos:        position{line: 2896, col: 11, offset: 91530},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31078,28 +31082,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2911, col: 8, offset: 91796},
+																			pos: position{line: 2914, col: 8, offset: 91867},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2898, col: 12, offset: 91569},
+																					pos: position{line: 2901, col: 12, offset: 91640},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2898, col: 13, offset: 91570},
+																						pos: position{line: 2901, col: 13, offset: 91641},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 13, offset: 91570},
+																								pos:        position{line: 2901, col: 13, offset: 91641},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 20, offset: 91577},
+																								pos:        position{line: 2901, col: 20, offset: 91648},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 29, offset: 91586},
+																								pos:        position{line: 2901, col: 29, offset: 91657},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31108,9 +31112,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -31151,18 +31155,18 @@ var g = &grammar{
 											pos: position{line: 687, col: 14, offset: 21835},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2906, col: 11, offset: 91732},
+													pos: position{line: 2909, col: 11, offset: 91803},
 													expr: &anyMatcher{
-														line: 2906, col: 13, offset: 91734,
+														line: 2909, col: 13, offset: 91805,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 687, col: 21, offset: 21842},
 													expr: &actionExpr{
-														pos: position{line: 2889, col: 10, offset: 91398},
+														pos: position{line: 2892, col: 10, offset: 91469},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2889, col: 10, offset: 91398},
+															pos:        position{line: 2892, col: 10, offset: 91469},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31171,28 +31175,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2911, col: 8, offset: 91796},
+													pos: position{line: 2914, col: 8, offset: 91867},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2898, col: 12, offset: 91569},
+															pos: position{line: 2901, col: 12, offset: 91640},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2898, col: 13, offset: 91570},
+																pos: position{line: 2901, col: 13, offset: 91641},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 13, offset: 91570},
+																		pos:        position{line: 2901, col: 13, offset: 91641},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 20, offset: 91577},
+																		pos:        position{line: 2901, col: 20, offset: 91648},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 29, offset: 91586},
+																		pos:        position{line: 2901, col: 29, offset: 91657},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31201,9 +31205,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2908, col: 8, offset: 91746},
+															pos: position{line: 2911, col: 8, offset: 91817},
 															expr: &anyMatcher{
-																line: 2908, col: 9, offset: 91747,
+																line: 2911, col: 9, offset: 91818,
 															},
 														},
 													},
@@ -31268,10 +31272,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 367, col: 49, offset: 11183},
 													expr: &actionExpr{
-														pos: position{line: 2889, col: 10, offset: 91398},
+														pos: position{line: 2892, col: 10, offset: 91469},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2889, col: 10, offset: 91398},
+															pos:        position{line: 2892, col: 10, offset: 91469},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31280,28 +31284,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2911, col: 8, offset: 91796},
+													pos: position{line: 2914, col: 8, offset: 91867},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2898, col: 12, offset: 91569},
+															pos: position{line: 2901, col: 12, offset: 91640},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2898, col: 13, offset: 91570},
+																pos: position{line: 2901, col: 13, offset: 91641},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 13, offset: 91570},
+																		pos:        position{line: 2901, col: 13, offset: 91641},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 20, offset: 91577},
+																		pos:        position{line: 2901, col: 20, offset: 91648},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 29, offset: 91586},
+																		pos:        position{line: 2901, col: 29, offset: 91657},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31310,9 +31314,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2908, col: 8, offset: 91746},
+															pos: position{line: 2911, col: 8, offset: 91817},
 															expr: &anyMatcher{
-																line: 2908, col: 9, offset: 91747,
+																line: 2911, col: 9, offset: 91818,
 															},
 														},
 													},
@@ -31373,10 +31377,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 369, col: 39, offset: 11304},
 													expr: &actionExpr{
-														pos: position{line: 2889, col: 10, offset: 91398},
+														pos: position{line: 2892, col: 10, offset: 91469},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2889, col: 10, offset: 91398},
+															pos:        position{line: 2892, col: 10, offset: 91469},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31385,28 +31389,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2911, col: 8, offset: 91796},
+													pos: position{line: 2914, col: 8, offset: 91867},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2898, col: 12, offset: 91569},
+															pos: position{line: 2901, col: 12, offset: 91640},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2898, col: 13, offset: 91570},
+																pos: position{line: 2901, col: 13, offset: 91641},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 13, offset: 91570},
+																		pos:        position{line: 2901, col: 13, offset: 91641},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 20, offset: 91577},
+																		pos:        position{line: 2901, col: 20, offset: 91648},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 29, offset: 91586},
+																		pos:        position{line: 2901, col: 29, offset: 91657},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31415,9 +31419,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2908, col: 8, offset: 91746},
+															pos: position{line: 2911, col: 8, offset: 91817},
 															expr: &anyMatcher{
-																line: 2908, col: 9, offset: 91747,
+																line: 2911, col: 9, offset: 91818,
 															},
 														},
 													},
@@ -31471,10 +31475,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 752, col: 8, offset: 24032},
 																	expr: &actionExpr{
-																		pos: position{line: 2889, col: 10, offset: 91398},
+																		pos: position{line: 2892, col: 10, offset: 91469},
 																		run: (*parser).callonListContinuationElement308,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2889, col: 10, offset: 91398},
+																			pos:        position{line: 2892, col: 10, offset: 91469},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31483,28 +31487,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonListContinuationElement311,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31513,9 +31517,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -31587,10 +31591,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 752, col: 8, offset: 24032},
 																											expr: &actionExpr{
-																												pos: position{line: 2889, col: 10, offset: 91398},
+																												pos: position{line: 2892, col: 10, offset: 91469},
 																												run: (*parser).callonListContinuationElement336,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2889, col: 10, offset: 91398},
+																													pos:        position{line: 2892, col: 10, offset: 91469},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31599,28 +31603,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2911, col: 8, offset: 91796},
+																											pos: position{line: 2914, col: 8, offset: 91867},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2898, col: 12, offset: 91569},
+																													pos: position{line: 2901, col: 12, offset: 91640},
 																													run: (*parser).callonListContinuationElement339,
 																													expr: &choiceExpr{
-																														pos: position{line: 2898, col: 13, offset: 91570},
+																														pos: position{line: 2901, col: 13, offset: 91641},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 13, offset: 91570},
+																																pos:        position{line: 2901, col: 13, offset: 91641},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 20, offset: 91577},
+																																pos:        position{line: 2901, col: 20, offset: 91648},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 29, offset: 91586},
+																																pos:        position{line: 2901, col: 29, offset: 91657},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31629,9 +31633,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2908, col: 8, offset: 91746},
+																													pos: position{line: 2911, col: 8, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2908, col: 9, offset: 91747,
+																														line: 2911, col: 9, offset: 91818,
 																													},
 																												},
 																											},
@@ -31647,9 +31651,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -31665,21 +31669,21 @@ var g = &grammar{
 																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2906, col: 11, offset: 91732},
+																						pos: position{line: 2909, col: 11, offset: 91803},
 																						expr: &anyMatcher{
-																							line: 2906, col: 13, offset: 91734,
+																							line: 2909, col: 13, offset: 91805,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2835, col: 13, offset: 89924},
+																							pos: position{line: 2838, col: 13, offset: 89995},
 																							run: (*parser).callonListContinuationElement355,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2835, col: 13, offset: 89924},
+																									pos:        position{line: 2838, col: 13, offset: 89995},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31689,28 +31693,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2911, col: 8, offset: 91796},
+																						pos: position{line: 2914, col: 8, offset: 91867},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2898, col: 12, offset: 91569},
+																								pos: position{line: 2901, col: 12, offset: 91640},
 																								run: (*parser).callonListContinuationElement359,
 																								expr: &choiceExpr{
-																									pos: position{line: 2898, col: 13, offset: 91570},
+																									pos: position{line: 2901, col: 13, offset: 91641},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											pos:        position{line: 2901, col: 13, offset: 91641},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											pos:        position{line: 2901, col: 20, offset: 91648},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											pos:        position{line: 2901, col: 29, offset: 91657},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31719,9 +31723,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 8, offset: 91746},
+																								pos: position{line: 2911, col: 8, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2908, col: 9, offset: 91747,
+																									line: 2911, col: 9, offset: 91818,
 																								},
 																							},
 																						},
@@ -31786,10 +31790,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 752, col: 8, offset: 24032},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonListContinuationElement380,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31798,28 +31802,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonListContinuationElement383,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31828,9 +31832,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -31846,9 +31850,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2908, col: 8, offset: 91746},
+																	pos: position{line: 2911, col: 8, offset: 91817},
 																	expr: &anyMatcher{
-																		line: 2908, col: 9, offset: 91747,
+																		line: 2911, col: 9, offset: 91818,
 																	},
 																},
 															},
@@ -31904,10 +31908,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 759, col: 8, offset: 24280},
 																	expr: &actionExpr{
-																		pos: position{line: 2889, col: 10, offset: 91398},
+																		pos: position{line: 2892, col: 10, offset: 91469},
 																		run: (*parser).callonListContinuationElement405,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2889, col: 10, offset: 91398},
+																			pos:        position{line: 2892, col: 10, offset: 91469},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31916,28 +31920,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonListContinuationElement408,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31946,9 +31950,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -32020,10 +32024,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 759, col: 8, offset: 24280},
 																											expr: &actionExpr{
-																												pos: position{line: 2889, col: 10, offset: 91398},
+																												pos: position{line: 2892, col: 10, offset: 91469},
 																												run: (*parser).callonListContinuationElement433,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2889, col: 10, offset: 91398},
+																													pos:        position{line: 2892, col: 10, offset: 91469},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32032,28 +32036,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2911, col: 8, offset: 91796},
+																											pos: position{line: 2914, col: 8, offset: 91867},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2898, col: 12, offset: 91569},
+																													pos: position{line: 2901, col: 12, offset: 91640},
 																													run: (*parser).callonListContinuationElement436,
 																													expr: &choiceExpr{
-																														pos: position{line: 2898, col: 13, offset: 91570},
+																														pos: position{line: 2901, col: 13, offset: 91641},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 13, offset: 91570},
+																																pos:        position{line: 2901, col: 13, offset: 91641},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 20, offset: 91577},
+																																pos:        position{line: 2901, col: 20, offset: 91648},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 29, offset: 91586},
+																																pos:        position{line: 2901, col: 29, offset: 91657},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32062,9 +32066,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2908, col: 8, offset: 91746},
+																													pos: position{line: 2911, col: 8, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2908, col: 9, offset: 91747,
+																														line: 2911, col: 9, offset: 91818,
 																													},
 																												},
 																											},
@@ -32080,9 +32084,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -32098,21 +32102,21 @@ var g = &grammar{
 																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2906, col: 11, offset: 91732},
+																						pos: position{line: 2909, col: 11, offset: 91803},
 																						expr: &anyMatcher{
-																							line: 2906, col: 13, offset: 91734,
+																							line: 2909, col: 13, offset: 91805,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2835, col: 13, offset: 89924},
+																							pos: position{line: 2838, col: 13, offset: 89995},
 																							run: (*parser).callonListContinuationElement452,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2835, col: 13, offset: 89924},
+																									pos:        position{line: 2838, col: 13, offset: 89995},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32122,28 +32126,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2911, col: 8, offset: 91796},
+																						pos: position{line: 2914, col: 8, offset: 91867},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2898, col: 12, offset: 91569},
+																								pos: position{line: 2901, col: 12, offset: 91640},
 																								run: (*parser).callonListContinuationElement456,
 																								expr: &choiceExpr{
-																									pos: position{line: 2898, col: 13, offset: 91570},
+																									pos: position{line: 2901, col: 13, offset: 91641},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											pos:        position{line: 2901, col: 13, offset: 91641},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											pos:        position{line: 2901, col: 20, offset: 91648},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											pos:        position{line: 2901, col: 29, offset: 91657},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32152,9 +32156,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 8, offset: 91746},
+																								pos: position{line: 2911, col: 8, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2908, col: 9, offset: 91747,
+																									line: 2911, col: 9, offset: 91818,
 																								},
 																							},
 																						},
@@ -32219,10 +32223,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 759, col: 8, offset: 24280},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonListContinuationElement477,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32231,28 +32235,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonListContinuationElement480,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32261,9 +32265,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -32279,9 +32283,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2908, col: 8, offset: 91746},
+																	pos: position{line: 2911, col: 8, offset: 91817},
 																	expr: &anyMatcher{
-																		line: 2908, col: 9, offset: 91747,
+																		line: 2911, col: 9, offset: 91818,
 																	},
 																},
 															},
@@ -32333,10 +32337,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 770, col: 52, offset: 24692},
 																	expr: &actionExpr{
-																		pos: position{line: 2889, col: 10, offset: 91398},
+																		pos: position{line: 2892, col: 10, offset: 91469},
 																		run: (*parser).callonListContinuationElement501,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2889, col: 10, offset: 91398},
+																			pos:        position{line: 2892, col: 10, offset: 91469},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32345,28 +32349,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonListContinuationElement504,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32375,9 +32379,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -32411,10 +32415,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 981, col: 40, offset: 30707},
 																					expr: &actionExpr{
-																						pos: position{line: 2889, col: 10, offset: 91398},
+																						pos: position{line: 2892, col: 10, offset: 91469},
 																						run: (*parser).callonListContinuationElement519,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2889, col: 10, offset: 91398},
+																							pos:        position{line: 2892, col: 10, offset: 91469},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32423,28 +32427,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2911, col: 8, offset: 91796},
+																					pos: position{line: 2914, col: 8, offset: 91867},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2898, col: 12, offset: 91569},
+																							pos: position{line: 2901, col: 12, offset: 91640},
 																							run: (*parser).callonListContinuationElement522,
 																							expr: &choiceExpr{
-																								pos: position{line: 2898, col: 13, offset: 91570},
+																								pos: position{line: 2901, col: 13, offset: 91641},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 13, offset: 91570},
+																										pos:        position{line: 2901, col: 13, offset: 91641},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 20, offset: 91577},
+																										pos:        position{line: 2901, col: 20, offset: 91648},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 29, offset: 91586},
+																										pos:        position{line: 2901, col: 29, offset: 91657},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32453,9 +32457,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2908, col: 8, offset: 91746},
+																							pos: position{line: 2911, col: 8, offset: 91817},
 																							expr: &anyMatcher{
-																								line: 2908, col: 9, offset: 91747,
+																								line: 2911, col: 9, offset: 91818,
 																							},
 																						},
 																					},
@@ -32473,21 +32477,21 @@ var g = &grammar{
 																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2906, col: 11, offset: 91732},
+																						pos: position{line: 2909, col: 11, offset: 91803},
 																						expr: &anyMatcher{
-																							line: 2906, col: 13, offset: 91734,
+																							line: 2909, col: 13, offset: 91805,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2835, col: 13, offset: 89924},
+																							pos: position{line: 2838, col: 13, offset: 89995},
 																							run: (*parser).callonListContinuationElement535,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2835, col: 13, offset: 89924},
+																									pos:        position{line: 2838, col: 13, offset: 89995},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32497,28 +32501,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2911, col: 8, offset: 91796},
+																						pos: position{line: 2914, col: 8, offset: 91867},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2898, col: 12, offset: 91569},
+																								pos: position{line: 2901, col: 12, offset: 91640},
 																								run: (*parser).callonListContinuationElement539,
 																								expr: &choiceExpr{
-																									pos: position{line: 2898, col: 13, offset: 91570},
+																									pos: position{line: 2901, col: 13, offset: 91641},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											pos:        position{line: 2901, col: 13, offset: 91641},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											pos:        position{line: 2901, col: 20, offset: 91648},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											pos:        position{line: 2901, col: 29, offset: 91657},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32527,9 +32531,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 8, offset: 91746},
+																								pos: position{line: 2911, col: 8, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2908, col: 9, offset: 91747,
+																									line: 2911, col: 9, offset: 91818,
 																								},
 																							},
 																						},
@@ -32557,10 +32561,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 981, col: 40, offset: 30707},
 																expr: &actionExpr{
-																	pos: position{line: 2889, col: 10, offset: 91398},
+																	pos: position{line: 2892, col: 10, offset: 91469},
 																	run: (*parser).callonListContinuationElement550,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2889, col: 10, offset: 91398},
+																		pos:        position{line: 2892, col: 10, offset: 91469},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32569,28 +32573,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2911, col: 8, offset: 91796},
+																pos: position{line: 2914, col: 8, offset: 91867},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2898, col: 12, offset: 91569},
+																		pos: position{line: 2901, col: 12, offset: 91640},
 																		run: (*parser).callonListContinuationElement553,
 																		expr: &choiceExpr{
-																			pos: position{line: 2898, col: 13, offset: 91570},
+																			pos: position{line: 2901, col: 13, offset: 91641},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2898, col: 13, offset: 91570},
+																					pos:        position{line: 2901, col: 13, offset: 91641},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2898, col: 20, offset: 91577},
+																					pos:        position{line: 2901, col: 20, offset: 91648},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2898, col: 29, offset: 91586},
+																					pos:        position{line: 2901, col: 29, offset: 91657},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32599,9 +32603,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2908, col: 8, offset: 91746},
+																		pos: position{line: 2911, col: 8, offset: 91817},
 																		expr: &anyMatcher{
-																			line: 2908, col: 9, offset: 91747,
+																			line: 2911, col: 9, offset: 91818,
 																		},
 																	},
 																},
@@ -32658,10 +32662,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 766, col: 8, offset: 24526},
 																	expr: &actionExpr{
-																		pos: position{line: 2889, col: 10, offset: 91398},
+																		pos: position{line: 2892, col: 10, offset: 91469},
 																		run: (*parser).callonListContinuationElement572,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2889, col: 10, offset: 91398},
+																			pos:        position{line: 2892, col: 10, offset: 91469},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32670,28 +32674,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonListContinuationElement575,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32700,9 +32704,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -32774,10 +32778,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 766, col: 8, offset: 24526},
 																											expr: &actionExpr{
-																												pos: position{line: 2889, col: 10, offset: 91398},
+																												pos: position{line: 2892, col: 10, offset: 91469},
 																												run: (*parser).callonListContinuationElement600,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2889, col: 10, offset: 91398},
+																													pos:        position{line: 2892, col: 10, offset: 91469},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32786,28 +32790,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2911, col: 8, offset: 91796},
+																											pos: position{line: 2914, col: 8, offset: 91867},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2898, col: 12, offset: 91569},
+																													pos: position{line: 2901, col: 12, offset: 91640},
 																													run: (*parser).callonListContinuationElement603,
 																													expr: &choiceExpr{
-																														pos: position{line: 2898, col: 13, offset: 91570},
+																														pos: position{line: 2901, col: 13, offset: 91641},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 13, offset: 91570},
+																																pos:        position{line: 2901, col: 13, offset: 91641},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 20, offset: 91577},
+																																pos:        position{line: 2901, col: 20, offset: 91648},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 29, offset: 91586},
+																																pos:        position{line: 2901, col: 29, offset: 91657},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32816,9 +32820,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2908, col: 8, offset: 91746},
+																													pos: position{line: 2911, col: 8, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2908, col: 9, offset: 91747,
+																														line: 2911, col: 9, offset: 91818,
 																													},
 																												},
 																											},
@@ -32834,9 +32838,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -32852,21 +32856,21 @@ var g = &grammar{
 																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2906, col: 11, offset: 91732},
+																						pos: position{line: 2909, col: 11, offset: 91803},
 																						expr: &anyMatcher{
-																							line: 2906, col: 13, offset: 91734,
+																							line: 2909, col: 13, offset: 91805,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2835, col: 13, offset: 89924},
+																							pos: position{line: 2838, col: 13, offset: 89995},
 																							run: (*parser).callonListContinuationElement619,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2835, col: 13, offset: 89924},
+																									pos:        position{line: 2838, col: 13, offset: 89995},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32876,28 +32880,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2911, col: 8, offset: 91796},
+																						pos: position{line: 2914, col: 8, offset: 91867},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2898, col: 12, offset: 91569},
+																								pos: position{line: 2901, col: 12, offset: 91640},
 																								run: (*parser).callonListContinuationElement623,
 																								expr: &choiceExpr{
-																									pos: position{line: 2898, col: 13, offset: 91570},
+																									pos: position{line: 2901, col: 13, offset: 91641},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											pos:        position{line: 2901, col: 13, offset: 91641},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											pos:        position{line: 2901, col: 20, offset: 91648},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											pos:        position{line: 2901, col: 29, offset: 91657},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32906,9 +32910,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 8, offset: 91746},
+																								pos: position{line: 2911, col: 8, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2908, col: 9, offset: 91747,
+																									line: 2911, col: 9, offset: 91818,
 																								},
 																							},
 																						},
@@ -32973,10 +32977,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 766, col: 8, offset: 24526},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonListContinuationElement644,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32985,28 +32989,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonListContinuationElement647,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33015,9 +33019,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -33033,9 +33037,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2908, col: 8, offset: 91746},
+																	pos: position{line: 2911, col: 8, offset: 91817},
 																	expr: &anyMatcher{
-																		line: 2908, col: 9, offset: 91747,
+																		line: 2911, col: 9, offset: 91818,
 																	},
 																},
 															},
@@ -33091,10 +33095,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 781, col: 8, offset: 25064},
 																	expr: &actionExpr{
-																		pos: position{line: 2889, col: 10, offset: 91398},
+																		pos: position{line: 2892, col: 10, offset: 91469},
 																		run: (*parser).callonListContinuationElement669,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2889, col: 10, offset: 91398},
+																			pos:        position{line: 2892, col: 10, offset: 91469},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33103,28 +33107,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonListContinuationElement672,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33133,9 +33137,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -33207,10 +33211,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 781, col: 8, offset: 25064},
 																											expr: &actionExpr{
-																												pos: position{line: 2889, col: 10, offset: 91398},
+																												pos: position{line: 2892, col: 10, offset: 91469},
 																												run: (*parser).callonListContinuationElement697,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2889, col: 10, offset: 91398},
+																													pos:        position{line: 2892, col: 10, offset: 91469},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33219,28 +33223,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2911, col: 8, offset: 91796},
+																											pos: position{line: 2914, col: 8, offset: 91867},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2898, col: 12, offset: 91569},
+																													pos: position{line: 2901, col: 12, offset: 91640},
 																													run: (*parser).callonListContinuationElement700,
 																													expr: &choiceExpr{
-																														pos: position{line: 2898, col: 13, offset: 91570},
+																														pos: position{line: 2901, col: 13, offset: 91641},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 13, offset: 91570},
+																																pos:        position{line: 2901, col: 13, offset: 91641},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 20, offset: 91577},
+																																pos:        position{line: 2901, col: 20, offset: 91648},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 29, offset: 91586},
+																																pos:        position{line: 2901, col: 29, offset: 91657},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33249,9 +33253,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2908, col: 8, offset: 91746},
+																													pos: position{line: 2911, col: 8, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2908, col: 9, offset: 91747,
+																														line: 2911, col: 9, offset: 91818,
 																													},
 																												},
 																											},
@@ -33267,9 +33271,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -33285,21 +33289,21 @@ var g = &grammar{
 																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2906, col: 11, offset: 91732},
+																						pos: position{line: 2909, col: 11, offset: 91803},
 																						expr: &anyMatcher{
-																							line: 2906, col: 13, offset: 91734,
+																							line: 2909, col: 13, offset: 91805,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2835, col: 13, offset: 89924},
+																							pos: position{line: 2838, col: 13, offset: 89995},
 																							run: (*parser).callonListContinuationElement716,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2835, col: 13, offset: 89924},
+																									pos:        position{line: 2838, col: 13, offset: 89995},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33309,28 +33313,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2911, col: 8, offset: 91796},
+																						pos: position{line: 2914, col: 8, offset: 91867},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2898, col: 12, offset: 91569},
+																								pos: position{line: 2901, col: 12, offset: 91640},
 																								run: (*parser).callonListContinuationElement720,
 																								expr: &choiceExpr{
-																									pos: position{line: 2898, col: 13, offset: 91570},
+																									pos: position{line: 2901, col: 13, offset: 91641},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											pos:        position{line: 2901, col: 13, offset: 91641},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											pos:        position{line: 2901, col: 20, offset: 91648},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											pos:        position{line: 2901, col: 29, offset: 91657},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33339,9 +33343,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 8, offset: 91746},
+																								pos: position{line: 2911, col: 8, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2908, col: 9, offset: 91747,
+																									line: 2911, col: 9, offset: 91818,
 																								},
 																							},
 																						},
@@ -33406,10 +33410,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 781, col: 8, offset: 25064},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonListContinuationElement741,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33418,28 +33422,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonListContinuationElement744,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33448,9 +33452,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -33466,9 +33470,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2908, col: 8, offset: 91746},
+																	pos: position{line: 2911, col: 8, offset: 91817},
 																	expr: &anyMatcher{
-																		line: 2908, col: 9, offset: 91747,
+																		line: 2911, col: 9, offset: 91818,
 																	},
 																},
 															},
@@ -33524,10 +33528,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 795, col: 8, offset: 25540},
 																	expr: &actionExpr{
-																		pos: position{line: 2889, col: 10, offset: 91398},
+																		pos: position{line: 2892, col: 10, offset: 91469},
 																		run: (*parser).callonListContinuationElement766,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2889, col: 10, offset: 91398},
+																			pos:        position{line: 2892, col: 10, offset: 91469},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33536,28 +33540,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonListContinuationElement769,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33566,9 +33570,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -33640,10 +33644,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 795, col: 8, offset: 25540},
 																											expr: &actionExpr{
-																												pos: position{line: 2889, col: 10, offset: 91398},
+																												pos: position{line: 2892, col: 10, offset: 91469},
 																												run: (*parser).callonListContinuationElement794,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2889, col: 10, offset: 91398},
+																													pos:        position{line: 2892, col: 10, offset: 91469},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33652,28 +33656,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2911, col: 8, offset: 91796},
+																											pos: position{line: 2914, col: 8, offset: 91867},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2898, col: 12, offset: 91569},
+																													pos: position{line: 2901, col: 12, offset: 91640},
 																													run: (*parser).callonListContinuationElement797,
 																													expr: &choiceExpr{
-																														pos: position{line: 2898, col: 13, offset: 91570},
+																														pos: position{line: 2901, col: 13, offset: 91641},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 13, offset: 91570},
+																																pos:        position{line: 2901, col: 13, offset: 91641},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 20, offset: 91577},
+																																pos:        position{line: 2901, col: 20, offset: 91648},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 29, offset: 91586},
+																																pos:        position{line: 2901, col: 29, offset: 91657},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33682,9 +33686,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2908, col: 8, offset: 91746},
+																													pos: position{line: 2911, col: 8, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2908, col: 9, offset: 91747,
+																														line: 2911, col: 9, offset: 91818,
 																													},
 																												},
 																											},
@@ -33700,9 +33704,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -33718,21 +33722,21 @@ var g = &grammar{
 																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2906, col: 11, offset: 91732},
+																						pos: position{line: 2909, col: 11, offset: 91803},
 																						expr: &anyMatcher{
-																							line: 2906, col: 13, offset: 91734,
+																							line: 2909, col: 13, offset: 91805,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2835, col: 13, offset: 89924},
+																							pos: position{line: 2838, col: 13, offset: 89995},
 																							run: (*parser).callonListContinuationElement813,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2835, col: 13, offset: 89924},
+																									pos:        position{line: 2838, col: 13, offset: 89995},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33742,28 +33746,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2911, col: 8, offset: 91796},
+																						pos: position{line: 2914, col: 8, offset: 91867},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2898, col: 12, offset: 91569},
+																								pos: position{line: 2901, col: 12, offset: 91640},
 																								run: (*parser).callonListContinuationElement817,
 																								expr: &choiceExpr{
-																									pos: position{line: 2898, col: 13, offset: 91570},
+																									pos: position{line: 2901, col: 13, offset: 91641},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											pos:        position{line: 2901, col: 13, offset: 91641},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											pos:        position{line: 2901, col: 20, offset: 91648},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											pos:        position{line: 2901, col: 29, offset: 91657},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33772,9 +33776,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 8, offset: 91746},
+																								pos: position{line: 2911, col: 8, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2908, col: 9, offset: 91747,
+																									line: 2911, col: 9, offset: 91818,
 																								},
 																							},
 																						},
@@ -33839,10 +33843,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 795, col: 8, offset: 25540},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonListContinuationElement838,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33851,28 +33855,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonListContinuationElement841,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33881,9 +33885,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -33899,9 +33903,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2908, col: 8, offset: 91746},
+																	pos: position{line: 2911, col: 8, offset: 91817},
 																	expr: &anyMatcher{
-																		line: 2908, col: 9, offset: 91747,
+																		line: 2911, col: 9, offset: 91818,
 																	},
 																},
 															},
@@ -33963,12 +33967,12 @@ var g = &grammar{
 																							pos:   position{line: 2493, col: 49, offset: 80256},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								run: (*parser).callonListContinuationElement865,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2835, col: 13, offset: 89924},
+																									pos: position{line: 2838, col: 13, offset: 89995},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2835, col: 13, offset: 89924},
+																										pos:        position{line: 2838, col: 13, offset: 89995},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -33978,28 +33982,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonListContinuationElement869,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34008,9 +34012,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -34037,18 +34041,18 @@ var g = &grammar{
 																					pos: position{line: 687, col: 14, offset: 21835},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2906, col: 11, offset: 91732},
+																							pos: position{line: 2909, col: 11, offset: 91803},
 																							expr: &anyMatcher{
-																								line: 2906, col: 13, offset: 91734,
+																								line: 2909, col: 13, offset: 91805,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 687, col: 21, offset: 21842},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonListContinuationElement884,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34057,28 +34061,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34087,9 +34091,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -34108,12 +34112,12 @@ var g = &grammar{
 																			pos:   position{line: 1002, col: 5, offset: 31328},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 2839, col: 14, offset: 89991},
+																				pos: position{line: 2842, col: 14, offset: 90062},
 																				run: (*parser).callonListContinuationElement896,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2839, col: 14, offset: 89991},
+																					pos: position{line: 2842, col: 14, offset: 90062},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2839, col: 14, offset: 89991},
+																						pos:        position{line: 2842, col: 14, offset: 90062},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -34123,28 +34127,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2911, col: 8, offset: 91796},
+																			pos: position{line: 2914, col: 8, offset: 91867},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2898, col: 12, offset: 91569},
+																					pos: position{line: 2901, col: 12, offset: 91640},
 																					run: (*parser).callonListContinuationElement900,
 																					expr: &choiceExpr{
-																						pos: position{line: 2898, col: 13, offset: 91570},
+																						pos: position{line: 2901, col: 13, offset: 91641},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 13, offset: 91570},
+																								pos:        position{line: 2901, col: 13, offset: 91641},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 20, offset: 91577},
+																								pos:        position{line: 2901, col: 20, offset: 91648},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 29, offset: 91586},
+																								pos:        position{line: 2901, col: 29, offset: 91657},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -34153,9 +34157,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -34199,12 +34203,12 @@ var g = &grammar{
 																				pos:   position{line: 2493, col: 49, offset: 80256},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2835, col: 13, offset: 89924},
+																					pos: position{line: 2838, col: 13, offset: 89995},
 																					run: (*parser).callonListContinuationElement916,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2835, col: 13, offset: 89924},
+																						pos: position{line: 2838, col: 13, offset: 89995},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2835, col: 13, offset: 89924},
+																							pos:        position{line: 2838, col: 13, offset: 89995},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34214,28 +34218,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2911, col: 8, offset: 91796},
+																				pos: position{line: 2914, col: 8, offset: 91867},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2898, col: 12, offset: 91569},
+																						pos: position{line: 2901, col: 12, offset: 91640},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2898, col: 13, offset: 91570},
+																							pos: position{line: 2901, col: 13, offset: 91641},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2898, col: 13, offset: 91570},
+																									pos:        position{line: 2901, col: 13, offset: 91641},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2898, col: 20, offset: 91577},
+																									pos:        position{line: 2901, col: 20, offset: 91648},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2898, col: 29, offset: 91586},
+																									pos:        position{line: 2901, col: 29, offset: 91657},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34244,9 +34248,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2908, col: 8, offset: 91746},
+																						pos: position{line: 2911, col: 8, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2908, col: 9, offset: 91747,
+																							line: 2911, col: 9, offset: 91818,
 																						},
 																					},
 																				},
@@ -34294,12 +34298,12 @@ var g = &grammar{
 																								pos:   position{line: 2493, col: 49, offset: 80256},
 																								label: "content",
 																								expr: &actionExpr{
-																									pos: position{line: 2835, col: 13, offset: 89924},
+																									pos: position{line: 2838, col: 13, offset: 89995},
 																									run: (*parser).callonListContinuationElement937,
 																									expr: &zeroOrMoreExpr{
-																										pos: position{line: 2835, col: 13, offset: 89924},
+																										pos: position{line: 2838, col: 13, offset: 89995},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2835, col: 13, offset: 89924},
+																											pos:        position{line: 2838, col: 13, offset: 89995},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -34309,28 +34313,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2911, col: 8, offset: 91796},
+																								pos: position{line: 2914, col: 8, offset: 91867},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2898, col: 12, offset: 91569},
+																										pos: position{line: 2901, col: 12, offset: 91640},
 																										run: (*parser).callonListContinuationElement941,
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 13, offset: 91570},
+																											pos: position{line: 2901, col: 13, offset: 91641},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 13, offset: 91570},
+																													pos:        position{line: 2901, col: 13, offset: 91641},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 20, offset: 91577},
+																													pos:        position{line: 2901, col: 20, offset: 91648},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 29, offset: 91586},
+																													pos:        position{line: 2901, col: 29, offset: 91657},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34339,9 +34343,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2908, col: 8, offset: 91746},
+																										pos: position{line: 2911, col: 8, offset: 91817},
 																										expr: &anyMatcher{
-																											line: 2908, col: 9, offset: 91747,
+																											line: 2911, col: 9, offset: 91818,
 																										},
 																									},
 																								},
@@ -34368,18 +34372,18 @@ var g = &grammar{
 																						pos: position{line: 687, col: 14, offset: 21835},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2906, col: 11, offset: 91732},
+																								pos: position{line: 2909, col: 11, offset: 91803},
 																								expr: &anyMatcher{
-																									line: 2906, col: 13, offset: 91734,
+																									line: 2909, col: 13, offset: 91805,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 687, col: 21, offset: 21842},
 																								expr: &actionExpr{
-																									pos: position{line: 2889, col: 10, offset: 91398},
+																									pos: position{line: 2892, col: 10, offset: 91469},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2889, col: 10, offset: 91398},
+																										pos:        position{line: 2892, col: 10, offset: 91469},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34388,28 +34392,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2911, col: 8, offset: 91796},
+																								pos: position{line: 2914, col: 8, offset: 91867},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2898, col: 12, offset: 91569},
+																										pos: position{line: 2901, col: 12, offset: 91640},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 13, offset: 91570},
+																											pos: position{line: 2901, col: 13, offset: 91641},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 13, offset: 91570},
+																													pos:        position{line: 2901, col: 13, offset: 91641},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 20, offset: 91577},
+																													pos:        position{line: 2901, col: 20, offset: 91648},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 29, offset: 91586},
+																													pos:        position{line: 2901, col: 29, offset: 91657},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34418,9 +34422,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2908, col: 8, offset: 91746},
+																										pos: position{line: 2911, col: 8, offset: 91817},
 																										expr: &anyMatcher{
-																											line: 2908, col: 9, offset: 91747,
+																											line: 2911, col: 9, offset: 91818,
 																										},
 																									},
 																								},
@@ -34439,12 +34443,12 @@ var g = &grammar{
 																				pos:   position{line: 1002, col: 5, offset: 31328},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2839, col: 14, offset: 89991},
+																					pos: position{line: 2842, col: 14, offset: 90062},
 																					run: (*parser).callonListContinuationElement968,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2839, col: 14, offset: 89991},
+																						pos: position{line: 2842, col: 14, offset: 90062},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2839, col: 14, offset: 89991},
+																							pos:        position{line: 2842, col: 14, offset: 90062},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34454,28 +34458,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2911, col: 8, offset: 91796},
+																				pos: position{line: 2914, col: 8, offset: 91867},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2898, col: 12, offset: 91569},
+																						pos: position{line: 2901, col: 12, offset: 91640},
 																						run: (*parser).callonListContinuationElement972,
 																						expr: &choiceExpr{
-																							pos: position{line: 2898, col: 13, offset: 91570},
+																							pos: position{line: 2901, col: 13, offset: 91641},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2898, col: 13, offset: 91570},
+																									pos:        position{line: 2901, col: 13, offset: 91641},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2898, col: 20, offset: 91577},
+																									pos:        position{line: 2901, col: 20, offset: 91648},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2898, col: 29, offset: 91586},
+																									pos:        position{line: 2901, col: 29, offset: 91657},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34484,9 +34488,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2908, col: 8, offset: 91746},
+																						pos: position{line: 2911, col: 8, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2908, col: 9, offset: 91747,
+																							line: 2911, col: 9, offset: 91818,
 																						},
 																					},
 																				},
@@ -34504,12 +34508,12 @@ var g = &grammar{
 																				pos:   position{line: 1807, col: 5, offset: 58385},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2839, col: 14, offset: 89991},
+																					pos: position{line: 2842, col: 14, offset: 90062},
 																					run: (*parser).callonListContinuationElement982,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2839, col: 14, offset: 89991},
+																						pos: position{line: 2842, col: 14, offset: 90062},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2839, col: 14, offset: 89991},
+																							pos:        position{line: 2842, col: 14, offset: 90062},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34523,28 +34527,28 @@ var g = &grammar{
 																				run: (*parser).callonListContinuationElement985,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2911, col: 8, offset: 91796},
+																				pos: position{line: 2914, col: 8, offset: 91867},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2898, col: 12, offset: 91569},
+																						pos: position{line: 2901, col: 12, offset: 91640},
 																						run: (*parser).callonListContinuationElement987,
 																						expr: &choiceExpr{
-																							pos: position{line: 2898, col: 13, offset: 91570},
+																							pos: position{line: 2901, col: 13, offset: 91641},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2898, col: 13, offset: 91570},
+																									pos:        position{line: 2901, col: 13, offset: 91641},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2898, col: 20, offset: 91577},
+																									pos:        position{line: 2901, col: 20, offset: 91648},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2898, col: 29, offset: 91586},
+																									pos:        position{line: 2901, col: 29, offset: 91657},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34553,9 +34557,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2908, col: 8, offset: 91746},
+																						pos: position{line: 2911, col: 8, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2908, col: 9, offset: 91747,
+																							line: 2911, col: 9, offset: 91818,
 																						},
 																					},
 																				},
@@ -34602,10 +34606,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 788, col: 8, offset: 25295},
 																	expr: &actionExpr{
-																		pos: position{line: 2889, col: 10, offset: 91398},
+																		pos: position{line: 2892, col: 10, offset: 91469},
 																		run: (*parser).callonListContinuationElement1003,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2889, col: 10, offset: 91398},
+																			pos:        position{line: 2892, col: 10, offset: 91469},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34614,28 +34618,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonListContinuationElement1006,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34644,9 +34648,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -34694,10 +34698,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 788, col: 8, offset: 25295},
 																								expr: &actionExpr{
-																									pos: position{line: 2889, col: 10, offset: 91398},
+																									pos: position{line: 2892, col: 10, offset: 91469},
 																									run: (*parser).callonListContinuationElement1025,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2889, col: 10, offset: 91398},
+																										pos:        position{line: 2892, col: 10, offset: 91469},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34706,28 +34710,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2911, col: 8, offset: 91796},
+																								pos: position{line: 2914, col: 8, offset: 91867},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2898, col: 12, offset: 91569},
+																										pos: position{line: 2901, col: 12, offset: 91640},
 																										run: (*parser).callonListContinuationElement1028,
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 13, offset: 91570},
+																											pos: position{line: 2901, col: 13, offset: 91641},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 13, offset: 91570},
+																													pos:        position{line: 2901, col: 13, offset: 91641},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 20, offset: 91577},
+																													pos:        position{line: 2901, col: 20, offset: 91648},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 29, offset: 91586},
+																													pos:        position{line: 2901, col: 29, offset: 91657},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34736,9 +34740,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2908, col: 8, offset: 91746},
+																										pos: position{line: 2911, col: 8, offset: 91817},
 																										expr: &anyMatcher{
-																											line: 2908, col: 9, offset: 91747,
+																											line: 2911, col: 9, offset: 91818,
 																										},
 																									},
 																								},
@@ -34747,9 +34751,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -34765,21 +34769,21 @@ var g = &grammar{
 																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2906, col: 11, offset: 91732},
+																						pos: position{line: 2909, col: 11, offset: 91803},
 																						expr: &anyMatcher{
-																							line: 2906, col: 13, offset: 91734,
+																							line: 2909, col: 13, offset: 91805,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2835, col: 13, offset: 89924},
+																							pos: position{line: 2838, col: 13, offset: 89995},
 																							run: (*parser).callonListContinuationElement1043,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2835, col: 13, offset: 89924},
+																									pos:        position{line: 2838, col: 13, offset: 89995},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34789,28 +34793,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2911, col: 8, offset: 91796},
+																						pos: position{line: 2914, col: 8, offset: 91867},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2898, col: 12, offset: 91569},
+																								pos: position{line: 2901, col: 12, offset: 91640},
 																								run: (*parser).callonListContinuationElement1047,
 																								expr: &choiceExpr{
-																									pos: position{line: 2898, col: 13, offset: 91570},
+																									pos: position{line: 2901, col: 13, offset: 91641},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											pos:        position{line: 2901, col: 13, offset: 91641},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											pos:        position{line: 2901, col: 20, offset: 91648},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											pos:        position{line: 2901, col: 29, offset: 91657},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34819,9 +34823,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 8, offset: 91746},
+																								pos: position{line: 2911, col: 8, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2908, col: 9, offset: 91747,
+																									line: 2911, col: 9, offset: 91818,
 																								},
 																							},
 																						},
@@ -34866,10 +34870,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 788, col: 8, offset: 25295},
 																				expr: &actionExpr{
-																					pos: position{line: 2889, col: 10, offset: 91398},
+																					pos: position{line: 2892, col: 10, offset: 91469},
 																					run: (*parser).callonListContinuationElement1063,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2889, col: 10, offset: 91398},
+																						pos:        position{line: 2892, col: 10, offset: 91469},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34878,28 +34882,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2911, col: 8, offset: 91796},
+																				pos: position{line: 2914, col: 8, offset: 91867},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2898, col: 12, offset: 91569},
+																						pos: position{line: 2901, col: 12, offset: 91640},
 																						run: (*parser).callonListContinuationElement1066,
 																						expr: &choiceExpr{
-																							pos: position{line: 2898, col: 13, offset: 91570},
+																							pos: position{line: 2901, col: 13, offset: 91641},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2898, col: 13, offset: 91570},
+																									pos:        position{line: 2901, col: 13, offset: 91641},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2898, col: 20, offset: 91577},
+																									pos:        position{line: 2901, col: 20, offset: 91648},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2898, col: 29, offset: 91586},
+																									pos:        position{line: 2901, col: 29, offset: 91657},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34908,9 +34912,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2908, col: 8, offset: 91746},
+																						pos: position{line: 2911, col: 8, offset: 91817},
 																						expr: &anyMatcher{
-																							line: 2908, col: 9, offset: 91747,
+																							line: 2911, col: 9, offset: 91818,
 																						},
 																					},
 																				},
@@ -34919,9 +34923,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2908, col: 8, offset: 91746},
+																	pos: position{line: 2911, col: 8, offset: 91817},
 																	expr: &anyMatcher{
-																		line: 2908, col: 9, offset: 91747,
+																		line: 2911, col: 9, offset: 91818,
 																	},
 																},
 															},
@@ -34977,10 +34981,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 802, col: 8, offset: 25792},
 																	expr: &actionExpr{
-																		pos: position{line: 2889, col: 10, offset: 91398},
+																		pos: position{line: 2892, col: 10, offset: 91469},
 																		run: (*parser).callonListContinuationElement1087,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2889, col: 10, offset: 91398},
+																			pos:        position{line: 2892, col: 10, offset: 91469},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34989,28 +34993,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonListContinuationElement1090,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35019,9 +35023,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -35093,10 +35097,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 802, col: 8, offset: 25792},
 																											expr: &actionExpr{
-																												pos: position{line: 2889, col: 10, offset: 91398},
+																												pos: position{line: 2892, col: 10, offset: 91469},
 																												run: (*parser).callonListContinuationElement1115,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2889, col: 10, offset: 91398},
+																													pos:        position{line: 2892, col: 10, offset: 91469},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35105,28 +35109,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2911, col: 8, offset: 91796},
+																											pos: position{line: 2914, col: 8, offset: 91867},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2898, col: 12, offset: 91569},
+																													pos: position{line: 2901, col: 12, offset: 91640},
 																													run: (*parser).callonListContinuationElement1118,
 																													expr: &choiceExpr{
-																														pos: position{line: 2898, col: 13, offset: 91570},
+																														pos: position{line: 2901, col: 13, offset: 91641},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 13, offset: 91570},
+																																pos:        position{line: 2901, col: 13, offset: 91641},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 20, offset: 91577},
+																																pos:        position{line: 2901, col: 20, offset: 91648},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 29, offset: 91586},
+																																pos:        position{line: 2901, col: 29, offset: 91657},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35135,9 +35139,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2908, col: 8, offset: 91746},
+																													pos: position{line: 2911, col: 8, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2908, col: 9, offset: 91747,
+																														line: 2911, col: 9, offset: 91818,
 																													},
 																												},
 																											},
@@ -35153,9 +35157,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -35171,21 +35175,21 @@ var g = &grammar{
 																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2906, col: 11, offset: 91732},
+																						pos: position{line: 2909, col: 11, offset: 91803},
 																						expr: &anyMatcher{
-																							line: 2906, col: 13, offset: 91734,
+																							line: 2909, col: 13, offset: 91805,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2835, col: 13, offset: 89924},
+																							pos: position{line: 2838, col: 13, offset: 89995},
 																							run: (*parser).callonListContinuationElement1134,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2835, col: 13, offset: 89924},
+																									pos:        position{line: 2838, col: 13, offset: 89995},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35195,28 +35199,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2911, col: 8, offset: 91796},
+																						pos: position{line: 2914, col: 8, offset: 91867},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2898, col: 12, offset: 91569},
+																								pos: position{line: 2901, col: 12, offset: 91640},
 																								run: (*parser).callonListContinuationElement1138,
 																								expr: &choiceExpr{
-																									pos: position{line: 2898, col: 13, offset: 91570},
+																									pos: position{line: 2901, col: 13, offset: 91641},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											pos:        position{line: 2901, col: 13, offset: 91641},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											pos:        position{line: 2901, col: 20, offset: 91648},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											pos:        position{line: 2901, col: 29, offset: 91657},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35225,9 +35229,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 8, offset: 91746},
+																								pos: position{line: 2911, col: 8, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2908, col: 9, offset: 91747,
+																									line: 2911, col: 9, offset: 91818,
 																								},
 																							},
 																						},
@@ -35292,10 +35296,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 802, col: 8, offset: 25792},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonListContinuationElement1159,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35304,28 +35308,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonListContinuationElement1162,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35334,9 +35338,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -35352,9 +35356,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2908, col: 8, offset: 91746},
+																	pos: position{line: 2911, col: 8, offset: 91817},
 																	expr: &anyMatcher{
-																		line: 2908, col: 9, offset: 91747,
+																		line: 2911, col: 9, offset: 91818,
 																	},
 																},
 															},
@@ -35410,10 +35414,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 809, col: 8, offset: 26042},
 																	expr: &actionExpr{
-																		pos: position{line: 2889, col: 10, offset: 91398},
+																		pos: position{line: 2892, col: 10, offset: 91469},
 																		run: (*parser).callonListContinuationElement1184,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2889, col: 10, offset: 91398},
+																			pos:        position{line: 2892, col: 10, offset: 91469},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35422,28 +35426,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonListContinuationElement1187,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35452,9 +35456,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -35526,10 +35530,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 809, col: 8, offset: 26042},
 																											expr: &actionExpr{
-																												pos: position{line: 2889, col: 10, offset: 91398},
+																												pos: position{line: 2892, col: 10, offset: 91469},
 																												run: (*parser).callonListContinuationElement1212,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2889, col: 10, offset: 91398},
+																													pos:        position{line: 2892, col: 10, offset: 91469},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35538,28 +35542,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2911, col: 8, offset: 91796},
+																											pos: position{line: 2914, col: 8, offset: 91867},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2898, col: 12, offset: 91569},
+																													pos: position{line: 2901, col: 12, offset: 91640},
 																													run: (*parser).callonListContinuationElement1215,
 																													expr: &choiceExpr{
-																														pos: position{line: 2898, col: 13, offset: 91570},
+																														pos: position{line: 2901, col: 13, offset: 91641},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 13, offset: 91570},
+																																pos:        position{line: 2901, col: 13, offset: 91641},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 20, offset: 91577},
+																																pos:        position{line: 2901, col: 20, offset: 91648},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 29, offset: 91586},
+																																pos:        position{line: 2901, col: 29, offset: 91657},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35568,9 +35572,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2908, col: 8, offset: 91746},
+																													pos: position{line: 2911, col: 8, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2908, col: 9, offset: 91747,
+																														line: 2911, col: 9, offset: 91818,
 																													},
 																												},
 																											},
@@ -35586,9 +35590,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -35604,21 +35608,21 @@ var g = &grammar{
 																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2906, col: 11, offset: 91732},
+																						pos: position{line: 2909, col: 11, offset: 91803},
 																						expr: &anyMatcher{
-																							line: 2906, col: 13, offset: 91734,
+																							line: 2909, col: 13, offset: 91805,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2835, col: 13, offset: 89924},
+																							pos: position{line: 2838, col: 13, offset: 89995},
 																							run: (*parser).callonListContinuationElement1231,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2835, col: 13, offset: 89924},
+																									pos:        position{line: 2838, col: 13, offset: 89995},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35628,28 +35632,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2911, col: 8, offset: 91796},
+																						pos: position{line: 2914, col: 8, offset: 91867},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2898, col: 12, offset: 91569},
+																								pos: position{line: 2901, col: 12, offset: 91640},
 																								run: (*parser).callonListContinuationElement1235,
 																								expr: &choiceExpr{
-																									pos: position{line: 2898, col: 13, offset: 91570},
+																									pos: position{line: 2901, col: 13, offset: 91641},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											pos:        position{line: 2901, col: 13, offset: 91641},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											pos:        position{line: 2901, col: 20, offset: 91648},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											pos:        position{line: 2901, col: 29, offset: 91657},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35658,9 +35662,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 8, offset: 91746},
+																								pos: position{line: 2911, col: 8, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2908, col: 9, offset: 91747,
+																									line: 2911, col: 9, offset: 91818,
 																								},
 																							},
 																						},
@@ -35725,10 +35729,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 809, col: 8, offset: 26042},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonListContinuationElement1256,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35737,28 +35741,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonListContinuationElement1259,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35767,9 +35771,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -35785,9 +35789,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2908, col: 8, offset: 91746},
+																	pos: position{line: 2911, col: 8, offset: 91817},
 																	expr: &anyMatcher{
-																		line: 2908, col: 9, offset: 91747,
+																		line: 2911, col: 9, offset: 91818,
 																	},
 																},
 															},
@@ -35843,10 +35847,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 816, col: 8, offset: 26288},
 																	expr: &actionExpr{
-																		pos: position{line: 2889, col: 10, offset: 91398},
+																		pos: position{line: 2892, col: 10, offset: 91469},
 																		run: (*parser).callonListContinuationElement1281,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2889, col: 10, offset: 91398},
+																			pos:        position{line: 2892, col: 10, offset: 91469},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35855,28 +35859,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonListContinuationElement1284,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35885,9 +35889,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -35959,10 +35963,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 816, col: 8, offset: 26288},
 																											expr: &actionExpr{
-																												pos: position{line: 2889, col: 10, offset: 91398},
+																												pos: position{line: 2892, col: 10, offset: 91469},
 																												run: (*parser).callonListContinuationElement1309,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2889, col: 10, offset: 91398},
+																													pos:        position{line: 2892, col: 10, offset: 91469},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35971,28 +35975,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2911, col: 8, offset: 91796},
+																											pos: position{line: 2914, col: 8, offset: 91867},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2898, col: 12, offset: 91569},
+																													pos: position{line: 2901, col: 12, offset: 91640},
 																													run: (*parser).callonListContinuationElement1312,
 																													expr: &choiceExpr{
-																														pos: position{line: 2898, col: 13, offset: 91570},
+																														pos: position{line: 2901, col: 13, offset: 91641},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 13, offset: 91570},
+																																pos:        position{line: 2901, col: 13, offset: 91641},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 20, offset: 91577},
+																																pos:        position{line: 2901, col: 20, offset: 91648},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 29, offset: 91586},
+																																pos:        position{line: 2901, col: 29, offset: 91657},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36001,9 +36005,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2908, col: 8, offset: 91746},
+																													pos: position{line: 2911, col: 8, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2908, col: 9, offset: 91747,
+																														line: 2911, col: 9, offset: 91818,
 																													},
 																												},
 																											},
@@ -36019,9 +36023,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -36037,21 +36041,21 @@ var g = &grammar{
 																				pos: position{line: 821, col: 5, offset: 26434},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2906, col: 11, offset: 91732},
+																						pos: position{line: 2909, col: 11, offset: 91803},
 																						expr: &anyMatcher{
-																							line: 2906, col: 13, offset: 91734,
+																							line: 2909, col: 13, offset: 91805,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 822, col: 5, offset: 26509},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2835, col: 13, offset: 89924},
+																							pos: position{line: 2838, col: 13, offset: 89995},
 																							run: (*parser).callonListContinuationElement1328,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2835, col: 13, offset: 89924},
+																									pos:        position{line: 2838, col: 13, offset: 89995},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36061,28 +36065,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2911, col: 8, offset: 91796},
+																						pos: position{line: 2914, col: 8, offset: 91867},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2898, col: 12, offset: 91569},
+																								pos: position{line: 2901, col: 12, offset: 91640},
 																								run: (*parser).callonListContinuationElement1332,
 																								expr: &choiceExpr{
-																									pos: position{line: 2898, col: 13, offset: 91570},
+																									pos: position{line: 2901, col: 13, offset: 91641},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											pos:        position{line: 2901, col: 13, offset: 91641},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											pos:        position{line: 2901, col: 20, offset: 91648},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											pos:        position{line: 2901, col: 29, offset: 91657},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36091,9 +36095,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 8, offset: 91746},
+																								pos: position{line: 2911, col: 8, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2908, col: 9, offset: 91747,
+																									line: 2911, col: 9, offset: 91818,
 																								},
 																							},
 																						},
@@ -36158,10 +36162,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 816, col: 8, offset: 26288},
 																							expr: &actionExpr{
-																								pos: position{line: 2889, col: 10, offset: 91398},
+																								pos: position{line: 2892, col: 10, offset: 91469},
 																								run: (*parser).callonListContinuationElement1353,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2889, col: 10, offset: 91398},
+																									pos:        position{line: 2892, col: 10, offset: 91469},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36170,28 +36174,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2911, col: 8, offset: 91796},
+																							pos: position{line: 2914, col: 8, offset: 91867},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2898, col: 12, offset: 91569},
+																									pos: position{line: 2901, col: 12, offset: 91640},
 																									run: (*parser).callonListContinuationElement1356,
 																									expr: &choiceExpr{
-																										pos: position{line: 2898, col: 13, offset: 91570},
+																										pos: position{line: 2901, col: 13, offset: 91641},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 13, offset: 91570},
+																												pos:        position{line: 2901, col: 13, offset: 91641},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 20, offset: 91577},
+																												pos:        position{line: 2901, col: 20, offset: 91648},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2898, col: 29, offset: 91586},
+																												pos:        position{line: 2901, col: 29, offset: 91657},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36200,9 +36204,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2908, col: 8, offset: 91746},
+																									pos: position{line: 2911, col: 8, offset: 91817},
 																									expr: &anyMatcher{
-																										line: 2908, col: 9, offset: 91747,
+																										line: 2911, col: 9, offset: 91818,
 																									},
 																								},
 																							},
@@ -36218,9 +36222,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2908, col: 8, offset: 91746},
+																	pos: position{line: 2911, col: 8, offset: 91817},
 																	expr: &anyMatcher{
-																		line: 2908, col: 9, offset: 91747,
+																		line: 2911, col: 9, offset: 91818,
 																	},
 																},
 															},
@@ -36231,52 +36235,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2734, col: 18, offset: 86988},
+										pos: position{line: 2737, col: 18, offset: 87059},
 										run: (*parser).callonListContinuationElement1366,
 										expr: &seqExpr{
-											pos: position{line: 2734, col: 18, offset: 86988},
+											pos: position{line: 2737, col: 18, offset: 87059},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2735, col: 9, offset: 86998},
+													pos: position{line: 2738, col: 9, offset: 87069},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2735, col: 9, offset: 86998},
+															pos:        position{line: 2738, col: 9, offset: 87069},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2736, col: 11, offset: 87034},
+															pos:        position{line: 2739, col: 11, offset: 87105},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2736, col: 19, offset: 87042},
+															pos:        position{line: 2739, col: 19, offset: 87113},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2736, col: 29, offset: 87052},
+															pos:        position{line: 2739, col: 29, offset: 87123},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2736, col: 37, offset: 87060},
+															pos:        position{line: 2739, col: 37, offset: 87131},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2736, col: 47, offset: 87070},
+															pos:        position{line: 2739, col: 47, offset: 87141},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2736, col: 55, offset: 87078},
+															pos:        position{line: 2739, col: 55, offset: 87149},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -36284,12 +36288,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2737, col: 11, offset: 87136},
+													pos: position{line: 2740, col: 11, offset: 87207},
 													expr: &actionExpr{
-														pos: position{line: 2889, col: 10, offset: 91398},
+														pos: position{line: 2892, col: 10, offset: 91469},
 														run: (*parser).callonListContinuationElement1377,
 														expr: &charClassMatcher{
-															pos:        position{line: 2889, col: 10, offset: 91398},
+															pos:        position{line: 2892, col: 10, offset: 91469},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36298,28 +36302,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2911, col: 8, offset: 91796},
+													pos: position{line: 2914, col: 8, offset: 91867},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2898, col: 12, offset: 91569},
+															pos: position{line: 2901, col: 12, offset: 91640},
 															run: (*parser).callonListContinuationElement1380,
 															expr: &choiceExpr{
-																pos: position{line: 2898, col: 13, offset: 91570},
+																pos: position{line: 2901, col: 13, offset: 91641},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 13, offset: 91570},
+																		pos:        position{line: 2901, col: 13, offset: 91641},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 20, offset: 91577},
+																		pos:        position{line: 2901, col: 20, offset: 91648},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 29, offset: 91586},
+																		pos:        position{line: 2901, col: 29, offset: 91657},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36328,36 +36332,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2908, col: 8, offset: 91746},
+															pos: position{line: 2911, col: 8, offset: 91817},
 															expr: &anyMatcher{
-																line: 2908, col: 9, offset: 91747,
+																line: 2911, col: 9, offset: 91818,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2911, col: 8, offset: 91796},
+													pos: position{line: 2914, col: 8, offset: 91867},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2898, col: 12, offset: 91569},
+															pos: position{line: 2901, col: 12, offset: 91640},
 															run: (*parser).callonListContinuationElement1388,
 															expr: &choiceExpr{
-																pos: position{line: 2898, col: 13, offset: 91570},
+																pos: position{line: 2901, col: 13, offset: 91641},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 13, offset: 91570},
+																		pos:        position{line: 2901, col: 13, offset: 91641},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 20, offset: 91577},
+																		pos:        position{line: 2901, col: 20, offset: 91648},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 29, offset: 91586},
+																		pos:        position{line: 2901, col: 29, offset: 91657},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36366,9 +36370,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2908, col: 8, offset: 91746},
+															pos: position{line: 2911, col: 8, offset: 91817},
 															expr: &anyMatcher{
-																line: 2908, col: 9, offset: 91747,
+																line: 2911, col: 9, offset: 91818,
 															},
 														},
 													},
@@ -36381,24 +36385,24 @@ var g = &grammar{
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2619, col: 5, offset: 83770},
+										pos: position{line: 2622, col: 5, offset: 83841},
 										run: (*parser).callonListContinuationElement1396,
 										expr: &seqExpr{
-											pos: position{line: 2619, col: 5, offset: 83770},
+											pos: position{line: 2622, col: 5, offset: 83841},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2631, col: 19, offset: 84039},
+													pos:        position{line: 2634, col: 19, offset: 84110},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2631, col: 26, offset: 84046},
+													pos: position{line: 2634, col: 26, offset: 84117},
 													expr: &actionExpr{
-														pos: position{line: 2889, col: 10, offset: 91398},
+														pos: position{line: 2892, col: 10, offset: 91469},
 														run: (*parser).callonListContinuationElement1400,
 														expr: &charClassMatcher{
-															pos:        position{line: 2889, col: 10, offset: 91398},
+															pos:        position{line: 2892, col: 10, offset: 91469},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36407,28 +36411,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2911, col: 8, offset: 91796},
+													pos: position{line: 2914, col: 8, offset: 91867},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2898, col: 12, offset: 91569},
+															pos: position{line: 2901, col: 12, offset: 91640},
 															run: (*parser).callonListContinuationElement1403,
 															expr: &choiceExpr{
-																pos: position{line: 2898, col: 13, offset: 91570},
+																pos: position{line: 2901, col: 13, offset: 91641},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 13, offset: 91570},
+																		pos:        position{line: 2901, col: 13, offset: 91641},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 20, offset: 91577},
+																		pos:        position{line: 2901, col: 20, offset: 91648},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 29, offset: 91586},
+																		pos:        position{line: 2901, col: 29, offset: 91657},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36437,15 +36441,15 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2908, col: 8, offset: 91746},
+															pos: position{line: 2911, col: 8, offset: 91817},
 															expr: &anyMatcher{
-																line: 2908, col: 9, offset: 91747,
+																line: 2911, col: 9, offset: 91818,
 															},
 														},
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2620, col: 5, offset: 83794},
+													pos: position{line: 2623, col: 5, offset: 83865},
 													expr: &actionExpr{
 														pos: position{line: 2493, col: 22, offset: 80229},
 														run: (*parser).callonListContinuationElement1411,
@@ -36471,12 +36475,12 @@ var g = &grammar{
 																	pos:   position{line: 2493, col: 49, offset: 80256},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2835, col: 13, offset: 89924},
+																		pos: position{line: 2838, col: 13, offset: 89995},
 																		run: (*parser).callonListContinuationElement1417,
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 2835, col: 13, offset: 89924},
+																			pos: position{line: 2838, col: 13, offset: 89995},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2835, col: 13, offset: 89924},
+																				pos:        position{line: 2838, col: 13, offset: 89995},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -36486,28 +36490,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonListContinuationElement1421,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36516,9 +36520,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -36528,21 +36532,21 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2621, col: 5, offset: 83817},
+													pos:   position{line: 2624, col: 5, offset: 83888},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2621, col: 11, offset: 83823},
+														pos: position{line: 2624, col: 11, offset: 83894},
 														expr: &actionExpr{
-															pos: position{line: 2622, col: 9, offset: 83833},
+															pos: position{line: 2625, col: 9, offset: 83904},
 															run: (*parser).callonListContinuationElement1430,
 															expr: &seqExpr{
-																pos: position{line: 2622, col: 9, offset: 83833},
+																pos: position{line: 2625, col: 9, offset: 83904},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2622, col: 9, offset: 83833},
+																		pos:   position{line: 2625, col: 9, offset: 83904},
 																		label: "line",
 																		expr: &choiceExpr{
-																			pos: position{line: 2622, col: 15, offset: 83839},
+																			pos: position{line: 2625, col: 15, offset: 83910},
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 687, col: 14, offset: 21835},
@@ -36551,18 +36555,18 @@ var g = &grammar{
 																						pos: position{line: 687, col: 14, offset: 21835},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2906, col: 11, offset: 91732},
+																								pos: position{line: 2909, col: 11, offset: 91803},
 																								expr: &anyMatcher{
-																									line: 2906, col: 13, offset: 91734,
+																									line: 2909, col: 13, offset: 91805,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 687, col: 21, offset: 21842},
 																								expr: &actionExpr{
-																									pos: position{line: 2889, col: 10, offset: 91398},
+																									pos: position{line: 2892, col: 10, offset: 91469},
 																									run: (*parser).callonListContinuationElement1439,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2889, col: 10, offset: 91398},
+																										pos:        position{line: 2892, col: 10, offset: 91469},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -36571,28 +36575,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2911, col: 8, offset: 91796},
+																								pos: position{line: 2914, col: 8, offset: 91867},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2898, col: 12, offset: 91569},
+																										pos: position{line: 2901, col: 12, offset: 91640},
 																										run: (*parser).callonListContinuationElement1442,
 																										expr: &choiceExpr{
-																											pos: position{line: 2898, col: 13, offset: 91570},
+																											pos: position{line: 2901, col: 13, offset: 91641},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 13, offset: 91570},
+																													pos:        position{line: 2901, col: 13, offset: 91641},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 20, offset: 91577},
+																													pos:        position{line: 2901, col: 20, offset: 91648},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2898, col: 29, offset: 91586},
+																													pos:        position{line: 2901, col: 29, offset: 91657},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -36601,9 +36605,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2908, col: 8, offset: 91746},
+																										pos: position{line: 2911, col: 8, offset: 91817},
 																										expr: &anyMatcher{
-																											line: 2908, col: 9, offset: 91747,
+																											line: 2911, col: 9, offset: 91818,
 																										},
 																									},
 																								},
@@ -36612,32 +36616,32 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2638, col: 5, offset: 84158},
+																					pos: position{line: 2641, col: 5, offset: 84229},
 																					run: (*parser).callonListContinuationElement1449,
 																					expr: &seqExpr{
-																						pos: position{line: 2638, col: 5, offset: 84158},
+																						pos: position{line: 2641, col: 5, offset: 84229},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2638, col: 5, offset: 84158},
+																								pos: position{line: 2641, col: 5, offset: 84229},
 																								expr: &choiceExpr{
-																									pos: position{line: 2635, col: 22, offset: 84119},
+																									pos: position{line: 2638, col: 22, offset: 84190},
 																									alternatives: []interface{}{
 																										&seqExpr{
-																											pos: position{line: 2631, col: 19, offset: 84039},
+																											pos: position{line: 2634, col: 19, offset: 84110},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2631, col: 19, offset: 84039},
+																													pos:        position{line: 2634, col: 19, offset: 84110},
 																													val:        "|===",
 																													ignoreCase: false,
 																													want:       "\"|===\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 2631, col: 26, offset: 84046},
+																													pos: position{line: 2634, col: 26, offset: 84117},
 																													expr: &actionExpr{
-																														pos: position{line: 2889, col: 10, offset: 91398},
+																														pos: position{line: 2892, col: 10, offset: 91469},
 																														run: (*parser).callonListContinuationElement1456,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2889, col: 10, offset: 91398},
+																															pos:        position{line: 2892, col: 10, offset: 91469},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -36646,28 +36650,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2911, col: 8, offset: 91796},
+																													pos: position{line: 2914, col: 8, offset: 91867},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2898, col: 12, offset: 91569},
+																															pos: position{line: 2901, col: 12, offset: 91640},
 																															run: (*parser).callonListContinuationElement1459,
 																															expr: &choiceExpr{
-																																pos: position{line: 2898, col: 13, offset: 91570},
+																																pos: position{line: 2901, col: 13, offset: 91641},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2898, col: 13, offset: 91570},
+																																		pos:        position{line: 2901, col: 13, offset: 91641},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2898, col: 20, offset: 91577},
+																																		pos:        position{line: 2901, col: 20, offset: 91648},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2898, col: 29, offset: 91586},
+																																		pos:        position{line: 2901, col: 29, offset: 91657},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -36676,9 +36680,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2908, col: 8, offset: 91746},
+																															pos: position{line: 2911, col: 8, offset: 91817},
 																															expr: &anyMatcher{
-																																line: 2908, col: 9, offset: 91747,
+																																line: 2911, col: 9, offset: 91818,
 																															},
 																														},
 																													},
@@ -36686,59 +36690,59 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2908, col: 8, offset: 91746},
+																											pos: position{line: 2911, col: 8, offset: 91817},
 																											expr: &anyMatcher{
-																												line: 2908, col: 9, offset: 91747,
+																												line: 2911, col: 9, offset: 91818,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 2639, col: 5, offset: 84181},
+																								pos:   position{line: 2642, col: 5, offset: 84252},
 																								label: "content",
 																								expr: &choiceExpr{
-																									pos: position{line: 2640, col: 9, offset: 84199},
+																									pos: position{line: 2643, col: 9, offset: 84270},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2640, col: 10, offset: 84200},
+																											pos: position{line: 2643, col: 10, offset: 84271},
 																											run: (*parser).callonListContinuationElement1470,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2640, col: 10, offset: 84200},
+																												pos:   position{line: 2643, col: 10, offset: 84271},
 																												label: "cells",
 																												expr: &choiceExpr{
-																													pos: position{line: 2640, col: 17, offset: 84207},
+																													pos: position{line: 2643, col: 17, offset: 84278},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2648, col: 21, offset: 84403},
+																															pos: position{line: 2651, col: 21, offset: 84474},
 																															run: (*parser).callonListContinuationElement1473,
 																															expr: &seqExpr{
-																																pos: position{line: 2648, col: 21, offset: 84403},
+																																pos: position{line: 2651, col: 21, offset: 84474},
 																																exprs: []interface{}{
 																																	&labeledExpr{
-																																		pos:   position{line: 2648, col: 21, offset: 84403},
+																																		pos:   position{line: 2651, col: 21, offset: 84474},
 																																		label: "cells",
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 2648, col: 27, offset: 84409},
+																																			pos: position{line: 2651, col: 27, offset: 84480},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2653, col: 5, offset: 84484},
+																																				pos: position{line: 2656, col: 5, offset: 84555},
 																																				run: (*parser).callonListContinuationElement1477,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2653, col: 5, offset: 84484},
+																																					pos: position{line: 2656, col: 5, offset: 84555},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2653, col: 5, offset: 84484},
+																																							pos:        position{line: 2656, col: 5, offset: 84555},
 																																							val:        "|",
 																																							ignoreCase: false,
 																																							want:       "\"|\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2653, col: 9, offset: 84488},
+																																							pos: position{line: 2656, col: 9, offset: 84559},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2889, col: 10, offset: 91398},
+																																								pos: position{line: 2892, col: 10, offset: 91469},
 																																								run: (*parser).callonListContinuationElement1481,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2889, col: 10, offset: 91398},
+																																									pos:        position{line: 2892, col: 10, offset: 91469},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -36747,21 +36751,21 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2653, col: 16, offset: 84495},
+																																							pos:   position{line: 2656, col: 16, offset: 84566},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2659, col: 5, offset: 84695},
+																																								pos: position{line: 2662, col: 5, offset: 84766},
 																																								run: (*parser).callonListContinuationElement1484,
 																																								expr: &labeledExpr{
-																																									pos:   position{line: 2659, col: 5, offset: 84695},
+																																									pos:   position{line: 2662, col: 5, offset: 84766},
 																																									label: "content",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2659, col: 14, offset: 84704},
+																																										pos: position{line: 2662, col: 14, offset: 84775},
 																																										run: (*parser).callonListContinuationElement1486,
 																																										expr: &zeroOrMoreExpr{
-																																											pos: position{line: 2659, col: 14, offset: 84704},
+																																											pos: position{line: 2662, col: 14, offset: 84775},
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2659, col: 14, offset: 84704},
+																																												pos:        position{line: 2662, col: 14, offset: 84775},
 																																												val:        "[^|\\r\\n]",
 																																												chars:      []rune{'|', '\r', '\n'},
 																																												ignoreCase: false,
@@ -36778,28 +36782,28 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&choiceExpr{
-																																		pos: position{line: 2911, col: 8, offset: 91796},
+																																		pos: position{line: 2914, col: 8, offset: 91867},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 2898, col: 12, offset: 91569},
+																																				pos: position{line: 2901, col: 12, offset: 91640},
 																																				run: (*parser).callonListContinuationElement1490,
 																																				expr: &choiceExpr{
-																																					pos: position{line: 2898, col: 13, offset: 91570},
+																																					pos: position{line: 2901, col: 13, offset: 91641},
 																																					alternatives: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2898, col: 13, offset: 91570},
+																																							pos:        position{line: 2901, col: 13, offset: 91641},
 																																							val:        "\n",
 																																							ignoreCase: false,
 																																							want:       "\"\\n\"",
 																																						},
 																																						&litMatcher{
-																																							pos:        position{line: 2898, col: 20, offset: 91577},
+																																							pos:        position{line: 2901, col: 20, offset: 91648},
 																																							val:        "\r\n",
 																																							ignoreCase: false,
 																																							want:       "\"\\r\\n\"",
 																																						},
 																																						&litMatcher{
-																																							pos:        position{line: 2898, col: 29, offset: 91586},
+																																							pos:        position{line: 2901, col: 29, offset: 91657},
 																																							val:        "\r",
 																																							ignoreCase: false,
 																																							want:       "\"\\r\"",
@@ -36808,9 +36812,9 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2908, col: 8, offset: 91746},
+																																				pos: position{line: 2911, col: 8, offset: 91817},
 																																				expr: &anyMatcher{
-																																					line: 2908, col: 9, offset: 91747,
+																																					line: 2911, col: 9, offset: 91818,
 																																				},
 																																			},
 																																		},
@@ -36819,40 +36823,40 @@ var g = &grammar{
 																															},
 																														},
 																														&actionExpr{
-																															pos: position{line: 2665, col: 24, offset: 84840},
+																															pos: position{line: 2668, col: 24, offset: 84911},
 																															run: (*parser).callonListContinuationElement1497,
 																															expr: &labeledExpr{
-																																pos:   position{line: 2665, col: 24, offset: 84840},
+																																pos:   position{line: 2668, col: 24, offset: 84911},
 																																label: "cells",
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 2665, col: 30, offset: 84846},
+																																	pos: position{line: 2668, col: 30, offset: 84917},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2670, col: 5, offset: 84922},
+																																		pos: position{line: 2673, col: 5, offset: 84993},
 																																		run: (*parser).callonListContinuationElement1500,
 																																		expr: &seqExpr{
-																																			pos: position{line: 2670, col: 5, offset: 84922},
+																																			pos: position{line: 2673, col: 5, offset: 84993},
 																																			exprs: []interface{}{
 																																				&notExpr{
-																																					pos: position{line: 2670, col: 5, offset: 84922},
+																																					pos: position{line: 2673, col: 5, offset: 84993},
 																																					expr: &choiceExpr{
-																																						pos: position{line: 2635, col: 22, offset: 84119},
+																																						pos: position{line: 2638, col: 22, offset: 84190},
 																																						alternatives: []interface{}{
 																																							&seqExpr{
-																																								pos: position{line: 2631, col: 19, offset: 84039},
+																																								pos: position{line: 2634, col: 19, offset: 84110},
 																																								exprs: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2631, col: 19, offset: 84039},
+																																										pos:        position{line: 2634, col: 19, offset: 84110},
 																																										val:        "|===",
 																																										ignoreCase: false,
 																																										want:       "\"|===\"",
 																																									},
 																																									&zeroOrMoreExpr{
-																																										pos: position{line: 2631, col: 26, offset: 84046},
+																																										pos: position{line: 2634, col: 26, offset: 84117},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2889, col: 10, offset: 91398},
+																																											pos: position{line: 2892, col: 10, offset: 91469},
 																																											run: (*parser).callonListContinuationElement1507,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2889, col: 10, offset: 91398},
+																																												pos:        position{line: 2892, col: 10, offset: 91469},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36861,28 +36865,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2911, col: 8, offset: 91796},
+																																										pos: position{line: 2914, col: 8, offset: 91867},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2898, col: 12, offset: 91569},
+																																												pos: position{line: 2901, col: 12, offset: 91640},
 																																												run: (*parser).callonListContinuationElement1510,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2898, col: 13, offset: 91570},
+																																													pos: position{line: 2901, col: 13, offset: 91641},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2898, col: 13, offset: 91570},
+																																															pos:        position{line: 2901, col: 13, offset: 91641},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2898, col: 20, offset: 91577},
+																																															pos:        position{line: 2901, col: 20, offset: 91648},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2898, col: 29, offset: 91586},
+																																															pos:        position{line: 2901, col: 29, offset: 91657},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36891,9 +36895,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2908, col: 8, offset: 91746},
+																																												pos: position{line: 2911, col: 8, offset: 91817},
 																																												expr: &anyMatcher{
-																																													line: 2908, col: 9, offset: 91747,
+																																													line: 2911, col: 9, offset: 91818,
 																																												},
 																																											},
 																																										},
@@ -36901,16 +36905,16 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2908, col: 8, offset: 91746},
+																																								pos: position{line: 2911, col: 8, offset: 91817},
 																																								expr: &anyMatcher{
-																																									line: 2908, col: 9, offset: 91747,
+																																									line: 2911, col: 9, offset: 91818,
 																																								},
 																																							},
 																																						},
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2671, col: 5, offset: 84945},
+																																					pos: position{line: 2674, col: 5, offset: 85016},
 																																					expr: &actionExpr{
 																																						pos: position{line: 687, col: 14, offset: 21835},
 																																						run: (*parser).callonListContinuationElement1520,
@@ -36918,18 +36922,18 @@ var g = &grammar{
 																																							pos: position{line: 687, col: 14, offset: 21835},
 																																							exprs: []interface{}{
 																																								&andExpr{
-																																									pos: position{line: 2906, col: 11, offset: 91732},
+																																									pos: position{line: 2909, col: 11, offset: 91803},
 																																									expr: &anyMatcher{
-																																										line: 2906, col: 13, offset: 91734,
+																																										line: 2909, col: 13, offset: 91805,
 																																									},
 																																								},
 																																								&zeroOrMoreExpr{
 																																									pos: position{line: 687, col: 21, offset: 21842},
 																																									expr: &actionExpr{
-																																										pos: position{line: 2889, col: 10, offset: 91398},
+																																										pos: position{line: 2892, col: 10, offset: 91469},
 																																										run: (*parser).callonListContinuationElement1525,
 																																										expr: &charClassMatcher{
-																																											pos:        position{line: 2889, col: 10, offset: 91398},
+																																											pos:        position{line: 2892, col: 10, offset: 91469},
 																																											val:        "[\\t ]",
 																																											chars:      []rune{'\t', ' '},
 																																											ignoreCase: false,
@@ -36938,28 +36942,28 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&choiceExpr{
-																																									pos: position{line: 2911, col: 8, offset: 91796},
+																																									pos: position{line: 2914, col: 8, offset: 91867},
 																																									alternatives: []interface{}{
 																																										&actionExpr{
-																																											pos: position{line: 2898, col: 12, offset: 91569},
+																																											pos: position{line: 2901, col: 12, offset: 91640},
 																																											run: (*parser).callonListContinuationElement1528,
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2898, col: 13, offset: 91570},
+																																												pos: position{line: 2901, col: 13, offset: 91641},
 																																												alternatives: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2898, col: 13, offset: 91570},
+																																														pos:        position{line: 2901, col: 13, offset: 91641},
 																																														val:        "\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2898, col: 20, offset: 91577},
+																																														pos:        position{line: 2901, col: 20, offset: 91648},
 																																														val:        "\r\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2898, col: 29, offset: 91586},
+																																														pos:        position{line: 2901, col: 29, offset: 91657},
 																																														val:        "\r",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\"",
@@ -36968,9 +36972,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2908, col: 8, offset: 91746},
+																																											pos: position{line: 2911, col: 8, offset: 91817},
 																																											expr: &anyMatcher{
-																																												line: 2908, col: 9, offset: 91747,
+																																												line: 2911, col: 9, offset: 91818,
 																																											},
 																																										},
 																																									},
@@ -36980,17 +36984,17 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 2672, col: 5, offset: 84960},
+																																					pos:   position{line: 2675, col: 5, offset: 85031},
 																																					label: "format",
 																																					expr: &zeroOrOneExpr{
-																																						pos: position{line: 2672, col: 12, offset: 84967},
+																																						pos: position{line: 2675, col: 12, offset: 85038},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2689, col: 20, offset: 85473},
+																																							pos: position{line: 2692, col: 20, offset: 85544},
 																																							run: (*parser).callonListContinuationElement1537,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2689, col: 20, offset: 85473},
+																																								pos: position{line: 2692, col: 20, offset: 85544},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2689, col: 20, offset: 85473},
+																																									pos:        position{line: 2692, col: 20, offset: 85544},
 																																									val:        "[^ |\\r\\n]",
 																																									chars:      []rune{' ', '|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -37001,18 +37005,18 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2672, col: 31, offset: 84986},
+																																					pos:        position{line: 2675, col: 31, offset: 85057},
 																																					val:        "|",
 																																					ignoreCase: false,
 																																					want:       "\"|\"",
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 2672, col: 35, offset: 84990},
+																																					pos: position{line: 2675, col: 35, offset: 85061},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2889, col: 10, offset: 91398},
+																																						pos: position{line: 2892, col: 10, offset: 91469},
 																																						run: (*parser).callonListContinuationElement1542,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2889, col: 10, offset: 91398},
+																																							pos:        position{line: 2892, col: 10, offset: 91469},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -37021,30 +37025,30 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&zeroOrOneExpr{
-																																					pos: position{line: 2672, col: 42, offset: 84997},
+																																					pos: position{line: 2675, col: 42, offset: 85068},
 																																					expr: &seqExpr{
-																																						pos: position{line: 2672, col: 43, offset: 84998},
+																																						pos: position{line: 2675, col: 43, offset: 85069},
 																																						exprs: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2898, col: 12, offset: 91569},
+																																								pos: position{line: 2901, col: 12, offset: 91640},
 																																								run: (*parser).callonListContinuationElement1546,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2898, col: 13, offset: 91570},
+																																									pos: position{line: 2901, col: 13, offset: 91641},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2898, col: 13, offset: 91570},
+																																											pos:        position{line: 2901, col: 13, offset: 91641},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2898, col: 20, offset: 91577},
+																																											pos:        position{line: 2901, col: 20, offset: 91648},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2898, col: 29, offset: 91586},
+																																											pos:        position{line: 2901, col: 29, offset: 91657},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -37053,7 +37057,7 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&zeroOrMoreExpr{
-																																								pos: position{line: 2672, col: 51, offset: 85006},
+																																								pos: position{line: 2675, col: 51, offset: 85077},
 																																								expr: &actionExpr{
 																																									pos: position{line: 2493, col: 22, offset: 80229},
 																																									run: (*parser).callonListContinuationElement1552,
@@ -37079,12 +37083,12 @@ var g = &grammar{
 																																												pos:   position{line: 2493, col: 49, offset: 80256},
 																																												label: "content",
 																																												expr: &actionExpr{
-																																													pos: position{line: 2835, col: 13, offset: 89924},
+																																													pos: position{line: 2838, col: 13, offset: 89995},
 																																													run: (*parser).callonListContinuationElement1558,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2835, col: 13, offset: 89924},
+																																														pos: position{line: 2838, col: 13, offset: 89995},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2835, col: 13, offset: 89924},
+																																															pos:        position{line: 2838, col: 13, offset: 89995},
 																																															val:        "[^\\r\\n]",
 																																															chars:      []rune{'\r', '\n'},
 																																															ignoreCase: false,
@@ -37094,28 +37098,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2911, col: 8, offset: 91796},
+																																												pos: position{line: 2914, col: 8, offset: 91867},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2898, col: 12, offset: 91569},
+																																														pos: position{line: 2901, col: 12, offset: 91640},
 																																														run: (*parser).callonListContinuationElement1562,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2898, col: 13, offset: 91570},
+																																															pos: position{line: 2901, col: 13, offset: 91641},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2898, col: 13, offset: 91570},
+																																																	pos:        position{line: 2901, col: 13, offset: 91641},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2898, col: 20, offset: 91577},
+																																																	pos:        position{line: 2901, col: 20, offset: 91648},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2898, col: 29, offset: 91586},
+																																																	pos:        position{line: 2901, col: 29, offset: 91657},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -37124,9 +37128,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2908, col: 8, offset: 91746},
+																																														pos: position{line: 2911, col: 8, offset: 91817},
 																																														expr: &anyMatcher{
-																																															line: 2908, col: 9, offset: 91747,
+																																															line: 2911, col: 9, offset: 91818,
 																																														},
 																																													},
 																																												},
@@ -37139,37 +37143,37 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 2672, col: 72, offset: 85027},
+																																					pos:   position{line: 2675, col: 72, offset: 85098},
 																																					label: "content",
 																																					expr: &zeroOrMoreExpr{
-																																						pos: position{line: 2678, col: 5, offset: 85186},
+																																						pos: position{line: 2681, col: 5, offset: 85257},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2679, col: 9, offset: 85196},
+																																							pos: position{line: 2682, col: 9, offset: 85267},
 																																							run: (*parser).callonListContinuationElement1571,
 																																							expr: &seqExpr{
-																																								pos: position{line: 2679, col: 9, offset: 85196},
+																																								pos: position{line: 2682, col: 9, offset: 85267},
 																																								exprs: []interface{}{
 																																									&notExpr{
-																																										pos: position{line: 2679, col: 9, offset: 85196},
+																																										pos: position{line: 2682, col: 9, offset: 85267},
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2635, col: 22, offset: 84119},
+																																											pos: position{line: 2638, col: 22, offset: 84190},
 																																											alternatives: []interface{}{
 																																												&seqExpr{
-																																													pos: position{line: 2631, col: 19, offset: 84039},
+																																													pos: position{line: 2634, col: 19, offset: 84110},
 																																													exprs: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2631, col: 19, offset: 84039},
+																																															pos:        position{line: 2634, col: 19, offset: 84110},
 																																															val:        "|===",
 																																															ignoreCase: false,
 																																															want:       "\"|===\"",
 																																														},
 																																														&zeroOrMoreExpr{
-																																															pos: position{line: 2631, col: 26, offset: 84046},
+																																															pos: position{line: 2634, col: 26, offset: 84117},
 																																															expr: &actionExpr{
-																																																pos: position{line: 2889, col: 10, offset: 91398},
+																																																pos: position{line: 2892, col: 10, offset: 91469},
 																																																run: (*parser).callonListContinuationElement1578,
 																																																expr: &charClassMatcher{
-																																																	pos:        position{line: 2889, col: 10, offset: 91398},
+																																																	pos:        position{line: 2892, col: 10, offset: 91469},
 																																																	val:        "[\\t ]",
 																																																	chars:      []rune{'\t', ' '},
 																																																	ignoreCase: false,
@@ -37178,28 +37182,28 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&choiceExpr{
-																																															pos: position{line: 2911, col: 8, offset: 91796},
+																																															pos: position{line: 2914, col: 8, offset: 91867},
 																																															alternatives: []interface{}{
 																																																&actionExpr{
-																																																	pos: position{line: 2898, col: 12, offset: 91569},
+																																																	pos: position{line: 2901, col: 12, offset: 91640},
 																																																	run: (*parser).callonListContinuationElement1581,
 																																																	expr: &choiceExpr{
-																																																		pos: position{line: 2898, col: 13, offset: 91570},
+																																																		pos: position{line: 2901, col: 13, offset: 91641},
 																																																		alternatives: []interface{}{
 																																																			&litMatcher{
-																																																				pos:        position{line: 2898, col: 13, offset: 91570},
+																																																				pos:        position{line: 2901, col: 13, offset: 91641},
 																																																				val:        "\n",
 																																																				ignoreCase: false,
 																																																				want:       "\"\\n\"",
 																																																			},
 																																																			&litMatcher{
-																																																				pos:        position{line: 2898, col: 20, offset: 91577},
+																																																				pos:        position{line: 2901, col: 20, offset: 91648},
 																																																				val:        "\r\n",
 																																																				ignoreCase: false,
 																																																				want:       "\"\\r\\n\"",
 																																																			},
 																																																			&litMatcher{
-																																																				pos:        position{line: 2898, col: 29, offset: 91586},
+																																																				pos:        position{line: 2901, col: 29, offset: 91657},
 																																																				val:        "\r",
 																																																				ignoreCase: false,
 																																																				want:       "\"\\r\"",
@@ -37208,9 +37212,9 @@ var g = &grammar{
 																																																	},
 																																																},
 																																																&notExpr{
-																																																	pos: position{line: 2908, col: 8, offset: 91746},
+																																																	pos: position{line: 2911, col: 8, offset: 91817},
 																																																	expr: &anyMatcher{
-																																																		line: 2908, col: 9, offset: 91747,
+																																																		line: 2911, col: 9, offset: 91818,
 																																																	},
 																																																},
 																																															},
@@ -37218,16 +37222,16 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2908, col: 8, offset: 91746},
+																																													pos: position{line: 2911, col: 8, offset: 91817},
 																																													expr: &anyMatcher{
-																																														line: 2908, col: 9, offset: 91747,
+																																														line: 2911, col: 9, offset: 91818,
 																																													},
 																																												},
 																																											},
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2680, col: 9, offset: 85223},
+																																										pos: position{line: 2683, col: 9, offset: 85294},
 																																										expr: &actionExpr{
 																																											pos: position{line: 687, col: 14, offset: 21835},
 																																											run: (*parser).callonListContinuationElement1591,
@@ -37235,18 +37239,18 @@ var g = &grammar{
 																																												pos: position{line: 687, col: 14, offset: 21835},
 																																												exprs: []interface{}{
 																																													&andExpr{
-																																														pos: position{line: 2906, col: 11, offset: 91732},
+																																														pos: position{line: 2909, col: 11, offset: 91803},
 																																														expr: &anyMatcher{
-																																															line: 2906, col: 13, offset: 91734,
+																																															line: 2909, col: 13, offset: 91805,
 																																														},
 																																													},
 																																													&zeroOrMoreExpr{
 																																														pos: position{line: 687, col: 21, offset: 21842},
 																																														expr: &actionExpr{
-																																															pos: position{line: 2889, col: 10, offset: 91398},
+																																															pos: position{line: 2892, col: 10, offset: 91469},
 																																															run: (*parser).callonListContinuationElement1596,
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2889, col: 10, offset: 91398},
+																																																pos:        position{line: 2892, col: 10, offset: 91469},
 																																																val:        "[\\t ]",
 																																																chars:      []rune{'\t', ' '},
 																																																ignoreCase: false,
@@ -37255,28 +37259,28 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&choiceExpr{
-																																														pos: position{line: 2911, col: 8, offset: 91796},
+																																														pos: position{line: 2914, col: 8, offset: 91867},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2898, col: 12, offset: 91569},
+																																																pos: position{line: 2901, col: 12, offset: 91640},
 																																																run: (*parser).callonListContinuationElement1599,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2898, col: 13, offset: 91570},
+																																																	pos: position{line: 2901, col: 13, offset: 91641},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2898, col: 13, offset: 91570},
+																																																			pos:        position{line: 2901, col: 13, offset: 91641},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2898, col: 20, offset: 91577},
+																																																			pos:        position{line: 2901, col: 20, offset: 91648},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2898, col: 29, offset: 91586},
+																																																			pos:        position{line: 2901, col: 29, offset: 91657},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -37285,9 +37289,9 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2908, col: 8, offset: 91746},
+																																																pos: position{line: 2911, col: 8, offset: 91817},
 																																																expr: &anyMatcher{
-																																																	line: 2908, col: 9, offset: 91747,
+																																																	line: 2911, col: 9, offset: 91818,
 																																																},
 																																															},
 																																														},
@@ -37297,22 +37301,22 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2681, col: 9, offset: 85242},
+																																										pos: position{line: 2684, col: 9, offset: 85313},
 																																										expr: &seqExpr{
-																																											pos: position{line: 2681, col: 11, offset: 85244},
+																																											pos: position{line: 2684, col: 11, offset: 85315},
 																																											exprs: []interface{}{
 																																												&labeledExpr{
-																																													pos:   position{line: 2681, col: 11, offset: 85244},
+																																													pos:   position{line: 2684, col: 11, offset: 85315},
 																																													label: "format",
 																																													expr: &zeroOrOneExpr{
-																																														pos: position{line: 2681, col: 18, offset: 85251},
+																																														pos: position{line: 2684, col: 18, offset: 85322},
 																																														expr: &actionExpr{
-																																															pos: position{line: 2689, col: 20, offset: 85473},
+																																															pos: position{line: 2692, col: 20, offset: 85544},
 																																															run: (*parser).callonListContinuationElement1610,
 																																															expr: &zeroOrMoreExpr{
-																																																pos: position{line: 2689, col: 20, offset: 85473},
+																																																pos: position{line: 2692, col: 20, offset: 85544},
 																																																expr: &charClassMatcher{
-																																																	pos:        position{line: 2689, col: 20, offset: 85473},
+																																																	pos:        position{line: 2692, col: 20, offset: 85544},
 																																																	val:        "[^ |\\r\\n]",
 																																																	chars:      []rune{' ', '|', '\r', '\n'},
 																																																	ignoreCase: false,
@@ -37323,7 +37327,7 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2681, col: 37, offset: 85270},
+																																													pos:        position{line: 2684, col: 37, offset: 85341},
 																																													val:        "|",
 																																													ignoreCase: false,
 																																													want:       "\"|\"",
@@ -37332,15 +37336,15 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&labeledExpr{
-																																										pos:   position{line: 2682, col: 9, offset: 85283},
+																																										pos:   position{line: 2685, col: 9, offset: 85354},
 																																										label: "content",
 																																										expr: &actionExpr{
-																																											pos: position{line: 2682, col: 18, offset: 85292},
+																																											pos: position{line: 2685, col: 18, offset: 85363},
 																																											run: (*parser).callonListContinuationElement1615,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2682, col: 18, offset: 85292},
+																																												pos: position{line: 2685, col: 18, offset: 85363},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2682, col: 18, offset: 85292},
+																																													pos:        position{line: 2685, col: 18, offset: 85363},
 																																													val:        "[^|\\r\\n]",
 																																													chars:      []rune{'|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -37350,33 +37354,33 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&zeroOrOneExpr{
-																																										pos: position{line: 2684, col: 12, offset: 85354},
+																																										pos: position{line: 2687, col: 12, offset: 85425},
 																																										expr: &seqExpr{
-																																											pos: position{line: 2684, col: 13, offset: 85355},
+																																											pos: position{line: 2687, col: 13, offset: 85426},
 																																											exprs: []interface{}{
 																																												&choiceExpr{
-																																													pos: position{line: 2911, col: 8, offset: 91796},
+																																													pos: position{line: 2914, col: 8, offset: 91867},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2898, col: 12, offset: 91569},
+																																															pos: position{line: 2901, col: 12, offset: 91640},
 																																															run: (*parser).callonListContinuationElement1621,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2898, col: 13, offset: 91570},
+																																																pos: position{line: 2901, col: 13, offset: 91641},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2898, col: 13, offset: 91570},
+																																																		pos:        position{line: 2901, col: 13, offset: 91641},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2898, col: 20, offset: 91577},
+																																																		pos:        position{line: 2901, col: 20, offset: 91648},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2898, col: 29, offset: 91586},
+																																																		pos:        position{line: 2901, col: 29, offset: 91657},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -37385,15 +37389,15 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2908, col: 8, offset: 91746},
+																																															pos: position{line: 2911, col: 8, offset: 91817},
 																																															expr: &anyMatcher{
-																																																line: 2908, col: 9, offset: 91747,
+																																																line: 2911, col: 9, offset: 91818,
 																																															},
 																																														},
 																																													},
 																																												},
 																																												&zeroOrMoreExpr{
-																																													pos: position{line: 2684, col: 17, offset: 85359},
+																																													pos: position{line: 2687, col: 17, offset: 85430},
 																																													expr: &actionExpr{
 																																														pos: position{line: 2493, col: 22, offset: 80229},
 																																														run: (*parser).callonListContinuationElement1629,
@@ -37419,12 +37423,12 @@ var g = &grammar{
 																																																	pos:   position{line: 2493, col: 49, offset: 80256},
 																																																	label: "content",
 																																																	expr: &actionExpr{
-																																																		pos: position{line: 2835, col: 13, offset: 89924},
+																																																		pos: position{line: 2838, col: 13, offset: 89995},
 																																																		run: (*parser).callonListContinuationElement1635,
 																																																		expr: &zeroOrMoreExpr{
-																																																			pos: position{line: 2835, col: 13, offset: 89924},
+																																																			pos: position{line: 2838, col: 13, offset: 89995},
 																																																			expr: &charClassMatcher{
-																																																				pos:        position{line: 2835, col: 13, offset: 89924},
+																																																				pos:        position{line: 2838, col: 13, offset: 89995},
 																																																				val:        "[^\\r\\n]",
 																																																				chars:      []rune{'\r', '\n'},
 																																																				ignoreCase: false,
@@ -37434,28 +37438,28 @@ var g = &grammar{
 																																																	},
 																																																},
 																																																&choiceExpr{
-																																																	pos: position{line: 2911, col: 8, offset: 91796},
+																																																	pos: position{line: 2914, col: 8, offset: 91867},
 																																																	alternatives: []interface{}{
 																																																		&actionExpr{
-																																																			pos: position{line: 2898, col: 12, offset: 91569},
+																																																			pos: position{line: 2901, col: 12, offset: 91640},
 																																																			run: (*parser).callonListContinuationElement1639,
 																																																			expr: &choiceExpr{
-																																																				pos: position{line: 2898, col: 13, offset: 91570},
+																																																				pos: position{line: 2901, col: 13, offset: 91641},
 																																																				alternatives: []interface{}{
 																																																					&litMatcher{
-																																																						pos:        position{line: 2898, col: 13, offset: 91570},
+																																																						pos:        position{line: 2901, col: 13, offset: 91641},
 																																																						val:        "\n",
 																																																						ignoreCase: false,
 																																																						want:       "\"\\n\"",
 																																																					},
 																																																					&litMatcher{
-																																																						pos:        position{line: 2898, col: 20, offset: 91577},
+																																																						pos:        position{line: 2901, col: 20, offset: 91648},
 																																																						val:        "\r\n",
 																																																						ignoreCase: false,
 																																																						want:       "\"\\r\\n\"",
 																																																					},
 																																																					&litMatcher{
-																																																						pos:        position{line: 2898, col: 29, offset: 91586},
+																																																						pos:        position{line: 2901, col: 29, offset: 91657},
 																																																						val:        "\r",
 																																																						ignoreCase: false,
 																																																						want:       "\"\\r\"",
@@ -37464,9 +37468,9 @@ var g = &grammar{
 																																																			},
 																																																		},
 																																																		&notExpr{
-																																																			pos: position{line: 2908, col: 8, offset: 91746},
+																																																			pos: position{line: 2911, col: 8, offset: 91817},
 																																																			expr: &anyMatcher{
-																																																				line: 2908, col: 9, offset: 91747,
+																																																				line: 2911, col: 9, offset: 91818,
 																																																			},
 																																																		},
 																																																	},
@@ -37500,18 +37504,18 @@ var g = &grammar{
 																												pos: position{line: 687, col: 14, offset: 21835},
 																												exprs: []interface{}{
 																													&andExpr{
-																														pos: position{line: 2906, col: 11, offset: 91732},
+																														pos: position{line: 2909, col: 11, offset: 91803},
 																														expr: &anyMatcher{
-																															line: 2906, col: 13, offset: 91734,
+																															line: 2909, col: 13, offset: 91805,
 																														},
 																													},
 																													&zeroOrMoreExpr{
 																														pos: position{line: 687, col: 21, offset: 21842},
 																														expr: &actionExpr{
-																															pos: position{line: 2889, col: 10, offset: 91398},
+																															pos: position{line: 2892, col: 10, offset: 91469},
 																															run: (*parser).callonListContinuationElement1651,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 2889, col: 10, offset: 91398},
+																																pos:        position{line: 2892, col: 10, offset: 91469},
 																																val:        "[\\t ]",
 																																chars:      []rune{'\t', ' '},
 																																ignoreCase: false,
@@ -37520,28 +37524,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2911, col: 8, offset: 91796},
+																														pos: position{line: 2914, col: 8, offset: 91867},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2898, col: 12, offset: 91569},
+																																pos: position{line: 2901, col: 12, offset: 91640},
 																																run: (*parser).callonListContinuationElement1654,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2898, col: 13, offset: 91570},
+																																	pos: position{line: 2901, col: 13, offset: 91641},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2898, col: 13, offset: 91570},
+																																			pos:        position{line: 2901, col: 13, offset: 91641},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2898, col: 20, offset: 91577},
+																																			pos:        position{line: 2901, col: 20, offset: 91648},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2898, col: 29, offset: 91586},
+																																			pos:        position{line: 2901, col: 29, offset: 91657},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -37550,9 +37554,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2908, col: 8, offset: 91746},
+																																pos: position{line: 2911, col: 8, offset: 91817},
 																																expr: &anyMatcher{
-																																	line: 2908, col: 9, offset: 91747,
+																																	line: 2911, col: 9, offset: 91818,
 																																},
 																															},
 																														},
@@ -37570,7 +37574,7 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2623, col: 9, offset: 83870},
+																		pos: position{line: 2626, col: 9, offset: 83941},
 																		expr: &actionExpr{
 																			pos: position{line: 2493, col: 22, offset: 80229},
 																			run: (*parser).callonListContinuationElement1662,
@@ -37596,12 +37600,12 @@ var g = &grammar{
 																						pos:   position{line: 2493, col: 49, offset: 80256},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2835, col: 13, offset: 89924},
+																							pos: position{line: 2838, col: 13, offset: 89995},
 																							run: (*parser).callonListContinuationElement1668,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2835, col: 13, offset: 89924},
+																								pos: position{line: 2838, col: 13, offset: 89995},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2835, col: 13, offset: 89924},
+																									pos:        position{line: 2838, col: 13, offset: 89995},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -37611,28 +37615,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2911, col: 8, offset: 91796},
+																						pos: position{line: 2914, col: 8, offset: 91867},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2898, col: 12, offset: 91569},
+																								pos: position{line: 2901, col: 12, offset: 91640},
 																								run: (*parser).callonListContinuationElement1672,
 																								expr: &choiceExpr{
-																									pos: position{line: 2898, col: 13, offset: 91570},
+																									pos: position{line: 2901, col: 13, offset: 91641},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											pos:        position{line: 2901, col: 13, offset: 91641},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											pos:        position{line: 2901, col: 20, offset: 91648},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											pos:        position{line: 2901, col: 29, offset: 91657},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -37641,9 +37645,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 8, offset: 91746},
+																								pos: position{line: 2911, col: 8, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2908, col: 9, offset: 91747,
+																									line: 2911, col: 9, offset: 91818,
 																								},
 																							},
 																						},
@@ -37658,24 +37662,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2635, col: 22, offset: 84119},
+													pos: position{line: 2638, col: 22, offset: 84190},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2631, col: 19, offset: 84039},
+															pos: position{line: 2634, col: 19, offset: 84110},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2631, col: 19, offset: 84039},
+																	pos:        position{line: 2634, col: 19, offset: 84110},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2631, col: 26, offset: 84046},
+																	pos: position{line: 2634, col: 26, offset: 84117},
 																	expr: &actionExpr{
-																		pos: position{line: 2889, col: 10, offset: 91398},
+																		pos: position{line: 2892, col: 10, offset: 91469},
 																		run: (*parser).callonListContinuationElement1683,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2889, col: 10, offset: 91398},
+																			pos:        position{line: 2892, col: 10, offset: 91469},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37684,28 +37688,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonListContinuationElement1686,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37714,9 +37718,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -37724,9 +37728,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2908, col: 8, offset: 91746},
+															pos: position{line: 2911, col: 8, offset: 91817},
 															expr: &anyMatcher{
-																line: 2908, col: 9, offset: 91747,
+																line: 2911, col: 9, offset: 91818,
 															},
 														},
 													},
@@ -37759,12 +37763,12 @@ var g = &grammar{
 													pos:   position{line: 2493, col: 49, offset: 80256},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2835, col: 13, offset: 89924},
+														pos: position{line: 2838, col: 13, offset: 89995},
 														run: (*parser).callonListContinuationElement1701,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2835, col: 13, offset: 89924},
+															pos: position{line: 2838, col: 13, offset: 89995},
 															expr: &charClassMatcher{
-																pos:        position{line: 2835, col: 13, offset: 89924},
+																pos:        position{line: 2838, col: 13, offset: 89995},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37774,28 +37778,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2911, col: 8, offset: 91796},
+													pos: position{line: 2914, col: 8, offset: 91867},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2898, col: 12, offset: 91569},
+															pos: position{line: 2901, col: 12, offset: 91640},
 															run: (*parser).callonListContinuationElement1705,
 															expr: &choiceExpr{
-																pos: position{line: 2898, col: 13, offset: 91570},
+																pos: position{line: 2901, col: 13, offset: 91641},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 13, offset: 91570},
+																		pos:        position{line: 2901, col: 13, offset: 91641},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 20, offset: 91577},
+																		pos:        position{line: 2901, col: 20, offset: 91648},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 29, offset: 91586},
+																		pos:        position{line: 2901, col: 29, offset: 91657},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37804,9 +37808,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2908, col: 8, offset: 91746},
+															pos: position{line: 2911, col: 8, offset: 91817},
 															expr: &anyMatcher{
-																line: 2908, col: 9, offset: 91747,
+																line: 2911, col: 9, offset: 91818,
 															},
 														},
 													},
@@ -37897,12 +37901,12 @@ var g = &grammar{
 																					expr: &andExpr{
 																						pos: position{line: 1761, col: 13, offset: 56899},
 																						expr: &actionExpr{
-																							pos: position{line: 2893, col: 11, offset: 91459},
+																							pos: position{line: 2896, col: 11, offset: 91530},
 																							run: (*parser).callonListContinuationElement1733,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2893, col: 11, offset: 91459},
+																								pos: position{line: 2896, col: 11, offset: 91530},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2893, col: 11, offset: 91459},
+																									pos:        position{line: 2896, col: 11, offset: 91530},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37938,18 +37942,18 @@ var g = &grammar{
 																			pos: position{line: 687, col: 14, offset: 21835},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2906, col: 11, offset: 91732},
+																					pos: position{line: 2909, col: 11, offset: 91803},
 																					expr: &anyMatcher{
-																						line: 2906, col: 13, offset: 91734,
+																						line: 2909, col: 13, offset: 91805,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 687, col: 21, offset: 21842},
 																					expr: &actionExpr{
-																						pos: position{line: 2889, col: 10, offset: 91398},
+																						pos: position{line: 2892, col: 10, offset: 91469},
 																						run: (*parser).callonListContinuationElement1745,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2889, col: 10, offset: 91398},
+																							pos:        position{line: 2892, col: 10, offset: 91469},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37958,28 +37962,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2911, col: 8, offset: 91796},
+																					pos: position{line: 2914, col: 8, offset: 91867},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2898, col: 12, offset: 91569},
+																							pos: position{line: 2901, col: 12, offset: 91640},
 																							run: (*parser).callonListContinuationElement1748,
 																							expr: &choiceExpr{
-																								pos: position{line: 2898, col: 13, offset: 91570},
+																								pos: position{line: 2901, col: 13, offset: 91641},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 13, offset: 91570},
+																										pos:        position{line: 2901, col: 13, offset: 91641},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 20, offset: 91577},
+																										pos:        position{line: 2901, col: 20, offset: 91648},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 29, offset: 91586},
+																										pos:        position{line: 2901, col: 29, offset: 91657},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37988,9 +37992,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2908, col: 8, offset: 91746},
+																							pos: position{line: 2911, col: 8, offset: 91817},
 																							expr: &anyMatcher{
-																								line: 2908, col: 9, offset: 91747,
+																								line: 2911, col: 9, offset: 91818,
 																							},
 																						},
 																					},
@@ -38013,10 +38017,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 1558, col: 31, offset: 50388},
 																				expr: &actionExpr{
-																					pos: position{line: 2889, col: 10, offset: 91398},
+																					pos: position{line: 2892, col: 10, offset: 91469},
 																					run: (*parser).callonListContinuationElement1759,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2889, col: 10, offset: 91398},
+																						pos:        position{line: 2892, col: 10, offset: 91469},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -38025,25 +38029,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2898, col: 12, offset: 91569},
+																				pos: position{line: 2901, col: 12, offset: 91640},
 																				run: (*parser).callonListContinuationElement1761,
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 13, offset: 91570},
+																					pos: position{line: 2901, col: 13, offset: 91641},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 13, offset: 91570},
+																							pos:        position{line: 2901, col: 13, offset: 91641},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 20, offset: 91577},
+																							pos:        position{line: 2901, col: 20, offset: 91648},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 29, offset: 91586},
+																							pos:        position{line: 2901, col: 29, offset: 91657},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -38065,10 +38069,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1599, col: 5, offset: 51603},
 																					expr: &actionExpr{
-																						pos: position{line: 2889, col: 10, offset: 91398},
+																						pos: position{line: 2892, col: 10, offset: 91469},
 																						run: (*parser).callonListContinuationElement1770,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2889, col: 10, offset: 91398},
+																							pos:        position{line: 2892, col: 10, offset: 91469},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38235,12 +38239,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2893, col: 11, offset: 91459},
+																					pos: position{line: 2896, col: 11, offset: 91530},
 																					run: (*parser).callonListContinuationElement1804,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2893, col: 11, offset: 91459},
+																						pos: position{line: 2896, col: 11, offset: 91530},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2893, col: 11, offset: 91459},
+																							pos:        position{line: 2896, col: 11, offset: 91530},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38263,10 +38267,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1649, col: 5, offset: 53565},
 																					expr: &actionExpr{
-																						pos: position{line: 2889, col: 10, offset: 91398},
+																						pos: position{line: 2892, col: 10, offset: 91469},
 																						run: (*parser).callonListContinuationElement1811,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2889, col: 10, offset: 91398},
+																							pos:        position{line: 2892, col: 10, offset: 91469},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38307,12 +38311,12 @@ var g = &grammar{
 																					run: (*parser).callonListContinuationElement1819,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2893, col: 11, offset: 91459},
+																					pos: position{line: 2896, col: 11, offset: 91530},
 																					run: (*parser).callonListContinuationElement1820,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2893, col: 11, offset: 91459},
+																						pos: position{line: 2896, col: 11, offset: 91530},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2893, col: 11, offset: 91459},
+																							pos:        position{line: 2896, col: 11, offset: 91530},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38363,12 +38367,12 @@ var g = &grammar{
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2893, col: 11, offset: 91459},
+																					pos: position{line: 2896, col: 11, offset: 91530},
 																					run: (*parser).callonListContinuationElement1832,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2893, col: 11, offset: 91459},
+																						pos: position{line: 2896, col: 11, offset: 91530},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2893, col: 11, offset: 91459},
+																							pos:        position{line: 2896, col: 11, offset: 91530},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38455,28 +38459,28 @@ var g = &grammar{
 																									&notExpr{
 																										pos: position{line: 1685, col: 35, offset: 54646},
 																										expr: &choiceExpr{
-																											pos: position{line: 2911, col: 8, offset: 91796},
+																											pos: position{line: 2914, col: 8, offset: 91867},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2898, col: 12, offset: 91569},
+																													pos: position{line: 2901, col: 12, offset: 91640},
 																													run: (*parser).callonListContinuationElement1856,
 																													expr: &choiceExpr{
-																														pos: position{line: 2898, col: 13, offset: 91570},
+																														pos: position{line: 2901, col: 13, offset: 91641},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 13, offset: 91570},
+																																pos:        position{line: 2901, col: 13, offset: 91641},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 20, offset: 91577},
+																																pos:        position{line: 2901, col: 20, offset: 91648},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 29, offset: 91586},
+																																pos:        position{line: 2901, col: 29, offset: 91657},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38485,9 +38489,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2908, col: 8, offset: 91746},
+																													pos: position{line: 2911, col: 8, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2908, col: 9, offset: 91747,
+																														line: 2911, col: 9, offset: 91818,
 																													},
 																												},
 																											},
@@ -38546,7 +38550,7 @@ var g = &grammar{
 																				&notExpr{
 																					pos: position{line: 734, col: 5, offset: 23388},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2779, col: 13, offset: 88493},
+																						pos:        position{line: 2782, col: 13, offset: 88564},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -38596,10 +38600,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 752, col: 8, offset: 24032},
 																											expr: &actionExpr{
-																												pos: position{line: 2889, col: 10, offset: 91398},
+																												pos: position{line: 2892, col: 10, offset: 91469},
 																												run: (*parser).callonListContinuationElement1887,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2889, col: 10, offset: 91398},
+																													pos:        position{line: 2892, col: 10, offset: 91469},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38608,28 +38612,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2911, col: 8, offset: 91796},
+																											pos: position{line: 2914, col: 8, offset: 91867},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2898, col: 12, offset: 91569},
+																													pos: position{line: 2901, col: 12, offset: 91640},
 																													run: (*parser).callonListContinuationElement1890,
 																													expr: &choiceExpr{
-																														pos: position{line: 2898, col: 13, offset: 91570},
+																														pos: position{line: 2901, col: 13, offset: 91641},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 13, offset: 91570},
+																																pos:        position{line: 2901, col: 13, offset: 91641},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 20, offset: 91577},
+																																pos:        position{line: 2901, col: 20, offset: 91648},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 29, offset: 91586},
+																																pos:        position{line: 2901, col: 29, offset: 91657},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38638,9 +38642,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2908, col: 8, offset: 91746},
+																													pos: position{line: 2911, col: 8, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2908, col: 9, offset: 91747,
+																														line: 2911, col: 9, offset: 91818,
 																													},
 																												},
 																											},
@@ -38685,10 +38689,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 759, col: 8, offset: 24280},
 																											expr: &actionExpr{
-																												pos: position{line: 2889, col: 10, offset: 91398},
+																												pos: position{line: 2892, col: 10, offset: 91469},
 																												run: (*parser).callonListContinuationElement1906,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2889, col: 10, offset: 91398},
+																													pos:        position{line: 2892, col: 10, offset: 91469},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38697,28 +38701,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2911, col: 8, offset: 91796},
+																											pos: position{line: 2914, col: 8, offset: 91867},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2898, col: 12, offset: 91569},
+																													pos: position{line: 2901, col: 12, offset: 91640},
 																													run: (*parser).callonListContinuationElement1909,
 																													expr: &choiceExpr{
-																														pos: position{line: 2898, col: 13, offset: 91570},
+																														pos: position{line: 2901, col: 13, offset: 91641},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 13, offset: 91570},
+																																pos:        position{line: 2901, col: 13, offset: 91641},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 20, offset: 91577},
+																																pos:        position{line: 2901, col: 20, offset: 91648},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 29, offset: 91586},
+																																pos:        position{line: 2901, col: 29, offset: 91657},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38727,9 +38731,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2908, col: 8, offset: 91746},
+																													pos: position{line: 2911, col: 8, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2908, col: 9, offset: 91747,
+																														line: 2911, col: 9, offset: 91818,
 																													},
 																												},
 																											},
@@ -38770,10 +38774,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 770, col: 52, offset: 24692},
 																											expr: &actionExpr{
-																												pos: position{line: 2889, col: 10, offset: 91398},
+																												pos: position{line: 2892, col: 10, offset: 91469},
 																												run: (*parser).callonListContinuationElement1924,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2889, col: 10, offset: 91398},
+																													pos:        position{line: 2892, col: 10, offset: 91469},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38782,28 +38786,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2911, col: 8, offset: 91796},
+																											pos: position{line: 2914, col: 8, offset: 91867},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2898, col: 12, offset: 91569},
+																													pos: position{line: 2901, col: 12, offset: 91640},
 																													run: (*parser).callonListContinuationElement1927,
 																													expr: &choiceExpr{
-																														pos: position{line: 2898, col: 13, offset: 91570},
+																														pos: position{line: 2901, col: 13, offset: 91641},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 13, offset: 91570},
+																																pos:        position{line: 2901, col: 13, offset: 91641},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 20, offset: 91577},
+																																pos:        position{line: 2901, col: 20, offset: 91648},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 29, offset: 91586},
+																																pos:        position{line: 2901, col: 29, offset: 91657},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38812,9 +38816,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2908, col: 8, offset: 91746},
+																													pos: position{line: 2911, col: 8, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2908, col: 9, offset: 91747,
+																														line: 2911, col: 9, offset: 91818,
 																													},
 																												},
 																											},
@@ -38859,10 +38863,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 766, col: 8, offset: 24526},
 																											expr: &actionExpr{
-																												pos: position{line: 2889, col: 10, offset: 91398},
+																												pos: position{line: 2892, col: 10, offset: 91469},
 																												run: (*parser).callonListContinuationElement1943,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2889, col: 10, offset: 91398},
+																													pos:        position{line: 2892, col: 10, offset: 91469},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38871,28 +38875,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2911, col: 8, offset: 91796},
+																											pos: position{line: 2914, col: 8, offset: 91867},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2898, col: 12, offset: 91569},
+																													pos: position{line: 2901, col: 12, offset: 91640},
 																													run: (*parser).callonListContinuationElement1946,
 																													expr: &choiceExpr{
-																														pos: position{line: 2898, col: 13, offset: 91570},
+																														pos: position{line: 2901, col: 13, offset: 91641},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 13, offset: 91570},
+																																pos:        position{line: 2901, col: 13, offset: 91641},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 20, offset: 91577},
+																																pos:        position{line: 2901, col: 20, offset: 91648},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 29, offset: 91586},
+																																pos:        position{line: 2901, col: 29, offset: 91657},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38901,9 +38905,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2908, col: 8, offset: 91746},
+																													pos: position{line: 2911, col: 8, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2908, col: 9, offset: 91747,
+																														line: 2911, col: 9, offset: 91818,
 																													},
 																												},
 																											},
@@ -38948,10 +38952,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 781, col: 8, offset: 25064},
 																											expr: &actionExpr{
-																												pos: position{line: 2889, col: 10, offset: 91398},
+																												pos: position{line: 2892, col: 10, offset: 91469},
 																												run: (*parser).callonListContinuationElement1962,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2889, col: 10, offset: 91398},
+																													pos:        position{line: 2892, col: 10, offset: 91469},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38960,28 +38964,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2911, col: 8, offset: 91796},
+																											pos: position{line: 2914, col: 8, offset: 91867},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2898, col: 12, offset: 91569},
+																													pos: position{line: 2901, col: 12, offset: 91640},
 																													run: (*parser).callonListContinuationElement1965,
 																													expr: &choiceExpr{
-																														pos: position{line: 2898, col: 13, offset: 91570},
+																														pos: position{line: 2901, col: 13, offset: 91641},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 13, offset: 91570},
+																																pos:        position{line: 2901, col: 13, offset: 91641},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 20, offset: 91577},
+																																pos:        position{line: 2901, col: 20, offset: 91648},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 29, offset: 91586},
+																																pos:        position{line: 2901, col: 29, offset: 91657},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38990,9 +38994,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2908, col: 8, offset: 91746},
+																													pos: position{line: 2911, col: 8, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2908, col: 9, offset: 91747,
+																														line: 2911, col: 9, offset: 91818,
 																													},
 																												},
 																											},
@@ -39037,10 +39041,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 795, col: 8, offset: 25540},
 																											expr: &actionExpr{
-																												pos: position{line: 2889, col: 10, offset: 91398},
+																												pos: position{line: 2892, col: 10, offset: 91469},
 																												run: (*parser).callonListContinuationElement1981,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2889, col: 10, offset: 91398},
+																													pos:        position{line: 2892, col: 10, offset: 91469},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39049,28 +39053,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2911, col: 8, offset: 91796},
+																											pos: position{line: 2914, col: 8, offset: 91867},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2898, col: 12, offset: 91569},
+																													pos: position{line: 2901, col: 12, offset: 91640},
 																													run: (*parser).callonListContinuationElement1984,
 																													expr: &choiceExpr{
-																														pos: position{line: 2898, col: 13, offset: 91570},
+																														pos: position{line: 2901, col: 13, offset: 91641},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 13, offset: 91570},
+																																pos:        position{line: 2901, col: 13, offset: 91641},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 20, offset: 91577},
+																																pos:        position{line: 2901, col: 20, offset: 91648},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 29, offset: 91586},
+																																pos:        position{line: 2901, col: 29, offset: 91657},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39079,9 +39083,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2908, col: 8, offset: 91746},
+																													pos: position{line: 2911, col: 8, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2908, col: 9, offset: 91747,
+																														line: 2911, col: 9, offset: 91818,
 																													},
 																												},
 																											},
@@ -39126,10 +39130,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 802, col: 8, offset: 25792},
 																											expr: &actionExpr{
-																												pos: position{line: 2889, col: 10, offset: 91398},
+																												pos: position{line: 2892, col: 10, offset: 91469},
 																												run: (*parser).callonListContinuationElement2000,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2889, col: 10, offset: 91398},
+																													pos:        position{line: 2892, col: 10, offset: 91469},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39138,28 +39142,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2911, col: 8, offset: 91796},
+																											pos: position{line: 2914, col: 8, offset: 91867},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2898, col: 12, offset: 91569},
+																													pos: position{line: 2901, col: 12, offset: 91640},
 																													run: (*parser).callonListContinuationElement2003,
 																													expr: &choiceExpr{
-																														pos: position{line: 2898, col: 13, offset: 91570},
+																														pos: position{line: 2901, col: 13, offset: 91641},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 13, offset: 91570},
+																																pos:        position{line: 2901, col: 13, offset: 91641},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 20, offset: 91577},
+																																pos:        position{line: 2901, col: 20, offset: 91648},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 29, offset: 91586},
+																																pos:        position{line: 2901, col: 29, offset: 91657},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39168,9 +39172,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2908, col: 8, offset: 91746},
+																													pos: position{line: 2911, col: 8, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2908, col: 9, offset: 91747,
+																														line: 2911, col: 9, offset: 91818,
 																													},
 																												},
 																											},
@@ -39215,10 +39219,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 809, col: 8, offset: 26042},
 																											expr: &actionExpr{
-																												pos: position{line: 2889, col: 10, offset: 91398},
+																												pos: position{line: 2892, col: 10, offset: 91469},
 																												run: (*parser).callonListContinuationElement2019,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2889, col: 10, offset: 91398},
+																													pos:        position{line: 2892, col: 10, offset: 91469},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39227,28 +39231,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2911, col: 8, offset: 91796},
+																											pos: position{line: 2914, col: 8, offset: 91867},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2898, col: 12, offset: 91569},
+																													pos: position{line: 2901, col: 12, offset: 91640},
 																													run: (*parser).callonListContinuationElement2022,
 																													expr: &choiceExpr{
-																														pos: position{line: 2898, col: 13, offset: 91570},
+																														pos: position{line: 2901, col: 13, offset: 91641},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 13, offset: 91570},
+																																pos:        position{line: 2901, col: 13, offset: 91641},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 20, offset: 91577},
+																																pos:        position{line: 2901, col: 20, offset: 91648},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 29, offset: 91586},
+																																pos:        position{line: 2901, col: 29, offset: 91657},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39257,9 +39261,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2908, col: 8, offset: 91746},
+																													pos: position{line: 2911, col: 8, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2908, col: 9, offset: 91747,
+																														line: 2911, col: 9, offset: 91818,
 																													},
 																												},
 																											},
@@ -39304,10 +39308,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 816, col: 8, offset: 26288},
 																											expr: &actionExpr{
-																												pos: position{line: 2889, col: 10, offset: 91398},
+																												pos: position{line: 2892, col: 10, offset: 91469},
 																												run: (*parser).callonListContinuationElement2038,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2889, col: 10, offset: 91398},
+																													pos:        position{line: 2892, col: 10, offset: 91469},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39316,28 +39320,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2911, col: 8, offset: 91796},
+																											pos: position{line: 2914, col: 8, offset: 91867},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2898, col: 12, offset: 91569},
+																													pos: position{line: 2901, col: 12, offset: 91640},
 																													run: (*parser).callonListContinuationElement2041,
 																													expr: &choiceExpr{
-																														pos: position{line: 2898, col: 13, offset: 91570},
+																														pos: position{line: 2901, col: 13, offset: 91641},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 13, offset: 91570},
+																																pos:        position{line: 2901, col: 13, offset: 91641},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 20, offset: 91577},
+																																pos:        position{line: 2901, col: 20, offset: 91648},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2898, col: 29, offset: 91586},
+																																pos:        position{line: 2901, col: 29, offset: 91657},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39346,9 +39350,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2908, col: 8, offset: 91746},
+																													pos: position{line: 2911, col: 8, offset: 91817},
 																													expr: &anyMatcher{
-																														line: 2908, col: 9, offset: 91747,
+																														line: 2911, col: 9, offset: 91818,
 																													},
 																												},
 																											},
@@ -39367,12 +39371,12 @@ var g = &grammar{
 																	pos:   position{line: 1534, col: 5, offset: 49756},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2839, col: 14, offset: 89991},
+																		pos: position{line: 2842, col: 14, offset: 90062},
 																		run: (*parser).callonListContinuationElement2049,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2839, col: 14, offset: 89991},
+																			pos: position{line: 2842, col: 14, offset: 90062},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2839, col: 14, offset: 89991},
+																				pos:        position{line: 2842, col: 14, offset: 90062},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -39382,28 +39386,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonListContinuationElement2053,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -39412,9 +39416,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -39479,10 +39483,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1728, col: 66, offset: 55834},
 							expr: &actionExpr{
-								pos: position{line: 2889, col: 10, offset: 91398},
+								pos: position{line: 2892, col: 10, offset: 91469},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2889, col: 10, offset: 91398},
+									pos:        position{line: 2892, col: 10, offset: 91469},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -39496,25 +39500,25 @@ var g = &grammar{
 								pos: position{line: 1728, col: 75, offset: 55843},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2898, col: 12, offset: 91569},
+										pos: position{line: 2901, col: 12, offset: 91640},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2898, col: 13, offset: 91570},
+											pos: position{line: 2901, col: 13, offset: 91641},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2898, col: 13, offset: 91570},
+													pos:        position{line: 2901, col: 13, offset: 91641},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2898, col: 20, offset: 91577},
+													pos:        position{line: 2901, col: 20, offset: 91648},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2898, col: 29, offset: 91586},
+													pos:        position{line: 2901, col: 29, offset: 91657},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -39523,9 +39527,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2908, col: 8, offset: 91746},
+										pos: position{line: 2911, col: 8, offset: 91817},
 										expr: &anyMatcher{
-											line: 2908, col: 9, offset: 91747,
+											line: 2911, col: 9, offset: 91818,
 										},
 									},
 									&ruleRefExpr{
@@ -39554,7 +39558,7 @@ var g = &grammar{
 								pos: position{line: 1769, col: 7, offset: 57098},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2779, col: 13, offset: 88493},
+										pos:        position{line: 2782, col: 13, offset: 88564},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
@@ -39573,12 +39577,12 @@ var g = &grammar{
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2893, col: 11, offset: 91459},
+													pos: position{line: 2896, col: 11, offset: 91530},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2893, col: 11, offset: 91459},
+														pos: position{line: 2896, col: 11, offset: 91530},
 														expr: &charClassMatcher{
-															pos:        position{line: 2893, col: 11, offset: 91459},
+															pos:        position{line: 2896, col: 11, offset: 91530},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -39669,12 +39673,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1761, col: 13, offset: 56899},
 																expr: &actionExpr{
-																	pos: position{line: 2893, col: 11, offset: 91459},
+																	pos: position{line: 2896, col: 11, offset: 91530},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2893, col: 11, offset: 91459},
+																		pos: position{line: 2896, col: 11, offset: 91530},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2893, col: 11, offset: 91459},
+																			pos:        position{line: 2896, col: 11, offset: 91530},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39705,12 +39709,12 @@ var g = &grammar{
 											pos:   position{line: 1807, col: 5, offset: 58385},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2839, col: 14, offset: 89991},
+												pos: position{line: 2842, col: 14, offset: 90062},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2839, col: 14, offset: 89991},
+													pos: position{line: 2842, col: 14, offset: 90062},
 													expr: &charClassMatcher{
-														pos:        position{line: 2839, col: 14, offset: 89991},
+														pos:        position{line: 2842, col: 14, offset: 90062},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39724,28 +39728,28 @@ var g = &grammar{
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2911, col: 8, offset: 91796},
+											pos: position{line: 2914, col: 8, offset: 91867},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2898, col: 12, offset: 91569},
+													pos: position{line: 2901, col: 12, offset: 91640},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2898, col: 13, offset: 91570},
+														pos: position{line: 2901, col: 13, offset: 91641},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2898, col: 13, offset: 91570},
+																pos:        position{line: 2901, col: 13, offset: 91641},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2898, col: 20, offset: 91577},
+																pos:        position{line: 2901, col: 20, offset: 91648},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2898, col: 29, offset: 91586},
+																pos:        position{line: 2901, col: 29, offset: 91657},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39754,9 +39758,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2908, col: 8, offset: 91746},
+													pos: position{line: 2911, col: 8, offset: 91817},
 													expr: &anyMatcher{
-														line: 2908, col: 9, offset: 91747,
+														line: 2911, col: 9, offset: 91818,
 													},
 												},
 											},
@@ -39781,9 +39785,9 @@ var g = &grammar{
 										pos: position{line: 1780, col: 9, offset: 57663},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2906, col: 11, offset: 91732},
+												pos: position{line: 2909, col: 11, offset: 91803},
 												expr: &anyMatcher{
-													line: 2906, col: 13, offset: 91734,
+													line: 2909, col: 13, offset: 91805,
 												},
 											},
 											&notExpr{
@@ -39795,18 +39799,18 @@ var g = &grammar{
 														pos: position{line: 687, col: 14, offset: 21835},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2906, col: 11, offset: 91732},
+																pos: position{line: 2909, col: 11, offset: 91803},
 																expr: &anyMatcher{
-																	line: 2906, col: 13, offset: 91734,
+																	line: 2909, col: 13, offset: 91805,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 687, col: 21, offset: 21842},
 																expr: &actionExpr{
-																	pos: position{line: 2889, col: 10, offset: 91398},
+																	pos: position{line: 2892, col: 10, offset: 91469},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2889, col: 10, offset: 91398},
+																		pos:        position{line: 2892, col: 10, offset: 91469},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39815,28 +39819,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2911, col: 8, offset: 91796},
+																pos: position{line: 2914, col: 8, offset: 91867},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2898, col: 12, offset: 91569},
+																		pos: position{line: 2901, col: 12, offset: 91640},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2898, col: 13, offset: 91570},
+																			pos: position{line: 2901, col: 13, offset: 91641},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2898, col: 13, offset: 91570},
+																					pos:        position{line: 2901, col: 13, offset: 91641},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2898, col: 20, offset: 91577},
+																					pos:        position{line: 2901, col: 20, offset: 91648},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2898, col: 29, offset: 91586},
+																					pos:        position{line: 2901, col: 29, offset: 91657},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39845,9 +39849,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2908, col: 8, offset: 91746},
+																		pos: position{line: 2911, col: 8, offset: 91817},
 																		expr: &anyMatcher{
-																			line: 2908, col: 9, offset: 91747,
+																			line: 2911, col: 9, offset: 91818,
 																		},
 																	},
 																},
@@ -39874,7 +39878,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 734, col: 5, offset: 23388},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2779, col: 13, offset: 88493},
+																	pos:        position{line: 2782, col: 13, offset: 88564},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39924,10 +39928,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 752, col: 8, offset: 24032},
 																						expr: &actionExpr{
-																							pos: position{line: 2889, col: 10, offset: 91398},
+																							pos: position{line: 2892, col: 10, offset: 91469},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2889, col: 10, offset: 91398},
+																								pos:        position{line: 2892, col: 10, offset: 91469},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39936,28 +39940,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2911, col: 8, offset: 91796},
+																						pos: position{line: 2914, col: 8, offset: 91867},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2898, col: 12, offset: 91569},
+																								pos: position{line: 2901, col: 12, offset: 91640},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2898, col: 13, offset: 91570},
+																									pos: position{line: 2901, col: 13, offset: 91641},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											pos:        position{line: 2901, col: 13, offset: 91641},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											pos:        position{line: 2901, col: 20, offset: 91648},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											pos:        position{line: 2901, col: 29, offset: 91657},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39966,9 +39970,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 8, offset: 91746},
+																								pos: position{line: 2911, col: 8, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2908, col: 9, offset: 91747,
+																									line: 2911, col: 9, offset: 91818,
 																								},
 																							},
 																						},
@@ -40013,10 +40017,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 759, col: 8, offset: 24280},
 																						expr: &actionExpr{
-																							pos: position{line: 2889, col: 10, offset: 91398},
+																							pos: position{line: 2892, col: 10, offset: 91469},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2889, col: 10, offset: 91398},
+																								pos:        position{line: 2892, col: 10, offset: 91469},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40025,28 +40029,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2911, col: 8, offset: 91796},
+																						pos: position{line: 2914, col: 8, offset: 91867},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2898, col: 12, offset: 91569},
+																								pos: position{line: 2901, col: 12, offset: 91640},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2898, col: 13, offset: 91570},
+																									pos: position{line: 2901, col: 13, offset: 91641},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											pos:        position{line: 2901, col: 13, offset: 91641},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											pos:        position{line: 2901, col: 20, offset: 91648},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											pos:        position{line: 2901, col: 29, offset: 91657},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40055,9 +40059,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 8, offset: 91746},
+																								pos: position{line: 2911, col: 8, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2908, col: 9, offset: 91747,
+																									line: 2911, col: 9, offset: 91818,
 																								},
 																							},
 																						},
@@ -40098,10 +40102,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 770, col: 52, offset: 24692},
 																						expr: &actionExpr{
-																							pos: position{line: 2889, col: 10, offset: 91398},
+																							pos: position{line: 2892, col: 10, offset: 91469},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2889, col: 10, offset: 91398},
+																								pos:        position{line: 2892, col: 10, offset: 91469},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40110,28 +40114,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2911, col: 8, offset: 91796},
+																						pos: position{line: 2914, col: 8, offset: 91867},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2898, col: 12, offset: 91569},
+																								pos: position{line: 2901, col: 12, offset: 91640},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2898, col: 13, offset: 91570},
+																									pos: position{line: 2901, col: 13, offset: 91641},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											pos:        position{line: 2901, col: 13, offset: 91641},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											pos:        position{line: 2901, col: 20, offset: 91648},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											pos:        position{line: 2901, col: 29, offset: 91657},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40140,9 +40144,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 8, offset: 91746},
+																								pos: position{line: 2911, col: 8, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2908, col: 9, offset: 91747,
+																									line: 2911, col: 9, offset: 91818,
 																								},
 																							},
 																						},
@@ -40187,10 +40191,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 766, col: 8, offset: 24526},
 																						expr: &actionExpr{
-																							pos: position{line: 2889, col: 10, offset: 91398},
+																							pos: position{line: 2892, col: 10, offset: 91469},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2889, col: 10, offset: 91398},
+																								pos:        position{line: 2892, col: 10, offset: 91469},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40199,28 +40203,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2911, col: 8, offset: 91796},
+																						pos: position{line: 2914, col: 8, offset: 91867},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2898, col: 12, offset: 91569},
+																								pos: position{line: 2901, col: 12, offset: 91640},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2898, col: 13, offset: 91570},
+																									pos: position{line: 2901, col: 13, offset: 91641},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											pos:        position{line: 2901, col: 13, offset: 91641},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											pos:        position{line: 2901, col: 20, offset: 91648},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											pos:        position{line: 2901, col: 29, offset: 91657},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40229,9 +40233,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 8, offset: 91746},
+																								pos: position{line: 2911, col: 8, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2908, col: 9, offset: 91747,
+																									line: 2911, col: 9, offset: 91818,
 																								},
 																							},
 																						},
@@ -40276,10 +40280,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 781, col: 8, offset: 25064},
 																						expr: &actionExpr{
-																							pos: position{line: 2889, col: 10, offset: 91398},
+																							pos: position{line: 2892, col: 10, offset: 91469},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2889, col: 10, offset: 91398},
+																								pos:        position{line: 2892, col: 10, offset: 91469},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40288,28 +40292,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2911, col: 8, offset: 91796},
+																						pos: position{line: 2914, col: 8, offset: 91867},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2898, col: 12, offset: 91569},
+																								pos: position{line: 2901, col: 12, offset: 91640},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2898, col: 13, offset: 91570},
+																									pos: position{line: 2901, col: 13, offset: 91641},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											pos:        position{line: 2901, col: 13, offset: 91641},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											pos:        position{line: 2901, col: 20, offset: 91648},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											pos:        position{line: 2901, col: 29, offset: 91657},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40318,9 +40322,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 8, offset: 91746},
+																								pos: position{line: 2911, col: 8, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2908, col: 9, offset: 91747,
+																									line: 2911, col: 9, offset: 91818,
 																								},
 																							},
 																						},
@@ -40365,10 +40369,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 795, col: 8, offset: 25540},
 																						expr: &actionExpr{
-																							pos: position{line: 2889, col: 10, offset: 91398},
+																							pos: position{line: 2892, col: 10, offset: 91469},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2889, col: 10, offset: 91398},
+																								pos:        position{line: 2892, col: 10, offset: 91469},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40377,28 +40381,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2911, col: 8, offset: 91796},
+																						pos: position{line: 2914, col: 8, offset: 91867},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2898, col: 12, offset: 91569},
+																								pos: position{line: 2901, col: 12, offset: 91640},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2898, col: 13, offset: 91570},
+																									pos: position{line: 2901, col: 13, offset: 91641},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											pos:        position{line: 2901, col: 13, offset: 91641},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											pos:        position{line: 2901, col: 20, offset: 91648},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											pos:        position{line: 2901, col: 29, offset: 91657},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40407,9 +40411,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 8, offset: 91746},
+																								pos: position{line: 2911, col: 8, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2908, col: 9, offset: 91747,
+																									line: 2911, col: 9, offset: 91818,
 																								},
 																							},
 																						},
@@ -40454,10 +40458,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 802, col: 8, offset: 25792},
 																						expr: &actionExpr{
-																							pos: position{line: 2889, col: 10, offset: 91398},
+																							pos: position{line: 2892, col: 10, offset: 91469},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2889, col: 10, offset: 91398},
+																								pos:        position{line: 2892, col: 10, offset: 91469},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40466,28 +40470,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2911, col: 8, offset: 91796},
+																						pos: position{line: 2914, col: 8, offset: 91867},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2898, col: 12, offset: 91569},
+																								pos: position{line: 2901, col: 12, offset: 91640},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2898, col: 13, offset: 91570},
+																									pos: position{line: 2901, col: 13, offset: 91641},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											pos:        position{line: 2901, col: 13, offset: 91641},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											pos:        position{line: 2901, col: 20, offset: 91648},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											pos:        position{line: 2901, col: 29, offset: 91657},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40496,9 +40500,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 8, offset: 91746},
+																								pos: position{line: 2911, col: 8, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2908, col: 9, offset: 91747,
+																									line: 2911, col: 9, offset: 91818,
 																								},
 																							},
 																						},
@@ -40543,10 +40547,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 809, col: 8, offset: 26042},
 																						expr: &actionExpr{
-																							pos: position{line: 2889, col: 10, offset: 91398},
+																							pos: position{line: 2892, col: 10, offset: 91469},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2889, col: 10, offset: 91398},
+																								pos:        position{line: 2892, col: 10, offset: 91469},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40555,28 +40559,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2911, col: 8, offset: 91796},
+																						pos: position{line: 2914, col: 8, offset: 91867},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2898, col: 12, offset: 91569},
+																								pos: position{line: 2901, col: 12, offset: 91640},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2898, col: 13, offset: 91570},
+																									pos: position{line: 2901, col: 13, offset: 91641},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											pos:        position{line: 2901, col: 13, offset: 91641},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											pos:        position{line: 2901, col: 20, offset: 91648},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											pos:        position{line: 2901, col: 29, offset: 91657},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40585,9 +40589,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 8, offset: 91746},
+																								pos: position{line: 2911, col: 8, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2908, col: 9, offset: 91747,
+																									line: 2911, col: 9, offset: 91818,
 																								},
 																							},
 																						},
@@ -40632,10 +40636,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 816, col: 8, offset: 26288},
 																						expr: &actionExpr{
-																							pos: position{line: 2889, col: 10, offset: 91398},
+																							pos: position{line: 2892, col: 10, offset: 91469},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2889, col: 10, offset: 91398},
+																								pos:        position{line: 2892, col: 10, offset: 91469},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40644,28 +40648,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2911, col: 8, offset: 91796},
+																						pos: position{line: 2914, col: 8, offset: 91867},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2898, col: 12, offset: 91569},
+																								pos: position{line: 2901, col: 12, offset: 91640},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2898, col: 13, offset: 91570},
+																									pos: position{line: 2901, col: 13, offset: 91641},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 13, offset: 91570},
+																											pos:        position{line: 2901, col: 13, offset: 91641},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 20, offset: 91577},
+																											pos:        position{line: 2901, col: 20, offset: 91648},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2898, col: 29, offset: 91586},
+																											pos:        position{line: 2901, col: 29, offset: 91657},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40674,9 +40678,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2908, col: 8, offset: 91746},
+																								pos: position{line: 2911, col: 8, offset: 91817},
 																								expr: &anyMatcher{
-																									line: 2908, col: 9, offset: 91747,
+																									line: 2911, col: 9, offset: 91818,
 																								},
 																							},
 																						},
@@ -40705,10 +40709,10 @@ var g = &grammar{
 														&zeroOrMoreExpr{
 															pos: position{line: 1558, col: 31, offset: 50388},
 															expr: &actionExpr{
-																pos: position{line: 2889, col: 10, offset: 91398},
+																pos: position{line: 2892, col: 10, offset: 91469},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2889, col: 10, offset: 91398},
+																	pos:        position{line: 2892, col: 10, offset: 91469},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40717,25 +40721,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2898, col: 12, offset: 91569},
+															pos: position{line: 2901, col: 12, offset: 91640},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2898, col: 13, offset: 91570},
+																pos: position{line: 2901, col: 13, offset: 91641},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 13, offset: 91570},
+																		pos:        position{line: 2901, col: 13, offset: 91641},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 20, offset: 91577},
+																		pos:        position{line: 2901, col: 20, offset: 91648},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 29, offset: 91586},
+																		pos:        position{line: 2901, col: 29, offset: 91657},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40777,12 +40781,12 @@ var g = &grammar{
 																		pos:   position{line: 2493, col: 49, offset: 80256},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2835, col: 13, offset: 89924},
+																			pos: position{line: 2838, col: 13, offset: 89995},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2835, col: 13, offset: 89924},
+																				pos: position{line: 2838, col: 13, offset: 89995},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2835, col: 13, offset: 89924},
+																					pos:        position{line: 2838, col: 13, offset: 89995},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40792,28 +40796,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2911, col: 8, offset: 91796},
+																		pos: position{line: 2914, col: 8, offset: 91867},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2898, col: 12, offset: 91569},
+																				pos: position{line: 2901, col: 12, offset: 91640},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 13, offset: 91570},
+																					pos: position{line: 2901, col: 13, offset: 91641},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 13, offset: 91570},
+																							pos:        position{line: 2901, col: 13, offset: 91641},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 20, offset: 91577},
+																							pos:        position{line: 2901, col: 20, offset: 91648},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 29, offset: 91586},
+																							pos:        position{line: 2901, col: 29, offset: 91657},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40822,9 +40826,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2908, col: 8, offset: 91746},
+																				pos: position{line: 2911, col: 8, offset: 91817},
 																				expr: &anyMatcher{
-																					line: 2908, col: 9, offset: 91747,
+																					line: 2911, col: 9, offset: 91818,
 																				},
 																			},
 																		},
@@ -40842,12 +40846,12 @@ var g = &grammar{
 																		pos:   position{line: 1807, col: 5, offset: 58385},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2839, col: 14, offset: 89991},
+																			pos: position{line: 2842, col: 14, offset: 90062},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2839, col: 14, offset: 89991},
+																				pos: position{line: 2842, col: 14, offset: 90062},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2839, col: 14, offset: 89991},
+																					pos:        position{line: 2842, col: 14, offset: 90062},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40861,28 +40865,28 @@ var g = &grammar{
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2911, col: 8, offset: 91796},
+																		pos: position{line: 2914, col: 8, offset: 91867},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2898, col: 12, offset: 91569},
+																				pos: position{line: 2901, col: 12, offset: 91640},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 13, offset: 91570},
+																					pos: position{line: 2901, col: 13, offset: 91641},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 13, offset: 91570},
+																							pos:        position{line: 2901, col: 13, offset: 91641},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 20, offset: 91577},
+																							pos:        position{line: 2901, col: 20, offset: 91648},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 29, offset: 91586},
+																							pos:        position{line: 2901, col: 29, offset: 91657},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40891,9 +40895,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2908, col: 8, offset: 91746},
+																				pos: position{line: 2911, col: 8, offset: 91817},
 																				expr: &anyMatcher{
-																					line: 2908, col: 9, offset: 91747,
+																					line: 2911, col: 9, offset: 91818,
 																				},
 																			},
 																		},
@@ -40999,12 +41003,12 @@ var g = &grammar{
 															expr: &andExpr{
 																pos: position{line: 1761, col: 13, offset: 56899},
 																expr: &actionExpr{
-																	pos: position{line: 2893, col: 11, offset: 91459},
+																	pos: position{line: 2896, col: 11, offset: 91530},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2893, col: 11, offset: 91459},
+																		pos: position{line: 2896, col: 11, offset: 91530},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2893, col: 11, offset: 91459},
+																			pos:        position{line: 2896, col: 11, offset: 91530},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41035,12 +41039,12 @@ var g = &grammar{
 											pos:   position{line: 1807, col: 5, offset: 58385},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2839, col: 14, offset: 89991},
+												pos: position{line: 2842, col: 14, offset: 90062},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2839, col: 14, offset: 89991},
+													pos: position{line: 2842, col: 14, offset: 90062},
 													expr: &charClassMatcher{
-														pos:        position{line: 2839, col: 14, offset: 89991},
+														pos:        position{line: 2842, col: 14, offset: 90062},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -41054,28 +41058,28 @@ var g = &grammar{
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2911, col: 8, offset: 91796},
+											pos: position{line: 2914, col: 8, offset: 91867},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2898, col: 12, offset: 91569},
+													pos: position{line: 2901, col: 12, offset: 91640},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2898, col: 13, offset: 91570},
+														pos: position{line: 2901, col: 13, offset: 91641},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2898, col: 13, offset: 91570},
+																pos:        position{line: 2901, col: 13, offset: 91641},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2898, col: 20, offset: 91577},
+																pos:        position{line: 2901, col: 20, offset: 91648},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2898, col: 29, offset: 91586},
+																pos:        position{line: 2901, col: 29, offset: 91657},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -41084,9 +41088,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2908, col: 8, offset: 91746},
+													pos: position{line: 2911, col: 8, offset: 91817},
 													expr: &anyMatcher{
-														line: 2908, col: 9, offset: 91747,
+														line: 2911, col: 9, offset: 91818,
 													},
 												},
 											},
@@ -41107,9 +41111,9 @@ var g = &grammar{
 										pos: position{line: 1796, col: 9, offset: 58091},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2906, col: 11, offset: 91732},
+												pos: position{line: 2909, col: 11, offset: 91803},
 												expr: &anyMatcher{
-													line: 2906, col: 13, offset: 91734,
+													line: 2909, col: 13, offset: 91805,
 												},
 											},
 											&notExpr{
@@ -41121,18 +41125,18 @@ var g = &grammar{
 														pos: position{line: 687, col: 14, offset: 21835},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2906, col: 11, offset: 91732},
+																pos: position{line: 2909, col: 11, offset: 91803},
 																expr: &anyMatcher{
-																	line: 2906, col: 13, offset: 91734,
+																	line: 2909, col: 13, offset: 91805,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 687, col: 21, offset: 21842},
 																expr: &actionExpr{
-																	pos: position{line: 2889, col: 10, offset: 91398},
+																	pos: position{line: 2892, col: 10, offset: 91469},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2889, col: 10, offset: 91398},
+																		pos:        position{line: 2892, col: 10, offset: 91469},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -41141,28 +41145,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2911, col: 8, offset: 91796},
+																pos: position{line: 2914, col: 8, offset: 91867},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2898, col: 12, offset: 91569},
+																		pos: position{line: 2901, col: 12, offset: 91640},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2898, col: 13, offset: 91570},
+																			pos: position{line: 2901, col: 13, offset: 91641},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2898, col: 13, offset: 91570},
+																					pos:        position{line: 2901, col: 13, offset: 91641},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2898, col: 20, offset: 91577},
+																					pos:        position{line: 2901, col: 20, offset: 91648},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2898, col: 29, offset: 91586},
+																					pos:        position{line: 2901, col: 29, offset: 91657},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -41171,9 +41175,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2908, col: 8, offset: 91746},
+																		pos: position{line: 2911, col: 8, offset: 91817},
 																		expr: &anyMatcher{
-																			line: 2908, col: 9, offset: 91747,
+																			line: 2911, col: 9, offset: 91818,
 																		},
 																	},
 																},
@@ -41220,12 +41224,12 @@ var g = &grammar{
 																		pos:   position{line: 2493, col: 49, offset: 80256},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2835, col: 13, offset: 89924},
+																			pos: position{line: 2838, col: 13, offset: 89995},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2835, col: 13, offset: 89924},
+																				pos: position{line: 2838, col: 13, offset: 89995},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2835, col: 13, offset: 89924},
+																					pos:        position{line: 2838, col: 13, offset: 89995},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41235,28 +41239,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2911, col: 8, offset: 91796},
+																		pos: position{line: 2914, col: 8, offset: 91867},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2898, col: 12, offset: 91569},
+																				pos: position{line: 2901, col: 12, offset: 91640},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 13, offset: 91570},
+																					pos: position{line: 2901, col: 13, offset: 91641},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 13, offset: 91570},
+																							pos:        position{line: 2901, col: 13, offset: 91641},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 20, offset: 91577},
+																							pos:        position{line: 2901, col: 20, offset: 91648},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 29, offset: 91586},
+																							pos:        position{line: 2901, col: 29, offset: 91657},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41265,9 +41269,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2908, col: 8, offset: 91746},
+																				pos: position{line: 2911, col: 8, offset: 91817},
 																				expr: &anyMatcher{
-																					line: 2908, col: 9, offset: 91747,
+																					line: 2911, col: 9, offset: 91818,
 																				},
 																			},
 																		},
@@ -41285,12 +41289,12 @@ var g = &grammar{
 																		pos:   position{line: 1807, col: 5, offset: 58385},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2839, col: 14, offset: 89991},
+																			pos: position{line: 2842, col: 14, offset: 90062},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2839, col: 14, offset: 89991},
+																				pos: position{line: 2842, col: 14, offset: 90062},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2839, col: 14, offset: 89991},
+																					pos:        position{line: 2842, col: 14, offset: 90062},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41304,28 +41308,28 @@ var g = &grammar{
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2911, col: 8, offset: 91796},
+																		pos: position{line: 2914, col: 8, offset: 91867},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2898, col: 12, offset: 91569},
+																				pos: position{line: 2901, col: 12, offset: 91640},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 13, offset: 91570},
+																					pos: position{line: 2901, col: 13, offset: 91641},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 13, offset: 91570},
+																							pos:        position{line: 2901, col: 13, offset: 91641},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 20, offset: 91577},
+																							pos:        position{line: 2901, col: 20, offset: 91648},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 29, offset: 91586},
+																							pos:        position{line: 2901, col: 29, offset: 91657},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41334,9 +41338,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2908, col: 8, offset: 91746},
+																				pos: position{line: 2911, col: 8, offset: 91817},
 																				expr: &anyMatcher{
-																					line: 2908, col: 9, offset: 91747,
+																					line: 2911, col: 9, offset: 91818,
 																				},
 																			},
 																		},
@@ -41549,21 +41553,21 @@ var g = &grammar{
 				pos: position{line: 1873, col: 5, offset: 60356},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2788, col: 5, offset: 88640},
+						pos: position{line: 2791, col: 5, offset: 88711},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2788, col: 5, offset: 88640},
+							pos: position{line: 2791, col: 5, offset: 88711},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2788, col: 5, offset: 88640},
+									pos:   position{line: 2791, col: 5, offset: 88711},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2788, col: 11, offset: 88646},
+										pos: position{line: 2791, col: 11, offset: 88717},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2788, col: 11, offset: 88646},
+											pos: position{line: 2791, col: 11, offset: 88717},
 											expr: &charClassMatcher{
-												pos:        position{line: 2788, col: 11, offset: 88646},
+												pos:        position{line: 2791, col: 11, offset: 88717},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41573,36 +41577,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2791, col: 5, offset: 88704},
+									pos: position{line: 2794, col: 5, offset: 88775},
 									expr: &seqExpr{
-										pos: position{line: 2792, col: 9, offset: 88715},
+										pos: position{line: 2795, col: 9, offset: 88786},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2792, col: 9, offset: 88715},
+												pos:        position{line: 2795, col: 9, offset: 88786},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2793, col: 9, offset: 88764},
+												pos: position{line: 2796, col: 9, offset: 88835},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2797, col: 5, offset: 88844},
+									pos: position{line: 2800, col: 5, offset: 88915},
 									expr: &seqExpr{
-										pos: position{line: 2798, col: 9, offset: 88855},
+										pos: position{line: 2801, col: 9, offset: 88926},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2798, col: 9, offset: 88855},
+												pos:        position{line: 2801, col: 9, offset: 88926},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2798, col: 13, offset: 88859},
+												pos:        position{line: 2801, col: 13, offset: 88930},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41615,12 +41619,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2893, col: 11, offset: 91459},
+						pos: position{line: 2896, col: 11, offset: 91530},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2893, col: 11, offset: 91459},
+							pos: position{line: 2896, col: 11, offset: 91530},
 							expr: &charClassMatcher{
-								pos:        position{line: 2893, col: 11, offset: 91459},
+								pos:        position{line: 2896, col: 11, offset: 91530},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -41638,16 +41642,20 @@ var g = &grammar{
 						expr: &seqExpr{
 							pos: position{line: 2511, col: 5, offset: 80946},
 							exprs: []interface{}{
+								&andCodeExpr{
+									pos: position{line: 2511, col: 5, offset: 80946},
+									run: (*parser).callonQuotedTextElement22,
+								},
 								&litMatcher{
-									pos:        position{line: 2511, col: 5, offset: 80946},
+									pos:        position{line: 2514, col: 5, offset: 81017},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2511, col: 10, offset: 80951},
+									pos: position{line: 2514, col: 10, offset: 81022},
 									expr: &charClassMatcher{
-										pos:        position{line: 2511, col: 11, offset: 80952},
+										pos:        position{line: 2514, col: 11, offset: 81023},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41658,29 +41666,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2517, col: 5, offset: 81144},
-						run: (*parser).callonQuotedTextElement25,
+						pos: position{line: 2520, col: 5, offset: 81215},
+						run: (*parser).callonQuotedTextElement26,
 						expr: &seqExpr{
-							pos: position{line: 2517, col: 5, offset: 81144},
+							pos: position{line: 2520, col: 5, offset: 81215},
 							exprs: []interface{}{
-								&andCodeExpr{
-									pos: position{line: 2517, col: 5, offset: 81144},
-									run: (*parser).callonQuotedTextElement27,
-								},
 								&andCodeExpr{
 									pos: position{line: 2520, col: 5, offset: 81215},
 									run: (*parser).callonQuotedTextElement28,
 								},
+								&andCodeExpr{
+									pos: position{line: 2523, col: 5, offset: 81286},
+									run: (*parser).callonQuotedTextElement29,
+								},
 								&litMatcher{
-									pos:        position{line: 2524, col: 5, offset: 81340},
+									pos:        position{line: 2527, col: 5, offset: 81411},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2524, col: 9, offset: 81344},
+									pos: position{line: 2527, col: 9, offset: 81415},
 									expr: &charClassMatcher{
-										pos:        position{line: 2524, col: 10, offset: 81345},
+										pos:        position{line: 2527, col: 10, offset: 81416},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41691,27 +41699,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2806, col: 5, offset: 89052},
-						run: (*parser).callonQuotedTextElement32,
+						pos: position{line: 2809, col: 5, offset: 89123},
+						run: (*parser).callonQuotedTextElement33,
 						expr: &choiceExpr{
-							pos: position{line: 2807, col: 9, offset: 89062},
+							pos: position{line: 2810, col: 9, offset: 89133},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2807, col: 10, offset: 89063},
+									pos:        position{line: 2810, col: 10, offset: 89134},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2809, col: 13, offset: 89160},
+									pos: position{line: 2812, col: 13, offset: 89231},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2809, col: 13, offset: 89160},
-											run: (*parser).callonQuotedTextElement36,
+											pos: position{line: 2812, col: 13, offset: 89231},
+											run: (*parser).callonQuotedTextElement37,
 										},
 										&litMatcher{
-											pos:        position{line: 2812, col: 13, offset: 89260},
+											pos:        position{line: 2815, col: 13, offset: 89331},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -41719,20 +41727,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2812, col: 19, offset: 89266},
+									pos:        position{line: 2815, col: 19, offset: 89337},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2815, col: 13, offset: 89304},
+									pos: position{line: 2818, col: 13, offset: 89375},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2815, col: 13, offset: 89304},
-											run: (*parser).callonQuotedTextElement40,
+											pos: position{line: 2818, col: 13, offset: 89375},
+											run: (*parser).callonQuotedTextElement41,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2818, col: 14, offset: 89397},
+											pos:        position{line: 2821, col: 14, offset: 89468},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -41741,18 +41749,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2820, col: 12, offset: 89441},
+									pos: position{line: 2823, col: 12, offset: 89512},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2820, col: 12, offset: 89441},
+											pos:        position{line: 2823, col: 12, offset: 89512},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2820, col: 16, offset: 89445},
+											pos: position{line: 2823, col: 16, offset: 89516},
 											expr: &litMatcher{
-												pos:        position{line: 2820, col: 17, offset: 89446},
+												pos:        position{line: 2823, col: 17, offset: 89517},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41765,13 +41773,13 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 646, col: 5, offset: 20455},
-						run: (*parser).callonQuotedTextElement46,
+						run: (*parser).callonQuotedTextElement47,
 						expr: &seqExpr{
 							pos: position{line: 646, col: 5, offset: 20455},
 							exprs: []interface{}{
 								&andCodeExpr{
 									pos: position{line: 646, col: 5, offset: 20455},
-									run: (*parser).callonQuotedTextElement48,
+									run: (*parser).callonQuotedTextElement49,
 								},
 								&labeledExpr{
 									pos:   position{line: 649, col: 5, offset: 20527},
@@ -41781,7 +41789,7 @@ var g = &grammar{
 										alternatives: []interface{}{
 											&actionExpr{
 												pos: position{line: 655, col: 5, offset: 20665},
-												run: (*parser).callonQuotedTextElement51,
+												run: (*parser).callonQuotedTextElement52,
 												expr: &seqExpr{
 													pos: position{line: 655, col: 5, offset: 20665},
 													exprs: []interface{}{
@@ -41796,7 +41804,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
-																run: (*parser).callonQuotedTextElement55,
+																run: (*parser).callonQuotedTextElement56,
 																expr: &seqExpr{
 																	pos: position{line: 318, col: 18, offset: 9736},
 																	exprs: []interface{}{
@@ -41834,7 +41842,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 662, col: 5, offset: 20933},
-												run: (*parser).callonQuotedTextElement61,
+												run: (*parser).callonQuotedTextElement62,
 												expr: &seqExpr{
 													pos: position{line: 662, col: 5, offset: 20933},
 													exprs: []interface{}{
@@ -41849,7 +41857,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
-																run: (*parser).callonQuotedTextElement65,
+																run: (*parser).callonQuotedTextElement66,
 																expr: &seqExpr{
 																	pos: position{line: 318, col: 18, offset: 9736},
 																	exprs: []interface{}{
@@ -41887,7 +41895,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 668, col: 25, offset: 21137},
-												run: (*parser).callonQuotedTextElement71,
+												run: (*parser).callonQuotedTextElement72,
 												expr: &seqExpr{
 													pos: position{line: 668, col: 25, offset: 21137},
 													exprs: []interface{}{
@@ -41902,7 +41910,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
-																run: (*parser).callonQuotedTextElement75,
+																run: (*parser).callonQuotedTextElement76,
 																expr: &seqExpr{
 																	pos: position{line: 318, col: 18, offset: 9736},
 																	exprs: []interface{}{
@@ -41936,7 +41944,7 @@ var g = &grammar{
 																pos: position{line: 668, col: 62, offset: 21174},
 																expr: &actionExpr{
 																	pos: position{line: 676, col: 17, offset: 21469},
-																	run: (*parser).callonQuotedTextElement82,
+																	run: (*parser).callonQuotedTextElement83,
 																	expr: &seqExpr{
 																		pos: position{line: 676, col: 17, offset: 21469},
 																		exprs: []interface{}{
@@ -41954,7 +41962,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 676, col: 28, offset: 21480},
-																							run: (*parser).callonQuotedTextElement87,
+																							run: (*parser).callonQuotedTextElement88,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 676, col: 28, offset: 21480},
 																								val:        "[A-Za-z]",
@@ -41965,7 +41973,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 678, col: 9, offset: 21534},
-																							run: (*parser).callonQuotedTextElement89,
+																							run: (*parser).callonQuotedTextElement90,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 678, col: 9, offset: 21534},
 																								expr: &charClassMatcher{
@@ -41996,7 +42004,7 @@ var g = &grammar{
 											},
 											&actionExpr{
 												pos: position{line: 672, col: 25, offset: 21308},
-												run: (*parser).callonQuotedTextElement93,
+												run: (*parser).callonQuotedTextElement94,
 												expr: &seqExpr{
 													pos: position{line: 672, col: 25, offset: 21308},
 													exprs: []interface{}{
@@ -42011,7 +42019,7 @@ var g = &grammar{
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
-																run: (*parser).callonQuotedTextElement97,
+																run: (*parser).callonQuotedTextElement98,
 																expr: &seqExpr{
 																	pos: position{line: 318, col: 18, offset: 9736},
 																	exprs: []interface{}{
@@ -42045,7 +42053,7 @@ var g = &grammar{
 																pos: position{line: 672, col: 63, offset: 21346},
 																expr: &actionExpr{
 																	pos: position{line: 676, col: 17, offset: 21469},
-																	run: (*parser).callonQuotedTextElement104,
+																	run: (*parser).callonQuotedTextElement105,
 																	expr: &seqExpr{
 																		pos: position{line: 676, col: 17, offset: 21469},
 																		exprs: []interface{}{
@@ -42063,7 +42071,7 @@ var g = &grammar{
 																					alternatives: []interface{}{
 																						&actionExpr{
 																							pos: position{line: 676, col: 28, offset: 21480},
-																							run: (*parser).callonQuotedTextElement109,
+																							run: (*parser).callonQuotedTextElement110,
 																							expr: &charClassMatcher{
 																								pos:        position{line: 676, col: 28, offset: 21480},
 																								val:        "[A-Za-z]",
@@ -42074,7 +42082,7 @@ var g = &grammar{
 																						},
 																						&actionExpr{
 																							pos: position{line: 678, col: 9, offset: 21534},
-																							run: (*parser).callonQuotedTextElement111,
+																							run: (*parser).callonQuotedTextElement112,
 																							expr: &oneOrMoreExpr{
 																								pos: position{line: 678, col: 9, offset: 21534},
 																								expr: &charClassMatcher{
@@ -42110,31 +42118,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2902, col: 18, offset: 91669},
-						run: (*parser).callonQuotedTextElement115,
+						pos: position{line: 2905, col: 18, offset: 91740},
+						run: (*parser).callonQuotedTextElement116,
 						expr: &seqExpr{
-							pos: position{line: 2902, col: 18, offset: 91669},
+							pos: position{line: 2905, col: 18, offset: 91740},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2898, col: 12, offset: 91569},
-									run: (*parser).callonQuotedTextElement117,
+									pos: position{line: 2901, col: 12, offset: 91640},
+									run: (*parser).callonQuotedTextElement118,
 									expr: &choiceExpr{
-										pos: position{line: 2898, col: 13, offset: 91570},
+										pos: position{line: 2901, col: 13, offset: 91641},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2898, col: 13, offset: 91570},
+												pos:        position{line: 2901, col: 13, offset: 91641},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2898, col: 20, offset: 91577},
+												pos:        position{line: 2901, col: 20, offset: 91648},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2898, col: 29, offset: 91586},
+												pos:        position{line: 2901, col: 29, offset: 91657},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42143,27 +42151,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2902, col: 26, offset: 91677},
+									pos: position{line: 2905, col: 26, offset: 91748},
 									expr: &actionExpr{
-										pos: position{line: 2898, col: 12, offset: 91569},
-										run: (*parser).callonQuotedTextElement123,
+										pos: position{line: 2901, col: 12, offset: 91640},
+										run: (*parser).callonQuotedTextElement124,
 										expr: &choiceExpr{
-											pos: position{line: 2898, col: 13, offset: 91570},
+											pos: position{line: 2901, col: 13, offset: 91641},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2898, col: 13, offset: 91570},
+													pos:        position{line: 2901, col: 13, offset: 91641},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2898, col: 20, offset: 91577},
+													pos:        position{line: 2901, col: 20, offset: 91648},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2898, col: 29, offset: 91586},
+													pos:        position{line: 2901, col: 29, offset: 91657},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -42185,20 +42193,20 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 2480, col: 5, offset: 79775},
-						run: (*parser).callonQuotedTextElement130,
+						run: (*parser).callonQuotedTextElement131,
 						expr: &seqExpr{
 							pos: position{line: 2480, col: 5, offset: 79775},
 							exprs: []interface{}{
 								&andCodeExpr{
 									pos: position{line: 2480, col: 5, offset: 79775},
-									run: (*parser).callonQuotedTextElement132,
+									run: (*parser).callonQuotedTextElement133,
 								},
 								&labeledExpr{
 									pos:   position{line: 2483, col: 5, offset: 79851},
 									label: "element",
 									expr: &actionExpr{
 										pos: position{line: 2484, col: 9, offset: 79869},
-										run: (*parser).callonQuotedTextElement134,
+										run: (*parser).callonQuotedTextElement135,
 										expr: &charClassMatcher{
 											pos:        position{line: 2484, col: 10, offset: 79870},
 											val:        "[<>&]",
@@ -42213,7 +42221,7 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 1220, col: 23, offset: 37720},
-						run: (*parser).callonQuotedTextElement136,
+						run: (*parser).callonQuotedTextElement137,
 						expr: &seqExpr{
 							pos: position{line: 1220, col: 23, offset: 37720},
 							exprs: []interface{}{
@@ -42228,7 +42236,7 @@ var g = &grammar{
 									label: "ref",
 									expr: &actionExpr{
 										pos: position{line: 1220, col: 56, offset: 37753},
-										run: (*parser).callonQuotedTextElement140,
+										run: (*parser).callonQuotedTextElement141,
 										expr: &oneOrMoreExpr{
 											pos: position{line: 1220, col: 56, offset: 37753},
 											expr: &charClassMatcher{
@@ -42251,10 +42259,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2828, col: 12, offset: 89706},
-						run: (*parser).callonQuotedTextElement144,
+						pos: position{line: 2831, col: 12, offset: 89777},
+						run: (*parser).callonQuotedTextElement145,
 						expr: &charClassMatcher{
-							pos:        position{line: 2828, col: 12, offset: 89706},
+							pos:        position{line: 2831, col: 12, offset: 89777},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -42318,9 +42326,9 @@ var g = &grammar{
 					pos: position{line: 1909, col: 5, offset: 61437},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2906, col: 11, offset: 91732},
+							pos: position{line: 2909, col: 11, offset: 91803},
 							expr: &anyMatcher{
-								line: 2906, col: 13, offset: 91734,
+								line: 2909, col: 13, offset: 91805,
 							},
 						},
 						&notExpr{
@@ -42407,7 +42415,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 1934, col: 7, offset: 62162},
 								expr: &charClassMatcher{
-									pos:        position{line: 2779, col: 13, offset: 88493},
+									pos:        position{line: 2782, col: 13, offset: 88564},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42431,10 +42439,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 1944, col: 5, offset: 62447},
 							expr: &actionExpr{
-								pos: position{line: 2889, col: 10, offset: 91398},
+								pos: position{line: 2892, col: 10, offset: 91469},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2889, col: 10, offset: 91398},
+									pos:        position{line: 2892, col: 10, offset: 91469},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42471,9 +42479,9 @@ var g = &grammar{
 					pos: position{line: 1953, col: 5, offset: 62706},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2906, col: 11, offset: 91732},
+							pos: position{line: 2909, col: 11, offset: 91803},
 							expr: &anyMatcher{
-								line: 2906, col: 13, offset: 91734,
+								line: 2909, col: 13, offset: 91805,
 							},
 						},
 						&notExpr{
@@ -42505,7 +42513,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 1934, col: 7, offset: 62162},
 											expr: &charClassMatcher{
-												pos:        position{line: 2779, col: 13, offset: 88493},
+												pos:        position{line: 2782, col: 13, offset: 88564},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42740,9 +42748,9 @@ var g = &grammar{
 					pos: position{line: 1998, col: 5, offset: 64359},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2906, col: 11, offset: 91732},
+							pos: position{line: 2909, col: 11, offset: 91803},
 							expr: &anyMatcher{
-								line: 2906, col: 13, offset: 91734,
+								line: 2909, col: 13, offset: 91805,
 							},
 						},
 						&notExpr{
@@ -42829,7 +42837,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2024, col: 7, offset: 65090},
 								expr: &charClassMatcher{
-									pos:        position{line: 2779, col: 13, offset: 88493},
+									pos:        position{line: 2782, col: 13, offset: 88564},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42853,10 +42861,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2034, col: 5, offset: 65387},
 							expr: &actionExpr{
-								pos: position{line: 2889, col: 10, offset: 91398},
+								pos: position{line: 2892, col: 10, offset: 91469},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2889, col: 10, offset: 91398},
+									pos:        position{line: 2892, col: 10, offset: 91469},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42893,9 +42901,9 @@ var g = &grammar{
 					pos: position{line: 2043, col: 5, offset: 65649},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2906, col: 11, offset: 91732},
+							pos: position{line: 2909, col: 11, offset: 91803},
 							expr: &anyMatcher{
-								line: 2906, col: 13, offset: 91734,
+								line: 2909, col: 13, offset: 91805,
 							},
 						},
 						&notExpr{
@@ -42927,7 +42935,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2024, col: 7, offset: 65090},
 											expr: &charClassMatcher{
-												pos:        position{line: 2779, col: 13, offset: 88493},
+												pos:        position{line: 2782, col: 13, offset: 88564},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43162,9 +43170,9 @@ var g = &grammar{
 					pos: position{line: 2088, col: 5, offset: 67478},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2906, col: 11, offset: 91732},
+							pos: position{line: 2909, col: 11, offset: 91803},
 							expr: &anyMatcher{
-								line: 2906, col: 13, offset: 91734,
+								line: 2909, col: 13, offset: 91805,
 							},
 						},
 						&notExpr{
@@ -43216,7 +43224,7 @@ var g = &grammar{
 						expr: &notExpr{
 							pos: position{line: 2115, col: 7, offset: 68271},
 							expr: &charClassMatcher{
-								pos:        position{line: 2779, col: 13, offset: 88493},
+								pos:        position{line: 2782, col: 13, offset: 88564},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -43286,10 +43294,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2126, col: 5, offset: 68592},
 							expr: &actionExpr{
-								pos: position{line: 2889, col: 10, offset: 91398},
+								pos: position{line: 2892, col: 10, offset: 91469},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2889, col: 10, offset: 91398},
+									pos:        position{line: 2892, col: 10, offset: 91469},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43326,9 +43334,9 @@ var g = &grammar{
 					pos: position{line: 2135, col: 5, offset: 68860},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2906, col: 11, offset: 91732},
+							pos: position{line: 2909, col: 11, offset: 91803},
 							expr: &anyMatcher{
-								line: 2906, col: 13, offset: 91734,
+								line: 2909, col: 13, offset: 91805,
 							},
 						},
 						&notExpr{
@@ -43562,9 +43570,9 @@ var g = &grammar{
 					pos: position{line: 2180, col: 5, offset: 70572},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2906, col: 11, offset: 91732},
+							pos: position{line: 2909, col: 11, offset: 91803},
 							expr: &anyMatcher{
-								line: 2906, col: 13, offset: 91734,
+								line: 2909, col: 13, offset: 91805,
 							},
 						},
 						&notExpr{
@@ -43651,7 +43659,7 @@ var g = &grammar{
 							expr: &notExpr{
 								pos: position{line: 2205, col: 7, offset: 71301},
 								expr: &charClassMatcher{
-									pos:        position{line: 2779, col: 13, offset: 88493},
+									pos:        position{line: 2782, col: 13, offset: 88564},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43675,10 +43683,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2215, col: 5, offset: 71598},
 							expr: &actionExpr{
-								pos: position{line: 2889, col: 10, offset: 91398},
+								pos: position{line: 2892, col: 10, offset: 91469},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2889, col: 10, offset: 91398},
+									pos:        position{line: 2892, col: 10, offset: 91469},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43715,9 +43723,9 @@ var g = &grammar{
 					pos: position{line: 2224, col: 5, offset: 71861},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2906, col: 11, offset: 91732},
+							pos: position{line: 2909, col: 11, offset: 91803},
 							expr: &anyMatcher{
-								line: 2906, col: 13, offset: 91734,
+								line: 2909, col: 13, offset: 91805,
 							},
 						},
 						&notExpr{
@@ -43749,7 +43757,7 @@ var g = &grammar{
 										expr: &notExpr{
 											pos: position{line: 2205, col: 7, offset: 71301},
 											expr: &charClassMatcher{
-												pos:        position{line: 2779, col: 13, offset: 88493},
+												pos:        position{line: 2782, col: 13, offset: 88564},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -44185,12 +44193,12 @@ var g = &grammar{
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2893, col: 11, offset: 91459},
+							pos: position{line: 2896, col: 11, offset: 91530},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2893, col: 11, offset: 91459},
+								pos: position{line: 2896, col: 11, offset: 91530},
 								expr: &charClassMatcher{
-									pos:        position{line: 2893, col: 11, offset: 91459},
+									pos:        position{line: 2896, col: 11, offset: 91530},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44207,28 +44215,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2911, col: 8, offset: 91796},
+							pos: position{line: 2914, col: 8, offset: 91867},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2898, col: 12, offset: 91569},
+									pos: position{line: 2901, col: 12, offset: 91640},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2898, col: 13, offset: 91570},
+										pos: position{line: 2901, col: 13, offset: 91641},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2898, col: 13, offset: 91570},
+												pos:        position{line: 2901, col: 13, offset: 91641},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2898, col: 20, offset: 91577},
+												pos:        position{line: 2901, col: 20, offset: 91648},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2898, col: 29, offset: 91586},
+												pos:        position{line: 2901, col: 29, offset: 91657},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44237,9 +44245,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2908, col: 8, offset: 91746},
+									pos: position{line: 2911, col: 8, offset: 91817},
 									expr: &anyMatcher{
-										line: 2908, col: 9, offset: 91747,
+										line: 2911, col: 9, offset: 91818,
 									},
 								},
 							},
@@ -44288,28 +44296,28 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 2331, col: 5, offset: 75513},
 							expr: &choiceExpr{
-								pos: position{line: 2911, col: 8, offset: 91796},
+								pos: position{line: 2914, col: 8, offset: 91867},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2898, col: 12, offset: 91569},
+										pos: position{line: 2901, col: 12, offset: 91640},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2898, col: 13, offset: 91570},
+											pos: position{line: 2901, col: 13, offset: 91641},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2898, col: 13, offset: 91570},
+													pos:        position{line: 2901, col: 13, offset: 91641},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2898, col: 20, offset: 91577},
+													pos:        position{line: 2901, col: 20, offset: 91648},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2898, col: 29, offset: 91586},
+													pos:        position{line: 2901, col: 29, offset: 91657},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44318,9 +44326,9 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2908, col: 8, offset: 91746},
+										pos: position{line: 2911, col: 8, offset: 91817},
 										expr: &anyMatcher{
-											line: 2908, col: 9, offset: 91747,
+											line: 2911, col: 9, offset: 91818,
 										},
 									},
 								},
@@ -44354,10 +44362,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2828, col: 12, offset: 89706},
+										pos: position{line: 2831, col: 12, offset: 89777},
 										run: (*parser).callonSectionTitleElement19,
 										expr: &charClassMatcher{
-											pos:        position{line: 2828, col: 12, offset: 89706},
+											pos:        position{line: 2831, col: 12, offset: 89777},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -44384,21 +44392,21 @@ var g = &grammar{
 						pos: position{line: 2343, col: 9, offset: 75805},
 						alternatives: []interface{}{
 							&actionExpr{
-								pos: position{line: 2788, col: 5, offset: 88640},
+								pos: position{line: 2791, col: 5, offset: 88711},
 								run: (*parser).callonSectionTitleInlineElement4,
 								expr: &seqExpr{
-									pos: position{line: 2788, col: 5, offset: 88640},
+									pos: position{line: 2791, col: 5, offset: 88711},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2788, col: 5, offset: 88640},
+											pos:   position{line: 2791, col: 5, offset: 88711},
 											label: "text",
 											expr: &actionExpr{
-												pos: position{line: 2788, col: 11, offset: 88646},
+												pos: position{line: 2791, col: 11, offset: 88717},
 												run: (*parser).callonSectionTitleInlineElement7,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2788, col: 11, offset: 88646},
+													pos: position{line: 2791, col: 11, offset: 88717},
 													expr: &charClassMatcher{
-														pos:        position{line: 2788, col: 11, offset: 88646},
+														pos:        position{line: 2791, col: 11, offset: 88717},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -44408,36 +44416,36 @@ var g = &grammar{
 											},
 										},
 										&notExpr{
-											pos: position{line: 2791, col: 5, offset: 88704},
+											pos: position{line: 2794, col: 5, offset: 88775},
 											expr: &seqExpr{
-												pos: position{line: 2792, col: 9, offset: 88715},
+												pos: position{line: 2795, col: 9, offset: 88786},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2792, col: 9, offset: 88715},
+														pos:        position{line: 2795, col: 9, offset: 88786},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2793, col: 9, offset: 88764},
+														pos: position{line: 2796, col: 9, offset: 88835},
 														run: (*parser).callonSectionTitleInlineElement13,
 													},
 												},
 											},
 										},
 										&notExpr{
-											pos: position{line: 2797, col: 5, offset: 88844},
+											pos: position{line: 2800, col: 5, offset: 88915},
 											expr: &seqExpr{
-												pos: position{line: 2798, col: 9, offset: 88855},
+												pos: position{line: 2801, col: 9, offset: 88926},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2798, col: 9, offset: 88855},
+														pos:        position{line: 2801, col: 9, offset: 88926},
 														val:        "@",
 														ignoreCase: false,
 														want:       "\"@\"",
 													},
 													&charClassMatcher{
-														pos:        position{line: 2798, col: 13, offset: 88859},
+														pos:        position{line: 2801, col: 13, offset: 88930},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -44450,12 +44458,12 @@ var g = &grammar{
 								},
 							},
 							&actionExpr{
-								pos: position{line: 2893, col: 11, offset: 91459},
+								pos: position{line: 2896, col: 11, offset: 91530},
 								run: (*parser).callonSectionTitleInlineElement18,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2893, col: 11, offset: 91459},
+									pos: position{line: 2896, col: 11, offset: 91530},
 									expr: &charClassMatcher{
-										pos:        position{line: 2893, col: 11, offset: 91459},
+										pos:        position{line: 2896, col: 11, offset: 91530},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -44469,16 +44477,20 @@ var g = &grammar{
 								expr: &seqExpr{
 									pos: position{line: 2511, col: 5, offset: 80946},
 									exprs: []interface{}{
+										&andCodeExpr{
+											pos: position{line: 2511, col: 5, offset: 80946},
+											run: (*parser).callonSectionTitleInlineElement23,
+										},
 										&litMatcher{
-											pos:        position{line: 2511, col: 5, offset: 80946},
+											pos:        position{line: 2514, col: 5, offset: 81017},
 											val:        "\\'",
 											ignoreCase: false,
 											want:       "\"\\\\'\"",
 										},
 										&andExpr{
-											pos: position{line: 2511, col: 10, offset: 80951},
+											pos: position{line: 2514, col: 10, offset: 81022},
 											expr: &charClassMatcher{
-												pos:        position{line: 2511, col: 11, offset: 80952},
+												pos:        position{line: 2514, col: 11, offset: 81023},
 												val:        "[\\pL]",
 												classes:    []*unicode.RangeTable{rangeTable("L")},
 												ignoreCase: false,
@@ -44489,29 +44501,29 @@ var g = &grammar{
 								},
 							},
 							&actionExpr{
-								pos: position{line: 2517, col: 5, offset: 81144},
-								run: (*parser).callonSectionTitleInlineElement26,
+								pos: position{line: 2520, col: 5, offset: 81215},
+								run: (*parser).callonSectionTitleInlineElement27,
 								expr: &seqExpr{
-									pos: position{line: 2517, col: 5, offset: 81144},
+									pos: position{line: 2520, col: 5, offset: 81215},
 									exprs: []interface{}{
-										&andCodeExpr{
-											pos: position{line: 2517, col: 5, offset: 81144},
-											run: (*parser).callonSectionTitleInlineElement28,
-										},
 										&andCodeExpr{
 											pos: position{line: 2520, col: 5, offset: 81215},
 											run: (*parser).callonSectionTitleInlineElement29,
 										},
+										&andCodeExpr{
+											pos: position{line: 2523, col: 5, offset: 81286},
+											run: (*parser).callonSectionTitleInlineElement30,
+										},
 										&litMatcher{
-											pos:        position{line: 2524, col: 5, offset: 81340},
+											pos:        position{line: 2527, col: 5, offset: 81411},
 											val:        "'",
 											ignoreCase: false,
 											want:       "\"'\"",
 										},
 										&andExpr{
-											pos: position{line: 2524, col: 9, offset: 81344},
+											pos: position{line: 2527, col: 9, offset: 81415},
 											expr: &charClassMatcher{
-												pos:        position{line: 2524, col: 10, offset: 81345},
+												pos:        position{line: 2527, col: 10, offset: 81416},
 												val:        "[\\pL]",
 												classes:    []*unicode.RangeTable{rangeTable("L")},
 												ignoreCase: false,
@@ -44526,27 +44538,27 @@ var g = &grammar{
 								name: "Replacement",
 							},
 							&actionExpr{
-								pos: position{line: 2806, col: 5, offset: 89052},
-								run: (*parser).callonSectionTitleInlineElement34,
+								pos: position{line: 2809, col: 5, offset: 89123},
+								run: (*parser).callonSectionTitleInlineElement35,
 								expr: &choiceExpr{
-									pos: position{line: 2807, col: 9, offset: 89062},
+									pos: position{line: 2810, col: 9, offset: 89133},
 									alternatives: []interface{}{
 										&charClassMatcher{
-											pos:        position{line: 2807, col: 10, offset: 89063},
+											pos:        position{line: 2810, col: 10, offset: 89134},
 											val:        "[.,;?)!/:\"\\@=-]",
 											chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 											ignoreCase: false,
 											inverted:   false,
 										},
 										&seqExpr{
-											pos: position{line: 2809, col: 13, offset: 89160},
+											pos: position{line: 2812, col: 13, offset: 89231},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2809, col: 13, offset: 89160},
-													run: (*parser).callonSectionTitleInlineElement38,
+													pos: position{line: 2812, col: 13, offset: 89231},
+													run: (*parser).callonSectionTitleInlineElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2812, col: 13, offset: 89260},
+													pos:        position{line: 2815, col: 13, offset: 89331},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
@@ -44554,20 +44566,20 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 2812, col: 19, offset: 89266},
+											pos:        position{line: 2815, col: 19, offset: 89337},
 											val:        "]",
 											ignoreCase: false,
 											want:       "\"]\"",
 										},
 										&seqExpr{
-											pos: position{line: 2815, col: 13, offset: 89304},
+											pos: position{line: 2818, col: 13, offset: 89375},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2815, col: 13, offset: 89304},
-													run: (*parser).callonSectionTitleInlineElement42,
+													pos: position{line: 2818, col: 13, offset: 89375},
+													run: (*parser).callonSectionTitleInlineElement43,
 												},
 												&charClassMatcher{
-													pos:        position{line: 2818, col: 14, offset: 89397},
+													pos:        position{line: 2821, col: 14, offset: 89468},
 													val:        "[*_`#]",
 													chars:      []rune{'*', '_', '`', '#'},
 													ignoreCase: false,
@@ -44576,18 +44588,18 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2820, col: 12, offset: 89441},
+											pos: position{line: 2823, col: 12, offset: 89512},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2820, col: 12, offset: 89441},
+													pos:        position{line: 2823, col: 12, offset: 89512},
 													val:        "(",
 													ignoreCase: false,
 													want:       "\"(\"",
 												},
 												&notExpr{
-													pos: position{line: 2820, col: 16, offset: 89445},
+													pos: position{line: 2823, col: 16, offset: 89516},
 													expr: &litMatcher{
-														pos:        position{line: 2820, col: 17, offset: 89446},
+														pos:        position{line: 2823, col: 17, offset: 89517},
 														val:        "(",
 														ignoreCase: false,
 														want:       "\"(\"",
@@ -44612,20 +44624,20 @@ var g = &grammar{
 							},
 							&actionExpr{
 								pos: position{line: 2480, col: 5, offset: 79775},
-								run: (*parser).callonSectionTitleInlineElement51,
+								run: (*parser).callonSectionTitleInlineElement52,
 								expr: &seqExpr{
 									pos: position{line: 2480, col: 5, offset: 79775},
 									exprs: []interface{}{
 										&andCodeExpr{
 											pos: position{line: 2480, col: 5, offset: 79775},
-											run: (*parser).callonSectionTitleInlineElement53,
+											run: (*parser).callonSectionTitleInlineElement54,
 										},
 										&labeledExpr{
 											pos:   position{line: 2483, col: 5, offset: 79851},
 											label: "element",
 											expr: &actionExpr{
 												pos: position{line: 2484, col: 9, offset: 79869},
-												run: (*parser).callonSectionTitleInlineElement55,
+												run: (*parser).callonSectionTitleInlineElement56,
 												expr: &charClassMatcher{
 													pos:        position{line: 2484, col: 10, offset: 79870},
 													val:        "[<>&]",
@@ -44644,13 +44656,13 @@ var g = &grammar{
 							},
 							&actionExpr{
 								pos: position{line: 646, col: 5, offset: 20455},
-								run: (*parser).callonSectionTitleInlineElement58,
+								run: (*parser).callonSectionTitleInlineElement59,
 								expr: &seqExpr{
 									pos: position{line: 646, col: 5, offset: 20455},
 									exprs: []interface{}{
 										&andCodeExpr{
 											pos: position{line: 646, col: 5, offset: 20455},
-											run: (*parser).callonSectionTitleInlineElement60,
+											run: (*parser).callonSectionTitleInlineElement61,
 										},
 										&labeledExpr{
 											pos:   position{line: 649, col: 5, offset: 20527},
@@ -44660,7 +44672,7 @@ var g = &grammar{
 												alternatives: []interface{}{
 													&actionExpr{
 														pos: position{line: 655, col: 5, offset: 20665},
-														run: (*parser).callonSectionTitleInlineElement63,
+														run: (*parser).callonSectionTitleInlineElement64,
 														expr: &seqExpr{
 															pos: position{line: 655, col: 5, offset: 20665},
 															exprs: []interface{}{
@@ -44675,7 +44687,7 @@ var g = &grammar{
 																	label: "name",
 																	expr: &actionExpr{
 																		pos: position{line: 318, col: 18, offset: 9736},
-																		run: (*parser).callonSectionTitleInlineElement67,
+																		run: (*parser).callonSectionTitleInlineElement68,
 																		expr: &seqExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
 																			exprs: []interface{}{
@@ -44713,7 +44725,7 @@ var g = &grammar{
 													},
 													&actionExpr{
 														pos: position{line: 662, col: 5, offset: 20933},
-														run: (*parser).callonSectionTitleInlineElement73,
+														run: (*parser).callonSectionTitleInlineElement74,
 														expr: &seqExpr{
 															pos: position{line: 662, col: 5, offset: 20933},
 															exprs: []interface{}{
@@ -44728,7 +44740,7 @@ var g = &grammar{
 																	label: "name",
 																	expr: &actionExpr{
 																		pos: position{line: 318, col: 18, offset: 9736},
-																		run: (*parser).callonSectionTitleInlineElement77,
+																		run: (*parser).callonSectionTitleInlineElement78,
 																		expr: &seqExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
 																			exprs: []interface{}{
@@ -44766,7 +44778,7 @@ var g = &grammar{
 													},
 													&actionExpr{
 														pos: position{line: 668, col: 25, offset: 21137},
-														run: (*parser).callonSectionTitleInlineElement83,
+														run: (*parser).callonSectionTitleInlineElement84,
 														expr: &seqExpr{
 															pos: position{line: 668, col: 25, offset: 21137},
 															exprs: []interface{}{
@@ -44781,7 +44793,7 @@ var g = &grammar{
 																	label: "name",
 																	expr: &actionExpr{
 																		pos: position{line: 318, col: 18, offset: 9736},
-																		run: (*parser).callonSectionTitleInlineElement87,
+																		run: (*parser).callonSectionTitleInlineElement88,
 																		expr: &seqExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
 																			exprs: []interface{}{
@@ -44815,7 +44827,7 @@ var g = &grammar{
 																		pos: position{line: 668, col: 62, offset: 21174},
 																		expr: &actionExpr{
 																			pos: position{line: 676, col: 17, offset: 21469},
-																			run: (*parser).callonSectionTitleInlineElement94,
+																			run: (*parser).callonSectionTitleInlineElement95,
 																			expr: &seqExpr{
 																				pos: position{line: 676, col: 17, offset: 21469},
 																				exprs: []interface{}{
@@ -44833,7 +44845,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 676, col: 28, offset: 21480},
-																									run: (*parser).callonSectionTitleInlineElement99,
+																									run: (*parser).callonSectionTitleInlineElement100,
 																									expr: &charClassMatcher{
 																										pos:        position{line: 676, col: 28, offset: 21480},
 																										val:        "[A-Za-z]",
@@ -44844,7 +44856,7 @@ var g = &grammar{
 																								},
 																								&actionExpr{
 																									pos: position{line: 678, col: 9, offset: 21534},
-																									run: (*parser).callonSectionTitleInlineElement101,
+																									run: (*parser).callonSectionTitleInlineElement102,
 																									expr: &oneOrMoreExpr{
 																										pos: position{line: 678, col: 9, offset: 21534},
 																										expr: &charClassMatcher{
@@ -44875,7 +44887,7 @@ var g = &grammar{
 													},
 													&actionExpr{
 														pos: position{line: 672, col: 25, offset: 21308},
-														run: (*parser).callonSectionTitleInlineElement105,
+														run: (*parser).callonSectionTitleInlineElement106,
 														expr: &seqExpr{
 															pos: position{line: 672, col: 25, offset: 21308},
 															exprs: []interface{}{
@@ -44890,7 +44902,7 @@ var g = &grammar{
 																	label: "name",
 																	expr: &actionExpr{
 																		pos: position{line: 318, col: 18, offset: 9736},
-																		run: (*parser).callonSectionTitleInlineElement109,
+																		run: (*parser).callonSectionTitleInlineElement110,
 																		expr: &seqExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
 																			exprs: []interface{}{
@@ -44924,7 +44936,7 @@ var g = &grammar{
 																		pos: position{line: 672, col: 63, offset: 21346},
 																		expr: &actionExpr{
 																			pos: position{line: 676, col: 17, offset: 21469},
-																			run: (*parser).callonSectionTitleInlineElement116,
+																			run: (*parser).callonSectionTitleInlineElement117,
 																			expr: &seqExpr{
 																				pos: position{line: 676, col: 17, offset: 21469},
 																				exprs: []interface{}{
@@ -44942,7 +44954,7 @@ var g = &grammar{
 																							alternatives: []interface{}{
 																								&actionExpr{
 																									pos: position{line: 676, col: 28, offset: 21480},
-																									run: (*parser).callonSectionTitleInlineElement121,
+																									run: (*parser).callonSectionTitleInlineElement122,
 																									expr: &charClassMatcher{
 																										pos:        position{line: 676, col: 28, offset: 21480},
 																										val:        "[A-Za-z]",
@@ -44953,7 +44965,7 @@ var g = &grammar{
 																								},
 																								&actionExpr{
 																									pos: position{line: 678, col: 9, offset: 21534},
-																									run: (*parser).callonSectionTitleInlineElement123,
+																									run: (*parser).callonSectionTitleInlineElement124,
 																									expr: &oneOrMoreExpr{
 																										pos: position{line: 678, col: 9, offset: 21534},
 																										expr: &charClassMatcher{
@@ -44990,7 +45002,7 @@ var g = &grammar{
 							},
 							&actionExpr{
 								pos: position{line: 1220, col: 23, offset: 37720},
-								run: (*parser).callonSectionTitleInlineElement127,
+								run: (*parser).callonSectionTitleInlineElement128,
 								expr: &seqExpr{
 									pos: position{line: 1220, col: 23, offset: 37720},
 									exprs: []interface{}{
@@ -45005,7 +45017,7 @@ var g = &grammar{
 											label: "ref",
 											expr: &actionExpr{
 												pos: position{line: 1220, col: 56, offset: 37753},
-												run: (*parser).callonSectionTitleInlineElement131,
+												run: (*parser).callonSectionTitleInlineElement132,
 												expr: &oneOrMoreExpr{
 													pos: position{line: 1220, col: 56, offset: 37753},
 													expr: &charClassMatcher{
@@ -45029,20 +45041,20 @@ var g = &grammar{
 							},
 							&actionExpr{
 								pos: position{line: 2363, col: 5, offset: 76485},
-								run: (*parser).callonSectionTitleInlineElement135,
+								run: (*parser).callonSectionTitleInlineElement136,
 								expr: &seqExpr{
 									pos: position{line: 2363, col: 5, offset: 76485},
 									exprs: []interface{}{
 										&andCodeExpr{
 											pos: position{line: 2363, col: 5, offset: 76485},
-											run: (*parser).callonSectionTitleInlineElement137,
+											run: (*parser).callonSectionTitleInlineElement138,
 										},
 										&labeledExpr{
 											pos:   position{line: 2366, col: 5, offset: 76540},
 											label: "id",
 											expr: &actionExpr{
 												pos: position{line: 411, col: 5, offset: 12580},
-												run: (*parser).callonSectionTitleInlineElement139,
+												run: (*parser).callonSectionTitleInlineElement140,
 												expr: &seqExpr{
 													pos: position{line: 411, col: 5, offset: 12580},
 													exprs: []interface{}{
@@ -45057,7 +45069,7 @@ var g = &grammar{
 															label: "id",
 															expr: &actionExpr{
 																pos: position{line: 413, col: 9, offset: 12603},
-																run: (*parser).callonSectionTitleInlineElement143,
+																run: (*parser).callonSectionTitleInlineElement144,
 																expr: &labeledExpr{
 																	pos:   position{line: 413, col: 9, offset: 12603},
 																	label: "elements",
@@ -45068,7 +45080,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 414, col: 14, offset: 12627},
-																					run: (*parser).callonSectionTitleInlineElement147,
+																					run: (*parser).callonSectionTitleInlineElement148,
 																					expr: &oneOrMoreExpr{
 																						pos: position{line: 414, col: 14, offset: 12627},
 																						expr: &charClassMatcher{
@@ -45082,7 +45094,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 1220, col: 23, offset: 37720},
-																					run: (*parser).callonSectionTitleInlineElement150,
+																					run: (*parser).callonSectionTitleInlineElement151,
 																					expr: &seqExpr{
 																						pos: position{line: 1220, col: 23, offset: 37720},
 																						exprs: []interface{}{
@@ -45097,7 +45109,7 @@ var g = &grammar{
 																								label: "ref",
 																								expr: &actionExpr{
 																									pos: position{line: 1220, col: 56, offset: 37753},
-																									run: (*parser).callonSectionTitleInlineElement154,
+																									run: (*parser).callonSectionTitleInlineElement155,
 																									expr: &oneOrMoreExpr{
 																										pos: position{line: 1220, col: 56, offset: 37753},
 																										expr: &charClassMatcher{
@@ -45121,13 +45133,13 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 646, col: 5, offset: 20455},
-																					run: (*parser).callonSectionTitleInlineElement158,
+																					run: (*parser).callonSectionTitleInlineElement159,
 																					expr: &seqExpr{
 																						pos: position{line: 646, col: 5, offset: 20455},
 																						exprs: []interface{}{
 																							&andCodeExpr{
 																								pos: position{line: 646, col: 5, offset: 20455},
-																								run: (*parser).callonSectionTitleInlineElement160,
+																								run: (*parser).callonSectionTitleInlineElement161,
 																							},
 																							&labeledExpr{
 																								pos:   position{line: 649, col: 5, offset: 20527},
@@ -45137,7 +45149,7 @@ var g = &grammar{
 																									alternatives: []interface{}{
 																										&actionExpr{
 																											pos: position{line: 655, col: 5, offset: 20665},
-																											run: (*parser).callonSectionTitleInlineElement163,
+																											run: (*parser).callonSectionTitleInlineElement164,
 																											expr: &seqExpr{
 																												pos: position{line: 655, col: 5, offset: 20665},
 																												exprs: []interface{}{
@@ -45152,7 +45164,7 @@ var g = &grammar{
 																														label: "name",
 																														expr: &actionExpr{
 																															pos: position{line: 318, col: 18, offset: 9736},
-																															run: (*parser).callonSectionTitleInlineElement167,
+																															run: (*parser).callonSectionTitleInlineElement168,
 																															expr: &seqExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
 																																exprs: []interface{}{
@@ -45190,7 +45202,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 662, col: 5, offset: 20933},
-																											run: (*parser).callonSectionTitleInlineElement173,
+																											run: (*parser).callonSectionTitleInlineElement174,
 																											expr: &seqExpr{
 																												pos: position{line: 662, col: 5, offset: 20933},
 																												exprs: []interface{}{
@@ -45205,7 +45217,7 @@ var g = &grammar{
 																														label: "name",
 																														expr: &actionExpr{
 																															pos: position{line: 318, col: 18, offset: 9736},
-																															run: (*parser).callonSectionTitleInlineElement177,
+																															run: (*parser).callonSectionTitleInlineElement178,
 																															expr: &seqExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
 																																exprs: []interface{}{
@@ -45243,7 +45255,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 668, col: 25, offset: 21137},
-																											run: (*parser).callonSectionTitleInlineElement183,
+																											run: (*parser).callonSectionTitleInlineElement184,
 																											expr: &seqExpr{
 																												pos: position{line: 668, col: 25, offset: 21137},
 																												exprs: []interface{}{
@@ -45258,7 +45270,7 @@ var g = &grammar{
 																														label: "name",
 																														expr: &actionExpr{
 																															pos: position{line: 318, col: 18, offset: 9736},
-																															run: (*parser).callonSectionTitleInlineElement187,
+																															run: (*parser).callonSectionTitleInlineElement188,
 																															expr: &seqExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
 																																exprs: []interface{}{
@@ -45292,7 +45304,7 @@ var g = &grammar{
 																															pos: position{line: 668, col: 62, offset: 21174},
 																															expr: &actionExpr{
 																																pos: position{line: 676, col: 17, offset: 21469},
-																																run: (*parser).callonSectionTitleInlineElement194,
+																																run: (*parser).callonSectionTitleInlineElement195,
 																																expr: &seqExpr{
 																																	pos: position{line: 676, col: 17, offset: 21469},
 																																	exprs: []interface{}{
@@ -45310,7 +45322,7 @@ var g = &grammar{
 																																				alternatives: []interface{}{
 																																					&actionExpr{
 																																						pos: position{line: 676, col: 28, offset: 21480},
-																																						run: (*parser).callonSectionTitleInlineElement199,
+																																						run: (*parser).callonSectionTitleInlineElement200,
 																																						expr: &charClassMatcher{
 																																							pos:        position{line: 676, col: 28, offset: 21480},
 																																							val:        "[A-Za-z]",
@@ -45321,7 +45333,7 @@ var g = &grammar{
 																																					},
 																																					&actionExpr{
 																																						pos: position{line: 678, col: 9, offset: 21534},
-																																						run: (*parser).callonSectionTitleInlineElement201,
+																																						run: (*parser).callonSectionTitleInlineElement202,
 																																						expr: &oneOrMoreExpr{
 																																							pos: position{line: 678, col: 9, offset: 21534},
 																																							expr: &charClassMatcher{
@@ -45352,7 +45364,7 @@ var g = &grammar{
 																										},
 																										&actionExpr{
 																											pos: position{line: 672, col: 25, offset: 21308},
-																											run: (*parser).callonSectionTitleInlineElement205,
+																											run: (*parser).callonSectionTitleInlineElement206,
 																											expr: &seqExpr{
 																												pos: position{line: 672, col: 25, offset: 21308},
 																												exprs: []interface{}{
@@ -45367,7 +45379,7 @@ var g = &grammar{
 																														label: "name",
 																														expr: &actionExpr{
 																															pos: position{line: 318, col: 18, offset: 9736},
-																															run: (*parser).callonSectionTitleInlineElement209,
+																															run: (*parser).callonSectionTitleInlineElement210,
 																															expr: &seqExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
 																																exprs: []interface{}{
@@ -45401,7 +45413,7 @@ var g = &grammar{
 																															pos: position{line: 672, col: 63, offset: 21346},
 																															expr: &actionExpr{
 																																pos: position{line: 676, col: 17, offset: 21469},
-																																run: (*parser).callonSectionTitleInlineElement216,
+																																run: (*parser).callonSectionTitleInlineElement217,
 																																expr: &seqExpr{
 																																	pos: position{line: 676, col: 17, offset: 21469},
 																																	exprs: []interface{}{
@@ -45419,7 +45431,7 @@ var g = &grammar{
 																																				alternatives: []interface{}{
 																																					&actionExpr{
 																																						pos: position{line: 676, col: 28, offset: 21480},
-																																						run: (*parser).callonSectionTitleInlineElement221,
+																																						run: (*parser).callonSectionTitleInlineElement222,
 																																						expr: &charClassMatcher{
 																																							pos:        position{line: 676, col: 28, offset: 21480},
 																																							val:        "[A-Za-z]",
@@ -45430,7 +45442,7 @@ var g = &grammar{
 																																					},
 																																					&actionExpr{
 																																						pos: position{line: 678, col: 9, offset: 21534},
-																																						run: (*parser).callonSectionTitleInlineElement223,
+																																						run: (*parser).callonSectionTitleInlineElement224,
 																																						expr: &oneOrMoreExpr{
 																																							pos: position{line: 678, col: 9, offset: 21534},
 																																							expr: &charClassMatcher{
@@ -45467,7 +45479,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 419, col: 16, offset: 12860},
-																					run: (*parser).callonSectionTitleInlineElement227,
+																					run: (*parser).callonSectionTitleInlineElement228,
 																					expr: &litMatcher{
 																						pos:        position{line: 419, col: 16, offset: 12860},
 																						val:        "{",
@@ -45494,10 +45506,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 2366, col: 26, offset: 76561},
 											expr: &actionExpr{
-												pos: position{line: 2889, col: 10, offset: 91398},
-												run: (*parser).callonSectionTitleInlineElement231,
+												pos: position{line: 2892, col: 10, offset: 91469},
+												run: (*parser).callonSectionTitleInlineElement232,
 												expr: &charClassMatcher{
-													pos:        position{line: 2889, col: 10, offset: 91398},
+													pos:        position{line: 2892, col: 10, offset: 91469},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -45508,28 +45520,28 @@ var g = &grammar{
 										&andExpr{
 											pos: position{line: 2366, col: 33, offset: 76568},
 											expr: &choiceExpr{
-												pos: position{line: 2911, col: 8, offset: 91796},
+												pos: position{line: 2914, col: 8, offset: 91867},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2898, col: 12, offset: 91569},
-														run: (*parser).callonSectionTitleInlineElement235,
+														pos: position{line: 2901, col: 12, offset: 91640},
+														run: (*parser).callonSectionTitleInlineElement236,
 														expr: &choiceExpr{
-															pos: position{line: 2898, col: 13, offset: 91570},
+															pos: position{line: 2901, col: 13, offset: 91641},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2898, col: 13, offset: 91570},
+																	pos:        position{line: 2901, col: 13, offset: 91641},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 20, offset: 91577},
+																	pos:        position{line: 2901, col: 20, offset: 91648},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 29, offset: 91586},
+																	pos:        position{line: 2901, col: 29, offset: 91657},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -45538,9 +45550,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2908, col: 8, offset: 91746},
+														pos: position{line: 2911, col: 8, offset: 91817},
 														expr: &anyMatcher{
-															line: 2908, col: 9, offset: 91747,
+															line: 2911, col: 9, offset: 91818,
 														},
 													},
 												},
@@ -45551,7 +45563,7 @@ var g = &grammar{
 							},
 							&actionExpr{
 								pos: position{line: 1275, col: 5, offset: 39480},
-								run: (*parser).callonSectionTitleInlineElement242,
+								run: (*parser).callonSectionTitleInlineElement243,
 								expr: &seqExpr{
 									pos: position{line: 1275, col: 5, offset: 39480},
 									exprs: []interface{}{
@@ -45565,12 +45577,12 @@ var g = &grammar{
 											pos:   position{line: 1275, col: 14, offset: 39489},
 											label: "id",
 											expr: &actionExpr{
-												pos: position{line: 2874, col: 7, offset: 91050},
-												run: (*parser).callonSectionTitleInlineElement246,
+												pos: position{line: 2877, col: 7, offset: 91121},
+												run: (*parser).callonSectionTitleInlineElement247,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2874, col: 7, offset: 91050},
+													pos: position{line: 2877, col: 7, offset: 91121},
 													expr: &charClassMatcher{
-														pos:        position{line: 2874, col: 7, offset: 91050},
+														pos:        position{line: 2877, col: 7, offset: 91121},
 														val:        "[^[]<>,]",
 														chars:      []rune{'[', ']', '<', '>', ','},
 														ignoreCase: false,
@@ -45590,7 +45602,7 @@ var g = &grammar{
 							},
 							&actionExpr{
 								pos: position{line: 1280, col: 5, offset: 39616},
-								run: (*parser).callonSectionTitleInlineElement250,
+								run: (*parser).callonSectionTitleInlineElement251,
 								expr: &seqExpr{
 									pos: position{line: 1280, col: 5, offset: 39616},
 									exprs: []interface{}{
@@ -45604,12 +45616,12 @@ var g = &grammar{
 											pos:   position{line: 1280, col: 10, offset: 39621},
 											label: "id",
 											expr: &actionExpr{
-												pos: position{line: 2874, col: 7, offset: 91050},
-												run: (*parser).callonSectionTitleInlineElement254,
+												pos: position{line: 2877, col: 7, offset: 91121},
+												run: (*parser).callonSectionTitleInlineElement255,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2874, col: 7, offset: 91050},
+													pos: position{line: 2877, col: 7, offset: 91121},
 													expr: &charClassMatcher{
-														pos:        position{line: 2874, col: 7, offset: 91050},
+														pos:        position{line: 2877, col: 7, offset: 91121},
 														val:        "[^[]<>,]",
 														chars:      []rune{'[', ']', '<', '>', ','},
 														ignoreCase: false,
@@ -45657,9 +45669,9 @@ var g = &grammar{
 										pos: position{line: 2379, col: 9, offset: 76952},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2906, col: 11, offset: 91732},
+												pos: position{line: 2909, col: 11, offset: 91803},
 												expr: &anyMatcher{
-													line: 2906, col: 13, offset: 91734,
+													line: 2909, col: 13, offset: 91805,
 												},
 											},
 											&labeledExpr{
@@ -45669,21 +45681,21 @@ var g = &grammar{
 													pos: position{line: 2381, col: 13, offset: 76989},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2788, col: 5, offset: 88640},
+															pos: position{line: 2791, col: 5, offset: 88711},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2788, col: 5, offset: 88640},
+																pos: position{line: 2791, col: 5, offset: 88711},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2788, col: 5, offset: 88640},
+																		pos:   position{line: 2791, col: 5, offset: 88711},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2788, col: 11, offset: 88646},
+																			pos: position{line: 2791, col: 11, offset: 88717},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2788, col: 11, offset: 88646},
+																				pos: position{line: 2791, col: 11, offset: 88717},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2788, col: 11, offset: 88646},
+																					pos:        position{line: 2791, col: 11, offset: 88717},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45693,36 +45705,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2791, col: 5, offset: 88704},
+																		pos: position{line: 2794, col: 5, offset: 88775},
 																		expr: &seqExpr{
-																			pos: position{line: 2792, col: 9, offset: 88715},
+																			pos: position{line: 2795, col: 9, offset: 88786},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2792, col: 9, offset: 88715},
+																					pos:        position{line: 2795, col: 9, offset: 88786},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2793, col: 9, offset: 88764},
+																					pos: position{line: 2796, col: 9, offset: 88835},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2797, col: 5, offset: 88844},
+																		pos: position{line: 2800, col: 5, offset: 88915},
 																		expr: &seqExpr{
-																			pos: position{line: 2798, col: 9, offset: 88855},
+																			pos: position{line: 2801, col: 9, offset: 88926},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2798, col: 9, offset: 88855},
+																					pos:        position{line: 2801, col: 9, offset: 88926},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2798, col: 13, offset: 88859},
+																					pos:        position{line: 2801, col: 13, offset: 88930},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45735,12 +45747,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2893, col: 11, offset: 91459},
+															pos: position{line: 2896, col: 11, offset: 91530},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2893, col: 11, offset: 91459},
+																pos: position{line: 2896, col: 11, offset: 91530},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2893, col: 11, offset: 91459},
+																	pos:        position{line: 2896, col: 11, offset: 91530},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45758,16 +45770,20 @@ var g = &grammar{
 															expr: &seqExpr{
 																pos: position{line: 2511, col: 5, offset: 80946},
 																exprs: []interface{}{
+																	&andCodeExpr{
+																		pos: position{line: 2511, col: 5, offset: 80946},
+																		run: (*parser).callonNormalGroup31,
+																	},
 																	&litMatcher{
-																		pos:        position{line: 2511, col: 5, offset: 80946},
+																		pos:        position{line: 2514, col: 5, offset: 81017},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2511, col: 10, offset: 80951},
+																		pos: position{line: 2514, col: 10, offset: 81022},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2511, col: 11, offset: 80952},
+																			pos:        position{line: 2514, col: 11, offset: 81023},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45778,29 +45794,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2517, col: 5, offset: 81144},
-															run: (*parser).callonNormalGroup34,
+															pos: position{line: 2520, col: 5, offset: 81215},
+															run: (*parser).callonNormalGroup35,
 															expr: &seqExpr{
-																pos: position{line: 2517, col: 5, offset: 81144},
+																pos: position{line: 2520, col: 5, offset: 81215},
 																exprs: []interface{}{
-																	&andCodeExpr{
-																		pos: position{line: 2517, col: 5, offset: 81144},
-																		run: (*parser).callonNormalGroup36,
-																	},
 																	&andCodeExpr{
 																		pos: position{line: 2520, col: 5, offset: 81215},
 																		run: (*parser).callonNormalGroup37,
 																	},
+																	&andCodeExpr{
+																		pos: position{line: 2523, col: 5, offset: 81286},
+																		run: (*parser).callonNormalGroup38,
+																	},
 																	&litMatcher{
-																		pos:        position{line: 2524, col: 5, offset: 81340},
+																		pos:        position{line: 2527, col: 5, offset: 81411},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2524, col: 9, offset: 81344},
+																		pos: position{line: 2527, col: 9, offset: 81415},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2524, col: 10, offset: 81345},
+																			pos:        position{line: 2527, col: 10, offset: 81416},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45811,27 +45827,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2806, col: 5, offset: 89052},
-															run: (*parser).callonNormalGroup41,
+															pos: position{line: 2809, col: 5, offset: 89123},
+															run: (*parser).callonNormalGroup42,
 															expr: &choiceExpr{
-																pos: position{line: 2807, col: 9, offset: 89062},
+																pos: position{line: 2810, col: 9, offset: 89133},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2807, col: 10, offset: 89063},
+																		pos:        position{line: 2810, col: 10, offset: 89134},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2809, col: 13, offset: 89160},
+																		pos: position{line: 2812, col: 13, offset: 89231},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2809, col: 13, offset: 89160},
-																				run: (*parser).callonNormalGroup45,
+																				pos: position{line: 2812, col: 13, offset: 89231},
+																				run: (*parser).callonNormalGroup46,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2812, col: 13, offset: 89260},
+																				pos:        position{line: 2815, col: 13, offset: 89331},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45839,20 +45855,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2812, col: 19, offset: 89266},
+																		pos:        position{line: 2815, col: 19, offset: 89337},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2815, col: 13, offset: 89304},
+																		pos: position{line: 2818, col: 13, offset: 89375},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2815, col: 13, offset: 89304},
-																				run: (*parser).callonNormalGroup49,
+																				pos: position{line: 2818, col: 13, offset: 89375},
+																				run: (*parser).callonNormalGroup50,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2818, col: 14, offset: 89397},
+																				pos:        position{line: 2821, col: 14, offset: 89468},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45861,18 +45877,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2820, col: 12, offset: 89441},
+																		pos: position{line: 2823, col: 12, offset: 89512},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2820, col: 12, offset: 89441},
+																				pos:        position{line: 2823, col: 12, offset: 89512},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2820, col: 16, offset: 89445},
+																				pos: position{line: 2823, col: 16, offset: 89516},
 																				expr: &litMatcher{
-																					pos:        position{line: 2820, col: 17, offset: 89446},
+																					pos:        position{line: 2823, col: 17, offset: 89517},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45884,25 +45900,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2898, col: 12, offset: 91569},
-															run: (*parser).callonNormalGroup55,
+															pos: position{line: 2901, col: 12, offset: 91640},
+															run: (*parser).callonNormalGroup56,
 															expr: &choiceExpr{
-																pos: position{line: 2898, col: 13, offset: 91570},
+																pos: position{line: 2901, col: 13, offset: 91641},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 13, offset: 91570},
+																		pos:        position{line: 2901, col: 13, offset: 91641},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 20, offset: 91577},
+																		pos:        position{line: 2901, col: 20, offset: 91648},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2898, col: 29, offset: 91586},
+																		pos:        position{line: 2901, col: 29, offset: 91657},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45912,13 +45928,13 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 646, col: 5, offset: 20455},
-															run: (*parser).callonNormalGroup60,
+															run: (*parser).callonNormalGroup61,
 															expr: &seqExpr{
 																pos: position{line: 646, col: 5, offset: 20455},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 646, col: 5, offset: 20455},
-																		run: (*parser).callonNormalGroup62,
+																		run: (*parser).callonNormalGroup63,
 																	},
 																	&labeledExpr{
 																		pos:   position{line: 649, col: 5, offset: 20527},
@@ -45928,7 +45944,7 @@ var g = &grammar{
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 655, col: 5, offset: 20665},
-																					run: (*parser).callonNormalGroup65,
+																					run: (*parser).callonNormalGroup66,
 																					expr: &seqExpr{
 																						pos: position{line: 655, col: 5, offset: 20665},
 																						exprs: []interface{}{
@@ -45943,7 +45959,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
-																									run: (*parser).callonNormalGroup69,
+																									run: (*parser).callonNormalGroup70,
 																									expr: &seqExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
 																										exprs: []interface{}{
@@ -45981,7 +45997,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 662, col: 5, offset: 20933},
-																					run: (*parser).callonNormalGroup75,
+																					run: (*parser).callonNormalGroup76,
 																					expr: &seqExpr{
 																						pos: position{line: 662, col: 5, offset: 20933},
 																						exprs: []interface{}{
@@ -45996,7 +46012,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
-																									run: (*parser).callonNormalGroup79,
+																									run: (*parser).callonNormalGroup80,
 																									expr: &seqExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
 																										exprs: []interface{}{
@@ -46034,7 +46050,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 668, col: 25, offset: 21137},
-																					run: (*parser).callonNormalGroup85,
+																					run: (*parser).callonNormalGroup86,
 																					expr: &seqExpr{
 																						pos: position{line: 668, col: 25, offset: 21137},
 																						exprs: []interface{}{
@@ -46049,7 +46065,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
-																									run: (*parser).callonNormalGroup89,
+																									run: (*parser).callonNormalGroup90,
 																									expr: &seqExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
 																										exprs: []interface{}{
@@ -46083,7 +46099,7 @@ var g = &grammar{
 																									pos: position{line: 668, col: 62, offset: 21174},
 																									expr: &actionExpr{
 																										pos: position{line: 676, col: 17, offset: 21469},
-																										run: (*parser).callonNormalGroup96,
+																										run: (*parser).callonNormalGroup97,
 																										expr: &seqExpr{
 																											pos: position{line: 676, col: 17, offset: 21469},
 																											exprs: []interface{}{
@@ -46101,7 +46117,7 @@ var g = &grammar{
 																														alternatives: []interface{}{
 																															&actionExpr{
 																																pos: position{line: 676, col: 28, offset: 21480},
-																																run: (*parser).callonNormalGroup101,
+																																run: (*parser).callonNormalGroup102,
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 676, col: 28, offset: 21480},
 																																	val:        "[A-Za-z]",
@@ -46112,7 +46128,7 @@ var g = &grammar{
 																															},
 																															&actionExpr{
 																																pos: position{line: 678, col: 9, offset: 21534},
-																																run: (*parser).callonNormalGroup103,
+																																run: (*parser).callonNormalGroup104,
 																																expr: &oneOrMoreExpr{
 																																	pos: position{line: 678, col: 9, offset: 21534},
 																																	expr: &charClassMatcher{
@@ -46143,7 +46159,7 @@ var g = &grammar{
 																				},
 																				&actionExpr{
 																					pos: position{line: 672, col: 25, offset: 21308},
-																					run: (*parser).callonNormalGroup107,
+																					run: (*parser).callonNormalGroup108,
 																					expr: &seqExpr{
 																						pos: position{line: 672, col: 25, offset: 21308},
 																						exprs: []interface{}{
@@ -46158,7 +46174,7 @@ var g = &grammar{
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
-																									run: (*parser).callonNormalGroup111,
+																									run: (*parser).callonNormalGroup112,
 																									expr: &seqExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
 																										exprs: []interface{}{
@@ -46192,7 +46208,7 @@ var g = &grammar{
 																									pos: position{line: 672, col: 63, offset: 21346},
 																									expr: &actionExpr{
 																										pos: position{line: 676, col: 17, offset: 21469},
-																										run: (*parser).callonNormalGroup118,
+																										run: (*parser).callonNormalGroup119,
 																										expr: &seqExpr{
 																											pos: position{line: 676, col: 17, offset: 21469},
 																											exprs: []interface{}{
@@ -46210,7 +46226,7 @@ var g = &grammar{
 																														alternatives: []interface{}{
 																															&actionExpr{
 																																pos: position{line: 676, col: 28, offset: 21480},
-																																run: (*parser).callonNormalGroup123,
+																																run: (*parser).callonNormalGroup124,
 																																expr: &charClassMatcher{
 																																	pos:        position{line: 676, col: 28, offset: 21480},
 																																	val:        "[A-Za-z]",
@@ -46221,7 +46237,7 @@ var g = &grammar{
 																															},
 																															&actionExpr{
 																																pos: position{line: 678, col: 9, offset: 21534},
-																																run: (*parser).callonNormalGroup125,
+																																run: (*parser).callonNormalGroup126,
 																																expr: &oneOrMoreExpr{
 																																	pos: position{line: 678, col: 9, offset: 21534},
 																																	expr: &charClassMatcher{
@@ -46270,20 +46286,20 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 2480, col: 5, offset: 79775},
-															run: (*parser).callonNormalGroup132,
+															run: (*parser).callonNormalGroup133,
 															expr: &seqExpr{
 																pos: position{line: 2480, col: 5, offset: 79775},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 2480, col: 5, offset: 79775},
-																		run: (*parser).callonNormalGroup134,
+																		run: (*parser).callonNormalGroup135,
 																	},
 																	&labeledExpr{
 																		pos:   position{line: 2483, col: 5, offset: 79851},
 																		label: "element",
 																		expr: &actionExpr{
 																			pos: position{line: 2484, col: 9, offset: 79869},
-																			run: (*parser).callonNormalGroup136,
+																			run: (*parser).callonNormalGroup137,
 																			expr: &charClassMatcher{
 																				pos:        position{line: 2484, col: 10, offset: 79870},
 																				val:        "[<>&]",
@@ -46298,13 +46314,13 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 1228, col: 5, offset: 38166},
-															run: (*parser).callonNormalGroup138,
+															run: (*parser).callonNormalGroup139,
 															expr: &seqExpr{
 																pos: position{line: 1228, col: 5, offset: 38166},
 																exprs: []interface{}{
 																	&andCodeExpr{
 																		pos: position{line: 1228, col: 5, offset: 38166},
-																		run: (*parser).callonNormalGroup140,
+																		run: (*parser).callonNormalGroup141,
 																	},
 																	&litMatcher{
 																		pos:        position{line: 1231, col: 5, offset: 38242},
@@ -46314,15 +46330,15 @@ var g = &grammar{
 																	},
 																	&andCodeExpr{
 																		pos: position{line: 1232, col: 5, offset: 38250},
-																		run: (*parser).callonNormalGroup142,
+																		run: (*parser).callonNormalGroup143,
 																	},
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1236, col: 5, offset: 38337},
 																		expr: &actionExpr{
-																			pos: position{line: 2889, col: 10, offset: 91398},
-																			run: (*parser).callonNormalGroup144,
+																			pos: position{line: 2892, col: 10, offset: 91469},
+																			run: (*parser).callonNormalGroup145,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2889, col: 10, offset: 91398},
+																				pos:        position{line: 2892, col: 10, offset: 91469},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46333,28 +46349,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1236, col: 12, offset: 38344},
 																		expr: &choiceExpr{
-																			pos: position{line: 2911, col: 8, offset: 91796},
+																			pos: position{line: 2914, col: 8, offset: 91867},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2898, col: 12, offset: 91569},
-																					run: (*parser).callonNormalGroup148,
+																					pos: position{line: 2901, col: 12, offset: 91640},
+																					run: (*parser).callonNormalGroup149,
 																					expr: &choiceExpr{
-																						pos: position{line: 2898, col: 13, offset: 91570},
+																						pos: position{line: 2901, col: 13, offset: 91641},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 13, offset: 91570},
+																								pos:        position{line: 2901, col: 13, offset: 91641},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 20, offset: 91577},
+																								pos:        position{line: 2901, col: 20, offset: 91648},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 29, offset: 91586},
+																								pos:        position{line: 2901, col: 29, offset: 91657},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46363,9 +46379,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2908, col: 8, offset: 91746},
+																					pos: position{line: 2911, col: 8, offset: 91817},
 																					expr: &anyMatcher{
-																						line: 2908, col: 9, offset: 91747,
+																						line: 2911, col: 9, offset: 91818,
 																					},
 																				},
 																			},
@@ -46380,7 +46396,7 @@ var g = &grammar{
 														},
 														&actionExpr{
 															pos: position{line: 1220, col: 23, offset: 37720},
-															run: (*parser).callonNormalGroup156,
+															run: (*parser).callonNormalGroup157,
 															expr: &seqExpr{
 																pos: position{line: 1220, col: 23, offset: 37720},
 																exprs: []interface{}{
@@ -46395,7 +46411,7 @@ var g = &grammar{
 																		label: "ref",
 																		expr: &actionExpr{
 																			pos: position{line: 1220, col: 56, offset: 37753},
-																			run: (*parser).callonNormalGroup160,
+																			run: (*parser).callonNormalGroup161,
 																			expr: &oneOrMoreExpr{
 																				pos: position{line: 1220, col: 56, offset: 37753},
 																				expr: &charClassMatcher{
@@ -46418,10 +46434,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2828, col: 12, offset: 89706},
-															run: (*parser).callonNormalGroup164,
+															pos: position{line: 2831, col: 12, offset: 89777},
+															run: (*parser).callonNormalGroup165,
 															expr: &charClassMatcher{
-																pos:        position{line: 2828, col: 12, offset: 89706},
+																pos:        position{line: 2831, col: 12, offset: 89777},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -46437,9 +46453,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2908, col: 8, offset: 91746},
+							pos: position{line: 2911, col: 8, offset: 91817},
 							expr: &anyMatcher{
-								line: 2908, col: 9, offset: 91747,
+								line: 2911, col: 9, offset: 91818,
 							},
 						},
 					},
@@ -46467,9 +46483,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2908, col: 8, offset: 91746},
+							pos: position{line: 2911, col: 8, offset: 91817},
 							expr: &anyMatcher{
-								line: 2908, col: 9, offset: 91747,
+								line: 2911, col: 9, offset: 91818,
 							},
 						},
 					},
@@ -46486,9 +46502,9 @@ var g = &grammar{
 					pos: position{line: 2410, col: 5, offset: 78111},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2906, col: 11, offset: 91732},
+							pos: position{line: 2909, col: 11, offset: 91803},
 							expr: &anyMatcher{
-								line: 2906, col: 13, offset: 91734,
+								line: 2909, col: 13, offset: 91805,
 							},
 						},
 						&labeledExpr{
@@ -46498,21 +46514,21 @@ var g = &grammar{
 								pos: position{line: 2412, col: 9, offset: 78140},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2788, col: 5, offset: 88640},
+										pos: position{line: 2791, col: 5, offset: 88711},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2788, col: 5, offset: 88640},
+											pos: position{line: 2791, col: 5, offset: 88711},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2788, col: 5, offset: 88640},
+													pos:   position{line: 2791, col: 5, offset: 88711},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2788, col: 11, offset: 88646},
+														pos: position{line: 2791, col: 11, offset: 88717},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2788, col: 11, offset: 88646},
+															pos: position{line: 2791, col: 11, offset: 88717},
 															expr: &charClassMatcher{
-																pos:        position{line: 2788, col: 11, offset: 88646},
+																pos:        position{line: 2791, col: 11, offset: 88717},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46522,36 +46538,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2791, col: 5, offset: 88704},
+													pos: position{line: 2794, col: 5, offset: 88775},
 													expr: &seqExpr{
-														pos: position{line: 2792, col: 9, offset: 88715},
+														pos: position{line: 2795, col: 9, offset: 88786},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2792, col: 9, offset: 88715},
+																pos:        position{line: 2795, col: 9, offset: 88786},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2793, col: 9, offset: 88764},
+																pos: position{line: 2796, col: 9, offset: 88835},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2797, col: 5, offset: 88844},
+													pos: position{line: 2800, col: 5, offset: 88915},
 													expr: &seqExpr{
-														pos: position{line: 2798, col: 9, offset: 88855},
+														pos: position{line: 2801, col: 9, offset: 88926},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2798, col: 9, offset: 88855},
+																pos:        position{line: 2801, col: 9, offset: 88926},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2798, col: 13, offset: 88859},
+																pos:        position{line: 2801, col: 13, offset: 88930},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46564,10 +46580,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2889, col: 10, offset: 91398},
+										pos: position{line: 2892, col: 10, offset: 91469},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2889, col: 10, offset: 91398},
+											pos:        position{line: 2892, col: 10, offset: 91469},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -46579,27 +46595,27 @@ var g = &grammar{
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2806, col: 5, offset: 89052},
+										pos: position{line: 2809, col: 5, offset: 89123},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2807, col: 9, offset: 89062},
+											pos: position{line: 2810, col: 9, offset: 89133},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2807, col: 10, offset: 89063},
+													pos:        position{line: 2810, col: 10, offset: 89134},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2809, col: 13, offset: 89160},
+													pos: position{line: 2812, col: 13, offset: 89231},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2809, col: 13, offset: 89160},
+															pos: position{line: 2812, col: 13, offset: 89231},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2812, col: 13, offset: 89260},
+															pos:        position{line: 2815, col: 13, offset: 89331},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46607,20 +46623,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2812, col: 19, offset: 89266},
+													pos:        position{line: 2815, col: 19, offset: 89337},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2815, col: 13, offset: 89304},
+													pos: position{line: 2818, col: 13, offset: 89375},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2815, col: 13, offset: 89304},
+															pos: position{line: 2818, col: 13, offset: 89375},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2818, col: 14, offset: 89397},
+															pos:        position{line: 2821, col: 14, offset: 89468},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46629,18 +46645,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2820, col: 12, offset: 89441},
+													pos: position{line: 2823, col: 12, offset: 89512},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2820, col: 12, offset: 89441},
+															pos:        position{line: 2823, col: 12, offset: 89512},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2820, col: 16, offset: 89445},
+															pos: position{line: 2823, col: 16, offset: 89516},
 															expr: &litMatcher{
-																pos:        position{line: 2820, col: 17, offset: 89446},
+																pos:        position{line: 2823, col: 17, offset: 89517},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46727,25 +46743,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2898, col: 12, offset: 91569},
+										pos: position{line: 2901, col: 12, offset: 91640},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2898, col: 13, offset: 91570},
+											pos: position{line: 2901, col: 13, offset: 91641},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2898, col: 13, offset: 91570},
+													pos:        position{line: 2901, col: 13, offset: 91641},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2898, col: 20, offset: 91577},
+													pos:        position{line: 2901, col: 20, offset: 91648},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2898, col: 29, offset: 91586},
+													pos:        position{line: 2901, col: 29, offset: 91657},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46754,10 +46770,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2828, col: 12, offset: 89706},
+										pos: position{line: 2831, col: 12, offset: 89777},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2828, col: 12, offset: 89706},
+											pos:        position{line: 2831, col: 12, offset: 89777},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46834,12 +46850,12 @@ var g = &grammar{
 													pos:   position{line: 1275, col: 14, offset: 39489},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 7, offset: 91050},
+														pos: position{line: 2877, col: 7, offset: 91121},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2874, col: 7, offset: 91050},
+															pos: position{line: 2877, col: 7, offset: 91121},
 															expr: &charClassMatcher{
-																pos:        position{line: 2874, col: 7, offset: 91050},
+																pos:        position{line: 2877, col: 7, offset: 91121},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46873,12 +46889,12 @@ var g = &grammar{
 													pos:   position{line: 1280, col: 10, offset: 39621},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2874, col: 7, offset: 91050},
+														pos: position{line: 2877, col: 7, offset: 91121},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2874, col: 7, offset: 91050},
+															pos: position{line: 2877, col: 7, offset: 91121},
 															expr: &charClassMatcher{
-																pos:        position{line: 2874, col: 7, offset: 91050},
+																pos:        position{line: 2877, col: 7, offset: 91121},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46920,17 +46936,17 @@ var g = &grammar{
 																pos: position{line: 1326, col: 31, offset: 41443},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2779, col: 13, offset: 88493},
+																		pos:        position{line: 2782, col: 13, offset: 88564},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2889, col: 10, offset: 91398},
+																		pos: position{line: 2892, col: 10, offset: 91469},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2889, col: 10, offset: 91398},
+																			pos:        position{line: 2892, col: 10, offset: 91469},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46956,10 +46972,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1320, col: 12, offset: 41157},
 																		expr: &actionExpr{
-																			pos: position{line: 2889, col: 10, offset: 91398},
+																			pos: position{line: 2892, col: 10, offset: 91469},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2889, col: 10, offset: 91398},
+																				pos:        position{line: 2892, col: 10, offset: 91469},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46976,10 +46992,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1320, col: 23, offset: 41168},
 																		expr: &actionExpr{
-																			pos: position{line: 2889, col: 10, offset: 91398},
+																			pos: position{line: 2892, col: 10, offset: 91469},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2889, col: 10, offset: 91398},
+																				pos:        position{line: 2892, col: 10, offset: 91469},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46999,17 +47015,17 @@ var g = &grammar{
 																					pos: position{line: 1326, col: 31, offset: 41443},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2779, col: 13, offset: 88493},
+																							pos:        position{line: 2782, col: 13, offset: 88564},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2889, col: 10, offset: 91398},
+																							pos: position{line: 2892, col: 10, offset: 91469},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2889, col: 10, offset: 91398},
+																								pos:        position{line: 2892, col: 10, offset: 91469},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47040,10 +47056,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1321, col: 12, offset: 41249},
 																		expr: &actionExpr{
-																			pos: position{line: 2889, col: 10, offset: 91398},
+																			pos: position{line: 2892, col: 10, offset: 91469},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2889, col: 10, offset: 91398},
+																				pos:        position{line: 2892, col: 10, offset: 91469},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47060,10 +47076,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1321, col: 23, offset: 41260},
 																		expr: &actionExpr{
-																			pos: position{line: 2889, col: 10, offset: 91398},
+																			pos: position{line: 2892, col: 10, offset: 91469},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2889, col: 10, offset: 91398},
+																				pos:        position{line: 2892, col: 10, offset: 91469},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47083,17 +47099,17 @@ var g = &grammar{
 																					pos: position{line: 1326, col: 31, offset: 41443},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2779, col: 13, offset: 88493},
+																							pos:        position{line: 2782, col: 13, offset: 88564},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2889, col: 10, offset: 91398},
+																							pos: position{line: 2892, col: 10, offset: 91469},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2889, col: 10, offset: 91398},
+																								pos:        position{line: 2892, col: 10, offset: 91469},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47210,10 +47226,10 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1407, col: 12, offset: 45158},
 																				expr: &actionExpr{
-																					pos: position{line: 2889, col: 10, offset: 91398},
+																					pos: position{line: 2892, col: 10, offset: 91469},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2889, col: 10, offset: 91398},
+																						pos:        position{line: 2892, col: 10, offset: 91469},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -47224,25 +47240,25 @@ var g = &grammar{
 																			&notExpr{
 																				pos: position{line: 1407, col: 19, offset: 45165},
 																				expr: &actionExpr{
-																					pos: position{line: 2898, col: 12, offset: 91569},
+																					pos: position{line: 2901, col: 12, offset: 91640},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2898, col: 13, offset: 91570},
+																						pos: position{line: 2901, col: 13, offset: 91641},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 13, offset: 91570},
+																								pos:        position{line: 2901, col: 13, offset: 91641},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 20, offset: 91577},
+																								pos:        position{line: 2901, col: 20, offset: 91648},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2898, col: 29, offset: 91586},
+																								pos:        position{line: 2901, col: 29, offset: 91657},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -47279,7 +47295,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1401, col: 121, offset: 44807},
 													expr: &charClassMatcher{
-														pos:        position{line: 2779, col: 13, offset: 88493},
+														pos:        position{line: 2782, col: 13, offset: 88564},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47325,10 +47341,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1393, col: 64, offset: 44267},
 																			expr: &actionExpr{
-																				pos: position{line: 2889, col: 10, offset: 91398},
+																				pos: position{line: 2892, col: 10, offset: 91469},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2889, col: 10, offset: 91398},
+																					pos:        position{line: 2892, col: 10, offset: 91469},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47339,25 +47355,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1393, col: 71, offset: 44274},
 																			expr: &actionExpr{
-																				pos: position{line: 2898, col: 12, offset: 91569},
+																				pos: position{line: 2901, col: 12, offset: 91640},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 13, offset: 91570},
+																					pos: position{line: 2901, col: 13, offset: 91641},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 13, offset: 91570},
+																							pos:        position{line: 2901, col: 13, offset: 91641},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 20, offset: 91577},
+																							pos:        position{line: 2901, col: 20, offset: 91648},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 29, offset: 91586},
+																							pos:        position{line: 2901, col: 29, offset: 91657},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47380,12 +47396,12 @@ var g = &grammar{
 																							pos: position{line: 1393, col: 86, offset: 44289},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2893, col: 11, offset: 91459},
+																									pos: position{line: 2896, col: 11, offset: 91530},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2893, col: 11, offset: 91459},
+																										pos: position{line: 2896, col: 11, offset: 91530},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2893, col: 11, offset: 91459},
+																											pos:        position{line: 2896, col: 11, offset: 91530},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -47414,25 +47430,25 @@ var g = &grammar{
 																					&notExpr{
 																						pos: position{line: 1393, col: 151, offset: 44354},
 																						expr: &actionExpr{
-																							pos: position{line: 2898, col: 12, offset: 91569},
+																							pos: position{line: 2901, col: 12, offset: 91640},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2898, col: 13, offset: 91570},
+																								pos: position{line: 2901, col: 13, offset: 91641},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 13, offset: 91570},
+																										pos:        position{line: 2901, col: 13, offset: 91641},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 20, offset: 91577},
+																										pos:        position{line: 2901, col: 20, offset: 91648},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2898, col: 29, offset: 91586},
+																										pos:        position{line: 2901, col: 29, offset: 91657},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -47459,10 +47475,10 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1395, col: 12, offset: 44514},
 																			expr: &actionExpr{
-																				pos: position{line: 2889, col: 10, offset: 91398},
+																				pos: position{line: 2892, col: 10, offset: 91469},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2889, col: 10, offset: 91398},
+																					pos:        position{line: 2892, col: 10, offset: 91469},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47473,25 +47489,25 @@ var g = &grammar{
 																		&notExpr{
 																			pos: position{line: 1395, col: 19, offset: 44521},
 																			expr: &actionExpr{
-																				pos: position{line: 2898, col: 12, offset: 91569},
+																				pos: position{line: 2901, col: 12, offset: 91640},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2898, col: 13, offset: 91570},
+																					pos: position{line: 2901, col: 13, offset: 91641},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 13, offset: 91570},
+																							pos:        position{line: 2901, col: 13, offset: 91641},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 20, offset: 91577},
+																							pos:        position{line: 2901, col: 20, offset: 91648},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2898, col: 29, offset: 91586},
+																							pos:        position{line: 2901, col: 29, offset: 91657},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47527,7 +47543,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 1389, col: 121, offset: 44090},
 													expr: &charClassMatcher{
-														pos:        position{line: 2779, col: 13, offset: 88493},
+														pos:        position{line: 2782, col: 13, offset: 88564},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47592,103 +47608,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2528, col: 1, offset: 81397},
+			pos:  position{line: 2531, col: 1, offset: 81468},
 			expr: &choiceExpr{
-				pos: position{line: 2530, col: 5, offset: 81427},
+				pos: position{line: 2533, col: 5, offset: 81498},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2530, col: 5, offset: 81427},
+						pos: position{line: 2533, col: 5, offset: 81498},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2530, col: 5, offset: 81427},
+							pos: position{line: 2533, col: 5, offset: 81498},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2530, col: 5, offset: 81427},
+									pos:        position{line: 2533, col: 5, offset: 81498},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2530, col: 10, offset: 81432},
+									pos: position{line: 2533, col: 10, offset: 81503},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2530, col: 10, offset: 81432},
+											pos:  position{line: 2533, col: 10, offset: 81503},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2559, col: 14, offset: 82536},
+											pos: position{line: 2562, col: 14, offset: 82607},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2559, col: 14, offset: 82536},
+												pos:        position{line: 2562, col: 14, offset: 82607},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2563, col: 14, offset: 82602},
+											pos: position{line: 2566, col: 14, offset: 82673},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2563, col: 14, offset: 82602},
+												pos:        position{line: 2566, col: 14, offset: 82673},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2567, col: 15, offset: 82671},
+											pos: position{line: 2570, col: 15, offset: 82742},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2567, col: 15, offset: 82671},
+												pos:        position{line: 2570, col: 15, offset: 82742},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2571, col: 13, offset: 82736},
+											pos: position{line: 2574, col: 13, offset: 82807},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2571, col: 13, offset: 82736},
+												pos:        position{line: 2574, col: 13, offset: 82807},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2599, col: 21, offset: 83306},
+											pos: position{line: 2602, col: 21, offset: 83377},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2599, col: 21, offset: 83306},
+												pos:        position{line: 2602, col: 21, offset: 83377},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2578, col: 5, offset: 82892},
+											pos: position{line: 2581, col: 5, offset: 82963},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2578, col: 5, offset: 82892},
+												pos: position{line: 2581, col: 5, offset: 82963},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2578, col: 5, offset: 82892},
+														pos:        position{line: 2581, col: 5, offset: 82963},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2579, col: 5, offset: 82902},
+														pos: position{line: 2582, col: 5, offset: 82973},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2583, col: 6, offset: 82989},
+														pos: position{line: 2586, col: 6, offset: 83060},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2889, col: 10, offset: 91398},
+																pos: position{line: 2892, col: 10, offset: 91469},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2889, col: 10, offset: 91398},
+																	pos:        position{line: 2892, col: 10, offset: 91469},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47696,30 +47712,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2583, col: 14, offset: 82997},
+																pos: position{line: 2586, col: 14, offset: 83068},
 																expr: &choiceExpr{
-																	pos: position{line: 2911, col: 8, offset: 91796},
+																	pos: position{line: 2914, col: 8, offset: 91867},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2898, col: 12, offset: 91569},
+																			pos: position{line: 2901, col: 12, offset: 91640},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2898, col: 13, offset: 91570},
+																				pos: position{line: 2901, col: 13, offset: 91641},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 13, offset: 91570},
+																						pos:        position{line: 2901, col: 13, offset: 91641},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 20, offset: 91577},
+																						pos:        position{line: 2901, col: 20, offset: 91648},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2898, col: 29, offset: 91586},
+																						pos:        position{line: 2901, col: 29, offset: 91657},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47728,9 +47744,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2908, col: 8, offset: 91746},
+																			pos: position{line: 2911, col: 8, offset: 91817},
 																			expr: &anyMatcher{
-																				line: 2908, col: 9, offset: 91747,
+																				line: 2911, col: 9, offset: 91818,
 																			},
 																		},
 																	},
@@ -47742,53 +47758,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2588, col: 5, offset: 83117},
+											pos: position{line: 2591, col: 5, offset: 83188},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2588, col: 5, offset: 83117},
+												pos: position{line: 2591, col: 5, offset: 83188},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2588, col: 5, offset: 83117},
+														pos:        position{line: 2591, col: 5, offset: 83188},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2589, col: 5, offset: 83127},
+														pos: position{line: 2592, col: 5, offset: 83198},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2593, col: 5, offset: 83216},
+														pos: position{line: 2596, col: 5, offset: 83287},
 														expr: &choiceExpr{
-															pos: position{line: 2593, col: 7, offset: 83218},
+															pos: position{line: 2596, col: 7, offset: 83289},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2779, col: 13, offset: 88493},
+																	pos:        position{line: 2782, col: 13, offset: 88564},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2898, col: 12, offset: 91569},
+																	pos: position{line: 2901, col: 12, offset: 91640},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2898, col: 13, offset: 91570},
+																		pos: position{line: 2901, col: 13, offset: 91641},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2898, col: 13, offset: 91570},
+																				pos:        position{line: 2901, col: 13, offset: 91641},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2898, col: 20, offset: 91577},
+																				pos:        position{line: 2901, col: 20, offset: 91648},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2898, col: 29, offset: 91586},
+																				pos:        position{line: 2901, col: 29, offset: 91657},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47797,9 +47813,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2908, col: 8, offset: 91746},
+																	pos: position{line: 2911, col: 8, offset: 91817},
 																	expr: &anyMatcher{
-																		line: 2908, col: 9, offset: 91747,
+																		line: 2911, col: 9, offset: 91818,
 																	},
 																},
 															},
@@ -47809,30 +47825,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2603, col: 20, offset: 83376},
+											pos: position{line: 2606, col: 20, offset: 83447},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2603, col: 20, offset: 83376},
+												pos:        position{line: 2606, col: 20, offset: 83447},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2607, col: 21, offset: 83447},
+											pos: position{line: 2610, col: 21, offset: 83518},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2607, col: 21, offset: 83447},
+												pos:        position{line: 2610, col: 21, offset: 83518},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2611, col: 20, offset: 83517},
+											pos: position{line: 2614, col: 20, offset: 83588},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2611, col: 20, offset: 83517},
+												pos:        position{line: 2614, col: 20, offset: 83588},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -47844,73 +47860,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2534, col: 7, offset: 81687},
+						pos:  position{line: 2537, col: 7, offset: 81758},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2559, col: 14, offset: 82536},
+						pos: position{line: 2562, col: 14, offset: 82607},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2559, col: 14, offset: 82536},
+							pos:        position{line: 2562, col: 14, offset: 82607},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2563, col: 14, offset: 82602},
+						pos: position{line: 2566, col: 14, offset: 82673},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2563, col: 14, offset: 82602},
+							pos:        position{line: 2566, col: 14, offset: 82673},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2567, col: 15, offset: 82671},
+						pos: position{line: 2570, col: 15, offset: 82742},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2567, col: 15, offset: 82671},
+							pos:        position{line: 2570, col: 15, offset: 82742},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2571, col: 13, offset: 82736},
+						pos: position{line: 2574, col: 13, offset: 82807},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2571, col: 13, offset: 82736},
+							pos:        position{line: 2574, col: 13, offset: 82807},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2578, col: 5, offset: 82892},
+						pos: position{line: 2581, col: 5, offset: 82963},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2578, col: 5, offset: 82892},
+							pos: position{line: 2581, col: 5, offset: 82963},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2578, col: 5, offset: 82892},
+									pos:        position{line: 2581, col: 5, offset: 82963},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2579, col: 5, offset: 82902},
+									pos: position{line: 2582, col: 5, offset: 82973},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2583, col: 6, offset: 82989},
+									pos: position{line: 2586, col: 6, offset: 83060},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2889, col: 10, offset: 91398},
+											pos: position{line: 2892, col: 10, offset: 91469},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2889, col: 10, offset: 91398},
+												pos:        position{line: 2892, col: 10, offset: 91469},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47918,30 +47934,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2583, col: 14, offset: 82997},
+											pos: position{line: 2586, col: 14, offset: 83068},
 											expr: &choiceExpr{
-												pos: position{line: 2911, col: 8, offset: 91796},
+												pos: position{line: 2914, col: 8, offset: 91867},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2898, col: 12, offset: 91569},
+														pos: position{line: 2901, col: 12, offset: 91640},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2898, col: 13, offset: 91570},
+															pos: position{line: 2901, col: 13, offset: 91641},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2898, col: 13, offset: 91570},
+																	pos:        position{line: 2901, col: 13, offset: 91641},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 20, offset: 91577},
+																	pos:        position{line: 2901, col: 20, offset: 91648},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2898, col: 29, offset: 91586},
+																	pos:        position{line: 2901, col: 29, offset: 91657},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47950,9 +47966,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2908, col: 8, offset: 91746},
+														pos: position{line: 2911, col: 8, offset: 91817},
 														expr: &anyMatcher{
-															line: 2908, col: 9, offset: 91747,
+															line: 2911, col: 9, offset: 91818,
 														},
 													},
 												},
@@ -47964,53 +47980,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2588, col: 5, offset: 83117},
+						pos: position{line: 2591, col: 5, offset: 83188},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2588, col: 5, offset: 83117},
+							pos: position{line: 2591, col: 5, offset: 83188},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2588, col: 5, offset: 83117},
+									pos:        position{line: 2591, col: 5, offset: 83188},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2589, col: 5, offset: 83127},
+									pos: position{line: 2592, col: 5, offset: 83198},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2593, col: 5, offset: 83216},
+									pos: position{line: 2596, col: 5, offset: 83287},
 									expr: &choiceExpr{
-										pos: position{line: 2593, col: 7, offset: 83218},
+										pos: position{line: 2596, col: 7, offset: 83289},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2779, col: 13, offset: 88493},
+												pos:        position{line: 2782, col: 13, offset: 88564},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2898, col: 12, offset: 91569},
+												pos: position{line: 2901, col: 12, offset: 91640},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2898, col: 13, offset: 91570},
+													pos: position{line: 2901, col: 13, offset: 91641},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2898, col: 13, offset: 91570},
+															pos:        position{line: 2901, col: 13, offset: 91641},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2898, col: 20, offset: 91577},
+															pos:        position{line: 2901, col: 20, offset: 91648},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2898, col: 29, offset: 91586},
+															pos:        position{line: 2901, col: 29, offset: 91657},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -48019,9 +48035,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2908, col: 8, offset: 91746},
+												pos: position{line: 2911, col: 8, offset: 91817},
 												expr: &anyMatcher{
-													line: 2908, col: 9, offset: 91747,
+													line: 2911, col: 9, offset: 91818,
 												},
 											},
 										},
@@ -48031,40 +48047,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2599, col: 21, offset: 83306},
+						pos: position{line: 2602, col: 21, offset: 83377},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2599, col: 21, offset: 83306},
+							pos:        position{line: 2602, col: 21, offset: 83377},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2603, col: 20, offset: 83376},
+						pos: position{line: 2606, col: 20, offset: 83447},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2603, col: 20, offset: 83376},
+							pos:        position{line: 2606, col: 20, offset: 83447},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2607, col: 21, offset: 83447},
+						pos: position{line: 2610, col: 21, offset: 83518},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2607, col: 21, offset: 83447},
+							pos:        position{line: 2610, col: 21, offset: 83518},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2611, col: 20, offset: 83517},
+						pos: position{line: 2614, col: 20, offset: 83588},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2611, col: 20, offset: 83517},
+							pos:        position{line: 2614, col: 20, offset: 83588},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -48075,24 +48091,24 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2545, col: 1, offset: 81877},
+			pos:  position{line: 2548, col: 1, offset: 81948},
 			expr: &choiceExpr{
-				pos: position{line: 2546, col: 5, offset: 81899},
+				pos: position{line: 2549, col: 5, offset: 81970},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2546, col: 5, offset: 81899},
+						pos: position{line: 2549, col: 5, offset: 81970},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2546, col: 5, offset: 81899},
+							pos: position{line: 2549, col: 5, offset: 81970},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2546, col: 5, offset: 81899},
+									pos:        position{line: 2549, col: 5, offset: 81970},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2546, col: 11, offset: 81905},
+									pos: position{line: 2549, col: 11, offset: 81976},
 									expr: &seqExpr{
 										pos: position{line: 2101, col: 5, offset: 67884},
 										exprs: []interface{}{
@@ -48125,21 +48141,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2549, col: 7, offset: 82058},
+						pos: position{line: 2552, col: 7, offset: 82129},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2549, col: 7, offset: 82058},
+							pos: position{line: 2552, col: 7, offset: 82129},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2549, col: 7, offset: 82058},
+									pos:        position{line: 2552, col: 7, offset: 82129},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2549, col: 13, offset: 82064},
+									pos: position{line: 2552, col: 13, offset: 82135},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2549, col: 14, offset: 82065},
+										pos:  position{line: 2552, col: 14, offset: 82136},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48147,19 +48163,19 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2552, col: 7, offset: 82215},
+						pos: position{line: 2555, col: 7, offset: 82286},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2552, col: 7, offset: 82215},
+							pos: position{line: 2555, col: 7, offset: 82286},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2552, col: 7, offset: 82215},
+									pos:        position{line: 2555, col: 7, offset: 82286},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2552, col: 12, offset: 82220},
+									pos: position{line: 2555, col: 12, offset: 82291},
 									expr: &seqExpr{
 										pos: position{line: 2101, col: 5, offset: 67884},
 										exprs: []interface{}{
@@ -48192,21 +48208,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2555, col: 7, offset: 82373},
+						pos: position{line: 2558, col: 7, offset: 82444},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2555, col: 7, offset: 82373},
+							pos: position{line: 2558, col: 7, offset: 82444},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2555, col: 7, offset: 82373},
+									pos:        position{line: 2558, col: 7, offset: 82444},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2555, col: 12, offset: 82378},
+									pos: position{line: 2558, col: 12, offset: 82449},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2555, col: 13, offset: 82379},
+										pos:  position{line: 2558, col: 13, offset: 82450},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48218,63 +48234,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2694, col: 1, offset: 85573},
+			pos:  position{line: 2697, col: 1, offset: 85644},
 			expr: &actionExpr{
-				pos: position{line: 2694, col: 26, offset: 85598},
+				pos: position{line: 2697, col: 26, offset: 85669},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2694, col: 26, offset: 85598},
+					pos: position{line: 2697, col: 26, offset: 85669},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2694, col: 26, offset: 85598},
+							pos:   position{line: 2697, col: 26, offset: 85669},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2694, col: 31, offset: 85603},
+								pos: position{line: 2697, col: 31, offset: 85674},
 								expr: &actionExpr{
-									pos: position{line: 2699, col: 5, offset: 85666},
+									pos: position{line: 2702, col: 5, offset: 85737},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2699, col: 5, offset: 85666},
+										pos: position{line: 2702, col: 5, offset: 85737},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2906, col: 11, offset: 91732},
+												pos: position{line: 2909, col: 11, offset: 91803},
 												expr: &anyMatcher{
-													line: 2906, col: 13, offset: 91734,
+													line: 2909, col: 13, offset: 91805,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2702, col: 5, offset: 85792},
+												pos:   position{line: 2705, col: 5, offset: 85863},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2702, col: 16, offset: 85803},
+													pos: position{line: 2705, col: 16, offset: 85874},
 													expr: &actionExpr{
-														pos: position{line: 2702, col: 17, offset: 85804},
+														pos: position{line: 2705, col: 17, offset: 85875},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2702, col: 17, offset: 85804},
+															pos: position{line: 2705, col: 17, offset: 85875},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2702, col: 17, offset: 85804},
+																	pos:   position{line: 2705, col: 17, offset: 85875},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2881, col: 12, offset: 91225},
+																		pos: position{line: 2884, col: 12, offset: 91296},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2881, col: 13, offset: 91226},
+																			pos: position{line: 2884, col: 13, offset: 91297},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2881, col: 13, offset: 91226},
+																					pos: position{line: 2884, col: 13, offset: 91297},
 																					expr: &litMatcher{
-																						pos:        position{line: 2881, col: 13, offset: 91226},
+																						pos:        position{line: 2884, col: 13, offset: 91297},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2881, col: 18, offset: 91231},
+																					pos: position{line: 2884, col: 18, offset: 91302},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2881, col: 18, offset: 91231},
+																						pos:        position{line: 2884, col: 18, offset: 91302},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -48286,7 +48302,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2702, col: 27, offset: 85814},
+																	pos:        position{line: 2705, col: 27, offset: 85885},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -48297,38 +48313,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2703, col: 5, offset: 85842},
+												pos:   position{line: 2706, col: 5, offset: 85913},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2703, col: 12, offset: 85849},
+													pos: position{line: 2706, col: 12, offset: 85920},
 													expr: &choiceExpr{
-														pos: position{line: 2704, col: 9, offset: 85859},
+														pos: position{line: 2707, col: 9, offset: 85930},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2704, col: 9, offset: 85859},
+																pos: position{line: 2707, col: 9, offset: 85930},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2704, col: 9, offset: 85859},
+																	pos:        position{line: 2707, col: 9, offset: 85930},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2705, col: 11, offset: 85906},
+																pos: position{line: 2708, col: 11, offset: 85977},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2705, col: 11, offset: 85906},
+																	pos:        position{line: 2708, col: 11, offset: 85977},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2706, col: 11, offset: 85954},
+																pos: position{line: 2709, col: 11, offset: 86025},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2706, col: 11, offset: 85954},
+																	pos:        position{line: 2709, col: 11, offset: 86025},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -48339,38 +48355,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2708, col: 5, offset: 86004},
+												pos:   position{line: 2711, col: 5, offset: 86075},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2708, col: 12, offset: 86011},
+													pos: position{line: 2711, col: 12, offset: 86082},
 													expr: &choiceExpr{
-														pos: position{line: 2709, col: 9, offset: 86021},
+														pos: position{line: 2712, col: 9, offset: 86092},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2709, col: 9, offset: 86021},
+																pos: position{line: 2712, col: 9, offset: 86092},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2709, col: 9, offset: 86021},
+																	pos:        position{line: 2712, col: 9, offset: 86092},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2710, col: 11, offset: 86068},
+																pos: position{line: 2713, col: 11, offset: 86139},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2710, col: 11, offset: 86068},
+																	pos:        position{line: 2713, col: 11, offset: 86139},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2711, col: 11, offset: 86118},
+																pos: position{line: 2714, col: 11, offset: 86189},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2711, col: 11, offset: 86118},
+																	pos:        position{line: 2714, col: 11, offset: 86189},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -48381,32 +48397,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2713, col: 5, offset: 86169},
+												pos:   position{line: 2716, col: 5, offset: 86240},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2713, col: 12, offset: 86176},
+													pos: position{line: 2716, col: 12, offset: 86247},
 													expr: &choiceExpr{
-														pos: position{line: 2713, col: 13, offset: 86177},
+														pos: position{line: 2716, col: 13, offset: 86248},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2881, col: 12, offset: 91225},
+																pos: position{line: 2884, col: 12, offset: 91296},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2881, col: 13, offset: 91226},
+																	pos: position{line: 2884, col: 13, offset: 91297},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2881, col: 13, offset: 91226},
+																			pos: position{line: 2884, col: 13, offset: 91297},
 																			expr: &litMatcher{
-																				pos:        position{line: 2881, col: 13, offset: 91226},
+																				pos:        position{line: 2884, col: 13, offset: 91297},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2881, col: 18, offset: 91231},
+																			pos: position{line: 2884, col: 18, offset: 91302},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2881, col: 18, offset: 91231},
+																				pos:        position{line: 2884, col: 18, offset: 91302},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -48417,10 +48433,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2713, col: 24, offset: 86188},
+																pos: position{line: 2716, col: 24, offset: 86259},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2713, col: 24, offset: 86188},
+																	pos:        position{line: 2716, col: 24, offset: 86259},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -48431,15 +48447,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2714, col: 5, offset: 86230},
+												pos:   position{line: 2717, col: 5, offset: 86301},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2714, col: 11, offset: 86236},
+													pos: position{line: 2717, col: 11, offset: 86307},
 													expr: &actionExpr{
-														pos: position{line: 2714, col: 12, offset: 86237},
+														pos: position{line: 2717, col: 12, offset: 86308},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2714, col: 12, offset: 86237},
+															pos:        position{line: 2717, col: 12, offset: 86308},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -48449,12 +48465,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2716, col: 5, offset: 86367},
+												pos:   position{line: 2719, col: 5, offset: 86438},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2716, col: 11, offset: 86373},
+													pos: position{line: 2719, col: 11, offset: 86444},
 													expr: &litMatcher{
-														pos:        position{line: 2716, col: 12, offset: 86374},
+														pos:        position{line: 2719, col: 12, offset: 86445},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -48462,7 +48478,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2717, col: 5, offset: 86384},
+												pos: position{line: 2720, col: 5, offset: 86455},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -48471,9 +48487,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2908, col: 8, offset: 91746},
+							pos: position{line: 2911, col: 8, offset: 91817},
 							expr: &anyMatcher{
-								line: 2908, col: 9, offset: 91747,
+								line: 2911, col: 9, offset: 91818,
 							},
 						},
 					},
@@ -48482,23 +48498,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2744, col: 1, offset: 87393},
+			pos:  position{line: 2747, col: 1, offset: 87464},
 			expr: &actionExpr{
-				pos: position{line: 2745, col: 5, offset: 87416},
+				pos: position{line: 2748, col: 5, offset: 87487},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2745, col: 5, offset: 87416},
+					pos: position{line: 2748, col: 5, offset: 87487},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2745, col: 5, offset: 87416},
+							pos:   position{line: 2748, col: 5, offset: 87487},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2768, col: 18, offset: 88157},
+								pos: position{line: 2771, col: 18, offset: 88228},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2768, col: 19, offset: 88158},
+									pos: position{line: 2771, col: 19, offset: 88229},
 									expr: &charClassMatcher{
-										pos:        position{line: 2768, col: 19, offset: 88158},
+										pos:        position{line: 2771, col: 19, offset: 88229},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48509,25 +48525,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2746, col: 5, offset: 87442},
+							pos: position{line: 2749, col: 5, offset: 87513},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2750, col: 5, offset: 87570},
+							pos:        position{line: 2753, col: 5, offset: 87641},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2751, col: 5, offset: 87580},
+							pos:   position{line: 2754, col: 5, offset: 87651},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2772, col: 19, offset: 88233},
+								pos: position{line: 2775, col: 19, offset: 88304},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2772, col: 19, offset: 88233},
+									pos: position{line: 2775, col: 19, offset: 88304},
 									expr: &charClassMatcher{
-										pos:        position{line: 2772, col: 19, offset: 88233},
+										pos:        position{line: 2775, col: 19, offset: 88304},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48537,36 +48553,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2752, col: 5, offset: 87608},
+							pos:   position{line: 2755, col: 5, offset: 87679},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2752, col: 17, offset: 87620},
+								pos:  position{line: 2755, col: 17, offset: 87691},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2911, col: 8, offset: 91796},
+							pos: position{line: 2914, col: 8, offset: 91867},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2898, col: 12, offset: 91569},
+									pos: position{line: 2901, col: 12, offset: 91640},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2898, col: 13, offset: 91570},
+										pos: position{line: 2901, col: 13, offset: 91641},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2898, col: 13, offset: 91570},
+												pos:        position{line: 2901, col: 13, offset: 91641},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2898, col: 20, offset: 91577},
+												pos:        position{line: 2901, col: 20, offset: 91648},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2898, col: 29, offset: 91586},
+												pos:        position{line: 2901, col: 29, offset: 91657},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -48575,9 +48591,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2908, col: 8, offset: 91746},
+									pos: position{line: 2911, col: 8, offset: 91817},
 									expr: &anyMatcher{
-										line: 2908, col: 9, offset: 91747,
+										line: 2911, col: 9, offset: 91818,
 									},
 								},
 							},
@@ -48588,23 +48604,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2756, col: 1, offset: 87768},
+			pos:  position{line: 2759, col: 1, offset: 87839},
 			expr: &actionExpr{
-				pos: position{line: 2757, col: 5, offset: 87792},
+				pos: position{line: 2760, col: 5, offset: 87863},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2757, col: 5, offset: 87792},
+					pos: position{line: 2760, col: 5, offset: 87863},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2757, col: 5, offset: 87792},
+							pos:   position{line: 2760, col: 5, offset: 87863},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2768, col: 18, offset: 88157},
+								pos: position{line: 2771, col: 18, offset: 88228},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2768, col: 19, offset: 88158},
+									pos: position{line: 2771, col: 19, offset: 88229},
 									expr: &charClassMatcher{
-										pos:        position{line: 2768, col: 19, offset: 88158},
+										pos:        position{line: 2771, col: 19, offset: 88229},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48615,25 +48631,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2758, col: 5, offset: 87818},
+							pos: position{line: 2761, col: 5, offset: 87889},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2762, col: 5, offset: 87946},
+							pos:        position{line: 2765, col: 5, offset: 88017},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2763, col: 5, offset: 87955},
+							pos:   position{line: 2766, col: 5, offset: 88026},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2772, col: 19, offset: 88233},
+								pos: position{line: 2775, col: 19, offset: 88304},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2772, col: 19, offset: 88233},
+									pos: position{line: 2775, col: 19, offset: 88304},
 									expr: &charClassMatcher{
-										pos:        position{line: 2772, col: 19, offset: 88233},
+										pos:        position{line: 2775, col: 19, offset: 88304},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48643,10 +48659,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2764, col: 5, offset: 87983},
+							pos:   position{line: 2767, col: 5, offset: 88054},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2764, col: 17, offset: 87995},
+								pos:  position{line: 2767, col: 17, offset: 88066},
 								name: "InlineAttributes",
 							},
 						},
@@ -48656,43 +48672,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2843, col: 1, offset: 90045},
+			pos:  position{line: 2846, col: 1, offset: 90116},
 			expr: &actionExpr{
-				pos: position{line: 2843, col: 17, offset: 90061},
+				pos: position{line: 2846, col: 17, offset: 90132},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2843, col: 17, offset: 90061},
+					pos:   position{line: 2846, col: 17, offset: 90132},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2860, col: 5, offset: 90515},
+						pos: position{line: 2863, col: 5, offset: 90586},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2860, col: 5, offset: 90515},
+							pos:   position{line: 2863, col: 5, offset: 90586},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2860, col: 14, offset: 90524},
+								pos: position{line: 2863, col: 14, offset: 90595},
 								expr: &choiceExpr{
-									pos: position{line: 2861, col: 9, offset: 90534},
+									pos: position{line: 2864, col: 9, offset: 90605},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2861, col: 9, offset: 90534},
+											pos: position{line: 2864, col: 9, offset: 90605},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2861, col: 9, offset: 90534},
+												pos: position{line: 2864, col: 9, offset: 90605},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2861, col: 9, offset: 90534},
+														pos: position{line: 2864, col: 9, offset: 90605},
 														expr: &litMatcher{
-															pos:        position{line: 2861, col: 10, offset: 90535},
+															pos:        position{line: 2864, col: 10, offset: 90606},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2862, col: 9, offset: 90563},
+														pos: position{line: 2865, col: 9, offset: 90634},
 														expr: &charClassMatcher{
-															pos:        position{line: 2862, col: 10, offset: 90564},
+															pos:        position{line: 2865, col: 10, offset: 90635},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48703,27 +48719,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2865, col: 11, offset: 90776},
+											pos: position{line: 2868, col: 11, offset: 90847},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2865, col: 11, offset: 90776},
+													pos:        position{line: 2868, col: 11, offset: 90847},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2865, col: 19, offset: 90784},
+													pos: position{line: 2868, col: 19, offset: 90855},
 													expr: &seqExpr{
-														pos: position{line: 2865, col: 21, offset: 90786},
+														pos: position{line: 2868, col: 21, offset: 90857},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2865, col: 21, offset: 90786},
+																pos: position{line: 2868, col: 21, offset: 90857},
 																expr: &actionExpr{
-																	pos: position{line: 2889, col: 10, offset: 91398},
+																	pos: position{line: 2892, col: 10, offset: 91469},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2889, col: 10, offset: 91398},
+																		pos:        position{line: 2892, col: 10, offset: 91469},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48732,11 +48748,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2865, col: 28, offset: 90793},
+																pos: position{line: 2868, col: 28, offset: 90864},
 																expr: &notExpr{
-																	pos: position{line: 2908, col: 8, offset: 91746},
+																	pos: position{line: 2911, col: 8, offset: 91817},
 																	expr: &anyMatcher{
-																		line: 2908, col: 9, offset: 91747,
+																		line: 2911, col: 9, offset: 91818,
 																	},
 																},
 															},
@@ -49131,10 +49147,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2868, col: 11, offset: 90913},
+											pos: position{line: 2871, col: 11, offset: 90984},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2868, col: 11, offset: 90913},
+												pos:        position{line: 2871, col: 11, offset: 90984},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -60050,6 +60066,17 @@ func (p *parser) callonFootnoteElement21() (interface{}, error) {
 	return p.cur.onFootnoteElement21()
 }
 
+func (c *current) onFootnoteElement26() (bool, error) {
+	return c.isSubstitutionEnabled(Replacements), nil
+
+}
+
+func (p *parser) callonFootnoteElement26() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onFootnoteElement26()
+}
+
 func (c *current) onFootnoteElement24() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
@@ -60062,159 +60089,159 @@ func (p *parser) callonFootnoteElement24() (interface{}, error) {
 	return p.cur.onFootnoteElement24()
 }
 
-func (c *current) onFootnoteElement31() (bool, error) {
+func (c *current) onFootnoteElement32() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonFootnoteElement31() (bool, error) {
+func (p *parser) callonFootnoteElement32() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement31()
+	return p.cur.onFootnoteElement32()
 }
 
-func (c *current) onFootnoteElement32() (bool, error) {
+func (c *current) onFootnoteElement33() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonFootnoteElement32() (bool, error) {
+func (p *parser) callonFootnoteElement33() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement32()
+	return p.cur.onFootnoteElement33()
 }
 
-func (c *current) onFootnoteElement29() (interface{}, error) {
+func (c *current) onFootnoteElement30() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonFootnoteElement29() (interface{}, error) {
+func (p *parser) callonFootnoteElement30() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement29()
+	return p.cur.onFootnoteElement30()
 }
 
-func (c *current) onFootnoteElement42() (bool, error) {
+func (c *current) onFootnoteElement43() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonFootnoteElement42() (bool, error) {
+func (p *parser) callonFootnoteElement43() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement42()
+	return p.cur.onFootnoteElement43()
 }
 
-func (c *current) onFootnoteElement46() (bool, error) {
+func (c *current) onFootnoteElement47() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonFootnoteElement46() (bool, error) {
+func (p *parser) callonFootnoteElement47() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement46()
+	return p.cur.onFootnoteElement47()
 }
 
-func (c *current) onFootnoteElement38() (interface{}, error) {
+func (c *current) onFootnoteElement39() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement38() (interface{}, error) {
+func (p *parser) callonFootnoteElement39() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement38()
+	return p.cur.onFootnoteElement39()
 }
 
-func (c *current) onFootnoteElement55() (bool, error) {
+func (c *current) onFootnoteElement56() (bool, error) {
 
 	return c.isSubstitutionEnabled(PostReplacements), nil
 
 }
 
-func (p *parser) callonFootnoteElement55() (bool, error) {
+func (p *parser) callonFootnoteElement56() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement55()
+	return p.cur.onFootnoteElement56()
 }
 
-func (c *current) onFootnoteElement57() (bool, error) {
+func (c *current) onFootnoteElement58() (bool, error) {
 
 	log.Debug("LineBreak")
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonFootnoteElement57() (bool, error) {
+func (p *parser) callonFootnoteElement58() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement57()
+	return p.cur.onFootnoteElement58()
 }
 
-func (c *current) onFootnoteElement59() (interface{}, error) {
+func (c *current) onFootnoteElement60() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement59() (interface{}, error) {
+func (p *parser) callonFootnoteElement60() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement59()
+	return p.cur.onFootnoteElement60()
 }
 
-func (c *current) onFootnoteElement63() (interface{}, error) {
+func (c *current) onFootnoteElement64() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonFootnoteElement63() (interface{}, error) {
+func (p *parser) callonFootnoteElement64() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement63()
+	return p.cur.onFootnoteElement64()
 }
 
-func (c *current) onFootnoteElement53() (interface{}, error) {
+func (c *current) onFootnoteElement54() (interface{}, error) {
 	return types.NewLineBreak()
 
 }
 
-func (p *parser) callonFootnoteElement53() (interface{}, error) {
+func (p *parser) callonFootnoteElement54() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement53()
+	return p.cur.onFootnoteElement54()
 }
 
-func (c *current) onFootnoteElement72() (bool, error) {
+func (c *current) onFootnoteElement73() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonFootnoteElement72() (bool, error) {
+func (p *parser) callonFootnoteElement73() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement72()
+	return p.cur.onFootnoteElement73()
 }
 
-func (c *current) onFootnoteElement79() (interface{}, error) {
+func (c *current) onFootnoteElement80() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement79() (interface{}, error) {
+func (p *parser) callonFootnoteElement80() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement79()
+	return p.cur.onFootnoteElement80()
 }
 
-func (c *current) onFootnoteElement75(name interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement76(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -60222,201 +60249,201 @@ func (c *current) onFootnoteElement75(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonFootnoteElement75() (interface{}, error) {
+func (p *parser) callonFootnoteElement76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement75(stack["name"])
+	return p.cur.onFootnoteElement76(stack["name"])
 }
 
-func (c *current) onFootnoteElement89() (interface{}, error) {
+func (c *current) onFootnoteElement90() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement89() (interface{}, error) {
+func (p *parser) callonFootnoteElement90() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement89()
+	return p.cur.onFootnoteElement90()
 }
 
-func (c *current) onFootnoteElement85(name interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement86(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement85() (interface{}, error) {
+func (p *parser) callonFootnoteElement86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement85(stack["name"])
+	return p.cur.onFootnoteElement86(stack["name"])
 }
 
-func (c *current) onFootnoteElement99() (interface{}, error) {
+func (c *current) onFootnoteElement100() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement99() (interface{}, error) {
+func (p *parser) callonFootnoteElement100() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement99()
+	return p.cur.onFootnoteElement100()
 }
 
-func (c *current) onFootnoteElement111() (interface{}, error) {
+func (c *current) onFootnoteElement112() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement111() (interface{}, error) {
+func (p *parser) callonFootnoteElement112() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement111()
+	return p.cur.onFootnoteElement112()
 }
 
-func (c *current) onFootnoteElement113() (interface{}, error) {
+func (c *current) onFootnoteElement114() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement113() (interface{}, error) {
+func (p *parser) callonFootnoteElement114() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement113()
+	return p.cur.onFootnoteElement114()
 }
 
-func (c *current) onFootnoteElement106(start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement107(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonFootnoteElement106() (interface{}, error) {
+func (p *parser) callonFootnoteElement107() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement106(stack["start"])
+	return p.cur.onFootnoteElement107(stack["start"])
 }
 
-func (c *current) onFootnoteElement95(name, start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement96(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonFootnoteElement95() (interface{}, error) {
+func (p *parser) callonFootnoteElement96() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement95(stack["name"], stack["start"])
+	return p.cur.onFootnoteElement96(stack["name"], stack["start"])
 }
 
-func (c *current) onFootnoteElement121() (interface{}, error) {
+func (c *current) onFootnoteElement122() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement121() (interface{}, error) {
+func (p *parser) callonFootnoteElement122() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement121()
+	return p.cur.onFootnoteElement122()
 }
 
-func (c *current) onFootnoteElement133() (interface{}, error) {
+func (c *current) onFootnoteElement134() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonFootnoteElement133() (interface{}, error) {
+func (p *parser) callonFootnoteElement134() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement133()
+	return p.cur.onFootnoteElement134()
 }
 
-func (c *current) onFootnoteElement135() (interface{}, error) {
+func (c *current) onFootnoteElement136() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement135() (interface{}, error) {
+func (p *parser) callonFootnoteElement136() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement135()
+	return p.cur.onFootnoteElement136()
 }
 
-func (c *current) onFootnoteElement128(start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement129(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonFootnoteElement128() (interface{}, error) {
+func (p *parser) callonFootnoteElement129() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement128(stack["start"])
+	return p.cur.onFootnoteElement129(stack["start"])
 }
 
-func (c *current) onFootnoteElement117(name, start interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement118(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonFootnoteElement117() (interface{}, error) {
+func (p *parser) callonFootnoteElement118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement117(stack["name"], stack["start"])
+	return p.cur.onFootnoteElement118(stack["name"], stack["start"])
 }
 
-func (c *current) onFootnoteElement70(element interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement71(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonFootnoteElement70() (interface{}, error) {
+func (p *parser) callonFootnoteElement71() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement70(stack["element"])
+	return p.cur.onFootnoteElement71(stack["element"])
 }
 
-func (c *current) onFootnoteElement141() (bool, error) {
+func (c *current) onFootnoteElement142() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonFootnoteElement141() (bool, error) {
+func (p *parser) callonFootnoteElement142() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement141()
+	return p.cur.onFootnoteElement142()
 }
 
-func (c *current) onFootnoteElement143() (interface{}, error) {
+func (c *current) onFootnoteElement144() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonFootnoteElement143() (interface{}, error) {
+func (p *parser) callonFootnoteElement144() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement143()
+	return p.cur.onFootnoteElement144()
 }
 
-func (c *current) onFootnoteElement139(element interface{}) (interface{}, error) {
+func (c *current) onFootnoteElement140(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonFootnoteElement139() (interface{}, error) {
+func (p *parser) callonFootnoteElement140() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement139(stack["element"])
+	return p.cur.onFootnoteElement140(stack["element"])
 }
 
-func (c *current) onFootnoteElement145() (interface{}, error) {
+func (c *current) onFootnoteElement146() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonFootnoteElement145() (interface{}, error) {
+func (p *parser) callonFootnoteElement146() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement145()
+	return p.cur.onFootnoteElement146()
 }
 
-func (c *current) onFootnoteElement150() (interface{}, error) {
+func (c *current) onFootnoteElement151() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -60425,10 +60452,10 @@ func (c *current) onFootnoteElement150() (interface{}, error) {
 
 }
 
-func (p *parser) callonFootnoteElement150() (interface{}, error) {
+func (p *parser) callonFootnoteElement151() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onFootnoteElement150()
+	return p.cur.onFootnoteElement151()
 }
 
 func (c *current) onFootnoteElement1(element interface{}) (interface{}, error) {
@@ -71010,6 +71037,17 @@ func (p *parser) callonQuotedTextElement16() (interface{}, error) {
 	return p.cur.onQuotedTextElement16()
 }
 
+func (c *current) onQuotedTextElement22() (bool, error) {
+	return c.isSubstitutionEnabled(Replacements), nil
+
+}
+
+func (p *parser) callonQuotedTextElement22() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onQuotedTextElement22()
+}
+
 func (c *current) onQuotedTextElement20() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
@@ -71022,100 +71060,100 @@ func (p *parser) callonQuotedTextElement20() (interface{}, error) {
 	return p.cur.onQuotedTextElement20()
 }
 
-func (c *current) onQuotedTextElement27() (bool, error) {
+func (c *current) onQuotedTextElement28() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonQuotedTextElement27() (bool, error) {
+func (p *parser) callonQuotedTextElement28() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement27()
+	return p.cur.onQuotedTextElement28()
 }
 
-func (c *current) onQuotedTextElement28() (bool, error) {
+func (c *current) onQuotedTextElement29() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonQuotedTextElement28() (bool, error) {
+func (p *parser) callonQuotedTextElement29() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement28()
+	return p.cur.onQuotedTextElement29()
 }
 
-func (c *current) onQuotedTextElement25() (interface{}, error) {
+func (c *current) onQuotedTextElement26() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonQuotedTextElement25() (interface{}, error) {
+func (p *parser) callonQuotedTextElement26() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement25()
+	return p.cur.onQuotedTextElement26()
 }
 
-func (c *current) onQuotedTextElement36() (bool, error) {
+func (c *current) onQuotedTextElement37() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonQuotedTextElement36() (bool, error) {
+func (p *parser) callonQuotedTextElement37() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement36()
+	return p.cur.onQuotedTextElement37()
 }
 
-func (c *current) onQuotedTextElement40() (bool, error) {
+func (c *current) onQuotedTextElement41() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonQuotedTextElement40() (bool, error) {
+func (p *parser) callonQuotedTextElement41() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement40()
+	return p.cur.onQuotedTextElement41()
 }
 
-func (c *current) onQuotedTextElement32() (interface{}, error) {
+func (c *current) onQuotedTextElement33() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement32() (interface{}, error) {
+func (p *parser) callonQuotedTextElement33() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement32()
+	return p.cur.onQuotedTextElement33()
 }
 
-func (c *current) onQuotedTextElement48() (bool, error) {
+func (c *current) onQuotedTextElement49() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonQuotedTextElement48() (bool, error) {
+func (p *parser) callonQuotedTextElement49() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement48()
+	return p.cur.onQuotedTextElement49()
 }
 
-func (c *current) onQuotedTextElement55() (interface{}, error) {
+func (c *current) onQuotedTextElement56() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement55() (interface{}, error) {
+func (p *parser) callonQuotedTextElement56() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement55()
+	return p.cur.onQuotedTextElement56()
 }
 
-func (c *current) onQuotedTextElement51(name interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement52(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -71123,242 +71161,242 @@ func (c *current) onQuotedTextElement51(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonQuotedTextElement51() (interface{}, error) {
+func (p *parser) callonQuotedTextElement52() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement51(stack["name"])
+	return p.cur.onQuotedTextElement52(stack["name"])
 }
 
-func (c *current) onQuotedTextElement65() (interface{}, error) {
+func (c *current) onQuotedTextElement66() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement65() (interface{}, error) {
+func (p *parser) callonQuotedTextElement66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement65()
+	return p.cur.onQuotedTextElement66()
 }
 
-func (c *current) onQuotedTextElement61(name interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement62(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement61() (interface{}, error) {
+func (p *parser) callonQuotedTextElement62() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement61(stack["name"])
+	return p.cur.onQuotedTextElement62(stack["name"])
 }
 
-func (c *current) onQuotedTextElement75() (interface{}, error) {
+func (c *current) onQuotedTextElement76() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement75() (interface{}, error) {
+func (p *parser) callonQuotedTextElement76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement75()
+	return p.cur.onQuotedTextElement76()
 }
 
-func (c *current) onQuotedTextElement87() (interface{}, error) {
+func (c *current) onQuotedTextElement88() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement87() (interface{}, error) {
+func (p *parser) callonQuotedTextElement88() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement87()
+	return p.cur.onQuotedTextElement88()
 }
 
-func (c *current) onQuotedTextElement89() (interface{}, error) {
+func (c *current) onQuotedTextElement90() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement89() (interface{}, error) {
+func (p *parser) callonQuotedTextElement90() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement89()
+	return p.cur.onQuotedTextElement90()
 }
 
-func (c *current) onQuotedTextElement82(start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement83(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonQuotedTextElement82() (interface{}, error) {
+func (p *parser) callonQuotedTextElement83() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement82(stack["start"])
+	return p.cur.onQuotedTextElement83(stack["start"])
 }
 
-func (c *current) onQuotedTextElement71(name, start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement72(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonQuotedTextElement71() (interface{}, error) {
+func (p *parser) callonQuotedTextElement72() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement71(stack["name"], stack["start"])
+	return p.cur.onQuotedTextElement72(stack["name"], stack["start"])
 }
 
-func (c *current) onQuotedTextElement97() (interface{}, error) {
+func (c *current) onQuotedTextElement98() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement97() (interface{}, error) {
+func (p *parser) callonQuotedTextElement98() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement97()
+	return p.cur.onQuotedTextElement98()
 }
 
-func (c *current) onQuotedTextElement109() (interface{}, error) {
+func (c *current) onQuotedTextElement110() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonQuotedTextElement109() (interface{}, error) {
+func (p *parser) callonQuotedTextElement110() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement109()
+	return p.cur.onQuotedTextElement110()
 }
 
-func (c *current) onQuotedTextElement111() (interface{}, error) {
+func (c *current) onQuotedTextElement112() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement111() (interface{}, error) {
+func (p *parser) callonQuotedTextElement112() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement111()
+	return p.cur.onQuotedTextElement112()
 }
 
-func (c *current) onQuotedTextElement104(start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement105(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonQuotedTextElement104() (interface{}, error) {
+func (p *parser) callonQuotedTextElement105() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement104(stack["start"])
+	return p.cur.onQuotedTextElement105(stack["start"])
 }
 
-func (c *current) onQuotedTextElement93(name, start interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement94(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonQuotedTextElement93() (interface{}, error) {
+func (p *parser) callonQuotedTextElement94() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement93(stack["name"], stack["start"])
+	return p.cur.onQuotedTextElement94(stack["name"], stack["start"])
 }
 
-func (c *current) onQuotedTextElement46(element interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement47(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonQuotedTextElement46() (interface{}, error) {
+func (p *parser) callonQuotedTextElement47() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement46(stack["element"])
+	return p.cur.onQuotedTextElement47(stack["element"])
 }
 
-func (c *current) onQuotedTextElement117() (interface{}, error) {
+func (c *current) onQuotedTextElement118() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement117() (interface{}, error) {
+func (p *parser) callonQuotedTextElement118() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement117()
+	return p.cur.onQuotedTextElement118()
 }
 
-func (c *current) onQuotedTextElement123() (interface{}, error) {
+func (c *current) onQuotedTextElement124() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement123() (interface{}, error) {
+func (p *parser) callonQuotedTextElement124() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement123()
+	return p.cur.onQuotedTextElement124()
 }
 
-func (c *current) onQuotedTextElement115() (interface{}, error) {
+func (c *current) onQuotedTextElement116() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement115() (interface{}, error) {
+func (p *parser) callonQuotedTextElement116() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement115()
+	return p.cur.onQuotedTextElement116()
 }
 
-func (c *current) onQuotedTextElement132() (bool, error) {
+func (c *current) onQuotedTextElement133() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonQuotedTextElement132() (bool, error) {
+func (p *parser) callonQuotedTextElement133() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement132()
+	return p.cur.onQuotedTextElement133()
 }
 
-func (c *current) onQuotedTextElement134() (interface{}, error) {
+func (c *current) onQuotedTextElement135() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonQuotedTextElement134() (interface{}, error) {
+func (p *parser) callonQuotedTextElement135() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement134()
+	return p.cur.onQuotedTextElement135()
 }
 
-func (c *current) onQuotedTextElement130(element interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement131(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonQuotedTextElement130() (interface{}, error) {
+func (p *parser) callonQuotedTextElement131() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement130(stack["element"])
+	return p.cur.onQuotedTextElement131(stack["element"])
 }
 
-func (c *current) onQuotedTextElement140() (interface{}, error) {
+func (c *current) onQuotedTextElement141() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonQuotedTextElement140() (interface{}, error) {
+func (p *parser) callonQuotedTextElement141() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement140()
+	return p.cur.onQuotedTextElement141()
 }
 
-func (c *current) onQuotedTextElement136(ref interface{}) (interface{}, error) {
+func (c *current) onQuotedTextElement137(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonQuotedTextElement136() (interface{}, error) {
+func (p *parser) callonQuotedTextElement137() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement136(stack["ref"])
+	return p.cur.onQuotedTextElement137(stack["ref"])
 }
 
-func (c *current) onQuotedTextElement144() (interface{}, error) {
+func (c *current) onQuotedTextElement145() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -71367,10 +71405,10 @@ func (c *current) onQuotedTextElement144() (interface{}, error) {
 
 }
 
-func (p *parser) callonQuotedTextElement144() (interface{}, error) {
+func (p *parser) callonQuotedTextElement145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onQuotedTextElement144()
+	return p.cur.onQuotedTextElement145()
 }
 
 func (c *current) onDoubleQuoteBoldText1(elements interface{}) (interface{}, error) {
@@ -72399,6 +72437,17 @@ func (p *parser) callonSectionTitleInlineElement18() (interface{}, error) {
 	return p.cur.onSectionTitleInlineElement18()
 }
 
+func (c *current) onSectionTitleInlineElement23() (bool, error) {
+	return c.isSubstitutionEnabled(Replacements), nil
+
+}
+
+func (p *parser) callonSectionTitleInlineElement23() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onSectionTitleInlineElement23()
+}
+
 func (c *current) onSectionTitleInlineElement21() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
@@ -72411,133 +72460,133 @@ func (p *parser) callonSectionTitleInlineElement21() (interface{}, error) {
 	return p.cur.onSectionTitleInlineElement21()
 }
 
-func (c *current) onSectionTitleInlineElement28() (bool, error) {
+func (c *current) onSectionTitleInlineElement29() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement28() (bool, error) {
+func (p *parser) callonSectionTitleInlineElement29() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement28()
+	return p.cur.onSectionTitleInlineElement29()
 }
 
-func (c *current) onSectionTitleInlineElement29() (bool, error) {
+func (c *current) onSectionTitleInlineElement30() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement29() (bool, error) {
+func (p *parser) callonSectionTitleInlineElement30() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement29()
+	return p.cur.onSectionTitleInlineElement30()
 }
 
-func (c *current) onSectionTitleInlineElement26() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement27() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonSectionTitleInlineElement26() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement27() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement26()
+	return p.cur.onSectionTitleInlineElement27()
 }
 
-func (c *current) onSectionTitleInlineElement38() (bool, error) {
+func (c *current) onSectionTitleInlineElement39() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement38() (bool, error) {
+func (p *parser) callonSectionTitleInlineElement39() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement38()
+	return p.cur.onSectionTitleInlineElement39()
 }
 
-func (c *current) onSectionTitleInlineElement42() (bool, error) {
+func (c *current) onSectionTitleInlineElement43() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement42() (bool, error) {
+func (p *parser) callonSectionTitleInlineElement43() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement42()
+	return p.cur.onSectionTitleInlineElement43()
 }
 
-func (c *current) onSectionTitleInlineElement34() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement35() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement34() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement35() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement34()
+	return p.cur.onSectionTitleInlineElement35()
 }
 
-func (c *current) onSectionTitleInlineElement53() (bool, error) {
+func (c *current) onSectionTitleInlineElement54() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement53() (bool, error) {
+func (p *parser) callonSectionTitleInlineElement54() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement53()
+	return p.cur.onSectionTitleInlineElement54()
 }
 
-func (c *current) onSectionTitleInlineElement55() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement56() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleInlineElement55() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement56() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement55()
+	return p.cur.onSectionTitleInlineElement56()
 }
 
-func (c *current) onSectionTitleInlineElement51(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement52(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement51() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement52() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement51(stack["element"])
+	return p.cur.onSectionTitleInlineElement52(stack["element"])
 }
 
-func (c *current) onSectionTitleInlineElement60() (bool, error) {
+func (c *current) onSectionTitleInlineElement61() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement60() (bool, error) {
+func (p *parser) callonSectionTitleInlineElement61() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement60()
+	return p.cur.onSectionTitleInlineElement61()
 }
 
-func (c *current) onSectionTitleInlineElement67() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement68() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement67() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement68() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement67()
+	return p.cur.onSectionTitleInlineElement68()
 }
 
-func (c *current) onSectionTitleInlineElement63(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement64(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -72545,242 +72594,242 @@ func (c *current) onSectionTitleInlineElement63(name interface{}) (interface{},
 
 }
 
-func (p *parser) callonSectionTitleInlineElement63() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement64() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement63(stack["name"])
+	return p.cur.onSectionTitleInlineElement64(stack["name"])
 }
 
-func (c *current) onSectionTitleInlineElement77() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement78() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement77() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement78() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement77()
+	return p.cur.onSectionTitleInlineElement78()
 }
 
-func (c *current) onSectionTitleInlineElement73(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement74(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleInlineElement73() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement74() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement73(stack["name"])
+	return p.cur.onSectionTitleInlineElement74(stack["name"])
 }
 
-func (c *current) onSectionTitleInlineElement87() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement88() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement87() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement88() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement87()
+	return p.cur.onSectionTitleInlineElement88()
 }
 
-func (c *current) onSectionTitleInlineElement99() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement100() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement99() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement100() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement99()
+	return p.cur.onSectionTitleInlineElement100()
 }
 
-func (c *current) onSectionTitleInlineElement101() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement102() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleInlineElement101() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement102() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement101()
+	return p.cur.onSectionTitleInlineElement102()
 }
 
-func (c *current) onSectionTitleInlineElement94(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement95(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement94() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement95() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement94(stack["start"])
+	return p.cur.onSectionTitleInlineElement95(stack["start"])
 }
 
-func (c *current) onSectionTitleInlineElement83(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement84(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleInlineElement83() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement84() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement83(stack["name"], stack["start"])
+	return p.cur.onSectionTitleInlineElement84(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleInlineElement109() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement110() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement109() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement110() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement109()
+	return p.cur.onSectionTitleInlineElement110()
 }
 
-func (c *current) onSectionTitleInlineElement121() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement122() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement121() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement122() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement121()
+	return p.cur.onSectionTitleInlineElement122()
 }
 
-func (c *current) onSectionTitleInlineElement123() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement124() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleInlineElement123() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement124() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement123()
+	return p.cur.onSectionTitleInlineElement124()
 }
 
-func (c *current) onSectionTitleInlineElement116(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement117(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement116() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement117() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement116(stack["start"])
+	return p.cur.onSectionTitleInlineElement117(stack["start"])
 }
 
-func (c *current) onSectionTitleInlineElement105(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement106(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonSectionTitleInlineElement105() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement106() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement105(stack["name"], stack["start"])
+	return p.cur.onSectionTitleInlineElement106(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleInlineElement58(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement59(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement58() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement59() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement58(stack["element"])
+	return p.cur.onSectionTitleInlineElement59(stack["element"])
 }
 
-func (c *current) onSectionTitleInlineElement131() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement132() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleInlineElement131() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement132() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement131()
+	return p.cur.onSectionTitleInlineElement132()
 }
 
-func (c *current) onSectionTitleInlineElement127(ref interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement128(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonSectionTitleInlineElement127() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement128() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement127(stack["ref"])
+	return p.cur.onSectionTitleInlineElement128(stack["ref"])
 }
 
-func (c *current) onSectionTitleInlineElement137() (bool, error) {
+func (c *current) onSectionTitleInlineElement138() (bool, error) {
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement137() (bool, error) {
+func (p *parser) callonSectionTitleInlineElement138() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement137()
+	return p.cur.onSectionTitleInlineElement138()
 }
 
-func (c *current) onSectionTitleInlineElement147() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement148() (interface{}, error) {
 	// spaces, commas and dots are allowed in this syntax
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleInlineElement147() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement148() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement147()
+	return p.cur.onSectionTitleInlineElement148()
 }
 
-func (c *current) onSectionTitleInlineElement154() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement155() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleInlineElement154() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement155() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement154()
+	return p.cur.onSectionTitleInlineElement155()
 }
 
-func (c *current) onSectionTitleInlineElement150(ref interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement151(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonSectionTitleInlineElement150() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement151() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement150(stack["ref"])
+	return p.cur.onSectionTitleInlineElement151(stack["ref"])
 }
 
-func (c *current) onSectionTitleInlineElement160() (bool, error) {
+func (c *current) onSectionTitleInlineElement161() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement160() (bool, error) {
+func (p *parser) callonSectionTitleInlineElement161() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement160()
+	return p.cur.onSectionTitleInlineElement161()
 }
 
-func (c *current) onSectionTitleInlineElement167() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement168() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement167() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement168() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement167()
+	return p.cur.onSectionTitleInlineElement168()
 }
 
-func (c *current) onSectionTitleInlineElement163(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement164(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -72788,270 +72837,270 @@ func (c *current) onSectionTitleInlineElement163(name interface{}) (interface{},
 
 }
 
-func (p *parser) callonSectionTitleInlineElement163() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement164() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement163(stack["name"])
+	return p.cur.onSectionTitleInlineElement164(stack["name"])
 }
 
-func (c *current) onSectionTitleInlineElement177() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement178() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement177() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement178() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement177()
+	return p.cur.onSectionTitleInlineElement178()
 }
 
-func (c *current) onSectionTitleInlineElement173(name interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement174(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleInlineElement173() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement174() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement173(stack["name"])
+	return p.cur.onSectionTitleInlineElement174(stack["name"])
 }
 
-func (c *current) onSectionTitleInlineElement187() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement188() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement187() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement188() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement187()
+	return p.cur.onSectionTitleInlineElement188()
 }
 
-func (c *current) onSectionTitleInlineElement199() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement200() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement199() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement200() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement199()
+	return p.cur.onSectionTitleInlineElement200()
 }
 
-func (c *current) onSectionTitleInlineElement201() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement202() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleInlineElement201() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement202() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement201()
+	return p.cur.onSectionTitleInlineElement202()
 }
 
-func (c *current) onSectionTitleInlineElement194(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement195(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement194() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement195() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement194(stack["start"])
+	return p.cur.onSectionTitleInlineElement195(stack["start"])
 }
 
-func (c *current) onSectionTitleInlineElement183(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement184(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonSectionTitleInlineElement183() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement184() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement183(stack["name"], stack["start"])
+	return p.cur.onSectionTitleInlineElement184(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleInlineElement209() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement210() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement209() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement210() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement209()
+	return p.cur.onSectionTitleInlineElement210()
 }
 
-func (c *current) onSectionTitleInlineElement221() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement222() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement221() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement222() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement221()
+	return p.cur.onSectionTitleInlineElement222()
 }
 
-func (c *current) onSectionTitleInlineElement223() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement224() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleInlineElement223() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement224() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement223()
+	return p.cur.onSectionTitleInlineElement224()
 }
 
-func (c *current) onSectionTitleInlineElement216(start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement217(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement216() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement217() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement216(stack["start"])
+	return p.cur.onSectionTitleInlineElement217(stack["start"])
 }
 
-func (c *current) onSectionTitleInlineElement205(name, start interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement206(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonSectionTitleInlineElement205() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement206() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement205(stack["name"], stack["start"])
+	return p.cur.onSectionTitleInlineElement206(stack["name"], stack["start"])
 }
 
-func (c *current) onSectionTitleInlineElement158(element interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement159(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement158() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement159() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement158(stack["element"])
+	return p.cur.onSectionTitleInlineElement159(stack["element"])
 }
 
-func (c *current) onSectionTitleInlineElement227() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement228() (interface{}, error) {
 
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonSectionTitleInlineElement227() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement228() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement227()
+	return p.cur.onSectionTitleInlineElement228()
 }
 
-func (c *current) onSectionTitleInlineElement143(elements interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement144(elements interface{}) (interface{}, error) {
 	return types.Reduce(elements, strings.TrimSpace), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement143() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement144() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement143(stack["elements"])
+	return p.cur.onSectionTitleInlineElement144(stack["elements"])
 }
 
-func (c *current) onSectionTitleInlineElement139(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement140(id interface{}) (interface{}, error) {
 	return types.NewIDAttribute(id)
 
 }
 
-func (p *parser) callonSectionTitleInlineElement139() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement140() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement139(stack["id"])
+	return p.cur.onSectionTitleInlineElement140(stack["id"])
 }
 
-func (c *current) onSectionTitleInlineElement231() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement232() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement231() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement232() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement231()
+	return p.cur.onSectionTitleInlineElement232()
 }
 
-func (c *current) onSectionTitleInlineElement235() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement236() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonSectionTitleInlineElement235() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement236() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement235()
+	return p.cur.onSectionTitleInlineElement236()
 }
 
-func (c *current) onSectionTitleInlineElement135(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement136(id interface{}) (interface{}, error) {
 
 	return id, nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement135() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement136() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement135(stack["id"])
+	return p.cur.onSectionTitleInlineElement136(stack["id"])
 }
 
-func (c *current) onSectionTitleInlineElement246() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement247() (interface{}, error) {
 	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement246() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement247() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement246()
+	return p.cur.onSectionTitleInlineElement247()
 }
 
-func (c *current) onSectionTitleInlineElement242(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement243(id interface{}) (interface{}, error) {
 	return types.NewStringElement(strings.TrimPrefix(string(c.text), `\`))
 
 }
 
-func (p *parser) callonSectionTitleInlineElement242() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement243() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement242(stack["id"])
+	return p.cur.onSectionTitleInlineElement243(stack["id"])
 }
 
-func (c *current) onSectionTitleInlineElement254() (interface{}, error) {
+func (c *current) onSectionTitleInlineElement255() (interface{}, error) {
 	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonSectionTitleInlineElement254() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement255() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement254()
+	return p.cur.onSectionTitleInlineElement255()
 }
 
-func (c *current) onSectionTitleInlineElement250(id interface{}) (interface{}, error) {
+func (c *current) onSectionTitleInlineElement251(id interface{}) (interface{}, error) {
 	// no EOL here since there can be multiple InlineElementID on the same line
 	return types.NewInlineAnchor(id.(string))
 
 }
 
-func (p *parser) callonSectionTitleInlineElement250() (interface{}, error) {
+func (p *parser) callonSectionTitleInlineElement251() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onSectionTitleInlineElement250(stack["id"])
+	return p.cur.onSectionTitleInlineElement251(stack["id"])
 }
 
 func (c *current) onSectionTitleInlineElement1(element interface{}) (interface{}, error) {
@@ -73111,6 +73160,17 @@ func (p *parser) callonNormalGroup25() (interface{}, error) {
 	return p.cur.onNormalGroup25()
 }
 
+func (c *current) onNormalGroup31() (bool, error) {
+	return c.isSubstitutionEnabled(Replacements), nil
+
+}
+
+func (p *parser) callonNormalGroup31() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onNormalGroup31()
+}
+
 func (c *current) onNormalGroup29() (interface{}, error) {
 	//log.Debug("matched escaped apostrophe")
 	return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
@@ -73123,111 +73183,111 @@ func (p *parser) callonNormalGroup29() (interface{}, error) {
 	return p.cur.onNormalGroup29()
 }
 
-func (c *current) onNormalGroup36() (bool, error) {
+func (c *current) onNormalGroup37() (bool, error) {
 	return c.isSubstitutionEnabled(Replacements), nil
 
 }
 
-func (p *parser) callonNormalGroup36() (bool, error) {
+func (p *parser) callonNormalGroup37() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup36()
+	return p.cur.onNormalGroup37()
 }
 
-func (c *current) onNormalGroup37() (bool, error) {
+func (c *current) onNormalGroup38() (bool, error) {
 	//log.Debugf("TypographicQuote at pos %s", c.pos.String())
 	return c.isPrecededByAlphanum(), nil
 
 }
 
-func (p *parser) callonNormalGroup37() (bool, error) {
+func (p *parser) callonNormalGroup38() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup37()
+	return p.cur.onNormalGroup38()
 }
 
-func (c *current) onNormalGroup34() (interface{}, error) {
+func (c *current) onNormalGroup35() (interface{}, error) {
 	return types.NewSymbol("'")
 
 }
 
-func (p *parser) callonNormalGroup34() (interface{}, error) {
+func (p *parser) callonNormalGroup35() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup34()
+	return p.cur.onNormalGroup35()
 }
 
-func (c *current) onNormalGroup45() (bool, error) {
+func (c *current) onNormalGroup46() (bool, error) {
 
 	return c.allSubstitutionsDisabled(Macros, Quotes), nil
 
 }
 
-func (p *parser) callonNormalGroup45() (bool, error) {
+func (p *parser) callonNormalGroup46() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup45()
+	return p.cur.onNormalGroup46()
 }
 
-func (c *current) onNormalGroup49() (bool, error) {
+func (c *current) onNormalGroup50() (bool, error) {
 
 	return c.isSubstitutionDisabled(Quotes), nil
 
 }
 
-func (p *parser) callonNormalGroup49() (bool, error) {
+func (p *parser) callonNormalGroup50() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup49()
+	return p.cur.onNormalGroup50()
 }
 
-func (c *current) onNormalGroup41() (interface{}, error) {
+func (c *current) onNormalGroup42() (interface{}, error) {
 
 	log.Debugf("new punctuation: '%v'", string(c.text))
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup41() (interface{}, error) {
+func (p *parser) callonNormalGroup42() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup41()
+	return p.cur.onNormalGroup42()
 }
 
-func (c *current) onNormalGroup55() (interface{}, error) {
+func (c *current) onNormalGroup56() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup55() (interface{}, error) {
+func (p *parser) callonNormalGroup56() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup55()
+	return p.cur.onNormalGroup56()
 }
 
-func (c *current) onNormalGroup62() (bool, error) {
+func (c *current) onNormalGroup63() (bool, error) {
 	return c.isSubstitutionEnabled(AttributeRefs), nil
 
 }
 
-func (p *parser) callonNormalGroup62() (bool, error) {
+func (p *parser) callonNormalGroup63() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup62()
+	return p.cur.onNormalGroup63()
 }
 
-func (c *current) onNormalGroup69() (interface{}, error) {
+func (c *current) onNormalGroup70() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup69() (interface{}, error) {
+func (p *parser) callonNormalGroup70() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup69()
+	return p.cur.onNormalGroup70()
 }
 
-func (c *current) onNormalGroup65(name interface{}) (interface{}, error) {
+func (c *current) onNormalGroup66(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -73235,269 +73295,269 @@ func (c *current) onNormalGroup65(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonNormalGroup65() (interface{}, error) {
+func (p *parser) callonNormalGroup66() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup65(stack["name"])
+	return p.cur.onNormalGroup66(stack["name"])
 }
 
-func (c *current) onNormalGroup79() (interface{}, error) {
+func (c *current) onNormalGroup80() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup79() (interface{}, error) {
+func (p *parser) callonNormalGroup80() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup79()
+	return p.cur.onNormalGroup80()
 }
 
-func (c *current) onNormalGroup75(name interface{}) (interface{}, error) {
+func (c *current) onNormalGroup76(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup75() (interface{}, error) {
+func (p *parser) callonNormalGroup76() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup75(stack["name"])
+	return p.cur.onNormalGroup76(stack["name"])
 }
 
-func (c *current) onNormalGroup89() (interface{}, error) {
+func (c *current) onNormalGroup90() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup89() (interface{}, error) {
+func (p *parser) callonNormalGroup90() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup89()
+	return p.cur.onNormalGroup90()
 }
 
-func (c *current) onNormalGroup101() (interface{}, error) {
+func (c *current) onNormalGroup102() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup101() (interface{}, error) {
+func (p *parser) callonNormalGroup102() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup101()
+	return p.cur.onNormalGroup102()
 }
 
-func (c *current) onNormalGroup103() (interface{}, error) {
+func (c *current) onNormalGroup104() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup103() (interface{}, error) {
+func (p *parser) callonNormalGroup104() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup103()
+	return p.cur.onNormalGroup104()
 }
 
-func (c *current) onNormalGroup96(start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup97(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonNormalGroup96() (interface{}, error) {
+func (p *parser) callonNormalGroup97() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup96(stack["start"])
+	return p.cur.onNormalGroup97(stack["start"])
 }
 
-func (c *current) onNormalGroup85(name, start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup86(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), false, start, string(c.text))
 }
 
-func (p *parser) callonNormalGroup85() (interface{}, error) {
+func (p *parser) callonNormalGroup86() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup85(stack["name"], stack["start"])
+	return p.cur.onNormalGroup86(stack["name"], stack["start"])
 }
 
-func (c *current) onNormalGroup111() (interface{}, error) {
+func (c *current) onNormalGroup112() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup111() (interface{}, error) {
+func (p *parser) callonNormalGroup112() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup111()
+	return p.cur.onNormalGroup112()
 }
 
-func (c *current) onNormalGroup123() (interface{}, error) {
+func (c *current) onNormalGroup124() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup123() (interface{}, error) {
+func (p *parser) callonNormalGroup124() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup123()
+	return p.cur.onNormalGroup124()
 }
 
-func (c *current) onNormalGroup125() (interface{}, error) {
+func (c *current) onNormalGroup126() (interface{}, error) {
 
 	return strconv.Atoi(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup125() (interface{}, error) {
+func (p *parser) callonNormalGroup126() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup125()
+	return p.cur.onNormalGroup126()
 }
 
-func (c *current) onNormalGroup118(start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup119(start interface{}) (interface{}, error) {
 	return start, nil
 
 }
 
-func (p *parser) callonNormalGroup118() (interface{}, error) {
+func (p *parser) callonNormalGroup119() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup118(stack["start"])
+	return p.cur.onNormalGroup119(stack["start"])
 }
 
-func (c *current) onNormalGroup107(name, start interface{}) (interface{}, error) {
+func (c *current) onNormalGroup108(name, start interface{}) (interface{}, error) {
 	return types.NewCounterSubstitution(name.(string), true, nil, string(c.text))
 }
 
-func (p *parser) callonNormalGroup107() (interface{}, error) {
+func (p *parser) callonNormalGroup108() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup107(stack["name"], stack["start"])
+	return p.cur.onNormalGroup108(stack["name"], stack["start"])
 }
 
-func (c *current) onNormalGroup60(element interface{}) (interface{}, error) {
+func (c *current) onNormalGroup61(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonNormalGroup60() (interface{}, error) {
+func (p *parser) callonNormalGroup61() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup60(stack["element"])
+	return p.cur.onNormalGroup61(stack["element"])
 }
 
-func (c *current) onNormalGroup134() (bool, error) {
+func (c *current) onNormalGroup135() (bool, error) {
 	return c.isSubstitutionEnabled(SpecialCharacters), nil
 
 }
 
-func (p *parser) callonNormalGroup134() (bool, error) {
+func (p *parser) callonNormalGroup135() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup134()
+	return p.cur.onNormalGroup135()
 }
 
-func (c *current) onNormalGroup136() (interface{}, error) {
+func (c *current) onNormalGroup137() (interface{}, error) {
 	return types.NewSpecialCharacter(string(c.text))
 
 }
 
-func (p *parser) callonNormalGroup136() (interface{}, error) {
+func (p *parser) callonNormalGroup137() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup136()
+	return p.cur.onNormalGroup137()
 }
 
-func (c *current) onNormalGroup132(element interface{}) (interface{}, error) {
+func (c *current) onNormalGroup133(element interface{}) (interface{}, error) {
 	return element, nil
 
 }
 
-func (p *parser) callonNormalGroup132() (interface{}, error) {
+func (p *parser) callonNormalGroup133() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup132(stack["element"])
+	return p.cur.onNormalGroup133(stack["element"])
 }
 
-func (c *current) onNormalGroup140() (bool, error) {
+func (c *current) onNormalGroup141() (bool, error) {
 
 	return c.isSubstitutionEnabled(PostReplacements), nil
 
 }
 
-func (p *parser) callonNormalGroup140() (bool, error) {
+func (p *parser) callonNormalGroup141() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup140()
+	return p.cur.onNormalGroup141()
 }
 
-func (c *current) onNormalGroup142() (bool, error) {
+func (c *current) onNormalGroup143() (bool, error) {
 
 	log.Debug("LineBreak")
 	return c.isPrecededBySpace(), nil
 
 }
 
-func (p *parser) callonNormalGroup142() (bool, error) {
+func (p *parser) callonNormalGroup143() (bool, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup142()
+	return p.cur.onNormalGroup143()
 }
 
-func (c *current) onNormalGroup144() (interface{}, error) {
+func (c *current) onNormalGroup145() (interface{}, error) {
 
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonNormalGroup144() (interface{}, error) {
+func (p *parser) callonNormalGroup145() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup144()
+	return p.cur.onNormalGroup145()
 }
 
-func (c *current) onNormalGroup148() (interface{}, error) {
+func (c *current) onNormalGroup149() (interface{}, error) {
 	// TODO: just use "\n"
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup148() (interface{}, error) {
+func (p *parser) callonNormalGroup149() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup148()
+	return p.cur.onNormalGroup149()
 }
 
-func (c *current) onNormalGroup138() (interface{}, error) {
+func (c *current) onNormalGroup139() (interface{}, error) {
 	return types.NewLineBreak()
 
 }
 
-func (p *parser) callonNormalGroup138() (interface{}, error) {
+func (p *parser) callonNormalGroup139() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup138()
+	return p.cur.onNormalGroup139()
 }
 
-func (c *current) onNormalGroup160() (interface{}, error) {
+func (c *current) onNormalGroup161() (interface{}, error) {
 	return string(c.text), nil
 }
 
-func (p *parser) callonNormalGroup160() (interface{}, error) {
+func (p *parser) callonNormalGroup161() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup160()
+	return p.cur.onNormalGroup161()
 }
 
-func (c *current) onNormalGroup156(ref interface{}) (interface{}, error) {
+func (c *current) onNormalGroup157(ref interface{}) (interface{}, error) {
 	return types.NewElementPlaceHolder(ref.(string))
 }
 
-func (p *parser) callonNormalGroup156() (interface{}, error) {
+func (p *parser) callonNormalGroup157() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup156(stack["ref"])
+	return p.cur.onNormalGroup157(stack["ref"])
 }
 
-func (c *current) onNormalGroup164() (interface{}, error) {
+func (c *current) onNormalGroup165() (interface{}, error) {
 
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("matching anychar '%s' at position %v", string(c.text), c.pos.String())
@@ -73506,10 +73566,10 @@ func (c *current) onNormalGroup164() (interface{}, error) {
 
 }
 
-func (p *parser) callonNormalGroup164() (interface{}, error) {
+func (p *parser) callonNormalGroup165() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onNormalGroup164()
+	return p.cur.onNormalGroup165()
 }
 
 func (c *current) onNormalGroup5(element interface{}) (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 09e5b0b..4671441 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -2508,6 +2508,9 @@ SinglelineCommentContent <- AnyChars
 // a letter (not a digit) but it can have a digit just before it.
 TypographicQuote <- 
     // escaped
+    &{
+        return c.isSubstitutionEnabled(Replacements), nil
+    }
     `\'` &[\pL] {
         //log.Debug("matched escaped apostrophe")
         return types.NewStringElement(`'`) // retain the apostrophe, but discard the `\` escape char
-- 
2.43.0


From 2062dabc1e08036da8bf2315eba4c24c8b53b45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:43 +0000
Subject: [PATCH 068/108] fix: retain attribute references in labels of cross
 references when attributes are disabled

The references were not replaced, and the document could not be rendered.
---
 pkg/parser/parser.go  | 16580 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |     6 +-
 2 files changed, 8317 insertions(+), 8269 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index b74cb76..8ca8d26 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 367, col: 49, offset: 11183},
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 10, offset: 91469},
+														pos: position{line: 2896, col: 10, offset: 91577},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2892, col: 10, offset: 91469},
+															pos:        position{line: 2896, col: 10, offset: 91577},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2914, col: 8, offset: 91867},
+													pos: position{line: 2918, col: 8, offset: 91975},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2901, col: 12, offset: 91640},
+															pos: position{line: 2905, col: 12, offset: 91748},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2901, col: 13, offset: 91641},
+																pos: position{line: 2905, col: 13, offset: 91749},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 13, offset: 91641},
+																		pos:        position{line: 2905, col: 13, offset: 91749},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 20, offset: 91648},
+																		pos:        position{line: 2905, col: 20, offset: 91756},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 29, offset: 91657},
+																		pos:        position{line: 2905, col: 29, offset: 91765},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2911, col: 8, offset: 91817},
+															pos: position{line: 2915, col: 8, offset: 91925},
 															expr: &anyMatcher{
-																line: 2911, col: 9, offset: 91818,
+																line: 2915, col: 9, offset: 91926,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 369, col: 39, offset: 11304},
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 10, offset: 91469},
+														pos: position{line: 2896, col: 10, offset: 91577},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2892, col: 10, offset: 91469},
+															pos:        position{line: 2896, col: 10, offset: 91577},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2914, col: 8, offset: 91867},
+													pos: position{line: 2918, col: 8, offset: 91975},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2901, col: 12, offset: 91640},
+															pos: position{line: 2905, col: 12, offset: 91748},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2901, col: 13, offset: 91641},
+																pos: position{line: 2905, col: 13, offset: 91749},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 13, offset: 91641},
+																		pos:        position{line: 2905, col: 13, offset: 91749},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 20, offset: 91648},
+																		pos:        position{line: 2905, col: 20, offset: 91756},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 29, offset: 91657},
+																		pos:        position{line: 2905, col: 29, offset: 91765},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2911, col: 8, offset: 91817},
+															pos: position{line: 2915, col: 8, offset: 91925},
 															expr: &anyMatcher{
-																line: 2911, col: 9, offset: 91818,
+																line: 2915, col: 9, offset: 91926,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 10, offset: 91469},
+														pos: position{line: 2896, col: 10, offset: 91577},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2892, col: 10, offset: 91469},
+															pos:        position{line: 2896, col: 10, offset: 91577},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2911, col: 8, offset: 91817},
+													pos: position{line: 2915, col: 8, offset: 91925},
 													expr: &anyMatcher{
-														line: 2911, col: 9, offset: 91818,
+														line: 2915, col: 9, offset: 91926,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 10, offset: 91469},
+														pos: position{line: 2896, col: 10, offset: 91577},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2892, col: 10, offset: 91469},
+															pos:        position{line: 2896, col: 10, offset: 91577},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2911, col: 8, offset: 91817},
+													pos: position{line: 2915, col: 8, offset: 91925},
 													expr: &anyMatcher{
-														line: 2911, col: 9, offset: 91818,
+														line: 2915, col: 9, offset: 91926,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2884, col: 12, offset: 91296},
+																pos: position{line: 2888, col: 12, offset: 91404},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2884, col: 13, offset: 91297},
+																	pos: position{line: 2888, col: 13, offset: 91405},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2884, col: 13, offset: 91297},
+																			pos: position{line: 2888, col: 13, offset: 91405},
 																			expr: &litMatcher{
-																				pos:        position{line: 2884, col: 13, offset: 91297},
+																				pos:        position{line: 2888, col: 13, offset: 91405},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2884, col: 18, offset: 91302},
+																			pos: position{line: 2888, col: 18, offset: 91410},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2884, col: 18, offset: 91302},
+																				pos:        position{line: 2888, col: 18, offset: 91410},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 10, offset: 91469},
+														pos: position{line: 2896, col: 10, offset: 91577},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2892, col: 10, offset: 91469},
+															pos:        position{line: 2896, col: 10, offset: 91577},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 10, offset: 91469},
+														pos: position{line: 2896, col: 10, offset: 91577},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2892, col: 10, offset: 91469},
+															pos:        position{line: 2896, col: 10, offset: 91577},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2884, col: 12, offset: 91296},
+																pos: position{line: 2888, col: 12, offset: 91404},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2884, col: 13, offset: 91297},
+																	pos: position{line: 2888, col: 13, offset: 91405},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2884, col: 13, offset: 91297},
+																			pos: position{line: 2888, col: 13, offset: 91405},
 																			expr: &litMatcher{
-																				pos:        position{line: 2884, col: 13, offset: 91297},
+																				pos:        position{line: 2888, col: 13, offset: 91405},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2884, col: 18, offset: 91302},
+																			pos: position{line: 2888, col: 18, offset: 91410},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2884, col: 18, offset: 91302},
+																				pos:        position{line: 2888, col: 18, offset: 91410},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 10, offset: 91469},
+														pos: position{line: 2896, col: 10, offset: 91577},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2892, col: 10, offset: 91469},
+															pos:        position{line: 2896, col: 10, offset: 91577},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2911, col: 8, offset: 91817},
+													pos: position{line: 2915, col: 8, offset: 91925},
 													expr: &anyMatcher{
-														line: 2911, col: 9, offset: 91818,
+														line: 2915, col: 9, offset: 91926,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 10, offset: 91469},
+														pos: position{line: 2896, col: 10, offset: 91577},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2892, col: 10, offset: 91469},
+															pos:        position{line: 2896, col: 10, offset: 91577},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,24 +1665,24 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2911, col: 8, offset: 91817},
+													pos: position{line: 2915, col: 8, offset: 91925},
 													expr: &anyMatcher{
-														line: 2911, col: 9, offset: 91818,
+														line: 2915, col: 9, offset: 91926,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 734, col: 5, offset: 23388},
+										pos: position{line: 738, col: 5, offset: 23496},
 										run: (*parser).callonDocumentRawLine334,
 										expr: &seqExpr{
-											pos: position{line: 734, col: 5, offset: 23388},
+											pos: position{line: 738, col: 5, offset: 23496},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 734, col: 5, offset: 23388},
+													pos: position{line: 738, col: 5, offset: 23496},
 													expr: &charClassMatcher{
-														pos:        position{line: 2782, col: 13, offset: 88564},
+														pos:        position{line: 2786, col: 13, offset: 88672},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1690,36 +1690,36 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 735, col: 5, offset: 23418},
+													pos:   position{line: 739, col: 5, offset: 23526},
 													label: "delimiter",
 													expr: &choiceExpr{
-														pos: position{line: 736, col: 9, offset: 23438},
+														pos: position{line: 740, col: 9, offset: 23546},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 750, col: 5, offset: 23930},
+																pos: position{line: 754, col: 5, offset: 24038},
 																run: (*parser).callonDocumentRawLine340,
 																expr: &seqExpr{
-																	pos: position{line: 750, col: 5, offset: 23930},
+																	pos: position{line: 754, col: 5, offset: 24038},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 750, col: 5, offset: 23930},
+																			pos:   position{line: 754, col: 5, offset: 24038},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 750, col: 16, offset: 23941},
+																				pos: position{line: 754, col: 16, offset: 24049},
 																				run: (*parser).callonDocumentRawLine343,
 																				expr: &seqExpr{
-																					pos: position{line: 750, col: 16, offset: 23941},
+																					pos: position{line: 754, col: 16, offset: 24049},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 750, col: 16, offset: 23941},
+																							pos:        position{line: 754, col: 16, offset: 24049},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 750, col: 23, offset: 23948},
+																							pos: position{line: 754, col: 23, offset: 24056},
 																							expr: &litMatcher{
-																								pos:        position{line: 750, col: 23, offset: 23948},
+																								pos:        position{line: 754, col: 23, offset: 24056},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1730,12 +1730,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 752, col: 8, offset: 24032},
+																			pos: position{line: 756, col: 8, offset: 24140},
 																			expr: &actionExpr{
-																				pos: position{line: 2892, col: 10, offset: 91469},
+																				pos: position{line: 2896, col: 10, offset: 91577},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2892, col: 10, offset: 91469},
+																					pos:        position{line: 2896, col: 10, offset: 91577},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2914, col: 8, offset: 91867},
+																			pos: position{line: 2918, col: 8, offset: 91975},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2901, col: 12, offset: 91640},
+																					pos: position{line: 2905, col: 12, offset: 91748},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2901, col: 13, offset: 91641},
+																						pos: position{line: 2905, col: 13, offset: 91749},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 13, offset: 91641},
+																								pos:        position{line: 2905, col: 13, offset: 91749},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 20, offset: 91648},
+																								pos:        position{line: 2905, col: 20, offset: 91756},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 29, offset: 91657},
+																								pos:        position{line: 2905, col: 29, offset: 91765},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
@@ -1785,30 +1785,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 757, col: 5, offset: 24178},
+																pos: position{line: 761, col: 5, offset: 24286},
 																run: (*parser).callonDocumentRawLine359,
 																expr: &seqExpr{
-																	pos: position{line: 757, col: 5, offset: 24178},
+																	pos: position{line: 761, col: 5, offset: 24286},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 757, col: 5, offset: 24178},
+																			pos:   position{line: 761, col: 5, offset: 24286},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 757, col: 16, offset: 24189},
+																				pos: position{line: 761, col: 16, offset: 24297},
 																				run: (*parser).callonDocumentRawLine362,
 																				expr: &seqExpr{
-																					pos: position{line: 757, col: 16, offset: 24189},
+																					pos: position{line: 761, col: 16, offset: 24297},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 757, col: 16, offset: 24189},
+																							pos:        position{line: 761, col: 16, offset: 24297},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 757, col: 23, offset: 24196},
+																							pos: position{line: 761, col: 23, offset: 24304},
 																							expr: &litMatcher{
-																								pos:        position{line: 757, col: 23, offset: 24196},
+																								pos:        position{line: 761, col: 23, offset: 24304},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1819,12 +1819,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 759, col: 8, offset: 24280},
+																			pos: position{line: 763, col: 8, offset: 24388},
 																			expr: &actionExpr{
-																				pos: position{line: 2892, col: 10, offset: 91469},
+																				pos: position{line: 2896, col: 10, offset: 91577},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2892, col: 10, offset: 91469},
+																					pos:        position{line: 2896, col: 10, offset: 91577},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2914, col: 8, offset: 91867},
+																			pos: position{line: 2918, col: 8, offset: 91975},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2901, col: 12, offset: 91640},
+																					pos: position{line: 2905, col: 12, offset: 91748},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2901, col: 13, offset: 91641},
+																						pos: position{line: 2905, col: 13, offset: 91749},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 13, offset: 91641},
+																								pos:        position{line: 2905, col: 13, offset: 91749},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 20, offset: 91648},
+																								pos:        position{line: 2905, col: 20, offset: 91756},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 29, offset: 91657},
+																								pos:        position{line: 2905, col: 29, offset: 91765},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
@@ -1874,27 +1874,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 770, col: 26, offset: 24666},
+																pos: position{line: 774, col: 26, offset: 24774},
 																run: (*parser).callonDocumentRawLine378,
 																expr: &seqExpr{
-																	pos: position{line: 770, col: 26, offset: 24666},
+																	pos: position{line: 774, col: 26, offset: 24774},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 770, col: 26, offset: 24666},
+																			pos:        position{line: 774, col: 26, offset: 24774},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 770, col: 32, offset: 24672},
+																			pos:   position{line: 774, col: 32, offset: 24780},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 774, col: 13, offset: 24802},
+																				pos: position{line: 778, col: 13, offset: 24910},
 																				run: (*parser).callonDocumentRawLine382,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 774, col: 14, offset: 24803},
+																					pos: position{line: 778, col: 14, offset: 24911},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 774, col: 14, offset: 24803},
+																						pos:        position{line: 778, col: 14, offset: 24911},
 																						val:        "[^\\r\\n` ]",
 																						chars:      []rune{'\r', '\n', '`', ' '},
 																						ignoreCase: false,
@@ -1904,12 +1904,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 770, col: 52, offset: 24692},
+																			pos: position{line: 774, col: 52, offset: 24800},
 																			expr: &actionExpr{
-																				pos: position{line: 2892, col: 10, offset: 91469},
+																				pos: position{line: 2896, col: 10, offset: 91577},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2892, col: 10, offset: 91469},
+																					pos:        position{line: 2896, col: 10, offset: 91577},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2914, col: 8, offset: 91867},
+																			pos: position{line: 2918, col: 8, offset: 91975},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2901, col: 12, offset: 91640},
+																					pos: position{line: 2905, col: 12, offset: 91748},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2901, col: 13, offset: 91641},
+																						pos: position{line: 2905, col: 13, offset: 91749},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 13, offset: 91641},
+																								pos:        position{line: 2905, col: 13, offset: 91749},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 20, offset: 91648},
+																								pos:        position{line: 2905, col: 20, offset: 91756},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 29, offset: 91657},
+																								pos:        position{line: 2905, col: 29, offset: 91765},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
@@ -1959,30 +1959,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 764, col: 5, offset: 24425},
+																pos: position{line: 768, col: 5, offset: 24533},
 																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
-																	pos: position{line: 764, col: 5, offset: 24425},
+																	pos: position{line: 768, col: 5, offset: 24533},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 764, col: 5, offset: 24425},
+																			pos:   position{line: 768, col: 5, offset: 24533},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 764, col: 16, offset: 24436},
+																				pos: position{line: 768, col: 16, offset: 24544},
 																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
-																					pos: position{line: 764, col: 16, offset: 24436},
+																					pos: position{line: 768, col: 16, offset: 24544},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 764, col: 16, offset: 24436},
+																							pos:        position{line: 768, col: 16, offset: 24544},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 764, col: 22, offset: 24442},
+																							pos: position{line: 768, col: 22, offset: 24550},
 																							expr: &litMatcher{
-																								pos:        position{line: 764, col: 22, offset: 24442},
+																								pos:        position{line: 768, col: 22, offset: 24550},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -1993,12 +1993,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 766, col: 8, offset: 24526},
+																			pos: position{line: 770, col: 8, offset: 24634},
 																			expr: &actionExpr{
-																				pos: position{line: 2892, col: 10, offset: 91469},
+																				pos: position{line: 2896, col: 10, offset: 91577},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2892, col: 10, offset: 91469},
+																					pos:        position{line: 2896, col: 10, offset: 91577},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2914, col: 8, offset: 91867},
+																			pos: position{line: 2918, col: 8, offset: 91975},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2901, col: 12, offset: 91640},
+																					pos: position{line: 2905, col: 12, offset: 91748},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2901, col: 13, offset: 91641},
+																						pos: position{line: 2905, col: 13, offset: 91749},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 13, offset: 91641},
+																								pos:        position{line: 2905, col: 13, offset: 91749},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 20, offset: 91648},
+																								pos:        position{line: 2905, col: 20, offset: 91756},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 29, offset: 91657},
+																								pos:        position{line: 2905, col: 29, offset: 91765},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
@@ -2048,30 +2048,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 779, col: 5, offset: 24962},
+																pos: position{line: 783, col: 5, offset: 25070},
 																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
-																	pos: position{line: 779, col: 5, offset: 24962},
+																	pos: position{line: 783, col: 5, offset: 25070},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 779, col: 5, offset: 24962},
+																			pos:   position{line: 783, col: 5, offset: 25070},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 779, col: 16, offset: 24973},
+																				pos: position{line: 783, col: 16, offset: 25081},
 																				run: (*parser).callonDocumentRawLine418,
 																				expr: &seqExpr{
-																					pos: position{line: 779, col: 16, offset: 24973},
+																					pos: position{line: 783, col: 16, offset: 25081},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 779, col: 16, offset: 24973},
+																							pos:        position{line: 783, col: 16, offset: 25081},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 779, col: 23, offset: 24980},
+																							pos: position{line: 783, col: 23, offset: 25088},
 																							expr: &litMatcher{
-																								pos:        position{line: 779, col: 23, offset: 24980},
+																								pos:        position{line: 783, col: 23, offset: 25088},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2082,12 +2082,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 781, col: 8, offset: 25064},
+																			pos: position{line: 785, col: 8, offset: 25172},
 																			expr: &actionExpr{
-																				pos: position{line: 2892, col: 10, offset: 91469},
+																				pos: position{line: 2896, col: 10, offset: 91577},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2892, col: 10, offset: 91469},
+																					pos:        position{line: 2896, col: 10, offset: 91577},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2914, col: 8, offset: 91867},
+																			pos: position{line: 2918, col: 8, offset: 91975},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2901, col: 12, offset: 91640},
+																					pos: position{line: 2905, col: 12, offset: 91748},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2901, col: 13, offset: 91641},
+																						pos: position{line: 2905, col: 13, offset: 91749},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 13, offset: 91641},
+																								pos:        position{line: 2905, col: 13, offset: 91749},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 20, offset: 91648},
+																								pos:        position{line: 2905, col: 20, offset: 91756},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 29, offset: 91657},
+																								pos:        position{line: 2905, col: 29, offset: 91765},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
@@ -2137,30 +2137,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 793, col: 5, offset: 25438},
+																pos: position{line: 797, col: 5, offset: 25546},
 																run: (*parser).callonDocumentRawLine434,
 																expr: &seqExpr{
-																	pos: position{line: 793, col: 5, offset: 25438},
+																	pos: position{line: 797, col: 5, offset: 25546},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 793, col: 5, offset: 25438},
+																			pos:   position{line: 797, col: 5, offset: 25546},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 793, col: 16, offset: 25449},
+																				pos: position{line: 797, col: 16, offset: 25557},
 																				run: (*parser).callonDocumentRawLine437,
 																				expr: &seqExpr{
-																					pos: position{line: 793, col: 16, offset: 25449},
+																					pos: position{line: 797, col: 16, offset: 25557},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 793, col: 16, offset: 25449},
+																							pos:        position{line: 797, col: 16, offset: 25557},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 793, col: 23, offset: 25456},
+																							pos: position{line: 797, col: 23, offset: 25564},
 																							expr: &litMatcher{
-																								pos:        position{line: 793, col: 23, offset: 25456},
+																								pos:        position{line: 797, col: 23, offset: 25564},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2171,12 +2171,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 795, col: 8, offset: 25540},
+																			pos: position{line: 799, col: 8, offset: 25648},
 																			expr: &actionExpr{
-																				pos: position{line: 2892, col: 10, offset: 91469},
+																				pos: position{line: 2896, col: 10, offset: 91577},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2892, col: 10, offset: 91469},
+																					pos:        position{line: 2896, col: 10, offset: 91577},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2914, col: 8, offset: 91867},
+																			pos: position{line: 2918, col: 8, offset: 91975},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2901, col: 12, offset: 91640},
+																					pos: position{line: 2905, col: 12, offset: 91748},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2901, col: 13, offset: 91641},
+																						pos: position{line: 2905, col: 13, offset: 91749},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 13, offset: 91641},
+																								pos:        position{line: 2905, col: 13, offset: 91749},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 20, offset: 91648},
+																								pos:        position{line: 2905, col: 20, offset: 91756},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 29, offset: 91657},
+																								pos:        position{line: 2905, col: 29, offset: 91765},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
@@ -2226,30 +2226,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 800, col: 5, offset: 25690},
+																pos: position{line: 804, col: 5, offset: 25798},
 																run: (*parser).callonDocumentRawLine453,
 																expr: &seqExpr{
-																	pos: position{line: 800, col: 5, offset: 25690},
+																	pos: position{line: 804, col: 5, offset: 25798},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 800, col: 5, offset: 25690},
+																			pos:   position{line: 804, col: 5, offset: 25798},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 800, col: 16, offset: 25701},
+																				pos: position{line: 804, col: 16, offset: 25809},
 																				run: (*parser).callonDocumentRawLine456,
 																				expr: &seqExpr{
-																					pos: position{line: 800, col: 16, offset: 25701},
+																					pos: position{line: 804, col: 16, offset: 25809},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 800, col: 16, offset: 25701},
+																							pos:        position{line: 804, col: 16, offset: 25809},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 800, col: 23, offset: 25708},
+																							pos: position{line: 804, col: 23, offset: 25816},
 																							expr: &litMatcher{
-																								pos:        position{line: 800, col: 23, offset: 25708},
+																								pos:        position{line: 804, col: 23, offset: 25816},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2260,12 +2260,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 802, col: 8, offset: 25792},
+																			pos: position{line: 806, col: 8, offset: 25900},
 																			expr: &actionExpr{
-																				pos: position{line: 2892, col: 10, offset: 91469},
+																				pos: position{line: 2896, col: 10, offset: 91577},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2892, col: 10, offset: 91469},
+																					pos:        position{line: 2896, col: 10, offset: 91577},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2914, col: 8, offset: 91867},
+																			pos: position{line: 2918, col: 8, offset: 91975},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2901, col: 12, offset: 91640},
+																					pos: position{line: 2905, col: 12, offset: 91748},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2901, col: 13, offset: 91641},
+																						pos: position{line: 2905, col: 13, offset: 91749},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 13, offset: 91641},
+																								pos:        position{line: 2905, col: 13, offset: 91749},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 20, offset: 91648},
+																								pos:        position{line: 2905, col: 20, offset: 91756},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 29, offset: 91657},
+																								pos:        position{line: 2905, col: 29, offset: 91765},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
@@ -2315,30 +2315,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 807, col: 5, offset: 25940},
+																pos: position{line: 811, col: 5, offset: 26048},
 																run: (*parser).callonDocumentRawLine472,
 																expr: &seqExpr{
-																	pos: position{line: 807, col: 5, offset: 25940},
+																	pos: position{line: 811, col: 5, offset: 26048},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 807, col: 5, offset: 25940},
+																			pos:   position{line: 811, col: 5, offset: 26048},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 807, col: 16, offset: 25951},
+																				pos: position{line: 811, col: 16, offset: 26059},
 																				run: (*parser).callonDocumentRawLine475,
 																				expr: &seqExpr{
-																					pos: position{line: 807, col: 16, offset: 25951},
+																					pos: position{line: 811, col: 16, offset: 26059},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 807, col: 16, offset: 25951},
+																							pos:        position{line: 811, col: 16, offset: 26059},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 807, col: 23, offset: 25958},
+																							pos: position{line: 811, col: 23, offset: 26066},
 																							expr: &litMatcher{
-																								pos:        position{line: 807, col: 23, offset: 25958},
+																								pos:        position{line: 811, col: 23, offset: 26066},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2349,12 +2349,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 809, col: 8, offset: 26042},
+																			pos: position{line: 813, col: 8, offset: 26150},
 																			expr: &actionExpr{
-																				pos: position{line: 2892, col: 10, offset: 91469},
+																				pos: position{line: 2896, col: 10, offset: 91577},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2892, col: 10, offset: 91469},
+																					pos:        position{line: 2896, col: 10, offset: 91577},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2914, col: 8, offset: 91867},
+																			pos: position{line: 2918, col: 8, offset: 91975},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2901, col: 12, offset: 91640},
+																					pos: position{line: 2905, col: 12, offset: 91748},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2901, col: 13, offset: 91641},
+																						pos: position{line: 2905, col: 13, offset: 91749},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 13, offset: 91641},
+																								pos:        position{line: 2905, col: 13, offset: 91749},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 20, offset: 91648},
+																								pos:        position{line: 2905, col: 20, offset: 91756},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 29, offset: 91657},
+																								pos:        position{line: 2905, col: 29, offset: 91765},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
@@ -2404,30 +2404,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 814, col: 5, offset: 26186},
+																pos: position{line: 818, col: 5, offset: 26294},
 																run: (*parser).callonDocumentRawLine491,
 																expr: &seqExpr{
-																	pos: position{line: 814, col: 5, offset: 26186},
+																	pos: position{line: 818, col: 5, offset: 26294},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 814, col: 5, offset: 26186},
+																			pos:   position{line: 818, col: 5, offset: 26294},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 814, col: 16, offset: 26197},
+																				pos: position{line: 818, col: 16, offset: 26305},
 																				run: (*parser).callonDocumentRawLine494,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 16, offset: 26197},
+																					pos: position{line: 818, col: 16, offset: 26305},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 814, col: 16, offset: 26197},
+																							pos:        position{line: 818, col: 16, offset: 26305},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 814, col: 23, offset: 26204},
+																							pos: position{line: 818, col: 23, offset: 26312},
 																							expr: &litMatcher{
-																								pos:        position{line: 814, col: 23, offset: 26204},
+																								pos:        position{line: 818, col: 23, offset: 26312},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2438,12 +2438,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 816, col: 8, offset: 26288},
+																			pos: position{line: 820, col: 8, offset: 26396},
 																			expr: &actionExpr{
-																				pos: position{line: 2892, col: 10, offset: 91469},
+																				pos: position{line: 2896, col: 10, offset: 91577},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2892, col: 10, offset: 91469},
+																					pos:        position{line: 2896, col: 10, offset: 91577},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2914, col: 8, offset: 91867},
+																			pos: position{line: 2918, col: 8, offset: 91975},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2901, col: 12, offset: 91640},
+																					pos: position{line: 2905, col: 12, offset: 91748},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2901, col: 13, offset: 91641},
+																						pos: position{line: 2905, col: 13, offset: 91749},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 13, offset: 91641},
+																								pos:        position{line: 2905, col: 13, offset: 91749},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 20, offset: 91648},
+																								pos:        position{line: 2905, col: 20, offset: 91756},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 29, offset: 91657},
+																								pos:        position{line: 2905, col: 29, offset: 91765},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2896, col: 11, offset: 91530},
+													pos: position{line: 2900, col: 11, offset: 91638},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2896, col: 11, offset: 91530},
+														pos: position{line: 2900, col: 11, offset: 91638},
 														expr: &charClassMatcher{
-															pos:        position{line: 2896, col: 11, offset: 91530},
+															pos:        position{line: 2900, col: 11, offset: 91638},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2842, col: 14, offset: 90062},
+													pos: position{line: 2846, col: 14, offset: 90170},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2842, col: 14, offset: 90062},
+														pos: position{line: 2846, col: 14, offset: 90170},
 														expr: &charClassMatcher{
-															pos:        position{line: 2842, col: 14, offset: 90062},
+															pos:        position{line: 2846, col: 14, offset: 90170},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2911, col: 8, offset: 91817},
+													pos: position{line: 2915, col: 8, offset: 91925},
 													expr: &anyMatcher{
-														line: 2911, col: 9, offset: 91818,
+														line: 2915, col: 9, offset: 91926,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2911, col: 8, offset: 91817},
+							pos: position{line: 2915, col: 8, offset: 91925},
 							expr: &anyMatcher{
-								line: 2911, col: 9, offset: 91818,
+								line: 2915, col: 9, offset: 91926,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2846, col: 17, offset: 90132},
+												pos: position{line: 2850, col: 17, offset: 90240},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2846, col: 17, offset: 90132},
+													pos:   position{line: 2850, col: 17, offset: 90240},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 5, offset: 90586},
+														pos: position{line: 2867, col: 5, offset: 90694},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2863, col: 5, offset: 90586},
+															pos:   position{line: 2867, col: 5, offset: 90694},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2863, col: 14, offset: 90595},
+																pos: position{line: 2867, col: 14, offset: 90703},
 																expr: &choiceExpr{
-																	pos: position{line: 2864, col: 9, offset: 90605},
+																	pos: position{line: 2868, col: 9, offset: 90713},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2864, col: 9, offset: 90605},
+																			pos: position{line: 2868, col: 9, offset: 90713},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2864, col: 9, offset: 90605},
+																				pos: position{line: 2868, col: 9, offset: 90713},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2864, col: 9, offset: 90605},
+																						pos: position{line: 2868, col: 9, offset: 90713},
 																						expr: &litMatcher{
-																							pos:        position{line: 2864, col: 10, offset: 90606},
+																							pos:        position{line: 2868, col: 10, offset: 90714},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2865, col: 9, offset: 90634},
+																						pos: position{line: 2869, col: 9, offset: 90742},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2865, col: 10, offset: 90635},
+																							pos:        position{line: 2869, col: 10, offset: 90743},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2868, col: 11, offset: 90847},
+																			pos: position{line: 2872, col: 11, offset: 90955},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2868, col: 11, offset: 90847},
+																					pos:        position{line: 2872, col: 11, offset: 90955},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2868, col: 19, offset: 90855},
+																					pos: position{line: 2872, col: 19, offset: 90963},
 																					expr: &seqExpr{
-																						pos: position{line: 2868, col: 21, offset: 90857},
+																						pos: position{line: 2872, col: 21, offset: 90965},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2868, col: 21, offset: 90857},
+																								pos: position{line: 2872, col: 21, offset: 90965},
 																								expr: &actionExpr{
-																									pos: position{line: 2892, col: 10, offset: 91469},
+																									pos: position{line: 2896, col: 10, offset: 91577},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 10, offset: 91469},
+																										pos:        position{line: 2896, col: 10, offset: 91577},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2868, col: 28, offset: 90864},
+																								pos: position{line: 2872, col: 28, offset: 90972},
 																								expr: &notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -3045,27 +3045,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1220, col: 23, offset: 37720},
+																			pos: position{line: 1224, col: 23, offset: 37828},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1220, col: 23, offset: 37720},
+																				pos: position{line: 1224, col: 23, offset: 37828},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1218, col: 32, offset: 37688},
+																						pos:        position{line: 1222, col: 32, offset: 37796},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1220, col: 51, offset: 37748},
+																						pos:   position{line: 1224, col: 51, offset: 37856},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1220, col: 56, offset: 37753},
+																							pos: position{line: 1224, col: 56, offset: 37861},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1220, col: 56, offset: 37753},
+																								pos: position{line: 1224, col: 56, offset: 37861},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1220, col: 56, offset: 37753},
+																									pos:        position{line: 1224, col: 56, offset: 37861},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3075,7 +3075,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1218, col: 32, offset: 37688},
+																						pos:        position{line: 1222, col: 32, offset: 37796},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2871, col: 11, offset: 90984},
+																			pos: position{line: 2875, col: 11, offset: 91092},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2871, col: 11, offset: 90984},
+																				pos:        position{line: 2875, col: 11, offset: 91092},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2892, col: 10, offset: 91469},
+								pos: position{line: 2896, col: 10, offset: 91577},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2892, col: 10, offset: 91469},
+									pos:        position{line: 2896, col: 10, offset: 91577},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2914, col: 8, offset: 91867},
+							pos: position{line: 2918, col: 8, offset: 91975},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2901, col: 12, offset: 91640},
+									pos: position{line: 2905, col: 12, offset: 91748},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2901, col: 13, offset: 91641},
+										pos: position{line: 2905, col: 13, offset: 91749},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2901, col: 13, offset: 91641},
+												pos:        position{line: 2905, col: 13, offset: 91749},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2901, col: 20, offset: 91648},
+												pos:        position{line: 2905, col: 20, offset: 91756},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2901, col: 29, offset: 91657},
+												pos:        position{line: 2905, col: 29, offset: 91765},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2911, col: 8, offset: 91817},
+									pos: position{line: 2915, col: 8, offset: 91925},
 									expr: &anyMatcher{
-										line: 2911, col: 9, offset: 91818,
+										line: 2915, col: 9, offset: 91926,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2884, col: 12, offset: 91296},
+																				pos: position{line: 2888, col: 12, offset: 91404},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2884, col: 13, offset: 91297},
+																					pos: position{line: 2888, col: 13, offset: 91405},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2884, col: 13, offset: 91297},
+																							pos: position{line: 2888, col: 13, offset: 91405},
 																							expr: &litMatcher{
-																								pos:        position{line: 2884, col: 13, offset: 91297},
+																								pos:        position{line: 2888, col: 13, offset: 91405},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2884, col: 18, offset: 91302},
+																							pos: position{line: 2888, col: 18, offset: 91410},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2884, col: 18, offset: 91302},
+																								pos:        position{line: 2888, col: 18, offset: 91410},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2884, col: 12, offset: 91296},
+																				pos: position{line: 2888, col: 12, offset: 91404},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2884, col: 13, offset: 91297},
+																					pos: position{line: 2888, col: 13, offset: 91405},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2884, col: 13, offset: 91297},
+																							pos: position{line: 2888, col: 13, offset: 91405},
 																							expr: &litMatcher{
-																								pos:        position{line: 2884, col: 13, offset: 91297},
+																								pos:        position{line: 2888, col: 13, offset: 91405},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2884, col: 18, offset: 91302},
+																							pos: position{line: 2888, col: 18, offset: 91410},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2884, col: 18, offset: 91302},
+																								pos:        position{line: 2888, col: 18, offset: 91410},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2884, col: 12, offset: 91296},
+																		pos: position{line: 2888, col: 12, offset: 91404},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2884, col: 13, offset: 91297},
+																			pos: position{line: 2888, col: 13, offset: 91405},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2884, col: 13, offset: 91297},
+																					pos: position{line: 2888, col: 13, offset: 91405},
 																					expr: &litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91297},
+																						pos:        position{line: 2888, col: 13, offset: 91405},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2884, col: 18, offset: 91302},
+																					pos: position{line: 2888, col: 18, offset: 91410},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2884, col: 18, offset: 91302},
+																						pos:        position{line: 2888, col: 18, offset: 91410},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91296},
+																									pos: position{line: 2888, col: 12, offset: 91404},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2884, col: 13, offset: 91297},
+																										pos: position{line: 2888, col: 13, offset: 91405},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2884, col: 13, offset: 91297},
+																												pos: position{line: 2888, col: 13, offset: 91405},
 																												expr: &litMatcher{
-																													pos:        position{line: 2884, col: 13, offset: 91297},
+																													pos:        position{line: 2888, col: 13, offset: 91405},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2884, col: 18, offset: 91302},
+																												pos: position{line: 2888, col: 18, offset: 91410},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2884, col: 18, offset: 91302},
+																													pos:        position{line: 2888, col: 18, offset: 91410},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2884, col: 12, offset: 91296},
+																									pos: position{line: 2888, col: 12, offset: 91404},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2884, col: 13, offset: 91297},
+																										pos: position{line: 2888, col: 13, offset: 91405},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2884, col: 13, offset: 91297},
+																												pos: position{line: 2888, col: 13, offset: 91405},
 																												expr: &litMatcher{
-																													pos:        position{line: 2884, col: 13, offset: 91297},
+																													pos:        position{line: 2888, col: 13, offset: 91405},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2884, col: 18, offset: 91302},
+																												pos: position{line: 2888, col: 18, offset: 91410},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2884, col: 18, offset: 91302},
+																													pos:        position{line: 2888, col: 18, offset: 91410},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2884, col: 12, offset: 91296},
+																							pos: position{line: 2888, col: 12, offset: 91404},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2884, col: 13, offset: 91297},
+																								pos: position{line: 2888, col: 13, offset: 91405},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2884, col: 13, offset: 91297},
+																										pos: position{line: 2888, col: 13, offset: 91405},
 																										expr: &litMatcher{
-																											pos:        position{line: 2884, col: 13, offset: 91297},
+																											pos:        position{line: 2888, col: 13, offset: 91405},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2884, col: 18, offset: 91302},
+																										pos: position{line: 2888, col: 18, offset: 91410},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2884, col: 18, offset: 91302},
+																											pos:        position{line: 2888, col: 18, offset: 91410},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2884, col: 12, offset: 91296},
+														pos: position{line: 2888, col: 12, offset: 91404},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2884, col: 13, offset: 91297},
+															pos: position{line: 2888, col: 13, offset: 91405},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2884, col: 13, offset: 91297},
+																	pos: position{line: 2888, col: 13, offset: 91405},
 																	expr: &litMatcher{
-																		pos:        position{line: 2884, col: 13, offset: 91297},
+																		pos:        position{line: 2888, col: 13, offset: 91405},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2884, col: 18, offset: 91302},
+																	pos: position{line: 2888, col: 18, offset: 91410},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2884, col: 18, offset: 91302},
+																		pos:        position{line: 2888, col: 18, offset: 91410},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2884, col: 12, offset: 91296},
+														pos: position{line: 2888, col: 12, offset: 91404},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2884, col: 13, offset: 91297},
+															pos: position{line: 2888, col: 13, offset: 91405},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2884, col: 13, offset: 91297},
+																	pos: position{line: 2888, col: 13, offset: 91405},
 																	expr: &litMatcher{
-																		pos:        position{line: 2884, col: 13, offset: 91297},
+																		pos:        position{line: 2888, col: 13, offset: 91405},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2884, col: 18, offset: 91302},
+																	pos: position{line: 2888, col: 18, offset: 91410},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2884, col: 18, offset: 91302},
+																		pos:        position{line: 2888, col: 18, offset: 91410},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2884, col: 12, offset: 91296},
+												pos: position{line: 2888, col: 12, offset: 91404},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2884, col: 13, offset: 91297},
+													pos: position{line: 2888, col: 13, offset: 91405},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2884, col: 13, offset: 91297},
+															pos: position{line: 2888, col: 13, offset: 91405},
 															expr: &litMatcher{
-																pos:        position{line: 2884, col: 13, offset: 91297},
+																pos:        position{line: 2888, col: 13, offset: 91405},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2884, col: 18, offset: 91302},
+															pos: position{line: 2888, col: 18, offset: 91410},
 															expr: &charClassMatcher{
-																pos:        position{line: 2884, col: 18, offset: 91302},
+																pos:        position{line: 2888, col: 18, offset: 91410},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2911, col: 8, offset: 91817},
+							pos: position{line: 2915, col: 8, offset: 91925},
 							expr: &anyMatcher{
-								line: 2911, col: 9, offset: 91818,
+								line: 2915, col: 9, offset: 91926,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2786, col: 14, offset: 88638},
+																		pos: position{line: 2790, col: 14, offset: 88746},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2786, col: 14, offset: 88638},
+																			pos: position{line: 2790, col: 14, offset: 88746},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2786, col: 14, offset: 88638},
+																				pos:        position{line: 2790, col: 14, offset: 88746},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2786, col: 14, offset: 88638},
+																				pos: position{line: 2790, col: 14, offset: 88746},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2786, col: 14, offset: 88638},
+																					pos: position{line: 2790, col: 14, offset: 88746},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2786, col: 14, offset: 88638},
+																						pos:        position{line: 2790, col: 14, offset: 88746},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2786, col: 14, offset: 88638},
+																							pos: position{line: 2790, col: 14, offset: 88746},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2786, col: 14, offset: 88638},
+																								pos: position{line: 2790, col: 14, offset: 88746},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2786, col: 14, offset: 88638},
+																									pos:        position{line: 2790, col: 14, offset: 88746},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2786, col: 14, offset: 88638},
+																									pos: position{line: 2790, col: 14, offset: 88746},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2786, col: 14, offset: 88638},
+																										pos: position{line: 2790, col: 14, offset: 88746},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2786, col: 14, offset: 88638},
+																											pos:        position{line: 2790, col: 14, offset: 88746},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2911, col: 8, offset: 91817},
+							pos: position{line: 2915, col: 8, offset: 91925},
 							expr: &anyMatcher{
-								line: 2911, col: 9, offset: 91818,
+								line: 2915, col: 9, offset: 91926,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2786, col: 14, offset: 88638},
+																pos: position{line: 2790, col: 14, offset: 88746},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2786, col: 14, offset: 88638},
+																	pos: position{line: 2790, col: 14, offset: 88746},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2786, col: 14, offset: 88638},
+																		pos:        position{line: 2790, col: 14, offset: 88746},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2786, col: 14, offset: 88638},
+																pos: position{line: 2790, col: 14, offset: 88746},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2786, col: 14, offset: 88638},
+																	pos: position{line: 2790, col: 14, offset: 88746},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2786, col: 14, offset: 88638},
+																		pos:        position{line: 2790, col: 14, offset: 88746},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2914, col: 8, offset: 91867},
+							pos: position{line: 2918, col: 8, offset: 91975},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2901, col: 12, offset: 91640},
+									pos: position{line: 2905, col: 12, offset: 91748},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2901, col: 13, offset: 91641},
+										pos: position{line: 2905, col: 13, offset: 91749},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2901, col: 13, offset: 91641},
+												pos:        position{line: 2905, col: 13, offset: 91749},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2901, col: 20, offset: 91648},
+												pos:        position{line: 2905, col: 20, offset: 91756},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2901, col: 29, offset: 91657},
+												pos:        position{line: 2905, col: 29, offset: 91765},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2911, col: 8, offset: 91817},
+									pos: position{line: 2915, col: 8, offset: 91925},
 									expr: &anyMatcher{
-										line: 2911, col: 9, offset: 91818,
+										line: 2915, col: 9, offset: 91926,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2909, col: 11, offset: 91803},
+							pos: position{line: 2913, col: 11, offset: 91911},
 							expr: &anyMatcher{
-								line: 2909, col: 13, offset: 91805,
+								line: 2913, col: 13, offset: 91913,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 367, col: 49, offset: 11183},
 														expr: &actionExpr{
-															pos: position{line: 2892, col: 10, offset: 91469},
+															pos: position{line: 2896, col: 10, offset: 91577},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2892, col: 10, offset: 91469},
+																pos:        position{line: 2896, col: 10, offset: 91577},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2914, col: 8, offset: 91867},
+														pos: position{line: 2918, col: 8, offset: 91975},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2901, col: 12, offset: 91640},
+																pos: position{line: 2905, col: 12, offset: 91748},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2901, col: 13, offset: 91641},
+																	pos: position{line: 2905, col: 13, offset: 91749},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 13, offset: 91641},
+																			pos:        position{line: 2905, col: 13, offset: 91749},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 20, offset: 91648},
+																			pos:        position{line: 2905, col: 20, offset: 91756},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 29, offset: 91657},
+																			pos:        position{line: 2905, col: 29, offset: 91765},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2911, col: 8, offset: 91817},
+																pos: position{line: 2915, col: 8, offset: 91925},
 																expr: &anyMatcher{
-																	line: 2911, col: 9, offset: 91818,
+																	line: 2915, col: 9, offset: 91926,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 369, col: 39, offset: 11304},
 														expr: &actionExpr{
-															pos: position{line: 2892, col: 10, offset: 91469},
+															pos: position{line: 2896, col: 10, offset: 91577},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2892, col: 10, offset: 91469},
+																pos:        position{line: 2896, col: 10, offset: 91577},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2914, col: 8, offset: 91867},
+														pos: position{line: 2918, col: 8, offset: 91975},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2901, col: 12, offset: 91640},
+																pos: position{line: 2905, col: 12, offset: 91748},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2901, col: 13, offset: 91641},
+																	pos: position{line: 2905, col: 13, offset: 91749},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 13, offset: 91641},
+																			pos:        position{line: 2905, col: 13, offset: 91749},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 20, offset: 91648},
+																			pos:        position{line: 2905, col: 20, offset: 91756},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 29, offset: 91657},
+																			pos:        position{line: 2905, col: 29, offset: 91765},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2911, col: 8, offset: 91817},
+																pos: position{line: 2915, col: 8, offset: 91925},
 																expr: &anyMatcher{
-																	line: 2911, col: 9, offset: 91818,
+																	line: 2915, col: 9, offset: 91926,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 687, col: 14, offset: 21835},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2909, col: 11, offset: 91803},
+														pos: position{line: 2913, col: 11, offset: 91911},
 														expr: &anyMatcher{
-															line: 2909, col: 13, offset: 91805,
+															line: 2913, col: 13, offset: 91913,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 687, col: 21, offset: 21842},
 														expr: &actionExpr{
-															pos: position{line: 2892, col: 10, offset: 91469},
+															pos: position{line: 2896, col: 10, offset: 91577},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2892, col: 10, offset: 91469},
+																pos:        position{line: 2896, col: 10, offset: 91577},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2914, col: 8, offset: 91867},
+														pos: position{line: 2918, col: 8, offset: 91975},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2901, col: 12, offset: 91640},
+																pos: position{line: 2905, col: 12, offset: 91748},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2901, col: 13, offset: 91641},
+																	pos: position{line: 2905, col: 13, offset: 91749},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 13, offset: 91641},
+																			pos:        position{line: 2905, col: 13, offset: 91749},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 20, offset: 91648},
+																			pos:        position{line: 2905, col: 20, offset: 91756},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 29, offset: 91657},
+																			pos:        position{line: 2905, col: 29, offset: 91765},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2911, col: 8, offset: 91817},
+																pos: position{line: 2915, col: 8, offset: 91925},
 																expr: &anyMatcher{
-																	line: 2911, col: 9, offset: 91818,
+																	line: 2915, col: 9, offset: 91926,
 																},
 															},
 														},
@@ -4411,39 +4411,39 @@ var g = &grammar{
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 830, col: 5, offset: 26670},
+											pos: position{line: 834, col: 5, offset: 26778},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 830, col: 5, offset: 26670},
+												pos: position{line: 834, col: 5, offset: 26778},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 830, col: 5, offset: 26670},
+														pos:   position{line: 834, col: 5, offset: 26778},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 750, col: 5, offset: 23930},
+															pos: position{line: 754, col: 5, offset: 24038},
 															run: (*parser).callonDocumentFragment78,
 															expr: &seqExpr{
-																pos: position{line: 750, col: 5, offset: 23930},
+																pos: position{line: 754, col: 5, offset: 24038},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 750, col: 5, offset: 23930},
+																		pos:   position{line: 754, col: 5, offset: 24038},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 750, col: 16, offset: 23941},
+																			pos: position{line: 754, col: 16, offset: 24049},
 																			run: (*parser).callonDocumentFragment81,
 																			expr: &seqExpr{
-																				pos: position{line: 750, col: 16, offset: 23941},
+																				pos: position{line: 754, col: 16, offset: 24049},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 750, col: 16, offset: 23941},
+																						pos:        position{line: 754, col: 16, offset: 24049},
 																						val:        "////",
 																						ignoreCase: false,
 																						want:       "\"////\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 750, col: 23, offset: 23948},
+																						pos: position{line: 754, col: 23, offset: 24056},
 																						expr: &litMatcher{
-																							pos:        position{line: 750, col: 23, offset: 23948},
+																							pos:        position{line: 754, col: 23, offset: 24056},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -4454,12 +4454,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 752, col: 8, offset: 24032},
+																		pos: position{line: 756, col: 8, offset: 24140},
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 10, offset: 91469},
+																			pos: position{line: 2896, col: 10, offset: 91577},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2892, col: 10, offset: 91469},
+																				pos:        position{line: 2896, col: 10, offset: 91577},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2914, col: 8, offset: 91867},
+																		pos: position{line: 2918, col: 8, offset: 91975},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91640},
+																				pos: position{line: 2905, col: 12, offset: 91748},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2901, col: 13, offset: 91641},
+																					pos: position{line: 2905, col: 13, offset: 91749},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 13, offset: 91641},
+																							pos:        position{line: 2905, col: 13, offset: 91749},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 20, offset: 91648},
+																							pos:        position{line: 2905, col: 20, offset: 91756},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 29, offset: 91657},
+																							pos:        position{line: 2905, col: 29, offset: 91765},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2911, col: 8, offset: 91817},
+																				pos: position{line: 2915, col: 8, offset: 91925},
 																				expr: &anyMatcher{
-																					line: 2911, col: 9, offset: 91818,
+																					line: 2915, col: 9, offset: 91926,
 																				},
 																			},
 																		},
@@ -4510,56 +4510,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 831, col: 5, offset: 26709},
+														pos: position{line: 835, col: 5, offset: 26817},
 														run: (*parser).callonDocumentFragment97,
 													},
 													&labeledExpr{
-														pos:   position{line: 834, col: 5, offset: 26801},
+														pos:   position{line: 838, col: 5, offset: 26909},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 849, col: 5, offset: 27199},
+															pos: position{line: 853, col: 5, offset: 27307},
 															expr: &actionExpr{
-																pos: position{line: 849, col: 6, offset: 27200},
+																pos: position{line: 853, col: 6, offset: 27308},
 																run: (*parser).callonDocumentFragment100,
 																expr: &seqExpr{
-																	pos: position{line: 849, col: 6, offset: 27200},
+																	pos: position{line: 853, col: 6, offset: 27308},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 849, col: 6, offset: 27200},
+																			pos: position{line: 853, col: 6, offset: 27308},
 																			expr: &choiceExpr{
-																				pos: position{line: 842, col: 5, offset: 27041},
+																				pos: position{line: 846, col: 5, offset: 27149},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 842, col: 5, offset: 27041},
+																						pos: position{line: 846, col: 5, offset: 27149},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 842, col: 5, offset: 27041},
+																								pos:   position{line: 846, col: 5, offset: 27149},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 750, col: 5, offset: 23930},
+																									pos: position{line: 754, col: 5, offset: 24038},
 																									run: (*parser).callonDocumentFragment106,
 																									expr: &seqExpr{
-																										pos: position{line: 750, col: 5, offset: 23930},
+																										pos: position{line: 754, col: 5, offset: 24038},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 750, col: 5, offset: 23930},
+																												pos:   position{line: 754, col: 5, offset: 24038},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 750, col: 16, offset: 23941},
+																													pos: position{line: 754, col: 16, offset: 24049},
 																													run: (*parser).callonDocumentFragment109,
 																													expr: &seqExpr{
-																														pos: position{line: 750, col: 16, offset: 23941},
+																														pos: position{line: 754, col: 16, offset: 24049},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 750, col: 16, offset: 23941},
+																																pos:        position{line: 754, col: 16, offset: 24049},
 																																val:        "////",
 																																ignoreCase: false,
 																																want:       "\"////\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 750, col: 23, offset: 23948},
+																																pos: position{line: 754, col: 23, offset: 24056},
 																																expr: &litMatcher{
-																																	pos:        position{line: 750, col: 23, offset: 23948},
+																																	pos:        position{line: 754, col: 23, offset: 24056},
 																																	val:        "/",
 																																	ignoreCase: false,
 																																	want:       "\"/\"",
@@ -4570,12 +4570,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 752, col: 8, offset: 24032},
+																												pos: position{line: 756, col: 8, offset: 24140},
 																												expr: &actionExpr{
-																													pos: position{line: 2892, col: 10, offset: 91469},
+																													pos: position{line: 2896, col: 10, offset: 91577},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2892, col: 10, offset: 91469},
+																														pos:        position{line: 2896, col: 10, offset: 91577},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2914, col: 8, offset: 91867},
+																												pos: position{line: 2918, col: 8, offset: 91975},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2901, col: 12, offset: 91640},
+																														pos: position{line: 2905, col: 12, offset: 91748},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2901, col: 13, offset: 91641},
+																															pos: position{line: 2905, col: 13, offset: 91749},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 13, offset: 91641},
+																																	pos:        position{line: 2905, col: 13, offset: 91749},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 20, offset: 91648},
+																																	pos:        position{line: 2905, col: 20, offset: 91756},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 29, offset: 91657},
+																																	pos:        position{line: 2905, col: 29, offset: 91765},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2911, col: 8, offset: 91817},
+																														pos: position{line: 2915, col: 8, offset: 91925},
 																														expr: &anyMatcher{
-																															line: 2911, col: 9, offset: 91818,
+																															line: 2915, col: 9, offset: 91926,
 																														},
 																													},
 																												},
@@ -4626,45 +4626,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 843, col: 5, offset: 27072},
+																								pos: position{line: 847, col: 5, offset: 27180},
 																								run: (*parser).callonDocumentFragment125,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2911, col: 8, offset: 91817},
+																						pos: position{line: 2915, col: 8, offset: 91925},
 																						expr: &anyMatcher{
-																							line: 2911, col: 9, offset: 91818,
+																							line: 2915, col: 9, offset: 91926,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 850, col: 5, offset: 27230},
+																			pos:   position{line: 854, col: 5, offset: 27338},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 821, col: 5, offset: 26434},
+																				pos: position{line: 825, col: 5, offset: 26542},
 																				run: (*parser).callonDocumentFragment129,
 																				expr: &seqExpr{
-																					pos: position{line: 821, col: 5, offset: 26434},
+																					pos: position{line: 825, col: 5, offset: 26542},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2909, col: 11, offset: 91803},
+																							pos: position{line: 2913, col: 11, offset: 91911},
 																							expr: &anyMatcher{
-																								line: 2909, col: 13, offset: 91805,
+																								line: 2913, col: 13, offset: 91913,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 822, col: 5, offset: 26509},
+																							pos:   position{line: 826, col: 5, offset: 26617},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2838, col: 13, offset: 89995},
+																									pos: position{line: 2842, col: 13, offset: 90103},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2838, col: 13, offset: 89995},
+																										pos:        position{line: 2842, col: 13, offset: 90103},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -4721,44 +4721,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 835, col: 5, offset: 26835},
+														pos:   position{line: 839, col: 5, offset: 26943},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 835, col: 9, offset: 26839},
+															pos: position{line: 839, col: 9, offset: 26947},
 															expr: &choiceExpr{
-																pos: position{line: 842, col: 5, offset: 27041},
+																pos: position{line: 846, col: 5, offset: 27149},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 842, col: 5, offset: 27041},
+																		pos: position{line: 846, col: 5, offset: 27149},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 842, col: 5, offset: 27041},
+																				pos:   position{line: 846, col: 5, offset: 27149},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 750, col: 5, offset: 23930},
+																					pos: position{line: 754, col: 5, offset: 24038},
 																					run: (*parser).callonDocumentFragment150,
 																					expr: &seqExpr{
-																						pos: position{line: 750, col: 5, offset: 23930},
+																						pos: position{line: 754, col: 5, offset: 24038},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 750, col: 5, offset: 23930},
+																								pos:   position{line: 754, col: 5, offset: 24038},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 750, col: 16, offset: 23941},
+																									pos: position{line: 754, col: 16, offset: 24049},
 																									run: (*parser).callonDocumentFragment153,
 																									expr: &seqExpr{
-																										pos: position{line: 750, col: 16, offset: 23941},
+																										pos: position{line: 754, col: 16, offset: 24049},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 750, col: 16, offset: 23941},
+																												pos:        position{line: 754, col: 16, offset: 24049},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 750, col: 23, offset: 23948},
+																												pos: position{line: 754, col: 23, offset: 24056},
 																												expr: &litMatcher{
-																													pos:        position{line: 750, col: 23, offset: 23948},
+																													pos:        position{line: 754, col: 23, offset: 24056},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -4769,12 +4769,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 752, col: 8, offset: 24032},
+																								pos: position{line: 756, col: 8, offset: 24140},
 																								expr: &actionExpr{
-																									pos: position{line: 2892, col: 10, offset: 91469},
+																									pos: position{line: 2896, col: 10, offset: 91577},
 																									run: (*parser).callonDocumentFragment159,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 10, offset: 91469},
+																										pos:        position{line: 2896, col: 10, offset: 91577},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -4783,28 +4783,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2914, col: 8, offset: 91867},
+																								pos: position{line: 2918, col: 8, offset: 91975},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2901, col: 12, offset: 91640},
+																										pos: position{line: 2905, col: 12, offset: 91748},
 																										run: (*parser).callonDocumentFragment162,
 																										expr: &choiceExpr{
-																											pos: position{line: 2901, col: 13, offset: 91641},
+																											pos: position{line: 2905, col: 13, offset: 91749},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 13, offset: 91641},
+																													pos:        position{line: 2905, col: 13, offset: 91749},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 20, offset: 91648},
+																													pos:        position{line: 2905, col: 20, offset: 91756},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 29, offset: 91657},
+																													pos:        position{line: 2905, col: 29, offset: 91765},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -4813,9 +4813,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2911, col: 8, offset: 91817},
+																										pos: position{line: 2915, col: 8, offset: 91925},
 																										expr: &anyMatcher{
-																											line: 2911, col: 9, offset: 91818,
+																											line: 2915, col: 9, offset: 91926,
 																										},
 																									},
 																								},
@@ -4825,15 +4825,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 843, col: 5, offset: 27072},
+																				pos: position{line: 847, col: 5, offset: 27180},
 																				run: (*parser).callonDocumentFragment169,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2911, col: 8, offset: 91817},
+																		pos: position{line: 2915, col: 8, offset: 91925},
 																		expr: &anyMatcher{
-																			line: 2911, col: 9, offset: 91818,
+																			line: 2915, col: 9, offset: 91926,
 																		},
 																	},
 																},
@@ -4844,39 +4844,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 858, col: 5, offset: 27383},
+											pos: position{line: 862, col: 5, offset: 27491},
 											run: (*parser).callonDocumentFragment172,
 											expr: &seqExpr{
-												pos: position{line: 858, col: 5, offset: 27383},
+												pos: position{line: 862, col: 5, offset: 27491},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 858, col: 5, offset: 27383},
+														pos:   position{line: 862, col: 5, offset: 27491},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 757, col: 5, offset: 24178},
+															pos: position{line: 761, col: 5, offset: 24286},
 															run: (*parser).callonDocumentFragment175,
 															expr: &seqExpr{
-																pos: position{line: 757, col: 5, offset: 24178},
+																pos: position{line: 761, col: 5, offset: 24286},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 757, col: 5, offset: 24178},
+																		pos:   position{line: 761, col: 5, offset: 24286},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 757, col: 16, offset: 24189},
+																			pos: position{line: 761, col: 16, offset: 24297},
 																			run: (*parser).callonDocumentFragment178,
 																			expr: &seqExpr{
-																				pos: position{line: 757, col: 16, offset: 24189},
+																				pos: position{line: 761, col: 16, offset: 24297},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 757, col: 16, offset: 24189},
+																						pos:        position{line: 761, col: 16, offset: 24297},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 757, col: 23, offset: 24196},
+																						pos: position{line: 761, col: 23, offset: 24304},
 																						expr: &litMatcher{
-																							pos:        position{line: 757, col: 23, offset: 24196},
+																							pos:        position{line: 761, col: 23, offset: 24304},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -4887,12 +4887,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 759, col: 8, offset: 24280},
+																		pos: position{line: 763, col: 8, offset: 24388},
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 10, offset: 91469},
+																			pos: position{line: 2896, col: 10, offset: 91577},
 																			run: (*parser).callonDocumentFragment184,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2892, col: 10, offset: 91469},
+																				pos:        position{line: 2896, col: 10, offset: 91577},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4901,28 +4901,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2914, col: 8, offset: 91867},
+																		pos: position{line: 2918, col: 8, offset: 91975},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91640},
+																				pos: position{line: 2905, col: 12, offset: 91748},
 																				run: (*parser).callonDocumentFragment187,
 																				expr: &choiceExpr{
-																					pos: position{line: 2901, col: 13, offset: 91641},
+																					pos: position{line: 2905, col: 13, offset: 91749},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 13, offset: 91641},
+																							pos:        position{line: 2905, col: 13, offset: 91749},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 20, offset: 91648},
+																							pos:        position{line: 2905, col: 20, offset: 91756},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 29, offset: 91657},
+																							pos:        position{line: 2905, col: 29, offset: 91765},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4931,9 +4931,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2911, col: 8, offset: 91817},
+																				pos: position{line: 2915, col: 8, offset: 91925},
 																				expr: &anyMatcher{
-																					line: 2911, col: 9, offset: 91818,
+																					line: 2915, col: 9, offset: 91926,
 																				},
 																			},
 																		},
@@ -4943,56 +4943,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 859, col: 5, offset: 27422},
+														pos: position{line: 863, col: 5, offset: 27530},
 														run: (*parser).callonDocumentFragment194,
 													},
 													&labeledExpr{
-														pos:   position{line: 862, col: 5, offset: 27514},
+														pos:   position{line: 866, col: 5, offset: 27622},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 877, col: 4, offset: 27911},
+															pos: position{line: 881, col: 4, offset: 28019},
 															expr: &actionExpr{
-																pos: position{line: 877, col: 5, offset: 27912},
+																pos: position{line: 881, col: 5, offset: 28020},
 																run: (*parser).callonDocumentFragment197,
 																expr: &seqExpr{
-																	pos: position{line: 877, col: 5, offset: 27912},
+																	pos: position{line: 881, col: 5, offset: 28020},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 877, col: 5, offset: 27912},
+																			pos: position{line: 881, col: 5, offset: 28020},
 																			expr: &choiceExpr{
-																				pos: position{line: 870, col: 5, offset: 27754},
+																				pos: position{line: 874, col: 5, offset: 27862},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 870, col: 5, offset: 27754},
+																						pos: position{line: 874, col: 5, offset: 27862},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 870, col: 5, offset: 27754},
+																								pos:   position{line: 874, col: 5, offset: 27862},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 757, col: 5, offset: 24178},
+																									pos: position{line: 761, col: 5, offset: 24286},
 																									run: (*parser).callonDocumentFragment203,
 																									expr: &seqExpr{
-																										pos: position{line: 757, col: 5, offset: 24178},
+																										pos: position{line: 761, col: 5, offset: 24286},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 757, col: 5, offset: 24178},
+																												pos:   position{line: 761, col: 5, offset: 24286},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 757, col: 16, offset: 24189},
+																													pos: position{line: 761, col: 16, offset: 24297},
 																													run: (*parser).callonDocumentFragment206,
 																													expr: &seqExpr{
-																														pos: position{line: 757, col: 16, offset: 24189},
+																														pos: position{line: 761, col: 16, offset: 24297},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 757, col: 16, offset: 24189},
+																																pos:        position{line: 761, col: 16, offset: 24297},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 757, col: 23, offset: 24196},
+																																pos: position{line: 761, col: 23, offset: 24304},
 																																expr: &litMatcher{
-																																	pos:        position{line: 757, col: 23, offset: 24196},
+																																	pos:        position{line: 761, col: 23, offset: 24304},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -5003,12 +5003,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 759, col: 8, offset: 24280},
+																												pos: position{line: 763, col: 8, offset: 24388},
 																												expr: &actionExpr{
-																													pos: position{line: 2892, col: 10, offset: 91469},
+																													pos: position{line: 2896, col: 10, offset: 91577},
 																													run: (*parser).callonDocumentFragment212,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2892, col: 10, offset: 91469},
+																														pos:        position{line: 2896, col: 10, offset: 91577},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5017,28 +5017,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2914, col: 8, offset: 91867},
+																												pos: position{line: 2918, col: 8, offset: 91975},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2901, col: 12, offset: 91640},
+																														pos: position{line: 2905, col: 12, offset: 91748},
 																														run: (*parser).callonDocumentFragment215,
 																														expr: &choiceExpr{
-																															pos: position{line: 2901, col: 13, offset: 91641},
+																															pos: position{line: 2905, col: 13, offset: 91749},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 13, offset: 91641},
+																																	pos:        position{line: 2905, col: 13, offset: 91749},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 20, offset: 91648},
+																																	pos:        position{line: 2905, col: 20, offset: 91756},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 29, offset: 91657},
+																																	pos:        position{line: 2905, col: 29, offset: 91765},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5047,9 +5047,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2911, col: 8, offset: 91817},
+																														pos: position{line: 2915, col: 8, offset: 91925},
 																														expr: &anyMatcher{
-																															line: 2911, col: 9, offset: 91818,
+																															line: 2915, col: 9, offset: 91926,
 																														},
 																													},
 																												},
@@ -5059,45 +5059,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 871, col: 5, offset: 27785},
+																								pos: position{line: 875, col: 5, offset: 27893},
 																								run: (*parser).callonDocumentFragment222,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2911, col: 8, offset: 91817},
+																						pos: position{line: 2915, col: 8, offset: 91925},
 																						expr: &anyMatcher{
-																							line: 2911, col: 9, offset: 91818,
+																							line: 2915, col: 9, offset: 91926,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 878, col: 5, offset: 27942},
+																			pos:   position{line: 882, col: 5, offset: 28050},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 821, col: 5, offset: 26434},
+																				pos: position{line: 825, col: 5, offset: 26542},
 																				run: (*parser).callonDocumentFragment226,
 																				expr: &seqExpr{
-																					pos: position{line: 821, col: 5, offset: 26434},
+																					pos: position{line: 825, col: 5, offset: 26542},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2909, col: 11, offset: 91803},
+																							pos: position{line: 2913, col: 11, offset: 91911},
 																							expr: &anyMatcher{
-																								line: 2909, col: 13, offset: 91805,
+																								line: 2913, col: 13, offset: 91913,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 822, col: 5, offset: 26509},
+																							pos:   position{line: 826, col: 5, offset: 26617},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								run: (*parser).callonDocumentFragment231,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2838, col: 13, offset: 89995},
+																									pos: position{line: 2842, col: 13, offset: 90103},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2838, col: 13, offset: 89995},
+																										pos:        position{line: 2842, col: 13, offset: 90103},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5107,28 +5107,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonDocumentFragment235,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5137,9 +5137,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -5154,44 +5154,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 863, col: 5, offset: 27548},
+														pos:   position{line: 867, col: 5, offset: 27656},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 863, col: 9, offset: 27552},
+															pos: position{line: 867, col: 9, offset: 27660},
 															expr: &choiceExpr{
-																pos: position{line: 870, col: 5, offset: 27754},
+																pos: position{line: 874, col: 5, offset: 27862},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 870, col: 5, offset: 27754},
+																		pos: position{line: 874, col: 5, offset: 27862},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 870, col: 5, offset: 27754},
+																				pos:   position{line: 874, col: 5, offset: 27862},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 757, col: 5, offset: 24178},
+																					pos: position{line: 761, col: 5, offset: 24286},
 																					run: (*parser).callonDocumentFragment247,
 																					expr: &seqExpr{
-																						pos: position{line: 757, col: 5, offset: 24178},
+																						pos: position{line: 761, col: 5, offset: 24286},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 757, col: 5, offset: 24178},
+																								pos:   position{line: 761, col: 5, offset: 24286},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 757, col: 16, offset: 24189},
+																									pos: position{line: 761, col: 16, offset: 24297},
 																									run: (*parser).callonDocumentFragment250,
 																									expr: &seqExpr{
-																										pos: position{line: 757, col: 16, offset: 24189},
+																										pos: position{line: 761, col: 16, offset: 24297},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 757, col: 16, offset: 24189},
+																												pos:        position{line: 761, col: 16, offset: 24297},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 757, col: 23, offset: 24196},
+																												pos: position{line: 761, col: 23, offset: 24304},
 																												expr: &litMatcher{
-																													pos:        position{line: 757, col: 23, offset: 24196},
+																													pos:        position{line: 761, col: 23, offset: 24304},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5202,12 +5202,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 759, col: 8, offset: 24280},
+																								pos: position{line: 763, col: 8, offset: 24388},
 																								expr: &actionExpr{
-																									pos: position{line: 2892, col: 10, offset: 91469},
+																									pos: position{line: 2896, col: 10, offset: 91577},
 																									run: (*parser).callonDocumentFragment256,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 10, offset: 91469},
+																										pos:        position{line: 2896, col: 10, offset: 91577},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5216,28 +5216,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2914, col: 8, offset: 91867},
+																								pos: position{line: 2918, col: 8, offset: 91975},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2901, col: 12, offset: 91640},
+																										pos: position{line: 2905, col: 12, offset: 91748},
 																										run: (*parser).callonDocumentFragment259,
 																										expr: &choiceExpr{
-																											pos: position{line: 2901, col: 13, offset: 91641},
+																											pos: position{line: 2905, col: 13, offset: 91749},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 13, offset: 91641},
+																													pos:        position{line: 2905, col: 13, offset: 91749},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 20, offset: 91648},
+																													pos:        position{line: 2905, col: 20, offset: 91756},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 29, offset: 91657},
+																													pos:        position{line: 2905, col: 29, offset: 91765},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5246,9 +5246,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2911, col: 8, offset: 91817},
+																										pos: position{line: 2915, col: 8, offset: 91925},
 																										expr: &anyMatcher{
-																											line: 2911, col: 9, offset: 91818,
+																											line: 2915, col: 9, offset: 91926,
 																										},
 																									},
 																								},
@@ -5258,15 +5258,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 871, col: 5, offset: 27785},
+																				pos: position{line: 875, col: 5, offset: 27893},
 																				run: (*parser).callonDocumentFragment266,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2911, col: 8, offset: 91817},
+																		pos: position{line: 2915, col: 8, offset: 91925},
 																		expr: &anyMatcher{
-																			line: 2911, col: 9, offset: 91818,
+																			line: 2915, col: 9, offset: 91926,
 																		},
 																	},
 																},
@@ -5277,36 +5277,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 970, col: 5, offset: 30234},
+											pos: position{line: 974, col: 5, offset: 30342},
 											run: (*parser).callonDocumentFragment269,
 											expr: &seqExpr{
-												pos: position{line: 970, col: 5, offset: 30234},
+												pos: position{line: 974, col: 5, offset: 30342},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 970, col: 5, offset: 30234},
+														pos:   position{line: 974, col: 5, offset: 30342},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 770, col: 26, offset: 24666},
+															pos: position{line: 774, col: 26, offset: 24774},
 															run: (*parser).callonDocumentFragment272,
 															expr: &seqExpr{
-																pos: position{line: 770, col: 26, offset: 24666},
+																pos: position{line: 774, col: 26, offset: 24774},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 770, col: 26, offset: 24666},
+																		pos:        position{line: 774, col: 26, offset: 24774},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 770, col: 32, offset: 24672},
+																		pos:   position{line: 774, col: 32, offset: 24780},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 774, col: 13, offset: 24802},
+																			pos: position{line: 778, col: 13, offset: 24910},
 																			run: (*parser).callonDocumentFragment276,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 774, col: 14, offset: 24803},
+																				pos: position{line: 778, col: 14, offset: 24911},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 774, col: 14, offset: 24803},
+																					pos:        position{line: 778, col: 14, offset: 24911},
 																					val:        "[^\\r\\n` ]",
 																					chars:      []rune{'\r', '\n', '`', ' '},
 																					ignoreCase: false,
@@ -5316,12 +5316,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 770, col: 52, offset: 24692},
+																		pos: position{line: 774, col: 52, offset: 24800},
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 10, offset: 91469},
+																			pos: position{line: 2896, col: 10, offset: 91577},
 																			run: (*parser).callonDocumentFragment280,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2892, col: 10, offset: 91469},
+																				pos:        position{line: 2896, col: 10, offset: 91577},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5330,28 +5330,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2914, col: 8, offset: 91867},
+																		pos: position{line: 2918, col: 8, offset: 91975},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91640},
+																				pos: position{line: 2905, col: 12, offset: 91748},
 																				run: (*parser).callonDocumentFragment283,
 																				expr: &choiceExpr{
-																					pos: position{line: 2901, col: 13, offset: 91641},
+																					pos: position{line: 2905, col: 13, offset: 91749},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 13, offset: 91641},
+																							pos:        position{line: 2905, col: 13, offset: 91749},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 20, offset: 91648},
+																							pos:        position{line: 2905, col: 20, offset: 91756},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 29, offset: 91657},
+																							pos:        position{line: 2905, col: 29, offset: 91765},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5360,9 +5360,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2911, col: 8, offset: 91817},
+																				pos: position{line: 2915, col: 8, offset: 91925},
 																				expr: &anyMatcher{
-																					line: 2911, col: 9, offset: 91818,
+																					line: 2915, col: 9, offset: 91926,
 																				},
 																			},
 																		},
@@ -5372,34 +5372,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 971, col: 5, offset: 30280},
+														pos:   position{line: 975, col: 5, offset: 30388},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 984, col: 5, offset: 30753},
+															pos: position{line: 988, col: 5, offset: 30861},
 															expr: &actionExpr{
-																pos: position{line: 984, col: 6, offset: 30754},
+																pos: position{line: 988, col: 6, offset: 30862},
 																run: (*parser).callonDocumentFragment292,
 																expr: &seqExpr{
-																	pos: position{line: 984, col: 6, offset: 30754},
+																	pos: position{line: 988, col: 6, offset: 30862},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 984, col: 6, offset: 30754},
+																			pos: position{line: 988, col: 6, offset: 30862},
 																			expr: &seqExpr{
-																				pos: position{line: 981, col: 34, offset: 30701},
+																				pos: position{line: 985, col: 34, offset: 30809},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 981, col: 34, offset: 30701},
+																						pos:        position{line: 985, col: 34, offset: 30809},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 981, col: 40, offset: 30707},
+																						pos: position{line: 985, col: 40, offset: 30815},
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 10, offset: 91469},
+																							pos: position{line: 2896, col: 10, offset: 91577},
 																							run: (*parser).callonDocumentFragment298,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2892, col: 10, offset: 91469},
+																								pos:        position{line: 2896, col: 10, offset: 91577},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5408,28 +5408,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2914, col: 8, offset: 91867},
+																						pos: position{line: 2918, col: 8, offset: 91975},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2901, col: 12, offset: 91640},
+																								pos: position{line: 2905, col: 12, offset: 91748},
 																								run: (*parser).callonDocumentFragment301,
 																								expr: &choiceExpr{
-																									pos: position{line: 2901, col: 13, offset: 91641},
+																									pos: position{line: 2905, col: 13, offset: 91749},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91641},
+																											pos:        position{line: 2905, col: 13, offset: 91749},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 20, offset: 91648},
+																											pos:        position{line: 2905, col: 20, offset: 91756},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 29, offset: 91657},
+																											pos:        position{line: 2905, col: 29, offset: 91765},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5438,9 +5438,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 8, offset: 91817},
+																								pos: position{line: 2915, col: 8, offset: 91925},
 																								expr: &anyMatcher{
-																									line: 2911, col: 9, offset: 91818,
+																									line: 2915, col: 9, offset: 91926,
 																								},
 																							},
 																						},
@@ -5449,30 +5449,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 985, col: 5, offset: 30789},
+																			pos:   position{line: 989, col: 5, offset: 30897},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 821, col: 5, offset: 26434},
+																				pos: position{line: 825, col: 5, offset: 26542},
 																				run: (*parser).callonDocumentFragment309,
 																				expr: &seqExpr{
-																					pos: position{line: 821, col: 5, offset: 26434},
+																					pos: position{line: 825, col: 5, offset: 26542},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2909, col: 11, offset: 91803},
+																							pos: position{line: 2913, col: 11, offset: 91911},
 																							expr: &anyMatcher{
-																								line: 2909, col: 13, offset: 91805,
+																								line: 2913, col: 13, offset: 91913,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 822, col: 5, offset: 26509},
+																							pos:   position{line: 826, col: 5, offset: 26617},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								run: (*parser).callonDocumentFragment314,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2838, col: 13, offset: 89995},
+																									pos: position{line: 2842, col: 13, offset: 90103},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2838, col: 13, offset: 89995},
+																										pos:        position{line: 2842, col: 13, offset: 90103},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5482,28 +5482,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonDocumentFragment318,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5512,9 +5512,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -5529,23 +5529,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 972, col: 5, offset: 30319},
+														pos: position{line: 976, col: 5, offset: 30427},
 														expr: &seqExpr{
-															pos: position{line: 981, col: 34, offset: 30701},
+															pos: position{line: 985, col: 34, offset: 30809},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 981, col: 34, offset: 30701},
+																	pos:        position{line: 985, col: 34, offset: 30809},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 981, col: 40, offset: 30707},
+																	pos: position{line: 985, col: 40, offset: 30815},
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 10, offset: 91469},
+																		pos: position{line: 2896, col: 10, offset: 91577},
 																		run: (*parser).callonDocumentFragment329,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 10, offset: 91469},
+																			pos:        position{line: 2896, col: 10, offset: 91577},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5554,28 +5554,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonDocumentFragment332,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5584,9 +5584,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -5598,39 +5598,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 886, col: 5, offset: 28095},
+											pos: position{line: 890, col: 5, offset: 28203},
 											run: (*parser).callonDocumentFragment339,
 											expr: &seqExpr{
-												pos: position{line: 886, col: 5, offset: 28095},
+												pos: position{line: 890, col: 5, offset: 28203},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 886, col: 5, offset: 28095},
+														pos:   position{line: 890, col: 5, offset: 28203},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 764, col: 5, offset: 24425},
+															pos: position{line: 768, col: 5, offset: 24533},
 															run: (*parser).callonDocumentFragment342,
 															expr: &seqExpr{
-																pos: position{line: 764, col: 5, offset: 24425},
+																pos: position{line: 768, col: 5, offset: 24533},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 764, col: 5, offset: 24425},
+																		pos:   position{line: 768, col: 5, offset: 24533},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 764, col: 16, offset: 24436},
+																			pos: position{line: 768, col: 16, offset: 24544},
 																			run: (*parser).callonDocumentFragment345,
 																			expr: &seqExpr{
-																				pos: position{line: 764, col: 16, offset: 24436},
+																				pos: position{line: 768, col: 16, offset: 24544},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 764, col: 16, offset: 24436},
+																						pos:        position{line: 768, col: 16, offset: 24544},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 764, col: 22, offset: 24442},
+																						pos: position{line: 768, col: 22, offset: 24550},
 																						expr: &litMatcher{
-																							pos:        position{line: 764, col: 22, offset: 24442},
+																							pos:        position{line: 768, col: 22, offset: 24550},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5641,12 +5641,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 766, col: 8, offset: 24526},
+																		pos: position{line: 770, col: 8, offset: 24634},
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 10, offset: 91469},
+																			pos: position{line: 2896, col: 10, offset: 91577},
 																			run: (*parser).callonDocumentFragment351,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2892, col: 10, offset: 91469},
+																				pos:        position{line: 2896, col: 10, offset: 91577},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5655,28 +5655,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2914, col: 8, offset: 91867},
+																		pos: position{line: 2918, col: 8, offset: 91975},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91640},
+																				pos: position{line: 2905, col: 12, offset: 91748},
 																				run: (*parser).callonDocumentFragment354,
 																				expr: &choiceExpr{
-																					pos: position{line: 2901, col: 13, offset: 91641},
+																					pos: position{line: 2905, col: 13, offset: 91749},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 13, offset: 91641},
+																							pos:        position{line: 2905, col: 13, offset: 91749},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 20, offset: 91648},
+																							pos:        position{line: 2905, col: 20, offset: 91756},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 29, offset: 91657},
+																							pos:        position{line: 2905, col: 29, offset: 91765},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5685,9 +5685,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2911, col: 8, offset: 91817},
+																				pos: position{line: 2915, col: 8, offset: 91925},
 																				expr: &anyMatcher{
-																					line: 2911, col: 9, offset: 91818,
+																					line: 2915, col: 9, offset: 91926,
 																				},
 																			},
 																		},
@@ -5697,56 +5697,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 887, col: 5, offset: 28133},
+														pos: position{line: 891, col: 5, offset: 28241},
 														run: (*parser).callonDocumentFragment361,
 													},
 													&labeledExpr{
-														pos:   position{line: 890, col: 5, offset: 28225},
+														pos:   position{line: 894, col: 5, offset: 28333},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 905, col: 5, offset: 28615},
+															pos: position{line: 909, col: 5, offset: 28723},
 															expr: &actionExpr{
-																pos: position{line: 905, col: 6, offset: 28616},
+																pos: position{line: 909, col: 6, offset: 28724},
 																run: (*parser).callonDocumentFragment364,
 																expr: &seqExpr{
-																	pos: position{line: 905, col: 6, offset: 28616},
+																	pos: position{line: 909, col: 6, offset: 28724},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 905, col: 6, offset: 28616},
+																			pos: position{line: 909, col: 6, offset: 28724},
 																			expr: &choiceExpr{
-																				pos: position{line: 898, col: 5, offset: 28459},
+																				pos: position{line: 902, col: 5, offset: 28567},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 898, col: 5, offset: 28459},
+																						pos: position{line: 902, col: 5, offset: 28567},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 898, col: 5, offset: 28459},
+																								pos:   position{line: 902, col: 5, offset: 28567},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 764, col: 5, offset: 24425},
+																									pos: position{line: 768, col: 5, offset: 24533},
 																									run: (*parser).callonDocumentFragment370,
 																									expr: &seqExpr{
-																										pos: position{line: 764, col: 5, offset: 24425},
+																										pos: position{line: 768, col: 5, offset: 24533},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 764, col: 5, offset: 24425},
+																												pos:   position{line: 768, col: 5, offset: 24533},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 764, col: 16, offset: 24436},
+																													pos: position{line: 768, col: 16, offset: 24544},
 																													run: (*parser).callonDocumentFragment373,
 																													expr: &seqExpr{
-																														pos: position{line: 764, col: 16, offset: 24436},
+																														pos: position{line: 768, col: 16, offset: 24544},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 764, col: 16, offset: 24436},
+																																pos:        position{line: 768, col: 16, offset: 24544},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 764, col: 22, offset: 24442},
+																																pos: position{line: 768, col: 22, offset: 24550},
 																																expr: &litMatcher{
-																																	pos:        position{line: 764, col: 22, offset: 24442},
+																																	pos:        position{line: 768, col: 22, offset: 24550},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5757,12 +5757,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 766, col: 8, offset: 24526},
+																												pos: position{line: 770, col: 8, offset: 24634},
 																												expr: &actionExpr{
-																													pos: position{line: 2892, col: 10, offset: 91469},
+																													pos: position{line: 2896, col: 10, offset: 91577},
 																													run: (*parser).callonDocumentFragment379,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2892, col: 10, offset: 91469},
+																														pos:        position{line: 2896, col: 10, offset: 91577},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5771,28 +5771,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2914, col: 8, offset: 91867},
+																												pos: position{line: 2918, col: 8, offset: 91975},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2901, col: 12, offset: 91640},
+																														pos: position{line: 2905, col: 12, offset: 91748},
 																														run: (*parser).callonDocumentFragment382,
 																														expr: &choiceExpr{
-																															pos: position{line: 2901, col: 13, offset: 91641},
+																															pos: position{line: 2905, col: 13, offset: 91749},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 13, offset: 91641},
+																																	pos:        position{line: 2905, col: 13, offset: 91749},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 20, offset: 91648},
+																																	pos:        position{line: 2905, col: 20, offset: 91756},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 29, offset: 91657},
+																																	pos:        position{line: 2905, col: 29, offset: 91765},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5801,9 +5801,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2911, col: 8, offset: 91817},
+																														pos: position{line: 2915, col: 8, offset: 91925},
 																														expr: &anyMatcher{
-																															line: 2911, col: 9, offset: 91818,
+																															line: 2915, col: 9, offset: 91926,
 																														},
 																													},
 																												},
@@ -5813,45 +5813,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 899, col: 5, offset: 28489},
+																								pos: position{line: 903, col: 5, offset: 28597},
 																								run: (*parser).callonDocumentFragment389,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2911, col: 8, offset: 91817},
+																						pos: position{line: 2915, col: 8, offset: 91925},
 																						expr: &anyMatcher{
-																							line: 2911, col: 9, offset: 91818,
+																							line: 2915, col: 9, offset: 91926,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 906, col: 5, offset: 28645},
+																			pos:   position{line: 910, col: 5, offset: 28753},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 821, col: 5, offset: 26434},
+																				pos: position{line: 825, col: 5, offset: 26542},
 																				run: (*parser).callonDocumentFragment393,
 																				expr: &seqExpr{
-																					pos: position{line: 821, col: 5, offset: 26434},
+																					pos: position{line: 825, col: 5, offset: 26542},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2909, col: 11, offset: 91803},
+																							pos: position{line: 2913, col: 11, offset: 91911},
 																							expr: &anyMatcher{
-																								line: 2909, col: 13, offset: 91805,
+																								line: 2913, col: 13, offset: 91913,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 822, col: 5, offset: 26509},
+																							pos:   position{line: 826, col: 5, offset: 26617},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								run: (*parser).callonDocumentFragment398,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2838, col: 13, offset: 89995},
+																									pos: position{line: 2842, col: 13, offset: 90103},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2838, col: 13, offset: 89995},
+																										pos:        position{line: 2842, col: 13, offset: 90103},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5861,28 +5861,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonDocumentFragment402,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5891,9 +5891,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -5908,44 +5908,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 891, col: 5, offset: 28258},
+														pos:   position{line: 895, col: 5, offset: 28366},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 891, col: 9, offset: 28262},
+															pos: position{line: 895, col: 9, offset: 28370},
 															expr: &choiceExpr{
-																pos: position{line: 898, col: 5, offset: 28459},
+																pos: position{line: 902, col: 5, offset: 28567},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 898, col: 5, offset: 28459},
+																		pos: position{line: 902, col: 5, offset: 28567},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 898, col: 5, offset: 28459},
+																				pos:   position{line: 902, col: 5, offset: 28567},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 764, col: 5, offset: 24425},
+																					pos: position{line: 768, col: 5, offset: 24533},
 																					run: (*parser).callonDocumentFragment414,
 																					expr: &seqExpr{
-																						pos: position{line: 764, col: 5, offset: 24425},
+																						pos: position{line: 768, col: 5, offset: 24533},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 764, col: 5, offset: 24425},
+																								pos:   position{line: 768, col: 5, offset: 24533},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 764, col: 16, offset: 24436},
+																									pos: position{line: 768, col: 16, offset: 24544},
 																									run: (*parser).callonDocumentFragment417,
 																									expr: &seqExpr{
-																										pos: position{line: 764, col: 16, offset: 24436},
+																										pos: position{line: 768, col: 16, offset: 24544},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 764, col: 16, offset: 24436},
+																												pos:        position{line: 768, col: 16, offset: 24544},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 764, col: 22, offset: 24442},
+																												pos: position{line: 768, col: 22, offset: 24550},
 																												expr: &litMatcher{
-																													pos:        position{line: 764, col: 22, offset: 24442},
+																													pos:        position{line: 768, col: 22, offset: 24550},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -5956,12 +5956,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 766, col: 8, offset: 24526},
+																								pos: position{line: 770, col: 8, offset: 24634},
 																								expr: &actionExpr{
-																									pos: position{line: 2892, col: 10, offset: 91469},
+																									pos: position{line: 2896, col: 10, offset: 91577},
 																									run: (*parser).callonDocumentFragment423,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 10, offset: 91469},
+																										pos:        position{line: 2896, col: 10, offset: 91577},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5970,28 +5970,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2914, col: 8, offset: 91867},
+																								pos: position{line: 2918, col: 8, offset: 91975},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2901, col: 12, offset: 91640},
+																										pos: position{line: 2905, col: 12, offset: 91748},
 																										run: (*parser).callonDocumentFragment426,
 																										expr: &choiceExpr{
-																											pos: position{line: 2901, col: 13, offset: 91641},
+																											pos: position{line: 2905, col: 13, offset: 91749},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 13, offset: 91641},
+																													pos:        position{line: 2905, col: 13, offset: 91749},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 20, offset: 91648},
+																													pos:        position{line: 2905, col: 20, offset: 91756},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 29, offset: 91657},
+																													pos:        position{line: 2905, col: 29, offset: 91765},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6000,9 +6000,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2911, col: 8, offset: 91817},
+																										pos: position{line: 2915, col: 8, offset: 91925},
 																										expr: &anyMatcher{
-																											line: 2911, col: 9, offset: 91818,
+																											line: 2915, col: 9, offset: 91926,
 																										},
 																									},
 																								},
@@ -6012,15 +6012,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 899, col: 5, offset: 28489},
+																				pos: position{line: 903, col: 5, offset: 28597},
 																				run: (*parser).callonDocumentFragment433,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2911, col: 8, offset: 91817},
+																		pos: position{line: 2915, col: 8, offset: 91925},
 																		expr: &anyMatcher{
-																			line: 2911, col: 9, offset: 91818,
+																			line: 2915, col: 9, offset: 91926,
 																		},
 																	},
 																},
@@ -6031,39 +6031,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 914, col: 5, offset: 28800},
+											pos: position{line: 918, col: 5, offset: 28908},
 											run: (*parser).callonDocumentFragment436,
 											expr: &seqExpr{
-												pos: position{line: 914, col: 5, offset: 28800},
+												pos: position{line: 918, col: 5, offset: 28908},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 914, col: 5, offset: 28800},
+														pos:   position{line: 918, col: 5, offset: 28908},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 779, col: 5, offset: 24962},
+															pos: position{line: 783, col: 5, offset: 25070},
 															run: (*parser).callonDocumentFragment439,
 															expr: &seqExpr{
-																pos: position{line: 779, col: 5, offset: 24962},
+																pos: position{line: 783, col: 5, offset: 25070},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 779, col: 5, offset: 24962},
+																		pos:   position{line: 783, col: 5, offset: 25070},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 779, col: 16, offset: 24973},
+																			pos: position{line: 783, col: 16, offset: 25081},
 																			run: (*parser).callonDocumentFragment442,
 																			expr: &seqExpr{
-																				pos: position{line: 779, col: 16, offset: 24973},
+																				pos: position{line: 783, col: 16, offset: 25081},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 779, col: 16, offset: 24973},
+																						pos:        position{line: 783, col: 16, offset: 25081},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 779, col: 23, offset: 24980},
+																						pos: position{line: 783, col: 23, offset: 25088},
 																						expr: &litMatcher{
-																							pos:        position{line: 779, col: 23, offset: 24980},
+																							pos:        position{line: 783, col: 23, offset: 25088},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6074,12 +6074,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 781, col: 8, offset: 25064},
+																		pos: position{line: 785, col: 8, offset: 25172},
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 10, offset: 91469},
+																			pos: position{line: 2896, col: 10, offset: 91577},
 																			run: (*parser).callonDocumentFragment448,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2892, col: 10, offset: 91469},
+																				pos:        position{line: 2896, col: 10, offset: 91577},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6088,28 +6088,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2914, col: 8, offset: 91867},
+																		pos: position{line: 2918, col: 8, offset: 91975},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91640},
+																				pos: position{line: 2905, col: 12, offset: 91748},
 																				run: (*parser).callonDocumentFragment451,
 																				expr: &choiceExpr{
-																					pos: position{line: 2901, col: 13, offset: 91641},
+																					pos: position{line: 2905, col: 13, offset: 91749},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 13, offset: 91641},
+																							pos:        position{line: 2905, col: 13, offset: 91749},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 20, offset: 91648},
+																							pos:        position{line: 2905, col: 20, offset: 91756},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 29, offset: 91657},
+																							pos:        position{line: 2905, col: 29, offset: 91765},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6118,9 +6118,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2911, col: 8, offset: 91817},
+																				pos: position{line: 2915, col: 8, offset: 91925},
 																				expr: &anyMatcher{
-																					line: 2911, col: 9, offset: 91818,
+																					line: 2915, col: 9, offset: 91926,
 																				},
 																			},
 																		},
@@ -6130,56 +6130,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 915, col: 5, offset: 28839},
+														pos: position{line: 919, col: 5, offset: 28947},
 														run: (*parser).callonDocumentFragment458,
 													},
 													&labeledExpr{
-														pos:   position{line: 918, col: 5, offset: 28931},
+														pos:   position{line: 922, col: 5, offset: 29039},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 933, col: 5, offset: 29329},
+															pos: position{line: 937, col: 5, offset: 29437},
 															expr: &actionExpr{
-																pos: position{line: 933, col: 6, offset: 29330},
+																pos: position{line: 937, col: 6, offset: 29438},
 																run: (*parser).callonDocumentFragment461,
 																expr: &seqExpr{
-																	pos: position{line: 933, col: 6, offset: 29330},
+																	pos: position{line: 937, col: 6, offset: 29438},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 933, col: 6, offset: 29330},
+																			pos: position{line: 937, col: 6, offset: 29438},
 																			expr: &choiceExpr{
-																				pos: position{line: 926, col: 5, offset: 29171},
+																				pos: position{line: 930, col: 5, offset: 29279},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 926, col: 5, offset: 29171},
+																						pos: position{line: 930, col: 5, offset: 29279},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 926, col: 5, offset: 29171},
+																								pos:   position{line: 930, col: 5, offset: 29279},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 779, col: 5, offset: 24962},
+																									pos: position{line: 783, col: 5, offset: 25070},
 																									run: (*parser).callonDocumentFragment467,
 																									expr: &seqExpr{
-																										pos: position{line: 779, col: 5, offset: 24962},
+																										pos: position{line: 783, col: 5, offset: 25070},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 779, col: 5, offset: 24962},
+																												pos:   position{line: 783, col: 5, offset: 25070},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 779, col: 16, offset: 24973},
+																													pos: position{line: 783, col: 16, offset: 25081},
 																													run: (*parser).callonDocumentFragment470,
 																													expr: &seqExpr{
-																														pos: position{line: 779, col: 16, offset: 24973},
+																														pos: position{line: 783, col: 16, offset: 25081},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 779, col: 16, offset: 24973},
+																																pos:        position{line: 783, col: 16, offset: 25081},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 779, col: 23, offset: 24980},
+																																pos: position{line: 783, col: 23, offset: 25088},
 																																expr: &litMatcher{
-																																	pos:        position{line: 779, col: 23, offset: 24980},
+																																	pos:        position{line: 783, col: 23, offset: 25088},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6190,12 +6190,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 781, col: 8, offset: 25064},
+																												pos: position{line: 785, col: 8, offset: 25172},
 																												expr: &actionExpr{
-																													pos: position{line: 2892, col: 10, offset: 91469},
+																													pos: position{line: 2896, col: 10, offset: 91577},
 																													run: (*parser).callonDocumentFragment476,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2892, col: 10, offset: 91469},
+																														pos:        position{line: 2896, col: 10, offset: 91577},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6204,28 +6204,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2914, col: 8, offset: 91867},
+																												pos: position{line: 2918, col: 8, offset: 91975},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2901, col: 12, offset: 91640},
+																														pos: position{line: 2905, col: 12, offset: 91748},
 																														run: (*parser).callonDocumentFragment479,
 																														expr: &choiceExpr{
-																															pos: position{line: 2901, col: 13, offset: 91641},
+																															pos: position{line: 2905, col: 13, offset: 91749},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 13, offset: 91641},
+																																	pos:        position{line: 2905, col: 13, offset: 91749},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 20, offset: 91648},
+																																	pos:        position{line: 2905, col: 20, offset: 91756},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 29, offset: 91657},
+																																	pos:        position{line: 2905, col: 29, offset: 91765},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6234,9 +6234,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2911, col: 8, offset: 91817},
+																														pos: position{line: 2915, col: 8, offset: 91925},
 																														expr: &anyMatcher{
-																															line: 2911, col: 9, offset: 91818,
+																															line: 2915, col: 9, offset: 91926,
 																														},
 																													},
 																												},
@@ -6246,45 +6246,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 927, col: 5, offset: 29202},
+																								pos: position{line: 931, col: 5, offset: 29310},
 																								run: (*parser).callonDocumentFragment486,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2911, col: 8, offset: 91817},
+																						pos: position{line: 2915, col: 8, offset: 91925},
 																						expr: &anyMatcher{
-																							line: 2911, col: 9, offset: 91818,
+																							line: 2915, col: 9, offset: 91926,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 934, col: 5, offset: 29360},
+																			pos:   position{line: 938, col: 5, offset: 29468},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 821, col: 5, offset: 26434},
+																				pos: position{line: 825, col: 5, offset: 26542},
 																				run: (*parser).callonDocumentFragment490,
 																				expr: &seqExpr{
-																					pos: position{line: 821, col: 5, offset: 26434},
+																					pos: position{line: 825, col: 5, offset: 26542},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2909, col: 11, offset: 91803},
+																							pos: position{line: 2913, col: 11, offset: 91911},
 																							expr: &anyMatcher{
-																								line: 2909, col: 13, offset: 91805,
+																								line: 2913, col: 13, offset: 91913,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 822, col: 5, offset: 26509},
+																							pos:   position{line: 826, col: 5, offset: 26617},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								run: (*parser).callonDocumentFragment495,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2838, col: 13, offset: 89995},
+																									pos: position{line: 2842, col: 13, offset: 90103},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2838, col: 13, offset: 89995},
+																										pos:        position{line: 2842, col: 13, offset: 90103},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6294,28 +6294,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonDocumentFragment499,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6324,9 +6324,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -6341,44 +6341,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 919, col: 5, offset: 28965},
+														pos:   position{line: 923, col: 5, offset: 29073},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 919, col: 9, offset: 28969},
+															pos: position{line: 923, col: 9, offset: 29077},
 															expr: &choiceExpr{
-																pos: position{line: 926, col: 5, offset: 29171},
+																pos: position{line: 930, col: 5, offset: 29279},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 926, col: 5, offset: 29171},
+																		pos: position{line: 930, col: 5, offset: 29279},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 926, col: 5, offset: 29171},
+																				pos:   position{line: 930, col: 5, offset: 29279},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 779, col: 5, offset: 24962},
+																					pos: position{line: 783, col: 5, offset: 25070},
 																					run: (*parser).callonDocumentFragment511,
 																					expr: &seqExpr{
-																						pos: position{line: 779, col: 5, offset: 24962},
+																						pos: position{line: 783, col: 5, offset: 25070},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 779, col: 5, offset: 24962},
+																								pos:   position{line: 783, col: 5, offset: 25070},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 779, col: 16, offset: 24973},
+																									pos: position{line: 783, col: 16, offset: 25081},
 																									run: (*parser).callonDocumentFragment514,
 																									expr: &seqExpr{
-																										pos: position{line: 779, col: 16, offset: 24973},
+																										pos: position{line: 783, col: 16, offset: 25081},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 779, col: 16, offset: 24973},
+																												pos:        position{line: 783, col: 16, offset: 25081},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 779, col: 23, offset: 24980},
+																												pos: position{line: 783, col: 23, offset: 25088},
 																												expr: &litMatcher{
-																													pos:        position{line: 779, col: 23, offset: 24980},
+																													pos:        position{line: 783, col: 23, offset: 25088},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6389,12 +6389,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 781, col: 8, offset: 25064},
+																								pos: position{line: 785, col: 8, offset: 25172},
 																								expr: &actionExpr{
-																									pos: position{line: 2892, col: 10, offset: 91469},
+																									pos: position{line: 2896, col: 10, offset: 91577},
 																									run: (*parser).callonDocumentFragment520,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 10, offset: 91469},
+																										pos:        position{line: 2896, col: 10, offset: 91577},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6403,28 +6403,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2914, col: 8, offset: 91867},
+																								pos: position{line: 2918, col: 8, offset: 91975},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2901, col: 12, offset: 91640},
+																										pos: position{line: 2905, col: 12, offset: 91748},
 																										run: (*parser).callonDocumentFragment523,
 																										expr: &choiceExpr{
-																											pos: position{line: 2901, col: 13, offset: 91641},
+																											pos: position{line: 2905, col: 13, offset: 91749},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 13, offset: 91641},
+																													pos:        position{line: 2905, col: 13, offset: 91749},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 20, offset: 91648},
+																													pos:        position{line: 2905, col: 20, offset: 91756},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 29, offset: 91657},
+																													pos:        position{line: 2905, col: 29, offset: 91765},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6433,9 +6433,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2911, col: 8, offset: 91817},
+																										pos: position{line: 2915, col: 8, offset: 91925},
 																										expr: &anyMatcher{
-																											line: 2911, col: 9, offset: 91818,
+																											line: 2915, col: 9, offset: 91926,
 																										},
 																									},
 																								},
@@ -6445,15 +6445,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 927, col: 5, offset: 29202},
+																				pos: position{line: 931, col: 5, offset: 29310},
 																				run: (*parser).callonDocumentFragment530,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2911, col: 8, offset: 91817},
+																		pos: position{line: 2915, col: 8, offset: 91925},
 																		expr: &anyMatcher{
-																			line: 2911, col: 9, offset: 91818,
+																			line: 2915, col: 9, offset: 91926,
 																		},
 																	},
 																},
@@ -6464,39 +6464,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 942, col: 5, offset: 29515},
+											pos: position{line: 946, col: 5, offset: 29623},
 											run: (*parser).callonDocumentFragment533,
 											expr: &seqExpr{
-												pos: position{line: 942, col: 5, offset: 29515},
+												pos: position{line: 946, col: 5, offset: 29623},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 942, col: 5, offset: 29515},
+														pos:   position{line: 946, col: 5, offset: 29623},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 793, col: 5, offset: 25438},
+															pos: position{line: 797, col: 5, offset: 25546},
 															run: (*parser).callonDocumentFragment536,
 															expr: &seqExpr{
-																pos: position{line: 793, col: 5, offset: 25438},
+																pos: position{line: 797, col: 5, offset: 25546},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 793, col: 5, offset: 25438},
+																		pos:   position{line: 797, col: 5, offset: 25546},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 793, col: 16, offset: 25449},
+																			pos: position{line: 797, col: 16, offset: 25557},
 																			run: (*parser).callonDocumentFragment539,
 																			expr: &seqExpr{
-																				pos: position{line: 793, col: 16, offset: 25449},
+																				pos: position{line: 797, col: 16, offset: 25557},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 793, col: 16, offset: 25449},
+																						pos:        position{line: 797, col: 16, offset: 25557},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 793, col: 23, offset: 25456},
+																						pos: position{line: 797, col: 23, offset: 25564},
 																						expr: &litMatcher{
-																							pos:        position{line: 793, col: 23, offset: 25456},
+																							pos:        position{line: 797, col: 23, offset: 25564},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6507,12 +6507,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 795, col: 8, offset: 25540},
+																		pos: position{line: 799, col: 8, offset: 25648},
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 10, offset: 91469},
+																			pos: position{line: 2896, col: 10, offset: 91577},
 																			run: (*parser).callonDocumentFragment545,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2892, col: 10, offset: 91469},
+																				pos:        position{line: 2896, col: 10, offset: 91577},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6521,28 +6521,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2914, col: 8, offset: 91867},
+																		pos: position{line: 2918, col: 8, offset: 91975},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91640},
+																				pos: position{line: 2905, col: 12, offset: 91748},
 																				run: (*parser).callonDocumentFragment548,
 																				expr: &choiceExpr{
-																					pos: position{line: 2901, col: 13, offset: 91641},
+																					pos: position{line: 2905, col: 13, offset: 91749},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 13, offset: 91641},
+																							pos:        position{line: 2905, col: 13, offset: 91749},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 20, offset: 91648},
+																							pos:        position{line: 2905, col: 20, offset: 91756},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 29, offset: 91657},
+																							pos:        position{line: 2905, col: 29, offset: 91765},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6551,9 +6551,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2911, col: 8, offset: 91817},
+																				pos: position{line: 2915, col: 8, offset: 91925},
 																				expr: &anyMatcher{
-																					line: 2911, col: 9, offset: 91818,
+																					line: 2915, col: 9, offset: 91926,
 																				},
 																			},
 																		},
@@ -6563,56 +6563,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 943, col: 5, offset: 29554},
+														pos: position{line: 947, col: 5, offset: 29662},
 														run: (*parser).callonDocumentFragment555,
 													},
 													&labeledExpr{
-														pos:   position{line: 946, col: 5, offset: 29646},
+														pos:   position{line: 950, col: 5, offset: 29754},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 961, col: 5, offset: 30044},
+															pos: position{line: 965, col: 5, offset: 30152},
 															expr: &actionExpr{
-																pos: position{line: 961, col: 6, offset: 30045},
+																pos: position{line: 965, col: 6, offset: 30153},
 																run: (*parser).callonDocumentFragment558,
 																expr: &seqExpr{
-																	pos: position{line: 961, col: 6, offset: 30045},
+																	pos: position{line: 965, col: 6, offset: 30153},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 961, col: 6, offset: 30045},
+																			pos: position{line: 965, col: 6, offset: 30153},
 																			expr: &choiceExpr{
-																				pos: position{line: 954, col: 5, offset: 29886},
+																				pos: position{line: 958, col: 5, offset: 29994},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 954, col: 5, offset: 29886},
+																						pos: position{line: 958, col: 5, offset: 29994},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 954, col: 5, offset: 29886},
+																								pos:   position{line: 958, col: 5, offset: 29994},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 793, col: 5, offset: 25438},
+																									pos: position{line: 797, col: 5, offset: 25546},
 																									run: (*parser).callonDocumentFragment564,
 																									expr: &seqExpr{
-																										pos: position{line: 793, col: 5, offset: 25438},
+																										pos: position{line: 797, col: 5, offset: 25546},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 793, col: 5, offset: 25438},
+																												pos:   position{line: 797, col: 5, offset: 25546},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 793, col: 16, offset: 25449},
+																													pos: position{line: 797, col: 16, offset: 25557},
 																													run: (*parser).callonDocumentFragment567,
 																													expr: &seqExpr{
-																														pos: position{line: 793, col: 16, offset: 25449},
+																														pos: position{line: 797, col: 16, offset: 25557},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 793, col: 16, offset: 25449},
+																																pos:        position{line: 797, col: 16, offset: 25557},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 793, col: 23, offset: 25456},
+																																pos: position{line: 797, col: 23, offset: 25564},
 																																expr: &litMatcher{
-																																	pos:        position{line: 793, col: 23, offset: 25456},
+																																	pos:        position{line: 797, col: 23, offset: 25564},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6623,12 +6623,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 795, col: 8, offset: 25540},
+																												pos: position{line: 799, col: 8, offset: 25648},
 																												expr: &actionExpr{
-																													pos: position{line: 2892, col: 10, offset: 91469},
+																													pos: position{line: 2896, col: 10, offset: 91577},
 																													run: (*parser).callonDocumentFragment573,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2892, col: 10, offset: 91469},
+																														pos:        position{line: 2896, col: 10, offset: 91577},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6637,28 +6637,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2914, col: 8, offset: 91867},
+																												pos: position{line: 2918, col: 8, offset: 91975},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2901, col: 12, offset: 91640},
+																														pos: position{line: 2905, col: 12, offset: 91748},
 																														run: (*parser).callonDocumentFragment576,
 																														expr: &choiceExpr{
-																															pos: position{line: 2901, col: 13, offset: 91641},
+																															pos: position{line: 2905, col: 13, offset: 91749},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 13, offset: 91641},
+																																	pos:        position{line: 2905, col: 13, offset: 91749},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 20, offset: 91648},
+																																	pos:        position{line: 2905, col: 20, offset: 91756},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 29, offset: 91657},
+																																	pos:        position{line: 2905, col: 29, offset: 91765},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6667,9 +6667,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2911, col: 8, offset: 91817},
+																														pos: position{line: 2915, col: 8, offset: 91925},
 																														expr: &anyMatcher{
-																															line: 2911, col: 9, offset: 91818,
+																															line: 2915, col: 9, offset: 91926,
 																														},
 																													},
 																												},
@@ -6679,45 +6679,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 955, col: 5, offset: 29917},
+																								pos: position{line: 959, col: 5, offset: 30025},
 																								run: (*parser).callonDocumentFragment583,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2911, col: 8, offset: 91817},
+																						pos: position{line: 2915, col: 8, offset: 91925},
 																						expr: &anyMatcher{
-																							line: 2911, col: 9, offset: 91818,
+																							line: 2915, col: 9, offset: 91926,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 962, col: 5, offset: 30075},
+																			pos:   position{line: 966, col: 5, offset: 30183},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 821, col: 5, offset: 26434},
+																				pos: position{line: 825, col: 5, offset: 26542},
 																				run: (*parser).callonDocumentFragment587,
 																				expr: &seqExpr{
-																					pos: position{line: 821, col: 5, offset: 26434},
+																					pos: position{line: 825, col: 5, offset: 26542},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2909, col: 11, offset: 91803},
+																							pos: position{line: 2913, col: 11, offset: 91911},
 																							expr: &anyMatcher{
-																								line: 2909, col: 13, offset: 91805,
+																								line: 2913, col: 13, offset: 91913,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 822, col: 5, offset: 26509},
+																							pos:   position{line: 826, col: 5, offset: 26617},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								run: (*parser).callonDocumentFragment592,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2838, col: 13, offset: 89995},
+																									pos: position{line: 2842, col: 13, offset: 90103},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2838, col: 13, offset: 89995},
+																										pos:        position{line: 2842, col: 13, offset: 90103},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6727,28 +6727,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonDocumentFragment596,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6757,9 +6757,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -6774,44 +6774,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 947, col: 5, offset: 29680},
+														pos:   position{line: 951, col: 5, offset: 29788},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 947, col: 9, offset: 29684},
+															pos: position{line: 951, col: 9, offset: 29792},
 															expr: &choiceExpr{
-																pos: position{line: 954, col: 5, offset: 29886},
+																pos: position{line: 958, col: 5, offset: 29994},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 954, col: 5, offset: 29886},
+																		pos: position{line: 958, col: 5, offset: 29994},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 954, col: 5, offset: 29886},
+																				pos:   position{line: 958, col: 5, offset: 29994},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 793, col: 5, offset: 25438},
+																					pos: position{line: 797, col: 5, offset: 25546},
 																					run: (*parser).callonDocumentFragment608,
 																					expr: &seqExpr{
-																						pos: position{line: 793, col: 5, offset: 25438},
+																						pos: position{line: 797, col: 5, offset: 25546},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 793, col: 5, offset: 25438},
+																								pos:   position{line: 797, col: 5, offset: 25546},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 793, col: 16, offset: 25449},
+																									pos: position{line: 797, col: 16, offset: 25557},
 																									run: (*parser).callonDocumentFragment611,
 																									expr: &seqExpr{
-																										pos: position{line: 793, col: 16, offset: 25449},
+																										pos: position{line: 797, col: 16, offset: 25557},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 793, col: 16, offset: 25449},
+																												pos:        position{line: 797, col: 16, offset: 25557},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 793, col: 23, offset: 25456},
+																												pos: position{line: 797, col: 23, offset: 25564},
 																												expr: &litMatcher{
-																													pos:        position{line: 793, col: 23, offset: 25456},
+																													pos:        position{line: 797, col: 23, offset: 25564},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6822,12 +6822,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 795, col: 8, offset: 25540},
+																								pos: position{line: 799, col: 8, offset: 25648},
 																								expr: &actionExpr{
-																									pos: position{line: 2892, col: 10, offset: 91469},
+																									pos: position{line: 2896, col: 10, offset: 91577},
 																									run: (*parser).callonDocumentFragment617,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 10, offset: 91469},
+																										pos:        position{line: 2896, col: 10, offset: 91577},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6836,28 +6836,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2914, col: 8, offset: 91867},
+																								pos: position{line: 2918, col: 8, offset: 91975},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2901, col: 12, offset: 91640},
+																										pos: position{line: 2905, col: 12, offset: 91748},
 																										run: (*parser).callonDocumentFragment620,
 																										expr: &choiceExpr{
-																											pos: position{line: 2901, col: 13, offset: 91641},
+																											pos: position{line: 2905, col: 13, offset: 91749},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 13, offset: 91641},
+																													pos:        position{line: 2905, col: 13, offset: 91749},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 20, offset: 91648},
+																													pos:        position{line: 2905, col: 20, offset: 91756},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 29, offset: 91657},
+																													pos:        position{line: 2905, col: 29, offset: 91765},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6866,9 +6866,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2911, col: 8, offset: 91817},
+																										pos: position{line: 2915, col: 8, offset: 91925},
 																										expr: &anyMatcher{
-																											line: 2911, col: 9, offset: 91818,
+																											line: 2915, col: 9, offset: 91926,
 																										},
 																									},
 																								},
@@ -6878,15 +6878,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 955, col: 5, offset: 29917},
+																				pos: position{line: 959, col: 5, offset: 30025},
 																				run: (*parser).callonDocumentFragment627,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2911, col: 8, offset: 91817},
+																		pos: position{line: 2915, col: 8, offset: 91925},
 																		expr: &anyMatcher{
-																			line: 2911, col: 9, offset: 91818,
+																			line: 2915, col: 9, offset: 91926,
 																		},
 																	},
 																},
@@ -6897,63 +6897,63 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 993, col: 5, offset: 30958},
+											pos: position{line: 997, col: 5, offset: 31066},
 											run: (*parser).callonDocumentFragment630,
 											expr: &seqExpr{
-												pos: position{line: 993, col: 5, offset: 30958},
+												pos: position{line: 997, col: 5, offset: 31066},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 993, col: 5, offset: 30958},
+														pos:   position{line: 997, col: 5, offset: 31066},
 														label: "firstLine",
 														expr: &choiceExpr{
-															pos: position{line: 993, col: 16, offset: 30969},
+															pos: position{line: 997, col: 16, offset: 31077},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 1006, col: 35, offset: 31445},
+																	pos: position{line: 1010, col: 35, offset: 31553},
 																	run: (*parser).callonDocumentFragment634,
 																	expr: &seqExpr{
-																		pos: position{line: 1006, col: 35, offset: 31445},
+																		pos: position{line: 1010, col: 35, offset: 31553},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1006, col: 35, offset: 31445},
+																				pos:        position{line: 1010, col: 35, offset: 31553},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1006, col: 40, offset: 31450},
+																				pos:   position{line: 1010, col: 40, offset: 31558},
 																				label: "comment",
 																				expr: &actionExpr{
-																					pos: position{line: 2493, col: 22, offset: 80229},
+																					pos: position{line: 2497, col: 22, offset: 80337},
 																					run: (*parser).callonDocumentFragment638,
 																					expr: &seqExpr{
-																						pos: position{line: 2493, col: 22, offset: 80229},
+																						pos: position{line: 2497, col: 22, offset: 80337},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2498, col: 31, offset: 80450},
+																								pos:        position{line: 2502, col: 31, offset: 80558},
 																								val:        "//",
 																								ignoreCase: false,
 																								want:       "\"//\"",
 																							},
 																							&notExpr{
-																								pos: position{line: 2498, col: 36, offset: 80455},
+																								pos: position{line: 2502, col: 36, offset: 80563},
 																								expr: &litMatcher{
-																									pos:        position{line: 2498, col: 37, offset: 80456},
+																									pos:        position{line: 2502, col: 37, offset: 80564},
 																									val:        "//",
 																									ignoreCase: false,
 																									want:       "\"//\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 2493, col: 49, offset: 80256},
+																								pos:   position{line: 2497, col: 49, offset: 80364},
 																								label: "content",
 																								expr: &actionExpr{
-																									pos: position{line: 2838, col: 13, offset: 89995},
+																									pos: position{line: 2842, col: 13, offset: 90103},
 																									run: (*parser).callonDocumentFragment644,
 																									expr: &zeroOrMoreExpr{
-																										pos: position{line: 2838, col: 13, offset: 89995},
+																										pos: position{line: 2842, col: 13, offset: 90103},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2838, col: 13, offset: 89995},
+																											pos:        position{line: 2842, col: 13, offset: 90103},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -6963,28 +6963,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2914, col: 8, offset: 91867},
+																								pos: position{line: 2918, col: 8, offset: 91975},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2901, col: 12, offset: 91640},
+																										pos: position{line: 2905, col: 12, offset: 91748},
 																										run: (*parser).callonDocumentFragment648,
 																										expr: &choiceExpr{
-																											pos: position{line: 2901, col: 13, offset: 91641},
+																											pos: position{line: 2905, col: 13, offset: 91749},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 13, offset: 91641},
+																													pos:        position{line: 2905, col: 13, offset: 91749},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 20, offset: 91648},
+																													pos:        position{line: 2905, col: 20, offset: 91756},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 29, offset: 91657},
+																													pos:        position{line: 2905, col: 29, offset: 91765},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6993,9 +6993,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2911, col: 8, offset: 91817},
+																										pos: position{line: 2915, col: 8, offset: 91925},
 																										expr: &anyMatcher{
-																											line: 2911, col: 9, offset: 91818,
+																											line: 2915, col: 9, offset: 91926,
 																										},
 																									},
 																								},
@@ -7008,13 +7008,13 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1000, col: 5, offset: 31303},
+																	pos: position{line: 1004, col: 5, offset: 31411},
 																	run: (*parser).callonDocumentFragment655,
 																	expr: &seqExpr{
-																		pos: position{line: 1000, col: 5, offset: 31303},
+																		pos: position{line: 1004, col: 5, offset: 31411},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1000, col: 5, offset: 31303},
+																				pos: position{line: 1004, col: 5, offset: 31411},
 																				expr: &actionExpr{
 																					pos: position{line: 687, col: 14, offset: 21835},
 																					run: (*parser).callonDocumentFragment658,
@@ -7022,18 +7022,18 @@ var g = &grammar{
 																						pos: position{line: 687, col: 14, offset: 21835},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2909, col: 11, offset: 91803},
+																								pos: position{line: 2913, col: 11, offset: 91911},
 																								expr: &anyMatcher{
-																									line: 2909, col: 13, offset: 91805,
+																									line: 2913, col: 13, offset: 91913,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 687, col: 21, offset: 21842},
 																								expr: &actionExpr{
-																									pos: position{line: 2892, col: 10, offset: 91469},
+																									pos: position{line: 2896, col: 10, offset: 91577},
 																									run: (*parser).callonDocumentFragment663,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 10, offset: 91469},
+																										pos:        position{line: 2896, col: 10, offset: 91577},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7042,28 +7042,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2914, col: 8, offset: 91867},
+																								pos: position{line: 2918, col: 8, offset: 91975},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2901, col: 12, offset: 91640},
+																										pos: position{line: 2905, col: 12, offset: 91748},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &choiceExpr{
-																											pos: position{line: 2901, col: 13, offset: 91641},
+																											pos: position{line: 2905, col: 13, offset: 91749},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 13, offset: 91641},
+																													pos:        position{line: 2905, col: 13, offset: 91749},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 20, offset: 91648},
+																													pos:        position{line: 2905, col: 20, offset: 91756},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 29, offset: 91657},
+																													pos:        position{line: 2905, col: 29, offset: 91765},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7072,9 +7072,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2911, col: 8, offset: 91817},
+																										pos: position{line: 2915, col: 8, offset: 91925},
 																										expr: &anyMatcher{
-																											line: 2911, col: 9, offset: 91818,
+																											line: 2915, col: 9, offset: 91926,
 																										},
 																									},
 																								},
@@ -7084,21 +7084,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1001, col: 5, offset: 31318},
+																				pos:        position{line: 1005, col: 5, offset: 31426},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1002, col: 5, offset: 31328},
+																				pos:   position{line: 1006, col: 5, offset: 31436},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2842, col: 14, offset: 90062},
+																					pos: position{line: 2846, col: 14, offset: 90170},
 																					run: (*parser).callonDocumentFragment675,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2842, col: 14, offset: 90062},
+																						pos: position{line: 2846, col: 14, offset: 90170},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2842, col: 14, offset: 90062},
+																							pos:        position{line: 2846, col: 14, offset: 90170},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -7108,28 +7108,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2914, col: 8, offset: 91867},
+																				pos: position{line: 2918, col: 8, offset: 91975},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2901, col: 12, offset: 91640},
+																						pos: position{line: 2905, col: 12, offset: 91748},
 																						run: (*parser).callonDocumentFragment679,
 																						expr: &choiceExpr{
-																							pos: position{line: 2901, col: 13, offset: 91641},
+																							pos: position{line: 2905, col: 13, offset: 91749},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2901, col: 13, offset: 91641},
+																									pos:        position{line: 2905, col: 13, offset: 91749},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2901, col: 20, offset: 91648},
+																									pos:        position{line: 2905, col: 20, offset: 91756},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2901, col: 29, offset: 91657},
+																									pos:        position{line: 2905, col: 29, offset: 91765},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -7138,9 +7138,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2911, col: 8, offset: 91817},
+																						pos: position{line: 2915, col: 8, offset: 91925},
 																						expr: &anyMatcher{
-																							line: 2911, col: 9, offset: 91818,
+																							line: 2915, col: 9, offset: 91926,
 																						},
 																					},
 																				},
@@ -7152,44 +7152,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 994, col: 5, offset: 31028},
+														pos:   position{line: 998, col: 5, offset: 31136},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 994, col: 16, offset: 31039},
+															pos: position{line: 998, col: 16, offset: 31147},
 															expr: &choiceExpr{
-																pos: position{line: 994, col: 17, offset: 31040},
+																pos: position{line: 998, col: 17, offset: 31148},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2493, col: 22, offset: 80229},
+																		pos: position{line: 2497, col: 22, offset: 80337},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 2493, col: 22, offset: 80229},
+																			pos: position{line: 2497, col: 22, offset: 80337},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2498, col: 31, offset: 80450},
+																					pos:        position{line: 2502, col: 31, offset: 80558},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																				&notExpr{
-																					pos: position{line: 2498, col: 36, offset: 80455},
+																					pos: position{line: 2502, col: 36, offset: 80563},
 																					expr: &litMatcher{
-																						pos:        position{line: 2498, col: 37, offset: 80456},
+																						pos:        position{line: 2502, col: 37, offset: 80564},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2493, col: 49, offset: 80256},
+																					pos:   position{line: 2497, col: 49, offset: 80364},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2838, col: 13, offset: 89995},
+																						pos: position{line: 2842, col: 13, offset: 90103},
 																						run: (*parser).callonDocumentFragment695,
 																						expr: &zeroOrMoreExpr{
-																							pos: position{line: 2838, col: 13, offset: 89995},
+																							pos: position{line: 2842, col: 13, offset: 90103},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2838, col: 13, offset: 89995},
+																								pos:        position{line: 2842, col: 13, offset: 90103},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7199,28 +7199,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2914, col: 8, offset: 91867},
+																					pos: position{line: 2918, col: 8, offset: 91975},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2901, col: 12, offset: 91640},
+																							pos: position{line: 2905, col: 12, offset: 91748},
 																							run: (*parser).callonDocumentFragment699,
 																							expr: &choiceExpr{
-																								pos: position{line: 2901, col: 13, offset: 91641},
+																								pos: position{line: 2905, col: 13, offset: 91749},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 13, offset: 91641},
+																										pos:        position{line: 2905, col: 13, offset: 91749},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 20, offset: 91648},
+																										pos:        position{line: 2905, col: 20, offset: 91756},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 29, offset: 91657},
+																										pos:        position{line: 2905, col: 29, offset: 91765},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7229,9 +7229,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2911, col: 8, offset: 91817},
+																							pos: position{line: 2915, col: 8, offset: 91925},
 																							expr: &anyMatcher{
-																								line: 2911, col: 9, offset: 91818,
+																								line: 2915, col: 9, offset: 91926,
 																							},
 																						},
 																					},
@@ -7240,51 +7240,51 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1006, col: 35, offset: 31445},
+																		pos: position{line: 1010, col: 35, offset: 31553},
 																		run: (*parser).callonDocumentFragment706,
 																		expr: &seqExpr{
-																			pos: position{line: 1006, col: 35, offset: 31445},
+																			pos: position{line: 1010, col: 35, offset: 31553},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1006, col: 35, offset: 31445},
+																					pos:        position{line: 1010, col: 35, offset: 31553},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1006, col: 40, offset: 31450},
+																					pos:   position{line: 1010, col: 40, offset: 31558},
 																					label: "comment",
 																					expr: &actionExpr{
-																						pos: position{line: 2493, col: 22, offset: 80229},
+																						pos: position{line: 2497, col: 22, offset: 80337},
 																						run: (*parser).callonDocumentFragment710,
 																						expr: &seqExpr{
-																							pos: position{line: 2493, col: 22, offset: 80229},
+																							pos: position{line: 2497, col: 22, offset: 80337},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2498, col: 31, offset: 80450},
+																									pos:        position{line: 2502, col: 31, offset: 80558},
 																									val:        "//",
 																									ignoreCase: false,
 																									want:       "\"//\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2498, col: 36, offset: 80455},
+																									pos: position{line: 2502, col: 36, offset: 80563},
 																									expr: &litMatcher{
-																										pos:        position{line: 2498, col: 37, offset: 80456},
+																										pos:        position{line: 2502, col: 37, offset: 80564},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 2493, col: 49, offset: 80256},
+																									pos:   position{line: 2497, col: 49, offset: 80364},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 2838, col: 13, offset: 89995},
+																										pos: position{line: 2842, col: 13, offset: 90103},
 																										run: (*parser).callonDocumentFragment716,
 																										expr: &zeroOrMoreExpr{
-																											pos: position{line: 2838, col: 13, offset: 89995},
+																											pos: position{line: 2842, col: 13, offset: 90103},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2838, col: 13, offset: 89995},
+																												pos:        position{line: 2842, col: 13, offset: 90103},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -7294,28 +7294,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2914, col: 8, offset: 91867},
+																									pos: position{line: 2918, col: 8, offset: 91975},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2901, col: 12, offset: 91640},
+																											pos: position{line: 2905, col: 12, offset: 91748},
 																											run: (*parser).callonDocumentFragment720,
 																											expr: &choiceExpr{
-																												pos: position{line: 2901, col: 13, offset: 91641},
+																												pos: position{line: 2905, col: 13, offset: 91749},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2901, col: 13, offset: 91641},
+																														pos:        position{line: 2905, col: 13, offset: 91749},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2901, col: 20, offset: 91648},
+																														pos:        position{line: 2905, col: 20, offset: 91756},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2901, col: 29, offset: 91657},
+																														pos:        position{line: 2905, col: 29, offset: 91765},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7324,9 +7324,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2911, col: 8, offset: 91817},
+																											pos: position{line: 2915, col: 8, offset: 91925},
 																											expr: &anyMatcher{
-																												line: 2911, col: 9, offset: 91818,
+																												line: 2915, col: 9, offset: 91926,
 																											},
 																										},
 																									},
@@ -7339,13 +7339,13 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1000, col: 5, offset: 31303},
+																		pos: position{line: 1004, col: 5, offset: 31411},
 																		run: (*parser).callonDocumentFragment727,
 																		expr: &seqExpr{
-																			pos: position{line: 1000, col: 5, offset: 31303},
+																			pos: position{line: 1004, col: 5, offset: 31411},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 1000, col: 5, offset: 31303},
+																					pos: position{line: 1004, col: 5, offset: 31411},
 																					expr: &actionExpr{
 																						pos: position{line: 687, col: 14, offset: 21835},
 																						run: (*parser).callonDocumentFragment730,
@@ -7353,18 +7353,18 @@ var g = &grammar{
 																							pos: position{line: 687, col: 14, offset: 21835},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2909, col: 11, offset: 91803},
+																									pos: position{line: 2913, col: 11, offset: 91911},
 																									expr: &anyMatcher{
-																										line: 2909, col: 13, offset: 91805,
+																										line: 2913, col: 13, offset: 91913,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 687, col: 21, offset: 21842},
 																									expr: &actionExpr{
-																										pos: position{line: 2892, col: 10, offset: 91469},
+																										pos: position{line: 2896, col: 10, offset: 91577},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2892, col: 10, offset: 91469},
+																											pos:        position{line: 2896, col: 10, offset: 91577},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7373,28 +7373,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2914, col: 8, offset: 91867},
+																									pos: position{line: 2918, col: 8, offset: 91975},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2901, col: 12, offset: 91640},
+																											pos: position{line: 2905, col: 12, offset: 91748},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2901, col: 13, offset: 91641},
+																												pos: position{line: 2905, col: 13, offset: 91749},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2901, col: 13, offset: 91641},
+																														pos:        position{line: 2905, col: 13, offset: 91749},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2901, col: 20, offset: 91648},
+																														pos:        position{line: 2905, col: 20, offset: 91756},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2901, col: 29, offset: 91657},
+																														pos:        position{line: 2905, col: 29, offset: 91765},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7403,9 +7403,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2911, col: 8, offset: 91817},
+																											pos: position{line: 2915, col: 8, offset: 91925},
 																											expr: &anyMatcher{
-																												line: 2911, col: 9, offset: 91818,
+																												line: 2915, col: 9, offset: 91926,
 																											},
 																										},
 																									},
@@ -7415,21 +7415,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1001, col: 5, offset: 31318},
+																					pos:        position{line: 1005, col: 5, offset: 31426},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1002, col: 5, offset: 31328},
+																					pos:   position{line: 1006, col: 5, offset: 31436},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2842, col: 14, offset: 90062},
+																						pos: position{line: 2846, col: 14, offset: 90170},
 																						run: (*parser).callonDocumentFragment747,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2842, col: 14, offset: 90062},
+																							pos: position{line: 2846, col: 14, offset: 90170},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2842, col: 14, offset: 90062},
+																								pos:        position{line: 2846, col: 14, offset: 90170},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7439,28 +7439,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2914, col: 8, offset: 91867},
+																					pos: position{line: 2918, col: 8, offset: 91975},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2901, col: 12, offset: 91640},
+																							pos: position{line: 2905, col: 12, offset: 91748},
 																							run: (*parser).callonDocumentFragment751,
 																							expr: &choiceExpr{
-																								pos: position{line: 2901, col: 13, offset: 91641},
+																								pos: position{line: 2905, col: 13, offset: 91749},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 13, offset: 91641},
+																										pos:        position{line: 2905, col: 13, offset: 91749},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 20, offset: 91648},
+																										pos:        position{line: 2905, col: 20, offset: 91756},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 29, offset: 91657},
+																										pos:        position{line: 2905, col: 29, offset: 91765},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7469,9 +7469,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2911, col: 8, offset: 91817},
+																							pos: position{line: 2915, col: 8, offset: 91925},
 																							expr: &anyMatcher{
-																								line: 2911, col: 9, offset: 91818,
+																								line: 2915, col: 9, offset: 91926,
 																							},
 																						},
 																					},
@@ -7480,21 +7480,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1807, col: 5, offset: 58385},
+																		pos: position{line: 1811, col: 5, offset: 58493},
 																		run: (*parser).callonDocumentFragment758,
 																		expr: &seqExpr{
-																			pos: position{line: 1807, col: 5, offset: 58385},
+																			pos: position{line: 1811, col: 5, offset: 58493},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1807, col: 5, offset: 58385},
+																					pos:   position{line: 1811, col: 5, offset: 58493},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2842, col: 14, offset: 90062},
+																						pos: position{line: 2846, col: 14, offset: 90170},
 																						run: (*parser).callonDocumentFragment761,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2842, col: 14, offset: 90062},
+																							pos: position{line: 2846, col: 14, offset: 90170},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2842, col: 14, offset: 90062},
+																								pos:        position{line: 2846, col: 14, offset: 90170},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7504,32 +7504,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1808, col: 5, offset: 58409},
+																					pos: position{line: 1812, col: 5, offset: 58517},
 																					run: (*parser).callonDocumentFragment764,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2914, col: 8, offset: 91867},
+																					pos: position{line: 2918, col: 8, offset: 91975},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2901, col: 12, offset: 91640},
+																							pos: position{line: 2905, col: 12, offset: 91748},
 																							run: (*parser).callonDocumentFragment766,
 																							expr: &choiceExpr{
-																								pos: position{line: 2901, col: 13, offset: 91641},
+																								pos: position{line: 2905, col: 13, offset: 91749},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 13, offset: 91641},
+																										pos:        position{line: 2905, col: 13, offset: 91749},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 20, offset: 91648},
+																										pos:        position{line: 2905, col: 20, offset: 91756},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 29, offset: 91657},
+																										pos:        position{line: 2905, col: 29, offset: 91765},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7538,9 +7538,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2911, col: 8, offset: 91817},
+																							pos: position{line: 2915, col: 8, offset: 91925},
 																							expr: &anyMatcher{
-																								line: 2911, col: 9, offset: 91818,
+																								line: 2915, col: 9, offset: 91926,
 																							},
 																						},
 																					},
@@ -7556,28 +7556,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1019, col: 5, offset: 31697},
+											pos: position{line: 1023, col: 5, offset: 31805},
 											run: (*parser).callonDocumentFragment773,
 											expr: &seqExpr{
-												pos: position{line: 1019, col: 5, offset: 31697},
+												pos: position{line: 1023, col: 5, offset: 31805},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1019, col: 5, offset: 31697},
+														pos:   position{line: 1023, col: 5, offset: 31805},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 786, col: 5, offset: 25207},
+															pos: position{line: 790, col: 5, offset: 25315},
 															run: (*parser).callonDocumentFragment776,
 															expr: &seqExpr{
-																pos: position{line: 786, col: 5, offset: 25207},
+																pos: position{line: 790, col: 5, offset: 25315},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 786, col: 5, offset: 25207},
+																		pos:   position{line: 790, col: 5, offset: 25315},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 786, col: 16, offset: 25218},
+																			pos: position{line: 790, col: 16, offset: 25326},
 																			run: (*parser).callonDocumentFragment779,
 																			expr: &litMatcher{
-																				pos:        position{line: 786, col: 16, offset: 25218},
+																				pos:        position{line: 790, col: 16, offset: 25326},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7585,12 +7585,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 788, col: 8, offset: 25295},
+																		pos: position{line: 792, col: 8, offset: 25403},
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 10, offset: 91469},
+																			pos: position{line: 2896, col: 10, offset: 91577},
 																			run: (*parser).callonDocumentFragment782,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2892, col: 10, offset: 91469},
+																				pos:        position{line: 2896, col: 10, offset: 91577},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7599,28 +7599,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2914, col: 8, offset: 91867},
+																		pos: position{line: 2918, col: 8, offset: 91975},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91640},
+																				pos: position{line: 2905, col: 12, offset: 91748},
 																				run: (*parser).callonDocumentFragment785,
 																				expr: &choiceExpr{
-																					pos: position{line: 2901, col: 13, offset: 91641},
+																					pos: position{line: 2905, col: 13, offset: 91749},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 13, offset: 91641},
+																							pos:        position{line: 2905, col: 13, offset: 91749},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 20, offset: 91648},
+																							pos:        position{line: 2905, col: 20, offset: 91756},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 29, offset: 91657},
+																							pos:        position{line: 2905, col: 29, offset: 91765},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7629,9 +7629,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2911, col: 8, offset: 91817},
+																				pos: position{line: 2915, col: 8, offset: 91925},
 																				expr: &anyMatcher{
-																					line: 2911, col: 9, offset: 91818,
+																					line: 2915, col: 9, offset: 91926,
 																				},
 																			},
 																		},
@@ -7641,35 +7641,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1020, col: 5, offset: 31733},
+														pos:   position{line: 1024, col: 5, offset: 31841},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1030, col: 5, offset: 32001},
+															pos: position{line: 1034, col: 5, offset: 32109},
 															expr: &actionExpr{
-																pos: position{line: 1030, col: 6, offset: 32002},
+																pos: position{line: 1034, col: 6, offset: 32110},
 																run: (*parser).callonDocumentFragment794,
 																expr: &seqExpr{
-																	pos: position{line: 1030, col: 6, offset: 32002},
+																	pos: position{line: 1034, col: 6, offset: 32110},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1030, col: 6, offset: 32002},
+																			pos: position{line: 1034, col: 6, offset: 32110},
 																			expr: &choiceExpr{
-																				pos: position{line: 1027, col: 26, offset: 31950},
+																				pos: position{line: 1031, col: 26, offset: 32058},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 786, col: 5, offset: 25207},
+																						pos: position{line: 790, col: 5, offset: 25315},
 																						run: (*parser).callonDocumentFragment798,
 																						expr: &seqExpr{
-																							pos: position{line: 786, col: 5, offset: 25207},
+																							pos: position{line: 790, col: 5, offset: 25315},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 786, col: 5, offset: 25207},
+																									pos:   position{line: 790, col: 5, offset: 25315},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 786, col: 16, offset: 25218},
+																										pos: position{line: 790, col: 16, offset: 25326},
 																										run: (*parser).callonDocumentFragment801,
 																										expr: &litMatcher{
-																											pos:        position{line: 786, col: 16, offset: 25218},
+																											pos:        position{line: 790, col: 16, offset: 25326},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7677,12 +7677,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 788, col: 8, offset: 25295},
+																									pos: position{line: 792, col: 8, offset: 25403},
 																									expr: &actionExpr{
-																										pos: position{line: 2892, col: 10, offset: 91469},
+																										pos: position{line: 2896, col: 10, offset: 91577},
 																										run: (*parser).callonDocumentFragment804,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2892, col: 10, offset: 91469},
+																											pos:        position{line: 2896, col: 10, offset: 91577},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7691,28 +7691,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2914, col: 8, offset: 91867},
+																									pos: position{line: 2918, col: 8, offset: 91975},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2901, col: 12, offset: 91640},
+																											pos: position{line: 2905, col: 12, offset: 91748},
 																											run: (*parser).callonDocumentFragment807,
 																											expr: &choiceExpr{
-																												pos: position{line: 2901, col: 13, offset: 91641},
+																												pos: position{line: 2905, col: 13, offset: 91749},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2901, col: 13, offset: 91641},
+																														pos:        position{line: 2905, col: 13, offset: 91749},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2901, col: 20, offset: 91648},
+																														pos:        position{line: 2905, col: 20, offset: 91756},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2901, col: 29, offset: 91657},
+																														pos:        position{line: 2905, col: 29, offset: 91765},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7721,9 +7721,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2911, col: 8, offset: 91817},
+																											pos: position{line: 2915, col: 8, offset: 91925},
 																											expr: &anyMatcher{
-																												line: 2911, col: 9, offset: 91818,
+																												line: 2915, col: 9, offset: 91926,
 																											},
 																										},
 																									},
@@ -7732,39 +7732,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2911, col: 8, offset: 91817},
+																						pos: position{line: 2915, col: 8, offset: 91925},
 																						expr: &anyMatcher{
-																							line: 2911, col: 9, offset: 91818,
+																							line: 2915, col: 9, offset: 91926,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1031, col: 5, offset: 32029},
+																			pos:   position{line: 1035, col: 5, offset: 32137},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 821, col: 5, offset: 26434},
+																				pos: position{line: 825, col: 5, offset: 26542},
 																				run: (*parser).callonDocumentFragment817,
 																				expr: &seqExpr{
-																					pos: position{line: 821, col: 5, offset: 26434},
+																					pos: position{line: 825, col: 5, offset: 26542},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2909, col: 11, offset: 91803},
+																							pos: position{line: 2913, col: 11, offset: 91911},
 																							expr: &anyMatcher{
-																								line: 2909, col: 13, offset: 91805,
+																								line: 2913, col: 13, offset: 91913,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 822, col: 5, offset: 26509},
+																							pos:   position{line: 826, col: 5, offset: 26617},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								run: (*parser).callonDocumentFragment822,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2838, col: 13, offset: 89995},
+																									pos: position{line: 2842, col: 13, offset: 90103},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2838, col: 13, offset: 89995},
+																										pos:        position{line: 2842, col: 13, offset: 90103},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7774,28 +7774,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonDocumentFragment826,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7804,9 +7804,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -7821,27 +7821,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1021, col: 5, offset: 31764},
+														pos:   position{line: 1025, col: 5, offset: 31872},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1021, col: 9, offset: 31768},
+															pos: position{line: 1025, col: 9, offset: 31876},
 															expr: &choiceExpr{
-																pos: position{line: 1027, col: 26, offset: 31950},
+																pos: position{line: 1031, col: 26, offset: 32058},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 786, col: 5, offset: 25207},
+																		pos: position{line: 790, col: 5, offset: 25315},
 																		run: (*parser).callonDocumentFragment836,
 																		expr: &seqExpr{
-																			pos: position{line: 786, col: 5, offset: 25207},
+																			pos: position{line: 790, col: 5, offset: 25315},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 786, col: 5, offset: 25207},
+																					pos:   position{line: 790, col: 5, offset: 25315},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 786, col: 16, offset: 25218},
+																						pos: position{line: 790, col: 16, offset: 25326},
 																						run: (*parser).callonDocumentFragment839,
 																						expr: &litMatcher{
-																							pos:        position{line: 786, col: 16, offset: 25218},
+																							pos:        position{line: 790, col: 16, offset: 25326},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7849,12 +7849,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 788, col: 8, offset: 25295},
+																					pos: position{line: 792, col: 8, offset: 25403},
 																					expr: &actionExpr{
-																						pos: position{line: 2892, col: 10, offset: 91469},
+																						pos: position{line: 2896, col: 10, offset: 91577},
 																						run: (*parser).callonDocumentFragment842,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2892, col: 10, offset: 91469},
+																							pos:        position{line: 2896, col: 10, offset: 91577},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7863,28 +7863,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2914, col: 8, offset: 91867},
+																					pos: position{line: 2918, col: 8, offset: 91975},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2901, col: 12, offset: 91640},
+																							pos: position{line: 2905, col: 12, offset: 91748},
 																							run: (*parser).callonDocumentFragment845,
 																							expr: &choiceExpr{
-																								pos: position{line: 2901, col: 13, offset: 91641},
+																								pos: position{line: 2905, col: 13, offset: 91749},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 13, offset: 91641},
+																										pos:        position{line: 2905, col: 13, offset: 91749},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 20, offset: 91648},
+																										pos:        position{line: 2905, col: 20, offset: 91756},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 29, offset: 91657},
+																										pos:        position{line: 2905, col: 29, offset: 91765},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7893,9 +7893,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2911, col: 8, offset: 91817},
+																							pos: position{line: 2915, col: 8, offset: 91925},
 																							expr: &anyMatcher{
-																								line: 2911, col: 9, offset: 91818,
+																								line: 2915, col: 9, offset: 91926,
 																							},
 																						},
 																					},
@@ -7904,9 +7904,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2911, col: 8, offset: 91817},
+																		pos: position{line: 2915, col: 8, offset: 91925},
 																		expr: &anyMatcher{
-																			line: 2911, col: 9, offset: 91818,
+																			line: 2915, col: 9, offset: 91926,
 																		},
 																	},
 																},
@@ -7917,39 +7917,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1039, col: 5, offset: 32192},
+											pos: position{line: 1043, col: 5, offset: 32300},
 											run: (*parser).callonDocumentFragment854,
 											expr: &seqExpr{
-												pos: position{line: 1039, col: 5, offset: 32192},
+												pos: position{line: 1043, col: 5, offset: 32300},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1039, col: 5, offset: 32192},
+														pos:   position{line: 1043, col: 5, offset: 32300},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 800, col: 5, offset: 25690},
+															pos: position{line: 804, col: 5, offset: 25798},
 															run: (*parser).callonDocumentFragment857,
 															expr: &seqExpr{
-																pos: position{line: 800, col: 5, offset: 25690},
+																pos: position{line: 804, col: 5, offset: 25798},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 800, col: 5, offset: 25690},
+																		pos:   position{line: 804, col: 5, offset: 25798},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 800, col: 16, offset: 25701},
+																			pos: position{line: 804, col: 16, offset: 25809},
 																			run: (*parser).callonDocumentFragment860,
 																			expr: &seqExpr{
-																				pos: position{line: 800, col: 16, offset: 25701},
+																				pos: position{line: 804, col: 16, offset: 25809},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 800, col: 16, offset: 25701},
+																						pos:        position{line: 804, col: 16, offset: 25809},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 800, col: 23, offset: 25708},
+																						pos: position{line: 804, col: 23, offset: 25816},
 																						expr: &litMatcher{
-																							pos:        position{line: 800, col: 23, offset: 25708},
+																							pos:        position{line: 804, col: 23, offset: 25816},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7960,12 +7960,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 802, col: 8, offset: 25792},
+																		pos: position{line: 806, col: 8, offset: 25900},
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 10, offset: 91469},
+																			pos: position{line: 2896, col: 10, offset: 91577},
 																			run: (*parser).callonDocumentFragment866,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2892, col: 10, offset: 91469},
+																				pos:        position{line: 2896, col: 10, offset: 91577},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7974,28 +7974,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2914, col: 8, offset: 91867},
+																		pos: position{line: 2918, col: 8, offset: 91975},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91640},
+																				pos: position{line: 2905, col: 12, offset: 91748},
 																				run: (*parser).callonDocumentFragment869,
 																				expr: &choiceExpr{
-																					pos: position{line: 2901, col: 13, offset: 91641},
+																					pos: position{line: 2905, col: 13, offset: 91749},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 13, offset: 91641},
+																							pos:        position{line: 2905, col: 13, offset: 91749},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 20, offset: 91648},
+																							pos:        position{line: 2905, col: 20, offset: 91756},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 29, offset: 91657},
+																							pos:        position{line: 2905, col: 29, offset: 91765},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8004,9 +8004,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2911, col: 8, offset: 91817},
+																				pos: position{line: 2915, col: 8, offset: 91925},
 																				expr: &anyMatcher{
-																					line: 2911, col: 9, offset: 91818,
+																					line: 2915, col: 9, offset: 91926,
 																				},
 																			},
 																		},
@@ -8016,56 +8016,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1040, col: 5, offset: 32235},
+														pos: position{line: 1044, col: 5, offset: 32343},
 														run: (*parser).callonDocumentFragment876,
 													},
 													&labeledExpr{
-														pos:   position{line: 1043, col: 5, offset: 32327},
+														pos:   position{line: 1047, col: 5, offset: 32435},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1058, col: 5, offset: 32757},
+															pos: position{line: 1062, col: 5, offset: 32865},
 															expr: &actionExpr{
-																pos: position{line: 1058, col: 6, offset: 32758},
+																pos: position{line: 1062, col: 6, offset: 32866},
 																run: (*parser).callonDocumentFragment879,
 																expr: &seqExpr{
-																	pos: position{line: 1058, col: 6, offset: 32758},
+																	pos: position{line: 1062, col: 6, offset: 32866},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1058, col: 6, offset: 32758},
+																			pos: position{line: 1062, col: 6, offset: 32866},
 																			expr: &choiceExpr{
-																				pos: position{line: 1051, col: 5, offset: 32591},
+																				pos: position{line: 1055, col: 5, offset: 32699},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1051, col: 5, offset: 32591},
+																						pos: position{line: 1055, col: 5, offset: 32699},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1051, col: 5, offset: 32591},
+																								pos:   position{line: 1055, col: 5, offset: 32699},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 800, col: 5, offset: 25690},
+																									pos: position{line: 804, col: 5, offset: 25798},
 																									run: (*parser).callonDocumentFragment885,
 																									expr: &seqExpr{
-																										pos: position{line: 800, col: 5, offset: 25690},
+																										pos: position{line: 804, col: 5, offset: 25798},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 800, col: 5, offset: 25690},
+																												pos:   position{line: 804, col: 5, offset: 25798},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 800, col: 16, offset: 25701},
+																													pos: position{line: 804, col: 16, offset: 25809},
 																													run: (*parser).callonDocumentFragment888,
 																													expr: &seqExpr{
-																														pos: position{line: 800, col: 16, offset: 25701},
+																														pos: position{line: 804, col: 16, offset: 25809},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 800, col: 16, offset: 25701},
+																																pos:        position{line: 804, col: 16, offset: 25809},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 800, col: 23, offset: 25708},
+																																pos: position{line: 804, col: 23, offset: 25816},
 																																expr: &litMatcher{
-																																	pos:        position{line: 800, col: 23, offset: 25708},
+																																	pos:        position{line: 804, col: 23, offset: 25816},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -8076,12 +8076,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 802, col: 8, offset: 25792},
+																												pos: position{line: 806, col: 8, offset: 25900},
 																												expr: &actionExpr{
-																													pos: position{line: 2892, col: 10, offset: 91469},
+																													pos: position{line: 2896, col: 10, offset: 91577},
 																													run: (*parser).callonDocumentFragment894,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2892, col: 10, offset: 91469},
+																														pos:        position{line: 2896, col: 10, offset: 91577},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8090,28 +8090,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2914, col: 8, offset: 91867},
+																												pos: position{line: 2918, col: 8, offset: 91975},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2901, col: 12, offset: 91640},
+																														pos: position{line: 2905, col: 12, offset: 91748},
 																														run: (*parser).callonDocumentFragment897,
 																														expr: &choiceExpr{
-																															pos: position{line: 2901, col: 13, offset: 91641},
+																															pos: position{line: 2905, col: 13, offset: 91749},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 13, offset: 91641},
+																																	pos:        position{line: 2905, col: 13, offset: 91749},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 20, offset: 91648},
+																																	pos:        position{line: 2905, col: 20, offset: 91756},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 29, offset: 91657},
+																																	pos:        position{line: 2905, col: 29, offset: 91765},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8120,9 +8120,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2911, col: 8, offset: 91817},
+																														pos: position{line: 2915, col: 8, offset: 91925},
 																														expr: &anyMatcher{
-																															line: 2911, col: 9, offset: 91818,
+																															line: 2915, col: 9, offset: 91926,
 																														},
 																													},
 																												},
@@ -8132,45 +8132,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1052, col: 5, offset: 32626},
+																								pos: position{line: 1056, col: 5, offset: 32734},
 																								run: (*parser).callonDocumentFragment904,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2911, col: 8, offset: 91817},
+																						pos: position{line: 2915, col: 8, offset: 91925},
 																						expr: &anyMatcher{
-																							line: 2911, col: 9, offset: 91818,
+																							line: 2915, col: 9, offset: 91926,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1059, col: 5, offset: 32792},
+																			pos:   position{line: 1063, col: 5, offset: 32900},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 821, col: 5, offset: 26434},
+																				pos: position{line: 825, col: 5, offset: 26542},
 																				run: (*parser).callonDocumentFragment908,
 																				expr: &seqExpr{
-																					pos: position{line: 821, col: 5, offset: 26434},
+																					pos: position{line: 825, col: 5, offset: 26542},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2909, col: 11, offset: 91803},
+																							pos: position{line: 2913, col: 11, offset: 91911},
 																							expr: &anyMatcher{
-																								line: 2909, col: 13, offset: 91805,
+																								line: 2913, col: 13, offset: 91913,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 822, col: 5, offset: 26509},
+																							pos:   position{line: 826, col: 5, offset: 26617},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								run: (*parser).callonDocumentFragment913,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2838, col: 13, offset: 89995},
+																									pos: position{line: 2842, col: 13, offset: 90103},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2838, col: 13, offset: 89995},
+																										pos:        position{line: 2842, col: 13, offset: 90103},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8180,28 +8180,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonDocumentFragment917,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8210,9 +8210,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -8227,44 +8227,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1044, col: 5, offset: 32365},
+														pos:   position{line: 1048, col: 5, offset: 32473},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1044, col: 9, offset: 32369},
+															pos: position{line: 1048, col: 9, offset: 32477},
 															expr: &choiceExpr{
-																pos: position{line: 1051, col: 5, offset: 32591},
+																pos: position{line: 1055, col: 5, offset: 32699},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1051, col: 5, offset: 32591},
+																		pos: position{line: 1055, col: 5, offset: 32699},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1051, col: 5, offset: 32591},
+																				pos:   position{line: 1055, col: 5, offset: 32699},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 800, col: 5, offset: 25690},
+																					pos: position{line: 804, col: 5, offset: 25798},
 																					run: (*parser).callonDocumentFragment929,
 																					expr: &seqExpr{
-																						pos: position{line: 800, col: 5, offset: 25690},
+																						pos: position{line: 804, col: 5, offset: 25798},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 800, col: 5, offset: 25690},
+																								pos:   position{line: 804, col: 5, offset: 25798},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 800, col: 16, offset: 25701},
+																									pos: position{line: 804, col: 16, offset: 25809},
 																									run: (*parser).callonDocumentFragment932,
 																									expr: &seqExpr{
-																										pos: position{line: 800, col: 16, offset: 25701},
+																										pos: position{line: 804, col: 16, offset: 25809},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 800, col: 16, offset: 25701},
+																												pos:        position{line: 804, col: 16, offset: 25809},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 800, col: 23, offset: 25708},
+																												pos: position{line: 804, col: 23, offset: 25816},
 																												expr: &litMatcher{
-																													pos:        position{line: 800, col: 23, offset: 25708},
+																													pos:        position{line: 804, col: 23, offset: 25816},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -8275,12 +8275,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 802, col: 8, offset: 25792},
+																								pos: position{line: 806, col: 8, offset: 25900},
 																								expr: &actionExpr{
-																									pos: position{line: 2892, col: 10, offset: 91469},
+																									pos: position{line: 2896, col: 10, offset: 91577},
 																									run: (*parser).callonDocumentFragment938,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 10, offset: 91469},
+																										pos:        position{line: 2896, col: 10, offset: 91577},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8289,28 +8289,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2914, col: 8, offset: 91867},
+																								pos: position{line: 2918, col: 8, offset: 91975},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2901, col: 12, offset: 91640},
+																										pos: position{line: 2905, col: 12, offset: 91748},
 																										run: (*parser).callonDocumentFragment941,
 																										expr: &choiceExpr{
-																											pos: position{line: 2901, col: 13, offset: 91641},
+																											pos: position{line: 2905, col: 13, offset: 91749},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 13, offset: 91641},
+																													pos:        position{line: 2905, col: 13, offset: 91749},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 20, offset: 91648},
+																													pos:        position{line: 2905, col: 20, offset: 91756},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 29, offset: 91657},
+																													pos:        position{line: 2905, col: 29, offset: 91765},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8319,9 +8319,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2911, col: 8, offset: 91817},
+																										pos: position{line: 2915, col: 8, offset: 91925},
 																										expr: &anyMatcher{
-																											line: 2911, col: 9, offset: 91818,
+																											line: 2915, col: 9, offset: 91926,
 																										},
 																									},
 																								},
@@ -8331,15 +8331,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1052, col: 5, offset: 32626},
+																				pos: position{line: 1056, col: 5, offset: 32734},
 																				run: (*parser).callonDocumentFragment948,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2911, col: 8, offset: 91817},
+																		pos: position{line: 2915, col: 8, offset: 91925},
 																		expr: &anyMatcher{
-																			line: 2911, col: 9, offset: 91818,
+																			line: 2915, col: 9, offset: 91926,
 																		},
 																	},
 																},
@@ -8350,39 +8350,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1067, col: 5, offset: 32943},
+											pos: position{line: 1071, col: 5, offset: 33051},
 											run: (*parser).callonDocumentFragment951,
 											expr: &seqExpr{
-												pos: position{line: 1067, col: 5, offset: 32943},
+												pos: position{line: 1071, col: 5, offset: 33051},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1067, col: 5, offset: 32943},
+														pos:   position{line: 1071, col: 5, offset: 33051},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 807, col: 5, offset: 25940},
+															pos: position{line: 811, col: 5, offset: 26048},
 															run: (*parser).callonDocumentFragment954,
 															expr: &seqExpr{
-																pos: position{line: 807, col: 5, offset: 25940},
+																pos: position{line: 811, col: 5, offset: 26048},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 807, col: 5, offset: 25940},
+																		pos:   position{line: 811, col: 5, offset: 26048},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 807, col: 16, offset: 25951},
+																			pos: position{line: 811, col: 16, offset: 26059},
 																			run: (*parser).callonDocumentFragment957,
 																			expr: &seqExpr{
-																				pos: position{line: 807, col: 16, offset: 25951},
+																				pos: position{line: 811, col: 16, offset: 26059},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 807, col: 16, offset: 25951},
+																						pos:        position{line: 811, col: 16, offset: 26059},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 807, col: 23, offset: 25958},
+																						pos: position{line: 811, col: 23, offset: 26066},
 																						expr: &litMatcher{
-																							pos:        position{line: 807, col: 23, offset: 25958},
+																							pos:        position{line: 811, col: 23, offset: 26066},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8393,12 +8393,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 809, col: 8, offset: 26042},
+																		pos: position{line: 813, col: 8, offset: 26150},
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 10, offset: 91469},
+																			pos: position{line: 2896, col: 10, offset: 91577},
 																			run: (*parser).callonDocumentFragment963,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2892, col: 10, offset: 91469},
+																				pos:        position{line: 2896, col: 10, offset: 91577},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8407,28 +8407,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2914, col: 8, offset: 91867},
+																		pos: position{line: 2918, col: 8, offset: 91975},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91640},
+																				pos: position{line: 2905, col: 12, offset: 91748},
 																				run: (*parser).callonDocumentFragment966,
 																				expr: &choiceExpr{
-																					pos: position{line: 2901, col: 13, offset: 91641},
+																					pos: position{line: 2905, col: 13, offset: 91749},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 13, offset: 91641},
+																							pos:        position{line: 2905, col: 13, offset: 91749},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 20, offset: 91648},
+																							pos:        position{line: 2905, col: 20, offset: 91756},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 29, offset: 91657},
+																							pos:        position{line: 2905, col: 29, offset: 91765},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8437,9 +8437,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2911, col: 8, offset: 91817},
+																				pos: position{line: 2915, col: 8, offset: 91925},
 																				expr: &anyMatcher{
-																					line: 2911, col: 9, offset: 91818,
+																					line: 2915, col: 9, offset: 91926,
 																				},
 																			},
 																		},
@@ -8449,56 +8449,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1068, col: 5, offset: 32980},
+														pos: position{line: 1072, col: 5, offset: 33088},
 														run: (*parser).callonDocumentFragment973,
 													},
 													&labeledExpr{
-														pos:   position{line: 1071, col: 5, offset: 33072},
+														pos:   position{line: 1075, col: 5, offset: 33180},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1086, col: 4, offset: 33453},
+															pos: position{line: 1090, col: 4, offset: 33561},
 															expr: &actionExpr{
-																pos: position{line: 1086, col: 5, offset: 33454},
+																pos: position{line: 1090, col: 5, offset: 33562},
 																run: (*parser).callonDocumentFragment976,
 																expr: &seqExpr{
-																	pos: position{line: 1086, col: 5, offset: 33454},
+																	pos: position{line: 1090, col: 5, offset: 33562},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1086, col: 5, offset: 33454},
+																			pos: position{line: 1090, col: 5, offset: 33562},
 																			expr: &choiceExpr{
-																				pos: position{line: 1079, col: 5, offset: 33300},
+																				pos: position{line: 1083, col: 5, offset: 33408},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1079, col: 5, offset: 33300},
+																						pos: position{line: 1083, col: 5, offset: 33408},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1079, col: 5, offset: 33300},
+																								pos:   position{line: 1083, col: 5, offset: 33408},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 807, col: 5, offset: 25940},
+																									pos: position{line: 811, col: 5, offset: 26048},
 																									run: (*parser).callonDocumentFragment982,
 																									expr: &seqExpr{
-																										pos: position{line: 807, col: 5, offset: 25940},
+																										pos: position{line: 811, col: 5, offset: 26048},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 807, col: 5, offset: 25940},
+																												pos:   position{line: 811, col: 5, offset: 26048},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 807, col: 16, offset: 25951},
+																													pos: position{line: 811, col: 16, offset: 26059},
 																													run: (*parser).callonDocumentFragment985,
 																													expr: &seqExpr{
-																														pos: position{line: 807, col: 16, offset: 25951},
+																														pos: position{line: 811, col: 16, offset: 26059},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 807, col: 16, offset: 25951},
+																																pos:        position{line: 811, col: 16, offset: 26059},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 807, col: 23, offset: 25958},
+																																pos: position{line: 811, col: 23, offset: 26066},
 																																expr: &litMatcher{
-																																	pos:        position{line: 807, col: 23, offset: 25958},
+																																	pos:        position{line: 811, col: 23, offset: 26066},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8509,12 +8509,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 809, col: 8, offset: 26042},
+																												pos: position{line: 813, col: 8, offset: 26150},
 																												expr: &actionExpr{
-																													pos: position{line: 2892, col: 10, offset: 91469},
+																													pos: position{line: 2896, col: 10, offset: 91577},
 																													run: (*parser).callonDocumentFragment991,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2892, col: 10, offset: 91469},
+																														pos:        position{line: 2896, col: 10, offset: 91577},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8523,28 +8523,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2914, col: 8, offset: 91867},
+																												pos: position{line: 2918, col: 8, offset: 91975},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2901, col: 12, offset: 91640},
+																														pos: position{line: 2905, col: 12, offset: 91748},
 																														run: (*parser).callonDocumentFragment994,
 																														expr: &choiceExpr{
-																															pos: position{line: 2901, col: 13, offset: 91641},
+																															pos: position{line: 2905, col: 13, offset: 91749},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 13, offset: 91641},
+																																	pos:        position{line: 2905, col: 13, offset: 91749},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 20, offset: 91648},
+																																	pos:        position{line: 2905, col: 20, offset: 91756},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 29, offset: 91657},
+																																	pos:        position{line: 2905, col: 29, offset: 91765},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8553,9 +8553,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2911, col: 8, offset: 91817},
+																														pos: position{line: 2915, col: 8, offset: 91925},
 																														expr: &anyMatcher{
-																															line: 2911, col: 9, offset: 91818,
+																															line: 2915, col: 9, offset: 91926,
 																														},
 																													},
 																												},
@@ -8565,45 +8565,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1080, col: 5, offset: 33329},
+																								pos: position{line: 1084, col: 5, offset: 33437},
 																								run: (*parser).callonDocumentFragment1001,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2911, col: 8, offset: 91817},
+																						pos: position{line: 2915, col: 8, offset: 91925},
 																						expr: &anyMatcher{
-																							line: 2911, col: 9, offset: 91818,
+																							line: 2915, col: 9, offset: 91926,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1087, col: 5, offset: 33482},
+																			pos:   position{line: 1091, col: 5, offset: 33590},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 821, col: 5, offset: 26434},
+																				pos: position{line: 825, col: 5, offset: 26542},
 																				run: (*parser).callonDocumentFragment1005,
 																				expr: &seqExpr{
-																					pos: position{line: 821, col: 5, offset: 26434},
+																					pos: position{line: 825, col: 5, offset: 26542},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2909, col: 11, offset: 91803},
+																							pos: position{line: 2913, col: 11, offset: 91911},
 																							expr: &anyMatcher{
-																								line: 2909, col: 13, offset: 91805,
+																								line: 2913, col: 13, offset: 91913,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 822, col: 5, offset: 26509},
+																							pos:   position{line: 826, col: 5, offset: 26617},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								run: (*parser).callonDocumentFragment1010,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2838, col: 13, offset: 89995},
+																									pos: position{line: 2842, col: 13, offset: 90103},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2838, col: 13, offset: 89995},
+																										pos:        position{line: 2842, col: 13, offset: 90103},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8613,28 +8613,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonDocumentFragment1014,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8643,9 +8643,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -8660,44 +8660,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1072, col: 5, offset: 33104},
+														pos:   position{line: 1076, col: 5, offset: 33212},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1072, col: 9, offset: 33108},
+															pos: position{line: 1076, col: 9, offset: 33216},
 															expr: &choiceExpr{
-																pos: position{line: 1079, col: 5, offset: 33300},
+																pos: position{line: 1083, col: 5, offset: 33408},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1079, col: 5, offset: 33300},
+																		pos: position{line: 1083, col: 5, offset: 33408},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1079, col: 5, offset: 33300},
+																				pos:   position{line: 1083, col: 5, offset: 33408},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 807, col: 5, offset: 25940},
+																					pos: position{line: 811, col: 5, offset: 26048},
 																					run: (*parser).callonDocumentFragment1026,
 																					expr: &seqExpr{
-																						pos: position{line: 807, col: 5, offset: 25940},
+																						pos: position{line: 811, col: 5, offset: 26048},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 807, col: 5, offset: 25940},
+																								pos:   position{line: 811, col: 5, offset: 26048},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 807, col: 16, offset: 25951},
+																									pos: position{line: 811, col: 16, offset: 26059},
 																									run: (*parser).callonDocumentFragment1029,
 																									expr: &seqExpr{
-																										pos: position{line: 807, col: 16, offset: 25951},
+																										pos: position{line: 811, col: 16, offset: 26059},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 807, col: 16, offset: 25951},
+																												pos:        position{line: 811, col: 16, offset: 26059},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 807, col: 23, offset: 25958},
+																												pos: position{line: 811, col: 23, offset: 26066},
 																												expr: &litMatcher{
-																													pos:        position{line: 807, col: 23, offset: 25958},
+																													pos:        position{line: 811, col: 23, offset: 26066},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8708,12 +8708,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 809, col: 8, offset: 26042},
+																								pos: position{line: 813, col: 8, offset: 26150},
 																								expr: &actionExpr{
-																									pos: position{line: 2892, col: 10, offset: 91469},
+																									pos: position{line: 2896, col: 10, offset: 91577},
 																									run: (*parser).callonDocumentFragment1035,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 10, offset: 91469},
+																										pos:        position{line: 2896, col: 10, offset: 91577},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8722,28 +8722,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2914, col: 8, offset: 91867},
+																								pos: position{line: 2918, col: 8, offset: 91975},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2901, col: 12, offset: 91640},
+																										pos: position{line: 2905, col: 12, offset: 91748},
 																										run: (*parser).callonDocumentFragment1038,
 																										expr: &choiceExpr{
-																											pos: position{line: 2901, col: 13, offset: 91641},
+																											pos: position{line: 2905, col: 13, offset: 91749},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 13, offset: 91641},
+																													pos:        position{line: 2905, col: 13, offset: 91749},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 20, offset: 91648},
+																													pos:        position{line: 2905, col: 20, offset: 91756},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 29, offset: 91657},
+																													pos:        position{line: 2905, col: 29, offset: 91765},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8752,9 +8752,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2911, col: 8, offset: 91817},
+																										pos: position{line: 2915, col: 8, offset: 91925},
 																										expr: &anyMatcher{
-																											line: 2911, col: 9, offset: 91818,
+																											line: 2915, col: 9, offset: 91926,
 																										},
 																									},
 																								},
@@ -8764,15 +8764,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1080, col: 5, offset: 33329},
+																				pos: position{line: 1084, col: 5, offset: 33437},
 																				run: (*parser).callonDocumentFragment1045,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2911, col: 8, offset: 91817},
+																		pos: position{line: 2915, col: 8, offset: 91925},
 																		expr: &anyMatcher{
-																			line: 2911, col: 9, offset: 91818,
+																			line: 2915, col: 9, offset: 91926,
 																		},
 																	},
 																},
@@ -8783,39 +8783,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1095, col: 5, offset: 33637},
+											pos: position{line: 1099, col: 5, offset: 33745},
 											run: (*parser).callonDocumentFragment1048,
 											expr: &seqExpr{
-												pos: position{line: 1095, col: 5, offset: 33637},
+												pos: position{line: 1099, col: 5, offset: 33745},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1095, col: 5, offset: 33637},
+														pos:   position{line: 1099, col: 5, offset: 33745},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 814, col: 5, offset: 26186},
+															pos: position{line: 818, col: 5, offset: 26294},
 															run: (*parser).callonDocumentFragment1051,
 															expr: &seqExpr{
-																pos: position{line: 814, col: 5, offset: 26186},
+																pos: position{line: 818, col: 5, offset: 26294},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 814, col: 5, offset: 26186},
+																		pos:   position{line: 818, col: 5, offset: 26294},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 814, col: 16, offset: 26197},
+																			pos: position{line: 818, col: 16, offset: 26305},
 																			run: (*parser).callonDocumentFragment1054,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 16, offset: 26197},
+																				pos: position{line: 818, col: 16, offset: 26305},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 814, col: 16, offset: 26197},
+																						pos:        position{line: 818, col: 16, offset: 26305},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 814, col: 23, offset: 26204},
+																						pos: position{line: 818, col: 23, offset: 26312},
 																						expr: &litMatcher{
-																							pos:        position{line: 814, col: 23, offset: 26204},
+																							pos:        position{line: 818, col: 23, offset: 26312},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8826,12 +8826,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 816, col: 8, offset: 26288},
+																		pos: position{line: 820, col: 8, offset: 26396},
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 10, offset: 91469},
+																			pos: position{line: 2896, col: 10, offset: 91577},
 																			run: (*parser).callonDocumentFragment1060,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2892, col: 10, offset: 91469},
+																				pos:        position{line: 2896, col: 10, offset: 91577},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8840,28 +8840,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2914, col: 8, offset: 91867},
+																		pos: position{line: 2918, col: 8, offset: 91975},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91640},
+																				pos: position{line: 2905, col: 12, offset: 91748},
 																				run: (*parser).callonDocumentFragment1063,
 																				expr: &choiceExpr{
-																					pos: position{line: 2901, col: 13, offset: 91641},
+																					pos: position{line: 2905, col: 13, offset: 91749},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 13, offset: 91641},
+																							pos:        position{line: 2905, col: 13, offset: 91749},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 20, offset: 91648},
+																							pos:        position{line: 2905, col: 20, offset: 91756},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 29, offset: 91657},
+																							pos:        position{line: 2905, col: 29, offset: 91765},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8870,9 +8870,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2911, col: 8, offset: 91817},
+																				pos: position{line: 2915, col: 8, offset: 91925},
 																				expr: &anyMatcher{
-																					line: 2911, col: 9, offset: 91818,
+																					line: 2915, col: 9, offset: 91926,
 																				},
 																			},
 																		},
@@ -8882,56 +8882,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1096, col: 5, offset: 33676},
+														pos: position{line: 1100, col: 5, offset: 33784},
 														run: (*parser).callonDocumentFragment1070,
 													},
 													&labeledExpr{
-														pos:   position{line: 1099, col: 5, offset: 33768},
+														pos:   position{line: 1103, col: 5, offset: 33876},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1114, col: 4, offset: 34165},
+															pos: position{line: 1118, col: 4, offset: 34273},
 															expr: &actionExpr{
-																pos: position{line: 1114, col: 5, offset: 34166},
+																pos: position{line: 1118, col: 5, offset: 34274},
 																run: (*parser).callonDocumentFragment1073,
 																expr: &seqExpr{
-																	pos: position{line: 1114, col: 5, offset: 34166},
+																	pos: position{line: 1118, col: 5, offset: 34274},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1114, col: 5, offset: 34166},
+																			pos: position{line: 1118, col: 5, offset: 34274},
 																			expr: &choiceExpr{
-																				pos: position{line: 1107, col: 5, offset: 34008},
+																				pos: position{line: 1111, col: 5, offset: 34116},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1107, col: 5, offset: 34008},
+																						pos: position{line: 1111, col: 5, offset: 34116},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1107, col: 5, offset: 34008},
+																								pos:   position{line: 1111, col: 5, offset: 34116},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 814, col: 5, offset: 26186},
+																									pos: position{line: 818, col: 5, offset: 26294},
 																									run: (*parser).callonDocumentFragment1079,
 																									expr: &seqExpr{
-																										pos: position{line: 814, col: 5, offset: 26186},
+																										pos: position{line: 818, col: 5, offset: 26294},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 814, col: 5, offset: 26186},
+																												pos:   position{line: 818, col: 5, offset: 26294},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 814, col: 16, offset: 26197},
+																													pos: position{line: 818, col: 16, offset: 26305},
 																													run: (*parser).callonDocumentFragment1082,
 																													expr: &seqExpr{
-																														pos: position{line: 814, col: 16, offset: 26197},
+																														pos: position{line: 818, col: 16, offset: 26305},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 814, col: 16, offset: 26197},
+																																pos:        position{line: 818, col: 16, offset: 26305},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 814, col: 23, offset: 26204},
+																																pos: position{line: 818, col: 23, offset: 26312},
 																																expr: &litMatcher{
-																																	pos:        position{line: 814, col: 23, offset: 26204},
+																																	pos:        position{line: 818, col: 23, offset: 26312},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8942,12 +8942,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 816, col: 8, offset: 26288},
+																												pos: position{line: 820, col: 8, offset: 26396},
 																												expr: &actionExpr{
-																													pos: position{line: 2892, col: 10, offset: 91469},
+																													pos: position{line: 2896, col: 10, offset: 91577},
 																													run: (*parser).callonDocumentFragment1088,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2892, col: 10, offset: 91469},
+																														pos:        position{line: 2896, col: 10, offset: 91577},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8956,28 +8956,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2914, col: 8, offset: 91867},
+																												pos: position{line: 2918, col: 8, offset: 91975},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2901, col: 12, offset: 91640},
+																														pos: position{line: 2905, col: 12, offset: 91748},
 																														run: (*parser).callonDocumentFragment1091,
 																														expr: &choiceExpr{
-																															pos: position{line: 2901, col: 13, offset: 91641},
+																															pos: position{line: 2905, col: 13, offset: 91749},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 13, offset: 91641},
+																																	pos:        position{line: 2905, col: 13, offset: 91749},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 20, offset: 91648},
+																																	pos:        position{line: 2905, col: 20, offset: 91756},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 29, offset: 91657},
+																																	pos:        position{line: 2905, col: 29, offset: 91765},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8986,9 +8986,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2911, col: 8, offset: 91817},
+																														pos: position{line: 2915, col: 8, offset: 91925},
 																														expr: &anyMatcher{
-																															line: 2911, col: 9, offset: 91818,
+																															line: 2915, col: 9, offset: 91926,
 																														},
 																													},
 																												},
@@ -8998,45 +8998,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1108, col: 5, offset: 34039},
+																								pos: position{line: 1112, col: 5, offset: 34147},
 																								run: (*parser).callonDocumentFragment1098,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2911, col: 8, offset: 91817},
+																						pos: position{line: 2915, col: 8, offset: 91925},
 																						expr: &anyMatcher{
-																							line: 2911, col: 9, offset: 91818,
+																							line: 2915, col: 9, offset: 91926,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1115, col: 5, offset: 34196},
+																			pos:   position{line: 1119, col: 5, offset: 34304},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 821, col: 5, offset: 26434},
+																				pos: position{line: 825, col: 5, offset: 26542},
 																				run: (*parser).callonDocumentFragment1102,
 																				expr: &seqExpr{
-																					pos: position{line: 821, col: 5, offset: 26434},
+																					pos: position{line: 825, col: 5, offset: 26542},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2909, col: 11, offset: 91803},
+																							pos: position{line: 2913, col: 11, offset: 91911},
 																							expr: &anyMatcher{
-																								line: 2909, col: 13, offset: 91805,
+																								line: 2913, col: 13, offset: 91913,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 822, col: 5, offset: 26509},
+																							pos:   position{line: 826, col: 5, offset: 26617},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								run: (*parser).callonDocumentFragment1107,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2838, col: 13, offset: 89995},
+																									pos: position{line: 2842, col: 13, offset: 90103},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2838, col: 13, offset: 89995},
+																										pos:        position{line: 2842, col: 13, offset: 90103},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -9046,28 +9046,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonDocumentFragment1111,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -9076,9 +9076,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -9093,44 +9093,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1100, col: 5, offset: 33802},
+														pos:   position{line: 1104, col: 5, offset: 33910},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1100, col: 9, offset: 33806},
+															pos: position{line: 1104, col: 9, offset: 33914},
 															expr: &choiceExpr{
-																pos: position{line: 1107, col: 5, offset: 34008},
+																pos: position{line: 1111, col: 5, offset: 34116},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1107, col: 5, offset: 34008},
+																		pos: position{line: 1111, col: 5, offset: 34116},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1107, col: 5, offset: 34008},
+																				pos:   position{line: 1111, col: 5, offset: 34116},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 814, col: 5, offset: 26186},
+																					pos: position{line: 818, col: 5, offset: 26294},
 																					run: (*parser).callonDocumentFragment1123,
 																					expr: &seqExpr{
-																						pos: position{line: 814, col: 5, offset: 26186},
+																						pos: position{line: 818, col: 5, offset: 26294},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 814, col: 5, offset: 26186},
+																								pos:   position{line: 818, col: 5, offset: 26294},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 814, col: 16, offset: 26197},
+																									pos: position{line: 818, col: 16, offset: 26305},
 																									run: (*parser).callonDocumentFragment1126,
 																									expr: &seqExpr{
-																										pos: position{line: 814, col: 16, offset: 26197},
+																										pos: position{line: 818, col: 16, offset: 26305},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 814, col: 16, offset: 26197},
+																												pos:        position{line: 818, col: 16, offset: 26305},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 814, col: 23, offset: 26204},
+																												pos: position{line: 818, col: 23, offset: 26312},
 																												expr: &litMatcher{
-																													pos:        position{line: 814, col: 23, offset: 26204},
+																													pos:        position{line: 818, col: 23, offset: 26312},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -9141,12 +9141,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 816, col: 8, offset: 26288},
+																								pos: position{line: 820, col: 8, offset: 26396},
 																								expr: &actionExpr{
-																									pos: position{line: 2892, col: 10, offset: 91469},
+																									pos: position{line: 2896, col: 10, offset: 91577},
 																									run: (*parser).callonDocumentFragment1132,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 10, offset: 91469},
+																										pos:        position{line: 2896, col: 10, offset: 91577},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -9155,28 +9155,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2914, col: 8, offset: 91867},
+																								pos: position{line: 2918, col: 8, offset: 91975},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2901, col: 12, offset: 91640},
+																										pos: position{line: 2905, col: 12, offset: 91748},
 																										run: (*parser).callonDocumentFragment1135,
 																										expr: &choiceExpr{
-																											pos: position{line: 2901, col: 13, offset: 91641},
+																											pos: position{line: 2905, col: 13, offset: 91749},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 13, offset: 91641},
+																													pos:        position{line: 2905, col: 13, offset: 91749},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 20, offset: 91648},
+																													pos:        position{line: 2905, col: 20, offset: 91756},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 29, offset: 91657},
+																													pos:        position{line: 2905, col: 29, offset: 91765},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9185,9 +9185,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2911, col: 8, offset: 91817},
+																										pos: position{line: 2915, col: 8, offset: 91925},
 																										expr: &anyMatcher{
-																											line: 2911, col: 9, offset: 91818,
+																											line: 2915, col: 9, offset: 91926,
 																										},
 																									},
 																								},
@@ -9197,15 +9197,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1108, col: 5, offset: 34039},
+																				pos: position{line: 1112, col: 5, offset: 34147},
 																				run: (*parser).callonDocumentFragment1142,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2911, col: 8, offset: 91817},
+																		pos: position{line: 2915, col: 8, offset: 91925},
 																		expr: &anyMatcher{
-																			line: 2911, col: 9, offset: 91818,
+																			line: 2915, col: 9, offset: 91926,
 																		},
 																	},
 																},
@@ -9216,52 +9216,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2737, col: 18, offset: 87059},
+											pos: position{line: 2741, col: 18, offset: 87167},
 											run: (*parser).callonDocumentFragment1145,
 											expr: &seqExpr{
-												pos: position{line: 2737, col: 18, offset: 87059},
+												pos: position{line: 2741, col: 18, offset: 87167},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2738, col: 9, offset: 87069},
+														pos: position{line: 2742, col: 9, offset: 87177},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2738, col: 9, offset: 87069},
+																pos:        position{line: 2742, col: 9, offset: 87177},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2739, col: 11, offset: 87105},
+																pos:        position{line: 2743, col: 11, offset: 87213},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2739, col: 19, offset: 87113},
+																pos:        position{line: 2743, col: 19, offset: 87221},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2739, col: 29, offset: 87123},
+																pos:        position{line: 2743, col: 29, offset: 87231},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2739, col: 37, offset: 87131},
+																pos:        position{line: 2743, col: 37, offset: 87239},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2739, col: 47, offset: 87141},
+																pos:        position{line: 2743, col: 47, offset: 87249},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2739, col: 55, offset: 87149},
+																pos:        position{line: 2743, col: 55, offset: 87257},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9269,12 +9269,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2740, col: 11, offset: 87207},
+														pos: position{line: 2744, col: 11, offset: 87315},
 														expr: &actionExpr{
-															pos: position{line: 2892, col: 10, offset: 91469},
+															pos: position{line: 2896, col: 10, offset: 91577},
 															run: (*parser).callonDocumentFragment1156,
 															expr: &charClassMatcher{
-																pos:        position{line: 2892, col: 10, offset: 91469},
+																pos:        position{line: 2896, col: 10, offset: 91577},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9283,28 +9283,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2914, col: 8, offset: 91867},
+														pos: position{line: 2918, col: 8, offset: 91975},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2901, col: 12, offset: 91640},
+																pos: position{line: 2905, col: 12, offset: 91748},
 																run: (*parser).callonDocumentFragment1159,
 																expr: &choiceExpr{
-																	pos: position{line: 2901, col: 13, offset: 91641},
+																	pos: position{line: 2905, col: 13, offset: 91749},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 13, offset: 91641},
+																			pos:        position{line: 2905, col: 13, offset: 91749},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 20, offset: 91648},
+																			pos:        position{line: 2905, col: 20, offset: 91756},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 29, offset: 91657},
+																			pos:        position{line: 2905, col: 29, offset: 91765},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9313,36 +9313,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2911, col: 8, offset: 91817},
+																pos: position{line: 2915, col: 8, offset: 91925},
 																expr: &anyMatcher{
-																	line: 2911, col: 9, offset: 91818,
+																	line: 2915, col: 9, offset: 91926,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2914, col: 8, offset: 91867},
+														pos: position{line: 2918, col: 8, offset: 91975},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2901, col: 12, offset: 91640},
+																pos: position{line: 2905, col: 12, offset: 91748},
 																run: (*parser).callonDocumentFragment1167,
 																expr: &choiceExpr{
-																	pos: position{line: 2901, col: 13, offset: 91641},
+																	pos: position{line: 2905, col: 13, offset: 91749},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 13, offset: 91641},
+																			pos:        position{line: 2905, col: 13, offset: 91749},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 20, offset: 91648},
+																			pos:        position{line: 2905, col: 20, offset: 91756},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 29, offset: 91657},
+																			pos:        position{line: 2905, col: 29, offset: 91765},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9351,9 +9351,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2911, col: 8, offset: 91817},
+																pos: position{line: 2915, col: 8, offset: 91925},
 																expr: &anyMatcher{
-																	line: 2911, col: 9, offset: 91818,
+																	line: 2915, col: 9, offset: 91926,
 																},
 															},
 														},
@@ -9366,24 +9366,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2622, col: 5, offset: 83841},
+											pos: position{line: 2626, col: 5, offset: 83949},
 											run: (*parser).callonDocumentFragment1175,
 											expr: &seqExpr{
-												pos: position{line: 2622, col: 5, offset: 83841},
+												pos: position{line: 2626, col: 5, offset: 83949},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2634, col: 19, offset: 84110},
+														pos:        position{line: 2638, col: 19, offset: 84218},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2634, col: 26, offset: 84117},
+														pos: position{line: 2638, col: 26, offset: 84225},
 														expr: &actionExpr{
-															pos: position{line: 2892, col: 10, offset: 91469},
+															pos: position{line: 2896, col: 10, offset: 91577},
 															run: (*parser).callonDocumentFragment1179,
 															expr: &charClassMatcher{
-																pos:        position{line: 2892, col: 10, offset: 91469},
+																pos:        position{line: 2896, col: 10, offset: 91577},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9392,28 +9392,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2914, col: 8, offset: 91867},
+														pos: position{line: 2918, col: 8, offset: 91975},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2901, col: 12, offset: 91640},
+																pos: position{line: 2905, col: 12, offset: 91748},
 																run: (*parser).callonDocumentFragment1182,
 																expr: &choiceExpr{
-																	pos: position{line: 2901, col: 13, offset: 91641},
+																	pos: position{line: 2905, col: 13, offset: 91749},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 13, offset: 91641},
+																			pos:        position{line: 2905, col: 13, offset: 91749},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 20, offset: 91648},
+																			pos:        position{line: 2905, col: 20, offset: 91756},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 29, offset: 91657},
+																			pos:        position{line: 2905, col: 29, offset: 91765},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9422,46 +9422,46 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2911, col: 8, offset: 91817},
+																pos: position{line: 2915, col: 8, offset: 91925},
 																expr: &anyMatcher{
-																	line: 2911, col: 9, offset: 91818,
+																	line: 2915, col: 9, offset: 91926,
 																},
 															},
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2623, col: 5, offset: 83865},
+														pos: position{line: 2627, col: 5, offset: 83973},
 														expr: &actionExpr{
-															pos: position{line: 2493, col: 22, offset: 80229},
+															pos: position{line: 2497, col: 22, offset: 80337},
 															run: (*parser).callonDocumentFragment1190,
 															expr: &seqExpr{
-																pos: position{line: 2493, col: 22, offset: 80229},
+																pos: position{line: 2497, col: 22, offset: 80337},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2498, col: 31, offset: 80450},
+																		pos:        position{line: 2502, col: 31, offset: 80558},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2498, col: 36, offset: 80455},
+																		pos: position{line: 2502, col: 36, offset: 80563},
 																		expr: &litMatcher{
-																			pos:        position{line: 2498, col: 37, offset: 80456},
+																			pos:        position{line: 2502, col: 37, offset: 80564},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2493, col: 49, offset: 80256},
+																		pos:   position{line: 2497, col: 49, offset: 80364},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2838, col: 13, offset: 89995},
+																			pos: position{line: 2842, col: 13, offset: 90103},
 																			run: (*parser).callonDocumentFragment1196,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2838, col: 13, offset: 89995},
+																				pos: position{line: 2842, col: 13, offset: 90103},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2838, col: 13, offset: 89995},
+																					pos:        position{line: 2842, col: 13, offset: 90103},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -9471,28 +9471,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2914, col: 8, offset: 91867},
+																		pos: position{line: 2918, col: 8, offset: 91975},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91640},
+																				pos: position{line: 2905, col: 12, offset: 91748},
 																				run: (*parser).callonDocumentFragment1200,
 																				expr: &choiceExpr{
-																					pos: position{line: 2901, col: 13, offset: 91641},
+																					pos: position{line: 2905, col: 13, offset: 91749},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 13, offset: 91641},
+																							pos:        position{line: 2905, col: 13, offset: 91749},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 20, offset: 91648},
+																							pos:        position{line: 2905, col: 20, offset: 91756},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 29, offset: 91657},
+																							pos:        position{line: 2905, col: 29, offset: 91765},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -9501,9 +9501,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2911, col: 8, offset: 91817},
+																				pos: position{line: 2915, col: 8, offset: 91925},
 																				expr: &anyMatcher{
-																					line: 2911, col: 9, offset: 91818,
+																					line: 2915, col: 9, offset: 91926,
 																				},
 																			},
 																		},
@@ -9513,21 +9513,21 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2624, col: 5, offset: 83888},
+														pos:   position{line: 2628, col: 5, offset: 83996},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2624, col: 11, offset: 83894},
+															pos: position{line: 2628, col: 11, offset: 84002},
 															expr: &actionExpr{
-																pos: position{line: 2625, col: 9, offset: 83904},
+																pos: position{line: 2629, col: 9, offset: 84012},
 																run: (*parser).callonDocumentFragment1209,
 																expr: &seqExpr{
-																	pos: position{line: 2625, col: 9, offset: 83904},
+																	pos: position{line: 2629, col: 9, offset: 84012},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 2625, col: 9, offset: 83904},
+																			pos:   position{line: 2629, col: 9, offset: 84012},
 																			label: "line",
 																			expr: &choiceExpr{
-																				pos: position{line: 2625, col: 15, offset: 83910},
+																				pos: position{line: 2629, col: 15, offset: 84018},
 																				alternatives: []interface{}{
 																					&actionExpr{
 																						pos: position{line: 687, col: 14, offset: 21835},
@@ -9536,18 +9536,18 @@ var g = &grammar{
 																							pos: position{line: 687, col: 14, offset: 21835},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2909, col: 11, offset: 91803},
+																									pos: position{line: 2913, col: 11, offset: 91911},
 																									expr: &anyMatcher{
-																										line: 2909, col: 13, offset: 91805,
+																										line: 2913, col: 13, offset: 91913,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 687, col: 21, offset: 21842},
 																									expr: &actionExpr{
-																										pos: position{line: 2892, col: 10, offset: 91469},
+																										pos: position{line: 2896, col: 10, offset: 91577},
 																										run: (*parser).callonDocumentFragment1218,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2892, col: 10, offset: 91469},
+																											pos:        position{line: 2896, col: 10, offset: 91577},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -9556,28 +9556,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2914, col: 8, offset: 91867},
+																									pos: position{line: 2918, col: 8, offset: 91975},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2901, col: 12, offset: 91640},
+																											pos: position{line: 2905, col: 12, offset: 91748},
 																											run: (*parser).callonDocumentFragment1221,
 																											expr: &choiceExpr{
-																												pos: position{line: 2901, col: 13, offset: 91641},
+																												pos: position{line: 2905, col: 13, offset: 91749},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2901, col: 13, offset: 91641},
+																														pos:        position{line: 2905, col: 13, offset: 91749},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2901, col: 20, offset: 91648},
+																														pos:        position{line: 2905, col: 20, offset: 91756},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2901, col: 29, offset: 91657},
+																														pos:        position{line: 2905, col: 29, offset: 91765},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -9586,9 +9586,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2911, col: 8, offset: 91817},
+																											pos: position{line: 2915, col: 8, offset: 91925},
 																											expr: &anyMatcher{
-																												line: 2911, col: 9, offset: 91818,
+																												line: 2915, col: 9, offset: 91926,
 																											},
 																										},
 																									},
@@ -9597,32 +9597,32 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2641, col: 5, offset: 84229},
+																						pos: position{line: 2645, col: 5, offset: 84337},
 																						run: (*parser).callonDocumentFragment1228,
 																						expr: &seqExpr{
-																							pos: position{line: 2641, col: 5, offset: 84229},
+																							pos: position{line: 2645, col: 5, offset: 84337},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 2641, col: 5, offset: 84229},
+																									pos: position{line: 2645, col: 5, offset: 84337},
 																									expr: &choiceExpr{
-																										pos: position{line: 2638, col: 22, offset: 84190},
+																										pos: position{line: 2642, col: 22, offset: 84298},
 																										alternatives: []interface{}{
 																											&seqExpr{
-																												pos: position{line: 2634, col: 19, offset: 84110},
+																												pos: position{line: 2638, col: 19, offset: 84218},
 																												exprs: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2634, col: 19, offset: 84110},
+																														pos:        position{line: 2638, col: 19, offset: 84218},
 																														val:        "|===",
 																														ignoreCase: false,
 																														want:       "\"|===\"",
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 2634, col: 26, offset: 84117},
+																														pos: position{line: 2638, col: 26, offset: 84225},
 																														expr: &actionExpr{
-																															pos: position{line: 2892, col: 10, offset: 91469},
+																															pos: position{line: 2896, col: 10, offset: 91577},
 																															run: (*parser).callonDocumentFragment1235,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 2892, col: 10, offset: 91469},
+																																pos:        position{line: 2896, col: 10, offset: 91577},
 																																val:        "[\\t ]",
 																																chars:      []rune{'\t', ' '},
 																																ignoreCase: false,
@@ -9631,28 +9631,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2914, col: 8, offset: 91867},
+																														pos: position{line: 2918, col: 8, offset: 91975},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2901, col: 12, offset: 91640},
+																																pos: position{line: 2905, col: 12, offset: 91748},
 																																run: (*parser).callonDocumentFragment1238,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2901, col: 13, offset: 91641},
+																																	pos: position{line: 2905, col: 13, offset: 91749},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2901, col: 13, offset: 91641},
+																																			pos:        position{line: 2905, col: 13, offset: 91749},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2901, col: 20, offset: 91648},
+																																			pos:        position{line: 2905, col: 20, offset: 91756},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2901, col: 29, offset: 91657},
+																																			pos:        position{line: 2905, col: 29, offset: 91765},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -9661,9 +9661,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2911, col: 8, offset: 91817},
+																																pos: position{line: 2915, col: 8, offset: 91925},
 																																expr: &anyMatcher{
-																																	line: 2911, col: 9, offset: 91818,
+																																	line: 2915, col: 9, offset: 91926,
 																																},
 																															},
 																														},
@@ -9671,59 +9671,59 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2911, col: 8, offset: 91817},
+																												pos: position{line: 2915, col: 8, offset: 91925},
 																												expr: &anyMatcher{
-																													line: 2911, col: 9, offset: 91818,
+																													line: 2915, col: 9, offset: 91926,
 																												},
 																											},
 																										},
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 2642, col: 5, offset: 84252},
+																									pos:   position{line: 2646, col: 5, offset: 84360},
 																									label: "content",
 																									expr: &choiceExpr{
-																										pos: position{line: 2643, col: 9, offset: 84270},
+																										pos: position{line: 2647, col: 9, offset: 84378},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2643, col: 10, offset: 84271},
+																												pos: position{line: 2647, col: 10, offset: 84379},
 																												run: (*parser).callonDocumentFragment1249,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2643, col: 10, offset: 84271},
+																													pos:   position{line: 2647, col: 10, offset: 84379},
 																													label: "cells",
 																													expr: &choiceExpr{
-																														pos: position{line: 2643, col: 17, offset: 84278},
+																														pos: position{line: 2647, col: 17, offset: 84386},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2651, col: 21, offset: 84474},
+																																pos: position{line: 2655, col: 21, offset: 84582},
 																																run: (*parser).callonDocumentFragment1252,
 																																expr: &seqExpr{
-																																	pos: position{line: 2651, col: 21, offset: 84474},
+																																	pos: position{line: 2655, col: 21, offset: 84582},
 																																	exprs: []interface{}{
 																																		&labeledExpr{
-																																			pos:   position{line: 2651, col: 21, offset: 84474},
+																																			pos:   position{line: 2655, col: 21, offset: 84582},
 																																			label: "cells",
 																																			expr: &oneOrMoreExpr{
-																																				pos: position{line: 2651, col: 27, offset: 84480},
+																																				pos: position{line: 2655, col: 27, offset: 84588},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2656, col: 5, offset: 84555},
+																																					pos: position{line: 2660, col: 5, offset: 84663},
 																																					run: (*parser).callonDocumentFragment1256,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2656, col: 5, offset: 84555},
+																																						pos: position{line: 2660, col: 5, offset: 84663},
 																																						exprs: []interface{}{
 																																							&litMatcher{
-																																								pos:        position{line: 2656, col: 5, offset: 84555},
+																																								pos:        position{line: 2660, col: 5, offset: 84663},
 																																								val:        "|",
 																																								ignoreCase: false,
 																																								want:       "\"|\"",
 																																							},
 																																							&zeroOrMoreExpr{
-																																								pos: position{line: 2656, col: 9, offset: 84559},
+																																								pos: position{line: 2660, col: 9, offset: 84667},
 																																								expr: &actionExpr{
-																																									pos: position{line: 2892, col: 10, offset: 91469},
+																																									pos: position{line: 2896, col: 10, offset: 91577},
 																																									run: (*parser).callonDocumentFragment1260,
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2892, col: 10, offset: 91469},
+																																										pos:        position{line: 2896, col: 10, offset: 91577},
 																																										val:        "[\\t ]",
 																																										chars:      []rune{'\t', ' '},
 																																										ignoreCase: false,
@@ -9732,21 +9732,21 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2656, col: 16, offset: 84566},
+																																								pos:   position{line: 2660, col: 16, offset: 84674},
 																																								label: "content",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2662, col: 5, offset: 84766},
+																																									pos: position{line: 2666, col: 5, offset: 84874},
 																																									run: (*parser).callonDocumentFragment1263,
 																																									expr: &labeledExpr{
-																																										pos:   position{line: 2662, col: 5, offset: 84766},
+																																										pos:   position{line: 2666, col: 5, offset: 84874},
 																																										label: "content",
 																																										expr: &actionExpr{
-																																											pos: position{line: 2662, col: 14, offset: 84775},
+																																											pos: position{line: 2666, col: 14, offset: 84883},
 																																											run: (*parser).callonDocumentFragment1265,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2662, col: 14, offset: 84775},
+																																												pos: position{line: 2666, col: 14, offset: 84883},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2662, col: 14, offset: 84775},
+																																													pos:        position{line: 2666, col: 14, offset: 84883},
 																																													val:        "[^|\\r\\n]",
 																																													chars:      []rune{'|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -9763,28 +9763,28 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&choiceExpr{
-																																			pos: position{line: 2914, col: 8, offset: 91867},
+																																			pos: position{line: 2918, col: 8, offset: 91975},
 																																			alternatives: []interface{}{
 																																				&actionExpr{
-																																					pos: position{line: 2901, col: 12, offset: 91640},
+																																					pos: position{line: 2905, col: 12, offset: 91748},
 																																					run: (*parser).callonDocumentFragment1269,
 																																					expr: &choiceExpr{
-																																						pos: position{line: 2901, col: 13, offset: 91641},
+																																						pos: position{line: 2905, col: 13, offset: 91749},
 																																						alternatives: []interface{}{
 																																							&litMatcher{
-																																								pos:        position{line: 2901, col: 13, offset: 91641},
+																																								pos:        position{line: 2905, col: 13, offset: 91749},
 																																								val:        "\n",
 																																								ignoreCase: false,
 																																								want:       "\"\\n\"",
 																																							},
 																																							&litMatcher{
-																																								pos:        position{line: 2901, col: 20, offset: 91648},
+																																								pos:        position{line: 2905, col: 20, offset: 91756},
 																																								val:        "\r\n",
 																																								ignoreCase: false,
 																																								want:       "\"\\r\\n\"",
 																																							},
 																																							&litMatcher{
-																																								pos:        position{line: 2901, col: 29, offset: 91657},
+																																								pos:        position{line: 2905, col: 29, offset: 91765},
 																																								val:        "\r",
 																																								ignoreCase: false,
 																																								want:       "\"\\r\"",
@@ -9793,9 +9793,9 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2911, col: 8, offset: 91817},
+																																					pos: position{line: 2915, col: 8, offset: 91925},
 																																					expr: &anyMatcher{
-																																						line: 2911, col: 9, offset: 91818,
+																																						line: 2915, col: 9, offset: 91926,
 																																					},
 																																				},
 																																			},
@@ -9804,40 +9804,40 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 2668, col: 24, offset: 84911},
+																																pos: position{line: 2672, col: 24, offset: 85019},
 																																run: (*parser).callonDocumentFragment1276,
 																																expr: &labeledExpr{
-																																	pos:   position{line: 2668, col: 24, offset: 84911},
+																																	pos:   position{line: 2672, col: 24, offset: 85019},
 																																	label: "cells",
 																																	expr: &oneOrMoreExpr{
-																																		pos: position{line: 2668, col: 30, offset: 84917},
+																																		pos: position{line: 2672, col: 30, offset: 85025},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2673, col: 5, offset: 84993},
+																																			pos: position{line: 2677, col: 5, offset: 85101},
 																																			run: (*parser).callonDocumentFragment1279,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2673, col: 5, offset: 84993},
+																																				pos: position{line: 2677, col: 5, offset: 85101},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2673, col: 5, offset: 84993},
+																																						pos: position{line: 2677, col: 5, offset: 85101},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2638, col: 22, offset: 84190},
+																																							pos: position{line: 2642, col: 22, offset: 84298},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2634, col: 19, offset: 84110},
+																																									pos: position{line: 2638, col: 19, offset: 84218},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2634, col: 19, offset: 84110},
+																																											pos:        position{line: 2638, col: 19, offset: 84218},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2634, col: 26, offset: 84117},
+																																											pos: position{line: 2638, col: 26, offset: 84225},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2892, col: 10, offset: 91469},
+																																												pos: position{line: 2896, col: 10, offset: 91577},
 																																												run: (*parser).callonDocumentFragment1286,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2892, col: 10, offset: 91469},
+																																													pos:        position{line: 2896, col: 10, offset: 91577},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9846,28 +9846,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2914, col: 8, offset: 91867},
+																																											pos: position{line: 2918, col: 8, offset: 91975},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2901, col: 12, offset: 91640},
+																																													pos: position{line: 2905, col: 12, offset: 91748},
 																																													run: (*parser).callonDocumentFragment1289,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2901, col: 13, offset: 91641},
+																																														pos: position{line: 2905, col: 13, offset: 91749},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2901, col: 13, offset: 91641},
+																																																pos:        position{line: 2905, col: 13, offset: 91749},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2901, col: 20, offset: 91648},
+																																																pos:        position{line: 2905, col: 20, offset: 91756},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2901, col: 29, offset: 91657},
+																																																pos:        position{line: 2905, col: 29, offset: 91765},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9876,9 +9876,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2911, col: 8, offset: 91817},
+																																													pos: position{line: 2915, col: 8, offset: 91925},
 																																													expr: &anyMatcher{
-																																														line: 2911, col: 9, offset: 91818,
+																																														line: 2915, col: 9, offset: 91926,
 																																													},
 																																												},
 																																											},
@@ -9886,16 +9886,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2911, col: 8, offset: 91817},
+																																									pos: position{line: 2915, col: 8, offset: 91925},
 																																									expr: &anyMatcher{
-																																										line: 2911, col: 9, offset: 91818,
+																																										line: 2915, col: 9, offset: 91926,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2674, col: 5, offset: 85016},
+																																						pos: position{line: 2678, col: 5, offset: 85124},
 																																						expr: &actionExpr{
 																																							pos: position{line: 687, col: 14, offset: 21835},
 																																							run: (*parser).callonDocumentFragment1299,
@@ -9903,18 +9903,18 @@ var g = &grammar{
 																																								pos: position{line: 687, col: 14, offset: 21835},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2909, col: 11, offset: 91803},
+																																										pos: position{line: 2913, col: 11, offset: 91911},
 																																										expr: &anyMatcher{
-																																											line: 2909, col: 13, offset: 91805,
+																																											line: 2913, col: 13, offset: 91913,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 687, col: 21, offset: 21842},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2892, col: 10, offset: 91469},
+																																											pos: position{line: 2896, col: 10, offset: 91577},
 																																											run: (*parser).callonDocumentFragment1304,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2892, col: 10, offset: 91469},
+																																												pos:        position{line: 2896, col: 10, offset: 91577},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -9923,28 +9923,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2914, col: 8, offset: 91867},
+																																										pos: position{line: 2918, col: 8, offset: 91975},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2901, col: 12, offset: 91640},
+																																												pos: position{line: 2905, col: 12, offset: 91748},
 																																												run: (*parser).callonDocumentFragment1307,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2901, col: 13, offset: 91641},
+																																													pos: position{line: 2905, col: 13, offset: 91749},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2901, col: 13, offset: 91641},
+																																															pos:        position{line: 2905, col: 13, offset: 91749},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2901, col: 20, offset: 91648},
+																																															pos:        position{line: 2905, col: 20, offset: 91756},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2901, col: 29, offset: 91657},
+																																															pos:        position{line: 2905, col: 29, offset: 91765},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -9953,9 +9953,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2911, col: 8, offset: 91817},
+																																												pos: position{line: 2915, col: 8, offset: 91925},
 																																												expr: &anyMatcher{
-																																													line: 2911, col: 9, offset: 91818,
+																																													line: 2915, col: 9, offset: 91926,
 																																												},
 																																											},
 																																										},
@@ -9965,17 +9965,17 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2675, col: 5, offset: 85031},
+																																						pos:   position{line: 2679, col: 5, offset: 85139},
 																																						label: "format",
 																																						expr: &zeroOrOneExpr{
-																																							pos: position{line: 2675, col: 12, offset: 85038},
+																																							pos: position{line: 2679, col: 12, offset: 85146},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2692, col: 20, offset: 85544},
+																																								pos: position{line: 2696, col: 20, offset: 85652},
 																																								run: (*parser).callonDocumentFragment1316,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2692, col: 20, offset: 85544},
+																																									pos: position{line: 2696, col: 20, offset: 85652},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2692, col: 20, offset: 85544},
+																																										pos:        position{line: 2696, col: 20, offset: 85652},
 																																										val:        "[^ |\\r\\n]",
 																																										chars:      []rune{' ', '|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9986,18 +9986,18 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2675, col: 31, offset: 85057},
+																																						pos:        position{line: 2679, col: 31, offset: 85165},
 																																						val:        "|",
 																																						ignoreCase: false,
 																																						want:       "\"|\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2675, col: 35, offset: 85061},
+																																						pos: position{line: 2679, col: 35, offset: 85169},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2892, col: 10, offset: 91469},
+																																							pos: position{line: 2896, col: 10, offset: 91577},
 																																							run: (*parser).callonDocumentFragment1321,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2892, col: 10, offset: 91469},
+																																								pos:        position{line: 2896, col: 10, offset: 91577},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -10006,30 +10006,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2675, col: 42, offset: 85068},
+																																						pos: position{line: 2679, col: 42, offset: 85176},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2675, col: 43, offset: 85069},
+																																							pos: position{line: 2679, col: 43, offset: 85177},
 																																							exprs: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2901, col: 12, offset: 91640},
+																																									pos: position{line: 2905, col: 12, offset: 91748},
 																																									run: (*parser).callonDocumentFragment1325,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2901, col: 13, offset: 91641},
+																																										pos: position{line: 2905, col: 13, offset: 91749},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2901, col: 13, offset: 91641},
+																																												pos:        position{line: 2905, col: 13, offset: 91749},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2901, col: 20, offset: 91648},
+																																												pos:        position{line: 2905, col: 20, offset: 91756},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2901, col: 29, offset: 91657},
+																																												pos:        position{line: 2905, col: 29, offset: 91765},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -10038,38 +10038,38 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&zeroOrMoreExpr{
-																																									pos: position{line: 2675, col: 51, offset: 85077},
+																																									pos: position{line: 2679, col: 51, offset: 85185},
 																																									expr: &actionExpr{
-																																										pos: position{line: 2493, col: 22, offset: 80229},
+																																										pos: position{line: 2497, col: 22, offset: 80337},
 																																										run: (*parser).callonDocumentFragment1331,
 																																										expr: &seqExpr{
-																																											pos: position{line: 2493, col: 22, offset: 80229},
+																																											pos: position{line: 2497, col: 22, offset: 80337},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2498, col: 31, offset: 80450},
+																																													pos:        position{line: 2502, col: 31, offset: 80558},
 																																													val:        "//",
 																																													ignoreCase: false,
 																																													want:       "\"//\"",
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2498, col: 36, offset: 80455},
+																																													pos: position{line: 2502, col: 36, offset: 80563},
 																																													expr: &litMatcher{
-																																														pos:        position{line: 2498, col: 37, offset: 80456},
+																																														pos:        position{line: 2502, col: 37, offset: 80564},
 																																														val:        "//",
 																																														ignoreCase: false,
 																																														want:       "\"//\"",
 																																													},
 																																												},
 																																												&labeledExpr{
-																																													pos:   position{line: 2493, col: 49, offset: 80256},
+																																													pos:   position{line: 2497, col: 49, offset: 80364},
 																																													label: "content",
 																																													expr: &actionExpr{
-																																														pos: position{line: 2838, col: 13, offset: 89995},
+																																														pos: position{line: 2842, col: 13, offset: 90103},
 																																														run: (*parser).callonDocumentFragment1337,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2838, col: 13, offset: 89995},
+																																															pos: position{line: 2842, col: 13, offset: 90103},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2838, col: 13, offset: 89995},
+																																																pos:        position{line: 2842, col: 13, offset: 90103},
 																																																val:        "[^\\r\\n]",
 																																																chars:      []rune{'\r', '\n'},
 																																																ignoreCase: false,
@@ -10079,28 +10079,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2914, col: 8, offset: 91867},
+																																													pos: position{line: 2918, col: 8, offset: 91975},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2901, col: 12, offset: 91640},
+																																															pos: position{line: 2905, col: 12, offset: 91748},
 																																															run: (*parser).callonDocumentFragment1341,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2901, col: 13, offset: 91641},
+																																																pos: position{line: 2905, col: 13, offset: 91749},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2901, col: 13, offset: 91641},
+																																																		pos:        position{line: 2905, col: 13, offset: 91749},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2901, col: 20, offset: 91648},
+																																																		pos:        position{line: 2905, col: 20, offset: 91756},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2901, col: 29, offset: 91657},
+																																																		pos:        position{line: 2905, col: 29, offset: 91765},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -10109,9 +10109,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2911, col: 8, offset: 91817},
+																																															pos: position{line: 2915, col: 8, offset: 91925},
 																																															expr: &anyMatcher{
-																																																line: 2911, col: 9, offset: 91818,
+																																																line: 2915, col: 9, offset: 91926,
 																																															},
 																																														},
 																																													},
@@ -10124,37 +10124,37 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2675, col: 72, offset: 85098},
+																																						pos:   position{line: 2679, col: 72, offset: 85206},
 																																						label: "content",
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2681, col: 5, offset: 85257},
+																																							pos: position{line: 2685, col: 5, offset: 85365},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2682, col: 9, offset: 85267},
+																																								pos: position{line: 2686, col: 9, offset: 85375},
 																																								run: (*parser).callonDocumentFragment1350,
 																																								expr: &seqExpr{
-																																									pos: position{line: 2682, col: 9, offset: 85267},
+																																									pos: position{line: 2686, col: 9, offset: 85375},
 																																									exprs: []interface{}{
 																																										&notExpr{
-																																											pos: position{line: 2682, col: 9, offset: 85267},
+																																											pos: position{line: 2686, col: 9, offset: 85375},
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2638, col: 22, offset: 84190},
+																																												pos: position{line: 2642, col: 22, offset: 84298},
 																																												alternatives: []interface{}{
 																																													&seqExpr{
-																																														pos: position{line: 2634, col: 19, offset: 84110},
+																																														pos: position{line: 2638, col: 19, offset: 84218},
 																																														exprs: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2634, col: 19, offset: 84110},
+																																																pos:        position{line: 2638, col: 19, offset: 84218},
 																																																val:        "|===",
 																																																ignoreCase: false,
 																																																want:       "\"|===\"",
 																																															},
 																																															&zeroOrMoreExpr{
-																																																pos: position{line: 2634, col: 26, offset: 84117},
+																																																pos: position{line: 2638, col: 26, offset: 84225},
 																																																expr: &actionExpr{
-																																																	pos: position{line: 2892, col: 10, offset: 91469},
+																																																	pos: position{line: 2896, col: 10, offset: 91577},
 																																																	run: (*parser).callonDocumentFragment1357,
 																																																	expr: &charClassMatcher{
-																																																		pos:        position{line: 2892, col: 10, offset: 91469},
+																																																		pos:        position{line: 2896, col: 10, offset: 91577},
 																																																		val:        "[\\t ]",
 																																																		chars:      []rune{'\t', ' '},
 																																																		ignoreCase: false,
@@ -10163,28 +10163,28 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&choiceExpr{
-																																																pos: position{line: 2914, col: 8, offset: 91867},
+																																																pos: position{line: 2918, col: 8, offset: 91975},
 																																																alternatives: []interface{}{
 																																																	&actionExpr{
-																																																		pos: position{line: 2901, col: 12, offset: 91640},
+																																																		pos: position{line: 2905, col: 12, offset: 91748},
 																																																		run: (*parser).callonDocumentFragment1360,
 																																																		expr: &choiceExpr{
-																																																			pos: position{line: 2901, col: 13, offset: 91641},
+																																																			pos: position{line: 2905, col: 13, offset: 91749},
 																																																			alternatives: []interface{}{
 																																																				&litMatcher{
-																																																					pos:        position{line: 2901, col: 13, offset: 91641},
+																																																					pos:        position{line: 2905, col: 13, offset: 91749},
 																																																					val:        "\n",
 																																																					ignoreCase: false,
 																																																					want:       "\"\\n\"",
 																																																				},
 																																																				&litMatcher{
-																																																					pos:        position{line: 2901, col: 20, offset: 91648},
+																																																					pos:        position{line: 2905, col: 20, offset: 91756},
 																																																					val:        "\r\n",
 																																																					ignoreCase: false,
 																																																					want:       "\"\\r\\n\"",
 																																																				},
 																																																				&litMatcher{
-																																																					pos:        position{line: 2901, col: 29, offset: 91657},
+																																																					pos:        position{line: 2905, col: 29, offset: 91765},
 																																																					val:        "\r",
 																																																					ignoreCase: false,
 																																																					want:       "\"\\r\"",
@@ -10193,9 +10193,9 @@ var g = &grammar{
 																																																		},
 																																																	},
 																																																	&notExpr{
-																																																		pos: position{line: 2911, col: 8, offset: 91817},
+																																																		pos: position{line: 2915, col: 8, offset: 91925},
 																																																		expr: &anyMatcher{
-																																																			line: 2911, col: 9, offset: 91818,
+																																																			line: 2915, col: 9, offset: 91926,
 																																																		},
 																																																	},
 																																																},
@@ -10203,16 +10203,16 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2911, col: 8, offset: 91817},
+																																														pos: position{line: 2915, col: 8, offset: 91925},
 																																														expr: &anyMatcher{
-																																															line: 2911, col: 9, offset: 91818,
+																																															line: 2915, col: 9, offset: 91926,
 																																														},
 																																													},
 																																												},
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2683, col: 9, offset: 85294},
+																																											pos: position{line: 2687, col: 9, offset: 85402},
 																																											expr: &actionExpr{
 																																												pos: position{line: 687, col: 14, offset: 21835},
 																																												run: (*parser).callonDocumentFragment1370,
@@ -10220,18 +10220,18 @@ var g = &grammar{
 																																													pos: position{line: 687, col: 14, offset: 21835},
 																																													exprs: []interface{}{
 																																														&andExpr{
-																																															pos: position{line: 2909, col: 11, offset: 91803},
+																																															pos: position{line: 2913, col: 11, offset: 91911},
 																																															expr: &anyMatcher{
-																																																line: 2909, col: 13, offset: 91805,
+																																																line: 2913, col: 13, offset: 91913,
 																																															},
 																																														},
 																																														&zeroOrMoreExpr{
 																																															pos: position{line: 687, col: 21, offset: 21842},
 																																															expr: &actionExpr{
-																																																pos: position{line: 2892, col: 10, offset: 91469},
+																																																pos: position{line: 2896, col: 10, offset: 91577},
 																																																run: (*parser).callonDocumentFragment1375,
 																																																expr: &charClassMatcher{
-																																																	pos:        position{line: 2892, col: 10, offset: 91469},
+																																																	pos:        position{line: 2896, col: 10, offset: 91577},
 																																																	val:        "[\\t ]",
 																																																	chars:      []rune{'\t', ' '},
 																																																	ignoreCase: false,
@@ -10240,28 +10240,28 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&choiceExpr{
-																																															pos: position{line: 2914, col: 8, offset: 91867},
+																																															pos: position{line: 2918, col: 8, offset: 91975},
 																																															alternatives: []interface{}{
 																																																&actionExpr{
-																																																	pos: position{line: 2901, col: 12, offset: 91640},
+																																																	pos: position{line: 2905, col: 12, offset: 91748},
 																																																	run: (*parser).callonDocumentFragment1378,
 																																																	expr: &choiceExpr{
-																																																		pos: position{line: 2901, col: 13, offset: 91641},
+																																																		pos: position{line: 2905, col: 13, offset: 91749},
 																																																		alternatives: []interface{}{
 																																																			&litMatcher{
-																																																				pos:        position{line: 2901, col: 13, offset: 91641},
+																																																				pos:        position{line: 2905, col: 13, offset: 91749},
 																																																				val:        "\n",
 																																																				ignoreCase: false,
 																																																				want:       "\"\\n\"",
 																																																			},
 																																																			&litMatcher{
-																																																				pos:        position{line: 2901, col: 20, offset: 91648},
+																																																				pos:        position{line: 2905, col: 20, offset: 91756},
 																																																				val:        "\r\n",
 																																																				ignoreCase: false,
 																																																				want:       "\"\\r\\n\"",
 																																																			},
 																																																			&litMatcher{
-																																																				pos:        position{line: 2901, col: 29, offset: 91657},
+																																																				pos:        position{line: 2905, col: 29, offset: 91765},
 																																																				val:        "\r",
 																																																				ignoreCase: false,
 																																																				want:       "\"\\r\"",
@@ -10270,9 +10270,9 @@ var g = &grammar{
 																																																	},
 																																																},
 																																																&notExpr{
-																																																	pos: position{line: 2911, col: 8, offset: 91817},
+																																																	pos: position{line: 2915, col: 8, offset: 91925},
 																																																	expr: &anyMatcher{
-																																																		line: 2911, col: 9, offset: 91818,
+																																																		line: 2915, col: 9, offset: 91926,
 																																																	},
 																																																},
 																																															},
@@ -10282,22 +10282,22 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2684, col: 9, offset: 85313},
+																																											pos: position{line: 2688, col: 9, offset: 85421},
 																																											expr: &seqExpr{
-																																												pos: position{line: 2684, col: 11, offset: 85315},
+																																												pos: position{line: 2688, col: 11, offset: 85423},
 																																												exprs: []interface{}{
 																																													&labeledExpr{
-																																														pos:   position{line: 2684, col: 11, offset: 85315},
+																																														pos:   position{line: 2688, col: 11, offset: 85423},
 																																														label: "format",
 																																														expr: &zeroOrOneExpr{
-																																															pos: position{line: 2684, col: 18, offset: 85322},
+																																															pos: position{line: 2688, col: 18, offset: 85430},
 																																															expr: &actionExpr{
-																																																pos: position{line: 2692, col: 20, offset: 85544},
+																																																pos: position{line: 2696, col: 20, offset: 85652},
 																																																run: (*parser).callonDocumentFragment1389,
 																																																expr: &zeroOrMoreExpr{
-																																																	pos: position{line: 2692, col: 20, offset: 85544},
+																																																	pos: position{line: 2696, col: 20, offset: 85652},
 																																																	expr: &charClassMatcher{
-																																																		pos:        position{line: 2692, col: 20, offset: 85544},
+																																																		pos:        position{line: 2696, col: 20, offset: 85652},
 																																																		val:        "[^ |\\r\\n]",
 																																																		chars:      []rune{' ', '|', '\r', '\n'},
 																																																		ignoreCase: false,
@@ -10308,7 +10308,7 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2684, col: 37, offset: 85341},
+																																														pos:        position{line: 2688, col: 37, offset: 85449},
 																																														val:        "|",
 																																														ignoreCase: false,
 																																														want:       "\"|\"",
@@ -10317,15 +10317,15 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&labeledExpr{
-																																											pos:   position{line: 2685, col: 9, offset: 85354},
+																																											pos:   position{line: 2689, col: 9, offset: 85462},
 																																											label: "content",
 																																											expr: &actionExpr{
-																																												pos: position{line: 2685, col: 18, offset: 85363},
+																																												pos: position{line: 2689, col: 18, offset: 85471},
 																																												run: (*parser).callonDocumentFragment1394,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2685, col: 18, offset: 85363},
+																																													pos: position{line: 2689, col: 18, offset: 85471},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2685, col: 18, offset: 85363},
+																																														pos:        position{line: 2689, col: 18, offset: 85471},
 																																														val:        "[^|\\r\\n]",
 																																														chars:      []rune{'|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -10335,33 +10335,33 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&zeroOrOneExpr{
-																																											pos: position{line: 2687, col: 12, offset: 85425},
+																																											pos: position{line: 2691, col: 12, offset: 85533},
 																																											expr: &seqExpr{
-																																												pos: position{line: 2687, col: 13, offset: 85426},
+																																												pos: position{line: 2691, col: 13, offset: 85534},
 																																												exprs: []interface{}{
 																																													&choiceExpr{
-																																														pos: position{line: 2914, col: 8, offset: 91867},
+																																														pos: position{line: 2918, col: 8, offset: 91975},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2901, col: 12, offset: 91640},
+																																																pos: position{line: 2905, col: 12, offset: 91748},
 																																																run: (*parser).callonDocumentFragment1400,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2901, col: 13, offset: 91641},
+																																																	pos: position{line: 2905, col: 13, offset: 91749},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2901, col: 13, offset: 91641},
+																																																			pos:        position{line: 2905, col: 13, offset: 91749},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2901, col: 20, offset: 91648},
+																																																			pos:        position{line: 2905, col: 20, offset: 91756},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2901, col: 29, offset: 91657},
+																																																			pos:        position{line: 2905, col: 29, offset: 91765},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -10370,46 +10370,46 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2911, col: 8, offset: 91817},
+																																																pos: position{line: 2915, col: 8, offset: 91925},
 																																																expr: &anyMatcher{
-																																																	line: 2911, col: 9, offset: 91818,
+																																																	line: 2915, col: 9, offset: 91926,
 																																																},
 																																															},
 																																														},
 																																													},
 																																													&zeroOrMoreExpr{
-																																														pos: position{line: 2687, col: 17, offset: 85430},
+																																														pos: position{line: 2691, col: 17, offset: 85538},
 																																														expr: &actionExpr{
-																																															pos: position{line: 2493, col: 22, offset: 80229},
+																																															pos: position{line: 2497, col: 22, offset: 80337},
 																																															run: (*parser).callonDocumentFragment1408,
 																																															expr: &seqExpr{
-																																																pos: position{line: 2493, col: 22, offset: 80229},
+																																																pos: position{line: 2497, col: 22, offset: 80337},
 																																																exprs: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2498, col: 31, offset: 80450},
+																																																		pos:        position{line: 2502, col: 31, offset: 80558},
 																																																		val:        "//",
 																																																		ignoreCase: false,
 																																																		want:       "\"//\"",
 																																																	},
 																																																	&notExpr{
-																																																		pos: position{line: 2498, col: 36, offset: 80455},
+																																																		pos: position{line: 2502, col: 36, offset: 80563},
 																																																		expr: &litMatcher{
-																																																			pos:        position{line: 2498, col: 37, offset: 80456},
+																																																			pos:        position{line: 2502, col: 37, offset: 80564},
 																																																			val:        "//",
 																																																			ignoreCase: false,
 																																																			want:       "\"//\"",
 																																																		},
 																																																	},
 																																																	&labeledExpr{
-																																																		pos:   position{line: 2493, col: 49, offset: 80256},
+																																																		pos:   position{line: 2497, col: 49, offset: 80364},
 																																																		label: "content",
 																																																		expr: &actionExpr{
-																																																			pos: position{line: 2838, col: 13, offset: 89995},
+																																																			pos: position{line: 2842, col: 13, offset: 90103},
 																																																			run: (*parser).callonDocumentFragment1414,
 																																																			expr: &zeroOrMoreExpr{
-																																																				pos: position{line: 2838, col: 13, offset: 89995},
+																																																				pos: position{line: 2842, col: 13, offset: 90103},
 																																																				expr: &charClassMatcher{
-																																																					pos:        position{line: 2838, col: 13, offset: 89995},
+																																																					pos:        position{line: 2842, col: 13, offset: 90103},
 																																																					val:        "[^\\r\\n]",
 																																																					chars:      []rune{'\r', '\n'},
 																																																					ignoreCase: false,
@@ -10419,28 +10419,28 @@ var g = &grammar{
 																																																		},
 																																																	},
 																																																	&choiceExpr{
-																																																		pos: position{line: 2914, col: 8, offset: 91867},
+																																																		pos: position{line: 2918, col: 8, offset: 91975},
 																																																		alternatives: []interface{}{
 																																																			&actionExpr{
-																																																				pos: position{line: 2901, col: 12, offset: 91640},
+																																																				pos: position{line: 2905, col: 12, offset: 91748},
 																																																				run: (*parser).callonDocumentFragment1418,
 																																																				expr: &choiceExpr{
-																																																					pos: position{line: 2901, col: 13, offset: 91641},
+																																																					pos: position{line: 2905, col: 13, offset: 91749},
 																																																					alternatives: []interface{}{
 																																																						&litMatcher{
-																																																							pos:        position{line: 2901, col: 13, offset: 91641},
+																																																							pos:        position{line: 2905, col: 13, offset: 91749},
 																																																							val:        "\n",
 																																																							ignoreCase: false,
 																																																							want:       "\"\\n\"",
 																																																						},
 																																																						&litMatcher{
-																																																							pos:        position{line: 2901, col: 20, offset: 91648},
+																																																							pos:        position{line: 2905, col: 20, offset: 91756},
 																																																							val:        "\r\n",
 																																																							ignoreCase: false,
 																																																							want:       "\"\\r\\n\"",
 																																																						},
 																																																						&litMatcher{
-																																																							pos:        position{line: 2901, col: 29, offset: 91657},
+																																																							pos:        position{line: 2905, col: 29, offset: 91765},
 																																																							val:        "\r",
 																																																							ignoreCase: false,
 																																																							want:       "\"\\r\"",
@@ -10449,9 +10449,9 @@ var g = &grammar{
 																																																				},
 																																																			},
 																																																			&notExpr{
-																																																				pos: position{line: 2911, col: 8, offset: 91817},
+																																																				pos: position{line: 2915, col: 8, offset: 91925},
 																																																				expr: &anyMatcher{
-																																																					line: 2911, col: 9, offset: 91818,
+																																																					line: 2915, col: 9, offset: 91926,
 																																																				},
 																																																			},
 																																																		},
@@ -10485,18 +10485,18 @@ var g = &grammar{
 																													pos: position{line: 687, col: 14, offset: 21835},
 																													exprs: []interface{}{
 																														&andExpr{
-																															pos: position{line: 2909, col: 11, offset: 91803},
+																															pos: position{line: 2913, col: 11, offset: 91911},
 																															expr: &anyMatcher{
-																																line: 2909, col: 13, offset: 91805,
+																																line: 2913, col: 13, offset: 91913,
 																															},
 																														},
 																														&zeroOrMoreExpr{
 																															pos: position{line: 687, col: 21, offset: 21842},
 																															expr: &actionExpr{
-																																pos: position{line: 2892, col: 10, offset: 91469},
+																																pos: position{line: 2896, col: 10, offset: 91577},
 																																run: (*parser).callonDocumentFragment1430,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 2892, col: 10, offset: 91469},
+																																	pos:        position{line: 2896, col: 10, offset: 91577},
 																																	val:        "[\\t ]",
 																																	chars:      []rune{'\t', ' '},
 																																	ignoreCase: false,
@@ -10505,28 +10505,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2914, col: 8, offset: 91867},
+																															pos: position{line: 2918, col: 8, offset: 91975},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2901, col: 12, offset: 91640},
+																																	pos: position{line: 2905, col: 12, offset: 91748},
 																																	run: (*parser).callonDocumentFragment1433,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2901, col: 13, offset: 91641},
+																																		pos: position{line: 2905, col: 13, offset: 91749},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2901, col: 13, offset: 91641},
+																																				pos:        position{line: 2905, col: 13, offset: 91749},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2901, col: 20, offset: 91648},
+																																				pos:        position{line: 2905, col: 20, offset: 91756},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2901, col: 29, offset: 91657},
+																																				pos:        position{line: 2905, col: 29, offset: 91765},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -10535,9 +10535,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2911, col: 8, offset: 91817},
+																																	pos: position{line: 2915, col: 8, offset: 91925},
 																																	expr: &anyMatcher{
-																																		line: 2911, col: 9, offset: 91818,
+																																		line: 2915, col: 9, offset: 91926,
 																																	},
 																																},
 																															},
@@ -10555,38 +10555,38 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 2626, col: 9, offset: 83941},
+																			pos: position{line: 2630, col: 9, offset: 84049},
 																			expr: &actionExpr{
-																				pos: position{line: 2493, col: 22, offset: 80229},
+																				pos: position{line: 2497, col: 22, offset: 80337},
 																				run: (*parser).callonDocumentFragment1441,
 																				expr: &seqExpr{
-																					pos: position{line: 2493, col: 22, offset: 80229},
+																					pos: position{line: 2497, col: 22, offset: 80337},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2498, col: 31, offset: 80450},
+																							pos:        position{line: 2502, col: 31, offset: 80558},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
 																						},
 																						&notExpr{
-																							pos: position{line: 2498, col: 36, offset: 80455},
+																							pos: position{line: 2502, col: 36, offset: 80563},
 																							expr: &litMatcher{
-																								pos:        position{line: 2498, col: 37, offset: 80456},
+																								pos:        position{line: 2502, col: 37, offset: 80564},
 																								val:        "//",
 																								ignoreCase: false,
 																								want:       "\"//\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 2493, col: 49, offset: 80256},
+																							pos:   position{line: 2497, col: 49, offset: 80364},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								run: (*parser).callonDocumentFragment1447,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2838, col: 13, offset: 89995},
+																									pos: position{line: 2842, col: 13, offset: 90103},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2838, col: 13, offset: 89995},
+																										pos:        position{line: 2842, col: 13, offset: 90103},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -10596,28 +10596,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonDocumentFragment1451,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -10626,9 +10626,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -10643,24 +10643,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2638, col: 22, offset: 84190},
+														pos: position{line: 2642, col: 22, offset: 84298},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2634, col: 19, offset: 84110},
+																pos: position{line: 2638, col: 19, offset: 84218},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2634, col: 19, offset: 84110},
+																		pos:        position{line: 2638, col: 19, offset: 84218},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2634, col: 26, offset: 84117},
+																		pos: position{line: 2638, col: 26, offset: 84225},
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 10, offset: 91469},
+																			pos: position{line: 2896, col: 10, offset: 91577},
 																			run: (*parser).callonDocumentFragment1462,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2892, col: 10, offset: 91469},
+																				pos:        position{line: 2896, col: 10, offset: 91577},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10669,28 +10669,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2914, col: 8, offset: 91867},
+																		pos: position{line: 2918, col: 8, offset: 91975},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91640},
+																				pos: position{line: 2905, col: 12, offset: 91748},
 																				run: (*parser).callonDocumentFragment1465,
 																				expr: &choiceExpr{
-																					pos: position{line: 2901, col: 13, offset: 91641},
+																					pos: position{line: 2905, col: 13, offset: 91749},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 13, offset: 91641},
+																							pos:        position{line: 2905, col: 13, offset: 91749},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 20, offset: 91648},
+																							pos:        position{line: 2905, col: 20, offset: 91756},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 29, offset: 91657},
+																							pos:        position{line: 2905, col: 29, offset: 91765},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10699,9 +10699,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2911, col: 8, offset: 91817},
+																				pos: position{line: 2915, col: 8, offset: 91925},
 																				expr: &anyMatcher{
-																					line: 2911, col: 9, offset: 91818,
+																					line: 2915, col: 9, offset: 91926,
 																				},
 																			},
 																		},
@@ -10709,9 +10709,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2911, col: 8, offset: 91817},
+																pos: position{line: 2915, col: 8, offset: 91925},
 																expr: &anyMatcher{
-																	line: 2911, col: 9, offset: 91818,
+																	line: 2915, col: 9, offset: 91926,
 																},
 															},
 														},
@@ -10720,36 +10720,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2493, col: 22, offset: 80229},
+											pos: position{line: 2497, col: 22, offset: 80337},
 											run: (*parser).callonDocumentFragment1474,
 											expr: &seqExpr{
-												pos: position{line: 2493, col: 22, offset: 80229},
+												pos: position{line: 2497, col: 22, offset: 80337},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2498, col: 31, offset: 80450},
+														pos:        position{line: 2502, col: 31, offset: 80558},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2498, col: 36, offset: 80455},
+														pos: position{line: 2502, col: 36, offset: 80563},
 														expr: &litMatcher{
-															pos:        position{line: 2498, col: 37, offset: 80456},
+															pos:        position{line: 2502, col: 37, offset: 80564},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2493, col: 49, offset: 80256},
+														pos:   position{line: 2497, col: 49, offset: 80364},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2838, col: 13, offset: 89995},
+															pos: position{line: 2842, col: 13, offset: 90103},
 															run: (*parser).callonDocumentFragment1480,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2838, col: 13, offset: 89995},
+																pos: position{line: 2842, col: 13, offset: 90103},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2838, col: 13, offset: 89995},
+																	pos:        position{line: 2842, col: 13, offset: 90103},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10759,28 +10759,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2914, col: 8, offset: 91867},
+														pos: position{line: 2918, col: 8, offset: 91975},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2901, col: 12, offset: 91640},
+																pos: position{line: 2905, col: 12, offset: 91748},
 																run: (*parser).callonDocumentFragment1484,
 																expr: &choiceExpr{
-																	pos: position{line: 2901, col: 13, offset: 91641},
+																	pos: position{line: 2905, col: 13, offset: 91749},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 13, offset: 91641},
+																			pos:        position{line: 2905, col: 13, offset: 91749},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 20, offset: 91648},
+																			pos:        position{line: 2905, col: 20, offset: 91756},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 29, offset: 91657},
+																			pos:        position{line: 2905, col: 29, offset: 91765},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10789,9 +10789,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2911, col: 8, offset: 91817},
+																pos: position{line: 2915, col: 8, offset: 91925},
 																expr: &anyMatcher{
-																	line: 2911, col: 9, offset: 91818,
+																	line: 2915, col: 9, offset: 91926,
 																},
 															},
 														},
@@ -10800,37 +10800,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1244, col: 5, offset: 38614},
+											pos: position{line: 1248, col: 5, offset: 38722},
 											run: (*parser).callonDocumentFragment1491,
 											expr: &seqExpr{
-												pos: position{line: 1244, col: 5, offset: 38614},
+												pos: position{line: 1248, col: 5, offset: 38722},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1244, col: 5, offset: 38614},
+														pos: position{line: 1248, col: 5, offset: 38722},
 														run: (*parser).callonDocumentFragment1493,
 													},
 													&labeledExpr{
-														pos:   position{line: 1247, col: 5, offset: 38672},
+														pos:   position{line: 1251, col: 5, offset: 38780},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1252, col: 20, offset: 38767},
+															pos: position{line: 1256, col: 20, offset: 38875},
 															run: (*parser).callonDocumentFragment1495,
 															expr: &seqExpr{
-																pos: position{line: 1252, col: 20, offset: 38767},
+																pos: position{line: 1256, col: 20, offset: 38875},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1256, col: 30, offset: 38939},
+																		pos:        position{line: 1260, col: 30, offset: 39047},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1256, col: 36, offset: 38945},
+																		pos: position{line: 1260, col: 36, offset: 39053},
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 10, offset: 91469},
+																			pos: position{line: 2896, col: 10, offset: 91577},
 																			run: (*parser).callonDocumentFragment1499,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2892, col: 10, offset: 91469},
+																				pos:        position{line: 2896, col: 10, offset: 91577},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10839,28 +10839,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2914, col: 8, offset: 91867},
+																		pos: position{line: 2918, col: 8, offset: 91975},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91640},
+																				pos: position{line: 2905, col: 12, offset: 91748},
 																				run: (*parser).callonDocumentFragment1502,
 																				expr: &choiceExpr{
-																					pos: position{line: 2901, col: 13, offset: 91641},
+																					pos: position{line: 2905, col: 13, offset: 91749},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 13, offset: 91641},
+																							pos:        position{line: 2905, col: 13, offset: 91749},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 20, offset: 91648},
+																							pos:        position{line: 2905, col: 20, offset: 91756},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 29, offset: 91657},
+																							pos:        position{line: 2905, col: 29, offset: 91765},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10869,46 +10869,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2911, col: 8, offset: 91817},
+																				pos: position{line: 2915, col: 8, offset: 91925},
 																				expr: &anyMatcher{
-																					line: 2911, col: 9, offset: 91818,
+																					line: 2915, col: 9, offset: 91926,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1252, col: 45, offset: 38792},
+																		pos:   position{line: 1256, col: 45, offset: 38900},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1252, col: 53, offset: 38800},
+																			pos: position{line: 1256, col: 53, offset: 38908},
 																			expr: &actionExpr{
-																				pos: position{line: 1258, col: 27, offset: 38983},
+																				pos: position{line: 1262, col: 27, offset: 39091},
 																				run: (*parser).callonDocumentFragment1511,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1258, col: 27, offset: 38983},
+																					pos: position{line: 1262, col: 27, offset: 39091},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1258, col: 28, offset: 38984},
+																						pos: position{line: 1262, col: 28, offset: 39092},
 																						expr: &seqExpr{
-																							pos: position{line: 1258, col: 29, offset: 38985},
+																							pos: position{line: 1262, col: 29, offset: 39093},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1258, col: 29, offset: 38985},
+																									pos: position{line: 1262, col: 29, offset: 39093},
 																									expr: &seqExpr{
-																										pos: position{line: 1256, col: 30, offset: 38939},
+																										pos: position{line: 1260, col: 30, offset: 39047},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1256, col: 30, offset: 38939},
+																												pos:        position{line: 1260, col: 30, offset: 39047},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1256, col: 36, offset: 38945},
+																												pos: position{line: 1260, col: 36, offset: 39053},
 																												expr: &actionExpr{
-																													pos: position{line: 2892, col: 10, offset: 91469},
+																													pos: position{line: 2896, col: 10, offset: 91577},
 																													run: (*parser).callonDocumentFragment1519,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2892, col: 10, offset: 91469},
+																														pos:        position{line: 2896, col: 10, offset: 91577},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10917,28 +10917,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2914, col: 8, offset: 91867},
+																												pos: position{line: 2918, col: 8, offset: 91975},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2901, col: 12, offset: 91640},
+																														pos: position{line: 2905, col: 12, offset: 91748},
 																														run: (*parser).callonDocumentFragment1522,
 																														expr: &choiceExpr{
-																															pos: position{line: 2901, col: 13, offset: 91641},
+																															pos: position{line: 2905, col: 13, offset: 91749},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 13, offset: 91641},
+																																	pos:        position{line: 2905, col: 13, offset: 91749},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 20, offset: 91648},
+																																	pos:        position{line: 2905, col: 20, offset: 91756},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 29, offset: 91657},
+																																	pos:        position{line: 2905, col: 29, offset: 91765},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10947,9 +10947,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2911, col: 8, offset: 91817},
+																														pos: position{line: 2915, col: 8, offset: 91925},
 																														expr: &anyMatcher{
-																															line: 2911, col: 9, offset: 91818,
+																															line: 2915, col: 9, offset: 91926,
 																														},
 																													},
 																												},
@@ -10958,7 +10958,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1258, col: 55, offset: 39011,
+																									line: 1262, col: 55, offset: 39119,
 																								},
 																							},
 																						},
@@ -10968,18 +10968,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1256, col: 30, offset: 38939},
+																		pos:        position{line: 1260, col: 30, offset: 39047},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1256, col: 36, offset: 38945},
+																		pos: position{line: 1260, col: 36, offset: 39053},
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 10, offset: 91469},
+																			pos: position{line: 2896, col: 10, offset: 91577},
 																			run: (*parser).callonDocumentFragment1532,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2892, col: 10, offset: 91469},
+																				pos:        position{line: 2896, col: 10, offset: 91577},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10988,28 +10988,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2914, col: 8, offset: 91867},
+																		pos: position{line: 2918, col: 8, offset: 91975},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91640},
+																				pos: position{line: 2905, col: 12, offset: 91748},
 																				run: (*parser).callonDocumentFragment1535,
 																				expr: &choiceExpr{
-																					pos: position{line: 2901, col: 13, offset: 91641},
+																					pos: position{line: 2905, col: 13, offset: 91749},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 13, offset: 91641},
+																							pos:        position{line: 2905, col: 13, offset: 91749},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 20, offset: 91648},
+																							pos:        position{line: 2905, col: 20, offset: 91756},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 29, offset: 91657},
+																							pos:        position{line: 2905, col: 29, offset: 91765},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -11018,9 +11018,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2911, col: 8, offset: 91817},
+																				pos: position{line: 2915, col: 8, offset: 91925},
 																				expr: &anyMatcher{
-																					line: 2911, col: 9, offset: 91818,
+																					line: 2915, col: 9, offset: 91926,
 																				},
 																			},
 																		},
@@ -11070,27 +11070,27 @@ var g = &grammar{
 									pos: position{line: 282, col: 9, offset: 8388},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1220, col: 23, offset: 37720},
+											pos: position{line: 1224, col: 23, offset: 37828},
 											run: (*parser).callonDelimitedBlockElements7,
 											expr: &seqExpr{
-												pos: position{line: 1220, col: 23, offset: 37720},
+												pos: position{line: 1224, col: 23, offset: 37828},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1218, col: 32, offset: 37688},
+														pos:        position{line: 1222, col: 32, offset: 37796},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1220, col: 51, offset: 37748},
+														pos:   position{line: 1224, col: 51, offset: 37856},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1220, col: 56, offset: 37753},
+															pos: position{line: 1224, col: 56, offset: 37861},
 															run: (*parser).callonDelimitedBlockElements11,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1220, col: 56, offset: 37753},
+																pos: position{line: 1224, col: 56, offset: 37861},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1220, col: 56, offset: 37753},
+																	pos:        position{line: 1224, col: 56, offset: 37861},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -11100,7 +11100,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1218, col: 32, offset: 37688},
+														pos:        position{line: 1222, col: 32, offset: 37796},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -11117,9 +11117,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2911, col: 8, offset: 91817},
+							pos: position{line: 2915, col: 8, offset: 91925},
 							expr: &anyMatcher{
-								line: 2911, col: 9, offset: 91818,
+								line: 2915, col: 9, offset: 91926,
 							},
 						},
 					},
@@ -11191,12 +11191,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2896, col: 11, offset: 91530},
+												pos: position{line: 2900, col: 11, offset: 91638},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2896, col: 11, offset: 91530},
+													pos: position{line: 2900, col: 11, offset: 91638},
 													expr: &charClassMatcher{
-														pos:        position{line: 2896, col: 11, offset: 91530},
+														pos:        position{line: 2900, col: 11, offset: 91638},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11218,28 +11218,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2914, col: 8, offset: 91867},
+							pos: position{line: 2918, col: 8, offset: 91975},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2901, col: 12, offset: 91640},
+									pos: position{line: 2905, col: 12, offset: 91748},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2901, col: 13, offset: 91641},
+										pos: position{line: 2905, col: 13, offset: 91749},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2901, col: 13, offset: 91641},
+												pos:        position{line: 2905, col: 13, offset: 91749},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2901, col: 20, offset: 91648},
+												pos:        position{line: 2905, col: 20, offset: 91756},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2901, col: 29, offset: 91657},
+												pos:        position{line: 2905, col: 29, offset: 91765},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -11248,9 +11248,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2911, col: 8, offset: 91817},
+									pos: position{line: 2915, col: 8, offset: 91925},
 									expr: &anyMatcher{
-										line: 2911, col: 9, offset: 91818,
+										line: 2915, col: 9, offset: 91926,
 									},
 								},
 							},
@@ -11294,25 +11294,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2901, col: 12, offset: 91640},
+												pos: position{line: 2905, col: 12, offset: 91748},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2901, col: 13, offset: 91641},
+													pos: position{line: 2905, col: 13, offset: 91749},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2901, col: 13, offset: 91641},
+															pos:        position{line: 2905, col: 13, offset: 91749},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2901, col: 20, offset: 91648},
+															pos:        position{line: 2905, col: 20, offset: 91756},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2901, col: 29, offset: 91657},
+															pos:        position{line: 2905, col: 29, offset: 91765},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -11323,10 +11323,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2892, col: 10, offset: 91469},
+													pos: position{line: 2896, col: 10, offset: 91577},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2892, col: 10, offset: 91469},
+														pos:        position{line: 2896, col: 10, offset: 91577},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11396,10 +11396,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2892, col: 10, offset: 91469},
+											pos: position{line: 2896, col: 10, offset: 91577},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2892, col: 10, offset: 91469},
+												pos:        position{line: 2896, col: 10, offset: 91577},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -11408,28 +11408,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2914, col: 8, offset: 91867},
+										pos: position{line: 2918, col: 8, offset: 91975},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2901, col: 12, offset: 91640},
+												pos: position{line: 2905, col: 12, offset: 91748},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2901, col: 13, offset: 91641},
+													pos: position{line: 2905, col: 13, offset: 91749},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2901, col: 13, offset: 91641},
+															pos:        position{line: 2905, col: 13, offset: 91749},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2901, col: 20, offset: 91648},
+															pos:        position{line: 2905, col: 20, offset: 91756},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2901, col: 29, offset: 91657},
+															pos:        position{line: 2905, col: 29, offset: 91765},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -11438,9 +11438,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2911, col: 8, offset: 91817},
+												pos: position{line: 2915, col: 8, offset: 91925},
 												expr: &anyMatcher{
-													line: 2911, col: 9, offset: 91818,
+													line: 2915, col: 9, offset: 91926,
 												},
 											},
 										},
@@ -11490,23 +11490,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2480, col: 5, offset: 79775},
+										pos: position{line: 2484, col: 5, offset: 79883},
 										run: (*parser).callonAttributeDeclarationValueElement28,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 5, offset: 79775},
+											pos: position{line: 2484, col: 5, offset: 79883},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2480, col: 5, offset: 79775},
+													pos: position{line: 2484, col: 5, offset: 79883},
 													run: (*parser).callonAttributeDeclarationValueElement30,
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 5, offset: 79851},
+													pos:   position{line: 2487, col: 5, offset: 79959},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2484, col: 9, offset: 79869},
+														pos: position{line: 2488, col: 9, offset: 79977},
 														run: (*parser).callonAttributeDeclarationValueElement32,
 														expr: &charClassMatcher{
-															pos:        position{line: 2484, col: 10, offset: 79870},
+															pos:        position{line: 2488, col: 10, offset: 79978},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11518,10 +11518,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2892, col: 10, offset: 91469},
+										pos: position{line: 2896, col: 10, offset: 91577},
 										run: (*parser).callonAttributeDeclarationValueElement34,
 										expr: &charClassMatcher{
-											pos:        position{line: 2892, col: 10, offset: 91469},
+											pos:        position{line: 2896, col: 10, offset: 91577},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11961,27 +11961,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1220, col: 23, offset: 37720},
+																						pos: position{line: 1224, col: 23, offset: 37828},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1220, col: 23, offset: 37720},
+																							pos: position{line: 1224, col: 23, offset: 37828},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1218, col: 32, offset: 37688},
+																									pos:        position{line: 1222, col: 32, offset: 37796},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1220, col: 51, offset: 37748},
+																									pos:   position{line: 1224, col: 51, offset: 37856},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1220, col: 56, offset: 37753},
+																										pos: position{line: 1224, col: 56, offset: 37861},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1220, col: 56, offset: 37753},
+																											pos: position{line: 1224, col: 56, offset: 37861},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1220, col: 56, offset: 37753},
+																												pos:        position{line: 1224, col: 56, offset: 37861},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11991,7 +11991,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1218, col: 32, offset: 37688},
+																									pos:        position{line: 1222, col: 32, offset: 37796},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
@@ -12374,10 +12374,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 379, col: 35, offset: 11730},
 												expr: &actionExpr{
-													pos: position{line: 2892, col: 10, offset: 91469},
+													pos: position{line: 2896, col: 10, offset: 91577},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2892, col: 10, offset: 91469},
+														pos:        position{line: 2896, col: 10, offset: 91577},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12386,28 +12386,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2914, col: 8, offset: 91867},
+												pos: position{line: 2918, col: 8, offset: 91975},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2901, col: 12, offset: 91640},
+														pos: position{line: 2905, col: 12, offset: 91748},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2901, col: 13, offset: 91641},
+															pos: position{line: 2905, col: 13, offset: 91749},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2901, col: 13, offset: 91641},
+																	pos:        position{line: 2905, col: 13, offset: 91749},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 20, offset: 91648},
+																	pos:        position{line: 2905, col: 20, offset: 91756},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 29, offset: 91657},
+																	pos:        position{line: 2905, col: 29, offset: 91765},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12416,9 +12416,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2911, col: 8, offset: 91817},
+														pos: position{line: 2915, col: 8, offset: 91925},
 														expr: &anyMatcher{
-															line: 2911, col: 9, offset: 91818,
+															line: 2915, col: 9, offset: 91926,
 														},
 													},
 												},
@@ -12432,18 +12432,18 @@ var g = &grammar{
 														pos: position{line: 687, col: 14, offset: 21835},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2909, col: 11, offset: 91803},
+																pos: position{line: 2913, col: 11, offset: 91911},
 																expr: &anyMatcher{
-																	line: 2909, col: 13, offset: 91805,
+																	line: 2913, col: 13, offset: 91913,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 687, col: 21, offset: 21842},
 																expr: &actionExpr{
-																	pos: position{line: 2892, col: 10, offset: 91469},
+																	pos: position{line: 2896, col: 10, offset: 91577},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2892, col: 10, offset: 91469},
+																		pos:        position{line: 2896, col: 10, offset: 91577},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12452,28 +12452,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2914, col: 8, offset: 91867},
+																pos: position{line: 2918, col: 8, offset: 91975},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2901, col: 12, offset: 91640},
+																		pos: position{line: 2905, col: 12, offset: 91748},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2901, col: 13, offset: 91641},
+																			pos: position{line: 2905, col: 13, offset: 91749},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2901, col: 13, offset: 91641},
+																					pos:        position{line: 2905, col: 13, offset: 91749},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2901, col: 20, offset: 91648},
+																					pos:        position{line: 2905, col: 20, offset: 91756},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2901, col: 29, offset: 91657},
+																					pos:        position{line: 2905, col: 29, offset: 91765},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12482,9 +12482,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2911, col: 8, offset: 91817},
+																		pos: position{line: 2915, col: 8, offset: 91925},
 																		expr: &anyMatcher{
-																			line: 2911, col: 9, offset: 91818,
+																			line: 2915, col: 9, offset: 91926,
 																		},
 																	},
 																},
@@ -12536,12 +12536,12 @@ var g = &grammar{
 																		pos: position{line: 433, col: 9, offset: 13306},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2786, col: 14, offset: 88638},
+																				pos: position{line: 2790, col: 14, offset: 88746},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2786, col: 14, offset: 88638},
+																					pos: position{line: 2790, col: 14, offset: 88746},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2786, col: 14, offset: 88638},
+																						pos:        position{line: 2790, col: 14, offset: 88746},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12550,10 +12550,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2892, col: 10, offset: 91469},
+																				pos: position{line: 2896, col: 10, offset: 91577},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2892, col: 10, offset: 91469},
+																					pos:        position{line: 2896, col: 10, offset: 91577},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12561,27 +12561,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2809, col: 5, offset: 89123},
+																				pos: position{line: 2813, col: 5, offset: 89231},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2810, col: 9, offset: 89133},
+																					pos: position{line: 2814, col: 9, offset: 89241},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2810, col: 10, offset: 89134},
+																							pos:        position{line: 2814, col: 10, offset: 89242},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2812, col: 13, offset: 89231},
+																							pos: position{line: 2816, col: 13, offset: 89339},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2812, col: 13, offset: 89231},
+																									pos: position{line: 2816, col: 13, offset: 89339},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2815, col: 13, offset: 89331},
+																									pos:        position{line: 2819, col: 13, offset: 89439},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12589,20 +12589,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2815, col: 19, offset: 89337},
+																							pos:        position{line: 2819, col: 19, offset: 89445},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2818, col: 13, offset: 89375},
+																							pos: position{line: 2822, col: 13, offset: 89483},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2818, col: 13, offset: 89375},
+																									pos: position{line: 2822, col: 13, offset: 89483},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2821, col: 14, offset: 89468},
+																									pos:        position{line: 2825, col: 14, offset: 89576},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12611,18 +12611,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2823, col: 12, offset: 89512},
+																							pos: position{line: 2827, col: 12, offset: 89620},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2823, col: 12, offset: 89512},
+																									pos:        position{line: 2827, col: 12, offset: 89620},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2823, col: 16, offset: 89516},
+																									pos: position{line: 2827, col: 16, offset: 89624},
 																									expr: &litMatcher{
-																										pos:        position{line: 2823, col: 17, offset: 89517},
+																										pos:        position{line: 2827, col: 17, offset: 89625},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12740,10 +12740,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2831, col: 12, offset: 89777},
+																				pos: position{line: 2835, col: 12, offset: 89885},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2831, col: 12, offset: 89777},
+																					pos:        position{line: 2835, col: 12, offset: 89885},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12761,10 +12761,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 383, col: 35, offset: 11885},
 												expr: &actionExpr{
-													pos: position{line: 2892, col: 10, offset: 91469},
+													pos: position{line: 2896, col: 10, offset: 91577},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2892, col: 10, offset: 91469},
+														pos:        position{line: 2896, col: 10, offset: 91577},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12773,28 +12773,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2914, col: 8, offset: 91867},
+												pos: position{line: 2918, col: 8, offset: 91975},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2901, col: 12, offset: 91640},
+														pos: position{line: 2905, col: 12, offset: 91748},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2901, col: 13, offset: 91641},
+															pos: position{line: 2905, col: 13, offset: 91749},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2901, col: 13, offset: 91641},
+																	pos:        position{line: 2905, col: 13, offset: 91749},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 20, offset: 91648},
+																	pos:        position{line: 2905, col: 20, offset: 91756},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 29, offset: 91657},
+																	pos:        position{line: 2905, col: 29, offset: 91765},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12803,9 +12803,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2911, col: 8, offset: 91817},
+														pos: position{line: 2915, col: 8, offset: 91925},
 														expr: &anyMatcher{
-															line: 2911, col: 9, offset: 91818,
+															line: 2915, col: 9, offset: 91926,
 														},
 													},
 												},
@@ -12819,18 +12819,18 @@ var g = &grammar{
 														pos: position{line: 687, col: 14, offset: 21835},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2909, col: 11, offset: 91803},
+																pos: position{line: 2913, col: 11, offset: 91911},
 																expr: &anyMatcher{
-																	line: 2909, col: 13, offset: 91805,
+																	line: 2913, col: 13, offset: 91913,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 687, col: 21, offset: 21842},
 																expr: &actionExpr{
-																	pos: position{line: 2892, col: 10, offset: 91469},
+																	pos: position{line: 2896, col: 10, offset: 91577},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2892, col: 10, offset: 91469},
+																		pos:        position{line: 2896, col: 10, offset: 91577},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12839,28 +12839,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2914, col: 8, offset: 91867},
+																pos: position{line: 2918, col: 8, offset: 91975},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2901, col: 12, offset: 91640},
+																		pos: position{line: 2905, col: 12, offset: 91748},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2901, col: 13, offset: 91641},
+																			pos: position{line: 2905, col: 13, offset: 91749},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2901, col: 13, offset: 91641},
+																					pos:        position{line: 2905, col: 13, offset: 91749},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2901, col: 20, offset: 91648},
+																					pos:        position{line: 2905, col: 20, offset: 91756},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2901, col: 29, offset: 91657},
+																					pos:        position{line: 2905, col: 29, offset: 91765},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12869,9 +12869,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2911, col: 8, offset: 91817},
+																		pos: position{line: 2915, col: 8, offset: 91925},
 																		expr: &anyMatcher{
-																			line: 2911, col: 9, offset: 91818,
+																			line: 2915, col: 9, offset: 91926,
 																		},
 																	},
 																},
@@ -12900,10 +12900,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 387, col: 44, offset: 12018},
 												expr: &actionExpr{
-													pos: position{line: 2892, col: 10, offset: 91469},
+													pos: position{line: 2896, col: 10, offset: 91577},
 													run: (*parser).callonBlockAttributes210,
 													expr: &charClassMatcher{
-														pos:        position{line: 2892, col: 10, offset: 91469},
+														pos:        position{line: 2896, col: 10, offset: 91577},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12912,28 +12912,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2914, col: 8, offset: 91867},
+												pos: position{line: 2918, col: 8, offset: 91975},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2901, col: 12, offset: 91640},
+														pos: position{line: 2905, col: 12, offset: 91748},
 														run: (*parser).callonBlockAttributes213,
 														expr: &choiceExpr{
-															pos: position{line: 2901, col: 13, offset: 91641},
+															pos: position{line: 2905, col: 13, offset: 91749},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2901, col: 13, offset: 91641},
+																	pos:        position{line: 2905, col: 13, offset: 91749},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 20, offset: 91648},
+																	pos:        position{line: 2905, col: 20, offset: 91756},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 29, offset: 91657},
+																	pos:        position{line: 2905, col: 29, offset: 91765},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12942,9 +12942,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2911, col: 8, offset: 91817},
+														pos: position{line: 2915, col: 8, offset: 91925},
 														expr: &anyMatcher{
-															line: 2911, col: 9, offset: 91818,
+															line: 2915, col: 9, offset: 91926,
 														},
 													},
 												},
@@ -12958,18 +12958,18 @@ var g = &grammar{
 														pos: position{line: 687, col: 14, offset: 21835},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2909, col: 11, offset: 91803},
+																pos: position{line: 2913, col: 11, offset: 91911},
 																expr: &anyMatcher{
-																	line: 2909, col: 13, offset: 91805,
+																	line: 2913, col: 13, offset: 91913,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 687, col: 21, offset: 21842},
 																expr: &actionExpr{
-																	pos: position{line: 2892, col: 10, offset: 91469},
+																	pos: position{line: 2896, col: 10, offset: 91577},
 																	run: (*parser).callonBlockAttributes226,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2892, col: 10, offset: 91469},
+																		pos:        position{line: 2896, col: 10, offset: 91577},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12978,28 +12978,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2914, col: 8, offset: 91867},
+																pos: position{line: 2918, col: 8, offset: 91975},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2901, col: 12, offset: 91640},
+																		pos: position{line: 2905, col: 12, offset: 91748},
 																		run: (*parser).callonBlockAttributes229,
 																		expr: &choiceExpr{
-																			pos: position{line: 2901, col: 13, offset: 91641},
+																			pos: position{line: 2905, col: 13, offset: 91749},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2901, col: 13, offset: 91641},
+																					pos:        position{line: 2905, col: 13, offset: 91749},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2901, col: 20, offset: 91648},
+																					pos:        position{line: 2905, col: 20, offset: 91756},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2901, col: 29, offset: 91657},
+																					pos:        position{line: 2905, col: 29, offset: 91765},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -13008,9 +13008,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2911, col: 8, offset: 91817},
+																		pos: position{line: 2915, col: 8, offset: 91925},
 																		expr: &anyMatcher{
-																			line: 2911, col: 9, offset: 91818,
+																			line: 2915, col: 9, offset: 91926,
 																		},
 																	},
 																},
@@ -13258,10 +13258,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 473, col: 13, offset: 14774},
 										expr: &actionExpr{
-											pos: position{line: 2892, col: 10, offset: 91469},
+											pos: position{line: 2896, col: 10, offset: 91577},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2892, col: 10, offset: 91469},
+												pos:        position{line: 2896, col: 10, offset: 91577},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13793,10 +13793,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 525, col: 9, offset: 16356},
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 10, offset: 91469},
+														pos: position{line: 2896, col: 10, offset: 91577},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2892, col: 10, offset: 91469},
+															pos:        position{line: 2896, col: 10, offset: 91577},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13857,10 +13857,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 531, col: 34, offset: 16499},
 														expr: &actionExpr{
-															pos: position{line: 2892, col: 10, offset: 91469},
+															pos: position{line: 2896, col: 10, offset: 91577},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2892, col: 10, offset: 91469},
+																pos:        position{line: 2896, col: 10, offset: 91577},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13900,10 +13900,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 536, col: 13, offset: 16663},
 												expr: &actionExpr{
-													pos: position{line: 2892, col: 10, offset: 91469},
+													pos: position{line: 2896, col: 10, offset: 91577},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2892, col: 10, offset: 91469},
+														pos:        position{line: 2896, col: 10, offset: 91577},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13926,10 +13926,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 536, col: 26, offset: 16676},
 																expr: &actionExpr{
-																	pos: position{line: 2892, col: 10, offset: 91469},
+																	pos: position{line: 2896, col: 10, offset: 91577},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2892, col: 10, offset: 91469},
+																		pos:        position{line: 2896, col: 10, offset: 91577},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13984,10 +13984,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 556, col: 22, offset: 17323},
 											expr: &actionExpr{
-												pos: position{line: 2892, col: 10, offset: 91469},
+												pos: position{line: 2896, col: 10, offset: 91577},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2892, col: 10, offset: 91469},
+													pos:        position{line: 2896, col: 10, offset: 91577},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14018,10 +14018,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 549, col: 9, offset: 17068},
 							expr: &actionExpr{
-								pos: position{line: 2892, col: 10, offset: 91469},
+								pos: position{line: 2896, col: 10, offset: 91577},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2892, col: 10, offset: 91469},
+									pos:        position{line: 2896, col: 10, offset: 91577},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14051,10 +14051,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 550, col: 33, offset: 17108},
 										expr: &actionExpr{
-											pos: position{line: 2892, col: 10, offset: 91469},
+											pos: position{line: 2896, col: 10, offset: 91577},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2892, col: 10, offset: 91469},
+												pos:        position{line: 2896, col: 10, offset: 91577},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14109,10 +14109,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 566, col: 9, offset: 17540},
 											expr: &actionExpr{
-												pos: position{line: 2892, col: 10, offset: 91469},
+												pos: position{line: 2896, col: 10, offset: 91577},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2892, col: 10, offset: 91469},
+													pos:        position{line: 2896, col: 10, offset: 91577},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14191,12 +14191,12 @@ var g = &grammar{
 							pos: position{line: 579, col: 9, offset: 17857},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2786, col: 14, offset: 88638},
+									pos: position{line: 2790, col: 14, offset: 88746},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2786, col: 14, offset: 88638},
+										pos: position{line: 2790, col: 14, offset: 88746},
 										expr: &charClassMatcher{
-											pos:        position{line: 2786, col: 14, offset: 88638},
+											pos:        position{line: 2790, col: 14, offset: 88746},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14205,10 +14205,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2892, col: 10, offset: 91469},
+									pos: position{line: 2896, col: 10, offset: 91577},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2892, col: 10, offset: 91469},
+										pos:        position{line: 2896, col: 10, offset: 91577},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14665,10 +14665,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 599, col: 14, offset: 18597},
 											expr: &actionExpr{
-												pos: position{line: 2892, col: 10, offset: 91469},
+												pos: position{line: 2896, col: 10, offset: 91577},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2892, col: 10, offset: 91469},
+													pos:        position{line: 2896, col: 10, offset: 91577},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14705,12 +14705,12 @@ var g = &grammar{
 							pos: position{line: 605, col: 9, offset: 18708},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2786, col: 14, offset: 88638},
+									pos: position{line: 2790, col: 14, offset: 88746},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2786, col: 14, offset: 88638},
+										pos: position{line: 2790, col: 14, offset: 88746},
 										expr: &charClassMatcher{
-											pos:        position{line: 2786, col: 14, offset: 88638},
+											pos:        position{line: 2790, col: 14, offset: 88746},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14719,10 +14719,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2892, col: 10, offset: 91469},
+									pos: position{line: 2896, col: 10, offset: 91577},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2892, col: 10, offset: 91469},
+										pos:        position{line: 2896, col: 10, offset: 91577},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15149,10 +15149,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 626, col: 5, offset: 19564},
 							expr: &actionExpr{
-								pos: position{line: 2892, col: 10, offset: 91469},
+								pos: position{line: 2896, col: 10, offset: 91577},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2892, col: 10, offset: 91469},
+									pos:        position{line: 2896, col: 10, offset: 91577},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15542,10 +15542,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2892, col: 10, offset: 91469},
+											pos: position{line: 2896, col: 10, offset: 91577},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2892, col: 10, offset: 91469},
+												pos:        position{line: 2896, col: 10, offset: 91577},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15573,25 +15573,25 @@ var g = &grammar{
 												pos: position{line: 634, col: 12, offset: 19997},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 2901, col: 12, offset: 91640},
+														pos: position{line: 2905, col: 12, offset: 91748},
 														run: (*parser).callonUnquotedAttributeValue90,
 														expr: &choiceExpr{
-															pos: position{line: 2901, col: 13, offset: 91641},
+															pos: position{line: 2905, col: 13, offset: 91749},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2901, col: 13, offset: 91641},
+																	pos:        position{line: 2905, col: 13, offset: 91749},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 20, offset: 91648},
+																	pos:        position{line: 2905, col: 20, offset: 91756},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 29, offset: 91657},
+																	pos:        position{line: 2905, col: 29, offset: 91765},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -15602,18 +15602,18 @@ var g = &grammar{
 													&notExpr{
 														pos: position{line: 634, col: 20, offset: 20005},
 														expr: &seqExpr{
-															pos: position{line: 2498, col: 31, offset: 80450},
+															pos: position{line: 2502, col: 31, offset: 80558},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2498, col: 31, offset: 80450},
+																	pos:        position{line: 2502, col: 31, offset: 80558},
 																	val:        "//",
 																	ignoreCase: false,
 																	want:       "\"//\"",
 																},
 																&notExpr{
-																	pos: position{line: 2498, col: 36, offset: 80455},
+																	pos: position{line: 2502, col: 36, offset: 80563},
 																	expr: &litMatcher{
-																		pos:        position{line: 2498, col: 37, offset: 80456},
+																		pos:        position{line: 2502, col: 37, offset: 80564},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
@@ -15655,12 +15655,12 @@ var g = &grammar{
 									pos:   position{line: 696, col: 32, offset: 22195},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2877, col: 7, offset: 91121},
+										pos: position{line: 2881, col: 7, offset: 91229},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2877, col: 7, offset: 91121},
+											pos: position{line: 2881, col: 7, offset: 91229},
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 7, offset: 91121},
+												pos:        position{line: 2881, col: 7, offset: 91229},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15672,10 +15672,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 696, col: 40, offset: 22203},
 									expr: &actionExpr{
-										pos: position{line: 2892, col: 10, offset: 91469},
+										pos: position{line: 2896, col: 10, offset: 91577},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2892, col: 10, offset: 91469},
+											pos:        position{line: 2896, col: 10, offset: 91577},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15724,116 +15724,138 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 655, col: 5, offset: 20665},
+													pos: position{line: 710, col: 8, offset: 22826},
 													run: (*parser).callonCrossReference21,
 													expr: &seqExpr{
-														pos: position{line: 655, col: 5, offset: 20665},
+														pos: position{line: 710, col: 8, offset: 22826},
 														exprs: []interface{}{
-															&litMatcher{
-																pos:        position{line: 655, col: 5, offset: 20665},
-																val:        "\\{",
-																ignoreCase: false,
-																want:       "\"\\\\{\"",
+															&andCodeExpr{
+																pos: position{line: 710, col: 8, offset: 22826},
+																run: (*parser).callonCrossReference23,
 															},
 															&labeledExpr{
-																pos:   position{line: 655, col: 13, offset: 20673},
-																label: "name",
-																expr: &actionExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
-																	run: (*parser).callonCrossReference25,
-																	expr: &seqExpr{
-																		pos: position{line: 318, col: 18, offset: 9736},
-																		exprs: []interface{}{
-																			&charClassMatcher{
-																				pos:        position{line: 318, col: 18, offset: 9736},
-																				val:        "[_\\pL\\pN]",
-																				chars:      []rune{'_'},
-																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																				ignoreCase: false,
-																				inverted:   false,
-																			},
-																			&zeroOrMoreExpr{
-																				pos: position{line: 318, col: 28, offset: 9746},
-																				expr: &charClassMatcher{
-																					pos:        position{line: 318, col: 29, offset: 9747},
-																					val:        "[-\\pL\\pN]",
-																					chars:      []rune{'-'},
-																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																					ignoreCase: false,
-																					inverted:   false,
+																pos:   position{line: 712, col: 7, offset: 22894},
+																label: "ref",
+																expr: &choiceExpr{
+																	pos: position{line: 655, col: 5, offset: 20665},
+																	alternatives: []interface{}{
+																		&actionExpr{
+																			pos: position{line: 655, col: 5, offset: 20665},
+																			run: (*parser).callonCrossReference26,
+																			expr: &seqExpr{
+																				pos: position{line: 655, col: 5, offset: 20665},
+																				exprs: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 655, col: 5, offset: 20665},
+																						val:        "\\{",
+																						ignoreCase: false,
+																						want:       "\"\\\\{\"",
+																					},
+																					&labeledExpr{
+																						pos:   position{line: 655, col: 13, offset: 20673},
+																						label: "name",
+																						expr: &actionExpr{
+																							pos: position{line: 318, col: 18, offset: 9736},
+																							run: (*parser).callonCrossReference30,
+																							expr: &seqExpr{
+																								pos: position{line: 318, col: 18, offset: 9736},
+																								exprs: []interface{}{
+																									&charClassMatcher{
+																										pos:        position{line: 318, col: 18, offset: 9736},
+																										val:        "[_\\pL\\pN]",
+																										chars:      []rune{'_'},
+																										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																									&zeroOrMoreExpr{
+																										pos: position{line: 318, col: 28, offset: 9746},
+																										expr: &charClassMatcher{
+																											pos:        position{line: 318, col: 29, offset: 9747},
+																											val:        "[-\\pL\\pN]",
+																											chars:      []rune{'-'},
+																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																											ignoreCase: false,
+																											inverted:   false,
+																										},
+																									},
+																								},
+																							},
+																						},
+																					},
+																					&litMatcher{
+																						pos:        position{line: 655, col: 32, offset: 20692},
+																						val:        "}",
+																						ignoreCase: false,
+																						want:       "\"}\"",
+																					},
 																				},
 																			},
 																		},
-																	},
-																},
-															},
-															&litMatcher{
-																pos:        position{line: 655, col: 32, offset: 20692},
-																val:        "}",
-																ignoreCase: false,
-																want:       "\"}\"",
-															},
-														},
-													},
-												},
-												&actionExpr{
-													pos: position{line: 662, col: 5, offset: 20933},
-													run: (*parser).callonCrossReference31,
-													expr: &seqExpr{
-														pos: position{line: 662, col: 5, offset: 20933},
-														exprs: []interface{}{
-															&litMatcher{
-																pos:        position{line: 662, col: 5, offset: 20933},
-																val:        "{",
-																ignoreCase: false,
-																want:       "\"{\"",
-															},
-															&labeledExpr{
-																pos:   position{line: 662, col: 9, offset: 20937},
-																label: "name",
-																expr: &actionExpr{
-																	pos: position{line: 318, col: 18, offset: 9736},
-																	run: (*parser).callonCrossReference35,
-																	expr: &seqExpr{
-																		pos: position{line: 318, col: 18, offset: 9736},
-																		exprs: []interface{}{
-																			&charClassMatcher{
-																				pos:        position{line: 318, col: 18, offset: 9736},
-																				val:        "[_\\pL\\pN]",
-																				chars:      []rune{'_'},
-																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																				ignoreCase: false,
-																				inverted:   false,
-																			},
-																			&zeroOrMoreExpr{
-																				pos: position{line: 318, col: 28, offset: 9746},
-																				expr: &charClassMatcher{
-																					pos:        position{line: 318, col: 29, offset: 9747},
-																					val:        "[-\\pL\\pN]",
-																					chars:      []rune{'-'},
-																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
-																					ignoreCase: false,
-																					inverted:   false,
+																		&actionExpr{
+																			pos: position{line: 662, col: 5, offset: 20933},
+																			run: (*parser).callonCrossReference36,
+																			expr: &seqExpr{
+																				pos: position{line: 662, col: 5, offset: 20933},
+																				exprs: []interface{}{
+																					&litMatcher{
+																						pos:        position{line: 662, col: 5, offset: 20933},
+																						val:        "{",
+																						ignoreCase: false,
+																						want:       "\"{\"",
+																					},
+																					&labeledExpr{
+																						pos:   position{line: 662, col: 9, offset: 20937},
+																						label: "name",
+																						expr: &actionExpr{
+																							pos: position{line: 318, col: 18, offset: 9736},
+																							run: (*parser).callonCrossReference40,
+																							expr: &seqExpr{
+																								pos: position{line: 318, col: 18, offset: 9736},
+																								exprs: []interface{}{
+																									&charClassMatcher{
+																										pos:        position{line: 318, col: 18, offset: 9736},
+																										val:        "[_\\pL\\pN]",
+																										chars:      []rune{'_'},
+																										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																										ignoreCase: false,
+																										inverted:   false,
+																									},
+																									&zeroOrMoreExpr{
+																										pos: position{line: 318, col: 28, offset: 9746},
+																										expr: &charClassMatcher{
+																											pos:        position{line: 318, col: 29, offset: 9747},
+																											val:        "[-\\pL\\pN]",
+																											chars:      []rune{'-'},
+																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
+																											ignoreCase: false,
+																											inverted:   false,
+																										},
+																									},
+																								},
+																							},
+																						},
+																					},
+																					&litMatcher{
+																						pos:        position{line: 662, col: 28, offset: 20956},
+																						val:        "}",
+																						ignoreCase: false,
+																						want:       "\"}\"",
+																					},
 																				},
 																			},
 																		},
 																	},
 																},
 															},
-															&litMatcher{
-																pos:        position{line: 662, col: 28, offset: 20956},
-																val:        "}",
-																ignoreCase: false,
-																want:       "\"}\"",
-															},
 														},
 													},
 												},
 												&actionExpr{
-													pos: position{line: 711, col: 8, offset: 22856},
-													run: (*parser).callonCrossReference41,
+													pos: position{line: 715, col: 8, offset: 22964},
+													run: (*parser).callonCrossReference46,
 													expr: &litMatcher{
-														pos:        position{line: 711, col: 8, offset: 22856},
+														pos:        position{line: 715, col: 8, offset: 22964},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -15854,7 +15876,7 @@ var g = &grammar{
 					},
 					&actionExpr{
 						pos: position{line: 698, col: 9, offset: 22315},
-						run: (*parser).callonCrossReference44,
+						run: (*parser).callonCrossReference49,
 						expr: &seqExpr{
 							pos: position{line: 698, col: 9, offset: 22315},
 							exprs: []interface{}{
@@ -15868,12 +15890,12 @@ var g = &grammar{
 									pos:   position{line: 698, col: 14, offset: 22320},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2877, col: 7, offset: 91121},
-										run: (*parser).callonCrossReference48,
+										pos: position{line: 2881, col: 7, offset: 91229},
+										run: (*parser).callonCrossReference53,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2877, col: 7, offset: 91121},
+											pos: position{line: 2881, col: 7, offset: 91229},
 											expr: &charClassMatcher{
-												pos:        position{line: 2877, col: 7, offset: 91121},
+												pos:        position{line: 2881, col: 7, offset: 91229},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15917,41 +15939,41 @@ var g = &grammar{
 							pos:   position{line: 702, col: 35, offset: 22433},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2846, col: 17, offset: 90132},
+								pos: position{line: 2850, col: 17, offset: 90240},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2846, col: 17, offset: 90132},
+									pos:   position{line: 2850, col: 17, offset: 90240},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2863, col: 5, offset: 90586},
+										pos: position{line: 2867, col: 5, offset: 90694},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2863, col: 5, offset: 90586},
+											pos:   position{line: 2867, col: 5, offset: 90694},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2863, col: 14, offset: 90595},
+												pos: position{line: 2867, col: 14, offset: 90703},
 												expr: &choiceExpr{
-													pos: position{line: 2864, col: 9, offset: 90605},
+													pos: position{line: 2868, col: 9, offset: 90713},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2864, col: 9, offset: 90605},
+															pos: position{line: 2868, col: 9, offset: 90713},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2864, col: 9, offset: 90605},
+																pos: position{line: 2868, col: 9, offset: 90713},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2864, col: 9, offset: 90605},
+																		pos: position{line: 2868, col: 9, offset: 90713},
 																		expr: &litMatcher{
-																			pos:        position{line: 2864, col: 10, offset: 90606},
+																			pos:        position{line: 2868, col: 10, offset: 90714},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2865, col: 9, offset: 90634},
+																		pos: position{line: 2869, col: 9, offset: 90742},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2865, col: 10, offset: 90635},
+																			pos:        position{line: 2869, col: 10, offset: 90743},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15962,27 +15984,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2868, col: 11, offset: 90847},
+															pos: position{line: 2872, col: 11, offset: 90955},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2868, col: 11, offset: 90847},
+																	pos:        position{line: 2872, col: 11, offset: 90955},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2868, col: 19, offset: 90855},
+																	pos: position{line: 2872, col: 19, offset: 90963},
 																	expr: &seqExpr{
-																		pos: position{line: 2868, col: 21, offset: 90857},
+																		pos: position{line: 2872, col: 21, offset: 90965},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2868, col: 21, offset: 90857},
+																				pos: position{line: 2872, col: 21, offset: 90965},
 																				expr: &actionExpr{
-																					pos: position{line: 2892, col: 10, offset: 91469},
+																					pos: position{line: 2896, col: 10, offset: 91577},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2892, col: 10, offset: 91469},
+																						pos:        position{line: 2896, col: 10, offset: 91577},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -15991,11 +16013,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2868, col: 28, offset: 90864},
+																				pos: position{line: 2872, col: 28, offset: 90972},
 																				expr: &notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
@@ -16351,27 +16373,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1220, col: 23, offset: 37720},
+															pos: position{line: 1224, col: 23, offset: 37828},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1220, col: 23, offset: 37720},
+																pos: position{line: 1224, col: 23, offset: 37828},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1218, col: 32, offset: 37688},
+																		pos:        position{line: 1222, col: 32, offset: 37796},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1220, col: 51, offset: 37748},
+																		pos:   position{line: 1224, col: 51, offset: 37856},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1220, col: 56, offset: 37753},
+																			pos: position{line: 1224, col: 56, offset: 37861},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1220, col: 56, offset: 37753},
+																				pos: position{line: 1224, col: 56, offset: 37861},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1220, col: 56, offset: 37753},
+																					pos:        position{line: 1224, col: 56, offset: 37861},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -16381,7 +16403,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1218, col: 32, offset: 37688},
+																		pos:        position{line: 1222, col: 32, offset: 37796},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -16390,10 +16412,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2871, col: 11, offset: 90984},
+															pos: position{line: 2875, col: 11, offset: 91092},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2871, col: 11, offset: 90984},
+																pos:        position{line: 2875, col: 11, offset: 91092},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16421,29 +16443,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 1010, col: 1, offset: 31515},
+			pos:  position{line: 1014, col: 1, offset: 31623},
 			expr: &actionExpr{
-				pos: position{line: 1011, col: 5, offset: 31548},
+				pos: position{line: 1015, col: 5, offset: 31656},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 1011, col: 5, offset: 31548},
+					pos: position{line: 1015, col: 5, offset: 31656},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1011, col: 5, offset: 31548},
+							pos:        position{line: 1015, col: 5, offset: 31656},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1011, col: 11, offset: 31554},
+							pos:   position{line: 1015, col: 11, offset: 31662},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2842, col: 14, offset: 90062},
+								pos: position{line: 2846, col: 14, offset: 90170},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2842, col: 14, offset: 90062},
+									pos: position{line: 2846, col: 14, offset: 90170},
 									expr: &charClassMatcher{
-										pos:        position{line: 2842, col: 14, offset: 90062},
+										pos:        position{line: 2846, col: 14, offset: 90170},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16453,28 +16475,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2914, col: 8, offset: 91867},
+							pos: position{line: 2918, col: 8, offset: 91975},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2901, col: 12, offset: 91640},
+									pos: position{line: 2905, col: 12, offset: 91748},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2901, col: 13, offset: 91641},
+										pos: position{line: 2905, col: 13, offset: 91749},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2901, col: 13, offset: 91641},
+												pos:        position{line: 2905, col: 13, offset: 91749},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2901, col: 20, offset: 91648},
+												pos:        position{line: 2905, col: 20, offset: 91756},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2901, col: 29, offset: 91657},
+												pos:        position{line: 2905, col: 29, offset: 91765},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16483,9 +16505,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2911, col: 8, offset: 91817},
+									pos: position{line: 2915, col: 8, offset: 91925},
 									expr: &anyMatcher{
-										line: 2911, col: 9, offset: 91818,
+										line: 2915, col: 9, offset: 91926,
 									},
 								},
 							},
@@ -16496,53 +16518,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1122, col: 1, offset: 34471},
+			pos:  position{line: 1126, col: 1, offset: 34579},
 			expr: &actionExpr{
-				pos: position{line: 1123, col: 5, offset: 34494},
+				pos: position{line: 1127, col: 5, offset: 34602},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1123, col: 5, offset: 34494},
+					pos: position{line: 1127, col: 5, offset: 34602},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1123, col: 5, offset: 34494},
+							pos: position{line: 1127, col: 5, offset: 34602},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1126, col: 5, offset: 34555},
+							pos: position{line: 1130, col: 5, offset: 34663},
 							expr: &choiceExpr{
-								pos: position{line: 1126, col: 6, offset: 34556},
+								pos: position{line: 1130, col: 6, offset: 34664},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2493, col: 22, offset: 80229},
+										pos: position{line: 2497, col: 22, offset: 80337},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2493, col: 22, offset: 80229},
+											pos: position{line: 2497, col: 22, offset: 80337},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2498, col: 31, offset: 80450},
+													pos:        position{line: 2502, col: 31, offset: 80558},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2498, col: 36, offset: 80455},
+													pos: position{line: 2502, col: 36, offset: 80563},
 													expr: &litMatcher{
-														pos:        position{line: 2498, col: 37, offset: 80456},
+														pos:        position{line: 2502, col: 37, offset: 80564},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2493, col: 49, offset: 80256},
+													pos:   position{line: 2497, col: 49, offset: 80364},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2838, col: 13, offset: 89995},
+														pos: position{line: 2842, col: 13, offset: 90103},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2838, col: 13, offset: 89995},
+															pos: position{line: 2842, col: 13, offset: 90103},
 															expr: &charClassMatcher{
-																pos:        position{line: 2838, col: 13, offset: 89995},
+																pos:        position{line: 2842, col: 13, offset: 90103},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16552,28 +16574,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2914, col: 8, offset: 91867},
+													pos: position{line: 2918, col: 8, offset: 91975},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2901, col: 12, offset: 91640},
+															pos: position{line: 2905, col: 12, offset: 91748},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2901, col: 13, offset: 91641},
+																pos: position{line: 2905, col: 13, offset: 91749},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 13, offset: 91641},
+																		pos:        position{line: 2905, col: 13, offset: 91749},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 20, offset: 91648},
+																		pos:        position{line: 2905, col: 20, offset: 91756},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 29, offset: 91657},
+																		pos:        position{line: 2905, col: 29, offset: 91765},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16582,9 +16604,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2911, col: 8, offset: 91817},
+															pos: position{line: 2915, col: 8, offset: 91925},
 															expr: &anyMatcher{
-																line: 2911, col: 9, offset: 91818,
+																line: 2915, col: 9, offset: 91926,
 															},
 														},
 													},
@@ -16593,39 +16615,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 830, col: 5, offset: 26670},
+										pos: position{line: 834, col: 5, offset: 26778},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 830, col: 5, offset: 26670},
+											pos: position{line: 834, col: 5, offset: 26778},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 830, col: 5, offset: 26670},
+													pos:   position{line: 834, col: 5, offset: 26778},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 750, col: 5, offset: 23930},
+														pos: position{line: 754, col: 5, offset: 24038},
 														run: (*parser).callonDocumentHeader26,
 														expr: &seqExpr{
-															pos: position{line: 750, col: 5, offset: 23930},
+															pos: position{line: 754, col: 5, offset: 24038},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 750, col: 5, offset: 23930},
+																	pos:   position{line: 754, col: 5, offset: 24038},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 750, col: 16, offset: 23941},
+																		pos: position{line: 754, col: 16, offset: 24049},
 																		run: (*parser).callonDocumentHeader29,
 																		expr: &seqExpr{
-																			pos: position{line: 750, col: 16, offset: 23941},
+																			pos: position{line: 754, col: 16, offset: 24049},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 750, col: 16, offset: 23941},
+																					pos:        position{line: 754, col: 16, offset: 24049},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 750, col: 23, offset: 23948},
+																					pos: position{line: 754, col: 23, offset: 24056},
 																					expr: &litMatcher{
-																						pos:        position{line: 750, col: 23, offset: 23948},
+																						pos:        position{line: 754, col: 23, offset: 24056},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -16636,12 +16658,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 752, col: 8, offset: 24032},
+																	pos: position{line: 756, col: 8, offset: 24140},
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 10, offset: 91469},
+																		pos: position{line: 2896, col: 10, offset: 91577},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 10, offset: 91469},
+																			pos:        position{line: 2896, col: 10, offset: 91577},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16650,28 +16672,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16680,9 +16702,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -16692,56 +16714,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 831, col: 5, offset: 26709},
+													pos: position{line: 835, col: 5, offset: 26817},
 													run: (*parser).callonDocumentHeader45,
 												},
 												&labeledExpr{
-													pos:   position{line: 834, col: 5, offset: 26801},
+													pos:   position{line: 838, col: 5, offset: 26909},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 849, col: 5, offset: 27199},
+														pos: position{line: 853, col: 5, offset: 27307},
 														expr: &actionExpr{
-															pos: position{line: 849, col: 6, offset: 27200},
+															pos: position{line: 853, col: 6, offset: 27308},
 															run: (*parser).callonDocumentHeader48,
 															expr: &seqExpr{
-																pos: position{line: 849, col: 6, offset: 27200},
+																pos: position{line: 853, col: 6, offset: 27308},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 849, col: 6, offset: 27200},
+																		pos: position{line: 853, col: 6, offset: 27308},
 																		expr: &choiceExpr{
-																			pos: position{line: 842, col: 5, offset: 27041},
+																			pos: position{line: 846, col: 5, offset: 27149},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 842, col: 5, offset: 27041},
+																					pos: position{line: 846, col: 5, offset: 27149},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 842, col: 5, offset: 27041},
+																							pos:   position{line: 846, col: 5, offset: 27149},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 750, col: 5, offset: 23930},
+																								pos: position{line: 754, col: 5, offset: 24038},
 																								run: (*parser).callonDocumentHeader54,
 																								expr: &seqExpr{
-																									pos: position{line: 750, col: 5, offset: 23930},
+																									pos: position{line: 754, col: 5, offset: 24038},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 750, col: 5, offset: 23930},
+																											pos:   position{line: 754, col: 5, offset: 24038},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 750, col: 16, offset: 23941},
+																												pos: position{line: 754, col: 16, offset: 24049},
 																												run: (*parser).callonDocumentHeader57,
 																												expr: &seqExpr{
-																													pos: position{line: 750, col: 16, offset: 23941},
+																													pos: position{line: 754, col: 16, offset: 24049},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 750, col: 16, offset: 23941},
+																															pos:        position{line: 754, col: 16, offset: 24049},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 750, col: 23, offset: 23948},
+																															pos: position{line: 754, col: 23, offset: 24056},
 																															expr: &litMatcher{
-																																pos:        position{line: 750, col: 23, offset: 23948},
+																																pos:        position{line: 754, col: 23, offset: 24056},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -16752,12 +16774,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 752, col: 8, offset: 24032},
+																											pos: position{line: 756, col: 8, offset: 24140},
 																											expr: &actionExpr{
-																												pos: position{line: 2892, col: 10, offset: 91469},
+																												pos: position{line: 2896, col: 10, offset: 91577},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2892, col: 10, offset: 91469},
+																													pos:        position{line: 2896, col: 10, offset: 91577},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -16766,28 +16788,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2914, col: 8, offset: 91867},
+																											pos: position{line: 2918, col: 8, offset: 91975},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2901, col: 12, offset: 91640},
+																													pos: position{line: 2905, col: 12, offset: 91748},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2901, col: 13, offset: 91641},
+																														pos: position{line: 2905, col: 13, offset: 91749},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 13, offset: 91641},
+																																pos:        position{line: 2905, col: 13, offset: 91749},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 20, offset: 91648},
+																																pos:        position{line: 2905, col: 20, offset: 91756},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 29, offset: 91657},
+																																pos:        position{line: 2905, col: 29, offset: 91765},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -16796,9 +16818,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2911, col: 8, offset: 91817},
+																													pos: position{line: 2915, col: 8, offset: 91925},
 																													expr: &anyMatcher{
-																														line: 2911, col: 9, offset: 91818,
+																														line: 2915, col: 9, offset: 91926,
 																													},
 																												},
 																											},
@@ -16808,45 +16830,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 843, col: 5, offset: 27072},
+																							pos: position{line: 847, col: 5, offset: 27180},
 																							run: (*parser).callonDocumentHeader73,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 850, col: 5, offset: 27230},
+																		pos:   position{line: 854, col: 5, offset: 27338},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 821, col: 5, offset: 26434},
+																			pos: position{line: 825, col: 5, offset: 26542},
 																			run: (*parser).callonDocumentHeader77,
 																			expr: &seqExpr{
-																				pos: position{line: 821, col: 5, offset: 26434},
+																				pos: position{line: 825, col: 5, offset: 26542},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2909, col: 11, offset: 91803},
+																						pos: position{line: 2913, col: 11, offset: 91911},
 																						expr: &anyMatcher{
-																							line: 2909, col: 13, offset: 91805,
+																							line: 2913, col: 13, offset: 91913,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 822, col: 5, offset: 26509},
+																						pos:   position{line: 826, col: 5, offset: 26617},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2838, col: 13, offset: 89995},
+																							pos: position{line: 2842, col: 13, offset: 90103},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2838, col: 13, offset: 89995},
+																									pos:        position{line: 2842, col: 13, offset: 90103},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16856,28 +16878,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2914, col: 8, offset: 91867},
+																						pos: position{line: 2918, col: 8, offset: 91975},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2901, col: 12, offset: 91640},
+																								pos: position{line: 2905, col: 12, offset: 91748},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2901, col: 13, offset: 91641},
+																									pos: position{line: 2905, col: 13, offset: 91749},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91641},
+																											pos:        position{line: 2905, col: 13, offset: 91749},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 20, offset: 91648},
+																											pos:        position{line: 2905, col: 20, offset: 91756},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 29, offset: 91657},
+																											pos:        position{line: 2905, col: 29, offset: 91765},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16886,9 +16908,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 8, offset: 91817},
+																								pos: position{line: 2915, col: 8, offset: 91925},
 																								expr: &anyMatcher{
-																									line: 2911, col: 9, offset: 91818,
+																									line: 2915, col: 9, offset: 91926,
 																								},
 																							},
 																						},
@@ -16903,44 +16925,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 835, col: 5, offset: 26835},
+													pos:   position{line: 839, col: 5, offset: 26943},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 835, col: 9, offset: 26839},
+														pos: position{line: 839, col: 9, offset: 26947},
 														expr: &choiceExpr{
-															pos: position{line: 842, col: 5, offset: 27041},
+															pos: position{line: 846, col: 5, offset: 27149},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 842, col: 5, offset: 27041},
+																	pos: position{line: 846, col: 5, offset: 27149},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 842, col: 5, offset: 27041},
+																			pos:   position{line: 846, col: 5, offset: 27149},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 750, col: 5, offset: 23930},
+																				pos: position{line: 754, col: 5, offset: 24038},
 																				run: (*parser).callonDocumentHeader98,
 																				expr: &seqExpr{
-																					pos: position{line: 750, col: 5, offset: 23930},
+																					pos: position{line: 754, col: 5, offset: 24038},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 750, col: 5, offset: 23930},
+																							pos:   position{line: 754, col: 5, offset: 24038},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 750, col: 16, offset: 23941},
+																								pos: position{line: 754, col: 16, offset: 24049},
 																								run: (*parser).callonDocumentHeader101,
 																								expr: &seqExpr{
-																									pos: position{line: 750, col: 16, offset: 23941},
+																									pos: position{line: 754, col: 16, offset: 24049},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 750, col: 16, offset: 23941},
+																											pos:        position{line: 754, col: 16, offset: 24049},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 750, col: 23, offset: 23948},
+																											pos: position{line: 754, col: 23, offset: 24056},
 																											expr: &litMatcher{
-																												pos:        position{line: 750, col: 23, offset: 23948},
+																												pos:        position{line: 754, col: 23, offset: 24056},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -16951,12 +16973,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 752, col: 8, offset: 24032},
+																							pos: position{line: 756, col: 8, offset: 24140},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonDocumentHeader107,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -16965,28 +16987,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonDocumentHeader110,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -16995,9 +17017,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -17007,15 +17029,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 843, col: 5, offset: 27072},
+																			pos: position{line: 847, col: 5, offset: 27180},
 																			run: (*parser).callonDocumentHeader117,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2911, col: 8, offset: 91817},
+																	pos: position{line: 2915, col: 8, offset: 91925},
 																	expr: &anyMatcher{
-																		line: 2911, col: 9, offset: 91818,
+																		line: 2915, col: 9, offset: 91926,
 																	},
 																},
 															},
@@ -17029,49 +17051,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1127, col: 5, offset: 34652},
+							pos:   position{line: 1131, col: 5, offset: 34760},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1127, col: 12, offset: 34659},
+								pos:  position{line: 1131, col: 12, offset: 34767},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1128, col: 5, offset: 34678},
+							pos: position{line: 1132, col: 5, offset: 34786},
 							expr: &choiceExpr{
-								pos: position{line: 1128, col: 6, offset: 34679},
+								pos: position{line: 1132, col: 6, offset: 34787},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2493, col: 22, offset: 80229},
+										pos: position{line: 2497, col: 22, offset: 80337},
 										run: (*parser).callonDocumentHeader124,
 										expr: &seqExpr{
-											pos: position{line: 2493, col: 22, offset: 80229},
+											pos: position{line: 2497, col: 22, offset: 80337},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2498, col: 31, offset: 80450},
+													pos:        position{line: 2502, col: 31, offset: 80558},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2498, col: 36, offset: 80455},
+													pos: position{line: 2502, col: 36, offset: 80563},
 													expr: &litMatcher{
-														pos:        position{line: 2498, col: 37, offset: 80456},
+														pos:        position{line: 2502, col: 37, offset: 80564},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2493, col: 49, offset: 80256},
+													pos:   position{line: 2497, col: 49, offset: 80364},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2838, col: 13, offset: 89995},
+														pos: position{line: 2842, col: 13, offset: 90103},
 														run: (*parser).callonDocumentHeader130,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2838, col: 13, offset: 89995},
+															pos: position{line: 2842, col: 13, offset: 90103},
 															expr: &charClassMatcher{
-																pos:        position{line: 2838, col: 13, offset: 89995},
+																pos:        position{line: 2842, col: 13, offset: 90103},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17081,28 +17103,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2914, col: 8, offset: 91867},
+													pos: position{line: 2918, col: 8, offset: 91975},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2901, col: 12, offset: 91640},
+															pos: position{line: 2905, col: 12, offset: 91748},
 															run: (*parser).callonDocumentHeader134,
 															expr: &choiceExpr{
-																pos: position{line: 2901, col: 13, offset: 91641},
+																pos: position{line: 2905, col: 13, offset: 91749},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 13, offset: 91641},
+																		pos:        position{line: 2905, col: 13, offset: 91749},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 20, offset: 91648},
+																		pos:        position{line: 2905, col: 20, offset: 91756},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 29, offset: 91657},
+																		pos:        position{line: 2905, col: 29, offset: 91765},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17111,9 +17133,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2911, col: 8, offset: 91817},
+															pos: position{line: 2915, col: 8, offset: 91925},
 															expr: &anyMatcher{
-																line: 2911, col: 9, offset: 91818,
+																line: 2915, col: 9, offset: 91926,
 															},
 														},
 													},
@@ -17122,39 +17144,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 830, col: 5, offset: 26670},
+										pos: position{line: 834, col: 5, offset: 26778},
 										run: (*parser).callonDocumentHeader141,
 										expr: &seqExpr{
-											pos: position{line: 830, col: 5, offset: 26670},
+											pos: position{line: 834, col: 5, offset: 26778},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 830, col: 5, offset: 26670},
+													pos:   position{line: 834, col: 5, offset: 26778},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 750, col: 5, offset: 23930},
+														pos: position{line: 754, col: 5, offset: 24038},
 														run: (*parser).callonDocumentHeader144,
 														expr: &seqExpr{
-															pos: position{line: 750, col: 5, offset: 23930},
+															pos: position{line: 754, col: 5, offset: 24038},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 750, col: 5, offset: 23930},
+																	pos:   position{line: 754, col: 5, offset: 24038},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 750, col: 16, offset: 23941},
+																		pos: position{line: 754, col: 16, offset: 24049},
 																		run: (*parser).callonDocumentHeader147,
 																		expr: &seqExpr{
-																			pos: position{line: 750, col: 16, offset: 23941},
+																			pos: position{line: 754, col: 16, offset: 24049},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 750, col: 16, offset: 23941},
+																					pos:        position{line: 754, col: 16, offset: 24049},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 750, col: 23, offset: 23948},
+																					pos: position{line: 754, col: 23, offset: 24056},
 																					expr: &litMatcher{
-																						pos:        position{line: 750, col: 23, offset: 23948},
+																						pos:        position{line: 754, col: 23, offset: 24056},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -17165,12 +17187,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 752, col: 8, offset: 24032},
+																	pos: position{line: 756, col: 8, offset: 24140},
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 10, offset: 91469},
+																		pos: position{line: 2896, col: 10, offset: 91577},
 																		run: (*parser).callonDocumentHeader153,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 10, offset: 91469},
+																			pos:        position{line: 2896, col: 10, offset: 91577},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17179,28 +17201,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonDocumentHeader156,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17209,9 +17231,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -17221,56 +17243,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 831, col: 5, offset: 26709},
+													pos: position{line: 835, col: 5, offset: 26817},
 													run: (*parser).callonDocumentHeader163,
 												},
 												&labeledExpr{
-													pos:   position{line: 834, col: 5, offset: 26801},
+													pos:   position{line: 838, col: 5, offset: 26909},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 849, col: 5, offset: 27199},
+														pos: position{line: 853, col: 5, offset: 27307},
 														expr: &actionExpr{
-															pos: position{line: 849, col: 6, offset: 27200},
+															pos: position{line: 853, col: 6, offset: 27308},
 															run: (*parser).callonDocumentHeader166,
 															expr: &seqExpr{
-																pos: position{line: 849, col: 6, offset: 27200},
+																pos: position{line: 853, col: 6, offset: 27308},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 849, col: 6, offset: 27200},
+																		pos: position{line: 853, col: 6, offset: 27308},
 																		expr: &choiceExpr{
-																			pos: position{line: 842, col: 5, offset: 27041},
+																			pos: position{line: 846, col: 5, offset: 27149},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 842, col: 5, offset: 27041},
+																					pos: position{line: 846, col: 5, offset: 27149},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 842, col: 5, offset: 27041},
+																							pos:   position{line: 846, col: 5, offset: 27149},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 750, col: 5, offset: 23930},
+																								pos: position{line: 754, col: 5, offset: 24038},
 																								run: (*parser).callonDocumentHeader172,
 																								expr: &seqExpr{
-																									pos: position{line: 750, col: 5, offset: 23930},
+																									pos: position{line: 754, col: 5, offset: 24038},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 750, col: 5, offset: 23930},
+																											pos:   position{line: 754, col: 5, offset: 24038},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 750, col: 16, offset: 23941},
+																												pos: position{line: 754, col: 16, offset: 24049},
 																												run: (*parser).callonDocumentHeader175,
 																												expr: &seqExpr{
-																													pos: position{line: 750, col: 16, offset: 23941},
+																													pos: position{line: 754, col: 16, offset: 24049},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 750, col: 16, offset: 23941},
+																															pos:        position{line: 754, col: 16, offset: 24049},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 750, col: 23, offset: 23948},
+																															pos: position{line: 754, col: 23, offset: 24056},
 																															expr: &litMatcher{
-																																pos:        position{line: 750, col: 23, offset: 23948},
+																																pos:        position{line: 754, col: 23, offset: 24056},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -17281,12 +17303,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 752, col: 8, offset: 24032},
+																											pos: position{line: 756, col: 8, offset: 24140},
 																											expr: &actionExpr{
-																												pos: position{line: 2892, col: 10, offset: 91469},
+																												pos: position{line: 2896, col: 10, offset: 91577},
 																												run: (*parser).callonDocumentHeader181,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2892, col: 10, offset: 91469},
+																													pos:        position{line: 2896, col: 10, offset: 91577},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17295,28 +17317,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2914, col: 8, offset: 91867},
+																											pos: position{line: 2918, col: 8, offset: 91975},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2901, col: 12, offset: 91640},
+																													pos: position{line: 2905, col: 12, offset: 91748},
 																													run: (*parser).callonDocumentHeader184,
 																													expr: &choiceExpr{
-																														pos: position{line: 2901, col: 13, offset: 91641},
+																														pos: position{line: 2905, col: 13, offset: 91749},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 13, offset: 91641},
+																																pos:        position{line: 2905, col: 13, offset: 91749},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 20, offset: 91648},
+																																pos:        position{line: 2905, col: 20, offset: 91756},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 29, offset: 91657},
+																																pos:        position{line: 2905, col: 29, offset: 91765},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17325,9 +17347,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2911, col: 8, offset: 91817},
+																													pos: position{line: 2915, col: 8, offset: 91925},
 																													expr: &anyMatcher{
-																														line: 2911, col: 9, offset: 91818,
+																														line: 2915, col: 9, offset: 91926,
 																													},
 																												},
 																											},
@@ -17337,45 +17359,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 843, col: 5, offset: 27072},
+																							pos: position{line: 847, col: 5, offset: 27180},
 																							run: (*parser).callonDocumentHeader191,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 850, col: 5, offset: 27230},
+																		pos:   position{line: 854, col: 5, offset: 27338},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 821, col: 5, offset: 26434},
+																			pos: position{line: 825, col: 5, offset: 26542},
 																			run: (*parser).callonDocumentHeader195,
 																			expr: &seqExpr{
-																				pos: position{line: 821, col: 5, offset: 26434},
+																				pos: position{line: 825, col: 5, offset: 26542},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2909, col: 11, offset: 91803},
+																						pos: position{line: 2913, col: 11, offset: 91911},
 																						expr: &anyMatcher{
-																							line: 2909, col: 13, offset: 91805,
+																							line: 2913, col: 13, offset: 91913,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 822, col: 5, offset: 26509},
+																						pos:   position{line: 826, col: 5, offset: 26617},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2838, col: 13, offset: 89995},
+																							pos: position{line: 2842, col: 13, offset: 90103},
 																							run: (*parser).callonDocumentHeader200,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2838, col: 13, offset: 89995},
+																									pos:        position{line: 2842, col: 13, offset: 90103},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17385,28 +17407,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2914, col: 8, offset: 91867},
+																						pos: position{line: 2918, col: 8, offset: 91975},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2901, col: 12, offset: 91640},
+																								pos: position{line: 2905, col: 12, offset: 91748},
 																								run: (*parser).callonDocumentHeader204,
 																								expr: &choiceExpr{
-																									pos: position{line: 2901, col: 13, offset: 91641},
+																									pos: position{line: 2905, col: 13, offset: 91749},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91641},
+																											pos:        position{line: 2905, col: 13, offset: 91749},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 20, offset: 91648},
+																											pos:        position{line: 2905, col: 20, offset: 91756},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 29, offset: 91657},
+																											pos:        position{line: 2905, col: 29, offset: 91765},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17415,9 +17437,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 8, offset: 91817},
+																								pos: position{line: 2915, col: 8, offset: 91925},
 																								expr: &anyMatcher{
-																									line: 2911, col: 9, offset: 91818,
+																									line: 2915, col: 9, offset: 91926,
 																								},
 																							},
 																						},
@@ -17432,44 +17454,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 835, col: 5, offset: 26835},
+													pos:   position{line: 839, col: 5, offset: 26943},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 835, col: 9, offset: 26839},
+														pos: position{line: 839, col: 9, offset: 26947},
 														expr: &choiceExpr{
-															pos: position{line: 842, col: 5, offset: 27041},
+															pos: position{line: 846, col: 5, offset: 27149},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 842, col: 5, offset: 27041},
+																	pos: position{line: 846, col: 5, offset: 27149},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 842, col: 5, offset: 27041},
+																			pos:   position{line: 846, col: 5, offset: 27149},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 750, col: 5, offset: 23930},
+																				pos: position{line: 754, col: 5, offset: 24038},
 																				run: (*parser).callonDocumentHeader216,
 																				expr: &seqExpr{
-																					pos: position{line: 750, col: 5, offset: 23930},
+																					pos: position{line: 754, col: 5, offset: 24038},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 750, col: 5, offset: 23930},
+																							pos:   position{line: 754, col: 5, offset: 24038},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 750, col: 16, offset: 23941},
+																								pos: position{line: 754, col: 16, offset: 24049},
 																								run: (*parser).callonDocumentHeader219,
 																								expr: &seqExpr{
-																									pos: position{line: 750, col: 16, offset: 23941},
+																									pos: position{line: 754, col: 16, offset: 24049},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 750, col: 16, offset: 23941},
+																											pos:        position{line: 754, col: 16, offset: 24049},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 750, col: 23, offset: 23948},
+																											pos: position{line: 754, col: 23, offset: 24056},
 																											expr: &litMatcher{
-																												pos:        position{line: 750, col: 23, offset: 23948},
+																												pos:        position{line: 754, col: 23, offset: 24056},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -17480,12 +17502,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 752, col: 8, offset: 24032},
+																							pos: position{line: 756, col: 8, offset: 24140},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonDocumentHeader225,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -17494,28 +17516,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonDocumentHeader228,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -17524,9 +17546,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -17536,15 +17558,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 843, col: 5, offset: 27072},
+																			pos: position{line: 847, col: 5, offset: 27180},
 																			run: (*parser).callonDocumentHeader235,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2911, col: 8, offset: 91817},
+																	pos: position{line: 2915, col: 8, offset: 91925},
 																	expr: &anyMatcher{
-																		line: 2911, col: 9, offset: 91818,
+																		line: 2915, col: 9, offset: 91926,
 																	},
 																},
 															},
@@ -17558,41 +17580,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1129, col: 5, offset: 34775},
+							pos:   position{line: 1133, col: 5, offset: 34883},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1129, col: 24, offset: 34794},
+								pos: position{line: 1133, col: 24, offset: 34902},
 								expr: &actionExpr{
-									pos: position{line: 1140, col: 5, offset: 35169},
+									pos: position{line: 1144, col: 5, offset: 35277},
 									run: (*parser).callonDocumentHeader240,
 									expr: &seqExpr{
-										pos: position{line: 1140, col: 5, offset: 35169},
+										pos: position{line: 1144, col: 5, offset: 35277},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1140, col: 5, offset: 35169},
+												pos: position{line: 1144, col: 5, offset: 35277},
 												expr: &litMatcher{
-													pos:        position{line: 1140, col: 6, offset: 35170},
+													pos:        position{line: 1144, col: 6, offset: 35278},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1141, col: 5, offset: 35178},
+												pos:   position{line: 1145, col: 5, offset: 35286},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1147, col: 20, offset: 35434},
+													pos: position{line: 1151, col: 20, offset: 35542},
 													run: (*parser).callonDocumentHeader245,
 													expr: &seqExpr{
-														pos: position{line: 1147, col: 20, offset: 35434},
+														pos: position{line: 1151, col: 20, offset: 35542},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1147, col: 20, offset: 35434},
+																pos: position{line: 1151, col: 20, offset: 35542},
 																expr: &actionExpr{
-																	pos: position{line: 2892, col: 10, offset: 91469},
+																	pos: position{line: 2896, col: 10, offset: 91577},
 																	run: (*parser).callonDocumentHeader248,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2892, col: 10, offset: 91469},
+																		pos:        position{line: 2896, col: 10, offset: 91577},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17601,37 +17623,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1147, col: 27, offset: 35441},
+																pos:   position{line: 1151, col: 27, offset: 35549},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1147, col: 36, offset: 35450},
+																	pos: position{line: 1151, col: 36, offset: 35558},
 																	expr: &actionExpr{
-																		pos: position{line: 1152, col: 5, offset: 35563},
+																		pos: position{line: 1156, col: 5, offset: 35671},
 																		run: (*parser).callonDocumentHeader252,
 																		expr: &seqExpr{
-																			pos: position{line: 1152, col: 5, offset: 35563},
+																			pos: position{line: 1156, col: 5, offset: 35671},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1152, col: 5, offset: 35563},
+																					pos:   position{line: 1156, col: 5, offset: 35671},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1152, col: 14, offset: 35572},
+																						pos: position{line: 1156, col: 14, offset: 35680},
 																						expr: &actionExpr{
-																							pos: position{line: 1163, col: 5, offset: 35952},
+																							pos: position{line: 1167, col: 5, offset: 36060},
 																							run: (*parser).callonDocumentHeader256,
 																							expr: &seqExpr{
-																								pos: position{line: 1163, col: 5, offset: 35952},
+																								pos: position{line: 1167, col: 5, offset: 36060},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1163, col: 5, offset: 35952},
+																										pos:   position{line: 1167, col: 5, offset: 36060},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1163, col: 12, offset: 35959},
+																											pos: position{line: 1167, col: 12, offset: 36067},
 																											run: (*parser).callonDocumentHeader259,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1163, col: 12, offset: 35959},
+																												pos: position{line: 1167, col: 12, offset: 36067},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1163, col: 12, offset: 35959},
+																													pos:        position{line: 1167, col: 12, offset: 36067},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -17641,12 +17663,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1166, col: 5, offset: 36039},
+																										pos: position{line: 1170, col: 5, offset: 36147},
 																										expr: &actionExpr{
-																											pos: position{line: 2892, col: 10, offset: 91469},
+																											pos: position{line: 2896, col: 10, offset: 91577},
 																											run: (*parser).callonDocumentHeader263,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2892, col: 10, offset: 91469},
+																												pos:        position{line: 2896, col: 10, offset: 91577},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17655,17 +17677,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1167, col: 5, offset: 36050},
+																										pos:   position{line: 1171, col: 5, offset: 36158},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1167, col: 11, offset: 36056},
+																											pos: position{line: 1171, col: 11, offset: 36164},
 																											expr: &actionExpr{
-																												pos: position{line: 1167, col: 12, offset: 36057},
+																												pos: position{line: 1171, col: 12, offset: 36165},
 																												run: (*parser).callonDocumentHeader267,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1167, col: 12, offset: 36057},
+																													pos: position{line: 1171, col: 12, offset: 36165},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1167, col: 12, offset: 36057},
+																														pos:        position{line: 1171, col: 12, offset: 36165},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -17676,12 +17698,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1170, col: 5, offset: 36138},
+																										pos: position{line: 1174, col: 5, offset: 36246},
 																										expr: &actionExpr{
-																											pos: position{line: 2892, col: 10, offset: 91469},
+																											pos: position{line: 2896, col: 10, offset: 91577},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2892, col: 10, offset: 91469},
+																												pos:        position{line: 2896, col: 10, offset: 91577},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17690,17 +17712,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1171, col: 5, offset: 36149},
+																										pos:   position{line: 1175, col: 5, offset: 36257},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1171, col: 11, offset: 36155},
+																											pos: position{line: 1175, col: 11, offset: 36263},
 																											expr: &actionExpr{
-																												pos: position{line: 1171, col: 12, offset: 36156},
+																												pos: position{line: 1175, col: 12, offset: 36264},
 																												run: (*parser).callonDocumentHeader275,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1171, col: 12, offset: 36156},
+																													pos: position{line: 1175, col: 12, offset: 36264},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1171, col: 12, offset: 36156},
+																														pos:        position{line: 1175, col: 12, offset: 36264},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -17711,12 +17733,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1174, col: 5, offset: 36235},
+																										pos: position{line: 1178, col: 5, offset: 36343},
 																										expr: &actionExpr{
-																											pos: position{line: 2892, col: 10, offset: 91469},
+																											pos: position{line: 2896, col: 10, offset: 91577},
 																											run: (*parser).callonDocumentHeader279,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2892, col: 10, offset: 91469},
+																												pos:        position{line: 2896, col: 10, offset: 91577},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17730,38 +17752,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1152, col: 40, offset: 35598},
+																					pos:   position{line: 1156, col: 40, offset: 35706},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1152, col: 46, offset: 35604},
+																						pos: position{line: 1156, col: 46, offset: 35712},
 																						expr: &actionExpr{
-																							pos: position{line: 1180, col: 5, offset: 36357},
+																							pos: position{line: 1184, col: 5, offset: 36465},
 																							run: (*parser).callonDocumentHeader283,
 																							expr: &seqExpr{
-																								pos: position{line: 1180, col: 5, offset: 36357},
+																								pos: position{line: 1184, col: 5, offset: 36465},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2909, col: 11, offset: 91803},
+																										pos: position{line: 2913, col: 11, offset: 91911},
 																										expr: &anyMatcher{
-																											line: 2909, col: 13, offset: 91805,
+																											line: 2913, col: 13, offset: 91913,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1181, col: 5, offset: 36369},
+																										pos:        position{line: 1185, col: 5, offset: 36477},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1182, col: 5, offset: 36378},
+																										pos:   position{line: 1186, col: 5, offset: 36486},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1182, col: 12, offset: 36385},
+																											pos: position{line: 1186, col: 12, offset: 36493},
 																											run: (*parser).callonDocumentHeader289,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1182, col: 13, offset: 36386},
+																												pos: position{line: 1186, col: 13, offset: 36494},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1182, col: 13, offset: 36386},
+																													pos:        position{line: 1186, col: 13, offset: 36494},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -17771,7 +17793,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1185, col: 5, offset: 36446},
+																										pos:        position{line: 1189, col: 5, offset: 36554},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -17782,12 +17804,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1152, col: 69, offset: 35627},
+																					pos: position{line: 1156, col: 69, offset: 35735},
 																					expr: &actionExpr{
-																						pos: position{line: 2892, col: 10, offset: 91469},
+																						pos: position{line: 2896, col: 10, offset: 91577},
 																						run: (*parser).callonDocumentHeader294,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2892, col: 10, offset: 91469},
+																							pos:        position{line: 2896, col: 10, offset: 91577},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17796,21 +17818,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1152, col: 76, offset: 35634},
+																					pos: position{line: 1156, col: 76, offset: 35742},
 																					expr: &litMatcher{
-																						pos:        position{line: 1152, col: 76, offset: 35634},
+																						pos:        position{line: 1156, col: 76, offset: 35742},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1152, col: 81, offset: 35639},
+																					pos: position{line: 1156, col: 81, offset: 35747},
 																					expr: &actionExpr{
-																						pos: position{line: 2892, col: 10, offset: 91469},
+																						pos: position{line: 2896, col: 10, offset: 91577},
 																						run: (*parser).callonDocumentHeader299,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2892, col: 10, offset: 91469},
+																							pos:        position{line: 2896, col: 10, offset: 91577},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17819,7 +17841,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1153, col: 5, offset: 35651},
+																					pos: position{line: 1157, col: 5, offset: 35759},
 																					run: (*parser).callonDocumentHeader301,
 																				},
 																			},
@@ -17828,28 +17850,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2914, col: 8, offset: 91867},
+																pos: position{line: 2918, col: 8, offset: 91975},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2901, col: 12, offset: 91640},
+																		pos: position{line: 2905, col: 12, offset: 91748},
 																		run: (*parser).callonDocumentHeader303,
 																		expr: &choiceExpr{
-																			pos: position{line: 2901, col: 13, offset: 91641},
+																			pos: position{line: 2905, col: 13, offset: 91749},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2901, col: 13, offset: 91641},
+																					pos:        position{line: 2905, col: 13, offset: 91749},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2901, col: 20, offset: 91648},
+																					pos:        position{line: 2905, col: 20, offset: 91756},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2901, col: 29, offset: 91657},
+																					pos:        position{line: 2905, col: 29, offset: 91765},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17858,9 +17880,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2911, col: 8, offset: 91817},
+																		pos: position{line: 2915, col: 8, offset: 91925},
 																		expr: &anyMatcher{
-																			line: 2911, col: 9, offset: 91818,
+																			line: 2915, col: 9, offset: 91926,
 																		},
 																	},
 																},
@@ -17870,41 +17892,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1142, col: 5, offset: 35208},
+												pos: position{line: 1146, col: 5, offset: 35316},
 												expr: &choiceExpr{
-													pos: position{line: 1142, col: 6, offset: 35209},
+													pos: position{line: 1146, col: 6, offset: 35317},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2493, col: 22, offset: 80229},
+															pos: position{line: 2497, col: 22, offset: 80337},
 															run: (*parser).callonDocumentHeader312,
 															expr: &seqExpr{
-																pos: position{line: 2493, col: 22, offset: 80229},
+																pos: position{line: 2497, col: 22, offset: 80337},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2498, col: 31, offset: 80450},
+																		pos:        position{line: 2502, col: 31, offset: 80558},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2498, col: 36, offset: 80455},
+																		pos: position{line: 2502, col: 36, offset: 80563},
 																		expr: &litMatcher{
-																			pos:        position{line: 2498, col: 37, offset: 80456},
+																			pos:        position{line: 2502, col: 37, offset: 80564},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2493, col: 49, offset: 80256},
+																		pos:   position{line: 2497, col: 49, offset: 80364},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2838, col: 13, offset: 89995},
+																			pos: position{line: 2842, col: 13, offset: 90103},
 																			run: (*parser).callonDocumentHeader318,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2838, col: 13, offset: 89995},
+																				pos: position{line: 2842, col: 13, offset: 90103},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2838, col: 13, offset: 89995},
+																					pos:        position{line: 2842, col: 13, offset: 90103},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17914,28 +17936,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2914, col: 8, offset: 91867},
+																		pos: position{line: 2918, col: 8, offset: 91975},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91640},
+																				pos: position{line: 2905, col: 12, offset: 91748},
 																				run: (*parser).callonDocumentHeader322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2901, col: 13, offset: 91641},
+																					pos: position{line: 2905, col: 13, offset: 91749},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 13, offset: 91641},
+																							pos:        position{line: 2905, col: 13, offset: 91749},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 20, offset: 91648},
+																							pos:        position{line: 2905, col: 20, offset: 91756},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 29, offset: 91657},
+																							pos:        position{line: 2905, col: 29, offset: 91765},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17944,9 +17966,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2911, col: 8, offset: 91817},
+																				pos: position{line: 2915, col: 8, offset: 91925},
 																				expr: &anyMatcher{
-																					line: 2911, col: 9, offset: 91818,
+																					line: 2915, col: 9, offset: 91926,
 																				},
 																			},
 																		},
@@ -17955,39 +17977,39 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 830, col: 5, offset: 26670},
+															pos: position{line: 834, col: 5, offset: 26778},
 															run: (*parser).callonDocumentHeader329,
 															expr: &seqExpr{
-																pos: position{line: 830, col: 5, offset: 26670},
+																pos: position{line: 834, col: 5, offset: 26778},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 830, col: 5, offset: 26670},
+																		pos:   position{line: 834, col: 5, offset: 26778},
 																		label: "start",
 																		expr: &actionExpr{
-																			pos: position{line: 750, col: 5, offset: 23930},
+																			pos: position{line: 754, col: 5, offset: 24038},
 																			run: (*parser).callonDocumentHeader332,
 																			expr: &seqExpr{
-																				pos: position{line: 750, col: 5, offset: 23930},
+																				pos: position{line: 754, col: 5, offset: 24038},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 750, col: 5, offset: 23930},
+																						pos:   position{line: 754, col: 5, offset: 24038},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 750, col: 16, offset: 23941},
+																							pos: position{line: 754, col: 16, offset: 24049},
 																							run: (*parser).callonDocumentHeader335,
 																							expr: &seqExpr{
-																								pos: position{line: 750, col: 16, offset: 23941},
+																								pos: position{line: 754, col: 16, offset: 24049},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 750, col: 16, offset: 23941},
+																										pos:        position{line: 754, col: 16, offset: 24049},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 750, col: 23, offset: 23948},
+																										pos: position{line: 754, col: 23, offset: 24056},
 																										expr: &litMatcher{
-																											pos:        position{line: 750, col: 23, offset: 23948},
+																											pos:        position{line: 754, col: 23, offset: 24056},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -17998,12 +18020,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 752, col: 8, offset: 24032},
+																						pos: position{line: 756, col: 8, offset: 24140},
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 10, offset: 91469},
+																							pos: position{line: 2896, col: 10, offset: 91577},
 																							run: (*parser).callonDocumentHeader341,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2892, col: 10, offset: 91469},
+																								pos:        position{line: 2896, col: 10, offset: 91577},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -18012,28 +18034,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2914, col: 8, offset: 91867},
+																						pos: position{line: 2918, col: 8, offset: 91975},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2901, col: 12, offset: 91640},
+																								pos: position{line: 2905, col: 12, offset: 91748},
 																								run: (*parser).callonDocumentHeader344,
 																								expr: &choiceExpr{
-																									pos: position{line: 2901, col: 13, offset: 91641},
+																									pos: position{line: 2905, col: 13, offset: 91749},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91641},
+																											pos:        position{line: 2905, col: 13, offset: 91749},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 20, offset: 91648},
+																											pos:        position{line: 2905, col: 20, offset: 91756},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 29, offset: 91657},
+																											pos:        position{line: 2905, col: 29, offset: 91765},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -18042,9 +18064,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 8, offset: 91817},
+																								pos: position{line: 2915, col: 8, offset: 91925},
 																								expr: &anyMatcher{
-																									line: 2911, col: 9, offset: 91818,
+																									line: 2915, col: 9, offset: 91926,
 																								},
 																							},
 																						},
@@ -18054,56 +18076,56 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 831, col: 5, offset: 26709},
+																		pos: position{line: 835, col: 5, offset: 26817},
 																		run: (*parser).callonDocumentHeader351,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 834, col: 5, offset: 26801},
+																		pos:   position{line: 838, col: 5, offset: 26909},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 849, col: 5, offset: 27199},
+																			pos: position{line: 853, col: 5, offset: 27307},
 																			expr: &actionExpr{
-																				pos: position{line: 849, col: 6, offset: 27200},
+																				pos: position{line: 853, col: 6, offset: 27308},
 																				run: (*parser).callonDocumentHeader354,
 																				expr: &seqExpr{
-																					pos: position{line: 849, col: 6, offset: 27200},
+																					pos: position{line: 853, col: 6, offset: 27308},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 849, col: 6, offset: 27200},
+																							pos: position{line: 853, col: 6, offset: 27308},
 																							expr: &choiceExpr{
-																								pos: position{line: 842, col: 5, offset: 27041},
+																								pos: position{line: 846, col: 5, offset: 27149},
 																								alternatives: []interface{}{
 																									&seqExpr{
-																										pos: position{line: 842, col: 5, offset: 27041},
+																										pos: position{line: 846, col: 5, offset: 27149},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 842, col: 5, offset: 27041},
+																												pos:   position{line: 846, col: 5, offset: 27149},
 																												label: "end",
 																												expr: &actionExpr{
-																													pos: position{line: 750, col: 5, offset: 23930},
+																													pos: position{line: 754, col: 5, offset: 24038},
 																													run: (*parser).callonDocumentHeader360,
 																													expr: &seqExpr{
-																														pos: position{line: 750, col: 5, offset: 23930},
+																														pos: position{line: 754, col: 5, offset: 24038},
 																														exprs: []interface{}{
 																															&labeledExpr{
-																																pos:   position{line: 750, col: 5, offset: 23930},
+																																pos:   position{line: 754, col: 5, offset: 24038},
 																																label: "delimiter",
 																																expr: &actionExpr{
-																																	pos: position{line: 750, col: 16, offset: 23941},
+																																	pos: position{line: 754, col: 16, offset: 24049},
 																																	run: (*parser).callonDocumentHeader363,
 																																	expr: &seqExpr{
-																																		pos: position{line: 750, col: 16, offset: 23941},
+																																		pos: position{line: 754, col: 16, offset: 24049},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 750, col: 16, offset: 23941},
+																																				pos:        position{line: 754, col: 16, offset: 24049},
 																																				val:        "////",
 																																				ignoreCase: false,
 																																				want:       "\"////\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 750, col: 23, offset: 23948},
+																																				pos: position{line: 754, col: 23, offset: 24056},
 																																				expr: &litMatcher{
-																																					pos:        position{line: 750, col: 23, offset: 23948},
+																																					pos:        position{line: 754, col: 23, offset: 24056},
 																																					val:        "/",
 																																					ignoreCase: false,
 																																					want:       "\"/\"",
@@ -18114,12 +18136,12 @@ var g = &grammar{
 																																},
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 752, col: 8, offset: 24032},
+																																pos: position{line: 756, col: 8, offset: 24140},
 																																expr: &actionExpr{
-																																	pos: position{line: 2892, col: 10, offset: 91469},
+																																	pos: position{line: 2896, col: 10, offset: 91577},
 																																	run: (*parser).callonDocumentHeader369,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2892, col: 10, offset: 91469},
+																																		pos:        position{line: 2896, col: 10, offset: 91577},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -18128,28 +18150,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2914, col: 8, offset: 91867},
+																																pos: position{line: 2918, col: 8, offset: 91975},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2901, col: 12, offset: 91640},
+																																		pos: position{line: 2905, col: 12, offset: 91748},
 																																		run: (*parser).callonDocumentHeader372,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2901, col: 13, offset: 91641},
+																																			pos: position{line: 2905, col: 13, offset: 91749},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2901, col: 13, offset: 91641},
+																																					pos:        position{line: 2905, col: 13, offset: 91749},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2901, col: 20, offset: 91648},
+																																					pos:        position{line: 2905, col: 20, offset: 91756},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2901, col: 29, offset: 91657},
+																																					pos:        position{line: 2905, col: 29, offset: 91765},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -18158,9 +18180,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2911, col: 8, offset: 91817},
+																																		pos: position{line: 2915, col: 8, offset: 91925},
 																																		expr: &anyMatcher{
-																																			line: 2911, col: 9, offset: 91818,
+																																			line: 2915, col: 9, offset: 91926,
 																																		},
 																																	},
 																																},
@@ -18170,45 +18192,45 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 843, col: 5, offset: 27072},
+																												pos: position{line: 847, col: 5, offset: 27180},
 																												run: (*parser).callonDocumentHeader379,
 																											},
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2911, col: 8, offset: 91817},
+																										pos: position{line: 2915, col: 8, offset: 91925},
 																										expr: &anyMatcher{
-																											line: 2911, col: 9, offset: 91818,
+																											line: 2915, col: 9, offset: 91926,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 850, col: 5, offset: 27230},
+																							pos:   position{line: 854, col: 5, offset: 27338},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 821, col: 5, offset: 26434},
+																								pos: position{line: 825, col: 5, offset: 26542},
 																								run: (*parser).callonDocumentHeader383,
 																								expr: &seqExpr{
-																									pos: position{line: 821, col: 5, offset: 26434},
+																									pos: position{line: 825, col: 5, offset: 26542},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2909, col: 11, offset: 91803},
+																											pos: position{line: 2913, col: 11, offset: 91911},
 																											expr: &anyMatcher{
-																												line: 2909, col: 13, offset: 91805,
+																												line: 2913, col: 13, offset: 91913,
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 822, col: 5, offset: 26509},
+																											pos:   position{line: 826, col: 5, offset: 26617},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2838, col: 13, offset: 89995},
+																												pos: position{line: 2842, col: 13, offset: 90103},
 																												run: (*parser).callonDocumentHeader388,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2838, col: 13, offset: 89995},
+																													pos: position{line: 2842, col: 13, offset: 90103},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2838, col: 13, offset: 89995},
+																														pos:        position{line: 2842, col: 13, offset: 90103},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18218,28 +18240,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2914, col: 8, offset: 91867},
+																											pos: position{line: 2918, col: 8, offset: 91975},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2901, col: 12, offset: 91640},
+																													pos: position{line: 2905, col: 12, offset: 91748},
 																													run: (*parser).callonDocumentHeader392,
 																													expr: &choiceExpr{
-																														pos: position{line: 2901, col: 13, offset: 91641},
+																														pos: position{line: 2905, col: 13, offset: 91749},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 13, offset: 91641},
+																																pos:        position{line: 2905, col: 13, offset: 91749},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 20, offset: 91648},
+																																pos:        position{line: 2905, col: 20, offset: 91756},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 29, offset: 91657},
+																																pos:        position{line: 2905, col: 29, offset: 91765},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18248,9 +18270,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2911, col: 8, offset: 91817},
+																													pos: position{line: 2915, col: 8, offset: 91925},
 																													expr: &anyMatcher{
-																														line: 2911, col: 9, offset: 91818,
+																														line: 2915, col: 9, offset: 91926,
 																													},
 																												},
 																											},
@@ -18265,44 +18287,44 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 835, col: 5, offset: 26835},
+																		pos:   position{line: 839, col: 5, offset: 26943},
 																		label: "end",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 835, col: 9, offset: 26839},
+																			pos: position{line: 839, col: 9, offset: 26947},
 																			expr: &choiceExpr{
-																				pos: position{line: 842, col: 5, offset: 27041},
+																				pos: position{line: 846, col: 5, offset: 27149},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 842, col: 5, offset: 27041},
+																						pos: position{line: 846, col: 5, offset: 27149},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 842, col: 5, offset: 27041},
+																								pos:   position{line: 846, col: 5, offset: 27149},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 750, col: 5, offset: 23930},
+																									pos: position{line: 754, col: 5, offset: 24038},
 																									run: (*parser).callonDocumentHeader404,
 																									expr: &seqExpr{
-																										pos: position{line: 750, col: 5, offset: 23930},
+																										pos: position{line: 754, col: 5, offset: 24038},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 750, col: 5, offset: 23930},
+																												pos:   position{line: 754, col: 5, offset: 24038},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 750, col: 16, offset: 23941},
+																													pos: position{line: 754, col: 16, offset: 24049},
 																													run: (*parser).callonDocumentHeader407,
 																													expr: &seqExpr{
-																														pos: position{line: 750, col: 16, offset: 23941},
+																														pos: position{line: 754, col: 16, offset: 24049},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 750, col: 16, offset: 23941},
+																																pos:        position{line: 754, col: 16, offset: 24049},
 																																val:        "////",
 																																ignoreCase: false,
 																																want:       "\"////\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 750, col: 23, offset: 23948},
+																																pos: position{line: 754, col: 23, offset: 24056},
 																																expr: &litMatcher{
-																																	pos:        position{line: 750, col: 23, offset: 23948},
+																																	pos:        position{line: 754, col: 23, offset: 24056},
 																																	val:        "/",
 																																	ignoreCase: false,
 																																	want:       "\"/\"",
@@ -18313,12 +18335,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 752, col: 8, offset: 24032},
+																												pos: position{line: 756, col: 8, offset: 24140},
 																												expr: &actionExpr{
-																													pos: position{line: 2892, col: 10, offset: 91469},
+																													pos: position{line: 2896, col: 10, offset: 91577},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2892, col: 10, offset: 91469},
+																														pos:        position{line: 2896, col: 10, offset: 91577},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -18327,28 +18349,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2914, col: 8, offset: 91867},
+																												pos: position{line: 2918, col: 8, offset: 91975},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2901, col: 12, offset: 91640},
+																														pos: position{line: 2905, col: 12, offset: 91748},
 																														run: (*parser).callonDocumentHeader416,
 																														expr: &choiceExpr{
-																															pos: position{line: 2901, col: 13, offset: 91641},
+																															pos: position{line: 2905, col: 13, offset: 91749},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 13, offset: 91641},
+																																	pos:        position{line: 2905, col: 13, offset: 91749},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 20, offset: 91648},
+																																	pos:        position{line: 2905, col: 20, offset: 91756},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 29, offset: 91657},
+																																	pos:        position{line: 2905, col: 29, offset: 91765},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -18357,9 +18379,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2911, col: 8, offset: 91817},
+																														pos: position{line: 2915, col: 8, offset: 91925},
 																														expr: &anyMatcher{
-																															line: 2911, col: 9, offset: 91818,
+																															line: 2915, col: 9, offset: 91926,
 																														},
 																													},
 																												},
@@ -18369,15 +18391,15 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 843, col: 5, offset: 27072},
+																								pos: position{line: 847, col: 5, offset: 27180},
 																								run: (*parser).callonDocumentHeader423,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2911, col: 8, offset: 91817},
+																						pos: position{line: 2915, col: 8, offset: 91925},
 																						expr: &anyMatcher{
-																							line: 2911, col: 9, offset: 91818,
+																							line: 2915, col: 9, offset: 91926,
 																						},
 																					},
 																				},
@@ -18391,23 +18413,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1143, col: 5, offset: 35283},
+												pos:   position{line: 1147, col: 5, offset: 35391},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1143, col: 14, offset: 35292},
+													pos: position{line: 1147, col: 14, offset: 35400},
 													expr: &actionExpr{
-														pos: position{line: 1191, col: 21, offset: 36635},
+														pos: position{line: 1195, col: 21, offset: 36743},
 														run: (*parser).callonDocumentHeader428,
 														expr: &seqExpr{
-															pos: position{line: 1191, col: 21, offset: 36635},
+															pos: position{line: 1195, col: 21, offset: 36743},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1191, col: 21, offset: 36635},
+																	pos: position{line: 1195, col: 21, offset: 36743},
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 10, offset: 91469},
+																		pos: position{line: 2896, col: 10, offset: 91577},
 																		run: (*parser).callonDocumentHeader431,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 10, offset: 91469},
+																			pos:        position{line: 2896, col: 10, offset: 91577},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18416,55 +18438,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1191, col: 28, offset: 36642},
+																	pos: position{line: 1195, col: 28, offset: 36750},
 																	expr: &litMatcher{
-																		pos:        position{line: 1191, col: 29, offset: 36643},
+																		pos:        position{line: 1195, col: 29, offset: 36751},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1191, col: 33, offset: 36647},
+																	pos:   position{line: 1195, col: 33, offset: 36755},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1192, col: 9, offset: 36666},
+																		pos: position{line: 1196, col: 9, offset: 36774},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1192, col: 10, offset: 36667},
+																				pos: position{line: 1196, col: 10, offset: 36775},
 																				run: (*parser).callonDocumentHeader437,
 																				expr: &seqExpr{
-																					pos: position{line: 1192, col: 10, offset: 36667},
+																					pos: position{line: 1196, col: 10, offset: 36775},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1192, col: 10, offset: 36667},
+																							pos:   position{line: 1196, col: 10, offset: 36775},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1201, col: 27, offset: 37184},
+																								pos: position{line: 1205, col: 27, offset: 37292},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1201, col: 27, offset: 37184},
+																										pos: position{line: 1205, col: 27, offset: 37292},
 																										run: (*parser).callonDocumentHeader441,
 																										expr: &seqExpr{
-																											pos: position{line: 1201, col: 27, offset: 37184},
+																											pos: position{line: 1205, col: 27, offset: 37292},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1201, col: 27, offset: 37184},
+																													pos:        position{line: 1205, col: 27, offset: 37292},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1201, col: 32, offset: 37189},
+																													pos:        position{line: 1205, col: 32, offset: 37297},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1201, col: 38, offset: 37195},
+																													pos: position{line: 1205, col: 38, offset: 37303},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1201, col: 38, offset: 37195},
+																														pos:        position{line: 1205, col: 38, offset: 37303},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18475,31 +18497,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1203, col: 5, offset: 37243},
+																										pos: position{line: 1207, col: 5, offset: 37351},
 																										run: (*parser).callonDocumentHeader447,
 																										expr: &seqExpr{
-																											pos: position{line: 1203, col: 5, offset: 37243},
+																											pos: position{line: 1207, col: 5, offset: 37351},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1203, col: 5, offset: 37243},
+																													pos: position{line: 1207, col: 5, offset: 37351},
 																													expr: &litMatcher{
-																														pos:        position{line: 1203, col: 5, offset: 37243},
+																														pos:        position{line: 1207, col: 5, offset: 37351},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1203, col: 11, offset: 37249},
+																													pos:        position{line: 1207, col: 11, offset: 37357},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1203, col: 17, offset: 37255},
+																													pos: position{line: 1207, col: 17, offset: 37363},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1203, col: 17, offset: 37255},
+																														pos:        position{line: 1207, col: 17, offset: 37363},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18507,12 +18529,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1203, col: 28, offset: 37266},
+																													pos: position{line: 1207, col: 28, offset: 37374},
 																													expr: &actionExpr{
-																														pos: position{line: 2892, col: 10, offset: 91469},
+																														pos: position{line: 2896, col: 10, offset: 91577},
 																														run: (*parser).callonDocumentHeader455,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2892, col: 10, offset: 91469},
+																															pos:        position{line: 2896, col: 10, offset: 91577},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18521,9 +18543,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1203, col: 35, offset: 37273},
+																													pos: position{line: 1207, col: 35, offset: 37381},
 																													expr: &litMatcher{
-																														pos:        position{line: 1203, col: 36, offset: 37274},
+																														pos:        position{line: 1207, col: 36, offset: 37382},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -18536,26 +18558,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1192, col: 45, offset: 36702},
+																							pos: position{line: 1196, col: 45, offset: 36810},
 																							expr: &litMatcher{
-																								pos:        position{line: 1192, col: 45, offset: 36702},
+																								pos:        position{line: 1196, col: 45, offset: 36810},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1192, col: 50, offset: 36707},
+																							pos:   position{line: 1196, col: 50, offset: 36815},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1192, col: 58, offset: 36715},
+																								pos: position{line: 1196, col: 58, offset: 36823},
 																								expr: &actionExpr{
-																									pos: position{line: 1207, col: 25, offset: 37338},
+																									pos: position{line: 1211, col: 25, offset: 37446},
 																									run: (*parser).callonDocumentHeader463,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1207, col: 25, offset: 37338},
+																										pos: position{line: 1211, col: 25, offset: 37446},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1207, col: 25, offset: 37338},
+																											pos:        position{line: 1211, col: 25, offset: 37446},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -18566,26 +18588,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1192, col: 82, offset: 36739},
+																							pos: position{line: 1196, col: 82, offset: 36847},
 																							expr: &litMatcher{
-																								pos:        position{line: 1192, col: 82, offset: 36739},
+																								pos:        position{line: 1196, col: 82, offset: 36847},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1192, col: 87, offset: 36744},
+																							pos:   position{line: 1196, col: 87, offset: 36852},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1192, col: 97, offset: 36754},
+																								pos: position{line: 1196, col: 97, offset: 36862},
 																								expr: &actionExpr{
-																									pos: position{line: 1211, col: 27, offset: 37410},
+																									pos: position{line: 1215, col: 27, offset: 37518},
 																									run: (*parser).callonDocumentHeader470,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1211, col: 27, offset: 37410},
+																										pos: position{line: 1215, col: 27, offset: 37518},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1211, col: 27, offset: 37410},
+																											pos:        position{line: 1215, col: 27, offset: 37518},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18599,21 +18621,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1194, col: 15, offset: 36872},
+																				pos: position{line: 1198, col: 15, offset: 36980},
 																				run: (*parser).callonDocumentHeader473,
 																				expr: &seqExpr{
-																					pos: position{line: 1194, col: 15, offset: 36872},
+																					pos: position{line: 1198, col: 15, offset: 36980},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1194, col: 15, offset: 36872},
+																							pos:   position{line: 1198, col: 15, offset: 36980},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1207, col: 25, offset: 37338},
+																								pos: position{line: 1211, col: 25, offset: 37446},
 																								run: (*parser).callonDocumentHeader476,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1207, col: 25, offset: 37338},
+																									pos: position{line: 1211, col: 25, offset: 37446},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1207, col: 25, offset: 37338},
+																										pos:        position{line: 1211, col: 25, offset: 37446},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -18623,26 +18645,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1194, col: 46, offset: 36903},
+																							pos: position{line: 1198, col: 46, offset: 37011},
 																							expr: &litMatcher{
-																								pos:        position{line: 1194, col: 46, offset: 36903},
+																								pos:        position{line: 1198, col: 46, offset: 37011},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1194, col: 51, offset: 36908},
+																							pos:   position{line: 1198, col: 51, offset: 37016},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1194, col: 61, offset: 36918},
+																								pos: position{line: 1198, col: 61, offset: 37026},
 																								expr: &actionExpr{
-																									pos: position{line: 1211, col: 27, offset: 37410},
+																									pos: position{line: 1215, col: 27, offset: 37518},
 																									run: (*parser).callonDocumentHeader483,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1211, col: 27, offset: 37410},
+																										pos: position{line: 1215, col: 27, offset: 37518},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1211, col: 27, offset: 37410},
+																											pos:        position{line: 1215, col: 27, offset: 37518},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18659,28 +18681,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonDocumentHeader487,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18689,9 +18711,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -18707,15 +18729,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1130, col: 5, offset: 34829},
+							pos:   position{line: 1134, col: 5, offset: 34937},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1130, col: 19, offset: 34843},
+								pos: position{line: 1134, col: 19, offset: 34951},
 								expr: &choiceExpr{
-									pos: position{line: 1130, col: 20, offset: 34844},
+									pos: position{line: 1134, col: 20, offset: 34952},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1130, col: 20, offset: 34844},
+											pos:  position{line: 1134, col: 20, offset: 34952},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
@@ -18771,10 +18793,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 367, col: 49, offset: 11183},
 														expr: &actionExpr{
-															pos: position{line: 2892, col: 10, offset: 91469},
+															pos: position{line: 2896, col: 10, offset: 91577},
 															run: (*parser).callonDocumentHeader509,
 															expr: &charClassMatcher{
-																pos:        position{line: 2892, col: 10, offset: 91469},
+																pos:        position{line: 2896, col: 10, offset: 91577},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18783,28 +18805,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2914, col: 8, offset: 91867},
+														pos: position{line: 2918, col: 8, offset: 91975},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2901, col: 12, offset: 91640},
+																pos: position{line: 2905, col: 12, offset: 91748},
 																run: (*parser).callonDocumentHeader512,
 																expr: &choiceExpr{
-																	pos: position{line: 2901, col: 13, offset: 91641},
+																	pos: position{line: 2905, col: 13, offset: 91749},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 13, offset: 91641},
+																			pos:        position{line: 2905, col: 13, offset: 91749},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 20, offset: 91648},
+																			pos:        position{line: 2905, col: 20, offset: 91756},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 29, offset: 91657},
+																			pos:        position{line: 2905, col: 29, offset: 91765},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18813,9 +18835,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2911, col: 8, offset: 91817},
+																pos: position{line: 2915, col: 8, offset: 91925},
 																expr: &anyMatcher{
-																	line: 2911, col: 9, offset: 91818,
+																	line: 2915, col: 9, offset: 91926,
 																},
 															},
 														},
@@ -18876,10 +18898,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 369, col: 39, offset: 11304},
 														expr: &actionExpr{
-															pos: position{line: 2892, col: 10, offset: 91469},
+															pos: position{line: 2896, col: 10, offset: 91577},
 															run: (*parser).callonDocumentHeader530,
 															expr: &charClassMatcher{
-																pos:        position{line: 2892, col: 10, offset: 91469},
+																pos:        position{line: 2896, col: 10, offset: 91577},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18888,28 +18910,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2914, col: 8, offset: 91867},
+														pos: position{line: 2918, col: 8, offset: 91975},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2901, col: 12, offset: 91640},
+																pos: position{line: 2905, col: 12, offset: 91748},
 																run: (*parser).callonDocumentHeader533,
 																expr: &choiceExpr{
-																	pos: position{line: 2901, col: 13, offset: 91641},
+																	pos: position{line: 2905, col: 13, offset: 91749},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 13, offset: 91641},
+																			pos:        position{line: 2905, col: 13, offset: 91749},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 20, offset: 91648},
+																			pos:        position{line: 2905, col: 20, offset: 91756},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 29, offset: 91657},
+																			pos:        position{line: 2905, col: 29, offset: 91765},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18918,9 +18940,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2911, col: 8, offset: 91817},
+																pos: position{line: 2915, col: 8, offset: 91925},
 																expr: &anyMatcher{
-																	line: 2911, col: 9, offset: 91818,
+																	line: 2915, col: 9, offset: 91926,
 																},
 															},
 														},
@@ -18929,36 +18951,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2493, col: 22, offset: 80229},
+											pos: position{line: 2497, col: 22, offset: 80337},
 											run: (*parser).callonDocumentHeader540,
 											expr: &seqExpr{
-												pos: position{line: 2493, col: 22, offset: 80229},
+												pos: position{line: 2497, col: 22, offset: 80337},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2498, col: 31, offset: 80450},
+														pos:        position{line: 2502, col: 31, offset: 80558},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2498, col: 36, offset: 80455},
+														pos: position{line: 2502, col: 36, offset: 80563},
 														expr: &litMatcher{
-															pos:        position{line: 2498, col: 37, offset: 80456},
+															pos:        position{line: 2502, col: 37, offset: 80564},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2493, col: 49, offset: 80256},
+														pos:   position{line: 2497, col: 49, offset: 80364},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2838, col: 13, offset: 89995},
+															pos: position{line: 2842, col: 13, offset: 90103},
 															run: (*parser).callonDocumentHeader546,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2838, col: 13, offset: 89995},
+																pos: position{line: 2842, col: 13, offset: 90103},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2838, col: 13, offset: 89995},
+																	pos:        position{line: 2842, col: 13, offset: 90103},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18968,28 +18990,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2914, col: 8, offset: 91867},
+														pos: position{line: 2918, col: 8, offset: 91975},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2901, col: 12, offset: 91640},
+																pos: position{line: 2905, col: 12, offset: 91748},
 																run: (*parser).callonDocumentHeader550,
 																expr: &choiceExpr{
-																	pos: position{line: 2901, col: 13, offset: 91641},
+																	pos: position{line: 2905, col: 13, offset: 91749},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 13, offset: 91641},
+																			pos:        position{line: 2905, col: 13, offset: 91749},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 20, offset: 91648},
+																			pos:        position{line: 2905, col: 20, offset: 91756},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 29, offset: 91657},
+																			pos:        position{line: 2905, col: 29, offset: 91765},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18998,9 +19020,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2911, col: 8, offset: 91817},
+																pos: position{line: 2915, col: 8, offset: 91925},
 																expr: &anyMatcher{
-																	line: 2911, col: 9, offset: 91818,
+																	line: 2915, col: 9, offset: 91926,
 																},
 															},
 														},
@@ -19009,39 +19031,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 830, col: 5, offset: 26670},
+											pos: position{line: 834, col: 5, offset: 26778},
 											run: (*parser).callonDocumentHeader557,
 											expr: &seqExpr{
-												pos: position{line: 830, col: 5, offset: 26670},
+												pos: position{line: 834, col: 5, offset: 26778},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 830, col: 5, offset: 26670},
+														pos:   position{line: 834, col: 5, offset: 26778},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 750, col: 5, offset: 23930},
+															pos: position{line: 754, col: 5, offset: 24038},
 															run: (*parser).callonDocumentHeader560,
 															expr: &seqExpr{
-																pos: position{line: 750, col: 5, offset: 23930},
+																pos: position{line: 754, col: 5, offset: 24038},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 750, col: 5, offset: 23930},
+																		pos:   position{line: 754, col: 5, offset: 24038},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 750, col: 16, offset: 23941},
+																			pos: position{line: 754, col: 16, offset: 24049},
 																			run: (*parser).callonDocumentHeader563,
 																			expr: &seqExpr{
-																				pos: position{line: 750, col: 16, offset: 23941},
+																				pos: position{line: 754, col: 16, offset: 24049},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 750, col: 16, offset: 23941},
+																						pos:        position{line: 754, col: 16, offset: 24049},
 																						val:        "////",
 																						ignoreCase: false,
 																						want:       "\"////\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 750, col: 23, offset: 23948},
+																						pos: position{line: 754, col: 23, offset: 24056},
 																						expr: &litMatcher{
-																							pos:        position{line: 750, col: 23, offset: 23948},
+																							pos:        position{line: 754, col: 23, offset: 24056},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -19052,12 +19074,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 752, col: 8, offset: 24032},
+																		pos: position{line: 756, col: 8, offset: 24140},
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 10, offset: 91469},
+																			pos: position{line: 2896, col: 10, offset: 91577},
 																			run: (*parser).callonDocumentHeader569,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2892, col: 10, offset: 91469},
+																				pos:        position{line: 2896, col: 10, offset: 91577},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -19066,28 +19088,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2914, col: 8, offset: 91867},
+																		pos: position{line: 2918, col: 8, offset: 91975},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91640},
+																				pos: position{line: 2905, col: 12, offset: 91748},
 																				run: (*parser).callonDocumentHeader572,
 																				expr: &choiceExpr{
-																					pos: position{line: 2901, col: 13, offset: 91641},
+																					pos: position{line: 2905, col: 13, offset: 91749},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 13, offset: 91641},
+																							pos:        position{line: 2905, col: 13, offset: 91749},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 20, offset: 91648},
+																							pos:        position{line: 2905, col: 20, offset: 91756},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 29, offset: 91657},
+																							pos:        position{line: 2905, col: 29, offset: 91765},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -19096,9 +19118,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2911, col: 8, offset: 91817},
+																				pos: position{line: 2915, col: 8, offset: 91925},
 																				expr: &anyMatcher{
-																					line: 2911, col: 9, offset: 91818,
+																					line: 2915, col: 9, offset: 91926,
 																				},
 																			},
 																		},
@@ -19108,56 +19130,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 831, col: 5, offset: 26709},
+														pos: position{line: 835, col: 5, offset: 26817},
 														run: (*parser).callonDocumentHeader579,
 													},
 													&labeledExpr{
-														pos:   position{line: 834, col: 5, offset: 26801},
+														pos:   position{line: 838, col: 5, offset: 26909},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 849, col: 5, offset: 27199},
+															pos: position{line: 853, col: 5, offset: 27307},
 															expr: &actionExpr{
-																pos: position{line: 849, col: 6, offset: 27200},
+																pos: position{line: 853, col: 6, offset: 27308},
 																run: (*parser).callonDocumentHeader582,
 																expr: &seqExpr{
-																	pos: position{line: 849, col: 6, offset: 27200},
+																	pos: position{line: 853, col: 6, offset: 27308},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 849, col: 6, offset: 27200},
+																			pos: position{line: 853, col: 6, offset: 27308},
 																			expr: &choiceExpr{
-																				pos: position{line: 842, col: 5, offset: 27041},
+																				pos: position{line: 846, col: 5, offset: 27149},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 842, col: 5, offset: 27041},
+																						pos: position{line: 846, col: 5, offset: 27149},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 842, col: 5, offset: 27041},
+																								pos:   position{line: 846, col: 5, offset: 27149},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 750, col: 5, offset: 23930},
+																									pos: position{line: 754, col: 5, offset: 24038},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &seqExpr{
-																										pos: position{line: 750, col: 5, offset: 23930},
+																										pos: position{line: 754, col: 5, offset: 24038},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 750, col: 5, offset: 23930},
+																												pos:   position{line: 754, col: 5, offset: 24038},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 750, col: 16, offset: 23941},
+																													pos: position{line: 754, col: 16, offset: 24049},
 																													run: (*parser).callonDocumentHeader591,
 																													expr: &seqExpr{
-																														pos: position{line: 750, col: 16, offset: 23941},
+																														pos: position{line: 754, col: 16, offset: 24049},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 750, col: 16, offset: 23941},
+																																pos:        position{line: 754, col: 16, offset: 24049},
 																																val:        "////",
 																																ignoreCase: false,
 																																want:       "\"////\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 750, col: 23, offset: 23948},
+																																pos: position{line: 754, col: 23, offset: 24056},
 																																expr: &litMatcher{
-																																	pos:        position{line: 750, col: 23, offset: 23948},
+																																	pos:        position{line: 754, col: 23, offset: 24056},
 																																	val:        "/",
 																																	ignoreCase: false,
 																																	want:       "\"/\"",
@@ -19168,12 +19190,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 752, col: 8, offset: 24032},
+																												pos: position{line: 756, col: 8, offset: 24140},
 																												expr: &actionExpr{
-																													pos: position{line: 2892, col: 10, offset: 91469},
+																													pos: position{line: 2896, col: 10, offset: 91577},
 																													run: (*parser).callonDocumentHeader597,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2892, col: 10, offset: 91469},
+																														pos:        position{line: 2896, col: 10, offset: 91577},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -19182,28 +19204,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2914, col: 8, offset: 91867},
+																												pos: position{line: 2918, col: 8, offset: 91975},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2901, col: 12, offset: 91640},
+																														pos: position{line: 2905, col: 12, offset: 91748},
 																														run: (*parser).callonDocumentHeader600,
 																														expr: &choiceExpr{
-																															pos: position{line: 2901, col: 13, offset: 91641},
+																															pos: position{line: 2905, col: 13, offset: 91749},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 13, offset: 91641},
+																																	pos:        position{line: 2905, col: 13, offset: 91749},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 20, offset: 91648},
+																																	pos:        position{line: 2905, col: 20, offset: 91756},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2901, col: 29, offset: 91657},
+																																	pos:        position{line: 2905, col: 29, offset: 91765},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -19212,9 +19234,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2911, col: 8, offset: 91817},
+																														pos: position{line: 2915, col: 8, offset: 91925},
 																														expr: &anyMatcher{
-																															line: 2911, col: 9, offset: 91818,
+																															line: 2915, col: 9, offset: 91926,
 																														},
 																													},
 																												},
@@ -19224,45 +19246,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 843, col: 5, offset: 27072},
+																								pos: position{line: 847, col: 5, offset: 27180},
 																								run: (*parser).callonDocumentHeader607,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2911, col: 8, offset: 91817},
+																						pos: position{line: 2915, col: 8, offset: 91925},
 																						expr: &anyMatcher{
-																							line: 2911, col: 9, offset: 91818,
+																							line: 2915, col: 9, offset: 91926,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 850, col: 5, offset: 27230},
+																			pos:   position{line: 854, col: 5, offset: 27338},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 821, col: 5, offset: 26434},
+																				pos: position{line: 825, col: 5, offset: 26542},
 																				run: (*parser).callonDocumentHeader611,
 																				expr: &seqExpr{
-																					pos: position{line: 821, col: 5, offset: 26434},
+																					pos: position{line: 825, col: 5, offset: 26542},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2909, col: 11, offset: 91803},
+																							pos: position{line: 2913, col: 11, offset: 91911},
 																							expr: &anyMatcher{
-																								line: 2909, col: 13, offset: 91805,
+																								line: 2913, col: 13, offset: 91913,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 822, col: 5, offset: 26509},
+																							pos:   position{line: 826, col: 5, offset: 26617},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								run: (*parser).callonDocumentHeader616,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2838, col: 13, offset: 89995},
+																									pos: position{line: 2842, col: 13, offset: 90103},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2838, col: 13, offset: 89995},
+																										pos:        position{line: 2842, col: 13, offset: 90103},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19272,28 +19294,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonDocumentHeader620,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19302,9 +19324,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -19319,44 +19341,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 835, col: 5, offset: 26835},
+														pos:   position{line: 839, col: 5, offset: 26943},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 835, col: 9, offset: 26839},
+															pos: position{line: 839, col: 9, offset: 26947},
 															expr: &choiceExpr{
-																pos: position{line: 842, col: 5, offset: 27041},
+																pos: position{line: 846, col: 5, offset: 27149},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 842, col: 5, offset: 27041},
+																		pos: position{line: 846, col: 5, offset: 27149},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 842, col: 5, offset: 27041},
+																				pos:   position{line: 846, col: 5, offset: 27149},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 750, col: 5, offset: 23930},
+																					pos: position{line: 754, col: 5, offset: 24038},
 																					run: (*parser).callonDocumentHeader632,
 																					expr: &seqExpr{
-																						pos: position{line: 750, col: 5, offset: 23930},
+																						pos: position{line: 754, col: 5, offset: 24038},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 750, col: 5, offset: 23930},
+																								pos:   position{line: 754, col: 5, offset: 24038},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 750, col: 16, offset: 23941},
+																									pos: position{line: 754, col: 16, offset: 24049},
 																									run: (*parser).callonDocumentHeader635,
 																									expr: &seqExpr{
-																										pos: position{line: 750, col: 16, offset: 23941},
+																										pos: position{line: 754, col: 16, offset: 24049},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 750, col: 16, offset: 23941},
+																												pos:        position{line: 754, col: 16, offset: 24049},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 750, col: 23, offset: 23948},
+																												pos: position{line: 754, col: 23, offset: 24056},
 																												expr: &litMatcher{
-																													pos:        position{line: 750, col: 23, offset: 23948},
+																													pos:        position{line: 754, col: 23, offset: 24056},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -19367,12 +19389,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 752, col: 8, offset: 24032},
+																								pos: position{line: 756, col: 8, offset: 24140},
 																								expr: &actionExpr{
-																									pos: position{line: 2892, col: 10, offset: 91469},
+																									pos: position{line: 2896, col: 10, offset: 91577},
 																									run: (*parser).callonDocumentHeader641,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 10, offset: 91469},
+																										pos:        position{line: 2896, col: 10, offset: 91577},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -19381,28 +19403,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2914, col: 8, offset: 91867},
+																								pos: position{line: 2918, col: 8, offset: 91975},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2901, col: 12, offset: 91640},
+																										pos: position{line: 2905, col: 12, offset: 91748},
 																										run: (*parser).callonDocumentHeader644,
 																										expr: &choiceExpr{
-																											pos: position{line: 2901, col: 13, offset: 91641},
+																											pos: position{line: 2905, col: 13, offset: 91749},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 13, offset: 91641},
+																													pos:        position{line: 2905, col: 13, offset: 91749},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 20, offset: 91648},
+																													pos:        position{line: 2905, col: 20, offset: 91756},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 29, offset: 91657},
+																													pos:        position{line: 2905, col: 29, offset: 91765},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -19411,9 +19433,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2911, col: 8, offset: 91817},
+																										pos: position{line: 2915, col: 8, offset: 91925},
 																										expr: &anyMatcher{
-																											line: 2911, col: 9, offset: 91818,
+																											line: 2915, col: 9, offset: 91926,
 																										},
 																									},
 																								},
@@ -19423,15 +19445,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 843, col: 5, offset: 27072},
+																				pos: position{line: 847, col: 5, offset: 27180},
 																				run: (*parser).callonDocumentHeader651,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2911, col: 8, offset: 91817},
+																		pos: position{line: 2915, col: 8, offset: 91925},
 																		expr: &anyMatcher{
-																			line: 2911, col: 9, offset: 91818,
+																			line: 2915, col: 9, offset: 91926,
 																		},
 																	},
 																},
@@ -19451,26 +19473,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1134, col: 1, offset: 35041},
+			pos:  position{line: 1138, col: 1, offset: 35149},
 			expr: &actionExpr{
-				pos: position{line: 1135, col: 5, offset: 35063},
+				pos: position{line: 1139, col: 5, offset: 35171},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1135, col: 5, offset: 35063},
+					pos: position{line: 1139, col: 5, offset: 35171},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1135, col: 5, offset: 35063},
+							pos:        position{line: 1139, col: 5, offset: 35171},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2896, col: 11, offset: 91530},
+							pos: position{line: 2900, col: 11, offset: 91638},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2896, col: 11, offset: 91530},
+								pos: position{line: 2900, col: 11, offset: 91638},
 								expr: &charClassMatcher{
-									pos:        position{line: 2896, col: 11, offset: 91530},
+									pos:        position{line: 2900, col: 11, offset: 91638},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19479,36 +19501,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1135, col: 16, offset: 35074},
+							pos:   position{line: 1139, col: 16, offset: 35182},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1135, col: 23, offset: 35081},
+								pos:  position{line: 1139, col: 23, offset: 35189},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2914, col: 8, offset: 91867},
+							pos: position{line: 2918, col: 8, offset: 91975},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2901, col: 12, offset: 91640},
+									pos: position{line: 2905, col: 12, offset: 91748},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2901, col: 13, offset: 91641},
+										pos: position{line: 2905, col: 13, offset: 91749},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2901, col: 13, offset: 91641},
+												pos:        position{line: 2905, col: 13, offset: 91749},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2901, col: 20, offset: 91648},
+												pos:        position{line: 2905, col: 20, offset: 91756},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2901, col: 29, offset: 91657},
+												pos:        position{line: 2905, col: 29, offset: 91765},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19517,9 +19539,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2911, col: 8, offset: 91817},
+									pos: position{line: 2915, col: 8, offset: 91925},
 									expr: &anyMatcher{
-										line: 2911, col: 9, offset: 91818,
+										line: 2915, col: 9, offset: 91926,
 									},
 								},
 							},
@@ -19530,23 +19552,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1162, col: 1, offset: 35921},
+			pos:  position{line: 1166, col: 1, offset: 36029},
 			expr: &actionExpr{
-				pos: position{line: 1163, col: 5, offset: 35952},
+				pos: position{line: 1167, col: 5, offset: 36060},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1163, col: 5, offset: 35952},
+					pos: position{line: 1167, col: 5, offset: 36060},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1163, col: 5, offset: 35952},
+							pos:   position{line: 1167, col: 5, offset: 36060},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1163, col: 12, offset: 35959},
+								pos: position{line: 1167, col: 12, offset: 36067},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1163, col: 12, offset: 35959},
+									pos: position{line: 1167, col: 12, offset: 36067},
 									expr: &charClassMatcher{
-										pos:        position{line: 1163, col: 12, offset: 35959},
+										pos:        position{line: 1167, col: 12, offset: 36067},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -19556,12 +19578,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1166, col: 5, offset: 36039},
+							pos: position{line: 1170, col: 5, offset: 36147},
 							expr: &actionExpr{
-								pos: position{line: 2892, col: 10, offset: 91469},
+								pos: position{line: 2896, col: 10, offset: 91577},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2892, col: 10, offset: 91469},
+									pos:        position{line: 2896, col: 10, offset: 91577},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19570,17 +19592,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1167, col: 5, offset: 36050},
+							pos:   position{line: 1171, col: 5, offset: 36158},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1167, col: 11, offset: 36056},
+								pos: position{line: 1171, col: 11, offset: 36164},
 								expr: &actionExpr{
-									pos: position{line: 1167, col: 12, offset: 36057},
+									pos: position{line: 1171, col: 12, offset: 36165},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1167, col: 12, offset: 36057},
+										pos: position{line: 1171, col: 12, offset: 36165},
 										expr: &charClassMatcher{
-											pos:        position{line: 1167, col: 12, offset: 36057},
+											pos:        position{line: 1171, col: 12, offset: 36165},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -19591,12 +19613,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1170, col: 5, offset: 36138},
+							pos: position{line: 1174, col: 5, offset: 36246},
 							expr: &actionExpr{
-								pos: position{line: 2892, col: 10, offset: 91469},
+								pos: position{line: 2896, col: 10, offset: 91577},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2892, col: 10, offset: 91469},
+									pos:        position{line: 2896, col: 10, offset: 91577},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19605,17 +19627,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1171, col: 5, offset: 36149},
+							pos:   position{line: 1175, col: 5, offset: 36257},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1171, col: 11, offset: 36155},
+								pos: position{line: 1175, col: 11, offset: 36263},
 								expr: &actionExpr{
-									pos: position{line: 1171, col: 12, offset: 36156},
+									pos: position{line: 1175, col: 12, offset: 36264},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1171, col: 12, offset: 36156},
+										pos: position{line: 1175, col: 12, offset: 36264},
 										expr: &charClassMatcher{
-											pos:        position{line: 1171, col: 12, offset: 36156},
+											pos:        position{line: 1175, col: 12, offset: 36264},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -19626,12 +19648,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1174, col: 5, offset: 36235},
+							pos: position{line: 1178, col: 5, offset: 36343},
 							expr: &actionExpr{
-								pos: position{line: 2892, col: 10, offset: 91469},
+								pos: position{line: 2896, col: 10, offset: 91577},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2892, col: 10, offset: 91469},
+									pos:        position{line: 2896, col: 10, offset: 91577},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19645,28 +19667,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1287, col: 1, offset: 39964},
+			pos:  position{line: 1291, col: 1, offset: 40072},
 			expr: &actionExpr{
-				pos: position{line: 1288, col: 5, offset: 39985},
+				pos: position{line: 1292, col: 5, offset: 40093},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1288, col: 5, offset: 39985},
+					pos: position{line: 1292, col: 5, offset: 40093},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1288, col: 5, offset: 39985},
+							pos: position{line: 1292, col: 5, offset: 40093},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1291, col: 5, offset: 40044},
+							pos:        position{line: 1295, col: 5, offset: 40152},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1291, col: 12, offset: 40051},
+							pos:   position{line: 1295, col: 12, offset: 40159},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1291, col: 24, offset: 40063},
+								pos:  position{line: 1295, col: 24, offset: 40171},
 								name: "InlineAttributes",
 							},
 						},
@@ -19676,33 +19698,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1298, col: 1, offset: 40351},
+			pos:  position{line: 1302, col: 1, offset: 40459},
 			expr: &actionExpr{
-				pos: position{line: 1299, col: 5, offset: 40370},
+				pos: position{line: 1303, col: 5, offset: 40478},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1299, col: 5, offset: 40370},
+					pos: position{line: 1303, col: 5, offset: 40478},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1299, col: 5, offset: 40370},
+							pos: position{line: 1303, col: 5, offset: 40478},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1302, col: 5, offset: 40429},
+							pos:        position{line: 1306, col: 5, offset: 40537},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1302, col: 13, offset: 40437},
+							pos:   position{line: 1306, col: 13, offset: 40545},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2877, col: 7, offset: 91121},
+								pos: position{line: 2881, col: 7, offset: 91229},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2877, col: 7, offset: 91121},
+									pos: position{line: 2881, col: 7, offset: 91229},
 									expr: &charClassMatcher{
-										pos:        position{line: 2877, col: 7, offset: 91121},
+										pos:        position{line: 2881, col: 7, offset: 91229},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19712,10 +19734,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1302, col: 21, offset: 40445},
+							pos:   position{line: 1306, col: 21, offset: 40553},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1302, col: 33, offset: 40457},
+								pos:  position{line: 1306, col: 33, offset: 40565},
 								name: "InlineAttributes",
 							},
 						},
@@ -19725,29 +19747,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1309, col: 1, offset: 40756},
+			pos:  position{line: 1313, col: 1, offset: 40864},
 			expr: &actionExpr{
-				pos: position{line: 1309, col: 14, offset: 40769},
+				pos: position{line: 1313, col: 14, offset: 40877},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1309, col: 14, offset: 40769},
+					pos: position{line: 1313, col: 14, offset: 40877},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1309, col: 14, offset: 40769},
+							pos:        position{line: 1313, col: 14, offset: 40877},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1309, col: 19, offset: 40774},
+							pos:   position{line: 1313, col: 19, offset: 40882},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1309, col: 25, offset: 40780},
+								pos:  position{line: 1313, col: 25, offset: 40888},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1309, col: 43, offset: 40798},
+							pos:        position{line: 1313, col: 43, offset: 40906},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19758,25 +19780,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1313, col: 1, offset: 40867},
+			pos:  position{line: 1317, col: 1, offset: 40975},
 			expr: &actionExpr{
-				pos: position{line: 1313, col: 21, offset: 40887},
+				pos: position{line: 1317, col: 21, offset: 40995},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1313, col: 21, offset: 40887},
+					pos:   position{line: 1317, col: 21, offset: 40995},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1313, col: 30, offset: 40896},
+						pos: position{line: 1317, col: 30, offset: 41004},
 						expr: &choiceExpr{
-							pos: position{line: 1313, col: 31, offset: 40897},
+							pos: position{line: 1317, col: 31, offset: 41005},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2786, col: 14, offset: 88638},
+									pos: position{line: 2790, col: 14, offset: 88746},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2786, col: 14, offset: 88638},
+										pos: position{line: 2790, col: 14, offset: 88746},
 										expr: &charClassMatcher{
-											pos:        position{line: 2786, col: 14, offset: 88638},
+											pos:        position{line: 2790, col: 14, offset: 88746},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19785,14 +19807,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1313, col: 43, offset: 40909},
+									pos:  position{line: 1317, col: 43, offset: 41017},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2892, col: 10, offset: 91469},
+									pos: position{line: 2896, col: 10, offset: 91577},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2892, col: 10, offset: 91469},
+										pos:        position{line: 2896, col: 10, offset: 91577},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19800,23 +19822,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2480, col: 5, offset: 79775},
+									pos: position{line: 2484, col: 5, offset: 79883},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2480, col: 5, offset: 79775},
+										pos: position{line: 2484, col: 5, offset: 79883},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2480, col: 5, offset: 79775},
+												pos: position{line: 2484, col: 5, offset: 79883},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2483, col: 5, offset: 79851},
+												pos:   position{line: 2487, col: 5, offset: 79959},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2484, col: 9, offset: 79869},
+													pos: position{line: 2488, col: 9, offset: 79977},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2484, col: 10, offset: 79870},
+														pos:        position{line: 2488, col: 10, offset: 79978},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19828,27 +19850,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1220, col: 23, offset: 37720},
+									pos: position{line: 1224, col: 23, offset: 37828},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1220, col: 23, offset: 37720},
+										pos: position{line: 1224, col: 23, offset: 37828},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1218, col: 32, offset: 37688},
+												pos:        position{line: 1222, col: 32, offset: 37796},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1220, col: 51, offset: 37748},
+												pos:   position{line: 1224, col: 51, offset: 37856},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1220, col: 56, offset: 37753},
+													pos: position{line: 1224, col: 56, offset: 37861},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1220, col: 56, offset: 37753},
+														pos: position{line: 1224, col: 56, offset: 37861},
 														expr: &charClassMatcher{
-															pos:        position{line: 1220, col: 56, offset: 37753},
+															pos:        position{line: 1224, col: 56, offset: 37861},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -19858,7 +19880,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1218, col: 32, offset: 37688},
+												pos:        position{line: 1222, col: 32, offset: 37796},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
@@ -19867,22 +19889,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1313, col: 104, offset: 40970},
+									pos: position{line: 1317, col: 104, offset: 41078},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1313, col: 105, offset: 40971},
+										pos: position{line: 1317, col: 105, offset: 41079},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1313, col: 105, offset: 40971},
+												pos: position{line: 1317, col: 105, offset: 41079},
 												expr: &litMatcher{
-													pos:        position{line: 1313, col: 106, offset: 40972},
+													pos:        position{line: 1317, col: 106, offset: 41080},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1313, col: 111, offset: 40977,
+												line: 1317, col: 111, offset: 41085,
 											},
 										},
 									},
@@ -19895,65 +19917,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1333, col: 1, offset: 41686},
+			pos:  position{line: 1337, col: 1, offset: 41794},
 			expr: &actionExpr{
-				pos: position{line: 1334, col: 5, offset: 41705},
+				pos: position{line: 1338, col: 5, offset: 41813},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1334, col: 5, offset: 41705},
+					pos: position{line: 1338, col: 5, offset: 41813},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1334, col: 5, offset: 41705},
+							pos:        position{line: 1338, col: 5, offset: 41813},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1334, col: 15, offset: 41715},
+							pos:   position{line: 1338, col: 15, offset: 41823},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2850, col: 13, offset: 90228},
+								pos: position{line: 2854, col: 13, offset: 90336},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2850, col: 13, offset: 90228},
+									pos: position{line: 2854, col: 13, offset: 90336},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2850, col: 13, offset: 90228},
+											pos:   position{line: 2854, col: 13, offset: 90336},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2850, col: 20, offset: 90235},
+												pos: position{line: 2854, col: 20, offset: 90343},
 												expr: &actionExpr{
-													pos: position{line: 2858, col: 11, offset: 90474},
+													pos: position{line: 2862, col: 11, offset: 90582},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2858, col: 12, offset: 90475},
+														pos: position{line: 2862, col: 12, offset: 90583},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2858, col: 12, offset: 90475},
+																pos:        position{line: 2862, col: 12, offset: 90583},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2858, col: 24, offset: 90487},
+																pos:        position{line: 2862, col: 24, offset: 90595},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2858, col: 37, offset: 90500},
+																pos:        position{line: 2862, col: 37, offset: 90608},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2858, col: 48, offset: 90511},
+																pos:        position{line: 2862, col: 48, offset: 90619},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2858, col: 59, offset: 90522},
+																pos:        position{line: 2862, col: 59, offset: 90630},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19964,38 +19986,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2850, col: 30, offset: 90245},
+											pos:   position{line: 2854, col: 30, offset: 90353},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2863, col: 5, offset: 90586},
+												pos: position{line: 2867, col: 5, offset: 90694},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2863, col: 5, offset: 90586},
+													pos:   position{line: 2867, col: 5, offset: 90694},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2863, col: 14, offset: 90595},
+														pos: position{line: 2867, col: 14, offset: 90703},
 														expr: &choiceExpr{
-															pos: position{line: 2864, col: 9, offset: 90605},
+															pos: position{line: 2868, col: 9, offset: 90713},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2864, col: 9, offset: 90605},
+																	pos: position{line: 2868, col: 9, offset: 90713},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2864, col: 9, offset: 90605},
+																		pos: position{line: 2868, col: 9, offset: 90713},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2864, col: 9, offset: 90605},
+																				pos: position{line: 2868, col: 9, offset: 90713},
 																				expr: &litMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90606},
+																					pos:        position{line: 2868, col: 10, offset: 90714},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2865, col: 9, offset: 90634},
+																				pos: position{line: 2869, col: 9, offset: 90742},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2865, col: 10, offset: 90635},
+																					pos:        position{line: 2869, col: 10, offset: 90743},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20006,27 +20028,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2868, col: 11, offset: 90847},
+																	pos: position{line: 2872, col: 11, offset: 90955},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2868, col: 11, offset: 90847},
+																			pos:        position{line: 2872, col: 11, offset: 90955},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2868, col: 19, offset: 90855},
+																			pos: position{line: 2872, col: 19, offset: 90963},
 																			expr: &seqExpr{
-																				pos: position{line: 2868, col: 21, offset: 90857},
+																				pos: position{line: 2872, col: 21, offset: 90965},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2868, col: 21, offset: 90857},
+																						pos: position{line: 2872, col: 21, offset: 90965},
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 10, offset: 91469},
+																							pos: position{line: 2896, col: 10, offset: 91577},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2892, col: 10, offset: 91469},
+																								pos:        position{line: 2896, col: 10, offset: 91577},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20035,11 +20057,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2868, col: 28, offset: 90864},
+																						pos: position{line: 2872, col: 28, offset: 90972},
 																						expr: &notExpr{
-																							pos: position{line: 2911, col: 8, offset: 91817},
+																							pos: position{line: 2915, col: 8, offset: 91925},
 																							expr: &anyMatcher{
-																								line: 2911, col: 9, offset: 91818,
+																								line: 2915, col: 9, offset: 91926,
 																							},
 																						},
 																					},
@@ -20395,27 +20417,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1220, col: 23, offset: 37720},
+																	pos: position{line: 1224, col: 23, offset: 37828},
 																	run: (*parser).callonImageBlock106,
 																	expr: &seqExpr{
-																		pos: position{line: 1220, col: 23, offset: 37720},
+																		pos: position{line: 1224, col: 23, offset: 37828},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1218, col: 32, offset: 37688},
+																				pos:        position{line: 1222, col: 32, offset: 37796},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1220, col: 51, offset: 37748},
+																				pos:   position{line: 1224, col: 51, offset: 37856},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1220, col: 56, offset: 37753},
+																					pos: position{line: 1224, col: 56, offset: 37861},
 																					run: (*parser).callonImageBlock110,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1220, col: 56, offset: 37753},
+																						pos: position{line: 1224, col: 56, offset: 37861},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1220, col: 56, offset: 37753},
+																							pos:        position{line: 1224, col: 56, offset: 37861},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20425,7 +20447,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1218, col: 32, offset: 37688},
+																				pos:        position{line: 1222, col: 32, offset: 37796},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20434,10 +20456,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2871, col: 11, offset: 90984},
+																	pos: position{line: 2875, col: 11, offset: 91092},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2871, col: 11, offset: 90984},
+																		pos:        position{line: 2875, col: 11, offset: 91092},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20454,20 +20476,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1334, col: 31, offset: 41731},
+							pos:   position{line: 1338, col: 31, offset: 41839},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1334, col: 43, offset: 41743},
+								pos:  position{line: 1338, col: 43, offset: 41851},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1334, col: 61, offset: 41761},
+							pos: position{line: 1338, col: 61, offset: 41869},
 							expr: &actionExpr{
-								pos: position{line: 2892, col: 10, offset: 91469},
+								pos: position{line: 2896, col: 10, offset: 91577},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2892, col: 10, offset: 91469},
+									pos:        position{line: 2896, col: 10, offset: 91577},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20476,28 +20498,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2914, col: 8, offset: 91867},
+							pos: position{line: 2918, col: 8, offset: 91975},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2901, col: 12, offset: 91640},
+									pos: position{line: 2905, col: 12, offset: 91748},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2901, col: 13, offset: 91641},
+										pos: position{line: 2905, col: 13, offset: 91749},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2901, col: 13, offset: 91641},
+												pos:        position{line: 2905, col: 13, offset: 91749},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2901, col: 20, offset: 91648},
+												pos:        position{line: 2905, col: 20, offset: 91756},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2901, col: 29, offset: 91657},
+												pos:        position{line: 2905, col: 29, offset: 91765},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20506,9 +20528,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2911, col: 8, offset: 91817},
+									pos: position{line: 2915, col: 8, offset: 91925},
 									expr: &anyMatcher{
-										line: 2911, col: 9, offset: 91818,
+										line: 2915, col: 9, offset: 91926,
 									},
 								},
 							},
@@ -20519,74 +20541,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1339, col: 1, offset: 41978},
+			pos:  position{line: 1343, col: 1, offset: 42086},
 			expr: &actionExpr{
-				pos: position{line: 1339, col: 16, offset: 41993},
+				pos: position{line: 1343, col: 16, offset: 42101},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1339, col: 16, offset: 41993},
+					pos: position{line: 1343, col: 16, offset: 42101},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1339, col: 16, offset: 41993},
+							pos:        position{line: 1343, col: 16, offset: 42101},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1339, col: 25, offset: 42002},
+							pos: position{line: 1343, col: 25, offset: 42110},
 							expr: &litMatcher{
-								pos:        position{line: 1339, col: 26, offset: 42003},
+								pos:        position{line: 1343, col: 26, offset: 42111},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1339, col: 30, offset: 42007},
+							pos:   position{line: 1343, col: 30, offset: 42115},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2850, col: 13, offset: 90228},
+								pos: position{line: 2854, col: 13, offset: 90336},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2850, col: 13, offset: 90228},
+									pos: position{line: 2854, col: 13, offset: 90336},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2850, col: 13, offset: 90228},
+											pos:   position{line: 2854, col: 13, offset: 90336},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2850, col: 20, offset: 90235},
+												pos: position{line: 2854, col: 20, offset: 90343},
 												expr: &actionExpr{
-													pos: position{line: 2858, col: 11, offset: 90474},
+													pos: position{line: 2862, col: 11, offset: 90582},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2858, col: 12, offset: 90475},
+														pos: position{line: 2862, col: 12, offset: 90583},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2858, col: 12, offset: 90475},
+																pos:        position{line: 2862, col: 12, offset: 90583},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2858, col: 24, offset: 90487},
+																pos:        position{line: 2862, col: 24, offset: 90595},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2858, col: 37, offset: 90500},
+																pos:        position{line: 2862, col: 37, offset: 90608},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2858, col: 48, offset: 90511},
+																pos:        position{line: 2862, col: 48, offset: 90619},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2858, col: 59, offset: 90522},
+																pos:        position{line: 2862, col: 59, offset: 90630},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20597,38 +20619,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2850, col: 30, offset: 90245},
+											pos:   position{line: 2854, col: 30, offset: 90353},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2863, col: 5, offset: 90586},
+												pos: position{line: 2867, col: 5, offset: 90694},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2863, col: 5, offset: 90586},
+													pos:   position{line: 2867, col: 5, offset: 90694},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2863, col: 14, offset: 90595},
+														pos: position{line: 2867, col: 14, offset: 90703},
 														expr: &choiceExpr{
-															pos: position{line: 2864, col: 9, offset: 90605},
+															pos: position{line: 2868, col: 9, offset: 90713},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2864, col: 9, offset: 90605},
+																	pos: position{line: 2868, col: 9, offset: 90713},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2864, col: 9, offset: 90605},
+																		pos: position{line: 2868, col: 9, offset: 90713},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2864, col: 9, offset: 90605},
+																				pos: position{line: 2868, col: 9, offset: 90713},
 																				expr: &litMatcher{
-																					pos:        position{line: 2864, col: 10, offset: 90606},
+																					pos:        position{line: 2868, col: 10, offset: 90714},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2865, col: 9, offset: 90634},
+																				pos: position{line: 2869, col: 9, offset: 90742},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2865, col: 10, offset: 90635},
+																					pos:        position{line: 2869, col: 10, offset: 90743},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20639,27 +20661,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2868, col: 11, offset: 90847},
+																	pos: position{line: 2872, col: 11, offset: 90955},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2868, col: 11, offset: 90847},
+																			pos:        position{line: 2872, col: 11, offset: 90955},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2868, col: 19, offset: 90855},
+																			pos: position{line: 2872, col: 19, offset: 90963},
 																			expr: &seqExpr{
-																				pos: position{line: 2868, col: 21, offset: 90857},
+																				pos: position{line: 2872, col: 21, offset: 90965},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2868, col: 21, offset: 90857},
+																						pos: position{line: 2872, col: 21, offset: 90965},
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 10, offset: 91469},
+																							pos: position{line: 2896, col: 10, offset: 91577},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2892, col: 10, offset: 91469},
+																								pos:        position{line: 2896, col: 10, offset: 91577},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20668,11 +20690,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2868, col: 28, offset: 90864},
+																						pos: position{line: 2872, col: 28, offset: 90972},
 																						expr: &notExpr{
-																							pos: position{line: 2911, col: 8, offset: 91817},
+																							pos: position{line: 2915, col: 8, offset: 91925},
 																							expr: &anyMatcher{
-																								line: 2911, col: 9, offset: 91818,
+																								line: 2915, col: 9, offset: 91926,
 																							},
 																						},
 																					},
@@ -21028,27 +21050,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1220, col: 23, offset: 37720},
+																	pos: position{line: 1224, col: 23, offset: 37828},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1220, col: 23, offset: 37720},
+																		pos: position{line: 1224, col: 23, offset: 37828},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1218, col: 32, offset: 37688},
+																				pos:        position{line: 1222, col: 32, offset: 37796},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1220, col: 51, offset: 37748},
+																				pos:   position{line: 1224, col: 51, offset: 37856},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1220, col: 56, offset: 37753},
+																					pos: position{line: 1224, col: 56, offset: 37861},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1220, col: 56, offset: 37753},
+																						pos: position{line: 1224, col: 56, offset: 37861},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1220, col: 56, offset: 37753},
+																							pos:        position{line: 1224, col: 56, offset: 37861},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -21058,7 +21080,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1218, col: 32, offset: 37688},
+																				pos:        position{line: 1222, col: 32, offset: 37796},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -21067,10 +21089,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2871, col: 11, offset: 90984},
+																	pos: position{line: 2875, col: 11, offset: 91092},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2871, col: 11, offset: 90984},
+																		pos:        position{line: 2875, col: 11, offset: 91092},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21087,10 +21109,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1339, col: 46, offset: 42023},
+							pos:   position{line: 1343, col: 46, offset: 42131},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1339, col: 58, offset: 42035},
+								pos:  position{line: 1343, col: 58, offset: 42143},
 								name: "InlineAttributes",
 							},
 						},
@@ -21100,29 +21122,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1346, col: 1, offset: 42431},
+			pos:  position{line: 1350, col: 1, offset: 42539},
 			expr: &actionExpr{
-				pos: position{line: 1346, col: 15, offset: 42445},
+				pos: position{line: 1350, col: 15, offset: 42553},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1346, col: 15, offset: 42445},
+					pos: position{line: 1350, col: 15, offset: 42553},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1346, col: 15, offset: 42445},
+							pos:        position{line: 1350, col: 15, offset: 42553},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1346, col: 23, offset: 42453},
+							pos:   position{line: 1350, col: 23, offset: 42561},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1346, col: 29, offset: 42459},
+								pos: position{line: 1350, col: 29, offset: 42567},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1346, col: 29, offset: 42459},
+									pos: position{line: 1350, col: 29, offset: 42567},
 									expr: &charClassMatcher{
-										pos:        position{line: 1346, col: 29, offset: 42459},
+										pos:        position{line: 1350, col: 29, offset: 42567},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21133,10 +21155,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1346, col: 73, offset: 42503},
+							pos:   position{line: 1350, col: 73, offset: 42611},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1346, col: 85, offset: 42515},
+								pos:  position{line: 1350, col: 85, offset: 42623},
 								name: "InlineAttributes",
 							},
 						},
@@ -21146,31 +21168,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1353, col: 1, offset: 42881},
+			pos:  position{line: 1357, col: 1, offset: 42989},
 			expr: &actionExpr{
-				pos: position{line: 1353, col: 19, offset: 42899},
+				pos: position{line: 1357, col: 19, offset: 43007},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1353, col: 19, offset: 42899},
+					pos: position{line: 1357, col: 19, offset: 43007},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1353, col: 19, offset: 42899},
+							pos:        position{line: 1357, col: 19, offset: 43007},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1353, col: 31, offset: 42911},
+							pos:   position{line: 1357, col: 31, offset: 43019},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1353, col: 35, offset: 42915},
+								pos: position{line: 1357, col: 35, offset: 43023},
 								expr: &actionExpr{
-									pos: position{line: 2786, col: 14, offset: 88638},
+									pos: position{line: 2790, col: 14, offset: 88746},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2786, col: 14, offset: 88638},
+										pos: position{line: 2790, col: 14, offset: 88746},
 										expr: &charClassMatcher{
-											pos:        position{line: 2786, col: 14, offset: 88638},
+											pos:        position{line: 2790, col: 14, offset: 88746},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -21181,21 +21203,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1353, col: 50, offset: 42930},
+							pos:        position{line: 1357, col: 50, offset: 43038},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1353, col: 54, offset: 42934},
+							pos:   position{line: 1357, col: 54, offset: 43042},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1353, col: 64, offset: 42944},
+								pos:  position{line: 1357, col: 64, offset: 43052},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1353, col: 82, offset: 42962},
+							pos:        position{line: 1357, col: 82, offset: 43070},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -21206,17 +21228,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1359, col: 1, offset: 43119},
+			pos:  position{line: 1363, col: 1, offset: 43227},
 			expr: &actionExpr{
-				pos: position{line: 1359, col: 21, offset: 43139},
+				pos: position{line: 1363, col: 21, offset: 43247},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1359, col: 21, offset: 43139},
+					pos:   position{line: 1363, col: 21, offset: 43247},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1359, col: 30, offset: 43148},
+						pos: position{line: 1363, col: 30, offset: 43256},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1359, col: 31, offset: 43149},
+							pos:  position{line: 1363, col: 31, offset: 43257},
 							name: "FootnoteElement",
 						},
 					},
@@ -21225,44 +21247,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1363, col: 1, offset: 43241},
+			pos:  position{line: 1367, col: 1, offset: 43349},
 			expr: &actionExpr{
-				pos: position{line: 1364, col: 5, offset: 43265},
+				pos: position{line: 1368, col: 5, offset: 43373},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1364, col: 5, offset: 43265},
+					pos: position{line: 1368, col: 5, offset: 43373},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1364, col: 5, offset: 43265},
+							pos: position{line: 1368, col: 5, offset: 43373},
 							expr: &litMatcher{
-								pos:        position{line: 1364, col: 6, offset: 43266},
+								pos:        position{line: 1368, col: 6, offset: 43374},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1365, col: 5, offset: 43275},
+							pos:   position{line: 1369, col: 5, offset: 43383},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1366, col: 9, offset: 43293},
+								pos: position{line: 1370, col: 9, offset: 43401},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2791, col: 5, offset: 88711},
+										pos: position{line: 2795, col: 5, offset: 88819},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2791, col: 5, offset: 88711},
+											pos: position{line: 2795, col: 5, offset: 88819},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2791, col: 5, offset: 88711},
+													pos:   position{line: 2795, col: 5, offset: 88819},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2791, col: 11, offset: 88717},
+														pos: position{line: 2795, col: 11, offset: 88825},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2791, col: 11, offset: 88717},
+															pos: position{line: 2795, col: 11, offset: 88825},
 															expr: &charClassMatcher{
-																pos:        position{line: 2791, col: 11, offset: 88717},
+																pos:        position{line: 2795, col: 11, offset: 88825},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21272,36 +21294,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2794, col: 5, offset: 88775},
+													pos: position{line: 2798, col: 5, offset: 88883},
 													expr: &seqExpr{
-														pos: position{line: 2795, col: 9, offset: 88786},
+														pos: position{line: 2799, col: 9, offset: 88894},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2795, col: 9, offset: 88786},
+																pos:        position{line: 2799, col: 9, offset: 88894},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2796, col: 9, offset: 88835},
+																pos: position{line: 2800, col: 9, offset: 88943},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2800, col: 5, offset: 88915},
+													pos: position{line: 2804, col: 5, offset: 89023},
 													expr: &seqExpr{
-														pos: position{line: 2801, col: 9, offset: 88926},
+														pos: position{line: 2805, col: 9, offset: 89034},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2801, col: 9, offset: 88926},
+																pos:        position{line: 2805, col: 9, offset: 89034},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2801, col: 13, offset: 88930},
+																pos:        position{line: 2805, col: 13, offset: 89038},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21314,12 +21336,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2896, col: 11, offset: 91530},
+										pos: position{line: 2900, col: 11, offset: 91638},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2896, col: 11, offset: 91530},
+											pos: position{line: 2900, col: 11, offset: 91638},
 											expr: &charClassMatcher{
-												pos:        position{line: 2896, col: 11, offset: 91530},
+												pos:        position{line: 2900, col: 11, offset: 91638},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21328,25 +21350,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2511, col: 5, offset: 80946},
+										pos: position{line: 2515, col: 5, offset: 81054},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2511, col: 5, offset: 80946},
+											pos: position{line: 2515, col: 5, offset: 81054},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2511, col: 5, offset: 80946},
+													pos: position{line: 2515, col: 5, offset: 81054},
 													run: (*parser).callonFootnoteElement26,
 												},
 												&litMatcher{
-													pos:        position{line: 2514, col: 5, offset: 81017},
+													pos:        position{line: 2518, col: 5, offset: 81125},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2514, col: 10, offset: 81022},
+													pos: position{line: 2518, col: 10, offset: 81130},
 													expr: &charClassMatcher{
-														pos:        position{line: 2514, col: 11, offset: 81023},
+														pos:        position{line: 2518, col: 11, offset: 81131},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21357,29 +21379,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2520, col: 5, offset: 81215},
+										pos: position{line: 2524, col: 5, offset: 81323},
 										run: (*parser).callonFootnoteElement30,
 										expr: &seqExpr{
-											pos: position{line: 2520, col: 5, offset: 81215},
+											pos: position{line: 2524, col: 5, offset: 81323},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2520, col: 5, offset: 81215},
+													pos: position{line: 2524, col: 5, offset: 81323},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&andCodeExpr{
-													pos: position{line: 2523, col: 5, offset: 81286},
+													pos: position{line: 2527, col: 5, offset: 81394},
 													run: (*parser).callonFootnoteElement33,
 												},
 												&litMatcher{
-													pos:        position{line: 2527, col: 5, offset: 81411},
+													pos:        position{line: 2531, col: 5, offset: 81519},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2527, col: 9, offset: 81415},
+													pos: position{line: 2531, col: 9, offset: 81523},
 													expr: &charClassMatcher{
-														pos:        position{line: 2527, col: 10, offset: 81416},
+														pos:        position{line: 2531, col: 10, offset: 81524},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21390,35 +21412,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1369, col: 11, offset: 43360},
+										pos:  position{line: 1373, col: 11, offset: 43468},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1370, col: 11, offset: 43376},
+										pos:  position{line: 1374, col: 11, offset: 43484},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2809, col: 5, offset: 89123},
+										pos: position{line: 2813, col: 5, offset: 89231},
 										run: (*parser).callonFootnoteElement39,
 										expr: &choiceExpr{
-											pos: position{line: 2810, col: 9, offset: 89133},
+											pos: position{line: 2814, col: 9, offset: 89241},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2810, col: 10, offset: 89134},
+													pos:        position{line: 2814, col: 10, offset: 89242},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2812, col: 13, offset: 89231},
+													pos: position{line: 2816, col: 13, offset: 89339},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2812, col: 13, offset: 89231},
+															pos: position{line: 2816, col: 13, offset: 89339},
 															run: (*parser).callonFootnoteElement43,
 														},
 														&litMatcher{
-															pos:        position{line: 2815, col: 13, offset: 89331},
+															pos:        position{line: 2819, col: 13, offset: 89439},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21426,20 +21448,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2815, col: 19, offset: 89337},
+													pos:        position{line: 2819, col: 19, offset: 89445},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2818, col: 13, offset: 89375},
+													pos: position{line: 2822, col: 13, offset: 89483},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2818, col: 13, offset: 89375},
+															pos: position{line: 2822, col: 13, offset: 89483},
 															run: (*parser).callonFootnoteElement47,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2821, col: 14, offset: 89468},
+															pos:        position{line: 2825, col: 14, offset: 89576},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21448,18 +21470,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2823, col: 12, offset: 89512},
+													pos: position{line: 2827, col: 12, offset: 89620},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2823, col: 12, offset: 89512},
+															pos:        position{line: 2827, col: 12, offset: 89620},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2823, col: 16, offset: 89516},
+															pos: position{line: 2827, col: 16, offset: 89624},
 															expr: &litMatcher{
-																pos:        position{line: 2823, col: 17, offset: 89517},
+																pos:        position{line: 2827, col: 17, offset: 89625},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21471,36 +21493,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1372, col: 11, offset: 43449},
+										pos:  position{line: 1376, col: 11, offset: 43557},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1228, col: 5, offset: 38166},
+										pos: position{line: 1232, col: 5, offset: 38274},
 										run: (*parser).callonFootnoteElement54,
 										expr: &seqExpr{
-											pos: position{line: 1228, col: 5, offset: 38166},
+											pos: position{line: 1232, col: 5, offset: 38274},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1228, col: 5, offset: 38166},
+													pos: position{line: 1232, col: 5, offset: 38274},
 													run: (*parser).callonFootnoteElement56,
 												},
 												&litMatcher{
-													pos:        position{line: 1231, col: 5, offset: 38242},
+													pos:        position{line: 1235, col: 5, offset: 38350},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1232, col: 5, offset: 38250},
+													pos: position{line: 1236, col: 5, offset: 38358},
 													run: (*parser).callonFootnoteElement58,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1236, col: 5, offset: 38337},
+													pos: position{line: 1240, col: 5, offset: 38445},
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 10, offset: 91469},
+														pos: position{line: 2896, col: 10, offset: 91577},
 														run: (*parser).callonFootnoteElement60,
 														expr: &charClassMatcher{
-															pos:        position{line: 2892, col: 10, offset: 91469},
+															pos:        position{line: 2896, col: 10, offset: 91577},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21509,30 +21531,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1236, col: 12, offset: 38344},
+													pos: position{line: 1240, col: 12, offset: 38452},
 													expr: &choiceExpr{
-														pos: position{line: 2914, col: 8, offset: 91867},
+														pos: position{line: 2918, col: 8, offset: 91975},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2901, col: 12, offset: 91640},
+																pos: position{line: 2905, col: 12, offset: 91748},
 																run: (*parser).callonFootnoteElement64,
 																expr: &choiceExpr{
-																	pos: position{line: 2901, col: 13, offset: 91641},
+																	pos: position{line: 2905, col: 13, offset: 91749},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 13, offset: 91641},
+																			pos:        position{line: 2905, col: 13, offset: 91749},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 20, offset: 91648},
+																			pos:        position{line: 2905, col: 20, offset: 91756},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 29, offset: 91657},
+																			pos:        position{line: 2905, col: 29, offset: 91765},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21541,9 +21563,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2911, col: 8, offset: 91817},
+																pos: position{line: 2915, col: 8, offset: 91925},
 																expr: &anyMatcher{
-																	line: 2911, col: 9, offset: 91818,
+																	line: 2915, col: 9, offset: 91926,
 																},
 															},
 														},
@@ -21899,23 +21921,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2480, col: 5, offset: 79775},
+										pos: position{line: 2484, col: 5, offset: 79883},
 										run: (*parser).callonFootnoteElement140,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 5, offset: 79775},
+											pos: position{line: 2484, col: 5, offset: 79883},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2480, col: 5, offset: 79775},
+													pos: position{line: 2484, col: 5, offset: 79883},
 													run: (*parser).callonFootnoteElement142,
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 5, offset: 79851},
+													pos:   position{line: 2487, col: 5, offset: 79959},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2484, col: 9, offset: 79869},
+														pos: position{line: 2488, col: 9, offset: 79977},
 														run: (*parser).callonFootnoteElement144,
 														expr: &charClassMatcher{
-															pos:        position{line: 2484, col: 10, offset: 79870},
+															pos:        position{line: 2488, col: 10, offset: 79978},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21927,25 +21949,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2901, col: 12, offset: 91640},
+										pos: position{line: 2905, col: 12, offset: 91748},
 										run: (*parser).callonFootnoteElement146,
 										expr: &choiceExpr{
-											pos: position{line: 2901, col: 13, offset: 91641},
+											pos: position{line: 2905, col: 13, offset: 91749},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2901, col: 13, offset: 91641},
+													pos:        position{line: 2905, col: 13, offset: 91749},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2901, col: 20, offset: 91648},
+													pos:        position{line: 2905, col: 20, offset: 91756},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2901, col: 29, offset: 91657},
+													pos:        position{line: 2905, col: 29, offset: 91765},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21954,10 +21976,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2831, col: 12, offset: 89777},
+										pos: position{line: 2835, col: 12, offset: 89885},
 										run: (*parser).callonFootnoteElement151,
 										expr: &charClassMatcher{
-											pos:        position{line: 2831, col: 12, offset: 89777},
+											pos:        position{line: 2835, col: 12, offset: 89885},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21973,32 +21995,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1411, col: 1, offset: 45294},
+			pos:  position{line: 1415, col: 1, offset: 45402},
 			expr: &choiceExpr{
-				pos: position{line: 1411, col: 21, offset: 45314},
+				pos: position{line: 1415, col: 21, offset: 45422},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1411, col: 21, offset: 45314},
+						pos: position{line: 1415, col: 21, offset: 45422},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1411, col: 21, offset: 45314},
+							pos: position{line: 1415, col: 21, offset: 45422},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1411, col: 21, offset: 45314},
+									pos:        position{line: 1415, col: 21, offset: 45422},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1411, col: 30, offset: 45323},
+									pos:   position{line: 1415, col: 30, offset: 45431},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1411, col: 38, offset: 45331},
+										pos: position{line: 1415, col: 38, offset: 45439},
 										expr: &actionExpr{
-											pos: position{line: 1417, col: 30, offset: 45657},
+											pos: position{line: 1421, col: 30, offset: 45765},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1417, col: 30, offset: 45657},
+												pos:        position{line: 1421, col: 30, offset: 45765},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -22008,7 +22030,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1411, col: 67, offset: 45360},
+									pos:        position{line: 1415, col: 67, offset: 45468},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -22017,34 +22039,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1413, col: 9, offset: 45464},
+						pos: position{line: 1417, col: 9, offset: 45572},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1413, col: 9, offset: 45464},
+							pos: position{line: 1417, col: 9, offset: 45572},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1413, col: 9, offset: 45464},
+									pos:        position{line: 1417, col: 9, offset: 45572},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1413, col: 19, offset: 45474},
+									pos:   position{line: 1417, col: 19, offset: 45582},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1413, col: 27, offset: 45482},
+										pos: position{line: 1417, col: 27, offset: 45590},
 										expr: &choiceExpr{
-											pos: position{line: 1413, col: 28, offset: 45483},
+											pos: position{line: 1417, col: 28, offset: 45591},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1413, col: 28, offset: 45483},
+													pos:  position{line: 1417, col: 28, offset: 45591},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1417, col: 30, offset: 45657},
+													pos: position{line: 1421, col: 30, offset: 45765},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1417, col: 30, offset: 45657},
+														pos:        position{line: 1421, col: 30, offset: 45765},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -22056,7 +22078,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1413, col: 69, offset: 45524},
+									pos:        position{line: 1417, col: 69, offset: 45632},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -22069,75 +22091,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1424, col: 1, offset: 45913},
+			pos:  position{line: 1428, col: 1, offset: 46021},
 			expr: &choiceExpr{
-				pos: position{line: 1424, col: 9, offset: 45921},
+				pos: position{line: 1428, col: 9, offset: 46029},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1427, col: 5, offset: 45990},
+						pos: position{line: 1431, col: 5, offset: 46098},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1427, col: 5, offset: 45990},
+							pos: position{line: 1431, col: 5, offset: 46098},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1427, col: 5, offset: 45990},
+									pos:        position{line: 1431, col: 5, offset: 46098},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1428, col: 5, offset: 45999},
+									pos:   position{line: 1432, col: 5, offset: 46107},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2854, col: 23, offset: 90355},
+										pos: position{line: 2858, col: 23, offset: 90463},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2854, col: 23, offset: 90355},
+											pos: position{line: 2858, col: 23, offset: 90463},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2854, col: 23, offset: 90355},
+													pos: position{line: 2858, col: 23, offset: 90463},
 													expr: &litMatcher{
-														pos:        position{line: 2854, col: 24, offset: 90356},
+														pos:        position{line: 2858, col: 24, offset: 90464},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2854, col: 28, offset: 90360},
+													pos:   position{line: 2858, col: 28, offset: 90468},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 11, offset: 90474},
+														pos: position{line: 2862, col: 11, offset: 90582},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2858, col: 12, offset: 90475},
+															pos: position{line: 2862, col: 12, offset: 90583},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2858, col: 12, offset: 90475},
+																	pos:        position{line: 2862, col: 12, offset: 90583},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2858, col: 24, offset: 90487},
+																	pos:        position{line: 2862, col: 24, offset: 90595},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2858, col: 37, offset: 90500},
+																	pos:        position{line: 2862, col: 37, offset: 90608},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2858, col: 48, offset: 90511},
+																	pos:        position{line: 2862, col: 48, offset: 90619},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2858, col: 59, offset: 90522},
+																	pos:        position{line: 2862, col: 59, offset: 90630},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -22147,38 +22169,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2854, col: 44, offset: 90376},
+													pos:   position{line: 2858, col: 44, offset: 90484},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 5, offset: 90586},
+														pos: position{line: 2867, col: 5, offset: 90694},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2863, col: 5, offset: 90586},
+															pos:   position{line: 2867, col: 5, offset: 90694},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2863, col: 14, offset: 90595},
+																pos: position{line: 2867, col: 14, offset: 90703},
 																expr: &choiceExpr{
-																	pos: position{line: 2864, col: 9, offset: 90605},
+																	pos: position{line: 2868, col: 9, offset: 90713},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2864, col: 9, offset: 90605},
+																			pos: position{line: 2868, col: 9, offset: 90713},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2864, col: 9, offset: 90605},
+																				pos: position{line: 2868, col: 9, offset: 90713},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2864, col: 9, offset: 90605},
+																						pos: position{line: 2868, col: 9, offset: 90713},
 																						expr: &litMatcher{
-																							pos:        position{line: 2864, col: 10, offset: 90606},
+																							pos:        position{line: 2868, col: 10, offset: 90714},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2865, col: 9, offset: 90634},
+																						pos: position{line: 2869, col: 9, offset: 90742},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2865, col: 10, offset: 90635},
+																							pos:        position{line: 2869, col: 10, offset: 90743},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22189,27 +22211,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2868, col: 11, offset: 90847},
+																			pos: position{line: 2872, col: 11, offset: 90955},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2868, col: 11, offset: 90847},
+																					pos:        position{line: 2872, col: 11, offset: 90955},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2868, col: 19, offset: 90855},
+																					pos: position{line: 2872, col: 19, offset: 90963},
 																					expr: &seqExpr{
-																						pos: position{line: 2868, col: 21, offset: 90857},
+																						pos: position{line: 2872, col: 21, offset: 90965},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2868, col: 21, offset: 90857},
+																								pos: position{line: 2872, col: 21, offset: 90965},
 																								expr: &actionExpr{
-																									pos: position{line: 2892, col: 10, offset: 91469},
+																									pos: position{line: 2896, col: 10, offset: 91577},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 10, offset: 91469},
+																										pos:        position{line: 2896, col: 10, offset: 91577},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22218,11 +22240,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2868, col: 28, offset: 90864},
+																								pos: position{line: 2872, col: 28, offset: 90972},
 																								expr: &notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -22578,27 +22600,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1220, col: 23, offset: 37720},
+																			pos: position{line: 1224, col: 23, offset: 37828},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1220, col: 23, offset: 37720},
+																				pos: position{line: 1224, col: 23, offset: 37828},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1218, col: 32, offset: 37688},
+																						pos:        position{line: 1222, col: 32, offset: 37796},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1220, col: 51, offset: 37748},
+																						pos:   position{line: 1224, col: 51, offset: 37856},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1220, col: 56, offset: 37753},
+																							pos: position{line: 1224, col: 56, offset: 37861},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1220, col: 56, offset: 37753},
+																								pos: position{line: 1224, col: 56, offset: 37861},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1220, col: 56, offset: 37753},
+																									pos:        position{line: 1224, col: 56, offset: 37861},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22608,7 +22630,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1218, col: 32, offset: 37688},
+																						pos:        position{line: 1222, col: 32, offset: 37796},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22617,10 +22639,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2871, col: 11, offset: 90984},
+																			pos: position{line: 2875, col: 11, offset: 91092},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2871, col: 11, offset: 90984},
+																				pos:        position{line: 2875, col: 11, offset: 91092},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22637,7 +22659,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1433, col: 5, offset: 46218},
+									pos:        position{line: 1437, col: 5, offset: 46326},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22646,38 +22668,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1424, col: 19, offset: 45931},
+						pos:  position{line: 1428, col: 19, offset: 46039},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1424, col: 34, offset: 45946},
+						pos:  position{line: 1428, col: 34, offset: 46054},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1462, col: 17, offset: 47211},
+						pos: position{line: 1466, col: 17, offset: 47319},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1462, col: 17, offset: 47211},
+							pos: position{line: 1466, col: 17, offset: 47319},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1462, col: 17, offset: 47211},
+									pos:   position{line: 1466, col: 17, offset: 47319},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1467, col: 5, offset: 47376},
+										pos: position{line: 1471, col: 5, offset: 47484},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1467, col: 5, offset: 47376},
+											pos: position{line: 1471, col: 5, offset: 47484},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1467, col: 5, offset: 47376},
+													pos:   position{line: 1471, col: 5, offset: 47484},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1467, col: 12, offset: 47383},
+														pos: position{line: 1471, col: 12, offset: 47491},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1467, col: 12, offset: 47383},
+															pos: position{line: 1471, col: 12, offset: 47491},
 															expr: &charClassMatcher{
-																pos:        position{line: 1467, col: 12, offset: 47383},
+																pos:        position{line: 1471, col: 12, offset: 47491},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22689,7 +22711,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1470, col: 5, offset: 47467},
+													pos: position{line: 1474, col: 5, offset: 47575},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -22697,33 +22719,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1462, col: 43, offset: 47237},
+									pos:        position{line: 1466, col: 43, offset: 47345},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1462, col: 47, offset: 47241},
+									pos:   position{line: 1466, col: 47, offset: 47349},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1479, col: 23, offset: 47761},
+										pos: position{line: 1483, col: 23, offset: 47869},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1479, col: 23, offset: 47761},
+											pos: position{line: 1483, col: 23, offset: 47869},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1479, col: 23, offset: 47761},
+													pos:   position{line: 1483, col: 23, offset: 47869},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1479, col: 31, offset: 47769},
+														pos: position{line: 1483, col: 31, offset: 47877},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1479, col: 31, offset: 47769},
+															pos: position{line: 1483, col: 31, offset: 47877},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1479, col: 31, offset: 47769},
+																	pos: position{line: 1483, col: 31, offset: 47877},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1479, col: 31, offset: 47769},
+																		pos:        position{line: 1483, col: 31, offset: 47877},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -22731,20 +22753,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1479, col: 41, offset: 47779},
+																	pos: position{line: 1483, col: 41, offset: 47887},
 																	expr: &seqExpr{
-																		pos: position{line: 1479, col: 42, offset: 47780},
+																		pos: position{line: 1483, col: 42, offset: 47888},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1479, col: 42, offset: 47780},
+																				pos:        position{line: 1483, col: 42, offset: 47888},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1479, col: 46, offset: 47784},
+																				pos: position{line: 1483, col: 46, offset: 47892},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1479, col: 46, offset: 47784},
+																					pos:        position{line: 1483, col: 46, offset: 47892},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22760,7 +22782,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1482, col: 5, offset: 47845},
+													pos: position{line: 1486, col: 5, offset: 47953},
 													run: (*parser).callonLink145,
 												},
 											},
@@ -22775,68 +22797,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1439, col: 1, offset: 46366},
+			pos:  position{line: 1443, col: 1, offset: 46474},
 			expr: &choiceExpr{
-				pos: position{line: 1441, col: 5, offset: 46402},
+				pos: position{line: 1445, col: 5, offset: 46510},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1441, col: 5, offset: 46402},
+						pos: position{line: 1445, col: 5, offset: 46510},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1441, col: 5, offset: 46402},
+							pos: position{line: 1445, col: 5, offset: 46510},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1441, col: 5, offset: 46402},
+									pos:        position{line: 1445, col: 5, offset: 46510},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1441, col: 17, offset: 46414},
+									pos:   position{line: 1445, col: 17, offset: 46522},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2850, col: 13, offset: 90228},
+										pos: position{line: 2854, col: 13, offset: 90336},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2850, col: 13, offset: 90228},
+											pos: position{line: 2854, col: 13, offset: 90336},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2850, col: 13, offset: 90228},
+													pos:   position{line: 2854, col: 13, offset: 90336},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2850, col: 20, offset: 90235},
+														pos: position{line: 2854, col: 20, offset: 90343},
 														expr: &actionExpr{
-															pos: position{line: 2858, col: 11, offset: 90474},
+															pos: position{line: 2862, col: 11, offset: 90582},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2858, col: 12, offset: 90475},
+																pos: position{line: 2862, col: 12, offset: 90583},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2858, col: 12, offset: 90475},
+																		pos:        position{line: 2862, col: 12, offset: 90583},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2858, col: 24, offset: 90487},
+																		pos:        position{line: 2862, col: 24, offset: 90595},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2858, col: 37, offset: 90500},
+																		pos:        position{line: 2862, col: 37, offset: 90608},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2858, col: 48, offset: 90511},
+																		pos:        position{line: 2862, col: 48, offset: 90619},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2858, col: 59, offset: 90522},
+																		pos:        position{line: 2862, col: 59, offset: 90630},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22847,38 +22869,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2850, col: 30, offset: 90245},
+													pos:   position{line: 2854, col: 30, offset: 90353},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 5, offset: 90586},
+														pos: position{line: 2867, col: 5, offset: 90694},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2863, col: 5, offset: 90586},
+															pos:   position{line: 2867, col: 5, offset: 90694},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2863, col: 14, offset: 90595},
+																pos: position{line: 2867, col: 14, offset: 90703},
 																expr: &choiceExpr{
-																	pos: position{line: 2864, col: 9, offset: 90605},
+																	pos: position{line: 2868, col: 9, offset: 90713},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2864, col: 9, offset: 90605},
+																			pos: position{line: 2868, col: 9, offset: 90713},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2864, col: 9, offset: 90605},
+																				pos: position{line: 2868, col: 9, offset: 90713},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2864, col: 9, offset: 90605},
+																						pos: position{line: 2868, col: 9, offset: 90713},
 																						expr: &litMatcher{
-																							pos:        position{line: 2864, col: 10, offset: 90606},
+																							pos:        position{line: 2868, col: 10, offset: 90714},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2865, col: 9, offset: 90634},
+																						pos: position{line: 2869, col: 9, offset: 90742},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2865, col: 10, offset: 90635},
+																							pos:        position{line: 2869, col: 10, offset: 90743},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22889,27 +22911,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2868, col: 11, offset: 90847},
+																			pos: position{line: 2872, col: 11, offset: 90955},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2868, col: 11, offset: 90847},
+																					pos:        position{line: 2872, col: 11, offset: 90955},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2868, col: 19, offset: 90855},
+																					pos: position{line: 2872, col: 19, offset: 90963},
 																					expr: &seqExpr{
-																						pos: position{line: 2868, col: 21, offset: 90857},
+																						pos: position{line: 2872, col: 21, offset: 90965},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2868, col: 21, offset: 90857},
+																								pos: position{line: 2872, col: 21, offset: 90965},
 																								expr: &actionExpr{
-																									pos: position{line: 2892, col: 10, offset: 91469},
+																									pos: position{line: 2896, col: 10, offset: 91577},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 10, offset: 91469},
+																										pos:        position{line: 2896, col: 10, offset: 91577},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22918,11 +22940,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2868, col: 28, offset: 90864},
+																								pos: position{line: 2872, col: 28, offset: 90972},
 																								expr: &notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -23278,27 +23300,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1220, col: 23, offset: 37720},
+																			pos: position{line: 1224, col: 23, offset: 37828},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1220, col: 23, offset: 37720},
+																				pos: position{line: 1224, col: 23, offset: 37828},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1218, col: 32, offset: 37688},
+																						pos:        position{line: 1222, col: 32, offset: 37796},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1220, col: 51, offset: 37748},
+																						pos:   position{line: 1224, col: 51, offset: 37856},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1220, col: 56, offset: 37753},
+																							pos: position{line: 1224, col: 56, offset: 37861},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1220, col: 56, offset: 37753},
+																								pos: position{line: 1224, col: 56, offset: 37861},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1220, col: 56, offset: 37753},
+																									pos:        position{line: 1224, col: 56, offset: 37861},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23308,7 +23330,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1218, col: 32, offset: 37688},
+																						pos:        position{line: 1222, col: 32, offset: 37796},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23317,10 +23339,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2871, col: 11, offset: 90984},
+																			pos: position{line: 2875, col: 11, offset: 91092},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2871, col: 11, offset: 90984},
+																				pos:        position{line: 2875, col: 11, offset: 91092},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23337,10 +23359,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1441, col: 32, offset: 46429},
+									pos:   position{line: 1445, col: 32, offset: 46537},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1441, col: 44, offset: 46441},
+										pos:  position{line: 1445, col: 44, offset: 46549},
 										name: "InlineAttributes",
 									},
 								},
@@ -23348,63 +23370,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1446, col: 5, offset: 46573},
+						pos: position{line: 1450, col: 5, offset: 46681},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1446, col: 5, offset: 46573},
+							pos: position{line: 1450, col: 5, offset: 46681},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1446, col: 5, offset: 46573},
+									pos:        position{line: 1450, col: 5, offset: 46681},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1446, col: 13, offset: 46581},
+									pos:   position{line: 1450, col: 13, offset: 46689},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2850, col: 13, offset: 90228},
+										pos: position{line: 2854, col: 13, offset: 90336},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2850, col: 13, offset: 90228},
+											pos: position{line: 2854, col: 13, offset: 90336},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2850, col: 13, offset: 90228},
+													pos:   position{line: 2854, col: 13, offset: 90336},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2850, col: 20, offset: 90235},
+														pos: position{line: 2854, col: 20, offset: 90343},
 														expr: &actionExpr{
-															pos: position{line: 2858, col: 11, offset: 90474},
+															pos: position{line: 2862, col: 11, offset: 90582},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2858, col: 12, offset: 90475},
+																pos: position{line: 2862, col: 12, offset: 90583},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2858, col: 12, offset: 90475},
+																		pos:        position{line: 2862, col: 12, offset: 90583},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2858, col: 24, offset: 90487},
+																		pos:        position{line: 2862, col: 24, offset: 90595},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2858, col: 37, offset: 90500},
+																		pos:        position{line: 2862, col: 37, offset: 90608},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2858, col: 48, offset: 90511},
+																		pos:        position{line: 2862, col: 48, offset: 90619},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2858, col: 59, offset: 90522},
+																		pos:        position{line: 2862, col: 59, offset: 90630},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23415,38 +23437,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2850, col: 30, offset: 90245},
+													pos:   position{line: 2854, col: 30, offset: 90353},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 5, offset: 90586},
+														pos: position{line: 2867, col: 5, offset: 90694},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2863, col: 5, offset: 90586},
+															pos:   position{line: 2867, col: 5, offset: 90694},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2863, col: 14, offset: 90595},
+																pos: position{line: 2867, col: 14, offset: 90703},
 																expr: &choiceExpr{
-																	pos: position{line: 2864, col: 9, offset: 90605},
+																	pos: position{line: 2868, col: 9, offset: 90713},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2864, col: 9, offset: 90605},
+																			pos: position{line: 2868, col: 9, offset: 90713},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2864, col: 9, offset: 90605},
+																				pos: position{line: 2868, col: 9, offset: 90713},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2864, col: 9, offset: 90605},
+																						pos: position{line: 2868, col: 9, offset: 90713},
 																						expr: &litMatcher{
-																							pos:        position{line: 2864, col: 10, offset: 90606},
+																							pos:        position{line: 2868, col: 10, offset: 90714},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2865, col: 9, offset: 90634},
+																						pos: position{line: 2869, col: 9, offset: 90742},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2865, col: 10, offset: 90635},
+																							pos:        position{line: 2869, col: 10, offset: 90743},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23457,27 +23479,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2868, col: 11, offset: 90847},
+																			pos: position{line: 2872, col: 11, offset: 90955},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2868, col: 11, offset: 90847},
+																					pos:        position{line: 2872, col: 11, offset: 90955},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2868, col: 19, offset: 90855},
+																					pos: position{line: 2872, col: 19, offset: 90963},
 																					expr: &seqExpr{
-																						pos: position{line: 2868, col: 21, offset: 90857},
+																						pos: position{line: 2872, col: 21, offset: 90965},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2868, col: 21, offset: 90857},
+																								pos: position{line: 2872, col: 21, offset: 90965},
 																								expr: &actionExpr{
-																									pos: position{line: 2892, col: 10, offset: 91469},
+																									pos: position{line: 2896, col: 10, offset: 91577},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 10, offset: 91469},
+																										pos:        position{line: 2896, col: 10, offset: 91577},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23486,11 +23508,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2868, col: 28, offset: 90864},
+																								pos: position{line: 2872, col: 28, offset: 90972},
 																								expr: &notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -23846,27 +23868,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1220, col: 23, offset: 37720},
+																			pos: position{line: 1224, col: 23, offset: 37828},
 																			run: (*parser).callonRelativeLink224,
 																			expr: &seqExpr{
-																				pos: position{line: 1220, col: 23, offset: 37720},
+																				pos: position{line: 1224, col: 23, offset: 37828},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1218, col: 32, offset: 37688},
+																						pos:        position{line: 1222, col: 32, offset: 37796},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1220, col: 51, offset: 37748},
+																						pos:   position{line: 1224, col: 51, offset: 37856},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1220, col: 56, offset: 37753},
+																							pos: position{line: 1224, col: 56, offset: 37861},
 																							run: (*parser).callonRelativeLink228,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1220, col: 56, offset: 37753},
+																								pos: position{line: 1224, col: 56, offset: 37861},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1220, col: 56, offset: 37753},
+																									pos:        position{line: 1224, col: 56, offset: 37861},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23876,7 +23898,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1218, col: 32, offset: 37688},
+																						pos:        position{line: 1222, col: 32, offset: 37796},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23885,10 +23907,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2871, col: 11, offset: 90984},
+																			pos: position{line: 2875, col: 11, offset: 91092},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2871, col: 11, offset: 90984},
+																				pos:        position{line: 2875, col: 11, offset: 91092},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23905,10 +23927,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1446, col: 28, offset: 46596},
+									pos:   position{line: 1450, col: 28, offset: 46704},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1446, col: 40, offset: 46608},
+										pos:  position{line: 1450, col: 40, offset: 46716},
 										name: "InlineAttributes",
 									},
 								},
@@ -23920,75 +23942,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1450, col: 1, offset: 46724},
+			pos:  position{line: 1454, col: 1, offset: 46832},
 			expr: &choiceExpr{
-				pos: position{line: 1453, col: 5, offset: 46886},
+				pos: position{line: 1457, col: 5, offset: 46994},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1453, col: 5, offset: 46886},
+						pos: position{line: 1457, col: 5, offset: 46994},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1453, col: 5, offset: 46886},
+							pos: position{line: 1457, col: 5, offset: 46994},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1453, col: 5, offset: 46886},
+									pos:        position{line: 1457, col: 5, offset: 46994},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1453, col: 9, offset: 46890},
+									pos:   position{line: 1457, col: 9, offset: 46998},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2854, col: 23, offset: 90355},
+										pos: position{line: 2858, col: 23, offset: 90463},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2854, col: 23, offset: 90355},
+											pos: position{line: 2858, col: 23, offset: 90463},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2854, col: 23, offset: 90355},
+													pos: position{line: 2858, col: 23, offset: 90463},
 													expr: &litMatcher{
-														pos:        position{line: 2854, col: 24, offset: 90356},
+														pos:        position{line: 2858, col: 24, offset: 90464},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2854, col: 28, offset: 90360},
+													pos:   position{line: 2858, col: 28, offset: 90468},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 11, offset: 90474},
+														pos: position{line: 2862, col: 11, offset: 90582},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2858, col: 12, offset: 90475},
+															pos: position{line: 2862, col: 12, offset: 90583},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2858, col: 12, offset: 90475},
+																	pos:        position{line: 2862, col: 12, offset: 90583},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2858, col: 24, offset: 90487},
+																	pos:        position{line: 2862, col: 24, offset: 90595},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2858, col: 37, offset: 90500},
+																	pos:        position{line: 2862, col: 37, offset: 90608},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2858, col: 48, offset: 90511},
+																	pos:        position{line: 2862, col: 48, offset: 90619},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2858, col: 59, offset: 90522},
+																	pos:        position{line: 2862, col: 59, offset: 90630},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -23998,38 +24020,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2854, col: 44, offset: 90376},
+													pos:   position{line: 2858, col: 44, offset: 90484},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 5, offset: 90586},
+														pos: position{line: 2867, col: 5, offset: 90694},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2863, col: 5, offset: 90586},
+															pos:   position{line: 2867, col: 5, offset: 90694},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2863, col: 14, offset: 90595},
+																pos: position{line: 2867, col: 14, offset: 90703},
 																expr: &choiceExpr{
-																	pos: position{line: 2864, col: 9, offset: 90605},
+																	pos: position{line: 2868, col: 9, offset: 90713},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2864, col: 9, offset: 90605},
+																			pos: position{line: 2868, col: 9, offset: 90713},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2864, col: 9, offset: 90605},
+																				pos: position{line: 2868, col: 9, offset: 90713},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2864, col: 9, offset: 90605},
+																						pos: position{line: 2868, col: 9, offset: 90713},
 																						expr: &litMatcher{
-																							pos:        position{line: 2864, col: 10, offset: 90606},
+																							pos:        position{line: 2868, col: 10, offset: 90714},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2865, col: 9, offset: 90634},
+																						pos: position{line: 2869, col: 9, offset: 90742},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2865, col: 10, offset: 90635},
+																							pos:        position{line: 2869, col: 10, offset: 90743},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24040,27 +24062,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2868, col: 11, offset: 90847},
+																			pos: position{line: 2872, col: 11, offset: 90955},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2868, col: 11, offset: 90847},
+																					pos:        position{line: 2872, col: 11, offset: 90955},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2868, col: 19, offset: 90855},
+																					pos: position{line: 2872, col: 19, offset: 90963},
 																					expr: &seqExpr{
-																						pos: position{line: 2868, col: 21, offset: 90857},
+																						pos: position{line: 2872, col: 21, offset: 90965},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2868, col: 21, offset: 90857},
+																								pos: position{line: 2872, col: 21, offset: 90965},
 																								expr: &actionExpr{
-																									pos: position{line: 2892, col: 10, offset: 91469},
+																									pos: position{line: 2896, col: 10, offset: 91577},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 10, offset: 91469},
+																										pos:        position{line: 2896, col: 10, offset: 91577},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24069,11 +24091,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2868, col: 28, offset: 90864},
+																								pos: position{line: 2872, col: 28, offset: 90972},
 																								expr: &notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -24429,27 +24451,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1220, col: 23, offset: 37720},
+																			pos: position{line: 1224, col: 23, offset: 37828},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1220, col: 23, offset: 37720},
+																				pos: position{line: 1224, col: 23, offset: 37828},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1218, col: 32, offset: 37688},
+																						pos:        position{line: 1222, col: 32, offset: 37796},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1220, col: 51, offset: 37748},
+																						pos:   position{line: 1224, col: 51, offset: 37856},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1220, col: 56, offset: 37753},
+																							pos: position{line: 1224, col: 56, offset: 37861},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1220, col: 56, offset: 37753},
+																								pos: position{line: 1224, col: 56, offset: 37861},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1220, col: 56, offset: 37753},
+																									pos:        position{line: 1224, col: 56, offset: 37861},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24459,7 +24481,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1218, col: 32, offset: 37688},
+																						pos:        position{line: 1222, col: 32, offset: 37796},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24468,10 +24490,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2871, col: 11, offset: 90984},
+																			pos: position{line: 2875, col: 11, offset: 91092},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2871, col: 11, offset: 90984},
+																				pos:        position{line: 2875, col: 11, offset: 91092},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24488,12 +24510,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1453, col: 34, offset: 46915},
+									pos:   position{line: 1457, col: 34, offset: 47023},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1453, col: 45, offset: 46926},
+										pos: position{line: 1457, col: 45, offset: 47034},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1453, col: 46, offset: 46927},
+											pos:  position{line: 1457, col: 46, offset: 47035},
 											name: "InlineAttributes",
 										},
 									},
@@ -24502,64 +24524,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1458, col: 5, offset: 47060},
+						pos: position{line: 1462, col: 5, offset: 47168},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1458, col: 5, offset: 47060},
+							pos: position{line: 1462, col: 5, offset: 47168},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1458, col: 5, offset: 47060},
+									pos:   position{line: 1462, col: 5, offset: 47168},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2854, col: 23, offset: 90355},
+										pos: position{line: 2858, col: 23, offset: 90463},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2854, col: 23, offset: 90355},
+											pos: position{line: 2858, col: 23, offset: 90463},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2854, col: 23, offset: 90355},
+													pos: position{line: 2858, col: 23, offset: 90463},
 													expr: &litMatcher{
-														pos:        position{line: 2854, col: 24, offset: 90356},
+														pos:        position{line: 2858, col: 24, offset: 90464},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2854, col: 28, offset: 90360},
+													pos:   position{line: 2858, col: 28, offset: 90468},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2858, col: 11, offset: 90474},
+														pos: position{line: 2862, col: 11, offset: 90582},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2858, col: 12, offset: 90475},
+															pos: position{line: 2862, col: 12, offset: 90583},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2858, col: 12, offset: 90475},
+																	pos:        position{line: 2862, col: 12, offset: 90583},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2858, col: 24, offset: 90487},
+																	pos:        position{line: 2862, col: 24, offset: 90595},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2858, col: 37, offset: 90500},
+																	pos:        position{line: 2862, col: 37, offset: 90608},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2858, col: 48, offset: 90511},
+																	pos:        position{line: 2862, col: 48, offset: 90619},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2858, col: 59, offset: 90522},
+																	pos:        position{line: 2862, col: 59, offset: 90630},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24569,38 +24591,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2854, col: 44, offset: 90376},
+													pos:   position{line: 2858, col: 44, offset: 90484},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2863, col: 5, offset: 90586},
+														pos: position{line: 2867, col: 5, offset: 90694},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2863, col: 5, offset: 90586},
+															pos:   position{line: 2867, col: 5, offset: 90694},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2863, col: 14, offset: 90595},
+																pos: position{line: 2867, col: 14, offset: 90703},
 																expr: &choiceExpr{
-																	pos: position{line: 2864, col: 9, offset: 90605},
+																	pos: position{line: 2868, col: 9, offset: 90713},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2864, col: 9, offset: 90605},
+																			pos: position{line: 2868, col: 9, offset: 90713},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2864, col: 9, offset: 90605},
+																				pos: position{line: 2868, col: 9, offset: 90713},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2864, col: 9, offset: 90605},
+																						pos: position{line: 2868, col: 9, offset: 90713},
 																						expr: &litMatcher{
-																							pos:        position{line: 2864, col: 10, offset: 90606},
+																							pos:        position{line: 2868, col: 10, offset: 90714},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2865, col: 9, offset: 90634},
+																						pos: position{line: 2869, col: 9, offset: 90742},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2865, col: 10, offset: 90635},
+																							pos:        position{line: 2869, col: 10, offset: 90743},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24611,27 +24633,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2868, col: 11, offset: 90847},
+																			pos: position{line: 2872, col: 11, offset: 90955},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2868, col: 11, offset: 90847},
+																					pos:        position{line: 2872, col: 11, offset: 90955},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2868, col: 19, offset: 90855},
+																					pos: position{line: 2872, col: 19, offset: 90963},
 																					expr: &seqExpr{
-																						pos: position{line: 2868, col: 21, offset: 90857},
+																						pos: position{line: 2872, col: 21, offset: 90965},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2868, col: 21, offset: 90857},
+																								pos: position{line: 2872, col: 21, offset: 90965},
 																								expr: &actionExpr{
-																									pos: position{line: 2892, col: 10, offset: 91469},
+																									pos: position{line: 2896, col: 10, offset: 91577},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 10, offset: 91469},
+																										pos:        position{line: 2896, col: 10, offset: 91577},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24640,11 +24662,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2868, col: 28, offset: 90864},
+																								pos: position{line: 2872, col: 28, offset: 90972},
 																								expr: &notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -25000,27 +25022,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1220, col: 23, offset: 37720},
+																			pos: position{line: 1224, col: 23, offset: 37828},
 																			run: (*parser).callonExternalLink226,
 																			expr: &seqExpr{
-																				pos: position{line: 1220, col: 23, offset: 37720},
+																				pos: position{line: 1224, col: 23, offset: 37828},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1218, col: 32, offset: 37688},
+																						pos:        position{line: 1222, col: 32, offset: 37796},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1220, col: 51, offset: 37748},
+																						pos:   position{line: 1224, col: 51, offset: 37856},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1220, col: 56, offset: 37753},
+																							pos: position{line: 1224, col: 56, offset: 37861},
 																							run: (*parser).callonExternalLink230,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1220, col: 56, offset: 37753},
+																								pos: position{line: 1224, col: 56, offset: 37861},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1220, col: 56, offset: 37753},
+																									pos:        position{line: 1224, col: 56, offset: 37861},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -25030,7 +25052,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1218, col: 32, offset: 37688},
+																						pos:        position{line: 1222, col: 32, offset: 37796},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -25039,10 +25061,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2871, col: 11, offset: 90984},
+																			pos: position{line: 2875, col: 11, offset: 91092},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2871, col: 11, offset: 90984},
+																				pos:        position{line: 2875, col: 11, offset: 91092},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25059,12 +25081,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1458, col: 30, offset: 47085},
+									pos:   position{line: 1462, col: 30, offset: 47193},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1458, col: 41, offset: 47096},
+										pos: position{line: 1462, col: 41, offset: 47204},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1458, col: 42, offset: 47097},
+											pos:  position{line: 1462, col: 42, offset: 47205},
 											name: "InlineAttributes",
 										},
 									},
@@ -25077,41 +25099,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1492, col: 1, offset: 48238},
+			pos:  position{line: 1496, col: 1, offset: 48346},
 			expr: &actionExpr{
-				pos: position{line: 1493, col: 5, offset: 48259},
+				pos: position{line: 1497, col: 5, offset: 48367},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1493, col: 5, offset: 48259},
+					pos: position{line: 1497, col: 5, offset: 48367},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1493, col: 5, offset: 48259},
+							pos:   position{line: 1497, col: 5, offset: 48367},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1499, col: 5, offset: 48461},
+								pos: position{line: 1503, col: 5, offset: 48569},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1592, col: 5, offset: 51395},
+										pos: position{line: 1596, col: 5, offset: 51503},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1592, col: 5, offset: 51395},
+											pos: position{line: 1596, col: 5, offset: 51503},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1592, col: 5, offset: 51395},
+													pos:   position{line: 1596, col: 5, offset: 51503},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1599, col: 5, offset: 51603},
+														pos: position{line: 1603, col: 5, offset: 51711},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1599, col: 5, offset: 51603},
+															pos: position{line: 1603, col: 5, offset: 51711},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1599, col: 5, offset: 51603},
+																	pos: position{line: 1603, col: 5, offset: 51711},
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 10, offset: 91469},
+																		pos: position{line: 2896, col: 10, offset: 91577},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 10, offset: 91469},
+																			pos:        position{line: 2896, col: 10, offset: 91577},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25120,27 +25142,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1599, col: 12, offset: 51610},
+																	pos:   position{line: 1603, col: 12, offset: 51718},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1601, col: 9, offset: 51673},
+																		pos: position{line: 1605, col: 9, offset: 51781},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1601, col: 9, offset: 51673},
+																				pos: position{line: 1605, col: 9, offset: 51781},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1601, col: 9, offset: 51673},
+																					pos: position{line: 1605, col: 9, offset: 51781},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1601, col: 9, offset: 51673},
+																							pos:   position{line: 1605, col: 9, offset: 51781},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1601, col: 16, offset: 51680},
+																								pos: position{line: 1605, col: 16, offset: 51788},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1601, col: 16, offset: 51680},
+																									pos: position{line: 1605, col: 16, offset: 51788},
 																									expr: &litMatcher{
-																										pos:        position{line: 1601, col: 17, offset: 51681},
+																										pos:        position{line: 1605, col: 17, offset: 51789},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -25149,22 +25171,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1605, col: 9, offset: 51781},
+																							pos: position{line: 1609, col: 9, offset: 51889},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1624, col: 11, offset: 52498},
+																				pos: position{line: 1628, col: 11, offset: 52606},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1624, col: 11, offset: 52498},
+																					pos: position{line: 1628, col: 11, offset: 52606},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1624, col: 11, offset: 52498},
+																							pos: position{line: 1628, col: 11, offset: 52606},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1624, col: 12, offset: 52499},
+																								pos:        position{line: 1628, col: 12, offset: 52607},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -25172,7 +25194,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1624, col: 20, offset: 52507},
+																							pos:        position{line: 1628, col: 20, offset: 52615},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25181,20 +25203,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1626, col: 13, offset: 52624},
+																				pos: position{line: 1630, col: 13, offset: 52732},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1626, col: 13, offset: 52624},
+																					pos: position{line: 1630, col: 13, offset: 52732},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1626, col: 14, offset: 52625},
+																							pos:        position{line: 1630, col: 14, offset: 52733},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1626, col: 21, offset: 52632},
+																							pos:        position{line: 1630, col: 21, offset: 52740},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25203,20 +25225,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1628, col: 13, offset: 52752},
+																				pos: position{line: 1632, col: 13, offset: 52860},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1628, col: 13, offset: 52752},
+																					pos: position{line: 1632, col: 13, offset: 52860},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1628, col: 14, offset: 52753},
+																							pos:        position{line: 1632, col: 14, offset: 52861},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1628, col: 21, offset: 52760},
+																							pos:        position{line: 1632, col: 21, offset: 52868},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25225,15 +25247,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1630, col: 13, offset: 52880},
+																				pos: position{line: 1634, col: 13, offset: 52988},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1630, col: 13, offset: 52880},
+																					pos: position{line: 1634, col: 13, offset: 52988},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1630, col: 13, offset: 52880},
+																							pos: position{line: 1634, col: 13, offset: 52988},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1630, col: 14, offset: 52881},
+																								pos:        position{line: 1634, col: 14, offset: 52989},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -25241,7 +25263,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1630, col: 26, offset: 52893},
+																							pos:        position{line: 1634, col: 26, offset: 53001},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25250,15 +25272,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1632, col: 13, offset: 53013},
+																				pos: position{line: 1636, col: 13, offset: 53121},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1632, col: 13, offset: 53013},
+																					pos: position{line: 1636, col: 13, offset: 53121},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1632, col: 13, offset: 53013},
+																							pos: position{line: 1636, col: 13, offset: 53121},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1632, col: 14, offset: 53014},
+																								pos:        position{line: 1636, col: 14, offset: 53122},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -25266,7 +25288,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1632, col: 26, offset: 53026},
+																							pos:        position{line: 1636, col: 26, offset: 53134},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25278,12 +25300,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2896, col: 11, offset: 91530},
+																	pos: position{line: 2900, col: 11, offset: 91638},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2896, col: 11, offset: 91530},
+																		pos: position{line: 2900, col: 11, offset: 91638},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 11, offset: 91530},
+																			pos:        position{line: 2900, col: 11, offset: 91638},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25296,26 +25318,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1593, col: 5, offset: 51434},
+													pos:   position{line: 1597, col: 5, offset: 51542},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1540, col: 5, offset: 49901},
+														pos: position{line: 1544, col: 5, offset: 50009},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1540, col: 5, offset: 49901},
+															pos: position{line: 1544, col: 5, offset: 50009},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1540, col: 5, offset: 49901},
+																	pos:   position{line: 1544, col: 5, offset: 50009},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1540, col: 14, offset: 49910},
+																		pos: position{line: 1544, col: 14, offset: 50018},
 																		expr: &actionExpr{
-																			pos: position{line: 1540, col: 15, offset: 49911},
+																			pos: position{line: 1544, col: 15, offset: 50019},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1540, col: 15, offset: 49911},
+																				pos: position{line: 1544, col: 15, offset: 50019},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1540, col: 15, offset: 49911},
+																					pos:        position{line: 1544, col: 15, offset: 50019},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25326,28 +25348,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25356,9 +25378,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -25371,27 +25393,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1642, col: 5, offset: 53292},
+										pos: position{line: 1646, col: 5, offset: 53400},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1642, col: 5, offset: 53292},
+											pos: position{line: 1646, col: 5, offset: 53400},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1642, col: 5, offset: 53292},
+													pos:   position{line: 1646, col: 5, offset: 53400},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1649, col: 5, offset: 53565},
+														pos: position{line: 1653, col: 5, offset: 53673},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1649, col: 5, offset: 53565},
+															pos: position{line: 1653, col: 5, offset: 53673},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1649, col: 5, offset: 53565},
+																	pos: position{line: 1653, col: 5, offset: 53673},
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 10, offset: 91469},
+																		pos: position{line: 2896, col: 10, offset: 91577},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 10, offset: 91469},
+																			pos:        position{line: 2896, col: 10, offset: 91577},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25400,24 +25422,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1650, col: 5, offset: 53577},
+																	pos:   position{line: 1654, col: 5, offset: 53685},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1651, col: 9, offset: 53593},
+																		pos: position{line: 1655, col: 9, offset: 53701},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1651, col: 10, offset: 53594},
+																			pos: position{line: 1655, col: 10, offset: 53702},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1651, col: 11, offset: 53595},
+																					pos:        position{line: 1655, col: 11, offset: 53703},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1651, col: 18, offset: 53602},
+																					pos: position{line: 1655, col: 18, offset: 53710},
 																					expr: &litMatcher{
-																						pos:        position{line: 1651, col: 19, offset: 53603},
+																						pos:        position{line: 1655, col: 19, offset: 53711},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -25428,16 +25450,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1654, col: 7, offset: 53693},
+																	pos: position{line: 1658, col: 7, offset: 53801},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2896, col: 11, offset: 91530},
+																	pos: position{line: 2900, col: 11, offset: 91638},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2896, col: 11, offset: 91530},
+																		pos: position{line: 2900, col: 11, offset: 91638},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 11, offset: 91530},
+																			pos:        position{line: 2900, col: 11, offset: 91638},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25450,56 +25472,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1643, col: 5, offset: 53333},
+													pos:   position{line: 1647, col: 5, offset: 53441},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1643, col: 16, offset: 53344},
+														pos: position{line: 1647, col: 16, offset: 53452},
 														expr: &actionExpr{
-															pos: position{line: 1664, col: 5, offset: 53958},
+															pos: position{line: 1668, col: 5, offset: 54066},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1664, col: 5, offset: 53958},
+																pos: position{line: 1668, col: 5, offset: 54066},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1664, col: 5, offset: 53958},
+																		pos: position{line: 1668, col: 5, offset: 54066},
 																		expr: &litMatcher{
-																			pos:        position{line: 1664, col: 6, offset: 53959},
+																			pos:        position{line: 1668, col: 6, offset: 54067},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1664, col: 10, offset: 53963},
+																		pos:   position{line: 1668, col: 10, offset: 54071},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1665, col: 7, offset: 53977},
+																			pos: position{line: 1669, col: 7, offset: 54085},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1665, col: 7, offset: 53977},
+																					pos: position{line: 1669, col: 7, offset: 54085},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1665, col: 7, offset: 53977},
+																						pos:        position{line: 1669, col: 7, offset: 54085},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1666, col: 7, offset: 54022},
+																					pos: position{line: 1670, col: 7, offset: 54130},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1666, col: 7, offset: 54022},
+																						pos:        position{line: 1670, col: 7, offset: 54130},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1667, col: 7, offset: 54065},
+																					pos: position{line: 1671, col: 7, offset: 54173},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1667, col: 7, offset: 54065},
+																						pos:        position{line: 1671, col: 7, offset: 54173},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -25509,12 +25531,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2896, col: 11, offset: 91530},
+																		pos: position{line: 2900, col: 11, offset: 91638},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2896, col: 11, offset: 91530},
+																			pos: position{line: 2900, col: 11, offset: 91638},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 11, offset: 91530},
+																				pos:        position{line: 2900, col: 11, offset: 91638},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25528,26 +25550,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1644, col: 5, offset: 53383},
+													pos:   position{line: 1648, col: 5, offset: 53491},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1540, col: 5, offset: 49901},
+														pos: position{line: 1544, col: 5, offset: 50009},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1540, col: 5, offset: 49901},
+															pos: position{line: 1544, col: 5, offset: 50009},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1540, col: 5, offset: 49901},
+																	pos:   position{line: 1544, col: 5, offset: 50009},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1540, col: 14, offset: 49910},
+																		pos: position{line: 1544, col: 14, offset: 50018},
 																		expr: &actionExpr{
-																			pos: position{line: 1540, col: 15, offset: 49911},
+																			pos: position{line: 1544, col: 15, offset: 50019},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1540, col: 15, offset: 49911},
+																				pos: position{line: 1544, col: 15, offset: 50019},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1540, col: 15, offset: 49911},
+																					pos:        position{line: 1544, col: 15, offset: 50019},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25558,28 +25580,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25588,9 +25610,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -25603,36 +25625,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1733, col: 5, offset: 55937},
+										pos: position{line: 1737, col: 5, offset: 56045},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1733, col: 5, offset: 55937},
+											pos: position{line: 1737, col: 5, offset: 56045},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1733, col: 5, offset: 55937},
+													pos:   position{line: 1737, col: 5, offset: 56045},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1739, col: 5, offset: 56134},
+														pos: position{line: 1743, col: 5, offset: 56242},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1739, col: 5, offset: 56134},
+															pos: position{line: 1743, col: 5, offset: 56242},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1739, col: 5, offset: 56134},
+																	pos:        position{line: 1743, col: 5, offset: 56242},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1739, col: 9, offset: 56138},
+																	pos:   position{line: 1743, col: 9, offset: 56246},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1739, col: 14, offset: 56143},
+																		pos: position{line: 1743, col: 14, offset: 56251},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1739, col: 14, offset: 56143},
+																			pos: position{line: 1743, col: 14, offset: 56251},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1739, col: 14, offset: 56143},
+																				pos:        position{line: 1743, col: 14, offset: 56251},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25642,18 +25664,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1739, col: 62, offset: 56191},
+																	pos:        position{line: 1743, col: 62, offset: 56299},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2896, col: 11, offset: 91530},
+																	pos: position{line: 2900, col: 11, offset: 91638},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2896, col: 11, offset: 91530},
+																		pos: position{line: 2900, col: 11, offset: 91638},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 11, offset: 91530},
+																			pos:        position{line: 2900, col: 11, offset: 91638},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25666,26 +25688,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1734, col: 5, offset: 55973},
+													pos:   position{line: 1738, col: 5, offset: 56081},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1540, col: 5, offset: 49901},
+														pos: position{line: 1544, col: 5, offset: 50009},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1540, col: 5, offset: 49901},
+															pos: position{line: 1544, col: 5, offset: 50009},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1540, col: 5, offset: 49901},
+																	pos:   position{line: 1544, col: 5, offset: 50009},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1540, col: 14, offset: 49910},
+																		pos: position{line: 1544, col: 14, offset: 50018},
 																		expr: &actionExpr{
-																			pos: position{line: 1540, col: 15, offset: 49911},
+																			pos: position{line: 1544, col: 15, offset: 50019},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1540, col: 15, offset: 49911},
+																				pos: position{line: 1544, col: 15, offset: 50019},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1540, col: 15, offset: 49911},
+																					pos:        position{line: 1544, col: 15, offset: 50019},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25696,28 +25718,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25726,9 +25748,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -25741,35 +25763,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1676, col: 5, offset: 54258},
+										pos: position{line: 1680, col: 5, offset: 54366},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1676, col: 5, offset: 54258},
+											pos: position{line: 1680, col: 5, offset: 54366},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1676, col: 5, offset: 54258},
+													pos:   position{line: 1680, col: 5, offset: 54366},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1684, col: 5, offset: 54584},
+														pos: position{line: 1688, col: 5, offset: 54692},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1684, col: 5, offset: 54584},
+															pos: position{line: 1688, col: 5, offset: 54692},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1684, col: 5, offset: 54584},
+																	pos: position{line: 1688, col: 5, offset: 54692},
 																	expr: &seqExpr{
-																		pos: position{line: 2498, col: 31, offset: 80450},
+																		pos: position{line: 2502, col: 31, offset: 80558},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2498, col: 31, offset: 80450},
+																				pos:        position{line: 2502, col: 31, offset: 80558},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2498, col: 36, offset: 80455},
+																				pos: position{line: 2502, col: 36, offset: 80563},
 																				expr: &litMatcher{
-																					pos:        position{line: 2498, col: 37, offset: 80456},
+																					pos:        position{line: 2502, col: 37, offset: 80564},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -25779,28 +25801,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1685, col: 5, offset: 54616},
+																	pos: position{line: 1689, col: 5, offset: 54724},
 																	expr: &seqExpr{
-																		pos: position{line: 1685, col: 6, offset: 54617},
+																		pos: position{line: 1689, col: 6, offset: 54725},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1685, col: 6, offset: 54617},
+																				pos: position{line: 1689, col: 6, offset: 54725},
 																				expr: &actionExpr{
-																					pos: position{line: 1690, col: 5, offset: 54767},
+																					pos: position{line: 1694, col: 5, offset: 54875},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1690, col: 5, offset: 54767},
+																						pos: position{line: 1694, col: 5, offset: 54875},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1690, col: 5, offset: 54767},
+																								pos:   position{line: 1694, col: 5, offset: 54875},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1690, col: 16, offset: 54778},
+																									pos: position{line: 1694, col: 16, offset: 54886},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1690, col: 16, offset: 54778},
+																										pos: position{line: 1694, col: 16, offset: 54886},
 																										expr: &litMatcher{
-																											pos:        position{line: 1690, col: 17, offset: 54779},
+																											pos:        position{line: 1694, col: 17, offset: 54887},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -25809,7 +25831,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1693, col: 5, offset: 54836},
+																								pos: position{line: 1697, col: 5, offset: 54944},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -25817,30 +25839,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1685, col: 35, offset: 54646},
+																				pos: position{line: 1689, col: 35, offset: 54754},
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 8, offset: 91867},
+																					pos: position{line: 2918, col: 8, offset: 91975},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2901, col: 12, offset: 91640},
+																							pos: position{line: 2905, col: 12, offset: 91748},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2901, col: 13, offset: 91641},
+																								pos: position{line: 2905, col: 13, offset: 91749},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 13, offset: 91641},
+																										pos:        position{line: 2905, col: 13, offset: 91749},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 20, offset: 91648},
+																										pos:        position{line: 2905, col: 20, offset: 91756},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 29, offset: 91657},
+																										pos:        position{line: 2905, col: 29, offset: 91765},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25849,16 +25871,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2911, col: 8, offset: 91817},
+																							pos: position{line: 2915, col: 8, offset: 91925},
 																							expr: &anyMatcher{
-																								line: 2911, col: 9, offset: 91818,
+																								line: 2915, col: 9, offset: 91926,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1685, col: 40, offset: 54651,
+																				line: 1689, col: 40, offset: 54759,
 																			},
 																		},
 																	},
@@ -25868,24 +25890,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1677, col: 5, offset: 54293},
+													pos:   position{line: 1681, col: 5, offset: 54401},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1690, col: 5, offset: 54767},
+														pos: position{line: 1694, col: 5, offset: 54875},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1690, col: 5, offset: 54767},
+															pos: position{line: 1694, col: 5, offset: 54875},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1690, col: 5, offset: 54767},
+																	pos:   position{line: 1694, col: 5, offset: 54875},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1690, col: 16, offset: 54778},
+																		pos: position{line: 1694, col: 16, offset: 54886},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1690, col: 16, offset: 54778},
+																			pos: position{line: 1694, col: 16, offset: 54886},
 																			expr: &litMatcher{
-																				pos:        position{line: 1690, col: 17, offset: 54779},
+																				pos:        position{line: 1694, col: 17, offset: 54887},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25894,7 +25916,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1693, col: 5, offset: 54836},
+																	pos: position{line: 1697, col: 5, offset: 54944},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -25902,24 +25924,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1678, col: 5, offset: 54338},
+													pos:   position{line: 1682, col: 5, offset: 54446},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1701, col: 5, offset: 55085},
+														pos: position{line: 1705, col: 5, offset: 55193},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1703, col: 9, offset: 55151},
+																pos: position{line: 1707, col: 9, offset: 55259},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1703, col: 9, offset: 55151},
+																	pos: position{line: 1707, col: 9, offset: 55259},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1703, col: 9, offset: 55151},
+																			pos: position{line: 1707, col: 9, offset: 55259},
 																			expr: &actionExpr{
-																				pos: position{line: 2892, col: 10, offset: 91469},
+																				pos: position{line: 2896, col: 10, offset: 91577},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2892, col: 10, offset: 91469},
+																					pos:        position{line: 2896, col: 10, offset: 91577},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25928,28 +25950,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2914, col: 8, offset: 91867},
+																			pos: position{line: 2918, col: 8, offset: 91975},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2901, col: 12, offset: 91640},
+																					pos: position{line: 2905, col: 12, offset: 91748},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2901, col: 13, offset: 91641},
+																						pos: position{line: 2905, col: 13, offset: 91749},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 13, offset: 91641},
+																								pos:        position{line: 2905, col: 13, offset: 91749},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 20, offset: 91648},
+																								pos:        position{line: 2905, col: 20, offset: 91756},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 29, offset: 91657},
+																								pos:        position{line: 2905, col: 29, offset: 91765},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25958,15 +25980,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1704, col: 9, offset: 55170},
+																			pos: position{line: 1708, col: 9, offset: 55278},
 																			expr: &actionExpr{
 																				pos: position{line: 687, col: 14, offset: 21835},
 																				run: (*parser).callonListElements199,
@@ -25974,18 +25996,18 @@ var g = &grammar{
 																					pos: position{line: 687, col: 14, offset: 21835},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2909, col: 11, offset: 91803},
+																							pos: position{line: 2913, col: 11, offset: 91911},
 																							expr: &anyMatcher{
-																								line: 2909, col: 13, offset: 91805,
+																								line: 2913, col: 13, offset: 91913,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 687, col: 21, offset: 21842},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -25994,28 +26016,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26024,9 +26046,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -26039,18 +26061,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1710, col: 9, offset: 55299},
+																pos: position{line: 1714, col: 9, offset: 55407},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1710, col: 9, offset: 55299},
+																	pos: position{line: 1714, col: 9, offset: 55407},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2896, col: 11, offset: 91530},
+																			pos: position{line: 2900, col: 11, offset: 91638},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2896, col: 11, offset: 91530},
+																				pos: position{line: 2900, col: 11, offset: 91638},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2896, col: 11, offset: 91530},
+																					pos:        position{line: 2900, col: 11, offset: 91638},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26059,15 +26081,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1711, col: 9, offset: 55372},
+																			pos:   position{line: 1715, col: 9, offset: 55480},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1711, col: 18, offset: 55381},
+																				pos: position{line: 1715, col: 18, offset: 55489},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1711, col: 18, offset: 55381},
+																					pos: position{line: 1715, col: 18, offset: 55489},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1711, col: 18, offset: 55381},
+																						pos:        position{line: 1715, col: 18, offset: 55489},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -26077,28 +26099,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2914, col: 8, offset: 91867},
+																			pos: position{line: 2918, col: 8, offset: 91975},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2901, col: 12, offset: 91640},
+																					pos: position{line: 2905, col: 12, offset: 91748},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2901, col: 13, offset: 91641},
+																						pos: position{line: 2905, col: 13, offset: 91749},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 13, offset: 91641},
+																								pos:        position{line: 2905, col: 13, offset: 91749},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 20, offset: 91648},
+																								pos:        position{line: 2905, col: 20, offset: 91756},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 29, offset: 91657},
+																								pos:        position{line: 2905, col: 29, offset: 91765},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26107,9 +26129,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
@@ -26127,10 +26149,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1494, col: 5, offset: 48290},
+							pos:   position{line: 1498, col: 5, offset: 48398},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1494, col: 20, offset: 48305},
+								pos:  position{line: 1498, col: 20, offset: 48413},
 								name: "ExtraListElements",
 							},
 						},
@@ -26140,17 +26162,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1504, col: 1, offset: 48560},
+			pos:  position{line: 1508, col: 1, offset: 48668},
 			expr: &actionExpr{
-				pos: position{line: 1504, col: 22, offset: 48581},
+				pos: position{line: 1508, col: 22, offset: 48689},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1504, col: 22, offset: 48581},
+					pos:   position{line: 1508, col: 22, offset: 48689},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1504, col: 31, offset: 48590},
+						pos: position{line: 1508, col: 31, offset: 48698},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1504, col: 32, offset: 48591},
+							pos:  position{line: 1508, col: 32, offset: 48699},
 							name: "ExtraListElement",
 						},
 					},
@@ -26159,33 +26181,33 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1508, col: 1, offset: 48671},
+			pos:  position{line: 1512, col: 1, offset: 48779},
 			expr: &actionExpr{
-				pos: position{line: 1509, col: 5, offset: 48810},
+				pos: position{line: 1513, col: 5, offset: 48918},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1509, col: 5, offset: 48810},
+					pos: position{line: 1513, col: 5, offset: 48918},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2909, col: 11, offset: 91803},
+							pos: position{line: 2913, col: 11, offset: 91911},
 							expr: &anyMatcher{
-								line: 2909, col: 13, offset: 91805,
+								line: 2913, col: 13, offset: 91913,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1510, col: 5, offset: 48822},
+							pos:   position{line: 1514, col: 5, offset: 48930},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1511, col: 9, offset: 48840},
+								pos: position{line: 1515, col: 9, offset: 48948},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1511, col: 13, offset: 48844},
+										pos: position{line: 1515, col: 13, offset: 48952},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1511, col: 13, offset: 48844},
+											pos: position{line: 1515, col: 13, offset: 48952},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1511, col: 13, offset: 48844},
+													pos: position{line: 1515, col: 13, offset: 48952},
 													expr: &actionExpr{
 														pos: position{line: 687, col: 14, offset: 21835},
 														run: (*parser).callonExtraListElement10,
@@ -26193,18 +26215,18 @@ var g = &grammar{
 															pos: position{line: 687, col: 14, offset: 21835},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2909, col: 11, offset: 91803},
+																	pos: position{line: 2913, col: 11, offset: 91911},
 																	expr: &anyMatcher{
-																		line: 2909, col: 13, offset: 91805,
+																		line: 2913, col: 13, offset: 91913,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 687, col: 21, offset: 21842},
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 10, offset: 91469},
+																		pos: position{line: 2896, col: 10, offset: 91577},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 10, offset: 91469},
+																			pos:        position{line: 2896, col: 10, offset: 91577},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26213,28 +26235,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26243,9 +26265,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -26255,33 +26277,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1512, col: 13, offset: 48868},
+													pos:   position{line: 1516, col: 13, offset: 48976},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1512, col: 22, offset: 48877},
+														pos: position{line: 1516, col: 22, offset: 48985},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1592, col: 5, offset: 51395},
+																pos: position{line: 1596, col: 5, offset: 51503},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1592, col: 5, offset: 51395},
+																	pos: position{line: 1596, col: 5, offset: 51503},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1592, col: 5, offset: 51395},
+																			pos:   position{line: 1596, col: 5, offset: 51503},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1599, col: 5, offset: 51603},
+																				pos: position{line: 1603, col: 5, offset: 51711},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1599, col: 5, offset: 51603},
+																					pos: position{line: 1603, col: 5, offset: 51711},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1599, col: 5, offset: 51603},
+																							pos: position{line: 1603, col: 5, offset: 51711},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26290,27 +26312,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1599, col: 12, offset: 51610},
+																							pos:   position{line: 1603, col: 12, offset: 51718},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1601, col: 9, offset: 51673},
+																								pos: position{line: 1605, col: 9, offset: 51781},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1601, col: 9, offset: 51673},
+																										pos: position{line: 1605, col: 9, offset: 51781},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1601, col: 9, offset: 51673},
+																											pos: position{line: 1605, col: 9, offset: 51781},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1601, col: 9, offset: 51673},
+																													pos:   position{line: 1605, col: 9, offset: 51781},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1601, col: 16, offset: 51680},
+																														pos: position{line: 1605, col: 16, offset: 51788},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1601, col: 16, offset: 51680},
+																															pos: position{line: 1605, col: 16, offset: 51788},
 																															expr: &litMatcher{
-																																pos:        position{line: 1601, col: 17, offset: 51681},
+																																pos:        position{line: 1605, col: 17, offset: 51789},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26319,22 +26341,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1605, col: 9, offset: 51781},
+																													pos: position{line: 1609, col: 9, offset: 51889},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1624, col: 11, offset: 52498},
+																										pos: position{line: 1628, col: 11, offset: 52606},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1624, col: 11, offset: 52498},
+																											pos: position{line: 1628, col: 11, offset: 52606},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1624, col: 11, offset: 52498},
+																													pos: position{line: 1628, col: 11, offset: 52606},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1624, col: 12, offset: 52499},
+																														pos:        position{line: 1628, col: 12, offset: 52607},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26342,7 +26364,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1624, col: 20, offset: 52507},
+																													pos:        position{line: 1628, col: 20, offset: 52615},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26351,20 +26373,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1626, col: 13, offset: 52624},
+																										pos: position{line: 1630, col: 13, offset: 52732},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1626, col: 13, offset: 52624},
+																											pos: position{line: 1630, col: 13, offset: 52732},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1626, col: 14, offset: 52625},
+																													pos:        position{line: 1630, col: 14, offset: 52733},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1626, col: 21, offset: 52632},
+																													pos:        position{line: 1630, col: 21, offset: 52740},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26373,20 +26395,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1628, col: 13, offset: 52752},
+																										pos: position{line: 1632, col: 13, offset: 52860},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1628, col: 13, offset: 52752},
+																											pos: position{line: 1632, col: 13, offset: 52860},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1628, col: 14, offset: 52753},
+																													pos:        position{line: 1632, col: 14, offset: 52861},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1628, col: 21, offset: 52760},
+																													pos:        position{line: 1632, col: 21, offset: 52868},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26395,15 +26417,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1630, col: 13, offset: 52880},
+																										pos: position{line: 1634, col: 13, offset: 52988},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1630, col: 13, offset: 52880},
+																											pos: position{line: 1634, col: 13, offset: 52988},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1630, col: 13, offset: 52880},
+																													pos: position{line: 1634, col: 13, offset: 52988},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1630, col: 14, offset: 52881},
+																														pos:        position{line: 1634, col: 14, offset: 52989},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26411,7 +26433,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1630, col: 26, offset: 52893},
+																													pos:        position{line: 1634, col: 26, offset: 53001},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26420,15 +26442,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1632, col: 13, offset: 53013},
+																										pos: position{line: 1636, col: 13, offset: 53121},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1632, col: 13, offset: 53013},
+																											pos: position{line: 1636, col: 13, offset: 53121},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1632, col: 13, offset: 53013},
+																													pos: position{line: 1636, col: 13, offset: 53121},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1632, col: 14, offset: 53014},
+																														pos:        position{line: 1636, col: 14, offset: 53122},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26436,7 +26458,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1632, col: 26, offset: 53026},
+																													pos:        position{line: 1636, col: 26, offset: 53134},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26448,12 +26470,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2896, col: 11, offset: 91530},
+																							pos: position{line: 2900, col: 11, offset: 91638},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2896, col: 11, offset: 91530},
+																								pos: position{line: 2900, col: 11, offset: 91638},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 11, offset: 91530},
+																									pos:        position{line: 2900, col: 11, offset: 91638},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26466,26 +26488,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1593, col: 5, offset: 51434},
+																			pos:   position{line: 1597, col: 5, offset: 51542},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1540, col: 5, offset: 49901},
+																				pos: position{line: 1544, col: 5, offset: 50009},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1540, col: 5, offset: 49901},
+																					pos: position{line: 1544, col: 5, offset: 50009},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1540, col: 5, offset: 49901},
+																							pos:   position{line: 1544, col: 5, offset: 50009},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1540, col: 14, offset: 49910},
+																								pos: position{line: 1544, col: 14, offset: 50018},
 																								expr: &actionExpr{
-																									pos: position{line: 1540, col: 15, offset: 49911},
+																									pos: position{line: 1544, col: 15, offset: 50019},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1540, col: 15, offset: 49911},
+																										pos: position{line: 1544, col: 15, offset: 50019},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1540, col: 15, offset: 49911},
+																											pos:        position{line: 1544, col: 15, offset: 50019},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26496,28 +26518,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26526,9 +26548,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -26541,27 +26563,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1642, col: 5, offset: 53292},
+																pos: position{line: 1646, col: 5, offset: 53400},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1642, col: 5, offset: 53292},
+																	pos: position{line: 1646, col: 5, offset: 53400},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1642, col: 5, offset: 53292},
+																			pos:   position{line: 1646, col: 5, offset: 53400},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1649, col: 5, offset: 53565},
+																				pos: position{line: 1653, col: 5, offset: 53673},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1649, col: 5, offset: 53565},
+																					pos: position{line: 1653, col: 5, offset: 53673},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1649, col: 5, offset: 53565},
+																							pos: position{line: 1653, col: 5, offset: 53673},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26570,24 +26592,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1650, col: 5, offset: 53577},
+																							pos:   position{line: 1654, col: 5, offset: 53685},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1651, col: 9, offset: 53593},
+																								pos: position{line: 1655, col: 9, offset: 53701},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1651, col: 10, offset: 53594},
+																									pos: position{line: 1655, col: 10, offset: 53702},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1651, col: 11, offset: 53595},
+																											pos:        position{line: 1655, col: 11, offset: 53703},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1651, col: 18, offset: 53602},
+																											pos: position{line: 1655, col: 18, offset: 53710},
 																											expr: &litMatcher{
-																												pos:        position{line: 1651, col: 19, offset: 53603},
+																												pos:        position{line: 1655, col: 19, offset: 53711},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26598,16 +26620,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1654, col: 7, offset: 53693},
+																							pos: position{line: 1658, col: 7, offset: 53801},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2896, col: 11, offset: 91530},
+																							pos: position{line: 2900, col: 11, offset: 91638},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2896, col: 11, offset: 91530},
+																								pos: position{line: 2900, col: 11, offset: 91638},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 11, offset: 91530},
+																									pos:        position{line: 2900, col: 11, offset: 91638},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26620,56 +26642,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1643, col: 5, offset: 53333},
+																			pos:   position{line: 1647, col: 5, offset: 53441},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1643, col: 16, offset: 53344},
+																				pos: position{line: 1647, col: 16, offset: 53452},
 																				expr: &actionExpr{
-																					pos: position{line: 1664, col: 5, offset: 53958},
+																					pos: position{line: 1668, col: 5, offset: 54066},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1664, col: 5, offset: 53958},
+																						pos: position{line: 1668, col: 5, offset: 54066},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1664, col: 5, offset: 53958},
+																								pos: position{line: 1668, col: 5, offset: 54066},
 																								expr: &litMatcher{
-																									pos:        position{line: 1664, col: 6, offset: 53959},
+																									pos:        position{line: 1668, col: 6, offset: 54067},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1664, col: 10, offset: 53963},
+																								pos:   position{line: 1668, col: 10, offset: 54071},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1665, col: 7, offset: 53977},
+																									pos: position{line: 1669, col: 7, offset: 54085},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1665, col: 7, offset: 53977},
+																											pos: position{line: 1669, col: 7, offset: 54085},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1665, col: 7, offset: 53977},
+																												pos:        position{line: 1669, col: 7, offset: 54085},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1666, col: 7, offset: 54022},
+																											pos: position{line: 1670, col: 7, offset: 54130},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1666, col: 7, offset: 54022},
+																												pos:        position{line: 1670, col: 7, offset: 54130},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1667, col: 7, offset: 54065},
+																											pos: position{line: 1671, col: 7, offset: 54173},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1667, col: 7, offset: 54065},
+																												pos:        position{line: 1671, col: 7, offset: 54173},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26679,12 +26701,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2896, col: 11, offset: 91530},
+																								pos: position{line: 2900, col: 11, offset: 91638},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2896, col: 11, offset: 91530},
+																									pos: position{line: 2900, col: 11, offset: 91638},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2896, col: 11, offset: 91530},
+																										pos:        position{line: 2900, col: 11, offset: 91638},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26698,26 +26720,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1644, col: 5, offset: 53383},
+																			pos:   position{line: 1648, col: 5, offset: 53491},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1540, col: 5, offset: 49901},
+																				pos: position{line: 1544, col: 5, offset: 50009},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1540, col: 5, offset: 49901},
+																					pos: position{line: 1544, col: 5, offset: 50009},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1540, col: 5, offset: 49901},
+																							pos:   position{line: 1544, col: 5, offset: 50009},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1540, col: 14, offset: 49910},
+																								pos: position{line: 1544, col: 14, offset: 50018},
 																								expr: &actionExpr{
-																									pos: position{line: 1540, col: 15, offset: 49911},
+																									pos: position{line: 1544, col: 15, offset: 50019},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1540, col: 15, offset: 49911},
+																										pos: position{line: 1544, col: 15, offset: 50019},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1540, col: 15, offset: 49911},
+																											pos:        position{line: 1544, col: 15, offset: 50019},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26728,28 +26750,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26758,9 +26780,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -26773,36 +26795,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1733, col: 5, offset: 55937},
+																pos: position{line: 1737, col: 5, offset: 56045},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1733, col: 5, offset: 55937},
+																	pos: position{line: 1737, col: 5, offset: 56045},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1733, col: 5, offset: 55937},
+																			pos:   position{line: 1737, col: 5, offset: 56045},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1739, col: 5, offset: 56134},
+																				pos: position{line: 1743, col: 5, offset: 56242},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1739, col: 5, offset: 56134},
+																					pos: position{line: 1743, col: 5, offset: 56242},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1739, col: 5, offset: 56134},
+																							pos:        position{line: 1743, col: 5, offset: 56242},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1739, col: 9, offset: 56138},
+																							pos:   position{line: 1743, col: 9, offset: 56246},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1739, col: 14, offset: 56143},
+																								pos: position{line: 1743, col: 14, offset: 56251},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1739, col: 14, offset: 56143},
+																									pos: position{line: 1743, col: 14, offset: 56251},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1739, col: 14, offset: 56143},
+																										pos:        position{line: 1743, col: 14, offset: 56251},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26812,18 +26834,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1739, col: 62, offset: 56191},
+																							pos:        position{line: 1743, col: 62, offset: 56299},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2896, col: 11, offset: 91530},
+																							pos: position{line: 2900, col: 11, offset: 91638},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2896, col: 11, offset: 91530},
+																								pos: position{line: 2900, col: 11, offset: 91638},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 11, offset: 91530},
+																									pos:        position{line: 2900, col: 11, offset: 91638},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26836,26 +26858,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1734, col: 5, offset: 55973},
+																			pos:   position{line: 1738, col: 5, offset: 56081},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1540, col: 5, offset: 49901},
+																				pos: position{line: 1544, col: 5, offset: 50009},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1540, col: 5, offset: 49901},
+																					pos: position{line: 1544, col: 5, offset: 50009},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1540, col: 5, offset: 49901},
+																							pos:   position{line: 1544, col: 5, offset: 50009},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1540, col: 14, offset: 49910},
+																								pos: position{line: 1544, col: 14, offset: 50018},
 																								expr: &actionExpr{
-																									pos: position{line: 1540, col: 15, offset: 49911},
+																									pos: position{line: 1544, col: 15, offset: 50019},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1540, col: 15, offset: 49911},
+																										pos: position{line: 1544, col: 15, offset: 50019},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1540, col: 15, offset: 49911},
+																											pos:        position{line: 1544, col: 15, offset: 50019},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26866,28 +26888,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26896,9 +26918,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -26911,35 +26933,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1676, col: 5, offset: 54258},
+																pos: position{line: 1680, col: 5, offset: 54366},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1676, col: 5, offset: 54258},
+																	pos: position{line: 1680, col: 5, offset: 54366},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1676, col: 5, offset: 54258},
+																			pos:   position{line: 1680, col: 5, offset: 54366},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1684, col: 5, offset: 54584},
+																				pos: position{line: 1688, col: 5, offset: 54692},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1684, col: 5, offset: 54584},
+																					pos: position{line: 1688, col: 5, offset: 54692},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1684, col: 5, offset: 54584},
+																							pos: position{line: 1688, col: 5, offset: 54692},
 																							expr: &seqExpr{
-																								pos: position{line: 2498, col: 31, offset: 80450},
+																								pos: position{line: 2502, col: 31, offset: 80558},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2498, col: 31, offset: 80450},
+																										pos:        position{line: 2502, col: 31, offset: 80558},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2498, col: 36, offset: 80455},
+																										pos: position{line: 2502, col: 36, offset: 80563},
 																										expr: &litMatcher{
-																											pos:        position{line: 2498, col: 37, offset: 80456},
+																											pos:        position{line: 2502, col: 37, offset: 80564},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -26949,28 +26971,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1685, col: 5, offset: 54616},
+																							pos: position{line: 1689, col: 5, offset: 54724},
 																							expr: &seqExpr{
-																								pos: position{line: 1685, col: 6, offset: 54617},
+																								pos: position{line: 1689, col: 6, offset: 54725},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1685, col: 6, offset: 54617},
+																										pos: position{line: 1689, col: 6, offset: 54725},
 																										expr: &actionExpr{
-																											pos: position{line: 1690, col: 5, offset: 54767},
+																											pos: position{line: 1694, col: 5, offset: 54875},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1690, col: 5, offset: 54767},
+																												pos: position{line: 1694, col: 5, offset: 54875},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1690, col: 5, offset: 54767},
+																														pos:   position{line: 1694, col: 5, offset: 54875},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1690, col: 16, offset: 54778},
+																															pos: position{line: 1694, col: 16, offset: 54886},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1690, col: 16, offset: 54778},
+																																pos: position{line: 1694, col: 16, offset: 54886},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1690, col: 17, offset: 54779},
+																																	pos:        position{line: 1694, col: 17, offset: 54887},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -26979,7 +27001,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1693, col: 5, offset: 54836},
+																														pos: position{line: 1697, col: 5, offset: 54944},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -26987,30 +27009,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1685, col: 35, offset: 54646},
+																										pos: position{line: 1689, col: 35, offset: 54754},
 																										expr: &choiceExpr{
-																											pos: position{line: 2914, col: 8, offset: 91867},
+																											pos: position{line: 2918, col: 8, offset: 91975},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2901, col: 12, offset: 91640},
+																													pos: position{line: 2905, col: 12, offset: 91748},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2901, col: 13, offset: 91641},
+																														pos: position{line: 2905, col: 13, offset: 91749},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 13, offset: 91641},
+																																pos:        position{line: 2905, col: 13, offset: 91749},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 20, offset: 91648},
+																																pos:        position{line: 2905, col: 20, offset: 91756},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 29, offset: 91657},
+																																pos:        position{line: 2905, col: 29, offset: 91765},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27019,16 +27041,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2911, col: 8, offset: 91817},
+																													pos: position{line: 2915, col: 8, offset: 91925},
 																													expr: &anyMatcher{
-																														line: 2911, col: 9, offset: 91818,
+																														line: 2915, col: 9, offset: 91926,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1685, col: 40, offset: 54651,
+																										line: 1689, col: 40, offset: 54759,
 																									},
 																								},
 																							},
@@ -27038,24 +27060,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1677, col: 5, offset: 54293},
+																			pos:   position{line: 1681, col: 5, offset: 54401},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1690, col: 5, offset: 54767},
+																				pos: position{line: 1694, col: 5, offset: 54875},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1690, col: 5, offset: 54767},
+																					pos: position{line: 1694, col: 5, offset: 54875},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1690, col: 5, offset: 54767},
+																							pos:   position{line: 1694, col: 5, offset: 54875},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1690, col: 16, offset: 54778},
+																								pos: position{line: 1694, col: 16, offset: 54886},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1690, col: 16, offset: 54778},
+																									pos: position{line: 1694, col: 16, offset: 54886},
 																									expr: &litMatcher{
-																										pos:        position{line: 1690, col: 17, offset: 54779},
+																										pos:        position{line: 1694, col: 17, offset: 54887},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27064,7 +27086,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1693, col: 5, offset: 54836},
+																							pos: position{line: 1697, col: 5, offset: 54944},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -27072,24 +27094,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1678, col: 5, offset: 54338},
+																			pos:   position{line: 1682, col: 5, offset: 54446},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1701, col: 5, offset: 55085},
+																				pos: position{line: 1705, col: 5, offset: 55193},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1703, col: 9, offset: 55151},
+																						pos: position{line: 1707, col: 9, offset: 55259},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1703, col: 9, offset: 55151},
+																							pos: position{line: 1707, col: 9, offset: 55259},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1703, col: 9, offset: 55151},
+																									pos: position{line: 1707, col: 9, offset: 55259},
 																									expr: &actionExpr{
-																										pos: position{line: 2892, col: 10, offset: 91469},
+																										pos: position{line: 2896, col: 10, offset: 91577},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2892, col: 10, offset: 91469},
+																											pos:        position{line: 2896, col: 10, offset: 91577},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27098,28 +27120,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2914, col: 8, offset: 91867},
+																									pos: position{line: 2918, col: 8, offset: 91975},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2901, col: 12, offset: 91640},
+																											pos: position{line: 2905, col: 12, offset: 91748},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2901, col: 13, offset: 91641},
+																												pos: position{line: 2905, col: 13, offset: 91749},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2901, col: 13, offset: 91641},
+																														pos:        position{line: 2905, col: 13, offset: 91749},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2901, col: 20, offset: 91648},
+																														pos:        position{line: 2905, col: 20, offset: 91756},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2901, col: 29, offset: 91657},
+																														pos:        position{line: 2905, col: 29, offset: 91765},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27128,15 +27150,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2911, col: 8, offset: 91817},
+																											pos: position{line: 2915, col: 8, offset: 91925},
 																											expr: &anyMatcher{
-																												line: 2911, col: 9, offset: 91818,
+																												line: 2915, col: 9, offset: 91926,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1704, col: 9, offset: 55170},
+																									pos: position{line: 1708, col: 9, offset: 55278},
 																									expr: &actionExpr{
 																										pos: position{line: 687, col: 14, offset: 21835},
 																										run: (*parser).callonExtraListElement221,
@@ -27144,18 +27166,18 @@ var g = &grammar{
 																											pos: position{line: 687, col: 14, offset: 21835},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2909, col: 11, offset: 91803},
+																													pos: position{line: 2913, col: 11, offset: 91911},
 																													expr: &anyMatcher{
-																														line: 2909, col: 13, offset: 91805,
+																														line: 2913, col: 13, offset: 91913,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 687, col: 21, offset: 21842},
 																													expr: &actionExpr{
-																														pos: position{line: 2892, col: 10, offset: 91469},
+																														pos: position{line: 2896, col: 10, offset: 91577},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2892, col: 10, offset: 91469},
+																															pos:        position{line: 2896, col: 10, offset: 91577},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27164,28 +27186,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2914, col: 8, offset: 91867},
+																													pos: position{line: 2918, col: 8, offset: 91975},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2901, col: 12, offset: 91640},
+																															pos: position{line: 2905, col: 12, offset: 91748},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2901, col: 13, offset: 91641},
+																																pos: position{line: 2905, col: 13, offset: 91749},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2901, col: 13, offset: 91641},
+																																		pos:        position{line: 2905, col: 13, offset: 91749},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2901, col: 20, offset: 91648},
+																																		pos:        position{line: 2905, col: 20, offset: 91756},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2901, col: 29, offset: 91657},
+																																		pos:        position{line: 2905, col: 29, offset: 91765},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27194,9 +27216,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2911, col: 8, offset: 91817},
+																															pos: position{line: 2915, col: 8, offset: 91925},
 																															expr: &anyMatcher{
-																																line: 2911, col: 9, offset: 91818,
+																																line: 2915, col: 9, offset: 91926,
 																															},
 																														},
 																													},
@@ -27209,18 +27231,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1710, col: 9, offset: 55299},
+																						pos: position{line: 1714, col: 9, offset: 55407},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1710, col: 9, offset: 55299},
+																							pos: position{line: 1714, col: 9, offset: 55407},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2896, col: 11, offset: 91530},
+																									pos: position{line: 2900, col: 11, offset: 91638},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2896, col: 11, offset: 91530},
+																										pos: position{line: 2900, col: 11, offset: 91638},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2896, col: 11, offset: 91530},
+																											pos:        position{line: 2900, col: 11, offset: 91638},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27229,15 +27251,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1711, col: 9, offset: 55372},
+																									pos:   position{line: 1715, col: 9, offset: 55480},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1711, col: 18, offset: 55381},
+																										pos: position{line: 1715, col: 18, offset: 55489},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1711, col: 18, offset: 55381},
+																											pos: position{line: 1715, col: 18, offset: 55489},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1711, col: 18, offset: 55381},
+																												pos:        position{line: 1715, col: 18, offset: 55489},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27247,28 +27269,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2914, col: 8, offset: 91867},
+																									pos: position{line: 2918, col: 8, offset: 91975},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2901, col: 12, offset: 91640},
+																											pos: position{line: 2905, col: 12, offset: 91748},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2901, col: 13, offset: 91641},
+																												pos: position{line: 2905, col: 13, offset: 91749},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2901, col: 13, offset: 91641},
+																														pos:        position{line: 2905, col: 13, offset: 91749},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2901, col: 20, offset: 91648},
+																														pos:        position{line: 2905, col: 20, offset: 91756},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2901, col: 29, offset: 91657},
+																														pos:        position{line: 2905, col: 29, offset: 91765},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27277,9 +27299,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2911, col: 8, offset: 91817},
+																											pos: position{line: 2915, col: 8, offset: 91925},
 																											expr: &anyMatcher{
-																												line: 2911, col: 9, offset: 91818,
+																												line: 2915, col: 9, offset: 91926,
 																											},
 																										},
 																									},
@@ -27300,50 +27322,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1515, col: 13, offset: 49028},
+										pos: position{line: 1519, col: 13, offset: 49136},
 										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
-											pos: position{line: 1515, col: 13, offset: 49028},
+											pos: position{line: 1519, col: 13, offset: 49136},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1515, col: 13, offset: 49028},
+													pos:   position{line: 1519, col: 13, offset: 49136},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1515, col: 24, offset: 49039},
+														pos: position{line: 1519, col: 24, offset: 49147},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1515, col: 25, offset: 49040},
+															pos:  position{line: 1519, col: 25, offset: 49148},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1516, col: 13, offset: 49071},
+													pos:   position{line: 1520, col: 13, offset: 49179},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1516, col: 22, offset: 49080},
+														pos: position{line: 1520, col: 22, offset: 49188},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1592, col: 5, offset: 51395},
+																pos: position{line: 1596, col: 5, offset: 51503},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1592, col: 5, offset: 51395},
+																	pos: position{line: 1596, col: 5, offset: 51503},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1592, col: 5, offset: 51395},
+																			pos:   position{line: 1596, col: 5, offset: 51503},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1599, col: 5, offset: 51603},
+																				pos: position{line: 1603, col: 5, offset: 51711},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1599, col: 5, offset: 51603},
+																					pos: position{line: 1603, col: 5, offset: 51711},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1599, col: 5, offset: 51603},
+																							pos: position{line: 1603, col: 5, offset: 51711},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27352,27 +27374,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1599, col: 12, offset: 51610},
+																							pos:   position{line: 1603, col: 12, offset: 51718},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1601, col: 9, offset: 51673},
+																								pos: position{line: 1605, col: 9, offset: 51781},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1601, col: 9, offset: 51673},
+																										pos: position{line: 1605, col: 9, offset: 51781},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1601, col: 9, offset: 51673},
+																											pos: position{line: 1605, col: 9, offset: 51781},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1601, col: 9, offset: 51673},
+																													pos:   position{line: 1605, col: 9, offset: 51781},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1601, col: 16, offset: 51680},
+																														pos: position{line: 1605, col: 16, offset: 51788},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1601, col: 16, offset: 51680},
+																															pos: position{line: 1605, col: 16, offset: 51788},
 																															expr: &litMatcher{
-																																pos:        position{line: 1601, col: 17, offset: 51681},
+																																pos:        position{line: 1605, col: 17, offset: 51789},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27381,22 +27403,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1605, col: 9, offset: 51781},
+																													pos: position{line: 1609, col: 9, offset: 51889},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1624, col: 11, offset: 52498},
+																										pos: position{line: 1628, col: 11, offset: 52606},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1624, col: 11, offset: 52498},
+																											pos: position{line: 1628, col: 11, offset: 52606},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1624, col: 11, offset: 52498},
+																													pos: position{line: 1628, col: 11, offset: 52606},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1624, col: 12, offset: 52499},
+																														pos:        position{line: 1628, col: 12, offset: 52607},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27404,7 +27426,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1624, col: 20, offset: 52507},
+																													pos:        position{line: 1628, col: 20, offset: 52615},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27413,20 +27435,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1626, col: 13, offset: 52624},
+																										pos: position{line: 1630, col: 13, offset: 52732},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1626, col: 13, offset: 52624},
+																											pos: position{line: 1630, col: 13, offset: 52732},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1626, col: 14, offset: 52625},
+																													pos:        position{line: 1630, col: 14, offset: 52733},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1626, col: 21, offset: 52632},
+																													pos:        position{line: 1630, col: 21, offset: 52740},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27435,20 +27457,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1628, col: 13, offset: 52752},
+																										pos: position{line: 1632, col: 13, offset: 52860},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1628, col: 13, offset: 52752},
+																											pos: position{line: 1632, col: 13, offset: 52860},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1628, col: 14, offset: 52753},
+																													pos:        position{line: 1632, col: 14, offset: 52861},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1628, col: 21, offset: 52760},
+																													pos:        position{line: 1632, col: 21, offset: 52868},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27457,15 +27479,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1630, col: 13, offset: 52880},
+																										pos: position{line: 1634, col: 13, offset: 52988},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1630, col: 13, offset: 52880},
+																											pos: position{line: 1634, col: 13, offset: 52988},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1630, col: 13, offset: 52880},
+																													pos: position{line: 1634, col: 13, offset: 52988},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1630, col: 14, offset: 52881},
+																														pos:        position{line: 1634, col: 14, offset: 52989},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27473,7 +27495,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1630, col: 26, offset: 52893},
+																													pos:        position{line: 1634, col: 26, offset: 53001},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27482,15 +27504,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1632, col: 13, offset: 53013},
+																										pos: position{line: 1636, col: 13, offset: 53121},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1632, col: 13, offset: 53013},
+																											pos: position{line: 1636, col: 13, offset: 53121},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1632, col: 13, offset: 53013},
+																													pos: position{line: 1636, col: 13, offset: 53121},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1632, col: 14, offset: 53014},
+																														pos:        position{line: 1636, col: 14, offset: 53122},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27498,7 +27520,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1632, col: 26, offset: 53026},
+																													pos:        position{line: 1636, col: 26, offset: 53134},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27510,12 +27532,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2896, col: 11, offset: 91530},
+																							pos: position{line: 2900, col: 11, offset: 91638},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2896, col: 11, offset: 91530},
+																								pos: position{line: 2900, col: 11, offset: 91638},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 11, offset: 91530},
+																									pos:        position{line: 2900, col: 11, offset: 91638},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27528,26 +27550,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1593, col: 5, offset: 51434},
+																			pos:   position{line: 1597, col: 5, offset: 51542},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1540, col: 5, offset: 49901},
+																				pos: position{line: 1544, col: 5, offset: 50009},
 																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
-																					pos: position{line: 1540, col: 5, offset: 49901},
+																					pos: position{line: 1544, col: 5, offset: 50009},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1540, col: 5, offset: 49901},
+																							pos:   position{line: 1544, col: 5, offset: 50009},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1540, col: 14, offset: 49910},
+																								pos: position{line: 1544, col: 14, offset: 50018},
 																								expr: &actionExpr{
-																									pos: position{line: 1540, col: 15, offset: 49911},
+																									pos: position{line: 1544, col: 15, offset: 50019},
 																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1540, col: 15, offset: 49911},
+																										pos: position{line: 1544, col: 15, offset: 50019},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1540, col: 15, offset: 49911},
+																											pos:        position{line: 1544, col: 15, offset: 50019},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27558,28 +27580,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27588,9 +27610,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -27603,27 +27625,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1642, col: 5, offset: 53292},
+																pos: position{line: 1646, col: 5, offset: 53400},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1642, col: 5, offset: 53292},
+																	pos: position{line: 1646, col: 5, offset: 53400},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1642, col: 5, offset: 53292},
+																			pos:   position{line: 1646, col: 5, offset: 53400},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1649, col: 5, offset: 53565},
+																				pos: position{line: 1653, col: 5, offset: 53673},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1649, col: 5, offset: 53565},
+																					pos: position{line: 1653, col: 5, offset: 53673},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1649, col: 5, offset: 53565},
+																							pos: position{line: 1653, col: 5, offset: 53673},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27632,24 +27654,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1650, col: 5, offset: 53577},
+																							pos:   position{line: 1654, col: 5, offset: 53685},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1651, col: 9, offset: 53593},
+																								pos: position{line: 1655, col: 9, offset: 53701},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1651, col: 10, offset: 53594},
+																									pos: position{line: 1655, col: 10, offset: 53702},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1651, col: 11, offset: 53595},
+																											pos:        position{line: 1655, col: 11, offset: 53703},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1651, col: 18, offset: 53602},
+																											pos: position{line: 1655, col: 18, offset: 53710},
 																											expr: &litMatcher{
-																												pos:        position{line: 1651, col: 19, offset: 53603},
+																												pos:        position{line: 1655, col: 19, offset: 53711},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27660,16 +27682,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1654, col: 7, offset: 53693},
+																							pos: position{line: 1658, col: 7, offset: 53801},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2896, col: 11, offset: 91530},
+																							pos: position{line: 2900, col: 11, offset: 91638},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2896, col: 11, offset: 91530},
+																								pos: position{line: 2900, col: 11, offset: 91638},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 11, offset: 91530},
+																									pos:        position{line: 2900, col: 11, offset: 91638},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27682,56 +27704,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1643, col: 5, offset: 53333},
+																			pos:   position{line: 1647, col: 5, offset: 53441},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1643, col: 16, offset: 53344},
+																				pos: position{line: 1647, col: 16, offset: 53452},
 																				expr: &actionExpr{
-																					pos: position{line: 1664, col: 5, offset: 53958},
+																					pos: position{line: 1668, col: 5, offset: 54066},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1664, col: 5, offset: 53958},
+																						pos: position{line: 1668, col: 5, offset: 54066},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1664, col: 5, offset: 53958},
+																								pos: position{line: 1668, col: 5, offset: 54066},
 																								expr: &litMatcher{
-																									pos:        position{line: 1664, col: 6, offset: 53959},
+																									pos:        position{line: 1668, col: 6, offset: 54067},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1664, col: 10, offset: 53963},
+																								pos:   position{line: 1668, col: 10, offset: 54071},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1665, col: 7, offset: 53977},
+																									pos: position{line: 1669, col: 7, offset: 54085},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1665, col: 7, offset: 53977},
+																											pos: position{line: 1669, col: 7, offset: 54085},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1665, col: 7, offset: 53977},
+																												pos:        position{line: 1669, col: 7, offset: 54085},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1666, col: 7, offset: 54022},
+																											pos: position{line: 1670, col: 7, offset: 54130},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1666, col: 7, offset: 54022},
+																												pos:        position{line: 1670, col: 7, offset: 54130},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1667, col: 7, offset: 54065},
+																											pos: position{line: 1671, col: 7, offset: 54173},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1667, col: 7, offset: 54065},
+																												pos:        position{line: 1671, col: 7, offset: 54173},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27741,12 +27763,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2896, col: 11, offset: 91530},
+																								pos: position{line: 2900, col: 11, offset: 91638},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2896, col: 11, offset: 91530},
+																									pos: position{line: 2900, col: 11, offset: 91638},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2896, col: 11, offset: 91530},
+																										pos:        position{line: 2900, col: 11, offset: 91638},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27760,26 +27782,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1644, col: 5, offset: 53383},
+																			pos:   position{line: 1648, col: 5, offset: 53491},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1540, col: 5, offset: 49901},
+																				pos: position{line: 1544, col: 5, offset: 50009},
 																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
-																					pos: position{line: 1540, col: 5, offset: 49901},
+																					pos: position{line: 1544, col: 5, offset: 50009},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1540, col: 5, offset: 49901},
+																							pos:   position{line: 1544, col: 5, offset: 50009},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1540, col: 14, offset: 49910},
+																								pos: position{line: 1544, col: 14, offset: 50018},
 																								expr: &actionExpr{
-																									pos: position{line: 1540, col: 15, offset: 49911},
+																									pos: position{line: 1544, col: 15, offset: 50019},
 																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1540, col: 15, offset: 49911},
+																										pos: position{line: 1544, col: 15, offset: 50019},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1540, col: 15, offset: 49911},
+																											pos:        position{line: 1544, col: 15, offset: 50019},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27790,28 +27812,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27820,9 +27842,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -27835,36 +27857,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1733, col: 5, offset: 55937},
+																pos: position{line: 1737, col: 5, offset: 56045},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1733, col: 5, offset: 55937},
+																	pos: position{line: 1737, col: 5, offset: 56045},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1733, col: 5, offset: 55937},
+																			pos:   position{line: 1737, col: 5, offset: 56045},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1739, col: 5, offset: 56134},
+																				pos: position{line: 1743, col: 5, offset: 56242},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1739, col: 5, offset: 56134},
+																					pos: position{line: 1743, col: 5, offset: 56242},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1739, col: 5, offset: 56134},
+																							pos:        position{line: 1743, col: 5, offset: 56242},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1739, col: 9, offset: 56138},
+																							pos:   position{line: 1743, col: 9, offset: 56246},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1739, col: 14, offset: 56143},
+																								pos: position{line: 1743, col: 14, offset: 56251},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1739, col: 14, offset: 56143},
+																									pos: position{line: 1743, col: 14, offset: 56251},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1739, col: 14, offset: 56143},
+																										pos:        position{line: 1743, col: 14, offset: 56251},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27874,18 +27896,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1739, col: 62, offset: 56191},
+																							pos:        position{line: 1743, col: 62, offset: 56299},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2896, col: 11, offset: 91530},
+																							pos: position{line: 2900, col: 11, offset: 91638},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2896, col: 11, offset: 91530},
+																								pos: position{line: 2900, col: 11, offset: 91638},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 11, offset: 91530},
+																									pos:        position{line: 2900, col: 11, offset: 91638},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27898,26 +27920,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1734, col: 5, offset: 55973},
+																			pos:   position{line: 1738, col: 5, offset: 56081},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1540, col: 5, offset: 49901},
+																				pos: position{line: 1544, col: 5, offset: 50009},
 																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
-																					pos: position{line: 1540, col: 5, offset: 49901},
+																					pos: position{line: 1544, col: 5, offset: 50009},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1540, col: 5, offset: 49901},
+																							pos:   position{line: 1544, col: 5, offset: 50009},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1540, col: 14, offset: 49910},
+																								pos: position{line: 1544, col: 14, offset: 50018},
 																								expr: &actionExpr{
-																									pos: position{line: 1540, col: 15, offset: 49911},
+																									pos: position{line: 1544, col: 15, offset: 50019},
 																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1540, col: 15, offset: 49911},
+																										pos: position{line: 1544, col: 15, offset: 50019},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1540, col: 15, offset: 49911},
+																											pos:        position{line: 1544, col: 15, offset: 50019},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27928,28 +27950,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27958,9 +27980,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -27973,35 +27995,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1676, col: 5, offset: 54258},
+																pos: position{line: 1680, col: 5, offset: 54366},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1676, col: 5, offset: 54258},
+																	pos: position{line: 1680, col: 5, offset: 54366},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1676, col: 5, offset: 54258},
+																			pos:   position{line: 1680, col: 5, offset: 54366},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1684, col: 5, offset: 54584},
+																				pos: position{line: 1688, col: 5, offset: 54692},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1684, col: 5, offset: 54584},
+																					pos: position{line: 1688, col: 5, offset: 54692},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1684, col: 5, offset: 54584},
+																							pos: position{line: 1688, col: 5, offset: 54692},
 																							expr: &seqExpr{
-																								pos: position{line: 2498, col: 31, offset: 80450},
+																								pos: position{line: 2502, col: 31, offset: 80558},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2498, col: 31, offset: 80450},
+																										pos:        position{line: 2502, col: 31, offset: 80558},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2498, col: 36, offset: 80455},
+																										pos: position{line: 2502, col: 36, offset: 80563},
 																										expr: &litMatcher{
-																											pos:        position{line: 2498, col: 37, offset: 80456},
+																											pos:        position{line: 2502, col: 37, offset: 80564},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -28011,28 +28033,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1685, col: 5, offset: 54616},
+																							pos: position{line: 1689, col: 5, offset: 54724},
 																							expr: &seqExpr{
-																								pos: position{line: 1685, col: 6, offset: 54617},
+																								pos: position{line: 1689, col: 6, offset: 54725},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1685, col: 6, offset: 54617},
+																										pos: position{line: 1689, col: 6, offset: 54725},
 																										expr: &actionExpr{
-																											pos: position{line: 1690, col: 5, offset: 54767},
+																											pos: position{line: 1694, col: 5, offset: 54875},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1690, col: 5, offset: 54767},
+																												pos: position{line: 1694, col: 5, offset: 54875},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1690, col: 5, offset: 54767},
+																														pos:   position{line: 1694, col: 5, offset: 54875},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1690, col: 16, offset: 54778},
+																															pos: position{line: 1694, col: 16, offset: 54886},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1690, col: 16, offset: 54778},
+																																pos: position{line: 1694, col: 16, offset: 54886},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1690, col: 17, offset: 54779},
+																																	pos:        position{line: 1694, col: 17, offset: 54887},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -28041,7 +28063,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1693, col: 5, offset: 54836},
+																														pos: position{line: 1697, col: 5, offset: 54944},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -28049,30 +28071,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1685, col: 35, offset: 54646},
+																										pos: position{line: 1689, col: 35, offset: 54754},
 																										expr: &choiceExpr{
-																											pos: position{line: 2914, col: 8, offset: 91867},
+																											pos: position{line: 2918, col: 8, offset: 91975},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2901, col: 12, offset: 91640},
+																													pos: position{line: 2905, col: 12, offset: 91748},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2901, col: 13, offset: 91641},
+																														pos: position{line: 2905, col: 13, offset: 91749},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 13, offset: 91641},
+																																pos:        position{line: 2905, col: 13, offset: 91749},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 20, offset: 91648},
+																																pos:        position{line: 2905, col: 20, offset: 91756},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 29, offset: 91657},
+																																pos:        position{line: 2905, col: 29, offset: 91765},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -28081,16 +28103,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2911, col: 8, offset: 91817},
+																													pos: position{line: 2915, col: 8, offset: 91925},
 																													expr: &anyMatcher{
-																														line: 2911, col: 9, offset: 91818,
+																														line: 2915, col: 9, offset: 91926,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1685, col: 40, offset: 54651,
+																										line: 1689, col: 40, offset: 54759,
 																									},
 																								},
 																							},
@@ -28100,24 +28122,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1677, col: 5, offset: 54293},
+																			pos:   position{line: 1681, col: 5, offset: 54401},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1690, col: 5, offset: 54767},
+																				pos: position{line: 1694, col: 5, offset: 54875},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1690, col: 5, offset: 54767},
+																					pos: position{line: 1694, col: 5, offset: 54875},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1690, col: 5, offset: 54767},
+																							pos:   position{line: 1694, col: 5, offset: 54875},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1690, col: 16, offset: 54778},
+																								pos: position{line: 1694, col: 16, offset: 54886},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1690, col: 16, offset: 54778},
+																									pos: position{line: 1694, col: 16, offset: 54886},
 																									expr: &litMatcher{
-																										pos:        position{line: 1690, col: 17, offset: 54779},
+																										pos:        position{line: 1694, col: 17, offset: 54887},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -28126,7 +28148,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1693, col: 5, offset: 54836},
+																							pos: position{line: 1697, col: 5, offset: 54944},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -28134,24 +28156,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1678, col: 5, offset: 54338},
+																			pos:   position{line: 1682, col: 5, offset: 54446},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1701, col: 5, offset: 55085},
+																				pos: position{line: 1705, col: 5, offset: 55193},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1703, col: 9, offset: 55151},
+																						pos: position{line: 1707, col: 9, offset: 55259},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1703, col: 9, offset: 55151},
+																							pos: position{line: 1707, col: 9, offset: 55259},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1703, col: 9, offset: 55151},
+																									pos: position{line: 1707, col: 9, offset: 55259},
 																									expr: &actionExpr{
-																										pos: position{line: 2892, col: 10, offset: 91469},
+																										pos: position{line: 2896, col: 10, offset: 91577},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2892, col: 10, offset: 91469},
+																											pos:        position{line: 2896, col: 10, offset: 91577},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28160,28 +28182,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2914, col: 8, offset: 91867},
+																									pos: position{line: 2918, col: 8, offset: 91975},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2901, col: 12, offset: 91640},
+																											pos: position{line: 2905, col: 12, offset: 91748},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2901, col: 13, offset: 91641},
+																												pos: position{line: 2905, col: 13, offset: 91749},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2901, col: 13, offset: 91641},
+																														pos:        position{line: 2905, col: 13, offset: 91749},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2901, col: 20, offset: 91648},
+																														pos:        position{line: 2905, col: 20, offset: 91756},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2901, col: 29, offset: 91657},
+																														pos:        position{line: 2905, col: 29, offset: 91765},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28190,15 +28212,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2911, col: 8, offset: 91817},
+																											pos: position{line: 2915, col: 8, offset: 91925},
 																											expr: &anyMatcher{
-																												line: 2911, col: 9, offset: 91818,
+																												line: 2915, col: 9, offset: 91926,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1704, col: 9, offset: 55170},
+																									pos: position{line: 1708, col: 9, offset: 55278},
 																									expr: &actionExpr{
 																										pos: position{line: 687, col: 14, offset: 21835},
 																										run: (*parser).callonExtraListElement454,
@@ -28206,18 +28228,18 @@ var g = &grammar{
 																											pos: position{line: 687, col: 14, offset: 21835},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2909, col: 11, offset: 91803},
+																													pos: position{line: 2913, col: 11, offset: 91911},
 																													expr: &anyMatcher{
-																														line: 2909, col: 13, offset: 91805,
+																														line: 2913, col: 13, offset: 91913,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 687, col: 21, offset: 21842},
 																													expr: &actionExpr{
-																														pos: position{line: 2892, col: 10, offset: 91469},
+																														pos: position{line: 2896, col: 10, offset: 91577},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2892, col: 10, offset: 91469},
+																															pos:        position{line: 2896, col: 10, offset: 91577},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -28226,28 +28248,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2914, col: 8, offset: 91867},
+																													pos: position{line: 2918, col: 8, offset: 91975},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2901, col: 12, offset: 91640},
+																															pos: position{line: 2905, col: 12, offset: 91748},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2901, col: 13, offset: 91641},
+																																pos: position{line: 2905, col: 13, offset: 91749},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2901, col: 13, offset: 91641},
+																																		pos:        position{line: 2905, col: 13, offset: 91749},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2901, col: 20, offset: 91648},
+																																		pos:        position{line: 2905, col: 20, offset: 91756},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2901, col: 29, offset: 91657},
+																																		pos:        position{line: 2905, col: 29, offset: 91765},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28256,9 +28278,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2911, col: 8, offset: 91817},
+																															pos: position{line: 2915, col: 8, offset: 91925},
 																															expr: &anyMatcher{
-																																line: 2911, col: 9, offset: 91818,
+																																line: 2915, col: 9, offset: 91926,
 																															},
 																														},
 																													},
@@ -28271,18 +28293,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1710, col: 9, offset: 55299},
+																						pos: position{line: 1714, col: 9, offset: 55407},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1710, col: 9, offset: 55299},
+																							pos: position{line: 1714, col: 9, offset: 55407},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2896, col: 11, offset: 91530},
+																									pos: position{line: 2900, col: 11, offset: 91638},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2896, col: 11, offset: 91530},
+																										pos: position{line: 2900, col: 11, offset: 91638},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2896, col: 11, offset: 91530},
+																											pos:        position{line: 2900, col: 11, offset: 91638},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28291,15 +28313,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1711, col: 9, offset: 55372},
+																									pos:   position{line: 1715, col: 9, offset: 55480},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1711, col: 18, offset: 55381},
+																										pos: position{line: 1715, col: 18, offset: 55489},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1711, col: 18, offset: 55381},
+																											pos: position{line: 1715, col: 18, offset: 55489},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1711, col: 18, offset: 55381},
+																												pos:        position{line: 1715, col: 18, offset: 55489},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28309,28 +28331,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2914, col: 8, offset: 91867},
+																									pos: position{line: 2918, col: 8, offset: 91975},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2901, col: 12, offset: 91640},
+																											pos: position{line: 2905, col: 12, offset: 91748},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2901, col: 13, offset: 91641},
+																												pos: position{line: 2905, col: 13, offset: 91749},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2901, col: 13, offset: 91641},
+																														pos:        position{line: 2905, col: 13, offset: 91749},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2901, col: 20, offset: 91648},
+																														pos:        position{line: 2905, col: 20, offset: 91756},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2901, col: 29, offset: 91657},
+																														pos:        position{line: 2905, col: 29, offset: 91765},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28339,9 +28361,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2911, col: 8, offset: 91817},
+																											pos: position{line: 2915, col: 8, offset: 91925},
 																											expr: &anyMatcher{
-																												line: 2911, col: 9, offset: 91818,
+																												line: 2915, col: 9, offset: 91926,
 																											},
 																										},
 																									},
@@ -28362,40 +28384,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1519, col: 11, offset: 49265},
+										pos:  position{line: 1523, col: 11, offset: 49373},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2493, col: 22, offset: 80229},
+										pos: position{line: 2497, col: 22, offset: 80337},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2493, col: 22, offset: 80229},
+											pos: position{line: 2497, col: 22, offset: 80337},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2498, col: 31, offset: 80450},
+													pos:        position{line: 2502, col: 31, offset: 80558},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2498, col: 36, offset: 80455},
+													pos: position{line: 2502, col: 36, offset: 80563},
 													expr: &litMatcher{
-														pos:        position{line: 2498, col: 37, offset: 80456},
+														pos:        position{line: 2502, col: 37, offset: 80564},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2493, col: 49, offset: 80256},
+													pos:   position{line: 2497, col: 49, offset: 80364},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2838, col: 13, offset: 89995},
+														pos: position{line: 2842, col: 13, offset: 90103},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2838, col: 13, offset: 89995},
+															pos: position{line: 2842, col: 13, offset: 90103},
 															expr: &charClassMatcher{
-																pos:        position{line: 2838, col: 13, offset: 89995},
+																pos:        position{line: 2842, col: 13, offset: 90103},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28405,28 +28427,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2914, col: 8, offset: 91867},
+													pos: position{line: 2918, col: 8, offset: 91975},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2901, col: 12, offset: 91640},
+															pos: position{line: 2905, col: 12, offset: 91748},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2901, col: 13, offset: 91641},
+																pos: position{line: 2905, col: 13, offset: 91749},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 13, offset: 91641},
+																		pos:        position{line: 2905, col: 13, offset: 91749},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 20, offset: 91648},
+																		pos:        position{line: 2905, col: 20, offset: 91756},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 29, offset: 91657},
+																		pos:        position{line: 2905, col: 29, offset: 91765},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28435,9 +28457,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2911, col: 8, offset: 91817},
+															pos: position{line: 2915, col: 8, offset: 91925},
 															expr: &anyMatcher{
-																line: 2911, col: 9, offset: 91818,
+																line: 2915, col: 9, offset: 91926,
 															},
 														},
 													},
@@ -28446,13 +28468,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1527, col: 5, offset: 49543},
+										pos: position{line: 1531, col: 5, offset: 49651},
 										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
-											pos: position{line: 1527, col: 5, offset: 49543},
+											pos: position{line: 1531, col: 5, offset: 49651},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1527, col: 5, offset: 49543},
+													pos: position{line: 1531, col: 5, offset: 49651},
 													expr: &actionExpr{
 														pos: position{line: 687, col: 14, offset: 21835},
 														run: (*parser).callonExtraListElement507,
@@ -28460,18 +28482,18 @@ var g = &grammar{
 															pos: position{line: 687, col: 14, offset: 21835},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2909, col: 11, offset: 91803},
+																	pos: position{line: 2913, col: 11, offset: 91911},
 																	expr: &anyMatcher{
-																		line: 2909, col: 13, offset: 91805,
+																		line: 2913, col: 13, offset: 91913,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 687, col: 21, offset: 21842},
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 10, offset: 91469},
+																		pos: position{line: 2896, col: 10, offset: 91577},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 10, offset: 91469},
+																			pos:        position{line: 2896, col: 10, offset: 91577},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28480,28 +28502,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28510,9 +28532,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -28522,23 +28544,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1528, col: 5, offset: 49558},
+													pos: position{line: 1532, col: 5, offset: 49666},
 													expr: &seqExpr{
-														pos: position{line: 1558, col: 27, offset: 50384},
+														pos: position{line: 1562, col: 27, offset: 50492},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1558, col: 27, offset: 50384},
+																pos:        position{line: 1562, col: 27, offset: 50492},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1558, col: 31, offset: 50388},
+																pos: position{line: 1562, col: 31, offset: 50496},
 																expr: &actionExpr{
-																	pos: position{line: 2892, col: 10, offset: 91469},
+																	pos: position{line: 2896, col: 10, offset: 91577},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2892, col: 10, offset: 91469},
+																		pos:        position{line: 2896, col: 10, offset: 91577},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28547,25 +28569,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2901, col: 12, offset: 91640},
+																pos: position{line: 2905, col: 12, offset: 91748},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2901, col: 13, offset: 91641},
+																	pos: position{line: 2905, col: 13, offset: 91749},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 13, offset: 91641},
+																			pos:        position{line: 2905, col: 13, offset: 91749},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 20, offset: 91648},
+																			pos:        position{line: 2905, col: 20, offset: 91756},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2901, col: 29, offset: 91657},
+																			pos:        position{line: 2905, col: 29, offset: 91765},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28577,20 +28599,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1529, col: 5, offset: 49586},
+													pos: position{line: 1533, col: 5, offset: 49694},
 													expr: &actionExpr{
-														pos: position{line: 1599, col: 5, offset: 51603},
+														pos: position{line: 1603, col: 5, offset: 51711},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1599, col: 5, offset: 51603},
+															pos: position{line: 1603, col: 5, offset: 51711},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1599, col: 5, offset: 51603},
+																	pos: position{line: 1603, col: 5, offset: 51711},
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 10, offset: 91469},
+																		pos: position{line: 2896, col: 10, offset: 91577},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 10, offset: 91469},
+																			pos:        position{line: 2896, col: 10, offset: 91577},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28599,27 +28621,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1599, col: 12, offset: 51610},
+																	pos:   position{line: 1603, col: 12, offset: 51718},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1601, col: 9, offset: 51673},
+																		pos: position{line: 1605, col: 9, offset: 51781},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1601, col: 9, offset: 51673},
+																				pos: position{line: 1605, col: 9, offset: 51781},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1601, col: 9, offset: 51673},
+																					pos: position{line: 1605, col: 9, offset: 51781},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1601, col: 9, offset: 51673},
+																							pos:   position{line: 1605, col: 9, offset: 51781},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1601, col: 16, offset: 51680},
+																								pos: position{line: 1605, col: 16, offset: 51788},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1601, col: 16, offset: 51680},
+																									pos: position{line: 1605, col: 16, offset: 51788},
 																									expr: &litMatcher{
-																										pos:        position{line: 1601, col: 17, offset: 51681},
+																										pos:        position{line: 1605, col: 17, offset: 51789},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28628,22 +28650,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1605, col: 9, offset: 51781},
+																							pos: position{line: 1609, col: 9, offset: 51889},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1624, col: 11, offset: 52498},
+																				pos: position{line: 1628, col: 11, offset: 52606},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1624, col: 11, offset: 52498},
+																					pos: position{line: 1628, col: 11, offset: 52606},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1624, col: 11, offset: 52498},
+																							pos: position{line: 1628, col: 11, offset: 52606},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1624, col: 12, offset: 52499},
+																								pos:        position{line: 1628, col: 12, offset: 52607},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28651,7 +28673,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1624, col: 20, offset: 52507},
+																							pos:        position{line: 1628, col: 20, offset: 52615},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28660,20 +28682,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1626, col: 13, offset: 52624},
+																				pos: position{line: 1630, col: 13, offset: 52732},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1626, col: 13, offset: 52624},
+																					pos: position{line: 1630, col: 13, offset: 52732},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1626, col: 14, offset: 52625},
+																							pos:        position{line: 1630, col: 14, offset: 52733},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1626, col: 21, offset: 52632},
+																							pos:        position{line: 1630, col: 21, offset: 52740},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28682,20 +28704,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1628, col: 13, offset: 52752},
+																				pos: position{line: 1632, col: 13, offset: 52860},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1628, col: 13, offset: 52752},
+																					pos: position{line: 1632, col: 13, offset: 52860},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1628, col: 14, offset: 52753},
+																							pos:        position{line: 1632, col: 14, offset: 52861},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1628, col: 21, offset: 52760},
+																							pos:        position{line: 1632, col: 21, offset: 52868},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28704,15 +28726,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1630, col: 13, offset: 52880},
+																				pos: position{line: 1634, col: 13, offset: 52988},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1630, col: 13, offset: 52880},
+																					pos: position{line: 1634, col: 13, offset: 52988},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1630, col: 13, offset: 52880},
+																							pos: position{line: 1634, col: 13, offset: 52988},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1630, col: 14, offset: 52881},
+																								pos:        position{line: 1634, col: 14, offset: 52989},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28720,7 +28742,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1630, col: 26, offset: 52893},
+																							pos:        position{line: 1634, col: 26, offset: 53001},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28729,15 +28751,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1632, col: 13, offset: 53013},
+																				pos: position{line: 1636, col: 13, offset: 53121},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1632, col: 13, offset: 53013},
+																					pos: position{line: 1636, col: 13, offset: 53121},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1632, col: 13, offset: 53013},
+																							pos: position{line: 1636, col: 13, offset: 53121},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1632, col: 14, offset: 53014},
+																								pos:        position{line: 1636, col: 14, offset: 53122},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28745,7 +28767,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1632, col: 26, offset: 53026},
+																							pos:        position{line: 1636, col: 26, offset: 53134},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28757,12 +28779,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2896, col: 11, offset: 91530},
+																	pos: position{line: 2900, col: 11, offset: 91638},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2896, col: 11, offset: 91530},
+																		pos: position{line: 2900, col: 11, offset: 91638},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 11, offset: 91530},
+																			pos:        position{line: 2900, col: 11, offset: 91638},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28775,20 +28797,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1530, col: 5, offset: 49616},
+													pos: position{line: 1534, col: 5, offset: 49724},
 													expr: &actionExpr{
-														pos: position{line: 1649, col: 5, offset: 53565},
+														pos: position{line: 1653, col: 5, offset: 53673},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1649, col: 5, offset: 53565},
+															pos: position{line: 1653, col: 5, offset: 53673},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1649, col: 5, offset: 53565},
+																	pos: position{line: 1653, col: 5, offset: 53673},
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 10, offset: 91469},
+																		pos: position{line: 2896, col: 10, offset: 91577},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 10, offset: 91469},
+																			pos:        position{line: 2896, col: 10, offset: 91577},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28797,24 +28819,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1650, col: 5, offset: 53577},
+																	pos:   position{line: 1654, col: 5, offset: 53685},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1651, col: 9, offset: 53593},
+																		pos: position{line: 1655, col: 9, offset: 53701},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1651, col: 10, offset: 53594},
+																			pos: position{line: 1655, col: 10, offset: 53702},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1651, col: 11, offset: 53595},
+																					pos:        position{line: 1655, col: 11, offset: 53703},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1651, col: 18, offset: 53602},
+																					pos: position{line: 1655, col: 18, offset: 53710},
 																					expr: &litMatcher{
-																						pos:        position{line: 1651, col: 19, offset: 53603},
+																						pos:        position{line: 1655, col: 19, offset: 53711},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28825,16 +28847,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1654, col: 7, offset: 53693},
+																	pos: position{line: 1658, col: 7, offset: 53801},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2896, col: 11, offset: 91530},
+																	pos: position{line: 2900, col: 11, offset: 91638},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2896, col: 11, offset: 91530},
+																		pos: position{line: 2900, col: 11, offset: 91638},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 11, offset: 91530},
+																			pos:        position{line: 2900, col: 11, offset: 91638},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28847,29 +28869,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1531, col: 5, offset: 49648},
+													pos: position{line: 1535, col: 5, offset: 49756},
 													expr: &actionExpr{
-														pos: position{line: 1739, col: 5, offset: 56134},
+														pos: position{line: 1743, col: 5, offset: 56242},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1739, col: 5, offset: 56134},
+															pos: position{line: 1743, col: 5, offset: 56242},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1739, col: 5, offset: 56134},
+																	pos:        position{line: 1743, col: 5, offset: 56242},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1739, col: 9, offset: 56138},
+																	pos:   position{line: 1743, col: 9, offset: 56246},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1739, col: 14, offset: 56143},
+																		pos: position{line: 1743, col: 14, offset: 56251},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1739, col: 14, offset: 56143},
+																			pos: position{line: 1743, col: 14, offset: 56251},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1739, col: 14, offset: 56143},
+																				pos:        position{line: 1743, col: 14, offset: 56251},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28879,18 +28901,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1739, col: 62, offset: 56191},
+																	pos:        position{line: 1743, col: 62, offset: 56299},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2896, col: 11, offset: 91530},
+																	pos: position{line: 2900, col: 11, offset: 91638},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2896, col: 11, offset: 91530},
+																		pos: position{line: 2900, col: 11, offset: 91638},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 11, offset: 91530},
+																			pos:        position{line: 2900, col: 11, offset: 91638},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28903,31 +28925,31 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1532, col: 5, offset: 49678},
+													pos: position{line: 1536, col: 5, offset: 49786},
 													expr: &seqExpr{
-														pos: position{line: 1532, col: 7, offset: 49680},
+														pos: position{line: 1536, col: 7, offset: 49788},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1684, col: 5, offset: 54584},
+																pos: position{line: 1688, col: 5, offset: 54692},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1684, col: 5, offset: 54584},
+																	pos: position{line: 1688, col: 5, offset: 54692},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1684, col: 5, offset: 54584},
+																			pos: position{line: 1688, col: 5, offset: 54692},
 																			expr: &seqExpr{
-																				pos: position{line: 2498, col: 31, offset: 80450},
+																				pos: position{line: 2502, col: 31, offset: 80558},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2498, col: 31, offset: 80450},
+																						pos:        position{line: 2502, col: 31, offset: 80558},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2498, col: 36, offset: 80455},
+																						pos: position{line: 2502, col: 36, offset: 80563},
 																						expr: &litMatcher{
-																							pos:        position{line: 2498, col: 37, offset: 80456},
+																							pos:        position{line: 2502, col: 37, offset: 80564},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
@@ -28937,28 +28959,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1685, col: 5, offset: 54616},
+																			pos: position{line: 1689, col: 5, offset: 54724},
 																			expr: &seqExpr{
-																				pos: position{line: 1685, col: 6, offset: 54617},
+																				pos: position{line: 1689, col: 6, offset: 54725},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1685, col: 6, offset: 54617},
+																						pos: position{line: 1689, col: 6, offset: 54725},
 																						expr: &actionExpr{
-																							pos: position{line: 1690, col: 5, offset: 54767},
+																							pos: position{line: 1694, col: 5, offset: 54875},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1690, col: 5, offset: 54767},
+																								pos: position{line: 1694, col: 5, offset: 54875},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1690, col: 5, offset: 54767},
+																										pos:   position{line: 1694, col: 5, offset: 54875},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1690, col: 16, offset: 54778},
+																											pos: position{line: 1694, col: 16, offset: 54886},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1690, col: 16, offset: 54778},
+																												pos: position{line: 1694, col: 16, offset: 54886},
 																												expr: &litMatcher{
-																													pos:        position{line: 1690, col: 17, offset: 54779},
+																													pos:        position{line: 1694, col: 17, offset: 54887},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -28967,7 +28989,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1693, col: 5, offset: 54836},
+																										pos: position{line: 1697, col: 5, offset: 54944},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -28975,30 +28997,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1685, col: 35, offset: 54646},
+																						pos: position{line: 1689, col: 35, offset: 54754},
 																						expr: &choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29007,16 +29029,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1685, col: 40, offset: 54651,
+																						line: 1689, col: 40, offset: 54759,
 																					},
 																				},
 																			},
@@ -29025,21 +29047,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1690, col: 5, offset: 54767},
+																pos: position{line: 1694, col: 5, offset: 54875},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1690, col: 5, offset: 54767},
+																	pos: position{line: 1694, col: 5, offset: 54875},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1690, col: 5, offset: 54767},
+																			pos:   position{line: 1694, col: 5, offset: 54875},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1690, col: 16, offset: 54778},
+																				pos: position{line: 1694, col: 16, offset: 54886},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1690, col: 16, offset: 54778},
+																					pos: position{line: 1694, col: 16, offset: 54886},
 																					expr: &litMatcher{
-																						pos:        position{line: 1690, col: 17, offset: 54779},
+																						pos:        position{line: 1694, col: 17, offset: 54887},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -29048,7 +29070,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1693, col: 5, offset: 54836},
+																			pos: position{line: 1697, col: 5, offset: 54944},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -29058,17 +29080,17 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1533, col: 5, offset: 49736},
+													pos: position{line: 1537, col: 5, offset: 49844},
 													expr: &actionExpr{
-														pos: position{line: 734, col: 5, offset: 23388},
+														pos: position{line: 738, col: 5, offset: 23496},
 														run: (*parser).callonExtraListElement639,
 														expr: &seqExpr{
-															pos: position{line: 734, col: 5, offset: 23388},
+															pos: position{line: 738, col: 5, offset: 23496},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 734, col: 5, offset: 23388},
+																	pos: position{line: 738, col: 5, offset: 23496},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2782, col: 13, offset: 88564},
+																		pos:        position{line: 2786, col: 13, offset: 88672},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -29076,36 +29098,36 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 735, col: 5, offset: 23418},
+																	pos:   position{line: 739, col: 5, offset: 23526},
 																	label: "delimiter",
 																	expr: &choiceExpr{
-																		pos: position{line: 736, col: 9, offset: 23438},
+																		pos: position{line: 740, col: 9, offset: 23546},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 750, col: 5, offset: 23930},
+																				pos: position{line: 754, col: 5, offset: 24038},
 																				run: (*parser).callonExtraListElement645,
 																				expr: &seqExpr{
-																					pos: position{line: 750, col: 5, offset: 23930},
+																					pos: position{line: 754, col: 5, offset: 24038},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 750, col: 5, offset: 23930},
+																							pos:   position{line: 754, col: 5, offset: 24038},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 750, col: 16, offset: 23941},
+																								pos: position{line: 754, col: 16, offset: 24049},
 																								run: (*parser).callonExtraListElement648,
 																								expr: &seqExpr{
-																									pos: position{line: 750, col: 16, offset: 23941},
+																									pos: position{line: 754, col: 16, offset: 24049},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 750, col: 16, offset: 23941},
+																											pos:        position{line: 754, col: 16, offset: 24049},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 750, col: 23, offset: 23948},
+																											pos: position{line: 754, col: 23, offset: 24056},
 																											expr: &litMatcher{
-																												pos:        position{line: 750, col: 23, offset: 23948},
+																												pos:        position{line: 754, col: 23, offset: 24056},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -29116,12 +29138,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 752, col: 8, offset: 24032},
+																							pos: position{line: 756, col: 8, offset: 24140},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29130,28 +29152,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29160,9 +29182,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -29171,30 +29193,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 757, col: 5, offset: 24178},
+																				pos: position{line: 761, col: 5, offset: 24286},
 																				run: (*parser).callonExtraListElement664,
 																				expr: &seqExpr{
-																					pos: position{line: 757, col: 5, offset: 24178},
+																					pos: position{line: 761, col: 5, offset: 24286},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 757, col: 5, offset: 24178},
+																							pos:   position{line: 761, col: 5, offset: 24286},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 757, col: 16, offset: 24189},
+																								pos: position{line: 761, col: 16, offset: 24297},
 																								run: (*parser).callonExtraListElement667,
 																								expr: &seqExpr{
-																									pos: position{line: 757, col: 16, offset: 24189},
+																									pos: position{line: 761, col: 16, offset: 24297},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 757, col: 16, offset: 24189},
+																											pos:        position{line: 761, col: 16, offset: 24297},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 757, col: 23, offset: 24196},
+																											pos: position{line: 761, col: 23, offset: 24304},
 																											expr: &litMatcher{
-																												pos:        position{line: 757, col: 23, offset: 24196},
+																												pos:        position{line: 761, col: 23, offset: 24304},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -29205,12 +29227,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 759, col: 8, offset: 24280},
+																							pos: position{line: 763, col: 8, offset: 24388},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29219,28 +29241,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29249,9 +29271,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -29260,27 +29282,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 770, col: 26, offset: 24666},
+																				pos: position{line: 774, col: 26, offset: 24774},
 																				run: (*parser).callonExtraListElement683,
 																				expr: &seqExpr{
-																					pos: position{line: 770, col: 26, offset: 24666},
+																					pos: position{line: 774, col: 26, offset: 24774},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 770, col: 26, offset: 24666},
+																							pos:        position{line: 774, col: 26, offset: 24774},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 770, col: 32, offset: 24672},
+																							pos:   position{line: 774, col: 32, offset: 24780},
 																							label: "language",
 																							expr: &actionExpr{
-																								pos: position{line: 774, col: 13, offset: 24802},
+																								pos: position{line: 778, col: 13, offset: 24910},
 																								run: (*parser).callonExtraListElement687,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 774, col: 14, offset: 24803},
+																									pos: position{line: 778, col: 14, offset: 24911},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 774, col: 14, offset: 24803},
+																										pos:        position{line: 778, col: 14, offset: 24911},
 																										val:        "[^\\r\\n` ]",
 																										chars:      []rune{'\r', '\n', '`', ' '},
 																										ignoreCase: false,
@@ -29290,12 +29312,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 770, col: 52, offset: 24692},
+																							pos: position{line: 774, col: 52, offset: 24800},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29304,28 +29326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29334,9 +29356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -29345,30 +29367,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 764, col: 5, offset: 24425},
+																				pos: position{line: 768, col: 5, offset: 24533},
 																				run: (*parser).callonExtraListElement701,
 																				expr: &seqExpr{
-																					pos: position{line: 764, col: 5, offset: 24425},
+																					pos: position{line: 768, col: 5, offset: 24533},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 764, col: 5, offset: 24425},
+																							pos:   position{line: 768, col: 5, offset: 24533},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 764, col: 16, offset: 24436},
+																								pos: position{line: 768, col: 16, offset: 24544},
 																								run: (*parser).callonExtraListElement704,
 																								expr: &seqExpr{
-																									pos: position{line: 764, col: 16, offset: 24436},
+																									pos: position{line: 768, col: 16, offset: 24544},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 764, col: 16, offset: 24436},
+																											pos:        position{line: 768, col: 16, offset: 24544},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 764, col: 22, offset: 24442},
+																											pos: position{line: 768, col: 22, offset: 24550},
 																											expr: &litMatcher{
-																												pos:        position{line: 764, col: 22, offset: 24442},
+																												pos:        position{line: 768, col: 22, offset: 24550},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -29379,12 +29401,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 766, col: 8, offset: 24526},
+																							pos: position{line: 770, col: 8, offset: 24634},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29393,28 +29415,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29423,9 +29445,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -29434,30 +29456,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 779, col: 5, offset: 24962},
+																				pos: position{line: 783, col: 5, offset: 25070},
 																				run: (*parser).callonExtraListElement720,
 																				expr: &seqExpr{
-																					pos: position{line: 779, col: 5, offset: 24962},
+																					pos: position{line: 783, col: 5, offset: 25070},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 779, col: 5, offset: 24962},
+																							pos:   position{line: 783, col: 5, offset: 25070},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 779, col: 16, offset: 24973},
+																								pos: position{line: 783, col: 16, offset: 25081},
 																								run: (*parser).callonExtraListElement723,
 																								expr: &seqExpr{
-																									pos: position{line: 779, col: 16, offset: 24973},
+																									pos: position{line: 783, col: 16, offset: 25081},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 779, col: 16, offset: 24973},
+																											pos:        position{line: 783, col: 16, offset: 25081},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 779, col: 23, offset: 24980},
+																											pos: position{line: 783, col: 23, offset: 25088},
 																											expr: &litMatcher{
-																												pos:        position{line: 779, col: 23, offset: 24980},
+																												pos:        position{line: 783, col: 23, offset: 25088},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -29468,12 +29490,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 781, col: 8, offset: 25064},
+																							pos: position{line: 785, col: 8, offset: 25172},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29482,28 +29504,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29512,9 +29534,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -29523,30 +29545,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 793, col: 5, offset: 25438},
+																				pos: position{line: 797, col: 5, offset: 25546},
 																				run: (*parser).callonExtraListElement739,
 																				expr: &seqExpr{
-																					pos: position{line: 793, col: 5, offset: 25438},
+																					pos: position{line: 797, col: 5, offset: 25546},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 793, col: 5, offset: 25438},
+																							pos:   position{line: 797, col: 5, offset: 25546},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 793, col: 16, offset: 25449},
+																								pos: position{line: 797, col: 16, offset: 25557},
 																								run: (*parser).callonExtraListElement742,
 																								expr: &seqExpr{
-																									pos: position{line: 793, col: 16, offset: 25449},
+																									pos: position{line: 797, col: 16, offset: 25557},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 793, col: 16, offset: 25449},
+																											pos:        position{line: 797, col: 16, offset: 25557},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 793, col: 23, offset: 25456},
+																											pos: position{line: 797, col: 23, offset: 25564},
 																											expr: &litMatcher{
-																												pos:        position{line: 793, col: 23, offset: 25456},
+																												pos:        position{line: 797, col: 23, offset: 25564},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -29557,12 +29579,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 795, col: 8, offset: 25540},
+																							pos: position{line: 799, col: 8, offset: 25648},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29571,28 +29593,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29601,9 +29623,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -29612,30 +29634,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 800, col: 5, offset: 25690},
+																				pos: position{line: 804, col: 5, offset: 25798},
 																				run: (*parser).callonExtraListElement758,
 																				expr: &seqExpr{
-																					pos: position{line: 800, col: 5, offset: 25690},
+																					pos: position{line: 804, col: 5, offset: 25798},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 800, col: 5, offset: 25690},
+																							pos:   position{line: 804, col: 5, offset: 25798},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 800, col: 16, offset: 25701},
+																								pos: position{line: 804, col: 16, offset: 25809},
 																								run: (*parser).callonExtraListElement761,
 																								expr: &seqExpr{
-																									pos: position{line: 800, col: 16, offset: 25701},
+																									pos: position{line: 804, col: 16, offset: 25809},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 800, col: 16, offset: 25701},
+																											pos:        position{line: 804, col: 16, offset: 25809},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 800, col: 23, offset: 25708},
+																											pos: position{line: 804, col: 23, offset: 25816},
 																											expr: &litMatcher{
-																												pos:        position{line: 800, col: 23, offset: 25708},
+																												pos:        position{line: 804, col: 23, offset: 25816},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -29646,12 +29668,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 802, col: 8, offset: 25792},
+																							pos: position{line: 806, col: 8, offset: 25900},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29660,28 +29682,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29690,9 +29712,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -29701,30 +29723,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 807, col: 5, offset: 25940},
+																				pos: position{line: 811, col: 5, offset: 26048},
 																				run: (*parser).callonExtraListElement777,
 																				expr: &seqExpr{
-																					pos: position{line: 807, col: 5, offset: 25940},
+																					pos: position{line: 811, col: 5, offset: 26048},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 807, col: 5, offset: 25940},
+																							pos:   position{line: 811, col: 5, offset: 26048},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 807, col: 16, offset: 25951},
+																								pos: position{line: 811, col: 16, offset: 26059},
 																								run: (*parser).callonExtraListElement780,
 																								expr: &seqExpr{
-																									pos: position{line: 807, col: 16, offset: 25951},
+																									pos: position{line: 811, col: 16, offset: 26059},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 807, col: 16, offset: 25951},
+																											pos:        position{line: 811, col: 16, offset: 26059},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 807, col: 23, offset: 25958},
+																											pos: position{line: 811, col: 23, offset: 26066},
 																											expr: &litMatcher{
-																												pos:        position{line: 807, col: 23, offset: 25958},
+																												pos:        position{line: 811, col: 23, offset: 26066},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -29735,12 +29757,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 809, col: 8, offset: 26042},
+																							pos: position{line: 813, col: 8, offset: 26150},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29749,28 +29771,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29779,9 +29801,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -29790,30 +29812,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 814, col: 5, offset: 26186},
+																				pos: position{line: 818, col: 5, offset: 26294},
 																				run: (*parser).callonExtraListElement796,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 5, offset: 26186},
+																					pos: position{line: 818, col: 5, offset: 26294},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 814, col: 5, offset: 26186},
+																							pos:   position{line: 818, col: 5, offset: 26294},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 814, col: 16, offset: 26197},
+																								pos: position{line: 818, col: 16, offset: 26305},
 																								run: (*parser).callonExtraListElement799,
 																								expr: &seqExpr{
-																									pos: position{line: 814, col: 16, offset: 26197},
+																									pos: position{line: 818, col: 16, offset: 26305},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 814, col: 16, offset: 26197},
+																											pos:        position{line: 818, col: 16, offset: 26305},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 814, col: 23, offset: 26204},
+																											pos: position{line: 818, col: 23, offset: 26312},
 																											expr: &litMatcher{
-																												pos:        position{line: 814, col: 23, offset: 26204},
+																												pos:        position{line: 818, col: 23, offset: 26312},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -29824,12 +29846,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 816, col: 8, offset: 26288},
+																							pos: position{line: 820, col: 8, offset: 26396},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29838,28 +29860,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29868,9 +29890,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -29886,15 +29908,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1534, col: 5, offset: 49756},
+													pos:   position{line: 1538, col: 5, offset: 49864},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2842, col: 14, offset: 90062},
+														pos: position{line: 2846, col: 14, offset: 90170},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2842, col: 14, offset: 90062},
+															pos: position{line: 2846, col: 14, offset: 90170},
 															expr: &charClassMatcher{
-																pos:        position{line: 2842, col: 14, offset: 90062},
+																pos:        position{line: 2846, col: 14, offset: 90170},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29904,28 +29926,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2914, col: 8, offset: 91867},
+													pos: position{line: 2918, col: 8, offset: 91975},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2901, col: 12, offset: 91640},
+															pos: position{line: 2905, col: 12, offset: 91748},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2901, col: 13, offset: 91641},
+																pos: position{line: 2905, col: 13, offset: 91749},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 13, offset: 91641},
+																		pos:        position{line: 2905, col: 13, offset: 91749},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 20, offset: 91648},
+																		pos:        position{line: 2905, col: 20, offset: 91756},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 29, offset: 91657},
+																		pos:        position{line: 2905, col: 29, offset: 91765},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29934,9 +29956,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2911, col: 8, offset: 91817},
+															pos: position{line: 2915, col: 8, offset: 91925},
 															expr: &anyMatcher{
-																line: 2911, col: 9, offset: 91818,
+																line: 2915, col: 9, offset: 91926,
 															},
 														},
 													},
@@ -29953,28 +29975,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1550, col: 1, offset: 50147},
+			pos:  position{line: 1554, col: 1, offset: 50255},
 			expr: &actionExpr{
-				pos: position{line: 1551, col: 5, offset: 50172},
+				pos: position{line: 1555, col: 5, offset: 50280},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1551, col: 5, offset: 50172},
+					pos: position{line: 1555, col: 5, offset: 50280},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1551, col: 5, offset: 50172},
+							pos:   position{line: 1555, col: 5, offset: 50280},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1551, col: 12, offset: 50179},
+								pos: position{line: 1555, col: 12, offset: 50287},
 								expr: &seqExpr{
-									pos: position{line: 1551, col: 13, offset: 50180},
+									pos: position{line: 1555, col: 13, offset: 50288},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1551, col: 13, offset: 50180},
+											pos: position{line: 1555, col: 13, offset: 50288},
 											expr: &actionExpr{
-												pos: position{line: 2892, col: 10, offset: 91469},
+												pos: position{line: 2896, col: 10, offset: 91577},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2892, col: 10, offset: 91469},
+													pos:        position{line: 2896, col: 10, offset: 91577},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -29983,25 +30005,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2901, col: 12, offset: 91640},
+											pos: position{line: 2905, col: 12, offset: 91748},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2901, col: 13, offset: 91641},
+												pos: position{line: 2905, col: 13, offset: 91749},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2901, col: 13, offset: 91641},
+														pos:        position{line: 2905, col: 13, offset: 91749},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2901, col: 20, offset: 91648},
+														pos:        position{line: 2905, col: 20, offset: 91756},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2901, col: 29, offset: 91657},
+														pos:        position{line: 2905, col: 29, offset: 91765},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -30014,18 +30036,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1558, col: 27, offset: 50384},
+							pos:        position{line: 1562, col: 27, offset: 50492},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1558, col: 31, offset: 50388},
+							pos: position{line: 1562, col: 31, offset: 50496},
 							expr: &actionExpr{
-								pos: position{line: 2892, col: 10, offset: 91469},
+								pos: position{line: 2896, col: 10, offset: 91577},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2892, col: 10, offset: 91469},
+									pos:        position{line: 2896, col: 10, offset: 91577},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -30034,25 +30056,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2901, col: 12, offset: 91640},
+							pos: position{line: 2905, col: 12, offset: 91748},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2901, col: 13, offset: 91641},
+								pos: position{line: 2905, col: 13, offset: 91749},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2901, col: 13, offset: 91641},
+										pos:        position{line: 2905, col: 13, offset: 91749},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2901, col: 20, offset: 91648},
+										pos:        position{line: 2905, col: 20, offset: 91756},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2901, col: 29, offset: 91657},
+										pos:        position{line: 2905, col: 29, offset: 91765},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -30061,12 +30083,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1553, col: 5, offset: 50229},
+							pos:   position{line: 1557, col: 5, offset: 50337},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1553, col: 13, offset: 50237},
+								pos: position{line: 1557, col: 13, offset: 50345},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1553, col: 13, offset: 50237},
+									pos:  position{line: 1557, col: 13, offset: 50345},
 									name: "ListContinuationElement",
 								},
 							},
@@ -30077,46 +30099,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1560, col: 1, offset: 50404},
+			pos:  position{line: 1564, col: 1, offset: 50512},
 			expr: &actionExpr{
-				pos: position{line: 1561, col: 5, offset: 50475},
+				pos: position{line: 1565, col: 5, offset: 50583},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1561, col: 5, offset: 50475},
+					pos: position{line: 1565, col: 5, offset: 50583},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2909, col: 11, offset: 91803},
+							pos: position{line: 2913, col: 11, offset: 91911},
 							expr: &anyMatcher{
-								line: 2909, col: 13, offset: 91805,
+								line: 2913, col: 13, offset: 91913,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1562, col: 5, offset: 50503},
+							pos: position{line: 1566, col: 5, offset: 50611},
 							expr: &choiceExpr{
-								pos: position{line: 1499, col: 5, offset: 48461},
+								pos: position{line: 1503, col: 5, offset: 48569},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1592, col: 5, offset: 51395},
+										pos: position{line: 1596, col: 5, offset: 51503},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1592, col: 5, offset: 51395},
+											pos: position{line: 1596, col: 5, offset: 51503},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1592, col: 5, offset: 51395},
+													pos:   position{line: 1596, col: 5, offset: 51503},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1599, col: 5, offset: 51603},
+														pos: position{line: 1603, col: 5, offset: 51711},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1599, col: 5, offset: 51603},
+															pos: position{line: 1603, col: 5, offset: 51711},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1599, col: 5, offset: 51603},
+																	pos: position{line: 1603, col: 5, offset: 51711},
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 10, offset: 91469},
+																		pos: position{line: 2896, col: 10, offset: 91577},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 10, offset: 91469},
+																			pos:        position{line: 2896, col: 10, offset: 91577},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30125,27 +30147,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1599, col: 12, offset: 51610},
+																	pos:   position{line: 1603, col: 12, offset: 51718},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1601, col: 9, offset: 51673},
+																		pos: position{line: 1605, col: 9, offset: 51781},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1601, col: 9, offset: 51673},
+																				pos: position{line: 1605, col: 9, offset: 51781},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1601, col: 9, offset: 51673},
+																					pos: position{line: 1605, col: 9, offset: 51781},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1601, col: 9, offset: 51673},
+																							pos:   position{line: 1605, col: 9, offset: 51781},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1601, col: 16, offset: 51680},
+																								pos: position{line: 1605, col: 16, offset: 51788},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1601, col: 16, offset: 51680},
+																									pos: position{line: 1605, col: 16, offset: 51788},
 																									expr: &litMatcher{
-																										pos:        position{line: 1601, col: 17, offset: 51681},
+																										pos:        position{line: 1605, col: 17, offset: 51789},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -30154,22 +30176,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1605, col: 9, offset: 51781},
+																							pos: position{line: 1609, col: 9, offset: 51889},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1624, col: 11, offset: 52498},
+																				pos: position{line: 1628, col: 11, offset: 52606},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1624, col: 11, offset: 52498},
+																					pos: position{line: 1628, col: 11, offset: 52606},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1624, col: 11, offset: 52498},
+																							pos: position{line: 1628, col: 11, offset: 52606},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1624, col: 12, offset: 52499},
+																								pos:        position{line: 1628, col: 12, offset: 52607},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -30177,7 +30199,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1624, col: 20, offset: 52507},
+																							pos:        position{line: 1628, col: 20, offset: 52615},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30186,20 +30208,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1626, col: 13, offset: 52624},
+																				pos: position{line: 1630, col: 13, offset: 52732},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1626, col: 13, offset: 52624},
+																					pos: position{line: 1630, col: 13, offset: 52732},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1626, col: 14, offset: 52625},
+																							pos:        position{line: 1630, col: 14, offset: 52733},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1626, col: 21, offset: 52632},
+																							pos:        position{line: 1630, col: 21, offset: 52740},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30208,20 +30230,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1628, col: 13, offset: 52752},
+																				pos: position{line: 1632, col: 13, offset: 52860},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1628, col: 13, offset: 52752},
+																					pos: position{line: 1632, col: 13, offset: 52860},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1628, col: 14, offset: 52753},
+																							pos:        position{line: 1632, col: 14, offset: 52861},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1628, col: 21, offset: 52760},
+																							pos:        position{line: 1632, col: 21, offset: 52868},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30230,15 +30252,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1630, col: 13, offset: 52880},
+																				pos: position{line: 1634, col: 13, offset: 52988},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1630, col: 13, offset: 52880},
+																					pos: position{line: 1634, col: 13, offset: 52988},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1630, col: 13, offset: 52880},
+																							pos: position{line: 1634, col: 13, offset: 52988},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1630, col: 14, offset: 52881},
+																								pos:        position{line: 1634, col: 14, offset: 52989},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -30246,7 +30268,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1630, col: 26, offset: 52893},
+																							pos:        position{line: 1634, col: 26, offset: 53001},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30255,15 +30277,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1632, col: 13, offset: 53013},
+																				pos: position{line: 1636, col: 13, offset: 53121},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1632, col: 13, offset: 53013},
+																					pos: position{line: 1636, col: 13, offset: 53121},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1632, col: 13, offset: 53013},
+																							pos: position{line: 1636, col: 13, offset: 53121},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1632, col: 14, offset: 53014},
+																								pos:        position{line: 1636, col: 14, offset: 53122},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -30271,7 +30293,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1632, col: 26, offset: 53026},
+																							pos:        position{line: 1636, col: 26, offset: 53134},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30283,12 +30305,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2896, col: 11, offset: 91530},
+																	pos: position{line: 2900, col: 11, offset: 91638},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2896, col: 11, offset: 91530},
+																		pos: position{line: 2900, col: 11, offset: 91638},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 11, offset: 91530},
+																			pos:        position{line: 2900, col: 11, offset: 91638},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30301,26 +30323,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1593, col: 5, offset: 51434},
+													pos:   position{line: 1597, col: 5, offset: 51542},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1540, col: 5, offset: 49901},
+														pos: position{line: 1544, col: 5, offset: 50009},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1540, col: 5, offset: 49901},
+															pos: position{line: 1544, col: 5, offset: 50009},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1540, col: 5, offset: 49901},
+																	pos:   position{line: 1544, col: 5, offset: 50009},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1540, col: 14, offset: 49910},
+																		pos: position{line: 1544, col: 14, offset: 50018},
 																		expr: &actionExpr{
-																			pos: position{line: 1540, col: 15, offset: 49911},
+																			pos: position{line: 1544, col: 15, offset: 50019},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1540, col: 15, offset: 49911},
+																				pos: position{line: 1544, col: 15, offset: 50019},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1540, col: 15, offset: 49911},
+																					pos:        position{line: 1544, col: 15, offset: 50019},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30331,28 +30353,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30361,9 +30383,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -30376,27 +30398,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1642, col: 5, offset: 53292},
+										pos: position{line: 1646, col: 5, offset: 53400},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1642, col: 5, offset: 53292},
+											pos: position{line: 1646, col: 5, offset: 53400},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1642, col: 5, offset: 53292},
+													pos:   position{line: 1646, col: 5, offset: 53400},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1649, col: 5, offset: 53565},
+														pos: position{line: 1653, col: 5, offset: 53673},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1649, col: 5, offset: 53565},
+															pos: position{line: 1653, col: 5, offset: 53673},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1649, col: 5, offset: 53565},
+																	pos: position{line: 1653, col: 5, offset: 53673},
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 10, offset: 91469},
+																		pos: position{line: 2896, col: 10, offset: 91577},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 10, offset: 91469},
+																			pos:        position{line: 2896, col: 10, offset: 91577},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30405,24 +30427,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1650, col: 5, offset: 53577},
+																	pos:   position{line: 1654, col: 5, offset: 53685},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1651, col: 9, offset: 53593},
+																		pos: position{line: 1655, col: 9, offset: 53701},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1651, col: 10, offset: 53594},
+																			pos: position{line: 1655, col: 10, offset: 53702},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1651, col: 11, offset: 53595},
+																					pos:        position{line: 1655, col: 11, offset: 53703},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1651, col: 18, offset: 53602},
+																					pos: position{line: 1655, col: 18, offset: 53710},
 																					expr: &litMatcher{
-																						pos:        position{line: 1651, col: 19, offset: 53603},
+																						pos:        position{line: 1655, col: 19, offset: 53711},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -30433,16 +30455,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1654, col: 7, offset: 53693},
+																	pos: position{line: 1658, col: 7, offset: 53801},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2896, col: 11, offset: 91530},
+																	pos: position{line: 2900, col: 11, offset: 91638},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2896, col: 11, offset: 91530},
+																		pos: position{line: 2900, col: 11, offset: 91638},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 11, offset: 91530},
+																			pos:        position{line: 2900, col: 11, offset: 91638},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30455,56 +30477,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1643, col: 5, offset: 53333},
+													pos:   position{line: 1647, col: 5, offset: 53441},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1643, col: 16, offset: 53344},
+														pos: position{line: 1647, col: 16, offset: 53452},
 														expr: &actionExpr{
-															pos: position{line: 1664, col: 5, offset: 53958},
+															pos: position{line: 1668, col: 5, offset: 54066},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1664, col: 5, offset: 53958},
+																pos: position{line: 1668, col: 5, offset: 54066},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1664, col: 5, offset: 53958},
+																		pos: position{line: 1668, col: 5, offset: 54066},
 																		expr: &litMatcher{
-																			pos:        position{line: 1664, col: 6, offset: 53959},
+																			pos:        position{line: 1668, col: 6, offset: 54067},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1664, col: 10, offset: 53963},
+																		pos:   position{line: 1668, col: 10, offset: 54071},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1665, col: 7, offset: 53977},
+																			pos: position{line: 1669, col: 7, offset: 54085},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1665, col: 7, offset: 53977},
+																					pos: position{line: 1669, col: 7, offset: 54085},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1665, col: 7, offset: 53977},
+																						pos:        position{line: 1669, col: 7, offset: 54085},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1666, col: 7, offset: 54022},
+																					pos: position{line: 1670, col: 7, offset: 54130},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1666, col: 7, offset: 54022},
+																						pos:        position{line: 1670, col: 7, offset: 54130},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1667, col: 7, offset: 54065},
+																					pos: position{line: 1671, col: 7, offset: 54173},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1667, col: 7, offset: 54065},
+																						pos:        position{line: 1671, col: 7, offset: 54173},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -30514,12 +30536,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2896, col: 11, offset: 91530},
+																		pos: position{line: 2900, col: 11, offset: 91638},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2896, col: 11, offset: 91530},
+																			pos: position{line: 2900, col: 11, offset: 91638},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 11, offset: 91530},
+																				pos:        position{line: 2900, col: 11, offset: 91638},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30533,26 +30555,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1644, col: 5, offset: 53383},
+													pos:   position{line: 1648, col: 5, offset: 53491},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1540, col: 5, offset: 49901},
+														pos: position{line: 1544, col: 5, offset: 50009},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1540, col: 5, offset: 49901},
+															pos: position{line: 1544, col: 5, offset: 50009},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1540, col: 5, offset: 49901},
+																	pos:   position{line: 1544, col: 5, offset: 50009},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1540, col: 14, offset: 49910},
+																		pos: position{line: 1544, col: 14, offset: 50018},
 																		expr: &actionExpr{
-																			pos: position{line: 1540, col: 15, offset: 49911},
+																			pos: position{line: 1544, col: 15, offset: 50019},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1540, col: 15, offset: 49911},
+																				pos: position{line: 1544, col: 15, offset: 50019},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1540, col: 15, offset: 49911},
+																					pos:        position{line: 1544, col: 15, offset: 50019},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30563,28 +30585,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30593,9 +30615,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -30608,36 +30630,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1733, col: 5, offset: 55937},
+										pos: position{line: 1737, col: 5, offset: 56045},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1733, col: 5, offset: 55937},
+											pos: position{line: 1737, col: 5, offset: 56045},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1733, col: 5, offset: 55937},
+													pos:   position{line: 1737, col: 5, offset: 56045},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1739, col: 5, offset: 56134},
+														pos: position{line: 1743, col: 5, offset: 56242},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1739, col: 5, offset: 56134},
+															pos: position{line: 1743, col: 5, offset: 56242},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1739, col: 5, offset: 56134},
+																	pos:        position{line: 1743, col: 5, offset: 56242},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1739, col: 9, offset: 56138},
+																	pos:   position{line: 1743, col: 9, offset: 56246},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1739, col: 14, offset: 56143},
+																		pos: position{line: 1743, col: 14, offset: 56251},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1739, col: 14, offset: 56143},
+																			pos: position{line: 1743, col: 14, offset: 56251},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1739, col: 14, offset: 56143},
+																				pos:        position{line: 1743, col: 14, offset: 56251},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30647,18 +30669,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1739, col: 62, offset: 56191},
+																	pos:        position{line: 1743, col: 62, offset: 56299},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2896, col: 11, offset: 91530},
+																	pos: position{line: 2900, col: 11, offset: 91638},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2896, col: 11, offset: 91530},
+																		pos: position{line: 2900, col: 11, offset: 91638},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 11, offset: 91530},
+																			pos:        position{line: 2900, col: 11, offset: 91638},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30671,26 +30693,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1734, col: 5, offset: 55973},
+													pos:   position{line: 1738, col: 5, offset: 56081},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1540, col: 5, offset: 49901},
+														pos: position{line: 1544, col: 5, offset: 50009},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1540, col: 5, offset: 49901},
+															pos: position{line: 1544, col: 5, offset: 50009},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1540, col: 5, offset: 49901},
+																	pos:   position{line: 1544, col: 5, offset: 50009},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1540, col: 14, offset: 49910},
+																		pos: position{line: 1544, col: 14, offset: 50018},
 																		expr: &actionExpr{
-																			pos: position{line: 1540, col: 15, offset: 49911},
+																			pos: position{line: 1544, col: 15, offset: 50019},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1540, col: 15, offset: 49911},
+																				pos: position{line: 1544, col: 15, offset: 50019},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1540, col: 15, offset: 49911},
+																					pos:        position{line: 1544, col: 15, offset: 50019},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30701,28 +30723,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30731,9 +30753,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -30746,35 +30768,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1676, col: 5, offset: 54258},
+										pos: position{line: 1680, col: 5, offset: 54366},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1676, col: 5, offset: 54258},
+											pos: position{line: 1680, col: 5, offset: 54366},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1676, col: 5, offset: 54258},
+													pos:   position{line: 1680, col: 5, offset: 54366},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1684, col: 5, offset: 54584},
+														pos: position{line: 1688, col: 5, offset: 54692},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1684, col: 5, offset: 54584},
+															pos: position{line: 1688, col: 5, offset: 54692},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1684, col: 5, offset: 54584},
+																	pos: position{line: 1688, col: 5, offset: 54692},
 																	expr: &seqExpr{
-																		pos: position{line: 2498, col: 31, offset: 80450},
+																		pos: position{line: 2502, col: 31, offset: 80558},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2498, col: 31, offset: 80450},
+																				pos:        position{line: 2502, col: 31, offset: 80558},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2498, col: 36, offset: 80455},
+																				pos: position{line: 2502, col: 36, offset: 80563},
 																				expr: &litMatcher{
-																					pos:        position{line: 2498, col: 37, offset: 80456},
+																					pos:        position{line: 2502, col: 37, offset: 80564},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -30784,28 +30806,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1685, col: 5, offset: 54616},
+																	pos: position{line: 1689, col: 5, offset: 54724},
 																	expr: &seqExpr{
-																		pos: position{line: 1685, col: 6, offset: 54617},
+																		pos: position{line: 1689, col: 6, offset: 54725},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1685, col: 6, offset: 54617},
+																				pos: position{line: 1689, col: 6, offset: 54725},
 																				expr: &actionExpr{
-																					pos: position{line: 1690, col: 5, offset: 54767},
+																					pos: position{line: 1694, col: 5, offset: 54875},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1690, col: 5, offset: 54767},
+																						pos: position{line: 1694, col: 5, offset: 54875},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1690, col: 5, offset: 54767},
+																								pos:   position{line: 1694, col: 5, offset: 54875},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1690, col: 16, offset: 54778},
+																									pos: position{line: 1694, col: 16, offset: 54886},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1690, col: 16, offset: 54778},
+																										pos: position{line: 1694, col: 16, offset: 54886},
 																										expr: &litMatcher{
-																											pos:        position{line: 1690, col: 17, offset: 54779},
+																											pos:        position{line: 1694, col: 17, offset: 54887},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -30814,7 +30836,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1693, col: 5, offset: 54836},
+																								pos: position{line: 1697, col: 5, offset: 54944},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -30822,30 +30844,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1685, col: 35, offset: 54646},
+																				pos: position{line: 1689, col: 35, offset: 54754},
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 8, offset: 91867},
+																					pos: position{line: 2918, col: 8, offset: 91975},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2901, col: 12, offset: 91640},
+																							pos: position{line: 2905, col: 12, offset: 91748},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2901, col: 13, offset: 91641},
+																								pos: position{line: 2905, col: 13, offset: 91749},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 13, offset: 91641},
+																										pos:        position{line: 2905, col: 13, offset: 91749},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 20, offset: 91648},
+																										pos:        position{line: 2905, col: 20, offset: 91756},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 29, offset: 91657},
+																										pos:        position{line: 2905, col: 29, offset: 91765},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30854,16 +30876,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2911, col: 8, offset: 91817},
+																							pos: position{line: 2915, col: 8, offset: 91925},
 																							expr: &anyMatcher{
-																								line: 2911, col: 9, offset: 91818,
+																								line: 2915, col: 9, offset: 91926,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1685, col: 40, offset: 54651,
+																				line: 1689, col: 40, offset: 54759,
 																			},
 																		},
 																	},
@@ -30873,24 +30895,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1677, col: 5, offset: 54293},
+													pos:   position{line: 1681, col: 5, offset: 54401},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1690, col: 5, offset: 54767},
+														pos: position{line: 1694, col: 5, offset: 54875},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1690, col: 5, offset: 54767},
+															pos: position{line: 1694, col: 5, offset: 54875},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1690, col: 5, offset: 54767},
+																	pos:   position{line: 1694, col: 5, offset: 54875},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1690, col: 16, offset: 54778},
+																		pos: position{line: 1694, col: 16, offset: 54886},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1690, col: 16, offset: 54778},
+																			pos: position{line: 1694, col: 16, offset: 54886},
 																			expr: &litMatcher{
-																				pos:        position{line: 1690, col: 17, offset: 54779},
+																				pos:        position{line: 1694, col: 17, offset: 54887},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30899,7 +30921,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1693, col: 5, offset: 54836},
+																	pos: position{line: 1697, col: 5, offset: 54944},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -30907,24 +30929,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1678, col: 5, offset: 54338},
+													pos:   position{line: 1682, col: 5, offset: 54446},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1701, col: 5, offset: 55085},
+														pos: position{line: 1705, col: 5, offset: 55193},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1703, col: 9, offset: 55151},
+																pos: position{line: 1707, col: 9, offset: 55259},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1703, col: 9, offset: 55151},
+																	pos: position{line: 1707, col: 9, offset: 55259},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1703, col: 9, offset: 55151},
+																			pos: position{line: 1707, col: 9, offset: 55259},
 																			expr: &actionExpr{
-																				pos: position{line: 2892, col: 10, offset: 91469},
+																				pos: position{line: 2896, col: 10, offset: 91577},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2892, col: 10, offset: 91469},
+																					pos:        position{line: 2896, col: 10, offset: 91577},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30933,28 +30955,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2914, col: 8, offset: 91867},
+																			pos: position{line: 2918, col: 8, offset: 91975},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2901, col: 12, offset: 91640},
+																					pos: position{line: 2905, col: 12, offset: 91748},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2901, col: 13, offset: 91641},
+																						pos: position{line: 2905, col: 13, offset: 91749},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 13, offset: 91641},
+																								pos:        position{line: 2905, col: 13, offset: 91749},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 20, offset: 91648},
+																								pos:        position{line: 2905, col: 20, offset: 91756},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 29, offset: 91657},
+																								pos:        position{line: 2905, col: 29, offset: 91765},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30963,15 +30985,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1704, col: 9, offset: 55170},
+																			pos: position{line: 1708, col: 9, offset: 55278},
 																			expr: &actionExpr{
 																				pos: position{line: 687, col: 14, offset: 21835},
 																				run: (*parser).callonListContinuationElement201,
@@ -30979,18 +31001,18 @@ var g = &grammar{
 																					pos: position{line: 687, col: 14, offset: 21835},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2909, col: 11, offset: 91803},
+																							pos: position{line: 2913, col: 11, offset: 91911},
 																							expr: &anyMatcher{
-																								line: 2909, col: 13, offset: 91805,
+																								line: 2913, col: 13, offset: 91913,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 687, col: 21, offset: 21842},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -30999,28 +31021,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31029,9 +31051,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -31044,18 +31066,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1710, col: 9, offset: 55299},
+																pos: position{line: 1714, col: 9, offset: 55407},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1710, col: 9, offset: 55299},
+																	pos: position{line: 1714, col: 9, offset: 55407},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2896, col: 11, offset: 91530},
+																			pos: position{line: 2900, col: 11, offset: 91638},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2896, col: 11, offset: 91530},
+																				pos: position{line: 2900, col: 11, offset: 91638},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2896, col: 11, offset: 91530},
+																					pos:        position{line: 2900, col: 11, offset: 91638},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31064,15 +31086,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1711, col: 9, offset: 55372},
+																			pos:   position{line: 1715, col: 9, offset: 55480},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1711, col: 18, offset: 55381},
+																				pos: position{line: 1715, col: 18, offset: 55489},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1711, col: 18, offset: 55381},
+																					pos: position{line: 1715, col: 18, offset: 55489},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1711, col: 18, offset: 55381},
+																						pos:        position{line: 1715, col: 18, offset: 55489},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -31082,28 +31104,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2914, col: 8, offset: 91867},
+																			pos: position{line: 2918, col: 8, offset: 91975},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2901, col: 12, offset: 91640},
+																					pos: position{line: 2905, col: 12, offset: 91748},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2901, col: 13, offset: 91641},
+																						pos: position{line: 2905, col: 13, offset: 91749},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 13, offset: 91641},
+																								pos:        position{line: 2905, col: 13, offset: 91749},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 20, offset: 91648},
+																								pos:        position{line: 2905, col: 20, offset: 91756},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 29, offset: 91657},
+																								pos:        position{line: 2905, col: 29, offset: 91765},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31112,9 +31134,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
@@ -31132,21 +31154,21 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1563, col: 5, offset: 50520},
+							pos:   position{line: 1567, col: 5, offset: 50628},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1563, col: 16, offset: 50531},
+								pos: position{line: 1567, col: 16, offset: 50639},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1563, col: 17, offset: 50532},
+									pos:  position{line: 1567, col: 17, offset: 50640},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1564, col: 5, offset: 50554},
+							pos:   position{line: 1568, col: 5, offset: 50662},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1565, col: 9, offset: 50572},
+								pos: position{line: 1569, col: 9, offset: 50680},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 687, col: 14, offset: 21835},
@@ -31155,18 +31177,18 @@ var g = &grammar{
 											pos: position{line: 687, col: 14, offset: 21835},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2909, col: 11, offset: 91803},
+													pos: position{line: 2913, col: 11, offset: 91911},
 													expr: &anyMatcher{
-														line: 2909, col: 13, offset: 91805,
+														line: 2913, col: 13, offset: 91913,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 687, col: 21, offset: 21842},
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 10, offset: 91469},
+														pos: position{line: 2896, col: 10, offset: 91577},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2892, col: 10, offset: 91469},
+															pos:        position{line: 2896, col: 10, offset: 91577},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31175,28 +31197,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2914, col: 8, offset: 91867},
+													pos: position{line: 2918, col: 8, offset: 91975},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2901, col: 12, offset: 91640},
+															pos: position{line: 2905, col: 12, offset: 91748},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2901, col: 13, offset: 91641},
+																pos: position{line: 2905, col: 13, offset: 91749},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 13, offset: 91641},
+																		pos:        position{line: 2905, col: 13, offset: 91749},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 20, offset: 91648},
+																		pos:        position{line: 2905, col: 20, offset: 91756},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 29, offset: 91657},
+																		pos:        position{line: 2905, col: 29, offset: 91765},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31205,9 +31227,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2911, col: 8, offset: 91817},
+															pos: position{line: 2915, col: 8, offset: 91925},
 															expr: &anyMatcher{
-																line: 2911, col: 9, offset: 91818,
+																line: 2915, col: 9, offset: 91926,
 															},
 														},
 													},
@@ -31216,7 +31238,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1566, col: 11, offset: 50592},
+										pos:  position{line: 1570, col: 11, offset: 50700},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -31272,10 +31294,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 367, col: 49, offset: 11183},
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 10, offset: 91469},
+														pos: position{line: 2896, col: 10, offset: 91577},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2892, col: 10, offset: 91469},
+															pos:        position{line: 2896, col: 10, offset: 91577},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31284,28 +31306,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2914, col: 8, offset: 91867},
+													pos: position{line: 2918, col: 8, offset: 91975},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2901, col: 12, offset: 91640},
+															pos: position{line: 2905, col: 12, offset: 91748},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2901, col: 13, offset: 91641},
+																pos: position{line: 2905, col: 13, offset: 91749},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 13, offset: 91641},
+																		pos:        position{line: 2905, col: 13, offset: 91749},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 20, offset: 91648},
+																		pos:        position{line: 2905, col: 20, offset: 91756},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 29, offset: 91657},
+																		pos:        position{line: 2905, col: 29, offset: 91765},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31314,9 +31336,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2911, col: 8, offset: 91817},
+															pos: position{line: 2915, col: 8, offset: 91925},
 															expr: &anyMatcher{
-																line: 2911, col: 9, offset: 91818,
+																line: 2915, col: 9, offset: 91926,
 															},
 														},
 													},
@@ -31377,10 +31399,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 369, col: 39, offset: 11304},
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 10, offset: 91469},
+														pos: position{line: 2896, col: 10, offset: 91577},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2892, col: 10, offset: 91469},
+															pos:        position{line: 2896, col: 10, offset: 91577},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31389,28 +31411,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2914, col: 8, offset: 91867},
+													pos: position{line: 2918, col: 8, offset: 91975},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2901, col: 12, offset: 91640},
+															pos: position{line: 2905, col: 12, offset: 91748},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2901, col: 13, offset: 91641},
+																pos: position{line: 2905, col: 13, offset: 91749},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 13, offset: 91641},
+																		pos:        position{line: 2905, col: 13, offset: 91749},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 20, offset: 91648},
+																		pos:        position{line: 2905, col: 20, offset: 91756},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 29, offset: 91657},
+																		pos:        position{line: 2905, col: 29, offset: 91765},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31419,9 +31441,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2911, col: 8, offset: 91817},
+															pos: position{line: 2915, col: 8, offset: 91925},
 															expr: &anyMatcher{
-																line: 2911, col: 9, offset: 91818,
+																line: 2915, col: 9, offset: 91926,
 															},
 														},
 													},
@@ -31430,39 +31452,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 830, col: 5, offset: 26670},
+										pos: position{line: 834, col: 5, offset: 26778},
 										run: (*parser).callonListContinuationElement296,
 										expr: &seqExpr{
-											pos: position{line: 830, col: 5, offset: 26670},
+											pos: position{line: 834, col: 5, offset: 26778},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 830, col: 5, offset: 26670},
+													pos:   position{line: 834, col: 5, offset: 26778},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 750, col: 5, offset: 23930},
+														pos: position{line: 754, col: 5, offset: 24038},
 														run: (*parser).callonListContinuationElement299,
 														expr: &seqExpr{
-															pos: position{line: 750, col: 5, offset: 23930},
+															pos: position{line: 754, col: 5, offset: 24038},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 750, col: 5, offset: 23930},
+																	pos:   position{line: 754, col: 5, offset: 24038},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 750, col: 16, offset: 23941},
+																		pos: position{line: 754, col: 16, offset: 24049},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &seqExpr{
-																			pos: position{line: 750, col: 16, offset: 23941},
+																			pos: position{line: 754, col: 16, offset: 24049},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 750, col: 16, offset: 23941},
+																					pos:        position{line: 754, col: 16, offset: 24049},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 750, col: 23, offset: 23948},
+																					pos: position{line: 754, col: 23, offset: 24056},
 																					expr: &litMatcher{
-																						pos:        position{line: 750, col: 23, offset: 23948},
+																						pos:        position{line: 754, col: 23, offset: 24056},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -31473,12 +31495,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 752, col: 8, offset: 24032},
+																	pos: position{line: 756, col: 8, offset: 24140},
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 10, offset: 91469},
+																		pos: position{line: 2896, col: 10, offset: 91577},
 																		run: (*parser).callonListContinuationElement308,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 10, offset: 91469},
+																			pos:        position{line: 2896, col: 10, offset: 91577},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31487,28 +31509,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonListContinuationElement311,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31517,9 +31539,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -31529,56 +31551,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 831, col: 5, offset: 26709},
+													pos: position{line: 835, col: 5, offset: 26817},
 													run: (*parser).callonListContinuationElement318,
 												},
 												&labeledExpr{
-													pos:   position{line: 834, col: 5, offset: 26801},
+													pos:   position{line: 838, col: 5, offset: 26909},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 849, col: 5, offset: 27199},
+														pos: position{line: 853, col: 5, offset: 27307},
 														expr: &actionExpr{
-															pos: position{line: 849, col: 6, offset: 27200},
+															pos: position{line: 853, col: 6, offset: 27308},
 															run: (*parser).callonListContinuationElement321,
 															expr: &seqExpr{
-																pos: position{line: 849, col: 6, offset: 27200},
+																pos: position{line: 853, col: 6, offset: 27308},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 849, col: 6, offset: 27200},
+																		pos: position{line: 853, col: 6, offset: 27308},
 																		expr: &choiceExpr{
-																			pos: position{line: 842, col: 5, offset: 27041},
+																			pos: position{line: 846, col: 5, offset: 27149},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 842, col: 5, offset: 27041},
+																					pos: position{line: 846, col: 5, offset: 27149},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 842, col: 5, offset: 27041},
+																							pos:   position{line: 846, col: 5, offset: 27149},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 750, col: 5, offset: 23930},
+																								pos: position{line: 754, col: 5, offset: 24038},
 																								run: (*parser).callonListContinuationElement327,
 																								expr: &seqExpr{
-																									pos: position{line: 750, col: 5, offset: 23930},
+																									pos: position{line: 754, col: 5, offset: 24038},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 750, col: 5, offset: 23930},
+																											pos:   position{line: 754, col: 5, offset: 24038},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 750, col: 16, offset: 23941},
+																												pos: position{line: 754, col: 16, offset: 24049},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &seqExpr{
-																													pos: position{line: 750, col: 16, offset: 23941},
+																													pos: position{line: 754, col: 16, offset: 24049},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 750, col: 16, offset: 23941},
+																															pos:        position{line: 754, col: 16, offset: 24049},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 750, col: 23, offset: 23948},
+																															pos: position{line: 754, col: 23, offset: 24056},
 																															expr: &litMatcher{
-																																pos:        position{line: 750, col: 23, offset: 23948},
+																																pos:        position{line: 754, col: 23, offset: 24056},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -31589,12 +31611,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 752, col: 8, offset: 24032},
+																											pos: position{line: 756, col: 8, offset: 24140},
 																											expr: &actionExpr{
-																												pos: position{line: 2892, col: 10, offset: 91469},
+																												pos: position{line: 2896, col: 10, offset: 91577},
 																												run: (*parser).callonListContinuationElement336,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2892, col: 10, offset: 91469},
+																													pos:        position{line: 2896, col: 10, offset: 91577},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31603,28 +31625,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2914, col: 8, offset: 91867},
+																											pos: position{line: 2918, col: 8, offset: 91975},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2901, col: 12, offset: 91640},
+																													pos: position{line: 2905, col: 12, offset: 91748},
 																													run: (*parser).callonListContinuationElement339,
 																													expr: &choiceExpr{
-																														pos: position{line: 2901, col: 13, offset: 91641},
+																														pos: position{line: 2905, col: 13, offset: 91749},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 13, offset: 91641},
+																																pos:        position{line: 2905, col: 13, offset: 91749},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 20, offset: 91648},
+																																pos:        position{line: 2905, col: 20, offset: 91756},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 29, offset: 91657},
+																																pos:        position{line: 2905, col: 29, offset: 91765},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31633,9 +31655,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2911, col: 8, offset: 91817},
+																													pos: position{line: 2915, col: 8, offset: 91925},
 																													expr: &anyMatcher{
-																														line: 2911, col: 9, offset: 91818,
+																														line: 2915, col: 9, offset: 91926,
 																													},
 																												},
 																											},
@@ -31645,45 +31667,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 843, col: 5, offset: 27072},
+																							pos: position{line: 847, col: 5, offset: 27180},
 																							run: (*parser).callonListContinuationElement346,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 850, col: 5, offset: 27230},
+																		pos:   position{line: 854, col: 5, offset: 27338},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 821, col: 5, offset: 26434},
+																			pos: position{line: 825, col: 5, offset: 26542},
 																			run: (*parser).callonListContinuationElement350,
 																			expr: &seqExpr{
-																				pos: position{line: 821, col: 5, offset: 26434},
+																				pos: position{line: 825, col: 5, offset: 26542},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2909, col: 11, offset: 91803},
+																						pos: position{line: 2913, col: 11, offset: 91911},
 																						expr: &anyMatcher{
-																							line: 2909, col: 13, offset: 91805,
+																							line: 2913, col: 13, offset: 91913,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 822, col: 5, offset: 26509},
+																						pos:   position{line: 826, col: 5, offset: 26617},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2838, col: 13, offset: 89995},
+																							pos: position{line: 2842, col: 13, offset: 90103},
 																							run: (*parser).callonListContinuationElement355,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2838, col: 13, offset: 89995},
+																									pos:        position{line: 2842, col: 13, offset: 90103},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31693,28 +31715,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2914, col: 8, offset: 91867},
+																						pos: position{line: 2918, col: 8, offset: 91975},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2901, col: 12, offset: 91640},
+																								pos: position{line: 2905, col: 12, offset: 91748},
 																								run: (*parser).callonListContinuationElement359,
 																								expr: &choiceExpr{
-																									pos: position{line: 2901, col: 13, offset: 91641},
+																									pos: position{line: 2905, col: 13, offset: 91749},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91641},
+																											pos:        position{line: 2905, col: 13, offset: 91749},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 20, offset: 91648},
+																											pos:        position{line: 2905, col: 20, offset: 91756},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 29, offset: 91657},
+																											pos:        position{line: 2905, col: 29, offset: 91765},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31723,9 +31745,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 8, offset: 91817},
+																								pos: position{line: 2915, col: 8, offset: 91925},
 																								expr: &anyMatcher{
-																									line: 2911, col: 9, offset: 91818,
+																									line: 2915, col: 9, offset: 91926,
 																								},
 																							},
 																						},
@@ -31740,44 +31762,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 835, col: 5, offset: 26835},
+													pos:   position{line: 839, col: 5, offset: 26943},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 835, col: 9, offset: 26839},
+														pos: position{line: 839, col: 9, offset: 26947},
 														expr: &choiceExpr{
-															pos: position{line: 842, col: 5, offset: 27041},
+															pos: position{line: 846, col: 5, offset: 27149},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 842, col: 5, offset: 27041},
+																	pos: position{line: 846, col: 5, offset: 27149},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 842, col: 5, offset: 27041},
+																			pos:   position{line: 846, col: 5, offset: 27149},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 750, col: 5, offset: 23930},
+																				pos: position{line: 754, col: 5, offset: 24038},
 																				run: (*parser).callonListContinuationElement371,
 																				expr: &seqExpr{
-																					pos: position{line: 750, col: 5, offset: 23930},
+																					pos: position{line: 754, col: 5, offset: 24038},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 750, col: 5, offset: 23930},
+																							pos:   position{line: 754, col: 5, offset: 24038},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 750, col: 16, offset: 23941},
+																								pos: position{line: 754, col: 16, offset: 24049},
 																								run: (*parser).callonListContinuationElement374,
 																								expr: &seqExpr{
-																									pos: position{line: 750, col: 16, offset: 23941},
+																									pos: position{line: 754, col: 16, offset: 24049},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 750, col: 16, offset: 23941},
+																											pos:        position{line: 754, col: 16, offset: 24049},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 750, col: 23, offset: 23948},
+																											pos: position{line: 754, col: 23, offset: 24056},
 																											expr: &litMatcher{
-																												pos:        position{line: 750, col: 23, offset: 23948},
+																												pos:        position{line: 754, col: 23, offset: 24056},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -31788,12 +31810,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 752, col: 8, offset: 24032},
+																							pos: position{line: 756, col: 8, offset: 24140},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonListContinuationElement380,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31802,28 +31824,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonListContinuationElement383,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31832,9 +31854,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -31844,15 +31866,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 843, col: 5, offset: 27072},
+																			pos: position{line: 847, col: 5, offset: 27180},
 																			run: (*parser).callonListContinuationElement390,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2911, col: 8, offset: 91817},
+																	pos: position{line: 2915, col: 8, offset: 91925},
 																	expr: &anyMatcher{
-																		line: 2911, col: 9, offset: 91818,
+																		line: 2915, col: 9, offset: 91926,
 																	},
 																},
 															},
@@ -31863,39 +31885,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 858, col: 5, offset: 27383},
+										pos: position{line: 862, col: 5, offset: 27491},
 										run: (*parser).callonListContinuationElement393,
 										expr: &seqExpr{
-											pos: position{line: 858, col: 5, offset: 27383},
+											pos: position{line: 862, col: 5, offset: 27491},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 858, col: 5, offset: 27383},
+													pos:   position{line: 862, col: 5, offset: 27491},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 757, col: 5, offset: 24178},
+														pos: position{line: 761, col: 5, offset: 24286},
 														run: (*parser).callonListContinuationElement396,
 														expr: &seqExpr{
-															pos: position{line: 757, col: 5, offset: 24178},
+															pos: position{line: 761, col: 5, offset: 24286},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 757, col: 5, offset: 24178},
+																	pos:   position{line: 761, col: 5, offset: 24286},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 757, col: 16, offset: 24189},
+																		pos: position{line: 761, col: 16, offset: 24297},
 																		run: (*parser).callonListContinuationElement399,
 																		expr: &seqExpr{
-																			pos: position{line: 757, col: 16, offset: 24189},
+																			pos: position{line: 761, col: 16, offset: 24297},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 757, col: 16, offset: 24189},
+																					pos:        position{line: 761, col: 16, offset: 24297},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 757, col: 23, offset: 24196},
+																					pos: position{line: 761, col: 23, offset: 24304},
 																					expr: &litMatcher{
-																						pos:        position{line: 757, col: 23, offset: 24196},
+																						pos:        position{line: 761, col: 23, offset: 24304},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -31906,12 +31928,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 759, col: 8, offset: 24280},
+																	pos: position{line: 763, col: 8, offset: 24388},
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 10, offset: 91469},
+																		pos: position{line: 2896, col: 10, offset: 91577},
 																		run: (*parser).callonListContinuationElement405,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 10, offset: 91469},
+																			pos:        position{line: 2896, col: 10, offset: 91577},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31920,28 +31942,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonListContinuationElement408,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31950,9 +31972,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -31962,56 +31984,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 859, col: 5, offset: 27422},
+													pos: position{line: 863, col: 5, offset: 27530},
 													run: (*parser).callonListContinuationElement415,
 												},
 												&labeledExpr{
-													pos:   position{line: 862, col: 5, offset: 27514},
+													pos:   position{line: 866, col: 5, offset: 27622},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 877, col: 4, offset: 27911},
+														pos: position{line: 881, col: 4, offset: 28019},
 														expr: &actionExpr{
-															pos: position{line: 877, col: 5, offset: 27912},
+															pos: position{line: 881, col: 5, offset: 28020},
 															run: (*parser).callonListContinuationElement418,
 															expr: &seqExpr{
-																pos: position{line: 877, col: 5, offset: 27912},
+																pos: position{line: 881, col: 5, offset: 28020},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 877, col: 5, offset: 27912},
+																		pos: position{line: 881, col: 5, offset: 28020},
 																		expr: &choiceExpr{
-																			pos: position{line: 870, col: 5, offset: 27754},
+																			pos: position{line: 874, col: 5, offset: 27862},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 870, col: 5, offset: 27754},
+																					pos: position{line: 874, col: 5, offset: 27862},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 870, col: 5, offset: 27754},
+																							pos:   position{line: 874, col: 5, offset: 27862},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 757, col: 5, offset: 24178},
+																								pos: position{line: 761, col: 5, offset: 24286},
 																								run: (*parser).callonListContinuationElement424,
 																								expr: &seqExpr{
-																									pos: position{line: 757, col: 5, offset: 24178},
+																									pos: position{line: 761, col: 5, offset: 24286},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 757, col: 5, offset: 24178},
+																											pos:   position{line: 761, col: 5, offset: 24286},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 757, col: 16, offset: 24189},
+																												pos: position{line: 761, col: 16, offset: 24297},
 																												run: (*parser).callonListContinuationElement427,
 																												expr: &seqExpr{
-																													pos: position{line: 757, col: 16, offset: 24189},
+																													pos: position{line: 761, col: 16, offset: 24297},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 757, col: 16, offset: 24189},
+																															pos:        position{line: 761, col: 16, offset: 24297},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 757, col: 23, offset: 24196},
+																															pos: position{line: 761, col: 23, offset: 24304},
 																															expr: &litMatcher{
-																																pos:        position{line: 757, col: 23, offset: 24196},
+																																pos:        position{line: 761, col: 23, offset: 24304},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -32022,12 +32044,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 759, col: 8, offset: 24280},
+																											pos: position{line: 763, col: 8, offset: 24388},
 																											expr: &actionExpr{
-																												pos: position{line: 2892, col: 10, offset: 91469},
+																												pos: position{line: 2896, col: 10, offset: 91577},
 																												run: (*parser).callonListContinuationElement433,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2892, col: 10, offset: 91469},
+																													pos:        position{line: 2896, col: 10, offset: 91577},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32036,28 +32058,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2914, col: 8, offset: 91867},
+																											pos: position{line: 2918, col: 8, offset: 91975},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2901, col: 12, offset: 91640},
+																													pos: position{line: 2905, col: 12, offset: 91748},
 																													run: (*parser).callonListContinuationElement436,
 																													expr: &choiceExpr{
-																														pos: position{line: 2901, col: 13, offset: 91641},
+																														pos: position{line: 2905, col: 13, offset: 91749},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 13, offset: 91641},
+																																pos:        position{line: 2905, col: 13, offset: 91749},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 20, offset: 91648},
+																																pos:        position{line: 2905, col: 20, offset: 91756},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 29, offset: 91657},
+																																pos:        position{line: 2905, col: 29, offset: 91765},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32066,9 +32088,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2911, col: 8, offset: 91817},
+																													pos: position{line: 2915, col: 8, offset: 91925},
 																													expr: &anyMatcher{
-																														line: 2911, col: 9, offset: 91818,
+																														line: 2915, col: 9, offset: 91926,
 																													},
 																												},
 																											},
@@ -32078,45 +32100,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 871, col: 5, offset: 27785},
+																							pos: position{line: 875, col: 5, offset: 27893},
 																							run: (*parser).callonListContinuationElement443,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 878, col: 5, offset: 27942},
+																		pos:   position{line: 882, col: 5, offset: 28050},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 821, col: 5, offset: 26434},
+																			pos: position{line: 825, col: 5, offset: 26542},
 																			run: (*parser).callonListContinuationElement447,
 																			expr: &seqExpr{
-																				pos: position{line: 821, col: 5, offset: 26434},
+																				pos: position{line: 825, col: 5, offset: 26542},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2909, col: 11, offset: 91803},
+																						pos: position{line: 2913, col: 11, offset: 91911},
 																						expr: &anyMatcher{
-																							line: 2909, col: 13, offset: 91805,
+																							line: 2913, col: 13, offset: 91913,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 822, col: 5, offset: 26509},
+																						pos:   position{line: 826, col: 5, offset: 26617},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2838, col: 13, offset: 89995},
+																							pos: position{line: 2842, col: 13, offset: 90103},
 																							run: (*parser).callonListContinuationElement452,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2838, col: 13, offset: 89995},
+																									pos:        position{line: 2842, col: 13, offset: 90103},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32126,28 +32148,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2914, col: 8, offset: 91867},
+																						pos: position{line: 2918, col: 8, offset: 91975},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2901, col: 12, offset: 91640},
+																								pos: position{line: 2905, col: 12, offset: 91748},
 																								run: (*parser).callonListContinuationElement456,
 																								expr: &choiceExpr{
-																									pos: position{line: 2901, col: 13, offset: 91641},
+																									pos: position{line: 2905, col: 13, offset: 91749},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91641},
+																											pos:        position{line: 2905, col: 13, offset: 91749},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 20, offset: 91648},
+																											pos:        position{line: 2905, col: 20, offset: 91756},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 29, offset: 91657},
+																											pos:        position{line: 2905, col: 29, offset: 91765},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32156,9 +32178,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 8, offset: 91817},
+																								pos: position{line: 2915, col: 8, offset: 91925},
 																								expr: &anyMatcher{
-																									line: 2911, col: 9, offset: 91818,
+																									line: 2915, col: 9, offset: 91926,
 																								},
 																							},
 																						},
@@ -32173,44 +32195,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 863, col: 5, offset: 27548},
+													pos:   position{line: 867, col: 5, offset: 27656},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 863, col: 9, offset: 27552},
+														pos: position{line: 867, col: 9, offset: 27660},
 														expr: &choiceExpr{
-															pos: position{line: 870, col: 5, offset: 27754},
+															pos: position{line: 874, col: 5, offset: 27862},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 870, col: 5, offset: 27754},
+																	pos: position{line: 874, col: 5, offset: 27862},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 870, col: 5, offset: 27754},
+																			pos:   position{line: 874, col: 5, offset: 27862},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 757, col: 5, offset: 24178},
+																				pos: position{line: 761, col: 5, offset: 24286},
 																				run: (*parser).callonListContinuationElement468,
 																				expr: &seqExpr{
-																					pos: position{line: 757, col: 5, offset: 24178},
+																					pos: position{line: 761, col: 5, offset: 24286},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 757, col: 5, offset: 24178},
+																							pos:   position{line: 761, col: 5, offset: 24286},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 757, col: 16, offset: 24189},
+																								pos: position{line: 761, col: 16, offset: 24297},
 																								run: (*parser).callonListContinuationElement471,
 																								expr: &seqExpr{
-																									pos: position{line: 757, col: 16, offset: 24189},
+																									pos: position{line: 761, col: 16, offset: 24297},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 757, col: 16, offset: 24189},
+																											pos:        position{line: 761, col: 16, offset: 24297},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 757, col: 23, offset: 24196},
+																											pos: position{line: 761, col: 23, offset: 24304},
 																											expr: &litMatcher{
-																												pos:        position{line: 757, col: 23, offset: 24196},
+																												pos:        position{line: 761, col: 23, offset: 24304},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -32221,12 +32243,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 759, col: 8, offset: 24280},
+																							pos: position{line: 763, col: 8, offset: 24388},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonListContinuationElement477,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32235,28 +32257,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonListContinuationElement480,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32265,9 +32287,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -32277,15 +32299,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 871, col: 5, offset: 27785},
+																			pos: position{line: 875, col: 5, offset: 27893},
 																			run: (*parser).callonListContinuationElement487,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2911, col: 8, offset: 91817},
+																	pos: position{line: 2915, col: 8, offset: 91925},
 																	expr: &anyMatcher{
-																		line: 2911, col: 9, offset: 91818,
+																		line: 2915, col: 9, offset: 91926,
 																	},
 																},
 															},
@@ -32296,36 +32318,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 970, col: 5, offset: 30234},
+										pos: position{line: 974, col: 5, offset: 30342},
 										run: (*parser).callonListContinuationElement490,
 										expr: &seqExpr{
-											pos: position{line: 970, col: 5, offset: 30234},
+											pos: position{line: 974, col: 5, offset: 30342},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 970, col: 5, offset: 30234},
+													pos:   position{line: 974, col: 5, offset: 30342},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 770, col: 26, offset: 24666},
+														pos: position{line: 774, col: 26, offset: 24774},
 														run: (*parser).callonListContinuationElement493,
 														expr: &seqExpr{
-															pos: position{line: 770, col: 26, offset: 24666},
+															pos: position{line: 774, col: 26, offset: 24774},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 770, col: 26, offset: 24666},
+																	pos:        position{line: 774, col: 26, offset: 24774},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 770, col: 32, offset: 24672},
+																	pos:   position{line: 774, col: 32, offset: 24780},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 774, col: 13, offset: 24802},
+																		pos: position{line: 778, col: 13, offset: 24910},
 																		run: (*parser).callonListContinuationElement497,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 774, col: 14, offset: 24803},
+																			pos: position{line: 778, col: 14, offset: 24911},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 774, col: 14, offset: 24803},
+																				pos:        position{line: 778, col: 14, offset: 24911},
 																				val:        "[^\\r\\n` ]",
 																				chars:      []rune{'\r', '\n', '`', ' '},
 																				ignoreCase: false,
@@ -32335,12 +32357,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 770, col: 52, offset: 24692},
+																	pos: position{line: 774, col: 52, offset: 24800},
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 10, offset: 91469},
+																		pos: position{line: 2896, col: 10, offset: 91577},
 																		run: (*parser).callonListContinuationElement501,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 10, offset: 91469},
+																			pos:        position{line: 2896, col: 10, offset: 91577},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32349,28 +32371,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonListContinuationElement504,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32379,9 +32401,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -32391,34 +32413,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 971, col: 5, offset: 30280},
+													pos:   position{line: 975, col: 5, offset: 30388},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 984, col: 5, offset: 30753},
+														pos: position{line: 988, col: 5, offset: 30861},
 														expr: &actionExpr{
-															pos: position{line: 984, col: 6, offset: 30754},
+															pos: position{line: 988, col: 6, offset: 30862},
 															run: (*parser).callonListContinuationElement513,
 															expr: &seqExpr{
-																pos: position{line: 984, col: 6, offset: 30754},
+																pos: position{line: 988, col: 6, offset: 30862},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 984, col: 6, offset: 30754},
+																		pos: position{line: 988, col: 6, offset: 30862},
 																		expr: &seqExpr{
-																			pos: position{line: 981, col: 34, offset: 30701},
+																			pos: position{line: 985, col: 34, offset: 30809},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 981, col: 34, offset: 30701},
+																					pos:        position{line: 985, col: 34, offset: 30809},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 981, col: 40, offset: 30707},
+																					pos: position{line: 985, col: 40, offset: 30815},
 																					expr: &actionExpr{
-																						pos: position{line: 2892, col: 10, offset: 91469},
+																						pos: position{line: 2896, col: 10, offset: 91577},
 																						run: (*parser).callonListContinuationElement519,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2892, col: 10, offset: 91469},
+																							pos:        position{line: 2896, col: 10, offset: 91577},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32427,28 +32449,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2914, col: 8, offset: 91867},
+																					pos: position{line: 2918, col: 8, offset: 91975},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2901, col: 12, offset: 91640},
+																							pos: position{line: 2905, col: 12, offset: 91748},
 																							run: (*parser).callonListContinuationElement522,
 																							expr: &choiceExpr{
-																								pos: position{line: 2901, col: 13, offset: 91641},
+																								pos: position{line: 2905, col: 13, offset: 91749},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 13, offset: 91641},
+																										pos:        position{line: 2905, col: 13, offset: 91749},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 20, offset: 91648},
+																										pos:        position{line: 2905, col: 20, offset: 91756},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 29, offset: 91657},
+																										pos:        position{line: 2905, col: 29, offset: 91765},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32457,9 +32479,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2911, col: 8, offset: 91817},
+																							pos: position{line: 2915, col: 8, offset: 91925},
 																							expr: &anyMatcher{
-																								line: 2911, col: 9, offset: 91818,
+																								line: 2915, col: 9, offset: 91926,
 																							},
 																						},
 																					},
@@ -32468,30 +32490,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 985, col: 5, offset: 30789},
+																		pos:   position{line: 989, col: 5, offset: 30897},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 821, col: 5, offset: 26434},
+																			pos: position{line: 825, col: 5, offset: 26542},
 																			run: (*parser).callonListContinuationElement530,
 																			expr: &seqExpr{
-																				pos: position{line: 821, col: 5, offset: 26434},
+																				pos: position{line: 825, col: 5, offset: 26542},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2909, col: 11, offset: 91803},
+																						pos: position{line: 2913, col: 11, offset: 91911},
 																						expr: &anyMatcher{
-																							line: 2909, col: 13, offset: 91805,
+																							line: 2913, col: 13, offset: 91913,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 822, col: 5, offset: 26509},
+																						pos:   position{line: 826, col: 5, offset: 26617},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2838, col: 13, offset: 89995},
+																							pos: position{line: 2842, col: 13, offset: 90103},
 																							run: (*parser).callonListContinuationElement535,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2838, col: 13, offset: 89995},
+																									pos:        position{line: 2842, col: 13, offset: 90103},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32501,28 +32523,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2914, col: 8, offset: 91867},
+																						pos: position{line: 2918, col: 8, offset: 91975},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2901, col: 12, offset: 91640},
+																								pos: position{line: 2905, col: 12, offset: 91748},
 																								run: (*parser).callonListContinuationElement539,
 																								expr: &choiceExpr{
-																									pos: position{line: 2901, col: 13, offset: 91641},
+																									pos: position{line: 2905, col: 13, offset: 91749},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91641},
+																											pos:        position{line: 2905, col: 13, offset: 91749},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 20, offset: 91648},
+																											pos:        position{line: 2905, col: 20, offset: 91756},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 29, offset: 91657},
+																											pos:        position{line: 2905, col: 29, offset: 91765},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32531,9 +32553,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 8, offset: 91817},
+																								pos: position{line: 2915, col: 8, offset: 91925},
 																								expr: &anyMatcher{
-																									line: 2911, col: 9, offset: 91818,
+																									line: 2915, col: 9, offset: 91926,
 																								},
 																							},
 																						},
@@ -32548,23 +32570,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 972, col: 5, offset: 30319},
+													pos: position{line: 976, col: 5, offset: 30427},
 													expr: &seqExpr{
-														pos: position{line: 981, col: 34, offset: 30701},
+														pos: position{line: 985, col: 34, offset: 30809},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 981, col: 34, offset: 30701},
+																pos:        position{line: 985, col: 34, offset: 30809},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 981, col: 40, offset: 30707},
+																pos: position{line: 985, col: 40, offset: 30815},
 																expr: &actionExpr{
-																	pos: position{line: 2892, col: 10, offset: 91469},
+																	pos: position{line: 2896, col: 10, offset: 91577},
 																	run: (*parser).callonListContinuationElement550,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2892, col: 10, offset: 91469},
+																		pos:        position{line: 2896, col: 10, offset: 91577},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32573,28 +32595,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2914, col: 8, offset: 91867},
+																pos: position{line: 2918, col: 8, offset: 91975},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2901, col: 12, offset: 91640},
+																		pos: position{line: 2905, col: 12, offset: 91748},
 																		run: (*parser).callonListContinuationElement553,
 																		expr: &choiceExpr{
-																			pos: position{line: 2901, col: 13, offset: 91641},
+																			pos: position{line: 2905, col: 13, offset: 91749},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2901, col: 13, offset: 91641},
+																					pos:        position{line: 2905, col: 13, offset: 91749},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2901, col: 20, offset: 91648},
+																					pos:        position{line: 2905, col: 20, offset: 91756},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2901, col: 29, offset: 91657},
+																					pos:        position{line: 2905, col: 29, offset: 91765},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32603,9 +32625,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2911, col: 8, offset: 91817},
+																		pos: position{line: 2915, col: 8, offset: 91925},
 																		expr: &anyMatcher{
-																			line: 2911, col: 9, offset: 91818,
+																			line: 2915, col: 9, offset: 91926,
 																		},
 																	},
 																},
@@ -32617,39 +32639,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 886, col: 5, offset: 28095},
+										pos: position{line: 890, col: 5, offset: 28203},
 										run: (*parser).callonListContinuationElement560,
 										expr: &seqExpr{
-											pos: position{line: 886, col: 5, offset: 28095},
+											pos: position{line: 890, col: 5, offset: 28203},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 886, col: 5, offset: 28095},
+													pos:   position{line: 890, col: 5, offset: 28203},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 764, col: 5, offset: 24425},
+														pos: position{line: 768, col: 5, offset: 24533},
 														run: (*parser).callonListContinuationElement563,
 														expr: &seqExpr{
-															pos: position{line: 764, col: 5, offset: 24425},
+															pos: position{line: 768, col: 5, offset: 24533},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 764, col: 5, offset: 24425},
+																	pos:   position{line: 768, col: 5, offset: 24533},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 764, col: 16, offset: 24436},
+																		pos: position{line: 768, col: 16, offset: 24544},
 																		run: (*parser).callonListContinuationElement566,
 																		expr: &seqExpr{
-																			pos: position{line: 764, col: 16, offset: 24436},
+																			pos: position{line: 768, col: 16, offset: 24544},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 764, col: 16, offset: 24436},
+																					pos:        position{line: 768, col: 16, offset: 24544},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 764, col: 22, offset: 24442},
+																					pos: position{line: 768, col: 22, offset: 24550},
 																					expr: &litMatcher{
-																						pos:        position{line: 764, col: 22, offset: 24442},
+																						pos:        position{line: 768, col: 22, offset: 24550},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -32660,12 +32682,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 766, col: 8, offset: 24526},
+																	pos: position{line: 770, col: 8, offset: 24634},
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 10, offset: 91469},
+																		pos: position{line: 2896, col: 10, offset: 91577},
 																		run: (*parser).callonListContinuationElement572,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 10, offset: 91469},
+																			pos:        position{line: 2896, col: 10, offset: 91577},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32674,28 +32696,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonListContinuationElement575,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32704,9 +32726,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -32716,56 +32738,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 887, col: 5, offset: 28133},
+													pos: position{line: 891, col: 5, offset: 28241},
 													run: (*parser).callonListContinuationElement582,
 												},
 												&labeledExpr{
-													pos:   position{line: 890, col: 5, offset: 28225},
+													pos:   position{line: 894, col: 5, offset: 28333},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 905, col: 5, offset: 28615},
+														pos: position{line: 909, col: 5, offset: 28723},
 														expr: &actionExpr{
-															pos: position{line: 905, col: 6, offset: 28616},
+															pos: position{line: 909, col: 6, offset: 28724},
 															run: (*parser).callonListContinuationElement585,
 															expr: &seqExpr{
-																pos: position{line: 905, col: 6, offset: 28616},
+																pos: position{line: 909, col: 6, offset: 28724},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 905, col: 6, offset: 28616},
+																		pos: position{line: 909, col: 6, offset: 28724},
 																		expr: &choiceExpr{
-																			pos: position{line: 898, col: 5, offset: 28459},
+																			pos: position{line: 902, col: 5, offset: 28567},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 898, col: 5, offset: 28459},
+																					pos: position{line: 902, col: 5, offset: 28567},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 898, col: 5, offset: 28459},
+																							pos:   position{line: 902, col: 5, offset: 28567},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 764, col: 5, offset: 24425},
+																								pos: position{line: 768, col: 5, offset: 24533},
 																								run: (*parser).callonListContinuationElement591,
 																								expr: &seqExpr{
-																									pos: position{line: 764, col: 5, offset: 24425},
+																									pos: position{line: 768, col: 5, offset: 24533},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 764, col: 5, offset: 24425},
+																											pos:   position{line: 768, col: 5, offset: 24533},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 764, col: 16, offset: 24436},
+																												pos: position{line: 768, col: 16, offset: 24544},
 																												run: (*parser).callonListContinuationElement594,
 																												expr: &seqExpr{
-																													pos: position{line: 764, col: 16, offset: 24436},
+																													pos: position{line: 768, col: 16, offset: 24544},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 764, col: 16, offset: 24436},
+																															pos:        position{line: 768, col: 16, offset: 24544},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 764, col: 22, offset: 24442},
+																															pos: position{line: 768, col: 22, offset: 24550},
 																															expr: &litMatcher{
-																																pos:        position{line: 764, col: 22, offset: 24442},
+																																pos:        position{line: 768, col: 22, offset: 24550},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -32776,12 +32798,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 766, col: 8, offset: 24526},
+																											pos: position{line: 770, col: 8, offset: 24634},
 																											expr: &actionExpr{
-																												pos: position{line: 2892, col: 10, offset: 91469},
+																												pos: position{line: 2896, col: 10, offset: 91577},
 																												run: (*parser).callonListContinuationElement600,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2892, col: 10, offset: 91469},
+																													pos:        position{line: 2896, col: 10, offset: 91577},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32790,28 +32812,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2914, col: 8, offset: 91867},
+																											pos: position{line: 2918, col: 8, offset: 91975},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2901, col: 12, offset: 91640},
+																													pos: position{line: 2905, col: 12, offset: 91748},
 																													run: (*parser).callonListContinuationElement603,
 																													expr: &choiceExpr{
-																														pos: position{line: 2901, col: 13, offset: 91641},
+																														pos: position{line: 2905, col: 13, offset: 91749},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 13, offset: 91641},
+																																pos:        position{line: 2905, col: 13, offset: 91749},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 20, offset: 91648},
+																																pos:        position{line: 2905, col: 20, offset: 91756},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 29, offset: 91657},
+																																pos:        position{line: 2905, col: 29, offset: 91765},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32820,9 +32842,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2911, col: 8, offset: 91817},
+																													pos: position{line: 2915, col: 8, offset: 91925},
 																													expr: &anyMatcher{
-																														line: 2911, col: 9, offset: 91818,
+																														line: 2915, col: 9, offset: 91926,
 																													},
 																												},
 																											},
@@ -32832,45 +32854,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 899, col: 5, offset: 28489},
+																							pos: position{line: 903, col: 5, offset: 28597},
 																							run: (*parser).callonListContinuationElement610,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 906, col: 5, offset: 28645},
+																		pos:   position{line: 910, col: 5, offset: 28753},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 821, col: 5, offset: 26434},
+																			pos: position{line: 825, col: 5, offset: 26542},
 																			run: (*parser).callonListContinuationElement614,
 																			expr: &seqExpr{
-																				pos: position{line: 821, col: 5, offset: 26434},
+																				pos: position{line: 825, col: 5, offset: 26542},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2909, col: 11, offset: 91803},
+																						pos: position{line: 2913, col: 11, offset: 91911},
 																						expr: &anyMatcher{
-																							line: 2909, col: 13, offset: 91805,
+																							line: 2913, col: 13, offset: 91913,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 822, col: 5, offset: 26509},
+																						pos:   position{line: 826, col: 5, offset: 26617},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2838, col: 13, offset: 89995},
+																							pos: position{line: 2842, col: 13, offset: 90103},
 																							run: (*parser).callonListContinuationElement619,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2838, col: 13, offset: 89995},
+																									pos:        position{line: 2842, col: 13, offset: 90103},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32880,28 +32902,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2914, col: 8, offset: 91867},
+																						pos: position{line: 2918, col: 8, offset: 91975},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2901, col: 12, offset: 91640},
+																								pos: position{line: 2905, col: 12, offset: 91748},
 																								run: (*parser).callonListContinuationElement623,
 																								expr: &choiceExpr{
-																									pos: position{line: 2901, col: 13, offset: 91641},
+																									pos: position{line: 2905, col: 13, offset: 91749},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91641},
+																											pos:        position{line: 2905, col: 13, offset: 91749},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 20, offset: 91648},
+																											pos:        position{line: 2905, col: 20, offset: 91756},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 29, offset: 91657},
+																											pos:        position{line: 2905, col: 29, offset: 91765},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32910,9 +32932,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 8, offset: 91817},
+																								pos: position{line: 2915, col: 8, offset: 91925},
 																								expr: &anyMatcher{
-																									line: 2911, col: 9, offset: 91818,
+																									line: 2915, col: 9, offset: 91926,
 																								},
 																							},
 																						},
@@ -32927,44 +32949,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 891, col: 5, offset: 28258},
+													pos:   position{line: 895, col: 5, offset: 28366},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 891, col: 9, offset: 28262},
+														pos: position{line: 895, col: 9, offset: 28370},
 														expr: &choiceExpr{
-															pos: position{line: 898, col: 5, offset: 28459},
+															pos: position{line: 902, col: 5, offset: 28567},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 898, col: 5, offset: 28459},
+																	pos: position{line: 902, col: 5, offset: 28567},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 898, col: 5, offset: 28459},
+																			pos:   position{line: 902, col: 5, offset: 28567},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 764, col: 5, offset: 24425},
+																				pos: position{line: 768, col: 5, offset: 24533},
 																				run: (*parser).callonListContinuationElement635,
 																				expr: &seqExpr{
-																					pos: position{line: 764, col: 5, offset: 24425},
+																					pos: position{line: 768, col: 5, offset: 24533},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 764, col: 5, offset: 24425},
+																							pos:   position{line: 768, col: 5, offset: 24533},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 764, col: 16, offset: 24436},
+																								pos: position{line: 768, col: 16, offset: 24544},
 																								run: (*parser).callonListContinuationElement638,
 																								expr: &seqExpr{
-																									pos: position{line: 764, col: 16, offset: 24436},
+																									pos: position{line: 768, col: 16, offset: 24544},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 764, col: 16, offset: 24436},
+																											pos:        position{line: 768, col: 16, offset: 24544},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 764, col: 22, offset: 24442},
+																											pos: position{line: 768, col: 22, offset: 24550},
 																											expr: &litMatcher{
-																												pos:        position{line: 764, col: 22, offset: 24442},
+																												pos:        position{line: 768, col: 22, offset: 24550},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -32975,12 +32997,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 766, col: 8, offset: 24526},
+																							pos: position{line: 770, col: 8, offset: 24634},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonListContinuationElement644,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32989,28 +33011,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonListContinuationElement647,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33019,9 +33041,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -33031,15 +33053,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 899, col: 5, offset: 28489},
+																			pos: position{line: 903, col: 5, offset: 28597},
 																			run: (*parser).callonListContinuationElement654,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2911, col: 8, offset: 91817},
+																	pos: position{line: 2915, col: 8, offset: 91925},
 																	expr: &anyMatcher{
-																		line: 2911, col: 9, offset: 91818,
+																		line: 2915, col: 9, offset: 91926,
 																	},
 																},
 															},
@@ -33050,39 +33072,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 914, col: 5, offset: 28800},
+										pos: position{line: 918, col: 5, offset: 28908},
 										run: (*parser).callonListContinuationElement657,
 										expr: &seqExpr{
-											pos: position{line: 914, col: 5, offset: 28800},
+											pos: position{line: 918, col: 5, offset: 28908},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 914, col: 5, offset: 28800},
+													pos:   position{line: 918, col: 5, offset: 28908},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 779, col: 5, offset: 24962},
+														pos: position{line: 783, col: 5, offset: 25070},
 														run: (*parser).callonListContinuationElement660,
 														expr: &seqExpr{
-															pos: position{line: 779, col: 5, offset: 24962},
+															pos: position{line: 783, col: 5, offset: 25070},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 779, col: 5, offset: 24962},
+																	pos:   position{line: 783, col: 5, offset: 25070},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 779, col: 16, offset: 24973},
+																		pos: position{line: 783, col: 16, offset: 25081},
 																		run: (*parser).callonListContinuationElement663,
 																		expr: &seqExpr{
-																			pos: position{line: 779, col: 16, offset: 24973},
+																			pos: position{line: 783, col: 16, offset: 25081},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 779, col: 16, offset: 24973},
+																					pos:        position{line: 783, col: 16, offset: 25081},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 779, col: 23, offset: 24980},
+																					pos: position{line: 783, col: 23, offset: 25088},
 																					expr: &litMatcher{
-																						pos:        position{line: 779, col: 23, offset: 24980},
+																						pos:        position{line: 783, col: 23, offset: 25088},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -33093,12 +33115,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 781, col: 8, offset: 25064},
+																	pos: position{line: 785, col: 8, offset: 25172},
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 10, offset: 91469},
+																		pos: position{line: 2896, col: 10, offset: 91577},
 																		run: (*parser).callonListContinuationElement669,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 10, offset: 91469},
+																			pos:        position{line: 2896, col: 10, offset: 91577},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33107,28 +33129,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonListContinuationElement672,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33137,9 +33159,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -33149,56 +33171,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 915, col: 5, offset: 28839},
+													pos: position{line: 919, col: 5, offset: 28947},
 													run: (*parser).callonListContinuationElement679,
 												},
 												&labeledExpr{
-													pos:   position{line: 918, col: 5, offset: 28931},
+													pos:   position{line: 922, col: 5, offset: 29039},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 933, col: 5, offset: 29329},
+														pos: position{line: 937, col: 5, offset: 29437},
 														expr: &actionExpr{
-															pos: position{line: 933, col: 6, offset: 29330},
+															pos: position{line: 937, col: 6, offset: 29438},
 															run: (*parser).callonListContinuationElement682,
 															expr: &seqExpr{
-																pos: position{line: 933, col: 6, offset: 29330},
+																pos: position{line: 937, col: 6, offset: 29438},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 933, col: 6, offset: 29330},
+																		pos: position{line: 937, col: 6, offset: 29438},
 																		expr: &choiceExpr{
-																			pos: position{line: 926, col: 5, offset: 29171},
+																			pos: position{line: 930, col: 5, offset: 29279},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 926, col: 5, offset: 29171},
+																					pos: position{line: 930, col: 5, offset: 29279},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 926, col: 5, offset: 29171},
+																							pos:   position{line: 930, col: 5, offset: 29279},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 779, col: 5, offset: 24962},
+																								pos: position{line: 783, col: 5, offset: 25070},
 																								run: (*parser).callonListContinuationElement688,
 																								expr: &seqExpr{
-																									pos: position{line: 779, col: 5, offset: 24962},
+																									pos: position{line: 783, col: 5, offset: 25070},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 779, col: 5, offset: 24962},
+																											pos:   position{line: 783, col: 5, offset: 25070},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 779, col: 16, offset: 24973},
+																												pos: position{line: 783, col: 16, offset: 25081},
 																												run: (*parser).callonListContinuationElement691,
 																												expr: &seqExpr{
-																													pos: position{line: 779, col: 16, offset: 24973},
+																													pos: position{line: 783, col: 16, offset: 25081},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 779, col: 16, offset: 24973},
+																															pos:        position{line: 783, col: 16, offset: 25081},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 779, col: 23, offset: 24980},
+																															pos: position{line: 783, col: 23, offset: 25088},
 																															expr: &litMatcher{
-																																pos:        position{line: 779, col: 23, offset: 24980},
+																																pos:        position{line: 783, col: 23, offset: 25088},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -33209,12 +33231,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 781, col: 8, offset: 25064},
+																											pos: position{line: 785, col: 8, offset: 25172},
 																											expr: &actionExpr{
-																												pos: position{line: 2892, col: 10, offset: 91469},
+																												pos: position{line: 2896, col: 10, offset: 91577},
 																												run: (*parser).callonListContinuationElement697,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2892, col: 10, offset: 91469},
+																													pos:        position{line: 2896, col: 10, offset: 91577},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33223,28 +33245,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2914, col: 8, offset: 91867},
+																											pos: position{line: 2918, col: 8, offset: 91975},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2901, col: 12, offset: 91640},
+																													pos: position{line: 2905, col: 12, offset: 91748},
 																													run: (*parser).callonListContinuationElement700,
 																													expr: &choiceExpr{
-																														pos: position{line: 2901, col: 13, offset: 91641},
+																														pos: position{line: 2905, col: 13, offset: 91749},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 13, offset: 91641},
+																																pos:        position{line: 2905, col: 13, offset: 91749},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 20, offset: 91648},
+																																pos:        position{line: 2905, col: 20, offset: 91756},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 29, offset: 91657},
+																																pos:        position{line: 2905, col: 29, offset: 91765},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33253,9 +33275,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2911, col: 8, offset: 91817},
+																													pos: position{line: 2915, col: 8, offset: 91925},
 																													expr: &anyMatcher{
-																														line: 2911, col: 9, offset: 91818,
+																														line: 2915, col: 9, offset: 91926,
 																													},
 																												},
 																											},
@@ -33265,45 +33287,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 927, col: 5, offset: 29202},
+																							pos: position{line: 931, col: 5, offset: 29310},
 																							run: (*parser).callonListContinuationElement707,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 934, col: 5, offset: 29360},
+																		pos:   position{line: 938, col: 5, offset: 29468},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 821, col: 5, offset: 26434},
+																			pos: position{line: 825, col: 5, offset: 26542},
 																			run: (*parser).callonListContinuationElement711,
 																			expr: &seqExpr{
-																				pos: position{line: 821, col: 5, offset: 26434},
+																				pos: position{line: 825, col: 5, offset: 26542},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2909, col: 11, offset: 91803},
+																						pos: position{line: 2913, col: 11, offset: 91911},
 																						expr: &anyMatcher{
-																							line: 2909, col: 13, offset: 91805,
+																							line: 2913, col: 13, offset: 91913,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 822, col: 5, offset: 26509},
+																						pos:   position{line: 826, col: 5, offset: 26617},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2838, col: 13, offset: 89995},
+																							pos: position{line: 2842, col: 13, offset: 90103},
 																							run: (*parser).callonListContinuationElement716,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2838, col: 13, offset: 89995},
+																									pos:        position{line: 2842, col: 13, offset: 90103},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33313,28 +33335,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2914, col: 8, offset: 91867},
+																						pos: position{line: 2918, col: 8, offset: 91975},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2901, col: 12, offset: 91640},
+																								pos: position{line: 2905, col: 12, offset: 91748},
 																								run: (*parser).callonListContinuationElement720,
 																								expr: &choiceExpr{
-																									pos: position{line: 2901, col: 13, offset: 91641},
+																									pos: position{line: 2905, col: 13, offset: 91749},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91641},
+																											pos:        position{line: 2905, col: 13, offset: 91749},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 20, offset: 91648},
+																											pos:        position{line: 2905, col: 20, offset: 91756},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 29, offset: 91657},
+																											pos:        position{line: 2905, col: 29, offset: 91765},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33343,9 +33365,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 8, offset: 91817},
+																								pos: position{line: 2915, col: 8, offset: 91925},
 																								expr: &anyMatcher{
-																									line: 2911, col: 9, offset: 91818,
+																									line: 2915, col: 9, offset: 91926,
 																								},
 																							},
 																						},
@@ -33360,44 +33382,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 919, col: 5, offset: 28965},
+													pos:   position{line: 923, col: 5, offset: 29073},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 919, col: 9, offset: 28969},
+														pos: position{line: 923, col: 9, offset: 29077},
 														expr: &choiceExpr{
-															pos: position{line: 926, col: 5, offset: 29171},
+															pos: position{line: 930, col: 5, offset: 29279},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 926, col: 5, offset: 29171},
+																	pos: position{line: 930, col: 5, offset: 29279},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 926, col: 5, offset: 29171},
+																			pos:   position{line: 930, col: 5, offset: 29279},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 779, col: 5, offset: 24962},
+																				pos: position{line: 783, col: 5, offset: 25070},
 																				run: (*parser).callonListContinuationElement732,
 																				expr: &seqExpr{
-																					pos: position{line: 779, col: 5, offset: 24962},
+																					pos: position{line: 783, col: 5, offset: 25070},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 779, col: 5, offset: 24962},
+																							pos:   position{line: 783, col: 5, offset: 25070},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 779, col: 16, offset: 24973},
+																								pos: position{line: 783, col: 16, offset: 25081},
 																								run: (*parser).callonListContinuationElement735,
 																								expr: &seqExpr{
-																									pos: position{line: 779, col: 16, offset: 24973},
+																									pos: position{line: 783, col: 16, offset: 25081},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 779, col: 16, offset: 24973},
+																											pos:        position{line: 783, col: 16, offset: 25081},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 779, col: 23, offset: 24980},
+																											pos: position{line: 783, col: 23, offset: 25088},
 																											expr: &litMatcher{
-																												pos:        position{line: 779, col: 23, offset: 24980},
+																												pos:        position{line: 783, col: 23, offset: 25088},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -33408,12 +33430,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 781, col: 8, offset: 25064},
+																							pos: position{line: 785, col: 8, offset: 25172},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonListContinuationElement741,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33422,28 +33444,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonListContinuationElement744,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33452,9 +33474,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -33464,15 +33486,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 927, col: 5, offset: 29202},
+																			pos: position{line: 931, col: 5, offset: 29310},
 																			run: (*parser).callonListContinuationElement751,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2911, col: 8, offset: 91817},
+																	pos: position{line: 2915, col: 8, offset: 91925},
 																	expr: &anyMatcher{
-																		line: 2911, col: 9, offset: 91818,
+																		line: 2915, col: 9, offset: 91926,
 																	},
 																},
 															},
@@ -33483,39 +33505,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 942, col: 5, offset: 29515},
+										pos: position{line: 946, col: 5, offset: 29623},
 										run: (*parser).callonListContinuationElement754,
 										expr: &seqExpr{
-											pos: position{line: 942, col: 5, offset: 29515},
+											pos: position{line: 946, col: 5, offset: 29623},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 942, col: 5, offset: 29515},
+													pos:   position{line: 946, col: 5, offset: 29623},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 793, col: 5, offset: 25438},
+														pos: position{line: 797, col: 5, offset: 25546},
 														run: (*parser).callonListContinuationElement757,
 														expr: &seqExpr{
-															pos: position{line: 793, col: 5, offset: 25438},
+															pos: position{line: 797, col: 5, offset: 25546},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 793, col: 5, offset: 25438},
+																	pos:   position{line: 797, col: 5, offset: 25546},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 793, col: 16, offset: 25449},
+																		pos: position{line: 797, col: 16, offset: 25557},
 																		run: (*parser).callonListContinuationElement760,
 																		expr: &seqExpr{
-																			pos: position{line: 793, col: 16, offset: 25449},
+																			pos: position{line: 797, col: 16, offset: 25557},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 793, col: 16, offset: 25449},
+																					pos:        position{line: 797, col: 16, offset: 25557},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 793, col: 23, offset: 25456},
+																					pos: position{line: 797, col: 23, offset: 25564},
 																					expr: &litMatcher{
-																						pos:        position{line: 793, col: 23, offset: 25456},
+																						pos:        position{line: 797, col: 23, offset: 25564},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -33526,12 +33548,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 795, col: 8, offset: 25540},
+																	pos: position{line: 799, col: 8, offset: 25648},
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 10, offset: 91469},
+																		pos: position{line: 2896, col: 10, offset: 91577},
 																		run: (*parser).callonListContinuationElement766,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 10, offset: 91469},
+																			pos:        position{line: 2896, col: 10, offset: 91577},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33540,28 +33562,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonListContinuationElement769,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33570,9 +33592,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -33582,56 +33604,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 943, col: 5, offset: 29554},
+													pos: position{line: 947, col: 5, offset: 29662},
 													run: (*parser).callonListContinuationElement776,
 												},
 												&labeledExpr{
-													pos:   position{line: 946, col: 5, offset: 29646},
+													pos:   position{line: 950, col: 5, offset: 29754},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 961, col: 5, offset: 30044},
+														pos: position{line: 965, col: 5, offset: 30152},
 														expr: &actionExpr{
-															pos: position{line: 961, col: 6, offset: 30045},
+															pos: position{line: 965, col: 6, offset: 30153},
 															run: (*parser).callonListContinuationElement779,
 															expr: &seqExpr{
-																pos: position{line: 961, col: 6, offset: 30045},
+																pos: position{line: 965, col: 6, offset: 30153},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 961, col: 6, offset: 30045},
+																		pos: position{line: 965, col: 6, offset: 30153},
 																		expr: &choiceExpr{
-																			pos: position{line: 954, col: 5, offset: 29886},
+																			pos: position{line: 958, col: 5, offset: 29994},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 954, col: 5, offset: 29886},
+																					pos: position{line: 958, col: 5, offset: 29994},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 954, col: 5, offset: 29886},
+																							pos:   position{line: 958, col: 5, offset: 29994},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 793, col: 5, offset: 25438},
+																								pos: position{line: 797, col: 5, offset: 25546},
 																								run: (*parser).callonListContinuationElement785,
 																								expr: &seqExpr{
-																									pos: position{line: 793, col: 5, offset: 25438},
+																									pos: position{line: 797, col: 5, offset: 25546},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 793, col: 5, offset: 25438},
+																											pos:   position{line: 797, col: 5, offset: 25546},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 793, col: 16, offset: 25449},
+																												pos: position{line: 797, col: 16, offset: 25557},
 																												run: (*parser).callonListContinuationElement788,
 																												expr: &seqExpr{
-																													pos: position{line: 793, col: 16, offset: 25449},
+																													pos: position{line: 797, col: 16, offset: 25557},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 793, col: 16, offset: 25449},
+																															pos:        position{line: 797, col: 16, offset: 25557},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 793, col: 23, offset: 25456},
+																															pos: position{line: 797, col: 23, offset: 25564},
 																															expr: &litMatcher{
-																																pos:        position{line: 793, col: 23, offset: 25456},
+																																pos:        position{line: 797, col: 23, offset: 25564},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -33642,12 +33664,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 795, col: 8, offset: 25540},
+																											pos: position{line: 799, col: 8, offset: 25648},
 																											expr: &actionExpr{
-																												pos: position{line: 2892, col: 10, offset: 91469},
+																												pos: position{line: 2896, col: 10, offset: 91577},
 																												run: (*parser).callonListContinuationElement794,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2892, col: 10, offset: 91469},
+																													pos:        position{line: 2896, col: 10, offset: 91577},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33656,28 +33678,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2914, col: 8, offset: 91867},
+																											pos: position{line: 2918, col: 8, offset: 91975},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2901, col: 12, offset: 91640},
+																													pos: position{line: 2905, col: 12, offset: 91748},
 																													run: (*parser).callonListContinuationElement797,
 																													expr: &choiceExpr{
-																														pos: position{line: 2901, col: 13, offset: 91641},
+																														pos: position{line: 2905, col: 13, offset: 91749},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 13, offset: 91641},
+																																pos:        position{line: 2905, col: 13, offset: 91749},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 20, offset: 91648},
+																																pos:        position{line: 2905, col: 20, offset: 91756},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 29, offset: 91657},
+																																pos:        position{line: 2905, col: 29, offset: 91765},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33686,9 +33708,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2911, col: 8, offset: 91817},
+																													pos: position{line: 2915, col: 8, offset: 91925},
 																													expr: &anyMatcher{
-																														line: 2911, col: 9, offset: 91818,
+																														line: 2915, col: 9, offset: 91926,
 																													},
 																												},
 																											},
@@ -33698,45 +33720,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 955, col: 5, offset: 29917},
+																							pos: position{line: 959, col: 5, offset: 30025},
 																							run: (*parser).callonListContinuationElement804,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 962, col: 5, offset: 30075},
+																		pos:   position{line: 966, col: 5, offset: 30183},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 821, col: 5, offset: 26434},
+																			pos: position{line: 825, col: 5, offset: 26542},
 																			run: (*parser).callonListContinuationElement808,
 																			expr: &seqExpr{
-																				pos: position{line: 821, col: 5, offset: 26434},
+																				pos: position{line: 825, col: 5, offset: 26542},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2909, col: 11, offset: 91803},
+																						pos: position{line: 2913, col: 11, offset: 91911},
 																						expr: &anyMatcher{
-																							line: 2909, col: 13, offset: 91805,
+																							line: 2913, col: 13, offset: 91913,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 822, col: 5, offset: 26509},
+																						pos:   position{line: 826, col: 5, offset: 26617},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2838, col: 13, offset: 89995},
+																							pos: position{line: 2842, col: 13, offset: 90103},
 																							run: (*parser).callonListContinuationElement813,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2838, col: 13, offset: 89995},
+																									pos:        position{line: 2842, col: 13, offset: 90103},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33746,28 +33768,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2914, col: 8, offset: 91867},
+																						pos: position{line: 2918, col: 8, offset: 91975},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2901, col: 12, offset: 91640},
+																								pos: position{line: 2905, col: 12, offset: 91748},
 																								run: (*parser).callonListContinuationElement817,
 																								expr: &choiceExpr{
-																									pos: position{line: 2901, col: 13, offset: 91641},
+																									pos: position{line: 2905, col: 13, offset: 91749},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91641},
+																											pos:        position{line: 2905, col: 13, offset: 91749},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 20, offset: 91648},
+																											pos:        position{line: 2905, col: 20, offset: 91756},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 29, offset: 91657},
+																											pos:        position{line: 2905, col: 29, offset: 91765},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33776,9 +33798,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 8, offset: 91817},
+																								pos: position{line: 2915, col: 8, offset: 91925},
 																								expr: &anyMatcher{
-																									line: 2911, col: 9, offset: 91818,
+																									line: 2915, col: 9, offset: 91926,
 																								},
 																							},
 																						},
@@ -33793,44 +33815,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 947, col: 5, offset: 29680},
+													pos:   position{line: 951, col: 5, offset: 29788},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 947, col: 9, offset: 29684},
+														pos: position{line: 951, col: 9, offset: 29792},
 														expr: &choiceExpr{
-															pos: position{line: 954, col: 5, offset: 29886},
+															pos: position{line: 958, col: 5, offset: 29994},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 954, col: 5, offset: 29886},
+																	pos: position{line: 958, col: 5, offset: 29994},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 954, col: 5, offset: 29886},
+																			pos:   position{line: 958, col: 5, offset: 29994},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 793, col: 5, offset: 25438},
+																				pos: position{line: 797, col: 5, offset: 25546},
 																				run: (*parser).callonListContinuationElement829,
 																				expr: &seqExpr{
-																					pos: position{line: 793, col: 5, offset: 25438},
+																					pos: position{line: 797, col: 5, offset: 25546},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 793, col: 5, offset: 25438},
+																							pos:   position{line: 797, col: 5, offset: 25546},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 793, col: 16, offset: 25449},
+																								pos: position{line: 797, col: 16, offset: 25557},
 																								run: (*parser).callonListContinuationElement832,
 																								expr: &seqExpr{
-																									pos: position{line: 793, col: 16, offset: 25449},
+																									pos: position{line: 797, col: 16, offset: 25557},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 793, col: 16, offset: 25449},
+																											pos:        position{line: 797, col: 16, offset: 25557},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 793, col: 23, offset: 25456},
+																											pos: position{line: 797, col: 23, offset: 25564},
 																											expr: &litMatcher{
-																												pos:        position{line: 793, col: 23, offset: 25456},
+																												pos:        position{line: 797, col: 23, offset: 25564},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -33841,12 +33863,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 795, col: 8, offset: 25540},
+																							pos: position{line: 799, col: 8, offset: 25648},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonListContinuationElement838,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33855,28 +33877,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonListContinuationElement841,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33885,9 +33907,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -33897,15 +33919,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 955, col: 5, offset: 29917},
+																			pos: position{line: 959, col: 5, offset: 30025},
 																			run: (*parser).callonListContinuationElement848,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2911, col: 8, offset: 91817},
+																	pos: position{line: 2915, col: 8, offset: 91925},
 																	expr: &anyMatcher{
-																		line: 2911, col: 9, offset: 91818,
+																		line: 2915, col: 9, offset: 91926,
 																	},
 																},
 															},
@@ -33916,63 +33938,63 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 993, col: 5, offset: 30958},
+										pos: position{line: 997, col: 5, offset: 31066},
 										run: (*parser).callonListContinuationElement851,
 										expr: &seqExpr{
-											pos: position{line: 993, col: 5, offset: 30958},
+											pos: position{line: 997, col: 5, offset: 31066},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 993, col: 5, offset: 30958},
+													pos:   position{line: 997, col: 5, offset: 31066},
 													label: "firstLine",
 													expr: &choiceExpr{
-														pos: position{line: 993, col: 16, offset: 30969},
+														pos: position{line: 997, col: 16, offset: 31077},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1006, col: 35, offset: 31445},
+																pos: position{line: 1010, col: 35, offset: 31553},
 																run: (*parser).callonListContinuationElement855,
 																expr: &seqExpr{
-																	pos: position{line: 1006, col: 35, offset: 31445},
+																	pos: position{line: 1010, col: 35, offset: 31553},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 1006, col: 35, offset: 31445},
+																			pos:        position{line: 1010, col: 35, offset: 31553},
 																			val:        "> ",
 																			ignoreCase: false,
 																			want:       "\"> \"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1006, col: 40, offset: 31450},
+																			pos:   position{line: 1010, col: 40, offset: 31558},
 																			label: "comment",
 																			expr: &actionExpr{
-																				pos: position{line: 2493, col: 22, offset: 80229},
+																				pos: position{line: 2497, col: 22, offset: 80337},
 																				run: (*parser).callonListContinuationElement859,
 																				expr: &seqExpr{
-																					pos: position{line: 2493, col: 22, offset: 80229},
+																					pos: position{line: 2497, col: 22, offset: 80337},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2498, col: 31, offset: 80450},
+																							pos:        position{line: 2502, col: 31, offset: 80558},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
 																						},
 																						&notExpr{
-																							pos: position{line: 2498, col: 36, offset: 80455},
+																							pos: position{line: 2502, col: 36, offset: 80563},
 																							expr: &litMatcher{
-																								pos:        position{line: 2498, col: 37, offset: 80456},
+																								pos:        position{line: 2502, col: 37, offset: 80564},
 																								val:        "//",
 																								ignoreCase: false,
 																								want:       "\"//\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 2493, col: 49, offset: 80256},
+																							pos:   position{line: 2497, col: 49, offset: 80364},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								run: (*parser).callonListContinuationElement865,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2838, col: 13, offset: 89995},
+																									pos: position{line: 2842, col: 13, offset: 90103},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2838, col: 13, offset: 89995},
+																										pos:        position{line: 2842, col: 13, offset: 90103},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -33982,28 +34004,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonListContinuationElement869,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34012,9 +34034,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -34027,13 +34049,13 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1000, col: 5, offset: 31303},
+																pos: position{line: 1004, col: 5, offset: 31411},
 																run: (*parser).callonListContinuationElement876,
 																expr: &seqExpr{
-																	pos: position{line: 1000, col: 5, offset: 31303},
+																	pos: position{line: 1004, col: 5, offset: 31411},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1000, col: 5, offset: 31303},
+																			pos: position{line: 1004, col: 5, offset: 31411},
 																			expr: &actionExpr{
 																				pos: position{line: 687, col: 14, offset: 21835},
 																				run: (*parser).callonListContinuationElement879,
@@ -34041,18 +34063,18 @@ var g = &grammar{
 																					pos: position{line: 687, col: 14, offset: 21835},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2909, col: 11, offset: 91803},
+																							pos: position{line: 2913, col: 11, offset: 91911},
 																							expr: &anyMatcher{
-																								line: 2909, col: 13, offset: 91805,
+																								line: 2913, col: 13, offset: 91913,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 687, col: 21, offset: 21842},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonListContinuationElement884,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34061,28 +34083,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34091,9 +34113,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -34103,21 +34125,21 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 1001, col: 5, offset: 31318},
+																			pos:        position{line: 1005, col: 5, offset: 31426},
 																			val:        "> ",
 																			ignoreCase: false,
 																			want:       "\"> \"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1002, col: 5, offset: 31328},
+																			pos:   position{line: 1006, col: 5, offset: 31436},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 2842, col: 14, offset: 90062},
+																				pos: position{line: 2846, col: 14, offset: 90170},
 																				run: (*parser).callonListContinuationElement896,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2842, col: 14, offset: 90062},
+																					pos: position{line: 2846, col: 14, offset: 90170},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2842, col: 14, offset: 90062},
+																						pos:        position{line: 2846, col: 14, offset: 90170},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -34127,28 +34149,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2914, col: 8, offset: 91867},
+																			pos: position{line: 2918, col: 8, offset: 91975},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2901, col: 12, offset: 91640},
+																					pos: position{line: 2905, col: 12, offset: 91748},
 																					run: (*parser).callonListContinuationElement900,
 																					expr: &choiceExpr{
-																						pos: position{line: 2901, col: 13, offset: 91641},
+																						pos: position{line: 2905, col: 13, offset: 91749},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 13, offset: 91641},
+																								pos:        position{line: 2905, col: 13, offset: 91749},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 20, offset: 91648},
+																								pos:        position{line: 2905, col: 20, offset: 91756},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 29, offset: 91657},
+																								pos:        position{line: 2905, col: 29, offset: 91765},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -34157,9 +34179,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
@@ -34171,44 +34193,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 994, col: 5, offset: 31028},
+													pos:   position{line: 998, col: 5, offset: 31136},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 994, col: 16, offset: 31039},
+														pos: position{line: 998, col: 16, offset: 31147},
 														expr: &choiceExpr{
-															pos: position{line: 994, col: 17, offset: 31040},
+															pos: position{line: 998, col: 17, offset: 31148},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2493, col: 22, offset: 80229},
+																	pos: position{line: 2497, col: 22, offset: 80337},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 2493, col: 22, offset: 80229},
+																		pos: position{line: 2497, col: 22, offset: 80337},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2498, col: 31, offset: 80450},
+																				pos:        position{line: 2502, col: 31, offset: 80558},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2498, col: 36, offset: 80455},
+																				pos: position{line: 2502, col: 36, offset: 80563},
 																				expr: &litMatcher{
-																					pos:        position{line: 2498, col: 37, offset: 80456},
+																					pos:        position{line: 2502, col: 37, offset: 80564},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2493, col: 49, offset: 80256},
+																				pos:   position{line: 2497, col: 49, offset: 80364},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2838, col: 13, offset: 89995},
+																					pos: position{line: 2842, col: 13, offset: 90103},
 																					run: (*parser).callonListContinuationElement916,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2838, col: 13, offset: 89995},
+																						pos: position{line: 2842, col: 13, offset: 90103},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2838, col: 13, offset: 89995},
+																							pos:        position{line: 2842, col: 13, offset: 90103},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34218,28 +34240,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2914, col: 8, offset: 91867},
+																				pos: position{line: 2918, col: 8, offset: 91975},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2901, col: 12, offset: 91640},
+																						pos: position{line: 2905, col: 12, offset: 91748},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2901, col: 13, offset: 91641},
+																							pos: position{line: 2905, col: 13, offset: 91749},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2901, col: 13, offset: 91641},
+																									pos:        position{line: 2905, col: 13, offset: 91749},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2901, col: 20, offset: 91648},
+																									pos:        position{line: 2905, col: 20, offset: 91756},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2901, col: 29, offset: 91657},
+																									pos:        position{line: 2905, col: 29, offset: 91765},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34248,9 +34270,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2911, col: 8, offset: 91817},
+																						pos: position{line: 2915, col: 8, offset: 91925},
 																						expr: &anyMatcher{
-																							line: 2911, col: 9, offset: 91818,
+																							line: 2915, col: 9, offset: 91926,
 																						},
 																					},
 																				},
@@ -34259,51 +34281,51 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1006, col: 35, offset: 31445},
+																	pos: position{line: 1010, col: 35, offset: 31553},
 																	run: (*parser).callonListContinuationElement927,
 																	expr: &seqExpr{
-																		pos: position{line: 1006, col: 35, offset: 31445},
+																		pos: position{line: 1010, col: 35, offset: 31553},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1006, col: 35, offset: 31445},
+																				pos:        position{line: 1010, col: 35, offset: 31553},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1006, col: 40, offset: 31450},
+																				pos:   position{line: 1010, col: 40, offset: 31558},
 																				label: "comment",
 																				expr: &actionExpr{
-																					pos: position{line: 2493, col: 22, offset: 80229},
+																					pos: position{line: 2497, col: 22, offset: 80337},
 																					run: (*parser).callonListContinuationElement931,
 																					expr: &seqExpr{
-																						pos: position{line: 2493, col: 22, offset: 80229},
+																						pos: position{line: 2497, col: 22, offset: 80337},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2498, col: 31, offset: 80450},
+																								pos:        position{line: 2502, col: 31, offset: 80558},
 																								val:        "//",
 																								ignoreCase: false,
 																								want:       "\"//\"",
 																							},
 																							&notExpr{
-																								pos: position{line: 2498, col: 36, offset: 80455},
+																								pos: position{line: 2502, col: 36, offset: 80563},
 																								expr: &litMatcher{
-																									pos:        position{line: 2498, col: 37, offset: 80456},
+																									pos:        position{line: 2502, col: 37, offset: 80564},
 																									val:        "//",
 																									ignoreCase: false,
 																									want:       "\"//\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 2493, col: 49, offset: 80256},
+																								pos:   position{line: 2497, col: 49, offset: 80364},
 																								label: "content",
 																								expr: &actionExpr{
-																									pos: position{line: 2838, col: 13, offset: 89995},
+																									pos: position{line: 2842, col: 13, offset: 90103},
 																									run: (*parser).callonListContinuationElement937,
 																									expr: &zeroOrMoreExpr{
-																										pos: position{line: 2838, col: 13, offset: 89995},
+																										pos: position{line: 2842, col: 13, offset: 90103},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2838, col: 13, offset: 89995},
+																											pos:        position{line: 2842, col: 13, offset: 90103},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -34313,28 +34335,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2914, col: 8, offset: 91867},
+																								pos: position{line: 2918, col: 8, offset: 91975},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2901, col: 12, offset: 91640},
+																										pos: position{line: 2905, col: 12, offset: 91748},
 																										run: (*parser).callonListContinuationElement941,
 																										expr: &choiceExpr{
-																											pos: position{line: 2901, col: 13, offset: 91641},
+																											pos: position{line: 2905, col: 13, offset: 91749},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 13, offset: 91641},
+																													pos:        position{line: 2905, col: 13, offset: 91749},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 20, offset: 91648},
+																													pos:        position{line: 2905, col: 20, offset: 91756},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 29, offset: 91657},
+																													pos:        position{line: 2905, col: 29, offset: 91765},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34343,9 +34365,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2911, col: 8, offset: 91817},
+																										pos: position{line: 2915, col: 8, offset: 91925},
 																										expr: &anyMatcher{
-																											line: 2911, col: 9, offset: 91818,
+																											line: 2915, col: 9, offset: 91926,
 																										},
 																									},
 																								},
@@ -34358,13 +34380,13 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1000, col: 5, offset: 31303},
+																	pos: position{line: 1004, col: 5, offset: 31411},
 																	run: (*parser).callonListContinuationElement948,
 																	expr: &seqExpr{
-																		pos: position{line: 1000, col: 5, offset: 31303},
+																		pos: position{line: 1004, col: 5, offset: 31411},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1000, col: 5, offset: 31303},
+																				pos: position{line: 1004, col: 5, offset: 31411},
 																				expr: &actionExpr{
 																					pos: position{line: 687, col: 14, offset: 21835},
 																					run: (*parser).callonListContinuationElement951,
@@ -34372,18 +34394,18 @@ var g = &grammar{
 																						pos: position{line: 687, col: 14, offset: 21835},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2909, col: 11, offset: 91803},
+																								pos: position{line: 2913, col: 11, offset: 91911},
 																								expr: &anyMatcher{
-																									line: 2909, col: 13, offset: 91805,
+																									line: 2913, col: 13, offset: 91913,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 687, col: 21, offset: 21842},
 																								expr: &actionExpr{
-																									pos: position{line: 2892, col: 10, offset: 91469},
+																									pos: position{line: 2896, col: 10, offset: 91577},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 10, offset: 91469},
+																										pos:        position{line: 2896, col: 10, offset: 91577},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34392,28 +34414,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2914, col: 8, offset: 91867},
+																								pos: position{line: 2918, col: 8, offset: 91975},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2901, col: 12, offset: 91640},
+																										pos: position{line: 2905, col: 12, offset: 91748},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2901, col: 13, offset: 91641},
+																											pos: position{line: 2905, col: 13, offset: 91749},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 13, offset: 91641},
+																													pos:        position{line: 2905, col: 13, offset: 91749},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 20, offset: 91648},
+																													pos:        position{line: 2905, col: 20, offset: 91756},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 29, offset: 91657},
+																													pos:        position{line: 2905, col: 29, offset: 91765},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34422,9 +34444,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2911, col: 8, offset: 91817},
+																										pos: position{line: 2915, col: 8, offset: 91925},
 																										expr: &anyMatcher{
-																											line: 2911, col: 9, offset: 91818,
+																											line: 2915, col: 9, offset: 91926,
 																										},
 																									},
 																								},
@@ -34434,21 +34456,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1001, col: 5, offset: 31318},
+																				pos:        position{line: 1005, col: 5, offset: 31426},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1002, col: 5, offset: 31328},
+																				pos:   position{line: 1006, col: 5, offset: 31436},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2842, col: 14, offset: 90062},
+																					pos: position{line: 2846, col: 14, offset: 90170},
 																					run: (*parser).callonListContinuationElement968,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2842, col: 14, offset: 90062},
+																						pos: position{line: 2846, col: 14, offset: 90170},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2842, col: 14, offset: 90062},
+																							pos:        position{line: 2846, col: 14, offset: 90170},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34458,28 +34480,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2914, col: 8, offset: 91867},
+																				pos: position{line: 2918, col: 8, offset: 91975},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2901, col: 12, offset: 91640},
+																						pos: position{line: 2905, col: 12, offset: 91748},
 																						run: (*parser).callonListContinuationElement972,
 																						expr: &choiceExpr{
-																							pos: position{line: 2901, col: 13, offset: 91641},
+																							pos: position{line: 2905, col: 13, offset: 91749},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2901, col: 13, offset: 91641},
+																									pos:        position{line: 2905, col: 13, offset: 91749},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2901, col: 20, offset: 91648},
+																									pos:        position{line: 2905, col: 20, offset: 91756},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2901, col: 29, offset: 91657},
+																									pos:        position{line: 2905, col: 29, offset: 91765},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34488,9 +34510,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2911, col: 8, offset: 91817},
+																						pos: position{line: 2915, col: 8, offset: 91925},
 																						expr: &anyMatcher{
-																							line: 2911, col: 9, offset: 91818,
+																							line: 2915, col: 9, offset: 91926,
 																						},
 																					},
 																				},
@@ -34499,21 +34521,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1807, col: 5, offset: 58385},
+																	pos: position{line: 1811, col: 5, offset: 58493},
 																	run: (*parser).callonListContinuationElement979,
 																	expr: &seqExpr{
-																		pos: position{line: 1807, col: 5, offset: 58385},
+																		pos: position{line: 1811, col: 5, offset: 58493},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1807, col: 5, offset: 58385},
+																				pos:   position{line: 1811, col: 5, offset: 58493},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2842, col: 14, offset: 90062},
+																					pos: position{line: 2846, col: 14, offset: 90170},
 																					run: (*parser).callonListContinuationElement982,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2842, col: 14, offset: 90062},
+																						pos: position{line: 2846, col: 14, offset: 90170},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2842, col: 14, offset: 90062},
+																							pos:        position{line: 2846, col: 14, offset: 90170},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34523,32 +34545,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1808, col: 5, offset: 58409},
+																				pos: position{line: 1812, col: 5, offset: 58517},
 																				run: (*parser).callonListContinuationElement985,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2914, col: 8, offset: 91867},
+																				pos: position{line: 2918, col: 8, offset: 91975},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2901, col: 12, offset: 91640},
+																						pos: position{line: 2905, col: 12, offset: 91748},
 																						run: (*parser).callonListContinuationElement987,
 																						expr: &choiceExpr{
-																							pos: position{line: 2901, col: 13, offset: 91641},
+																							pos: position{line: 2905, col: 13, offset: 91749},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2901, col: 13, offset: 91641},
+																									pos:        position{line: 2905, col: 13, offset: 91749},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2901, col: 20, offset: 91648},
+																									pos:        position{line: 2905, col: 20, offset: 91756},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2901, col: 29, offset: 91657},
+																									pos:        position{line: 2905, col: 29, offset: 91765},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34557,9 +34579,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2911, col: 8, offset: 91817},
+																						pos: position{line: 2915, col: 8, offset: 91925},
 																						expr: &anyMatcher{
-																							line: 2911, col: 9, offset: 91818,
+																							line: 2915, col: 9, offset: 91926,
 																						},
 																					},
 																				},
@@ -34575,28 +34597,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1019, col: 5, offset: 31697},
+										pos: position{line: 1023, col: 5, offset: 31805},
 										run: (*parser).callonListContinuationElement994,
 										expr: &seqExpr{
-											pos: position{line: 1019, col: 5, offset: 31697},
+											pos: position{line: 1023, col: 5, offset: 31805},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1019, col: 5, offset: 31697},
+													pos:   position{line: 1023, col: 5, offset: 31805},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 786, col: 5, offset: 25207},
+														pos: position{line: 790, col: 5, offset: 25315},
 														run: (*parser).callonListContinuationElement997,
 														expr: &seqExpr{
-															pos: position{line: 786, col: 5, offset: 25207},
+															pos: position{line: 790, col: 5, offset: 25315},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 786, col: 5, offset: 25207},
+																	pos:   position{line: 790, col: 5, offset: 25315},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 786, col: 16, offset: 25218},
+																		pos: position{line: 790, col: 16, offset: 25326},
 																		run: (*parser).callonListContinuationElement1000,
 																		expr: &litMatcher{
-																			pos:        position{line: 786, col: 16, offset: 25218},
+																			pos:        position{line: 790, col: 16, offset: 25326},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -34604,12 +34626,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 788, col: 8, offset: 25295},
+																	pos: position{line: 792, col: 8, offset: 25403},
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 10, offset: 91469},
+																		pos: position{line: 2896, col: 10, offset: 91577},
 																		run: (*parser).callonListContinuationElement1003,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 10, offset: 91469},
+																			pos:        position{line: 2896, col: 10, offset: 91577},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34618,28 +34640,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonListContinuationElement1006,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34648,9 +34670,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -34660,35 +34682,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1020, col: 5, offset: 31733},
+													pos:   position{line: 1024, col: 5, offset: 31841},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1030, col: 5, offset: 32001},
+														pos: position{line: 1034, col: 5, offset: 32109},
 														expr: &actionExpr{
-															pos: position{line: 1030, col: 6, offset: 32002},
+															pos: position{line: 1034, col: 6, offset: 32110},
 															run: (*parser).callonListContinuationElement1015,
 															expr: &seqExpr{
-																pos: position{line: 1030, col: 6, offset: 32002},
+																pos: position{line: 1034, col: 6, offset: 32110},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1030, col: 6, offset: 32002},
+																		pos: position{line: 1034, col: 6, offset: 32110},
 																		expr: &choiceExpr{
-																			pos: position{line: 1027, col: 26, offset: 31950},
+																			pos: position{line: 1031, col: 26, offset: 32058},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 786, col: 5, offset: 25207},
+																					pos: position{line: 790, col: 5, offset: 25315},
 																					run: (*parser).callonListContinuationElement1019,
 																					expr: &seqExpr{
-																						pos: position{line: 786, col: 5, offset: 25207},
+																						pos: position{line: 790, col: 5, offset: 25315},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 786, col: 5, offset: 25207},
+																								pos:   position{line: 790, col: 5, offset: 25315},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 786, col: 16, offset: 25218},
+																									pos: position{line: 790, col: 16, offset: 25326},
 																									run: (*parser).callonListContinuationElement1022,
 																									expr: &litMatcher{
-																										pos:        position{line: 786, col: 16, offset: 25218},
+																										pos:        position{line: 790, col: 16, offset: 25326},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -34696,12 +34718,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 788, col: 8, offset: 25295},
+																								pos: position{line: 792, col: 8, offset: 25403},
 																								expr: &actionExpr{
-																									pos: position{line: 2892, col: 10, offset: 91469},
+																									pos: position{line: 2896, col: 10, offset: 91577},
 																									run: (*parser).callonListContinuationElement1025,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 10, offset: 91469},
+																										pos:        position{line: 2896, col: 10, offset: 91577},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34710,28 +34732,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2914, col: 8, offset: 91867},
+																								pos: position{line: 2918, col: 8, offset: 91975},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2901, col: 12, offset: 91640},
+																										pos: position{line: 2905, col: 12, offset: 91748},
 																										run: (*parser).callonListContinuationElement1028,
 																										expr: &choiceExpr{
-																											pos: position{line: 2901, col: 13, offset: 91641},
+																											pos: position{line: 2905, col: 13, offset: 91749},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 13, offset: 91641},
+																													pos:        position{line: 2905, col: 13, offset: 91749},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 20, offset: 91648},
+																													pos:        position{line: 2905, col: 20, offset: 91756},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 29, offset: 91657},
+																													pos:        position{line: 2905, col: 29, offset: 91765},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34740,9 +34762,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2911, col: 8, offset: 91817},
+																										pos: position{line: 2915, col: 8, offset: 91925},
 																										expr: &anyMatcher{
-																											line: 2911, col: 9, offset: 91818,
+																											line: 2915, col: 9, offset: 91926,
 																										},
 																									},
 																								},
@@ -34751,39 +34773,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1031, col: 5, offset: 32029},
+																		pos:   position{line: 1035, col: 5, offset: 32137},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 821, col: 5, offset: 26434},
+																			pos: position{line: 825, col: 5, offset: 26542},
 																			run: (*parser).callonListContinuationElement1038,
 																			expr: &seqExpr{
-																				pos: position{line: 821, col: 5, offset: 26434},
+																				pos: position{line: 825, col: 5, offset: 26542},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2909, col: 11, offset: 91803},
+																						pos: position{line: 2913, col: 11, offset: 91911},
 																						expr: &anyMatcher{
-																							line: 2909, col: 13, offset: 91805,
+																							line: 2913, col: 13, offset: 91913,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 822, col: 5, offset: 26509},
+																						pos:   position{line: 826, col: 5, offset: 26617},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2838, col: 13, offset: 89995},
+																							pos: position{line: 2842, col: 13, offset: 90103},
 																							run: (*parser).callonListContinuationElement1043,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2838, col: 13, offset: 89995},
+																									pos:        position{line: 2842, col: 13, offset: 90103},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34793,28 +34815,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2914, col: 8, offset: 91867},
+																						pos: position{line: 2918, col: 8, offset: 91975},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2901, col: 12, offset: 91640},
+																								pos: position{line: 2905, col: 12, offset: 91748},
 																								run: (*parser).callonListContinuationElement1047,
 																								expr: &choiceExpr{
-																									pos: position{line: 2901, col: 13, offset: 91641},
+																									pos: position{line: 2905, col: 13, offset: 91749},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91641},
+																											pos:        position{line: 2905, col: 13, offset: 91749},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 20, offset: 91648},
+																											pos:        position{line: 2905, col: 20, offset: 91756},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 29, offset: 91657},
+																											pos:        position{line: 2905, col: 29, offset: 91765},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34823,9 +34845,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 8, offset: 91817},
+																								pos: position{line: 2915, col: 8, offset: 91925},
 																								expr: &anyMatcher{
-																									line: 2911, col: 9, offset: 91818,
+																									line: 2915, col: 9, offset: 91926,
 																								},
 																							},
 																						},
@@ -34840,27 +34862,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1021, col: 5, offset: 31764},
+													pos:   position{line: 1025, col: 5, offset: 31872},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1021, col: 9, offset: 31768},
+														pos: position{line: 1025, col: 9, offset: 31876},
 														expr: &choiceExpr{
-															pos: position{line: 1027, col: 26, offset: 31950},
+															pos: position{line: 1031, col: 26, offset: 32058},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 786, col: 5, offset: 25207},
+																	pos: position{line: 790, col: 5, offset: 25315},
 																	run: (*parser).callonListContinuationElement1057,
 																	expr: &seqExpr{
-																		pos: position{line: 786, col: 5, offset: 25207},
+																		pos: position{line: 790, col: 5, offset: 25315},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 786, col: 5, offset: 25207},
+																				pos:   position{line: 790, col: 5, offset: 25315},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 786, col: 16, offset: 25218},
+																					pos: position{line: 790, col: 16, offset: 25326},
 																					run: (*parser).callonListContinuationElement1060,
 																					expr: &litMatcher{
-																						pos:        position{line: 786, col: 16, offset: 25218},
+																						pos:        position{line: 790, col: 16, offset: 25326},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -34868,12 +34890,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 788, col: 8, offset: 25295},
+																				pos: position{line: 792, col: 8, offset: 25403},
 																				expr: &actionExpr{
-																					pos: position{line: 2892, col: 10, offset: 91469},
+																					pos: position{line: 2896, col: 10, offset: 91577},
 																					run: (*parser).callonListContinuationElement1063,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2892, col: 10, offset: 91469},
+																						pos:        position{line: 2896, col: 10, offset: 91577},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34882,28 +34904,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2914, col: 8, offset: 91867},
+																				pos: position{line: 2918, col: 8, offset: 91975},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2901, col: 12, offset: 91640},
+																						pos: position{line: 2905, col: 12, offset: 91748},
 																						run: (*parser).callonListContinuationElement1066,
 																						expr: &choiceExpr{
-																							pos: position{line: 2901, col: 13, offset: 91641},
+																							pos: position{line: 2905, col: 13, offset: 91749},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2901, col: 13, offset: 91641},
+																									pos:        position{line: 2905, col: 13, offset: 91749},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2901, col: 20, offset: 91648},
+																									pos:        position{line: 2905, col: 20, offset: 91756},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2901, col: 29, offset: 91657},
+																									pos:        position{line: 2905, col: 29, offset: 91765},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34912,9 +34934,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2911, col: 8, offset: 91817},
+																						pos: position{line: 2915, col: 8, offset: 91925},
 																						expr: &anyMatcher{
-																							line: 2911, col: 9, offset: 91818,
+																							line: 2915, col: 9, offset: 91926,
 																						},
 																					},
 																				},
@@ -34923,9 +34945,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2911, col: 8, offset: 91817},
+																	pos: position{line: 2915, col: 8, offset: 91925},
 																	expr: &anyMatcher{
-																		line: 2911, col: 9, offset: 91818,
+																		line: 2915, col: 9, offset: 91926,
 																	},
 																},
 															},
@@ -34936,39 +34958,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1039, col: 5, offset: 32192},
+										pos: position{line: 1043, col: 5, offset: 32300},
 										run: (*parser).callonListContinuationElement1075,
 										expr: &seqExpr{
-											pos: position{line: 1039, col: 5, offset: 32192},
+											pos: position{line: 1043, col: 5, offset: 32300},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1039, col: 5, offset: 32192},
+													pos:   position{line: 1043, col: 5, offset: 32300},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 800, col: 5, offset: 25690},
+														pos: position{line: 804, col: 5, offset: 25798},
 														run: (*parser).callonListContinuationElement1078,
 														expr: &seqExpr{
-															pos: position{line: 800, col: 5, offset: 25690},
+															pos: position{line: 804, col: 5, offset: 25798},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 800, col: 5, offset: 25690},
+																	pos:   position{line: 804, col: 5, offset: 25798},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 800, col: 16, offset: 25701},
+																		pos: position{line: 804, col: 16, offset: 25809},
 																		run: (*parser).callonListContinuationElement1081,
 																		expr: &seqExpr{
-																			pos: position{line: 800, col: 16, offset: 25701},
+																			pos: position{line: 804, col: 16, offset: 25809},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 800, col: 16, offset: 25701},
+																					pos:        position{line: 804, col: 16, offset: 25809},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 800, col: 23, offset: 25708},
+																					pos: position{line: 804, col: 23, offset: 25816},
 																					expr: &litMatcher{
-																						pos:        position{line: 800, col: 23, offset: 25708},
+																						pos:        position{line: 804, col: 23, offset: 25816},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -34979,12 +35001,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 802, col: 8, offset: 25792},
+																	pos: position{line: 806, col: 8, offset: 25900},
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 10, offset: 91469},
+																		pos: position{line: 2896, col: 10, offset: 91577},
 																		run: (*parser).callonListContinuationElement1087,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 10, offset: 91469},
+																			pos:        position{line: 2896, col: 10, offset: 91577},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34993,28 +35015,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonListContinuationElement1090,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35023,9 +35045,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -35035,56 +35057,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1040, col: 5, offset: 32235},
+													pos: position{line: 1044, col: 5, offset: 32343},
 													run: (*parser).callonListContinuationElement1097,
 												},
 												&labeledExpr{
-													pos:   position{line: 1043, col: 5, offset: 32327},
+													pos:   position{line: 1047, col: 5, offset: 32435},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1058, col: 5, offset: 32757},
+														pos: position{line: 1062, col: 5, offset: 32865},
 														expr: &actionExpr{
-															pos: position{line: 1058, col: 6, offset: 32758},
+															pos: position{line: 1062, col: 6, offset: 32866},
 															run: (*parser).callonListContinuationElement1100,
 															expr: &seqExpr{
-																pos: position{line: 1058, col: 6, offset: 32758},
+																pos: position{line: 1062, col: 6, offset: 32866},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1058, col: 6, offset: 32758},
+																		pos: position{line: 1062, col: 6, offset: 32866},
 																		expr: &choiceExpr{
-																			pos: position{line: 1051, col: 5, offset: 32591},
+																			pos: position{line: 1055, col: 5, offset: 32699},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1051, col: 5, offset: 32591},
+																					pos: position{line: 1055, col: 5, offset: 32699},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1051, col: 5, offset: 32591},
+																							pos:   position{line: 1055, col: 5, offset: 32699},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 800, col: 5, offset: 25690},
+																								pos: position{line: 804, col: 5, offset: 25798},
 																								run: (*parser).callonListContinuationElement1106,
 																								expr: &seqExpr{
-																									pos: position{line: 800, col: 5, offset: 25690},
+																									pos: position{line: 804, col: 5, offset: 25798},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 800, col: 5, offset: 25690},
+																											pos:   position{line: 804, col: 5, offset: 25798},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 800, col: 16, offset: 25701},
+																												pos: position{line: 804, col: 16, offset: 25809},
 																												run: (*parser).callonListContinuationElement1109,
 																												expr: &seqExpr{
-																													pos: position{line: 800, col: 16, offset: 25701},
+																													pos: position{line: 804, col: 16, offset: 25809},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 800, col: 16, offset: 25701},
+																															pos:        position{line: 804, col: 16, offset: 25809},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 800, col: 23, offset: 25708},
+																															pos: position{line: 804, col: 23, offset: 25816},
 																															expr: &litMatcher{
-																																pos:        position{line: 800, col: 23, offset: 25708},
+																																pos:        position{line: 804, col: 23, offset: 25816},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -35095,12 +35117,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 802, col: 8, offset: 25792},
+																											pos: position{line: 806, col: 8, offset: 25900},
 																											expr: &actionExpr{
-																												pos: position{line: 2892, col: 10, offset: 91469},
+																												pos: position{line: 2896, col: 10, offset: 91577},
 																												run: (*parser).callonListContinuationElement1115,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2892, col: 10, offset: 91469},
+																													pos:        position{line: 2896, col: 10, offset: 91577},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35109,28 +35131,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2914, col: 8, offset: 91867},
+																											pos: position{line: 2918, col: 8, offset: 91975},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2901, col: 12, offset: 91640},
+																													pos: position{line: 2905, col: 12, offset: 91748},
 																													run: (*parser).callonListContinuationElement1118,
 																													expr: &choiceExpr{
-																														pos: position{line: 2901, col: 13, offset: 91641},
+																														pos: position{line: 2905, col: 13, offset: 91749},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 13, offset: 91641},
+																																pos:        position{line: 2905, col: 13, offset: 91749},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 20, offset: 91648},
+																																pos:        position{line: 2905, col: 20, offset: 91756},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 29, offset: 91657},
+																																pos:        position{line: 2905, col: 29, offset: 91765},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35139,9 +35161,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2911, col: 8, offset: 91817},
+																													pos: position{line: 2915, col: 8, offset: 91925},
 																													expr: &anyMatcher{
-																														line: 2911, col: 9, offset: 91818,
+																														line: 2915, col: 9, offset: 91926,
 																													},
 																												},
 																											},
@@ -35151,45 +35173,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1052, col: 5, offset: 32626},
+																							pos: position{line: 1056, col: 5, offset: 32734},
 																							run: (*parser).callonListContinuationElement1125,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1059, col: 5, offset: 32792},
+																		pos:   position{line: 1063, col: 5, offset: 32900},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 821, col: 5, offset: 26434},
+																			pos: position{line: 825, col: 5, offset: 26542},
 																			run: (*parser).callonListContinuationElement1129,
 																			expr: &seqExpr{
-																				pos: position{line: 821, col: 5, offset: 26434},
+																				pos: position{line: 825, col: 5, offset: 26542},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2909, col: 11, offset: 91803},
+																						pos: position{line: 2913, col: 11, offset: 91911},
 																						expr: &anyMatcher{
-																							line: 2909, col: 13, offset: 91805,
+																							line: 2913, col: 13, offset: 91913,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 822, col: 5, offset: 26509},
+																						pos:   position{line: 826, col: 5, offset: 26617},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2838, col: 13, offset: 89995},
+																							pos: position{line: 2842, col: 13, offset: 90103},
 																							run: (*parser).callonListContinuationElement1134,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2838, col: 13, offset: 89995},
+																									pos:        position{line: 2842, col: 13, offset: 90103},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35199,28 +35221,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2914, col: 8, offset: 91867},
+																						pos: position{line: 2918, col: 8, offset: 91975},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2901, col: 12, offset: 91640},
+																								pos: position{line: 2905, col: 12, offset: 91748},
 																								run: (*parser).callonListContinuationElement1138,
 																								expr: &choiceExpr{
-																									pos: position{line: 2901, col: 13, offset: 91641},
+																									pos: position{line: 2905, col: 13, offset: 91749},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91641},
+																											pos:        position{line: 2905, col: 13, offset: 91749},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 20, offset: 91648},
+																											pos:        position{line: 2905, col: 20, offset: 91756},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 29, offset: 91657},
+																											pos:        position{line: 2905, col: 29, offset: 91765},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35229,9 +35251,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 8, offset: 91817},
+																								pos: position{line: 2915, col: 8, offset: 91925},
 																								expr: &anyMatcher{
-																									line: 2911, col: 9, offset: 91818,
+																									line: 2915, col: 9, offset: 91926,
 																								},
 																							},
 																						},
@@ -35246,44 +35268,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1044, col: 5, offset: 32365},
+													pos:   position{line: 1048, col: 5, offset: 32473},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1044, col: 9, offset: 32369},
+														pos: position{line: 1048, col: 9, offset: 32477},
 														expr: &choiceExpr{
-															pos: position{line: 1051, col: 5, offset: 32591},
+															pos: position{line: 1055, col: 5, offset: 32699},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1051, col: 5, offset: 32591},
+																	pos: position{line: 1055, col: 5, offset: 32699},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1051, col: 5, offset: 32591},
+																			pos:   position{line: 1055, col: 5, offset: 32699},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 800, col: 5, offset: 25690},
+																				pos: position{line: 804, col: 5, offset: 25798},
 																				run: (*parser).callonListContinuationElement1150,
 																				expr: &seqExpr{
-																					pos: position{line: 800, col: 5, offset: 25690},
+																					pos: position{line: 804, col: 5, offset: 25798},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 800, col: 5, offset: 25690},
+																							pos:   position{line: 804, col: 5, offset: 25798},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 800, col: 16, offset: 25701},
+																								pos: position{line: 804, col: 16, offset: 25809},
 																								run: (*parser).callonListContinuationElement1153,
 																								expr: &seqExpr{
-																									pos: position{line: 800, col: 16, offset: 25701},
+																									pos: position{line: 804, col: 16, offset: 25809},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 800, col: 16, offset: 25701},
+																											pos:        position{line: 804, col: 16, offset: 25809},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 800, col: 23, offset: 25708},
+																											pos: position{line: 804, col: 23, offset: 25816},
 																											expr: &litMatcher{
-																												pos:        position{line: 800, col: 23, offset: 25708},
+																												pos:        position{line: 804, col: 23, offset: 25816},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -35294,12 +35316,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 802, col: 8, offset: 25792},
+																							pos: position{line: 806, col: 8, offset: 25900},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonListContinuationElement1159,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35308,28 +35330,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonListContinuationElement1162,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35338,9 +35360,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -35350,15 +35372,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1052, col: 5, offset: 32626},
+																			pos: position{line: 1056, col: 5, offset: 32734},
 																			run: (*parser).callonListContinuationElement1169,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2911, col: 8, offset: 91817},
+																	pos: position{line: 2915, col: 8, offset: 91925},
 																	expr: &anyMatcher{
-																		line: 2911, col: 9, offset: 91818,
+																		line: 2915, col: 9, offset: 91926,
 																	},
 																},
 															},
@@ -35369,39 +35391,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1067, col: 5, offset: 32943},
+										pos: position{line: 1071, col: 5, offset: 33051},
 										run: (*parser).callonListContinuationElement1172,
 										expr: &seqExpr{
-											pos: position{line: 1067, col: 5, offset: 32943},
+											pos: position{line: 1071, col: 5, offset: 33051},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1067, col: 5, offset: 32943},
+													pos:   position{line: 1071, col: 5, offset: 33051},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 807, col: 5, offset: 25940},
+														pos: position{line: 811, col: 5, offset: 26048},
 														run: (*parser).callonListContinuationElement1175,
 														expr: &seqExpr{
-															pos: position{line: 807, col: 5, offset: 25940},
+															pos: position{line: 811, col: 5, offset: 26048},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 807, col: 5, offset: 25940},
+																	pos:   position{line: 811, col: 5, offset: 26048},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 807, col: 16, offset: 25951},
+																		pos: position{line: 811, col: 16, offset: 26059},
 																		run: (*parser).callonListContinuationElement1178,
 																		expr: &seqExpr{
-																			pos: position{line: 807, col: 16, offset: 25951},
+																			pos: position{line: 811, col: 16, offset: 26059},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 807, col: 16, offset: 25951},
+																					pos:        position{line: 811, col: 16, offset: 26059},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 807, col: 23, offset: 25958},
+																					pos: position{line: 811, col: 23, offset: 26066},
 																					expr: &litMatcher{
-																						pos:        position{line: 807, col: 23, offset: 25958},
+																						pos:        position{line: 811, col: 23, offset: 26066},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -35412,12 +35434,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 809, col: 8, offset: 26042},
+																	pos: position{line: 813, col: 8, offset: 26150},
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 10, offset: 91469},
+																		pos: position{line: 2896, col: 10, offset: 91577},
 																		run: (*parser).callonListContinuationElement1184,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 10, offset: 91469},
+																			pos:        position{line: 2896, col: 10, offset: 91577},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35426,28 +35448,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonListContinuationElement1187,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35456,9 +35478,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -35468,56 +35490,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1068, col: 5, offset: 32980},
+													pos: position{line: 1072, col: 5, offset: 33088},
 													run: (*parser).callonListContinuationElement1194,
 												},
 												&labeledExpr{
-													pos:   position{line: 1071, col: 5, offset: 33072},
+													pos:   position{line: 1075, col: 5, offset: 33180},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1086, col: 4, offset: 33453},
+														pos: position{line: 1090, col: 4, offset: 33561},
 														expr: &actionExpr{
-															pos: position{line: 1086, col: 5, offset: 33454},
+															pos: position{line: 1090, col: 5, offset: 33562},
 															run: (*parser).callonListContinuationElement1197,
 															expr: &seqExpr{
-																pos: position{line: 1086, col: 5, offset: 33454},
+																pos: position{line: 1090, col: 5, offset: 33562},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1086, col: 5, offset: 33454},
+																		pos: position{line: 1090, col: 5, offset: 33562},
 																		expr: &choiceExpr{
-																			pos: position{line: 1079, col: 5, offset: 33300},
+																			pos: position{line: 1083, col: 5, offset: 33408},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1079, col: 5, offset: 33300},
+																					pos: position{line: 1083, col: 5, offset: 33408},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1079, col: 5, offset: 33300},
+																							pos:   position{line: 1083, col: 5, offset: 33408},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 807, col: 5, offset: 25940},
+																								pos: position{line: 811, col: 5, offset: 26048},
 																								run: (*parser).callonListContinuationElement1203,
 																								expr: &seqExpr{
-																									pos: position{line: 807, col: 5, offset: 25940},
+																									pos: position{line: 811, col: 5, offset: 26048},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 807, col: 5, offset: 25940},
+																											pos:   position{line: 811, col: 5, offset: 26048},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 807, col: 16, offset: 25951},
+																												pos: position{line: 811, col: 16, offset: 26059},
 																												run: (*parser).callonListContinuationElement1206,
 																												expr: &seqExpr{
-																													pos: position{line: 807, col: 16, offset: 25951},
+																													pos: position{line: 811, col: 16, offset: 26059},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 807, col: 16, offset: 25951},
+																															pos:        position{line: 811, col: 16, offset: 26059},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 807, col: 23, offset: 25958},
+																															pos: position{line: 811, col: 23, offset: 26066},
 																															expr: &litMatcher{
-																																pos:        position{line: 807, col: 23, offset: 25958},
+																																pos:        position{line: 811, col: 23, offset: 26066},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -35528,12 +35550,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 809, col: 8, offset: 26042},
+																											pos: position{line: 813, col: 8, offset: 26150},
 																											expr: &actionExpr{
-																												pos: position{line: 2892, col: 10, offset: 91469},
+																												pos: position{line: 2896, col: 10, offset: 91577},
 																												run: (*parser).callonListContinuationElement1212,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2892, col: 10, offset: 91469},
+																													pos:        position{line: 2896, col: 10, offset: 91577},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35542,28 +35564,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2914, col: 8, offset: 91867},
+																											pos: position{line: 2918, col: 8, offset: 91975},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2901, col: 12, offset: 91640},
+																													pos: position{line: 2905, col: 12, offset: 91748},
 																													run: (*parser).callonListContinuationElement1215,
 																													expr: &choiceExpr{
-																														pos: position{line: 2901, col: 13, offset: 91641},
+																														pos: position{line: 2905, col: 13, offset: 91749},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 13, offset: 91641},
+																																pos:        position{line: 2905, col: 13, offset: 91749},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 20, offset: 91648},
+																																pos:        position{line: 2905, col: 20, offset: 91756},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 29, offset: 91657},
+																																pos:        position{line: 2905, col: 29, offset: 91765},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35572,9 +35594,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2911, col: 8, offset: 91817},
+																													pos: position{line: 2915, col: 8, offset: 91925},
 																													expr: &anyMatcher{
-																														line: 2911, col: 9, offset: 91818,
+																														line: 2915, col: 9, offset: 91926,
 																													},
 																												},
 																											},
@@ -35584,45 +35606,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1080, col: 5, offset: 33329},
+																							pos: position{line: 1084, col: 5, offset: 33437},
 																							run: (*parser).callonListContinuationElement1222,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1087, col: 5, offset: 33482},
+																		pos:   position{line: 1091, col: 5, offset: 33590},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 821, col: 5, offset: 26434},
+																			pos: position{line: 825, col: 5, offset: 26542},
 																			run: (*parser).callonListContinuationElement1226,
 																			expr: &seqExpr{
-																				pos: position{line: 821, col: 5, offset: 26434},
+																				pos: position{line: 825, col: 5, offset: 26542},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2909, col: 11, offset: 91803},
+																						pos: position{line: 2913, col: 11, offset: 91911},
 																						expr: &anyMatcher{
-																							line: 2909, col: 13, offset: 91805,
+																							line: 2913, col: 13, offset: 91913,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 822, col: 5, offset: 26509},
+																						pos:   position{line: 826, col: 5, offset: 26617},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2838, col: 13, offset: 89995},
+																							pos: position{line: 2842, col: 13, offset: 90103},
 																							run: (*parser).callonListContinuationElement1231,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2838, col: 13, offset: 89995},
+																									pos:        position{line: 2842, col: 13, offset: 90103},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35632,28 +35654,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2914, col: 8, offset: 91867},
+																						pos: position{line: 2918, col: 8, offset: 91975},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2901, col: 12, offset: 91640},
+																								pos: position{line: 2905, col: 12, offset: 91748},
 																								run: (*parser).callonListContinuationElement1235,
 																								expr: &choiceExpr{
-																									pos: position{line: 2901, col: 13, offset: 91641},
+																									pos: position{line: 2905, col: 13, offset: 91749},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91641},
+																											pos:        position{line: 2905, col: 13, offset: 91749},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 20, offset: 91648},
+																											pos:        position{line: 2905, col: 20, offset: 91756},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 29, offset: 91657},
+																											pos:        position{line: 2905, col: 29, offset: 91765},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35662,9 +35684,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 8, offset: 91817},
+																								pos: position{line: 2915, col: 8, offset: 91925},
 																								expr: &anyMatcher{
-																									line: 2911, col: 9, offset: 91818,
+																									line: 2915, col: 9, offset: 91926,
 																								},
 																							},
 																						},
@@ -35679,44 +35701,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1072, col: 5, offset: 33104},
+													pos:   position{line: 1076, col: 5, offset: 33212},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1072, col: 9, offset: 33108},
+														pos: position{line: 1076, col: 9, offset: 33216},
 														expr: &choiceExpr{
-															pos: position{line: 1079, col: 5, offset: 33300},
+															pos: position{line: 1083, col: 5, offset: 33408},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1079, col: 5, offset: 33300},
+																	pos: position{line: 1083, col: 5, offset: 33408},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1079, col: 5, offset: 33300},
+																			pos:   position{line: 1083, col: 5, offset: 33408},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 807, col: 5, offset: 25940},
+																				pos: position{line: 811, col: 5, offset: 26048},
 																				run: (*parser).callonListContinuationElement1247,
 																				expr: &seqExpr{
-																					pos: position{line: 807, col: 5, offset: 25940},
+																					pos: position{line: 811, col: 5, offset: 26048},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 807, col: 5, offset: 25940},
+																							pos:   position{line: 811, col: 5, offset: 26048},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 807, col: 16, offset: 25951},
+																								pos: position{line: 811, col: 16, offset: 26059},
 																								run: (*parser).callonListContinuationElement1250,
 																								expr: &seqExpr{
-																									pos: position{line: 807, col: 16, offset: 25951},
+																									pos: position{line: 811, col: 16, offset: 26059},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 807, col: 16, offset: 25951},
+																											pos:        position{line: 811, col: 16, offset: 26059},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 807, col: 23, offset: 25958},
+																											pos: position{line: 811, col: 23, offset: 26066},
 																											expr: &litMatcher{
-																												pos:        position{line: 807, col: 23, offset: 25958},
+																												pos:        position{line: 811, col: 23, offset: 26066},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -35727,12 +35749,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 809, col: 8, offset: 26042},
+																							pos: position{line: 813, col: 8, offset: 26150},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonListContinuationElement1256,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35741,28 +35763,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonListContinuationElement1259,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35771,9 +35793,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -35783,15 +35805,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1080, col: 5, offset: 33329},
+																			pos: position{line: 1084, col: 5, offset: 33437},
 																			run: (*parser).callonListContinuationElement1266,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2911, col: 8, offset: 91817},
+																	pos: position{line: 2915, col: 8, offset: 91925},
 																	expr: &anyMatcher{
-																		line: 2911, col: 9, offset: 91818,
+																		line: 2915, col: 9, offset: 91926,
 																	},
 																},
 															},
@@ -35802,39 +35824,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1095, col: 5, offset: 33637},
+										pos: position{line: 1099, col: 5, offset: 33745},
 										run: (*parser).callonListContinuationElement1269,
 										expr: &seqExpr{
-											pos: position{line: 1095, col: 5, offset: 33637},
+											pos: position{line: 1099, col: 5, offset: 33745},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1095, col: 5, offset: 33637},
+													pos:   position{line: 1099, col: 5, offset: 33745},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 814, col: 5, offset: 26186},
+														pos: position{line: 818, col: 5, offset: 26294},
 														run: (*parser).callonListContinuationElement1272,
 														expr: &seqExpr{
-															pos: position{line: 814, col: 5, offset: 26186},
+															pos: position{line: 818, col: 5, offset: 26294},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 814, col: 5, offset: 26186},
+																	pos:   position{line: 818, col: 5, offset: 26294},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 814, col: 16, offset: 26197},
+																		pos: position{line: 818, col: 16, offset: 26305},
 																		run: (*parser).callonListContinuationElement1275,
 																		expr: &seqExpr{
-																			pos: position{line: 814, col: 16, offset: 26197},
+																			pos: position{line: 818, col: 16, offset: 26305},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 814, col: 16, offset: 26197},
+																					pos:        position{line: 818, col: 16, offset: 26305},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 814, col: 23, offset: 26204},
+																					pos: position{line: 818, col: 23, offset: 26312},
 																					expr: &litMatcher{
-																						pos:        position{line: 814, col: 23, offset: 26204},
+																						pos:        position{line: 818, col: 23, offset: 26312},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -35845,12 +35867,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 816, col: 8, offset: 26288},
+																	pos: position{line: 820, col: 8, offset: 26396},
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 10, offset: 91469},
+																		pos: position{line: 2896, col: 10, offset: 91577},
 																		run: (*parser).callonListContinuationElement1281,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 10, offset: 91469},
+																			pos:        position{line: 2896, col: 10, offset: 91577},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35859,28 +35881,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonListContinuationElement1284,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35889,9 +35911,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -35901,56 +35923,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1096, col: 5, offset: 33676},
+													pos: position{line: 1100, col: 5, offset: 33784},
 													run: (*parser).callonListContinuationElement1291,
 												},
 												&labeledExpr{
-													pos:   position{line: 1099, col: 5, offset: 33768},
+													pos:   position{line: 1103, col: 5, offset: 33876},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1114, col: 4, offset: 34165},
+														pos: position{line: 1118, col: 4, offset: 34273},
 														expr: &actionExpr{
-															pos: position{line: 1114, col: 5, offset: 34166},
+															pos: position{line: 1118, col: 5, offset: 34274},
 															run: (*parser).callonListContinuationElement1294,
 															expr: &seqExpr{
-																pos: position{line: 1114, col: 5, offset: 34166},
+																pos: position{line: 1118, col: 5, offset: 34274},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1114, col: 5, offset: 34166},
+																		pos: position{line: 1118, col: 5, offset: 34274},
 																		expr: &choiceExpr{
-																			pos: position{line: 1107, col: 5, offset: 34008},
+																			pos: position{line: 1111, col: 5, offset: 34116},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1107, col: 5, offset: 34008},
+																					pos: position{line: 1111, col: 5, offset: 34116},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1107, col: 5, offset: 34008},
+																							pos:   position{line: 1111, col: 5, offset: 34116},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 814, col: 5, offset: 26186},
+																								pos: position{line: 818, col: 5, offset: 26294},
 																								run: (*parser).callonListContinuationElement1300,
 																								expr: &seqExpr{
-																									pos: position{line: 814, col: 5, offset: 26186},
+																									pos: position{line: 818, col: 5, offset: 26294},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 814, col: 5, offset: 26186},
+																											pos:   position{line: 818, col: 5, offset: 26294},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 814, col: 16, offset: 26197},
+																												pos: position{line: 818, col: 16, offset: 26305},
 																												run: (*parser).callonListContinuationElement1303,
 																												expr: &seqExpr{
-																													pos: position{line: 814, col: 16, offset: 26197},
+																													pos: position{line: 818, col: 16, offset: 26305},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 814, col: 16, offset: 26197},
+																															pos:        position{line: 818, col: 16, offset: 26305},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 814, col: 23, offset: 26204},
+																															pos: position{line: 818, col: 23, offset: 26312},
 																															expr: &litMatcher{
-																																pos:        position{line: 814, col: 23, offset: 26204},
+																																pos:        position{line: 818, col: 23, offset: 26312},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -35961,12 +35983,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 816, col: 8, offset: 26288},
+																											pos: position{line: 820, col: 8, offset: 26396},
 																											expr: &actionExpr{
-																												pos: position{line: 2892, col: 10, offset: 91469},
+																												pos: position{line: 2896, col: 10, offset: 91577},
 																												run: (*parser).callonListContinuationElement1309,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2892, col: 10, offset: 91469},
+																													pos:        position{line: 2896, col: 10, offset: 91577},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35975,28 +35997,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2914, col: 8, offset: 91867},
+																											pos: position{line: 2918, col: 8, offset: 91975},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2901, col: 12, offset: 91640},
+																													pos: position{line: 2905, col: 12, offset: 91748},
 																													run: (*parser).callonListContinuationElement1312,
 																													expr: &choiceExpr{
-																														pos: position{line: 2901, col: 13, offset: 91641},
+																														pos: position{line: 2905, col: 13, offset: 91749},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 13, offset: 91641},
+																																pos:        position{line: 2905, col: 13, offset: 91749},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 20, offset: 91648},
+																																pos:        position{line: 2905, col: 20, offset: 91756},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 29, offset: 91657},
+																																pos:        position{line: 2905, col: 29, offset: 91765},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36005,9 +36027,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2911, col: 8, offset: 91817},
+																													pos: position{line: 2915, col: 8, offset: 91925},
 																													expr: &anyMatcher{
-																														line: 2911, col: 9, offset: 91818,
+																														line: 2915, col: 9, offset: 91926,
 																													},
 																												},
 																											},
@@ -36017,45 +36039,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1108, col: 5, offset: 34039},
+																							pos: position{line: 1112, col: 5, offset: 34147},
 																							run: (*parser).callonListContinuationElement1319,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1115, col: 5, offset: 34196},
+																		pos:   position{line: 1119, col: 5, offset: 34304},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 821, col: 5, offset: 26434},
+																			pos: position{line: 825, col: 5, offset: 26542},
 																			run: (*parser).callonListContinuationElement1323,
 																			expr: &seqExpr{
-																				pos: position{line: 821, col: 5, offset: 26434},
+																				pos: position{line: 825, col: 5, offset: 26542},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2909, col: 11, offset: 91803},
+																						pos: position{line: 2913, col: 11, offset: 91911},
 																						expr: &anyMatcher{
-																							line: 2909, col: 13, offset: 91805,
+																							line: 2913, col: 13, offset: 91913,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 822, col: 5, offset: 26509},
+																						pos:   position{line: 826, col: 5, offset: 26617},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2838, col: 13, offset: 89995},
+																							pos: position{line: 2842, col: 13, offset: 90103},
 																							run: (*parser).callonListContinuationElement1328,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2838, col: 13, offset: 89995},
+																									pos:        position{line: 2842, col: 13, offset: 90103},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36065,28 +36087,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2914, col: 8, offset: 91867},
+																						pos: position{line: 2918, col: 8, offset: 91975},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2901, col: 12, offset: 91640},
+																								pos: position{line: 2905, col: 12, offset: 91748},
 																								run: (*parser).callonListContinuationElement1332,
 																								expr: &choiceExpr{
-																									pos: position{line: 2901, col: 13, offset: 91641},
+																									pos: position{line: 2905, col: 13, offset: 91749},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91641},
+																											pos:        position{line: 2905, col: 13, offset: 91749},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 20, offset: 91648},
+																											pos:        position{line: 2905, col: 20, offset: 91756},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 29, offset: 91657},
+																											pos:        position{line: 2905, col: 29, offset: 91765},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36095,9 +36117,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 8, offset: 91817},
+																								pos: position{line: 2915, col: 8, offset: 91925},
 																								expr: &anyMatcher{
-																									line: 2911, col: 9, offset: 91818,
+																									line: 2915, col: 9, offset: 91926,
 																								},
 																							},
 																						},
@@ -36112,44 +36134,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1100, col: 5, offset: 33802},
+													pos:   position{line: 1104, col: 5, offset: 33910},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1100, col: 9, offset: 33806},
+														pos: position{line: 1104, col: 9, offset: 33914},
 														expr: &choiceExpr{
-															pos: position{line: 1107, col: 5, offset: 34008},
+															pos: position{line: 1111, col: 5, offset: 34116},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1107, col: 5, offset: 34008},
+																	pos: position{line: 1111, col: 5, offset: 34116},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1107, col: 5, offset: 34008},
+																			pos:   position{line: 1111, col: 5, offset: 34116},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 814, col: 5, offset: 26186},
+																				pos: position{line: 818, col: 5, offset: 26294},
 																				run: (*parser).callonListContinuationElement1344,
 																				expr: &seqExpr{
-																					pos: position{line: 814, col: 5, offset: 26186},
+																					pos: position{line: 818, col: 5, offset: 26294},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 814, col: 5, offset: 26186},
+																							pos:   position{line: 818, col: 5, offset: 26294},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 814, col: 16, offset: 26197},
+																								pos: position{line: 818, col: 16, offset: 26305},
 																								run: (*parser).callonListContinuationElement1347,
 																								expr: &seqExpr{
-																									pos: position{line: 814, col: 16, offset: 26197},
+																									pos: position{line: 818, col: 16, offset: 26305},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 814, col: 16, offset: 26197},
+																											pos:        position{line: 818, col: 16, offset: 26305},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 814, col: 23, offset: 26204},
+																											pos: position{line: 818, col: 23, offset: 26312},
 																											expr: &litMatcher{
-																												pos:        position{line: 814, col: 23, offset: 26204},
+																												pos:        position{line: 818, col: 23, offset: 26312},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -36160,12 +36182,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 816, col: 8, offset: 26288},
+																							pos: position{line: 820, col: 8, offset: 26396},
 																							expr: &actionExpr{
-																								pos: position{line: 2892, col: 10, offset: 91469},
+																								pos: position{line: 2896, col: 10, offset: 91577},
 																								run: (*parser).callonListContinuationElement1353,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2892, col: 10, offset: 91469},
+																									pos:        position{line: 2896, col: 10, offset: 91577},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36174,28 +36196,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2914, col: 8, offset: 91867},
+																							pos: position{line: 2918, col: 8, offset: 91975},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2901, col: 12, offset: 91640},
+																									pos: position{line: 2905, col: 12, offset: 91748},
 																									run: (*parser).callonListContinuationElement1356,
 																									expr: &choiceExpr{
-																										pos: position{line: 2901, col: 13, offset: 91641},
+																										pos: position{line: 2905, col: 13, offset: 91749},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 13, offset: 91641},
+																												pos:        position{line: 2905, col: 13, offset: 91749},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 20, offset: 91648},
+																												pos:        position{line: 2905, col: 20, offset: 91756},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2901, col: 29, offset: 91657},
+																												pos:        position{line: 2905, col: 29, offset: 91765},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36204,9 +36226,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2911, col: 8, offset: 91817},
+																									pos: position{line: 2915, col: 8, offset: 91925},
 																									expr: &anyMatcher{
-																										line: 2911, col: 9, offset: 91818,
+																										line: 2915, col: 9, offset: 91926,
 																									},
 																								},
 																							},
@@ -36216,15 +36238,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1108, col: 5, offset: 34039},
+																			pos: position{line: 1112, col: 5, offset: 34147},
 																			run: (*parser).callonListContinuationElement1363,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2911, col: 8, offset: 91817},
+																	pos: position{line: 2915, col: 8, offset: 91925},
 																	expr: &anyMatcher{
-																		line: 2911, col: 9, offset: 91818,
+																		line: 2915, col: 9, offset: 91926,
 																	},
 																},
 															},
@@ -36235,52 +36257,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2737, col: 18, offset: 87059},
+										pos: position{line: 2741, col: 18, offset: 87167},
 										run: (*parser).callonListContinuationElement1366,
 										expr: &seqExpr{
-											pos: position{line: 2737, col: 18, offset: 87059},
+											pos: position{line: 2741, col: 18, offset: 87167},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2738, col: 9, offset: 87069},
+													pos: position{line: 2742, col: 9, offset: 87177},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2738, col: 9, offset: 87069},
+															pos:        position{line: 2742, col: 9, offset: 87177},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2739, col: 11, offset: 87105},
+															pos:        position{line: 2743, col: 11, offset: 87213},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2739, col: 19, offset: 87113},
+															pos:        position{line: 2743, col: 19, offset: 87221},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2739, col: 29, offset: 87123},
+															pos:        position{line: 2743, col: 29, offset: 87231},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2739, col: 37, offset: 87131},
+															pos:        position{line: 2743, col: 37, offset: 87239},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2739, col: 47, offset: 87141},
+															pos:        position{line: 2743, col: 47, offset: 87249},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2739, col: 55, offset: 87149},
+															pos:        position{line: 2743, col: 55, offset: 87257},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -36288,12 +36310,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2740, col: 11, offset: 87207},
+													pos: position{line: 2744, col: 11, offset: 87315},
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 10, offset: 91469},
+														pos: position{line: 2896, col: 10, offset: 91577},
 														run: (*parser).callonListContinuationElement1377,
 														expr: &charClassMatcher{
-															pos:        position{line: 2892, col: 10, offset: 91469},
+															pos:        position{line: 2896, col: 10, offset: 91577},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36302,28 +36324,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2914, col: 8, offset: 91867},
+													pos: position{line: 2918, col: 8, offset: 91975},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2901, col: 12, offset: 91640},
+															pos: position{line: 2905, col: 12, offset: 91748},
 															run: (*parser).callonListContinuationElement1380,
 															expr: &choiceExpr{
-																pos: position{line: 2901, col: 13, offset: 91641},
+																pos: position{line: 2905, col: 13, offset: 91749},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 13, offset: 91641},
+																		pos:        position{line: 2905, col: 13, offset: 91749},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 20, offset: 91648},
+																		pos:        position{line: 2905, col: 20, offset: 91756},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 29, offset: 91657},
+																		pos:        position{line: 2905, col: 29, offset: 91765},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36332,36 +36354,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2911, col: 8, offset: 91817},
+															pos: position{line: 2915, col: 8, offset: 91925},
 															expr: &anyMatcher{
-																line: 2911, col: 9, offset: 91818,
+																line: 2915, col: 9, offset: 91926,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2914, col: 8, offset: 91867},
+													pos: position{line: 2918, col: 8, offset: 91975},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2901, col: 12, offset: 91640},
+															pos: position{line: 2905, col: 12, offset: 91748},
 															run: (*parser).callonListContinuationElement1388,
 															expr: &choiceExpr{
-																pos: position{line: 2901, col: 13, offset: 91641},
+																pos: position{line: 2905, col: 13, offset: 91749},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 13, offset: 91641},
+																		pos:        position{line: 2905, col: 13, offset: 91749},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 20, offset: 91648},
+																		pos:        position{line: 2905, col: 20, offset: 91756},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 29, offset: 91657},
+																		pos:        position{line: 2905, col: 29, offset: 91765},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36370,9 +36392,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2911, col: 8, offset: 91817},
+															pos: position{line: 2915, col: 8, offset: 91925},
 															expr: &anyMatcher{
-																line: 2911, col: 9, offset: 91818,
+																line: 2915, col: 9, offset: 91926,
 															},
 														},
 													},
@@ -36381,28 +36403,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1570, col: 11, offset: 50734},
+										pos:  position{line: 1574, col: 11, offset: 50842},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2622, col: 5, offset: 83841},
+										pos: position{line: 2626, col: 5, offset: 83949},
 										run: (*parser).callonListContinuationElement1396,
 										expr: &seqExpr{
-											pos: position{line: 2622, col: 5, offset: 83841},
+											pos: position{line: 2626, col: 5, offset: 83949},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2634, col: 19, offset: 84110},
+													pos:        position{line: 2638, col: 19, offset: 84218},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2634, col: 26, offset: 84117},
+													pos: position{line: 2638, col: 26, offset: 84225},
 													expr: &actionExpr{
-														pos: position{line: 2892, col: 10, offset: 91469},
+														pos: position{line: 2896, col: 10, offset: 91577},
 														run: (*parser).callonListContinuationElement1400,
 														expr: &charClassMatcher{
-															pos:        position{line: 2892, col: 10, offset: 91469},
+															pos:        position{line: 2896, col: 10, offset: 91577},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36411,28 +36433,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2914, col: 8, offset: 91867},
+													pos: position{line: 2918, col: 8, offset: 91975},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2901, col: 12, offset: 91640},
+															pos: position{line: 2905, col: 12, offset: 91748},
 															run: (*parser).callonListContinuationElement1403,
 															expr: &choiceExpr{
-																pos: position{line: 2901, col: 13, offset: 91641},
+																pos: position{line: 2905, col: 13, offset: 91749},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 13, offset: 91641},
+																		pos:        position{line: 2905, col: 13, offset: 91749},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 20, offset: 91648},
+																		pos:        position{line: 2905, col: 20, offset: 91756},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 29, offset: 91657},
+																		pos:        position{line: 2905, col: 29, offset: 91765},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36441,46 +36463,46 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2911, col: 8, offset: 91817},
+															pos: position{line: 2915, col: 8, offset: 91925},
 															expr: &anyMatcher{
-																line: 2911, col: 9, offset: 91818,
+																line: 2915, col: 9, offset: 91926,
 															},
 														},
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2623, col: 5, offset: 83865},
+													pos: position{line: 2627, col: 5, offset: 83973},
 													expr: &actionExpr{
-														pos: position{line: 2493, col: 22, offset: 80229},
+														pos: position{line: 2497, col: 22, offset: 80337},
 														run: (*parser).callonListContinuationElement1411,
 														expr: &seqExpr{
-															pos: position{line: 2493, col: 22, offset: 80229},
+															pos: position{line: 2497, col: 22, offset: 80337},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2498, col: 31, offset: 80450},
+																	pos:        position{line: 2502, col: 31, offset: 80558},
 																	val:        "//",
 																	ignoreCase: false,
 																	want:       "\"//\"",
 																},
 																&notExpr{
-																	pos: position{line: 2498, col: 36, offset: 80455},
+																	pos: position{line: 2502, col: 36, offset: 80563},
 																	expr: &litMatcher{
-																		pos:        position{line: 2498, col: 37, offset: 80456},
+																		pos:        position{line: 2502, col: 37, offset: 80564},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 2493, col: 49, offset: 80256},
+																	pos:   position{line: 2497, col: 49, offset: 80364},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2838, col: 13, offset: 89995},
+																		pos: position{line: 2842, col: 13, offset: 90103},
 																		run: (*parser).callonListContinuationElement1417,
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 2838, col: 13, offset: 89995},
+																			pos: position{line: 2842, col: 13, offset: 90103},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2838, col: 13, offset: 89995},
+																				pos:        position{line: 2842, col: 13, offset: 90103},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -36490,28 +36512,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonListContinuationElement1421,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36520,9 +36542,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -36532,21 +36554,21 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2624, col: 5, offset: 83888},
+													pos:   position{line: 2628, col: 5, offset: 83996},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2624, col: 11, offset: 83894},
+														pos: position{line: 2628, col: 11, offset: 84002},
 														expr: &actionExpr{
-															pos: position{line: 2625, col: 9, offset: 83904},
+															pos: position{line: 2629, col: 9, offset: 84012},
 															run: (*parser).callonListContinuationElement1430,
 															expr: &seqExpr{
-																pos: position{line: 2625, col: 9, offset: 83904},
+																pos: position{line: 2629, col: 9, offset: 84012},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2625, col: 9, offset: 83904},
+																		pos:   position{line: 2629, col: 9, offset: 84012},
 																		label: "line",
 																		expr: &choiceExpr{
-																			pos: position{line: 2625, col: 15, offset: 83910},
+																			pos: position{line: 2629, col: 15, offset: 84018},
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 687, col: 14, offset: 21835},
@@ -36555,18 +36577,18 @@ var g = &grammar{
 																						pos: position{line: 687, col: 14, offset: 21835},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2909, col: 11, offset: 91803},
+																								pos: position{line: 2913, col: 11, offset: 91911},
 																								expr: &anyMatcher{
-																									line: 2909, col: 13, offset: 91805,
+																									line: 2913, col: 13, offset: 91913,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 687, col: 21, offset: 21842},
 																								expr: &actionExpr{
-																									pos: position{line: 2892, col: 10, offset: 91469},
+																									pos: position{line: 2896, col: 10, offset: 91577},
 																									run: (*parser).callonListContinuationElement1439,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2892, col: 10, offset: 91469},
+																										pos:        position{line: 2896, col: 10, offset: 91577},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -36575,28 +36597,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2914, col: 8, offset: 91867},
+																								pos: position{line: 2918, col: 8, offset: 91975},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2901, col: 12, offset: 91640},
+																										pos: position{line: 2905, col: 12, offset: 91748},
 																										run: (*parser).callonListContinuationElement1442,
 																										expr: &choiceExpr{
-																											pos: position{line: 2901, col: 13, offset: 91641},
+																											pos: position{line: 2905, col: 13, offset: 91749},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 13, offset: 91641},
+																													pos:        position{line: 2905, col: 13, offset: 91749},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 20, offset: 91648},
+																													pos:        position{line: 2905, col: 20, offset: 91756},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2901, col: 29, offset: 91657},
+																													pos:        position{line: 2905, col: 29, offset: 91765},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -36605,9 +36627,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2911, col: 8, offset: 91817},
+																										pos: position{line: 2915, col: 8, offset: 91925},
 																										expr: &anyMatcher{
-																											line: 2911, col: 9, offset: 91818,
+																											line: 2915, col: 9, offset: 91926,
 																										},
 																									},
 																								},
@@ -36616,32 +36638,32 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2641, col: 5, offset: 84229},
+																					pos: position{line: 2645, col: 5, offset: 84337},
 																					run: (*parser).callonListContinuationElement1449,
 																					expr: &seqExpr{
-																						pos: position{line: 2641, col: 5, offset: 84229},
+																						pos: position{line: 2645, col: 5, offset: 84337},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2641, col: 5, offset: 84229},
+																								pos: position{line: 2645, col: 5, offset: 84337},
 																								expr: &choiceExpr{
-																									pos: position{line: 2638, col: 22, offset: 84190},
+																									pos: position{line: 2642, col: 22, offset: 84298},
 																									alternatives: []interface{}{
 																										&seqExpr{
-																											pos: position{line: 2634, col: 19, offset: 84110},
+																											pos: position{line: 2638, col: 19, offset: 84218},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2634, col: 19, offset: 84110},
+																													pos:        position{line: 2638, col: 19, offset: 84218},
 																													val:        "|===",
 																													ignoreCase: false,
 																													want:       "\"|===\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 2634, col: 26, offset: 84117},
+																													pos: position{line: 2638, col: 26, offset: 84225},
 																													expr: &actionExpr{
-																														pos: position{line: 2892, col: 10, offset: 91469},
+																														pos: position{line: 2896, col: 10, offset: 91577},
 																														run: (*parser).callonListContinuationElement1456,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2892, col: 10, offset: 91469},
+																															pos:        position{line: 2896, col: 10, offset: 91577},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -36650,28 +36672,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2914, col: 8, offset: 91867},
+																													pos: position{line: 2918, col: 8, offset: 91975},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2901, col: 12, offset: 91640},
+																															pos: position{line: 2905, col: 12, offset: 91748},
 																															run: (*parser).callonListContinuationElement1459,
 																															expr: &choiceExpr{
-																																pos: position{line: 2901, col: 13, offset: 91641},
+																																pos: position{line: 2905, col: 13, offset: 91749},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2901, col: 13, offset: 91641},
+																																		pos:        position{line: 2905, col: 13, offset: 91749},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2901, col: 20, offset: 91648},
+																																		pos:        position{line: 2905, col: 20, offset: 91756},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2901, col: 29, offset: 91657},
+																																		pos:        position{line: 2905, col: 29, offset: 91765},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -36680,9 +36702,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2911, col: 8, offset: 91817},
+																															pos: position{line: 2915, col: 8, offset: 91925},
 																															expr: &anyMatcher{
-																																line: 2911, col: 9, offset: 91818,
+																																line: 2915, col: 9, offset: 91926,
 																															},
 																														},
 																													},
@@ -36690,59 +36712,59 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2911, col: 8, offset: 91817},
+																											pos: position{line: 2915, col: 8, offset: 91925},
 																											expr: &anyMatcher{
-																												line: 2911, col: 9, offset: 91818,
+																												line: 2915, col: 9, offset: 91926,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 2642, col: 5, offset: 84252},
+																								pos:   position{line: 2646, col: 5, offset: 84360},
 																								label: "content",
 																								expr: &choiceExpr{
-																									pos: position{line: 2643, col: 9, offset: 84270},
+																									pos: position{line: 2647, col: 9, offset: 84378},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2643, col: 10, offset: 84271},
+																											pos: position{line: 2647, col: 10, offset: 84379},
 																											run: (*parser).callonListContinuationElement1470,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2643, col: 10, offset: 84271},
+																												pos:   position{line: 2647, col: 10, offset: 84379},
 																												label: "cells",
 																												expr: &choiceExpr{
-																													pos: position{line: 2643, col: 17, offset: 84278},
+																													pos: position{line: 2647, col: 17, offset: 84386},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2651, col: 21, offset: 84474},
+																															pos: position{line: 2655, col: 21, offset: 84582},
 																															run: (*parser).callonListContinuationElement1473,
 																															expr: &seqExpr{
-																																pos: position{line: 2651, col: 21, offset: 84474},
+																																pos: position{line: 2655, col: 21, offset: 84582},
 																																exprs: []interface{}{
 																																	&labeledExpr{
-																																		pos:   position{line: 2651, col: 21, offset: 84474},
+																																		pos:   position{line: 2655, col: 21, offset: 84582},
 																																		label: "cells",
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 2651, col: 27, offset: 84480},
+																																			pos: position{line: 2655, col: 27, offset: 84588},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2656, col: 5, offset: 84555},
+																																				pos: position{line: 2660, col: 5, offset: 84663},
 																																				run: (*parser).callonListContinuationElement1477,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2656, col: 5, offset: 84555},
+																																					pos: position{line: 2660, col: 5, offset: 84663},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2656, col: 5, offset: 84555},
+																																							pos:        position{line: 2660, col: 5, offset: 84663},
 																																							val:        "|",
 																																							ignoreCase: false,
 																																							want:       "\"|\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2656, col: 9, offset: 84559},
+																																							pos: position{line: 2660, col: 9, offset: 84667},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2892, col: 10, offset: 91469},
+																																								pos: position{line: 2896, col: 10, offset: 91577},
 																																								run: (*parser).callonListContinuationElement1481,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2892, col: 10, offset: 91469},
+																																									pos:        position{line: 2896, col: 10, offset: 91577},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -36751,21 +36773,21 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2656, col: 16, offset: 84566},
+																																							pos:   position{line: 2660, col: 16, offset: 84674},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2662, col: 5, offset: 84766},
+																																								pos: position{line: 2666, col: 5, offset: 84874},
 																																								run: (*parser).callonListContinuationElement1484,
 																																								expr: &labeledExpr{
-																																									pos:   position{line: 2662, col: 5, offset: 84766},
+																																									pos:   position{line: 2666, col: 5, offset: 84874},
 																																									label: "content",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2662, col: 14, offset: 84775},
+																																										pos: position{line: 2666, col: 14, offset: 84883},
 																																										run: (*parser).callonListContinuationElement1486,
 																																										expr: &zeroOrMoreExpr{
-																																											pos: position{line: 2662, col: 14, offset: 84775},
+																																											pos: position{line: 2666, col: 14, offset: 84883},
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2662, col: 14, offset: 84775},
+																																												pos:        position{line: 2666, col: 14, offset: 84883},
 																																												val:        "[^|\\r\\n]",
 																																												chars:      []rune{'|', '\r', '\n'},
 																																												ignoreCase: false,
@@ -36782,28 +36804,28 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&choiceExpr{
-																																		pos: position{line: 2914, col: 8, offset: 91867},
+																																		pos: position{line: 2918, col: 8, offset: 91975},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 2901, col: 12, offset: 91640},
+																																				pos: position{line: 2905, col: 12, offset: 91748},
 																																				run: (*parser).callonListContinuationElement1490,
 																																				expr: &choiceExpr{
-																																					pos: position{line: 2901, col: 13, offset: 91641},
+																																					pos: position{line: 2905, col: 13, offset: 91749},
 																																					alternatives: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2901, col: 13, offset: 91641},
+																																							pos:        position{line: 2905, col: 13, offset: 91749},
 																																							val:        "\n",
 																																							ignoreCase: false,
 																																							want:       "\"\\n\"",
 																																						},
 																																						&litMatcher{
-																																							pos:        position{line: 2901, col: 20, offset: 91648},
+																																							pos:        position{line: 2905, col: 20, offset: 91756},
 																																							val:        "\r\n",
 																																							ignoreCase: false,
 																																							want:       "\"\\r\\n\"",
 																																						},
 																																						&litMatcher{
-																																							pos:        position{line: 2901, col: 29, offset: 91657},
+																																							pos:        position{line: 2905, col: 29, offset: 91765},
 																																							val:        "\r",
 																																							ignoreCase: false,
 																																							want:       "\"\\r\"",
@@ -36812,9 +36834,9 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2911, col: 8, offset: 91817},
+																																				pos: position{line: 2915, col: 8, offset: 91925},
 																																				expr: &anyMatcher{
-																																					line: 2911, col: 9, offset: 91818,
+																																					line: 2915, col: 9, offset: 91926,
 																																				},
 																																			},
 																																		},
@@ -36823,40 +36845,40 @@ var g = &grammar{
 																															},
 																														},
 																														&actionExpr{
-																															pos: position{line: 2668, col: 24, offset: 84911},
+																															pos: position{line: 2672, col: 24, offset: 85019},
 																															run: (*parser).callonListContinuationElement1497,
 																															expr: &labeledExpr{
-																																pos:   position{line: 2668, col: 24, offset: 84911},
+																																pos:   position{line: 2672, col: 24, offset: 85019},
 																																label: "cells",
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 2668, col: 30, offset: 84917},
+																																	pos: position{line: 2672, col: 30, offset: 85025},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2673, col: 5, offset: 84993},
+																																		pos: position{line: 2677, col: 5, offset: 85101},
 																																		run: (*parser).callonListContinuationElement1500,
 																																		expr: &seqExpr{
-																																			pos: position{line: 2673, col: 5, offset: 84993},
+																																			pos: position{line: 2677, col: 5, offset: 85101},
 																																			exprs: []interface{}{
 																																				&notExpr{
-																																					pos: position{line: 2673, col: 5, offset: 84993},
+																																					pos: position{line: 2677, col: 5, offset: 85101},
 																																					expr: &choiceExpr{
-																																						pos: position{line: 2638, col: 22, offset: 84190},
+																																						pos: position{line: 2642, col: 22, offset: 84298},
 																																						alternatives: []interface{}{
 																																							&seqExpr{
-																																								pos: position{line: 2634, col: 19, offset: 84110},
+																																								pos: position{line: 2638, col: 19, offset: 84218},
 																																								exprs: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2634, col: 19, offset: 84110},
+																																										pos:        position{line: 2638, col: 19, offset: 84218},
 																																										val:        "|===",
 																																										ignoreCase: false,
 																																										want:       "\"|===\"",
 																																									},
 																																									&zeroOrMoreExpr{
-																																										pos: position{line: 2634, col: 26, offset: 84117},
+																																										pos: position{line: 2638, col: 26, offset: 84225},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2892, col: 10, offset: 91469},
+																																											pos: position{line: 2896, col: 10, offset: 91577},
 																																											run: (*parser).callonListContinuationElement1507,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2892, col: 10, offset: 91469},
+																																												pos:        position{line: 2896, col: 10, offset: 91577},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36865,28 +36887,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2914, col: 8, offset: 91867},
+																																										pos: position{line: 2918, col: 8, offset: 91975},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2901, col: 12, offset: 91640},
+																																												pos: position{line: 2905, col: 12, offset: 91748},
 																																												run: (*parser).callonListContinuationElement1510,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2901, col: 13, offset: 91641},
+																																													pos: position{line: 2905, col: 13, offset: 91749},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2901, col: 13, offset: 91641},
+																																															pos:        position{line: 2905, col: 13, offset: 91749},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2901, col: 20, offset: 91648},
+																																															pos:        position{line: 2905, col: 20, offset: 91756},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2901, col: 29, offset: 91657},
+																																															pos:        position{line: 2905, col: 29, offset: 91765},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36895,9 +36917,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2911, col: 8, offset: 91817},
+																																												pos: position{line: 2915, col: 8, offset: 91925},
 																																												expr: &anyMatcher{
-																																													line: 2911, col: 9, offset: 91818,
+																																													line: 2915, col: 9, offset: 91926,
 																																												},
 																																											},
 																																										},
@@ -36905,16 +36927,16 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2911, col: 8, offset: 91817},
+																																								pos: position{line: 2915, col: 8, offset: 91925},
 																																								expr: &anyMatcher{
-																																									line: 2911, col: 9, offset: 91818,
+																																									line: 2915, col: 9, offset: 91926,
 																																								},
 																																							},
 																																						},
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2674, col: 5, offset: 85016},
+																																					pos: position{line: 2678, col: 5, offset: 85124},
 																																					expr: &actionExpr{
 																																						pos: position{line: 687, col: 14, offset: 21835},
 																																						run: (*parser).callonListContinuationElement1520,
@@ -36922,18 +36944,18 @@ var g = &grammar{
 																																							pos: position{line: 687, col: 14, offset: 21835},
 																																							exprs: []interface{}{
 																																								&andExpr{
-																																									pos: position{line: 2909, col: 11, offset: 91803},
+																																									pos: position{line: 2913, col: 11, offset: 91911},
 																																									expr: &anyMatcher{
-																																										line: 2909, col: 13, offset: 91805,
+																																										line: 2913, col: 13, offset: 91913,
 																																									},
 																																								},
 																																								&zeroOrMoreExpr{
 																																									pos: position{line: 687, col: 21, offset: 21842},
 																																									expr: &actionExpr{
-																																										pos: position{line: 2892, col: 10, offset: 91469},
+																																										pos: position{line: 2896, col: 10, offset: 91577},
 																																										run: (*parser).callonListContinuationElement1525,
 																																										expr: &charClassMatcher{
-																																											pos:        position{line: 2892, col: 10, offset: 91469},
+																																											pos:        position{line: 2896, col: 10, offset: 91577},
 																																											val:        "[\\t ]",
 																																											chars:      []rune{'\t', ' '},
 																																											ignoreCase: false,
@@ -36942,28 +36964,28 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&choiceExpr{
-																																									pos: position{line: 2914, col: 8, offset: 91867},
+																																									pos: position{line: 2918, col: 8, offset: 91975},
 																																									alternatives: []interface{}{
 																																										&actionExpr{
-																																											pos: position{line: 2901, col: 12, offset: 91640},
+																																											pos: position{line: 2905, col: 12, offset: 91748},
 																																											run: (*parser).callonListContinuationElement1528,
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2901, col: 13, offset: 91641},
+																																												pos: position{line: 2905, col: 13, offset: 91749},
 																																												alternatives: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2901, col: 13, offset: 91641},
+																																														pos:        position{line: 2905, col: 13, offset: 91749},
 																																														val:        "\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2901, col: 20, offset: 91648},
+																																														pos:        position{line: 2905, col: 20, offset: 91756},
 																																														val:        "\r\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2901, col: 29, offset: 91657},
+																																														pos:        position{line: 2905, col: 29, offset: 91765},
 																																														val:        "\r",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\"",
@@ -36972,9 +36994,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2911, col: 8, offset: 91817},
+																																											pos: position{line: 2915, col: 8, offset: 91925},
 																																											expr: &anyMatcher{
-																																												line: 2911, col: 9, offset: 91818,
+																																												line: 2915, col: 9, offset: 91926,
 																																											},
 																																										},
 																																									},
@@ -36984,17 +37006,17 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 2675, col: 5, offset: 85031},
+																																					pos:   position{line: 2679, col: 5, offset: 85139},
 																																					label: "format",
 																																					expr: &zeroOrOneExpr{
-																																						pos: position{line: 2675, col: 12, offset: 85038},
+																																						pos: position{line: 2679, col: 12, offset: 85146},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2692, col: 20, offset: 85544},
+																																							pos: position{line: 2696, col: 20, offset: 85652},
 																																							run: (*parser).callonListContinuationElement1537,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2692, col: 20, offset: 85544},
+																																								pos: position{line: 2696, col: 20, offset: 85652},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2692, col: 20, offset: 85544},
+																																									pos:        position{line: 2696, col: 20, offset: 85652},
 																																									val:        "[^ |\\r\\n]",
 																																									chars:      []rune{' ', '|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -37005,18 +37027,18 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2675, col: 31, offset: 85057},
+																																					pos:        position{line: 2679, col: 31, offset: 85165},
 																																					val:        "|",
 																																					ignoreCase: false,
 																																					want:       "\"|\"",
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 2675, col: 35, offset: 85061},
+																																					pos: position{line: 2679, col: 35, offset: 85169},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2892, col: 10, offset: 91469},
+																																						pos: position{line: 2896, col: 10, offset: 91577},
 																																						run: (*parser).callonListContinuationElement1542,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2892, col: 10, offset: 91469},
+																																							pos:        position{line: 2896, col: 10, offset: 91577},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -37025,30 +37047,30 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&zeroOrOneExpr{
-																																					pos: position{line: 2675, col: 42, offset: 85068},
+																																					pos: position{line: 2679, col: 42, offset: 85176},
 																																					expr: &seqExpr{
-																																						pos: position{line: 2675, col: 43, offset: 85069},
+																																						pos: position{line: 2679, col: 43, offset: 85177},
 																																						exprs: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2901, col: 12, offset: 91640},
+																																								pos: position{line: 2905, col: 12, offset: 91748},
 																																								run: (*parser).callonListContinuationElement1546,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2901, col: 13, offset: 91641},
+																																									pos: position{line: 2905, col: 13, offset: 91749},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2901, col: 13, offset: 91641},
+																																											pos:        position{line: 2905, col: 13, offset: 91749},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2901, col: 20, offset: 91648},
+																																											pos:        position{line: 2905, col: 20, offset: 91756},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2901, col: 29, offset: 91657},
+																																											pos:        position{line: 2905, col: 29, offset: 91765},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -37057,38 +37079,38 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&zeroOrMoreExpr{
-																																								pos: position{line: 2675, col: 51, offset: 85077},
+																																								pos: position{line: 2679, col: 51, offset: 85185},
 																																								expr: &actionExpr{
-																																									pos: position{line: 2493, col: 22, offset: 80229},
+																																									pos: position{line: 2497, col: 22, offset: 80337},
 																																									run: (*parser).callonListContinuationElement1552,
 																																									expr: &seqExpr{
-																																										pos: position{line: 2493, col: 22, offset: 80229},
+																																										pos: position{line: 2497, col: 22, offset: 80337},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2498, col: 31, offset: 80450},
+																																												pos:        position{line: 2502, col: 31, offset: 80558},
 																																												val:        "//",
 																																												ignoreCase: false,
 																																												want:       "\"//\"",
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2498, col: 36, offset: 80455},
+																																												pos: position{line: 2502, col: 36, offset: 80563},
 																																												expr: &litMatcher{
-																																													pos:        position{line: 2498, col: 37, offset: 80456},
+																																													pos:        position{line: 2502, col: 37, offset: 80564},
 																																													val:        "//",
 																																													ignoreCase: false,
 																																													want:       "\"//\"",
 																																												},
 																																											},
 																																											&labeledExpr{
-																																												pos:   position{line: 2493, col: 49, offset: 80256},
+																																												pos:   position{line: 2497, col: 49, offset: 80364},
 																																												label: "content",
 																																												expr: &actionExpr{
-																																													pos: position{line: 2838, col: 13, offset: 89995},
+																																													pos: position{line: 2842, col: 13, offset: 90103},
 																																													run: (*parser).callonListContinuationElement1558,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2838, col: 13, offset: 89995},
+																																														pos: position{line: 2842, col: 13, offset: 90103},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2838, col: 13, offset: 89995},
+																																															pos:        position{line: 2842, col: 13, offset: 90103},
 																																															val:        "[^\\r\\n]",
 																																															chars:      []rune{'\r', '\n'},
 																																															ignoreCase: false,
@@ -37098,28 +37120,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2914, col: 8, offset: 91867},
+																																												pos: position{line: 2918, col: 8, offset: 91975},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2901, col: 12, offset: 91640},
+																																														pos: position{line: 2905, col: 12, offset: 91748},
 																																														run: (*parser).callonListContinuationElement1562,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2901, col: 13, offset: 91641},
+																																															pos: position{line: 2905, col: 13, offset: 91749},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2901, col: 13, offset: 91641},
+																																																	pos:        position{line: 2905, col: 13, offset: 91749},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2901, col: 20, offset: 91648},
+																																																	pos:        position{line: 2905, col: 20, offset: 91756},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2901, col: 29, offset: 91657},
+																																																	pos:        position{line: 2905, col: 29, offset: 91765},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -37128,9 +37150,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2911, col: 8, offset: 91817},
+																																														pos: position{line: 2915, col: 8, offset: 91925},
 																																														expr: &anyMatcher{
-																																															line: 2911, col: 9, offset: 91818,
+																																															line: 2915, col: 9, offset: 91926,
 																																														},
 																																													},
 																																												},
@@ -37143,37 +37165,37 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 2675, col: 72, offset: 85098},
+																																					pos:   position{line: 2679, col: 72, offset: 85206},
 																																					label: "content",
 																																					expr: &zeroOrMoreExpr{
-																																						pos: position{line: 2681, col: 5, offset: 85257},
+																																						pos: position{line: 2685, col: 5, offset: 85365},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2682, col: 9, offset: 85267},
+																																							pos: position{line: 2686, col: 9, offset: 85375},
 																																							run: (*parser).callonListContinuationElement1571,
 																																							expr: &seqExpr{
-																																								pos: position{line: 2682, col: 9, offset: 85267},
+																																								pos: position{line: 2686, col: 9, offset: 85375},
 																																								exprs: []interface{}{
 																																									&notExpr{
-																																										pos: position{line: 2682, col: 9, offset: 85267},
+																																										pos: position{line: 2686, col: 9, offset: 85375},
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2638, col: 22, offset: 84190},
+																																											pos: position{line: 2642, col: 22, offset: 84298},
 																																											alternatives: []interface{}{
 																																												&seqExpr{
-																																													pos: position{line: 2634, col: 19, offset: 84110},
+																																													pos: position{line: 2638, col: 19, offset: 84218},
 																																													exprs: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2634, col: 19, offset: 84110},
+																																															pos:        position{line: 2638, col: 19, offset: 84218},
 																																															val:        "|===",
 																																															ignoreCase: false,
 																																															want:       "\"|===\"",
 																																														},
 																																														&zeroOrMoreExpr{
-																																															pos: position{line: 2634, col: 26, offset: 84117},
+																																															pos: position{line: 2638, col: 26, offset: 84225},
 																																															expr: &actionExpr{
-																																																pos: position{line: 2892, col: 10, offset: 91469},
+																																																pos: position{line: 2896, col: 10, offset: 91577},
 																																																run: (*parser).callonListContinuationElement1578,
 																																																expr: &charClassMatcher{
-																																																	pos:        position{line: 2892, col: 10, offset: 91469},
+																																																	pos:        position{line: 2896, col: 10, offset: 91577},
 																																																	val:        "[\\t ]",
 																																																	chars:      []rune{'\t', ' '},
 																																																	ignoreCase: false,
@@ -37182,28 +37204,28 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&choiceExpr{
-																																															pos: position{line: 2914, col: 8, offset: 91867},
+																																															pos: position{line: 2918, col: 8, offset: 91975},
 																																															alternatives: []interface{}{
 																																																&actionExpr{
-																																																	pos: position{line: 2901, col: 12, offset: 91640},
+																																																	pos: position{line: 2905, col: 12, offset: 91748},
 																																																	run: (*parser).callonListContinuationElement1581,
 																																																	expr: &choiceExpr{
-																																																		pos: position{line: 2901, col: 13, offset: 91641},
+																																																		pos: position{line: 2905, col: 13, offset: 91749},
 																																																		alternatives: []interface{}{
 																																																			&litMatcher{
-																																																				pos:        position{line: 2901, col: 13, offset: 91641},
+																																																				pos:        position{line: 2905, col: 13, offset: 91749},
 																																																				val:        "\n",
 																																																				ignoreCase: false,
 																																																				want:       "\"\\n\"",
 																																																			},
 																																																			&litMatcher{
-																																																				pos:        position{line: 2901, col: 20, offset: 91648},
+																																																				pos:        position{line: 2905, col: 20, offset: 91756},
 																																																				val:        "\r\n",
 																																																				ignoreCase: false,
 																																																				want:       "\"\\r\\n\"",
 																																																			},
 																																																			&litMatcher{
-																																																				pos:        position{line: 2901, col: 29, offset: 91657},
+																																																				pos:        position{line: 2905, col: 29, offset: 91765},
 																																																				val:        "\r",
 																																																				ignoreCase: false,
 																																																				want:       "\"\\r\"",
@@ -37212,9 +37234,9 @@ var g = &grammar{
 																																																	},
 																																																},
 																																																&notExpr{
-																																																	pos: position{line: 2911, col: 8, offset: 91817},
+																																																	pos: position{line: 2915, col: 8, offset: 91925},
 																																																	expr: &anyMatcher{
-																																																		line: 2911, col: 9, offset: 91818,
+																																																		line: 2915, col: 9, offset: 91926,
 																																																	},
 																																																},
 																																															},
@@ -37222,16 +37244,16 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2911, col: 8, offset: 91817},
+																																													pos: position{line: 2915, col: 8, offset: 91925},
 																																													expr: &anyMatcher{
-																																														line: 2911, col: 9, offset: 91818,
+																																														line: 2915, col: 9, offset: 91926,
 																																													},
 																																												},
 																																											},
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2683, col: 9, offset: 85294},
+																																										pos: position{line: 2687, col: 9, offset: 85402},
 																																										expr: &actionExpr{
 																																											pos: position{line: 687, col: 14, offset: 21835},
 																																											run: (*parser).callonListContinuationElement1591,
@@ -37239,18 +37261,18 @@ var g = &grammar{
 																																												pos: position{line: 687, col: 14, offset: 21835},
 																																												exprs: []interface{}{
 																																													&andExpr{
-																																														pos: position{line: 2909, col: 11, offset: 91803},
+																																														pos: position{line: 2913, col: 11, offset: 91911},
 																																														expr: &anyMatcher{
-																																															line: 2909, col: 13, offset: 91805,
+																																															line: 2913, col: 13, offset: 91913,
 																																														},
 																																													},
 																																													&zeroOrMoreExpr{
 																																														pos: position{line: 687, col: 21, offset: 21842},
 																																														expr: &actionExpr{
-																																															pos: position{line: 2892, col: 10, offset: 91469},
+																																															pos: position{line: 2896, col: 10, offset: 91577},
 																																															run: (*parser).callonListContinuationElement1596,
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2892, col: 10, offset: 91469},
+																																																pos:        position{line: 2896, col: 10, offset: 91577},
 																																																val:        "[\\t ]",
 																																																chars:      []rune{'\t', ' '},
 																																																ignoreCase: false,
@@ -37259,28 +37281,28 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&choiceExpr{
-																																														pos: position{line: 2914, col: 8, offset: 91867},
+																																														pos: position{line: 2918, col: 8, offset: 91975},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2901, col: 12, offset: 91640},
+																																																pos: position{line: 2905, col: 12, offset: 91748},
 																																																run: (*parser).callonListContinuationElement1599,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2901, col: 13, offset: 91641},
+																																																	pos: position{line: 2905, col: 13, offset: 91749},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2901, col: 13, offset: 91641},
+																																																			pos:        position{line: 2905, col: 13, offset: 91749},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2901, col: 20, offset: 91648},
+																																																			pos:        position{line: 2905, col: 20, offset: 91756},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2901, col: 29, offset: 91657},
+																																																			pos:        position{line: 2905, col: 29, offset: 91765},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -37289,9 +37311,9 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2911, col: 8, offset: 91817},
+																																																pos: position{line: 2915, col: 8, offset: 91925},
 																																																expr: &anyMatcher{
-																																																	line: 2911, col: 9, offset: 91818,
+																																																	line: 2915, col: 9, offset: 91926,
 																																																},
 																																															},
 																																														},
@@ -37301,22 +37323,22 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2684, col: 9, offset: 85313},
+																																										pos: position{line: 2688, col: 9, offset: 85421},
 																																										expr: &seqExpr{
-																																											pos: position{line: 2684, col: 11, offset: 85315},
+																																											pos: position{line: 2688, col: 11, offset: 85423},
 																																											exprs: []interface{}{
 																																												&labeledExpr{
-																																													pos:   position{line: 2684, col: 11, offset: 85315},
+																																													pos:   position{line: 2688, col: 11, offset: 85423},
 																																													label: "format",
 																																													expr: &zeroOrOneExpr{
-																																														pos: position{line: 2684, col: 18, offset: 85322},
+																																														pos: position{line: 2688, col: 18, offset: 85430},
 																																														expr: &actionExpr{
-																																															pos: position{line: 2692, col: 20, offset: 85544},
+																																															pos: position{line: 2696, col: 20, offset: 85652},
 																																															run: (*parser).callonListContinuationElement1610,
 																																															expr: &zeroOrMoreExpr{
-																																																pos: position{line: 2692, col: 20, offset: 85544},
+																																																pos: position{line: 2696, col: 20, offset: 85652},
 																																																expr: &charClassMatcher{
-																																																	pos:        position{line: 2692, col: 20, offset: 85544},
+																																																	pos:        position{line: 2696, col: 20, offset: 85652},
 																																																	val:        "[^ |\\r\\n]",
 																																																	chars:      []rune{' ', '|', '\r', '\n'},
 																																																	ignoreCase: false,
@@ -37327,7 +37349,7 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2684, col: 37, offset: 85341},
+																																													pos:        position{line: 2688, col: 37, offset: 85449},
 																																													val:        "|",
 																																													ignoreCase: false,
 																																													want:       "\"|\"",
@@ -37336,15 +37358,15 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&labeledExpr{
-																																										pos:   position{line: 2685, col: 9, offset: 85354},
+																																										pos:   position{line: 2689, col: 9, offset: 85462},
 																																										label: "content",
 																																										expr: &actionExpr{
-																																											pos: position{line: 2685, col: 18, offset: 85363},
+																																											pos: position{line: 2689, col: 18, offset: 85471},
 																																											run: (*parser).callonListContinuationElement1615,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2685, col: 18, offset: 85363},
+																																												pos: position{line: 2689, col: 18, offset: 85471},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2685, col: 18, offset: 85363},
+																																													pos:        position{line: 2689, col: 18, offset: 85471},
 																																													val:        "[^|\\r\\n]",
 																																													chars:      []rune{'|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -37354,33 +37376,33 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&zeroOrOneExpr{
-																																										pos: position{line: 2687, col: 12, offset: 85425},
+																																										pos: position{line: 2691, col: 12, offset: 85533},
 																																										expr: &seqExpr{
-																																											pos: position{line: 2687, col: 13, offset: 85426},
+																																											pos: position{line: 2691, col: 13, offset: 85534},
 																																											exprs: []interface{}{
 																																												&choiceExpr{
-																																													pos: position{line: 2914, col: 8, offset: 91867},
+																																													pos: position{line: 2918, col: 8, offset: 91975},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2901, col: 12, offset: 91640},
+																																															pos: position{line: 2905, col: 12, offset: 91748},
 																																															run: (*parser).callonListContinuationElement1621,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2901, col: 13, offset: 91641},
+																																																pos: position{line: 2905, col: 13, offset: 91749},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2901, col: 13, offset: 91641},
+																																																		pos:        position{line: 2905, col: 13, offset: 91749},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2901, col: 20, offset: 91648},
+																																																		pos:        position{line: 2905, col: 20, offset: 91756},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2901, col: 29, offset: 91657},
+																																																		pos:        position{line: 2905, col: 29, offset: 91765},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -37389,46 +37411,46 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2911, col: 8, offset: 91817},
+																																															pos: position{line: 2915, col: 8, offset: 91925},
 																																															expr: &anyMatcher{
-																																																line: 2911, col: 9, offset: 91818,
+																																																line: 2915, col: 9, offset: 91926,
 																																															},
 																																														},
 																																													},
 																																												},
 																																												&zeroOrMoreExpr{
-																																													pos: position{line: 2687, col: 17, offset: 85430},
+																																													pos: position{line: 2691, col: 17, offset: 85538},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2493, col: 22, offset: 80229},
+																																														pos: position{line: 2497, col: 22, offset: 80337},
 																																														run: (*parser).callonListContinuationElement1629,
 																																														expr: &seqExpr{
-																																															pos: position{line: 2493, col: 22, offset: 80229},
+																																															pos: position{line: 2497, col: 22, offset: 80337},
 																																															exprs: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2498, col: 31, offset: 80450},
+																																																	pos:        position{line: 2502, col: 31, offset: 80558},
 																																																	val:        "//",
 																																																	ignoreCase: false,
 																																																	want:       "\"//\"",
 																																																},
 																																																&notExpr{
-																																																	pos: position{line: 2498, col: 36, offset: 80455},
+																																																	pos: position{line: 2502, col: 36, offset: 80563},
 																																																	expr: &litMatcher{
-																																																		pos:        position{line: 2498, col: 37, offset: 80456},
+																																																		pos:        position{line: 2502, col: 37, offset: 80564},
 																																																		val:        "//",
 																																																		ignoreCase: false,
 																																																		want:       "\"//\"",
 																																																	},
 																																																},
 																																																&labeledExpr{
-																																																	pos:   position{line: 2493, col: 49, offset: 80256},
+																																																	pos:   position{line: 2497, col: 49, offset: 80364},
 																																																	label: "content",
 																																																	expr: &actionExpr{
-																																																		pos: position{line: 2838, col: 13, offset: 89995},
+																																																		pos: position{line: 2842, col: 13, offset: 90103},
 																																																		run: (*parser).callonListContinuationElement1635,
 																																																		expr: &zeroOrMoreExpr{
-																																																			pos: position{line: 2838, col: 13, offset: 89995},
+																																																			pos: position{line: 2842, col: 13, offset: 90103},
 																																																			expr: &charClassMatcher{
-																																																				pos:        position{line: 2838, col: 13, offset: 89995},
+																																																				pos:        position{line: 2842, col: 13, offset: 90103},
 																																																				val:        "[^\\r\\n]",
 																																																				chars:      []rune{'\r', '\n'},
 																																																				ignoreCase: false,
@@ -37438,28 +37460,28 @@ var g = &grammar{
 																																																	},
 																																																},
 																																																&choiceExpr{
-																																																	pos: position{line: 2914, col: 8, offset: 91867},
+																																																	pos: position{line: 2918, col: 8, offset: 91975},
 																																																	alternatives: []interface{}{
 																																																		&actionExpr{
-																																																			pos: position{line: 2901, col: 12, offset: 91640},
+																																																			pos: position{line: 2905, col: 12, offset: 91748},
 																																																			run: (*parser).callonListContinuationElement1639,
 																																																			expr: &choiceExpr{
-																																																				pos: position{line: 2901, col: 13, offset: 91641},
+																																																				pos: position{line: 2905, col: 13, offset: 91749},
 																																																				alternatives: []interface{}{
 																																																					&litMatcher{
-																																																						pos:        position{line: 2901, col: 13, offset: 91641},
+																																																						pos:        position{line: 2905, col: 13, offset: 91749},
 																																																						val:        "\n",
 																																																						ignoreCase: false,
 																																																						want:       "\"\\n\"",
 																																																					},
 																																																					&litMatcher{
-																																																						pos:        position{line: 2901, col: 20, offset: 91648},
+																																																						pos:        position{line: 2905, col: 20, offset: 91756},
 																																																						val:        "\r\n",
 																																																						ignoreCase: false,
 																																																						want:       "\"\\r\\n\"",
 																																																					},
 																																																					&litMatcher{
-																																																						pos:        position{line: 2901, col: 29, offset: 91657},
+																																																						pos:        position{line: 2905, col: 29, offset: 91765},
 																																																						val:        "\r",
 																																																						ignoreCase: false,
 																																																						want:       "\"\\r\"",
@@ -37468,9 +37490,9 @@ var g = &grammar{
 																																																			},
 																																																		},
 																																																		&notExpr{
-																																																			pos: position{line: 2911, col: 8, offset: 91817},
+																																																			pos: position{line: 2915, col: 8, offset: 91925},
 																																																			expr: &anyMatcher{
-																																																				line: 2911, col: 9, offset: 91818,
+																																																				line: 2915, col: 9, offset: 91926,
 																																																			},
 																																																		},
 																																																	},
@@ -37504,18 +37526,18 @@ var g = &grammar{
 																												pos: position{line: 687, col: 14, offset: 21835},
 																												exprs: []interface{}{
 																													&andExpr{
-																														pos: position{line: 2909, col: 11, offset: 91803},
+																														pos: position{line: 2913, col: 11, offset: 91911},
 																														expr: &anyMatcher{
-																															line: 2909, col: 13, offset: 91805,
+																															line: 2913, col: 13, offset: 91913,
 																														},
 																													},
 																													&zeroOrMoreExpr{
 																														pos: position{line: 687, col: 21, offset: 21842},
 																														expr: &actionExpr{
-																															pos: position{line: 2892, col: 10, offset: 91469},
+																															pos: position{line: 2896, col: 10, offset: 91577},
 																															run: (*parser).callonListContinuationElement1651,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 2892, col: 10, offset: 91469},
+																																pos:        position{line: 2896, col: 10, offset: 91577},
 																																val:        "[\\t ]",
 																																chars:      []rune{'\t', ' '},
 																																ignoreCase: false,
@@ -37524,28 +37546,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2914, col: 8, offset: 91867},
+																														pos: position{line: 2918, col: 8, offset: 91975},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2901, col: 12, offset: 91640},
+																																pos: position{line: 2905, col: 12, offset: 91748},
 																																run: (*parser).callonListContinuationElement1654,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2901, col: 13, offset: 91641},
+																																	pos: position{line: 2905, col: 13, offset: 91749},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2901, col: 13, offset: 91641},
+																																			pos:        position{line: 2905, col: 13, offset: 91749},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2901, col: 20, offset: 91648},
+																																			pos:        position{line: 2905, col: 20, offset: 91756},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2901, col: 29, offset: 91657},
+																																			pos:        position{line: 2905, col: 29, offset: 91765},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -37554,9 +37576,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2911, col: 8, offset: 91817},
+																																pos: position{line: 2915, col: 8, offset: 91925},
 																																expr: &anyMatcher{
-																																	line: 2911, col: 9, offset: 91818,
+																																	line: 2915, col: 9, offset: 91926,
 																																},
 																															},
 																														},
@@ -37574,38 +37596,38 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2626, col: 9, offset: 83941},
+																		pos: position{line: 2630, col: 9, offset: 84049},
 																		expr: &actionExpr{
-																			pos: position{line: 2493, col: 22, offset: 80229},
+																			pos: position{line: 2497, col: 22, offset: 80337},
 																			run: (*parser).callonListContinuationElement1662,
 																			expr: &seqExpr{
-																				pos: position{line: 2493, col: 22, offset: 80229},
+																				pos: position{line: 2497, col: 22, offset: 80337},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2498, col: 31, offset: 80450},
+																						pos:        position{line: 2502, col: 31, offset: 80558},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2498, col: 36, offset: 80455},
+																						pos: position{line: 2502, col: 36, offset: 80563},
 																						expr: &litMatcher{
-																							pos:        position{line: 2498, col: 37, offset: 80456},
+																							pos:        position{line: 2502, col: 37, offset: 80564},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 2493, col: 49, offset: 80256},
+																						pos:   position{line: 2497, col: 49, offset: 80364},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2838, col: 13, offset: 89995},
+																							pos: position{line: 2842, col: 13, offset: 90103},
 																							run: (*parser).callonListContinuationElement1668,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2838, col: 13, offset: 89995},
+																								pos: position{line: 2842, col: 13, offset: 90103},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2838, col: 13, offset: 89995},
+																									pos:        position{line: 2842, col: 13, offset: 90103},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -37615,28 +37637,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2914, col: 8, offset: 91867},
+																						pos: position{line: 2918, col: 8, offset: 91975},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2901, col: 12, offset: 91640},
+																								pos: position{line: 2905, col: 12, offset: 91748},
 																								run: (*parser).callonListContinuationElement1672,
 																								expr: &choiceExpr{
-																									pos: position{line: 2901, col: 13, offset: 91641},
+																									pos: position{line: 2905, col: 13, offset: 91749},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91641},
+																											pos:        position{line: 2905, col: 13, offset: 91749},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 20, offset: 91648},
+																											pos:        position{line: 2905, col: 20, offset: 91756},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 29, offset: 91657},
+																											pos:        position{line: 2905, col: 29, offset: 91765},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -37645,9 +37667,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 8, offset: 91817},
+																								pos: position{line: 2915, col: 8, offset: 91925},
 																								expr: &anyMatcher{
-																									line: 2911, col: 9, offset: 91818,
+																									line: 2915, col: 9, offset: 91926,
 																								},
 																							},
 																						},
@@ -37662,24 +37684,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2638, col: 22, offset: 84190},
+													pos: position{line: 2642, col: 22, offset: 84298},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2634, col: 19, offset: 84110},
+															pos: position{line: 2638, col: 19, offset: 84218},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2634, col: 19, offset: 84110},
+																	pos:        position{line: 2638, col: 19, offset: 84218},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2634, col: 26, offset: 84117},
+																	pos: position{line: 2638, col: 26, offset: 84225},
 																	expr: &actionExpr{
-																		pos: position{line: 2892, col: 10, offset: 91469},
+																		pos: position{line: 2896, col: 10, offset: 91577},
 																		run: (*parser).callonListContinuationElement1683,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 10, offset: 91469},
+																			pos:        position{line: 2896, col: 10, offset: 91577},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37688,28 +37710,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonListContinuationElement1686,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37718,9 +37740,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -37728,9 +37750,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2911, col: 8, offset: 91817},
+															pos: position{line: 2915, col: 8, offset: 91925},
 															expr: &anyMatcher{
-																line: 2911, col: 9, offset: 91818,
+																line: 2915, col: 9, offset: 91926,
 															},
 														},
 													},
@@ -37739,36 +37761,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2493, col: 22, offset: 80229},
+										pos: position{line: 2497, col: 22, offset: 80337},
 										run: (*parser).callonListContinuationElement1695,
 										expr: &seqExpr{
-											pos: position{line: 2493, col: 22, offset: 80229},
+											pos: position{line: 2497, col: 22, offset: 80337},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2498, col: 31, offset: 80450},
+													pos:        position{line: 2502, col: 31, offset: 80558},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2498, col: 36, offset: 80455},
+													pos: position{line: 2502, col: 36, offset: 80563},
 													expr: &litMatcher{
-														pos:        position{line: 2498, col: 37, offset: 80456},
+														pos:        position{line: 2502, col: 37, offset: 80564},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2493, col: 49, offset: 80256},
+													pos:   position{line: 2497, col: 49, offset: 80364},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2838, col: 13, offset: 89995},
+														pos: position{line: 2842, col: 13, offset: 90103},
 														run: (*parser).callonListContinuationElement1701,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2838, col: 13, offset: 89995},
+															pos: position{line: 2842, col: 13, offset: 90103},
 															expr: &charClassMatcher{
-																pos:        position{line: 2838, col: 13, offset: 89995},
+																pos:        position{line: 2842, col: 13, offset: 90103},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37778,28 +37800,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2914, col: 8, offset: 91867},
+													pos: position{line: 2918, col: 8, offset: 91975},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2901, col: 12, offset: 91640},
+															pos: position{line: 2905, col: 12, offset: 91748},
 															run: (*parser).callonListContinuationElement1705,
 															expr: &choiceExpr{
-																pos: position{line: 2901, col: 13, offset: 91641},
+																pos: position{line: 2905, col: 13, offset: 91749},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 13, offset: 91641},
+																		pos:        position{line: 2905, col: 13, offset: 91749},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 20, offset: 91648},
+																		pos:        position{line: 2905, col: 20, offset: 91756},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 29, offset: 91657},
+																		pos:        position{line: 2905, col: 29, offset: 91765},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37808,9 +37830,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2911, col: 8, offset: 91817},
+															pos: position{line: 2915, col: 8, offset: 91925},
 															expr: &anyMatcher{
-																line: 2911, col: 9, offset: 91818,
+																line: 2915, col: 9, offset: 91926,
 															},
 														},
 													},
@@ -37819,94 +37841,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1583, col: 5, offset: 51164},
+										pos: position{line: 1587, col: 5, offset: 51272},
 										run: (*parser).callonListContinuationElement1712,
 										expr: &seqExpr{
-											pos: position{line: 1583, col: 5, offset: 51164},
+											pos: position{line: 1587, col: 5, offset: 51272},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1583, col: 5, offset: 51164},
+													pos:   position{line: 1587, col: 5, offset: 51272},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1583, col: 11, offset: 51170},
+														pos: position{line: 1587, col: 11, offset: 51278},
 														expr: &actionExpr{
-															pos: position{line: 1748, col: 5, offset: 56519},
+															pos: position{line: 1752, col: 5, offset: 56627},
 															run: (*parser).callonListContinuationElement1716,
 															expr: &seqExpr{
-																pos: position{line: 1748, col: 5, offset: 56519},
+																pos: position{line: 1752, col: 5, offset: 56627},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1748, col: 5, offset: 56519},
+																		pos: position{line: 1752, col: 5, offset: 56627},
 																		run: (*parser).callonListContinuationElement1718,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1751, col: 5, offset: 56582},
+																		pos:   position{line: 1755, col: 5, offset: 56690},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1751, col: 12, offset: 56589},
+																			pos: position{line: 1755, col: 12, offset: 56697},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1751, col: 12, offset: 56589},
+																					pos: position{line: 1755, col: 12, offset: 56697},
 																					run: (*parser).callonListContinuationElement1721,
 																					expr: &litMatcher{
-																						pos:        position{line: 1751, col: 12, offset: 56589},
+																						pos:        position{line: 1755, col: 12, offset: 56697},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1753, col: 13, offset: 56645},
+																					pos: position{line: 1757, col: 13, offset: 56753},
 																					run: (*parser).callonListContinuationElement1723,
 																					expr: &litMatcher{
-																						pos:        position{line: 1753, col: 13, offset: 56645},
+																						pos:        position{line: 1757, col: 13, offset: 56753},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1755, col: 13, offset: 56703},
+																					pos: position{line: 1759, col: 13, offset: 56811},
 																					run: (*parser).callonListContinuationElement1725,
 																					expr: &litMatcher{
-																						pos:        position{line: 1755, col: 13, offset: 56703},
+																						pos:        position{line: 1759, col: 13, offset: 56811},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1757, col: 13, offset: 56771},
+																					pos: position{line: 1761, col: 13, offset: 56879},
 																					run: (*parser).callonListContinuationElement1727,
 																					expr: &litMatcher{
-																						pos:        position{line: 1757, col: 13, offset: 56771},
+																						pos:        position{line: 1761, col: 13, offset: 56879},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1759, col: 13, offset: 56835},
+																					pos: position{line: 1763, col: 13, offset: 56943},
 																					run: (*parser).callonListContinuationElement1729,
 																					expr: &litMatcher{
-																						pos:        position{line: 1759, col: 13, offset: 56835},
+																						pos:        position{line: 1763, col: 13, offset: 56943},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1761, col: 13, offset: 56899},
+																					pos: position{line: 1765, col: 13, offset: 57007},
 																					run: (*parser).callonListContinuationElement1731,
 																					expr: &andExpr{
-																						pos: position{line: 1761, col: 13, offset: 56899},
+																						pos: position{line: 1765, col: 13, offset: 57007},
 																						expr: &actionExpr{
-																							pos: position{line: 2896, col: 11, offset: 91530},
+																							pos: position{line: 2900, col: 11, offset: 91638},
 																							run: (*parser).callonListContinuationElement1733,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2896, col: 11, offset: 91530},
+																								pos: position{line: 2900, col: 11, offset: 91638},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 11, offset: 91530},
+																									pos:        position{line: 2900, col: 11, offset: 91638},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37925,16 +37947,16 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1584, col: 5, offset: 51193},
+													pos:   position{line: 1588, col: 5, offset: 51301},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1527, col: 5, offset: 49543},
+														pos: position{line: 1531, col: 5, offset: 49651},
 														run: (*parser).callonListContinuationElement1737,
 														expr: &seqExpr{
-															pos: position{line: 1527, col: 5, offset: 49543},
+															pos: position{line: 1531, col: 5, offset: 49651},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1527, col: 5, offset: 49543},
+																	pos: position{line: 1531, col: 5, offset: 49651},
 																	expr: &actionExpr{
 																		pos: position{line: 687, col: 14, offset: 21835},
 																		run: (*parser).callonListContinuationElement1740,
@@ -37942,18 +37964,18 @@ var g = &grammar{
 																			pos: position{line: 687, col: 14, offset: 21835},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2909, col: 11, offset: 91803},
+																					pos: position{line: 2913, col: 11, offset: 91911},
 																					expr: &anyMatcher{
-																						line: 2909, col: 13, offset: 91805,
+																						line: 2913, col: 13, offset: 91913,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 687, col: 21, offset: 21842},
 																					expr: &actionExpr{
-																						pos: position{line: 2892, col: 10, offset: 91469},
+																						pos: position{line: 2896, col: 10, offset: 91577},
 																						run: (*parser).callonListContinuationElement1745,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2892, col: 10, offset: 91469},
+																							pos:        position{line: 2896, col: 10, offset: 91577},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37962,28 +37984,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2914, col: 8, offset: 91867},
+																					pos: position{line: 2918, col: 8, offset: 91975},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2901, col: 12, offset: 91640},
+																							pos: position{line: 2905, col: 12, offset: 91748},
 																							run: (*parser).callonListContinuationElement1748,
 																							expr: &choiceExpr{
-																								pos: position{line: 2901, col: 13, offset: 91641},
+																								pos: position{line: 2905, col: 13, offset: 91749},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 13, offset: 91641},
+																										pos:        position{line: 2905, col: 13, offset: 91749},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 20, offset: 91648},
+																										pos:        position{line: 2905, col: 20, offset: 91756},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 29, offset: 91657},
+																										pos:        position{line: 2905, col: 29, offset: 91765},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -37992,9 +38014,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2911, col: 8, offset: 91817},
+																							pos: position{line: 2915, col: 8, offset: 91925},
 																							expr: &anyMatcher{
-																								line: 2911, col: 9, offset: 91818,
+																								line: 2915, col: 9, offset: 91926,
 																							},
 																						},
 																					},
@@ -38004,23 +38026,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1528, col: 5, offset: 49558},
+																	pos: position{line: 1532, col: 5, offset: 49666},
 																	expr: &seqExpr{
-																		pos: position{line: 1558, col: 27, offset: 50384},
+																		pos: position{line: 1562, col: 27, offset: 50492},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1558, col: 27, offset: 50384},
+																				pos:        position{line: 1562, col: 27, offset: 50492},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1558, col: 31, offset: 50388},
+																				pos: position{line: 1562, col: 31, offset: 50496},
 																				expr: &actionExpr{
-																					pos: position{line: 2892, col: 10, offset: 91469},
+																					pos: position{line: 2896, col: 10, offset: 91577},
 																					run: (*parser).callonListContinuationElement1759,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2892, col: 10, offset: 91469},
+																						pos:        position{line: 2896, col: 10, offset: 91577},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -38029,25 +38051,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91640},
+																				pos: position{line: 2905, col: 12, offset: 91748},
 																				run: (*parser).callonListContinuationElement1761,
 																				expr: &choiceExpr{
-																					pos: position{line: 2901, col: 13, offset: 91641},
+																					pos: position{line: 2905, col: 13, offset: 91749},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 13, offset: 91641},
+																							pos:        position{line: 2905, col: 13, offset: 91749},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 20, offset: 91648},
+																							pos:        position{line: 2905, col: 20, offset: 91756},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 29, offset: 91657},
+																							pos:        position{line: 2905, col: 29, offset: 91765},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -38059,20 +38081,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1529, col: 5, offset: 49586},
+																	pos: position{line: 1533, col: 5, offset: 49694},
 																	expr: &actionExpr{
-																		pos: position{line: 1599, col: 5, offset: 51603},
+																		pos: position{line: 1603, col: 5, offset: 51711},
 																		run: (*parser).callonListContinuationElement1767,
 																		expr: &seqExpr{
-																			pos: position{line: 1599, col: 5, offset: 51603},
+																			pos: position{line: 1603, col: 5, offset: 51711},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1599, col: 5, offset: 51603},
+																					pos: position{line: 1603, col: 5, offset: 51711},
 																					expr: &actionExpr{
-																						pos: position{line: 2892, col: 10, offset: 91469},
+																						pos: position{line: 2896, col: 10, offset: 91577},
 																						run: (*parser).callonListContinuationElement1770,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2892, col: 10, offset: 91469},
+																							pos:        position{line: 2896, col: 10, offset: 91577},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38081,27 +38103,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1599, col: 12, offset: 51610},
+																					pos:   position{line: 1603, col: 12, offset: 51718},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1601, col: 9, offset: 51673},
+																						pos: position{line: 1605, col: 9, offset: 51781},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1601, col: 9, offset: 51673},
+																								pos: position{line: 1605, col: 9, offset: 51781},
 																								run: (*parser).callonListContinuationElement1774,
 																								expr: &seqExpr{
-																									pos: position{line: 1601, col: 9, offset: 51673},
+																									pos: position{line: 1605, col: 9, offset: 51781},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1601, col: 9, offset: 51673},
+																											pos:   position{line: 1605, col: 9, offset: 51781},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1601, col: 16, offset: 51680},
+																												pos: position{line: 1605, col: 16, offset: 51788},
 																												run: (*parser).callonListContinuationElement1777,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1601, col: 16, offset: 51680},
+																													pos: position{line: 1605, col: 16, offset: 51788},
 																													expr: &litMatcher{
-																														pos:        position{line: 1601, col: 17, offset: 51681},
+																														pos:        position{line: 1605, col: 17, offset: 51789},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -38110,22 +38132,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1605, col: 9, offset: 51781},
+																											pos: position{line: 1609, col: 9, offset: 51889},
 																											run: (*parser).callonListContinuationElement1780,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1624, col: 11, offset: 52498},
+																								pos: position{line: 1628, col: 11, offset: 52606},
 																								run: (*parser).callonListContinuationElement1781,
 																								expr: &seqExpr{
-																									pos: position{line: 1624, col: 11, offset: 52498},
+																									pos: position{line: 1628, col: 11, offset: 52606},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1624, col: 11, offset: 52498},
+																											pos: position{line: 1628, col: 11, offset: 52606},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1624, col: 12, offset: 52499},
+																												pos:        position{line: 1628, col: 12, offset: 52607},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -38133,7 +38155,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1624, col: 20, offset: 52507},
+																											pos:        position{line: 1628, col: 20, offset: 52615},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38142,20 +38164,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1626, col: 13, offset: 52624},
+																								pos: position{line: 1630, col: 13, offset: 52732},
 																								run: (*parser).callonListContinuationElement1786,
 																								expr: &seqExpr{
-																									pos: position{line: 1626, col: 13, offset: 52624},
+																									pos: position{line: 1630, col: 13, offset: 52732},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1626, col: 14, offset: 52625},
+																											pos:        position{line: 1630, col: 14, offset: 52733},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1626, col: 21, offset: 52632},
+																											pos:        position{line: 1630, col: 21, offset: 52740},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38164,20 +38186,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1628, col: 13, offset: 52752},
+																								pos: position{line: 1632, col: 13, offset: 52860},
 																								run: (*parser).callonListContinuationElement1790,
 																								expr: &seqExpr{
-																									pos: position{line: 1628, col: 13, offset: 52752},
+																									pos: position{line: 1632, col: 13, offset: 52860},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1628, col: 14, offset: 52753},
+																											pos:        position{line: 1632, col: 14, offset: 52861},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1628, col: 21, offset: 52760},
+																											pos:        position{line: 1632, col: 21, offset: 52868},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38186,15 +38208,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1630, col: 13, offset: 52880},
+																								pos: position{line: 1634, col: 13, offset: 52988},
 																								run: (*parser).callonListContinuationElement1794,
 																								expr: &seqExpr{
-																									pos: position{line: 1630, col: 13, offset: 52880},
+																									pos: position{line: 1634, col: 13, offset: 52988},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1630, col: 13, offset: 52880},
+																											pos: position{line: 1634, col: 13, offset: 52988},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1630, col: 14, offset: 52881},
+																												pos:        position{line: 1634, col: 14, offset: 52989},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -38202,7 +38224,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1630, col: 26, offset: 52893},
+																											pos:        position{line: 1634, col: 26, offset: 53001},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -38211,15 +38233,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1632, col: 13, offset: 53013},
+																								pos: position{line: 1636, col: 13, offset: 53121},
 																								run: (*parser).callonListContinuationElement1799,
 																								expr: &seqExpr{
-																									pos: position{line: 1632, col: 13, offset: 53013},
+																									pos: position{line: 1636, col: 13, offset: 53121},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1632, col: 13, offset: 53013},
+																											pos: position{line: 1636, col: 13, offset: 53121},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1632, col: 14, offset: 53014},
+																												pos:        position{line: 1636, col: 14, offset: 53122},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -38227,7 +38249,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1632, col: 26, offset: 53026},
+																											pos:        position{line: 1636, col: 26, offset: 53134},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -38239,12 +38261,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2896, col: 11, offset: 91530},
+																					pos: position{line: 2900, col: 11, offset: 91638},
 																					run: (*parser).callonListContinuationElement1804,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2896, col: 11, offset: 91530},
+																						pos: position{line: 2900, col: 11, offset: 91638},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2896, col: 11, offset: 91530},
+																							pos:        position{line: 2900, col: 11, offset: 91638},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38257,20 +38279,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1530, col: 5, offset: 49616},
+																	pos: position{line: 1534, col: 5, offset: 49724},
 																	expr: &actionExpr{
-																		pos: position{line: 1649, col: 5, offset: 53565},
+																		pos: position{line: 1653, col: 5, offset: 53673},
 																		run: (*parser).callonListContinuationElement1808,
 																		expr: &seqExpr{
-																			pos: position{line: 1649, col: 5, offset: 53565},
+																			pos: position{line: 1653, col: 5, offset: 53673},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1649, col: 5, offset: 53565},
+																					pos: position{line: 1653, col: 5, offset: 53673},
 																					expr: &actionExpr{
-																						pos: position{line: 2892, col: 10, offset: 91469},
+																						pos: position{line: 2896, col: 10, offset: 91577},
 																						run: (*parser).callonListContinuationElement1811,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2892, col: 10, offset: 91469},
+																							pos:        position{line: 2896, col: 10, offset: 91577},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38279,24 +38301,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1650, col: 5, offset: 53577},
+																					pos:   position{line: 1654, col: 5, offset: 53685},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1651, col: 9, offset: 53593},
+																						pos: position{line: 1655, col: 9, offset: 53701},
 																						run: (*parser).callonListContinuationElement1814,
 																						expr: &choiceExpr{
-																							pos: position{line: 1651, col: 10, offset: 53594},
+																							pos: position{line: 1655, col: 10, offset: 53702},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1651, col: 11, offset: 53595},
+																									pos:        position{line: 1655, col: 11, offset: 53703},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1651, col: 18, offset: 53602},
+																									pos: position{line: 1655, col: 18, offset: 53710},
 																									expr: &litMatcher{
-																										pos:        position{line: 1651, col: 19, offset: 53603},
+																										pos:        position{line: 1655, col: 19, offset: 53711},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -38307,16 +38329,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1654, col: 7, offset: 53693},
+																					pos: position{line: 1658, col: 7, offset: 53801},
 																					run: (*parser).callonListContinuationElement1819,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2896, col: 11, offset: 91530},
+																					pos: position{line: 2900, col: 11, offset: 91638},
 																					run: (*parser).callonListContinuationElement1820,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2896, col: 11, offset: 91530},
+																						pos: position{line: 2900, col: 11, offset: 91638},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2896, col: 11, offset: 91530},
+																							pos:        position{line: 2900, col: 11, offset: 91638},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38329,29 +38351,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1531, col: 5, offset: 49648},
+																	pos: position{line: 1535, col: 5, offset: 49756},
 																	expr: &actionExpr{
-																		pos: position{line: 1739, col: 5, offset: 56134},
+																		pos: position{line: 1743, col: 5, offset: 56242},
 																		run: (*parser).callonListContinuationElement1824,
 																		expr: &seqExpr{
-																			pos: position{line: 1739, col: 5, offset: 56134},
+																			pos: position{line: 1743, col: 5, offset: 56242},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1739, col: 5, offset: 56134},
+																					pos:        position{line: 1743, col: 5, offset: 56242},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1739, col: 9, offset: 56138},
+																					pos:   position{line: 1743, col: 9, offset: 56246},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1739, col: 14, offset: 56143},
+																						pos: position{line: 1743, col: 14, offset: 56251},
 																						run: (*parser).callonListContinuationElement1828,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1739, col: 14, offset: 56143},
+																							pos: position{line: 1743, col: 14, offset: 56251},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1739, col: 14, offset: 56143},
+																								pos:        position{line: 1743, col: 14, offset: 56251},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -38361,18 +38383,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1739, col: 62, offset: 56191},
+																					pos:        position{line: 1743, col: 62, offset: 56299},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2896, col: 11, offset: 91530},
+																					pos: position{line: 2900, col: 11, offset: 91638},
 																					run: (*parser).callonListContinuationElement1832,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2896, col: 11, offset: 91530},
+																						pos: position{line: 2900, col: 11, offset: 91638},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2896, col: 11, offset: 91530},
+																							pos:        position{line: 2900, col: 11, offset: 91638},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38385,31 +38407,31 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1532, col: 5, offset: 49678},
+																	pos: position{line: 1536, col: 5, offset: 49786},
 																	expr: &seqExpr{
-																		pos: position{line: 1532, col: 7, offset: 49680},
+																		pos: position{line: 1536, col: 7, offset: 49788},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1684, col: 5, offset: 54584},
+																				pos: position{line: 1688, col: 5, offset: 54692},
 																				run: (*parser).callonListContinuationElement1837,
 																				expr: &seqExpr{
-																					pos: position{line: 1684, col: 5, offset: 54584},
+																					pos: position{line: 1688, col: 5, offset: 54692},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1684, col: 5, offset: 54584},
+																							pos: position{line: 1688, col: 5, offset: 54692},
 																							expr: &seqExpr{
-																								pos: position{line: 2498, col: 31, offset: 80450},
+																								pos: position{line: 2502, col: 31, offset: 80558},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2498, col: 31, offset: 80450},
+																										pos:        position{line: 2502, col: 31, offset: 80558},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2498, col: 36, offset: 80455},
+																										pos: position{line: 2502, col: 36, offset: 80563},
 																										expr: &litMatcher{
-																											pos:        position{line: 2498, col: 37, offset: 80456},
+																											pos:        position{line: 2502, col: 37, offset: 80564},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -38419,28 +38441,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1685, col: 5, offset: 54616},
+																							pos: position{line: 1689, col: 5, offset: 54724},
 																							expr: &seqExpr{
-																								pos: position{line: 1685, col: 6, offset: 54617},
+																								pos: position{line: 1689, col: 6, offset: 54725},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1685, col: 6, offset: 54617},
+																										pos: position{line: 1689, col: 6, offset: 54725},
 																										expr: &actionExpr{
-																											pos: position{line: 1690, col: 5, offset: 54767},
+																											pos: position{line: 1694, col: 5, offset: 54875},
 																											run: (*parser).callonListContinuationElement1847,
 																											expr: &seqExpr{
-																												pos: position{line: 1690, col: 5, offset: 54767},
+																												pos: position{line: 1694, col: 5, offset: 54875},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1690, col: 5, offset: 54767},
+																														pos:   position{line: 1694, col: 5, offset: 54875},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1690, col: 16, offset: 54778},
+																															pos: position{line: 1694, col: 16, offset: 54886},
 																															run: (*parser).callonListContinuationElement1850,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1690, col: 16, offset: 54778},
+																																pos: position{line: 1694, col: 16, offset: 54886},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1690, col: 17, offset: 54779},
+																																	pos:        position{line: 1694, col: 17, offset: 54887},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -38449,7 +38471,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1693, col: 5, offset: 54836},
+																														pos: position{line: 1697, col: 5, offset: 54944},
 																														run: (*parser).callonListContinuationElement1853,
 																													},
 																												},
@@ -38457,30 +38479,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1685, col: 35, offset: 54646},
+																										pos: position{line: 1689, col: 35, offset: 54754},
 																										expr: &choiceExpr{
-																											pos: position{line: 2914, col: 8, offset: 91867},
+																											pos: position{line: 2918, col: 8, offset: 91975},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2901, col: 12, offset: 91640},
+																													pos: position{line: 2905, col: 12, offset: 91748},
 																													run: (*parser).callonListContinuationElement1856,
 																													expr: &choiceExpr{
-																														pos: position{line: 2901, col: 13, offset: 91641},
+																														pos: position{line: 2905, col: 13, offset: 91749},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 13, offset: 91641},
+																																pos:        position{line: 2905, col: 13, offset: 91749},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 20, offset: 91648},
+																																pos:        position{line: 2905, col: 20, offset: 91756},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 29, offset: 91657},
+																																pos:        position{line: 2905, col: 29, offset: 91765},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38489,16 +38511,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2911, col: 8, offset: 91817},
+																													pos: position{line: 2915, col: 8, offset: 91925},
 																													expr: &anyMatcher{
-																														line: 2911, col: 9, offset: 91818,
+																														line: 2915, col: 9, offset: 91926,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1685, col: 40, offset: 54651,
+																										line: 1689, col: 40, offset: 54759,
 																									},
 																								},
 																							},
@@ -38507,21 +38529,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1690, col: 5, offset: 54767},
+																				pos: position{line: 1694, col: 5, offset: 54875},
 																				run: (*parser).callonListContinuationElement1864,
 																				expr: &seqExpr{
-																					pos: position{line: 1690, col: 5, offset: 54767},
+																					pos: position{line: 1694, col: 5, offset: 54875},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1690, col: 5, offset: 54767},
+																							pos:   position{line: 1694, col: 5, offset: 54875},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1690, col: 16, offset: 54778},
+																								pos: position{line: 1694, col: 16, offset: 54886},
 																								run: (*parser).callonListContinuationElement1867,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1690, col: 16, offset: 54778},
+																									pos: position{line: 1694, col: 16, offset: 54886},
 																									expr: &litMatcher{
-																										pos:        position{line: 1690, col: 17, offset: 54779},
+																										pos:        position{line: 1694, col: 17, offset: 54887},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -38530,7 +38552,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1693, col: 5, offset: 54836},
+																							pos: position{line: 1697, col: 5, offset: 54944},
 																							run: (*parser).callonListContinuationElement1870,
 																						},
 																					},
@@ -38540,17 +38562,17 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1533, col: 5, offset: 49736},
+																	pos: position{line: 1537, col: 5, offset: 49844},
 																	expr: &actionExpr{
-																		pos: position{line: 734, col: 5, offset: 23388},
+																		pos: position{line: 738, col: 5, offset: 23496},
 																		run: (*parser).callonListContinuationElement1872,
 																		expr: &seqExpr{
-																			pos: position{line: 734, col: 5, offset: 23388},
+																			pos: position{line: 738, col: 5, offset: 23496},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 734, col: 5, offset: 23388},
+																					pos: position{line: 738, col: 5, offset: 23496},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2782, col: 13, offset: 88564},
+																						pos:        position{line: 2786, col: 13, offset: 88672},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -38558,36 +38580,36 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 735, col: 5, offset: 23418},
+																					pos:   position{line: 739, col: 5, offset: 23526},
 																					label: "delimiter",
 																					expr: &choiceExpr{
-																						pos: position{line: 736, col: 9, offset: 23438},
+																						pos: position{line: 740, col: 9, offset: 23546},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 750, col: 5, offset: 23930},
+																								pos: position{line: 754, col: 5, offset: 24038},
 																								run: (*parser).callonListContinuationElement1878,
 																								expr: &seqExpr{
-																									pos: position{line: 750, col: 5, offset: 23930},
+																									pos: position{line: 754, col: 5, offset: 24038},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 750, col: 5, offset: 23930},
+																											pos:   position{line: 754, col: 5, offset: 24038},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 750, col: 16, offset: 23941},
+																												pos: position{line: 754, col: 16, offset: 24049},
 																												run: (*parser).callonListContinuationElement1881,
 																												expr: &seqExpr{
-																													pos: position{line: 750, col: 16, offset: 23941},
+																													pos: position{line: 754, col: 16, offset: 24049},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 750, col: 16, offset: 23941},
+																															pos:        position{line: 754, col: 16, offset: 24049},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 750, col: 23, offset: 23948},
+																															pos: position{line: 754, col: 23, offset: 24056},
 																															expr: &litMatcher{
-																																pos:        position{line: 750, col: 23, offset: 23948},
+																																pos:        position{line: 754, col: 23, offset: 24056},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -38598,12 +38620,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 752, col: 8, offset: 24032},
+																											pos: position{line: 756, col: 8, offset: 24140},
 																											expr: &actionExpr{
-																												pos: position{line: 2892, col: 10, offset: 91469},
+																												pos: position{line: 2896, col: 10, offset: 91577},
 																												run: (*parser).callonListContinuationElement1887,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2892, col: 10, offset: 91469},
+																													pos:        position{line: 2896, col: 10, offset: 91577},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38612,28 +38634,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2914, col: 8, offset: 91867},
+																											pos: position{line: 2918, col: 8, offset: 91975},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2901, col: 12, offset: 91640},
+																													pos: position{line: 2905, col: 12, offset: 91748},
 																													run: (*parser).callonListContinuationElement1890,
 																													expr: &choiceExpr{
-																														pos: position{line: 2901, col: 13, offset: 91641},
+																														pos: position{line: 2905, col: 13, offset: 91749},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 13, offset: 91641},
+																																pos:        position{line: 2905, col: 13, offset: 91749},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 20, offset: 91648},
+																																pos:        position{line: 2905, col: 20, offset: 91756},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 29, offset: 91657},
+																																pos:        position{line: 2905, col: 29, offset: 91765},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38642,9 +38664,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2911, col: 8, offset: 91817},
+																													pos: position{line: 2915, col: 8, offset: 91925},
 																													expr: &anyMatcher{
-																														line: 2911, col: 9, offset: 91818,
+																														line: 2915, col: 9, offset: 91926,
 																													},
 																												},
 																											},
@@ -38653,30 +38675,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 757, col: 5, offset: 24178},
+																								pos: position{line: 761, col: 5, offset: 24286},
 																								run: (*parser).callonListContinuationElement1897,
 																								expr: &seqExpr{
-																									pos: position{line: 757, col: 5, offset: 24178},
+																									pos: position{line: 761, col: 5, offset: 24286},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 757, col: 5, offset: 24178},
+																											pos:   position{line: 761, col: 5, offset: 24286},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 757, col: 16, offset: 24189},
+																												pos: position{line: 761, col: 16, offset: 24297},
 																												run: (*parser).callonListContinuationElement1900,
 																												expr: &seqExpr{
-																													pos: position{line: 757, col: 16, offset: 24189},
+																													pos: position{line: 761, col: 16, offset: 24297},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 757, col: 16, offset: 24189},
+																															pos:        position{line: 761, col: 16, offset: 24297},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 757, col: 23, offset: 24196},
+																															pos: position{line: 761, col: 23, offset: 24304},
 																															expr: &litMatcher{
-																																pos:        position{line: 757, col: 23, offset: 24196},
+																																pos:        position{line: 761, col: 23, offset: 24304},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -38687,12 +38709,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 759, col: 8, offset: 24280},
+																											pos: position{line: 763, col: 8, offset: 24388},
 																											expr: &actionExpr{
-																												pos: position{line: 2892, col: 10, offset: 91469},
+																												pos: position{line: 2896, col: 10, offset: 91577},
 																												run: (*parser).callonListContinuationElement1906,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2892, col: 10, offset: 91469},
+																													pos:        position{line: 2896, col: 10, offset: 91577},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38701,28 +38723,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2914, col: 8, offset: 91867},
+																											pos: position{line: 2918, col: 8, offset: 91975},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2901, col: 12, offset: 91640},
+																													pos: position{line: 2905, col: 12, offset: 91748},
 																													run: (*parser).callonListContinuationElement1909,
 																													expr: &choiceExpr{
-																														pos: position{line: 2901, col: 13, offset: 91641},
+																														pos: position{line: 2905, col: 13, offset: 91749},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 13, offset: 91641},
+																																pos:        position{line: 2905, col: 13, offset: 91749},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 20, offset: 91648},
+																																pos:        position{line: 2905, col: 20, offset: 91756},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 29, offset: 91657},
+																																pos:        position{line: 2905, col: 29, offset: 91765},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38731,9 +38753,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2911, col: 8, offset: 91817},
+																													pos: position{line: 2915, col: 8, offset: 91925},
 																													expr: &anyMatcher{
-																														line: 2911, col: 9, offset: 91818,
+																														line: 2915, col: 9, offset: 91926,
 																													},
 																												},
 																											},
@@ -38742,27 +38764,27 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 770, col: 26, offset: 24666},
+																								pos: position{line: 774, col: 26, offset: 24774},
 																								run: (*parser).callonListContinuationElement1916,
 																								expr: &seqExpr{
-																									pos: position{line: 770, col: 26, offset: 24666},
+																									pos: position{line: 774, col: 26, offset: 24774},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 770, col: 26, offset: 24666},
+																											pos:        position{line: 774, col: 26, offset: 24774},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 770, col: 32, offset: 24672},
+																											pos:   position{line: 774, col: 32, offset: 24780},
 																											label: "language",
 																											expr: &actionExpr{
-																												pos: position{line: 774, col: 13, offset: 24802},
+																												pos: position{line: 778, col: 13, offset: 24910},
 																												run: (*parser).callonListContinuationElement1920,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 774, col: 14, offset: 24803},
+																													pos: position{line: 778, col: 14, offset: 24911},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 774, col: 14, offset: 24803},
+																														pos:        position{line: 778, col: 14, offset: 24911},
 																														val:        "[^\\r\\n` ]",
 																														chars:      []rune{'\r', '\n', '`', ' '},
 																														ignoreCase: false,
@@ -38772,12 +38794,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 770, col: 52, offset: 24692},
+																											pos: position{line: 774, col: 52, offset: 24800},
 																											expr: &actionExpr{
-																												pos: position{line: 2892, col: 10, offset: 91469},
+																												pos: position{line: 2896, col: 10, offset: 91577},
 																												run: (*parser).callonListContinuationElement1924,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2892, col: 10, offset: 91469},
+																													pos:        position{line: 2896, col: 10, offset: 91577},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38786,28 +38808,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2914, col: 8, offset: 91867},
+																											pos: position{line: 2918, col: 8, offset: 91975},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2901, col: 12, offset: 91640},
+																													pos: position{line: 2905, col: 12, offset: 91748},
 																													run: (*parser).callonListContinuationElement1927,
 																													expr: &choiceExpr{
-																														pos: position{line: 2901, col: 13, offset: 91641},
+																														pos: position{line: 2905, col: 13, offset: 91749},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 13, offset: 91641},
+																																pos:        position{line: 2905, col: 13, offset: 91749},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 20, offset: 91648},
+																																pos:        position{line: 2905, col: 20, offset: 91756},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 29, offset: 91657},
+																																pos:        position{line: 2905, col: 29, offset: 91765},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38816,9 +38838,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2911, col: 8, offset: 91817},
+																													pos: position{line: 2915, col: 8, offset: 91925},
 																													expr: &anyMatcher{
-																														line: 2911, col: 9, offset: 91818,
+																														line: 2915, col: 9, offset: 91926,
 																													},
 																												},
 																											},
@@ -38827,30 +38849,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 764, col: 5, offset: 24425},
+																								pos: position{line: 768, col: 5, offset: 24533},
 																								run: (*parser).callonListContinuationElement1934,
 																								expr: &seqExpr{
-																									pos: position{line: 764, col: 5, offset: 24425},
+																									pos: position{line: 768, col: 5, offset: 24533},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 764, col: 5, offset: 24425},
+																											pos:   position{line: 768, col: 5, offset: 24533},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 764, col: 16, offset: 24436},
+																												pos: position{line: 768, col: 16, offset: 24544},
 																												run: (*parser).callonListContinuationElement1937,
 																												expr: &seqExpr{
-																													pos: position{line: 764, col: 16, offset: 24436},
+																													pos: position{line: 768, col: 16, offset: 24544},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 764, col: 16, offset: 24436},
+																															pos:        position{line: 768, col: 16, offset: 24544},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 764, col: 22, offset: 24442},
+																															pos: position{line: 768, col: 22, offset: 24550},
 																															expr: &litMatcher{
-																																pos:        position{line: 764, col: 22, offset: 24442},
+																																pos:        position{line: 768, col: 22, offset: 24550},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -38861,12 +38883,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 766, col: 8, offset: 24526},
+																											pos: position{line: 770, col: 8, offset: 24634},
 																											expr: &actionExpr{
-																												pos: position{line: 2892, col: 10, offset: 91469},
+																												pos: position{line: 2896, col: 10, offset: 91577},
 																												run: (*parser).callonListContinuationElement1943,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2892, col: 10, offset: 91469},
+																													pos:        position{line: 2896, col: 10, offset: 91577},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38875,28 +38897,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2914, col: 8, offset: 91867},
+																											pos: position{line: 2918, col: 8, offset: 91975},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2901, col: 12, offset: 91640},
+																													pos: position{line: 2905, col: 12, offset: 91748},
 																													run: (*parser).callonListContinuationElement1946,
 																													expr: &choiceExpr{
-																														pos: position{line: 2901, col: 13, offset: 91641},
+																														pos: position{line: 2905, col: 13, offset: 91749},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 13, offset: 91641},
+																																pos:        position{line: 2905, col: 13, offset: 91749},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 20, offset: 91648},
+																																pos:        position{line: 2905, col: 20, offset: 91756},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 29, offset: 91657},
+																																pos:        position{line: 2905, col: 29, offset: 91765},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38905,9 +38927,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2911, col: 8, offset: 91817},
+																													pos: position{line: 2915, col: 8, offset: 91925},
 																													expr: &anyMatcher{
-																														line: 2911, col: 9, offset: 91818,
+																														line: 2915, col: 9, offset: 91926,
 																													},
 																												},
 																											},
@@ -38916,30 +38938,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 779, col: 5, offset: 24962},
+																								pos: position{line: 783, col: 5, offset: 25070},
 																								run: (*parser).callonListContinuationElement1953,
 																								expr: &seqExpr{
-																									pos: position{line: 779, col: 5, offset: 24962},
+																									pos: position{line: 783, col: 5, offset: 25070},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 779, col: 5, offset: 24962},
+																											pos:   position{line: 783, col: 5, offset: 25070},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 779, col: 16, offset: 24973},
+																												pos: position{line: 783, col: 16, offset: 25081},
 																												run: (*parser).callonListContinuationElement1956,
 																												expr: &seqExpr{
-																													pos: position{line: 779, col: 16, offset: 24973},
+																													pos: position{line: 783, col: 16, offset: 25081},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 779, col: 16, offset: 24973},
+																															pos:        position{line: 783, col: 16, offset: 25081},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 779, col: 23, offset: 24980},
+																															pos: position{line: 783, col: 23, offset: 25088},
 																															expr: &litMatcher{
-																																pos:        position{line: 779, col: 23, offset: 24980},
+																																pos:        position{line: 783, col: 23, offset: 25088},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -38950,12 +38972,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 781, col: 8, offset: 25064},
+																											pos: position{line: 785, col: 8, offset: 25172},
 																											expr: &actionExpr{
-																												pos: position{line: 2892, col: 10, offset: 91469},
+																												pos: position{line: 2896, col: 10, offset: 91577},
 																												run: (*parser).callonListContinuationElement1962,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2892, col: 10, offset: 91469},
+																													pos:        position{line: 2896, col: 10, offset: 91577},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38964,28 +38986,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2914, col: 8, offset: 91867},
+																											pos: position{line: 2918, col: 8, offset: 91975},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2901, col: 12, offset: 91640},
+																													pos: position{line: 2905, col: 12, offset: 91748},
 																													run: (*parser).callonListContinuationElement1965,
 																													expr: &choiceExpr{
-																														pos: position{line: 2901, col: 13, offset: 91641},
+																														pos: position{line: 2905, col: 13, offset: 91749},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 13, offset: 91641},
+																																pos:        position{line: 2905, col: 13, offset: 91749},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 20, offset: 91648},
+																																pos:        position{line: 2905, col: 20, offset: 91756},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 29, offset: 91657},
+																																pos:        position{line: 2905, col: 29, offset: 91765},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38994,9 +39016,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2911, col: 8, offset: 91817},
+																													pos: position{line: 2915, col: 8, offset: 91925},
 																													expr: &anyMatcher{
-																														line: 2911, col: 9, offset: 91818,
+																														line: 2915, col: 9, offset: 91926,
 																													},
 																												},
 																											},
@@ -39005,30 +39027,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 793, col: 5, offset: 25438},
+																								pos: position{line: 797, col: 5, offset: 25546},
 																								run: (*parser).callonListContinuationElement1972,
 																								expr: &seqExpr{
-																									pos: position{line: 793, col: 5, offset: 25438},
+																									pos: position{line: 797, col: 5, offset: 25546},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 793, col: 5, offset: 25438},
+																											pos:   position{line: 797, col: 5, offset: 25546},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 793, col: 16, offset: 25449},
+																												pos: position{line: 797, col: 16, offset: 25557},
 																												run: (*parser).callonListContinuationElement1975,
 																												expr: &seqExpr{
-																													pos: position{line: 793, col: 16, offset: 25449},
+																													pos: position{line: 797, col: 16, offset: 25557},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 793, col: 16, offset: 25449},
+																															pos:        position{line: 797, col: 16, offset: 25557},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 793, col: 23, offset: 25456},
+																															pos: position{line: 797, col: 23, offset: 25564},
 																															expr: &litMatcher{
-																																pos:        position{line: 793, col: 23, offset: 25456},
+																																pos:        position{line: 797, col: 23, offset: 25564},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -39039,12 +39061,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 795, col: 8, offset: 25540},
+																											pos: position{line: 799, col: 8, offset: 25648},
 																											expr: &actionExpr{
-																												pos: position{line: 2892, col: 10, offset: 91469},
+																												pos: position{line: 2896, col: 10, offset: 91577},
 																												run: (*parser).callonListContinuationElement1981,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2892, col: 10, offset: 91469},
+																													pos:        position{line: 2896, col: 10, offset: 91577},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39053,28 +39075,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2914, col: 8, offset: 91867},
+																											pos: position{line: 2918, col: 8, offset: 91975},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2901, col: 12, offset: 91640},
+																													pos: position{line: 2905, col: 12, offset: 91748},
 																													run: (*parser).callonListContinuationElement1984,
 																													expr: &choiceExpr{
-																														pos: position{line: 2901, col: 13, offset: 91641},
+																														pos: position{line: 2905, col: 13, offset: 91749},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 13, offset: 91641},
+																																pos:        position{line: 2905, col: 13, offset: 91749},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 20, offset: 91648},
+																																pos:        position{line: 2905, col: 20, offset: 91756},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 29, offset: 91657},
+																																pos:        position{line: 2905, col: 29, offset: 91765},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39083,9 +39105,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2911, col: 8, offset: 91817},
+																													pos: position{line: 2915, col: 8, offset: 91925},
 																													expr: &anyMatcher{
-																														line: 2911, col: 9, offset: 91818,
+																														line: 2915, col: 9, offset: 91926,
 																													},
 																												},
 																											},
@@ -39094,30 +39116,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 800, col: 5, offset: 25690},
+																								pos: position{line: 804, col: 5, offset: 25798},
 																								run: (*parser).callonListContinuationElement1991,
 																								expr: &seqExpr{
-																									pos: position{line: 800, col: 5, offset: 25690},
+																									pos: position{line: 804, col: 5, offset: 25798},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 800, col: 5, offset: 25690},
+																											pos:   position{line: 804, col: 5, offset: 25798},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 800, col: 16, offset: 25701},
+																												pos: position{line: 804, col: 16, offset: 25809},
 																												run: (*parser).callonListContinuationElement1994,
 																												expr: &seqExpr{
-																													pos: position{line: 800, col: 16, offset: 25701},
+																													pos: position{line: 804, col: 16, offset: 25809},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 800, col: 16, offset: 25701},
+																															pos:        position{line: 804, col: 16, offset: 25809},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 800, col: 23, offset: 25708},
+																															pos: position{line: 804, col: 23, offset: 25816},
 																															expr: &litMatcher{
-																																pos:        position{line: 800, col: 23, offset: 25708},
+																																pos:        position{line: 804, col: 23, offset: 25816},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -39128,12 +39150,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 802, col: 8, offset: 25792},
+																											pos: position{line: 806, col: 8, offset: 25900},
 																											expr: &actionExpr{
-																												pos: position{line: 2892, col: 10, offset: 91469},
+																												pos: position{line: 2896, col: 10, offset: 91577},
 																												run: (*parser).callonListContinuationElement2000,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2892, col: 10, offset: 91469},
+																													pos:        position{line: 2896, col: 10, offset: 91577},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39142,28 +39164,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2914, col: 8, offset: 91867},
+																											pos: position{line: 2918, col: 8, offset: 91975},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2901, col: 12, offset: 91640},
+																													pos: position{line: 2905, col: 12, offset: 91748},
 																													run: (*parser).callonListContinuationElement2003,
 																													expr: &choiceExpr{
-																														pos: position{line: 2901, col: 13, offset: 91641},
+																														pos: position{line: 2905, col: 13, offset: 91749},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 13, offset: 91641},
+																																pos:        position{line: 2905, col: 13, offset: 91749},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 20, offset: 91648},
+																																pos:        position{line: 2905, col: 20, offset: 91756},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 29, offset: 91657},
+																																pos:        position{line: 2905, col: 29, offset: 91765},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39172,9 +39194,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2911, col: 8, offset: 91817},
+																													pos: position{line: 2915, col: 8, offset: 91925},
 																													expr: &anyMatcher{
-																														line: 2911, col: 9, offset: 91818,
+																														line: 2915, col: 9, offset: 91926,
 																													},
 																												},
 																											},
@@ -39183,30 +39205,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 807, col: 5, offset: 25940},
+																								pos: position{line: 811, col: 5, offset: 26048},
 																								run: (*parser).callonListContinuationElement2010,
 																								expr: &seqExpr{
-																									pos: position{line: 807, col: 5, offset: 25940},
+																									pos: position{line: 811, col: 5, offset: 26048},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 807, col: 5, offset: 25940},
+																											pos:   position{line: 811, col: 5, offset: 26048},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 807, col: 16, offset: 25951},
+																												pos: position{line: 811, col: 16, offset: 26059},
 																												run: (*parser).callonListContinuationElement2013,
 																												expr: &seqExpr{
-																													pos: position{line: 807, col: 16, offset: 25951},
+																													pos: position{line: 811, col: 16, offset: 26059},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 807, col: 16, offset: 25951},
+																															pos:        position{line: 811, col: 16, offset: 26059},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 807, col: 23, offset: 25958},
+																															pos: position{line: 811, col: 23, offset: 26066},
 																															expr: &litMatcher{
-																																pos:        position{line: 807, col: 23, offset: 25958},
+																																pos:        position{line: 811, col: 23, offset: 26066},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -39217,12 +39239,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 809, col: 8, offset: 26042},
+																											pos: position{line: 813, col: 8, offset: 26150},
 																											expr: &actionExpr{
-																												pos: position{line: 2892, col: 10, offset: 91469},
+																												pos: position{line: 2896, col: 10, offset: 91577},
 																												run: (*parser).callonListContinuationElement2019,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2892, col: 10, offset: 91469},
+																													pos:        position{line: 2896, col: 10, offset: 91577},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39231,28 +39253,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2914, col: 8, offset: 91867},
+																											pos: position{line: 2918, col: 8, offset: 91975},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2901, col: 12, offset: 91640},
+																													pos: position{line: 2905, col: 12, offset: 91748},
 																													run: (*parser).callonListContinuationElement2022,
 																													expr: &choiceExpr{
-																														pos: position{line: 2901, col: 13, offset: 91641},
+																														pos: position{line: 2905, col: 13, offset: 91749},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 13, offset: 91641},
+																																pos:        position{line: 2905, col: 13, offset: 91749},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 20, offset: 91648},
+																																pos:        position{line: 2905, col: 20, offset: 91756},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 29, offset: 91657},
+																																pos:        position{line: 2905, col: 29, offset: 91765},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39261,9 +39283,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2911, col: 8, offset: 91817},
+																													pos: position{line: 2915, col: 8, offset: 91925},
 																													expr: &anyMatcher{
-																														line: 2911, col: 9, offset: 91818,
+																														line: 2915, col: 9, offset: 91926,
 																													},
 																												},
 																											},
@@ -39272,30 +39294,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 814, col: 5, offset: 26186},
+																								pos: position{line: 818, col: 5, offset: 26294},
 																								run: (*parser).callonListContinuationElement2029,
 																								expr: &seqExpr{
-																									pos: position{line: 814, col: 5, offset: 26186},
+																									pos: position{line: 818, col: 5, offset: 26294},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 814, col: 5, offset: 26186},
+																											pos:   position{line: 818, col: 5, offset: 26294},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 814, col: 16, offset: 26197},
+																												pos: position{line: 818, col: 16, offset: 26305},
 																												run: (*parser).callonListContinuationElement2032,
 																												expr: &seqExpr{
-																													pos: position{line: 814, col: 16, offset: 26197},
+																													pos: position{line: 818, col: 16, offset: 26305},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 814, col: 16, offset: 26197},
+																															pos:        position{line: 818, col: 16, offset: 26305},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 814, col: 23, offset: 26204},
+																															pos: position{line: 818, col: 23, offset: 26312},
 																															expr: &litMatcher{
-																																pos:        position{line: 814, col: 23, offset: 26204},
+																																pos:        position{line: 818, col: 23, offset: 26312},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -39306,12 +39328,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 816, col: 8, offset: 26288},
+																											pos: position{line: 820, col: 8, offset: 26396},
 																											expr: &actionExpr{
-																												pos: position{line: 2892, col: 10, offset: 91469},
+																												pos: position{line: 2896, col: 10, offset: 91577},
 																												run: (*parser).callonListContinuationElement2038,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2892, col: 10, offset: 91469},
+																													pos:        position{line: 2896, col: 10, offset: 91577},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39320,28 +39342,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2914, col: 8, offset: 91867},
+																											pos: position{line: 2918, col: 8, offset: 91975},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2901, col: 12, offset: 91640},
+																													pos: position{line: 2905, col: 12, offset: 91748},
 																													run: (*parser).callonListContinuationElement2041,
 																													expr: &choiceExpr{
-																														pos: position{line: 2901, col: 13, offset: 91641},
+																														pos: position{line: 2905, col: 13, offset: 91749},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 13, offset: 91641},
+																																pos:        position{line: 2905, col: 13, offset: 91749},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 20, offset: 91648},
+																																pos:        position{line: 2905, col: 20, offset: 91756},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2901, col: 29, offset: 91657},
+																																pos:        position{line: 2905, col: 29, offset: 91765},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39350,9 +39372,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2911, col: 8, offset: 91817},
+																													pos: position{line: 2915, col: 8, offset: 91925},
 																													expr: &anyMatcher{
-																														line: 2911, col: 9, offset: 91818,
+																														line: 2915, col: 9, offset: 91926,
 																													},
 																												},
 																											},
@@ -39368,15 +39390,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1534, col: 5, offset: 49756},
+																	pos:   position{line: 1538, col: 5, offset: 49864},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2842, col: 14, offset: 90062},
+																		pos: position{line: 2846, col: 14, offset: 90170},
 																		run: (*parser).callonListContinuationElement2049,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2842, col: 14, offset: 90062},
+																			pos: position{line: 2846, col: 14, offset: 90170},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2842, col: 14, offset: 90062},
+																				pos:        position{line: 2846, col: 14, offset: 90170},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -39386,28 +39408,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonListContinuationElement2053,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -39416,9 +39438,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -39439,33 +39461,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1723, col: 1, offset: 55628},
+			pos:  position{line: 1727, col: 1, offset: 55736},
 			expr: &actionExpr{
-				pos: position{line: 1725, col: 5, offset: 55706},
+				pos: position{line: 1729, col: 5, offset: 55814},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1725, col: 5, offset: 55706},
+					pos: position{line: 1729, col: 5, offset: 55814},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1725, col: 5, offset: 55706},
+							pos: position{line: 1729, col: 5, offset: 55814},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1728, col: 5, offset: 55773},
+							pos:        position{line: 1732, col: 5, offset: 55881},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1728, col: 9, offset: 55777},
+							pos:   position{line: 1732, col: 9, offset: 55885},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1728, col: 14, offset: 55782},
+								pos: position{line: 1732, col: 14, offset: 55890},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1728, col: 14, offset: 55782},
+									pos: position{line: 1732, col: 14, offset: 55890},
 									expr: &charClassMatcher{
-										pos:        position{line: 1728, col: 14, offset: 55782},
+										pos:        position{line: 1732, col: 14, offset: 55890},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -39475,18 +39497,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1728, col: 62, offset: 55830},
+							pos:        position{line: 1732, col: 62, offset: 55938},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1728, col: 66, offset: 55834},
+							pos: position{line: 1732, col: 66, offset: 55942},
 							expr: &actionExpr{
-								pos: position{line: 2892, col: 10, offset: 91469},
+								pos: position{line: 2896, col: 10, offset: 91577},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2892, col: 10, offset: 91469},
+									pos:        position{line: 2896, col: 10, offset: 91577},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -39495,30 +39517,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1728, col: 73, offset: 55841},
+							pos: position{line: 1732, col: 73, offset: 55949},
 							expr: &choiceExpr{
-								pos: position{line: 1728, col: 75, offset: 55843},
+								pos: position{line: 1732, col: 75, offset: 55951},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2901, col: 12, offset: 91640},
+										pos: position{line: 2905, col: 12, offset: 91748},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2901, col: 13, offset: 91641},
+											pos: position{line: 2905, col: 13, offset: 91749},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2901, col: 13, offset: 91641},
+													pos:        position{line: 2905, col: 13, offset: 91749},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2901, col: 20, offset: 91648},
+													pos:        position{line: 2905, col: 20, offset: 91756},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2901, col: 29, offset: 91657},
+													pos:        position{line: 2905, col: 29, offset: 91765},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -39527,13 +39549,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2911, col: 8, offset: 91817},
+										pos: position{line: 2915, col: 8, offset: 91925},
 										expr: &anyMatcher{
-											line: 2911, col: 9, offset: 91818,
+											line: 2915, col: 9, offset: 91926,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1728, col: 81, offset: 55849},
+										pos:  position{line: 1732, col: 81, offset: 55957},
 										name: "Callout",
 									},
 								},
@@ -39545,44 +39567,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1767, col: 1, offset: 57022},
+			pos:  position{line: 1771, col: 1, offset: 57130},
 			expr: &actionExpr{
-				pos: position{line: 1769, col: 5, offset: 57096},
+				pos: position{line: 1773, col: 5, offset: 57204},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1769, col: 5, offset: 57096},
+					pos: position{line: 1773, col: 5, offset: 57204},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1769, col: 5, offset: 57096},
+							pos: position{line: 1773, col: 5, offset: 57204},
 							expr: &seqExpr{
-								pos: position{line: 1769, col: 7, offset: 57098},
+								pos: position{line: 1773, col: 7, offset: 57206},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2782, col: 13, offset: 88564},
+										pos:        position{line: 2786, col: 13, offset: 88672},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1769, col: 16, offset: 57107},
+										pos: position{line: 1773, col: 16, offset: 57215},
 										expr: &seqExpr{
-											pos: position{line: 1769, col: 18, offset: 57109},
+											pos: position{line: 1773, col: 18, offset: 57217},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1769, col: 19, offset: 57110},
+													pos:        position{line: 1773, col: 19, offset: 57218},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2896, col: 11, offset: 91530},
+													pos: position{line: 2900, col: 11, offset: 91638},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2896, col: 11, offset: 91530},
+														pos: position{line: 2900, col: 11, offset: 91638},
 														expr: &charClassMatcher{
-															pos:        position{line: 2896, col: 11, offset: 91530},
+															pos:        position{line: 2900, col: 11, offset: 91638},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -39597,88 +39619,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1770, col: 5, offset: 57250},
+							pos:   position{line: 1774, col: 5, offset: 57358},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1770, col: 11, offset: 57256},
+								pos: position{line: 1774, col: 11, offset: 57364},
 								expr: &actionExpr{
-									pos: position{line: 1748, col: 5, offset: 56519},
+									pos: position{line: 1752, col: 5, offset: 56627},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1748, col: 5, offset: 56519},
+										pos: position{line: 1752, col: 5, offset: 56627},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1748, col: 5, offset: 56519},
+												pos: position{line: 1752, col: 5, offset: 56627},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1751, col: 5, offset: 56582},
+												pos:   position{line: 1755, col: 5, offset: 56690},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1751, col: 12, offset: 56589},
+													pos: position{line: 1755, col: 12, offset: 56697},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1751, col: 12, offset: 56589},
+															pos: position{line: 1755, col: 12, offset: 56697},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1751, col: 12, offset: 56589},
+																pos:        position{line: 1755, col: 12, offset: 56697},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1753, col: 13, offset: 56645},
+															pos: position{line: 1757, col: 13, offset: 56753},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1753, col: 13, offset: 56645},
+																pos:        position{line: 1757, col: 13, offset: 56753},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1755, col: 13, offset: 56703},
+															pos: position{line: 1759, col: 13, offset: 56811},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1755, col: 13, offset: 56703},
+																pos:        position{line: 1759, col: 13, offset: 56811},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1757, col: 13, offset: 56771},
+															pos: position{line: 1761, col: 13, offset: 56879},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1757, col: 13, offset: 56771},
+																pos:        position{line: 1761, col: 13, offset: 56879},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1759, col: 13, offset: 56835},
+															pos: position{line: 1763, col: 13, offset: 56943},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1759, col: 13, offset: 56835},
+																pos:        position{line: 1763, col: 13, offset: 56943},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1761, col: 13, offset: 56899},
+															pos: position{line: 1765, col: 13, offset: 57007},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1761, col: 13, offset: 56899},
+																pos: position{line: 1765, col: 13, offset: 57007},
 																expr: &actionExpr{
-																	pos: position{line: 2896, col: 11, offset: 91530},
+																	pos: position{line: 2900, col: 11, offset: 91638},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2896, col: 11, offset: 91530},
+																		pos: position{line: 2900, col: 11, offset: 91638},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 11, offset: 91530},
+																			pos:        position{line: 2900, col: 11, offset: 91638},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39697,24 +39719,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1771, col: 5, offset: 57278},
+							pos:   position{line: 1775, col: 5, offset: 57386},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1807, col: 5, offset: 58385},
+								pos: position{line: 1811, col: 5, offset: 58493},
 								run: (*parser).callonShortcutParagraph35,
 								expr: &seqExpr{
-									pos: position{line: 1807, col: 5, offset: 58385},
+									pos: position{line: 1811, col: 5, offset: 58493},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1807, col: 5, offset: 58385},
+											pos:   position{line: 1811, col: 5, offset: 58493},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2842, col: 14, offset: 90062},
+												pos: position{line: 2846, col: 14, offset: 90170},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2842, col: 14, offset: 90062},
+													pos: position{line: 2846, col: 14, offset: 90170},
 													expr: &charClassMatcher{
-														pos:        position{line: 2842, col: 14, offset: 90062},
+														pos:        position{line: 2846, col: 14, offset: 90170},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39724,32 +39746,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1808, col: 5, offset: 58409},
+											pos: position{line: 1812, col: 5, offset: 58517},
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2914, col: 8, offset: 91867},
+											pos: position{line: 2918, col: 8, offset: 91975},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2901, col: 12, offset: 91640},
+													pos: position{line: 2905, col: 12, offset: 91748},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2901, col: 13, offset: 91641},
+														pos: position{line: 2905, col: 13, offset: 91749},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2901, col: 13, offset: 91641},
+																pos:        position{line: 2905, col: 13, offset: 91749},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2901, col: 20, offset: 91648},
+																pos:        position{line: 2905, col: 20, offset: 91756},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2901, col: 29, offset: 91657},
+																pos:        position{line: 2905, col: 29, offset: 91765},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39758,9 +39780,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2911, col: 8, offset: 91817},
+													pos: position{line: 2915, col: 8, offset: 91925},
 													expr: &anyMatcher{
-														line: 2911, col: 9, offset: 91818,
+														line: 2915, col: 9, offset: 91926,
 													},
 												},
 											},
@@ -39770,28 +39792,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1772, col: 5, offset: 57312},
+							pos: position{line: 1776, col: 5, offset: 57420},
 							run: (*parser).callonShortcutParagraph50,
 						},
 						&labeledExpr{
-							pos:   position{line: 1779, col: 5, offset: 57642},
+							pos:   position{line: 1783, col: 5, offset: 57750},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1779, col: 16, offset: 57653},
+								pos: position{line: 1783, col: 16, offset: 57761},
 								expr: &actionExpr{
-									pos: position{line: 1780, col: 9, offset: 57663},
+									pos: position{line: 1784, col: 9, offset: 57771},
 									run: (*parser).callonShortcutParagraph53,
 									expr: &seqExpr{
-										pos: position{line: 1780, col: 9, offset: 57663},
+										pos: position{line: 1784, col: 9, offset: 57771},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2909, col: 11, offset: 91803},
+												pos: position{line: 2913, col: 11, offset: 91911},
 												expr: &anyMatcher{
-													line: 2909, col: 13, offset: 91805,
+													line: 2913, col: 13, offset: 91913,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1781, col: 9, offset: 57679},
+												pos: position{line: 1785, col: 9, offset: 57787},
 												expr: &actionExpr{
 													pos: position{line: 687, col: 14, offset: 21835},
 													run: (*parser).callonShortcutParagraph58,
@@ -39799,18 +39821,18 @@ var g = &grammar{
 														pos: position{line: 687, col: 14, offset: 21835},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2909, col: 11, offset: 91803},
+																pos: position{line: 2913, col: 11, offset: 91911},
 																expr: &anyMatcher{
-																	line: 2909, col: 13, offset: 91805,
+																	line: 2913, col: 13, offset: 91913,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 687, col: 21, offset: 21842},
 																expr: &actionExpr{
-																	pos: position{line: 2892, col: 10, offset: 91469},
+																	pos: position{line: 2896, col: 10, offset: 91577},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2892, col: 10, offset: 91469},
+																		pos:        position{line: 2896, col: 10, offset: 91577},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39819,28 +39841,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2914, col: 8, offset: 91867},
+																pos: position{line: 2918, col: 8, offset: 91975},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2901, col: 12, offset: 91640},
+																		pos: position{line: 2905, col: 12, offset: 91748},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2901, col: 13, offset: 91641},
+																			pos: position{line: 2905, col: 13, offset: 91749},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2901, col: 13, offset: 91641},
+																					pos:        position{line: 2905, col: 13, offset: 91749},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2901, col: 20, offset: 91648},
+																					pos:        position{line: 2905, col: 20, offset: 91756},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2901, col: 29, offset: 91657},
+																					pos:        position{line: 2905, col: 29, offset: 91765},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39849,9 +39871,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2911, col: 8, offset: 91817},
+																		pos: position{line: 2915, col: 8, offset: 91925},
 																		expr: &anyMatcher{
-																			line: 2911, col: 9, offset: 91818,
+																			line: 2915, col: 9, offset: 91926,
 																		},
 																	},
 																},
@@ -39861,24 +39883,24 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1782, col: 9, offset: 57698},
+												pos: position{line: 1786, col: 9, offset: 57806},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1782, col: 10, offset: 57699},
+													pos:  position{line: 1786, col: 10, offset: 57807},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1783, col: 9, offset: 57723},
+												pos: position{line: 1787, col: 9, offset: 57831},
 												expr: &actionExpr{
-													pos: position{line: 734, col: 5, offset: 23388},
+													pos: position{line: 738, col: 5, offset: 23496},
 													run: (*parser).callonShortcutParagraph76,
 													expr: &seqExpr{
-														pos: position{line: 734, col: 5, offset: 23388},
+														pos: position{line: 738, col: 5, offset: 23496},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 734, col: 5, offset: 23388},
+																pos: position{line: 738, col: 5, offset: 23496},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2782, col: 13, offset: 88564},
+																	pos:        position{line: 2786, col: 13, offset: 88672},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39886,36 +39908,36 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 735, col: 5, offset: 23418},
+																pos:   position{line: 739, col: 5, offset: 23526},
 																label: "delimiter",
 																expr: &choiceExpr{
-																	pos: position{line: 736, col: 9, offset: 23438},
+																	pos: position{line: 740, col: 9, offset: 23546},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 750, col: 5, offset: 23930},
+																			pos: position{line: 754, col: 5, offset: 24038},
 																			run: (*parser).callonShortcutParagraph82,
 																			expr: &seqExpr{
-																				pos: position{line: 750, col: 5, offset: 23930},
+																				pos: position{line: 754, col: 5, offset: 24038},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 750, col: 5, offset: 23930},
+																						pos:   position{line: 754, col: 5, offset: 24038},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 750, col: 16, offset: 23941},
+																							pos: position{line: 754, col: 16, offset: 24049},
 																							run: (*parser).callonShortcutParagraph85,
 																							expr: &seqExpr{
-																								pos: position{line: 750, col: 16, offset: 23941},
+																								pos: position{line: 754, col: 16, offset: 24049},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 750, col: 16, offset: 23941},
+																										pos:        position{line: 754, col: 16, offset: 24049},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 750, col: 23, offset: 23948},
+																										pos: position{line: 754, col: 23, offset: 24056},
 																										expr: &litMatcher{
-																											pos:        position{line: 750, col: 23, offset: 23948},
+																											pos:        position{line: 754, col: 23, offset: 24056},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -39926,12 +39948,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 752, col: 8, offset: 24032},
+																						pos: position{line: 756, col: 8, offset: 24140},
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 10, offset: 91469},
+																							pos: position{line: 2896, col: 10, offset: 91577},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2892, col: 10, offset: 91469},
+																								pos:        position{line: 2896, col: 10, offset: 91577},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39940,28 +39962,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2914, col: 8, offset: 91867},
+																						pos: position{line: 2918, col: 8, offset: 91975},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2901, col: 12, offset: 91640},
+																								pos: position{line: 2905, col: 12, offset: 91748},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2901, col: 13, offset: 91641},
+																									pos: position{line: 2905, col: 13, offset: 91749},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91641},
+																											pos:        position{line: 2905, col: 13, offset: 91749},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 20, offset: 91648},
+																											pos:        position{line: 2905, col: 20, offset: 91756},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 29, offset: 91657},
+																											pos:        position{line: 2905, col: 29, offset: 91765},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39970,9 +39992,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 8, offset: 91817},
+																								pos: position{line: 2915, col: 8, offset: 91925},
 																								expr: &anyMatcher{
-																									line: 2911, col: 9, offset: 91818,
+																									line: 2915, col: 9, offset: 91926,
 																								},
 																							},
 																						},
@@ -39981,30 +40003,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 757, col: 5, offset: 24178},
+																			pos: position{line: 761, col: 5, offset: 24286},
 																			run: (*parser).callonShortcutParagraph101,
 																			expr: &seqExpr{
-																				pos: position{line: 757, col: 5, offset: 24178},
+																				pos: position{line: 761, col: 5, offset: 24286},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 757, col: 5, offset: 24178},
+																						pos:   position{line: 761, col: 5, offset: 24286},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 757, col: 16, offset: 24189},
+																							pos: position{line: 761, col: 16, offset: 24297},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &seqExpr{
-																								pos: position{line: 757, col: 16, offset: 24189},
+																								pos: position{line: 761, col: 16, offset: 24297},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 757, col: 16, offset: 24189},
+																										pos:        position{line: 761, col: 16, offset: 24297},
 																										val:        "====",
 																										ignoreCase: false,
 																										want:       "\"====\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 757, col: 23, offset: 24196},
+																										pos: position{line: 761, col: 23, offset: 24304},
 																										expr: &litMatcher{
-																											pos:        position{line: 757, col: 23, offset: 24196},
+																											pos:        position{line: 761, col: 23, offset: 24304},
 																											val:        "=",
 																											ignoreCase: false,
 																											want:       "\"=\"",
@@ -40015,12 +40037,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 759, col: 8, offset: 24280},
+																						pos: position{line: 763, col: 8, offset: 24388},
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 10, offset: 91469},
+																							pos: position{line: 2896, col: 10, offset: 91577},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2892, col: 10, offset: 91469},
+																								pos:        position{line: 2896, col: 10, offset: 91577},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40029,28 +40051,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2914, col: 8, offset: 91867},
+																						pos: position{line: 2918, col: 8, offset: 91975},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2901, col: 12, offset: 91640},
+																								pos: position{line: 2905, col: 12, offset: 91748},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2901, col: 13, offset: 91641},
+																									pos: position{line: 2905, col: 13, offset: 91749},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91641},
+																											pos:        position{line: 2905, col: 13, offset: 91749},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 20, offset: 91648},
+																											pos:        position{line: 2905, col: 20, offset: 91756},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 29, offset: 91657},
+																											pos:        position{line: 2905, col: 29, offset: 91765},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40059,9 +40081,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 8, offset: 91817},
+																								pos: position{line: 2915, col: 8, offset: 91925},
 																								expr: &anyMatcher{
-																									line: 2911, col: 9, offset: 91818,
+																									line: 2915, col: 9, offset: 91926,
 																								},
 																							},
 																						},
@@ -40070,27 +40092,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 770, col: 26, offset: 24666},
+																			pos: position{line: 774, col: 26, offset: 24774},
 																			run: (*parser).callonShortcutParagraph120,
 																			expr: &seqExpr{
-																				pos: position{line: 770, col: 26, offset: 24666},
+																				pos: position{line: 774, col: 26, offset: 24774},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 770, col: 26, offset: 24666},
+																						pos:        position{line: 774, col: 26, offset: 24774},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 770, col: 32, offset: 24672},
+																						pos:   position{line: 774, col: 32, offset: 24780},
 																						label: "language",
 																						expr: &actionExpr{
-																							pos: position{line: 774, col: 13, offset: 24802},
+																							pos: position{line: 778, col: 13, offset: 24910},
 																							run: (*parser).callonShortcutParagraph124,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 774, col: 14, offset: 24803},
+																								pos: position{line: 778, col: 14, offset: 24911},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 774, col: 14, offset: 24803},
+																									pos:        position{line: 778, col: 14, offset: 24911},
 																									val:        "[^\\r\\n` ]",
 																									chars:      []rune{'\r', '\n', '`', ' '},
 																									ignoreCase: false,
@@ -40100,12 +40122,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 770, col: 52, offset: 24692},
+																						pos: position{line: 774, col: 52, offset: 24800},
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 10, offset: 91469},
+																							pos: position{line: 2896, col: 10, offset: 91577},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2892, col: 10, offset: 91469},
+																								pos:        position{line: 2896, col: 10, offset: 91577},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40114,28 +40136,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2914, col: 8, offset: 91867},
+																						pos: position{line: 2918, col: 8, offset: 91975},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2901, col: 12, offset: 91640},
+																								pos: position{line: 2905, col: 12, offset: 91748},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2901, col: 13, offset: 91641},
+																									pos: position{line: 2905, col: 13, offset: 91749},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91641},
+																											pos:        position{line: 2905, col: 13, offset: 91749},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 20, offset: 91648},
+																											pos:        position{line: 2905, col: 20, offset: 91756},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 29, offset: 91657},
+																											pos:        position{line: 2905, col: 29, offset: 91765},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40144,9 +40166,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 8, offset: 91817},
+																								pos: position{line: 2915, col: 8, offset: 91925},
 																								expr: &anyMatcher{
-																									line: 2911, col: 9, offset: 91818,
+																									line: 2915, col: 9, offset: 91926,
 																								},
 																							},
 																						},
@@ -40155,30 +40177,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 764, col: 5, offset: 24425},
+																			pos: position{line: 768, col: 5, offset: 24533},
 																			run: (*parser).callonShortcutParagraph138,
 																			expr: &seqExpr{
-																				pos: position{line: 764, col: 5, offset: 24425},
+																				pos: position{line: 768, col: 5, offset: 24533},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 764, col: 5, offset: 24425},
+																						pos:   position{line: 768, col: 5, offset: 24533},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 764, col: 16, offset: 24436},
+																							pos: position{line: 768, col: 16, offset: 24544},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &seqExpr{
-																								pos: position{line: 764, col: 16, offset: 24436},
+																								pos: position{line: 768, col: 16, offset: 24544},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 764, col: 16, offset: 24436},
+																										pos:        position{line: 768, col: 16, offset: 24544},
 																										val:        "```",
 																										ignoreCase: false,
 																										want:       "\"```\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 764, col: 22, offset: 24442},
+																										pos: position{line: 768, col: 22, offset: 24550},
 																										expr: &litMatcher{
-																											pos:        position{line: 764, col: 22, offset: 24442},
+																											pos:        position{line: 768, col: 22, offset: 24550},
 																											val:        "`",
 																											ignoreCase: false,
 																											want:       "\"`\"",
@@ -40189,12 +40211,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 766, col: 8, offset: 24526},
+																						pos: position{line: 770, col: 8, offset: 24634},
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 10, offset: 91469},
+																							pos: position{line: 2896, col: 10, offset: 91577},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2892, col: 10, offset: 91469},
+																								pos:        position{line: 2896, col: 10, offset: 91577},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40203,28 +40225,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2914, col: 8, offset: 91867},
+																						pos: position{line: 2918, col: 8, offset: 91975},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2901, col: 12, offset: 91640},
+																								pos: position{line: 2905, col: 12, offset: 91748},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2901, col: 13, offset: 91641},
+																									pos: position{line: 2905, col: 13, offset: 91749},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91641},
+																											pos:        position{line: 2905, col: 13, offset: 91749},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 20, offset: 91648},
+																											pos:        position{line: 2905, col: 20, offset: 91756},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 29, offset: 91657},
+																											pos:        position{line: 2905, col: 29, offset: 91765},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40233,9 +40255,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 8, offset: 91817},
+																								pos: position{line: 2915, col: 8, offset: 91925},
 																								expr: &anyMatcher{
-																									line: 2911, col: 9, offset: 91818,
+																									line: 2915, col: 9, offset: 91926,
 																								},
 																							},
 																						},
@@ -40244,30 +40266,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 779, col: 5, offset: 24962},
+																			pos: position{line: 783, col: 5, offset: 25070},
 																			run: (*parser).callonShortcutParagraph157,
 																			expr: &seqExpr{
-																				pos: position{line: 779, col: 5, offset: 24962},
+																				pos: position{line: 783, col: 5, offset: 25070},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 779, col: 5, offset: 24962},
+																						pos:   position{line: 783, col: 5, offset: 25070},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 779, col: 16, offset: 24973},
+																							pos: position{line: 783, col: 16, offset: 25081},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &seqExpr{
-																								pos: position{line: 779, col: 16, offset: 24973},
+																								pos: position{line: 783, col: 16, offset: 25081},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 779, col: 16, offset: 24973},
+																										pos:        position{line: 783, col: 16, offset: 25081},
 																										val:        "----",
 																										ignoreCase: false,
 																										want:       "\"----\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 779, col: 23, offset: 24980},
+																										pos: position{line: 783, col: 23, offset: 25088},
 																										expr: &litMatcher{
-																											pos:        position{line: 779, col: 23, offset: 24980},
+																											pos:        position{line: 783, col: 23, offset: 25088},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
@@ -40278,12 +40300,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 781, col: 8, offset: 25064},
+																						pos: position{line: 785, col: 8, offset: 25172},
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 10, offset: 91469},
+																							pos: position{line: 2896, col: 10, offset: 91577},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2892, col: 10, offset: 91469},
+																								pos:        position{line: 2896, col: 10, offset: 91577},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40292,28 +40314,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2914, col: 8, offset: 91867},
+																						pos: position{line: 2918, col: 8, offset: 91975},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2901, col: 12, offset: 91640},
+																								pos: position{line: 2905, col: 12, offset: 91748},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2901, col: 13, offset: 91641},
+																									pos: position{line: 2905, col: 13, offset: 91749},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91641},
+																											pos:        position{line: 2905, col: 13, offset: 91749},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 20, offset: 91648},
+																											pos:        position{line: 2905, col: 20, offset: 91756},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 29, offset: 91657},
+																											pos:        position{line: 2905, col: 29, offset: 91765},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40322,9 +40344,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 8, offset: 91817},
+																								pos: position{line: 2915, col: 8, offset: 91925},
 																								expr: &anyMatcher{
-																									line: 2911, col: 9, offset: 91818,
+																									line: 2915, col: 9, offset: 91926,
 																								},
 																							},
 																						},
@@ -40333,30 +40355,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 793, col: 5, offset: 25438},
+																			pos: position{line: 797, col: 5, offset: 25546},
 																			run: (*parser).callonShortcutParagraph176,
 																			expr: &seqExpr{
-																				pos: position{line: 793, col: 5, offset: 25438},
+																				pos: position{line: 797, col: 5, offset: 25546},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 793, col: 5, offset: 25438},
+																						pos:   position{line: 797, col: 5, offset: 25546},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 793, col: 16, offset: 25449},
+																							pos: position{line: 797, col: 16, offset: 25557},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &seqExpr{
-																								pos: position{line: 793, col: 16, offset: 25449},
+																								pos: position{line: 797, col: 16, offset: 25557},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 793, col: 16, offset: 25449},
+																										pos:        position{line: 797, col: 16, offset: 25557},
 																										val:        "....",
 																										ignoreCase: false,
 																										want:       "\"....\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 793, col: 23, offset: 25456},
+																										pos: position{line: 797, col: 23, offset: 25564},
 																										expr: &litMatcher{
-																											pos:        position{line: 793, col: 23, offset: 25456},
+																											pos:        position{line: 797, col: 23, offset: 25564},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -40367,12 +40389,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 795, col: 8, offset: 25540},
+																						pos: position{line: 799, col: 8, offset: 25648},
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 10, offset: 91469},
+																							pos: position{line: 2896, col: 10, offset: 91577},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2892, col: 10, offset: 91469},
+																								pos:        position{line: 2896, col: 10, offset: 91577},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40381,28 +40403,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2914, col: 8, offset: 91867},
+																						pos: position{line: 2918, col: 8, offset: 91975},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2901, col: 12, offset: 91640},
+																								pos: position{line: 2905, col: 12, offset: 91748},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2901, col: 13, offset: 91641},
+																									pos: position{line: 2905, col: 13, offset: 91749},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91641},
+																											pos:        position{line: 2905, col: 13, offset: 91749},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 20, offset: 91648},
+																											pos:        position{line: 2905, col: 20, offset: 91756},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 29, offset: 91657},
+																											pos:        position{line: 2905, col: 29, offset: 91765},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40411,9 +40433,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 8, offset: 91817},
+																								pos: position{line: 2915, col: 8, offset: 91925},
 																								expr: &anyMatcher{
-																									line: 2911, col: 9, offset: 91818,
+																									line: 2915, col: 9, offset: 91926,
 																								},
 																							},
 																						},
@@ -40422,30 +40444,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 800, col: 5, offset: 25690},
+																			pos: position{line: 804, col: 5, offset: 25798},
 																			run: (*parser).callonShortcutParagraph195,
 																			expr: &seqExpr{
-																				pos: position{line: 800, col: 5, offset: 25690},
+																				pos: position{line: 804, col: 5, offset: 25798},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 800, col: 5, offset: 25690},
+																						pos:   position{line: 804, col: 5, offset: 25798},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 800, col: 16, offset: 25701},
+																							pos: position{line: 804, col: 16, offset: 25809},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &seqExpr{
-																								pos: position{line: 800, col: 16, offset: 25701},
+																								pos: position{line: 804, col: 16, offset: 25809},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 800, col: 16, offset: 25701},
+																										pos:        position{line: 804, col: 16, offset: 25809},
 																										val:        "++++",
 																										ignoreCase: false,
 																										want:       "\"++++\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 800, col: 23, offset: 25708},
+																										pos: position{line: 804, col: 23, offset: 25816},
 																										expr: &litMatcher{
-																											pos:        position{line: 800, col: 23, offset: 25708},
+																											pos:        position{line: 804, col: 23, offset: 25816},
 																											val:        "+",
 																											ignoreCase: false,
 																											want:       "\"+\"",
@@ -40456,12 +40478,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 802, col: 8, offset: 25792},
+																						pos: position{line: 806, col: 8, offset: 25900},
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 10, offset: 91469},
+																							pos: position{line: 2896, col: 10, offset: 91577},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2892, col: 10, offset: 91469},
+																								pos:        position{line: 2896, col: 10, offset: 91577},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40470,28 +40492,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2914, col: 8, offset: 91867},
+																						pos: position{line: 2918, col: 8, offset: 91975},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2901, col: 12, offset: 91640},
+																								pos: position{line: 2905, col: 12, offset: 91748},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2901, col: 13, offset: 91641},
+																									pos: position{line: 2905, col: 13, offset: 91749},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91641},
+																											pos:        position{line: 2905, col: 13, offset: 91749},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 20, offset: 91648},
+																											pos:        position{line: 2905, col: 20, offset: 91756},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 29, offset: 91657},
+																											pos:        position{line: 2905, col: 29, offset: 91765},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40500,9 +40522,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 8, offset: 91817},
+																								pos: position{line: 2915, col: 8, offset: 91925},
 																								expr: &anyMatcher{
-																									line: 2911, col: 9, offset: 91818,
+																									line: 2915, col: 9, offset: 91926,
 																								},
 																							},
 																						},
@@ -40511,30 +40533,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 807, col: 5, offset: 25940},
+																			pos: position{line: 811, col: 5, offset: 26048},
 																			run: (*parser).callonShortcutParagraph214,
 																			expr: &seqExpr{
-																				pos: position{line: 807, col: 5, offset: 25940},
+																				pos: position{line: 811, col: 5, offset: 26048},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 807, col: 5, offset: 25940},
+																						pos:   position{line: 811, col: 5, offset: 26048},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 807, col: 16, offset: 25951},
+																							pos: position{line: 811, col: 16, offset: 26059},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &seqExpr{
-																								pos: position{line: 807, col: 16, offset: 25951},
+																								pos: position{line: 811, col: 16, offset: 26059},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 807, col: 16, offset: 25951},
+																										pos:        position{line: 811, col: 16, offset: 26059},
 																										val:        "____",
 																										ignoreCase: false,
 																										want:       "\"____\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 807, col: 23, offset: 25958},
+																										pos: position{line: 811, col: 23, offset: 26066},
 																										expr: &litMatcher{
-																											pos:        position{line: 807, col: 23, offset: 25958},
+																											pos:        position{line: 811, col: 23, offset: 26066},
 																											val:        "_",
 																											ignoreCase: false,
 																											want:       "\"_\"",
@@ -40545,12 +40567,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 809, col: 8, offset: 26042},
+																						pos: position{line: 813, col: 8, offset: 26150},
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 10, offset: 91469},
+																							pos: position{line: 2896, col: 10, offset: 91577},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2892, col: 10, offset: 91469},
+																								pos:        position{line: 2896, col: 10, offset: 91577},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40559,28 +40581,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2914, col: 8, offset: 91867},
+																						pos: position{line: 2918, col: 8, offset: 91975},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2901, col: 12, offset: 91640},
+																								pos: position{line: 2905, col: 12, offset: 91748},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2901, col: 13, offset: 91641},
+																									pos: position{line: 2905, col: 13, offset: 91749},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91641},
+																											pos:        position{line: 2905, col: 13, offset: 91749},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 20, offset: 91648},
+																											pos:        position{line: 2905, col: 20, offset: 91756},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 29, offset: 91657},
+																											pos:        position{line: 2905, col: 29, offset: 91765},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40589,9 +40611,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 8, offset: 91817},
+																								pos: position{line: 2915, col: 8, offset: 91925},
 																								expr: &anyMatcher{
-																									line: 2911, col: 9, offset: 91818,
+																									line: 2915, col: 9, offset: 91926,
 																								},
 																							},
 																						},
@@ -40600,30 +40622,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 814, col: 5, offset: 26186},
+																			pos: position{line: 818, col: 5, offset: 26294},
 																			run: (*parser).callonShortcutParagraph233,
 																			expr: &seqExpr{
-																				pos: position{line: 814, col: 5, offset: 26186},
+																				pos: position{line: 818, col: 5, offset: 26294},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 814, col: 5, offset: 26186},
+																						pos:   position{line: 818, col: 5, offset: 26294},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 814, col: 16, offset: 26197},
+																							pos: position{line: 818, col: 16, offset: 26305},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &seqExpr{
-																								pos: position{line: 814, col: 16, offset: 26197},
+																								pos: position{line: 818, col: 16, offset: 26305},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 814, col: 16, offset: 26197},
+																										pos:        position{line: 818, col: 16, offset: 26305},
 																										val:        "****",
 																										ignoreCase: false,
 																										want:       "\"****\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 814, col: 23, offset: 26204},
+																										pos: position{line: 818, col: 23, offset: 26312},
 																										expr: &litMatcher{
-																											pos:        position{line: 814, col: 23, offset: 26204},
+																											pos:        position{line: 818, col: 23, offset: 26312},
 																											val:        "*",
 																											ignoreCase: false,
 																											want:       "\"*\"",
@@ -40634,12 +40656,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 816, col: 8, offset: 26288},
+																						pos: position{line: 820, col: 8, offset: 26396},
 																						expr: &actionExpr{
-																							pos: position{line: 2892, col: 10, offset: 91469},
+																							pos: position{line: 2896, col: 10, offset: 91577},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2892, col: 10, offset: 91469},
+																								pos:        position{line: 2896, col: 10, offset: 91577},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40648,28 +40670,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2914, col: 8, offset: 91867},
+																						pos: position{line: 2918, col: 8, offset: 91975},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2901, col: 12, offset: 91640},
+																								pos: position{line: 2905, col: 12, offset: 91748},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2901, col: 13, offset: 91641},
+																									pos: position{line: 2905, col: 13, offset: 91749},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 13, offset: 91641},
+																											pos:        position{line: 2905, col: 13, offset: 91749},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 20, offset: 91648},
+																											pos:        position{line: 2905, col: 20, offset: 91756},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2901, col: 29, offset: 91657},
+																											pos:        position{line: 2905, col: 29, offset: 91765},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40678,9 +40700,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2911, col: 8, offset: 91817},
+																								pos: position{line: 2915, col: 8, offset: 91925},
 																								expr: &anyMatcher{
-																									line: 2911, col: 9, offset: 91818,
+																									line: 2915, col: 9, offset: 91926,
 																								},
 																							},
 																						},
@@ -40696,23 +40718,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1784, col: 9, offset: 57747},
+												pos: position{line: 1788, col: 9, offset: 57855},
 												expr: &seqExpr{
-													pos: position{line: 1558, col: 27, offset: 50384},
+													pos: position{line: 1562, col: 27, offset: 50492},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1558, col: 27, offset: 50384},
+															pos:        position{line: 1562, col: 27, offset: 50492},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1558, col: 31, offset: 50388},
+															pos: position{line: 1562, col: 31, offset: 50496},
 															expr: &actionExpr{
-																pos: position{line: 2892, col: 10, offset: 91469},
+																pos: position{line: 2896, col: 10, offset: 91577},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2892, col: 10, offset: 91469},
+																	pos:        position{line: 2896, col: 10, offset: 91577},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40721,25 +40743,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2901, col: 12, offset: 91640},
+															pos: position{line: 2905, col: 12, offset: 91748},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2901, col: 13, offset: 91641},
+																pos: position{line: 2905, col: 13, offset: 91749},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 13, offset: 91641},
+																		pos:        position{line: 2905, col: 13, offset: 91749},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 20, offset: 91648},
+																		pos:        position{line: 2905, col: 20, offset: 91756},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 29, offset: 91657},
+																		pos:        position{line: 2905, col: 29, offset: 91765},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40751,42 +40773,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1785, col: 9, offset: 57779},
+												pos:   position{line: 1789, col: 9, offset: 57887},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1785, col: 15, offset: 57785},
+													pos: position{line: 1789, col: 15, offset: 57893},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2493, col: 22, offset: 80229},
+															pos: position{line: 2497, col: 22, offset: 80337},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2493, col: 22, offset: 80229},
+																pos: position{line: 2497, col: 22, offset: 80337},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2498, col: 31, offset: 80450},
+																		pos:        position{line: 2502, col: 31, offset: 80558},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2498, col: 36, offset: 80455},
+																		pos: position{line: 2502, col: 36, offset: 80563},
 																		expr: &litMatcher{
-																			pos:        position{line: 2498, col: 37, offset: 80456},
+																			pos:        position{line: 2502, col: 37, offset: 80564},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2493, col: 49, offset: 80256},
+																		pos:   position{line: 2497, col: 49, offset: 80364},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2838, col: 13, offset: 89995},
+																			pos: position{line: 2842, col: 13, offset: 90103},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2838, col: 13, offset: 89995},
+																				pos: position{line: 2842, col: 13, offset: 90103},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2838, col: 13, offset: 89995},
+																					pos:        position{line: 2842, col: 13, offset: 90103},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40796,28 +40818,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2914, col: 8, offset: 91867},
+																		pos: position{line: 2918, col: 8, offset: 91975},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91640},
+																				pos: position{line: 2905, col: 12, offset: 91748},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2901, col: 13, offset: 91641},
+																					pos: position{line: 2905, col: 13, offset: 91749},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 13, offset: 91641},
+																							pos:        position{line: 2905, col: 13, offset: 91749},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 20, offset: 91648},
+																							pos:        position{line: 2905, col: 20, offset: 91756},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 29, offset: 91657},
+																							pos:        position{line: 2905, col: 29, offset: 91765},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40826,9 +40848,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2911, col: 8, offset: 91817},
+																				pos: position{line: 2915, col: 8, offset: 91925},
 																				expr: &anyMatcher{
-																					line: 2911, col: 9, offset: 91818,
+																					line: 2915, col: 9, offset: 91926,
 																				},
 																			},
 																		},
@@ -40837,21 +40859,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1807, col: 5, offset: 58385},
+															pos: position{line: 1811, col: 5, offset: 58493},
 															run: (*parser).callonShortcutParagraph282,
 															expr: &seqExpr{
-																pos: position{line: 1807, col: 5, offset: 58385},
+																pos: position{line: 1811, col: 5, offset: 58493},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1807, col: 5, offset: 58385},
+																		pos:   position{line: 1811, col: 5, offset: 58493},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2842, col: 14, offset: 90062},
+																			pos: position{line: 2846, col: 14, offset: 90170},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2842, col: 14, offset: 90062},
+																				pos: position{line: 2846, col: 14, offset: 90170},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2842, col: 14, offset: 90062},
+																					pos:        position{line: 2846, col: 14, offset: 90170},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40861,32 +40883,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1808, col: 5, offset: 58409},
+																		pos: position{line: 1812, col: 5, offset: 58517},
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2914, col: 8, offset: 91867},
+																		pos: position{line: 2918, col: 8, offset: 91975},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91640},
+																				pos: position{line: 2905, col: 12, offset: 91748},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2901, col: 13, offset: 91641},
+																					pos: position{line: 2905, col: 13, offset: 91749},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 13, offset: 91641},
+																							pos:        position{line: 2905, col: 13, offset: 91749},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 20, offset: 91648},
+																							pos:        position{line: 2905, col: 20, offset: 91756},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 29, offset: 91657},
+																							pos:        position{line: 2905, col: 29, offset: 91765},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40895,9 +40917,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2911, col: 8, offset: 91817},
+																				pos: position{line: 2915, col: 8, offset: 91925},
 																				expr: &anyMatcher{
-																					line: 2911, col: 9, offset: 91818,
+																					line: 2915, col: 9, offset: 91926,
 																				},
 																			},
 																		},
@@ -40919,96 +40941,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1792, col: 1, offset: 57989},
+			pos:  position{line: 1796, col: 1, offset: 58097},
 			expr: &actionExpr{
-				pos: position{line: 1793, col: 5, offset: 58007},
+				pos: position{line: 1797, col: 5, offset: 58115},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1793, col: 5, offset: 58007},
+					pos: position{line: 1797, col: 5, offset: 58115},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1793, col: 5, offset: 58007},
+							pos:   position{line: 1797, col: 5, offset: 58115},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1793, col: 11, offset: 58013},
+								pos: position{line: 1797, col: 11, offset: 58121},
 								expr: &actionExpr{
-									pos: position{line: 1748, col: 5, offset: 56519},
+									pos: position{line: 1752, col: 5, offset: 56627},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1748, col: 5, offset: 56519},
+										pos: position{line: 1752, col: 5, offset: 56627},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1748, col: 5, offset: 56519},
+												pos: position{line: 1752, col: 5, offset: 56627},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1751, col: 5, offset: 56582},
+												pos:   position{line: 1755, col: 5, offset: 56690},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1751, col: 12, offset: 56589},
+													pos: position{line: 1755, col: 12, offset: 56697},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1751, col: 12, offset: 56589},
+															pos: position{line: 1755, col: 12, offset: 56697},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1751, col: 12, offset: 56589},
+																pos:        position{line: 1755, col: 12, offset: 56697},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1753, col: 13, offset: 56645},
+															pos: position{line: 1757, col: 13, offset: 56753},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1753, col: 13, offset: 56645},
+																pos:        position{line: 1757, col: 13, offset: 56753},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1755, col: 13, offset: 56703},
+															pos: position{line: 1759, col: 13, offset: 56811},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1755, col: 13, offset: 56703},
+																pos:        position{line: 1759, col: 13, offset: 56811},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1757, col: 13, offset: 56771},
+															pos: position{line: 1761, col: 13, offset: 56879},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1757, col: 13, offset: 56771},
+																pos:        position{line: 1761, col: 13, offset: 56879},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1759, col: 13, offset: 56835},
+															pos: position{line: 1763, col: 13, offset: 56943},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1759, col: 13, offset: 56835},
+																pos:        position{line: 1763, col: 13, offset: 56943},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1761, col: 13, offset: 56899},
+															pos: position{line: 1765, col: 13, offset: 57007},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1761, col: 13, offset: 56899},
+																pos: position{line: 1765, col: 13, offset: 57007},
 																expr: &actionExpr{
-																	pos: position{line: 2896, col: 11, offset: 91530},
+																	pos: position{line: 2900, col: 11, offset: 91638},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2896, col: 11, offset: 91530},
+																		pos: position{line: 2900, col: 11, offset: 91638},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 11, offset: 91530},
+																			pos:        position{line: 2900, col: 11, offset: 91638},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41027,24 +41049,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1794, col: 5, offset: 58036},
+							pos:   position{line: 1798, col: 5, offset: 58144},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1807, col: 5, offset: 58385},
+								pos: position{line: 1811, col: 5, offset: 58493},
 								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1807, col: 5, offset: 58385},
+									pos: position{line: 1811, col: 5, offset: 58493},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1807, col: 5, offset: 58385},
+											pos:   position{line: 1811, col: 5, offset: 58493},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2842, col: 14, offset: 90062},
+												pos: position{line: 2846, col: 14, offset: 90170},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2842, col: 14, offset: 90062},
+													pos: position{line: 2846, col: 14, offset: 90170},
 													expr: &charClassMatcher{
-														pos:        position{line: 2842, col: 14, offset: 90062},
+														pos:        position{line: 2846, col: 14, offset: 90170},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -41054,32 +41076,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1808, col: 5, offset: 58409},
+											pos: position{line: 1812, col: 5, offset: 58517},
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2914, col: 8, offset: 91867},
+											pos: position{line: 2918, col: 8, offset: 91975},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2901, col: 12, offset: 91640},
+													pos: position{line: 2905, col: 12, offset: 91748},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2901, col: 13, offset: 91641},
+														pos: position{line: 2905, col: 13, offset: 91749},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2901, col: 13, offset: 91641},
+																pos:        position{line: 2905, col: 13, offset: 91749},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2901, col: 20, offset: 91648},
+																pos:        position{line: 2905, col: 20, offset: 91756},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2901, col: 29, offset: 91657},
+																pos:        position{line: 2905, col: 29, offset: 91765},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -41088,9 +41110,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2911, col: 8, offset: 91817},
+													pos: position{line: 2915, col: 8, offset: 91925},
 													expr: &anyMatcher{
-														line: 2911, col: 9, offset: 91818,
+														line: 2915, col: 9, offset: 91926,
 													},
 												},
 											},
@@ -41100,24 +41122,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1795, col: 5, offset: 58070},
+							pos:   position{line: 1799, col: 5, offset: 58178},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1795, col: 16, offset: 58081},
+								pos: position{line: 1799, col: 16, offset: 58189},
 								expr: &actionExpr{
-									pos: position{line: 1796, col: 9, offset: 58091},
+									pos: position{line: 1800, col: 9, offset: 58199},
 									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1796, col: 9, offset: 58091},
+										pos: position{line: 1800, col: 9, offset: 58199},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2909, col: 11, offset: 91803},
+												pos: position{line: 2913, col: 11, offset: 91911},
 												expr: &anyMatcher{
-													line: 2909, col: 13, offset: 91805,
+													line: 2913, col: 13, offset: 91913,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1797, col: 9, offset: 58106},
+												pos: position{line: 1801, col: 9, offset: 58214},
 												expr: &actionExpr{
 													pos: position{line: 687, col: 14, offset: 21835},
 													run: (*parser).callonParagraph48,
@@ -41125,18 +41147,18 @@ var g = &grammar{
 														pos: position{line: 687, col: 14, offset: 21835},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2909, col: 11, offset: 91803},
+																pos: position{line: 2913, col: 11, offset: 91911},
 																expr: &anyMatcher{
-																	line: 2909, col: 13, offset: 91805,
+																	line: 2913, col: 13, offset: 91913,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 687, col: 21, offset: 21842},
 																expr: &actionExpr{
-																	pos: position{line: 2892, col: 10, offset: 91469},
+																	pos: position{line: 2896, col: 10, offset: 91577},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2892, col: 10, offset: 91469},
+																		pos:        position{line: 2896, col: 10, offset: 91577},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -41145,28 +41167,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2914, col: 8, offset: 91867},
+																pos: position{line: 2918, col: 8, offset: 91975},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2901, col: 12, offset: 91640},
+																		pos: position{line: 2905, col: 12, offset: 91748},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2901, col: 13, offset: 91641},
+																			pos: position{line: 2905, col: 13, offset: 91749},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2901, col: 13, offset: 91641},
+																					pos:        position{line: 2905, col: 13, offset: 91749},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2901, col: 20, offset: 91648},
+																					pos:        position{line: 2905, col: 20, offset: 91756},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2901, col: 29, offset: 91657},
+																					pos:        position{line: 2905, col: 29, offset: 91765},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -41175,9 +41197,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2911, col: 8, offset: 91817},
+																		pos: position{line: 2915, col: 8, offset: 91925},
 																		expr: &anyMatcher{
-																			line: 2911, col: 9, offset: 91818,
+																			line: 2915, col: 9, offset: 91926,
 																		},
 																	},
 																},
@@ -41187,49 +41209,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1798, col: 9, offset: 58125},
+												pos: position{line: 1802, col: 9, offset: 58233},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1798, col: 10, offset: 58126},
+													pos:  position{line: 1802, col: 10, offset: 58234},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1799, col: 9, offset: 58150},
+												pos:   position{line: 1803, col: 9, offset: 58258},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1799, col: 15, offset: 58156},
+													pos: position{line: 1803, col: 15, offset: 58264},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2493, col: 22, offset: 80229},
+															pos: position{line: 2497, col: 22, offset: 80337},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2493, col: 22, offset: 80229},
+																pos: position{line: 2497, col: 22, offset: 80337},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2498, col: 31, offset: 80450},
+																		pos:        position{line: 2502, col: 31, offset: 80558},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2498, col: 36, offset: 80455},
+																		pos: position{line: 2502, col: 36, offset: 80563},
 																		expr: &litMatcher{
-																			pos:        position{line: 2498, col: 37, offset: 80456},
+																			pos:        position{line: 2502, col: 37, offset: 80564},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2493, col: 49, offset: 80256},
+																		pos:   position{line: 2497, col: 49, offset: 80364},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2838, col: 13, offset: 89995},
+																			pos: position{line: 2842, col: 13, offset: 90103},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2838, col: 13, offset: 89995},
+																				pos: position{line: 2842, col: 13, offset: 90103},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2838, col: 13, offset: 89995},
+																					pos:        position{line: 2842, col: 13, offset: 90103},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41239,28 +41261,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2914, col: 8, offset: 91867},
+																		pos: position{line: 2918, col: 8, offset: 91975},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91640},
+																				pos: position{line: 2905, col: 12, offset: 91748},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2901, col: 13, offset: 91641},
+																					pos: position{line: 2905, col: 13, offset: 91749},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 13, offset: 91641},
+																							pos:        position{line: 2905, col: 13, offset: 91749},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 20, offset: 91648},
+																							pos:        position{line: 2905, col: 20, offset: 91756},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 29, offset: 91657},
+																							pos:        position{line: 2905, col: 29, offset: 91765},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41269,9 +41291,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2911, col: 8, offset: 91817},
+																				pos: position{line: 2915, col: 8, offset: 91925},
 																				expr: &anyMatcher{
-																					line: 2911, col: 9, offset: 91818,
+																					line: 2915, col: 9, offset: 91926,
 																				},
 																			},
 																		},
@@ -41280,21 +41302,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1807, col: 5, offset: 58385},
+															pos: position{line: 1811, col: 5, offset: 58493},
 															run: (*parser).callonParagraph84,
 															expr: &seqExpr{
-																pos: position{line: 1807, col: 5, offset: 58385},
+																pos: position{line: 1811, col: 5, offset: 58493},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1807, col: 5, offset: 58385},
+																		pos:   position{line: 1811, col: 5, offset: 58493},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2842, col: 14, offset: 90062},
+																			pos: position{line: 2846, col: 14, offset: 90170},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2842, col: 14, offset: 90062},
+																				pos: position{line: 2846, col: 14, offset: 90170},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2842, col: 14, offset: 90062},
+																					pos:        position{line: 2846, col: 14, offset: 90170},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41304,32 +41326,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1808, col: 5, offset: 58409},
+																		pos: position{line: 1812, col: 5, offset: 58517},
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2914, col: 8, offset: 91867},
+																		pos: position{line: 2918, col: 8, offset: 91975},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91640},
+																				pos: position{line: 2905, col: 12, offset: 91748},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2901, col: 13, offset: 91641},
+																					pos: position{line: 2905, col: 13, offset: 91749},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 13, offset: 91641},
+																							pos:        position{line: 2905, col: 13, offset: 91749},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 20, offset: 91648},
+																							pos:        position{line: 2905, col: 20, offset: 91756},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 29, offset: 91657},
+																							pos:        position{line: 2905, col: 29, offset: 91765},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41338,9 +41360,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2911, col: 8, offset: 91817},
+																				pos: position{line: 2915, col: 8, offset: 91925},
 																				expr: &anyMatcher{
-																					line: 2911, col: 9, offset: 91818,
+																					line: 2915, col: 9, offset: 91926,
 																				},
 																			},
 																		},
@@ -41362,16 +41384,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1818, col: 1, offset: 58895},
+			pos:  position{line: 1822, col: 1, offset: 59003},
 			expr: &choiceExpr{
-				pos: position{line: 1818, col: 15, offset: 58909},
+				pos: position{line: 1822, col: 15, offset: 59017},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1818, col: 15, offset: 58909},
+						pos:  position{line: 1822, col: 15, offset: 59017},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1818, col: 35, offset: 58929},
+						pos:  position{line: 1822, col: 35, offset: 59037},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -41379,65 +41401,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1820, col: 1, offset: 58950},
+			pos:  position{line: 1824, col: 1, offset: 59058},
 			expr: &actionExpr{
-				pos: position{line: 1821, col: 5, offset: 58975},
+				pos: position{line: 1825, col: 5, offset: 59083},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1821, col: 5, offset: 58975},
+					pos: position{line: 1825, col: 5, offset: 59083},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1821, col: 5, offset: 58975},
+							pos:   position{line: 1825, col: 5, offset: 59083},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1821, col: 16, offset: 58986},
+								pos: position{line: 1825, col: 16, offset: 59094},
 								expr: &actionExpr{
-									pos: position{line: 1821, col: 17, offset: 58987},
+									pos: position{line: 1825, col: 17, offset: 59095},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1821, col: 17, offset: 58987},
+										pos:  position{line: 1825, col: 17, offset: 59095},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1824, col: 5, offset: 59055},
+							pos: position{line: 1828, col: 5, offset: 59163},
 							expr: &litMatcher{
-								pos:        position{line: 1824, col: 7, offset: 59057},
+								pos:        position{line: 1828, col: 7, offset: 59165},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1825, col: 5, offset: 59066},
+							pos:   position{line: 1829, col: 5, offset: 59174},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1826, col: 9, offset: 59084},
+								pos: position{line: 1830, col: 9, offset: 59192},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1826, col: 9, offset: 59084},
+										pos:  position{line: 1830, col: 9, offset: 59192},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1827, col: 11, offset: 59111},
+										pos:  position{line: 1831, col: 11, offset: 59219},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1828, col: 11, offset: 59139},
+										pos:  position{line: 1832, col: 11, offset: 59247},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1829, col: 11, offset: 59170},
+										pos:  position{line: 1833, col: 11, offset: 59278},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1830, col: 11, offset: 59198},
+										pos:  position{line: 1834, col: 11, offset: 59306},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1831, col: 11, offset: 59229},
+										pos:  position{line: 1835, col: 11, offset: 59337},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -41449,36 +41471,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1836, col: 1, offset: 59349},
+			pos:  position{line: 1840, col: 1, offset: 59457},
 			expr: &actionExpr{
-				pos: position{line: 1837, col: 5, offset: 59391},
+				pos: position{line: 1841, col: 5, offset: 59499},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1837, col: 5, offset: 59391},
+					pos: position{line: 1841, col: 5, offset: 59499},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1837, col: 5, offset: 59391},
+							pos:   position{line: 1841, col: 5, offset: 59499},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1837, col: 16, offset: 59402},
+								pos: position{line: 1841, col: 16, offset: 59510},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1837, col: 17, offset: 59403},
+									pos:  position{line: 1841, col: 17, offset: 59511},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1838, col: 5, offset: 59428},
+							pos:   position{line: 1842, col: 5, offset: 59536},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1838, col: 14, offset: 59437},
+								pos: position{line: 1842, col: 14, offset: 59545},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1838, col: 14, offset: 59437},
+										pos:  position{line: 1842, col: 14, offset: 59545},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1838, col: 33, offset: 59456},
+										pos:  position{line: 1842, col: 33, offset: 59564},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -41490,32 +41512,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1846, col: 1, offset: 59687},
+			pos:  position{line: 1850, col: 1, offset: 59795},
 			expr: &choiceExpr{
-				pos: position{line: 1847, col: 5, offset: 59712},
+				pos: position{line: 1851, col: 5, offset: 59820},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1847, col: 5, offset: 59712},
+						pos:  position{line: 1851, col: 5, offset: 59820},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1848, col: 7, offset: 59739},
+						pos:  position{line: 1852, col: 7, offset: 59847},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1849, col: 7, offset: 59767},
+						pos:  position{line: 1853, col: 7, offset: 59875},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1850, col: 7, offset: 59799},
+						pos:  position{line: 1854, col: 7, offset: 59907},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1851, col: 7, offset: 59827},
+						pos:  position{line: 1855, col: 7, offset: 59935},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1852, col: 7, offset: 59848},
+						pos:  position{line: 1856, col: 7, offset: 59956},
 						name: "SuperscriptText",
 					},
 				},
@@ -41523,24 +41545,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1854, col: 1, offset: 59866},
+			pos:  position{line: 1858, col: 1, offset: 59974},
 			expr: &choiceExpr{
-				pos: position{line: 1855, col: 5, offset: 59891},
+				pos: position{line: 1859, col: 5, offset: 59999},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1855, col: 5, offset: 59891},
+						pos:  position{line: 1859, col: 5, offset: 59999},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1856, col: 7, offset: 59917},
+						pos:  position{line: 1860, col: 7, offset: 60025},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1857, col: 7, offset: 59945},
+						pos:  position{line: 1861, col: 7, offset: 60053},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1858, col: 7, offset: 59976},
+						pos:  position{line: 1862, col: 7, offset: 60084},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -41548,26 +41570,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1872, col: 1, offset: 60330},
+			pos:  position{line: 1876, col: 1, offset: 60438},
 			expr: &choiceExpr{
-				pos: position{line: 1873, col: 5, offset: 60356},
+				pos: position{line: 1877, col: 5, offset: 60464},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2791, col: 5, offset: 88711},
+						pos: position{line: 2795, col: 5, offset: 88819},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2791, col: 5, offset: 88711},
+							pos: position{line: 2795, col: 5, offset: 88819},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2791, col: 5, offset: 88711},
+									pos:   position{line: 2795, col: 5, offset: 88819},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2791, col: 11, offset: 88717},
+										pos: position{line: 2795, col: 11, offset: 88825},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2791, col: 11, offset: 88717},
+											pos: position{line: 2795, col: 11, offset: 88825},
 											expr: &charClassMatcher{
-												pos:        position{line: 2791, col: 11, offset: 88717},
+												pos:        position{line: 2795, col: 11, offset: 88825},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41577,36 +41599,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2794, col: 5, offset: 88775},
+									pos: position{line: 2798, col: 5, offset: 88883},
 									expr: &seqExpr{
-										pos: position{line: 2795, col: 9, offset: 88786},
+										pos: position{line: 2799, col: 9, offset: 88894},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2795, col: 9, offset: 88786},
+												pos:        position{line: 2799, col: 9, offset: 88894},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2796, col: 9, offset: 88835},
+												pos: position{line: 2800, col: 9, offset: 88943},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2800, col: 5, offset: 88915},
+									pos: position{line: 2804, col: 5, offset: 89023},
 									expr: &seqExpr{
-										pos: position{line: 2801, col: 9, offset: 88926},
+										pos: position{line: 2805, col: 9, offset: 89034},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2801, col: 9, offset: 88926},
+												pos:        position{line: 2805, col: 9, offset: 89034},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2801, col: 13, offset: 88930},
+												pos:        position{line: 2805, col: 13, offset: 89038},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41619,12 +41641,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2896, col: 11, offset: 91530},
+						pos: position{line: 2900, col: 11, offset: 91638},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2896, col: 11, offset: 91530},
+							pos: position{line: 2900, col: 11, offset: 91638},
 							expr: &charClassMatcher{
-								pos:        position{line: 2896, col: 11, offset: 91530},
+								pos:        position{line: 2900, col: 11, offset: 91638},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -41633,29 +41655,29 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1875, col: 7, offset: 60419},
+						pos:  position{line: 1879, col: 7, offset: 60527},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2511, col: 5, offset: 80946},
+						pos: position{line: 2515, col: 5, offset: 81054},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2511, col: 5, offset: 80946},
+							pos: position{line: 2515, col: 5, offset: 81054},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2511, col: 5, offset: 80946},
+									pos: position{line: 2515, col: 5, offset: 81054},
 									run: (*parser).callonQuotedTextElement22,
 								},
 								&litMatcher{
-									pos:        position{line: 2514, col: 5, offset: 81017},
+									pos:        position{line: 2518, col: 5, offset: 81125},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2514, col: 10, offset: 81022},
+									pos: position{line: 2518, col: 10, offset: 81130},
 									expr: &charClassMatcher{
-										pos:        position{line: 2514, col: 11, offset: 81023},
+										pos:        position{line: 2518, col: 11, offset: 81131},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41666,29 +41688,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2520, col: 5, offset: 81215},
+						pos: position{line: 2524, col: 5, offset: 81323},
 						run: (*parser).callonQuotedTextElement26,
 						expr: &seqExpr{
-							pos: position{line: 2520, col: 5, offset: 81215},
+							pos: position{line: 2524, col: 5, offset: 81323},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2520, col: 5, offset: 81215},
+									pos: position{line: 2524, col: 5, offset: 81323},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&andCodeExpr{
-									pos: position{line: 2523, col: 5, offset: 81286},
+									pos: position{line: 2527, col: 5, offset: 81394},
 									run: (*parser).callonQuotedTextElement29,
 								},
 								&litMatcher{
-									pos:        position{line: 2527, col: 5, offset: 81411},
+									pos:        position{line: 2531, col: 5, offset: 81519},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2527, col: 9, offset: 81415},
+									pos: position{line: 2531, col: 9, offset: 81523},
 									expr: &charClassMatcher{
-										pos:        position{line: 2527, col: 10, offset: 81416},
+										pos:        position{line: 2531, col: 10, offset: 81524},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41699,27 +41721,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2809, col: 5, offset: 89123},
+						pos: position{line: 2813, col: 5, offset: 89231},
 						run: (*parser).callonQuotedTextElement33,
 						expr: &choiceExpr{
-							pos: position{line: 2810, col: 9, offset: 89133},
+							pos: position{line: 2814, col: 9, offset: 89241},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2810, col: 10, offset: 89134},
+									pos:        position{line: 2814, col: 10, offset: 89242},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2812, col: 13, offset: 89231},
+									pos: position{line: 2816, col: 13, offset: 89339},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2812, col: 13, offset: 89231},
+											pos: position{line: 2816, col: 13, offset: 89339},
 											run: (*parser).callonQuotedTextElement37,
 										},
 										&litMatcher{
-											pos:        position{line: 2815, col: 13, offset: 89331},
+											pos:        position{line: 2819, col: 13, offset: 89439},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -41727,20 +41749,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2815, col: 19, offset: 89337},
+									pos:        position{line: 2819, col: 19, offset: 89445},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2818, col: 13, offset: 89375},
+									pos: position{line: 2822, col: 13, offset: 89483},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2818, col: 13, offset: 89375},
+											pos: position{line: 2822, col: 13, offset: 89483},
 											run: (*parser).callonQuotedTextElement41,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2821, col: 14, offset: 89468},
+											pos:        position{line: 2825, col: 14, offset: 89576},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -41749,18 +41771,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2823, col: 12, offset: 89512},
+									pos: position{line: 2827, col: 12, offset: 89620},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2823, col: 12, offset: 89512},
+											pos:        position{line: 2827, col: 12, offset: 89620},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2823, col: 16, offset: 89516},
+											pos: position{line: 2827, col: 16, offset: 89624},
 											expr: &litMatcher{
-												pos:        position{line: 2823, col: 17, offset: 89517},
+												pos:        position{line: 2827, col: 17, offset: 89625},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -42118,31 +42140,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2905, col: 18, offset: 91740},
+						pos: position{line: 2909, col: 18, offset: 91848},
 						run: (*parser).callonQuotedTextElement116,
 						expr: &seqExpr{
-							pos: position{line: 2905, col: 18, offset: 91740},
+							pos: position{line: 2909, col: 18, offset: 91848},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2901, col: 12, offset: 91640},
+									pos: position{line: 2905, col: 12, offset: 91748},
 									run: (*parser).callonQuotedTextElement118,
 									expr: &choiceExpr{
-										pos: position{line: 2901, col: 13, offset: 91641},
+										pos: position{line: 2905, col: 13, offset: 91749},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2901, col: 13, offset: 91641},
+												pos:        position{line: 2905, col: 13, offset: 91749},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2901, col: 20, offset: 91648},
+												pos:        position{line: 2905, col: 20, offset: 91756},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2901, col: 29, offset: 91657},
+												pos:        position{line: 2905, col: 29, offset: 91765},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42151,27 +42173,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2905, col: 26, offset: 91748},
+									pos: position{line: 2909, col: 26, offset: 91856},
 									expr: &actionExpr{
-										pos: position{line: 2901, col: 12, offset: 91640},
+										pos: position{line: 2905, col: 12, offset: 91748},
 										run: (*parser).callonQuotedTextElement124,
 										expr: &choiceExpr{
-											pos: position{line: 2901, col: 13, offset: 91641},
+											pos: position{line: 2905, col: 13, offset: 91749},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2901, col: 13, offset: 91641},
+													pos:        position{line: 2905, col: 13, offset: 91749},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2901, col: 20, offset: 91648},
+													pos:        position{line: 2905, col: 20, offset: 91756},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2901, col: 29, offset: 91657},
+													pos:        position{line: 2905, col: 29, offset: 91765},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -42184,31 +42206,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1880, col: 7, offset: 60586},
+						pos:  position{line: 1884, col: 7, offset: 60694},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1881, col: 7, offset: 60633},
+						pos:  position{line: 1885, col: 7, offset: 60741},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2480, col: 5, offset: 79775},
+						pos: position{line: 2484, col: 5, offset: 79883},
 						run: (*parser).callonQuotedTextElement131,
 						expr: &seqExpr{
-							pos: position{line: 2480, col: 5, offset: 79775},
+							pos: position{line: 2484, col: 5, offset: 79883},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2480, col: 5, offset: 79775},
+									pos: position{line: 2484, col: 5, offset: 79883},
 									run: (*parser).callonQuotedTextElement133,
 								},
 								&labeledExpr{
-									pos:   position{line: 2483, col: 5, offset: 79851},
+									pos:   position{line: 2487, col: 5, offset: 79959},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2484, col: 9, offset: 79869},
+										pos: position{line: 2488, col: 9, offset: 79977},
 										run: (*parser).callonQuotedTextElement135,
 										expr: &charClassMatcher{
-											pos:        position{line: 2484, col: 10, offset: 79870},
+											pos:        position{line: 2488, col: 10, offset: 79978},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -42220,27 +42242,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1220, col: 23, offset: 37720},
+						pos: position{line: 1224, col: 23, offset: 37828},
 						run: (*parser).callonQuotedTextElement137,
 						expr: &seqExpr{
-							pos: position{line: 1220, col: 23, offset: 37720},
+							pos: position{line: 1224, col: 23, offset: 37828},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1218, col: 32, offset: 37688},
+									pos:        position{line: 1222, col: 32, offset: 37796},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1220, col: 51, offset: 37748},
+									pos:   position{line: 1224, col: 51, offset: 37856},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1220, col: 56, offset: 37753},
+										pos: position{line: 1224, col: 56, offset: 37861},
 										run: (*parser).callonQuotedTextElement141,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1220, col: 56, offset: 37753},
+											pos: position{line: 1224, col: 56, offset: 37861},
 											expr: &charClassMatcher{
-												pos:        position{line: 1220, col: 56, offset: 37753},
+												pos:        position{line: 1224, col: 56, offset: 37861},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -42250,7 +42272,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1218, col: 32, offset: 37688},
+									pos:        position{line: 1222, col: 32, offset: 37796},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
@@ -42259,10 +42281,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2831, col: 12, offset: 89777},
+						pos: position{line: 2835, col: 12, offset: 89885},
 						run: (*parser).callonQuotedTextElement145,
 						expr: &charClassMatcher{
-							pos:        position{line: 2831, col: 12, offset: 89777},
+							pos:        position{line: 2835, col: 12, offset: 89885},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -42274,29 +42296,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1899, col: 1, offset: 61103},
+			pos:  position{line: 1903, col: 1, offset: 61211},
 			expr: &actionExpr{
-				pos: position{line: 1900, col: 5, offset: 61131},
+				pos: position{line: 1904, col: 5, offset: 61239},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1900, col: 5, offset: 61131},
+					pos: position{line: 1904, col: 5, offset: 61239},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1895, col: 38, offset: 61056},
+							pos:        position{line: 1899, col: 38, offset: 61164},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1901, col: 5, offset: 61170},
+							pos:   position{line: 1905, col: 5, offset: 61278},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1901, col: 15, offset: 61180},
+								pos:  position{line: 1905, col: 15, offset: 61288},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1897, col: 36, offset: 61097},
+							pos:        position{line: 1901, col: 36, offset: 61205},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -42307,44 +42329,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1906, col: 1, offset: 61340},
+			pos:  position{line: 1910, col: 1, offset: 61448},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1906, col: 32, offset: 61371},
+				pos: position{line: 1910, col: 32, offset: 61479},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1906, col: 32, offset: 61371},
+					pos:  position{line: 1910, col: 32, offset: 61479},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1908, col: 1, offset: 61402},
+			pos:  position{line: 1912, col: 1, offset: 61510},
 			expr: &actionExpr{
-				pos: position{line: 1909, col: 5, offset: 61437},
+				pos: position{line: 1913, col: 5, offset: 61545},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1909, col: 5, offset: 61437},
+					pos: position{line: 1913, col: 5, offset: 61545},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2909, col: 11, offset: 91803},
+							pos: position{line: 2913, col: 11, offset: 91911},
 							expr: &anyMatcher{
-								line: 2909, col: 13, offset: 91805,
+								line: 2913, col: 13, offset: 91913,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1910, col: 5, offset: 61448},
+							pos: position{line: 1914, col: 5, offset: 61556},
 							expr: &litMatcher{
-								pos:        position{line: 1897, col: 36, offset: 61097},
+								pos:        position{line: 1901, col: 36, offset: 61205},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1911, col: 5, offset: 61485},
+							pos:   position{line: 1915, col: 5, offset: 61593},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1911, col: 14, offset: 61494},
+								pos:  position{line: 1915, col: 14, offset: 61602},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42354,29 +42376,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1936, col: 1, offset: 62174},
+			pos:  position{line: 1940, col: 1, offset: 62282},
 			expr: &actionExpr{
-				pos: position{line: 1937, col: 5, offset: 62202},
+				pos: position{line: 1941, col: 5, offset: 62310},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1937, col: 5, offset: 62202},
+					pos: position{line: 1941, col: 5, offset: 62310},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1920, col: 5, offset: 61728},
+							pos:        position{line: 1924, col: 5, offset: 61836},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1921, col: 5, offset: 61737},
+							pos: position{line: 1925, col: 5, offset: 61845},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1925, col: 5, offset: 61855},
+							pos: position{line: 1929, col: 5, offset: 61963},
 							expr: &notExpr{
-								pos: position{line: 1925, col: 7, offset: 61857},
+								pos: position{line: 1929, col: 7, offset: 61965},
 								expr: &litMatcher{
-									pos:        position{line: 1925, col: 8, offset: 61858},
+									pos:        position{line: 1929, col: 8, offset: 61966},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42384,38 +42406,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1938, col: 5, offset: 62240},
+							pos:   position{line: 1942, col: 5, offset: 62348},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1938, col: 15, offset: 62250},
+								pos:  position{line: 1942, col: 15, offset: 62358},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1928, col: 5, offset: 61978},
+							pos:        position{line: 1932, col: 5, offset: 62086},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1929, col: 5, offset: 61987},
+							pos: position{line: 1933, col: 5, offset: 62095},
 							expr: &litMatcher{
-								pos:        position{line: 1929, col: 6, offset: 61988},
+								pos:        position{line: 1933, col: 6, offset: 62096},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1930, col: 5, offset: 62051},
+							pos: position{line: 1934, col: 5, offset: 62159},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1934, col: 5, offset: 62160},
+							pos: position{line: 1938, col: 5, offset: 62268},
 							expr: &notExpr{
-								pos: position{line: 1934, col: 7, offset: 62162},
+								pos: position{line: 1938, col: 7, offset: 62270},
 								expr: &charClassMatcher{
-									pos:        position{line: 2782, col: 13, offset: 88564},
+									pos:        position{line: 2786, col: 13, offset: 88672},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42429,20 +42451,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1943, col: 1, offset: 62410},
+			pos:  position{line: 1947, col: 1, offset: 62518},
 			expr: &actionExpr{
-				pos: position{line: 1944, col: 5, offset: 62447},
+				pos: position{line: 1948, col: 5, offset: 62555},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1944, col: 5, offset: 62447},
+					pos: position{line: 1948, col: 5, offset: 62555},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1944, col: 5, offset: 62447},
+							pos: position{line: 1948, col: 5, offset: 62555},
 							expr: &actionExpr{
-								pos: position{line: 2892, col: 10, offset: 91469},
+								pos: position{line: 2896, col: 10, offset: 91577},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2892, col: 10, offset: 91469},
+									pos:        position{line: 2896, col: 10, offset: 91577},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42451,18 +42473,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1945, col: 5, offset: 62486},
+							pos:   position{line: 1949, col: 5, offset: 62594},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1945, col: 14, offset: 62495},
+								pos: position{line: 1949, col: 14, offset: 62603},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1945, col: 15, offset: 62496},
+									pos:  position{line: 1949, col: 15, offset: 62604},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1946, col: 5, offset: 62530},
+							pos: position{line: 1950, col: 5, offset: 62638},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -42471,49 +42493,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1952, col: 1, offset: 62671},
+			pos:  position{line: 1956, col: 1, offset: 62779},
 			expr: &actionExpr{
-				pos: position{line: 1953, col: 5, offset: 62706},
+				pos: position{line: 1957, col: 5, offset: 62814},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1953, col: 5, offset: 62706},
+					pos: position{line: 1957, col: 5, offset: 62814},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2909, col: 11, offset: 91803},
+							pos: position{line: 2913, col: 11, offset: 91911},
 							expr: &anyMatcher{
-								line: 2909, col: 13, offset: 91805,
+								line: 2913, col: 13, offset: 91913,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1954, col: 5, offset: 62734},
+							pos: position{line: 1958, col: 5, offset: 62842},
 							expr: &seqExpr{
-								pos: position{line: 1928, col: 5, offset: 61978},
+								pos: position{line: 1932, col: 5, offset: 62086},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1928, col: 5, offset: 61978},
+										pos:        position{line: 1932, col: 5, offset: 62086},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1929, col: 5, offset: 61987},
+										pos: position{line: 1933, col: 5, offset: 62095},
 										expr: &litMatcher{
-											pos:        position{line: 1929, col: 6, offset: 61988},
+											pos:        position{line: 1933, col: 6, offset: 62096},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1930, col: 5, offset: 62051},
+										pos: position{line: 1934, col: 5, offset: 62159},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1934, col: 5, offset: 62160},
+										pos: position{line: 1938, col: 5, offset: 62268},
 										expr: &notExpr{
-											pos: position{line: 1934, col: 7, offset: 62162},
+											pos: position{line: 1938, col: 7, offset: 62270},
 											expr: &charClassMatcher{
-												pos:        position{line: 2782, col: 13, offset: 88564},
+												pos:        position{line: 2786, col: 13, offset: 88672},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42525,10 +42547,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1955, col: 5, offset: 62771},
+							pos:   position{line: 1959, col: 5, offset: 62879},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1955, col: 14, offset: 62780},
+								pos:  position{line: 1959, col: 14, offset: 62888},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42538,35 +42560,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1960, col: 1, offset: 62868},
+			pos:  position{line: 1964, col: 1, offset: 62976},
 			expr: &choiceExpr{
-				pos: position{line: 1962, col: 5, offset: 62929},
+				pos: position{line: 1966, col: 5, offset: 63037},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1962, col: 5, offset: 62929},
+						pos: position{line: 1966, col: 5, offset: 63037},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1962, col: 5, offset: 62929},
+							pos: position{line: 1966, col: 5, offset: 63037},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1962, col: 5, offset: 62929},
+									pos:   position{line: 1966, col: 5, offset: 63037},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1868, col: 25, offset: 60276},
+										pos: position{line: 1872, col: 25, offset: 60384},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1868, col: 25, offset: 60276},
+											pos: position{line: 1872, col: 25, offset: 60384},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1868, col: 25, offset: 60276},
+													pos:        position{line: 1872, col: 25, offset: 60384},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1868, col: 30, offset: 60281},
+													pos: position{line: 1872, col: 30, offset: 60389},
 													expr: &litMatcher{
-														pos:        position{line: 1868, col: 30, offset: 60281},
+														pos:        position{line: 1872, col: 30, offset: 60389},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42577,21 +42599,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1962, col: 40, offset: 62964},
+									pos:        position{line: 1966, col: 40, offset: 63072},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1962, col: 45, offset: 62969},
+									pos:   position{line: 1966, col: 45, offset: 63077},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1962, col: 55, offset: 62979},
+										pos:  position{line: 1966, col: 55, offset: 63087},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1962, col: 84, offset: 63008},
+									pos:        position{line: 1966, col: 84, offset: 63116},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -42600,21 +42622,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1966, col: 7, offset: 63172},
+						pos: position{line: 1970, col: 7, offset: 63280},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1966, col: 7, offset: 63172},
+							pos: position{line: 1970, col: 7, offset: 63280},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1966, col: 7, offset: 63172},
+									pos:   position{line: 1970, col: 7, offset: 63280},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1864, col: 25, offset: 60203},
+										pos: position{line: 1868, col: 25, offset: 60311},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1864, col: 25, offset: 60203},
+											pos: position{line: 1868, col: 25, offset: 60311},
 											expr: &litMatcher{
-												pos:        position{line: 1864, col: 25, offset: 60203},
+												pos:        position{line: 1868, col: 25, offset: 60311},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42623,21 +42645,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1966, col: 42, offset: 63207},
+									pos:        position{line: 1970, col: 42, offset: 63315},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1966, col: 47, offset: 63212},
+									pos:   position{line: 1970, col: 47, offset: 63320},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1966, col: 57, offset: 63222},
+										pos:  position{line: 1970, col: 57, offset: 63330},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1966, col: 86, offset: 63251},
+									pos:        position{line: 1970, col: 86, offset: 63359},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42646,21 +42668,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1971, col: 7, offset: 63453},
+						pos: position{line: 1975, col: 7, offset: 63561},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1971, col: 7, offset: 63453},
+							pos: position{line: 1975, col: 7, offset: 63561},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1971, col: 7, offset: 63453},
+									pos:   position{line: 1975, col: 7, offset: 63561},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1864, col: 25, offset: 60203},
+										pos: position{line: 1868, col: 25, offset: 60311},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1864, col: 25, offset: 60203},
+											pos: position{line: 1868, col: 25, offset: 60311},
 											expr: &litMatcher{
-												pos:        position{line: 1864, col: 25, offset: 60203},
+												pos:        position{line: 1868, col: 25, offset: 60311},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42669,21 +42691,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1971, col: 42, offset: 63488},
+									pos:        position{line: 1975, col: 42, offset: 63596},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1971, col: 46, offset: 63492},
+									pos:   position{line: 1975, col: 46, offset: 63600},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1971, col: 56, offset: 63502},
+										pos:  position{line: 1975, col: 56, offset: 63610},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1971, col: 85, offset: 63531},
+									pos:        position{line: 1975, col: 85, offset: 63639},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42696,29 +42718,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1988, col: 1, offset: 64011},
+			pos:  position{line: 1992, col: 1, offset: 64119},
 			expr: &actionExpr{
-				pos: position{line: 1989, col: 5, offset: 64041},
+				pos: position{line: 1993, col: 5, offset: 64149},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1989, col: 5, offset: 64041},
+					pos: position{line: 1993, col: 5, offset: 64149},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1984, col: 40, offset: 63962},
+							pos:        position{line: 1988, col: 40, offset: 64070},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1990, col: 5, offset: 64082},
+							pos:   position{line: 1994, col: 5, offset: 64190},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1990, col: 15, offset: 64092},
+								pos:  position{line: 1994, col: 15, offset: 64200},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1986, col: 38, offset: 64005},
+							pos:        position{line: 1990, col: 38, offset: 64113},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -42729,44 +42751,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1995, col: 1, offset: 64257},
+			pos:  position{line: 1999, col: 1, offset: 64365},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1995, col: 34, offset: 64290},
+				pos: position{line: 1999, col: 34, offset: 64398},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1995, col: 34, offset: 64290},
+					pos:  position{line: 1999, col: 34, offset: 64398},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 1997, col: 1, offset: 64322},
+			pos:  position{line: 2001, col: 1, offset: 64430},
 			expr: &actionExpr{
-				pos: position{line: 1998, col: 5, offset: 64359},
+				pos: position{line: 2002, col: 5, offset: 64467},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1998, col: 5, offset: 64359},
+					pos: position{line: 2002, col: 5, offset: 64467},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2909, col: 11, offset: 91803},
+							pos: position{line: 2913, col: 11, offset: 91911},
 							expr: &anyMatcher{
-								line: 2909, col: 13, offset: 91805,
+								line: 2913, col: 13, offset: 91913,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1999, col: 5, offset: 64370},
+							pos: position{line: 2003, col: 5, offset: 64478},
 							expr: &litMatcher{
-								pos:        position{line: 1986, col: 38, offset: 64005},
+								pos:        position{line: 1990, col: 38, offset: 64113},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2000, col: 5, offset: 64409},
+							pos:   position{line: 2004, col: 5, offset: 64517},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2000, col: 14, offset: 64418},
+								pos:  position{line: 2004, col: 14, offset: 64526},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42776,29 +42798,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2026, col: 1, offset: 65102},
+			pos:  position{line: 2030, col: 1, offset: 65210},
 			expr: &actionExpr{
-				pos: position{line: 2027, col: 5, offset: 65132},
+				pos: position{line: 2031, col: 5, offset: 65240},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2027, col: 5, offset: 65132},
+					pos: position{line: 2031, col: 5, offset: 65240},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2009, col: 5, offset: 64660},
+							pos:        position{line: 2013, col: 5, offset: 64768},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2010, col: 5, offset: 64669},
+							pos: position{line: 2014, col: 5, offset: 64777},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2014, col: 5, offset: 64789},
+							pos: position{line: 2018, col: 5, offset: 64897},
 							expr: &notExpr{
-								pos: position{line: 2014, col: 7, offset: 64791},
+								pos: position{line: 2018, col: 7, offset: 64899},
 								expr: &litMatcher{
-									pos:        position{line: 2014, col: 8, offset: 64792},
+									pos:        position{line: 2018, col: 8, offset: 64900},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42806,38 +42828,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2028, col: 5, offset: 65172},
+							pos:   position{line: 2032, col: 5, offset: 65280},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2028, col: 15, offset: 65182},
+								pos:  position{line: 2032, col: 15, offset: 65290},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2018, col: 5, offset: 64902},
+							pos:        position{line: 2022, col: 5, offset: 65010},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2019, col: 5, offset: 64911},
+							pos: position{line: 2023, col: 5, offset: 65019},
 							expr: &litMatcher{
-								pos:        position{line: 2019, col: 6, offset: 64912},
+								pos:        position{line: 2023, col: 6, offset: 65020},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2020, col: 5, offset: 64977},
+							pos: position{line: 2024, col: 5, offset: 65085},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2024, col: 5, offset: 65088},
+							pos: position{line: 2028, col: 5, offset: 65196},
 							expr: &notExpr{
-								pos: position{line: 2024, col: 7, offset: 65090},
+								pos: position{line: 2028, col: 7, offset: 65198},
 								expr: &charClassMatcher{
-									pos:        position{line: 2782, col: 13, offset: 88564},
+									pos:        position{line: 2786, col: 13, offset: 88672},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42851,20 +42873,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2033, col: 1, offset: 65349},
+			pos:  position{line: 2037, col: 1, offset: 65457},
 			expr: &actionExpr{
-				pos: position{line: 2034, col: 5, offset: 65387},
+				pos: position{line: 2038, col: 5, offset: 65495},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2034, col: 5, offset: 65387},
+					pos: position{line: 2038, col: 5, offset: 65495},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2034, col: 5, offset: 65387},
+							pos: position{line: 2038, col: 5, offset: 65495},
 							expr: &actionExpr{
-								pos: position{line: 2892, col: 10, offset: 91469},
+								pos: position{line: 2896, col: 10, offset: 91577},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2892, col: 10, offset: 91469},
+									pos:        position{line: 2896, col: 10, offset: 91577},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42873,18 +42895,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2035, col: 5, offset: 65426},
+							pos:   position{line: 2039, col: 5, offset: 65534},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2035, col: 14, offset: 65435},
+								pos: position{line: 2039, col: 14, offset: 65543},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2035, col: 15, offset: 65436},
+									pos:  position{line: 2039, col: 15, offset: 65544},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2036, col: 5, offset: 65471},
+							pos: position{line: 2040, col: 5, offset: 65579},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -42893,49 +42915,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2042, col: 1, offset: 65612},
+			pos:  position{line: 2046, col: 1, offset: 65720},
 			expr: &actionExpr{
-				pos: position{line: 2043, col: 5, offset: 65649},
+				pos: position{line: 2047, col: 5, offset: 65757},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2043, col: 5, offset: 65649},
+					pos: position{line: 2047, col: 5, offset: 65757},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2909, col: 11, offset: 91803},
+							pos: position{line: 2913, col: 11, offset: 91911},
 							expr: &anyMatcher{
-								line: 2909, col: 13, offset: 91805,
+								line: 2913, col: 13, offset: 91913,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2044, col: 5, offset: 65660},
+							pos: position{line: 2048, col: 5, offset: 65768},
 							expr: &seqExpr{
-								pos: position{line: 2018, col: 5, offset: 64902},
+								pos: position{line: 2022, col: 5, offset: 65010},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2018, col: 5, offset: 64902},
+										pos:        position{line: 2022, col: 5, offset: 65010},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2019, col: 5, offset: 64911},
+										pos: position{line: 2023, col: 5, offset: 65019},
 										expr: &litMatcher{
-											pos:        position{line: 2019, col: 6, offset: 64912},
+											pos:        position{line: 2023, col: 6, offset: 65020},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2020, col: 5, offset: 64977},
+										pos: position{line: 2024, col: 5, offset: 65085},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2024, col: 5, offset: 65088},
+										pos: position{line: 2028, col: 5, offset: 65196},
 										expr: &notExpr{
-											pos: position{line: 2024, col: 7, offset: 65090},
+											pos: position{line: 2028, col: 7, offset: 65198},
 											expr: &charClassMatcher{
-												pos:        position{line: 2782, col: 13, offset: 88564},
+												pos:        position{line: 2786, col: 13, offset: 88672},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42947,10 +42969,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2045, col: 5, offset: 65699},
+							pos:   position{line: 2049, col: 5, offset: 65807},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2045, col: 14, offset: 65708},
+								pos:  position{line: 2049, col: 14, offset: 65816},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42960,35 +42982,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2050, col: 1, offset: 65796},
+			pos:  position{line: 2054, col: 1, offset: 65904},
 			expr: &choiceExpr{
-				pos: position{line: 2052, col: 5, offset: 65861},
+				pos: position{line: 2056, col: 5, offset: 65969},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2052, col: 5, offset: 65861},
+						pos: position{line: 2056, col: 5, offset: 65969},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2052, col: 5, offset: 65861},
+							pos: position{line: 2056, col: 5, offset: 65969},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2052, col: 5, offset: 65861},
+									pos:   position{line: 2056, col: 5, offset: 65969},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1868, col: 25, offset: 60276},
+										pos: position{line: 1872, col: 25, offset: 60384},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1868, col: 25, offset: 60276},
+											pos: position{line: 1872, col: 25, offset: 60384},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1868, col: 25, offset: 60276},
+													pos:        position{line: 1872, col: 25, offset: 60384},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1868, col: 30, offset: 60281},
+													pos: position{line: 1872, col: 30, offset: 60389},
 													expr: &litMatcher{
-														pos:        position{line: 1868, col: 30, offset: 60281},
+														pos:        position{line: 1872, col: 30, offset: 60389},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42999,21 +43021,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2052, col: 40, offset: 65896},
+									pos:        position{line: 2056, col: 40, offset: 66004},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2052, col: 45, offset: 65901},
+									pos:   position{line: 2056, col: 45, offset: 66009},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2052, col: 55, offset: 65911},
+										pos:  position{line: 2056, col: 55, offset: 66019},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2052, col: 86, offset: 65942},
+									pos:        position{line: 2056, col: 86, offset: 66050},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -43022,21 +43044,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2056, col: 7, offset: 66107},
+						pos: position{line: 2060, col: 7, offset: 66215},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2056, col: 7, offset: 66107},
+							pos: position{line: 2060, col: 7, offset: 66215},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2056, col: 7, offset: 66107},
+									pos:   position{line: 2060, col: 7, offset: 66215},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1864, col: 25, offset: 60203},
+										pos: position{line: 1868, col: 25, offset: 60311},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1864, col: 25, offset: 60203},
+											pos: position{line: 1868, col: 25, offset: 60311},
 											expr: &litMatcher{
-												pos:        position{line: 1864, col: 25, offset: 60203},
+												pos:        position{line: 1868, col: 25, offset: 60311},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43045,21 +43067,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2056, col: 42, offset: 66142},
+									pos:        position{line: 2060, col: 42, offset: 66250},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2056, col: 47, offset: 66147},
+									pos:   position{line: 2060, col: 47, offset: 66255},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2056, col: 57, offset: 66157},
+										pos:  position{line: 2060, col: 57, offset: 66265},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2056, col: 88, offset: 66188},
+									pos:        position{line: 2060, col: 88, offset: 66296},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43068,21 +43090,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2061, col: 7, offset: 66429},
+						pos: position{line: 2065, col: 7, offset: 66537},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2061, col: 7, offset: 66429},
+							pos: position{line: 2065, col: 7, offset: 66537},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2061, col: 7, offset: 66429},
+									pos:   position{line: 2065, col: 7, offset: 66537},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1864, col: 25, offset: 60203},
+										pos: position{line: 1868, col: 25, offset: 60311},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1864, col: 25, offset: 60203},
+											pos: position{line: 1868, col: 25, offset: 60311},
 											expr: &litMatcher{
-												pos:        position{line: 1864, col: 25, offset: 60203},
+												pos:        position{line: 1868, col: 25, offset: 60311},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43091,21 +43113,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2061, col: 42, offset: 66464},
+									pos:        position{line: 2065, col: 42, offset: 66572},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2061, col: 46, offset: 66468},
+									pos:   position{line: 2065, col: 46, offset: 66576},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2061, col: 56, offset: 66478},
+										pos:  position{line: 2065, col: 56, offset: 66586},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2061, col: 87, offset: 66509},
+									pos:        position{line: 2065, col: 87, offset: 66617},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43118,29 +43140,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2078, col: 1, offset: 67073},
+			pos:  position{line: 2082, col: 1, offset: 67181},
 			expr: &actionExpr{
-				pos: position{line: 2079, col: 5, offset: 67106},
+				pos: position{line: 2083, col: 5, offset: 67214},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2079, col: 5, offset: 67106},
+					pos: position{line: 2083, col: 5, offset: 67214},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2074, col: 43, offset: 67021},
+							pos:        position{line: 2078, col: 43, offset: 67129},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2080, col: 5, offset: 67150},
+							pos:   position{line: 2084, col: 5, offset: 67258},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2080, col: 15, offset: 67160},
+								pos:  position{line: 2084, col: 15, offset: 67268},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2076, col: 41, offset: 67067},
+							pos:        position{line: 2080, col: 41, offset: 67175},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -43151,44 +43173,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2085, col: 1, offset: 67335},
+			pos:  position{line: 2089, col: 1, offset: 67443},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2085, col: 37, offset: 67371},
+				pos: position{line: 2089, col: 37, offset: 67479},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2085, col: 37, offset: 67371},
+					pos:  position{line: 2089, col: 37, offset: 67479},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2087, col: 1, offset: 67438},
+			pos:  position{line: 2091, col: 1, offset: 67546},
 			expr: &actionExpr{
-				pos: position{line: 2088, col: 5, offset: 67478},
+				pos: position{line: 2092, col: 5, offset: 67586},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2088, col: 5, offset: 67478},
+					pos: position{line: 2092, col: 5, offset: 67586},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2909, col: 11, offset: 91803},
+							pos: position{line: 2913, col: 11, offset: 91911},
 							expr: &anyMatcher{
-								line: 2909, col: 13, offset: 91805,
+								line: 2913, col: 13, offset: 91913,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2089, col: 5, offset: 67489},
+							pos: position{line: 2093, col: 5, offset: 67597},
 							expr: &litMatcher{
-								pos:        position{line: 2076, col: 41, offset: 67067},
+								pos:        position{line: 2080, col: 41, offset: 67175},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2090, col: 5, offset: 67531},
+							pos:   position{line: 2094, col: 5, offset: 67639},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2090, col: 14, offset: 67540},
+								pos:  position{line: 2094, col: 14, offset: 67648},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43198,33 +43220,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2108, col: 1, offset: 68082},
+			pos:  position{line: 2112, col: 1, offset: 68190},
 			expr: &seqExpr{
-				pos: position{line: 2109, col: 5, offset: 68127},
+				pos: position{line: 2113, col: 5, offset: 68235},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2109, col: 5, offset: 68127},
+						pos: position{line: 2113, col: 5, offset: 68235},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2109, col: 6, offset: 68128},
+							pos:  position{line: 2113, col: 6, offset: 68236},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2110, col: 5, offset: 68147},
+						pos:        position{line: 2114, col: 5, offset: 68255},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2111, col: 5, offset: 68155},
+						pos: position{line: 2115, col: 5, offset: 68263},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2115, col: 5, offset: 68269},
+						pos: position{line: 2119, col: 5, offset: 68377},
 						expr: &notExpr{
-							pos: position{line: 2115, col: 7, offset: 68271},
+							pos: position{line: 2119, col: 7, offset: 68379},
 							expr: &charClassMatcher{
-								pos:        position{line: 2782, col: 13, offset: 88564},
+								pos:        position{line: 2786, col: 13, offset: 88672},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -43237,29 +43259,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2118, col: 1, offset: 68288},
+			pos:  position{line: 2122, col: 1, offset: 68396},
 			expr: &actionExpr{
-				pos: position{line: 2119, col: 5, offset: 68321},
+				pos: position{line: 2123, col: 5, offset: 68429},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2119, col: 5, offset: 68321},
+					pos: position{line: 2123, col: 5, offset: 68429},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2101, col: 5, offset: 67884},
+							pos:        position{line: 2105, col: 5, offset: 67992},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2102, col: 5, offset: 67893},
+							pos: position{line: 2106, col: 5, offset: 68001},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2106, col: 5, offset: 68016},
+							pos: position{line: 2110, col: 5, offset: 68124},
 							expr: &notExpr{
-								pos: position{line: 2106, col: 7, offset: 68018},
+								pos: position{line: 2110, col: 7, offset: 68126},
 								expr: &litMatcher{
-									pos:        position{line: 2106, col: 8, offset: 68019},
+									pos:        position{line: 2110, col: 8, offset: 68127},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43267,15 +43289,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2120, col: 5, offset: 68365},
+							pos:   position{line: 2124, col: 5, offset: 68473},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2120, col: 15, offset: 68375},
+								pos:  position{line: 2124, col: 15, offset: 68483},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2121, col: 5, offset: 68414},
+							pos:  position{line: 2125, col: 5, offset: 68522},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -43284,20 +43306,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2125, col: 1, offset: 68551},
+			pos:  position{line: 2129, col: 1, offset: 68659},
 			expr: &actionExpr{
-				pos: position{line: 2126, col: 5, offset: 68592},
+				pos: position{line: 2130, col: 5, offset: 68700},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2126, col: 5, offset: 68592},
+					pos: position{line: 2130, col: 5, offset: 68700},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2126, col: 5, offset: 68592},
+							pos: position{line: 2130, col: 5, offset: 68700},
 							expr: &actionExpr{
-								pos: position{line: 2892, col: 10, offset: 91469},
+								pos: position{line: 2896, col: 10, offset: 91577},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2892, col: 10, offset: 91469},
+									pos:        position{line: 2896, col: 10, offset: 91577},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43306,18 +43328,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2127, col: 5, offset: 68631},
+							pos:   position{line: 2131, col: 5, offset: 68739},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2127, col: 14, offset: 68640},
+								pos: position{line: 2131, col: 14, offset: 68748},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2127, col: 15, offset: 68641},
+									pos:  position{line: 2131, col: 15, offset: 68749},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2128, col: 5, offset: 68679},
+							pos: position{line: 2132, col: 5, offset: 68787},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -43326,31 +43348,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2134, col: 1, offset: 68820},
+			pos:  position{line: 2138, col: 1, offset: 68928},
 			expr: &actionExpr{
-				pos: position{line: 2135, col: 5, offset: 68860},
+				pos: position{line: 2139, col: 5, offset: 68968},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2135, col: 5, offset: 68860},
+					pos: position{line: 2139, col: 5, offset: 68968},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2909, col: 11, offset: 91803},
+							pos: position{line: 2913, col: 11, offset: 91911},
 							expr: &anyMatcher{
-								line: 2909, col: 13, offset: 91805,
+								line: 2913, col: 13, offset: 91913,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2136, col: 5, offset: 68871},
+							pos: position{line: 2140, col: 5, offset: 68979},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2136, col: 6, offset: 68872},
+								pos:  position{line: 2140, col: 6, offset: 68980},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2137, col: 5, offset: 68913},
+							pos:   position{line: 2141, col: 5, offset: 69021},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2137, col: 14, offset: 68922},
+								pos:  position{line: 2141, col: 14, offset: 69030},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43360,35 +43382,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2142, col: 1, offset: 69010},
+			pos:  position{line: 2146, col: 1, offset: 69118},
 			expr: &choiceExpr{
-				pos: position{line: 2144, col: 5, offset: 69081},
+				pos: position{line: 2148, col: 5, offset: 69189},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2144, col: 5, offset: 69081},
+						pos: position{line: 2148, col: 5, offset: 69189},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2144, col: 5, offset: 69081},
+							pos: position{line: 2148, col: 5, offset: 69189},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2144, col: 5, offset: 69081},
+									pos:   position{line: 2148, col: 5, offset: 69189},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1868, col: 25, offset: 60276},
+										pos: position{line: 1872, col: 25, offset: 60384},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1868, col: 25, offset: 60276},
+											pos: position{line: 1872, col: 25, offset: 60384},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1868, col: 25, offset: 60276},
+													pos:        position{line: 1872, col: 25, offset: 60384},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1868, col: 30, offset: 60281},
+													pos: position{line: 1872, col: 30, offset: 60389},
 													expr: &litMatcher{
-														pos:        position{line: 1868, col: 30, offset: 60281},
+														pos:        position{line: 1872, col: 30, offset: 60389},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43399,21 +43421,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2144, col: 40, offset: 69116},
+									pos:        position{line: 2148, col: 40, offset: 69224},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2144, col: 45, offset: 69121},
+									pos:   position{line: 2148, col: 45, offset: 69229},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2144, col: 55, offset: 69131},
+										pos:  position{line: 2148, col: 55, offset: 69239},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2144, col: 89, offset: 69165},
+									pos:        position{line: 2148, col: 89, offset: 69273},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -43422,21 +43444,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2148, col: 7, offset: 69334},
+						pos: position{line: 2152, col: 7, offset: 69442},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2148, col: 7, offset: 69334},
+							pos: position{line: 2152, col: 7, offset: 69442},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2148, col: 7, offset: 69334},
+									pos:   position{line: 2152, col: 7, offset: 69442},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1864, col: 25, offset: 60203},
+										pos: position{line: 1868, col: 25, offset: 60311},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1864, col: 25, offset: 60203},
+											pos: position{line: 1868, col: 25, offset: 60311},
 											expr: &litMatcher{
-												pos:        position{line: 1864, col: 25, offset: 60203},
+												pos:        position{line: 1868, col: 25, offset: 60311},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43445,21 +43467,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2148, col: 42, offset: 69369},
+									pos:        position{line: 2152, col: 42, offset: 69477},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2148, col: 47, offset: 69374},
+									pos:   position{line: 2152, col: 47, offset: 69482},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2148, col: 57, offset: 69384},
+										pos:  position{line: 2152, col: 57, offset: 69492},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2148, col: 91, offset: 69418},
+									pos:        position{line: 2152, col: 91, offset: 69526},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43468,21 +43490,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2153, col: 7, offset: 69624},
+						pos: position{line: 2157, col: 7, offset: 69732},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2153, col: 7, offset: 69624},
+							pos: position{line: 2157, col: 7, offset: 69732},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2153, col: 7, offset: 69624},
+									pos:   position{line: 2157, col: 7, offset: 69732},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1864, col: 25, offset: 60203},
+										pos: position{line: 1868, col: 25, offset: 60311},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1864, col: 25, offset: 60203},
+											pos: position{line: 1868, col: 25, offset: 60311},
 											expr: &litMatcher{
-												pos:        position{line: 1864, col: 25, offset: 60203},
+												pos:        position{line: 1868, col: 25, offset: 60311},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43491,21 +43513,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2153, col: 42, offset: 69659},
+									pos:        position{line: 2157, col: 42, offset: 69767},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2153, col: 46, offset: 69663},
+									pos:   position{line: 2157, col: 46, offset: 69771},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2153, col: 56, offset: 69673},
+										pos:  position{line: 2157, col: 56, offset: 69781},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2153, col: 90, offset: 69707},
+									pos:        position{line: 2157, col: 90, offset: 69815},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43518,29 +43540,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2170, col: 1, offset: 70192},
+			pos:  position{line: 2174, col: 1, offset: 70300},
 			expr: &actionExpr{
-				pos: position{line: 2171, col: 5, offset: 70222},
+				pos: position{line: 2175, col: 5, offset: 70330},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2171, col: 5, offset: 70222},
+					pos: position{line: 2175, col: 5, offset: 70330},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2166, col: 40, offset: 70143},
+							pos:        position{line: 2170, col: 40, offset: 70251},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2172, col: 5, offset: 70263},
+							pos:   position{line: 2176, col: 5, offset: 70371},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2172, col: 15, offset: 70273},
+								pos:  position{line: 2176, col: 15, offset: 70381},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2168, col: 38, offset: 70186},
+							pos:        position{line: 2172, col: 38, offset: 70294},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -43551,44 +43573,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2177, col: 1, offset: 70439},
+			pos:  position{line: 2181, col: 1, offset: 70547},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2177, col: 34, offset: 70472},
+				pos: position{line: 2181, col: 34, offset: 70580},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2177, col: 34, offset: 70472},
+					pos:  position{line: 2181, col: 34, offset: 70580},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2179, col: 1, offset: 70503},
+			pos:  position{line: 2183, col: 1, offset: 70611},
 			expr: &actionExpr{
-				pos: position{line: 2180, col: 5, offset: 70572},
+				pos: position{line: 2184, col: 5, offset: 70680},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2180, col: 5, offset: 70572},
+					pos: position{line: 2184, col: 5, offset: 70680},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2909, col: 11, offset: 91803},
+							pos: position{line: 2913, col: 11, offset: 91911},
 							expr: &anyMatcher{
-								line: 2909, col: 13, offset: 91805,
+								line: 2913, col: 13, offset: 91913,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2181, col: 5, offset: 70583},
+							pos: position{line: 2185, col: 5, offset: 70691},
 							expr: &litMatcher{
-								pos:        position{line: 2168, col: 38, offset: 70186},
+								pos:        position{line: 2172, col: 38, offset: 70294},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2182, col: 5, offset: 70622},
+							pos:   position{line: 2186, col: 5, offset: 70730},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2182, col: 14, offset: 70631},
+								pos:  position{line: 2186, col: 14, offset: 70739},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43598,29 +43620,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2207, col: 1, offset: 71313},
+			pos:  position{line: 2211, col: 1, offset: 71421},
 			expr: &actionExpr{
-				pos: position{line: 2208, col: 5, offset: 71343},
+				pos: position{line: 2212, col: 5, offset: 71451},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2208, col: 5, offset: 71343},
+					pos: position{line: 2212, col: 5, offset: 71451},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2191, col: 5, offset: 70879},
+							pos:        position{line: 2195, col: 5, offset: 70987},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2192, col: 5, offset: 70888},
+							pos: position{line: 2196, col: 5, offset: 70996},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2196, col: 5, offset: 71008},
+							pos: position{line: 2200, col: 5, offset: 71116},
 							expr: &notExpr{
-								pos: position{line: 2196, col: 7, offset: 71010},
+								pos: position{line: 2200, col: 7, offset: 71118},
 								expr: &litMatcher{
-									pos:        position{line: 2196, col: 8, offset: 71011},
+									pos:        position{line: 2200, col: 8, offset: 71119},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43628,38 +43650,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2209, col: 5, offset: 71383},
+							pos:   position{line: 2213, col: 5, offset: 71491},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2209, col: 15, offset: 71393},
+								pos:  position{line: 2213, col: 15, offset: 71501},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2199, col: 5, offset: 71116},
+							pos:        position{line: 2203, col: 5, offset: 71224},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2200, col: 5, offset: 71124},
+							pos: position{line: 2204, col: 5, offset: 71232},
 							expr: &litMatcher{
-								pos:        position{line: 2200, col: 6, offset: 71125},
+								pos:        position{line: 2204, col: 6, offset: 71233},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2201, col: 5, offset: 71188},
+							pos: position{line: 2205, col: 5, offset: 71296},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2205, col: 5, offset: 71299},
+							pos: position{line: 2209, col: 5, offset: 71407},
 							expr: &notExpr{
-								pos: position{line: 2205, col: 7, offset: 71301},
+								pos: position{line: 2209, col: 7, offset: 71409},
 								expr: &charClassMatcher{
-									pos:        position{line: 2782, col: 13, offset: 88564},
+									pos:        position{line: 2786, col: 13, offset: 88672},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43673,20 +43695,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2214, col: 1, offset: 71560},
+			pos:  position{line: 2218, col: 1, offset: 71668},
 			expr: &actionExpr{
-				pos: position{line: 2215, col: 5, offset: 71598},
+				pos: position{line: 2219, col: 5, offset: 71706},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2215, col: 5, offset: 71598},
+					pos: position{line: 2219, col: 5, offset: 71706},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2215, col: 5, offset: 71598},
+							pos: position{line: 2219, col: 5, offset: 71706},
 							expr: &actionExpr{
-								pos: position{line: 2892, col: 10, offset: 91469},
+								pos: position{line: 2896, col: 10, offset: 91577},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2892, col: 10, offset: 91469},
+									pos:        position{line: 2896, col: 10, offset: 91577},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43695,18 +43717,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2216, col: 5, offset: 71637},
+							pos:   position{line: 2220, col: 5, offset: 71745},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2216, col: 14, offset: 71646},
+								pos: position{line: 2220, col: 14, offset: 71754},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2216, col: 15, offset: 71647},
+									pos:  position{line: 2220, col: 15, offset: 71755},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2217, col: 5, offset: 71683},
+							pos: position{line: 2221, col: 5, offset: 71791},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -43715,49 +43737,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2223, col: 1, offset: 71824},
+			pos:  position{line: 2227, col: 1, offset: 71932},
 			expr: &actionExpr{
-				pos: position{line: 2224, col: 5, offset: 71861},
+				pos: position{line: 2228, col: 5, offset: 71969},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2224, col: 5, offset: 71861},
+					pos: position{line: 2228, col: 5, offset: 71969},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2909, col: 11, offset: 91803},
+							pos: position{line: 2913, col: 11, offset: 91911},
 							expr: &anyMatcher{
-								line: 2909, col: 13, offset: 91805,
+								line: 2913, col: 13, offset: 91913,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2225, col: 5, offset: 71872},
+							pos: position{line: 2229, col: 5, offset: 71980},
 							expr: &seqExpr{
-								pos: position{line: 2199, col: 5, offset: 71116},
+								pos: position{line: 2203, col: 5, offset: 71224},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2199, col: 5, offset: 71116},
+										pos:        position{line: 2203, col: 5, offset: 71224},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2200, col: 5, offset: 71124},
+										pos: position{line: 2204, col: 5, offset: 71232},
 										expr: &litMatcher{
-											pos:        position{line: 2200, col: 6, offset: 71125},
+											pos:        position{line: 2204, col: 6, offset: 71233},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2201, col: 5, offset: 71188},
+										pos: position{line: 2205, col: 5, offset: 71296},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2205, col: 5, offset: 71299},
+										pos: position{line: 2209, col: 5, offset: 71407},
 										expr: &notExpr{
-											pos: position{line: 2205, col: 7, offset: 71301},
+											pos: position{line: 2209, col: 7, offset: 71409},
 											expr: &charClassMatcher{
-												pos:        position{line: 2782, col: 13, offset: 88564},
+												pos:        position{line: 2786, col: 13, offset: 88672},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43769,10 +43791,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2226, col: 5, offset: 71911},
+							pos:   position{line: 2230, col: 5, offset: 72019},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2226, col: 14, offset: 71920},
+								pos:  position{line: 2230, col: 14, offset: 72028},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43782,35 +43804,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2231, col: 1, offset: 72008},
+			pos:  position{line: 2235, col: 1, offset: 72116},
 			expr: &choiceExpr{
-				pos: position{line: 2233, col: 5, offset: 72072},
+				pos: position{line: 2237, col: 5, offset: 72180},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2233, col: 5, offset: 72072},
+						pos: position{line: 2237, col: 5, offset: 72180},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2233, col: 5, offset: 72072},
+							pos: position{line: 2237, col: 5, offset: 72180},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2233, col: 5, offset: 72072},
+									pos:   position{line: 2237, col: 5, offset: 72180},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1868, col: 25, offset: 60276},
+										pos: position{line: 1872, col: 25, offset: 60384},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1868, col: 25, offset: 60276},
+											pos: position{line: 1872, col: 25, offset: 60384},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1868, col: 25, offset: 60276},
+													pos:        position{line: 1872, col: 25, offset: 60384},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1868, col: 30, offset: 60281},
+													pos: position{line: 1872, col: 30, offset: 60389},
 													expr: &litMatcher{
-														pos:        position{line: 1868, col: 30, offset: 60281},
+														pos:        position{line: 1872, col: 30, offset: 60389},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43821,21 +43843,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2233, col: 40, offset: 72107},
+									pos:        position{line: 2237, col: 40, offset: 72215},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2233, col: 45, offset: 72112},
+									pos:   position{line: 2237, col: 45, offset: 72220},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2233, col: 55, offset: 72122},
+										pos:  position{line: 2237, col: 55, offset: 72230},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2233, col: 86, offset: 72153},
+									pos:        position{line: 2237, col: 86, offset: 72261},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -43844,21 +43866,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2237, col: 7, offset: 72318},
+						pos: position{line: 2241, col: 7, offset: 72426},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2237, col: 7, offset: 72318},
+							pos: position{line: 2241, col: 7, offset: 72426},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2237, col: 7, offset: 72318},
+									pos:   position{line: 2241, col: 7, offset: 72426},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1864, col: 25, offset: 60203},
+										pos: position{line: 1868, col: 25, offset: 60311},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1864, col: 25, offset: 60203},
+											pos: position{line: 1868, col: 25, offset: 60311},
 											expr: &litMatcher{
-												pos:        position{line: 1864, col: 25, offset: 60203},
+												pos:        position{line: 1868, col: 25, offset: 60311},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43867,21 +43889,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2237, col: 42, offset: 72353},
+									pos:        position{line: 2241, col: 42, offset: 72461},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2237, col: 47, offset: 72358},
+									pos:   position{line: 2241, col: 47, offset: 72466},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2237, col: 57, offset: 72368},
+										pos:  position{line: 2241, col: 57, offset: 72476},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2237, col: 88, offset: 72399},
+									pos:        position{line: 2241, col: 88, offset: 72507},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43890,21 +43912,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2242, col: 7, offset: 72602},
+						pos: position{line: 2246, col: 7, offset: 72710},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2242, col: 7, offset: 72602},
+							pos: position{line: 2246, col: 7, offset: 72710},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2242, col: 7, offset: 72602},
+									pos:   position{line: 2246, col: 7, offset: 72710},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1864, col: 25, offset: 60203},
+										pos: position{line: 1868, col: 25, offset: 60311},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1864, col: 25, offset: 60203},
+											pos: position{line: 1868, col: 25, offset: 60311},
 											expr: &litMatcher{
-												pos:        position{line: 1864, col: 25, offset: 60203},
+												pos:        position{line: 1868, col: 25, offset: 60311},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43913,21 +43935,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2242, col: 42, offset: 72637},
+									pos:        position{line: 2246, col: 42, offset: 72745},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2242, col: 46, offset: 72641},
+									pos:   position{line: 2246, col: 46, offset: 72749},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2242, col: 56, offset: 72651},
+										pos:  position{line: 2246, col: 56, offset: 72759},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2242, col: 87, offset: 72682},
+									pos:        position{line: 2246, col: 87, offset: 72790},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43940,29 +43962,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2249, col: 1, offset: 72949},
+			pos:  position{line: 2253, col: 1, offset: 73057},
 			expr: &actionExpr{
-				pos: position{line: 2250, col: 5, offset: 72971},
+				pos: position{line: 2254, col: 5, offset: 73079},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2250, col: 5, offset: 72971},
+					pos: position{line: 2254, col: 5, offset: 73079},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2256, col: 27, offset: 73186},
+							pos:        position{line: 2260, col: 27, offset: 73294},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2251, col: 5, offset: 72998},
+							pos:   position{line: 2255, col: 5, offset: 73106},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2251, col: 14, offset: 73007},
+								pos:  position{line: 2255, col: 14, offset: 73115},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2256, col: 27, offset: 73186},
+							pos:        position{line: 2260, col: 27, offset: 73294},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43973,21 +43995,21 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2258, col: 1, offset: 73191},
+			pos:  position{line: 2262, col: 1, offset: 73299},
 			expr: &choiceExpr{
-				pos: position{line: 2258, col: 25, offset: 73215},
+				pos: position{line: 2262, col: 25, offset: 73323},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2258, col: 25, offset: 73215},
+						pos:  position{line: 2262, col: 25, offset: 73323},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2260, col: 21, offset: 73267},
+						pos: position{line: 2264, col: 21, offset: 73375},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2260, col: 21, offset: 73267},
+							pos: position{line: 2264, col: 21, offset: 73375},
 							expr: &charClassMatcher{
-								pos:        position{line: 2260, col: 21, offset: 73267},
+								pos:        position{line: 2264, col: 21, offset: 73375},
 								val:        "[^\\r\\n ~]",
 								chars:      []rune{'\r', '\n', ' ', '~'},
 								ignoreCase: false,
@@ -44000,23 +44022,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2264, col: 1, offset: 73352},
+			pos:  position{line: 2268, col: 1, offset: 73460},
 			expr: &actionExpr{
-				pos: position{line: 2266, col: 5, offset: 73419},
+				pos: position{line: 2270, col: 5, offset: 73527},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2266, col: 5, offset: 73419},
+					pos: position{line: 2270, col: 5, offset: 73527},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2266, col: 5, offset: 73419},
+							pos:   position{line: 2270, col: 5, offset: 73527},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1864, col: 25, offset: 60203},
+								pos: position{line: 1868, col: 25, offset: 60311},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1864, col: 25, offset: 60203},
+									pos: position{line: 1868, col: 25, offset: 60311},
 									expr: &litMatcher{
-										pos:        position{line: 1864, col: 25, offset: 60203},
+										pos:        position{line: 1868, col: 25, offset: 60311},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -44025,21 +44047,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2256, col: 27, offset: 73186},
+							pos:        position{line: 2260, col: 27, offset: 73294},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2268, col: 5, offset: 73487},
+							pos:   position{line: 2272, col: 5, offset: 73595},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2268, col: 14, offset: 73496},
+								pos:  position{line: 2272, col: 14, offset: 73604},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2256, col: 27, offset: 73186},
+							pos:        position{line: 2260, col: 27, offset: 73294},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -44050,29 +44072,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2276, col: 1, offset: 73759},
+			pos:  position{line: 2280, col: 1, offset: 73867},
 			expr: &actionExpr{
-				pos: position{line: 2277, col: 5, offset: 73783},
+				pos: position{line: 2281, col: 5, offset: 73891},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2277, col: 5, offset: 73783},
+					pos: position{line: 2281, col: 5, offset: 73891},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2283, col: 29, offset: 74010},
+							pos:        position{line: 2287, col: 29, offset: 74118},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2278, col: 5, offset: 73813},
+							pos:   position{line: 2282, col: 5, offset: 73921},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2278, col: 14, offset: 73822},
+								pos:  position{line: 2282, col: 14, offset: 73930},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2283, col: 29, offset: 74010},
+							pos:        position{line: 2287, col: 29, offset: 74118},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -44083,21 +44105,21 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2285, col: 1, offset: 74015},
+			pos:  position{line: 2289, col: 1, offset: 74123},
 			expr: &choiceExpr{
-				pos: position{line: 2285, col: 27, offset: 74041},
+				pos: position{line: 2289, col: 27, offset: 74149},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2285, col: 27, offset: 74041},
+						pos:  position{line: 2289, col: 27, offset: 74149},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2287, col: 23, offset: 74097},
+						pos: position{line: 2291, col: 23, offset: 74205},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2287, col: 23, offset: 74097},
+							pos: position{line: 2291, col: 23, offset: 74205},
 							expr: &charClassMatcher{
-								pos:        position{line: 2287, col: 23, offset: 74097},
+								pos:        position{line: 2291, col: 23, offset: 74205},
 								val:        "[^\\r\\n ^]",
 								chars:      []rune{'\r', '\n', ' ', '^'},
 								ignoreCase: false,
@@ -44110,23 +44132,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2291, col: 1, offset: 74182},
+			pos:  position{line: 2295, col: 1, offset: 74290},
 			expr: &actionExpr{
-				pos: position{line: 2293, col: 5, offset: 74254},
+				pos: position{line: 2297, col: 5, offset: 74362},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2293, col: 5, offset: 74254},
+					pos: position{line: 2297, col: 5, offset: 74362},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2293, col: 5, offset: 74254},
+							pos:   position{line: 2297, col: 5, offset: 74362},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1864, col: 25, offset: 60203},
+								pos: position{line: 1868, col: 25, offset: 60311},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1864, col: 25, offset: 60203},
+									pos: position{line: 1868, col: 25, offset: 60311},
 									expr: &litMatcher{
-										pos:        position{line: 1864, col: 25, offset: 60203},
+										pos:        position{line: 1868, col: 25, offset: 60311},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -44135,21 +44157,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2283, col: 29, offset: 74010},
+							pos:        position{line: 2287, col: 29, offset: 74118},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2295, col: 5, offset: 74324},
+							pos:   position{line: 2299, col: 5, offset: 74432},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2295, col: 14, offset: 74333},
+								pos:  position{line: 2299, col: 14, offset: 74441},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2283, col: 29, offset: 74010},
+							pos:        position{line: 2287, col: 29, offset: 74118},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -44160,27 +44182,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2304, col: 1, offset: 74802},
+			pos:  position{line: 2308, col: 1, offset: 74910},
 			expr: &actionExpr{
-				pos: position{line: 2305, col: 5, offset: 74818},
+				pos: position{line: 2309, col: 5, offset: 74926},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2305, col: 5, offset: 74818},
+					pos: position{line: 2309, col: 5, offset: 74926},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2305, col: 5, offset: 74818},
+							pos: position{line: 2309, col: 5, offset: 74926},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2308, col: 5, offset: 74881},
+							pos:   position{line: 2312, col: 5, offset: 74989},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2308, col: 12, offset: 74888},
+								pos: position{line: 2312, col: 12, offset: 74996},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2308, col: 12, offset: 74888},
+									pos: position{line: 2312, col: 12, offset: 74996},
 									expr: &litMatcher{
-										pos:        position{line: 2308, col: 13, offset: 74889},
+										pos:        position{line: 2312, col: 13, offset: 74997},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -44189,16 +44211,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2312, col: 5, offset: 74997},
+							pos: position{line: 2316, col: 5, offset: 75105},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2896, col: 11, offset: 91530},
+							pos: position{line: 2900, col: 11, offset: 91638},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2896, col: 11, offset: 91530},
+								pos: position{line: 2900, col: 11, offset: 91638},
 								expr: &charClassMatcher{
-									pos:        position{line: 2896, col: 11, offset: 91530},
+									pos:        position{line: 2900, col: 11, offset: 91638},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44207,36 +44229,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2316, col: 12, offset: 75156},
+							pos:   position{line: 2320, col: 12, offset: 75264},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2316, col: 19, offset: 75163},
+								pos:  position{line: 2320, col: 19, offset: 75271},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2914, col: 8, offset: 91867},
+							pos: position{line: 2918, col: 8, offset: 91975},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2901, col: 12, offset: 91640},
+									pos: position{line: 2905, col: 12, offset: 91748},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2901, col: 13, offset: 91641},
+										pos: position{line: 2905, col: 13, offset: 91749},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2901, col: 13, offset: 91641},
+												pos:        position{line: 2905, col: 13, offset: 91749},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2901, col: 20, offset: 91648},
+												pos:        position{line: 2905, col: 20, offset: 91756},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2901, col: 29, offset: 91657},
+												pos:        position{line: 2905, col: 29, offset: 91765},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44245,9 +44267,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2911, col: 8, offset: 91817},
+									pos: position{line: 2915, col: 8, offset: 91925},
 									expr: &anyMatcher{
-										line: 2911, col: 9, offset: 91818,
+										line: 2915, col: 9, offset: 91926,
 									},
 								},
 							},
@@ -44258,24 +44280,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2320, col: 1, offset: 75259},
+			pos:  position{line: 2324, col: 1, offset: 75367},
 			expr: &actionExpr{
-				pos: position{line: 2321, col: 5, offset: 75280},
+				pos: position{line: 2325, col: 5, offset: 75388},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2321, col: 5, offset: 75280},
+					pos: position{line: 2325, col: 5, offset: 75388},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2321, col: 5, offset: 75280},
+							pos: position{line: 2325, col: 5, offset: 75388},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2326, col: 5, offset: 75395},
+							pos:   position{line: 2330, col: 5, offset: 75503},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2326, col: 14, offset: 75404},
+								pos: position{line: 2330, col: 14, offset: 75512},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2326, col: 15, offset: 75405},
+									pos:  position{line: 2330, col: 15, offset: 75513},
 									name: "SectionTitleElement",
 								},
 							},
@@ -44286,38 +44308,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2330, col: 1, offset: 75486},
+			pos:  position{line: 2334, col: 1, offset: 75594},
 			expr: &actionExpr{
-				pos: position{line: 2331, col: 5, offset: 75513},
+				pos: position{line: 2335, col: 5, offset: 75621},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2331, col: 5, offset: 75513},
+					pos: position{line: 2335, col: 5, offset: 75621},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2331, col: 5, offset: 75513},
+							pos: position{line: 2335, col: 5, offset: 75621},
 							expr: &choiceExpr{
-								pos: position{line: 2914, col: 8, offset: 91867},
+								pos: position{line: 2918, col: 8, offset: 91975},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2901, col: 12, offset: 91640},
+										pos: position{line: 2905, col: 12, offset: 91748},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2901, col: 13, offset: 91641},
+											pos: position{line: 2905, col: 13, offset: 91749},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2901, col: 13, offset: 91641},
+													pos:        position{line: 2905, col: 13, offset: 91749},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2901, col: 20, offset: 91648},
+													pos:        position{line: 2905, col: 20, offset: 91756},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2901, col: 29, offset: 91657},
+													pos:        position{line: 2905, col: 29, offset: 91765},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44326,46 +44348,46 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2911, col: 8, offset: 91817},
+										pos: position{line: 2915, col: 8, offset: 91925},
 										expr: &anyMatcher{
-											line: 2911, col: 9, offset: 91818,
+											line: 2915, col: 9, offset: 91926,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2332, col: 5, offset: 75522},
+							pos:   position{line: 2336, col: 5, offset: 75630},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2333, col: 9, offset: 75540},
+								pos: position{line: 2337, col: 9, offset: 75648},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2333, col: 10, offset: 75541},
+										pos: position{line: 2337, col: 10, offset: 75649},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2333, col: 10, offset: 75541},
+											pos: position{line: 2337, col: 10, offset: 75649},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2333, col: 10, offset: 75541},
+													pos:   position{line: 2337, col: 10, offset: 75649},
 													label: "element",
 													expr: &ruleRefExpr{
-														pos:  position{line: 2333, col: 19, offset: 75550},
+														pos:  position{line: 2337, col: 19, offset: 75658},
 														name: "SectionTitleInlineElement",
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 2333, col: 46, offset: 75577},
+													pos: position{line: 2337, col: 46, offset: 75685},
 													run: (*parser).callonSectionTitleElement18,
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2831, col: 12, offset: 89777},
+										pos: position{line: 2835, col: 12, offset: 89885},
 										run: (*parser).callonSectionTitleElement19,
 										expr: &charClassMatcher{
-											pos:        position{line: 2831, col: 12, offset: 89777},
+											pos:        position{line: 2835, col: 12, offset: 89885},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -44381,32 +44403,32 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleInlineElement",
-			pos:  position{line: 2341, col: 1, offset: 75754},
+			pos:  position{line: 2345, col: 1, offset: 75862},
 			expr: &actionExpr{
-				pos: position{line: 2342, col: 5, offset: 75787},
+				pos: position{line: 2346, col: 5, offset: 75895},
 				run: (*parser).callonSectionTitleInlineElement1,
 				expr: &labeledExpr{
-					pos:   position{line: 2342, col: 5, offset: 75787},
+					pos:   position{line: 2346, col: 5, offset: 75895},
 					label: "element",
 					expr: &choiceExpr{
-						pos: position{line: 2343, col: 9, offset: 75805},
+						pos: position{line: 2347, col: 9, offset: 75913},
 						alternatives: []interface{}{
 							&actionExpr{
-								pos: position{line: 2791, col: 5, offset: 88711},
+								pos: position{line: 2795, col: 5, offset: 88819},
 								run: (*parser).callonSectionTitleInlineElement4,
 								expr: &seqExpr{
-									pos: position{line: 2791, col: 5, offset: 88711},
+									pos: position{line: 2795, col: 5, offset: 88819},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2791, col: 5, offset: 88711},
+											pos:   position{line: 2795, col: 5, offset: 88819},
 											label: "text",
 											expr: &actionExpr{
-												pos: position{line: 2791, col: 11, offset: 88717},
+												pos: position{line: 2795, col: 11, offset: 88825},
 												run: (*parser).callonSectionTitleInlineElement7,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2791, col: 11, offset: 88717},
+													pos: position{line: 2795, col: 11, offset: 88825},
 													expr: &charClassMatcher{
-														pos:        position{line: 2791, col: 11, offset: 88717},
+														pos:        position{line: 2795, col: 11, offset: 88825},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -44416,36 +44438,36 @@ var g = &grammar{
 											},
 										},
 										&notExpr{
-											pos: position{line: 2794, col: 5, offset: 88775},
+											pos: position{line: 2798, col: 5, offset: 88883},
 											expr: &seqExpr{
-												pos: position{line: 2795, col: 9, offset: 88786},
+												pos: position{line: 2799, col: 9, offset: 88894},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2795, col: 9, offset: 88786},
+														pos:        position{line: 2799, col: 9, offset: 88894},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2796, col: 9, offset: 88835},
+														pos: position{line: 2800, col: 9, offset: 88943},
 														run: (*parser).callonSectionTitleInlineElement13,
 													},
 												},
 											},
 										},
 										&notExpr{
-											pos: position{line: 2800, col: 5, offset: 88915},
+											pos: position{line: 2804, col: 5, offset: 89023},
 											expr: &seqExpr{
-												pos: position{line: 2801, col: 9, offset: 88926},
+												pos: position{line: 2805, col: 9, offset: 89034},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2801, col: 9, offset: 88926},
+														pos:        position{line: 2805, col: 9, offset: 89034},
 														val:        "@",
 														ignoreCase: false,
 														want:       "\"@\"",
 													},
 													&charClassMatcher{
-														pos:        position{line: 2801, col: 13, offset: 88930},
+														pos:        position{line: 2805, col: 13, offset: 89038},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -44458,12 +44480,12 @@ var g = &grammar{
 								},
 							},
 							&actionExpr{
-								pos: position{line: 2896, col: 11, offset: 91530},
+								pos: position{line: 2900, col: 11, offset: 91638},
 								run: (*parser).callonSectionTitleInlineElement18,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2896, col: 11, offset: 91530},
+									pos: position{line: 2900, col: 11, offset: 91638},
 									expr: &charClassMatcher{
-										pos:        position{line: 2896, col: 11, offset: 91530},
+										pos:        position{line: 2900, col: 11, offset: 91638},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -44472,25 +44494,25 @@ var g = &grammar{
 								},
 							},
 							&actionExpr{
-								pos: position{line: 2511, col: 5, offset: 80946},
+								pos: position{line: 2515, col: 5, offset: 81054},
 								run: (*parser).callonSectionTitleInlineElement21,
 								expr: &seqExpr{
-									pos: position{line: 2511, col: 5, offset: 80946},
+									pos: position{line: 2515, col: 5, offset: 81054},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2511, col: 5, offset: 80946},
+											pos: position{line: 2515, col: 5, offset: 81054},
 											run: (*parser).callonSectionTitleInlineElement23,
 										},
 										&litMatcher{
-											pos:        position{line: 2514, col: 5, offset: 81017},
+											pos:        position{line: 2518, col: 5, offset: 81125},
 											val:        "\\'",
 											ignoreCase: false,
 											want:       "\"\\\\'\"",
 										},
 										&andExpr{
-											pos: position{line: 2514, col: 10, offset: 81022},
+											pos: position{line: 2518, col: 10, offset: 81130},
 											expr: &charClassMatcher{
-												pos:        position{line: 2514, col: 11, offset: 81023},
+												pos:        position{line: 2518, col: 11, offset: 81131},
 												val:        "[\\pL]",
 												classes:    []*unicode.RangeTable{rangeTable("L")},
 												ignoreCase: false,
@@ -44501,29 +44523,29 @@ var g = &grammar{
 								},
 							},
 							&actionExpr{
-								pos: position{line: 2520, col: 5, offset: 81215},
+								pos: position{line: 2524, col: 5, offset: 81323},
 								run: (*parser).callonSectionTitleInlineElement27,
 								expr: &seqExpr{
-									pos: position{line: 2520, col: 5, offset: 81215},
+									pos: position{line: 2524, col: 5, offset: 81323},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2520, col: 5, offset: 81215},
+											pos: position{line: 2524, col: 5, offset: 81323},
 											run: (*parser).callonSectionTitleInlineElement29,
 										},
 										&andCodeExpr{
-											pos: position{line: 2523, col: 5, offset: 81286},
+											pos: position{line: 2527, col: 5, offset: 81394},
 											run: (*parser).callonSectionTitleInlineElement30,
 										},
 										&litMatcher{
-											pos:        position{line: 2527, col: 5, offset: 81411},
+											pos:        position{line: 2531, col: 5, offset: 81519},
 											val:        "'",
 											ignoreCase: false,
 											want:       "\"'\"",
 										},
 										&andExpr{
-											pos: position{line: 2527, col: 9, offset: 81415},
+											pos: position{line: 2531, col: 9, offset: 81523},
 											expr: &charClassMatcher{
-												pos:        position{line: 2527, col: 10, offset: 81416},
+												pos:        position{line: 2531, col: 10, offset: 81524},
 												val:        "[\\pL]",
 												classes:    []*unicode.RangeTable{rangeTable("L")},
 												ignoreCase: false,
@@ -44534,31 +44556,31 @@ var g = &grammar{
 								},
 							},
 							&ruleRefExpr{
-								pos:  position{line: 2346, col: 11, offset: 75870},
+								pos:  position{line: 2350, col: 11, offset: 75978},
 								name: "Replacement",
 							},
 							&actionExpr{
-								pos: position{line: 2809, col: 5, offset: 89123},
+								pos: position{line: 2813, col: 5, offset: 89231},
 								run: (*parser).callonSectionTitleInlineElement35,
 								expr: &choiceExpr{
-									pos: position{line: 2810, col: 9, offset: 89133},
+									pos: position{line: 2814, col: 9, offset: 89241},
 									alternatives: []interface{}{
 										&charClassMatcher{
-											pos:        position{line: 2810, col: 10, offset: 89134},
+											pos:        position{line: 2814, col: 10, offset: 89242},
 											val:        "[.,;?)!/:\"\\@=-]",
 											chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 											ignoreCase: false,
 											inverted:   false,
 										},
 										&seqExpr{
-											pos: position{line: 2812, col: 13, offset: 89231},
+											pos: position{line: 2816, col: 13, offset: 89339},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2812, col: 13, offset: 89231},
+													pos: position{line: 2816, col: 13, offset: 89339},
 													run: (*parser).callonSectionTitleInlineElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2815, col: 13, offset: 89331},
+													pos:        position{line: 2819, col: 13, offset: 89439},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
@@ -44566,20 +44588,20 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 2815, col: 19, offset: 89337},
+											pos:        position{line: 2819, col: 19, offset: 89445},
 											val:        "]",
 											ignoreCase: false,
 											want:       "\"]\"",
 										},
 										&seqExpr{
-											pos: position{line: 2818, col: 13, offset: 89375},
+											pos: position{line: 2822, col: 13, offset: 89483},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2818, col: 13, offset: 89375},
+													pos: position{line: 2822, col: 13, offset: 89483},
 													run: (*parser).callonSectionTitleInlineElement43,
 												},
 												&charClassMatcher{
-													pos:        position{line: 2821, col: 14, offset: 89468},
+													pos:        position{line: 2825, col: 14, offset: 89576},
 													val:        "[*_`#]",
 													chars:      []rune{'*', '_', '`', '#'},
 													ignoreCase: false,
@@ -44588,18 +44610,18 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2823, col: 12, offset: 89512},
+											pos: position{line: 2827, col: 12, offset: 89620},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2823, col: 12, offset: 89512},
+													pos:        position{line: 2827, col: 12, offset: 89620},
 													val:        "(",
 													ignoreCase: false,
 													want:       "\"(\"",
 												},
 												&notExpr{
-													pos: position{line: 2823, col: 16, offset: 89516},
+													pos: position{line: 2827, col: 16, offset: 89624},
 													expr: &litMatcher{
-														pos:        position{line: 2823, col: 17, offset: 89517},
+														pos:        position{line: 2827, col: 17, offset: 89625},
 														val:        "(",
 														ignoreCase: false,
 														want:       "\"(\"",
@@ -44611,35 +44633,35 @@ var g = &grammar{
 								},
 							},
 							&ruleRefExpr{
-								pos:  position{line: 2348, col: 11, offset: 75943},
+								pos:  position{line: 2352, col: 11, offset: 76051},
 								name: "Quote",
 							},
 							&ruleRefExpr{
-								pos:  position{line: 2349, col: 11, offset: 75959},
+								pos:  position{line: 2353, col: 11, offset: 76067},
 								name: "InlinePassthrough",
 							},
 							&ruleRefExpr{
-								pos:  position{line: 2350, col: 11, offset: 75987},
+								pos:  position{line: 2354, col: 11, offset: 76095},
 								name: "Link",
 							},
 							&actionExpr{
-								pos: position{line: 2480, col: 5, offset: 79775},
+								pos: position{line: 2484, col: 5, offset: 79883},
 								run: (*parser).callonSectionTitleInlineElement52,
 								expr: &seqExpr{
-									pos: position{line: 2480, col: 5, offset: 79775},
+									pos: position{line: 2484, col: 5, offset: 79883},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2480, col: 5, offset: 79775},
+											pos: position{line: 2484, col: 5, offset: 79883},
 											run: (*parser).callonSectionTitleInlineElement54,
 										},
 										&labeledExpr{
-											pos:   position{line: 2483, col: 5, offset: 79851},
+											pos:   position{line: 2487, col: 5, offset: 79959},
 											label: "element",
 											expr: &actionExpr{
-												pos: position{line: 2484, col: 9, offset: 79869},
+												pos: position{line: 2488, col: 9, offset: 79977},
 												run: (*parser).callonSectionTitleInlineElement56,
 												expr: &charClassMatcher{
-													pos:        position{line: 2484, col: 10, offset: 79870},
+													pos:        position{line: 2488, col: 10, offset: 79978},
 													val:        "[<>&]",
 													chars:      []rune{'<', '>', '&'},
 													ignoreCase: false,
@@ -44651,7 +44673,7 @@ var g = &grammar{
 								},
 							},
 							&ruleRefExpr{
-								pos:  position{line: 2352, col: 11, offset: 76072},
+								pos:  position{line: 2356, col: 11, offset: 76180},
 								name: "InlineIcon",
 							},
 							&actionExpr{
@@ -45001,27 +45023,27 @@ var g = &grammar{
 								},
 							},
 							&actionExpr{
-								pos: position{line: 1220, col: 23, offset: 37720},
+								pos: position{line: 1224, col: 23, offset: 37828},
 								run: (*parser).callonSectionTitleInlineElement128,
 								expr: &seqExpr{
-									pos: position{line: 1220, col: 23, offset: 37720},
+									pos: position{line: 1224, col: 23, offset: 37828},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 1218, col: 32, offset: 37688},
+											pos:        position{line: 1222, col: 32, offset: 37796},
 											val:        "�",
 											ignoreCase: false,
 											want:       "\"�\"",
 										},
 										&labeledExpr{
-											pos:   position{line: 1220, col: 51, offset: 37748},
+											pos:   position{line: 1224, col: 51, offset: 37856},
 											label: "ref",
 											expr: &actionExpr{
-												pos: position{line: 1220, col: 56, offset: 37753},
+												pos: position{line: 1224, col: 56, offset: 37861},
 												run: (*parser).callonSectionTitleInlineElement132,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 1220, col: 56, offset: 37753},
+													pos: position{line: 1224, col: 56, offset: 37861},
 													expr: &charClassMatcher{
-														pos:        position{line: 1220, col: 56, offset: 37753},
+														pos:        position{line: 1224, col: 56, offset: 37861},
 														val:        "[0-9]",
 														ranges:     []rune{'0', '9'},
 														ignoreCase: false,
@@ -45031,7 +45053,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 1218, col: 32, offset: 37688},
+											pos:        position{line: 1222, col: 32, offset: 37796},
 											val:        "�",
 											ignoreCase: false,
 											want:       "\"�\"",
@@ -45040,17 +45062,17 @@ var g = &grammar{
 								},
 							},
 							&actionExpr{
-								pos: position{line: 2363, col: 5, offset: 76485},
+								pos: position{line: 2367, col: 5, offset: 76593},
 								run: (*parser).callonSectionTitleInlineElement136,
 								expr: &seqExpr{
-									pos: position{line: 2363, col: 5, offset: 76485},
+									pos: position{line: 2367, col: 5, offset: 76593},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2363, col: 5, offset: 76485},
+											pos: position{line: 2367, col: 5, offset: 76593},
 											run: (*parser).callonSectionTitleInlineElement138,
 										},
 										&labeledExpr{
-											pos:   position{line: 2366, col: 5, offset: 76540},
+											pos:   position{line: 2370, col: 5, offset: 76648},
 											label: "id",
 											expr: &actionExpr{
 												pos: position{line: 411, col: 5, offset: 12580},
@@ -45093,27 +45115,27 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1220, col: 23, offset: 37720},
+																					pos: position{line: 1224, col: 23, offset: 37828},
 																					run: (*parser).callonSectionTitleInlineElement151,
 																					expr: &seqExpr{
-																						pos: position{line: 1220, col: 23, offset: 37720},
+																						pos: position{line: 1224, col: 23, offset: 37828},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1218, col: 32, offset: 37688},
+																								pos:        position{line: 1222, col: 32, offset: 37796},
 																								val:        "�",
 																								ignoreCase: false,
 																								want:       "\"�\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1220, col: 51, offset: 37748},
+																								pos:   position{line: 1224, col: 51, offset: 37856},
 																								label: "ref",
 																								expr: &actionExpr{
-																									pos: position{line: 1220, col: 56, offset: 37753},
+																									pos: position{line: 1224, col: 56, offset: 37861},
 																									run: (*parser).callonSectionTitleInlineElement155,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1220, col: 56, offset: 37753},
+																										pos: position{line: 1224, col: 56, offset: 37861},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1220, col: 56, offset: 37753},
+																											pos:        position{line: 1224, col: 56, offset: 37861},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -45123,7 +45145,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 1218, col: 32, offset: 37688},
+																								pos:        position{line: 1222, col: 32, offset: 37796},
 																								val:        "�",
 																								ignoreCase: false,
 																								want:       "\"�\"",
@@ -45504,12 +45526,12 @@ var g = &grammar{
 											},
 										},
 										&zeroOrMoreExpr{
-											pos: position{line: 2366, col: 26, offset: 76561},
+											pos: position{line: 2370, col: 26, offset: 76669},
 											expr: &actionExpr{
-												pos: position{line: 2892, col: 10, offset: 91469},
+												pos: position{line: 2896, col: 10, offset: 91577},
 												run: (*parser).callonSectionTitleInlineElement232,
 												expr: &charClassMatcher{
-													pos:        position{line: 2892, col: 10, offset: 91469},
+													pos:        position{line: 2896, col: 10, offset: 91577},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -45518,30 +45540,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2366, col: 33, offset: 76568},
+											pos: position{line: 2370, col: 33, offset: 76676},
 											expr: &choiceExpr{
-												pos: position{line: 2914, col: 8, offset: 91867},
+												pos: position{line: 2918, col: 8, offset: 91975},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2901, col: 12, offset: 91640},
+														pos: position{line: 2905, col: 12, offset: 91748},
 														run: (*parser).callonSectionTitleInlineElement236,
 														expr: &choiceExpr{
-															pos: position{line: 2901, col: 13, offset: 91641},
+															pos: position{line: 2905, col: 13, offset: 91749},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2901, col: 13, offset: 91641},
+																	pos:        position{line: 2905, col: 13, offset: 91749},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 20, offset: 91648},
+																	pos:        position{line: 2905, col: 20, offset: 91756},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 29, offset: 91657},
+																	pos:        position{line: 2905, col: 29, offset: 91765},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -45550,9 +45572,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2911, col: 8, offset: 91817},
+														pos: position{line: 2915, col: 8, offset: 91925},
 														expr: &anyMatcher{
-															line: 2911, col: 9, offset: 91818,
+															line: 2915, col: 9, offset: 91926,
 														},
 													},
 												},
@@ -45562,27 +45584,27 @@ var g = &grammar{
 								},
 							},
 							&actionExpr{
-								pos: position{line: 1275, col: 5, offset: 39480},
+								pos: position{line: 1279, col: 5, offset: 39588},
 								run: (*parser).callonSectionTitleInlineElement243,
 								expr: &seqExpr{
-									pos: position{line: 1275, col: 5, offset: 39480},
+									pos: position{line: 1279, col: 5, offset: 39588},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 1275, col: 5, offset: 39480},
+											pos:        position{line: 1279, col: 5, offset: 39588},
 											val:        "\\[[",
 											ignoreCase: false,
 											want:       "\"\\\\[[\"",
 										},
 										&labeledExpr{
-											pos:   position{line: 1275, col: 14, offset: 39489},
+											pos:   position{line: 1279, col: 14, offset: 39597},
 											label: "id",
 											expr: &actionExpr{
-												pos: position{line: 2877, col: 7, offset: 91121},
+												pos: position{line: 2881, col: 7, offset: 91229},
 												run: (*parser).callonSectionTitleInlineElement247,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2877, col: 7, offset: 91121},
+													pos: position{line: 2881, col: 7, offset: 91229},
 													expr: &charClassMatcher{
-														pos:        position{line: 2877, col: 7, offset: 91121},
+														pos:        position{line: 2881, col: 7, offset: 91229},
 														val:        "[^[]<>,]",
 														chars:      []rune{'[', ']', '<', '>', ','},
 														ignoreCase: false,
@@ -45592,7 +45614,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 1275, col: 22, offset: 39497},
+											pos:        position{line: 1279, col: 22, offset: 39605},
 											val:        "]]",
 											ignoreCase: false,
 											want:       "\"]]\"",
@@ -45601,27 +45623,27 @@ var g = &grammar{
 								},
 							},
 							&actionExpr{
-								pos: position{line: 1280, col: 5, offset: 39616},
+								pos: position{line: 1284, col: 5, offset: 39724},
 								run: (*parser).callonSectionTitleInlineElement251,
 								expr: &seqExpr{
-									pos: position{line: 1280, col: 5, offset: 39616},
+									pos: position{line: 1284, col: 5, offset: 39724},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 1280, col: 5, offset: 39616},
+											pos:        position{line: 1284, col: 5, offset: 39724},
 											val:        "[[",
 											ignoreCase: false,
 											want:       "\"[[\"",
 										},
 										&labeledExpr{
-											pos:   position{line: 1280, col: 10, offset: 39621},
+											pos:   position{line: 1284, col: 10, offset: 39729},
 											label: "id",
 											expr: &actionExpr{
-												pos: position{line: 2877, col: 7, offset: 91121},
+												pos: position{line: 2881, col: 7, offset: 91229},
 												run: (*parser).callonSectionTitleInlineElement255,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2877, col: 7, offset: 91121},
+													pos: position{line: 2881, col: 7, offset: 91229},
 													expr: &charClassMatcher{
-														pos:        position{line: 2877, col: 7, offset: 91121},
+														pos:        position{line: 2881, col: 7, offset: 91229},
 														val:        "[^[]<>,]",
 														chars:      []rune{'[', ']', '<', '>', ','},
 														ignoreCase: false,
@@ -45631,7 +45653,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 1280, col: 18, offset: 39629},
+											pos:        position{line: 1284, col: 18, offset: 39737},
 											val:        "]]",
 											ignoreCase: false,
 											want:       "\"]]\"",
@@ -45640,7 +45662,7 @@ var g = &grammar{
 								},
 							},
 							&ruleRefExpr{
-								pos:  position{line: 2357, col: 11, offset: 76326},
+								pos:  position{line: 2361, col: 11, offset: 76434},
 								name: "InlineFootnote",
 							},
 						},
@@ -45650,52 +45672,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2376, col: 1, offset: 76830},
+			pos:  position{line: 2380, col: 1, offset: 76938},
 			expr: &actionExpr{
-				pos: position{line: 2377, col: 5, offset: 76917},
+				pos: position{line: 2381, col: 5, offset: 77025},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2377, col: 5, offset: 76917},
+					pos: position{line: 2381, col: 5, offset: 77025},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2377, col: 5, offset: 76917},
+							pos:   position{line: 2381, col: 5, offset: 77025},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2377, col: 14, offset: 76926},
+								pos: position{line: 2381, col: 14, offset: 77034},
 								expr: &actionExpr{
-									pos: position{line: 2379, col: 9, offset: 76952},
+									pos: position{line: 2383, col: 9, offset: 77060},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2379, col: 9, offset: 76952},
+										pos: position{line: 2383, col: 9, offset: 77060},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2909, col: 11, offset: 91803},
+												pos: position{line: 2913, col: 11, offset: 91911},
 												expr: &anyMatcher{
-													line: 2909, col: 13, offset: 91805,
+													line: 2913, col: 13, offset: 91913,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2380, col: 9, offset: 76967},
+												pos:   position{line: 2384, col: 9, offset: 77075},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2381, col: 13, offset: 76989},
+													pos: position{line: 2385, col: 13, offset: 77097},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2791, col: 5, offset: 88711},
+															pos: position{line: 2795, col: 5, offset: 88819},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2791, col: 5, offset: 88711},
+																pos: position{line: 2795, col: 5, offset: 88819},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2791, col: 5, offset: 88711},
+																		pos:   position{line: 2795, col: 5, offset: 88819},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2791, col: 11, offset: 88717},
+																			pos: position{line: 2795, col: 11, offset: 88825},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2791, col: 11, offset: 88717},
+																				pos: position{line: 2795, col: 11, offset: 88825},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2791, col: 11, offset: 88717},
+																					pos:        position{line: 2795, col: 11, offset: 88825},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45705,36 +45727,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2794, col: 5, offset: 88775},
+																		pos: position{line: 2798, col: 5, offset: 88883},
 																		expr: &seqExpr{
-																			pos: position{line: 2795, col: 9, offset: 88786},
+																			pos: position{line: 2799, col: 9, offset: 88894},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2795, col: 9, offset: 88786},
+																					pos:        position{line: 2799, col: 9, offset: 88894},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2796, col: 9, offset: 88835},
+																					pos: position{line: 2800, col: 9, offset: 88943},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2800, col: 5, offset: 88915},
+																		pos: position{line: 2804, col: 5, offset: 89023},
 																		expr: &seqExpr{
-																			pos: position{line: 2801, col: 9, offset: 88926},
+																			pos: position{line: 2805, col: 9, offset: 89034},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2801, col: 9, offset: 88926},
+																					pos:        position{line: 2805, col: 9, offset: 89034},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2801, col: 13, offset: 88930},
+																					pos:        position{line: 2805, col: 13, offset: 89038},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45747,12 +45769,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2896, col: 11, offset: 91530},
+															pos: position{line: 2900, col: 11, offset: 91638},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2896, col: 11, offset: 91530},
+																pos: position{line: 2900, col: 11, offset: 91638},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2896, col: 11, offset: 91530},
+																	pos:        position{line: 2900, col: 11, offset: 91638},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45761,29 +45783,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2383, col: 15, offset: 77035},
+															pos:  position{line: 2387, col: 15, offset: 77143},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2511, col: 5, offset: 80946},
+															pos: position{line: 2515, col: 5, offset: 81054},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2511, col: 5, offset: 80946},
+																pos: position{line: 2515, col: 5, offset: 81054},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2511, col: 5, offset: 80946},
+																		pos: position{line: 2515, col: 5, offset: 81054},
 																		run: (*parser).callonNormalGroup31,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2514, col: 5, offset: 81017},
+																		pos:        position{line: 2518, col: 5, offset: 81125},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2514, col: 10, offset: 81022},
+																		pos: position{line: 2518, col: 10, offset: 81130},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2514, col: 11, offset: 81023},
+																			pos:        position{line: 2518, col: 11, offset: 81131},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45794,29 +45816,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2520, col: 5, offset: 81215},
+															pos: position{line: 2524, col: 5, offset: 81323},
 															run: (*parser).callonNormalGroup35,
 															expr: &seqExpr{
-																pos: position{line: 2520, col: 5, offset: 81215},
+																pos: position{line: 2524, col: 5, offset: 81323},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2520, col: 5, offset: 81215},
+																		pos: position{line: 2524, col: 5, offset: 81323},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2523, col: 5, offset: 81286},
+																		pos: position{line: 2527, col: 5, offset: 81394},
 																		run: (*parser).callonNormalGroup38,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2527, col: 5, offset: 81411},
+																		pos:        position{line: 2531, col: 5, offset: 81519},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2527, col: 9, offset: 81415},
+																		pos: position{line: 2531, col: 9, offset: 81523},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2527, col: 10, offset: 81416},
+																			pos:        position{line: 2531, col: 10, offset: 81524},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45827,27 +45849,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2809, col: 5, offset: 89123},
+															pos: position{line: 2813, col: 5, offset: 89231},
 															run: (*parser).callonNormalGroup42,
 															expr: &choiceExpr{
-																pos: position{line: 2810, col: 9, offset: 89133},
+																pos: position{line: 2814, col: 9, offset: 89241},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2810, col: 10, offset: 89134},
+																		pos:        position{line: 2814, col: 10, offset: 89242},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2812, col: 13, offset: 89231},
+																		pos: position{line: 2816, col: 13, offset: 89339},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2812, col: 13, offset: 89231},
+																				pos: position{line: 2816, col: 13, offset: 89339},
 																				run: (*parser).callonNormalGroup46,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2815, col: 13, offset: 89331},
+																				pos:        position{line: 2819, col: 13, offset: 89439},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45855,20 +45877,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2815, col: 19, offset: 89337},
+																		pos:        position{line: 2819, col: 19, offset: 89445},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2818, col: 13, offset: 89375},
+																		pos: position{line: 2822, col: 13, offset: 89483},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2818, col: 13, offset: 89375},
+																				pos: position{line: 2822, col: 13, offset: 89483},
 																				run: (*parser).callonNormalGroup50,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2821, col: 14, offset: 89468},
+																				pos:        position{line: 2825, col: 14, offset: 89576},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45877,18 +45899,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2823, col: 12, offset: 89512},
+																		pos: position{line: 2827, col: 12, offset: 89620},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2823, col: 12, offset: 89512},
+																				pos:        position{line: 2827, col: 12, offset: 89620},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2823, col: 16, offset: 89516},
+																				pos: position{line: 2827, col: 16, offset: 89624},
 																				expr: &litMatcher{
-																					pos:        position{line: 2823, col: 17, offset: 89517},
+																					pos:        position{line: 2827, col: 17, offset: 89625},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45900,25 +45922,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2901, col: 12, offset: 91640},
+															pos: position{line: 2905, col: 12, offset: 91748},
 															run: (*parser).callonNormalGroup56,
 															expr: &choiceExpr{
-																pos: position{line: 2901, col: 13, offset: 91641},
+																pos: position{line: 2905, col: 13, offset: 91749},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 13, offset: 91641},
+																		pos:        position{line: 2905, col: 13, offset: 91749},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 20, offset: 91648},
+																		pos:        position{line: 2905, col: 20, offset: 91756},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2901, col: 29, offset: 91657},
+																		pos:        position{line: 2905, col: 29, offset: 91765},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -46273,35 +46295,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2388, col: 15, offset: 77202},
+															pos:  position{line: 2392, col: 15, offset: 77310},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2389, col: 15, offset: 77222},
+															pos:  position{line: 2393, col: 15, offset: 77330},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2390, col: 15, offset: 77311},
+															pos:  position{line: 2394, col: 15, offset: 77419},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2480, col: 5, offset: 79775},
+															pos: position{line: 2484, col: 5, offset: 79883},
 															run: (*parser).callonNormalGroup133,
 															expr: &seqExpr{
-																pos: position{line: 2480, col: 5, offset: 79775},
+																pos: position{line: 2484, col: 5, offset: 79883},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2480, col: 5, offset: 79775},
+																		pos: position{line: 2484, col: 5, offset: 79883},
 																		run: (*parser).callonNormalGroup135,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2483, col: 5, offset: 79851},
+																		pos:   position{line: 2487, col: 5, offset: 79959},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2484, col: 9, offset: 79869},
+																			pos: position{line: 2488, col: 9, offset: 79977},
 																			run: (*parser).callonNormalGroup137,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2484, col: 10, offset: 79870},
+																				pos:        position{line: 2488, col: 10, offset: 79978},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -46313,32 +46335,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1228, col: 5, offset: 38166},
+															pos: position{line: 1232, col: 5, offset: 38274},
 															run: (*parser).callonNormalGroup139,
 															expr: &seqExpr{
-																pos: position{line: 1228, col: 5, offset: 38166},
+																pos: position{line: 1232, col: 5, offset: 38274},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1228, col: 5, offset: 38166},
+																		pos: position{line: 1232, col: 5, offset: 38274},
 																		run: (*parser).callonNormalGroup141,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1231, col: 5, offset: 38242},
+																		pos:        position{line: 1235, col: 5, offset: 38350},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1232, col: 5, offset: 38250},
+																		pos: position{line: 1236, col: 5, offset: 38358},
 																		run: (*parser).callonNormalGroup143,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1236, col: 5, offset: 38337},
+																		pos: position{line: 1240, col: 5, offset: 38445},
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 10, offset: 91469},
+																			pos: position{line: 2896, col: 10, offset: 91577},
 																			run: (*parser).callonNormalGroup145,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2892, col: 10, offset: 91469},
+																				pos:        position{line: 2896, col: 10, offset: 91577},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46347,30 +46369,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1236, col: 12, offset: 38344},
+																		pos: position{line: 1240, col: 12, offset: 38452},
 																		expr: &choiceExpr{
-																			pos: position{line: 2914, col: 8, offset: 91867},
+																			pos: position{line: 2918, col: 8, offset: 91975},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2901, col: 12, offset: 91640},
+																					pos: position{line: 2905, col: 12, offset: 91748},
 																					run: (*parser).callonNormalGroup149,
 																					expr: &choiceExpr{
-																						pos: position{line: 2901, col: 13, offset: 91641},
+																						pos: position{line: 2905, col: 13, offset: 91749},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 13, offset: 91641},
+																								pos:        position{line: 2905, col: 13, offset: 91749},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 20, offset: 91648},
+																								pos:        position{line: 2905, col: 20, offset: 91756},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 29, offset: 91657},
+																								pos:        position{line: 2905, col: 29, offset: 91765},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46379,9 +46401,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2911, col: 8, offset: 91817},
+																					pos: position{line: 2915, col: 8, offset: 91925},
 																					expr: &anyMatcher{
-																						line: 2911, col: 9, offset: 91818,
+																						line: 2915, col: 9, offset: 91926,
 																					},
 																				},
 																			},
@@ -46391,31 +46413,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2393, col: 15, offset: 77493},
+															pos:  position{line: 2397, col: 15, offset: 77601},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1220, col: 23, offset: 37720},
+															pos: position{line: 1224, col: 23, offset: 37828},
 															run: (*parser).callonNormalGroup157,
 															expr: &seqExpr{
-																pos: position{line: 1220, col: 23, offset: 37720},
+																pos: position{line: 1224, col: 23, offset: 37828},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1218, col: 32, offset: 37688},
+																		pos:        position{line: 1222, col: 32, offset: 37796},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1220, col: 51, offset: 37748},
+																		pos:   position{line: 1224, col: 51, offset: 37856},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1220, col: 56, offset: 37753},
+																			pos: position{line: 1224, col: 56, offset: 37861},
 																			run: (*parser).callonNormalGroup161,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1220, col: 56, offset: 37753},
+																				pos: position{line: 1224, col: 56, offset: 37861},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1220, col: 56, offset: 37753},
+																					pos:        position{line: 1224, col: 56, offset: 37861},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -46425,7 +46447,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1218, col: 32, offset: 37688},
+																		pos:        position{line: 1222, col: 32, offset: 37796},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -46434,10 +46456,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2831, col: 12, offset: 89777},
+															pos: position{line: 2835, col: 12, offset: 89885},
 															run: (*parser).callonNormalGroup165,
 															expr: &charClassMatcher{
-																pos:        position{line: 2831, col: 12, offset: 89777},
+																pos:        position{line: 2835, col: 12, offset: 89885},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -46453,9 +46475,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2911, col: 8, offset: 91817},
+							pos: position{line: 2915, col: 8, offset: 91925},
 							expr: &anyMatcher{
-								line: 2911, col: 9, offset: 91818,
+								line: 2915, col: 9, offset: 91926,
 							},
 						},
 					},
@@ -46464,28 +46486,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2404, col: 1, offset: 77931},
+			pos:  position{line: 2408, col: 1, offset: 78039},
 			expr: &actionExpr{
-				pos: position{line: 2405, col: 5, offset: 77964},
+				pos: position{line: 2409, col: 5, offset: 78072},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2405, col: 5, offset: 77964},
+					pos: position{line: 2409, col: 5, offset: 78072},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2405, col: 5, offset: 77964},
+							pos:   position{line: 2409, col: 5, offset: 78072},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2405, col: 14, offset: 77973},
+								pos: position{line: 2409, col: 14, offset: 78081},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2405, col: 15, offset: 77974},
+									pos:  position{line: 2409, col: 15, offset: 78082},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2911, col: 8, offset: 91817},
+							pos: position{line: 2915, col: 8, offset: 91925},
 							expr: &anyMatcher{
-								line: 2911, col: 9, offset: 91818,
+								line: 2915, col: 9, offset: 91926,
 							},
 						},
 					},
@@ -46494,41 +46516,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2409, col: 1, offset: 78071},
+			pos:  position{line: 2413, col: 1, offset: 78179},
 			expr: &actionExpr{
-				pos: position{line: 2410, col: 5, offset: 78111},
+				pos: position{line: 2414, col: 5, offset: 78219},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2410, col: 5, offset: 78111},
+					pos: position{line: 2414, col: 5, offset: 78219},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2909, col: 11, offset: 91803},
+							pos: position{line: 2913, col: 11, offset: 91911},
 							expr: &anyMatcher{
-								line: 2909, col: 13, offset: 91805,
+								line: 2913, col: 13, offset: 91913,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2411, col: 5, offset: 78122},
+							pos:   position{line: 2415, col: 5, offset: 78230},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2412, col: 9, offset: 78140},
+								pos: position{line: 2416, col: 9, offset: 78248},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2791, col: 5, offset: 88711},
+										pos: position{line: 2795, col: 5, offset: 88819},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2791, col: 5, offset: 88711},
+											pos: position{line: 2795, col: 5, offset: 88819},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2791, col: 5, offset: 88711},
+													pos:   position{line: 2795, col: 5, offset: 88819},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2791, col: 11, offset: 88717},
+														pos: position{line: 2795, col: 11, offset: 88825},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2791, col: 11, offset: 88717},
+															pos: position{line: 2795, col: 11, offset: 88825},
 															expr: &charClassMatcher{
-																pos:        position{line: 2791, col: 11, offset: 88717},
+																pos:        position{line: 2795, col: 11, offset: 88825},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46538,36 +46560,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2794, col: 5, offset: 88775},
+													pos: position{line: 2798, col: 5, offset: 88883},
 													expr: &seqExpr{
-														pos: position{line: 2795, col: 9, offset: 88786},
+														pos: position{line: 2799, col: 9, offset: 88894},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2795, col: 9, offset: 88786},
+																pos:        position{line: 2799, col: 9, offset: 88894},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2796, col: 9, offset: 88835},
+																pos: position{line: 2800, col: 9, offset: 88943},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2800, col: 5, offset: 88915},
+													pos: position{line: 2804, col: 5, offset: 89023},
 													expr: &seqExpr{
-														pos: position{line: 2801, col: 9, offset: 88926},
+														pos: position{line: 2805, col: 9, offset: 89034},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2801, col: 9, offset: 88926},
+																pos:        position{line: 2805, col: 9, offset: 89034},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2801, col: 13, offset: 88930},
+																pos:        position{line: 2805, col: 13, offset: 89038},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46580,10 +46602,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2892, col: 10, offset: 91469},
+										pos: position{line: 2896, col: 10, offset: 91577},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2892, col: 10, offset: 91469},
+											pos:        position{line: 2896, col: 10, offset: 91577},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -46591,31 +46613,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2414, col: 11, offset: 78178},
+										pos:  position{line: 2418, col: 11, offset: 78286},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2809, col: 5, offset: 89123},
+										pos: position{line: 2813, col: 5, offset: 89231},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2810, col: 9, offset: 89133},
+											pos: position{line: 2814, col: 9, offset: 89241},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2810, col: 10, offset: 89134},
+													pos:        position{line: 2814, col: 10, offset: 89242},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2812, col: 13, offset: 89231},
+													pos: position{line: 2816, col: 13, offset: 89339},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2812, col: 13, offset: 89231},
+															pos: position{line: 2816, col: 13, offset: 89339},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2815, col: 13, offset: 89331},
+															pos:        position{line: 2819, col: 13, offset: 89439},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46623,20 +46645,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2815, col: 19, offset: 89337},
+													pos:        position{line: 2819, col: 19, offset: 89445},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2818, col: 13, offset: 89375},
+													pos: position{line: 2822, col: 13, offset: 89483},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2818, col: 13, offset: 89375},
+															pos: position{line: 2822, col: 13, offset: 89483},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2821, col: 14, offset: 89468},
+															pos:        position{line: 2825, col: 14, offset: 89576},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46645,18 +46667,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2823, col: 12, offset: 89512},
+													pos: position{line: 2827, col: 12, offset: 89620},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2823, col: 12, offset: 89512},
+															pos:        position{line: 2827, col: 12, offset: 89620},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2823, col: 16, offset: 89516},
+															pos: position{line: 2827, col: 16, offset: 89624},
 															expr: &litMatcher{
-																pos:        position{line: 2823, col: 17, offset: 89517},
+																pos:        position{line: 2827, col: 17, offset: 89625},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46668,31 +46690,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2416, col: 11, offset: 78251},
+										pos:  position{line: 2420, col: 11, offset: 78359},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2417, col: 11, offset: 78267},
+										pos:  position{line: 2421, col: 11, offset: 78375},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2480, col: 5, offset: 79775},
+										pos: position{line: 2484, col: 5, offset: 79883},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2480, col: 5, offset: 79775},
+											pos: position{line: 2484, col: 5, offset: 79883},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2480, col: 5, offset: 79775},
+													pos: position{line: 2484, col: 5, offset: 79883},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2483, col: 5, offset: 79851},
+													pos:   position{line: 2487, col: 5, offset: 79959},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2484, col: 9, offset: 79869},
+														pos: position{line: 2488, col: 9, offset: 79977},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2484, col: 10, offset: 79870},
+															pos:        position{line: 2488, col: 10, offset: 79978},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46704,27 +46726,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1220, col: 23, offset: 37720},
+										pos: position{line: 1224, col: 23, offset: 37828},
 										run: (*parser).callonAttributeStructuredValueElement46,
 										expr: &seqExpr{
-											pos: position{line: 1220, col: 23, offset: 37720},
+											pos: position{line: 1224, col: 23, offset: 37828},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1218, col: 32, offset: 37688},
+													pos:        position{line: 1222, col: 32, offset: 37796},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1220, col: 51, offset: 37748},
+													pos:   position{line: 1224, col: 51, offset: 37856},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1220, col: 56, offset: 37753},
+														pos: position{line: 1224, col: 56, offset: 37861},
 														run: (*parser).callonAttributeStructuredValueElement50,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1220, col: 56, offset: 37753},
+															pos: position{line: 1224, col: 56, offset: 37861},
 															expr: &charClassMatcher{
-																pos:        position{line: 1220, col: 56, offset: 37753},
+																pos:        position{line: 1224, col: 56, offset: 37861},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -46734,7 +46756,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1218, col: 32, offset: 37688},
+													pos:        position{line: 1222, col: 32, offset: 37796},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -46743,25 +46765,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2901, col: 12, offset: 91640},
+										pos: position{line: 2905, col: 12, offset: 91748},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2901, col: 13, offset: 91641},
+											pos: position{line: 2905, col: 13, offset: 91749},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2901, col: 13, offset: 91641},
+													pos:        position{line: 2905, col: 13, offset: 91749},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2901, col: 20, offset: 91648},
+													pos:        position{line: 2905, col: 20, offset: 91756},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2901, col: 29, offset: 91657},
+													pos:        position{line: 2905, col: 29, offset: 91765},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46770,10 +46792,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2831, col: 12, offset: 89777},
+										pos: position{line: 2835, col: 12, offset: 89885},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2831, col: 12, offset: 89777},
+											pos:        position{line: 2835, col: 12, offset: 89885},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46789,73 +46811,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2428, col: 1, offset: 78537},
+			pos:  position{line: 2432, col: 1, offset: 78645},
 			expr: &actionExpr{
-				pos: position{line: 2430, col: 5, offset: 78619},
+				pos: position{line: 2434, col: 5, offset: 78727},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2430, col: 5, offset: 78619},
+					pos: position{line: 2434, col: 5, offset: 78727},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2430, col: 5, offset: 78619},
+							pos: position{line: 2434, col: 5, offset: 78727},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2433, col: 5, offset: 78684},
+							pos:   position{line: 2437, col: 5, offset: 78792},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2434, col: 9, offset: 78702},
+								pos: position{line: 2438, col: 9, offset: 78810},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2434, col: 9, offset: 78702},
+										pos:  position{line: 2438, col: 9, offset: 78810},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2435, col: 11, offset: 78723},
+										pos:  position{line: 2439, col: 11, offset: 78831},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2436, col: 11, offset: 78746},
+										pos:  position{line: 2440, col: 11, offset: 78854},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2437, col: 11, offset: 78762},
+										pos:  position{line: 2441, col: 11, offset: 78870},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2438, col: 11, offset: 78791},
+										pos:  position{line: 2442, col: 11, offset: 78899},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2439, col: 11, offset: 78817},
+										pos:  position{line: 2443, col: 11, offset: 78925},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2440, col: 11, offset: 78843},
+										pos:  position{line: 2444, col: 11, offset: 78951},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1275, col: 5, offset: 39480},
+										pos: position{line: 1279, col: 5, offset: 39588},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1275, col: 5, offset: 39480},
+											pos: position{line: 1279, col: 5, offset: 39588},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1275, col: 5, offset: 39480},
+													pos:        position{line: 1279, col: 5, offset: 39588},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1275, col: 14, offset: 39489},
+													pos:   position{line: 1279, col: 14, offset: 39597},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 7, offset: 91121},
+														pos: position{line: 2881, col: 7, offset: 91229},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2877, col: 7, offset: 91121},
+															pos: position{line: 2881, col: 7, offset: 91229},
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 7, offset: 91121},
+																pos:        position{line: 2881, col: 7, offset: 91229},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46865,7 +46887,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1275, col: 22, offset: 39497},
+													pos:        position{line: 1279, col: 22, offset: 39605},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46874,27 +46896,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1280, col: 5, offset: 39616},
+										pos: position{line: 1284, col: 5, offset: 39724},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1280, col: 5, offset: 39616},
+											pos: position{line: 1284, col: 5, offset: 39724},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1280, col: 5, offset: 39616},
+													pos:        position{line: 1284, col: 5, offset: 39724},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1280, col: 10, offset: 39621},
+													pos:   position{line: 1284, col: 10, offset: 39729},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2877, col: 7, offset: 91121},
+														pos: position{line: 2881, col: 7, offset: 91229},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2877, col: 7, offset: 91121},
+															pos: position{line: 2881, col: 7, offset: 91229},
 															expr: &charClassMatcher{
-																pos:        position{line: 2877, col: 7, offset: 91121},
+																pos:        position{line: 2881, col: 7, offset: 91229},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46904,7 +46926,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1280, col: 18, offset: 39629},
+													pos:        position{line: 1284, col: 18, offset: 39737},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46913,40 +46935,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1319, col: 23, offset: 41105},
+										pos: position{line: 1323, col: 23, offset: 41213},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1319, col: 23, offset: 41105},
+											pos: position{line: 1323, col: 23, offset: 41213},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1319, col: 23, offset: 41105},
+													pos:        position{line: 1323, col: 23, offset: 41213},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1319, col: 29, offset: 41111},
+													pos:   position{line: 1323, col: 29, offset: 41219},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1326, col: 30, offset: 41442},
+														pos: position{line: 1330, col: 30, offset: 41550},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1326, col: 30, offset: 41442},
+															pos: position{line: 1330, col: 30, offset: 41550},
 															expr: &choiceExpr{
-																pos: position{line: 1326, col: 31, offset: 41443},
+																pos: position{line: 1330, col: 31, offset: 41551},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2782, col: 13, offset: 88564},
+																		pos:        position{line: 2786, col: 13, offset: 88672},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2892, col: 10, offset: 91469},
+																		pos: position{line: 2896, col: 10, offset: 91577},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2892, col: 10, offset: 91469},
+																			pos:        position{line: 2896, col: 10, offset: 91577},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46959,23 +46981,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1320, col: 5, offset: 41150},
+													pos:   position{line: 1324, col: 5, offset: 41258},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1320, col: 11, offset: 41156},
+														pos: position{line: 1324, col: 11, offset: 41264},
 														expr: &actionExpr{
-															pos: position{line: 1320, col: 12, offset: 41157},
+															pos: position{line: 1324, col: 12, offset: 41265},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1320, col: 12, offset: 41157},
+																pos: position{line: 1324, col: 12, offset: 41265},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1320, col: 12, offset: 41157},
+																		pos: position{line: 1324, col: 12, offset: 41265},
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 10, offset: 91469},
+																			pos: position{line: 2896, col: 10, offset: 91577},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2892, col: 10, offset: 91469},
+																				pos:        position{line: 2896, col: 10, offset: 91577},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46984,18 +47006,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1320, col: 19, offset: 41164},
+																		pos:        position{line: 1324, col: 19, offset: 41272},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1320, col: 23, offset: 41168},
+																		pos: position{line: 1324, col: 23, offset: 41276},
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 10, offset: 91469},
+																			pos: position{line: 2896, col: 10, offset: 91577},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2892, col: 10, offset: 91469},
+																				pos:        position{line: 2896, col: 10, offset: 91577},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47004,28 +47026,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1320, col: 30, offset: 41175},
+																		pos:   position{line: 1324, col: 30, offset: 41283},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1326, col: 30, offset: 41442},
+																			pos: position{line: 1330, col: 30, offset: 41550},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1326, col: 30, offset: 41442},
+																				pos: position{line: 1330, col: 30, offset: 41550},
 																				expr: &choiceExpr{
-																					pos: position{line: 1326, col: 31, offset: 41443},
+																					pos: position{line: 1330, col: 31, offset: 41551},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2782, col: 13, offset: 88564},
+																							pos:        position{line: 2786, col: 13, offset: 88672},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2892, col: 10, offset: 91469},
+																							pos: position{line: 2896, col: 10, offset: 91577},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2892, col: 10, offset: 91469},
+																								pos:        position{line: 2896, col: 10, offset: 91577},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47043,23 +47065,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1321, col: 5, offset: 41242},
+													pos:   position{line: 1325, col: 5, offset: 41350},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1321, col: 11, offset: 41248},
+														pos: position{line: 1325, col: 11, offset: 41356},
 														expr: &actionExpr{
-															pos: position{line: 1321, col: 12, offset: 41249},
+															pos: position{line: 1325, col: 12, offset: 41357},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1321, col: 12, offset: 41249},
+																pos: position{line: 1325, col: 12, offset: 41357},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1321, col: 12, offset: 41249},
+																		pos: position{line: 1325, col: 12, offset: 41357},
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 10, offset: 91469},
+																			pos: position{line: 2896, col: 10, offset: 91577},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2892, col: 10, offset: 91469},
+																				pos:        position{line: 2896, col: 10, offset: 91577},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47068,18 +47090,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1321, col: 19, offset: 41256},
+																		pos:        position{line: 1325, col: 19, offset: 41364},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1321, col: 23, offset: 41260},
+																		pos: position{line: 1325, col: 23, offset: 41368},
 																		expr: &actionExpr{
-																			pos: position{line: 2892, col: 10, offset: 91469},
+																			pos: position{line: 2896, col: 10, offset: 91577},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2892, col: 10, offset: 91469},
+																				pos:        position{line: 2896, col: 10, offset: 91577},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47088,28 +47110,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1321, col: 30, offset: 41267},
+																		pos:   position{line: 1325, col: 30, offset: 41375},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1326, col: 30, offset: 41442},
+																			pos: position{line: 1330, col: 30, offset: 41550},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1326, col: 30, offset: 41442},
+																				pos: position{line: 1330, col: 30, offset: 41550},
 																				expr: &choiceExpr{
-																					pos: position{line: 1326, col: 31, offset: 41443},
+																					pos: position{line: 1330, col: 31, offset: 41551},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2782, col: 13, offset: 88564},
+																							pos:        position{line: 2786, col: 13, offset: 88672},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2892, col: 10, offset: 91469},
+																							pos: position{line: 2896, col: 10, offset: 91577},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2892, col: 10, offset: 91469},
+																								pos:        position{line: 2896, col: 10, offset: 91577},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47127,7 +47149,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1322, col: 5, offset: 41334},
+													pos:        position{line: 1326, col: 5, offset: 41442},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -47136,15 +47158,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2443, col: 11, offset: 78922},
+										pos:  position{line: 2447, col: 11, offset: 79030},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2444, col: 11, offset: 78942},
+										pos:  position{line: 2448, col: 11, offset: 79050},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2445, col: 11, offset: 78965},
+										pos:  position{line: 2449, col: 11, offset: 79073},
 										name: "InlineMenu",
 									},
 								},
@@ -47156,80 +47178,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2449, col: 1, offset: 79022},
+			pos:  position{line: 2453, col: 1, offset: 79130},
 			expr: &actionExpr{
-				pos: position{line: 2451, col: 5, offset: 79110},
+				pos: position{line: 2455, col: 5, offset: 79218},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2451, col: 5, offset: 79110},
+					pos: position{line: 2455, col: 5, offset: 79218},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2451, col: 5, offset: 79110},
+							pos: position{line: 2455, col: 5, offset: 79218},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2454, col: 5, offset: 79187},
+							pos:   position{line: 2458, col: 5, offset: 79295},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2455, col: 9, offset: 79205},
+								pos: position{line: 2459, col: 9, offset: 79313},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1401, col: 26, offset: 44712},
+										pos: position{line: 1405, col: 26, offset: 44820},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1401, col: 26, offset: 44712},
+											pos: position{line: 1405, col: 26, offset: 44820},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1399, col: 32, offset: 44680},
+													pos:        position{line: 1403, col: 32, offset: 44788},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1401, col: 54, offset: 44740},
+													pos:   position{line: 1405, col: 54, offset: 44848},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1405, col: 33, offset: 44953},
+														pos: position{line: 1409, col: 33, offset: 45061},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1405, col: 34, offset: 44954},
+																pos: position{line: 1409, col: 34, offset: 45062},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1405, col: 34, offset: 44954},
+																	pos: position{line: 1409, col: 34, offset: 45062},
 																	expr: &seqExpr{
-																		pos: position{line: 1405, col: 35, offset: 44955},
+																		pos: position{line: 1409, col: 35, offset: 45063},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1405, col: 35, offset: 44955},
+																				pos: position{line: 1409, col: 35, offset: 45063},
 																				expr: &litMatcher{
-																					pos:        position{line: 1399, col: 32, offset: 44680},
+																					pos:        position{line: 1403, col: 32, offset: 44788},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1405, col: 64, offset: 44984,
+																				line: 1409, col: 64, offset: 45092,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1407, col: 11, offset: 45157},
+																pos: position{line: 1411, col: 11, offset: 45265},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1407, col: 11, offset: 45157},
+																	pos: position{line: 1411, col: 11, offset: 45265},
 																	expr: &seqExpr{
-																		pos: position{line: 1407, col: 12, offset: 45158},
+																		pos: position{line: 1411, col: 12, offset: 45266},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1407, col: 12, offset: 45158},
+																				pos: position{line: 1411, col: 12, offset: 45266},
 																				expr: &actionExpr{
-																					pos: position{line: 2892, col: 10, offset: 91469},
+																					pos: position{line: 2896, col: 10, offset: 91577},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2892, col: 10, offset: 91469},
+																						pos:        position{line: 2896, col: 10, offset: 91577},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -47238,27 +47260,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1407, col: 19, offset: 45165},
+																				pos: position{line: 1411, col: 19, offset: 45273},
 																				expr: &actionExpr{
-																					pos: position{line: 2901, col: 12, offset: 91640},
+																					pos: position{line: 2905, col: 12, offset: 91748},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2901, col: 13, offset: 91641},
+																						pos: position{line: 2905, col: 13, offset: 91749},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 13, offset: 91641},
+																								pos:        position{line: 2905, col: 13, offset: 91749},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 20, offset: 91648},
+																								pos:        position{line: 2905, col: 20, offset: 91756},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2901, col: 29, offset: 91657},
+																								pos:        position{line: 2905, col: 29, offset: 91765},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -47268,16 +47290,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1407, col: 28, offset: 45174},
+																				pos: position{line: 1411, col: 28, offset: 45282},
 																				expr: &litMatcher{
-																					pos:        position{line: 1399, col: 32, offset: 44680},
+																					pos:        position{line: 1403, col: 32, offset: 44788},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1407, col: 57, offset: 45203,
+																				line: 1411, col: 57, offset: 45311,
 																			},
 																		},
 																	},
@@ -47287,15 +47309,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1399, col: 32, offset: 44680},
+													pos:        position{line: 1403, col: 32, offset: 44788},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1401, col: 121, offset: 44807},
+													pos: position{line: 1405, col: 121, offset: 44915},
 													expr: &charClassMatcher{
-														pos:        position{line: 2782, col: 13, offset: 88564},
+														pos:        position{line: 2786, col: 13, offset: 88672},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47306,45 +47328,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1389, col: 26, offset: 43995},
+										pos: position{line: 1393, col: 26, offset: 44103},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1389, col: 26, offset: 43995},
+											pos: position{line: 1393, col: 26, offset: 44103},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1387, col: 32, offset: 43965},
+													pos:        position{line: 1391, col: 32, offset: 44073},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1389, col: 54, offset: 44023},
+													pos:   position{line: 1393, col: 54, offset: 44131},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1393, col: 33, offset: 44236},
+														pos: position{line: 1397, col: 33, offset: 44344},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1393, col: 34, offset: 44237},
+																pos: position{line: 1397, col: 34, offset: 44345},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1393, col: 34, offset: 44237},
+																	pos: position{line: 1397, col: 34, offset: 44345},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1393, col: 35, offset: 44238},
+																			pos: position{line: 1397, col: 35, offset: 44346},
 																			expr: &litMatcher{
-																				pos:        position{line: 1387, col: 32, offset: 43965},
+																				pos:        position{line: 1391, col: 32, offset: 44073},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1393, col: 64, offset: 44267},
+																			pos: position{line: 1397, col: 64, offset: 44375},
 																			expr: &actionExpr{
-																				pos: position{line: 2892, col: 10, offset: 91469},
+																				pos: position{line: 2896, col: 10, offset: 91577},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2892, col: 10, offset: 91469},
+																					pos:        position{line: 2896, col: 10, offset: 91577},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47353,27 +47375,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1393, col: 71, offset: 44274},
+																			pos: position{line: 1397, col: 71, offset: 44382},
 																			expr: &actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91640},
+																				pos: position{line: 2905, col: 12, offset: 91748},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2901, col: 13, offset: 91641},
+																					pos: position{line: 2905, col: 13, offset: 91749},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 13, offset: 91641},
+																							pos:        position{line: 2905, col: 13, offset: 91749},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 20, offset: 91648},
+																							pos:        position{line: 2905, col: 20, offset: 91756},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 29, offset: 91657},
+																							pos:        position{line: 2905, col: 29, offset: 91765},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47383,25 +47405,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1393, col: 80, offset: 44283,
+																			line: 1397, col: 80, offset: 44391,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1393, col: 83, offset: 44286},
+																			pos: position{line: 1397, col: 83, offset: 44394},
 																			expr: &seqExpr{
-																				pos: position{line: 1393, col: 84, offset: 44287},
+																				pos: position{line: 1397, col: 84, offset: 44395},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1393, col: 84, offset: 44287},
+																						pos: position{line: 1397, col: 84, offset: 44395},
 																						expr: &seqExpr{
-																							pos: position{line: 1393, col: 86, offset: 44289},
+																							pos: position{line: 1397, col: 86, offset: 44397},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2896, col: 11, offset: 91530},
+																									pos: position{line: 2900, col: 11, offset: 91638},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2896, col: 11, offset: 91530},
+																										pos: position{line: 2900, col: 11, offset: 91638},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2896, col: 11, offset: 91530},
+																											pos:        position{line: 2900, col: 11, offset: 91638},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -47410,7 +47432,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1387, col: 32, offset: 43965},
+																									pos:        position{line: 1391, col: 32, offset: 44073},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -47419,36 +47441,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1393, col: 122, offset: 44325},
+																						pos: position{line: 1397, col: 122, offset: 44433},
 																						expr: &litMatcher{
-																							pos:        position{line: 1387, col: 32, offset: 43965},
+																							pos:        position{line: 1391, col: 32, offset: 44073},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1393, col: 151, offset: 44354},
+																						pos: position{line: 1397, col: 151, offset: 44462},
 																						expr: &actionExpr{
-																							pos: position{line: 2901, col: 12, offset: 91640},
+																							pos: position{line: 2905, col: 12, offset: 91748},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2901, col: 13, offset: 91641},
+																								pos: position{line: 2905, col: 13, offset: 91749},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 13, offset: 91641},
+																										pos:        position{line: 2905, col: 13, offset: 91749},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 20, offset: 91648},
+																										pos:        position{line: 2905, col: 20, offset: 91756},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2901, col: 29, offset: 91657},
+																										pos:        position{line: 2905, col: 29, offset: 91765},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -47458,7 +47480,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1393, col: 160, offset: 44363,
+																						line: 1397, col: 160, offset: 44471,
 																					},
 																				},
 																			},
@@ -47467,18 +47489,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1395, col: 11, offset: 44513},
+																pos: position{line: 1399, col: 11, offset: 44621},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1395, col: 12, offset: 44514},
+																	pos: position{line: 1399, col: 12, offset: 44622},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1395, col: 12, offset: 44514},
+																			pos: position{line: 1399, col: 12, offset: 44622},
 																			expr: &actionExpr{
-																				pos: position{line: 2892, col: 10, offset: 91469},
+																				pos: position{line: 2896, col: 10, offset: 91577},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2892, col: 10, offset: 91469},
+																					pos:        position{line: 2896, col: 10, offset: 91577},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47487,27 +47509,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1395, col: 19, offset: 44521},
+																			pos: position{line: 1399, col: 19, offset: 44629},
 																			expr: &actionExpr{
-																				pos: position{line: 2901, col: 12, offset: 91640},
+																				pos: position{line: 2905, col: 12, offset: 91748},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2901, col: 13, offset: 91641},
+																					pos: position{line: 2905, col: 13, offset: 91749},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 13, offset: 91641},
+																							pos:        position{line: 2905, col: 13, offset: 91749},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 20, offset: 91648},
+																							pos:        position{line: 2905, col: 20, offset: 91756},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2901, col: 29, offset: 91657},
+																							pos:        position{line: 2905, col: 29, offset: 91765},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47517,16 +47539,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1395, col: 28, offset: 44530},
+																			pos: position{line: 1399, col: 28, offset: 44638},
 																			expr: &litMatcher{
-																				pos:        position{line: 1387, col: 32, offset: 43965},
+																				pos:        position{line: 1391, col: 32, offset: 44073},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1395, col: 57, offset: 44559,
+																			line: 1399, col: 57, offset: 44667,
 																		},
 																	},
 																},
@@ -47535,15 +47557,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1387, col: 32, offset: 43965},
+													pos:        position{line: 1391, col: 32, offset: 44073},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1389, col: 121, offset: 44090},
+													pos: position{line: 1393, col: 121, offset: 44198},
 													expr: &charClassMatcher{
-														pos:        position{line: 2782, col: 13, offset: 88564},
+														pos:        position{line: 2786, col: 13, offset: 88672},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47554,7 +47576,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2455, col: 57, offset: 79253},
+										pos:  position{line: 2459, col: 57, offset: 79361},
 										name: "PassthroughMacro",
 									},
 								},
@@ -47566,16 +47588,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2460, col: 1, offset: 79313},
+			pos:  position{line: 2464, col: 1, offset: 79421},
 			expr: &seqExpr{
-				pos: position{line: 2462, col: 5, offset: 79389},
+				pos: position{line: 2466, col: 5, offset: 79497},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2462, col: 5, offset: 79389},
+						pos: position{line: 2466, col: 5, offset: 79497},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2465, col: 5, offset: 79454},
+						pos:  position{line: 2469, col: 5, offset: 79562},
 						name: "QuotedText",
 					},
 				},
@@ -47583,22 +47605,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2467, col: 1, offset: 79467},
+			pos:  position{line: 2471, col: 1, offset: 79575},
 			expr: &actionExpr{
-				pos: position{line: 2469, col: 5, offset: 79549},
+				pos: position{line: 2473, col: 5, offset: 79657},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2469, col: 5, offset: 79549},
+					pos: position{line: 2473, col: 5, offset: 79657},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2469, col: 5, offset: 79549},
+							pos: position{line: 2473, col: 5, offset: 79657},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2472, col: 5, offset: 79620},
+							pos:   position{line: 2476, col: 5, offset: 79728},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2473, col: 9, offset: 79638},
+								pos:  position{line: 2477, col: 9, offset: 79746},
 								name: "Symbol",
 							},
 						},
@@ -47608,103 +47630,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2531, col: 1, offset: 81468},
+			pos:  position{line: 2535, col: 1, offset: 81576},
 			expr: &choiceExpr{
-				pos: position{line: 2533, col: 5, offset: 81498},
+				pos: position{line: 2537, col: 5, offset: 81606},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2533, col: 5, offset: 81498},
+						pos: position{line: 2537, col: 5, offset: 81606},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2533, col: 5, offset: 81498},
+							pos: position{line: 2537, col: 5, offset: 81606},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2533, col: 5, offset: 81498},
+									pos:        position{line: 2537, col: 5, offset: 81606},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2533, col: 10, offset: 81503},
+									pos: position{line: 2537, col: 10, offset: 81611},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2533, col: 10, offset: 81503},
+											pos:  position{line: 2537, col: 10, offset: 81611},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2562, col: 14, offset: 82607},
+											pos: position{line: 2566, col: 14, offset: 82715},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2562, col: 14, offset: 82607},
+												pos:        position{line: 2566, col: 14, offset: 82715},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2566, col: 14, offset: 82673},
+											pos: position{line: 2570, col: 14, offset: 82781},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2566, col: 14, offset: 82673},
+												pos:        position{line: 2570, col: 14, offset: 82781},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2570, col: 15, offset: 82742},
+											pos: position{line: 2574, col: 15, offset: 82850},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2570, col: 15, offset: 82742},
+												pos:        position{line: 2574, col: 15, offset: 82850},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2574, col: 13, offset: 82807},
+											pos: position{line: 2578, col: 13, offset: 82915},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2574, col: 13, offset: 82807},
+												pos:        position{line: 2578, col: 13, offset: 82915},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2602, col: 21, offset: 83377},
+											pos: position{line: 2606, col: 21, offset: 83485},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2602, col: 21, offset: 83377},
+												pos:        position{line: 2606, col: 21, offset: 83485},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2581, col: 5, offset: 82963},
+											pos: position{line: 2585, col: 5, offset: 83071},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2581, col: 5, offset: 82963},
+												pos: position{line: 2585, col: 5, offset: 83071},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2581, col: 5, offset: 82963},
+														pos:        position{line: 2585, col: 5, offset: 83071},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2582, col: 5, offset: 82973},
+														pos: position{line: 2586, col: 5, offset: 83081},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2586, col: 6, offset: 83060},
+														pos: position{line: 2590, col: 6, offset: 83168},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2892, col: 10, offset: 91469},
+																pos: position{line: 2896, col: 10, offset: 91577},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2892, col: 10, offset: 91469},
+																	pos:        position{line: 2896, col: 10, offset: 91577},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47712,30 +47734,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2586, col: 14, offset: 83068},
+																pos: position{line: 2590, col: 14, offset: 83176},
 																expr: &choiceExpr{
-																	pos: position{line: 2914, col: 8, offset: 91867},
+																	pos: position{line: 2918, col: 8, offset: 91975},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2901, col: 12, offset: 91640},
+																			pos: position{line: 2905, col: 12, offset: 91748},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2901, col: 13, offset: 91641},
+																				pos: position{line: 2905, col: 13, offset: 91749},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 13, offset: 91641},
+																						pos:        position{line: 2905, col: 13, offset: 91749},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 20, offset: 91648},
+																						pos:        position{line: 2905, col: 20, offset: 91756},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2901, col: 29, offset: 91657},
+																						pos:        position{line: 2905, col: 29, offset: 91765},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47744,9 +47766,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2911, col: 8, offset: 91817},
+																			pos: position{line: 2915, col: 8, offset: 91925},
 																			expr: &anyMatcher{
-																				line: 2911, col: 9, offset: 91818,
+																				line: 2915, col: 9, offset: 91926,
 																			},
 																		},
 																	},
@@ -47758,53 +47780,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2591, col: 5, offset: 83188},
+											pos: position{line: 2595, col: 5, offset: 83296},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2591, col: 5, offset: 83188},
+												pos: position{line: 2595, col: 5, offset: 83296},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2591, col: 5, offset: 83188},
+														pos:        position{line: 2595, col: 5, offset: 83296},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2592, col: 5, offset: 83198},
+														pos: position{line: 2596, col: 5, offset: 83306},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2596, col: 5, offset: 83287},
+														pos: position{line: 2600, col: 5, offset: 83395},
 														expr: &choiceExpr{
-															pos: position{line: 2596, col: 7, offset: 83289},
+															pos: position{line: 2600, col: 7, offset: 83397},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2782, col: 13, offset: 88564},
+																	pos:        position{line: 2786, col: 13, offset: 88672},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2901, col: 12, offset: 91640},
+																	pos: position{line: 2905, col: 12, offset: 91748},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2901, col: 13, offset: 91641},
+																		pos: position{line: 2905, col: 13, offset: 91749},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2901, col: 13, offset: 91641},
+																				pos:        position{line: 2905, col: 13, offset: 91749},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2901, col: 20, offset: 91648},
+																				pos:        position{line: 2905, col: 20, offset: 91756},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2901, col: 29, offset: 91657},
+																				pos:        position{line: 2905, col: 29, offset: 91765},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47813,9 +47835,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2911, col: 8, offset: 91817},
+																	pos: position{line: 2915, col: 8, offset: 91925},
 																	expr: &anyMatcher{
-																		line: 2911, col: 9, offset: 91818,
+																		line: 2915, col: 9, offset: 91926,
 																	},
 																},
 															},
@@ -47825,30 +47847,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2606, col: 20, offset: 83447},
+											pos: position{line: 2610, col: 20, offset: 83555},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2606, col: 20, offset: 83447},
+												pos:        position{line: 2610, col: 20, offset: 83555},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2610, col: 21, offset: 83518},
+											pos: position{line: 2614, col: 21, offset: 83626},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2610, col: 21, offset: 83518},
+												pos:        position{line: 2614, col: 21, offset: 83626},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2614, col: 20, offset: 83588},
+											pos: position{line: 2618, col: 20, offset: 83696},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2614, col: 20, offset: 83588},
+												pos:        position{line: 2618, col: 20, offset: 83696},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -47860,73 +47882,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2537, col: 7, offset: 81758},
+						pos:  position{line: 2541, col: 7, offset: 81866},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2562, col: 14, offset: 82607},
+						pos: position{line: 2566, col: 14, offset: 82715},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2562, col: 14, offset: 82607},
+							pos:        position{line: 2566, col: 14, offset: 82715},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2566, col: 14, offset: 82673},
+						pos: position{line: 2570, col: 14, offset: 82781},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2566, col: 14, offset: 82673},
+							pos:        position{line: 2570, col: 14, offset: 82781},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2570, col: 15, offset: 82742},
+						pos: position{line: 2574, col: 15, offset: 82850},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2570, col: 15, offset: 82742},
+							pos:        position{line: 2574, col: 15, offset: 82850},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2574, col: 13, offset: 82807},
+						pos: position{line: 2578, col: 13, offset: 82915},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2574, col: 13, offset: 82807},
+							pos:        position{line: 2578, col: 13, offset: 82915},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2581, col: 5, offset: 82963},
+						pos: position{line: 2585, col: 5, offset: 83071},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2581, col: 5, offset: 82963},
+							pos: position{line: 2585, col: 5, offset: 83071},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2581, col: 5, offset: 82963},
+									pos:        position{line: 2585, col: 5, offset: 83071},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2582, col: 5, offset: 82973},
+									pos: position{line: 2586, col: 5, offset: 83081},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2586, col: 6, offset: 83060},
+									pos: position{line: 2590, col: 6, offset: 83168},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2892, col: 10, offset: 91469},
+											pos: position{line: 2896, col: 10, offset: 91577},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2892, col: 10, offset: 91469},
+												pos:        position{line: 2896, col: 10, offset: 91577},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47934,30 +47956,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2586, col: 14, offset: 83068},
+											pos: position{line: 2590, col: 14, offset: 83176},
 											expr: &choiceExpr{
-												pos: position{line: 2914, col: 8, offset: 91867},
+												pos: position{line: 2918, col: 8, offset: 91975},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2901, col: 12, offset: 91640},
+														pos: position{line: 2905, col: 12, offset: 91748},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2901, col: 13, offset: 91641},
+															pos: position{line: 2905, col: 13, offset: 91749},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2901, col: 13, offset: 91641},
+																	pos:        position{line: 2905, col: 13, offset: 91749},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 20, offset: 91648},
+																	pos:        position{line: 2905, col: 20, offset: 91756},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2901, col: 29, offset: 91657},
+																	pos:        position{line: 2905, col: 29, offset: 91765},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47966,9 +47988,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2911, col: 8, offset: 91817},
+														pos: position{line: 2915, col: 8, offset: 91925},
 														expr: &anyMatcher{
-															line: 2911, col: 9, offset: 91818,
+															line: 2915, col: 9, offset: 91926,
 														},
 													},
 												},
@@ -47980,53 +48002,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2591, col: 5, offset: 83188},
+						pos: position{line: 2595, col: 5, offset: 83296},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2591, col: 5, offset: 83188},
+							pos: position{line: 2595, col: 5, offset: 83296},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2591, col: 5, offset: 83188},
+									pos:        position{line: 2595, col: 5, offset: 83296},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2592, col: 5, offset: 83198},
+									pos: position{line: 2596, col: 5, offset: 83306},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2596, col: 5, offset: 83287},
+									pos: position{line: 2600, col: 5, offset: 83395},
 									expr: &choiceExpr{
-										pos: position{line: 2596, col: 7, offset: 83289},
+										pos: position{line: 2600, col: 7, offset: 83397},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2782, col: 13, offset: 88564},
+												pos:        position{line: 2786, col: 13, offset: 88672},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2901, col: 12, offset: 91640},
+												pos: position{line: 2905, col: 12, offset: 91748},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2901, col: 13, offset: 91641},
+													pos: position{line: 2905, col: 13, offset: 91749},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2901, col: 13, offset: 91641},
+															pos:        position{line: 2905, col: 13, offset: 91749},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2901, col: 20, offset: 91648},
+															pos:        position{line: 2905, col: 20, offset: 91756},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2901, col: 29, offset: 91657},
+															pos:        position{line: 2905, col: 29, offset: 91765},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -48035,9 +48057,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2911, col: 8, offset: 91817},
+												pos: position{line: 2915, col: 8, offset: 91925},
 												expr: &anyMatcher{
-													line: 2911, col: 9, offset: 91818,
+													line: 2915, col: 9, offset: 91926,
 												},
 											},
 										},
@@ -48047,40 +48069,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2602, col: 21, offset: 83377},
+						pos: position{line: 2606, col: 21, offset: 83485},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2602, col: 21, offset: 83377},
+							pos:        position{line: 2606, col: 21, offset: 83485},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2606, col: 20, offset: 83447},
+						pos: position{line: 2610, col: 20, offset: 83555},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2606, col: 20, offset: 83447},
+							pos:        position{line: 2610, col: 20, offset: 83555},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2610, col: 21, offset: 83518},
+						pos: position{line: 2614, col: 21, offset: 83626},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2610, col: 21, offset: 83518},
+							pos:        position{line: 2614, col: 21, offset: 83626},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2614, col: 20, offset: 83588},
+						pos: position{line: 2618, col: 20, offset: 83696},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2614, col: 20, offset: 83588},
+							pos:        position{line: 2618, col: 20, offset: 83696},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -48091,43 +48113,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2548, col: 1, offset: 81948},
+			pos:  position{line: 2552, col: 1, offset: 82056},
 			expr: &choiceExpr{
-				pos: position{line: 2549, col: 5, offset: 81970},
+				pos: position{line: 2553, col: 5, offset: 82078},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2549, col: 5, offset: 81970},
+						pos: position{line: 2553, col: 5, offset: 82078},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2549, col: 5, offset: 81970},
+							pos: position{line: 2553, col: 5, offset: 82078},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2549, col: 5, offset: 81970},
+									pos:        position{line: 2553, col: 5, offset: 82078},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2549, col: 11, offset: 81976},
+									pos: position{line: 2553, col: 11, offset: 82084},
 									expr: &seqExpr{
-										pos: position{line: 2101, col: 5, offset: 67884},
+										pos: position{line: 2105, col: 5, offset: 67992},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2101, col: 5, offset: 67884},
+												pos:        position{line: 2105, col: 5, offset: 67992},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2102, col: 5, offset: 67893},
+												pos: position{line: 2106, col: 5, offset: 68001},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2106, col: 5, offset: 68016},
+												pos: position{line: 2110, col: 5, offset: 68124},
 												expr: &notExpr{
-													pos: position{line: 2106, col: 7, offset: 68018},
+													pos: position{line: 2110, col: 7, offset: 68126},
 													expr: &litMatcher{
-														pos:        position{line: 2106, col: 8, offset: 68019},
+														pos:        position{line: 2110, col: 8, offset: 68127},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -48141,21 +48163,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2552, col: 7, offset: 82129},
+						pos: position{line: 2556, col: 7, offset: 82237},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2552, col: 7, offset: 82129},
+							pos: position{line: 2556, col: 7, offset: 82237},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2552, col: 7, offset: 82129},
+									pos:        position{line: 2556, col: 7, offset: 82237},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2552, col: 13, offset: 82135},
+									pos: position{line: 2556, col: 13, offset: 82243},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2552, col: 14, offset: 82136},
+										pos:  position{line: 2556, col: 14, offset: 82244},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48163,38 +48185,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2555, col: 7, offset: 82286},
+						pos: position{line: 2559, col: 7, offset: 82394},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2555, col: 7, offset: 82286},
+							pos: position{line: 2559, col: 7, offset: 82394},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2555, col: 7, offset: 82286},
+									pos:        position{line: 2559, col: 7, offset: 82394},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2555, col: 12, offset: 82291},
+									pos: position{line: 2559, col: 12, offset: 82399},
 									expr: &seqExpr{
-										pos: position{line: 2101, col: 5, offset: 67884},
+										pos: position{line: 2105, col: 5, offset: 67992},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2101, col: 5, offset: 67884},
+												pos:        position{line: 2105, col: 5, offset: 67992},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2102, col: 5, offset: 67893},
+												pos: position{line: 2106, col: 5, offset: 68001},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2106, col: 5, offset: 68016},
+												pos: position{line: 2110, col: 5, offset: 68124},
 												expr: &notExpr{
-													pos: position{line: 2106, col: 7, offset: 68018},
+													pos: position{line: 2110, col: 7, offset: 68126},
 													expr: &litMatcher{
-														pos:        position{line: 2106, col: 8, offset: 68019},
+														pos:        position{line: 2110, col: 8, offset: 68127},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -48208,21 +48230,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2558, col: 7, offset: 82444},
+						pos: position{line: 2562, col: 7, offset: 82552},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2558, col: 7, offset: 82444},
+							pos: position{line: 2562, col: 7, offset: 82552},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2558, col: 7, offset: 82444},
+									pos:        position{line: 2562, col: 7, offset: 82552},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2558, col: 12, offset: 82449},
+									pos: position{line: 2562, col: 12, offset: 82557},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2558, col: 13, offset: 82450},
+										pos:  position{line: 2562, col: 13, offset: 82558},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48234,63 +48256,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2697, col: 1, offset: 85644},
+			pos:  position{line: 2701, col: 1, offset: 85752},
 			expr: &actionExpr{
-				pos: position{line: 2697, col: 26, offset: 85669},
+				pos: position{line: 2701, col: 26, offset: 85777},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2697, col: 26, offset: 85669},
+					pos: position{line: 2701, col: 26, offset: 85777},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2697, col: 26, offset: 85669},
+							pos:   position{line: 2701, col: 26, offset: 85777},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2697, col: 31, offset: 85674},
+								pos: position{line: 2701, col: 31, offset: 85782},
 								expr: &actionExpr{
-									pos: position{line: 2702, col: 5, offset: 85737},
+									pos: position{line: 2706, col: 5, offset: 85845},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2702, col: 5, offset: 85737},
+										pos: position{line: 2706, col: 5, offset: 85845},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2909, col: 11, offset: 91803},
+												pos: position{line: 2913, col: 11, offset: 91911},
 												expr: &anyMatcher{
-													line: 2909, col: 13, offset: 91805,
+													line: 2913, col: 13, offset: 91913,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2705, col: 5, offset: 85863},
+												pos:   position{line: 2709, col: 5, offset: 85971},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2705, col: 16, offset: 85874},
+													pos: position{line: 2709, col: 16, offset: 85982},
 													expr: &actionExpr{
-														pos: position{line: 2705, col: 17, offset: 85875},
+														pos: position{line: 2709, col: 17, offset: 85983},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2705, col: 17, offset: 85875},
+															pos: position{line: 2709, col: 17, offset: 85983},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2705, col: 17, offset: 85875},
+																	pos:   position{line: 2709, col: 17, offset: 85983},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2884, col: 12, offset: 91296},
+																		pos: position{line: 2888, col: 12, offset: 91404},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2884, col: 13, offset: 91297},
+																			pos: position{line: 2888, col: 13, offset: 91405},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2884, col: 13, offset: 91297},
+																					pos: position{line: 2888, col: 13, offset: 91405},
 																					expr: &litMatcher{
-																						pos:        position{line: 2884, col: 13, offset: 91297},
+																						pos:        position{line: 2888, col: 13, offset: 91405},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2884, col: 18, offset: 91302},
+																					pos: position{line: 2888, col: 18, offset: 91410},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2884, col: 18, offset: 91302},
+																						pos:        position{line: 2888, col: 18, offset: 91410},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -48302,7 +48324,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2705, col: 27, offset: 85885},
+																	pos:        position{line: 2709, col: 27, offset: 85993},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -48313,38 +48335,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2706, col: 5, offset: 85913},
+												pos:   position{line: 2710, col: 5, offset: 86021},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2706, col: 12, offset: 85920},
+													pos: position{line: 2710, col: 12, offset: 86028},
 													expr: &choiceExpr{
-														pos: position{line: 2707, col: 9, offset: 85930},
+														pos: position{line: 2711, col: 9, offset: 86038},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2707, col: 9, offset: 85930},
+																pos: position{line: 2711, col: 9, offset: 86038},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2707, col: 9, offset: 85930},
+																	pos:        position{line: 2711, col: 9, offset: 86038},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2708, col: 11, offset: 85977},
+																pos: position{line: 2712, col: 11, offset: 86085},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2708, col: 11, offset: 85977},
+																	pos:        position{line: 2712, col: 11, offset: 86085},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2709, col: 11, offset: 86025},
+																pos: position{line: 2713, col: 11, offset: 86133},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2709, col: 11, offset: 86025},
+																	pos:        position{line: 2713, col: 11, offset: 86133},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -48355,38 +48377,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2711, col: 5, offset: 86075},
+												pos:   position{line: 2715, col: 5, offset: 86183},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2711, col: 12, offset: 86082},
+													pos: position{line: 2715, col: 12, offset: 86190},
 													expr: &choiceExpr{
-														pos: position{line: 2712, col: 9, offset: 86092},
+														pos: position{line: 2716, col: 9, offset: 86200},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2712, col: 9, offset: 86092},
+																pos: position{line: 2716, col: 9, offset: 86200},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2712, col: 9, offset: 86092},
+																	pos:        position{line: 2716, col: 9, offset: 86200},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2713, col: 11, offset: 86139},
+																pos: position{line: 2717, col: 11, offset: 86247},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2713, col: 11, offset: 86139},
+																	pos:        position{line: 2717, col: 11, offset: 86247},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2714, col: 11, offset: 86189},
+																pos: position{line: 2718, col: 11, offset: 86297},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2714, col: 11, offset: 86189},
+																	pos:        position{line: 2718, col: 11, offset: 86297},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -48397,32 +48419,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2716, col: 5, offset: 86240},
+												pos:   position{line: 2720, col: 5, offset: 86348},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2716, col: 12, offset: 86247},
+													pos: position{line: 2720, col: 12, offset: 86355},
 													expr: &choiceExpr{
-														pos: position{line: 2716, col: 13, offset: 86248},
+														pos: position{line: 2720, col: 13, offset: 86356},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2884, col: 12, offset: 91296},
+																pos: position{line: 2888, col: 12, offset: 91404},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2884, col: 13, offset: 91297},
+																	pos: position{line: 2888, col: 13, offset: 91405},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2884, col: 13, offset: 91297},
+																			pos: position{line: 2888, col: 13, offset: 91405},
 																			expr: &litMatcher{
-																				pos:        position{line: 2884, col: 13, offset: 91297},
+																				pos:        position{line: 2888, col: 13, offset: 91405},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2884, col: 18, offset: 91302},
+																			pos: position{line: 2888, col: 18, offset: 91410},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2884, col: 18, offset: 91302},
+																				pos:        position{line: 2888, col: 18, offset: 91410},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -48433,10 +48455,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2716, col: 24, offset: 86259},
+																pos: position{line: 2720, col: 24, offset: 86367},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2716, col: 24, offset: 86259},
+																	pos:        position{line: 2720, col: 24, offset: 86367},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -48447,15 +48469,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2717, col: 5, offset: 86301},
+												pos:   position{line: 2721, col: 5, offset: 86409},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2717, col: 11, offset: 86307},
+													pos: position{line: 2721, col: 11, offset: 86415},
 													expr: &actionExpr{
-														pos: position{line: 2717, col: 12, offset: 86308},
+														pos: position{line: 2721, col: 12, offset: 86416},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2717, col: 12, offset: 86308},
+															pos:        position{line: 2721, col: 12, offset: 86416},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -48465,12 +48487,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2719, col: 5, offset: 86438},
+												pos:   position{line: 2723, col: 5, offset: 86546},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2719, col: 11, offset: 86444},
+													pos: position{line: 2723, col: 11, offset: 86552},
 													expr: &litMatcher{
-														pos:        position{line: 2719, col: 12, offset: 86445},
+														pos:        position{line: 2723, col: 12, offset: 86553},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -48478,7 +48500,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2720, col: 5, offset: 86455},
+												pos: position{line: 2724, col: 5, offset: 86563},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -48487,9 +48509,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2911, col: 8, offset: 91817},
+							pos: position{line: 2915, col: 8, offset: 91925},
 							expr: &anyMatcher{
-								line: 2911, col: 9, offset: 91818,
+								line: 2915, col: 9, offset: 91926,
 							},
 						},
 					},
@@ -48498,23 +48520,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2747, col: 1, offset: 87464},
+			pos:  position{line: 2751, col: 1, offset: 87572},
 			expr: &actionExpr{
-				pos: position{line: 2748, col: 5, offset: 87487},
+				pos: position{line: 2752, col: 5, offset: 87595},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2748, col: 5, offset: 87487},
+					pos: position{line: 2752, col: 5, offset: 87595},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2748, col: 5, offset: 87487},
+							pos:   position{line: 2752, col: 5, offset: 87595},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2771, col: 18, offset: 88228},
+								pos: position{line: 2775, col: 18, offset: 88336},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2771, col: 19, offset: 88229},
+									pos: position{line: 2775, col: 19, offset: 88337},
 									expr: &charClassMatcher{
-										pos:        position{line: 2771, col: 19, offset: 88229},
+										pos:        position{line: 2775, col: 19, offset: 88337},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48525,25 +48547,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2749, col: 5, offset: 87513},
+							pos: position{line: 2753, col: 5, offset: 87621},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2753, col: 5, offset: 87641},
+							pos:        position{line: 2757, col: 5, offset: 87749},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2754, col: 5, offset: 87651},
+							pos:   position{line: 2758, col: 5, offset: 87759},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2775, col: 19, offset: 88304},
+								pos: position{line: 2779, col: 19, offset: 88412},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2775, col: 19, offset: 88304},
+									pos: position{line: 2779, col: 19, offset: 88412},
 									expr: &charClassMatcher{
-										pos:        position{line: 2775, col: 19, offset: 88304},
+										pos:        position{line: 2779, col: 19, offset: 88412},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48553,36 +48575,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2755, col: 5, offset: 87679},
+							pos:   position{line: 2759, col: 5, offset: 87787},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2755, col: 17, offset: 87691},
+								pos:  position{line: 2759, col: 17, offset: 87799},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2914, col: 8, offset: 91867},
+							pos: position{line: 2918, col: 8, offset: 91975},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2901, col: 12, offset: 91640},
+									pos: position{line: 2905, col: 12, offset: 91748},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2901, col: 13, offset: 91641},
+										pos: position{line: 2905, col: 13, offset: 91749},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2901, col: 13, offset: 91641},
+												pos:        position{line: 2905, col: 13, offset: 91749},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2901, col: 20, offset: 91648},
+												pos:        position{line: 2905, col: 20, offset: 91756},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2901, col: 29, offset: 91657},
+												pos:        position{line: 2905, col: 29, offset: 91765},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -48591,9 +48613,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2911, col: 8, offset: 91817},
+									pos: position{line: 2915, col: 8, offset: 91925},
 									expr: &anyMatcher{
-										line: 2911, col: 9, offset: 91818,
+										line: 2915, col: 9, offset: 91926,
 									},
 								},
 							},
@@ -48604,23 +48626,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2759, col: 1, offset: 87839},
+			pos:  position{line: 2763, col: 1, offset: 87947},
 			expr: &actionExpr{
-				pos: position{line: 2760, col: 5, offset: 87863},
+				pos: position{line: 2764, col: 5, offset: 87971},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2760, col: 5, offset: 87863},
+					pos: position{line: 2764, col: 5, offset: 87971},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2760, col: 5, offset: 87863},
+							pos:   position{line: 2764, col: 5, offset: 87971},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2771, col: 18, offset: 88228},
+								pos: position{line: 2775, col: 18, offset: 88336},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2771, col: 19, offset: 88229},
+									pos: position{line: 2775, col: 19, offset: 88337},
 									expr: &charClassMatcher{
-										pos:        position{line: 2771, col: 19, offset: 88229},
+										pos:        position{line: 2775, col: 19, offset: 88337},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48631,25 +48653,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2761, col: 5, offset: 87889},
+							pos: position{line: 2765, col: 5, offset: 87997},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2765, col: 5, offset: 88017},
+							pos:        position{line: 2769, col: 5, offset: 88125},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2766, col: 5, offset: 88026},
+							pos:   position{line: 2770, col: 5, offset: 88134},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2775, col: 19, offset: 88304},
+								pos: position{line: 2779, col: 19, offset: 88412},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2775, col: 19, offset: 88304},
+									pos: position{line: 2779, col: 19, offset: 88412},
 									expr: &charClassMatcher{
-										pos:        position{line: 2775, col: 19, offset: 88304},
+										pos:        position{line: 2779, col: 19, offset: 88412},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48659,10 +48681,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2767, col: 5, offset: 88054},
+							pos:   position{line: 2771, col: 5, offset: 88162},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2767, col: 17, offset: 88066},
+								pos:  position{line: 2771, col: 17, offset: 88174},
 								name: "InlineAttributes",
 							},
 						},
@@ -48672,43 +48694,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2846, col: 1, offset: 90116},
+			pos:  position{line: 2850, col: 1, offset: 90224},
 			expr: &actionExpr{
-				pos: position{line: 2846, col: 17, offset: 90132},
+				pos: position{line: 2850, col: 17, offset: 90240},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2846, col: 17, offset: 90132},
+					pos:   position{line: 2850, col: 17, offset: 90240},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2863, col: 5, offset: 90586},
+						pos: position{line: 2867, col: 5, offset: 90694},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2863, col: 5, offset: 90586},
+							pos:   position{line: 2867, col: 5, offset: 90694},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2863, col: 14, offset: 90595},
+								pos: position{line: 2867, col: 14, offset: 90703},
 								expr: &choiceExpr{
-									pos: position{line: 2864, col: 9, offset: 90605},
+									pos: position{line: 2868, col: 9, offset: 90713},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2864, col: 9, offset: 90605},
+											pos: position{line: 2868, col: 9, offset: 90713},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2864, col: 9, offset: 90605},
+												pos: position{line: 2868, col: 9, offset: 90713},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2864, col: 9, offset: 90605},
+														pos: position{line: 2868, col: 9, offset: 90713},
 														expr: &litMatcher{
-															pos:        position{line: 2864, col: 10, offset: 90606},
+															pos:        position{line: 2868, col: 10, offset: 90714},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2865, col: 9, offset: 90634},
+														pos: position{line: 2869, col: 9, offset: 90742},
 														expr: &charClassMatcher{
-															pos:        position{line: 2865, col: 10, offset: 90635},
+															pos:        position{line: 2869, col: 10, offset: 90743},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48719,27 +48741,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2868, col: 11, offset: 90847},
+											pos: position{line: 2872, col: 11, offset: 90955},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2868, col: 11, offset: 90847},
+													pos:        position{line: 2872, col: 11, offset: 90955},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2868, col: 19, offset: 90855},
+													pos: position{line: 2872, col: 19, offset: 90963},
 													expr: &seqExpr{
-														pos: position{line: 2868, col: 21, offset: 90857},
+														pos: position{line: 2872, col: 21, offset: 90965},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2868, col: 21, offset: 90857},
+																pos: position{line: 2872, col: 21, offset: 90965},
 																expr: &actionExpr{
-																	pos: position{line: 2892, col: 10, offset: 91469},
+																	pos: position{line: 2896, col: 10, offset: 91577},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2892, col: 10, offset: 91469},
+																		pos:        position{line: 2896, col: 10, offset: 91577},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48748,11 +48770,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2868, col: 28, offset: 90864},
+																pos: position{line: 2872, col: 28, offset: 90972},
 																expr: &notExpr{
-																	pos: position{line: 2911, col: 8, offset: 91817},
+																	pos: position{line: 2915, col: 8, offset: 91925},
 																	expr: &anyMatcher{
-																		line: 2911, col: 9, offset: 91818,
+																		line: 2915, col: 9, offset: 91926,
 																	},
 																},
 															},
@@ -49108,27 +49130,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1220, col: 23, offset: 37720},
+											pos: position{line: 1224, col: 23, offset: 37828},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1220, col: 23, offset: 37720},
+												pos: position{line: 1224, col: 23, offset: 37828},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1218, col: 32, offset: 37688},
+														pos:        position{line: 1222, col: 32, offset: 37796},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1220, col: 51, offset: 37748},
+														pos:   position{line: 1224, col: 51, offset: 37856},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1220, col: 56, offset: 37753},
+															pos: position{line: 1224, col: 56, offset: 37861},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1220, col: 56, offset: 37753},
+																pos: position{line: 1224, col: 56, offset: 37861},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1220, col: 56, offset: 37753},
+																	pos:        position{line: 1224, col: 56, offset: 37861},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -49138,7 +49160,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1218, col: 32, offset: 37688},
+														pos:        position{line: 1222, col: 32, offset: 37796},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -49147,10 +49169,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2871, col: 11, offset: 90984},
+											pos: position{line: 2875, col: 11, offset: 91092},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2871, col: 11, offset: 90984},
+												pos:        position{line: 2875, col: 11, offset: 91092},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -57214,18 +57236,29 @@ func (p *parser) callonCrossReference16() (interface{}, error) {
 	return p.cur.onCrossReference16()
 }
 
-func (c *current) onCrossReference25() (interface{}, error) {
+func (c *current) onCrossReference23() (bool, error) {
+	return c.isSubstitutionEnabled(AttributeRefs), nil
+
+}
+
+func (p *parser) callonCrossReference23() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onCrossReference23()
+}
+
+func (c *current) onCrossReference30() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonCrossReference25() (interface{}, error) {
+func (p *parser) callonCrossReference30() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference25()
+	return p.cur.onCrossReference30()
 }
 
-func (c *current) onCrossReference21(name interface{}) (interface{}, error) {
+func (c *current) onCrossReference26(name interface{}) (interface{}, error) {
 
 	log.Debug("matching escaped attribute reference")
 	// return types.NewStringElement("{"+name.(string)+"}")
@@ -57233,45 +57266,56 @@ func (c *current) onCrossReference21(name interface{}) (interface{}, error) {
 
 }
 
-func (p *parser) callonCrossReference21() (interface{}, error) {
+func (p *parser) callonCrossReference26() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference21(stack["name"])
+	return p.cur.onCrossReference26(stack["name"])
 }
 
-func (c *current) onCrossReference35() (interface{}, error) {
+func (c *current) onCrossReference40() (interface{}, error) {
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonCrossReference35() (interface{}, error) {
+func (p *parser) callonCrossReference40() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference35()
+	return p.cur.onCrossReference40()
 }
 
-func (c *current) onCrossReference31(name interface{}) (interface{}, error) {
+func (c *current) onCrossReference36(name interface{}) (interface{}, error) {
 
 	return types.NewAttributeReference(name.(string), string(c.text))
 
 }
 
-func (p *parser) callonCrossReference31() (interface{}, error) {
+func (p *parser) callonCrossReference36() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onCrossReference36(stack["name"])
+}
+
+func (c *current) onCrossReference21(ref interface{}) (interface{}, error) {
+	return ref, nil
+
+}
+
+func (p *parser) callonCrossReference21() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference31(stack["name"])
+	return p.cur.onCrossReference21(stack["ref"])
 }
 
-func (c *current) onCrossReference41() (interface{}, error) {
+func (c *current) onCrossReference46() (interface{}, error) {
 
 	return types.NewStringElement(string(c.text))
 
 }
 
-func (p *parser) callonCrossReference41() (interface{}, error) {
+func (p *parser) callonCrossReference46() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference41()
+	return p.cur.onCrossReference46()
 }
 
 func (c *current) onCrossReference2(id, label interface{}) (interface{}, error) {
@@ -57285,27 +57329,27 @@ func (p *parser) callonCrossReference2() (interface{}, error) {
 	return p.cur.onCrossReference2(stack["id"], stack["label"])
 }
 
-func (c *current) onCrossReference48() (interface{}, error) {
+func (c *current) onCrossReference53() (interface{}, error) {
 	// previously: (Alphanums / (!Newline !Space !"[" !"]" !"<<" !">>" !","  .))+
 	return string(c.text), nil
 
 }
 
-func (p *parser) callonCrossReference48() (interface{}, error) {
+func (p *parser) callonCrossReference53() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference48()
+	return p.cur.onCrossReference53()
 }
 
-func (c *current) onCrossReference44(id interface{}) (interface{}, error) {
+func (c *current) onCrossReference49(id interface{}) (interface{}, error) {
 	return types.NewInternalCrossReference(id, nil)
 
 }
 
-func (p *parser) callonCrossReference44() (interface{}, error) {
+func (p *parser) callonCrossReference49() (interface{}, error) {
 	stack := p.vstack[len(p.vstack)-1]
 	_ = stack
-	return p.cur.onCrossReference44(stack["id"])
+	return p.cur.onCrossReference49(stack["id"])
 }
 
 func (c *current) onExternalCrossReference11() (interface{}, error) {
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 4671441..e836182 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -707,7 +707,11 @@ CrossReferenceLabel <- (
     ([\pL\pN][^\r\n{<>]+ { // `{`, `>` and `>` characters are not allowed as they are used for attribute substitutions and cross-references 
         return types.NewStringElement(string(c.text))
     })
-    / AttributeReferenceValue
+    / (&{
+        return c.isSubstitutionEnabled(AttributeRefs), nil
+    } ref:(AttributeReferenceValue) {
+        return ref, nil
+    })
     / ("{" { 
         return types.NewStringElement(string(c.text))
     })
-- 
2.43.0


From 8091e72fc0d0c777a11ceabf29e341217d21d23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:37 +0000
Subject: [PATCH 069/108] fix: apply verbatim substitutions in literal and
 source paragraphs

Quotes, macros, replacements, etc. were interpreted in them.
---
 pkg/parser/document_substitutions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/document_substitutions.go b/pkg/parser/document_substitutions.go
index bf7adf8..49289c2 100644
--- a/pkg/parser/document_substitutions.go
+++ b/pkg/parser/document_substitutions.go
@@ -152,9 +152,9 @@ func defaultSubstitutions(b types.WithElements) *substitutions {
 			return verbatimSubstitutions()
 		}
 	case *types.Paragraph:
-		// if listing paragraph:
+		// if verbatim paragraph:
 		switch b.GetAttributes().GetAsStringWithDefault(types.AttrStyle, "") {
-		case types.Listing:
+		case types.Listing, types.Source, types.Literal, types.LiteralParagraph:
 			return verbatimSubstitutions()
 		case types.Passthrough:
 			return noneSubstitutions()
-- 
2.43.0


From 1958a9ab0fb152f94f1e6b51fc1cafd19af07fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:48 +0000
Subject: [PATCH 070/108] fix: support spaces between the substitutions of a
 block

The content of blocks with e.g. `subs="quotes, macros"` was dropped.
---
 pkg/parser/document_substitutions.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/parser/document_substitutions.go b/pkg/parser/document_substitutions.go
index 49289c2..71a0f5a 100644
--- a/pkg/parser/document_substitutions.go
+++ b/pkg/parser/document_substitutions.go
@@ -102,6 +102,9 @@ func newSubstitutions(b types.WithElements) (*substitutions, error) {
 		return defaultSubstitutions(b), nil
 	}
 	subs := strings.Split(attrSub, ",")
+	for i, sub := range subs {
+		subs[i] = strings.TrimSpace(sub)
+	}
 	var result *substitutions
 	// when dealing with incremental substitutions, use default sub as a baseline and append or prepend the incremental subs
 	if allIncremental(subs) {
-- 
2.43.0


From 003409ad643b9911ab4776561a6a89d66c5853ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:13 +0000
Subject: [PATCH 071/108] fix: retain quotation marks in attribute values when
 replacements are disabled

The marks were replaced with symbols, whatever the substitutions of the block.
---
 pkg/parser/parser.go  | 19095 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |    15 +-
 2 files changed, 9583 insertions(+), 9527 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 8ca8d26..1124807 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 367, col: 49, offset: 11183},
 													expr: &actionExpr{
-														pos: position{line: 2896, col: 10, offset: 91577},
+														pos: position{line: 2905, col: 10, offset: 91835},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2896, col: 10, offset: 91577},
+															pos:        position{line: 2905, col: 10, offset: 91835},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2918, col: 8, offset: 91975},
+													pos: position{line: 2927, col: 8, offset: 92233},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2905, col: 12, offset: 91748},
+															pos: position{line: 2914, col: 12, offset: 92006},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2905, col: 13, offset: 91749},
+																pos: position{line: 2914, col: 13, offset: 92007},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 13, offset: 91749},
+																		pos:        position{line: 2914, col: 13, offset: 92007},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 20, offset: 91756},
+																		pos:        position{line: 2914, col: 20, offset: 92014},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 29, offset: 91765},
+																		pos:        position{line: 2914, col: 29, offset: 92023},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2915, col: 8, offset: 91925},
+															pos: position{line: 2924, col: 8, offset: 92183},
 															expr: &anyMatcher{
-																line: 2915, col: 9, offset: 91926,
+																line: 2924, col: 9, offset: 92184,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 369, col: 39, offset: 11304},
 													expr: &actionExpr{
-														pos: position{line: 2896, col: 10, offset: 91577},
+														pos: position{line: 2905, col: 10, offset: 91835},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2896, col: 10, offset: 91577},
+															pos:        position{line: 2905, col: 10, offset: 91835},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2918, col: 8, offset: 91975},
+													pos: position{line: 2927, col: 8, offset: 92233},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2905, col: 12, offset: 91748},
+															pos: position{line: 2914, col: 12, offset: 92006},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2905, col: 13, offset: 91749},
+																pos: position{line: 2914, col: 13, offset: 92007},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 13, offset: 91749},
+																		pos:        position{line: 2914, col: 13, offset: 92007},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 20, offset: 91756},
+																		pos:        position{line: 2914, col: 20, offset: 92014},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 29, offset: 91765},
+																		pos:        position{line: 2914, col: 29, offset: 92023},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2915, col: 8, offset: 91925},
+															pos: position{line: 2924, col: 8, offset: 92183},
 															expr: &anyMatcher{
-																line: 2915, col: 9, offset: 91926,
+																line: 2924, col: 9, offset: 92184,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2896, col: 10, offset: 91577},
+														pos: position{line: 2905, col: 10, offset: 91835},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2896, col: 10, offset: 91577},
+															pos:        position{line: 2905, col: 10, offset: 91835},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2915, col: 8, offset: 91925},
+													pos: position{line: 2924, col: 8, offset: 92183},
 													expr: &anyMatcher{
-														line: 2915, col: 9, offset: 91926,
+														line: 2924, col: 9, offset: 92184,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2896, col: 10, offset: 91577},
+														pos: position{line: 2905, col: 10, offset: 91835},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2896, col: 10, offset: 91577},
+															pos:        position{line: 2905, col: 10, offset: 91835},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2915, col: 8, offset: 91925},
+													pos: position{line: 2924, col: 8, offset: 92183},
 													expr: &anyMatcher{
-														line: 2915, col: 9, offset: 91926,
+														line: 2924, col: 9, offset: 92184,
 													},
 												},
 											},
@@ -464,22 +464,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 655, col: 5, offset: 20665},
+																				pos: position{line: 655, col: 5, offset: 20697},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 655, col: 5, offset: 20665},
+																						pos: position{line: 655, col: 5, offset: 20697},
 																						run: (*parser).callonDocumentRawLine97,
 																						expr: &seqExpr{
-																							pos: position{line: 655, col: 5, offset: 20665},
+																							pos: position{line: 655, col: 5, offset: 20697},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 655, col: 5, offset: 20665},
+																									pos:        position{line: 655, col: 5, offset: 20697},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 655, col: 13, offset: 20673},
+																									pos:   position{line: 655, col: 13, offset: 20705},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -511,7 +511,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 655, col: 32, offset: 20692},
+																									pos:        position{line: 655, col: 32, offset: 20724},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -520,19 +520,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 662, col: 5, offset: 20933},
+																						pos: position{line: 662, col: 5, offset: 20965},
 																						run: (*parser).callonDocumentRawLine107,
 																						expr: &seqExpr{
-																							pos: position{line: 662, col: 5, offset: 20933},
+																							pos: position{line: 662, col: 5, offset: 20965},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 662, col: 5, offset: 20933},
+																									pos:        position{line: 662, col: 5, offset: 20965},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 662, col: 9, offset: 20937},
+																									pos:   position{line: 662, col: 9, offset: 20969},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -564,7 +564,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 662, col: 28, offset: 20956},
+																									pos:        position{line: 662, col: 28, offset: 20988},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -600,22 +600,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 655, col: 5, offset: 20665},
+																				pos: position{line: 655, col: 5, offset: 20697},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 655, col: 5, offset: 20665},
+																						pos: position{line: 655, col: 5, offset: 20697},
 																						run: (*parser).callonDocumentRawLine123,
 																						expr: &seqExpr{
-																							pos: position{line: 655, col: 5, offset: 20665},
+																							pos: position{line: 655, col: 5, offset: 20697},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 655, col: 5, offset: 20665},
+																									pos:        position{line: 655, col: 5, offset: 20697},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 655, col: 13, offset: 20673},
+																									pos:   position{line: 655, col: 13, offset: 20705},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -647,7 +647,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 655, col: 32, offset: 20692},
+																									pos:        position{line: 655, col: 32, offset: 20724},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -656,19 +656,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 662, col: 5, offset: 20933},
+																						pos: position{line: 662, col: 5, offset: 20965},
 																						run: (*parser).callonDocumentRawLine133,
 																						expr: &seqExpr{
-																							pos: position{line: 662, col: 5, offset: 20933},
+																							pos: position{line: 662, col: 5, offset: 20965},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 662, col: 5, offset: 20933},
+																									pos:        position{line: 662, col: 5, offset: 20965},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 662, col: 9, offset: 20937},
+																									pos:   position{line: 662, col: 9, offset: 20969},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -700,7 +700,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 662, col: 28, offset: 20956},
+																									pos:        position{line: 662, col: 28, offset: 20988},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -727,22 +727,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 655, col: 5, offset: 20665},
+																		pos: position{line: 655, col: 5, offset: 20697},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 655, col: 5, offset: 20665},
+																				pos: position{line: 655, col: 5, offset: 20697},
 																				run: (*parser).callonDocumentRawLine147,
 																				expr: &seqExpr{
-																					pos: position{line: 655, col: 5, offset: 20665},
+																					pos: position{line: 655, col: 5, offset: 20697},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 655, col: 5, offset: 20665},
+																							pos:        position{line: 655, col: 5, offset: 20697},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 655, col: 13, offset: 20673},
+																							pos:   position{line: 655, col: 13, offset: 20705},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -774,7 +774,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 655, col: 32, offset: 20692},
+																							pos:        position{line: 655, col: 32, offset: 20724},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -783,19 +783,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 662, col: 5, offset: 20933},
+																				pos: position{line: 662, col: 5, offset: 20965},
 																				run: (*parser).callonDocumentRawLine157,
 																				expr: &seqExpr{
-																					pos: position{line: 662, col: 5, offset: 20933},
+																					pos: position{line: 662, col: 5, offset: 20965},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 662, col: 5, offset: 20933},
+																							pos:        position{line: 662, col: 5, offset: 20965},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 662, col: 9, offset: 20937},
+																							pos:   position{line: 662, col: 9, offset: 20969},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -827,7 +827,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 662, col: 28, offset: 20956},
+																							pos:        position{line: 662, col: 28, offset: 20988},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2888, col: 12, offset: 91404},
+																pos: position{line: 2897, col: 12, offset: 91662},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2888, col: 13, offset: 91405},
+																	pos: position{line: 2897, col: 13, offset: 91663},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2888, col: 13, offset: 91405},
+																			pos: position{line: 2897, col: 13, offset: 91663},
 																			expr: &litMatcher{
-																				pos:        position{line: 2888, col: 13, offset: 91405},
+																				pos:        position{line: 2897, col: 13, offset: 91663},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2888, col: 18, offset: 91410},
+																			pos: position{line: 2897, col: 18, offset: 91668},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2888, col: 18, offset: 91410},
+																				pos:        position{line: 2897, col: 18, offset: 91668},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2896, col: 10, offset: 91577},
+														pos: position{line: 2905, col: 10, offset: 91835},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2896, col: 10, offset: 91577},
+															pos:        position{line: 2905, col: 10, offset: 91835},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2896, col: 10, offset: 91577},
+														pos: position{line: 2905, col: 10, offset: 91835},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2896, col: 10, offset: 91577},
+															pos:        position{line: 2905, col: 10, offset: 91835},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1069,22 +1069,22 @@ var g = &grammar{
 																			pos:   position{line: 92, col: 11, offset: 2501},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 655, col: 5, offset: 20665},
+																				pos: position{line: 655, col: 5, offset: 20697},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 655, col: 5, offset: 20665},
+																						pos: position{line: 655, col: 5, offset: 20697},
 																						run: (*parser).callonDocumentRawLine216,
 																						expr: &seqExpr{
-																							pos: position{line: 655, col: 5, offset: 20665},
+																							pos: position{line: 655, col: 5, offset: 20697},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 655, col: 5, offset: 20665},
+																									pos:        position{line: 655, col: 5, offset: 20697},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 655, col: 13, offset: 20673},
+																									pos:   position{line: 655, col: 13, offset: 20705},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -1116,7 +1116,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 655, col: 32, offset: 20692},
+																									pos:        position{line: 655, col: 32, offset: 20724},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1125,19 +1125,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 662, col: 5, offset: 20933},
+																						pos: position{line: 662, col: 5, offset: 20965},
 																						run: (*parser).callonDocumentRawLine226,
 																						expr: &seqExpr{
-																							pos: position{line: 662, col: 5, offset: 20933},
+																							pos: position{line: 662, col: 5, offset: 20965},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 662, col: 5, offset: 20933},
+																									pos:        position{line: 662, col: 5, offset: 20965},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 662, col: 9, offset: 20937},
+																									pos:   position{line: 662, col: 9, offset: 20969},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -1169,7 +1169,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 662, col: 28, offset: 20956},
+																									pos:        position{line: 662, col: 28, offset: 20988},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1205,22 +1205,22 @@ var g = &grammar{
 																			pos:   position{line: 93, col: 12, offset: 2564},
 																			label: "s",
 																			expr: &choiceExpr{
-																				pos: position{line: 655, col: 5, offset: 20665},
+																				pos: position{line: 655, col: 5, offset: 20697},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 655, col: 5, offset: 20665},
+																						pos: position{line: 655, col: 5, offset: 20697},
 																						run: (*parser).callonDocumentRawLine242,
 																						expr: &seqExpr{
-																							pos: position{line: 655, col: 5, offset: 20665},
+																							pos: position{line: 655, col: 5, offset: 20697},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 655, col: 5, offset: 20665},
+																									pos:        position{line: 655, col: 5, offset: 20697},
 																									val:        "\\{",
 																									ignoreCase: false,
 																									want:       "\"\\\\{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 655, col: 13, offset: 20673},
+																									pos:   position{line: 655, col: 13, offset: 20705},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -1252,7 +1252,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 655, col: 32, offset: 20692},
+																									pos:        position{line: 655, col: 32, offset: 20724},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1261,19 +1261,19 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 662, col: 5, offset: 20933},
+																						pos: position{line: 662, col: 5, offset: 20965},
 																						run: (*parser).callonDocumentRawLine252,
 																						expr: &seqExpr{
-																							pos: position{line: 662, col: 5, offset: 20933},
+																							pos: position{line: 662, col: 5, offset: 20965},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 662, col: 5, offset: 20933},
+																									pos:        position{line: 662, col: 5, offset: 20965},
 																									val:        "{",
 																									ignoreCase: false,
 																									want:       "\"{\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 662, col: 9, offset: 20937},
+																									pos:   position{line: 662, col: 9, offset: 20969},
 																									label: "name",
 																									expr: &actionExpr{
 																										pos: position{line: 318, col: 18, offset: 9736},
@@ -1305,7 +1305,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 662, col: 28, offset: 20956},
+																									pos:        position{line: 662, col: 28, offset: 20988},
 																									val:        "}",
 																									ignoreCase: false,
 																									want:       "\"}\"",
@@ -1332,22 +1332,22 @@ var g = &grammar{
 																	pos:   position{line: 94, col: 8, offset: 2622},
 																	label: "s",
 																	expr: &choiceExpr{
-																		pos: position{line: 655, col: 5, offset: 20665},
+																		pos: position{line: 655, col: 5, offset: 20697},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 655, col: 5, offset: 20665},
+																				pos: position{line: 655, col: 5, offset: 20697},
 																				run: (*parser).callonDocumentRawLine266,
 																				expr: &seqExpr{
-																					pos: position{line: 655, col: 5, offset: 20665},
+																					pos: position{line: 655, col: 5, offset: 20697},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 655, col: 5, offset: 20665},
+																							pos:        position{line: 655, col: 5, offset: 20697},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 655, col: 13, offset: 20673},
+																							pos:   position{line: 655, col: 13, offset: 20705},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -1379,7 +1379,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 655, col: 32, offset: 20692},
+																							pos:        position{line: 655, col: 32, offset: 20724},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1388,19 +1388,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 662, col: 5, offset: 20933},
+																				pos: position{line: 662, col: 5, offset: 20965},
 																				run: (*parser).callonDocumentRawLine276,
 																				expr: &seqExpr{
-																					pos: position{line: 662, col: 5, offset: 20933},
+																					pos: position{line: 662, col: 5, offset: 20965},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 662, col: 5, offset: 20933},
+																							pos:        position{line: 662, col: 5, offset: 20965},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 662, col: 9, offset: 20937},
+																							pos:   position{line: 662, col: 9, offset: 20969},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -1432,7 +1432,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 662, col: 28, offset: 20956},
+																							pos:        position{line: 662, col: 28, offset: 20988},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2888, col: 12, offset: 91404},
+																pos: position{line: 2897, col: 12, offset: 91662},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2888, col: 13, offset: 91405},
+																	pos: position{line: 2897, col: 13, offset: 91663},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2888, col: 13, offset: 91405},
+																			pos: position{line: 2897, col: 13, offset: 91663},
 																			expr: &litMatcher{
-																				pos:        position{line: 2888, col: 13, offset: 91405},
+																				pos:        position{line: 2897, col: 13, offset: 91663},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2888, col: 18, offset: 91410},
+																			pos: position{line: 2897, col: 18, offset: 91668},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2888, col: 18, offset: 91410},
+																				pos:        position{line: 2897, col: 18, offset: 91668},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2896, col: 10, offset: 91577},
+														pos: position{line: 2905, col: 10, offset: 91835},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2896, col: 10, offset: 91577},
+															pos:        position{line: 2905, col: 10, offset: 91835},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2915, col: 8, offset: 91925},
+													pos: position{line: 2924, col: 8, offset: 92183},
 													expr: &anyMatcher{
-														line: 2915, col: 9, offset: 91926,
+														line: 2924, col: 9, offset: 92184,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2896, col: 10, offset: 91577},
+														pos: position{line: 2905, col: 10, offset: 91835},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2896, col: 10, offset: 91577},
+															pos:        position{line: 2905, col: 10, offset: 91835},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,24 +1665,24 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2915, col: 8, offset: 91925},
+													pos: position{line: 2924, col: 8, offset: 92183},
 													expr: &anyMatcher{
-														line: 2915, col: 9, offset: 91926,
+														line: 2924, col: 9, offset: 92184,
 													},
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 738, col: 5, offset: 23496},
+										pos: position{line: 738, col: 5, offset: 23528},
 										run: (*parser).callonDocumentRawLine334,
 										expr: &seqExpr{
-											pos: position{line: 738, col: 5, offset: 23496},
+											pos: position{line: 738, col: 5, offset: 23528},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 738, col: 5, offset: 23496},
+													pos: position{line: 738, col: 5, offset: 23528},
 													expr: &charClassMatcher{
-														pos:        position{line: 2786, col: 13, offset: 88672},
+														pos:        position{line: 2795, col: 13, offset: 88930},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1690,36 +1690,36 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 739, col: 5, offset: 23526},
+													pos:   position{line: 739, col: 5, offset: 23558},
 													label: "delimiter",
 													expr: &choiceExpr{
-														pos: position{line: 740, col: 9, offset: 23546},
+														pos: position{line: 740, col: 9, offset: 23578},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 754, col: 5, offset: 24038},
+																pos: position{line: 754, col: 5, offset: 24070},
 																run: (*parser).callonDocumentRawLine340,
 																expr: &seqExpr{
-																	pos: position{line: 754, col: 5, offset: 24038},
+																	pos: position{line: 754, col: 5, offset: 24070},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 754, col: 5, offset: 24038},
+																			pos:   position{line: 754, col: 5, offset: 24070},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 16, offset: 24049},
+																				pos: position{line: 754, col: 16, offset: 24081},
 																				run: (*parser).callonDocumentRawLine343,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 16, offset: 24049},
+																					pos: position{line: 754, col: 16, offset: 24081},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 754, col: 16, offset: 24049},
+																							pos:        position{line: 754, col: 16, offset: 24081},
 																							val:        "////",
 																							ignoreCase: false,
 																							want:       "\"////\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 754, col: 23, offset: 24056},
+																							pos: position{line: 754, col: 23, offset: 24088},
 																							expr: &litMatcher{
-																								pos:        position{line: 754, col: 23, offset: 24056},
+																								pos:        position{line: 754, col: 23, offset: 24088},
 																								val:        "/",
 																								ignoreCase: false,
 																								want:       "\"/\"",
@@ -1730,12 +1730,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 756, col: 8, offset: 24140},
+																			pos: position{line: 756, col: 8, offset: 24172},
 																			expr: &actionExpr{
-																				pos: position{line: 2896, col: 10, offset: 91577},
+																				pos: position{line: 2905, col: 10, offset: 91835},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2896, col: 10, offset: 91577},
+																					pos:        position{line: 2905, col: 10, offset: 91835},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2918, col: 8, offset: 91975},
+																			pos: position{line: 2927, col: 8, offset: 92233},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2905, col: 12, offset: 91748},
+																					pos: position{line: 2914, col: 12, offset: 92006},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2905, col: 13, offset: 91749},
+																						pos: position{line: 2914, col: 13, offset: 92007},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 13, offset: 91749},
+																								pos:        position{line: 2914, col: 13, offset: 92007},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 20, offset: 91756},
+																								pos:        position{line: 2914, col: 20, offset: 92014},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 29, offset: 91765},
+																								pos:        position{line: 2914, col: 29, offset: 92023},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
@@ -1785,30 +1785,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 761, col: 5, offset: 24286},
+																pos: position{line: 761, col: 5, offset: 24318},
 																run: (*parser).callonDocumentRawLine359,
 																expr: &seqExpr{
-																	pos: position{line: 761, col: 5, offset: 24286},
+																	pos: position{line: 761, col: 5, offset: 24318},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 761, col: 5, offset: 24286},
+																			pos:   position{line: 761, col: 5, offset: 24318},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 761, col: 16, offset: 24297},
+																				pos: position{line: 761, col: 16, offset: 24329},
 																				run: (*parser).callonDocumentRawLine362,
 																				expr: &seqExpr{
-																					pos: position{line: 761, col: 16, offset: 24297},
+																					pos: position{line: 761, col: 16, offset: 24329},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 761, col: 16, offset: 24297},
+																							pos:        position{line: 761, col: 16, offset: 24329},
 																							val:        "====",
 																							ignoreCase: false,
 																							want:       "\"====\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 761, col: 23, offset: 24304},
+																							pos: position{line: 761, col: 23, offset: 24336},
 																							expr: &litMatcher{
-																								pos:        position{line: 761, col: 23, offset: 24304},
+																								pos:        position{line: 761, col: 23, offset: 24336},
 																								val:        "=",
 																								ignoreCase: false,
 																								want:       "\"=\"",
@@ -1819,12 +1819,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 763, col: 8, offset: 24388},
+																			pos: position{line: 763, col: 8, offset: 24420},
 																			expr: &actionExpr{
-																				pos: position{line: 2896, col: 10, offset: 91577},
+																				pos: position{line: 2905, col: 10, offset: 91835},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2896, col: 10, offset: 91577},
+																					pos:        position{line: 2905, col: 10, offset: 91835},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2918, col: 8, offset: 91975},
+																			pos: position{line: 2927, col: 8, offset: 92233},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2905, col: 12, offset: 91748},
+																					pos: position{line: 2914, col: 12, offset: 92006},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2905, col: 13, offset: 91749},
+																						pos: position{line: 2914, col: 13, offset: 92007},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 13, offset: 91749},
+																								pos:        position{line: 2914, col: 13, offset: 92007},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 20, offset: 91756},
+																								pos:        position{line: 2914, col: 20, offset: 92014},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 29, offset: 91765},
+																								pos:        position{line: 2914, col: 29, offset: 92023},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
@@ -1874,27 +1874,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 774, col: 26, offset: 24774},
+																pos: position{line: 774, col: 26, offset: 24806},
 																run: (*parser).callonDocumentRawLine378,
 																expr: &seqExpr{
-																	pos: position{line: 774, col: 26, offset: 24774},
+																	pos: position{line: 774, col: 26, offset: 24806},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 774, col: 26, offset: 24774},
+																			pos:        position{line: 774, col: 26, offset: 24806},
 																			val:        "```",
 																			ignoreCase: false,
 																			want:       "\"```\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 774, col: 32, offset: 24780},
+																			pos:   position{line: 774, col: 32, offset: 24812},
 																			label: "language",
 																			expr: &actionExpr{
-																				pos: position{line: 778, col: 13, offset: 24910},
+																				pos: position{line: 778, col: 13, offset: 24942},
 																				run: (*parser).callonDocumentRawLine382,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 778, col: 14, offset: 24911},
+																					pos: position{line: 778, col: 14, offset: 24943},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 778, col: 14, offset: 24911},
+																						pos:        position{line: 778, col: 14, offset: 24943},
 																						val:        "[^\\r\\n` ]",
 																						chars:      []rune{'\r', '\n', '`', ' '},
 																						ignoreCase: false,
@@ -1904,12 +1904,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 774, col: 52, offset: 24800},
+																			pos: position{line: 774, col: 52, offset: 24832},
 																			expr: &actionExpr{
-																				pos: position{line: 2896, col: 10, offset: 91577},
+																				pos: position{line: 2905, col: 10, offset: 91835},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2896, col: 10, offset: 91577},
+																					pos:        position{line: 2905, col: 10, offset: 91835},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2918, col: 8, offset: 91975},
+																			pos: position{line: 2927, col: 8, offset: 92233},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2905, col: 12, offset: 91748},
+																					pos: position{line: 2914, col: 12, offset: 92006},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2905, col: 13, offset: 91749},
+																						pos: position{line: 2914, col: 13, offset: 92007},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 13, offset: 91749},
+																								pos:        position{line: 2914, col: 13, offset: 92007},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 20, offset: 91756},
+																								pos:        position{line: 2914, col: 20, offset: 92014},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 29, offset: 91765},
+																								pos:        position{line: 2914, col: 29, offset: 92023},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
@@ -1959,30 +1959,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 768, col: 5, offset: 24533},
+																pos: position{line: 768, col: 5, offset: 24565},
 																run: (*parser).callonDocumentRawLine396,
 																expr: &seqExpr{
-																	pos: position{line: 768, col: 5, offset: 24533},
+																	pos: position{line: 768, col: 5, offset: 24565},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 768, col: 5, offset: 24533},
+																			pos:   position{line: 768, col: 5, offset: 24565},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 768, col: 16, offset: 24544},
+																				pos: position{line: 768, col: 16, offset: 24576},
 																				run: (*parser).callonDocumentRawLine399,
 																				expr: &seqExpr{
-																					pos: position{line: 768, col: 16, offset: 24544},
+																					pos: position{line: 768, col: 16, offset: 24576},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 768, col: 16, offset: 24544},
+																							pos:        position{line: 768, col: 16, offset: 24576},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 768, col: 22, offset: 24550},
+																							pos: position{line: 768, col: 22, offset: 24582},
 																							expr: &litMatcher{
-																								pos:        position{line: 768, col: 22, offset: 24550},
+																								pos:        position{line: 768, col: 22, offset: 24582},
 																								val:        "`",
 																								ignoreCase: false,
 																								want:       "\"`\"",
@@ -1993,12 +1993,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 770, col: 8, offset: 24634},
+																			pos: position{line: 770, col: 8, offset: 24666},
 																			expr: &actionExpr{
-																				pos: position{line: 2896, col: 10, offset: 91577},
+																				pos: position{line: 2905, col: 10, offset: 91835},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2896, col: 10, offset: 91577},
+																					pos:        position{line: 2905, col: 10, offset: 91835},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2918, col: 8, offset: 91975},
+																			pos: position{line: 2927, col: 8, offset: 92233},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2905, col: 12, offset: 91748},
+																					pos: position{line: 2914, col: 12, offset: 92006},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2905, col: 13, offset: 91749},
+																						pos: position{line: 2914, col: 13, offset: 92007},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 13, offset: 91749},
+																								pos:        position{line: 2914, col: 13, offset: 92007},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 20, offset: 91756},
+																								pos:        position{line: 2914, col: 20, offset: 92014},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 29, offset: 91765},
+																								pos:        position{line: 2914, col: 29, offset: 92023},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
@@ -2048,30 +2048,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 783, col: 5, offset: 25070},
+																pos: position{line: 783, col: 5, offset: 25102},
 																run: (*parser).callonDocumentRawLine415,
 																expr: &seqExpr{
-																	pos: position{line: 783, col: 5, offset: 25070},
+																	pos: position{line: 783, col: 5, offset: 25102},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 783, col: 5, offset: 25070},
+																			pos:   position{line: 783, col: 5, offset: 25102},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 16, offset: 25081},
+																				pos: position{line: 783, col: 16, offset: 25113},
 																				run: (*parser).callonDocumentRawLine418,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 16, offset: 25081},
+																					pos: position{line: 783, col: 16, offset: 25113},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 783, col: 16, offset: 25081},
+																							pos:        position{line: 783, col: 16, offset: 25113},
 																							val:        "----",
 																							ignoreCase: false,
 																							want:       "\"----\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 783, col: 23, offset: 25088},
+																							pos: position{line: 783, col: 23, offset: 25120},
 																							expr: &litMatcher{
-																								pos:        position{line: 783, col: 23, offset: 25088},
+																								pos:        position{line: 783, col: 23, offset: 25120},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
@@ -2082,12 +2082,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 785, col: 8, offset: 25172},
+																			pos: position{line: 785, col: 8, offset: 25204},
 																			expr: &actionExpr{
-																				pos: position{line: 2896, col: 10, offset: 91577},
+																				pos: position{line: 2905, col: 10, offset: 91835},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2896, col: 10, offset: 91577},
+																					pos:        position{line: 2905, col: 10, offset: 91835},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2918, col: 8, offset: 91975},
+																			pos: position{line: 2927, col: 8, offset: 92233},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2905, col: 12, offset: 91748},
+																					pos: position{line: 2914, col: 12, offset: 92006},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2905, col: 13, offset: 91749},
+																						pos: position{line: 2914, col: 13, offset: 92007},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 13, offset: 91749},
+																								pos:        position{line: 2914, col: 13, offset: 92007},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 20, offset: 91756},
+																								pos:        position{line: 2914, col: 20, offset: 92014},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 29, offset: 91765},
+																								pos:        position{line: 2914, col: 29, offset: 92023},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
@@ -2137,30 +2137,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 797, col: 5, offset: 25546},
+																pos: position{line: 797, col: 5, offset: 25578},
 																run: (*parser).callonDocumentRawLine434,
 																expr: &seqExpr{
-																	pos: position{line: 797, col: 5, offset: 25546},
+																	pos: position{line: 797, col: 5, offset: 25578},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 797, col: 5, offset: 25546},
+																			pos:   position{line: 797, col: 5, offset: 25578},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 16, offset: 25557},
+																				pos: position{line: 797, col: 16, offset: 25589},
 																				run: (*parser).callonDocumentRawLine437,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 16, offset: 25557},
+																					pos: position{line: 797, col: 16, offset: 25589},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 797, col: 16, offset: 25557},
+																							pos:        position{line: 797, col: 16, offset: 25589},
 																							val:        "....",
 																							ignoreCase: false,
 																							want:       "\"....\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 797, col: 23, offset: 25564},
+																							pos: position{line: 797, col: 23, offset: 25596},
 																							expr: &litMatcher{
-																								pos:        position{line: 797, col: 23, offset: 25564},
+																								pos:        position{line: 797, col: 23, offset: 25596},
 																								val:        ".",
 																								ignoreCase: false,
 																								want:       "\".\"",
@@ -2171,12 +2171,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 799, col: 8, offset: 25648},
+																			pos: position{line: 799, col: 8, offset: 25680},
 																			expr: &actionExpr{
-																				pos: position{line: 2896, col: 10, offset: 91577},
+																				pos: position{line: 2905, col: 10, offset: 91835},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2896, col: 10, offset: 91577},
+																					pos:        position{line: 2905, col: 10, offset: 91835},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2918, col: 8, offset: 91975},
+																			pos: position{line: 2927, col: 8, offset: 92233},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2905, col: 12, offset: 91748},
+																					pos: position{line: 2914, col: 12, offset: 92006},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2905, col: 13, offset: 91749},
+																						pos: position{line: 2914, col: 13, offset: 92007},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 13, offset: 91749},
+																								pos:        position{line: 2914, col: 13, offset: 92007},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 20, offset: 91756},
+																								pos:        position{line: 2914, col: 20, offset: 92014},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 29, offset: 91765},
+																								pos:        position{line: 2914, col: 29, offset: 92023},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
@@ -2226,30 +2226,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 804, col: 5, offset: 25798},
+																pos: position{line: 804, col: 5, offset: 25830},
 																run: (*parser).callonDocumentRawLine453,
 																expr: &seqExpr{
-																	pos: position{line: 804, col: 5, offset: 25798},
+																	pos: position{line: 804, col: 5, offset: 25830},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 804, col: 5, offset: 25798},
+																			pos:   position{line: 804, col: 5, offset: 25830},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 16, offset: 25809},
+																				pos: position{line: 804, col: 16, offset: 25841},
 																				run: (*parser).callonDocumentRawLine456,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 16, offset: 25809},
+																					pos: position{line: 804, col: 16, offset: 25841},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 804, col: 16, offset: 25809},
+																							pos:        position{line: 804, col: 16, offset: 25841},
 																							val:        "++++",
 																							ignoreCase: false,
 																							want:       "\"++++\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 804, col: 23, offset: 25816},
+																							pos: position{line: 804, col: 23, offset: 25848},
 																							expr: &litMatcher{
-																								pos:        position{line: 804, col: 23, offset: 25816},
+																								pos:        position{line: 804, col: 23, offset: 25848},
 																								val:        "+",
 																								ignoreCase: false,
 																								want:       "\"+\"",
@@ -2260,12 +2260,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 806, col: 8, offset: 25900},
+																			pos: position{line: 806, col: 8, offset: 25932},
 																			expr: &actionExpr{
-																				pos: position{line: 2896, col: 10, offset: 91577},
+																				pos: position{line: 2905, col: 10, offset: 91835},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2896, col: 10, offset: 91577},
+																					pos:        position{line: 2905, col: 10, offset: 91835},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2918, col: 8, offset: 91975},
+																			pos: position{line: 2927, col: 8, offset: 92233},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2905, col: 12, offset: 91748},
+																					pos: position{line: 2914, col: 12, offset: 92006},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2905, col: 13, offset: 91749},
+																						pos: position{line: 2914, col: 13, offset: 92007},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 13, offset: 91749},
+																								pos:        position{line: 2914, col: 13, offset: 92007},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 20, offset: 91756},
+																								pos:        position{line: 2914, col: 20, offset: 92014},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 29, offset: 91765},
+																								pos:        position{line: 2914, col: 29, offset: 92023},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
@@ -2315,30 +2315,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 811, col: 5, offset: 26048},
+																pos: position{line: 811, col: 5, offset: 26080},
 																run: (*parser).callonDocumentRawLine472,
 																expr: &seqExpr{
-																	pos: position{line: 811, col: 5, offset: 26048},
+																	pos: position{line: 811, col: 5, offset: 26080},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 811, col: 5, offset: 26048},
+																			pos:   position{line: 811, col: 5, offset: 26080},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 16, offset: 26059},
+																				pos: position{line: 811, col: 16, offset: 26091},
 																				run: (*parser).callonDocumentRawLine475,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 16, offset: 26059},
+																					pos: position{line: 811, col: 16, offset: 26091},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 811, col: 16, offset: 26059},
+																							pos:        position{line: 811, col: 16, offset: 26091},
 																							val:        "____",
 																							ignoreCase: false,
 																							want:       "\"____\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 811, col: 23, offset: 26066},
+																							pos: position{line: 811, col: 23, offset: 26098},
 																							expr: &litMatcher{
-																								pos:        position{line: 811, col: 23, offset: 26066},
+																								pos:        position{line: 811, col: 23, offset: 26098},
 																								val:        "_",
 																								ignoreCase: false,
 																								want:       "\"_\"",
@@ -2349,12 +2349,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 813, col: 8, offset: 26150},
+																			pos: position{line: 813, col: 8, offset: 26182},
 																			expr: &actionExpr{
-																				pos: position{line: 2896, col: 10, offset: 91577},
+																				pos: position{line: 2905, col: 10, offset: 91835},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2896, col: 10, offset: 91577},
+																					pos:        position{line: 2905, col: 10, offset: 91835},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2918, col: 8, offset: 91975},
+																			pos: position{line: 2927, col: 8, offset: 92233},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2905, col: 12, offset: 91748},
+																					pos: position{line: 2914, col: 12, offset: 92006},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2905, col: 13, offset: 91749},
+																						pos: position{line: 2914, col: 13, offset: 92007},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 13, offset: 91749},
+																								pos:        position{line: 2914, col: 13, offset: 92007},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 20, offset: 91756},
+																								pos:        position{line: 2914, col: 20, offset: 92014},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 29, offset: 91765},
+																								pos:        position{line: 2914, col: 29, offset: 92023},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
@@ -2404,30 +2404,30 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 818, col: 5, offset: 26294},
+																pos: position{line: 818, col: 5, offset: 26326},
 																run: (*parser).callonDocumentRawLine491,
 																expr: &seqExpr{
-																	pos: position{line: 818, col: 5, offset: 26294},
+																	pos: position{line: 818, col: 5, offset: 26326},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 818, col: 5, offset: 26294},
+																			pos:   position{line: 818, col: 5, offset: 26326},
 																			label: "delimiter",
 																			expr: &actionExpr{
-																				pos: position{line: 818, col: 16, offset: 26305},
+																				pos: position{line: 818, col: 16, offset: 26337},
 																				run: (*parser).callonDocumentRawLine494,
 																				expr: &seqExpr{
-																					pos: position{line: 818, col: 16, offset: 26305},
+																					pos: position{line: 818, col: 16, offset: 26337},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 818, col: 16, offset: 26305},
+																							pos:        position{line: 818, col: 16, offset: 26337},
 																							val:        "****",
 																							ignoreCase: false,
 																							want:       "\"****\"",
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 818, col: 23, offset: 26312},
+																							pos: position{line: 818, col: 23, offset: 26344},
 																							expr: &litMatcher{
-																								pos:        position{line: 818, col: 23, offset: 26312},
+																								pos:        position{line: 818, col: 23, offset: 26344},
 																								val:        "*",
 																								ignoreCase: false,
 																								want:       "\"*\"",
@@ -2438,12 +2438,12 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 820, col: 8, offset: 26396},
+																			pos: position{line: 820, col: 8, offset: 26428},
 																			expr: &actionExpr{
-																				pos: position{line: 2896, col: 10, offset: 91577},
+																				pos: position{line: 2905, col: 10, offset: 91835},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2896, col: 10, offset: 91577},
+																					pos:        position{line: 2905, col: 10, offset: 91835},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2918, col: 8, offset: 91975},
+																			pos: position{line: 2927, col: 8, offset: 92233},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2905, col: 12, offset: 91748},
+																					pos: position{line: 2914, col: 12, offset: 92006},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2905, col: 13, offset: 91749},
+																						pos: position{line: 2914, col: 13, offset: 92007},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 13, offset: 91749},
+																								pos:        position{line: 2914, col: 13, offset: 92007},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 20, offset: 91756},
+																								pos:        position{line: 2914, col: 20, offset: 92014},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 29, offset: 91765},
+																								pos:        position{line: 2914, col: 29, offset: 92023},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2900, col: 11, offset: 91638},
+													pos: position{line: 2909, col: 11, offset: 91896},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2900, col: 11, offset: 91638},
+														pos: position{line: 2909, col: 11, offset: 91896},
 														expr: &charClassMatcher{
-															pos:        position{line: 2900, col: 11, offset: 91638},
+															pos:        position{line: 2909, col: 11, offset: 91896},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2846, col: 14, offset: 90170},
+													pos: position{line: 2855, col: 14, offset: 90428},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2846, col: 14, offset: 90170},
+														pos: position{line: 2855, col: 14, offset: 90428},
 														expr: &charClassMatcher{
-															pos:        position{line: 2846, col: 14, offset: 90170},
+															pos:        position{line: 2855, col: 14, offset: 90428},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2915, col: 8, offset: 91925},
+													pos: position{line: 2924, col: 8, offset: 92183},
 													expr: &anyMatcher{
-														line: 2915, col: 9, offset: 91926,
+														line: 2924, col: 9, offset: 92184,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2915, col: 8, offset: 91925},
+							pos: position{line: 2924, col: 8, offset: 92183},
 							expr: &anyMatcher{
-								line: 2915, col: 9, offset: 91926,
+								line: 2924, col: 9, offset: 92184,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2850, col: 17, offset: 90240},
+												pos: position{line: 2859, col: 17, offset: 90498},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2850, col: 17, offset: 90240},
+													pos:   position{line: 2859, col: 17, offset: 90498},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 5, offset: 90694},
+														pos: position{line: 2876, col: 5, offset: 90952},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2867, col: 5, offset: 90694},
+															pos:   position{line: 2876, col: 5, offset: 90952},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2867, col: 14, offset: 90703},
+																pos: position{line: 2876, col: 14, offset: 90961},
 																expr: &choiceExpr{
-																	pos: position{line: 2868, col: 9, offset: 90713},
+																	pos: position{line: 2877, col: 9, offset: 90971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2868, col: 9, offset: 90713},
+																			pos: position{line: 2877, col: 9, offset: 90971},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2868, col: 9, offset: 90713},
+																				pos: position{line: 2877, col: 9, offset: 90971},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2868, col: 9, offset: 90713},
+																						pos: position{line: 2877, col: 9, offset: 90971},
 																						expr: &litMatcher{
-																							pos:        position{line: 2868, col: 10, offset: 90714},
+																							pos:        position{line: 2877, col: 10, offset: 90972},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2869, col: 9, offset: 90742},
+																						pos: position{line: 2878, col: 9, offset: 91000},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2869, col: 10, offset: 90743},
+																							pos:        position{line: 2878, col: 10, offset: 91001},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2872, col: 11, offset: 90955},
+																			pos: position{line: 2881, col: 11, offset: 91213},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2872, col: 11, offset: 90955},
+																					pos:        position{line: 2881, col: 11, offset: 91213},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2872, col: 19, offset: 90963},
+																					pos: position{line: 2881, col: 19, offset: 91221},
 																					expr: &seqExpr{
-																						pos: position{line: 2872, col: 21, offset: 90965},
+																						pos: position{line: 2881, col: 21, offset: 91223},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2872, col: 21, offset: 90965},
+																								pos: position{line: 2881, col: 21, offset: 91223},
 																								expr: &actionExpr{
-																									pos: position{line: 2896, col: 10, offset: 91577},
+																									pos: position{line: 2905, col: 10, offset: 91835},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2896, col: 10, offset: 91577},
+																										pos:        position{line: 2905, col: 10, offset: 91835},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2872, col: 28, offset: 90972},
+																								pos: position{line: 2881, col: 28, offset: 91230},
 																								expr: &notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -2699,35 +2699,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 646, col: 5, offset: 20455},
+																			pos: position{line: 646, col: 5, offset: 20487},
 																			run: (*parser).callonFileInclusion30,
 																			expr: &seqExpr{
-																				pos: position{line: 646, col: 5, offset: 20455},
+																				pos: position{line: 646, col: 5, offset: 20487},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 646, col: 5, offset: 20455},
+																						pos: position{line: 646, col: 5, offset: 20487},
 																						run: (*parser).callonFileInclusion32,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 649, col: 5, offset: 20527},
+																						pos:   position{line: 649, col: 5, offset: 20559},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 649, col: 14, offset: 20536},
+																							pos: position{line: 649, col: 14, offset: 20568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 655, col: 5, offset: 20665},
+																									pos: position{line: 655, col: 5, offset: 20697},
 																									run: (*parser).callonFileInclusion35,
 																									expr: &seqExpr{
-																										pos: position{line: 655, col: 5, offset: 20665},
+																										pos: position{line: 655, col: 5, offset: 20697},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 655, col: 5, offset: 20665},
+																												pos:        position{line: 655, col: 5, offset: 20697},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 655, col: 13, offset: 20673},
+																												pos:   position{line: 655, col: 13, offset: 20705},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -2759,7 +2759,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 655, col: 32, offset: 20692},
+																												pos:        position{line: 655, col: 32, offset: 20724},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2768,19 +2768,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 5, offset: 20933},
+																									pos: position{line: 662, col: 5, offset: 20965},
 																									run: (*parser).callonFileInclusion45,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 5, offset: 20933},
+																										pos: position{line: 662, col: 5, offset: 20965},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 5, offset: 20933},
+																												pos:        position{line: 662, col: 5, offset: 20965},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 9, offset: 20937},
+																												pos:   position{line: 662, col: 9, offset: 20969},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -2812,7 +2812,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 28, offset: 20956},
+																												pos:        position{line: 662, col: 28, offset: 20988},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2821,19 +2821,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 668, col: 25, offset: 21137},
+																									pos: position{line: 668, col: 25, offset: 21169},
 																									run: (*parser).callonFileInclusion55,
 																									expr: &seqExpr{
-																										pos: position{line: 668, col: 25, offset: 21137},
+																										pos: position{line: 668, col: 25, offset: 21169},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 668, col: 25, offset: 21137},
+																												pos:        position{line: 668, col: 25, offset: 21169},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 668, col: 37, offset: 21149},
+																												pos:   position{line: 668, col: 37, offset: 21181},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -2865,33 +2865,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 668, col: 56, offset: 21168},
+																												pos:   position{line: 668, col: 56, offset: 21200},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 668, col: 62, offset: 21174},
+																													pos: position{line: 668, col: 62, offset: 21206},
 																													expr: &actionExpr{
-																														pos: position{line: 676, col: 17, offset: 21469},
+																														pos: position{line: 676, col: 17, offset: 21501},
 																														run: (*parser).callonFileInclusion66,
 																														expr: &seqExpr{
-																															pos: position{line: 676, col: 17, offset: 21469},
+																															pos: position{line: 676, col: 17, offset: 21501},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 676, col: 17, offset: 21469},
+																																	pos:        position{line: 676, col: 17, offset: 21501},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 676, col: 21, offset: 21473},
+																																	pos:   position{line: 676, col: 21, offset: 21505},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 676, col: 28, offset: 21480},
+																																		pos: position{line: 676, col: 28, offset: 21512},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 676, col: 28, offset: 21480},
+																																				pos: position{line: 676, col: 28, offset: 21512},
 																																				run: (*parser).callonFileInclusion71,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 676, col: 28, offset: 21480},
+																																					pos:        position{line: 676, col: 28, offset: 21512},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -2899,12 +2899,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 678, col: 9, offset: 21534},
+																																				pos: position{line: 678, col: 9, offset: 21566},
 																																				run: (*parser).callonFileInclusion73,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 678, col: 9, offset: 21534},
+																																					pos: position{line: 678, col: 9, offset: 21566},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 678, col: 9, offset: 21534},
+																																						pos:        position{line: 678, col: 9, offset: 21566},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -2921,7 +2921,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 668, col: 78, offset: 21190},
+																												pos:        position{line: 668, col: 78, offset: 21222},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -2930,19 +2930,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 672, col: 25, offset: 21308},
+																									pos: position{line: 672, col: 25, offset: 21340},
 																									run: (*parser).callonFileInclusion77,
 																									expr: &seqExpr{
-																										pos: position{line: 672, col: 25, offset: 21308},
+																										pos: position{line: 672, col: 25, offset: 21340},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 672, col: 25, offset: 21308},
+																												pos:        position{line: 672, col: 25, offset: 21340},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 672, col: 38, offset: 21321},
+																												pos:   position{line: 672, col: 38, offset: 21353},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -2974,33 +2974,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 672, col: 57, offset: 21340},
+																												pos:   position{line: 672, col: 57, offset: 21372},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 672, col: 63, offset: 21346},
+																													pos: position{line: 672, col: 63, offset: 21378},
 																													expr: &actionExpr{
-																														pos: position{line: 676, col: 17, offset: 21469},
+																														pos: position{line: 676, col: 17, offset: 21501},
 																														run: (*parser).callonFileInclusion88,
 																														expr: &seqExpr{
-																															pos: position{line: 676, col: 17, offset: 21469},
+																															pos: position{line: 676, col: 17, offset: 21501},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 676, col: 17, offset: 21469},
+																																	pos:        position{line: 676, col: 17, offset: 21501},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 676, col: 21, offset: 21473},
+																																	pos:   position{line: 676, col: 21, offset: 21505},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 676, col: 28, offset: 21480},
+																																		pos: position{line: 676, col: 28, offset: 21512},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 676, col: 28, offset: 21480},
+																																				pos: position{line: 676, col: 28, offset: 21512},
 																																				run: (*parser).callonFileInclusion93,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 676, col: 28, offset: 21480},
+																																					pos:        position{line: 676, col: 28, offset: 21512},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -3008,12 +3008,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 678, col: 9, offset: 21534},
+																																				pos: position{line: 678, col: 9, offset: 21566},
 																																				run: (*parser).callonFileInclusion95,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 678, col: 9, offset: 21534},
+																																					pos: position{line: 678, col: 9, offset: 21566},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 678, col: 9, offset: 21534},
+																																						pos:        position{line: 678, col: 9, offset: 21566},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -3030,7 +3030,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 672, col: 79, offset: 21362},
+																												pos:        position{line: 672, col: 79, offset: 21394},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -3045,27 +3045,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1224, col: 23, offset: 37828},
+																			pos: position{line: 1224, col: 23, offset: 37860},
 																			run: (*parser).callonFileInclusion99,
 																			expr: &seqExpr{
-																				pos: position{line: 1224, col: 23, offset: 37828},
+																				pos: position{line: 1224, col: 23, offset: 37860},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1222, col: 32, offset: 37796},
+																						pos:        position{line: 1222, col: 32, offset: 37828},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1224, col: 51, offset: 37856},
+																						pos:   position{line: 1224, col: 51, offset: 37888},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1224, col: 56, offset: 37861},
+																							pos: position{line: 1224, col: 56, offset: 37893},
 																							run: (*parser).callonFileInclusion103,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1224, col: 56, offset: 37861},
+																								pos: position{line: 1224, col: 56, offset: 37893},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1224, col: 56, offset: 37861},
+																									pos:        position{line: 1224, col: 56, offset: 37893},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -3075,7 +3075,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1222, col: 32, offset: 37796},
+																						pos:        position{line: 1222, col: 32, offset: 37828},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2875, col: 11, offset: 91092},
+																			pos: position{line: 2884, col: 11, offset: 91350},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2875, col: 11, offset: 91092},
+																				pos:        position{line: 2884, col: 11, offset: 91350},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2896, col: 10, offset: 91577},
+								pos: position{line: 2905, col: 10, offset: 91835},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2896, col: 10, offset: 91577},
+									pos:        position{line: 2905, col: 10, offset: 91835},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2918, col: 8, offset: 91975},
+							pos: position{line: 2927, col: 8, offset: 92233},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2905, col: 12, offset: 91748},
+									pos: position{line: 2914, col: 12, offset: 92006},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2905, col: 13, offset: 91749},
+										pos: position{line: 2914, col: 13, offset: 92007},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2905, col: 13, offset: 91749},
+												pos:        position{line: 2914, col: 13, offset: 92007},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2905, col: 20, offset: 91756},
+												pos:        position{line: 2914, col: 20, offset: 92014},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2905, col: 29, offset: 91765},
+												pos:        position{line: 2914, col: 29, offset: 92023},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2915, col: 8, offset: 91925},
+									pos: position{line: 2924, col: 8, offset: 92183},
 									expr: &anyMatcher{
-										line: 2915, col: 9, offset: 91926,
+										line: 2924, col: 9, offset: 92184,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2888, col: 12, offset: 91404},
+																				pos: position{line: 2897, col: 12, offset: 91662},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2888, col: 13, offset: 91405},
+																					pos: position{line: 2897, col: 13, offset: 91663},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2888, col: 13, offset: 91405},
+																							pos: position{line: 2897, col: 13, offset: 91663},
 																							expr: &litMatcher{
-																								pos:        position{line: 2888, col: 13, offset: 91405},
+																								pos:        position{line: 2897, col: 13, offset: 91663},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2888, col: 18, offset: 91410},
+																							pos: position{line: 2897, col: 18, offset: 91668},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2888, col: 18, offset: 91410},
+																								pos:        position{line: 2897, col: 18, offset: 91668},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2888, col: 12, offset: 91404},
+																				pos: position{line: 2897, col: 12, offset: 91662},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2888, col: 13, offset: 91405},
+																					pos: position{line: 2897, col: 13, offset: 91663},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2888, col: 13, offset: 91405},
+																							pos: position{line: 2897, col: 13, offset: 91663},
 																							expr: &litMatcher{
-																								pos:        position{line: 2888, col: 13, offset: 91405},
+																								pos:        position{line: 2897, col: 13, offset: 91663},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2888, col: 18, offset: 91410},
+																							pos: position{line: 2897, col: 18, offset: 91668},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2888, col: 18, offset: 91410},
+																								pos:        position{line: 2897, col: 18, offset: 91668},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2888, col: 12, offset: 91404},
+																		pos: position{line: 2897, col: 12, offset: 91662},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2888, col: 13, offset: 91405},
+																			pos: position{line: 2897, col: 13, offset: 91663},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2888, col: 13, offset: 91405},
+																					pos: position{line: 2897, col: 13, offset: 91663},
 																					expr: &litMatcher{
-																						pos:        position{line: 2888, col: 13, offset: 91405},
+																						pos:        position{line: 2897, col: 13, offset: 91663},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2888, col: 18, offset: 91410},
+																					pos: position{line: 2897, col: 18, offset: 91668},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2888, col: 18, offset: 91410},
+																						pos:        position{line: 2897, col: 18, offset: 91668},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2888, col: 12, offset: 91404},
+																									pos: position{line: 2897, col: 12, offset: 91662},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2888, col: 13, offset: 91405},
+																										pos: position{line: 2897, col: 13, offset: 91663},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2888, col: 13, offset: 91405},
+																												pos: position{line: 2897, col: 13, offset: 91663},
 																												expr: &litMatcher{
-																													pos:        position{line: 2888, col: 13, offset: 91405},
+																													pos:        position{line: 2897, col: 13, offset: 91663},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2888, col: 18, offset: 91410},
+																												pos: position{line: 2897, col: 18, offset: 91668},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2888, col: 18, offset: 91410},
+																													pos:        position{line: 2897, col: 18, offset: 91668},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2888, col: 12, offset: 91404},
+																									pos: position{line: 2897, col: 12, offset: 91662},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2888, col: 13, offset: 91405},
+																										pos: position{line: 2897, col: 13, offset: 91663},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2888, col: 13, offset: 91405},
+																												pos: position{line: 2897, col: 13, offset: 91663},
 																												expr: &litMatcher{
-																													pos:        position{line: 2888, col: 13, offset: 91405},
+																													pos:        position{line: 2897, col: 13, offset: 91663},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2888, col: 18, offset: 91410},
+																												pos: position{line: 2897, col: 18, offset: 91668},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2888, col: 18, offset: 91410},
+																													pos:        position{line: 2897, col: 18, offset: 91668},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2888, col: 12, offset: 91404},
+																							pos: position{line: 2897, col: 12, offset: 91662},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2888, col: 13, offset: 91405},
+																								pos: position{line: 2897, col: 13, offset: 91663},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2888, col: 13, offset: 91405},
+																										pos: position{line: 2897, col: 13, offset: 91663},
 																										expr: &litMatcher{
-																											pos:        position{line: 2888, col: 13, offset: 91405},
+																											pos:        position{line: 2897, col: 13, offset: 91663},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2888, col: 18, offset: 91410},
+																										pos: position{line: 2897, col: 18, offset: 91668},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2888, col: 18, offset: 91410},
+																											pos:        position{line: 2897, col: 18, offset: 91668},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 12, offset: 91404},
+														pos: position{line: 2897, col: 12, offset: 91662},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2888, col: 13, offset: 91405},
+															pos: position{line: 2897, col: 13, offset: 91663},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2888, col: 13, offset: 91405},
+																	pos: position{line: 2897, col: 13, offset: 91663},
 																	expr: &litMatcher{
-																		pos:        position{line: 2888, col: 13, offset: 91405},
+																		pos:        position{line: 2897, col: 13, offset: 91663},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2888, col: 18, offset: 91410},
+																	pos: position{line: 2897, col: 18, offset: 91668},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2888, col: 18, offset: 91410},
+																		pos:        position{line: 2897, col: 18, offset: 91668},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2888, col: 12, offset: 91404},
+														pos: position{line: 2897, col: 12, offset: 91662},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2888, col: 13, offset: 91405},
+															pos: position{line: 2897, col: 13, offset: 91663},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2888, col: 13, offset: 91405},
+																	pos: position{line: 2897, col: 13, offset: 91663},
 																	expr: &litMatcher{
-																		pos:        position{line: 2888, col: 13, offset: 91405},
+																		pos:        position{line: 2897, col: 13, offset: 91663},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2888, col: 18, offset: 91410},
+																	pos: position{line: 2897, col: 18, offset: 91668},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2888, col: 18, offset: 91410},
+																		pos:        position{line: 2897, col: 18, offset: 91668},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2888, col: 12, offset: 91404},
+												pos: position{line: 2897, col: 12, offset: 91662},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2888, col: 13, offset: 91405},
+													pos: position{line: 2897, col: 13, offset: 91663},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2888, col: 13, offset: 91405},
+															pos: position{line: 2897, col: 13, offset: 91663},
 															expr: &litMatcher{
-																pos:        position{line: 2888, col: 13, offset: 91405},
+																pos:        position{line: 2897, col: 13, offset: 91663},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2888, col: 18, offset: 91410},
+															pos: position{line: 2897, col: 18, offset: 91668},
 															expr: &charClassMatcher{
-																pos:        position{line: 2888, col: 18, offset: 91410},
+																pos:        position{line: 2897, col: 18, offset: 91668},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2915, col: 8, offset: 91925},
+							pos: position{line: 2924, col: 8, offset: 92183},
 							expr: &anyMatcher{
-								line: 2915, col: 9, offset: 91926,
+								line: 2924, col: 9, offset: 92184,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2790, col: 14, offset: 88746},
+																		pos: position{line: 2799, col: 14, offset: 89004},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2790, col: 14, offset: 88746},
+																			pos: position{line: 2799, col: 14, offset: 89004},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2790, col: 14, offset: 88746},
+																				pos:        position{line: 2799, col: 14, offset: 89004},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2790, col: 14, offset: 88746},
+																				pos: position{line: 2799, col: 14, offset: 89004},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2790, col: 14, offset: 88746},
+																					pos: position{line: 2799, col: 14, offset: 89004},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2790, col: 14, offset: 88746},
+																						pos:        position{line: 2799, col: 14, offset: 89004},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2790, col: 14, offset: 88746},
+																							pos: position{line: 2799, col: 14, offset: 89004},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2790, col: 14, offset: 88746},
+																								pos: position{line: 2799, col: 14, offset: 89004},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2790, col: 14, offset: 88746},
+																									pos:        position{line: 2799, col: 14, offset: 89004},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2790, col: 14, offset: 88746},
+																									pos: position{line: 2799, col: 14, offset: 89004},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2790, col: 14, offset: 88746},
+																										pos: position{line: 2799, col: 14, offset: 89004},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2790, col: 14, offset: 88746},
+																											pos:        position{line: 2799, col: 14, offset: 89004},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2915, col: 8, offset: 91925},
+							pos: position{line: 2924, col: 8, offset: 92183},
 							expr: &anyMatcher{
-								line: 2915, col: 9, offset: 91926,
+								line: 2924, col: 9, offset: 92184,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2790, col: 14, offset: 88746},
+																pos: position{line: 2799, col: 14, offset: 89004},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2790, col: 14, offset: 88746},
+																	pos: position{line: 2799, col: 14, offset: 89004},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2790, col: 14, offset: 88746},
+																		pos:        position{line: 2799, col: 14, offset: 89004},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2790, col: 14, offset: 88746},
+																pos: position{line: 2799, col: 14, offset: 89004},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2790, col: 14, offset: 88746},
+																	pos: position{line: 2799, col: 14, offset: 89004},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2790, col: 14, offset: 88746},
+																		pos:        position{line: 2799, col: 14, offset: 89004},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2918, col: 8, offset: 91975},
+							pos: position{line: 2927, col: 8, offset: 92233},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2905, col: 12, offset: 91748},
+									pos: position{line: 2914, col: 12, offset: 92006},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2905, col: 13, offset: 91749},
+										pos: position{line: 2914, col: 13, offset: 92007},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2905, col: 13, offset: 91749},
+												pos:        position{line: 2914, col: 13, offset: 92007},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2905, col: 20, offset: 91756},
+												pos:        position{line: 2914, col: 20, offset: 92014},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2905, col: 29, offset: 91765},
+												pos:        position{line: 2914, col: 29, offset: 92023},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2915, col: 8, offset: 91925},
+									pos: position{line: 2924, col: 8, offset: 92183},
 									expr: &anyMatcher{
-										line: 2915, col: 9, offset: 91926,
+										line: 2924, col: 9, offset: 92184,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2913, col: 11, offset: 91911},
+							pos: position{line: 2922, col: 11, offset: 92169},
 							expr: &anyMatcher{
-								line: 2913, col: 13, offset: 91913,
+								line: 2922, col: 13, offset: 92171,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 367, col: 49, offset: 11183},
 														expr: &actionExpr{
-															pos: position{line: 2896, col: 10, offset: 91577},
+															pos: position{line: 2905, col: 10, offset: 91835},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2896, col: 10, offset: 91577},
+																pos:        position{line: 2905, col: 10, offset: 91835},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2918, col: 8, offset: 91975},
+														pos: position{line: 2927, col: 8, offset: 92233},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2905, col: 12, offset: 91748},
+																pos: position{line: 2914, col: 12, offset: 92006},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2905, col: 13, offset: 91749},
+																	pos: position{line: 2914, col: 13, offset: 92007},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 13, offset: 91749},
+																			pos:        position{line: 2914, col: 13, offset: 92007},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 20, offset: 91756},
+																			pos:        position{line: 2914, col: 20, offset: 92014},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 29, offset: 91765},
+																			pos:        position{line: 2914, col: 29, offset: 92023},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2915, col: 8, offset: 91925},
+																pos: position{line: 2924, col: 8, offset: 92183},
 																expr: &anyMatcher{
-																	line: 2915, col: 9, offset: 91926,
+																	line: 2924, col: 9, offset: 92184,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 369, col: 39, offset: 11304},
 														expr: &actionExpr{
-															pos: position{line: 2896, col: 10, offset: 91577},
+															pos: position{line: 2905, col: 10, offset: 91835},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2896, col: 10, offset: 91577},
+																pos:        position{line: 2905, col: 10, offset: 91835},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2918, col: 8, offset: 91975},
+														pos: position{line: 2927, col: 8, offset: 92233},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2905, col: 12, offset: 91748},
+																pos: position{line: 2914, col: 12, offset: 92006},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2905, col: 13, offset: 91749},
+																	pos: position{line: 2914, col: 13, offset: 92007},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 13, offset: 91749},
+																			pos:        position{line: 2914, col: 13, offset: 92007},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 20, offset: 91756},
+																			pos:        position{line: 2914, col: 20, offset: 92014},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 29, offset: 91765},
+																			pos:        position{line: 2914, col: 29, offset: 92023},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2915, col: 8, offset: 91925},
+																pos: position{line: 2924, col: 8, offset: 92183},
 																expr: &anyMatcher{
-																	line: 2915, col: 9, offset: 91926,
+																	line: 2924, col: 9, offset: 92184,
 																},
 															},
 														},
@@ -4336,24 +4336,24 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 687, col: 14, offset: 21835},
+											pos: position{line: 687, col: 14, offset: 21867},
 											run: (*parser).callonDocumentFragment58,
 											expr: &seqExpr{
-												pos: position{line: 687, col: 14, offset: 21835},
+												pos: position{line: 687, col: 14, offset: 21867},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2913, col: 11, offset: 91911},
+														pos: position{line: 2922, col: 11, offset: 92169},
 														expr: &anyMatcher{
-															line: 2913, col: 13, offset: 91913,
+															line: 2922, col: 13, offset: 92171,
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 687, col: 21, offset: 21842},
+														pos: position{line: 687, col: 21, offset: 21874},
 														expr: &actionExpr{
-															pos: position{line: 2896, col: 10, offset: 91577},
+															pos: position{line: 2905, col: 10, offset: 91835},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2896, col: 10, offset: 91577},
+																pos:        position{line: 2905, col: 10, offset: 91835},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2918, col: 8, offset: 91975},
+														pos: position{line: 2927, col: 8, offset: 92233},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2905, col: 12, offset: 91748},
+																pos: position{line: 2914, col: 12, offset: 92006},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2905, col: 13, offset: 91749},
+																	pos: position{line: 2914, col: 13, offset: 92007},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 13, offset: 91749},
+																			pos:        position{line: 2914, col: 13, offset: 92007},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 20, offset: 91756},
+																			pos:        position{line: 2914, col: 20, offset: 92014},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 29, offset: 91765},
+																			pos:        position{line: 2914, col: 29, offset: 92023},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2915, col: 8, offset: 91925},
+																pos: position{line: 2924, col: 8, offset: 92183},
 																expr: &anyMatcher{
-																	line: 2915, col: 9, offset: 91926,
+																	line: 2924, col: 9, offset: 92184,
 																},
 															},
 														},
@@ -4411,39 +4411,39 @@ var g = &grammar{
 											name: "Section",
 										},
 										&actionExpr{
-											pos: position{line: 834, col: 5, offset: 26778},
+											pos: position{line: 834, col: 5, offset: 26810},
 											run: (*parser).callonDocumentFragment75,
 											expr: &seqExpr{
-												pos: position{line: 834, col: 5, offset: 26778},
+												pos: position{line: 834, col: 5, offset: 26810},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 834, col: 5, offset: 26778},
+														pos:   position{line: 834, col: 5, offset: 26810},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 754, col: 5, offset: 24038},
+															pos: position{line: 754, col: 5, offset: 24070},
 															run: (*parser).callonDocumentFragment78,
 															expr: &seqExpr{
-																pos: position{line: 754, col: 5, offset: 24038},
+																pos: position{line: 754, col: 5, offset: 24070},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 754, col: 5, offset: 24038},
+																		pos:   position{line: 754, col: 5, offset: 24070},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 754, col: 16, offset: 24049},
+																			pos: position{line: 754, col: 16, offset: 24081},
 																			run: (*parser).callonDocumentFragment81,
 																			expr: &seqExpr{
-																				pos: position{line: 754, col: 16, offset: 24049},
+																				pos: position{line: 754, col: 16, offset: 24081},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 754, col: 16, offset: 24049},
+																						pos:        position{line: 754, col: 16, offset: 24081},
 																						val:        "////",
 																						ignoreCase: false,
 																						want:       "\"////\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 754, col: 23, offset: 24056},
+																						pos: position{line: 754, col: 23, offset: 24088},
 																						expr: &litMatcher{
-																							pos:        position{line: 754, col: 23, offset: 24056},
+																							pos:        position{line: 754, col: 23, offset: 24088},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -4454,12 +4454,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 756, col: 8, offset: 24140},
+																		pos: position{line: 756, col: 8, offset: 24172},
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 10, offset: 91577},
+																			pos: position{line: 2905, col: 10, offset: 91835},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 10, offset: 91577},
+																				pos:        position{line: 2905, col: 10, offset: 91835},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2918, col: 8, offset: 91975},
+																		pos: position{line: 2927, col: 8, offset: 92233},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2905, col: 12, offset: 91748},
+																				pos: position{line: 2914, col: 12, offset: 92006},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 13, offset: 91749},
+																					pos: position{line: 2914, col: 13, offset: 92007},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 13, offset: 91749},
+																							pos:        position{line: 2914, col: 13, offset: 92007},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 20, offset: 91756},
+																							pos:        position{line: 2914, col: 20, offset: 92014},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 29, offset: 91765},
+																							pos:        position{line: 2914, col: 29, offset: 92023},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2915, col: 8, offset: 91925},
+																				pos: position{line: 2924, col: 8, offset: 92183},
 																				expr: &anyMatcher{
-																					line: 2915, col: 9, offset: 91926,
+																					line: 2924, col: 9, offset: 92184,
 																				},
 																			},
 																		},
@@ -4510,56 +4510,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 835, col: 5, offset: 26817},
+														pos: position{line: 835, col: 5, offset: 26849},
 														run: (*parser).callonDocumentFragment97,
 													},
 													&labeledExpr{
-														pos:   position{line: 838, col: 5, offset: 26909},
+														pos:   position{line: 838, col: 5, offset: 26941},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 853, col: 5, offset: 27307},
+															pos: position{line: 853, col: 5, offset: 27339},
 															expr: &actionExpr{
-																pos: position{line: 853, col: 6, offset: 27308},
+																pos: position{line: 853, col: 6, offset: 27340},
 																run: (*parser).callonDocumentFragment100,
 																expr: &seqExpr{
-																	pos: position{line: 853, col: 6, offset: 27308},
+																	pos: position{line: 853, col: 6, offset: 27340},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 853, col: 6, offset: 27308},
+																			pos: position{line: 853, col: 6, offset: 27340},
 																			expr: &choiceExpr{
-																				pos: position{line: 846, col: 5, offset: 27149},
+																				pos: position{line: 846, col: 5, offset: 27181},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 846, col: 5, offset: 27149},
+																						pos: position{line: 846, col: 5, offset: 27181},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 846, col: 5, offset: 27149},
+																								pos:   position{line: 846, col: 5, offset: 27181},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 5, offset: 24038},
+																									pos: position{line: 754, col: 5, offset: 24070},
 																									run: (*parser).callonDocumentFragment106,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 5, offset: 24038},
+																										pos: position{line: 754, col: 5, offset: 24070},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 754, col: 5, offset: 24038},
+																												pos:   position{line: 754, col: 5, offset: 24070},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 754, col: 16, offset: 24049},
+																													pos: position{line: 754, col: 16, offset: 24081},
 																													run: (*parser).callonDocumentFragment109,
 																													expr: &seqExpr{
-																														pos: position{line: 754, col: 16, offset: 24049},
+																														pos: position{line: 754, col: 16, offset: 24081},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 754, col: 16, offset: 24049},
+																																pos:        position{line: 754, col: 16, offset: 24081},
 																																val:        "////",
 																																ignoreCase: false,
 																																want:       "\"////\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 754, col: 23, offset: 24056},
+																																pos: position{line: 754, col: 23, offset: 24088},
 																																expr: &litMatcher{
-																																	pos:        position{line: 754, col: 23, offset: 24056},
+																																	pos:        position{line: 754, col: 23, offset: 24088},
 																																	val:        "/",
 																																	ignoreCase: false,
 																																	want:       "\"/\"",
@@ -4570,12 +4570,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 756, col: 8, offset: 24140},
+																												pos: position{line: 756, col: 8, offset: 24172},
 																												expr: &actionExpr{
-																													pos: position{line: 2896, col: 10, offset: 91577},
+																													pos: position{line: 2905, col: 10, offset: 91835},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2896, col: 10, offset: 91577},
+																														pos:        position{line: 2905, col: 10, offset: 91835},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2918, col: 8, offset: 91975},
+																												pos: position{line: 2927, col: 8, offset: 92233},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2905, col: 12, offset: 91748},
+																														pos: position{line: 2914, col: 12, offset: 92006},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2905, col: 13, offset: 91749},
+																															pos: position{line: 2914, col: 13, offset: 92007},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 13, offset: 91749},
+																																	pos:        position{line: 2914, col: 13, offset: 92007},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 20, offset: 91756},
+																																	pos:        position{line: 2914, col: 20, offset: 92014},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 29, offset: 91765},
+																																	pos:        position{line: 2914, col: 29, offset: 92023},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2915, col: 8, offset: 91925},
+																														pos: position{line: 2924, col: 8, offset: 92183},
 																														expr: &anyMatcher{
-																															line: 2915, col: 9, offset: 91926,
+																															line: 2924, col: 9, offset: 92184,
 																														},
 																													},
 																												},
@@ -4626,45 +4626,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 847, col: 5, offset: 27180},
+																								pos: position{line: 847, col: 5, offset: 27212},
 																								run: (*parser).callonDocumentFragment125,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2915, col: 8, offset: 91925},
+																						pos: position{line: 2924, col: 8, offset: 92183},
 																						expr: &anyMatcher{
-																							line: 2915, col: 9, offset: 91926,
+																							line: 2924, col: 9, offset: 92184,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 854, col: 5, offset: 27338},
+																			pos:   position{line: 854, col: 5, offset: 27370},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 825, col: 5, offset: 26542},
+																				pos: position{line: 825, col: 5, offset: 26574},
 																				run: (*parser).callonDocumentFragment129,
 																				expr: &seqExpr{
-																					pos: position{line: 825, col: 5, offset: 26542},
+																					pos: position{line: 825, col: 5, offset: 26574},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2913, col: 11, offset: 91911},
+																							pos: position{line: 2922, col: 11, offset: 92169},
 																							expr: &anyMatcher{
-																								line: 2913, col: 13, offset: 91913,
+																								line: 2922, col: 13, offset: 92171,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 826, col: 5, offset: 26617},
+																							pos:   position{line: 826, col: 5, offset: 26649},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2842, col: 13, offset: 90103},
+																									pos: position{line: 2851, col: 13, offset: 90361},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2842, col: 13, offset: 90103},
+																										pos:        position{line: 2851, col: 13, offset: 90361},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -4721,44 +4721,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 839, col: 5, offset: 26943},
+														pos:   position{line: 839, col: 5, offset: 26975},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 839, col: 9, offset: 26947},
+															pos: position{line: 839, col: 9, offset: 26979},
 															expr: &choiceExpr{
-																pos: position{line: 846, col: 5, offset: 27149},
+																pos: position{line: 846, col: 5, offset: 27181},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 846, col: 5, offset: 27149},
+																		pos: position{line: 846, col: 5, offset: 27181},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 846, col: 5, offset: 27149},
+																				pos:   position{line: 846, col: 5, offset: 27181},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 754, col: 5, offset: 24038},
+																					pos: position{line: 754, col: 5, offset: 24070},
 																					run: (*parser).callonDocumentFragment150,
 																					expr: &seqExpr{
-																						pos: position{line: 754, col: 5, offset: 24038},
+																						pos: position{line: 754, col: 5, offset: 24070},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 754, col: 5, offset: 24038},
+																								pos:   position{line: 754, col: 5, offset: 24070},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 16, offset: 24049},
+																									pos: position{line: 754, col: 16, offset: 24081},
 																									run: (*parser).callonDocumentFragment153,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 16, offset: 24049},
+																										pos: position{line: 754, col: 16, offset: 24081},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 754, col: 16, offset: 24049},
+																												pos:        position{line: 754, col: 16, offset: 24081},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 754, col: 23, offset: 24056},
+																												pos: position{line: 754, col: 23, offset: 24088},
 																												expr: &litMatcher{
-																													pos:        position{line: 754, col: 23, offset: 24056},
+																													pos:        position{line: 754, col: 23, offset: 24088},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -4769,12 +4769,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 756, col: 8, offset: 24140},
+																								pos: position{line: 756, col: 8, offset: 24172},
 																								expr: &actionExpr{
-																									pos: position{line: 2896, col: 10, offset: 91577},
+																									pos: position{line: 2905, col: 10, offset: 91835},
 																									run: (*parser).callonDocumentFragment159,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2896, col: 10, offset: 91577},
+																										pos:        position{line: 2905, col: 10, offset: 91835},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -4783,28 +4783,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2918, col: 8, offset: 91975},
+																								pos: position{line: 2927, col: 8, offset: 92233},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2905, col: 12, offset: 91748},
+																										pos: position{line: 2914, col: 12, offset: 92006},
 																										run: (*parser).callonDocumentFragment162,
 																										expr: &choiceExpr{
-																											pos: position{line: 2905, col: 13, offset: 91749},
+																											pos: position{line: 2914, col: 13, offset: 92007},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 13, offset: 91749},
+																													pos:        position{line: 2914, col: 13, offset: 92007},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 20, offset: 91756},
+																													pos:        position{line: 2914, col: 20, offset: 92014},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 29, offset: 91765},
+																													pos:        position{line: 2914, col: 29, offset: 92023},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -4813,9 +4813,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2915, col: 8, offset: 91925},
+																										pos: position{line: 2924, col: 8, offset: 92183},
 																										expr: &anyMatcher{
-																											line: 2915, col: 9, offset: 91926,
+																											line: 2924, col: 9, offset: 92184,
 																										},
 																									},
 																								},
@@ -4825,15 +4825,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 847, col: 5, offset: 27180},
+																				pos: position{line: 847, col: 5, offset: 27212},
 																				run: (*parser).callonDocumentFragment169,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2915, col: 8, offset: 91925},
+																		pos: position{line: 2924, col: 8, offset: 92183},
 																		expr: &anyMatcher{
-																			line: 2915, col: 9, offset: 91926,
+																			line: 2924, col: 9, offset: 92184,
 																		},
 																	},
 																},
@@ -4844,39 +4844,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 862, col: 5, offset: 27491},
+											pos: position{line: 862, col: 5, offset: 27523},
 											run: (*parser).callonDocumentFragment172,
 											expr: &seqExpr{
-												pos: position{line: 862, col: 5, offset: 27491},
+												pos: position{line: 862, col: 5, offset: 27523},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 862, col: 5, offset: 27491},
+														pos:   position{line: 862, col: 5, offset: 27523},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 761, col: 5, offset: 24286},
+															pos: position{line: 761, col: 5, offset: 24318},
 															run: (*parser).callonDocumentFragment175,
 															expr: &seqExpr{
-																pos: position{line: 761, col: 5, offset: 24286},
+																pos: position{line: 761, col: 5, offset: 24318},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 761, col: 5, offset: 24286},
+																		pos:   position{line: 761, col: 5, offset: 24318},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 761, col: 16, offset: 24297},
+																			pos: position{line: 761, col: 16, offset: 24329},
 																			run: (*parser).callonDocumentFragment178,
 																			expr: &seqExpr{
-																				pos: position{line: 761, col: 16, offset: 24297},
+																				pos: position{line: 761, col: 16, offset: 24329},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 761, col: 16, offset: 24297},
+																						pos:        position{line: 761, col: 16, offset: 24329},
 																						val:        "====",
 																						ignoreCase: false,
 																						want:       "\"====\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 761, col: 23, offset: 24304},
+																						pos: position{line: 761, col: 23, offset: 24336},
 																						expr: &litMatcher{
-																							pos:        position{line: 761, col: 23, offset: 24304},
+																							pos:        position{line: 761, col: 23, offset: 24336},
 																							val:        "=",
 																							ignoreCase: false,
 																							want:       "\"=\"",
@@ -4887,12 +4887,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 763, col: 8, offset: 24388},
+																		pos: position{line: 763, col: 8, offset: 24420},
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 10, offset: 91577},
+																			pos: position{line: 2905, col: 10, offset: 91835},
 																			run: (*parser).callonDocumentFragment184,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 10, offset: 91577},
+																				pos:        position{line: 2905, col: 10, offset: 91835},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4901,28 +4901,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2918, col: 8, offset: 91975},
+																		pos: position{line: 2927, col: 8, offset: 92233},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2905, col: 12, offset: 91748},
+																				pos: position{line: 2914, col: 12, offset: 92006},
 																				run: (*parser).callonDocumentFragment187,
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 13, offset: 91749},
+																					pos: position{line: 2914, col: 13, offset: 92007},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 13, offset: 91749},
+																							pos:        position{line: 2914, col: 13, offset: 92007},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 20, offset: 91756},
+																							pos:        position{line: 2914, col: 20, offset: 92014},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 29, offset: 91765},
+																							pos:        position{line: 2914, col: 29, offset: 92023},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4931,9 +4931,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2915, col: 8, offset: 91925},
+																				pos: position{line: 2924, col: 8, offset: 92183},
 																				expr: &anyMatcher{
-																					line: 2915, col: 9, offset: 91926,
+																					line: 2924, col: 9, offset: 92184,
 																				},
 																			},
 																		},
@@ -4943,56 +4943,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 863, col: 5, offset: 27530},
+														pos: position{line: 863, col: 5, offset: 27562},
 														run: (*parser).callonDocumentFragment194,
 													},
 													&labeledExpr{
-														pos:   position{line: 866, col: 5, offset: 27622},
+														pos:   position{line: 866, col: 5, offset: 27654},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 881, col: 4, offset: 28019},
+															pos: position{line: 881, col: 4, offset: 28051},
 															expr: &actionExpr{
-																pos: position{line: 881, col: 5, offset: 28020},
+																pos: position{line: 881, col: 5, offset: 28052},
 																run: (*parser).callonDocumentFragment197,
 																expr: &seqExpr{
-																	pos: position{line: 881, col: 5, offset: 28020},
+																	pos: position{line: 881, col: 5, offset: 28052},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 881, col: 5, offset: 28020},
+																			pos: position{line: 881, col: 5, offset: 28052},
 																			expr: &choiceExpr{
-																				pos: position{line: 874, col: 5, offset: 27862},
+																				pos: position{line: 874, col: 5, offset: 27894},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 874, col: 5, offset: 27862},
+																						pos: position{line: 874, col: 5, offset: 27894},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 874, col: 5, offset: 27862},
+																								pos:   position{line: 874, col: 5, offset: 27894},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 761, col: 5, offset: 24286},
+																									pos: position{line: 761, col: 5, offset: 24318},
 																									run: (*parser).callonDocumentFragment203,
 																									expr: &seqExpr{
-																										pos: position{line: 761, col: 5, offset: 24286},
+																										pos: position{line: 761, col: 5, offset: 24318},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 761, col: 5, offset: 24286},
+																												pos:   position{line: 761, col: 5, offset: 24318},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 761, col: 16, offset: 24297},
+																													pos: position{line: 761, col: 16, offset: 24329},
 																													run: (*parser).callonDocumentFragment206,
 																													expr: &seqExpr{
-																														pos: position{line: 761, col: 16, offset: 24297},
+																														pos: position{line: 761, col: 16, offset: 24329},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 761, col: 16, offset: 24297},
+																																pos:        position{line: 761, col: 16, offset: 24329},
 																																val:        "====",
 																																ignoreCase: false,
 																																want:       "\"====\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 761, col: 23, offset: 24304},
+																																pos: position{line: 761, col: 23, offset: 24336},
 																																expr: &litMatcher{
-																																	pos:        position{line: 761, col: 23, offset: 24304},
+																																	pos:        position{line: 761, col: 23, offset: 24336},
 																																	val:        "=",
 																																	ignoreCase: false,
 																																	want:       "\"=\"",
@@ -5003,12 +5003,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 763, col: 8, offset: 24388},
+																												pos: position{line: 763, col: 8, offset: 24420},
 																												expr: &actionExpr{
-																													pos: position{line: 2896, col: 10, offset: 91577},
+																													pos: position{line: 2905, col: 10, offset: 91835},
 																													run: (*parser).callonDocumentFragment212,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2896, col: 10, offset: 91577},
+																														pos:        position{line: 2905, col: 10, offset: 91835},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5017,28 +5017,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2918, col: 8, offset: 91975},
+																												pos: position{line: 2927, col: 8, offset: 92233},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2905, col: 12, offset: 91748},
+																														pos: position{line: 2914, col: 12, offset: 92006},
 																														run: (*parser).callonDocumentFragment215,
 																														expr: &choiceExpr{
-																															pos: position{line: 2905, col: 13, offset: 91749},
+																															pos: position{line: 2914, col: 13, offset: 92007},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 13, offset: 91749},
+																																	pos:        position{line: 2914, col: 13, offset: 92007},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 20, offset: 91756},
+																																	pos:        position{line: 2914, col: 20, offset: 92014},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 29, offset: 91765},
+																																	pos:        position{line: 2914, col: 29, offset: 92023},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5047,9 +5047,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2915, col: 8, offset: 91925},
+																														pos: position{line: 2924, col: 8, offset: 92183},
 																														expr: &anyMatcher{
-																															line: 2915, col: 9, offset: 91926,
+																															line: 2924, col: 9, offset: 92184,
 																														},
 																													},
 																												},
@@ -5059,45 +5059,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 875, col: 5, offset: 27893},
+																								pos: position{line: 875, col: 5, offset: 27925},
 																								run: (*parser).callonDocumentFragment222,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2915, col: 8, offset: 91925},
+																						pos: position{line: 2924, col: 8, offset: 92183},
 																						expr: &anyMatcher{
-																							line: 2915, col: 9, offset: 91926,
+																							line: 2924, col: 9, offset: 92184,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 882, col: 5, offset: 28050},
+																			pos:   position{line: 882, col: 5, offset: 28082},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 825, col: 5, offset: 26542},
+																				pos: position{line: 825, col: 5, offset: 26574},
 																				run: (*parser).callonDocumentFragment226,
 																				expr: &seqExpr{
-																					pos: position{line: 825, col: 5, offset: 26542},
+																					pos: position{line: 825, col: 5, offset: 26574},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2913, col: 11, offset: 91911},
+																							pos: position{line: 2922, col: 11, offset: 92169},
 																							expr: &anyMatcher{
-																								line: 2913, col: 13, offset: 91913,
+																								line: 2922, col: 13, offset: 92171,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 826, col: 5, offset: 26617},
+																							pos:   position{line: 826, col: 5, offset: 26649},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								run: (*parser).callonDocumentFragment231,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2842, col: 13, offset: 90103},
+																									pos: position{line: 2851, col: 13, offset: 90361},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2842, col: 13, offset: 90103},
+																										pos:        position{line: 2851, col: 13, offset: 90361},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5107,28 +5107,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonDocumentFragment235,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5137,9 +5137,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -5154,44 +5154,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 867, col: 5, offset: 27656},
+														pos:   position{line: 867, col: 5, offset: 27688},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 867, col: 9, offset: 27660},
+															pos: position{line: 867, col: 9, offset: 27692},
 															expr: &choiceExpr{
-																pos: position{line: 874, col: 5, offset: 27862},
+																pos: position{line: 874, col: 5, offset: 27894},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 874, col: 5, offset: 27862},
+																		pos: position{line: 874, col: 5, offset: 27894},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 874, col: 5, offset: 27862},
+																				pos:   position{line: 874, col: 5, offset: 27894},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 761, col: 5, offset: 24286},
+																					pos: position{line: 761, col: 5, offset: 24318},
 																					run: (*parser).callonDocumentFragment247,
 																					expr: &seqExpr{
-																						pos: position{line: 761, col: 5, offset: 24286},
+																						pos: position{line: 761, col: 5, offset: 24318},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 761, col: 5, offset: 24286},
+																								pos:   position{line: 761, col: 5, offset: 24318},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 761, col: 16, offset: 24297},
+																									pos: position{line: 761, col: 16, offset: 24329},
 																									run: (*parser).callonDocumentFragment250,
 																									expr: &seqExpr{
-																										pos: position{line: 761, col: 16, offset: 24297},
+																										pos: position{line: 761, col: 16, offset: 24329},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 761, col: 16, offset: 24297},
+																												pos:        position{line: 761, col: 16, offset: 24329},
 																												val:        "====",
 																												ignoreCase: false,
 																												want:       "\"====\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 761, col: 23, offset: 24304},
+																												pos: position{line: 761, col: 23, offset: 24336},
 																												expr: &litMatcher{
-																													pos:        position{line: 761, col: 23, offset: 24304},
+																													pos:        position{line: 761, col: 23, offset: 24336},
 																													val:        "=",
 																													ignoreCase: false,
 																													want:       "\"=\"",
@@ -5202,12 +5202,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 763, col: 8, offset: 24388},
+																								pos: position{line: 763, col: 8, offset: 24420},
 																								expr: &actionExpr{
-																									pos: position{line: 2896, col: 10, offset: 91577},
+																									pos: position{line: 2905, col: 10, offset: 91835},
 																									run: (*parser).callonDocumentFragment256,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2896, col: 10, offset: 91577},
+																										pos:        position{line: 2905, col: 10, offset: 91835},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5216,28 +5216,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2918, col: 8, offset: 91975},
+																								pos: position{line: 2927, col: 8, offset: 92233},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2905, col: 12, offset: 91748},
+																										pos: position{line: 2914, col: 12, offset: 92006},
 																										run: (*parser).callonDocumentFragment259,
 																										expr: &choiceExpr{
-																											pos: position{line: 2905, col: 13, offset: 91749},
+																											pos: position{line: 2914, col: 13, offset: 92007},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 13, offset: 91749},
+																													pos:        position{line: 2914, col: 13, offset: 92007},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 20, offset: 91756},
+																													pos:        position{line: 2914, col: 20, offset: 92014},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 29, offset: 91765},
+																													pos:        position{line: 2914, col: 29, offset: 92023},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5246,9 +5246,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2915, col: 8, offset: 91925},
+																										pos: position{line: 2924, col: 8, offset: 92183},
 																										expr: &anyMatcher{
-																											line: 2915, col: 9, offset: 91926,
+																											line: 2924, col: 9, offset: 92184,
 																										},
 																									},
 																								},
@@ -5258,15 +5258,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 875, col: 5, offset: 27893},
+																				pos: position{line: 875, col: 5, offset: 27925},
 																				run: (*parser).callonDocumentFragment266,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2915, col: 8, offset: 91925},
+																		pos: position{line: 2924, col: 8, offset: 92183},
 																		expr: &anyMatcher{
-																			line: 2915, col: 9, offset: 91926,
+																			line: 2924, col: 9, offset: 92184,
 																		},
 																	},
 																},
@@ -5277,36 +5277,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 974, col: 5, offset: 30342},
+											pos: position{line: 974, col: 5, offset: 30374},
 											run: (*parser).callonDocumentFragment269,
 											expr: &seqExpr{
-												pos: position{line: 974, col: 5, offset: 30342},
+												pos: position{line: 974, col: 5, offset: 30374},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 974, col: 5, offset: 30342},
+														pos:   position{line: 974, col: 5, offset: 30374},
 														label: "delimiter",
 														expr: &actionExpr{
-															pos: position{line: 774, col: 26, offset: 24774},
+															pos: position{line: 774, col: 26, offset: 24806},
 															run: (*parser).callonDocumentFragment272,
 															expr: &seqExpr{
-																pos: position{line: 774, col: 26, offset: 24774},
+																pos: position{line: 774, col: 26, offset: 24806},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 774, col: 26, offset: 24774},
+																		pos:        position{line: 774, col: 26, offset: 24806},
 																		val:        "```",
 																		ignoreCase: false,
 																		want:       "\"```\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 774, col: 32, offset: 24780},
+																		pos:   position{line: 774, col: 32, offset: 24812},
 																		label: "language",
 																		expr: &actionExpr{
-																			pos: position{line: 778, col: 13, offset: 24910},
+																			pos: position{line: 778, col: 13, offset: 24942},
 																			run: (*parser).callonDocumentFragment276,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 778, col: 14, offset: 24911},
+																				pos: position{line: 778, col: 14, offset: 24943},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 778, col: 14, offset: 24911},
+																					pos:        position{line: 778, col: 14, offset: 24943},
 																					val:        "[^\\r\\n` ]",
 																					chars:      []rune{'\r', '\n', '`', ' '},
 																					ignoreCase: false,
@@ -5316,12 +5316,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 774, col: 52, offset: 24800},
+																		pos: position{line: 774, col: 52, offset: 24832},
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 10, offset: 91577},
+																			pos: position{line: 2905, col: 10, offset: 91835},
 																			run: (*parser).callonDocumentFragment280,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 10, offset: 91577},
+																				pos:        position{line: 2905, col: 10, offset: 91835},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5330,28 +5330,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2918, col: 8, offset: 91975},
+																		pos: position{line: 2927, col: 8, offset: 92233},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2905, col: 12, offset: 91748},
+																				pos: position{line: 2914, col: 12, offset: 92006},
 																				run: (*parser).callonDocumentFragment283,
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 13, offset: 91749},
+																					pos: position{line: 2914, col: 13, offset: 92007},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 13, offset: 91749},
+																							pos:        position{line: 2914, col: 13, offset: 92007},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 20, offset: 91756},
+																							pos:        position{line: 2914, col: 20, offset: 92014},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 29, offset: 91765},
+																							pos:        position{line: 2914, col: 29, offset: 92023},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5360,9 +5360,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2915, col: 8, offset: 91925},
+																				pos: position{line: 2924, col: 8, offset: 92183},
 																				expr: &anyMatcher{
-																					line: 2915, col: 9, offset: 91926,
+																					line: 2924, col: 9, offset: 92184,
 																				},
 																			},
 																		},
@@ -5372,34 +5372,34 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 975, col: 5, offset: 30388},
+														pos:   position{line: 975, col: 5, offset: 30420},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 988, col: 5, offset: 30861},
+															pos: position{line: 988, col: 5, offset: 30893},
 															expr: &actionExpr{
-																pos: position{line: 988, col: 6, offset: 30862},
+																pos: position{line: 988, col: 6, offset: 30894},
 																run: (*parser).callonDocumentFragment292,
 																expr: &seqExpr{
-																	pos: position{line: 988, col: 6, offset: 30862},
+																	pos: position{line: 988, col: 6, offset: 30894},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 988, col: 6, offset: 30862},
+																			pos: position{line: 988, col: 6, offset: 30894},
 																			expr: &seqExpr{
-																				pos: position{line: 985, col: 34, offset: 30809},
+																				pos: position{line: 985, col: 34, offset: 30841},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 985, col: 34, offset: 30809},
+																						pos:        position{line: 985, col: 34, offset: 30841},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 985, col: 40, offset: 30815},
+																						pos: position{line: 985, col: 40, offset: 30847},
 																						expr: &actionExpr{
-																							pos: position{line: 2896, col: 10, offset: 91577},
+																							pos: position{line: 2905, col: 10, offset: 91835},
 																							run: (*parser).callonDocumentFragment298,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2896, col: 10, offset: 91577},
+																								pos:        position{line: 2905, col: 10, offset: 91835},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5408,28 +5408,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2918, col: 8, offset: 91975},
+																						pos: position{line: 2927, col: 8, offset: 92233},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2905, col: 12, offset: 91748},
+																								pos: position{line: 2914, col: 12, offset: 92006},
 																								run: (*parser).callonDocumentFragment301,
 																								expr: &choiceExpr{
-																									pos: position{line: 2905, col: 13, offset: 91749},
+																									pos: position{line: 2914, col: 13, offset: 92007},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 13, offset: 91749},
+																											pos:        position{line: 2914, col: 13, offset: 92007},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 20, offset: 91756},
+																											pos:        position{line: 2914, col: 20, offset: 92014},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 29, offset: 91765},
+																											pos:        position{line: 2914, col: 29, offset: 92023},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5438,9 +5438,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2915, col: 8, offset: 91925},
+																								pos: position{line: 2924, col: 8, offset: 92183},
 																								expr: &anyMatcher{
-																									line: 2915, col: 9, offset: 91926,
+																									line: 2924, col: 9, offset: 92184,
 																								},
 																							},
 																						},
@@ -5449,30 +5449,30 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 989, col: 5, offset: 30897},
+																			pos:   position{line: 989, col: 5, offset: 30929},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 825, col: 5, offset: 26542},
+																				pos: position{line: 825, col: 5, offset: 26574},
 																				run: (*parser).callonDocumentFragment309,
 																				expr: &seqExpr{
-																					pos: position{line: 825, col: 5, offset: 26542},
+																					pos: position{line: 825, col: 5, offset: 26574},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2913, col: 11, offset: 91911},
+																							pos: position{line: 2922, col: 11, offset: 92169},
 																							expr: &anyMatcher{
-																								line: 2913, col: 13, offset: 91913,
+																								line: 2922, col: 13, offset: 92171,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 826, col: 5, offset: 26617},
+																							pos:   position{line: 826, col: 5, offset: 26649},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								run: (*parser).callonDocumentFragment314,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2842, col: 13, offset: 90103},
+																									pos: position{line: 2851, col: 13, offset: 90361},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2842, col: 13, offset: 90103},
+																										pos:        position{line: 2851, col: 13, offset: 90361},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5482,28 +5482,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonDocumentFragment318,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5512,9 +5512,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -5529,23 +5529,23 @@ var g = &grammar{
 														},
 													},
 													&zeroOrOneExpr{
-														pos: position{line: 976, col: 5, offset: 30427},
+														pos: position{line: 976, col: 5, offset: 30459},
 														expr: &seqExpr{
-															pos: position{line: 985, col: 34, offset: 30809},
+															pos: position{line: 985, col: 34, offset: 30841},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 985, col: 34, offset: 30809},
+																	pos:        position{line: 985, col: 34, offset: 30841},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 985, col: 40, offset: 30815},
+																	pos: position{line: 985, col: 40, offset: 30847},
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 10, offset: 91577},
+																		pos: position{line: 2905, col: 10, offset: 91835},
 																		run: (*parser).callonDocumentFragment329,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 10, offset: 91577},
+																			pos:        position{line: 2905, col: 10, offset: 91835},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5554,28 +5554,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonDocumentFragment332,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5584,9 +5584,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -5598,39 +5598,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 890, col: 5, offset: 28203},
+											pos: position{line: 890, col: 5, offset: 28235},
 											run: (*parser).callonDocumentFragment339,
 											expr: &seqExpr{
-												pos: position{line: 890, col: 5, offset: 28203},
+												pos: position{line: 890, col: 5, offset: 28235},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 890, col: 5, offset: 28203},
+														pos:   position{line: 890, col: 5, offset: 28235},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 768, col: 5, offset: 24533},
+															pos: position{line: 768, col: 5, offset: 24565},
 															run: (*parser).callonDocumentFragment342,
 															expr: &seqExpr{
-																pos: position{line: 768, col: 5, offset: 24533},
+																pos: position{line: 768, col: 5, offset: 24565},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 768, col: 5, offset: 24533},
+																		pos:   position{line: 768, col: 5, offset: 24565},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 768, col: 16, offset: 24544},
+																			pos: position{line: 768, col: 16, offset: 24576},
 																			run: (*parser).callonDocumentFragment345,
 																			expr: &seqExpr{
-																				pos: position{line: 768, col: 16, offset: 24544},
+																				pos: position{line: 768, col: 16, offset: 24576},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 768, col: 16, offset: 24544},
+																						pos:        position{line: 768, col: 16, offset: 24576},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 768, col: 22, offset: 24550},
+																						pos: position{line: 768, col: 22, offset: 24582},
 																						expr: &litMatcher{
-																							pos:        position{line: 768, col: 22, offset: 24550},
+																							pos:        position{line: 768, col: 22, offset: 24582},
 																							val:        "`",
 																							ignoreCase: false,
 																							want:       "\"`\"",
@@ -5641,12 +5641,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 770, col: 8, offset: 24634},
+																		pos: position{line: 770, col: 8, offset: 24666},
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 10, offset: 91577},
+																			pos: position{line: 2905, col: 10, offset: 91835},
 																			run: (*parser).callonDocumentFragment351,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 10, offset: 91577},
+																				pos:        position{line: 2905, col: 10, offset: 91835},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5655,28 +5655,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2918, col: 8, offset: 91975},
+																		pos: position{line: 2927, col: 8, offset: 92233},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2905, col: 12, offset: 91748},
+																				pos: position{line: 2914, col: 12, offset: 92006},
 																				run: (*parser).callonDocumentFragment354,
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 13, offset: 91749},
+																					pos: position{line: 2914, col: 13, offset: 92007},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 13, offset: 91749},
+																							pos:        position{line: 2914, col: 13, offset: 92007},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 20, offset: 91756},
+																							pos:        position{line: 2914, col: 20, offset: 92014},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 29, offset: 91765},
+																							pos:        position{line: 2914, col: 29, offset: 92023},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5685,9 +5685,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2915, col: 8, offset: 91925},
+																				pos: position{line: 2924, col: 8, offset: 92183},
 																				expr: &anyMatcher{
-																					line: 2915, col: 9, offset: 91926,
+																					line: 2924, col: 9, offset: 92184,
 																				},
 																			},
 																		},
@@ -5697,56 +5697,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 891, col: 5, offset: 28241},
+														pos: position{line: 891, col: 5, offset: 28273},
 														run: (*parser).callonDocumentFragment361,
 													},
 													&labeledExpr{
-														pos:   position{line: 894, col: 5, offset: 28333},
+														pos:   position{line: 894, col: 5, offset: 28365},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 909, col: 5, offset: 28723},
+															pos: position{line: 909, col: 5, offset: 28755},
 															expr: &actionExpr{
-																pos: position{line: 909, col: 6, offset: 28724},
+																pos: position{line: 909, col: 6, offset: 28756},
 																run: (*parser).callonDocumentFragment364,
 																expr: &seqExpr{
-																	pos: position{line: 909, col: 6, offset: 28724},
+																	pos: position{line: 909, col: 6, offset: 28756},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 909, col: 6, offset: 28724},
+																			pos: position{line: 909, col: 6, offset: 28756},
 																			expr: &choiceExpr{
-																				pos: position{line: 902, col: 5, offset: 28567},
+																				pos: position{line: 902, col: 5, offset: 28599},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 902, col: 5, offset: 28567},
+																						pos: position{line: 902, col: 5, offset: 28599},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 902, col: 5, offset: 28567},
+																								pos:   position{line: 902, col: 5, offset: 28599},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 768, col: 5, offset: 24533},
+																									pos: position{line: 768, col: 5, offset: 24565},
 																									run: (*parser).callonDocumentFragment370,
 																									expr: &seqExpr{
-																										pos: position{line: 768, col: 5, offset: 24533},
+																										pos: position{line: 768, col: 5, offset: 24565},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 768, col: 5, offset: 24533},
+																												pos:   position{line: 768, col: 5, offset: 24565},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 768, col: 16, offset: 24544},
+																													pos: position{line: 768, col: 16, offset: 24576},
 																													run: (*parser).callonDocumentFragment373,
 																													expr: &seqExpr{
-																														pos: position{line: 768, col: 16, offset: 24544},
+																														pos: position{line: 768, col: 16, offset: 24576},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 768, col: 16, offset: 24544},
+																																pos:        position{line: 768, col: 16, offset: 24576},
 																																val:        "```",
 																																ignoreCase: false,
 																																want:       "\"```\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 768, col: 22, offset: 24550},
+																																pos: position{line: 768, col: 22, offset: 24582},
 																																expr: &litMatcher{
-																																	pos:        position{line: 768, col: 22, offset: 24550},
+																																	pos:        position{line: 768, col: 22, offset: 24582},
 																																	val:        "`",
 																																	ignoreCase: false,
 																																	want:       "\"`\"",
@@ -5757,12 +5757,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 770, col: 8, offset: 24634},
+																												pos: position{line: 770, col: 8, offset: 24666},
 																												expr: &actionExpr{
-																													pos: position{line: 2896, col: 10, offset: 91577},
+																													pos: position{line: 2905, col: 10, offset: 91835},
 																													run: (*parser).callonDocumentFragment379,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2896, col: 10, offset: 91577},
+																														pos:        position{line: 2905, col: 10, offset: 91835},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5771,28 +5771,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2918, col: 8, offset: 91975},
+																												pos: position{line: 2927, col: 8, offset: 92233},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2905, col: 12, offset: 91748},
+																														pos: position{line: 2914, col: 12, offset: 92006},
 																														run: (*parser).callonDocumentFragment382,
 																														expr: &choiceExpr{
-																															pos: position{line: 2905, col: 13, offset: 91749},
+																															pos: position{line: 2914, col: 13, offset: 92007},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 13, offset: 91749},
+																																	pos:        position{line: 2914, col: 13, offset: 92007},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 20, offset: 91756},
+																																	pos:        position{line: 2914, col: 20, offset: 92014},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 29, offset: 91765},
+																																	pos:        position{line: 2914, col: 29, offset: 92023},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5801,9 +5801,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2915, col: 8, offset: 91925},
+																														pos: position{line: 2924, col: 8, offset: 92183},
 																														expr: &anyMatcher{
-																															line: 2915, col: 9, offset: 91926,
+																															line: 2924, col: 9, offset: 92184,
 																														},
 																													},
 																												},
@@ -5813,45 +5813,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 903, col: 5, offset: 28597},
+																								pos: position{line: 903, col: 5, offset: 28629},
 																								run: (*parser).callonDocumentFragment389,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2915, col: 8, offset: 91925},
+																						pos: position{line: 2924, col: 8, offset: 92183},
 																						expr: &anyMatcher{
-																							line: 2915, col: 9, offset: 91926,
+																							line: 2924, col: 9, offset: 92184,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 910, col: 5, offset: 28753},
+																			pos:   position{line: 910, col: 5, offset: 28785},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 825, col: 5, offset: 26542},
+																				pos: position{line: 825, col: 5, offset: 26574},
 																				run: (*parser).callonDocumentFragment393,
 																				expr: &seqExpr{
-																					pos: position{line: 825, col: 5, offset: 26542},
+																					pos: position{line: 825, col: 5, offset: 26574},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2913, col: 11, offset: 91911},
+																							pos: position{line: 2922, col: 11, offset: 92169},
 																							expr: &anyMatcher{
-																								line: 2913, col: 13, offset: 91913,
+																								line: 2922, col: 13, offset: 92171,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 826, col: 5, offset: 26617},
+																							pos:   position{line: 826, col: 5, offset: 26649},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								run: (*parser).callonDocumentFragment398,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2842, col: 13, offset: 90103},
+																									pos: position{line: 2851, col: 13, offset: 90361},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2842, col: 13, offset: 90103},
+																										pos:        position{line: 2851, col: 13, offset: 90361},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5861,28 +5861,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonDocumentFragment402,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5891,9 +5891,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -5908,44 +5908,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 895, col: 5, offset: 28366},
+														pos:   position{line: 895, col: 5, offset: 28398},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 895, col: 9, offset: 28370},
+															pos: position{line: 895, col: 9, offset: 28402},
 															expr: &choiceExpr{
-																pos: position{line: 902, col: 5, offset: 28567},
+																pos: position{line: 902, col: 5, offset: 28599},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 902, col: 5, offset: 28567},
+																		pos: position{line: 902, col: 5, offset: 28599},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 902, col: 5, offset: 28567},
+																				pos:   position{line: 902, col: 5, offset: 28599},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 768, col: 5, offset: 24533},
+																					pos: position{line: 768, col: 5, offset: 24565},
 																					run: (*parser).callonDocumentFragment414,
 																					expr: &seqExpr{
-																						pos: position{line: 768, col: 5, offset: 24533},
+																						pos: position{line: 768, col: 5, offset: 24565},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 768, col: 5, offset: 24533},
+																								pos:   position{line: 768, col: 5, offset: 24565},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 768, col: 16, offset: 24544},
+																									pos: position{line: 768, col: 16, offset: 24576},
 																									run: (*parser).callonDocumentFragment417,
 																									expr: &seqExpr{
-																										pos: position{line: 768, col: 16, offset: 24544},
+																										pos: position{line: 768, col: 16, offset: 24576},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 768, col: 16, offset: 24544},
+																												pos:        position{line: 768, col: 16, offset: 24576},
 																												val:        "```",
 																												ignoreCase: false,
 																												want:       "\"```\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 768, col: 22, offset: 24550},
+																												pos: position{line: 768, col: 22, offset: 24582},
 																												expr: &litMatcher{
-																													pos:        position{line: 768, col: 22, offset: 24550},
+																													pos:        position{line: 768, col: 22, offset: 24582},
 																													val:        "`",
 																													ignoreCase: false,
 																													want:       "\"`\"",
@@ -5956,12 +5956,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 770, col: 8, offset: 24634},
+																								pos: position{line: 770, col: 8, offset: 24666},
 																								expr: &actionExpr{
-																									pos: position{line: 2896, col: 10, offset: 91577},
+																									pos: position{line: 2905, col: 10, offset: 91835},
 																									run: (*parser).callonDocumentFragment423,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2896, col: 10, offset: 91577},
+																										pos:        position{line: 2905, col: 10, offset: 91835},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5970,28 +5970,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2918, col: 8, offset: 91975},
+																								pos: position{line: 2927, col: 8, offset: 92233},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2905, col: 12, offset: 91748},
+																										pos: position{line: 2914, col: 12, offset: 92006},
 																										run: (*parser).callonDocumentFragment426,
 																										expr: &choiceExpr{
-																											pos: position{line: 2905, col: 13, offset: 91749},
+																											pos: position{line: 2914, col: 13, offset: 92007},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 13, offset: 91749},
+																													pos:        position{line: 2914, col: 13, offset: 92007},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 20, offset: 91756},
+																													pos:        position{line: 2914, col: 20, offset: 92014},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 29, offset: 91765},
+																													pos:        position{line: 2914, col: 29, offset: 92023},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6000,9 +6000,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2915, col: 8, offset: 91925},
+																										pos: position{line: 2924, col: 8, offset: 92183},
 																										expr: &anyMatcher{
-																											line: 2915, col: 9, offset: 91926,
+																											line: 2924, col: 9, offset: 92184,
 																										},
 																									},
 																								},
@@ -6012,15 +6012,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 903, col: 5, offset: 28597},
+																				pos: position{line: 903, col: 5, offset: 28629},
 																				run: (*parser).callonDocumentFragment433,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2915, col: 8, offset: 91925},
+																		pos: position{line: 2924, col: 8, offset: 92183},
 																		expr: &anyMatcher{
-																			line: 2915, col: 9, offset: 91926,
+																			line: 2924, col: 9, offset: 92184,
 																		},
 																	},
 																},
@@ -6031,39 +6031,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 918, col: 5, offset: 28908},
+											pos: position{line: 918, col: 5, offset: 28940},
 											run: (*parser).callonDocumentFragment436,
 											expr: &seqExpr{
-												pos: position{line: 918, col: 5, offset: 28908},
+												pos: position{line: 918, col: 5, offset: 28940},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 918, col: 5, offset: 28908},
+														pos:   position{line: 918, col: 5, offset: 28940},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 783, col: 5, offset: 25070},
+															pos: position{line: 783, col: 5, offset: 25102},
 															run: (*parser).callonDocumentFragment439,
 															expr: &seqExpr{
-																pos: position{line: 783, col: 5, offset: 25070},
+																pos: position{line: 783, col: 5, offset: 25102},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 783, col: 5, offset: 25070},
+																		pos:   position{line: 783, col: 5, offset: 25102},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 783, col: 16, offset: 25081},
+																			pos: position{line: 783, col: 16, offset: 25113},
 																			run: (*parser).callonDocumentFragment442,
 																			expr: &seqExpr{
-																				pos: position{line: 783, col: 16, offset: 25081},
+																				pos: position{line: 783, col: 16, offset: 25113},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 783, col: 16, offset: 25081},
+																						pos:        position{line: 783, col: 16, offset: 25113},
 																						val:        "----",
 																						ignoreCase: false,
 																						want:       "\"----\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 783, col: 23, offset: 25088},
+																						pos: position{line: 783, col: 23, offset: 25120},
 																						expr: &litMatcher{
-																							pos:        position{line: 783, col: 23, offset: 25088},
+																							pos:        position{line: 783, col: 23, offset: 25120},
 																							val:        "-",
 																							ignoreCase: false,
 																							want:       "\"-\"",
@@ -6074,12 +6074,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 785, col: 8, offset: 25172},
+																		pos: position{line: 785, col: 8, offset: 25204},
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 10, offset: 91577},
+																			pos: position{line: 2905, col: 10, offset: 91835},
 																			run: (*parser).callonDocumentFragment448,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 10, offset: 91577},
+																				pos:        position{line: 2905, col: 10, offset: 91835},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6088,28 +6088,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2918, col: 8, offset: 91975},
+																		pos: position{line: 2927, col: 8, offset: 92233},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2905, col: 12, offset: 91748},
+																				pos: position{line: 2914, col: 12, offset: 92006},
 																				run: (*parser).callonDocumentFragment451,
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 13, offset: 91749},
+																					pos: position{line: 2914, col: 13, offset: 92007},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 13, offset: 91749},
+																							pos:        position{line: 2914, col: 13, offset: 92007},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 20, offset: 91756},
+																							pos:        position{line: 2914, col: 20, offset: 92014},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 29, offset: 91765},
+																							pos:        position{line: 2914, col: 29, offset: 92023},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6118,9 +6118,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2915, col: 8, offset: 91925},
+																				pos: position{line: 2924, col: 8, offset: 92183},
 																				expr: &anyMatcher{
-																					line: 2915, col: 9, offset: 91926,
+																					line: 2924, col: 9, offset: 92184,
 																				},
 																			},
 																		},
@@ -6130,56 +6130,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 919, col: 5, offset: 28947},
+														pos: position{line: 919, col: 5, offset: 28979},
 														run: (*parser).callonDocumentFragment458,
 													},
 													&labeledExpr{
-														pos:   position{line: 922, col: 5, offset: 29039},
+														pos:   position{line: 922, col: 5, offset: 29071},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 937, col: 5, offset: 29437},
+															pos: position{line: 937, col: 5, offset: 29469},
 															expr: &actionExpr{
-																pos: position{line: 937, col: 6, offset: 29438},
+																pos: position{line: 937, col: 6, offset: 29470},
 																run: (*parser).callonDocumentFragment461,
 																expr: &seqExpr{
-																	pos: position{line: 937, col: 6, offset: 29438},
+																	pos: position{line: 937, col: 6, offset: 29470},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 937, col: 6, offset: 29438},
+																			pos: position{line: 937, col: 6, offset: 29470},
 																			expr: &choiceExpr{
-																				pos: position{line: 930, col: 5, offset: 29279},
+																				pos: position{line: 930, col: 5, offset: 29311},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 930, col: 5, offset: 29279},
+																						pos: position{line: 930, col: 5, offset: 29311},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 930, col: 5, offset: 29279},
+																								pos:   position{line: 930, col: 5, offset: 29311},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 5, offset: 25070},
+																									pos: position{line: 783, col: 5, offset: 25102},
 																									run: (*parser).callonDocumentFragment467,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 5, offset: 25070},
+																										pos: position{line: 783, col: 5, offset: 25102},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 783, col: 5, offset: 25070},
+																												pos:   position{line: 783, col: 5, offset: 25102},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 783, col: 16, offset: 25081},
+																													pos: position{line: 783, col: 16, offset: 25113},
 																													run: (*parser).callonDocumentFragment470,
 																													expr: &seqExpr{
-																														pos: position{line: 783, col: 16, offset: 25081},
+																														pos: position{line: 783, col: 16, offset: 25113},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 783, col: 16, offset: 25081},
+																																pos:        position{line: 783, col: 16, offset: 25113},
 																																val:        "----",
 																																ignoreCase: false,
 																																want:       "\"----\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 783, col: 23, offset: 25088},
+																																pos: position{line: 783, col: 23, offset: 25120},
 																																expr: &litMatcher{
-																																	pos:        position{line: 783, col: 23, offset: 25088},
+																																	pos:        position{line: 783, col: 23, offset: 25120},
 																																	val:        "-",
 																																	ignoreCase: false,
 																																	want:       "\"-\"",
@@ -6190,12 +6190,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 785, col: 8, offset: 25172},
+																												pos: position{line: 785, col: 8, offset: 25204},
 																												expr: &actionExpr{
-																													pos: position{line: 2896, col: 10, offset: 91577},
+																													pos: position{line: 2905, col: 10, offset: 91835},
 																													run: (*parser).callonDocumentFragment476,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2896, col: 10, offset: 91577},
+																														pos:        position{line: 2905, col: 10, offset: 91835},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6204,28 +6204,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2918, col: 8, offset: 91975},
+																												pos: position{line: 2927, col: 8, offset: 92233},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2905, col: 12, offset: 91748},
+																														pos: position{line: 2914, col: 12, offset: 92006},
 																														run: (*parser).callonDocumentFragment479,
 																														expr: &choiceExpr{
-																															pos: position{line: 2905, col: 13, offset: 91749},
+																															pos: position{line: 2914, col: 13, offset: 92007},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 13, offset: 91749},
+																																	pos:        position{line: 2914, col: 13, offset: 92007},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 20, offset: 91756},
+																																	pos:        position{line: 2914, col: 20, offset: 92014},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 29, offset: 91765},
+																																	pos:        position{line: 2914, col: 29, offset: 92023},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6234,9 +6234,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2915, col: 8, offset: 91925},
+																														pos: position{line: 2924, col: 8, offset: 92183},
 																														expr: &anyMatcher{
-																															line: 2915, col: 9, offset: 91926,
+																															line: 2924, col: 9, offset: 92184,
 																														},
 																													},
 																												},
@@ -6246,45 +6246,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 931, col: 5, offset: 29310},
+																								pos: position{line: 931, col: 5, offset: 29342},
 																								run: (*parser).callonDocumentFragment486,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2915, col: 8, offset: 91925},
+																						pos: position{line: 2924, col: 8, offset: 92183},
 																						expr: &anyMatcher{
-																							line: 2915, col: 9, offset: 91926,
+																							line: 2924, col: 9, offset: 92184,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 938, col: 5, offset: 29468},
+																			pos:   position{line: 938, col: 5, offset: 29500},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 825, col: 5, offset: 26542},
+																				pos: position{line: 825, col: 5, offset: 26574},
 																				run: (*parser).callonDocumentFragment490,
 																				expr: &seqExpr{
-																					pos: position{line: 825, col: 5, offset: 26542},
+																					pos: position{line: 825, col: 5, offset: 26574},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2913, col: 11, offset: 91911},
+																							pos: position{line: 2922, col: 11, offset: 92169},
 																							expr: &anyMatcher{
-																								line: 2913, col: 13, offset: 91913,
+																								line: 2922, col: 13, offset: 92171,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 826, col: 5, offset: 26617},
+																							pos:   position{line: 826, col: 5, offset: 26649},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								run: (*parser).callonDocumentFragment495,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2842, col: 13, offset: 90103},
+																									pos: position{line: 2851, col: 13, offset: 90361},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2842, col: 13, offset: 90103},
+																										pos:        position{line: 2851, col: 13, offset: 90361},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6294,28 +6294,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonDocumentFragment499,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6324,9 +6324,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -6341,44 +6341,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 923, col: 5, offset: 29073},
+														pos:   position{line: 923, col: 5, offset: 29105},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 923, col: 9, offset: 29077},
+															pos: position{line: 923, col: 9, offset: 29109},
 															expr: &choiceExpr{
-																pos: position{line: 930, col: 5, offset: 29279},
+																pos: position{line: 930, col: 5, offset: 29311},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 930, col: 5, offset: 29279},
+																		pos: position{line: 930, col: 5, offset: 29311},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 930, col: 5, offset: 29279},
+																				pos:   position{line: 930, col: 5, offset: 29311},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 783, col: 5, offset: 25070},
+																					pos: position{line: 783, col: 5, offset: 25102},
 																					run: (*parser).callonDocumentFragment511,
 																					expr: &seqExpr{
-																						pos: position{line: 783, col: 5, offset: 25070},
+																						pos: position{line: 783, col: 5, offset: 25102},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 783, col: 5, offset: 25070},
+																								pos:   position{line: 783, col: 5, offset: 25102},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 783, col: 16, offset: 25081},
+																									pos: position{line: 783, col: 16, offset: 25113},
 																									run: (*parser).callonDocumentFragment514,
 																									expr: &seqExpr{
-																										pos: position{line: 783, col: 16, offset: 25081},
+																										pos: position{line: 783, col: 16, offset: 25113},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 783, col: 16, offset: 25081},
+																												pos:        position{line: 783, col: 16, offset: 25113},
 																												val:        "----",
 																												ignoreCase: false,
 																												want:       "\"----\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 783, col: 23, offset: 25088},
+																												pos: position{line: 783, col: 23, offset: 25120},
 																												expr: &litMatcher{
-																													pos:        position{line: 783, col: 23, offset: 25088},
+																													pos:        position{line: 783, col: 23, offset: 25120},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
@@ -6389,12 +6389,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 785, col: 8, offset: 25172},
+																								pos: position{line: 785, col: 8, offset: 25204},
 																								expr: &actionExpr{
-																									pos: position{line: 2896, col: 10, offset: 91577},
+																									pos: position{line: 2905, col: 10, offset: 91835},
 																									run: (*parser).callonDocumentFragment520,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2896, col: 10, offset: 91577},
+																										pos:        position{line: 2905, col: 10, offset: 91835},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6403,28 +6403,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2918, col: 8, offset: 91975},
+																								pos: position{line: 2927, col: 8, offset: 92233},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2905, col: 12, offset: 91748},
+																										pos: position{line: 2914, col: 12, offset: 92006},
 																										run: (*parser).callonDocumentFragment523,
 																										expr: &choiceExpr{
-																											pos: position{line: 2905, col: 13, offset: 91749},
+																											pos: position{line: 2914, col: 13, offset: 92007},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 13, offset: 91749},
+																													pos:        position{line: 2914, col: 13, offset: 92007},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 20, offset: 91756},
+																													pos:        position{line: 2914, col: 20, offset: 92014},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 29, offset: 91765},
+																													pos:        position{line: 2914, col: 29, offset: 92023},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6433,9 +6433,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2915, col: 8, offset: 91925},
+																										pos: position{line: 2924, col: 8, offset: 92183},
 																										expr: &anyMatcher{
-																											line: 2915, col: 9, offset: 91926,
+																											line: 2924, col: 9, offset: 92184,
 																										},
 																									},
 																								},
@@ -6445,15 +6445,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 931, col: 5, offset: 29310},
+																				pos: position{line: 931, col: 5, offset: 29342},
 																				run: (*parser).callonDocumentFragment530,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2915, col: 8, offset: 91925},
+																		pos: position{line: 2924, col: 8, offset: 92183},
 																		expr: &anyMatcher{
-																			line: 2915, col: 9, offset: 91926,
+																			line: 2924, col: 9, offset: 92184,
 																		},
 																	},
 																},
@@ -6464,39 +6464,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 946, col: 5, offset: 29623},
+											pos: position{line: 946, col: 5, offset: 29655},
 											run: (*parser).callonDocumentFragment533,
 											expr: &seqExpr{
-												pos: position{line: 946, col: 5, offset: 29623},
+												pos: position{line: 946, col: 5, offset: 29655},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 946, col: 5, offset: 29623},
+														pos:   position{line: 946, col: 5, offset: 29655},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 797, col: 5, offset: 25546},
+															pos: position{line: 797, col: 5, offset: 25578},
 															run: (*parser).callonDocumentFragment536,
 															expr: &seqExpr{
-																pos: position{line: 797, col: 5, offset: 25546},
+																pos: position{line: 797, col: 5, offset: 25578},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 797, col: 5, offset: 25546},
+																		pos:   position{line: 797, col: 5, offset: 25578},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 797, col: 16, offset: 25557},
+																			pos: position{line: 797, col: 16, offset: 25589},
 																			run: (*parser).callonDocumentFragment539,
 																			expr: &seqExpr{
-																				pos: position{line: 797, col: 16, offset: 25557},
+																				pos: position{line: 797, col: 16, offset: 25589},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 797, col: 16, offset: 25557},
+																						pos:        position{line: 797, col: 16, offset: 25589},
 																						val:        "....",
 																						ignoreCase: false,
 																						want:       "\"....\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 797, col: 23, offset: 25564},
+																						pos: position{line: 797, col: 23, offset: 25596},
 																						expr: &litMatcher{
-																							pos:        position{line: 797, col: 23, offset: 25564},
+																							pos:        position{line: 797, col: 23, offset: 25596},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -6507,12 +6507,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 799, col: 8, offset: 25648},
+																		pos: position{line: 799, col: 8, offset: 25680},
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 10, offset: 91577},
+																			pos: position{line: 2905, col: 10, offset: 91835},
 																			run: (*parser).callonDocumentFragment545,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 10, offset: 91577},
+																				pos:        position{line: 2905, col: 10, offset: 91835},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6521,28 +6521,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2918, col: 8, offset: 91975},
+																		pos: position{line: 2927, col: 8, offset: 92233},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2905, col: 12, offset: 91748},
+																				pos: position{line: 2914, col: 12, offset: 92006},
 																				run: (*parser).callonDocumentFragment548,
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 13, offset: 91749},
+																					pos: position{line: 2914, col: 13, offset: 92007},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 13, offset: 91749},
+																							pos:        position{line: 2914, col: 13, offset: 92007},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 20, offset: 91756},
+																							pos:        position{line: 2914, col: 20, offset: 92014},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 29, offset: 91765},
+																							pos:        position{line: 2914, col: 29, offset: 92023},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6551,9 +6551,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2915, col: 8, offset: 91925},
+																				pos: position{line: 2924, col: 8, offset: 92183},
 																				expr: &anyMatcher{
-																					line: 2915, col: 9, offset: 91926,
+																					line: 2924, col: 9, offset: 92184,
 																				},
 																			},
 																		},
@@ -6563,56 +6563,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 947, col: 5, offset: 29662},
+														pos: position{line: 947, col: 5, offset: 29694},
 														run: (*parser).callonDocumentFragment555,
 													},
 													&labeledExpr{
-														pos:   position{line: 950, col: 5, offset: 29754},
+														pos:   position{line: 950, col: 5, offset: 29786},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 965, col: 5, offset: 30152},
+															pos: position{line: 965, col: 5, offset: 30184},
 															expr: &actionExpr{
-																pos: position{line: 965, col: 6, offset: 30153},
+																pos: position{line: 965, col: 6, offset: 30185},
 																run: (*parser).callonDocumentFragment558,
 																expr: &seqExpr{
-																	pos: position{line: 965, col: 6, offset: 30153},
+																	pos: position{line: 965, col: 6, offset: 30185},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 965, col: 6, offset: 30153},
+																			pos: position{line: 965, col: 6, offset: 30185},
 																			expr: &choiceExpr{
-																				pos: position{line: 958, col: 5, offset: 29994},
+																				pos: position{line: 958, col: 5, offset: 30026},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 958, col: 5, offset: 29994},
+																						pos: position{line: 958, col: 5, offset: 30026},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 958, col: 5, offset: 29994},
+																								pos:   position{line: 958, col: 5, offset: 30026},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 5, offset: 25546},
+																									pos: position{line: 797, col: 5, offset: 25578},
 																									run: (*parser).callonDocumentFragment564,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 5, offset: 25546},
+																										pos: position{line: 797, col: 5, offset: 25578},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 797, col: 5, offset: 25546},
+																												pos:   position{line: 797, col: 5, offset: 25578},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 797, col: 16, offset: 25557},
+																													pos: position{line: 797, col: 16, offset: 25589},
 																													run: (*parser).callonDocumentFragment567,
 																													expr: &seqExpr{
-																														pos: position{line: 797, col: 16, offset: 25557},
+																														pos: position{line: 797, col: 16, offset: 25589},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 797, col: 16, offset: 25557},
+																																pos:        position{line: 797, col: 16, offset: 25589},
 																																val:        "....",
 																																ignoreCase: false,
 																																want:       "\"....\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 797, col: 23, offset: 25564},
+																																pos: position{line: 797, col: 23, offset: 25596},
 																																expr: &litMatcher{
-																																	pos:        position{line: 797, col: 23, offset: 25564},
+																																	pos:        position{line: 797, col: 23, offset: 25596},
 																																	val:        ".",
 																																	ignoreCase: false,
 																																	want:       "\".\"",
@@ -6623,12 +6623,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 799, col: 8, offset: 25648},
+																												pos: position{line: 799, col: 8, offset: 25680},
 																												expr: &actionExpr{
-																													pos: position{line: 2896, col: 10, offset: 91577},
+																													pos: position{line: 2905, col: 10, offset: 91835},
 																													run: (*parser).callonDocumentFragment573,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2896, col: 10, offset: 91577},
+																														pos:        position{line: 2905, col: 10, offset: 91835},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6637,28 +6637,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2918, col: 8, offset: 91975},
+																												pos: position{line: 2927, col: 8, offset: 92233},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2905, col: 12, offset: 91748},
+																														pos: position{line: 2914, col: 12, offset: 92006},
 																														run: (*parser).callonDocumentFragment576,
 																														expr: &choiceExpr{
-																															pos: position{line: 2905, col: 13, offset: 91749},
+																															pos: position{line: 2914, col: 13, offset: 92007},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 13, offset: 91749},
+																																	pos:        position{line: 2914, col: 13, offset: 92007},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 20, offset: 91756},
+																																	pos:        position{line: 2914, col: 20, offset: 92014},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 29, offset: 91765},
+																																	pos:        position{line: 2914, col: 29, offset: 92023},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6667,9 +6667,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2915, col: 8, offset: 91925},
+																														pos: position{line: 2924, col: 8, offset: 92183},
 																														expr: &anyMatcher{
-																															line: 2915, col: 9, offset: 91926,
+																															line: 2924, col: 9, offset: 92184,
 																														},
 																													},
 																												},
@@ -6679,45 +6679,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 959, col: 5, offset: 30025},
+																								pos: position{line: 959, col: 5, offset: 30057},
 																								run: (*parser).callonDocumentFragment583,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2915, col: 8, offset: 91925},
+																						pos: position{line: 2924, col: 8, offset: 92183},
 																						expr: &anyMatcher{
-																							line: 2915, col: 9, offset: 91926,
+																							line: 2924, col: 9, offset: 92184,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 966, col: 5, offset: 30183},
+																			pos:   position{line: 966, col: 5, offset: 30215},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 825, col: 5, offset: 26542},
+																				pos: position{line: 825, col: 5, offset: 26574},
 																				run: (*parser).callonDocumentFragment587,
 																				expr: &seqExpr{
-																					pos: position{line: 825, col: 5, offset: 26542},
+																					pos: position{line: 825, col: 5, offset: 26574},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2913, col: 11, offset: 91911},
+																							pos: position{line: 2922, col: 11, offset: 92169},
 																							expr: &anyMatcher{
-																								line: 2913, col: 13, offset: 91913,
+																								line: 2922, col: 13, offset: 92171,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 826, col: 5, offset: 26617},
+																							pos:   position{line: 826, col: 5, offset: 26649},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								run: (*parser).callonDocumentFragment592,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2842, col: 13, offset: 90103},
+																									pos: position{line: 2851, col: 13, offset: 90361},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2842, col: 13, offset: 90103},
+																										pos:        position{line: 2851, col: 13, offset: 90361},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6727,28 +6727,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonDocumentFragment596,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6757,9 +6757,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -6774,44 +6774,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 951, col: 5, offset: 29788},
+														pos:   position{line: 951, col: 5, offset: 29820},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 951, col: 9, offset: 29792},
+															pos: position{line: 951, col: 9, offset: 29824},
 															expr: &choiceExpr{
-																pos: position{line: 958, col: 5, offset: 29994},
+																pos: position{line: 958, col: 5, offset: 30026},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 958, col: 5, offset: 29994},
+																		pos: position{line: 958, col: 5, offset: 30026},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 958, col: 5, offset: 29994},
+																				pos:   position{line: 958, col: 5, offset: 30026},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 797, col: 5, offset: 25546},
+																					pos: position{line: 797, col: 5, offset: 25578},
 																					run: (*parser).callonDocumentFragment608,
 																					expr: &seqExpr{
-																						pos: position{line: 797, col: 5, offset: 25546},
+																						pos: position{line: 797, col: 5, offset: 25578},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 797, col: 5, offset: 25546},
+																								pos:   position{line: 797, col: 5, offset: 25578},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 797, col: 16, offset: 25557},
+																									pos: position{line: 797, col: 16, offset: 25589},
 																									run: (*parser).callonDocumentFragment611,
 																									expr: &seqExpr{
-																										pos: position{line: 797, col: 16, offset: 25557},
+																										pos: position{line: 797, col: 16, offset: 25589},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 797, col: 16, offset: 25557},
+																												pos:        position{line: 797, col: 16, offset: 25589},
 																												val:        "....",
 																												ignoreCase: false,
 																												want:       "\"....\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 797, col: 23, offset: 25564},
+																												pos: position{line: 797, col: 23, offset: 25596},
 																												expr: &litMatcher{
-																													pos:        position{line: 797, col: 23, offset: 25564},
+																													pos:        position{line: 797, col: 23, offset: 25596},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -6822,12 +6822,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 799, col: 8, offset: 25648},
+																								pos: position{line: 799, col: 8, offset: 25680},
 																								expr: &actionExpr{
-																									pos: position{line: 2896, col: 10, offset: 91577},
+																									pos: position{line: 2905, col: 10, offset: 91835},
 																									run: (*parser).callonDocumentFragment617,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2896, col: 10, offset: 91577},
+																										pos:        position{line: 2905, col: 10, offset: 91835},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6836,28 +6836,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2918, col: 8, offset: 91975},
+																								pos: position{line: 2927, col: 8, offset: 92233},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2905, col: 12, offset: 91748},
+																										pos: position{line: 2914, col: 12, offset: 92006},
 																										run: (*parser).callonDocumentFragment620,
 																										expr: &choiceExpr{
-																											pos: position{line: 2905, col: 13, offset: 91749},
+																											pos: position{line: 2914, col: 13, offset: 92007},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 13, offset: 91749},
+																													pos:        position{line: 2914, col: 13, offset: 92007},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 20, offset: 91756},
+																													pos:        position{line: 2914, col: 20, offset: 92014},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 29, offset: 91765},
+																													pos:        position{line: 2914, col: 29, offset: 92023},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6866,9 +6866,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2915, col: 8, offset: 91925},
+																										pos: position{line: 2924, col: 8, offset: 92183},
 																										expr: &anyMatcher{
-																											line: 2915, col: 9, offset: 91926,
+																											line: 2924, col: 9, offset: 92184,
 																										},
 																									},
 																								},
@@ -6878,15 +6878,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 959, col: 5, offset: 30025},
+																				pos: position{line: 959, col: 5, offset: 30057},
 																				run: (*parser).callonDocumentFragment627,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2915, col: 8, offset: 91925},
+																		pos: position{line: 2924, col: 8, offset: 92183},
 																		expr: &anyMatcher{
-																			line: 2915, col: 9, offset: 91926,
+																			line: 2924, col: 9, offset: 92184,
 																		},
 																	},
 																},
@@ -6897,63 +6897,63 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 997, col: 5, offset: 31066},
+											pos: position{line: 997, col: 5, offset: 31098},
 											run: (*parser).callonDocumentFragment630,
 											expr: &seqExpr{
-												pos: position{line: 997, col: 5, offset: 31066},
+												pos: position{line: 997, col: 5, offset: 31098},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 997, col: 5, offset: 31066},
+														pos:   position{line: 997, col: 5, offset: 31098},
 														label: "firstLine",
 														expr: &choiceExpr{
-															pos: position{line: 997, col: 16, offset: 31077},
+															pos: position{line: 997, col: 16, offset: 31109},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 1010, col: 35, offset: 31553},
+																	pos: position{line: 1010, col: 35, offset: 31585},
 																	run: (*parser).callonDocumentFragment634,
 																	expr: &seqExpr{
-																		pos: position{line: 1010, col: 35, offset: 31553},
+																		pos: position{line: 1010, col: 35, offset: 31585},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1010, col: 35, offset: 31553},
+																				pos:        position{line: 1010, col: 35, offset: 31585},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1010, col: 40, offset: 31558},
+																				pos:   position{line: 1010, col: 40, offset: 31590},
 																				label: "comment",
 																				expr: &actionExpr{
-																					pos: position{line: 2497, col: 22, offset: 80337},
+																					pos: position{line: 2497, col: 22, offset: 80369},
 																					run: (*parser).callonDocumentFragment638,
 																					expr: &seqExpr{
-																						pos: position{line: 2497, col: 22, offset: 80337},
+																						pos: position{line: 2497, col: 22, offset: 80369},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2502, col: 31, offset: 80558},
+																								pos:        position{line: 2502, col: 31, offset: 80590},
 																								val:        "//",
 																								ignoreCase: false,
 																								want:       "\"//\"",
 																							},
 																							&notExpr{
-																								pos: position{line: 2502, col: 36, offset: 80563},
+																								pos: position{line: 2502, col: 36, offset: 80595},
 																								expr: &litMatcher{
-																									pos:        position{line: 2502, col: 37, offset: 80564},
+																									pos:        position{line: 2502, col: 37, offset: 80596},
 																									val:        "//",
 																									ignoreCase: false,
 																									want:       "\"//\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 2497, col: 49, offset: 80364},
+																								pos:   position{line: 2497, col: 49, offset: 80396},
 																								label: "content",
 																								expr: &actionExpr{
-																									pos: position{line: 2842, col: 13, offset: 90103},
+																									pos: position{line: 2851, col: 13, offset: 90361},
 																									run: (*parser).callonDocumentFragment644,
 																									expr: &zeroOrMoreExpr{
-																										pos: position{line: 2842, col: 13, offset: 90103},
+																										pos: position{line: 2851, col: 13, offset: 90361},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2842, col: 13, offset: 90103},
+																											pos:        position{line: 2851, col: 13, offset: 90361},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -6963,28 +6963,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2918, col: 8, offset: 91975},
+																								pos: position{line: 2927, col: 8, offset: 92233},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2905, col: 12, offset: 91748},
+																										pos: position{line: 2914, col: 12, offset: 92006},
 																										run: (*parser).callonDocumentFragment648,
 																										expr: &choiceExpr{
-																											pos: position{line: 2905, col: 13, offset: 91749},
+																											pos: position{line: 2914, col: 13, offset: 92007},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 13, offset: 91749},
+																													pos:        position{line: 2914, col: 13, offset: 92007},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 20, offset: 91756},
+																													pos:        position{line: 2914, col: 20, offset: 92014},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 29, offset: 91765},
+																													pos:        position{line: 2914, col: 29, offset: 92023},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6993,9 +6993,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2915, col: 8, offset: 91925},
+																										pos: position{line: 2924, col: 8, offset: 92183},
 																										expr: &anyMatcher{
-																											line: 2915, col: 9, offset: 91926,
+																											line: 2924, col: 9, offset: 92184,
 																										},
 																									},
 																								},
@@ -7008,32 +7008,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1004, col: 5, offset: 31411},
+																	pos: position{line: 1004, col: 5, offset: 31443},
 																	run: (*parser).callonDocumentFragment655,
 																	expr: &seqExpr{
-																		pos: position{line: 1004, col: 5, offset: 31411},
+																		pos: position{line: 1004, col: 5, offset: 31443},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1004, col: 5, offset: 31411},
+																				pos: position{line: 1004, col: 5, offset: 31443},
 																				expr: &actionExpr{
-																					pos: position{line: 687, col: 14, offset: 21835},
+																					pos: position{line: 687, col: 14, offset: 21867},
 																					run: (*parser).callonDocumentFragment658,
 																					expr: &seqExpr{
-																						pos: position{line: 687, col: 14, offset: 21835},
+																						pos: position{line: 687, col: 14, offset: 21867},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2913, col: 11, offset: 91911},
+																								pos: position{line: 2922, col: 11, offset: 92169},
 																								expr: &anyMatcher{
-																									line: 2913, col: 13, offset: 91913,
+																									line: 2922, col: 13, offset: 92171,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 687, col: 21, offset: 21842},
+																								pos: position{line: 687, col: 21, offset: 21874},
 																								expr: &actionExpr{
-																									pos: position{line: 2896, col: 10, offset: 91577},
+																									pos: position{line: 2905, col: 10, offset: 91835},
 																									run: (*parser).callonDocumentFragment663,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2896, col: 10, offset: 91577},
+																										pos:        position{line: 2905, col: 10, offset: 91835},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7042,28 +7042,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2918, col: 8, offset: 91975},
+																								pos: position{line: 2927, col: 8, offset: 92233},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2905, col: 12, offset: 91748},
+																										pos: position{line: 2914, col: 12, offset: 92006},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &choiceExpr{
-																											pos: position{line: 2905, col: 13, offset: 91749},
+																											pos: position{line: 2914, col: 13, offset: 92007},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 13, offset: 91749},
+																													pos:        position{line: 2914, col: 13, offset: 92007},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 20, offset: 91756},
+																													pos:        position{line: 2914, col: 20, offset: 92014},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 29, offset: 91765},
+																													pos:        position{line: 2914, col: 29, offset: 92023},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7072,9 +7072,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2915, col: 8, offset: 91925},
+																										pos: position{line: 2924, col: 8, offset: 92183},
 																										expr: &anyMatcher{
-																											line: 2915, col: 9, offset: 91926,
+																											line: 2924, col: 9, offset: 92184,
 																										},
 																									},
 																								},
@@ -7084,21 +7084,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1005, col: 5, offset: 31426},
+																				pos:        position{line: 1005, col: 5, offset: 31458},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1006, col: 5, offset: 31436},
+																				pos:   position{line: 1006, col: 5, offset: 31468},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2846, col: 14, offset: 90170},
+																					pos: position{line: 2855, col: 14, offset: 90428},
 																					run: (*parser).callonDocumentFragment675,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2846, col: 14, offset: 90170},
+																						pos: position{line: 2855, col: 14, offset: 90428},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 14, offset: 90170},
+																							pos:        position{line: 2855, col: 14, offset: 90428},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -7108,28 +7108,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2918, col: 8, offset: 91975},
+																				pos: position{line: 2927, col: 8, offset: 92233},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2905, col: 12, offset: 91748},
+																						pos: position{line: 2914, col: 12, offset: 92006},
 																						run: (*parser).callonDocumentFragment679,
 																						expr: &choiceExpr{
-																							pos: position{line: 2905, col: 13, offset: 91749},
+																							pos: position{line: 2914, col: 13, offset: 92007},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2905, col: 13, offset: 91749},
+																									pos:        position{line: 2914, col: 13, offset: 92007},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2905, col: 20, offset: 91756},
+																									pos:        position{line: 2914, col: 20, offset: 92014},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2905, col: 29, offset: 91765},
+																									pos:        position{line: 2914, col: 29, offset: 92023},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -7138,9 +7138,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2915, col: 8, offset: 91925},
+																						pos: position{line: 2924, col: 8, offset: 92183},
 																						expr: &anyMatcher{
-																							line: 2915, col: 9, offset: 91926,
+																							line: 2924, col: 9, offset: 92184,
 																						},
 																					},
 																				},
@@ -7152,44 +7152,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 998, col: 5, offset: 31136},
+														pos:   position{line: 998, col: 5, offset: 31168},
 														label: "otherLines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 998, col: 16, offset: 31147},
+															pos: position{line: 998, col: 16, offset: 31179},
 															expr: &choiceExpr{
-																pos: position{line: 998, col: 17, offset: 31148},
+																pos: position{line: 998, col: 17, offset: 31180},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2497, col: 22, offset: 80337},
+																		pos: position{line: 2497, col: 22, offset: 80369},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 2497, col: 22, offset: 80337},
+																			pos: position{line: 2497, col: 22, offset: 80369},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2502, col: 31, offset: 80558},
+																					pos:        position{line: 2502, col: 31, offset: 80590},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																				&notExpr{
-																					pos: position{line: 2502, col: 36, offset: 80563},
+																					pos: position{line: 2502, col: 36, offset: 80595},
 																					expr: &litMatcher{
-																						pos:        position{line: 2502, col: 37, offset: 80564},
+																						pos:        position{line: 2502, col: 37, offset: 80596},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2497, col: 49, offset: 80364},
+																					pos:   position{line: 2497, col: 49, offset: 80396},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2842, col: 13, offset: 90103},
+																						pos: position{line: 2851, col: 13, offset: 90361},
 																						run: (*parser).callonDocumentFragment695,
 																						expr: &zeroOrMoreExpr{
-																							pos: position{line: 2842, col: 13, offset: 90103},
+																							pos: position{line: 2851, col: 13, offset: 90361},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2842, col: 13, offset: 90103},
+																								pos:        position{line: 2851, col: 13, offset: 90361},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7199,28 +7199,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2918, col: 8, offset: 91975},
+																					pos: position{line: 2927, col: 8, offset: 92233},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2905, col: 12, offset: 91748},
+																							pos: position{line: 2914, col: 12, offset: 92006},
 																							run: (*parser).callonDocumentFragment699,
 																							expr: &choiceExpr{
-																								pos: position{line: 2905, col: 13, offset: 91749},
+																								pos: position{line: 2914, col: 13, offset: 92007},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 13, offset: 91749},
+																										pos:        position{line: 2914, col: 13, offset: 92007},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 20, offset: 91756},
+																										pos:        position{line: 2914, col: 20, offset: 92014},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 29, offset: 91765},
+																										pos:        position{line: 2914, col: 29, offset: 92023},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7229,9 +7229,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2915, col: 8, offset: 91925},
+																							pos: position{line: 2924, col: 8, offset: 92183},
 																							expr: &anyMatcher{
-																								line: 2915, col: 9, offset: 91926,
+																								line: 2924, col: 9, offset: 92184,
 																							},
 																						},
 																					},
@@ -7240,51 +7240,51 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1010, col: 35, offset: 31553},
+																		pos: position{line: 1010, col: 35, offset: 31585},
 																		run: (*parser).callonDocumentFragment706,
 																		expr: &seqExpr{
-																			pos: position{line: 1010, col: 35, offset: 31553},
+																			pos: position{line: 1010, col: 35, offset: 31585},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1010, col: 35, offset: 31553},
+																					pos:        position{line: 1010, col: 35, offset: 31585},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1010, col: 40, offset: 31558},
+																					pos:   position{line: 1010, col: 40, offset: 31590},
 																					label: "comment",
 																					expr: &actionExpr{
-																						pos: position{line: 2497, col: 22, offset: 80337},
+																						pos: position{line: 2497, col: 22, offset: 80369},
 																						run: (*parser).callonDocumentFragment710,
 																						expr: &seqExpr{
-																							pos: position{line: 2497, col: 22, offset: 80337},
+																							pos: position{line: 2497, col: 22, offset: 80369},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2502, col: 31, offset: 80558},
+																									pos:        position{line: 2502, col: 31, offset: 80590},
 																									val:        "//",
 																									ignoreCase: false,
 																									want:       "\"//\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2502, col: 36, offset: 80563},
+																									pos: position{line: 2502, col: 36, offset: 80595},
 																									expr: &litMatcher{
-																										pos:        position{line: 2502, col: 37, offset: 80564},
+																										pos:        position{line: 2502, col: 37, offset: 80596},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 2497, col: 49, offset: 80364},
+																									pos:   position{line: 2497, col: 49, offset: 80396},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 2842, col: 13, offset: 90103},
+																										pos: position{line: 2851, col: 13, offset: 90361},
 																										run: (*parser).callonDocumentFragment716,
 																										expr: &zeroOrMoreExpr{
-																											pos: position{line: 2842, col: 13, offset: 90103},
+																											pos: position{line: 2851, col: 13, offset: 90361},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2842, col: 13, offset: 90103},
+																												pos:        position{line: 2851, col: 13, offset: 90361},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -7294,28 +7294,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2918, col: 8, offset: 91975},
+																									pos: position{line: 2927, col: 8, offset: 92233},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2905, col: 12, offset: 91748},
+																											pos: position{line: 2914, col: 12, offset: 92006},
 																											run: (*parser).callonDocumentFragment720,
 																											expr: &choiceExpr{
-																												pos: position{line: 2905, col: 13, offset: 91749},
+																												pos: position{line: 2914, col: 13, offset: 92007},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2905, col: 13, offset: 91749},
+																														pos:        position{line: 2914, col: 13, offset: 92007},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2905, col: 20, offset: 91756},
+																														pos:        position{line: 2914, col: 20, offset: 92014},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2905, col: 29, offset: 91765},
+																														pos:        position{line: 2914, col: 29, offset: 92023},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7324,9 +7324,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2915, col: 8, offset: 91925},
+																											pos: position{line: 2924, col: 8, offset: 92183},
 																											expr: &anyMatcher{
-																												line: 2915, col: 9, offset: 91926,
+																												line: 2924, col: 9, offset: 92184,
 																											},
 																										},
 																									},
@@ -7339,32 +7339,32 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1004, col: 5, offset: 31411},
+																		pos: position{line: 1004, col: 5, offset: 31443},
 																		run: (*parser).callonDocumentFragment727,
 																		expr: &seqExpr{
-																			pos: position{line: 1004, col: 5, offset: 31411},
+																			pos: position{line: 1004, col: 5, offset: 31443},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 1004, col: 5, offset: 31411},
+																					pos: position{line: 1004, col: 5, offset: 31443},
 																					expr: &actionExpr{
-																						pos: position{line: 687, col: 14, offset: 21835},
+																						pos: position{line: 687, col: 14, offset: 21867},
 																						run: (*parser).callonDocumentFragment730,
 																						expr: &seqExpr{
-																							pos: position{line: 687, col: 14, offset: 21835},
+																							pos: position{line: 687, col: 14, offset: 21867},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2913, col: 11, offset: 91911},
+																									pos: position{line: 2922, col: 11, offset: 92169},
 																									expr: &anyMatcher{
-																										line: 2913, col: 13, offset: 91913,
+																										line: 2922, col: 13, offset: 92171,
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 687, col: 21, offset: 21842},
+																									pos: position{line: 687, col: 21, offset: 21874},
 																									expr: &actionExpr{
-																										pos: position{line: 2896, col: 10, offset: 91577},
+																										pos: position{line: 2905, col: 10, offset: 91835},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2896, col: 10, offset: 91577},
+																											pos:        position{line: 2905, col: 10, offset: 91835},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7373,28 +7373,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2918, col: 8, offset: 91975},
+																									pos: position{line: 2927, col: 8, offset: 92233},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2905, col: 12, offset: 91748},
+																											pos: position{line: 2914, col: 12, offset: 92006},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2905, col: 13, offset: 91749},
+																												pos: position{line: 2914, col: 13, offset: 92007},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2905, col: 13, offset: 91749},
+																														pos:        position{line: 2914, col: 13, offset: 92007},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2905, col: 20, offset: 91756},
+																														pos:        position{line: 2914, col: 20, offset: 92014},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2905, col: 29, offset: 91765},
+																														pos:        position{line: 2914, col: 29, offset: 92023},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7403,9 +7403,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2915, col: 8, offset: 91925},
+																											pos: position{line: 2924, col: 8, offset: 92183},
 																											expr: &anyMatcher{
-																												line: 2915, col: 9, offset: 91926,
+																												line: 2924, col: 9, offset: 92184,
 																											},
 																										},
 																									},
@@ -7415,21 +7415,21 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1005, col: 5, offset: 31426},
+																					pos:        position{line: 1005, col: 5, offset: 31458},
 																					val:        "> ",
 																					ignoreCase: false,
 																					want:       "\"> \"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1006, col: 5, offset: 31436},
+																					pos:   position{line: 1006, col: 5, offset: 31468},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2846, col: 14, offset: 90170},
+																						pos: position{line: 2855, col: 14, offset: 90428},
 																						run: (*parser).callonDocumentFragment747,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2846, col: 14, offset: 90170},
+																							pos: position{line: 2855, col: 14, offset: 90428},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2846, col: 14, offset: 90170},
+																								pos:        position{line: 2855, col: 14, offset: 90428},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7439,28 +7439,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2918, col: 8, offset: 91975},
+																					pos: position{line: 2927, col: 8, offset: 92233},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2905, col: 12, offset: 91748},
+																							pos: position{line: 2914, col: 12, offset: 92006},
 																							run: (*parser).callonDocumentFragment751,
 																							expr: &choiceExpr{
-																								pos: position{line: 2905, col: 13, offset: 91749},
+																								pos: position{line: 2914, col: 13, offset: 92007},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 13, offset: 91749},
+																										pos:        position{line: 2914, col: 13, offset: 92007},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 20, offset: 91756},
+																										pos:        position{line: 2914, col: 20, offset: 92014},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 29, offset: 91765},
+																										pos:        position{line: 2914, col: 29, offset: 92023},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7469,9 +7469,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2915, col: 8, offset: 91925},
+																							pos: position{line: 2924, col: 8, offset: 92183},
 																							expr: &anyMatcher{
-																								line: 2915, col: 9, offset: 91926,
+																								line: 2924, col: 9, offset: 92184,
 																							},
 																						},
 																					},
@@ -7480,21 +7480,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1811, col: 5, offset: 58493},
+																		pos: position{line: 1811, col: 5, offset: 58525},
 																		run: (*parser).callonDocumentFragment758,
 																		expr: &seqExpr{
-																			pos: position{line: 1811, col: 5, offset: 58493},
+																			pos: position{line: 1811, col: 5, offset: 58525},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1811, col: 5, offset: 58493},
+																					pos:   position{line: 1811, col: 5, offset: 58525},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2846, col: 14, offset: 90170},
+																						pos: position{line: 2855, col: 14, offset: 90428},
 																						run: (*parser).callonDocumentFragment761,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2846, col: 14, offset: 90170},
+																							pos: position{line: 2855, col: 14, offset: 90428},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2846, col: 14, offset: 90170},
+																								pos:        position{line: 2855, col: 14, offset: 90428},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7504,32 +7504,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1812, col: 5, offset: 58517},
+																					pos: position{line: 1812, col: 5, offset: 58549},
 																					run: (*parser).callonDocumentFragment764,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2918, col: 8, offset: 91975},
+																					pos: position{line: 2927, col: 8, offset: 92233},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2905, col: 12, offset: 91748},
+																							pos: position{line: 2914, col: 12, offset: 92006},
 																							run: (*parser).callonDocumentFragment766,
 																							expr: &choiceExpr{
-																								pos: position{line: 2905, col: 13, offset: 91749},
+																								pos: position{line: 2914, col: 13, offset: 92007},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 13, offset: 91749},
+																										pos:        position{line: 2914, col: 13, offset: 92007},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 20, offset: 91756},
+																										pos:        position{line: 2914, col: 20, offset: 92014},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 29, offset: 91765},
+																										pos:        position{line: 2914, col: 29, offset: 92023},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7538,9 +7538,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2915, col: 8, offset: 91925},
+																							pos: position{line: 2924, col: 8, offset: 92183},
 																							expr: &anyMatcher{
-																								line: 2915, col: 9, offset: 91926,
+																								line: 2924, col: 9, offset: 92184,
 																							},
 																						},
 																					},
@@ -7556,28 +7556,28 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1023, col: 5, offset: 31805},
+											pos: position{line: 1023, col: 5, offset: 31837},
 											run: (*parser).callonDocumentFragment773,
 											expr: &seqExpr{
-												pos: position{line: 1023, col: 5, offset: 31805},
+												pos: position{line: 1023, col: 5, offset: 31837},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1023, col: 5, offset: 31805},
+														pos:   position{line: 1023, col: 5, offset: 31837},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 790, col: 5, offset: 25315},
+															pos: position{line: 790, col: 5, offset: 25347},
 															run: (*parser).callonDocumentFragment776,
 															expr: &seqExpr{
-																pos: position{line: 790, col: 5, offset: 25315},
+																pos: position{line: 790, col: 5, offset: 25347},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 790, col: 5, offset: 25315},
+																		pos:   position{line: 790, col: 5, offset: 25347},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 790, col: 16, offset: 25326},
+																			pos: position{line: 790, col: 16, offset: 25358},
 																			run: (*parser).callonDocumentFragment779,
 																			expr: &litMatcher{
-																				pos:        position{line: 790, col: 16, offset: 25326},
+																				pos:        position{line: 790, col: 16, offset: 25358},
 																				val:        "--",
 																				ignoreCase: false,
 																				want:       "\"--\"",
@@ -7585,12 +7585,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 792, col: 8, offset: 25403},
+																		pos: position{line: 792, col: 8, offset: 25435},
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 10, offset: 91577},
+																			pos: position{line: 2905, col: 10, offset: 91835},
 																			run: (*parser).callonDocumentFragment782,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 10, offset: 91577},
+																				pos:        position{line: 2905, col: 10, offset: 91835},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7599,28 +7599,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2918, col: 8, offset: 91975},
+																		pos: position{line: 2927, col: 8, offset: 92233},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2905, col: 12, offset: 91748},
+																				pos: position{line: 2914, col: 12, offset: 92006},
 																				run: (*parser).callonDocumentFragment785,
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 13, offset: 91749},
+																					pos: position{line: 2914, col: 13, offset: 92007},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 13, offset: 91749},
+																							pos:        position{line: 2914, col: 13, offset: 92007},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 20, offset: 91756},
+																							pos:        position{line: 2914, col: 20, offset: 92014},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 29, offset: 91765},
+																							pos:        position{line: 2914, col: 29, offset: 92023},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7629,9 +7629,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2915, col: 8, offset: 91925},
+																				pos: position{line: 2924, col: 8, offset: 92183},
 																				expr: &anyMatcher{
-																					line: 2915, col: 9, offset: 91926,
+																					line: 2924, col: 9, offset: 92184,
 																				},
 																			},
 																		},
@@ -7641,35 +7641,35 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1024, col: 5, offset: 31841},
+														pos:   position{line: 1024, col: 5, offset: 31873},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1034, col: 5, offset: 32109},
+															pos: position{line: 1034, col: 5, offset: 32141},
 															expr: &actionExpr{
-																pos: position{line: 1034, col: 6, offset: 32110},
+																pos: position{line: 1034, col: 6, offset: 32142},
 																run: (*parser).callonDocumentFragment794,
 																expr: &seqExpr{
-																	pos: position{line: 1034, col: 6, offset: 32110},
+																	pos: position{line: 1034, col: 6, offset: 32142},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1034, col: 6, offset: 32110},
+																			pos: position{line: 1034, col: 6, offset: 32142},
 																			expr: &choiceExpr{
-																				pos: position{line: 1031, col: 26, offset: 32058},
+																				pos: position{line: 1031, col: 26, offset: 32090},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 790, col: 5, offset: 25315},
+																						pos: position{line: 790, col: 5, offset: 25347},
 																						run: (*parser).callonDocumentFragment798,
 																						expr: &seqExpr{
-																							pos: position{line: 790, col: 5, offset: 25315},
+																							pos: position{line: 790, col: 5, offset: 25347},
 																							exprs: []interface{}{
 																								&labeledExpr{
-																									pos:   position{line: 790, col: 5, offset: 25315},
+																									pos:   position{line: 790, col: 5, offset: 25347},
 																									label: "delimiter",
 																									expr: &actionExpr{
-																										pos: position{line: 790, col: 16, offset: 25326},
+																										pos: position{line: 790, col: 16, offset: 25358},
 																										run: (*parser).callonDocumentFragment801,
 																										expr: &litMatcher{
-																											pos:        position{line: 790, col: 16, offset: 25326},
+																											pos:        position{line: 790, col: 16, offset: 25358},
 																											val:        "--",
 																											ignoreCase: false,
 																											want:       "\"--\"",
@@ -7677,12 +7677,12 @@ var g = &grammar{
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 792, col: 8, offset: 25403},
+																									pos: position{line: 792, col: 8, offset: 25435},
 																									expr: &actionExpr{
-																										pos: position{line: 2896, col: 10, offset: 91577},
+																										pos: position{line: 2905, col: 10, offset: 91835},
 																										run: (*parser).callonDocumentFragment804,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2896, col: 10, offset: 91577},
+																											pos:        position{line: 2905, col: 10, offset: 91835},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7691,28 +7691,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2918, col: 8, offset: 91975},
+																									pos: position{line: 2927, col: 8, offset: 92233},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2905, col: 12, offset: 91748},
+																											pos: position{line: 2914, col: 12, offset: 92006},
 																											run: (*parser).callonDocumentFragment807,
 																											expr: &choiceExpr{
-																												pos: position{line: 2905, col: 13, offset: 91749},
+																												pos: position{line: 2914, col: 13, offset: 92007},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2905, col: 13, offset: 91749},
+																														pos:        position{line: 2914, col: 13, offset: 92007},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2905, col: 20, offset: 91756},
+																														pos:        position{line: 2914, col: 20, offset: 92014},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2905, col: 29, offset: 91765},
+																														pos:        position{line: 2914, col: 29, offset: 92023},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7721,9 +7721,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2915, col: 8, offset: 91925},
+																											pos: position{line: 2924, col: 8, offset: 92183},
 																											expr: &anyMatcher{
-																												line: 2915, col: 9, offset: 91926,
+																												line: 2924, col: 9, offset: 92184,
 																											},
 																										},
 																									},
@@ -7732,39 +7732,39 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2915, col: 8, offset: 91925},
+																						pos: position{line: 2924, col: 8, offset: 92183},
 																						expr: &anyMatcher{
-																							line: 2915, col: 9, offset: 91926,
+																							line: 2924, col: 9, offset: 92184,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1035, col: 5, offset: 32137},
+																			pos:   position{line: 1035, col: 5, offset: 32169},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 825, col: 5, offset: 26542},
+																				pos: position{line: 825, col: 5, offset: 26574},
 																				run: (*parser).callonDocumentFragment817,
 																				expr: &seqExpr{
-																					pos: position{line: 825, col: 5, offset: 26542},
+																					pos: position{line: 825, col: 5, offset: 26574},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2913, col: 11, offset: 91911},
+																							pos: position{line: 2922, col: 11, offset: 92169},
 																							expr: &anyMatcher{
-																								line: 2913, col: 13, offset: 91913,
+																								line: 2922, col: 13, offset: 92171,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 826, col: 5, offset: 26617},
+																							pos:   position{line: 826, col: 5, offset: 26649},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								run: (*parser).callonDocumentFragment822,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2842, col: 13, offset: 90103},
+																									pos: position{line: 2851, col: 13, offset: 90361},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2842, col: 13, offset: 90103},
+																										pos:        position{line: 2851, col: 13, offset: 90361},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7774,28 +7774,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonDocumentFragment826,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7804,9 +7804,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -7821,27 +7821,27 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1025, col: 5, offset: 31872},
+														pos:   position{line: 1025, col: 5, offset: 31904},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1025, col: 9, offset: 31876},
+															pos: position{line: 1025, col: 9, offset: 31908},
 															expr: &choiceExpr{
-																pos: position{line: 1031, col: 26, offset: 32058},
+																pos: position{line: 1031, col: 26, offset: 32090},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 790, col: 5, offset: 25315},
+																		pos: position{line: 790, col: 5, offset: 25347},
 																		run: (*parser).callonDocumentFragment836,
 																		expr: &seqExpr{
-																			pos: position{line: 790, col: 5, offset: 25315},
+																			pos: position{line: 790, col: 5, offset: 25347},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 790, col: 5, offset: 25315},
+																					pos:   position{line: 790, col: 5, offset: 25347},
 																					label: "delimiter",
 																					expr: &actionExpr{
-																						pos: position{line: 790, col: 16, offset: 25326},
+																						pos: position{line: 790, col: 16, offset: 25358},
 																						run: (*parser).callonDocumentFragment839,
 																						expr: &litMatcher{
-																							pos:        position{line: 790, col: 16, offset: 25326},
+																							pos:        position{line: 790, col: 16, offset: 25358},
 																							val:        "--",
 																							ignoreCase: false,
 																							want:       "\"--\"",
@@ -7849,12 +7849,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 792, col: 8, offset: 25403},
+																					pos: position{line: 792, col: 8, offset: 25435},
 																					expr: &actionExpr{
-																						pos: position{line: 2896, col: 10, offset: 91577},
+																						pos: position{line: 2905, col: 10, offset: 91835},
 																						run: (*parser).callonDocumentFragment842,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2896, col: 10, offset: 91577},
+																							pos:        position{line: 2905, col: 10, offset: 91835},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7863,28 +7863,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2918, col: 8, offset: 91975},
+																					pos: position{line: 2927, col: 8, offset: 92233},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2905, col: 12, offset: 91748},
+																							pos: position{line: 2914, col: 12, offset: 92006},
 																							run: (*parser).callonDocumentFragment845,
 																							expr: &choiceExpr{
-																								pos: position{line: 2905, col: 13, offset: 91749},
+																								pos: position{line: 2914, col: 13, offset: 92007},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 13, offset: 91749},
+																										pos:        position{line: 2914, col: 13, offset: 92007},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 20, offset: 91756},
+																										pos:        position{line: 2914, col: 20, offset: 92014},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 29, offset: 91765},
+																										pos:        position{line: 2914, col: 29, offset: 92023},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7893,9 +7893,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2915, col: 8, offset: 91925},
+																							pos: position{line: 2924, col: 8, offset: 92183},
 																							expr: &anyMatcher{
-																								line: 2915, col: 9, offset: 91926,
+																								line: 2924, col: 9, offset: 92184,
 																							},
 																						},
 																					},
@@ -7904,9 +7904,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2915, col: 8, offset: 91925},
+																		pos: position{line: 2924, col: 8, offset: 92183},
 																		expr: &anyMatcher{
-																			line: 2915, col: 9, offset: 91926,
+																			line: 2924, col: 9, offset: 92184,
 																		},
 																	},
 																},
@@ -7917,39 +7917,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1043, col: 5, offset: 32300},
+											pos: position{line: 1043, col: 5, offset: 32332},
 											run: (*parser).callonDocumentFragment854,
 											expr: &seqExpr{
-												pos: position{line: 1043, col: 5, offset: 32300},
+												pos: position{line: 1043, col: 5, offset: 32332},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1043, col: 5, offset: 32300},
+														pos:   position{line: 1043, col: 5, offset: 32332},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 804, col: 5, offset: 25798},
+															pos: position{line: 804, col: 5, offset: 25830},
 															run: (*parser).callonDocumentFragment857,
 															expr: &seqExpr{
-																pos: position{line: 804, col: 5, offset: 25798},
+																pos: position{line: 804, col: 5, offset: 25830},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 804, col: 5, offset: 25798},
+																		pos:   position{line: 804, col: 5, offset: 25830},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 804, col: 16, offset: 25809},
+																			pos: position{line: 804, col: 16, offset: 25841},
 																			run: (*parser).callonDocumentFragment860,
 																			expr: &seqExpr{
-																				pos: position{line: 804, col: 16, offset: 25809},
+																				pos: position{line: 804, col: 16, offset: 25841},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 804, col: 16, offset: 25809},
+																						pos:        position{line: 804, col: 16, offset: 25841},
 																						val:        "++++",
 																						ignoreCase: false,
 																						want:       "\"++++\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 804, col: 23, offset: 25816},
+																						pos: position{line: 804, col: 23, offset: 25848},
 																						expr: &litMatcher{
-																							pos:        position{line: 804, col: 23, offset: 25816},
+																							pos:        position{line: 804, col: 23, offset: 25848},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
@@ -7960,12 +7960,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 806, col: 8, offset: 25900},
+																		pos: position{line: 806, col: 8, offset: 25932},
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 10, offset: 91577},
+																			pos: position{line: 2905, col: 10, offset: 91835},
 																			run: (*parser).callonDocumentFragment866,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 10, offset: 91577},
+																				pos:        position{line: 2905, col: 10, offset: 91835},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7974,28 +7974,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2918, col: 8, offset: 91975},
+																		pos: position{line: 2927, col: 8, offset: 92233},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2905, col: 12, offset: 91748},
+																				pos: position{line: 2914, col: 12, offset: 92006},
 																				run: (*parser).callonDocumentFragment869,
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 13, offset: 91749},
+																					pos: position{line: 2914, col: 13, offset: 92007},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 13, offset: 91749},
+																							pos:        position{line: 2914, col: 13, offset: 92007},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 20, offset: 91756},
+																							pos:        position{line: 2914, col: 20, offset: 92014},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 29, offset: 91765},
+																							pos:        position{line: 2914, col: 29, offset: 92023},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8004,9 +8004,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2915, col: 8, offset: 91925},
+																				pos: position{line: 2924, col: 8, offset: 92183},
 																				expr: &anyMatcher{
-																					line: 2915, col: 9, offset: 91926,
+																					line: 2924, col: 9, offset: 92184,
 																				},
 																			},
 																		},
@@ -8016,56 +8016,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1044, col: 5, offset: 32343},
+														pos: position{line: 1044, col: 5, offset: 32375},
 														run: (*parser).callonDocumentFragment876,
 													},
 													&labeledExpr{
-														pos:   position{line: 1047, col: 5, offset: 32435},
+														pos:   position{line: 1047, col: 5, offset: 32467},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1062, col: 5, offset: 32865},
+															pos: position{line: 1062, col: 5, offset: 32897},
 															expr: &actionExpr{
-																pos: position{line: 1062, col: 6, offset: 32866},
+																pos: position{line: 1062, col: 6, offset: 32898},
 																run: (*parser).callonDocumentFragment879,
 																expr: &seqExpr{
-																	pos: position{line: 1062, col: 6, offset: 32866},
+																	pos: position{line: 1062, col: 6, offset: 32898},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1062, col: 6, offset: 32866},
+																			pos: position{line: 1062, col: 6, offset: 32898},
 																			expr: &choiceExpr{
-																				pos: position{line: 1055, col: 5, offset: 32699},
+																				pos: position{line: 1055, col: 5, offset: 32731},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1055, col: 5, offset: 32699},
+																						pos: position{line: 1055, col: 5, offset: 32731},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1055, col: 5, offset: 32699},
+																								pos:   position{line: 1055, col: 5, offset: 32731},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 5, offset: 25798},
+																									pos: position{line: 804, col: 5, offset: 25830},
 																									run: (*parser).callonDocumentFragment885,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 5, offset: 25798},
+																										pos: position{line: 804, col: 5, offset: 25830},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 804, col: 5, offset: 25798},
+																												pos:   position{line: 804, col: 5, offset: 25830},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 804, col: 16, offset: 25809},
+																													pos: position{line: 804, col: 16, offset: 25841},
 																													run: (*parser).callonDocumentFragment888,
 																													expr: &seqExpr{
-																														pos: position{line: 804, col: 16, offset: 25809},
+																														pos: position{line: 804, col: 16, offset: 25841},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 804, col: 16, offset: 25809},
+																																pos:        position{line: 804, col: 16, offset: 25841},
 																																val:        "++++",
 																																ignoreCase: false,
 																																want:       "\"++++\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 804, col: 23, offset: 25816},
+																																pos: position{line: 804, col: 23, offset: 25848},
 																																expr: &litMatcher{
-																																	pos:        position{line: 804, col: 23, offset: 25816},
+																																	pos:        position{line: 804, col: 23, offset: 25848},
 																																	val:        "+",
 																																	ignoreCase: false,
 																																	want:       "\"+\"",
@@ -8076,12 +8076,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 806, col: 8, offset: 25900},
+																												pos: position{line: 806, col: 8, offset: 25932},
 																												expr: &actionExpr{
-																													pos: position{line: 2896, col: 10, offset: 91577},
+																													pos: position{line: 2905, col: 10, offset: 91835},
 																													run: (*parser).callonDocumentFragment894,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2896, col: 10, offset: 91577},
+																														pos:        position{line: 2905, col: 10, offset: 91835},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8090,28 +8090,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2918, col: 8, offset: 91975},
+																												pos: position{line: 2927, col: 8, offset: 92233},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2905, col: 12, offset: 91748},
+																														pos: position{line: 2914, col: 12, offset: 92006},
 																														run: (*parser).callonDocumentFragment897,
 																														expr: &choiceExpr{
-																															pos: position{line: 2905, col: 13, offset: 91749},
+																															pos: position{line: 2914, col: 13, offset: 92007},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 13, offset: 91749},
+																																	pos:        position{line: 2914, col: 13, offset: 92007},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 20, offset: 91756},
+																																	pos:        position{line: 2914, col: 20, offset: 92014},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 29, offset: 91765},
+																																	pos:        position{line: 2914, col: 29, offset: 92023},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8120,9 +8120,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2915, col: 8, offset: 91925},
+																														pos: position{line: 2924, col: 8, offset: 92183},
 																														expr: &anyMatcher{
-																															line: 2915, col: 9, offset: 91926,
+																															line: 2924, col: 9, offset: 92184,
 																														},
 																													},
 																												},
@@ -8132,45 +8132,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1056, col: 5, offset: 32734},
+																								pos: position{line: 1056, col: 5, offset: 32766},
 																								run: (*parser).callonDocumentFragment904,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2915, col: 8, offset: 91925},
+																						pos: position{line: 2924, col: 8, offset: 92183},
 																						expr: &anyMatcher{
-																							line: 2915, col: 9, offset: 91926,
+																							line: 2924, col: 9, offset: 92184,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1063, col: 5, offset: 32900},
+																			pos:   position{line: 1063, col: 5, offset: 32932},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 825, col: 5, offset: 26542},
+																				pos: position{line: 825, col: 5, offset: 26574},
 																				run: (*parser).callonDocumentFragment908,
 																				expr: &seqExpr{
-																					pos: position{line: 825, col: 5, offset: 26542},
+																					pos: position{line: 825, col: 5, offset: 26574},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2913, col: 11, offset: 91911},
+																							pos: position{line: 2922, col: 11, offset: 92169},
 																							expr: &anyMatcher{
-																								line: 2913, col: 13, offset: 91913,
+																								line: 2922, col: 13, offset: 92171,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 826, col: 5, offset: 26617},
+																							pos:   position{line: 826, col: 5, offset: 26649},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								run: (*parser).callonDocumentFragment913,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2842, col: 13, offset: 90103},
+																									pos: position{line: 2851, col: 13, offset: 90361},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2842, col: 13, offset: 90103},
+																										pos:        position{line: 2851, col: 13, offset: 90361},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8180,28 +8180,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonDocumentFragment917,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8210,9 +8210,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -8227,44 +8227,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1048, col: 5, offset: 32473},
+														pos:   position{line: 1048, col: 5, offset: 32505},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1048, col: 9, offset: 32477},
+															pos: position{line: 1048, col: 9, offset: 32509},
 															expr: &choiceExpr{
-																pos: position{line: 1055, col: 5, offset: 32699},
+																pos: position{line: 1055, col: 5, offset: 32731},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1055, col: 5, offset: 32699},
+																		pos: position{line: 1055, col: 5, offset: 32731},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1055, col: 5, offset: 32699},
+																				pos:   position{line: 1055, col: 5, offset: 32731},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 804, col: 5, offset: 25798},
+																					pos: position{line: 804, col: 5, offset: 25830},
 																					run: (*parser).callonDocumentFragment929,
 																					expr: &seqExpr{
-																						pos: position{line: 804, col: 5, offset: 25798},
+																						pos: position{line: 804, col: 5, offset: 25830},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 804, col: 5, offset: 25798},
+																								pos:   position{line: 804, col: 5, offset: 25830},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 804, col: 16, offset: 25809},
+																									pos: position{line: 804, col: 16, offset: 25841},
 																									run: (*parser).callonDocumentFragment932,
 																									expr: &seqExpr{
-																										pos: position{line: 804, col: 16, offset: 25809},
+																										pos: position{line: 804, col: 16, offset: 25841},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 804, col: 16, offset: 25809},
+																												pos:        position{line: 804, col: 16, offset: 25841},
 																												val:        "++++",
 																												ignoreCase: false,
 																												want:       "\"++++\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 804, col: 23, offset: 25816},
+																												pos: position{line: 804, col: 23, offset: 25848},
 																												expr: &litMatcher{
-																													pos:        position{line: 804, col: 23, offset: 25816},
+																													pos:        position{line: 804, col: 23, offset: 25848},
 																													val:        "+",
 																													ignoreCase: false,
 																													want:       "\"+\"",
@@ -8275,12 +8275,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 806, col: 8, offset: 25900},
+																								pos: position{line: 806, col: 8, offset: 25932},
 																								expr: &actionExpr{
-																									pos: position{line: 2896, col: 10, offset: 91577},
+																									pos: position{line: 2905, col: 10, offset: 91835},
 																									run: (*parser).callonDocumentFragment938,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2896, col: 10, offset: 91577},
+																										pos:        position{line: 2905, col: 10, offset: 91835},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8289,28 +8289,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2918, col: 8, offset: 91975},
+																								pos: position{line: 2927, col: 8, offset: 92233},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2905, col: 12, offset: 91748},
+																										pos: position{line: 2914, col: 12, offset: 92006},
 																										run: (*parser).callonDocumentFragment941,
 																										expr: &choiceExpr{
-																											pos: position{line: 2905, col: 13, offset: 91749},
+																											pos: position{line: 2914, col: 13, offset: 92007},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 13, offset: 91749},
+																													pos:        position{line: 2914, col: 13, offset: 92007},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 20, offset: 91756},
+																													pos:        position{line: 2914, col: 20, offset: 92014},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 29, offset: 91765},
+																													pos:        position{line: 2914, col: 29, offset: 92023},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8319,9 +8319,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2915, col: 8, offset: 91925},
+																										pos: position{line: 2924, col: 8, offset: 92183},
 																										expr: &anyMatcher{
-																											line: 2915, col: 9, offset: 91926,
+																											line: 2924, col: 9, offset: 92184,
 																										},
 																									},
 																								},
@@ -8331,15 +8331,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1056, col: 5, offset: 32734},
+																				pos: position{line: 1056, col: 5, offset: 32766},
 																				run: (*parser).callonDocumentFragment948,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2915, col: 8, offset: 91925},
+																		pos: position{line: 2924, col: 8, offset: 92183},
 																		expr: &anyMatcher{
-																			line: 2915, col: 9, offset: 91926,
+																			line: 2924, col: 9, offset: 92184,
 																		},
 																	},
 																},
@@ -8350,39 +8350,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1071, col: 5, offset: 33051},
+											pos: position{line: 1071, col: 5, offset: 33083},
 											run: (*parser).callonDocumentFragment951,
 											expr: &seqExpr{
-												pos: position{line: 1071, col: 5, offset: 33051},
+												pos: position{line: 1071, col: 5, offset: 33083},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1071, col: 5, offset: 33051},
+														pos:   position{line: 1071, col: 5, offset: 33083},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 811, col: 5, offset: 26048},
+															pos: position{line: 811, col: 5, offset: 26080},
 															run: (*parser).callonDocumentFragment954,
 															expr: &seqExpr{
-																pos: position{line: 811, col: 5, offset: 26048},
+																pos: position{line: 811, col: 5, offset: 26080},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 811, col: 5, offset: 26048},
+																		pos:   position{line: 811, col: 5, offset: 26080},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 811, col: 16, offset: 26059},
+																			pos: position{line: 811, col: 16, offset: 26091},
 																			run: (*parser).callonDocumentFragment957,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 16, offset: 26059},
+																				pos: position{line: 811, col: 16, offset: 26091},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 811, col: 16, offset: 26059},
+																						pos:        position{line: 811, col: 16, offset: 26091},
 																						val:        "____",
 																						ignoreCase: false,
 																						want:       "\"____\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 811, col: 23, offset: 26066},
+																						pos: position{line: 811, col: 23, offset: 26098},
 																						expr: &litMatcher{
-																							pos:        position{line: 811, col: 23, offset: 26066},
+																							pos:        position{line: 811, col: 23, offset: 26098},
 																							val:        "_",
 																							ignoreCase: false,
 																							want:       "\"_\"",
@@ -8393,12 +8393,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 813, col: 8, offset: 26150},
+																		pos: position{line: 813, col: 8, offset: 26182},
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 10, offset: 91577},
+																			pos: position{line: 2905, col: 10, offset: 91835},
 																			run: (*parser).callonDocumentFragment963,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 10, offset: 91577},
+																				pos:        position{line: 2905, col: 10, offset: 91835},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8407,28 +8407,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2918, col: 8, offset: 91975},
+																		pos: position{line: 2927, col: 8, offset: 92233},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2905, col: 12, offset: 91748},
+																				pos: position{line: 2914, col: 12, offset: 92006},
 																				run: (*parser).callonDocumentFragment966,
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 13, offset: 91749},
+																					pos: position{line: 2914, col: 13, offset: 92007},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 13, offset: 91749},
+																							pos:        position{line: 2914, col: 13, offset: 92007},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 20, offset: 91756},
+																							pos:        position{line: 2914, col: 20, offset: 92014},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 29, offset: 91765},
+																							pos:        position{line: 2914, col: 29, offset: 92023},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8437,9 +8437,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2915, col: 8, offset: 91925},
+																				pos: position{line: 2924, col: 8, offset: 92183},
 																				expr: &anyMatcher{
-																					line: 2915, col: 9, offset: 91926,
+																					line: 2924, col: 9, offset: 92184,
 																				},
 																			},
 																		},
@@ -8449,56 +8449,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1072, col: 5, offset: 33088},
+														pos: position{line: 1072, col: 5, offset: 33120},
 														run: (*parser).callonDocumentFragment973,
 													},
 													&labeledExpr{
-														pos:   position{line: 1075, col: 5, offset: 33180},
+														pos:   position{line: 1075, col: 5, offset: 33212},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1090, col: 4, offset: 33561},
+															pos: position{line: 1090, col: 4, offset: 33593},
 															expr: &actionExpr{
-																pos: position{line: 1090, col: 5, offset: 33562},
+																pos: position{line: 1090, col: 5, offset: 33594},
 																run: (*parser).callonDocumentFragment976,
 																expr: &seqExpr{
-																	pos: position{line: 1090, col: 5, offset: 33562},
+																	pos: position{line: 1090, col: 5, offset: 33594},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1090, col: 5, offset: 33562},
+																			pos: position{line: 1090, col: 5, offset: 33594},
 																			expr: &choiceExpr{
-																				pos: position{line: 1083, col: 5, offset: 33408},
+																				pos: position{line: 1083, col: 5, offset: 33440},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1083, col: 5, offset: 33408},
+																						pos: position{line: 1083, col: 5, offset: 33440},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1083, col: 5, offset: 33408},
+																								pos:   position{line: 1083, col: 5, offset: 33440},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 811, col: 5, offset: 26048},
+																									pos: position{line: 811, col: 5, offset: 26080},
 																									run: (*parser).callonDocumentFragment982,
 																									expr: &seqExpr{
-																										pos: position{line: 811, col: 5, offset: 26048},
+																										pos: position{line: 811, col: 5, offset: 26080},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 811, col: 5, offset: 26048},
+																												pos:   position{line: 811, col: 5, offset: 26080},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 811, col: 16, offset: 26059},
+																													pos: position{line: 811, col: 16, offset: 26091},
 																													run: (*parser).callonDocumentFragment985,
 																													expr: &seqExpr{
-																														pos: position{line: 811, col: 16, offset: 26059},
+																														pos: position{line: 811, col: 16, offset: 26091},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 811, col: 16, offset: 26059},
+																																pos:        position{line: 811, col: 16, offset: 26091},
 																																val:        "____",
 																																ignoreCase: false,
 																																want:       "\"____\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 811, col: 23, offset: 26066},
+																																pos: position{line: 811, col: 23, offset: 26098},
 																																expr: &litMatcher{
-																																	pos:        position{line: 811, col: 23, offset: 26066},
+																																	pos:        position{line: 811, col: 23, offset: 26098},
 																																	val:        "_",
 																																	ignoreCase: false,
 																																	want:       "\"_\"",
@@ -8509,12 +8509,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 813, col: 8, offset: 26150},
+																												pos: position{line: 813, col: 8, offset: 26182},
 																												expr: &actionExpr{
-																													pos: position{line: 2896, col: 10, offset: 91577},
+																													pos: position{line: 2905, col: 10, offset: 91835},
 																													run: (*parser).callonDocumentFragment991,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2896, col: 10, offset: 91577},
+																														pos:        position{line: 2905, col: 10, offset: 91835},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8523,28 +8523,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2918, col: 8, offset: 91975},
+																												pos: position{line: 2927, col: 8, offset: 92233},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2905, col: 12, offset: 91748},
+																														pos: position{line: 2914, col: 12, offset: 92006},
 																														run: (*parser).callonDocumentFragment994,
 																														expr: &choiceExpr{
-																															pos: position{line: 2905, col: 13, offset: 91749},
+																															pos: position{line: 2914, col: 13, offset: 92007},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 13, offset: 91749},
+																																	pos:        position{line: 2914, col: 13, offset: 92007},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 20, offset: 91756},
+																																	pos:        position{line: 2914, col: 20, offset: 92014},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 29, offset: 91765},
+																																	pos:        position{line: 2914, col: 29, offset: 92023},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8553,9 +8553,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2915, col: 8, offset: 91925},
+																														pos: position{line: 2924, col: 8, offset: 92183},
 																														expr: &anyMatcher{
-																															line: 2915, col: 9, offset: 91926,
+																															line: 2924, col: 9, offset: 92184,
 																														},
 																													},
 																												},
@@ -8565,45 +8565,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1084, col: 5, offset: 33437},
+																								pos: position{line: 1084, col: 5, offset: 33469},
 																								run: (*parser).callonDocumentFragment1001,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2915, col: 8, offset: 91925},
+																						pos: position{line: 2924, col: 8, offset: 92183},
 																						expr: &anyMatcher{
-																							line: 2915, col: 9, offset: 91926,
+																							line: 2924, col: 9, offset: 92184,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1091, col: 5, offset: 33590},
+																			pos:   position{line: 1091, col: 5, offset: 33622},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 825, col: 5, offset: 26542},
+																				pos: position{line: 825, col: 5, offset: 26574},
 																				run: (*parser).callonDocumentFragment1005,
 																				expr: &seqExpr{
-																					pos: position{line: 825, col: 5, offset: 26542},
+																					pos: position{line: 825, col: 5, offset: 26574},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2913, col: 11, offset: 91911},
+																							pos: position{line: 2922, col: 11, offset: 92169},
 																							expr: &anyMatcher{
-																								line: 2913, col: 13, offset: 91913,
+																								line: 2922, col: 13, offset: 92171,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 826, col: 5, offset: 26617},
+																							pos:   position{line: 826, col: 5, offset: 26649},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								run: (*parser).callonDocumentFragment1010,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2842, col: 13, offset: 90103},
+																									pos: position{line: 2851, col: 13, offset: 90361},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2842, col: 13, offset: 90103},
+																										pos:        position{line: 2851, col: 13, offset: 90361},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8613,28 +8613,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonDocumentFragment1014,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8643,9 +8643,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -8660,44 +8660,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1076, col: 5, offset: 33212},
+														pos:   position{line: 1076, col: 5, offset: 33244},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1076, col: 9, offset: 33216},
+															pos: position{line: 1076, col: 9, offset: 33248},
 															expr: &choiceExpr{
-																pos: position{line: 1083, col: 5, offset: 33408},
+																pos: position{line: 1083, col: 5, offset: 33440},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1083, col: 5, offset: 33408},
+																		pos: position{line: 1083, col: 5, offset: 33440},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1083, col: 5, offset: 33408},
+																				pos:   position{line: 1083, col: 5, offset: 33440},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 811, col: 5, offset: 26048},
+																					pos: position{line: 811, col: 5, offset: 26080},
 																					run: (*parser).callonDocumentFragment1026,
 																					expr: &seqExpr{
-																						pos: position{line: 811, col: 5, offset: 26048},
+																						pos: position{line: 811, col: 5, offset: 26080},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 811, col: 5, offset: 26048},
+																								pos:   position{line: 811, col: 5, offset: 26080},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 811, col: 16, offset: 26059},
+																									pos: position{line: 811, col: 16, offset: 26091},
 																									run: (*parser).callonDocumentFragment1029,
 																									expr: &seqExpr{
-																										pos: position{line: 811, col: 16, offset: 26059},
+																										pos: position{line: 811, col: 16, offset: 26091},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 811, col: 16, offset: 26059},
+																												pos:        position{line: 811, col: 16, offset: 26091},
 																												val:        "____",
 																												ignoreCase: false,
 																												want:       "\"____\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 811, col: 23, offset: 26066},
+																												pos: position{line: 811, col: 23, offset: 26098},
 																												expr: &litMatcher{
-																													pos:        position{line: 811, col: 23, offset: 26066},
+																													pos:        position{line: 811, col: 23, offset: 26098},
 																													val:        "_",
 																													ignoreCase: false,
 																													want:       "\"_\"",
@@ -8708,12 +8708,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 813, col: 8, offset: 26150},
+																								pos: position{line: 813, col: 8, offset: 26182},
 																								expr: &actionExpr{
-																									pos: position{line: 2896, col: 10, offset: 91577},
+																									pos: position{line: 2905, col: 10, offset: 91835},
 																									run: (*parser).callonDocumentFragment1035,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2896, col: 10, offset: 91577},
+																										pos:        position{line: 2905, col: 10, offset: 91835},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8722,28 +8722,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2918, col: 8, offset: 91975},
+																								pos: position{line: 2927, col: 8, offset: 92233},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2905, col: 12, offset: 91748},
+																										pos: position{line: 2914, col: 12, offset: 92006},
 																										run: (*parser).callonDocumentFragment1038,
 																										expr: &choiceExpr{
-																											pos: position{line: 2905, col: 13, offset: 91749},
+																											pos: position{line: 2914, col: 13, offset: 92007},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 13, offset: 91749},
+																													pos:        position{line: 2914, col: 13, offset: 92007},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 20, offset: 91756},
+																													pos:        position{line: 2914, col: 20, offset: 92014},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 29, offset: 91765},
+																													pos:        position{line: 2914, col: 29, offset: 92023},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8752,9 +8752,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2915, col: 8, offset: 91925},
+																										pos: position{line: 2924, col: 8, offset: 92183},
 																										expr: &anyMatcher{
-																											line: 2915, col: 9, offset: 91926,
+																											line: 2924, col: 9, offset: 92184,
 																										},
 																									},
 																								},
@@ -8764,15 +8764,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1084, col: 5, offset: 33437},
+																				pos: position{line: 1084, col: 5, offset: 33469},
 																				run: (*parser).callonDocumentFragment1045,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2915, col: 8, offset: 91925},
+																		pos: position{line: 2924, col: 8, offset: 92183},
 																		expr: &anyMatcher{
-																			line: 2915, col: 9, offset: 91926,
+																			line: 2924, col: 9, offset: 92184,
 																		},
 																	},
 																},
@@ -8783,39 +8783,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1099, col: 5, offset: 33745},
+											pos: position{line: 1099, col: 5, offset: 33777},
 											run: (*parser).callonDocumentFragment1048,
 											expr: &seqExpr{
-												pos: position{line: 1099, col: 5, offset: 33745},
+												pos: position{line: 1099, col: 5, offset: 33777},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 1099, col: 5, offset: 33745},
+														pos:   position{line: 1099, col: 5, offset: 33777},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 818, col: 5, offset: 26294},
+															pos: position{line: 818, col: 5, offset: 26326},
 															run: (*parser).callonDocumentFragment1051,
 															expr: &seqExpr{
-																pos: position{line: 818, col: 5, offset: 26294},
+																pos: position{line: 818, col: 5, offset: 26326},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 818, col: 5, offset: 26294},
+																		pos:   position{line: 818, col: 5, offset: 26326},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 818, col: 16, offset: 26305},
+																			pos: position{line: 818, col: 16, offset: 26337},
 																			run: (*parser).callonDocumentFragment1054,
 																			expr: &seqExpr{
-																				pos: position{line: 818, col: 16, offset: 26305},
+																				pos: position{line: 818, col: 16, offset: 26337},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 818, col: 16, offset: 26305},
+																						pos:        position{line: 818, col: 16, offset: 26337},
 																						val:        "****",
 																						ignoreCase: false,
 																						want:       "\"****\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 818, col: 23, offset: 26312},
+																						pos: position{line: 818, col: 23, offset: 26344},
 																						expr: &litMatcher{
-																							pos:        position{line: 818, col: 23, offset: 26312},
+																							pos:        position{line: 818, col: 23, offset: 26344},
 																							val:        "*",
 																							ignoreCase: false,
 																							want:       "\"*\"",
@@ -8826,12 +8826,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 820, col: 8, offset: 26396},
+																		pos: position{line: 820, col: 8, offset: 26428},
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 10, offset: 91577},
+																			pos: position{line: 2905, col: 10, offset: 91835},
 																			run: (*parser).callonDocumentFragment1060,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 10, offset: 91577},
+																				pos:        position{line: 2905, col: 10, offset: 91835},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8840,28 +8840,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2918, col: 8, offset: 91975},
+																		pos: position{line: 2927, col: 8, offset: 92233},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2905, col: 12, offset: 91748},
+																				pos: position{line: 2914, col: 12, offset: 92006},
 																				run: (*parser).callonDocumentFragment1063,
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 13, offset: 91749},
+																					pos: position{line: 2914, col: 13, offset: 92007},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 13, offset: 91749},
+																							pos:        position{line: 2914, col: 13, offset: 92007},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 20, offset: 91756},
+																							pos:        position{line: 2914, col: 20, offset: 92014},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 29, offset: 91765},
+																							pos:        position{line: 2914, col: 29, offset: 92023},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8870,9 +8870,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2915, col: 8, offset: 91925},
+																				pos: position{line: 2924, col: 8, offset: 92183},
 																				expr: &anyMatcher{
-																					line: 2915, col: 9, offset: 91926,
+																					line: 2924, col: 9, offset: 92184,
 																				},
 																			},
 																		},
@@ -8882,56 +8882,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 1100, col: 5, offset: 33784},
+														pos: position{line: 1100, col: 5, offset: 33816},
 														run: (*parser).callonDocumentFragment1070,
 													},
 													&labeledExpr{
-														pos:   position{line: 1103, col: 5, offset: 33876},
+														pos:   position{line: 1103, col: 5, offset: 33908},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 1118, col: 4, offset: 34273},
+															pos: position{line: 1118, col: 4, offset: 34305},
 															expr: &actionExpr{
-																pos: position{line: 1118, col: 5, offset: 34274},
+																pos: position{line: 1118, col: 5, offset: 34306},
 																run: (*parser).callonDocumentFragment1073,
 																expr: &seqExpr{
-																	pos: position{line: 1118, col: 5, offset: 34274},
+																	pos: position{line: 1118, col: 5, offset: 34306},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1118, col: 5, offset: 34274},
+																			pos: position{line: 1118, col: 5, offset: 34306},
 																			expr: &choiceExpr{
-																				pos: position{line: 1111, col: 5, offset: 34116},
+																				pos: position{line: 1111, col: 5, offset: 34148},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 1111, col: 5, offset: 34116},
+																						pos: position{line: 1111, col: 5, offset: 34148},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1111, col: 5, offset: 34116},
+																								pos:   position{line: 1111, col: 5, offset: 34148},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 818, col: 5, offset: 26294},
+																									pos: position{line: 818, col: 5, offset: 26326},
 																									run: (*parser).callonDocumentFragment1079,
 																									expr: &seqExpr{
-																										pos: position{line: 818, col: 5, offset: 26294},
+																										pos: position{line: 818, col: 5, offset: 26326},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 818, col: 5, offset: 26294},
+																												pos:   position{line: 818, col: 5, offset: 26326},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 818, col: 16, offset: 26305},
+																													pos: position{line: 818, col: 16, offset: 26337},
 																													run: (*parser).callonDocumentFragment1082,
 																													expr: &seqExpr{
-																														pos: position{line: 818, col: 16, offset: 26305},
+																														pos: position{line: 818, col: 16, offset: 26337},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 818, col: 16, offset: 26305},
+																																pos:        position{line: 818, col: 16, offset: 26337},
 																																val:        "****",
 																																ignoreCase: false,
 																																want:       "\"****\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 818, col: 23, offset: 26312},
+																																pos: position{line: 818, col: 23, offset: 26344},
 																																expr: &litMatcher{
-																																	pos:        position{line: 818, col: 23, offset: 26312},
+																																	pos:        position{line: 818, col: 23, offset: 26344},
 																																	val:        "*",
 																																	ignoreCase: false,
 																																	want:       "\"*\"",
@@ -8942,12 +8942,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 820, col: 8, offset: 26396},
+																												pos: position{line: 820, col: 8, offset: 26428},
 																												expr: &actionExpr{
-																													pos: position{line: 2896, col: 10, offset: 91577},
+																													pos: position{line: 2905, col: 10, offset: 91835},
 																													run: (*parser).callonDocumentFragment1088,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2896, col: 10, offset: 91577},
+																														pos:        position{line: 2905, col: 10, offset: 91835},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8956,28 +8956,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2918, col: 8, offset: 91975},
+																												pos: position{line: 2927, col: 8, offset: 92233},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2905, col: 12, offset: 91748},
+																														pos: position{line: 2914, col: 12, offset: 92006},
 																														run: (*parser).callonDocumentFragment1091,
 																														expr: &choiceExpr{
-																															pos: position{line: 2905, col: 13, offset: 91749},
+																															pos: position{line: 2914, col: 13, offset: 92007},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 13, offset: 91749},
+																																	pos:        position{line: 2914, col: 13, offset: 92007},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 20, offset: 91756},
+																																	pos:        position{line: 2914, col: 20, offset: 92014},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 29, offset: 91765},
+																																	pos:        position{line: 2914, col: 29, offset: 92023},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8986,9 +8986,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2915, col: 8, offset: 91925},
+																														pos: position{line: 2924, col: 8, offset: 92183},
 																														expr: &anyMatcher{
-																															line: 2915, col: 9, offset: 91926,
+																															line: 2924, col: 9, offset: 92184,
 																														},
 																													},
 																												},
@@ -8998,45 +8998,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1112, col: 5, offset: 34147},
+																								pos: position{line: 1112, col: 5, offset: 34179},
 																								run: (*parser).callonDocumentFragment1098,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2915, col: 8, offset: 91925},
+																						pos: position{line: 2924, col: 8, offset: 92183},
 																						expr: &anyMatcher{
-																							line: 2915, col: 9, offset: 91926,
+																							line: 2924, col: 9, offset: 92184,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1119, col: 5, offset: 34304},
+																			pos:   position{line: 1119, col: 5, offset: 34336},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 825, col: 5, offset: 26542},
+																				pos: position{line: 825, col: 5, offset: 26574},
 																				run: (*parser).callonDocumentFragment1102,
 																				expr: &seqExpr{
-																					pos: position{line: 825, col: 5, offset: 26542},
+																					pos: position{line: 825, col: 5, offset: 26574},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2913, col: 11, offset: 91911},
+																							pos: position{line: 2922, col: 11, offset: 92169},
 																							expr: &anyMatcher{
-																								line: 2913, col: 13, offset: 91913,
+																								line: 2922, col: 13, offset: 92171,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 826, col: 5, offset: 26617},
+																							pos:   position{line: 826, col: 5, offset: 26649},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								run: (*parser).callonDocumentFragment1107,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2842, col: 13, offset: 90103},
+																									pos: position{line: 2851, col: 13, offset: 90361},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2842, col: 13, offset: 90103},
+																										pos:        position{line: 2851, col: 13, offset: 90361},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -9046,28 +9046,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonDocumentFragment1111,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -9076,9 +9076,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -9093,44 +9093,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 1104, col: 5, offset: 33910},
+														pos:   position{line: 1104, col: 5, offset: 33942},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 1104, col: 9, offset: 33914},
+															pos: position{line: 1104, col: 9, offset: 33946},
 															expr: &choiceExpr{
-																pos: position{line: 1111, col: 5, offset: 34116},
+																pos: position{line: 1111, col: 5, offset: 34148},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 1111, col: 5, offset: 34116},
+																		pos: position{line: 1111, col: 5, offset: 34148},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1111, col: 5, offset: 34116},
+																				pos:   position{line: 1111, col: 5, offset: 34148},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 818, col: 5, offset: 26294},
+																					pos: position{line: 818, col: 5, offset: 26326},
 																					run: (*parser).callonDocumentFragment1123,
 																					expr: &seqExpr{
-																						pos: position{line: 818, col: 5, offset: 26294},
+																						pos: position{line: 818, col: 5, offset: 26326},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 818, col: 5, offset: 26294},
+																								pos:   position{line: 818, col: 5, offset: 26326},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 818, col: 16, offset: 26305},
+																									pos: position{line: 818, col: 16, offset: 26337},
 																									run: (*parser).callonDocumentFragment1126,
 																									expr: &seqExpr{
-																										pos: position{line: 818, col: 16, offset: 26305},
+																										pos: position{line: 818, col: 16, offset: 26337},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 818, col: 16, offset: 26305},
+																												pos:        position{line: 818, col: 16, offset: 26337},
 																												val:        "****",
 																												ignoreCase: false,
 																												want:       "\"****\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 818, col: 23, offset: 26312},
+																												pos: position{line: 818, col: 23, offset: 26344},
 																												expr: &litMatcher{
-																													pos:        position{line: 818, col: 23, offset: 26312},
+																													pos:        position{line: 818, col: 23, offset: 26344},
 																													val:        "*",
 																													ignoreCase: false,
 																													want:       "\"*\"",
@@ -9141,12 +9141,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 820, col: 8, offset: 26396},
+																								pos: position{line: 820, col: 8, offset: 26428},
 																								expr: &actionExpr{
-																									pos: position{line: 2896, col: 10, offset: 91577},
+																									pos: position{line: 2905, col: 10, offset: 91835},
 																									run: (*parser).callonDocumentFragment1132,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2896, col: 10, offset: 91577},
+																										pos:        position{line: 2905, col: 10, offset: 91835},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -9155,28 +9155,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2918, col: 8, offset: 91975},
+																								pos: position{line: 2927, col: 8, offset: 92233},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2905, col: 12, offset: 91748},
+																										pos: position{line: 2914, col: 12, offset: 92006},
 																										run: (*parser).callonDocumentFragment1135,
 																										expr: &choiceExpr{
-																											pos: position{line: 2905, col: 13, offset: 91749},
+																											pos: position{line: 2914, col: 13, offset: 92007},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 13, offset: 91749},
+																													pos:        position{line: 2914, col: 13, offset: 92007},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 20, offset: 91756},
+																													pos:        position{line: 2914, col: 20, offset: 92014},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 29, offset: 91765},
+																													pos:        position{line: 2914, col: 29, offset: 92023},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9185,9 +9185,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2915, col: 8, offset: 91925},
+																										pos: position{line: 2924, col: 8, offset: 92183},
 																										expr: &anyMatcher{
-																											line: 2915, col: 9, offset: 91926,
+																											line: 2924, col: 9, offset: 92184,
 																										},
 																									},
 																								},
@@ -9197,15 +9197,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1112, col: 5, offset: 34147},
+																				pos: position{line: 1112, col: 5, offset: 34179},
 																				run: (*parser).callonDocumentFragment1142,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2915, col: 8, offset: 91925},
+																		pos: position{line: 2924, col: 8, offset: 92183},
 																		expr: &anyMatcher{
-																			line: 2915, col: 9, offset: 91926,
+																			line: 2924, col: 9, offset: 92184,
 																		},
 																	},
 																},
@@ -9216,52 +9216,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2741, col: 18, offset: 87167},
+											pos: position{line: 2750, col: 18, offset: 87425},
 											run: (*parser).callonDocumentFragment1145,
 											expr: &seqExpr{
-												pos: position{line: 2741, col: 18, offset: 87167},
+												pos: position{line: 2750, col: 18, offset: 87425},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2742, col: 9, offset: 87177},
+														pos: position{line: 2751, col: 9, offset: 87435},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2742, col: 9, offset: 87177},
+																pos:        position{line: 2751, col: 9, offset: 87435},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2743, col: 11, offset: 87213},
+																pos:        position{line: 2752, col: 11, offset: 87471},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2743, col: 19, offset: 87221},
+																pos:        position{line: 2752, col: 19, offset: 87479},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2743, col: 29, offset: 87231},
+																pos:        position{line: 2752, col: 29, offset: 87489},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2743, col: 37, offset: 87239},
+																pos:        position{line: 2752, col: 37, offset: 87497},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2743, col: 47, offset: 87249},
+																pos:        position{line: 2752, col: 47, offset: 87507},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2743, col: 55, offset: 87257},
+																pos:        position{line: 2752, col: 55, offset: 87515},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9269,12 +9269,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2744, col: 11, offset: 87315},
+														pos: position{line: 2753, col: 11, offset: 87573},
 														expr: &actionExpr{
-															pos: position{line: 2896, col: 10, offset: 91577},
+															pos: position{line: 2905, col: 10, offset: 91835},
 															run: (*parser).callonDocumentFragment1156,
 															expr: &charClassMatcher{
-																pos:        position{line: 2896, col: 10, offset: 91577},
+																pos:        position{line: 2905, col: 10, offset: 91835},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9283,28 +9283,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2918, col: 8, offset: 91975},
+														pos: position{line: 2927, col: 8, offset: 92233},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2905, col: 12, offset: 91748},
+																pos: position{line: 2914, col: 12, offset: 92006},
 																run: (*parser).callonDocumentFragment1159,
 																expr: &choiceExpr{
-																	pos: position{line: 2905, col: 13, offset: 91749},
+																	pos: position{line: 2914, col: 13, offset: 92007},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 13, offset: 91749},
+																			pos:        position{line: 2914, col: 13, offset: 92007},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 20, offset: 91756},
+																			pos:        position{line: 2914, col: 20, offset: 92014},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 29, offset: 91765},
+																			pos:        position{line: 2914, col: 29, offset: 92023},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9313,36 +9313,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2915, col: 8, offset: 91925},
+																pos: position{line: 2924, col: 8, offset: 92183},
 																expr: &anyMatcher{
-																	line: 2915, col: 9, offset: 91926,
+																	line: 2924, col: 9, offset: 92184,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2918, col: 8, offset: 91975},
+														pos: position{line: 2927, col: 8, offset: 92233},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2905, col: 12, offset: 91748},
+																pos: position{line: 2914, col: 12, offset: 92006},
 																run: (*parser).callonDocumentFragment1167,
 																expr: &choiceExpr{
-																	pos: position{line: 2905, col: 13, offset: 91749},
+																	pos: position{line: 2914, col: 13, offset: 92007},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 13, offset: 91749},
+																			pos:        position{line: 2914, col: 13, offset: 92007},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 20, offset: 91756},
+																			pos:        position{line: 2914, col: 20, offset: 92014},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 29, offset: 91765},
+																			pos:        position{line: 2914, col: 29, offset: 92023},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9351,9 +9351,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2915, col: 8, offset: 91925},
+																pos: position{line: 2924, col: 8, offset: 92183},
 																expr: &anyMatcher{
-																	line: 2915, col: 9, offset: 91926,
+																	line: 2924, col: 9, offset: 92184,
 																},
 															},
 														},
@@ -9366,24 +9366,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2626, col: 5, offset: 83949},
+											pos: position{line: 2635, col: 5, offset: 84207},
 											run: (*parser).callonDocumentFragment1175,
 											expr: &seqExpr{
-												pos: position{line: 2626, col: 5, offset: 83949},
+												pos: position{line: 2635, col: 5, offset: 84207},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2638, col: 19, offset: 84218},
+														pos:        position{line: 2647, col: 19, offset: 84476},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2638, col: 26, offset: 84225},
+														pos: position{line: 2647, col: 26, offset: 84483},
 														expr: &actionExpr{
-															pos: position{line: 2896, col: 10, offset: 91577},
+															pos: position{line: 2905, col: 10, offset: 91835},
 															run: (*parser).callonDocumentFragment1179,
 															expr: &charClassMatcher{
-																pos:        position{line: 2896, col: 10, offset: 91577},
+																pos:        position{line: 2905, col: 10, offset: 91835},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9392,28 +9392,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2918, col: 8, offset: 91975},
+														pos: position{line: 2927, col: 8, offset: 92233},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2905, col: 12, offset: 91748},
+																pos: position{line: 2914, col: 12, offset: 92006},
 																run: (*parser).callonDocumentFragment1182,
 																expr: &choiceExpr{
-																	pos: position{line: 2905, col: 13, offset: 91749},
+																	pos: position{line: 2914, col: 13, offset: 92007},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 13, offset: 91749},
+																			pos:        position{line: 2914, col: 13, offset: 92007},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 20, offset: 91756},
+																			pos:        position{line: 2914, col: 20, offset: 92014},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 29, offset: 91765},
+																			pos:        position{line: 2914, col: 29, offset: 92023},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9422,46 +9422,46 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2915, col: 8, offset: 91925},
+																pos: position{line: 2924, col: 8, offset: 92183},
 																expr: &anyMatcher{
-																	line: 2915, col: 9, offset: 91926,
+																	line: 2924, col: 9, offset: 92184,
 																},
 															},
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2627, col: 5, offset: 83973},
+														pos: position{line: 2636, col: 5, offset: 84231},
 														expr: &actionExpr{
-															pos: position{line: 2497, col: 22, offset: 80337},
+															pos: position{line: 2497, col: 22, offset: 80369},
 															run: (*parser).callonDocumentFragment1190,
 															expr: &seqExpr{
-																pos: position{line: 2497, col: 22, offset: 80337},
+																pos: position{line: 2497, col: 22, offset: 80369},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2502, col: 31, offset: 80558},
+																		pos:        position{line: 2502, col: 31, offset: 80590},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2502, col: 36, offset: 80563},
+																		pos: position{line: 2502, col: 36, offset: 80595},
 																		expr: &litMatcher{
-																			pos:        position{line: 2502, col: 37, offset: 80564},
+																			pos:        position{line: 2502, col: 37, offset: 80596},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2497, col: 49, offset: 80364},
+																		pos:   position{line: 2497, col: 49, offset: 80396},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2842, col: 13, offset: 90103},
+																			pos: position{line: 2851, col: 13, offset: 90361},
 																			run: (*parser).callonDocumentFragment1196,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2842, col: 13, offset: 90103},
+																				pos: position{line: 2851, col: 13, offset: 90361},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2842, col: 13, offset: 90103},
+																					pos:        position{line: 2851, col: 13, offset: 90361},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -9471,28 +9471,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2918, col: 8, offset: 91975},
+																		pos: position{line: 2927, col: 8, offset: 92233},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2905, col: 12, offset: 91748},
+																				pos: position{line: 2914, col: 12, offset: 92006},
 																				run: (*parser).callonDocumentFragment1200,
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 13, offset: 91749},
+																					pos: position{line: 2914, col: 13, offset: 92007},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 13, offset: 91749},
+																							pos:        position{line: 2914, col: 13, offset: 92007},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 20, offset: 91756},
+																							pos:        position{line: 2914, col: 20, offset: 92014},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 29, offset: 91765},
+																							pos:        position{line: 2914, col: 29, offset: 92023},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -9501,9 +9501,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2915, col: 8, offset: 91925},
+																				pos: position{line: 2924, col: 8, offset: 92183},
 																				expr: &anyMatcher{
-																					line: 2915, col: 9, offset: 91926,
+																					line: 2924, col: 9, offset: 92184,
 																				},
 																			},
 																		},
@@ -9513,41 +9513,41 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2628, col: 5, offset: 83996},
+														pos:   position{line: 2637, col: 5, offset: 84254},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2628, col: 11, offset: 84002},
+															pos: position{line: 2637, col: 11, offset: 84260},
 															expr: &actionExpr{
-																pos: position{line: 2629, col: 9, offset: 84012},
+																pos: position{line: 2638, col: 9, offset: 84270},
 																run: (*parser).callonDocumentFragment1209,
 																expr: &seqExpr{
-																	pos: position{line: 2629, col: 9, offset: 84012},
+																	pos: position{line: 2638, col: 9, offset: 84270},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 2629, col: 9, offset: 84012},
+																			pos:   position{line: 2638, col: 9, offset: 84270},
 																			label: "line",
 																			expr: &choiceExpr{
-																				pos: position{line: 2629, col: 15, offset: 84018},
+																				pos: position{line: 2638, col: 15, offset: 84276},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 687, col: 14, offset: 21835},
+																						pos: position{line: 687, col: 14, offset: 21867},
 																						run: (*parser).callonDocumentFragment1213,
 																						expr: &seqExpr{
-																							pos: position{line: 687, col: 14, offset: 21835},
+																							pos: position{line: 687, col: 14, offset: 21867},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2913, col: 11, offset: 91911},
+																									pos: position{line: 2922, col: 11, offset: 92169},
 																									expr: &anyMatcher{
-																										line: 2913, col: 13, offset: 91913,
+																										line: 2922, col: 13, offset: 92171,
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 687, col: 21, offset: 21842},
+																									pos: position{line: 687, col: 21, offset: 21874},
 																									expr: &actionExpr{
-																										pos: position{line: 2896, col: 10, offset: 91577},
+																										pos: position{line: 2905, col: 10, offset: 91835},
 																										run: (*parser).callonDocumentFragment1218,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2896, col: 10, offset: 91577},
+																											pos:        position{line: 2905, col: 10, offset: 91835},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -9556,28 +9556,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2918, col: 8, offset: 91975},
+																									pos: position{line: 2927, col: 8, offset: 92233},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2905, col: 12, offset: 91748},
+																											pos: position{line: 2914, col: 12, offset: 92006},
 																											run: (*parser).callonDocumentFragment1221,
 																											expr: &choiceExpr{
-																												pos: position{line: 2905, col: 13, offset: 91749},
+																												pos: position{line: 2914, col: 13, offset: 92007},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2905, col: 13, offset: 91749},
+																														pos:        position{line: 2914, col: 13, offset: 92007},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2905, col: 20, offset: 91756},
+																														pos:        position{line: 2914, col: 20, offset: 92014},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2905, col: 29, offset: 91765},
+																														pos:        position{line: 2914, col: 29, offset: 92023},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -9586,9 +9586,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2915, col: 8, offset: 91925},
+																											pos: position{line: 2924, col: 8, offset: 92183},
 																											expr: &anyMatcher{
-																												line: 2915, col: 9, offset: 91926,
+																												line: 2924, col: 9, offset: 92184,
 																											},
 																										},
 																									},
@@ -9597,32 +9597,32 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2645, col: 5, offset: 84337},
+																						pos: position{line: 2654, col: 5, offset: 84595},
 																						run: (*parser).callonDocumentFragment1228,
 																						expr: &seqExpr{
-																							pos: position{line: 2645, col: 5, offset: 84337},
+																							pos: position{line: 2654, col: 5, offset: 84595},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 2645, col: 5, offset: 84337},
+																									pos: position{line: 2654, col: 5, offset: 84595},
 																									expr: &choiceExpr{
-																										pos: position{line: 2642, col: 22, offset: 84298},
+																										pos: position{line: 2651, col: 22, offset: 84556},
 																										alternatives: []interface{}{
 																											&seqExpr{
-																												pos: position{line: 2638, col: 19, offset: 84218},
+																												pos: position{line: 2647, col: 19, offset: 84476},
 																												exprs: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2638, col: 19, offset: 84218},
+																														pos:        position{line: 2647, col: 19, offset: 84476},
 																														val:        "|===",
 																														ignoreCase: false,
 																														want:       "\"|===\"",
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 2638, col: 26, offset: 84225},
+																														pos: position{line: 2647, col: 26, offset: 84483},
 																														expr: &actionExpr{
-																															pos: position{line: 2896, col: 10, offset: 91577},
+																															pos: position{line: 2905, col: 10, offset: 91835},
 																															run: (*parser).callonDocumentFragment1235,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 2896, col: 10, offset: 91577},
+																																pos:        position{line: 2905, col: 10, offset: 91835},
 																																val:        "[\\t ]",
 																																chars:      []rune{'\t', ' '},
 																																ignoreCase: false,
@@ -9631,28 +9631,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2918, col: 8, offset: 91975},
+																														pos: position{line: 2927, col: 8, offset: 92233},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2905, col: 12, offset: 91748},
+																																pos: position{line: 2914, col: 12, offset: 92006},
 																																run: (*parser).callonDocumentFragment1238,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2905, col: 13, offset: 91749},
+																																	pos: position{line: 2914, col: 13, offset: 92007},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2905, col: 13, offset: 91749},
+																																			pos:        position{line: 2914, col: 13, offset: 92007},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2905, col: 20, offset: 91756},
+																																			pos:        position{line: 2914, col: 20, offset: 92014},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2905, col: 29, offset: 91765},
+																																			pos:        position{line: 2914, col: 29, offset: 92023},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -9661,9 +9661,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2915, col: 8, offset: 91925},
+																																pos: position{line: 2924, col: 8, offset: 92183},
 																																expr: &anyMatcher{
-																																	line: 2915, col: 9, offset: 91926,
+																																	line: 2924, col: 9, offset: 92184,
 																																},
 																															},
 																														},
@@ -9671,59 +9671,59 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2915, col: 8, offset: 91925},
+																												pos: position{line: 2924, col: 8, offset: 92183},
 																												expr: &anyMatcher{
-																													line: 2915, col: 9, offset: 91926,
+																													line: 2924, col: 9, offset: 92184,
 																												},
 																											},
 																										},
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 2646, col: 5, offset: 84360},
+																									pos:   position{line: 2655, col: 5, offset: 84618},
 																									label: "content",
 																									expr: &choiceExpr{
-																										pos: position{line: 2647, col: 9, offset: 84378},
+																										pos: position{line: 2656, col: 9, offset: 84636},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2647, col: 10, offset: 84379},
+																												pos: position{line: 2656, col: 10, offset: 84637},
 																												run: (*parser).callonDocumentFragment1249,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2647, col: 10, offset: 84379},
+																													pos:   position{line: 2656, col: 10, offset: 84637},
 																													label: "cells",
 																													expr: &choiceExpr{
-																														pos: position{line: 2647, col: 17, offset: 84386},
+																														pos: position{line: 2656, col: 17, offset: 84644},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2655, col: 21, offset: 84582},
+																																pos: position{line: 2664, col: 21, offset: 84840},
 																																run: (*parser).callonDocumentFragment1252,
 																																expr: &seqExpr{
-																																	pos: position{line: 2655, col: 21, offset: 84582},
+																																	pos: position{line: 2664, col: 21, offset: 84840},
 																																	exprs: []interface{}{
 																																		&labeledExpr{
-																																			pos:   position{line: 2655, col: 21, offset: 84582},
+																																			pos:   position{line: 2664, col: 21, offset: 84840},
 																																			label: "cells",
 																																			expr: &oneOrMoreExpr{
-																																				pos: position{line: 2655, col: 27, offset: 84588},
+																																				pos: position{line: 2664, col: 27, offset: 84846},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2660, col: 5, offset: 84663},
+																																					pos: position{line: 2669, col: 5, offset: 84921},
 																																					run: (*parser).callonDocumentFragment1256,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2660, col: 5, offset: 84663},
+																																						pos: position{line: 2669, col: 5, offset: 84921},
 																																						exprs: []interface{}{
 																																							&litMatcher{
-																																								pos:        position{line: 2660, col: 5, offset: 84663},
+																																								pos:        position{line: 2669, col: 5, offset: 84921},
 																																								val:        "|",
 																																								ignoreCase: false,
 																																								want:       "\"|\"",
 																																							},
 																																							&zeroOrMoreExpr{
-																																								pos: position{line: 2660, col: 9, offset: 84667},
+																																								pos: position{line: 2669, col: 9, offset: 84925},
 																																								expr: &actionExpr{
-																																									pos: position{line: 2896, col: 10, offset: 91577},
+																																									pos: position{line: 2905, col: 10, offset: 91835},
 																																									run: (*parser).callonDocumentFragment1260,
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2896, col: 10, offset: 91577},
+																																										pos:        position{line: 2905, col: 10, offset: 91835},
 																																										val:        "[\\t ]",
 																																										chars:      []rune{'\t', ' '},
 																																										ignoreCase: false,
@@ -9732,21 +9732,21 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2660, col: 16, offset: 84674},
+																																								pos:   position{line: 2669, col: 16, offset: 84932},
 																																								label: "content",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2666, col: 5, offset: 84874},
+																																									pos: position{line: 2675, col: 5, offset: 85132},
 																																									run: (*parser).callonDocumentFragment1263,
 																																									expr: &labeledExpr{
-																																										pos:   position{line: 2666, col: 5, offset: 84874},
+																																										pos:   position{line: 2675, col: 5, offset: 85132},
 																																										label: "content",
 																																										expr: &actionExpr{
-																																											pos: position{line: 2666, col: 14, offset: 84883},
+																																											pos: position{line: 2675, col: 14, offset: 85141},
 																																											run: (*parser).callonDocumentFragment1265,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2666, col: 14, offset: 84883},
+																																												pos: position{line: 2675, col: 14, offset: 85141},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2666, col: 14, offset: 84883},
+																																													pos:        position{line: 2675, col: 14, offset: 85141},
 																																													val:        "[^|\\r\\n]",
 																																													chars:      []rune{'|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -9763,28 +9763,28 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&choiceExpr{
-																																			pos: position{line: 2918, col: 8, offset: 91975},
+																																			pos: position{line: 2927, col: 8, offset: 92233},
 																																			alternatives: []interface{}{
 																																				&actionExpr{
-																																					pos: position{line: 2905, col: 12, offset: 91748},
+																																					pos: position{line: 2914, col: 12, offset: 92006},
 																																					run: (*parser).callonDocumentFragment1269,
 																																					expr: &choiceExpr{
-																																						pos: position{line: 2905, col: 13, offset: 91749},
+																																						pos: position{line: 2914, col: 13, offset: 92007},
 																																						alternatives: []interface{}{
 																																							&litMatcher{
-																																								pos:        position{line: 2905, col: 13, offset: 91749},
+																																								pos:        position{line: 2914, col: 13, offset: 92007},
 																																								val:        "\n",
 																																								ignoreCase: false,
 																																								want:       "\"\\n\"",
 																																							},
 																																							&litMatcher{
-																																								pos:        position{line: 2905, col: 20, offset: 91756},
+																																								pos:        position{line: 2914, col: 20, offset: 92014},
 																																								val:        "\r\n",
 																																								ignoreCase: false,
 																																								want:       "\"\\r\\n\"",
 																																							},
 																																							&litMatcher{
-																																								pos:        position{line: 2905, col: 29, offset: 91765},
+																																								pos:        position{line: 2914, col: 29, offset: 92023},
 																																								val:        "\r",
 																																								ignoreCase: false,
 																																								want:       "\"\\r\"",
@@ -9793,9 +9793,9 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2915, col: 8, offset: 91925},
+																																					pos: position{line: 2924, col: 8, offset: 92183},
 																																					expr: &anyMatcher{
-																																						line: 2915, col: 9, offset: 91926,
+																																						line: 2924, col: 9, offset: 92184,
 																																					},
 																																				},
 																																			},
@@ -9804,40 +9804,40 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 2672, col: 24, offset: 85019},
+																																pos: position{line: 2681, col: 24, offset: 85277},
 																																run: (*parser).callonDocumentFragment1276,
 																																expr: &labeledExpr{
-																																	pos:   position{line: 2672, col: 24, offset: 85019},
+																																	pos:   position{line: 2681, col: 24, offset: 85277},
 																																	label: "cells",
 																																	expr: &oneOrMoreExpr{
-																																		pos: position{line: 2672, col: 30, offset: 85025},
+																																		pos: position{line: 2681, col: 30, offset: 85283},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2677, col: 5, offset: 85101},
+																																			pos: position{line: 2686, col: 5, offset: 85359},
 																																			run: (*parser).callonDocumentFragment1279,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2677, col: 5, offset: 85101},
+																																				pos: position{line: 2686, col: 5, offset: 85359},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2677, col: 5, offset: 85101},
+																																						pos: position{line: 2686, col: 5, offset: 85359},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2642, col: 22, offset: 84298},
+																																							pos: position{line: 2651, col: 22, offset: 84556},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2638, col: 19, offset: 84218},
+																																									pos: position{line: 2647, col: 19, offset: 84476},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2638, col: 19, offset: 84218},
+																																											pos:        position{line: 2647, col: 19, offset: 84476},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2638, col: 26, offset: 84225},
+																																											pos: position{line: 2647, col: 26, offset: 84483},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2896, col: 10, offset: 91577},
+																																												pos: position{line: 2905, col: 10, offset: 91835},
 																																												run: (*parser).callonDocumentFragment1286,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2896, col: 10, offset: 91577},
+																																													pos:        position{line: 2905, col: 10, offset: 91835},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9846,28 +9846,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2918, col: 8, offset: 91975},
+																																											pos: position{line: 2927, col: 8, offset: 92233},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2905, col: 12, offset: 91748},
+																																													pos: position{line: 2914, col: 12, offset: 92006},
 																																													run: (*parser).callonDocumentFragment1289,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2905, col: 13, offset: 91749},
+																																														pos: position{line: 2914, col: 13, offset: 92007},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2905, col: 13, offset: 91749},
+																																																pos:        position{line: 2914, col: 13, offset: 92007},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2905, col: 20, offset: 91756},
+																																																pos:        position{line: 2914, col: 20, offset: 92014},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2905, col: 29, offset: 91765},
+																																																pos:        position{line: 2914, col: 29, offset: 92023},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9876,9 +9876,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2915, col: 8, offset: 91925},
+																																													pos: position{line: 2924, col: 8, offset: 92183},
 																																													expr: &anyMatcher{
-																																														line: 2915, col: 9, offset: 91926,
+																																														line: 2924, col: 9, offset: 92184,
 																																													},
 																																												},
 																																											},
@@ -9886,35 +9886,35 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2915, col: 8, offset: 91925},
+																																									pos: position{line: 2924, col: 8, offset: 92183},
 																																									expr: &anyMatcher{
-																																										line: 2915, col: 9, offset: 91926,
+																																										line: 2924, col: 9, offset: 92184,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2678, col: 5, offset: 85124},
+																																						pos: position{line: 2687, col: 5, offset: 85382},
 																																						expr: &actionExpr{
-																																							pos: position{line: 687, col: 14, offset: 21835},
+																																							pos: position{line: 687, col: 14, offset: 21867},
 																																							run: (*parser).callonDocumentFragment1299,
 																																							expr: &seqExpr{
-																																								pos: position{line: 687, col: 14, offset: 21835},
+																																								pos: position{line: 687, col: 14, offset: 21867},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2913, col: 11, offset: 91911},
+																																										pos: position{line: 2922, col: 11, offset: 92169},
 																																										expr: &anyMatcher{
-																																											line: 2913, col: 13, offset: 91913,
+																																											line: 2922, col: 13, offset: 92171,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
-																																										pos: position{line: 687, col: 21, offset: 21842},
+																																										pos: position{line: 687, col: 21, offset: 21874},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2896, col: 10, offset: 91577},
+																																											pos: position{line: 2905, col: 10, offset: 91835},
 																																											run: (*parser).callonDocumentFragment1304,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2896, col: 10, offset: 91577},
+																																												pos:        position{line: 2905, col: 10, offset: 91835},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -9923,28 +9923,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2918, col: 8, offset: 91975},
+																																										pos: position{line: 2927, col: 8, offset: 92233},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2905, col: 12, offset: 91748},
+																																												pos: position{line: 2914, col: 12, offset: 92006},
 																																												run: (*parser).callonDocumentFragment1307,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2905, col: 13, offset: 91749},
+																																													pos: position{line: 2914, col: 13, offset: 92007},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2905, col: 13, offset: 91749},
+																																															pos:        position{line: 2914, col: 13, offset: 92007},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2905, col: 20, offset: 91756},
+																																															pos:        position{line: 2914, col: 20, offset: 92014},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2905, col: 29, offset: 91765},
+																																															pos:        position{line: 2914, col: 29, offset: 92023},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -9953,9 +9953,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2915, col: 8, offset: 91925},
+																																												pos: position{line: 2924, col: 8, offset: 92183},
 																																												expr: &anyMatcher{
-																																													line: 2915, col: 9, offset: 91926,
+																																													line: 2924, col: 9, offset: 92184,
 																																												},
 																																											},
 																																										},
@@ -9965,17 +9965,17 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2679, col: 5, offset: 85139},
+																																						pos:   position{line: 2688, col: 5, offset: 85397},
 																																						label: "format",
 																																						expr: &zeroOrOneExpr{
-																																							pos: position{line: 2679, col: 12, offset: 85146},
+																																							pos: position{line: 2688, col: 12, offset: 85404},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2696, col: 20, offset: 85652},
+																																								pos: position{line: 2705, col: 20, offset: 85910},
 																																								run: (*parser).callonDocumentFragment1316,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2696, col: 20, offset: 85652},
+																																									pos: position{line: 2705, col: 20, offset: 85910},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2696, col: 20, offset: 85652},
+																																										pos:        position{line: 2705, col: 20, offset: 85910},
 																																										val:        "[^ |\\r\\n]",
 																																										chars:      []rune{' ', '|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9986,18 +9986,18 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2679, col: 31, offset: 85165},
+																																						pos:        position{line: 2688, col: 31, offset: 85423},
 																																						val:        "|",
 																																						ignoreCase: false,
 																																						want:       "\"|\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2679, col: 35, offset: 85169},
+																																						pos: position{line: 2688, col: 35, offset: 85427},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2896, col: 10, offset: 91577},
+																																							pos: position{line: 2905, col: 10, offset: 91835},
 																																							run: (*parser).callonDocumentFragment1321,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2896, col: 10, offset: 91577},
+																																								pos:        position{line: 2905, col: 10, offset: 91835},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -10006,30 +10006,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2679, col: 42, offset: 85176},
+																																						pos: position{line: 2688, col: 42, offset: 85434},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2679, col: 43, offset: 85177},
+																																							pos: position{line: 2688, col: 43, offset: 85435},
 																																							exprs: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2905, col: 12, offset: 91748},
+																																									pos: position{line: 2914, col: 12, offset: 92006},
 																																									run: (*parser).callonDocumentFragment1325,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2905, col: 13, offset: 91749},
+																																										pos: position{line: 2914, col: 13, offset: 92007},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2905, col: 13, offset: 91749},
+																																												pos:        position{line: 2914, col: 13, offset: 92007},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2905, col: 20, offset: 91756},
+																																												pos:        position{line: 2914, col: 20, offset: 92014},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2905, col: 29, offset: 91765},
+																																												pos:        position{line: 2914, col: 29, offset: 92023},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -10038,38 +10038,38 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&zeroOrMoreExpr{
-																																									pos: position{line: 2679, col: 51, offset: 85185},
+																																									pos: position{line: 2688, col: 51, offset: 85443},
 																																									expr: &actionExpr{
-																																										pos: position{line: 2497, col: 22, offset: 80337},
+																																										pos: position{line: 2497, col: 22, offset: 80369},
 																																										run: (*parser).callonDocumentFragment1331,
 																																										expr: &seqExpr{
-																																											pos: position{line: 2497, col: 22, offset: 80337},
+																																											pos: position{line: 2497, col: 22, offset: 80369},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2502, col: 31, offset: 80558},
+																																													pos:        position{line: 2502, col: 31, offset: 80590},
 																																													val:        "//",
 																																													ignoreCase: false,
 																																													want:       "\"//\"",
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2502, col: 36, offset: 80563},
+																																													pos: position{line: 2502, col: 36, offset: 80595},
 																																													expr: &litMatcher{
-																																														pos:        position{line: 2502, col: 37, offset: 80564},
+																																														pos:        position{line: 2502, col: 37, offset: 80596},
 																																														val:        "//",
 																																														ignoreCase: false,
 																																														want:       "\"//\"",
 																																													},
 																																												},
 																																												&labeledExpr{
-																																													pos:   position{line: 2497, col: 49, offset: 80364},
+																																													pos:   position{line: 2497, col: 49, offset: 80396},
 																																													label: "content",
 																																													expr: &actionExpr{
-																																														pos: position{line: 2842, col: 13, offset: 90103},
+																																														pos: position{line: 2851, col: 13, offset: 90361},
 																																														run: (*parser).callonDocumentFragment1337,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2842, col: 13, offset: 90103},
+																																															pos: position{line: 2851, col: 13, offset: 90361},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2842, col: 13, offset: 90103},
+																																																pos:        position{line: 2851, col: 13, offset: 90361},
 																																																val:        "[^\\r\\n]",
 																																																chars:      []rune{'\r', '\n'},
 																																																ignoreCase: false,
@@ -10079,28 +10079,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2918, col: 8, offset: 91975},
+																																													pos: position{line: 2927, col: 8, offset: 92233},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2905, col: 12, offset: 91748},
+																																															pos: position{line: 2914, col: 12, offset: 92006},
 																																															run: (*parser).callonDocumentFragment1341,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2905, col: 13, offset: 91749},
+																																																pos: position{line: 2914, col: 13, offset: 92007},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2905, col: 13, offset: 91749},
+																																																		pos:        position{line: 2914, col: 13, offset: 92007},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2905, col: 20, offset: 91756},
+																																																		pos:        position{line: 2914, col: 20, offset: 92014},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2905, col: 29, offset: 91765},
+																																																		pos:        position{line: 2914, col: 29, offset: 92023},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -10109,9 +10109,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2915, col: 8, offset: 91925},
+																																															pos: position{line: 2924, col: 8, offset: 92183},
 																																															expr: &anyMatcher{
-																																																line: 2915, col: 9, offset: 91926,
+																																																line: 2924, col: 9, offset: 92184,
 																																															},
 																																														},
 																																													},
@@ -10124,37 +10124,37 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2679, col: 72, offset: 85206},
+																																						pos:   position{line: 2688, col: 72, offset: 85464},
 																																						label: "content",
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2685, col: 5, offset: 85365},
+																																							pos: position{line: 2694, col: 5, offset: 85623},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2686, col: 9, offset: 85375},
+																																								pos: position{line: 2695, col: 9, offset: 85633},
 																																								run: (*parser).callonDocumentFragment1350,
 																																								expr: &seqExpr{
-																																									pos: position{line: 2686, col: 9, offset: 85375},
+																																									pos: position{line: 2695, col: 9, offset: 85633},
 																																									exprs: []interface{}{
 																																										&notExpr{
-																																											pos: position{line: 2686, col: 9, offset: 85375},
+																																											pos: position{line: 2695, col: 9, offset: 85633},
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2642, col: 22, offset: 84298},
+																																												pos: position{line: 2651, col: 22, offset: 84556},
 																																												alternatives: []interface{}{
 																																													&seqExpr{
-																																														pos: position{line: 2638, col: 19, offset: 84218},
+																																														pos: position{line: 2647, col: 19, offset: 84476},
 																																														exprs: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2638, col: 19, offset: 84218},
+																																																pos:        position{line: 2647, col: 19, offset: 84476},
 																																																val:        "|===",
 																																																ignoreCase: false,
 																																																want:       "\"|===\"",
 																																															},
 																																															&zeroOrMoreExpr{
-																																																pos: position{line: 2638, col: 26, offset: 84225},
+																																																pos: position{line: 2647, col: 26, offset: 84483},
 																																																expr: &actionExpr{
-																																																	pos: position{line: 2896, col: 10, offset: 91577},
+																																																	pos: position{line: 2905, col: 10, offset: 91835},
 																																																	run: (*parser).callonDocumentFragment1357,
 																																																	expr: &charClassMatcher{
-																																																		pos:        position{line: 2896, col: 10, offset: 91577},
+																																																		pos:        position{line: 2905, col: 10, offset: 91835},
 																																																		val:        "[\\t ]",
 																																																		chars:      []rune{'\t', ' '},
 																																																		ignoreCase: false,
@@ -10163,28 +10163,28 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&choiceExpr{
-																																																pos: position{line: 2918, col: 8, offset: 91975},
+																																																pos: position{line: 2927, col: 8, offset: 92233},
 																																																alternatives: []interface{}{
 																																																	&actionExpr{
-																																																		pos: position{line: 2905, col: 12, offset: 91748},
+																																																		pos: position{line: 2914, col: 12, offset: 92006},
 																																																		run: (*parser).callonDocumentFragment1360,
 																																																		expr: &choiceExpr{
-																																																			pos: position{line: 2905, col: 13, offset: 91749},
+																																																			pos: position{line: 2914, col: 13, offset: 92007},
 																																																			alternatives: []interface{}{
 																																																				&litMatcher{
-																																																					pos:        position{line: 2905, col: 13, offset: 91749},
+																																																					pos:        position{line: 2914, col: 13, offset: 92007},
 																																																					val:        "\n",
 																																																					ignoreCase: false,
 																																																					want:       "\"\\n\"",
 																																																				},
 																																																				&litMatcher{
-																																																					pos:        position{line: 2905, col: 20, offset: 91756},
+																																																					pos:        position{line: 2914, col: 20, offset: 92014},
 																																																					val:        "\r\n",
 																																																					ignoreCase: false,
 																																																					want:       "\"\\r\\n\"",
 																																																				},
 																																																				&litMatcher{
-																																																					pos:        position{line: 2905, col: 29, offset: 91765},
+																																																					pos:        position{line: 2914, col: 29, offset: 92023},
 																																																					val:        "\r",
 																																																					ignoreCase: false,
 																																																					want:       "\"\\r\"",
@@ -10193,9 +10193,9 @@ var g = &grammar{
 																																																		},
 																																																	},
 																																																	&notExpr{
-																																																		pos: position{line: 2915, col: 8, offset: 91925},
+																																																		pos: position{line: 2924, col: 8, offset: 92183},
 																																																		expr: &anyMatcher{
-																																																			line: 2915, col: 9, offset: 91926,
+																																																			line: 2924, col: 9, offset: 92184,
 																																																		},
 																																																	},
 																																																},
@@ -10203,35 +10203,35 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2915, col: 8, offset: 91925},
+																																														pos: position{line: 2924, col: 8, offset: 92183},
 																																														expr: &anyMatcher{
-																																															line: 2915, col: 9, offset: 91926,
+																																															line: 2924, col: 9, offset: 92184,
 																																														},
 																																													},
 																																												},
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2687, col: 9, offset: 85402},
+																																											pos: position{line: 2696, col: 9, offset: 85660},
 																																											expr: &actionExpr{
-																																												pos: position{line: 687, col: 14, offset: 21835},
+																																												pos: position{line: 687, col: 14, offset: 21867},
 																																												run: (*parser).callonDocumentFragment1370,
 																																												expr: &seqExpr{
-																																													pos: position{line: 687, col: 14, offset: 21835},
+																																													pos: position{line: 687, col: 14, offset: 21867},
 																																													exprs: []interface{}{
 																																														&andExpr{
-																																															pos: position{line: 2913, col: 11, offset: 91911},
+																																															pos: position{line: 2922, col: 11, offset: 92169},
 																																															expr: &anyMatcher{
-																																																line: 2913, col: 13, offset: 91913,
+																																																line: 2922, col: 13, offset: 92171,
 																																															},
 																																														},
 																																														&zeroOrMoreExpr{
-																																															pos: position{line: 687, col: 21, offset: 21842},
+																																															pos: position{line: 687, col: 21, offset: 21874},
 																																															expr: &actionExpr{
-																																																pos: position{line: 2896, col: 10, offset: 91577},
+																																																pos: position{line: 2905, col: 10, offset: 91835},
 																																																run: (*parser).callonDocumentFragment1375,
 																																																expr: &charClassMatcher{
-																																																	pos:        position{line: 2896, col: 10, offset: 91577},
+																																																	pos:        position{line: 2905, col: 10, offset: 91835},
 																																																	val:        "[\\t ]",
 																																																	chars:      []rune{'\t', ' '},
 																																																	ignoreCase: false,
@@ -10240,28 +10240,28 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&choiceExpr{
-																																															pos: position{line: 2918, col: 8, offset: 91975},
+																																															pos: position{line: 2927, col: 8, offset: 92233},
 																																															alternatives: []interface{}{
 																																																&actionExpr{
-																																																	pos: position{line: 2905, col: 12, offset: 91748},
+																																																	pos: position{line: 2914, col: 12, offset: 92006},
 																																																	run: (*parser).callonDocumentFragment1378,
 																																																	expr: &choiceExpr{
-																																																		pos: position{line: 2905, col: 13, offset: 91749},
+																																																		pos: position{line: 2914, col: 13, offset: 92007},
 																																																		alternatives: []interface{}{
 																																																			&litMatcher{
-																																																				pos:        position{line: 2905, col: 13, offset: 91749},
+																																																				pos:        position{line: 2914, col: 13, offset: 92007},
 																																																				val:        "\n",
 																																																				ignoreCase: false,
 																																																				want:       "\"\\n\"",
 																																																			},
 																																																			&litMatcher{
-																																																				pos:        position{line: 2905, col: 20, offset: 91756},
+																																																				pos:        position{line: 2914, col: 20, offset: 92014},
 																																																				val:        "\r\n",
 																																																				ignoreCase: false,
 																																																				want:       "\"\\r\\n\"",
 																																																			},
 																																																			&litMatcher{
-																																																				pos:        position{line: 2905, col: 29, offset: 91765},
+																																																				pos:        position{line: 2914, col: 29, offset: 92023},
 																																																				val:        "\r",
 																																																				ignoreCase: false,
 																																																				want:       "\"\\r\"",
@@ -10270,9 +10270,9 @@ var g = &grammar{
 																																																	},
 																																																},
 																																																&notExpr{
-																																																	pos: position{line: 2915, col: 8, offset: 91925},
+																																																	pos: position{line: 2924, col: 8, offset: 92183},
 																																																	expr: &anyMatcher{
-																																																		line: 2915, col: 9, offset: 91926,
+																																																		line: 2924, col: 9, offset: 92184,
 																																																	},
 																																																},
 																																															},
@@ -10282,22 +10282,22 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2688, col: 9, offset: 85421},
+																																											pos: position{line: 2697, col: 9, offset: 85679},
 																																											expr: &seqExpr{
-																																												pos: position{line: 2688, col: 11, offset: 85423},
+																																												pos: position{line: 2697, col: 11, offset: 85681},
 																																												exprs: []interface{}{
 																																													&labeledExpr{
-																																														pos:   position{line: 2688, col: 11, offset: 85423},
+																																														pos:   position{line: 2697, col: 11, offset: 85681},
 																																														label: "format",
 																																														expr: &zeroOrOneExpr{
-																																															pos: position{line: 2688, col: 18, offset: 85430},
+																																															pos: position{line: 2697, col: 18, offset: 85688},
 																																															expr: &actionExpr{
-																																																pos: position{line: 2696, col: 20, offset: 85652},
+																																																pos: position{line: 2705, col: 20, offset: 85910},
 																																																run: (*parser).callonDocumentFragment1389,
 																																																expr: &zeroOrMoreExpr{
-																																																	pos: position{line: 2696, col: 20, offset: 85652},
+																																																	pos: position{line: 2705, col: 20, offset: 85910},
 																																																	expr: &charClassMatcher{
-																																																		pos:        position{line: 2696, col: 20, offset: 85652},
+																																																		pos:        position{line: 2705, col: 20, offset: 85910},
 																																																		val:        "[^ |\\r\\n]",
 																																																		chars:      []rune{' ', '|', '\r', '\n'},
 																																																		ignoreCase: false,
@@ -10308,7 +10308,7 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2688, col: 37, offset: 85449},
+																																														pos:        position{line: 2697, col: 37, offset: 85707},
 																																														val:        "|",
 																																														ignoreCase: false,
 																																														want:       "\"|\"",
@@ -10317,15 +10317,15 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&labeledExpr{
-																																											pos:   position{line: 2689, col: 9, offset: 85462},
+																																											pos:   position{line: 2698, col: 9, offset: 85720},
 																																											label: "content",
 																																											expr: &actionExpr{
-																																												pos: position{line: 2689, col: 18, offset: 85471},
+																																												pos: position{line: 2698, col: 18, offset: 85729},
 																																												run: (*parser).callonDocumentFragment1394,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2689, col: 18, offset: 85471},
+																																													pos: position{line: 2698, col: 18, offset: 85729},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2689, col: 18, offset: 85471},
+																																														pos:        position{line: 2698, col: 18, offset: 85729},
 																																														val:        "[^|\\r\\n]",
 																																														chars:      []rune{'|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -10335,33 +10335,33 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&zeroOrOneExpr{
-																																											pos: position{line: 2691, col: 12, offset: 85533},
+																																											pos: position{line: 2700, col: 12, offset: 85791},
 																																											expr: &seqExpr{
-																																												pos: position{line: 2691, col: 13, offset: 85534},
+																																												pos: position{line: 2700, col: 13, offset: 85792},
 																																												exprs: []interface{}{
 																																													&choiceExpr{
-																																														pos: position{line: 2918, col: 8, offset: 91975},
+																																														pos: position{line: 2927, col: 8, offset: 92233},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2905, col: 12, offset: 91748},
+																																																pos: position{line: 2914, col: 12, offset: 92006},
 																																																run: (*parser).callonDocumentFragment1400,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2905, col: 13, offset: 91749},
+																																																	pos: position{line: 2914, col: 13, offset: 92007},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2905, col: 13, offset: 91749},
+																																																			pos:        position{line: 2914, col: 13, offset: 92007},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2905, col: 20, offset: 91756},
+																																																			pos:        position{line: 2914, col: 20, offset: 92014},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2905, col: 29, offset: 91765},
+																																																			pos:        position{line: 2914, col: 29, offset: 92023},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -10370,46 +10370,46 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2915, col: 8, offset: 91925},
+																																																pos: position{line: 2924, col: 8, offset: 92183},
 																																																expr: &anyMatcher{
-																																																	line: 2915, col: 9, offset: 91926,
+																																																	line: 2924, col: 9, offset: 92184,
 																																																},
 																																															},
 																																														},
 																																													},
 																																													&zeroOrMoreExpr{
-																																														pos: position{line: 2691, col: 17, offset: 85538},
+																																														pos: position{line: 2700, col: 17, offset: 85796},
 																																														expr: &actionExpr{
-																																															pos: position{line: 2497, col: 22, offset: 80337},
+																																															pos: position{line: 2497, col: 22, offset: 80369},
 																																															run: (*parser).callonDocumentFragment1408,
 																																															expr: &seqExpr{
-																																																pos: position{line: 2497, col: 22, offset: 80337},
+																																																pos: position{line: 2497, col: 22, offset: 80369},
 																																																exprs: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2502, col: 31, offset: 80558},
+																																																		pos:        position{line: 2502, col: 31, offset: 80590},
 																																																		val:        "//",
 																																																		ignoreCase: false,
 																																																		want:       "\"//\"",
 																																																	},
 																																																	&notExpr{
-																																																		pos: position{line: 2502, col: 36, offset: 80563},
+																																																		pos: position{line: 2502, col: 36, offset: 80595},
 																																																		expr: &litMatcher{
-																																																			pos:        position{line: 2502, col: 37, offset: 80564},
+																																																			pos:        position{line: 2502, col: 37, offset: 80596},
 																																																			val:        "//",
 																																																			ignoreCase: false,
 																																																			want:       "\"//\"",
 																																																		},
 																																																	},
 																																																	&labeledExpr{
-																																																		pos:   position{line: 2497, col: 49, offset: 80364},
+																																																		pos:   position{line: 2497, col: 49, offset: 80396},
 																																																		label: "content",
 																																																		expr: &actionExpr{
-																																																			pos: position{line: 2842, col: 13, offset: 90103},
+																																																			pos: position{line: 2851, col: 13, offset: 90361},
 																																																			run: (*parser).callonDocumentFragment1414,
 																																																			expr: &zeroOrMoreExpr{
-																																																				pos: position{line: 2842, col: 13, offset: 90103},
+																																																				pos: position{line: 2851, col: 13, offset: 90361},
 																																																				expr: &charClassMatcher{
-																																																					pos:        position{line: 2842, col: 13, offset: 90103},
+																																																					pos:        position{line: 2851, col: 13, offset: 90361},
 																																																					val:        "[^\\r\\n]",
 																																																					chars:      []rune{'\r', '\n'},
 																																																					ignoreCase: false,
@@ -10419,28 +10419,28 @@ var g = &grammar{
 																																																		},
 																																																	},
 																																																	&choiceExpr{
-																																																		pos: position{line: 2918, col: 8, offset: 91975},
+																																																		pos: position{line: 2927, col: 8, offset: 92233},
 																																																		alternatives: []interface{}{
 																																																			&actionExpr{
-																																																				pos: position{line: 2905, col: 12, offset: 91748},
+																																																				pos: position{line: 2914, col: 12, offset: 92006},
 																																																				run: (*parser).callonDocumentFragment1418,
 																																																				expr: &choiceExpr{
-																																																					pos: position{line: 2905, col: 13, offset: 91749},
+																																																					pos: position{line: 2914, col: 13, offset: 92007},
 																																																					alternatives: []interface{}{
 																																																						&litMatcher{
-																																																							pos:        position{line: 2905, col: 13, offset: 91749},
+																																																							pos:        position{line: 2914, col: 13, offset: 92007},
 																																																							val:        "\n",
 																																																							ignoreCase: false,
 																																																							want:       "\"\\n\"",
 																																																						},
 																																																						&litMatcher{
-																																																							pos:        position{line: 2905, col: 20, offset: 91756},
+																																																							pos:        position{line: 2914, col: 20, offset: 92014},
 																																																							val:        "\r\n",
 																																																							ignoreCase: false,
 																																																							want:       "\"\\r\\n\"",
 																																																						},
 																																																						&litMatcher{
-																																																							pos:        position{line: 2905, col: 29, offset: 91765},
+																																																							pos:        position{line: 2914, col: 29, offset: 92023},
 																																																							val:        "\r",
 																																																							ignoreCase: false,
 																																																							want:       "\"\\r\"",
@@ -10449,9 +10449,9 @@ var g = &grammar{
 																																																				},
 																																																			},
 																																																			&notExpr{
-																																																				pos: position{line: 2915, col: 8, offset: 91925},
+																																																				pos: position{line: 2924, col: 8, offset: 92183},
 																																																				expr: &anyMatcher{
-																																																					line: 2915, col: 9, offset: 91926,
+																																																					line: 2924, col: 9, offset: 92184,
 																																																				},
 																																																			},
 																																																		},
@@ -10479,24 +10479,24 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 687, col: 14, offset: 21835},
+																												pos: position{line: 687, col: 14, offset: 21867},
 																												run: (*parser).callonDocumentFragment1425,
 																												expr: &seqExpr{
-																													pos: position{line: 687, col: 14, offset: 21835},
+																													pos: position{line: 687, col: 14, offset: 21867},
 																													exprs: []interface{}{
 																														&andExpr{
-																															pos: position{line: 2913, col: 11, offset: 91911},
+																															pos: position{line: 2922, col: 11, offset: 92169},
 																															expr: &anyMatcher{
-																																line: 2913, col: 13, offset: 91913,
+																																line: 2922, col: 13, offset: 92171,
 																															},
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 687, col: 21, offset: 21842},
+																															pos: position{line: 687, col: 21, offset: 21874},
 																															expr: &actionExpr{
-																																pos: position{line: 2896, col: 10, offset: 91577},
+																																pos: position{line: 2905, col: 10, offset: 91835},
 																																run: (*parser).callonDocumentFragment1430,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 2896, col: 10, offset: 91577},
+																																	pos:        position{line: 2905, col: 10, offset: 91835},
 																																	val:        "[\\t ]",
 																																	chars:      []rune{'\t', ' '},
 																																	ignoreCase: false,
@@ -10505,28 +10505,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2918, col: 8, offset: 91975},
+																															pos: position{line: 2927, col: 8, offset: 92233},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2905, col: 12, offset: 91748},
+																																	pos: position{line: 2914, col: 12, offset: 92006},
 																																	run: (*parser).callonDocumentFragment1433,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2905, col: 13, offset: 91749},
+																																		pos: position{line: 2914, col: 13, offset: 92007},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2905, col: 13, offset: 91749},
+																																				pos:        position{line: 2914, col: 13, offset: 92007},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2905, col: 20, offset: 91756},
+																																				pos:        position{line: 2914, col: 20, offset: 92014},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2905, col: 29, offset: 91765},
+																																				pos:        position{line: 2914, col: 29, offset: 92023},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -10535,9 +10535,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2915, col: 8, offset: 91925},
+																																	pos: position{line: 2924, col: 8, offset: 92183},
 																																	expr: &anyMatcher{
-																																		line: 2915, col: 9, offset: 91926,
+																																		line: 2924, col: 9, offset: 92184,
 																																	},
 																																},
 																															},
@@ -10555,38 +10555,38 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 2630, col: 9, offset: 84049},
+																			pos: position{line: 2639, col: 9, offset: 84307},
 																			expr: &actionExpr{
-																				pos: position{line: 2497, col: 22, offset: 80337},
+																				pos: position{line: 2497, col: 22, offset: 80369},
 																				run: (*parser).callonDocumentFragment1441,
 																				expr: &seqExpr{
-																					pos: position{line: 2497, col: 22, offset: 80337},
+																					pos: position{line: 2497, col: 22, offset: 80369},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2502, col: 31, offset: 80558},
+																							pos:        position{line: 2502, col: 31, offset: 80590},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
 																						},
 																						&notExpr{
-																							pos: position{line: 2502, col: 36, offset: 80563},
+																							pos: position{line: 2502, col: 36, offset: 80595},
 																							expr: &litMatcher{
-																								pos:        position{line: 2502, col: 37, offset: 80564},
+																								pos:        position{line: 2502, col: 37, offset: 80596},
 																								val:        "//",
 																								ignoreCase: false,
 																								want:       "\"//\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 2497, col: 49, offset: 80364},
+																							pos:   position{line: 2497, col: 49, offset: 80396},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								run: (*parser).callonDocumentFragment1447,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2842, col: 13, offset: 90103},
+																									pos: position{line: 2851, col: 13, offset: 90361},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2842, col: 13, offset: 90103},
+																										pos:        position{line: 2851, col: 13, offset: 90361},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -10596,28 +10596,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonDocumentFragment1451,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -10626,9 +10626,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -10643,24 +10643,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2642, col: 22, offset: 84298},
+														pos: position{line: 2651, col: 22, offset: 84556},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2638, col: 19, offset: 84218},
+																pos: position{line: 2647, col: 19, offset: 84476},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2638, col: 19, offset: 84218},
+																		pos:        position{line: 2647, col: 19, offset: 84476},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2638, col: 26, offset: 84225},
+																		pos: position{line: 2647, col: 26, offset: 84483},
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 10, offset: 91577},
+																			pos: position{line: 2905, col: 10, offset: 91835},
 																			run: (*parser).callonDocumentFragment1462,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 10, offset: 91577},
+																				pos:        position{line: 2905, col: 10, offset: 91835},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10669,28 +10669,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2918, col: 8, offset: 91975},
+																		pos: position{line: 2927, col: 8, offset: 92233},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2905, col: 12, offset: 91748},
+																				pos: position{line: 2914, col: 12, offset: 92006},
 																				run: (*parser).callonDocumentFragment1465,
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 13, offset: 91749},
+																					pos: position{line: 2914, col: 13, offset: 92007},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 13, offset: 91749},
+																							pos:        position{line: 2914, col: 13, offset: 92007},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 20, offset: 91756},
+																							pos:        position{line: 2914, col: 20, offset: 92014},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 29, offset: 91765},
+																							pos:        position{line: 2914, col: 29, offset: 92023},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10699,9 +10699,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2915, col: 8, offset: 91925},
+																				pos: position{line: 2924, col: 8, offset: 92183},
 																				expr: &anyMatcher{
-																					line: 2915, col: 9, offset: 91926,
+																					line: 2924, col: 9, offset: 92184,
 																				},
 																			},
 																		},
@@ -10709,9 +10709,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2915, col: 8, offset: 91925},
+																pos: position{line: 2924, col: 8, offset: 92183},
 																expr: &anyMatcher{
-																	line: 2915, col: 9, offset: 91926,
+																	line: 2924, col: 9, offset: 92184,
 																},
 															},
 														},
@@ -10720,36 +10720,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2497, col: 22, offset: 80337},
+											pos: position{line: 2497, col: 22, offset: 80369},
 											run: (*parser).callonDocumentFragment1474,
 											expr: &seqExpr{
-												pos: position{line: 2497, col: 22, offset: 80337},
+												pos: position{line: 2497, col: 22, offset: 80369},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2502, col: 31, offset: 80558},
+														pos:        position{line: 2502, col: 31, offset: 80590},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2502, col: 36, offset: 80563},
+														pos: position{line: 2502, col: 36, offset: 80595},
 														expr: &litMatcher{
-															pos:        position{line: 2502, col: 37, offset: 80564},
+															pos:        position{line: 2502, col: 37, offset: 80596},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2497, col: 49, offset: 80364},
+														pos:   position{line: 2497, col: 49, offset: 80396},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2842, col: 13, offset: 90103},
+															pos: position{line: 2851, col: 13, offset: 90361},
 															run: (*parser).callonDocumentFragment1480,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2842, col: 13, offset: 90103},
+																pos: position{line: 2851, col: 13, offset: 90361},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2842, col: 13, offset: 90103},
+																	pos:        position{line: 2851, col: 13, offset: 90361},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10759,28 +10759,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2918, col: 8, offset: 91975},
+														pos: position{line: 2927, col: 8, offset: 92233},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2905, col: 12, offset: 91748},
+																pos: position{line: 2914, col: 12, offset: 92006},
 																run: (*parser).callonDocumentFragment1484,
 																expr: &choiceExpr{
-																	pos: position{line: 2905, col: 13, offset: 91749},
+																	pos: position{line: 2914, col: 13, offset: 92007},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 13, offset: 91749},
+																			pos:        position{line: 2914, col: 13, offset: 92007},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 20, offset: 91756},
+																			pos:        position{line: 2914, col: 20, offset: 92014},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 29, offset: 91765},
+																			pos:        position{line: 2914, col: 29, offset: 92023},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10789,9 +10789,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2915, col: 8, offset: 91925},
+																pos: position{line: 2924, col: 8, offset: 92183},
 																expr: &anyMatcher{
-																	line: 2915, col: 9, offset: 91926,
+																	line: 2924, col: 9, offset: 92184,
 																},
 															},
 														},
@@ -10800,37 +10800,37 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1248, col: 5, offset: 38722},
+											pos: position{line: 1248, col: 5, offset: 38754},
 											run: (*parser).callonDocumentFragment1491,
 											expr: &seqExpr{
-												pos: position{line: 1248, col: 5, offset: 38722},
+												pos: position{line: 1248, col: 5, offset: 38754},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 1248, col: 5, offset: 38722},
+														pos: position{line: 1248, col: 5, offset: 38754},
 														run: (*parser).callonDocumentFragment1493,
 													},
 													&labeledExpr{
-														pos:   position{line: 1251, col: 5, offset: 38780},
+														pos:   position{line: 1251, col: 5, offset: 38812},
 														label: "frontmatter",
 														expr: &actionExpr{
-															pos: position{line: 1256, col: 20, offset: 38875},
+															pos: position{line: 1256, col: 20, offset: 38907},
 															run: (*parser).callonDocumentFragment1495,
 															expr: &seqExpr{
-																pos: position{line: 1256, col: 20, offset: 38875},
+																pos: position{line: 1256, col: 20, offset: 38907},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1260, col: 30, offset: 39047},
+																		pos:        position{line: 1260, col: 30, offset: 39079},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1260, col: 36, offset: 39053},
+																		pos: position{line: 1260, col: 36, offset: 39085},
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 10, offset: 91577},
+																			pos: position{line: 2905, col: 10, offset: 91835},
 																			run: (*parser).callonDocumentFragment1499,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 10, offset: 91577},
+																				pos:        position{line: 2905, col: 10, offset: 91835},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10839,28 +10839,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2918, col: 8, offset: 91975},
+																		pos: position{line: 2927, col: 8, offset: 92233},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2905, col: 12, offset: 91748},
+																				pos: position{line: 2914, col: 12, offset: 92006},
 																				run: (*parser).callonDocumentFragment1502,
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 13, offset: 91749},
+																					pos: position{line: 2914, col: 13, offset: 92007},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 13, offset: 91749},
+																							pos:        position{line: 2914, col: 13, offset: 92007},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 20, offset: 91756},
+																							pos:        position{line: 2914, col: 20, offset: 92014},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 29, offset: 91765},
+																							pos:        position{line: 2914, col: 29, offset: 92023},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10869,46 +10869,46 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2915, col: 8, offset: 91925},
+																				pos: position{line: 2924, col: 8, offset: 92183},
 																				expr: &anyMatcher{
-																					line: 2915, col: 9, offset: 91926,
+																					line: 2924, col: 9, offset: 92184,
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1256, col: 45, offset: 38900},
+																		pos:   position{line: 1256, col: 45, offset: 38932},
 																		label: "content",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 1256, col: 53, offset: 38908},
+																			pos: position{line: 1256, col: 53, offset: 38940},
 																			expr: &actionExpr{
-																				pos: position{line: 1262, col: 27, offset: 39091},
+																				pos: position{line: 1262, col: 27, offset: 39123},
 																				run: (*parser).callonDocumentFragment1511,
 																				expr: &zeroOrMoreExpr{
-																					pos: position{line: 1262, col: 27, offset: 39091},
+																					pos: position{line: 1262, col: 27, offset: 39123},
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1262, col: 28, offset: 39092},
+																						pos: position{line: 1262, col: 28, offset: 39124},
 																						expr: &seqExpr{
-																							pos: position{line: 1262, col: 29, offset: 39093},
+																							pos: position{line: 1262, col: 29, offset: 39125},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 1262, col: 29, offset: 39093},
+																									pos: position{line: 1262, col: 29, offset: 39125},
 																									expr: &seqExpr{
-																										pos: position{line: 1260, col: 30, offset: 39047},
+																										pos: position{line: 1260, col: 30, offset: 39079},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 1260, col: 30, offset: 39047},
+																												pos:        position{line: 1260, col: 30, offset: 39079},
 																												val:        "---",
 																												ignoreCase: false,
 																												want:       "\"---\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 1260, col: 36, offset: 39053},
+																												pos: position{line: 1260, col: 36, offset: 39085},
 																												expr: &actionExpr{
-																													pos: position{line: 2896, col: 10, offset: 91577},
+																													pos: position{line: 2905, col: 10, offset: 91835},
 																													run: (*parser).callonDocumentFragment1519,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2896, col: 10, offset: 91577},
+																														pos:        position{line: 2905, col: 10, offset: 91835},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10917,28 +10917,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2918, col: 8, offset: 91975},
+																												pos: position{line: 2927, col: 8, offset: 92233},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2905, col: 12, offset: 91748},
+																														pos: position{line: 2914, col: 12, offset: 92006},
 																														run: (*parser).callonDocumentFragment1522,
 																														expr: &choiceExpr{
-																															pos: position{line: 2905, col: 13, offset: 91749},
+																															pos: position{line: 2914, col: 13, offset: 92007},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 13, offset: 91749},
+																																	pos:        position{line: 2914, col: 13, offset: 92007},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 20, offset: 91756},
+																																	pos:        position{line: 2914, col: 20, offset: 92014},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 29, offset: 91765},
+																																	pos:        position{line: 2914, col: 29, offset: 92023},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10947,9 +10947,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2915, col: 8, offset: 91925},
+																														pos: position{line: 2924, col: 8, offset: 92183},
 																														expr: &anyMatcher{
-																															line: 2915, col: 9, offset: 91926,
+																															line: 2924, col: 9, offset: 92184,
 																														},
 																													},
 																												},
@@ -10958,7 +10958,7 @@ var g = &grammar{
 																									},
 																								},
 																								&anyMatcher{
-																									line: 1262, col: 55, offset: 39119,
+																									line: 1262, col: 55, offset: 39151,
 																								},
 																							},
 																						},
@@ -10968,18 +10968,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1260, col: 30, offset: 39047},
+																		pos:        position{line: 1260, col: 30, offset: 39079},
 																		val:        "---",
 																		ignoreCase: false,
 																		want:       "\"---\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1260, col: 36, offset: 39053},
+																		pos: position{line: 1260, col: 36, offset: 39085},
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 10, offset: 91577},
+																			pos: position{line: 2905, col: 10, offset: 91835},
 																			run: (*parser).callonDocumentFragment1532,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 10, offset: 91577},
+																				pos:        position{line: 2905, col: 10, offset: 91835},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10988,28 +10988,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2918, col: 8, offset: 91975},
+																		pos: position{line: 2927, col: 8, offset: 92233},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2905, col: 12, offset: 91748},
+																				pos: position{line: 2914, col: 12, offset: 92006},
 																				run: (*parser).callonDocumentFragment1535,
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 13, offset: 91749},
+																					pos: position{line: 2914, col: 13, offset: 92007},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 13, offset: 91749},
+																							pos:        position{line: 2914, col: 13, offset: 92007},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 20, offset: 91756},
+																							pos:        position{line: 2914, col: 20, offset: 92014},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 29, offset: 91765},
+																							pos:        position{line: 2914, col: 29, offset: 92023},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -11018,9 +11018,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2915, col: 8, offset: 91925},
+																				pos: position{line: 2924, col: 8, offset: 92183},
 																				expr: &anyMatcher{
-																					line: 2915, col: 9, offset: 91926,
+																					line: 2924, col: 9, offset: 92184,
 																				},
 																			},
 																		},
@@ -11070,27 +11070,27 @@ var g = &grammar{
 									pos: position{line: 282, col: 9, offset: 8388},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 1224, col: 23, offset: 37828},
+											pos: position{line: 1224, col: 23, offset: 37860},
 											run: (*parser).callonDelimitedBlockElements7,
 											expr: &seqExpr{
-												pos: position{line: 1224, col: 23, offset: 37828},
+												pos: position{line: 1224, col: 23, offset: 37860},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1222, col: 32, offset: 37796},
+														pos:        position{line: 1222, col: 32, offset: 37828},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1224, col: 51, offset: 37856},
+														pos:   position{line: 1224, col: 51, offset: 37888},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1224, col: 56, offset: 37861},
+															pos: position{line: 1224, col: 56, offset: 37893},
 															run: (*parser).callonDelimitedBlockElements11,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1224, col: 56, offset: 37861},
+																pos: position{line: 1224, col: 56, offset: 37893},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1224, col: 56, offset: 37861},
+																	pos:        position{line: 1224, col: 56, offset: 37893},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -11100,7 +11100,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1222, col: 32, offset: 37796},
+														pos:        position{line: 1222, col: 32, offset: 37828},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -11117,9 +11117,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2915, col: 8, offset: 91925},
+							pos: position{line: 2924, col: 8, offset: 92183},
 							expr: &anyMatcher{
-								line: 2915, col: 9, offset: 91926,
+								line: 2924, col: 9, offset: 92184,
 							},
 						},
 					},
@@ -11191,12 +11191,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2900, col: 11, offset: 91638},
+												pos: position{line: 2909, col: 11, offset: 91896},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2900, col: 11, offset: 91638},
+													pos: position{line: 2909, col: 11, offset: 91896},
 													expr: &charClassMatcher{
-														pos:        position{line: 2900, col: 11, offset: 91638},
+														pos:        position{line: 2909, col: 11, offset: 91896},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11218,28 +11218,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2918, col: 8, offset: 91975},
+							pos: position{line: 2927, col: 8, offset: 92233},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2905, col: 12, offset: 91748},
+									pos: position{line: 2914, col: 12, offset: 92006},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2905, col: 13, offset: 91749},
+										pos: position{line: 2914, col: 13, offset: 92007},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2905, col: 13, offset: 91749},
+												pos:        position{line: 2914, col: 13, offset: 92007},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2905, col: 20, offset: 91756},
+												pos:        position{line: 2914, col: 20, offset: 92014},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2905, col: 29, offset: 91765},
+												pos:        position{line: 2914, col: 29, offset: 92023},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -11248,9 +11248,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2915, col: 8, offset: 91925},
+									pos: position{line: 2924, col: 8, offset: 92183},
 									expr: &anyMatcher{
-										line: 2915, col: 9, offset: 91926,
+										line: 2924, col: 9, offset: 92184,
 									},
 								},
 							},
@@ -11294,25 +11294,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2905, col: 12, offset: 91748},
+												pos: position{line: 2914, col: 12, offset: 92006},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2905, col: 13, offset: 91749},
+													pos: position{line: 2914, col: 13, offset: 92007},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2905, col: 13, offset: 91749},
+															pos:        position{line: 2914, col: 13, offset: 92007},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2905, col: 20, offset: 91756},
+															pos:        position{line: 2914, col: 20, offset: 92014},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2905, col: 29, offset: 91765},
+															pos:        position{line: 2914, col: 29, offset: 92023},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -11323,10 +11323,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2896, col: 10, offset: 91577},
+													pos: position{line: 2905, col: 10, offset: 91835},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2896, col: 10, offset: 91577},
+														pos:        position{line: 2905, col: 10, offset: 91835},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11396,10 +11396,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2896, col: 10, offset: 91577},
+											pos: position{line: 2905, col: 10, offset: 91835},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2896, col: 10, offset: 91577},
+												pos:        position{line: 2905, col: 10, offset: 91835},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -11408,28 +11408,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2918, col: 8, offset: 91975},
+										pos: position{line: 2927, col: 8, offset: 92233},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2905, col: 12, offset: 91748},
+												pos: position{line: 2914, col: 12, offset: 92006},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2905, col: 13, offset: 91749},
+													pos: position{line: 2914, col: 13, offset: 92007},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2905, col: 13, offset: 91749},
+															pos:        position{line: 2914, col: 13, offset: 92007},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2905, col: 20, offset: 91756},
+															pos:        position{line: 2914, col: 20, offset: 92014},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2905, col: 29, offset: 91765},
+															pos:        position{line: 2914, col: 29, offset: 92023},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -11438,9 +11438,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2915, col: 8, offset: 91925},
+												pos: position{line: 2924, col: 8, offset: 92183},
 												expr: &anyMatcher{
-													line: 2915, col: 9, offset: 91926,
+													line: 2924, col: 9, offset: 92184,
 												},
 											},
 										},
@@ -11490,23 +11490,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2484, col: 5, offset: 79883},
+										pos: position{line: 2484, col: 5, offset: 79915},
 										run: (*parser).callonAttributeDeclarationValueElement28,
 										expr: &seqExpr{
-											pos: position{line: 2484, col: 5, offset: 79883},
+											pos: position{line: 2484, col: 5, offset: 79915},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2484, col: 5, offset: 79883},
+													pos: position{line: 2484, col: 5, offset: 79915},
 													run: (*parser).callonAttributeDeclarationValueElement30,
 												},
 												&labeledExpr{
-													pos:   position{line: 2487, col: 5, offset: 79959},
+													pos:   position{line: 2487, col: 5, offset: 79991},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2488, col: 9, offset: 79977},
+														pos: position{line: 2488, col: 9, offset: 80009},
 														run: (*parser).callonAttributeDeclarationValueElement32,
 														expr: &charClassMatcher{
-															pos:        position{line: 2488, col: 10, offset: 79978},
+															pos:        position{line: 2488, col: 10, offset: 80010},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11518,10 +11518,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2896, col: 10, offset: 91577},
+										pos: position{line: 2905, col: 10, offset: 91835},
 										run: (*parser).callonAttributeDeclarationValueElement34,
 										expr: &charClassMatcher{
-											pos:        position{line: 2896, col: 10, offset: 91577},
+											pos:        position{line: 2905, col: 10, offset: 91835},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -11529,35 +11529,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 646, col: 5, offset: 20455},
+										pos: position{line: 646, col: 5, offset: 20487},
 										run: (*parser).callonAttributeDeclarationValueElement36,
 										expr: &seqExpr{
-											pos: position{line: 646, col: 5, offset: 20455},
+											pos: position{line: 646, col: 5, offset: 20487},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 646, col: 5, offset: 20455},
+													pos: position{line: 646, col: 5, offset: 20487},
 													run: (*parser).callonAttributeDeclarationValueElement38,
 												},
 												&labeledExpr{
-													pos:   position{line: 649, col: 5, offset: 20527},
+													pos:   position{line: 649, col: 5, offset: 20559},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 649, col: 14, offset: 20536},
+														pos: position{line: 649, col: 14, offset: 20568},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 655, col: 5, offset: 20665},
+																pos: position{line: 655, col: 5, offset: 20697},
 																run: (*parser).callonAttributeDeclarationValueElement41,
 																expr: &seqExpr{
-																	pos: position{line: 655, col: 5, offset: 20665},
+																	pos: position{line: 655, col: 5, offset: 20697},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 655, col: 5, offset: 20665},
+																			pos:        position{line: 655, col: 5, offset: 20697},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 655, col: 13, offset: 20673},
+																			pos:   position{line: 655, col: 13, offset: 20705},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -11589,7 +11589,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 655, col: 32, offset: 20692},
+																			pos:        position{line: 655, col: 32, offset: 20724},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11598,19 +11598,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 5, offset: 20933},
+																pos: position{line: 662, col: 5, offset: 20965},
 																run: (*parser).callonAttributeDeclarationValueElement51,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 5, offset: 20933},
+																	pos: position{line: 662, col: 5, offset: 20965},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 5, offset: 20933},
+																			pos:        position{line: 662, col: 5, offset: 20965},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 9, offset: 20937},
+																			pos:   position{line: 662, col: 9, offset: 20969},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -11642,7 +11642,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 28, offset: 20956},
+																			pos:        position{line: 662, col: 28, offset: 20988},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11651,19 +11651,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 668, col: 25, offset: 21137},
+																pos: position{line: 668, col: 25, offset: 21169},
 																run: (*parser).callonAttributeDeclarationValueElement61,
 																expr: &seqExpr{
-																	pos: position{line: 668, col: 25, offset: 21137},
+																	pos: position{line: 668, col: 25, offset: 21169},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 668, col: 25, offset: 21137},
+																			pos:        position{line: 668, col: 25, offset: 21169},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 668, col: 37, offset: 21149},
+																			pos:   position{line: 668, col: 37, offset: 21181},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -11695,33 +11695,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 668, col: 56, offset: 21168},
+																			pos:   position{line: 668, col: 56, offset: 21200},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 668, col: 62, offset: 21174},
+																				pos: position{line: 668, col: 62, offset: 21206},
 																				expr: &actionExpr{
-																					pos: position{line: 676, col: 17, offset: 21469},
+																					pos: position{line: 676, col: 17, offset: 21501},
 																					run: (*parser).callonAttributeDeclarationValueElement72,
 																					expr: &seqExpr{
-																						pos: position{line: 676, col: 17, offset: 21469},
+																						pos: position{line: 676, col: 17, offset: 21501},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 676, col: 17, offset: 21469},
+																								pos:        position{line: 676, col: 17, offset: 21501},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 676, col: 21, offset: 21473},
+																								pos:   position{line: 676, col: 21, offset: 21505},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 676, col: 28, offset: 21480},
+																									pos: position{line: 676, col: 28, offset: 21512},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 676, col: 28, offset: 21480},
+																											pos: position{line: 676, col: 28, offset: 21512},
 																											run: (*parser).callonAttributeDeclarationValueElement77,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 676, col: 28, offset: 21480},
+																												pos:        position{line: 676, col: 28, offset: 21512},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11729,12 +11729,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 678, col: 9, offset: 21534},
+																											pos: position{line: 678, col: 9, offset: 21566},
 																											run: (*parser).callonAttributeDeclarationValueElement79,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 678, col: 9, offset: 21534},
+																												pos: position{line: 678, col: 9, offset: 21566},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 678, col: 9, offset: 21534},
+																													pos:        position{line: 678, col: 9, offset: 21566},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11751,7 +11751,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 668, col: 78, offset: 21190},
+																			pos:        position{line: 668, col: 78, offset: 21222},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11760,19 +11760,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 672, col: 25, offset: 21308},
+																pos: position{line: 672, col: 25, offset: 21340},
 																run: (*parser).callonAttributeDeclarationValueElement83,
 																expr: &seqExpr{
-																	pos: position{line: 672, col: 25, offset: 21308},
+																	pos: position{line: 672, col: 25, offset: 21340},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 672, col: 25, offset: 21308},
+																			pos:        position{line: 672, col: 25, offset: 21340},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 672, col: 38, offset: 21321},
+																			pos:   position{line: 672, col: 38, offset: 21353},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -11804,33 +11804,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 672, col: 57, offset: 21340},
+																			pos:   position{line: 672, col: 57, offset: 21372},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 672, col: 63, offset: 21346},
+																				pos: position{line: 672, col: 63, offset: 21378},
 																				expr: &actionExpr{
-																					pos: position{line: 676, col: 17, offset: 21469},
+																					pos: position{line: 676, col: 17, offset: 21501},
 																					run: (*parser).callonAttributeDeclarationValueElement94,
 																					expr: &seqExpr{
-																						pos: position{line: 676, col: 17, offset: 21469},
+																						pos: position{line: 676, col: 17, offset: 21501},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 676, col: 17, offset: 21469},
+																								pos:        position{line: 676, col: 17, offset: 21501},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 676, col: 21, offset: 21473},
+																								pos:   position{line: 676, col: 21, offset: 21505},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 676, col: 28, offset: 21480},
+																									pos: position{line: 676, col: 28, offset: 21512},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 676, col: 28, offset: 21480},
+																											pos: position{line: 676, col: 28, offset: 21512},
 																											run: (*parser).callonAttributeDeclarationValueElement99,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 676, col: 28, offset: 21480},
+																												pos:        position{line: 676, col: 28, offset: 21512},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -11838,12 +11838,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 678, col: 9, offset: 21534},
+																											pos: position{line: 678, col: 9, offset: 21566},
 																											run: (*parser).callonAttributeDeclarationValueElement101,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 678, col: 9, offset: 21534},
+																												pos: position{line: 678, col: 9, offset: 21566},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 678, col: 9, offset: 21534},
+																													pos:        position{line: 678, col: 9, offset: 21566},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -11860,7 +11860,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 672, col: 79, offset: 21362},
+																			pos:        position{line: 672, col: 79, offset: 21394},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -11961,27 +11961,27 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1224, col: 23, offset: 37828},
+																						pos: position{line: 1224, col: 23, offset: 37860},
 																						run: (*parser).callonBlockAttributes19,
 																						expr: &seqExpr{
-																							pos: position{line: 1224, col: 23, offset: 37828},
+																							pos: position{line: 1224, col: 23, offset: 37860},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1222, col: 32, offset: 37796},
+																									pos:        position{line: 1222, col: 32, offset: 37828},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1224, col: 51, offset: 37856},
+																									pos:   position{line: 1224, col: 51, offset: 37888},
 																									label: "ref",
 																									expr: &actionExpr{
-																										pos: position{line: 1224, col: 56, offset: 37861},
+																										pos: position{line: 1224, col: 56, offset: 37893},
 																										run: (*parser).callonBlockAttributes23,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1224, col: 56, offset: 37861},
+																											pos: position{line: 1224, col: 56, offset: 37893},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1224, col: 56, offset: 37861},
+																												pos:        position{line: 1224, col: 56, offset: 37893},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -11991,7 +11991,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1222, col: 32, offset: 37796},
+																									pos:        position{line: 1222, col: 32, offset: 37828},
 																									val:        "�",
 																									ignoreCase: false,
 																									want:       "\"�\"",
@@ -12000,35 +12000,35 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 646, col: 5, offset: 20455},
+																						pos: position{line: 646, col: 5, offset: 20487},
 																						run: (*parser).callonBlockAttributes27,
 																						expr: &seqExpr{
-																							pos: position{line: 646, col: 5, offset: 20455},
+																							pos: position{line: 646, col: 5, offset: 20487},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 646, col: 5, offset: 20455},
+																									pos: position{line: 646, col: 5, offset: 20487},
 																									run: (*parser).callonBlockAttributes29,
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 649, col: 5, offset: 20527},
+																									pos:   position{line: 649, col: 5, offset: 20559},
 																									label: "element",
 																									expr: &choiceExpr{
-																										pos: position{line: 649, col: 14, offset: 20536},
+																										pos: position{line: 649, col: 14, offset: 20568},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 655, col: 5, offset: 20665},
+																												pos: position{line: 655, col: 5, offset: 20697},
 																												run: (*parser).callonBlockAttributes32,
 																												expr: &seqExpr{
-																													pos: position{line: 655, col: 5, offset: 20665},
+																													pos: position{line: 655, col: 5, offset: 20697},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 655, col: 5, offset: 20665},
+																															pos:        position{line: 655, col: 5, offset: 20697},
 																															val:        "\\{",
 																															ignoreCase: false,
 																															want:       "\"\\\\{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 655, col: 13, offset: 20673},
+																															pos:   position{line: 655, col: 13, offset: 20705},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
@@ -12060,7 +12060,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 655, col: 32, offset: 20692},
+																															pos:        position{line: 655, col: 32, offset: 20724},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -12069,19 +12069,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 662, col: 5, offset: 20933},
+																												pos: position{line: 662, col: 5, offset: 20965},
 																												run: (*parser).callonBlockAttributes42,
 																												expr: &seqExpr{
-																													pos: position{line: 662, col: 5, offset: 20933},
+																													pos: position{line: 662, col: 5, offset: 20965},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 662, col: 5, offset: 20933},
+																															pos:        position{line: 662, col: 5, offset: 20965},
 																															val:        "{",
 																															ignoreCase: false,
 																															want:       "\"{\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 662, col: 9, offset: 20937},
+																															pos:   position{line: 662, col: 9, offset: 20969},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
@@ -12113,7 +12113,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 662, col: 28, offset: 20956},
+																															pos:        position{line: 662, col: 28, offset: 20988},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -12122,19 +12122,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 668, col: 25, offset: 21137},
+																												pos: position{line: 668, col: 25, offset: 21169},
 																												run: (*parser).callonBlockAttributes52,
 																												expr: &seqExpr{
-																													pos: position{line: 668, col: 25, offset: 21137},
+																													pos: position{line: 668, col: 25, offset: 21169},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 668, col: 25, offset: 21137},
+																															pos:        position{line: 668, col: 25, offset: 21169},
 																															val:        "{counter:",
 																															ignoreCase: false,
 																															want:       "\"{counter:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 668, col: 37, offset: 21149},
+																															pos:   position{line: 668, col: 37, offset: 21181},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
@@ -12166,33 +12166,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 668, col: 56, offset: 21168},
+																															pos:   position{line: 668, col: 56, offset: 21200},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 668, col: 62, offset: 21174},
+																																pos: position{line: 668, col: 62, offset: 21206},
 																																expr: &actionExpr{
-																																	pos: position{line: 676, col: 17, offset: 21469},
+																																	pos: position{line: 676, col: 17, offset: 21501},
 																																	run: (*parser).callonBlockAttributes63,
 																																	expr: &seqExpr{
-																																		pos: position{line: 676, col: 17, offset: 21469},
+																																		pos: position{line: 676, col: 17, offset: 21501},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 676, col: 17, offset: 21469},
+																																				pos:        position{line: 676, col: 17, offset: 21501},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 676, col: 21, offset: 21473},
+																																				pos:   position{line: 676, col: 21, offset: 21505},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 676, col: 28, offset: 21480},
+																																					pos: position{line: 676, col: 28, offset: 21512},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 676, col: 28, offset: 21480},
+																																							pos: position{line: 676, col: 28, offset: 21512},
 																																							run: (*parser).callonBlockAttributes68,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 676, col: 28, offset: 21480},
+																																								pos:        position{line: 676, col: 28, offset: 21512},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -12200,12 +12200,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 678, col: 9, offset: 21534},
+																																							pos: position{line: 678, col: 9, offset: 21566},
 																																							run: (*parser).callonBlockAttributes70,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 678, col: 9, offset: 21534},
+																																								pos: position{line: 678, col: 9, offset: 21566},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 678, col: 9, offset: 21534},
+																																									pos:        position{line: 678, col: 9, offset: 21566},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -12222,7 +12222,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 668, col: 78, offset: 21190},
+																															pos:        position{line: 668, col: 78, offset: 21222},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -12231,19 +12231,19 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 672, col: 25, offset: 21308},
+																												pos: position{line: 672, col: 25, offset: 21340},
 																												run: (*parser).callonBlockAttributes74,
 																												expr: &seqExpr{
-																													pos: position{line: 672, col: 25, offset: 21308},
+																													pos: position{line: 672, col: 25, offset: 21340},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 672, col: 25, offset: 21308},
+																															pos:        position{line: 672, col: 25, offset: 21340},
 																															val:        "{counter2:",
 																															ignoreCase: false,
 																															want:       "\"{counter2:\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 672, col: 38, offset: 21321},
+																															pos:   position{line: 672, col: 38, offset: 21353},
 																															label: "name",
 																															expr: &actionExpr{
 																																pos: position{line: 318, col: 18, offset: 9736},
@@ -12275,33 +12275,33 @@ var g = &grammar{
 																															},
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 672, col: 57, offset: 21340},
+																															pos:   position{line: 672, col: 57, offset: 21372},
 																															label: "start",
 																															expr: &zeroOrOneExpr{
-																																pos: position{line: 672, col: 63, offset: 21346},
+																																pos: position{line: 672, col: 63, offset: 21378},
 																																expr: &actionExpr{
-																																	pos: position{line: 676, col: 17, offset: 21469},
+																																	pos: position{line: 676, col: 17, offset: 21501},
 																																	run: (*parser).callonBlockAttributes85,
 																																	expr: &seqExpr{
-																																		pos: position{line: 676, col: 17, offset: 21469},
+																																		pos: position{line: 676, col: 17, offset: 21501},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 676, col: 17, offset: 21469},
+																																				pos:        position{line: 676, col: 17, offset: 21501},
 																																				val:        ":",
 																																				ignoreCase: false,
 																																				want:       "\":\"",
 																																			},
 																																			&labeledExpr{
-																																				pos:   position{line: 676, col: 21, offset: 21473},
+																																				pos:   position{line: 676, col: 21, offset: 21505},
 																																				label: "start",
 																																				expr: &choiceExpr{
-																																					pos: position{line: 676, col: 28, offset: 21480},
+																																					pos: position{line: 676, col: 28, offset: 21512},
 																																					alternatives: []interface{}{
 																																						&actionExpr{
-																																							pos: position{line: 676, col: 28, offset: 21480},
+																																							pos: position{line: 676, col: 28, offset: 21512},
 																																							run: (*parser).callonBlockAttributes90,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 676, col: 28, offset: 21480},
+																																								pos:        position{line: 676, col: 28, offset: 21512},
 																																								val:        "[A-Za-z]",
 																																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																								ignoreCase: false,
@@ -12309,12 +12309,12 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&actionExpr{
-																																							pos: position{line: 678, col: 9, offset: 21534},
+																																							pos: position{line: 678, col: 9, offset: 21566},
 																																							run: (*parser).callonBlockAttributes92,
 																																							expr: &oneOrMoreExpr{
-																																								pos: position{line: 678, col: 9, offset: 21534},
+																																								pos: position{line: 678, col: 9, offset: 21566},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 678, col: 9, offset: 21534},
+																																									pos:        position{line: 678, col: 9, offset: 21566},
 																																									val:        "[0-9]",
 																																									ranges:     []rune{'0', '9'},
 																																									ignoreCase: false,
@@ -12331,7 +12331,7 @@ var g = &grammar{
 																															},
 																														},
 																														&litMatcher{
-																															pos:        position{line: 672, col: 79, offset: 21362},
+																															pos:        position{line: 672, col: 79, offset: 21394},
 																															val:        "}",
 																															ignoreCase: false,
 																															want:       "\"}\"",
@@ -12374,10 +12374,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 379, col: 35, offset: 11730},
 												expr: &actionExpr{
-													pos: position{line: 2896, col: 10, offset: 91577},
+													pos: position{line: 2905, col: 10, offset: 91835},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2896, col: 10, offset: 91577},
+														pos:        position{line: 2905, col: 10, offset: 91835},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12386,28 +12386,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2918, col: 8, offset: 91975},
+												pos: position{line: 2927, col: 8, offset: 92233},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2905, col: 12, offset: 91748},
+														pos: position{line: 2914, col: 12, offset: 92006},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2905, col: 13, offset: 91749},
+															pos: position{line: 2914, col: 13, offset: 92007},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2905, col: 13, offset: 91749},
+																	pos:        position{line: 2914, col: 13, offset: 92007},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2905, col: 20, offset: 91756},
+																	pos:        position{line: 2914, col: 20, offset: 92014},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2905, col: 29, offset: 91765},
+																	pos:        position{line: 2914, col: 29, offset: 92023},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12416,9 +12416,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2915, col: 8, offset: 91925},
+														pos: position{line: 2924, col: 8, offset: 92183},
 														expr: &anyMatcher{
-															line: 2915, col: 9, offset: 91926,
+															line: 2924, col: 9, offset: 92184,
 														},
 													},
 												},
@@ -12426,24 +12426,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 379, col: 46, offset: 11741},
 												expr: &actionExpr{
-													pos: position{line: 687, col: 14, offset: 21835},
+													pos: position{line: 687, col: 14, offset: 21867},
 													run: (*parser).callonBlockAttributes111,
 													expr: &seqExpr{
-														pos: position{line: 687, col: 14, offset: 21835},
+														pos: position{line: 687, col: 14, offset: 21867},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2913, col: 11, offset: 91911},
+																pos: position{line: 2922, col: 11, offset: 92169},
 																expr: &anyMatcher{
-																	line: 2913, col: 13, offset: 91913,
+																	line: 2922, col: 13, offset: 92171,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 687, col: 21, offset: 21842},
+																pos: position{line: 687, col: 21, offset: 21874},
 																expr: &actionExpr{
-																	pos: position{line: 2896, col: 10, offset: 91577},
+																	pos: position{line: 2905, col: 10, offset: 91835},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2896, col: 10, offset: 91577},
+																		pos:        position{line: 2905, col: 10, offset: 91835},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12452,28 +12452,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2918, col: 8, offset: 91975},
+																pos: position{line: 2927, col: 8, offset: 92233},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2905, col: 12, offset: 91748},
+																		pos: position{line: 2914, col: 12, offset: 92006},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2905, col: 13, offset: 91749},
+																			pos: position{line: 2914, col: 13, offset: 92007},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2905, col: 13, offset: 91749},
+																					pos:        position{line: 2914, col: 13, offset: 92007},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2905, col: 20, offset: 91756},
+																					pos:        position{line: 2914, col: 20, offset: 92014},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2905, col: 29, offset: 91765},
+																					pos:        position{line: 2914, col: 29, offset: 92023},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12482,9 +12482,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2915, col: 8, offset: 91925},
+																		pos: position{line: 2924, col: 8, offset: 92183},
 																		expr: &anyMatcher{
-																			line: 2915, col: 9, offset: 91926,
+																			line: 2924, col: 9, offset: 92184,
 																		},
 																	},
 																},
@@ -12536,12 +12536,12 @@ var g = &grammar{
 																		pos: position{line: 433, col: 9, offset: 13306},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2790, col: 14, offset: 88746},
+																				pos: position{line: 2799, col: 14, offset: 89004},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2790, col: 14, offset: 88746},
+																					pos: position{line: 2799, col: 14, offset: 89004},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2790, col: 14, offset: 88746},
+																						pos:        position{line: 2799, col: 14, offset: 89004},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12550,10 +12550,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2896, col: 10, offset: 91577},
+																				pos: position{line: 2905, col: 10, offset: 91835},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2896, col: 10, offset: 91577},
+																					pos:        position{line: 2905, col: 10, offset: 91835},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12561,27 +12561,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2813, col: 5, offset: 89231},
+																				pos: position{line: 2822, col: 5, offset: 89489},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2814, col: 9, offset: 89241},
+																					pos: position{line: 2823, col: 9, offset: 89499},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2814, col: 10, offset: 89242},
+																							pos:        position{line: 2823, col: 10, offset: 89500},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2816, col: 13, offset: 89339},
+																							pos: position{line: 2825, col: 13, offset: 89597},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2816, col: 13, offset: 89339},
+																									pos: position{line: 2825, col: 13, offset: 89597},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2819, col: 13, offset: 89439},
+																									pos:        position{line: 2828, col: 13, offset: 89697},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12589,20 +12589,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2819, col: 19, offset: 89445},
+																							pos:        position{line: 2828, col: 19, offset: 89703},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2822, col: 13, offset: 89483},
+																							pos: position{line: 2831, col: 13, offset: 89741},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2822, col: 13, offset: 89483},
+																									pos: position{line: 2831, col: 13, offset: 89741},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2825, col: 14, offset: 89576},
+																									pos:        position{line: 2834, col: 14, offset: 89834},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12611,18 +12611,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2827, col: 12, offset: 89620},
+																							pos: position{line: 2836, col: 12, offset: 89878},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2827, col: 12, offset: 89620},
+																									pos:        position{line: 2836, col: 12, offset: 89878},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2827, col: 16, offset: 89624},
+																									pos: position{line: 2836, col: 16, offset: 89882},
 																									expr: &litMatcher{
-																										pos:        position{line: 2827, col: 17, offset: 89625},
+																										pos:        position{line: 2836, col: 17, offset: 89883},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12634,19 +12634,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 655, col: 5, offset: 20665},
+																				pos: position{line: 655, col: 5, offset: 20697},
 																				run: (*parser).callonBlockAttributes156,
 																				expr: &seqExpr{
-																					pos: position{line: 655, col: 5, offset: 20665},
+																					pos: position{line: 655, col: 5, offset: 20697},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 655, col: 5, offset: 20665},
+																							pos:        position{line: 655, col: 5, offset: 20697},
 																							val:        "\\{",
 																							ignoreCase: false,
 																							want:       "\"\\\\{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 655, col: 13, offset: 20673},
+																							pos:   position{line: 655, col: 13, offset: 20705},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -12678,7 +12678,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 655, col: 32, offset: 20692},
+																							pos:        position{line: 655, col: 32, offset: 20724},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12687,19 +12687,19 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 662, col: 5, offset: 20933},
+																				pos: position{line: 662, col: 5, offset: 20965},
 																				run: (*parser).callonBlockAttributes166,
 																				expr: &seqExpr{
-																					pos: position{line: 662, col: 5, offset: 20933},
+																					pos: position{line: 662, col: 5, offset: 20965},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 662, col: 5, offset: 20933},
+																							pos:        position{line: 662, col: 5, offset: 20965},
 																							val:        "{",
 																							ignoreCase: false,
 																							want:       "\"{\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 662, col: 9, offset: 20937},
+																							pos:   position{line: 662, col: 9, offset: 20969},
 																							label: "name",
 																							expr: &actionExpr{
 																								pos: position{line: 318, col: 18, offset: 9736},
@@ -12731,7 +12731,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 662, col: 28, offset: 20956},
+																							pos:        position{line: 662, col: 28, offset: 20988},
 																							val:        "}",
 																							ignoreCase: false,
 																							want:       "\"}\"",
@@ -12740,10 +12740,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2835, col: 12, offset: 89885},
+																				pos: position{line: 2844, col: 12, offset: 90143},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2835, col: 12, offset: 89885},
+																					pos:        position{line: 2844, col: 12, offset: 90143},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12761,10 +12761,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 383, col: 35, offset: 11885},
 												expr: &actionExpr{
-													pos: position{line: 2896, col: 10, offset: 91577},
+													pos: position{line: 2905, col: 10, offset: 91835},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2896, col: 10, offset: 91577},
+														pos:        position{line: 2905, col: 10, offset: 91835},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12773,28 +12773,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2918, col: 8, offset: 91975},
+												pos: position{line: 2927, col: 8, offset: 92233},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2905, col: 12, offset: 91748},
+														pos: position{line: 2914, col: 12, offset: 92006},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2905, col: 13, offset: 91749},
+															pos: position{line: 2914, col: 13, offset: 92007},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2905, col: 13, offset: 91749},
+																	pos:        position{line: 2914, col: 13, offset: 92007},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2905, col: 20, offset: 91756},
+																	pos:        position{line: 2914, col: 20, offset: 92014},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2905, col: 29, offset: 91765},
+																	pos:        position{line: 2914, col: 29, offset: 92023},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12803,9 +12803,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2915, col: 8, offset: 91925},
+														pos: position{line: 2924, col: 8, offset: 92183},
 														expr: &anyMatcher{
-															line: 2915, col: 9, offset: 91926,
+															line: 2924, col: 9, offset: 92184,
 														},
 													},
 												},
@@ -12813,24 +12813,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 383, col: 46, offset: 11896},
 												expr: &actionExpr{
-													pos: position{line: 687, col: 14, offset: 21835},
+													pos: position{line: 687, col: 14, offset: 21867},
 													run: (*parser).callonBlockAttributes190,
 													expr: &seqExpr{
-														pos: position{line: 687, col: 14, offset: 21835},
+														pos: position{line: 687, col: 14, offset: 21867},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2913, col: 11, offset: 91911},
+																pos: position{line: 2922, col: 11, offset: 92169},
 																expr: &anyMatcher{
-																	line: 2913, col: 13, offset: 91913,
+																	line: 2922, col: 13, offset: 92171,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 687, col: 21, offset: 21842},
+																pos: position{line: 687, col: 21, offset: 21874},
 																expr: &actionExpr{
-																	pos: position{line: 2896, col: 10, offset: 91577},
+																	pos: position{line: 2905, col: 10, offset: 91835},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2896, col: 10, offset: 91577},
+																		pos:        position{line: 2905, col: 10, offset: 91835},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12839,28 +12839,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2918, col: 8, offset: 91975},
+																pos: position{line: 2927, col: 8, offset: 92233},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2905, col: 12, offset: 91748},
+																		pos: position{line: 2914, col: 12, offset: 92006},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2905, col: 13, offset: 91749},
+																			pos: position{line: 2914, col: 13, offset: 92007},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2905, col: 13, offset: 91749},
+																					pos:        position{line: 2914, col: 13, offset: 92007},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2905, col: 20, offset: 91756},
+																					pos:        position{line: 2914, col: 20, offset: 92014},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2905, col: 29, offset: 91765},
+																					pos:        position{line: 2914, col: 29, offset: 92023},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12869,9 +12869,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2915, col: 8, offset: 91925},
+																		pos: position{line: 2924, col: 8, offset: 92183},
 																		expr: &anyMatcher{
-																			line: 2915, col: 9, offset: 91926,
+																			line: 2924, col: 9, offset: 92184,
 																		},
 																	},
 																},
@@ -12900,10 +12900,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 387, col: 44, offset: 12018},
 												expr: &actionExpr{
-													pos: position{line: 2896, col: 10, offset: 91577},
+													pos: position{line: 2905, col: 10, offset: 91835},
 													run: (*parser).callonBlockAttributes210,
 													expr: &charClassMatcher{
-														pos:        position{line: 2896, col: 10, offset: 91577},
+														pos:        position{line: 2905, col: 10, offset: 91835},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12912,28 +12912,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2918, col: 8, offset: 91975},
+												pos: position{line: 2927, col: 8, offset: 92233},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2905, col: 12, offset: 91748},
+														pos: position{line: 2914, col: 12, offset: 92006},
 														run: (*parser).callonBlockAttributes213,
 														expr: &choiceExpr{
-															pos: position{line: 2905, col: 13, offset: 91749},
+															pos: position{line: 2914, col: 13, offset: 92007},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2905, col: 13, offset: 91749},
+																	pos:        position{line: 2914, col: 13, offset: 92007},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2905, col: 20, offset: 91756},
+																	pos:        position{line: 2914, col: 20, offset: 92014},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2905, col: 29, offset: 91765},
+																	pos:        position{line: 2914, col: 29, offset: 92023},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12942,9 +12942,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2915, col: 8, offset: 91925},
+														pos: position{line: 2924, col: 8, offset: 92183},
 														expr: &anyMatcher{
-															line: 2915, col: 9, offset: 91926,
+															line: 2924, col: 9, offset: 92184,
 														},
 													},
 												},
@@ -12952,24 +12952,24 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 387, col: 55, offset: 12029},
 												expr: &actionExpr{
-													pos: position{line: 687, col: 14, offset: 21835},
+													pos: position{line: 687, col: 14, offset: 21867},
 													run: (*parser).callonBlockAttributes221,
 													expr: &seqExpr{
-														pos: position{line: 687, col: 14, offset: 21835},
+														pos: position{line: 687, col: 14, offset: 21867},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2913, col: 11, offset: 91911},
+																pos: position{line: 2922, col: 11, offset: 92169},
 																expr: &anyMatcher{
-																	line: 2913, col: 13, offset: 91913,
+																	line: 2922, col: 13, offset: 92171,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 687, col: 21, offset: 21842},
+																pos: position{line: 687, col: 21, offset: 21874},
 																expr: &actionExpr{
-																	pos: position{line: 2896, col: 10, offset: 91577},
+																	pos: position{line: 2905, col: 10, offset: 91835},
 																	run: (*parser).callonBlockAttributes226,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2896, col: 10, offset: 91577},
+																		pos:        position{line: 2905, col: 10, offset: 91835},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12978,28 +12978,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2918, col: 8, offset: 91975},
+																pos: position{line: 2927, col: 8, offset: 92233},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2905, col: 12, offset: 91748},
+																		pos: position{line: 2914, col: 12, offset: 92006},
 																		run: (*parser).callonBlockAttributes229,
 																		expr: &choiceExpr{
-																			pos: position{line: 2905, col: 13, offset: 91749},
+																			pos: position{line: 2914, col: 13, offset: 92007},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2905, col: 13, offset: 91749},
+																					pos:        position{line: 2914, col: 13, offset: 92007},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2905, col: 20, offset: 91756},
+																					pos:        position{line: 2914, col: 20, offset: 92014},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2905, col: 29, offset: 91765},
+																					pos:        position{line: 2914, col: 29, offset: 92023},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -13008,9 +13008,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2915, col: 8, offset: 91925},
+																		pos: position{line: 2924, col: 8, offset: 92183},
 																		expr: &anyMatcher{
-																			line: 2915, col: 9, offset: 91926,
+																			line: 2924, col: 9, offset: 92184,
 																		},
 																	},
 																},
@@ -13258,10 +13258,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 473, col: 13, offset: 14774},
 										expr: &actionExpr{
-											pos: position{line: 2896, col: 10, offset: 91577},
+											pos: position{line: 2905, col: 10, offset: 91835},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2896, col: 10, offset: 91577},
+												pos:        position{line: 2905, col: 10, offset: 91835},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13407,15 +13407,15 @@ var g = &grammar{
 											alternatives: []interface{}{
 												&ruleRefExpr{
 													pos:  position{line: 515, col: 9, offset: 16070},
-													name: "QuotationMark",
+													name: "QuotationMarkReplacement",
 												},
 												&actionExpr{
-													pos: position{line: 516, col: 12, offset: 16096},
+													pos: position{line: 516, col: 12, offset: 16106},
 													run: (*parser).callonShortHandAttributeValue10,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 516, col: 12, offset: 16096},
+														pos: position{line: 516, col: 12, offset: 16106},
 														expr: &charClassMatcher{
-															pos:        position{line: 516, col: 12, offset: 16096},
+															pos:        position{line: 516, col: 12, offset: 16106},
 															val:        "[^,=.%# \\r\\n�{]]",
 															chars:      []rune{',', '=', '.', '%', '#', ' ', '\r', '\n', '�', '{', ']'},
 															ignoreCase: false,
@@ -13424,35 +13424,35 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 646, col: 5, offset: 20455},
+													pos: position{line: 646, col: 5, offset: 20487},
 													run: (*parser).callonShortHandAttributeValue13,
 													expr: &seqExpr{
-														pos: position{line: 646, col: 5, offset: 20455},
+														pos: position{line: 646, col: 5, offset: 20487},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 646, col: 5, offset: 20455},
+																pos: position{line: 646, col: 5, offset: 20487},
 																run: (*parser).callonShortHandAttributeValue15,
 															},
 															&labeledExpr{
-																pos:   position{line: 649, col: 5, offset: 20527},
+																pos:   position{line: 649, col: 5, offset: 20559},
 																label: "element",
 																expr: &choiceExpr{
-																	pos: position{line: 649, col: 14, offset: 20536},
+																	pos: position{line: 649, col: 14, offset: 20568},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 655, col: 5, offset: 20665},
+																			pos: position{line: 655, col: 5, offset: 20697},
 																			run: (*parser).callonShortHandAttributeValue18,
 																			expr: &seqExpr{
-																				pos: position{line: 655, col: 5, offset: 20665},
+																				pos: position{line: 655, col: 5, offset: 20697},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 655, col: 5, offset: 20665},
+																						pos:        position{line: 655, col: 5, offset: 20697},
 																						val:        "\\{",
 																						ignoreCase: false,
 																						want:       "\"\\\\{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 655, col: 13, offset: 20673},
+																						pos:   position{line: 655, col: 13, offset: 20705},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -13484,7 +13484,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 655, col: 32, offset: 20692},
+																						pos:        position{line: 655, col: 32, offset: 20724},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13493,19 +13493,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 662, col: 5, offset: 20933},
+																			pos: position{line: 662, col: 5, offset: 20965},
 																			run: (*parser).callonShortHandAttributeValue28,
 																			expr: &seqExpr{
-																				pos: position{line: 662, col: 5, offset: 20933},
+																				pos: position{line: 662, col: 5, offset: 20965},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 662, col: 5, offset: 20933},
+																						pos:        position{line: 662, col: 5, offset: 20965},
 																						val:        "{",
 																						ignoreCase: false,
 																						want:       "\"{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 662, col: 9, offset: 20937},
+																						pos:   position{line: 662, col: 9, offset: 20969},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -13537,7 +13537,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 662, col: 28, offset: 20956},
+																						pos:        position{line: 662, col: 28, offset: 20988},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13546,19 +13546,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 668, col: 25, offset: 21137},
+																			pos: position{line: 668, col: 25, offset: 21169},
 																			run: (*parser).callonShortHandAttributeValue38,
 																			expr: &seqExpr{
-																				pos: position{line: 668, col: 25, offset: 21137},
+																				pos: position{line: 668, col: 25, offset: 21169},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 668, col: 25, offset: 21137},
+																						pos:        position{line: 668, col: 25, offset: 21169},
 																						val:        "{counter:",
 																						ignoreCase: false,
 																						want:       "\"{counter:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 668, col: 37, offset: 21149},
+																						pos:   position{line: 668, col: 37, offset: 21181},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -13590,33 +13590,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 668, col: 56, offset: 21168},
+																						pos:   position{line: 668, col: 56, offset: 21200},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 668, col: 62, offset: 21174},
+																							pos: position{line: 668, col: 62, offset: 21206},
 																							expr: &actionExpr{
-																								pos: position{line: 676, col: 17, offset: 21469},
+																								pos: position{line: 676, col: 17, offset: 21501},
 																								run: (*parser).callonShortHandAttributeValue49,
 																								expr: &seqExpr{
-																									pos: position{line: 676, col: 17, offset: 21469},
+																									pos: position{line: 676, col: 17, offset: 21501},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 676, col: 17, offset: 21469},
+																											pos:        position{line: 676, col: 17, offset: 21501},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 676, col: 21, offset: 21473},
+																											pos:   position{line: 676, col: 21, offset: 21505},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 676, col: 28, offset: 21480},
+																												pos: position{line: 676, col: 28, offset: 21512},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 676, col: 28, offset: 21480},
+																														pos: position{line: 676, col: 28, offset: 21512},
 																														run: (*parser).callonShortHandAttributeValue54,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 676, col: 28, offset: 21480},
+																															pos:        position{line: 676, col: 28, offset: 21512},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13624,12 +13624,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 678, col: 9, offset: 21534},
+																														pos: position{line: 678, col: 9, offset: 21566},
 																														run: (*parser).callonShortHandAttributeValue56,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 678, col: 9, offset: 21534},
+																															pos: position{line: 678, col: 9, offset: 21566},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 678, col: 9, offset: 21534},
+																																pos:        position{line: 678, col: 9, offset: 21566},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13646,7 +13646,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 668, col: 78, offset: 21190},
+																						pos:        position{line: 668, col: 78, offset: 21222},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13655,19 +13655,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 672, col: 25, offset: 21308},
+																			pos: position{line: 672, col: 25, offset: 21340},
 																			run: (*parser).callonShortHandAttributeValue60,
 																			expr: &seqExpr{
-																				pos: position{line: 672, col: 25, offset: 21308},
+																				pos: position{line: 672, col: 25, offset: 21340},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 672, col: 25, offset: 21308},
+																						pos:        position{line: 672, col: 25, offset: 21340},
 																						val:        "{counter2:",
 																						ignoreCase: false,
 																						want:       "\"{counter2:\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 672, col: 38, offset: 21321},
+																						pos:   position{line: 672, col: 38, offset: 21353},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -13699,33 +13699,33 @@ var g = &grammar{
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 672, col: 57, offset: 21340},
+																						pos:   position{line: 672, col: 57, offset: 21372},
 																						label: "start",
 																						expr: &zeroOrOneExpr{
-																							pos: position{line: 672, col: 63, offset: 21346},
+																							pos: position{line: 672, col: 63, offset: 21378},
 																							expr: &actionExpr{
-																								pos: position{line: 676, col: 17, offset: 21469},
+																								pos: position{line: 676, col: 17, offset: 21501},
 																								run: (*parser).callonShortHandAttributeValue71,
 																								expr: &seqExpr{
-																									pos: position{line: 676, col: 17, offset: 21469},
+																									pos: position{line: 676, col: 17, offset: 21501},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 676, col: 17, offset: 21469},
+																											pos:        position{line: 676, col: 17, offset: 21501},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 676, col: 21, offset: 21473},
+																											pos:   position{line: 676, col: 21, offset: 21505},
 																											label: "start",
 																											expr: &choiceExpr{
-																												pos: position{line: 676, col: 28, offset: 21480},
+																												pos: position{line: 676, col: 28, offset: 21512},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 676, col: 28, offset: 21480},
+																														pos: position{line: 676, col: 28, offset: 21512},
 																														run: (*parser).callonShortHandAttributeValue76,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 676, col: 28, offset: 21480},
+																															pos:        position{line: 676, col: 28, offset: 21512},
 																															val:        "[A-Za-z]",
 																															ranges:     []rune{'A', 'Z', 'a', 'z'},
 																															ignoreCase: false,
@@ -13733,12 +13733,12 @@ var g = &grammar{
 																														},
 																													},
 																													&actionExpr{
-																														pos: position{line: 678, col: 9, offset: 21534},
+																														pos: position{line: 678, col: 9, offset: 21566},
 																														run: (*parser).callonShortHandAttributeValue78,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 678, col: 9, offset: 21534},
+																															pos: position{line: 678, col: 9, offset: 21566},
 																															expr: &charClassMatcher{
-																																pos:        position{line: 678, col: 9, offset: 21534},
+																																pos:        position{line: 678, col: 9, offset: 21566},
 																																val:        "[0-9]",
 																																ranges:     []rune{'0', '9'},
 																																ignoreCase: false,
@@ -13755,7 +13755,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 672, col: 79, offset: 21362},
+																						pos:        position{line: 672, col: 79, offset: 21394},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -13770,10 +13770,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 521, col: 12, offset: 16264},
+													pos: position{line: 521, col: 12, offset: 16274},
 													run: (*parser).callonShortHandAttributeValue82,
 													expr: &litMatcher{
-														pos:        position{line: 521, col: 12, offset: 16264},
+														pos:        position{line: 521, col: 12, offset: 16274},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -13784,19 +13784,19 @@ var g = &grammar{
 									},
 								},
 								&andExpr{
-									pos: position{line: 525, col: 5, offset: 16352},
+									pos: position{line: 525, col: 5, offset: 16362},
 									expr: &notExpr{
-										pos: position{line: 525, col: 7, offset: 16354},
+										pos: position{line: 525, col: 7, offset: 16364},
 										expr: &seqExpr{
-											pos: position{line: 525, col: 9, offset: 16356},
+											pos: position{line: 525, col: 9, offset: 16366},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 525, col: 9, offset: 16356},
+													pos: position{line: 525, col: 9, offset: 16366},
 													expr: &actionExpr{
-														pos: position{line: 2896, col: 10, offset: 91577},
+														pos: position{line: 2905, col: 10, offset: 91835},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2896, col: 10, offset: 91577},
+															pos:        position{line: 2905, col: 10, offset: 91835},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13805,7 +13805,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 525, col: 16, offset: 16363},
+													pos:        position{line: 525, col: 16, offset: 16373},
 													val:        "=",
 													ignoreCase: false,
 													want:       "\"=\"",
@@ -13822,45 +13822,45 @@ var g = &grammar{
 		},
 		{
 			name: "PositionalAttribute",
-			pos:  position{line: 530, col: 1, offset: 16441},
+			pos:  position{line: 530, col: 1, offset: 16451},
 			expr: &choiceExpr{
-				pos: position{line: 530, col: 24, offset: 16464},
+				pos: position{line: 530, col: 24, offset: 16474},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 531, col: 5, offset: 16470},
+						pos: position{line: 531, col: 5, offset: 16480},
 						run: (*parser).callonPositionalAttribute2,
 						expr: &seqExpr{
-							pos: position{line: 531, col: 5, offset: 16470},
+							pos: position{line: 531, col: 5, offset: 16480},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 531, col: 5, offset: 16470},
+									pos:   position{line: 531, col: 5, offset: 16480},
 									label: "value",
 									expr: &ruleRefExpr{
-										pos:  position{line: 531, col: 12, offset: 16477},
+										pos:  position{line: 531, col: 12, offset: 16487},
 										name: "AttributeValue",
 									},
 								},
 								&choiceExpr{
-									pos: position{line: 531, col: 29, offset: 16494},
+									pos: position{line: 531, col: 29, offset: 16504},
 									alternatives: []interface{}{
 										&zeroOrOneExpr{
-											pos: position{line: 531, col: 29, offset: 16494},
+											pos: position{line: 531, col: 29, offset: 16504},
 											expr: &seqExpr{
-												pos: position{line: 531, col: 30, offset: 16495},
+												pos: position{line: 531, col: 30, offset: 16505},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 531, col: 30, offset: 16495},
+														pos:        position{line: 531, col: 30, offset: 16505},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 531, col: 34, offset: 16499},
+														pos: position{line: 531, col: 34, offset: 16509},
 														expr: &actionExpr{
-															pos: position{line: 2896, col: 10, offset: 91577},
+															pos: position{line: 2905, col: 10, offset: 91835},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2896, col: 10, offset: 91577},
+																pos:        position{line: 2905, col: 10, offset: 91835},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13872,9 +13872,9 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 531, col: 45, offset: 16510},
+											pos: position{line: 531, col: 45, offset: 16520},
 											expr: &litMatcher{
-												pos:        position{line: 531, col: 46, offset: 16511},
+												pos:        position{line: 531, col: 46, offset: 16521},
 												val:        "]",
 												ignoreCase: false,
 												want:       "\"]\"",
@@ -13886,24 +13886,24 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 536, col: 6, offset: 16656},
+						pos: position{line: 536, col: 6, offset: 16666},
 						run: (*parser).callonPositionalAttribute15,
 						expr: &seqExpr{
-							pos: position{line: 536, col: 6, offset: 16656},
+							pos: position{line: 536, col: 6, offset: 16666},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 536, col: 6, offset: 16656},
+									pos:   position{line: 536, col: 6, offset: 16666},
 									label: "value",
 									expr: &seqExpr{
-										pos: position{line: 536, col: 13, offset: 16663},
+										pos: position{line: 536, col: 13, offset: 16673},
 										exprs: []interface{}{
 											&zeroOrMoreExpr{
-												pos: position{line: 536, col: 13, offset: 16663},
+												pos: position{line: 536, col: 13, offset: 16673},
 												expr: &actionExpr{
-													pos: position{line: 2896, col: 10, offset: 91577},
+													pos: position{line: 2905, col: 10, offset: 91835},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2896, col: 10, offset: 91577},
+														pos:        position{line: 2905, col: 10, offset: 91835},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13912,24 +13912,24 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 536, col: 21, offset: 16671},
+												pos: position{line: 536, col: 21, offset: 16681},
 												alternatives: []interface{}{
 													&seqExpr{
-														pos: position{line: 536, col: 22, offset: 16672},
+														pos: position{line: 536, col: 22, offset: 16682},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 536, col: 22, offset: 16672},
+																pos:        position{line: 536, col: 22, offset: 16682},
 																val:        ",",
 																ignoreCase: false,
 																want:       "\",\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 536, col: 26, offset: 16676},
+																pos: position{line: 536, col: 26, offset: 16686},
 																expr: &actionExpr{
-																	pos: position{line: 2896, col: 10, offset: 91577},
+																	pos: position{line: 2905, col: 10, offset: 91835},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2896, col: 10, offset: 91577},
+																		pos:        position{line: 2905, col: 10, offset: 91835},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13940,9 +13940,9 @@ var g = &grammar{
 														},
 													},
 													&andExpr{
-														pos: position{line: 536, col: 36, offset: 16686},
+														pos: position{line: 536, col: 36, offset: 16696},
 														expr: &litMatcher{
-															pos:        position{line: 536, col: 37, offset: 16687},
+															pos:        position{line: 536, col: 37, offset: 16697},
 															val:        "]",
 															ignoreCase: false,
 															want:       "\"]\"",
@@ -13954,7 +13954,7 @@ var g = &grammar{
 									},
 								},
 								&andCodeExpr{
-									pos: position{line: 537, col: 5, offset: 16697},
+									pos: position{line: 537, col: 5, offset: 16707},
 									run: (*parser).callonPositionalAttribute30,
 								},
 							},
@@ -13965,29 +13965,29 @@ var g = &grammar{
 		},
 		{
 			name: "NamedAttribute",
-			pos:  position{line: 547, col: 1, offset: 17012},
+			pos:  position{line: 547, col: 1, offset: 17022},
 			expr: &actionExpr{
-				pos: position{line: 548, col: 5, offset: 17035},
+				pos: position{line: 548, col: 5, offset: 17045},
 				run: (*parser).callonNamedAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 548, col: 5, offset: 17035},
+					pos: position{line: 548, col: 5, offset: 17045},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 548, col: 5, offset: 17035},
+							pos:   position{line: 548, col: 5, offset: 17045},
 							label: "key",
 							expr: &actionExpr{
-								pos: position{line: 556, col: 22, offset: 17323},
+								pos: position{line: 556, col: 22, offset: 17333},
 								run: (*parser).callonNamedAttribute4,
 								expr: &seqExpr{
-									pos: position{line: 556, col: 22, offset: 17323},
+									pos: position{line: 556, col: 22, offset: 17333},
 									exprs: []interface{}{
 										&notExpr{
-											pos: position{line: 556, col: 22, offset: 17323},
+											pos: position{line: 556, col: 22, offset: 17333},
 											expr: &actionExpr{
-												pos: position{line: 2896, col: 10, offset: 91577},
+												pos: position{line: 2905, col: 10, offset: 91835},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2896, col: 10, offset: 91577},
+													pos:        position{line: 2905, col: 10, offset: 91835},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -13996,9 +13996,9 @@ var g = &grammar{
 											},
 										},
 										&oneOrMoreExpr{
-											pos: position{line: 556, col: 29, offset: 17330},
+											pos: position{line: 556, col: 29, offset: 17340},
 											expr: &charClassMatcher{
-												pos:        position{line: 556, col: 29, offset: 17330},
+												pos:        position{line: 556, col: 29, offset: 17340},
 												val:        "[^\\r\\n=,]]",
 												chars:      []rune{'\r', '\n', '=', ',', ']'},
 												ignoreCase: false,
@@ -14010,18 +14010,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 549, col: 5, offset: 17064},
+							pos:        position{line: 549, col: 5, offset: 17074},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 549, col: 9, offset: 17068},
+							pos: position{line: 549, col: 9, offset: 17078},
 							expr: &actionExpr{
-								pos: position{line: 2896, col: 10, offset: 91577},
+								pos: position{line: 2905, col: 10, offset: 91835},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2896, col: 10, offset: 91577},
+									pos:        position{line: 2905, col: 10, offset: 91835},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14030,31 +14030,31 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 550, col: 5, offset: 17080},
+							pos:   position{line: 550, col: 5, offset: 17090},
 							label: "value",
 							expr: &ruleRefExpr{
-								pos:  position{line: 550, col: 12, offset: 17087},
+								pos:  position{line: 550, col: 12, offset: 17097},
 								name: "AttributeValue",
 							},
 						},
 						&zeroOrOneExpr{
-							pos: position{line: 550, col: 28, offset: 17103},
+							pos: position{line: 550, col: 28, offset: 17113},
 							expr: &seqExpr{
-								pos: position{line: 550, col: 29, offset: 17104},
+								pos: position{line: 550, col: 29, offset: 17114},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 550, col: 29, offset: 17104},
+										pos:        position{line: 550, col: 29, offset: 17114},
 										val:        ",",
 										ignoreCase: false,
 										want:       "\",\"",
 									},
 									&zeroOrMoreExpr{
-										pos: position{line: 550, col: 33, offset: 17108},
+										pos: position{line: 550, col: 33, offset: 17118},
 										expr: &actionExpr{
-											pos: position{line: 2896, col: 10, offset: 91577},
+											pos: position{line: 2905, col: 10, offset: 91835},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2896, col: 10, offset: 91577},
+												pos:        position{line: 2905, col: 10, offset: 91835},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14071,48 +14071,48 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeValue",
-			pos:  position{line: 560, col: 1, offset: 17387},
+			pos:  position{line: 560, col: 1, offset: 17397},
 			expr: &actionExpr{
-				pos: position{line: 561, col: 5, offset: 17410},
+				pos: position{line: 561, col: 5, offset: 17420},
 				run: (*parser).callonAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 561, col: 5, offset: 17410},
+					pos: position{line: 561, col: 5, offset: 17420},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 561, col: 5, offset: 17410},
+							pos:   position{line: 561, col: 5, offset: 17420},
 							label: "value",
 							expr: &choiceExpr{
-								pos: position{line: 562, col: 9, offset: 17426},
+								pos: position{line: 562, col: 9, offset: 17436},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 562, col: 9, offset: 17426},
+										pos:  position{line: 562, col: 9, offset: 17436},
 										name: "SingleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 563, col: 11, offset: 17464},
+										pos:  position{line: 563, col: 11, offset: 17474},
 										name: "DoubleQuotedAttributeValue",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 564, col: 11, offset: 17502},
+										pos:  position{line: 564, col: 11, offset: 17512},
 										name: "UnquotedAttributeValue",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 566, col: 5, offset: 17536},
+							pos: position{line: 566, col: 5, offset: 17546},
 							expr: &notExpr{
-								pos: position{line: 566, col: 7, offset: 17538},
+								pos: position{line: 566, col: 7, offset: 17548},
 								expr: &seqExpr{
-									pos: position{line: 566, col: 9, offset: 17540},
+									pos: position{line: 566, col: 9, offset: 17550},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 566, col: 9, offset: 17540},
+											pos: position{line: 566, col: 9, offset: 17550},
 											expr: &actionExpr{
-												pos: position{line: 2896, col: 10, offset: 91577},
+												pos: position{line: 2905, col: 10, offset: 91835},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2896, col: 10, offset: 91577},
+													pos:        position{line: 2905, col: 10, offset: 91835},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14121,7 +14121,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 566, col: 16, offset: 17547},
+											pos:        position{line: 566, col: 16, offset: 17557},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14136,38 +14136,38 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValue",
-			pos:  position{line: 570, col: 1, offset: 17588},
+			pos:  position{line: 570, col: 1, offset: 17598},
 			expr: &actionExpr{
-				pos: position{line: 571, col: 5, offset: 17623},
+				pos: position{line: 571, col: 5, offset: 17633},
 				run: (*parser).callonSingleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 571, col: 5, offset: 17623},
+					pos: position{line: 571, col: 5, offset: 17633},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 571, col: 5, offset: 17623},
+							pos:        position{line: 571, col: 5, offset: 17633},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
 						},
 						&notExpr{
-							pos: position{line: 571, col: 9, offset: 17627},
+							pos: position{line: 571, col: 9, offset: 17637},
 							expr: &litMatcher{
-								pos:        position{line: 571, col: 10, offset: 17628},
+								pos:        position{line: 571, col: 10, offset: 17638},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 572, col: 5, offset: 17707},
+							pos:   position{line: 572, col: 5, offset: 17717},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 572, col: 14, offset: 17716},
+								pos:  position{line: 572, col: 14, offset: 17726},
 								name: "SingleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 573, col: 5, offset: 17755},
+							pos:        position{line: 573, col: 5, offset: 17765},
 							val:        "'",
 							ignoreCase: false,
 							want:       "\"'\"",
@@ -14178,25 +14178,25 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedAttributeValueContent",
-			pos:  position{line: 577, col: 1, offset: 17796},
+			pos:  position{line: 577, col: 1, offset: 17806},
 			expr: &actionExpr{
-				pos: position{line: 578, col: 5, offset: 17838},
+				pos: position{line: 578, col: 5, offset: 17848},
 				run: (*parser).callonSingleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 578, col: 5, offset: 17838},
+					pos:   position{line: 578, col: 5, offset: 17848},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 578, col: 14, offset: 17847},
+						pos: position{line: 578, col: 14, offset: 17857},
 						expr: &choiceExpr{
-							pos: position{line: 579, col: 9, offset: 17857},
+							pos: position{line: 579, col: 9, offset: 17867},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2790, col: 14, offset: 88746},
+									pos: position{line: 2799, col: 14, offset: 89004},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2790, col: 14, offset: 88746},
+										pos: position{line: 2799, col: 14, offset: 89004},
 										expr: &charClassMatcher{
-											pos:        position{line: 2790, col: 14, offset: 88746},
+											pos:        position{line: 2799, col: 14, offset: 89004},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14205,10 +14205,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2896, col: 10, offset: 91577},
+									pos: position{line: 2905, col: 10, offset: 91835},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2896, col: 10, offset: 91577},
+										pos:        position{line: 2905, col: 10, offset: 91835},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14216,39 +14216,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 581, col: 11, offset: 17893},
-									name: "QuotationMark",
+									pos:  position{line: 581, col: 11, offset: 17903},
+									name: "QuotationMarkReplacement",
 								},
 								&actionExpr{
-									pos: position{line: 646, col: 5, offset: 20455},
+									pos: position{line: 646, col: 5, offset: 20487},
 									run: (*parser).callonSingleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 646, col: 5, offset: 20455},
+										pos: position{line: 646, col: 5, offset: 20487},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 646, col: 5, offset: 20455},
+												pos: position{line: 646, col: 5, offset: 20487},
 												run: (*parser).callonSingleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 649, col: 5, offset: 20527},
+												pos:   position{line: 649, col: 5, offset: 20559},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 649, col: 14, offset: 20536},
+													pos: position{line: 649, col: 14, offset: 20568},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 655, col: 5, offset: 20665},
+															pos: position{line: 655, col: 5, offset: 20697},
 															run: (*parser).callonSingleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 655, col: 5, offset: 20665},
+																pos: position{line: 655, col: 5, offset: 20697},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 655, col: 5, offset: 20665},
+																		pos:        position{line: 655, col: 5, offset: 20697},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 655, col: 13, offset: 20673},
+																		pos:   position{line: 655, col: 13, offset: 20705},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14280,7 +14280,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 655, col: 32, offset: 20692},
+																		pos:        position{line: 655, col: 32, offset: 20724},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14289,19 +14289,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 662, col: 5, offset: 20933},
+															pos: position{line: 662, col: 5, offset: 20965},
 															run: (*parser).callonSingleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 662, col: 5, offset: 20933},
+																pos: position{line: 662, col: 5, offset: 20965},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 662, col: 5, offset: 20933},
+																		pos:        position{line: 662, col: 5, offset: 20965},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 9, offset: 20937},
+																		pos:   position{line: 662, col: 9, offset: 20969},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14333,7 +14333,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 662, col: 28, offset: 20956},
+																		pos:        position{line: 662, col: 28, offset: 20988},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14342,19 +14342,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 668, col: 25, offset: 21137},
+															pos: position{line: 668, col: 25, offset: 21169},
 															run: (*parser).callonSingleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 668, col: 25, offset: 21137},
+																pos: position{line: 668, col: 25, offset: 21169},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 668, col: 25, offset: 21137},
+																		pos:        position{line: 668, col: 25, offset: 21169},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 668, col: 37, offset: 21149},
+																		pos:   position{line: 668, col: 37, offset: 21181},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14386,33 +14386,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 668, col: 56, offset: 21168},
+																		pos:   position{line: 668, col: 56, offset: 21200},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 668, col: 62, offset: 21174},
+																			pos: position{line: 668, col: 62, offset: 21206},
 																			expr: &actionExpr{
-																				pos: position{line: 676, col: 17, offset: 21469},
+																				pos: position{line: 676, col: 17, offset: 21501},
 																				run: (*parser).callonSingleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 676, col: 17, offset: 21469},
+																					pos: position{line: 676, col: 17, offset: 21501},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 676, col: 17, offset: 21469},
+																							pos:        position{line: 676, col: 17, offset: 21501},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 676, col: 21, offset: 21473},
+																							pos:   position{line: 676, col: 21, offset: 21505},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 676, col: 28, offset: 21480},
+																								pos: position{line: 676, col: 28, offset: 21512},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 676, col: 28, offset: 21480},
+																										pos: position{line: 676, col: 28, offset: 21512},
 																										run: (*parser).callonSingleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 676, col: 28, offset: 21480},
+																											pos:        position{line: 676, col: 28, offset: 21512},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14420,12 +14420,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 678, col: 9, offset: 21534},
+																										pos: position{line: 678, col: 9, offset: 21566},
 																										run: (*parser).callonSingleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 678, col: 9, offset: 21534},
+																											pos: position{line: 678, col: 9, offset: 21566},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 678, col: 9, offset: 21534},
+																												pos:        position{line: 678, col: 9, offset: 21566},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14442,7 +14442,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 668, col: 78, offset: 21190},
+																		pos:        position{line: 668, col: 78, offset: 21222},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14451,19 +14451,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 672, col: 25, offset: 21308},
+															pos: position{line: 672, col: 25, offset: 21340},
 															run: (*parser).callonSingleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 672, col: 25, offset: 21308},
+																pos: position{line: 672, col: 25, offset: 21340},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 672, col: 25, offset: 21308},
+																		pos:        position{line: 672, col: 25, offset: 21340},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 672, col: 38, offset: 21321},
+																		pos:   position{line: 672, col: 38, offset: 21353},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14495,33 +14495,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 672, col: 57, offset: 21340},
+																		pos:   position{line: 672, col: 57, offset: 21372},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 672, col: 63, offset: 21346},
+																			pos: position{line: 672, col: 63, offset: 21378},
 																			expr: &actionExpr{
-																				pos: position{line: 676, col: 17, offset: 21469},
+																				pos: position{line: 676, col: 17, offset: 21501},
 																				run: (*parser).callonSingleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 676, col: 17, offset: 21469},
+																					pos: position{line: 676, col: 17, offset: 21501},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 676, col: 17, offset: 21469},
+																							pos:        position{line: 676, col: 17, offset: 21501},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 676, col: 21, offset: 21473},
+																							pos:   position{line: 676, col: 21, offset: 21505},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 676, col: 28, offset: 21480},
+																								pos: position{line: 676, col: 28, offset: 21512},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 676, col: 28, offset: 21480},
+																										pos: position{line: 676, col: 28, offset: 21512},
 																										run: (*parser).callonSingleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 676, col: 28, offset: 21480},
+																											pos:        position{line: 676, col: 28, offset: 21512},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14529,12 +14529,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 678, col: 9, offset: 21534},
+																										pos: position{line: 678, col: 9, offset: 21566},
 																										run: (*parser).callonSingleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 678, col: 9, offset: 21534},
+																											pos: position{line: 678, col: 9, offset: 21566},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 678, col: 9, offset: 21534},
+																												pos:        position{line: 678, col: 9, offset: 21566},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14551,7 +14551,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 672, col: 79, offset: 21362},
+																		pos:        position{line: 672, col: 79, offset: 21394},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14566,44 +14566,44 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 583, col: 12, offset: 17947},
+									pos: position{line: 583, col: 12, offset: 17968},
 									run: (*parser).callonSingleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 583, col: 12, offset: 17947},
+										pos:        position{line: 583, col: 12, offset: 17968},
 										val:        "\\'",
 										ignoreCase: false,
 										want:       "\"\\\\'\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 586, col: 13, offset: 18049},
+									pos:        position{line: 586, col: 13, offset: 18070},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 586, col: 20, offset: 18056},
+									pos:        position{line: 586, col: 20, offset: 18077},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&actionExpr{
-									pos: position{line: 586, col: 27, offset: 18063},
+									pos: position{line: 586, col: 27, offset: 18084},
 									run: (*parser).callonSingleQuotedAttributeValueContent84,
 									expr: &litMatcher{
-										pos:        position{line: 586, col: 27, offset: 18063},
+										pos:        position{line: 586, col: 27, offset: 18084},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 589, col: 12, offset: 18223},
+									pos: position{line: 589, col: 12, offset: 18244},
 									run: (*parser).callonSingleQuotedAttributeValueContent86,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 589, col: 12, offset: 18223},
+										pos: position{line: 589, col: 12, offset: 18244},
 										expr: &charClassMatcher{
-											pos:        position{line: 589, col: 12, offset: 18223},
+											pos:        position{line: 589, col: 12, offset: 18244},
 											val:        "[^\\r\\n\\\\\\ ]",
 											chars:      []rune{'\r', '\n', '\\', '\'', ' '},
 											ignoreCase: false,
@@ -14619,56 +14619,56 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValue",
-			pos:  position{line: 596, col: 1, offset: 18420},
+			pos:  position{line: 596, col: 1, offset: 18441},
 			expr: &actionExpr{
-				pos: position{line: 597, col: 5, offset: 18455},
+				pos: position{line: 597, col: 5, offset: 18476},
 				run: (*parser).callonDoubleQuotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 597, col: 5, offset: 18455},
+					pos: position{line: 597, col: 5, offset: 18476},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 597, col: 5, offset: 18455},
+							pos:        position{line: 597, col: 5, offset: 18476},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&notExpr{
-							pos: position{line: 597, col: 10, offset: 18460},
+							pos: position{line: 597, col: 10, offset: 18481},
 							expr: &litMatcher{
-								pos:        position{line: 597, col: 11, offset: 18461},
+								pos:        position{line: 597, col: 11, offset: 18482},
 								val:        "`",
 								ignoreCase: false,
 								want:       "\"`\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 598, col: 5, offset: 18540},
+							pos:   position{line: 598, col: 5, offset: 18561},
 							label: "content",
 							expr: &ruleRefExpr{
-								pos:  position{line: 598, col: 14, offset: 18549},
+								pos:  position{line: 598, col: 14, offset: 18570},
 								name: "DoubleQuotedAttributeValueContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 599, col: 5, offset: 18588},
+							pos:        position{line: 599, col: 5, offset: 18609},
 							val:        "\"",
 							ignoreCase: false,
 							want:       "\"\\\"\"",
 						},
 						&andExpr{
-							pos: position{line: 599, col: 10, offset: 18593},
+							pos: position{line: 599, col: 10, offset: 18614},
 							expr: &notExpr{
-								pos: position{line: 599, col: 12, offset: 18595},
+								pos: position{line: 599, col: 12, offset: 18616},
 								expr: &seqExpr{
-									pos: position{line: 599, col: 14, offset: 18597},
+									pos: position{line: 599, col: 14, offset: 18618},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 599, col: 14, offset: 18597},
+											pos: position{line: 599, col: 14, offset: 18618},
 											expr: &actionExpr{
-												pos: position{line: 2896, col: 10, offset: 91577},
+												pos: position{line: 2905, col: 10, offset: 91835},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2896, col: 10, offset: 91577},
+													pos:        position{line: 2905, col: 10, offset: 91835},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14677,7 +14677,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 599, col: 21, offset: 18604},
+											pos:        position{line: 599, col: 21, offset: 18625},
 											val:        "=",
 											ignoreCase: false,
 											want:       "\"=\"",
@@ -14692,25 +14692,25 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedAttributeValueContent",
-			pos:  position{line: 603, col: 1, offset: 18647},
+			pos:  position{line: 603, col: 1, offset: 18668},
 			expr: &actionExpr{
-				pos: position{line: 604, col: 5, offset: 18689},
+				pos: position{line: 604, col: 5, offset: 18710},
 				run: (*parser).callonDoubleQuotedAttributeValueContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 604, col: 5, offset: 18689},
+					pos:   position{line: 604, col: 5, offset: 18710},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 604, col: 14, offset: 18698},
+						pos: position{line: 604, col: 14, offset: 18719},
 						expr: &choiceExpr{
-							pos: position{line: 605, col: 9, offset: 18708},
+							pos: position{line: 605, col: 9, offset: 18729},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2790, col: 14, offset: 88746},
+									pos: position{line: 2799, col: 14, offset: 89004},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2790, col: 14, offset: 88746},
+										pos: position{line: 2799, col: 14, offset: 89004},
 										expr: &charClassMatcher{
-											pos:        position{line: 2790, col: 14, offset: 88746},
+											pos:        position{line: 2799, col: 14, offset: 89004},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14719,10 +14719,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2896, col: 10, offset: 91577},
+									pos: position{line: 2905, col: 10, offset: 91835},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2896, col: 10, offset: 91577},
+										pos:        position{line: 2905, col: 10, offset: 91835},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14730,39 +14730,39 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 607, col: 11, offset: 18744},
-									name: "QuotationMark",
+									pos:  position{line: 607, col: 11, offset: 18765},
+									name: "QuotationMarkReplacement",
 								},
 								&actionExpr{
-									pos: position{line: 646, col: 5, offset: 20455},
+									pos: position{line: 646, col: 5, offset: 20487},
 									run: (*parser).callonDoubleQuotedAttributeValueContent11,
 									expr: &seqExpr{
-										pos: position{line: 646, col: 5, offset: 20455},
+										pos: position{line: 646, col: 5, offset: 20487},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 646, col: 5, offset: 20455},
+												pos: position{line: 646, col: 5, offset: 20487},
 												run: (*parser).callonDoubleQuotedAttributeValueContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 649, col: 5, offset: 20527},
+												pos:   position{line: 649, col: 5, offset: 20559},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 649, col: 14, offset: 20536},
+													pos: position{line: 649, col: 14, offset: 20568},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 655, col: 5, offset: 20665},
+															pos: position{line: 655, col: 5, offset: 20697},
 															run: (*parser).callonDoubleQuotedAttributeValueContent16,
 															expr: &seqExpr{
-																pos: position{line: 655, col: 5, offset: 20665},
+																pos: position{line: 655, col: 5, offset: 20697},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 655, col: 5, offset: 20665},
+																		pos:        position{line: 655, col: 5, offset: 20697},
 																		val:        "\\{",
 																		ignoreCase: false,
 																		want:       "\"\\\\{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 655, col: 13, offset: 20673},
+																		pos:   position{line: 655, col: 13, offset: 20705},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14794,7 +14794,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 655, col: 32, offset: 20692},
+																		pos:        position{line: 655, col: 32, offset: 20724},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14803,19 +14803,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 662, col: 5, offset: 20933},
+															pos: position{line: 662, col: 5, offset: 20965},
 															run: (*parser).callonDoubleQuotedAttributeValueContent26,
 															expr: &seqExpr{
-																pos: position{line: 662, col: 5, offset: 20933},
+																pos: position{line: 662, col: 5, offset: 20965},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 662, col: 5, offset: 20933},
+																		pos:        position{line: 662, col: 5, offset: 20965},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 662, col: 9, offset: 20937},
+																		pos:   position{line: 662, col: 9, offset: 20969},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14847,7 +14847,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 662, col: 28, offset: 20956},
+																		pos:        position{line: 662, col: 28, offset: 20988},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14856,19 +14856,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 668, col: 25, offset: 21137},
+															pos: position{line: 668, col: 25, offset: 21169},
 															run: (*parser).callonDoubleQuotedAttributeValueContent36,
 															expr: &seqExpr{
-																pos: position{line: 668, col: 25, offset: 21137},
+																pos: position{line: 668, col: 25, offset: 21169},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 668, col: 25, offset: 21137},
+																		pos:        position{line: 668, col: 25, offset: 21169},
 																		val:        "{counter:",
 																		ignoreCase: false,
 																		want:       "\"{counter:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 668, col: 37, offset: 21149},
+																		pos:   position{line: 668, col: 37, offset: 21181},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -14900,33 +14900,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 668, col: 56, offset: 21168},
+																		pos:   position{line: 668, col: 56, offset: 21200},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 668, col: 62, offset: 21174},
+																			pos: position{line: 668, col: 62, offset: 21206},
 																			expr: &actionExpr{
-																				pos: position{line: 676, col: 17, offset: 21469},
+																				pos: position{line: 676, col: 17, offset: 21501},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent47,
 																				expr: &seqExpr{
-																					pos: position{line: 676, col: 17, offset: 21469},
+																					pos: position{line: 676, col: 17, offset: 21501},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 676, col: 17, offset: 21469},
+																							pos:        position{line: 676, col: 17, offset: 21501},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 676, col: 21, offset: 21473},
+																							pos:   position{line: 676, col: 21, offset: 21505},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 676, col: 28, offset: 21480},
+																								pos: position{line: 676, col: 28, offset: 21512},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 676, col: 28, offset: 21480},
+																										pos: position{line: 676, col: 28, offset: 21512},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent52,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 676, col: 28, offset: 21480},
+																											pos:        position{line: 676, col: 28, offset: 21512},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -14934,12 +14934,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 678, col: 9, offset: 21534},
+																										pos: position{line: 678, col: 9, offset: 21566},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent54,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 678, col: 9, offset: 21534},
+																											pos: position{line: 678, col: 9, offset: 21566},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 678, col: 9, offset: 21534},
+																												pos:        position{line: 678, col: 9, offset: 21566},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -14956,7 +14956,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 668, col: 78, offset: 21190},
+																		pos:        position{line: 668, col: 78, offset: 21222},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -14965,19 +14965,19 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 672, col: 25, offset: 21308},
+															pos: position{line: 672, col: 25, offset: 21340},
 															run: (*parser).callonDoubleQuotedAttributeValueContent58,
 															expr: &seqExpr{
-																pos: position{line: 672, col: 25, offset: 21308},
+																pos: position{line: 672, col: 25, offset: 21340},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 672, col: 25, offset: 21308},
+																		pos:        position{line: 672, col: 25, offset: 21340},
 																		val:        "{counter2:",
 																		ignoreCase: false,
 																		want:       "\"{counter2:\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 672, col: 38, offset: 21321},
+																		pos:   position{line: 672, col: 38, offset: 21353},
 																		label: "name",
 																		expr: &actionExpr{
 																			pos: position{line: 318, col: 18, offset: 9736},
@@ -15009,33 +15009,33 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 672, col: 57, offset: 21340},
+																		pos:   position{line: 672, col: 57, offset: 21372},
 																		label: "start",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 672, col: 63, offset: 21346},
+																			pos: position{line: 672, col: 63, offset: 21378},
 																			expr: &actionExpr{
-																				pos: position{line: 676, col: 17, offset: 21469},
+																				pos: position{line: 676, col: 17, offset: 21501},
 																				run: (*parser).callonDoubleQuotedAttributeValueContent69,
 																				expr: &seqExpr{
-																					pos: position{line: 676, col: 17, offset: 21469},
+																					pos: position{line: 676, col: 17, offset: 21501},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 676, col: 17, offset: 21469},
+																							pos:        position{line: 676, col: 17, offset: 21501},
 																							val:        ":",
 																							ignoreCase: false,
 																							want:       "\":\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 676, col: 21, offset: 21473},
+																							pos:   position{line: 676, col: 21, offset: 21505},
 																							label: "start",
 																							expr: &choiceExpr{
-																								pos: position{line: 676, col: 28, offset: 21480},
+																								pos: position{line: 676, col: 28, offset: 21512},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 676, col: 28, offset: 21480},
+																										pos: position{line: 676, col: 28, offset: 21512},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent74,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 676, col: 28, offset: 21480},
+																											pos:        position{line: 676, col: 28, offset: 21512},
 																											val:        "[A-Za-z]",
 																											ranges:     []rune{'A', 'Z', 'a', 'z'},
 																											ignoreCase: false,
@@ -15043,12 +15043,12 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 678, col: 9, offset: 21534},
+																										pos: position{line: 678, col: 9, offset: 21566},
 																										run: (*parser).callonDoubleQuotedAttributeValueContent76,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 678, col: 9, offset: 21534},
+																											pos: position{line: 678, col: 9, offset: 21566},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 678, col: 9, offset: 21534},
+																												pos:        position{line: 678, col: 9, offset: 21566},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -15065,7 +15065,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 672, col: 79, offset: 21362},
+																		pos:        position{line: 672, col: 79, offset: 21394},
 																		val:        "}",
 																		ignoreCase: false,
 																		want:       "\"}\"",
@@ -15080,50 +15080,50 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 609, col: 12, offset: 18799},
+									pos: position{line: 609, col: 12, offset: 18831},
 									run: (*parser).callonDoubleQuotedAttributeValueContent80,
 									expr: &litMatcher{
-										pos:        position{line: 609, col: 12, offset: 18799},
+										pos:        position{line: 609, col: 12, offset: 18831},
 										val:        "\\\"",
 										ignoreCase: false,
 										want:       "\"\\\\\\\"\"",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 612, col: 13, offset: 18901},
+									pos:        position{line: 612, col: 13, offset: 18933},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&litMatcher{
-									pos:        position{line: 612, col: 21, offset: 18909},
+									pos:        position{line: 612, col: 21, offset: 18941},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&litMatcher{
-									pos:        position{line: 612, col: 29, offset: 18917},
+									pos:        position{line: 612, col: 29, offset: 18949},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&actionExpr{
-									pos: position{line: 612, col: 35, offset: 18923},
+									pos: position{line: 612, col: 35, offset: 18955},
 									run: (*parser).callonDoubleQuotedAttributeValueContent85,
 									expr: &litMatcher{
-										pos:        position{line: 612, col: 35, offset: 18923},
+										pos:        position{line: 612, col: 35, offset: 18955},
 										val:        "`",
 										ignoreCase: false,
 										want:       "\"`\"",
 									},
 								},
 								&actionExpr{
-									pos: position{line: 615, col: 12, offset: 19106},
+									pos: position{line: 615, col: 12, offset: 19138},
 									run: (*parser).callonDoubleQuotedAttributeValueContent87,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 615, col: 12, offset: 19106},
+										pos: position{line: 615, col: 12, offset: 19138},
 										expr: &charClassMatcher{
-											pos:        position{line: 615, col: 12, offset: 19106},
+											pos:        position{line: 615, col: 12, offset: 19138},
 											val:        "[^\\r\\n\\\\\"` ]",
 											chars:      []rune{'\r', '\n', '\\', '"', '`', ' '},
 											ignoreCase: false,
@@ -15139,20 +15139,20 @@ var g = &grammar{
 		},
 		{
 			name: "UnquotedAttributeValue",
-			pos:  position{line: 623, col: 1, offset: 19380},
+			pos:  position{line: 623, col: 1, offset: 19412},
 			expr: &actionExpr{
-				pos: position{line: 626, col: 5, offset: 19564},
+				pos: position{line: 626, col: 5, offset: 19596},
 				run: (*parser).callonUnquotedAttributeValue1,
 				expr: &seqExpr{
-					pos: position{line: 626, col: 5, offset: 19564},
+					pos: position{line: 626, col: 5, offset: 19596},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 626, col: 5, offset: 19564},
+							pos: position{line: 626, col: 5, offset: 19596},
 							expr: &actionExpr{
-								pos: position{line: 2896, col: 10, offset: 91577},
+								pos: position{line: 2905, col: 10, offset: 91835},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2896, col: 10, offset: 91577},
+									pos:        position{line: 2905, col: 10, offset: 91835},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15161,28 +15161,28 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 627, col: 5, offset: 19633},
+							pos:   position{line: 627, col: 5, offset: 19665},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 627, col: 14, offset: 19642},
+								pos: position{line: 627, col: 14, offset: 19674},
 								expr: &choiceExpr{
-									pos: position{line: 628, col: 9, offset: 19652},
+									pos: position{line: 628, col: 9, offset: 19684},
 									alternatives: []interface{}{
 										&seqExpr{
-											pos: position{line: 628, col: 10, offset: 19653},
+											pos: position{line: 628, col: 10, offset: 19685},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 628, col: 10, offset: 19653},
+													pos:        position{line: 628, col: 10, offset: 19685},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
 												},
 												&ruleRefExpr{
-													pos:  position{line: 628, col: 14, offset: 19657},
+													pos:  position{line: 628, col: 14, offset: 19689},
 													name: "UnquotedAttributeValue",
 												},
 												&litMatcher{
-													pos:        position{line: 628, col: 37, offset: 19680},
+													pos:        position{line: 628, col: 37, offset: 19712},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
@@ -15190,35 +15190,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 646, col: 5, offset: 20455},
+											pos: position{line: 646, col: 5, offset: 20487},
 											run: (*parser).callonUnquotedAttributeValue13,
 											expr: &seqExpr{
-												pos: position{line: 646, col: 5, offset: 20455},
+												pos: position{line: 646, col: 5, offset: 20487},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 646, col: 5, offset: 20455},
+														pos: position{line: 646, col: 5, offset: 20487},
 														run: (*parser).callonUnquotedAttributeValue15,
 													},
 													&labeledExpr{
-														pos:   position{line: 649, col: 5, offset: 20527},
+														pos:   position{line: 649, col: 5, offset: 20559},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 649, col: 14, offset: 20536},
+															pos: position{line: 649, col: 14, offset: 20568},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 655, col: 5, offset: 20665},
+																	pos: position{line: 655, col: 5, offset: 20697},
 																	run: (*parser).callonUnquotedAttributeValue18,
 																	expr: &seqExpr{
-																		pos: position{line: 655, col: 5, offset: 20665},
+																		pos: position{line: 655, col: 5, offset: 20697},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 655, col: 5, offset: 20665},
+																				pos:        position{line: 655, col: 5, offset: 20697},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 655, col: 13, offset: 20673},
+																				pos:   position{line: 655, col: 13, offset: 20705},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -15250,7 +15250,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 655, col: 32, offset: 20692},
+																				pos:        position{line: 655, col: 32, offset: 20724},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15259,19 +15259,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 662, col: 5, offset: 20933},
+																	pos: position{line: 662, col: 5, offset: 20965},
 																	run: (*parser).callonUnquotedAttributeValue28,
 																	expr: &seqExpr{
-																		pos: position{line: 662, col: 5, offset: 20933},
+																		pos: position{line: 662, col: 5, offset: 20965},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 662, col: 5, offset: 20933},
+																				pos:        position{line: 662, col: 5, offset: 20965},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 9, offset: 20937},
+																				pos:   position{line: 662, col: 9, offset: 20969},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -15303,7 +15303,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 662, col: 28, offset: 20956},
+																				pos:        position{line: 662, col: 28, offset: 20988},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15312,19 +15312,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 668, col: 25, offset: 21137},
+																	pos: position{line: 668, col: 25, offset: 21169},
 																	run: (*parser).callonUnquotedAttributeValue38,
 																	expr: &seqExpr{
-																		pos: position{line: 668, col: 25, offset: 21137},
+																		pos: position{line: 668, col: 25, offset: 21169},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 668, col: 25, offset: 21137},
+																				pos:        position{line: 668, col: 25, offset: 21169},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 668, col: 37, offset: 21149},
+																				pos:   position{line: 668, col: 37, offset: 21181},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -15356,33 +15356,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 668, col: 56, offset: 21168},
+																				pos:   position{line: 668, col: 56, offset: 21200},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 668, col: 62, offset: 21174},
+																					pos: position{line: 668, col: 62, offset: 21206},
 																					expr: &actionExpr{
-																						pos: position{line: 676, col: 17, offset: 21469},
+																						pos: position{line: 676, col: 17, offset: 21501},
 																						run: (*parser).callonUnquotedAttributeValue49,
 																						expr: &seqExpr{
-																							pos: position{line: 676, col: 17, offset: 21469},
+																							pos: position{line: 676, col: 17, offset: 21501},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 676, col: 17, offset: 21469},
+																									pos:        position{line: 676, col: 17, offset: 21501},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 676, col: 21, offset: 21473},
+																									pos:   position{line: 676, col: 21, offset: 21505},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 676, col: 28, offset: 21480},
+																										pos: position{line: 676, col: 28, offset: 21512},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 676, col: 28, offset: 21480},
+																												pos: position{line: 676, col: 28, offset: 21512},
 																												run: (*parser).callonUnquotedAttributeValue54,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 676, col: 28, offset: 21480},
+																													pos:        position{line: 676, col: 28, offset: 21512},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15390,12 +15390,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 678, col: 9, offset: 21534},
+																												pos: position{line: 678, col: 9, offset: 21566},
 																												run: (*parser).callonUnquotedAttributeValue56,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 678, col: 9, offset: 21534},
+																													pos: position{line: 678, col: 9, offset: 21566},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 678, col: 9, offset: 21534},
+																														pos:        position{line: 678, col: 9, offset: 21566},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15412,7 +15412,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 668, col: 78, offset: 21190},
+																				pos:        position{line: 668, col: 78, offset: 21222},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15421,19 +15421,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 672, col: 25, offset: 21308},
+																	pos: position{line: 672, col: 25, offset: 21340},
 																	run: (*parser).callonUnquotedAttributeValue60,
 																	expr: &seqExpr{
-																		pos: position{line: 672, col: 25, offset: 21308},
+																		pos: position{line: 672, col: 25, offset: 21340},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 672, col: 25, offset: 21308},
+																				pos:        position{line: 672, col: 25, offset: 21340},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 672, col: 38, offset: 21321},
+																				pos:   position{line: 672, col: 38, offset: 21353},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -15465,33 +15465,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 672, col: 57, offset: 21340},
+																				pos:   position{line: 672, col: 57, offset: 21372},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 672, col: 63, offset: 21346},
+																					pos: position{line: 672, col: 63, offset: 21378},
 																					expr: &actionExpr{
-																						pos: position{line: 676, col: 17, offset: 21469},
+																						pos: position{line: 676, col: 17, offset: 21501},
 																						run: (*parser).callonUnquotedAttributeValue71,
 																						expr: &seqExpr{
-																							pos: position{line: 676, col: 17, offset: 21469},
+																							pos: position{line: 676, col: 17, offset: 21501},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 676, col: 17, offset: 21469},
+																									pos:        position{line: 676, col: 17, offset: 21501},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 676, col: 21, offset: 21473},
+																									pos:   position{line: 676, col: 21, offset: 21505},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 676, col: 28, offset: 21480},
+																										pos: position{line: 676, col: 28, offset: 21512},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 676, col: 28, offset: 21480},
+																												pos: position{line: 676, col: 28, offset: 21512},
 																												run: (*parser).callonUnquotedAttributeValue76,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 676, col: 28, offset: 21480},
+																													pos:        position{line: 676, col: 28, offset: 21512},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -15499,12 +15499,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 678, col: 9, offset: 21534},
+																												pos: position{line: 678, col: 9, offset: 21566},
 																												run: (*parser).callonUnquotedAttributeValue78,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 678, col: 9, offset: 21534},
+																													pos: position{line: 678, col: 9, offset: 21566},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 678, col: 9, offset: 21534},
+																														pos:        position{line: 678, col: 9, offset: 21566},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -15521,7 +15521,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 672, col: 79, offset: 21362},
+																				pos:        position{line: 672, col: 79, offset: 21394},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -15536,16 +15536,16 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 629, col: 32, offset: 19767},
+											pos:        position{line: 629, col: 32, offset: 19799},
 											val:        "{",
 											ignoreCase: false,
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2896, col: 10, offset: 91577},
+											pos: position{line: 2905, col: 10, offset: 91835},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2896, col: 10, offset: 91577},
+												pos:        position{line: 2905, col: 10, offset: 91835},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15553,12 +15553,12 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 631, col: 12, offset: 19852},
+											pos: position{line: 631, col: 12, offset: 19884},
 											run: (*parser).callonUnquotedAttributeValue85,
 											expr: &oneOrMoreExpr{
-												pos: position{line: 631, col: 12, offset: 19852},
+												pos: position{line: 631, col: 12, offset: 19884},
 												expr: &charClassMatcher{
-													pos:        position{line: 631, col: 12, offset: 19852},
+													pos:        position{line: 631, col: 12, offset: 19884},
 													val:        "[^=,]{ \\r\\n]",
 													chars:      []rune{'=', ',', ']', '{', ' ', '\r', '\n'},
 													ignoreCase: false,
@@ -15567,31 +15567,31 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 634, col: 12, offset: 19997},
+											pos: position{line: 634, col: 12, offset: 20029},
 											run: (*parser).callonUnquotedAttributeValue88,
 											expr: &seqExpr{
-												pos: position{line: 634, col: 12, offset: 19997},
+												pos: position{line: 634, col: 12, offset: 20029},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 2905, col: 12, offset: 91748},
+														pos: position{line: 2914, col: 12, offset: 92006},
 														run: (*parser).callonUnquotedAttributeValue90,
 														expr: &choiceExpr{
-															pos: position{line: 2905, col: 13, offset: 91749},
+															pos: position{line: 2914, col: 13, offset: 92007},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2905, col: 13, offset: 91749},
+																	pos:        position{line: 2914, col: 13, offset: 92007},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2905, col: 20, offset: 91756},
+																	pos:        position{line: 2914, col: 20, offset: 92014},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2905, col: 29, offset: 91765},
+																	pos:        position{line: 2914, col: 29, offset: 92023},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -15600,20 +15600,20 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 634, col: 20, offset: 20005},
+														pos: position{line: 634, col: 20, offset: 20037},
 														expr: &seqExpr{
-															pos: position{line: 2502, col: 31, offset: 80558},
+															pos: position{line: 2502, col: 31, offset: 80590},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2502, col: 31, offset: 80558},
+																	pos:        position{line: 2502, col: 31, offset: 80590},
 																	val:        "//",
 																	ignoreCase: false,
 																	want:       "\"//\"",
 																},
 																&notExpr{
-																	pos: position{line: 2502, col: 36, offset: 80563},
+																	pos: position{line: 2502, col: 36, offset: 80595},
 																	expr: &litMatcher{
-																		pos:        position{line: 2502, col: 37, offset: 80564},
+																		pos:        position{line: 2502, col: 37, offset: 80596},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
@@ -15635,32 +15635,32 @@ var g = &grammar{
 		},
 		{
 			name: "CrossReference",
-			pos:  position{line: 694, col: 1, offset: 22096},
+			pos:  position{line: 694, col: 1, offset: 22128},
 			expr: &choiceExpr{
-				pos: position{line: 694, col: 19, offset: 22114},
+				pos: position{line: 694, col: 19, offset: 22146},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 696, col: 27, offset: 22190},
+						pos: position{line: 696, col: 27, offset: 22222},
 						run: (*parser).callonCrossReference2,
 						expr: &seqExpr{
-							pos: position{line: 696, col: 27, offset: 22190},
+							pos: position{line: 696, col: 27, offset: 22222},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 696, col: 27, offset: 22190},
+									pos:        position{line: 696, col: 27, offset: 22222},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 696, col: 32, offset: 22195},
+									pos:   position{line: 696, col: 32, offset: 22227},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2881, col: 7, offset: 91229},
+										pos: position{line: 2890, col: 7, offset: 91487},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2881, col: 7, offset: 91229},
+											pos: position{line: 2890, col: 7, offset: 91487},
 											expr: &charClassMatcher{
-												pos:        position{line: 2881, col: 7, offset: 91229},
+												pos:        position{line: 2890, col: 7, offset: 91487},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15670,12 +15670,12 @@ var g = &grammar{
 									},
 								},
 								&zeroOrMoreExpr{
-									pos: position{line: 696, col: 40, offset: 22203},
+									pos: position{line: 696, col: 40, offset: 22235},
 									expr: &actionExpr{
-										pos: position{line: 2896, col: 10, offset: 91577},
+										pos: position{line: 2905, col: 10, offset: 91835},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2896, col: 10, offset: 91577},
+											pos:        position{line: 2905, col: 10, offset: 91835},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15684,36 +15684,36 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 696, col: 47, offset: 22210},
+									pos:        position{line: 696, col: 47, offset: 22242},
 									val:        ",",
 									ignoreCase: false,
 									want:       "\",\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 696, col: 51, offset: 22214},
+									pos:   position{line: 696, col: 51, offset: 22246},
 									label: "label",
 									expr: &oneOrMoreExpr{
-										pos: position{line: 706, col: 24, offset: 22615},
+										pos: position{line: 706, col: 24, offset: 22647},
 										expr: &choiceExpr{
-											pos: position{line: 707, col: 5, offset: 22621},
+											pos: position{line: 707, col: 5, offset: 22653},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 707, col: 6, offset: 22622},
+													pos: position{line: 707, col: 6, offset: 22654},
 													run: (*parser).callonCrossReference16,
 													expr: &seqExpr{
-														pos: position{line: 707, col: 6, offset: 22622},
+														pos: position{line: 707, col: 6, offset: 22654},
 														exprs: []interface{}{
 															&charClassMatcher{
-																pos:        position{line: 707, col: 6, offset: 22622},
+																pos:        position{line: 707, col: 6, offset: 22654},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
 																inverted:   false,
 															},
 															&oneOrMoreExpr{
-																pos: position{line: 707, col: 14, offset: 22630},
+																pos: position{line: 707, col: 14, offset: 22662},
 																expr: &charClassMatcher{
-																	pos:        position{line: 707, col: 14, offset: 22630},
+																	pos:        position{line: 707, col: 14, offset: 22662},
 																	val:        "[^\\r\\n{<>]",
 																	chars:      []rune{'\r', '\n', '{', '<', '>'},
 																	ignoreCase: false,
@@ -15724,35 +15724,35 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 710, col: 8, offset: 22826},
+													pos: position{line: 710, col: 8, offset: 22858},
 													run: (*parser).callonCrossReference21,
 													expr: &seqExpr{
-														pos: position{line: 710, col: 8, offset: 22826},
+														pos: position{line: 710, col: 8, offset: 22858},
 														exprs: []interface{}{
 															&andCodeExpr{
-																pos: position{line: 710, col: 8, offset: 22826},
+																pos: position{line: 710, col: 8, offset: 22858},
 																run: (*parser).callonCrossReference23,
 															},
 															&labeledExpr{
-																pos:   position{line: 712, col: 7, offset: 22894},
+																pos:   position{line: 712, col: 7, offset: 22926},
 																label: "ref",
 																expr: &choiceExpr{
-																	pos: position{line: 655, col: 5, offset: 20665},
+																	pos: position{line: 655, col: 5, offset: 20697},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 655, col: 5, offset: 20665},
+																			pos: position{line: 655, col: 5, offset: 20697},
 																			run: (*parser).callonCrossReference26,
 																			expr: &seqExpr{
-																				pos: position{line: 655, col: 5, offset: 20665},
+																				pos: position{line: 655, col: 5, offset: 20697},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 655, col: 5, offset: 20665},
+																						pos:        position{line: 655, col: 5, offset: 20697},
 																						val:        "\\{",
 																						ignoreCase: false,
 																						want:       "\"\\\\{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 655, col: 13, offset: 20673},
+																						pos:   position{line: 655, col: 13, offset: 20705},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -15784,7 +15784,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 655, col: 32, offset: 20692},
+																						pos:        position{line: 655, col: 32, offset: 20724},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -15793,19 +15793,19 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 662, col: 5, offset: 20933},
+																			pos: position{line: 662, col: 5, offset: 20965},
 																			run: (*parser).callonCrossReference36,
 																			expr: &seqExpr{
-																				pos: position{line: 662, col: 5, offset: 20933},
+																				pos: position{line: 662, col: 5, offset: 20965},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 662, col: 5, offset: 20933},
+																						pos:        position{line: 662, col: 5, offset: 20965},
 																						val:        "{",
 																						ignoreCase: false,
 																						want:       "\"{\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 662, col: 9, offset: 20937},
+																						pos:   position{line: 662, col: 9, offset: 20969},
 																						label: "name",
 																						expr: &actionExpr{
 																							pos: position{line: 318, col: 18, offset: 9736},
@@ -15837,7 +15837,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 662, col: 28, offset: 20956},
+																						pos:        position{line: 662, col: 28, offset: 20988},
 																						val:        "}",
 																						ignoreCase: false,
 																						want:       "\"}\"",
@@ -15852,10 +15852,10 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 715, col: 8, offset: 22964},
+													pos: position{line: 715, col: 8, offset: 22996},
 													run: (*parser).callonCrossReference46,
 													expr: &litMatcher{
-														pos:        position{line: 715, col: 8, offset: 22964},
+														pos:        position{line: 715, col: 8, offset: 22996},
 														val:        "{",
 														ignoreCase: false,
 														want:       "\"{\"",
@@ -15866,7 +15866,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 696, col: 79, offset: 22242},
+									pos:        position{line: 696, col: 79, offset: 22274},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15875,27 +15875,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 698, col: 9, offset: 22315},
+						pos: position{line: 698, col: 9, offset: 22347},
 						run: (*parser).callonCrossReference49,
 						expr: &seqExpr{
-							pos: position{line: 698, col: 9, offset: 22315},
+							pos: position{line: 698, col: 9, offset: 22347},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 698, col: 9, offset: 22315},
+									pos:        position{line: 698, col: 9, offset: 22347},
 									val:        "<<",
 									ignoreCase: false,
 									want:       "\"<<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 698, col: 14, offset: 22320},
+									pos:   position{line: 698, col: 14, offset: 22352},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2881, col: 7, offset: 91229},
+										pos: position{line: 2890, col: 7, offset: 91487},
 										run: (*parser).callonCrossReference53,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2881, col: 7, offset: 91229},
+											pos: position{line: 2890, col: 7, offset: 91487},
 											expr: &charClassMatcher{
-												pos:        position{line: 2881, col: 7, offset: 91229},
+												pos:        position{line: 2890, col: 7, offset: 91487},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15905,7 +15905,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 698, col: 22, offset: 22328},
+									pos:        position{line: 698, col: 22, offset: 22360},
 									val:        ">>",
 									ignoreCase: false,
 									want:       "\">>\"",
@@ -15914,7 +15914,7 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 694, col: 44, offset: 22139},
+						pos:  position{line: 694, col: 44, offset: 22171},
 						name: "ExternalCrossReference",
 					},
 				},
@@ -15922,58 +15922,58 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalCrossReference",
-			pos:  position{line: 702, col: 1, offset: 22399},
+			pos:  position{line: 702, col: 1, offset: 22431},
 			expr: &actionExpr{
-				pos: position{line: 702, col: 27, offset: 22425},
+				pos: position{line: 702, col: 27, offset: 22457},
 				run: (*parser).callonExternalCrossReference1,
 				expr: &seqExpr{
-					pos: position{line: 702, col: 27, offset: 22425},
+					pos: position{line: 702, col: 27, offset: 22457},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 702, col: 27, offset: 22425},
+							pos:        position{line: 702, col: 27, offset: 22457},
 							val:        "xref:",
 							ignoreCase: false,
 							want:       "\"xref:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 702, col: 35, offset: 22433},
+							pos:   position{line: 702, col: 35, offset: 22465},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2850, col: 17, offset: 90240},
+								pos: position{line: 2859, col: 17, offset: 90498},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2850, col: 17, offset: 90240},
+									pos:   position{line: 2859, col: 17, offset: 90498},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2867, col: 5, offset: 90694},
+										pos: position{line: 2876, col: 5, offset: 90952},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2867, col: 5, offset: 90694},
+											pos:   position{line: 2876, col: 5, offset: 90952},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2867, col: 14, offset: 90703},
+												pos: position{line: 2876, col: 14, offset: 90961},
 												expr: &choiceExpr{
-													pos: position{line: 2868, col: 9, offset: 90713},
+													pos: position{line: 2877, col: 9, offset: 90971},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2868, col: 9, offset: 90713},
+															pos: position{line: 2877, col: 9, offset: 90971},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2868, col: 9, offset: 90713},
+																pos: position{line: 2877, col: 9, offset: 90971},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2868, col: 9, offset: 90713},
+																		pos: position{line: 2877, col: 9, offset: 90971},
 																		expr: &litMatcher{
-																			pos:        position{line: 2868, col: 10, offset: 90714},
+																			pos:        position{line: 2877, col: 10, offset: 90972},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2869, col: 9, offset: 90742},
+																		pos: position{line: 2878, col: 9, offset: 91000},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2869, col: 10, offset: 90743},
+																			pos:        position{line: 2878, col: 10, offset: 91001},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15984,27 +15984,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2872, col: 11, offset: 90955},
+															pos: position{line: 2881, col: 11, offset: 91213},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2872, col: 11, offset: 90955},
+																	pos:        position{line: 2881, col: 11, offset: 91213},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2872, col: 19, offset: 90963},
+																	pos: position{line: 2881, col: 19, offset: 91221},
 																	expr: &seqExpr{
-																		pos: position{line: 2872, col: 21, offset: 90965},
+																		pos: position{line: 2881, col: 21, offset: 91223},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2872, col: 21, offset: 90965},
+																				pos: position{line: 2881, col: 21, offset: 91223},
 																				expr: &actionExpr{
-																					pos: position{line: 2896, col: 10, offset: 91577},
+																					pos: position{line: 2905, col: 10, offset: 91835},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2896, col: 10, offset: 91577},
+																						pos:        position{line: 2905, col: 10, offset: 91835},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -16013,11 +16013,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2872, col: 28, offset: 90972},
+																				pos: position{line: 2881, col: 28, offset: 91230},
 																				expr: &notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
@@ -16027,35 +16027,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 646, col: 5, offset: 20455},
+															pos: position{line: 646, col: 5, offset: 20487},
 															run: (*parser).callonExternalCrossReference27,
 															expr: &seqExpr{
-																pos: position{line: 646, col: 5, offset: 20455},
+																pos: position{line: 646, col: 5, offset: 20487},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 646, col: 5, offset: 20455},
+																		pos: position{line: 646, col: 5, offset: 20487},
 																		run: (*parser).callonExternalCrossReference29,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 649, col: 5, offset: 20527},
+																		pos:   position{line: 649, col: 5, offset: 20559},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 649, col: 14, offset: 20536},
+																			pos: position{line: 649, col: 14, offset: 20568},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 655, col: 5, offset: 20665},
+																					pos: position{line: 655, col: 5, offset: 20697},
 																					run: (*parser).callonExternalCrossReference32,
 																					expr: &seqExpr{
-																						pos: position{line: 655, col: 5, offset: 20665},
+																						pos: position{line: 655, col: 5, offset: 20697},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 655, col: 5, offset: 20665},
+																								pos:        position{line: 655, col: 5, offset: 20697},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 655, col: 13, offset: 20673},
+																								pos:   position{line: 655, col: 13, offset: 20705},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -16087,7 +16087,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 655, col: 32, offset: 20692},
+																								pos:        position{line: 655, col: 32, offset: 20724},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16096,19 +16096,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 662, col: 5, offset: 20933},
+																					pos: position{line: 662, col: 5, offset: 20965},
 																					run: (*parser).callonExternalCrossReference42,
 																					expr: &seqExpr{
-																						pos: position{line: 662, col: 5, offset: 20933},
+																						pos: position{line: 662, col: 5, offset: 20965},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 662, col: 5, offset: 20933},
+																								pos:        position{line: 662, col: 5, offset: 20965},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 9, offset: 20937},
+																								pos:   position{line: 662, col: 9, offset: 20969},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -16140,7 +16140,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 662, col: 28, offset: 20956},
+																								pos:        position{line: 662, col: 28, offset: 20988},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16149,19 +16149,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 668, col: 25, offset: 21137},
+																					pos: position{line: 668, col: 25, offset: 21169},
 																					run: (*parser).callonExternalCrossReference52,
 																					expr: &seqExpr{
-																						pos: position{line: 668, col: 25, offset: 21137},
+																						pos: position{line: 668, col: 25, offset: 21169},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 668, col: 25, offset: 21137},
+																								pos:        position{line: 668, col: 25, offset: 21169},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 668, col: 37, offset: 21149},
+																								pos:   position{line: 668, col: 37, offset: 21181},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -16193,33 +16193,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 668, col: 56, offset: 21168},
+																								pos:   position{line: 668, col: 56, offset: 21200},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 668, col: 62, offset: 21174},
+																									pos: position{line: 668, col: 62, offset: 21206},
 																									expr: &actionExpr{
-																										pos: position{line: 676, col: 17, offset: 21469},
+																										pos: position{line: 676, col: 17, offset: 21501},
 																										run: (*parser).callonExternalCrossReference63,
 																										expr: &seqExpr{
-																											pos: position{line: 676, col: 17, offset: 21469},
+																											pos: position{line: 676, col: 17, offset: 21501},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 676, col: 17, offset: 21469},
+																													pos:        position{line: 676, col: 17, offset: 21501},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 676, col: 21, offset: 21473},
+																													pos:   position{line: 676, col: 21, offset: 21505},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 676, col: 28, offset: 21480},
+																														pos: position{line: 676, col: 28, offset: 21512},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 676, col: 28, offset: 21480},
+																																pos: position{line: 676, col: 28, offset: 21512},
 																																run: (*parser).callonExternalCrossReference68,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 676, col: 28, offset: 21480},
+																																	pos:        position{line: 676, col: 28, offset: 21512},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -16227,12 +16227,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 678, col: 9, offset: 21534},
+																																pos: position{line: 678, col: 9, offset: 21566},
 																																run: (*parser).callonExternalCrossReference70,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 678, col: 9, offset: 21534},
+																																	pos: position{line: 678, col: 9, offset: 21566},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 678, col: 9, offset: 21534},
+																																		pos:        position{line: 678, col: 9, offset: 21566},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -16249,7 +16249,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 668, col: 78, offset: 21190},
+																								pos:        position{line: 668, col: 78, offset: 21222},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16258,19 +16258,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 672, col: 25, offset: 21308},
+																					pos: position{line: 672, col: 25, offset: 21340},
 																					run: (*parser).callonExternalCrossReference74,
 																					expr: &seqExpr{
-																						pos: position{line: 672, col: 25, offset: 21308},
+																						pos: position{line: 672, col: 25, offset: 21340},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 672, col: 25, offset: 21308},
+																								pos:        position{line: 672, col: 25, offset: 21340},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 672, col: 38, offset: 21321},
+																								pos:   position{line: 672, col: 38, offset: 21353},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -16302,33 +16302,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 672, col: 57, offset: 21340},
+																								pos:   position{line: 672, col: 57, offset: 21372},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 672, col: 63, offset: 21346},
+																									pos: position{line: 672, col: 63, offset: 21378},
 																									expr: &actionExpr{
-																										pos: position{line: 676, col: 17, offset: 21469},
+																										pos: position{line: 676, col: 17, offset: 21501},
 																										run: (*parser).callonExternalCrossReference85,
 																										expr: &seqExpr{
-																											pos: position{line: 676, col: 17, offset: 21469},
+																											pos: position{line: 676, col: 17, offset: 21501},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 676, col: 17, offset: 21469},
+																													pos:        position{line: 676, col: 17, offset: 21501},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 676, col: 21, offset: 21473},
+																													pos:   position{line: 676, col: 21, offset: 21505},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 676, col: 28, offset: 21480},
+																														pos: position{line: 676, col: 28, offset: 21512},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 676, col: 28, offset: 21480},
+																																pos: position{line: 676, col: 28, offset: 21512},
 																																run: (*parser).callonExternalCrossReference90,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 676, col: 28, offset: 21480},
+																																	pos:        position{line: 676, col: 28, offset: 21512},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -16336,12 +16336,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 678, col: 9, offset: 21534},
+																																pos: position{line: 678, col: 9, offset: 21566},
 																																run: (*parser).callonExternalCrossReference92,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 678, col: 9, offset: 21534},
+																																	pos: position{line: 678, col: 9, offset: 21566},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 678, col: 9, offset: 21534},
+																																		pos:        position{line: 678, col: 9, offset: 21566},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -16358,7 +16358,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 672, col: 79, offset: 21362},
+																								pos:        position{line: 672, col: 79, offset: 21394},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -16373,27 +16373,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1224, col: 23, offset: 37828},
+															pos: position{line: 1224, col: 23, offset: 37860},
 															run: (*parser).callonExternalCrossReference96,
 															expr: &seqExpr{
-																pos: position{line: 1224, col: 23, offset: 37828},
+																pos: position{line: 1224, col: 23, offset: 37860},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1222, col: 32, offset: 37796},
+																		pos:        position{line: 1222, col: 32, offset: 37828},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1224, col: 51, offset: 37856},
+																		pos:   position{line: 1224, col: 51, offset: 37888},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1224, col: 56, offset: 37861},
+																			pos: position{line: 1224, col: 56, offset: 37893},
 																			run: (*parser).callonExternalCrossReference100,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1224, col: 56, offset: 37861},
+																				pos: position{line: 1224, col: 56, offset: 37893},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1224, col: 56, offset: 37861},
+																					pos:        position{line: 1224, col: 56, offset: 37893},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -16403,7 +16403,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1222, col: 32, offset: 37796},
+																		pos:        position{line: 1222, col: 32, offset: 37828},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -16412,10 +16412,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2875, col: 11, offset: 91092},
+															pos: position{line: 2884, col: 11, offset: 91350},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2875, col: 11, offset: 91092},
+																pos:        position{line: 2884, col: 11, offset: 91350},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16430,10 +16430,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 702, col: 54, offset: 22452},
+							pos:   position{line: 702, col: 54, offset: 22484},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 702, col: 66, offset: 22464},
+								pos:  position{line: 702, col: 66, offset: 22496},
 								name: "InlineAttributes",
 							},
 						},
@@ -16443,29 +16443,29 @@ var g = &grammar{
 		},
 		{
 			name: "MarkdownQuoteAttribution",
-			pos:  position{line: 1014, col: 1, offset: 31623},
+			pos:  position{line: 1014, col: 1, offset: 31655},
 			expr: &actionExpr{
-				pos: position{line: 1015, col: 5, offset: 31656},
+				pos: position{line: 1015, col: 5, offset: 31688},
 				run: (*parser).callonMarkdownQuoteAttribution1,
 				expr: &seqExpr{
-					pos: position{line: 1015, col: 5, offset: 31656},
+					pos: position{line: 1015, col: 5, offset: 31688},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1015, col: 5, offset: 31656},
+							pos:        position{line: 1015, col: 5, offset: 31688},
 							val:        "-- ",
 							ignoreCase: false,
 							want:       "\"-- \"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1015, col: 11, offset: 31662},
+							pos:   position{line: 1015, col: 11, offset: 31694},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2846, col: 14, offset: 90170},
+								pos: position{line: 2855, col: 14, offset: 90428},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2846, col: 14, offset: 90170},
+									pos: position{line: 2855, col: 14, offset: 90428},
 									expr: &charClassMatcher{
-										pos:        position{line: 2846, col: 14, offset: 90170},
+										pos:        position{line: 2855, col: 14, offset: 90428},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16475,28 +16475,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2918, col: 8, offset: 91975},
+							pos: position{line: 2927, col: 8, offset: 92233},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2905, col: 12, offset: 91748},
+									pos: position{line: 2914, col: 12, offset: 92006},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2905, col: 13, offset: 91749},
+										pos: position{line: 2914, col: 13, offset: 92007},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2905, col: 13, offset: 91749},
+												pos:        position{line: 2914, col: 13, offset: 92007},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2905, col: 20, offset: 91756},
+												pos:        position{line: 2914, col: 20, offset: 92014},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2905, col: 29, offset: 91765},
+												pos:        position{line: 2914, col: 29, offset: 92023},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16505,9 +16505,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2915, col: 8, offset: 91925},
+									pos: position{line: 2924, col: 8, offset: 92183},
 									expr: &anyMatcher{
-										line: 2915, col: 9, offset: 91926,
+										line: 2924, col: 9, offset: 92184,
 									},
 								},
 							},
@@ -16518,53 +16518,53 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentHeader",
-			pos:  position{line: 1126, col: 1, offset: 34579},
+			pos:  position{line: 1126, col: 1, offset: 34611},
 			expr: &actionExpr{
-				pos: position{line: 1127, col: 5, offset: 34602},
+				pos: position{line: 1127, col: 5, offset: 34634},
 				run: (*parser).callonDocumentHeader1,
 				expr: &seqExpr{
-					pos: position{line: 1127, col: 5, offset: 34602},
+					pos: position{line: 1127, col: 5, offset: 34634},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1127, col: 5, offset: 34602},
+							pos: position{line: 1127, col: 5, offset: 34634},
 							run: (*parser).callonDocumentHeader3,
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1130, col: 5, offset: 34663},
+							pos: position{line: 1130, col: 5, offset: 34695},
 							expr: &choiceExpr{
-								pos: position{line: 1130, col: 6, offset: 34664},
+								pos: position{line: 1130, col: 6, offset: 34696},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2497, col: 22, offset: 80337},
+										pos: position{line: 2497, col: 22, offset: 80369},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2497, col: 22, offset: 80337},
+											pos: position{line: 2497, col: 22, offset: 80369},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2502, col: 31, offset: 80558},
+													pos:        position{line: 2502, col: 31, offset: 80590},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2502, col: 36, offset: 80563},
+													pos: position{line: 2502, col: 36, offset: 80595},
 													expr: &litMatcher{
-														pos:        position{line: 2502, col: 37, offset: 80564},
+														pos:        position{line: 2502, col: 37, offset: 80596},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2497, col: 49, offset: 80364},
+													pos:   position{line: 2497, col: 49, offset: 80396},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2842, col: 13, offset: 90103},
+														pos: position{line: 2851, col: 13, offset: 90361},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2842, col: 13, offset: 90103},
+															pos: position{line: 2851, col: 13, offset: 90361},
 															expr: &charClassMatcher{
-																pos:        position{line: 2842, col: 13, offset: 90103},
+																pos:        position{line: 2851, col: 13, offset: 90361},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16574,28 +16574,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2918, col: 8, offset: 91975},
+													pos: position{line: 2927, col: 8, offset: 92233},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2905, col: 12, offset: 91748},
+															pos: position{line: 2914, col: 12, offset: 92006},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2905, col: 13, offset: 91749},
+																pos: position{line: 2914, col: 13, offset: 92007},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 13, offset: 91749},
+																		pos:        position{line: 2914, col: 13, offset: 92007},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 20, offset: 91756},
+																		pos:        position{line: 2914, col: 20, offset: 92014},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 29, offset: 91765},
+																		pos:        position{line: 2914, col: 29, offset: 92023},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16604,9 +16604,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2915, col: 8, offset: 91925},
+															pos: position{line: 2924, col: 8, offset: 92183},
 															expr: &anyMatcher{
-																line: 2915, col: 9, offset: 91926,
+																line: 2924, col: 9, offset: 92184,
 															},
 														},
 													},
@@ -16615,39 +16615,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 834, col: 5, offset: 26778},
+										pos: position{line: 834, col: 5, offset: 26810},
 										run: (*parser).callonDocumentHeader23,
 										expr: &seqExpr{
-											pos: position{line: 834, col: 5, offset: 26778},
+											pos: position{line: 834, col: 5, offset: 26810},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 834, col: 5, offset: 26778},
+													pos:   position{line: 834, col: 5, offset: 26810},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 754, col: 5, offset: 24038},
+														pos: position{line: 754, col: 5, offset: 24070},
 														run: (*parser).callonDocumentHeader26,
 														expr: &seqExpr{
-															pos: position{line: 754, col: 5, offset: 24038},
+															pos: position{line: 754, col: 5, offset: 24070},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 754, col: 5, offset: 24038},
+																	pos:   position{line: 754, col: 5, offset: 24070},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 754, col: 16, offset: 24049},
+																		pos: position{line: 754, col: 16, offset: 24081},
 																		run: (*parser).callonDocumentHeader29,
 																		expr: &seqExpr{
-																			pos: position{line: 754, col: 16, offset: 24049},
+																			pos: position{line: 754, col: 16, offset: 24081},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 754, col: 16, offset: 24049},
+																					pos:        position{line: 754, col: 16, offset: 24081},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 754, col: 23, offset: 24056},
+																					pos: position{line: 754, col: 23, offset: 24088},
 																					expr: &litMatcher{
-																						pos:        position{line: 754, col: 23, offset: 24056},
+																						pos:        position{line: 754, col: 23, offset: 24088},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -16658,12 +16658,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 756, col: 8, offset: 24140},
+																	pos: position{line: 756, col: 8, offset: 24172},
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 10, offset: 91577},
+																		pos: position{line: 2905, col: 10, offset: 91835},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 10, offset: 91577},
+																			pos:        position{line: 2905, col: 10, offset: 91835},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16672,28 +16672,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16702,9 +16702,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -16714,56 +16714,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 835, col: 5, offset: 26817},
+													pos: position{line: 835, col: 5, offset: 26849},
 													run: (*parser).callonDocumentHeader45,
 												},
 												&labeledExpr{
-													pos:   position{line: 838, col: 5, offset: 26909},
+													pos:   position{line: 838, col: 5, offset: 26941},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 853, col: 5, offset: 27307},
+														pos: position{line: 853, col: 5, offset: 27339},
 														expr: &actionExpr{
-															pos: position{line: 853, col: 6, offset: 27308},
+															pos: position{line: 853, col: 6, offset: 27340},
 															run: (*parser).callonDocumentHeader48,
 															expr: &seqExpr{
-																pos: position{line: 853, col: 6, offset: 27308},
+																pos: position{line: 853, col: 6, offset: 27340},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 853, col: 6, offset: 27308},
+																		pos: position{line: 853, col: 6, offset: 27340},
 																		expr: &choiceExpr{
-																			pos: position{line: 846, col: 5, offset: 27149},
+																			pos: position{line: 846, col: 5, offset: 27181},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 846, col: 5, offset: 27149},
+																					pos: position{line: 846, col: 5, offset: 27181},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 846, col: 5, offset: 27149},
+																							pos:   position{line: 846, col: 5, offset: 27181},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 5, offset: 24038},
+																								pos: position{line: 754, col: 5, offset: 24070},
 																								run: (*parser).callonDocumentHeader54,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 5, offset: 24038},
+																									pos: position{line: 754, col: 5, offset: 24070},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 754, col: 5, offset: 24038},
+																											pos:   position{line: 754, col: 5, offset: 24070},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 754, col: 16, offset: 24049},
+																												pos: position{line: 754, col: 16, offset: 24081},
 																												run: (*parser).callonDocumentHeader57,
 																												expr: &seqExpr{
-																													pos: position{line: 754, col: 16, offset: 24049},
+																													pos: position{line: 754, col: 16, offset: 24081},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 754, col: 16, offset: 24049},
+																															pos:        position{line: 754, col: 16, offset: 24081},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 754, col: 23, offset: 24056},
+																															pos: position{line: 754, col: 23, offset: 24088},
 																															expr: &litMatcher{
-																																pos:        position{line: 754, col: 23, offset: 24056},
+																																pos:        position{line: 754, col: 23, offset: 24088},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -16774,12 +16774,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 8, offset: 24140},
+																											pos: position{line: 756, col: 8, offset: 24172},
 																											expr: &actionExpr{
-																												pos: position{line: 2896, col: 10, offset: 91577},
+																												pos: position{line: 2905, col: 10, offset: 91835},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2896, col: 10, offset: 91577},
+																													pos:        position{line: 2905, col: 10, offset: 91835},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -16788,28 +16788,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2918, col: 8, offset: 91975},
+																											pos: position{line: 2927, col: 8, offset: 92233},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2905, col: 12, offset: 91748},
+																													pos: position{line: 2914, col: 12, offset: 92006},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2905, col: 13, offset: 91749},
+																														pos: position{line: 2914, col: 13, offset: 92007},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 13, offset: 91749},
+																																pos:        position{line: 2914, col: 13, offset: 92007},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 20, offset: 91756},
+																																pos:        position{line: 2914, col: 20, offset: 92014},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 29, offset: 91765},
+																																pos:        position{line: 2914, col: 29, offset: 92023},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -16818,9 +16818,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2915, col: 8, offset: 91925},
+																													pos: position{line: 2924, col: 8, offset: 92183},
 																													expr: &anyMatcher{
-																														line: 2915, col: 9, offset: 91926,
+																														line: 2924, col: 9, offset: 92184,
 																													},
 																												},
 																											},
@@ -16830,45 +16830,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 847, col: 5, offset: 27180},
+																							pos: position{line: 847, col: 5, offset: 27212},
 																							run: (*parser).callonDocumentHeader73,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 854, col: 5, offset: 27338},
+																		pos:   position{line: 854, col: 5, offset: 27370},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 825, col: 5, offset: 26542},
+																			pos: position{line: 825, col: 5, offset: 26574},
 																			run: (*parser).callonDocumentHeader77,
 																			expr: &seqExpr{
-																				pos: position{line: 825, col: 5, offset: 26542},
+																				pos: position{line: 825, col: 5, offset: 26574},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2913, col: 11, offset: 91911},
+																						pos: position{line: 2922, col: 11, offset: 92169},
 																						expr: &anyMatcher{
-																							line: 2913, col: 13, offset: 91913,
+																							line: 2922, col: 13, offset: 92171,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 826, col: 5, offset: 26617},
+																						pos:   position{line: 826, col: 5, offset: 26649},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2842, col: 13, offset: 90103},
+																							pos: position{line: 2851, col: 13, offset: 90361},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2842, col: 13, offset: 90103},
+																									pos:        position{line: 2851, col: 13, offset: 90361},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16878,28 +16878,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2918, col: 8, offset: 91975},
+																						pos: position{line: 2927, col: 8, offset: 92233},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2905, col: 12, offset: 91748},
+																								pos: position{line: 2914, col: 12, offset: 92006},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2905, col: 13, offset: 91749},
+																									pos: position{line: 2914, col: 13, offset: 92007},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 13, offset: 91749},
+																											pos:        position{line: 2914, col: 13, offset: 92007},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 20, offset: 91756},
+																											pos:        position{line: 2914, col: 20, offset: 92014},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 29, offset: 91765},
+																											pos:        position{line: 2914, col: 29, offset: 92023},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16908,9 +16908,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2915, col: 8, offset: 91925},
+																								pos: position{line: 2924, col: 8, offset: 92183},
 																								expr: &anyMatcher{
-																									line: 2915, col: 9, offset: 91926,
+																									line: 2924, col: 9, offset: 92184,
 																								},
 																							},
 																						},
@@ -16925,44 +16925,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 839, col: 5, offset: 26943},
+													pos:   position{line: 839, col: 5, offset: 26975},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 839, col: 9, offset: 26947},
+														pos: position{line: 839, col: 9, offset: 26979},
 														expr: &choiceExpr{
-															pos: position{line: 846, col: 5, offset: 27149},
+															pos: position{line: 846, col: 5, offset: 27181},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 846, col: 5, offset: 27149},
+																	pos: position{line: 846, col: 5, offset: 27181},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 846, col: 5, offset: 27149},
+																			pos:   position{line: 846, col: 5, offset: 27181},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 5, offset: 24038},
+																				pos: position{line: 754, col: 5, offset: 24070},
 																				run: (*parser).callonDocumentHeader98,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 5, offset: 24038},
+																					pos: position{line: 754, col: 5, offset: 24070},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 754, col: 5, offset: 24038},
+																							pos:   position{line: 754, col: 5, offset: 24070},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 16, offset: 24049},
+																								pos: position{line: 754, col: 16, offset: 24081},
 																								run: (*parser).callonDocumentHeader101,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 16, offset: 24049},
+																									pos: position{line: 754, col: 16, offset: 24081},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 754, col: 16, offset: 24049},
+																											pos:        position{line: 754, col: 16, offset: 24081},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 754, col: 23, offset: 24056},
+																											pos: position{line: 754, col: 23, offset: 24088},
 																											expr: &litMatcher{
-																												pos:        position{line: 754, col: 23, offset: 24056},
+																												pos:        position{line: 754, col: 23, offset: 24088},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -16973,12 +16973,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 8, offset: 24140},
+																							pos: position{line: 756, col: 8, offset: 24172},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonDocumentHeader107,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -16987,28 +16987,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonDocumentHeader110,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -17017,9 +17017,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -17029,15 +17029,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 847, col: 5, offset: 27180},
+																			pos: position{line: 847, col: 5, offset: 27212},
 																			run: (*parser).callonDocumentHeader117,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2915, col: 8, offset: 91925},
+																	pos: position{line: 2924, col: 8, offset: 92183},
 																	expr: &anyMatcher{
-																		line: 2915, col: 9, offset: 91926,
+																		line: 2924, col: 9, offset: 92184,
 																	},
 																},
 															},
@@ -17051,49 +17051,49 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1131, col: 5, offset: 34760},
+							pos:   position{line: 1131, col: 5, offset: 34792},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1131, col: 12, offset: 34767},
+								pos:  position{line: 1131, col: 12, offset: 34799},
 								name: "DocumentTitle",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1132, col: 5, offset: 34786},
+							pos: position{line: 1132, col: 5, offset: 34818},
 							expr: &choiceExpr{
-								pos: position{line: 1132, col: 6, offset: 34787},
+								pos: position{line: 1132, col: 6, offset: 34819},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2497, col: 22, offset: 80337},
+										pos: position{line: 2497, col: 22, offset: 80369},
 										run: (*parser).callonDocumentHeader124,
 										expr: &seqExpr{
-											pos: position{line: 2497, col: 22, offset: 80337},
+											pos: position{line: 2497, col: 22, offset: 80369},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2502, col: 31, offset: 80558},
+													pos:        position{line: 2502, col: 31, offset: 80590},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2502, col: 36, offset: 80563},
+													pos: position{line: 2502, col: 36, offset: 80595},
 													expr: &litMatcher{
-														pos:        position{line: 2502, col: 37, offset: 80564},
+														pos:        position{line: 2502, col: 37, offset: 80596},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2497, col: 49, offset: 80364},
+													pos:   position{line: 2497, col: 49, offset: 80396},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2842, col: 13, offset: 90103},
+														pos: position{line: 2851, col: 13, offset: 90361},
 														run: (*parser).callonDocumentHeader130,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2842, col: 13, offset: 90103},
+															pos: position{line: 2851, col: 13, offset: 90361},
 															expr: &charClassMatcher{
-																pos:        position{line: 2842, col: 13, offset: 90103},
+																pos:        position{line: 2851, col: 13, offset: 90361},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17103,28 +17103,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2918, col: 8, offset: 91975},
+													pos: position{line: 2927, col: 8, offset: 92233},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2905, col: 12, offset: 91748},
+															pos: position{line: 2914, col: 12, offset: 92006},
 															run: (*parser).callonDocumentHeader134,
 															expr: &choiceExpr{
-																pos: position{line: 2905, col: 13, offset: 91749},
+																pos: position{line: 2914, col: 13, offset: 92007},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 13, offset: 91749},
+																		pos:        position{line: 2914, col: 13, offset: 92007},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 20, offset: 91756},
+																		pos:        position{line: 2914, col: 20, offset: 92014},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 29, offset: 91765},
+																		pos:        position{line: 2914, col: 29, offset: 92023},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17133,9 +17133,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2915, col: 8, offset: 91925},
+															pos: position{line: 2924, col: 8, offset: 92183},
 															expr: &anyMatcher{
-																line: 2915, col: 9, offset: 91926,
+																line: 2924, col: 9, offset: 92184,
 															},
 														},
 													},
@@ -17144,39 +17144,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 834, col: 5, offset: 26778},
+										pos: position{line: 834, col: 5, offset: 26810},
 										run: (*parser).callonDocumentHeader141,
 										expr: &seqExpr{
-											pos: position{line: 834, col: 5, offset: 26778},
+											pos: position{line: 834, col: 5, offset: 26810},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 834, col: 5, offset: 26778},
+													pos:   position{line: 834, col: 5, offset: 26810},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 754, col: 5, offset: 24038},
+														pos: position{line: 754, col: 5, offset: 24070},
 														run: (*parser).callonDocumentHeader144,
 														expr: &seqExpr{
-															pos: position{line: 754, col: 5, offset: 24038},
+															pos: position{line: 754, col: 5, offset: 24070},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 754, col: 5, offset: 24038},
+																	pos:   position{line: 754, col: 5, offset: 24070},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 754, col: 16, offset: 24049},
+																		pos: position{line: 754, col: 16, offset: 24081},
 																		run: (*parser).callonDocumentHeader147,
 																		expr: &seqExpr{
-																			pos: position{line: 754, col: 16, offset: 24049},
+																			pos: position{line: 754, col: 16, offset: 24081},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 754, col: 16, offset: 24049},
+																					pos:        position{line: 754, col: 16, offset: 24081},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 754, col: 23, offset: 24056},
+																					pos: position{line: 754, col: 23, offset: 24088},
 																					expr: &litMatcher{
-																						pos:        position{line: 754, col: 23, offset: 24056},
+																						pos:        position{line: 754, col: 23, offset: 24088},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -17187,12 +17187,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 756, col: 8, offset: 24140},
+																	pos: position{line: 756, col: 8, offset: 24172},
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 10, offset: 91577},
+																		pos: position{line: 2905, col: 10, offset: 91835},
 																		run: (*parser).callonDocumentHeader153,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 10, offset: 91577},
+																			pos:        position{line: 2905, col: 10, offset: 91835},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17201,28 +17201,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonDocumentHeader156,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17231,9 +17231,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -17243,56 +17243,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 835, col: 5, offset: 26817},
+													pos: position{line: 835, col: 5, offset: 26849},
 													run: (*parser).callonDocumentHeader163,
 												},
 												&labeledExpr{
-													pos:   position{line: 838, col: 5, offset: 26909},
+													pos:   position{line: 838, col: 5, offset: 26941},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 853, col: 5, offset: 27307},
+														pos: position{line: 853, col: 5, offset: 27339},
 														expr: &actionExpr{
-															pos: position{line: 853, col: 6, offset: 27308},
+															pos: position{line: 853, col: 6, offset: 27340},
 															run: (*parser).callonDocumentHeader166,
 															expr: &seqExpr{
-																pos: position{line: 853, col: 6, offset: 27308},
+																pos: position{line: 853, col: 6, offset: 27340},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 853, col: 6, offset: 27308},
+																		pos: position{line: 853, col: 6, offset: 27340},
 																		expr: &choiceExpr{
-																			pos: position{line: 846, col: 5, offset: 27149},
+																			pos: position{line: 846, col: 5, offset: 27181},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 846, col: 5, offset: 27149},
+																					pos: position{line: 846, col: 5, offset: 27181},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 846, col: 5, offset: 27149},
+																							pos:   position{line: 846, col: 5, offset: 27181},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 5, offset: 24038},
+																								pos: position{line: 754, col: 5, offset: 24070},
 																								run: (*parser).callonDocumentHeader172,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 5, offset: 24038},
+																									pos: position{line: 754, col: 5, offset: 24070},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 754, col: 5, offset: 24038},
+																											pos:   position{line: 754, col: 5, offset: 24070},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 754, col: 16, offset: 24049},
+																												pos: position{line: 754, col: 16, offset: 24081},
 																												run: (*parser).callonDocumentHeader175,
 																												expr: &seqExpr{
-																													pos: position{line: 754, col: 16, offset: 24049},
+																													pos: position{line: 754, col: 16, offset: 24081},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 754, col: 16, offset: 24049},
+																															pos:        position{line: 754, col: 16, offset: 24081},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 754, col: 23, offset: 24056},
+																															pos: position{line: 754, col: 23, offset: 24088},
 																															expr: &litMatcher{
-																																pos:        position{line: 754, col: 23, offset: 24056},
+																																pos:        position{line: 754, col: 23, offset: 24088},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -17303,12 +17303,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 8, offset: 24140},
+																											pos: position{line: 756, col: 8, offset: 24172},
 																											expr: &actionExpr{
-																												pos: position{line: 2896, col: 10, offset: 91577},
+																												pos: position{line: 2905, col: 10, offset: 91835},
 																												run: (*parser).callonDocumentHeader181,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2896, col: 10, offset: 91577},
+																													pos:        position{line: 2905, col: 10, offset: 91835},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17317,28 +17317,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2918, col: 8, offset: 91975},
+																											pos: position{line: 2927, col: 8, offset: 92233},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2905, col: 12, offset: 91748},
+																													pos: position{line: 2914, col: 12, offset: 92006},
 																													run: (*parser).callonDocumentHeader184,
 																													expr: &choiceExpr{
-																														pos: position{line: 2905, col: 13, offset: 91749},
+																														pos: position{line: 2914, col: 13, offset: 92007},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 13, offset: 91749},
+																																pos:        position{line: 2914, col: 13, offset: 92007},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 20, offset: 91756},
+																																pos:        position{line: 2914, col: 20, offset: 92014},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 29, offset: 91765},
+																																pos:        position{line: 2914, col: 29, offset: 92023},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17347,9 +17347,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2915, col: 8, offset: 91925},
+																													pos: position{line: 2924, col: 8, offset: 92183},
 																													expr: &anyMatcher{
-																														line: 2915, col: 9, offset: 91926,
+																														line: 2924, col: 9, offset: 92184,
 																													},
 																												},
 																											},
@@ -17359,45 +17359,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 847, col: 5, offset: 27180},
+																							pos: position{line: 847, col: 5, offset: 27212},
 																							run: (*parser).callonDocumentHeader191,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 854, col: 5, offset: 27338},
+																		pos:   position{line: 854, col: 5, offset: 27370},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 825, col: 5, offset: 26542},
+																			pos: position{line: 825, col: 5, offset: 26574},
 																			run: (*parser).callonDocumentHeader195,
 																			expr: &seqExpr{
-																				pos: position{line: 825, col: 5, offset: 26542},
+																				pos: position{line: 825, col: 5, offset: 26574},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2913, col: 11, offset: 91911},
+																						pos: position{line: 2922, col: 11, offset: 92169},
 																						expr: &anyMatcher{
-																							line: 2913, col: 13, offset: 91913,
+																							line: 2922, col: 13, offset: 92171,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 826, col: 5, offset: 26617},
+																						pos:   position{line: 826, col: 5, offset: 26649},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2842, col: 13, offset: 90103},
+																							pos: position{line: 2851, col: 13, offset: 90361},
 																							run: (*parser).callonDocumentHeader200,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2842, col: 13, offset: 90103},
+																									pos:        position{line: 2851, col: 13, offset: 90361},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17407,28 +17407,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2918, col: 8, offset: 91975},
+																						pos: position{line: 2927, col: 8, offset: 92233},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2905, col: 12, offset: 91748},
+																								pos: position{line: 2914, col: 12, offset: 92006},
 																								run: (*parser).callonDocumentHeader204,
 																								expr: &choiceExpr{
-																									pos: position{line: 2905, col: 13, offset: 91749},
+																									pos: position{line: 2914, col: 13, offset: 92007},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 13, offset: 91749},
+																											pos:        position{line: 2914, col: 13, offset: 92007},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 20, offset: 91756},
+																											pos:        position{line: 2914, col: 20, offset: 92014},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 29, offset: 91765},
+																											pos:        position{line: 2914, col: 29, offset: 92023},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17437,9 +17437,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2915, col: 8, offset: 91925},
+																								pos: position{line: 2924, col: 8, offset: 92183},
 																								expr: &anyMatcher{
-																									line: 2915, col: 9, offset: 91926,
+																									line: 2924, col: 9, offset: 92184,
 																								},
 																							},
 																						},
@@ -17454,44 +17454,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 839, col: 5, offset: 26943},
+													pos:   position{line: 839, col: 5, offset: 26975},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 839, col: 9, offset: 26947},
+														pos: position{line: 839, col: 9, offset: 26979},
 														expr: &choiceExpr{
-															pos: position{line: 846, col: 5, offset: 27149},
+															pos: position{line: 846, col: 5, offset: 27181},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 846, col: 5, offset: 27149},
+																	pos: position{line: 846, col: 5, offset: 27181},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 846, col: 5, offset: 27149},
+																			pos:   position{line: 846, col: 5, offset: 27181},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 5, offset: 24038},
+																				pos: position{line: 754, col: 5, offset: 24070},
 																				run: (*parser).callonDocumentHeader216,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 5, offset: 24038},
+																					pos: position{line: 754, col: 5, offset: 24070},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 754, col: 5, offset: 24038},
+																							pos:   position{line: 754, col: 5, offset: 24070},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 16, offset: 24049},
+																								pos: position{line: 754, col: 16, offset: 24081},
 																								run: (*parser).callonDocumentHeader219,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 16, offset: 24049},
+																									pos: position{line: 754, col: 16, offset: 24081},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 754, col: 16, offset: 24049},
+																											pos:        position{line: 754, col: 16, offset: 24081},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 754, col: 23, offset: 24056},
+																											pos: position{line: 754, col: 23, offset: 24088},
 																											expr: &litMatcher{
-																												pos:        position{line: 754, col: 23, offset: 24056},
+																												pos:        position{line: 754, col: 23, offset: 24088},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -17502,12 +17502,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 8, offset: 24140},
+																							pos: position{line: 756, col: 8, offset: 24172},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonDocumentHeader225,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -17516,28 +17516,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonDocumentHeader228,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -17546,9 +17546,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -17558,15 +17558,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 847, col: 5, offset: 27180},
+																			pos: position{line: 847, col: 5, offset: 27212},
 																			run: (*parser).callonDocumentHeader235,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2915, col: 8, offset: 91925},
+																	pos: position{line: 2924, col: 8, offset: 92183},
 																	expr: &anyMatcher{
-																		line: 2915, col: 9, offset: 91926,
+																		line: 2924, col: 9, offset: 92184,
 																	},
 																},
 															},
@@ -17580,41 +17580,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1133, col: 5, offset: 34883},
+							pos:   position{line: 1133, col: 5, offset: 34915},
 							label: "authorsAndRevision",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1133, col: 24, offset: 34902},
+								pos: position{line: 1133, col: 24, offset: 34934},
 								expr: &actionExpr{
-									pos: position{line: 1144, col: 5, offset: 35277},
+									pos: position{line: 1144, col: 5, offset: 35309},
 									run: (*parser).callonDocumentHeader240,
 									expr: &seqExpr{
-										pos: position{line: 1144, col: 5, offset: 35277},
+										pos: position{line: 1144, col: 5, offset: 35309},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1144, col: 5, offset: 35277},
+												pos: position{line: 1144, col: 5, offset: 35309},
 												expr: &litMatcher{
-													pos:        position{line: 1144, col: 6, offset: 35278},
+													pos:        position{line: 1144, col: 6, offset: 35310},
 													val:        ":",
 													ignoreCase: false,
 													want:       "\":\"",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1145, col: 5, offset: 35286},
+												pos:   position{line: 1145, col: 5, offset: 35318},
 												label: "authors",
 												expr: &actionExpr{
-													pos: position{line: 1151, col: 20, offset: 35542},
+													pos: position{line: 1151, col: 20, offset: 35574},
 													run: (*parser).callonDocumentHeader245,
 													expr: &seqExpr{
-														pos: position{line: 1151, col: 20, offset: 35542},
+														pos: position{line: 1151, col: 20, offset: 35574},
 														exprs: []interface{}{
 															&zeroOrMoreExpr{
-																pos: position{line: 1151, col: 20, offset: 35542},
+																pos: position{line: 1151, col: 20, offset: 35574},
 																expr: &actionExpr{
-																	pos: position{line: 2896, col: 10, offset: 91577},
+																	pos: position{line: 2905, col: 10, offset: 91835},
 																	run: (*parser).callonDocumentHeader248,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2896, col: 10, offset: 91577},
+																		pos:        position{line: 2905, col: 10, offset: 91835},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17623,37 +17623,37 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 1151, col: 27, offset: 35549},
+																pos:   position{line: 1151, col: 27, offset: 35581},
 																label: "authors",
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 1151, col: 36, offset: 35558},
+																	pos: position{line: 1151, col: 36, offset: 35590},
 																	expr: &actionExpr{
-																		pos: position{line: 1156, col: 5, offset: 35671},
+																		pos: position{line: 1156, col: 5, offset: 35703},
 																		run: (*parser).callonDocumentHeader252,
 																		expr: &seqExpr{
-																			pos: position{line: 1156, col: 5, offset: 35671},
+																			pos: position{line: 1156, col: 5, offset: 35703},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1156, col: 5, offset: 35671},
+																					pos:   position{line: 1156, col: 5, offset: 35703},
 																					label: "fullName",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1156, col: 14, offset: 35680},
+																						pos: position{line: 1156, col: 14, offset: 35712},
 																						expr: &actionExpr{
-																							pos: position{line: 1167, col: 5, offset: 36060},
+																							pos: position{line: 1167, col: 5, offset: 36092},
 																							run: (*parser).callonDocumentHeader256,
 																							expr: &seqExpr{
-																								pos: position{line: 1167, col: 5, offset: 36060},
+																								pos: position{line: 1167, col: 5, offset: 36092},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1167, col: 5, offset: 36060},
+																										pos:   position{line: 1167, col: 5, offset: 36092},
 																										label: "part1",
 																										expr: &actionExpr{
-																											pos: position{line: 1167, col: 12, offset: 36067},
+																											pos: position{line: 1167, col: 12, offset: 36099},
 																											run: (*parser).callonDocumentHeader259,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1167, col: 12, offset: 36067},
+																												pos: position{line: 1167, col: 12, offset: 36099},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1167, col: 12, offset: 36067},
+																													pos:        position{line: 1167, col: 12, offset: 36099},
 																													val:        "[^<;\\r\\n ]",
 																													chars:      []rune{'<', ';', '\r', '\n', ' '},
 																													ignoreCase: false,
@@ -17663,12 +17663,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1170, col: 5, offset: 36147},
+																										pos: position{line: 1170, col: 5, offset: 36179},
 																										expr: &actionExpr{
-																											pos: position{line: 2896, col: 10, offset: 91577},
+																											pos: position{line: 2905, col: 10, offset: 91835},
 																											run: (*parser).callonDocumentHeader263,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2896, col: 10, offset: 91577},
+																												pos:        position{line: 2905, col: 10, offset: 91835},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17677,17 +17677,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1171, col: 5, offset: 36158},
+																										pos:   position{line: 1171, col: 5, offset: 36190},
 																										label: "part2",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1171, col: 11, offset: 36164},
+																											pos: position{line: 1171, col: 11, offset: 36196},
 																											expr: &actionExpr{
-																												pos: position{line: 1171, col: 12, offset: 36165},
+																												pos: position{line: 1171, col: 12, offset: 36197},
 																												run: (*parser).callonDocumentHeader267,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1171, col: 12, offset: 36165},
+																													pos: position{line: 1171, col: 12, offset: 36197},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1171, col: 12, offset: 36165},
+																														pos:        position{line: 1171, col: 12, offset: 36197},
 																														val:        "[^<;\\r\\n ]",
 																														chars:      []rune{'<', ';', '\r', '\n', ' '},
 																														ignoreCase: false,
@@ -17698,12 +17698,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1174, col: 5, offset: 36246},
+																										pos: position{line: 1174, col: 5, offset: 36278},
 																										expr: &actionExpr{
-																											pos: position{line: 2896, col: 10, offset: 91577},
+																											pos: position{line: 2905, col: 10, offset: 91835},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2896, col: 10, offset: 91577},
+																												pos:        position{line: 2905, col: 10, offset: 91835},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17712,17 +17712,17 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1175, col: 5, offset: 36257},
+																										pos:   position{line: 1175, col: 5, offset: 36289},
 																										label: "part3",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 1175, col: 11, offset: 36263},
+																											pos: position{line: 1175, col: 11, offset: 36295},
 																											expr: &actionExpr{
-																												pos: position{line: 1175, col: 12, offset: 36264},
+																												pos: position{line: 1175, col: 12, offset: 36296},
 																												run: (*parser).callonDocumentHeader275,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1175, col: 12, offset: 36264},
+																													pos: position{line: 1175, col: 12, offset: 36296},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1175, col: 12, offset: 36264},
+																														pos:        position{line: 1175, col: 12, offset: 36296},
 																														val:        "[^<;\\r\\n]",
 																														chars:      []rune{'<', ';', '\r', '\n'},
 																														ignoreCase: false,
@@ -17733,12 +17733,12 @@ var g = &grammar{
 																										},
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 1178, col: 5, offset: 36343},
+																										pos: position{line: 1178, col: 5, offset: 36375},
 																										expr: &actionExpr{
-																											pos: position{line: 2896, col: 10, offset: 91577},
+																											pos: position{line: 2905, col: 10, offset: 91835},
 																											run: (*parser).callonDocumentHeader279,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2896, col: 10, offset: 91577},
+																												pos:        position{line: 2905, col: 10, offset: 91835},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17752,38 +17752,38 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1156, col: 40, offset: 35706},
+																					pos:   position{line: 1156, col: 40, offset: 35738},
 																					label: "email",
 																					expr: &zeroOrOneExpr{
-																						pos: position{line: 1156, col: 46, offset: 35712},
+																						pos: position{line: 1156, col: 46, offset: 35744},
 																						expr: &actionExpr{
-																							pos: position{line: 1184, col: 5, offset: 36465},
+																							pos: position{line: 1184, col: 5, offset: 36497},
 																							run: (*parser).callonDocumentHeader283,
 																							expr: &seqExpr{
-																								pos: position{line: 1184, col: 5, offset: 36465},
+																								pos: position{line: 1184, col: 5, offset: 36497},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2913, col: 11, offset: 91911},
+																										pos: position{line: 2922, col: 11, offset: 92169},
 																										expr: &anyMatcher{
-																											line: 2913, col: 13, offset: 91913,
+																											line: 2922, col: 13, offset: 92171,
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1185, col: 5, offset: 36477},
+																										pos:        position{line: 1185, col: 5, offset: 36509},
 																										val:        "<",
 																										ignoreCase: false,
 																										want:       "\"<\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 1186, col: 5, offset: 36486},
+																										pos:   position{line: 1186, col: 5, offset: 36518},
 																										label: "email",
 																										expr: &actionExpr{
-																											pos: position{line: 1186, col: 12, offset: 36493},
+																											pos: position{line: 1186, col: 12, offset: 36525},
 																											run: (*parser).callonDocumentHeader289,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1186, col: 13, offset: 36494},
+																												pos: position{line: 1186, col: 13, offset: 36526},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 1186, col: 13, offset: 36494},
+																													pos:        position{line: 1186, col: 13, offset: 36526},
 																													val:        "[^>\\r\\n]",
 																													chars:      []rune{'>', '\r', '\n'},
 																													ignoreCase: false,
@@ -17793,7 +17793,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 1189, col: 5, offset: 36554},
+																										pos:        position{line: 1189, col: 5, offset: 36586},
 																										val:        ">",
 																										ignoreCase: false,
 																										want:       "\">\"",
@@ -17804,12 +17804,12 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1156, col: 69, offset: 35735},
+																					pos: position{line: 1156, col: 69, offset: 35767},
 																					expr: &actionExpr{
-																						pos: position{line: 2896, col: 10, offset: 91577},
+																						pos: position{line: 2905, col: 10, offset: 91835},
 																						run: (*parser).callonDocumentHeader294,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2896, col: 10, offset: 91577},
+																							pos:        position{line: 2905, col: 10, offset: 91835},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17818,21 +17818,21 @@ var g = &grammar{
 																					},
 																				},
 																				&zeroOrOneExpr{
-																					pos: position{line: 1156, col: 76, offset: 35742},
+																					pos: position{line: 1156, col: 76, offset: 35774},
 																					expr: &litMatcher{
-																						pos:        position{line: 1156, col: 76, offset: 35742},
+																						pos:        position{line: 1156, col: 76, offset: 35774},
 																						val:        ";",
 																						ignoreCase: false,
 																						want:       "\";\"",
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1156, col: 81, offset: 35747},
+																					pos: position{line: 1156, col: 81, offset: 35779},
 																					expr: &actionExpr{
-																						pos: position{line: 2896, col: 10, offset: 91577},
+																						pos: position{line: 2905, col: 10, offset: 91835},
 																						run: (*parser).callonDocumentHeader299,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2896, col: 10, offset: 91577},
+																							pos:        position{line: 2905, col: 10, offset: 91835},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17841,7 +17841,7 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1157, col: 5, offset: 35759},
+																					pos: position{line: 1157, col: 5, offset: 35791},
 																					run: (*parser).callonDocumentHeader301,
 																				},
 																			},
@@ -17850,28 +17850,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2918, col: 8, offset: 91975},
+																pos: position{line: 2927, col: 8, offset: 92233},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2905, col: 12, offset: 91748},
+																		pos: position{line: 2914, col: 12, offset: 92006},
 																		run: (*parser).callonDocumentHeader303,
 																		expr: &choiceExpr{
-																			pos: position{line: 2905, col: 13, offset: 91749},
+																			pos: position{line: 2914, col: 13, offset: 92007},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2905, col: 13, offset: 91749},
+																					pos:        position{line: 2914, col: 13, offset: 92007},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2905, col: 20, offset: 91756},
+																					pos:        position{line: 2914, col: 20, offset: 92014},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2905, col: 29, offset: 91765},
+																					pos:        position{line: 2914, col: 29, offset: 92023},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17880,9 +17880,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2915, col: 8, offset: 91925},
+																		pos: position{line: 2924, col: 8, offset: 92183},
 																		expr: &anyMatcher{
-																			line: 2915, col: 9, offset: 91926,
+																			line: 2924, col: 9, offset: 92184,
 																		},
 																	},
 																},
@@ -17892,41 +17892,41 @@ var g = &grammar{
 												},
 											},
 											&zeroOrMoreExpr{
-												pos: position{line: 1146, col: 5, offset: 35316},
+												pos: position{line: 1146, col: 5, offset: 35348},
 												expr: &choiceExpr{
-													pos: position{line: 1146, col: 6, offset: 35317},
+													pos: position{line: 1146, col: 6, offset: 35349},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2497, col: 22, offset: 80337},
+															pos: position{line: 2497, col: 22, offset: 80369},
 															run: (*parser).callonDocumentHeader312,
 															expr: &seqExpr{
-																pos: position{line: 2497, col: 22, offset: 80337},
+																pos: position{line: 2497, col: 22, offset: 80369},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2502, col: 31, offset: 80558},
+																		pos:        position{line: 2502, col: 31, offset: 80590},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2502, col: 36, offset: 80563},
+																		pos: position{line: 2502, col: 36, offset: 80595},
 																		expr: &litMatcher{
-																			pos:        position{line: 2502, col: 37, offset: 80564},
+																			pos:        position{line: 2502, col: 37, offset: 80596},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2497, col: 49, offset: 80364},
+																		pos:   position{line: 2497, col: 49, offset: 80396},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2842, col: 13, offset: 90103},
+																			pos: position{line: 2851, col: 13, offset: 90361},
 																			run: (*parser).callonDocumentHeader318,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2842, col: 13, offset: 90103},
+																				pos: position{line: 2851, col: 13, offset: 90361},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2842, col: 13, offset: 90103},
+																					pos:        position{line: 2851, col: 13, offset: 90361},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17936,28 +17936,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2918, col: 8, offset: 91975},
+																		pos: position{line: 2927, col: 8, offset: 92233},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2905, col: 12, offset: 91748},
+																				pos: position{line: 2914, col: 12, offset: 92006},
 																				run: (*parser).callonDocumentHeader322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 13, offset: 91749},
+																					pos: position{line: 2914, col: 13, offset: 92007},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 13, offset: 91749},
+																							pos:        position{line: 2914, col: 13, offset: 92007},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 20, offset: 91756},
+																							pos:        position{line: 2914, col: 20, offset: 92014},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 29, offset: 91765},
+																							pos:        position{line: 2914, col: 29, offset: 92023},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17966,9 +17966,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2915, col: 8, offset: 91925},
+																				pos: position{line: 2924, col: 8, offset: 92183},
 																				expr: &anyMatcher{
-																					line: 2915, col: 9, offset: 91926,
+																					line: 2924, col: 9, offset: 92184,
 																				},
 																			},
 																		},
@@ -17977,39 +17977,39 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 834, col: 5, offset: 26778},
+															pos: position{line: 834, col: 5, offset: 26810},
 															run: (*parser).callonDocumentHeader329,
 															expr: &seqExpr{
-																pos: position{line: 834, col: 5, offset: 26778},
+																pos: position{line: 834, col: 5, offset: 26810},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 834, col: 5, offset: 26778},
+																		pos:   position{line: 834, col: 5, offset: 26810},
 																		label: "start",
 																		expr: &actionExpr{
-																			pos: position{line: 754, col: 5, offset: 24038},
+																			pos: position{line: 754, col: 5, offset: 24070},
 																			run: (*parser).callonDocumentHeader332,
 																			expr: &seqExpr{
-																				pos: position{line: 754, col: 5, offset: 24038},
+																				pos: position{line: 754, col: 5, offset: 24070},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 754, col: 5, offset: 24038},
+																						pos:   position{line: 754, col: 5, offset: 24070},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 754, col: 16, offset: 24049},
+																							pos: position{line: 754, col: 16, offset: 24081},
 																							run: (*parser).callonDocumentHeader335,
 																							expr: &seqExpr{
-																								pos: position{line: 754, col: 16, offset: 24049},
+																								pos: position{line: 754, col: 16, offset: 24081},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 754, col: 16, offset: 24049},
+																										pos:        position{line: 754, col: 16, offset: 24081},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 754, col: 23, offset: 24056},
+																										pos: position{line: 754, col: 23, offset: 24088},
 																										expr: &litMatcher{
-																											pos:        position{line: 754, col: 23, offset: 24056},
+																											pos:        position{line: 754, col: 23, offset: 24088},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -18020,12 +18020,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 756, col: 8, offset: 24140},
+																						pos: position{line: 756, col: 8, offset: 24172},
 																						expr: &actionExpr{
-																							pos: position{line: 2896, col: 10, offset: 91577},
+																							pos: position{line: 2905, col: 10, offset: 91835},
 																							run: (*parser).callonDocumentHeader341,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2896, col: 10, offset: 91577},
+																								pos:        position{line: 2905, col: 10, offset: 91835},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -18034,28 +18034,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2918, col: 8, offset: 91975},
+																						pos: position{line: 2927, col: 8, offset: 92233},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2905, col: 12, offset: 91748},
+																								pos: position{line: 2914, col: 12, offset: 92006},
 																								run: (*parser).callonDocumentHeader344,
 																								expr: &choiceExpr{
-																									pos: position{line: 2905, col: 13, offset: 91749},
+																									pos: position{line: 2914, col: 13, offset: 92007},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 13, offset: 91749},
+																											pos:        position{line: 2914, col: 13, offset: 92007},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 20, offset: 91756},
+																											pos:        position{line: 2914, col: 20, offset: 92014},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 29, offset: 91765},
+																											pos:        position{line: 2914, col: 29, offset: 92023},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -18064,9 +18064,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2915, col: 8, offset: 91925},
+																								pos: position{line: 2924, col: 8, offset: 92183},
 																								expr: &anyMatcher{
-																									line: 2915, col: 9, offset: 91926,
+																									line: 2924, col: 9, offset: 92184,
 																								},
 																							},
 																						},
@@ -18076,56 +18076,56 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 835, col: 5, offset: 26817},
+																		pos: position{line: 835, col: 5, offset: 26849},
 																		run: (*parser).callonDocumentHeader351,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 838, col: 5, offset: 26909},
+																		pos:   position{line: 838, col: 5, offset: 26941},
 																		label: "content",
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 853, col: 5, offset: 27307},
+																			pos: position{line: 853, col: 5, offset: 27339},
 																			expr: &actionExpr{
-																				pos: position{line: 853, col: 6, offset: 27308},
+																				pos: position{line: 853, col: 6, offset: 27340},
 																				run: (*parser).callonDocumentHeader354,
 																				expr: &seqExpr{
-																					pos: position{line: 853, col: 6, offset: 27308},
+																					pos: position{line: 853, col: 6, offset: 27340},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 853, col: 6, offset: 27308},
+																							pos: position{line: 853, col: 6, offset: 27340},
 																							expr: &choiceExpr{
-																								pos: position{line: 846, col: 5, offset: 27149},
+																								pos: position{line: 846, col: 5, offset: 27181},
 																								alternatives: []interface{}{
 																									&seqExpr{
-																										pos: position{line: 846, col: 5, offset: 27149},
+																										pos: position{line: 846, col: 5, offset: 27181},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 846, col: 5, offset: 27149},
+																												pos:   position{line: 846, col: 5, offset: 27181},
 																												label: "end",
 																												expr: &actionExpr{
-																													pos: position{line: 754, col: 5, offset: 24038},
+																													pos: position{line: 754, col: 5, offset: 24070},
 																													run: (*parser).callonDocumentHeader360,
 																													expr: &seqExpr{
-																														pos: position{line: 754, col: 5, offset: 24038},
+																														pos: position{line: 754, col: 5, offset: 24070},
 																														exprs: []interface{}{
 																															&labeledExpr{
-																																pos:   position{line: 754, col: 5, offset: 24038},
+																																pos:   position{line: 754, col: 5, offset: 24070},
 																																label: "delimiter",
 																																expr: &actionExpr{
-																																	pos: position{line: 754, col: 16, offset: 24049},
+																																	pos: position{line: 754, col: 16, offset: 24081},
 																																	run: (*parser).callonDocumentHeader363,
 																																	expr: &seqExpr{
-																																		pos: position{line: 754, col: 16, offset: 24049},
+																																		pos: position{line: 754, col: 16, offset: 24081},
 																																		exprs: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 754, col: 16, offset: 24049},
+																																				pos:        position{line: 754, col: 16, offset: 24081},
 																																				val:        "////",
 																																				ignoreCase: false,
 																																				want:       "\"////\"",
 																																			},
 																																			&zeroOrMoreExpr{
-																																				pos: position{line: 754, col: 23, offset: 24056},
+																																				pos: position{line: 754, col: 23, offset: 24088},
 																																				expr: &litMatcher{
-																																					pos:        position{line: 754, col: 23, offset: 24056},
+																																					pos:        position{line: 754, col: 23, offset: 24088},
 																																					val:        "/",
 																																					ignoreCase: false,
 																																					want:       "\"/\"",
@@ -18136,12 +18136,12 @@ var g = &grammar{
 																																},
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 756, col: 8, offset: 24140},
+																																pos: position{line: 756, col: 8, offset: 24172},
 																																expr: &actionExpr{
-																																	pos: position{line: 2896, col: 10, offset: 91577},
+																																	pos: position{line: 2905, col: 10, offset: 91835},
 																																	run: (*parser).callonDocumentHeader369,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2896, col: 10, offset: 91577},
+																																		pos:        position{line: 2905, col: 10, offset: 91835},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -18150,28 +18150,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2918, col: 8, offset: 91975},
+																																pos: position{line: 2927, col: 8, offset: 92233},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2905, col: 12, offset: 91748},
+																																		pos: position{line: 2914, col: 12, offset: 92006},
 																																		run: (*parser).callonDocumentHeader372,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2905, col: 13, offset: 91749},
+																																			pos: position{line: 2914, col: 13, offset: 92007},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2905, col: 13, offset: 91749},
+																																					pos:        position{line: 2914, col: 13, offset: 92007},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2905, col: 20, offset: 91756},
+																																					pos:        position{line: 2914, col: 20, offset: 92014},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2905, col: 29, offset: 91765},
+																																					pos:        position{line: 2914, col: 29, offset: 92023},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -18180,9 +18180,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2915, col: 8, offset: 91925},
+																																		pos: position{line: 2924, col: 8, offset: 92183},
 																																		expr: &anyMatcher{
-																																			line: 2915, col: 9, offset: 91926,
+																																			line: 2924, col: 9, offset: 92184,
 																																		},
 																																	},
 																																},
@@ -18192,45 +18192,45 @@ var g = &grammar{
 																												},
 																											},
 																											&andCodeExpr{
-																												pos: position{line: 847, col: 5, offset: 27180},
+																												pos: position{line: 847, col: 5, offset: 27212},
 																												run: (*parser).callonDocumentHeader379,
 																											},
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2915, col: 8, offset: 91925},
+																										pos: position{line: 2924, col: 8, offset: 92183},
 																										expr: &anyMatcher{
-																											line: 2915, col: 9, offset: 91926,
+																											line: 2924, col: 9, offset: 92184,
 																										},
 																									},
 																								},
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 854, col: 5, offset: 27338},
+																							pos:   position{line: 854, col: 5, offset: 27370},
 																							label: "line",
 																							expr: &actionExpr{
-																								pos: position{line: 825, col: 5, offset: 26542},
+																								pos: position{line: 825, col: 5, offset: 26574},
 																								run: (*parser).callonDocumentHeader383,
 																								expr: &seqExpr{
-																									pos: position{line: 825, col: 5, offset: 26542},
+																									pos: position{line: 825, col: 5, offset: 26574},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2913, col: 11, offset: 91911},
+																											pos: position{line: 2922, col: 11, offset: 92169},
 																											expr: &anyMatcher{
-																												line: 2913, col: 13, offset: 91913,
+																												line: 2922, col: 13, offset: 92171,
 																											},
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 826, col: 5, offset: 26617},
+																											pos:   position{line: 826, col: 5, offset: 26649},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2842, col: 13, offset: 90103},
+																												pos: position{line: 2851, col: 13, offset: 90361},
 																												run: (*parser).callonDocumentHeader388,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2842, col: 13, offset: 90103},
+																													pos: position{line: 2851, col: 13, offset: 90361},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2842, col: 13, offset: 90103},
+																														pos:        position{line: 2851, col: 13, offset: 90361},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18240,28 +18240,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2918, col: 8, offset: 91975},
+																											pos: position{line: 2927, col: 8, offset: 92233},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2905, col: 12, offset: 91748},
+																													pos: position{line: 2914, col: 12, offset: 92006},
 																													run: (*parser).callonDocumentHeader392,
 																													expr: &choiceExpr{
-																														pos: position{line: 2905, col: 13, offset: 91749},
+																														pos: position{line: 2914, col: 13, offset: 92007},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 13, offset: 91749},
+																																pos:        position{line: 2914, col: 13, offset: 92007},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 20, offset: 91756},
+																																pos:        position{line: 2914, col: 20, offset: 92014},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 29, offset: 91765},
+																																pos:        position{line: 2914, col: 29, offset: 92023},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18270,9 +18270,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2915, col: 8, offset: 91925},
+																													pos: position{line: 2924, col: 8, offset: 92183},
 																													expr: &anyMatcher{
-																														line: 2915, col: 9, offset: 91926,
+																														line: 2924, col: 9, offset: 92184,
 																													},
 																												},
 																											},
@@ -18287,44 +18287,44 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 839, col: 5, offset: 26943},
+																		pos:   position{line: 839, col: 5, offset: 26975},
 																		label: "end",
 																		expr: &zeroOrOneExpr{
-																			pos: position{line: 839, col: 9, offset: 26947},
+																			pos: position{line: 839, col: 9, offset: 26979},
 																			expr: &choiceExpr{
-																				pos: position{line: 846, col: 5, offset: 27149},
+																				pos: position{line: 846, col: 5, offset: 27181},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 846, col: 5, offset: 27149},
+																						pos: position{line: 846, col: 5, offset: 27181},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 846, col: 5, offset: 27149},
+																								pos:   position{line: 846, col: 5, offset: 27181},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 5, offset: 24038},
+																									pos: position{line: 754, col: 5, offset: 24070},
 																									run: (*parser).callonDocumentHeader404,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 5, offset: 24038},
+																										pos: position{line: 754, col: 5, offset: 24070},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 754, col: 5, offset: 24038},
+																												pos:   position{line: 754, col: 5, offset: 24070},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 754, col: 16, offset: 24049},
+																													pos: position{line: 754, col: 16, offset: 24081},
 																													run: (*parser).callonDocumentHeader407,
 																													expr: &seqExpr{
-																														pos: position{line: 754, col: 16, offset: 24049},
+																														pos: position{line: 754, col: 16, offset: 24081},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 754, col: 16, offset: 24049},
+																																pos:        position{line: 754, col: 16, offset: 24081},
 																																val:        "////",
 																																ignoreCase: false,
 																																want:       "\"////\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 754, col: 23, offset: 24056},
+																																pos: position{line: 754, col: 23, offset: 24088},
 																																expr: &litMatcher{
-																																	pos:        position{line: 754, col: 23, offset: 24056},
+																																	pos:        position{line: 754, col: 23, offset: 24088},
 																																	val:        "/",
 																																	ignoreCase: false,
 																																	want:       "\"/\"",
@@ -18335,12 +18335,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 756, col: 8, offset: 24140},
+																												pos: position{line: 756, col: 8, offset: 24172},
 																												expr: &actionExpr{
-																													pos: position{line: 2896, col: 10, offset: 91577},
+																													pos: position{line: 2905, col: 10, offset: 91835},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2896, col: 10, offset: 91577},
+																														pos:        position{line: 2905, col: 10, offset: 91835},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -18349,28 +18349,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2918, col: 8, offset: 91975},
+																												pos: position{line: 2927, col: 8, offset: 92233},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2905, col: 12, offset: 91748},
+																														pos: position{line: 2914, col: 12, offset: 92006},
 																														run: (*parser).callonDocumentHeader416,
 																														expr: &choiceExpr{
-																															pos: position{line: 2905, col: 13, offset: 91749},
+																															pos: position{line: 2914, col: 13, offset: 92007},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 13, offset: 91749},
+																																	pos:        position{line: 2914, col: 13, offset: 92007},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 20, offset: 91756},
+																																	pos:        position{line: 2914, col: 20, offset: 92014},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 29, offset: 91765},
+																																	pos:        position{line: 2914, col: 29, offset: 92023},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -18379,9 +18379,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2915, col: 8, offset: 91925},
+																														pos: position{line: 2924, col: 8, offset: 92183},
 																														expr: &anyMatcher{
-																															line: 2915, col: 9, offset: 91926,
+																															line: 2924, col: 9, offset: 92184,
 																														},
 																													},
 																												},
@@ -18391,15 +18391,15 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 847, col: 5, offset: 27180},
+																								pos: position{line: 847, col: 5, offset: 27212},
 																								run: (*parser).callonDocumentHeader423,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2915, col: 8, offset: 91925},
+																						pos: position{line: 2924, col: 8, offset: 92183},
 																						expr: &anyMatcher{
-																							line: 2915, col: 9, offset: 91926,
+																							line: 2924, col: 9, offset: 92184,
 																						},
 																					},
 																				},
@@ -18413,23 +18413,23 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1147, col: 5, offset: 35391},
+												pos:   position{line: 1147, col: 5, offset: 35423},
 												label: "revision",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 1147, col: 14, offset: 35400},
+													pos: position{line: 1147, col: 14, offset: 35432},
 													expr: &actionExpr{
-														pos: position{line: 1195, col: 21, offset: 36743},
+														pos: position{line: 1195, col: 21, offset: 36775},
 														run: (*parser).callonDocumentHeader428,
 														expr: &seqExpr{
-															pos: position{line: 1195, col: 21, offset: 36743},
+															pos: position{line: 1195, col: 21, offset: 36775},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1195, col: 21, offset: 36743},
+																	pos: position{line: 1195, col: 21, offset: 36775},
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 10, offset: 91577},
+																		pos: position{line: 2905, col: 10, offset: 91835},
 																		run: (*parser).callonDocumentHeader431,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 10, offset: 91577},
+																			pos:        position{line: 2905, col: 10, offset: 91835},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18438,55 +18438,55 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1195, col: 28, offset: 36750},
+																	pos: position{line: 1195, col: 28, offset: 36782},
 																	expr: &litMatcher{
-																		pos:        position{line: 1195, col: 29, offset: 36751},
+																		pos:        position{line: 1195, col: 29, offset: 36783},
 																		val:        ":",
 																		ignoreCase: false,
 																		want:       "\":\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1195, col: 33, offset: 36755},
+																	pos:   position{line: 1195, col: 33, offset: 36787},
 																	label: "revision",
 																	expr: &choiceExpr{
-																		pos: position{line: 1196, col: 9, offset: 36774},
+																		pos: position{line: 1196, col: 9, offset: 36806},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1196, col: 10, offset: 36775},
+																				pos: position{line: 1196, col: 10, offset: 36807},
 																				run: (*parser).callonDocumentHeader437,
 																				expr: &seqExpr{
-																					pos: position{line: 1196, col: 10, offset: 36775},
+																					pos: position{line: 1196, col: 10, offset: 36807},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1196, col: 10, offset: 36775},
+																							pos:   position{line: 1196, col: 10, offset: 36807},
 																							label: "revnumber",
 																							expr: &choiceExpr{
-																								pos: position{line: 1205, col: 27, offset: 37292},
+																								pos: position{line: 1205, col: 27, offset: 37324},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1205, col: 27, offset: 37292},
+																										pos: position{line: 1205, col: 27, offset: 37324},
 																										run: (*parser).callonDocumentHeader441,
 																										expr: &seqExpr{
-																											pos: position{line: 1205, col: 27, offset: 37292},
+																											pos: position{line: 1205, col: 27, offset: 37324},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 1205, col: 27, offset: 37292},
+																													pos:        position{line: 1205, col: 27, offset: 37324},
 																													val:        "v",
 																													ignoreCase: true,
 																													want:       "\"v\"i",
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1205, col: 32, offset: 37297},
+																													pos:        position{line: 1205, col: 32, offset: 37329},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1205, col: 38, offset: 37303},
+																													pos: position{line: 1205, col: 38, offset: 37335},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1205, col: 38, offset: 37303},
+																														pos:        position{line: 1205, col: 38, offset: 37335},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18497,31 +18497,31 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1207, col: 5, offset: 37351},
+																										pos: position{line: 1207, col: 5, offset: 37383},
 																										run: (*parser).callonDocumentHeader447,
 																										expr: &seqExpr{
-																											pos: position{line: 1207, col: 5, offset: 37351},
+																											pos: position{line: 1207, col: 5, offset: 37383},
 																											exprs: []interface{}{
 																												&zeroOrOneExpr{
-																													pos: position{line: 1207, col: 5, offset: 37351},
+																													pos: position{line: 1207, col: 5, offset: 37383},
 																													expr: &litMatcher{
-																														pos:        position{line: 1207, col: 5, offset: 37351},
+																														pos:        position{line: 1207, col: 5, offset: 37383},
 																														val:        "v",
 																														ignoreCase: true,
 																														want:       "\"v\"i",
 																													},
 																												},
 																												&charClassMatcher{
-																													pos:        position{line: 1207, col: 11, offset: 37357},
+																													pos:        position{line: 1207, col: 11, offset: 37389},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&oneOrMoreExpr{
-																													pos: position{line: 1207, col: 17, offset: 37363},
+																													pos: position{line: 1207, col: 17, offset: 37395},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1207, col: 17, offset: 37363},
+																														pos:        position{line: 1207, col: 17, offset: 37395},
 																														val:        "[^:,\\r\\n]",
 																														chars:      []rune{':', ',', '\r', '\n'},
 																														ignoreCase: false,
@@ -18529,12 +18529,12 @@ var g = &grammar{
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 1207, col: 28, offset: 37374},
+																													pos: position{line: 1207, col: 28, offset: 37406},
 																													expr: &actionExpr{
-																														pos: position{line: 2896, col: 10, offset: 91577},
+																														pos: position{line: 2905, col: 10, offset: 91835},
 																														run: (*parser).callonDocumentHeader455,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2896, col: 10, offset: 91577},
+																															pos:        position{line: 2905, col: 10, offset: 91835},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18543,9 +18543,9 @@ var g = &grammar{
 																													},
 																												},
 																												&andExpr{
-																													pos: position{line: 1207, col: 35, offset: 37381},
+																													pos: position{line: 1207, col: 35, offset: 37413},
 																													expr: &litMatcher{
-																														pos:        position{line: 1207, col: 36, offset: 37382},
+																														pos:        position{line: 1207, col: 36, offset: 37414},
 																														val:        ",",
 																														ignoreCase: false,
 																														want:       "\",\"",
@@ -18558,26 +18558,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1196, col: 45, offset: 36810},
+																							pos: position{line: 1196, col: 45, offset: 36842},
 																							expr: &litMatcher{
-																								pos:        position{line: 1196, col: 45, offset: 36810},
+																								pos:        position{line: 1196, col: 45, offset: 36842},
 																								val:        ",",
 																								ignoreCase: false,
 																								want:       "\",\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1196, col: 50, offset: 36815},
+																							pos:   position{line: 1196, col: 50, offset: 36847},
 																							label: "revdate",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1196, col: 58, offset: 36823},
+																								pos: position{line: 1196, col: 58, offset: 36855},
 																								expr: &actionExpr{
-																									pos: position{line: 1211, col: 25, offset: 37446},
+																									pos: position{line: 1211, col: 25, offset: 37478},
 																									run: (*parser).callonDocumentHeader463,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1211, col: 25, offset: 37446},
+																										pos: position{line: 1211, col: 25, offset: 37478},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1211, col: 25, offset: 37446},
+																											pos:        position{line: 1211, col: 25, offset: 37478},
 																											val:        "[^:\\r\\n]",
 																											chars:      []rune{':', '\r', '\n'},
 																											ignoreCase: false,
@@ -18588,26 +18588,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1196, col: 82, offset: 36847},
+																							pos: position{line: 1196, col: 82, offset: 36879},
 																							expr: &litMatcher{
-																								pos:        position{line: 1196, col: 82, offset: 36847},
+																								pos:        position{line: 1196, col: 82, offset: 36879},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1196, col: 87, offset: 36852},
+																							pos:   position{line: 1196, col: 87, offset: 36884},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1196, col: 97, offset: 36862},
+																								pos: position{line: 1196, col: 97, offset: 36894},
 																								expr: &actionExpr{
-																									pos: position{line: 1215, col: 27, offset: 37518},
+																									pos: position{line: 1215, col: 27, offset: 37550},
 																									run: (*parser).callonDocumentHeader470,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1215, col: 27, offset: 37518},
+																										pos: position{line: 1215, col: 27, offset: 37550},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1215, col: 27, offset: 37518},
+																											pos:        position{line: 1215, col: 27, offset: 37550},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18621,21 +18621,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1198, col: 15, offset: 36980},
+																				pos: position{line: 1198, col: 15, offset: 37012},
 																				run: (*parser).callonDocumentHeader473,
 																				expr: &seqExpr{
-																					pos: position{line: 1198, col: 15, offset: 36980},
+																					pos: position{line: 1198, col: 15, offset: 37012},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1198, col: 15, offset: 36980},
+																							pos:   position{line: 1198, col: 15, offset: 37012},
 																							label: "revdate",
 																							expr: &actionExpr{
-																								pos: position{line: 1211, col: 25, offset: 37446},
+																								pos: position{line: 1211, col: 25, offset: 37478},
 																								run: (*parser).callonDocumentHeader476,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1211, col: 25, offset: 37446},
+																									pos: position{line: 1211, col: 25, offset: 37478},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1211, col: 25, offset: 37446},
+																										pos:        position{line: 1211, col: 25, offset: 37478},
 																										val:        "[^:\\r\\n]",
 																										chars:      []rune{':', '\r', '\n'},
 																										ignoreCase: false,
@@ -18645,26 +18645,26 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrOneExpr{
-																							pos: position{line: 1198, col: 46, offset: 37011},
+																							pos: position{line: 1198, col: 46, offset: 37043},
 																							expr: &litMatcher{
-																								pos:        position{line: 1198, col: 46, offset: 37011},
+																								pos:        position{line: 1198, col: 46, offset: 37043},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1198, col: 51, offset: 37016},
+																							pos:   position{line: 1198, col: 51, offset: 37048},
 																							label: "revremark",
 																							expr: &zeroOrOneExpr{
-																								pos: position{line: 1198, col: 61, offset: 37026},
+																								pos: position{line: 1198, col: 61, offset: 37058},
 																								expr: &actionExpr{
-																									pos: position{line: 1215, col: 27, offset: 37518},
+																									pos: position{line: 1215, col: 27, offset: 37550},
 																									run: (*parser).callonDocumentHeader483,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1215, col: 27, offset: 37518},
+																										pos: position{line: 1215, col: 27, offset: 37550},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1215, col: 27, offset: 37518},
+																											pos:        position{line: 1215, col: 27, offset: 37550},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -18681,28 +18681,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonDocumentHeader487,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18711,9 +18711,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -18729,15 +18729,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1134, col: 5, offset: 34937},
+							pos:   position{line: 1134, col: 5, offset: 34969},
 							label: "extraElements",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1134, col: 19, offset: 34951},
+								pos: position{line: 1134, col: 19, offset: 34983},
 								expr: &choiceExpr{
-									pos: position{line: 1134, col: 20, offset: 34952},
+									pos: position{line: 1134, col: 20, offset: 34984},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 1134, col: 20, offset: 34952},
+											pos:  position{line: 1134, col: 20, offset: 34984},
 											name: "AttributeDeclaration",
 										},
 										&actionExpr{
@@ -18793,10 +18793,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 367, col: 49, offset: 11183},
 														expr: &actionExpr{
-															pos: position{line: 2896, col: 10, offset: 91577},
+															pos: position{line: 2905, col: 10, offset: 91835},
 															run: (*parser).callonDocumentHeader509,
 															expr: &charClassMatcher{
-																pos:        position{line: 2896, col: 10, offset: 91577},
+																pos:        position{line: 2905, col: 10, offset: 91835},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18805,28 +18805,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2918, col: 8, offset: 91975},
+														pos: position{line: 2927, col: 8, offset: 92233},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2905, col: 12, offset: 91748},
+																pos: position{line: 2914, col: 12, offset: 92006},
 																run: (*parser).callonDocumentHeader512,
 																expr: &choiceExpr{
-																	pos: position{line: 2905, col: 13, offset: 91749},
+																	pos: position{line: 2914, col: 13, offset: 92007},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 13, offset: 91749},
+																			pos:        position{line: 2914, col: 13, offset: 92007},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 20, offset: 91756},
+																			pos:        position{line: 2914, col: 20, offset: 92014},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 29, offset: 91765},
+																			pos:        position{line: 2914, col: 29, offset: 92023},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18835,9 +18835,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2915, col: 8, offset: 91925},
+																pos: position{line: 2924, col: 8, offset: 92183},
 																expr: &anyMatcher{
-																	line: 2915, col: 9, offset: 91926,
+																	line: 2924, col: 9, offset: 92184,
 																},
 															},
 														},
@@ -18898,10 +18898,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 369, col: 39, offset: 11304},
 														expr: &actionExpr{
-															pos: position{line: 2896, col: 10, offset: 91577},
+															pos: position{line: 2905, col: 10, offset: 91835},
 															run: (*parser).callonDocumentHeader530,
 															expr: &charClassMatcher{
-																pos:        position{line: 2896, col: 10, offset: 91577},
+																pos:        position{line: 2905, col: 10, offset: 91835},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18910,28 +18910,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2918, col: 8, offset: 91975},
+														pos: position{line: 2927, col: 8, offset: 92233},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2905, col: 12, offset: 91748},
+																pos: position{line: 2914, col: 12, offset: 92006},
 																run: (*parser).callonDocumentHeader533,
 																expr: &choiceExpr{
-																	pos: position{line: 2905, col: 13, offset: 91749},
+																	pos: position{line: 2914, col: 13, offset: 92007},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 13, offset: 91749},
+																			pos:        position{line: 2914, col: 13, offset: 92007},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 20, offset: 91756},
+																			pos:        position{line: 2914, col: 20, offset: 92014},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 29, offset: 91765},
+																			pos:        position{line: 2914, col: 29, offset: 92023},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18940,9 +18940,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2915, col: 8, offset: 91925},
+																pos: position{line: 2924, col: 8, offset: 92183},
 																expr: &anyMatcher{
-																	line: 2915, col: 9, offset: 91926,
+																	line: 2924, col: 9, offset: 92184,
 																},
 															},
 														},
@@ -18951,36 +18951,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2497, col: 22, offset: 80337},
+											pos: position{line: 2497, col: 22, offset: 80369},
 											run: (*parser).callonDocumentHeader540,
 											expr: &seqExpr{
-												pos: position{line: 2497, col: 22, offset: 80337},
+												pos: position{line: 2497, col: 22, offset: 80369},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2502, col: 31, offset: 80558},
+														pos:        position{line: 2502, col: 31, offset: 80590},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2502, col: 36, offset: 80563},
+														pos: position{line: 2502, col: 36, offset: 80595},
 														expr: &litMatcher{
-															pos:        position{line: 2502, col: 37, offset: 80564},
+															pos:        position{line: 2502, col: 37, offset: 80596},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2497, col: 49, offset: 80364},
+														pos:   position{line: 2497, col: 49, offset: 80396},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2842, col: 13, offset: 90103},
+															pos: position{line: 2851, col: 13, offset: 90361},
 															run: (*parser).callonDocumentHeader546,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2842, col: 13, offset: 90103},
+																pos: position{line: 2851, col: 13, offset: 90361},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2842, col: 13, offset: 90103},
+																	pos:        position{line: 2851, col: 13, offset: 90361},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18990,28 +18990,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2918, col: 8, offset: 91975},
+														pos: position{line: 2927, col: 8, offset: 92233},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2905, col: 12, offset: 91748},
+																pos: position{line: 2914, col: 12, offset: 92006},
 																run: (*parser).callonDocumentHeader550,
 																expr: &choiceExpr{
-																	pos: position{line: 2905, col: 13, offset: 91749},
+																	pos: position{line: 2914, col: 13, offset: 92007},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 13, offset: 91749},
+																			pos:        position{line: 2914, col: 13, offset: 92007},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 20, offset: 91756},
+																			pos:        position{line: 2914, col: 20, offset: 92014},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 29, offset: 91765},
+																			pos:        position{line: 2914, col: 29, offset: 92023},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19020,9 +19020,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2915, col: 8, offset: 91925},
+																pos: position{line: 2924, col: 8, offset: 92183},
 																expr: &anyMatcher{
-																	line: 2915, col: 9, offset: 91926,
+																	line: 2924, col: 9, offset: 92184,
 																},
 															},
 														},
@@ -19031,39 +19031,39 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 834, col: 5, offset: 26778},
+											pos: position{line: 834, col: 5, offset: 26810},
 											run: (*parser).callonDocumentHeader557,
 											expr: &seqExpr{
-												pos: position{line: 834, col: 5, offset: 26778},
+												pos: position{line: 834, col: 5, offset: 26810},
 												exprs: []interface{}{
 													&labeledExpr{
-														pos:   position{line: 834, col: 5, offset: 26778},
+														pos:   position{line: 834, col: 5, offset: 26810},
 														label: "start",
 														expr: &actionExpr{
-															pos: position{line: 754, col: 5, offset: 24038},
+															pos: position{line: 754, col: 5, offset: 24070},
 															run: (*parser).callonDocumentHeader560,
 															expr: &seqExpr{
-																pos: position{line: 754, col: 5, offset: 24038},
+																pos: position{line: 754, col: 5, offset: 24070},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 754, col: 5, offset: 24038},
+																		pos:   position{line: 754, col: 5, offset: 24070},
 																		label: "delimiter",
 																		expr: &actionExpr{
-																			pos: position{line: 754, col: 16, offset: 24049},
+																			pos: position{line: 754, col: 16, offset: 24081},
 																			run: (*parser).callonDocumentHeader563,
 																			expr: &seqExpr{
-																				pos: position{line: 754, col: 16, offset: 24049},
+																				pos: position{line: 754, col: 16, offset: 24081},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 754, col: 16, offset: 24049},
+																						pos:        position{line: 754, col: 16, offset: 24081},
 																						val:        "////",
 																						ignoreCase: false,
 																						want:       "\"////\"",
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 754, col: 23, offset: 24056},
+																						pos: position{line: 754, col: 23, offset: 24088},
 																						expr: &litMatcher{
-																							pos:        position{line: 754, col: 23, offset: 24056},
+																							pos:        position{line: 754, col: 23, offset: 24088},
 																							val:        "/",
 																							ignoreCase: false,
 																							want:       "\"/\"",
@@ -19074,12 +19074,12 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 756, col: 8, offset: 24140},
+																		pos: position{line: 756, col: 8, offset: 24172},
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 10, offset: 91577},
+																			pos: position{line: 2905, col: 10, offset: 91835},
 																			run: (*parser).callonDocumentHeader569,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 10, offset: 91577},
+																				pos:        position{line: 2905, col: 10, offset: 91835},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -19088,28 +19088,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2918, col: 8, offset: 91975},
+																		pos: position{line: 2927, col: 8, offset: 92233},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2905, col: 12, offset: 91748},
+																				pos: position{line: 2914, col: 12, offset: 92006},
 																				run: (*parser).callonDocumentHeader572,
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 13, offset: 91749},
+																					pos: position{line: 2914, col: 13, offset: 92007},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 13, offset: 91749},
+																							pos:        position{line: 2914, col: 13, offset: 92007},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 20, offset: 91756},
+																							pos:        position{line: 2914, col: 20, offset: 92014},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 29, offset: 91765},
+																							pos:        position{line: 2914, col: 29, offset: 92023},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -19118,9 +19118,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2915, col: 8, offset: 91925},
+																				pos: position{line: 2924, col: 8, offset: 92183},
 																				expr: &anyMatcher{
-																					line: 2915, col: 9, offset: 91926,
+																					line: 2924, col: 9, offset: 92184,
 																				},
 																			},
 																		},
@@ -19130,56 +19130,56 @@ var g = &grammar{
 														},
 													},
 													&andCodeExpr{
-														pos: position{line: 835, col: 5, offset: 26817},
+														pos: position{line: 835, col: 5, offset: 26849},
 														run: (*parser).callonDocumentHeader579,
 													},
 													&labeledExpr{
-														pos:   position{line: 838, col: 5, offset: 26909},
+														pos:   position{line: 838, col: 5, offset: 26941},
 														label: "content",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 853, col: 5, offset: 27307},
+															pos: position{line: 853, col: 5, offset: 27339},
 															expr: &actionExpr{
-																pos: position{line: 853, col: 6, offset: 27308},
+																pos: position{line: 853, col: 6, offset: 27340},
 																run: (*parser).callonDocumentHeader582,
 																expr: &seqExpr{
-																	pos: position{line: 853, col: 6, offset: 27308},
+																	pos: position{line: 853, col: 6, offset: 27340},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 853, col: 6, offset: 27308},
+																			pos: position{line: 853, col: 6, offset: 27340},
 																			expr: &choiceExpr{
-																				pos: position{line: 846, col: 5, offset: 27149},
+																				pos: position{line: 846, col: 5, offset: 27181},
 																				alternatives: []interface{}{
 																					&seqExpr{
-																						pos: position{line: 846, col: 5, offset: 27149},
+																						pos: position{line: 846, col: 5, offset: 27181},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 846, col: 5, offset: 27149},
+																								pos:   position{line: 846, col: 5, offset: 27181},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 5, offset: 24038},
+																									pos: position{line: 754, col: 5, offset: 24070},
 																									run: (*parser).callonDocumentHeader588,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 5, offset: 24038},
+																										pos: position{line: 754, col: 5, offset: 24070},
 																										exprs: []interface{}{
 																											&labeledExpr{
-																												pos:   position{line: 754, col: 5, offset: 24038},
+																												pos:   position{line: 754, col: 5, offset: 24070},
 																												label: "delimiter",
 																												expr: &actionExpr{
-																													pos: position{line: 754, col: 16, offset: 24049},
+																													pos: position{line: 754, col: 16, offset: 24081},
 																													run: (*parser).callonDocumentHeader591,
 																													expr: &seqExpr{
-																														pos: position{line: 754, col: 16, offset: 24049},
+																														pos: position{line: 754, col: 16, offset: 24081},
 																														exprs: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 754, col: 16, offset: 24049},
+																																pos:        position{line: 754, col: 16, offset: 24081},
 																																val:        "////",
 																																ignoreCase: false,
 																																want:       "\"////\"",
 																															},
 																															&zeroOrMoreExpr{
-																																pos: position{line: 754, col: 23, offset: 24056},
+																																pos: position{line: 754, col: 23, offset: 24088},
 																																expr: &litMatcher{
-																																	pos:        position{line: 754, col: 23, offset: 24056},
+																																	pos:        position{line: 754, col: 23, offset: 24088},
 																																	val:        "/",
 																																	ignoreCase: false,
 																																	want:       "\"/\"",
@@ -19190,12 +19190,12 @@ var g = &grammar{
 																												},
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 756, col: 8, offset: 24140},
+																												pos: position{line: 756, col: 8, offset: 24172},
 																												expr: &actionExpr{
-																													pos: position{line: 2896, col: 10, offset: 91577},
+																													pos: position{line: 2905, col: 10, offset: 91835},
 																													run: (*parser).callonDocumentHeader597,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2896, col: 10, offset: 91577},
+																														pos:        position{line: 2905, col: 10, offset: 91835},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -19204,28 +19204,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2918, col: 8, offset: 91975},
+																												pos: position{line: 2927, col: 8, offset: 92233},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2905, col: 12, offset: 91748},
+																														pos: position{line: 2914, col: 12, offset: 92006},
 																														run: (*parser).callonDocumentHeader600,
 																														expr: &choiceExpr{
-																															pos: position{line: 2905, col: 13, offset: 91749},
+																															pos: position{line: 2914, col: 13, offset: 92007},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 13, offset: 91749},
+																																	pos:        position{line: 2914, col: 13, offset: 92007},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 20, offset: 91756},
+																																	pos:        position{line: 2914, col: 20, offset: 92014},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2905, col: 29, offset: 91765},
+																																	pos:        position{line: 2914, col: 29, offset: 92023},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -19234,9 +19234,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2915, col: 8, offset: 91925},
+																														pos: position{line: 2924, col: 8, offset: 92183},
 																														expr: &anyMatcher{
-																															line: 2915, col: 9, offset: 91926,
+																															line: 2924, col: 9, offset: 92184,
 																														},
 																													},
 																												},
@@ -19246,45 +19246,45 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 847, col: 5, offset: 27180},
+																								pos: position{line: 847, col: 5, offset: 27212},
 																								run: (*parser).callonDocumentHeader607,
 																							},
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2915, col: 8, offset: 91925},
+																						pos: position{line: 2924, col: 8, offset: 92183},
 																						expr: &anyMatcher{
-																							line: 2915, col: 9, offset: 91926,
+																							line: 2924, col: 9, offset: 92184,
 																						},
 																					},
 																				},
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 854, col: 5, offset: 27338},
+																			pos:   position{line: 854, col: 5, offset: 27370},
 																			label: "line",
 																			expr: &actionExpr{
-																				pos: position{line: 825, col: 5, offset: 26542},
+																				pos: position{line: 825, col: 5, offset: 26574},
 																				run: (*parser).callonDocumentHeader611,
 																				expr: &seqExpr{
-																					pos: position{line: 825, col: 5, offset: 26542},
+																					pos: position{line: 825, col: 5, offset: 26574},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2913, col: 11, offset: 91911},
+																							pos: position{line: 2922, col: 11, offset: 92169},
 																							expr: &anyMatcher{
-																								line: 2913, col: 13, offset: 91913,
+																								line: 2922, col: 13, offset: 92171,
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 826, col: 5, offset: 26617},
+																							pos:   position{line: 826, col: 5, offset: 26649},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								run: (*parser).callonDocumentHeader616,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2842, col: 13, offset: 90103},
+																									pos: position{line: 2851, col: 13, offset: 90361},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2842, col: 13, offset: 90103},
+																										pos:        position{line: 2851, col: 13, offset: 90361},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19294,28 +19294,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonDocumentHeader620,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19324,9 +19324,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -19341,44 +19341,44 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 839, col: 5, offset: 26943},
+														pos:   position{line: 839, col: 5, offset: 26975},
 														label: "end",
 														expr: &zeroOrOneExpr{
-															pos: position{line: 839, col: 9, offset: 26947},
+															pos: position{line: 839, col: 9, offset: 26979},
 															expr: &choiceExpr{
-																pos: position{line: 846, col: 5, offset: 27149},
+																pos: position{line: 846, col: 5, offset: 27181},
 																alternatives: []interface{}{
 																	&seqExpr{
-																		pos: position{line: 846, col: 5, offset: 27149},
+																		pos: position{line: 846, col: 5, offset: 27181},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 846, col: 5, offset: 27149},
+																				pos:   position{line: 846, col: 5, offset: 27181},
 																				label: "end",
 																				expr: &actionExpr{
-																					pos: position{line: 754, col: 5, offset: 24038},
+																					pos: position{line: 754, col: 5, offset: 24070},
 																					run: (*parser).callonDocumentHeader632,
 																					expr: &seqExpr{
-																						pos: position{line: 754, col: 5, offset: 24038},
+																						pos: position{line: 754, col: 5, offset: 24070},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 754, col: 5, offset: 24038},
+																								pos:   position{line: 754, col: 5, offset: 24070},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 754, col: 16, offset: 24049},
+																									pos: position{line: 754, col: 16, offset: 24081},
 																									run: (*parser).callonDocumentHeader635,
 																									expr: &seqExpr{
-																										pos: position{line: 754, col: 16, offset: 24049},
+																										pos: position{line: 754, col: 16, offset: 24081},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 754, col: 16, offset: 24049},
+																												pos:        position{line: 754, col: 16, offset: 24081},
 																												val:        "////",
 																												ignoreCase: false,
 																												want:       "\"////\"",
 																											},
 																											&zeroOrMoreExpr{
-																												pos: position{line: 754, col: 23, offset: 24056},
+																												pos: position{line: 754, col: 23, offset: 24088},
 																												expr: &litMatcher{
-																													pos:        position{line: 754, col: 23, offset: 24056},
+																													pos:        position{line: 754, col: 23, offset: 24088},
 																													val:        "/",
 																													ignoreCase: false,
 																													want:       "\"/\"",
@@ -19389,12 +19389,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 756, col: 8, offset: 24140},
+																								pos: position{line: 756, col: 8, offset: 24172},
 																								expr: &actionExpr{
-																									pos: position{line: 2896, col: 10, offset: 91577},
+																									pos: position{line: 2905, col: 10, offset: 91835},
 																									run: (*parser).callonDocumentHeader641,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2896, col: 10, offset: 91577},
+																										pos:        position{line: 2905, col: 10, offset: 91835},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -19403,28 +19403,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2918, col: 8, offset: 91975},
+																								pos: position{line: 2927, col: 8, offset: 92233},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2905, col: 12, offset: 91748},
+																										pos: position{line: 2914, col: 12, offset: 92006},
 																										run: (*parser).callonDocumentHeader644,
 																										expr: &choiceExpr{
-																											pos: position{line: 2905, col: 13, offset: 91749},
+																											pos: position{line: 2914, col: 13, offset: 92007},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 13, offset: 91749},
+																													pos:        position{line: 2914, col: 13, offset: 92007},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 20, offset: 91756},
+																													pos:        position{line: 2914, col: 20, offset: 92014},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 29, offset: 91765},
+																													pos:        position{line: 2914, col: 29, offset: 92023},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -19433,9 +19433,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2915, col: 8, offset: 91925},
+																										pos: position{line: 2924, col: 8, offset: 92183},
 																										expr: &anyMatcher{
-																											line: 2915, col: 9, offset: 91926,
+																											line: 2924, col: 9, offset: 92184,
 																										},
 																									},
 																								},
@@ -19445,15 +19445,15 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 847, col: 5, offset: 27180},
+																				pos: position{line: 847, col: 5, offset: 27212},
 																				run: (*parser).callonDocumentHeader651,
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2915, col: 8, offset: 91925},
+																		pos: position{line: 2924, col: 8, offset: 92183},
 																		expr: &anyMatcher{
-																			line: 2915, col: 9, offset: 91926,
+																			line: 2924, col: 9, offset: 92184,
 																		},
 																	},
 																},
@@ -19473,26 +19473,26 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentTitle",
-			pos:  position{line: 1138, col: 1, offset: 35149},
+			pos:  position{line: 1138, col: 1, offset: 35181},
 			expr: &actionExpr{
-				pos: position{line: 1139, col: 5, offset: 35171},
+				pos: position{line: 1139, col: 5, offset: 35203},
 				run: (*parser).callonDocumentTitle1,
 				expr: &seqExpr{
-					pos: position{line: 1139, col: 5, offset: 35171},
+					pos: position{line: 1139, col: 5, offset: 35203},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1139, col: 5, offset: 35171},
+							pos:        position{line: 1139, col: 5, offset: 35203},
 							val:        "=",
 							ignoreCase: false,
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2900, col: 11, offset: 91638},
+							pos: position{line: 2909, col: 11, offset: 91896},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2900, col: 11, offset: 91638},
+								pos: position{line: 2909, col: 11, offset: 91896},
 								expr: &charClassMatcher{
-									pos:        position{line: 2900, col: 11, offset: 91638},
+									pos:        position{line: 2909, col: 11, offset: 91896},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19501,36 +19501,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1139, col: 16, offset: 35182},
+							pos:   position{line: 1139, col: 16, offset: 35214},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1139, col: 23, offset: 35189},
+								pos:  position{line: 1139, col: 23, offset: 35221},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2918, col: 8, offset: 91975},
+							pos: position{line: 2927, col: 8, offset: 92233},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2905, col: 12, offset: 91748},
+									pos: position{line: 2914, col: 12, offset: 92006},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2905, col: 13, offset: 91749},
+										pos: position{line: 2914, col: 13, offset: 92007},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2905, col: 13, offset: 91749},
+												pos:        position{line: 2914, col: 13, offset: 92007},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2905, col: 20, offset: 91756},
+												pos:        position{line: 2914, col: 20, offset: 92014},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2905, col: 29, offset: 91765},
+												pos:        position{line: 2914, col: 29, offset: 92023},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19539,9 +19539,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2915, col: 8, offset: 91925},
+									pos: position{line: 2924, col: 8, offset: 92183},
 									expr: &anyMatcher{
-										line: 2915, col: 9, offset: 91926,
+										line: 2924, col: 9, offset: 92184,
 									},
 								},
 							},
@@ -19552,23 +19552,23 @@ var g = &grammar{
 		},
 		{
 			name: "DocumentAuthorFullName",
-			pos:  position{line: 1166, col: 1, offset: 36029},
+			pos:  position{line: 1166, col: 1, offset: 36061},
 			expr: &actionExpr{
-				pos: position{line: 1167, col: 5, offset: 36060},
+				pos: position{line: 1167, col: 5, offset: 36092},
 				run: (*parser).callonDocumentAuthorFullName1,
 				expr: &seqExpr{
-					pos: position{line: 1167, col: 5, offset: 36060},
+					pos: position{line: 1167, col: 5, offset: 36092},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1167, col: 5, offset: 36060},
+							pos:   position{line: 1167, col: 5, offset: 36092},
 							label: "part1",
 							expr: &actionExpr{
-								pos: position{line: 1167, col: 12, offset: 36067},
+								pos: position{line: 1167, col: 12, offset: 36099},
 								run: (*parser).callonDocumentAuthorFullName4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1167, col: 12, offset: 36067},
+									pos: position{line: 1167, col: 12, offset: 36099},
 									expr: &charClassMatcher{
-										pos:        position{line: 1167, col: 12, offset: 36067},
+										pos:        position{line: 1167, col: 12, offset: 36099},
 										val:        "[^<;\\r\\n ]",
 										chars:      []rune{'<', ';', '\r', '\n', ' '},
 										ignoreCase: false,
@@ -19578,12 +19578,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1170, col: 5, offset: 36147},
+							pos: position{line: 1170, col: 5, offset: 36179},
 							expr: &actionExpr{
-								pos: position{line: 2896, col: 10, offset: 91577},
+								pos: position{line: 2905, col: 10, offset: 91835},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2896, col: 10, offset: 91577},
+									pos:        position{line: 2905, col: 10, offset: 91835},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19592,17 +19592,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1171, col: 5, offset: 36158},
+							pos:   position{line: 1171, col: 5, offset: 36190},
 							label: "part2",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1171, col: 11, offset: 36164},
+								pos: position{line: 1171, col: 11, offset: 36196},
 								expr: &actionExpr{
-									pos: position{line: 1171, col: 12, offset: 36165},
+									pos: position{line: 1171, col: 12, offset: 36197},
 									run: (*parser).callonDocumentAuthorFullName12,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1171, col: 12, offset: 36165},
+										pos: position{line: 1171, col: 12, offset: 36197},
 										expr: &charClassMatcher{
-											pos:        position{line: 1171, col: 12, offset: 36165},
+											pos:        position{line: 1171, col: 12, offset: 36197},
 											val:        "[^<;\\r\\n ]",
 											chars:      []rune{'<', ';', '\r', '\n', ' '},
 											ignoreCase: false,
@@ -19613,12 +19613,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1174, col: 5, offset: 36246},
+							pos: position{line: 1174, col: 5, offset: 36278},
 							expr: &actionExpr{
-								pos: position{line: 2896, col: 10, offset: 91577},
+								pos: position{line: 2905, col: 10, offset: 91835},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2896, col: 10, offset: 91577},
+									pos:        position{line: 2905, col: 10, offset: 91835},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19627,17 +19627,17 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1175, col: 5, offset: 36257},
+							pos:   position{line: 1175, col: 5, offset: 36289},
 							label: "part3",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1175, col: 11, offset: 36263},
+								pos: position{line: 1175, col: 11, offset: 36295},
 								expr: &actionExpr{
-									pos: position{line: 1175, col: 12, offset: 36264},
+									pos: position{line: 1175, col: 12, offset: 36296},
 									run: (*parser).callonDocumentAuthorFullName20,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 1175, col: 12, offset: 36264},
+										pos: position{line: 1175, col: 12, offset: 36296},
 										expr: &charClassMatcher{
-											pos:        position{line: 1175, col: 12, offset: 36264},
+											pos:        position{line: 1175, col: 12, offset: 36296},
 											val:        "[^<;\\r\\n]",
 											chars:      []rune{'<', ';', '\r', '\n'},
 											ignoreCase: false,
@@ -19648,12 +19648,12 @@ var g = &grammar{
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1178, col: 5, offset: 36343},
+							pos: position{line: 1178, col: 5, offset: 36375},
 							expr: &actionExpr{
-								pos: position{line: 2896, col: 10, offset: 91577},
+								pos: position{line: 2905, col: 10, offset: 91835},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2896, col: 10, offset: 91577},
+									pos:        position{line: 2905, col: 10, offset: 91835},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19667,28 +19667,28 @@ var g = &grammar{
 		},
 		{
 			name: "InlineButton",
-			pos:  position{line: 1291, col: 1, offset: 40072},
+			pos:  position{line: 1291, col: 1, offset: 40104},
 			expr: &actionExpr{
-				pos: position{line: 1292, col: 5, offset: 40093},
+				pos: position{line: 1292, col: 5, offset: 40125},
 				run: (*parser).callonInlineButton1,
 				expr: &seqExpr{
-					pos: position{line: 1292, col: 5, offset: 40093},
+					pos: position{line: 1292, col: 5, offset: 40125},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1292, col: 5, offset: 40093},
+							pos: position{line: 1292, col: 5, offset: 40125},
 							run: (*parser).callonInlineButton3,
 						},
 						&litMatcher{
-							pos:        position{line: 1295, col: 5, offset: 40152},
+							pos:        position{line: 1295, col: 5, offset: 40184},
 							val:        "btn:",
 							ignoreCase: false,
 							want:       "\"btn:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1295, col: 12, offset: 40159},
+							pos:   position{line: 1295, col: 12, offset: 40191},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1295, col: 24, offset: 40171},
+								pos:  position{line: 1295, col: 24, offset: 40203},
 								name: "InlineAttributes",
 							},
 						},
@@ -19698,33 +19698,33 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMenu",
-			pos:  position{line: 1302, col: 1, offset: 40459},
+			pos:  position{line: 1302, col: 1, offset: 40491},
 			expr: &actionExpr{
-				pos: position{line: 1303, col: 5, offset: 40478},
+				pos: position{line: 1303, col: 5, offset: 40510},
 				run: (*parser).callonInlineMenu1,
 				expr: &seqExpr{
-					pos: position{line: 1303, col: 5, offset: 40478},
+					pos: position{line: 1303, col: 5, offset: 40510},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1303, col: 5, offset: 40478},
+							pos: position{line: 1303, col: 5, offset: 40510},
 							run: (*parser).callonInlineMenu3,
 						},
 						&litMatcher{
-							pos:        position{line: 1306, col: 5, offset: 40537},
+							pos:        position{line: 1306, col: 5, offset: 40569},
 							val:        "menu:",
 							ignoreCase: false,
 							want:       "\"menu:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1306, col: 13, offset: 40545},
+							pos:   position{line: 1306, col: 13, offset: 40577},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2881, col: 7, offset: 91229},
+								pos: position{line: 2890, col: 7, offset: 91487},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2881, col: 7, offset: 91229},
+									pos: position{line: 2890, col: 7, offset: 91487},
 									expr: &charClassMatcher{
-										pos:        position{line: 2881, col: 7, offset: 91229},
+										pos:        position{line: 2890, col: 7, offset: 91487},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19734,10 +19734,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1306, col: 21, offset: 40553},
+							pos:   position{line: 1306, col: 21, offset: 40585},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1306, col: 33, offset: 40565},
+								pos:  position{line: 1306, col: 33, offset: 40597},
 								name: "InlineAttributes",
 							},
 						},
@@ -19747,29 +19747,29 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTerm",
-			pos:  position{line: 1313, col: 1, offset: 40864},
+			pos:  position{line: 1313, col: 1, offset: 40896},
 			expr: &actionExpr{
-				pos: position{line: 1313, col: 14, offset: 40877},
+				pos: position{line: 1313, col: 14, offset: 40909},
 				run: (*parser).callonIndexTerm1,
 				expr: &seqExpr{
-					pos: position{line: 1313, col: 14, offset: 40877},
+					pos: position{line: 1313, col: 14, offset: 40909},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1313, col: 14, offset: 40877},
+							pos:        position{line: 1313, col: 14, offset: 40909},
 							val:        "((",
 							ignoreCase: false,
 							want:       "\"((\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1313, col: 19, offset: 40882},
+							pos:   position{line: 1313, col: 19, offset: 40914},
 							label: "term",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1313, col: 25, offset: 40888},
+								pos:  position{line: 1313, col: 25, offset: 40920},
 								name: "IndexTermContent",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1313, col: 43, offset: 40906},
+							pos:        position{line: 1313, col: 43, offset: 40938},
 							val:        "))",
 							ignoreCase: false,
 							want:       "\"))\"",
@@ -19780,25 +19780,25 @@ var g = &grammar{
 		},
 		{
 			name: "IndexTermContent",
-			pos:  position{line: 1317, col: 1, offset: 40975},
+			pos:  position{line: 1317, col: 1, offset: 41007},
 			expr: &actionExpr{
-				pos: position{line: 1317, col: 21, offset: 40995},
+				pos: position{line: 1317, col: 21, offset: 41027},
 				run: (*parser).callonIndexTermContent1,
 				expr: &labeledExpr{
-					pos:   position{line: 1317, col: 21, offset: 40995},
+					pos:   position{line: 1317, col: 21, offset: 41027},
 					label: "elements",
 					expr: &oneOrMoreExpr{
-						pos: position{line: 1317, col: 30, offset: 41004},
+						pos: position{line: 1317, col: 30, offset: 41036},
 						expr: &choiceExpr{
-							pos: position{line: 1317, col: 31, offset: 41005},
+							pos: position{line: 1317, col: 31, offset: 41037},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2790, col: 14, offset: 88746},
+									pos: position{line: 2799, col: 14, offset: 89004},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2790, col: 14, offset: 88746},
+										pos: position{line: 2799, col: 14, offset: 89004},
 										expr: &charClassMatcher{
-											pos:        position{line: 2790, col: 14, offset: 88746},
+											pos:        position{line: 2799, col: 14, offset: 89004},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19807,14 +19807,14 @@ var g = &grammar{
 									},
 								},
 								&ruleRefExpr{
-									pos:  position{line: 1317, col: 43, offset: 41017},
+									pos:  position{line: 1317, col: 43, offset: 41049},
 									name: "QuotedText",
 								},
 								&actionExpr{
-									pos: position{line: 2896, col: 10, offset: 91577},
+									pos: position{line: 2905, col: 10, offset: 91835},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2896, col: 10, offset: 91577},
+										pos:        position{line: 2905, col: 10, offset: 91835},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19822,23 +19822,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2484, col: 5, offset: 79883},
+									pos: position{line: 2484, col: 5, offset: 79915},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2484, col: 5, offset: 79883},
+										pos: position{line: 2484, col: 5, offset: 79915},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2484, col: 5, offset: 79883},
+												pos: position{line: 2484, col: 5, offset: 79915},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2487, col: 5, offset: 79959},
+												pos:   position{line: 2487, col: 5, offset: 79991},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2488, col: 9, offset: 79977},
+													pos: position{line: 2488, col: 9, offset: 80009},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2488, col: 10, offset: 79978},
+														pos:        position{line: 2488, col: 10, offset: 80010},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19850,27 +19850,27 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1224, col: 23, offset: 37828},
+									pos: position{line: 1224, col: 23, offset: 37860},
 									run: (*parser).callonIndexTermContent17,
 									expr: &seqExpr{
-										pos: position{line: 1224, col: 23, offset: 37828},
+										pos: position{line: 1224, col: 23, offset: 37860},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 1222, col: 32, offset: 37796},
+												pos:        position{line: 1222, col: 32, offset: 37828},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
 											},
 											&labeledExpr{
-												pos:   position{line: 1224, col: 51, offset: 37856},
+												pos:   position{line: 1224, col: 51, offset: 37888},
 												label: "ref",
 												expr: &actionExpr{
-													pos: position{line: 1224, col: 56, offset: 37861},
+													pos: position{line: 1224, col: 56, offset: 37893},
 													run: (*parser).callonIndexTermContent21,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1224, col: 56, offset: 37861},
+														pos: position{line: 1224, col: 56, offset: 37893},
 														expr: &charClassMatcher{
-															pos:        position{line: 1224, col: 56, offset: 37861},
+															pos:        position{line: 1224, col: 56, offset: 37893},
 															val:        "[0-9]",
 															ranges:     []rune{'0', '9'},
 															ignoreCase: false,
@@ -19880,7 +19880,7 @@ var g = &grammar{
 												},
 											},
 											&litMatcher{
-												pos:        position{line: 1222, col: 32, offset: 37796},
+												pos:        position{line: 1222, col: 32, offset: 37828},
 												val:        "�",
 												ignoreCase: false,
 												want:       "\"�\"",
@@ -19889,22 +19889,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1317, col: 104, offset: 41078},
+									pos: position{line: 1317, col: 104, offset: 41110},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1317, col: 105, offset: 41079},
+										pos: position{line: 1317, col: 105, offset: 41111},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1317, col: 105, offset: 41079},
+												pos: position{line: 1317, col: 105, offset: 41111},
 												expr: &litMatcher{
-													pos:        position{line: 1317, col: 106, offset: 41080},
+													pos:        position{line: 1317, col: 106, offset: 41112},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1317, col: 111, offset: 41085,
+												line: 1317, col: 111, offset: 41117,
 											},
 										},
 									},
@@ -19917,65 +19917,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1337, col: 1, offset: 41794},
+			pos:  position{line: 1337, col: 1, offset: 41826},
 			expr: &actionExpr{
-				pos: position{line: 1338, col: 5, offset: 41813},
+				pos: position{line: 1338, col: 5, offset: 41845},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1338, col: 5, offset: 41813},
+					pos: position{line: 1338, col: 5, offset: 41845},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1338, col: 5, offset: 41813},
+							pos:        position{line: 1338, col: 5, offset: 41845},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1338, col: 15, offset: 41823},
+							pos:   position{line: 1338, col: 15, offset: 41855},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2854, col: 13, offset: 90336},
+								pos: position{line: 2863, col: 13, offset: 90594},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2854, col: 13, offset: 90336},
+									pos: position{line: 2863, col: 13, offset: 90594},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2854, col: 13, offset: 90336},
+											pos:   position{line: 2863, col: 13, offset: 90594},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2854, col: 20, offset: 90343},
+												pos: position{line: 2863, col: 20, offset: 90601},
 												expr: &actionExpr{
-													pos: position{line: 2862, col: 11, offset: 90582},
+													pos: position{line: 2871, col: 11, offset: 90840},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2862, col: 12, offset: 90583},
+														pos: position{line: 2871, col: 12, offset: 90841},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2862, col: 12, offset: 90583},
+																pos:        position{line: 2871, col: 12, offset: 90841},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2862, col: 24, offset: 90595},
+																pos:        position{line: 2871, col: 24, offset: 90853},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2862, col: 37, offset: 90608},
+																pos:        position{line: 2871, col: 37, offset: 90866},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2862, col: 48, offset: 90619},
+																pos:        position{line: 2871, col: 48, offset: 90877},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2862, col: 59, offset: 90630},
+																pos:        position{line: 2871, col: 59, offset: 90888},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19986,38 +19986,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2854, col: 30, offset: 90353},
+											pos:   position{line: 2863, col: 30, offset: 90611},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2867, col: 5, offset: 90694},
+												pos: position{line: 2876, col: 5, offset: 90952},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2867, col: 5, offset: 90694},
+													pos:   position{line: 2876, col: 5, offset: 90952},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2867, col: 14, offset: 90703},
+														pos: position{line: 2876, col: 14, offset: 90961},
 														expr: &choiceExpr{
-															pos: position{line: 2868, col: 9, offset: 90713},
+															pos: position{line: 2877, col: 9, offset: 90971},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2868, col: 9, offset: 90713},
+																	pos: position{line: 2877, col: 9, offset: 90971},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2868, col: 9, offset: 90713},
+																		pos: position{line: 2877, col: 9, offset: 90971},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2868, col: 9, offset: 90713},
+																				pos: position{line: 2877, col: 9, offset: 90971},
 																				expr: &litMatcher{
-																					pos:        position{line: 2868, col: 10, offset: 90714},
+																					pos:        position{line: 2877, col: 10, offset: 90972},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2869, col: 9, offset: 90742},
+																				pos: position{line: 2878, col: 9, offset: 91000},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2869, col: 10, offset: 90743},
+																					pos:        position{line: 2878, col: 10, offset: 91001},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20028,27 +20028,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2872, col: 11, offset: 90955},
+																	pos: position{line: 2881, col: 11, offset: 91213},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2872, col: 11, offset: 90955},
+																			pos:        position{line: 2881, col: 11, offset: 91213},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2872, col: 19, offset: 90963},
+																			pos: position{line: 2881, col: 19, offset: 91221},
 																			expr: &seqExpr{
-																				pos: position{line: 2872, col: 21, offset: 90965},
+																				pos: position{line: 2881, col: 21, offset: 91223},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2872, col: 21, offset: 90965},
+																						pos: position{line: 2881, col: 21, offset: 91223},
 																						expr: &actionExpr{
-																							pos: position{line: 2896, col: 10, offset: 91577},
+																							pos: position{line: 2905, col: 10, offset: 91835},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2896, col: 10, offset: 91577},
+																								pos:        position{line: 2905, col: 10, offset: 91835},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20057,11 +20057,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2872, col: 28, offset: 90972},
+																						pos: position{line: 2881, col: 28, offset: 91230},
 																						expr: &notExpr{
-																							pos: position{line: 2915, col: 8, offset: 91925},
+																							pos: position{line: 2924, col: 8, offset: 92183},
 																							expr: &anyMatcher{
-																								line: 2915, col: 9, offset: 91926,
+																								line: 2924, col: 9, offset: 92184,
 																							},
 																						},
 																					},
@@ -20071,35 +20071,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 646, col: 5, offset: 20455},
+																	pos: position{line: 646, col: 5, offset: 20487},
 																	run: (*parser).callonImageBlock37,
 																	expr: &seqExpr{
-																		pos: position{line: 646, col: 5, offset: 20455},
+																		pos: position{line: 646, col: 5, offset: 20487},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 646, col: 5, offset: 20455},
+																				pos: position{line: 646, col: 5, offset: 20487},
 																				run: (*parser).callonImageBlock39,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 649, col: 5, offset: 20527},
+																				pos:   position{line: 649, col: 5, offset: 20559},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 649, col: 14, offset: 20536},
+																					pos: position{line: 649, col: 14, offset: 20568},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 655, col: 5, offset: 20665},
+																							pos: position{line: 655, col: 5, offset: 20697},
 																							run: (*parser).callonImageBlock42,
 																							expr: &seqExpr{
-																								pos: position{line: 655, col: 5, offset: 20665},
+																								pos: position{line: 655, col: 5, offset: 20697},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 655, col: 5, offset: 20665},
+																										pos:        position{line: 655, col: 5, offset: 20697},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 655, col: 13, offset: 20673},
+																										pos:   position{line: 655, col: 13, offset: 20705},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20131,7 +20131,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 655, col: 32, offset: 20692},
+																										pos:        position{line: 655, col: 32, offset: 20724},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20140,19 +20140,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 662, col: 5, offset: 20933},
+																							pos: position{line: 662, col: 5, offset: 20965},
 																							run: (*parser).callonImageBlock52,
 																							expr: &seqExpr{
-																								pos: position{line: 662, col: 5, offset: 20933},
+																								pos: position{line: 662, col: 5, offset: 20965},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 662, col: 5, offset: 20933},
+																										pos:        position{line: 662, col: 5, offset: 20965},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 9, offset: 20937},
+																										pos:   position{line: 662, col: 9, offset: 20969},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20184,7 +20184,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 662, col: 28, offset: 20956},
+																										pos:        position{line: 662, col: 28, offset: 20988},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20193,19 +20193,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 668, col: 25, offset: 21137},
+																							pos: position{line: 668, col: 25, offset: 21169},
 																							run: (*parser).callonImageBlock62,
 																							expr: &seqExpr{
-																								pos: position{line: 668, col: 25, offset: 21137},
+																								pos: position{line: 668, col: 25, offset: 21169},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 668, col: 25, offset: 21137},
+																										pos:        position{line: 668, col: 25, offset: 21169},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 668, col: 37, offset: 21149},
+																										pos:   position{line: 668, col: 37, offset: 21181},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20237,33 +20237,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 668, col: 56, offset: 21168},
+																										pos:   position{line: 668, col: 56, offset: 21200},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 668, col: 62, offset: 21174},
+																											pos: position{line: 668, col: 62, offset: 21206},
 																											expr: &actionExpr{
-																												pos: position{line: 676, col: 17, offset: 21469},
+																												pos: position{line: 676, col: 17, offset: 21501},
 																												run: (*parser).callonImageBlock73,
 																												expr: &seqExpr{
-																													pos: position{line: 676, col: 17, offset: 21469},
+																													pos: position{line: 676, col: 17, offset: 21501},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 676, col: 17, offset: 21469},
+																															pos:        position{line: 676, col: 17, offset: 21501},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 676, col: 21, offset: 21473},
+																															pos:   position{line: 676, col: 21, offset: 21505},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 676, col: 28, offset: 21480},
+																																pos: position{line: 676, col: 28, offset: 21512},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 676, col: 28, offset: 21480},
+																																		pos: position{line: 676, col: 28, offset: 21512},
 																																		run: (*parser).callonImageBlock78,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 676, col: 28, offset: 21480},
+																																			pos:        position{line: 676, col: 28, offset: 21512},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20271,12 +20271,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 678, col: 9, offset: 21534},
+																																		pos: position{line: 678, col: 9, offset: 21566},
 																																		run: (*parser).callonImageBlock80,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 678, col: 9, offset: 21534},
+																																			pos: position{line: 678, col: 9, offset: 21566},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 678, col: 9, offset: 21534},
+																																				pos:        position{line: 678, col: 9, offset: 21566},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20293,7 +20293,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 668, col: 78, offset: 21190},
+																										pos:        position{line: 668, col: 78, offset: 21222},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20302,19 +20302,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 672, col: 25, offset: 21308},
+																							pos: position{line: 672, col: 25, offset: 21340},
 																							run: (*parser).callonImageBlock84,
 																							expr: &seqExpr{
-																								pos: position{line: 672, col: 25, offset: 21308},
+																								pos: position{line: 672, col: 25, offset: 21340},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 672, col: 25, offset: 21308},
+																										pos:        position{line: 672, col: 25, offset: 21340},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 672, col: 38, offset: 21321},
+																										pos:   position{line: 672, col: 38, offset: 21353},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20346,33 +20346,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 672, col: 57, offset: 21340},
+																										pos:   position{line: 672, col: 57, offset: 21372},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 672, col: 63, offset: 21346},
+																											pos: position{line: 672, col: 63, offset: 21378},
 																											expr: &actionExpr{
-																												pos: position{line: 676, col: 17, offset: 21469},
+																												pos: position{line: 676, col: 17, offset: 21501},
 																												run: (*parser).callonImageBlock95,
 																												expr: &seqExpr{
-																													pos: position{line: 676, col: 17, offset: 21469},
+																													pos: position{line: 676, col: 17, offset: 21501},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 676, col: 17, offset: 21469},
+																															pos:        position{line: 676, col: 17, offset: 21501},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 676, col: 21, offset: 21473},
+																															pos:   position{line: 676, col: 21, offset: 21505},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 676, col: 28, offset: 21480},
+																																pos: position{line: 676, col: 28, offset: 21512},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 676, col: 28, offset: 21480},
+																																		pos: position{line: 676, col: 28, offset: 21512},
 																																		run: (*parser).callonImageBlock100,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 676, col: 28, offset: 21480},
+																																			pos:        position{line: 676, col: 28, offset: 21512},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20380,12 +20380,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 678, col: 9, offset: 21534},
+																																		pos: position{line: 678, col: 9, offset: 21566},
 																																		run: (*parser).callonImageBlock102,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 678, col: 9, offset: 21534},
+																																			pos: position{line: 678, col: 9, offset: 21566},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 678, col: 9, offset: 21534},
+																																				pos:        position{line: 678, col: 9, offset: 21566},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20402,7 +20402,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 672, col: 79, offset: 21362},
+																										pos:        position{line: 672, col: 79, offset: 21394},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20417,27 +20417,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1224, col: 23, offset: 37828},
+																	pos: position{line: 1224, col: 23, offset: 37860},
 																	run: (*parser).callonImageBlock106,
 																	expr: &seqExpr{
-																		pos: position{line: 1224, col: 23, offset: 37828},
+																		pos: position{line: 1224, col: 23, offset: 37860},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1222, col: 32, offset: 37796},
+																				pos:        position{line: 1222, col: 32, offset: 37828},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1224, col: 51, offset: 37856},
+																				pos:   position{line: 1224, col: 51, offset: 37888},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1224, col: 56, offset: 37861},
+																					pos: position{line: 1224, col: 56, offset: 37893},
 																					run: (*parser).callonImageBlock110,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1224, col: 56, offset: 37861},
+																						pos: position{line: 1224, col: 56, offset: 37893},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1224, col: 56, offset: 37861},
+																							pos:        position{line: 1224, col: 56, offset: 37893},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -20447,7 +20447,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1222, col: 32, offset: 37796},
+																				pos:        position{line: 1222, col: 32, offset: 37828},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -20456,10 +20456,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2875, col: 11, offset: 91092},
+																	pos: position{line: 2884, col: 11, offset: 91350},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2875, col: 11, offset: 91092},
+																		pos:        position{line: 2884, col: 11, offset: 91350},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20476,20 +20476,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1338, col: 31, offset: 41839},
+							pos:   position{line: 1338, col: 31, offset: 41871},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1338, col: 43, offset: 41851},
+								pos:  position{line: 1338, col: 43, offset: 41883},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1338, col: 61, offset: 41869},
+							pos: position{line: 1338, col: 61, offset: 41901},
 							expr: &actionExpr{
-								pos: position{line: 2896, col: 10, offset: 91577},
+								pos: position{line: 2905, col: 10, offset: 91835},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2896, col: 10, offset: 91577},
+									pos:        position{line: 2905, col: 10, offset: 91835},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20498,28 +20498,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2918, col: 8, offset: 91975},
+							pos: position{line: 2927, col: 8, offset: 92233},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2905, col: 12, offset: 91748},
+									pos: position{line: 2914, col: 12, offset: 92006},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2905, col: 13, offset: 91749},
+										pos: position{line: 2914, col: 13, offset: 92007},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2905, col: 13, offset: 91749},
+												pos:        position{line: 2914, col: 13, offset: 92007},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2905, col: 20, offset: 91756},
+												pos:        position{line: 2914, col: 20, offset: 92014},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2905, col: 29, offset: 91765},
+												pos:        position{line: 2914, col: 29, offset: 92023},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20528,9 +20528,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2915, col: 8, offset: 91925},
+									pos: position{line: 2924, col: 8, offset: 92183},
 									expr: &anyMatcher{
-										line: 2915, col: 9, offset: 91926,
+										line: 2924, col: 9, offset: 92184,
 									},
 								},
 							},
@@ -20541,74 +20541,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1343, col: 1, offset: 42086},
+			pos:  position{line: 1343, col: 1, offset: 42118},
 			expr: &actionExpr{
-				pos: position{line: 1343, col: 16, offset: 42101},
+				pos: position{line: 1343, col: 16, offset: 42133},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1343, col: 16, offset: 42101},
+					pos: position{line: 1343, col: 16, offset: 42133},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1343, col: 16, offset: 42101},
+							pos:        position{line: 1343, col: 16, offset: 42133},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1343, col: 25, offset: 42110},
+							pos: position{line: 1343, col: 25, offset: 42142},
 							expr: &litMatcher{
-								pos:        position{line: 1343, col: 26, offset: 42111},
+								pos:        position{line: 1343, col: 26, offset: 42143},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1343, col: 30, offset: 42115},
+							pos:   position{line: 1343, col: 30, offset: 42147},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2854, col: 13, offset: 90336},
+								pos: position{line: 2863, col: 13, offset: 90594},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2854, col: 13, offset: 90336},
+									pos: position{line: 2863, col: 13, offset: 90594},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2854, col: 13, offset: 90336},
+											pos:   position{line: 2863, col: 13, offset: 90594},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2854, col: 20, offset: 90343},
+												pos: position{line: 2863, col: 20, offset: 90601},
 												expr: &actionExpr{
-													pos: position{line: 2862, col: 11, offset: 90582},
+													pos: position{line: 2871, col: 11, offset: 90840},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2862, col: 12, offset: 90583},
+														pos: position{line: 2871, col: 12, offset: 90841},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2862, col: 12, offset: 90583},
+																pos:        position{line: 2871, col: 12, offset: 90841},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2862, col: 24, offset: 90595},
+																pos:        position{line: 2871, col: 24, offset: 90853},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2862, col: 37, offset: 90608},
+																pos:        position{line: 2871, col: 37, offset: 90866},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2862, col: 48, offset: 90619},
+																pos:        position{line: 2871, col: 48, offset: 90877},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2862, col: 59, offset: 90630},
+																pos:        position{line: 2871, col: 59, offset: 90888},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20619,38 +20619,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2854, col: 30, offset: 90353},
+											pos:   position{line: 2863, col: 30, offset: 90611},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2867, col: 5, offset: 90694},
+												pos: position{line: 2876, col: 5, offset: 90952},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2867, col: 5, offset: 90694},
+													pos:   position{line: 2876, col: 5, offset: 90952},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2867, col: 14, offset: 90703},
+														pos: position{line: 2876, col: 14, offset: 90961},
 														expr: &choiceExpr{
-															pos: position{line: 2868, col: 9, offset: 90713},
+															pos: position{line: 2877, col: 9, offset: 90971},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2868, col: 9, offset: 90713},
+																	pos: position{line: 2877, col: 9, offset: 90971},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2868, col: 9, offset: 90713},
+																		pos: position{line: 2877, col: 9, offset: 90971},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2868, col: 9, offset: 90713},
+																				pos: position{line: 2877, col: 9, offset: 90971},
 																				expr: &litMatcher{
-																					pos:        position{line: 2868, col: 10, offset: 90714},
+																					pos:        position{line: 2877, col: 10, offset: 90972},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2869, col: 9, offset: 90742},
+																				pos: position{line: 2878, col: 9, offset: 91000},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2869, col: 10, offset: 90743},
+																					pos:        position{line: 2878, col: 10, offset: 91001},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20661,27 +20661,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2872, col: 11, offset: 90955},
+																	pos: position{line: 2881, col: 11, offset: 91213},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2872, col: 11, offset: 90955},
+																			pos:        position{line: 2881, col: 11, offset: 91213},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2872, col: 19, offset: 90963},
+																			pos: position{line: 2881, col: 19, offset: 91221},
 																			expr: &seqExpr{
-																				pos: position{line: 2872, col: 21, offset: 90965},
+																				pos: position{line: 2881, col: 21, offset: 91223},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2872, col: 21, offset: 90965},
+																						pos: position{line: 2881, col: 21, offset: 91223},
 																						expr: &actionExpr{
-																							pos: position{line: 2896, col: 10, offset: 91577},
+																							pos: position{line: 2905, col: 10, offset: 91835},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2896, col: 10, offset: 91577},
+																								pos:        position{line: 2905, col: 10, offset: 91835},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20690,11 +20690,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2872, col: 28, offset: 90972},
+																						pos: position{line: 2881, col: 28, offset: 91230},
 																						expr: &notExpr{
-																							pos: position{line: 2915, col: 8, offset: 91925},
+																							pos: position{line: 2924, col: 8, offset: 92183},
 																							expr: &anyMatcher{
-																								line: 2915, col: 9, offset: 91926,
+																								line: 2924, col: 9, offset: 92184,
 																							},
 																						},
 																					},
@@ -20704,35 +20704,35 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 646, col: 5, offset: 20455},
+																	pos: position{line: 646, col: 5, offset: 20487},
 																	run: (*parser).callonInlineImage39,
 																	expr: &seqExpr{
-																		pos: position{line: 646, col: 5, offset: 20455},
+																		pos: position{line: 646, col: 5, offset: 20487},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 646, col: 5, offset: 20455},
+																				pos: position{line: 646, col: 5, offset: 20487},
 																				run: (*parser).callonInlineImage41,
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 649, col: 5, offset: 20527},
+																				pos:   position{line: 649, col: 5, offset: 20559},
 																				label: "element",
 																				expr: &choiceExpr{
-																					pos: position{line: 649, col: 14, offset: 20536},
+																					pos: position{line: 649, col: 14, offset: 20568},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 655, col: 5, offset: 20665},
+																							pos: position{line: 655, col: 5, offset: 20697},
 																							run: (*parser).callonInlineImage44,
 																							expr: &seqExpr{
-																								pos: position{line: 655, col: 5, offset: 20665},
+																								pos: position{line: 655, col: 5, offset: 20697},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 655, col: 5, offset: 20665},
+																										pos:        position{line: 655, col: 5, offset: 20697},
 																										val:        "\\{",
 																										ignoreCase: false,
 																										want:       "\"\\\\{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 655, col: 13, offset: 20673},
+																										pos:   position{line: 655, col: 13, offset: 20705},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20764,7 +20764,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 655, col: 32, offset: 20692},
+																										pos:        position{line: 655, col: 32, offset: 20724},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20773,19 +20773,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 662, col: 5, offset: 20933},
+																							pos: position{line: 662, col: 5, offset: 20965},
 																							run: (*parser).callonInlineImage54,
 																							expr: &seqExpr{
-																								pos: position{line: 662, col: 5, offset: 20933},
+																								pos: position{line: 662, col: 5, offset: 20965},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 662, col: 5, offset: 20933},
+																										pos:        position{line: 662, col: 5, offset: 20965},
 																										val:        "{",
 																										ignoreCase: false,
 																										want:       "\"{\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 662, col: 9, offset: 20937},
+																										pos:   position{line: 662, col: 9, offset: 20969},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20817,7 +20817,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 662, col: 28, offset: 20956},
+																										pos:        position{line: 662, col: 28, offset: 20988},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20826,19 +20826,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 668, col: 25, offset: 21137},
+																							pos: position{line: 668, col: 25, offset: 21169},
 																							run: (*parser).callonInlineImage64,
 																							expr: &seqExpr{
-																								pos: position{line: 668, col: 25, offset: 21137},
+																								pos: position{line: 668, col: 25, offset: 21169},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 668, col: 25, offset: 21137},
+																										pos:        position{line: 668, col: 25, offset: 21169},
 																										val:        "{counter:",
 																										ignoreCase: false,
 																										want:       "\"{counter:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 668, col: 37, offset: 21149},
+																										pos:   position{line: 668, col: 37, offset: 21181},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20870,33 +20870,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 668, col: 56, offset: 21168},
+																										pos:   position{line: 668, col: 56, offset: 21200},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 668, col: 62, offset: 21174},
+																											pos: position{line: 668, col: 62, offset: 21206},
 																											expr: &actionExpr{
-																												pos: position{line: 676, col: 17, offset: 21469},
+																												pos: position{line: 676, col: 17, offset: 21501},
 																												run: (*parser).callonInlineImage75,
 																												expr: &seqExpr{
-																													pos: position{line: 676, col: 17, offset: 21469},
+																													pos: position{line: 676, col: 17, offset: 21501},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 676, col: 17, offset: 21469},
+																															pos:        position{line: 676, col: 17, offset: 21501},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 676, col: 21, offset: 21473},
+																															pos:   position{line: 676, col: 21, offset: 21505},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 676, col: 28, offset: 21480},
+																																pos: position{line: 676, col: 28, offset: 21512},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 676, col: 28, offset: 21480},
+																																		pos: position{line: 676, col: 28, offset: 21512},
 																																		run: (*parser).callonInlineImage80,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 676, col: 28, offset: 21480},
+																																			pos:        position{line: 676, col: 28, offset: 21512},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -20904,12 +20904,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 678, col: 9, offset: 21534},
+																																		pos: position{line: 678, col: 9, offset: 21566},
 																																		run: (*parser).callonInlineImage82,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 678, col: 9, offset: 21534},
+																																			pos: position{line: 678, col: 9, offset: 21566},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 678, col: 9, offset: 21534},
+																																				pos:        position{line: 678, col: 9, offset: 21566},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -20926,7 +20926,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 668, col: 78, offset: 21190},
+																										pos:        position{line: 668, col: 78, offset: 21222},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -20935,19 +20935,19 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 672, col: 25, offset: 21308},
+																							pos: position{line: 672, col: 25, offset: 21340},
 																							run: (*parser).callonInlineImage86,
 																							expr: &seqExpr{
-																								pos: position{line: 672, col: 25, offset: 21308},
+																								pos: position{line: 672, col: 25, offset: 21340},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 672, col: 25, offset: 21308},
+																										pos:        position{line: 672, col: 25, offset: 21340},
 																										val:        "{counter2:",
 																										ignoreCase: false,
 																										want:       "\"{counter2:\"",
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 672, col: 38, offset: 21321},
+																										pos:   position{line: 672, col: 38, offset: 21353},
 																										label: "name",
 																										expr: &actionExpr{
 																											pos: position{line: 318, col: 18, offset: 9736},
@@ -20979,33 +20979,33 @@ var g = &grammar{
 																										},
 																									},
 																									&labeledExpr{
-																										pos:   position{line: 672, col: 57, offset: 21340},
+																										pos:   position{line: 672, col: 57, offset: 21372},
 																										label: "start",
 																										expr: &zeroOrOneExpr{
-																											pos: position{line: 672, col: 63, offset: 21346},
+																											pos: position{line: 672, col: 63, offset: 21378},
 																											expr: &actionExpr{
-																												pos: position{line: 676, col: 17, offset: 21469},
+																												pos: position{line: 676, col: 17, offset: 21501},
 																												run: (*parser).callonInlineImage97,
 																												expr: &seqExpr{
-																													pos: position{line: 676, col: 17, offset: 21469},
+																													pos: position{line: 676, col: 17, offset: 21501},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 676, col: 17, offset: 21469},
+																															pos:        position{line: 676, col: 17, offset: 21501},
 																															val:        ":",
 																															ignoreCase: false,
 																															want:       "\":\"",
 																														},
 																														&labeledExpr{
-																															pos:   position{line: 676, col: 21, offset: 21473},
+																															pos:   position{line: 676, col: 21, offset: 21505},
 																															label: "start",
 																															expr: &choiceExpr{
-																																pos: position{line: 676, col: 28, offset: 21480},
+																																pos: position{line: 676, col: 28, offset: 21512},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 676, col: 28, offset: 21480},
+																																		pos: position{line: 676, col: 28, offset: 21512},
 																																		run: (*parser).callonInlineImage102,
 																																		expr: &charClassMatcher{
-																																			pos:        position{line: 676, col: 28, offset: 21480},
+																																			pos:        position{line: 676, col: 28, offset: 21512},
 																																			val:        "[A-Za-z]",
 																																			ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																			ignoreCase: false,
@@ -21013,12 +21013,12 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&actionExpr{
-																																		pos: position{line: 678, col: 9, offset: 21534},
+																																		pos: position{line: 678, col: 9, offset: 21566},
 																																		run: (*parser).callonInlineImage104,
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 678, col: 9, offset: 21534},
+																																			pos: position{line: 678, col: 9, offset: 21566},
 																																			expr: &charClassMatcher{
-																																				pos:        position{line: 678, col: 9, offset: 21534},
+																																				pos:        position{line: 678, col: 9, offset: 21566},
 																																				val:        "[0-9]",
 																																				ranges:     []rune{'0', '9'},
 																																				ignoreCase: false,
@@ -21035,7 +21035,7 @@ var g = &grammar{
 																										},
 																									},
 																									&litMatcher{
-																										pos:        position{line: 672, col: 79, offset: 21362},
+																										pos:        position{line: 672, col: 79, offset: 21394},
 																										val:        "}",
 																										ignoreCase: false,
 																										want:       "\"}\"",
@@ -21050,27 +21050,27 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1224, col: 23, offset: 37828},
+																	pos: position{line: 1224, col: 23, offset: 37860},
 																	run: (*parser).callonInlineImage108,
 																	expr: &seqExpr{
-																		pos: position{line: 1224, col: 23, offset: 37828},
+																		pos: position{line: 1224, col: 23, offset: 37860},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1222, col: 32, offset: 37796},
+																				pos:        position{line: 1222, col: 32, offset: 37828},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1224, col: 51, offset: 37856},
+																				pos:   position{line: 1224, col: 51, offset: 37888},
 																				label: "ref",
 																				expr: &actionExpr{
-																					pos: position{line: 1224, col: 56, offset: 37861},
+																					pos: position{line: 1224, col: 56, offset: 37893},
 																					run: (*parser).callonInlineImage112,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 1224, col: 56, offset: 37861},
+																						pos: position{line: 1224, col: 56, offset: 37893},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 1224, col: 56, offset: 37861},
+																							pos:        position{line: 1224, col: 56, offset: 37893},
 																							val:        "[0-9]",
 																							ranges:     []rune{'0', '9'},
 																							ignoreCase: false,
@@ -21080,7 +21080,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1222, col: 32, offset: 37796},
+																				pos:        position{line: 1222, col: 32, offset: 37828},
 																				val:        "�",
 																				ignoreCase: false,
 																				want:       "\"�\"",
@@ -21089,10 +21089,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2875, col: 11, offset: 91092},
+																	pos: position{line: 2884, col: 11, offset: 91350},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2875, col: 11, offset: 91092},
+																		pos:        position{line: 2884, col: 11, offset: 91350},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21109,10 +21109,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1343, col: 46, offset: 42131},
+							pos:   position{line: 1343, col: 46, offset: 42163},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1343, col: 58, offset: 42143},
+								pos:  position{line: 1343, col: 58, offset: 42175},
 								name: "InlineAttributes",
 							},
 						},
@@ -21122,29 +21122,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1350, col: 1, offset: 42539},
+			pos:  position{line: 1350, col: 1, offset: 42571},
 			expr: &actionExpr{
-				pos: position{line: 1350, col: 15, offset: 42553},
+				pos: position{line: 1350, col: 15, offset: 42585},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1350, col: 15, offset: 42553},
+					pos: position{line: 1350, col: 15, offset: 42585},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1350, col: 15, offset: 42553},
+							pos:        position{line: 1350, col: 15, offset: 42585},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1350, col: 23, offset: 42561},
+							pos:   position{line: 1350, col: 23, offset: 42593},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1350, col: 29, offset: 42567},
+								pos: position{line: 1350, col: 29, offset: 42599},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1350, col: 29, offset: 42567},
+									pos: position{line: 1350, col: 29, offset: 42599},
 									expr: &charClassMatcher{
-										pos:        position{line: 1350, col: 29, offset: 42567},
+										pos:        position{line: 1350, col: 29, offset: 42599},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21155,10 +21155,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1350, col: 73, offset: 42611},
+							pos:   position{line: 1350, col: 73, offset: 42643},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1350, col: 85, offset: 42623},
+								pos:  position{line: 1350, col: 85, offset: 42655},
 								name: "InlineAttributes",
 							},
 						},
@@ -21168,31 +21168,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1357, col: 1, offset: 42989},
+			pos:  position{line: 1357, col: 1, offset: 43021},
 			expr: &actionExpr{
-				pos: position{line: 1357, col: 19, offset: 43007},
+				pos: position{line: 1357, col: 19, offset: 43039},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1357, col: 19, offset: 43007},
+					pos: position{line: 1357, col: 19, offset: 43039},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1357, col: 19, offset: 43007},
+							pos:        position{line: 1357, col: 19, offset: 43039},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1357, col: 31, offset: 43019},
+							pos:   position{line: 1357, col: 31, offset: 43051},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1357, col: 35, offset: 43023},
+								pos: position{line: 1357, col: 35, offset: 43055},
 								expr: &actionExpr{
-									pos: position{line: 2790, col: 14, offset: 88746},
+									pos: position{line: 2799, col: 14, offset: 89004},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2790, col: 14, offset: 88746},
+										pos: position{line: 2799, col: 14, offset: 89004},
 										expr: &charClassMatcher{
-											pos:        position{line: 2790, col: 14, offset: 88746},
+											pos:        position{line: 2799, col: 14, offset: 89004},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -21203,21 +21203,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1357, col: 50, offset: 43038},
+							pos:        position{line: 1357, col: 50, offset: 43070},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1357, col: 54, offset: 43042},
+							pos:   position{line: 1357, col: 54, offset: 43074},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1357, col: 64, offset: 43052},
+								pos:  position{line: 1357, col: 64, offset: 43084},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1357, col: 82, offset: 43070},
+							pos:        position{line: 1357, col: 82, offset: 43102},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -21228,17 +21228,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1363, col: 1, offset: 43227},
+			pos:  position{line: 1363, col: 1, offset: 43259},
 			expr: &actionExpr{
-				pos: position{line: 1363, col: 21, offset: 43247},
+				pos: position{line: 1363, col: 21, offset: 43279},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1363, col: 21, offset: 43247},
+					pos:   position{line: 1363, col: 21, offset: 43279},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1363, col: 30, offset: 43256},
+						pos: position{line: 1363, col: 30, offset: 43288},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1363, col: 31, offset: 43257},
+							pos:  position{line: 1363, col: 31, offset: 43289},
 							name: "FootnoteElement",
 						},
 					},
@@ -21247,44 +21247,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1367, col: 1, offset: 43349},
+			pos:  position{line: 1367, col: 1, offset: 43381},
 			expr: &actionExpr{
-				pos: position{line: 1368, col: 5, offset: 43373},
+				pos: position{line: 1368, col: 5, offset: 43405},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1368, col: 5, offset: 43373},
+					pos: position{line: 1368, col: 5, offset: 43405},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1368, col: 5, offset: 43373},
+							pos: position{line: 1368, col: 5, offset: 43405},
 							expr: &litMatcher{
-								pos:        position{line: 1368, col: 6, offset: 43374},
+								pos:        position{line: 1368, col: 6, offset: 43406},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1369, col: 5, offset: 43383},
+							pos:   position{line: 1369, col: 5, offset: 43415},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1370, col: 9, offset: 43401},
+								pos: position{line: 1370, col: 9, offset: 43433},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2795, col: 5, offset: 88819},
+										pos: position{line: 2804, col: 5, offset: 89077},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2795, col: 5, offset: 88819},
+											pos: position{line: 2804, col: 5, offset: 89077},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2795, col: 5, offset: 88819},
+													pos:   position{line: 2804, col: 5, offset: 89077},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2795, col: 11, offset: 88825},
+														pos: position{line: 2804, col: 11, offset: 89083},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2795, col: 11, offset: 88825},
+															pos: position{line: 2804, col: 11, offset: 89083},
 															expr: &charClassMatcher{
-																pos:        position{line: 2795, col: 11, offset: 88825},
+																pos:        position{line: 2804, col: 11, offset: 89083},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21294,36 +21294,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2798, col: 5, offset: 88883},
+													pos: position{line: 2807, col: 5, offset: 89141},
 													expr: &seqExpr{
-														pos: position{line: 2799, col: 9, offset: 88894},
+														pos: position{line: 2808, col: 9, offset: 89152},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2799, col: 9, offset: 88894},
+																pos:        position{line: 2808, col: 9, offset: 89152},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2800, col: 9, offset: 88943},
+																pos: position{line: 2809, col: 9, offset: 89201},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2804, col: 5, offset: 89023},
+													pos: position{line: 2813, col: 5, offset: 89281},
 													expr: &seqExpr{
-														pos: position{line: 2805, col: 9, offset: 89034},
+														pos: position{line: 2814, col: 9, offset: 89292},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2805, col: 9, offset: 89034},
+																pos:        position{line: 2814, col: 9, offset: 89292},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2805, col: 13, offset: 89038},
+																pos:        position{line: 2814, col: 13, offset: 89296},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21336,12 +21336,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2900, col: 11, offset: 91638},
+										pos: position{line: 2909, col: 11, offset: 91896},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2900, col: 11, offset: 91638},
+											pos: position{line: 2909, col: 11, offset: 91896},
 											expr: &charClassMatcher{
-												pos:        position{line: 2900, col: 11, offset: 91638},
+												pos:        position{line: 2909, col: 11, offset: 91896},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21350,25 +21350,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2515, col: 5, offset: 81054},
+										pos: position{line: 2515, col: 5, offset: 81086},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2515, col: 5, offset: 81054},
+											pos: position{line: 2515, col: 5, offset: 81086},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2515, col: 5, offset: 81054},
+													pos: position{line: 2515, col: 5, offset: 81086},
 													run: (*parser).callonFootnoteElement26,
 												},
 												&litMatcher{
-													pos:        position{line: 2518, col: 5, offset: 81125},
+													pos:        position{line: 2518, col: 5, offset: 81157},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2518, col: 10, offset: 81130},
+													pos: position{line: 2518, col: 10, offset: 81162},
 													expr: &charClassMatcher{
-														pos:        position{line: 2518, col: 11, offset: 81131},
+														pos:        position{line: 2518, col: 11, offset: 81163},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21379,29 +21379,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2524, col: 5, offset: 81323},
+										pos: position{line: 2524, col: 5, offset: 81355},
 										run: (*parser).callonFootnoteElement30,
 										expr: &seqExpr{
-											pos: position{line: 2524, col: 5, offset: 81323},
+											pos: position{line: 2524, col: 5, offset: 81355},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2524, col: 5, offset: 81323},
+													pos: position{line: 2524, col: 5, offset: 81355},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&andCodeExpr{
-													pos: position{line: 2527, col: 5, offset: 81394},
+													pos: position{line: 2527, col: 5, offset: 81426},
 													run: (*parser).callonFootnoteElement33,
 												},
 												&litMatcher{
-													pos:        position{line: 2531, col: 5, offset: 81519},
+													pos:        position{line: 2531, col: 5, offset: 81551},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2531, col: 9, offset: 81523},
+													pos: position{line: 2531, col: 9, offset: 81555},
 													expr: &charClassMatcher{
-														pos:        position{line: 2531, col: 10, offset: 81524},
+														pos:        position{line: 2531, col: 10, offset: 81556},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21412,35 +21412,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1373, col: 11, offset: 43468},
+										pos:  position{line: 1373, col: 11, offset: 43500},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1374, col: 11, offset: 43484},
+										pos:  position{line: 1374, col: 11, offset: 43516},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2813, col: 5, offset: 89231},
+										pos: position{line: 2822, col: 5, offset: 89489},
 										run: (*parser).callonFootnoteElement39,
 										expr: &choiceExpr{
-											pos: position{line: 2814, col: 9, offset: 89241},
+											pos: position{line: 2823, col: 9, offset: 89499},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2814, col: 10, offset: 89242},
+													pos:        position{line: 2823, col: 10, offset: 89500},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2816, col: 13, offset: 89339},
+													pos: position{line: 2825, col: 13, offset: 89597},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2816, col: 13, offset: 89339},
+															pos: position{line: 2825, col: 13, offset: 89597},
 															run: (*parser).callonFootnoteElement43,
 														},
 														&litMatcher{
-															pos:        position{line: 2819, col: 13, offset: 89439},
+															pos:        position{line: 2828, col: 13, offset: 89697},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21448,20 +21448,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2819, col: 19, offset: 89445},
+													pos:        position{line: 2828, col: 19, offset: 89703},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2822, col: 13, offset: 89483},
+													pos: position{line: 2831, col: 13, offset: 89741},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2822, col: 13, offset: 89483},
+															pos: position{line: 2831, col: 13, offset: 89741},
 															run: (*parser).callonFootnoteElement47,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2825, col: 14, offset: 89576},
+															pos:        position{line: 2834, col: 14, offset: 89834},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21470,18 +21470,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2827, col: 12, offset: 89620},
+													pos: position{line: 2836, col: 12, offset: 89878},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2827, col: 12, offset: 89620},
+															pos:        position{line: 2836, col: 12, offset: 89878},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2827, col: 16, offset: 89624},
+															pos: position{line: 2836, col: 16, offset: 89882},
 															expr: &litMatcher{
-																pos:        position{line: 2827, col: 17, offset: 89625},
+																pos:        position{line: 2836, col: 17, offset: 89883},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21493,36 +21493,36 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1376, col: 11, offset: 43557},
+										pos:  position{line: 1376, col: 11, offset: 43589},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1232, col: 5, offset: 38274},
+										pos: position{line: 1232, col: 5, offset: 38306},
 										run: (*parser).callonFootnoteElement54,
 										expr: &seqExpr{
-											pos: position{line: 1232, col: 5, offset: 38274},
+											pos: position{line: 1232, col: 5, offset: 38306},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 1232, col: 5, offset: 38274},
+													pos: position{line: 1232, col: 5, offset: 38306},
 													run: (*parser).callonFootnoteElement56,
 												},
 												&litMatcher{
-													pos:        position{line: 1235, col: 5, offset: 38350},
+													pos:        position{line: 1235, col: 5, offset: 38382},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&andCodeExpr{
-													pos: position{line: 1236, col: 5, offset: 38358},
+													pos: position{line: 1236, col: 5, offset: 38390},
 													run: (*parser).callonFootnoteElement58,
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1240, col: 5, offset: 38445},
+													pos: position{line: 1240, col: 5, offset: 38477},
 													expr: &actionExpr{
-														pos: position{line: 2896, col: 10, offset: 91577},
+														pos: position{line: 2905, col: 10, offset: 91835},
 														run: (*parser).callonFootnoteElement60,
 														expr: &charClassMatcher{
-															pos:        position{line: 2896, col: 10, offset: 91577},
+															pos:        position{line: 2905, col: 10, offset: 91835},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21531,30 +21531,30 @@ var g = &grammar{
 													},
 												},
 												&andExpr{
-													pos: position{line: 1240, col: 12, offset: 38452},
+													pos: position{line: 1240, col: 12, offset: 38484},
 													expr: &choiceExpr{
-														pos: position{line: 2918, col: 8, offset: 91975},
+														pos: position{line: 2927, col: 8, offset: 92233},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2905, col: 12, offset: 91748},
+																pos: position{line: 2914, col: 12, offset: 92006},
 																run: (*parser).callonFootnoteElement64,
 																expr: &choiceExpr{
-																	pos: position{line: 2905, col: 13, offset: 91749},
+																	pos: position{line: 2914, col: 13, offset: 92007},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 13, offset: 91749},
+																			pos:        position{line: 2914, col: 13, offset: 92007},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 20, offset: 91756},
+																			pos:        position{line: 2914, col: 20, offset: 92014},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 29, offset: 91765},
+																			pos:        position{line: 2914, col: 29, offset: 92023},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21563,9 +21563,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2915, col: 8, offset: 91925},
+																pos: position{line: 2924, col: 8, offset: 92183},
 																expr: &anyMatcher{
-																	line: 2915, col: 9, offset: 91926,
+																	line: 2924, col: 9, offset: 92184,
 																},
 															},
 														},
@@ -21575,35 +21575,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 646, col: 5, offset: 20455},
+										pos: position{line: 646, col: 5, offset: 20487},
 										run: (*parser).callonFootnoteElement71,
 										expr: &seqExpr{
-											pos: position{line: 646, col: 5, offset: 20455},
+											pos: position{line: 646, col: 5, offset: 20487},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 646, col: 5, offset: 20455},
+													pos: position{line: 646, col: 5, offset: 20487},
 													run: (*parser).callonFootnoteElement73,
 												},
 												&labeledExpr{
-													pos:   position{line: 649, col: 5, offset: 20527},
+													pos:   position{line: 649, col: 5, offset: 20559},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 649, col: 14, offset: 20536},
+														pos: position{line: 649, col: 14, offset: 20568},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 655, col: 5, offset: 20665},
+																pos: position{line: 655, col: 5, offset: 20697},
 																run: (*parser).callonFootnoteElement76,
 																expr: &seqExpr{
-																	pos: position{line: 655, col: 5, offset: 20665},
+																	pos: position{line: 655, col: 5, offset: 20697},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 655, col: 5, offset: 20665},
+																			pos:        position{line: 655, col: 5, offset: 20697},
 																			val:        "\\{",
 																			ignoreCase: false,
 																			want:       "\"\\\\{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 655, col: 13, offset: 20673},
+																			pos:   position{line: 655, col: 13, offset: 20705},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -21635,7 +21635,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 655, col: 32, offset: 20692},
+																			pos:        position{line: 655, col: 32, offset: 20724},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21644,19 +21644,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 662, col: 5, offset: 20933},
+																pos: position{line: 662, col: 5, offset: 20965},
 																run: (*parser).callonFootnoteElement86,
 																expr: &seqExpr{
-																	pos: position{line: 662, col: 5, offset: 20933},
+																	pos: position{line: 662, col: 5, offset: 20965},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 662, col: 5, offset: 20933},
+																			pos:        position{line: 662, col: 5, offset: 20965},
 																			val:        "{",
 																			ignoreCase: false,
 																			want:       "\"{\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 662, col: 9, offset: 20937},
+																			pos:   position{line: 662, col: 9, offset: 20969},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -21688,7 +21688,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 662, col: 28, offset: 20956},
+																			pos:        position{line: 662, col: 28, offset: 20988},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21697,19 +21697,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 668, col: 25, offset: 21137},
+																pos: position{line: 668, col: 25, offset: 21169},
 																run: (*parser).callonFootnoteElement96,
 																expr: &seqExpr{
-																	pos: position{line: 668, col: 25, offset: 21137},
+																	pos: position{line: 668, col: 25, offset: 21169},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 668, col: 25, offset: 21137},
+																			pos:        position{line: 668, col: 25, offset: 21169},
 																			val:        "{counter:",
 																			ignoreCase: false,
 																			want:       "\"{counter:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 668, col: 37, offset: 21149},
+																			pos:   position{line: 668, col: 37, offset: 21181},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -21741,33 +21741,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 668, col: 56, offset: 21168},
+																			pos:   position{line: 668, col: 56, offset: 21200},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 668, col: 62, offset: 21174},
+																				pos: position{line: 668, col: 62, offset: 21206},
 																				expr: &actionExpr{
-																					pos: position{line: 676, col: 17, offset: 21469},
+																					pos: position{line: 676, col: 17, offset: 21501},
 																					run: (*parser).callonFootnoteElement107,
 																					expr: &seqExpr{
-																						pos: position{line: 676, col: 17, offset: 21469},
+																						pos: position{line: 676, col: 17, offset: 21501},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 676, col: 17, offset: 21469},
+																								pos:        position{line: 676, col: 17, offset: 21501},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 676, col: 21, offset: 21473},
+																								pos:   position{line: 676, col: 21, offset: 21505},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 676, col: 28, offset: 21480},
+																									pos: position{line: 676, col: 28, offset: 21512},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 676, col: 28, offset: 21480},
+																											pos: position{line: 676, col: 28, offset: 21512},
 																											run: (*parser).callonFootnoteElement112,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 676, col: 28, offset: 21480},
+																												pos:        position{line: 676, col: 28, offset: 21512},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21775,12 +21775,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 678, col: 9, offset: 21534},
+																											pos: position{line: 678, col: 9, offset: 21566},
 																											run: (*parser).callonFootnoteElement114,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 678, col: 9, offset: 21534},
+																												pos: position{line: 678, col: 9, offset: 21566},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 678, col: 9, offset: 21534},
+																													pos:        position{line: 678, col: 9, offset: 21566},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21797,7 +21797,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 668, col: 78, offset: 21190},
+																			pos:        position{line: 668, col: 78, offset: 21222},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21806,19 +21806,19 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 672, col: 25, offset: 21308},
+																pos: position{line: 672, col: 25, offset: 21340},
 																run: (*parser).callonFootnoteElement118,
 																expr: &seqExpr{
-																	pos: position{line: 672, col: 25, offset: 21308},
+																	pos: position{line: 672, col: 25, offset: 21340},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 672, col: 25, offset: 21308},
+																			pos:        position{line: 672, col: 25, offset: 21340},
 																			val:        "{counter2:",
 																			ignoreCase: false,
 																			want:       "\"{counter2:\"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 672, col: 38, offset: 21321},
+																			pos:   position{line: 672, col: 38, offset: 21353},
 																			label: "name",
 																			expr: &actionExpr{
 																				pos: position{line: 318, col: 18, offset: 9736},
@@ -21850,33 +21850,33 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 672, col: 57, offset: 21340},
+																			pos:   position{line: 672, col: 57, offset: 21372},
 																			label: "start",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 672, col: 63, offset: 21346},
+																				pos: position{line: 672, col: 63, offset: 21378},
 																				expr: &actionExpr{
-																					pos: position{line: 676, col: 17, offset: 21469},
+																					pos: position{line: 676, col: 17, offset: 21501},
 																					run: (*parser).callonFootnoteElement129,
 																					expr: &seqExpr{
-																						pos: position{line: 676, col: 17, offset: 21469},
+																						pos: position{line: 676, col: 17, offset: 21501},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 676, col: 17, offset: 21469},
+																								pos:        position{line: 676, col: 17, offset: 21501},
 																								val:        ":",
 																								ignoreCase: false,
 																								want:       "\":\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 676, col: 21, offset: 21473},
+																								pos:   position{line: 676, col: 21, offset: 21505},
 																								label: "start",
 																								expr: &choiceExpr{
-																									pos: position{line: 676, col: 28, offset: 21480},
+																									pos: position{line: 676, col: 28, offset: 21512},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 676, col: 28, offset: 21480},
+																											pos: position{line: 676, col: 28, offset: 21512},
 																											run: (*parser).callonFootnoteElement134,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 676, col: 28, offset: 21480},
+																												pos:        position{line: 676, col: 28, offset: 21512},
 																												val:        "[A-Za-z]",
 																												ranges:     []rune{'A', 'Z', 'a', 'z'},
 																												ignoreCase: false,
@@ -21884,12 +21884,12 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 678, col: 9, offset: 21534},
+																											pos: position{line: 678, col: 9, offset: 21566},
 																											run: (*parser).callonFootnoteElement136,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 678, col: 9, offset: 21534},
+																												pos: position{line: 678, col: 9, offset: 21566},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 678, col: 9, offset: 21534},
+																													pos:        position{line: 678, col: 9, offset: 21566},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -21906,7 +21906,7 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 672, col: 79, offset: 21362},
+																			pos:        position{line: 672, col: 79, offset: 21394},
 																			val:        "}",
 																			ignoreCase: false,
 																			want:       "\"}\"",
@@ -21921,23 +21921,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2484, col: 5, offset: 79883},
+										pos: position{line: 2484, col: 5, offset: 79915},
 										run: (*parser).callonFootnoteElement140,
 										expr: &seqExpr{
-											pos: position{line: 2484, col: 5, offset: 79883},
+											pos: position{line: 2484, col: 5, offset: 79915},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2484, col: 5, offset: 79883},
+													pos: position{line: 2484, col: 5, offset: 79915},
 													run: (*parser).callonFootnoteElement142,
 												},
 												&labeledExpr{
-													pos:   position{line: 2487, col: 5, offset: 79959},
+													pos:   position{line: 2487, col: 5, offset: 79991},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2488, col: 9, offset: 79977},
+														pos: position{line: 2488, col: 9, offset: 80009},
 														run: (*parser).callonFootnoteElement144,
 														expr: &charClassMatcher{
-															pos:        position{line: 2488, col: 10, offset: 79978},
+															pos:        position{line: 2488, col: 10, offset: 80010},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21949,25 +21949,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2905, col: 12, offset: 91748},
+										pos: position{line: 2914, col: 12, offset: 92006},
 										run: (*parser).callonFootnoteElement146,
 										expr: &choiceExpr{
-											pos: position{line: 2905, col: 13, offset: 91749},
+											pos: position{line: 2914, col: 13, offset: 92007},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2905, col: 13, offset: 91749},
+													pos:        position{line: 2914, col: 13, offset: 92007},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2905, col: 20, offset: 91756},
+													pos:        position{line: 2914, col: 20, offset: 92014},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2905, col: 29, offset: 91765},
+													pos:        position{line: 2914, col: 29, offset: 92023},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21976,10 +21976,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2835, col: 12, offset: 89885},
+										pos: position{line: 2844, col: 12, offset: 90143},
 										run: (*parser).callonFootnoteElement151,
 										expr: &charClassMatcher{
-											pos:        position{line: 2835, col: 12, offset: 89885},
+											pos:        position{line: 2844, col: 12, offset: 90143},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21995,32 +21995,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1415, col: 1, offset: 45402},
+			pos:  position{line: 1415, col: 1, offset: 45434},
 			expr: &choiceExpr{
-				pos: position{line: 1415, col: 21, offset: 45422},
+				pos: position{line: 1415, col: 21, offset: 45454},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1415, col: 21, offset: 45422},
+						pos: position{line: 1415, col: 21, offset: 45454},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1415, col: 21, offset: 45422},
+							pos: position{line: 1415, col: 21, offset: 45454},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1415, col: 21, offset: 45422},
+									pos:        position{line: 1415, col: 21, offset: 45454},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1415, col: 30, offset: 45431},
+									pos:   position{line: 1415, col: 30, offset: 45463},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1415, col: 38, offset: 45439},
+										pos: position{line: 1415, col: 38, offset: 45471},
 										expr: &actionExpr{
-											pos: position{line: 1421, col: 30, offset: 45765},
+											pos: position{line: 1421, col: 30, offset: 45797},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1421, col: 30, offset: 45765},
+												pos:        position{line: 1421, col: 30, offset: 45797},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -22030,7 +22030,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1415, col: 67, offset: 45468},
+									pos:        position{line: 1415, col: 67, offset: 45500},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -22039,34 +22039,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1417, col: 9, offset: 45572},
+						pos: position{line: 1417, col: 9, offset: 45604},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1417, col: 9, offset: 45572},
+							pos: position{line: 1417, col: 9, offset: 45604},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1417, col: 9, offset: 45572},
+									pos:        position{line: 1417, col: 9, offset: 45604},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1417, col: 19, offset: 45582},
+									pos:   position{line: 1417, col: 19, offset: 45614},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1417, col: 27, offset: 45590},
+										pos: position{line: 1417, col: 27, offset: 45622},
 										expr: &choiceExpr{
-											pos: position{line: 1417, col: 28, offset: 45591},
+											pos: position{line: 1417, col: 28, offset: 45623},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1417, col: 28, offset: 45591},
+													pos:  position{line: 1417, col: 28, offset: 45623},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1421, col: 30, offset: 45765},
+													pos: position{line: 1421, col: 30, offset: 45797},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1421, col: 30, offset: 45765},
+														pos:        position{line: 1421, col: 30, offset: 45797},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -22078,7 +22078,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1417, col: 69, offset: 45632},
+									pos:        position{line: 1417, col: 69, offset: 45664},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -22091,75 +22091,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1428, col: 1, offset: 46021},
+			pos:  position{line: 1428, col: 1, offset: 46053},
 			expr: &choiceExpr{
-				pos: position{line: 1428, col: 9, offset: 46029},
+				pos: position{line: 1428, col: 9, offset: 46061},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1431, col: 5, offset: 46098},
+						pos: position{line: 1431, col: 5, offset: 46130},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1431, col: 5, offset: 46098},
+							pos: position{line: 1431, col: 5, offset: 46130},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1431, col: 5, offset: 46098},
+									pos:        position{line: 1431, col: 5, offset: 46130},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1432, col: 5, offset: 46107},
+									pos:   position{line: 1432, col: 5, offset: 46139},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2858, col: 23, offset: 90463},
+										pos: position{line: 2867, col: 23, offset: 90721},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2858, col: 23, offset: 90463},
+											pos: position{line: 2867, col: 23, offset: 90721},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2858, col: 23, offset: 90463},
+													pos: position{line: 2867, col: 23, offset: 90721},
 													expr: &litMatcher{
-														pos:        position{line: 2858, col: 24, offset: 90464},
+														pos:        position{line: 2867, col: 24, offset: 90722},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2858, col: 28, offset: 90468},
+													pos:   position{line: 2867, col: 28, offset: 90726},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 11, offset: 90582},
+														pos: position{line: 2871, col: 11, offset: 90840},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2862, col: 12, offset: 90583},
+															pos: position{line: 2871, col: 12, offset: 90841},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2862, col: 12, offset: 90583},
+																	pos:        position{line: 2871, col: 12, offset: 90841},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2862, col: 24, offset: 90595},
+																	pos:        position{line: 2871, col: 24, offset: 90853},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2862, col: 37, offset: 90608},
+																	pos:        position{line: 2871, col: 37, offset: 90866},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2862, col: 48, offset: 90619},
+																	pos:        position{line: 2871, col: 48, offset: 90877},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2862, col: 59, offset: 90630},
+																	pos:        position{line: 2871, col: 59, offset: 90888},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -22169,38 +22169,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2858, col: 44, offset: 90484},
+													pos:   position{line: 2867, col: 44, offset: 90742},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 5, offset: 90694},
+														pos: position{line: 2876, col: 5, offset: 90952},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2867, col: 5, offset: 90694},
+															pos:   position{line: 2876, col: 5, offset: 90952},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2867, col: 14, offset: 90703},
+																pos: position{line: 2876, col: 14, offset: 90961},
 																expr: &choiceExpr{
-																	pos: position{line: 2868, col: 9, offset: 90713},
+																	pos: position{line: 2877, col: 9, offset: 90971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2868, col: 9, offset: 90713},
+																			pos: position{line: 2877, col: 9, offset: 90971},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2868, col: 9, offset: 90713},
+																				pos: position{line: 2877, col: 9, offset: 90971},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2868, col: 9, offset: 90713},
+																						pos: position{line: 2877, col: 9, offset: 90971},
 																						expr: &litMatcher{
-																							pos:        position{line: 2868, col: 10, offset: 90714},
+																							pos:        position{line: 2877, col: 10, offset: 90972},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2869, col: 9, offset: 90742},
+																						pos: position{line: 2878, col: 9, offset: 91000},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2869, col: 10, offset: 90743},
+																							pos:        position{line: 2878, col: 10, offset: 91001},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22211,27 +22211,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2872, col: 11, offset: 90955},
+																			pos: position{line: 2881, col: 11, offset: 91213},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2872, col: 11, offset: 90955},
+																					pos:        position{line: 2881, col: 11, offset: 91213},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2872, col: 19, offset: 90963},
+																					pos: position{line: 2881, col: 19, offset: 91221},
 																					expr: &seqExpr{
-																						pos: position{line: 2872, col: 21, offset: 90965},
+																						pos: position{line: 2881, col: 21, offset: 91223},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2872, col: 21, offset: 90965},
+																								pos: position{line: 2881, col: 21, offset: 91223},
 																								expr: &actionExpr{
-																									pos: position{line: 2896, col: 10, offset: 91577},
+																									pos: position{line: 2905, col: 10, offset: 91835},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2896, col: 10, offset: 91577},
+																										pos:        position{line: 2905, col: 10, offset: 91835},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22240,11 +22240,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2872, col: 28, offset: 90972},
+																								pos: position{line: 2881, col: 28, offset: 91230},
 																								expr: &notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -22254,35 +22254,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 646, col: 5, offset: 20455},
+																			pos: position{line: 646, col: 5, offset: 20487},
 																			run: (*parser).callonLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 646, col: 5, offset: 20455},
+																				pos: position{line: 646, col: 5, offset: 20487},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 646, col: 5, offset: 20455},
+																						pos: position{line: 646, col: 5, offset: 20487},
 																						run: (*parser).callonLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 649, col: 5, offset: 20527},
+																						pos:   position{line: 649, col: 5, offset: 20559},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 649, col: 14, offset: 20536},
+																							pos: position{line: 649, col: 14, offset: 20568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 655, col: 5, offset: 20665},
+																									pos: position{line: 655, col: 5, offset: 20697},
 																									run: (*parser).callonLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 655, col: 5, offset: 20665},
+																										pos: position{line: 655, col: 5, offset: 20697},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 655, col: 5, offset: 20665},
+																												pos:        position{line: 655, col: 5, offset: 20697},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 655, col: 13, offset: 20673},
+																												pos:   position{line: 655, col: 13, offset: 20705},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22314,7 +22314,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 655, col: 32, offset: 20692},
+																												pos:        position{line: 655, col: 32, offset: 20724},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22323,19 +22323,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 5, offset: 20933},
+																									pos: position{line: 662, col: 5, offset: 20965},
 																									run: (*parser).callonLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 5, offset: 20933},
+																										pos: position{line: 662, col: 5, offset: 20965},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 5, offset: 20933},
+																												pos:        position{line: 662, col: 5, offset: 20965},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 9, offset: 20937},
+																												pos:   position{line: 662, col: 9, offset: 20969},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22367,7 +22367,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 28, offset: 20956},
+																												pos:        position{line: 662, col: 28, offset: 20988},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22376,19 +22376,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 668, col: 25, offset: 21137},
+																									pos: position{line: 668, col: 25, offset: 21169},
 																									run: (*parser).callonLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 668, col: 25, offset: 21137},
+																										pos: position{line: 668, col: 25, offset: 21169},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 668, col: 25, offset: 21137},
+																												pos:        position{line: 668, col: 25, offset: 21169},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 668, col: 37, offset: 21149},
+																												pos:   position{line: 668, col: 37, offset: 21181},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22420,33 +22420,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 668, col: 56, offset: 21168},
+																												pos:   position{line: 668, col: 56, offset: 21200},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 668, col: 62, offset: 21174},
+																													pos: position{line: 668, col: 62, offset: 21206},
 																													expr: &actionExpr{
-																														pos: position{line: 676, col: 17, offset: 21469},
+																														pos: position{line: 676, col: 17, offset: 21501},
 																														run: (*parser).callonLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 676, col: 17, offset: 21469},
+																															pos: position{line: 676, col: 17, offset: 21501},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 676, col: 17, offset: 21469},
+																																	pos:        position{line: 676, col: 17, offset: 21501},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 676, col: 21, offset: 21473},
+																																	pos:   position{line: 676, col: 21, offset: 21505},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 676, col: 28, offset: 21480},
+																																		pos: position{line: 676, col: 28, offset: 21512},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 676, col: 28, offset: 21480},
+																																				pos: position{line: 676, col: 28, offset: 21512},
 																																				run: (*parser).callonLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 676, col: 28, offset: 21480},
+																																					pos:        position{line: 676, col: 28, offset: 21512},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22454,12 +22454,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 678, col: 9, offset: 21534},
+																																				pos: position{line: 678, col: 9, offset: 21566},
 																																				run: (*parser).callonLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 678, col: 9, offset: 21534},
+																																					pos: position{line: 678, col: 9, offset: 21566},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 678, col: 9, offset: 21534},
+																																						pos:        position{line: 678, col: 9, offset: 21566},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22476,7 +22476,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 668, col: 78, offset: 21190},
+																												pos:        position{line: 668, col: 78, offset: 21222},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22485,19 +22485,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 672, col: 25, offset: 21308},
+																									pos: position{line: 672, col: 25, offset: 21340},
 																									run: (*parser).callonLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 672, col: 25, offset: 21308},
+																										pos: position{line: 672, col: 25, offset: 21340},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 672, col: 25, offset: 21308},
+																												pos:        position{line: 672, col: 25, offset: 21340},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 672, col: 38, offset: 21321},
+																												pos:   position{line: 672, col: 38, offset: 21353},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -22529,33 +22529,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 672, col: 57, offset: 21340},
+																												pos:   position{line: 672, col: 57, offset: 21372},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 672, col: 63, offset: 21346},
+																													pos: position{line: 672, col: 63, offset: 21378},
 																													expr: &actionExpr{
-																														pos: position{line: 676, col: 17, offset: 21469},
+																														pos: position{line: 676, col: 17, offset: 21501},
 																														run: (*parser).callonLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 676, col: 17, offset: 21469},
+																															pos: position{line: 676, col: 17, offset: 21501},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 676, col: 17, offset: 21469},
+																																	pos:        position{line: 676, col: 17, offset: 21501},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 676, col: 21, offset: 21473},
+																																	pos:   position{line: 676, col: 21, offset: 21505},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 676, col: 28, offset: 21480},
+																																		pos: position{line: 676, col: 28, offset: 21512},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 676, col: 28, offset: 21480},
+																																				pos: position{line: 676, col: 28, offset: 21512},
 																																				run: (*parser).callonLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 676, col: 28, offset: 21480},
+																																					pos:        position{line: 676, col: 28, offset: 21512},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -22563,12 +22563,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 678, col: 9, offset: 21534},
+																																				pos: position{line: 678, col: 9, offset: 21566},
 																																				run: (*parser).callonLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 678, col: 9, offset: 21534},
+																																					pos: position{line: 678, col: 9, offset: 21566},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 678, col: 9, offset: 21534},
+																																						pos:        position{line: 678, col: 9, offset: 21566},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -22585,7 +22585,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 672, col: 79, offset: 21362},
+																												pos:        position{line: 672, col: 79, offset: 21394},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -22600,27 +22600,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1224, col: 23, offset: 37828},
+																			pos: position{line: 1224, col: 23, offset: 37860},
 																			run: (*parser).callonLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1224, col: 23, offset: 37828},
+																				pos: position{line: 1224, col: 23, offset: 37860},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1222, col: 32, offset: 37796},
+																						pos:        position{line: 1222, col: 32, offset: 37828},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1224, col: 51, offset: 37856},
+																						pos:   position{line: 1224, col: 51, offset: 37888},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1224, col: 56, offset: 37861},
+																							pos: position{line: 1224, col: 56, offset: 37893},
 																							run: (*parser).callonLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1224, col: 56, offset: 37861},
+																								pos: position{line: 1224, col: 56, offset: 37893},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1224, col: 56, offset: 37861},
+																									pos:        position{line: 1224, col: 56, offset: 37893},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -22630,7 +22630,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1222, col: 32, offset: 37796},
+																						pos:        position{line: 1222, col: 32, offset: 37828},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -22639,10 +22639,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2875, col: 11, offset: 91092},
+																			pos: position{line: 2884, col: 11, offset: 91350},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2875, col: 11, offset: 91092},
+																				pos:        position{line: 2884, col: 11, offset: 91350},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22659,7 +22659,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1437, col: 5, offset: 46326},
+									pos:        position{line: 1437, col: 5, offset: 46358},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22668,38 +22668,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1428, col: 19, offset: 46039},
+						pos:  position{line: 1428, col: 19, offset: 46071},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1428, col: 34, offset: 46054},
+						pos:  position{line: 1428, col: 34, offset: 46086},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1466, col: 17, offset: 47319},
+						pos: position{line: 1466, col: 17, offset: 47351},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1466, col: 17, offset: 47319},
+							pos: position{line: 1466, col: 17, offset: 47351},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1466, col: 17, offset: 47319},
+									pos:   position{line: 1466, col: 17, offset: 47351},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1471, col: 5, offset: 47484},
+										pos: position{line: 1471, col: 5, offset: 47516},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1471, col: 5, offset: 47484},
+											pos: position{line: 1471, col: 5, offset: 47516},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1471, col: 5, offset: 47484},
+													pos:   position{line: 1471, col: 5, offset: 47516},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1471, col: 12, offset: 47491},
+														pos: position{line: 1471, col: 12, offset: 47523},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1471, col: 12, offset: 47491},
+															pos: position{line: 1471, col: 12, offset: 47523},
 															expr: &charClassMatcher{
-																pos:        position{line: 1471, col: 12, offset: 47491},
+																pos:        position{line: 1471, col: 12, offset: 47523},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22711,7 +22711,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1474, col: 5, offset: 47575},
+													pos: position{line: 1474, col: 5, offset: 47607},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -22719,33 +22719,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1466, col: 43, offset: 47345},
+									pos:        position{line: 1466, col: 43, offset: 47377},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1466, col: 47, offset: 47349},
+									pos:   position{line: 1466, col: 47, offset: 47381},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1483, col: 23, offset: 47869},
+										pos: position{line: 1483, col: 23, offset: 47901},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1483, col: 23, offset: 47869},
+											pos: position{line: 1483, col: 23, offset: 47901},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1483, col: 23, offset: 47869},
+													pos:   position{line: 1483, col: 23, offset: 47901},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1483, col: 31, offset: 47877},
+														pos: position{line: 1483, col: 31, offset: 47909},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1483, col: 31, offset: 47877},
+															pos: position{line: 1483, col: 31, offset: 47909},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1483, col: 31, offset: 47877},
+																	pos: position{line: 1483, col: 31, offset: 47909},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1483, col: 31, offset: 47877},
+																		pos:        position{line: 1483, col: 31, offset: 47909},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -22753,20 +22753,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1483, col: 41, offset: 47887},
+																	pos: position{line: 1483, col: 41, offset: 47919},
 																	expr: &seqExpr{
-																		pos: position{line: 1483, col: 42, offset: 47888},
+																		pos: position{line: 1483, col: 42, offset: 47920},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1483, col: 42, offset: 47888},
+																				pos:        position{line: 1483, col: 42, offset: 47920},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1483, col: 46, offset: 47892},
+																				pos: position{line: 1483, col: 46, offset: 47924},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1483, col: 46, offset: 47892},
+																					pos:        position{line: 1483, col: 46, offset: 47924},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22782,7 +22782,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1486, col: 5, offset: 47953},
+													pos: position{line: 1486, col: 5, offset: 47985},
 													run: (*parser).callonLink145,
 												},
 											},
@@ -22797,68 +22797,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1443, col: 1, offset: 46474},
+			pos:  position{line: 1443, col: 1, offset: 46506},
 			expr: &choiceExpr{
-				pos: position{line: 1445, col: 5, offset: 46510},
+				pos: position{line: 1445, col: 5, offset: 46542},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1445, col: 5, offset: 46510},
+						pos: position{line: 1445, col: 5, offset: 46542},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1445, col: 5, offset: 46510},
+							pos: position{line: 1445, col: 5, offset: 46542},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1445, col: 5, offset: 46510},
+									pos:        position{line: 1445, col: 5, offset: 46542},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1445, col: 17, offset: 46522},
+									pos:   position{line: 1445, col: 17, offset: 46554},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2854, col: 13, offset: 90336},
+										pos: position{line: 2863, col: 13, offset: 90594},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2854, col: 13, offset: 90336},
+											pos: position{line: 2863, col: 13, offset: 90594},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2854, col: 13, offset: 90336},
+													pos:   position{line: 2863, col: 13, offset: 90594},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2854, col: 20, offset: 90343},
+														pos: position{line: 2863, col: 20, offset: 90601},
 														expr: &actionExpr{
-															pos: position{line: 2862, col: 11, offset: 90582},
+															pos: position{line: 2871, col: 11, offset: 90840},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2862, col: 12, offset: 90583},
+																pos: position{line: 2871, col: 12, offset: 90841},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2862, col: 12, offset: 90583},
+																		pos:        position{line: 2871, col: 12, offset: 90841},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2862, col: 24, offset: 90595},
+																		pos:        position{line: 2871, col: 24, offset: 90853},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2862, col: 37, offset: 90608},
+																		pos:        position{line: 2871, col: 37, offset: 90866},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2862, col: 48, offset: 90619},
+																		pos:        position{line: 2871, col: 48, offset: 90877},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2862, col: 59, offset: 90630},
+																		pos:        position{line: 2871, col: 59, offset: 90888},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22869,38 +22869,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2854, col: 30, offset: 90353},
+													pos:   position{line: 2863, col: 30, offset: 90611},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 5, offset: 90694},
+														pos: position{line: 2876, col: 5, offset: 90952},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2867, col: 5, offset: 90694},
+															pos:   position{line: 2876, col: 5, offset: 90952},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2867, col: 14, offset: 90703},
+																pos: position{line: 2876, col: 14, offset: 90961},
 																expr: &choiceExpr{
-																	pos: position{line: 2868, col: 9, offset: 90713},
+																	pos: position{line: 2877, col: 9, offset: 90971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2868, col: 9, offset: 90713},
+																			pos: position{line: 2877, col: 9, offset: 90971},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2868, col: 9, offset: 90713},
+																				pos: position{line: 2877, col: 9, offset: 90971},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2868, col: 9, offset: 90713},
+																						pos: position{line: 2877, col: 9, offset: 90971},
 																						expr: &litMatcher{
-																							pos:        position{line: 2868, col: 10, offset: 90714},
+																							pos:        position{line: 2877, col: 10, offset: 90972},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2869, col: 9, offset: 90742},
+																						pos: position{line: 2878, col: 9, offset: 91000},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2869, col: 10, offset: 90743},
+																							pos:        position{line: 2878, col: 10, offset: 91001},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22911,27 +22911,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2872, col: 11, offset: 90955},
+																			pos: position{line: 2881, col: 11, offset: 91213},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2872, col: 11, offset: 90955},
+																					pos:        position{line: 2881, col: 11, offset: 91213},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2872, col: 19, offset: 90963},
+																					pos: position{line: 2881, col: 19, offset: 91221},
 																					expr: &seqExpr{
-																						pos: position{line: 2872, col: 21, offset: 90965},
+																						pos: position{line: 2881, col: 21, offset: 91223},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2872, col: 21, offset: 90965},
+																								pos: position{line: 2881, col: 21, offset: 91223},
 																								expr: &actionExpr{
-																									pos: position{line: 2896, col: 10, offset: 91577},
+																									pos: position{line: 2905, col: 10, offset: 91835},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2896, col: 10, offset: 91577},
+																										pos:        position{line: 2905, col: 10, offset: 91835},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22940,11 +22940,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2872, col: 28, offset: 90972},
+																								pos: position{line: 2881, col: 28, offset: 91230},
 																								expr: &notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -22954,35 +22954,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 646, col: 5, offset: 20455},
+																			pos: position{line: 646, col: 5, offset: 20487},
 																			run: (*parser).callonRelativeLink38,
 																			expr: &seqExpr{
-																				pos: position{line: 646, col: 5, offset: 20455},
+																				pos: position{line: 646, col: 5, offset: 20487},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 646, col: 5, offset: 20455},
+																						pos: position{line: 646, col: 5, offset: 20487},
 																						run: (*parser).callonRelativeLink40,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 649, col: 5, offset: 20527},
+																						pos:   position{line: 649, col: 5, offset: 20559},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 649, col: 14, offset: 20536},
+																							pos: position{line: 649, col: 14, offset: 20568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 655, col: 5, offset: 20665},
+																									pos: position{line: 655, col: 5, offset: 20697},
 																									run: (*parser).callonRelativeLink43,
 																									expr: &seqExpr{
-																										pos: position{line: 655, col: 5, offset: 20665},
+																										pos: position{line: 655, col: 5, offset: 20697},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 655, col: 5, offset: 20665},
+																												pos:        position{line: 655, col: 5, offset: 20697},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 655, col: 13, offset: 20673},
+																												pos:   position{line: 655, col: 13, offset: 20705},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23014,7 +23014,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 655, col: 32, offset: 20692},
+																												pos:        position{line: 655, col: 32, offset: 20724},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23023,19 +23023,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 5, offset: 20933},
+																									pos: position{line: 662, col: 5, offset: 20965},
 																									run: (*parser).callonRelativeLink53,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 5, offset: 20933},
+																										pos: position{line: 662, col: 5, offset: 20965},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 5, offset: 20933},
+																												pos:        position{line: 662, col: 5, offset: 20965},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 9, offset: 20937},
+																												pos:   position{line: 662, col: 9, offset: 20969},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23067,7 +23067,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 28, offset: 20956},
+																												pos:        position{line: 662, col: 28, offset: 20988},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23076,19 +23076,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 668, col: 25, offset: 21137},
+																									pos: position{line: 668, col: 25, offset: 21169},
 																									run: (*parser).callonRelativeLink63,
 																									expr: &seqExpr{
-																										pos: position{line: 668, col: 25, offset: 21137},
+																										pos: position{line: 668, col: 25, offset: 21169},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 668, col: 25, offset: 21137},
+																												pos:        position{line: 668, col: 25, offset: 21169},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 668, col: 37, offset: 21149},
+																												pos:   position{line: 668, col: 37, offset: 21181},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23120,33 +23120,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 668, col: 56, offset: 21168},
+																												pos:   position{line: 668, col: 56, offset: 21200},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 668, col: 62, offset: 21174},
+																													pos: position{line: 668, col: 62, offset: 21206},
 																													expr: &actionExpr{
-																														pos: position{line: 676, col: 17, offset: 21469},
+																														pos: position{line: 676, col: 17, offset: 21501},
 																														run: (*parser).callonRelativeLink74,
 																														expr: &seqExpr{
-																															pos: position{line: 676, col: 17, offset: 21469},
+																															pos: position{line: 676, col: 17, offset: 21501},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 676, col: 17, offset: 21469},
+																																	pos:        position{line: 676, col: 17, offset: 21501},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 676, col: 21, offset: 21473},
+																																	pos:   position{line: 676, col: 21, offset: 21505},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 676, col: 28, offset: 21480},
+																																		pos: position{line: 676, col: 28, offset: 21512},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 676, col: 28, offset: 21480},
+																																				pos: position{line: 676, col: 28, offset: 21512},
 																																				run: (*parser).callonRelativeLink79,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 676, col: 28, offset: 21480},
+																																					pos:        position{line: 676, col: 28, offset: 21512},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23154,12 +23154,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 678, col: 9, offset: 21534},
+																																				pos: position{line: 678, col: 9, offset: 21566},
 																																				run: (*parser).callonRelativeLink81,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 678, col: 9, offset: 21534},
+																																					pos: position{line: 678, col: 9, offset: 21566},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 678, col: 9, offset: 21534},
+																																						pos:        position{line: 678, col: 9, offset: 21566},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23176,7 +23176,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 668, col: 78, offset: 21190},
+																												pos:        position{line: 668, col: 78, offset: 21222},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23185,19 +23185,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 672, col: 25, offset: 21308},
+																									pos: position{line: 672, col: 25, offset: 21340},
 																									run: (*parser).callonRelativeLink85,
 																									expr: &seqExpr{
-																										pos: position{line: 672, col: 25, offset: 21308},
+																										pos: position{line: 672, col: 25, offset: 21340},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 672, col: 25, offset: 21308},
+																												pos:        position{line: 672, col: 25, offset: 21340},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 672, col: 38, offset: 21321},
+																												pos:   position{line: 672, col: 38, offset: 21353},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23229,33 +23229,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 672, col: 57, offset: 21340},
+																												pos:   position{line: 672, col: 57, offset: 21372},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 672, col: 63, offset: 21346},
+																													pos: position{line: 672, col: 63, offset: 21378},
 																													expr: &actionExpr{
-																														pos: position{line: 676, col: 17, offset: 21469},
+																														pos: position{line: 676, col: 17, offset: 21501},
 																														run: (*parser).callonRelativeLink96,
 																														expr: &seqExpr{
-																															pos: position{line: 676, col: 17, offset: 21469},
+																															pos: position{line: 676, col: 17, offset: 21501},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 676, col: 17, offset: 21469},
+																																	pos:        position{line: 676, col: 17, offset: 21501},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 676, col: 21, offset: 21473},
+																																	pos:   position{line: 676, col: 21, offset: 21505},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 676, col: 28, offset: 21480},
+																																		pos: position{line: 676, col: 28, offset: 21512},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 676, col: 28, offset: 21480},
+																																				pos: position{line: 676, col: 28, offset: 21512},
 																																				run: (*parser).callonRelativeLink101,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 676, col: 28, offset: 21480},
+																																					pos:        position{line: 676, col: 28, offset: 21512},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23263,12 +23263,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 678, col: 9, offset: 21534},
+																																				pos: position{line: 678, col: 9, offset: 21566},
 																																				run: (*parser).callonRelativeLink103,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 678, col: 9, offset: 21534},
+																																					pos: position{line: 678, col: 9, offset: 21566},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 678, col: 9, offset: 21534},
+																																						pos:        position{line: 678, col: 9, offset: 21566},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23285,7 +23285,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 672, col: 79, offset: 21362},
+																												pos:        position{line: 672, col: 79, offset: 21394},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23300,27 +23300,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1224, col: 23, offset: 37828},
+																			pos: position{line: 1224, col: 23, offset: 37860},
 																			run: (*parser).callonRelativeLink107,
 																			expr: &seqExpr{
-																				pos: position{line: 1224, col: 23, offset: 37828},
+																				pos: position{line: 1224, col: 23, offset: 37860},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1222, col: 32, offset: 37796},
+																						pos:        position{line: 1222, col: 32, offset: 37828},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1224, col: 51, offset: 37856},
+																						pos:   position{line: 1224, col: 51, offset: 37888},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1224, col: 56, offset: 37861},
+																							pos: position{line: 1224, col: 56, offset: 37893},
 																							run: (*parser).callonRelativeLink111,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1224, col: 56, offset: 37861},
+																								pos: position{line: 1224, col: 56, offset: 37893},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1224, col: 56, offset: 37861},
+																									pos:        position{line: 1224, col: 56, offset: 37893},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23330,7 +23330,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1222, col: 32, offset: 37796},
+																						pos:        position{line: 1222, col: 32, offset: 37828},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23339,10 +23339,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2875, col: 11, offset: 91092},
+																			pos: position{line: 2884, col: 11, offset: 91350},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2875, col: 11, offset: 91092},
+																				pos:        position{line: 2884, col: 11, offset: 91350},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23359,10 +23359,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1445, col: 32, offset: 46537},
+									pos:   position{line: 1445, col: 32, offset: 46569},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1445, col: 44, offset: 46549},
+										pos:  position{line: 1445, col: 44, offset: 46581},
 										name: "InlineAttributes",
 									},
 								},
@@ -23370,63 +23370,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1450, col: 5, offset: 46681},
+						pos: position{line: 1450, col: 5, offset: 46713},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1450, col: 5, offset: 46681},
+							pos: position{line: 1450, col: 5, offset: 46713},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1450, col: 5, offset: 46681},
+									pos:        position{line: 1450, col: 5, offset: 46713},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1450, col: 13, offset: 46689},
+									pos:   position{line: 1450, col: 13, offset: 46721},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2854, col: 13, offset: 90336},
+										pos: position{line: 2863, col: 13, offset: 90594},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2854, col: 13, offset: 90336},
+											pos: position{line: 2863, col: 13, offset: 90594},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2854, col: 13, offset: 90336},
+													pos:   position{line: 2863, col: 13, offset: 90594},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2854, col: 20, offset: 90343},
+														pos: position{line: 2863, col: 20, offset: 90601},
 														expr: &actionExpr{
-															pos: position{line: 2862, col: 11, offset: 90582},
+															pos: position{line: 2871, col: 11, offset: 90840},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2862, col: 12, offset: 90583},
+																pos: position{line: 2871, col: 12, offset: 90841},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2862, col: 12, offset: 90583},
+																		pos:        position{line: 2871, col: 12, offset: 90841},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2862, col: 24, offset: 90595},
+																		pos:        position{line: 2871, col: 24, offset: 90853},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2862, col: 37, offset: 90608},
+																		pos:        position{line: 2871, col: 37, offset: 90866},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2862, col: 48, offset: 90619},
+																		pos:        position{line: 2871, col: 48, offset: 90877},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2862, col: 59, offset: 90630},
+																		pos:        position{line: 2871, col: 59, offset: 90888},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23437,38 +23437,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2854, col: 30, offset: 90353},
+													pos:   position{line: 2863, col: 30, offset: 90611},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 5, offset: 90694},
+														pos: position{line: 2876, col: 5, offset: 90952},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2867, col: 5, offset: 90694},
+															pos:   position{line: 2876, col: 5, offset: 90952},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2867, col: 14, offset: 90703},
+																pos: position{line: 2876, col: 14, offset: 90961},
 																expr: &choiceExpr{
-																	pos: position{line: 2868, col: 9, offset: 90713},
+																	pos: position{line: 2877, col: 9, offset: 90971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2868, col: 9, offset: 90713},
+																			pos: position{line: 2877, col: 9, offset: 90971},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2868, col: 9, offset: 90713},
+																				pos: position{line: 2877, col: 9, offset: 90971},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2868, col: 9, offset: 90713},
+																						pos: position{line: 2877, col: 9, offset: 90971},
 																						expr: &litMatcher{
-																							pos:        position{line: 2868, col: 10, offset: 90714},
+																							pos:        position{line: 2877, col: 10, offset: 90972},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2869, col: 9, offset: 90742},
+																						pos: position{line: 2878, col: 9, offset: 91000},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2869, col: 10, offset: 90743},
+																							pos:        position{line: 2878, col: 10, offset: 91001},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23479,27 +23479,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2872, col: 11, offset: 90955},
+																			pos: position{line: 2881, col: 11, offset: 91213},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2872, col: 11, offset: 90955},
+																					pos:        position{line: 2881, col: 11, offset: 91213},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2872, col: 19, offset: 90963},
+																					pos: position{line: 2881, col: 19, offset: 91221},
 																					expr: &seqExpr{
-																						pos: position{line: 2872, col: 21, offset: 90965},
+																						pos: position{line: 2881, col: 21, offset: 91223},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2872, col: 21, offset: 90965},
+																								pos: position{line: 2881, col: 21, offset: 91223},
 																								expr: &actionExpr{
-																									pos: position{line: 2896, col: 10, offset: 91577},
+																									pos: position{line: 2905, col: 10, offset: 91835},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2896, col: 10, offset: 91577},
+																										pos:        position{line: 2905, col: 10, offset: 91835},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23508,11 +23508,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2872, col: 28, offset: 90972},
+																								pos: position{line: 2881, col: 28, offset: 91230},
 																								expr: &notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -23522,35 +23522,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 646, col: 5, offset: 20455},
+																			pos: position{line: 646, col: 5, offset: 20487},
 																			run: (*parser).callonRelativeLink155,
 																			expr: &seqExpr{
-																				pos: position{line: 646, col: 5, offset: 20455},
+																				pos: position{line: 646, col: 5, offset: 20487},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 646, col: 5, offset: 20455},
+																						pos: position{line: 646, col: 5, offset: 20487},
 																						run: (*parser).callonRelativeLink157,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 649, col: 5, offset: 20527},
+																						pos:   position{line: 649, col: 5, offset: 20559},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 649, col: 14, offset: 20536},
+																							pos: position{line: 649, col: 14, offset: 20568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 655, col: 5, offset: 20665},
+																									pos: position{line: 655, col: 5, offset: 20697},
 																									run: (*parser).callonRelativeLink160,
 																									expr: &seqExpr{
-																										pos: position{line: 655, col: 5, offset: 20665},
+																										pos: position{line: 655, col: 5, offset: 20697},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 655, col: 5, offset: 20665},
+																												pos:        position{line: 655, col: 5, offset: 20697},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 655, col: 13, offset: 20673},
+																												pos:   position{line: 655, col: 13, offset: 20705},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23582,7 +23582,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 655, col: 32, offset: 20692},
+																												pos:        position{line: 655, col: 32, offset: 20724},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23591,19 +23591,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 5, offset: 20933},
+																									pos: position{line: 662, col: 5, offset: 20965},
 																									run: (*parser).callonRelativeLink170,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 5, offset: 20933},
+																										pos: position{line: 662, col: 5, offset: 20965},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 5, offset: 20933},
+																												pos:        position{line: 662, col: 5, offset: 20965},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 9, offset: 20937},
+																												pos:   position{line: 662, col: 9, offset: 20969},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23635,7 +23635,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 28, offset: 20956},
+																												pos:        position{line: 662, col: 28, offset: 20988},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23644,19 +23644,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 668, col: 25, offset: 21137},
+																									pos: position{line: 668, col: 25, offset: 21169},
 																									run: (*parser).callonRelativeLink180,
 																									expr: &seqExpr{
-																										pos: position{line: 668, col: 25, offset: 21137},
+																										pos: position{line: 668, col: 25, offset: 21169},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 668, col: 25, offset: 21137},
+																												pos:        position{line: 668, col: 25, offset: 21169},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 668, col: 37, offset: 21149},
+																												pos:   position{line: 668, col: 37, offset: 21181},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23688,33 +23688,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 668, col: 56, offset: 21168},
+																												pos:   position{line: 668, col: 56, offset: 21200},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 668, col: 62, offset: 21174},
+																													pos: position{line: 668, col: 62, offset: 21206},
 																													expr: &actionExpr{
-																														pos: position{line: 676, col: 17, offset: 21469},
+																														pos: position{line: 676, col: 17, offset: 21501},
 																														run: (*parser).callonRelativeLink191,
 																														expr: &seqExpr{
-																															pos: position{line: 676, col: 17, offset: 21469},
+																															pos: position{line: 676, col: 17, offset: 21501},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 676, col: 17, offset: 21469},
+																																	pos:        position{line: 676, col: 17, offset: 21501},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 676, col: 21, offset: 21473},
+																																	pos:   position{line: 676, col: 21, offset: 21505},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 676, col: 28, offset: 21480},
+																																		pos: position{line: 676, col: 28, offset: 21512},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 676, col: 28, offset: 21480},
+																																				pos: position{line: 676, col: 28, offset: 21512},
 																																				run: (*parser).callonRelativeLink196,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 676, col: 28, offset: 21480},
+																																					pos:        position{line: 676, col: 28, offset: 21512},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23722,12 +23722,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 678, col: 9, offset: 21534},
+																																				pos: position{line: 678, col: 9, offset: 21566},
 																																				run: (*parser).callonRelativeLink198,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 678, col: 9, offset: 21534},
+																																					pos: position{line: 678, col: 9, offset: 21566},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 678, col: 9, offset: 21534},
+																																						pos:        position{line: 678, col: 9, offset: 21566},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23744,7 +23744,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 668, col: 78, offset: 21190},
+																												pos:        position{line: 668, col: 78, offset: 21222},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23753,19 +23753,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 672, col: 25, offset: 21308},
+																									pos: position{line: 672, col: 25, offset: 21340},
 																									run: (*parser).callonRelativeLink202,
 																									expr: &seqExpr{
-																										pos: position{line: 672, col: 25, offset: 21308},
+																										pos: position{line: 672, col: 25, offset: 21340},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 672, col: 25, offset: 21308},
+																												pos:        position{line: 672, col: 25, offset: 21340},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 672, col: 38, offset: 21321},
+																												pos:   position{line: 672, col: 38, offset: 21353},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -23797,33 +23797,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 672, col: 57, offset: 21340},
+																												pos:   position{line: 672, col: 57, offset: 21372},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 672, col: 63, offset: 21346},
+																													pos: position{line: 672, col: 63, offset: 21378},
 																													expr: &actionExpr{
-																														pos: position{line: 676, col: 17, offset: 21469},
+																														pos: position{line: 676, col: 17, offset: 21501},
 																														run: (*parser).callonRelativeLink213,
 																														expr: &seqExpr{
-																															pos: position{line: 676, col: 17, offset: 21469},
+																															pos: position{line: 676, col: 17, offset: 21501},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 676, col: 17, offset: 21469},
+																																	pos:        position{line: 676, col: 17, offset: 21501},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 676, col: 21, offset: 21473},
+																																	pos:   position{line: 676, col: 21, offset: 21505},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 676, col: 28, offset: 21480},
+																																		pos: position{line: 676, col: 28, offset: 21512},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 676, col: 28, offset: 21480},
+																																				pos: position{line: 676, col: 28, offset: 21512},
 																																				run: (*parser).callonRelativeLink218,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 676, col: 28, offset: 21480},
+																																					pos:        position{line: 676, col: 28, offset: 21512},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -23831,12 +23831,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 678, col: 9, offset: 21534},
+																																				pos: position{line: 678, col: 9, offset: 21566},
 																																				run: (*parser).callonRelativeLink220,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 678, col: 9, offset: 21534},
+																																					pos: position{line: 678, col: 9, offset: 21566},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 678, col: 9, offset: 21534},
+																																						pos:        position{line: 678, col: 9, offset: 21566},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -23853,7 +23853,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 672, col: 79, offset: 21362},
+																												pos:        position{line: 672, col: 79, offset: 21394},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -23868,27 +23868,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1224, col: 23, offset: 37828},
+																			pos: position{line: 1224, col: 23, offset: 37860},
 																			run: (*parser).callonRelativeLink224,
 																			expr: &seqExpr{
-																				pos: position{line: 1224, col: 23, offset: 37828},
+																				pos: position{line: 1224, col: 23, offset: 37860},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1222, col: 32, offset: 37796},
+																						pos:        position{line: 1222, col: 32, offset: 37828},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1224, col: 51, offset: 37856},
+																						pos:   position{line: 1224, col: 51, offset: 37888},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1224, col: 56, offset: 37861},
+																							pos: position{line: 1224, col: 56, offset: 37893},
 																							run: (*parser).callonRelativeLink228,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1224, col: 56, offset: 37861},
+																								pos: position{line: 1224, col: 56, offset: 37893},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1224, col: 56, offset: 37861},
+																									pos:        position{line: 1224, col: 56, offset: 37893},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -23898,7 +23898,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1222, col: 32, offset: 37796},
+																						pos:        position{line: 1222, col: 32, offset: 37828},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -23907,10 +23907,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2875, col: 11, offset: 91092},
+																			pos: position{line: 2884, col: 11, offset: 91350},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2875, col: 11, offset: 91092},
+																				pos:        position{line: 2884, col: 11, offset: 91350},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23927,10 +23927,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1450, col: 28, offset: 46704},
+									pos:   position{line: 1450, col: 28, offset: 46736},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1450, col: 40, offset: 46716},
+										pos:  position{line: 1450, col: 40, offset: 46748},
 										name: "InlineAttributes",
 									},
 								},
@@ -23942,75 +23942,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1454, col: 1, offset: 46832},
+			pos:  position{line: 1454, col: 1, offset: 46864},
 			expr: &choiceExpr{
-				pos: position{line: 1457, col: 5, offset: 46994},
+				pos: position{line: 1457, col: 5, offset: 47026},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1457, col: 5, offset: 46994},
+						pos: position{line: 1457, col: 5, offset: 47026},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1457, col: 5, offset: 46994},
+							pos: position{line: 1457, col: 5, offset: 47026},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1457, col: 5, offset: 46994},
+									pos:        position{line: 1457, col: 5, offset: 47026},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1457, col: 9, offset: 46998},
+									pos:   position{line: 1457, col: 9, offset: 47030},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2858, col: 23, offset: 90463},
+										pos: position{line: 2867, col: 23, offset: 90721},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2858, col: 23, offset: 90463},
+											pos: position{line: 2867, col: 23, offset: 90721},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2858, col: 23, offset: 90463},
+													pos: position{line: 2867, col: 23, offset: 90721},
 													expr: &litMatcher{
-														pos:        position{line: 2858, col: 24, offset: 90464},
+														pos:        position{line: 2867, col: 24, offset: 90722},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2858, col: 28, offset: 90468},
+													pos:   position{line: 2867, col: 28, offset: 90726},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 11, offset: 90582},
+														pos: position{line: 2871, col: 11, offset: 90840},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2862, col: 12, offset: 90583},
+															pos: position{line: 2871, col: 12, offset: 90841},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2862, col: 12, offset: 90583},
+																	pos:        position{line: 2871, col: 12, offset: 90841},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2862, col: 24, offset: 90595},
+																	pos:        position{line: 2871, col: 24, offset: 90853},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2862, col: 37, offset: 90608},
+																	pos:        position{line: 2871, col: 37, offset: 90866},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2862, col: 48, offset: 90619},
+																	pos:        position{line: 2871, col: 48, offset: 90877},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2862, col: 59, offset: 90630},
+																	pos:        position{line: 2871, col: 59, offset: 90888},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24020,38 +24020,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2858, col: 44, offset: 90484},
+													pos:   position{line: 2867, col: 44, offset: 90742},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 5, offset: 90694},
+														pos: position{line: 2876, col: 5, offset: 90952},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2867, col: 5, offset: 90694},
+															pos:   position{line: 2876, col: 5, offset: 90952},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2867, col: 14, offset: 90703},
+																pos: position{line: 2876, col: 14, offset: 90961},
 																expr: &choiceExpr{
-																	pos: position{line: 2868, col: 9, offset: 90713},
+																	pos: position{line: 2877, col: 9, offset: 90971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2868, col: 9, offset: 90713},
+																			pos: position{line: 2877, col: 9, offset: 90971},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2868, col: 9, offset: 90713},
+																				pos: position{line: 2877, col: 9, offset: 90971},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2868, col: 9, offset: 90713},
+																						pos: position{line: 2877, col: 9, offset: 90971},
 																						expr: &litMatcher{
-																							pos:        position{line: 2868, col: 10, offset: 90714},
+																							pos:        position{line: 2877, col: 10, offset: 90972},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2869, col: 9, offset: 90742},
+																						pos: position{line: 2878, col: 9, offset: 91000},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2869, col: 10, offset: 90743},
+																							pos:        position{line: 2878, col: 10, offset: 91001},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24062,27 +24062,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2872, col: 11, offset: 90955},
+																			pos: position{line: 2881, col: 11, offset: 91213},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2872, col: 11, offset: 90955},
+																					pos:        position{line: 2881, col: 11, offset: 91213},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2872, col: 19, offset: 90963},
+																					pos: position{line: 2881, col: 19, offset: 91221},
 																					expr: &seqExpr{
-																						pos: position{line: 2872, col: 21, offset: 90965},
+																						pos: position{line: 2881, col: 21, offset: 91223},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2872, col: 21, offset: 90965},
+																								pos: position{line: 2881, col: 21, offset: 91223},
 																								expr: &actionExpr{
-																									pos: position{line: 2896, col: 10, offset: 91577},
+																									pos: position{line: 2905, col: 10, offset: 91835},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2896, col: 10, offset: 91577},
+																										pos:        position{line: 2905, col: 10, offset: 91835},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24091,11 +24091,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2872, col: 28, offset: 90972},
+																								pos: position{line: 2881, col: 28, offset: 91230},
 																								expr: &notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -24105,35 +24105,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 646, col: 5, offset: 20455},
+																			pos: position{line: 646, col: 5, offset: 20487},
 																			run: (*parser).callonExternalLink39,
 																			expr: &seqExpr{
-																				pos: position{line: 646, col: 5, offset: 20455},
+																				pos: position{line: 646, col: 5, offset: 20487},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 646, col: 5, offset: 20455},
+																						pos: position{line: 646, col: 5, offset: 20487},
 																						run: (*parser).callonExternalLink41,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 649, col: 5, offset: 20527},
+																						pos:   position{line: 649, col: 5, offset: 20559},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 649, col: 14, offset: 20536},
+																							pos: position{line: 649, col: 14, offset: 20568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 655, col: 5, offset: 20665},
+																									pos: position{line: 655, col: 5, offset: 20697},
 																									run: (*parser).callonExternalLink44,
 																									expr: &seqExpr{
-																										pos: position{line: 655, col: 5, offset: 20665},
+																										pos: position{line: 655, col: 5, offset: 20697},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 655, col: 5, offset: 20665},
+																												pos:        position{line: 655, col: 5, offset: 20697},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 655, col: 13, offset: 20673},
+																												pos:   position{line: 655, col: 13, offset: 20705},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24165,7 +24165,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 655, col: 32, offset: 20692},
+																												pos:        position{line: 655, col: 32, offset: 20724},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24174,19 +24174,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 5, offset: 20933},
+																									pos: position{line: 662, col: 5, offset: 20965},
 																									run: (*parser).callonExternalLink54,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 5, offset: 20933},
+																										pos: position{line: 662, col: 5, offset: 20965},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 5, offset: 20933},
+																												pos:        position{line: 662, col: 5, offset: 20965},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 9, offset: 20937},
+																												pos:   position{line: 662, col: 9, offset: 20969},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24218,7 +24218,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 28, offset: 20956},
+																												pos:        position{line: 662, col: 28, offset: 20988},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24227,19 +24227,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 668, col: 25, offset: 21137},
+																									pos: position{line: 668, col: 25, offset: 21169},
 																									run: (*parser).callonExternalLink64,
 																									expr: &seqExpr{
-																										pos: position{line: 668, col: 25, offset: 21137},
+																										pos: position{line: 668, col: 25, offset: 21169},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 668, col: 25, offset: 21137},
+																												pos:        position{line: 668, col: 25, offset: 21169},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 668, col: 37, offset: 21149},
+																												pos:   position{line: 668, col: 37, offset: 21181},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24271,33 +24271,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 668, col: 56, offset: 21168},
+																												pos:   position{line: 668, col: 56, offset: 21200},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 668, col: 62, offset: 21174},
+																													pos: position{line: 668, col: 62, offset: 21206},
 																													expr: &actionExpr{
-																														pos: position{line: 676, col: 17, offset: 21469},
+																														pos: position{line: 676, col: 17, offset: 21501},
 																														run: (*parser).callonExternalLink75,
 																														expr: &seqExpr{
-																															pos: position{line: 676, col: 17, offset: 21469},
+																															pos: position{line: 676, col: 17, offset: 21501},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 676, col: 17, offset: 21469},
+																																	pos:        position{line: 676, col: 17, offset: 21501},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 676, col: 21, offset: 21473},
+																																	pos:   position{line: 676, col: 21, offset: 21505},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 676, col: 28, offset: 21480},
+																																		pos: position{line: 676, col: 28, offset: 21512},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 676, col: 28, offset: 21480},
+																																				pos: position{line: 676, col: 28, offset: 21512},
 																																				run: (*parser).callonExternalLink80,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 676, col: 28, offset: 21480},
+																																					pos:        position{line: 676, col: 28, offset: 21512},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24305,12 +24305,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 678, col: 9, offset: 21534},
+																																				pos: position{line: 678, col: 9, offset: 21566},
 																																				run: (*parser).callonExternalLink82,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 678, col: 9, offset: 21534},
+																																					pos: position{line: 678, col: 9, offset: 21566},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 678, col: 9, offset: 21534},
+																																						pos:        position{line: 678, col: 9, offset: 21566},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24327,7 +24327,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 668, col: 78, offset: 21190},
+																												pos:        position{line: 668, col: 78, offset: 21222},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24336,19 +24336,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 672, col: 25, offset: 21308},
+																									pos: position{line: 672, col: 25, offset: 21340},
 																									run: (*parser).callonExternalLink86,
 																									expr: &seqExpr{
-																										pos: position{line: 672, col: 25, offset: 21308},
+																										pos: position{line: 672, col: 25, offset: 21340},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 672, col: 25, offset: 21308},
+																												pos:        position{line: 672, col: 25, offset: 21340},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 672, col: 38, offset: 21321},
+																												pos:   position{line: 672, col: 38, offset: 21353},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24380,33 +24380,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 672, col: 57, offset: 21340},
+																												pos:   position{line: 672, col: 57, offset: 21372},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 672, col: 63, offset: 21346},
+																													pos: position{line: 672, col: 63, offset: 21378},
 																													expr: &actionExpr{
-																														pos: position{line: 676, col: 17, offset: 21469},
+																														pos: position{line: 676, col: 17, offset: 21501},
 																														run: (*parser).callonExternalLink97,
 																														expr: &seqExpr{
-																															pos: position{line: 676, col: 17, offset: 21469},
+																															pos: position{line: 676, col: 17, offset: 21501},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 676, col: 17, offset: 21469},
+																																	pos:        position{line: 676, col: 17, offset: 21501},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 676, col: 21, offset: 21473},
+																																	pos:   position{line: 676, col: 21, offset: 21505},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 676, col: 28, offset: 21480},
+																																		pos: position{line: 676, col: 28, offset: 21512},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 676, col: 28, offset: 21480},
+																																				pos: position{line: 676, col: 28, offset: 21512},
 																																				run: (*parser).callonExternalLink102,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 676, col: 28, offset: 21480},
+																																					pos:        position{line: 676, col: 28, offset: 21512},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24414,12 +24414,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 678, col: 9, offset: 21534},
+																																				pos: position{line: 678, col: 9, offset: 21566},
 																																				run: (*parser).callonExternalLink104,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 678, col: 9, offset: 21534},
+																																					pos: position{line: 678, col: 9, offset: 21566},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 678, col: 9, offset: 21534},
+																																						pos:        position{line: 678, col: 9, offset: 21566},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24436,7 +24436,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 672, col: 79, offset: 21362},
+																												pos:        position{line: 672, col: 79, offset: 21394},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24451,27 +24451,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1224, col: 23, offset: 37828},
+																			pos: position{line: 1224, col: 23, offset: 37860},
 																			run: (*parser).callonExternalLink108,
 																			expr: &seqExpr{
-																				pos: position{line: 1224, col: 23, offset: 37828},
+																				pos: position{line: 1224, col: 23, offset: 37860},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1222, col: 32, offset: 37796},
+																						pos:        position{line: 1222, col: 32, offset: 37828},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1224, col: 51, offset: 37856},
+																						pos:   position{line: 1224, col: 51, offset: 37888},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1224, col: 56, offset: 37861},
+																							pos: position{line: 1224, col: 56, offset: 37893},
 																							run: (*parser).callonExternalLink112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1224, col: 56, offset: 37861},
+																								pos: position{line: 1224, col: 56, offset: 37893},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1224, col: 56, offset: 37861},
+																									pos:        position{line: 1224, col: 56, offset: 37893},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -24481,7 +24481,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1222, col: 32, offset: 37796},
+																						pos:        position{line: 1222, col: 32, offset: 37828},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -24490,10 +24490,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2875, col: 11, offset: 91092},
+																			pos: position{line: 2884, col: 11, offset: 91350},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2875, col: 11, offset: 91092},
+																				pos:        position{line: 2884, col: 11, offset: 91350},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24510,12 +24510,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1457, col: 34, offset: 47023},
+									pos:   position{line: 1457, col: 34, offset: 47055},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1457, col: 45, offset: 47034},
+										pos: position{line: 1457, col: 45, offset: 47066},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1457, col: 46, offset: 47035},
+											pos:  position{line: 1457, col: 46, offset: 47067},
 											name: "InlineAttributes",
 										},
 									},
@@ -24524,64 +24524,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1462, col: 5, offset: 47168},
+						pos: position{line: 1462, col: 5, offset: 47200},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1462, col: 5, offset: 47168},
+							pos: position{line: 1462, col: 5, offset: 47200},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1462, col: 5, offset: 47168},
+									pos:   position{line: 1462, col: 5, offset: 47200},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2858, col: 23, offset: 90463},
+										pos: position{line: 2867, col: 23, offset: 90721},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2858, col: 23, offset: 90463},
+											pos: position{line: 2867, col: 23, offset: 90721},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2858, col: 23, offset: 90463},
+													pos: position{line: 2867, col: 23, offset: 90721},
 													expr: &litMatcher{
-														pos:        position{line: 2858, col: 24, offset: 90464},
+														pos:        position{line: 2867, col: 24, offset: 90722},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2858, col: 28, offset: 90468},
+													pos:   position{line: 2867, col: 28, offset: 90726},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2862, col: 11, offset: 90582},
+														pos: position{line: 2871, col: 11, offset: 90840},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2862, col: 12, offset: 90583},
+															pos: position{line: 2871, col: 12, offset: 90841},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2862, col: 12, offset: 90583},
+																	pos:        position{line: 2871, col: 12, offset: 90841},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2862, col: 24, offset: 90595},
+																	pos:        position{line: 2871, col: 24, offset: 90853},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2862, col: 37, offset: 90608},
+																	pos:        position{line: 2871, col: 37, offset: 90866},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2862, col: 48, offset: 90619},
+																	pos:        position{line: 2871, col: 48, offset: 90877},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2862, col: 59, offset: 90630},
+																	pos:        position{line: 2871, col: 59, offset: 90888},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24591,38 +24591,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2858, col: 44, offset: 90484},
+													pos:   position{line: 2867, col: 44, offset: 90742},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2867, col: 5, offset: 90694},
+														pos: position{line: 2876, col: 5, offset: 90952},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2867, col: 5, offset: 90694},
+															pos:   position{line: 2876, col: 5, offset: 90952},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2867, col: 14, offset: 90703},
+																pos: position{line: 2876, col: 14, offset: 90961},
 																expr: &choiceExpr{
-																	pos: position{line: 2868, col: 9, offset: 90713},
+																	pos: position{line: 2877, col: 9, offset: 90971},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2868, col: 9, offset: 90713},
+																			pos: position{line: 2877, col: 9, offset: 90971},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2868, col: 9, offset: 90713},
+																				pos: position{line: 2877, col: 9, offset: 90971},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2868, col: 9, offset: 90713},
+																						pos: position{line: 2877, col: 9, offset: 90971},
 																						expr: &litMatcher{
-																							pos:        position{line: 2868, col: 10, offset: 90714},
+																							pos:        position{line: 2877, col: 10, offset: 90972},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2869, col: 9, offset: 90742},
+																						pos: position{line: 2878, col: 9, offset: 91000},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2869, col: 10, offset: 90743},
+																							pos:        position{line: 2878, col: 10, offset: 91001},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24633,27 +24633,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2872, col: 11, offset: 90955},
+																			pos: position{line: 2881, col: 11, offset: 91213},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2872, col: 11, offset: 90955},
+																					pos:        position{line: 2881, col: 11, offset: 91213},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2872, col: 19, offset: 90963},
+																					pos: position{line: 2881, col: 19, offset: 91221},
 																					expr: &seqExpr{
-																						pos: position{line: 2872, col: 21, offset: 90965},
+																						pos: position{line: 2881, col: 21, offset: 91223},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2872, col: 21, offset: 90965},
+																								pos: position{line: 2881, col: 21, offset: 91223},
 																								expr: &actionExpr{
-																									pos: position{line: 2896, col: 10, offset: 91577},
+																									pos: position{line: 2905, col: 10, offset: 91835},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2896, col: 10, offset: 91577},
+																										pos:        position{line: 2905, col: 10, offset: 91835},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24662,11 +24662,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2872, col: 28, offset: 90972},
+																								pos: position{line: 2881, col: 28, offset: 91230},
 																								expr: &notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -24676,35 +24676,35 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 646, col: 5, offset: 20455},
+																			pos: position{line: 646, col: 5, offset: 20487},
 																			run: (*parser).callonExternalLink157,
 																			expr: &seqExpr{
-																				pos: position{line: 646, col: 5, offset: 20455},
+																				pos: position{line: 646, col: 5, offset: 20487},
 																				exprs: []interface{}{
 																					&andCodeExpr{
-																						pos: position{line: 646, col: 5, offset: 20455},
+																						pos: position{line: 646, col: 5, offset: 20487},
 																						run: (*parser).callonExternalLink159,
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 649, col: 5, offset: 20527},
+																						pos:   position{line: 649, col: 5, offset: 20559},
 																						label: "element",
 																						expr: &choiceExpr{
-																							pos: position{line: 649, col: 14, offset: 20536},
+																							pos: position{line: 649, col: 14, offset: 20568},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 655, col: 5, offset: 20665},
+																									pos: position{line: 655, col: 5, offset: 20697},
 																									run: (*parser).callonExternalLink162,
 																									expr: &seqExpr{
-																										pos: position{line: 655, col: 5, offset: 20665},
+																										pos: position{line: 655, col: 5, offset: 20697},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 655, col: 5, offset: 20665},
+																												pos:        position{line: 655, col: 5, offset: 20697},
 																												val:        "\\{",
 																												ignoreCase: false,
 																												want:       "\"\\\\{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 655, col: 13, offset: 20673},
+																												pos:   position{line: 655, col: 13, offset: 20705},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24736,7 +24736,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 655, col: 32, offset: 20692},
+																												pos:        position{line: 655, col: 32, offset: 20724},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24745,19 +24745,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 662, col: 5, offset: 20933},
+																									pos: position{line: 662, col: 5, offset: 20965},
 																									run: (*parser).callonExternalLink172,
 																									expr: &seqExpr{
-																										pos: position{line: 662, col: 5, offset: 20933},
+																										pos: position{line: 662, col: 5, offset: 20965},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 662, col: 5, offset: 20933},
+																												pos:        position{line: 662, col: 5, offset: 20965},
 																												val:        "{",
 																												ignoreCase: false,
 																												want:       "\"{\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 662, col: 9, offset: 20937},
+																												pos:   position{line: 662, col: 9, offset: 20969},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24789,7 +24789,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 662, col: 28, offset: 20956},
+																												pos:        position{line: 662, col: 28, offset: 20988},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24798,19 +24798,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 668, col: 25, offset: 21137},
+																									pos: position{line: 668, col: 25, offset: 21169},
 																									run: (*parser).callonExternalLink182,
 																									expr: &seqExpr{
-																										pos: position{line: 668, col: 25, offset: 21137},
+																										pos: position{line: 668, col: 25, offset: 21169},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 668, col: 25, offset: 21137},
+																												pos:        position{line: 668, col: 25, offset: 21169},
 																												val:        "{counter:",
 																												ignoreCase: false,
 																												want:       "\"{counter:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 668, col: 37, offset: 21149},
+																												pos:   position{line: 668, col: 37, offset: 21181},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24842,33 +24842,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 668, col: 56, offset: 21168},
+																												pos:   position{line: 668, col: 56, offset: 21200},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 668, col: 62, offset: 21174},
+																													pos: position{line: 668, col: 62, offset: 21206},
 																													expr: &actionExpr{
-																														pos: position{line: 676, col: 17, offset: 21469},
+																														pos: position{line: 676, col: 17, offset: 21501},
 																														run: (*parser).callonExternalLink193,
 																														expr: &seqExpr{
-																															pos: position{line: 676, col: 17, offset: 21469},
+																															pos: position{line: 676, col: 17, offset: 21501},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 676, col: 17, offset: 21469},
+																																	pos:        position{line: 676, col: 17, offset: 21501},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 676, col: 21, offset: 21473},
+																																	pos:   position{line: 676, col: 21, offset: 21505},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 676, col: 28, offset: 21480},
+																																		pos: position{line: 676, col: 28, offset: 21512},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 676, col: 28, offset: 21480},
+																																				pos: position{line: 676, col: 28, offset: 21512},
 																																				run: (*parser).callonExternalLink198,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 676, col: 28, offset: 21480},
+																																					pos:        position{line: 676, col: 28, offset: 21512},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24876,12 +24876,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 678, col: 9, offset: 21534},
+																																				pos: position{line: 678, col: 9, offset: 21566},
 																																				run: (*parser).callonExternalLink200,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 678, col: 9, offset: 21534},
+																																					pos: position{line: 678, col: 9, offset: 21566},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 678, col: 9, offset: 21534},
+																																						pos:        position{line: 678, col: 9, offset: 21566},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -24898,7 +24898,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 668, col: 78, offset: 21190},
+																												pos:        position{line: 668, col: 78, offset: 21222},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -24907,19 +24907,19 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 672, col: 25, offset: 21308},
+																									pos: position{line: 672, col: 25, offset: 21340},
 																									run: (*parser).callonExternalLink204,
 																									expr: &seqExpr{
-																										pos: position{line: 672, col: 25, offset: 21308},
+																										pos: position{line: 672, col: 25, offset: 21340},
 																										exprs: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 672, col: 25, offset: 21308},
+																												pos:        position{line: 672, col: 25, offset: 21340},
 																												val:        "{counter2:",
 																												ignoreCase: false,
 																												want:       "\"{counter2:\"",
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 672, col: 38, offset: 21321},
+																												pos:   position{line: 672, col: 38, offset: 21353},
 																												label: "name",
 																												expr: &actionExpr{
 																													pos: position{line: 318, col: 18, offset: 9736},
@@ -24951,33 +24951,33 @@ var g = &grammar{
 																												},
 																											},
 																											&labeledExpr{
-																												pos:   position{line: 672, col: 57, offset: 21340},
+																												pos:   position{line: 672, col: 57, offset: 21372},
 																												label: "start",
 																												expr: &zeroOrOneExpr{
-																													pos: position{line: 672, col: 63, offset: 21346},
+																													pos: position{line: 672, col: 63, offset: 21378},
 																													expr: &actionExpr{
-																														pos: position{line: 676, col: 17, offset: 21469},
+																														pos: position{line: 676, col: 17, offset: 21501},
 																														run: (*parser).callonExternalLink215,
 																														expr: &seqExpr{
-																															pos: position{line: 676, col: 17, offset: 21469},
+																															pos: position{line: 676, col: 17, offset: 21501},
 																															exprs: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 676, col: 17, offset: 21469},
+																																	pos:        position{line: 676, col: 17, offset: 21501},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
 																																},
 																																&labeledExpr{
-																																	pos:   position{line: 676, col: 21, offset: 21473},
+																																	pos:   position{line: 676, col: 21, offset: 21505},
 																																	label: "start",
 																																	expr: &choiceExpr{
-																																		pos: position{line: 676, col: 28, offset: 21480},
+																																		pos: position{line: 676, col: 28, offset: 21512},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 676, col: 28, offset: 21480},
+																																				pos: position{line: 676, col: 28, offset: 21512},
 																																				run: (*parser).callonExternalLink220,
 																																				expr: &charClassMatcher{
-																																					pos:        position{line: 676, col: 28, offset: 21480},
+																																					pos:        position{line: 676, col: 28, offset: 21512},
 																																					val:        "[A-Za-z]",
 																																					ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																					ignoreCase: false,
@@ -24985,12 +24985,12 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&actionExpr{
-																																				pos: position{line: 678, col: 9, offset: 21534},
+																																				pos: position{line: 678, col: 9, offset: 21566},
 																																				run: (*parser).callonExternalLink222,
 																																				expr: &oneOrMoreExpr{
-																																					pos: position{line: 678, col: 9, offset: 21534},
+																																					pos: position{line: 678, col: 9, offset: 21566},
 																																					expr: &charClassMatcher{
-																																						pos:        position{line: 678, col: 9, offset: 21534},
+																																						pos:        position{line: 678, col: 9, offset: 21566},
 																																						val:        "[0-9]",
 																																						ranges:     []rune{'0', '9'},
 																																						ignoreCase: false,
@@ -25007,7 +25007,7 @@ var g = &grammar{
 																												},
 																											},
 																											&litMatcher{
-																												pos:        position{line: 672, col: 79, offset: 21362},
+																												pos:        position{line: 672, col: 79, offset: 21394},
 																												val:        "}",
 																												ignoreCase: false,
 																												want:       "\"}\"",
@@ -25022,27 +25022,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 1224, col: 23, offset: 37828},
+																			pos: position{line: 1224, col: 23, offset: 37860},
 																			run: (*parser).callonExternalLink226,
 																			expr: &seqExpr{
-																				pos: position{line: 1224, col: 23, offset: 37828},
+																				pos: position{line: 1224, col: 23, offset: 37860},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 1222, col: 32, offset: 37796},
+																						pos:        position{line: 1222, col: 32, offset: 37828},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 1224, col: 51, offset: 37856},
+																						pos:   position{line: 1224, col: 51, offset: 37888},
 																						label: "ref",
 																						expr: &actionExpr{
-																							pos: position{line: 1224, col: 56, offset: 37861},
+																							pos: position{line: 1224, col: 56, offset: 37893},
 																							run: (*parser).callonExternalLink230,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1224, col: 56, offset: 37861},
+																								pos: position{line: 1224, col: 56, offset: 37893},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 1224, col: 56, offset: 37861},
+																									pos:        position{line: 1224, col: 56, offset: 37893},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -25052,7 +25052,7 @@ var g = &grammar{
 																						},
 																					},
 																					&litMatcher{
-																						pos:        position{line: 1222, col: 32, offset: 37796},
+																						pos:        position{line: 1222, col: 32, offset: 37828},
 																						val:        "�",
 																						ignoreCase: false,
 																						want:       "\"�\"",
@@ -25061,10 +25061,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2875, col: 11, offset: 91092},
+																			pos: position{line: 2884, col: 11, offset: 91350},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2875, col: 11, offset: 91092},
+																				pos:        position{line: 2884, col: 11, offset: 91350},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25081,12 +25081,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1462, col: 30, offset: 47193},
+									pos:   position{line: 1462, col: 30, offset: 47225},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1462, col: 41, offset: 47204},
+										pos: position{line: 1462, col: 41, offset: 47236},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1462, col: 42, offset: 47205},
+											pos:  position{line: 1462, col: 42, offset: 47237},
 											name: "InlineAttributes",
 										},
 									},
@@ -25099,41 +25099,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1496, col: 1, offset: 48346},
+			pos:  position{line: 1496, col: 1, offset: 48378},
 			expr: &actionExpr{
-				pos: position{line: 1497, col: 5, offset: 48367},
+				pos: position{line: 1497, col: 5, offset: 48399},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1497, col: 5, offset: 48367},
+					pos: position{line: 1497, col: 5, offset: 48399},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1497, col: 5, offset: 48367},
+							pos:   position{line: 1497, col: 5, offset: 48399},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1503, col: 5, offset: 48569},
+								pos: position{line: 1503, col: 5, offset: 48601},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1596, col: 5, offset: 51503},
+										pos: position{line: 1596, col: 5, offset: 51535},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1596, col: 5, offset: 51503},
+											pos: position{line: 1596, col: 5, offset: 51535},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1596, col: 5, offset: 51503},
+													pos:   position{line: 1596, col: 5, offset: 51535},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1603, col: 5, offset: 51711},
+														pos: position{line: 1603, col: 5, offset: 51743},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1603, col: 5, offset: 51711},
+															pos: position{line: 1603, col: 5, offset: 51743},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1603, col: 5, offset: 51711},
+																	pos: position{line: 1603, col: 5, offset: 51743},
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 10, offset: 91577},
+																		pos: position{line: 2905, col: 10, offset: 91835},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 10, offset: 91577},
+																			pos:        position{line: 2905, col: 10, offset: 91835},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25142,27 +25142,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1603, col: 12, offset: 51718},
+																	pos:   position{line: 1603, col: 12, offset: 51750},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1605, col: 9, offset: 51781},
+																		pos: position{line: 1605, col: 9, offset: 51813},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1605, col: 9, offset: 51781},
+																				pos: position{line: 1605, col: 9, offset: 51813},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1605, col: 9, offset: 51781},
+																					pos: position{line: 1605, col: 9, offset: 51813},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1605, col: 9, offset: 51781},
+																							pos:   position{line: 1605, col: 9, offset: 51813},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1605, col: 16, offset: 51788},
+																								pos: position{line: 1605, col: 16, offset: 51820},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1605, col: 16, offset: 51788},
+																									pos: position{line: 1605, col: 16, offset: 51820},
 																									expr: &litMatcher{
-																										pos:        position{line: 1605, col: 17, offset: 51789},
+																										pos:        position{line: 1605, col: 17, offset: 51821},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -25171,22 +25171,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1609, col: 9, offset: 51889},
+																							pos: position{line: 1609, col: 9, offset: 51921},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1628, col: 11, offset: 52606},
+																				pos: position{line: 1628, col: 11, offset: 52638},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1628, col: 11, offset: 52606},
+																					pos: position{line: 1628, col: 11, offset: 52638},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1628, col: 11, offset: 52606},
+																							pos: position{line: 1628, col: 11, offset: 52638},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1628, col: 12, offset: 52607},
+																								pos:        position{line: 1628, col: 12, offset: 52639},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -25194,7 +25194,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1628, col: 20, offset: 52615},
+																							pos:        position{line: 1628, col: 20, offset: 52647},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25203,20 +25203,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1630, col: 13, offset: 52732},
+																				pos: position{line: 1630, col: 13, offset: 52764},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1630, col: 13, offset: 52732},
+																					pos: position{line: 1630, col: 13, offset: 52764},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1630, col: 14, offset: 52733},
+																							pos:        position{line: 1630, col: 14, offset: 52765},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1630, col: 21, offset: 52740},
+																							pos:        position{line: 1630, col: 21, offset: 52772},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25225,20 +25225,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1632, col: 13, offset: 52860},
+																				pos: position{line: 1632, col: 13, offset: 52892},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1632, col: 13, offset: 52860},
+																					pos: position{line: 1632, col: 13, offset: 52892},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1632, col: 14, offset: 52861},
+																							pos:        position{line: 1632, col: 14, offset: 52893},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1632, col: 21, offset: 52868},
+																							pos:        position{line: 1632, col: 21, offset: 52900},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25247,15 +25247,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1634, col: 13, offset: 52988},
+																				pos: position{line: 1634, col: 13, offset: 53020},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1634, col: 13, offset: 52988},
+																					pos: position{line: 1634, col: 13, offset: 53020},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1634, col: 13, offset: 52988},
+																							pos: position{line: 1634, col: 13, offset: 53020},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1634, col: 14, offset: 52989},
+																								pos:        position{line: 1634, col: 14, offset: 53021},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -25263,7 +25263,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1634, col: 26, offset: 53001},
+																							pos:        position{line: 1634, col: 26, offset: 53033},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25272,15 +25272,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1636, col: 13, offset: 53121},
+																				pos: position{line: 1636, col: 13, offset: 53153},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1636, col: 13, offset: 53121},
+																					pos: position{line: 1636, col: 13, offset: 53153},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1636, col: 13, offset: 53121},
+																							pos: position{line: 1636, col: 13, offset: 53153},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1636, col: 14, offset: 53122},
+																								pos:        position{line: 1636, col: 14, offset: 53154},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -25288,7 +25288,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1636, col: 26, offset: 53134},
+																							pos:        position{line: 1636, col: 26, offset: 53166},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25300,12 +25300,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2900, col: 11, offset: 91638},
+																	pos: position{line: 2909, col: 11, offset: 91896},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2900, col: 11, offset: 91638},
+																		pos: position{line: 2909, col: 11, offset: 91896},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 11, offset: 91638},
+																			pos:        position{line: 2909, col: 11, offset: 91896},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25318,26 +25318,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1597, col: 5, offset: 51542},
+													pos:   position{line: 1597, col: 5, offset: 51574},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1544, col: 5, offset: 50009},
+														pos: position{line: 1544, col: 5, offset: 50041},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1544, col: 5, offset: 50009},
+															pos: position{line: 1544, col: 5, offset: 50041},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1544, col: 5, offset: 50009},
+																	pos:   position{line: 1544, col: 5, offset: 50041},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1544, col: 14, offset: 50018},
+																		pos: position{line: 1544, col: 14, offset: 50050},
 																		expr: &actionExpr{
-																			pos: position{line: 1544, col: 15, offset: 50019},
+																			pos: position{line: 1544, col: 15, offset: 50051},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1544, col: 15, offset: 50019},
+																				pos: position{line: 1544, col: 15, offset: 50051},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1544, col: 15, offset: 50019},
+																					pos:        position{line: 1544, col: 15, offset: 50051},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25348,28 +25348,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25378,9 +25378,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -25393,27 +25393,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1646, col: 5, offset: 53400},
+										pos: position{line: 1646, col: 5, offset: 53432},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1646, col: 5, offset: 53400},
+											pos: position{line: 1646, col: 5, offset: 53432},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1646, col: 5, offset: 53400},
+													pos:   position{line: 1646, col: 5, offset: 53432},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1653, col: 5, offset: 53673},
+														pos: position{line: 1653, col: 5, offset: 53705},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1653, col: 5, offset: 53673},
+															pos: position{line: 1653, col: 5, offset: 53705},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1653, col: 5, offset: 53673},
+																	pos: position{line: 1653, col: 5, offset: 53705},
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 10, offset: 91577},
+																		pos: position{line: 2905, col: 10, offset: 91835},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 10, offset: 91577},
+																			pos:        position{line: 2905, col: 10, offset: 91835},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25422,24 +25422,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1654, col: 5, offset: 53685},
+																	pos:   position{line: 1654, col: 5, offset: 53717},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1655, col: 9, offset: 53701},
+																		pos: position{line: 1655, col: 9, offset: 53733},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1655, col: 10, offset: 53702},
+																			pos: position{line: 1655, col: 10, offset: 53734},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1655, col: 11, offset: 53703},
+																					pos:        position{line: 1655, col: 11, offset: 53735},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1655, col: 18, offset: 53710},
+																					pos: position{line: 1655, col: 18, offset: 53742},
 																					expr: &litMatcher{
-																						pos:        position{line: 1655, col: 19, offset: 53711},
+																						pos:        position{line: 1655, col: 19, offset: 53743},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -25450,16 +25450,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1658, col: 7, offset: 53801},
+																	pos: position{line: 1658, col: 7, offset: 53833},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2900, col: 11, offset: 91638},
+																	pos: position{line: 2909, col: 11, offset: 91896},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2900, col: 11, offset: 91638},
+																		pos: position{line: 2909, col: 11, offset: 91896},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 11, offset: 91638},
+																			pos:        position{line: 2909, col: 11, offset: 91896},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25472,56 +25472,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1647, col: 5, offset: 53441},
+													pos:   position{line: 1647, col: 5, offset: 53473},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1647, col: 16, offset: 53452},
+														pos: position{line: 1647, col: 16, offset: 53484},
 														expr: &actionExpr{
-															pos: position{line: 1668, col: 5, offset: 54066},
+															pos: position{line: 1668, col: 5, offset: 54098},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1668, col: 5, offset: 54066},
+																pos: position{line: 1668, col: 5, offset: 54098},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1668, col: 5, offset: 54066},
+																		pos: position{line: 1668, col: 5, offset: 54098},
 																		expr: &litMatcher{
-																			pos:        position{line: 1668, col: 6, offset: 54067},
+																			pos:        position{line: 1668, col: 6, offset: 54099},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1668, col: 10, offset: 54071},
+																		pos:   position{line: 1668, col: 10, offset: 54103},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1669, col: 7, offset: 54085},
+																			pos: position{line: 1669, col: 7, offset: 54117},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1669, col: 7, offset: 54085},
+																					pos: position{line: 1669, col: 7, offset: 54117},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1669, col: 7, offset: 54085},
+																						pos:        position{line: 1669, col: 7, offset: 54117},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1670, col: 7, offset: 54130},
+																					pos: position{line: 1670, col: 7, offset: 54162},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1670, col: 7, offset: 54130},
+																						pos:        position{line: 1670, col: 7, offset: 54162},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1671, col: 7, offset: 54173},
+																					pos: position{line: 1671, col: 7, offset: 54205},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1671, col: 7, offset: 54173},
+																						pos:        position{line: 1671, col: 7, offset: 54205},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -25531,12 +25531,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2900, col: 11, offset: 91638},
+																		pos: position{line: 2909, col: 11, offset: 91896},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2900, col: 11, offset: 91638},
+																			pos: position{line: 2909, col: 11, offset: 91896},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2900, col: 11, offset: 91638},
+																				pos:        position{line: 2909, col: 11, offset: 91896},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25550,26 +25550,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1648, col: 5, offset: 53491},
+													pos:   position{line: 1648, col: 5, offset: 53523},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1544, col: 5, offset: 50009},
+														pos: position{line: 1544, col: 5, offset: 50041},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1544, col: 5, offset: 50009},
+															pos: position{line: 1544, col: 5, offset: 50041},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1544, col: 5, offset: 50009},
+																	pos:   position{line: 1544, col: 5, offset: 50041},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1544, col: 14, offset: 50018},
+																		pos: position{line: 1544, col: 14, offset: 50050},
 																		expr: &actionExpr{
-																			pos: position{line: 1544, col: 15, offset: 50019},
+																			pos: position{line: 1544, col: 15, offset: 50051},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1544, col: 15, offset: 50019},
+																				pos: position{line: 1544, col: 15, offset: 50051},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1544, col: 15, offset: 50019},
+																					pos:        position{line: 1544, col: 15, offset: 50051},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25580,28 +25580,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25610,9 +25610,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -25625,36 +25625,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1737, col: 5, offset: 56045},
+										pos: position{line: 1737, col: 5, offset: 56077},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1737, col: 5, offset: 56045},
+											pos: position{line: 1737, col: 5, offset: 56077},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1737, col: 5, offset: 56045},
+													pos:   position{line: 1737, col: 5, offset: 56077},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1743, col: 5, offset: 56242},
+														pos: position{line: 1743, col: 5, offset: 56274},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1743, col: 5, offset: 56242},
+															pos: position{line: 1743, col: 5, offset: 56274},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1743, col: 5, offset: 56242},
+																	pos:        position{line: 1743, col: 5, offset: 56274},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1743, col: 9, offset: 56246},
+																	pos:   position{line: 1743, col: 9, offset: 56278},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1743, col: 14, offset: 56251},
+																		pos: position{line: 1743, col: 14, offset: 56283},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1743, col: 14, offset: 56251},
+																			pos: position{line: 1743, col: 14, offset: 56283},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1743, col: 14, offset: 56251},
+																				pos:        position{line: 1743, col: 14, offset: 56283},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25664,18 +25664,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1743, col: 62, offset: 56299},
+																	pos:        position{line: 1743, col: 62, offset: 56331},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2900, col: 11, offset: 91638},
+																	pos: position{line: 2909, col: 11, offset: 91896},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2900, col: 11, offset: 91638},
+																		pos: position{line: 2909, col: 11, offset: 91896},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 11, offset: 91638},
+																			pos:        position{line: 2909, col: 11, offset: 91896},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25688,26 +25688,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1738, col: 5, offset: 56081},
+													pos:   position{line: 1738, col: 5, offset: 56113},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1544, col: 5, offset: 50009},
+														pos: position{line: 1544, col: 5, offset: 50041},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1544, col: 5, offset: 50009},
+															pos: position{line: 1544, col: 5, offset: 50041},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1544, col: 5, offset: 50009},
+																	pos:   position{line: 1544, col: 5, offset: 50041},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1544, col: 14, offset: 50018},
+																		pos: position{line: 1544, col: 14, offset: 50050},
 																		expr: &actionExpr{
-																			pos: position{line: 1544, col: 15, offset: 50019},
+																			pos: position{line: 1544, col: 15, offset: 50051},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1544, col: 15, offset: 50019},
+																				pos: position{line: 1544, col: 15, offset: 50051},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1544, col: 15, offset: 50019},
+																					pos:        position{line: 1544, col: 15, offset: 50051},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25718,28 +25718,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25748,9 +25748,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -25763,35 +25763,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1680, col: 5, offset: 54366},
+										pos: position{line: 1680, col: 5, offset: 54398},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1680, col: 5, offset: 54366},
+											pos: position{line: 1680, col: 5, offset: 54398},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1680, col: 5, offset: 54366},
+													pos:   position{line: 1680, col: 5, offset: 54398},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1688, col: 5, offset: 54692},
+														pos: position{line: 1688, col: 5, offset: 54724},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1688, col: 5, offset: 54692},
+															pos: position{line: 1688, col: 5, offset: 54724},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1688, col: 5, offset: 54692},
+																	pos: position{line: 1688, col: 5, offset: 54724},
 																	expr: &seqExpr{
-																		pos: position{line: 2502, col: 31, offset: 80558},
+																		pos: position{line: 2502, col: 31, offset: 80590},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2502, col: 31, offset: 80558},
+																				pos:        position{line: 2502, col: 31, offset: 80590},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2502, col: 36, offset: 80563},
+																				pos: position{line: 2502, col: 36, offset: 80595},
 																				expr: &litMatcher{
-																					pos:        position{line: 2502, col: 37, offset: 80564},
+																					pos:        position{line: 2502, col: 37, offset: 80596},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -25801,28 +25801,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1689, col: 5, offset: 54724},
+																	pos: position{line: 1689, col: 5, offset: 54756},
 																	expr: &seqExpr{
-																		pos: position{line: 1689, col: 6, offset: 54725},
+																		pos: position{line: 1689, col: 6, offset: 54757},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1689, col: 6, offset: 54725},
+																				pos: position{line: 1689, col: 6, offset: 54757},
 																				expr: &actionExpr{
-																					pos: position{line: 1694, col: 5, offset: 54875},
+																					pos: position{line: 1694, col: 5, offset: 54907},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1694, col: 5, offset: 54875},
+																						pos: position{line: 1694, col: 5, offset: 54907},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1694, col: 5, offset: 54875},
+																								pos:   position{line: 1694, col: 5, offset: 54907},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1694, col: 16, offset: 54886},
+																									pos: position{line: 1694, col: 16, offset: 54918},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1694, col: 16, offset: 54886},
+																										pos: position{line: 1694, col: 16, offset: 54918},
 																										expr: &litMatcher{
-																											pos:        position{line: 1694, col: 17, offset: 54887},
+																											pos:        position{line: 1694, col: 17, offset: 54919},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -25831,7 +25831,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1697, col: 5, offset: 54944},
+																								pos: position{line: 1697, col: 5, offset: 54976},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -25839,30 +25839,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1689, col: 35, offset: 54754},
+																				pos: position{line: 1689, col: 35, offset: 54786},
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 8, offset: 91975},
+																					pos: position{line: 2927, col: 8, offset: 92233},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2905, col: 12, offset: 91748},
+																							pos: position{line: 2914, col: 12, offset: 92006},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2905, col: 13, offset: 91749},
+																								pos: position{line: 2914, col: 13, offset: 92007},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 13, offset: 91749},
+																										pos:        position{line: 2914, col: 13, offset: 92007},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 20, offset: 91756},
+																										pos:        position{line: 2914, col: 20, offset: 92014},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 29, offset: 91765},
+																										pos:        position{line: 2914, col: 29, offset: 92023},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25871,16 +25871,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2915, col: 8, offset: 91925},
+																							pos: position{line: 2924, col: 8, offset: 92183},
 																							expr: &anyMatcher{
-																								line: 2915, col: 9, offset: 91926,
+																								line: 2924, col: 9, offset: 92184,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1689, col: 40, offset: 54759,
+																				line: 1689, col: 40, offset: 54791,
 																			},
 																		},
 																	},
@@ -25890,24 +25890,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1681, col: 5, offset: 54401},
+													pos:   position{line: 1681, col: 5, offset: 54433},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1694, col: 5, offset: 54875},
+														pos: position{line: 1694, col: 5, offset: 54907},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1694, col: 5, offset: 54875},
+															pos: position{line: 1694, col: 5, offset: 54907},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1694, col: 5, offset: 54875},
+																	pos:   position{line: 1694, col: 5, offset: 54907},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1694, col: 16, offset: 54886},
+																		pos: position{line: 1694, col: 16, offset: 54918},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1694, col: 16, offset: 54886},
+																			pos: position{line: 1694, col: 16, offset: 54918},
 																			expr: &litMatcher{
-																				pos:        position{line: 1694, col: 17, offset: 54887},
+																				pos:        position{line: 1694, col: 17, offset: 54919},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25916,7 +25916,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1697, col: 5, offset: 54944},
+																	pos: position{line: 1697, col: 5, offset: 54976},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -25924,24 +25924,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1682, col: 5, offset: 54446},
+													pos:   position{line: 1682, col: 5, offset: 54478},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1705, col: 5, offset: 55193},
+														pos: position{line: 1705, col: 5, offset: 55225},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1707, col: 9, offset: 55259},
+																pos: position{line: 1707, col: 9, offset: 55291},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1707, col: 9, offset: 55259},
+																	pos: position{line: 1707, col: 9, offset: 55291},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1707, col: 9, offset: 55259},
+																			pos: position{line: 1707, col: 9, offset: 55291},
 																			expr: &actionExpr{
-																				pos: position{line: 2896, col: 10, offset: 91577},
+																				pos: position{line: 2905, col: 10, offset: 91835},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2896, col: 10, offset: 91577},
+																					pos:        position{line: 2905, col: 10, offset: 91835},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25950,28 +25950,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2918, col: 8, offset: 91975},
+																			pos: position{line: 2927, col: 8, offset: 92233},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2905, col: 12, offset: 91748},
+																					pos: position{line: 2914, col: 12, offset: 92006},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2905, col: 13, offset: 91749},
+																						pos: position{line: 2914, col: 13, offset: 92007},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 13, offset: 91749},
+																								pos:        position{line: 2914, col: 13, offset: 92007},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 20, offset: 91756},
+																								pos:        position{line: 2914, col: 20, offset: 92014},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 29, offset: 91765},
+																								pos:        position{line: 2914, col: 29, offset: 92023},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25980,34 +25980,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1708, col: 9, offset: 55278},
+																			pos: position{line: 1708, col: 9, offset: 55310},
 																			expr: &actionExpr{
-																				pos: position{line: 687, col: 14, offset: 21835},
+																				pos: position{line: 687, col: 14, offset: 21867},
 																				run: (*parser).callonListElements199,
 																				expr: &seqExpr{
-																					pos: position{line: 687, col: 14, offset: 21835},
+																					pos: position{line: 687, col: 14, offset: 21867},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2913, col: 11, offset: 91911},
+																							pos: position{line: 2922, col: 11, offset: 92169},
 																							expr: &anyMatcher{
-																								line: 2913, col: 13, offset: 91913,
+																								line: 2922, col: 13, offset: 92171,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 687, col: 21, offset: 21842},
+																							pos: position{line: 687, col: 21, offset: 21874},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26016,28 +26016,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26046,9 +26046,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -26061,18 +26061,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1714, col: 9, offset: 55407},
+																pos: position{line: 1714, col: 9, offset: 55439},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1714, col: 9, offset: 55407},
+																	pos: position{line: 1714, col: 9, offset: 55439},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2900, col: 11, offset: 91638},
+																			pos: position{line: 2909, col: 11, offset: 91896},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2900, col: 11, offset: 91638},
+																				pos: position{line: 2909, col: 11, offset: 91896},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2900, col: 11, offset: 91638},
+																					pos:        position{line: 2909, col: 11, offset: 91896},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26081,15 +26081,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1715, col: 9, offset: 55480},
+																			pos:   position{line: 1715, col: 9, offset: 55512},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1715, col: 18, offset: 55489},
+																				pos: position{line: 1715, col: 18, offset: 55521},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1715, col: 18, offset: 55489},
+																					pos: position{line: 1715, col: 18, offset: 55521},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1715, col: 18, offset: 55489},
+																						pos:        position{line: 1715, col: 18, offset: 55521},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -26099,28 +26099,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2918, col: 8, offset: 91975},
+																			pos: position{line: 2927, col: 8, offset: 92233},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2905, col: 12, offset: 91748},
+																					pos: position{line: 2914, col: 12, offset: 92006},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2905, col: 13, offset: 91749},
+																						pos: position{line: 2914, col: 13, offset: 92007},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 13, offset: 91749},
+																								pos:        position{line: 2914, col: 13, offset: 92007},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 20, offset: 91756},
+																								pos:        position{line: 2914, col: 20, offset: 92014},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 29, offset: 91765},
+																								pos:        position{line: 2914, col: 29, offset: 92023},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26129,9 +26129,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
@@ -26149,10 +26149,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1498, col: 5, offset: 48398},
+							pos:   position{line: 1498, col: 5, offset: 48430},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1498, col: 20, offset: 48413},
+								pos:  position{line: 1498, col: 20, offset: 48445},
 								name: "ExtraListElements",
 							},
 						},
@@ -26162,17 +26162,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1508, col: 1, offset: 48668},
+			pos:  position{line: 1508, col: 1, offset: 48700},
 			expr: &actionExpr{
-				pos: position{line: 1508, col: 22, offset: 48689},
+				pos: position{line: 1508, col: 22, offset: 48721},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1508, col: 22, offset: 48689},
+					pos:   position{line: 1508, col: 22, offset: 48721},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1508, col: 31, offset: 48698},
+						pos: position{line: 1508, col: 31, offset: 48730},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1508, col: 32, offset: 48699},
+							pos:  position{line: 1508, col: 32, offset: 48731},
 							name: "ExtraListElement",
 						},
 					},
@@ -26181,52 +26181,52 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1512, col: 1, offset: 48779},
+			pos:  position{line: 1512, col: 1, offset: 48811},
 			expr: &actionExpr{
-				pos: position{line: 1513, col: 5, offset: 48918},
+				pos: position{line: 1513, col: 5, offset: 48950},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1513, col: 5, offset: 48918},
+					pos: position{line: 1513, col: 5, offset: 48950},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2913, col: 11, offset: 91911},
+							pos: position{line: 2922, col: 11, offset: 92169},
 							expr: &anyMatcher{
-								line: 2913, col: 13, offset: 91913,
+								line: 2922, col: 13, offset: 92171,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1514, col: 5, offset: 48930},
+							pos:   position{line: 1514, col: 5, offset: 48962},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1515, col: 9, offset: 48948},
+								pos: position{line: 1515, col: 9, offset: 48980},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1515, col: 13, offset: 48952},
+										pos: position{line: 1515, col: 13, offset: 48984},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1515, col: 13, offset: 48952},
+											pos: position{line: 1515, col: 13, offset: 48984},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1515, col: 13, offset: 48952},
+													pos: position{line: 1515, col: 13, offset: 48984},
 													expr: &actionExpr{
-														pos: position{line: 687, col: 14, offset: 21835},
+														pos: position{line: 687, col: 14, offset: 21867},
 														run: (*parser).callonExtraListElement10,
 														expr: &seqExpr{
-															pos: position{line: 687, col: 14, offset: 21835},
+															pos: position{line: 687, col: 14, offset: 21867},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2913, col: 11, offset: 91911},
+																	pos: position{line: 2922, col: 11, offset: 92169},
 																	expr: &anyMatcher{
-																		line: 2913, col: 13, offset: 91913,
+																		line: 2922, col: 13, offset: 92171,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 687, col: 21, offset: 21842},
+																	pos: position{line: 687, col: 21, offset: 21874},
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 10, offset: 91577},
+																		pos: position{line: 2905, col: 10, offset: 91835},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 10, offset: 91577},
+																			pos:        position{line: 2905, col: 10, offset: 91835},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26235,28 +26235,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26265,9 +26265,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -26277,33 +26277,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1516, col: 13, offset: 48976},
+													pos:   position{line: 1516, col: 13, offset: 49008},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1516, col: 22, offset: 48985},
+														pos: position{line: 1516, col: 22, offset: 49017},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1596, col: 5, offset: 51503},
+																pos: position{line: 1596, col: 5, offset: 51535},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1596, col: 5, offset: 51503},
+																	pos: position{line: 1596, col: 5, offset: 51535},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1596, col: 5, offset: 51503},
+																			pos:   position{line: 1596, col: 5, offset: 51535},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1603, col: 5, offset: 51711},
+																				pos: position{line: 1603, col: 5, offset: 51743},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1603, col: 5, offset: 51711},
+																					pos: position{line: 1603, col: 5, offset: 51743},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1603, col: 5, offset: 51711},
+																							pos: position{line: 1603, col: 5, offset: 51743},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26312,27 +26312,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1603, col: 12, offset: 51718},
+																							pos:   position{line: 1603, col: 12, offset: 51750},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1605, col: 9, offset: 51781},
+																								pos: position{line: 1605, col: 9, offset: 51813},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1605, col: 9, offset: 51781},
+																										pos: position{line: 1605, col: 9, offset: 51813},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1605, col: 9, offset: 51781},
+																											pos: position{line: 1605, col: 9, offset: 51813},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1605, col: 9, offset: 51781},
+																													pos:   position{line: 1605, col: 9, offset: 51813},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1605, col: 16, offset: 51788},
+																														pos: position{line: 1605, col: 16, offset: 51820},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1605, col: 16, offset: 51788},
+																															pos: position{line: 1605, col: 16, offset: 51820},
 																															expr: &litMatcher{
-																																pos:        position{line: 1605, col: 17, offset: 51789},
+																																pos:        position{line: 1605, col: 17, offset: 51821},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26341,22 +26341,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1609, col: 9, offset: 51889},
+																													pos: position{line: 1609, col: 9, offset: 51921},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1628, col: 11, offset: 52606},
+																										pos: position{line: 1628, col: 11, offset: 52638},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1628, col: 11, offset: 52606},
+																											pos: position{line: 1628, col: 11, offset: 52638},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1628, col: 11, offset: 52606},
+																													pos: position{line: 1628, col: 11, offset: 52638},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1628, col: 12, offset: 52607},
+																														pos:        position{line: 1628, col: 12, offset: 52639},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26364,7 +26364,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1628, col: 20, offset: 52615},
+																													pos:        position{line: 1628, col: 20, offset: 52647},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26373,20 +26373,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1630, col: 13, offset: 52732},
+																										pos: position{line: 1630, col: 13, offset: 52764},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1630, col: 13, offset: 52732},
+																											pos: position{line: 1630, col: 13, offset: 52764},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1630, col: 14, offset: 52733},
+																													pos:        position{line: 1630, col: 14, offset: 52765},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1630, col: 21, offset: 52740},
+																													pos:        position{line: 1630, col: 21, offset: 52772},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26395,20 +26395,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1632, col: 13, offset: 52860},
+																										pos: position{line: 1632, col: 13, offset: 52892},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1632, col: 13, offset: 52860},
+																											pos: position{line: 1632, col: 13, offset: 52892},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1632, col: 14, offset: 52861},
+																													pos:        position{line: 1632, col: 14, offset: 52893},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1632, col: 21, offset: 52868},
+																													pos:        position{line: 1632, col: 21, offset: 52900},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26417,15 +26417,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1634, col: 13, offset: 52988},
+																										pos: position{line: 1634, col: 13, offset: 53020},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1634, col: 13, offset: 52988},
+																											pos: position{line: 1634, col: 13, offset: 53020},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1634, col: 13, offset: 52988},
+																													pos: position{line: 1634, col: 13, offset: 53020},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1634, col: 14, offset: 52989},
+																														pos:        position{line: 1634, col: 14, offset: 53021},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26433,7 +26433,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1634, col: 26, offset: 53001},
+																													pos:        position{line: 1634, col: 26, offset: 53033},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26442,15 +26442,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1636, col: 13, offset: 53121},
+																										pos: position{line: 1636, col: 13, offset: 53153},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1636, col: 13, offset: 53121},
+																											pos: position{line: 1636, col: 13, offset: 53153},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1636, col: 13, offset: 53121},
+																													pos: position{line: 1636, col: 13, offset: 53153},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1636, col: 14, offset: 53122},
+																														pos:        position{line: 1636, col: 14, offset: 53154},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26458,7 +26458,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1636, col: 26, offset: 53134},
+																													pos:        position{line: 1636, col: 26, offset: 53166},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26470,12 +26470,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2900, col: 11, offset: 91638},
+																							pos: position{line: 2909, col: 11, offset: 91896},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2900, col: 11, offset: 91638},
+																								pos: position{line: 2909, col: 11, offset: 91896},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 11, offset: 91638},
+																									pos:        position{line: 2909, col: 11, offset: 91896},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26488,26 +26488,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1597, col: 5, offset: 51542},
+																			pos:   position{line: 1597, col: 5, offset: 51574},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1544, col: 5, offset: 50009},
+																				pos: position{line: 1544, col: 5, offset: 50041},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1544, col: 5, offset: 50009},
+																					pos: position{line: 1544, col: 5, offset: 50041},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1544, col: 5, offset: 50009},
+																							pos:   position{line: 1544, col: 5, offset: 50041},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1544, col: 14, offset: 50018},
+																								pos: position{line: 1544, col: 14, offset: 50050},
 																								expr: &actionExpr{
-																									pos: position{line: 1544, col: 15, offset: 50019},
+																									pos: position{line: 1544, col: 15, offset: 50051},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1544, col: 15, offset: 50019},
+																										pos: position{line: 1544, col: 15, offset: 50051},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1544, col: 15, offset: 50019},
+																											pos:        position{line: 1544, col: 15, offset: 50051},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26518,28 +26518,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26548,9 +26548,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -26563,27 +26563,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1646, col: 5, offset: 53400},
+																pos: position{line: 1646, col: 5, offset: 53432},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1646, col: 5, offset: 53400},
+																	pos: position{line: 1646, col: 5, offset: 53432},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1646, col: 5, offset: 53400},
+																			pos:   position{line: 1646, col: 5, offset: 53432},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1653, col: 5, offset: 53673},
+																				pos: position{line: 1653, col: 5, offset: 53705},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1653, col: 5, offset: 53673},
+																					pos: position{line: 1653, col: 5, offset: 53705},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1653, col: 5, offset: 53673},
+																							pos: position{line: 1653, col: 5, offset: 53705},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26592,24 +26592,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1654, col: 5, offset: 53685},
+																							pos:   position{line: 1654, col: 5, offset: 53717},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1655, col: 9, offset: 53701},
+																								pos: position{line: 1655, col: 9, offset: 53733},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1655, col: 10, offset: 53702},
+																									pos: position{line: 1655, col: 10, offset: 53734},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1655, col: 11, offset: 53703},
+																											pos:        position{line: 1655, col: 11, offset: 53735},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1655, col: 18, offset: 53710},
+																											pos: position{line: 1655, col: 18, offset: 53742},
 																											expr: &litMatcher{
-																												pos:        position{line: 1655, col: 19, offset: 53711},
+																												pos:        position{line: 1655, col: 19, offset: 53743},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26620,16 +26620,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1658, col: 7, offset: 53801},
+																							pos: position{line: 1658, col: 7, offset: 53833},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2900, col: 11, offset: 91638},
+																							pos: position{line: 2909, col: 11, offset: 91896},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2900, col: 11, offset: 91638},
+																								pos: position{line: 2909, col: 11, offset: 91896},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 11, offset: 91638},
+																									pos:        position{line: 2909, col: 11, offset: 91896},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26642,56 +26642,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1647, col: 5, offset: 53441},
+																			pos:   position{line: 1647, col: 5, offset: 53473},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1647, col: 16, offset: 53452},
+																				pos: position{line: 1647, col: 16, offset: 53484},
 																				expr: &actionExpr{
-																					pos: position{line: 1668, col: 5, offset: 54066},
+																					pos: position{line: 1668, col: 5, offset: 54098},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1668, col: 5, offset: 54066},
+																						pos: position{line: 1668, col: 5, offset: 54098},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1668, col: 5, offset: 54066},
+																								pos: position{line: 1668, col: 5, offset: 54098},
 																								expr: &litMatcher{
-																									pos:        position{line: 1668, col: 6, offset: 54067},
+																									pos:        position{line: 1668, col: 6, offset: 54099},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1668, col: 10, offset: 54071},
+																								pos:   position{line: 1668, col: 10, offset: 54103},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1669, col: 7, offset: 54085},
+																									pos: position{line: 1669, col: 7, offset: 54117},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1669, col: 7, offset: 54085},
+																											pos: position{line: 1669, col: 7, offset: 54117},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1669, col: 7, offset: 54085},
+																												pos:        position{line: 1669, col: 7, offset: 54117},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1670, col: 7, offset: 54130},
+																											pos: position{line: 1670, col: 7, offset: 54162},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1670, col: 7, offset: 54130},
+																												pos:        position{line: 1670, col: 7, offset: 54162},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1671, col: 7, offset: 54173},
+																											pos: position{line: 1671, col: 7, offset: 54205},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1671, col: 7, offset: 54173},
+																												pos:        position{line: 1671, col: 7, offset: 54205},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26701,12 +26701,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2900, col: 11, offset: 91638},
+																								pos: position{line: 2909, col: 11, offset: 91896},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2900, col: 11, offset: 91638},
+																									pos: position{line: 2909, col: 11, offset: 91896},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2900, col: 11, offset: 91638},
+																										pos:        position{line: 2909, col: 11, offset: 91896},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26720,26 +26720,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1648, col: 5, offset: 53491},
+																			pos:   position{line: 1648, col: 5, offset: 53523},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1544, col: 5, offset: 50009},
+																				pos: position{line: 1544, col: 5, offset: 50041},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1544, col: 5, offset: 50009},
+																					pos: position{line: 1544, col: 5, offset: 50041},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1544, col: 5, offset: 50009},
+																							pos:   position{line: 1544, col: 5, offset: 50041},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1544, col: 14, offset: 50018},
+																								pos: position{line: 1544, col: 14, offset: 50050},
 																								expr: &actionExpr{
-																									pos: position{line: 1544, col: 15, offset: 50019},
+																									pos: position{line: 1544, col: 15, offset: 50051},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1544, col: 15, offset: 50019},
+																										pos: position{line: 1544, col: 15, offset: 50051},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1544, col: 15, offset: 50019},
+																											pos:        position{line: 1544, col: 15, offset: 50051},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26750,28 +26750,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26780,9 +26780,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -26795,36 +26795,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1737, col: 5, offset: 56045},
+																pos: position{line: 1737, col: 5, offset: 56077},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1737, col: 5, offset: 56045},
+																	pos: position{line: 1737, col: 5, offset: 56077},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1737, col: 5, offset: 56045},
+																			pos:   position{line: 1737, col: 5, offset: 56077},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1743, col: 5, offset: 56242},
+																				pos: position{line: 1743, col: 5, offset: 56274},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1743, col: 5, offset: 56242},
+																					pos: position{line: 1743, col: 5, offset: 56274},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1743, col: 5, offset: 56242},
+																							pos:        position{line: 1743, col: 5, offset: 56274},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1743, col: 9, offset: 56246},
+																							pos:   position{line: 1743, col: 9, offset: 56278},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1743, col: 14, offset: 56251},
+																								pos: position{line: 1743, col: 14, offset: 56283},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1743, col: 14, offset: 56251},
+																									pos: position{line: 1743, col: 14, offset: 56283},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1743, col: 14, offset: 56251},
+																										pos:        position{line: 1743, col: 14, offset: 56283},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26834,18 +26834,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1743, col: 62, offset: 56299},
+																							pos:        position{line: 1743, col: 62, offset: 56331},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2900, col: 11, offset: 91638},
+																							pos: position{line: 2909, col: 11, offset: 91896},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2900, col: 11, offset: 91638},
+																								pos: position{line: 2909, col: 11, offset: 91896},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 11, offset: 91638},
+																									pos:        position{line: 2909, col: 11, offset: 91896},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26858,26 +26858,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1738, col: 5, offset: 56081},
+																			pos:   position{line: 1738, col: 5, offset: 56113},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1544, col: 5, offset: 50009},
+																				pos: position{line: 1544, col: 5, offset: 50041},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1544, col: 5, offset: 50009},
+																					pos: position{line: 1544, col: 5, offset: 50041},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1544, col: 5, offset: 50009},
+																							pos:   position{line: 1544, col: 5, offset: 50041},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1544, col: 14, offset: 50018},
+																								pos: position{line: 1544, col: 14, offset: 50050},
 																								expr: &actionExpr{
-																									pos: position{line: 1544, col: 15, offset: 50019},
+																									pos: position{line: 1544, col: 15, offset: 50051},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1544, col: 15, offset: 50019},
+																										pos: position{line: 1544, col: 15, offset: 50051},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1544, col: 15, offset: 50019},
+																											pos:        position{line: 1544, col: 15, offset: 50051},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26888,28 +26888,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26918,9 +26918,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -26933,35 +26933,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1680, col: 5, offset: 54366},
+																pos: position{line: 1680, col: 5, offset: 54398},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1680, col: 5, offset: 54366},
+																	pos: position{line: 1680, col: 5, offset: 54398},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1680, col: 5, offset: 54366},
+																			pos:   position{line: 1680, col: 5, offset: 54398},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1688, col: 5, offset: 54692},
+																				pos: position{line: 1688, col: 5, offset: 54724},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1688, col: 5, offset: 54692},
+																					pos: position{line: 1688, col: 5, offset: 54724},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1688, col: 5, offset: 54692},
+																							pos: position{line: 1688, col: 5, offset: 54724},
 																							expr: &seqExpr{
-																								pos: position{line: 2502, col: 31, offset: 80558},
+																								pos: position{line: 2502, col: 31, offset: 80590},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2502, col: 31, offset: 80558},
+																										pos:        position{line: 2502, col: 31, offset: 80590},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2502, col: 36, offset: 80563},
+																										pos: position{line: 2502, col: 36, offset: 80595},
 																										expr: &litMatcher{
-																											pos:        position{line: 2502, col: 37, offset: 80564},
+																											pos:        position{line: 2502, col: 37, offset: 80596},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -26971,28 +26971,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1689, col: 5, offset: 54724},
+																							pos: position{line: 1689, col: 5, offset: 54756},
 																							expr: &seqExpr{
-																								pos: position{line: 1689, col: 6, offset: 54725},
+																								pos: position{line: 1689, col: 6, offset: 54757},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1689, col: 6, offset: 54725},
+																										pos: position{line: 1689, col: 6, offset: 54757},
 																										expr: &actionExpr{
-																											pos: position{line: 1694, col: 5, offset: 54875},
+																											pos: position{line: 1694, col: 5, offset: 54907},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1694, col: 5, offset: 54875},
+																												pos: position{line: 1694, col: 5, offset: 54907},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1694, col: 5, offset: 54875},
+																														pos:   position{line: 1694, col: 5, offset: 54907},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1694, col: 16, offset: 54886},
+																															pos: position{line: 1694, col: 16, offset: 54918},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1694, col: 16, offset: 54886},
+																																pos: position{line: 1694, col: 16, offset: 54918},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1694, col: 17, offset: 54887},
+																																	pos:        position{line: 1694, col: 17, offset: 54919},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -27001,7 +27001,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1697, col: 5, offset: 54944},
+																														pos: position{line: 1697, col: 5, offset: 54976},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -27009,30 +27009,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1689, col: 35, offset: 54754},
+																										pos: position{line: 1689, col: 35, offset: 54786},
 																										expr: &choiceExpr{
-																											pos: position{line: 2918, col: 8, offset: 91975},
+																											pos: position{line: 2927, col: 8, offset: 92233},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2905, col: 12, offset: 91748},
+																													pos: position{line: 2914, col: 12, offset: 92006},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2905, col: 13, offset: 91749},
+																														pos: position{line: 2914, col: 13, offset: 92007},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 13, offset: 91749},
+																																pos:        position{line: 2914, col: 13, offset: 92007},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 20, offset: 91756},
+																																pos:        position{line: 2914, col: 20, offset: 92014},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 29, offset: 91765},
+																																pos:        position{line: 2914, col: 29, offset: 92023},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27041,16 +27041,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2915, col: 8, offset: 91925},
+																													pos: position{line: 2924, col: 8, offset: 92183},
 																													expr: &anyMatcher{
-																														line: 2915, col: 9, offset: 91926,
+																														line: 2924, col: 9, offset: 92184,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1689, col: 40, offset: 54759,
+																										line: 1689, col: 40, offset: 54791,
 																									},
 																								},
 																							},
@@ -27060,24 +27060,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1681, col: 5, offset: 54401},
+																			pos:   position{line: 1681, col: 5, offset: 54433},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1694, col: 5, offset: 54875},
+																				pos: position{line: 1694, col: 5, offset: 54907},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1694, col: 5, offset: 54875},
+																					pos: position{line: 1694, col: 5, offset: 54907},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1694, col: 5, offset: 54875},
+																							pos:   position{line: 1694, col: 5, offset: 54907},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1694, col: 16, offset: 54886},
+																								pos: position{line: 1694, col: 16, offset: 54918},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1694, col: 16, offset: 54886},
+																									pos: position{line: 1694, col: 16, offset: 54918},
 																									expr: &litMatcher{
-																										pos:        position{line: 1694, col: 17, offset: 54887},
+																										pos:        position{line: 1694, col: 17, offset: 54919},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27086,7 +27086,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1697, col: 5, offset: 54944},
+																							pos: position{line: 1697, col: 5, offset: 54976},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -27094,24 +27094,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1682, col: 5, offset: 54446},
+																			pos:   position{line: 1682, col: 5, offset: 54478},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1705, col: 5, offset: 55193},
+																				pos: position{line: 1705, col: 5, offset: 55225},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1707, col: 9, offset: 55259},
+																						pos: position{line: 1707, col: 9, offset: 55291},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1707, col: 9, offset: 55259},
+																							pos: position{line: 1707, col: 9, offset: 55291},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1707, col: 9, offset: 55259},
+																									pos: position{line: 1707, col: 9, offset: 55291},
 																									expr: &actionExpr{
-																										pos: position{line: 2896, col: 10, offset: 91577},
+																										pos: position{line: 2905, col: 10, offset: 91835},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2896, col: 10, offset: 91577},
+																											pos:        position{line: 2905, col: 10, offset: 91835},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27120,28 +27120,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2918, col: 8, offset: 91975},
+																									pos: position{line: 2927, col: 8, offset: 92233},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2905, col: 12, offset: 91748},
+																											pos: position{line: 2914, col: 12, offset: 92006},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2905, col: 13, offset: 91749},
+																												pos: position{line: 2914, col: 13, offset: 92007},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2905, col: 13, offset: 91749},
+																														pos:        position{line: 2914, col: 13, offset: 92007},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2905, col: 20, offset: 91756},
+																														pos:        position{line: 2914, col: 20, offset: 92014},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2905, col: 29, offset: 91765},
+																														pos:        position{line: 2914, col: 29, offset: 92023},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27150,34 +27150,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2915, col: 8, offset: 91925},
+																											pos: position{line: 2924, col: 8, offset: 92183},
 																											expr: &anyMatcher{
-																												line: 2915, col: 9, offset: 91926,
+																												line: 2924, col: 9, offset: 92184,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1708, col: 9, offset: 55278},
+																									pos: position{line: 1708, col: 9, offset: 55310},
 																									expr: &actionExpr{
-																										pos: position{line: 687, col: 14, offset: 21835},
+																										pos: position{line: 687, col: 14, offset: 21867},
 																										run: (*parser).callonExtraListElement221,
 																										expr: &seqExpr{
-																											pos: position{line: 687, col: 14, offset: 21835},
+																											pos: position{line: 687, col: 14, offset: 21867},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2913, col: 11, offset: 91911},
+																													pos: position{line: 2922, col: 11, offset: 92169},
 																													expr: &anyMatcher{
-																														line: 2913, col: 13, offset: 91913,
+																														line: 2922, col: 13, offset: 92171,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 687, col: 21, offset: 21842},
+																													pos: position{line: 687, col: 21, offset: 21874},
 																													expr: &actionExpr{
-																														pos: position{line: 2896, col: 10, offset: 91577},
+																														pos: position{line: 2905, col: 10, offset: 91835},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2896, col: 10, offset: 91577},
+																															pos:        position{line: 2905, col: 10, offset: 91835},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27186,28 +27186,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2918, col: 8, offset: 91975},
+																													pos: position{line: 2927, col: 8, offset: 92233},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2905, col: 12, offset: 91748},
+																															pos: position{line: 2914, col: 12, offset: 92006},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2905, col: 13, offset: 91749},
+																																pos: position{line: 2914, col: 13, offset: 92007},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2905, col: 13, offset: 91749},
+																																		pos:        position{line: 2914, col: 13, offset: 92007},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2905, col: 20, offset: 91756},
+																																		pos:        position{line: 2914, col: 20, offset: 92014},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2905, col: 29, offset: 91765},
+																																		pos:        position{line: 2914, col: 29, offset: 92023},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27216,9 +27216,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2915, col: 8, offset: 91925},
+																															pos: position{line: 2924, col: 8, offset: 92183},
 																															expr: &anyMatcher{
-																																line: 2915, col: 9, offset: 91926,
+																																line: 2924, col: 9, offset: 92184,
 																															},
 																														},
 																													},
@@ -27231,18 +27231,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1714, col: 9, offset: 55407},
+																						pos: position{line: 1714, col: 9, offset: 55439},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1714, col: 9, offset: 55407},
+																							pos: position{line: 1714, col: 9, offset: 55439},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2900, col: 11, offset: 91638},
+																									pos: position{line: 2909, col: 11, offset: 91896},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2900, col: 11, offset: 91638},
+																										pos: position{line: 2909, col: 11, offset: 91896},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2900, col: 11, offset: 91638},
+																											pos:        position{line: 2909, col: 11, offset: 91896},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27251,15 +27251,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1715, col: 9, offset: 55480},
+																									pos:   position{line: 1715, col: 9, offset: 55512},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1715, col: 18, offset: 55489},
+																										pos: position{line: 1715, col: 18, offset: 55521},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1715, col: 18, offset: 55489},
+																											pos: position{line: 1715, col: 18, offset: 55521},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1715, col: 18, offset: 55489},
+																												pos:        position{line: 1715, col: 18, offset: 55521},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27269,28 +27269,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2918, col: 8, offset: 91975},
+																									pos: position{line: 2927, col: 8, offset: 92233},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2905, col: 12, offset: 91748},
+																											pos: position{line: 2914, col: 12, offset: 92006},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2905, col: 13, offset: 91749},
+																												pos: position{line: 2914, col: 13, offset: 92007},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2905, col: 13, offset: 91749},
+																														pos:        position{line: 2914, col: 13, offset: 92007},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2905, col: 20, offset: 91756},
+																														pos:        position{line: 2914, col: 20, offset: 92014},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2905, col: 29, offset: 91765},
+																														pos:        position{line: 2914, col: 29, offset: 92023},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27299,9 +27299,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2915, col: 8, offset: 91925},
+																											pos: position{line: 2924, col: 8, offset: 92183},
 																											expr: &anyMatcher{
-																												line: 2915, col: 9, offset: 91926,
+																												line: 2924, col: 9, offset: 92184,
 																											},
 																										},
 																									},
@@ -27322,50 +27322,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1519, col: 13, offset: 49136},
+										pos: position{line: 1519, col: 13, offset: 49168},
 										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
-											pos: position{line: 1519, col: 13, offset: 49136},
+											pos: position{line: 1519, col: 13, offset: 49168},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1519, col: 13, offset: 49136},
+													pos:   position{line: 1519, col: 13, offset: 49168},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1519, col: 24, offset: 49147},
+														pos: position{line: 1519, col: 24, offset: 49179},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1519, col: 25, offset: 49148},
+															pos:  position{line: 1519, col: 25, offset: 49180},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1520, col: 13, offset: 49179},
+													pos:   position{line: 1520, col: 13, offset: 49211},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1520, col: 22, offset: 49188},
+														pos: position{line: 1520, col: 22, offset: 49220},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1596, col: 5, offset: 51503},
+																pos: position{line: 1596, col: 5, offset: 51535},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1596, col: 5, offset: 51503},
+																	pos: position{line: 1596, col: 5, offset: 51535},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1596, col: 5, offset: 51503},
+																			pos:   position{line: 1596, col: 5, offset: 51535},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1603, col: 5, offset: 51711},
+																				pos: position{line: 1603, col: 5, offset: 51743},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1603, col: 5, offset: 51711},
+																					pos: position{line: 1603, col: 5, offset: 51743},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1603, col: 5, offset: 51711},
+																							pos: position{line: 1603, col: 5, offset: 51743},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27374,27 +27374,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1603, col: 12, offset: 51718},
+																							pos:   position{line: 1603, col: 12, offset: 51750},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1605, col: 9, offset: 51781},
+																								pos: position{line: 1605, col: 9, offset: 51813},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1605, col: 9, offset: 51781},
+																										pos: position{line: 1605, col: 9, offset: 51813},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1605, col: 9, offset: 51781},
+																											pos: position{line: 1605, col: 9, offset: 51813},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1605, col: 9, offset: 51781},
+																													pos:   position{line: 1605, col: 9, offset: 51813},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1605, col: 16, offset: 51788},
+																														pos: position{line: 1605, col: 16, offset: 51820},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1605, col: 16, offset: 51788},
+																															pos: position{line: 1605, col: 16, offset: 51820},
 																															expr: &litMatcher{
-																																pos:        position{line: 1605, col: 17, offset: 51789},
+																																pos:        position{line: 1605, col: 17, offset: 51821},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27403,22 +27403,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1609, col: 9, offset: 51889},
+																													pos: position{line: 1609, col: 9, offset: 51921},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1628, col: 11, offset: 52606},
+																										pos: position{line: 1628, col: 11, offset: 52638},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1628, col: 11, offset: 52606},
+																											pos: position{line: 1628, col: 11, offset: 52638},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1628, col: 11, offset: 52606},
+																													pos: position{line: 1628, col: 11, offset: 52638},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1628, col: 12, offset: 52607},
+																														pos:        position{line: 1628, col: 12, offset: 52639},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27426,7 +27426,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1628, col: 20, offset: 52615},
+																													pos:        position{line: 1628, col: 20, offset: 52647},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27435,20 +27435,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1630, col: 13, offset: 52732},
+																										pos: position{line: 1630, col: 13, offset: 52764},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1630, col: 13, offset: 52732},
+																											pos: position{line: 1630, col: 13, offset: 52764},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1630, col: 14, offset: 52733},
+																													pos:        position{line: 1630, col: 14, offset: 52765},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1630, col: 21, offset: 52740},
+																													pos:        position{line: 1630, col: 21, offset: 52772},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27457,20 +27457,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1632, col: 13, offset: 52860},
+																										pos: position{line: 1632, col: 13, offset: 52892},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1632, col: 13, offset: 52860},
+																											pos: position{line: 1632, col: 13, offset: 52892},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1632, col: 14, offset: 52861},
+																													pos:        position{line: 1632, col: 14, offset: 52893},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1632, col: 21, offset: 52868},
+																													pos:        position{line: 1632, col: 21, offset: 52900},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27479,15 +27479,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1634, col: 13, offset: 52988},
+																										pos: position{line: 1634, col: 13, offset: 53020},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1634, col: 13, offset: 52988},
+																											pos: position{line: 1634, col: 13, offset: 53020},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1634, col: 13, offset: 52988},
+																													pos: position{line: 1634, col: 13, offset: 53020},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1634, col: 14, offset: 52989},
+																														pos:        position{line: 1634, col: 14, offset: 53021},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27495,7 +27495,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1634, col: 26, offset: 53001},
+																													pos:        position{line: 1634, col: 26, offset: 53033},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27504,15 +27504,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1636, col: 13, offset: 53121},
+																										pos: position{line: 1636, col: 13, offset: 53153},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1636, col: 13, offset: 53121},
+																											pos: position{line: 1636, col: 13, offset: 53153},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1636, col: 13, offset: 53121},
+																													pos: position{line: 1636, col: 13, offset: 53153},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1636, col: 14, offset: 53122},
+																														pos:        position{line: 1636, col: 14, offset: 53154},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27520,7 +27520,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1636, col: 26, offset: 53134},
+																													pos:        position{line: 1636, col: 26, offset: 53166},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27532,12 +27532,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2900, col: 11, offset: 91638},
+																							pos: position{line: 2909, col: 11, offset: 91896},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2900, col: 11, offset: 91638},
+																								pos: position{line: 2909, col: 11, offset: 91896},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 11, offset: 91638},
+																									pos:        position{line: 2909, col: 11, offset: 91896},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27550,26 +27550,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1597, col: 5, offset: 51542},
+																			pos:   position{line: 1597, col: 5, offset: 51574},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1544, col: 5, offset: 50009},
+																				pos: position{line: 1544, col: 5, offset: 50041},
 																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
-																					pos: position{line: 1544, col: 5, offset: 50009},
+																					pos: position{line: 1544, col: 5, offset: 50041},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1544, col: 5, offset: 50009},
+																							pos:   position{line: 1544, col: 5, offset: 50041},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1544, col: 14, offset: 50018},
+																								pos: position{line: 1544, col: 14, offset: 50050},
 																								expr: &actionExpr{
-																									pos: position{line: 1544, col: 15, offset: 50019},
+																									pos: position{line: 1544, col: 15, offset: 50051},
 																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1544, col: 15, offset: 50019},
+																										pos: position{line: 1544, col: 15, offset: 50051},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1544, col: 15, offset: 50019},
+																											pos:        position{line: 1544, col: 15, offset: 50051},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27580,28 +27580,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27610,9 +27610,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -27625,27 +27625,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1646, col: 5, offset: 53400},
+																pos: position{line: 1646, col: 5, offset: 53432},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1646, col: 5, offset: 53400},
+																	pos: position{line: 1646, col: 5, offset: 53432},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1646, col: 5, offset: 53400},
+																			pos:   position{line: 1646, col: 5, offset: 53432},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1653, col: 5, offset: 53673},
+																				pos: position{line: 1653, col: 5, offset: 53705},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1653, col: 5, offset: 53673},
+																					pos: position{line: 1653, col: 5, offset: 53705},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1653, col: 5, offset: 53673},
+																							pos: position{line: 1653, col: 5, offset: 53705},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27654,24 +27654,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1654, col: 5, offset: 53685},
+																							pos:   position{line: 1654, col: 5, offset: 53717},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1655, col: 9, offset: 53701},
+																								pos: position{line: 1655, col: 9, offset: 53733},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1655, col: 10, offset: 53702},
+																									pos: position{line: 1655, col: 10, offset: 53734},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1655, col: 11, offset: 53703},
+																											pos:        position{line: 1655, col: 11, offset: 53735},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1655, col: 18, offset: 53710},
+																											pos: position{line: 1655, col: 18, offset: 53742},
 																											expr: &litMatcher{
-																												pos:        position{line: 1655, col: 19, offset: 53711},
+																												pos:        position{line: 1655, col: 19, offset: 53743},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27682,16 +27682,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1658, col: 7, offset: 53801},
+																							pos: position{line: 1658, col: 7, offset: 53833},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2900, col: 11, offset: 91638},
+																							pos: position{line: 2909, col: 11, offset: 91896},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2900, col: 11, offset: 91638},
+																								pos: position{line: 2909, col: 11, offset: 91896},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 11, offset: 91638},
+																									pos:        position{line: 2909, col: 11, offset: 91896},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27704,56 +27704,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1647, col: 5, offset: 53441},
+																			pos:   position{line: 1647, col: 5, offset: 53473},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1647, col: 16, offset: 53452},
+																				pos: position{line: 1647, col: 16, offset: 53484},
 																				expr: &actionExpr{
-																					pos: position{line: 1668, col: 5, offset: 54066},
+																					pos: position{line: 1668, col: 5, offset: 54098},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1668, col: 5, offset: 54066},
+																						pos: position{line: 1668, col: 5, offset: 54098},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1668, col: 5, offset: 54066},
+																								pos: position{line: 1668, col: 5, offset: 54098},
 																								expr: &litMatcher{
-																									pos:        position{line: 1668, col: 6, offset: 54067},
+																									pos:        position{line: 1668, col: 6, offset: 54099},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1668, col: 10, offset: 54071},
+																								pos:   position{line: 1668, col: 10, offset: 54103},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1669, col: 7, offset: 54085},
+																									pos: position{line: 1669, col: 7, offset: 54117},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1669, col: 7, offset: 54085},
+																											pos: position{line: 1669, col: 7, offset: 54117},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1669, col: 7, offset: 54085},
+																												pos:        position{line: 1669, col: 7, offset: 54117},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1670, col: 7, offset: 54130},
+																											pos: position{line: 1670, col: 7, offset: 54162},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1670, col: 7, offset: 54130},
+																												pos:        position{line: 1670, col: 7, offset: 54162},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1671, col: 7, offset: 54173},
+																											pos: position{line: 1671, col: 7, offset: 54205},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1671, col: 7, offset: 54173},
+																												pos:        position{line: 1671, col: 7, offset: 54205},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27763,12 +27763,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2900, col: 11, offset: 91638},
+																								pos: position{line: 2909, col: 11, offset: 91896},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2900, col: 11, offset: 91638},
+																									pos: position{line: 2909, col: 11, offset: 91896},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2900, col: 11, offset: 91638},
+																										pos:        position{line: 2909, col: 11, offset: 91896},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27782,26 +27782,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1648, col: 5, offset: 53491},
+																			pos:   position{line: 1648, col: 5, offset: 53523},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1544, col: 5, offset: 50009},
+																				pos: position{line: 1544, col: 5, offset: 50041},
 																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
-																					pos: position{line: 1544, col: 5, offset: 50009},
+																					pos: position{line: 1544, col: 5, offset: 50041},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1544, col: 5, offset: 50009},
+																							pos:   position{line: 1544, col: 5, offset: 50041},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1544, col: 14, offset: 50018},
+																								pos: position{line: 1544, col: 14, offset: 50050},
 																								expr: &actionExpr{
-																									pos: position{line: 1544, col: 15, offset: 50019},
+																									pos: position{line: 1544, col: 15, offset: 50051},
 																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1544, col: 15, offset: 50019},
+																										pos: position{line: 1544, col: 15, offset: 50051},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1544, col: 15, offset: 50019},
+																											pos:        position{line: 1544, col: 15, offset: 50051},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27812,28 +27812,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27842,9 +27842,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -27857,36 +27857,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1737, col: 5, offset: 56045},
+																pos: position{line: 1737, col: 5, offset: 56077},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1737, col: 5, offset: 56045},
+																	pos: position{line: 1737, col: 5, offset: 56077},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1737, col: 5, offset: 56045},
+																			pos:   position{line: 1737, col: 5, offset: 56077},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1743, col: 5, offset: 56242},
+																				pos: position{line: 1743, col: 5, offset: 56274},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1743, col: 5, offset: 56242},
+																					pos: position{line: 1743, col: 5, offset: 56274},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1743, col: 5, offset: 56242},
+																							pos:        position{line: 1743, col: 5, offset: 56274},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1743, col: 9, offset: 56246},
+																							pos:   position{line: 1743, col: 9, offset: 56278},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1743, col: 14, offset: 56251},
+																								pos: position{line: 1743, col: 14, offset: 56283},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1743, col: 14, offset: 56251},
+																									pos: position{line: 1743, col: 14, offset: 56283},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1743, col: 14, offset: 56251},
+																										pos:        position{line: 1743, col: 14, offset: 56283},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27896,18 +27896,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1743, col: 62, offset: 56299},
+																							pos:        position{line: 1743, col: 62, offset: 56331},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2900, col: 11, offset: 91638},
+																							pos: position{line: 2909, col: 11, offset: 91896},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2900, col: 11, offset: 91638},
+																								pos: position{line: 2909, col: 11, offset: 91896},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 11, offset: 91638},
+																									pos:        position{line: 2909, col: 11, offset: 91896},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27920,26 +27920,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1738, col: 5, offset: 56081},
+																			pos:   position{line: 1738, col: 5, offset: 56113},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1544, col: 5, offset: 50009},
+																				pos: position{line: 1544, col: 5, offset: 50041},
 																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
-																					pos: position{line: 1544, col: 5, offset: 50009},
+																					pos: position{line: 1544, col: 5, offset: 50041},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1544, col: 5, offset: 50009},
+																							pos:   position{line: 1544, col: 5, offset: 50041},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1544, col: 14, offset: 50018},
+																								pos: position{line: 1544, col: 14, offset: 50050},
 																								expr: &actionExpr{
-																									pos: position{line: 1544, col: 15, offset: 50019},
+																									pos: position{line: 1544, col: 15, offset: 50051},
 																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1544, col: 15, offset: 50019},
+																										pos: position{line: 1544, col: 15, offset: 50051},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1544, col: 15, offset: 50019},
+																											pos:        position{line: 1544, col: 15, offset: 50051},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27950,28 +27950,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27980,9 +27980,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -27995,35 +27995,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1680, col: 5, offset: 54366},
+																pos: position{line: 1680, col: 5, offset: 54398},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1680, col: 5, offset: 54366},
+																	pos: position{line: 1680, col: 5, offset: 54398},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1680, col: 5, offset: 54366},
+																			pos:   position{line: 1680, col: 5, offset: 54398},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1688, col: 5, offset: 54692},
+																				pos: position{line: 1688, col: 5, offset: 54724},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1688, col: 5, offset: 54692},
+																					pos: position{line: 1688, col: 5, offset: 54724},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1688, col: 5, offset: 54692},
+																							pos: position{line: 1688, col: 5, offset: 54724},
 																							expr: &seqExpr{
-																								pos: position{line: 2502, col: 31, offset: 80558},
+																								pos: position{line: 2502, col: 31, offset: 80590},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2502, col: 31, offset: 80558},
+																										pos:        position{line: 2502, col: 31, offset: 80590},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2502, col: 36, offset: 80563},
+																										pos: position{line: 2502, col: 36, offset: 80595},
 																										expr: &litMatcher{
-																											pos:        position{line: 2502, col: 37, offset: 80564},
+																											pos:        position{line: 2502, col: 37, offset: 80596},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -28033,28 +28033,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1689, col: 5, offset: 54724},
+																							pos: position{line: 1689, col: 5, offset: 54756},
 																							expr: &seqExpr{
-																								pos: position{line: 1689, col: 6, offset: 54725},
+																								pos: position{line: 1689, col: 6, offset: 54757},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1689, col: 6, offset: 54725},
+																										pos: position{line: 1689, col: 6, offset: 54757},
 																										expr: &actionExpr{
-																											pos: position{line: 1694, col: 5, offset: 54875},
+																											pos: position{line: 1694, col: 5, offset: 54907},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1694, col: 5, offset: 54875},
+																												pos: position{line: 1694, col: 5, offset: 54907},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1694, col: 5, offset: 54875},
+																														pos:   position{line: 1694, col: 5, offset: 54907},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1694, col: 16, offset: 54886},
+																															pos: position{line: 1694, col: 16, offset: 54918},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1694, col: 16, offset: 54886},
+																																pos: position{line: 1694, col: 16, offset: 54918},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1694, col: 17, offset: 54887},
+																																	pos:        position{line: 1694, col: 17, offset: 54919},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -28063,7 +28063,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1697, col: 5, offset: 54944},
+																														pos: position{line: 1697, col: 5, offset: 54976},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -28071,30 +28071,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1689, col: 35, offset: 54754},
+																										pos: position{line: 1689, col: 35, offset: 54786},
 																										expr: &choiceExpr{
-																											pos: position{line: 2918, col: 8, offset: 91975},
+																											pos: position{line: 2927, col: 8, offset: 92233},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2905, col: 12, offset: 91748},
+																													pos: position{line: 2914, col: 12, offset: 92006},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2905, col: 13, offset: 91749},
+																														pos: position{line: 2914, col: 13, offset: 92007},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 13, offset: 91749},
+																																pos:        position{line: 2914, col: 13, offset: 92007},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 20, offset: 91756},
+																																pos:        position{line: 2914, col: 20, offset: 92014},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 29, offset: 91765},
+																																pos:        position{line: 2914, col: 29, offset: 92023},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -28103,16 +28103,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2915, col: 8, offset: 91925},
+																													pos: position{line: 2924, col: 8, offset: 92183},
 																													expr: &anyMatcher{
-																														line: 2915, col: 9, offset: 91926,
+																														line: 2924, col: 9, offset: 92184,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1689, col: 40, offset: 54759,
+																										line: 1689, col: 40, offset: 54791,
 																									},
 																								},
 																							},
@@ -28122,24 +28122,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1681, col: 5, offset: 54401},
+																			pos:   position{line: 1681, col: 5, offset: 54433},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1694, col: 5, offset: 54875},
+																				pos: position{line: 1694, col: 5, offset: 54907},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1694, col: 5, offset: 54875},
+																					pos: position{line: 1694, col: 5, offset: 54907},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1694, col: 5, offset: 54875},
+																							pos:   position{line: 1694, col: 5, offset: 54907},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1694, col: 16, offset: 54886},
+																								pos: position{line: 1694, col: 16, offset: 54918},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1694, col: 16, offset: 54886},
+																									pos: position{line: 1694, col: 16, offset: 54918},
 																									expr: &litMatcher{
-																										pos:        position{line: 1694, col: 17, offset: 54887},
+																										pos:        position{line: 1694, col: 17, offset: 54919},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -28148,7 +28148,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1697, col: 5, offset: 54944},
+																							pos: position{line: 1697, col: 5, offset: 54976},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -28156,24 +28156,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1682, col: 5, offset: 54446},
+																			pos:   position{line: 1682, col: 5, offset: 54478},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1705, col: 5, offset: 55193},
+																				pos: position{line: 1705, col: 5, offset: 55225},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1707, col: 9, offset: 55259},
+																						pos: position{line: 1707, col: 9, offset: 55291},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1707, col: 9, offset: 55259},
+																							pos: position{line: 1707, col: 9, offset: 55291},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1707, col: 9, offset: 55259},
+																									pos: position{line: 1707, col: 9, offset: 55291},
 																									expr: &actionExpr{
-																										pos: position{line: 2896, col: 10, offset: 91577},
+																										pos: position{line: 2905, col: 10, offset: 91835},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2896, col: 10, offset: 91577},
+																											pos:        position{line: 2905, col: 10, offset: 91835},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28182,28 +28182,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2918, col: 8, offset: 91975},
+																									pos: position{line: 2927, col: 8, offset: 92233},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2905, col: 12, offset: 91748},
+																											pos: position{line: 2914, col: 12, offset: 92006},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2905, col: 13, offset: 91749},
+																												pos: position{line: 2914, col: 13, offset: 92007},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2905, col: 13, offset: 91749},
+																														pos:        position{line: 2914, col: 13, offset: 92007},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2905, col: 20, offset: 91756},
+																														pos:        position{line: 2914, col: 20, offset: 92014},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2905, col: 29, offset: 91765},
+																														pos:        position{line: 2914, col: 29, offset: 92023},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28212,34 +28212,34 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2915, col: 8, offset: 91925},
+																											pos: position{line: 2924, col: 8, offset: 92183},
 																											expr: &anyMatcher{
-																												line: 2915, col: 9, offset: 91926,
+																												line: 2924, col: 9, offset: 92184,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1708, col: 9, offset: 55278},
+																									pos: position{line: 1708, col: 9, offset: 55310},
 																									expr: &actionExpr{
-																										pos: position{line: 687, col: 14, offset: 21835},
+																										pos: position{line: 687, col: 14, offset: 21867},
 																										run: (*parser).callonExtraListElement454,
 																										expr: &seqExpr{
-																											pos: position{line: 687, col: 14, offset: 21835},
+																											pos: position{line: 687, col: 14, offset: 21867},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2913, col: 11, offset: 91911},
+																													pos: position{line: 2922, col: 11, offset: 92169},
 																													expr: &anyMatcher{
-																														line: 2913, col: 13, offset: 91913,
+																														line: 2922, col: 13, offset: 92171,
 																													},
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 687, col: 21, offset: 21842},
+																													pos: position{line: 687, col: 21, offset: 21874},
 																													expr: &actionExpr{
-																														pos: position{line: 2896, col: 10, offset: 91577},
+																														pos: position{line: 2905, col: 10, offset: 91835},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2896, col: 10, offset: 91577},
+																															pos:        position{line: 2905, col: 10, offset: 91835},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -28248,28 +28248,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2918, col: 8, offset: 91975},
+																													pos: position{line: 2927, col: 8, offset: 92233},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2905, col: 12, offset: 91748},
+																															pos: position{line: 2914, col: 12, offset: 92006},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2905, col: 13, offset: 91749},
+																																pos: position{line: 2914, col: 13, offset: 92007},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2905, col: 13, offset: 91749},
+																																		pos:        position{line: 2914, col: 13, offset: 92007},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2905, col: 20, offset: 91756},
+																																		pos:        position{line: 2914, col: 20, offset: 92014},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2905, col: 29, offset: 91765},
+																																		pos:        position{line: 2914, col: 29, offset: 92023},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28278,9 +28278,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2915, col: 8, offset: 91925},
+																															pos: position{line: 2924, col: 8, offset: 92183},
 																															expr: &anyMatcher{
-																																line: 2915, col: 9, offset: 91926,
+																																line: 2924, col: 9, offset: 92184,
 																															},
 																														},
 																													},
@@ -28293,18 +28293,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1714, col: 9, offset: 55407},
+																						pos: position{line: 1714, col: 9, offset: 55439},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1714, col: 9, offset: 55407},
+																							pos: position{line: 1714, col: 9, offset: 55439},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2900, col: 11, offset: 91638},
+																									pos: position{line: 2909, col: 11, offset: 91896},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2900, col: 11, offset: 91638},
+																										pos: position{line: 2909, col: 11, offset: 91896},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2900, col: 11, offset: 91638},
+																											pos:        position{line: 2909, col: 11, offset: 91896},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28313,15 +28313,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1715, col: 9, offset: 55480},
+																									pos:   position{line: 1715, col: 9, offset: 55512},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1715, col: 18, offset: 55489},
+																										pos: position{line: 1715, col: 18, offset: 55521},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1715, col: 18, offset: 55489},
+																											pos: position{line: 1715, col: 18, offset: 55521},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1715, col: 18, offset: 55489},
+																												pos:        position{line: 1715, col: 18, offset: 55521},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28331,28 +28331,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2918, col: 8, offset: 91975},
+																									pos: position{line: 2927, col: 8, offset: 92233},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2905, col: 12, offset: 91748},
+																											pos: position{line: 2914, col: 12, offset: 92006},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2905, col: 13, offset: 91749},
+																												pos: position{line: 2914, col: 13, offset: 92007},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2905, col: 13, offset: 91749},
+																														pos:        position{line: 2914, col: 13, offset: 92007},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2905, col: 20, offset: 91756},
+																														pos:        position{line: 2914, col: 20, offset: 92014},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2905, col: 29, offset: 91765},
+																														pos:        position{line: 2914, col: 29, offset: 92023},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28361,9 +28361,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2915, col: 8, offset: 91925},
+																											pos: position{line: 2924, col: 8, offset: 92183},
 																											expr: &anyMatcher{
-																												line: 2915, col: 9, offset: 91926,
+																												line: 2924, col: 9, offset: 92184,
 																											},
 																										},
 																									},
@@ -28384,40 +28384,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1523, col: 11, offset: 49373},
+										pos:  position{line: 1523, col: 11, offset: 49405},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2497, col: 22, offset: 80337},
+										pos: position{line: 2497, col: 22, offset: 80369},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2497, col: 22, offset: 80337},
+											pos: position{line: 2497, col: 22, offset: 80369},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2502, col: 31, offset: 80558},
+													pos:        position{line: 2502, col: 31, offset: 80590},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2502, col: 36, offset: 80563},
+													pos: position{line: 2502, col: 36, offset: 80595},
 													expr: &litMatcher{
-														pos:        position{line: 2502, col: 37, offset: 80564},
+														pos:        position{line: 2502, col: 37, offset: 80596},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2497, col: 49, offset: 80364},
+													pos:   position{line: 2497, col: 49, offset: 80396},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2842, col: 13, offset: 90103},
+														pos: position{line: 2851, col: 13, offset: 90361},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2842, col: 13, offset: 90103},
+															pos: position{line: 2851, col: 13, offset: 90361},
 															expr: &charClassMatcher{
-																pos:        position{line: 2842, col: 13, offset: 90103},
+																pos:        position{line: 2851, col: 13, offset: 90361},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28427,28 +28427,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2918, col: 8, offset: 91975},
+													pos: position{line: 2927, col: 8, offset: 92233},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2905, col: 12, offset: 91748},
+															pos: position{line: 2914, col: 12, offset: 92006},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2905, col: 13, offset: 91749},
+																pos: position{line: 2914, col: 13, offset: 92007},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 13, offset: 91749},
+																		pos:        position{line: 2914, col: 13, offset: 92007},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 20, offset: 91756},
+																		pos:        position{line: 2914, col: 20, offset: 92014},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 29, offset: 91765},
+																		pos:        position{line: 2914, col: 29, offset: 92023},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28457,9 +28457,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2915, col: 8, offset: 91925},
+															pos: position{line: 2924, col: 8, offset: 92183},
 															expr: &anyMatcher{
-																line: 2915, col: 9, offset: 91926,
+																line: 2924, col: 9, offset: 92184,
 															},
 														},
 													},
@@ -28468,32 +28468,32 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1531, col: 5, offset: 49651},
+										pos: position{line: 1531, col: 5, offset: 49683},
 										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
-											pos: position{line: 1531, col: 5, offset: 49651},
+											pos: position{line: 1531, col: 5, offset: 49683},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1531, col: 5, offset: 49651},
+													pos: position{line: 1531, col: 5, offset: 49683},
 													expr: &actionExpr{
-														pos: position{line: 687, col: 14, offset: 21835},
+														pos: position{line: 687, col: 14, offset: 21867},
 														run: (*parser).callonExtraListElement507,
 														expr: &seqExpr{
-															pos: position{line: 687, col: 14, offset: 21835},
+															pos: position{line: 687, col: 14, offset: 21867},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2913, col: 11, offset: 91911},
+																	pos: position{line: 2922, col: 11, offset: 92169},
 																	expr: &anyMatcher{
-																		line: 2913, col: 13, offset: 91913,
+																		line: 2922, col: 13, offset: 92171,
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 687, col: 21, offset: 21842},
+																	pos: position{line: 687, col: 21, offset: 21874},
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 10, offset: 91577},
+																		pos: position{line: 2905, col: 10, offset: 91835},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 10, offset: 91577},
+																			pos:        position{line: 2905, col: 10, offset: 91835},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28502,28 +28502,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28532,9 +28532,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -28544,23 +28544,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1532, col: 5, offset: 49666},
+													pos: position{line: 1532, col: 5, offset: 49698},
 													expr: &seqExpr{
-														pos: position{line: 1562, col: 27, offset: 50492},
+														pos: position{line: 1562, col: 27, offset: 50524},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1562, col: 27, offset: 50492},
+																pos:        position{line: 1562, col: 27, offset: 50524},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1562, col: 31, offset: 50496},
+																pos: position{line: 1562, col: 31, offset: 50528},
 																expr: &actionExpr{
-																	pos: position{line: 2896, col: 10, offset: 91577},
+																	pos: position{line: 2905, col: 10, offset: 91835},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2896, col: 10, offset: 91577},
+																		pos:        position{line: 2905, col: 10, offset: 91835},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28569,25 +28569,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2905, col: 12, offset: 91748},
+																pos: position{line: 2914, col: 12, offset: 92006},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2905, col: 13, offset: 91749},
+																	pos: position{line: 2914, col: 13, offset: 92007},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 13, offset: 91749},
+																			pos:        position{line: 2914, col: 13, offset: 92007},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 20, offset: 91756},
+																			pos:        position{line: 2914, col: 20, offset: 92014},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2905, col: 29, offset: 91765},
+																			pos:        position{line: 2914, col: 29, offset: 92023},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28599,20 +28599,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1533, col: 5, offset: 49694},
+													pos: position{line: 1533, col: 5, offset: 49726},
 													expr: &actionExpr{
-														pos: position{line: 1603, col: 5, offset: 51711},
+														pos: position{line: 1603, col: 5, offset: 51743},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1603, col: 5, offset: 51711},
+															pos: position{line: 1603, col: 5, offset: 51743},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1603, col: 5, offset: 51711},
+																	pos: position{line: 1603, col: 5, offset: 51743},
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 10, offset: 91577},
+																		pos: position{line: 2905, col: 10, offset: 91835},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 10, offset: 91577},
+																			pos:        position{line: 2905, col: 10, offset: 91835},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28621,27 +28621,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1603, col: 12, offset: 51718},
+																	pos:   position{line: 1603, col: 12, offset: 51750},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1605, col: 9, offset: 51781},
+																		pos: position{line: 1605, col: 9, offset: 51813},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1605, col: 9, offset: 51781},
+																				pos: position{line: 1605, col: 9, offset: 51813},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1605, col: 9, offset: 51781},
+																					pos: position{line: 1605, col: 9, offset: 51813},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1605, col: 9, offset: 51781},
+																							pos:   position{line: 1605, col: 9, offset: 51813},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1605, col: 16, offset: 51788},
+																								pos: position{line: 1605, col: 16, offset: 51820},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1605, col: 16, offset: 51788},
+																									pos: position{line: 1605, col: 16, offset: 51820},
 																									expr: &litMatcher{
-																										pos:        position{line: 1605, col: 17, offset: 51789},
+																										pos:        position{line: 1605, col: 17, offset: 51821},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28650,22 +28650,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1609, col: 9, offset: 51889},
+																							pos: position{line: 1609, col: 9, offset: 51921},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1628, col: 11, offset: 52606},
+																				pos: position{line: 1628, col: 11, offset: 52638},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1628, col: 11, offset: 52606},
+																					pos: position{line: 1628, col: 11, offset: 52638},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1628, col: 11, offset: 52606},
+																							pos: position{line: 1628, col: 11, offset: 52638},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1628, col: 12, offset: 52607},
+																								pos:        position{line: 1628, col: 12, offset: 52639},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28673,7 +28673,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1628, col: 20, offset: 52615},
+																							pos:        position{line: 1628, col: 20, offset: 52647},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28682,20 +28682,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1630, col: 13, offset: 52732},
+																				pos: position{line: 1630, col: 13, offset: 52764},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1630, col: 13, offset: 52732},
+																					pos: position{line: 1630, col: 13, offset: 52764},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1630, col: 14, offset: 52733},
+																							pos:        position{line: 1630, col: 14, offset: 52765},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1630, col: 21, offset: 52740},
+																							pos:        position{line: 1630, col: 21, offset: 52772},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28704,20 +28704,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1632, col: 13, offset: 52860},
+																				pos: position{line: 1632, col: 13, offset: 52892},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1632, col: 13, offset: 52860},
+																					pos: position{line: 1632, col: 13, offset: 52892},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1632, col: 14, offset: 52861},
+																							pos:        position{line: 1632, col: 14, offset: 52893},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1632, col: 21, offset: 52868},
+																							pos:        position{line: 1632, col: 21, offset: 52900},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28726,15 +28726,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1634, col: 13, offset: 52988},
+																				pos: position{line: 1634, col: 13, offset: 53020},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1634, col: 13, offset: 52988},
+																					pos: position{line: 1634, col: 13, offset: 53020},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1634, col: 13, offset: 52988},
+																							pos: position{line: 1634, col: 13, offset: 53020},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1634, col: 14, offset: 52989},
+																								pos:        position{line: 1634, col: 14, offset: 53021},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28742,7 +28742,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1634, col: 26, offset: 53001},
+																							pos:        position{line: 1634, col: 26, offset: 53033},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28751,15 +28751,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1636, col: 13, offset: 53121},
+																				pos: position{line: 1636, col: 13, offset: 53153},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1636, col: 13, offset: 53121},
+																					pos: position{line: 1636, col: 13, offset: 53153},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1636, col: 13, offset: 53121},
+																							pos: position{line: 1636, col: 13, offset: 53153},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1636, col: 14, offset: 53122},
+																								pos:        position{line: 1636, col: 14, offset: 53154},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28767,7 +28767,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1636, col: 26, offset: 53134},
+																							pos:        position{line: 1636, col: 26, offset: 53166},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28779,12 +28779,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2900, col: 11, offset: 91638},
+																	pos: position{line: 2909, col: 11, offset: 91896},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2900, col: 11, offset: 91638},
+																		pos: position{line: 2909, col: 11, offset: 91896},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 11, offset: 91638},
+																			pos:        position{line: 2909, col: 11, offset: 91896},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28797,20 +28797,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1534, col: 5, offset: 49724},
+													pos: position{line: 1534, col: 5, offset: 49756},
 													expr: &actionExpr{
-														pos: position{line: 1653, col: 5, offset: 53673},
+														pos: position{line: 1653, col: 5, offset: 53705},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1653, col: 5, offset: 53673},
+															pos: position{line: 1653, col: 5, offset: 53705},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1653, col: 5, offset: 53673},
+																	pos: position{line: 1653, col: 5, offset: 53705},
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 10, offset: 91577},
+																		pos: position{line: 2905, col: 10, offset: 91835},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 10, offset: 91577},
+																			pos:        position{line: 2905, col: 10, offset: 91835},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28819,24 +28819,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1654, col: 5, offset: 53685},
+																	pos:   position{line: 1654, col: 5, offset: 53717},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1655, col: 9, offset: 53701},
+																		pos: position{line: 1655, col: 9, offset: 53733},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1655, col: 10, offset: 53702},
+																			pos: position{line: 1655, col: 10, offset: 53734},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1655, col: 11, offset: 53703},
+																					pos:        position{line: 1655, col: 11, offset: 53735},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1655, col: 18, offset: 53710},
+																					pos: position{line: 1655, col: 18, offset: 53742},
 																					expr: &litMatcher{
-																						pos:        position{line: 1655, col: 19, offset: 53711},
+																						pos:        position{line: 1655, col: 19, offset: 53743},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28847,16 +28847,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1658, col: 7, offset: 53801},
+																	pos: position{line: 1658, col: 7, offset: 53833},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2900, col: 11, offset: 91638},
+																	pos: position{line: 2909, col: 11, offset: 91896},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2900, col: 11, offset: 91638},
+																		pos: position{line: 2909, col: 11, offset: 91896},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 11, offset: 91638},
+																			pos:        position{line: 2909, col: 11, offset: 91896},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28869,29 +28869,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1535, col: 5, offset: 49756},
+													pos: position{line: 1535, col: 5, offset: 49788},
 													expr: &actionExpr{
-														pos: position{line: 1743, col: 5, offset: 56242},
+														pos: position{line: 1743, col: 5, offset: 56274},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1743, col: 5, offset: 56242},
+															pos: position{line: 1743, col: 5, offset: 56274},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1743, col: 5, offset: 56242},
+																	pos:        position{line: 1743, col: 5, offset: 56274},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1743, col: 9, offset: 56246},
+																	pos:   position{line: 1743, col: 9, offset: 56278},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1743, col: 14, offset: 56251},
+																		pos: position{line: 1743, col: 14, offset: 56283},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1743, col: 14, offset: 56251},
+																			pos: position{line: 1743, col: 14, offset: 56283},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1743, col: 14, offset: 56251},
+																				pos:        position{line: 1743, col: 14, offset: 56283},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28901,18 +28901,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1743, col: 62, offset: 56299},
+																	pos:        position{line: 1743, col: 62, offset: 56331},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2900, col: 11, offset: 91638},
+																	pos: position{line: 2909, col: 11, offset: 91896},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2900, col: 11, offset: 91638},
+																		pos: position{line: 2909, col: 11, offset: 91896},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 11, offset: 91638},
+																			pos:        position{line: 2909, col: 11, offset: 91896},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28925,31 +28925,31 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1536, col: 5, offset: 49786},
+													pos: position{line: 1536, col: 5, offset: 49818},
 													expr: &seqExpr{
-														pos: position{line: 1536, col: 7, offset: 49788},
+														pos: position{line: 1536, col: 7, offset: 49820},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1688, col: 5, offset: 54692},
+																pos: position{line: 1688, col: 5, offset: 54724},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1688, col: 5, offset: 54692},
+																	pos: position{line: 1688, col: 5, offset: 54724},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1688, col: 5, offset: 54692},
+																			pos: position{line: 1688, col: 5, offset: 54724},
 																			expr: &seqExpr{
-																				pos: position{line: 2502, col: 31, offset: 80558},
+																				pos: position{line: 2502, col: 31, offset: 80590},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2502, col: 31, offset: 80558},
+																						pos:        position{line: 2502, col: 31, offset: 80590},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2502, col: 36, offset: 80563},
+																						pos: position{line: 2502, col: 36, offset: 80595},
 																						expr: &litMatcher{
-																							pos:        position{line: 2502, col: 37, offset: 80564},
+																							pos:        position{line: 2502, col: 37, offset: 80596},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
@@ -28959,28 +28959,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1689, col: 5, offset: 54724},
+																			pos: position{line: 1689, col: 5, offset: 54756},
 																			expr: &seqExpr{
-																				pos: position{line: 1689, col: 6, offset: 54725},
+																				pos: position{line: 1689, col: 6, offset: 54757},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1689, col: 6, offset: 54725},
+																						pos: position{line: 1689, col: 6, offset: 54757},
 																						expr: &actionExpr{
-																							pos: position{line: 1694, col: 5, offset: 54875},
+																							pos: position{line: 1694, col: 5, offset: 54907},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1694, col: 5, offset: 54875},
+																								pos: position{line: 1694, col: 5, offset: 54907},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1694, col: 5, offset: 54875},
+																										pos:   position{line: 1694, col: 5, offset: 54907},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1694, col: 16, offset: 54886},
+																											pos: position{line: 1694, col: 16, offset: 54918},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1694, col: 16, offset: 54886},
+																												pos: position{line: 1694, col: 16, offset: 54918},
 																												expr: &litMatcher{
-																													pos:        position{line: 1694, col: 17, offset: 54887},
+																													pos:        position{line: 1694, col: 17, offset: 54919},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -28989,7 +28989,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1697, col: 5, offset: 54944},
+																										pos: position{line: 1697, col: 5, offset: 54976},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -28997,30 +28997,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1689, col: 35, offset: 54754},
+																						pos: position{line: 1689, col: 35, offset: 54786},
 																						expr: &choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29029,16 +29029,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1689, col: 40, offset: 54759,
+																						line: 1689, col: 40, offset: 54791,
 																					},
 																				},
 																			},
@@ -29047,21 +29047,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1694, col: 5, offset: 54875},
+																pos: position{line: 1694, col: 5, offset: 54907},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1694, col: 5, offset: 54875},
+																	pos: position{line: 1694, col: 5, offset: 54907},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1694, col: 5, offset: 54875},
+																			pos:   position{line: 1694, col: 5, offset: 54907},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1694, col: 16, offset: 54886},
+																				pos: position{line: 1694, col: 16, offset: 54918},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1694, col: 16, offset: 54886},
+																					pos: position{line: 1694, col: 16, offset: 54918},
 																					expr: &litMatcher{
-																						pos:        position{line: 1694, col: 17, offset: 54887},
+																						pos:        position{line: 1694, col: 17, offset: 54919},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -29070,7 +29070,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1697, col: 5, offset: 54944},
+																			pos: position{line: 1697, col: 5, offset: 54976},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -29080,17 +29080,17 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1537, col: 5, offset: 49844},
+													pos: position{line: 1537, col: 5, offset: 49876},
 													expr: &actionExpr{
-														pos: position{line: 738, col: 5, offset: 23496},
+														pos: position{line: 738, col: 5, offset: 23528},
 														run: (*parser).callonExtraListElement639,
 														expr: &seqExpr{
-															pos: position{line: 738, col: 5, offset: 23496},
+															pos: position{line: 738, col: 5, offset: 23528},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 738, col: 5, offset: 23496},
+																	pos: position{line: 738, col: 5, offset: 23528},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2786, col: 13, offset: 88672},
+																		pos:        position{line: 2795, col: 13, offset: 88930},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -29098,36 +29098,36 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 739, col: 5, offset: 23526},
+																	pos:   position{line: 739, col: 5, offset: 23558},
 																	label: "delimiter",
 																	expr: &choiceExpr{
-																		pos: position{line: 740, col: 9, offset: 23546},
+																		pos: position{line: 740, col: 9, offset: 23578},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 754, col: 5, offset: 24038},
+																				pos: position{line: 754, col: 5, offset: 24070},
 																				run: (*parser).callonExtraListElement645,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 5, offset: 24038},
+																					pos: position{line: 754, col: 5, offset: 24070},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 754, col: 5, offset: 24038},
+																							pos:   position{line: 754, col: 5, offset: 24070},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 16, offset: 24049},
+																								pos: position{line: 754, col: 16, offset: 24081},
 																								run: (*parser).callonExtraListElement648,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 16, offset: 24049},
+																									pos: position{line: 754, col: 16, offset: 24081},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 754, col: 16, offset: 24049},
+																											pos:        position{line: 754, col: 16, offset: 24081},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 754, col: 23, offset: 24056},
+																											pos: position{line: 754, col: 23, offset: 24088},
 																											expr: &litMatcher{
-																												pos:        position{line: 754, col: 23, offset: 24056},
+																												pos:        position{line: 754, col: 23, offset: 24088},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -29138,12 +29138,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 8, offset: 24140},
+																							pos: position{line: 756, col: 8, offset: 24172},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29152,28 +29152,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29182,9 +29182,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -29193,30 +29193,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 761, col: 5, offset: 24286},
+																				pos: position{line: 761, col: 5, offset: 24318},
 																				run: (*parser).callonExtraListElement664,
 																				expr: &seqExpr{
-																					pos: position{line: 761, col: 5, offset: 24286},
+																					pos: position{line: 761, col: 5, offset: 24318},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 761, col: 5, offset: 24286},
+																							pos:   position{line: 761, col: 5, offset: 24318},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 761, col: 16, offset: 24297},
+																								pos: position{line: 761, col: 16, offset: 24329},
 																								run: (*parser).callonExtraListElement667,
 																								expr: &seqExpr{
-																									pos: position{line: 761, col: 16, offset: 24297},
+																									pos: position{line: 761, col: 16, offset: 24329},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 761, col: 16, offset: 24297},
+																											pos:        position{line: 761, col: 16, offset: 24329},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 761, col: 23, offset: 24304},
+																											pos: position{line: 761, col: 23, offset: 24336},
 																											expr: &litMatcher{
-																												pos:        position{line: 761, col: 23, offset: 24304},
+																												pos:        position{line: 761, col: 23, offset: 24336},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -29227,12 +29227,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 763, col: 8, offset: 24388},
+																							pos: position{line: 763, col: 8, offset: 24420},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29241,28 +29241,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29271,9 +29271,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -29282,27 +29282,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 774, col: 26, offset: 24774},
+																				pos: position{line: 774, col: 26, offset: 24806},
 																				run: (*parser).callonExtraListElement683,
 																				expr: &seqExpr{
-																					pos: position{line: 774, col: 26, offset: 24774},
+																					pos: position{line: 774, col: 26, offset: 24806},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 774, col: 26, offset: 24774},
+																							pos:        position{line: 774, col: 26, offset: 24806},
 																							val:        "```",
 																							ignoreCase: false,
 																							want:       "\"```\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 774, col: 32, offset: 24780},
+																							pos:   position{line: 774, col: 32, offset: 24812},
 																							label: "language",
 																							expr: &actionExpr{
-																								pos: position{line: 778, col: 13, offset: 24910},
+																								pos: position{line: 778, col: 13, offset: 24942},
 																								run: (*parser).callonExtraListElement687,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 778, col: 14, offset: 24911},
+																									pos: position{line: 778, col: 14, offset: 24943},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 778, col: 14, offset: 24911},
+																										pos:        position{line: 778, col: 14, offset: 24943},
 																										val:        "[^\\r\\n` ]",
 																										chars:      []rune{'\r', '\n', '`', ' '},
 																										ignoreCase: false,
@@ -29312,12 +29312,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 774, col: 52, offset: 24800},
+																							pos: position{line: 774, col: 52, offset: 24832},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29326,28 +29326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29356,9 +29356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -29367,30 +29367,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 768, col: 5, offset: 24533},
+																				pos: position{line: 768, col: 5, offset: 24565},
 																				run: (*parser).callonExtraListElement701,
 																				expr: &seqExpr{
-																					pos: position{line: 768, col: 5, offset: 24533},
+																					pos: position{line: 768, col: 5, offset: 24565},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 768, col: 5, offset: 24533},
+																							pos:   position{line: 768, col: 5, offset: 24565},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 768, col: 16, offset: 24544},
+																								pos: position{line: 768, col: 16, offset: 24576},
 																								run: (*parser).callonExtraListElement704,
 																								expr: &seqExpr{
-																									pos: position{line: 768, col: 16, offset: 24544},
+																									pos: position{line: 768, col: 16, offset: 24576},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 768, col: 16, offset: 24544},
+																											pos:        position{line: 768, col: 16, offset: 24576},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 768, col: 22, offset: 24550},
+																											pos: position{line: 768, col: 22, offset: 24582},
 																											expr: &litMatcher{
-																												pos:        position{line: 768, col: 22, offset: 24550},
+																												pos:        position{line: 768, col: 22, offset: 24582},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -29401,12 +29401,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 770, col: 8, offset: 24634},
+																							pos: position{line: 770, col: 8, offset: 24666},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29415,28 +29415,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29445,9 +29445,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -29456,30 +29456,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 783, col: 5, offset: 25070},
+																				pos: position{line: 783, col: 5, offset: 25102},
 																				run: (*parser).callonExtraListElement720,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 5, offset: 25070},
+																					pos: position{line: 783, col: 5, offset: 25102},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 783, col: 5, offset: 25070},
+																							pos:   position{line: 783, col: 5, offset: 25102},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 16, offset: 25081},
+																								pos: position{line: 783, col: 16, offset: 25113},
 																								run: (*parser).callonExtraListElement723,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 16, offset: 25081},
+																									pos: position{line: 783, col: 16, offset: 25113},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 783, col: 16, offset: 25081},
+																											pos:        position{line: 783, col: 16, offset: 25113},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 783, col: 23, offset: 25088},
+																											pos: position{line: 783, col: 23, offset: 25120},
 																											expr: &litMatcher{
-																												pos:        position{line: 783, col: 23, offset: 25088},
+																												pos:        position{line: 783, col: 23, offset: 25120},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -29490,12 +29490,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 8, offset: 25172},
+																							pos: position{line: 785, col: 8, offset: 25204},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29504,28 +29504,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29534,9 +29534,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -29545,30 +29545,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 797, col: 5, offset: 25546},
+																				pos: position{line: 797, col: 5, offset: 25578},
 																				run: (*parser).callonExtraListElement739,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 5, offset: 25546},
+																					pos: position{line: 797, col: 5, offset: 25578},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 797, col: 5, offset: 25546},
+																							pos:   position{line: 797, col: 5, offset: 25578},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 16, offset: 25557},
+																								pos: position{line: 797, col: 16, offset: 25589},
 																								run: (*parser).callonExtraListElement742,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 16, offset: 25557},
+																									pos: position{line: 797, col: 16, offset: 25589},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 797, col: 16, offset: 25557},
+																											pos:        position{line: 797, col: 16, offset: 25589},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 797, col: 23, offset: 25564},
+																											pos: position{line: 797, col: 23, offset: 25596},
 																											expr: &litMatcher{
-																												pos:        position{line: 797, col: 23, offset: 25564},
+																												pos:        position{line: 797, col: 23, offset: 25596},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -29579,12 +29579,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 8, offset: 25648},
+																							pos: position{line: 799, col: 8, offset: 25680},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29593,28 +29593,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29623,9 +29623,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -29634,30 +29634,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 804, col: 5, offset: 25798},
+																				pos: position{line: 804, col: 5, offset: 25830},
 																				run: (*parser).callonExtraListElement758,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 5, offset: 25798},
+																					pos: position{line: 804, col: 5, offset: 25830},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 804, col: 5, offset: 25798},
+																							pos:   position{line: 804, col: 5, offset: 25830},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 16, offset: 25809},
+																								pos: position{line: 804, col: 16, offset: 25841},
 																								run: (*parser).callonExtraListElement761,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 16, offset: 25809},
+																									pos: position{line: 804, col: 16, offset: 25841},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 804, col: 16, offset: 25809},
+																											pos:        position{line: 804, col: 16, offset: 25841},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 804, col: 23, offset: 25816},
+																											pos: position{line: 804, col: 23, offset: 25848},
 																											expr: &litMatcher{
-																												pos:        position{line: 804, col: 23, offset: 25816},
+																												pos:        position{line: 804, col: 23, offset: 25848},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -29668,12 +29668,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 8, offset: 25900},
+																							pos: position{line: 806, col: 8, offset: 25932},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29682,28 +29682,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29712,9 +29712,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -29723,30 +29723,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26048},
+																				pos: position{line: 811, col: 5, offset: 26080},
 																				run: (*parser).callonExtraListElement777,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26048},
+																					pos: position{line: 811, col: 5, offset: 26080},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26048},
+																							pos:   position{line: 811, col: 5, offset: 26080},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 811, col: 16, offset: 26059},
+																								pos: position{line: 811, col: 16, offset: 26091},
 																								run: (*parser).callonExtraListElement780,
 																								expr: &seqExpr{
-																									pos: position{line: 811, col: 16, offset: 26059},
+																									pos: position{line: 811, col: 16, offset: 26091},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 811, col: 16, offset: 26059},
+																											pos:        position{line: 811, col: 16, offset: 26091},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 811, col: 23, offset: 26066},
+																											pos: position{line: 811, col: 23, offset: 26098},
 																											expr: &litMatcher{
-																												pos:        position{line: 811, col: 23, offset: 26066},
+																												pos:        position{line: 811, col: 23, offset: 26098},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -29757,12 +29757,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 813, col: 8, offset: 26150},
+																							pos: position{line: 813, col: 8, offset: 26182},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29771,28 +29771,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29801,9 +29801,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -29812,30 +29812,30 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 818, col: 5, offset: 26294},
+																				pos: position{line: 818, col: 5, offset: 26326},
 																				run: (*parser).callonExtraListElement796,
 																				expr: &seqExpr{
-																					pos: position{line: 818, col: 5, offset: 26294},
+																					pos: position{line: 818, col: 5, offset: 26326},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 818, col: 5, offset: 26294},
+																							pos:   position{line: 818, col: 5, offset: 26326},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 818, col: 16, offset: 26305},
+																								pos: position{line: 818, col: 16, offset: 26337},
 																								run: (*parser).callonExtraListElement799,
 																								expr: &seqExpr{
-																									pos: position{line: 818, col: 16, offset: 26305},
+																									pos: position{line: 818, col: 16, offset: 26337},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 818, col: 16, offset: 26305},
+																											pos:        position{line: 818, col: 16, offset: 26337},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 818, col: 23, offset: 26312},
+																											pos: position{line: 818, col: 23, offset: 26344},
 																											expr: &litMatcher{
-																												pos:        position{line: 818, col: 23, offset: 26312},
+																												pos:        position{line: 818, col: 23, offset: 26344},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -29846,12 +29846,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 820, col: 8, offset: 26396},
+																							pos: position{line: 820, col: 8, offset: 26428},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29860,28 +29860,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29890,9 +29890,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -29908,15 +29908,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1538, col: 5, offset: 49864},
+													pos:   position{line: 1538, col: 5, offset: 49896},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2846, col: 14, offset: 90170},
+														pos: position{line: 2855, col: 14, offset: 90428},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2846, col: 14, offset: 90170},
+															pos: position{line: 2855, col: 14, offset: 90428},
 															expr: &charClassMatcher{
-																pos:        position{line: 2846, col: 14, offset: 90170},
+																pos:        position{line: 2855, col: 14, offset: 90428},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29926,28 +29926,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2918, col: 8, offset: 91975},
+													pos: position{line: 2927, col: 8, offset: 92233},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2905, col: 12, offset: 91748},
+															pos: position{line: 2914, col: 12, offset: 92006},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2905, col: 13, offset: 91749},
+																pos: position{line: 2914, col: 13, offset: 92007},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 13, offset: 91749},
+																		pos:        position{line: 2914, col: 13, offset: 92007},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 20, offset: 91756},
+																		pos:        position{line: 2914, col: 20, offset: 92014},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 29, offset: 91765},
+																		pos:        position{line: 2914, col: 29, offset: 92023},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29956,9 +29956,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2915, col: 8, offset: 91925},
+															pos: position{line: 2924, col: 8, offset: 92183},
 															expr: &anyMatcher{
-																line: 2915, col: 9, offset: 91926,
+																line: 2924, col: 9, offset: 92184,
 															},
 														},
 													},
@@ -29975,28 +29975,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1554, col: 1, offset: 50255},
+			pos:  position{line: 1554, col: 1, offset: 50287},
 			expr: &actionExpr{
-				pos: position{line: 1555, col: 5, offset: 50280},
+				pos: position{line: 1555, col: 5, offset: 50312},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1555, col: 5, offset: 50280},
+					pos: position{line: 1555, col: 5, offset: 50312},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1555, col: 5, offset: 50280},
+							pos:   position{line: 1555, col: 5, offset: 50312},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1555, col: 12, offset: 50287},
+								pos: position{line: 1555, col: 12, offset: 50319},
 								expr: &seqExpr{
-									pos: position{line: 1555, col: 13, offset: 50288},
+									pos: position{line: 1555, col: 13, offset: 50320},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1555, col: 13, offset: 50288},
+											pos: position{line: 1555, col: 13, offset: 50320},
 											expr: &actionExpr{
-												pos: position{line: 2896, col: 10, offset: 91577},
+												pos: position{line: 2905, col: 10, offset: 91835},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2896, col: 10, offset: 91577},
+													pos:        position{line: 2905, col: 10, offset: 91835},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -30005,25 +30005,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2905, col: 12, offset: 91748},
+											pos: position{line: 2914, col: 12, offset: 92006},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2905, col: 13, offset: 91749},
+												pos: position{line: 2914, col: 13, offset: 92007},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2905, col: 13, offset: 91749},
+														pos:        position{line: 2914, col: 13, offset: 92007},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2905, col: 20, offset: 91756},
+														pos:        position{line: 2914, col: 20, offset: 92014},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2905, col: 29, offset: 91765},
+														pos:        position{line: 2914, col: 29, offset: 92023},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -30036,18 +30036,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1562, col: 27, offset: 50492},
+							pos:        position{line: 1562, col: 27, offset: 50524},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1562, col: 31, offset: 50496},
+							pos: position{line: 1562, col: 31, offset: 50528},
 							expr: &actionExpr{
-								pos: position{line: 2896, col: 10, offset: 91577},
+								pos: position{line: 2905, col: 10, offset: 91835},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2896, col: 10, offset: 91577},
+									pos:        position{line: 2905, col: 10, offset: 91835},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -30056,25 +30056,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2905, col: 12, offset: 91748},
+							pos: position{line: 2914, col: 12, offset: 92006},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2905, col: 13, offset: 91749},
+								pos: position{line: 2914, col: 13, offset: 92007},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2905, col: 13, offset: 91749},
+										pos:        position{line: 2914, col: 13, offset: 92007},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2905, col: 20, offset: 91756},
+										pos:        position{line: 2914, col: 20, offset: 92014},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2905, col: 29, offset: 91765},
+										pos:        position{line: 2914, col: 29, offset: 92023},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -30083,12 +30083,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1557, col: 5, offset: 50337},
+							pos:   position{line: 1557, col: 5, offset: 50369},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1557, col: 13, offset: 50345},
+								pos: position{line: 1557, col: 13, offset: 50377},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1557, col: 13, offset: 50345},
+									pos:  position{line: 1557, col: 13, offset: 50377},
 									name: "ListContinuationElement",
 								},
 							},
@@ -30099,46 +30099,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1564, col: 1, offset: 50512},
+			pos:  position{line: 1564, col: 1, offset: 50544},
 			expr: &actionExpr{
-				pos: position{line: 1565, col: 5, offset: 50583},
+				pos: position{line: 1565, col: 5, offset: 50615},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1565, col: 5, offset: 50583},
+					pos: position{line: 1565, col: 5, offset: 50615},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2913, col: 11, offset: 91911},
+							pos: position{line: 2922, col: 11, offset: 92169},
 							expr: &anyMatcher{
-								line: 2913, col: 13, offset: 91913,
+								line: 2922, col: 13, offset: 92171,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1566, col: 5, offset: 50611},
+							pos: position{line: 1566, col: 5, offset: 50643},
 							expr: &choiceExpr{
-								pos: position{line: 1503, col: 5, offset: 48569},
+								pos: position{line: 1503, col: 5, offset: 48601},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1596, col: 5, offset: 51503},
+										pos: position{line: 1596, col: 5, offset: 51535},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1596, col: 5, offset: 51503},
+											pos: position{line: 1596, col: 5, offset: 51535},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1596, col: 5, offset: 51503},
+													pos:   position{line: 1596, col: 5, offset: 51535},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1603, col: 5, offset: 51711},
+														pos: position{line: 1603, col: 5, offset: 51743},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1603, col: 5, offset: 51711},
+															pos: position{line: 1603, col: 5, offset: 51743},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1603, col: 5, offset: 51711},
+																	pos: position{line: 1603, col: 5, offset: 51743},
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 10, offset: 91577},
+																		pos: position{line: 2905, col: 10, offset: 91835},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 10, offset: 91577},
+																			pos:        position{line: 2905, col: 10, offset: 91835},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30147,27 +30147,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1603, col: 12, offset: 51718},
+																	pos:   position{line: 1603, col: 12, offset: 51750},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1605, col: 9, offset: 51781},
+																		pos: position{line: 1605, col: 9, offset: 51813},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1605, col: 9, offset: 51781},
+																				pos: position{line: 1605, col: 9, offset: 51813},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1605, col: 9, offset: 51781},
+																					pos: position{line: 1605, col: 9, offset: 51813},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1605, col: 9, offset: 51781},
+																							pos:   position{line: 1605, col: 9, offset: 51813},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1605, col: 16, offset: 51788},
+																								pos: position{line: 1605, col: 16, offset: 51820},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1605, col: 16, offset: 51788},
+																									pos: position{line: 1605, col: 16, offset: 51820},
 																									expr: &litMatcher{
-																										pos:        position{line: 1605, col: 17, offset: 51789},
+																										pos:        position{line: 1605, col: 17, offset: 51821},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -30176,22 +30176,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1609, col: 9, offset: 51889},
+																							pos: position{line: 1609, col: 9, offset: 51921},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1628, col: 11, offset: 52606},
+																				pos: position{line: 1628, col: 11, offset: 52638},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1628, col: 11, offset: 52606},
+																					pos: position{line: 1628, col: 11, offset: 52638},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1628, col: 11, offset: 52606},
+																							pos: position{line: 1628, col: 11, offset: 52638},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1628, col: 12, offset: 52607},
+																								pos:        position{line: 1628, col: 12, offset: 52639},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -30199,7 +30199,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1628, col: 20, offset: 52615},
+																							pos:        position{line: 1628, col: 20, offset: 52647},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30208,20 +30208,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1630, col: 13, offset: 52732},
+																				pos: position{line: 1630, col: 13, offset: 52764},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1630, col: 13, offset: 52732},
+																					pos: position{line: 1630, col: 13, offset: 52764},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1630, col: 14, offset: 52733},
+																							pos:        position{line: 1630, col: 14, offset: 52765},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1630, col: 21, offset: 52740},
+																							pos:        position{line: 1630, col: 21, offset: 52772},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30230,20 +30230,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1632, col: 13, offset: 52860},
+																				pos: position{line: 1632, col: 13, offset: 52892},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1632, col: 13, offset: 52860},
+																					pos: position{line: 1632, col: 13, offset: 52892},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1632, col: 14, offset: 52861},
+																							pos:        position{line: 1632, col: 14, offset: 52893},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1632, col: 21, offset: 52868},
+																							pos:        position{line: 1632, col: 21, offset: 52900},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30252,15 +30252,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1634, col: 13, offset: 52988},
+																				pos: position{line: 1634, col: 13, offset: 53020},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1634, col: 13, offset: 52988},
+																					pos: position{line: 1634, col: 13, offset: 53020},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1634, col: 13, offset: 52988},
+																							pos: position{line: 1634, col: 13, offset: 53020},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1634, col: 14, offset: 52989},
+																								pos:        position{line: 1634, col: 14, offset: 53021},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -30268,7 +30268,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1634, col: 26, offset: 53001},
+																							pos:        position{line: 1634, col: 26, offset: 53033},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30277,15 +30277,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1636, col: 13, offset: 53121},
+																				pos: position{line: 1636, col: 13, offset: 53153},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1636, col: 13, offset: 53121},
+																					pos: position{line: 1636, col: 13, offset: 53153},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1636, col: 13, offset: 53121},
+																							pos: position{line: 1636, col: 13, offset: 53153},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1636, col: 14, offset: 53122},
+																								pos:        position{line: 1636, col: 14, offset: 53154},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -30293,7 +30293,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1636, col: 26, offset: 53134},
+																							pos:        position{line: 1636, col: 26, offset: 53166},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30305,12 +30305,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2900, col: 11, offset: 91638},
+																	pos: position{line: 2909, col: 11, offset: 91896},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2900, col: 11, offset: 91638},
+																		pos: position{line: 2909, col: 11, offset: 91896},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 11, offset: 91638},
+																			pos:        position{line: 2909, col: 11, offset: 91896},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30323,26 +30323,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1597, col: 5, offset: 51542},
+													pos:   position{line: 1597, col: 5, offset: 51574},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1544, col: 5, offset: 50009},
+														pos: position{line: 1544, col: 5, offset: 50041},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1544, col: 5, offset: 50009},
+															pos: position{line: 1544, col: 5, offset: 50041},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1544, col: 5, offset: 50009},
+																	pos:   position{line: 1544, col: 5, offset: 50041},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1544, col: 14, offset: 50018},
+																		pos: position{line: 1544, col: 14, offset: 50050},
 																		expr: &actionExpr{
-																			pos: position{line: 1544, col: 15, offset: 50019},
+																			pos: position{line: 1544, col: 15, offset: 50051},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1544, col: 15, offset: 50019},
+																				pos: position{line: 1544, col: 15, offset: 50051},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1544, col: 15, offset: 50019},
+																					pos:        position{line: 1544, col: 15, offset: 50051},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30353,28 +30353,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30383,9 +30383,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -30398,27 +30398,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1646, col: 5, offset: 53400},
+										pos: position{line: 1646, col: 5, offset: 53432},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1646, col: 5, offset: 53400},
+											pos: position{line: 1646, col: 5, offset: 53432},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1646, col: 5, offset: 53400},
+													pos:   position{line: 1646, col: 5, offset: 53432},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1653, col: 5, offset: 53673},
+														pos: position{line: 1653, col: 5, offset: 53705},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1653, col: 5, offset: 53673},
+															pos: position{line: 1653, col: 5, offset: 53705},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1653, col: 5, offset: 53673},
+																	pos: position{line: 1653, col: 5, offset: 53705},
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 10, offset: 91577},
+																		pos: position{line: 2905, col: 10, offset: 91835},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 10, offset: 91577},
+																			pos:        position{line: 2905, col: 10, offset: 91835},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30427,24 +30427,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1654, col: 5, offset: 53685},
+																	pos:   position{line: 1654, col: 5, offset: 53717},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1655, col: 9, offset: 53701},
+																		pos: position{line: 1655, col: 9, offset: 53733},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1655, col: 10, offset: 53702},
+																			pos: position{line: 1655, col: 10, offset: 53734},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1655, col: 11, offset: 53703},
+																					pos:        position{line: 1655, col: 11, offset: 53735},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1655, col: 18, offset: 53710},
+																					pos: position{line: 1655, col: 18, offset: 53742},
 																					expr: &litMatcher{
-																						pos:        position{line: 1655, col: 19, offset: 53711},
+																						pos:        position{line: 1655, col: 19, offset: 53743},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -30455,16 +30455,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1658, col: 7, offset: 53801},
+																	pos: position{line: 1658, col: 7, offset: 53833},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2900, col: 11, offset: 91638},
+																	pos: position{line: 2909, col: 11, offset: 91896},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2900, col: 11, offset: 91638},
+																		pos: position{line: 2909, col: 11, offset: 91896},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 11, offset: 91638},
+																			pos:        position{line: 2909, col: 11, offset: 91896},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30477,56 +30477,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1647, col: 5, offset: 53441},
+													pos:   position{line: 1647, col: 5, offset: 53473},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1647, col: 16, offset: 53452},
+														pos: position{line: 1647, col: 16, offset: 53484},
 														expr: &actionExpr{
-															pos: position{line: 1668, col: 5, offset: 54066},
+															pos: position{line: 1668, col: 5, offset: 54098},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1668, col: 5, offset: 54066},
+																pos: position{line: 1668, col: 5, offset: 54098},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1668, col: 5, offset: 54066},
+																		pos: position{line: 1668, col: 5, offset: 54098},
 																		expr: &litMatcher{
-																			pos:        position{line: 1668, col: 6, offset: 54067},
+																			pos:        position{line: 1668, col: 6, offset: 54099},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1668, col: 10, offset: 54071},
+																		pos:   position{line: 1668, col: 10, offset: 54103},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1669, col: 7, offset: 54085},
+																			pos: position{line: 1669, col: 7, offset: 54117},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1669, col: 7, offset: 54085},
+																					pos: position{line: 1669, col: 7, offset: 54117},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1669, col: 7, offset: 54085},
+																						pos:        position{line: 1669, col: 7, offset: 54117},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1670, col: 7, offset: 54130},
+																					pos: position{line: 1670, col: 7, offset: 54162},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1670, col: 7, offset: 54130},
+																						pos:        position{line: 1670, col: 7, offset: 54162},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1671, col: 7, offset: 54173},
+																					pos: position{line: 1671, col: 7, offset: 54205},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1671, col: 7, offset: 54173},
+																						pos:        position{line: 1671, col: 7, offset: 54205},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -30536,12 +30536,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2900, col: 11, offset: 91638},
+																		pos: position{line: 2909, col: 11, offset: 91896},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2900, col: 11, offset: 91638},
+																			pos: position{line: 2909, col: 11, offset: 91896},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2900, col: 11, offset: 91638},
+																				pos:        position{line: 2909, col: 11, offset: 91896},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30555,26 +30555,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1648, col: 5, offset: 53491},
+													pos:   position{line: 1648, col: 5, offset: 53523},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1544, col: 5, offset: 50009},
+														pos: position{line: 1544, col: 5, offset: 50041},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1544, col: 5, offset: 50009},
+															pos: position{line: 1544, col: 5, offset: 50041},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1544, col: 5, offset: 50009},
+																	pos:   position{line: 1544, col: 5, offset: 50041},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1544, col: 14, offset: 50018},
+																		pos: position{line: 1544, col: 14, offset: 50050},
 																		expr: &actionExpr{
-																			pos: position{line: 1544, col: 15, offset: 50019},
+																			pos: position{line: 1544, col: 15, offset: 50051},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1544, col: 15, offset: 50019},
+																				pos: position{line: 1544, col: 15, offset: 50051},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1544, col: 15, offset: 50019},
+																					pos:        position{line: 1544, col: 15, offset: 50051},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30585,28 +30585,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30615,9 +30615,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -30630,36 +30630,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1737, col: 5, offset: 56045},
+										pos: position{line: 1737, col: 5, offset: 56077},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1737, col: 5, offset: 56045},
+											pos: position{line: 1737, col: 5, offset: 56077},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1737, col: 5, offset: 56045},
+													pos:   position{line: 1737, col: 5, offset: 56077},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1743, col: 5, offset: 56242},
+														pos: position{line: 1743, col: 5, offset: 56274},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1743, col: 5, offset: 56242},
+															pos: position{line: 1743, col: 5, offset: 56274},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1743, col: 5, offset: 56242},
+																	pos:        position{line: 1743, col: 5, offset: 56274},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1743, col: 9, offset: 56246},
+																	pos:   position{line: 1743, col: 9, offset: 56278},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1743, col: 14, offset: 56251},
+																		pos: position{line: 1743, col: 14, offset: 56283},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1743, col: 14, offset: 56251},
+																			pos: position{line: 1743, col: 14, offset: 56283},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1743, col: 14, offset: 56251},
+																				pos:        position{line: 1743, col: 14, offset: 56283},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30669,18 +30669,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1743, col: 62, offset: 56299},
+																	pos:        position{line: 1743, col: 62, offset: 56331},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2900, col: 11, offset: 91638},
+																	pos: position{line: 2909, col: 11, offset: 91896},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2900, col: 11, offset: 91638},
+																		pos: position{line: 2909, col: 11, offset: 91896},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 11, offset: 91638},
+																			pos:        position{line: 2909, col: 11, offset: 91896},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30693,26 +30693,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1738, col: 5, offset: 56081},
+													pos:   position{line: 1738, col: 5, offset: 56113},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1544, col: 5, offset: 50009},
+														pos: position{line: 1544, col: 5, offset: 50041},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1544, col: 5, offset: 50009},
+															pos: position{line: 1544, col: 5, offset: 50041},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1544, col: 5, offset: 50009},
+																	pos:   position{line: 1544, col: 5, offset: 50041},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1544, col: 14, offset: 50018},
+																		pos: position{line: 1544, col: 14, offset: 50050},
 																		expr: &actionExpr{
-																			pos: position{line: 1544, col: 15, offset: 50019},
+																			pos: position{line: 1544, col: 15, offset: 50051},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1544, col: 15, offset: 50019},
+																				pos: position{line: 1544, col: 15, offset: 50051},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1544, col: 15, offset: 50019},
+																					pos:        position{line: 1544, col: 15, offset: 50051},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30723,28 +30723,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30753,9 +30753,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -30768,35 +30768,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1680, col: 5, offset: 54366},
+										pos: position{line: 1680, col: 5, offset: 54398},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1680, col: 5, offset: 54366},
+											pos: position{line: 1680, col: 5, offset: 54398},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1680, col: 5, offset: 54366},
+													pos:   position{line: 1680, col: 5, offset: 54398},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1688, col: 5, offset: 54692},
+														pos: position{line: 1688, col: 5, offset: 54724},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1688, col: 5, offset: 54692},
+															pos: position{line: 1688, col: 5, offset: 54724},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1688, col: 5, offset: 54692},
+																	pos: position{line: 1688, col: 5, offset: 54724},
 																	expr: &seqExpr{
-																		pos: position{line: 2502, col: 31, offset: 80558},
+																		pos: position{line: 2502, col: 31, offset: 80590},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2502, col: 31, offset: 80558},
+																				pos:        position{line: 2502, col: 31, offset: 80590},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2502, col: 36, offset: 80563},
+																				pos: position{line: 2502, col: 36, offset: 80595},
 																				expr: &litMatcher{
-																					pos:        position{line: 2502, col: 37, offset: 80564},
+																					pos:        position{line: 2502, col: 37, offset: 80596},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -30806,28 +30806,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1689, col: 5, offset: 54724},
+																	pos: position{line: 1689, col: 5, offset: 54756},
 																	expr: &seqExpr{
-																		pos: position{line: 1689, col: 6, offset: 54725},
+																		pos: position{line: 1689, col: 6, offset: 54757},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1689, col: 6, offset: 54725},
+																				pos: position{line: 1689, col: 6, offset: 54757},
 																				expr: &actionExpr{
-																					pos: position{line: 1694, col: 5, offset: 54875},
+																					pos: position{line: 1694, col: 5, offset: 54907},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1694, col: 5, offset: 54875},
+																						pos: position{line: 1694, col: 5, offset: 54907},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1694, col: 5, offset: 54875},
+																								pos:   position{line: 1694, col: 5, offset: 54907},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1694, col: 16, offset: 54886},
+																									pos: position{line: 1694, col: 16, offset: 54918},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1694, col: 16, offset: 54886},
+																										pos: position{line: 1694, col: 16, offset: 54918},
 																										expr: &litMatcher{
-																											pos:        position{line: 1694, col: 17, offset: 54887},
+																											pos:        position{line: 1694, col: 17, offset: 54919},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -30836,7 +30836,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1697, col: 5, offset: 54944},
+																								pos: position{line: 1697, col: 5, offset: 54976},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -30844,30 +30844,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1689, col: 35, offset: 54754},
+																				pos: position{line: 1689, col: 35, offset: 54786},
 																				expr: &choiceExpr{
-																					pos: position{line: 2918, col: 8, offset: 91975},
+																					pos: position{line: 2927, col: 8, offset: 92233},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2905, col: 12, offset: 91748},
+																							pos: position{line: 2914, col: 12, offset: 92006},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2905, col: 13, offset: 91749},
+																								pos: position{line: 2914, col: 13, offset: 92007},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 13, offset: 91749},
+																										pos:        position{line: 2914, col: 13, offset: 92007},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 20, offset: 91756},
+																										pos:        position{line: 2914, col: 20, offset: 92014},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 29, offset: 91765},
+																										pos:        position{line: 2914, col: 29, offset: 92023},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30876,16 +30876,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2915, col: 8, offset: 91925},
+																							pos: position{line: 2924, col: 8, offset: 92183},
 																							expr: &anyMatcher{
-																								line: 2915, col: 9, offset: 91926,
+																								line: 2924, col: 9, offset: 92184,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1689, col: 40, offset: 54759,
+																				line: 1689, col: 40, offset: 54791,
 																			},
 																		},
 																	},
@@ -30895,24 +30895,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1681, col: 5, offset: 54401},
+													pos:   position{line: 1681, col: 5, offset: 54433},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1694, col: 5, offset: 54875},
+														pos: position{line: 1694, col: 5, offset: 54907},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1694, col: 5, offset: 54875},
+															pos: position{line: 1694, col: 5, offset: 54907},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1694, col: 5, offset: 54875},
+																	pos:   position{line: 1694, col: 5, offset: 54907},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1694, col: 16, offset: 54886},
+																		pos: position{line: 1694, col: 16, offset: 54918},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1694, col: 16, offset: 54886},
+																			pos: position{line: 1694, col: 16, offset: 54918},
 																			expr: &litMatcher{
-																				pos:        position{line: 1694, col: 17, offset: 54887},
+																				pos:        position{line: 1694, col: 17, offset: 54919},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30921,7 +30921,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1697, col: 5, offset: 54944},
+																	pos: position{line: 1697, col: 5, offset: 54976},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -30929,24 +30929,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1682, col: 5, offset: 54446},
+													pos:   position{line: 1682, col: 5, offset: 54478},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1705, col: 5, offset: 55193},
+														pos: position{line: 1705, col: 5, offset: 55225},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1707, col: 9, offset: 55259},
+																pos: position{line: 1707, col: 9, offset: 55291},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1707, col: 9, offset: 55259},
+																	pos: position{line: 1707, col: 9, offset: 55291},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1707, col: 9, offset: 55259},
+																			pos: position{line: 1707, col: 9, offset: 55291},
 																			expr: &actionExpr{
-																				pos: position{line: 2896, col: 10, offset: 91577},
+																				pos: position{line: 2905, col: 10, offset: 91835},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2896, col: 10, offset: 91577},
+																					pos:        position{line: 2905, col: 10, offset: 91835},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30955,28 +30955,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2918, col: 8, offset: 91975},
+																			pos: position{line: 2927, col: 8, offset: 92233},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2905, col: 12, offset: 91748},
+																					pos: position{line: 2914, col: 12, offset: 92006},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2905, col: 13, offset: 91749},
+																						pos: position{line: 2914, col: 13, offset: 92007},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 13, offset: 91749},
+																								pos:        position{line: 2914, col: 13, offset: 92007},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 20, offset: 91756},
+																								pos:        position{line: 2914, col: 20, offset: 92014},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 29, offset: 91765},
+																								pos:        position{line: 2914, col: 29, offset: 92023},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30985,34 +30985,34 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1708, col: 9, offset: 55278},
+																			pos: position{line: 1708, col: 9, offset: 55310},
 																			expr: &actionExpr{
-																				pos: position{line: 687, col: 14, offset: 21835},
+																				pos: position{line: 687, col: 14, offset: 21867},
 																				run: (*parser).callonListContinuationElement201,
 																				expr: &seqExpr{
-																					pos: position{line: 687, col: 14, offset: 21835},
+																					pos: position{line: 687, col: 14, offset: 21867},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2913, col: 11, offset: 91911},
+																							pos: position{line: 2922, col: 11, offset: 92169},
 																							expr: &anyMatcher{
-																								line: 2913, col: 13, offset: 91913,
+																								line: 2922, col: 13, offset: 92171,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 687, col: 21, offset: 21842},
+																							pos: position{line: 687, col: 21, offset: 21874},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31021,28 +31021,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31051,9 +31051,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -31066,18 +31066,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1714, col: 9, offset: 55407},
+																pos: position{line: 1714, col: 9, offset: 55439},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1714, col: 9, offset: 55407},
+																	pos: position{line: 1714, col: 9, offset: 55439},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2900, col: 11, offset: 91638},
+																			pos: position{line: 2909, col: 11, offset: 91896},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2900, col: 11, offset: 91638},
+																				pos: position{line: 2909, col: 11, offset: 91896},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2900, col: 11, offset: 91638},
+																					pos:        position{line: 2909, col: 11, offset: 91896},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31086,15 +31086,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1715, col: 9, offset: 55480},
+																			pos:   position{line: 1715, col: 9, offset: 55512},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1715, col: 18, offset: 55489},
+																				pos: position{line: 1715, col: 18, offset: 55521},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1715, col: 18, offset: 55489},
+																					pos: position{line: 1715, col: 18, offset: 55521},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1715, col: 18, offset: 55489},
+																						pos:        position{line: 1715, col: 18, offset: 55521},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -31104,28 +31104,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2918, col: 8, offset: 91975},
+																			pos: position{line: 2927, col: 8, offset: 92233},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2905, col: 12, offset: 91748},
+																					pos: position{line: 2914, col: 12, offset: 92006},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2905, col: 13, offset: 91749},
+																						pos: position{line: 2914, col: 13, offset: 92007},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 13, offset: 91749},
+																								pos:        position{line: 2914, col: 13, offset: 92007},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 20, offset: 91756},
+																								pos:        position{line: 2914, col: 20, offset: 92014},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 29, offset: 91765},
+																								pos:        position{line: 2914, col: 29, offset: 92023},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31134,9 +31134,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
@@ -31154,41 +31154,41 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1567, col: 5, offset: 50628},
+							pos:   position{line: 1567, col: 5, offset: 50660},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1567, col: 16, offset: 50639},
+								pos: position{line: 1567, col: 16, offset: 50671},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1567, col: 17, offset: 50640},
+									pos:  position{line: 1567, col: 17, offset: 50672},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1568, col: 5, offset: 50662},
+							pos:   position{line: 1568, col: 5, offset: 50694},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1569, col: 9, offset: 50680},
+								pos: position{line: 1569, col: 9, offset: 50712},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 687, col: 14, offset: 21835},
+										pos: position{line: 687, col: 14, offset: 21867},
 										run: (*parser).callonListContinuationElement238,
 										expr: &seqExpr{
-											pos: position{line: 687, col: 14, offset: 21835},
+											pos: position{line: 687, col: 14, offset: 21867},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2913, col: 11, offset: 91911},
+													pos: position{line: 2922, col: 11, offset: 92169},
 													expr: &anyMatcher{
-														line: 2913, col: 13, offset: 91913,
+														line: 2922, col: 13, offset: 92171,
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 687, col: 21, offset: 21842},
+													pos: position{line: 687, col: 21, offset: 21874},
 													expr: &actionExpr{
-														pos: position{line: 2896, col: 10, offset: 91577},
+														pos: position{line: 2905, col: 10, offset: 91835},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2896, col: 10, offset: 91577},
+															pos:        position{line: 2905, col: 10, offset: 91835},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31197,28 +31197,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2918, col: 8, offset: 91975},
+													pos: position{line: 2927, col: 8, offset: 92233},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2905, col: 12, offset: 91748},
+															pos: position{line: 2914, col: 12, offset: 92006},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2905, col: 13, offset: 91749},
+																pos: position{line: 2914, col: 13, offset: 92007},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 13, offset: 91749},
+																		pos:        position{line: 2914, col: 13, offset: 92007},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 20, offset: 91756},
+																		pos:        position{line: 2914, col: 20, offset: 92014},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 29, offset: 91765},
+																		pos:        position{line: 2914, col: 29, offset: 92023},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31227,9 +31227,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2915, col: 8, offset: 91925},
+															pos: position{line: 2924, col: 8, offset: 92183},
 															expr: &anyMatcher{
-																line: 2915, col: 9, offset: 91926,
+																line: 2924, col: 9, offset: 92184,
 															},
 														},
 													},
@@ -31238,7 +31238,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1570, col: 11, offset: 50700},
+										pos:  position{line: 1570, col: 11, offset: 50732},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -31294,10 +31294,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 367, col: 49, offset: 11183},
 													expr: &actionExpr{
-														pos: position{line: 2896, col: 10, offset: 91577},
+														pos: position{line: 2905, col: 10, offset: 91835},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2896, col: 10, offset: 91577},
+															pos:        position{line: 2905, col: 10, offset: 91835},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31306,28 +31306,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2918, col: 8, offset: 91975},
+													pos: position{line: 2927, col: 8, offset: 92233},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2905, col: 12, offset: 91748},
+															pos: position{line: 2914, col: 12, offset: 92006},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2905, col: 13, offset: 91749},
+																pos: position{line: 2914, col: 13, offset: 92007},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 13, offset: 91749},
+																		pos:        position{line: 2914, col: 13, offset: 92007},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 20, offset: 91756},
+																		pos:        position{line: 2914, col: 20, offset: 92014},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 29, offset: 91765},
+																		pos:        position{line: 2914, col: 29, offset: 92023},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31336,9 +31336,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2915, col: 8, offset: 91925},
+															pos: position{line: 2924, col: 8, offset: 92183},
 															expr: &anyMatcher{
-																line: 2915, col: 9, offset: 91926,
+																line: 2924, col: 9, offset: 92184,
 															},
 														},
 													},
@@ -31399,10 +31399,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 369, col: 39, offset: 11304},
 													expr: &actionExpr{
-														pos: position{line: 2896, col: 10, offset: 91577},
+														pos: position{line: 2905, col: 10, offset: 91835},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2896, col: 10, offset: 91577},
+															pos:        position{line: 2905, col: 10, offset: 91835},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31411,28 +31411,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2918, col: 8, offset: 91975},
+													pos: position{line: 2927, col: 8, offset: 92233},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2905, col: 12, offset: 91748},
+															pos: position{line: 2914, col: 12, offset: 92006},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2905, col: 13, offset: 91749},
+																pos: position{line: 2914, col: 13, offset: 92007},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 13, offset: 91749},
+																		pos:        position{line: 2914, col: 13, offset: 92007},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 20, offset: 91756},
+																		pos:        position{line: 2914, col: 20, offset: 92014},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 29, offset: 91765},
+																		pos:        position{line: 2914, col: 29, offset: 92023},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31441,9 +31441,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2915, col: 8, offset: 91925},
+															pos: position{line: 2924, col: 8, offset: 92183},
 															expr: &anyMatcher{
-																line: 2915, col: 9, offset: 91926,
+																line: 2924, col: 9, offset: 92184,
 															},
 														},
 													},
@@ -31452,39 +31452,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 834, col: 5, offset: 26778},
+										pos: position{line: 834, col: 5, offset: 26810},
 										run: (*parser).callonListContinuationElement296,
 										expr: &seqExpr{
-											pos: position{line: 834, col: 5, offset: 26778},
+											pos: position{line: 834, col: 5, offset: 26810},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 834, col: 5, offset: 26778},
+													pos:   position{line: 834, col: 5, offset: 26810},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 754, col: 5, offset: 24038},
+														pos: position{line: 754, col: 5, offset: 24070},
 														run: (*parser).callonListContinuationElement299,
 														expr: &seqExpr{
-															pos: position{line: 754, col: 5, offset: 24038},
+															pos: position{line: 754, col: 5, offset: 24070},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 754, col: 5, offset: 24038},
+																	pos:   position{line: 754, col: 5, offset: 24070},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 754, col: 16, offset: 24049},
+																		pos: position{line: 754, col: 16, offset: 24081},
 																		run: (*parser).callonListContinuationElement302,
 																		expr: &seqExpr{
-																			pos: position{line: 754, col: 16, offset: 24049},
+																			pos: position{line: 754, col: 16, offset: 24081},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 754, col: 16, offset: 24049},
+																					pos:        position{line: 754, col: 16, offset: 24081},
 																					val:        "////",
 																					ignoreCase: false,
 																					want:       "\"////\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 754, col: 23, offset: 24056},
+																					pos: position{line: 754, col: 23, offset: 24088},
 																					expr: &litMatcher{
-																						pos:        position{line: 754, col: 23, offset: 24056},
+																						pos:        position{line: 754, col: 23, offset: 24088},
 																						val:        "/",
 																						ignoreCase: false,
 																						want:       "\"/\"",
@@ -31495,12 +31495,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 756, col: 8, offset: 24140},
+																	pos: position{line: 756, col: 8, offset: 24172},
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 10, offset: 91577},
+																		pos: position{line: 2905, col: 10, offset: 91835},
 																		run: (*parser).callonListContinuationElement308,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 10, offset: 91577},
+																			pos:        position{line: 2905, col: 10, offset: 91835},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31509,28 +31509,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonListContinuationElement311,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31539,9 +31539,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -31551,56 +31551,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 835, col: 5, offset: 26817},
+													pos: position{line: 835, col: 5, offset: 26849},
 													run: (*parser).callonListContinuationElement318,
 												},
 												&labeledExpr{
-													pos:   position{line: 838, col: 5, offset: 26909},
+													pos:   position{line: 838, col: 5, offset: 26941},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 853, col: 5, offset: 27307},
+														pos: position{line: 853, col: 5, offset: 27339},
 														expr: &actionExpr{
-															pos: position{line: 853, col: 6, offset: 27308},
+															pos: position{line: 853, col: 6, offset: 27340},
 															run: (*parser).callonListContinuationElement321,
 															expr: &seqExpr{
-																pos: position{line: 853, col: 6, offset: 27308},
+																pos: position{line: 853, col: 6, offset: 27340},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 853, col: 6, offset: 27308},
+																		pos: position{line: 853, col: 6, offset: 27340},
 																		expr: &choiceExpr{
-																			pos: position{line: 846, col: 5, offset: 27149},
+																			pos: position{line: 846, col: 5, offset: 27181},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 846, col: 5, offset: 27149},
+																					pos: position{line: 846, col: 5, offset: 27181},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 846, col: 5, offset: 27149},
+																							pos:   position{line: 846, col: 5, offset: 27181},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 5, offset: 24038},
+																								pos: position{line: 754, col: 5, offset: 24070},
 																								run: (*parser).callonListContinuationElement327,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 5, offset: 24038},
+																									pos: position{line: 754, col: 5, offset: 24070},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 754, col: 5, offset: 24038},
+																											pos:   position{line: 754, col: 5, offset: 24070},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 754, col: 16, offset: 24049},
+																												pos: position{line: 754, col: 16, offset: 24081},
 																												run: (*parser).callonListContinuationElement330,
 																												expr: &seqExpr{
-																													pos: position{line: 754, col: 16, offset: 24049},
+																													pos: position{line: 754, col: 16, offset: 24081},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 754, col: 16, offset: 24049},
+																															pos:        position{line: 754, col: 16, offset: 24081},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 754, col: 23, offset: 24056},
+																															pos: position{line: 754, col: 23, offset: 24088},
 																															expr: &litMatcher{
-																																pos:        position{line: 754, col: 23, offset: 24056},
+																																pos:        position{line: 754, col: 23, offset: 24088},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -31611,12 +31611,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 8, offset: 24140},
+																											pos: position{line: 756, col: 8, offset: 24172},
 																											expr: &actionExpr{
-																												pos: position{line: 2896, col: 10, offset: 91577},
+																												pos: position{line: 2905, col: 10, offset: 91835},
 																												run: (*parser).callonListContinuationElement336,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2896, col: 10, offset: 91577},
+																													pos:        position{line: 2905, col: 10, offset: 91835},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31625,28 +31625,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2918, col: 8, offset: 91975},
+																											pos: position{line: 2927, col: 8, offset: 92233},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2905, col: 12, offset: 91748},
+																													pos: position{line: 2914, col: 12, offset: 92006},
 																													run: (*parser).callonListContinuationElement339,
 																													expr: &choiceExpr{
-																														pos: position{line: 2905, col: 13, offset: 91749},
+																														pos: position{line: 2914, col: 13, offset: 92007},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 13, offset: 91749},
+																																pos:        position{line: 2914, col: 13, offset: 92007},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 20, offset: 91756},
+																																pos:        position{line: 2914, col: 20, offset: 92014},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 29, offset: 91765},
+																																pos:        position{line: 2914, col: 29, offset: 92023},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31655,9 +31655,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2915, col: 8, offset: 91925},
+																													pos: position{line: 2924, col: 8, offset: 92183},
 																													expr: &anyMatcher{
-																														line: 2915, col: 9, offset: 91926,
+																														line: 2924, col: 9, offset: 92184,
 																													},
 																												},
 																											},
@@ -31667,45 +31667,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 847, col: 5, offset: 27180},
+																							pos: position{line: 847, col: 5, offset: 27212},
 																							run: (*parser).callonListContinuationElement346,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 854, col: 5, offset: 27338},
+																		pos:   position{line: 854, col: 5, offset: 27370},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 825, col: 5, offset: 26542},
+																			pos: position{line: 825, col: 5, offset: 26574},
 																			run: (*parser).callonListContinuationElement350,
 																			expr: &seqExpr{
-																				pos: position{line: 825, col: 5, offset: 26542},
+																				pos: position{line: 825, col: 5, offset: 26574},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2913, col: 11, offset: 91911},
+																						pos: position{line: 2922, col: 11, offset: 92169},
 																						expr: &anyMatcher{
-																							line: 2913, col: 13, offset: 91913,
+																							line: 2922, col: 13, offset: 92171,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 826, col: 5, offset: 26617},
+																						pos:   position{line: 826, col: 5, offset: 26649},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2842, col: 13, offset: 90103},
+																							pos: position{line: 2851, col: 13, offset: 90361},
 																							run: (*parser).callonListContinuationElement355,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2842, col: 13, offset: 90103},
+																									pos:        position{line: 2851, col: 13, offset: 90361},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31715,28 +31715,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2918, col: 8, offset: 91975},
+																						pos: position{line: 2927, col: 8, offset: 92233},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2905, col: 12, offset: 91748},
+																								pos: position{line: 2914, col: 12, offset: 92006},
 																								run: (*parser).callonListContinuationElement359,
 																								expr: &choiceExpr{
-																									pos: position{line: 2905, col: 13, offset: 91749},
+																									pos: position{line: 2914, col: 13, offset: 92007},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 13, offset: 91749},
+																											pos:        position{line: 2914, col: 13, offset: 92007},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 20, offset: 91756},
+																											pos:        position{line: 2914, col: 20, offset: 92014},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 29, offset: 91765},
+																											pos:        position{line: 2914, col: 29, offset: 92023},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31745,9 +31745,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2915, col: 8, offset: 91925},
+																								pos: position{line: 2924, col: 8, offset: 92183},
 																								expr: &anyMatcher{
-																									line: 2915, col: 9, offset: 91926,
+																									line: 2924, col: 9, offset: 92184,
 																								},
 																							},
 																						},
@@ -31762,44 +31762,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 839, col: 5, offset: 26943},
+													pos:   position{line: 839, col: 5, offset: 26975},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 839, col: 9, offset: 26947},
+														pos: position{line: 839, col: 9, offset: 26979},
 														expr: &choiceExpr{
-															pos: position{line: 846, col: 5, offset: 27149},
+															pos: position{line: 846, col: 5, offset: 27181},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 846, col: 5, offset: 27149},
+																	pos: position{line: 846, col: 5, offset: 27181},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 846, col: 5, offset: 27149},
+																			pos:   position{line: 846, col: 5, offset: 27181},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 754, col: 5, offset: 24038},
+																				pos: position{line: 754, col: 5, offset: 24070},
 																				run: (*parser).callonListContinuationElement371,
 																				expr: &seqExpr{
-																					pos: position{line: 754, col: 5, offset: 24038},
+																					pos: position{line: 754, col: 5, offset: 24070},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 754, col: 5, offset: 24038},
+																							pos:   position{line: 754, col: 5, offset: 24070},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 754, col: 16, offset: 24049},
+																								pos: position{line: 754, col: 16, offset: 24081},
 																								run: (*parser).callonListContinuationElement374,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 16, offset: 24049},
+																									pos: position{line: 754, col: 16, offset: 24081},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 754, col: 16, offset: 24049},
+																											pos:        position{line: 754, col: 16, offset: 24081},
 																											val:        "////",
 																											ignoreCase: false,
 																											want:       "\"////\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 754, col: 23, offset: 24056},
+																											pos: position{line: 754, col: 23, offset: 24088},
 																											expr: &litMatcher{
-																												pos:        position{line: 754, col: 23, offset: 24056},
+																												pos:        position{line: 754, col: 23, offset: 24088},
 																												val:        "/",
 																												ignoreCase: false,
 																												want:       "\"/\"",
@@ -31810,12 +31810,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 756, col: 8, offset: 24140},
+																							pos: position{line: 756, col: 8, offset: 24172},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonListContinuationElement380,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31824,28 +31824,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonListContinuationElement383,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31854,9 +31854,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -31866,15 +31866,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 847, col: 5, offset: 27180},
+																			pos: position{line: 847, col: 5, offset: 27212},
 																			run: (*parser).callonListContinuationElement390,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2915, col: 8, offset: 91925},
+																	pos: position{line: 2924, col: 8, offset: 92183},
 																	expr: &anyMatcher{
-																		line: 2915, col: 9, offset: 91926,
+																		line: 2924, col: 9, offset: 92184,
 																	},
 																},
 															},
@@ -31885,39 +31885,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 862, col: 5, offset: 27491},
+										pos: position{line: 862, col: 5, offset: 27523},
 										run: (*parser).callonListContinuationElement393,
 										expr: &seqExpr{
-											pos: position{line: 862, col: 5, offset: 27491},
+											pos: position{line: 862, col: 5, offset: 27523},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 862, col: 5, offset: 27491},
+													pos:   position{line: 862, col: 5, offset: 27523},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 761, col: 5, offset: 24286},
+														pos: position{line: 761, col: 5, offset: 24318},
 														run: (*parser).callonListContinuationElement396,
 														expr: &seqExpr{
-															pos: position{line: 761, col: 5, offset: 24286},
+															pos: position{line: 761, col: 5, offset: 24318},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 761, col: 5, offset: 24286},
+																	pos:   position{line: 761, col: 5, offset: 24318},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 761, col: 16, offset: 24297},
+																		pos: position{line: 761, col: 16, offset: 24329},
 																		run: (*parser).callonListContinuationElement399,
 																		expr: &seqExpr{
-																			pos: position{line: 761, col: 16, offset: 24297},
+																			pos: position{line: 761, col: 16, offset: 24329},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 761, col: 16, offset: 24297},
+																					pos:        position{line: 761, col: 16, offset: 24329},
 																					val:        "====",
 																					ignoreCase: false,
 																					want:       "\"====\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 761, col: 23, offset: 24304},
+																					pos: position{line: 761, col: 23, offset: 24336},
 																					expr: &litMatcher{
-																						pos:        position{line: 761, col: 23, offset: 24304},
+																						pos:        position{line: 761, col: 23, offset: 24336},
 																						val:        "=",
 																						ignoreCase: false,
 																						want:       "\"=\"",
@@ -31928,12 +31928,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 763, col: 8, offset: 24388},
+																	pos: position{line: 763, col: 8, offset: 24420},
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 10, offset: 91577},
+																		pos: position{line: 2905, col: 10, offset: 91835},
 																		run: (*parser).callonListContinuationElement405,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 10, offset: 91577},
+																			pos:        position{line: 2905, col: 10, offset: 91835},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31942,28 +31942,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonListContinuationElement408,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31972,9 +31972,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -31984,56 +31984,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 863, col: 5, offset: 27530},
+													pos: position{line: 863, col: 5, offset: 27562},
 													run: (*parser).callonListContinuationElement415,
 												},
 												&labeledExpr{
-													pos:   position{line: 866, col: 5, offset: 27622},
+													pos:   position{line: 866, col: 5, offset: 27654},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 881, col: 4, offset: 28019},
+														pos: position{line: 881, col: 4, offset: 28051},
 														expr: &actionExpr{
-															pos: position{line: 881, col: 5, offset: 28020},
+															pos: position{line: 881, col: 5, offset: 28052},
 															run: (*parser).callonListContinuationElement418,
 															expr: &seqExpr{
-																pos: position{line: 881, col: 5, offset: 28020},
+																pos: position{line: 881, col: 5, offset: 28052},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 881, col: 5, offset: 28020},
+																		pos: position{line: 881, col: 5, offset: 28052},
 																		expr: &choiceExpr{
-																			pos: position{line: 874, col: 5, offset: 27862},
+																			pos: position{line: 874, col: 5, offset: 27894},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 874, col: 5, offset: 27862},
+																					pos: position{line: 874, col: 5, offset: 27894},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 874, col: 5, offset: 27862},
+																							pos:   position{line: 874, col: 5, offset: 27894},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 761, col: 5, offset: 24286},
+																								pos: position{line: 761, col: 5, offset: 24318},
 																								run: (*parser).callonListContinuationElement424,
 																								expr: &seqExpr{
-																									pos: position{line: 761, col: 5, offset: 24286},
+																									pos: position{line: 761, col: 5, offset: 24318},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 761, col: 5, offset: 24286},
+																											pos:   position{line: 761, col: 5, offset: 24318},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 761, col: 16, offset: 24297},
+																												pos: position{line: 761, col: 16, offset: 24329},
 																												run: (*parser).callonListContinuationElement427,
 																												expr: &seqExpr{
-																													pos: position{line: 761, col: 16, offset: 24297},
+																													pos: position{line: 761, col: 16, offset: 24329},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 761, col: 16, offset: 24297},
+																															pos:        position{line: 761, col: 16, offset: 24329},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 761, col: 23, offset: 24304},
+																															pos: position{line: 761, col: 23, offset: 24336},
 																															expr: &litMatcher{
-																																pos:        position{line: 761, col: 23, offset: 24304},
+																																pos:        position{line: 761, col: 23, offset: 24336},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -32044,12 +32044,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 763, col: 8, offset: 24388},
+																											pos: position{line: 763, col: 8, offset: 24420},
 																											expr: &actionExpr{
-																												pos: position{line: 2896, col: 10, offset: 91577},
+																												pos: position{line: 2905, col: 10, offset: 91835},
 																												run: (*parser).callonListContinuationElement433,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2896, col: 10, offset: 91577},
+																													pos:        position{line: 2905, col: 10, offset: 91835},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32058,28 +32058,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2918, col: 8, offset: 91975},
+																											pos: position{line: 2927, col: 8, offset: 92233},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2905, col: 12, offset: 91748},
+																													pos: position{line: 2914, col: 12, offset: 92006},
 																													run: (*parser).callonListContinuationElement436,
 																													expr: &choiceExpr{
-																														pos: position{line: 2905, col: 13, offset: 91749},
+																														pos: position{line: 2914, col: 13, offset: 92007},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 13, offset: 91749},
+																																pos:        position{line: 2914, col: 13, offset: 92007},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 20, offset: 91756},
+																																pos:        position{line: 2914, col: 20, offset: 92014},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 29, offset: 91765},
+																																pos:        position{line: 2914, col: 29, offset: 92023},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32088,9 +32088,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2915, col: 8, offset: 91925},
+																													pos: position{line: 2924, col: 8, offset: 92183},
 																													expr: &anyMatcher{
-																														line: 2915, col: 9, offset: 91926,
+																														line: 2924, col: 9, offset: 92184,
 																													},
 																												},
 																											},
@@ -32100,45 +32100,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 875, col: 5, offset: 27893},
+																							pos: position{line: 875, col: 5, offset: 27925},
 																							run: (*parser).callonListContinuationElement443,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 882, col: 5, offset: 28050},
+																		pos:   position{line: 882, col: 5, offset: 28082},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 825, col: 5, offset: 26542},
+																			pos: position{line: 825, col: 5, offset: 26574},
 																			run: (*parser).callonListContinuationElement447,
 																			expr: &seqExpr{
-																				pos: position{line: 825, col: 5, offset: 26542},
+																				pos: position{line: 825, col: 5, offset: 26574},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2913, col: 11, offset: 91911},
+																						pos: position{line: 2922, col: 11, offset: 92169},
 																						expr: &anyMatcher{
-																							line: 2913, col: 13, offset: 91913,
+																							line: 2922, col: 13, offset: 92171,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 826, col: 5, offset: 26617},
+																						pos:   position{line: 826, col: 5, offset: 26649},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2842, col: 13, offset: 90103},
+																							pos: position{line: 2851, col: 13, offset: 90361},
 																							run: (*parser).callonListContinuationElement452,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2842, col: 13, offset: 90103},
+																									pos:        position{line: 2851, col: 13, offset: 90361},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32148,28 +32148,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2918, col: 8, offset: 91975},
+																						pos: position{line: 2927, col: 8, offset: 92233},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2905, col: 12, offset: 91748},
+																								pos: position{line: 2914, col: 12, offset: 92006},
 																								run: (*parser).callonListContinuationElement456,
 																								expr: &choiceExpr{
-																									pos: position{line: 2905, col: 13, offset: 91749},
+																									pos: position{line: 2914, col: 13, offset: 92007},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 13, offset: 91749},
+																											pos:        position{line: 2914, col: 13, offset: 92007},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 20, offset: 91756},
+																											pos:        position{line: 2914, col: 20, offset: 92014},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 29, offset: 91765},
+																											pos:        position{line: 2914, col: 29, offset: 92023},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32178,9 +32178,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2915, col: 8, offset: 91925},
+																								pos: position{line: 2924, col: 8, offset: 92183},
 																								expr: &anyMatcher{
-																									line: 2915, col: 9, offset: 91926,
+																									line: 2924, col: 9, offset: 92184,
 																								},
 																							},
 																						},
@@ -32195,44 +32195,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 867, col: 5, offset: 27656},
+													pos:   position{line: 867, col: 5, offset: 27688},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 867, col: 9, offset: 27660},
+														pos: position{line: 867, col: 9, offset: 27692},
 														expr: &choiceExpr{
-															pos: position{line: 874, col: 5, offset: 27862},
+															pos: position{line: 874, col: 5, offset: 27894},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 874, col: 5, offset: 27862},
+																	pos: position{line: 874, col: 5, offset: 27894},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 874, col: 5, offset: 27862},
+																			pos:   position{line: 874, col: 5, offset: 27894},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 761, col: 5, offset: 24286},
+																				pos: position{line: 761, col: 5, offset: 24318},
 																				run: (*parser).callonListContinuationElement468,
 																				expr: &seqExpr{
-																					pos: position{line: 761, col: 5, offset: 24286},
+																					pos: position{line: 761, col: 5, offset: 24318},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 761, col: 5, offset: 24286},
+																							pos:   position{line: 761, col: 5, offset: 24318},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 761, col: 16, offset: 24297},
+																								pos: position{line: 761, col: 16, offset: 24329},
 																								run: (*parser).callonListContinuationElement471,
 																								expr: &seqExpr{
-																									pos: position{line: 761, col: 16, offset: 24297},
+																									pos: position{line: 761, col: 16, offset: 24329},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 761, col: 16, offset: 24297},
+																											pos:        position{line: 761, col: 16, offset: 24329},
 																											val:        "====",
 																											ignoreCase: false,
 																											want:       "\"====\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 761, col: 23, offset: 24304},
+																											pos: position{line: 761, col: 23, offset: 24336},
 																											expr: &litMatcher{
-																												pos:        position{line: 761, col: 23, offset: 24304},
+																												pos:        position{line: 761, col: 23, offset: 24336},
 																												val:        "=",
 																												ignoreCase: false,
 																												want:       "\"=\"",
@@ -32243,12 +32243,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 763, col: 8, offset: 24388},
+																							pos: position{line: 763, col: 8, offset: 24420},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonListContinuationElement477,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32257,28 +32257,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonListContinuationElement480,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32287,9 +32287,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -32299,15 +32299,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 875, col: 5, offset: 27893},
+																			pos: position{line: 875, col: 5, offset: 27925},
 																			run: (*parser).callonListContinuationElement487,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2915, col: 8, offset: 91925},
+																	pos: position{line: 2924, col: 8, offset: 92183},
 																	expr: &anyMatcher{
-																		line: 2915, col: 9, offset: 91926,
+																		line: 2924, col: 9, offset: 92184,
 																	},
 																},
 															},
@@ -32318,36 +32318,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 974, col: 5, offset: 30342},
+										pos: position{line: 974, col: 5, offset: 30374},
 										run: (*parser).callonListContinuationElement490,
 										expr: &seqExpr{
-											pos: position{line: 974, col: 5, offset: 30342},
+											pos: position{line: 974, col: 5, offset: 30374},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 974, col: 5, offset: 30342},
+													pos:   position{line: 974, col: 5, offset: 30374},
 													label: "delimiter",
 													expr: &actionExpr{
-														pos: position{line: 774, col: 26, offset: 24774},
+														pos: position{line: 774, col: 26, offset: 24806},
 														run: (*parser).callonListContinuationElement493,
 														expr: &seqExpr{
-															pos: position{line: 774, col: 26, offset: 24774},
+															pos: position{line: 774, col: 26, offset: 24806},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 774, col: 26, offset: 24774},
+																	pos:        position{line: 774, col: 26, offset: 24806},
 																	val:        "```",
 																	ignoreCase: false,
 																	want:       "\"```\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 774, col: 32, offset: 24780},
+																	pos:   position{line: 774, col: 32, offset: 24812},
 																	label: "language",
 																	expr: &actionExpr{
-																		pos: position{line: 778, col: 13, offset: 24910},
+																		pos: position{line: 778, col: 13, offset: 24942},
 																		run: (*parser).callonListContinuationElement497,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 778, col: 14, offset: 24911},
+																			pos: position{line: 778, col: 14, offset: 24943},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 778, col: 14, offset: 24911},
+																				pos:        position{line: 778, col: 14, offset: 24943},
 																				val:        "[^\\r\\n` ]",
 																				chars:      []rune{'\r', '\n', '`', ' '},
 																				ignoreCase: false,
@@ -32357,12 +32357,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 774, col: 52, offset: 24800},
+																	pos: position{line: 774, col: 52, offset: 24832},
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 10, offset: 91577},
+																		pos: position{line: 2905, col: 10, offset: 91835},
 																		run: (*parser).callonListContinuationElement501,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 10, offset: 91577},
+																			pos:        position{line: 2905, col: 10, offset: 91835},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32371,28 +32371,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonListContinuationElement504,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32401,9 +32401,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -32413,34 +32413,34 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 975, col: 5, offset: 30388},
+													pos:   position{line: 975, col: 5, offset: 30420},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 988, col: 5, offset: 30861},
+														pos: position{line: 988, col: 5, offset: 30893},
 														expr: &actionExpr{
-															pos: position{line: 988, col: 6, offset: 30862},
+															pos: position{line: 988, col: 6, offset: 30894},
 															run: (*parser).callonListContinuationElement513,
 															expr: &seqExpr{
-																pos: position{line: 988, col: 6, offset: 30862},
+																pos: position{line: 988, col: 6, offset: 30894},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 988, col: 6, offset: 30862},
+																		pos: position{line: 988, col: 6, offset: 30894},
 																		expr: &seqExpr{
-																			pos: position{line: 985, col: 34, offset: 30809},
+																			pos: position{line: 985, col: 34, offset: 30841},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 985, col: 34, offset: 30809},
+																					pos:        position{line: 985, col: 34, offset: 30841},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 985, col: 40, offset: 30815},
+																					pos: position{line: 985, col: 40, offset: 30847},
 																					expr: &actionExpr{
-																						pos: position{line: 2896, col: 10, offset: 91577},
+																						pos: position{line: 2905, col: 10, offset: 91835},
 																						run: (*parser).callonListContinuationElement519,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2896, col: 10, offset: 91577},
+																							pos:        position{line: 2905, col: 10, offset: 91835},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32449,28 +32449,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2918, col: 8, offset: 91975},
+																					pos: position{line: 2927, col: 8, offset: 92233},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2905, col: 12, offset: 91748},
+																							pos: position{line: 2914, col: 12, offset: 92006},
 																							run: (*parser).callonListContinuationElement522,
 																							expr: &choiceExpr{
-																								pos: position{line: 2905, col: 13, offset: 91749},
+																								pos: position{line: 2914, col: 13, offset: 92007},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 13, offset: 91749},
+																										pos:        position{line: 2914, col: 13, offset: 92007},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 20, offset: 91756},
+																										pos:        position{line: 2914, col: 20, offset: 92014},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 29, offset: 91765},
+																										pos:        position{line: 2914, col: 29, offset: 92023},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32479,9 +32479,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2915, col: 8, offset: 91925},
+																							pos: position{line: 2924, col: 8, offset: 92183},
 																							expr: &anyMatcher{
-																								line: 2915, col: 9, offset: 91926,
+																								line: 2924, col: 9, offset: 92184,
 																							},
 																						},
 																					},
@@ -32490,30 +32490,30 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 989, col: 5, offset: 30897},
+																		pos:   position{line: 989, col: 5, offset: 30929},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 825, col: 5, offset: 26542},
+																			pos: position{line: 825, col: 5, offset: 26574},
 																			run: (*parser).callonListContinuationElement530,
 																			expr: &seqExpr{
-																				pos: position{line: 825, col: 5, offset: 26542},
+																				pos: position{line: 825, col: 5, offset: 26574},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2913, col: 11, offset: 91911},
+																						pos: position{line: 2922, col: 11, offset: 92169},
 																						expr: &anyMatcher{
-																							line: 2913, col: 13, offset: 91913,
+																							line: 2922, col: 13, offset: 92171,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 826, col: 5, offset: 26617},
+																						pos:   position{line: 826, col: 5, offset: 26649},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2842, col: 13, offset: 90103},
+																							pos: position{line: 2851, col: 13, offset: 90361},
 																							run: (*parser).callonListContinuationElement535,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2842, col: 13, offset: 90103},
+																									pos:        position{line: 2851, col: 13, offset: 90361},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32523,28 +32523,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2918, col: 8, offset: 91975},
+																						pos: position{line: 2927, col: 8, offset: 92233},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2905, col: 12, offset: 91748},
+																								pos: position{line: 2914, col: 12, offset: 92006},
 																								run: (*parser).callonListContinuationElement539,
 																								expr: &choiceExpr{
-																									pos: position{line: 2905, col: 13, offset: 91749},
+																									pos: position{line: 2914, col: 13, offset: 92007},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 13, offset: 91749},
+																											pos:        position{line: 2914, col: 13, offset: 92007},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 20, offset: 91756},
+																											pos:        position{line: 2914, col: 20, offset: 92014},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 29, offset: 91765},
+																											pos:        position{line: 2914, col: 29, offset: 92023},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32553,9 +32553,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2915, col: 8, offset: 91925},
+																								pos: position{line: 2924, col: 8, offset: 92183},
 																								expr: &anyMatcher{
-																									line: 2915, col: 9, offset: 91926,
+																									line: 2924, col: 9, offset: 92184,
 																								},
 																							},
 																						},
@@ -32570,23 +32570,23 @@ var g = &grammar{
 													},
 												},
 												&zeroOrOneExpr{
-													pos: position{line: 976, col: 5, offset: 30427},
+													pos: position{line: 976, col: 5, offset: 30459},
 													expr: &seqExpr{
-														pos: position{line: 985, col: 34, offset: 30809},
+														pos: position{line: 985, col: 34, offset: 30841},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 985, col: 34, offset: 30809},
+																pos:        position{line: 985, col: 34, offset: 30841},
 																val:        "```",
 																ignoreCase: false,
 																want:       "\"```\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 985, col: 40, offset: 30815},
+																pos: position{line: 985, col: 40, offset: 30847},
 																expr: &actionExpr{
-																	pos: position{line: 2896, col: 10, offset: 91577},
+																	pos: position{line: 2905, col: 10, offset: 91835},
 																	run: (*parser).callonListContinuationElement550,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2896, col: 10, offset: 91577},
+																		pos:        position{line: 2905, col: 10, offset: 91835},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32595,28 +32595,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2918, col: 8, offset: 91975},
+																pos: position{line: 2927, col: 8, offset: 92233},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2905, col: 12, offset: 91748},
+																		pos: position{line: 2914, col: 12, offset: 92006},
 																		run: (*parser).callonListContinuationElement553,
 																		expr: &choiceExpr{
-																			pos: position{line: 2905, col: 13, offset: 91749},
+																			pos: position{line: 2914, col: 13, offset: 92007},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2905, col: 13, offset: 91749},
+																					pos:        position{line: 2914, col: 13, offset: 92007},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2905, col: 20, offset: 91756},
+																					pos:        position{line: 2914, col: 20, offset: 92014},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2905, col: 29, offset: 91765},
+																					pos:        position{line: 2914, col: 29, offset: 92023},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32625,9 +32625,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2915, col: 8, offset: 91925},
+																		pos: position{line: 2924, col: 8, offset: 92183},
 																		expr: &anyMatcher{
-																			line: 2915, col: 9, offset: 91926,
+																			line: 2924, col: 9, offset: 92184,
 																		},
 																	},
 																},
@@ -32639,39 +32639,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 890, col: 5, offset: 28203},
+										pos: position{line: 890, col: 5, offset: 28235},
 										run: (*parser).callonListContinuationElement560,
 										expr: &seqExpr{
-											pos: position{line: 890, col: 5, offset: 28203},
+											pos: position{line: 890, col: 5, offset: 28235},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 890, col: 5, offset: 28203},
+													pos:   position{line: 890, col: 5, offset: 28235},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 768, col: 5, offset: 24533},
+														pos: position{line: 768, col: 5, offset: 24565},
 														run: (*parser).callonListContinuationElement563,
 														expr: &seqExpr{
-															pos: position{line: 768, col: 5, offset: 24533},
+															pos: position{line: 768, col: 5, offset: 24565},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 768, col: 5, offset: 24533},
+																	pos:   position{line: 768, col: 5, offset: 24565},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 768, col: 16, offset: 24544},
+																		pos: position{line: 768, col: 16, offset: 24576},
 																		run: (*parser).callonListContinuationElement566,
 																		expr: &seqExpr{
-																			pos: position{line: 768, col: 16, offset: 24544},
+																			pos: position{line: 768, col: 16, offset: 24576},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 768, col: 16, offset: 24544},
+																					pos:        position{line: 768, col: 16, offset: 24576},
 																					val:        "```",
 																					ignoreCase: false,
 																					want:       "\"```\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 768, col: 22, offset: 24550},
+																					pos: position{line: 768, col: 22, offset: 24582},
 																					expr: &litMatcher{
-																						pos:        position{line: 768, col: 22, offset: 24550},
+																						pos:        position{line: 768, col: 22, offset: 24582},
 																						val:        "`",
 																						ignoreCase: false,
 																						want:       "\"`\"",
@@ -32682,12 +32682,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 770, col: 8, offset: 24634},
+																	pos: position{line: 770, col: 8, offset: 24666},
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 10, offset: 91577},
+																		pos: position{line: 2905, col: 10, offset: 91835},
 																		run: (*parser).callonListContinuationElement572,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 10, offset: 91577},
+																			pos:        position{line: 2905, col: 10, offset: 91835},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32696,28 +32696,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonListContinuationElement575,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32726,9 +32726,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -32738,56 +32738,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 891, col: 5, offset: 28241},
+													pos: position{line: 891, col: 5, offset: 28273},
 													run: (*parser).callonListContinuationElement582,
 												},
 												&labeledExpr{
-													pos:   position{line: 894, col: 5, offset: 28333},
+													pos:   position{line: 894, col: 5, offset: 28365},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 909, col: 5, offset: 28723},
+														pos: position{line: 909, col: 5, offset: 28755},
 														expr: &actionExpr{
-															pos: position{line: 909, col: 6, offset: 28724},
+															pos: position{line: 909, col: 6, offset: 28756},
 															run: (*parser).callonListContinuationElement585,
 															expr: &seqExpr{
-																pos: position{line: 909, col: 6, offset: 28724},
+																pos: position{line: 909, col: 6, offset: 28756},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 909, col: 6, offset: 28724},
+																		pos: position{line: 909, col: 6, offset: 28756},
 																		expr: &choiceExpr{
-																			pos: position{line: 902, col: 5, offset: 28567},
+																			pos: position{line: 902, col: 5, offset: 28599},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 902, col: 5, offset: 28567},
+																					pos: position{line: 902, col: 5, offset: 28599},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 902, col: 5, offset: 28567},
+																							pos:   position{line: 902, col: 5, offset: 28599},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 768, col: 5, offset: 24533},
+																								pos: position{line: 768, col: 5, offset: 24565},
 																								run: (*parser).callonListContinuationElement591,
 																								expr: &seqExpr{
-																									pos: position{line: 768, col: 5, offset: 24533},
+																									pos: position{line: 768, col: 5, offset: 24565},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 768, col: 5, offset: 24533},
+																											pos:   position{line: 768, col: 5, offset: 24565},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 768, col: 16, offset: 24544},
+																												pos: position{line: 768, col: 16, offset: 24576},
 																												run: (*parser).callonListContinuationElement594,
 																												expr: &seqExpr{
-																													pos: position{line: 768, col: 16, offset: 24544},
+																													pos: position{line: 768, col: 16, offset: 24576},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 768, col: 16, offset: 24544},
+																															pos:        position{line: 768, col: 16, offset: 24576},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 768, col: 22, offset: 24550},
+																															pos: position{line: 768, col: 22, offset: 24582},
 																															expr: &litMatcher{
-																																pos:        position{line: 768, col: 22, offset: 24550},
+																																pos:        position{line: 768, col: 22, offset: 24582},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -32798,12 +32798,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 770, col: 8, offset: 24634},
+																											pos: position{line: 770, col: 8, offset: 24666},
 																											expr: &actionExpr{
-																												pos: position{line: 2896, col: 10, offset: 91577},
+																												pos: position{line: 2905, col: 10, offset: 91835},
 																												run: (*parser).callonListContinuationElement600,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2896, col: 10, offset: 91577},
+																													pos:        position{line: 2905, col: 10, offset: 91835},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32812,28 +32812,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2918, col: 8, offset: 91975},
+																											pos: position{line: 2927, col: 8, offset: 92233},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2905, col: 12, offset: 91748},
+																													pos: position{line: 2914, col: 12, offset: 92006},
 																													run: (*parser).callonListContinuationElement603,
 																													expr: &choiceExpr{
-																														pos: position{line: 2905, col: 13, offset: 91749},
+																														pos: position{line: 2914, col: 13, offset: 92007},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 13, offset: 91749},
+																																pos:        position{line: 2914, col: 13, offset: 92007},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 20, offset: 91756},
+																																pos:        position{line: 2914, col: 20, offset: 92014},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 29, offset: 91765},
+																																pos:        position{line: 2914, col: 29, offset: 92023},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32842,9 +32842,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2915, col: 8, offset: 91925},
+																													pos: position{line: 2924, col: 8, offset: 92183},
 																													expr: &anyMatcher{
-																														line: 2915, col: 9, offset: 91926,
+																														line: 2924, col: 9, offset: 92184,
 																													},
 																												},
 																											},
@@ -32854,45 +32854,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 903, col: 5, offset: 28597},
+																							pos: position{line: 903, col: 5, offset: 28629},
 																							run: (*parser).callonListContinuationElement610,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 910, col: 5, offset: 28753},
+																		pos:   position{line: 910, col: 5, offset: 28785},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 825, col: 5, offset: 26542},
+																			pos: position{line: 825, col: 5, offset: 26574},
 																			run: (*parser).callonListContinuationElement614,
 																			expr: &seqExpr{
-																				pos: position{line: 825, col: 5, offset: 26542},
+																				pos: position{line: 825, col: 5, offset: 26574},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2913, col: 11, offset: 91911},
+																						pos: position{line: 2922, col: 11, offset: 92169},
 																						expr: &anyMatcher{
-																							line: 2913, col: 13, offset: 91913,
+																							line: 2922, col: 13, offset: 92171,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 826, col: 5, offset: 26617},
+																						pos:   position{line: 826, col: 5, offset: 26649},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2842, col: 13, offset: 90103},
+																							pos: position{line: 2851, col: 13, offset: 90361},
 																							run: (*parser).callonListContinuationElement619,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2842, col: 13, offset: 90103},
+																									pos:        position{line: 2851, col: 13, offset: 90361},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32902,28 +32902,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2918, col: 8, offset: 91975},
+																						pos: position{line: 2927, col: 8, offset: 92233},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2905, col: 12, offset: 91748},
+																								pos: position{line: 2914, col: 12, offset: 92006},
 																								run: (*parser).callonListContinuationElement623,
 																								expr: &choiceExpr{
-																									pos: position{line: 2905, col: 13, offset: 91749},
+																									pos: position{line: 2914, col: 13, offset: 92007},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 13, offset: 91749},
+																											pos:        position{line: 2914, col: 13, offset: 92007},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 20, offset: 91756},
+																											pos:        position{line: 2914, col: 20, offset: 92014},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 29, offset: 91765},
+																											pos:        position{line: 2914, col: 29, offset: 92023},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32932,9 +32932,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2915, col: 8, offset: 91925},
+																								pos: position{line: 2924, col: 8, offset: 92183},
 																								expr: &anyMatcher{
-																									line: 2915, col: 9, offset: 91926,
+																									line: 2924, col: 9, offset: 92184,
 																								},
 																							},
 																						},
@@ -32949,44 +32949,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 895, col: 5, offset: 28366},
+													pos:   position{line: 895, col: 5, offset: 28398},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 895, col: 9, offset: 28370},
+														pos: position{line: 895, col: 9, offset: 28402},
 														expr: &choiceExpr{
-															pos: position{line: 902, col: 5, offset: 28567},
+															pos: position{line: 902, col: 5, offset: 28599},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 902, col: 5, offset: 28567},
+																	pos: position{line: 902, col: 5, offset: 28599},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 902, col: 5, offset: 28567},
+																			pos:   position{line: 902, col: 5, offset: 28599},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 768, col: 5, offset: 24533},
+																				pos: position{line: 768, col: 5, offset: 24565},
 																				run: (*parser).callonListContinuationElement635,
 																				expr: &seqExpr{
-																					pos: position{line: 768, col: 5, offset: 24533},
+																					pos: position{line: 768, col: 5, offset: 24565},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 768, col: 5, offset: 24533},
+																							pos:   position{line: 768, col: 5, offset: 24565},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 768, col: 16, offset: 24544},
+																								pos: position{line: 768, col: 16, offset: 24576},
 																								run: (*parser).callonListContinuationElement638,
 																								expr: &seqExpr{
-																									pos: position{line: 768, col: 16, offset: 24544},
+																									pos: position{line: 768, col: 16, offset: 24576},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 768, col: 16, offset: 24544},
+																											pos:        position{line: 768, col: 16, offset: 24576},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 768, col: 22, offset: 24550},
+																											pos: position{line: 768, col: 22, offset: 24582},
 																											expr: &litMatcher{
-																												pos:        position{line: 768, col: 22, offset: 24550},
+																												pos:        position{line: 768, col: 22, offset: 24582},
 																												val:        "`",
 																												ignoreCase: false,
 																												want:       "\"`\"",
@@ -32997,12 +32997,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 770, col: 8, offset: 24634},
+																							pos: position{line: 770, col: 8, offset: 24666},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonListContinuationElement644,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33011,28 +33011,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonListContinuationElement647,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33041,9 +33041,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -33053,15 +33053,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 903, col: 5, offset: 28597},
+																			pos: position{line: 903, col: 5, offset: 28629},
 																			run: (*parser).callonListContinuationElement654,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2915, col: 8, offset: 91925},
+																	pos: position{line: 2924, col: 8, offset: 92183},
 																	expr: &anyMatcher{
-																		line: 2915, col: 9, offset: 91926,
+																		line: 2924, col: 9, offset: 92184,
 																	},
 																},
 															},
@@ -33072,39 +33072,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 918, col: 5, offset: 28908},
+										pos: position{line: 918, col: 5, offset: 28940},
 										run: (*parser).callonListContinuationElement657,
 										expr: &seqExpr{
-											pos: position{line: 918, col: 5, offset: 28908},
+											pos: position{line: 918, col: 5, offset: 28940},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 918, col: 5, offset: 28908},
+													pos:   position{line: 918, col: 5, offset: 28940},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 783, col: 5, offset: 25070},
+														pos: position{line: 783, col: 5, offset: 25102},
 														run: (*parser).callonListContinuationElement660,
 														expr: &seqExpr{
-															pos: position{line: 783, col: 5, offset: 25070},
+															pos: position{line: 783, col: 5, offset: 25102},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 783, col: 5, offset: 25070},
+																	pos:   position{line: 783, col: 5, offset: 25102},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 783, col: 16, offset: 25081},
+																		pos: position{line: 783, col: 16, offset: 25113},
 																		run: (*parser).callonListContinuationElement663,
 																		expr: &seqExpr{
-																			pos: position{line: 783, col: 16, offset: 25081},
+																			pos: position{line: 783, col: 16, offset: 25113},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 783, col: 16, offset: 25081},
+																					pos:        position{line: 783, col: 16, offset: 25113},
 																					val:        "----",
 																					ignoreCase: false,
 																					want:       "\"----\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 783, col: 23, offset: 25088},
+																					pos: position{line: 783, col: 23, offset: 25120},
 																					expr: &litMatcher{
-																						pos:        position{line: 783, col: 23, offset: 25088},
+																						pos:        position{line: 783, col: 23, offset: 25120},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
@@ -33115,12 +33115,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 785, col: 8, offset: 25172},
+																	pos: position{line: 785, col: 8, offset: 25204},
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 10, offset: 91577},
+																		pos: position{line: 2905, col: 10, offset: 91835},
 																		run: (*parser).callonListContinuationElement669,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 10, offset: 91577},
+																			pos:        position{line: 2905, col: 10, offset: 91835},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33129,28 +33129,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonListContinuationElement672,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33159,9 +33159,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -33171,56 +33171,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 919, col: 5, offset: 28947},
+													pos: position{line: 919, col: 5, offset: 28979},
 													run: (*parser).callonListContinuationElement679,
 												},
 												&labeledExpr{
-													pos:   position{line: 922, col: 5, offset: 29039},
+													pos:   position{line: 922, col: 5, offset: 29071},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 937, col: 5, offset: 29437},
+														pos: position{line: 937, col: 5, offset: 29469},
 														expr: &actionExpr{
-															pos: position{line: 937, col: 6, offset: 29438},
+															pos: position{line: 937, col: 6, offset: 29470},
 															run: (*parser).callonListContinuationElement682,
 															expr: &seqExpr{
-																pos: position{line: 937, col: 6, offset: 29438},
+																pos: position{line: 937, col: 6, offset: 29470},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 937, col: 6, offset: 29438},
+																		pos: position{line: 937, col: 6, offset: 29470},
 																		expr: &choiceExpr{
-																			pos: position{line: 930, col: 5, offset: 29279},
+																			pos: position{line: 930, col: 5, offset: 29311},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 930, col: 5, offset: 29279},
+																					pos: position{line: 930, col: 5, offset: 29311},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 930, col: 5, offset: 29279},
+																							pos:   position{line: 930, col: 5, offset: 29311},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 5, offset: 25070},
+																								pos: position{line: 783, col: 5, offset: 25102},
 																								run: (*parser).callonListContinuationElement688,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 5, offset: 25070},
+																									pos: position{line: 783, col: 5, offset: 25102},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 783, col: 5, offset: 25070},
+																											pos:   position{line: 783, col: 5, offset: 25102},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 783, col: 16, offset: 25081},
+																												pos: position{line: 783, col: 16, offset: 25113},
 																												run: (*parser).callonListContinuationElement691,
 																												expr: &seqExpr{
-																													pos: position{line: 783, col: 16, offset: 25081},
+																													pos: position{line: 783, col: 16, offset: 25113},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 783, col: 16, offset: 25081},
+																															pos:        position{line: 783, col: 16, offset: 25113},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 783, col: 23, offset: 25088},
+																															pos: position{line: 783, col: 23, offset: 25120},
 																															expr: &litMatcher{
-																																pos:        position{line: 783, col: 23, offset: 25088},
+																																pos:        position{line: 783, col: 23, offset: 25120},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -33231,12 +33231,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 785, col: 8, offset: 25172},
+																											pos: position{line: 785, col: 8, offset: 25204},
 																											expr: &actionExpr{
-																												pos: position{line: 2896, col: 10, offset: 91577},
+																												pos: position{line: 2905, col: 10, offset: 91835},
 																												run: (*parser).callonListContinuationElement697,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2896, col: 10, offset: 91577},
+																													pos:        position{line: 2905, col: 10, offset: 91835},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33245,28 +33245,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2918, col: 8, offset: 91975},
+																											pos: position{line: 2927, col: 8, offset: 92233},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2905, col: 12, offset: 91748},
+																													pos: position{line: 2914, col: 12, offset: 92006},
 																													run: (*parser).callonListContinuationElement700,
 																													expr: &choiceExpr{
-																														pos: position{line: 2905, col: 13, offset: 91749},
+																														pos: position{line: 2914, col: 13, offset: 92007},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 13, offset: 91749},
+																																pos:        position{line: 2914, col: 13, offset: 92007},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 20, offset: 91756},
+																																pos:        position{line: 2914, col: 20, offset: 92014},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 29, offset: 91765},
+																																pos:        position{line: 2914, col: 29, offset: 92023},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33275,9 +33275,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2915, col: 8, offset: 91925},
+																													pos: position{line: 2924, col: 8, offset: 92183},
 																													expr: &anyMatcher{
-																														line: 2915, col: 9, offset: 91926,
+																														line: 2924, col: 9, offset: 92184,
 																													},
 																												},
 																											},
@@ -33287,45 +33287,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 931, col: 5, offset: 29310},
+																							pos: position{line: 931, col: 5, offset: 29342},
 																							run: (*parser).callonListContinuationElement707,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 938, col: 5, offset: 29468},
+																		pos:   position{line: 938, col: 5, offset: 29500},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 825, col: 5, offset: 26542},
+																			pos: position{line: 825, col: 5, offset: 26574},
 																			run: (*parser).callonListContinuationElement711,
 																			expr: &seqExpr{
-																				pos: position{line: 825, col: 5, offset: 26542},
+																				pos: position{line: 825, col: 5, offset: 26574},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2913, col: 11, offset: 91911},
+																						pos: position{line: 2922, col: 11, offset: 92169},
 																						expr: &anyMatcher{
-																							line: 2913, col: 13, offset: 91913,
+																							line: 2922, col: 13, offset: 92171,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 826, col: 5, offset: 26617},
+																						pos:   position{line: 826, col: 5, offset: 26649},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2842, col: 13, offset: 90103},
+																							pos: position{line: 2851, col: 13, offset: 90361},
 																							run: (*parser).callonListContinuationElement716,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2842, col: 13, offset: 90103},
+																									pos:        position{line: 2851, col: 13, offset: 90361},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33335,28 +33335,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2918, col: 8, offset: 91975},
+																						pos: position{line: 2927, col: 8, offset: 92233},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2905, col: 12, offset: 91748},
+																								pos: position{line: 2914, col: 12, offset: 92006},
 																								run: (*parser).callonListContinuationElement720,
 																								expr: &choiceExpr{
-																									pos: position{line: 2905, col: 13, offset: 91749},
+																									pos: position{line: 2914, col: 13, offset: 92007},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 13, offset: 91749},
+																											pos:        position{line: 2914, col: 13, offset: 92007},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 20, offset: 91756},
+																											pos:        position{line: 2914, col: 20, offset: 92014},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 29, offset: 91765},
+																											pos:        position{line: 2914, col: 29, offset: 92023},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33365,9 +33365,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2915, col: 8, offset: 91925},
+																								pos: position{line: 2924, col: 8, offset: 92183},
 																								expr: &anyMatcher{
-																									line: 2915, col: 9, offset: 91926,
+																									line: 2924, col: 9, offset: 92184,
 																								},
 																							},
 																						},
@@ -33382,44 +33382,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 923, col: 5, offset: 29073},
+													pos:   position{line: 923, col: 5, offset: 29105},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 923, col: 9, offset: 29077},
+														pos: position{line: 923, col: 9, offset: 29109},
 														expr: &choiceExpr{
-															pos: position{line: 930, col: 5, offset: 29279},
+															pos: position{line: 930, col: 5, offset: 29311},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 930, col: 5, offset: 29279},
+																	pos: position{line: 930, col: 5, offset: 29311},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 930, col: 5, offset: 29279},
+																			pos:   position{line: 930, col: 5, offset: 29311},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 783, col: 5, offset: 25070},
+																				pos: position{line: 783, col: 5, offset: 25102},
 																				run: (*parser).callonListContinuationElement732,
 																				expr: &seqExpr{
-																					pos: position{line: 783, col: 5, offset: 25070},
+																					pos: position{line: 783, col: 5, offset: 25102},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 783, col: 5, offset: 25070},
+																							pos:   position{line: 783, col: 5, offset: 25102},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 783, col: 16, offset: 25081},
+																								pos: position{line: 783, col: 16, offset: 25113},
 																								run: (*parser).callonListContinuationElement735,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 16, offset: 25081},
+																									pos: position{line: 783, col: 16, offset: 25113},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 783, col: 16, offset: 25081},
+																											pos:        position{line: 783, col: 16, offset: 25113},
 																											val:        "----",
 																											ignoreCase: false,
 																											want:       "\"----\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 783, col: 23, offset: 25088},
+																											pos: position{line: 783, col: 23, offset: 25120},
 																											expr: &litMatcher{
-																												pos:        position{line: 783, col: 23, offset: 25088},
+																												pos:        position{line: 783, col: 23, offset: 25120},
 																												val:        "-",
 																												ignoreCase: false,
 																												want:       "\"-\"",
@@ -33430,12 +33430,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 785, col: 8, offset: 25172},
+																							pos: position{line: 785, col: 8, offset: 25204},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonListContinuationElement741,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33444,28 +33444,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonListContinuationElement744,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33474,9 +33474,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -33486,15 +33486,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 931, col: 5, offset: 29310},
+																			pos: position{line: 931, col: 5, offset: 29342},
 																			run: (*parser).callonListContinuationElement751,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2915, col: 8, offset: 91925},
+																	pos: position{line: 2924, col: 8, offset: 92183},
 																	expr: &anyMatcher{
-																		line: 2915, col: 9, offset: 91926,
+																		line: 2924, col: 9, offset: 92184,
 																	},
 																},
 															},
@@ -33505,39 +33505,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 946, col: 5, offset: 29623},
+										pos: position{line: 946, col: 5, offset: 29655},
 										run: (*parser).callonListContinuationElement754,
 										expr: &seqExpr{
-											pos: position{line: 946, col: 5, offset: 29623},
+											pos: position{line: 946, col: 5, offset: 29655},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 946, col: 5, offset: 29623},
+													pos:   position{line: 946, col: 5, offset: 29655},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 797, col: 5, offset: 25546},
+														pos: position{line: 797, col: 5, offset: 25578},
 														run: (*parser).callonListContinuationElement757,
 														expr: &seqExpr{
-															pos: position{line: 797, col: 5, offset: 25546},
+															pos: position{line: 797, col: 5, offset: 25578},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 797, col: 5, offset: 25546},
+																	pos:   position{line: 797, col: 5, offset: 25578},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 797, col: 16, offset: 25557},
+																		pos: position{line: 797, col: 16, offset: 25589},
 																		run: (*parser).callonListContinuationElement760,
 																		expr: &seqExpr{
-																			pos: position{line: 797, col: 16, offset: 25557},
+																			pos: position{line: 797, col: 16, offset: 25589},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 797, col: 16, offset: 25557},
+																					pos:        position{line: 797, col: 16, offset: 25589},
 																					val:        "....",
 																					ignoreCase: false,
 																					want:       "\"....\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 797, col: 23, offset: 25564},
+																					pos: position{line: 797, col: 23, offset: 25596},
 																					expr: &litMatcher{
-																						pos:        position{line: 797, col: 23, offset: 25564},
+																						pos:        position{line: 797, col: 23, offset: 25596},
 																						val:        ".",
 																						ignoreCase: false,
 																						want:       "\".\"",
@@ -33548,12 +33548,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 799, col: 8, offset: 25648},
+																	pos: position{line: 799, col: 8, offset: 25680},
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 10, offset: 91577},
+																		pos: position{line: 2905, col: 10, offset: 91835},
 																		run: (*parser).callonListContinuationElement766,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 10, offset: 91577},
+																			pos:        position{line: 2905, col: 10, offset: 91835},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33562,28 +33562,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonListContinuationElement769,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33592,9 +33592,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -33604,56 +33604,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 947, col: 5, offset: 29662},
+													pos: position{line: 947, col: 5, offset: 29694},
 													run: (*parser).callonListContinuationElement776,
 												},
 												&labeledExpr{
-													pos:   position{line: 950, col: 5, offset: 29754},
+													pos:   position{line: 950, col: 5, offset: 29786},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 965, col: 5, offset: 30152},
+														pos: position{line: 965, col: 5, offset: 30184},
 														expr: &actionExpr{
-															pos: position{line: 965, col: 6, offset: 30153},
+															pos: position{line: 965, col: 6, offset: 30185},
 															run: (*parser).callonListContinuationElement779,
 															expr: &seqExpr{
-																pos: position{line: 965, col: 6, offset: 30153},
+																pos: position{line: 965, col: 6, offset: 30185},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 965, col: 6, offset: 30153},
+																		pos: position{line: 965, col: 6, offset: 30185},
 																		expr: &choiceExpr{
-																			pos: position{line: 958, col: 5, offset: 29994},
+																			pos: position{line: 958, col: 5, offset: 30026},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 958, col: 5, offset: 29994},
+																					pos: position{line: 958, col: 5, offset: 30026},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 958, col: 5, offset: 29994},
+																							pos:   position{line: 958, col: 5, offset: 30026},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 5, offset: 25546},
+																								pos: position{line: 797, col: 5, offset: 25578},
 																								run: (*parser).callonListContinuationElement785,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 5, offset: 25546},
+																									pos: position{line: 797, col: 5, offset: 25578},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 797, col: 5, offset: 25546},
+																											pos:   position{line: 797, col: 5, offset: 25578},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 797, col: 16, offset: 25557},
+																												pos: position{line: 797, col: 16, offset: 25589},
 																												run: (*parser).callonListContinuationElement788,
 																												expr: &seqExpr{
-																													pos: position{line: 797, col: 16, offset: 25557},
+																													pos: position{line: 797, col: 16, offset: 25589},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 797, col: 16, offset: 25557},
+																															pos:        position{line: 797, col: 16, offset: 25589},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 797, col: 23, offset: 25564},
+																															pos: position{line: 797, col: 23, offset: 25596},
 																															expr: &litMatcher{
-																																pos:        position{line: 797, col: 23, offset: 25564},
+																																pos:        position{line: 797, col: 23, offset: 25596},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -33664,12 +33664,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 8, offset: 25648},
+																											pos: position{line: 799, col: 8, offset: 25680},
 																											expr: &actionExpr{
-																												pos: position{line: 2896, col: 10, offset: 91577},
+																												pos: position{line: 2905, col: 10, offset: 91835},
 																												run: (*parser).callonListContinuationElement794,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2896, col: 10, offset: 91577},
+																													pos:        position{line: 2905, col: 10, offset: 91835},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33678,28 +33678,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2918, col: 8, offset: 91975},
+																											pos: position{line: 2927, col: 8, offset: 92233},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2905, col: 12, offset: 91748},
+																													pos: position{line: 2914, col: 12, offset: 92006},
 																													run: (*parser).callonListContinuationElement797,
 																													expr: &choiceExpr{
-																														pos: position{line: 2905, col: 13, offset: 91749},
+																														pos: position{line: 2914, col: 13, offset: 92007},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 13, offset: 91749},
+																																pos:        position{line: 2914, col: 13, offset: 92007},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 20, offset: 91756},
+																																pos:        position{line: 2914, col: 20, offset: 92014},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 29, offset: 91765},
+																																pos:        position{line: 2914, col: 29, offset: 92023},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33708,9 +33708,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2915, col: 8, offset: 91925},
+																													pos: position{line: 2924, col: 8, offset: 92183},
 																													expr: &anyMatcher{
-																														line: 2915, col: 9, offset: 91926,
+																														line: 2924, col: 9, offset: 92184,
 																													},
 																												},
 																											},
@@ -33720,45 +33720,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 959, col: 5, offset: 30025},
+																							pos: position{line: 959, col: 5, offset: 30057},
 																							run: (*parser).callonListContinuationElement804,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 966, col: 5, offset: 30183},
+																		pos:   position{line: 966, col: 5, offset: 30215},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 825, col: 5, offset: 26542},
+																			pos: position{line: 825, col: 5, offset: 26574},
 																			run: (*parser).callonListContinuationElement808,
 																			expr: &seqExpr{
-																				pos: position{line: 825, col: 5, offset: 26542},
+																				pos: position{line: 825, col: 5, offset: 26574},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2913, col: 11, offset: 91911},
+																						pos: position{line: 2922, col: 11, offset: 92169},
 																						expr: &anyMatcher{
-																							line: 2913, col: 13, offset: 91913,
+																							line: 2922, col: 13, offset: 92171,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 826, col: 5, offset: 26617},
+																						pos:   position{line: 826, col: 5, offset: 26649},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2842, col: 13, offset: 90103},
+																							pos: position{line: 2851, col: 13, offset: 90361},
 																							run: (*parser).callonListContinuationElement813,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2842, col: 13, offset: 90103},
+																									pos:        position{line: 2851, col: 13, offset: 90361},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33768,28 +33768,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2918, col: 8, offset: 91975},
+																						pos: position{line: 2927, col: 8, offset: 92233},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2905, col: 12, offset: 91748},
+																								pos: position{line: 2914, col: 12, offset: 92006},
 																								run: (*parser).callonListContinuationElement817,
 																								expr: &choiceExpr{
-																									pos: position{line: 2905, col: 13, offset: 91749},
+																									pos: position{line: 2914, col: 13, offset: 92007},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 13, offset: 91749},
+																											pos:        position{line: 2914, col: 13, offset: 92007},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 20, offset: 91756},
+																											pos:        position{line: 2914, col: 20, offset: 92014},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 29, offset: 91765},
+																											pos:        position{line: 2914, col: 29, offset: 92023},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33798,9 +33798,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2915, col: 8, offset: 91925},
+																								pos: position{line: 2924, col: 8, offset: 92183},
 																								expr: &anyMatcher{
-																									line: 2915, col: 9, offset: 91926,
+																									line: 2924, col: 9, offset: 92184,
 																								},
 																							},
 																						},
@@ -33815,44 +33815,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 951, col: 5, offset: 29788},
+													pos:   position{line: 951, col: 5, offset: 29820},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 951, col: 9, offset: 29792},
+														pos: position{line: 951, col: 9, offset: 29824},
 														expr: &choiceExpr{
-															pos: position{line: 958, col: 5, offset: 29994},
+															pos: position{line: 958, col: 5, offset: 30026},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 958, col: 5, offset: 29994},
+																	pos: position{line: 958, col: 5, offset: 30026},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 958, col: 5, offset: 29994},
+																			pos:   position{line: 958, col: 5, offset: 30026},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 797, col: 5, offset: 25546},
+																				pos: position{line: 797, col: 5, offset: 25578},
 																				run: (*parser).callonListContinuationElement829,
 																				expr: &seqExpr{
-																					pos: position{line: 797, col: 5, offset: 25546},
+																					pos: position{line: 797, col: 5, offset: 25578},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 797, col: 5, offset: 25546},
+																							pos:   position{line: 797, col: 5, offset: 25578},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 797, col: 16, offset: 25557},
+																								pos: position{line: 797, col: 16, offset: 25589},
 																								run: (*parser).callonListContinuationElement832,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 16, offset: 25557},
+																									pos: position{line: 797, col: 16, offset: 25589},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 797, col: 16, offset: 25557},
+																											pos:        position{line: 797, col: 16, offset: 25589},
 																											val:        "....",
 																											ignoreCase: false,
 																											want:       "\"....\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 797, col: 23, offset: 25564},
+																											pos: position{line: 797, col: 23, offset: 25596},
 																											expr: &litMatcher{
-																												pos:        position{line: 797, col: 23, offset: 25564},
+																												pos:        position{line: 797, col: 23, offset: 25596},
 																												val:        ".",
 																												ignoreCase: false,
 																												want:       "\".\"",
@@ -33863,12 +33863,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 799, col: 8, offset: 25648},
+																							pos: position{line: 799, col: 8, offset: 25680},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonListContinuationElement838,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33877,28 +33877,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonListContinuationElement841,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33907,9 +33907,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -33919,15 +33919,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 959, col: 5, offset: 30025},
+																			pos: position{line: 959, col: 5, offset: 30057},
 																			run: (*parser).callonListContinuationElement848,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2915, col: 8, offset: 91925},
+																	pos: position{line: 2924, col: 8, offset: 92183},
 																	expr: &anyMatcher{
-																		line: 2915, col: 9, offset: 91926,
+																		line: 2924, col: 9, offset: 92184,
 																	},
 																},
 															},
@@ -33938,63 +33938,63 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 997, col: 5, offset: 31066},
+										pos: position{line: 997, col: 5, offset: 31098},
 										run: (*parser).callonListContinuationElement851,
 										expr: &seqExpr{
-											pos: position{line: 997, col: 5, offset: 31066},
+											pos: position{line: 997, col: 5, offset: 31098},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 997, col: 5, offset: 31066},
+													pos:   position{line: 997, col: 5, offset: 31098},
 													label: "firstLine",
 													expr: &choiceExpr{
-														pos: position{line: 997, col: 16, offset: 31077},
+														pos: position{line: 997, col: 16, offset: 31109},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1010, col: 35, offset: 31553},
+																pos: position{line: 1010, col: 35, offset: 31585},
 																run: (*parser).callonListContinuationElement855,
 																expr: &seqExpr{
-																	pos: position{line: 1010, col: 35, offset: 31553},
+																	pos: position{line: 1010, col: 35, offset: 31585},
 																	exprs: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 1010, col: 35, offset: 31553},
+																			pos:        position{line: 1010, col: 35, offset: 31585},
 																			val:        "> ",
 																			ignoreCase: false,
 																			want:       "\"> \"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1010, col: 40, offset: 31558},
+																			pos:   position{line: 1010, col: 40, offset: 31590},
 																			label: "comment",
 																			expr: &actionExpr{
-																				pos: position{line: 2497, col: 22, offset: 80337},
+																				pos: position{line: 2497, col: 22, offset: 80369},
 																				run: (*parser).callonListContinuationElement859,
 																				expr: &seqExpr{
-																					pos: position{line: 2497, col: 22, offset: 80337},
+																					pos: position{line: 2497, col: 22, offset: 80369},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2502, col: 31, offset: 80558},
+																							pos:        position{line: 2502, col: 31, offset: 80590},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
 																						},
 																						&notExpr{
-																							pos: position{line: 2502, col: 36, offset: 80563},
+																							pos: position{line: 2502, col: 36, offset: 80595},
 																							expr: &litMatcher{
-																								pos:        position{line: 2502, col: 37, offset: 80564},
+																								pos:        position{line: 2502, col: 37, offset: 80596},
 																								val:        "//",
 																								ignoreCase: false,
 																								want:       "\"//\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 2497, col: 49, offset: 80364},
+																							pos:   position{line: 2497, col: 49, offset: 80396},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								run: (*parser).callonListContinuationElement865,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2842, col: 13, offset: 90103},
+																									pos: position{line: 2851, col: 13, offset: 90361},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2842, col: 13, offset: 90103},
+																										pos:        position{line: 2851, col: 13, offset: 90361},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -34004,28 +34004,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonListContinuationElement869,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34034,9 +34034,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -34049,32 +34049,32 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1004, col: 5, offset: 31411},
+																pos: position{line: 1004, col: 5, offset: 31443},
 																run: (*parser).callonListContinuationElement876,
 																expr: &seqExpr{
-																	pos: position{line: 1004, col: 5, offset: 31411},
+																	pos: position{line: 1004, col: 5, offset: 31443},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1004, col: 5, offset: 31411},
+																			pos: position{line: 1004, col: 5, offset: 31443},
 																			expr: &actionExpr{
-																				pos: position{line: 687, col: 14, offset: 21835},
+																				pos: position{line: 687, col: 14, offset: 21867},
 																				run: (*parser).callonListContinuationElement879,
 																				expr: &seqExpr{
-																					pos: position{line: 687, col: 14, offset: 21835},
+																					pos: position{line: 687, col: 14, offset: 21867},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2913, col: 11, offset: 91911},
+																							pos: position{line: 2922, col: 11, offset: 92169},
 																							expr: &anyMatcher{
-																								line: 2913, col: 13, offset: 91913,
+																								line: 2922, col: 13, offset: 92171,
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 687, col: 21, offset: 21842},
+																							pos: position{line: 687, col: 21, offset: 21874},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonListContinuationElement884,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34083,28 +34083,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34113,9 +34113,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -34125,21 +34125,21 @@ var g = &grammar{
 																			},
 																		},
 																		&litMatcher{
-																			pos:        position{line: 1005, col: 5, offset: 31426},
+																			pos:        position{line: 1005, col: 5, offset: 31458},
 																			val:        "> ",
 																			ignoreCase: false,
 																			want:       "\"> \"",
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1006, col: 5, offset: 31436},
+																			pos:   position{line: 1006, col: 5, offset: 31468},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 2846, col: 14, offset: 90170},
+																				pos: position{line: 2855, col: 14, offset: 90428},
 																				run: (*parser).callonListContinuationElement896,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2846, col: 14, offset: 90170},
+																					pos: position{line: 2855, col: 14, offset: 90428},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2846, col: 14, offset: 90170},
+																						pos:        position{line: 2855, col: 14, offset: 90428},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -34149,28 +34149,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2918, col: 8, offset: 91975},
+																			pos: position{line: 2927, col: 8, offset: 92233},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2905, col: 12, offset: 91748},
+																					pos: position{line: 2914, col: 12, offset: 92006},
 																					run: (*parser).callonListContinuationElement900,
 																					expr: &choiceExpr{
-																						pos: position{line: 2905, col: 13, offset: 91749},
+																						pos: position{line: 2914, col: 13, offset: 92007},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 13, offset: 91749},
+																								pos:        position{line: 2914, col: 13, offset: 92007},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 20, offset: 91756},
+																								pos:        position{line: 2914, col: 20, offset: 92014},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 29, offset: 91765},
+																								pos:        position{line: 2914, col: 29, offset: 92023},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -34179,9 +34179,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
@@ -34193,44 +34193,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 998, col: 5, offset: 31136},
+													pos:   position{line: 998, col: 5, offset: 31168},
 													label: "otherLines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 998, col: 16, offset: 31147},
+														pos: position{line: 998, col: 16, offset: 31179},
 														expr: &choiceExpr{
-															pos: position{line: 998, col: 17, offset: 31148},
+															pos: position{line: 998, col: 17, offset: 31180},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2497, col: 22, offset: 80337},
+																	pos: position{line: 2497, col: 22, offset: 80369},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 2497, col: 22, offset: 80337},
+																		pos: position{line: 2497, col: 22, offset: 80369},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2502, col: 31, offset: 80558},
+																				pos:        position{line: 2502, col: 31, offset: 80590},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2502, col: 36, offset: 80563},
+																				pos: position{line: 2502, col: 36, offset: 80595},
 																				expr: &litMatcher{
-																					pos:        position{line: 2502, col: 37, offset: 80564},
+																					pos:        position{line: 2502, col: 37, offset: 80596},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2497, col: 49, offset: 80364},
+																				pos:   position{line: 2497, col: 49, offset: 80396},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2842, col: 13, offset: 90103},
+																					pos: position{line: 2851, col: 13, offset: 90361},
 																					run: (*parser).callonListContinuationElement916,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2842, col: 13, offset: 90103},
+																						pos: position{line: 2851, col: 13, offset: 90361},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2842, col: 13, offset: 90103},
+																							pos:        position{line: 2851, col: 13, offset: 90361},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34240,28 +34240,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2918, col: 8, offset: 91975},
+																				pos: position{line: 2927, col: 8, offset: 92233},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2905, col: 12, offset: 91748},
+																						pos: position{line: 2914, col: 12, offset: 92006},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2905, col: 13, offset: 91749},
+																							pos: position{line: 2914, col: 13, offset: 92007},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2905, col: 13, offset: 91749},
+																									pos:        position{line: 2914, col: 13, offset: 92007},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2905, col: 20, offset: 91756},
+																									pos:        position{line: 2914, col: 20, offset: 92014},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2905, col: 29, offset: 91765},
+																									pos:        position{line: 2914, col: 29, offset: 92023},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34270,9 +34270,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2915, col: 8, offset: 91925},
+																						pos: position{line: 2924, col: 8, offset: 92183},
 																						expr: &anyMatcher{
-																							line: 2915, col: 9, offset: 91926,
+																							line: 2924, col: 9, offset: 92184,
 																						},
 																					},
 																				},
@@ -34281,51 +34281,51 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1010, col: 35, offset: 31553},
+																	pos: position{line: 1010, col: 35, offset: 31585},
 																	run: (*parser).callonListContinuationElement927,
 																	expr: &seqExpr{
-																		pos: position{line: 1010, col: 35, offset: 31553},
+																		pos: position{line: 1010, col: 35, offset: 31585},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1010, col: 35, offset: 31553},
+																				pos:        position{line: 1010, col: 35, offset: 31585},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1010, col: 40, offset: 31558},
+																				pos:   position{line: 1010, col: 40, offset: 31590},
 																				label: "comment",
 																				expr: &actionExpr{
-																					pos: position{line: 2497, col: 22, offset: 80337},
+																					pos: position{line: 2497, col: 22, offset: 80369},
 																					run: (*parser).callonListContinuationElement931,
 																					expr: &seqExpr{
-																						pos: position{line: 2497, col: 22, offset: 80337},
+																						pos: position{line: 2497, col: 22, offset: 80369},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2502, col: 31, offset: 80558},
+																								pos:        position{line: 2502, col: 31, offset: 80590},
 																								val:        "//",
 																								ignoreCase: false,
 																								want:       "\"//\"",
 																							},
 																							&notExpr{
-																								pos: position{line: 2502, col: 36, offset: 80563},
+																								pos: position{line: 2502, col: 36, offset: 80595},
 																								expr: &litMatcher{
-																									pos:        position{line: 2502, col: 37, offset: 80564},
+																									pos:        position{line: 2502, col: 37, offset: 80596},
 																									val:        "//",
 																									ignoreCase: false,
 																									want:       "\"//\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 2497, col: 49, offset: 80364},
+																								pos:   position{line: 2497, col: 49, offset: 80396},
 																								label: "content",
 																								expr: &actionExpr{
-																									pos: position{line: 2842, col: 13, offset: 90103},
+																									pos: position{line: 2851, col: 13, offset: 90361},
 																									run: (*parser).callonListContinuationElement937,
 																									expr: &zeroOrMoreExpr{
-																										pos: position{line: 2842, col: 13, offset: 90103},
+																										pos: position{line: 2851, col: 13, offset: 90361},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2842, col: 13, offset: 90103},
+																											pos:        position{line: 2851, col: 13, offset: 90361},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -34335,28 +34335,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2918, col: 8, offset: 91975},
+																								pos: position{line: 2927, col: 8, offset: 92233},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2905, col: 12, offset: 91748},
+																										pos: position{line: 2914, col: 12, offset: 92006},
 																										run: (*parser).callonListContinuationElement941,
 																										expr: &choiceExpr{
-																											pos: position{line: 2905, col: 13, offset: 91749},
+																											pos: position{line: 2914, col: 13, offset: 92007},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 13, offset: 91749},
+																													pos:        position{line: 2914, col: 13, offset: 92007},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 20, offset: 91756},
+																													pos:        position{line: 2914, col: 20, offset: 92014},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 29, offset: 91765},
+																													pos:        position{line: 2914, col: 29, offset: 92023},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34365,9 +34365,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2915, col: 8, offset: 91925},
+																										pos: position{line: 2924, col: 8, offset: 92183},
 																										expr: &anyMatcher{
-																											line: 2915, col: 9, offset: 91926,
+																											line: 2924, col: 9, offset: 92184,
 																										},
 																									},
 																								},
@@ -34380,32 +34380,32 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1004, col: 5, offset: 31411},
+																	pos: position{line: 1004, col: 5, offset: 31443},
 																	run: (*parser).callonListContinuationElement948,
 																	expr: &seqExpr{
-																		pos: position{line: 1004, col: 5, offset: 31411},
+																		pos: position{line: 1004, col: 5, offset: 31443},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1004, col: 5, offset: 31411},
+																				pos: position{line: 1004, col: 5, offset: 31443},
 																				expr: &actionExpr{
-																					pos: position{line: 687, col: 14, offset: 21835},
+																					pos: position{line: 687, col: 14, offset: 21867},
 																					run: (*parser).callonListContinuationElement951,
 																					expr: &seqExpr{
-																						pos: position{line: 687, col: 14, offset: 21835},
+																						pos: position{line: 687, col: 14, offset: 21867},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2913, col: 11, offset: 91911},
+																								pos: position{line: 2922, col: 11, offset: 92169},
 																								expr: &anyMatcher{
-																									line: 2913, col: 13, offset: 91913,
+																									line: 2922, col: 13, offset: 92171,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 687, col: 21, offset: 21842},
+																								pos: position{line: 687, col: 21, offset: 21874},
 																								expr: &actionExpr{
-																									pos: position{line: 2896, col: 10, offset: 91577},
+																									pos: position{line: 2905, col: 10, offset: 91835},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2896, col: 10, offset: 91577},
+																										pos:        position{line: 2905, col: 10, offset: 91835},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34414,28 +34414,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2918, col: 8, offset: 91975},
+																								pos: position{line: 2927, col: 8, offset: 92233},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2905, col: 12, offset: 91748},
+																										pos: position{line: 2914, col: 12, offset: 92006},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2905, col: 13, offset: 91749},
+																											pos: position{line: 2914, col: 13, offset: 92007},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 13, offset: 91749},
+																													pos:        position{line: 2914, col: 13, offset: 92007},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 20, offset: 91756},
+																													pos:        position{line: 2914, col: 20, offset: 92014},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 29, offset: 91765},
+																													pos:        position{line: 2914, col: 29, offset: 92023},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34444,9 +34444,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2915, col: 8, offset: 91925},
+																										pos: position{line: 2924, col: 8, offset: 92183},
 																										expr: &anyMatcher{
-																											line: 2915, col: 9, offset: 91926,
+																											line: 2924, col: 9, offset: 92184,
 																										},
 																									},
 																								},
@@ -34456,21 +34456,21 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 1005, col: 5, offset: 31426},
+																				pos:        position{line: 1005, col: 5, offset: 31458},
 																				val:        "> ",
 																				ignoreCase: false,
 																				want:       "\"> \"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 1006, col: 5, offset: 31436},
+																				pos:   position{line: 1006, col: 5, offset: 31468},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2846, col: 14, offset: 90170},
+																					pos: position{line: 2855, col: 14, offset: 90428},
 																					run: (*parser).callonListContinuationElement968,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2846, col: 14, offset: 90170},
+																						pos: position{line: 2855, col: 14, offset: 90428},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 14, offset: 90170},
+																							pos:        position{line: 2855, col: 14, offset: 90428},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34480,28 +34480,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2918, col: 8, offset: 91975},
+																				pos: position{line: 2927, col: 8, offset: 92233},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2905, col: 12, offset: 91748},
+																						pos: position{line: 2914, col: 12, offset: 92006},
 																						run: (*parser).callonListContinuationElement972,
 																						expr: &choiceExpr{
-																							pos: position{line: 2905, col: 13, offset: 91749},
+																							pos: position{line: 2914, col: 13, offset: 92007},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2905, col: 13, offset: 91749},
+																									pos:        position{line: 2914, col: 13, offset: 92007},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2905, col: 20, offset: 91756},
+																									pos:        position{line: 2914, col: 20, offset: 92014},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2905, col: 29, offset: 91765},
+																									pos:        position{line: 2914, col: 29, offset: 92023},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34510,9 +34510,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2915, col: 8, offset: 91925},
+																						pos: position{line: 2924, col: 8, offset: 92183},
 																						expr: &anyMatcher{
-																							line: 2915, col: 9, offset: 91926,
+																							line: 2924, col: 9, offset: 92184,
 																						},
 																					},
 																				},
@@ -34521,21 +34521,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1811, col: 5, offset: 58493},
+																	pos: position{line: 1811, col: 5, offset: 58525},
 																	run: (*parser).callonListContinuationElement979,
 																	expr: &seqExpr{
-																		pos: position{line: 1811, col: 5, offset: 58493},
+																		pos: position{line: 1811, col: 5, offset: 58525},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1811, col: 5, offset: 58493},
+																				pos:   position{line: 1811, col: 5, offset: 58525},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2846, col: 14, offset: 90170},
+																					pos: position{line: 2855, col: 14, offset: 90428},
 																					run: (*parser).callonListContinuationElement982,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2846, col: 14, offset: 90170},
+																						pos: position{line: 2855, col: 14, offset: 90428},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2846, col: 14, offset: 90170},
+																							pos:        position{line: 2855, col: 14, offset: 90428},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34545,32 +34545,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1812, col: 5, offset: 58517},
+																				pos: position{line: 1812, col: 5, offset: 58549},
 																				run: (*parser).callonListContinuationElement985,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2918, col: 8, offset: 91975},
+																				pos: position{line: 2927, col: 8, offset: 92233},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2905, col: 12, offset: 91748},
+																						pos: position{line: 2914, col: 12, offset: 92006},
 																						run: (*parser).callonListContinuationElement987,
 																						expr: &choiceExpr{
-																							pos: position{line: 2905, col: 13, offset: 91749},
+																							pos: position{line: 2914, col: 13, offset: 92007},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2905, col: 13, offset: 91749},
+																									pos:        position{line: 2914, col: 13, offset: 92007},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2905, col: 20, offset: 91756},
+																									pos:        position{line: 2914, col: 20, offset: 92014},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2905, col: 29, offset: 91765},
+																									pos:        position{line: 2914, col: 29, offset: 92023},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34579,9 +34579,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2915, col: 8, offset: 91925},
+																						pos: position{line: 2924, col: 8, offset: 92183},
 																						expr: &anyMatcher{
-																							line: 2915, col: 9, offset: 91926,
+																							line: 2924, col: 9, offset: 92184,
 																						},
 																					},
 																				},
@@ -34597,28 +34597,28 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1023, col: 5, offset: 31805},
+										pos: position{line: 1023, col: 5, offset: 31837},
 										run: (*parser).callonListContinuationElement994,
 										expr: &seqExpr{
-											pos: position{line: 1023, col: 5, offset: 31805},
+											pos: position{line: 1023, col: 5, offset: 31837},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1023, col: 5, offset: 31805},
+													pos:   position{line: 1023, col: 5, offset: 31837},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 790, col: 5, offset: 25315},
+														pos: position{line: 790, col: 5, offset: 25347},
 														run: (*parser).callonListContinuationElement997,
 														expr: &seqExpr{
-															pos: position{line: 790, col: 5, offset: 25315},
+															pos: position{line: 790, col: 5, offset: 25347},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 790, col: 5, offset: 25315},
+																	pos:   position{line: 790, col: 5, offset: 25347},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 790, col: 16, offset: 25326},
+																		pos: position{line: 790, col: 16, offset: 25358},
 																		run: (*parser).callonListContinuationElement1000,
 																		expr: &litMatcher{
-																			pos:        position{line: 790, col: 16, offset: 25326},
+																			pos:        position{line: 790, col: 16, offset: 25358},
 																			val:        "--",
 																			ignoreCase: false,
 																			want:       "\"--\"",
@@ -34626,12 +34626,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 792, col: 8, offset: 25403},
+																	pos: position{line: 792, col: 8, offset: 25435},
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 10, offset: 91577},
+																		pos: position{line: 2905, col: 10, offset: 91835},
 																		run: (*parser).callonListContinuationElement1003,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 10, offset: 91577},
+																			pos:        position{line: 2905, col: 10, offset: 91835},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34640,28 +34640,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonListContinuationElement1006,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34670,9 +34670,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -34682,35 +34682,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1024, col: 5, offset: 31841},
+													pos:   position{line: 1024, col: 5, offset: 31873},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1034, col: 5, offset: 32109},
+														pos: position{line: 1034, col: 5, offset: 32141},
 														expr: &actionExpr{
-															pos: position{line: 1034, col: 6, offset: 32110},
+															pos: position{line: 1034, col: 6, offset: 32142},
 															run: (*parser).callonListContinuationElement1015,
 															expr: &seqExpr{
-																pos: position{line: 1034, col: 6, offset: 32110},
+																pos: position{line: 1034, col: 6, offset: 32142},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1034, col: 6, offset: 32110},
+																		pos: position{line: 1034, col: 6, offset: 32142},
 																		expr: &choiceExpr{
-																			pos: position{line: 1031, col: 26, offset: 32058},
+																			pos: position{line: 1031, col: 26, offset: 32090},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 790, col: 5, offset: 25315},
+																					pos: position{line: 790, col: 5, offset: 25347},
 																					run: (*parser).callonListContinuationElement1019,
 																					expr: &seqExpr{
-																						pos: position{line: 790, col: 5, offset: 25315},
+																						pos: position{line: 790, col: 5, offset: 25347},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 790, col: 5, offset: 25315},
+																								pos:   position{line: 790, col: 5, offset: 25347},
 																								label: "delimiter",
 																								expr: &actionExpr{
-																									pos: position{line: 790, col: 16, offset: 25326},
+																									pos: position{line: 790, col: 16, offset: 25358},
 																									run: (*parser).callonListContinuationElement1022,
 																									expr: &litMatcher{
-																										pos:        position{line: 790, col: 16, offset: 25326},
+																										pos:        position{line: 790, col: 16, offset: 25358},
 																										val:        "--",
 																										ignoreCase: false,
 																										want:       "\"--\"",
@@ -34718,12 +34718,12 @@ var g = &grammar{
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 792, col: 8, offset: 25403},
+																								pos: position{line: 792, col: 8, offset: 25435},
 																								expr: &actionExpr{
-																									pos: position{line: 2896, col: 10, offset: 91577},
+																									pos: position{line: 2905, col: 10, offset: 91835},
 																									run: (*parser).callonListContinuationElement1025,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2896, col: 10, offset: 91577},
+																										pos:        position{line: 2905, col: 10, offset: 91835},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34732,28 +34732,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2918, col: 8, offset: 91975},
+																								pos: position{line: 2927, col: 8, offset: 92233},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2905, col: 12, offset: 91748},
+																										pos: position{line: 2914, col: 12, offset: 92006},
 																										run: (*parser).callonListContinuationElement1028,
 																										expr: &choiceExpr{
-																											pos: position{line: 2905, col: 13, offset: 91749},
+																											pos: position{line: 2914, col: 13, offset: 92007},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 13, offset: 91749},
+																													pos:        position{line: 2914, col: 13, offset: 92007},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 20, offset: 91756},
+																													pos:        position{line: 2914, col: 20, offset: 92014},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 29, offset: 91765},
+																													pos:        position{line: 2914, col: 29, offset: 92023},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34762,9 +34762,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2915, col: 8, offset: 91925},
+																										pos: position{line: 2924, col: 8, offset: 92183},
 																										expr: &anyMatcher{
-																											line: 2915, col: 9, offset: 91926,
+																											line: 2924, col: 9, offset: 92184,
 																										},
 																									},
 																								},
@@ -34773,39 +34773,39 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1035, col: 5, offset: 32137},
+																		pos:   position{line: 1035, col: 5, offset: 32169},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 825, col: 5, offset: 26542},
+																			pos: position{line: 825, col: 5, offset: 26574},
 																			run: (*parser).callonListContinuationElement1038,
 																			expr: &seqExpr{
-																				pos: position{line: 825, col: 5, offset: 26542},
+																				pos: position{line: 825, col: 5, offset: 26574},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2913, col: 11, offset: 91911},
+																						pos: position{line: 2922, col: 11, offset: 92169},
 																						expr: &anyMatcher{
-																							line: 2913, col: 13, offset: 91913,
+																							line: 2922, col: 13, offset: 92171,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 826, col: 5, offset: 26617},
+																						pos:   position{line: 826, col: 5, offset: 26649},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2842, col: 13, offset: 90103},
+																							pos: position{line: 2851, col: 13, offset: 90361},
 																							run: (*parser).callonListContinuationElement1043,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2842, col: 13, offset: 90103},
+																									pos:        position{line: 2851, col: 13, offset: 90361},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34815,28 +34815,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2918, col: 8, offset: 91975},
+																						pos: position{line: 2927, col: 8, offset: 92233},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2905, col: 12, offset: 91748},
+																								pos: position{line: 2914, col: 12, offset: 92006},
 																								run: (*parser).callonListContinuationElement1047,
 																								expr: &choiceExpr{
-																									pos: position{line: 2905, col: 13, offset: 91749},
+																									pos: position{line: 2914, col: 13, offset: 92007},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 13, offset: 91749},
+																											pos:        position{line: 2914, col: 13, offset: 92007},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 20, offset: 91756},
+																											pos:        position{line: 2914, col: 20, offset: 92014},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 29, offset: 91765},
+																											pos:        position{line: 2914, col: 29, offset: 92023},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34845,9 +34845,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2915, col: 8, offset: 91925},
+																								pos: position{line: 2924, col: 8, offset: 92183},
 																								expr: &anyMatcher{
-																									line: 2915, col: 9, offset: 91926,
+																									line: 2924, col: 9, offset: 92184,
 																								},
 																							},
 																						},
@@ -34862,27 +34862,27 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1025, col: 5, offset: 31872},
+													pos:   position{line: 1025, col: 5, offset: 31904},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1025, col: 9, offset: 31876},
+														pos: position{line: 1025, col: 9, offset: 31908},
 														expr: &choiceExpr{
-															pos: position{line: 1031, col: 26, offset: 32058},
+															pos: position{line: 1031, col: 26, offset: 32090},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 790, col: 5, offset: 25315},
+																	pos: position{line: 790, col: 5, offset: 25347},
 																	run: (*parser).callonListContinuationElement1057,
 																	expr: &seqExpr{
-																		pos: position{line: 790, col: 5, offset: 25315},
+																		pos: position{line: 790, col: 5, offset: 25347},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 790, col: 5, offset: 25315},
+																				pos:   position{line: 790, col: 5, offset: 25347},
 																				label: "delimiter",
 																				expr: &actionExpr{
-																					pos: position{line: 790, col: 16, offset: 25326},
+																					pos: position{line: 790, col: 16, offset: 25358},
 																					run: (*parser).callonListContinuationElement1060,
 																					expr: &litMatcher{
-																						pos:        position{line: 790, col: 16, offset: 25326},
+																						pos:        position{line: 790, col: 16, offset: 25358},
 																						val:        "--",
 																						ignoreCase: false,
 																						want:       "\"--\"",
@@ -34890,12 +34890,12 @@ var g = &grammar{
 																				},
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 792, col: 8, offset: 25403},
+																				pos: position{line: 792, col: 8, offset: 25435},
 																				expr: &actionExpr{
-																					pos: position{line: 2896, col: 10, offset: 91577},
+																					pos: position{line: 2905, col: 10, offset: 91835},
 																					run: (*parser).callonListContinuationElement1063,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2896, col: 10, offset: 91577},
+																						pos:        position{line: 2905, col: 10, offset: 91835},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34904,28 +34904,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2918, col: 8, offset: 91975},
+																				pos: position{line: 2927, col: 8, offset: 92233},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2905, col: 12, offset: 91748},
+																						pos: position{line: 2914, col: 12, offset: 92006},
 																						run: (*parser).callonListContinuationElement1066,
 																						expr: &choiceExpr{
-																							pos: position{line: 2905, col: 13, offset: 91749},
+																							pos: position{line: 2914, col: 13, offset: 92007},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2905, col: 13, offset: 91749},
+																									pos:        position{line: 2914, col: 13, offset: 92007},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2905, col: 20, offset: 91756},
+																									pos:        position{line: 2914, col: 20, offset: 92014},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2905, col: 29, offset: 91765},
+																									pos:        position{line: 2914, col: 29, offset: 92023},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34934,9 +34934,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2915, col: 8, offset: 91925},
+																						pos: position{line: 2924, col: 8, offset: 92183},
 																						expr: &anyMatcher{
-																							line: 2915, col: 9, offset: 91926,
+																							line: 2924, col: 9, offset: 92184,
 																						},
 																					},
 																				},
@@ -34945,9 +34945,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2915, col: 8, offset: 91925},
+																	pos: position{line: 2924, col: 8, offset: 92183},
 																	expr: &anyMatcher{
-																		line: 2915, col: 9, offset: 91926,
+																		line: 2924, col: 9, offset: 92184,
 																	},
 																},
 															},
@@ -34958,39 +34958,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1043, col: 5, offset: 32300},
+										pos: position{line: 1043, col: 5, offset: 32332},
 										run: (*parser).callonListContinuationElement1075,
 										expr: &seqExpr{
-											pos: position{line: 1043, col: 5, offset: 32300},
+											pos: position{line: 1043, col: 5, offset: 32332},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1043, col: 5, offset: 32300},
+													pos:   position{line: 1043, col: 5, offset: 32332},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 804, col: 5, offset: 25798},
+														pos: position{line: 804, col: 5, offset: 25830},
 														run: (*parser).callonListContinuationElement1078,
 														expr: &seqExpr{
-															pos: position{line: 804, col: 5, offset: 25798},
+															pos: position{line: 804, col: 5, offset: 25830},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 804, col: 5, offset: 25798},
+																	pos:   position{line: 804, col: 5, offset: 25830},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 804, col: 16, offset: 25809},
+																		pos: position{line: 804, col: 16, offset: 25841},
 																		run: (*parser).callonListContinuationElement1081,
 																		expr: &seqExpr{
-																			pos: position{line: 804, col: 16, offset: 25809},
+																			pos: position{line: 804, col: 16, offset: 25841},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 804, col: 16, offset: 25809},
+																					pos:        position{line: 804, col: 16, offset: 25841},
 																					val:        "++++",
 																					ignoreCase: false,
 																					want:       "\"++++\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 804, col: 23, offset: 25816},
+																					pos: position{line: 804, col: 23, offset: 25848},
 																					expr: &litMatcher{
-																						pos:        position{line: 804, col: 23, offset: 25816},
+																						pos:        position{line: 804, col: 23, offset: 25848},
 																						val:        "+",
 																						ignoreCase: false,
 																						want:       "\"+\"",
@@ -35001,12 +35001,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 806, col: 8, offset: 25900},
+																	pos: position{line: 806, col: 8, offset: 25932},
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 10, offset: 91577},
+																		pos: position{line: 2905, col: 10, offset: 91835},
 																		run: (*parser).callonListContinuationElement1087,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 10, offset: 91577},
+																			pos:        position{line: 2905, col: 10, offset: 91835},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35015,28 +35015,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonListContinuationElement1090,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35045,9 +35045,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -35057,56 +35057,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1044, col: 5, offset: 32343},
+													pos: position{line: 1044, col: 5, offset: 32375},
 													run: (*parser).callonListContinuationElement1097,
 												},
 												&labeledExpr{
-													pos:   position{line: 1047, col: 5, offset: 32435},
+													pos:   position{line: 1047, col: 5, offset: 32467},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1062, col: 5, offset: 32865},
+														pos: position{line: 1062, col: 5, offset: 32897},
 														expr: &actionExpr{
-															pos: position{line: 1062, col: 6, offset: 32866},
+															pos: position{line: 1062, col: 6, offset: 32898},
 															run: (*parser).callonListContinuationElement1100,
 															expr: &seqExpr{
-																pos: position{line: 1062, col: 6, offset: 32866},
+																pos: position{line: 1062, col: 6, offset: 32898},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1062, col: 6, offset: 32866},
+																		pos: position{line: 1062, col: 6, offset: 32898},
 																		expr: &choiceExpr{
-																			pos: position{line: 1055, col: 5, offset: 32699},
+																			pos: position{line: 1055, col: 5, offset: 32731},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1055, col: 5, offset: 32699},
+																					pos: position{line: 1055, col: 5, offset: 32731},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1055, col: 5, offset: 32699},
+																							pos:   position{line: 1055, col: 5, offset: 32731},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 5, offset: 25798},
+																								pos: position{line: 804, col: 5, offset: 25830},
 																								run: (*parser).callonListContinuationElement1106,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 5, offset: 25798},
+																									pos: position{line: 804, col: 5, offset: 25830},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 804, col: 5, offset: 25798},
+																											pos:   position{line: 804, col: 5, offset: 25830},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 804, col: 16, offset: 25809},
+																												pos: position{line: 804, col: 16, offset: 25841},
 																												run: (*parser).callonListContinuationElement1109,
 																												expr: &seqExpr{
-																													pos: position{line: 804, col: 16, offset: 25809},
+																													pos: position{line: 804, col: 16, offset: 25841},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 804, col: 16, offset: 25809},
+																															pos:        position{line: 804, col: 16, offset: 25841},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 804, col: 23, offset: 25816},
+																															pos: position{line: 804, col: 23, offset: 25848},
 																															expr: &litMatcher{
-																																pos:        position{line: 804, col: 23, offset: 25816},
+																																pos:        position{line: 804, col: 23, offset: 25848},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -35117,12 +35117,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 8, offset: 25900},
+																											pos: position{line: 806, col: 8, offset: 25932},
 																											expr: &actionExpr{
-																												pos: position{line: 2896, col: 10, offset: 91577},
+																												pos: position{line: 2905, col: 10, offset: 91835},
 																												run: (*parser).callonListContinuationElement1115,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2896, col: 10, offset: 91577},
+																													pos:        position{line: 2905, col: 10, offset: 91835},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35131,28 +35131,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2918, col: 8, offset: 91975},
+																											pos: position{line: 2927, col: 8, offset: 92233},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2905, col: 12, offset: 91748},
+																													pos: position{line: 2914, col: 12, offset: 92006},
 																													run: (*parser).callonListContinuationElement1118,
 																													expr: &choiceExpr{
-																														pos: position{line: 2905, col: 13, offset: 91749},
+																														pos: position{line: 2914, col: 13, offset: 92007},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 13, offset: 91749},
+																																pos:        position{line: 2914, col: 13, offset: 92007},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 20, offset: 91756},
+																																pos:        position{line: 2914, col: 20, offset: 92014},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 29, offset: 91765},
+																																pos:        position{line: 2914, col: 29, offset: 92023},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35161,9 +35161,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2915, col: 8, offset: 91925},
+																													pos: position{line: 2924, col: 8, offset: 92183},
 																													expr: &anyMatcher{
-																														line: 2915, col: 9, offset: 91926,
+																														line: 2924, col: 9, offset: 92184,
 																													},
 																												},
 																											},
@@ -35173,45 +35173,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1056, col: 5, offset: 32734},
+																							pos: position{line: 1056, col: 5, offset: 32766},
 																							run: (*parser).callonListContinuationElement1125,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1063, col: 5, offset: 32900},
+																		pos:   position{line: 1063, col: 5, offset: 32932},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 825, col: 5, offset: 26542},
+																			pos: position{line: 825, col: 5, offset: 26574},
 																			run: (*parser).callonListContinuationElement1129,
 																			expr: &seqExpr{
-																				pos: position{line: 825, col: 5, offset: 26542},
+																				pos: position{line: 825, col: 5, offset: 26574},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2913, col: 11, offset: 91911},
+																						pos: position{line: 2922, col: 11, offset: 92169},
 																						expr: &anyMatcher{
-																							line: 2913, col: 13, offset: 91913,
+																							line: 2922, col: 13, offset: 92171,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 826, col: 5, offset: 26617},
+																						pos:   position{line: 826, col: 5, offset: 26649},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2842, col: 13, offset: 90103},
+																							pos: position{line: 2851, col: 13, offset: 90361},
 																							run: (*parser).callonListContinuationElement1134,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2842, col: 13, offset: 90103},
+																									pos:        position{line: 2851, col: 13, offset: 90361},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35221,28 +35221,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2918, col: 8, offset: 91975},
+																						pos: position{line: 2927, col: 8, offset: 92233},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2905, col: 12, offset: 91748},
+																								pos: position{line: 2914, col: 12, offset: 92006},
 																								run: (*parser).callonListContinuationElement1138,
 																								expr: &choiceExpr{
-																									pos: position{line: 2905, col: 13, offset: 91749},
+																									pos: position{line: 2914, col: 13, offset: 92007},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 13, offset: 91749},
+																											pos:        position{line: 2914, col: 13, offset: 92007},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 20, offset: 91756},
+																											pos:        position{line: 2914, col: 20, offset: 92014},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 29, offset: 91765},
+																											pos:        position{line: 2914, col: 29, offset: 92023},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35251,9 +35251,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2915, col: 8, offset: 91925},
+																								pos: position{line: 2924, col: 8, offset: 92183},
 																								expr: &anyMatcher{
-																									line: 2915, col: 9, offset: 91926,
+																									line: 2924, col: 9, offset: 92184,
 																								},
 																							},
 																						},
@@ -35268,44 +35268,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1048, col: 5, offset: 32473},
+													pos:   position{line: 1048, col: 5, offset: 32505},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1048, col: 9, offset: 32477},
+														pos: position{line: 1048, col: 9, offset: 32509},
 														expr: &choiceExpr{
-															pos: position{line: 1055, col: 5, offset: 32699},
+															pos: position{line: 1055, col: 5, offset: 32731},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1055, col: 5, offset: 32699},
+																	pos: position{line: 1055, col: 5, offset: 32731},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1055, col: 5, offset: 32699},
+																			pos:   position{line: 1055, col: 5, offset: 32731},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 804, col: 5, offset: 25798},
+																				pos: position{line: 804, col: 5, offset: 25830},
 																				run: (*parser).callonListContinuationElement1150,
 																				expr: &seqExpr{
-																					pos: position{line: 804, col: 5, offset: 25798},
+																					pos: position{line: 804, col: 5, offset: 25830},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 804, col: 5, offset: 25798},
+																							pos:   position{line: 804, col: 5, offset: 25830},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 804, col: 16, offset: 25809},
+																								pos: position{line: 804, col: 16, offset: 25841},
 																								run: (*parser).callonListContinuationElement1153,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 16, offset: 25809},
+																									pos: position{line: 804, col: 16, offset: 25841},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 804, col: 16, offset: 25809},
+																											pos:        position{line: 804, col: 16, offset: 25841},
 																											val:        "++++",
 																											ignoreCase: false,
 																											want:       "\"++++\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 804, col: 23, offset: 25816},
+																											pos: position{line: 804, col: 23, offset: 25848},
 																											expr: &litMatcher{
-																												pos:        position{line: 804, col: 23, offset: 25816},
+																												pos:        position{line: 804, col: 23, offset: 25848},
 																												val:        "+",
 																												ignoreCase: false,
 																												want:       "\"+\"",
@@ -35316,12 +35316,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 806, col: 8, offset: 25900},
+																							pos: position{line: 806, col: 8, offset: 25932},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonListContinuationElement1159,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35330,28 +35330,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonListContinuationElement1162,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35360,9 +35360,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -35372,15 +35372,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1056, col: 5, offset: 32734},
+																			pos: position{line: 1056, col: 5, offset: 32766},
 																			run: (*parser).callonListContinuationElement1169,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2915, col: 8, offset: 91925},
+																	pos: position{line: 2924, col: 8, offset: 92183},
 																	expr: &anyMatcher{
-																		line: 2915, col: 9, offset: 91926,
+																		line: 2924, col: 9, offset: 92184,
 																	},
 																},
 															},
@@ -35391,39 +35391,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1071, col: 5, offset: 33051},
+										pos: position{line: 1071, col: 5, offset: 33083},
 										run: (*parser).callonListContinuationElement1172,
 										expr: &seqExpr{
-											pos: position{line: 1071, col: 5, offset: 33051},
+											pos: position{line: 1071, col: 5, offset: 33083},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1071, col: 5, offset: 33051},
+													pos:   position{line: 1071, col: 5, offset: 33083},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 811, col: 5, offset: 26048},
+														pos: position{line: 811, col: 5, offset: 26080},
 														run: (*parser).callonListContinuationElement1175,
 														expr: &seqExpr{
-															pos: position{line: 811, col: 5, offset: 26048},
+															pos: position{line: 811, col: 5, offset: 26080},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 811, col: 5, offset: 26048},
+																	pos:   position{line: 811, col: 5, offset: 26080},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 811, col: 16, offset: 26059},
+																		pos: position{line: 811, col: 16, offset: 26091},
 																		run: (*parser).callonListContinuationElement1178,
 																		expr: &seqExpr{
-																			pos: position{line: 811, col: 16, offset: 26059},
+																			pos: position{line: 811, col: 16, offset: 26091},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 811, col: 16, offset: 26059},
+																					pos:        position{line: 811, col: 16, offset: 26091},
 																					val:        "____",
 																					ignoreCase: false,
 																					want:       "\"____\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 811, col: 23, offset: 26066},
+																					pos: position{line: 811, col: 23, offset: 26098},
 																					expr: &litMatcher{
-																						pos:        position{line: 811, col: 23, offset: 26066},
+																						pos:        position{line: 811, col: 23, offset: 26098},
 																						val:        "_",
 																						ignoreCase: false,
 																						want:       "\"_\"",
@@ -35434,12 +35434,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 813, col: 8, offset: 26150},
+																	pos: position{line: 813, col: 8, offset: 26182},
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 10, offset: 91577},
+																		pos: position{line: 2905, col: 10, offset: 91835},
 																		run: (*parser).callonListContinuationElement1184,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 10, offset: 91577},
+																			pos:        position{line: 2905, col: 10, offset: 91835},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35448,28 +35448,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonListContinuationElement1187,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35478,9 +35478,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -35490,56 +35490,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1072, col: 5, offset: 33088},
+													pos: position{line: 1072, col: 5, offset: 33120},
 													run: (*parser).callonListContinuationElement1194,
 												},
 												&labeledExpr{
-													pos:   position{line: 1075, col: 5, offset: 33180},
+													pos:   position{line: 1075, col: 5, offset: 33212},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1090, col: 4, offset: 33561},
+														pos: position{line: 1090, col: 4, offset: 33593},
 														expr: &actionExpr{
-															pos: position{line: 1090, col: 5, offset: 33562},
+															pos: position{line: 1090, col: 5, offset: 33594},
 															run: (*parser).callonListContinuationElement1197,
 															expr: &seqExpr{
-																pos: position{line: 1090, col: 5, offset: 33562},
+																pos: position{line: 1090, col: 5, offset: 33594},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1090, col: 5, offset: 33562},
+																		pos: position{line: 1090, col: 5, offset: 33594},
 																		expr: &choiceExpr{
-																			pos: position{line: 1083, col: 5, offset: 33408},
+																			pos: position{line: 1083, col: 5, offset: 33440},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1083, col: 5, offset: 33408},
+																					pos: position{line: 1083, col: 5, offset: 33440},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1083, col: 5, offset: 33408},
+																							pos:   position{line: 1083, col: 5, offset: 33440},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 811, col: 5, offset: 26048},
+																								pos: position{line: 811, col: 5, offset: 26080},
 																								run: (*parser).callonListContinuationElement1203,
 																								expr: &seqExpr{
-																									pos: position{line: 811, col: 5, offset: 26048},
+																									pos: position{line: 811, col: 5, offset: 26080},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 811, col: 5, offset: 26048},
+																											pos:   position{line: 811, col: 5, offset: 26080},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 811, col: 16, offset: 26059},
+																												pos: position{line: 811, col: 16, offset: 26091},
 																												run: (*parser).callonListContinuationElement1206,
 																												expr: &seqExpr{
-																													pos: position{line: 811, col: 16, offset: 26059},
+																													pos: position{line: 811, col: 16, offset: 26091},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 811, col: 16, offset: 26059},
+																															pos:        position{line: 811, col: 16, offset: 26091},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 811, col: 23, offset: 26066},
+																															pos: position{line: 811, col: 23, offset: 26098},
 																															expr: &litMatcher{
-																																pos:        position{line: 811, col: 23, offset: 26066},
+																																pos:        position{line: 811, col: 23, offset: 26098},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -35550,12 +35550,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 813, col: 8, offset: 26150},
+																											pos: position{line: 813, col: 8, offset: 26182},
 																											expr: &actionExpr{
-																												pos: position{line: 2896, col: 10, offset: 91577},
+																												pos: position{line: 2905, col: 10, offset: 91835},
 																												run: (*parser).callonListContinuationElement1212,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2896, col: 10, offset: 91577},
+																													pos:        position{line: 2905, col: 10, offset: 91835},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35564,28 +35564,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2918, col: 8, offset: 91975},
+																											pos: position{line: 2927, col: 8, offset: 92233},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2905, col: 12, offset: 91748},
+																													pos: position{line: 2914, col: 12, offset: 92006},
 																													run: (*parser).callonListContinuationElement1215,
 																													expr: &choiceExpr{
-																														pos: position{line: 2905, col: 13, offset: 91749},
+																														pos: position{line: 2914, col: 13, offset: 92007},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 13, offset: 91749},
+																																pos:        position{line: 2914, col: 13, offset: 92007},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 20, offset: 91756},
+																																pos:        position{line: 2914, col: 20, offset: 92014},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 29, offset: 91765},
+																																pos:        position{line: 2914, col: 29, offset: 92023},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35594,9 +35594,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2915, col: 8, offset: 91925},
+																													pos: position{line: 2924, col: 8, offset: 92183},
 																													expr: &anyMatcher{
-																														line: 2915, col: 9, offset: 91926,
+																														line: 2924, col: 9, offset: 92184,
 																													},
 																												},
 																											},
@@ -35606,45 +35606,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1084, col: 5, offset: 33437},
+																							pos: position{line: 1084, col: 5, offset: 33469},
 																							run: (*parser).callonListContinuationElement1222,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1091, col: 5, offset: 33590},
+																		pos:   position{line: 1091, col: 5, offset: 33622},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 825, col: 5, offset: 26542},
+																			pos: position{line: 825, col: 5, offset: 26574},
 																			run: (*parser).callonListContinuationElement1226,
 																			expr: &seqExpr{
-																				pos: position{line: 825, col: 5, offset: 26542},
+																				pos: position{line: 825, col: 5, offset: 26574},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2913, col: 11, offset: 91911},
+																						pos: position{line: 2922, col: 11, offset: 92169},
 																						expr: &anyMatcher{
-																							line: 2913, col: 13, offset: 91913,
+																							line: 2922, col: 13, offset: 92171,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 826, col: 5, offset: 26617},
+																						pos:   position{line: 826, col: 5, offset: 26649},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2842, col: 13, offset: 90103},
+																							pos: position{line: 2851, col: 13, offset: 90361},
 																							run: (*parser).callonListContinuationElement1231,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2842, col: 13, offset: 90103},
+																									pos:        position{line: 2851, col: 13, offset: 90361},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35654,28 +35654,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2918, col: 8, offset: 91975},
+																						pos: position{line: 2927, col: 8, offset: 92233},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2905, col: 12, offset: 91748},
+																								pos: position{line: 2914, col: 12, offset: 92006},
 																								run: (*parser).callonListContinuationElement1235,
 																								expr: &choiceExpr{
-																									pos: position{line: 2905, col: 13, offset: 91749},
+																									pos: position{line: 2914, col: 13, offset: 92007},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 13, offset: 91749},
+																											pos:        position{line: 2914, col: 13, offset: 92007},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 20, offset: 91756},
+																											pos:        position{line: 2914, col: 20, offset: 92014},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 29, offset: 91765},
+																											pos:        position{line: 2914, col: 29, offset: 92023},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35684,9 +35684,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2915, col: 8, offset: 91925},
+																								pos: position{line: 2924, col: 8, offset: 92183},
 																								expr: &anyMatcher{
-																									line: 2915, col: 9, offset: 91926,
+																									line: 2924, col: 9, offset: 92184,
 																								},
 																							},
 																						},
@@ -35701,44 +35701,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1076, col: 5, offset: 33212},
+													pos:   position{line: 1076, col: 5, offset: 33244},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1076, col: 9, offset: 33216},
+														pos: position{line: 1076, col: 9, offset: 33248},
 														expr: &choiceExpr{
-															pos: position{line: 1083, col: 5, offset: 33408},
+															pos: position{line: 1083, col: 5, offset: 33440},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1083, col: 5, offset: 33408},
+																	pos: position{line: 1083, col: 5, offset: 33440},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1083, col: 5, offset: 33408},
+																			pos:   position{line: 1083, col: 5, offset: 33440},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 811, col: 5, offset: 26048},
+																				pos: position{line: 811, col: 5, offset: 26080},
 																				run: (*parser).callonListContinuationElement1247,
 																				expr: &seqExpr{
-																					pos: position{line: 811, col: 5, offset: 26048},
+																					pos: position{line: 811, col: 5, offset: 26080},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 811, col: 5, offset: 26048},
+																							pos:   position{line: 811, col: 5, offset: 26080},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 811, col: 16, offset: 26059},
+																								pos: position{line: 811, col: 16, offset: 26091},
 																								run: (*parser).callonListContinuationElement1250,
 																								expr: &seqExpr{
-																									pos: position{line: 811, col: 16, offset: 26059},
+																									pos: position{line: 811, col: 16, offset: 26091},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 811, col: 16, offset: 26059},
+																											pos:        position{line: 811, col: 16, offset: 26091},
 																											val:        "____",
 																											ignoreCase: false,
 																											want:       "\"____\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 811, col: 23, offset: 26066},
+																											pos: position{line: 811, col: 23, offset: 26098},
 																											expr: &litMatcher{
-																												pos:        position{line: 811, col: 23, offset: 26066},
+																												pos:        position{line: 811, col: 23, offset: 26098},
 																												val:        "_",
 																												ignoreCase: false,
 																												want:       "\"_\"",
@@ -35749,12 +35749,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 813, col: 8, offset: 26150},
+																							pos: position{line: 813, col: 8, offset: 26182},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonListContinuationElement1256,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35763,28 +35763,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonListContinuationElement1259,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35793,9 +35793,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -35805,15 +35805,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1084, col: 5, offset: 33437},
+																			pos: position{line: 1084, col: 5, offset: 33469},
 																			run: (*parser).callonListContinuationElement1266,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2915, col: 8, offset: 91925},
+																	pos: position{line: 2924, col: 8, offset: 92183},
 																	expr: &anyMatcher{
-																		line: 2915, col: 9, offset: 91926,
+																		line: 2924, col: 9, offset: 92184,
 																	},
 																},
 															},
@@ -35824,39 +35824,39 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1099, col: 5, offset: 33745},
+										pos: position{line: 1099, col: 5, offset: 33777},
 										run: (*parser).callonListContinuationElement1269,
 										expr: &seqExpr{
-											pos: position{line: 1099, col: 5, offset: 33745},
+											pos: position{line: 1099, col: 5, offset: 33777},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1099, col: 5, offset: 33745},
+													pos:   position{line: 1099, col: 5, offset: 33777},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 818, col: 5, offset: 26294},
+														pos: position{line: 818, col: 5, offset: 26326},
 														run: (*parser).callonListContinuationElement1272,
 														expr: &seqExpr{
-															pos: position{line: 818, col: 5, offset: 26294},
+															pos: position{line: 818, col: 5, offset: 26326},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 818, col: 5, offset: 26294},
+																	pos:   position{line: 818, col: 5, offset: 26326},
 																	label: "delimiter",
 																	expr: &actionExpr{
-																		pos: position{line: 818, col: 16, offset: 26305},
+																		pos: position{line: 818, col: 16, offset: 26337},
 																		run: (*parser).callonListContinuationElement1275,
 																		expr: &seqExpr{
-																			pos: position{line: 818, col: 16, offset: 26305},
+																			pos: position{line: 818, col: 16, offset: 26337},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 818, col: 16, offset: 26305},
+																					pos:        position{line: 818, col: 16, offset: 26337},
 																					val:        "****",
 																					ignoreCase: false,
 																					want:       "\"****\"",
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 818, col: 23, offset: 26312},
+																					pos: position{line: 818, col: 23, offset: 26344},
 																					expr: &litMatcher{
-																						pos:        position{line: 818, col: 23, offset: 26312},
+																						pos:        position{line: 818, col: 23, offset: 26344},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -35867,12 +35867,12 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 820, col: 8, offset: 26396},
+																	pos: position{line: 820, col: 8, offset: 26428},
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 10, offset: 91577},
+																		pos: position{line: 2905, col: 10, offset: 91835},
 																		run: (*parser).callonListContinuationElement1281,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 10, offset: 91577},
+																			pos:        position{line: 2905, col: 10, offset: 91835},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35881,28 +35881,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonListContinuationElement1284,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35911,9 +35911,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -35923,56 +35923,56 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1100, col: 5, offset: 33784},
+													pos: position{line: 1100, col: 5, offset: 33816},
 													run: (*parser).callonListContinuationElement1291,
 												},
 												&labeledExpr{
-													pos:   position{line: 1103, col: 5, offset: 33876},
+													pos:   position{line: 1103, col: 5, offset: 33908},
 													label: "content",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 1118, col: 4, offset: 34273},
+														pos: position{line: 1118, col: 4, offset: 34305},
 														expr: &actionExpr{
-															pos: position{line: 1118, col: 5, offset: 34274},
+															pos: position{line: 1118, col: 5, offset: 34306},
 															run: (*parser).callonListContinuationElement1294,
 															expr: &seqExpr{
-																pos: position{line: 1118, col: 5, offset: 34274},
+																pos: position{line: 1118, col: 5, offset: 34306},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 1118, col: 5, offset: 34274},
+																		pos: position{line: 1118, col: 5, offset: 34306},
 																		expr: &choiceExpr{
-																			pos: position{line: 1111, col: 5, offset: 34116},
+																			pos: position{line: 1111, col: 5, offset: 34148},
 																			alternatives: []interface{}{
 																				&seqExpr{
-																					pos: position{line: 1111, col: 5, offset: 34116},
+																					pos: position{line: 1111, col: 5, offset: 34148},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1111, col: 5, offset: 34116},
+																							pos:   position{line: 1111, col: 5, offset: 34148},
 																							label: "end",
 																							expr: &actionExpr{
-																								pos: position{line: 818, col: 5, offset: 26294},
+																								pos: position{line: 818, col: 5, offset: 26326},
 																								run: (*parser).callonListContinuationElement1300,
 																								expr: &seqExpr{
-																									pos: position{line: 818, col: 5, offset: 26294},
+																									pos: position{line: 818, col: 5, offset: 26326},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 818, col: 5, offset: 26294},
+																											pos:   position{line: 818, col: 5, offset: 26326},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 818, col: 16, offset: 26305},
+																												pos: position{line: 818, col: 16, offset: 26337},
 																												run: (*parser).callonListContinuationElement1303,
 																												expr: &seqExpr{
-																													pos: position{line: 818, col: 16, offset: 26305},
+																													pos: position{line: 818, col: 16, offset: 26337},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 818, col: 16, offset: 26305},
+																															pos:        position{line: 818, col: 16, offset: 26337},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 818, col: 23, offset: 26312},
+																															pos: position{line: 818, col: 23, offset: 26344},
 																															expr: &litMatcher{
-																																pos:        position{line: 818, col: 23, offset: 26312},
+																																pos:        position{line: 818, col: 23, offset: 26344},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -35983,12 +35983,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 820, col: 8, offset: 26396},
+																											pos: position{line: 820, col: 8, offset: 26428},
 																											expr: &actionExpr{
-																												pos: position{line: 2896, col: 10, offset: 91577},
+																												pos: position{line: 2905, col: 10, offset: 91835},
 																												run: (*parser).callonListContinuationElement1309,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2896, col: 10, offset: 91577},
+																													pos:        position{line: 2905, col: 10, offset: 91835},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35997,28 +35997,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2918, col: 8, offset: 91975},
+																											pos: position{line: 2927, col: 8, offset: 92233},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2905, col: 12, offset: 91748},
+																													pos: position{line: 2914, col: 12, offset: 92006},
 																													run: (*parser).callonListContinuationElement1312,
 																													expr: &choiceExpr{
-																														pos: position{line: 2905, col: 13, offset: 91749},
+																														pos: position{line: 2914, col: 13, offset: 92007},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 13, offset: 91749},
+																																pos:        position{line: 2914, col: 13, offset: 92007},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 20, offset: 91756},
+																																pos:        position{line: 2914, col: 20, offset: 92014},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 29, offset: 91765},
+																																pos:        position{line: 2914, col: 29, offset: 92023},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36027,9 +36027,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2915, col: 8, offset: 91925},
+																													pos: position{line: 2924, col: 8, offset: 92183},
 																													expr: &anyMatcher{
-																														line: 2915, col: 9, offset: 91926,
+																														line: 2924, col: 9, offset: 92184,
 																													},
 																												},
 																											},
@@ -36039,45 +36039,45 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1112, col: 5, offset: 34147},
+																							pos: position{line: 1112, col: 5, offset: 34179},
 																							run: (*parser).callonListContinuationElement1319,
 																						},
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1119, col: 5, offset: 34304},
+																		pos:   position{line: 1119, col: 5, offset: 34336},
 																		label: "line",
 																		expr: &actionExpr{
-																			pos: position{line: 825, col: 5, offset: 26542},
+																			pos: position{line: 825, col: 5, offset: 26574},
 																			run: (*parser).callonListContinuationElement1323,
 																			expr: &seqExpr{
-																				pos: position{line: 825, col: 5, offset: 26542},
+																				pos: position{line: 825, col: 5, offset: 26574},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2913, col: 11, offset: 91911},
+																						pos: position{line: 2922, col: 11, offset: 92169},
 																						expr: &anyMatcher{
-																							line: 2913, col: 13, offset: 91913,
+																							line: 2922, col: 13, offset: 92171,
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 826, col: 5, offset: 26617},
+																						pos:   position{line: 826, col: 5, offset: 26649},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2842, col: 13, offset: 90103},
+																							pos: position{line: 2851, col: 13, offset: 90361},
 																							run: (*parser).callonListContinuationElement1328,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2842, col: 13, offset: 90103},
+																									pos:        position{line: 2851, col: 13, offset: 90361},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36087,28 +36087,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2918, col: 8, offset: 91975},
+																						pos: position{line: 2927, col: 8, offset: 92233},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2905, col: 12, offset: 91748},
+																								pos: position{line: 2914, col: 12, offset: 92006},
 																								run: (*parser).callonListContinuationElement1332,
 																								expr: &choiceExpr{
-																									pos: position{line: 2905, col: 13, offset: 91749},
+																									pos: position{line: 2914, col: 13, offset: 92007},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 13, offset: 91749},
+																											pos:        position{line: 2914, col: 13, offset: 92007},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 20, offset: 91756},
+																											pos:        position{line: 2914, col: 20, offset: 92014},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 29, offset: 91765},
+																											pos:        position{line: 2914, col: 29, offset: 92023},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36117,9 +36117,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2915, col: 8, offset: 91925},
+																								pos: position{line: 2924, col: 8, offset: 92183},
 																								expr: &anyMatcher{
-																									line: 2915, col: 9, offset: 91926,
+																									line: 2924, col: 9, offset: 92184,
 																								},
 																							},
 																						},
@@ -36134,44 +36134,44 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1104, col: 5, offset: 33910},
+													pos:   position{line: 1104, col: 5, offset: 33942},
 													label: "end",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1104, col: 9, offset: 33914},
+														pos: position{line: 1104, col: 9, offset: 33946},
 														expr: &choiceExpr{
-															pos: position{line: 1111, col: 5, offset: 34116},
+															pos: position{line: 1111, col: 5, offset: 34148},
 															alternatives: []interface{}{
 																&seqExpr{
-																	pos: position{line: 1111, col: 5, offset: 34116},
+																	pos: position{line: 1111, col: 5, offset: 34148},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1111, col: 5, offset: 34116},
+																			pos:   position{line: 1111, col: 5, offset: 34148},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 818, col: 5, offset: 26294},
+																				pos: position{line: 818, col: 5, offset: 26326},
 																				run: (*parser).callonListContinuationElement1344,
 																				expr: &seqExpr{
-																					pos: position{line: 818, col: 5, offset: 26294},
+																					pos: position{line: 818, col: 5, offset: 26326},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 818, col: 5, offset: 26294},
+																							pos:   position{line: 818, col: 5, offset: 26326},
 																							label: "delimiter",
 																							expr: &actionExpr{
-																								pos: position{line: 818, col: 16, offset: 26305},
+																								pos: position{line: 818, col: 16, offset: 26337},
 																								run: (*parser).callonListContinuationElement1347,
 																								expr: &seqExpr{
-																									pos: position{line: 818, col: 16, offset: 26305},
+																									pos: position{line: 818, col: 16, offset: 26337},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 818, col: 16, offset: 26305},
+																											pos:        position{line: 818, col: 16, offset: 26337},
 																											val:        "****",
 																											ignoreCase: false,
 																											want:       "\"****\"",
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 818, col: 23, offset: 26312},
+																											pos: position{line: 818, col: 23, offset: 26344},
 																											expr: &litMatcher{
-																												pos:        position{line: 818, col: 23, offset: 26312},
+																												pos:        position{line: 818, col: 23, offset: 26344},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -36182,12 +36182,12 @@ var g = &grammar{
 																							},
 																						},
 																						&zeroOrMoreExpr{
-																							pos: position{line: 820, col: 8, offset: 26396},
+																							pos: position{line: 820, col: 8, offset: 26428},
 																							expr: &actionExpr{
-																								pos: position{line: 2896, col: 10, offset: 91577},
+																								pos: position{line: 2905, col: 10, offset: 91835},
 																								run: (*parser).callonListContinuationElement1353,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2896, col: 10, offset: 91577},
+																									pos:        position{line: 2905, col: 10, offset: 91835},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36196,28 +36196,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2918, col: 8, offset: 91975},
+																							pos: position{line: 2927, col: 8, offset: 92233},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2905, col: 12, offset: 91748},
+																									pos: position{line: 2914, col: 12, offset: 92006},
 																									run: (*parser).callonListContinuationElement1356,
 																									expr: &choiceExpr{
-																										pos: position{line: 2905, col: 13, offset: 91749},
+																										pos: position{line: 2914, col: 13, offset: 92007},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 13, offset: 91749},
+																												pos:        position{line: 2914, col: 13, offset: 92007},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 20, offset: 91756},
+																												pos:        position{line: 2914, col: 20, offset: 92014},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2905, col: 29, offset: 91765},
+																												pos:        position{line: 2914, col: 29, offset: 92023},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36226,9 +36226,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2915, col: 8, offset: 91925},
+																									pos: position{line: 2924, col: 8, offset: 92183},
 																									expr: &anyMatcher{
-																										line: 2915, col: 9, offset: 91926,
+																										line: 2924, col: 9, offset: 92184,
 																									},
 																								},
 																							},
@@ -36238,15 +36238,15 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1112, col: 5, offset: 34147},
+																			pos: position{line: 1112, col: 5, offset: 34179},
 																			run: (*parser).callonListContinuationElement1363,
 																		},
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2915, col: 8, offset: 91925},
+																	pos: position{line: 2924, col: 8, offset: 92183},
 																	expr: &anyMatcher{
-																		line: 2915, col: 9, offset: 91926,
+																		line: 2924, col: 9, offset: 92184,
 																	},
 																},
 															},
@@ -36257,52 +36257,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2741, col: 18, offset: 87167},
+										pos: position{line: 2750, col: 18, offset: 87425},
 										run: (*parser).callonListContinuationElement1366,
 										expr: &seqExpr{
-											pos: position{line: 2741, col: 18, offset: 87167},
+											pos: position{line: 2750, col: 18, offset: 87425},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2742, col: 9, offset: 87177},
+													pos: position{line: 2751, col: 9, offset: 87435},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2742, col: 9, offset: 87177},
+															pos:        position{line: 2751, col: 9, offset: 87435},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2743, col: 11, offset: 87213},
+															pos:        position{line: 2752, col: 11, offset: 87471},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2743, col: 19, offset: 87221},
+															pos:        position{line: 2752, col: 19, offset: 87479},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2743, col: 29, offset: 87231},
+															pos:        position{line: 2752, col: 29, offset: 87489},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2743, col: 37, offset: 87239},
+															pos:        position{line: 2752, col: 37, offset: 87497},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2743, col: 47, offset: 87249},
+															pos:        position{line: 2752, col: 47, offset: 87507},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2743, col: 55, offset: 87257},
+															pos:        position{line: 2752, col: 55, offset: 87515},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -36310,12 +36310,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2744, col: 11, offset: 87315},
+													pos: position{line: 2753, col: 11, offset: 87573},
 													expr: &actionExpr{
-														pos: position{line: 2896, col: 10, offset: 91577},
+														pos: position{line: 2905, col: 10, offset: 91835},
 														run: (*parser).callonListContinuationElement1377,
 														expr: &charClassMatcher{
-															pos:        position{line: 2896, col: 10, offset: 91577},
+															pos:        position{line: 2905, col: 10, offset: 91835},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36324,28 +36324,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2918, col: 8, offset: 91975},
+													pos: position{line: 2927, col: 8, offset: 92233},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2905, col: 12, offset: 91748},
+															pos: position{line: 2914, col: 12, offset: 92006},
 															run: (*parser).callonListContinuationElement1380,
 															expr: &choiceExpr{
-																pos: position{line: 2905, col: 13, offset: 91749},
+																pos: position{line: 2914, col: 13, offset: 92007},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 13, offset: 91749},
+																		pos:        position{line: 2914, col: 13, offset: 92007},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 20, offset: 91756},
+																		pos:        position{line: 2914, col: 20, offset: 92014},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 29, offset: 91765},
+																		pos:        position{line: 2914, col: 29, offset: 92023},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36354,36 +36354,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2915, col: 8, offset: 91925},
+															pos: position{line: 2924, col: 8, offset: 92183},
 															expr: &anyMatcher{
-																line: 2915, col: 9, offset: 91926,
+																line: 2924, col: 9, offset: 92184,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2918, col: 8, offset: 91975},
+													pos: position{line: 2927, col: 8, offset: 92233},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2905, col: 12, offset: 91748},
+															pos: position{line: 2914, col: 12, offset: 92006},
 															run: (*parser).callonListContinuationElement1388,
 															expr: &choiceExpr{
-																pos: position{line: 2905, col: 13, offset: 91749},
+																pos: position{line: 2914, col: 13, offset: 92007},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 13, offset: 91749},
+																		pos:        position{line: 2914, col: 13, offset: 92007},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 20, offset: 91756},
+																		pos:        position{line: 2914, col: 20, offset: 92014},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 29, offset: 91765},
+																		pos:        position{line: 2914, col: 29, offset: 92023},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36392,9 +36392,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2915, col: 8, offset: 91925},
+															pos: position{line: 2924, col: 8, offset: 92183},
 															expr: &anyMatcher{
-																line: 2915, col: 9, offset: 91926,
+																line: 2924, col: 9, offset: 92184,
 															},
 														},
 													},
@@ -36403,28 +36403,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1574, col: 11, offset: 50842},
+										pos:  position{line: 1574, col: 11, offset: 50874},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2626, col: 5, offset: 83949},
+										pos: position{line: 2635, col: 5, offset: 84207},
 										run: (*parser).callonListContinuationElement1396,
 										expr: &seqExpr{
-											pos: position{line: 2626, col: 5, offset: 83949},
+											pos: position{line: 2635, col: 5, offset: 84207},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2638, col: 19, offset: 84218},
+													pos:        position{line: 2647, col: 19, offset: 84476},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2638, col: 26, offset: 84225},
+													pos: position{line: 2647, col: 26, offset: 84483},
 													expr: &actionExpr{
-														pos: position{line: 2896, col: 10, offset: 91577},
+														pos: position{line: 2905, col: 10, offset: 91835},
 														run: (*parser).callonListContinuationElement1400,
 														expr: &charClassMatcher{
-															pos:        position{line: 2896, col: 10, offset: 91577},
+															pos:        position{line: 2905, col: 10, offset: 91835},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36433,28 +36433,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2918, col: 8, offset: 91975},
+													pos: position{line: 2927, col: 8, offset: 92233},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2905, col: 12, offset: 91748},
+															pos: position{line: 2914, col: 12, offset: 92006},
 															run: (*parser).callonListContinuationElement1403,
 															expr: &choiceExpr{
-																pos: position{line: 2905, col: 13, offset: 91749},
+																pos: position{line: 2914, col: 13, offset: 92007},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 13, offset: 91749},
+																		pos:        position{line: 2914, col: 13, offset: 92007},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 20, offset: 91756},
+																		pos:        position{line: 2914, col: 20, offset: 92014},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 29, offset: 91765},
+																		pos:        position{line: 2914, col: 29, offset: 92023},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36463,46 +36463,46 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2915, col: 8, offset: 91925},
+															pos: position{line: 2924, col: 8, offset: 92183},
 															expr: &anyMatcher{
-																line: 2915, col: 9, offset: 91926,
+																line: 2924, col: 9, offset: 92184,
 															},
 														},
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2627, col: 5, offset: 83973},
+													pos: position{line: 2636, col: 5, offset: 84231},
 													expr: &actionExpr{
-														pos: position{line: 2497, col: 22, offset: 80337},
+														pos: position{line: 2497, col: 22, offset: 80369},
 														run: (*parser).callonListContinuationElement1411,
 														expr: &seqExpr{
-															pos: position{line: 2497, col: 22, offset: 80337},
+															pos: position{line: 2497, col: 22, offset: 80369},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2502, col: 31, offset: 80558},
+																	pos:        position{line: 2502, col: 31, offset: 80590},
 																	val:        "//",
 																	ignoreCase: false,
 																	want:       "\"//\"",
 																},
 																&notExpr{
-																	pos: position{line: 2502, col: 36, offset: 80563},
+																	pos: position{line: 2502, col: 36, offset: 80595},
 																	expr: &litMatcher{
-																		pos:        position{line: 2502, col: 37, offset: 80564},
+																		pos:        position{line: 2502, col: 37, offset: 80596},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 2497, col: 49, offset: 80364},
+																	pos:   position{line: 2497, col: 49, offset: 80396},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2842, col: 13, offset: 90103},
+																		pos: position{line: 2851, col: 13, offset: 90361},
 																		run: (*parser).callonListContinuationElement1417,
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 2842, col: 13, offset: 90103},
+																			pos: position{line: 2851, col: 13, offset: 90361},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2842, col: 13, offset: 90103},
+																				pos:        position{line: 2851, col: 13, offset: 90361},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -36512,28 +36512,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonListContinuationElement1421,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36542,9 +36542,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -36554,41 +36554,41 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2628, col: 5, offset: 83996},
+													pos:   position{line: 2637, col: 5, offset: 84254},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2628, col: 11, offset: 84002},
+														pos: position{line: 2637, col: 11, offset: 84260},
 														expr: &actionExpr{
-															pos: position{line: 2629, col: 9, offset: 84012},
+															pos: position{line: 2638, col: 9, offset: 84270},
 															run: (*parser).callonListContinuationElement1430,
 															expr: &seqExpr{
-																pos: position{line: 2629, col: 9, offset: 84012},
+																pos: position{line: 2638, col: 9, offset: 84270},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2629, col: 9, offset: 84012},
+																		pos:   position{line: 2638, col: 9, offset: 84270},
 																		label: "line",
 																		expr: &choiceExpr{
-																			pos: position{line: 2629, col: 15, offset: 84018},
+																			pos: position{line: 2638, col: 15, offset: 84276},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 687, col: 14, offset: 21835},
+																					pos: position{line: 687, col: 14, offset: 21867},
 																					run: (*parser).callonListContinuationElement1434,
 																					expr: &seqExpr{
-																						pos: position{line: 687, col: 14, offset: 21835},
+																						pos: position{line: 687, col: 14, offset: 21867},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2913, col: 11, offset: 91911},
+																								pos: position{line: 2922, col: 11, offset: 92169},
 																								expr: &anyMatcher{
-																									line: 2913, col: 13, offset: 91913,
+																									line: 2922, col: 13, offset: 92171,
 																								},
 																							},
 																							&zeroOrMoreExpr{
-																								pos: position{line: 687, col: 21, offset: 21842},
+																								pos: position{line: 687, col: 21, offset: 21874},
 																								expr: &actionExpr{
-																									pos: position{line: 2896, col: 10, offset: 91577},
+																									pos: position{line: 2905, col: 10, offset: 91835},
 																									run: (*parser).callonListContinuationElement1439,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2896, col: 10, offset: 91577},
+																										pos:        position{line: 2905, col: 10, offset: 91835},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -36597,28 +36597,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2918, col: 8, offset: 91975},
+																								pos: position{line: 2927, col: 8, offset: 92233},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2905, col: 12, offset: 91748},
+																										pos: position{line: 2914, col: 12, offset: 92006},
 																										run: (*parser).callonListContinuationElement1442,
 																										expr: &choiceExpr{
-																											pos: position{line: 2905, col: 13, offset: 91749},
+																											pos: position{line: 2914, col: 13, offset: 92007},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 13, offset: 91749},
+																													pos:        position{line: 2914, col: 13, offset: 92007},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 20, offset: 91756},
+																													pos:        position{line: 2914, col: 20, offset: 92014},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2905, col: 29, offset: 91765},
+																													pos:        position{line: 2914, col: 29, offset: 92023},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -36627,9 +36627,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2915, col: 8, offset: 91925},
+																										pos: position{line: 2924, col: 8, offset: 92183},
 																										expr: &anyMatcher{
-																											line: 2915, col: 9, offset: 91926,
+																											line: 2924, col: 9, offset: 92184,
 																										},
 																									},
 																								},
@@ -36638,32 +36638,32 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2645, col: 5, offset: 84337},
+																					pos: position{line: 2654, col: 5, offset: 84595},
 																					run: (*parser).callonListContinuationElement1449,
 																					expr: &seqExpr{
-																						pos: position{line: 2645, col: 5, offset: 84337},
+																						pos: position{line: 2654, col: 5, offset: 84595},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2645, col: 5, offset: 84337},
+																								pos: position{line: 2654, col: 5, offset: 84595},
 																								expr: &choiceExpr{
-																									pos: position{line: 2642, col: 22, offset: 84298},
+																									pos: position{line: 2651, col: 22, offset: 84556},
 																									alternatives: []interface{}{
 																										&seqExpr{
-																											pos: position{line: 2638, col: 19, offset: 84218},
+																											pos: position{line: 2647, col: 19, offset: 84476},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2638, col: 19, offset: 84218},
+																													pos:        position{line: 2647, col: 19, offset: 84476},
 																													val:        "|===",
 																													ignoreCase: false,
 																													want:       "\"|===\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 2638, col: 26, offset: 84225},
+																													pos: position{line: 2647, col: 26, offset: 84483},
 																													expr: &actionExpr{
-																														pos: position{line: 2896, col: 10, offset: 91577},
+																														pos: position{line: 2905, col: 10, offset: 91835},
 																														run: (*parser).callonListContinuationElement1456,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2896, col: 10, offset: 91577},
+																															pos:        position{line: 2905, col: 10, offset: 91835},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -36672,28 +36672,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2918, col: 8, offset: 91975},
+																													pos: position{line: 2927, col: 8, offset: 92233},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2905, col: 12, offset: 91748},
+																															pos: position{line: 2914, col: 12, offset: 92006},
 																															run: (*parser).callonListContinuationElement1459,
 																															expr: &choiceExpr{
-																																pos: position{line: 2905, col: 13, offset: 91749},
+																																pos: position{line: 2914, col: 13, offset: 92007},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2905, col: 13, offset: 91749},
+																																		pos:        position{line: 2914, col: 13, offset: 92007},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2905, col: 20, offset: 91756},
+																																		pos:        position{line: 2914, col: 20, offset: 92014},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2905, col: 29, offset: 91765},
+																																		pos:        position{line: 2914, col: 29, offset: 92023},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -36702,9 +36702,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2915, col: 8, offset: 91925},
+																															pos: position{line: 2924, col: 8, offset: 92183},
 																															expr: &anyMatcher{
-																																line: 2915, col: 9, offset: 91926,
+																																line: 2924, col: 9, offset: 92184,
 																															},
 																														},
 																													},
@@ -36712,59 +36712,59 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2915, col: 8, offset: 91925},
+																											pos: position{line: 2924, col: 8, offset: 92183},
 																											expr: &anyMatcher{
-																												line: 2915, col: 9, offset: 91926,
+																												line: 2924, col: 9, offset: 92184,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 2646, col: 5, offset: 84360},
+																								pos:   position{line: 2655, col: 5, offset: 84618},
 																								label: "content",
 																								expr: &choiceExpr{
-																									pos: position{line: 2647, col: 9, offset: 84378},
+																									pos: position{line: 2656, col: 9, offset: 84636},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2647, col: 10, offset: 84379},
+																											pos: position{line: 2656, col: 10, offset: 84637},
 																											run: (*parser).callonListContinuationElement1470,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2647, col: 10, offset: 84379},
+																												pos:   position{line: 2656, col: 10, offset: 84637},
 																												label: "cells",
 																												expr: &choiceExpr{
-																													pos: position{line: 2647, col: 17, offset: 84386},
+																													pos: position{line: 2656, col: 17, offset: 84644},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2655, col: 21, offset: 84582},
+																															pos: position{line: 2664, col: 21, offset: 84840},
 																															run: (*parser).callonListContinuationElement1473,
 																															expr: &seqExpr{
-																																pos: position{line: 2655, col: 21, offset: 84582},
+																																pos: position{line: 2664, col: 21, offset: 84840},
 																																exprs: []interface{}{
 																																	&labeledExpr{
-																																		pos:   position{line: 2655, col: 21, offset: 84582},
+																																		pos:   position{line: 2664, col: 21, offset: 84840},
 																																		label: "cells",
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 2655, col: 27, offset: 84588},
+																																			pos: position{line: 2664, col: 27, offset: 84846},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2660, col: 5, offset: 84663},
+																																				pos: position{line: 2669, col: 5, offset: 84921},
 																																				run: (*parser).callonListContinuationElement1477,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2660, col: 5, offset: 84663},
+																																					pos: position{line: 2669, col: 5, offset: 84921},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2660, col: 5, offset: 84663},
+																																							pos:        position{line: 2669, col: 5, offset: 84921},
 																																							val:        "|",
 																																							ignoreCase: false,
 																																							want:       "\"|\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2660, col: 9, offset: 84667},
+																																							pos: position{line: 2669, col: 9, offset: 84925},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2896, col: 10, offset: 91577},
+																																								pos: position{line: 2905, col: 10, offset: 91835},
 																																								run: (*parser).callonListContinuationElement1481,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2896, col: 10, offset: 91577},
+																																									pos:        position{line: 2905, col: 10, offset: 91835},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -36773,21 +36773,21 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2660, col: 16, offset: 84674},
+																																							pos:   position{line: 2669, col: 16, offset: 84932},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2666, col: 5, offset: 84874},
+																																								pos: position{line: 2675, col: 5, offset: 85132},
 																																								run: (*parser).callonListContinuationElement1484,
 																																								expr: &labeledExpr{
-																																									pos:   position{line: 2666, col: 5, offset: 84874},
+																																									pos:   position{line: 2675, col: 5, offset: 85132},
 																																									label: "content",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2666, col: 14, offset: 84883},
+																																										pos: position{line: 2675, col: 14, offset: 85141},
 																																										run: (*parser).callonListContinuationElement1486,
 																																										expr: &zeroOrMoreExpr{
-																																											pos: position{line: 2666, col: 14, offset: 84883},
+																																											pos: position{line: 2675, col: 14, offset: 85141},
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2666, col: 14, offset: 84883},
+																																												pos:        position{line: 2675, col: 14, offset: 85141},
 																																												val:        "[^|\\r\\n]",
 																																												chars:      []rune{'|', '\r', '\n'},
 																																												ignoreCase: false,
@@ -36804,28 +36804,28 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&choiceExpr{
-																																		pos: position{line: 2918, col: 8, offset: 91975},
+																																		pos: position{line: 2927, col: 8, offset: 92233},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 2905, col: 12, offset: 91748},
+																																				pos: position{line: 2914, col: 12, offset: 92006},
 																																				run: (*parser).callonListContinuationElement1490,
 																																				expr: &choiceExpr{
-																																					pos: position{line: 2905, col: 13, offset: 91749},
+																																					pos: position{line: 2914, col: 13, offset: 92007},
 																																					alternatives: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2905, col: 13, offset: 91749},
+																																							pos:        position{line: 2914, col: 13, offset: 92007},
 																																							val:        "\n",
 																																							ignoreCase: false,
 																																							want:       "\"\\n\"",
 																																						},
 																																						&litMatcher{
-																																							pos:        position{line: 2905, col: 20, offset: 91756},
+																																							pos:        position{line: 2914, col: 20, offset: 92014},
 																																							val:        "\r\n",
 																																							ignoreCase: false,
 																																							want:       "\"\\r\\n\"",
 																																						},
 																																						&litMatcher{
-																																							pos:        position{line: 2905, col: 29, offset: 91765},
+																																							pos:        position{line: 2914, col: 29, offset: 92023},
 																																							val:        "\r",
 																																							ignoreCase: false,
 																																							want:       "\"\\r\"",
@@ -36834,9 +36834,9 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2915, col: 8, offset: 91925},
+																																				pos: position{line: 2924, col: 8, offset: 92183},
 																																				expr: &anyMatcher{
-																																					line: 2915, col: 9, offset: 91926,
+																																					line: 2924, col: 9, offset: 92184,
 																																				},
 																																			},
 																																		},
@@ -36845,40 +36845,40 @@ var g = &grammar{
 																															},
 																														},
 																														&actionExpr{
-																															pos: position{line: 2672, col: 24, offset: 85019},
+																															pos: position{line: 2681, col: 24, offset: 85277},
 																															run: (*parser).callonListContinuationElement1497,
 																															expr: &labeledExpr{
-																																pos:   position{line: 2672, col: 24, offset: 85019},
+																																pos:   position{line: 2681, col: 24, offset: 85277},
 																																label: "cells",
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 2672, col: 30, offset: 85025},
+																																	pos: position{line: 2681, col: 30, offset: 85283},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2677, col: 5, offset: 85101},
+																																		pos: position{line: 2686, col: 5, offset: 85359},
 																																		run: (*parser).callonListContinuationElement1500,
 																																		expr: &seqExpr{
-																																			pos: position{line: 2677, col: 5, offset: 85101},
+																																			pos: position{line: 2686, col: 5, offset: 85359},
 																																			exprs: []interface{}{
 																																				&notExpr{
-																																					pos: position{line: 2677, col: 5, offset: 85101},
+																																					pos: position{line: 2686, col: 5, offset: 85359},
 																																					expr: &choiceExpr{
-																																						pos: position{line: 2642, col: 22, offset: 84298},
+																																						pos: position{line: 2651, col: 22, offset: 84556},
 																																						alternatives: []interface{}{
 																																							&seqExpr{
-																																								pos: position{line: 2638, col: 19, offset: 84218},
+																																								pos: position{line: 2647, col: 19, offset: 84476},
 																																								exprs: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2638, col: 19, offset: 84218},
+																																										pos:        position{line: 2647, col: 19, offset: 84476},
 																																										val:        "|===",
 																																										ignoreCase: false,
 																																										want:       "\"|===\"",
 																																									},
 																																									&zeroOrMoreExpr{
-																																										pos: position{line: 2638, col: 26, offset: 84225},
+																																										pos: position{line: 2647, col: 26, offset: 84483},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2896, col: 10, offset: 91577},
+																																											pos: position{line: 2905, col: 10, offset: 91835},
 																																											run: (*parser).callonListContinuationElement1507,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2896, col: 10, offset: 91577},
+																																												pos:        position{line: 2905, col: 10, offset: 91835},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36887,28 +36887,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2918, col: 8, offset: 91975},
+																																										pos: position{line: 2927, col: 8, offset: 92233},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2905, col: 12, offset: 91748},
+																																												pos: position{line: 2914, col: 12, offset: 92006},
 																																												run: (*parser).callonListContinuationElement1510,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2905, col: 13, offset: 91749},
+																																													pos: position{line: 2914, col: 13, offset: 92007},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2905, col: 13, offset: 91749},
+																																															pos:        position{line: 2914, col: 13, offset: 92007},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2905, col: 20, offset: 91756},
+																																															pos:        position{line: 2914, col: 20, offset: 92014},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2905, col: 29, offset: 91765},
+																																															pos:        position{line: 2914, col: 29, offset: 92023},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36917,9 +36917,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2915, col: 8, offset: 91925},
+																																												pos: position{line: 2924, col: 8, offset: 92183},
 																																												expr: &anyMatcher{
-																																													line: 2915, col: 9, offset: 91926,
+																																													line: 2924, col: 9, offset: 92184,
 																																												},
 																																											},
 																																										},
@@ -36927,35 +36927,35 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2915, col: 8, offset: 91925},
+																																								pos: position{line: 2924, col: 8, offset: 92183},
 																																								expr: &anyMatcher{
-																																									line: 2915, col: 9, offset: 91926,
+																																									line: 2924, col: 9, offset: 92184,
 																																								},
 																																							},
 																																						},
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2678, col: 5, offset: 85124},
+																																					pos: position{line: 2687, col: 5, offset: 85382},
 																																					expr: &actionExpr{
-																																						pos: position{line: 687, col: 14, offset: 21835},
+																																						pos: position{line: 687, col: 14, offset: 21867},
 																																						run: (*parser).callonListContinuationElement1520,
 																																						expr: &seqExpr{
-																																							pos: position{line: 687, col: 14, offset: 21835},
+																																							pos: position{line: 687, col: 14, offset: 21867},
 																																							exprs: []interface{}{
 																																								&andExpr{
-																																									pos: position{line: 2913, col: 11, offset: 91911},
+																																									pos: position{line: 2922, col: 11, offset: 92169},
 																																									expr: &anyMatcher{
-																																										line: 2913, col: 13, offset: 91913,
+																																										line: 2922, col: 13, offset: 92171,
 																																									},
 																																								},
 																																								&zeroOrMoreExpr{
-																																									pos: position{line: 687, col: 21, offset: 21842},
+																																									pos: position{line: 687, col: 21, offset: 21874},
 																																									expr: &actionExpr{
-																																										pos: position{line: 2896, col: 10, offset: 91577},
+																																										pos: position{line: 2905, col: 10, offset: 91835},
 																																										run: (*parser).callonListContinuationElement1525,
 																																										expr: &charClassMatcher{
-																																											pos:        position{line: 2896, col: 10, offset: 91577},
+																																											pos:        position{line: 2905, col: 10, offset: 91835},
 																																											val:        "[\\t ]",
 																																											chars:      []rune{'\t', ' '},
 																																											ignoreCase: false,
@@ -36964,28 +36964,28 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&choiceExpr{
-																																									pos: position{line: 2918, col: 8, offset: 91975},
+																																									pos: position{line: 2927, col: 8, offset: 92233},
 																																									alternatives: []interface{}{
 																																										&actionExpr{
-																																											pos: position{line: 2905, col: 12, offset: 91748},
+																																											pos: position{line: 2914, col: 12, offset: 92006},
 																																											run: (*parser).callonListContinuationElement1528,
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2905, col: 13, offset: 91749},
+																																												pos: position{line: 2914, col: 13, offset: 92007},
 																																												alternatives: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2905, col: 13, offset: 91749},
+																																														pos:        position{line: 2914, col: 13, offset: 92007},
 																																														val:        "\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2905, col: 20, offset: 91756},
+																																														pos:        position{line: 2914, col: 20, offset: 92014},
 																																														val:        "\r\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2905, col: 29, offset: 91765},
+																																														pos:        position{line: 2914, col: 29, offset: 92023},
 																																														val:        "\r",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\"",
@@ -36994,9 +36994,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2915, col: 8, offset: 91925},
+																																											pos: position{line: 2924, col: 8, offset: 92183},
 																																											expr: &anyMatcher{
-																																												line: 2915, col: 9, offset: 91926,
+																																												line: 2924, col: 9, offset: 92184,
 																																											},
 																																										},
 																																									},
@@ -37006,17 +37006,17 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 2679, col: 5, offset: 85139},
+																																					pos:   position{line: 2688, col: 5, offset: 85397},
 																																					label: "format",
 																																					expr: &zeroOrOneExpr{
-																																						pos: position{line: 2679, col: 12, offset: 85146},
+																																						pos: position{line: 2688, col: 12, offset: 85404},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2696, col: 20, offset: 85652},
+																																							pos: position{line: 2705, col: 20, offset: 85910},
 																																							run: (*parser).callonListContinuationElement1537,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2696, col: 20, offset: 85652},
+																																								pos: position{line: 2705, col: 20, offset: 85910},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2696, col: 20, offset: 85652},
+																																									pos:        position{line: 2705, col: 20, offset: 85910},
 																																									val:        "[^ |\\r\\n]",
 																																									chars:      []rune{' ', '|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -37027,18 +37027,18 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2679, col: 31, offset: 85165},
+																																					pos:        position{line: 2688, col: 31, offset: 85423},
 																																					val:        "|",
 																																					ignoreCase: false,
 																																					want:       "\"|\"",
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 2679, col: 35, offset: 85169},
+																																					pos: position{line: 2688, col: 35, offset: 85427},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2896, col: 10, offset: 91577},
+																																						pos: position{line: 2905, col: 10, offset: 91835},
 																																						run: (*parser).callonListContinuationElement1542,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2896, col: 10, offset: 91577},
+																																							pos:        position{line: 2905, col: 10, offset: 91835},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -37047,30 +37047,30 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&zeroOrOneExpr{
-																																					pos: position{line: 2679, col: 42, offset: 85176},
+																																					pos: position{line: 2688, col: 42, offset: 85434},
 																																					expr: &seqExpr{
-																																						pos: position{line: 2679, col: 43, offset: 85177},
+																																						pos: position{line: 2688, col: 43, offset: 85435},
 																																						exprs: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2905, col: 12, offset: 91748},
+																																								pos: position{line: 2914, col: 12, offset: 92006},
 																																								run: (*parser).callonListContinuationElement1546,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2905, col: 13, offset: 91749},
+																																									pos: position{line: 2914, col: 13, offset: 92007},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2905, col: 13, offset: 91749},
+																																											pos:        position{line: 2914, col: 13, offset: 92007},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2905, col: 20, offset: 91756},
+																																											pos:        position{line: 2914, col: 20, offset: 92014},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2905, col: 29, offset: 91765},
+																																											pos:        position{line: 2914, col: 29, offset: 92023},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -37079,38 +37079,38 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&zeroOrMoreExpr{
-																																								pos: position{line: 2679, col: 51, offset: 85185},
+																																								pos: position{line: 2688, col: 51, offset: 85443},
 																																								expr: &actionExpr{
-																																									pos: position{line: 2497, col: 22, offset: 80337},
+																																									pos: position{line: 2497, col: 22, offset: 80369},
 																																									run: (*parser).callonListContinuationElement1552,
 																																									expr: &seqExpr{
-																																										pos: position{line: 2497, col: 22, offset: 80337},
+																																										pos: position{line: 2497, col: 22, offset: 80369},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2502, col: 31, offset: 80558},
+																																												pos:        position{line: 2502, col: 31, offset: 80590},
 																																												val:        "//",
 																																												ignoreCase: false,
 																																												want:       "\"//\"",
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2502, col: 36, offset: 80563},
+																																												pos: position{line: 2502, col: 36, offset: 80595},
 																																												expr: &litMatcher{
-																																													pos:        position{line: 2502, col: 37, offset: 80564},
+																																													pos:        position{line: 2502, col: 37, offset: 80596},
 																																													val:        "//",
 																																													ignoreCase: false,
 																																													want:       "\"//\"",
 																																												},
 																																											},
 																																											&labeledExpr{
-																																												pos:   position{line: 2497, col: 49, offset: 80364},
+																																												pos:   position{line: 2497, col: 49, offset: 80396},
 																																												label: "content",
 																																												expr: &actionExpr{
-																																													pos: position{line: 2842, col: 13, offset: 90103},
+																																													pos: position{line: 2851, col: 13, offset: 90361},
 																																													run: (*parser).callonListContinuationElement1558,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2842, col: 13, offset: 90103},
+																																														pos: position{line: 2851, col: 13, offset: 90361},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2842, col: 13, offset: 90103},
+																																															pos:        position{line: 2851, col: 13, offset: 90361},
 																																															val:        "[^\\r\\n]",
 																																															chars:      []rune{'\r', '\n'},
 																																															ignoreCase: false,
@@ -37120,28 +37120,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2918, col: 8, offset: 91975},
+																																												pos: position{line: 2927, col: 8, offset: 92233},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2905, col: 12, offset: 91748},
+																																														pos: position{line: 2914, col: 12, offset: 92006},
 																																														run: (*parser).callonListContinuationElement1562,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2905, col: 13, offset: 91749},
+																																															pos: position{line: 2914, col: 13, offset: 92007},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2905, col: 13, offset: 91749},
+																																																	pos:        position{line: 2914, col: 13, offset: 92007},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2905, col: 20, offset: 91756},
+																																																	pos:        position{line: 2914, col: 20, offset: 92014},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2905, col: 29, offset: 91765},
+																																																	pos:        position{line: 2914, col: 29, offset: 92023},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -37150,9 +37150,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2915, col: 8, offset: 91925},
+																																														pos: position{line: 2924, col: 8, offset: 92183},
 																																														expr: &anyMatcher{
-																																															line: 2915, col: 9, offset: 91926,
+																																															line: 2924, col: 9, offset: 92184,
 																																														},
 																																													},
 																																												},
@@ -37165,37 +37165,37 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 2679, col: 72, offset: 85206},
+																																					pos:   position{line: 2688, col: 72, offset: 85464},
 																																					label: "content",
 																																					expr: &zeroOrMoreExpr{
-																																						pos: position{line: 2685, col: 5, offset: 85365},
+																																						pos: position{line: 2694, col: 5, offset: 85623},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2686, col: 9, offset: 85375},
+																																							pos: position{line: 2695, col: 9, offset: 85633},
 																																							run: (*parser).callonListContinuationElement1571,
 																																							expr: &seqExpr{
-																																								pos: position{line: 2686, col: 9, offset: 85375},
+																																								pos: position{line: 2695, col: 9, offset: 85633},
 																																								exprs: []interface{}{
 																																									&notExpr{
-																																										pos: position{line: 2686, col: 9, offset: 85375},
+																																										pos: position{line: 2695, col: 9, offset: 85633},
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2642, col: 22, offset: 84298},
+																																											pos: position{line: 2651, col: 22, offset: 84556},
 																																											alternatives: []interface{}{
 																																												&seqExpr{
-																																													pos: position{line: 2638, col: 19, offset: 84218},
+																																													pos: position{line: 2647, col: 19, offset: 84476},
 																																													exprs: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2638, col: 19, offset: 84218},
+																																															pos:        position{line: 2647, col: 19, offset: 84476},
 																																															val:        "|===",
 																																															ignoreCase: false,
 																																															want:       "\"|===\"",
 																																														},
 																																														&zeroOrMoreExpr{
-																																															pos: position{line: 2638, col: 26, offset: 84225},
+																																															pos: position{line: 2647, col: 26, offset: 84483},
 																																															expr: &actionExpr{
-																																																pos: position{line: 2896, col: 10, offset: 91577},
+																																																pos: position{line: 2905, col: 10, offset: 91835},
 																																																run: (*parser).callonListContinuationElement1578,
 																																																expr: &charClassMatcher{
-																																																	pos:        position{line: 2896, col: 10, offset: 91577},
+																																																	pos:        position{line: 2905, col: 10, offset: 91835},
 																																																	val:        "[\\t ]",
 																																																	chars:      []rune{'\t', ' '},
 																																																	ignoreCase: false,
@@ -37204,28 +37204,28 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&choiceExpr{
-																																															pos: position{line: 2918, col: 8, offset: 91975},
+																																															pos: position{line: 2927, col: 8, offset: 92233},
 																																															alternatives: []interface{}{
 																																																&actionExpr{
-																																																	pos: position{line: 2905, col: 12, offset: 91748},
+																																																	pos: position{line: 2914, col: 12, offset: 92006},
 																																																	run: (*parser).callonListContinuationElement1581,
 																																																	expr: &choiceExpr{
-																																																		pos: position{line: 2905, col: 13, offset: 91749},
+																																																		pos: position{line: 2914, col: 13, offset: 92007},
 																																																		alternatives: []interface{}{
 																																																			&litMatcher{
-																																																				pos:        position{line: 2905, col: 13, offset: 91749},
+																																																				pos:        position{line: 2914, col: 13, offset: 92007},
 																																																				val:        "\n",
 																																																				ignoreCase: false,
 																																																				want:       "\"\\n\"",
 																																																			},
 																																																			&litMatcher{
-																																																				pos:        position{line: 2905, col: 20, offset: 91756},
+																																																				pos:        position{line: 2914, col: 20, offset: 92014},
 																																																				val:        "\r\n",
 																																																				ignoreCase: false,
 																																																				want:       "\"\\r\\n\"",
 																																																			},
 																																																			&litMatcher{
-																																																				pos:        position{line: 2905, col: 29, offset: 91765},
+																																																				pos:        position{line: 2914, col: 29, offset: 92023},
 																																																				val:        "\r",
 																																																				ignoreCase: false,
 																																																				want:       "\"\\r\"",
@@ -37234,9 +37234,9 @@ var g = &grammar{
 																																																	},
 																																																},
 																																																&notExpr{
-																																																	pos: position{line: 2915, col: 8, offset: 91925},
+																																																	pos: position{line: 2924, col: 8, offset: 92183},
 																																																	expr: &anyMatcher{
-																																																		line: 2915, col: 9, offset: 91926,
+																																																		line: 2924, col: 9, offset: 92184,
 																																																	},
 																																																},
 																																															},
@@ -37244,35 +37244,35 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2915, col: 8, offset: 91925},
+																																													pos: position{line: 2924, col: 8, offset: 92183},
 																																													expr: &anyMatcher{
-																																														line: 2915, col: 9, offset: 91926,
+																																														line: 2924, col: 9, offset: 92184,
 																																													},
 																																												},
 																																											},
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2687, col: 9, offset: 85402},
+																																										pos: position{line: 2696, col: 9, offset: 85660},
 																																										expr: &actionExpr{
-																																											pos: position{line: 687, col: 14, offset: 21835},
+																																											pos: position{line: 687, col: 14, offset: 21867},
 																																											run: (*parser).callonListContinuationElement1591,
 																																											expr: &seqExpr{
-																																												pos: position{line: 687, col: 14, offset: 21835},
+																																												pos: position{line: 687, col: 14, offset: 21867},
 																																												exprs: []interface{}{
 																																													&andExpr{
-																																														pos: position{line: 2913, col: 11, offset: 91911},
+																																														pos: position{line: 2922, col: 11, offset: 92169},
 																																														expr: &anyMatcher{
-																																															line: 2913, col: 13, offset: 91913,
+																																															line: 2922, col: 13, offset: 92171,
 																																														},
 																																													},
 																																													&zeroOrMoreExpr{
-																																														pos: position{line: 687, col: 21, offset: 21842},
+																																														pos: position{line: 687, col: 21, offset: 21874},
 																																														expr: &actionExpr{
-																																															pos: position{line: 2896, col: 10, offset: 91577},
+																																															pos: position{line: 2905, col: 10, offset: 91835},
 																																															run: (*parser).callonListContinuationElement1596,
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2896, col: 10, offset: 91577},
+																																																pos:        position{line: 2905, col: 10, offset: 91835},
 																																																val:        "[\\t ]",
 																																																chars:      []rune{'\t', ' '},
 																																																ignoreCase: false,
@@ -37281,28 +37281,28 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&choiceExpr{
-																																														pos: position{line: 2918, col: 8, offset: 91975},
+																																														pos: position{line: 2927, col: 8, offset: 92233},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2905, col: 12, offset: 91748},
+																																																pos: position{line: 2914, col: 12, offset: 92006},
 																																																run: (*parser).callonListContinuationElement1599,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2905, col: 13, offset: 91749},
+																																																	pos: position{line: 2914, col: 13, offset: 92007},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2905, col: 13, offset: 91749},
+																																																			pos:        position{line: 2914, col: 13, offset: 92007},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2905, col: 20, offset: 91756},
+																																																			pos:        position{line: 2914, col: 20, offset: 92014},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2905, col: 29, offset: 91765},
+																																																			pos:        position{line: 2914, col: 29, offset: 92023},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -37311,9 +37311,9 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2915, col: 8, offset: 91925},
+																																																pos: position{line: 2924, col: 8, offset: 92183},
 																																																expr: &anyMatcher{
-																																																	line: 2915, col: 9, offset: 91926,
+																																																	line: 2924, col: 9, offset: 92184,
 																																																},
 																																															},
 																																														},
@@ -37323,22 +37323,22 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2688, col: 9, offset: 85421},
+																																										pos: position{line: 2697, col: 9, offset: 85679},
 																																										expr: &seqExpr{
-																																											pos: position{line: 2688, col: 11, offset: 85423},
+																																											pos: position{line: 2697, col: 11, offset: 85681},
 																																											exprs: []interface{}{
 																																												&labeledExpr{
-																																													pos:   position{line: 2688, col: 11, offset: 85423},
+																																													pos:   position{line: 2697, col: 11, offset: 85681},
 																																													label: "format",
 																																													expr: &zeroOrOneExpr{
-																																														pos: position{line: 2688, col: 18, offset: 85430},
+																																														pos: position{line: 2697, col: 18, offset: 85688},
 																																														expr: &actionExpr{
-																																															pos: position{line: 2696, col: 20, offset: 85652},
+																																															pos: position{line: 2705, col: 20, offset: 85910},
 																																															run: (*parser).callonListContinuationElement1610,
 																																															expr: &zeroOrMoreExpr{
-																																																pos: position{line: 2696, col: 20, offset: 85652},
+																																																pos: position{line: 2705, col: 20, offset: 85910},
 																																																expr: &charClassMatcher{
-																																																	pos:        position{line: 2696, col: 20, offset: 85652},
+																																																	pos:        position{line: 2705, col: 20, offset: 85910},
 																																																	val:        "[^ |\\r\\n]",
 																																																	chars:      []rune{' ', '|', '\r', '\n'},
 																																																	ignoreCase: false,
@@ -37349,7 +37349,7 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2688, col: 37, offset: 85449},
+																																													pos:        position{line: 2697, col: 37, offset: 85707},
 																																													val:        "|",
 																																													ignoreCase: false,
 																																													want:       "\"|\"",
@@ -37358,15 +37358,15 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&labeledExpr{
-																																										pos:   position{line: 2689, col: 9, offset: 85462},
+																																										pos:   position{line: 2698, col: 9, offset: 85720},
 																																										label: "content",
 																																										expr: &actionExpr{
-																																											pos: position{line: 2689, col: 18, offset: 85471},
+																																											pos: position{line: 2698, col: 18, offset: 85729},
 																																											run: (*parser).callonListContinuationElement1615,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2689, col: 18, offset: 85471},
+																																												pos: position{line: 2698, col: 18, offset: 85729},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2689, col: 18, offset: 85471},
+																																													pos:        position{line: 2698, col: 18, offset: 85729},
 																																													val:        "[^|\\r\\n]",
 																																													chars:      []rune{'|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -37376,33 +37376,33 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&zeroOrOneExpr{
-																																										pos: position{line: 2691, col: 12, offset: 85533},
+																																										pos: position{line: 2700, col: 12, offset: 85791},
 																																										expr: &seqExpr{
-																																											pos: position{line: 2691, col: 13, offset: 85534},
+																																											pos: position{line: 2700, col: 13, offset: 85792},
 																																											exprs: []interface{}{
 																																												&choiceExpr{
-																																													pos: position{line: 2918, col: 8, offset: 91975},
+																																													pos: position{line: 2927, col: 8, offset: 92233},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2905, col: 12, offset: 91748},
+																																															pos: position{line: 2914, col: 12, offset: 92006},
 																																															run: (*parser).callonListContinuationElement1621,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2905, col: 13, offset: 91749},
+																																																pos: position{line: 2914, col: 13, offset: 92007},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2905, col: 13, offset: 91749},
+																																																		pos:        position{line: 2914, col: 13, offset: 92007},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2905, col: 20, offset: 91756},
+																																																		pos:        position{line: 2914, col: 20, offset: 92014},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2905, col: 29, offset: 91765},
+																																																		pos:        position{line: 2914, col: 29, offset: 92023},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -37411,46 +37411,46 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2915, col: 8, offset: 91925},
+																																															pos: position{line: 2924, col: 8, offset: 92183},
 																																															expr: &anyMatcher{
-																																																line: 2915, col: 9, offset: 91926,
+																																																line: 2924, col: 9, offset: 92184,
 																																															},
 																																														},
 																																													},
 																																												},
 																																												&zeroOrMoreExpr{
-																																													pos: position{line: 2691, col: 17, offset: 85538},
+																																													pos: position{line: 2700, col: 17, offset: 85796},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2497, col: 22, offset: 80337},
+																																														pos: position{line: 2497, col: 22, offset: 80369},
 																																														run: (*parser).callonListContinuationElement1629,
 																																														expr: &seqExpr{
-																																															pos: position{line: 2497, col: 22, offset: 80337},
+																																															pos: position{line: 2497, col: 22, offset: 80369},
 																																															exprs: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2502, col: 31, offset: 80558},
+																																																	pos:        position{line: 2502, col: 31, offset: 80590},
 																																																	val:        "//",
 																																																	ignoreCase: false,
 																																																	want:       "\"//\"",
 																																																},
 																																																&notExpr{
-																																																	pos: position{line: 2502, col: 36, offset: 80563},
+																																																	pos: position{line: 2502, col: 36, offset: 80595},
 																																																	expr: &litMatcher{
-																																																		pos:        position{line: 2502, col: 37, offset: 80564},
+																																																		pos:        position{line: 2502, col: 37, offset: 80596},
 																																																		val:        "//",
 																																																		ignoreCase: false,
 																																																		want:       "\"//\"",
 																																																	},
 																																																},
 																																																&labeledExpr{
-																																																	pos:   position{line: 2497, col: 49, offset: 80364},
+																																																	pos:   position{line: 2497, col: 49, offset: 80396},
 																																																	label: "content",
 																																																	expr: &actionExpr{
-																																																		pos: position{line: 2842, col: 13, offset: 90103},
+																																																		pos: position{line: 2851, col: 13, offset: 90361},
 																																																		run: (*parser).callonListContinuationElement1635,
 																																																		expr: &zeroOrMoreExpr{
-																																																			pos: position{line: 2842, col: 13, offset: 90103},
+																																																			pos: position{line: 2851, col: 13, offset: 90361},
 																																																			expr: &charClassMatcher{
-																																																				pos:        position{line: 2842, col: 13, offset: 90103},
+																																																				pos:        position{line: 2851, col: 13, offset: 90361},
 																																																				val:        "[^\\r\\n]",
 																																																				chars:      []rune{'\r', '\n'},
 																																																				ignoreCase: false,
@@ -37460,28 +37460,28 @@ var g = &grammar{
 																																																	},
 																																																},
 																																																&choiceExpr{
-																																																	pos: position{line: 2918, col: 8, offset: 91975},
+																																																	pos: position{line: 2927, col: 8, offset: 92233},
 																																																	alternatives: []interface{}{
 																																																		&actionExpr{
-																																																			pos: position{line: 2905, col: 12, offset: 91748},
+																																																			pos: position{line: 2914, col: 12, offset: 92006},
 																																																			run: (*parser).callonListContinuationElement1639,
 																																																			expr: &choiceExpr{
-																																																				pos: position{line: 2905, col: 13, offset: 91749},
+																																																				pos: position{line: 2914, col: 13, offset: 92007},
 																																																				alternatives: []interface{}{
 																																																					&litMatcher{
-																																																						pos:        position{line: 2905, col: 13, offset: 91749},
+																																																						pos:        position{line: 2914, col: 13, offset: 92007},
 																																																						val:        "\n",
 																																																						ignoreCase: false,
 																																																						want:       "\"\\n\"",
 																																																					},
 																																																					&litMatcher{
-																																																						pos:        position{line: 2905, col: 20, offset: 91756},
+																																																						pos:        position{line: 2914, col: 20, offset: 92014},
 																																																						val:        "\r\n",
 																																																						ignoreCase: false,
 																																																						want:       "\"\\r\\n\"",
 																																																					},
 																																																					&litMatcher{
-																																																						pos:        position{line: 2905, col: 29, offset: 91765},
+																																																						pos:        position{line: 2914, col: 29, offset: 92023},
 																																																						val:        "\r",
 																																																						ignoreCase: false,
 																																																						want:       "\"\\r\"",
@@ -37490,9 +37490,9 @@ var g = &grammar{
 																																																			},
 																																																		},
 																																																		&notExpr{
-																																																			pos: position{line: 2915, col: 8, offset: 91925},
+																																																			pos: position{line: 2924, col: 8, offset: 92183},
 																																																			expr: &anyMatcher{
-																																																				line: 2915, col: 9, offset: 91926,
+																																																				line: 2924, col: 9, offset: 92184,
 																																																			},
 																																																		},
 																																																	},
@@ -37520,24 +37520,24 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 687, col: 14, offset: 21835},
+																											pos: position{line: 687, col: 14, offset: 21867},
 																											run: (*parser).callonListContinuationElement1646,
 																											expr: &seqExpr{
-																												pos: position{line: 687, col: 14, offset: 21835},
+																												pos: position{line: 687, col: 14, offset: 21867},
 																												exprs: []interface{}{
 																													&andExpr{
-																														pos: position{line: 2913, col: 11, offset: 91911},
+																														pos: position{line: 2922, col: 11, offset: 92169},
 																														expr: &anyMatcher{
-																															line: 2913, col: 13, offset: 91913,
+																															line: 2922, col: 13, offset: 92171,
 																														},
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 687, col: 21, offset: 21842},
+																														pos: position{line: 687, col: 21, offset: 21874},
 																														expr: &actionExpr{
-																															pos: position{line: 2896, col: 10, offset: 91577},
+																															pos: position{line: 2905, col: 10, offset: 91835},
 																															run: (*parser).callonListContinuationElement1651,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 2896, col: 10, offset: 91577},
+																																pos:        position{line: 2905, col: 10, offset: 91835},
 																																val:        "[\\t ]",
 																																chars:      []rune{'\t', ' '},
 																																ignoreCase: false,
@@ -37546,28 +37546,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2918, col: 8, offset: 91975},
+																														pos: position{line: 2927, col: 8, offset: 92233},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2905, col: 12, offset: 91748},
+																																pos: position{line: 2914, col: 12, offset: 92006},
 																																run: (*parser).callonListContinuationElement1654,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2905, col: 13, offset: 91749},
+																																	pos: position{line: 2914, col: 13, offset: 92007},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2905, col: 13, offset: 91749},
+																																			pos:        position{line: 2914, col: 13, offset: 92007},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2905, col: 20, offset: 91756},
+																																			pos:        position{line: 2914, col: 20, offset: 92014},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2905, col: 29, offset: 91765},
+																																			pos:        position{line: 2914, col: 29, offset: 92023},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -37576,9 +37576,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2915, col: 8, offset: 91925},
+																																pos: position{line: 2924, col: 8, offset: 92183},
 																																expr: &anyMatcher{
-																																	line: 2915, col: 9, offset: 91926,
+																																	line: 2924, col: 9, offset: 92184,
 																																},
 																															},
 																														},
@@ -37596,38 +37596,38 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2630, col: 9, offset: 84049},
+																		pos: position{line: 2639, col: 9, offset: 84307},
 																		expr: &actionExpr{
-																			pos: position{line: 2497, col: 22, offset: 80337},
+																			pos: position{line: 2497, col: 22, offset: 80369},
 																			run: (*parser).callonListContinuationElement1662,
 																			expr: &seqExpr{
-																				pos: position{line: 2497, col: 22, offset: 80337},
+																				pos: position{line: 2497, col: 22, offset: 80369},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2502, col: 31, offset: 80558},
+																						pos:        position{line: 2502, col: 31, offset: 80590},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2502, col: 36, offset: 80563},
+																						pos: position{line: 2502, col: 36, offset: 80595},
 																						expr: &litMatcher{
-																							pos:        position{line: 2502, col: 37, offset: 80564},
+																							pos:        position{line: 2502, col: 37, offset: 80596},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 2497, col: 49, offset: 80364},
+																						pos:   position{line: 2497, col: 49, offset: 80396},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2842, col: 13, offset: 90103},
+																							pos: position{line: 2851, col: 13, offset: 90361},
 																							run: (*parser).callonListContinuationElement1668,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2842, col: 13, offset: 90103},
+																								pos: position{line: 2851, col: 13, offset: 90361},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2842, col: 13, offset: 90103},
+																									pos:        position{line: 2851, col: 13, offset: 90361},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -37637,28 +37637,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2918, col: 8, offset: 91975},
+																						pos: position{line: 2927, col: 8, offset: 92233},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2905, col: 12, offset: 91748},
+																								pos: position{line: 2914, col: 12, offset: 92006},
 																								run: (*parser).callonListContinuationElement1672,
 																								expr: &choiceExpr{
-																									pos: position{line: 2905, col: 13, offset: 91749},
+																									pos: position{line: 2914, col: 13, offset: 92007},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 13, offset: 91749},
+																											pos:        position{line: 2914, col: 13, offset: 92007},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 20, offset: 91756},
+																											pos:        position{line: 2914, col: 20, offset: 92014},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 29, offset: 91765},
+																											pos:        position{line: 2914, col: 29, offset: 92023},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -37667,9 +37667,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2915, col: 8, offset: 91925},
+																								pos: position{line: 2924, col: 8, offset: 92183},
 																								expr: &anyMatcher{
-																									line: 2915, col: 9, offset: 91926,
+																									line: 2924, col: 9, offset: 92184,
 																								},
 																							},
 																						},
@@ -37684,24 +37684,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2642, col: 22, offset: 84298},
+													pos: position{line: 2651, col: 22, offset: 84556},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2638, col: 19, offset: 84218},
+															pos: position{line: 2647, col: 19, offset: 84476},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2638, col: 19, offset: 84218},
+																	pos:        position{line: 2647, col: 19, offset: 84476},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2638, col: 26, offset: 84225},
+																	pos: position{line: 2647, col: 26, offset: 84483},
 																	expr: &actionExpr{
-																		pos: position{line: 2896, col: 10, offset: 91577},
+																		pos: position{line: 2905, col: 10, offset: 91835},
 																		run: (*parser).callonListContinuationElement1683,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 10, offset: 91577},
+																			pos:        position{line: 2905, col: 10, offset: 91835},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37710,28 +37710,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonListContinuationElement1686,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37740,9 +37740,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -37750,9 +37750,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2915, col: 8, offset: 91925},
+															pos: position{line: 2924, col: 8, offset: 92183},
 															expr: &anyMatcher{
-																line: 2915, col: 9, offset: 91926,
+																line: 2924, col: 9, offset: 92184,
 															},
 														},
 													},
@@ -37761,36 +37761,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2497, col: 22, offset: 80337},
+										pos: position{line: 2497, col: 22, offset: 80369},
 										run: (*parser).callonListContinuationElement1695,
 										expr: &seqExpr{
-											pos: position{line: 2497, col: 22, offset: 80337},
+											pos: position{line: 2497, col: 22, offset: 80369},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2502, col: 31, offset: 80558},
+													pos:        position{line: 2502, col: 31, offset: 80590},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2502, col: 36, offset: 80563},
+													pos: position{line: 2502, col: 36, offset: 80595},
 													expr: &litMatcher{
-														pos:        position{line: 2502, col: 37, offset: 80564},
+														pos:        position{line: 2502, col: 37, offset: 80596},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2497, col: 49, offset: 80364},
+													pos:   position{line: 2497, col: 49, offset: 80396},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2842, col: 13, offset: 90103},
+														pos: position{line: 2851, col: 13, offset: 90361},
 														run: (*parser).callonListContinuationElement1701,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2842, col: 13, offset: 90103},
+															pos: position{line: 2851, col: 13, offset: 90361},
 															expr: &charClassMatcher{
-																pos:        position{line: 2842, col: 13, offset: 90103},
+																pos:        position{line: 2851, col: 13, offset: 90361},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37800,28 +37800,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2918, col: 8, offset: 91975},
+													pos: position{line: 2927, col: 8, offset: 92233},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2905, col: 12, offset: 91748},
+															pos: position{line: 2914, col: 12, offset: 92006},
 															run: (*parser).callonListContinuationElement1705,
 															expr: &choiceExpr{
-																pos: position{line: 2905, col: 13, offset: 91749},
+																pos: position{line: 2914, col: 13, offset: 92007},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 13, offset: 91749},
+																		pos:        position{line: 2914, col: 13, offset: 92007},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 20, offset: 91756},
+																		pos:        position{line: 2914, col: 20, offset: 92014},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 29, offset: 91765},
+																		pos:        position{line: 2914, col: 29, offset: 92023},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37830,9 +37830,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2915, col: 8, offset: 91925},
+															pos: position{line: 2924, col: 8, offset: 92183},
 															expr: &anyMatcher{
-																line: 2915, col: 9, offset: 91926,
+																line: 2924, col: 9, offset: 92184,
 															},
 														},
 													},
@@ -37841,94 +37841,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1587, col: 5, offset: 51272},
+										pos: position{line: 1587, col: 5, offset: 51304},
 										run: (*parser).callonListContinuationElement1712,
 										expr: &seqExpr{
-											pos: position{line: 1587, col: 5, offset: 51272},
+											pos: position{line: 1587, col: 5, offset: 51304},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1587, col: 5, offset: 51272},
+													pos:   position{line: 1587, col: 5, offset: 51304},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1587, col: 11, offset: 51278},
+														pos: position{line: 1587, col: 11, offset: 51310},
 														expr: &actionExpr{
-															pos: position{line: 1752, col: 5, offset: 56627},
+															pos: position{line: 1752, col: 5, offset: 56659},
 															run: (*parser).callonListContinuationElement1716,
 															expr: &seqExpr{
-																pos: position{line: 1752, col: 5, offset: 56627},
+																pos: position{line: 1752, col: 5, offset: 56659},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1752, col: 5, offset: 56627},
+																		pos: position{line: 1752, col: 5, offset: 56659},
 																		run: (*parser).callonListContinuationElement1718,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1755, col: 5, offset: 56690},
+																		pos:   position{line: 1755, col: 5, offset: 56722},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1755, col: 12, offset: 56697},
+																			pos: position{line: 1755, col: 12, offset: 56729},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1755, col: 12, offset: 56697},
+																					pos: position{line: 1755, col: 12, offset: 56729},
 																					run: (*parser).callonListContinuationElement1721,
 																					expr: &litMatcher{
-																						pos:        position{line: 1755, col: 12, offset: 56697},
+																						pos:        position{line: 1755, col: 12, offset: 56729},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1757, col: 13, offset: 56753},
+																					pos: position{line: 1757, col: 13, offset: 56785},
 																					run: (*parser).callonListContinuationElement1723,
 																					expr: &litMatcher{
-																						pos:        position{line: 1757, col: 13, offset: 56753},
+																						pos:        position{line: 1757, col: 13, offset: 56785},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1759, col: 13, offset: 56811},
+																					pos: position{line: 1759, col: 13, offset: 56843},
 																					run: (*parser).callonListContinuationElement1725,
 																					expr: &litMatcher{
-																						pos:        position{line: 1759, col: 13, offset: 56811},
+																						pos:        position{line: 1759, col: 13, offset: 56843},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1761, col: 13, offset: 56879},
+																					pos: position{line: 1761, col: 13, offset: 56911},
 																					run: (*parser).callonListContinuationElement1727,
 																					expr: &litMatcher{
-																						pos:        position{line: 1761, col: 13, offset: 56879},
+																						pos:        position{line: 1761, col: 13, offset: 56911},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1763, col: 13, offset: 56943},
+																					pos: position{line: 1763, col: 13, offset: 56975},
 																					run: (*parser).callonListContinuationElement1729,
 																					expr: &litMatcher{
-																						pos:        position{line: 1763, col: 13, offset: 56943},
+																						pos:        position{line: 1763, col: 13, offset: 56975},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1765, col: 13, offset: 57007},
+																					pos: position{line: 1765, col: 13, offset: 57039},
 																					run: (*parser).callonListContinuationElement1731,
 																					expr: &andExpr{
-																						pos: position{line: 1765, col: 13, offset: 57007},
+																						pos: position{line: 1765, col: 13, offset: 57039},
 																						expr: &actionExpr{
-																							pos: position{line: 2900, col: 11, offset: 91638},
+																							pos: position{line: 2909, col: 11, offset: 91896},
 																							run: (*parser).callonListContinuationElement1733,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2900, col: 11, offset: 91638},
+																								pos: position{line: 2909, col: 11, offset: 91896},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2900, col: 11, offset: 91638},
+																									pos:        position{line: 2909, col: 11, offset: 91896},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37947,35 +37947,35 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1588, col: 5, offset: 51301},
+													pos:   position{line: 1588, col: 5, offset: 51333},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1531, col: 5, offset: 49651},
+														pos: position{line: 1531, col: 5, offset: 49683},
 														run: (*parser).callonListContinuationElement1737,
 														expr: &seqExpr{
-															pos: position{line: 1531, col: 5, offset: 49651},
+															pos: position{line: 1531, col: 5, offset: 49683},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1531, col: 5, offset: 49651},
+																	pos: position{line: 1531, col: 5, offset: 49683},
 																	expr: &actionExpr{
-																		pos: position{line: 687, col: 14, offset: 21835},
+																		pos: position{line: 687, col: 14, offset: 21867},
 																		run: (*parser).callonListContinuationElement1740,
 																		expr: &seqExpr{
-																			pos: position{line: 687, col: 14, offset: 21835},
+																			pos: position{line: 687, col: 14, offset: 21867},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2913, col: 11, offset: 91911},
+																					pos: position{line: 2922, col: 11, offset: 92169},
 																					expr: &anyMatcher{
-																						line: 2913, col: 13, offset: 91913,
+																						line: 2922, col: 13, offset: 92171,
 																					},
 																				},
 																				&zeroOrMoreExpr{
-																					pos: position{line: 687, col: 21, offset: 21842},
+																					pos: position{line: 687, col: 21, offset: 21874},
 																					expr: &actionExpr{
-																						pos: position{line: 2896, col: 10, offset: 91577},
+																						pos: position{line: 2905, col: 10, offset: 91835},
 																						run: (*parser).callonListContinuationElement1745,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2896, col: 10, offset: 91577},
+																							pos:        position{line: 2905, col: 10, offset: 91835},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37984,28 +37984,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2918, col: 8, offset: 91975},
+																					pos: position{line: 2927, col: 8, offset: 92233},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2905, col: 12, offset: 91748},
+																							pos: position{line: 2914, col: 12, offset: 92006},
 																							run: (*parser).callonListContinuationElement1748,
 																							expr: &choiceExpr{
-																								pos: position{line: 2905, col: 13, offset: 91749},
+																								pos: position{line: 2914, col: 13, offset: 92007},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 13, offset: 91749},
+																										pos:        position{line: 2914, col: 13, offset: 92007},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 20, offset: 91756},
+																										pos:        position{line: 2914, col: 20, offset: 92014},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 29, offset: 91765},
+																										pos:        position{line: 2914, col: 29, offset: 92023},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38014,9 +38014,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2915, col: 8, offset: 91925},
+																							pos: position{line: 2924, col: 8, offset: 92183},
 																							expr: &anyMatcher{
-																								line: 2915, col: 9, offset: 91926,
+																								line: 2924, col: 9, offset: 92184,
 																							},
 																						},
 																					},
@@ -38026,23 +38026,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1532, col: 5, offset: 49666},
+																	pos: position{line: 1532, col: 5, offset: 49698},
 																	expr: &seqExpr{
-																		pos: position{line: 1562, col: 27, offset: 50492},
+																		pos: position{line: 1562, col: 27, offset: 50524},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1562, col: 27, offset: 50492},
+																				pos:        position{line: 1562, col: 27, offset: 50524},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1562, col: 31, offset: 50496},
+																				pos: position{line: 1562, col: 31, offset: 50528},
 																				expr: &actionExpr{
-																					pos: position{line: 2896, col: 10, offset: 91577},
+																					pos: position{line: 2905, col: 10, offset: 91835},
 																					run: (*parser).callonListContinuationElement1759,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2896, col: 10, offset: 91577},
+																						pos:        position{line: 2905, col: 10, offset: 91835},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -38051,25 +38051,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2905, col: 12, offset: 91748},
+																				pos: position{line: 2914, col: 12, offset: 92006},
 																				run: (*parser).callonListContinuationElement1761,
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 13, offset: 91749},
+																					pos: position{line: 2914, col: 13, offset: 92007},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 13, offset: 91749},
+																							pos:        position{line: 2914, col: 13, offset: 92007},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 20, offset: 91756},
+																							pos:        position{line: 2914, col: 20, offset: 92014},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 29, offset: 91765},
+																							pos:        position{line: 2914, col: 29, offset: 92023},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -38081,20 +38081,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1533, col: 5, offset: 49694},
+																	pos: position{line: 1533, col: 5, offset: 49726},
 																	expr: &actionExpr{
-																		pos: position{line: 1603, col: 5, offset: 51711},
+																		pos: position{line: 1603, col: 5, offset: 51743},
 																		run: (*parser).callonListContinuationElement1767,
 																		expr: &seqExpr{
-																			pos: position{line: 1603, col: 5, offset: 51711},
+																			pos: position{line: 1603, col: 5, offset: 51743},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1603, col: 5, offset: 51711},
+																					pos: position{line: 1603, col: 5, offset: 51743},
 																					expr: &actionExpr{
-																						pos: position{line: 2896, col: 10, offset: 91577},
+																						pos: position{line: 2905, col: 10, offset: 91835},
 																						run: (*parser).callonListContinuationElement1770,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2896, col: 10, offset: 91577},
+																							pos:        position{line: 2905, col: 10, offset: 91835},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38103,27 +38103,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1603, col: 12, offset: 51718},
+																					pos:   position{line: 1603, col: 12, offset: 51750},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1605, col: 9, offset: 51781},
+																						pos: position{line: 1605, col: 9, offset: 51813},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1605, col: 9, offset: 51781},
+																								pos: position{line: 1605, col: 9, offset: 51813},
 																								run: (*parser).callonListContinuationElement1774,
 																								expr: &seqExpr{
-																									pos: position{line: 1605, col: 9, offset: 51781},
+																									pos: position{line: 1605, col: 9, offset: 51813},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1605, col: 9, offset: 51781},
+																											pos:   position{line: 1605, col: 9, offset: 51813},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1605, col: 16, offset: 51788},
+																												pos: position{line: 1605, col: 16, offset: 51820},
 																												run: (*parser).callonListContinuationElement1777,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1605, col: 16, offset: 51788},
+																													pos: position{line: 1605, col: 16, offset: 51820},
 																													expr: &litMatcher{
-																														pos:        position{line: 1605, col: 17, offset: 51789},
+																														pos:        position{line: 1605, col: 17, offset: 51821},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -38132,22 +38132,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1609, col: 9, offset: 51889},
+																											pos: position{line: 1609, col: 9, offset: 51921},
 																											run: (*parser).callonListContinuationElement1780,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1628, col: 11, offset: 52606},
+																								pos: position{line: 1628, col: 11, offset: 52638},
 																								run: (*parser).callonListContinuationElement1781,
 																								expr: &seqExpr{
-																									pos: position{line: 1628, col: 11, offset: 52606},
+																									pos: position{line: 1628, col: 11, offset: 52638},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1628, col: 11, offset: 52606},
+																											pos: position{line: 1628, col: 11, offset: 52638},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1628, col: 12, offset: 52607},
+																												pos:        position{line: 1628, col: 12, offset: 52639},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -38155,7 +38155,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1628, col: 20, offset: 52615},
+																											pos:        position{line: 1628, col: 20, offset: 52647},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38164,20 +38164,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1630, col: 13, offset: 52732},
+																								pos: position{line: 1630, col: 13, offset: 52764},
 																								run: (*parser).callonListContinuationElement1786,
 																								expr: &seqExpr{
-																									pos: position{line: 1630, col: 13, offset: 52732},
+																									pos: position{line: 1630, col: 13, offset: 52764},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1630, col: 14, offset: 52733},
+																											pos:        position{line: 1630, col: 14, offset: 52765},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1630, col: 21, offset: 52740},
+																											pos:        position{line: 1630, col: 21, offset: 52772},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38186,20 +38186,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1632, col: 13, offset: 52860},
+																								pos: position{line: 1632, col: 13, offset: 52892},
 																								run: (*parser).callonListContinuationElement1790,
 																								expr: &seqExpr{
-																									pos: position{line: 1632, col: 13, offset: 52860},
+																									pos: position{line: 1632, col: 13, offset: 52892},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1632, col: 14, offset: 52861},
+																											pos:        position{line: 1632, col: 14, offset: 52893},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1632, col: 21, offset: 52868},
+																											pos:        position{line: 1632, col: 21, offset: 52900},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38208,15 +38208,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1634, col: 13, offset: 52988},
+																								pos: position{line: 1634, col: 13, offset: 53020},
 																								run: (*parser).callonListContinuationElement1794,
 																								expr: &seqExpr{
-																									pos: position{line: 1634, col: 13, offset: 52988},
+																									pos: position{line: 1634, col: 13, offset: 53020},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1634, col: 13, offset: 52988},
+																											pos: position{line: 1634, col: 13, offset: 53020},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1634, col: 14, offset: 52989},
+																												pos:        position{line: 1634, col: 14, offset: 53021},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -38224,7 +38224,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1634, col: 26, offset: 53001},
+																											pos:        position{line: 1634, col: 26, offset: 53033},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -38233,15 +38233,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1636, col: 13, offset: 53121},
+																								pos: position{line: 1636, col: 13, offset: 53153},
 																								run: (*parser).callonListContinuationElement1799,
 																								expr: &seqExpr{
-																									pos: position{line: 1636, col: 13, offset: 53121},
+																									pos: position{line: 1636, col: 13, offset: 53153},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1636, col: 13, offset: 53121},
+																											pos: position{line: 1636, col: 13, offset: 53153},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1636, col: 14, offset: 53122},
+																												pos:        position{line: 1636, col: 14, offset: 53154},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -38249,7 +38249,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1636, col: 26, offset: 53134},
+																											pos:        position{line: 1636, col: 26, offset: 53166},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -38261,12 +38261,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2900, col: 11, offset: 91638},
+																					pos: position{line: 2909, col: 11, offset: 91896},
 																					run: (*parser).callonListContinuationElement1804,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2900, col: 11, offset: 91638},
+																						pos: position{line: 2909, col: 11, offset: 91896},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2900, col: 11, offset: 91638},
+																							pos:        position{line: 2909, col: 11, offset: 91896},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38279,20 +38279,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1534, col: 5, offset: 49724},
+																	pos: position{line: 1534, col: 5, offset: 49756},
 																	expr: &actionExpr{
-																		pos: position{line: 1653, col: 5, offset: 53673},
+																		pos: position{line: 1653, col: 5, offset: 53705},
 																		run: (*parser).callonListContinuationElement1808,
 																		expr: &seqExpr{
-																			pos: position{line: 1653, col: 5, offset: 53673},
+																			pos: position{line: 1653, col: 5, offset: 53705},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1653, col: 5, offset: 53673},
+																					pos: position{line: 1653, col: 5, offset: 53705},
 																					expr: &actionExpr{
-																						pos: position{line: 2896, col: 10, offset: 91577},
+																						pos: position{line: 2905, col: 10, offset: 91835},
 																						run: (*parser).callonListContinuationElement1811,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2896, col: 10, offset: 91577},
+																							pos:        position{line: 2905, col: 10, offset: 91835},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38301,24 +38301,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1654, col: 5, offset: 53685},
+																					pos:   position{line: 1654, col: 5, offset: 53717},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1655, col: 9, offset: 53701},
+																						pos: position{line: 1655, col: 9, offset: 53733},
 																						run: (*parser).callonListContinuationElement1814,
 																						expr: &choiceExpr{
-																							pos: position{line: 1655, col: 10, offset: 53702},
+																							pos: position{line: 1655, col: 10, offset: 53734},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1655, col: 11, offset: 53703},
+																									pos:        position{line: 1655, col: 11, offset: 53735},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1655, col: 18, offset: 53710},
+																									pos: position{line: 1655, col: 18, offset: 53742},
 																									expr: &litMatcher{
-																										pos:        position{line: 1655, col: 19, offset: 53711},
+																										pos:        position{line: 1655, col: 19, offset: 53743},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -38329,16 +38329,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1658, col: 7, offset: 53801},
+																					pos: position{line: 1658, col: 7, offset: 53833},
 																					run: (*parser).callonListContinuationElement1819,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2900, col: 11, offset: 91638},
+																					pos: position{line: 2909, col: 11, offset: 91896},
 																					run: (*parser).callonListContinuationElement1820,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2900, col: 11, offset: 91638},
+																						pos: position{line: 2909, col: 11, offset: 91896},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2900, col: 11, offset: 91638},
+																							pos:        position{line: 2909, col: 11, offset: 91896},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38351,29 +38351,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1535, col: 5, offset: 49756},
+																	pos: position{line: 1535, col: 5, offset: 49788},
 																	expr: &actionExpr{
-																		pos: position{line: 1743, col: 5, offset: 56242},
+																		pos: position{line: 1743, col: 5, offset: 56274},
 																		run: (*parser).callonListContinuationElement1824,
 																		expr: &seqExpr{
-																			pos: position{line: 1743, col: 5, offset: 56242},
+																			pos: position{line: 1743, col: 5, offset: 56274},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1743, col: 5, offset: 56242},
+																					pos:        position{line: 1743, col: 5, offset: 56274},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1743, col: 9, offset: 56246},
+																					pos:   position{line: 1743, col: 9, offset: 56278},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1743, col: 14, offset: 56251},
+																						pos: position{line: 1743, col: 14, offset: 56283},
 																						run: (*parser).callonListContinuationElement1828,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1743, col: 14, offset: 56251},
+																							pos: position{line: 1743, col: 14, offset: 56283},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1743, col: 14, offset: 56251},
+																								pos:        position{line: 1743, col: 14, offset: 56283},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -38383,18 +38383,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1743, col: 62, offset: 56299},
+																					pos:        position{line: 1743, col: 62, offset: 56331},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2900, col: 11, offset: 91638},
+																					pos: position{line: 2909, col: 11, offset: 91896},
 																					run: (*parser).callonListContinuationElement1832,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2900, col: 11, offset: 91638},
+																						pos: position{line: 2909, col: 11, offset: 91896},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2900, col: 11, offset: 91638},
+																							pos:        position{line: 2909, col: 11, offset: 91896},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38407,31 +38407,31 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1536, col: 5, offset: 49786},
+																	pos: position{line: 1536, col: 5, offset: 49818},
 																	expr: &seqExpr{
-																		pos: position{line: 1536, col: 7, offset: 49788},
+																		pos: position{line: 1536, col: 7, offset: 49820},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1688, col: 5, offset: 54692},
+																				pos: position{line: 1688, col: 5, offset: 54724},
 																				run: (*parser).callonListContinuationElement1837,
 																				expr: &seqExpr{
-																					pos: position{line: 1688, col: 5, offset: 54692},
+																					pos: position{line: 1688, col: 5, offset: 54724},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1688, col: 5, offset: 54692},
+																							pos: position{line: 1688, col: 5, offset: 54724},
 																							expr: &seqExpr{
-																								pos: position{line: 2502, col: 31, offset: 80558},
+																								pos: position{line: 2502, col: 31, offset: 80590},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2502, col: 31, offset: 80558},
+																										pos:        position{line: 2502, col: 31, offset: 80590},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2502, col: 36, offset: 80563},
+																										pos: position{line: 2502, col: 36, offset: 80595},
 																										expr: &litMatcher{
-																											pos:        position{line: 2502, col: 37, offset: 80564},
+																											pos:        position{line: 2502, col: 37, offset: 80596},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -38441,28 +38441,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1689, col: 5, offset: 54724},
+																							pos: position{line: 1689, col: 5, offset: 54756},
 																							expr: &seqExpr{
-																								pos: position{line: 1689, col: 6, offset: 54725},
+																								pos: position{line: 1689, col: 6, offset: 54757},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1689, col: 6, offset: 54725},
+																										pos: position{line: 1689, col: 6, offset: 54757},
 																										expr: &actionExpr{
-																											pos: position{line: 1694, col: 5, offset: 54875},
+																											pos: position{line: 1694, col: 5, offset: 54907},
 																											run: (*parser).callonListContinuationElement1847,
 																											expr: &seqExpr{
-																												pos: position{line: 1694, col: 5, offset: 54875},
+																												pos: position{line: 1694, col: 5, offset: 54907},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1694, col: 5, offset: 54875},
+																														pos:   position{line: 1694, col: 5, offset: 54907},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1694, col: 16, offset: 54886},
+																															pos: position{line: 1694, col: 16, offset: 54918},
 																															run: (*parser).callonListContinuationElement1850,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1694, col: 16, offset: 54886},
+																																pos: position{line: 1694, col: 16, offset: 54918},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1694, col: 17, offset: 54887},
+																																	pos:        position{line: 1694, col: 17, offset: 54919},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -38471,7 +38471,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1697, col: 5, offset: 54944},
+																														pos: position{line: 1697, col: 5, offset: 54976},
 																														run: (*parser).callonListContinuationElement1853,
 																													},
 																												},
@@ -38479,30 +38479,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1689, col: 35, offset: 54754},
+																										pos: position{line: 1689, col: 35, offset: 54786},
 																										expr: &choiceExpr{
-																											pos: position{line: 2918, col: 8, offset: 91975},
+																											pos: position{line: 2927, col: 8, offset: 92233},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2905, col: 12, offset: 91748},
+																													pos: position{line: 2914, col: 12, offset: 92006},
 																													run: (*parser).callonListContinuationElement1856,
 																													expr: &choiceExpr{
-																														pos: position{line: 2905, col: 13, offset: 91749},
+																														pos: position{line: 2914, col: 13, offset: 92007},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 13, offset: 91749},
+																																pos:        position{line: 2914, col: 13, offset: 92007},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 20, offset: 91756},
+																																pos:        position{line: 2914, col: 20, offset: 92014},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 29, offset: 91765},
+																																pos:        position{line: 2914, col: 29, offset: 92023},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38511,16 +38511,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2915, col: 8, offset: 91925},
+																													pos: position{line: 2924, col: 8, offset: 92183},
 																													expr: &anyMatcher{
-																														line: 2915, col: 9, offset: 91926,
+																														line: 2924, col: 9, offset: 92184,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1689, col: 40, offset: 54759,
+																										line: 1689, col: 40, offset: 54791,
 																									},
 																								},
 																							},
@@ -38529,21 +38529,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1694, col: 5, offset: 54875},
+																				pos: position{line: 1694, col: 5, offset: 54907},
 																				run: (*parser).callonListContinuationElement1864,
 																				expr: &seqExpr{
-																					pos: position{line: 1694, col: 5, offset: 54875},
+																					pos: position{line: 1694, col: 5, offset: 54907},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1694, col: 5, offset: 54875},
+																							pos:   position{line: 1694, col: 5, offset: 54907},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1694, col: 16, offset: 54886},
+																								pos: position{line: 1694, col: 16, offset: 54918},
 																								run: (*parser).callonListContinuationElement1867,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1694, col: 16, offset: 54886},
+																									pos: position{line: 1694, col: 16, offset: 54918},
 																									expr: &litMatcher{
-																										pos:        position{line: 1694, col: 17, offset: 54887},
+																										pos:        position{line: 1694, col: 17, offset: 54919},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -38552,7 +38552,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1697, col: 5, offset: 54944},
+																							pos: position{line: 1697, col: 5, offset: 54976},
 																							run: (*parser).callonListContinuationElement1870,
 																						},
 																					},
@@ -38562,17 +38562,17 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1537, col: 5, offset: 49844},
+																	pos: position{line: 1537, col: 5, offset: 49876},
 																	expr: &actionExpr{
-																		pos: position{line: 738, col: 5, offset: 23496},
+																		pos: position{line: 738, col: 5, offset: 23528},
 																		run: (*parser).callonListContinuationElement1872,
 																		expr: &seqExpr{
-																			pos: position{line: 738, col: 5, offset: 23496},
+																			pos: position{line: 738, col: 5, offset: 23528},
 																			exprs: []interface{}{
 																				&notExpr{
-																					pos: position{line: 738, col: 5, offset: 23496},
+																					pos: position{line: 738, col: 5, offset: 23528},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2786, col: 13, offset: 88672},
+																						pos:        position{line: 2795, col: 13, offset: 88930},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -38580,36 +38580,36 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 739, col: 5, offset: 23526},
+																					pos:   position{line: 739, col: 5, offset: 23558},
 																					label: "delimiter",
 																					expr: &choiceExpr{
-																						pos: position{line: 740, col: 9, offset: 23546},
+																						pos: position{line: 740, col: 9, offset: 23578},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 754, col: 5, offset: 24038},
+																								pos: position{line: 754, col: 5, offset: 24070},
 																								run: (*parser).callonListContinuationElement1878,
 																								expr: &seqExpr{
-																									pos: position{line: 754, col: 5, offset: 24038},
+																									pos: position{line: 754, col: 5, offset: 24070},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 754, col: 5, offset: 24038},
+																											pos:   position{line: 754, col: 5, offset: 24070},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 754, col: 16, offset: 24049},
+																												pos: position{line: 754, col: 16, offset: 24081},
 																												run: (*parser).callonListContinuationElement1881,
 																												expr: &seqExpr{
-																													pos: position{line: 754, col: 16, offset: 24049},
+																													pos: position{line: 754, col: 16, offset: 24081},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 754, col: 16, offset: 24049},
+																															pos:        position{line: 754, col: 16, offset: 24081},
 																															val:        "////",
 																															ignoreCase: false,
 																															want:       "\"////\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 754, col: 23, offset: 24056},
+																															pos: position{line: 754, col: 23, offset: 24088},
 																															expr: &litMatcher{
-																																pos:        position{line: 754, col: 23, offset: 24056},
+																																pos:        position{line: 754, col: 23, offset: 24088},
 																																val:        "/",
 																																ignoreCase: false,
 																																want:       "\"/\"",
@@ -38620,12 +38620,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 756, col: 8, offset: 24140},
+																											pos: position{line: 756, col: 8, offset: 24172},
 																											expr: &actionExpr{
-																												pos: position{line: 2896, col: 10, offset: 91577},
+																												pos: position{line: 2905, col: 10, offset: 91835},
 																												run: (*parser).callonListContinuationElement1887,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2896, col: 10, offset: 91577},
+																													pos:        position{line: 2905, col: 10, offset: 91835},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38634,28 +38634,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2918, col: 8, offset: 91975},
+																											pos: position{line: 2927, col: 8, offset: 92233},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2905, col: 12, offset: 91748},
+																													pos: position{line: 2914, col: 12, offset: 92006},
 																													run: (*parser).callonListContinuationElement1890,
 																													expr: &choiceExpr{
-																														pos: position{line: 2905, col: 13, offset: 91749},
+																														pos: position{line: 2914, col: 13, offset: 92007},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 13, offset: 91749},
+																																pos:        position{line: 2914, col: 13, offset: 92007},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 20, offset: 91756},
+																																pos:        position{line: 2914, col: 20, offset: 92014},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 29, offset: 91765},
+																																pos:        position{line: 2914, col: 29, offset: 92023},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38664,9 +38664,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2915, col: 8, offset: 91925},
+																													pos: position{line: 2924, col: 8, offset: 92183},
 																													expr: &anyMatcher{
-																														line: 2915, col: 9, offset: 91926,
+																														line: 2924, col: 9, offset: 92184,
 																													},
 																												},
 																											},
@@ -38675,30 +38675,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 761, col: 5, offset: 24286},
+																								pos: position{line: 761, col: 5, offset: 24318},
 																								run: (*parser).callonListContinuationElement1897,
 																								expr: &seqExpr{
-																									pos: position{line: 761, col: 5, offset: 24286},
+																									pos: position{line: 761, col: 5, offset: 24318},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 761, col: 5, offset: 24286},
+																											pos:   position{line: 761, col: 5, offset: 24318},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 761, col: 16, offset: 24297},
+																												pos: position{line: 761, col: 16, offset: 24329},
 																												run: (*parser).callonListContinuationElement1900,
 																												expr: &seqExpr{
-																													pos: position{line: 761, col: 16, offset: 24297},
+																													pos: position{line: 761, col: 16, offset: 24329},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 761, col: 16, offset: 24297},
+																															pos:        position{line: 761, col: 16, offset: 24329},
 																															val:        "====",
 																															ignoreCase: false,
 																															want:       "\"====\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 761, col: 23, offset: 24304},
+																															pos: position{line: 761, col: 23, offset: 24336},
 																															expr: &litMatcher{
-																																pos:        position{line: 761, col: 23, offset: 24304},
+																																pos:        position{line: 761, col: 23, offset: 24336},
 																																val:        "=",
 																																ignoreCase: false,
 																																want:       "\"=\"",
@@ -38709,12 +38709,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 763, col: 8, offset: 24388},
+																											pos: position{line: 763, col: 8, offset: 24420},
 																											expr: &actionExpr{
-																												pos: position{line: 2896, col: 10, offset: 91577},
+																												pos: position{line: 2905, col: 10, offset: 91835},
 																												run: (*parser).callonListContinuationElement1906,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2896, col: 10, offset: 91577},
+																													pos:        position{line: 2905, col: 10, offset: 91835},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38723,28 +38723,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2918, col: 8, offset: 91975},
+																											pos: position{line: 2927, col: 8, offset: 92233},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2905, col: 12, offset: 91748},
+																													pos: position{line: 2914, col: 12, offset: 92006},
 																													run: (*parser).callonListContinuationElement1909,
 																													expr: &choiceExpr{
-																														pos: position{line: 2905, col: 13, offset: 91749},
+																														pos: position{line: 2914, col: 13, offset: 92007},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 13, offset: 91749},
+																																pos:        position{line: 2914, col: 13, offset: 92007},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 20, offset: 91756},
+																																pos:        position{line: 2914, col: 20, offset: 92014},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 29, offset: 91765},
+																																pos:        position{line: 2914, col: 29, offset: 92023},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38753,9 +38753,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2915, col: 8, offset: 91925},
+																													pos: position{line: 2924, col: 8, offset: 92183},
 																													expr: &anyMatcher{
-																														line: 2915, col: 9, offset: 91926,
+																														line: 2924, col: 9, offset: 92184,
 																													},
 																												},
 																											},
@@ -38764,27 +38764,27 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 774, col: 26, offset: 24774},
+																								pos: position{line: 774, col: 26, offset: 24806},
 																								run: (*parser).callonListContinuationElement1916,
 																								expr: &seqExpr{
-																									pos: position{line: 774, col: 26, offset: 24774},
+																									pos: position{line: 774, col: 26, offset: 24806},
 																									exprs: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 774, col: 26, offset: 24774},
+																											pos:        position{line: 774, col: 26, offset: 24806},
 																											val:        "```",
 																											ignoreCase: false,
 																											want:       "\"```\"",
 																										},
 																										&labeledExpr{
-																											pos:   position{line: 774, col: 32, offset: 24780},
+																											pos:   position{line: 774, col: 32, offset: 24812},
 																											label: "language",
 																											expr: &actionExpr{
-																												pos: position{line: 778, col: 13, offset: 24910},
+																												pos: position{line: 778, col: 13, offset: 24942},
 																												run: (*parser).callonListContinuationElement1920,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 778, col: 14, offset: 24911},
+																													pos: position{line: 778, col: 14, offset: 24943},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 778, col: 14, offset: 24911},
+																														pos:        position{line: 778, col: 14, offset: 24943},
 																														val:        "[^\\r\\n` ]",
 																														chars:      []rune{'\r', '\n', '`', ' '},
 																														ignoreCase: false,
@@ -38794,12 +38794,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 774, col: 52, offset: 24800},
+																											pos: position{line: 774, col: 52, offset: 24832},
 																											expr: &actionExpr{
-																												pos: position{line: 2896, col: 10, offset: 91577},
+																												pos: position{line: 2905, col: 10, offset: 91835},
 																												run: (*parser).callonListContinuationElement1924,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2896, col: 10, offset: 91577},
+																													pos:        position{line: 2905, col: 10, offset: 91835},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38808,28 +38808,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2918, col: 8, offset: 91975},
+																											pos: position{line: 2927, col: 8, offset: 92233},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2905, col: 12, offset: 91748},
+																													pos: position{line: 2914, col: 12, offset: 92006},
 																													run: (*parser).callonListContinuationElement1927,
 																													expr: &choiceExpr{
-																														pos: position{line: 2905, col: 13, offset: 91749},
+																														pos: position{line: 2914, col: 13, offset: 92007},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 13, offset: 91749},
+																																pos:        position{line: 2914, col: 13, offset: 92007},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 20, offset: 91756},
+																																pos:        position{line: 2914, col: 20, offset: 92014},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 29, offset: 91765},
+																																pos:        position{line: 2914, col: 29, offset: 92023},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38838,9 +38838,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2915, col: 8, offset: 91925},
+																													pos: position{line: 2924, col: 8, offset: 92183},
 																													expr: &anyMatcher{
-																														line: 2915, col: 9, offset: 91926,
+																														line: 2924, col: 9, offset: 92184,
 																													},
 																												},
 																											},
@@ -38849,30 +38849,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 768, col: 5, offset: 24533},
+																								pos: position{line: 768, col: 5, offset: 24565},
 																								run: (*parser).callonListContinuationElement1934,
 																								expr: &seqExpr{
-																									pos: position{line: 768, col: 5, offset: 24533},
+																									pos: position{line: 768, col: 5, offset: 24565},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 768, col: 5, offset: 24533},
+																											pos:   position{line: 768, col: 5, offset: 24565},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 768, col: 16, offset: 24544},
+																												pos: position{line: 768, col: 16, offset: 24576},
 																												run: (*parser).callonListContinuationElement1937,
 																												expr: &seqExpr{
-																													pos: position{line: 768, col: 16, offset: 24544},
+																													pos: position{line: 768, col: 16, offset: 24576},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 768, col: 16, offset: 24544},
+																															pos:        position{line: 768, col: 16, offset: 24576},
 																															val:        "```",
 																															ignoreCase: false,
 																															want:       "\"```\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 768, col: 22, offset: 24550},
+																															pos: position{line: 768, col: 22, offset: 24582},
 																															expr: &litMatcher{
-																																pos:        position{line: 768, col: 22, offset: 24550},
+																																pos:        position{line: 768, col: 22, offset: 24582},
 																																val:        "`",
 																																ignoreCase: false,
 																																want:       "\"`\"",
@@ -38883,12 +38883,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 770, col: 8, offset: 24634},
+																											pos: position{line: 770, col: 8, offset: 24666},
 																											expr: &actionExpr{
-																												pos: position{line: 2896, col: 10, offset: 91577},
+																												pos: position{line: 2905, col: 10, offset: 91835},
 																												run: (*parser).callonListContinuationElement1943,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2896, col: 10, offset: 91577},
+																													pos:        position{line: 2905, col: 10, offset: 91835},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38897,28 +38897,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2918, col: 8, offset: 91975},
+																											pos: position{line: 2927, col: 8, offset: 92233},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2905, col: 12, offset: 91748},
+																													pos: position{line: 2914, col: 12, offset: 92006},
 																													run: (*parser).callonListContinuationElement1946,
 																													expr: &choiceExpr{
-																														pos: position{line: 2905, col: 13, offset: 91749},
+																														pos: position{line: 2914, col: 13, offset: 92007},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 13, offset: 91749},
+																																pos:        position{line: 2914, col: 13, offset: 92007},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 20, offset: 91756},
+																																pos:        position{line: 2914, col: 20, offset: 92014},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 29, offset: 91765},
+																																pos:        position{line: 2914, col: 29, offset: 92023},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38927,9 +38927,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2915, col: 8, offset: 91925},
+																													pos: position{line: 2924, col: 8, offset: 92183},
 																													expr: &anyMatcher{
-																														line: 2915, col: 9, offset: 91926,
+																														line: 2924, col: 9, offset: 92184,
 																													},
 																												},
 																											},
@@ -38938,30 +38938,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 783, col: 5, offset: 25070},
+																								pos: position{line: 783, col: 5, offset: 25102},
 																								run: (*parser).callonListContinuationElement1953,
 																								expr: &seqExpr{
-																									pos: position{line: 783, col: 5, offset: 25070},
+																									pos: position{line: 783, col: 5, offset: 25102},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 783, col: 5, offset: 25070},
+																											pos:   position{line: 783, col: 5, offset: 25102},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 783, col: 16, offset: 25081},
+																												pos: position{line: 783, col: 16, offset: 25113},
 																												run: (*parser).callonListContinuationElement1956,
 																												expr: &seqExpr{
-																													pos: position{line: 783, col: 16, offset: 25081},
+																													pos: position{line: 783, col: 16, offset: 25113},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 783, col: 16, offset: 25081},
+																															pos:        position{line: 783, col: 16, offset: 25113},
 																															val:        "----",
 																															ignoreCase: false,
 																															want:       "\"----\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 783, col: 23, offset: 25088},
+																															pos: position{line: 783, col: 23, offset: 25120},
 																															expr: &litMatcher{
-																																pos:        position{line: 783, col: 23, offset: 25088},
+																																pos:        position{line: 783, col: 23, offset: 25120},
 																																val:        "-",
 																																ignoreCase: false,
 																																want:       "\"-\"",
@@ -38972,12 +38972,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 785, col: 8, offset: 25172},
+																											pos: position{line: 785, col: 8, offset: 25204},
 																											expr: &actionExpr{
-																												pos: position{line: 2896, col: 10, offset: 91577},
+																												pos: position{line: 2905, col: 10, offset: 91835},
 																												run: (*parser).callonListContinuationElement1962,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2896, col: 10, offset: 91577},
+																													pos:        position{line: 2905, col: 10, offset: 91835},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38986,28 +38986,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2918, col: 8, offset: 91975},
+																											pos: position{line: 2927, col: 8, offset: 92233},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2905, col: 12, offset: 91748},
+																													pos: position{line: 2914, col: 12, offset: 92006},
 																													run: (*parser).callonListContinuationElement1965,
 																													expr: &choiceExpr{
-																														pos: position{line: 2905, col: 13, offset: 91749},
+																														pos: position{line: 2914, col: 13, offset: 92007},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 13, offset: 91749},
+																																pos:        position{line: 2914, col: 13, offset: 92007},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 20, offset: 91756},
+																																pos:        position{line: 2914, col: 20, offset: 92014},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 29, offset: 91765},
+																																pos:        position{line: 2914, col: 29, offset: 92023},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39016,9 +39016,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2915, col: 8, offset: 91925},
+																													pos: position{line: 2924, col: 8, offset: 92183},
 																													expr: &anyMatcher{
-																														line: 2915, col: 9, offset: 91926,
+																														line: 2924, col: 9, offset: 92184,
 																													},
 																												},
 																											},
@@ -39027,30 +39027,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 797, col: 5, offset: 25546},
+																								pos: position{line: 797, col: 5, offset: 25578},
 																								run: (*parser).callonListContinuationElement1972,
 																								expr: &seqExpr{
-																									pos: position{line: 797, col: 5, offset: 25546},
+																									pos: position{line: 797, col: 5, offset: 25578},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 797, col: 5, offset: 25546},
+																											pos:   position{line: 797, col: 5, offset: 25578},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 797, col: 16, offset: 25557},
+																												pos: position{line: 797, col: 16, offset: 25589},
 																												run: (*parser).callonListContinuationElement1975,
 																												expr: &seqExpr{
-																													pos: position{line: 797, col: 16, offset: 25557},
+																													pos: position{line: 797, col: 16, offset: 25589},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 797, col: 16, offset: 25557},
+																															pos:        position{line: 797, col: 16, offset: 25589},
 																															val:        "....",
 																															ignoreCase: false,
 																															want:       "\"....\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 797, col: 23, offset: 25564},
+																															pos: position{line: 797, col: 23, offset: 25596},
 																															expr: &litMatcher{
-																																pos:        position{line: 797, col: 23, offset: 25564},
+																																pos:        position{line: 797, col: 23, offset: 25596},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -39061,12 +39061,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 799, col: 8, offset: 25648},
+																											pos: position{line: 799, col: 8, offset: 25680},
 																											expr: &actionExpr{
-																												pos: position{line: 2896, col: 10, offset: 91577},
+																												pos: position{line: 2905, col: 10, offset: 91835},
 																												run: (*parser).callonListContinuationElement1981,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2896, col: 10, offset: 91577},
+																													pos:        position{line: 2905, col: 10, offset: 91835},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39075,28 +39075,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2918, col: 8, offset: 91975},
+																											pos: position{line: 2927, col: 8, offset: 92233},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2905, col: 12, offset: 91748},
+																													pos: position{line: 2914, col: 12, offset: 92006},
 																													run: (*parser).callonListContinuationElement1984,
 																													expr: &choiceExpr{
-																														pos: position{line: 2905, col: 13, offset: 91749},
+																														pos: position{line: 2914, col: 13, offset: 92007},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 13, offset: 91749},
+																																pos:        position{line: 2914, col: 13, offset: 92007},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 20, offset: 91756},
+																																pos:        position{line: 2914, col: 20, offset: 92014},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 29, offset: 91765},
+																																pos:        position{line: 2914, col: 29, offset: 92023},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39105,9 +39105,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2915, col: 8, offset: 91925},
+																													pos: position{line: 2924, col: 8, offset: 92183},
 																													expr: &anyMatcher{
-																														line: 2915, col: 9, offset: 91926,
+																														line: 2924, col: 9, offset: 92184,
 																													},
 																												},
 																											},
@@ -39116,30 +39116,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 804, col: 5, offset: 25798},
+																								pos: position{line: 804, col: 5, offset: 25830},
 																								run: (*parser).callonListContinuationElement1991,
 																								expr: &seqExpr{
-																									pos: position{line: 804, col: 5, offset: 25798},
+																									pos: position{line: 804, col: 5, offset: 25830},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 804, col: 5, offset: 25798},
+																											pos:   position{line: 804, col: 5, offset: 25830},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 804, col: 16, offset: 25809},
+																												pos: position{line: 804, col: 16, offset: 25841},
 																												run: (*parser).callonListContinuationElement1994,
 																												expr: &seqExpr{
-																													pos: position{line: 804, col: 16, offset: 25809},
+																													pos: position{line: 804, col: 16, offset: 25841},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 804, col: 16, offset: 25809},
+																															pos:        position{line: 804, col: 16, offset: 25841},
 																															val:        "++++",
 																															ignoreCase: false,
 																															want:       "\"++++\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 804, col: 23, offset: 25816},
+																															pos: position{line: 804, col: 23, offset: 25848},
 																															expr: &litMatcher{
-																																pos:        position{line: 804, col: 23, offset: 25816},
+																																pos:        position{line: 804, col: 23, offset: 25848},
 																																val:        "+",
 																																ignoreCase: false,
 																																want:       "\"+\"",
@@ -39150,12 +39150,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 806, col: 8, offset: 25900},
+																											pos: position{line: 806, col: 8, offset: 25932},
 																											expr: &actionExpr{
-																												pos: position{line: 2896, col: 10, offset: 91577},
+																												pos: position{line: 2905, col: 10, offset: 91835},
 																												run: (*parser).callonListContinuationElement2000,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2896, col: 10, offset: 91577},
+																													pos:        position{line: 2905, col: 10, offset: 91835},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39164,28 +39164,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2918, col: 8, offset: 91975},
+																											pos: position{line: 2927, col: 8, offset: 92233},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2905, col: 12, offset: 91748},
+																													pos: position{line: 2914, col: 12, offset: 92006},
 																													run: (*parser).callonListContinuationElement2003,
 																													expr: &choiceExpr{
-																														pos: position{line: 2905, col: 13, offset: 91749},
+																														pos: position{line: 2914, col: 13, offset: 92007},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 13, offset: 91749},
+																																pos:        position{line: 2914, col: 13, offset: 92007},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 20, offset: 91756},
+																																pos:        position{line: 2914, col: 20, offset: 92014},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 29, offset: 91765},
+																																pos:        position{line: 2914, col: 29, offset: 92023},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39194,9 +39194,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2915, col: 8, offset: 91925},
+																													pos: position{line: 2924, col: 8, offset: 92183},
 																													expr: &anyMatcher{
-																														line: 2915, col: 9, offset: 91926,
+																														line: 2924, col: 9, offset: 92184,
 																													},
 																												},
 																											},
@@ -39205,30 +39205,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 811, col: 5, offset: 26048},
+																								pos: position{line: 811, col: 5, offset: 26080},
 																								run: (*parser).callonListContinuationElement2010,
 																								expr: &seqExpr{
-																									pos: position{line: 811, col: 5, offset: 26048},
+																									pos: position{line: 811, col: 5, offset: 26080},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 811, col: 5, offset: 26048},
+																											pos:   position{line: 811, col: 5, offset: 26080},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 811, col: 16, offset: 26059},
+																												pos: position{line: 811, col: 16, offset: 26091},
 																												run: (*parser).callonListContinuationElement2013,
 																												expr: &seqExpr{
-																													pos: position{line: 811, col: 16, offset: 26059},
+																													pos: position{line: 811, col: 16, offset: 26091},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 811, col: 16, offset: 26059},
+																															pos:        position{line: 811, col: 16, offset: 26091},
 																															val:        "____",
 																															ignoreCase: false,
 																															want:       "\"____\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 811, col: 23, offset: 26066},
+																															pos: position{line: 811, col: 23, offset: 26098},
 																															expr: &litMatcher{
-																																pos:        position{line: 811, col: 23, offset: 26066},
+																																pos:        position{line: 811, col: 23, offset: 26098},
 																																val:        "_",
 																																ignoreCase: false,
 																																want:       "\"_\"",
@@ -39239,12 +39239,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 813, col: 8, offset: 26150},
+																											pos: position{line: 813, col: 8, offset: 26182},
 																											expr: &actionExpr{
-																												pos: position{line: 2896, col: 10, offset: 91577},
+																												pos: position{line: 2905, col: 10, offset: 91835},
 																												run: (*parser).callonListContinuationElement2019,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2896, col: 10, offset: 91577},
+																													pos:        position{line: 2905, col: 10, offset: 91835},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39253,28 +39253,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2918, col: 8, offset: 91975},
+																											pos: position{line: 2927, col: 8, offset: 92233},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2905, col: 12, offset: 91748},
+																													pos: position{line: 2914, col: 12, offset: 92006},
 																													run: (*parser).callonListContinuationElement2022,
 																													expr: &choiceExpr{
-																														pos: position{line: 2905, col: 13, offset: 91749},
+																														pos: position{line: 2914, col: 13, offset: 92007},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 13, offset: 91749},
+																																pos:        position{line: 2914, col: 13, offset: 92007},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 20, offset: 91756},
+																																pos:        position{line: 2914, col: 20, offset: 92014},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 29, offset: 91765},
+																																pos:        position{line: 2914, col: 29, offset: 92023},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39283,9 +39283,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2915, col: 8, offset: 91925},
+																													pos: position{line: 2924, col: 8, offset: 92183},
 																													expr: &anyMatcher{
-																														line: 2915, col: 9, offset: 91926,
+																														line: 2924, col: 9, offset: 92184,
 																													},
 																												},
 																											},
@@ -39294,30 +39294,30 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 818, col: 5, offset: 26294},
+																								pos: position{line: 818, col: 5, offset: 26326},
 																								run: (*parser).callonListContinuationElement2029,
 																								expr: &seqExpr{
-																									pos: position{line: 818, col: 5, offset: 26294},
+																									pos: position{line: 818, col: 5, offset: 26326},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 818, col: 5, offset: 26294},
+																											pos:   position{line: 818, col: 5, offset: 26326},
 																											label: "delimiter",
 																											expr: &actionExpr{
-																												pos: position{line: 818, col: 16, offset: 26305},
+																												pos: position{line: 818, col: 16, offset: 26337},
 																												run: (*parser).callonListContinuationElement2032,
 																												expr: &seqExpr{
-																													pos: position{line: 818, col: 16, offset: 26305},
+																													pos: position{line: 818, col: 16, offset: 26337},
 																													exprs: []interface{}{
 																														&litMatcher{
-																															pos:        position{line: 818, col: 16, offset: 26305},
+																															pos:        position{line: 818, col: 16, offset: 26337},
 																															val:        "****",
 																															ignoreCase: false,
 																															want:       "\"****\"",
 																														},
 																														&zeroOrMoreExpr{
-																															pos: position{line: 818, col: 23, offset: 26312},
+																															pos: position{line: 818, col: 23, offset: 26344},
 																															expr: &litMatcher{
-																																pos:        position{line: 818, col: 23, offset: 26312},
+																																pos:        position{line: 818, col: 23, offset: 26344},
 																																val:        "*",
 																																ignoreCase: false,
 																																want:       "\"*\"",
@@ -39328,12 +39328,12 @@ var g = &grammar{
 																											},
 																										},
 																										&zeroOrMoreExpr{
-																											pos: position{line: 820, col: 8, offset: 26396},
+																											pos: position{line: 820, col: 8, offset: 26428},
 																											expr: &actionExpr{
-																												pos: position{line: 2896, col: 10, offset: 91577},
+																												pos: position{line: 2905, col: 10, offset: 91835},
 																												run: (*parser).callonListContinuationElement2038,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2896, col: 10, offset: 91577},
+																													pos:        position{line: 2905, col: 10, offset: 91835},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39342,28 +39342,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2918, col: 8, offset: 91975},
+																											pos: position{line: 2927, col: 8, offset: 92233},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2905, col: 12, offset: 91748},
+																													pos: position{line: 2914, col: 12, offset: 92006},
 																													run: (*parser).callonListContinuationElement2041,
 																													expr: &choiceExpr{
-																														pos: position{line: 2905, col: 13, offset: 91749},
+																														pos: position{line: 2914, col: 13, offset: 92007},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 13, offset: 91749},
+																																pos:        position{line: 2914, col: 13, offset: 92007},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 20, offset: 91756},
+																																pos:        position{line: 2914, col: 20, offset: 92014},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2905, col: 29, offset: 91765},
+																																pos:        position{line: 2914, col: 29, offset: 92023},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39372,9 +39372,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2915, col: 8, offset: 91925},
+																													pos: position{line: 2924, col: 8, offset: 92183},
 																													expr: &anyMatcher{
-																														line: 2915, col: 9, offset: 91926,
+																														line: 2924, col: 9, offset: 92184,
 																													},
 																												},
 																											},
@@ -39390,15 +39390,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1538, col: 5, offset: 49864},
+																	pos:   position{line: 1538, col: 5, offset: 49896},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2846, col: 14, offset: 90170},
+																		pos: position{line: 2855, col: 14, offset: 90428},
 																		run: (*parser).callonListContinuationElement2049,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2846, col: 14, offset: 90170},
+																			pos: position{line: 2855, col: 14, offset: 90428},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2846, col: 14, offset: 90170},
+																				pos:        position{line: 2855, col: 14, offset: 90428},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -39408,28 +39408,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonListContinuationElement2053,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -39438,9 +39438,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -39461,33 +39461,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1727, col: 1, offset: 55736},
+			pos:  position{line: 1727, col: 1, offset: 55768},
 			expr: &actionExpr{
-				pos: position{line: 1729, col: 5, offset: 55814},
+				pos: position{line: 1729, col: 5, offset: 55846},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1729, col: 5, offset: 55814},
+					pos: position{line: 1729, col: 5, offset: 55846},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1729, col: 5, offset: 55814},
+							pos: position{line: 1729, col: 5, offset: 55846},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1732, col: 5, offset: 55881},
+							pos:        position{line: 1732, col: 5, offset: 55913},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1732, col: 9, offset: 55885},
+							pos:   position{line: 1732, col: 9, offset: 55917},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1732, col: 14, offset: 55890},
+								pos: position{line: 1732, col: 14, offset: 55922},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1732, col: 14, offset: 55890},
+									pos: position{line: 1732, col: 14, offset: 55922},
 									expr: &charClassMatcher{
-										pos:        position{line: 1732, col: 14, offset: 55890},
+										pos:        position{line: 1732, col: 14, offset: 55922},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -39497,18 +39497,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1732, col: 62, offset: 55938},
+							pos:        position{line: 1732, col: 62, offset: 55970},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1732, col: 66, offset: 55942},
+							pos: position{line: 1732, col: 66, offset: 55974},
 							expr: &actionExpr{
-								pos: position{line: 2896, col: 10, offset: 91577},
+								pos: position{line: 2905, col: 10, offset: 91835},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2896, col: 10, offset: 91577},
+									pos:        position{line: 2905, col: 10, offset: 91835},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -39517,30 +39517,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1732, col: 73, offset: 55949},
+							pos: position{line: 1732, col: 73, offset: 55981},
 							expr: &choiceExpr{
-								pos: position{line: 1732, col: 75, offset: 55951},
+								pos: position{line: 1732, col: 75, offset: 55983},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2905, col: 12, offset: 91748},
+										pos: position{line: 2914, col: 12, offset: 92006},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2905, col: 13, offset: 91749},
+											pos: position{line: 2914, col: 13, offset: 92007},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2905, col: 13, offset: 91749},
+													pos:        position{line: 2914, col: 13, offset: 92007},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2905, col: 20, offset: 91756},
+													pos:        position{line: 2914, col: 20, offset: 92014},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2905, col: 29, offset: 91765},
+													pos:        position{line: 2914, col: 29, offset: 92023},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -39549,13 +39549,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2915, col: 8, offset: 91925},
+										pos: position{line: 2924, col: 8, offset: 92183},
 										expr: &anyMatcher{
-											line: 2915, col: 9, offset: 91926,
+											line: 2924, col: 9, offset: 92184,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1732, col: 81, offset: 55957},
+										pos:  position{line: 1732, col: 81, offset: 55989},
 										name: "Callout",
 									},
 								},
@@ -39567,44 +39567,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1771, col: 1, offset: 57130},
+			pos:  position{line: 1771, col: 1, offset: 57162},
 			expr: &actionExpr{
-				pos: position{line: 1773, col: 5, offset: 57204},
+				pos: position{line: 1773, col: 5, offset: 57236},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1773, col: 5, offset: 57204},
+					pos: position{line: 1773, col: 5, offset: 57236},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1773, col: 5, offset: 57204},
+							pos: position{line: 1773, col: 5, offset: 57236},
 							expr: &seqExpr{
-								pos: position{line: 1773, col: 7, offset: 57206},
+								pos: position{line: 1773, col: 7, offset: 57238},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2786, col: 13, offset: 88672},
+										pos:        position{line: 2795, col: 13, offset: 88930},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1773, col: 16, offset: 57215},
+										pos: position{line: 1773, col: 16, offset: 57247},
 										expr: &seqExpr{
-											pos: position{line: 1773, col: 18, offset: 57217},
+											pos: position{line: 1773, col: 18, offset: 57249},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1773, col: 19, offset: 57218},
+													pos:        position{line: 1773, col: 19, offset: 57250},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2900, col: 11, offset: 91638},
+													pos: position{line: 2909, col: 11, offset: 91896},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2900, col: 11, offset: 91638},
+														pos: position{line: 2909, col: 11, offset: 91896},
 														expr: &charClassMatcher{
-															pos:        position{line: 2900, col: 11, offset: 91638},
+															pos:        position{line: 2909, col: 11, offset: 91896},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -39619,88 +39619,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1774, col: 5, offset: 57358},
+							pos:   position{line: 1774, col: 5, offset: 57390},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1774, col: 11, offset: 57364},
+								pos: position{line: 1774, col: 11, offset: 57396},
 								expr: &actionExpr{
-									pos: position{line: 1752, col: 5, offset: 56627},
+									pos: position{line: 1752, col: 5, offset: 56659},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1752, col: 5, offset: 56627},
+										pos: position{line: 1752, col: 5, offset: 56659},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1752, col: 5, offset: 56627},
+												pos: position{line: 1752, col: 5, offset: 56659},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1755, col: 5, offset: 56690},
+												pos:   position{line: 1755, col: 5, offset: 56722},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1755, col: 12, offset: 56697},
+													pos: position{line: 1755, col: 12, offset: 56729},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1755, col: 12, offset: 56697},
+															pos: position{line: 1755, col: 12, offset: 56729},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1755, col: 12, offset: 56697},
+																pos:        position{line: 1755, col: 12, offset: 56729},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1757, col: 13, offset: 56753},
+															pos: position{line: 1757, col: 13, offset: 56785},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1757, col: 13, offset: 56753},
+																pos:        position{line: 1757, col: 13, offset: 56785},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1759, col: 13, offset: 56811},
+															pos: position{line: 1759, col: 13, offset: 56843},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1759, col: 13, offset: 56811},
+																pos:        position{line: 1759, col: 13, offset: 56843},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1761, col: 13, offset: 56879},
+															pos: position{line: 1761, col: 13, offset: 56911},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1761, col: 13, offset: 56879},
+																pos:        position{line: 1761, col: 13, offset: 56911},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1763, col: 13, offset: 56943},
+															pos: position{line: 1763, col: 13, offset: 56975},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1763, col: 13, offset: 56943},
+																pos:        position{line: 1763, col: 13, offset: 56975},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1765, col: 13, offset: 57007},
+															pos: position{line: 1765, col: 13, offset: 57039},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1765, col: 13, offset: 57007},
+																pos: position{line: 1765, col: 13, offset: 57039},
 																expr: &actionExpr{
-																	pos: position{line: 2900, col: 11, offset: 91638},
+																	pos: position{line: 2909, col: 11, offset: 91896},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2900, col: 11, offset: 91638},
+																		pos: position{line: 2909, col: 11, offset: 91896},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 11, offset: 91638},
+																			pos:        position{line: 2909, col: 11, offset: 91896},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39719,24 +39719,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1775, col: 5, offset: 57386},
+							pos:   position{line: 1775, col: 5, offset: 57418},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1811, col: 5, offset: 58493},
+								pos: position{line: 1811, col: 5, offset: 58525},
 								run: (*parser).callonShortcutParagraph35,
 								expr: &seqExpr{
-									pos: position{line: 1811, col: 5, offset: 58493},
+									pos: position{line: 1811, col: 5, offset: 58525},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1811, col: 5, offset: 58493},
+											pos:   position{line: 1811, col: 5, offset: 58525},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2846, col: 14, offset: 90170},
+												pos: position{line: 2855, col: 14, offset: 90428},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2846, col: 14, offset: 90170},
+													pos: position{line: 2855, col: 14, offset: 90428},
 													expr: &charClassMatcher{
-														pos:        position{line: 2846, col: 14, offset: 90170},
+														pos:        position{line: 2855, col: 14, offset: 90428},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39746,32 +39746,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1812, col: 5, offset: 58517},
+											pos: position{line: 1812, col: 5, offset: 58549},
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2918, col: 8, offset: 91975},
+											pos: position{line: 2927, col: 8, offset: 92233},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2905, col: 12, offset: 91748},
+													pos: position{line: 2914, col: 12, offset: 92006},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2905, col: 13, offset: 91749},
+														pos: position{line: 2914, col: 13, offset: 92007},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2905, col: 13, offset: 91749},
+																pos:        position{line: 2914, col: 13, offset: 92007},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2905, col: 20, offset: 91756},
+																pos:        position{line: 2914, col: 20, offset: 92014},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2905, col: 29, offset: 91765},
+																pos:        position{line: 2914, col: 29, offset: 92023},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39780,9 +39780,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2915, col: 8, offset: 91925},
+													pos: position{line: 2924, col: 8, offset: 92183},
 													expr: &anyMatcher{
-														line: 2915, col: 9, offset: 91926,
+														line: 2924, col: 9, offset: 92184,
 													},
 												},
 											},
@@ -39792,47 +39792,47 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1776, col: 5, offset: 57420},
+							pos: position{line: 1776, col: 5, offset: 57452},
 							run: (*parser).callonShortcutParagraph50,
 						},
 						&labeledExpr{
-							pos:   position{line: 1783, col: 5, offset: 57750},
+							pos:   position{line: 1783, col: 5, offset: 57782},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1783, col: 16, offset: 57761},
+								pos: position{line: 1783, col: 16, offset: 57793},
 								expr: &actionExpr{
-									pos: position{line: 1784, col: 9, offset: 57771},
+									pos: position{line: 1784, col: 9, offset: 57803},
 									run: (*parser).callonShortcutParagraph53,
 									expr: &seqExpr{
-										pos: position{line: 1784, col: 9, offset: 57771},
+										pos: position{line: 1784, col: 9, offset: 57803},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2913, col: 11, offset: 91911},
+												pos: position{line: 2922, col: 11, offset: 92169},
 												expr: &anyMatcher{
-													line: 2913, col: 13, offset: 91913,
+													line: 2922, col: 13, offset: 92171,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1785, col: 9, offset: 57787},
+												pos: position{line: 1785, col: 9, offset: 57819},
 												expr: &actionExpr{
-													pos: position{line: 687, col: 14, offset: 21835},
+													pos: position{line: 687, col: 14, offset: 21867},
 													run: (*parser).callonShortcutParagraph58,
 													expr: &seqExpr{
-														pos: position{line: 687, col: 14, offset: 21835},
+														pos: position{line: 687, col: 14, offset: 21867},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2913, col: 11, offset: 91911},
+																pos: position{line: 2922, col: 11, offset: 92169},
 																expr: &anyMatcher{
-																	line: 2913, col: 13, offset: 91913,
+																	line: 2922, col: 13, offset: 92171,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 687, col: 21, offset: 21842},
+																pos: position{line: 687, col: 21, offset: 21874},
 																expr: &actionExpr{
-																	pos: position{line: 2896, col: 10, offset: 91577},
+																	pos: position{line: 2905, col: 10, offset: 91835},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2896, col: 10, offset: 91577},
+																		pos:        position{line: 2905, col: 10, offset: 91835},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39841,28 +39841,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2918, col: 8, offset: 91975},
+																pos: position{line: 2927, col: 8, offset: 92233},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2905, col: 12, offset: 91748},
+																		pos: position{line: 2914, col: 12, offset: 92006},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2905, col: 13, offset: 91749},
+																			pos: position{line: 2914, col: 13, offset: 92007},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2905, col: 13, offset: 91749},
+																					pos:        position{line: 2914, col: 13, offset: 92007},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2905, col: 20, offset: 91756},
+																					pos:        position{line: 2914, col: 20, offset: 92014},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2905, col: 29, offset: 91765},
+																					pos:        position{line: 2914, col: 29, offset: 92023},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39871,9 +39871,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2915, col: 8, offset: 91925},
+																		pos: position{line: 2924, col: 8, offset: 92183},
 																		expr: &anyMatcher{
-																			line: 2915, col: 9, offset: 91926,
+																			line: 2924, col: 9, offset: 92184,
 																		},
 																	},
 																},
@@ -39883,24 +39883,24 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1786, col: 9, offset: 57806},
+												pos: position{line: 1786, col: 9, offset: 57838},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1786, col: 10, offset: 57807},
+													pos:  position{line: 1786, col: 10, offset: 57839},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1787, col: 9, offset: 57831},
+												pos: position{line: 1787, col: 9, offset: 57863},
 												expr: &actionExpr{
-													pos: position{line: 738, col: 5, offset: 23496},
+													pos: position{line: 738, col: 5, offset: 23528},
 													run: (*parser).callonShortcutParagraph76,
 													expr: &seqExpr{
-														pos: position{line: 738, col: 5, offset: 23496},
+														pos: position{line: 738, col: 5, offset: 23528},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 738, col: 5, offset: 23496},
+																pos: position{line: 738, col: 5, offset: 23528},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2786, col: 13, offset: 88672},
+																	pos:        position{line: 2795, col: 13, offset: 88930},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39908,36 +39908,36 @@ var g = &grammar{
 																},
 															},
 															&labeledExpr{
-																pos:   position{line: 739, col: 5, offset: 23526},
+																pos:   position{line: 739, col: 5, offset: 23558},
 																label: "delimiter",
 																expr: &choiceExpr{
-																	pos: position{line: 740, col: 9, offset: 23546},
+																	pos: position{line: 740, col: 9, offset: 23578},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 754, col: 5, offset: 24038},
+																			pos: position{line: 754, col: 5, offset: 24070},
 																			run: (*parser).callonShortcutParagraph82,
 																			expr: &seqExpr{
-																				pos: position{line: 754, col: 5, offset: 24038},
+																				pos: position{line: 754, col: 5, offset: 24070},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 754, col: 5, offset: 24038},
+																						pos:   position{line: 754, col: 5, offset: 24070},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 754, col: 16, offset: 24049},
+																							pos: position{line: 754, col: 16, offset: 24081},
 																							run: (*parser).callonShortcutParagraph85,
 																							expr: &seqExpr{
-																								pos: position{line: 754, col: 16, offset: 24049},
+																								pos: position{line: 754, col: 16, offset: 24081},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 754, col: 16, offset: 24049},
+																										pos:        position{line: 754, col: 16, offset: 24081},
 																										val:        "////",
 																										ignoreCase: false,
 																										want:       "\"////\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 754, col: 23, offset: 24056},
+																										pos: position{line: 754, col: 23, offset: 24088},
 																										expr: &litMatcher{
-																											pos:        position{line: 754, col: 23, offset: 24056},
+																											pos:        position{line: 754, col: 23, offset: 24088},
 																											val:        "/",
 																											ignoreCase: false,
 																											want:       "\"/\"",
@@ -39948,12 +39948,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 756, col: 8, offset: 24140},
+																						pos: position{line: 756, col: 8, offset: 24172},
 																						expr: &actionExpr{
-																							pos: position{line: 2896, col: 10, offset: 91577},
+																							pos: position{line: 2905, col: 10, offset: 91835},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2896, col: 10, offset: 91577},
+																								pos:        position{line: 2905, col: 10, offset: 91835},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39962,28 +39962,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2918, col: 8, offset: 91975},
+																						pos: position{line: 2927, col: 8, offset: 92233},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2905, col: 12, offset: 91748},
+																								pos: position{line: 2914, col: 12, offset: 92006},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2905, col: 13, offset: 91749},
+																									pos: position{line: 2914, col: 13, offset: 92007},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 13, offset: 91749},
+																											pos:        position{line: 2914, col: 13, offset: 92007},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 20, offset: 91756},
+																											pos:        position{line: 2914, col: 20, offset: 92014},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 29, offset: 91765},
+																											pos:        position{line: 2914, col: 29, offset: 92023},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39992,9 +39992,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2915, col: 8, offset: 91925},
+																								pos: position{line: 2924, col: 8, offset: 92183},
 																								expr: &anyMatcher{
-																									line: 2915, col: 9, offset: 91926,
+																									line: 2924, col: 9, offset: 92184,
 																								},
 																							},
 																						},
@@ -40003,30 +40003,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 761, col: 5, offset: 24286},
+																			pos: position{line: 761, col: 5, offset: 24318},
 																			run: (*parser).callonShortcutParagraph101,
 																			expr: &seqExpr{
-																				pos: position{line: 761, col: 5, offset: 24286},
+																				pos: position{line: 761, col: 5, offset: 24318},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 761, col: 5, offset: 24286},
+																						pos:   position{line: 761, col: 5, offset: 24318},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 761, col: 16, offset: 24297},
+																							pos: position{line: 761, col: 16, offset: 24329},
 																							run: (*parser).callonShortcutParagraph104,
 																							expr: &seqExpr{
-																								pos: position{line: 761, col: 16, offset: 24297},
+																								pos: position{line: 761, col: 16, offset: 24329},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 761, col: 16, offset: 24297},
+																										pos:        position{line: 761, col: 16, offset: 24329},
 																										val:        "====",
 																										ignoreCase: false,
 																										want:       "\"====\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 761, col: 23, offset: 24304},
+																										pos: position{line: 761, col: 23, offset: 24336},
 																										expr: &litMatcher{
-																											pos:        position{line: 761, col: 23, offset: 24304},
+																											pos:        position{line: 761, col: 23, offset: 24336},
 																											val:        "=",
 																											ignoreCase: false,
 																											want:       "\"=\"",
@@ -40037,12 +40037,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 763, col: 8, offset: 24388},
+																						pos: position{line: 763, col: 8, offset: 24420},
 																						expr: &actionExpr{
-																							pos: position{line: 2896, col: 10, offset: 91577},
+																							pos: position{line: 2905, col: 10, offset: 91835},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2896, col: 10, offset: 91577},
+																								pos:        position{line: 2905, col: 10, offset: 91835},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40051,28 +40051,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2918, col: 8, offset: 91975},
+																						pos: position{line: 2927, col: 8, offset: 92233},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2905, col: 12, offset: 91748},
+																								pos: position{line: 2914, col: 12, offset: 92006},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2905, col: 13, offset: 91749},
+																									pos: position{line: 2914, col: 13, offset: 92007},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 13, offset: 91749},
+																											pos:        position{line: 2914, col: 13, offset: 92007},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 20, offset: 91756},
+																											pos:        position{line: 2914, col: 20, offset: 92014},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 29, offset: 91765},
+																											pos:        position{line: 2914, col: 29, offset: 92023},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40081,9 +40081,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2915, col: 8, offset: 91925},
+																								pos: position{line: 2924, col: 8, offset: 92183},
 																								expr: &anyMatcher{
-																									line: 2915, col: 9, offset: 91926,
+																									line: 2924, col: 9, offset: 92184,
 																								},
 																							},
 																						},
@@ -40092,27 +40092,27 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 774, col: 26, offset: 24774},
+																			pos: position{line: 774, col: 26, offset: 24806},
 																			run: (*parser).callonShortcutParagraph120,
 																			expr: &seqExpr{
-																				pos: position{line: 774, col: 26, offset: 24774},
+																				pos: position{line: 774, col: 26, offset: 24806},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 774, col: 26, offset: 24774},
+																						pos:        position{line: 774, col: 26, offset: 24806},
 																						val:        "```",
 																						ignoreCase: false,
 																						want:       "\"```\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 774, col: 32, offset: 24780},
+																						pos:   position{line: 774, col: 32, offset: 24812},
 																						label: "language",
 																						expr: &actionExpr{
-																							pos: position{line: 778, col: 13, offset: 24910},
+																							pos: position{line: 778, col: 13, offset: 24942},
 																							run: (*parser).callonShortcutParagraph124,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 778, col: 14, offset: 24911},
+																								pos: position{line: 778, col: 14, offset: 24943},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 778, col: 14, offset: 24911},
+																									pos:        position{line: 778, col: 14, offset: 24943},
 																									val:        "[^\\r\\n` ]",
 																									chars:      []rune{'\r', '\n', '`', ' '},
 																									ignoreCase: false,
@@ -40122,12 +40122,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 774, col: 52, offset: 24800},
+																						pos: position{line: 774, col: 52, offset: 24832},
 																						expr: &actionExpr{
-																							pos: position{line: 2896, col: 10, offset: 91577},
+																							pos: position{line: 2905, col: 10, offset: 91835},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2896, col: 10, offset: 91577},
+																								pos:        position{line: 2905, col: 10, offset: 91835},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40136,28 +40136,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2918, col: 8, offset: 91975},
+																						pos: position{line: 2927, col: 8, offset: 92233},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2905, col: 12, offset: 91748},
+																								pos: position{line: 2914, col: 12, offset: 92006},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2905, col: 13, offset: 91749},
+																									pos: position{line: 2914, col: 13, offset: 92007},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 13, offset: 91749},
+																											pos:        position{line: 2914, col: 13, offset: 92007},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 20, offset: 91756},
+																											pos:        position{line: 2914, col: 20, offset: 92014},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 29, offset: 91765},
+																											pos:        position{line: 2914, col: 29, offset: 92023},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40166,9 +40166,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2915, col: 8, offset: 91925},
+																								pos: position{line: 2924, col: 8, offset: 92183},
 																								expr: &anyMatcher{
-																									line: 2915, col: 9, offset: 91926,
+																									line: 2924, col: 9, offset: 92184,
 																								},
 																							},
 																						},
@@ -40177,30 +40177,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 768, col: 5, offset: 24533},
+																			pos: position{line: 768, col: 5, offset: 24565},
 																			run: (*parser).callonShortcutParagraph138,
 																			expr: &seqExpr{
-																				pos: position{line: 768, col: 5, offset: 24533},
+																				pos: position{line: 768, col: 5, offset: 24565},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 768, col: 5, offset: 24533},
+																						pos:   position{line: 768, col: 5, offset: 24565},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 768, col: 16, offset: 24544},
+																							pos: position{line: 768, col: 16, offset: 24576},
 																							run: (*parser).callonShortcutParagraph141,
 																							expr: &seqExpr{
-																								pos: position{line: 768, col: 16, offset: 24544},
+																								pos: position{line: 768, col: 16, offset: 24576},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 768, col: 16, offset: 24544},
+																										pos:        position{line: 768, col: 16, offset: 24576},
 																										val:        "```",
 																										ignoreCase: false,
 																										want:       "\"```\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 768, col: 22, offset: 24550},
+																										pos: position{line: 768, col: 22, offset: 24582},
 																										expr: &litMatcher{
-																											pos:        position{line: 768, col: 22, offset: 24550},
+																											pos:        position{line: 768, col: 22, offset: 24582},
 																											val:        "`",
 																											ignoreCase: false,
 																											want:       "\"`\"",
@@ -40211,12 +40211,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 770, col: 8, offset: 24634},
+																						pos: position{line: 770, col: 8, offset: 24666},
 																						expr: &actionExpr{
-																							pos: position{line: 2896, col: 10, offset: 91577},
+																							pos: position{line: 2905, col: 10, offset: 91835},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2896, col: 10, offset: 91577},
+																								pos:        position{line: 2905, col: 10, offset: 91835},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40225,28 +40225,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2918, col: 8, offset: 91975},
+																						pos: position{line: 2927, col: 8, offset: 92233},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2905, col: 12, offset: 91748},
+																								pos: position{line: 2914, col: 12, offset: 92006},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2905, col: 13, offset: 91749},
+																									pos: position{line: 2914, col: 13, offset: 92007},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 13, offset: 91749},
+																											pos:        position{line: 2914, col: 13, offset: 92007},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 20, offset: 91756},
+																											pos:        position{line: 2914, col: 20, offset: 92014},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 29, offset: 91765},
+																											pos:        position{line: 2914, col: 29, offset: 92023},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40255,9 +40255,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2915, col: 8, offset: 91925},
+																								pos: position{line: 2924, col: 8, offset: 92183},
 																								expr: &anyMatcher{
-																									line: 2915, col: 9, offset: 91926,
+																									line: 2924, col: 9, offset: 92184,
 																								},
 																							},
 																						},
@@ -40266,30 +40266,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 783, col: 5, offset: 25070},
+																			pos: position{line: 783, col: 5, offset: 25102},
 																			run: (*parser).callonShortcutParagraph157,
 																			expr: &seqExpr{
-																				pos: position{line: 783, col: 5, offset: 25070},
+																				pos: position{line: 783, col: 5, offset: 25102},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 783, col: 5, offset: 25070},
+																						pos:   position{line: 783, col: 5, offset: 25102},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 783, col: 16, offset: 25081},
+																							pos: position{line: 783, col: 16, offset: 25113},
 																							run: (*parser).callonShortcutParagraph160,
 																							expr: &seqExpr{
-																								pos: position{line: 783, col: 16, offset: 25081},
+																								pos: position{line: 783, col: 16, offset: 25113},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 783, col: 16, offset: 25081},
+																										pos:        position{line: 783, col: 16, offset: 25113},
 																										val:        "----",
 																										ignoreCase: false,
 																										want:       "\"----\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 783, col: 23, offset: 25088},
+																										pos: position{line: 783, col: 23, offset: 25120},
 																										expr: &litMatcher{
-																											pos:        position{line: 783, col: 23, offset: 25088},
+																											pos:        position{line: 783, col: 23, offset: 25120},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
@@ -40300,12 +40300,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 785, col: 8, offset: 25172},
+																						pos: position{line: 785, col: 8, offset: 25204},
 																						expr: &actionExpr{
-																							pos: position{line: 2896, col: 10, offset: 91577},
+																							pos: position{line: 2905, col: 10, offset: 91835},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2896, col: 10, offset: 91577},
+																								pos:        position{line: 2905, col: 10, offset: 91835},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40314,28 +40314,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2918, col: 8, offset: 91975},
+																						pos: position{line: 2927, col: 8, offset: 92233},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2905, col: 12, offset: 91748},
+																								pos: position{line: 2914, col: 12, offset: 92006},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2905, col: 13, offset: 91749},
+																									pos: position{line: 2914, col: 13, offset: 92007},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 13, offset: 91749},
+																											pos:        position{line: 2914, col: 13, offset: 92007},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 20, offset: 91756},
+																											pos:        position{line: 2914, col: 20, offset: 92014},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 29, offset: 91765},
+																											pos:        position{line: 2914, col: 29, offset: 92023},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40344,9 +40344,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2915, col: 8, offset: 91925},
+																								pos: position{line: 2924, col: 8, offset: 92183},
 																								expr: &anyMatcher{
-																									line: 2915, col: 9, offset: 91926,
+																									line: 2924, col: 9, offset: 92184,
 																								},
 																							},
 																						},
@@ -40355,30 +40355,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 797, col: 5, offset: 25546},
+																			pos: position{line: 797, col: 5, offset: 25578},
 																			run: (*parser).callonShortcutParagraph176,
 																			expr: &seqExpr{
-																				pos: position{line: 797, col: 5, offset: 25546},
+																				pos: position{line: 797, col: 5, offset: 25578},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 797, col: 5, offset: 25546},
+																						pos:   position{line: 797, col: 5, offset: 25578},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 797, col: 16, offset: 25557},
+																							pos: position{line: 797, col: 16, offset: 25589},
 																							run: (*parser).callonShortcutParagraph179,
 																							expr: &seqExpr{
-																								pos: position{line: 797, col: 16, offset: 25557},
+																								pos: position{line: 797, col: 16, offset: 25589},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 797, col: 16, offset: 25557},
+																										pos:        position{line: 797, col: 16, offset: 25589},
 																										val:        "....",
 																										ignoreCase: false,
 																										want:       "\"....\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 797, col: 23, offset: 25564},
+																										pos: position{line: 797, col: 23, offset: 25596},
 																										expr: &litMatcher{
-																											pos:        position{line: 797, col: 23, offset: 25564},
+																											pos:        position{line: 797, col: 23, offset: 25596},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -40389,12 +40389,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 799, col: 8, offset: 25648},
+																						pos: position{line: 799, col: 8, offset: 25680},
 																						expr: &actionExpr{
-																							pos: position{line: 2896, col: 10, offset: 91577},
+																							pos: position{line: 2905, col: 10, offset: 91835},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2896, col: 10, offset: 91577},
+																								pos:        position{line: 2905, col: 10, offset: 91835},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40403,28 +40403,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2918, col: 8, offset: 91975},
+																						pos: position{line: 2927, col: 8, offset: 92233},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2905, col: 12, offset: 91748},
+																								pos: position{line: 2914, col: 12, offset: 92006},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2905, col: 13, offset: 91749},
+																									pos: position{line: 2914, col: 13, offset: 92007},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 13, offset: 91749},
+																											pos:        position{line: 2914, col: 13, offset: 92007},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 20, offset: 91756},
+																											pos:        position{line: 2914, col: 20, offset: 92014},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 29, offset: 91765},
+																											pos:        position{line: 2914, col: 29, offset: 92023},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40433,9 +40433,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2915, col: 8, offset: 91925},
+																								pos: position{line: 2924, col: 8, offset: 92183},
 																								expr: &anyMatcher{
-																									line: 2915, col: 9, offset: 91926,
+																									line: 2924, col: 9, offset: 92184,
 																								},
 																							},
 																						},
@@ -40444,30 +40444,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 804, col: 5, offset: 25798},
+																			pos: position{line: 804, col: 5, offset: 25830},
 																			run: (*parser).callonShortcutParagraph195,
 																			expr: &seqExpr{
-																				pos: position{line: 804, col: 5, offset: 25798},
+																				pos: position{line: 804, col: 5, offset: 25830},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 804, col: 5, offset: 25798},
+																						pos:   position{line: 804, col: 5, offset: 25830},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 804, col: 16, offset: 25809},
+																							pos: position{line: 804, col: 16, offset: 25841},
 																							run: (*parser).callonShortcutParagraph198,
 																							expr: &seqExpr{
-																								pos: position{line: 804, col: 16, offset: 25809},
+																								pos: position{line: 804, col: 16, offset: 25841},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 804, col: 16, offset: 25809},
+																										pos:        position{line: 804, col: 16, offset: 25841},
 																										val:        "++++",
 																										ignoreCase: false,
 																										want:       "\"++++\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 804, col: 23, offset: 25816},
+																										pos: position{line: 804, col: 23, offset: 25848},
 																										expr: &litMatcher{
-																											pos:        position{line: 804, col: 23, offset: 25816},
+																											pos:        position{line: 804, col: 23, offset: 25848},
 																											val:        "+",
 																											ignoreCase: false,
 																											want:       "\"+\"",
@@ -40478,12 +40478,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 806, col: 8, offset: 25900},
+																						pos: position{line: 806, col: 8, offset: 25932},
 																						expr: &actionExpr{
-																							pos: position{line: 2896, col: 10, offset: 91577},
+																							pos: position{line: 2905, col: 10, offset: 91835},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2896, col: 10, offset: 91577},
+																								pos:        position{line: 2905, col: 10, offset: 91835},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40492,28 +40492,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2918, col: 8, offset: 91975},
+																						pos: position{line: 2927, col: 8, offset: 92233},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2905, col: 12, offset: 91748},
+																								pos: position{line: 2914, col: 12, offset: 92006},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2905, col: 13, offset: 91749},
+																									pos: position{line: 2914, col: 13, offset: 92007},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 13, offset: 91749},
+																											pos:        position{line: 2914, col: 13, offset: 92007},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 20, offset: 91756},
+																											pos:        position{line: 2914, col: 20, offset: 92014},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 29, offset: 91765},
+																											pos:        position{line: 2914, col: 29, offset: 92023},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40522,9 +40522,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2915, col: 8, offset: 91925},
+																								pos: position{line: 2924, col: 8, offset: 92183},
 																								expr: &anyMatcher{
-																									line: 2915, col: 9, offset: 91926,
+																									line: 2924, col: 9, offset: 92184,
 																								},
 																							},
 																						},
@@ -40533,30 +40533,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 811, col: 5, offset: 26048},
+																			pos: position{line: 811, col: 5, offset: 26080},
 																			run: (*parser).callonShortcutParagraph214,
 																			expr: &seqExpr{
-																				pos: position{line: 811, col: 5, offset: 26048},
+																				pos: position{line: 811, col: 5, offset: 26080},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 811, col: 5, offset: 26048},
+																						pos:   position{line: 811, col: 5, offset: 26080},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 811, col: 16, offset: 26059},
+																							pos: position{line: 811, col: 16, offset: 26091},
 																							run: (*parser).callonShortcutParagraph217,
 																							expr: &seqExpr{
-																								pos: position{line: 811, col: 16, offset: 26059},
+																								pos: position{line: 811, col: 16, offset: 26091},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 811, col: 16, offset: 26059},
+																										pos:        position{line: 811, col: 16, offset: 26091},
 																										val:        "____",
 																										ignoreCase: false,
 																										want:       "\"____\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 811, col: 23, offset: 26066},
+																										pos: position{line: 811, col: 23, offset: 26098},
 																										expr: &litMatcher{
-																											pos:        position{line: 811, col: 23, offset: 26066},
+																											pos:        position{line: 811, col: 23, offset: 26098},
 																											val:        "_",
 																											ignoreCase: false,
 																											want:       "\"_\"",
@@ -40567,12 +40567,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 813, col: 8, offset: 26150},
+																						pos: position{line: 813, col: 8, offset: 26182},
 																						expr: &actionExpr{
-																							pos: position{line: 2896, col: 10, offset: 91577},
+																							pos: position{line: 2905, col: 10, offset: 91835},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2896, col: 10, offset: 91577},
+																								pos:        position{line: 2905, col: 10, offset: 91835},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40581,28 +40581,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2918, col: 8, offset: 91975},
+																						pos: position{line: 2927, col: 8, offset: 92233},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2905, col: 12, offset: 91748},
+																								pos: position{line: 2914, col: 12, offset: 92006},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2905, col: 13, offset: 91749},
+																									pos: position{line: 2914, col: 13, offset: 92007},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 13, offset: 91749},
+																											pos:        position{line: 2914, col: 13, offset: 92007},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 20, offset: 91756},
+																											pos:        position{line: 2914, col: 20, offset: 92014},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 29, offset: 91765},
+																											pos:        position{line: 2914, col: 29, offset: 92023},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40611,9 +40611,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2915, col: 8, offset: 91925},
+																								pos: position{line: 2924, col: 8, offset: 92183},
 																								expr: &anyMatcher{
-																									line: 2915, col: 9, offset: 91926,
+																									line: 2924, col: 9, offset: 92184,
 																								},
 																							},
 																						},
@@ -40622,30 +40622,30 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 818, col: 5, offset: 26294},
+																			pos: position{line: 818, col: 5, offset: 26326},
 																			run: (*parser).callonShortcutParagraph233,
 																			expr: &seqExpr{
-																				pos: position{line: 818, col: 5, offset: 26294},
+																				pos: position{line: 818, col: 5, offset: 26326},
 																				exprs: []interface{}{
 																					&labeledExpr{
-																						pos:   position{line: 818, col: 5, offset: 26294},
+																						pos:   position{line: 818, col: 5, offset: 26326},
 																						label: "delimiter",
 																						expr: &actionExpr{
-																							pos: position{line: 818, col: 16, offset: 26305},
+																							pos: position{line: 818, col: 16, offset: 26337},
 																							run: (*parser).callonShortcutParagraph236,
 																							expr: &seqExpr{
-																								pos: position{line: 818, col: 16, offset: 26305},
+																								pos: position{line: 818, col: 16, offset: 26337},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 818, col: 16, offset: 26305},
+																										pos:        position{line: 818, col: 16, offset: 26337},
 																										val:        "****",
 																										ignoreCase: false,
 																										want:       "\"****\"",
 																									},
 																									&zeroOrMoreExpr{
-																										pos: position{line: 818, col: 23, offset: 26312},
+																										pos: position{line: 818, col: 23, offset: 26344},
 																										expr: &litMatcher{
-																											pos:        position{line: 818, col: 23, offset: 26312},
+																											pos:        position{line: 818, col: 23, offset: 26344},
 																											val:        "*",
 																											ignoreCase: false,
 																											want:       "\"*\"",
@@ -40656,12 +40656,12 @@ var g = &grammar{
 																						},
 																					},
 																					&zeroOrMoreExpr{
-																						pos: position{line: 820, col: 8, offset: 26396},
+																						pos: position{line: 820, col: 8, offset: 26428},
 																						expr: &actionExpr{
-																							pos: position{line: 2896, col: 10, offset: 91577},
+																							pos: position{line: 2905, col: 10, offset: 91835},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2896, col: 10, offset: 91577},
+																								pos:        position{line: 2905, col: 10, offset: 91835},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40670,28 +40670,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2918, col: 8, offset: 91975},
+																						pos: position{line: 2927, col: 8, offset: 92233},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2905, col: 12, offset: 91748},
+																								pos: position{line: 2914, col: 12, offset: 92006},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2905, col: 13, offset: 91749},
+																									pos: position{line: 2914, col: 13, offset: 92007},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 13, offset: 91749},
+																											pos:        position{line: 2914, col: 13, offset: 92007},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 20, offset: 91756},
+																											pos:        position{line: 2914, col: 20, offset: 92014},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2905, col: 29, offset: 91765},
+																											pos:        position{line: 2914, col: 29, offset: 92023},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40700,9 +40700,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2915, col: 8, offset: 91925},
+																								pos: position{line: 2924, col: 8, offset: 92183},
 																								expr: &anyMatcher{
-																									line: 2915, col: 9, offset: 91926,
+																									line: 2924, col: 9, offset: 92184,
 																								},
 																							},
 																						},
@@ -40718,23 +40718,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1788, col: 9, offset: 57855},
+												pos: position{line: 1788, col: 9, offset: 57887},
 												expr: &seqExpr{
-													pos: position{line: 1562, col: 27, offset: 50492},
+													pos: position{line: 1562, col: 27, offset: 50524},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1562, col: 27, offset: 50492},
+															pos:        position{line: 1562, col: 27, offset: 50524},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1562, col: 31, offset: 50496},
+															pos: position{line: 1562, col: 31, offset: 50528},
 															expr: &actionExpr{
-																pos: position{line: 2896, col: 10, offset: 91577},
+																pos: position{line: 2905, col: 10, offset: 91835},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2896, col: 10, offset: 91577},
+																	pos:        position{line: 2905, col: 10, offset: 91835},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40743,25 +40743,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2905, col: 12, offset: 91748},
+															pos: position{line: 2914, col: 12, offset: 92006},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2905, col: 13, offset: 91749},
+																pos: position{line: 2914, col: 13, offset: 92007},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 13, offset: 91749},
+																		pos:        position{line: 2914, col: 13, offset: 92007},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 20, offset: 91756},
+																		pos:        position{line: 2914, col: 20, offset: 92014},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 29, offset: 91765},
+																		pos:        position{line: 2914, col: 29, offset: 92023},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40773,42 +40773,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1789, col: 9, offset: 57887},
+												pos:   position{line: 1789, col: 9, offset: 57919},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1789, col: 15, offset: 57893},
+													pos: position{line: 1789, col: 15, offset: 57925},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2497, col: 22, offset: 80337},
+															pos: position{line: 2497, col: 22, offset: 80369},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2497, col: 22, offset: 80337},
+																pos: position{line: 2497, col: 22, offset: 80369},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2502, col: 31, offset: 80558},
+																		pos:        position{line: 2502, col: 31, offset: 80590},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2502, col: 36, offset: 80563},
+																		pos: position{line: 2502, col: 36, offset: 80595},
 																		expr: &litMatcher{
-																			pos:        position{line: 2502, col: 37, offset: 80564},
+																			pos:        position{line: 2502, col: 37, offset: 80596},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2497, col: 49, offset: 80364},
+																		pos:   position{line: 2497, col: 49, offset: 80396},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2842, col: 13, offset: 90103},
+																			pos: position{line: 2851, col: 13, offset: 90361},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2842, col: 13, offset: 90103},
+																				pos: position{line: 2851, col: 13, offset: 90361},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2842, col: 13, offset: 90103},
+																					pos:        position{line: 2851, col: 13, offset: 90361},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40818,28 +40818,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2918, col: 8, offset: 91975},
+																		pos: position{line: 2927, col: 8, offset: 92233},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2905, col: 12, offset: 91748},
+																				pos: position{line: 2914, col: 12, offset: 92006},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 13, offset: 91749},
+																					pos: position{line: 2914, col: 13, offset: 92007},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 13, offset: 91749},
+																							pos:        position{line: 2914, col: 13, offset: 92007},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 20, offset: 91756},
+																							pos:        position{line: 2914, col: 20, offset: 92014},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 29, offset: 91765},
+																							pos:        position{line: 2914, col: 29, offset: 92023},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40848,9 +40848,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2915, col: 8, offset: 91925},
+																				pos: position{line: 2924, col: 8, offset: 92183},
 																				expr: &anyMatcher{
-																					line: 2915, col: 9, offset: 91926,
+																					line: 2924, col: 9, offset: 92184,
 																				},
 																			},
 																		},
@@ -40859,21 +40859,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1811, col: 5, offset: 58493},
+															pos: position{line: 1811, col: 5, offset: 58525},
 															run: (*parser).callonShortcutParagraph282,
 															expr: &seqExpr{
-																pos: position{line: 1811, col: 5, offset: 58493},
+																pos: position{line: 1811, col: 5, offset: 58525},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1811, col: 5, offset: 58493},
+																		pos:   position{line: 1811, col: 5, offset: 58525},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2846, col: 14, offset: 90170},
+																			pos: position{line: 2855, col: 14, offset: 90428},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2846, col: 14, offset: 90170},
+																				pos: position{line: 2855, col: 14, offset: 90428},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2846, col: 14, offset: 90170},
+																					pos:        position{line: 2855, col: 14, offset: 90428},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40883,32 +40883,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1812, col: 5, offset: 58517},
+																		pos: position{line: 1812, col: 5, offset: 58549},
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2918, col: 8, offset: 91975},
+																		pos: position{line: 2927, col: 8, offset: 92233},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2905, col: 12, offset: 91748},
+																				pos: position{line: 2914, col: 12, offset: 92006},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 13, offset: 91749},
+																					pos: position{line: 2914, col: 13, offset: 92007},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 13, offset: 91749},
+																							pos:        position{line: 2914, col: 13, offset: 92007},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 20, offset: 91756},
+																							pos:        position{line: 2914, col: 20, offset: 92014},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 29, offset: 91765},
+																							pos:        position{line: 2914, col: 29, offset: 92023},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40917,9 +40917,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2915, col: 8, offset: 91925},
+																				pos: position{line: 2924, col: 8, offset: 92183},
 																				expr: &anyMatcher{
-																					line: 2915, col: 9, offset: 91926,
+																					line: 2924, col: 9, offset: 92184,
 																				},
 																			},
 																		},
@@ -40941,96 +40941,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1796, col: 1, offset: 58097},
+			pos:  position{line: 1796, col: 1, offset: 58129},
 			expr: &actionExpr{
-				pos: position{line: 1797, col: 5, offset: 58115},
+				pos: position{line: 1797, col: 5, offset: 58147},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1797, col: 5, offset: 58115},
+					pos: position{line: 1797, col: 5, offset: 58147},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1797, col: 5, offset: 58115},
+							pos:   position{line: 1797, col: 5, offset: 58147},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1797, col: 11, offset: 58121},
+								pos: position{line: 1797, col: 11, offset: 58153},
 								expr: &actionExpr{
-									pos: position{line: 1752, col: 5, offset: 56627},
+									pos: position{line: 1752, col: 5, offset: 56659},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1752, col: 5, offset: 56627},
+										pos: position{line: 1752, col: 5, offset: 56659},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1752, col: 5, offset: 56627},
+												pos: position{line: 1752, col: 5, offset: 56659},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1755, col: 5, offset: 56690},
+												pos:   position{line: 1755, col: 5, offset: 56722},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1755, col: 12, offset: 56697},
+													pos: position{line: 1755, col: 12, offset: 56729},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1755, col: 12, offset: 56697},
+															pos: position{line: 1755, col: 12, offset: 56729},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1755, col: 12, offset: 56697},
+																pos:        position{line: 1755, col: 12, offset: 56729},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1757, col: 13, offset: 56753},
+															pos: position{line: 1757, col: 13, offset: 56785},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1757, col: 13, offset: 56753},
+																pos:        position{line: 1757, col: 13, offset: 56785},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1759, col: 13, offset: 56811},
+															pos: position{line: 1759, col: 13, offset: 56843},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1759, col: 13, offset: 56811},
+																pos:        position{line: 1759, col: 13, offset: 56843},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1761, col: 13, offset: 56879},
+															pos: position{line: 1761, col: 13, offset: 56911},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1761, col: 13, offset: 56879},
+																pos:        position{line: 1761, col: 13, offset: 56911},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1763, col: 13, offset: 56943},
+															pos: position{line: 1763, col: 13, offset: 56975},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1763, col: 13, offset: 56943},
+																pos:        position{line: 1763, col: 13, offset: 56975},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1765, col: 13, offset: 57007},
+															pos: position{line: 1765, col: 13, offset: 57039},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1765, col: 13, offset: 57007},
+																pos: position{line: 1765, col: 13, offset: 57039},
 																expr: &actionExpr{
-																	pos: position{line: 2900, col: 11, offset: 91638},
+																	pos: position{line: 2909, col: 11, offset: 91896},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2900, col: 11, offset: 91638},
+																		pos: position{line: 2909, col: 11, offset: 91896},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2900, col: 11, offset: 91638},
+																			pos:        position{line: 2909, col: 11, offset: 91896},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41049,24 +41049,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1798, col: 5, offset: 58144},
+							pos:   position{line: 1798, col: 5, offset: 58176},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1811, col: 5, offset: 58493},
+								pos: position{line: 1811, col: 5, offset: 58525},
 								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1811, col: 5, offset: 58493},
+									pos: position{line: 1811, col: 5, offset: 58525},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1811, col: 5, offset: 58493},
+											pos:   position{line: 1811, col: 5, offset: 58525},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2846, col: 14, offset: 90170},
+												pos: position{line: 2855, col: 14, offset: 90428},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2846, col: 14, offset: 90170},
+													pos: position{line: 2855, col: 14, offset: 90428},
 													expr: &charClassMatcher{
-														pos:        position{line: 2846, col: 14, offset: 90170},
+														pos:        position{line: 2855, col: 14, offset: 90428},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -41076,32 +41076,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1812, col: 5, offset: 58517},
+											pos: position{line: 1812, col: 5, offset: 58549},
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2918, col: 8, offset: 91975},
+											pos: position{line: 2927, col: 8, offset: 92233},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2905, col: 12, offset: 91748},
+													pos: position{line: 2914, col: 12, offset: 92006},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2905, col: 13, offset: 91749},
+														pos: position{line: 2914, col: 13, offset: 92007},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2905, col: 13, offset: 91749},
+																pos:        position{line: 2914, col: 13, offset: 92007},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2905, col: 20, offset: 91756},
+																pos:        position{line: 2914, col: 20, offset: 92014},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2905, col: 29, offset: 91765},
+																pos:        position{line: 2914, col: 29, offset: 92023},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -41110,9 +41110,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2915, col: 8, offset: 91925},
+													pos: position{line: 2924, col: 8, offset: 92183},
 													expr: &anyMatcher{
-														line: 2915, col: 9, offset: 91926,
+														line: 2924, col: 9, offset: 92184,
 													},
 												},
 											},
@@ -41122,43 +41122,43 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1799, col: 5, offset: 58178},
+							pos:   position{line: 1799, col: 5, offset: 58210},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1799, col: 16, offset: 58189},
+								pos: position{line: 1799, col: 16, offset: 58221},
 								expr: &actionExpr{
-									pos: position{line: 1800, col: 9, offset: 58199},
+									pos: position{line: 1800, col: 9, offset: 58231},
 									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1800, col: 9, offset: 58199},
+										pos: position{line: 1800, col: 9, offset: 58231},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2913, col: 11, offset: 91911},
+												pos: position{line: 2922, col: 11, offset: 92169},
 												expr: &anyMatcher{
-													line: 2913, col: 13, offset: 91913,
+													line: 2922, col: 13, offset: 92171,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1801, col: 9, offset: 58214},
+												pos: position{line: 1801, col: 9, offset: 58246},
 												expr: &actionExpr{
-													pos: position{line: 687, col: 14, offset: 21835},
+													pos: position{line: 687, col: 14, offset: 21867},
 													run: (*parser).callonParagraph48,
 													expr: &seqExpr{
-														pos: position{line: 687, col: 14, offset: 21835},
+														pos: position{line: 687, col: 14, offset: 21867},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2913, col: 11, offset: 91911},
+																pos: position{line: 2922, col: 11, offset: 92169},
 																expr: &anyMatcher{
-																	line: 2913, col: 13, offset: 91913,
+																	line: 2922, col: 13, offset: 92171,
 																},
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 687, col: 21, offset: 21842},
+																pos: position{line: 687, col: 21, offset: 21874},
 																expr: &actionExpr{
-																	pos: position{line: 2896, col: 10, offset: 91577},
+																	pos: position{line: 2905, col: 10, offset: 91835},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2896, col: 10, offset: 91577},
+																		pos:        position{line: 2905, col: 10, offset: 91835},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -41167,28 +41167,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2918, col: 8, offset: 91975},
+																pos: position{line: 2927, col: 8, offset: 92233},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2905, col: 12, offset: 91748},
+																		pos: position{line: 2914, col: 12, offset: 92006},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2905, col: 13, offset: 91749},
+																			pos: position{line: 2914, col: 13, offset: 92007},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2905, col: 13, offset: 91749},
+																					pos:        position{line: 2914, col: 13, offset: 92007},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2905, col: 20, offset: 91756},
+																					pos:        position{line: 2914, col: 20, offset: 92014},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2905, col: 29, offset: 91765},
+																					pos:        position{line: 2914, col: 29, offset: 92023},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -41197,9 +41197,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2915, col: 8, offset: 91925},
+																		pos: position{line: 2924, col: 8, offset: 92183},
 																		expr: &anyMatcher{
-																			line: 2915, col: 9, offset: 91926,
+																			line: 2924, col: 9, offset: 92184,
 																		},
 																	},
 																},
@@ -41209,49 +41209,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1802, col: 9, offset: 58233},
+												pos: position{line: 1802, col: 9, offset: 58265},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1802, col: 10, offset: 58234},
+													pos:  position{line: 1802, col: 10, offset: 58266},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1803, col: 9, offset: 58258},
+												pos:   position{line: 1803, col: 9, offset: 58290},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1803, col: 15, offset: 58264},
+													pos: position{line: 1803, col: 15, offset: 58296},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2497, col: 22, offset: 80337},
+															pos: position{line: 2497, col: 22, offset: 80369},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2497, col: 22, offset: 80337},
+																pos: position{line: 2497, col: 22, offset: 80369},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2502, col: 31, offset: 80558},
+																		pos:        position{line: 2502, col: 31, offset: 80590},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2502, col: 36, offset: 80563},
+																		pos: position{line: 2502, col: 36, offset: 80595},
 																		expr: &litMatcher{
-																			pos:        position{line: 2502, col: 37, offset: 80564},
+																			pos:        position{line: 2502, col: 37, offset: 80596},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2497, col: 49, offset: 80364},
+																		pos:   position{line: 2497, col: 49, offset: 80396},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2842, col: 13, offset: 90103},
+																			pos: position{line: 2851, col: 13, offset: 90361},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2842, col: 13, offset: 90103},
+																				pos: position{line: 2851, col: 13, offset: 90361},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2842, col: 13, offset: 90103},
+																					pos:        position{line: 2851, col: 13, offset: 90361},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41261,28 +41261,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2918, col: 8, offset: 91975},
+																		pos: position{line: 2927, col: 8, offset: 92233},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2905, col: 12, offset: 91748},
+																				pos: position{line: 2914, col: 12, offset: 92006},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 13, offset: 91749},
+																					pos: position{line: 2914, col: 13, offset: 92007},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 13, offset: 91749},
+																							pos:        position{line: 2914, col: 13, offset: 92007},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 20, offset: 91756},
+																							pos:        position{line: 2914, col: 20, offset: 92014},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 29, offset: 91765},
+																							pos:        position{line: 2914, col: 29, offset: 92023},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41291,9 +41291,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2915, col: 8, offset: 91925},
+																				pos: position{line: 2924, col: 8, offset: 92183},
 																				expr: &anyMatcher{
-																					line: 2915, col: 9, offset: 91926,
+																					line: 2924, col: 9, offset: 92184,
 																				},
 																			},
 																		},
@@ -41302,21 +41302,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1811, col: 5, offset: 58493},
+															pos: position{line: 1811, col: 5, offset: 58525},
 															run: (*parser).callonParagraph84,
 															expr: &seqExpr{
-																pos: position{line: 1811, col: 5, offset: 58493},
+																pos: position{line: 1811, col: 5, offset: 58525},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1811, col: 5, offset: 58493},
+																		pos:   position{line: 1811, col: 5, offset: 58525},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2846, col: 14, offset: 90170},
+																			pos: position{line: 2855, col: 14, offset: 90428},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2846, col: 14, offset: 90170},
+																				pos: position{line: 2855, col: 14, offset: 90428},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2846, col: 14, offset: 90170},
+																					pos:        position{line: 2855, col: 14, offset: 90428},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41326,32 +41326,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1812, col: 5, offset: 58517},
+																		pos: position{line: 1812, col: 5, offset: 58549},
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2918, col: 8, offset: 91975},
+																		pos: position{line: 2927, col: 8, offset: 92233},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2905, col: 12, offset: 91748},
+																				pos: position{line: 2914, col: 12, offset: 92006},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 13, offset: 91749},
+																					pos: position{line: 2914, col: 13, offset: 92007},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 13, offset: 91749},
+																							pos:        position{line: 2914, col: 13, offset: 92007},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 20, offset: 91756},
+																							pos:        position{line: 2914, col: 20, offset: 92014},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 29, offset: 91765},
+																							pos:        position{line: 2914, col: 29, offset: 92023},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41360,9 +41360,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2915, col: 8, offset: 91925},
+																				pos: position{line: 2924, col: 8, offset: 92183},
 																				expr: &anyMatcher{
-																					line: 2915, col: 9, offset: 91926,
+																					line: 2924, col: 9, offset: 92184,
 																				},
 																			},
 																		},
@@ -41384,16 +41384,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1822, col: 1, offset: 59003},
+			pos:  position{line: 1822, col: 1, offset: 59035},
 			expr: &choiceExpr{
-				pos: position{line: 1822, col: 15, offset: 59017},
+				pos: position{line: 1822, col: 15, offset: 59049},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1822, col: 15, offset: 59017},
+						pos:  position{line: 1822, col: 15, offset: 59049},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1822, col: 35, offset: 59037},
+						pos:  position{line: 1822, col: 35, offset: 59069},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -41401,65 +41401,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1824, col: 1, offset: 59058},
+			pos:  position{line: 1824, col: 1, offset: 59090},
 			expr: &actionExpr{
-				pos: position{line: 1825, col: 5, offset: 59083},
+				pos: position{line: 1825, col: 5, offset: 59115},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1825, col: 5, offset: 59083},
+					pos: position{line: 1825, col: 5, offset: 59115},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1825, col: 5, offset: 59083},
+							pos:   position{line: 1825, col: 5, offset: 59115},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1825, col: 16, offset: 59094},
+								pos: position{line: 1825, col: 16, offset: 59126},
 								expr: &actionExpr{
-									pos: position{line: 1825, col: 17, offset: 59095},
+									pos: position{line: 1825, col: 17, offset: 59127},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1825, col: 17, offset: 59095},
+										pos:  position{line: 1825, col: 17, offset: 59127},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1828, col: 5, offset: 59163},
+							pos: position{line: 1828, col: 5, offset: 59195},
 							expr: &litMatcher{
-								pos:        position{line: 1828, col: 7, offset: 59165},
+								pos:        position{line: 1828, col: 7, offset: 59197},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1829, col: 5, offset: 59174},
+							pos:   position{line: 1829, col: 5, offset: 59206},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1830, col: 9, offset: 59192},
+								pos: position{line: 1830, col: 9, offset: 59224},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1830, col: 9, offset: 59192},
+										pos:  position{line: 1830, col: 9, offset: 59224},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1831, col: 11, offset: 59219},
+										pos:  position{line: 1831, col: 11, offset: 59251},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1832, col: 11, offset: 59247},
+										pos:  position{line: 1832, col: 11, offset: 59279},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1833, col: 11, offset: 59278},
+										pos:  position{line: 1833, col: 11, offset: 59310},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1834, col: 11, offset: 59306},
+										pos:  position{line: 1834, col: 11, offset: 59338},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1835, col: 11, offset: 59337},
+										pos:  position{line: 1835, col: 11, offset: 59369},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -41471,36 +41471,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1840, col: 1, offset: 59457},
+			pos:  position{line: 1840, col: 1, offset: 59489},
 			expr: &actionExpr{
-				pos: position{line: 1841, col: 5, offset: 59499},
+				pos: position{line: 1841, col: 5, offset: 59531},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1841, col: 5, offset: 59499},
+					pos: position{line: 1841, col: 5, offset: 59531},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1841, col: 5, offset: 59499},
+							pos:   position{line: 1841, col: 5, offset: 59531},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1841, col: 16, offset: 59510},
+								pos: position{line: 1841, col: 16, offset: 59542},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1841, col: 17, offset: 59511},
+									pos:  position{line: 1841, col: 17, offset: 59543},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1842, col: 5, offset: 59536},
+							pos:   position{line: 1842, col: 5, offset: 59568},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1842, col: 14, offset: 59545},
+								pos: position{line: 1842, col: 14, offset: 59577},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1842, col: 14, offset: 59545},
+										pos:  position{line: 1842, col: 14, offset: 59577},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1842, col: 33, offset: 59564},
+										pos:  position{line: 1842, col: 33, offset: 59596},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -41512,32 +41512,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1850, col: 1, offset: 59795},
+			pos:  position{line: 1850, col: 1, offset: 59827},
 			expr: &choiceExpr{
-				pos: position{line: 1851, col: 5, offset: 59820},
+				pos: position{line: 1851, col: 5, offset: 59852},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1851, col: 5, offset: 59820},
+						pos:  position{line: 1851, col: 5, offset: 59852},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1852, col: 7, offset: 59847},
+						pos:  position{line: 1852, col: 7, offset: 59879},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1853, col: 7, offset: 59875},
+						pos:  position{line: 1853, col: 7, offset: 59907},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1854, col: 7, offset: 59907},
+						pos:  position{line: 1854, col: 7, offset: 59939},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1855, col: 7, offset: 59935},
+						pos:  position{line: 1855, col: 7, offset: 59967},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1856, col: 7, offset: 59956},
+						pos:  position{line: 1856, col: 7, offset: 59988},
 						name: "SuperscriptText",
 					},
 				},
@@ -41545,24 +41545,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1858, col: 1, offset: 59974},
+			pos:  position{line: 1858, col: 1, offset: 60006},
 			expr: &choiceExpr{
-				pos: position{line: 1859, col: 5, offset: 59999},
+				pos: position{line: 1859, col: 5, offset: 60031},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1859, col: 5, offset: 59999},
+						pos:  position{line: 1859, col: 5, offset: 60031},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1860, col: 7, offset: 60025},
+						pos:  position{line: 1860, col: 7, offset: 60057},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1861, col: 7, offset: 60053},
+						pos:  position{line: 1861, col: 7, offset: 60085},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1862, col: 7, offset: 60084},
+						pos:  position{line: 1862, col: 7, offset: 60116},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -41570,26 +41570,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1876, col: 1, offset: 60438},
+			pos:  position{line: 1876, col: 1, offset: 60470},
 			expr: &choiceExpr{
-				pos: position{line: 1877, col: 5, offset: 60464},
+				pos: position{line: 1877, col: 5, offset: 60496},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2795, col: 5, offset: 88819},
+						pos: position{line: 2804, col: 5, offset: 89077},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2795, col: 5, offset: 88819},
+							pos: position{line: 2804, col: 5, offset: 89077},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2795, col: 5, offset: 88819},
+									pos:   position{line: 2804, col: 5, offset: 89077},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2795, col: 11, offset: 88825},
+										pos: position{line: 2804, col: 11, offset: 89083},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2795, col: 11, offset: 88825},
+											pos: position{line: 2804, col: 11, offset: 89083},
 											expr: &charClassMatcher{
-												pos:        position{line: 2795, col: 11, offset: 88825},
+												pos:        position{line: 2804, col: 11, offset: 89083},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41599,36 +41599,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2798, col: 5, offset: 88883},
+									pos: position{line: 2807, col: 5, offset: 89141},
 									expr: &seqExpr{
-										pos: position{line: 2799, col: 9, offset: 88894},
+										pos: position{line: 2808, col: 9, offset: 89152},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2799, col: 9, offset: 88894},
+												pos:        position{line: 2808, col: 9, offset: 89152},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2800, col: 9, offset: 88943},
+												pos: position{line: 2809, col: 9, offset: 89201},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2804, col: 5, offset: 89023},
+									pos: position{line: 2813, col: 5, offset: 89281},
 									expr: &seqExpr{
-										pos: position{line: 2805, col: 9, offset: 89034},
+										pos: position{line: 2814, col: 9, offset: 89292},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2805, col: 9, offset: 89034},
+												pos:        position{line: 2814, col: 9, offset: 89292},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2805, col: 13, offset: 89038},
+												pos:        position{line: 2814, col: 13, offset: 89296},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41641,12 +41641,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2900, col: 11, offset: 91638},
+						pos: position{line: 2909, col: 11, offset: 91896},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2900, col: 11, offset: 91638},
+							pos: position{line: 2909, col: 11, offset: 91896},
 							expr: &charClassMatcher{
-								pos:        position{line: 2900, col: 11, offset: 91638},
+								pos:        position{line: 2909, col: 11, offset: 91896},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -41655,29 +41655,29 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1879, col: 7, offset: 60527},
+						pos:  position{line: 1879, col: 7, offset: 60559},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2515, col: 5, offset: 81054},
+						pos: position{line: 2515, col: 5, offset: 81086},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2515, col: 5, offset: 81054},
+							pos: position{line: 2515, col: 5, offset: 81086},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2515, col: 5, offset: 81054},
+									pos: position{line: 2515, col: 5, offset: 81086},
 									run: (*parser).callonQuotedTextElement22,
 								},
 								&litMatcher{
-									pos:        position{line: 2518, col: 5, offset: 81125},
+									pos:        position{line: 2518, col: 5, offset: 81157},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2518, col: 10, offset: 81130},
+									pos: position{line: 2518, col: 10, offset: 81162},
 									expr: &charClassMatcher{
-										pos:        position{line: 2518, col: 11, offset: 81131},
+										pos:        position{line: 2518, col: 11, offset: 81163},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41688,29 +41688,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2524, col: 5, offset: 81323},
+						pos: position{line: 2524, col: 5, offset: 81355},
 						run: (*parser).callonQuotedTextElement26,
 						expr: &seqExpr{
-							pos: position{line: 2524, col: 5, offset: 81323},
+							pos: position{line: 2524, col: 5, offset: 81355},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2524, col: 5, offset: 81323},
+									pos: position{line: 2524, col: 5, offset: 81355},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&andCodeExpr{
-									pos: position{line: 2527, col: 5, offset: 81394},
+									pos: position{line: 2527, col: 5, offset: 81426},
 									run: (*parser).callonQuotedTextElement29,
 								},
 								&litMatcher{
-									pos:        position{line: 2531, col: 5, offset: 81519},
+									pos:        position{line: 2531, col: 5, offset: 81551},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2531, col: 9, offset: 81523},
+									pos: position{line: 2531, col: 9, offset: 81555},
 									expr: &charClassMatcher{
-										pos:        position{line: 2531, col: 10, offset: 81524},
+										pos:        position{line: 2531, col: 10, offset: 81556},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41721,27 +41721,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2813, col: 5, offset: 89231},
+						pos: position{line: 2822, col: 5, offset: 89489},
 						run: (*parser).callonQuotedTextElement33,
 						expr: &choiceExpr{
-							pos: position{line: 2814, col: 9, offset: 89241},
+							pos: position{line: 2823, col: 9, offset: 89499},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2814, col: 10, offset: 89242},
+									pos:        position{line: 2823, col: 10, offset: 89500},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2816, col: 13, offset: 89339},
+									pos: position{line: 2825, col: 13, offset: 89597},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2816, col: 13, offset: 89339},
+											pos: position{line: 2825, col: 13, offset: 89597},
 											run: (*parser).callonQuotedTextElement37,
 										},
 										&litMatcher{
-											pos:        position{line: 2819, col: 13, offset: 89439},
+											pos:        position{line: 2828, col: 13, offset: 89697},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -41749,20 +41749,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2819, col: 19, offset: 89445},
+									pos:        position{line: 2828, col: 19, offset: 89703},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2822, col: 13, offset: 89483},
+									pos: position{line: 2831, col: 13, offset: 89741},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2822, col: 13, offset: 89483},
+											pos: position{line: 2831, col: 13, offset: 89741},
 											run: (*parser).callonQuotedTextElement41,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2825, col: 14, offset: 89576},
+											pos:        position{line: 2834, col: 14, offset: 89834},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -41771,18 +41771,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2827, col: 12, offset: 89620},
+									pos: position{line: 2836, col: 12, offset: 89878},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2827, col: 12, offset: 89620},
+											pos:        position{line: 2836, col: 12, offset: 89878},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2827, col: 16, offset: 89624},
+											pos: position{line: 2836, col: 16, offset: 89882},
 											expr: &litMatcher{
-												pos:        position{line: 2827, col: 17, offset: 89625},
+												pos:        position{line: 2836, col: 17, offset: 89883},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -41794,35 +41794,35 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 646, col: 5, offset: 20455},
+						pos: position{line: 646, col: 5, offset: 20487},
 						run: (*parser).callonQuotedTextElement47,
 						expr: &seqExpr{
-							pos: position{line: 646, col: 5, offset: 20455},
+							pos: position{line: 646, col: 5, offset: 20487},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 646, col: 5, offset: 20455},
+									pos: position{line: 646, col: 5, offset: 20487},
 									run: (*parser).callonQuotedTextElement49,
 								},
 								&labeledExpr{
-									pos:   position{line: 649, col: 5, offset: 20527},
+									pos:   position{line: 649, col: 5, offset: 20559},
 									label: "element",
 									expr: &choiceExpr{
-										pos: position{line: 649, col: 14, offset: 20536},
+										pos: position{line: 649, col: 14, offset: 20568},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 655, col: 5, offset: 20665},
+												pos: position{line: 655, col: 5, offset: 20697},
 												run: (*parser).callonQuotedTextElement52,
 												expr: &seqExpr{
-													pos: position{line: 655, col: 5, offset: 20665},
+													pos: position{line: 655, col: 5, offset: 20697},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 655, col: 5, offset: 20665},
+															pos:        position{line: 655, col: 5, offset: 20697},
 															val:        "\\{",
 															ignoreCase: false,
 															want:       "\"\\\\{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 655, col: 13, offset: 20673},
+															pos:   position{line: 655, col: 13, offset: 20705},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
@@ -41854,7 +41854,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 655, col: 32, offset: 20692},
+															pos:        position{line: 655, col: 32, offset: 20724},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41863,19 +41863,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 662, col: 5, offset: 20933},
+												pos: position{line: 662, col: 5, offset: 20965},
 												run: (*parser).callonQuotedTextElement62,
 												expr: &seqExpr{
-													pos: position{line: 662, col: 5, offset: 20933},
+													pos: position{line: 662, col: 5, offset: 20965},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 662, col: 5, offset: 20933},
+															pos:        position{line: 662, col: 5, offset: 20965},
 															val:        "{",
 															ignoreCase: false,
 															want:       "\"{\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 662, col: 9, offset: 20937},
+															pos:   position{line: 662, col: 9, offset: 20969},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
@@ -41907,7 +41907,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 662, col: 28, offset: 20956},
+															pos:        position{line: 662, col: 28, offset: 20988},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -41916,19 +41916,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 668, col: 25, offset: 21137},
+												pos: position{line: 668, col: 25, offset: 21169},
 												run: (*parser).callonQuotedTextElement72,
 												expr: &seqExpr{
-													pos: position{line: 668, col: 25, offset: 21137},
+													pos: position{line: 668, col: 25, offset: 21169},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 668, col: 25, offset: 21137},
+															pos:        position{line: 668, col: 25, offset: 21169},
 															val:        "{counter:",
 															ignoreCase: false,
 															want:       "\"{counter:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 668, col: 37, offset: 21149},
+															pos:   position{line: 668, col: 37, offset: 21181},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
@@ -41960,33 +41960,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 668, col: 56, offset: 21168},
+															pos:   position{line: 668, col: 56, offset: 21200},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 668, col: 62, offset: 21174},
+																pos: position{line: 668, col: 62, offset: 21206},
 																expr: &actionExpr{
-																	pos: position{line: 676, col: 17, offset: 21469},
+																	pos: position{line: 676, col: 17, offset: 21501},
 																	run: (*parser).callonQuotedTextElement83,
 																	expr: &seqExpr{
-																		pos: position{line: 676, col: 17, offset: 21469},
+																		pos: position{line: 676, col: 17, offset: 21501},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 676, col: 17, offset: 21469},
+																				pos:        position{line: 676, col: 17, offset: 21501},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 676, col: 21, offset: 21473},
+																				pos:   position{line: 676, col: 21, offset: 21505},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 676, col: 28, offset: 21480},
+																					pos: position{line: 676, col: 28, offset: 21512},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 676, col: 28, offset: 21480},
+																							pos: position{line: 676, col: 28, offset: 21512},
 																							run: (*parser).callonQuotedTextElement88,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 676, col: 28, offset: 21480},
+																								pos:        position{line: 676, col: 28, offset: 21512},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -41994,12 +41994,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 678, col: 9, offset: 21534},
+																							pos: position{line: 678, col: 9, offset: 21566},
 																							run: (*parser).callonQuotedTextElement90,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 678, col: 9, offset: 21534},
+																								pos: position{line: 678, col: 9, offset: 21566},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 678, col: 9, offset: 21534},
+																									pos:        position{line: 678, col: 9, offset: 21566},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -42016,7 +42016,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 668, col: 78, offset: 21190},
+															pos:        position{line: 668, col: 78, offset: 21222},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -42025,19 +42025,19 @@ var g = &grammar{
 												},
 											},
 											&actionExpr{
-												pos: position{line: 672, col: 25, offset: 21308},
+												pos: position{line: 672, col: 25, offset: 21340},
 												run: (*parser).callonQuotedTextElement94,
 												expr: &seqExpr{
-													pos: position{line: 672, col: 25, offset: 21308},
+													pos: position{line: 672, col: 25, offset: 21340},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 672, col: 25, offset: 21308},
+															pos:        position{line: 672, col: 25, offset: 21340},
 															val:        "{counter2:",
 															ignoreCase: false,
 															want:       "\"{counter2:\"",
 														},
 														&labeledExpr{
-															pos:   position{line: 672, col: 38, offset: 21321},
+															pos:   position{line: 672, col: 38, offset: 21353},
 															label: "name",
 															expr: &actionExpr{
 																pos: position{line: 318, col: 18, offset: 9736},
@@ -42069,33 +42069,33 @@ var g = &grammar{
 															},
 														},
 														&labeledExpr{
-															pos:   position{line: 672, col: 57, offset: 21340},
+															pos:   position{line: 672, col: 57, offset: 21372},
 															label: "start",
 															expr: &zeroOrOneExpr{
-																pos: position{line: 672, col: 63, offset: 21346},
+																pos: position{line: 672, col: 63, offset: 21378},
 																expr: &actionExpr{
-																	pos: position{line: 676, col: 17, offset: 21469},
+																	pos: position{line: 676, col: 17, offset: 21501},
 																	run: (*parser).callonQuotedTextElement105,
 																	expr: &seqExpr{
-																		pos: position{line: 676, col: 17, offset: 21469},
+																		pos: position{line: 676, col: 17, offset: 21501},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 676, col: 17, offset: 21469},
+																				pos:        position{line: 676, col: 17, offset: 21501},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 676, col: 21, offset: 21473},
+																				pos:   position{line: 676, col: 21, offset: 21505},
 																				label: "start",
 																				expr: &choiceExpr{
-																					pos: position{line: 676, col: 28, offset: 21480},
+																					pos: position{line: 676, col: 28, offset: 21512},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 676, col: 28, offset: 21480},
+																							pos: position{line: 676, col: 28, offset: 21512},
 																							run: (*parser).callonQuotedTextElement110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 676, col: 28, offset: 21480},
+																								pos:        position{line: 676, col: 28, offset: 21512},
 																								val:        "[A-Za-z]",
 																								ranges:     []rune{'A', 'Z', 'a', 'z'},
 																								ignoreCase: false,
@@ -42103,12 +42103,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 678, col: 9, offset: 21534},
+																							pos: position{line: 678, col: 9, offset: 21566},
 																							run: (*parser).callonQuotedTextElement112,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 678, col: 9, offset: 21534},
+																								pos: position{line: 678, col: 9, offset: 21566},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 678, col: 9, offset: 21534},
+																									pos:        position{line: 678, col: 9, offset: 21566},
 																									val:        "[0-9]",
 																									ranges:     []rune{'0', '9'},
 																									ignoreCase: false,
@@ -42125,7 +42125,7 @@ var g = &grammar{
 															},
 														},
 														&litMatcher{
-															pos:        position{line: 672, col: 79, offset: 21362},
+															pos:        position{line: 672, col: 79, offset: 21394},
 															val:        "}",
 															ignoreCase: false,
 															want:       "\"}\"",
@@ -42140,31 +42140,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2909, col: 18, offset: 91848},
+						pos: position{line: 2918, col: 18, offset: 92106},
 						run: (*parser).callonQuotedTextElement116,
 						expr: &seqExpr{
-							pos: position{line: 2909, col: 18, offset: 91848},
+							pos: position{line: 2918, col: 18, offset: 92106},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2905, col: 12, offset: 91748},
+									pos: position{line: 2914, col: 12, offset: 92006},
 									run: (*parser).callonQuotedTextElement118,
 									expr: &choiceExpr{
-										pos: position{line: 2905, col: 13, offset: 91749},
+										pos: position{line: 2914, col: 13, offset: 92007},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2905, col: 13, offset: 91749},
+												pos:        position{line: 2914, col: 13, offset: 92007},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2905, col: 20, offset: 91756},
+												pos:        position{line: 2914, col: 20, offset: 92014},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2905, col: 29, offset: 91765},
+												pos:        position{line: 2914, col: 29, offset: 92023},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42173,27 +42173,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2909, col: 26, offset: 91856},
+									pos: position{line: 2918, col: 26, offset: 92114},
 									expr: &actionExpr{
-										pos: position{line: 2905, col: 12, offset: 91748},
+										pos: position{line: 2914, col: 12, offset: 92006},
 										run: (*parser).callonQuotedTextElement124,
 										expr: &choiceExpr{
-											pos: position{line: 2905, col: 13, offset: 91749},
+											pos: position{line: 2914, col: 13, offset: 92007},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2905, col: 13, offset: 91749},
+													pos:        position{line: 2914, col: 13, offset: 92007},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2905, col: 20, offset: 91756},
+													pos:        position{line: 2914, col: 20, offset: 92014},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2905, col: 29, offset: 91765},
+													pos:        position{line: 2914, col: 29, offset: 92023},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -42206,31 +42206,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1884, col: 7, offset: 60694},
+						pos:  position{line: 1884, col: 7, offset: 60726},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1885, col: 7, offset: 60741},
+						pos:  position{line: 1885, col: 7, offset: 60773},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2484, col: 5, offset: 79883},
+						pos: position{line: 2484, col: 5, offset: 79915},
 						run: (*parser).callonQuotedTextElement131,
 						expr: &seqExpr{
-							pos: position{line: 2484, col: 5, offset: 79883},
+							pos: position{line: 2484, col: 5, offset: 79915},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2484, col: 5, offset: 79883},
+									pos: position{line: 2484, col: 5, offset: 79915},
 									run: (*parser).callonQuotedTextElement133,
 								},
 								&labeledExpr{
-									pos:   position{line: 2487, col: 5, offset: 79959},
+									pos:   position{line: 2487, col: 5, offset: 79991},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2488, col: 9, offset: 79977},
+										pos: position{line: 2488, col: 9, offset: 80009},
 										run: (*parser).callonQuotedTextElement135,
 										expr: &charClassMatcher{
-											pos:        position{line: 2488, col: 10, offset: 79978},
+											pos:        position{line: 2488, col: 10, offset: 80010},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -42242,27 +42242,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1224, col: 23, offset: 37828},
+						pos: position{line: 1224, col: 23, offset: 37860},
 						run: (*parser).callonQuotedTextElement137,
 						expr: &seqExpr{
-							pos: position{line: 1224, col: 23, offset: 37828},
+							pos: position{line: 1224, col: 23, offset: 37860},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1222, col: 32, offset: 37796},
+									pos:        position{line: 1222, col: 32, offset: 37828},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1224, col: 51, offset: 37856},
+									pos:   position{line: 1224, col: 51, offset: 37888},
 									label: "ref",
 									expr: &actionExpr{
-										pos: position{line: 1224, col: 56, offset: 37861},
+										pos: position{line: 1224, col: 56, offset: 37893},
 										run: (*parser).callonQuotedTextElement141,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1224, col: 56, offset: 37861},
+											pos: position{line: 1224, col: 56, offset: 37893},
 											expr: &charClassMatcher{
-												pos:        position{line: 1224, col: 56, offset: 37861},
+												pos:        position{line: 1224, col: 56, offset: 37893},
 												val:        "[0-9]",
 												ranges:     []rune{'0', '9'},
 												ignoreCase: false,
@@ -42272,7 +42272,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1222, col: 32, offset: 37796},
+									pos:        position{line: 1222, col: 32, offset: 37828},
 									val:        "�",
 									ignoreCase: false,
 									want:       "\"�\"",
@@ -42281,10 +42281,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2835, col: 12, offset: 89885},
+						pos: position{line: 2844, col: 12, offset: 90143},
 						run: (*parser).callonQuotedTextElement145,
 						expr: &charClassMatcher{
-							pos:        position{line: 2835, col: 12, offset: 89885},
+							pos:        position{line: 2844, col: 12, offset: 90143},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -42296,29 +42296,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1903, col: 1, offset: 61211},
+			pos:  position{line: 1903, col: 1, offset: 61243},
 			expr: &actionExpr{
-				pos: position{line: 1904, col: 5, offset: 61239},
+				pos: position{line: 1904, col: 5, offset: 61271},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1904, col: 5, offset: 61239},
+					pos: position{line: 1904, col: 5, offset: 61271},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1899, col: 38, offset: 61164},
+							pos:        position{line: 1899, col: 38, offset: 61196},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1905, col: 5, offset: 61278},
+							pos:   position{line: 1905, col: 5, offset: 61310},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1905, col: 15, offset: 61288},
+								pos:  position{line: 1905, col: 15, offset: 61320},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1901, col: 36, offset: 61205},
+							pos:        position{line: 1901, col: 36, offset: 61237},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -42329,44 +42329,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1910, col: 1, offset: 61448},
+			pos:  position{line: 1910, col: 1, offset: 61480},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1910, col: 32, offset: 61479},
+				pos: position{line: 1910, col: 32, offset: 61511},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1910, col: 32, offset: 61479},
+					pos:  position{line: 1910, col: 32, offset: 61511},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1912, col: 1, offset: 61510},
+			pos:  position{line: 1912, col: 1, offset: 61542},
 			expr: &actionExpr{
-				pos: position{line: 1913, col: 5, offset: 61545},
+				pos: position{line: 1913, col: 5, offset: 61577},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1913, col: 5, offset: 61545},
+					pos: position{line: 1913, col: 5, offset: 61577},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2913, col: 11, offset: 91911},
+							pos: position{line: 2922, col: 11, offset: 92169},
 							expr: &anyMatcher{
-								line: 2913, col: 13, offset: 91913,
+								line: 2922, col: 13, offset: 92171,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1914, col: 5, offset: 61556},
+							pos: position{line: 1914, col: 5, offset: 61588},
 							expr: &litMatcher{
-								pos:        position{line: 1901, col: 36, offset: 61205},
+								pos:        position{line: 1901, col: 36, offset: 61237},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1915, col: 5, offset: 61593},
+							pos:   position{line: 1915, col: 5, offset: 61625},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1915, col: 14, offset: 61602},
+								pos:  position{line: 1915, col: 14, offset: 61634},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42376,29 +42376,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1940, col: 1, offset: 62282},
+			pos:  position{line: 1940, col: 1, offset: 62314},
 			expr: &actionExpr{
-				pos: position{line: 1941, col: 5, offset: 62310},
+				pos: position{line: 1941, col: 5, offset: 62342},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1941, col: 5, offset: 62310},
+					pos: position{line: 1941, col: 5, offset: 62342},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1924, col: 5, offset: 61836},
+							pos:        position{line: 1924, col: 5, offset: 61868},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1925, col: 5, offset: 61845},
+							pos: position{line: 1925, col: 5, offset: 61877},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1929, col: 5, offset: 61963},
+							pos: position{line: 1929, col: 5, offset: 61995},
 							expr: &notExpr{
-								pos: position{line: 1929, col: 7, offset: 61965},
+								pos: position{line: 1929, col: 7, offset: 61997},
 								expr: &litMatcher{
-									pos:        position{line: 1929, col: 8, offset: 61966},
+									pos:        position{line: 1929, col: 8, offset: 61998},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42406,38 +42406,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1942, col: 5, offset: 62348},
+							pos:   position{line: 1942, col: 5, offset: 62380},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1942, col: 15, offset: 62358},
+								pos:  position{line: 1942, col: 15, offset: 62390},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1932, col: 5, offset: 62086},
+							pos:        position{line: 1932, col: 5, offset: 62118},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1933, col: 5, offset: 62095},
+							pos: position{line: 1933, col: 5, offset: 62127},
 							expr: &litMatcher{
-								pos:        position{line: 1933, col: 6, offset: 62096},
+								pos:        position{line: 1933, col: 6, offset: 62128},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1934, col: 5, offset: 62159},
+							pos: position{line: 1934, col: 5, offset: 62191},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1938, col: 5, offset: 62268},
+							pos: position{line: 1938, col: 5, offset: 62300},
 							expr: &notExpr{
-								pos: position{line: 1938, col: 7, offset: 62270},
+								pos: position{line: 1938, col: 7, offset: 62302},
 								expr: &charClassMatcher{
-									pos:        position{line: 2786, col: 13, offset: 88672},
+									pos:        position{line: 2795, col: 13, offset: 88930},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42451,20 +42451,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1947, col: 1, offset: 62518},
+			pos:  position{line: 1947, col: 1, offset: 62550},
 			expr: &actionExpr{
-				pos: position{line: 1948, col: 5, offset: 62555},
+				pos: position{line: 1948, col: 5, offset: 62587},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1948, col: 5, offset: 62555},
+					pos: position{line: 1948, col: 5, offset: 62587},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1948, col: 5, offset: 62555},
+							pos: position{line: 1948, col: 5, offset: 62587},
 							expr: &actionExpr{
-								pos: position{line: 2896, col: 10, offset: 91577},
+								pos: position{line: 2905, col: 10, offset: 91835},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2896, col: 10, offset: 91577},
+									pos:        position{line: 2905, col: 10, offset: 91835},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42473,18 +42473,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1949, col: 5, offset: 62594},
+							pos:   position{line: 1949, col: 5, offset: 62626},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1949, col: 14, offset: 62603},
+								pos: position{line: 1949, col: 14, offset: 62635},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1949, col: 15, offset: 62604},
+									pos:  position{line: 1949, col: 15, offset: 62636},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1950, col: 5, offset: 62638},
+							pos: position{line: 1950, col: 5, offset: 62670},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -42493,49 +42493,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1956, col: 1, offset: 62779},
+			pos:  position{line: 1956, col: 1, offset: 62811},
 			expr: &actionExpr{
-				pos: position{line: 1957, col: 5, offset: 62814},
+				pos: position{line: 1957, col: 5, offset: 62846},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1957, col: 5, offset: 62814},
+					pos: position{line: 1957, col: 5, offset: 62846},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2913, col: 11, offset: 91911},
+							pos: position{line: 2922, col: 11, offset: 92169},
 							expr: &anyMatcher{
-								line: 2913, col: 13, offset: 91913,
+								line: 2922, col: 13, offset: 92171,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1958, col: 5, offset: 62842},
+							pos: position{line: 1958, col: 5, offset: 62874},
 							expr: &seqExpr{
-								pos: position{line: 1932, col: 5, offset: 62086},
+								pos: position{line: 1932, col: 5, offset: 62118},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1932, col: 5, offset: 62086},
+										pos:        position{line: 1932, col: 5, offset: 62118},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1933, col: 5, offset: 62095},
+										pos: position{line: 1933, col: 5, offset: 62127},
 										expr: &litMatcher{
-											pos:        position{line: 1933, col: 6, offset: 62096},
+											pos:        position{line: 1933, col: 6, offset: 62128},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1934, col: 5, offset: 62159},
+										pos: position{line: 1934, col: 5, offset: 62191},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1938, col: 5, offset: 62268},
+										pos: position{line: 1938, col: 5, offset: 62300},
 										expr: &notExpr{
-											pos: position{line: 1938, col: 7, offset: 62270},
+											pos: position{line: 1938, col: 7, offset: 62302},
 											expr: &charClassMatcher{
-												pos:        position{line: 2786, col: 13, offset: 88672},
+												pos:        position{line: 2795, col: 13, offset: 88930},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42547,10 +42547,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1959, col: 5, offset: 62879},
+							pos:   position{line: 1959, col: 5, offset: 62911},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1959, col: 14, offset: 62888},
+								pos:  position{line: 1959, col: 14, offset: 62920},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42560,35 +42560,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1964, col: 1, offset: 62976},
+			pos:  position{line: 1964, col: 1, offset: 63008},
 			expr: &choiceExpr{
-				pos: position{line: 1966, col: 5, offset: 63037},
+				pos: position{line: 1966, col: 5, offset: 63069},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1966, col: 5, offset: 63037},
+						pos: position{line: 1966, col: 5, offset: 63069},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1966, col: 5, offset: 63037},
+							pos: position{line: 1966, col: 5, offset: 63069},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1966, col: 5, offset: 63037},
+									pos:   position{line: 1966, col: 5, offset: 63069},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1872, col: 25, offset: 60384},
+										pos: position{line: 1872, col: 25, offset: 60416},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1872, col: 25, offset: 60384},
+											pos: position{line: 1872, col: 25, offset: 60416},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1872, col: 25, offset: 60384},
+													pos:        position{line: 1872, col: 25, offset: 60416},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1872, col: 30, offset: 60389},
+													pos: position{line: 1872, col: 30, offset: 60421},
 													expr: &litMatcher{
-														pos:        position{line: 1872, col: 30, offset: 60389},
+														pos:        position{line: 1872, col: 30, offset: 60421},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42599,21 +42599,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1966, col: 40, offset: 63072},
+									pos:        position{line: 1966, col: 40, offset: 63104},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1966, col: 45, offset: 63077},
+									pos:   position{line: 1966, col: 45, offset: 63109},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1966, col: 55, offset: 63087},
+										pos:  position{line: 1966, col: 55, offset: 63119},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1966, col: 84, offset: 63116},
+									pos:        position{line: 1966, col: 84, offset: 63148},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -42622,21 +42622,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1970, col: 7, offset: 63280},
+						pos: position{line: 1970, col: 7, offset: 63312},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1970, col: 7, offset: 63280},
+							pos: position{line: 1970, col: 7, offset: 63312},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1970, col: 7, offset: 63280},
+									pos:   position{line: 1970, col: 7, offset: 63312},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1868, col: 25, offset: 60311},
+										pos: position{line: 1868, col: 25, offset: 60343},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1868, col: 25, offset: 60311},
+											pos: position{line: 1868, col: 25, offset: 60343},
 											expr: &litMatcher{
-												pos:        position{line: 1868, col: 25, offset: 60311},
+												pos:        position{line: 1868, col: 25, offset: 60343},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42645,21 +42645,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1970, col: 42, offset: 63315},
+									pos:        position{line: 1970, col: 42, offset: 63347},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1970, col: 47, offset: 63320},
+									pos:   position{line: 1970, col: 47, offset: 63352},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1970, col: 57, offset: 63330},
+										pos:  position{line: 1970, col: 57, offset: 63362},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1970, col: 86, offset: 63359},
+									pos:        position{line: 1970, col: 86, offset: 63391},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42668,21 +42668,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1975, col: 7, offset: 63561},
+						pos: position{line: 1975, col: 7, offset: 63593},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1975, col: 7, offset: 63561},
+							pos: position{line: 1975, col: 7, offset: 63593},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1975, col: 7, offset: 63561},
+									pos:   position{line: 1975, col: 7, offset: 63593},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1868, col: 25, offset: 60311},
+										pos: position{line: 1868, col: 25, offset: 60343},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1868, col: 25, offset: 60311},
+											pos: position{line: 1868, col: 25, offset: 60343},
 											expr: &litMatcher{
-												pos:        position{line: 1868, col: 25, offset: 60311},
+												pos:        position{line: 1868, col: 25, offset: 60343},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42691,21 +42691,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1975, col: 42, offset: 63596},
+									pos:        position{line: 1975, col: 42, offset: 63628},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1975, col: 46, offset: 63600},
+									pos:   position{line: 1975, col: 46, offset: 63632},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1975, col: 56, offset: 63610},
+										pos:  position{line: 1975, col: 56, offset: 63642},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1975, col: 85, offset: 63639},
+									pos:        position{line: 1975, col: 85, offset: 63671},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42718,29 +42718,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1992, col: 1, offset: 64119},
+			pos:  position{line: 1992, col: 1, offset: 64151},
 			expr: &actionExpr{
-				pos: position{line: 1993, col: 5, offset: 64149},
+				pos: position{line: 1993, col: 5, offset: 64181},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1993, col: 5, offset: 64149},
+					pos: position{line: 1993, col: 5, offset: 64181},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1988, col: 40, offset: 64070},
+							pos:        position{line: 1988, col: 40, offset: 64102},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1994, col: 5, offset: 64190},
+							pos:   position{line: 1994, col: 5, offset: 64222},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1994, col: 15, offset: 64200},
+								pos:  position{line: 1994, col: 15, offset: 64232},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1990, col: 38, offset: 64113},
+							pos:        position{line: 1990, col: 38, offset: 64145},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -42751,44 +42751,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1999, col: 1, offset: 64365},
+			pos:  position{line: 1999, col: 1, offset: 64397},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1999, col: 34, offset: 64398},
+				pos: position{line: 1999, col: 34, offset: 64430},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1999, col: 34, offset: 64398},
+					pos:  position{line: 1999, col: 34, offset: 64430},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 2001, col: 1, offset: 64430},
+			pos:  position{line: 2001, col: 1, offset: 64462},
 			expr: &actionExpr{
-				pos: position{line: 2002, col: 5, offset: 64467},
+				pos: position{line: 2002, col: 5, offset: 64499},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2002, col: 5, offset: 64467},
+					pos: position{line: 2002, col: 5, offset: 64499},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2913, col: 11, offset: 91911},
+							pos: position{line: 2922, col: 11, offset: 92169},
 							expr: &anyMatcher{
-								line: 2913, col: 13, offset: 91913,
+								line: 2922, col: 13, offset: 92171,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2003, col: 5, offset: 64478},
+							pos: position{line: 2003, col: 5, offset: 64510},
 							expr: &litMatcher{
-								pos:        position{line: 1990, col: 38, offset: 64113},
+								pos:        position{line: 1990, col: 38, offset: 64145},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2004, col: 5, offset: 64517},
+							pos:   position{line: 2004, col: 5, offset: 64549},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2004, col: 14, offset: 64526},
+								pos:  position{line: 2004, col: 14, offset: 64558},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42798,29 +42798,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2030, col: 1, offset: 65210},
+			pos:  position{line: 2030, col: 1, offset: 65242},
 			expr: &actionExpr{
-				pos: position{line: 2031, col: 5, offset: 65240},
+				pos: position{line: 2031, col: 5, offset: 65272},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2031, col: 5, offset: 65240},
+					pos: position{line: 2031, col: 5, offset: 65272},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2013, col: 5, offset: 64768},
+							pos:        position{line: 2013, col: 5, offset: 64800},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2014, col: 5, offset: 64777},
+							pos: position{line: 2014, col: 5, offset: 64809},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2018, col: 5, offset: 64897},
+							pos: position{line: 2018, col: 5, offset: 64929},
 							expr: &notExpr{
-								pos: position{line: 2018, col: 7, offset: 64899},
+								pos: position{line: 2018, col: 7, offset: 64931},
 								expr: &litMatcher{
-									pos:        position{line: 2018, col: 8, offset: 64900},
+									pos:        position{line: 2018, col: 8, offset: 64932},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42828,38 +42828,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2032, col: 5, offset: 65280},
+							pos:   position{line: 2032, col: 5, offset: 65312},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2032, col: 15, offset: 65290},
+								pos:  position{line: 2032, col: 15, offset: 65322},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2022, col: 5, offset: 65010},
+							pos:        position{line: 2022, col: 5, offset: 65042},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2023, col: 5, offset: 65019},
+							pos: position{line: 2023, col: 5, offset: 65051},
 							expr: &litMatcher{
-								pos:        position{line: 2023, col: 6, offset: 65020},
+								pos:        position{line: 2023, col: 6, offset: 65052},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2024, col: 5, offset: 65085},
+							pos: position{line: 2024, col: 5, offset: 65117},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2028, col: 5, offset: 65196},
+							pos: position{line: 2028, col: 5, offset: 65228},
 							expr: &notExpr{
-								pos: position{line: 2028, col: 7, offset: 65198},
+								pos: position{line: 2028, col: 7, offset: 65230},
 								expr: &charClassMatcher{
-									pos:        position{line: 2786, col: 13, offset: 88672},
+									pos:        position{line: 2795, col: 13, offset: 88930},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42873,20 +42873,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2037, col: 1, offset: 65457},
+			pos:  position{line: 2037, col: 1, offset: 65489},
 			expr: &actionExpr{
-				pos: position{line: 2038, col: 5, offset: 65495},
+				pos: position{line: 2038, col: 5, offset: 65527},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2038, col: 5, offset: 65495},
+					pos: position{line: 2038, col: 5, offset: 65527},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2038, col: 5, offset: 65495},
+							pos: position{line: 2038, col: 5, offset: 65527},
 							expr: &actionExpr{
-								pos: position{line: 2896, col: 10, offset: 91577},
+								pos: position{line: 2905, col: 10, offset: 91835},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2896, col: 10, offset: 91577},
+									pos:        position{line: 2905, col: 10, offset: 91835},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42895,18 +42895,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2039, col: 5, offset: 65534},
+							pos:   position{line: 2039, col: 5, offset: 65566},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2039, col: 14, offset: 65543},
+								pos: position{line: 2039, col: 14, offset: 65575},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2039, col: 15, offset: 65544},
+									pos:  position{line: 2039, col: 15, offset: 65576},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2040, col: 5, offset: 65579},
+							pos: position{line: 2040, col: 5, offset: 65611},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -42915,49 +42915,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2046, col: 1, offset: 65720},
+			pos:  position{line: 2046, col: 1, offset: 65752},
 			expr: &actionExpr{
-				pos: position{line: 2047, col: 5, offset: 65757},
+				pos: position{line: 2047, col: 5, offset: 65789},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2047, col: 5, offset: 65757},
+					pos: position{line: 2047, col: 5, offset: 65789},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2913, col: 11, offset: 91911},
+							pos: position{line: 2922, col: 11, offset: 92169},
 							expr: &anyMatcher{
-								line: 2913, col: 13, offset: 91913,
+								line: 2922, col: 13, offset: 92171,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2048, col: 5, offset: 65768},
+							pos: position{line: 2048, col: 5, offset: 65800},
 							expr: &seqExpr{
-								pos: position{line: 2022, col: 5, offset: 65010},
+								pos: position{line: 2022, col: 5, offset: 65042},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2022, col: 5, offset: 65010},
+										pos:        position{line: 2022, col: 5, offset: 65042},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2023, col: 5, offset: 65019},
+										pos: position{line: 2023, col: 5, offset: 65051},
 										expr: &litMatcher{
-											pos:        position{line: 2023, col: 6, offset: 65020},
+											pos:        position{line: 2023, col: 6, offset: 65052},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2024, col: 5, offset: 65085},
+										pos: position{line: 2024, col: 5, offset: 65117},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2028, col: 5, offset: 65196},
+										pos: position{line: 2028, col: 5, offset: 65228},
 										expr: &notExpr{
-											pos: position{line: 2028, col: 7, offset: 65198},
+											pos: position{line: 2028, col: 7, offset: 65230},
 											expr: &charClassMatcher{
-												pos:        position{line: 2786, col: 13, offset: 88672},
+												pos:        position{line: 2795, col: 13, offset: 88930},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42969,10 +42969,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2049, col: 5, offset: 65807},
+							pos:   position{line: 2049, col: 5, offset: 65839},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2049, col: 14, offset: 65816},
+								pos:  position{line: 2049, col: 14, offset: 65848},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42982,35 +42982,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2054, col: 1, offset: 65904},
+			pos:  position{line: 2054, col: 1, offset: 65936},
 			expr: &choiceExpr{
-				pos: position{line: 2056, col: 5, offset: 65969},
+				pos: position{line: 2056, col: 5, offset: 66001},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2056, col: 5, offset: 65969},
+						pos: position{line: 2056, col: 5, offset: 66001},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2056, col: 5, offset: 65969},
+							pos: position{line: 2056, col: 5, offset: 66001},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2056, col: 5, offset: 65969},
+									pos:   position{line: 2056, col: 5, offset: 66001},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1872, col: 25, offset: 60384},
+										pos: position{line: 1872, col: 25, offset: 60416},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1872, col: 25, offset: 60384},
+											pos: position{line: 1872, col: 25, offset: 60416},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1872, col: 25, offset: 60384},
+													pos:        position{line: 1872, col: 25, offset: 60416},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1872, col: 30, offset: 60389},
+													pos: position{line: 1872, col: 30, offset: 60421},
 													expr: &litMatcher{
-														pos:        position{line: 1872, col: 30, offset: 60389},
+														pos:        position{line: 1872, col: 30, offset: 60421},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43021,21 +43021,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2056, col: 40, offset: 66004},
+									pos:        position{line: 2056, col: 40, offset: 66036},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2056, col: 45, offset: 66009},
+									pos:   position{line: 2056, col: 45, offset: 66041},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2056, col: 55, offset: 66019},
+										pos:  position{line: 2056, col: 55, offset: 66051},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2056, col: 86, offset: 66050},
+									pos:        position{line: 2056, col: 86, offset: 66082},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -43044,21 +43044,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2060, col: 7, offset: 66215},
+						pos: position{line: 2060, col: 7, offset: 66247},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2060, col: 7, offset: 66215},
+							pos: position{line: 2060, col: 7, offset: 66247},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2060, col: 7, offset: 66215},
+									pos:   position{line: 2060, col: 7, offset: 66247},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1868, col: 25, offset: 60311},
+										pos: position{line: 1868, col: 25, offset: 60343},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1868, col: 25, offset: 60311},
+											pos: position{line: 1868, col: 25, offset: 60343},
 											expr: &litMatcher{
-												pos:        position{line: 1868, col: 25, offset: 60311},
+												pos:        position{line: 1868, col: 25, offset: 60343},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43067,21 +43067,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2060, col: 42, offset: 66250},
+									pos:        position{line: 2060, col: 42, offset: 66282},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2060, col: 47, offset: 66255},
+									pos:   position{line: 2060, col: 47, offset: 66287},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2060, col: 57, offset: 66265},
+										pos:  position{line: 2060, col: 57, offset: 66297},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2060, col: 88, offset: 66296},
+									pos:        position{line: 2060, col: 88, offset: 66328},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43090,21 +43090,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2065, col: 7, offset: 66537},
+						pos: position{line: 2065, col: 7, offset: 66569},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2065, col: 7, offset: 66537},
+							pos: position{line: 2065, col: 7, offset: 66569},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2065, col: 7, offset: 66537},
+									pos:   position{line: 2065, col: 7, offset: 66569},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1868, col: 25, offset: 60311},
+										pos: position{line: 1868, col: 25, offset: 60343},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1868, col: 25, offset: 60311},
+											pos: position{line: 1868, col: 25, offset: 60343},
 											expr: &litMatcher{
-												pos:        position{line: 1868, col: 25, offset: 60311},
+												pos:        position{line: 1868, col: 25, offset: 60343},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43113,21 +43113,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2065, col: 42, offset: 66572},
+									pos:        position{line: 2065, col: 42, offset: 66604},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2065, col: 46, offset: 66576},
+									pos:   position{line: 2065, col: 46, offset: 66608},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2065, col: 56, offset: 66586},
+										pos:  position{line: 2065, col: 56, offset: 66618},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2065, col: 87, offset: 66617},
+									pos:        position{line: 2065, col: 87, offset: 66649},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43140,29 +43140,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2082, col: 1, offset: 67181},
+			pos:  position{line: 2082, col: 1, offset: 67213},
 			expr: &actionExpr{
-				pos: position{line: 2083, col: 5, offset: 67214},
+				pos: position{line: 2083, col: 5, offset: 67246},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2083, col: 5, offset: 67214},
+					pos: position{line: 2083, col: 5, offset: 67246},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2078, col: 43, offset: 67129},
+							pos:        position{line: 2078, col: 43, offset: 67161},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2084, col: 5, offset: 67258},
+							pos:   position{line: 2084, col: 5, offset: 67290},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2084, col: 15, offset: 67268},
+								pos:  position{line: 2084, col: 15, offset: 67300},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2080, col: 41, offset: 67175},
+							pos:        position{line: 2080, col: 41, offset: 67207},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -43173,44 +43173,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2089, col: 1, offset: 67443},
+			pos:  position{line: 2089, col: 1, offset: 67475},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2089, col: 37, offset: 67479},
+				pos: position{line: 2089, col: 37, offset: 67511},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2089, col: 37, offset: 67479},
+					pos:  position{line: 2089, col: 37, offset: 67511},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2091, col: 1, offset: 67546},
+			pos:  position{line: 2091, col: 1, offset: 67578},
 			expr: &actionExpr{
-				pos: position{line: 2092, col: 5, offset: 67586},
+				pos: position{line: 2092, col: 5, offset: 67618},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2092, col: 5, offset: 67586},
+					pos: position{line: 2092, col: 5, offset: 67618},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2913, col: 11, offset: 91911},
+							pos: position{line: 2922, col: 11, offset: 92169},
 							expr: &anyMatcher{
-								line: 2913, col: 13, offset: 91913,
+								line: 2922, col: 13, offset: 92171,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2093, col: 5, offset: 67597},
+							pos: position{line: 2093, col: 5, offset: 67629},
 							expr: &litMatcher{
-								pos:        position{line: 2080, col: 41, offset: 67175},
+								pos:        position{line: 2080, col: 41, offset: 67207},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2094, col: 5, offset: 67639},
+							pos:   position{line: 2094, col: 5, offset: 67671},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2094, col: 14, offset: 67648},
+								pos:  position{line: 2094, col: 14, offset: 67680},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43220,33 +43220,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2112, col: 1, offset: 68190},
+			pos:  position{line: 2112, col: 1, offset: 68222},
 			expr: &seqExpr{
-				pos: position{line: 2113, col: 5, offset: 68235},
+				pos: position{line: 2113, col: 5, offset: 68267},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2113, col: 5, offset: 68235},
+						pos: position{line: 2113, col: 5, offset: 68267},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2113, col: 6, offset: 68236},
+							pos:  position{line: 2113, col: 6, offset: 68268},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2114, col: 5, offset: 68255},
+						pos:        position{line: 2114, col: 5, offset: 68287},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2115, col: 5, offset: 68263},
+						pos: position{line: 2115, col: 5, offset: 68295},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2119, col: 5, offset: 68377},
+						pos: position{line: 2119, col: 5, offset: 68409},
 						expr: &notExpr{
-							pos: position{line: 2119, col: 7, offset: 68379},
+							pos: position{line: 2119, col: 7, offset: 68411},
 							expr: &charClassMatcher{
-								pos:        position{line: 2786, col: 13, offset: 88672},
+								pos:        position{line: 2795, col: 13, offset: 88930},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -43259,29 +43259,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2122, col: 1, offset: 68396},
+			pos:  position{line: 2122, col: 1, offset: 68428},
 			expr: &actionExpr{
-				pos: position{line: 2123, col: 5, offset: 68429},
+				pos: position{line: 2123, col: 5, offset: 68461},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2123, col: 5, offset: 68429},
+					pos: position{line: 2123, col: 5, offset: 68461},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2105, col: 5, offset: 67992},
+							pos:        position{line: 2105, col: 5, offset: 68024},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2106, col: 5, offset: 68001},
+							pos: position{line: 2106, col: 5, offset: 68033},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2110, col: 5, offset: 68124},
+							pos: position{line: 2110, col: 5, offset: 68156},
 							expr: &notExpr{
-								pos: position{line: 2110, col: 7, offset: 68126},
+								pos: position{line: 2110, col: 7, offset: 68158},
 								expr: &litMatcher{
-									pos:        position{line: 2110, col: 8, offset: 68127},
+									pos:        position{line: 2110, col: 8, offset: 68159},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43289,15 +43289,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2124, col: 5, offset: 68473},
+							pos:   position{line: 2124, col: 5, offset: 68505},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2124, col: 15, offset: 68483},
+								pos:  position{line: 2124, col: 15, offset: 68515},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2125, col: 5, offset: 68522},
+							pos:  position{line: 2125, col: 5, offset: 68554},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -43306,20 +43306,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2129, col: 1, offset: 68659},
+			pos:  position{line: 2129, col: 1, offset: 68691},
 			expr: &actionExpr{
-				pos: position{line: 2130, col: 5, offset: 68700},
+				pos: position{line: 2130, col: 5, offset: 68732},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2130, col: 5, offset: 68700},
+					pos: position{line: 2130, col: 5, offset: 68732},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2130, col: 5, offset: 68700},
+							pos: position{line: 2130, col: 5, offset: 68732},
 							expr: &actionExpr{
-								pos: position{line: 2896, col: 10, offset: 91577},
+								pos: position{line: 2905, col: 10, offset: 91835},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2896, col: 10, offset: 91577},
+									pos:        position{line: 2905, col: 10, offset: 91835},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43328,18 +43328,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2131, col: 5, offset: 68739},
+							pos:   position{line: 2131, col: 5, offset: 68771},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2131, col: 14, offset: 68748},
+								pos: position{line: 2131, col: 14, offset: 68780},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2131, col: 15, offset: 68749},
+									pos:  position{line: 2131, col: 15, offset: 68781},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2132, col: 5, offset: 68787},
+							pos: position{line: 2132, col: 5, offset: 68819},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -43348,31 +43348,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2138, col: 1, offset: 68928},
+			pos:  position{line: 2138, col: 1, offset: 68960},
 			expr: &actionExpr{
-				pos: position{line: 2139, col: 5, offset: 68968},
+				pos: position{line: 2139, col: 5, offset: 69000},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2139, col: 5, offset: 68968},
+					pos: position{line: 2139, col: 5, offset: 69000},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2913, col: 11, offset: 91911},
+							pos: position{line: 2922, col: 11, offset: 92169},
 							expr: &anyMatcher{
-								line: 2913, col: 13, offset: 91913,
+								line: 2922, col: 13, offset: 92171,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2140, col: 5, offset: 68979},
+							pos: position{line: 2140, col: 5, offset: 69011},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2140, col: 6, offset: 68980},
+								pos:  position{line: 2140, col: 6, offset: 69012},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2141, col: 5, offset: 69021},
+							pos:   position{line: 2141, col: 5, offset: 69053},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2141, col: 14, offset: 69030},
+								pos:  position{line: 2141, col: 14, offset: 69062},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43382,35 +43382,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2146, col: 1, offset: 69118},
+			pos:  position{line: 2146, col: 1, offset: 69150},
 			expr: &choiceExpr{
-				pos: position{line: 2148, col: 5, offset: 69189},
+				pos: position{line: 2148, col: 5, offset: 69221},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2148, col: 5, offset: 69189},
+						pos: position{line: 2148, col: 5, offset: 69221},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2148, col: 5, offset: 69189},
+							pos: position{line: 2148, col: 5, offset: 69221},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2148, col: 5, offset: 69189},
+									pos:   position{line: 2148, col: 5, offset: 69221},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1872, col: 25, offset: 60384},
+										pos: position{line: 1872, col: 25, offset: 60416},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1872, col: 25, offset: 60384},
+											pos: position{line: 1872, col: 25, offset: 60416},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1872, col: 25, offset: 60384},
+													pos:        position{line: 1872, col: 25, offset: 60416},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1872, col: 30, offset: 60389},
+													pos: position{line: 1872, col: 30, offset: 60421},
 													expr: &litMatcher{
-														pos:        position{line: 1872, col: 30, offset: 60389},
+														pos:        position{line: 1872, col: 30, offset: 60421},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43421,21 +43421,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2148, col: 40, offset: 69224},
+									pos:        position{line: 2148, col: 40, offset: 69256},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2148, col: 45, offset: 69229},
+									pos:   position{line: 2148, col: 45, offset: 69261},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2148, col: 55, offset: 69239},
+										pos:  position{line: 2148, col: 55, offset: 69271},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2148, col: 89, offset: 69273},
+									pos:        position{line: 2148, col: 89, offset: 69305},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -43444,21 +43444,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2152, col: 7, offset: 69442},
+						pos: position{line: 2152, col: 7, offset: 69474},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2152, col: 7, offset: 69442},
+							pos: position{line: 2152, col: 7, offset: 69474},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2152, col: 7, offset: 69442},
+									pos:   position{line: 2152, col: 7, offset: 69474},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1868, col: 25, offset: 60311},
+										pos: position{line: 1868, col: 25, offset: 60343},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1868, col: 25, offset: 60311},
+											pos: position{line: 1868, col: 25, offset: 60343},
 											expr: &litMatcher{
-												pos:        position{line: 1868, col: 25, offset: 60311},
+												pos:        position{line: 1868, col: 25, offset: 60343},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43467,21 +43467,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2152, col: 42, offset: 69477},
+									pos:        position{line: 2152, col: 42, offset: 69509},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2152, col: 47, offset: 69482},
+									pos:   position{line: 2152, col: 47, offset: 69514},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2152, col: 57, offset: 69492},
+										pos:  position{line: 2152, col: 57, offset: 69524},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2152, col: 91, offset: 69526},
+									pos:        position{line: 2152, col: 91, offset: 69558},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43490,21 +43490,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2157, col: 7, offset: 69732},
+						pos: position{line: 2157, col: 7, offset: 69764},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2157, col: 7, offset: 69732},
+							pos: position{line: 2157, col: 7, offset: 69764},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2157, col: 7, offset: 69732},
+									pos:   position{line: 2157, col: 7, offset: 69764},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1868, col: 25, offset: 60311},
+										pos: position{line: 1868, col: 25, offset: 60343},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1868, col: 25, offset: 60311},
+											pos: position{line: 1868, col: 25, offset: 60343},
 											expr: &litMatcher{
-												pos:        position{line: 1868, col: 25, offset: 60311},
+												pos:        position{line: 1868, col: 25, offset: 60343},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43513,21 +43513,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2157, col: 42, offset: 69767},
+									pos:        position{line: 2157, col: 42, offset: 69799},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2157, col: 46, offset: 69771},
+									pos:   position{line: 2157, col: 46, offset: 69803},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2157, col: 56, offset: 69781},
+										pos:  position{line: 2157, col: 56, offset: 69813},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2157, col: 90, offset: 69815},
+									pos:        position{line: 2157, col: 90, offset: 69847},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43540,29 +43540,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2174, col: 1, offset: 70300},
+			pos:  position{line: 2174, col: 1, offset: 70332},
 			expr: &actionExpr{
-				pos: position{line: 2175, col: 5, offset: 70330},
+				pos: position{line: 2175, col: 5, offset: 70362},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2175, col: 5, offset: 70330},
+					pos: position{line: 2175, col: 5, offset: 70362},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2170, col: 40, offset: 70251},
+							pos:        position{line: 2170, col: 40, offset: 70283},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2176, col: 5, offset: 70371},
+							pos:   position{line: 2176, col: 5, offset: 70403},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2176, col: 15, offset: 70381},
+								pos:  position{line: 2176, col: 15, offset: 70413},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2172, col: 38, offset: 70294},
+							pos:        position{line: 2172, col: 38, offset: 70326},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -43573,44 +43573,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2181, col: 1, offset: 70547},
+			pos:  position{line: 2181, col: 1, offset: 70579},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2181, col: 34, offset: 70580},
+				pos: position{line: 2181, col: 34, offset: 70612},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2181, col: 34, offset: 70580},
+					pos:  position{line: 2181, col: 34, offset: 70612},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2183, col: 1, offset: 70611},
+			pos:  position{line: 2183, col: 1, offset: 70643},
 			expr: &actionExpr{
-				pos: position{line: 2184, col: 5, offset: 70680},
+				pos: position{line: 2184, col: 5, offset: 70712},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2184, col: 5, offset: 70680},
+					pos: position{line: 2184, col: 5, offset: 70712},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2913, col: 11, offset: 91911},
+							pos: position{line: 2922, col: 11, offset: 92169},
 							expr: &anyMatcher{
-								line: 2913, col: 13, offset: 91913,
+								line: 2922, col: 13, offset: 92171,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2185, col: 5, offset: 70691},
+							pos: position{line: 2185, col: 5, offset: 70723},
 							expr: &litMatcher{
-								pos:        position{line: 2172, col: 38, offset: 70294},
+								pos:        position{line: 2172, col: 38, offset: 70326},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2186, col: 5, offset: 70730},
+							pos:   position{line: 2186, col: 5, offset: 70762},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2186, col: 14, offset: 70739},
+								pos:  position{line: 2186, col: 14, offset: 70771},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43620,29 +43620,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2211, col: 1, offset: 71421},
+			pos:  position{line: 2211, col: 1, offset: 71453},
 			expr: &actionExpr{
-				pos: position{line: 2212, col: 5, offset: 71451},
+				pos: position{line: 2212, col: 5, offset: 71483},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2212, col: 5, offset: 71451},
+					pos: position{line: 2212, col: 5, offset: 71483},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2195, col: 5, offset: 70987},
+							pos:        position{line: 2195, col: 5, offset: 71019},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2196, col: 5, offset: 70996},
+							pos: position{line: 2196, col: 5, offset: 71028},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2200, col: 5, offset: 71116},
+							pos: position{line: 2200, col: 5, offset: 71148},
 							expr: &notExpr{
-								pos: position{line: 2200, col: 7, offset: 71118},
+								pos: position{line: 2200, col: 7, offset: 71150},
 								expr: &litMatcher{
-									pos:        position{line: 2200, col: 8, offset: 71119},
+									pos:        position{line: 2200, col: 8, offset: 71151},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43650,38 +43650,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2213, col: 5, offset: 71491},
+							pos:   position{line: 2213, col: 5, offset: 71523},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2213, col: 15, offset: 71501},
+								pos:  position{line: 2213, col: 15, offset: 71533},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2203, col: 5, offset: 71224},
+							pos:        position{line: 2203, col: 5, offset: 71256},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2204, col: 5, offset: 71232},
+							pos: position{line: 2204, col: 5, offset: 71264},
 							expr: &litMatcher{
-								pos:        position{line: 2204, col: 6, offset: 71233},
+								pos:        position{line: 2204, col: 6, offset: 71265},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2205, col: 5, offset: 71296},
+							pos: position{line: 2205, col: 5, offset: 71328},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2209, col: 5, offset: 71407},
+							pos: position{line: 2209, col: 5, offset: 71439},
 							expr: &notExpr{
-								pos: position{line: 2209, col: 7, offset: 71409},
+								pos: position{line: 2209, col: 7, offset: 71441},
 								expr: &charClassMatcher{
-									pos:        position{line: 2786, col: 13, offset: 88672},
+									pos:        position{line: 2795, col: 13, offset: 88930},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43695,20 +43695,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2218, col: 1, offset: 71668},
+			pos:  position{line: 2218, col: 1, offset: 71700},
 			expr: &actionExpr{
-				pos: position{line: 2219, col: 5, offset: 71706},
+				pos: position{line: 2219, col: 5, offset: 71738},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2219, col: 5, offset: 71706},
+					pos: position{line: 2219, col: 5, offset: 71738},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2219, col: 5, offset: 71706},
+							pos: position{line: 2219, col: 5, offset: 71738},
 							expr: &actionExpr{
-								pos: position{line: 2896, col: 10, offset: 91577},
+								pos: position{line: 2905, col: 10, offset: 91835},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2896, col: 10, offset: 91577},
+									pos:        position{line: 2905, col: 10, offset: 91835},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43717,18 +43717,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2220, col: 5, offset: 71745},
+							pos:   position{line: 2220, col: 5, offset: 71777},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2220, col: 14, offset: 71754},
+								pos: position{line: 2220, col: 14, offset: 71786},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2220, col: 15, offset: 71755},
+									pos:  position{line: 2220, col: 15, offset: 71787},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2221, col: 5, offset: 71791},
+							pos: position{line: 2221, col: 5, offset: 71823},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -43737,49 +43737,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2227, col: 1, offset: 71932},
+			pos:  position{line: 2227, col: 1, offset: 71964},
 			expr: &actionExpr{
-				pos: position{line: 2228, col: 5, offset: 71969},
+				pos: position{line: 2228, col: 5, offset: 72001},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2228, col: 5, offset: 71969},
+					pos: position{line: 2228, col: 5, offset: 72001},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2913, col: 11, offset: 91911},
+							pos: position{line: 2922, col: 11, offset: 92169},
 							expr: &anyMatcher{
-								line: 2913, col: 13, offset: 91913,
+								line: 2922, col: 13, offset: 92171,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2229, col: 5, offset: 71980},
+							pos: position{line: 2229, col: 5, offset: 72012},
 							expr: &seqExpr{
-								pos: position{line: 2203, col: 5, offset: 71224},
+								pos: position{line: 2203, col: 5, offset: 71256},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2203, col: 5, offset: 71224},
+										pos:        position{line: 2203, col: 5, offset: 71256},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2204, col: 5, offset: 71232},
+										pos: position{line: 2204, col: 5, offset: 71264},
 										expr: &litMatcher{
-											pos:        position{line: 2204, col: 6, offset: 71233},
+											pos:        position{line: 2204, col: 6, offset: 71265},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2205, col: 5, offset: 71296},
+										pos: position{line: 2205, col: 5, offset: 71328},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2209, col: 5, offset: 71407},
+										pos: position{line: 2209, col: 5, offset: 71439},
 										expr: &notExpr{
-											pos: position{line: 2209, col: 7, offset: 71409},
+											pos: position{line: 2209, col: 7, offset: 71441},
 											expr: &charClassMatcher{
-												pos:        position{line: 2786, col: 13, offset: 88672},
+												pos:        position{line: 2795, col: 13, offset: 88930},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43791,10 +43791,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2230, col: 5, offset: 72019},
+							pos:   position{line: 2230, col: 5, offset: 72051},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2230, col: 14, offset: 72028},
+								pos:  position{line: 2230, col: 14, offset: 72060},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43804,35 +43804,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2235, col: 1, offset: 72116},
+			pos:  position{line: 2235, col: 1, offset: 72148},
 			expr: &choiceExpr{
-				pos: position{line: 2237, col: 5, offset: 72180},
+				pos: position{line: 2237, col: 5, offset: 72212},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2237, col: 5, offset: 72180},
+						pos: position{line: 2237, col: 5, offset: 72212},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2237, col: 5, offset: 72180},
+							pos: position{line: 2237, col: 5, offset: 72212},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2237, col: 5, offset: 72180},
+									pos:   position{line: 2237, col: 5, offset: 72212},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1872, col: 25, offset: 60384},
+										pos: position{line: 1872, col: 25, offset: 60416},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1872, col: 25, offset: 60384},
+											pos: position{line: 1872, col: 25, offset: 60416},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1872, col: 25, offset: 60384},
+													pos:        position{line: 1872, col: 25, offset: 60416},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1872, col: 30, offset: 60389},
+													pos: position{line: 1872, col: 30, offset: 60421},
 													expr: &litMatcher{
-														pos:        position{line: 1872, col: 30, offset: 60389},
+														pos:        position{line: 1872, col: 30, offset: 60421},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43843,21 +43843,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2237, col: 40, offset: 72215},
+									pos:        position{line: 2237, col: 40, offset: 72247},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2237, col: 45, offset: 72220},
+									pos:   position{line: 2237, col: 45, offset: 72252},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2237, col: 55, offset: 72230},
+										pos:  position{line: 2237, col: 55, offset: 72262},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2237, col: 86, offset: 72261},
+									pos:        position{line: 2237, col: 86, offset: 72293},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -43866,21 +43866,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2241, col: 7, offset: 72426},
+						pos: position{line: 2241, col: 7, offset: 72458},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2241, col: 7, offset: 72426},
+							pos: position{line: 2241, col: 7, offset: 72458},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2241, col: 7, offset: 72426},
+									pos:   position{line: 2241, col: 7, offset: 72458},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1868, col: 25, offset: 60311},
+										pos: position{line: 1868, col: 25, offset: 60343},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1868, col: 25, offset: 60311},
+											pos: position{line: 1868, col: 25, offset: 60343},
 											expr: &litMatcher{
-												pos:        position{line: 1868, col: 25, offset: 60311},
+												pos:        position{line: 1868, col: 25, offset: 60343},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43889,21 +43889,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2241, col: 42, offset: 72461},
+									pos:        position{line: 2241, col: 42, offset: 72493},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2241, col: 47, offset: 72466},
+									pos:   position{line: 2241, col: 47, offset: 72498},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2241, col: 57, offset: 72476},
+										pos:  position{line: 2241, col: 57, offset: 72508},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2241, col: 88, offset: 72507},
+									pos:        position{line: 2241, col: 88, offset: 72539},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43912,21 +43912,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2246, col: 7, offset: 72710},
+						pos: position{line: 2246, col: 7, offset: 72742},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2246, col: 7, offset: 72710},
+							pos: position{line: 2246, col: 7, offset: 72742},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2246, col: 7, offset: 72710},
+									pos:   position{line: 2246, col: 7, offset: 72742},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1868, col: 25, offset: 60311},
+										pos: position{line: 1868, col: 25, offset: 60343},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1868, col: 25, offset: 60311},
+											pos: position{line: 1868, col: 25, offset: 60343},
 											expr: &litMatcher{
-												pos:        position{line: 1868, col: 25, offset: 60311},
+												pos:        position{line: 1868, col: 25, offset: 60343},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43935,21 +43935,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2246, col: 42, offset: 72745},
+									pos:        position{line: 2246, col: 42, offset: 72777},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2246, col: 46, offset: 72749},
+									pos:   position{line: 2246, col: 46, offset: 72781},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2246, col: 56, offset: 72759},
+										pos:  position{line: 2246, col: 56, offset: 72791},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2246, col: 87, offset: 72790},
+									pos:        position{line: 2246, col: 87, offset: 72822},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43962,29 +43962,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2253, col: 1, offset: 73057},
+			pos:  position{line: 2253, col: 1, offset: 73089},
 			expr: &actionExpr{
-				pos: position{line: 2254, col: 5, offset: 73079},
+				pos: position{line: 2254, col: 5, offset: 73111},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2254, col: 5, offset: 73079},
+					pos: position{line: 2254, col: 5, offset: 73111},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2260, col: 27, offset: 73294},
+							pos:        position{line: 2260, col: 27, offset: 73326},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2255, col: 5, offset: 73106},
+							pos:   position{line: 2255, col: 5, offset: 73138},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2255, col: 14, offset: 73115},
+								pos:  position{line: 2255, col: 14, offset: 73147},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 27, offset: 73294},
+							pos:        position{line: 2260, col: 27, offset: 73326},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43995,21 +43995,21 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2262, col: 1, offset: 73299},
+			pos:  position{line: 2262, col: 1, offset: 73331},
 			expr: &choiceExpr{
-				pos: position{line: 2262, col: 25, offset: 73323},
+				pos: position{line: 2262, col: 25, offset: 73355},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2262, col: 25, offset: 73323},
+						pos:  position{line: 2262, col: 25, offset: 73355},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2264, col: 21, offset: 73375},
+						pos: position{line: 2264, col: 21, offset: 73407},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2264, col: 21, offset: 73375},
+							pos: position{line: 2264, col: 21, offset: 73407},
 							expr: &charClassMatcher{
-								pos:        position{line: 2264, col: 21, offset: 73375},
+								pos:        position{line: 2264, col: 21, offset: 73407},
 								val:        "[^\\r\\n ~]",
 								chars:      []rune{'\r', '\n', ' ', '~'},
 								ignoreCase: false,
@@ -44022,23 +44022,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2268, col: 1, offset: 73460},
+			pos:  position{line: 2268, col: 1, offset: 73492},
 			expr: &actionExpr{
-				pos: position{line: 2270, col: 5, offset: 73527},
+				pos: position{line: 2270, col: 5, offset: 73559},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2270, col: 5, offset: 73527},
+					pos: position{line: 2270, col: 5, offset: 73559},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2270, col: 5, offset: 73527},
+							pos:   position{line: 2270, col: 5, offset: 73559},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1868, col: 25, offset: 60311},
+								pos: position{line: 1868, col: 25, offset: 60343},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1868, col: 25, offset: 60311},
+									pos: position{line: 1868, col: 25, offset: 60343},
 									expr: &litMatcher{
-										pos:        position{line: 1868, col: 25, offset: 60311},
+										pos:        position{line: 1868, col: 25, offset: 60343},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -44047,21 +44047,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 27, offset: 73294},
+							pos:        position{line: 2260, col: 27, offset: 73326},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2272, col: 5, offset: 73595},
+							pos:   position{line: 2272, col: 5, offset: 73627},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2272, col: 14, offset: 73604},
+								pos:  position{line: 2272, col: 14, offset: 73636},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 27, offset: 73294},
+							pos:        position{line: 2260, col: 27, offset: 73326},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -44072,29 +44072,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2280, col: 1, offset: 73867},
+			pos:  position{line: 2280, col: 1, offset: 73899},
 			expr: &actionExpr{
-				pos: position{line: 2281, col: 5, offset: 73891},
+				pos: position{line: 2281, col: 5, offset: 73923},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2281, col: 5, offset: 73891},
+					pos: position{line: 2281, col: 5, offset: 73923},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2287, col: 29, offset: 74118},
+							pos:        position{line: 2287, col: 29, offset: 74150},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2282, col: 5, offset: 73921},
+							pos:   position{line: 2282, col: 5, offset: 73953},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2282, col: 14, offset: 73930},
+								pos:  position{line: 2282, col: 14, offset: 73962},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2287, col: 29, offset: 74118},
+							pos:        position{line: 2287, col: 29, offset: 74150},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -44105,21 +44105,21 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2289, col: 1, offset: 74123},
+			pos:  position{line: 2289, col: 1, offset: 74155},
 			expr: &choiceExpr{
-				pos: position{line: 2289, col: 27, offset: 74149},
+				pos: position{line: 2289, col: 27, offset: 74181},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2289, col: 27, offset: 74149},
+						pos:  position{line: 2289, col: 27, offset: 74181},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2291, col: 23, offset: 74205},
+						pos: position{line: 2291, col: 23, offset: 74237},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2291, col: 23, offset: 74205},
+							pos: position{line: 2291, col: 23, offset: 74237},
 							expr: &charClassMatcher{
-								pos:        position{line: 2291, col: 23, offset: 74205},
+								pos:        position{line: 2291, col: 23, offset: 74237},
 								val:        "[^\\r\\n ^]",
 								chars:      []rune{'\r', '\n', ' ', '^'},
 								ignoreCase: false,
@@ -44132,23 +44132,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2295, col: 1, offset: 74290},
+			pos:  position{line: 2295, col: 1, offset: 74322},
 			expr: &actionExpr{
-				pos: position{line: 2297, col: 5, offset: 74362},
+				pos: position{line: 2297, col: 5, offset: 74394},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2297, col: 5, offset: 74362},
+					pos: position{line: 2297, col: 5, offset: 74394},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2297, col: 5, offset: 74362},
+							pos:   position{line: 2297, col: 5, offset: 74394},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1868, col: 25, offset: 60311},
+								pos: position{line: 1868, col: 25, offset: 60343},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1868, col: 25, offset: 60311},
+									pos: position{line: 1868, col: 25, offset: 60343},
 									expr: &litMatcher{
-										pos:        position{line: 1868, col: 25, offset: 60311},
+										pos:        position{line: 1868, col: 25, offset: 60343},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -44157,21 +44157,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2287, col: 29, offset: 74118},
+							pos:        position{line: 2287, col: 29, offset: 74150},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2299, col: 5, offset: 74432},
+							pos:   position{line: 2299, col: 5, offset: 74464},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2299, col: 14, offset: 74441},
+								pos:  position{line: 2299, col: 14, offset: 74473},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2287, col: 29, offset: 74118},
+							pos:        position{line: 2287, col: 29, offset: 74150},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -44182,27 +44182,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2308, col: 1, offset: 74910},
+			pos:  position{line: 2308, col: 1, offset: 74942},
 			expr: &actionExpr{
-				pos: position{line: 2309, col: 5, offset: 74926},
+				pos: position{line: 2309, col: 5, offset: 74958},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2309, col: 5, offset: 74926},
+					pos: position{line: 2309, col: 5, offset: 74958},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2309, col: 5, offset: 74926},
+							pos: position{line: 2309, col: 5, offset: 74958},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2312, col: 5, offset: 74989},
+							pos:   position{line: 2312, col: 5, offset: 75021},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2312, col: 12, offset: 74996},
+								pos: position{line: 2312, col: 12, offset: 75028},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2312, col: 12, offset: 74996},
+									pos: position{line: 2312, col: 12, offset: 75028},
 									expr: &litMatcher{
-										pos:        position{line: 2312, col: 13, offset: 74997},
+										pos:        position{line: 2312, col: 13, offset: 75029},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -44211,16 +44211,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2316, col: 5, offset: 75105},
+							pos: position{line: 2316, col: 5, offset: 75137},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2900, col: 11, offset: 91638},
+							pos: position{line: 2909, col: 11, offset: 91896},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2900, col: 11, offset: 91638},
+								pos: position{line: 2909, col: 11, offset: 91896},
 								expr: &charClassMatcher{
-									pos:        position{line: 2900, col: 11, offset: 91638},
+									pos:        position{line: 2909, col: 11, offset: 91896},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44229,36 +44229,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2320, col: 12, offset: 75264},
+							pos:   position{line: 2320, col: 12, offset: 75296},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2320, col: 19, offset: 75271},
+								pos:  position{line: 2320, col: 19, offset: 75303},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2918, col: 8, offset: 91975},
+							pos: position{line: 2927, col: 8, offset: 92233},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2905, col: 12, offset: 91748},
+									pos: position{line: 2914, col: 12, offset: 92006},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2905, col: 13, offset: 91749},
+										pos: position{line: 2914, col: 13, offset: 92007},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2905, col: 13, offset: 91749},
+												pos:        position{line: 2914, col: 13, offset: 92007},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2905, col: 20, offset: 91756},
+												pos:        position{line: 2914, col: 20, offset: 92014},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2905, col: 29, offset: 91765},
+												pos:        position{line: 2914, col: 29, offset: 92023},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44267,9 +44267,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2915, col: 8, offset: 91925},
+									pos: position{line: 2924, col: 8, offset: 92183},
 									expr: &anyMatcher{
-										line: 2915, col: 9, offset: 91926,
+										line: 2924, col: 9, offset: 92184,
 									},
 								},
 							},
@@ -44280,24 +44280,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2324, col: 1, offset: 75367},
+			pos:  position{line: 2324, col: 1, offset: 75399},
 			expr: &actionExpr{
-				pos: position{line: 2325, col: 5, offset: 75388},
+				pos: position{line: 2325, col: 5, offset: 75420},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2325, col: 5, offset: 75388},
+					pos: position{line: 2325, col: 5, offset: 75420},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2325, col: 5, offset: 75388},
+							pos: position{line: 2325, col: 5, offset: 75420},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2330, col: 5, offset: 75503},
+							pos:   position{line: 2330, col: 5, offset: 75535},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2330, col: 14, offset: 75512},
+								pos: position{line: 2330, col: 14, offset: 75544},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2330, col: 15, offset: 75513},
+									pos:  position{line: 2330, col: 15, offset: 75545},
 									name: "SectionTitleElement",
 								},
 							},
@@ -44308,38 +44308,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2334, col: 1, offset: 75594},
+			pos:  position{line: 2334, col: 1, offset: 75626},
 			expr: &actionExpr{
-				pos: position{line: 2335, col: 5, offset: 75621},
+				pos: position{line: 2335, col: 5, offset: 75653},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2335, col: 5, offset: 75621},
+					pos: position{line: 2335, col: 5, offset: 75653},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2335, col: 5, offset: 75621},
+							pos: position{line: 2335, col: 5, offset: 75653},
 							expr: &choiceExpr{
-								pos: position{line: 2918, col: 8, offset: 91975},
+								pos: position{line: 2927, col: 8, offset: 92233},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2905, col: 12, offset: 91748},
+										pos: position{line: 2914, col: 12, offset: 92006},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2905, col: 13, offset: 91749},
+											pos: position{line: 2914, col: 13, offset: 92007},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2905, col: 13, offset: 91749},
+													pos:        position{line: 2914, col: 13, offset: 92007},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2905, col: 20, offset: 91756},
+													pos:        position{line: 2914, col: 20, offset: 92014},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2905, col: 29, offset: 91765},
+													pos:        position{line: 2914, col: 29, offset: 92023},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44348,46 +44348,46 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2915, col: 8, offset: 91925},
+										pos: position{line: 2924, col: 8, offset: 92183},
 										expr: &anyMatcher{
-											line: 2915, col: 9, offset: 91926,
+											line: 2924, col: 9, offset: 92184,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2336, col: 5, offset: 75630},
+							pos:   position{line: 2336, col: 5, offset: 75662},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2337, col: 9, offset: 75648},
+								pos: position{line: 2337, col: 9, offset: 75680},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2337, col: 10, offset: 75649},
+										pos: position{line: 2337, col: 10, offset: 75681},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2337, col: 10, offset: 75649},
+											pos: position{line: 2337, col: 10, offset: 75681},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2337, col: 10, offset: 75649},
+													pos:   position{line: 2337, col: 10, offset: 75681},
 													label: "element",
 													expr: &ruleRefExpr{
-														pos:  position{line: 2337, col: 19, offset: 75658},
+														pos:  position{line: 2337, col: 19, offset: 75690},
 														name: "SectionTitleInlineElement",
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 2337, col: 46, offset: 75685},
+													pos: position{line: 2337, col: 46, offset: 75717},
 													run: (*parser).callonSectionTitleElement18,
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2835, col: 12, offset: 89885},
+										pos: position{line: 2844, col: 12, offset: 90143},
 										run: (*parser).callonSectionTitleElement19,
 										expr: &charClassMatcher{
-											pos:        position{line: 2835, col: 12, offset: 89885},
+											pos:        position{line: 2844, col: 12, offset: 90143},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -44403,32 +44403,32 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleInlineElement",
-			pos:  position{line: 2345, col: 1, offset: 75862},
+			pos:  position{line: 2345, col: 1, offset: 75894},
 			expr: &actionExpr{
-				pos: position{line: 2346, col: 5, offset: 75895},
+				pos: position{line: 2346, col: 5, offset: 75927},
 				run: (*parser).callonSectionTitleInlineElement1,
 				expr: &labeledExpr{
-					pos:   position{line: 2346, col: 5, offset: 75895},
+					pos:   position{line: 2346, col: 5, offset: 75927},
 					label: "element",
 					expr: &choiceExpr{
-						pos: position{line: 2347, col: 9, offset: 75913},
+						pos: position{line: 2347, col: 9, offset: 75945},
 						alternatives: []interface{}{
 							&actionExpr{
-								pos: position{line: 2795, col: 5, offset: 88819},
+								pos: position{line: 2804, col: 5, offset: 89077},
 								run: (*parser).callonSectionTitleInlineElement4,
 								expr: &seqExpr{
-									pos: position{line: 2795, col: 5, offset: 88819},
+									pos: position{line: 2804, col: 5, offset: 89077},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2795, col: 5, offset: 88819},
+											pos:   position{line: 2804, col: 5, offset: 89077},
 											label: "text",
 											expr: &actionExpr{
-												pos: position{line: 2795, col: 11, offset: 88825},
+												pos: position{line: 2804, col: 11, offset: 89083},
 												run: (*parser).callonSectionTitleInlineElement7,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2795, col: 11, offset: 88825},
+													pos: position{line: 2804, col: 11, offset: 89083},
 													expr: &charClassMatcher{
-														pos:        position{line: 2795, col: 11, offset: 88825},
+														pos:        position{line: 2804, col: 11, offset: 89083},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -44438,36 +44438,36 @@ var g = &grammar{
 											},
 										},
 										&notExpr{
-											pos: position{line: 2798, col: 5, offset: 88883},
+											pos: position{line: 2807, col: 5, offset: 89141},
 											expr: &seqExpr{
-												pos: position{line: 2799, col: 9, offset: 88894},
+												pos: position{line: 2808, col: 9, offset: 89152},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2799, col: 9, offset: 88894},
+														pos:        position{line: 2808, col: 9, offset: 89152},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2800, col: 9, offset: 88943},
+														pos: position{line: 2809, col: 9, offset: 89201},
 														run: (*parser).callonSectionTitleInlineElement13,
 													},
 												},
 											},
 										},
 										&notExpr{
-											pos: position{line: 2804, col: 5, offset: 89023},
+											pos: position{line: 2813, col: 5, offset: 89281},
 											expr: &seqExpr{
-												pos: position{line: 2805, col: 9, offset: 89034},
+												pos: position{line: 2814, col: 9, offset: 89292},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2805, col: 9, offset: 89034},
+														pos:        position{line: 2814, col: 9, offset: 89292},
 														val:        "@",
 														ignoreCase: false,
 														want:       "\"@\"",
 													},
 													&charClassMatcher{
-														pos:        position{line: 2805, col: 13, offset: 89038},
+														pos:        position{line: 2814, col: 13, offset: 89296},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -44480,12 +44480,12 @@ var g = &grammar{
 								},
 							},
 							&actionExpr{
-								pos: position{line: 2900, col: 11, offset: 91638},
+								pos: position{line: 2909, col: 11, offset: 91896},
 								run: (*parser).callonSectionTitleInlineElement18,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2900, col: 11, offset: 91638},
+									pos: position{line: 2909, col: 11, offset: 91896},
 									expr: &charClassMatcher{
-										pos:        position{line: 2900, col: 11, offset: 91638},
+										pos:        position{line: 2909, col: 11, offset: 91896},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -44494,25 +44494,25 @@ var g = &grammar{
 								},
 							},
 							&actionExpr{
-								pos: position{line: 2515, col: 5, offset: 81054},
+								pos: position{line: 2515, col: 5, offset: 81086},
 								run: (*parser).callonSectionTitleInlineElement21,
 								expr: &seqExpr{
-									pos: position{line: 2515, col: 5, offset: 81054},
+									pos: position{line: 2515, col: 5, offset: 81086},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2515, col: 5, offset: 81054},
+											pos: position{line: 2515, col: 5, offset: 81086},
 											run: (*parser).callonSectionTitleInlineElement23,
 										},
 										&litMatcher{
-											pos:        position{line: 2518, col: 5, offset: 81125},
+											pos:        position{line: 2518, col: 5, offset: 81157},
 											val:        "\\'",
 											ignoreCase: false,
 											want:       "\"\\\\'\"",
 										},
 										&andExpr{
-											pos: position{line: 2518, col: 10, offset: 81130},
+											pos: position{line: 2518, col: 10, offset: 81162},
 											expr: &charClassMatcher{
-												pos:        position{line: 2518, col: 11, offset: 81131},
+												pos:        position{line: 2518, col: 11, offset: 81163},
 												val:        "[\\pL]",
 												classes:    []*unicode.RangeTable{rangeTable("L")},
 												ignoreCase: false,
@@ -44523,29 +44523,29 @@ var g = &grammar{
 								},
 							},
 							&actionExpr{
-								pos: position{line: 2524, col: 5, offset: 81323},
+								pos: position{line: 2524, col: 5, offset: 81355},
 								run: (*parser).callonSectionTitleInlineElement27,
 								expr: &seqExpr{
-									pos: position{line: 2524, col: 5, offset: 81323},
+									pos: position{line: 2524, col: 5, offset: 81355},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2524, col: 5, offset: 81323},
+											pos: position{line: 2524, col: 5, offset: 81355},
 											run: (*parser).callonSectionTitleInlineElement29,
 										},
 										&andCodeExpr{
-											pos: position{line: 2527, col: 5, offset: 81394},
+											pos: position{line: 2527, col: 5, offset: 81426},
 											run: (*parser).callonSectionTitleInlineElement30,
 										},
 										&litMatcher{
-											pos:        position{line: 2531, col: 5, offset: 81519},
+											pos:        position{line: 2531, col: 5, offset: 81551},
 											val:        "'",
 											ignoreCase: false,
 											want:       "\"'\"",
 										},
 										&andExpr{
-											pos: position{line: 2531, col: 9, offset: 81523},
+											pos: position{line: 2531, col: 9, offset: 81555},
 											expr: &charClassMatcher{
-												pos:        position{line: 2531, col: 10, offset: 81524},
+												pos:        position{line: 2531, col: 10, offset: 81556},
 												val:        "[\\pL]",
 												classes:    []*unicode.RangeTable{rangeTable("L")},
 												ignoreCase: false,
@@ -44556,31 +44556,31 @@ var g = &grammar{
 								},
 							},
 							&ruleRefExpr{
-								pos:  position{line: 2350, col: 11, offset: 75978},
+								pos:  position{line: 2350, col: 11, offset: 76010},
 								name: "Replacement",
 							},
 							&actionExpr{
-								pos: position{line: 2813, col: 5, offset: 89231},
+								pos: position{line: 2822, col: 5, offset: 89489},
 								run: (*parser).callonSectionTitleInlineElement35,
 								expr: &choiceExpr{
-									pos: position{line: 2814, col: 9, offset: 89241},
+									pos: position{line: 2823, col: 9, offset: 89499},
 									alternatives: []interface{}{
 										&charClassMatcher{
-											pos:        position{line: 2814, col: 10, offset: 89242},
+											pos:        position{line: 2823, col: 10, offset: 89500},
 											val:        "[.,;?)!/:\"\\@=-]",
 											chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 											ignoreCase: false,
 											inverted:   false,
 										},
 										&seqExpr{
-											pos: position{line: 2816, col: 13, offset: 89339},
+											pos: position{line: 2825, col: 13, offset: 89597},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2816, col: 13, offset: 89339},
+													pos: position{line: 2825, col: 13, offset: 89597},
 													run: (*parser).callonSectionTitleInlineElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2819, col: 13, offset: 89439},
+													pos:        position{line: 2828, col: 13, offset: 89697},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
@@ -44588,20 +44588,20 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 2819, col: 19, offset: 89445},
+											pos:        position{line: 2828, col: 19, offset: 89703},
 											val:        "]",
 											ignoreCase: false,
 											want:       "\"]\"",
 										},
 										&seqExpr{
-											pos: position{line: 2822, col: 13, offset: 89483},
+											pos: position{line: 2831, col: 13, offset: 89741},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2822, col: 13, offset: 89483},
+													pos: position{line: 2831, col: 13, offset: 89741},
 													run: (*parser).callonSectionTitleInlineElement43,
 												},
 												&charClassMatcher{
-													pos:        position{line: 2825, col: 14, offset: 89576},
+													pos:        position{line: 2834, col: 14, offset: 89834},
 													val:        "[*_`#]",
 													chars:      []rune{'*', '_', '`', '#'},
 													ignoreCase: false,
@@ -44610,18 +44610,18 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2827, col: 12, offset: 89620},
+											pos: position{line: 2836, col: 12, offset: 89878},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2827, col: 12, offset: 89620},
+													pos:        position{line: 2836, col: 12, offset: 89878},
 													val:        "(",
 													ignoreCase: false,
 													want:       "\"(\"",
 												},
 												&notExpr{
-													pos: position{line: 2827, col: 16, offset: 89624},
+													pos: position{line: 2836, col: 16, offset: 89882},
 													expr: &litMatcher{
-														pos:        position{line: 2827, col: 17, offset: 89625},
+														pos:        position{line: 2836, col: 17, offset: 89883},
 														val:        "(",
 														ignoreCase: false,
 														want:       "\"(\"",
@@ -44633,35 +44633,35 @@ var g = &grammar{
 								},
 							},
 							&ruleRefExpr{
-								pos:  position{line: 2352, col: 11, offset: 76051},
+								pos:  position{line: 2352, col: 11, offset: 76083},
 								name: "Quote",
 							},
 							&ruleRefExpr{
-								pos:  position{line: 2353, col: 11, offset: 76067},
+								pos:  position{line: 2353, col: 11, offset: 76099},
 								name: "InlinePassthrough",
 							},
 							&ruleRefExpr{
-								pos:  position{line: 2354, col: 11, offset: 76095},
+								pos:  position{line: 2354, col: 11, offset: 76127},
 								name: "Link",
 							},
 							&actionExpr{
-								pos: position{line: 2484, col: 5, offset: 79883},
+								pos: position{line: 2484, col: 5, offset: 79915},
 								run: (*parser).callonSectionTitleInlineElement52,
 								expr: &seqExpr{
-									pos: position{line: 2484, col: 5, offset: 79883},
+									pos: position{line: 2484, col: 5, offset: 79915},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2484, col: 5, offset: 79883},
+											pos: position{line: 2484, col: 5, offset: 79915},
 											run: (*parser).callonSectionTitleInlineElement54,
 										},
 										&labeledExpr{
-											pos:   position{line: 2487, col: 5, offset: 79959},
+											pos:   position{line: 2487, col: 5, offset: 79991},
 											label: "element",
 											expr: &actionExpr{
-												pos: position{line: 2488, col: 9, offset: 79977},
+												pos: position{line: 2488, col: 9, offset: 80009},
 												run: (*parser).callonSectionTitleInlineElement56,
 												expr: &charClassMatcher{
-													pos:        position{line: 2488, col: 10, offset: 79978},
+													pos:        position{line: 2488, col: 10, offset: 80010},
 													val:        "[<>&]",
 													chars:      []rune{'<', '>', '&'},
 													ignoreCase: false,
@@ -44673,39 +44673,39 @@ var g = &grammar{
 								},
 							},
 							&ruleRefExpr{
-								pos:  position{line: 2356, col: 11, offset: 76180},
+								pos:  position{line: 2356, col: 11, offset: 76212},
 								name: "InlineIcon",
 							},
 							&actionExpr{
-								pos: position{line: 646, col: 5, offset: 20455},
+								pos: position{line: 646, col: 5, offset: 20487},
 								run: (*parser).callonSectionTitleInlineElement59,
 								expr: &seqExpr{
-									pos: position{line: 646, col: 5, offset: 20455},
+									pos: position{line: 646, col: 5, offset: 20487},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 646, col: 5, offset: 20455},
+											pos: position{line: 646, col: 5, offset: 20487},
 											run: (*parser).callonSectionTitleInlineElement61,
 										},
 										&labeledExpr{
-											pos:   position{line: 649, col: 5, offset: 20527},
+											pos:   position{line: 649, col: 5, offset: 20559},
 											label: "element",
 											expr: &choiceExpr{
-												pos: position{line: 649, col: 14, offset: 20536},
+												pos: position{line: 649, col: 14, offset: 20568},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 655, col: 5, offset: 20665},
+														pos: position{line: 655, col: 5, offset: 20697},
 														run: (*parser).callonSectionTitleInlineElement64,
 														expr: &seqExpr{
-															pos: position{line: 655, col: 5, offset: 20665},
+															pos: position{line: 655, col: 5, offset: 20697},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 655, col: 5, offset: 20665},
+																	pos:        position{line: 655, col: 5, offset: 20697},
 																	val:        "\\{",
 																	ignoreCase: false,
 																	want:       "\"\\\\{\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 655, col: 13, offset: 20673},
+																	pos:   position{line: 655, col: 13, offset: 20705},
 																	label: "name",
 																	expr: &actionExpr{
 																		pos: position{line: 318, col: 18, offset: 9736},
@@ -44737,7 +44737,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 655, col: 32, offset: 20692},
+																	pos:        position{line: 655, col: 32, offset: 20724},
 																	val:        "}",
 																	ignoreCase: false,
 																	want:       "\"}\"",
@@ -44746,19 +44746,19 @@ var g = &grammar{
 														},
 													},
 													&actionExpr{
-														pos: position{line: 662, col: 5, offset: 20933},
+														pos: position{line: 662, col: 5, offset: 20965},
 														run: (*parser).callonSectionTitleInlineElement74,
 														expr: &seqExpr{
-															pos: position{line: 662, col: 5, offset: 20933},
+															pos: position{line: 662, col: 5, offset: 20965},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 662, col: 5, offset: 20933},
+																	pos:        position{line: 662, col: 5, offset: 20965},
 																	val:        "{",
 																	ignoreCase: false,
 																	want:       "\"{\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 662, col: 9, offset: 20937},
+																	pos:   position{line: 662, col: 9, offset: 20969},
 																	label: "name",
 																	expr: &actionExpr{
 																		pos: position{line: 318, col: 18, offset: 9736},
@@ -44790,7 +44790,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 662, col: 28, offset: 20956},
+																	pos:        position{line: 662, col: 28, offset: 20988},
 																	val:        "}",
 																	ignoreCase: false,
 																	want:       "\"}\"",
@@ -44799,19 +44799,19 @@ var g = &grammar{
 														},
 													},
 													&actionExpr{
-														pos: position{line: 668, col: 25, offset: 21137},
+														pos: position{line: 668, col: 25, offset: 21169},
 														run: (*parser).callonSectionTitleInlineElement84,
 														expr: &seqExpr{
-															pos: position{line: 668, col: 25, offset: 21137},
+															pos: position{line: 668, col: 25, offset: 21169},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 668, col: 25, offset: 21137},
+																	pos:        position{line: 668, col: 25, offset: 21169},
 																	val:        "{counter:",
 																	ignoreCase: false,
 																	want:       "\"{counter:\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 668, col: 37, offset: 21149},
+																	pos:   position{line: 668, col: 37, offset: 21181},
 																	label: "name",
 																	expr: &actionExpr{
 																		pos: position{line: 318, col: 18, offset: 9736},
@@ -44843,33 +44843,33 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 668, col: 56, offset: 21168},
+																	pos:   position{line: 668, col: 56, offset: 21200},
 																	label: "start",
 																	expr: &zeroOrOneExpr{
-																		pos: position{line: 668, col: 62, offset: 21174},
+																		pos: position{line: 668, col: 62, offset: 21206},
 																		expr: &actionExpr{
-																			pos: position{line: 676, col: 17, offset: 21469},
+																			pos: position{line: 676, col: 17, offset: 21501},
 																			run: (*parser).callonSectionTitleInlineElement95,
 																			expr: &seqExpr{
-																				pos: position{line: 676, col: 17, offset: 21469},
+																				pos: position{line: 676, col: 17, offset: 21501},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 676, col: 17, offset: 21469},
+																						pos:        position{line: 676, col: 17, offset: 21501},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 676, col: 21, offset: 21473},
+																						pos:   position{line: 676, col: 21, offset: 21505},
 																						label: "start",
 																						expr: &choiceExpr{
-																							pos: position{line: 676, col: 28, offset: 21480},
+																							pos: position{line: 676, col: 28, offset: 21512},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 676, col: 28, offset: 21480},
+																									pos: position{line: 676, col: 28, offset: 21512},
 																									run: (*parser).callonSectionTitleInlineElement100,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 676, col: 28, offset: 21480},
+																										pos:        position{line: 676, col: 28, offset: 21512},
 																										val:        "[A-Za-z]",
 																										ranges:     []rune{'A', 'Z', 'a', 'z'},
 																										ignoreCase: false,
@@ -44877,12 +44877,12 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 678, col: 9, offset: 21534},
+																									pos: position{line: 678, col: 9, offset: 21566},
 																									run: (*parser).callonSectionTitleInlineElement102,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 678, col: 9, offset: 21534},
+																										pos: position{line: 678, col: 9, offset: 21566},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 678, col: 9, offset: 21534},
+																											pos:        position{line: 678, col: 9, offset: 21566},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -44899,7 +44899,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 668, col: 78, offset: 21190},
+																	pos:        position{line: 668, col: 78, offset: 21222},
 																	val:        "}",
 																	ignoreCase: false,
 																	want:       "\"}\"",
@@ -44908,19 +44908,19 @@ var g = &grammar{
 														},
 													},
 													&actionExpr{
-														pos: position{line: 672, col: 25, offset: 21308},
+														pos: position{line: 672, col: 25, offset: 21340},
 														run: (*parser).callonSectionTitleInlineElement106,
 														expr: &seqExpr{
-															pos: position{line: 672, col: 25, offset: 21308},
+															pos: position{line: 672, col: 25, offset: 21340},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 672, col: 25, offset: 21308},
+																	pos:        position{line: 672, col: 25, offset: 21340},
 																	val:        "{counter2:",
 																	ignoreCase: false,
 																	want:       "\"{counter2:\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 672, col: 38, offset: 21321},
+																	pos:   position{line: 672, col: 38, offset: 21353},
 																	label: "name",
 																	expr: &actionExpr{
 																		pos: position{line: 318, col: 18, offset: 9736},
@@ -44952,33 +44952,33 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 672, col: 57, offset: 21340},
+																	pos:   position{line: 672, col: 57, offset: 21372},
 																	label: "start",
 																	expr: &zeroOrOneExpr{
-																		pos: position{line: 672, col: 63, offset: 21346},
+																		pos: position{line: 672, col: 63, offset: 21378},
 																		expr: &actionExpr{
-																			pos: position{line: 676, col: 17, offset: 21469},
+																			pos: position{line: 676, col: 17, offset: 21501},
 																			run: (*parser).callonSectionTitleInlineElement117,
 																			expr: &seqExpr{
-																				pos: position{line: 676, col: 17, offset: 21469},
+																				pos: position{line: 676, col: 17, offset: 21501},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 676, col: 17, offset: 21469},
+																						pos:        position{line: 676, col: 17, offset: 21501},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 676, col: 21, offset: 21473},
+																						pos:   position{line: 676, col: 21, offset: 21505},
 																						label: "start",
 																						expr: &choiceExpr{
-																							pos: position{line: 676, col: 28, offset: 21480},
+																							pos: position{line: 676, col: 28, offset: 21512},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 676, col: 28, offset: 21480},
+																									pos: position{line: 676, col: 28, offset: 21512},
 																									run: (*parser).callonSectionTitleInlineElement122,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 676, col: 28, offset: 21480},
+																										pos:        position{line: 676, col: 28, offset: 21512},
 																										val:        "[A-Za-z]",
 																										ranges:     []rune{'A', 'Z', 'a', 'z'},
 																										ignoreCase: false,
@@ -44986,12 +44986,12 @@ var g = &grammar{
 																									},
 																								},
 																								&actionExpr{
-																									pos: position{line: 678, col: 9, offset: 21534},
+																									pos: position{line: 678, col: 9, offset: 21566},
 																									run: (*parser).callonSectionTitleInlineElement124,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 678, col: 9, offset: 21534},
+																										pos: position{line: 678, col: 9, offset: 21566},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 678, col: 9, offset: 21534},
+																											pos:        position{line: 678, col: 9, offset: 21566},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -45008,7 +45008,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 672, col: 79, offset: 21362},
+																	pos:        position{line: 672, col: 79, offset: 21394},
 																	val:        "}",
 																	ignoreCase: false,
 																	want:       "\"}\"",
@@ -45023,27 +45023,27 @@ var g = &grammar{
 								},
 							},
 							&actionExpr{
-								pos: position{line: 1224, col: 23, offset: 37828},
+								pos: position{line: 1224, col: 23, offset: 37860},
 								run: (*parser).callonSectionTitleInlineElement128,
 								expr: &seqExpr{
-									pos: position{line: 1224, col: 23, offset: 37828},
+									pos: position{line: 1224, col: 23, offset: 37860},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 1222, col: 32, offset: 37796},
+											pos:        position{line: 1222, col: 32, offset: 37828},
 											val:        "�",
 											ignoreCase: false,
 											want:       "\"�\"",
 										},
 										&labeledExpr{
-											pos:   position{line: 1224, col: 51, offset: 37856},
+											pos:   position{line: 1224, col: 51, offset: 37888},
 											label: "ref",
 											expr: &actionExpr{
-												pos: position{line: 1224, col: 56, offset: 37861},
+												pos: position{line: 1224, col: 56, offset: 37893},
 												run: (*parser).callonSectionTitleInlineElement132,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 1224, col: 56, offset: 37861},
+													pos: position{line: 1224, col: 56, offset: 37893},
 													expr: &charClassMatcher{
-														pos:        position{line: 1224, col: 56, offset: 37861},
+														pos:        position{line: 1224, col: 56, offset: 37893},
 														val:        "[0-9]",
 														ranges:     []rune{'0', '9'},
 														ignoreCase: false,
@@ -45053,7 +45053,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 1222, col: 32, offset: 37796},
+											pos:        position{line: 1222, col: 32, offset: 37828},
 											val:        "�",
 											ignoreCase: false,
 											want:       "\"�\"",
@@ -45062,17 +45062,17 @@ var g = &grammar{
 								},
 							},
 							&actionExpr{
-								pos: position{line: 2367, col: 5, offset: 76593},
+								pos: position{line: 2367, col: 5, offset: 76625},
 								run: (*parser).callonSectionTitleInlineElement136,
 								expr: &seqExpr{
-									pos: position{line: 2367, col: 5, offset: 76593},
+									pos: position{line: 2367, col: 5, offset: 76625},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2367, col: 5, offset: 76593},
+											pos: position{line: 2367, col: 5, offset: 76625},
 											run: (*parser).callonSectionTitleInlineElement138,
 										},
 										&labeledExpr{
-											pos:   position{line: 2370, col: 5, offset: 76648},
+											pos:   position{line: 2370, col: 5, offset: 76680},
 											label: "id",
 											expr: &actionExpr{
 												pos: position{line: 411, col: 5, offset: 12580},
@@ -45115,27 +45115,27 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1224, col: 23, offset: 37828},
+																					pos: position{line: 1224, col: 23, offset: 37860},
 																					run: (*parser).callonSectionTitleInlineElement151,
 																					expr: &seqExpr{
-																						pos: position{line: 1224, col: 23, offset: 37828},
+																						pos: position{line: 1224, col: 23, offset: 37860},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 1222, col: 32, offset: 37796},
+																								pos:        position{line: 1222, col: 32, offset: 37828},
 																								val:        "�",
 																								ignoreCase: false,
 																								want:       "\"�\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1224, col: 51, offset: 37856},
+																								pos:   position{line: 1224, col: 51, offset: 37888},
 																								label: "ref",
 																								expr: &actionExpr{
-																									pos: position{line: 1224, col: 56, offset: 37861},
+																									pos: position{line: 1224, col: 56, offset: 37893},
 																									run: (*parser).callonSectionTitleInlineElement155,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1224, col: 56, offset: 37861},
+																										pos: position{line: 1224, col: 56, offset: 37893},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1224, col: 56, offset: 37861},
+																											pos:        position{line: 1224, col: 56, offset: 37893},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -45145,7 +45145,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 1222, col: 32, offset: 37796},
+																								pos:        position{line: 1222, col: 32, offset: 37828},
 																								val:        "�",
 																								ignoreCase: false,
 																								want:       "\"�\"",
@@ -45154,35 +45154,35 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 646, col: 5, offset: 20455},
+																					pos: position{line: 646, col: 5, offset: 20487},
 																					run: (*parser).callonSectionTitleInlineElement159,
 																					expr: &seqExpr{
-																						pos: position{line: 646, col: 5, offset: 20455},
+																						pos: position{line: 646, col: 5, offset: 20487},
 																						exprs: []interface{}{
 																							&andCodeExpr{
-																								pos: position{line: 646, col: 5, offset: 20455},
+																								pos: position{line: 646, col: 5, offset: 20487},
 																								run: (*parser).callonSectionTitleInlineElement161,
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 649, col: 5, offset: 20527},
+																								pos:   position{line: 649, col: 5, offset: 20559},
 																								label: "element",
 																								expr: &choiceExpr{
-																									pos: position{line: 649, col: 14, offset: 20536},
+																									pos: position{line: 649, col: 14, offset: 20568},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 655, col: 5, offset: 20665},
+																											pos: position{line: 655, col: 5, offset: 20697},
 																											run: (*parser).callonSectionTitleInlineElement164,
 																											expr: &seqExpr{
-																												pos: position{line: 655, col: 5, offset: 20665},
+																												pos: position{line: 655, col: 5, offset: 20697},
 																												exprs: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 655, col: 5, offset: 20665},
+																														pos:        position{line: 655, col: 5, offset: 20697},
 																														val:        "\\{",
 																														ignoreCase: false,
 																														want:       "\"\\\\{\"",
 																													},
 																													&labeledExpr{
-																														pos:   position{line: 655, col: 13, offset: 20673},
+																														pos:   position{line: 655, col: 13, offset: 20705},
 																														label: "name",
 																														expr: &actionExpr{
 																															pos: position{line: 318, col: 18, offset: 9736},
@@ -45214,7 +45214,7 @@ var g = &grammar{
 																														},
 																													},
 																													&litMatcher{
-																														pos:        position{line: 655, col: 32, offset: 20692},
+																														pos:        position{line: 655, col: 32, offset: 20724},
 																														val:        "}",
 																														ignoreCase: false,
 																														want:       "\"}\"",
@@ -45223,19 +45223,19 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 662, col: 5, offset: 20933},
+																											pos: position{line: 662, col: 5, offset: 20965},
 																											run: (*parser).callonSectionTitleInlineElement174,
 																											expr: &seqExpr{
-																												pos: position{line: 662, col: 5, offset: 20933},
+																												pos: position{line: 662, col: 5, offset: 20965},
 																												exprs: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 662, col: 5, offset: 20933},
+																														pos:        position{line: 662, col: 5, offset: 20965},
 																														val:        "{",
 																														ignoreCase: false,
 																														want:       "\"{\"",
 																													},
 																													&labeledExpr{
-																														pos:   position{line: 662, col: 9, offset: 20937},
+																														pos:   position{line: 662, col: 9, offset: 20969},
 																														label: "name",
 																														expr: &actionExpr{
 																															pos: position{line: 318, col: 18, offset: 9736},
@@ -45267,7 +45267,7 @@ var g = &grammar{
 																														},
 																													},
 																													&litMatcher{
-																														pos:        position{line: 662, col: 28, offset: 20956},
+																														pos:        position{line: 662, col: 28, offset: 20988},
 																														val:        "}",
 																														ignoreCase: false,
 																														want:       "\"}\"",
@@ -45276,19 +45276,19 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 668, col: 25, offset: 21137},
+																											pos: position{line: 668, col: 25, offset: 21169},
 																											run: (*parser).callonSectionTitleInlineElement184,
 																											expr: &seqExpr{
-																												pos: position{line: 668, col: 25, offset: 21137},
+																												pos: position{line: 668, col: 25, offset: 21169},
 																												exprs: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 668, col: 25, offset: 21137},
+																														pos:        position{line: 668, col: 25, offset: 21169},
 																														val:        "{counter:",
 																														ignoreCase: false,
 																														want:       "\"{counter:\"",
 																													},
 																													&labeledExpr{
-																														pos:   position{line: 668, col: 37, offset: 21149},
+																														pos:   position{line: 668, col: 37, offset: 21181},
 																														label: "name",
 																														expr: &actionExpr{
 																															pos: position{line: 318, col: 18, offset: 9736},
@@ -45320,33 +45320,33 @@ var g = &grammar{
 																														},
 																													},
 																													&labeledExpr{
-																														pos:   position{line: 668, col: 56, offset: 21168},
+																														pos:   position{line: 668, col: 56, offset: 21200},
 																														label: "start",
 																														expr: &zeroOrOneExpr{
-																															pos: position{line: 668, col: 62, offset: 21174},
+																															pos: position{line: 668, col: 62, offset: 21206},
 																															expr: &actionExpr{
-																																pos: position{line: 676, col: 17, offset: 21469},
+																																pos: position{line: 676, col: 17, offset: 21501},
 																																run: (*parser).callonSectionTitleInlineElement195,
 																																expr: &seqExpr{
-																																	pos: position{line: 676, col: 17, offset: 21469},
+																																	pos: position{line: 676, col: 17, offset: 21501},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 676, col: 17, offset: 21469},
+																																			pos:        position{line: 676, col: 17, offset: 21501},
 																																			val:        ":",
 																																			ignoreCase: false,
 																																			want:       "\":\"",
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 676, col: 21, offset: 21473},
+																																			pos:   position{line: 676, col: 21, offset: 21505},
 																																			label: "start",
 																																			expr: &choiceExpr{
-																																				pos: position{line: 676, col: 28, offset: 21480},
+																																				pos: position{line: 676, col: 28, offset: 21512},
 																																				alternatives: []interface{}{
 																																					&actionExpr{
-																																						pos: position{line: 676, col: 28, offset: 21480},
+																																						pos: position{line: 676, col: 28, offset: 21512},
 																																						run: (*parser).callonSectionTitleInlineElement200,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 676, col: 28, offset: 21480},
+																																							pos:        position{line: 676, col: 28, offset: 21512},
 																																							val:        "[A-Za-z]",
 																																							ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																							ignoreCase: false,
@@ -45354,12 +45354,12 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&actionExpr{
-																																						pos: position{line: 678, col: 9, offset: 21534},
+																																						pos: position{line: 678, col: 9, offset: 21566},
 																																						run: (*parser).callonSectionTitleInlineElement202,
 																																						expr: &oneOrMoreExpr{
-																																							pos: position{line: 678, col: 9, offset: 21534},
+																																							pos: position{line: 678, col: 9, offset: 21566},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 678, col: 9, offset: 21534},
+																																								pos:        position{line: 678, col: 9, offset: 21566},
 																																								val:        "[0-9]",
 																																								ranges:     []rune{'0', '9'},
 																																								ignoreCase: false,
@@ -45376,7 +45376,7 @@ var g = &grammar{
 																														},
 																													},
 																													&litMatcher{
-																														pos:        position{line: 668, col: 78, offset: 21190},
+																														pos:        position{line: 668, col: 78, offset: 21222},
 																														val:        "}",
 																														ignoreCase: false,
 																														want:       "\"}\"",
@@ -45385,19 +45385,19 @@ var g = &grammar{
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 672, col: 25, offset: 21308},
+																											pos: position{line: 672, col: 25, offset: 21340},
 																											run: (*parser).callonSectionTitleInlineElement206,
 																											expr: &seqExpr{
-																												pos: position{line: 672, col: 25, offset: 21308},
+																												pos: position{line: 672, col: 25, offset: 21340},
 																												exprs: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 672, col: 25, offset: 21308},
+																														pos:        position{line: 672, col: 25, offset: 21340},
 																														val:        "{counter2:",
 																														ignoreCase: false,
 																														want:       "\"{counter2:\"",
 																													},
 																													&labeledExpr{
-																														pos:   position{line: 672, col: 38, offset: 21321},
+																														pos:   position{line: 672, col: 38, offset: 21353},
 																														label: "name",
 																														expr: &actionExpr{
 																															pos: position{line: 318, col: 18, offset: 9736},
@@ -45429,33 +45429,33 @@ var g = &grammar{
 																														},
 																													},
 																													&labeledExpr{
-																														pos:   position{line: 672, col: 57, offset: 21340},
+																														pos:   position{line: 672, col: 57, offset: 21372},
 																														label: "start",
 																														expr: &zeroOrOneExpr{
-																															pos: position{line: 672, col: 63, offset: 21346},
+																															pos: position{line: 672, col: 63, offset: 21378},
 																															expr: &actionExpr{
-																																pos: position{line: 676, col: 17, offset: 21469},
+																																pos: position{line: 676, col: 17, offset: 21501},
 																																run: (*parser).callonSectionTitleInlineElement217,
 																																expr: &seqExpr{
-																																	pos: position{line: 676, col: 17, offset: 21469},
+																																	pos: position{line: 676, col: 17, offset: 21501},
 																																	exprs: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 676, col: 17, offset: 21469},
+																																			pos:        position{line: 676, col: 17, offset: 21501},
 																																			val:        ":",
 																																			ignoreCase: false,
 																																			want:       "\":\"",
 																																		},
 																																		&labeledExpr{
-																																			pos:   position{line: 676, col: 21, offset: 21473},
+																																			pos:   position{line: 676, col: 21, offset: 21505},
 																																			label: "start",
 																																			expr: &choiceExpr{
-																																				pos: position{line: 676, col: 28, offset: 21480},
+																																				pos: position{line: 676, col: 28, offset: 21512},
 																																				alternatives: []interface{}{
 																																					&actionExpr{
-																																						pos: position{line: 676, col: 28, offset: 21480},
+																																						pos: position{line: 676, col: 28, offset: 21512},
 																																						run: (*parser).callonSectionTitleInlineElement222,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 676, col: 28, offset: 21480},
+																																							pos:        position{line: 676, col: 28, offset: 21512},
 																																							val:        "[A-Za-z]",
 																																							ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																							ignoreCase: false,
@@ -45463,12 +45463,12 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&actionExpr{
-																																						pos: position{line: 678, col: 9, offset: 21534},
+																																						pos: position{line: 678, col: 9, offset: 21566},
 																																						run: (*parser).callonSectionTitleInlineElement224,
 																																						expr: &oneOrMoreExpr{
-																																							pos: position{line: 678, col: 9, offset: 21534},
+																																							pos: position{line: 678, col: 9, offset: 21566},
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 678, col: 9, offset: 21534},
+																																								pos:        position{line: 678, col: 9, offset: 21566},
 																																								val:        "[0-9]",
 																																								ranges:     []rune{'0', '9'},
 																																								ignoreCase: false,
@@ -45485,7 +45485,7 @@ var g = &grammar{
 																														},
 																													},
 																													&litMatcher{
-																														pos:        position{line: 672, col: 79, offset: 21362},
+																														pos:        position{line: 672, col: 79, offset: 21394},
 																														val:        "}",
 																														ignoreCase: false,
 																														want:       "\"}\"",
@@ -45526,12 +45526,12 @@ var g = &grammar{
 											},
 										},
 										&zeroOrMoreExpr{
-											pos: position{line: 2370, col: 26, offset: 76669},
+											pos: position{line: 2370, col: 26, offset: 76701},
 											expr: &actionExpr{
-												pos: position{line: 2896, col: 10, offset: 91577},
+												pos: position{line: 2905, col: 10, offset: 91835},
 												run: (*parser).callonSectionTitleInlineElement232,
 												expr: &charClassMatcher{
-													pos:        position{line: 2896, col: 10, offset: 91577},
+													pos:        position{line: 2905, col: 10, offset: 91835},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -45540,30 +45540,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2370, col: 33, offset: 76676},
+											pos: position{line: 2370, col: 33, offset: 76708},
 											expr: &choiceExpr{
-												pos: position{line: 2918, col: 8, offset: 91975},
+												pos: position{line: 2927, col: 8, offset: 92233},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2905, col: 12, offset: 91748},
+														pos: position{line: 2914, col: 12, offset: 92006},
 														run: (*parser).callonSectionTitleInlineElement236,
 														expr: &choiceExpr{
-															pos: position{line: 2905, col: 13, offset: 91749},
+															pos: position{line: 2914, col: 13, offset: 92007},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2905, col: 13, offset: 91749},
+																	pos:        position{line: 2914, col: 13, offset: 92007},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2905, col: 20, offset: 91756},
+																	pos:        position{line: 2914, col: 20, offset: 92014},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2905, col: 29, offset: 91765},
+																	pos:        position{line: 2914, col: 29, offset: 92023},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -45572,9 +45572,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2915, col: 8, offset: 91925},
+														pos: position{line: 2924, col: 8, offset: 92183},
 														expr: &anyMatcher{
-															line: 2915, col: 9, offset: 91926,
+															line: 2924, col: 9, offset: 92184,
 														},
 													},
 												},
@@ -45584,27 +45584,27 @@ var g = &grammar{
 								},
 							},
 							&actionExpr{
-								pos: position{line: 1279, col: 5, offset: 39588},
+								pos: position{line: 1279, col: 5, offset: 39620},
 								run: (*parser).callonSectionTitleInlineElement243,
 								expr: &seqExpr{
-									pos: position{line: 1279, col: 5, offset: 39588},
+									pos: position{line: 1279, col: 5, offset: 39620},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 1279, col: 5, offset: 39588},
+											pos:        position{line: 1279, col: 5, offset: 39620},
 											val:        "\\[[",
 											ignoreCase: false,
 											want:       "\"\\\\[[\"",
 										},
 										&labeledExpr{
-											pos:   position{line: 1279, col: 14, offset: 39597},
+											pos:   position{line: 1279, col: 14, offset: 39629},
 											label: "id",
 											expr: &actionExpr{
-												pos: position{line: 2881, col: 7, offset: 91229},
+												pos: position{line: 2890, col: 7, offset: 91487},
 												run: (*parser).callonSectionTitleInlineElement247,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2881, col: 7, offset: 91229},
+													pos: position{line: 2890, col: 7, offset: 91487},
 													expr: &charClassMatcher{
-														pos:        position{line: 2881, col: 7, offset: 91229},
+														pos:        position{line: 2890, col: 7, offset: 91487},
 														val:        "[^[]<>,]",
 														chars:      []rune{'[', ']', '<', '>', ','},
 														ignoreCase: false,
@@ -45614,7 +45614,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 1279, col: 22, offset: 39605},
+											pos:        position{line: 1279, col: 22, offset: 39637},
 											val:        "]]",
 											ignoreCase: false,
 											want:       "\"]]\"",
@@ -45623,27 +45623,27 @@ var g = &grammar{
 								},
 							},
 							&actionExpr{
-								pos: position{line: 1284, col: 5, offset: 39724},
+								pos: position{line: 1284, col: 5, offset: 39756},
 								run: (*parser).callonSectionTitleInlineElement251,
 								expr: &seqExpr{
-									pos: position{line: 1284, col: 5, offset: 39724},
+									pos: position{line: 1284, col: 5, offset: 39756},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 1284, col: 5, offset: 39724},
+											pos:        position{line: 1284, col: 5, offset: 39756},
 											val:        "[[",
 											ignoreCase: false,
 											want:       "\"[[\"",
 										},
 										&labeledExpr{
-											pos:   position{line: 1284, col: 10, offset: 39729},
+											pos:   position{line: 1284, col: 10, offset: 39761},
 											label: "id",
 											expr: &actionExpr{
-												pos: position{line: 2881, col: 7, offset: 91229},
+												pos: position{line: 2890, col: 7, offset: 91487},
 												run: (*parser).callonSectionTitleInlineElement255,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2881, col: 7, offset: 91229},
+													pos: position{line: 2890, col: 7, offset: 91487},
 													expr: &charClassMatcher{
-														pos:        position{line: 2881, col: 7, offset: 91229},
+														pos:        position{line: 2890, col: 7, offset: 91487},
 														val:        "[^[]<>,]",
 														chars:      []rune{'[', ']', '<', '>', ','},
 														ignoreCase: false,
@@ -45653,7 +45653,7 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 1284, col: 18, offset: 39737},
+											pos:        position{line: 1284, col: 18, offset: 39769},
 											val:        "]]",
 											ignoreCase: false,
 											want:       "\"]]\"",
@@ -45662,7 +45662,7 @@ var g = &grammar{
 								},
 							},
 							&ruleRefExpr{
-								pos:  position{line: 2361, col: 11, offset: 76434},
+								pos:  position{line: 2361, col: 11, offset: 76466},
 								name: "InlineFootnote",
 							},
 						},
@@ -45672,52 +45672,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2380, col: 1, offset: 76938},
+			pos:  position{line: 2380, col: 1, offset: 76970},
 			expr: &actionExpr{
-				pos: position{line: 2381, col: 5, offset: 77025},
+				pos: position{line: 2381, col: 5, offset: 77057},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2381, col: 5, offset: 77025},
+					pos: position{line: 2381, col: 5, offset: 77057},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2381, col: 5, offset: 77025},
+							pos:   position{line: 2381, col: 5, offset: 77057},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2381, col: 14, offset: 77034},
+								pos: position{line: 2381, col: 14, offset: 77066},
 								expr: &actionExpr{
-									pos: position{line: 2383, col: 9, offset: 77060},
+									pos: position{line: 2383, col: 9, offset: 77092},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2383, col: 9, offset: 77060},
+										pos: position{line: 2383, col: 9, offset: 77092},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2913, col: 11, offset: 91911},
+												pos: position{line: 2922, col: 11, offset: 92169},
 												expr: &anyMatcher{
-													line: 2913, col: 13, offset: 91913,
+													line: 2922, col: 13, offset: 92171,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2384, col: 9, offset: 77075},
+												pos:   position{line: 2384, col: 9, offset: 77107},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2385, col: 13, offset: 77097},
+													pos: position{line: 2385, col: 13, offset: 77129},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2795, col: 5, offset: 88819},
+															pos: position{line: 2804, col: 5, offset: 89077},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2795, col: 5, offset: 88819},
+																pos: position{line: 2804, col: 5, offset: 89077},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2795, col: 5, offset: 88819},
+																		pos:   position{line: 2804, col: 5, offset: 89077},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2795, col: 11, offset: 88825},
+																			pos: position{line: 2804, col: 11, offset: 89083},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2795, col: 11, offset: 88825},
+																				pos: position{line: 2804, col: 11, offset: 89083},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2795, col: 11, offset: 88825},
+																					pos:        position{line: 2804, col: 11, offset: 89083},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45727,36 +45727,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2798, col: 5, offset: 88883},
+																		pos: position{line: 2807, col: 5, offset: 89141},
 																		expr: &seqExpr{
-																			pos: position{line: 2799, col: 9, offset: 88894},
+																			pos: position{line: 2808, col: 9, offset: 89152},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2799, col: 9, offset: 88894},
+																					pos:        position{line: 2808, col: 9, offset: 89152},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2800, col: 9, offset: 88943},
+																					pos: position{line: 2809, col: 9, offset: 89201},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2804, col: 5, offset: 89023},
+																		pos: position{line: 2813, col: 5, offset: 89281},
 																		expr: &seqExpr{
-																			pos: position{line: 2805, col: 9, offset: 89034},
+																			pos: position{line: 2814, col: 9, offset: 89292},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2805, col: 9, offset: 89034},
+																					pos:        position{line: 2814, col: 9, offset: 89292},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2805, col: 13, offset: 89038},
+																					pos:        position{line: 2814, col: 13, offset: 89296},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45769,12 +45769,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2900, col: 11, offset: 91638},
+															pos: position{line: 2909, col: 11, offset: 91896},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2900, col: 11, offset: 91638},
+																pos: position{line: 2909, col: 11, offset: 91896},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2900, col: 11, offset: 91638},
+																	pos:        position{line: 2909, col: 11, offset: 91896},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45783,29 +45783,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2387, col: 15, offset: 77143},
+															pos:  position{line: 2387, col: 15, offset: 77175},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2515, col: 5, offset: 81054},
+															pos: position{line: 2515, col: 5, offset: 81086},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2515, col: 5, offset: 81054},
+																pos: position{line: 2515, col: 5, offset: 81086},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2515, col: 5, offset: 81054},
+																		pos: position{line: 2515, col: 5, offset: 81086},
 																		run: (*parser).callonNormalGroup31,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2518, col: 5, offset: 81125},
+																		pos:        position{line: 2518, col: 5, offset: 81157},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2518, col: 10, offset: 81130},
+																		pos: position{line: 2518, col: 10, offset: 81162},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2518, col: 11, offset: 81131},
+																			pos:        position{line: 2518, col: 11, offset: 81163},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45816,29 +45816,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2524, col: 5, offset: 81323},
+															pos: position{line: 2524, col: 5, offset: 81355},
 															run: (*parser).callonNormalGroup35,
 															expr: &seqExpr{
-																pos: position{line: 2524, col: 5, offset: 81323},
+																pos: position{line: 2524, col: 5, offset: 81355},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2524, col: 5, offset: 81323},
+																		pos: position{line: 2524, col: 5, offset: 81355},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2527, col: 5, offset: 81394},
+																		pos: position{line: 2527, col: 5, offset: 81426},
 																		run: (*parser).callonNormalGroup38,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2531, col: 5, offset: 81519},
+																		pos:        position{line: 2531, col: 5, offset: 81551},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2531, col: 9, offset: 81523},
+																		pos: position{line: 2531, col: 9, offset: 81555},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2531, col: 10, offset: 81524},
+																			pos:        position{line: 2531, col: 10, offset: 81556},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45849,27 +45849,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2813, col: 5, offset: 89231},
+															pos: position{line: 2822, col: 5, offset: 89489},
 															run: (*parser).callonNormalGroup42,
 															expr: &choiceExpr{
-																pos: position{line: 2814, col: 9, offset: 89241},
+																pos: position{line: 2823, col: 9, offset: 89499},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2814, col: 10, offset: 89242},
+																		pos:        position{line: 2823, col: 10, offset: 89500},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2816, col: 13, offset: 89339},
+																		pos: position{line: 2825, col: 13, offset: 89597},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2816, col: 13, offset: 89339},
+																				pos: position{line: 2825, col: 13, offset: 89597},
 																				run: (*parser).callonNormalGroup46,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2819, col: 13, offset: 89439},
+																				pos:        position{line: 2828, col: 13, offset: 89697},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45877,20 +45877,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2819, col: 19, offset: 89445},
+																		pos:        position{line: 2828, col: 19, offset: 89703},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2822, col: 13, offset: 89483},
+																		pos: position{line: 2831, col: 13, offset: 89741},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2822, col: 13, offset: 89483},
+																				pos: position{line: 2831, col: 13, offset: 89741},
 																				run: (*parser).callonNormalGroup50,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2825, col: 14, offset: 89576},
+																				pos:        position{line: 2834, col: 14, offset: 89834},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45899,18 +45899,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2827, col: 12, offset: 89620},
+																		pos: position{line: 2836, col: 12, offset: 89878},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2827, col: 12, offset: 89620},
+																				pos:        position{line: 2836, col: 12, offset: 89878},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2827, col: 16, offset: 89624},
+																				pos: position{line: 2836, col: 16, offset: 89882},
 																				expr: &litMatcher{
-																					pos:        position{line: 2827, col: 17, offset: 89625},
+																					pos:        position{line: 2836, col: 17, offset: 89883},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45922,25 +45922,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2905, col: 12, offset: 91748},
+															pos: position{line: 2914, col: 12, offset: 92006},
 															run: (*parser).callonNormalGroup56,
 															expr: &choiceExpr{
-																pos: position{line: 2905, col: 13, offset: 91749},
+																pos: position{line: 2914, col: 13, offset: 92007},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 13, offset: 91749},
+																		pos:        position{line: 2914, col: 13, offset: 92007},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 20, offset: 91756},
+																		pos:        position{line: 2914, col: 20, offset: 92014},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2905, col: 29, offset: 91765},
+																		pos:        position{line: 2914, col: 29, offset: 92023},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -45949,35 +45949,35 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 646, col: 5, offset: 20455},
+															pos: position{line: 646, col: 5, offset: 20487},
 															run: (*parser).callonNormalGroup61,
 															expr: &seqExpr{
-																pos: position{line: 646, col: 5, offset: 20455},
+																pos: position{line: 646, col: 5, offset: 20487},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 646, col: 5, offset: 20455},
+																		pos: position{line: 646, col: 5, offset: 20487},
 																		run: (*parser).callonNormalGroup63,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 649, col: 5, offset: 20527},
+																		pos:   position{line: 649, col: 5, offset: 20559},
 																		label: "element",
 																		expr: &choiceExpr{
-																			pos: position{line: 649, col: 14, offset: 20536},
+																			pos: position{line: 649, col: 14, offset: 20568},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 655, col: 5, offset: 20665},
+																					pos: position{line: 655, col: 5, offset: 20697},
 																					run: (*parser).callonNormalGroup66,
 																					expr: &seqExpr{
-																						pos: position{line: 655, col: 5, offset: 20665},
+																						pos: position{line: 655, col: 5, offset: 20697},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 655, col: 5, offset: 20665},
+																								pos:        position{line: 655, col: 5, offset: 20697},
 																								val:        "\\{",
 																								ignoreCase: false,
 																								want:       "\"\\\\{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 655, col: 13, offset: 20673},
+																								pos:   position{line: 655, col: 13, offset: 20705},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -46009,7 +46009,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 655, col: 32, offset: 20692},
+																								pos:        position{line: 655, col: 32, offset: 20724},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -46018,19 +46018,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 662, col: 5, offset: 20933},
+																					pos: position{line: 662, col: 5, offset: 20965},
 																					run: (*parser).callonNormalGroup76,
 																					expr: &seqExpr{
-																						pos: position{line: 662, col: 5, offset: 20933},
+																						pos: position{line: 662, col: 5, offset: 20965},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 662, col: 5, offset: 20933},
+																								pos:        position{line: 662, col: 5, offset: 20965},
 																								val:        "{",
 																								ignoreCase: false,
 																								want:       "\"{\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 662, col: 9, offset: 20937},
+																								pos:   position{line: 662, col: 9, offset: 20969},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -46062,7 +46062,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 662, col: 28, offset: 20956},
+																								pos:        position{line: 662, col: 28, offset: 20988},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -46071,19 +46071,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 668, col: 25, offset: 21137},
+																					pos: position{line: 668, col: 25, offset: 21169},
 																					run: (*parser).callonNormalGroup86,
 																					expr: &seqExpr{
-																						pos: position{line: 668, col: 25, offset: 21137},
+																						pos: position{line: 668, col: 25, offset: 21169},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 668, col: 25, offset: 21137},
+																								pos:        position{line: 668, col: 25, offset: 21169},
 																								val:        "{counter:",
 																								ignoreCase: false,
 																								want:       "\"{counter:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 668, col: 37, offset: 21149},
+																								pos:   position{line: 668, col: 37, offset: 21181},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -46115,33 +46115,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 668, col: 56, offset: 21168},
+																								pos:   position{line: 668, col: 56, offset: 21200},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 668, col: 62, offset: 21174},
+																									pos: position{line: 668, col: 62, offset: 21206},
 																									expr: &actionExpr{
-																										pos: position{line: 676, col: 17, offset: 21469},
+																										pos: position{line: 676, col: 17, offset: 21501},
 																										run: (*parser).callonNormalGroup97,
 																										expr: &seqExpr{
-																											pos: position{line: 676, col: 17, offset: 21469},
+																											pos: position{line: 676, col: 17, offset: 21501},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 676, col: 17, offset: 21469},
+																													pos:        position{line: 676, col: 17, offset: 21501},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 676, col: 21, offset: 21473},
+																													pos:   position{line: 676, col: 21, offset: 21505},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 676, col: 28, offset: 21480},
+																														pos: position{line: 676, col: 28, offset: 21512},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 676, col: 28, offset: 21480},
+																																pos: position{line: 676, col: 28, offset: 21512},
 																																run: (*parser).callonNormalGroup102,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 676, col: 28, offset: 21480},
+																																	pos:        position{line: 676, col: 28, offset: 21512},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -46149,12 +46149,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 678, col: 9, offset: 21534},
+																																pos: position{line: 678, col: 9, offset: 21566},
 																																run: (*parser).callonNormalGroup104,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 678, col: 9, offset: 21534},
+																																	pos: position{line: 678, col: 9, offset: 21566},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 678, col: 9, offset: 21534},
+																																		pos:        position{line: 678, col: 9, offset: 21566},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -46171,7 +46171,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 668, col: 78, offset: 21190},
+																								pos:        position{line: 668, col: 78, offset: 21222},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -46180,19 +46180,19 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 672, col: 25, offset: 21308},
+																					pos: position{line: 672, col: 25, offset: 21340},
 																					run: (*parser).callonNormalGroup108,
 																					expr: &seqExpr{
-																						pos: position{line: 672, col: 25, offset: 21308},
+																						pos: position{line: 672, col: 25, offset: 21340},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 672, col: 25, offset: 21308},
+																								pos:        position{line: 672, col: 25, offset: 21340},
 																								val:        "{counter2:",
 																								ignoreCase: false,
 																								want:       "\"{counter2:\"",
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 672, col: 38, offset: 21321},
+																								pos:   position{line: 672, col: 38, offset: 21353},
 																								label: "name",
 																								expr: &actionExpr{
 																									pos: position{line: 318, col: 18, offset: 9736},
@@ -46224,33 +46224,33 @@ var g = &grammar{
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 672, col: 57, offset: 21340},
+																								pos:   position{line: 672, col: 57, offset: 21372},
 																								label: "start",
 																								expr: &zeroOrOneExpr{
-																									pos: position{line: 672, col: 63, offset: 21346},
+																									pos: position{line: 672, col: 63, offset: 21378},
 																									expr: &actionExpr{
-																										pos: position{line: 676, col: 17, offset: 21469},
+																										pos: position{line: 676, col: 17, offset: 21501},
 																										run: (*parser).callonNormalGroup119,
 																										expr: &seqExpr{
-																											pos: position{line: 676, col: 17, offset: 21469},
+																											pos: position{line: 676, col: 17, offset: 21501},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 676, col: 17, offset: 21469},
+																													pos:        position{line: 676, col: 17, offset: 21501},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
 																												},
 																												&labeledExpr{
-																													pos:   position{line: 676, col: 21, offset: 21473},
+																													pos:   position{line: 676, col: 21, offset: 21505},
 																													label: "start",
 																													expr: &choiceExpr{
-																														pos: position{line: 676, col: 28, offset: 21480},
+																														pos: position{line: 676, col: 28, offset: 21512},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 676, col: 28, offset: 21480},
+																																pos: position{line: 676, col: 28, offset: 21512},
 																																run: (*parser).callonNormalGroup124,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 676, col: 28, offset: 21480},
+																																	pos:        position{line: 676, col: 28, offset: 21512},
 																																	val:        "[A-Za-z]",
 																																	ranges:     []rune{'A', 'Z', 'a', 'z'},
 																																	ignoreCase: false,
@@ -46258,12 +46258,12 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 678, col: 9, offset: 21534},
+																																pos: position{line: 678, col: 9, offset: 21566},
 																																run: (*parser).callonNormalGroup126,
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 678, col: 9, offset: 21534},
+																																	pos: position{line: 678, col: 9, offset: 21566},
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 678, col: 9, offset: 21534},
+																																		pos:        position{line: 678, col: 9, offset: 21566},
 																																		val:        "[0-9]",
 																																		ranges:     []rune{'0', '9'},
 																																		ignoreCase: false,
@@ -46280,7 +46280,7 @@ var g = &grammar{
 																								},
 																							},
 																							&litMatcher{
-																								pos:        position{line: 672, col: 79, offset: 21362},
+																								pos:        position{line: 672, col: 79, offset: 21394},
 																								val:        "}",
 																								ignoreCase: false,
 																								want:       "\"}\"",
@@ -46295,35 +46295,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2392, col: 15, offset: 77310},
+															pos:  position{line: 2392, col: 15, offset: 77342},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2393, col: 15, offset: 77330},
+															pos:  position{line: 2393, col: 15, offset: 77362},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2394, col: 15, offset: 77419},
+															pos:  position{line: 2394, col: 15, offset: 77451},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2484, col: 5, offset: 79883},
+															pos: position{line: 2484, col: 5, offset: 79915},
 															run: (*parser).callonNormalGroup133,
 															expr: &seqExpr{
-																pos: position{line: 2484, col: 5, offset: 79883},
+																pos: position{line: 2484, col: 5, offset: 79915},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2484, col: 5, offset: 79883},
+																		pos: position{line: 2484, col: 5, offset: 79915},
 																		run: (*parser).callonNormalGroup135,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2487, col: 5, offset: 79959},
+																		pos:   position{line: 2487, col: 5, offset: 79991},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2488, col: 9, offset: 79977},
+																			pos: position{line: 2488, col: 9, offset: 80009},
 																			run: (*parser).callonNormalGroup137,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2488, col: 10, offset: 79978},
+																				pos:        position{line: 2488, col: 10, offset: 80010},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -46335,32 +46335,32 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1232, col: 5, offset: 38274},
+															pos: position{line: 1232, col: 5, offset: 38306},
 															run: (*parser).callonNormalGroup139,
 															expr: &seqExpr{
-																pos: position{line: 1232, col: 5, offset: 38274},
+																pos: position{line: 1232, col: 5, offset: 38306},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1232, col: 5, offset: 38274},
+																		pos: position{line: 1232, col: 5, offset: 38306},
 																		run: (*parser).callonNormalGroup141,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1235, col: 5, offset: 38350},
+																		pos:        position{line: 1235, col: 5, offset: 38382},
 																		val:        "+",
 																		ignoreCase: false,
 																		want:       "\"+\"",
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1236, col: 5, offset: 38358},
+																		pos: position{line: 1236, col: 5, offset: 38390},
 																		run: (*parser).callonNormalGroup143,
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1240, col: 5, offset: 38445},
+																		pos: position{line: 1240, col: 5, offset: 38477},
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 10, offset: 91577},
+																			pos: position{line: 2905, col: 10, offset: 91835},
 																			run: (*parser).callonNormalGroup145,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 10, offset: 91577},
+																				pos:        position{line: 2905, col: 10, offset: 91835},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46369,30 +46369,30 @@ var g = &grammar{
 																		},
 																	},
 																	&andExpr{
-																		pos: position{line: 1240, col: 12, offset: 38452},
+																		pos: position{line: 1240, col: 12, offset: 38484},
 																		expr: &choiceExpr{
-																			pos: position{line: 2918, col: 8, offset: 91975},
+																			pos: position{line: 2927, col: 8, offset: 92233},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2905, col: 12, offset: 91748},
+																					pos: position{line: 2914, col: 12, offset: 92006},
 																					run: (*parser).callonNormalGroup149,
 																					expr: &choiceExpr{
-																						pos: position{line: 2905, col: 13, offset: 91749},
+																						pos: position{line: 2914, col: 13, offset: 92007},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 13, offset: 91749},
+																								pos:        position{line: 2914, col: 13, offset: 92007},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 20, offset: 91756},
+																								pos:        position{line: 2914, col: 20, offset: 92014},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 29, offset: 91765},
+																								pos:        position{line: 2914, col: 29, offset: 92023},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46401,9 +46401,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2915, col: 8, offset: 91925},
+																					pos: position{line: 2924, col: 8, offset: 92183},
 																					expr: &anyMatcher{
-																						line: 2915, col: 9, offset: 91926,
+																						line: 2924, col: 9, offset: 92184,
 																					},
 																				},
 																			},
@@ -46413,31 +46413,31 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2397, col: 15, offset: 77601},
+															pos:  position{line: 2397, col: 15, offset: 77633},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
-															pos: position{line: 1224, col: 23, offset: 37828},
+															pos: position{line: 1224, col: 23, offset: 37860},
 															run: (*parser).callonNormalGroup157,
 															expr: &seqExpr{
-																pos: position{line: 1224, col: 23, offset: 37828},
+																pos: position{line: 1224, col: 23, offset: 37860},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 1222, col: 32, offset: 37796},
+																		pos:        position{line: 1222, col: 32, offset: 37828},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1224, col: 51, offset: 37856},
+																		pos:   position{line: 1224, col: 51, offset: 37888},
 																		label: "ref",
 																		expr: &actionExpr{
-																			pos: position{line: 1224, col: 56, offset: 37861},
+																			pos: position{line: 1224, col: 56, offset: 37893},
 																			run: (*parser).callonNormalGroup161,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1224, col: 56, offset: 37861},
+																				pos: position{line: 1224, col: 56, offset: 37893},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1224, col: 56, offset: 37861},
+																					pos:        position{line: 1224, col: 56, offset: 37893},
 																					val:        "[0-9]",
 																					ranges:     []rune{'0', '9'},
 																					ignoreCase: false,
@@ -46447,7 +46447,7 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1222, col: 32, offset: 37796},
+																		pos:        position{line: 1222, col: 32, offset: 37828},
 																		val:        "�",
 																		ignoreCase: false,
 																		want:       "\"�\"",
@@ -46456,10 +46456,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2835, col: 12, offset: 89885},
+															pos: position{line: 2844, col: 12, offset: 90143},
 															run: (*parser).callonNormalGroup165,
 															expr: &charClassMatcher{
-																pos:        position{line: 2835, col: 12, offset: 89885},
+																pos:        position{line: 2844, col: 12, offset: 90143},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -46475,9 +46475,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2915, col: 8, offset: 91925},
+							pos: position{line: 2924, col: 8, offset: 92183},
 							expr: &anyMatcher{
-								line: 2915, col: 9, offset: 91926,
+								line: 2924, col: 9, offset: 92184,
 							},
 						},
 					},
@@ -46486,28 +46486,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2408, col: 1, offset: 78039},
+			pos:  position{line: 2408, col: 1, offset: 78071},
 			expr: &actionExpr{
-				pos: position{line: 2409, col: 5, offset: 78072},
+				pos: position{line: 2409, col: 5, offset: 78104},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2409, col: 5, offset: 78072},
+					pos: position{line: 2409, col: 5, offset: 78104},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2409, col: 5, offset: 78072},
+							pos:   position{line: 2409, col: 5, offset: 78104},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2409, col: 14, offset: 78081},
+								pos: position{line: 2409, col: 14, offset: 78113},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2409, col: 15, offset: 78082},
+									pos:  position{line: 2409, col: 15, offset: 78114},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2915, col: 8, offset: 91925},
+							pos: position{line: 2924, col: 8, offset: 92183},
 							expr: &anyMatcher{
-								line: 2915, col: 9, offset: 91926,
+								line: 2924, col: 9, offset: 92184,
 							},
 						},
 					},
@@ -46516,41 +46516,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2413, col: 1, offset: 78179},
+			pos:  position{line: 2413, col: 1, offset: 78211},
 			expr: &actionExpr{
-				pos: position{line: 2414, col: 5, offset: 78219},
+				pos: position{line: 2414, col: 5, offset: 78251},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2414, col: 5, offset: 78219},
+					pos: position{line: 2414, col: 5, offset: 78251},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2913, col: 11, offset: 91911},
+							pos: position{line: 2922, col: 11, offset: 92169},
 							expr: &anyMatcher{
-								line: 2913, col: 13, offset: 91913,
+								line: 2922, col: 13, offset: 92171,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2415, col: 5, offset: 78230},
+							pos:   position{line: 2415, col: 5, offset: 78262},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2416, col: 9, offset: 78248},
+								pos: position{line: 2416, col: 9, offset: 78280},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2795, col: 5, offset: 88819},
+										pos: position{line: 2804, col: 5, offset: 89077},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2795, col: 5, offset: 88819},
+											pos: position{line: 2804, col: 5, offset: 89077},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2795, col: 5, offset: 88819},
+													pos:   position{line: 2804, col: 5, offset: 89077},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2795, col: 11, offset: 88825},
+														pos: position{line: 2804, col: 11, offset: 89083},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2795, col: 11, offset: 88825},
+															pos: position{line: 2804, col: 11, offset: 89083},
 															expr: &charClassMatcher{
-																pos:        position{line: 2795, col: 11, offset: 88825},
+																pos:        position{line: 2804, col: 11, offset: 89083},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46560,36 +46560,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2798, col: 5, offset: 88883},
+													pos: position{line: 2807, col: 5, offset: 89141},
 													expr: &seqExpr{
-														pos: position{line: 2799, col: 9, offset: 88894},
+														pos: position{line: 2808, col: 9, offset: 89152},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2799, col: 9, offset: 88894},
+																pos:        position{line: 2808, col: 9, offset: 89152},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2800, col: 9, offset: 88943},
+																pos: position{line: 2809, col: 9, offset: 89201},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2804, col: 5, offset: 89023},
+													pos: position{line: 2813, col: 5, offset: 89281},
 													expr: &seqExpr{
-														pos: position{line: 2805, col: 9, offset: 89034},
+														pos: position{line: 2814, col: 9, offset: 89292},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2805, col: 9, offset: 89034},
+																pos:        position{line: 2814, col: 9, offset: 89292},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2805, col: 13, offset: 89038},
+																pos:        position{line: 2814, col: 13, offset: 89296},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46602,10 +46602,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2896, col: 10, offset: 91577},
+										pos: position{line: 2905, col: 10, offset: 91835},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2896, col: 10, offset: 91577},
+											pos:        position{line: 2905, col: 10, offset: 91835},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -46613,31 +46613,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2418, col: 11, offset: 78286},
+										pos:  position{line: 2418, col: 11, offset: 78318},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2813, col: 5, offset: 89231},
+										pos: position{line: 2822, col: 5, offset: 89489},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2814, col: 9, offset: 89241},
+											pos: position{line: 2823, col: 9, offset: 89499},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2814, col: 10, offset: 89242},
+													pos:        position{line: 2823, col: 10, offset: 89500},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2816, col: 13, offset: 89339},
+													pos: position{line: 2825, col: 13, offset: 89597},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2816, col: 13, offset: 89339},
+															pos: position{line: 2825, col: 13, offset: 89597},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2819, col: 13, offset: 89439},
+															pos:        position{line: 2828, col: 13, offset: 89697},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46645,20 +46645,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2819, col: 19, offset: 89445},
+													pos:        position{line: 2828, col: 19, offset: 89703},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2822, col: 13, offset: 89483},
+													pos: position{line: 2831, col: 13, offset: 89741},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2822, col: 13, offset: 89483},
+															pos: position{line: 2831, col: 13, offset: 89741},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2825, col: 14, offset: 89576},
+															pos:        position{line: 2834, col: 14, offset: 89834},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46667,18 +46667,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2827, col: 12, offset: 89620},
+													pos: position{line: 2836, col: 12, offset: 89878},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2827, col: 12, offset: 89620},
+															pos:        position{line: 2836, col: 12, offset: 89878},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2827, col: 16, offset: 89624},
+															pos: position{line: 2836, col: 16, offset: 89882},
 															expr: &litMatcher{
-																pos:        position{line: 2827, col: 17, offset: 89625},
+																pos:        position{line: 2836, col: 17, offset: 89883},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46690,31 +46690,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2420, col: 11, offset: 78359},
+										pos:  position{line: 2420, col: 11, offset: 78391},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2421, col: 11, offset: 78375},
+										pos:  position{line: 2421, col: 11, offset: 78407},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2484, col: 5, offset: 79883},
+										pos: position{line: 2484, col: 5, offset: 79915},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2484, col: 5, offset: 79883},
+											pos: position{line: 2484, col: 5, offset: 79915},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2484, col: 5, offset: 79883},
+													pos: position{line: 2484, col: 5, offset: 79915},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2487, col: 5, offset: 79959},
+													pos:   position{line: 2487, col: 5, offset: 79991},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2488, col: 9, offset: 79977},
+														pos: position{line: 2488, col: 9, offset: 80009},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2488, col: 10, offset: 79978},
+															pos:        position{line: 2488, col: 10, offset: 80010},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46726,27 +46726,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1224, col: 23, offset: 37828},
+										pos: position{line: 1224, col: 23, offset: 37860},
 										run: (*parser).callonAttributeStructuredValueElement46,
 										expr: &seqExpr{
-											pos: position{line: 1224, col: 23, offset: 37828},
+											pos: position{line: 1224, col: 23, offset: 37860},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1222, col: 32, offset: 37796},
+													pos:        position{line: 1222, col: 32, offset: 37828},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1224, col: 51, offset: 37856},
+													pos:   position{line: 1224, col: 51, offset: 37888},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1224, col: 56, offset: 37861},
+														pos: position{line: 1224, col: 56, offset: 37893},
 														run: (*parser).callonAttributeStructuredValueElement50,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1224, col: 56, offset: 37861},
+															pos: position{line: 1224, col: 56, offset: 37893},
 															expr: &charClassMatcher{
-																pos:        position{line: 1224, col: 56, offset: 37861},
+																pos:        position{line: 1224, col: 56, offset: 37893},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -46756,7 +46756,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1222, col: 32, offset: 37796},
+													pos:        position{line: 1222, col: 32, offset: 37828},
 													val:        "�",
 													ignoreCase: false,
 													want:       "\"�\"",
@@ -46765,25 +46765,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2905, col: 12, offset: 91748},
+										pos: position{line: 2914, col: 12, offset: 92006},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2905, col: 13, offset: 91749},
+											pos: position{line: 2914, col: 13, offset: 92007},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2905, col: 13, offset: 91749},
+													pos:        position{line: 2914, col: 13, offset: 92007},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2905, col: 20, offset: 91756},
+													pos:        position{line: 2914, col: 20, offset: 92014},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2905, col: 29, offset: 91765},
+													pos:        position{line: 2914, col: 29, offset: 92023},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46792,10 +46792,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2835, col: 12, offset: 89885},
+										pos: position{line: 2844, col: 12, offset: 90143},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2835, col: 12, offset: 89885},
+											pos:        position{line: 2844, col: 12, offset: 90143},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46811,73 +46811,73 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2432, col: 1, offset: 78645},
+			pos:  position{line: 2432, col: 1, offset: 78677},
 			expr: &actionExpr{
-				pos: position{line: 2434, col: 5, offset: 78727},
+				pos: position{line: 2434, col: 5, offset: 78759},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2434, col: 5, offset: 78727},
+					pos: position{line: 2434, col: 5, offset: 78759},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2434, col: 5, offset: 78727},
+							pos: position{line: 2434, col: 5, offset: 78759},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2437, col: 5, offset: 78792},
+							pos:   position{line: 2437, col: 5, offset: 78824},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2438, col: 9, offset: 78810},
+								pos: position{line: 2438, col: 9, offset: 78842},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2438, col: 9, offset: 78810},
+										pos:  position{line: 2438, col: 9, offset: 78842},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2439, col: 11, offset: 78831},
+										pos:  position{line: 2439, col: 11, offset: 78863},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2440, col: 11, offset: 78854},
+										pos:  position{line: 2440, col: 11, offset: 78886},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2441, col: 11, offset: 78870},
+										pos:  position{line: 2441, col: 11, offset: 78902},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2442, col: 11, offset: 78899},
+										pos:  position{line: 2442, col: 11, offset: 78931},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2443, col: 11, offset: 78925},
+										pos:  position{line: 2443, col: 11, offset: 78957},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2444, col: 11, offset: 78951},
+										pos:  position{line: 2444, col: 11, offset: 78983},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
-										pos: position{line: 1279, col: 5, offset: 39588},
+										pos: position{line: 1279, col: 5, offset: 39620},
 										run: (*parser).callonInlineMacro13,
 										expr: &seqExpr{
-											pos: position{line: 1279, col: 5, offset: 39588},
+											pos: position{line: 1279, col: 5, offset: 39620},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1279, col: 5, offset: 39588},
+													pos:        position{line: 1279, col: 5, offset: 39620},
 													val:        "\\[[",
 													ignoreCase: false,
 													want:       "\"\\\\[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1279, col: 14, offset: 39597},
+													pos:   position{line: 1279, col: 14, offset: 39629},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 7, offset: 91229},
+														pos: position{line: 2890, col: 7, offset: 91487},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2881, col: 7, offset: 91229},
+															pos: position{line: 2890, col: 7, offset: 91487},
 															expr: &charClassMatcher{
-																pos:        position{line: 2881, col: 7, offset: 91229},
+																pos:        position{line: 2890, col: 7, offset: 91487},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46887,7 +46887,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1279, col: 22, offset: 39605},
+													pos:        position{line: 1279, col: 22, offset: 39637},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46896,27 +46896,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1284, col: 5, offset: 39724},
+										pos: position{line: 1284, col: 5, offset: 39756},
 										run: (*parser).callonInlineMacro21,
 										expr: &seqExpr{
-											pos: position{line: 1284, col: 5, offset: 39724},
+											pos: position{line: 1284, col: 5, offset: 39756},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1284, col: 5, offset: 39724},
+													pos:        position{line: 1284, col: 5, offset: 39756},
 													val:        "[[",
 													ignoreCase: false,
 													want:       "\"[[\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1284, col: 10, offset: 39729},
+													pos:   position{line: 1284, col: 10, offset: 39761},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2881, col: 7, offset: 91229},
+														pos: position{line: 2890, col: 7, offset: 91487},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2881, col: 7, offset: 91229},
+															pos: position{line: 2890, col: 7, offset: 91487},
 															expr: &charClassMatcher{
-																pos:        position{line: 2881, col: 7, offset: 91229},
+																pos:        position{line: 2890, col: 7, offset: 91487},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46926,7 +46926,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1284, col: 18, offset: 39737},
+													pos:        position{line: 1284, col: 18, offset: 39769},
 													val:        "]]",
 													ignoreCase: false,
 													want:       "\"]]\"",
@@ -46935,40 +46935,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1323, col: 23, offset: 41213},
+										pos: position{line: 1323, col: 23, offset: 41245},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1323, col: 23, offset: 41213},
+											pos: position{line: 1323, col: 23, offset: 41245},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1323, col: 23, offset: 41213},
+													pos:        position{line: 1323, col: 23, offset: 41245},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1323, col: 29, offset: 41219},
+													pos:   position{line: 1323, col: 29, offset: 41251},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1330, col: 30, offset: 41550},
+														pos: position{line: 1330, col: 30, offset: 41582},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1330, col: 30, offset: 41550},
+															pos: position{line: 1330, col: 30, offset: 41582},
 															expr: &choiceExpr{
-																pos: position{line: 1330, col: 31, offset: 41551},
+																pos: position{line: 1330, col: 31, offset: 41583},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2786, col: 13, offset: 88672},
+																		pos:        position{line: 2795, col: 13, offset: 88930},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2896, col: 10, offset: 91577},
+																		pos: position{line: 2905, col: 10, offset: 91835},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2896, col: 10, offset: 91577},
+																			pos:        position{line: 2905, col: 10, offset: 91835},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46981,23 +46981,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1324, col: 5, offset: 41258},
+													pos:   position{line: 1324, col: 5, offset: 41290},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1324, col: 11, offset: 41264},
+														pos: position{line: 1324, col: 11, offset: 41296},
 														expr: &actionExpr{
-															pos: position{line: 1324, col: 12, offset: 41265},
+															pos: position{line: 1324, col: 12, offset: 41297},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1324, col: 12, offset: 41265},
+																pos: position{line: 1324, col: 12, offset: 41297},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1324, col: 12, offset: 41265},
+																		pos: position{line: 1324, col: 12, offset: 41297},
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 10, offset: 91577},
+																			pos: position{line: 2905, col: 10, offset: 91835},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 10, offset: 91577},
+																				pos:        position{line: 2905, col: 10, offset: 91835},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47006,18 +47006,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1324, col: 19, offset: 41272},
+																		pos:        position{line: 1324, col: 19, offset: 41304},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1324, col: 23, offset: 41276},
+																		pos: position{line: 1324, col: 23, offset: 41308},
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 10, offset: 91577},
+																			pos: position{line: 2905, col: 10, offset: 91835},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 10, offset: 91577},
+																				pos:        position{line: 2905, col: 10, offset: 91835},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47026,28 +47026,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1324, col: 30, offset: 41283},
+																		pos:   position{line: 1324, col: 30, offset: 41315},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1330, col: 30, offset: 41550},
+																			pos: position{line: 1330, col: 30, offset: 41582},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1330, col: 30, offset: 41550},
+																				pos: position{line: 1330, col: 30, offset: 41582},
 																				expr: &choiceExpr{
-																					pos: position{line: 1330, col: 31, offset: 41551},
+																					pos: position{line: 1330, col: 31, offset: 41583},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2786, col: 13, offset: 88672},
+																							pos:        position{line: 2795, col: 13, offset: 88930},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2896, col: 10, offset: 91577},
+																							pos: position{line: 2905, col: 10, offset: 91835},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2896, col: 10, offset: 91577},
+																								pos:        position{line: 2905, col: 10, offset: 91835},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47065,23 +47065,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1325, col: 5, offset: 41350},
+													pos:   position{line: 1325, col: 5, offset: 41382},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1325, col: 11, offset: 41356},
+														pos: position{line: 1325, col: 11, offset: 41388},
 														expr: &actionExpr{
-															pos: position{line: 1325, col: 12, offset: 41357},
+															pos: position{line: 1325, col: 12, offset: 41389},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1325, col: 12, offset: 41357},
+																pos: position{line: 1325, col: 12, offset: 41389},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1325, col: 12, offset: 41357},
+																		pos: position{line: 1325, col: 12, offset: 41389},
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 10, offset: 91577},
+																			pos: position{line: 2905, col: 10, offset: 91835},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 10, offset: 91577},
+																				pos:        position{line: 2905, col: 10, offset: 91835},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47090,18 +47090,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1325, col: 19, offset: 41364},
+																		pos:        position{line: 1325, col: 19, offset: 41396},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1325, col: 23, offset: 41368},
+																		pos: position{line: 1325, col: 23, offset: 41400},
 																		expr: &actionExpr{
-																			pos: position{line: 2896, col: 10, offset: 91577},
+																			pos: position{line: 2905, col: 10, offset: 91835},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2896, col: 10, offset: 91577},
+																				pos:        position{line: 2905, col: 10, offset: 91835},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47110,28 +47110,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1325, col: 30, offset: 41375},
+																		pos:   position{line: 1325, col: 30, offset: 41407},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1330, col: 30, offset: 41550},
+																			pos: position{line: 1330, col: 30, offset: 41582},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1330, col: 30, offset: 41550},
+																				pos: position{line: 1330, col: 30, offset: 41582},
 																				expr: &choiceExpr{
-																					pos: position{line: 1330, col: 31, offset: 41551},
+																					pos: position{line: 1330, col: 31, offset: 41583},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2786, col: 13, offset: 88672},
+																							pos:        position{line: 2795, col: 13, offset: 88930},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2896, col: 10, offset: 91577},
+																							pos: position{line: 2905, col: 10, offset: 91835},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2896, col: 10, offset: 91577},
+																								pos:        position{line: 2905, col: 10, offset: 91835},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47149,7 +47149,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1326, col: 5, offset: 41442},
+													pos:        position{line: 1326, col: 5, offset: 41474},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -47158,15 +47158,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2447, col: 11, offset: 79030},
+										pos:  position{line: 2447, col: 11, offset: 79062},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2448, col: 11, offset: 79050},
+										pos:  position{line: 2448, col: 11, offset: 79082},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2449, col: 11, offset: 79073},
+										pos:  position{line: 2449, col: 11, offset: 79105},
 										name: "InlineMenu",
 									},
 								},
@@ -47178,80 +47178,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2453, col: 1, offset: 79130},
+			pos:  position{line: 2453, col: 1, offset: 79162},
 			expr: &actionExpr{
-				pos: position{line: 2455, col: 5, offset: 79218},
+				pos: position{line: 2455, col: 5, offset: 79250},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2455, col: 5, offset: 79218},
+					pos: position{line: 2455, col: 5, offset: 79250},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2455, col: 5, offset: 79218},
+							pos: position{line: 2455, col: 5, offset: 79250},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2458, col: 5, offset: 79295},
+							pos:   position{line: 2458, col: 5, offset: 79327},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2459, col: 9, offset: 79313},
+								pos: position{line: 2459, col: 9, offset: 79345},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1405, col: 26, offset: 44820},
+										pos: position{line: 1405, col: 26, offset: 44852},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1405, col: 26, offset: 44820},
+											pos: position{line: 1405, col: 26, offset: 44852},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1403, col: 32, offset: 44788},
+													pos:        position{line: 1403, col: 32, offset: 44820},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1405, col: 54, offset: 44848},
+													pos:   position{line: 1405, col: 54, offset: 44880},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1409, col: 33, offset: 45061},
+														pos: position{line: 1409, col: 33, offset: 45093},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1409, col: 34, offset: 45062},
+																pos: position{line: 1409, col: 34, offset: 45094},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1409, col: 34, offset: 45062},
+																	pos: position{line: 1409, col: 34, offset: 45094},
 																	expr: &seqExpr{
-																		pos: position{line: 1409, col: 35, offset: 45063},
+																		pos: position{line: 1409, col: 35, offset: 45095},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1409, col: 35, offset: 45063},
+																				pos: position{line: 1409, col: 35, offset: 45095},
 																				expr: &litMatcher{
-																					pos:        position{line: 1403, col: 32, offset: 44788},
+																					pos:        position{line: 1403, col: 32, offset: 44820},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1409, col: 64, offset: 45092,
+																				line: 1409, col: 64, offset: 45124,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1411, col: 11, offset: 45265},
+																pos: position{line: 1411, col: 11, offset: 45297},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1411, col: 11, offset: 45265},
+																	pos: position{line: 1411, col: 11, offset: 45297},
 																	expr: &seqExpr{
-																		pos: position{line: 1411, col: 12, offset: 45266},
+																		pos: position{line: 1411, col: 12, offset: 45298},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1411, col: 12, offset: 45266},
+																				pos: position{line: 1411, col: 12, offset: 45298},
 																				expr: &actionExpr{
-																					pos: position{line: 2896, col: 10, offset: 91577},
+																					pos: position{line: 2905, col: 10, offset: 91835},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2896, col: 10, offset: 91577},
+																						pos:        position{line: 2905, col: 10, offset: 91835},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -47260,27 +47260,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1411, col: 19, offset: 45273},
+																				pos: position{line: 1411, col: 19, offset: 45305},
 																				expr: &actionExpr{
-																					pos: position{line: 2905, col: 12, offset: 91748},
+																					pos: position{line: 2914, col: 12, offset: 92006},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2905, col: 13, offset: 91749},
+																						pos: position{line: 2914, col: 13, offset: 92007},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 13, offset: 91749},
+																								pos:        position{line: 2914, col: 13, offset: 92007},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 20, offset: 91756},
+																								pos:        position{line: 2914, col: 20, offset: 92014},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2905, col: 29, offset: 91765},
+																								pos:        position{line: 2914, col: 29, offset: 92023},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -47290,16 +47290,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1411, col: 28, offset: 45282},
+																				pos: position{line: 1411, col: 28, offset: 45314},
 																				expr: &litMatcher{
-																					pos:        position{line: 1403, col: 32, offset: 44788},
+																					pos:        position{line: 1403, col: 32, offset: 44820},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1411, col: 57, offset: 45311,
+																				line: 1411, col: 57, offset: 45343,
 																			},
 																		},
 																	},
@@ -47309,15 +47309,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1403, col: 32, offset: 44788},
+													pos:        position{line: 1403, col: 32, offset: 44820},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1405, col: 121, offset: 44915},
+													pos: position{line: 1405, col: 121, offset: 44947},
 													expr: &charClassMatcher{
-														pos:        position{line: 2786, col: 13, offset: 88672},
+														pos:        position{line: 2795, col: 13, offset: 88930},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47328,45 +47328,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1393, col: 26, offset: 44103},
+										pos: position{line: 1393, col: 26, offset: 44135},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1393, col: 26, offset: 44103},
+											pos: position{line: 1393, col: 26, offset: 44135},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1391, col: 32, offset: 44073},
+													pos:        position{line: 1391, col: 32, offset: 44105},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1393, col: 54, offset: 44131},
+													pos:   position{line: 1393, col: 54, offset: 44163},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1397, col: 33, offset: 44344},
+														pos: position{line: 1397, col: 33, offset: 44376},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1397, col: 34, offset: 44345},
+																pos: position{line: 1397, col: 34, offset: 44377},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1397, col: 34, offset: 44345},
+																	pos: position{line: 1397, col: 34, offset: 44377},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1397, col: 35, offset: 44346},
+																			pos: position{line: 1397, col: 35, offset: 44378},
 																			expr: &litMatcher{
-																				pos:        position{line: 1391, col: 32, offset: 44073},
+																				pos:        position{line: 1391, col: 32, offset: 44105},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1397, col: 64, offset: 44375},
+																			pos: position{line: 1397, col: 64, offset: 44407},
 																			expr: &actionExpr{
-																				pos: position{line: 2896, col: 10, offset: 91577},
+																				pos: position{line: 2905, col: 10, offset: 91835},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2896, col: 10, offset: 91577},
+																					pos:        position{line: 2905, col: 10, offset: 91835},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47375,27 +47375,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1397, col: 71, offset: 44382},
+																			pos: position{line: 1397, col: 71, offset: 44414},
 																			expr: &actionExpr{
-																				pos: position{line: 2905, col: 12, offset: 91748},
+																				pos: position{line: 2914, col: 12, offset: 92006},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 13, offset: 91749},
+																					pos: position{line: 2914, col: 13, offset: 92007},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 13, offset: 91749},
+																							pos:        position{line: 2914, col: 13, offset: 92007},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 20, offset: 91756},
+																							pos:        position{line: 2914, col: 20, offset: 92014},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 29, offset: 91765},
+																							pos:        position{line: 2914, col: 29, offset: 92023},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47405,25 +47405,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1397, col: 80, offset: 44391,
+																			line: 1397, col: 80, offset: 44423,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1397, col: 83, offset: 44394},
+																			pos: position{line: 1397, col: 83, offset: 44426},
 																			expr: &seqExpr{
-																				pos: position{line: 1397, col: 84, offset: 44395},
+																				pos: position{line: 1397, col: 84, offset: 44427},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1397, col: 84, offset: 44395},
+																						pos: position{line: 1397, col: 84, offset: 44427},
 																						expr: &seqExpr{
-																							pos: position{line: 1397, col: 86, offset: 44397},
+																							pos: position{line: 1397, col: 86, offset: 44429},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2900, col: 11, offset: 91638},
+																									pos: position{line: 2909, col: 11, offset: 91896},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2900, col: 11, offset: 91638},
+																										pos: position{line: 2909, col: 11, offset: 91896},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2900, col: 11, offset: 91638},
+																											pos:        position{line: 2909, col: 11, offset: 91896},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -47432,7 +47432,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1391, col: 32, offset: 44073},
+																									pos:        position{line: 1391, col: 32, offset: 44105},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -47441,36 +47441,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1397, col: 122, offset: 44433},
+																						pos: position{line: 1397, col: 122, offset: 44465},
 																						expr: &litMatcher{
-																							pos:        position{line: 1391, col: 32, offset: 44073},
+																							pos:        position{line: 1391, col: 32, offset: 44105},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1397, col: 151, offset: 44462},
+																						pos: position{line: 1397, col: 151, offset: 44494},
 																						expr: &actionExpr{
-																							pos: position{line: 2905, col: 12, offset: 91748},
+																							pos: position{line: 2914, col: 12, offset: 92006},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2905, col: 13, offset: 91749},
+																								pos: position{line: 2914, col: 13, offset: 92007},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 13, offset: 91749},
+																										pos:        position{line: 2914, col: 13, offset: 92007},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 20, offset: 91756},
+																										pos:        position{line: 2914, col: 20, offset: 92014},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2905, col: 29, offset: 91765},
+																										pos:        position{line: 2914, col: 29, offset: 92023},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -47480,7 +47480,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1397, col: 160, offset: 44471,
+																						line: 1397, col: 160, offset: 44503,
 																					},
 																				},
 																			},
@@ -47489,18 +47489,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1399, col: 11, offset: 44621},
+																pos: position{line: 1399, col: 11, offset: 44653},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1399, col: 12, offset: 44622},
+																	pos: position{line: 1399, col: 12, offset: 44654},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1399, col: 12, offset: 44622},
+																			pos: position{line: 1399, col: 12, offset: 44654},
 																			expr: &actionExpr{
-																				pos: position{line: 2896, col: 10, offset: 91577},
+																				pos: position{line: 2905, col: 10, offset: 91835},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2896, col: 10, offset: 91577},
+																					pos:        position{line: 2905, col: 10, offset: 91835},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47509,27 +47509,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1399, col: 19, offset: 44629},
+																			pos: position{line: 1399, col: 19, offset: 44661},
 																			expr: &actionExpr{
-																				pos: position{line: 2905, col: 12, offset: 91748},
+																				pos: position{line: 2914, col: 12, offset: 92006},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2905, col: 13, offset: 91749},
+																					pos: position{line: 2914, col: 13, offset: 92007},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 13, offset: 91749},
+																							pos:        position{line: 2914, col: 13, offset: 92007},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 20, offset: 91756},
+																							pos:        position{line: 2914, col: 20, offset: 92014},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2905, col: 29, offset: 91765},
+																							pos:        position{line: 2914, col: 29, offset: 92023},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47539,16 +47539,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1399, col: 28, offset: 44638},
+																			pos: position{line: 1399, col: 28, offset: 44670},
 																			expr: &litMatcher{
-																				pos:        position{line: 1391, col: 32, offset: 44073},
+																				pos:        position{line: 1391, col: 32, offset: 44105},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1399, col: 57, offset: 44667,
+																			line: 1399, col: 57, offset: 44699,
 																		},
 																	},
 																},
@@ -47557,15 +47557,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1391, col: 32, offset: 44073},
+													pos:        position{line: 1391, col: 32, offset: 44105},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1393, col: 121, offset: 44198},
+													pos: position{line: 1393, col: 121, offset: 44230},
 													expr: &charClassMatcher{
-														pos:        position{line: 2786, col: 13, offset: 88672},
+														pos:        position{line: 2795, col: 13, offset: 88930},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47576,7 +47576,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2459, col: 57, offset: 79361},
+										pos:  position{line: 2459, col: 57, offset: 79393},
 										name: "PassthroughMacro",
 									},
 								},
@@ -47588,16 +47588,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2464, col: 1, offset: 79421},
+			pos:  position{line: 2464, col: 1, offset: 79453},
 			expr: &seqExpr{
-				pos: position{line: 2466, col: 5, offset: 79497},
+				pos: position{line: 2466, col: 5, offset: 79529},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2466, col: 5, offset: 79497},
+						pos: position{line: 2466, col: 5, offset: 79529},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2469, col: 5, offset: 79562},
+						pos:  position{line: 2469, col: 5, offset: 79594},
 						name: "QuotedText",
 					},
 				},
@@ -47605,22 +47605,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2471, col: 1, offset: 79575},
+			pos:  position{line: 2471, col: 1, offset: 79607},
 			expr: &actionExpr{
-				pos: position{line: 2473, col: 5, offset: 79657},
+				pos: position{line: 2473, col: 5, offset: 79689},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2473, col: 5, offset: 79657},
+					pos: position{line: 2473, col: 5, offset: 79689},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2473, col: 5, offset: 79657},
+							pos: position{line: 2473, col: 5, offset: 79689},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2476, col: 5, offset: 79728},
+							pos:   position{line: 2476, col: 5, offset: 79760},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2477, col: 9, offset: 79746},
+								pos:  position{line: 2477, col: 9, offset: 79778},
 								name: "Symbol",
 							},
 						},
@@ -47630,103 +47630,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2535, col: 1, offset: 81576},
+			pos:  position{line: 2535, col: 1, offset: 81608},
 			expr: &choiceExpr{
-				pos: position{line: 2537, col: 5, offset: 81606},
+				pos: position{line: 2537, col: 5, offset: 81638},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2537, col: 5, offset: 81606},
+						pos: position{line: 2537, col: 5, offset: 81638},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2537, col: 5, offset: 81606},
+							pos: position{line: 2537, col: 5, offset: 81638},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2537, col: 5, offset: 81606},
+									pos:        position{line: 2537, col: 5, offset: 81638},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2537, col: 10, offset: 81611},
+									pos: position{line: 2537, col: 10, offset: 81643},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2537, col: 10, offset: 81611},
+											pos:  position{line: 2537, col: 10, offset: 81643},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2566, col: 14, offset: 82715},
+											pos: position{line: 2575, col: 14, offset: 82973},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2566, col: 14, offset: 82715},
+												pos:        position{line: 2575, col: 14, offset: 82973},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2570, col: 14, offset: 82781},
+											pos: position{line: 2579, col: 14, offset: 83039},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2570, col: 14, offset: 82781},
+												pos:        position{line: 2579, col: 14, offset: 83039},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2574, col: 15, offset: 82850},
+											pos: position{line: 2583, col: 15, offset: 83108},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2574, col: 15, offset: 82850},
+												pos:        position{line: 2583, col: 15, offset: 83108},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2578, col: 13, offset: 82915},
+											pos: position{line: 2587, col: 13, offset: 83173},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2578, col: 13, offset: 82915},
+												pos:        position{line: 2587, col: 13, offset: 83173},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2606, col: 21, offset: 83485},
+											pos: position{line: 2615, col: 21, offset: 83743},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2606, col: 21, offset: 83485},
+												pos:        position{line: 2615, col: 21, offset: 83743},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2585, col: 5, offset: 83071},
+											pos: position{line: 2594, col: 5, offset: 83329},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2585, col: 5, offset: 83071},
+												pos: position{line: 2594, col: 5, offset: 83329},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2585, col: 5, offset: 83071},
+														pos:        position{line: 2594, col: 5, offset: 83329},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2586, col: 5, offset: 83081},
+														pos: position{line: 2595, col: 5, offset: 83339},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2590, col: 6, offset: 83168},
+														pos: position{line: 2599, col: 6, offset: 83426},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2896, col: 10, offset: 91577},
+																pos: position{line: 2905, col: 10, offset: 91835},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2896, col: 10, offset: 91577},
+																	pos:        position{line: 2905, col: 10, offset: 91835},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47734,30 +47734,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2590, col: 14, offset: 83176},
+																pos: position{line: 2599, col: 14, offset: 83434},
 																expr: &choiceExpr{
-																	pos: position{line: 2918, col: 8, offset: 91975},
+																	pos: position{line: 2927, col: 8, offset: 92233},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2905, col: 12, offset: 91748},
+																			pos: position{line: 2914, col: 12, offset: 92006},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2905, col: 13, offset: 91749},
+																				pos: position{line: 2914, col: 13, offset: 92007},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 13, offset: 91749},
+																						pos:        position{line: 2914, col: 13, offset: 92007},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 20, offset: 91756},
+																						pos:        position{line: 2914, col: 20, offset: 92014},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2905, col: 29, offset: 91765},
+																						pos:        position{line: 2914, col: 29, offset: 92023},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47766,9 +47766,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2915, col: 8, offset: 91925},
+																			pos: position{line: 2924, col: 8, offset: 92183},
 																			expr: &anyMatcher{
-																				line: 2915, col: 9, offset: 91926,
+																				line: 2924, col: 9, offset: 92184,
 																			},
 																		},
 																	},
@@ -47780,53 +47780,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2595, col: 5, offset: 83296},
+											pos: position{line: 2604, col: 5, offset: 83554},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2595, col: 5, offset: 83296},
+												pos: position{line: 2604, col: 5, offset: 83554},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2595, col: 5, offset: 83296},
+														pos:        position{line: 2604, col: 5, offset: 83554},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2596, col: 5, offset: 83306},
+														pos: position{line: 2605, col: 5, offset: 83564},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2600, col: 5, offset: 83395},
+														pos: position{line: 2609, col: 5, offset: 83653},
 														expr: &choiceExpr{
-															pos: position{line: 2600, col: 7, offset: 83397},
+															pos: position{line: 2609, col: 7, offset: 83655},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2786, col: 13, offset: 88672},
+																	pos:        position{line: 2795, col: 13, offset: 88930},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2905, col: 12, offset: 91748},
+																	pos: position{line: 2914, col: 12, offset: 92006},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2905, col: 13, offset: 91749},
+																		pos: position{line: 2914, col: 13, offset: 92007},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2905, col: 13, offset: 91749},
+																				pos:        position{line: 2914, col: 13, offset: 92007},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2905, col: 20, offset: 91756},
+																				pos:        position{line: 2914, col: 20, offset: 92014},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2905, col: 29, offset: 91765},
+																				pos:        position{line: 2914, col: 29, offset: 92023},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47835,9 +47835,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2915, col: 8, offset: 91925},
+																	pos: position{line: 2924, col: 8, offset: 92183},
 																	expr: &anyMatcher{
-																		line: 2915, col: 9, offset: 91926,
+																		line: 2924, col: 9, offset: 92184,
 																	},
 																},
 															},
@@ -47847,30 +47847,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2610, col: 20, offset: 83555},
+											pos: position{line: 2619, col: 20, offset: 83813},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2610, col: 20, offset: 83555},
+												pos:        position{line: 2619, col: 20, offset: 83813},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2614, col: 21, offset: 83626},
+											pos: position{line: 2623, col: 21, offset: 83884},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2614, col: 21, offset: 83626},
+												pos:        position{line: 2623, col: 21, offset: 83884},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2618, col: 20, offset: 83696},
+											pos: position{line: 2627, col: 20, offset: 83954},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2618, col: 20, offset: 83696},
+												pos:        position{line: 2627, col: 20, offset: 83954},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -47882,73 +47882,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2541, col: 7, offset: 81866},
+						pos:  position{line: 2541, col: 7, offset: 81898},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2566, col: 14, offset: 82715},
+						pos: position{line: 2575, col: 14, offset: 82973},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2566, col: 14, offset: 82715},
+							pos:        position{line: 2575, col: 14, offset: 82973},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2570, col: 14, offset: 82781},
+						pos: position{line: 2579, col: 14, offset: 83039},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2570, col: 14, offset: 82781},
+							pos:        position{line: 2579, col: 14, offset: 83039},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2574, col: 15, offset: 82850},
+						pos: position{line: 2583, col: 15, offset: 83108},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2574, col: 15, offset: 82850},
+							pos:        position{line: 2583, col: 15, offset: 83108},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2578, col: 13, offset: 82915},
+						pos: position{line: 2587, col: 13, offset: 83173},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2578, col: 13, offset: 82915},
+							pos:        position{line: 2587, col: 13, offset: 83173},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2585, col: 5, offset: 83071},
+						pos: position{line: 2594, col: 5, offset: 83329},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2585, col: 5, offset: 83071},
+							pos: position{line: 2594, col: 5, offset: 83329},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2585, col: 5, offset: 83071},
+									pos:        position{line: 2594, col: 5, offset: 83329},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2586, col: 5, offset: 83081},
+									pos: position{line: 2595, col: 5, offset: 83339},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2590, col: 6, offset: 83168},
+									pos: position{line: 2599, col: 6, offset: 83426},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2896, col: 10, offset: 91577},
+											pos: position{line: 2905, col: 10, offset: 91835},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2896, col: 10, offset: 91577},
+												pos:        position{line: 2905, col: 10, offset: 91835},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47956,30 +47956,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2590, col: 14, offset: 83176},
+											pos: position{line: 2599, col: 14, offset: 83434},
 											expr: &choiceExpr{
-												pos: position{line: 2918, col: 8, offset: 91975},
+												pos: position{line: 2927, col: 8, offset: 92233},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2905, col: 12, offset: 91748},
+														pos: position{line: 2914, col: 12, offset: 92006},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2905, col: 13, offset: 91749},
+															pos: position{line: 2914, col: 13, offset: 92007},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2905, col: 13, offset: 91749},
+																	pos:        position{line: 2914, col: 13, offset: 92007},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2905, col: 20, offset: 91756},
+																	pos:        position{line: 2914, col: 20, offset: 92014},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2905, col: 29, offset: 91765},
+																	pos:        position{line: 2914, col: 29, offset: 92023},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47988,9 +47988,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2915, col: 8, offset: 91925},
+														pos: position{line: 2924, col: 8, offset: 92183},
 														expr: &anyMatcher{
-															line: 2915, col: 9, offset: 91926,
+															line: 2924, col: 9, offset: 92184,
 														},
 													},
 												},
@@ -48002,53 +48002,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2595, col: 5, offset: 83296},
+						pos: position{line: 2604, col: 5, offset: 83554},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2595, col: 5, offset: 83296},
+							pos: position{line: 2604, col: 5, offset: 83554},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2595, col: 5, offset: 83296},
+									pos:        position{line: 2604, col: 5, offset: 83554},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2596, col: 5, offset: 83306},
+									pos: position{line: 2605, col: 5, offset: 83564},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2600, col: 5, offset: 83395},
+									pos: position{line: 2609, col: 5, offset: 83653},
 									expr: &choiceExpr{
-										pos: position{line: 2600, col: 7, offset: 83397},
+										pos: position{line: 2609, col: 7, offset: 83655},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2786, col: 13, offset: 88672},
+												pos:        position{line: 2795, col: 13, offset: 88930},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2905, col: 12, offset: 91748},
+												pos: position{line: 2914, col: 12, offset: 92006},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2905, col: 13, offset: 91749},
+													pos: position{line: 2914, col: 13, offset: 92007},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2905, col: 13, offset: 91749},
+															pos:        position{line: 2914, col: 13, offset: 92007},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2905, col: 20, offset: 91756},
+															pos:        position{line: 2914, col: 20, offset: 92014},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2905, col: 29, offset: 91765},
+															pos:        position{line: 2914, col: 29, offset: 92023},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -48057,9 +48057,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2915, col: 8, offset: 91925},
+												pos: position{line: 2924, col: 8, offset: 92183},
 												expr: &anyMatcher{
-													line: 2915, col: 9, offset: 91926,
+													line: 2924, col: 9, offset: 92184,
 												},
 											},
 										},
@@ -48069,40 +48069,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2606, col: 21, offset: 83485},
+						pos: position{line: 2615, col: 21, offset: 83743},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2606, col: 21, offset: 83485},
+							pos:        position{line: 2615, col: 21, offset: 83743},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2610, col: 20, offset: 83555},
+						pos: position{line: 2619, col: 20, offset: 83813},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2610, col: 20, offset: 83555},
+							pos:        position{line: 2619, col: 20, offset: 83813},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2614, col: 21, offset: 83626},
+						pos: position{line: 2623, col: 21, offset: 83884},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2614, col: 21, offset: 83626},
+							pos:        position{line: 2623, col: 21, offset: 83884},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2618, col: 20, offset: 83696},
+						pos: position{line: 2627, col: 20, offset: 83954},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2618, col: 20, offset: 83696},
+							pos:        position{line: 2627, col: 20, offset: 83954},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -48111,45 +48111,70 @@ var g = &grammar{
 				},
 			},
 		},
+		{
+			name: "QuotationMarkReplacement",
+			pos:  position{line: 2552, col: 1, offset: 82088},
+			expr: &actionExpr{
+				pos: position{line: 2554, col: 5, offset: 82182},
+				run: (*parser).callonQuotationMarkReplacement1,
+				expr: &seqExpr{
+					pos: position{line: 2554, col: 5, offset: 82182},
+					exprs: []interface{}{
+						&andCodeExpr{
+							pos: position{line: 2554, col: 5, offset: 82182},
+							run: (*parser).callonQuotationMarkReplacement3,
+						},
+						&labeledExpr{
+							pos:   position{line: 2557, col: 5, offset: 82253},
+							label: "element",
+							expr: &ruleRefExpr{
+								pos:  position{line: 2557, col: 14, offset: 82262},
+								name: "QuotationMark",
+							},
+						},
+					},
+				},
+			},
+		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2552, col: 1, offset: 82056},
+			pos:  position{line: 2561, col: 1, offset: 82314},
 			expr: &choiceExpr{
-				pos: position{line: 2553, col: 5, offset: 82078},
+				pos: position{line: 2562, col: 5, offset: 82336},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2553, col: 5, offset: 82078},
+						pos: position{line: 2562, col: 5, offset: 82336},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2553, col: 5, offset: 82078},
+							pos: position{line: 2562, col: 5, offset: 82336},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2553, col: 5, offset: 82078},
+									pos:        position{line: 2562, col: 5, offset: 82336},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2553, col: 11, offset: 82084},
+									pos: position{line: 2562, col: 11, offset: 82342},
 									expr: &seqExpr{
-										pos: position{line: 2105, col: 5, offset: 67992},
+										pos: position{line: 2105, col: 5, offset: 68024},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2105, col: 5, offset: 67992},
+												pos:        position{line: 2105, col: 5, offset: 68024},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2106, col: 5, offset: 68001},
+												pos: position{line: 2106, col: 5, offset: 68033},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2110, col: 5, offset: 68124},
+												pos: position{line: 2110, col: 5, offset: 68156},
 												expr: &notExpr{
-													pos: position{line: 2110, col: 7, offset: 68126},
+													pos: position{line: 2110, col: 7, offset: 68158},
 													expr: &litMatcher{
-														pos:        position{line: 2110, col: 8, offset: 68127},
+														pos:        position{line: 2110, col: 8, offset: 68159},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -48163,21 +48188,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2556, col: 7, offset: 82237},
+						pos: position{line: 2565, col: 7, offset: 82495},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2556, col: 7, offset: 82237},
+							pos: position{line: 2565, col: 7, offset: 82495},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2556, col: 7, offset: 82237},
+									pos:        position{line: 2565, col: 7, offset: 82495},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2556, col: 13, offset: 82243},
+									pos: position{line: 2565, col: 13, offset: 82501},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2556, col: 14, offset: 82244},
+										pos:  position{line: 2565, col: 14, offset: 82502},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48185,38 +48210,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2559, col: 7, offset: 82394},
+						pos: position{line: 2568, col: 7, offset: 82652},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2559, col: 7, offset: 82394},
+							pos: position{line: 2568, col: 7, offset: 82652},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2559, col: 7, offset: 82394},
+									pos:        position{line: 2568, col: 7, offset: 82652},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2559, col: 12, offset: 82399},
+									pos: position{line: 2568, col: 12, offset: 82657},
 									expr: &seqExpr{
-										pos: position{line: 2105, col: 5, offset: 67992},
+										pos: position{line: 2105, col: 5, offset: 68024},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2105, col: 5, offset: 67992},
+												pos:        position{line: 2105, col: 5, offset: 68024},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2106, col: 5, offset: 68001},
+												pos: position{line: 2106, col: 5, offset: 68033},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2110, col: 5, offset: 68124},
+												pos: position{line: 2110, col: 5, offset: 68156},
 												expr: &notExpr{
-													pos: position{line: 2110, col: 7, offset: 68126},
+													pos: position{line: 2110, col: 7, offset: 68158},
 													expr: &litMatcher{
-														pos:        position{line: 2110, col: 8, offset: 68127},
+														pos:        position{line: 2110, col: 8, offset: 68159},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -48230,21 +48255,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2562, col: 7, offset: 82552},
+						pos: position{line: 2571, col: 7, offset: 82810},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2562, col: 7, offset: 82552},
+							pos: position{line: 2571, col: 7, offset: 82810},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2562, col: 7, offset: 82552},
+									pos:        position{line: 2571, col: 7, offset: 82810},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2562, col: 12, offset: 82557},
+									pos: position{line: 2571, col: 12, offset: 82815},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2562, col: 13, offset: 82558},
+										pos:  position{line: 2571, col: 13, offset: 82816},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48256,63 +48281,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2701, col: 1, offset: 85752},
+			pos:  position{line: 2710, col: 1, offset: 86010},
 			expr: &actionExpr{
-				pos: position{line: 2701, col: 26, offset: 85777},
+				pos: position{line: 2710, col: 26, offset: 86035},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2701, col: 26, offset: 85777},
+					pos: position{line: 2710, col: 26, offset: 86035},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2701, col: 26, offset: 85777},
+							pos:   position{line: 2710, col: 26, offset: 86035},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2701, col: 31, offset: 85782},
+								pos: position{line: 2710, col: 31, offset: 86040},
 								expr: &actionExpr{
-									pos: position{line: 2706, col: 5, offset: 85845},
+									pos: position{line: 2715, col: 5, offset: 86103},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2706, col: 5, offset: 85845},
+										pos: position{line: 2715, col: 5, offset: 86103},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2913, col: 11, offset: 91911},
+												pos: position{line: 2922, col: 11, offset: 92169},
 												expr: &anyMatcher{
-													line: 2913, col: 13, offset: 91913,
+													line: 2922, col: 13, offset: 92171,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2709, col: 5, offset: 85971},
+												pos:   position{line: 2718, col: 5, offset: 86229},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2709, col: 16, offset: 85982},
+													pos: position{line: 2718, col: 16, offset: 86240},
 													expr: &actionExpr{
-														pos: position{line: 2709, col: 17, offset: 85983},
+														pos: position{line: 2718, col: 17, offset: 86241},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2709, col: 17, offset: 85983},
+															pos: position{line: 2718, col: 17, offset: 86241},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2709, col: 17, offset: 85983},
+																	pos:   position{line: 2718, col: 17, offset: 86241},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2888, col: 12, offset: 91404},
+																		pos: position{line: 2897, col: 12, offset: 91662},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2888, col: 13, offset: 91405},
+																			pos: position{line: 2897, col: 13, offset: 91663},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2888, col: 13, offset: 91405},
+																					pos: position{line: 2897, col: 13, offset: 91663},
 																					expr: &litMatcher{
-																						pos:        position{line: 2888, col: 13, offset: 91405},
+																						pos:        position{line: 2897, col: 13, offset: 91663},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2888, col: 18, offset: 91410},
+																					pos: position{line: 2897, col: 18, offset: 91668},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2888, col: 18, offset: 91410},
+																						pos:        position{line: 2897, col: 18, offset: 91668},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -48324,7 +48349,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2709, col: 27, offset: 85993},
+																	pos:        position{line: 2718, col: 27, offset: 86251},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -48335,38 +48360,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2710, col: 5, offset: 86021},
+												pos:   position{line: 2719, col: 5, offset: 86279},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2710, col: 12, offset: 86028},
+													pos: position{line: 2719, col: 12, offset: 86286},
 													expr: &choiceExpr{
-														pos: position{line: 2711, col: 9, offset: 86038},
+														pos: position{line: 2720, col: 9, offset: 86296},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2711, col: 9, offset: 86038},
+																pos: position{line: 2720, col: 9, offset: 86296},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2711, col: 9, offset: 86038},
+																	pos:        position{line: 2720, col: 9, offset: 86296},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2712, col: 11, offset: 86085},
+																pos: position{line: 2721, col: 11, offset: 86343},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2712, col: 11, offset: 86085},
+																	pos:        position{line: 2721, col: 11, offset: 86343},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2713, col: 11, offset: 86133},
+																pos: position{line: 2722, col: 11, offset: 86391},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2713, col: 11, offset: 86133},
+																	pos:        position{line: 2722, col: 11, offset: 86391},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -48377,38 +48402,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2715, col: 5, offset: 86183},
+												pos:   position{line: 2724, col: 5, offset: 86441},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2715, col: 12, offset: 86190},
+													pos: position{line: 2724, col: 12, offset: 86448},
 													expr: &choiceExpr{
-														pos: position{line: 2716, col: 9, offset: 86200},
+														pos: position{line: 2725, col: 9, offset: 86458},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2716, col: 9, offset: 86200},
+																pos: position{line: 2725, col: 9, offset: 86458},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2716, col: 9, offset: 86200},
+																	pos:        position{line: 2725, col: 9, offset: 86458},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2717, col: 11, offset: 86247},
+																pos: position{line: 2726, col: 11, offset: 86505},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2717, col: 11, offset: 86247},
+																	pos:        position{line: 2726, col: 11, offset: 86505},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2718, col: 11, offset: 86297},
+																pos: position{line: 2727, col: 11, offset: 86555},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2718, col: 11, offset: 86297},
+																	pos:        position{line: 2727, col: 11, offset: 86555},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -48419,32 +48444,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2720, col: 5, offset: 86348},
+												pos:   position{line: 2729, col: 5, offset: 86606},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2720, col: 12, offset: 86355},
+													pos: position{line: 2729, col: 12, offset: 86613},
 													expr: &choiceExpr{
-														pos: position{line: 2720, col: 13, offset: 86356},
+														pos: position{line: 2729, col: 13, offset: 86614},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2888, col: 12, offset: 91404},
+																pos: position{line: 2897, col: 12, offset: 91662},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2888, col: 13, offset: 91405},
+																	pos: position{line: 2897, col: 13, offset: 91663},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2888, col: 13, offset: 91405},
+																			pos: position{line: 2897, col: 13, offset: 91663},
 																			expr: &litMatcher{
-																				pos:        position{line: 2888, col: 13, offset: 91405},
+																				pos:        position{line: 2897, col: 13, offset: 91663},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2888, col: 18, offset: 91410},
+																			pos: position{line: 2897, col: 18, offset: 91668},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2888, col: 18, offset: 91410},
+																				pos:        position{line: 2897, col: 18, offset: 91668},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -48455,10 +48480,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2720, col: 24, offset: 86367},
+																pos: position{line: 2729, col: 24, offset: 86625},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2720, col: 24, offset: 86367},
+																	pos:        position{line: 2729, col: 24, offset: 86625},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -48469,15 +48494,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2721, col: 5, offset: 86409},
+												pos:   position{line: 2730, col: 5, offset: 86667},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2721, col: 11, offset: 86415},
+													pos: position{line: 2730, col: 11, offset: 86673},
 													expr: &actionExpr{
-														pos: position{line: 2721, col: 12, offset: 86416},
+														pos: position{line: 2730, col: 12, offset: 86674},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2721, col: 12, offset: 86416},
+															pos:        position{line: 2730, col: 12, offset: 86674},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -48487,12 +48512,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2723, col: 5, offset: 86546},
+												pos:   position{line: 2732, col: 5, offset: 86804},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2723, col: 11, offset: 86552},
+													pos: position{line: 2732, col: 11, offset: 86810},
 													expr: &litMatcher{
-														pos:        position{line: 2723, col: 12, offset: 86553},
+														pos:        position{line: 2732, col: 12, offset: 86811},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -48500,7 +48525,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2724, col: 5, offset: 86563},
+												pos: position{line: 2733, col: 5, offset: 86821},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -48509,9 +48534,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2915, col: 8, offset: 91925},
+							pos: position{line: 2924, col: 8, offset: 92183},
 							expr: &anyMatcher{
-								line: 2915, col: 9, offset: 91926,
+								line: 2924, col: 9, offset: 92184,
 							},
 						},
 					},
@@ -48520,23 +48545,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2751, col: 1, offset: 87572},
+			pos:  position{line: 2760, col: 1, offset: 87830},
 			expr: &actionExpr{
-				pos: position{line: 2752, col: 5, offset: 87595},
+				pos: position{line: 2761, col: 5, offset: 87853},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2752, col: 5, offset: 87595},
+					pos: position{line: 2761, col: 5, offset: 87853},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2752, col: 5, offset: 87595},
+							pos:   position{line: 2761, col: 5, offset: 87853},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2775, col: 18, offset: 88336},
+								pos: position{line: 2784, col: 18, offset: 88594},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2775, col: 19, offset: 88337},
+									pos: position{line: 2784, col: 19, offset: 88595},
 									expr: &charClassMatcher{
-										pos:        position{line: 2775, col: 19, offset: 88337},
+										pos:        position{line: 2784, col: 19, offset: 88595},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48547,25 +48572,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2753, col: 5, offset: 87621},
+							pos: position{line: 2762, col: 5, offset: 87879},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2757, col: 5, offset: 87749},
+							pos:        position{line: 2766, col: 5, offset: 88007},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2758, col: 5, offset: 87759},
+							pos:   position{line: 2767, col: 5, offset: 88017},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2779, col: 19, offset: 88412},
+								pos: position{line: 2788, col: 19, offset: 88670},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2779, col: 19, offset: 88412},
+									pos: position{line: 2788, col: 19, offset: 88670},
 									expr: &charClassMatcher{
-										pos:        position{line: 2779, col: 19, offset: 88412},
+										pos:        position{line: 2788, col: 19, offset: 88670},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48575,36 +48600,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2759, col: 5, offset: 87787},
+							pos:   position{line: 2768, col: 5, offset: 88045},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2759, col: 17, offset: 87799},
+								pos:  position{line: 2768, col: 17, offset: 88057},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2918, col: 8, offset: 91975},
+							pos: position{line: 2927, col: 8, offset: 92233},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2905, col: 12, offset: 91748},
+									pos: position{line: 2914, col: 12, offset: 92006},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2905, col: 13, offset: 91749},
+										pos: position{line: 2914, col: 13, offset: 92007},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2905, col: 13, offset: 91749},
+												pos:        position{line: 2914, col: 13, offset: 92007},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2905, col: 20, offset: 91756},
+												pos:        position{line: 2914, col: 20, offset: 92014},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2905, col: 29, offset: 91765},
+												pos:        position{line: 2914, col: 29, offset: 92023},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -48613,9 +48638,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2915, col: 8, offset: 91925},
+									pos: position{line: 2924, col: 8, offset: 92183},
 									expr: &anyMatcher{
-										line: 2915, col: 9, offset: 91926,
+										line: 2924, col: 9, offset: 92184,
 									},
 								},
 							},
@@ -48626,23 +48651,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2763, col: 1, offset: 87947},
+			pos:  position{line: 2772, col: 1, offset: 88205},
 			expr: &actionExpr{
-				pos: position{line: 2764, col: 5, offset: 87971},
+				pos: position{line: 2773, col: 5, offset: 88229},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2764, col: 5, offset: 87971},
+					pos: position{line: 2773, col: 5, offset: 88229},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2764, col: 5, offset: 87971},
+							pos:   position{line: 2773, col: 5, offset: 88229},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2775, col: 18, offset: 88336},
+								pos: position{line: 2784, col: 18, offset: 88594},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2775, col: 19, offset: 88337},
+									pos: position{line: 2784, col: 19, offset: 88595},
 									expr: &charClassMatcher{
-										pos:        position{line: 2775, col: 19, offset: 88337},
+										pos:        position{line: 2784, col: 19, offset: 88595},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48653,25 +48678,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2765, col: 5, offset: 87997},
+							pos: position{line: 2774, col: 5, offset: 88255},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2769, col: 5, offset: 88125},
+							pos:        position{line: 2778, col: 5, offset: 88383},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2770, col: 5, offset: 88134},
+							pos:   position{line: 2779, col: 5, offset: 88392},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2779, col: 19, offset: 88412},
+								pos: position{line: 2788, col: 19, offset: 88670},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2779, col: 19, offset: 88412},
+									pos: position{line: 2788, col: 19, offset: 88670},
 									expr: &charClassMatcher{
-										pos:        position{line: 2779, col: 19, offset: 88412},
+										pos:        position{line: 2788, col: 19, offset: 88670},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48681,10 +48706,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2771, col: 5, offset: 88162},
+							pos:   position{line: 2780, col: 5, offset: 88420},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2771, col: 17, offset: 88174},
+								pos:  position{line: 2780, col: 17, offset: 88432},
 								name: "InlineAttributes",
 							},
 						},
@@ -48694,43 +48719,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2850, col: 1, offset: 90224},
+			pos:  position{line: 2859, col: 1, offset: 90482},
 			expr: &actionExpr{
-				pos: position{line: 2850, col: 17, offset: 90240},
+				pos: position{line: 2859, col: 17, offset: 90498},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2850, col: 17, offset: 90240},
+					pos:   position{line: 2859, col: 17, offset: 90498},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2867, col: 5, offset: 90694},
+						pos: position{line: 2876, col: 5, offset: 90952},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2867, col: 5, offset: 90694},
+							pos:   position{line: 2876, col: 5, offset: 90952},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2867, col: 14, offset: 90703},
+								pos: position{line: 2876, col: 14, offset: 90961},
 								expr: &choiceExpr{
-									pos: position{line: 2868, col: 9, offset: 90713},
+									pos: position{line: 2877, col: 9, offset: 90971},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2868, col: 9, offset: 90713},
+											pos: position{line: 2877, col: 9, offset: 90971},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2868, col: 9, offset: 90713},
+												pos: position{line: 2877, col: 9, offset: 90971},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2868, col: 9, offset: 90713},
+														pos: position{line: 2877, col: 9, offset: 90971},
 														expr: &litMatcher{
-															pos:        position{line: 2868, col: 10, offset: 90714},
+															pos:        position{line: 2877, col: 10, offset: 90972},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2869, col: 9, offset: 90742},
+														pos: position{line: 2878, col: 9, offset: 91000},
 														expr: &charClassMatcher{
-															pos:        position{line: 2869, col: 10, offset: 90743},
+															pos:        position{line: 2878, col: 10, offset: 91001},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48741,27 +48766,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2872, col: 11, offset: 90955},
+											pos: position{line: 2881, col: 11, offset: 91213},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2872, col: 11, offset: 90955},
+													pos:        position{line: 2881, col: 11, offset: 91213},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2872, col: 19, offset: 90963},
+													pos: position{line: 2881, col: 19, offset: 91221},
 													expr: &seqExpr{
-														pos: position{line: 2872, col: 21, offset: 90965},
+														pos: position{line: 2881, col: 21, offset: 91223},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2872, col: 21, offset: 90965},
+																pos: position{line: 2881, col: 21, offset: 91223},
 																expr: &actionExpr{
-																	pos: position{line: 2896, col: 10, offset: 91577},
+																	pos: position{line: 2905, col: 10, offset: 91835},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2896, col: 10, offset: 91577},
+																		pos:        position{line: 2905, col: 10, offset: 91835},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48770,11 +48795,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2872, col: 28, offset: 90972},
+																pos: position{line: 2881, col: 28, offset: 91230},
 																expr: &notExpr{
-																	pos: position{line: 2915, col: 8, offset: 91925},
+																	pos: position{line: 2924, col: 8, offset: 92183},
 																	expr: &anyMatcher{
-																		line: 2915, col: 9, offset: 91926,
+																		line: 2924, col: 9, offset: 92184,
 																	},
 																},
 															},
@@ -48784,35 +48809,35 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 646, col: 5, offset: 20455},
+											pos: position{line: 646, col: 5, offset: 20487},
 											run: (*parser).callonFileLocation23,
 											expr: &seqExpr{
-												pos: position{line: 646, col: 5, offset: 20455},
+												pos: position{line: 646, col: 5, offset: 20487},
 												exprs: []interface{}{
 													&andCodeExpr{
-														pos: position{line: 646, col: 5, offset: 20455},
+														pos: position{line: 646, col: 5, offset: 20487},
 														run: (*parser).callonFileLocation25,
 													},
 													&labeledExpr{
-														pos:   position{line: 649, col: 5, offset: 20527},
+														pos:   position{line: 649, col: 5, offset: 20559},
 														label: "element",
 														expr: &choiceExpr{
-															pos: position{line: 649, col: 14, offset: 20536},
+															pos: position{line: 649, col: 14, offset: 20568},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 655, col: 5, offset: 20665},
+																	pos: position{line: 655, col: 5, offset: 20697},
 																	run: (*parser).callonFileLocation28,
 																	expr: &seqExpr{
-																		pos: position{line: 655, col: 5, offset: 20665},
+																		pos: position{line: 655, col: 5, offset: 20697},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 655, col: 5, offset: 20665},
+																				pos:        position{line: 655, col: 5, offset: 20697},
 																				val:        "\\{",
 																				ignoreCase: false,
 																				want:       "\"\\\\{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 655, col: 13, offset: 20673},
+																				pos:   position{line: 655, col: 13, offset: 20705},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -48844,7 +48869,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 655, col: 32, offset: 20692},
+																				pos:        position{line: 655, col: 32, offset: 20724},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48853,19 +48878,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 662, col: 5, offset: 20933},
+																	pos: position{line: 662, col: 5, offset: 20965},
 																	run: (*parser).callonFileLocation38,
 																	expr: &seqExpr{
-																		pos: position{line: 662, col: 5, offset: 20933},
+																		pos: position{line: 662, col: 5, offset: 20965},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 662, col: 5, offset: 20933},
+																				pos:        position{line: 662, col: 5, offset: 20965},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 662, col: 9, offset: 20937},
+																				pos:   position{line: 662, col: 9, offset: 20969},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -48897,7 +48922,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 662, col: 28, offset: 20956},
+																				pos:        position{line: 662, col: 28, offset: 20988},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -48906,19 +48931,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 668, col: 25, offset: 21137},
+																	pos: position{line: 668, col: 25, offset: 21169},
 																	run: (*parser).callonFileLocation48,
 																	expr: &seqExpr{
-																		pos: position{line: 668, col: 25, offset: 21137},
+																		pos: position{line: 668, col: 25, offset: 21169},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 668, col: 25, offset: 21137},
+																				pos:        position{line: 668, col: 25, offset: 21169},
 																				val:        "{counter:",
 																				ignoreCase: false,
 																				want:       "\"{counter:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 668, col: 37, offset: 21149},
+																				pos:   position{line: 668, col: 37, offset: 21181},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -48950,33 +48975,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 668, col: 56, offset: 21168},
+																				pos:   position{line: 668, col: 56, offset: 21200},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 668, col: 62, offset: 21174},
+																					pos: position{line: 668, col: 62, offset: 21206},
 																					expr: &actionExpr{
-																						pos: position{line: 676, col: 17, offset: 21469},
+																						pos: position{line: 676, col: 17, offset: 21501},
 																						run: (*parser).callonFileLocation59,
 																						expr: &seqExpr{
-																							pos: position{line: 676, col: 17, offset: 21469},
+																							pos: position{line: 676, col: 17, offset: 21501},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 676, col: 17, offset: 21469},
+																									pos:        position{line: 676, col: 17, offset: 21501},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 676, col: 21, offset: 21473},
+																									pos:   position{line: 676, col: 21, offset: 21505},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 676, col: 28, offset: 21480},
+																										pos: position{line: 676, col: 28, offset: 21512},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 676, col: 28, offset: 21480},
+																												pos: position{line: 676, col: 28, offset: 21512},
 																												run: (*parser).callonFileLocation64,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 676, col: 28, offset: 21480},
+																													pos:        position{line: 676, col: 28, offset: 21512},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -48984,12 +49009,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 678, col: 9, offset: 21534},
+																												pos: position{line: 678, col: 9, offset: 21566},
 																												run: (*parser).callonFileLocation66,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 678, col: 9, offset: 21534},
+																													pos: position{line: 678, col: 9, offset: 21566},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 678, col: 9, offset: 21534},
+																														pos:        position{line: 678, col: 9, offset: 21566},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -49006,7 +49031,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 668, col: 78, offset: 21190},
+																				pos:        position{line: 668, col: 78, offset: 21222},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -49015,19 +49040,19 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 672, col: 25, offset: 21308},
+																	pos: position{line: 672, col: 25, offset: 21340},
 																	run: (*parser).callonFileLocation70,
 																	expr: &seqExpr{
-																		pos: position{line: 672, col: 25, offset: 21308},
+																		pos: position{line: 672, col: 25, offset: 21340},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 672, col: 25, offset: 21308},
+																				pos:        position{line: 672, col: 25, offset: 21340},
 																				val:        "{counter2:",
 																				ignoreCase: false,
 																				want:       "\"{counter2:\"",
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 672, col: 38, offset: 21321},
+																				pos:   position{line: 672, col: 38, offset: 21353},
 																				label: "name",
 																				expr: &actionExpr{
 																					pos: position{line: 318, col: 18, offset: 9736},
@@ -49059,33 +49084,33 @@ var g = &grammar{
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 672, col: 57, offset: 21340},
+																				pos:   position{line: 672, col: 57, offset: 21372},
 																				label: "start",
 																				expr: &zeroOrOneExpr{
-																					pos: position{line: 672, col: 63, offset: 21346},
+																					pos: position{line: 672, col: 63, offset: 21378},
 																					expr: &actionExpr{
-																						pos: position{line: 676, col: 17, offset: 21469},
+																						pos: position{line: 676, col: 17, offset: 21501},
 																						run: (*parser).callonFileLocation81,
 																						expr: &seqExpr{
-																							pos: position{line: 676, col: 17, offset: 21469},
+																							pos: position{line: 676, col: 17, offset: 21501},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 676, col: 17, offset: 21469},
+																									pos:        position{line: 676, col: 17, offset: 21501},
 																									val:        ":",
 																									ignoreCase: false,
 																									want:       "\":\"",
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 676, col: 21, offset: 21473},
+																									pos:   position{line: 676, col: 21, offset: 21505},
 																									label: "start",
 																									expr: &choiceExpr{
-																										pos: position{line: 676, col: 28, offset: 21480},
+																										pos: position{line: 676, col: 28, offset: 21512},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 676, col: 28, offset: 21480},
+																												pos: position{line: 676, col: 28, offset: 21512},
 																												run: (*parser).callonFileLocation86,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 676, col: 28, offset: 21480},
+																													pos:        position{line: 676, col: 28, offset: 21512},
 																													val:        "[A-Za-z]",
 																													ranges:     []rune{'A', 'Z', 'a', 'z'},
 																													ignoreCase: false,
@@ -49093,12 +49118,12 @@ var g = &grammar{
 																												},
 																											},
 																											&actionExpr{
-																												pos: position{line: 678, col: 9, offset: 21534},
+																												pos: position{line: 678, col: 9, offset: 21566},
 																												run: (*parser).callonFileLocation88,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 678, col: 9, offset: 21534},
+																													pos: position{line: 678, col: 9, offset: 21566},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 678, col: 9, offset: 21534},
+																														pos:        position{line: 678, col: 9, offset: 21566},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -49115,7 +49140,7 @@ var g = &grammar{
 																				},
 																			},
 																			&litMatcher{
-																				pos:        position{line: 672, col: 79, offset: 21362},
+																				pos:        position{line: 672, col: 79, offset: 21394},
 																				val:        "}",
 																				ignoreCase: false,
 																				want:       "\"}\"",
@@ -49130,27 +49155,27 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 1224, col: 23, offset: 37828},
+											pos: position{line: 1224, col: 23, offset: 37860},
 											run: (*parser).callonFileLocation92,
 											expr: &seqExpr{
-												pos: position{line: 1224, col: 23, offset: 37828},
+												pos: position{line: 1224, col: 23, offset: 37860},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 1222, col: 32, offset: 37796},
+														pos:        position{line: 1222, col: 32, offset: 37828},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
 													},
 													&labeledExpr{
-														pos:   position{line: 1224, col: 51, offset: 37856},
+														pos:   position{line: 1224, col: 51, offset: 37888},
 														label: "ref",
 														expr: &actionExpr{
-															pos: position{line: 1224, col: 56, offset: 37861},
+															pos: position{line: 1224, col: 56, offset: 37893},
 															run: (*parser).callonFileLocation96,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 1224, col: 56, offset: 37861},
+																pos: position{line: 1224, col: 56, offset: 37893},
 																expr: &charClassMatcher{
-																	pos:        position{line: 1224, col: 56, offset: 37861},
+																	pos:        position{line: 1224, col: 56, offset: 37893},
 																	val:        "[0-9]",
 																	ranges:     []rune{'0', '9'},
 																	ignoreCase: false,
@@ -49160,7 +49185,7 @@ var g = &grammar{
 														},
 													},
 													&litMatcher{
-														pos:        position{line: 1222, col: 32, offset: 37796},
+														pos:        position{line: 1222, col: 32, offset: 37828},
 														val:        "�",
 														ignoreCase: false,
 														want:       "\"�\"",
@@ -49169,10 +49194,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2875, col: 11, offset: 91092},
+											pos: position{line: 2884, col: 11, offset: 91350},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2875, col: 11, offset: 91092},
+												pos:        position{line: 2884, col: 11, offset: 91350},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
@@ -74603,6 +74628,28 @@ func (p *parser) callonSymbol98() (interface{}, error) {
 	return p.cur.onSymbol98()
 }
 
+func (c *current) onQuotationMarkReplacement3() (bool, error) {
+	return c.isSubstitutionEnabled(Replacements), nil
+
+}
+
+func (p *parser) callonQuotationMarkReplacement3() (bool, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onQuotationMarkReplacement3()
+}
+
+func (c *current) onQuotationMarkReplacement1(element interface{}) (interface{}, error) {
+	return element, nil
+
+}
+
+func (p *parser) callonQuotationMarkReplacement1() (interface{}, error) {
+	stack := p.vstack[len(p.vstack)-1]
+	_ = stack
+	return p.cur.onQuotationMarkReplacement1(stack["element"])
+}
+
 func (c *current) onQuotationMark8() (bool, error) {
 	log.Debug("SingleQuoteMonospaceTextStartDelimiter")
 	return c.isSingleQuotedTextAllowed(), nil
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index e836182..8906a10 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -512,7 +512,7 @@ ShortHandAttributeValue <-
     / elements:(
         // unquoted shorthand value may include placeholders and substitutions but NOT comma, space, equal sign and dots
         // also, cannot be followed by an `=` sign
-        QuotationMark 
+        QuotationMarkReplacement
         / ([^,=.%# \r\n\uFFFD{\]]+ {
             return types.NewStringElement(string(c.text))
         }) 
@@ -578,7 +578,7 @@ SingleQuotedAttributeValueContent <-
     elements:(
         Alphanums
         / Space
-        / QuotationMark
+        / QuotationMarkReplacement
         / AttributeReference
         / (`\'` { 
             return types.NewStringElement(`'`) // escaped single quote
@@ -604,7 +604,7 @@ DoubleQuotedAttributeValueContent <-
     elements:(
         Alphanums
         / Space
-        / QuotationMark
+        / QuotationMarkReplacement
         / AttributeReference 
         / (`\"` { 
             return types.NewStringElement(`"`) // escaped double quote
@@ -2549,6 +2549,15 @@ Symbol <-
     / DoubleRightArrow 
     / DoubleLeftArrow
 
+QuotationMarkReplacement <-
+    // check if enabled with the current substitution context
+    &{
+        return c.isSubstitutionEnabled(Replacements), nil
+    }
+    element:(QuotationMark) {
+        return element, nil
+    }
+
 QuotationMark <- 
     "`\"" !SingleQuoteMonospaceTextStartDelimiter { // do not conflict with quotation mark within monospace text
         return types.NewSymbol("`\"")
-- 
2.43.0


From 54440d8892bcfc19f5e5f3c20398eb3500f1bb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:37 +0000
Subject: [PATCH 072/108] fix: retain quotes in index terms when they are
 disabled

The quoted texts were interpreted, whatever the substitutions of the block.
---
 pkg/parser/parser.go  | 12538 ++++++++++++++++++++--------------------
 pkg/parser/parser.peg |     2 +-
 2 files changed, 6270 insertions(+), 6270 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 1124807..40f317e 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -97,10 +97,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 367, col: 49, offset: 11183},
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 10, offset: 91835},
+														pos: position{line: 2905, col: 10, offset: 91830},
 														run: (*parser).callonDocumentRawLine17,
 														expr: &charClassMatcher{
-															pos:        position{line: 2905, col: 10, offset: 91835},
+															pos:        position{line: 2905, col: 10, offset: 91830},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -109,28 +109,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2927, col: 8, offset: 92233},
+													pos: position{line: 2927, col: 8, offset: 92228},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2914, col: 12, offset: 92006},
+															pos: position{line: 2914, col: 12, offset: 92001},
 															run: (*parser).callonDocumentRawLine20,
 															expr: &choiceExpr{
-																pos: position{line: 2914, col: 13, offset: 92007},
+																pos: position{line: 2914, col: 13, offset: 92002},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 13, offset: 92007},
+																		pos:        position{line: 2914, col: 13, offset: 92002},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 20, offset: 92014},
+																		pos:        position{line: 2914, col: 20, offset: 92009},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 29, offset: 92023},
+																		pos:        position{line: 2914, col: 29, offset: 92018},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -139,9 +139,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2924, col: 8, offset: 92183},
+															pos: position{line: 2924, col: 8, offset: 92178},
 															expr: &anyMatcher{
-																line: 2924, col: 9, offset: 92184,
+																line: 2924, col: 9, offset: 92179,
 															},
 														},
 													},
@@ -202,10 +202,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 369, col: 39, offset: 11304},
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 10, offset: 91835},
+														pos: position{line: 2905, col: 10, offset: 91830},
 														run: (*parser).callonDocumentRawLine38,
 														expr: &charClassMatcher{
-															pos:        position{line: 2905, col: 10, offset: 91835},
+															pos:        position{line: 2905, col: 10, offset: 91830},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -214,28 +214,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2927, col: 8, offset: 92233},
+													pos: position{line: 2927, col: 8, offset: 92228},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2914, col: 12, offset: 92006},
+															pos: position{line: 2914, col: 12, offset: 92001},
 															run: (*parser).callonDocumentRawLine41,
 															expr: &choiceExpr{
-																pos: position{line: 2914, col: 13, offset: 92007},
+																pos: position{line: 2914, col: 13, offset: 92002},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 13, offset: 92007},
+																		pos:        position{line: 2914, col: 13, offset: 92002},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 20, offset: 92014},
+																		pos:        position{line: 2914, col: 20, offset: 92009},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 29, offset: 92023},
+																		pos:        position{line: 2914, col: 29, offset: 92018},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -244,9 +244,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2924, col: 8, offset: 92183},
+															pos: position{line: 2924, col: 8, offset: 92178},
 															expr: &anyMatcher{
-																line: 2924, col: 9, offset: 92184,
+																line: 2924, col: 9, offset: 92179,
 															},
 														},
 													},
@@ -324,10 +324,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 70, col: 97, offset: 1850},
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 10, offset: 91835},
+														pos: position{line: 2905, col: 10, offset: 91830},
 														run: (*parser).callonDocumentRawLine64,
 														expr: &charClassMatcher{
-															pos:        position{line: 2905, col: 10, offset: 91835},
+															pos:        position{line: 2905, col: 10, offset: 91830},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -336,9 +336,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2924, col: 8, offset: 92183},
+													pos: position{line: 2924, col: 8, offset: 92178},
 													expr: &anyMatcher{
-														line: 2924, col: 9, offset: 92184,
+														line: 2924, col: 9, offset: 92179,
 													},
 												},
 											},
@@ -410,10 +410,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 74, col: 99, offset: 2028},
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 10, offset: 91835},
+														pos: position{line: 2905, col: 10, offset: 91830},
 														run: (*parser).callonDocumentRawLine83,
 														expr: &charClassMatcher{
-															pos:        position{line: 2905, col: 10, offset: 91835},
+															pos:        position{line: 2905, col: 10, offset: 91830},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -422,9 +422,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2924, col: 8, offset: 92183},
+													pos: position{line: 2924, col: 8, offset: 92178},
 													expr: &anyMatcher{
-														line: 2924, col: 9, offset: 92184,
+														line: 2924, col: 9, offset: 92179,
 													},
 												},
 											},
@@ -920,24 +920,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2897, col: 12, offset: 91662},
+																pos: position{line: 2897, col: 12, offset: 91657},
 																run: (*parser).callonDocumentRawLine183,
 																expr: &seqExpr{
-																	pos: position{line: 2897, col: 13, offset: 91663},
+																	pos: position{line: 2897, col: 13, offset: 91658},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2897, col: 13, offset: 91663},
+																			pos: position{line: 2897, col: 13, offset: 91658},
 																			expr: &litMatcher{
-																				pos:        position{line: 2897, col: 13, offset: 91663},
+																				pos:        position{line: 2897, col: 13, offset: 91658},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2897, col: 18, offset: 91668},
+																			pos: position{line: 2897, col: 18, offset: 91663},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2897, col: 18, offset: 91668},
+																				pos:        position{line: 2897, col: 18, offset: 91663},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -953,10 +953,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 84, col: 35, offset: 2262},
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 10, offset: 91835},
+														pos: position{line: 2905, col: 10, offset: 91830},
 														run: (*parser).callonDocumentRawLine190,
 														expr: &charClassMatcher{
-															pos:        position{line: 2905, col: 10, offset: 91835},
+															pos:        position{line: 2905, col: 10, offset: 91830},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1036,10 +1036,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 85, col: 39, offset: 2308},
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 10, offset: 91835},
+														pos: position{line: 2905, col: 10, offset: 91830},
 														run: (*parser).callonDocumentRawLine207,
 														expr: &charClassMatcher{
-															pos:        position{line: 2905, col: 10, offset: 91835},
+															pos:        position{line: 2905, col: 10, offset: 91830},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1525,24 +1525,24 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2897, col: 12, offset: 91662},
+																pos: position{line: 2897, col: 12, offset: 91657},
 																run: (*parser).callonDocumentRawLine302,
 																expr: &seqExpr{
-																	pos: position{line: 2897, col: 13, offset: 91663},
+																	pos: position{line: 2897, col: 13, offset: 91658},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2897, col: 13, offset: 91663},
+																			pos: position{line: 2897, col: 13, offset: 91658},
 																			expr: &litMatcher{
-																				pos:        position{line: 2897, col: 13, offset: 91663},
+																				pos:        position{line: 2897, col: 13, offset: 91658},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2897, col: 18, offset: 91668},
+																			pos: position{line: 2897, col: 18, offset: 91663},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2897, col: 18, offset: 91668},
+																				pos:        position{line: 2897, col: 18, offset: 91663},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -1564,10 +1564,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 87, col: 5, offset: 2360},
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 10, offset: 91835},
+														pos: position{line: 2905, col: 10, offset: 91830},
 														run: (*parser).callonDocumentRawLine310,
 														expr: &charClassMatcher{
-															pos:        position{line: 2905, col: 10, offset: 91835},
+															pos:        position{line: 2905, col: 10, offset: 91830},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1576,9 +1576,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2924, col: 8, offset: 92183},
+													pos: position{line: 2924, col: 8, offset: 92178},
 													expr: &anyMatcher{
-														line: 2924, col: 9, offset: 92184,
+														line: 2924, col: 9, offset: 92179,
 													},
 												},
 											},
@@ -1653,10 +1653,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 123, col: 98, offset: 3416},
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 10, offset: 91835},
+														pos: position{line: 2905, col: 10, offset: 91830},
 														run: (*parser).callonDocumentRawLine330,
 														expr: &charClassMatcher{
-															pos:        position{line: 2905, col: 10, offset: 91835},
+															pos:        position{line: 2905, col: 10, offset: 91830},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -1665,9 +1665,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2924, col: 8, offset: 92183},
+													pos: position{line: 2924, col: 8, offset: 92178},
 													expr: &anyMatcher{
-														line: 2924, col: 9, offset: 92184,
+														line: 2924, col: 9, offset: 92179,
 													},
 												},
 											},
@@ -1682,7 +1682,7 @@ var g = &grammar{
 												&notExpr{
 													pos: position{line: 738, col: 5, offset: 23528},
 													expr: &charClassMatcher{
-														pos:        position{line: 2795, col: 13, offset: 88930},
+														pos:        position{line: 2795, col: 13, offset: 88925},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -1732,10 +1732,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 756, col: 8, offset: 24172},
 																			expr: &actionExpr{
-																				pos: position{line: 2905, col: 10, offset: 91835},
+																				pos: position{line: 2905, col: 10, offset: 91830},
 																				run: (*parser).callonDocumentRawLine349,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2905, col: 10, offset: 91835},
+																					pos:        position{line: 2905, col: 10, offset: 91830},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1744,28 +1744,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2927, col: 8, offset: 92233},
+																			pos: position{line: 2927, col: 8, offset: 92228},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2914, col: 12, offset: 92006},
+																					pos: position{line: 2914, col: 12, offset: 92001},
 																					run: (*parser).callonDocumentRawLine352,
 																					expr: &choiceExpr{
-																						pos: position{line: 2914, col: 13, offset: 92007},
+																						pos: position{line: 2914, col: 13, offset: 92002},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 13, offset: 92007},
+																								pos:        position{line: 2914, col: 13, offset: 92002},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 20, offset: 92014},
+																								pos:        position{line: 2914, col: 20, offset: 92009},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 29, offset: 92023},
+																								pos:        position{line: 2914, col: 29, offset: 92018},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1774,9 +1774,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -1821,10 +1821,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 763, col: 8, offset: 24420},
 																			expr: &actionExpr{
-																				pos: position{line: 2905, col: 10, offset: 91835},
+																				pos: position{line: 2905, col: 10, offset: 91830},
 																				run: (*parser).callonDocumentRawLine368,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2905, col: 10, offset: 91835},
+																					pos:        position{line: 2905, col: 10, offset: 91830},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1833,28 +1833,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2927, col: 8, offset: 92233},
+																			pos: position{line: 2927, col: 8, offset: 92228},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2914, col: 12, offset: 92006},
+																					pos: position{line: 2914, col: 12, offset: 92001},
 																					run: (*parser).callonDocumentRawLine371,
 																					expr: &choiceExpr{
-																						pos: position{line: 2914, col: 13, offset: 92007},
+																						pos: position{line: 2914, col: 13, offset: 92002},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 13, offset: 92007},
+																								pos:        position{line: 2914, col: 13, offset: 92002},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 20, offset: 92014},
+																								pos:        position{line: 2914, col: 20, offset: 92009},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 29, offset: 92023},
+																								pos:        position{line: 2914, col: 29, offset: 92018},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1863,9 +1863,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -1906,10 +1906,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 774, col: 52, offset: 24832},
 																			expr: &actionExpr{
-																				pos: position{line: 2905, col: 10, offset: 91835},
+																				pos: position{line: 2905, col: 10, offset: 91830},
 																				run: (*parser).callonDocumentRawLine386,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2905, col: 10, offset: 91835},
+																					pos:        position{line: 2905, col: 10, offset: 91830},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -1918,28 +1918,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2927, col: 8, offset: 92233},
+																			pos: position{line: 2927, col: 8, offset: 92228},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2914, col: 12, offset: 92006},
+																					pos: position{line: 2914, col: 12, offset: 92001},
 																					run: (*parser).callonDocumentRawLine389,
 																					expr: &choiceExpr{
-																						pos: position{line: 2914, col: 13, offset: 92007},
+																						pos: position{line: 2914, col: 13, offset: 92002},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 13, offset: 92007},
+																								pos:        position{line: 2914, col: 13, offset: 92002},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 20, offset: 92014},
+																								pos:        position{line: 2914, col: 20, offset: 92009},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 29, offset: 92023},
+																								pos:        position{line: 2914, col: 29, offset: 92018},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -1948,9 +1948,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -1995,10 +1995,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 770, col: 8, offset: 24666},
 																			expr: &actionExpr{
-																				pos: position{line: 2905, col: 10, offset: 91835},
+																				pos: position{line: 2905, col: 10, offset: 91830},
 																				run: (*parser).callonDocumentRawLine405,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2905, col: 10, offset: 91835},
+																					pos:        position{line: 2905, col: 10, offset: 91830},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2007,28 +2007,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2927, col: 8, offset: 92233},
+																			pos: position{line: 2927, col: 8, offset: 92228},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2914, col: 12, offset: 92006},
+																					pos: position{line: 2914, col: 12, offset: 92001},
 																					run: (*parser).callonDocumentRawLine408,
 																					expr: &choiceExpr{
-																						pos: position{line: 2914, col: 13, offset: 92007},
+																						pos: position{line: 2914, col: 13, offset: 92002},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 13, offset: 92007},
+																								pos:        position{line: 2914, col: 13, offset: 92002},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 20, offset: 92014},
+																								pos:        position{line: 2914, col: 20, offset: 92009},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 29, offset: 92023},
+																								pos:        position{line: 2914, col: 29, offset: 92018},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2037,9 +2037,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -2084,10 +2084,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 785, col: 8, offset: 25204},
 																			expr: &actionExpr{
-																				pos: position{line: 2905, col: 10, offset: 91835},
+																				pos: position{line: 2905, col: 10, offset: 91830},
 																				run: (*parser).callonDocumentRawLine424,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2905, col: 10, offset: 91835},
+																					pos:        position{line: 2905, col: 10, offset: 91830},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2096,28 +2096,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2927, col: 8, offset: 92233},
+																			pos: position{line: 2927, col: 8, offset: 92228},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2914, col: 12, offset: 92006},
+																					pos: position{line: 2914, col: 12, offset: 92001},
 																					run: (*parser).callonDocumentRawLine427,
 																					expr: &choiceExpr{
-																						pos: position{line: 2914, col: 13, offset: 92007},
+																						pos: position{line: 2914, col: 13, offset: 92002},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 13, offset: 92007},
+																								pos:        position{line: 2914, col: 13, offset: 92002},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 20, offset: 92014},
+																								pos:        position{line: 2914, col: 20, offset: 92009},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 29, offset: 92023},
+																								pos:        position{line: 2914, col: 29, offset: 92018},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2126,9 +2126,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -2173,10 +2173,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 799, col: 8, offset: 25680},
 																			expr: &actionExpr{
-																				pos: position{line: 2905, col: 10, offset: 91835},
+																				pos: position{line: 2905, col: 10, offset: 91830},
 																				run: (*parser).callonDocumentRawLine443,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2905, col: 10, offset: 91835},
+																					pos:        position{line: 2905, col: 10, offset: 91830},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2185,28 +2185,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2927, col: 8, offset: 92233},
+																			pos: position{line: 2927, col: 8, offset: 92228},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2914, col: 12, offset: 92006},
+																					pos: position{line: 2914, col: 12, offset: 92001},
 																					run: (*parser).callonDocumentRawLine446,
 																					expr: &choiceExpr{
-																						pos: position{line: 2914, col: 13, offset: 92007},
+																						pos: position{line: 2914, col: 13, offset: 92002},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 13, offset: 92007},
+																								pos:        position{line: 2914, col: 13, offset: 92002},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 20, offset: 92014},
+																								pos:        position{line: 2914, col: 20, offset: 92009},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 29, offset: 92023},
+																								pos:        position{line: 2914, col: 29, offset: 92018},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2215,9 +2215,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -2262,10 +2262,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 806, col: 8, offset: 25932},
 																			expr: &actionExpr{
-																				pos: position{line: 2905, col: 10, offset: 91835},
+																				pos: position{line: 2905, col: 10, offset: 91830},
 																				run: (*parser).callonDocumentRawLine462,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2905, col: 10, offset: 91835},
+																					pos:        position{line: 2905, col: 10, offset: 91830},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2274,28 +2274,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2927, col: 8, offset: 92233},
+																			pos: position{line: 2927, col: 8, offset: 92228},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2914, col: 12, offset: 92006},
+																					pos: position{line: 2914, col: 12, offset: 92001},
 																					run: (*parser).callonDocumentRawLine465,
 																					expr: &choiceExpr{
-																						pos: position{line: 2914, col: 13, offset: 92007},
+																						pos: position{line: 2914, col: 13, offset: 92002},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 13, offset: 92007},
+																								pos:        position{line: 2914, col: 13, offset: 92002},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 20, offset: 92014},
+																								pos:        position{line: 2914, col: 20, offset: 92009},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 29, offset: 92023},
+																								pos:        position{line: 2914, col: 29, offset: 92018},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2304,9 +2304,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -2351,10 +2351,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 813, col: 8, offset: 26182},
 																			expr: &actionExpr{
-																				pos: position{line: 2905, col: 10, offset: 91835},
+																				pos: position{line: 2905, col: 10, offset: 91830},
 																				run: (*parser).callonDocumentRawLine481,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2905, col: 10, offset: 91835},
+																					pos:        position{line: 2905, col: 10, offset: 91830},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2363,28 +2363,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2927, col: 8, offset: 92233},
+																			pos: position{line: 2927, col: 8, offset: 92228},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2914, col: 12, offset: 92006},
+																					pos: position{line: 2914, col: 12, offset: 92001},
 																					run: (*parser).callonDocumentRawLine484,
 																					expr: &choiceExpr{
-																						pos: position{line: 2914, col: 13, offset: 92007},
+																						pos: position{line: 2914, col: 13, offset: 92002},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 13, offset: 92007},
+																								pos:        position{line: 2914, col: 13, offset: 92002},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 20, offset: 92014},
+																								pos:        position{line: 2914, col: 20, offset: 92009},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 29, offset: 92023},
+																								pos:        position{line: 2914, col: 29, offset: 92018},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2393,9 +2393,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -2440,10 +2440,10 @@ var g = &grammar{
 																		&zeroOrMoreExpr{
 																			pos: position{line: 820, col: 8, offset: 26428},
 																			expr: &actionExpr{
-																				pos: position{line: 2905, col: 10, offset: 91835},
+																				pos: position{line: 2905, col: 10, offset: 91830},
 																				run: (*parser).callonDocumentRawLine500,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2905, col: 10, offset: 91835},
+																					pos:        position{line: 2905, col: 10, offset: 91830},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -2452,28 +2452,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2927, col: 8, offset: 92233},
+																			pos: position{line: 2927, col: 8, offset: 92228},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2914, col: 12, offset: 92006},
+																					pos: position{line: 2914, col: 12, offset: 92001},
 																					run: (*parser).callonDocumentRawLine503,
 																					expr: &choiceExpr{
-																						pos: position{line: 2914, col: 13, offset: 92007},
+																						pos: position{line: 2914, col: 13, offset: 92002},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 13, offset: 92007},
+																								pos:        position{line: 2914, col: 13, offset: 92002},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 20, offset: 92014},
+																								pos:        position{line: 2914, col: 20, offset: 92009},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 29, offset: 92023},
+																								pos:        position{line: 2914, col: 29, offset: 92018},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -2482,9 +2482,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -2534,12 +2534,12 @@ var g = &grammar{
 													run: (*parser).callonDocumentRawLine518,
 												},
 												&actionExpr{
-													pos: position{line: 2909, col: 11, offset: 91896},
+													pos: position{line: 2909, col: 11, offset: 91891},
 													run: (*parser).callonDocumentRawLine519,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2909, col: 11, offset: 91896},
+														pos: position{line: 2909, col: 11, offset: 91891},
 														expr: &charClassMatcher{
-															pos:        position{line: 2909, col: 11, offset: 91896},
+															pos:        position{line: 2909, col: 11, offset: 91891},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -2548,12 +2548,12 @@ var g = &grammar{
 													},
 												},
 												&actionExpr{
-													pos: position{line: 2855, col: 14, offset: 90428},
+													pos: position{line: 2855, col: 14, offset: 90423},
 													run: (*parser).callonDocumentRawLine522,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2855, col: 14, offset: 90428},
+														pos: position{line: 2855, col: 14, offset: 90423},
 														expr: &charClassMatcher{
-															pos:        position{line: 2855, col: 14, offset: 90428},
+															pos:        position{line: 2855, col: 14, offset: 90423},
 															val:        "[^\\r\\n]",
 															chars:      []rune{'\r', '\n'},
 															ignoreCase: false,
@@ -2562,9 +2562,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2924, col: 8, offset: 92183},
+													pos: position{line: 2924, col: 8, offset: 92178},
 													expr: &anyMatcher{
-														line: 2924, col: 9, offset: 92184,
+														line: 2924, col: 9, offset: 92179,
 													},
 												},
 											},
@@ -2574,9 +2574,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2924, col: 8, offset: 92183},
+							pos: position{line: 2924, col: 8, offset: 92178},
 							expr: &anyMatcher{
-								line: 2924, col: 9, offset: 92184,
+								line: 2924, col: 9, offset: 92179,
 							},
 						},
 					},
@@ -2611,41 +2611,41 @@ var g = &grammar{
 											pos:   position{line: 137, col: 9, offset: 3809},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2859, col: 17, offset: 90498},
+												pos: position{line: 2859, col: 17, offset: 90493},
 												run: (*parser).callonFileInclusion8,
 												expr: &labeledExpr{
-													pos:   position{line: 2859, col: 17, offset: 90498},
+													pos:   position{line: 2859, col: 17, offset: 90493},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 5, offset: 90952},
+														pos: position{line: 2876, col: 5, offset: 90947},
 														run: (*parser).callonFileInclusion10,
 														expr: &labeledExpr{
-															pos:   position{line: 2876, col: 5, offset: 90952},
+															pos:   position{line: 2876, col: 5, offset: 90947},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2876, col: 14, offset: 90961},
+																pos: position{line: 2876, col: 14, offset: 90956},
 																expr: &choiceExpr{
-																	pos: position{line: 2877, col: 9, offset: 90971},
+																	pos: position{line: 2877, col: 9, offset: 90966},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 9, offset: 90971},
+																			pos: position{line: 2877, col: 9, offset: 90966},
 																			run: (*parser).callonFileInclusion14,
 																			expr: &seqExpr{
-																				pos: position{line: 2877, col: 9, offset: 90971},
+																				pos: position{line: 2877, col: 9, offset: 90966},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2877, col: 9, offset: 90971},
+																						pos: position{line: 2877, col: 9, offset: 90966},
 																						expr: &litMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 90972},
+																							pos:        position{line: 2877, col: 10, offset: 90967},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2878, col: 9, offset: 91000},
+																						pos: position{line: 2878, col: 9, offset: 90995},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 10, offset: 91001},
+																							pos:        position{line: 2878, col: 10, offset: 90996},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -2656,27 +2656,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2881, col: 11, offset: 91213},
+																			pos: position{line: 2881, col: 11, offset: 91208},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2881, col: 11, offset: 91213},
+																					pos:        position{line: 2881, col: 11, offset: 91208},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2881, col: 19, offset: 91221},
+																					pos: position{line: 2881, col: 19, offset: 91216},
 																					expr: &seqExpr{
-																						pos: position{line: 2881, col: 21, offset: 91223},
+																						pos: position{line: 2881, col: 21, offset: 91218},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2881, col: 21, offset: 91223},
+																								pos: position{line: 2881, col: 21, offset: 91218},
 																								expr: &actionExpr{
-																									pos: position{line: 2905, col: 10, offset: 91835},
+																									pos: position{line: 2905, col: 10, offset: 91830},
 																									run: (*parser).callonFileInclusion25,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2905, col: 10, offset: 91835},
+																										pos:        position{line: 2905, col: 10, offset: 91830},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -2685,11 +2685,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 28, offset: 91230},
+																								pos: position{line: 2881, col: 28, offset: 91225},
 																								expr: &notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -3084,10 +3084,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2884, col: 11, offset: 91350},
+																			pos: position{line: 2884, col: 11, offset: 91345},
 																			run: (*parser).callonFileInclusion107,
 																			expr: &litMatcher{
-																				pos:        position{line: 2884, col: 11, offset: 91350},
+																				pos:        position{line: 2884, col: 11, offset: 91345},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -3116,10 +3116,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 142, col: 5, offset: 4005},
 							expr: &actionExpr{
-								pos: position{line: 2905, col: 10, offset: 91835},
+								pos: position{line: 2905, col: 10, offset: 91830},
 								run: (*parser).callonFileInclusion112,
 								expr: &charClassMatcher{
-									pos:        position{line: 2905, col: 10, offset: 91835},
+									pos:        position{line: 2905, col: 10, offset: 91830},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -3128,28 +3128,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2927, col: 8, offset: 92233},
+							pos: position{line: 2927, col: 8, offset: 92228},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2914, col: 12, offset: 92006},
+									pos: position{line: 2914, col: 12, offset: 92001},
 									run: (*parser).callonFileInclusion115,
 									expr: &choiceExpr{
-										pos: position{line: 2914, col: 13, offset: 92007},
+										pos: position{line: 2914, col: 13, offset: 92002},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2914, col: 13, offset: 92007},
+												pos:        position{line: 2914, col: 13, offset: 92002},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2914, col: 20, offset: 92014},
+												pos:        position{line: 2914, col: 20, offset: 92009},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2914, col: 29, offset: 92023},
+												pos:        position{line: 2914, col: 29, offset: 92018},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -3158,9 +3158,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2924, col: 8, offset: 92183},
+									pos: position{line: 2924, col: 8, offset: 92178},
 									expr: &anyMatcher{
-										line: 2924, col: 9, offset: 92184,
+										line: 2924, col: 9, offset: 92179,
 									},
 								},
 							},
@@ -3206,24 +3206,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 19, offset: 4707},
 																			label: "start",
 																			expr: &actionExpr{
-																				pos: position{line: 2897, col: 12, offset: 91662},
+																				pos: position{line: 2897, col: 12, offset: 91657},
 																				run: (*parser).callonLineRanges12,
 																				expr: &seqExpr{
-																					pos: position{line: 2897, col: 13, offset: 91663},
+																					pos: position{line: 2897, col: 13, offset: 91658},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2897, col: 13, offset: 91663},
+																							pos: position{line: 2897, col: 13, offset: 91658},
 																							expr: &litMatcher{
-																								pos:        position{line: 2897, col: 13, offset: 91663},
+																								pos:        position{line: 2897, col: 13, offset: 91658},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2897, col: 18, offset: 91668},
+																							pos: position{line: 2897, col: 18, offset: 91663},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2897, col: 18, offset: 91668},
+																								pos:        position{line: 2897, col: 18, offset: 91663},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3244,24 +3244,24 @@ var g = &grammar{
 																			pos:   position{line: 165, col: 40, offset: 4728},
 																			label: "end",
 																			expr: &actionExpr{
-																				pos: position{line: 2897, col: 12, offset: 91662},
+																				pos: position{line: 2897, col: 12, offset: 91657},
 																				run: (*parser).callonLineRanges20,
 																				expr: &seqExpr{
-																					pos: position{line: 2897, col: 13, offset: 91663},
+																					pos: position{line: 2897, col: 13, offset: 91658},
 																					exprs: []interface{}{
 																						&zeroOrOneExpr{
-																							pos: position{line: 2897, col: 13, offset: 91663},
+																							pos: position{line: 2897, col: 13, offset: 91658},
 																							expr: &litMatcher{
-																								pos:        position{line: 2897, col: 13, offset: 91663},
+																								pos:        position{line: 2897, col: 13, offset: 91658},
 																								val:        "-",
 																								ignoreCase: false,
 																								want:       "\"-\"",
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 2897, col: 18, offset: 91668},
+																							pos: position{line: 2897, col: 18, offset: 91663},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2897, col: 18, offset: 91668},
+																								pos:        position{line: 2897, col: 18, offset: 91663},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -3282,24 +3282,24 @@ var g = &grammar{
 																	pos:   position{line: 169, col: 20, offset: 4849},
 																	label: "singleline",
 																	expr: &actionExpr{
-																		pos: position{line: 2897, col: 12, offset: 91662},
+																		pos: position{line: 2897, col: 12, offset: 91657},
 																		run: (*parser).callonLineRanges28,
 																		expr: &seqExpr{
-																			pos: position{line: 2897, col: 13, offset: 91663},
+																			pos: position{line: 2897, col: 13, offset: 91658},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2897, col: 13, offset: 91663},
+																					pos: position{line: 2897, col: 13, offset: 91658},
 																					expr: &litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91663},
+																						pos:        position{line: 2897, col: 13, offset: 91658},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2897, col: 18, offset: 91668},
+																					pos: position{line: 2897, col: 18, offset: 91663},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2897, col: 18, offset: 91668},
+																						pos:        position{line: 2897, col: 18, offset: 91663},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -3348,24 +3348,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 19, offset: 4707},
 																								label: "start",
 																								expr: &actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91662},
+																									pos: position{line: 2897, col: 12, offset: 91657},
 																									run: (*parser).callonLineRanges44,
 																									expr: &seqExpr{
-																										pos: position{line: 2897, col: 13, offset: 91663},
+																										pos: position{line: 2897, col: 13, offset: 91658},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2897, col: 13, offset: 91663},
+																												pos: position{line: 2897, col: 13, offset: 91658},
 																												expr: &litMatcher{
-																													pos:        position{line: 2897, col: 13, offset: 91663},
+																													pos:        position{line: 2897, col: 13, offset: 91658},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2897, col: 18, offset: 91668},
+																												pos: position{line: 2897, col: 18, offset: 91663},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2897, col: 18, offset: 91668},
+																													pos:        position{line: 2897, col: 18, offset: 91663},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3386,24 +3386,24 @@ var g = &grammar{
 																								pos:   position{line: 165, col: 40, offset: 4728},
 																								label: "end",
 																								expr: &actionExpr{
-																									pos: position{line: 2897, col: 12, offset: 91662},
+																									pos: position{line: 2897, col: 12, offset: 91657},
 																									run: (*parser).callonLineRanges52,
 																									expr: &seqExpr{
-																										pos: position{line: 2897, col: 13, offset: 91663},
+																										pos: position{line: 2897, col: 13, offset: 91658},
 																										exprs: []interface{}{
 																											&zeroOrOneExpr{
-																												pos: position{line: 2897, col: 13, offset: 91663},
+																												pos: position{line: 2897, col: 13, offset: 91658},
 																												expr: &litMatcher{
-																													pos:        position{line: 2897, col: 13, offset: 91663},
+																													pos:        position{line: 2897, col: 13, offset: 91658},
 																													val:        "-",
 																													ignoreCase: false,
 																													want:       "\"-\"",
 																												},
 																											},
 																											&oneOrMoreExpr{
-																												pos: position{line: 2897, col: 18, offset: 91668},
+																												pos: position{line: 2897, col: 18, offset: 91663},
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2897, col: 18, offset: 91668},
+																													pos:        position{line: 2897, col: 18, offset: 91663},
 																													val:        "[0-9]",
 																													ranges:     []rune{'0', '9'},
 																													ignoreCase: false,
@@ -3424,24 +3424,24 @@ var g = &grammar{
 																						pos:   position{line: 169, col: 20, offset: 4849},
 																						label: "singleline",
 																						expr: &actionExpr{
-																							pos: position{line: 2897, col: 12, offset: 91662},
+																							pos: position{line: 2897, col: 12, offset: 91657},
 																							run: (*parser).callonLineRanges60,
 																							expr: &seqExpr{
-																								pos: position{line: 2897, col: 13, offset: 91663},
+																								pos: position{line: 2897, col: 13, offset: 91658},
 																								exprs: []interface{}{
 																									&zeroOrOneExpr{
-																										pos: position{line: 2897, col: 13, offset: 91663},
+																										pos: position{line: 2897, col: 13, offset: 91658},
 																										expr: &litMatcher{
-																											pos:        position{line: 2897, col: 13, offset: 91663},
+																											pos:        position{line: 2897, col: 13, offset: 91658},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																									},
 																									&oneOrMoreExpr{
-																										pos: position{line: 2897, col: 18, offset: 91668},
+																										pos: position{line: 2897, col: 18, offset: 91663},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2897, col: 18, offset: 91668},
+																											pos:        position{line: 2897, col: 18, offset: 91663},
 																											val:        "[0-9]",
 																											ranges:     []rune{'0', '9'},
 																											ignoreCase: false,
@@ -3474,24 +3474,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 19, offset: 4707},
 													label: "start",
 													expr: &actionExpr{
-														pos: position{line: 2897, col: 12, offset: 91662},
+														pos: position{line: 2897, col: 12, offset: 91657},
 														run: (*parser).callonLineRanges69,
 														expr: &seqExpr{
-															pos: position{line: 2897, col: 13, offset: 91663},
+															pos: position{line: 2897, col: 13, offset: 91658},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2897, col: 13, offset: 91663},
+																	pos: position{line: 2897, col: 13, offset: 91658},
 																	expr: &litMatcher{
-																		pos:        position{line: 2897, col: 13, offset: 91663},
+																		pos:        position{line: 2897, col: 13, offset: 91658},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2897, col: 18, offset: 91668},
+																	pos: position{line: 2897, col: 18, offset: 91663},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2897, col: 18, offset: 91668},
+																		pos:        position{line: 2897, col: 18, offset: 91663},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3512,24 +3512,24 @@ var g = &grammar{
 													pos:   position{line: 165, col: 40, offset: 4728},
 													label: "end",
 													expr: &actionExpr{
-														pos: position{line: 2897, col: 12, offset: 91662},
+														pos: position{line: 2897, col: 12, offset: 91657},
 														run: (*parser).callonLineRanges77,
 														expr: &seqExpr{
-															pos: position{line: 2897, col: 13, offset: 91663},
+															pos: position{line: 2897, col: 13, offset: 91658},
 															exprs: []interface{}{
 																&zeroOrOneExpr{
-																	pos: position{line: 2897, col: 13, offset: 91663},
+																	pos: position{line: 2897, col: 13, offset: 91658},
 																	expr: &litMatcher{
-																		pos:        position{line: 2897, col: 13, offset: 91663},
+																		pos:        position{line: 2897, col: 13, offset: 91658},
 																		val:        "-",
 																		ignoreCase: false,
 																		want:       "\"-\"",
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 2897, col: 18, offset: 91668},
+																	pos: position{line: 2897, col: 18, offset: 91663},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2897, col: 18, offset: 91668},
+																		pos:        position{line: 2897, col: 18, offset: 91663},
 																		val:        "[0-9]",
 																		ranges:     []rune{'0', '9'},
 																		ignoreCase: false,
@@ -3550,24 +3550,24 @@ var g = &grammar{
 											pos:   position{line: 169, col: 20, offset: 4849},
 											label: "singleline",
 											expr: &actionExpr{
-												pos: position{line: 2897, col: 12, offset: 91662},
+												pos: position{line: 2897, col: 12, offset: 91657},
 												run: (*parser).callonLineRanges85,
 												expr: &seqExpr{
-													pos: position{line: 2897, col: 13, offset: 91663},
+													pos: position{line: 2897, col: 13, offset: 91658},
 													exprs: []interface{}{
 														&zeroOrOneExpr{
-															pos: position{line: 2897, col: 13, offset: 91663},
+															pos: position{line: 2897, col: 13, offset: 91658},
 															expr: &litMatcher{
-																pos:        position{line: 2897, col: 13, offset: 91663},
+																pos:        position{line: 2897, col: 13, offset: 91658},
 																val:        "-",
 																ignoreCase: false,
 																want:       "\"-\"",
 															},
 														},
 														&oneOrMoreExpr{
-															pos: position{line: 2897, col: 18, offset: 91668},
+															pos: position{line: 2897, col: 18, offset: 91663},
 															expr: &charClassMatcher{
-																pos:        position{line: 2897, col: 18, offset: 91668},
+																pos:        position{line: 2897, col: 18, offset: 91663},
 																val:        "[0-9]",
 																ranges:     []rune{'0', '9'},
 																ignoreCase: false,
@@ -3583,9 +3583,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2924, col: 8, offset: 92183},
+							pos: position{line: 2924, col: 8, offset: 92178},
 							expr: &anyMatcher{
-								line: 2924, col: 9, offset: 92184,
+								line: 2924, col: 9, offset: 92179,
 							},
 						},
 					},
@@ -3626,12 +3626,12 @@ var g = &grammar{
 																pos: position{line: 187, col: 18, offset: 5450},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2799, col: 14, offset: 89004},
+																		pos: position{line: 2799, col: 14, offset: 88999},
 																		run: (*parser).callonTagRanges11,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2799, col: 14, offset: 89004},
+																			pos: position{line: 2799, col: 14, offset: 88999},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2799, col: 14, offset: 89004},
+																				pos:        position{line: 2799, col: 14, offset: 88999},
 																				val:        "[\\pL\\pN]",
 																				classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																				ignoreCase: false,
@@ -3692,12 +3692,12 @@ var g = &grammar{
 																		pos: position{line: 189, col: 18, offset: 5547},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2799, col: 14, offset: 89004},
+																				pos: position{line: 2799, col: 14, offset: 88999},
 																				run: (*parser).callonTagRanges26,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2799, col: 14, offset: 89004},
+																					pos: position{line: 2799, col: 14, offset: 88999},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2799, col: 14, offset: 89004},
+																						pos:        position{line: 2799, col: 14, offset: 88999},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -3778,12 +3778,12 @@ var g = &grammar{
 																					pos: position{line: 187, col: 18, offset: 5450},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2799, col: 14, offset: 89004},
+																							pos: position{line: 2799, col: 14, offset: 88999},
 																							run: (*parser).callonTagRanges46,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2799, col: 14, offset: 89004},
+																								pos: position{line: 2799, col: 14, offset: 88999},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2799, col: 14, offset: 89004},
+																									pos:        position{line: 2799, col: 14, offset: 88999},
 																									val:        "[\\pL\\pN]",
 																									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																									ignoreCase: false,
@@ -3844,12 +3844,12 @@ var g = &grammar{
 																							pos: position{line: 189, col: 18, offset: 5547},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2799, col: 14, offset: 89004},
+																									pos: position{line: 2799, col: 14, offset: 88999},
 																									run: (*parser).callonTagRanges61,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2799, col: 14, offset: 89004},
+																										pos: position{line: 2799, col: 14, offset: 88999},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2799, col: 14, offset: 89004},
+																											pos:        position{line: 2799, col: 14, offset: 88999},
 																											val:        "[\\pL\\pN]",
 																											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																											ignoreCase: false,
@@ -3906,9 +3906,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2924, col: 8, offset: 92183},
+							pos: position{line: 2924, col: 8, offset: 92178},
 							expr: &anyMatcher{
-								line: 2924, col: 9, offset: 92184,
+								line: 2924, col: 9, offset: 92179,
 							},
 						},
 					},
@@ -3951,12 +3951,12 @@ var g = &grammar{
 															pos: position{line: 207, col: 38, offset: 6101},
 															run: (*parser).callonIncludedFileLine10,
 															expr: &actionExpr{
-																pos: position{line: 2799, col: 14, offset: 89004},
+																pos: position{line: 2799, col: 14, offset: 88999},
 																run: (*parser).callonIncludedFileLine11,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2799, col: 14, offset: 89004},
+																	pos: position{line: 2799, col: 14, offset: 88999},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2799, col: 14, offset: 89004},
+																		pos:        position{line: 2799, col: 14, offset: 88999},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -3994,12 +3994,12 @@ var g = &grammar{
 															pos: position{line: 211, col: 36, offset: 6249},
 															run: (*parser).callonIncludedFileLine19,
 															expr: &actionExpr{
-																pos: position{line: 2799, col: 14, offset: 89004},
+																pos: position{line: 2799, col: 14, offset: 88999},
 																run: (*parser).callonIncludedFileLine20,
 																expr: &oneOrMoreExpr{
-																	pos: position{line: 2799, col: 14, offset: 89004},
+																	pos: position{line: 2799, col: 14, offset: 88999},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2799, col: 14, offset: 89004},
+																		pos:        position{line: 2799, col: 14, offset: 88999},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -4030,28 +4030,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2927, col: 8, offset: 92233},
+							pos: position{line: 2927, col: 8, offset: 92228},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2914, col: 12, offset: 92006},
+									pos: position{line: 2914, col: 12, offset: 92001},
 									run: (*parser).callonIncludedFileLine27,
 									expr: &choiceExpr{
-										pos: position{line: 2914, col: 13, offset: 92007},
+										pos: position{line: 2914, col: 13, offset: 92002},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2914, col: 13, offset: 92007},
+												pos:        position{line: 2914, col: 13, offset: 92002},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2914, col: 20, offset: 92014},
+												pos:        position{line: 2914, col: 20, offset: 92009},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2914, col: 29, offset: 92023},
+												pos:        position{line: 2914, col: 29, offset: 92018},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -4060,9 +4060,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2924, col: 8, offset: 92183},
+									pos: position{line: 2924, col: 8, offset: 92178},
 									expr: &anyMatcher{
-										line: 2924, col: 9, offset: 92184,
+										line: 2924, col: 9, offset: 92179,
 									},
 								},
 							},
@@ -4081,9 +4081,9 @@ var g = &grammar{
 					pos: position{line: 228, col: 5, offset: 6799},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2922, col: 11, offset: 92169},
+							pos: position{line: 2922, col: 11, offset: 92164},
 							expr: &anyMatcher{
-								line: 2922, col: 13, offset: 92171,
+								line: 2922, col: 13, offset: 92166,
 							},
 						},
 						&labeledExpr{
@@ -4178,10 +4178,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 367, col: 49, offset: 11183},
 														expr: &actionExpr{
-															pos: position{line: 2905, col: 10, offset: 91835},
+															pos: position{line: 2905, col: 10, offset: 91830},
 															run: (*parser).callonDocumentFragment27,
 															expr: &charClassMatcher{
-																pos:        position{line: 2905, col: 10, offset: 91835},
+																pos:        position{line: 2905, col: 10, offset: 91830},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4190,28 +4190,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2927, col: 8, offset: 92233},
+														pos: position{line: 2927, col: 8, offset: 92228},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2914, col: 12, offset: 92006},
+																pos: position{line: 2914, col: 12, offset: 92001},
 																run: (*parser).callonDocumentFragment30,
 																expr: &choiceExpr{
-																	pos: position{line: 2914, col: 13, offset: 92007},
+																	pos: position{line: 2914, col: 13, offset: 92002},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 13, offset: 92007},
+																			pos:        position{line: 2914, col: 13, offset: 92002},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 20, offset: 92014},
+																			pos:        position{line: 2914, col: 20, offset: 92009},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 29, offset: 92023},
+																			pos:        position{line: 2914, col: 29, offset: 92018},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4220,9 +4220,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2924, col: 8, offset: 92183},
+																pos: position{line: 2924, col: 8, offset: 92178},
 																expr: &anyMatcher{
-																	line: 2924, col: 9, offset: 92184,
+																	line: 2924, col: 9, offset: 92179,
 																},
 															},
 														},
@@ -4283,10 +4283,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 369, col: 39, offset: 11304},
 														expr: &actionExpr{
-															pos: position{line: 2905, col: 10, offset: 91835},
+															pos: position{line: 2905, col: 10, offset: 91830},
 															run: (*parser).callonDocumentFragment48,
 															expr: &charClassMatcher{
-																pos:        position{line: 2905, col: 10, offset: 91835},
+																pos:        position{line: 2905, col: 10, offset: 91830},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4295,28 +4295,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2927, col: 8, offset: 92233},
+														pos: position{line: 2927, col: 8, offset: 92228},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2914, col: 12, offset: 92006},
+																pos: position{line: 2914, col: 12, offset: 92001},
 																run: (*parser).callonDocumentFragment51,
 																expr: &choiceExpr{
-																	pos: position{line: 2914, col: 13, offset: 92007},
+																	pos: position{line: 2914, col: 13, offset: 92002},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 13, offset: 92007},
+																			pos:        position{line: 2914, col: 13, offset: 92002},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 20, offset: 92014},
+																			pos:        position{line: 2914, col: 20, offset: 92009},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 29, offset: 92023},
+																			pos:        position{line: 2914, col: 29, offset: 92018},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4325,9 +4325,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2924, col: 8, offset: 92183},
+																pos: position{line: 2924, col: 8, offset: 92178},
 																expr: &anyMatcher{
-																	line: 2924, col: 9, offset: 92184,
+																	line: 2924, col: 9, offset: 92179,
 																},
 															},
 														},
@@ -4342,18 +4342,18 @@ var g = &grammar{
 												pos: position{line: 687, col: 14, offset: 21867},
 												exprs: []interface{}{
 													&andExpr{
-														pos: position{line: 2922, col: 11, offset: 92169},
+														pos: position{line: 2922, col: 11, offset: 92164},
 														expr: &anyMatcher{
-															line: 2922, col: 13, offset: 92171,
+															line: 2922, col: 13, offset: 92166,
 														},
 													},
 													&zeroOrMoreExpr{
 														pos: position{line: 687, col: 21, offset: 21874},
 														expr: &actionExpr{
-															pos: position{line: 2905, col: 10, offset: 91835},
+															pos: position{line: 2905, col: 10, offset: 91830},
 															run: (*parser).callonDocumentFragment63,
 															expr: &charClassMatcher{
-																pos:        position{line: 2905, col: 10, offset: 91835},
+																pos:        position{line: 2905, col: 10, offset: 91830},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -4362,28 +4362,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2927, col: 8, offset: 92233},
+														pos: position{line: 2927, col: 8, offset: 92228},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2914, col: 12, offset: 92006},
+																pos: position{line: 2914, col: 12, offset: 92001},
 																run: (*parser).callonDocumentFragment66,
 																expr: &choiceExpr{
-																	pos: position{line: 2914, col: 13, offset: 92007},
+																	pos: position{line: 2914, col: 13, offset: 92002},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 13, offset: 92007},
+																			pos:        position{line: 2914, col: 13, offset: 92002},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 20, offset: 92014},
+																			pos:        position{line: 2914, col: 20, offset: 92009},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 29, offset: 92023},
+																			pos:        position{line: 2914, col: 29, offset: 92018},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -4392,9 +4392,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2924, col: 8, offset: 92183},
+																pos: position{line: 2924, col: 8, offset: 92178},
 																expr: &anyMatcher{
-																	line: 2924, col: 9, offset: 92184,
+																	line: 2924, col: 9, offset: 92179,
 																},
 															},
 														},
@@ -4456,10 +4456,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 756, col: 8, offset: 24172},
 																		expr: &actionExpr{
-																			pos: position{line: 2905, col: 10, offset: 91835},
+																			pos: position{line: 2905, col: 10, offset: 91830},
 																			run: (*parser).callonDocumentFragment87,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2905, col: 10, offset: 91835},
+																				pos:        position{line: 2905, col: 10, offset: 91830},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4468,28 +4468,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2927, col: 8, offset: 92233},
+																		pos: position{line: 2927, col: 8, offset: 92228},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92006},
+																				pos: position{line: 2914, col: 12, offset: 92001},
 																				run: (*parser).callonDocumentFragment90,
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 13, offset: 92007},
+																					pos: position{line: 2914, col: 13, offset: 92002},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 13, offset: 92007},
+																							pos:        position{line: 2914, col: 13, offset: 92002},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 20, offset: 92014},
+																							pos:        position{line: 2914, col: 20, offset: 92009},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 29, offset: 92023},
+																							pos:        position{line: 2914, col: 29, offset: 92018},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4498,9 +4498,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2924, col: 8, offset: 92183},
+																				pos: position{line: 2924, col: 8, offset: 92178},
 																				expr: &anyMatcher{
-																					line: 2924, col: 9, offset: 92184,
+																					line: 2924, col: 9, offset: 92179,
 																				},
 																			},
 																		},
@@ -4572,10 +4572,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 756, col: 8, offset: 24172},
 																												expr: &actionExpr{
-																													pos: position{line: 2905, col: 10, offset: 91835},
+																													pos: position{line: 2905, col: 10, offset: 91830},
 																													run: (*parser).callonDocumentFragment115,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2905, col: 10, offset: 91835},
+																														pos:        position{line: 2905, col: 10, offset: 91830},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -4584,28 +4584,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2927, col: 8, offset: 92233},
+																												pos: position{line: 2927, col: 8, offset: 92228},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2914, col: 12, offset: 92006},
+																														pos: position{line: 2914, col: 12, offset: 92001},
 																														run: (*parser).callonDocumentFragment118,
 																														expr: &choiceExpr{
-																															pos: position{line: 2914, col: 13, offset: 92007},
+																															pos: position{line: 2914, col: 13, offset: 92002},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 13, offset: 92007},
+																																	pos:        position{line: 2914, col: 13, offset: 92002},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 20, offset: 92014},
+																																	pos:        position{line: 2914, col: 20, offset: 92009},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 29, offset: 92023},
+																																	pos:        position{line: 2914, col: 29, offset: 92018},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -4614,9 +4614,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2924, col: 8, offset: 92183},
+																														pos: position{line: 2924, col: 8, offset: 92178},
 																														expr: &anyMatcher{
-																															line: 2924, col: 9, offset: 92184,
+																															line: 2924, col: 9, offset: 92179,
 																														},
 																													},
 																												},
@@ -4632,9 +4632,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2924, col: 8, offset: 92183},
+																						pos: position{line: 2924, col: 8, offset: 92178},
 																						expr: &anyMatcher{
-																							line: 2924, col: 9, offset: 92184,
+																							line: 2924, col: 9, offset: 92179,
 																						},
 																					},
 																				},
@@ -4650,21 +4650,21 @@ var g = &grammar{
 																					pos: position{line: 825, col: 5, offset: 26574},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2922, col: 11, offset: 92169},
+																							pos: position{line: 2922, col: 11, offset: 92164},
 																							expr: &anyMatcher{
-																								line: 2922, col: 13, offset: 92171,
+																								line: 2922, col: 13, offset: 92166,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 826, col: 5, offset: 26649},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								run: (*parser).callonDocumentFragment134,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2851, col: 13, offset: 90361},
+																									pos: position{line: 2851, col: 13, offset: 90356},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2851, col: 13, offset: 90361},
+																										pos:        position{line: 2851, col: 13, offset: 90356},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -4674,28 +4674,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonDocumentFragment138,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -4704,9 +4704,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -4771,10 +4771,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 756, col: 8, offset: 24172},
 																								expr: &actionExpr{
-																									pos: position{line: 2905, col: 10, offset: 91835},
+																									pos: position{line: 2905, col: 10, offset: 91830},
 																									run: (*parser).callonDocumentFragment159,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2905, col: 10, offset: 91835},
+																										pos:        position{line: 2905, col: 10, offset: 91830},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -4783,28 +4783,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2927, col: 8, offset: 92233},
+																								pos: position{line: 2927, col: 8, offset: 92228},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2914, col: 12, offset: 92006},
+																										pos: position{line: 2914, col: 12, offset: 92001},
 																										run: (*parser).callonDocumentFragment162,
 																										expr: &choiceExpr{
-																											pos: position{line: 2914, col: 13, offset: 92007},
+																											pos: position{line: 2914, col: 13, offset: 92002},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 13, offset: 92007},
+																													pos:        position{line: 2914, col: 13, offset: 92002},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 20, offset: 92014},
+																													pos:        position{line: 2914, col: 20, offset: 92009},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 29, offset: 92023},
+																													pos:        position{line: 2914, col: 29, offset: 92018},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -4813,9 +4813,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2924, col: 8, offset: 92183},
+																										pos: position{line: 2924, col: 8, offset: 92178},
 																										expr: &anyMatcher{
-																											line: 2924, col: 9, offset: 92184,
+																											line: 2924, col: 9, offset: 92179,
 																										},
 																									},
 																								},
@@ -4831,9 +4831,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2924, col: 8, offset: 92183},
+																		pos: position{line: 2924, col: 8, offset: 92178},
 																		expr: &anyMatcher{
-																			line: 2924, col: 9, offset: 92184,
+																			line: 2924, col: 9, offset: 92179,
 																		},
 																	},
 																},
@@ -4889,10 +4889,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 763, col: 8, offset: 24420},
 																		expr: &actionExpr{
-																			pos: position{line: 2905, col: 10, offset: 91835},
+																			pos: position{line: 2905, col: 10, offset: 91830},
 																			run: (*parser).callonDocumentFragment184,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2905, col: 10, offset: 91835},
+																				pos:        position{line: 2905, col: 10, offset: 91830},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -4901,28 +4901,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2927, col: 8, offset: 92233},
+																		pos: position{line: 2927, col: 8, offset: 92228},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92006},
+																				pos: position{line: 2914, col: 12, offset: 92001},
 																				run: (*parser).callonDocumentFragment187,
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 13, offset: 92007},
+																					pos: position{line: 2914, col: 13, offset: 92002},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 13, offset: 92007},
+																							pos:        position{line: 2914, col: 13, offset: 92002},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 20, offset: 92014},
+																							pos:        position{line: 2914, col: 20, offset: 92009},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 29, offset: 92023},
+																							pos:        position{line: 2914, col: 29, offset: 92018},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -4931,9 +4931,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2924, col: 8, offset: 92183},
+																				pos: position{line: 2924, col: 8, offset: 92178},
 																				expr: &anyMatcher{
-																					line: 2924, col: 9, offset: 92184,
+																					line: 2924, col: 9, offset: 92179,
 																				},
 																			},
 																		},
@@ -5005,10 +5005,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 763, col: 8, offset: 24420},
 																												expr: &actionExpr{
-																													pos: position{line: 2905, col: 10, offset: 91835},
+																													pos: position{line: 2905, col: 10, offset: 91830},
 																													run: (*parser).callonDocumentFragment212,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2905, col: 10, offset: 91835},
+																														pos:        position{line: 2905, col: 10, offset: 91830},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5017,28 +5017,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2927, col: 8, offset: 92233},
+																												pos: position{line: 2927, col: 8, offset: 92228},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2914, col: 12, offset: 92006},
+																														pos: position{line: 2914, col: 12, offset: 92001},
 																														run: (*parser).callonDocumentFragment215,
 																														expr: &choiceExpr{
-																															pos: position{line: 2914, col: 13, offset: 92007},
+																															pos: position{line: 2914, col: 13, offset: 92002},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 13, offset: 92007},
+																																	pos:        position{line: 2914, col: 13, offset: 92002},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 20, offset: 92014},
+																																	pos:        position{line: 2914, col: 20, offset: 92009},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 29, offset: 92023},
+																																	pos:        position{line: 2914, col: 29, offset: 92018},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5047,9 +5047,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2924, col: 8, offset: 92183},
+																														pos: position{line: 2924, col: 8, offset: 92178},
 																														expr: &anyMatcher{
-																															line: 2924, col: 9, offset: 92184,
+																															line: 2924, col: 9, offset: 92179,
 																														},
 																													},
 																												},
@@ -5065,9 +5065,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2924, col: 8, offset: 92183},
+																						pos: position{line: 2924, col: 8, offset: 92178},
 																						expr: &anyMatcher{
-																							line: 2924, col: 9, offset: 92184,
+																							line: 2924, col: 9, offset: 92179,
 																						},
 																					},
 																				},
@@ -5083,21 +5083,21 @@ var g = &grammar{
 																					pos: position{line: 825, col: 5, offset: 26574},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2922, col: 11, offset: 92169},
+																							pos: position{line: 2922, col: 11, offset: 92164},
 																							expr: &anyMatcher{
-																								line: 2922, col: 13, offset: 92171,
+																								line: 2922, col: 13, offset: 92166,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 826, col: 5, offset: 26649},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								run: (*parser).callonDocumentFragment231,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2851, col: 13, offset: 90361},
+																									pos: position{line: 2851, col: 13, offset: 90356},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2851, col: 13, offset: 90361},
+																										pos:        position{line: 2851, col: 13, offset: 90356},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5107,28 +5107,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonDocumentFragment235,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5137,9 +5137,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -5204,10 +5204,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 763, col: 8, offset: 24420},
 																								expr: &actionExpr{
-																									pos: position{line: 2905, col: 10, offset: 91835},
+																									pos: position{line: 2905, col: 10, offset: 91830},
 																									run: (*parser).callonDocumentFragment256,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2905, col: 10, offset: 91835},
+																										pos:        position{line: 2905, col: 10, offset: 91830},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5216,28 +5216,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2927, col: 8, offset: 92233},
+																								pos: position{line: 2927, col: 8, offset: 92228},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2914, col: 12, offset: 92006},
+																										pos: position{line: 2914, col: 12, offset: 92001},
 																										run: (*parser).callonDocumentFragment259,
 																										expr: &choiceExpr{
-																											pos: position{line: 2914, col: 13, offset: 92007},
+																											pos: position{line: 2914, col: 13, offset: 92002},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 13, offset: 92007},
+																													pos:        position{line: 2914, col: 13, offset: 92002},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 20, offset: 92014},
+																													pos:        position{line: 2914, col: 20, offset: 92009},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 29, offset: 92023},
+																													pos:        position{line: 2914, col: 29, offset: 92018},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -5246,9 +5246,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2924, col: 8, offset: 92183},
+																										pos: position{line: 2924, col: 8, offset: 92178},
 																										expr: &anyMatcher{
-																											line: 2924, col: 9, offset: 92184,
+																											line: 2924, col: 9, offset: 92179,
 																										},
 																									},
 																								},
@@ -5264,9 +5264,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2924, col: 8, offset: 92183},
+																		pos: position{line: 2924, col: 8, offset: 92178},
 																		expr: &anyMatcher{
-																			line: 2924, col: 9, offset: 92184,
+																			line: 2924, col: 9, offset: 92179,
 																		},
 																	},
 																},
@@ -5318,10 +5318,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 774, col: 52, offset: 24832},
 																		expr: &actionExpr{
-																			pos: position{line: 2905, col: 10, offset: 91835},
+																			pos: position{line: 2905, col: 10, offset: 91830},
 																			run: (*parser).callonDocumentFragment280,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2905, col: 10, offset: 91835},
+																				pos:        position{line: 2905, col: 10, offset: 91830},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5330,28 +5330,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2927, col: 8, offset: 92233},
+																		pos: position{line: 2927, col: 8, offset: 92228},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92006},
+																				pos: position{line: 2914, col: 12, offset: 92001},
 																				run: (*parser).callonDocumentFragment283,
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 13, offset: 92007},
+																					pos: position{line: 2914, col: 13, offset: 92002},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 13, offset: 92007},
+																							pos:        position{line: 2914, col: 13, offset: 92002},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 20, offset: 92014},
+																							pos:        position{line: 2914, col: 20, offset: 92009},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 29, offset: 92023},
+																							pos:        position{line: 2914, col: 29, offset: 92018},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5360,9 +5360,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2924, col: 8, offset: 92183},
+																				pos: position{line: 2924, col: 8, offset: 92178},
 																				expr: &anyMatcher{
-																					line: 2924, col: 9, offset: 92184,
+																					line: 2924, col: 9, offset: 92179,
 																				},
 																			},
 																		},
@@ -5396,10 +5396,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 985, col: 40, offset: 30847},
 																						expr: &actionExpr{
-																							pos: position{line: 2905, col: 10, offset: 91835},
+																							pos: position{line: 2905, col: 10, offset: 91830},
 																							run: (*parser).callonDocumentFragment298,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2905, col: 10, offset: 91835},
+																								pos:        position{line: 2905, col: 10, offset: 91830},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -5408,28 +5408,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2927, col: 8, offset: 92233},
+																						pos: position{line: 2927, col: 8, offset: 92228},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2914, col: 12, offset: 92006},
+																								pos: position{line: 2914, col: 12, offset: 92001},
 																								run: (*parser).callonDocumentFragment301,
 																								expr: &choiceExpr{
-																									pos: position{line: 2914, col: 13, offset: 92007},
+																									pos: position{line: 2914, col: 13, offset: 92002},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92007},
+																											pos:        position{line: 2914, col: 13, offset: 92002},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 20, offset: 92014},
+																											pos:        position{line: 2914, col: 20, offset: 92009},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 29, offset: 92023},
+																											pos:        position{line: 2914, col: 29, offset: 92018},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -5438,9 +5438,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2924, col: 8, offset: 92183},
+																								pos: position{line: 2924, col: 8, offset: 92178},
 																								expr: &anyMatcher{
-																									line: 2924, col: 9, offset: 92184,
+																									line: 2924, col: 9, offset: 92179,
 																								},
 																							},
 																						},
@@ -5458,21 +5458,21 @@ var g = &grammar{
 																					pos: position{line: 825, col: 5, offset: 26574},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2922, col: 11, offset: 92169},
+																							pos: position{line: 2922, col: 11, offset: 92164},
 																							expr: &anyMatcher{
-																								line: 2922, col: 13, offset: 92171,
+																								line: 2922, col: 13, offset: 92166,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 826, col: 5, offset: 26649},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								run: (*parser).callonDocumentFragment314,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2851, col: 13, offset: 90361},
+																									pos: position{line: 2851, col: 13, offset: 90356},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2851, col: 13, offset: 90361},
+																										pos:        position{line: 2851, col: 13, offset: 90356},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5482,28 +5482,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonDocumentFragment318,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5512,9 +5512,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -5542,10 +5542,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 985, col: 40, offset: 30847},
 																	expr: &actionExpr{
-																		pos: position{line: 2905, col: 10, offset: 91835},
+																		pos: position{line: 2905, col: 10, offset: 91830},
 																		run: (*parser).callonDocumentFragment329,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 91835},
+																			pos:        position{line: 2905, col: 10, offset: 91830},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -5554,28 +5554,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonDocumentFragment332,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -5584,9 +5584,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -5643,10 +5643,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 770, col: 8, offset: 24666},
 																		expr: &actionExpr{
-																			pos: position{line: 2905, col: 10, offset: 91835},
+																			pos: position{line: 2905, col: 10, offset: 91830},
 																			run: (*parser).callonDocumentFragment351,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2905, col: 10, offset: 91835},
+																				pos:        position{line: 2905, col: 10, offset: 91830},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -5655,28 +5655,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2927, col: 8, offset: 92233},
+																		pos: position{line: 2927, col: 8, offset: 92228},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92006},
+																				pos: position{line: 2914, col: 12, offset: 92001},
 																				run: (*parser).callonDocumentFragment354,
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 13, offset: 92007},
+																					pos: position{line: 2914, col: 13, offset: 92002},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 13, offset: 92007},
+																							pos:        position{line: 2914, col: 13, offset: 92002},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 20, offset: 92014},
+																							pos:        position{line: 2914, col: 20, offset: 92009},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 29, offset: 92023},
+																							pos:        position{line: 2914, col: 29, offset: 92018},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -5685,9 +5685,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2924, col: 8, offset: 92183},
+																				pos: position{line: 2924, col: 8, offset: 92178},
 																				expr: &anyMatcher{
-																					line: 2924, col: 9, offset: 92184,
+																					line: 2924, col: 9, offset: 92179,
 																				},
 																			},
 																		},
@@ -5759,10 +5759,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 770, col: 8, offset: 24666},
 																												expr: &actionExpr{
-																													pos: position{line: 2905, col: 10, offset: 91835},
+																													pos: position{line: 2905, col: 10, offset: 91830},
 																													run: (*parser).callonDocumentFragment379,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2905, col: 10, offset: 91835},
+																														pos:        position{line: 2905, col: 10, offset: 91830},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -5771,28 +5771,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2927, col: 8, offset: 92233},
+																												pos: position{line: 2927, col: 8, offset: 92228},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2914, col: 12, offset: 92006},
+																														pos: position{line: 2914, col: 12, offset: 92001},
 																														run: (*parser).callonDocumentFragment382,
 																														expr: &choiceExpr{
-																															pos: position{line: 2914, col: 13, offset: 92007},
+																															pos: position{line: 2914, col: 13, offset: 92002},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 13, offset: 92007},
+																																	pos:        position{line: 2914, col: 13, offset: 92002},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 20, offset: 92014},
+																																	pos:        position{line: 2914, col: 20, offset: 92009},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 29, offset: 92023},
+																																	pos:        position{line: 2914, col: 29, offset: 92018},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -5801,9 +5801,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2924, col: 8, offset: 92183},
+																														pos: position{line: 2924, col: 8, offset: 92178},
 																														expr: &anyMatcher{
-																															line: 2924, col: 9, offset: 92184,
+																															line: 2924, col: 9, offset: 92179,
 																														},
 																													},
 																												},
@@ -5819,9 +5819,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2924, col: 8, offset: 92183},
+																						pos: position{line: 2924, col: 8, offset: 92178},
 																						expr: &anyMatcher{
-																							line: 2924, col: 9, offset: 92184,
+																							line: 2924, col: 9, offset: 92179,
 																						},
 																					},
 																				},
@@ -5837,21 +5837,21 @@ var g = &grammar{
 																					pos: position{line: 825, col: 5, offset: 26574},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2922, col: 11, offset: 92169},
+																							pos: position{line: 2922, col: 11, offset: 92164},
 																							expr: &anyMatcher{
-																								line: 2922, col: 13, offset: 92171,
+																								line: 2922, col: 13, offset: 92166,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 826, col: 5, offset: 26649},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								run: (*parser).callonDocumentFragment398,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2851, col: 13, offset: 90361},
+																									pos: position{line: 2851, col: 13, offset: 90356},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2851, col: 13, offset: 90361},
+																										pos:        position{line: 2851, col: 13, offset: 90356},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -5861,28 +5861,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonDocumentFragment402,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -5891,9 +5891,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -5958,10 +5958,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 770, col: 8, offset: 24666},
 																								expr: &actionExpr{
-																									pos: position{line: 2905, col: 10, offset: 91835},
+																									pos: position{line: 2905, col: 10, offset: 91830},
 																									run: (*parser).callonDocumentFragment423,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2905, col: 10, offset: 91835},
+																										pos:        position{line: 2905, col: 10, offset: 91830},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -5970,28 +5970,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2927, col: 8, offset: 92233},
+																								pos: position{line: 2927, col: 8, offset: 92228},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2914, col: 12, offset: 92006},
+																										pos: position{line: 2914, col: 12, offset: 92001},
 																										run: (*parser).callonDocumentFragment426,
 																										expr: &choiceExpr{
-																											pos: position{line: 2914, col: 13, offset: 92007},
+																											pos: position{line: 2914, col: 13, offset: 92002},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 13, offset: 92007},
+																													pos:        position{line: 2914, col: 13, offset: 92002},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 20, offset: 92014},
+																													pos:        position{line: 2914, col: 20, offset: 92009},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 29, offset: 92023},
+																													pos:        position{line: 2914, col: 29, offset: 92018},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6000,9 +6000,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2924, col: 8, offset: 92183},
+																										pos: position{line: 2924, col: 8, offset: 92178},
 																										expr: &anyMatcher{
-																											line: 2924, col: 9, offset: 92184,
+																											line: 2924, col: 9, offset: 92179,
 																										},
 																									},
 																								},
@@ -6018,9 +6018,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2924, col: 8, offset: 92183},
+																		pos: position{line: 2924, col: 8, offset: 92178},
 																		expr: &anyMatcher{
-																			line: 2924, col: 9, offset: 92184,
+																			line: 2924, col: 9, offset: 92179,
 																		},
 																	},
 																},
@@ -6076,10 +6076,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 785, col: 8, offset: 25204},
 																		expr: &actionExpr{
-																			pos: position{line: 2905, col: 10, offset: 91835},
+																			pos: position{line: 2905, col: 10, offset: 91830},
 																			run: (*parser).callonDocumentFragment448,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2905, col: 10, offset: 91835},
+																				pos:        position{line: 2905, col: 10, offset: 91830},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6088,28 +6088,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2927, col: 8, offset: 92233},
+																		pos: position{line: 2927, col: 8, offset: 92228},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92006},
+																				pos: position{line: 2914, col: 12, offset: 92001},
 																				run: (*parser).callonDocumentFragment451,
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 13, offset: 92007},
+																					pos: position{line: 2914, col: 13, offset: 92002},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 13, offset: 92007},
+																							pos:        position{line: 2914, col: 13, offset: 92002},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 20, offset: 92014},
+																							pos:        position{line: 2914, col: 20, offset: 92009},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 29, offset: 92023},
+																							pos:        position{line: 2914, col: 29, offset: 92018},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6118,9 +6118,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2924, col: 8, offset: 92183},
+																				pos: position{line: 2924, col: 8, offset: 92178},
 																				expr: &anyMatcher{
-																					line: 2924, col: 9, offset: 92184,
+																					line: 2924, col: 9, offset: 92179,
 																				},
 																			},
 																		},
@@ -6192,10 +6192,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 785, col: 8, offset: 25204},
 																												expr: &actionExpr{
-																													pos: position{line: 2905, col: 10, offset: 91835},
+																													pos: position{line: 2905, col: 10, offset: 91830},
 																													run: (*parser).callonDocumentFragment476,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2905, col: 10, offset: 91835},
+																														pos:        position{line: 2905, col: 10, offset: 91830},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6204,28 +6204,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2927, col: 8, offset: 92233},
+																												pos: position{line: 2927, col: 8, offset: 92228},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2914, col: 12, offset: 92006},
+																														pos: position{line: 2914, col: 12, offset: 92001},
 																														run: (*parser).callonDocumentFragment479,
 																														expr: &choiceExpr{
-																															pos: position{line: 2914, col: 13, offset: 92007},
+																															pos: position{line: 2914, col: 13, offset: 92002},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 13, offset: 92007},
+																																	pos:        position{line: 2914, col: 13, offset: 92002},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 20, offset: 92014},
+																																	pos:        position{line: 2914, col: 20, offset: 92009},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 29, offset: 92023},
+																																	pos:        position{line: 2914, col: 29, offset: 92018},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6234,9 +6234,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2924, col: 8, offset: 92183},
+																														pos: position{line: 2924, col: 8, offset: 92178},
 																														expr: &anyMatcher{
-																															line: 2924, col: 9, offset: 92184,
+																															line: 2924, col: 9, offset: 92179,
 																														},
 																													},
 																												},
@@ -6252,9 +6252,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2924, col: 8, offset: 92183},
+																						pos: position{line: 2924, col: 8, offset: 92178},
 																						expr: &anyMatcher{
-																							line: 2924, col: 9, offset: 92184,
+																							line: 2924, col: 9, offset: 92179,
 																						},
 																					},
 																				},
@@ -6270,21 +6270,21 @@ var g = &grammar{
 																					pos: position{line: 825, col: 5, offset: 26574},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2922, col: 11, offset: 92169},
+																							pos: position{line: 2922, col: 11, offset: 92164},
 																							expr: &anyMatcher{
-																								line: 2922, col: 13, offset: 92171,
+																								line: 2922, col: 13, offset: 92166,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 826, col: 5, offset: 26649},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								run: (*parser).callonDocumentFragment495,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2851, col: 13, offset: 90361},
+																									pos: position{line: 2851, col: 13, offset: 90356},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2851, col: 13, offset: 90361},
+																										pos:        position{line: 2851, col: 13, offset: 90356},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6294,28 +6294,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonDocumentFragment499,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6324,9 +6324,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -6391,10 +6391,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 785, col: 8, offset: 25204},
 																								expr: &actionExpr{
-																									pos: position{line: 2905, col: 10, offset: 91835},
+																									pos: position{line: 2905, col: 10, offset: 91830},
 																									run: (*parser).callonDocumentFragment520,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2905, col: 10, offset: 91835},
+																										pos:        position{line: 2905, col: 10, offset: 91830},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6403,28 +6403,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2927, col: 8, offset: 92233},
+																								pos: position{line: 2927, col: 8, offset: 92228},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2914, col: 12, offset: 92006},
+																										pos: position{line: 2914, col: 12, offset: 92001},
 																										run: (*parser).callonDocumentFragment523,
 																										expr: &choiceExpr{
-																											pos: position{line: 2914, col: 13, offset: 92007},
+																											pos: position{line: 2914, col: 13, offset: 92002},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 13, offset: 92007},
+																													pos:        position{line: 2914, col: 13, offset: 92002},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 20, offset: 92014},
+																													pos:        position{line: 2914, col: 20, offset: 92009},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 29, offset: 92023},
+																													pos:        position{line: 2914, col: 29, offset: 92018},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6433,9 +6433,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2924, col: 8, offset: 92183},
+																										pos: position{line: 2924, col: 8, offset: 92178},
 																										expr: &anyMatcher{
-																											line: 2924, col: 9, offset: 92184,
+																											line: 2924, col: 9, offset: 92179,
 																										},
 																									},
 																								},
@@ -6451,9 +6451,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2924, col: 8, offset: 92183},
+																		pos: position{line: 2924, col: 8, offset: 92178},
 																		expr: &anyMatcher{
-																			line: 2924, col: 9, offset: 92184,
+																			line: 2924, col: 9, offset: 92179,
 																		},
 																	},
 																},
@@ -6509,10 +6509,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 799, col: 8, offset: 25680},
 																		expr: &actionExpr{
-																			pos: position{line: 2905, col: 10, offset: 91835},
+																			pos: position{line: 2905, col: 10, offset: 91830},
 																			run: (*parser).callonDocumentFragment545,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2905, col: 10, offset: 91835},
+																				pos:        position{line: 2905, col: 10, offset: 91830},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -6521,28 +6521,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2927, col: 8, offset: 92233},
+																		pos: position{line: 2927, col: 8, offset: 92228},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92006},
+																				pos: position{line: 2914, col: 12, offset: 92001},
 																				run: (*parser).callonDocumentFragment548,
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 13, offset: 92007},
+																					pos: position{line: 2914, col: 13, offset: 92002},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 13, offset: 92007},
+																							pos:        position{line: 2914, col: 13, offset: 92002},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 20, offset: 92014},
+																							pos:        position{line: 2914, col: 20, offset: 92009},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 29, offset: 92023},
+																							pos:        position{line: 2914, col: 29, offset: 92018},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -6551,9 +6551,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2924, col: 8, offset: 92183},
+																				pos: position{line: 2924, col: 8, offset: 92178},
 																				expr: &anyMatcher{
-																					line: 2924, col: 9, offset: 92184,
+																					line: 2924, col: 9, offset: 92179,
 																				},
 																			},
 																		},
@@ -6625,10 +6625,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 799, col: 8, offset: 25680},
 																												expr: &actionExpr{
-																													pos: position{line: 2905, col: 10, offset: 91835},
+																													pos: position{line: 2905, col: 10, offset: 91830},
 																													run: (*parser).callonDocumentFragment573,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2905, col: 10, offset: 91835},
+																														pos:        position{line: 2905, col: 10, offset: 91830},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -6637,28 +6637,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2927, col: 8, offset: 92233},
+																												pos: position{line: 2927, col: 8, offset: 92228},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2914, col: 12, offset: 92006},
+																														pos: position{line: 2914, col: 12, offset: 92001},
 																														run: (*parser).callonDocumentFragment576,
 																														expr: &choiceExpr{
-																															pos: position{line: 2914, col: 13, offset: 92007},
+																															pos: position{line: 2914, col: 13, offset: 92002},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 13, offset: 92007},
+																																	pos:        position{line: 2914, col: 13, offset: 92002},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 20, offset: 92014},
+																																	pos:        position{line: 2914, col: 20, offset: 92009},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 29, offset: 92023},
+																																	pos:        position{line: 2914, col: 29, offset: 92018},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -6667,9 +6667,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2924, col: 8, offset: 92183},
+																														pos: position{line: 2924, col: 8, offset: 92178},
 																														expr: &anyMatcher{
-																															line: 2924, col: 9, offset: 92184,
+																															line: 2924, col: 9, offset: 92179,
 																														},
 																													},
 																												},
@@ -6685,9 +6685,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2924, col: 8, offset: 92183},
+																						pos: position{line: 2924, col: 8, offset: 92178},
 																						expr: &anyMatcher{
-																							line: 2924, col: 9, offset: 92184,
+																							line: 2924, col: 9, offset: 92179,
 																						},
 																					},
 																				},
@@ -6703,21 +6703,21 @@ var g = &grammar{
 																					pos: position{line: 825, col: 5, offset: 26574},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2922, col: 11, offset: 92169},
+																							pos: position{line: 2922, col: 11, offset: 92164},
 																							expr: &anyMatcher{
-																								line: 2922, col: 13, offset: 92171,
+																								line: 2922, col: 13, offset: 92166,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 826, col: 5, offset: 26649},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								run: (*parser).callonDocumentFragment592,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2851, col: 13, offset: 90361},
+																									pos: position{line: 2851, col: 13, offset: 90356},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2851, col: 13, offset: 90361},
+																										pos:        position{line: 2851, col: 13, offset: 90356},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -6727,28 +6727,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonDocumentFragment596,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -6757,9 +6757,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -6824,10 +6824,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 799, col: 8, offset: 25680},
 																								expr: &actionExpr{
-																									pos: position{line: 2905, col: 10, offset: 91835},
+																									pos: position{line: 2905, col: 10, offset: 91830},
 																									run: (*parser).callonDocumentFragment617,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2905, col: 10, offset: 91835},
+																										pos:        position{line: 2905, col: 10, offset: 91830},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -6836,28 +6836,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2927, col: 8, offset: 92233},
+																								pos: position{line: 2927, col: 8, offset: 92228},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2914, col: 12, offset: 92006},
+																										pos: position{line: 2914, col: 12, offset: 92001},
 																										run: (*parser).callonDocumentFragment620,
 																										expr: &choiceExpr{
-																											pos: position{line: 2914, col: 13, offset: 92007},
+																											pos: position{line: 2914, col: 13, offset: 92002},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 13, offset: 92007},
+																													pos:        position{line: 2914, col: 13, offset: 92002},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 20, offset: 92014},
+																													pos:        position{line: 2914, col: 20, offset: 92009},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 29, offset: 92023},
+																													pos:        position{line: 2914, col: 29, offset: 92018},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6866,9 +6866,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2924, col: 8, offset: 92183},
+																										pos: position{line: 2924, col: 8, offset: 92178},
 																										expr: &anyMatcher{
-																											line: 2924, col: 9, offset: 92184,
+																											line: 2924, col: 9, offset: 92179,
 																										},
 																									},
 																								},
@@ -6884,9 +6884,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2924, col: 8, offset: 92183},
+																		pos: position{line: 2924, col: 8, offset: 92178},
 																		expr: &anyMatcher{
-																			line: 2924, col: 9, offset: 92184,
+																			line: 2924, col: 9, offset: 92179,
 																		},
 																	},
 																},
@@ -6924,36 +6924,36 @@ var g = &grammar{
 																				pos:   position{line: 1010, col: 40, offset: 31590},
 																				label: "comment",
 																				expr: &actionExpr{
-																					pos: position{line: 2497, col: 22, offset: 80369},
+																					pos: position{line: 2497, col: 22, offset: 80364},
 																					run: (*parser).callonDocumentFragment638,
 																					expr: &seqExpr{
-																						pos: position{line: 2497, col: 22, offset: 80369},
+																						pos: position{line: 2497, col: 22, offset: 80364},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2502, col: 31, offset: 80590},
+																								pos:        position{line: 2502, col: 31, offset: 80585},
 																								val:        "//",
 																								ignoreCase: false,
 																								want:       "\"//\"",
 																							},
 																							&notExpr{
-																								pos: position{line: 2502, col: 36, offset: 80595},
+																								pos: position{line: 2502, col: 36, offset: 80590},
 																								expr: &litMatcher{
-																									pos:        position{line: 2502, col: 37, offset: 80596},
+																									pos:        position{line: 2502, col: 37, offset: 80591},
 																									val:        "//",
 																									ignoreCase: false,
 																									want:       "\"//\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 2497, col: 49, offset: 80396},
+																								pos:   position{line: 2497, col: 49, offset: 80391},
 																								label: "content",
 																								expr: &actionExpr{
-																									pos: position{line: 2851, col: 13, offset: 90361},
+																									pos: position{line: 2851, col: 13, offset: 90356},
 																									run: (*parser).callonDocumentFragment644,
 																									expr: &zeroOrMoreExpr{
-																										pos: position{line: 2851, col: 13, offset: 90361},
+																										pos: position{line: 2851, col: 13, offset: 90356},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2851, col: 13, offset: 90361},
+																											pos:        position{line: 2851, col: 13, offset: 90356},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -6963,28 +6963,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2927, col: 8, offset: 92233},
+																								pos: position{line: 2927, col: 8, offset: 92228},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2914, col: 12, offset: 92006},
+																										pos: position{line: 2914, col: 12, offset: 92001},
 																										run: (*parser).callonDocumentFragment648,
 																										expr: &choiceExpr{
-																											pos: position{line: 2914, col: 13, offset: 92007},
+																											pos: position{line: 2914, col: 13, offset: 92002},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 13, offset: 92007},
+																													pos:        position{line: 2914, col: 13, offset: 92002},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 20, offset: 92014},
+																													pos:        position{line: 2914, col: 20, offset: 92009},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 29, offset: 92023},
+																													pos:        position{line: 2914, col: 29, offset: 92018},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -6993,9 +6993,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2924, col: 8, offset: 92183},
+																										pos: position{line: 2924, col: 8, offset: 92178},
 																										expr: &anyMatcher{
-																											line: 2924, col: 9, offset: 92184,
+																											line: 2924, col: 9, offset: 92179,
 																										},
 																									},
 																								},
@@ -7022,18 +7022,18 @@ var g = &grammar{
 																						pos: position{line: 687, col: 14, offset: 21867},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2922, col: 11, offset: 92169},
+																								pos: position{line: 2922, col: 11, offset: 92164},
 																								expr: &anyMatcher{
-																									line: 2922, col: 13, offset: 92171,
+																									line: 2922, col: 13, offset: 92166,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 687, col: 21, offset: 21874},
 																								expr: &actionExpr{
-																									pos: position{line: 2905, col: 10, offset: 91835},
+																									pos: position{line: 2905, col: 10, offset: 91830},
 																									run: (*parser).callonDocumentFragment663,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2905, col: 10, offset: 91835},
+																										pos:        position{line: 2905, col: 10, offset: 91830},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -7042,28 +7042,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2927, col: 8, offset: 92233},
+																								pos: position{line: 2927, col: 8, offset: 92228},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2914, col: 12, offset: 92006},
+																										pos: position{line: 2914, col: 12, offset: 92001},
 																										run: (*parser).callonDocumentFragment666,
 																										expr: &choiceExpr{
-																											pos: position{line: 2914, col: 13, offset: 92007},
+																											pos: position{line: 2914, col: 13, offset: 92002},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 13, offset: 92007},
+																													pos:        position{line: 2914, col: 13, offset: 92002},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 20, offset: 92014},
+																													pos:        position{line: 2914, col: 20, offset: 92009},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 29, offset: 92023},
+																													pos:        position{line: 2914, col: 29, offset: 92018},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -7072,9 +7072,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2924, col: 8, offset: 92183},
+																										pos: position{line: 2924, col: 8, offset: 92178},
 																										expr: &anyMatcher{
-																											line: 2924, col: 9, offset: 92184,
+																											line: 2924, col: 9, offset: 92179,
 																										},
 																									},
 																								},
@@ -7093,12 +7093,12 @@ var g = &grammar{
 																				pos:   position{line: 1006, col: 5, offset: 31468},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2855, col: 14, offset: 90428},
+																					pos: position{line: 2855, col: 14, offset: 90423},
 																					run: (*parser).callonDocumentFragment675,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2855, col: 14, offset: 90428},
+																						pos: position{line: 2855, col: 14, offset: 90423},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2855, col: 14, offset: 90428},
+																							pos:        position{line: 2855, col: 14, offset: 90423},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -7108,28 +7108,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2927, col: 8, offset: 92233},
+																				pos: position{line: 2927, col: 8, offset: 92228},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2914, col: 12, offset: 92006},
+																						pos: position{line: 2914, col: 12, offset: 92001},
 																						run: (*parser).callonDocumentFragment679,
 																						expr: &choiceExpr{
-																							pos: position{line: 2914, col: 13, offset: 92007},
+																							pos: position{line: 2914, col: 13, offset: 92002},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2914, col: 13, offset: 92007},
+																									pos:        position{line: 2914, col: 13, offset: 92002},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2914, col: 20, offset: 92014},
+																									pos:        position{line: 2914, col: 20, offset: 92009},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2914, col: 29, offset: 92023},
+																									pos:        position{line: 2914, col: 29, offset: 92018},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -7138,9 +7138,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2924, col: 8, offset: 92183},
+																						pos: position{line: 2924, col: 8, offset: 92178},
 																						expr: &anyMatcher{
-																							line: 2924, col: 9, offset: 92184,
+																							line: 2924, col: 9, offset: 92179,
 																						},
 																					},
 																				},
@@ -7160,36 +7160,36 @@ var g = &grammar{
 																pos: position{line: 998, col: 17, offset: 31180},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2497, col: 22, offset: 80369},
+																		pos: position{line: 2497, col: 22, offset: 80364},
 																		run: (*parser).callonDocumentFragment689,
 																		expr: &seqExpr{
-																			pos: position{line: 2497, col: 22, offset: 80369},
+																			pos: position{line: 2497, col: 22, offset: 80364},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2502, col: 31, offset: 80590},
+																					pos:        position{line: 2502, col: 31, offset: 80585},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																				&notExpr{
-																					pos: position{line: 2502, col: 36, offset: 80595},
+																					pos: position{line: 2502, col: 36, offset: 80590},
 																					expr: &litMatcher{
-																						pos:        position{line: 2502, col: 37, offset: 80596},
+																						pos:        position{line: 2502, col: 37, offset: 80591},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 2497, col: 49, offset: 80396},
+																					pos:   position{line: 2497, col: 49, offset: 80391},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2851, col: 13, offset: 90361},
+																						pos: position{line: 2851, col: 13, offset: 90356},
 																						run: (*parser).callonDocumentFragment695,
 																						expr: &zeroOrMoreExpr{
-																							pos: position{line: 2851, col: 13, offset: 90361},
+																							pos: position{line: 2851, col: 13, offset: 90356},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2851, col: 13, offset: 90361},
+																								pos:        position{line: 2851, col: 13, offset: 90356},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7199,28 +7199,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2927, col: 8, offset: 92233},
+																					pos: position{line: 2927, col: 8, offset: 92228},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2914, col: 12, offset: 92006},
+																							pos: position{line: 2914, col: 12, offset: 92001},
 																							run: (*parser).callonDocumentFragment699,
 																							expr: &choiceExpr{
-																								pos: position{line: 2914, col: 13, offset: 92007},
+																								pos: position{line: 2914, col: 13, offset: 92002},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 13, offset: 92007},
+																										pos:        position{line: 2914, col: 13, offset: 92002},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 20, offset: 92014},
+																										pos:        position{line: 2914, col: 20, offset: 92009},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 29, offset: 92023},
+																										pos:        position{line: 2914, col: 29, offset: 92018},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7229,9 +7229,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2924, col: 8, offset: 92183},
+																							pos: position{line: 2924, col: 8, offset: 92178},
 																							expr: &anyMatcher{
-																								line: 2924, col: 9, offset: 92184,
+																								line: 2924, col: 9, offset: 92179,
 																							},
 																						},
 																					},
@@ -7255,36 +7255,36 @@ var g = &grammar{
 																					pos:   position{line: 1010, col: 40, offset: 31590},
 																					label: "comment",
 																					expr: &actionExpr{
-																						pos: position{line: 2497, col: 22, offset: 80369},
+																						pos: position{line: 2497, col: 22, offset: 80364},
 																						run: (*parser).callonDocumentFragment710,
 																						expr: &seqExpr{
-																							pos: position{line: 2497, col: 22, offset: 80369},
+																							pos: position{line: 2497, col: 22, offset: 80364},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2502, col: 31, offset: 80590},
+																									pos:        position{line: 2502, col: 31, offset: 80585},
 																									val:        "//",
 																									ignoreCase: false,
 																									want:       "\"//\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2502, col: 36, offset: 80595},
+																									pos: position{line: 2502, col: 36, offset: 80590},
 																									expr: &litMatcher{
-																										pos:        position{line: 2502, col: 37, offset: 80596},
+																										pos:        position{line: 2502, col: 37, offset: 80591},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 2497, col: 49, offset: 80396},
+																									pos:   position{line: 2497, col: 49, offset: 80391},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 2851, col: 13, offset: 90361},
+																										pos: position{line: 2851, col: 13, offset: 90356},
 																										run: (*parser).callonDocumentFragment716,
 																										expr: &zeroOrMoreExpr{
-																											pos: position{line: 2851, col: 13, offset: 90361},
+																											pos: position{line: 2851, col: 13, offset: 90356},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2851, col: 13, offset: 90361},
+																												pos:        position{line: 2851, col: 13, offset: 90356},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -7294,28 +7294,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2927, col: 8, offset: 92233},
+																									pos: position{line: 2927, col: 8, offset: 92228},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2914, col: 12, offset: 92006},
+																											pos: position{line: 2914, col: 12, offset: 92001},
 																											run: (*parser).callonDocumentFragment720,
 																											expr: &choiceExpr{
-																												pos: position{line: 2914, col: 13, offset: 92007},
+																												pos: position{line: 2914, col: 13, offset: 92002},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2914, col: 13, offset: 92007},
+																														pos:        position{line: 2914, col: 13, offset: 92002},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2914, col: 20, offset: 92014},
+																														pos:        position{line: 2914, col: 20, offset: 92009},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2914, col: 29, offset: 92023},
+																														pos:        position{line: 2914, col: 29, offset: 92018},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7324,9 +7324,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2924, col: 8, offset: 92183},
+																											pos: position{line: 2924, col: 8, offset: 92178},
 																											expr: &anyMatcher{
-																												line: 2924, col: 9, offset: 92184,
+																												line: 2924, col: 9, offset: 92179,
 																											},
 																										},
 																									},
@@ -7353,18 +7353,18 @@ var g = &grammar{
 																							pos: position{line: 687, col: 14, offset: 21867},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2922, col: 11, offset: 92169},
+																									pos: position{line: 2922, col: 11, offset: 92164},
 																									expr: &anyMatcher{
-																										line: 2922, col: 13, offset: 92171,
+																										line: 2922, col: 13, offset: 92166,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 687, col: 21, offset: 21874},
 																									expr: &actionExpr{
-																										pos: position{line: 2905, col: 10, offset: 91835},
+																										pos: position{line: 2905, col: 10, offset: 91830},
 																										run: (*parser).callonDocumentFragment735,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2905, col: 10, offset: 91835},
+																											pos:        position{line: 2905, col: 10, offset: 91830},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7373,28 +7373,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2927, col: 8, offset: 92233},
+																									pos: position{line: 2927, col: 8, offset: 92228},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2914, col: 12, offset: 92006},
+																											pos: position{line: 2914, col: 12, offset: 92001},
 																											run: (*parser).callonDocumentFragment738,
 																											expr: &choiceExpr{
-																												pos: position{line: 2914, col: 13, offset: 92007},
+																												pos: position{line: 2914, col: 13, offset: 92002},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2914, col: 13, offset: 92007},
+																														pos:        position{line: 2914, col: 13, offset: 92002},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2914, col: 20, offset: 92014},
+																														pos:        position{line: 2914, col: 20, offset: 92009},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2914, col: 29, offset: 92023},
+																														pos:        position{line: 2914, col: 29, offset: 92018},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7403,9 +7403,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2924, col: 8, offset: 92183},
+																											pos: position{line: 2924, col: 8, offset: 92178},
 																											expr: &anyMatcher{
-																												line: 2924, col: 9, offset: 92184,
+																												line: 2924, col: 9, offset: 92179,
 																											},
 																										},
 																									},
@@ -7424,12 +7424,12 @@ var g = &grammar{
 																					pos:   position{line: 1006, col: 5, offset: 31468},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2855, col: 14, offset: 90428},
+																						pos: position{line: 2855, col: 14, offset: 90423},
 																						run: (*parser).callonDocumentFragment747,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2855, col: 14, offset: 90428},
+																							pos: position{line: 2855, col: 14, offset: 90423},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2855, col: 14, offset: 90428},
+																								pos:        position{line: 2855, col: 14, offset: 90423},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7439,28 +7439,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2927, col: 8, offset: 92233},
+																					pos: position{line: 2927, col: 8, offset: 92228},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2914, col: 12, offset: 92006},
+																							pos: position{line: 2914, col: 12, offset: 92001},
 																							run: (*parser).callonDocumentFragment751,
 																							expr: &choiceExpr{
-																								pos: position{line: 2914, col: 13, offset: 92007},
+																								pos: position{line: 2914, col: 13, offset: 92002},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 13, offset: 92007},
+																										pos:        position{line: 2914, col: 13, offset: 92002},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 20, offset: 92014},
+																										pos:        position{line: 2914, col: 20, offset: 92009},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 29, offset: 92023},
+																										pos:        position{line: 2914, col: 29, offset: 92018},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7469,9 +7469,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2924, col: 8, offset: 92183},
+																							pos: position{line: 2924, col: 8, offset: 92178},
 																							expr: &anyMatcher{
-																								line: 2924, col: 9, offset: 92184,
+																								line: 2924, col: 9, offset: 92179,
 																							},
 																						},
 																					},
@@ -7480,21 +7480,21 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 1811, col: 5, offset: 58525},
+																		pos: position{line: 1811, col: 5, offset: 58520},
 																		run: (*parser).callonDocumentFragment758,
 																		expr: &seqExpr{
-																			pos: position{line: 1811, col: 5, offset: 58525},
+																			pos: position{line: 1811, col: 5, offset: 58520},
 																			exprs: []interface{}{
 																				&labeledExpr{
-																					pos:   position{line: 1811, col: 5, offset: 58525},
+																					pos:   position{line: 1811, col: 5, offset: 58520},
 																					label: "content",
 																					expr: &actionExpr{
-																						pos: position{line: 2855, col: 14, offset: 90428},
+																						pos: position{line: 2855, col: 14, offset: 90423},
 																						run: (*parser).callonDocumentFragment761,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 2855, col: 14, offset: 90428},
+																							pos: position{line: 2855, col: 14, offset: 90423},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2855, col: 14, offset: 90428},
+																								pos:        position{line: 2855, col: 14, offset: 90423},
 																								val:        "[^\\r\\n]",
 																								chars:      []rune{'\r', '\n'},
 																								ignoreCase: false,
@@ -7504,32 +7504,32 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1812, col: 5, offset: 58549},
+																					pos: position{line: 1812, col: 5, offset: 58544},
 																					run: (*parser).callonDocumentFragment764,
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2927, col: 8, offset: 92233},
+																					pos: position{line: 2927, col: 8, offset: 92228},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2914, col: 12, offset: 92006},
+																							pos: position{line: 2914, col: 12, offset: 92001},
 																							run: (*parser).callonDocumentFragment766,
 																							expr: &choiceExpr{
-																								pos: position{line: 2914, col: 13, offset: 92007},
+																								pos: position{line: 2914, col: 13, offset: 92002},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 13, offset: 92007},
+																										pos:        position{line: 2914, col: 13, offset: 92002},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 20, offset: 92014},
+																										pos:        position{line: 2914, col: 20, offset: 92009},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 29, offset: 92023},
+																										pos:        position{line: 2914, col: 29, offset: 92018},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7538,9 +7538,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2924, col: 8, offset: 92183},
+																							pos: position{line: 2924, col: 8, offset: 92178},
 																							expr: &anyMatcher{
-																								line: 2924, col: 9, offset: 92184,
+																								line: 2924, col: 9, offset: 92179,
 																							},
 																						},
 																					},
@@ -7587,10 +7587,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 792, col: 8, offset: 25435},
 																		expr: &actionExpr{
-																			pos: position{line: 2905, col: 10, offset: 91835},
+																			pos: position{line: 2905, col: 10, offset: 91830},
 																			run: (*parser).callonDocumentFragment782,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2905, col: 10, offset: 91835},
+																				pos:        position{line: 2905, col: 10, offset: 91830},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7599,28 +7599,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2927, col: 8, offset: 92233},
+																		pos: position{line: 2927, col: 8, offset: 92228},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92006},
+																				pos: position{line: 2914, col: 12, offset: 92001},
 																				run: (*parser).callonDocumentFragment785,
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 13, offset: 92007},
+																					pos: position{line: 2914, col: 13, offset: 92002},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 13, offset: 92007},
+																							pos:        position{line: 2914, col: 13, offset: 92002},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 20, offset: 92014},
+																							pos:        position{line: 2914, col: 20, offset: 92009},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 29, offset: 92023},
+																							pos:        position{line: 2914, col: 29, offset: 92018},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -7629,9 +7629,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2924, col: 8, offset: 92183},
+																				pos: position{line: 2924, col: 8, offset: 92178},
 																				expr: &anyMatcher{
-																					line: 2924, col: 9, offset: 92184,
+																					line: 2924, col: 9, offset: 92179,
 																				},
 																			},
 																		},
@@ -7679,10 +7679,10 @@ var g = &grammar{
 																								&zeroOrMoreExpr{
 																									pos: position{line: 792, col: 8, offset: 25435},
 																									expr: &actionExpr{
-																										pos: position{line: 2905, col: 10, offset: 91835},
+																										pos: position{line: 2905, col: 10, offset: 91830},
 																										run: (*parser).callonDocumentFragment804,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2905, col: 10, offset: 91835},
+																											pos:        position{line: 2905, col: 10, offset: 91830},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -7691,28 +7691,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2927, col: 8, offset: 92233},
+																									pos: position{line: 2927, col: 8, offset: 92228},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2914, col: 12, offset: 92006},
+																											pos: position{line: 2914, col: 12, offset: 92001},
 																											run: (*parser).callonDocumentFragment807,
 																											expr: &choiceExpr{
-																												pos: position{line: 2914, col: 13, offset: 92007},
+																												pos: position{line: 2914, col: 13, offset: 92002},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2914, col: 13, offset: 92007},
+																														pos:        position{line: 2914, col: 13, offset: 92002},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2914, col: 20, offset: 92014},
+																														pos:        position{line: 2914, col: 20, offset: 92009},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2914, col: 29, offset: 92023},
+																														pos:        position{line: 2914, col: 29, offset: 92018},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -7721,9 +7721,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2924, col: 8, offset: 92183},
+																											pos: position{line: 2924, col: 8, offset: 92178},
 																											expr: &anyMatcher{
-																												line: 2924, col: 9, offset: 92184,
+																												line: 2924, col: 9, offset: 92179,
 																											},
 																										},
 																									},
@@ -7732,9 +7732,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2924, col: 8, offset: 92183},
+																						pos: position{line: 2924, col: 8, offset: 92178},
 																						expr: &anyMatcher{
-																							line: 2924, col: 9, offset: 92184,
+																							line: 2924, col: 9, offset: 92179,
 																						},
 																					},
 																				},
@@ -7750,21 +7750,21 @@ var g = &grammar{
 																					pos: position{line: 825, col: 5, offset: 26574},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2922, col: 11, offset: 92169},
+																							pos: position{line: 2922, col: 11, offset: 92164},
 																							expr: &anyMatcher{
-																								line: 2922, col: 13, offset: 92171,
+																								line: 2922, col: 13, offset: 92166,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 826, col: 5, offset: 26649},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								run: (*parser).callonDocumentFragment822,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2851, col: 13, offset: 90361},
+																									pos: position{line: 2851, col: 13, offset: 90356},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2851, col: 13, offset: 90361},
+																										pos:        position{line: 2851, col: 13, offset: 90356},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -7774,28 +7774,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonDocumentFragment826,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -7804,9 +7804,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -7851,10 +7851,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 792, col: 8, offset: 25435},
 																					expr: &actionExpr{
-																						pos: position{line: 2905, col: 10, offset: 91835},
+																						pos: position{line: 2905, col: 10, offset: 91830},
 																						run: (*parser).callonDocumentFragment842,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2905, col: 10, offset: 91835},
+																							pos:        position{line: 2905, col: 10, offset: 91830},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -7863,28 +7863,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2927, col: 8, offset: 92233},
+																					pos: position{line: 2927, col: 8, offset: 92228},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2914, col: 12, offset: 92006},
+																							pos: position{line: 2914, col: 12, offset: 92001},
 																							run: (*parser).callonDocumentFragment845,
 																							expr: &choiceExpr{
-																								pos: position{line: 2914, col: 13, offset: 92007},
+																								pos: position{line: 2914, col: 13, offset: 92002},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 13, offset: 92007},
+																										pos:        position{line: 2914, col: 13, offset: 92002},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 20, offset: 92014},
+																										pos:        position{line: 2914, col: 20, offset: 92009},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 29, offset: 92023},
+																										pos:        position{line: 2914, col: 29, offset: 92018},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -7893,9 +7893,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2924, col: 8, offset: 92183},
+																							pos: position{line: 2924, col: 8, offset: 92178},
 																							expr: &anyMatcher{
-																								line: 2924, col: 9, offset: 92184,
+																								line: 2924, col: 9, offset: 92179,
 																							},
 																						},
 																					},
@@ -7904,9 +7904,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2924, col: 8, offset: 92183},
+																		pos: position{line: 2924, col: 8, offset: 92178},
 																		expr: &anyMatcher{
-																			line: 2924, col: 9, offset: 92184,
+																			line: 2924, col: 9, offset: 92179,
 																		},
 																	},
 																},
@@ -7962,10 +7962,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 806, col: 8, offset: 25932},
 																		expr: &actionExpr{
-																			pos: position{line: 2905, col: 10, offset: 91835},
+																			pos: position{line: 2905, col: 10, offset: 91830},
 																			run: (*parser).callonDocumentFragment866,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2905, col: 10, offset: 91835},
+																				pos:        position{line: 2905, col: 10, offset: 91830},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -7974,28 +7974,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2927, col: 8, offset: 92233},
+																		pos: position{line: 2927, col: 8, offset: 92228},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92006},
+																				pos: position{line: 2914, col: 12, offset: 92001},
 																				run: (*parser).callonDocumentFragment869,
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 13, offset: 92007},
+																					pos: position{line: 2914, col: 13, offset: 92002},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 13, offset: 92007},
+																							pos:        position{line: 2914, col: 13, offset: 92002},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 20, offset: 92014},
+																							pos:        position{line: 2914, col: 20, offset: 92009},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 29, offset: 92023},
+																							pos:        position{line: 2914, col: 29, offset: 92018},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8004,9 +8004,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2924, col: 8, offset: 92183},
+																				pos: position{line: 2924, col: 8, offset: 92178},
 																				expr: &anyMatcher{
-																					line: 2924, col: 9, offset: 92184,
+																					line: 2924, col: 9, offset: 92179,
 																				},
 																			},
 																		},
@@ -8078,10 +8078,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 806, col: 8, offset: 25932},
 																												expr: &actionExpr{
-																													pos: position{line: 2905, col: 10, offset: 91835},
+																													pos: position{line: 2905, col: 10, offset: 91830},
 																													run: (*parser).callonDocumentFragment894,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2905, col: 10, offset: 91835},
+																														pos:        position{line: 2905, col: 10, offset: 91830},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8090,28 +8090,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2927, col: 8, offset: 92233},
+																												pos: position{line: 2927, col: 8, offset: 92228},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2914, col: 12, offset: 92006},
+																														pos: position{line: 2914, col: 12, offset: 92001},
 																														run: (*parser).callonDocumentFragment897,
 																														expr: &choiceExpr{
-																															pos: position{line: 2914, col: 13, offset: 92007},
+																															pos: position{line: 2914, col: 13, offset: 92002},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 13, offset: 92007},
+																																	pos:        position{line: 2914, col: 13, offset: 92002},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 20, offset: 92014},
+																																	pos:        position{line: 2914, col: 20, offset: 92009},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 29, offset: 92023},
+																																	pos:        position{line: 2914, col: 29, offset: 92018},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8120,9 +8120,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2924, col: 8, offset: 92183},
+																														pos: position{line: 2924, col: 8, offset: 92178},
 																														expr: &anyMatcher{
-																															line: 2924, col: 9, offset: 92184,
+																															line: 2924, col: 9, offset: 92179,
 																														},
 																													},
 																												},
@@ -8138,9 +8138,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2924, col: 8, offset: 92183},
+																						pos: position{line: 2924, col: 8, offset: 92178},
 																						expr: &anyMatcher{
-																							line: 2924, col: 9, offset: 92184,
+																							line: 2924, col: 9, offset: 92179,
 																						},
 																					},
 																				},
@@ -8156,21 +8156,21 @@ var g = &grammar{
 																					pos: position{line: 825, col: 5, offset: 26574},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2922, col: 11, offset: 92169},
+																							pos: position{line: 2922, col: 11, offset: 92164},
 																							expr: &anyMatcher{
-																								line: 2922, col: 13, offset: 92171,
+																								line: 2922, col: 13, offset: 92166,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 826, col: 5, offset: 26649},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								run: (*parser).callonDocumentFragment913,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2851, col: 13, offset: 90361},
+																									pos: position{line: 2851, col: 13, offset: 90356},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2851, col: 13, offset: 90361},
+																										pos:        position{line: 2851, col: 13, offset: 90356},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8180,28 +8180,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonDocumentFragment917,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8210,9 +8210,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -8277,10 +8277,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 806, col: 8, offset: 25932},
 																								expr: &actionExpr{
-																									pos: position{line: 2905, col: 10, offset: 91835},
+																									pos: position{line: 2905, col: 10, offset: 91830},
 																									run: (*parser).callonDocumentFragment938,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2905, col: 10, offset: 91835},
+																										pos:        position{line: 2905, col: 10, offset: 91830},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8289,28 +8289,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2927, col: 8, offset: 92233},
+																								pos: position{line: 2927, col: 8, offset: 92228},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2914, col: 12, offset: 92006},
+																										pos: position{line: 2914, col: 12, offset: 92001},
 																										run: (*parser).callonDocumentFragment941,
 																										expr: &choiceExpr{
-																											pos: position{line: 2914, col: 13, offset: 92007},
+																											pos: position{line: 2914, col: 13, offset: 92002},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 13, offset: 92007},
+																													pos:        position{line: 2914, col: 13, offset: 92002},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 20, offset: 92014},
+																													pos:        position{line: 2914, col: 20, offset: 92009},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 29, offset: 92023},
+																													pos:        position{line: 2914, col: 29, offset: 92018},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8319,9 +8319,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2924, col: 8, offset: 92183},
+																										pos: position{line: 2924, col: 8, offset: 92178},
 																										expr: &anyMatcher{
-																											line: 2924, col: 9, offset: 92184,
+																											line: 2924, col: 9, offset: 92179,
 																										},
 																									},
 																								},
@@ -8337,9 +8337,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2924, col: 8, offset: 92183},
+																		pos: position{line: 2924, col: 8, offset: 92178},
 																		expr: &anyMatcher{
-																			line: 2924, col: 9, offset: 92184,
+																			line: 2924, col: 9, offset: 92179,
 																		},
 																	},
 																},
@@ -8395,10 +8395,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 813, col: 8, offset: 26182},
 																		expr: &actionExpr{
-																			pos: position{line: 2905, col: 10, offset: 91835},
+																			pos: position{line: 2905, col: 10, offset: 91830},
 																			run: (*parser).callonDocumentFragment963,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2905, col: 10, offset: 91835},
+																				pos:        position{line: 2905, col: 10, offset: 91830},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8407,28 +8407,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2927, col: 8, offset: 92233},
+																		pos: position{line: 2927, col: 8, offset: 92228},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92006},
+																				pos: position{line: 2914, col: 12, offset: 92001},
 																				run: (*parser).callonDocumentFragment966,
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 13, offset: 92007},
+																					pos: position{line: 2914, col: 13, offset: 92002},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 13, offset: 92007},
+																							pos:        position{line: 2914, col: 13, offset: 92002},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 20, offset: 92014},
+																							pos:        position{line: 2914, col: 20, offset: 92009},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 29, offset: 92023},
+																							pos:        position{line: 2914, col: 29, offset: 92018},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8437,9 +8437,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2924, col: 8, offset: 92183},
+																				pos: position{line: 2924, col: 8, offset: 92178},
 																				expr: &anyMatcher{
-																					line: 2924, col: 9, offset: 92184,
+																					line: 2924, col: 9, offset: 92179,
 																				},
 																			},
 																		},
@@ -8511,10 +8511,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 813, col: 8, offset: 26182},
 																												expr: &actionExpr{
-																													pos: position{line: 2905, col: 10, offset: 91835},
+																													pos: position{line: 2905, col: 10, offset: 91830},
 																													run: (*parser).callonDocumentFragment991,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2905, col: 10, offset: 91835},
+																														pos:        position{line: 2905, col: 10, offset: 91830},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8523,28 +8523,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2927, col: 8, offset: 92233},
+																												pos: position{line: 2927, col: 8, offset: 92228},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2914, col: 12, offset: 92006},
+																														pos: position{line: 2914, col: 12, offset: 92001},
 																														run: (*parser).callonDocumentFragment994,
 																														expr: &choiceExpr{
-																															pos: position{line: 2914, col: 13, offset: 92007},
+																															pos: position{line: 2914, col: 13, offset: 92002},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 13, offset: 92007},
+																																	pos:        position{line: 2914, col: 13, offset: 92002},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 20, offset: 92014},
+																																	pos:        position{line: 2914, col: 20, offset: 92009},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 29, offset: 92023},
+																																	pos:        position{line: 2914, col: 29, offset: 92018},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8553,9 +8553,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2924, col: 8, offset: 92183},
+																														pos: position{line: 2924, col: 8, offset: 92178},
 																														expr: &anyMatcher{
-																															line: 2924, col: 9, offset: 92184,
+																															line: 2924, col: 9, offset: 92179,
 																														},
 																													},
 																												},
@@ -8571,9 +8571,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2924, col: 8, offset: 92183},
+																						pos: position{line: 2924, col: 8, offset: 92178},
 																						expr: &anyMatcher{
-																							line: 2924, col: 9, offset: 92184,
+																							line: 2924, col: 9, offset: 92179,
 																						},
 																					},
 																				},
@@ -8589,21 +8589,21 @@ var g = &grammar{
 																					pos: position{line: 825, col: 5, offset: 26574},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2922, col: 11, offset: 92169},
+																							pos: position{line: 2922, col: 11, offset: 92164},
 																							expr: &anyMatcher{
-																								line: 2922, col: 13, offset: 92171,
+																								line: 2922, col: 13, offset: 92166,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 826, col: 5, offset: 26649},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								run: (*parser).callonDocumentFragment1010,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2851, col: 13, offset: 90361},
+																									pos: position{line: 2851, col: 13, offset: 90356},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2851, col: 13, offset: 90361},
+																										pos:        position{line: 2851, col: 13, offset: 90356},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -8613,28 +8613,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonDocumentFragment1014,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -8643,9 +8643,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -8710,10 +8710,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 813, col: 8, offset: 26182},
 																								expr: &actionExpr{
-																									pos: position{line: 2905, col: 10, offset: 91835},
+																									pos: position{line: 2905, col: 10, offset: 91830},
 																									run: (*parser).callonDocumentFragment1035,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2905, col: 10, offset: 91835},
+																										pos:        position{line: 2905, col: 10, offset: 91830},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -8722,28 +8722,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2927, col: 8, offset: 92233},
+																								pos: position{line: 2927, col: 8, offset: 92228},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2914, col: 12, offset: 92006},
+																										pos: position{line: 2914, col: 12, offset: 92001},
 																										run: (*parser).callonDocumentFragment1038,
 																										expr: &choiceExpr{
-																											pos: position{line: 2914, col: 13, offset: 92007},
+																											pos: position{line: 2914, col: 13, offset: 92002},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 13, offset: 92007},
+																													pos:        position{line: 2914, col: 13, offset: 92002},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 20, offset: 92014},
+																													pos:        position{line: 2914, col: 20, offset: 92009},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 29, offset: 92023},
+																													pos:        position{line: 2914, col: 29, offset: 92018},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -8752,9 +8752,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2924, col: 8, offset: 92183},
+																										pos: position{line: 2924, col: 8, offset: 92178},
 																										expr: &anyMatcher{
-																											line: 2924, col: 9, offset: 92184,
+																											line: 2924, col: 9, offset: 92179,
 																										},
 																									},
 																								},
@@ -8770,9 +8770,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2924, col: 8, offset: 92183},
+																		pos: position{line: 2924, col: 8, offset: 92178},
 																		expr: &anyMatcher{
-																			line: 2924, col: 9, offset: 92184,
+																			line: 2924, col: 9, offset: 92179,
 																		},
 																	},
 																},
@@ -8828,10 +8828,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 820, col: 8, offset: 26428},
 																		expr: &actionExpr{
-																			pos: position{line: 2905, col: 10, offset: 91835},
+																			pos: position{line: 2905, col: 10, offset: 91830},
 																			run: (*parser).callonDocumentFragment1060,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2905, col: 10, offset: 91835},
+																				pos:        position{line: 2905, col: 10, offset: 91830},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -8840,28 +8840,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2927, col: 8, offset: 92233},
+																		pos: position{line: 2927, col: 8, offset: 92228},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92006},
+																				pos: position{line: 2914, col: 12, offset: 92001},
 																				run: (*parser).callonDocumentFragment1063,
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 13, offset: 92007},
+																					pos: position{line: 2914, col: 13, offset: 92002},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 13, offset: 92007},
+																							pos:        position{line: 2914, col: 13, offset: 92002},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 20, offset: 92014},
+																							pos:        position{line: 2914, col: 20, offset: 92009},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 29, offset: 92023},
+																							pos:        position{line: 2914, col: 29, offset: 92018},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -8870,9 +8870,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2924, col: 8, offset: 92183},
+																				pos: position{line: 2924, col: 8, offset: 92178},
 																				expr: &anyMatcher{
-																					line: 2924, col: 9, offset: 92184,
+																					line: 2924, col: 9, offset: 92179,
 																				},
 																			},
 																		},
@@ -8944,10 +8944,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 820, col: 8, offset: 26428},
 																												expr: &actionExpr{
-																													pos: position{line: 2905, col: 10, offset: 91835},
+																													pos: position{line: 2905, col: 10, offset: 91830},
 																													run: (*parser).callonDocumentFragment1088,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2905, col: 10, offset: 91835},
+																														pos:        position{line: 2905, col: 10, offset: 91830},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -8956,28 +8956,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2927, col: 8, offset: 92233},
+																												pos: position{line: 2927, col: 8, offset: 92228},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2914, col: 12, offset: 92006},
+																														pos: position{line: 2914, col: 12, offset: 92001},
 																														run: (*parser).callonDocumentFragment1091,
 																														expr: &choiceExpr{
-																															pos: position{line: 2914, col: 13, offset: 92007},
+																															pos: position{line: 2914, col: 13, offset: 92002},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 13, offset: 92007},
+																																	pos:        position{line: 2914, col: 13, offset: 92002},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 20, offset: 92014},
+																																	pos:        position{line: 2914, col: 20, offset: 92009},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 29, offset: 92023},
+																																	pos:        position{line: 2914, col: 29, offset: 92018},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -8986,9 +8986,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2924, col: 8, offset: 92183},
+																														pos: position{line: 2924, col: 8, offset: 92178},
 																														expr: &anyMatcher{
-																															line: 2924, col: 9, offset: 92184,
+																															line: 2924, col: 9, offset: 92179,
 																														},
 																													},
 																												},
@@ -9004,9 +9004,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2924, col: 8, offset: 92183},
+																						pos: position{line: 2924, col: 8, offset: 92178},
 																						expr: &anyMatcher{
-																							line: 2924, col: 9, offset: 92184,
+																							line: 2924, col: 9, offset: 92179,
 																						},
 																					},
 																				},
@@ -9022,21 +9022,21 @@ var g = &grammar{
 																					pos: position{line: 825, col: 5, offset: 26574},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2922, col: 11, offset: 92169},
+																							pos: position{line: 2922, col: 11, offset: 92164},
 																							expr: &anyMatcher{
-																								line: 2922, col: 13, offset: 92171,
+																								line: 2922, col: 13, offset: 92166,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 826, col: 5, offset: 26649},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								run: (*parser).callonDocumentFragment1107,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2851, col: 13, offset: 90361},
+																									pos: position{line: 2851, col: 13, offset: 90356},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2851, col: 13, offset: 90361},
+																										pos:        position{line: 2851, col: 13, offset: 90356},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -9046,28 +9046,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonDocumentFragment1111,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -9076,9 +9076,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -9143,10 +9143,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 820, col: 8, offset: 26428},
 																								expr: &actionExpr{
-																									pos: position{line: 2905, col: 10, offset: 91835},
+																									pos: position{line: 2905, col: 10, offset: 91830},
 																									run: (*parser).callonDocumentFragment1132,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2905, col: 10, offset: 91835},
+																										pos:        position{line: 2905, col: 10, offset: 91830},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -9155,28 +9155,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2927, col: 8, offset: 92233},
+																								pos: position{line: 2927, col: 8, offset: 92228},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2914, col: 12, offset: 92006},
+																										pos: position{line: 2914, col: 12, offset: 92001},
 																										run: (*parser).callonDocumentFragment1135,
 																										expr: &choiceExpr{
-																											pos: position{line: 2914, col: 13, offset: 92007},
+																											pos: position{line: 2914, col: 13, offset: 92002},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 13, offset: 92007},
+																													pos:        position{line: 2914, col: 13, offset: 92002},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 20, offset: 92014},
+																													pos:        position{line: 2914, col: 20, offset: 92009},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 29, offset: 92023},
+																													pos:        position{line: 2914, col: 29, offset: 92018},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -9185,9 +9185,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2924, col: 8, offset: 92183},
+																										pos: position{line: 2924, col: 8, offset: 92178},
 																										expr: &anyMatcher{
-																											line: 2924, col: 9, offset: 92184,
+																											line: 2924, col: 9, offset: 92179,
 																										},
 																									},
 																								},
@@ -9203,9 +9203,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2924, col: 8, offset: 92183},
+																		pos: position{line: 2924, col: 8, offset: 92178},
 																		expr: &anyMatcher{
-																			line: 2924, col: 9, offset: 92184,
+																			line: 2924, col: 9, offset: 92179,
 																		},
 																	},
 																},
@@ -9216,52 +9216,52 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2750, col: 18, offset: 87425},
+											pos: position{line: 2750, col: 18, offset: 87420},
 											run: (*parser).callonDocumentFragment1145,
 											expr: &seqExpr{
-												pos: position{line: 2750, col: 18, offset: 87425},
+												pos: position{line: 2750, col: 18, offset: 87420},
 												exprs: []interface{}{
 													&choiceExpr{
-														pos: position{line: 2751, col: 9, offset: 87435},
+														pos: position{line: 2751, col: 9, offset: 87430},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2751, col: 9, offset: 87435},
+																pos:        position{line: 2751, col: 9, offset: 87430},
 																val:        "'''",
 																ignoreCase: false,
 																want:       "\"'''\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2752, col: 11, offset: 87471},
+																pos:        position{line: 2752, col: 11, offset: 87466},
 																val:        "***",
 																ignoreCase: false,
 																want:       "\"***\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2752, col: 19, offset: 87479},
+																pos:        position{line: 2752, col: 19, offset: 87474},
 																val:        "* * *",
 																ignoreCase: false,
 																want:       "\"* * *\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2752, col: 29, offset: 87489},
+																pos:        position{line: 2752, col: 29, offset: 87484},
 																val:        "---",
 																ignoreCase: false,
 																want:       "\"---\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2752, col: 37, offset: 87497},
+																pos:        position{line: 2752, col: 37, offset: 87492},
 																val:        "- - -",
 																ignoreCase: false,
 																want:       "\"- - -\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2752, col: 47, offset: 87507},
+																pos:        position{line: 2752, col: 47, offset: 87502},
 																val:        "___",
 																ignoreCase: false,
 																want:       "\"___\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2752, col: 55, offset: 87515},
+																pos:        position{line: 2752, col: 55, offset: 87510},
 																val:        "_ _ _",
 																ignoreCase: false,
 																want:       "\"_ _ _\"",
@@ -9269,12 +9269,12 @@ var g = &grammar{
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2753, col: 11, offset: 87573},
+														pos: position{line: 2753, col: 11, offset: 87568},
 														expr: &actionExpr{
-															pos: position{line: 2905, col: 10, offset: 91835},
+															pos: position{line: 2905, col: 10, offset: 91830},
 															run: (*parser).callonDocumentFragment1156,
 															expr: &charClassMatcher{
-																pos:        position{line: 2905, col: 10, offset: 91835},
+																pos:        position{line: 2905, col: 10, offset: 91830},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9283,28 +9283,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2927, col: 8, offset: 92233},
+														pos: position{line: 2927, col: 8, offset: 92228},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2914, col: 12, offset: 92006},
+																pos: position{line: 2914, col: 12, offset: 92001},
 																run: (*parser).callonDocumentFragment1159,
 																expr: &choiceExpr{
-																	pos: position{line: 2914, col: 13, offset: 92007},
+																	pos: position{line: 2914, col: 13, offset: 92002},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 13, offset: 92007},
+																			pos:        position{line: 2914, col: 13, offset: 92002},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 20, offset: 92014},
+																			pos:        position{line: 2914, col: 20, offset: 92009},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 29, offset: 92023},
+																			pos:        position{line: 2914, col: 29, offset: 92018},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9313,36 +9313,36 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2924, col: 8, offset: 92183},
+																pos: position{line: 2924, col: 8, offset: 92178},
 																expr: &anyMatcher{
-																	line: 2924, col: 9, offset: 92184,
+																	line: 2924, col: 9, offset: 92179,
 																},
 															},
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2927, col: 8, offset: 92233},
+														pos: position{line: 2927, col: 8, offset: 92228},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2914, col: 12, offset: 92006},
+																pos: position{line: 2914, col: 12, offset: 92001},
 																run: (*parser).callonDocumentFragment1167,
 																expr: &choiceExpr{
-																	pos: position{line: 2914, col: 13, offset: 92007},
+																	pos: position{line: 2914, col: 13, offset: 92002},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 13, offset: 92007},
+																			pos:        position{line: 2914, col: 13, offset: 92002},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 20, offset: 92014},
+																			pos:        position{line: 2914, col: 20, offset: 92009},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 29, offset: 92023},
+																			pos:        position{line: 2914, col: 29, offset: 92018},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9351,9 +9351,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2924, col: 8, offset: 92183},
+																pos: position{line: 2924, col: 8, offset: 92178},
 																expr: &anyMatcher{
-																	line: 2924, col: 9, offset: 92184,
+																	line: 2924, col: 9, offset: 92179,
 																},
 															},
 														},
@@ -9366,24 +9366,24 @@ var g = &grammar{
 											name: "ListElements",
 										},
 										&actionExpr{
-											pos: position{line: 2635, col: 5, offset: 84207},
+											pos: position{line: 2635, col: 5, offset: 84202},
 											run: (*parser).callonDocumentFragment1175,
 											expr: &seqExpr{
-												pos: position{line: 2635, col: 5, offset: 84207},
+												pos: position{line: 2635, col: 5, offset: 84202},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2647, col: 19, offset: 84476},
+														pos:        position{line: 2647, col: 19, offset: 84471},
 														val:        "|===",
 														ignoreCase: false,
 														want:       "\"|===\"",
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2647, col: 26, offset: 84483},
+														pos: position{line: 2647, col: 26, offset: 84478},
 														expr: &actionExpr{
-															pos: position{line: 2905, col: 10, offset: 91835},
+															pos: position{line: 2905, col: 10, offset: 91830},
 															run: (*parser).callonDocumentFragment1179,
 															expr: &charClassMatcher{
-																pos:        position{line: 2905, col: 10, offset: 91835},
+																pos:        position{line: 2905, col: 10, offset: 91830},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -9392,28 +9392,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2927, col: 8, offset: 92233},
+														pos: position{line: 2927, col: 8, offset: 92228},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2914, col: 12, offset: 92006},
+																pos: position{line: 2914, col: 12, offset: 92001},
 																run: (*parser).callonDocumentFragment1182,
 																expr: &choiceExpr{
-																	pos: position{line: 2914, col: 13, offset: 92007},
+																	pos: position{line: 2914, col: 13, offset: 92002},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 13, offset: 92007},
+																			pos:        position{line: 2914, col: 13, offset: 92002},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 20, offset: 92014},
+																			pos:        position{line: 2914, col: 20, offset: 92009},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 29, offset: 92023},
+																			pos:        position{line: 2914, col: 29, offset: 92018},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -9422,46 +9422,46 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2924, col: 8, offset: 92183},
+																pos: position{line: 2924, col: 8, offset: 92178},
 																expr: &anyMatcher{
-																	line: 2924, col: 9, offset: 92184,
+																	line: 2924, col: 9, offset: 92179,
 																},
 															},
 														},
 													},
 													&zeroOrMoreExpr{
-														pos: position{line: 2636, col: 5, offset: 84231},
+														pos: position{line: 2636, col: 5, offset: 84226},
 														expr: &actionExpr{
-															pos: position{line: 2497, col: 22, offset: 80369},
+															pos: position{line: 2497, col: 22, offset: 80364},
 															run: (*parser).callonDocumentFragment1190,
 															expr: &seqExpr{
-																pos: position{line: 2497, col: 22, offset: 80369},
+																pos: position{line: 2497, col: 22, offset: 80364},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2502, col: 31, offset: 80590},
+																		pos:        position{line: 2502, col: 31, offset: 80585},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2502, col: 36, offset: 80595},
+																		pos: position{line: 2502, col: 36, offset: 80590},
 																		expr: &litMatcher{
-																			pos:        position{line: 2502, col: 37, offset: 80596},
+																			pos:        position{line: 2502, col: 37, offset: 80591},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2497, col: 49, offset: 80396},
+																		pos:   position{line: 2497, col: 49, offset: 80391},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2851, col: 13, offset: 90361},
+																			pos: position{line: 2851, col: 13, offset: 90356},
 																			run: (*parser).callonDocumentFragment1196,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2851, col: 13, offset: 90361},
+																				pos: position{line: 2851, col: 13, offset: 90356},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2851, col: 13, offset: 90361},
+																					pos:        position{line: 2851, col: 13, offset: 90356},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -9471,28 +9471,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2927, col: 8, offset: 92233},
+																		pos: position{line: 2927, col: 8, offset: 92228},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92006},
+																				pos: position{line: 2914, col: 12, offset: 92001},
 																				run: (*parser).callonDocumentFragment1200,
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 13, offset: 92007},
+																					pos: position{line: 2914, col: 13, offset: 92002},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 13, offset: 92007},
+																							pos:        position{line: 2914, col: 13, offset: 92002},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 20, offset: 92014},
+																							pos:        position{line: 2914, col: 20, offset: 92009},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 29, offset: 92023},
+																							pos:        position{line: 2914, col: 29, offset: 92018},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -9501,9 +9501,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2924, col: 8, offset: 92183},
+																				pos: position{line: 2924, col: 8, offset: 92178},
 																				expr: &anyMatcher{
-																					line: 2924, col: 9, offset: 92184,
+																					line: 2924, col: 9, offset: 92179,
 																				},
 																			},
 																		},
@@ -9513,21 +9513,21 @@ var g = &grammar{
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2637, col: 5, offset: 84254},
+														pos:   position{line: 2637, col: 5, offset: 84249},
 														label: "lines",
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2637, col: 11, offset: 84260},
+															pos: position{line: 2637, col: 11, offset: 84255},
 															expr: &actionExpr{
-																pos: position{line: 2638, col: 9, offset: 84270},
+																pos: position{line: 2638, col: 9, offset: 84265},
 																run: (*parser).callonDocumentFragment1209,
 																expr: &seqExpr{
-																	pos: position{line: 2638, col: 9, offset: 84270},
+																	pos: position{line: 2638, col: 9, offset: 84265},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 2638, col: 9, offset: 84270},
+																			pos:   position{line: 2638, col: 9, offset: 84265},
 																			label: "line",
 																			expr: &choiceExpr{
-																				pos: position{line: 2638, col: 15, offset: 84276},
+																				pos: position{line: 2638, col: 15, offset: 84271},
 																				alternatives: []interface{}{
 																					&actionExpr{
 																						pos: position{line: 687, col: 14, offset: 21867},
@@ -9536,18 +9536,18 @@ var g = &grammar{
 																							pos: position{line: 687, col: 14, offset: 21867},
 																							exprs: []interface{}{
 																								&andExpr{
-																									pos: position{line: 2922, col: 11, offset: 92169},
+																									pos: position{line: 2922, col: 11, offset: 92164},
 																									expr: &anyMatcher{
-																										line: 2922, col: 13, offset: 92171,
+																										line: 2922, col: 13, offset: 92166,
 																									},
 																								},
 																								&zeroOrMoreExpr{
 																									pos: position{line: 687, col: 21, offset: 21874},
 																									expr: &actionExpr{
-																										pos: position{line: 2905, col: 10, offset: 91835},
+																										pos: position{line: 2905, col: 10, offset: 91830},
 																										run: (*parser).callonDocumentFragment1218,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2905, col: 10, offset: 91835},
+																											pos:        position{line: 2905, col: 10, offset: 91830},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -9556,28 +9556,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2927, col: 8, offset: 92233},
+																									pos: position{line: 2927, col: 8, offset: 92228},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2914, col: 12, offset: 92006},
+																											pos: position{line: 2914, col: 12, offset: 92001},
 																											run: (*parser).callonDocumentFragment1221,
 																											expr: &choiceExpr{
-																												pos: position{line: 2914, col: 13, offset: 92007},
+																												pos: position{line: 2914, col: 13, offset: 92002},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2914, col: 13, offset: 92007},
+																														pos:        position{line: 2914, col: 13, offset: 92002},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2914, col: 20, offset: 92014},
+																														pos:        position{line: 2914, col: 20, offset: 92009},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2914, col: 29, offset: 92023},
+																														pos:        position{line: 2914, col: 29, offset: 92018},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -9586,9 +9586,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2924, col: 8, offset: 92183},
+																											pos: position{line: 2924, col: 8, offset: 92178},
 																											expr: &anyMatcher{
-																												line: 2924, col: 9, offset: 92184,
+																												line: 2924, col: 9, offset: 92179,
 																											},
 																										},
 																									},
@@ -9597,32 +9597,32 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 2654, col: 5, offset: 84595},
+																						pos: position{line: 2654, col: 5, offset: 84590},
 																						run: (*parser).callonDocumentFragment1228,
 																						expr: &seqExpr{
-																							pos: position{line: 2654, col: 5, offset: 84595},
+																							pos: position{line: 2654, col: 5, offset: 84590},
 																							exprs: []interface{}{
 																								&notExpr{
-																									pos: position{line: 2654, col: 5, offset: 84595},
+																									pos: position{line: 2654, col: 5, offset: 84590},
 																									expr: &choiceExpr{
-																										pos: position{line: 2651, col: 22, offset: 84556},
+																										pos: position{line: 2651, col: 22, offset: 84551},
 																										alternatives: []interface{}{
 																											&seqExpr{
-																												pos: position{line: 2647, col: 19, offset: 84476},
+																												pos: position{line: 2647, col: 19, offset: 84471},
 																												exprs: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2647, col: 19, offset: 84476},
+																														pos:        position{line: 2647, col: 19, offset: 84471},
 																														val:        "|===",
 																														ignoreCase: false,
 																														want:       "\"|===\"",
 																													},
 																													&zeroOrMoreExpr{
-																														pos: position{line: 2647, col: 26, offset: 84483},
+																														pos: position{line: 2647, col: 26, offset: 84478},
 																														expr: &actionExpr{
-																															pos: position{line: 2905, col: 10, offset: 91835},
+																															pos: position{line: 2905, col: 10, offset: 91830},
 																															run: (*parser).callonDocumentFragment1235,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 2905, col: 10, offset: 91835},
+																																pos:        position{line: 2905, col: 10, offset: 91830},
 																																val:        "[\\t ]",
 																																chars:      []rune{'\t', ' '},
 																																ignoreCase: false,
@@ -9631,28 +9631,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2927, col: 8, offset: 92233},
+																														pos: position{line: 2927, col: 8, offset: 92228},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2914, col: 12, offset: 92006},
+																																pos: position{line: 2914, col: 12, offset: 92001},
 																																run: (*parser).callonDocumentFragment1238,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2914, col: 13, offset: 92007},
+																																	pos: position{line: 2914, col: 13, offset: 92002},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2914, col: 13, offset: 92007},
+																																			pos:        position{line: 2914, col: 13, offset: 92002},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2914, col: 20, offset: 92014},
+																																			pos:        position{line: 2914, col: 20, offset: 92009},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2914, col: 29, offset: 92023},
+																																			pos:        position{line: 2914, col: 29, offset: 92018},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -9661,9 +9661,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2924, col: 8, offset: 92183},
+																																pos: position{line: 2924, col: 8, offset: 92178},
 																																expr: &anyMatcher{
-																																	line: 2924, col: 9, offset: 92184,
+																																	line: 2924, col: 9, offset: 92179,
 																																},
 																															},
 																														},
@@ -9671,59 +9671,59 @@ var g = &grammar{
 																												},
 																											},
 																											&notExpr{
-																												pos: position{line: 2924, col: 8, offset: 92183},
+																												pos: position{line: 2924, col: 8, offset: 92178},
 																												expr: &anyMatcher{
-																													line: 2924, col: 9, offset: 92184,
+																													line: 2924, col: 9, offset: 92179,
 																												},
 																											},
 																										},
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 2655, col: 5, offset: 84618},
+																									pos:   position{line: 2655, col: 5, offset: 84613},
 																									label: "content",
 																									expr: &choiceExpr{
-																										pos: position{line: 2656, col: 9, offset: 84636},
+																										pos: position{line: 2656, col: 9, offset: 84631},
 																										alternatives: []interface{}{
 																											&actionExpr{
-																												pos: position{line: 2656, col: 10, offset: 84637},
+																												pos: position{line: 2656, col: 10, offset: 84632},
 																												run: (*parser).callonDocumentFragment1249,
 																												expr: &labeledExpr{
-																													pos:   position{line: 2656, col: 10, offset: 84637},
+																													pos:   position{line: 2656, col: 10, offset: 84632},
 																													label: "cells",
 																													expr: &choiceExpr{
-																														pos: position{line: 2656, col: 17, offset: 84644},
+																														pos: position{line: 2656, col: 17, offset: 84639},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2664, col: 21, offset: 84840},
+																																pos: position{line: 2664, col: 21, offset: 84835},
 																																run: (*parser).callonDocumentFragment1252,
 																																expr: &seqExpr{
-																																	pos: position{line: 2664, col: 21, offset: 84840},
+																																	pos: position{line: 2664, col: 21, offset: 84835},
 																																	exprs: []interface{}{
 																																		&labeledExpr{
-																																			pos:   position{line: 2664, col: 21, offset: 84840},
+																																			pos:   position{line: 2664, col: 21, offset: 84835},
 																																			label: "cells",
 																																			expr: &oneOrMoreExpr{
-																																				pos: position{line: 2664, col: 27, offset: 84846},
+																																				pos: position{line: 2664, col: 27, offset: 84841},
 																																				expr: &actionExpr{
-																																					pos: position{line: 2669, col: 5, offset: 84921},
+																																					pos: position{line: 2669, col: 5, offset: 84916},
 																																					run: (*parser).callonDocumentFragment1256,
 																																					expr: &seqExpr{
-																																						pos: position{line: 2669, col: 5, offset: 84921},
+																																						pos: position{line: 2669, col: 5, offset: 84916},
 																																						exprs: []interface{}{
 																																							&litMatcher{
-																																								pos:        position{line: 2669, col: 5, offset: 84921},
+																																								pos:        position{line: 2669, col: 5, offset: 84916},
 																																								val:        "|",
 																																								ignoreCase: false,
 																																								want:       "\"|\"",
 																																							},
 																																							&zeroOrMoreExpr{
-																																								pos: position{line: 2669, col: 9, offset: 84925},
+																																								pos: position{line: 2669, col: 9, offset: 84920},
 																																								expr: &actionExpr{
-																																									pos: position{line: 2905, col: 10, offset: 91835},
+																																									pos: position{line: 2905, col: 10, offset: 91830},
 																																									run: (*parser).callonDocumentFragment1260,
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2905, col: 10, offset: 91835},
+																																										pos:        position{line: 2905, col: 10, offset: 91830},
 																																										val:        "[\\t ]",
 																																										chars:      []rune{'\t', ' '},
 																																										ignoreCase: false,
@@ -9732,21 +9732,21 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&labeledExpr{
-																																								pos:   position{line: 2669, col: 16, offset: 84932},
+																																								pos:   position{line: 2669, col: 16, offset: 84927},
 																																								label: "content",
 																																								expr: &actionExpr{
-																																									pos: position{line: 2675, col: 5, offset: 85132},
+																																									pos: position{line: 2675, col: 5, offset: 85127},
 																																									run: (*parser).callonDocumentFragment1263,
 																																									expr: &labeledExpr{
-																																										pos:   position{line: 2675, col: 5, offset: 85132},
+																																										pos:   position{line: 2675, col: 5, offset: 85127},
 																																										label: "content",
 																																										expr: &actionExpr{
-																																											pos: position{line: 2675, col: 14, offset: 85141},
+																																											pos: position{line: 2675, col: 14, offset: 85136},
 																																											run: (*parser).callonDocumentFragment1265,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2675, col: 14, offset: 85141},
+																																												pos: position{line: 2675, col: 14, offset: 85136},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2675, col: 14, offset: 85141},
+																																													pos:        position{line: 2675, col: 14, offset: 85136},
 																																													val:        "[^|\\r\\n]",
 																																													chars:      []rune{'|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -9763,28 +9763,28 @@ var g = &grammar{
 																																			},
 																																		},
 																																		&choiceExpr{
-																																			pos: position{line: 2927, col: 8, offset: 92233},
+																																			pos: position{line: 2927, col: 8, offset: 92228},
 																																			alternatives: []interface{}{
 																																				&actionExpr{
-																																					pos: position{line: 2914, col: 12, offset: 92006},
+																																					pos: position{line: 2914, col: 12, offset: 92001},
 																																					run: (*parser).callonDocumentFragment1269,
 																																					expr: &choiceExpr{
-																																						pos: position{line: 2914, col: 13, offset: 92007},
+																																						pos: position{line: 2914, col: 13, offset: 92002},
 																																						alternatives: []interface{}{
 																																							&litMatcher{
-																																								pos:        position{line: 2914, col: 13, offset: 92007},
+																																								pos:        position{line: 2914, col: 13, offset: 92002},
 																																								val:        "\n",
 																																								ignoreCase: false,
 																																								want:       "\"\\n\"",
 																																							},
 																																							&litMatcher{
-																																								pos:        position{line: 2914, col: 20, offset: 92014},
+																																								pos:        position{line: 2914, col: 20, offset: 92009},
 																																								val:        "\r\n",
 																																								ignoreCase: false,
 																																								want:       "\"\\r\\n\"",
 																																							},
 																																							&litMatcher{
-																																								pos:        position{line: 2914, col: 29, offset: 92023},
+																																								pos:        position{line: 2914, col: 29, offset: 92018},
 																																								val:        "\r",
 																																								ignoreCase: false,
 																																								want:       "\"\\r\"",
@@ -9793,9 +9793,9 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2924, col: 8, offset: 92183},
+																																					pos: position{line: 2924, col: 8, offset: 92178},
 																																					expr: &anyMatcher{
-																																						line: 2924, col: 9, offset: 92184,
+																																						line: 2924, col: 9, offset: 92179,
 																																					},
 																																				},
 																																			},
@@ -9804,40 +9804,40 @@ var g = &grammar{
 																																},
 																															},
 																															&actionExpr{
-																																pos: position{line: 2681, col: 24, offset: 85277},
+																																pos: position{line: 2681, col: 24, offset: 85272},
 																																run: (*parser).callonDocumentFragment1276,
 																																expr: &labeledExpr{
-																																	pos:   position{line: 2681, col: 24, offset: 85277},
+																																	pos:   position{line: 2681, col: 24, offset: 85272},
 																																	label: "cells",
 																																	expr: &oneOrMoreExpr{
-																																		pos: position{line: 2681, col: 30, offset: 85283},
+																																		pos: position{line: 2681, col: 30, offset: 85278},
 																																		expr: &actionExpr{
-																																			pos: position{line: 2686, col: 5, offset: 85359},
+																																			pos: position{line: 2686, col: 5, offset: 85354},
 																																			run: (*parser).callonDocumentFragment1279,
 																																			expr: &seqExpr{
-																																				pos: position{line: 2686, col: 5, offset: 85359},
+																																				pos: position{line: 2686, col: 5, offset: 85354},
 																																				exprs: []interface{}{
 																																					&notExpr{
-																																						pos: position{line: 2686, col: 5, offset: 85359},
+																																						pos: position{line: 2686, col: 5, offset: 85354},
 																																						expr: &choiceExpr{
-																																							pos: position{line: 2651, col: 22, offset: 84556},
+																																							pos: position{line: 2651, col: 22, offset: 84551},
 																																							alternatives: []interface{}{
 																																								&seqExpr{
-																																									pos: position{line: 2647, col: 19, offset: 84476},
+																																									pos: position{line: 2647, col: 19, offset: 84471},
 																																									exprs: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2647, col: 19, offset: 84476},
+																																											pos:        position{line: 2647, col: 19, offset: 84471},
 																																											val:        "|===",
 																																											ignoreCase: false,
 																																											want:       "\"|===\"",
 																																										},
 																																										&zeroOrMoreExpr{
-																																											pos: position{line: 2647, col: 26, offset: 84483},
+																																											pos: position{line: 2647, col: 26, offset: 84478},
 																																											expr: &actionExpr{
-																																												pos: position{line: 2905, col: 10, offset: 91835},
+																																												pos: position{line: 2905, col: 10, offset: 91830},
 																																												run: (*parser).callonDocumentFragment1286,
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2905, col: 10, offset: 91835},
+																																													pos:        position{line: 2905, col: 10, offset: 91830},
 																																													val:        "[\\t ]",
 																																													chars:      []rune{'\t', ' '},
 																																													ignoreCase: false,
@@ -9846,28 +9846,28 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&choiceExpr{
-																																											pos: position{line: 2927, col: 8, offset: 92233},
+																																											pos: position{line: 2927, col: 8, offset: 92228},
 																																											alternatives: []interface{}{
 																																												&actionExpr{
-																																													pos: position{line: 2914, col: 12, offset: 92006},
+																																													pos: position{line: 2914, col: 12, offset: 92001},
 																																													run: (*parser).callonDocumentFragment1289,
 																																													expr: &choiceExpr{
-																																														pos: position{line: 2914, col: 13, offset: 92007},
+																																														pos: position{line: 2914, col: 13, offset: 92002},
 																																														alternatives: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2914, col: 13, offset: 92007},
+																																																pos:        position{line: 2914, col: 13, offset: 92002},
 																																																val:        "\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2914, col: 20, offset: 92014},
+																																																pos:        position{line: 2914, col: 20, offset: 92009},
 																																																val:        "\r\n",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\\n\"",
 																																															},
 																																															&litMatcher{
-																																																pos:        position{line: 2914, col: 29, offset: 92023},
+																																																pos:        position{line: 2914, col: 29, offset: 92018},
 																																																val:        "\r",
 																																																ignoreCase: false,
 																																																want:       "\"\\r\"",
@@ -9876,9 +9876,9 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2924, col: 8, offset: 92183},
+																																													pos: position{line: 2924, col: 8, offset: 92178},
 																																													expr: &anyMatcher{
-																																														line: 2924, col: 9, offset: 92184,
+																																														line: 2924, col: 9, offset: 92179,
 																																													},
 																																												},
 																																											},
@@ -9886,16 +9886,16 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&notExpr{
-																																									pos: position{line: 2924, col: 8, offset: 92183},
+																																									pos: position{line: 2924, col: 8, offset: 92178},
 																																									expr: &anyMatcher{
-																																										line: 2924, col: 9, offset: 92184,
+																																										line: 2924, col: 9, offset: 92179,
 																																									},
 																																								},
 																																							},
 																																						},
 																																					},
 																																					&notExpr{
-																																						pos: position{line: 2687, col: 5, offset: 85382},
+																																						pos: position{line: 2687, col: 5, offset: 85377},
 																																						expr: &actionExpr{
 																																							pos: position{line: 687, col: 14, offset: 21867},
 																																							run: (*parser).callonDocumentFragment1299,
@@ -9903,18 +9903,18 @@ var g = &grammar{
 																																								pos: position{line: 687, col: 14, offset: 21867},
 																																								exprs: []interface{}{
 																																									&andExpr{
-																																										pos: position{line: 2922, col: 11, offset: 92169},
+																																										pos: position{line: 2922, col: 11, offset: 92164},
 																																										expr: &anyMatcher{
-																																											line: 2922, col: 13, offset: 92171,
+																																											line: 2922, col: 13, offset: 92166,
 																																										},
 																																									},
 																																									&zeroOrMoreExpr{
 																																										pos: position{line: 687, col: 21, offset: 21874},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2905, col: 10, offset: 91835},
+																																											pos: position{line: 2905, col: 10, offset: 91830},
 																																											run: (*parser).callonDocumentFragment1304,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2905, col: 10, offset: 91835},
+																																												pos:        position{line: 2905, col: 10, offset: 91830},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -9923,28 +9923,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2927, col: 8, offset: 92233},
+																																										pos: position{line: 2927, col: 8, offset: 92228},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2914, col: 12, offset: 92006},
+																																												pos: position{line: 2914, col: 12, offset: 92001},
 																																												run: (*parser).callonDocumentFragment1307,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2914, col: 13, offset: 92007},
+																																													pos: position{line: 2914, col: 13, offset: 92002},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2914, col: 13, offset: 92007},
+																																															pos:        position{line: 2914, col: 13, offset: 92002},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2914, col: 20, offset: 92014},
+																																															pos:        position{line: 2914, col: 20, offset: 92009},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2914, col: 29, offset: 92023},
+																																															pos:        position{line: 2914, col: 29, offset: 92018},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -9953,9 +9953,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2924, col: 8, offset: 92183},
+																																												pos: position{line: 2924, col: 8, offset: 92178},
 																																												expr: &anyMatcher{
-																																													line: 2924, col: 9, offset: 92184,
+																																													line: 2924, col: 9, offset: 92179,
 																																												},
 																																											},
 																																										},
@@ -9965,17 +9965,17 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2688, col: 5, offset: 85397},
+																																						pos:   position{line: 2688, col: 5, offset: 85392},
 																																						label: "format",
 																																						expr: &zeroOrOneExpr{
-																																							pos: position{line: 2688, col: 12, offset: 85404},
+																																							pos: position{line: 2688, col: 12, offset: 85399},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2705, col: 20, offset: 85910},
+																																								pos: position{line: 2705, col: 20, offset: 85905},
 																																								run: (*parser).callonDocumentFragment1316,
 																																								expr: &zeroOrMoreExpr{
-																																									pos: position{line: 2705, col: 20, offset: 85910},
+																																									pos: position{line: 2705, col: 20, offset: 85905},
 																																									expr: &charClassMatcher{
-																																										pos:        position{line: 2705, col: 20, offset: 85910},
+																																										pos:        position{line: 2705, col: 20, offset: 85905},
 																																										val:        "[^ |\\r\\n]",
 																																										chars:      []rune{' ', '|', '\r', '\n'},
 																																										ignoreCase: false,
@@ -9986,18 +9986,18 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&litMatcher{
-																																						pos:        position{line: 2688, col: 31, offset: 85423},
+																																						pos:        position{line: 2688, col: 31, offset: 85418},
 																																						val:        "|",
 																																						ignoreCase: false,
 																																						want:       "\"|\"",
 																																					},
 																																					&zeroOrMoreExpr{
-																																						pos: position{line: 2688, col: 35, offset: 85427},
+																																						pos: position{line: 2688, col: 35, offset: 85422},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2905, col: 10, offset: 91835},
+																																							pos: position{line: 2905, col: 10, offset: 91830},
 																																							run: (*parser).callonDocumentFragment1321,
 																																							expr: &charClassMatcher{
-																																								pos:        position{line: 2905, col: 10, offset: 91835},
+																																								pos:        position{line: 2905, col: 10, offset: 91830},
 																																								val:        "[\\t ]",
 																																								chars:      []rune{'\t', ' '},
 																																								ignoreCase: false,
@@ -10006,30 +10006,30 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&zeroOrOneExpr{
-																																						pos: position{line: 2688, col: 42, offset: 85434},
+																																						pos: position{line: 2688, col: 42, offset: 85429},
 																																						expr: &seqExpr{
-																																							pos: position{line: 2688, col: 43, offset: 85435},
+																																							pos: position{line: 2688, col: 43, offset: 85430},
 																																							exprs: []interface{}{
 																																								&actionExpr{
-																																									pos: position{line: 2914, col: 12, offset: 92006},
+																																									pos: position{line: 2914, col: 12, offset: 92001},
 																																									run: (*parser).callonDocumentFragment1325,
 																																									expr: &choiceExpr{
-																																										pos: position{line: 2914, col: 13, offset: 92007},
+																																										pos: position{line: 2914, col: 13, offset: 92002},
 																																										alternatives: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2914, col: 13, offset: 92007},
+																																												pos:        position{line: 2914, col: 13, offset: 92002},
 																																												val:        "\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2914, col: 20, offset: 92014},
+																																												pos:        position{line: 2914, col: 20, offset: 92009},
 																																												val:        "\r\n",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\\n\"",
 																																											},
 																																											&litMatcher{
-																																												pos:        position{line: 2914, col: 29, offset: 92023},
+																																												pos:        position{line: 2914, col: 29, offset: 92018},
 																																												val:        "\r",
 																																												ignoreCase: false,
 																																												want:       "\"\\r\"",
@@ -10038,38 +10038,38 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&zeroOrMoreExpr{
-																																									pos: position{line: 2688, col: 51, offset: 85443},
+																																									pos: position{line: 2688, col: 51, offset: 85438},
 																																									expr: &actionExpr{
-																																										pos: position{line: 2497, col: 22, offset: 80369},
+																																										pos: position{line: 2497, col: 22, offset: 80364},
 																																										run: (*parser).callonDocumentFragment1331,
 																																										expr: &seqExpr{
-																																											pos: position{line: 2497, col: 22, offset: 80369},
+																																											pos: position{line: 2497, col: 22, offset: 80364},
 																																											exprs: []interface{}{
 																																												&litMatcher{
-																																													pos:        position{line: 2502, col: 31, offset: 80590},
+																																													pos:        position{line: 2502, col: 31, offset: 80585},
 																																													val:        "//",
 																																													ignoreCase: false,
 																																													want:       "\"//\"",
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2502, col: 36, offset: 80595},
+																																													pos: position{line: 2502, col: 36, offset: 80590},
 																																													expr: &litMatcher{
-																																														pos:        position{line: 2502, col: 37, offset: 80596},
+																																														pos:        position{line: 2502, col: 37, offset: 80591},
 																																														val:        "//",
 																																														ignoreCase: false,
 																																														want:       "\"//\"",
 																																													},
 																																												},
 																																												&labeledExpr{
-																																													pos:   position{line: 2497, col: 49, offset: 80396},
+																																													pos:   position{line: 2497, col: 49, offset: 80391},
 																																													label: "content",
 																																													expr: &actionExpr{
-																																														pos: position{line: 2851, col: 13, offset: 90361},
+																																														pos: position{line: 2851, col: 13, offset: 90356},
 																																														run: (*parser).callonDocumentFragment1337,
 																																														expr: &zeroOrMoreExpr{
-																																															pos: position{line: 2851, col: 13, offset: 90361},
+																																															pos: position{line: 2851, col: 13, offset: 90356},
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2851, col: 13, offset: 90361},
+																																																pos:        position{line: 2851, col: 13, offset: 90356},
 																																																val:        "[^\\r\\n]",
 																																																chars:      []rune{'\r', '\n'},
 																																																ignoreCase: false,
@@ -10079,28 +10079,28 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&choiceExpr{
-																																													pos: position{line: 2927, col: 8, offset: 92233},
+																																													pos: position{line: 2927, col: 8, offset: 92228},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2914, col: 12, offset: 92006},
+																																															pos: position{line: 2914, col: 12, offset: 92001},
 																																															run: (*parser).callonDocumentFragment1341,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2914, col: 13, offset: 92007},
+																																																pos: position{line: 2914, col: 13, offset: 92002},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2914, col: 13, offset: 92007},
+																																																		pos:        position{line: 2914, col: 13, offset: 92002},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2914, col: 20, offset: 92014},
+																																																		pos:        position{line: 2914, col: 20, offset: 92009},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2914, col: 29, offset: 92023},
+																																																		pos:        position{line: 2914, col: 29, offset: 92018},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -10109,9 +10109,9 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2924, col: 8, offset: 92183},
+																																															pos: position{line: 2924, col: 8, offset: 92178},
 																																															expr: &anyMatcher{
-																																																line: 2924, col: 9, offset: 92184,
+																																																line: 2924, col: 9, offset: 92179,
 																																															},
 																																														},
 																																													},
@@ -10124,37 +10124,37 @@ var g = &grammar{
 																																						},
 																																					},
 																																					&labeledExpr{
-																																						pos:   position{line: 2688, col: 72, offset: 85464},
+																																						pos:   position{line: 2688, col: 72, offset: 85459},
 																																						label: "content",
 																																						expr: &zeroOrMoreExpr{
-																																							pos: position{line: 2694, col: 5, offset: 85623},
+																																							pos: position{line: 2694, col: 5, offset: 85618},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2695, col: 9, offset: 85633},
+																																								pos: position{line: 2695, col: 9, offset: 85628},
 																																								run: (*parser).callonDocumentFragment1350,
 																																								expr: &seqExpr{
-																																									pos: position{line: 2695, col: 9, offset: 85633},
+																																									pos: position{line: 2695, col: 9, offset: 85628},
 																																									exprs: []interface{}{
 																																										&notExpr{
-																																											pos: position{line: 2695, col: 9, offset: 85633},
+																																											pos: position{line: 2695, col: 9, offset: 85628},
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2651, col: 22, offset: 84556},
+																																												pos: position{line: 2651, col: 22, offset: 84551},
 																																												alternatives: []interface{}{
 																																													&seqExpr{
-																																														pos: position{line: 2647, col: 19, offset: 84476},
+																																														pos: position{line: 2647, col: 19, offset: 84471},
 																																														exprs: []interface{}{
 																																															&litMatcher{
-																																																pos:        position{line: 2647, col: 19, offset: 84476},
+																																																pos:        position{line: 2647, col: 19, offset: 84471},
 																																																val:        "|===",
 																																																ignoreCase: false,
 																																																want:       "\"|===\"",
 																																															},
 																																															&zeroOrMoreExpr{
-																																																pos: position{line: 2647, col: 26, offset: 84483},
+																																																pos: position{line: 2647, col: 26, offset: 84478},
 																																																expr: &actionExpr{
-																																																	pos: position{line: 2905, col: 10, offset: 91835},
+																																																	pos: position{line: 2905, col: 10, offset: 91830},
 																																																	run: (*parser).callonDocumentFragment1357,
 																																																	expr: &charClassMatcher{
-																																																		pos:        position{line: 2905, col: 10, offset: 91835},
+																																																		pos:        position{line: 2905, col: 10, offset: 91830},
 																																																		val:        "[\\t ]",
 																																																		chars:      []rune{'\t', ' '},
 																																																		ignoreCase: false,
@@ -10163,28 +10163,28 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&choiceExpr{
-																																																pos: position{line: 2927, col: 8, offset: 92233},
+																																																pos: position{line: 2927, col: 8, offset: 92228},
 																																																alternatives: []interface{}{
 																																																	&actionExpr{
-																																																		pos: position{line: 2914, col: 12, offset: 92006},
+																																																		pos: position{line: 2914, col: 12, offset: 92001},
 																																																		run: (*parser).callonDocumentFragment1360,
 																																																		expr: &choiceExpr{
-																																																			pos: position{line: 2914, col: 13, offset: 92007},
+																																																			pos: position{line: 2914, col: 13, offset: 92002},
 																																																			alternatives: []interface{}{
 																																																				&litMatcher{
-																																																					pos:        position{line: 2914, col: 13, offset: 92007},
+																																																					pos:        position{line: 2914, col: 13, offset: 92002},
 																																																					val:        "\n",
 																																																					ignoreCase: false,
 																																																					want:       "\"\\n\"",
 																																																				},
 																																																				&litMatcher{
-																																																					pos:        position{line: 2914, col: 20, offset: 92014},
+																																																					pos:        position{line: 2914, col: 20, offset: 92009},
 																																																					val:        "\r\n",
 																																																					ignoreCase: false,
 																																																					want:       "\"\\r\\n\"",
 																																																				},
 																																																				&litMatcher{
-																																																					pos:        position{line: 2914, col: 29, offset: 92023},
+																																																					pos:        position{line: 2914, col: 29, offset: 92018},
 																																																					val:        "\r",
 																																																					ignoreCase: false,
 																																																					want:       "\"\\r\"",
@@ -10193,9 +10193,9 @@ var g = &grammar{
 																																																		},
 																																																	},
 																																																	&notExpr{
-																																																		pos: position{line: 2924, col: 8, offset: 92183},
+																																																		pos: position{line: 2924, col: 8, offset: 92178},
 																																																		expr: &anyMatcher{
-																																																			line: 2924, col: 9, offset: 92184,
+																																																			line: 2924, col: 9, offset: 92179,
 																																																		},
 																																																	},
 																																																},
@@ -10203,16 +10203,16 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2924, col: 8, offset: 92183},
+																																														pos: position{line: 2924, col: 8, offset: 92178},
 																																														expr: &anyMatcher{
-																																															line: 2924, col: 9, offset: 92184,
+																																															line: 2924, col: 9, offset: 92179,
 																																														},
 																																													},
 																																												},
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2696, col: 9, offset: 85660},
+																																											pos: position{line: 2696, col: 9, offset: 85655},
 																																											expr: &actionExpr{
 																																												pos: position{line: 687, col: 14, offset: 21867},
 																																												run: (*parser).callonDocumentFragment1370,
@@ -10220,18 +10220,18 @@ var g = &grammar{
 																																													pos: position{line: 687, col: 14, offset: 21867},
 																																													exprs: []interface{}{
 																																														&andExpr{
-																																															pos: position{line: 2922, col: 11, offset: 92169},
+																																															pos: position{line: 2922, col: 11, offset: 92164},
 																																															expr: &anyMatcher{
-																																																line: 2922, col: 13, offset: 92171,
+																																																line: 2922, col: 13, offset: 92166,
 																																															},
 																																														},
 																																														&zeroOrMoreExpr{
 																																															pos: position{line: 687, col: 21, offset: 21874},
 																																															expr: &actionExpr{
-																																																pos: position{line: 2905, col: 10, offset: 91835},
+																																																pos: position{line: 2905, col: 10, offset: 91830},
 																																																run: (*parser).callonDocumentFragment1375,
 																																																expr: &charClassMatcher{
-																																																	pos:        position{line: 2905, col: 10, offset: 91835},
+																																																	pos:        position{line: 2905, col: 10, offset: 91830},
 																																																	val:        "[\\t ]",
 																																																	chars:      []rune{'\t', ' '},
 																																																	ignoreCase: false,
@@ -10240,28 +10240,28 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&choiceExpr{
-																																															pos: position{line: 2927, col: 8, offset: 92233},
+																																															pos: position{line: 2927, col: 8, offset: 92228},
 																																															alternatives: []interface{}{
 																																																&actionExpr{
-																																																	pos: position{line: 2914, col: 12, offset: 92006},
+																																																	pos: position{line: 2914, col: 12, offset: 92001},
 																																																	run: (*parser).callonDocumentFragment1378,
 																																																	expr: &choiceExpr{
-																																																		pos: position{line: 2914, col: 13, offset: 92007},
+																																																		pos: position{line: 2914, col: 13, offset: 92002},
 																																																		alternatives: []interface{}{
 																																																			&litMatcher{
-																																																				pos:        position{line: 2914, col: 13, offset: 92007},
+																																																				pos:        position{line: 2914, col: 13, offset: 92002},
 																																																				val:        "\n",
 																																																				ignoreCase: false,
 																																																				want:       "\"\\n\"",
 																																																			},
 																																																			&litMatcher{
-																																																				pos:        position{line: 2914, col: 20, offset: 92014},
+																																																				pos:        position{line: 2914, col: 20, offset: 92009},
 																																																				val:        "\r\n",
 																																																				ignoreCase: false,
 																																																				want:       "\"\\r\\n\"",
 																																																			},
 																																																			&litMatcher{
-																																																				pos:        position{line: 2914, col: 29, offset: 92023},
+																																																				pos:        position{line: 2914, col: 29, offset: 92018},
 																																																				val:        "\r",
 																																																				ignoreCase: false,
 																																																				want:       "\"\\r\"",
@@ -10270,9 +10270,9 @@ var g = &grammar{
 																																																	},
 																																																},
 																																																&notExpr{
-																																																	pos: position{line: 2924, col: 8, offset: 92183},
+																																																	pos: position{line: 2924, col: 8, offset: 92178},
 																																																	expr: &anyMatcher{
-																																																		line: 2924, col: 9, offset: 92184,
+																																																		line: 2924, col: 9, offset: 92179,
 																																																	},
 																																																},
 																																															},
@@ -10282,22 +10282,22 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2697, col: 9, offset: 85679},
+																																											pos: position{line: 2697, col: 9, offset: 85674},
 																																											expr: &seqExpr{
-																																												pos: position{line: 2697, col: 11, offset: 85681},
+																																												pos: position{line: 2697, col: 11, offset: 85676},
 																																												exprs: []interface{}{
 																																													&labeledExpr{
-																																														pos:   position{line: 2697, col: 11, offset: 85681},
+																																														pos:   position{line: 2697, col: 11, offset: 85676},
 																																														label: "format",
 																																														expr: &zeroOrOneExpr{
-																																															pos: position{line: 2697, col: 18, offset: 85688},
+																																															pos: position{line: 2697, col: 18, offset: 85683},
 																																															expr: &actionExpr{
-																																																pos: position{line: 2705, col: 20, offset: 85910},
+																																																pos: position{line: 2705, col: 20, offset: 85905},
 																																																run: (*parser).callonDocumentFragment1389,
 																																																expr: &zeroOrMoreExpr{
-																																																	pos: position{line: 2705, col: 20, offset: 85910},
+																																																	pos: position{line: 2705, col: 20, offset: 85905},
 																																																	expr: &charClassMatcher{
-																																																		pos:        position{line: 2705, col: 20, offset: 85910},
+																																																		pos:        position{line: 2705, col: 20, offset: 85905},
 																																																		val:        "[^ |\\r\\n]",
 																																																		chars:      []rune{' ', '|', '\r', '\n'},
 																																																		ignoreCase: false,
@@ -10308,7 +10308,7 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2697, col: 37, offset: 85707},
+																																														pos:        position{line: 2697, col: 37, offset: 85702},
 																																														val:        "|",
 																																														ignoreCase: false,
 																																														want:       "\"|\"",
@@ -10317,15 +10317,15 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&labeledExpr{
-																																											pos:   position{line: 2698, col: 9, offset: 85720},
+																																											pos:   position{line: 2698, col: 9, offset: 85715},
 																																											label: "content",
 																																											expr: &actionExpr{
-																																												pos: position{line: 2698, col: 18, offset: 85729},
+																																												pos: position{line: 2698, col: 18, offset: 85724},
 																																												run: (*parser).callonDocumentFragment1394,
 																																												expr: &zeroOrMoreExpr{
-																																													pos: position{line: 2698, col: 18, offset: 85729},
+																																													pos: position{line: 2698, col: 18, offset: 85724},
 																																													expr: &charClassMatcher{
-																																														pos:        position{line: 2698, col: 18, offset: 85729},
+																																														pos:        position{line: 2698, col: 18, offset: 85724},
 																																														val:        "[^|\\r\\n]",
 																																														chars:      []rune{'|', '\r', '\n'},
 																																														ignoreCase: false,
@@ -10335,33 +10335,33 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&zeroOrOneExpr{
-																																											pos: position{line: 2700, col: 12, offset: 85791},
+																																											pos: position{line: 2700, col: 12, offset: 85786},
 																																											expr: &seqExpr{
-																																												pos: position{line: 2700, col: 13, offset: 85792},
+																																												pos: position{line: 2700, col: 13, offset: 85787},
 																																												exprs: []interface{}{
 																																													&choiceExpr{
-																																														pos: position{line: 2927, col: 8, offset: 92233},
+																																														pos: position{line: 2927, col: 8, offset: 92228},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2914, col: 12, offset: 92006},
+																																																pos: position{line: 2914, col: 12, offset: 92001},
 																																																run: (*parser).callonDocumentFragment1400,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2914, col: 13, offset: 92007},
+																																																	pos: position{line: 2914, col: 13, offset: 92002},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2914, col: 13, offset: 92007},
+																																																			pos:        position{line: 2914, col: 13, offset: 92002},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2914, col: 20, offset: 92014},
+																																																			pos:        position{line: 2914, col: 20, offset: 92009},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2914, col: 29, offset: 92023},
+																																																			pos:        position{line: 2914, col: 29, offset: 92018},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -10370,46 +10370,46 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2924, col: 8, offset: 92183},
+																																																pos: position{line: 2924, col: 8, offset: 92178},
 																																																expr: &anyMatcher{
-																																																	line: 2924, col: 9, offset: 92184,
+																																																	line: 2924, col: 9, offset: 92179,
 																																																},
 																																															},
 																																														},
 																																													},
 																																													&zeroOrMoreExpr{
-																																														pos: position{line: 2700, col: 17, offset: 85796},
+																																														pos: position{line: 2700, col: 17, offset: 85791},
 																																														expr: &actionExpr{
-																																															pos: position{line: 2497, col: 22, offset: 80369},
+																																															pos: position{line: 2497, col: 22, offset: 80364},
 																																															run: (*parser).callonDocumentFragment1408,
 																																															expr: &seqExpr{
-																																																pos: position{line: 2497, col: 22, offset: 80369},
+																																																pos: position{line: 2497, col: 22, offset: 80364},
 																																																exprs: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2502, col: 31, offset: 80590},
+																																																		pos:        position{line: 2502, col: 31, offset: 80585},
 																																																		val:        "//",
 																																																		ignoreCase: false,
 																																																		want:       "\"//\"",
 																																																	},
 																																																	&notExpr{
-																																																		pos: position{line: 2502, col: 36, offset: 80595},
+																																																		pos: position{line: 2502, col: 36, offset: 80590},
 																																																		expr: &litMatcher{
-																																																			pos:        position{line: 2502, col: 37, offset: 80596},
+																																																			pos:        position{line: 2502, col: 37, offset: 80591},
 																																																			val:        "//",
 																																																			ignoreCase: false,
 																																																			want:       "\"//\"",
 																																																		},
 																																																	},
 																																																	&labeledExpr{
-																																																		pos:   position{line: 2497, col: 49, offset: 80396},
+																																																		pos:   position{line: 2497, col: 49, offset: 80391},
 																																																		label: "content",
 																																																		expr: &actionExpr{
-																																																			pos: position{line: 2851, col: 13, offset: 90361},
+																																																			pos: position{line: 2851, col: 13, offset: 90356},
 																																																			run: (*parser).callonDocumentFragment1414,
 																																																			expr: &zeroOrMoreExpr{
-																																																				pos: position{line: 2851, col: 13, offset: 90361},
+																																																				pos: position{line: 2851, col: 13, offset: 90356},
 																																																				expr: &charClassMatcher{
-																																																					pos:        position{line: 2851, col: 13, offset: 90361},
+																																																					pos:        position{line: 2851, col: 13, offset: 90356},
 																																																					val:        "[^\\r\\n]",
 																																																					chars:      []rune{'\r', '\n'},
 																																																					ignoreCase: false,
@@ -10419,28 +10419,28 @@ var g = &grammar{
 																																																		},
 																																																	},
 																																																	&choiceExpr{
-																																																		pos: position{line: 2927, col: 8, offset: 92233},
+																																																		pos: position{line: 2927, col: 8, offset: 92228},
 																																																		alternatives: []interface{}{
 																																																			&actionExpr{
-																																																				pos: position{line: 2914, col: 12, offset: 92006},
+																																																				pos: position{line: 2914, col: 12, offset: 92001},
 																																																				run: (*parser).callonDocumentFragment1418,
 																																																				expr: &choiceExpr{
-																																																					pos: position{line: 2914, col: 13, offset: 92007},
+																																																					pos: position{line: 2914, col: 13, offset: 92002},
 																																																					alternatives: []interface{}{
 																																																						&litMatcher{
-																																																							pos:        position{line: 2914, col: 13, offset: 92007},
+																																																							pos:        position{line: 2914, col: 13, offset: 92002},
 																																																							val:        "\n",
 																																																							ignoreCase: false,
 																																																							want:       "\"\\n\"",
 																																																						},
 																																																						&litMatcher{
-																																																							pos:        position{line: 2914, col: 20, offset: 92014},
+																																																							pos:        position{line: 2914, col: 20, offset: 92009},
 																																																							val:        "\r\n",
 																																																							ignoreCase: false,
 																																																							want:       "\"\\r\\n\"",
 																																																						},
 																																																						&litMatcher{
-																																																							pos:        position{line: 2914, col: 29, offset: 92023},
+																																																							pos:        position{line: 2914, col: 29, offset: 92018},
 																																																							val:        "\r",
 																																																							ignoreCase: false,
 																																																							want:       "\"\\r\"",
@@ -10449,9 +10449,9 @@ var g = &grammar{
 																																																				},
 																																																			},
 																																																			&notExpr{
-																																																				pos: position{line: 2924, col: 8, offset: 92183},
+																																																				pos: position{line: 2924, col: 8, offset: 92178},
 																																																				expr: &anyMatcher{
-																																																					line: 2924, col: 9, offset: 92184,
+																																																					line: 2924, col: 9, offset: 92179,
 																																																				},
 																																																			},
 																																																		},
@@ -10485,18 +10485,18 @@ var g = &grammar{
 																													pos: position{line: 687, col: 14, offset: 21867},
 																													exprs: []interface{}{
 																														&andExpr{
-																															pos: position{line: 2922, col: 11, offset: 92169},
+																															pos: position{line: 2922, col: 11, offset: 92164},
 																															expr: &anyMatcher{
-																																line: 2922, col: 13, offset: 92171,
+																																line: 2922, col: 13, offset: 92166,
 																															},
 																														},
 																														&zeroOrMoreExpr{
 																															pos: position{line: 687, col: 21, offset: 21874},
 																															expr: &actionExpr{
-																																pos: position{line: 2905, col: 10, offset: 91835},
+																																pos: position{line: 2905, col: 10, offset: 91830},
 																																run: (*parser).callonDocumentFragment1430,
 																																expr: &charClassMatcher{
-																																	pos:        position{line: 2905, col: 10, offset: 91835},
+																																	pos:        position{line: 2905, col: 10, offset: 91830},
 																																	val:        "[\\t ]",
 																																	chars:      []rune{'\t', ' '},
 																																	ignoreCase: false,
@@ -10505,28 +10505,28 @@ var g = &grammar{
 																															},
 																														},
 																														&choiceExpr{
-																															pos: position{line: 2927, col: 8, offset: 92233},
+																															pos: position{line: 2927, col: 8, offset: 92228},
 																															alternatives: []interface{}{
 																																&actionExpr{
-																																	pos: position{line: 2914, col: 12, offset: 92006},
+																																	pos: position{line: 2914, col: 12, offset: 92001},
 																																	run: (*parser).callonDocumentFragment1433,
 																																	expr: &choiceExpr{
-																																		pos: position{line: 2914, col: 13, offset: 92007},
+																																		pos: position{line: 2914, col: 13, offset: 92002},
 																																		alternatives: []interface{}{
 																																			&litMatcher{
-																																				pos:        position{line: 2914, col: 13, offset: 92007},
+																																				pos:        position{line: 2914, col: 13, offset: 92002},
 																																				val:        "\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2914, col: 20, offset: 92014},
+																																				pos:        position{line: 2914, col: 20, offset: 92009},
 																																				val:        "\r\n",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\\n\"",
 																																			},
 																																			&litMatcher{
-																																				pos:        position{line: 2914, col: 29, offset: 92023},
+																																				pos:        position{line: 2914, col: 29, offset: 92018},
 																																				val:        "\r",
 																																				ignoreCase: false,
 																																				want:       "\"\\r\"",
@@ -10535,9 +10535,9 @@ var g = &grammar{
 																																	},
 																																},
 																																&notExpr{
-																																	pos: position{line: 2924, col: 8, offset: 92183},
+																																	pos: position{line: 2924, col: 8, offset: 92178},
 																																	expr: &anyMatcher{
-																																		line: 2924, col: 9, offset: 92184,
+																																		line: 2924, col: 9, offset: 92179,
 																																	},
 																																},
 																															},
@@ -10555,38 +10555,38 @@ var g = &grammar{
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 2639, col: 9, offset: 84307},
+																			pos: position{line: 2639, col: 9, offset: 84302},
 																			expr: &actionExpr{
-																				pos: position{line: 2497, col: 22, offset: 80369},
+																				pos: position{line: 2497, col: 22, offset: 80364},
 																				run: (*parser).callonDocumentFragment1441,
 																				expr: &seqExpr{
-																					pos: position{line: 2497, col: 22, offset: 80369},
+																					pos: position{line: 2497, col: 22, offset: 80364},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2502, col: 31, offset: 80590},
+																							pos:        position{line: 2502, col: 31, offset: 80585},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
 																						},
 																						&notExpr{
-																							pos: position{line: 2502, col: 36, offset: 80595},
+																							pos: position{line: 2502, col: 36, offset: 80590},
 																							expr: &litMatcher{
-																								pos:        position{line: 2502, col: 37, offset: 80596},
+																								pos:        position{line: 2502, col: 37, offset: 80591},
 																								val:        "//",
 																								ignoreCase: false,
 																								want:       "\"//\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 2497, col: 49, offset: 80396},
+																							pos:   position{line: 2497, col: 49, offset: 80391},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								run: (*parser).callonDocumentFragment1447,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2851, col: 13, offset: 90361},
+																									pos: position{line: 2851, col: 13, offset: 90356},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2851, col: 13, offset: 90361},
+																										pos:        position{line: 2851, col: 13, offset: 90356},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -10596,28 +10596,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonDocumentFragment1451,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -10626,9 +10626,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -10643,24 +10643,24 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2651, col: 22, offset: 84556},
+														pos: position{line: 2651, col: 22, offset: 84551},
 														alternatives: []interface{}{
 															&seqExpr{
-																pos: position{line: 2647, col: 19, offset: 84476},
+																pos: position{line: 2647, col: 19, offset: 84471},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2647, col: 19, offset: 84476},
+																		pos:        position{line: 2647, col: 19, offset: 84471},
 																		val:        "|===",
 																		ignoreCase: false,
 																		want:       "\"|===\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2647, col: 26, offset: 84483},
+																		pos: position{line: 2647, col: 26, offset: 84478},
 																		expr: &actionExpr{
-																			pos: position{line: 2905, col: 10, offset: 91835},
+																			pos: position{line: 2905, col: 10, offset: 91830},
 																			run: (*parser).callonDocumentFragment1462,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2905, col: 10, offset: 91835},
+																				pos:        position{line: 2905, col: 10, offset: 91830},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10669,28 +10669,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2927, col: 8, offset: 92233},
+																		pos: position{line: 2927, col: 8, offset: 92228},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92006},
+																				pos: position{line: 2914, col: 12, offset: 92001},
 																				run: (*parser).callonDocumentFragment1465,
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 13, offset: 92007},
+																					pos: position{line: 2914, col: 13, offset: 92002},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 13, offset: 92007},
+																							pos:        position{line: 2914, col: 13, offset: 92002},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 20, offset: 92014},
+																							pos:        position{line: 2914, col: 20, offset: 92009},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 29, offset: 92023},
+																							pos:        position{line: 2914, col: 29, offset: 92018},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10699,9 +10699,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2924, col: 8, offset: 92183},
+																				pos: position{line: 2924, col: 8, offset: 92178},
 																				expr: &anyMatcher{
-																					line: 2924, col: 9, offset: 92184,
+																					line: 2924, col: 9, offset: 92179,
 																				},
 																			},
 																		},
@@ -10709,9 +10709,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2924, col: 8, offset: 92183},
+																pos: position{line: 2924, col: 8, offset: 92178},
 																expr: &anyMatcher{
-																	line: 2924, col: 9, offset: 92184,
+																	line: 2924, col: 9, offset: 92179,
 																},
 															},
 														},
@@ -10720,36 +10720,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2497, col: 22, offset: 80369},
+											pos: position{line: 2497, col: 22, offset: 80364},
 											run: (*parser).callonDocumentFragment1474,
 											expr: &seqExpr{
-												pos: position{line: 2497, col: 22, offset: 80369},
+												pos: position{line: 2497, col: 22, offset: 80364},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2502, col: 31, offset: 80590},
+														pos:        position{line: 2502, col: 31, offset: 80585},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2502, col: 36, offset: 80595},
+														pos: position{line: 2502, col: 36, offset: 80590},
 														expr: &litMatcher{
-															pos:        position{line: 2502, col: 37, offset: 80596},
+															pos:        position{line: 2502, col: 37, offset: 80591},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2497, col: 49, offset: 80396},
+														pos:   position{line: 2497, col: 49, offset: 80391},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2851, col: 13, offset: 90361},
+															pos: position{line: 2851, col: 13, offset: 90356},
 															run: (*parser).callonDocumentFragment1480,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2851, col: 13, offset: 90361},
+																pos: position{line: 2851, col: 13, offset: 90356},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2851, col: 13, offset: 90361},
+																	pos:        position{line: 2851, col: 13, offset: 90356},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -10759,28 +10759,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2927, col: 8, offset: 92233},
+														pos: position{line: 2927, col: 8, offset: 92228},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2914, col: 12, offset: 92006},
+																pos: position{line: 2914, col: 12, offset: 92001},
 																run: (*parser).callonDocumentFragment1484,
 																expr: &choiceExpr{
-																	pos: position{line: 2914, col: 13, offset: 92007},
+																	pos: position{line: 2914, col: 13, offset: 92002},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 13, offset: 92007},
+																			pos:        position{line: 2914, col: 13, offset: 92002},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 20, offset: 92014},
+																			pos:        position{line: 2914, col: 20, offset: 92009},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 29, offset: 92023},
+																			pos:        position{line: 2914, col: 29, offset: 92018},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -10789,9 +10789,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2924, col: 8, offset: 92183},
+																pos: position{line: 2924, col: 8, offset: 92178},
 																expr: &anyMatcher{
-																	line: 2924, col: 9, offset: 92184,
+																	line: 2924, col: 9, offset: 92179,
 																},
 															},
 														},
@@ -10827,10 +10827,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1260, col: 36, offset: 39085},
 																		expr: &actionExpr{
-																			pos: position{line: 2905, col: 10, offset: 91835},
+																			pos: position{line: 2905, col: 10, offset: 91830},
 																			run: (*parser).callonDocumentFragment1499,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2905, col: 10, offset: 91835},
+																				pos:        position{line: 2905, col: 10, offset: 91830},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10839,28 +10839,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2927, col: 8, offset: 92233},
+																		pos: position{line: 2927, col: 8, offset: 92228},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92006},
+																				pos: position{line: 2914, col: 12, offset: 92001},
 																				run: (*parser).callonDocumentFragment1502,
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 13, offset: 92007},
+																					pos: position{line: 2914, col: 13, offset: 92002},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 13, offset: 92007},
+																							pos:        position{line: 2914, col: 13, offset: 92002},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 20, offset: 92014},
+																							pos:        position{line: 2914, col: 20, offset: 92009},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 29, offset: 92023},
+																							pos:        position{line: 2914, col: 29, offset: 92018},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -10869,9 +10869,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2924, col: 8, offset: 92183},
+																				pos: position{line: 2924, col: 8, offset: 92178},
 																				expr: &anyMatcher{
-																					line: 2924, col: 9, offset: 92184,
+																					line: 2924, col: 9, offset: 92179,
 																				},
 																			},
 																		},
@@ -10905,10 +10905,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 1260, col: 36, offset: 39085},
 																												expr: &actionExpr{
-																													pos: position{line: 2905, col: 10, offset: 91835},
+																													pos: position{line: 2905, col: 10, offset: 91830},
 																													run: (*parser).callonDocumentFragment1519,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2905, col: 10, offset: 91835},
+																														pos:        position{line: 2905, col: 10, offset: 91830},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -10917,28 +10917,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2927, col: 8, offset: 92233},
+																												pos: position{line: 2927, col: 8, offset: 92228},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2914, col: 12, offset: 92006},
+																														pos: position{line: 2914, col: 12, offset: 92001},
 																														run: (*parser).callonDocumentFragment1522,
 																														expr: &choiceExpr{
-																															pos: position{line: 2914, col: 13, offset: 92007},
+																															pos: position{line: 2914, col: 13, offset: 92002},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 13, offset: 92007},
+																																	pos:        position{line: 2914, col: 13, offset: 92002},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 20, offset: 92014},
+																																	pos:        position{line: 2914, col: 20, offset: 92009},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 29, offset: 92023},
+																																	pos:        position{line: 2914, col: 29, offset: 92018},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -10947,9 +10947,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2924, col: 8, offset: 92183},
+																														pos: position{line: 2924, col: 8, offset: 92178},
 																														expr: &anyMatcher{
-																															line: 2924, col: 9, offset: 92184,
+																															line: 2924, col: 9, offset: 92179,
 																														},
 																													},
 																												},
@@ -10976,10 +10976,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1260, col: 36, offset: 39085},
 																		expr: &actionExpr{
-																			pos: position{line: 2905, col: 10, offset: 91835},
+																			pos: position{line: 2905, col: 10, offset: 91830},
 																			run: (*parser).callonDocumentFragment1532,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2905, col: 10, offset: 91835},
+																				pos:        position{line: 2905, col: 10, offset: 91830},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -10988,28 +10988,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2927, col: 8, offset: 92233},
+																		pos: position{line: 2927, col: 8, offset: 92228},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92006},
+																				pos: position{line: 2914, col: 12, offset: 92001},
 																				run: (*parser).callonDocumentFragment1535,
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 13, offset: 92007},
+																					pos: position{line: 2914, col: 13, offset: 92002},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 13, offset: 92007},
+																							pos:        position{line: 2914, col: 13, offset: 92002},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 20, offset: 92014},
+																							pos:        position{line: 2914, col: 20, offset: 92009},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 29, offset: 92023},
+																							pos:        position{line: 2914, col: 29, offset: 92018},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -11018,9 +11018,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2924, col: 8, offset: 92183},
+																				pos: position{line: 2924, col: 8, offset: 92178},
 																				expr: &anyMatcher{
-																					line: 2924, col: 9, offset: 92184,
+																					line: 2924, col: 9, offset: 92179,
 																				},
 																			},
 																		},
@@ -11117,9 +11117,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2924, col: 8, offset: 92183},
+							pos: position{line: 2924, col: 8, offset: 92178},
 							expr: &anyMatcher{
-								line: 2924, col: 9, offset: 92184,
+								line: 2924, col: 9, offset: 92179,
 							},
 						},
 					},
@@ -11191,12 +11191,12 @@ var g = &grammar{
 										pos: position{line: 305, col: 9, offset: 9232},
 										exprs: []interface{}{
 											&actionExpr{
-												pos: position{line: 2909, col: 11, offset: 91896},
+												pos: position{line: 2909, col: 11, offset: 91891},
 												run: (*parser).callonAttributeDeclaration15,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2909, col: 11, offset: 91896},
+													pos: position{line: 2909, col: 11, offset: 91891},
 													expr: &charClassMatcher{
-														pos:        position{line: 2909, col: 11, offset: 91896},
+														pos:        position{line: 2909, col: 11, offset: 91891},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11218,28 +11218,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2927, col: 8, offset: 92233},
+							pos: position{line: 2927, col: 8, offset: 92228},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2914, col: 12, offset: 92006},
+									pos: position{line: 2914, col: 12, offset: 92001},
 									run: (*parser).callonAttributeDeclaration21,
 									expr: &choiceExpr{
-										pos: position{line: 2914, col: 13, offset: 92007},
+										pos: position{line: 2914, col: 13, offset: 92002},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2914, col: 13, offset: 92007},
+												pos:        position{line: 2914, col: 13, offset: 92002},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2914, col: 20, offset: 92014},
+												pos:        position{line: 2914, col: 20, offset: 92009},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2914, col: 29, offset: 92023},
+												pos:        position{line: 2914, col: 29, offset: 92018},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -11248,9 +11248,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2924, col: 8, offset: 92183},
+									pos: position{line: 2924, col: 8, offset: 92178},
 									expr: &anyMatcher{
-										line: 2924, col: 9, offset: 92184,
+										line: 2924, col: 9, offset: 92179,
 									},
 								},
 							},
@@ -11294,25 +11294,25 @@ var g = &grammar{
 												want:       "\"\\\\\"",
 											},
 											&actionExpr{
-												pos: position{line: 2914, col: 12, offset: 92006},
+												pos: position{line: 2914, col: 12, offset: 92001},
 												run: (*parser).callonAttributeDeclarationValue10,
 												expr: &choiceExpr{
-													pos: position{line: 2914, col: 13, offset: 92007},
+													pos: position{line: 2914, col: 13, offset: 92002},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2914, col: 13, offset: 92007},
+															pos:        position{line: 2914, col: 13, offset: 92002},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2914, col: 20, offset: 92014},
+															pos:        position{line: 2914, col: 20, offset: 92009},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2914, col: 29, offset: 92023},
+															pos:        position{line: 2914, col: 29, offset: 92018},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -11323,10 +11323,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 326, col: 9, offset: 9933},
 												expr: &actionExpr{
-													pos: position{line: 2905, col: 10, offset: 91835},
+													pos: position{line: 2905, col: 10, offset: 91830},
 													run: (*parser).callonAttributeDeclarationValue16,
 													expr: &charClassMatcher{
-														pos:        position{line: 2905, col: 10, offset: 91835},
+														pos:        position{line: 2905, col: 10, offset: 91830},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -11396,10 +11396,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 344, col: 13, offset: 10478},
 										expr: &actionExpr{
-											pos: position{line: 2905, col: 10, offset: 91835},
+											pos: position{line: 2905, col: 10, offset: 91830},
 											run: (*parser).callonAttributeDeclarationValueElement8,
 											expr: &charClassMatcher{
-												pos:        position{line: 2905, col: 10, offset: 91835},
+												pos:        position{line: 2905, col: 10, offset: 91830},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -11408,28 +11408,28 @@ var g = &grammar{
 										},
 									},
 									&choiceExpr{
-										pos: position{line: 2927, col: 8, offset: 92233},
+										pos: position{line: 2927, col: 8, offset: 92228},
 										alternatives: []interface{}{
 											&actionExpr{
-												pos: position{line: 2914, col: 12, offset: 92006},
+												pos: position{line: 2914, col: 12, offset: 92001},
 												run: (*parser).callonAttributeDeclarationValueElement11,
 												expr: &choiceExpr{
-													pos: position{line: 2914, col: 13, offset: 92007},
+													pos: position{line: 2914, col: 13, offset: 92002},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2914, col: 13, offset: 92007},
+															pos:        position{line: 2914, col: 13, offset: 92002},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2914, col: 20, offset: 92014},
+															pos:        position{line: 2914, col: 20, offset: 92009},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2914, col: 29, offset: 92023},
+															pos:        position{line: 2914, col: 29, offset: 92018},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -11438,9 +11438,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2924, col: 8, offset: 92183},
+												pos: position{line: 2924, col: 8, offset: 92178},
 												expr: &anyMatcher{
-													line: 2924, col: 9, offset: 92184,
+													line: 2924, col: 9, offset: 92179,
 												},
 											},
 										},
@@ -11490,23 +11490,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2484, col: 5, offset: 79915},
+										pos: position{line: 2484, col: 5, offset: 79910},
 										run: (*parser).callonAttributeDeclarationValueElement28,
 										expr: &seqExpr{
-											pos: position{line: 2484, col: 5, offset: 79915},
+											pos: position{line: 2484, col: 5, offset: 79910},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2484, col: 5, offset: 79915},
+													pos: position{line: 2484, col: 5, offset: 79910},
 													run: (*parser).callonAttributeDeclarationValueElement30,
 												},
 												&labeledExpr{
-													pos:   position{line: 2487, col: 5, offset: 79991},
+													pos:   position{line: 2487, col: 5, offset: 79986},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2488, col: 9, offset: 80009},
+														pos: position{line: 2488, col: 9, offset: 80004},
 														run: (*parser).callonAttributeDeclarationValueElement32,
 														expr: &charClassMatcher{
-															pos:        position{line: 2488, col: 10, offset: 80010},
+															pos:        position{line: 2488, col: 10, offset: 80005},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -11518,10 +11518,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2905, col: 10, offset: 91835},
+										pos: position{line: 2905, col: 10, offset: 91830},
 										run: (*parser).callonAttributeDeclarationValueElement34,
 										expr: &charClassMatcher{
-											pos:        position{line: 2905, col: 10, offset: 91835},
+											pos:        position{line: 2905, col: 10, offset: 91830},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -12374,10 +12374,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 379, col: 35, offset: 11730},
 												expr: &actionExpr{
-													pos: position{line: 2905, col: 10, offset: 91835},
+													pos: position{line: 2905, col: 10, offset: 91830},
 													run: (*parser).callonBlockAttributes100,
 													expr: &charClassMatcher{
-														pos:        position{line: 2905, col: 10, offset: 91835},
+														pos:        position{line: 2905, col: 10, offset: 91830},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12386,28 +12386,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2927, col: 8, offset: 92233},
+												pos: position{line: 2927, col: 8, offset: 92228},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2914, col: 12, offset: 92006},
+														pos: position{line: 2914, col: 12, offset: 92001},
 														run: (*parser).callonBlockAttributes103,
 														expr: &choiceExpr{
-															pos: position{line: 2914, col: 13, offset: 92007},
+															pos: position{line: 2914, col: 13, offset: 92002},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2914, col: 13, offset: 92007},
+																	pos:        position{line: 2914, col: 13, offset: 92002},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2914, col: 20, offset: 92014},
+																	pos:        position{line: 2914, col: 20, offset: 92009},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2914, col: 29, offset: 92023},
+																	pos:        position{line: 2914, col: 29, offset: 92018},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12416,9 +12416,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2924, col: 8, offset: 92183},
+														pos: position{line: 2924, col: 8, offset: 92178},
 														expr: &anyMatcher{
-															line: 2924, col: 9, offset: 92184,
+															line: 2924, col: 9, offset: 92179,
 														},
 													},
 												},
@@ -12432,18 +12432,18 @@ var g = &grammar{
 														pos: position{line: 687, col: 14, offset: 21867},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2922, col: 11, offset: 92169},
+																pos: position{line: 2922, col: 11, offset: 92164},
 																expr: &anyMatcher{
-																	line: 2922, col: 13, offset: 92171,
+																	line: 2922, col: 13, offset: 92166,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 687, col: 21, offset: 21874},
 																expr: &actionExpr{
-																	pos: position{line: 2905, col: 10, offset: 91835},
+																	pos: position{line: 2905, col: 10, offset: 91830},
 																	run: (*parser).callonBlockAttributes116,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2905, col: 10, offset: 91835},
+																		pos:        position{line: 2905, col: 10, offset: 91830},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12452,28 +12452,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2927, col: 8, offset: 92233},
+																pos: position{line: 2927, col: 8, offset: 92228},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2914, col: 12, offset: 92006},
+																		pos: position{line: 2914, col: 12, offset: 92001},
 																		run: (*parser).callonBlockAttributes119,
 																		expr: &choiceExpr{
-																			pos: position{line: 2914, col: 13, offset: 92007},
+																			pos: position{line: 2914, col: 13, offset: 92002},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2914, col: 13, offset: 92007},
+																					pos:        position{line: 2914, col: 13, offset: 92002},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2914, col: 20, offset: 92014},
+																					pos:        position{line: 2914, col: 20, offset: 92009},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2914, col: 29, offset: 92023},
+																					pos:        position{line: 2914, col: 29, offset: 92018},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12482,9 +12482,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2924, col: 8, offset: 92183},
+																		pos: position{line: 2924, col: 8, offset: 92178},
 																		expr: &anyMatcher{
-																			line: 2924, col: 9, offset: 92184,
+																			line: 2924, col: 9, offset: 92179,
 																		},
 																	},
 																},
@@ -12536,12 +12536,12 @@ var g = &grammar{
 																		pos: position{line: 433, col: 9, offset: 13306},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2799, col: 14, offset: 89004},
+																				pos: position{line: 2799, col: 14, offset: 88999},
 																				run: (*parser).callonBlockAttributes137,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2799, col: 14, offset: 89004},
+																					pos: position{line: 2799, col: 14, offset: 88999},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2799, col: 14, offset: 89004},
+																						pos:        position{line: 2799, col: 14, offset: 88999},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -12550,10 +12550,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2905, col: 10, offset: 91835},
+																				pos: position{line: 2905, col: 10, offset: 91830},
 																				run: (*parser).callonBlockAttributes140,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2905, col: 10, offset: 91835},
+																					pos:        position{line: 2905, col: 10, offset: 91830},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -12561,27 +12561,27 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2822, col: 5, offset: 89489},
+																				pos: position{line: 2822, col: 5, offset: 89484},
 																				run: (*parser).callonBlockAttributes142,
 																				expr: &choiceExpr{
-																					pos: position{line: 2823, col: 9, offset: 89499},
+																					pos: position{line: 2823, col: 9, offset: 89494},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2823, col: 10, offset: 89500},
+																							pos:        position{line: 2823, col: 10, offset: 89495},
 																							val:        "[.,;?)!/:\"\\@=-]",
 																							chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&seqExpr{
-																							pos: position{line: 2825, col: 13, offset: 89597},
+																							pos: position{line: 2825, col: 13, offset: 89592},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2825, col: 13, offset: 89597},
+																									pos: position{line: 2825, col: 13, offset: 89592},
 																									run: (*parser).callonBlockAttributes146,
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2828, col: 13, offset: 89697},
+																									pos:        position{line: 2828, col: 13, offset: 89692},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
@@ -12589,20 +12589,20 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2828, col: 19, offset: 89703},
+																							pos:        position{line: 2828, col: 19, offset: 89698},
 																							val:        "]",
 																							ignoreCase: false,
 																							want:       "\"]\"",
 																						},
 																						&seqExpr{
-																							pos: position{line: 2831, col: 13, offset: 89741},
+																							pos: position{line: 2831, col: 13, offset: 89736},
 																							exprs: []interface{}{
 																								&andCodeExpr{
-																									pos: position{line: 2831, col: 13, offset: 89741},
+																									pos: position{line: 2831, col: 13, offset: 89736},
 																									run: (*parser).callonBlockAttributes150,
 																								},
 																								&charClassMatcher{
-																									pos:        position{line: 2834, col: 14, offset: 89834},
+																									pos:        position{line: 2834, col: 14, offset: 89829},
 																									val:        "[*_`#]",
 																									chars:      []rune{'*', '_', '`', '#'},
 																									ignoreCase: false,
@@ -12611,18 +12611,18 @@ var g = &grammar{
 																							},
 																						},
 																						&seqExpr{
-																							pos: position{line: 2836, col: 12, offset: 89878},
+																							pos: position{line: 2836, col: 12, offset: 89873},
 																							exprs: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2836, col: 12, offset: 89878},
+																									pos:        position{line: 2836, col: 12, offset: 89873},
 																									val:        "(",
 																									ignoreCase: false,
 																									want:       "\"(\"",
 																								},
 																								&notExpr{
-																									pos: position{line: 2836, col: 16, offset: 89882},
+																									pos: position{line: 2836, col: 16, offset: 89877},
 																									expr: &litMatcher{
-																										pos:        position{line: 2836, col: 17, offset: 89883},
+																										pos:        position{line: 2836, col: 17, offset: 89878},
 																										val:        "(",
 																										ignoreCase: false,
 																										want:       "\"(\"",
@@ -12740,10 +12740,10 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2844, col: 12, offset: 90143},
+																				pos: position{line: 2844, col: 12, offset: 90138},
 																				run: (*parser).callonBlockAttributes176,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2844, col: 12, offset: 90143},
+																					pos:        position{line: 2844, col: 12, offset: 90138},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -12761,10 +12761,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 383, col: 35, offset: 11885},
 												expr: &actionExpr{
-													pos: position{line: 2905, col: 10, offset: 91835},
+													pos: position{line: 2905, col: 10, offset: 91830},
 													run: (*parser).callonBlockAttributes179,
 													expr: &charClassMatcher{
-														pos:        position{line: 2905, col: 10, offset: 91835},
+														pos:        position{line: 2905, col: 10, offset: 91830},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12773,28 +12773,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2927, col: 8, offset: 92233},
+												pos: position{line: 2927, col: 8, offset: 92228},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2914, col: 12, offset: 92006},
+														pos: position{line: 2914, col: 12, offset: 92001},
 														run: (*parser).callonBlockAttributes182,
 														expr: &choiceExpr{
-															pos: position{line: 2914, col: 13, offset: 92007},
+															pos: position{line: 2914, col: 13, offset: 92002},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2914, col: 13, offset: 92007},
+																	pos:        position{line: 2914, col: 13, offset: 92002},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2914, col: 20, offset: 92014},
+																	pos:        position{line: 2914, col: 20, offset: 92009},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2914, col: 29, offset: 92023},
+																	pos:        position{line: 2914, col: 29, offset: 92018},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12803,9 +12803,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2924, col: 8, offset: 92183},
+														pos: position{line: 2924, col: 8, offset: 92178},
 														expr: &anyMatcher{
-															line: 2924, col: 9, offset: 92184,
+															line: 2924, col: 9, offset: 92179,
 														},
 													},
 												},
@@ -12819,18 +12819,18 @@ var g = &grammar{
 														pos: position{line: 687, col: 14, offset: 21867},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2922, col: 11, offset: 92169},
+																pos: position{line: 2922, col: 11, offset: 92164},
 																expr: &anyMatcher{
-																	line: 2922, col: 13, offset: 92171,
+																	line: 2922, col: 13, offset: 92166,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 687, col: 21, offset: 21874},
 																expr: &actionExpr{
-																	pos: position{line: 2905, col: 10, offset: 91835},
+																	pos: position{line: 2905, col: 10, offset: 91830},
 																	run: (*parser).callonBlockAttributes195,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2905, col: 10, offset: 91835},
+																		pos:        position{line: 2905, col: 10, offset: 91830},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12839,28 +12839,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2927, col: 8, offset: 92233},
+																pos: position{line: 2927, col: 8, offset: 92228},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2914, col: 12, offset: 92006},
+																		pos: position{line: 2914, col: 12, offset: 92001},
 																		run: (*parser).callonBlockAttributes198,
 																		expr: &choiceExpr{
-																			pos: position{line: 2914, col: 13, offset: 92007},
+																			pos: position{line: 2914, col: 13, offset: 92002},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2914, col: 13, offset: 92007},
+																					pos:        position{line: 2914, col: 13, offset: 92002},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2914, col: 20, offset: 92014},
+																					pos:        position{line: 2914, col: 20, offset: 92009},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2914, col: 29, offset: 92023},
+																					pos:        position{line: 2914, col: 29, offset: 92018},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -12869,9 +12869,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2924, col: 8, offset: 92183},
+																		pos: position{line: 2924, col: 8, offset: 92178},
 																		expr: &anyMatcher{
-																			line: 2924, col: 9, offset: 92184,
+																			line: 2924, col: 9, offset: 92179,
 																		},
 																	},
 																},
@@ -12900,10 +12900,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 387, col: 44, offset: 12018},
 												expr: &actionExpr{
-													pos: position{line: 2905, col: 10, offset: 91835},
+													pos: position{line: 2905, col: 10, offset: 91830},
 													run: (*parser).callonBlockAttributes210,
 													expr: &charClassMatcher{
-														pos:        position{line: 2905, col: 10, offset: 91835},
+														pos:        position{line: 2905, col: 10, offset: 91830},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -12912,28 +12912,28 @@ var g = &grammar{
 												},
 											},
 											&choiceExpr{
-												pos: position{line: 2927, col: 8, offset: 92233},
+												pos: position{line: 2927, col: 8, offset: 92228},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2914, col: 12, offset: 92006},
+														pos: position{line: 2914, col: 12, offset: 92001},
 														run: (*parser).callonBlockAttributes213,
 														expr: &choiceExpr{
-															pos: position{line: 2914, col: 13, offset: 92007},
+															pos: position{line: 2914, col: 13, offset: 92002},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2914, col: 13, offset: 92007},
+																	pos:        position{line: 2914, col: 13, offset: 92002},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2914, col: 20, offset: 92014},
+																	pos:        position{line: 2914, col: 20, offset: 92009},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2914, col: 29, offset: 92023},
+																	pos:        position{line: 2914, col: 29, offset: 92018},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -12942,9 +12942,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2924, col: 8, offset: 92183},
+														pos: position{line: 2924, col: 8, offset: 92178},
 														expr: &anyMatcher{
-															line: 2924, col: 9, offset: 92184,
+															line: 2924, col: 9, offset: 92179,
 														},
 													},
 												},
@@ -12958,18 +12958,18 @@ var g = &grammar{
 														pos: position{line: 687, col: 14, offset: 21867},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2922, col: 11, offset: 92169},
+																pos: position{line: 2922, col: 11, offset: 92164},
 																expr: &anyMatcher{
-																	line: 2922, col: 13, offset: 92171,
+																	line: 2922, col: 13, offset: 92166,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 687, col: 21, offset: 21874},
 																expr: &actionExpr{
-																	pos: position{line: 2905, col: 10, offset: 91835},
+																	pos: position{line: 2905, col: 10, offset: 91830},
 																	run: (*parser).callonBlockAttributes226,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2905, col: 10, offset: 91835},
+																		pos:        position{line: 2905, col: 10, offset: 91830},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -12978,28 +12978,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2927, col: 8, offset: 92233},
+																pos: position{line: 2927, col: 8, offset: 92228},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2914, col: 12, offset: 92006},
+																		pos: position{line: 2914, col: 12, offset: 92001},
 																		run: (*parser).callonBlockAttributes229,
 																		expr: &choiceExpr{
-																			pos: position{line: 2914, col: 13, offset: 92007},
+																			pos: position{line: 2914, col: 13, offset: 92002},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2914, col: 13, offset: 92007},
+																					pos:        position{line: 2914, col: 13, offset: 92002},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2914, col: 20, offset: 92014},
+																					pos:        position{line: 2914, col: 20, offset: 92009},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2914, col: 29, offset: 92023},
+																					pos:        position{line: 2914, col: 29, offset: 92018},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -13008,9 +13008,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2924, col: 8, offset: 92183},
+																		pos: position{line: 2924, col: 8, offset: 92178},
 																		expr: &anyMatcher{
-																			line: 2924, col: 9, offset: 92184,
+																			line: 2924, col: 9, offset: 92179,
 																		},
 																	},
 																},
@@ -13258,10 +13258,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 473, col: 13, offset: 14774},
 										expr: &actionExpr{
-											pos: position{line: 2905, col: 10, offset: 91835},
+											pos: position{line: 2905, col: 10, offset: 91830},
 											run: (*parser).callonFirstPositionalAttributes23,
 											expr: &charClassMatcher{
-												pos:        position{line: 2905, col: 10, offset: 91835},
+												pos:        position{line: 2905, col: 10, offset: 91830},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -13793,10 +13793,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 525, col: 9, offset: 16366},
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 10, offset: 91835},
+														pos: position{line: 2905, col: 10, offset: 91830},
 														run: (*parser).callonShortHandAttributeValue88,
 														expr: &charClassMatcher{
-															pos:        position{line: 2905, col: 10, offset: 91835},
+															pos:        position{line: 2905, col: 10, offset: 91830},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -13857,10 +13857,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 531, col: 34, offset: 16509},
 														expr: &actionExpr{
-															pos: position{line: 2905, col: 10, offset: 91835},
+															pos: position{line: 2905, col: 10, offset: 91830},
 															run: (*parser).callonPositionalAttribute11,
 															expr: &charClassMatcher{
-																pos:        position{line: 2905, col: 10, offset: 91835},
+																pos:        position{line: 2905, col: 10, offset: 91830},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -13900,10 +13900,10 @@ var g = &grammar{
 											&zeroOrMoreExpr{
 												pos: position{line: 536, col: 13, offset: 16673},
 												expr: &actionExpr{
-													pos: position{line: 2905, col: 10, offset: 91835},
+													pos: position{line: 2905, col: 10, offset: 91830},
 													run: (*parser).callonPositionalAttribute20,
 													expr: &charClassMatcher{
-														pos:        position{line: 2905, col: 10, offset: 91835},
+														pos:        position{line: 2905, col: 10, offset: 91830},
 														val:        "[\\t ]",
 														chars:      []rune{'\t', ' '},
 														ignoreCase: false,
@@ -13926,10 +13926,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 536, col: 26, offset: 16686},
 																expr: &actionExpr{
-																	pos: position{line: 2905, col: 10, offset: 91835},
+																	pos: position{line: 2905, col: 10, offset: 91830},
 																	run: (*parser).callonPositionalAttribute26,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2905, col: 10, offset: 91835},
+																		pos:        position{line: 2905, col: 10, offset: 91830},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -13984,10 +13984,10 @@ var g = &grammar{
 										&notExpr{
 											pos: position{line: 556, col: 22, offset: 17333},
 											expr: &actionExpr{
-												pos: position{line: 2905, col: 10, offset: 91835},
+												pos: position{line: 2905, col: 10, offset: 91830},
 												run: (*parser).callonNamedAttribute7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2905, col: 10, offset: 91835},
+													pos:        position{line: 2905, col: 10, offset: 91830},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14018,10 +14018,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 549, col: 9, offset: 17078},
 							expr: &actionExpr{
-								pos: position{line: 2905, col: 10, offset: 91835},
+								pos: position{line: 2905, col: 10, offset: 91830},
 								run: (*parser).callonNamedAttribute13,
 								expr: &charClassMatcher{
-									pos:        position{line: 2905, col: 10, offset: 91835},
+									pos:        position{line: 2905, col: 10, offset: 91830},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -14051,10 +14051,10 @@ var g = &grammar{
 									&zeroOrMoreExpr{
 										pos: position{line: 550, col: 33, offset: 17118},
 										expr: &actionExpr{
-											pos: position{line: 2905, col: 10, offset: 91835},
+											pos: position{line: 2905, col: 10, offset: 91830},
 											run: (*parser).callonNamedAttribute21,
 											expr: &charClassMatcher{
-												pos:        position{line: 2905, col: 10, offset: 91835},
+												pos:        position{line: 2905, col: 10, offset: 91830},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -14109,10 +14109,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 566, col: 9, offset: 17550},
 											expr: &actionExpr{
-												pos: position{line: 2905, col: 10, offset: 91835},
+												pos: position{line: 2905, col: 10, offset: 91830},
 												run: (*parser).callonAttributeValue12,
 												expr: &charClassMatcher{
-													pos:        position{line: 2905, col: 10, offset: 91835},
+													pos:        position{line: 2905, col: 10, offset: 91830},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14191,12 +14191,12 @@ var g = &grammar{
 							pos: position{line: 579, col: 9, offset: 17867},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2799, col: 14, offset: 89004},
+									pos: position{line: 2799, col: 14, offset: 88999},
 									run: (*parser).callonSingleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2799, col: 14, offset: 89004},
+										pos: position{line: 2799, col: 14, offset: 88999},
 										expr: &charClassMatcher{
-											pos:        position{line: 2799, col: 14, offset: 89004},
+											pos:        position{line: 2799, col: 14, offset: 88999},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14205,10 +14205,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2905, col: 10, offset: 91835},
+									pos: position{line: 2905, col: 10, offset: 91830},
 									run: (*parser).callonSingleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2905, col: 10, offset: 91835},
+										pos:        position{line: 2905, col: 10, offset: 91830},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -14665,10 +14665,10 @@ var g = &grammar{
 										&zeroOrMoreExpr{
 											pos: position{line: 599, col: 14, offset: 18618},
 											expr: &actionExpr{
-												pos: position{line: 2905, col: 10, offset: 91835},
+												pos: position{line: 2905, col: 10, offset: 91830},
 												run: (*parser).callonDoubleQuotedAttributeValue13,
 												expr: &charClassMatcher{
-													pos:        position{line: 2905, col: 10, offset: 91835},
+													pos:        position{line: 2905, col: 10, offset: 91830},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -14705,12 +14705,12 @@ var g = &grammar{
 							pos: position{line: 605, col: 9, offset: 18729},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2799, col: 14, offset: 89004},
+									pos: position{line: 2799, col: 14, offset: 88999},
 									run: (*parser).callonDoubleQuotedAttributeValueContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2799, col: 14, offset: 89004},
+										pos: position{line: 2799, col: 14, offset: 88999},
 										expr: &charClassMatcher{
-											pos:        position{line: 2799, col: 14, offset: 89004},
+											pos:        position{line: 2799, col: 14, offset: 88999},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -14719,10 +14719,10 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2905, col: 10, offset: 91835},
+									pos: position{line: 2905, col: 10, offset: 91830},
 									run: (*parser).callonDoubleQuotedAttributeValueContent8,
 									expr: &charClassMatcher{
-										pos:        position{line: 2905, col: 10, offset: 91835},
+										pos:        position{line: 2905, col: 10, offset: 91830},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -15149,10 +15149,10 @@ var g = &grammar{
 						&notExpr{
 							pos: position{line: 626, col: 5, offset: 19596},
 							expr: &actionExpr{
-								pos: position{line: 2905, col: 10, offset: 91835},
+								pos: position{line: 2905, col: 10, offset: 91830},
 								run: (*parser).callonUnquotedAttributeValue4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2905, col: 10, offset: 91835},
+									pos:        position{line: 2905, col: 10, offset: 91830},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -15542,10 +15542,10 @@ var g = &grammar{
 											want:       "\"{\"",
 										},
 										&actionExpr{
-											pos: position{line: 2905, col: 10, offset: 91835},
+											pos: position{line: 2905, col: 10, offset: 91830},
 											run: (*parser).callonUnquotedAttributeValue83,
 											expr: &charClassMatcher{
-												pos:        position{line: 2905, col: 10, offset: 91835},
+												pos:        position{line: 2905, col: 10, offset: 91830},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -15573,25 +15573,25 @@ var g = &grammar{
 												pos: position{line: 634, col: 12, offset: 20029},
 												exprs: []interface{}{
 													&actionExpr{
-														pos: position{line: 2914, col: 12, offset: 92006},
+														pos: position{line: 2914, col: 12, offset: 92001},
 														run: (*parser).callonUnquotedAttributeValue90,
 														expr: &choiceExpr{
-															pos: position{line: 2914, col: 13, offset: 92007},
+															pos: position{line: 2914, col: 13, offset: 92002},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2914, col: 13, offset: 92007},
+																	pos:        position{line: 2914, col: 13, offset: 92002},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2914, col: 20, offset: 92014},
+																	pos:        position{line: 2914, col: 20, offset: 92009},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2914, col: 29, offset: 92023},
+																	pos:        position{line: 2914, col: 29, offset: 92018},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -15602,18 +15602,18 @@ var g = &grammar{
 													&notExpr{
 														pos: position{line: 634, col: 20, offset: 20037},
 														expr: &seqExpr{
-															pos: position{line: 2502, col: 31, offset: 80590},
+															pos: position{line: 2502, col: 31, offset: 80585},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2502, col: 31, offset: 80590},
+																	pos:        position{line: 2502, col: 31, offset: 80585},
 																	val:        "//",
 																	ignoreCase: false,
 																	want:       "\"//\"",
 																},
 																&notExpr{
-																	pos: position{line: 2502, col: 36, offset: 80595},
+																	pos: position{line: 2502, col: 36, offset: 80590},
 																	expr: &litMatcher{
-																		pos:        position{line: 2502, col: 37, offset: 80596},
+																		pos:        position{line: 2502, col: 37, offset: 80591},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
@@ -15655,12 +15655,12 @@ var g = &grammar{
 									pos:   position{line: 696, col: 32, offset: 22227},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2890, col: 7, offset: 91487},
+										pos: position{line: 2890, col: 7, offset: 91482},
 										run: (*parser).callonCrossReference6,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2890, col: 7, offset: 91487},
+											pos: position{line: 2890, col: 7, offset: 91482},
 											expr: &charClassMatcher{
-												pos:        position{line: 2890, col: 7, offset: 91487},
+												pos:        position{line: 2890, col: 7, offset: 91482},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15672,10 +15672,10 @@ var g = &grammar{
 								&zeroOrMoreExpr{
 									pos: position{line: 696, col: 40, offset: 22235},
 									expr: &actionExpr{
-										pos: position{line: 2905, col: 10, offset: 91835},
+										pos: position{line: 2905, col: 10, offset: 91830},
 										run: (*parser).callonCrossReference10,
 										expr: &charClassMatcher{
-											pos:        position{line: 2905, col: 10, offset: 91835},
+											pos:        position{line: 2905, col: 10, offset: 91830},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -15890,12 +15890,12 @@ var g = &grammar{
 									pos:   position{line: 698, col: 14, offset: 22352},
 									label: "id",
 									expr: &actionExpr{
-										pos: position{line: 2890, col: 7, offset: 91487},
+										pos: position{line: 2890, col: 7, offset: 91482},
 										run: (*parser).callonCrossReference53,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2890, col: 7, offset: 91487},
+											pos: position{line: 2890, col: 7, offset: 91482},
 											expr: &charClassMatcher{
-												pos:        position{line: 2890, col: 7, offset: 91487},
+												pos:        position{line: 2890, col: 7, offset: 91482},
 												val:        "[^[]<>,]",
 												chars:      []rune{'[', ']', '<', '>', ','},
 												ignoreCase: false,
@@ -15939,41 +15939,41 @@ var g = &grammar{
 							pos:   position{line: 702, col: 35, offset: 22465},
 							label: "url",
 							expr: &actionExpr{
-								pos: position{line: 2859, col: 17, offset: 90498},
+								pos: position{line: 2859, col: 17, offset: 90493},
 								run: (*parser).callonExternalCrossReference5,
 								expr: &labeledExpr{
-									pos:   position{line: 2859, col: 17, offset: 90498},
+									pos:   position{line: 2859, col: 17, offset: 90493},
 									label: "path",
 									expr: &actionExpr{
-										pos: position{line: 2876, col: 5, offset: 90952},
+										pos: position{line: 2876, col: 5, offset: 90947},
 										run: (*parser).callonExternalCrossReference7,
 										expr: &labeledExpr{
-											pos:   position{line: 2876, col: 5, offset: 90952},
+											pos:   position{line: 2876, col: 5, offset: 90947},
 											label: "elements",
 											expr: &oneOrMoreExpr{
-												pos: position{line: 2876, col: 14, offset: 90961},
+												pos: position{line: 2876, col: 14, offset: 90956},
 												expr: &choiceExpr{
-													pos: position{line: 2877, col: 9, offset: 90971},
+													pos: position{line: 2877, col: 9, offset: 90966},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2877, col: 9, offset: 90971},
+															pos: position{line: 2877, col: 9, offset: 90966},
 															run: (*parser).callonExternalCrossReference11,
 															expr: &seqExpr{
-																pos: position{line: 2877, col: 9, offset: 90971},
+																pos: position{line: 2877, col: 9, offset: 90966},
 																exprs: []interface{}{
 																	&notExpr{
-																		pos: position{line: 2877, col: 9, offset: 90971},
+																		pos: position{line: 2877, col: 9, offset: 90966},
 																		expr: &litMatcher{
-																			pos:        position{line: 2877, col: 10, offset: 90972},
+																			pos:        position{line: 2877, col: 10, offset: 90967},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&oneOrMoreExpr{
-																		pos: position{line: 2878, col: 9, offset: 91000},
+																		pos: position{line: 2878, col: 9, offset: 90995},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2878, col: 10, offset: 91001},
+																			pos:        position{line: 2878, col: 10, offset: 90996},
 																			val:        "[^\\r\\n[]�{,;?!.<> ]",
 																			chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																			ignoreCase: false,
@@ -15984,27 +15984,27 @@ var g = &grammar{
 															},
 														},
 														&seqExpr{
-															pos: position{line: 2881, col: 11, offset: 91213},
+															pos: position{line: 2881, col: 11, offset: 91208},
 															exprs: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2881, col: 11, offset: 91213},
+																	pos:        position{line: 2881, col: 11, offset: 91208},
 																	val:        "[,;?!.]",
 																	chars:      []rune{',', ';', '?', '!', '.'},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&andExpr{
-																	pos: position{line: 2881, col: 19, offset: 91221},
+																	pos: position{line: 2881, col: 19, offset: 91216},
 																	expr: &seqExpr{
-																		pos: position{line: 2881, col: 21, offset: 91223},
+																		pos: position{line: 2881, col: 21, offset: 91218},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2881, col: 21, offset: 91223},
+																				pos: position{line: 2881, col: 21, offset: 91218},
 																				expr: &actionExpr{
-																					pos: position{line: 2905, col: 10, offset: 91835},
+																					pos: position{line: 2905, col: 10, offset: 91830},
 																					run: (*parser).callonExternalCrossReference22,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2905, col: 10, offset: 91835},
+																						pos:        position{line: 2905, col: 10, offset: 91830},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -16013,11 +16013,11 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2881, col: 28, offset: 91230},
+																				pos: position{line: 2881, col: 28, offset: 91225},
 																				expr: &notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -16412,10 +16412,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2884, col: 11, offset: 91350},
+															pos: position{line: 2884, col: 11, offset: 91345},
 															run: (*parser).callonExternalCrossReference104,
 															expr: &litMatcher{
-																pos:        position{line: 2884, col: 11, offset: 91350},
+																pos:        position{line: 2884, col: 11, offset: 91345},
 																val:        "{",
 																ignoreCase: false,
 																want:       "\"{\"",
@@ -16460,12 +16460,12 @@ var g = &grammar{
 							pos:   position{line: 1015, col: 11, offset: 31694},
 							label: "author",
 							expr: &actionExpr{
-								pos: position{line: 2855, col: 14, offset: 90428},
+								pos: position{line: 2855, col: 14, offset: 90423},
 								run: (*parser).callonMarkdownQuoteAttribution5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2855, col: 14, offset: 90428},
+									pos: position{line: 2855, col: 14, offset: 90423},
 									expr: &charClassMatcher{
-										pos:        position{line: 2855, col: 14, offset: 90428},
+										pos:        position{line: 2855, col: 14, offset: 90423},
 										val:        "[^\\r\\n]",
 										chars:      []rune{'\r', '\n'},
 										ignoreCase: false,
@@ -16475,28 +16475,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2927, col: 8, offset: 92233},
+							pos: position{line: 2927, col: 8, offset: 92228},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2914, col: 12, offset: 92006},
+									pos: position{line: 2914, col: 12, offset: 92001},
 									run: (*parser).callonMarkdownQuoteAttribution9,
 									expr: &choiceExpr{
-										pos: position{line: 2914, col: 13, offset: 92007},
+										pos: position{line: 2914, col: 13, offset: 92002},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2914, col: 13, offset: 92007},
+												pos:        position{line: 2914, col: 13, offset: 92002},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2914, col: 20, offset: 92014},
+												pos:        position{line: 2914, col: 20, offset: 92009},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2914, col: 29, offset: 92023},
+												pos:        position{line: 2914, col: 29, offset: 92018},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -16505,9 +16505,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2924, col: 8, offset: 92183},
+									pos: position{line: 2924, col: 8, offset: 92178},
 									expr: &anyMatcher{
-										line: 2924, col: 9, offset: 92184,
+										line: 2924, col: 9, offset: 92179,
 									},
 								},
 							},
@@ -16535,36 +16535,36 @@ var g = &grammar{
 								pos: position{line: 1130, col: 6, offset: 34696},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2497, col: 22, offset: 80369},
+										pos: position{line: 2497, col: 22, offset: 80364},
 										run: (*parser).callonDocumentHeader6,
 										expr: &seqExpr{
-											pos: position{line: 2497, col: 22, offset: 80369},
+											pos: position{line: 2497, col: 22, offset: 80364},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2502, col: 31, offset: 80590},
+													pos:        position{line: 2502, col: 31, offset: 80585},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2502, col: 36, offset: 80595},
+													pos: position{line: 2502, col: 36, offset: 80590},
 													expr: &litMatcher{
-														pos:        position{line: 2502, col: 37, offset: 80596},
+														pos:        position{line: 2502, col: 37, offset: 80591},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2497, col: 49, offset: 80396},
+													pos:   position{line: 2497, col: 49, offset: 80391},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2851, col: 13, offset: 90361},
+														pos: position{line: 2851, col: 13, offset: 90356},
 														run: (*parser).callonDocumentHeader12,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2851, col: 13, offset: 90361},
+															pos: position{line: 2851, col: 13, offset: 90356},
 															expr: &charClassMatcher{
-																pos:        position{line: 2851, col: 13, offset: 90361},
+																pos:        position{line: 2851, col: 13, offset: 90356},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -16574,28 +16574,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2927, col: 8, offset: 92233},
+													pos: position{line: 2927, col: 8, offset: 92228},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2914, col: 12, offset: 92006},
+															pos: position{line: 2914, col: 12, offset: 92001},
 															run: (*parser).callonDocumentHeader16,
 															expr: &choiceExpr{
-																pos: position{line: 2914, col: 13, offset: 92007},
+																pos: position{line: 2914, col: 13, offset: 92002},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 13, offset: 92007},
+																		pos:        position{line: 2914, col: 13, offset: 92002},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 20, offset: 92014},
+																		pos:        position{line: 2914, col: 20, offset: 92009},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 29, offset: 92023},
+																		pos:        position{line: 2914, col: 29, offset: 92018},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -16604,9 +16604,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2924, col: 8, offset: 92183},
+															pos: position{line: 2924, col: 8, offset: 92178},
 															expr: &anyMatcher{
-																line: 2924, col: 9, offset: 92184,
+																line: 2924, col: 9, offset: 92179,
 															},
 														},
 													},
@@ -16660,10 +16660,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 756, col: 8, offset: 24172},
 																	expr: &actionExpr{
-																		pos: position{line: 2905, col: 10, offset: 91835},
+																		pos: position{line: 2905, col: 10, offset: 91830},
 																		run: (*parser).callonDocumentHeader35,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 91835},
+																			pos:        position{line: 2905, col: 10, offset: 91830},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -16672,28 +16672,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonDocumentHeader38,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -16702,9 +16702,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -16776,10 +16776,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24172},
 																											expr: &actionExpr{
-																												pos: position{line: 2905, col: 10, offset: 91835},
+																												pos: position{line: 2905, col: 10, offset: 91830},
 																												run: (*parser).callonDocumentHeader63,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2905, col: 10, offset: 91835},
+																													pos:        position{line: 2905, col: 10, offset: 91830},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -16788,28 +16788,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2927, col: 8, offset: 92233},
+																											pos: position{line: 2927, col: 8, offset: 92228},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2914, col: 12, offset: 92006},
+																													pos: position{line: 2914, col: 12, offset: 92001},
 																													run: (*parser).callonDocumentHeader66,
 																													expr: &choiceExpr{
-																														pos: position{line: 2914, col: 13, offset: 92007},
+																														pos: position{line: 2914, col: 13, offset: 92002},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 13, offset: 92007},
+																																pos:        position{line: 2914, col: 13, offset: 92002},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 20, offset: 92014},
+																																pos:        position{line: 2914, col: 20, offset: 92009},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 29, offset: 92023},
+																																pos:        position{line: 2914, col: 29, offset: 92018},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -16818,9 +16818,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2924, col: 8, offset: 92183},
+																													pos: position{line: 2924, col: 8, offset: 92178},
 																													expr: &anyMatcher{
-																														line: 2924, col: 9, offset: 92184,
+																														line: 2924, col: 9, offset: 92179,
 																													},
 																												},
 																											},
@@ -16836,9 +16836,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -16854,21 +16854,21 @@ var g = &grammar{
 																				pos: position{line: 825, col: 5, offset: 26574},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2922, col: 11, offset: 92169},
+																						pos: position{line: 2922, col: 11, offset: 92164},
 																						expr: &anyMatcher{
-																							line: 2922, col: 13, offset: 92171,
+																							line: 2922, col: 13, offset: 92166,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 826, col: 5, offset: 26649},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90361},
+																							pos: position{line: 2851, col: 13, offset: 90356},
 																							run: (*parser).callonDocumentHeader82,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90361},
+																									pos:        position{line: 2851, col: 13, offset: 90356},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -16878,28 +16878,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2927, col: 8, offset: 92233},
+																						pos: position{line: 2927, col: 8, offset: 92228},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2914, col: 12, offset: 92006},
+																								pos: position{line: 2914, col: 12, offset: 92001},
 																								run: (*parser).callonDocumentHeader86,
 																								expr: &choiceExpr{
-																									pos: position{line: 2914, col: 13, offset: 92007},
+																									pos: position{line: 2914, col: 13, offset: 92002},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92007},
+																											pos:        position{line: 2914, col: 13, offset: 92002},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 20, offset: 92014},
+																											pos:        position{line: 2914, col: 20, offset: 92009},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 29, offset: 92023},
+																											pos:        position{line: 2914, col: 29, offset: 92018},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -16908,9 +16908,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2924, col: 8, offset: 92183},
+																								pos: position{line: 2924, col: 8, offset: 92178},
 																								expr: &anyMatcher{
-																									line: 2924, col: 9, offset: 92184,
+																									line: 2924, col: 9, offset: 92179,
 																								},
 																							},
 																						},
@@ -16975,10 +16975,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24172},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonDocumentHeader107,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -16987,28 +16987,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonDocumentHeader110,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -17017,9 +17017,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -17035,9 +17035,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2924, col: 8, offset: 92183},
+																	pos: position{line: 2924, col: 8, offset: 92178},
 																	expr: &anyMatcher{
-																		line: 2924, col: 9, offset: 92184,
+																		line: 2924, col: 9, offset: 92179,
 																	},
 																},
 															},
@@ -17064,36 +17064,36 @@ var g = &grammar{
 								pos: position{line: 1132, col: 6, offset: 34819},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2497, col: 22, offset: 80369},
+										pos: position{line: 2497, col: 22, offset: 80364},
 										run: (*parser).callonDocumentHeader124,
 										expr: &seqExpr{
-											pos: position{line: 2497, col: 22, offset: 80369},
+											pos: position{line: 2497, col: 22, offset: 80364},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2502, col: 31, offset: 80590},
+													pos:        position{line: 2502, col: 31, offset: 80585},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2502, col: 36, offset: 80595},
+													pos: position{line: 2502, col: 36, offset: 80590},
 													expr: &litMatcher{
-														pos:        position{line: 2502, col: 37, offset: 80596},
+														pos:        position{line: 2502, col: 37, offset: 80591},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2497, col: 49, offset: 80396},
+													pos:   position{line: 2497, col: 49, offset: 80391},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2851, col: 13, offset: 90361},
+														pos: position{line: 2851, col: 13, offset: 90356},
 														run: (*parser).callonDocumentHeader130,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2851, col: 13, offset: 90361},
+															pos: position{line: 2851, col: 13, offset: 90356},
 															expr: &charClassMatcher{
-																pos:        position{line: 2851, col: 13, offset: 90361},
+																pos:        position{line: 2851, col: 13, offset: 90356},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -17103,28 +17103,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2927, col: 8, offset: 92233},
+													pos: position{line: 2927, col: 8, offset: 92228},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2914, col: 12, offset: 92006},
+															pos: position{line: 2914, col: 12, offset: 92001},
 															run: (*parser).callonDocumentHeader134,
 															expr: &choiceExpr{
-																pos: position{line: 2914, col: 13, offset: 92007},
+																pos: position{line: 2914, col: 13, offset: 92002},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 13, offset: 92007},
+																		pos:        position{line: 2914, col: 13, offset: 92002},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 20, offset: 92014},
+																		pos:        position{line: 2914, col: 20, offset: 92009},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 29, offset: 92023},
+																		pos:        position{line: 2914, col: 29, offset: 92018},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -17133,9 +17133,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2924, col: 8, offset: 92183},
+															pos: position{line: 2924, col: 8, offset: 92178},
 															expr: &anyMatcher{
-																line: 2924, col: 9, offset: 92184,
+																line: 2924, col: 9, offset: 92179,
 															},
 														},
 													},
@@ -17189,10 +17189,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 756, col: 8, offset: 24172},
 																	expr: &actionExpr{
-																		pos: position{line: 2905, col: 10, offset: 91835},
+																		pos: position{line: 2905, col: 10, offset: 91830},
 																		run: (*parser).callonDocumentHeader153,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 91835},
+																			pos:        position{line: 2905, col: 10, offset: 91830},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -17201,28 +17201,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonDocumentHeader156,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -17231,9 +17231,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -17305,10 +17305,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24172},
 																											expr: &actionExpr{
-																												pos: position{line: 2905, col: 10, offset: 91835},
+																												pos: position{line: 2905, col: 10, offset: 91830},
 																												run: (*parser).callonDocumentHeader181,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2905, col: 10, offset: 91835},
+																													pos:        position{line: 2905, col: 10, offset: 91830},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -17317,28 +17317,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2927, col: 8, offset: 92233},
+																											pos: position{line: 2927, col: 8, offset: 92228},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2914, col: 12, offset: 92006},
+																													pos: position{line: 2914, col: 12, offset: 92001},
 																													run: (*parser).callonDocumentHeader184,
 																													expr: &choiceExpr{
-																														pos: position{line: 2914, col: 13, offset: 92007},
+																														pos: position{line: 2914, col: 13, offset: 92002},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 13, offset: 92007},
+																																pos:        position{line: 2914, col: 13, offset: 92002},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 20, offset: 92014},
+																																pos:        position{line: 2914, col: 20, offset: 92009},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 29, offset: 92023},
+																																pos:        position{line: 2914, col: 29, offset: 92018},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -17347,9 +17347,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2924, col: 8, offset: 92183},
+																													pos: position{line: 2924, col: 8, offset: 92178},
 																													expr: &anyMatcher{
-																														line: 2924, col: 9, offset: 92184,
+																														line: 2924, col: 9, offset: 92179,
 																													},
 																												},
 																											},
@@ -17365,9 +17365,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -17383,21 +17383,21 @@ var g = &grammar{
 																				pos: position{line: 825, col: 5, offset: 26574},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2922, col: 11, offset: 92169},
+																						pos: position{line: 2922, col: 11, offset: 92164},
 																						expr: &anyMatcher{
-																							line: 2922, col: 13, offset: 92171,
+																							line: 2922, col: 13, offset: 92166,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 826, col: 5, offset: 26649},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90361},
+																							pos: position{line: 2851, col: 13, offset: 90356},
 																							run: (*parser).callonDocumentHeader200,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90361},
+																									pos:        position{line: 2851, col: 13, offset: 90356},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -17407,28 +17407,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2927, col: 8, offset: 92233},
+																						pos: position{line: 2927, col: 8, offset: 92228},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2914, col: 12, offset: 92006},
+																								pos: position{line: 2914, col: 12, offset: 92001},
 																								run: (*parser).callonDocumentHeader204,
 																								expr: &choiceExpr{
-																									pos: position{line: 2914, col: 13, offset: 92007},
+																									pos: position{line: 2914, col: 13, offset: 92002},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92007},
+																											pos:        position{line: 2914, col: 13, offset: 92002},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 20, offset: 92014},
+																											pos:        position{line: 2914, col: 20, offset: 92009},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 29, offset: 92023},
+																											pos:        position{line: 2914, col: 29, offset: 92018},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -17437,9 +17437,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2924, col: 8, offset: 92183},
+																								pos: position{line: 2924, col: 8, offset: 92178},
 																								expr: &anyMatcher{
-																									line: 2924, col: 9, offset: 92184,
+																									line: 2924, col: 9, offset: 92179,
 																								},
 																							},
 																						},
@@ -17504,10 +17504,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24172},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonDocumentHeader225,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -17516,28 +17516,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonDocumentHeader228,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -17546,9 +17546,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -17564,9 +17564,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2924, col: 8, offset: 92183},
+																	pos: position{line: 2924, col: 8, offset: 92178},
 																	expr: &anyMatcher{
-																		line: 2924, col: 9, offset: 92184,
+																		line: 2924, col: 9, offset: 92179,
 																	},
 																},
 															},
@@ -17611,10 +17611,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 1151, col: 20, offset: 35574},
 																expr: &actionExpr{
-																	pos: position{line: 2905, col: 10, offset: 91835},
+																	pos: position{line: 2905, col: 10, offset: 91830},
 																	run: (*parser).callonDocumentHeader248,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2905, col: 10, offset: 91835},
+																		pos:        position{line: 2905, col: 10, offset: 91830},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -17665,10 +17665,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1170, col: 5, offset: 36179},
 																										expr: &actionExpr{
-																											pos: position{line: 2905, col: 10, offset: 91835},
+																											pos: position{line: 2905, col: 10, offset: 91830},
 																											run: (*parser).callonDocumentHeader263,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2905, col: 10, offset: 91835},
+																												pos:        position{line: 2905, col: 10, offset: 91830},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17700,10 +17700,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1174, col: 5, offset: 36278},
 																										expr: &actionExpr{
-																											pos: position{line: 2905, col: 10, offset: 91835},
+																											pos: position{line: 2905, col: 10, offset: 91830},
 																											run: (*parser).callonDocumentHeader271,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2905, col: 10, offset: 91835},
+																												pos:        position{line: 2905, col: 10, offset: 91830},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17735,10 +17735,10 @@ var g = &grammar{
 																									&zeroOrMoreExpr{
 																										pos: position{line: 1178, col: 5, offset: 36375},
 																										expr: &actionExpr{
-																											pos: position{line: 2905, col: 10, offset: 91835},
+																											pos: position{line: 2905, col: 10, offset: 91830},
 																											run: (*parser).callonDocumentHeader279,
 																											expr: &charClassMatcher{
-																												pos:        position{line: 2905, col: 10, offset: 91835},
+																												pos:        position{line: 2905, col: 10, offset: 91830},
 																												val:        "[\\t ]",
 																												chars:      []rune{'\t', ' '},
 																												ignoreCase: false,
@@ -17763,9 +17763,9 @@ var g = &grammar{
 																								pos: position{line: 1184, col: 5, offset: 36497},
 																								exprs: []interface{}{
 																									&andExpr{
-																										pos: position{line: 2922, col: 11, offset: 92169},
+																										pos: position{line: 2922, col: 11, offset: 92164},
 																										expr: &anyMatcher{
-																											line: 2922, col: 13, offset: 92171,
+																											line: 2922, col: 13, offset: 92166,
 																										},
 																									},
 																									&litMatcher{
@@ -17806,10 +17806,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1156, col: 69, offset: 35767},
 																					expr: &actionExpr{
-																						pos: position{line: 2905, col: 10, offset: 91835},
+																						pos: position{line: 2905, col: 10, offset: 91830},
 																						run: (*parser).callonDocumentHeader294,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2905, col: 10, offset: 91835},
+																							pos:        position{line: 2905, col: 10, offset: 91830},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17829,10 +17829,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 1156, col: 81, offset: 35779},
 																					expr: &actionExpr{
-																						pos: position{line: 2905, col: 10, offset: 91835},
+																						pos: position{line: 2905, col: 10, offset: 91830},
 																						run: (*parser).callonDocumentHeader299,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2905, col: 10, offset: 91835},
+																							pos:        position{line: 2905, col: 10, offset: 91830},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -17850,28 +17850,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2927, col: 8, offset: 92233},
+																pos: position{line: 2927, col: 8, offset: 92228},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2914, col: 12, offset: 92006},
+																		pos: position{line: 2914, col: 12, offset: 92001},
 																		run: (*parser).callonDocumentHeader303,
 																		expr: &choiceExpr{
-																			pos: position{line: 2914, col: 13, offset: 92007},
+																			pos: position{line: 2914, col: 13, offset: 92002},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2914, col: 13, offset: 92007},
+																					pos:        position{line: 2914, col: 13, offset: 92002},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2914, col: 20, offset: 92014},
+																					pos:        position{line: 2914, col: 20, offset: 92009},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2914, col: 29, offset: 92023},
+																					pos:        position{line: 2914, col: 29, offset: 92018},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -17880,9 +17880,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2924, col: 8, offset: 92183},
+																		pos: position{line: 2924, col: 8, offset: 92178},
 																		expr: &anyMatcher{
-																			line: 2924, col: 9, offset: 92184,
+																			line: 2924, col: 9, offset: 92179,
 																		},
 																	},
 																},
@@ -17897,36 +17897,36 @@ var g = &grammar{
 													pos: position{line: 1146, col: 6, offset: 35349},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2497, col: 22, offset: 80369},
+															pos: position{line: 2497, col: 22, offset: 80364},
 															run: (*parser).callonDocumentHeader312,
 															expr: &seqExpr{
-																pos: position{line: 2497, col: 22, offset: 80369},
+																pos: position{line: 2497, col: 22, offset: 80364},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2502, col: 31, offset: 80590},
+																		pos:        position{line: 2502, col: 31, offset: 80585},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2502, col: 36, offset: 80595},
+																		pos: position{line: 2502, col: 36, offset: 80590},
 																		expr: &litMatcher{
-																			pos:        position{line: 2502, col: 37, offset: 80596},
+																			pos:        position{line: 2502, col: 37, offset: 80591},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2497, col: 49, offset: 80396},
+																		pos:   position{line: 2497, col: 49, offset: 80391},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2851, col: 13, offset: 90361},
+																			pos: position{line: 2851, col: 13, offset: 90356},
 																			run: (*parser).callonDocumentHeader318,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2851, col: 13, offset: 90361},
+																				pos: position{line: 2851, col: 13, offset: 90356},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2851, col: 13, offset: 90361},
+																					pos:        position{line: 2851, col: 13, offset: 90356},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -17936,28 +17936,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2927, col: 8, offset: 92233},
+																		pos: position{line: 2927, col: 8, offset: 92228},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92006},
+																				pos: position{line: 2914, col: 12, offset: 92001},
 																				run: (*parser).callonDocumentHeader322,
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 13, offset: 92007},
+																					pos: position{line: 2914, col: 13, offset: 92002},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 13, offset: 92007},
+																							pos:        position{line: 2914, col: 13, offset: 92002},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 20, offset: 92014},
+																							pos:        position{line: 2914, col: 20, offset: 92009},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 29, offset: 92023},
+																							pos:        position{line: 2914, col: 29, offset: 92018},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -17966,9 +17966,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2924, col: 8, offset: 92183},
+																				pos: position{line: 2924, col: 8, offset: 92178},
 																				expr: &anyMatcher{
-																					line: 2924, col: 9, offset: 92184,
+																					line: 2924, col: 9, offset: 92179,
 																				},
 																			},
 																		},
@@ -18022,10 +18022,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 756, col: 8, offset: 24172},
 																						expr: &actionExpr{
-																							pos: position{line: 2905, col: 10, offset: 91835},
+																							pos: position{line: 2905, col: 10, offset: 91830},
 																							run: (*parser).callonDocumentHeader341,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2905, col: 10, offset: 91835},
+																								pos:        position{line: 2905, col: 10, offset: 91830},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -18034,28 +18034,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2927, col: 8, offset: 92233},
+																						pos: position{line: 2927, col: 8, offset: 92228},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2914, col: 12, offset: 92006},
+																								pos: position{line: 2914, col: 12, offset: 92001},
 																								run: (*parser).callonDocumentHeader344,
 																								expr: &choiceExpr{
-																									pos: position{line: 2914, col: 13, offset: 92007},
+																									pos: position{line: 2914, col: 13, offset: 92002},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92007},
+																											pos:        position{line: 2914, col: 13, offset: 92002},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 20, offset: 92014},
+																											pos:        position{line: 2914, col: 20, offset: 92009},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 29, offset: 92023},
+																											pos:        position{line: 2914, col: 29, offset: 92018},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -18064,9 +18064,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2924, col: 8, offset: 92183},
+																								pos: position{line: 2924, col: 8, offset: 92178},
 																								expr: &anyMatcher{
-																									line: 2924, col: 9, offset: 92184,
+																									line: 2924, col: 9, offset: 92179,
 																								},
 																							},
 																						},
@@ -18138,10 +18138,10 @@ var g = &grammar{
 																															&zeroOrMoreExpr{
 																																pos: position{line: 756, col: 8, offset: 24172},
 																																expr: &actionExpr{
-																																	pos: position{line: 2905, col: 10, offset: 91835},
+																																	pos: position{line: 2905, col: 10, offset: 91830},
 																																	run: (*parser).callonDocumentHeader369,
 																																	expr: &charClassMatcher{
-																																		pos:        position{line: 2905, col: 10, offset: 91835},
+																																		pos:        position{line: 2905, col: 10, offset: 91830},
 																																		val:        "[\\t ]",
 																																		chars:      []rune{'\t', ' '},
 																																		ignoreCase: false,
@@ -18150,28 +18150,28 @@ var g = &grammar{
 																																},
 																															},
 																															&choiceExpr{
-																																pos: position{line: 2927, col: 8, offset: 92233},
+																																pos: position{line: 2927, col: 8, offset: 92228},
 																																alternatives: []interface{}{
 																																	&actionExpr{
-																																		pos: position{line: 2914, col: 12, offset: 92006},
+																																		pos: position{line: 2914, col: 12, offset: 92001},
 																																		run: (*parser).callonDocumentHeader372,
 																																		expr: &choiceExpr{
-																																			pos: position{line: 2914, col: 13, offset: 92007},
+																																			pos: position{line: 2914, col: 13, offset: 92002},
 																																			alternatives: []interface{}{
 																																				&litMatcher{
-																																					pos:        position{line: 2914, col: 13, offset: 92007},
+																																					pos:        position{line: 2914, col: 13, offset: 92002},
 																																					val:        "\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2914, col: 20, offset: 92014},
+																																					pos:        position{line: 2914, col: 20, offset: 92009},
 																																					val:        "\r\n",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\\n\"",
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2914, col: 29, offset: 92023},
+																																					pos:        position{line: 2914, col: 29, offset: 92018},
 																																					val:        "\r",
 																																					ignoreCase: false,
 																																					want:       "\"\\r\"",
@@ -18180,9 +18180,9 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&notExpr{
-																																		pos: position{line: 2924, col: 8, offset: 92183},
+																																		pos: position{line: 2924, col: 8, offset: 92178},
 																																		expr: &anyMatcher{
-																																			line: 2924, col: 9, offset: 92184,
+																																			line: 2924, col: 9, offset: 92179,
 																																		},
 																																	},
 																																},
@@ -18198,9 +18198,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2924, col: 8, offset: 92183},
+																										pos: position{line: 2924, col: 8, offset: 92178},
 																										expr: &anyMatcher{
-																											line: 2924, col: 9, offset: 92184,
+																											line: 2924, col: 9, offset: 92179,
 																										},
 																									},
 																								},
@@ -18216,21 +18216,21 @@ var g = &grammar{
 																									pos: position{line: 825, col: 5, offset: 26574},
 																									exprs: []interface{}{
 																										&andExpr{
-																											pos: position{line: 2922, col: 11, offset: 92169},
+																											pos: position{line: 2922, col: 11, offset: 92164},
 																											expr: &anyMatcher{
-																												line: 2922, col: 13, offset: 92171,
+																												line: 2922, col: 13, offset: 92166,
 																											},
 																										},
 																										&labeledExpr{
 																											pos:   position{line: 826, col: 5, offset: 26649},
 																											label: "content",
 																											expr: &actionExpr{
-																												pos: position{line: 2851, col: 13, offset: 90361},
+																												pos: position{line: 2851, col: 13, offset: 90356},
 																												run: (*parser).callonDocumentHeader388,
 																												expr: &zeroOrMoreExpr{
-																													pos: position{line: 2851, col: 13, offset: 90361},
+																													pos: position{line: 2851, col: 13, offset: 90356},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2851, col: 13, offset: 90361},
+																														pos:        position{line: 2851, col: 13, offset: 90356},
 																														val:        "[^\\r\\n]",
 																														chars:      []rune{'\r', '\n'},
 																														ignoreCase: false,
@@ -18240,28 +18240,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2927, col: 8, offset: 92233},
+																											pos: position{line: 2927, col: 8, offset: 92228},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2914, col: 12, offset: 92006},
+																													pos: position{line: 2914, col: 12, offset: 92001},
 																													run: (*parser).callonDocumentHeader392,
 																													expr: &choiceExpr{
-																														pos: position{line: 2914, col: 13, offset: 92007},
+																														pos: position{line: 2914, col: 13, offset: 92002},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 13, offset: 92007},
+																																pos:        position{line: 2914, col: 13, offset: 92002},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 20, offset: 92014},
+																																pos:        position{line: 2914, col: 20, offset: 92009},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 29, offset: 92023},
+																																pos:        position{line: 2914, col: 29, offset: 92018},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -18270,9 +18270,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2924, col: 8, offset: 92183},
+																													pos: position{line: 2924, col: 8, offset: 92178},
 																													expr: &anyMatcher{
-																														line: 2924, col: 9, offset: 92184,
+																														line: 2924, col: 9, offset: 92179,
 																													},
 																												},
 																											},
@@ -18337,10 +18337,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 756, col: 8, offset: 24172},
 																												expr: &actionExpr{
-																													pos: position{line: 2905, col: 10, offset: 91835},
+																													pos: position{line: 2905, col: 10, offset: 91830},
 																													run: (*parser).callonDocumentHeader413,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2905, col: 10, offset: 91835},
+																														pos:        position{line: 2905, col: 10, offset: 91830},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -18349,28 +18349,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2927, col: 8, offset: 92233},
+																												pos: position{line: 2927, col: 8, offset: 92228},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2914, col: 12, offset: 92006},
+																														pos: position{line: 2914, col: 12, offset: 92001},
 																														run: (*parser).callonDocumentHeader416,
 																														expr: &choiceExpr{
-																															pos: position{line: 2914, col: 13, offset: 92007},
+																															pos: position{line: 2914, col: 13, offset: 92002},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 13, offset: 92007},
+																																	pos:        position{line: 2914, col: 13, offset: 92002},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 20, offset: 92014},
+																																	pos:        position{line: 2914, col: 20, offset: 92009},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 29, offset: 92023},
+																																	pos:        position{line: 2914, col: 29, offset: 92018},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -18379,9 +18379,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2924, col: 8, offset: 92183},
+																														pos: position{line: 2924, col: 8, offset: 92178},
 																														expr: &anyMatcher{
-																															line: 2924, col: 9, offset: 92184,
+																															line: 2924, col: 9, offset: 92179,
 																														},
 																													},
 																												},
@@ -18397,9 +18397,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2924, col: 8, offset: 92183},
+																						pos: position{line: 2924, col: 8, offset: 92178},
 																						expr: &anyMatcher{
-																							line: 2924, col: 9, offset: 92184,
+																							line: 2924, col: 9, offset: 92179,
 																						},
 																					},
 																				},
@@ -18426,10 +18426,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 1195, col: 21, offset: 36775},
 																	expr: &actionExpr{
-																		pos: position{line: 2905, col: 10, offset: 91835},
+																		pos: position{line: 2905, col: 10, offset: 91830},
 																		run: (*parser).callonDocumentHeader431,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 91835},
+																			pos:        position{line: 2905, col: 10, offset: 91830},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -18531,10 +18531,10 @@ var g = &grammar{
 																												&zeroOrMoreExpr{
 																													pos: position{line: 1207, col: 28, offset: 37406},
 																													expr: &actionExpr{
-																														pos: position{line: 2905, col: 10, offset: 91835},
+																														pos: position{line: 2905, col: 10, offset: 91830},
 																														run: (*parser).callonDocumentHeader455,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2905, col: 10, offset: 91835},
+																															pos:        position{line: 2905, col: 10, offset: 91830},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -18681,28 +18681,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonDocumentHeader487,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -18711,9 +18711,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -18793,10 +18793,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 367, col: 49, offset: 11183},
 														expr: &actionExpr{
-															pos: position{line: 2905, col: 10, offset: 91835},
+															pos: position{line: 2905, col: 10, offset: 91830},
 															run: (*parser).callonDocumentHeader509,
 															expr: &charClassMatcher{
-																pos:        position{line: 2905, col: 10, offset: 91835},
+																pos:        position{line: 2905, col: 10, offset: 91830},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18805,28 +18805,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2927, col: 8, offset: 92233},
+														pos: position{line: 2927, col: 8, offset: 92228},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2914, col: 12, offset: 92006},
+																pos: position{line: 2914, col: 12, offset: 92001},
 																run: (*parser).callonDocumentHeader512,
 																expr: &choiceExpr{
-																	pos: position{line: 2914, col: 13, offset: 92007},
+																	pos: position{line: 2914, col: 13, offset: 92002},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 13, offset: 92007},
+																			pos:        position{line: 2914, col: 13, offset: 92002},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 20, offset: 92014},
+																			pos:        position{line: 2914, col: 20, offset: 92009},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 29, offset: 92023},
+																			pos:        position{line: 2914, col: 29, offset: 92018},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18835,9 +18835,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2924, col: 8, offset: 92183},
+																pos: position{line: 2924, col: 8, offset: 92178},
 																expr: &anyMatcher{
-																	line: 2924, col: 9, offset: 92184,
+																	line: 2924, col: 9, offset: 92179,
 																},
 															},
 														},
@@ -18898,10 +18898,10 @@ var g = &grammar{
 													&zeroOrMoreExpr{
 														pos: position{line: 369, col: 39, offset: 11304},
 														expr: &actionExpr{
-															pos: position{line: 2905, col: 10, offset: 91835},
+															pos: position{line: 2905, col: 10, offset: 91830},
 															run: (*parser).callonDocumentHeader530,
 															expr: &charClassMatcher{
-																pos:        position{line: 2905, col: 10, offset: 91835},
+																pos:        position{line: 2905, col: 10, offset: 91830},
 																val:        "[\\t ]",
 																chars:      []rune{'\t', ' '},
 																ignoreCase: false,
@@ -18910,28 +18910,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2927, col: 8, offset: 92233},
+														pos: position{line: 2927, col: 8, offset: 92228},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2914, col: 12, offset: 92006},
+																pos: position{line: 2914, col: 12, offset: 92001},
 																run: (*parser).callonDocumentHeader533,
 																expr: &choiceExpr{
-																	pos: position{line: 2914, col: 13, offset: 92007},
+																	pos: position{line: 2914, col: 13, offset: 92002},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 13, offset: 92007},
+																			pos:        position{line: 2914, col: 13, offset: 92002},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 20, offset: 92014},
+																			pos:        position{line: 2914, col: 20, offset: 92009},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 29, offset: 92023},
+																			pos:        position{line: 2914, col: 29, offset: 92018},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -18940,9 +18940,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2924, col: 8, offset: 92183},
+																pos: position{line: 2924, col: 8, offset: 92178},
 																expr: &anyMatcher{
-																	line: 2924, col: 9, offset: 92184,
+																	line: 2924, col: 9, offset: 92179,
 																},
 															},
 														},
@@ -18951,36 +18951,36 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2497, col: 22, offset: 80369},
+											pos: position{line: 2497, col: 22, offset: 80364},
 											run: (*parser).callonDocumentHeader540,
 											expr: &seqExpr{
-												pos: position{line: 2497, col: 22, offset: 80369},
+												pos: position{line: 2497, col: 22, offset: 80364},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2502, col: 31, offset: 80590},
+														pos:        position{line: 2502, col: 31, offset: 80585},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 													&notExpr{
-														pos: position{line: 2502, col: 36, offset: 80595},
+														pos: position{line: 2502, col: 36, offset: 80590},
 														expr: &litMatcher{
-															pos:        position{line: 2502, col: 37, offset: 80596},
+															pos:        position{line: 2502, col: 37, offset: 80591},
 															val:        "//",
 															ignoreCase: false,
 															want:       "\"//\"",
 														},
 													},
 													&labeledExpr{
-														pos:   position{line: 2497, col: 49, offset: 80396},
+														pos:   position{line: 2497, col: 49, offset: 80391},
 														label: "content",
 														expr: &actionExpr{
-															pos: position{line: 2851, col: 13, offset: 90361},
+															pos: position{line: 2851, col: 13, offset: 90356},
 															run: (*parser).callonDocumentHeader546,
 															expr: &zeroOrMoreExpr{
-																pos: position{line: 2851, col: 13, offset: 90361},
+																pos: position{line: 2851, col: 13, offset: 90356},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2851, col: 13, offset: 90361},
+																	pos:        position{line: 2851, col: 13, offset: 90356},
 																	val:        "[^\\r\\n]",
 																	chars:      []rune{'\r', '\n'},
 																	ignoreCase: false,
@@ -18990,28 +18990,28 @@ var g = &grammar{
 														},
 													},
 													&choiceExpr{
-														pos: position{line: 2927, col: 8, offset: 92233},
+														pos: position{line: 2927, col: 8, offset: 92228},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2914, col: 12, offset: 92006},
+																pos: position{line: 2914, col: 12, offset: 92001},
 																run: (*parser).callonDocumentHeader550,
 																expr: &choiceExpr{
-																	pos: position{line: 2914, col: 13, offset: 92007},
+																	pos: position{line: 2914, col: 13, offset: 92002},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 13, offset: 92007},
+																			pos:        position{line: 2914, col: 13, offset: 92002},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 20, offset: 92014},
+																			pos:        position{line: 2914, col: 20, offset: 92009},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 29, offset: 92023},
+																			pos:        position{line: 2914, col: 29, offset: 92018},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -19020,9 +19020,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2924, col: 8, offset: 92183},
+																pos: position{line: 2924, col: 8, offset: 92178},
 																expr: &anyMatcher{
-																	line: 2924, col: 9, offset: 92184,
+																	line: 2924, col: 9, offset: 92179,
 																},
 															},
 														},
@@ -19076,10 +19076,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 756, col: 8, offset: 24172},
 																		expr: &actionExpr{
-																			pos: position{line: 2905, col: 10, offset: 91835},
+																			pos: position{line: 2905, col: 10, offset: 91830},
 																			run: (*parser).callonDocumentHeader569,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2905, col: 10, offset: 91835},
+																				pos:        position{line: 2905, col: 10, offset: 91830},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -19088,28 +19088,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2927, col: 8, offset: 92233},
+																		pos: position{line: 2927, col: 8, offset: 92228},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92006},
+																				pos: position{line: 2914, col: 12, offset: 92001},
 																				run: (*parser).callonDocumentHeader572,
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 13, offset: 92007},
+																					pos: position{line: 2914, col: 13, offset: 92002},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 13, offset: 92007},
+																							pos:        position{line: 2914, col: 13, offset: 92002},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 20, offset: 92014},
+																							pos:        position{line: 2914, col: 20, offset: 92009},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 29, offset: 92023},
+																							pos:        position{line: 2914, col: 29, offset: 92018},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -19118,9 +19118,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2924, col: 8, offset: 92183},
+																				pos: position{line: 2924, col: 8, offset: 92178},
 																				expr: &anyMatcher{
-																					line: 2924, col: 9, offset: 92184,
+																					line: 2924, col: 9, offset: 92179,
 																				},
 																			},
 																		},
@@ -19192,10 +19192,10 @@ var g = &grammar{
 																											&zeroOrMoreExpr{
 																												pos: position{line: 756, col: 8, offset: 24172},
 																												expr: &actionExpr{
-																													pos: position{line: 2905, col: 10, offset: 91835},
+																													pos: position{line: 2905, col: 10, offset: 91830},
 																													run: (*parser).callonDocumentHeader597,
 																													expr: &charClassMatcher{
-																														pos:        position{line: 2905, col: 10, offset: 91835},
+																														pos:        position{line: 2905, col: 10, offset: 91830},
 																														val:        "[\\t ]",
 																														chars:      []rune{'\t', ' '},
 																														ignoreCase: false,
@@ -19204,28 +19204,28 @@ var g = &grammar{
 																												},
 																											},
 																											&choiceExpr{
-																												pos: position{line: 2927, col: 8, offset: 92233},
+																												pos: position{line: 2927, col: 8, offset: 92228},
 																												alternatives: []interface{}{
 																													&actionExpr{
-																														pos: position{line: 2914, col: 12, offset: 92006},
+																														pos: position{line: 2914, col: 12, offset: 92001},
 																														run: (*parser).callonDocumentHeader600,
 																														expr: &choiceExpr{
-																															pos: position{line: 2914, col: 13, offset: 92007},
+																															pos: position{line: 2914, col: 13, offset: 92002},
 																															alternatives: []interface{}{
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 13, offset: 92007},
+																																	pos:        position{line: 2914, col: 13, offset: 92002},
 																																	val:        "\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 20, offset: 92014},
+																																	pos:        position{line: 2914, col: 20, offset: 92009},
 																																	val:        "\r\n",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\\n\"",
 																																},
 																																&litMatcher{
-																																	pos:        position{line: 2914, col: 29, offset: 92023},
+																																	pos:        position{line: 2914, col: 29, offset: 92018},
 																																	val:        "\r",
 																																	ignoreCase: false,
 																																	want:       "\"\\r\"",
@@ -19234,9 +19234,9 @@ var g = &grammar{
 																														},
 																													},
 																													&notExpr{
-																														pos: position{line: 2924, col: 8, offset: 92183},
+																														pos: position{line: 2924, col: 8, offset: 92178},
 																														expr: &anyMatcher{
-																															line: 2924, col: 9, offset: 92184,
+																															line: 2924, col: 9, offset: 92179,
 																														},
 																													},
 																												},
@@ -19252,9 +19252,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2924, col: 8, offset: 92183},
+																						pos: position{line: 2924, col: 8, offset: 92178},
 																						expr: &anyMatcher{
-																							line: 2924, col: 9, offset: 92184,
+																							line: 2924, col: 9, offset: 92179,
 																						},
 																					},
 																				},
@@ -19270,21 +19270,21 @@ var g = &grammar{
 																					pos: position{line: 825, col: 5, offset: 26574},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2922, col: 11, offset: 92169},
+																							pos: position{line: 2922, col: 11, offset: 92164},
 																							expr: &anyMatcher{
-																								line: 2922, col: 13, offset: 92171,
+																								line: 2922, col: 13, offset: 92166,
 																							},
 																						},
 																						&labeledExpr{
 																							pos:   position{line: 826, col: 5, offset: 26649},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								run: (*parser).callonDocumentHeader616,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2851, col: 13, offset: 90361},
+																									pos: position{line: 2851, col: 13, offset: 90356},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2851, col: 13, offset: 90361},
+																										pos:        position{line: 2851, col: 13, offset: 90356},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -19294,28 +19294,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonDocumentHeader620,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -19324,9 +19324,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -19391,10 +19391,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 756, col: 8, offset: 24172},
 																								expr: &actionExpr{
-																									pos: position{line: 2905, col: 10, offset: 91835},
+																									pos: position{line: 2905, col: 10, offset: 91830},
 																									run: (*parser).callonDocumentHeader641,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2905, col: 10, offset: 91835},
+																										pos:        position{line: 2905, col: 10, offset: 91830},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -19403,28 +19403,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2927, col: 8, offset: 92233},
+																								pos: position{line: 2927, col: 8, offset: 92228},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2914, col: 12, offset: 92006},
+																										pos: position{line: 2914, col: 12, offset: 92001},
 																										run: (*parser).callonDocumentHeader644,
 																										expr: &choiceExpr{
-																											pos: position{line: 2914, col: 13, offset: 92007},
+																											pos: position{line: 2914, col: 13, offset: 92002},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 13, offset: 92007},
+																													pos:        position{line: 2914, col: 13, offset: 92002},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 20, offset: 92014},
+																													pos:        position{line: 2914, col: 20, offset: 92009},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 29, offset: 92023},
+																													pos:        position{line: 2914, col: 29, offset: 92018},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -19433,9 +19433,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2924, col: 8, offset: 92183},
+																										pos: position{line: 2924, col: 8, offset: 92178},
 																										expr: &anyMatcher{
-																											line: 2924, col: 9, offset: 92184,
+																											line: 2924, col: 9, offset: 92179,
 																										},
 																									},
 																								},
@@ -19451,9 +19451,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2924, col: 8, offset: 92183},
+																		pos: position{line: 2924, col: 8, offset: 92178},
 																		expr: &anyMatcher{
-																			line: 2924, col: 9, offset: 92184,
+																			line: 2924, col: 9, offset: 92179,
 																		},
 																	},
 																},
@@ -19487,12 +19487,12 @@ var g = &grammar{
 							want:       "\"=\"",
 						},
 						&actionExpr{
-							pos: position{line: 2909, col: 11, offset: 91896},
+							pos: position{line: 2909, col: 11, offset: 91891},
 							run: (*parser).callonDocumentTitle4,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2909, col: 11, offset: 91896},
+								pos: position{line: 2909, col: 11, offset: 91891},
 								expr: &charClassMatcher{
-									pos:        position{line: 2909, col: 11, offset: 91896},
+									pos:        position{line: 2909, col: 11, offset: 91891},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19509,28 +19509,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2927, col: 8, offset: 92233},
+							pos: position{line: 2927, col: 8, offset: 92228},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2914, col: 12, offset: 92006},
+									pos: position{line: 2914, col: 12, offset: 92001},
 									run: (*parser).callonDocumentTitle10,
 									expr: &choiceExpr{
-										pos: position{line: 2914, col: 13, offset: 92007},
+										pos: position{line: 2914, col: 13, offset: 92002},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2914, col: 13, offset: 92007},
+												pos:        position{line: 2914, col: 13, offset: 92002},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2914, col: 20, offset: 92014},
+												pos:        position{line: 2914, col: 20, offset: 92009},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2914, col: 29, offset: 92023},
+												pos:        position{line: 2914, col: 29, offset: 92018},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -19539,9 +19539,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2924, col: 8, offset: 92183},
+									pos: position{line: 2924, col: 8, offset: 92178},
 									expr: &anyMatcher{
-										line: 2924, col: 9, offset: 92184,
+										line: 2924, col: 9, offset: 92179,
 									},
 								},
 							},
@@ -19580,10 +19580,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1170, col: 5, offset: 36179},
 							expr: &actionExpr{
-								pos: position{line: 2905, col: 10, offset: 91835},
+								pos: position{line: 2905, col: 10, offset: 91830},
 								run: (*parser).callonDocumentAuthorFullName8,
 								expr: &charClassMatcher{
-									pos:        position{line: 2905, col: 10, offset: 91835},
+									pos:        position{line: 2905, col: 10, offset: 91830},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19615,10 +19615,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1174, col: 5, offset: 36278},
 							expr: &actionExpr{
-								pos: position{line: 2905, col: 10, offset: 91835},
+								pos: position{line: 2905, col: 10, offset: 91830},
 								run: (*parser).callonDocumentAuthorFullName16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2905, col: 10, offset: 91835},
+									pos:        position{line: 2905, col: 10, offset: 91830},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19650,10 +19650,10 @@ var g = &grammar{
 						&zeroOrMoreExpr{
 							pos: position{line: 1178, col: 5, offset: 36375},
 							expr: &actionExpr{
-								pos: position{line: 2905, col: 10, offset: 91835},
+								pos: position{line: 2905, col: 10, offset: 91830},
 								run: (*parser).callonDocumentAuthorFullName24,
 								expr: &charClassMatcher{
-									pos:        position{line: 2905, col: 10, offset: 91835},
+									pos:        position{line: 2905, col: 10, offset: 91830},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -19719,12 +19719,12 @@ var g = &grammar{
 							pos:   position{line: 1306, col: 13, offset: 40577},
 							label: "id",
 							expr: &actionExpr{
-								pos: position{line: 2890, col: 7, offset: 91487},
+								pos: position{line: 2890, col: 7, offset: 91482},
 								run: (*parser).callonInlineMenu6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2890, col: 7, offset: 91487},
+									pos: position{line: 2890, col: 7, offset: 91482},
 									expr: &charClassMatcher{
-										pos:        position{line: 2890, col: 7, offset: 91487},
+										pos:        position{line: 2890, col: 7, offset: 91482},
 										val:        "[^[]<>,]",
 										chars:      []rune{'[', ']', '<', '>', ','},
 										ignoreCase: false,
@@ -19793,12 +19793,12 @@ var g = &grammar{
 							pos: position{line: 1317, col: 31, offset: 41037},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2799, col: 14, offset: 89004},
+									pos: position{line: 2799, col: 14, offset: 88999},
 									run: (*parser).callonIndexTermContent5,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2799, col: 14, offset: 89004},
+										pos: position{line: 2799, col: 14, offset: 88999},
 										expr: &charClassMatcher{
-											pos:        position{line: 2799, col: 14, offset: 89004},
+											pos:        position{line: 2799, col: 14, offset: 88999},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -19808,13 +19808,13 @@ var g = &grammar{
 								},
 								&ruleRefExpr{
 									pos:  position{line: 1317, col: 43, offset: 41049},
-									name: "QuotedText",
+									name: "Quote",
 								},
 								&actionExpr{
-									pos: position{line: 2905, col: 10, offset: 91835},
+									pos: position{line: 2905, col: 10, offset: 91830},
 									run: (*parser).callonIndexTermContent9,
 									expr: &charClassMatcher{
-										pos:        position{line: 2905, col: 10, offset: 91835},
+										pos:        position{line: 2905, col: 10, offset: 91830},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -19822,23 +19822,23 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 2484, col: 5, offset: 79915},
+									pos: position{line: 2484, col: 5, offset: 79910},
 									run: (*parser).callonIndexTermContent11,
 									expr: &seqExpr{
-										pos: position{line: 2484, col: 5, offset: 79915},
+										pos: position{line: 2484, col: 5, offset: 79910},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 2484, col: 5, offset: 79915},
+												pos: position{line: 2484, col: 5, offset: 79910},
 												run: (*parser).callonIndexTermContent13,
 											},
 											&labeledExpr{
-												pos:   position{line: 2487, col: 5, offset: 79991},
+												pos:   position{line: 2487, col: 5, offset: 79986},
 												label: "element",
 												expr: &actionExpr{
-													pos: position{line: 2488, col: 9, offset: 80009},
+													pos: position{line: 2488, col: 9, offset: 80004},
 													run: (*parser).callonIndexTermContent15,
 													expr: &charClassMatcher{
-														pos:        position{line: 2488, col: 10, offset: 80010},
+														pos:        position{line: 2488, col: 10, offset: 80005},
 														val:        "[<>&]",
 														chars:      []rune{'<', '>', '&'},
 														ignoreCase: false,
@@ -19889,22 +19889,22 @@ var g = &grammar{
 									},
 								},
 								&actionExpr{
-									pos: position{line: 1317, col: 104, offset: 41110},
+									pos: position{line: 1317, col: 99, offset: 41105},
 									run: (*parser).callonIndexTermContent25,
 									expr: &seqExpr{
-										pos: position{line: 1317, col: 105, offset: 41111},
+										pos: position{line: 1317, col: 100, offset: 41106},
 										exprs: []interface{}{
 											&notExpr{
-												pos: position{line: 1317, col: 105, offset: 41111},
+												pos: position{line: 1317, col: 100, offset: 41106},
 												expr: &litMatcher{
-													pos:        position{line: 1317, col: 106, offset: 41112},
+													pos:        position{line: 1317, col: 101, offset: 41107},
 													val:        "))",
 													ignoreCase: false,
 													want:       "\"))\"",
 												},
 											},
 											&anyMatcher{
-												line: 1317, col: 111, offset: 41117,
+												line: 1317, col: 106, offset: 41112,
 											},
 										},
 									},
@@ -19917,65 +19917,65 @@ var g = &grammar{
 		},
 		{
 			name: "ImageBlock",
-			pos:  position{line: 1337, col: 1, offset: 41826},
+			pos:  position{line: 1337, col: 1, offset: 41821},
 			expr: &actionExpr{
-				pos: position{line: 1338, col: 5, offset: 41845},
+				pos: position{line: 1338, col: 5, offset: 41840},
 				run: (*parser).callonImageBlock1,
 				expr: &seqExpr{
-					pos: position{line: 1338, col: 5, offset: 41845},
+					pos: position{line: 1338, col: 5, offset: 41840},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1338, col: 5, offset: 41845},
+							pos:        position{line: 1338, col: 5, offset: 41840},
 							val:        "image::",
 							ignoreCase: false,
 							want:       "\"image::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1338, col: 15, offset: 41855},
+							pos:   position{line: 1338, col: 15, offset: 41850},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2863, col: 13, offset: 90594},
+								pos: position{line: 2863, col: 13, offset: 90589},
 								run: (*parser).callonImageBlock5,
 								expr: &seqExpr{
-									pos: position{line: 2863, col: 13, offset: 90594},
+									pos: position{line: 2863, col: 13, offset: 90589},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2863, col: 13, offset: 90594},
+											pos:   position{line: 2863, col: 13, offset: 90589},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2863, col: 20, offset: 90601},
+												pos: position{line: 2863, col: 20, offset: 90596},
 												expr: &actionExpr{
-													pos: position{line: 2871, col: 11, offset: 90840},
+													pos: position{line: 2871, col: 11, offset: 90835},
 													run: (*parser).callonImageBlock9,
 													expr: &choiceExpr{
-														pos: position{line: 2871, col: 12, offset: 90841},
+														pos: position{line: 2871, col: 12, offset: 90836},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2871, col: 12, offset: 90841},
+																pos:        position{line: 2871, col: 12, offset: 90836},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2871, col: 24, offset: 90853},
+																pos:        position{line: 2871, col: 24, offset: 90848},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2871, col: 37, offset: 90866},
+																pos:        position{line: 2871, col: 37, offset: 90861},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2871, col: 48, offset: 90877},
+																pos:        position{line: 2871, col: 48, offset: 90872},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2871, col: 59, offset: 90888},
+																pos:        position{line: 2871, col: 59, offset: 90883},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -19986,38 +19986,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2863, col: 30, offset: 90611},
+											pos:   position{line: 2863, col: 30, offset: 90606},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2876, col: 5, offset: 90952},
+												pos: position{line: 2876, col: 5, offset: 90947},
 												run: (*parser).callonImageBlock17,
 												expr: &labeledExpr{
-													pos:   position{line: 2876, col: 5, offset: 90952},
+													pos:   position{line: 2876, col: 5, offset: 90947},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2876, col: 14, offset: 90961},
+														pos: position{line: 2876, col: 14, offset: 90956},
 														expr: &choiceExpr{
-															pos: position{line: 2877, col: 9, offset: 90971},
+															pos: position{line: 2877, col: 9, offset: 90966},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2877, col: 9, offset: 90971},
+																	pos: position{line: 2877, col: 9, offset: 90966},
 																	run: (*parser).callonImageBlock21,
 																	expr: &seqExpr{
-																		pos: position{line: 2877, col: 9, offset: 90971},
+																		pos: position{line: 2877, col: 9, offset: 90966},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2877, col: 9, offset: 90971},
+																				pos: position{line: 2877, col: 9, offset: 90966},
 																				expr: &litMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 90972},
+																					pos:        position{line: 2877, col: 10, offset: 90967},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2878, col: 9, offset: 91000},
+																				pos: position{line: 2878, col: 9, offset: 90995},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 10, offset: 91001},
+																					pos:        position{line: 2878, col: 10, offset: 90996},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20028,27 +20028,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2881, col: 11, offset: 91213},
+																	pos: position{line: 2881, col: 11, offset: 91208},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91213},
+																			pos:        position{line: 2881, col: 11, offset: 91208},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2881, col: 19, offset: 91221},
+																			pos: position{line: 2881, col: 19, offset: 91216},
 																			expr: &seqExpr{
-																				pos: position{line: 2881, col: 21, offset: 91223},
+																				pos: position{line: 2881, col: 21, offset: 91218},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2881, col: 21, offset: 91223},
+																						pos: position{line: 2881, col: 21, offset: 91218},
 																						expr: &actionExpr{
-																							pos: position{line: 2905, col: 10, offset: 91835},
+																							pos: position{line: 2905, col: 10, offset: 91830},
 																							run: (*parser).callonImageBlock32,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2905, col: 10, offset: 91835},
+																								pos:        position{line: 2905, col: 10, offset: 91830},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20057,11 +20057,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2881, col: 28, offset: 91230},
+																						pos: position{line: 2881, col: 28, offset: 91225},
 																						expr: &notExpr{
-																							pos: position{line: 2924, col: 8, offset: 92183},
+																							pos: position{line: 2924, col: 8, offset: 92178},
 																							expr: &anyMatcher{
-																								line: 2924, col: 9, offset: 92184,
+																								line: 2924, col: 9, offset: 92179,
 																							},
 																						},
 																					},
@@ -20456,10 +20456,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2884, col: 11, offset: 91350},
+																	pos: position{line: 2884, col: 11, offset: 91345},
 																	run: (*parser).callonImageBlock114,
 																	expr: &litMatcher{
-																		pos:        position{line: 2884, col: 11, offset: 91350},
+																		pos:        position{line: 2884, col: 11, offset: 91345},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -20476,20 +20476,20 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1338, col: 31, offset: 41871},
+							pos:   position{line: 1338, col: 31, offset: 41866},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1338, col: 43, offset: 41883},
+								pos:  position{line: 1338, col: 43, offset: 41878},
 								name: "InlineAttributes",
 							},
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1338, col: 61, offset: 41901},
+							pos: position{line: 1338, col: 61, offset: 41896},
 							expr: &actionExpr{
-								pos: position{line: 2905, col: 10, offset: 91835},
+								pos: position{line: 2905, col: 10, offset: 91830},
 								run: (*parser).callonImageBlock119,
 								expr: &charClassMatcher{
-									pos:        position{line: 2905, col: 10, offset: 91835},
+									pos:        position{line: 2905, col: 10, offset: 91830},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -20498,28 +20498,28 @@ var g = &grammar{
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2927, col: 8, offset: 92233},
+							pos: position{line: 2927, col: 8, offset: 92228},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2914, col: 12, offset: 92006},
+									pos: position{line: 2914, col: 12, offset: 92001},
 									run: (*parser).callonImageBlock122,
 									expr: &choiceExpr{
-										pos: position{line: 2914, col: 13, offset: 92007},
+										pos: position{line: 2914, col: 13, offset: 92002},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2914, col: 13, offset: 92007},
+												pos:        position{line: 2914, col: 13, offset: 92002},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2914, col: 20, offset: 92014},
+												pos:        position{line: 2914, col: 20, offset: 92009},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2914, col: 29, offset: 92023},
+												pos:        position{line: 2914, col: 29, offset: 92018},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -20528,9 +20528,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2924, col: 8, offset: 92183},
+									pos: position{line: 2924, col: 8, offset: 92178},
 									expr: &anyMatcher{
-										line: 2924, col: 9, offset: 92184,
+										line: 2924, col: 9, offset: 92179,
 									},
 								},
 							},
@@ -20541,74 +20541,74 @@ var g = &grammar{
 		},
 		{
 			name: "InlineImage",
-			pos:  position{line: 1343, col: 1, offset: 42118},
+			pos:  position{line: 1343, col: 1, offset: 42113},
 			expr: &actionExpr{
-				pos: position{line: 1343, col: 16, offset: 42133},
+				pos: position{line: 1343, col: 16, offset: 42128},
 				run: (*parser).callonInlineImage1,
 				expr: &seqExpr{
-					pos: position{line: 1343, col: 16, offset: 42133},
+					pos: position{line: 1343, col: 16, offset: 42128},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1343, col: 16, offset: 42133},
+							pos:        position{line: 1343, col: 16, offset: 42128},
 							val:        "image:",
 							ignoreCase: false,
 							want:       "\"image:\"",
 						},
 						&notExpr{
-							pos: position{line: 1343, col: 25, offset: 42142},
+							pos: position{line: 1343, col: 25, offset: 42137},
 							expr: &litMatcher{
-								pos:        position{line: 1343, col: 26, offset: 42143},
+								pos:        position{line: 1343, col: 26, offset: 42138},
 								val:        ":",
 								ignoreCase: false,
 								want:       "\":\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1343, col: 30, offset: 42147},
+							pos:   position{line: 1343, col: 30, offset: 42142},
 							label: "path",
 							expr: &actionExpr{
-								pos: position{line: 2863, col: 13, offset: 90594},
+								pos: position{line: 2863, col: 13, offset: 90589},
 								run: (*parser).callonInlineImage7,
 								expr: &seqExpr{
-									pos: position{line: 2863, col: 13, offset: 90594},
+									pos: position{line: 2863, col: 13, offset: 90589},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2863, col: 13, offset: 90594},
+											pos:   position{line: 2863, col: 13, offset: 90589},
 											label: "scheme",
 											expr: &zeroOrOneExpr{
-												pos: position{line: 2863, col: 20, offset: 90601},
+												pos: position{line: 2863, col: 20, offset: 90596},
 												expr: &actionExpr{
-													pos: position{line: 2871, col: 11, offset: 90840},
+													pos: position{line: 2871, col: 11, offset: 90835},
 													run: (*parser).callonInlineImage11,
 													expr: &choiceExpr{
-														pos: position{line: 2871, col: 12, offset: 90841},
+														pos: position{line: 2871, col: 12, offset: 90836},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2871, col: 12, offset: 90841},
+																pos:        position{line: 2871, col: 12, offset: 90836},
 																val:        "http://",
 																ignoreCase: false,
 																want:       "\"http://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2871, col: 24, offset: 90853},
+																pos:        position{line: 2871, col: 24, offset: 90848},
 																val:        "https://",
 																ignoreCase: false,
 																want:       "\"https://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2871, col: 37, offset: 90866},
+																pos:        position{line: 2871, col: 37, offset: 90861},
 																val:        "ftp://",
 																ignoreCase: false,
 																want:       "\"ftp://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2871, col: 48, offset: 90877},
+																pos:        position{line: 2871, col: 48, offset: 90872},
 																val:        "irc://",
 																ignoreCase: false,
 																want:       "\"irc://\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2871, col: 59, offset: 90888},
+																pos:        position{line: 2871, col: 59, offset: 90883},
 																val:        "mailto:",
 																ignoreCase: false,
 																want:       "\"mailto:\"",
@@ -20619,38 +20619,38 @@ var g = &grammar{
 											},
 										},
 										&labeledExpr{
-											pos:   position{line: 2863, col: 30, offset: 90611},
+											pos:   position{line: 2863, col: 30, offset: 90606},
 											label: "path",
 											expr: &actionExpr{
-												pos: position{line: 2876, col: 5, offset: 90952},
+												pos: position{line: 2876, col: 5, offset: 90947},
 												run: (*parser).callonInlineImage19,
 												expr: &labeledExpr{
-													pos:   position{line: 2876, col: 5, offset: 90952},
+													pos:   position{line: 2876, col: 5, offset: 90947},
 													label: "elements",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2876, col: 14, offset: 90961},
+														pos: position{line: 2876, col: 14, offset: 90956},
 														expr: &choiceExpr{
-															pos: position{line: 2877, col: 9, offset: 90971},
+															pos: position{line: 2877, col: 9, offset: 90966},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2877, col: 9, offset: 90971},
+																	pos: position{line: 2877, col: 9, offset: 90966},
 																	run: (*parser).callonInlineImage23,
 																	expr: &seqExpr{
-																		pos: position{line: 2877, col: 9, offset: 90971},
+																		pos: position{line: 2877, col: 9, offset: 90966},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 2877, col: 9, offset: 90971},
+																				pos: position{line: 2877, col: 9, offset: 90966},
 																				expr: &litMatcher{
-																					pos:        position{line: 2877, col: 10, offset: 90972},
+																					pos:        position{line: 2877, col: 10, offset: 90967},
 																					val:        "[",
 																					ignoreCase: false,
 																					want:       "\"[\"",
 																				},
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 2878, col: 9, offset: 91000},
+																				pos: position{line: 2878, col: 9, offset: 90995},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2878, col: 10, offset: 91001},
+																					pos:        position{line: 2878, col: 10, offset: 90996},
 																					val:        "[^\\r\\n[]�{,;?!.<> ]",
 																					chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																					ignoreCase: false,
@@ -20661,27 +20661,27 @@ var g = &grammar{
 																	},
 																},
 																&seqExpr{
-																	pos: position{line: 2881, col: 11, offset: 91213},
+																	pos: position{line: 2881, col: 11, offset: 91208},
 																	exprs: []interface{}{
 																		&charClassMatcher{
-																			pos:        position{line: 2881, col: 11, offset: 91213},
+																			pos:        position{line: 2881, col: 11, offset: 91208},
 																			val:        "[,;?!.]",
 																			chars:      []rune{',', ';', '?', '!', '.'},
 																			ignoreCase: false,
 																			inverted:   false,
 																		},
 																		&andExpr{
-																			pos: position{line: 2881, col: 19, offset: 91221},
+																			pos: position{line: 2881, col: 19, offset: 91216},
 																			expr: &seqExpr{
-																				pos: position{line: 2881, col: 21, offset: 91223},
+																				pos: position{line: 2881, col: 21, offset: 91218},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2881, col: 21, offset: 91223},
+																						pos: position{line: 2881, col: 21, offset: 91218},
 																						expr: &actionExpr{
-																							pos: position{line: 2905, col: 10, offset: 91835},
+																							pos: position{line: 2905, col: 10, offset: 91830},
 																							run: (*parser).callonInlineImage34,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2905, col: 10, offset: 91835},
+																								pos:        position{line: 2905, col: 10, offset: 91830},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -20690,11 +20690,11 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2881, col: 28, offset: 91230},
+																						pos: position{line: 2881, col: 28, offset: 91225},
 																						expr: &notExpr{
-																							pos: position{line: 2924, col: 8, offset: 92183},
+																							pos: position{line: 2924, col: 8, offset: 92178},
 																							expr: &anyMatcher{
-																								line: 2924, col: 9, offset: 92184,
+																								line: 2924, col: 9, offset: 92179,
 																							},
 																						},
 																					},
@@ -21089,10 +21089,10 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2884, col: 11, offset: 91350},
+																	pos: position{line: 2884, col: 11, offset: 91345},
 																	run: (*parser).callonInlineImage116,
 																	expr: &litMatcher{
-																		pos:        position{line: 2884, col: 11, offset: 91350},
+																		pos:        position{line: 2884, col: 11, offset: 91345},
 																		val:        "{",
 																		ignoreCase: false,
 																		want:       "\"{\"",
@@ -21109,10 +21109,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1343, col: 46, offset: 42163},
+							pos:   position{line: 1343, col: 46, offset: 42158},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1343, col: 58, offset: 42175},
+								pos:  position{line: 1343, col: 58, offset: 42170},
 								name: "InlineAttributes",
 							},
 						},
@@ -21122,29 +21122,29 @@ var g = &grammar{
 		},
 		{
 			name: "InlineIcon",
-			pos:  position{line: 1350, col: 1, offset: 42571},
+			pos:  position{line: 1350, col: 1, offset: 42566},
 			expr: &actionExpr{
-				pos: position{line: 1350, col: 15, offset: 42585},
+				pos: position{line: 1350, col: 15, offset: 42580},
 				run: (*parser).callonInlineIcon1,
 				expr: &seqExpr{
-					pos: position{line: 1350, col: 15, offset: 42585},
+					pos: position{line: 1350, col: 15, offset: 42580},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1350, col: 15, offset: 42585},
+							pos:        position{line: 1350, col: 15, offset: 42580},
 							val:        "icon:",
 							ignoreCase: false,
 							want:       "\"icon:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1350, col: 23, offset: 42593},
+							pos:   position{line: 1350, col: 23, offset: 42588},
 							label: "icon",
 							expr: &actionExpr{
-								pos: position{line: 1350, col: 29, offset: 42599},
+								pos: position{line: 1350, col: 29, offset: 42594},
 								run: (*parser).callonInlineIcon5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1350, col: 29, offset: 42599},
+									pos: position{line: 1350, col: 29, offset: 42594},
 									expr: &charClassMatcher{
-										pos:        position{line: 1350, col: 29, offset: 42599},
+										pos:        position{line: 1350, col: 29, offset: 42594},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -21155,10 +21155,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1350, col: 73, offset: 42643},
+							pos:   position{line: 1350, col: 73, offset: 42638},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1350, col: 85, offset: 42655},
+								pos:  position{line: 1350, col: 85, offset: 42650},
 								name: "InlineAttributes",
 							},
 						},
@@ -21168,31 +21168,31 @@ var g = &grammar{
 		},
 		{
 			name: "InlineFootnote",
-			pos:  position{line: 1357, col: 1, offset: 43021},
+			pos:  position{line: 1357, col: 1, offset: 43016},
 			expr: &actionExpr{
-				pos: position{line: 1357, col: 19, offset: 43039},
+				pos: position{line: 1357, col: 19, offset: 43034},
 				run: (*parser).callonInlineFootnote1,
 				expr: &seqExpr{
-					pos: position{line: 1357, col: 19, offset: 43039},
+					pos: position{line: 1357, col: 19, offset: 43034},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1357, col: 19, offset: 43039},
+							pos:        position{line: 1357, col: 19, offset: 43034},
 							val:        "footnote:",
 							ignoreCase: false,
 							want:       "\"footnote:\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1357, col: 31, offset: 43051},
+							pos:   position{line: 1357, col: 31, offset: 43046},
 							label: "ref",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1357, col: 35, offset: 43055},
+								pos: position{line: 1357, col: 35, offset: 43050},
 								expr: &actionExpr{
-									pos: position{line: 2799, col: 14, offset: 89004},
+									pos: position{line: 2799, col: 14, offset: 88999},
 									run: (*parser).callonInlineFootnote6,
 									expr: &oneOrMoreExpr{
-										pos: position{line: 2799, col: 14, offset: 89004},
+										pos: position{line: 2799, col: 14, offset: 88999},
 										expr: &charClassMatcher{
-											pos:        position{line: 2799, col: 14, offset: 89004},
+											pos:        position{line: 2799, col: 14, offset: 88999},
 											val:        "[\\pL\\pN]",
 											classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 											ignoreCase: false,
@@ -21203,21 +21203,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1357, col: 50, offset: 43070},
+							pos:        position{line: 1357, col: 50, offset: 43065},
 							val:        "[",
 							ignoreCase: false,
 							want:       "\"[\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1357, col: 54, offset: 43074},
+							pos:   position{line: 1357, col: 54, offset: 43069},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1357, col: 64, offset: 43084},
+								pos:  position{line: 1357, col: 64, offset: 43079},
 								name: "FootnoteElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1357, col: 82, offset: 43102},
+							pos:        position{line: 1357, col: 82, offset: 43097},
 							val:        "]",
 							ignoreCase: false,
 							want:       "\"]\"",
@@ -21228,17 +21228,17 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElements",
-			pos:  position{line: 1363, col: 1, offset: 43259},
+			pos:  position{line: 1363, col: 1, offset: 43254},
 			expr: &actionExpr{
-				pos: position{line: 1363, col: 21, offset: 43279},
+				pos: position{line: 1363, col: 21, offset: 43274},
 				run: (*parser).callonFootnoteElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1363, col: 21, offset: 43279},
+					pos:   position{line: 1363, col: 21, offset: 43274},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1363, col: 30, offset: 43288},
+						pos: position{line: 1363, col: 30, offset: 43283},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1363, col: 31, offset: 43289},
+							pos:  position{line: 1363, col: 31, offset: 43284},
 							name: "FootnoteElement",
 						},
 					},
@@ -21247,44 +21247,44 @@ var g = &grammar{
 		},
 		{
 			name: "FootnoteElement",
-			pos:  position{line: 1367, col: 1, offset: 43381},
+			pos:  position{line: 1367, col: 1, offset: 43376},
 			expr: &actionExpr{
-				pos: position{line: 1368, col: 5, offset: 43405},
+				pos: position{line: 1368, col: 5, offset: 43400},
 				run: (*parser).callonFootnoteElement1,
 				expr: &seqExpr{
-					pos: position{line: 1368, col: 5, offset: 43405},
+					pos: position{line: 1368, col: 5, offset: 43400},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1368, col: 5, offset: 43405},
+							pos: position{line: 1368, col: 5, offset: 43400},
 							expr: &litMatcher{
-								pos:        position{line: 1368, col: 6, offset: 43406},
+								pos:        position{line: 1368, col: 6, offset: 43401},
 								val:        "]",
 								ignoreCase: false,
 								want:       "\"]\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1369, col: 5, offset: 43415},
+							pos:   position{line: 1369, col: 5, offset: 43410},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1370, col: 9, offset: 43433},
+								pos: position{line: 1370, col: 9, offset: 43428},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2804, col: 5, offset: 89077},
+										pos: position{line: 2804, col: 5, offset: 89072},
 										run: (*parser).callonFootnoteElement7,
 										expr: &seqExpr{
-											pos: position{line: 2804, col: 5, offset: 89077},
+											pos: position{line: 2804, col: 5, offset: 89072},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2804, col: 5, offset: 89077},
+													pos:   position{line: 2804, col: 5, offset: 89072},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2804, col: 11, offset: 89083},
+														pos: position{line: 2804, col: 11, offset: 89078},
 														run: (*parser).callonFootnoteElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2804, col: 11, offset: 89083},
+															pos: position{line: 2804, col: 11, offset: 89078},
 															expr: &charClassMatcher{
-																pos:        position{line: 2804, col: 11, offset: 89083},
+																pos:        position{line: 2804, col: 11, offset: 89078},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21294,36 +21294,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2807, col: 5, offset: 89141},
+													pos: position{line: 2807, col: 5, offset: 89136},
 													expr: &seqExpr{
-														pos: position{line: 2808, col: 9, offset: 89152},
+														pos: position{line: 2808, col: 9, offset: 89147},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2808, col: 9, offset: 89152},
+																pos:        position{line: 2808, col: 9, offset: 89147},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2809, col: 9, offset: 89201},
+																pos: position{line: 2809, col: 9, offset: 89196},
 																run: (*parser).callonFootnoteElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2813, col: 5, offset: 89281},
+													pos: position{line: 2813, col: 5, offset: 89276},
 													expr: &seqExpr{
-														pos: position{line: 2814, col: 9, offset: 89292},
+														pos: position{line: 2814, col: 9, offset: 89287},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2814, col: 9, offset: 89292},
+																pos:        position{line: 2814, col: 9, offset: 89287},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2814, col: 13, offset: 89296},
+																pos:        position{line: 2814, col: 13, offset: 89291},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -21336,12 +21336,12 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2909, col: 11, offset: 91896},
+										pos: position{line: 2909, col: 11, offset: 91891},
 										run: (*parser).callonFootnoteElement21,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2909, col: 11, offset: 91896},
+											pos: position{line: 2909, col: 11, offset: 91891},
 											expr: &charClassMatcher{
-												pos:        position{line: 2909, col: 11, offset: 91896},
+												pos:        position{line: 2909, col: 11, offset: 91891},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -21350,25 +21350,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2515, col: 5, offset: 81086},
+										pos: position{line: 2515, col: 5, offset: 81081},
 										run: (*parser).callonFootnoteElement24,
 										expr: &seqExpr{
-											pos: position{line: 2515, col: 5, offset: 81086},
+											pos: position{line: 2515, col: 5, offset: 81081},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2515, col: 5, offset: 81086},
+													pos: position{line: 2515, col: 5, offset: 81081},
 													run: (*parser).callonFootnoteElement26,
 												},
 												&litMatcher{
-													pos:        position{line: 2518, col: 5, offset: 81157},
+													pos:        position{line: 2518, col: 5, offset: 81152},
 													val:        "\\'",
 													ignoreCase: false,
 													want:       "\"\\\\'\"",
 												},
 												&andExpr{
-													pos: position{line: 2518, col: 10, offset: 81162},
+													pos: position{line: 2518, col: 10, offset: 81157},
 													expr: &charClassMatcher{
-														pos:        position{line: 2518, col: 11, offset: 81163},
+														pos:        position{line: 2518, col: 11, offset: 81158},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21379,29 +21379,29 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2524, col: 5, offset: 81355},
+										pos: position{line: 2524, col: 5, offset: 81350},
 										run: (*parser).callonFootnoteElement30,
 										expr: &seqExpr{
-											pos: position{line: 2524, col: 5, offset: 81355},
+											pos: position{line: 2524, col: 5, offset: 81350},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2524, col: 5, offset: 81355},
+													pos: position{line: 2524, col: 5, offset: 81350},
 													run: (*parser).callonFootnoteElement32,
 												},
 												&andCodeExpr{
-													pos: position{line: 2527, col: 5, offset: 81426},
+													pos: position{line: 2527, col: 5, offset: 81421},
 													run: (*parser).callonFootnoteElement33,
 												},
 												&litMatcher{
-													pos:        position{line: 2531, col: 5, offset: 81551},
+													pos:        position{line: 2531, col: 5, offset: 81546},
 													val:        "'",
 													ignoreCase: false,
 													want:       "\"'\"",
 												},
 												&andExpr{
-													pos: position{line: 2531, col: 9, offset: 81555},
+													pos: position{line: 2531, col: 9, offset: 81550},
 													expr: &charClassMatcher{
-														pos:        position{line: 2531, col: 10, offset: 81556},
+														pos:        position{line: 2531, col: 10, offset: 81551},
 														val:        "[\\pL]",
 														classes:    []*unicode.RangeTable{rangeTable("L")},
 														ignoreCase: false,
@@ -21412,35 +21412,35 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1373, col: 11, offset: 43500},
+										pos:  position{line: 1373, col: 11, offset: 43495},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1374, col: 11, offset: 43516},
+										pos:  position{line: 1374, col: 11, offset: 43511},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2822, col: 5, offset: 89489},
+										pos: position{line: 2822, col: 5, offset: 89484},
 										run: (*parser).callonFootnoteElement39,
 										expr: &choiceExpr{
-											pos: position{line: 2823, col: 9, offset: 89499},
+											pos: position{line: 2823, col: 9, offset: 89494},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2823, col: 10, offset: 89500},
+													pos:        position{line: 2823, col: 10, offset: 89495},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2825, col: 13, offset: 89597},
+													pos: position{line: 2825, col: 13, offset: 89592},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2825, col: 13, offset: 89597},
+															pos: position{line: 2825, col: 13, offset: 89592},
 															run: (*parser).callonFootnoteElement43,
 														},
 														&litMatcher{
-															pos:        position{line: 2828, col: 13, offset: 89697},
+															pos:        position{line: 2828, col: 13, offset: 89692},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -21448,20 +21448,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2828, col: 19, offset: 89703},
+													pos:        position{line: 2828, col: 19, offset: 89698},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2831, col: 13, offset: 89741},
+													pos: position{line: 2831, col: 13, offset: 89736},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2831, col: 13, offset: 89741},
+															pos: position{line: 2831, col: 13, offset: 89736},
 															run: (*parser).callonFootnoteElement47,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2834, col: 14, offset: 89834},
+															pos:        position{line: 2834, col: 14, offset: 89829},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -21470,18 +21470,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2836, col: 12, offset: 89878},
+													pos: position{line: 2836, col: 12, offset: 89873},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2836, col: 12, offset: 89878},
+															pos:        position{line: 2836, col: 12, offset: 89873},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2836, col: 16, offset: 89882},
+															pos: position{line: 2836, col: 16, offset: 89877},
 															expr: &litMatcher{
-																pos:        position{line: 2836, col: 17, offset: 89883},
+																pos:        position{line: 2836, col: 17, offset: 89878},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -21493,7 +21493,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1376, col: 11, offset: 43589},
+										pos:  position{line: 1376, col: 11, offset: 43584},
 										name: "InlineMacro",
 									},
 									&actionExpr{
@@ -21519,10 +21519,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 1240, col: 5, offset: 38477},
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 10, offset: 91835},
+														pos: position{line: 2905, col: 10, offset: 91830},
 														run: (*parser).callonFootnoteElement60,
 														expr: &charClassMatcher{
-															pos:        position{line: 2905, col: 10, offset: 91835},
+															pos:        position{line: 2905, col: 10, offset: 91830},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -21533,28 +21533,28 @@ var g = &grammar{
 												&andExpr{
 													pos: position{line: 1240, col: 12, offset: 38484},
 													expr: &choiceExpr{
-														pos: position{line: 2927, col: 8, offset: 92233},
+														pos: position{line: 2927, col: 8, offset: 92228},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2914, col: 12, offset: 92006},
+																pos: position{line: 2914, col: 12, offset: 92001},
 																run: (*parser).callonFootnoteElement64,
 																expr: &choiceExpr{
-																	pos: position{line: 2914, col: 13, offset: 92007},
+																	pos: position{line: 2914, col: 13, offset: 92002},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 13, offset: 92007},
+																			pos:        position{line: 2914, col: 13, offset: 92002},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 20, offset: 92014},
+																			pos:        position{line: 2914, col: 20, offset: 92009},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 29, offset: 92023},
+																			pos:        position{line: 2914, col: 29, offset: 92018},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -21563,9 +21563,9 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2924, col: 8, offset: 92183},
+																pos: position{line: 2924, col: 8, offset: 92178},
 																expr: &anyMatcher{
-																	line: 2924, col: 9, offset: 92184,
+																	line: 2924, col: 9, offset: 92179,
 																},
 															},
 														},
@@ -21921,23 +21921,23 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2484, col: 5, offset: 79915},
+										pos: position{line: 2484, col: 5, offset: 79910},
 										run: (*parser).callonFootnoteElement140,
 										expr: &seqExpr{
-											pos: position{line: 2484, col: 5, offset: 79915},
+											pos: position{line: 2484, col: 5, offset: 79910},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2484, col: 5, offset: 79915},
+													pos: position{line: 2484, col: 5, offset: 79910},
 													run: (*parser).callonFootnoteElement142,
 												},
 												&labeledExpr{
-													pos:   position{line: 2487, col: 5, offset: 79991},
+													pos:   position{line: 2487, col: 5, offset: 79986},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2488, col: 9, offset: 80009},
+														pos: position{line: 2488, col: 9, offset: 80004},
 														run: (*parser).callonFootnoteElement144,
 														expr: &charClassMatcher{
-															pos:        position{line: 2488, col: 10, offset: 80010},
+															pos:        position{line: 2488, col: 10, offset: 80005},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -21949,25 +21949,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2914, col: 12, offset: 92006},
+										pos: position{line: 2914, col: 12, offset: 92001},
 										run: (*parser).callonFootnoteElement146,
 										expr: &choiceExpr{
-											pos: position{line: 2914, col: 13, offset: 92007},
+											pos: position{line: 2914, col: 13, offset: 92002},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2914, col: 13, offset: 92007},
+													pos:        position{line: 2914, col: 13, offset: 92002},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2914, col: 20, offset: 92014},
+													pos:        position{line: 2914, col: 20, offset: 92009},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2914, col: 29, offset: 92023},
+													pos:        position{line: 2914, col: 29, offset: 92018},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -21976,10 +21976,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2844, col: 12, offset: 90143},
+										pos: position{line: 2844, col: 12, offset: 90138},
 										run: (*parser).callonFootnoteElement151,
 										expr: &charClassMatcher{
-											pos:        position{line: 2844, col: 12, offset: 90143},
+											pos:        position{line: 2844, col: 12, offset: 90138},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -21995,32 +21995,32 @@ var g = &grammar{
 		},
 		{
 			name: "PassthroughMacro",
-			pos:  position{line: 1415, col: 1, offset: 45434},
+			pos:  position{line: 1415, col: 1, offset: 45429},
 			expr: &choiceExpr{
-				pos: position{line: 1415, col: 21, offset: 45454},
+				pos: position{line: 1415, col: 21, offset: 45449},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1415, col: 21, offset: 45454},
+						pos: position{line: 1415, col: 21, offset: 45449},
 						run: (*parser).callonPassthroughMacro2,
 						expr: &seqExpr{
-							pos: position{line: 1415, col: 21, offset: 45454},
+							pos: position{line: 1415, col: 21, offset: 45449},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1415, col: 21, offset: 45454},
+									pos:        position{line: 1415, col: 21, offset: 45449},
 									val:        "pass:[",
 									ignoreCase: false,
 									want:       "\"pass:[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1415, col: 30, offset: 45463},
+									pos:   position{line: 1415, col: 30, offset: 45458},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1415, col: 38, offset: 45471},
+										pos: position{line: 1415, col: 38, offset: 45466},
 										expr: &actionExpr{
-											pos: position{line: 1421, col: 30, offset: 45797},
+											pos: position{line: 1421, col: 30, offset: 45792},
 											run: (*parser).callonPassthroughMacro7,
 											expr: &charClassMatcher{
-												pos:        position{line: 1421, col: 30, offset: 45797},
+												pos:        position{line: 1421, col: 30, offset: 45792},
 												val:        "[^]]",
 												chars:      []rune{']'},
 												ignoreCase: false,
@@ -22030,7 +22030,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1415, col: 67, offset: 45500},
+									pos:        position{line: 1415, col: 67, offset: 45495},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -22039,34 +22039,34 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1417, col: 9, offset: 45604},
+						pos: position{line: 1417, col: 9, offset: 45599},
 						run: (*parser).callonPassthroughMacro10,
 						expr: &seqExpr{
-							pos: position{line: 1417, col: 9, offset: 45604},
+							pos: position{line: 1417, col: 9, offset: 45599},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1417, col: 9, offset: 45604},
+									pos:        position{line: 1417, col: 9, offset: 45599},
 									val:        "pass:q[",
 									ignoreCase: false,
 									want:       "\"pass:q[\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1417, col: 19, offset: 45614},
+									pos:   position{line: 1417, col: 19, offset: 45609},
 									label: "content",
 									expr: &zeroOrMoreExpr{
-										pos: position{line: 1417, col: 27, offset: 45622},
+										pos: position{line: 1417, col: 27, offset: 45617},
 										expr: &choiceExpr{
-											pos: position{line: 1417, col: 28, offset: 45623},
+											pos: position{line: 1417, col: 28, offset: 45618},
 											alternatives: []interface{}{
 												&ruleRefExpr{
-													pos:  position{line: 1417, col: 28, offset: 45623},
+													pos:  position{line: 1417, col: 28, offset: 45618},
 													name: "QuotedText",
 												},
 												&actionExpr{
-													pos: position{line: 1421, col: 30, offset: 45797},
+													pos: position{line: 1421, col: 30, offset: 45792},
 													run: (*parser).callonPassthroughMacro17,
 													expr: &charClassMatcher{
-														pos:        position{line: 1421, col: 30, offset: 45797},
+														pos:        position{line: 1421, col: 30, offset: 45792},
 														val:        "[^]]",
 														chars:      []rune{']'},
 														ignoreCase: false,
@@ -22078,7 +22078,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1417, col: 69, offset: 45664},
+									pos:        position{line: 1417, col: 69, offset: 45659},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
@@ -22091,75 +22091,75 @@ var g = &grammar{
 		},
 		{
 			name: "Link",
-			pos:  position{line: 1428, col: 1, offset: 46053},
+			pos:  position{line: 1428, col: 1, offset: 46048},
 			expr: &choiceExpr{
-				pos: position{line: 1428, col: 9, offset: 46061},
+				pos: position{line: 1428, col: 9, offset: 46056},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1431, col: 5, offset: 46130},
+						pos: position{line: 1431, col: 5, offset: 46125},
 						run: (*parser).callonLink2,
 						expr: &seqExpr{
-							pos: position{line: 1431, col: 5, offset: 46130},
+							pos: position{line: 1431, col: 5, offset: 46125},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1431, col: 5, offset: 46130},
+									pos:        position{line: 1431, col: 5, offset: 46125},
 									val:        "<",
 									ignoreCase: false,
 									want:       "\"<\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1432, col: 5, offset: 46139},
+									pos:   position{line: 1432, col: 5, offset: 46134},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2867, col: 23, offset: 90721},
+										pos: position{line: 2867, col: 23, offset: 90716},
 										run: (*parser).callonLink6,
 										expr: &seqExpr{
-											pos: position{line: 2867, col: 23, offset: 90721},
+											pos: position{line: 2867, col: 23, offset: 90716},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2867, col: 23, offset: 90721},
+													pos: position{line: 2867, col: 23, offset: 90716},
 													expr: &litMatcher{
-														pos:        position{line: 2867, col: 24, offset: 90722},
+														pos:        position{line: 2867, col: 24, offset: 90717},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2867, col: 28, offset: 90726},
+													pos:   position{line: 2867, col: 28, offset: 90721},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2871, col: 11, offset: 90840},
+														pos: position{line: 2871, col: 11, offset: 90835},
 														run: (*parser).callonLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2871, col: 12, offset: 90841},
+															pos: position{line: 2871, col: 12, offset: 90836},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2871, col: 12, offset: 90841},
+																	pos:        position{line: 2871, col: 12, offset: 90836},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2871, col: 24, offset: 90853},
+																	pos:        position{line: 2871, col: 24, offset: 90848},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2871, col: 37, offset: 90866},
+																	pos:        position{line: 2871, col: 37, offset: 90861},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2871, col: 48, offset: 90877},
+																	pos:        position{line: 2871, col: 48, offset: 90872},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2871, col: 59, offset: 90888},
+																	pos:        position{line: 2871, col: 59, offset: 90883},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -22169,38 +22169,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2867, col: 44, offset: 90742},
+													pos:   position{line: 2867, col: 44, offset: 90737},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 5, offset: 90952},
+														pos: position{line: 2876, col: 5, offset: 90947},
 														run: (*parser).callonLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2876, col: 5, offset: 90952},
+															pos:   position{line: 2876, col: 5, offset: 90947},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2876, col: 14, offset: 90961},
+																pos: position{line: 2876, col: 14, offset: 90956},
 																expr: &choiceExpr{
-																	pos: position{line: 2877, col: 9, offset: 90971},
+																	pos: position{line: 2877, col: 9, offset: 90966},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 9, offset: 90971},
+																			pos: position{line: 2877, col: 9, offset: 90966},
 																			run: (*parser).callonLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2877, col: 9, offset: 90971},
+																				pos: position{line: 2877, col: 9, offset: 90966},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2877, col: 9, offset: 90971},
+																						pos: position{line: 2877, col: 9, offset: 90966},
 																						expr: &litMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 90972},
+																							pos:        position{line: 2877, col: 10, offset: 90967},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2878, col: 9, offset: 91000},
+																						pos: position{line: 2878, col: 9, offset: 90995},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 10, offset: 91001},
+																							pos:        position{line: 2878, col: 10, offset: 90996},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22211,27 +22211,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2881, col: 11, offset: 91213},
+																			pos: position{line: 2881, col: 11, offset: 91208},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2881, col: 11, offset: 91213},
+																					pos:        position{line: 2881, col: 11, offset: 91208},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2881, col: 19, offset: 91221},
+																					pos: position{line: 2881, col: 19, offset: 91216},
 																					expr: &seqExpr{
-																						pos: position{line: 2881, col: 21, offset: 91223},
+																						pos: position{line: 2881, col: 21, offset: 91218},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2881, col: 21, offset: 91223},
+																								pos: position{line: 2881, col: 21, offset: 91218},
 																								expr: &actionExpr{
-																									pos: position{line: 2905, col: 10, offset: 91835},
+																									pos: position{line: 2905, col: 10, offset: 91830},
 																									run: (*parser).callonLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2905, col: 10, offset: 91835},
+																										pos:        position{line: 2905, col: 10, offset: 91830},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22240,11 +22240,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 28, offset: 91230},
+																								pos: position{line: 2881, col: 28, offset: 91225},
 																								expr: &notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -22639,10 +22639,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2884, col: 11, offset: 91350},
+																			pos: position{line: 2884, col: 11, offset: 91345},
 																			run: (*parser).callonLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2884, col: 11, offset: 91350},
+																				pos:        position{line: 2884, col: 11, offset: 91345},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -22659,7 +22659,7 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1437, col: 5, offset: 46358},
+									pos:        position{line: 1437, col: 5, offset: 46353},
 									val:        ">",
 									ignoreCase: false,
 									want:       "\">\"",
@@ -22668,38 +22668,38 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1428, col: 19, offset: 46071},
+						pos:  position{line: 1428, col: 19, offset: 46066},
 						name: "RelativeLink",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1428, col: 34, offset: 46086},
+						pos:  position{line: 1428, col: 34, offset: 46081},
 						name: "ExternalLink",
 					},
 					&actionExpr{
-						pos: position{line: 1466, col: 17, offset: 47351},
+						pos: position{line: 1466, col: 17, offset: 47346},
 						run: (*parser).callonLink121,
 						expr: &seqExpr{
-							pos: position{line: 1466, col: 17, offset: 47351},
+							pos: position{line: 1466, col: 17, offset: 47346},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1466, col: 17, offset: 47351},
+									pos:   position{line: 1466, col: 17, offset: 47346},
 									label: "local",
 									expr: &actionExpr{
-										pos: position{line: 1471, col: 5, offset: 47516},
+										pos: position{line: 1471, col: 5, offset: 47511},
 										run: (*parser).callonLink124,
 										expr: &seqExpr{
-											pos: position{line: 1471, col: 5, offset: 47516},
+											pos: position{line: 1471, col: 5, offset: 47511},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1471, col: 5, offset: 47516},
+													pos:   position{line: 1471, col: 5, offset: 47511},
 													label: "local",
 													expr: &actionExpr{
-														pos: position{line: 1471, col: 12, offset: 47523},
+														pos: position{line: 1471, col: 12, offset: 47518},
 														run: (*parser).callonLink127,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1471, col: 12, offset: 47523},
+															pos: position{line: 1471, col: 12, offset: 47518},
 															expr: &charClassMatcher{
-																pos:        position{line: 1471, col: 12, offset: 47523},
+																pos:        position{line: 1471, col: 12, offset: 47518},
 																val:        "[!#$%&\\*=?^_`{|}~.+-/\\pL\\pN]",
 																chars:      []rune{'!', '#', '$', '%', '&', '\'', '*', '=', '?', '^', '_', '`', '{', '|', '}', '~', '.'},
 																ranges:     []rune{'+', '/'},
@@ -22711,7 +22711,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1474, col: 5, offset: 47607},
+													pos: position{line: 1474, col: 5, offset: 47602},
 													run: (*parser).callonLink130,
 												},
 											},
@@ -22719,33 +22719,33 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1466, col: 43, offset: 47377},
+									pos:        position{line: 1466, col: 43, offset: 47372},
 									val:        "@",
 									ignoreCase: false,
 									want:       "\"@\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1466, col: 47, offset: 47381},
+									pos:   position{line: 1466, col: 47, offset: 47376},
 									label: "domain",
 									expr: &actionExpr{
-										pos: position{line: 1483, col: 23, offset: 47901},
+										pos: position{line: 1483, col: 23, offset: 47896},
 										run: (*parser).callonLink133,
 										expr: &seqExpr{
-											pos: position{line: 1483, col: 23, offset: 47901},
+											pos: position{line: 1483, col: 23, offset: 47896},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1483, col: 23, offset: 47901},
+													pos:   position{line: 1483, col: 23, offset: 47896},
 													label: "domain",
 													expr: &actionExpr{
-														pos: position{line: 1483, col: 31, offset: 47909},
+														pos: position{line: 1483, col: 31, offset: 47904},
 														run: (*parser).callonLink136,
 														expr: &seqExpr{
-															pos: position{line: 1483, col: 31, offset: 47909},
+															pos: position{line: 1483, col: 31, offset: 47904},
 															exprs: []interface{}{
 																&oneOrMoreExpr{
-																	pos: position{line: 1483, col: 31, offset: 47909},
+																	pos: position{line: 1483, col: 31, offset: 47904},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 1483, col: 31, offset: 47909},
+																		pos:        position{line: 1483, col: 31, offset: 47904},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -22753,20 +22753,20 @@ var g = &grammar{
 																	},
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 1483, col: 41, offset: 47919},
+																	pos: position{line: 1483, col: 41, offset: 47914},
 																	expr: &seqExpr{
-																		pos: position{line: 1483, col: 42, offset: 47920},
+																		pos: position{line: 1483, col: 42, offset: 47915},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1483, col: 42, offset: 47920},
+																				pos:        position{line: 1483, col: 42, offset: 47915},
 																				val:        ".",
 																				ignoreCase: false,
 																				want:       "\".\"",
 																			},
 																			&oneOrMoreExpr{
-																				pos: position{line: 1483, col: 46, offset: 47924},
+																				pos: position{line: 1483, col: 46, offset: 47919},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1483, col: 46, offset: 47924},
+																					pos:        position{line: 1483, col: 46, offset: 47919},
 																					val:        "[-\\pL\\pN]",
 																					chars:      []rune{'-'},
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -22782,7 +22782,7 @@ var g = &grammar{
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 1486, col: 5, offset: 47985},
+													pos: position{line: 1486, col: 5, offset: 47980},
 													run: (*parser).callonLink145,
 												},
 											},
@@ -22797,68 +22797,68 @@ var g = &grammar{
 		},
 		{
 			name: "RelativeLink",
-			pos:  position{line: 1443, col: 1, offset: 46506},
+			pos:  position{line: 1443, col: 1, offset: 46501},
 			expr: &choiceExpr{
-				pos: position{line: 1445, col: 5, offset: 46542},
+				pos: position{line: 1445, col: 5, offset: 46537},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1445, col: 5, offset: 46542},
+						pos: position{line: 1445, col: 5, offset: 46537},
 						run: (*parser).callonRelativeLink2,
 						expr: &seqExpr{
-							pos: position{line: 1445, col: 5, offset: 46542},
+							pos: position{line: 1445, col: 5, offset: 46537},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1445, col: 5, offset: 46542},
+									pos:        position{line: 1445, col: 5, offset: 46537},
 									val:        "\\link:",
 									ignoreCase: false,
 									want:       "\"\\\\link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1445, col: 17, offset: 46554},
+									pos:   position{line: 1445, col: 17, offset: 46549},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2863, col: 13, offset: 90594},
+										pos: position{line: 2863, col: 13, offset: 90589},
 										run: (*parser).callonRelativeLink6,
 										expr: &seqExpr{
-											pos: position{line: 2863, col: 13, offset: 90594},
+											pos: position{line: 2863, col: 13, offset: 90589},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2863, col: 13, offset: 90594},
+													pos:   position{line: 2863, col: 13, offset: 90589},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2863, col: 20, offset: 90601},
+														pos: position{line: 2863, col: 20, offset: 90596},
 														expr: &actionExpr{
-															pos: position{line: 2871, col: 11, offset: 90840},
+															pos: position{line: 2871, col: 11, offset: 90835},
 															run: (*parser).callonRelativeLink10,
 															expr: &choiceExpr{
-																pos: position{line: 2871, col: 12, offset: 90841},
+																pos: position{line: 2871, col: 12, offset: 90836},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 12, offset: 90841},
+																		pos:        position{line: 2871, col: 12, offset: 90836},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 24, offset: 90853},
+																		pos:        position{line: 2871, col: 24, offset: 90848},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 37, offset: 90866},
+																		pos:        position{line: 2871, col: 37, offset: 90861},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 48, offset: 90877},
+																		pos:        position{line: 2871, col: 48, offset: 90872},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 59, offset: 90888},
+																		pos:        position{line: 2871, col: 59, offset: 90883},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -22869,38 +22869,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2863, col: 30, offset: 90611},
+													pos:   position{line: 2863, col: 30, offset: 90606},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 5, offset: 90952},
+														pos: position{line: 2876, col: 5, offset: 90947},
 														run: (*parser).callonRelativeLink18,
 														expr: &labeledExpr{
-															pos:   position{line: 2876, col: 5, offset: 90952},
+															pos:   position{line: 2876, col: 5, offset: 90947},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2876, col: 14, offset: 90961},
+																pos: position{line: 2876, col: 14, offset: 90956},
 																expr: &choiceExpr{
-																	pos: position{line: 2877, col: 9, offset: 90971},
+																	pos: position{line: 2877, col: 9, offset: 90966},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 9, offset: 90971},
+																			pos: position{line: 2877, col: 9, offset: 90966},
 																			run: (*parser).callonRelativeLink22,
 																			expr: &seqExpr{
-																				pos: position{line: 2877, col: 9, offset: 90971},
+																				pos: position{line: 2877, col: 9, offset: 90966},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2877, col: 9, offset: 90971},
+																						pos: position{line: 2877, col: 9, offset: 90966},
 																						expr: &litMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 90972},
+																							pos:        position{line: 2877, col: 10, offset: 90967},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2878, col: 9, offset: 91000},
+																						pos: position{line: 2878, col: 9, offset: 90995},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 10, offset: 91001},
+																							pos:        position{line: 2878, col: 10, offset: 90996},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -22911,27 +22911,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2881, col: 11, offset: 91213},
+																			pos: position{line: 2881, col: 11, offset: 91208},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2881, col: 11, offset: 91213},
+																					pos:        position{line: 2881, col: 11, offset: 91208},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2881, col: 19, offset: 91221},
+																					pos: position{line: 2881, col: 19, offset: 91216},
 																					expr: &seqExpr{
-																						pos: position{line: 2881, col: 21, offset: 91223},
+																						pos: position{line: 2881, col: 21, offset: 91218},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2881, col: 21, offset: 91223},
+																								pos: position{line: 2881, col: 21, offset: 91218},
 																								expr: &actionExpr{
-																									pos: position{line: 2905, col: 10, offset: 91835},
+																									pos: position{line: 2905, col: 10, offset: 91830},
 																									run: (*parser).callonRelativeLink33,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2905, col: 10, offset: 91835},
+																										pos:        position{line: 2905, col: 10, offset: 91830},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -22940,11 +22940,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 28, offset: 91230},
+																								pos: position{line: 2881, col: 28, offset: 91225},
 																								expr: &notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -23339,10 +23339,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2884, col: 11, offset: 91350},
+																			pos: position{line: 2884, col: 11, offset: 91345},
 																			run: (*parser).callonRelativeLink115,
 																			expr: &litMatcher{
-																				pos:        position{line: 2884, col: 11, offset: 91350},
+																				pos:        position{line: 2884, col: 11, offset: 91345},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23359,10 +23359,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1445, col: 32, offset: 46569},
+									pos:   position{line: 1445, col: 32, offset: 46564},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1445, col: 44, offset: 46581},
+										pos:  position{line: 1445, col: 44, offset: 46576},
 										name: "InlineAttributes",
 									},
 								},
@@ -23370,63 +23370,63 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1450, col: 5, offset: 46713},
+						pos: position{line: 1450, col: 5, offset: 46708},
 						run: (*parser).callonRelativeLink119,
 						expr: &seqExpr{
-							pos: position{line: 1450, col: 5, offset: 46713},
+							pos: position{line: 1450, col: 5, offset: 46708},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1450, col: 5, offset: 46713},
+									pos:        position{line: 1450, col: 5, offset: 46708},
 									val:        "link:",
 									ignoreCase: false,
 									want:       "\"link:\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1450, col: 13, offset: 46721},
+									pos:   position{line: 1450, col: 13, offset: 46716},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2863, col: 13, offset: 90594},
+										pos: position{line: 2863, col: 13, offset: 90589},
 										run: (*parser).callonRelativeLink123,
 										expr: &seqExpr{
-											pos: position{line: 2863, col: 13, offset: 90594},
+											pos: position{line: 2863, col: 13, offset: 90589},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2863, col: 13, offset: 90594},
+													pos:   position{line: 2863, col: 13, offset: 90589},
 													label: "scheme",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 2863, col: 20, offset: 90601},
+														pos: position{line: 2863, col: 20, offset: 90596},
 														expr: &actionExpr{
-															pos: position{line: 2871, col: 11, offset: 90840},
+															pos: position{line: 2871, col: 11, offset: 90835},
 															run: (*parser).callonRelativeLink127,
 															expr: &choiceExpr{
-																pos: position{line: 2871, col: 12, offset: 90841},
+																pos: position{line: 2871, col: 12, offset: 90836},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 12, offset: 90841},
+																		pos:        position{line: 2871, col: 12, offset: 90836},
 																		val:        "http://",
 																		ignoreCase: false,
 																		want:       "\"http://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 24, offset: 90853},
+																		pos:        position{line: 2871, col: 24, offset: 90848},
 																		val:        "https://",
 																		ignoreCase: false,
 																		want:       "\"https://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 37, offset: 90866},
+																		pos:        position{line: 2871, col: 37, offset: 90861},
 																		val:        "ftp://",
 																		ignoreCase: false,
 																		want:       "\"ftp://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 48, offset: 90877},
+																		pos:        position{line: 2871, col: 48, offset: 90872},
 																		val:        "irc://",
 																		ignoreCase: false,
 																		want:       "\"irc://\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2871, col: 59, offset: 90888},
+																		pos:        position{line: 2871, col: 59, offset: 90883},
 																		val:        "mailto:",
 																		ignoreCase: false,
 																		want:       "\"mailto:\"",
@@ -23437,38 +23437,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2863, col: 30, offset: 90611},
+													pos:   position{line: 2863, col: 30, offset: 90606},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 5, offset: 90952},
+														pos: position{line: 2876, col: 5, offset: 90947},
 														run: (*parser).callonRelativeLink135,
 														expr: &labeledExpr{
-															pos:   position{line: 2876, col: 5, offset: 90952},
+															pos:   position{line: 2876, col: 5, offset: 90947},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2876, col: 14, offset: 90961},
+																pos: position{line: 2876, col: 14, offset: 90956},
 																expr: &choiceExpr{
-																	pos: position{line: 2877, col: 9, offset: 90971},
+																	pos: position{line: 2877, col: 9, offset: 90966},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 9, offset: 90971},
+																			pos: position{line: 2877, col: 9, offset: 90966},
 																			run: (*parser).callonRelativeLink139,
 																			expr: &seqExpr{
-																				pos: position{line: 2877, col: 9, offset: 90971},
+																				pos: position{line: 2877, col: 9, offset: 90966},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2877, col: 9, offset: 90971},
+																						pos: position{line: 2877, col: 9, offset: 90966},
 																						expr: &litMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 90972},
+																							pos:        position{line: 2877, col: 10, offset: 90967},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2878, col: 9, offset: 91000},
+																						pos: position{line: 2878, col: 9, offset: 90995},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 10, offset: 91001},
+																							pos:        position{line: 2878, col: 10, offset: 90996},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -23479,27 +23479,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2881, col: 11, offset: 91213},
+																			pos: position{line: 2881, col: 11, offset: 91208},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2881, col: 11, offset: 91213},
+																					pos:        position{line: 2881, col: 11, offset: 91208},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2881, col: 19, offset: 91221},
+																					pos: position{line: 2881, col: 19, offset: 91216},
 																					expr: &seqExpr{
-																						pos: position{line: 2881, col: 21, offset: 91223},
+																						pos: position{line: 2881, col: 21, offset: 91218},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2881, col: 21, offset: 91223},
+																								pos: position{line: 2881, col: 21, offset: 91218},
 																								expr: &actionExpr{
-																									pos: position{line: 2905, col: 10, offset: 91835},
+																									pos: position{line: 2905, col: 10, offset: 91830},
 																									run: (*parser).callonRelativeLink150,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2905, col: 10, offset: 91835},
+																										pos:        position{line: 2905, col: 10, offset: 91830},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -23508,11 +23508,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 28, offset: 91230},
+																								pos: position{line: 2881, col: 28, offset: 91225},
 																								expr: &notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -23907,10 +23907,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2884, col: 11, offset: 91350},
+																			pos: position{line: 2884, col: 11, offset: 91345},
 																			run: (*parser).callonRelativeLink232,
 																			expr: &litMatcher{
-																				pos:        position{line: 2884, col: 11, offset: 91350},
+																				pos:        position{line: 2884, col: 11, offset: 91345},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -23927,10 +23927,10 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1450, col: 28, offset: 46736},
+									pos:   position{line: 1450, col: 28, offset: 46731},
 									label: "attributes",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1450, col: 40, offset: 46748},
+										pos:  position{line: 1450, col: 40, offset: 46743},
 										name: "InlineAttributes",
 									},
 								},
@@ -23942,75 +23942,75 @@ var g = &grammar{
 		},
 		{
 			name: "ExternalLink",
-			pos:  position{line: 1454, col: 1, offset: 46864},
+			pos:  position{line: 1454, col: 1, offset: 46859},
 			expr: &choiceExpr{
-				pos: position{line: 1457, col: 5, offset: 47026},
+				pos: position{line: 1457, col: 5, offset: 47021},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1457, col: 5, offset: 47026},
+						pos: position{line: 1457, col: 5, offset: 47021},
 						run: (*parser).callonExternalLink2,
 						expr: &seqExpr{
-							pos: position{line: 1457, col: 5, offset: 47026},
+							pos: position{line: 1457, col: 5, offset: 47021},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 1457, col: 5, offset: 47026},
+									pos:        position{line: 1457, col: 5, offset: 47021},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1457, col: 9, offset: 47030},
+									pos:   position{line: 1457, col: 9, offset: 47025},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2867, col: 23, offset: 90721},
+										pos: position{line: 2867, col: 23, offset: 90716},
 										run: (*parser).callonExternalLink6,
 										expr: &seqExpr{
-											pos: position{line: 2867, col: 23, offset: 90721},
+											pos: position{line: 2867, col: 23, offset: 90716},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2867, col: 23, offset: 90721},
+													pos: position{line: 2867, col: 23, offset: 90716},
 													expr: &litMatcher{
-														pos:        position{line: 2867, col: 24, offset: 90722},
+														pos:        position{line: 2867, col: 24, offset: 90717},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2867, col: 28, offset: 90726},
+													pos:   position{line: 2867, col: 28, offset: 90721},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2871, col: 11, offset: 90840},
+														pos: position{line: 2871, col: 11, offset: 90835},
 														run: (*parser).callonExternalLink11,
 														expr: &choiceExpr{
-															pos: position{line: 2871, col: 12, offset: 90841},
+															pos: position{line: 2871, col: 12, offset: 90836},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2871, col: 12, offset: 90841},
+																	pos:        position{line: 2871, col: 12, offset: 90836},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2871, col: 24, offset: 90853},
+																	pos:        position{line: 2871, col: 24, offset: 90848},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2871, col: 37, offset: 90866},
+																	pos:        position{line: 2871, col: 37, offset: 90861},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2871, col: 48, offset: 90877},
+																	pos:        position{line: 2871, col: 48, offset: 90872},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2871, col: 59, offset: 90888},
+																	pos:        position{line: 2871, col: 59, offset: 90883},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24020,38 +24020,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2867, col: 44, offset: 90742},
+													pos:   position{line: 2867, col: 44, offset: 90737},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 5, offset: 90952},
+														pos: position{line: 2876, col: 5, offset: 90947},
 														run: (*parser).callonExternalLink19,
 														expr: &labeledExpr{
-															pos:   position{line: 2876, col: 5, offset: 90952},
+															pos:   position{line: 2876, col: 5, offset: 90947},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2876, col: 14, offset: 90961},
+																pos: position{line: 2876, col: 14, offset: 90956},
 																expr: &choiceExpr{
-																	pos: position{line: 2877, col: 9, offset: 90971},
+																	pos: position{line: 2877, col: 9, offset: 90966},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 9, offset: 90971},
+																			pos: position{line: 2877, col: 9, offset: 90966},
 																			run: (*parser).callonExternalLink23,
 																			expr: &seqExpr{
-																				pos: position{line: 2877, col: 9, offset: 90971},
+																				pos: position{line: 2877, col: 9, offset: 90966},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2877, col: 9, offset: 90971},
+																						pos: position{line: 2877, col: 9, offset: 90966},
 																						expr: &litMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 90972},
+																							pos:        position{line: 2877, col: 10, offset: 90967},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2878, col: 9, offset: 91000},
+																						pos: position{line: 2878, col: 9, offset: 90995},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 10, offset: 91001},
+																							pos:        position{line: 2878, col: 10, offset: 90996},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24062,27 +24062,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2881, col: 11, offset: 91213},
+																			pos: position{line: 2881, col: 11, offset: 91208},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2881, col: 11, offset: 91213},
+																					pos:        position{line: 2881, col: 11, offset: 91208},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2881, col: 19, offset: 91221},
+																					pos: position{line: 2881, col: 19, offset: 91216},
 																					expr: &seqExpr{
-																						pos: position{line: 2881, col: 21, offset: 91223},
+																						pos: position{line: 2881, col: 21, offset: 91218},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2881, col: 21, offset: 91223},
+																								pos: position{line: 2881, col: 21, offset: 91218},
 																								expr: &actionExpr{
-																									pos: position{line: 2905, col: 10, offset: 91835},
+																									pos: position{line: 2905, col: 10, offset: 91830},
 																									run: (*parser).callonExternalLink34,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2905, col: 10, offset: 91835},
+																										pos:        position{line: 2905, col: 10, offset: 91830},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24091,11 +24091,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 28, offset: 91230},
+																								pos: position{line: 2881, col: 28, offset: 91225},
 																								expr: &notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -24490,10 +24490,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2884, col: 11, offset: 91350},
+																			pos: position{line: 2884, col: 11, offset: 91345},
 																			run: (*parser).callonExternalLink116,
 																			expr: &litMatcher{
-																				pos:        position{line: 2884, col: 11, offset: 91350},
+																				pos:        position{line: 2884, col: 11, offset: 91345},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -24510,12 +24510,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1457, col: 34, offset: 47055},
+									pos:   position{line: 1457, col: 34, offset: 47050},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1457, col: 45, offset: 47066},
+										pos: position{line: 1457, col: 45, offset: 47061},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1457, col: 46, offset: 47067},
+											pos:  position{line: 1457, col: 46, offset: 47062},
 											name: "InlineAttributes",
 										},
 									},
@@ -24524,64 +24524,64 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1462, col: 5, offset: 47200},
+						pos: position{line: 1462, col: 5, offset: 47195},
 						run: (*parser).callonExternalLink121,
 						expr: &seqExpr{
-							pos: position{line: 1462, col: 5, offset: 47200},
+							pos: position{line: 1462, col: 5, offset: 47195},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1462, col: 5, offset: 47200},
+									pos:   position{line: 1462, col: 5, offset: 47195},
 									label: "url",
 									expr: &actionExpr{
-										pos: position{line: 2867, col: 23, offset: 90721},
+										pos: position{line: 2867, col: 23, offset: 90716},
 										run: (*parser).callonExternalLink124,
 										expr: &seqExpr{
-											pos: position{line: 2867, col: 23, offset: 90721},
+											pos: position{line: 2867, col: 23, offset: 90716},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 2867, col: 23, offset: 90721},
+													pos: position{line: 2867, col: 23, offset: 90716},
 													expr: &litMatcher{
-														pos:        position{line: 2867, col: 24, offset: 90722},
+														pos:        position{line: 2867, col: 24, offset: 90717},
 														val:        "[",
 														ignoreCase: false,
 														want:       "\"[\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2867, col: 28, offset: 90726},
+													pos:   position{line: 2867, col: 28, offset: 90721},
 													label: "scheme",
 													expr: &actionExpr{
-														pos: position{line: 2871, col: 11, offset: 90840},
+														pos: position{line: 2871, col: 11, offset: 90835},
 														run: (*parser).callonExternalLink129,
 														expr: &choiceExpr{
-															pos: position{line: 2871, col: 12, offset: 90841},
+															pos: position{line: 2871, col: 12, offset: 90836},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2871, col: 12, offset: 90841},
+																	pos:        position{line: 2871, col: 12, offset: 90836},
 																	val:        "http://",
 																	ignoreCase: false,
 																	want:       "\"http://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2871, col: 24, offset: 90853},
+																	pos:        position{line: 2871, col: 24, offset: 90848},
 																	val:        "https://",
 																	ignoreCase: false,
 																	want:       "\"https://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2871, col: 37, offset: 90866},
+																	pos:        position{line: 2871, col: 37, offset: 90861},
 																	val:        "ftp://",
 																	ignoreCase: false,
 																	want:       "\"ftp://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2871, col: 48, offset: 90877},
+																	pos:        position{line: 2871, col: 48, offset: 90872},
 																	val:        "irc://",
 																	ignoreCase: false,
 																	want:       "\"irc://\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2871, col: 59, offset: 90888},
+																	pos:        position{line: 2871, col: 59, offset: 90883},
 																	val:        "mailto:",
 																	ignoreCase: false,
 																	want:       "\"mailto:\"",
@@ -24591,38 +24591,38 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2867, col: 44, offset: 90742},
+													pos:   position{line: 2867, col: 44, offset: 90737},
 													label: "path",
 													expr: &actionExpr{
-														pos: position{line: 2876, col: 5, offset: 90952},
+														pos: position{line: 2876, col: 5, offset: 90947},
 														run: (*parser).callonExternalLink137,
 														expr: &labeledExpr{
-															pos:   position{line: 2876, col: 5, offset: 90952},
+															pos:   position{line: 2876, col: 5, offset: 90947},
 															label: "elements",
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2876, col: 14, offset: 90961},
+																pos: position{line: 2876, col: 14, offset: 90956},
 																expr: &choiceExpr{
-																	pos: position{line: 2877, col: 9, offset: 90971},
+																	pos: position{line: 2877, col: 9, offset: 90966},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2877, col: 9, offset: 90971},
+																			pos: position{line: 2877, col: 9, offset: 90966},
 																			run: (*parser).callonExternalLink141,
 																			expr: &seqExpr{
-																				pos: position{line: 2877, col: 9, offset: 90971},
+																				pos: position{line: 2877, col: 9, offset: 90966},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 2877, col: 9, offset: 90971},
+																						pos: position{line: 2877, col: 9, offset: 90966},
 																						expr: &litMatcher{
-																							pos:        position{line: 2877, col: 10, offset: 90972},
+																							pos:        position{line: 2877, col: 10, offset: 90967},
 																							val:        "[",
 																							ignoreCase: false,
 																							want:       "\"[\"",
 																						},
 																					},
 																					&oneOrMoreExpr{
-																						pos: position{line: 2878, col: 9, offset: 91000},
+																						pos: position{line: 2878, col: 9, offset: 90995},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2878, col: 10, offset: 91001},
+																							pos:        position{line: 2878, col: 10, offset: 90996},
 																							val:        "[^\\r\\n[]�{,;?!.<> ]",
 																							chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 																							ignoreCase: false,
@@ -24633,27 +24633,27 @@ var g = &grammar{
 																			},
 																		},
 																		&seqExpr{
-																			pos: position{line: 2881, col: 11, offset: 91213},
+																			pos: position{line: 2881, col: 11, offset: 91208},
 																			exprs: []interface{}{
 																				&charClassMatcher{
-																					pos:        position{line: 2881, col: 11, offset: 91213},
+																					pos:        position{line: 2881, col: 11, offset: 91208},
 																					val:        "[,;?!.]",
 																					chars:      []rune{',', ';', '?', '!', '.'},
 																					ignoreCase: false,
 																					inverted:   false,
 																				},
 																				&andExpr{
-																					pos: position{line: 2881, col: 19, offset: 91221},
+																					pos: position{line: 2881, col: 19, offset: 91216},
 																					expr: &seqExpr{
-																						pos: position{line: 2881, col: 21, offset: 91223},
+																						pos: position{line: 2881, col: 21, offset: 91218},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2881, col: 21, offset: 91223},
+																								pos: position{line: 2881, col: 21, offset: 91218},
 																								expr: &actionExpr{
-																									pos: position{line: 2905, col: 10, offset: 91835},
+																									pos: position{line: 2905, col: 10, offset: 91830},
 																									run: (*parser).callonExternalLink152,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2905, col: 10, offset: 91835},
+																										pos:        position{line: 2905, col: 10, offset: 91830},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -24662,11 +24662,11 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2881, col: 28, offset: 91230},
+																								pos: position{line: 2881, col: 28, offset: 91225},
 																								expr: &notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -25061,10 +25061,10 @@ var g = &grammar{
 																			},
 																		},
 																		&actionExpr{
-																			pos: position{line: 2884, col: 11, offset: 91350},
+																			pos: position{line: 2884, col: 11, offset: 91345},
 																			run: (*parser).callonExternalLink234,
 																			expr: &litMatcher{
-																				pos:        position{line: 2884, col: 11, offset: 91350},
+																				pos:        position{line: 2884, col: 11, offset: 91345},
 																				val:        "{",
 																				ignoreCase: false,
 																				want:       "\"{\"",
@@ -25081,12 +25081,12 @@ var g = &grammar{
 									},
 								},
 								&labeledExpr{
-									pos:   position{line: 1462, col: 30, offset: 47225},
+									pos:   position{line: 1462, col: 30, offset: 47220},
 									label: "attributes",
 									expr: &zeroOrOneExpr{
-										pos: position{line: 1462, col: 41, offset: 47236},
+										pos: position{line: 1462, col: 41, offset: 47231},
 										expr: &ruleRefExpr{
-											pos:  position{line: 1462, col: 42, offset: 47237},
+											pos:  position{line: 1462, col: 42, offset: 47232},
 											name: "InlineAttributes",
 										},
 									},
@@ -25099,41 +25099,41 @@ var g = &grammar{
 		},
 		{
 			name: "ListElements",
-			pos:  position{line: 1496, col: 1, offset: 48378},
+			pos:  position{line: 1496, col: 1, offset: 48373},
 			expr: &actionExpr{
-				pos: position{line: 1497, col: 5, offset: 48399},
+				pos: position{line: 1497, col: 5, offset: 48394},
 				run: (*parser).callonListElements1,
 				expr: &seqExpr{
-					pos: position{line: 1497, col: 5, offset: 48399},
+					pos: position{line: 1497, col: 5, offset: 48394},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1497, col: 5, offset: 48399},
+							pos:   position{line: 1497, col: 5, offset: 48394},
 							label: "firstElement",
 							expr: &choiceExpr{
-								pos: position{line: 1503, col: 5, offset: 48601},
+								pos: position{line: 1503, col: 5, offset: 48596},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1596, col: 5, offset: 51535},
+										pos: position{line: 1596, col: 5, offset: 51530},
 										run: (*parser).callonListElements5,
 										expr: &seqExpr{
-											pos: position{line: 1596, col: 5, offset: 51535},
+											pos: position{line: 1596, col: 5, offset: 51530},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1596, col: 5, offset: 51535},
+													pos:   position{line: 1596, col: 5, offset: 51530},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1603, col: 5, offset: 51743},
+														pos: position{line: 1603, col: 5, offset: 51738},
 														run: (*parser).callonListElements8,
 														expr: &seqExpr{
-															pos: position{line: 1603, col: 5, offset: 51743},
+															pos: position{line: 1603, col: 5, offset: 51738},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1603, col: 5, offset: 51743},
+																	pos: position{line: 1603, col: 5, offset: 51738},
 																	expr: &actionExpr{
-																		pos: position{line: 2905, col: 10, offset: 91835},
+																		pos: position{line: 2905, col: 10, offset: 91830},
 																		run: (*parser).callonListElements11,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 91835},
+																			pos:        position{line: 2905, col: 10, offset: 91830},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25142,27 +25142,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1603, col: 12, offset: 51750},
+																	pos:   position{line: 1603, col: 12, offset: 51745},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1605, col: 9, offset: 51813},
+																		pos: position{line: 1605, col: 9, offset: 51808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1605, col: 9, offset: 51813},
+																				pos: position{line: 1605, col: 9, offset: 51808},
 																				run: (*parser).callonListElements15,
 																				expr: &seqExpr{
-																					pos: position{line: 1605, col: 9, offset: 51813},
+																					pos: position{line: 1605, col: 9, offset: 51808},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1605, col: 9, offset: 51813},
+																							pos:   position{line: 1605, col: 9, offset: 51808},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1605, col: 16, offset: 51820},
+																								pos: position{line: 1605, col: 16, offset: 51815},
 																								run: (*parser).callonListElements18,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1605, col: 16, offset: 51820},
+																									pos: position{line: 1605, col: 16, offset: 51815},
 																									expr: &litMatcher{
-																										pos:        position{line: 1605, col: 17, offset: 51821},
+																										pos:        position{line: 1605, col: 17, offset: 51816},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -25171,22 +25171,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1609, col: 9, offset: 51921},
+																							pos: position{line: 1609, col: 9, offset: 51916},
 																							run: (*parser).callonListElements21,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1628, col: 11, offset: 52638},
+																				pos: position{line: 1628, col: 11, offset: 52633},
 																				run: (*parser).callonListElements22,
 																				expr: &seqExpr{
-																					pos: position{line: 1628, col: 11, offset: 52638},
+																					pos: position{line: 1628, col: 11, offset: 52633},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1628, col: 11, offset: 52638},
+																							pos: position{line: 1628, col: 11, offset: 52633},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1628, col: 12, offset: 52639},
+																								pos:        position{line: 1628, col: 12, offset: 52634},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -25194,7 +25194,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1628, col: 20, offset: 52647},
+																							pos:        position{line: 1628, col: 20, offset: 52642},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25203,20 +25203,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1630, col: 13, offset: 52764},
+																				pos: position{line: 1630, col: 13, offset: 52759},
 																				run: (*parser).callonListElements27,
 																				expr: &seqExpr{
-																					pos: position{line: 1630, col: 13, offset: 52764},
+																					pos: position{line: 1630, col: 13, offset: 52759},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1630, col: 14, offset: 52765},
+																							pos:        position{line: 1630, col: 14, offset: 52760},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1630, col: 21, offset: 52772},
+																							pos:        position{line: 1630, col: 21, offset: 52767},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25225,20 +25225,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1632, col: 13, offset: 52892},
+																				pos: position{line: 1632, col: 13, offset: 52887},
 																				run: (*parser).callonListElements31,
 																				expr: &seqExpr{
-																					pos: position{line: 1632, col: 13, offset: 52892},
+																					pos: position{line: 1632, col: 13, offset: 52887},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1632, col: 14, offset: 52893},
+																							pos:        position{line: 1632, col: 14, offset: 52888},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1632, col: 21, offset: 52900},
+																							pos:        position{line: 1632, col: 21, offset: 52895},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -25247,15 +25247,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1634, col: 13, offset: 53020},
+																				pos: position{line: 1634, col: 13, offset: 53015},
 																				run: (*parser).callonListElements35,
 																				expr: &seqExpr{
-																					pos: position{line: 1634, col: 13, offset: 53020},
+																					pos: position{line: 1634, col: 13, offset: 53015},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1634, col: 13, offset: 53020},
+																							pos: position{line: 1634, col: 13, offset: 53015},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1634, col: 14, offset: 53021},
+																								pos:        position{line: 1634, col: 14, offset: 53016},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -25263,7 +25263,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1634, col: 26, offset: 53033},
+																							pos:        position{line: 1634, col: 26, offset: 53028},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25272,15 +25272,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1636, col: 13, offset: 53153},
+																				pos: position{line: 1636, col: 13, offset: 53148},
 																				run: (*parser).callonListElements40,
 																				expr: &seqExpr{
-																					pos: position{line: 1636, col: 13, offset: 53153},
+																					pos: position{line: 1636, col: 13, offset: 53148},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1636, col: 13, offset: 53153},
+																							pos: position{line: 1636, col: 13, offset: 53148},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1636, col: 14, offset: 53154},
+																								pos:        position{line: 1636, col: 14, offset: 53149},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -25288,7 +25288,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1636, col: 26, offset: 53166},
+																							pos:        position{line: 1636, col: 26, offset: 53161},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -25300,12 +25300,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2909, col: 11, offset: 91896},
+																	pos: position{line: 2909, col: 11, offset: 91891},
 																	run: (*parser).callonListElements45,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2909, col: 11, offset: 91896},
+																		pos: position{line: 2909, col: 11, offset: 91891},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 11, offset: 91896},
+																			pos:        position{line: 2909, col: 11, offset: 91891},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25318,26 +25318,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1597, col: 5, offset: 51574},
+													pos:   position{line: 1597, col: 5, offset: 51569},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1544, col: 5, offset: 50041},
+														pos: position{line: 1544, col: 5, offset: 50036},
 														run: (*parser).callonListElements49,
 														expr: &seqExpr{
-															pos: position{line: 1544, col: 5, offset: 50041},
+															pos: position{line: 1544, col: 5, offset: 50036},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1544, col: 5, offset: 50041},
+																	pos:   position{line: 1544, col: 5, offset: 50036},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1544, col: 14, offset: 50050},
+																		pos: position{line: 1544, col: 14, offset: 50045},
 																		expr: &actionExpr{
-																			pos: position{line: 1544, col: 15, offset: 50051},
+																			pos: position{line: 1544, col: 15, offset: 50046},
 																			run: (*parser).callonListElements53,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1544, col: 15, offset: 50051},
+																				pos: position{line: 1544, col: 15, offset: 50046},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1544, col: 15, offset: 50051},
+																					pos:        position{line: 1544, col: 15, offset: 50046},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25348,28 +25348,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonListElements57,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25378,9 +25378,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -25393,27 +25393,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1646, col: 5, offset: 53432},
+										pos: position{line: 1646, col: 5, offset: 53427},
 										run: (*parser).callonListElements64,
 										expr: &seqExpr{
-											pos: position{line: 1646, col: 5, offset: 53432},
+											pos: position{line: 1646, col: 5, offset: 53427},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1646, col: 5, offset: 53432},
+													pos:   position{line: 1646, col: 5, offset: 53427},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1653, col: 5, offset: 53705},
+														pos: position{line: 1653, col: 5, offset: 53700},
 														run: (*parser).callonListElements67,
 														expr: &seqExpr{
-															pos: position{line: 1653, col: 5, offset: 53705},
+															pos: position{line: 1653, col: 5, offset: 53700},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1653, col: 5, offset: 53705},
+																	pos: position{line: 1653, col: 5, offset: 53700},
 																	expr: &actionExpr{
-																		pos: position{line: 2905, col: 10, offset: 91835},
+																		pos: position{line: 2905, col: 10, offset: 91830},
 																		run: (*parser).callonListElements70,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 91835},
+																			pos:        position{line: 2905, col: 10, offset: 91830},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25422,24 +25422,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1654, col: 5, offset: 53717},
+																	pos:   position{line: 1654, col: 5, offset: 53712},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1655, col: 9, offset: 53733},
+																		pos: position{line: 1655, col: 9, offset: 53728},
 																		run: (*parser).callonListElements73,
 																		expr: &choiceExpr{
-																			pos: position{line: 1655, col: 10, offset: 53734},
+																			pos: position{line: 1655, col: 10, offset: 53729},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1655, col: 11, offset: 53735},
+																					pos:        position{line: 1655, col: 11, offset: 53730},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1655, col: 18, offset: 53742},
+																					pos: position{line: 1655, col: 18, offset: 53737},
 																					expr: &litMatcher{
-																						pos:        position{line: 1655, col: 19, offset: 53743},
+																						pos:        position{line: 1655, col: 19, offset: 53738},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -25450,16 +25450,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1658, col: 7, offset: 53833},
+																	pos: position{line: 1658, col: 7, offset: 53828},
 																	run: (*parser).callonListElements78,
 																},
 																&actionExpr{
-																	pos: position{line: 2909, col: 11, offset: 91896},
+																	pos: position{line: 2909, col: 11, offset: 91891},
 																	run: (*parser).callonListElements79,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2909, col: 11, offset: 91896},
+																		pos: position{line: 2909, col: 11, offset: 91891},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 11, offset: 91896},
+																			pos:        position{line: 2909, col: 11, offset: 91891},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25472,56 +25472,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1647, col: 5, offset: 53473},
+													pos:   position{line: 1647, col: 5, offset: 53468},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1647, col: 16, offset: 53484},
+														pos: position{line: 1647, col: 16, offset: 53479},
 														expr: &actionExpr{
-															pos: position{line: 1668, col: 5, offset: 54098},
+															pos: position{line: 1668, col: 5, offset: 54093},
 															run: (*parser).callonListElements84,
 															expr: &seqExpr{
-																pos: position{line: 1668, col: 5, offset: 54098},
+																pos: position{line: 1668, col: 5, offset: 54093},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1668, col: 5, offset: 54098},
+																		pos: position{line: 1668, col: 5, offset: 54093},
 																		expr: &litMatcher{
-																			pos:        position{line: 1668, col: 6, offset: 54099},
+																			pos:        position{line: 1668, col: 6, offset: 54094},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1668, col: 10, offset: 54103},
+																		pos:   position{line: 1668, col: 10, offset: 54098},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1669, col: 7, offset: 54117},
+																			pos: position{line: 1669, col: 7, offset: 54112},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1669, col: 7, offset: 54117},
+																					pos: position{line: 1669, col: 7, offset: 54112},
 																					run: (*parser).callonListElements90,
 																					expr: &litMatcher{
-																						pos:        position{line: 1669, col: 7, offset: 54117},
+																						pos:        position{line: 1669, col: 7, offset: 54112},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1670, col: 7, offset: 54162},
+																					pos: position{line: 1670, col: 7, offset: 54157},
 																					run: (*parser).callonListElements92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1670, col: 7, offset: 54162},
+																						pos:        position{line: 1670, col: 7, offset: 54157},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1671, col: 7, offset: 54205},
+																					pos: position{line: 1671, col: 7, offset: 54200},
 																					run: (*parser).callonListElements94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1671, col: 7, offset: 54205},
+																						pos:        position{line: 1671, col: 7, offset: 54200},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -25531,12 +25531,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2909, col: 11, offset: 91896},
+																		pos: position{line: 2909, col: 11, offset: 91891},
 																		run: (*parser).callonListElements96,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2909, col: 11, offset: 91896},
+																			pos: position{line: 2909, col: 11, offset: 91891},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2909, col: 11, offset: 91896},
+																				pos:        position{line: 2909, col: 11, offset: 91891},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -25550,26 +25550,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1648, col: 5, offset: 53523},
+													pos:   position{line: 1648, col: 5, offset: 53518},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1544, col: 5, offset: 50041},
+														pos: position{line: 1544, col: 5, offset: 50036},
 														run: (*parser).callonListElements100,
 														expr: &seqExpr{
-															pos: position{line: 1544, col: 5, offset: 50041},
+															pos: position{line: 1544, col: 5, offset: 50036},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1544, col: 5, offset: 50041},
+																	pos:   position{line: 1544, col: 5, offset: 50036},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1544, col: 14, offset: 50050},
+																		pos: position{line: 1544, col: 14, offset: 50045},
 																		expr: &actionExpr{
-																			pos: position{line: 1544, col: 15, offset: 50051},
+																			pos: position{line: 1544, col: 15, offset: 50046},
 																			run: (*parser).callonListElements104,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1544, col: 15, offset: 50051},
+																				pos: position{line: 1544, col: 15, offset: 50046},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1544, col: 15, offset: 50051},
+																					pos:        position{line: 1544, col: 15, offset: 50046},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25580,28 +25580,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonListElements108,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25610,9 +25610,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -25625,36 +25625,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1737, col: 5, offset: 56077},
+										pos: position{line: 1737, col: 5, offset: 56072},
 										run: (*parser).callonListElements115,
 										expr: &seqExpr{
-											pos: position{line: 1737, col: 5, offset: 56077},
+											pos: position{line: 1737, col: 5, offset: 56072},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1737, col: 5, offset: 56077},
+													pos:   position{line: 1737, col: 5, offset: 56072},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1743, col: 5, offset: 56274},
+														pos: position{line: 1743, col: 5, offset: 56269},
 														run: (*parser).callonListElements118,
 														expr: &seqExpr{
-															pos: position{line: 1743, col: 5, offset: 56274},
+															pos: position{line: 1743, col: 5, offset: 56269},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1743, col: 5, offset: 56274},
+																	pos:        position{line: 1743, col: 5, offset: 56269},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1743, col: 9, offset: 56278},
+																	pos:   position{line: 1743, col: 9, offset: 56273},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1743, col: 14, offset: 56283},
+																		pos: position{line: 1743, col: 14, offset: 56278},
 																		run: (*parser).callonListElements122,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1743, col: 14, offset: 56283},
+																			pos: position{line: 1743, col: 14, offset: 56278},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1743, col: 14, offset: 56283},
+																				pos:        position{line: 1743, col: 14, offset: 56278},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -25664,18 +25664,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1743, col: 62, offset: 56331},
+																	pos:        position{line: 1743, col: 62, offset: 56326},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2909, col: 11, offset: 91896},
+																	pos: position{line: 2909, col: 11, offset: 91891},
 																	run: (*parser).callonListElements126,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2909, col: 11, offset: 91896},
+																		pos: position{line: 2909, col: 11, offset: 91891},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 11, offset: 91896},
+																			pos:        position{line: 2909, col: 11, offset: 91891},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -25688,26 +25688,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1738, col: 5, offset: 56113},
+													pos:   position{line: 1738, col: 5, offset: 56108},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1544, col: 5, offset: 50041},
+														pos: position{line: 1544, col: 5, offset: 50036},
 														run: (*parser).callonListElements130,
 														expr: &seqExpr{
-															pos: position{line: 1544, col: 5, offset: 50041},
+															pos: position{line: 1544, col: 5, offset: 50036},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1544, col: 5, offset: 50041},
+																	pos:   position{line: 1544, col: 5, offset: 50036},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1544, col: 14, offset: 50050},
+																		pos: position{line: 1544, col: 14, offset: 50045},
 																		expr: &actionExpr{
-																			pos: position{line: 1544, col: 15, offset: 50051},
+																			pos: position{line: 1544, col: 15, offset: 50046},
 																			run: (*parser).callonListElements134,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1544, col: 15, offset: 50051},
+																				pos: position{line: 1544, col: 15, offset: 50046},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1544, col: 15, offset: 50051},
+																					pos:        position{line: 1544, col: 15, offset: 50046},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -25718,28 +25718,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonListElements138,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -25748,9 +25748,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -25763,35 +25763,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1680, col: 5, offset: 54398},
+										pos: position{line: 1680, col: 5, offset: 54393},
 										run: (*parser).callonListElements145,
 										expr: &seqExpr{
-											pos: position{line: 1680, col: 5, offset: 54398},
+											pos: position{line: 1680, col: 5, offset: 54393},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1680, col: 5, offset: 54398},
+													pos:   position{line: 1680, col: 5, offset: 54393},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1688, col: 5, offset: 54724},
+														pos: position{line: 1688, col: 5, offset: 54719},
 														run: (*parser).callonListElements148,
 														expr: &seqExpr{
-															pos: position{line: 1688, col: 5, offset: 54724},
+															pos: position{line: 1688, col: 5, offset: 54719},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1688, col: 5, offset: 54724},
+																	pos: position{line: 1688, col: 5, offset: 54719},
 																	expr: &seqExpr{
-																		pos: position{line: 2502, col: 31, offset: 80590},
+																		pos: position{line: 2502, col: 31, offset: 80585},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2502, col: 31, offset: 80590},
+																				pos:        position{line: 2502, col: 31, offset: 80585},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2502, col: 36, offset: 80595},
+																				pos: position{line: 2502, col: 36, offset: 80590},
 																				expr: &litMatcher{
-																					pos:        position{line: 2502, col: 37, offset: 80596},
+																					pos:        position{line: 2502, col: 37, offset: 80591},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -25801,28 +25801,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1689, col: 5, offset: 54756},
+																	pos: position{line: 1689, col: 5, offset: 54751},
 																	expr: &seqExpr{
-																		pos: position{line: 1689, col: 6, offset: 54757},
+																		pos: position{line: 1689, col: 6, offset: 54752},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1689, col: 6, offset: 54757},
+																				pos: position{line: 1689, col: 6, offset: 54752},
 																				expr: &actionExpr{
-																					pos: position{line: 1694, col: 5, offset: 54907},
+																					pos: position{line: 1694, col: 5, offset: 54902},
 																					run: (*parser).callonListElements158,
 																					expr: &seqExpr{
-																						pos: position{line: 1694, col: 5, offset: 54907},
+																						pos: position{line: 1694, col: 5, offset: 54902},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1694, col: 5, offset: 54907},
+																								pos:   position{line: 1694, col: 5, offset: 54902},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1694, col: 16, offset: 54918},
+																									pos: position{line: 1694, col: 16, offset: 54913},
 																									run: (*parser).callonListElements161,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1694, col: 16, offset: 54918},
+																										pos: position{line: 1694, col: 16, offset: 54913},
 																										expr: &litMatcher{
-																											pos:        position{line: 1694, col: 17, offset: 54919},
+																											pos:        position{line: 1694, col: 17, offset: 54914},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -25831,7 +25831,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1697, col: 5, offset: 54976},
+																								pos: position{line: 1697, col: 5, offset: 54971},
 																								run: (*parser).callonListElements164,
 																							},
 																						},
@@ -25839,30 +25839,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1689, col: 35, offset: 54786},
+																				pos: position{line: 1689, col: 35, offset: 54781},
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 8, offset: 92233},
+																					pos: position{line: 2927, col: 8, offset: 92228},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2914, col: 12, offset: 92006},
+																							pos: position{line: 2914, col: 12, offset: 92001},
 																							run: (*parser).callonListElements167,
 																							expr: &choiceExpr{
-																								pos: position{line: 2914, col: 13, offset: 92007},
+																								pos: position{line: 2914, col: 13, offset: 92002},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 13, offset: 92007},
+																										pos:        position{line: 2914, col: 13, offset: 92002},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 20, offset: 92014},
+																										pos:        position{line: 2914, col: 20, offset: 92009},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 29, offset: 92023},
+																										pos:        position{line: 2914, col: 29, offset: 92018},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -25871,16 +25871,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2924, col: 8, offset: 92183},
+																							pos: position{line: 2924, col: 8, offset: 92178},
 																							expr: &anyMatcher{
-																								line: 2924, col: 9, offset: 92184,
+																								line: 2924, col: 9, offset: 92179,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1689, col: 40, offset: 54791,
+																				line: 1689, col: 40, offset: 54786,
 																			},
 																		},
 																	},
@@ -25890,24 +25890,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1681, col: 5, offset: 54433},
+													pos:   position{line: 1681, col: 5, offset: 54428},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1694, col: 5, offset: 54907},
+														pos: position{line: 1694, col: 5, offset: 54902},
 														run: (*parser).callonListElements176,
 														expr: &seqExpr{
-															pos: position{line: 1694, col: 5, offset: 54907},
+															pos: position{line: 1694, col: 5, offset: 54902},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1694, col: 5, offset: 54907},
+																	pos:   position{line: 1694, col: 5, offset: 54902},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1694, col: 16, offset: 54918},
+																		pos: position{line: 1694, col: 16, offset: 54913},
 																		run: (*parser).callonListElements179,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1694, col: 16, offset: 54918},
+																			pos: position{line: 1694, col: 16, offset: 54913},
 																			expr: &litMatcher{
-																				pos:        position{line: 1694, col: 17, offset: 54919},
+																				pos:        position{line: 1694, col: 17, offset: 54914},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -25916,7 +25916,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1697, col: 5, offset: 54976},
+																	pos: position{line: 1697, col: 5, offset: 54971},
 																	run: (*parser).callonListElements182,
 																},
 															},
@@ -25924,24 +25924,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1682, col: 5, offset: 54478},
+													pos:   position{line: 1682, col: 5, offset: 54473},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1705, col: 5, offset: 55225},
+														pos: position{line: 1705, col: 5, offset: 55220},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1707, col: 9, offset: 55291},
+																pos: position{line: 1707, col: 9, offset: 55286},
 																run: (*parser).callonListElements185,
 																expr: &seqExpr{
-																	pos: position{line: 1707, col: 9, offset: 55291},
+																	pos: position{line: 1707, col: 9, offset: 55286},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1707, col: 9, offset: 55291},
+																			pos: position{line: 1707, col: 9, offset: 55286},
 																			expr: &actionExpr{
-																				pos: position{line: 2905, col: 10, offset: 91835},
+																				pos: position{line: 2905, col: 10, offset: 91830},
 																				run: (*parser).callonListElements188,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2905, col: 10, offset: 91835},
+																					pos:        position{line: 2905, col: 10, offset: 91830},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -25950,28 +25950,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2927, col: 8, offset: 92233},
+																			pos: position{line: 2927, col: 8, offset: 92228},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2914, col: 12, offset: 92006},
+																					pos: position{line: 2914, col: 12, offset: 92001},
 																					run: (*parser).callonListElements191,
 																					expr: &choiceExpr{
-																						pos: position{line: 2914, col: 13, offset: 92007},
+																						pos: position{line: 2914, col: 13, offset: 92002},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 13, offset: 92007},
+																								pos:        position{line: 2914, col: 13, offset: 92002},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 20, offset: 92014},
+																								pos:        position{line: 2914, col: 20, offset: 92009},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 29, offset: 92023},
+																								pos:        position{line: 2914, col: 29, offset: 92018},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -25980,15 +25980,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1708, col: 9, offset: 55310},
+																			pos: position{line: 1708, col: 9, offset: 55305},
 																			expr: &actionExpr{
 																				pos: position{line: 687, col: 14, offset: 21867},
 																				run: (*parser).callonListElements199,
@@ -25996,18 +25996,18 @@ var g = &grammar{
 																					pos: position{line: 687, col: 14, offset: 21867},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2922, col: 11, offset: 92169},
+																							pos: position{line: 2922, col: 11, offset: 92164},
 																							expr: &anyMatcher{
-																								line: 2922, col: 13, offset: 92171,
+																								line: 2922, col: 13, offset: 92166,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 687, col: 21, offset: 21874},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonListElements204,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26016,28 +26016,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonListElements207,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26046,9 +26046,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -26061,18 +26061,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1714, col: 9, offset: 55439},
+																pos: position{line: 1714, col: 9, offset: 55434},
 																run: (*parser).callonListElements214,
 																expr: &seqExpr{
-																	pos: position{line: 1714, col: 9, offset: 55439},
+																	pos: position{line: 1714, col: 9, offset: 55434},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 11, offset: 91896},
+																			pos: position{line: 2909, col: 11, offset: 91891},
 																			run: (*parser).callonListElements216,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2909, col: 11, offset: 91896},
+																				pos: position{line: 2909, col: 11, offset: 91891},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 11, offset: 91896},
+																					pos:        position{line: 2909, col: 11, offset: 91891},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -26081,15 +26081,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1715, col: 9, offset: 55512},
+																			pos:   position{line: 1715, col: 9, offset: 55507},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1715, col: 18, offset: 55521},
+																				pos: position{line: 1715, col: 18, offset: 55516},
 																				run: (*parser).callonListElements220,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1715, col: 18, offset: 55521},
+																					pos: position{line: 1715, col: 18, offset: 55516},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1715, col: 18, offset: 55521},
+																						pos:        position{line: 1715, col: 18, offset: 55516},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -26099,28 +26099,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2927, col: 8, offset: 92233},
+																			pos: position{line: 2927, col: 8, offset: 92228},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2914, col: 12, offset: 92006},
+																					pos: position{line: 2914, col: 12, offset: 92001},
 																					run: (*parser).callonListElements224,
 																					expr: &choiceExpr{
-																						pos: position{line: 2914, col: 13, offset: 92007},
+																						pos: position{line: 2914, col: 13, offset: 92002},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 13, offset: 92007},
+																								pos:        position{line: 2914, col: 13, offset: 92002},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 20, offset: 92014},
+																								pos:        position{line: 2914, col: 20, offset: 92009},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 29, offset: 92023},
+																								pos:        position{line: 2914, col: 29, offset: 92018},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -26129,9 +26129,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -26149,10 +26149,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1498, col: 5, offset: 48430},
+							pos:   position{line: 1498, col: 5, offset: 48425},
 							label: "extraElements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1498, col: 20, offset: 48445},
+								pos:  position{line: 1498, col: 20, offset: 48440},
 								name: "ExtraListElements",
 							},
 						},
@@ -26162,17 +26162,17 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElements",
-			pos:  position{line: 1508, col: 1, offset: 48700},
+			pos:  position{line: 1508, col: 1, offset: 48695},
 			expr: &actionExpr{
-				pos: position{line: 1508, col: 22, offset: 48721},
+				pos: position{line: 1508, col: 22, offset: 48716},
 				run: (*parser).callonExtraListElements1,
 				expr: &labeledExpr{
-					pos:   position{line: 1508, col: 22, offset: 48721},
+					pos:   position{line: 1508, col: 22, offset: 48716},
 					label: "elements",
 					expr: &zeroOrMoreExpr{
-						pos: position{line: 1508, col: 31, offset: 48730},
+						pos: position{line: 1508, col: 31, offset: 48725},
 						expr: &ruleRefExpr{
-							pos:  position{line: 1508, col: 32, offset: 48731},
+							pos:  position{line: 1508, col: 32, offset: 48726},
 							name: "ExtraListElement",
 						},
 					},
@@ -26181,33 +26181,33 @@ var g = &grammar{
 		},
 		{
 			name: "ExtraListElement",
-			pos:  position{line: 1512, col: 1, offset: 48811},
+			pos:  position{line: 1512, col: 1, offset: 48806},
 			expr: &actionExpr{
-				pos: position{line: 1513, col: 5, offset: 48950},
+				pos: position{line: 1513, col: 5, offset: 48945},
 				run: (*parser).callonExtraListElement1,
 				expr: &seqExpr{
-					pos: position{line: 1513, col: 5, offset: 48950},
+					pos: position{line: 1513, col: 5, offset: 48945},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2922, col: 11, offset: 92169},
+							pos: position{line: 2922, col: 11, offset: 92164},
 							expr: &anyMatcher{
-								line: 2922, col: 13, offset: 92171,
+								line: 2922, col: 13, offset: 92166,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1514, col: 5, offset: 48962},
+							pos:   position{line: 1514, col: 5, offset: 48957},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1515, col: 9, offset: 48980},
+								pos: position{line: 1515, col: 9, offset: 48975},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1515, col: 13, offset: 48984},
+										pos: position{line: 1515, col: 13, offset: 48979},
 										run: (*parser).callonExtraListElement7,
 										expr: &seqExpr{
-											pos: position{line: 1515, col: 13, offset: 48984},
+											pos: position{line: 1515, col: 13, offset: 48979},
 											exprs: []interface{}{
 												&zeroOrMoreExpr{
-													pos: position{line: 1515, col: 13, offset: 48984},
+													pos: position{line: 1515, col: 13, offset: 48979},
 													expr: &actionExpr{
 														pos: position{line: 687, col: 14, offset: 21867},
 														run: (*parser).callonExtraListElement10,
@@ -26215,18 +26215,18 @@ var g = &grammar{
 															pos: position{line: 687, col: 14, offset: 21867},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2922, col: 11, offset: 92169},
+																	pos: position{line: 2922, col: 11, offset: 92164},
 																	expr: &anyMatcher{
-																		line: 2922, col: 13, offset: 92171,
+																		line: 2922, col: 13, offset: 92166,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 687, col: 21, offset: 21874},
 																	expr: &actionExpr{
-																		pos: position{line: 2905, col: 10, offset: 91835},
+																		pos: position{line: 2905, col: 10, offset: 91830},
 																		run: (*parser).callonExtraListElement15,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 91835},
+																			pos:        position{line: 2905, col: 10, offset: 91830},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -26235,28 +26235,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonExtraListElement18,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -26265,9 +26265,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -26277,33 +26277,33 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1516, col: 13, offset: 49008},
+													pos:   position{line: 1516, col: 13, offset: 49003},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1516, col: 22, offset: 49017},
+														pos: position{line: 1516, col: 22, offset: 49012},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1596, col: 5, offset: 51535},
+																pos: position{line: 1596, col: 5, offset: 51530},
 																run: (*parser).callonExtraListElement27,
 																expr: &seqExpr{
-																	pos: position{line: 1596, col: 5, offset: 51535},
+																	pos: position{line: 1596, col: 5, offset: 51530},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1596, col: 5, offset: 51535},
+																			pos:   position{line: 1596, col: 5, offset: 51530},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1603, col: 5, offset: 51743},
+																				pos: position{line: 1603, col: 5, offset: 51738},
 																				run: (*parser).callonExtraListElement30,
 																				expr: &seqExpr{
-																					pos: position{line: 1603, col: 5, offset: 51743},
+																					pos: position{line: 1603, col: 5, offset: 51738},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1603, col: 5, offset: 51743},
+																							pos: position{line: 1603, col: 5, offset: 51738},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonExtraListElement33,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26312,27 +26312,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1603, col: 12, offset: 51750},
+																							pos:   position{line: 1603, col: 12, offset: 51745},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1605, col: 9, offset: 51813},
+																								pos: position{line: 1605, col: 9, offset: 51808},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1605, col: 9, offset: 51813},
+																										pos: position{line: 1605, col: 9, offset: 51808},
 																										run: (*parser).callonExtraListElement37,
 																										expr: &seqExpr{
-																											pos: position{line: 1605, col: 9, offset: 51813},
+																											pos: position{line: 1605, col: 9, offset: 51808},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1605, col: 9, offset: 51813},
+																													pos:   position{line: 1605, col: 9, offset: 51808},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1605, col: 16, offset: 51820},
+																														pos: position{line: 1605, col: 16, offset: 51815},
 																														run: (*parser).callonExtraListElement40,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1605, col: 16, offset: 51820},
+																															pos: position{line: 1605, col: 16, offset: 51815},
 																															expr: &litMatcher{
-																																pos:        position{line: 1605, col: 17, offset: 51821},
+																																pos:        position{line: 1605, col: 17, offset: 51816},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -26341,22 +26341,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1609, col: 9, offset: 51921},
+																													pos: position{line: 1609, col: 9, offset: 51916},
 																													run: (*parser).callonExtraListElement43,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1628, col: 11, offset: 52638},
+																										pos: position{line: 1628, col: 11, offset: 52633},
 																										run: (*parser).callonExtraListElement44,
 																										expr: &seqExpr{
-																											pos: position{line: 1628, col: 11, offset: 52638},
+																											pos: position{line: 1628, col: 11, offset: 52633},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1628, col: 11, offset: 52638},
+																													pos: position{line: 1628, col: 11, offset: 52633},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1628, col: 12, offset: 52639},
+																														pos:        position{line: 1628, col: 12, offset: 52634},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -26364,7 +26364,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1628, col: 20, offset: 52647},
+																													pos:        position{line: 1628, col: 20, offset: 52642},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26373,20 +26373,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1630, col: 13, offset: 52764},
+																										pos: position{line: 1630, col: 13, offset: 52759},
 																										run: (*parser).callonExtraListElement49,
 																										expr: &seqExpr{
-																											pos: position{line: 1630, col: 13, offset: 52764},
+																											pos: position{line: 1630, col: 13, offset: 52759},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1630, col: 14, offset: 52765},
+																													pos:        position{line: 1630, col: 14, offset: 52760},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1630, col: 21, offset: 52772},
+																													pos:        position{line: 1630, col: 21, offset: 52767},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26395,20 +26395,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1632, col: 13, offset: 52892},
+																										pos: position{line: 1632, col: 13, offset: 52887},
 																										run: (*parser).callonExtraListElement53,
 																										expr: &seqExpr{
-																											pos: position{line: 1632, col: 13, offset: 52892},
+																											pos: position{line: 1632, col: 13, offset: 52887},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1632, col: 14, offset: 52893},
+																													pos:        position{line: 1632, col: 14, offset: 52888},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1632, col: 21, offset: 52900},
+																													pos:        position{line: 1632, col: 21, offset: 52895},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -26417,15 +26417,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1634, col: 13, offset: 53020},
+																										pos: position{line: 1634, col: 13, offset: 53015},
 																										run: (*parser).callonExtraListElement57,
 																										expr: &seqExpr{
-																											pos: position{line: 1634, col: 13, offset: 53020},
+																											pos: position{line: 1634, col: 13, offset: 53015},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1634, col: 13, offset: 53020},
+																													pos: position{line: 1634, col: 13, offset: 53015},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1634, col: 14, offset: 53021},
+																														pos:        position{line: 1634, col: 14, offset: 53016},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -26433,7 +26433,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1634, col: 26, offset: 53033},
+																													pos:        position{line: 1634, col: 26, offset: 53028},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26442,15 +26442,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1636, col: 13, offset: 53153},
+																										pos: position{line: 1636, col: 13, offset: 53148},
 																										run: (*parser).callonExtraListElement62,
 																										expr: &seqExpr{
-																											pos: position{line: 1636, col: 13, offset: 53153},
+																											pos: position{line: 1636, col: 13, offset: 53148},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1636, col: 13, offset: 53153},
+																													pos: position{line: 1636, col: 13, offset: 53148},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1636, col: 14, offset: 53154},
+																														pos:        position{line: 1636, col: 14, offset: 53149},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -26458,7 +26458,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1636, col: 26, offset: 53166},
+																													pos:        position{line: 1636, col: 26, offset: 53161},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -26470,12 +26470,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2909, col: 11, offset: 91896},
+																							pos: position{line: 2909, col: 11, offset: 91891},
 																							run: (*parser).callonExtraListElement67,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2909, col: 11, offset: 91896},
+																								pos: position{line: 2909, col: 11, offset: 91891},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 11, offset: 91896},
+																									pos:        position{line: 2909, col: 11, offset: 91891},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26488,26 +26488,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1597, col: 5, offset: 51574},
+																			pos:   position{line: 1597, col: 5, offset: 51569},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1544, col: 5, offset: 50041},
+																				pos: position{line: 1544, col: 5, offset: 50036},
 																				run: (*parser).callonExtraListElement71,
 																				expr: &seqExpr{
-																					pos: position{line: 1544, col: 5, offset: 50041},
+																					pos: position{line: 1544, col: 5, offset: 50036},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1544, col: 5, offset: 50041},
+																							pos:   position{line: 1544, col: 5, offset: 50036},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1544, col: 14, offset: 50050},
+																								pos: position{line: 1544, col: 14, offset: 50045},
 																								expr: &actionExpr{
-																									pos: position{line: 1544, col: 15, offset: 50051},
+																									pos: position{line: 1544, col: 15, offset: 50046},
 																									run: (*parser).callonExtraListElement75,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1544, col: 15, offset: 50051},
+																										pos: position{line: 1544, col: 15, offset: 50046},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1544, col: 15, offset: 50051},
+																											pos:        position{line: 1544, col: 15, offset: 50046},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26518,28 +26518,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonExtraListElement79,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26548,9 +26548,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -26563,27 +26563,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1646, col: 5, offset: 53432},
+																pos: position{line: 1646, col: 5, offset: 53427},
 																run: (*parser).callonExtraListElement86,
 																expr: &seqExpr{
-																	pos: position{line: 1646, col: 5, offset: 53432},
+																	pos: position{line: 1646, col: 5, offset: 53427},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1646, col: 5, offset: 53432},
+																			pos:   position{line: 1646, col: 5, offset: 53427},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1653, col: 5, offset: 53705},
+																				pos: position{line: 1653, col: 5, offset: 53700},
 																				run: (*parser).callonExtraListElement89,
 																				expr: &seqExpr{
-																					pos: position{line: 1653, col: 5, offset: 53705},
+																					pos: position{line: 1653, col: 5, offset: 53700},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1653, col: 5, offset: 53705},
+																							pos: position{line: 1653, col: 5, offset: 53700},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonExtraListElement92,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26592,24 +26592,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1654, col: 5, offset: 53717},
+																							pos:   position{line: 1654, col: 5, offset: 53712},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1655, col: 9, offset: 53733},
+																								pos: position{line: 1655, col: 9, offset: 53728},
 																								run: (*parser).callonExtraListElement95,
 																								expr: &choiceExpr{
-																									pos: position{line: 1655, col: 10, offset: 53734},
+																									pos: position{line: 1655, col: 10, offset: 53729},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1655, col: 11, offset: 53735},
+																											pos:        position{line: 1655, col: 11, offset: 53730},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1655, col: 18, offset: 53742},
+																											pos: position{line: 1655, col: 18, offset: 53737},
 																											expr: &litMatcher{
-																												pos:        position{line: 1655, col: 19, offset: 53743},
+																												pos:        position{line: 1655, col: 19, offset: 53738},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -26620,16 +26620,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1658, col: 7, offset: 53833},
+																							pos: position{line: 1658, col: 7, offset: 53828},
 																							run: (*parser).callonExtraListElement100,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2909, col: 11, offset: 91896},
+																							pos: position{line: 2909, col: 11, offset: 91891},
 																							run: (*parser).callonExtraListElement101,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2909, col: 11, offset: 91896},
+																								pos: position{line: 2909, col: 11, offset: 91891},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 11, offset: 91896},
+																									pos:        position{line: 2909, col: 11, offset: 91891},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26642,56 +26642,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1647, col: 5, offset: 53473},
+																			pos:   position{line: 1647, col: 5, offset: 53468},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1647, col: 16, offset: 53484},
+																				pos: position{line: 1647, col: 16, offset: 53479},
 																				expr: &actionExpr{
-																					pos: position{line: 1668, col: 5, offset: 54098},
+																					pos: position{line: 1668, col: 5, offset: 54093},
 																					run: (*parser).callonExtraListElement106,
 																					expr: &seqExpr{
-																						pos: position{line: 1668, col: 5, offset: 54098},
+																						pos: position{line: 1668, col: 5, offset: 54093},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1668, col: 5, offset: 54098},
+																								pos: position{line: 1668, col: 5, offset: 54093},
 																								expr: &litMatcher{
-																									pos:        position{line: 1668, col: 6, offset: 54099},
+																									pos:        position{line: 1668, col: 6, offset: 54094},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1668, col: 10, offset: 54103},
+																								pos:   position{line: 1668, col: 10, offset: 54098},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1669, col: 7, offset: 54117},
+																									pos: position{line: 1669, col: 7, offset: 54112},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1669, col: 7, offset: 54117},
+																											pos: position{line: 1669, col: 7, offset: 54112},
 																											run: (*parser).callonExtraListElement112,
 																											expr: &litMatcher{
-																												pos:        position{line: 1669, col: 7, offset: 54117},
+																												pos:        position{line: 1669, col: 7, offset: 54112},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1670, col: 7, offset: 54162},
+																											pos: position{line: 1670, col: 7, offset: 54157},
 																											run: (*parser).callonExtraListElement114,
 																											expr: &litMatcher{
-																												pos:        position{line: 1670, col: 7, offset: 54162},
+																												pos:        position{line: 1670, col: 7, offset: 54157},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1671, col: 7, offset: 54205},
+																											pos: position{line: 1671, col: 7, offset: 54200},
 																											run: (*parser).callonExtraListElement116,
 																											expr: &litMatcher{
-																												pos:        position{line: 1671, col: 7, offset: 54205},
+																												pos:        position{line: 1671, col: 7, offset: 54200},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -26701,12 +26701,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2909, col: 11, offset: 91896},
+																								pos: position{line: 2909, col: 11, offset: 91891},
 																								run: (*parser).callonExtraListElement118,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2909, col: 11, offset: 91896},
+																									pos: position{line: 2909, col: 11, offset: 91891},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2909, col: 11, offset: 91896},
+																										pos:        position{line: 2909, col: 11, offset: 91891},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -26720,26 +26720,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1648, col: 5, offset: 53523},
+																			pos:   position{line: 1648, col: 5, offset: 53518},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1544, col: 5, offset: 50041},
+																				pos: position{line: 1544, col: 5, offset: 50036},
 																				run: (*parser).callonExtraListElement122,
 																				expr: &seqExpr{
-																					pos: position{line: 1544, col: 5, offset: 50041},
+																					pos: position{line: 1544, col: 5, offset: 50036},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1544, col: 5, offset: 50041},
+																							pos:   position{line: 1544, col: 5, offset: 50036},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1544, col: 14, offset: 50050},
+																								pos: position{line: 1544, col: 14, offset: 50045},
 																								expr: &actionExpr{
-																									pos: position{line: 1544, col: 15, offset: 50051},
+																									pos: position{line: 1544, col: 15, offset: 50046},
 																									run: (*parser).callonExtraListElement126,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1544, col: 15, offset: 50051},
+																										pos: position{line: 1544, col: 15, offset: 50046},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1544, col: 15, offset: 50051},
+																											pos:        position{line: 1544, col: 15, offset: 50046},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26750,28 +26750,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonExtraListElement130,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26780,9 +26780,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -26795,36 +26795,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1737, col: 5, offset: 56077},
+																pos: position{line: 1737, col: 5, offset: 56072},
 																run: (*parser).callonExtraListElement137,
 																expr: &seqExpr{
-																	pos: position{line: 1737, col: 5, offset: 56077},
+																	pos: position{line: 1737, col: 5, offset: 56072},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1737, col: 5, offset: 56077},
+																			pos:   position{line: 1737, col: 5, offset: 56072},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1743, col: 5, offset: 56274},
+																				pos: position{line: 1743, col: 5, offset: 56269},
 																				run: (*parser).callonExtraListElement140,
 																				expr: &seqExpr{
-																					pos: position{line: 1743, col: 5, offset: 56274},
+																					pos: position{line: 1743, col: 5, offset: 56269},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1743, col: 5, offset: 56274},
+																							pos:        position{line: 1743, col: 5, offset: 56269},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1743, col: 9, offset: 56278},
+																							pos:   position{line: 1743, col: 9, offset: 56273},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1743, col: 14, offset: 56283},
+																								pos: position{line: 1743, col: 14, offset: 56278},
 																								run: (*parser).callonExtraListElement144,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1743, col: 14, offset: 56283},
+																									pos: position{line: 1743, col: 14, offset: 56278},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1743, col: 14, offset: 56283},
+																										pos:        position{line: 1743, col: 14, offset: 56278},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -26834,18 +26834,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1743, col: 62, offset: 56331},
+																							pos:        position{line: 1743, col: 62, offset: 56326},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2909, col: 11, offset: 91896},
+																							pos: position{line: 2909, col: 11, offset: 91891},
 																							run: (*parser).callonExtraListElement148,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2909, col: 11, offset: 91896},
+																								pos: position{line: 2909, col: 11, offset: 91891},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 11, offset: 91896},
+																									pos:        position{line: 2909, col: 11, offset: 91891},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -26858,26 +26858,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1738, col: 5, offset: 56113},
+																			pos:   position{line: 1738, col: 5, offset: 56108},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1544, col: 5, offset: 50041},
+																				pos: position{line: 1544, col: 5, offset: 50036},
 																				run: (*parser).callonExtraListElement152,
 																				expr: &seqExpr{
-																					pos: position{line: 1544, col: 5, offset: 50041},
+																					pos: position{line: 1544, col: 5, offset: 50036},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1544, col: 5, offset: 50041},
+																							pos:   position{line: 1544, col: 5, offset: 50036},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1544, col: 14, offset: 50050},
+																								pos: position{line: 1544, col: 14, offset: 50045},
 																								expr: &actionExpr{
-																									pos: position{line: 1544, col: 15, offset: 50051},
+																									pos: position{line: 1544, col: 15, offset: 50046},
 																									run: (*parser).callonExtraListElement156,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1544, col: 15, offset: 50051},
+																										pos: position{line: 1544, col: 15, offset: 50046},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1544, col: 15, offset: 50051},
+																											pos:        position{line: 1544, col: 15, offset: 50046},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -26888,28 +26888,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonExtraListElement160,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -26918,9 +26918,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -26933,35 +26933,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1680, col: 5, offset: 54398},
+																pos: position{line: 1680, col: 5, offset: 54393},
 																run: (*parser).callonExtraListElement167,
 																expr: &seqExpr{
-																	pos: position{line: 1680, col: 5, offset: 54398},
+																	pos: position{line: 1680, col: 5, offset: 54393},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1680, col: 5, offset: 54398},
+																			pos:   position{line: 1680, col: 5, offset: 54393},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1688, col: 5, offset: 54724},
+																				pos: position{line: 1688, col: 5, offset: 54719},
 																				run: (*parser).callonExtraListElement170,
 																				expr: &seqExpr{
-																					pos: position{line: 1688, col: 5, offset: 54724},
+																					pos: position{line: 1688, col: 5, offset: 54719},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1688, col: 5, offset: 54724},
+																							pos: position{line: 1688, col: 5, offset: 54719},
 																							expr: &seqExpr{
-																								pos: position{line: 2502, col: 31, offset: 80590},
+																								pos: position{line: 2502, col: 31, offset: 80585},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2502, col: 31, offset: 80590},
+																										pos:        position{line: 2502, col: 31, offset: 80585},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2502, col: 36, offset: 80595},
+																										pos: position{line: 2502, col: 36, offset: 80590},
 																										expr: &litMatcher{
-																											pos:        position{line: 2502, col: 37, offset: 80596},
+																											pos:        position{line: 2502, col: 37, offset: 80591},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -26971,28 +26971,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1689, col: 5, offset: 54756},
+																							pos: position{line: 1689, col: 5, offset: 54751},
 																							expr: &seqExpr{
-																								pos: position{line: 1689, col: 6, offset: 54757},
+																								pos: position{line: 1689, col: 6, offset: 54752},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1689, col: 6, offset: 54757},
+																										pos: position{line: 1689, col: 6, offset: 54752},
 																										expr: &actionExpr{
-																											pos: position{line: 1694, col: 5, offset: 54907},
+																											pos: position{line: 1694, col: 5, offset: 54902},
 																											run: (*parser).callonExtraListElement180,
 																											expr: &seqExpr{
-																												pos: position{line: 1694, col: 5, offset: 54907},
+																												pos: position{line: 1694, col: 5, offset: 54902},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1694, col: 5, offset: 54907},
+																														pos:   position{line: 1694, col: 5, offset: 54902},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1694, col: 16, offset: 54918},
+																															pos: position{line: 1694, col: 16, offset: 54913},
 																															run: (*parser).callonExtraListElement183,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1694, col: 16, offset: 54918},
+																																pos: position{line: 1694, col: 16, offset: 54913},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1694, col: 17, offset: 54919},
+																																	pos:        position{line: 1694, col: 17, offset: 54914},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -27001,7 +27001,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1697, col: 5, offset: 54976},
+																														pos: position{line: 1697, col: 5, offset: 54971},
 																														run: (*parser).callonExtraListElement186,
 																													},
 																												},
@@ -27009,30 +27009,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1689, col: 35, offset: 54786},
+																										pos: position{line: 1689, col: 35, offset: 54781},
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 8, offset: 92233},
+																											pos: position{line: 2927, col: 8, offset: 92228},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2914, col: 12, offset: 92006},
+																													pos: position{line: 2914, col: 12, offset: 92001},
 																													run: (*parser).callonExtraListElement189,
 																													expr: &choiceExpr{
-																														pos: position{line: 2914, col: 13, offset: 92007},
+																														pos: position{line: 2914, col: 13, offset: 92002},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 13, offset: 92007},
+																																pos:        position{line: 2914, col: 13, offset: 92002},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 20, offset: 92014},
+																																pos:        position{line: 2914, col: 20, offset: 92009},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 29, offset: 92023},
+																																pos:        position{line: 2914, col: 29, offset: 92018},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -27041,16 +27041,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2924, col: 8, offset: 92183},
+																													pos: position{line: 2924, col: 8, offset: 92178},
 																													expr: &anyMatcher{
-																														line: 2924, col: 9, offset: 92184,
+																														line: 2924, col: 9, offset: 92179,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1689, col: 40, offset: 54791,
+																										line: 1689, col: 40, offset: 54786,
 																									},
 																								},
 																							},
@@ -27060,24 +27060,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1681, col: 5, offset: 54433},
+																			pos:   position{line: 1681, col: 5, offset: 54428},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1694, col: 5, offset: 54907},
+																				pos: position{line: 1694, col: 5, offset: 54902},
 																				run: (*parser).callonExtraListElement198,
 																				expr: &seqExpr{
-																					pos: position{line: 1694, col: 5, offset: 54907},
+																					pos: position{line: 1694, col: 5, offset: 54902},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1694, col: 5, offset: 54907},
+																							pos:   position{line: 1694, col: 5, offset: 54902},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1694, col: 16, offset: 54918},
+																								pos: position{line: 1694, col: 16, offset: 54913},
 																								run: (*parser).callonExtraListElement201,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1694, col: 16, offset: 54918},
+																									pos: position{line: 1694, col: 16, offset: 54913},
 																									expr: &litMatcher{
-																										pos:        position{line: 1694, col: 17, offset: 54919},
+																										pos:        position{line: 1694, col: 17, offset: 54914},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -27086,7 +27086,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1697, col: 5, offset: 54976},
+																							pos: position{line: 1697, col: 5, offset: 54971},
 																							run: (*parser).callonExtraListElement204,
 																						},
 																					},
@@ -27094,24 +27094,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1682, col: 5, offset: 54478},
+																			pos:   position{line: 1682, col: 5, offset: 54473},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1705, col: 5, offset: 55225},
+																				pos: position{line: 1705, col: 5, offset: 55220},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1707, col: 9, offset: 55291},
+																						pos: position{line: 1707, col: 9, offset: 55286},
 																						run: (*parser).callonExtraListElement207,
 																						expr: &seqExpr{
-																							pos: position{line: 1707, col: 9, offset: 55291},
+																							pos: position{line: 1707, col: 9, offset: 55286},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1707, col: 9, offset: 55291},
+																									pos: position{line: 1707, col: 9, offset: 55286},
 																									expr: &actionExpr{
-																										pos: position{line: 2905, col: 10, offset: 91835},
+																										pos: position{line: 2905, col: 10, offset: 91830},
 																										run: (*parser).callonExtraListElement210,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2905, col: 10, offset: 91835},
+																											pos:        position{line: 2905, col: 10, offset: 91830},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27120,28 +27120,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2927, col: 8, offset: 92233},
+																									pos: position{line: 2927, col: 8, offset: 92228},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2914, col: 12, offset: 92006},
+																											pos: position{line: 2914, col: 12, offset: 92001},
 																											run: (*parser).callonExtraListElement213,
 																											expr: &choiceExpr{
-																												pos: position{line: 2914, col: 13, offset: 92007},
+																												pos: position{line: 2914, col: 13, offset: 92002},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2914, col: 13, offset: 92007},
+																														pos:        position{line: 2914, col: 13, offset: 92002},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2914, col: 20, offset: 92014},
+																														pos:        position{line: 2914, col: 20, offset: 92009},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2914, col: 29, offset: 92023},
+																														pos:        position{line: 2914, col: 29, offset: 92018},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27150,15 +27150,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2924, col: 8, offset: 92183},
+																											pos: position{line: 2924, col: 8, offset: 92178},
 																											expr: &anyMatcher{
-																												line: 2924, col: 9, offset: 92184,
+																												line: 2924, col: 9, offset: 92179,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1708, col: 9, offset: 55310},
+																									pos: position{line: 1708, col: 9, offset: 55305},
 																									expr: &actionExpr{
 																										pos: position{line: 687, col: 14, offset: 21867},
 																										run: (*parser).callonExtraListElement221,
@@ -27166,18 +27166,18 @@ var g = &grammar{
 																											pos: position{line: 687, col: 14, offset: 21867},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2922, col: 11, offset: 92169},
+																													pos: position{line: 2922, col: 11, offset: 92164},
 																													expr: &anyMatcher{
-																														line: 2922, col: 13, offset: 92171,
+																														line: 2922, col: 13, offset: 92166,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 687, col: 21, offset: 21874},
 																													expr: &actionExpr{
-																														pos: position{line: 2905, col: 10, offset: 91835},
+																														pos: position{line: 2905, col: 10, offset: 91830},
 																														run: (*parser).callonExtraListElement226,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2905, col: 10, offset: 91835},
+																															pos:        position{line: 2905, col: 10, offset: 91830},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -27186,28 +27186,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2927, col: 8, offset: 92233},
+																													pos: position{line: 2927, col: 8, offset: 92228},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2914, col: 12, offset: 92006},
+																															pos: position{line: 2914, col: 12, offset: 92001},
 																															run: (*parser).callonExtraListElement229,
 																															expr: &choiceExpr{
-																																pos: position{line: 2914, col: 13, offset: 92007},
+																																pos: position{line: 2914, col: 13, offset: 92002},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2914, col: 13, offset: 92007},
+																																		pos:        position{line: 2914, col: 13, offset: 92002},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2914, col: 20, offset: 92014},
+																																		pos:        position{line: 2914, col: 20, offset: 92009},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2914, col: 29, offset: 92023},
+																																		pos:        position{line: 2914, col: 29, offset: 92018},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -27216,9 +27216,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2924, col: 8, offset: 92183},
+																															pos: position{line: 2924, col: 8, offset: 92178},
 																															expr: &anyMatcher{
-																																line: 2924, col: 9, offset: 92184,
+																																line: 2924, col: 9, offset: 92179,
 																															},
 																														},
 																													},
@@ -27231,18 +27231,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1714, col: 9, offset: 55439},
+																						pos: position{line: 1714, col: 9, offset: 55434},
 																						run: (*parser).callonExtraListElement236,
 																						expr: &seqExpr{
-																							pos: position{line: 1714, col: 9, offset: 55439},
+																							pos: position{line: 1714, col: 9, offset: 55434},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 11, offset: 91896},
+																									pos: position{line: 2909, col: 11, offset: 91891},
 																									run: (*parser).callonExtraListElement238,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2909, col: 11, offset: 91896},
+																										pos: position{line: 2909, col: 11, offset: 91891},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2909, col: 11, offset: 91896},
+																											pos:        position{line: 2909, col: 11, offset: 91891},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -27251,15 +27251,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1715, col: 9, offset: 55512},
+																									pos:   position{line: 1715, col: 9, offset: 55507},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1715, col: 18, offset: 55521},
+																										pos: position{line: 1715, col: 18, offset: 55516},
 																										run: (*parser).callonExtraListElement242,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1715, col: 18, offset: 55521},
+																											pos: position{line: 1715, col: 18, offset: 55516},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1715, col: 18, offset: 55521},
+																												pos:        position{line: 1715, col: 18, offset: 55516},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -27269,28 +27269,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2927, col: 8, offset: 92233},
+																									pos: position{line: 2927, col: 8, offset: 92228},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2914, col: 12, offset: 92006},
+																											pos: position{line: 2914, col: 12, offset: 92001},
 																											run: (*parser).callonExtraListElement246,
 																											expr: &choiceExpr{
-																												pos: position{line: 2914, col: 13, offset: 92007},
+																												pos: position{line: 2914, col: 13, offset: 92002},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2914, col: 13, offset: 92007},
+																														pos:        position{line: 2914, col: 13, offset: 92002},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2914, col: 20, offset: 92014},
+																														pos:        position{line: 2914, col: 20, offset: 92009},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2914, col: 29, offset: 92023},
+																														pos:        position{line: 2914, col: 29, offset: 92018},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -27299,9 +27299,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2924, col: 8, offset: 92183},
+																											pos: position{line: 2924, col: 8, offset: 92178},
 																											expr: &anyMatcher{
-																												line: 2924, col: 9, offset: 92184,
+																												line: 2924, col: 9, offset: 92179,
 																											},
 																										},
 																									},
@@ -27322,50 +27322,50 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1519, col: 13, offset: 49168},
+										pos: position{line: 1519, col: 13, offset: 49163},
 										run: (*parser).callonExtraListElement253,
 										expr: &seqExpr{
-											pos: position{line: 1519, col: 13, offset: 49168},
+											pos: position{line: 1519, col: 13, offset: 49163},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1519, col: 13, offset: 49168},
+													pos:   position{line: 1519, col: 13, offset: 49163},
 													label: "attributes",
 													expr: &oneOrMoreExpr{
-														pos: position{line: 1519, col: 24, offset: 49179},
+														pos: position{line: 1519, col: 24, offset: 49174},
 														expr: &ruleRefExpr{
-															pos:  position{line: 1519, col: 25, offset: 49180},
+															pos:  position{line: 1519, col: 25, offset: 49175},
 															name: "BlockAttributes",
 														},
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1520, col: 13, offset: 49211},
+													pos:   position{line: 1520, col: 13, offset: 49206},
 													label: "element",
 													expr: &choiceExpr{
-														pos: position{line: 1520, col: 22, offset: 49220},
+														pos: position{line: 1520, col: 22, offset: 49215},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1596, col: 5, offset: 51535},
+																pos: position{line: 1596, col: 5, offset: 51530},
 																run: (*parser).callonExtraListElement260,
 																expr: &seqExpr{
-																	pos: position{line: 1596, col: 5, offset: 51535},
+																	pos: position{line: 1596, col: 5, offset: 51530},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1596, col: 5, offset: 51535},
+																			pos:   position{line: 1596, col: 5, offset: 51530},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1603, col: 5, offset: 51743},
+																				pos: position{line: 1603, col: 5, offset: 51738},
 																				run: (*parser).callonExtraListElement263,
 																				expr: &seqExpr{
-																					pos: position{line: 1603, col: 5, offset: 51743},
+																					pos: position{line: 1603, col: 5, offset: 51738},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1603, col: 5, offset: 51743},
+																							pos: position{line: 1603, col: 5, offset: 51738},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonExtraListElement266,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27374,27 +27374,27 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1603, col: 12, offset: 51750},
+																							pos:   position{line: 1603, col: 12, offset: 51745},
 																							label: "prefix",
 																							expr: &choiceExpr{
-																								pos: position{line: 1605, col: 9, offset: 51813},
+																								pos: position{line: 1605, col: 9, offset: 51808},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 1605, col: 9, offset: 51813},
+																										pos: position{line: 1605, col: 9, offset: 51808},
 																										run: (*parser).callonExtraListElement270,
 																										expr: &seqExpr{
-																											pos: position{line: 1605, col: 9, offset: 51813},
+																											pos: position{line: 1605, col: 9, offset: 51808},
 																											exprs: []interface{}{
 																												&labeledExpr{
-																													pos:   position{line: 1605, col: 9, offset: 51813},
+																													pos:   position{line: 1605, col: 9, offset: 51808},
 																													label: "depth",
 																													expr: &actionExpr{
-																														pos: position{line: 1605, col: 16, offset: 51820},
+																														pos: position{line: 1605, col: 16, offset: 51815},
 																														run: (*parser).callonExtraListElement273,
 																														expr: &oneOrMoreExpr{
-																															pos: position{line: 1605, col: 16, offset: 51820},
+																															pos: position{line: 1605, col: 16, offset: 51815},
 																															expr: &litMatcher{
-																																pos:        position{line: 1605, col: 17, offset: 51821},
+																																pos:        position{line: 1605, col: 17, offset: 51816},
 																																val:        ".",
 																																ignoreCase: false,
 																																want:       "\".\"",
@@ -27403,22 +27403,22 @@ var g = &grammar{
 																													},
 																												},
 																												&andCodeExpr{
-																													pos: position{line: 1609, col: 9, offset: 51921},
+																													pos: position{line: 1609, col: 9, offset: 51916},
 																													run: (*parser).callonExtraListElement276,
 																												},
 																											},
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1628, col: 11, offset: 52638},
+																										pos: position{line: 1628, col: 11, offset: 52633},
 																										run: (*parser).callonExtraListElement277,
 																										expr: &seqExpr{
-																											pos: position{line: 1628, col: 11, offset: 52638},
+																											pos: position{line: 1628, col: 11, offset: 52633},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1628, col: 11, offset: 52638},
+																													pos: position{line: 1628, col: 11, offset: 52633},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1628, col: 12, offset: 52639},
+																														pos:        position{line: 1628, col: 12, offset: 52634},
 																														val:        "[0-9]",
 																														ranges:     []rune{'0', '9'},
 																														ignoreCase: false,
@@ -27426,7 +27426,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1628, col: 20, offset: 52647},
+																													pos:        position{line: 1628, col: 20, offset: 52642},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27435,20 +27435,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1630, col: 13, offset: 52764},
+																										pos: position{line: 1630, col: 13, offset: 52759},
 																										run: (*parser).callonExtraListElement282,
 																										expr: &seqExpr{
-																											pos: position{line: 1630, col: 13, offset: 52764},
+																											pos: position{line: 1630, col: 13, offset: 52759},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1630, col: 14, offset: 52765},
+																													pos:        position{line: 1630, col: 14, offset: 52760},
 																													val:        "[a-z]",
 																													ranges:     []rune{'a', 'z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1630, col: 21, offset: 52772},
+																													pos:        position{line: 1630, col: 21, offset: 52767},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27457,20 +27457,20 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1632, col: 13, offset: 52892},
+																										pos: position{line: 1632, col: 13, offset: 52887},
 																										run: (*parser).callonExtraListElement286,
 																										expr: &seqExpr{
-																											pos: position{line: 1632, col: 13, offset: 52892},
+																											pos: position{line: 1632, col: 13, offset: 52887},
 																											exprs: []interface{}{
 																												&charClassMatcher{
-																													pos:        position{line: 1632, col: 14, offset: 52893},
+																													pos:        position{line: 1632, col: 14, offset: 52888},
 																													val:        "[A-Z]",
 																													ranges:     []rune{'A', 'Z'},
 																													ignoreCase: false,
 																													inverted:   false,
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1632, col: 21, offset: 52900},
+																													pos:        position{line: 1632, col: 21, offset: 52895},
 																													val:        ".",
 																													ignoreCase: false,
 																													want:       "\".\"",
@@ -27479,15 +27479,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1634, col: 13, offset: 53020},
+																										pos: position{line: 1634, col: 13, offset: 53015},
 																										run: (*parser).callonExtraListElement290,
 																										expr: &seqExpr{
-																											pos: position{line: 1634, col: 13, offset: 53020},
+																											pos: position{line: 1634, col: 13, offset: 53015},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1634, col: 13, offset: 53020},
+																													pos: position{line: 1634, col: 13, offset: 53015},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1634, col: 14, offset: 53021},
+																														pos:        position{line: 1634, col: 14, offset: 53016},
 																														val:        "[ivxdlcm]",
 																														chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																														ignoreCase: false,
@@ -27495,7 +27495,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1634, col: 26, offset: 53033},
+																													pos:        position{line: 1634, col: 26, offset: 53028},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27504,15 +27504,15 @@ var g = &grammar{
 																										},
 																									},
 																									&actionExpr{
-																										pos: position{line: 1636, col: 13, offset: 53153},
+																										pos: position{line: 1636, col: 13, offset: 53148},
 																										run: (*parser).callonExtraListElement295,
 																										expr: &seqExpr{
-																											pos: position{line: 1636, col: 13, offset: 53153},
+																											pos: position{line: 1636, col: 13, offset: 53148},
 																											exprs: []interface{}{
 																												&oneOrMoreExpr{
-																													pos: position{line: 1636, col: 13, offset: 53153},
+																													pos: position{line: 1636, col: 13, offset: 53148},
 																													expr: &charClassMatcher{
-																														pos:        position{line: 1636, col: 14, offset: 53154},
+																														pos:        position{line: 1636, col: 14, offset: 53149},
 																														val:        "[IVXDLCM]",
 																														chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																														ignoreCase: false,
@@ -27520,7 +27520,7 @@ var g = &grammar{
 																													},
 																												},
 																												&litMatcher{
-																													pos:        position{line: 1636, col: 26, offset: 53166},
+																													pos:        position{line: 1636, col: 26, offset: 53161},
 																													val:        ")",
 																													ignoreCase: false,
 																													want:       "\")\"",
@@ -27532,12 +27532,12 @@ var g = &grammar{
 																							},
 																						},
 																						&actionExpr{
-																							pos: position{line: 2909, col: 11, offset: 91896},
+																							pos: position{line: 2909, col: 11, offset: 91891},
 																							run: (*parser).callonExtraListElement300,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2909, col: 11, offset: 91896},
+																								pos: position{line: 2909, col: 11, offset: 91891},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 11, offset: 91896},
+																									pos:        position{line: 2909, col: 11, offset: 91891},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27550,26 +27550,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1597, col: 5, offset: 51574},
+																			pos:   position{line: 1597, col: 5, offset: 51569},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1544, col: 5, offset: 50041},
+																				pos: position{line: 1544, col: 5, offset: 50036},
 																				run: (*parser).callonExtraListElement304,
 																				expr: &seqExpr{
-																					pos: position{line: 1544, col: 5, offset: 50041},
+																					pos: position{line: 1544, col: 5, offset: 50036},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1544, col: 5, offset: 50041},
+																							pos:   position{line: 1544, col: 5, offset: 50036},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1544, col: 14, offset: 50050},
+																								pos: position{line: 1544, col: 14, offset: 50045},
 																								expr: &actionExpr{
-																									pos: position{line: 1544, col: 15, offset: 50051},
+																									pos: position{line: 1544, col: 15, offset: 50046},
 																									run: (*parser).callonExtraListElement308,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1544, col: 15, offset: 50051},
+																										pos: position{line: 1544, col: 15, offset: 50046},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1544, col: 15, offset: 50051},
+																											pos:        position{line: 1544, col: 15, offset: 50046},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27580,28 +27580,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonExtraListElement312,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27610,9 +27610,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -27625,27 +27625,27 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1646, col: 5, offset: 53432},
+																pos: position{line: 1646, col: 5, offset: 53427},
 																run: (*parser).callonExtraListElement319,
 																expr: &seqExpr{
-																	pos: position{line: 1646, col: 5, offset: 53432},
+																	pos: position{line: 1646, col: 5, offset: 53427},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1646, col: 5, offset: 53432},
+																			pos:   position{line: 1646, col: 5, offset: 53427},
 																			label: "prefix",
 																			expr: &actionExpr{
-																				pos: position{line: 1653, col: 5, offset: 53705},
+																				pos: position{line: 1653, col: 5, offset: 53700},
 																				run: (*parser).callonExtraListElement322,
 																				expr: &seqExpr{
-																					pos: position{line: 1653, col: 5, offset: 53705},
+																					pos: position{line: 1653, col: 5, offset: 53700},
 																					exprs: []interface{}{
 																						&zeroOrMoreExpr{
-																							pos: position{line: 1653, col: 5, offset: 53705},
+																							pos: position{line: 1653, col: 5, offset: 53700},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonExtraListElement325,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27654,24 +27654,24 @@ var g = &grammar{
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1654, col: 5, offset: 53717},
+																							pos:   position{line: 1654, col: 5, offset: 53712},
 																							label: "style",
 																							expr: &actionExpr{
-																								pos: position{line: 1655, col: 9, offset: 53733},
+																								pos: position{line: 1655, col: 9, offset: 53728},
 																								run: (*parser).callonExtraListElement328,
 																								expr: &choiceExpr{
-																									pos: position{line: 1655, col: 10, offset: 53734},
+																									pos: position{line: 1655, col: 10, offset: 53729},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 1655, col: 11, offset: 53735},
+																											pos:        position{line: 1655, col: 11, offset: 53730},
 																											val:        "-",
 																											ignoreCase: false,
 																											want:       "\"-\"",
 																										},
 																										&oneOrMoreExpr{
-																											pos: position{line: 1655, col: 18, offset: 53742},
+																											pos: position{line: 1655, col: 18, offset: 53737},
 																											expr: &litMatcher{
-																												pos:        position{line: 1655, col: 19, offset: 53743},
+																												pos:        position{line: 1655, col: 19, offset: 53738},
 																												val:        "*",
 																												ignoreCase: false,
 																												want:       "\"*\"",
@@ -27682,16 +27682,16 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1658, col: 7, offset: 53833},
+																							pos: position{line: 1658, col: 7, offset: 53828},
 																							run: (*parser).callonExtraListElement333,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2909, col: 11, offset: 91896},
+																							pos: position{line: 2909, col: 11, offset: 91891},
 																							run: (*parser).callonExtraListElement334,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2909, col: 11, offset: 91896},
+																								pos: position{line: 2909, col: 11, offset: 91891},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 11, offset: 91896},
+																									pos:        position{line: 2909, col: 11, offset: 91891},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27704,56 +27704,56 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1647, col: 5, offset: 53473},
+																			pos:   position{line: 1647, col: 5, offset: 53468},
 																			label: "checkstyle",
 																			expr: &zeroOrOneExpr{
-																				pos: position{line: 1647, col: 16, offset: 53484},
+																				pos: position{line: 1647, col: 16, offset: 53479},
 																				expr: &actionExpr{
-																					pos: position{line: 1668, col: 5, offset: 54098},
+																					pos: position{line: 1668, col: 5, offset: 54093},
 																					run: (*parser).callonExtraListElement339,
 																					expr: &seqExpr{
-																						pos: position{line: 1668, col: 5, offset: 54098},
+																						pos: position{line: 1668, col: 5, offset: 54093},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 1668, col: 5, offset: 54098},
+																								pos: position{line: 1668, col: 5, offset: 54093},
 																								expr: &litMatcher{
-																									pos:        position{line: 1668, col: 6, offset: 54099},
+																									pos:        position{line: 1668, col: 6, offset: 54094},
 																									val:        "[",
 																									ignoreCase: false,
 																									want:       "\"[\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 1668, col: 10, offset: 54103},
+																								pos:   position{line: 1668, col: 10, offset: 54098},
 																								label: "style",
 																								expr: &choiceExpr{
-																									pos: position{line: 1669, col: 7, offset: 54117},
+																									pos: position{line: 1669, col: 7, offset: 54112},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 1669, col: 7, offset: 54117},
+																											pos: position{line: 1669, col: 7, offset: 54112},
 																											run: (*parser).callonExtraListElement345,
 																											expr: &litMatcher{
-																												pos:        position{line: 1669, col: 7, offset: 54117},
+																												pos:        position{line: 1669, col: 7, offset: 54112},
 																												val:        "[ ]",
 																												ignoreCase: false,
 																												want:       "\"[ ]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1670, col: 7, offset: 54162},
+																											pos: position{line: 1670, col: 7, offset: 54157},
 																											run: (*parser).callonExtraListElement347,
 																											expr: &litMatcher{
-																												pos:        position{line: 1670, col: 7, offset: 54162},
+																												pos:        position{line: 1670, col: 7, offset: 54157},
 																												val:        "[*]",
 																												ignoreCase: false,
 																												want:       "\"[*]\"",
 																											},
 																										},
 																										&actionExpr{
-																											pos: position{line: 1671, col: 7, offset: 54205},
+																											pos: position{line: 1671, col: 7, offset: 54200},
 																											run: (*parser).callonExtraListElement349,
 																											expr: &litMatcher{
-																												pos:        position{line: 1671, col: 7, offset: 54205},
+																												pos:        position{line: 1671, col: 7, offset: 54200},
 																												val:        "[x]",
 																												ignoreCase: false,
 																												want:       "\"[x]\"",
@@ -27763,12 +27763,12 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 2909, col: 11, offset: 91896},
+																								pos: position{line: 2909, col: 11, offset: 91891},
 																								run: (*parser).callonExtraListElement351,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 2909, col: 11, offset: 91896},
+																									pos: position{line: 2909, col: 11, offset: 91891},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2909, col: 11, offset: 91896},
+																										pos:        position{line: 2909, col: 11, offset: 91891},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -27782,26 +27782,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1648, col: 5, offset: 53523},
+																			pos:   position{line: 1648, col: 5, offset: 53518},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1544, col: 5, offset: 50041},
+																				pos: position{line: 1544, col: 5, offset: 50036},
 																				run: (*parser).callonExtraListElement355,
 																				expr: &seqExpr{
-																					pos: position{line: 1544, col: 5, offset: 50041},
+																					pos: position{line: 1544, col: 5, offset: 50036},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1544, col: 5, offset: 50041},
+																							pos:   position{line: 1544, col: 5, offset: 50036},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1544, col: 14, offset: 50050},
+																								pos: position{line: 1544, col: 14, offset: 50045},
 																								expr: &actionExpr{
-																									pos: position{line: 1544, col: 15, offset: 50051},
+																									pos: position{line: 1544, col: 15, offset: 50046},
 																									run: (*parser).callonExtraListElement359,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1544, col: 15, offset: 50051},
+																										pos: position{line: 1544, col: 15, offset: 50046},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1544, col: 15, offset: 50051},
+																											pos:        position{line: 1544, col: 15, offset: 50046},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27812,28 +27812,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonExtraListElement363,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27842,9 +27842,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -27857,36 +27857,36 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1737, col: 5, offset: 56077},
+																pos: position{line: 1737, col: 5, offset: 56072},
 																run: (*parser).callonExtraListElement370,
 																expr: &seqExpr{
-																	pos: position{line: 1737, col: 5, offset: 56077},
+																	pos: position{line: 1737, col: 5, offset: 56072},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1737, col: 5, offset: 56077},
+																			pos:   position{line: 1737, col: 5, offset: 56072},
 																			label: "ref",
 																			expr: &actionExpr{
-																				pos: position{line: 1743, col: 5, offset: 56274},
+																				pos: position{line: 1743, col: 5, offset: 56269},
 																				run: (*parser).callonExtraListElement373,
 																				expr: &seqExpr{
-																					pos: position{line: 1743, col: 5, offset: 56274},
+																					pos: position{line: 1743, col: 5, offset: 56269},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 1743, col: 5, offset: 56274},
+																							pos:        position{line: 1743, col: 5, offset: 56269},
 																							val:        "<",
 																							ignoreCase: false,
 																							want:       "\"<\"",
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 1743, col: 9, offset: 56278},
+																							pos:   position{line: 1743, col: 9, offset: 56273},
 																							label: "ref",
 																							expr: &actionExpr{
-																								pos: position{line: 1743, col: 14, offset: 56283},
+																								pos: position{line: 1743, col: 14, offset: 56278},
 																								run: (*parser).callonExtraListElement377,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1743, col: 14, offset: 56283},
+																									pos: position{line: 1743, col: 14, offset: 56278},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 1743, col: 14, offset: 56283},
+																										pos:        position{line: 1743, col: 14, offset: 56278},
 																										val:        "[0-9]",
 																										ranges:     []rune{'0', '9'},
 																										ignoreCase: false,
@@ -27896,18 +27896,18 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1743, col: 62, offset: 56331},
+																							pos:        position{line: 1743, col: 62, offset: 56326},
 																							val:        ">",
 																							ignoreCase: false,
 																							want:       "\">\"",
 																						},
 																						&actionExpr{
-																							pos: position{line: 2909, col: 11, offset: 91896},
+																							pos: position{line: 2909, col: 11, offset: 91891},
 																							run: (*parser).callonExtraListElement381,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2909, col: 11, offset: 91896},
+																								pos: position{line: 2909, col: 11, offset: 91891},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 11, offset: 91896},
+																									pos:        position{line: 2909, col: 11, offset: 91891},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -27920,26 +27920,26 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1738, col: 5, offset: 56113},
+																			pos:   position{line: 1738, col: 5, offset: 56108},
 																			label: "description",
 																			expr: &actionExpr{
-																				pos: position{line: 1544, col: 5, offset: 50041},
+																				pos: position{line: 1544, col: 5, offset: 50036},
 																				run: (*parser).callonExtraListElement385,
 																				expr: &seqExpr{
-																					pos: position{line: 1544, col: 5, offset: 50041},
+																					pos: position{line: 1544, col: 5, offset: 50036},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1544, col: 5, offset: 50041},
+																							pos:   position{line: 1544, col: 5, offset: 50036},
 																							label: "rawLines",
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 1544, col: 14, offset: 50050},
+																								pos: position{line: 1544, col: 14, offset: 50045},
 																								expr: &actionExpr{
-																									pos: position{line: 1544, col: 15, offset: 50051},
+																									pos: position{line: 1544, col: 15, offset: 50046},
 																									run: (*parser).callonExtraListElement389,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1544, col: 15, offset: 50051},
+																										pos: position{line: 1544, col: 15, offset: 50046},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 1544, col: 15, offset: 50051},
+																											pos:        position{line: 1544, col: 15, offset: 50046},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -27950,28 +27950,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonExtraListElement393,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -27980,9 +27980,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -27995,35 +27995,35 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1680, col: 5, offset: 54398},
+																pos: position{line: 1680, col: 5, offset: 54393},
 																run: (*parser).callonExtraListElement400,
 																expr: &seqExpr{
-																	pos: position{line: 1680, col: 5, offset: 54398},
+																	pos: position{line: 1680, col: 5, offset: 54393},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1680, col: 5, offset: 54398},
+																			pos:   position{line: 1680, col: 5, offset: 54393},
 																			label: "term",
 																			expr: &actionExpr{
-																				pos: position{line: 1688, col: 5, offset: 54724},
+																				pos: position{line: 1688, col: 5, offset: 54719},
 																				run: (*parser).callonExtraListElement403,
 																				expr: &seqExpr{
-																					pos: position{line: 1688, col: 5, offset: 54724},
+																					pos: position{line: 1688, col: 5, offset: 54719},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1688, col: 5, offset: 54724},
+																							pos: position{line: 1688, col: 5, offset: 54719},
 																							expr: &seqExpr{
-																								pos: position{line: 2502, col: 31, offset: 80590},
+																								pos: position{line: 2502, col: 31, offset: 80585},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2502, col: 31, offset: 80590},
+																										pos:        position{line: 2502, col: 31, offset: 80585},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2502, col: 36, offset: 80595},
+																										pos: position{line: 2502, col: 36, offset: 80590},
 																										expr: &litMatcher{
-																											pos:        position{line: 2502, col: 37, offset: 80596},
+																											pos:        position{line: 2502, col: 37, offset: 80591},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -28033,28 +28033,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1689, col: 5, offset: 54756},
+																							pos: position{line: 1689, col: 5, offset: 54751},
 																							expr: &seqExpr{
-																								pos: position{line: 1689, col: 6, offset: 54757},
+																								pos: position{line: 1689, col: 6, offset: 54752},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1689, col: 6, offset: 54757},
+																										pos: position{line: 1689, col: 6, offset: 54752},
 																										expr: &actionExpr{
-																											pos: position{line: 1694, col: 5, offset: 54907},
+																											pos: position{line: 1694, col: 5, offset: 54902},
 																											run: (*parser).callonExtraListElement413,
 																											expr: &seqExpr{
-																												pos: position{line: 1694, col: 5, offset: 54907},
+																												pos: position{line: 1694, col: 5, offset: 54902},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1694, col: 5, offset: 54907},
+																														pos:   position{line: 1694, col: 5, offset: 54902},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1694, col: 16, offset: 54918},
+																															pos: position{line: 1694, col: 16, offset: 54913},
 																															run: (*parser).callonExtraListElement416,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1694, col: 16, offset: 54918},
+																																pos: position{line: 1694, col: 16, offset: 54913},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1694, col: 17, offset: 54919},
+																																	pos:        position{line: 1694, col: 17, offset: 54914},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -28063,7 +28063,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1697, col: 5, offset: 54976},
+																														pos: position{line: 1697, col: 5, offset: 54971},
 																														run: (*parser).callonExtraListElement419,
 																													},
 																												},
@@ -28071,30 +28071,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1689, col: 35, offset: 54786},
+																										pos: position{line: 1689, col: 35, offset: 54781},
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 8, offset: 92233},
+																											pos: position{line: 2927, col: 8, offset: 92228},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2914, col: 12, offset: 92006},
+																													pos: position{line: 2914, col: 12, offset: 92001},
 																													run: (*parser).callonExtraListElement422,
 																													expr: &choiceExpr{
-																														pos: position{line: 2914, col: 13, offset: 92007},
+																														pos: position{line: 2914, col: 13, offset: 92002},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 13, offset: 92007},
+																																pos:        position{line: 2914, col: 13, offset: 92002},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 20, offset: 92014},
+																																pos:        position{line: 2914, col: 20, offset: 92009},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 29, offset: 92023},
+																																pos:        position{line: 2914, col: 29, offset: 92018},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -28103,16 +28103,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2924, col: 8, offset: 92183},
+																													pos: position{line: 2924, col: 8, offset: 92178},
 																													expr: &anyMatcher{
-																														line: 2924, col: 9, offset: 92184,
+																														line: 2924, col: 9, offset: 92179,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1689, col: 40, offset: 54791,
+																										line: 1689, col: 40, offset: 54786,
 																									},
 																								},
 																							},
@@ -28122,24 +28122,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1681, col: 5, offset: 54433},
+																			pos:   position{line: 1681, col: 5, offset: 54428},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1694, col: 5, offset: 54907},
+																				pos: position{line: 1694, col: 5, offset: 54902},
 																				run: (*parser).callonExtraListElement431,
 																				expr: &seqExpr{
-																					pos: position{line: 1694, col: 5, offset: 54907},
+																					pos: position{line: 1694, col: 5, offset: 54902},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1694, col: 5, offset: 54907},
+																							pos:   position{line: 1694, col: 5, offset: 54902},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1694, col: 16, offset: 54918},
+																								pos: position{line: 1694, col: 16, offset: 54913},
 																								run: (*parser).callonExtraListElement434,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1694, col: 16, offset: 54918},
+																									pos: position{line: 1694, col: 16, offset: 54913},
 																									expr: &litMatcher{
-																										pos:        position{line: 1694, col: 17, offset: 54919},
+																										pos:        position{line: 1694, col: 17, offset: 54914},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -28148,7 +28148,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1697, col: 5, offset: 54976},
+																							pos: position{line: 1697, col: 5, offset: 54971},
 																							run: (*parser).callonExtraListElement437,
 																						},
 																					},
@@ -28156,24 +28156,24 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1682, col: 5, offset: 54478},
+																			pos:   position{line: 1682, col: 5, offset: 54473},
 																			label: "description",
 																			expr: &choiceExpr{
-																				pos: position{line: 1705, col: 5, offset: 55225},
+																				pos: position{line: 1705, col: 5, offset: 55220},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 1707, col: 9, offset: 55291},
+																						pos: position{line: 1707, col: 9, offset: 55286},
 																						run: (*parser).callonExtraListElement440,
 																						expr: &seqExpr{
-																							pos: position{line: 1707, col: 9, offset: 55291},
+																							pos: position{line: 1707, col: 9, offset: 55286},
 																							exprs: []interface{}{
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1707, col: 9, offset: 55291},
+																									pos: position{line: 1707, col: 9, offset: 55286},
 																									expr: &actionExpr{
-																										pos: position{line: 2905, col: 10, offset: 91835},
+																										pos: position{line: 2905, col: 10, offset: 91830},
 																										run: (*parser).callonExtraListElement443,
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2905, col: 10, offset: 91835},
+																											pos:        position{line: 2905, col: 10, offset: 91830},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28182,28 +28182,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2927, col: 8, offset: 92233},
+																									pos: position{line: 2927, col: 8, offset: 92228},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2914, col: 12, offset: 92006},
+																											pos: position{line: 2914, col: 12, offset: 92001},
 																											run: (*parser).callonExtraListElement446,
 																											expr: &choiceExpr{
-																												pos: position{line: 2914, col: 13, offset: 92007},
+																												pos: position{line: 2914, col: 13, offset: 92002},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2914, col: 13, offset: 92007},
+																														pos:        position{line: 2914, col: 13, offset: 92002},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2914, col: 20, offset: 92014},
+																														pos:        position{line: 2914, col: 20, offset: 92009},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2914, col: 29, offset: 92023},
+																														pos:        position{line: 2914, col: 29, offset: 92018},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28212,15 +28212,15 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2924, col: 8, offset: 92183},
+																											pos: position{line: 2924, col: 8, offset: 92178},
 																											expr: &anyMatcher{
-																												line: 2924, col: 9, offset: 92184,
+																												line: 2924, col: 9, offset: 92179,
 																											},
 																										},
 																									},
 																								},
 																								&zeroOrMoreExpr{
-																									pos: position{line: 1708, col: 9, offset: 55310},
+																									pos: position{line: 1708, col: 9, offset: 55305},
 																									expr: &actionExpr{
 																										pos: position{line: 687, col: 14, offset: 21867},
 																										run: (*parser).callonExtraListElement454,
@@ -28228,18 +28228,18 @@ var g = &grammar{
 																											pos: position{line: 687, col: 14, offset: 21867},
 																											exprs: []interface{}{
 																												&andExpr{
-																													pos: position{line: 2922, col: 11, offset: 92169},
+																													pos: position{line: 2922, col: 11, offset: 92164},
 																													expr: &anyMatcher{
-																														line: 2922, col: 13, offset: 92171,
+																														line: 2922, col: 13, offset: 92166,
 																													},
 																												},
 																												&zeroOrMoreExpr{
 																													pos: position{line: 687, col: 21, offset: 21874},
 																													expr: &actionExpr{
-																														pos: position{line: 2905, col: 10, offset: 91835},
+																														pos: position{line: 2905, col: 10, offset: 91830},
 																														run: (*parser).callonExtraListElement459,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2905, col: 10, offset: 91835},
+																															pos:        position{line: 2905, col: 10, offset: 91830},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -28248,28 +28248,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2927, col: 8, offset: 92233},
+																													pos: position{line: 2927, col: 8, offset: 92228},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2914, col: 12, offset: 92006},
+																															pos: position{line: 2914, col: 12, offset: 92001},
 																															run: (*parser).callonExtraListElement462,
 																															expr: &choiceExpr{
-																																pos: position{line: 2914, col: 13, offset: 92007},
+																																pos: position{line: 2914, col: 13, offset: 92002},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2914, col: 13, offset: 92007},
+																																		pos:        position{line: 2914, col: 13, offset: 92002},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2914, col: 20, offset: 92014},
+																																		pos:        position{line: 2914, col: 20, offset: 92009},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2914, col: 29, offset: 92023},
+																																		pos:        position{line: 2914, col: 29, offset: 92018},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -28278,9 +28278,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2924, col: 8, offset: 92183},
+																															pos: position{line: 2924, col: 8, offset: 92178},
 																															expr: &anyMatcher{
-																																line: 2924, col: 9, offset: 92184,
+																																line: 2924, col: 9, offset: 92179,
 																															},
 																														},
 																													},
@@ -28293,18 +28293,18 @@ var g = &grammar{
 																						},
 																					},
 																					&actionExpr{
-																						pos: position{line: 1714, col: 9, offset: 55439},
+																						pos: position{line: 1714, col: 9, offset: 55434},
 																						run: (*parser).callonExtraListElement469,
 																						expr: &seqExpr{
-																							pos: position{line: 1714, col: 9, offset: 55439},
+																							pos: position{line: 1714, col: 9, offset: 55434},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 11, offset: 91896},
+																									pos: position{line: 2909, col: 11, offset: 91891},
 																									run: (*parser).callonExtraListElement471,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2909, col: 11, offset: 91896},
+																										pos: position{line: 2909, col: 11, offset: 91891},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2909, col: 11, offset: 91896},
+																											pos:        position{line: 2909, col: 11, offset: 91891},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -28313,15 +28313,15 @@ var g = &grammar{
 																									},
 																								},
 																								&labeledExpr{
-																									pos:   position{line: 1715, col: 9, offset: 55512},
+																									pos:   position{line: 1715, col: 9, offset: 55507},
 																									label: "content",
 																									expr: &actionExpr{
-																										pos: position{line: 1715, col: 18, offset: 55521},
+																										pos: position{line: 1715, col: 18, offset: 55516},
 																										run: (*parser).callonExtraListElement475,
 																										expr: &oneOrMoreExpr{
-																											pos: position{line: 1715, col: 18, offset: 55521},
+																											pos: position{line: 1715, col: 18, offset: 55516},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1715, col: 18, offset: 55521},
+																												pos:        position{line: 1715, col: 18, offset: 55516},
 																												val:        "[^\\r\\n]",
 																												chars:      []rune{'\r', '\n'},
 																												ignoreCase: false,
@@ -28331,28 +28331,28 @@ var g = &grammar{
 																									},
 																								},
 																								&choiceExpr{
-																									pos: position{line: 2927, col: 8, offset: 92233},
+																									pos: position{line: 2927, col: 8, offset: 92228},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2914, col: 12, offset: 92006},
+																											pos: position{line: 2914, col: 12, offset: 92001},
 																											run: (*parser).callonExtraListElement479,
 																											expr: &choiceExpr{
-																												pos: position{line: 2914, col: 13, offset: 92007},
+																												pos: position{line: 2914, col: 13, offset: 92002},
 																												alternatives: []interface{}{
 																													&litMatcher{
-																														pos:        position{line: 2914, col: 13, offset: 92007},
+																														pos:        position{line: 2914, col: 13, offset: 92002},
 																														val:        "\n",
 																														ignoreCase: false,
 																														want:       "\"\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2914, col: 20, offset: 92014},
+																														pos:        position{line: 2914, col: 20, offset: 92009},
 																														val:        "\r\n",
 																														ignoreCase: false,
 																														want:       "\"\\r\\n\"",
 																													},
 																													&litMatcher{
-																														pos:        position{line: 2914, col: 29, offset: 92023},
+																														pos:        position{line: 2914, col: 29, offset: 92018},
 																														val:        "\r",
 																														ignoreCase: false,
 																														want:       "\"\\r\"",
@@ -28361,9 +28361,9 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2924, col: 8, offset: 92183},
+																											pos: position{line: 2924, col: 8, offset: 92178},
 																											expr: &anyMatcher{
-																												line: 2924, col: 9, offset: 92184,
+																												line: 2924, col: 9, offset: 92179,
 																											},
 																										},
 																									},
@@ -28384,40 +28384,40 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1523, col: 11, offset: 49405},
+										pos:  position{line: 1523, col: 11, offset: 49400},
 										name: "ListContinuation",
 									},
 									&actionExpr{
-										pos: position{line: 2497, col: 22, offset: 80369},
+										pos: position{line: 2497, col: 22, offset: 80364},
 										run: (*parser).callonExtraListElement487,
 										expr: &seqExpr{
-											pos: position{line: 2497, col: 22, offset: 80369},
+											pos: position{line: 2497, col: 22, offset: 80364},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2502, col: 31, offset: 80590},
+													pos:        position{line: 2502, col: 31, offset: 80585},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2502, col: 36, offset: 80595},
+													pos: position{line: 2502, col: 36, offset: 80590},
 													expr: &litMatcher{
-														pos:        position{line: 2502, col: 37, offset: 80596},
+														pos:        position{line: 2502, col: 37, offset: 80591},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2497, col: 49, offset: 80396},
+													pos:   position{line: 2497, col: 49, offset: 80391},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2851, col: 13, offset: 90361},
+														pos: position{line: 2851, col: 13, offset: 90356},
 														run: (*parser).callonExtraListElement493,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2851, col: 13, offset: 90361},
+															pos: position{line: 2851, col: 13, offset: 90356},
 															expr: &charClassMatcher{
-																pos:        position{line: 2851, col: 13, offset: 90361},
+																pos:        position{line: 2851, col: 13, offset: 90356},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -28427,28 +28427,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2927, col: 8, offset: 92233},
+													pos: position{line: 2927, col: 8, offset: 92228},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2914, col: 12, offset: 92006},
+															pos: position{line: 2914, col: 12, offset: 92001},
 															run: (*parser).callonExtraListElement497,
 															expr: &choiceExpr{
-																pos: position{line: 2914, col: 13, offset: 92007},
+																pos: position{line: 2914, col: 13, offset: 92002},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 13, offset: 92007},
+																		pos:        position{line: 2914, col: 13, offset: 92002},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 20, offset: 92014},
+																		pos:        position{line: 2914, col: 20, offset: 92009},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 29, offset: 92023},
+																		pos:        position{line: 2914, col: 29, offset: 92018},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -28457,9 +28457,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2924, col: 8, offset: 92183},
+															pos: position{line: 2924, col: 8, offset: 92178},
 															expr: &anyMatcher{
-																line: 2924, col: 9, offset: 92184,
+																line: 2924, col: 9, offset: 92179,
 															},
 														},
 													},
@@ -28468,13 +28468,13 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1531, col: 5, offset: 49683},
+										pos: position{line: 1531, col: 5, offset: 49678},
 										run: (*parser).callonExtraListElement504,
 										expr: &seqExpr{
-											pos: position{line: 1531, col: 5, offset: 49683},
+											pos: position{line: 1531, col: 5, offset: 49678},
 											exprs: []interface{}{
 												&notExpr{
-													pos: position{line: 1531, col: 5, offset: 49683},
+													pos: position{line: 1531, col: 5, offset: 49678},
 													expr: &actionExpr{
 														pos: position{line: 687, col: 14, offset: 21867},
 														run: (*parser).callonExtraListElement507,
@@ -28482,18 +28482,18 @@ var g = &grammar{
 															pos: position{line: 687, col: 14, offset: 21867},
 															exprs: []interface{}{
 																&andExpr{
-																	pos: position{line: 2922, col: 11, offset: 92169},
+																	pos: position{line: 2922, col: 11, offset: 92164},
 																	expr: &anyMatcher{
-																		line: 2922, col: 13, offset: 92171,
+																		line: 2922, col: 13, offset: 92166,
 																	},
 																},
 																&zeroOrMoreExpr{
 																	pos: position{line: 687, col: 21, offset: 21874},
 																	expr: &actionExpr{
-																		pos: position{line: 2905, col: 10, offset: 91835},
+																		pos: position{line: 2905, col: 10, offset: 91830},
 																		run: (*parser).callonExtraListElement512,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 91835},
+																			pos:        position{line: 2905, col: 10, offset: 91830},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28502,28 +28502,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonExtraListElement515,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -28532,9 +28532,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -28544,23 +28544,23 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1532, col: 5, offset: 49698},
+													pos: position{line: 1532, col: 5, offset: 49693},
 													expr: &seqExpr{
-														pos: position{line: 1562, col: 27, offset: 50524},
+														pos: position{line: 1562, col: 27, offset: 50519},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 1562, col: 27, offset: 50524},
+																pos:        position{line: 1562, col: 27, offset: 50519},
 																val:        "+",
 																ignoreCase: false,
 																want:       "\"+\"",
 															},
 															&zeroOrMoreExpr{
-																pos: position{line: 1562, col: 31, offset: 50528},
+																pos: position{line: 1562, col: 31, offset: 50523},
 																expr: &actionExpr{
-																	pos: position{line: 2905, col: 10, offset: 91835},
+																	pos: position{line: 2905, col: 10, offset: 91830},
 																	run: (*parser).callonExtraListElement526,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2905, col: 10, offset: 91835},
+																		pos:        position{line: 2905, col: 10, offset: 91830},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -28569,25 +28569,25 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2914, col: 12, offset: 92006},
+																pos: position{line: 2914, col: 12, offset: 92001},
 																run: (*parser).callonExtraListElement528,
 																expr: &choiceExpr{
-																	pos: position{line: 2914, col: 13, offset: 92007},
+																	pos: position{line: 2914, col: 13, offset: 92002},
 																	alternatives: []interface{}{
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 13, offset: 92007},
+																			pos:        position{line: 2914, col: 13, offset: 92002},
 																			val:        "\n",
 																			ignoreCase: false,
 																			want:       "\"\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 20, offset: 92014},
+																			pos:        position{line: 2914, col: 20, offset: 92009},
 																			val:        "\r\n",
 																			ignoreCase: false,
 																			want:       "\"\\r\\n\"",
 																		},
 																		&litMatcher{
-																			pos:        position{line: 2914, col: 29, offset: 92023},
+																			pos:        position{line: 2914, col: 29, offset: 92018},
 																			val:        "\r",
 																			ignoreCase: false,
 																			want:       "\"\\r\"",
@@ -28599,20 +28599,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1533, col: 5, offset: 49726},
+													pos: position{line: 1533, col: 5, offset: 49721},
 													expr: &actionExpr{
-														pos: position{line: 1603, col: 5, offset: 51743},
+														pos: position{line: 1603, col: 5, offset: 51738},
 														run: (*parser).callonExtraListElement534,
 														expr: &seqExpr{
-															pos: position{line: 1603, col: 5, offset: 51743},
+															pos: position{line: 1603, col: 5, offset: 51738},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1603, col: 5, offset: 51743},
+																	pos: position{line: 1603, col: 5, offset: 51738},
 																	expr: &actionExpr{
-																		pos: position{line: 2905, col: 10, offset: 91835},
+																		pos: position{line: 2905, col: 10, offset: 91830},
 																		run: (*parser).callonExtraListElement537,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 91835},
+																			pos:        position{line: 2905, col: 10, offset: 91830},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28621,27 +28621,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1603, col: 12, offset: 51750},
+																	pos:   position{line: 1603, col: 12, offset: 51745},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1605, col: 9, offset: 51813},
+																		pos: position{line: 1605, col: 9, offset: 51808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1605, col: 9, offset: 51813},
+																				pos: position{line: 1605, col: 9, offset: 51808},
 																				run: (*parser).callonExtraListElement541,
 																				expr: &seqExpr{
-																					pos: position{line: 1605, col: 9, offset: 51813},
+																					pos: position{line: 1605, col: 9, offset: 51808},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1605, col: 9, offset: 51813},
+																							pos:   position{line: 1605, col: 9, offset: 51808},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1605, col: 16, offset: 51820},
+																								pos: position{line: 1605, col: 16, offset: 51815},
 																								run: (*parser).callonExtraListElement544,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1605, col: 16, offset: 51820},
+																									pos: position{line: 1605, col: 16, offset: 51815},
 																									expr: &litMatcher{
-																										pos:        position{line: 1605, col: 17, offset: 51821},
+																										pos:        position{line: 1605, col: 17, offset: 51816},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -28650,22 +28650,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1609, col: 9, offset: 51921},
+																							pos: position{line: 1609, col: 9, offset: 51916},
 																							run: (*parser).callonExtraListElement547,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1628, col: 11, offset: 52638},
+																				pos: position{line: 1628, col: 11, offset: 52633},
 																				run: (*parser).callonExtraListElement548,
 																				expr: &seqExpr{
-																					pos: position{line: 1628, col: 11, offset: 52638},
+																					pos: position{line: 1628, col: 11, offset: 52633},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1628, col: 11, offset: 52638},
+																							pos: position{line: 1628, col: 11, offset: 52633},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1628, col: 12, offset: 52639},
+																								pos:        position{line: 1628, col: 12, offset: 52634},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -28673,7 +28673,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1628, col: 20, offset: 52647},
+																							pos:        position{line: 1628, col: 20, offset: 52642},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28682,20 +28682,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1630, col: 13, offset: 52764},
+																				pos: position{line: 1630, col: 13, offset: 52759},
 																				run: (*parser).callonExtraListElement553,
 																				expr: &seqExpr{
-																					pos: position{line: 1630, col: 13, offset: 52764},
+																					pos: position{line: 1630, col: 13, offset: 52759},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1630, col: 14, offset: 52765},
+																							pos:        position{line: 1630, col: 14, offset: 52760},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1630, col: 21, offset: 52772},
+																							pos:        position{line: 1630, col: 21, offset: 52767},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28704,20 +28704,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1632, col: 13, offset: 52892},
+																				pos: position{line: 1632, col: 13, offset: 52887},
 																				run: (*parser).callonExtraListElement557,
 																				expr: &seqExpr{
-																					pos: position{line: 1632, col: 13, offset: 52892},
+																					pos: position{line: 1632, col: 13, offset: 52887},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1632, col: 14, offset: 52893},
+																							pos:        position{line: 1632, col: 14, offset: 52888},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1632, col: 21, offset: 52900},
+																							pos:        position{line: 1632, col: 21, offset: 52895},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -28726,15 +28726,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1634, col: 13, offset: 53020},
+																				pos: position{line: 1634, col: 13, offset: 53015},
 																				run: (*parser).callonExtraListElement561,
 																				expr: &seqExpr{
-																					pos: position{line: 1634, col: 13, offset: 53020},
+																					pos: position{line: 1634, col: 13, offset: 53015},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1634, col: 13, offset: 53020},
+																							pos: position{line: 1634, col: 13, offset: 53015},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1634, col: 14, offset: 53021},
+																								pos:        position{line: 1634, col: 14, offset: 53016},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -28742,7 +28742,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1634, col: 26, offset: 53033},
+																							pos:        position{line: 1634, col: 26, offset: 53028},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28751,15 +28751,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1636, col: 13, offset: 53153},
+																				pos: position{line: 1636, col: 13, offset: 53148},
 																				run: (*parser).callonExtraListElement566,
 																				expr: &seqExpr{
-																					pos: position{line: 1636, col: 13, offset: 53153},
+																					pos: position{line: 1636, col: 13, offset: 53148},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1636, col: 13, offset: 53153},
+																							pos: position{line: 1636, col: 13, offset: 53148},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1636, col: 14, offset: 53154},
+																								pos:        position{line: 1636, col: 14, offset: 53149},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -28767,7 +28767,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1636, col: 26, offset: 53166},
+																							pos:        position{line: 1636, col: 26, offset: 53161},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -28779,12 +28779,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2909, col: 11, offset: 91896},
+																	pos: position{line: 2909, col: 11, offset: 91891},
 																	run: (*parser).callonExtraListElement571,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2909, col: 11, offset: 91896},
+																		pos: position{line: 2909, col: 11, offset: 91891},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 11, offset: 91896},
+																			pos:        position{line: 2909, col: 11, offset: 91891},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28797,20 +28797,20 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1534, col: 5, offset: 49756},
+													pos: position{line: 1534, col: 5, offset: 49751},
 													expr: &actionExpr{
-														pos: position{line: 1653, col: 5, offset: 53705},
+														pos: position{line: 1653, col: 5, offset: 53700},
 														run: (*parser).callonExtraListElement575,
 														expr: &seqExpr{
-															pos: position{line: 1653, col: 5, offset: 53705},
+															pos: position{line: 1653, col: 5, offset: 53700},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1653, col: 5, offset: 53705},
+																	pos: position{line: 1653, col: 5, offset: 53700},
 																	expr: &actionExpr{
-																		pos: position{line: 2905, col: 10, offset: 91835},
+																		pos: position{line: 2905, col: 10, offset: 91830},
 																		run: (*parser).callonExtraListElement578,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 91835},
+																			pos:        position{line: 2905, col: 10, offset: 91830},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28819,24 +28819,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1654, col: 5, offset: 53717},
+																	pos:   position{line: 1654, col: 5, offset: 53712},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1655, col: 9, offset: 53733},
+																		pos: position{line: 1655, col: 9, offset: 53728},
 																		run: (*parser).callonExtraListElement581,
 																		expr: &choiceExpr{
-																			pos: position{line: 1655, col: 10, offset: 53734},
+																			pos: position{line: 1655, col: 10, offset: 53729},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1655, col: 11, offset: 53735},
+																					pos:        position{line: 1655, col: 11, offset: 53730},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1655, col: 18, offset: 53742},
+																					pos: position{line: 1655, col: 18, offset: 53737},
 																					expr: &litMatcher{
-																						pos:        position{line: 1655, col: 19, offset: 53743},
+																						pos:        position{line: 1655, col: 19, offset: 53738},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -28847,16 +28847,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1658, col: 7, offset: 53833},
+																	pos: position{line: 1658, col: 7, offset: 53828},
 																	run: (*parser).callonExtraListElement586,
 																},
 																&actionExpr{
-																	pos: position{line: 2909, col: 11, offset: 91896},
+																	pos: position{line: 2909, col: 11, offset: 91891},
 																	run: (*parser).callonExtraListElement587,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2909, col: 11, offset: 91896},
+																		pos: position{line: 2909, col: 11, offset: 91891},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 11, offset: 91896},
+																			pos:        position{line: 2909, col: 11, offset: 91891},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28869,29 +28869,29 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1535, col: 5, offset: 49788},
+													pos: position{line: 1535, col: 5, offset: 49783},
 													expr: &actionExpr{
-														pos: position{line: 1743, col: 5, offset: 56274},
+														pos: position{line: 1743, col: 5, offset: 56269},
 														run: (*parser).callonExtraListElement591,
 														expr: &seqExpr{
-															pos: position{line: 1743, col: 5, offset: 56274},
+															pos: position{line: 1743, col: 5, offset: 56269},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1743, col: 5, offset: 56274},
+																	pos:        position{line: 1743, col: 5, offset: 56269},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1743, col: 9, offset: 56278},
+																	pos:   position{line: 1743, col: 9, offset: 56273},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1743, col: 14, offset: 56283},
+																		pos: position{line: 1743, col: 14, offset: 56278},
 																		run: (*parser).callonExtraListElement595,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1743, col: 14, offset: 56283},
+																			pos: position{line: 1743, col: 14, offset: 56278},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1743, col: 14, offset: 56283},
+																				pos:        position{line: 1743, col: 14, offset: 56278},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -28901,18 +28901,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1743, col: 62, offset: 56331},
+																	pos:        position{line: 1743, col: 62, offset: 56326},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2909, col: 11, offset: 91896},
+																	pos: position{line: 2909, col: 11, offset: 91891},
 																	run: (*parser).callonExtraListElement599,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2909, col: 11, offset: 91896},
+																		pos: position{line: 2909, col: 11, offset: 91891},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 11, offset: 91896},
+																			pos:        position{line: 2909, col: 11, offset: 91891},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -28925,31 +28925,31 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1536, col: 5, offset: 49818},
+													pos: position{line: 1536, col: 5, offset: 49813},
 													expr: &seqExpr{
-														pos: position{line: 1536, col: 7, offset: 49820},
+														pos: position{line: 1536, col: 7, offset: 49815},
 														exprs: []interface{}{
 															&actionExpr{
-																pos: position{line: 1688, col: 5, offset: 54724},
+																pos: position{line: 1688, col: 5, offset: 54719},
 																run: (*parser).callonExtraListElement604,
 																expr: &seqExpr{
-																	pos: position{line: 1688, col: 5, offset: 54724},
+																	pos: position{line: 1688, col: 5, offset: 54719},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1688, col: 5, offset: 54724},
+																			pos: position{line: 1688, col: 5, offset: 54719},
 																			expr: &seqExpr{
-																				pos: position{line: 2502, col: 31, offset: 80590},
+																				pos: position{line: 2502, col: 31, offset: 80585},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2502, col: 31, offset: 80590},
+																						pos:        position{line: 2502, col: 31, offset: 80585},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2502, col: 36, offset: 80595},
+																						pos: position{line: 2502, col: 36, offset: 80590},
 																						expr: &litMatcher{
-																							pos:        position{line: 2502, col: 37, offset: 80596},
+																							pos:        position{line: 2502, col: 37, offset: 80591},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
@@ -28959,28 +28959,28 @@ var g = &grammar{
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 1689, col: 5, offset: 54756},
+																			pos: position{line: 1689, col: 5, offset: 54751},
 																			expr: &seqExpr{
-																				pos: position{line: 1689, col: 6, offset: 54757},
+																				pos: position{line: 1689, col: 6, offset: 54752},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1689, col: 6, offset: 54757},
+																						pos: position{line: 1689, col: 6, offset: 54752},
 																						expr: &actionExpr{
-																							pos: position{line: 1694, col: 5, offset: 54907},
+																							pos: position{line: 1694, col: 5, offset: 54902},
 																							run: (*parser).callonExtraListElement614,
 																							expr: &seqExpr{
-																								pos: position{line: 1694, col: 5, offset: 54907},
+																								pos: position{line: 1694, col: 5, offset: 54902},
 																								exprs: []interface{}{
 																									&labeledExpr{
-																										pos:   position{line: 1694, col: 5, offset: 54907},
+																										pos:   position{line: 1694, col: 5, offset: 54902},
 																										label: "separator",
 																										expr: &actionExpr{
-																											pos: position{line: 1694, col: 16, offset: 54918},
+																											pos: position{line: 1694, col: 16, offset: 54913},
 																											run: (*parser).callonExtraListElement617,
 																											expr: &oneOrMoreExpr{
-																												pos: position{line: 1694, col: 16, offset: 54918},
+																												pos: position{line: 1694, col: 16, offset: 54913},
 																												expr: &litMatcher{
-																													pos:        position{line: 1694, col: 17, offset: 54919},
+																													pos:        position{line: 1694, col: 17, offset: 54914},
 																													val:        ":",
 																													ignoreCase: false,
 																													want:       "\":\"",
@@ -28989,7 +28989,7 @@ var g = &grammar{
 																										},
 																									},
 																									&andCodeExpr{
-																										pos: position{line: 1697, col: 5, offset: 54976},
+																										pos: position{line: 1697, col: 5, offset: 54971},
 																										run: (*parser).callonExtraListElement620,
 																									},
 																								},
@@ -28997,30 +28997,30 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1689, col: 35, offset: 54786},
+																						pos: position{line: 1689, col: 35, offset: 54781},
 																						expr: &choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonExtraListElement623,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29029,16 +29029,16 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1689, col: 40, offset: 54791,
+																						line: 1689, col: 40, offset: 54786,
 																					},
 																				},
 																			},
@@ -29047,21 +29047,21 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1694, col: 5, offset: 54907},
+																pos: position{line: 1694, col: 5, offset: 54902},
 																run: (*parser).callonExtraListElement631,
 																expr: &seqExpr{
-																	pos: position{line: 1694, col: 5, offset: 54907},
+																	pos: position{line: 1694, col: 5, offset: 54902},
 																	exprs: []interface{}{
 																		&labeledExpr{
-																			pos:   position{line: 1694, col: 5, offset: 54907},
+																			pos:   position{line: 1694, col: 5, offset: 54902},
 																			label: "separator",
 																			expr: &actionExpr{
-																				pos: position{line: 1694, col: 16, offset: 54918},
+																				pos: position{line: 1694, col: 16, offset: 54913},
 																				run: (*parser).callonExtraListElement634,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1694, col: 16, offset: 54918},
+																					pos: position{line: 1694, col: 16, offset: 54913},
 																					expr: &litMatcher{
-																						pos:        position{line: 1694, col: 17, offset: 54919},
+																						pos:        position{line: 1694, col: 17, offset: 54914},
 																						val:        ":",
 																						ignoreCase: false,
 																						want:       "\":\"",
@@ -29070,7 +29070,7 @@ var g = &grammar{
 																			},
 																		},
 																		&andCodeExpr{
-																			pos: position{line: 1697, col: 5, offset: 54976},
+																			pos: position{line: 1697, col: 5, offset: 54971},
 																			run: (*parser).callonExtraListElement637,
 																		},
 																	},
@@ -29080,7 +29080,7 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 1537, col: 5, offset: 49876},
+													pos: position{line: 1537, col: 5, offset: 49871},
 													expr: &actionExpr{
 														pos: position{line: 738, col: 5, offset: 23528},
 														run: (*parser).callonExtraListElement639,
@@ -29090,7 +29090,7 @@ var g = &grammar{
 																&notExpr{
 																	pos: position{line: 738, col: 5, offset: 23528},
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2795, col: 13, offset: 88930},
+																		pos:        position{line: 2795, col: 13, offset: 88925},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
@@ -29140,10 +29140,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24172},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonExtraListElement654,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29152,28 +29152,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonExtraListElement657,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29182,9 +29182,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -29229,10 +29229,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 763, col: 8, offset: 24420},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonExtraListElement673,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29241,28 +29241,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonExtraListElement676,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29271,9 +29271,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -29314,10 +29314,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 774, col: 52, offset: 24832},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonExtraListElement691,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29326,28 +29326,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonExtraListElement694,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29356,9 +29356,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -29403,10 +29403,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 770, col: 8, offset: 24666},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonExtraListElement710,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29415,28 +29415,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonExtraListElement713,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29445,9 +29445,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -29492,10 +29492,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25204},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonExtraListElement729,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29504,28 +29504,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonExtraListElement732,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29534,9 +29534,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -29581,10 +29581,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25680},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonExtraListElement748,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29593,28 +29593,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonExtraListElement751,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29623,9 +29623,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -29670,10 +29670,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25932},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonExtraListElement767,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29682,28 +29682,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonExtraListElement770,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29712,9 +29712,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -29759,10 +29759,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 813, col: 8, offset: 26182},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonExtraListElement786,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29771,28 +29771,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonExtraListElement789,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29801,9 +29801,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -29848,10 +29848,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 820, col: 8, offset: 26428},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonExtraListElement805,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -29860,28 +29860,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonExtraListElement808,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -29890,9 +29890,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -29908,15 +29908,15 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1538, col: 5, offset: 49896},
+													pos:   position{line: 1538, col: 5, offset: 49891},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2855, col: 14, offset: 90428},
+														pos: position{line: 2855, col: 14, offset: 90423},
 														run: (*parser).callonExtraListElement816,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2855, col: 14, offset: 90428},
+															pos: position{line: 2855, col: 14, offset: 90423},
 															expr: &charClassMatcher{
-																pos:        position{line: 2855, col: 14, offset: 90428},
+																pos:        position{line: 2855, col: 14, offset: 90423},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -29926,28 +29926,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2927, col: 8, offset: 92233},
+													pos: position{line: 2927, col: 8, offset: 92228},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2914, col: 12, offset: 92006},
+															pos: position{line: 2914, col: 12, offset: 92001},
 															run: (*parser).callonExtraListElement820,
 															expr: &choiceExpr{
-																pos: position{line: 2914, col: 13, offset: 92007},
+																pos: position{line: 2914, col: 13, offset: 92002},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 13, offset: 92007},
+																		pos:        position{line: 2914, col: 13, offset: 92002},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 20, offset: 92014},
+																		pos:        position{line: 2914, col: 20, offset: 92009},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 29, offset: 92023},
+																		pos:        position{line: 2914, col: 29, offset: 92018},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -29956,9 +29956,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2924, col: 8, offset: 92183},
+															pos: position{line: 2924, col: 8, offset: 92178},
 															expr: &anyMatcher{
-																line: 2924, col: 9, offset: 92184,
+																line: 2924, col: 9, offset: 92179,
 															},
 														},
 													},
@@ -29975,28 +29975,28 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuation",
-			pos:  position{line: 1554, col: 1, offset: 50287},
+			pos:  position{line: 1554, col: 1, offset: 50282},
 			expr: &actionExpr{
-				pos: position{line: 1555, col: 5, offset: 50312},
+				pos: position{line: 1555, col: 5, offset: 50307},
 				run: (*parser).callonListContinuation1,
 				expr: &seqExpr{
-					pos: position{line: 1555, col: 5, offset: 50312},
+					pos: position{line: 1555, col: 5, offset: 50307},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1555, col: 5, offset: 50312},
+							pos:   position{line: 1555, col: 5, offset: 50307},
 							label: "offset",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1555, col: 12, offset: 50319},
+								pos: position{line: 1555, col: 12, offset: 50314},
 								expr: &seqExpr{
-									pos: position{line: 1555, col: 13, offset: 50320},
+									pos: position{line: 1555, col: 13, offset: 50315},
 									exprs: []interface{}{
 										&zeroOrMoreExpr{
-											pos: position{line: 1555, col: 13, offset: 50320},
+											pos: position{line: 1555, col: 13, offset: 50315},
 											expr: &actionExpr{
-												pos: position{line: 2905, col: 10, offset: 91835},
+												pos: position{line: 2905, col: 10, offset: 91830},
 												run: (*parser).callonListContinuation7,
 												expr: &charClassMatcher{
-													pos:        position{line: 2905, col: 10, offset: 91835},
+													pos:        position{line: 2905, col: 10, offset: 91830},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -30005,25 +30005,25 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2914, col: 12, offset: 92006},
+											pos: position{line: 2914, col: 12, offset: 92001},
 											run: (*parser).callonListContinuation9,
 											expr: &choiceExpr{
-												pos: position{line: 2914, col: 13, offset: 92007},
+												pos: position{line: 2914, col: 13, offset: 92002},
 												alternatives: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2914, col: 13, offset: 92007},
+														pos:        position{line: 2914, col: 13, offset: 92002},
 														val:        "\n",
 														ignoreCase: false,
 														want:       "\"\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2914, col: 20, offset: 92014},
+														pos:        position{line: 2914, col: 20, offset: 92009},
 														val:        "\r\n",
 														ignoreCase: false,
 														want:       "\"\\r\\n\"",
 													},
 													&litMatcher{
-														pos:        position{line: 2914, col: 29, offset: 92023},
+														pos:        position{line: 2914, col: 29, offset: 92018},
 														val:        "\r",
 														ignoreCase: false,
 														want:       "\"\\r\"",
@@ -30036,18 +30036,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1562, col: 27, offset: 50524},
+							pos:        position{line: 1562, col: 27, offset: 50519},
 							val:        "+",
 							ignoreCase: false,
 							want:       "\"+\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1562, col: 31, offset: 50528},
+							pos: position{line: 1562, col: 31, offset: 50523},
 							expr: &actionExpr{
-								pos: position{line: 2905, col: 10, offset: 91835},
+								pos: position{line: 2905, col: 10, offset: 91830},
 								run: (*parser).callonListContinuation16,
 								expr: &charClassMatcher{
-									pos:        position{line: 2905, col: 10, offset: 91835},
+									pos:        position{line: 2905, col: 10, offset: 91830},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -30056,25 +30056,25 @@ var g = &grammar{
 							},
 						},
 						&actionExpr{
-							pos: position{line: 2914, col: 12, offset: 92006},
+							pos: position{line: 2914, col: 12, offset: 92001},
 							run: (*parser).callonListContinuation18,
 							expr: &choiceExpr{
-								pos: position{line: 2914, col: 13, offset: 92007},
+								pos: position{line: 2914, col: 13, offset: 92002},
 								alternatives: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2914, col: 13, offset: 92007},
+										pos:        position{line: 2914, col: 13, offset: 92002},
 										val:        "\n",
 										ignoreCase: false,
 										want:       "\"\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2914, col: 20, offset: 92014},
+										pos:        position{line: 2914, col: 20, offset: 92009},
 										val:        "\r\n",
 										ignoreCase: false,
 										want:       "\"\\r\\n\"",
 									},
 									&litMatcher{
-										pos:        position{line: 2914, col: 29, offset: 92023},
+										pos:        position{line: 2914, col: 29, offset: 92018},
 										val:        "\r",
 										ignoreCase: false,
 										want:       "\"\\r\"",
@@ -30083,12 +30083,12 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1557, col: 5, offset: 50369},
+							pos:   position{line: 1557, col: 5, offset: 50364},
 							label: "element",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1557, col: 13, offset: 50377},
+								pos: position{line: 1557, col: 13, offset: 50372},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1557, col: 13, offset: 50377},
+									pos:  position{line: 1557, col: 13, offset: 50372},
 									name: "ListContinuationElement",
 								},
 							},
@@ -30099,46 +30099,46 @@ var g = &grammar{
 		},
 		{
 			name: "ListContinuationElement",
-			pos:  position{line: 1564, col: 1, offset: 50544},
+			pos:  position{line: 1564, col: 1, offset: 50539},
 			expr: &actionExpr{
-				pos: position{line: 1565, col: 5, offset: 50615},
+				pos: position{line: 1565, col: 5, offset: 50610},
 				run: (*parser).callonListContinuationElement1,
 				expr: &seqExpr{
-					pos: position{line: 1565, col: 5, offset: 50615},
+					pos: position{line: 1565, col: 5, offset: 50610},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2922, col: 11, offset: 92169},
+							pos: position{line: 2922, col: 11, offset: 92164},
 							expr: &anyMatcher{
-								line: 2922, col: 13, offset: 92171,
+								line: 2922, col: 13, offset: 92166,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1566, col: 5, offset: 50643},
+							pos: position{line: 1566, col: 5, offset: 50638},
 							expr: &choiceExpr{
-								pos: position{line: 1503, col: 5, offset: 48601},
+								pos: position{line: 1503, col: 5, offset: 48596},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1596, col: 5, offset: 51535},
+										pos: position{line: 1596, col: 5, offset: 51530},
 										run: (*parser).callonListContinuationElement7,
 										expr: &seqExpr{
-											pos: position{line: 1596, col: 5, offset: 51535},
+											pos: position{line: 1596, col: 5, offset: 51530},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1596, col: 5, offset: 51535},
+													pos:   position{line: 1596, col: 5, offset: 51530},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1603, col: 5, offset: 51743},
+														pos: position{line: 1603, col: 5, offset: 51738},
 														run: (*parser).callonListContinuationElement10,
 														expr: &seqExpr{
-															pos: position{line: 1603, col: 5, offset: 51743},
+															pos: position{line: 1603, col: 5, offset: 51738},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1603, col: 5, offset: 51743},
+																	pos: position{line: 1603, col: 5, offset: 51738},
 																	expr: &actionExpr{
-																		pos: position{line: 2905, col: 10, offset: 91835},
+																		pos: position{line: 2905, col: 10, offset: 91830},
 																		run: (*parser).callonListContinuationElement13,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 91835},
+																			pos:        position{line: 2905, col: 10, offset: 91830},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30147,27 +30147,27 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1603, col: 12, offset: 51750},
+																	pos:   position{line: 1603, col: 12, offset: 51745},
 																	label: "prefix",
 																	expr: &choiceExpr{
-																		pos: position{line: 1605, col: 9, offset: 51813},
+																		pos: position{line: 1605, col: 9, offset: 51808},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1605, col: 9, offset: 51813},
+																				pos: position{line: 1605, col: 9, offset: 51808},
 																				run: (*parser).callonListContinuationElement17,
 																				expr: &seqExpr{
-																					pos: position{line: 1605, col: 9, offset: 51813},
+																					pos: position{line: 1605, col: 9, offset: 51808},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1605, col: 9, offset: 51813},
+																							pos:   position{line: 1605, col: 9, offset: 51808},
 																							label: "depth",
 																							expr: &actionExpr{
-																								pos: position{line: 1605, col: 16, offset: 51820},
+																								pos: position{line: 1605, col: 16, offset: 51815},
 																								run: (*parser).callonListContinuationElement20,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1605, col: 16, offset: 51820},
+																									pos: position{line: 1605, col: 16, offset: 51815},
 																									expr: &litMatcher{
-																										pos:        position{line: 1605, col: 17, offset: 51821},
+																										pos:        position{line: 1605, col: 17, offset: 51816},
 																										val:        ".",
 																										ignoreCase: false,
 																										want:       "\".\"",
@@ -30176,22 +30176,22 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1609, col: 9, offset: 51921},
+																							pos: position{line: 1609, col: 9, offset: 51916},
 																							run: (*parser).callonListContinuationElement23,
 																						},
 																					},
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1628, col: 11, offset: 52638},
+																				pos: position{line: 1628, col: 11, offset: 52633},
 																				run: (*parser).callonListContinuationElement24,
 																				expr: &seqExpr{
-																					pos: position{line: 1628, col: 11, offset: 52638},
+																					pos: position{line: 1628, col: 11, offset: 52633},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1628, col: 11, offset: 52638},
+																							pos: position{line: 1628, col: 11, offset: 52633},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1628, col: 12, offset: 52639},
+																								pos:        position{line: 1628, col: 12, offset: 52634},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -30199,7 +30199,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1628, col: 20, offset: 52647},
+																							pos:        position{line: 1628, col: 20, offset: 52642},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30208,20 +30208,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1630, col: 13, offset: 52764},
+																				pos: position{line: 1630, col: 13, offset: 52759},
 																				run: (*parser).callonListContinuationElement29,
 																				expr: &seqExpr{
-																					pos: position{line: 1630, col: 13, offset: 52764},
+																					pos: position{line: 1630, col: 13, offset: 52759},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1630, col: 14, offset: 52765},
+																							pos:        position{line: 1630, col: 14, offset: 52760},
 																							val:        "[a-z]",
 																							ranges:     []rune{'a', 'z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1630, col: 21, offset: 52772},
+																							pos:        position{line: 1630, col: 21, offset: 52767},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30230,20 +30230,20 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1632, col: 13, offset: 52892},
+																				pos: position{line: 1632, col: 13, offset: 52887},
 																				run: (*parser).callonListContinuationElement33,
 																				expr: &seqExpr{
-																					pos: position{line: 1632, col: 13, offset: 52892},
+																					pos: position{line: 1632, col: 13, offset: 52887},
 																					exprs: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 1632, col: 14, offset: 52893},
+																							pos:        position{line: 1632, col: 14, offset: 52888},
 																							val:        "[A-Z]",
 																							ranges:     []rune{'A', 'Z'},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1632, col: 21, offset: 52900},
+																							pos:        position{line: 1632, col: 21, offset: 52895},
 																							val:        ".",
 																							ignoreCase: false,
 																							want:       "\".\"",
@@ -30252,15 +30252,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1634, col: 13, offset: 53020},
+																				pos: position{line: 1634, col: 13, offset: 53015},
 																				run: (*parser).callonListContinuationElement37,
 																				expr: &seqExpr{
-																					pos: position{line: 1634, col: 13, offset: 53020},
+																					pos: position{line: 1634, col: 13, offset: 53015},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1634, col: 13, offset: 53020},
+																							pos: position{line: 1634, col: 13, offset: 53015},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1634, col: 14, offset: 53021},
+																								pos:        position{line: 1634, col: 14, offset: 53016},
 																								val:        "[ivxdlcm]",
 																								chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																								ignoreCase: false,
@@ -30268,7 +30268,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1634, col: 26, offset: 53033},
+																							pos:        position{line: 1634, col: 26, offset: 53028},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30277,15 +30277,15 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1636, col: 13, offset: 53153},
+																				pos: position{line: 1636, col: 13, offset: 53148},
 																				run: (*parser).callonListContinuationElement42,
 																				expr: &seqExpr{
-																					pos: position{line: 1636, col: 13, offset: 53153},
+																					pos: position{line: 1636, col: 13, offset: 53148},
 																					exprs: []interface{}{
 																						&oneOrMoreExpr{
-																							pos: position{line: 1636, col: 13, offset: 53153},
+																							pos: position{line: 1636, col: 13, offset: 53148},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1636, col: 14, offset: 53154},
+																								pos:        position{line: 1636, col: 14, offset: 53149},
 																								val:        "[IVXDLCM]",
 																								chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																								ignoreCase: false,
@@ -30293,7 +30293,7 @@ var g = &grammar{
 																							},
 																						},
 																						&litMatcher{
-																							pos:        position{line: 1636, col: 26, offset: 53166},
+																							pos:        position{line: 1636, col: 26, offset: 53161},
 																							val:        ")",
 																							ignoreCase: false,
 																							want:       "\")\"",
@@ -30305,12 +30305,12 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 2909, col: 11, offset: 91896},
+																	pos: position{line: 2909, col: 11, offset: 91891},
 																	run: (*parser).callonListContinuationElement47,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2909, col: 11, offset: 91896},
+																		pos: position{line: 2909, col: 11, offset: 91891},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 11, offset: 91896},
+																			pos:        position{line: 2909, col: 11, offset: 91891},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30323,26 +30323,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1597, col: 5, offset: 51574},
+													pos:   position{line: 1597, col: 5, offset: 51569},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1544, col: 5, offset: 50041},
+														pos: position{line: 1544, col: 5, offset: 50036},
 														run: (*parser).callonListContinuationElement51,
 														expr: &seqExpr{
-															pos: position{line: 1544, col: 5, offset: 50041},
+															pos: position{line: 1544, col: 5, offset: 50036},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1544, col: 5, offset: 50041},
+																	pos:   position{line: 1544, col: 5, offset: 50036},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1544, col: 14, offset: 50050},
+																		pos: position{line: 1544, col: 14, offset: 50045},
 																		expr: &actionExpr{
-																			pos: position{line: 1544, col: 15, offset: 50051},
+																			pos: position{line: 1544, col: 15, offset: 50046},
 																			run: (*parser).callonListContinuationElement55,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1544, col: 15, offset: 50051},
+																				pos: position{line: 1544, col: 15, offset: 50046},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1544, col: 15, offset: 50051},
+																					pos:        position{line: 1544, col: 15, offset: 50046},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30353,28 +30353,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonListContinuationElement59,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30383,9 +30383,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -30398,27 +30398,27 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1646, col: 5, offset: 53432},
+										pos: position{line: 1646, col: 5, offset: 53427},
 										run: (*parser).callonListContinuationElement66,
 										expr: &seqExpr{
-											pos: position{line: 1646, col: 5, offset: 53432},
+											pos: position{line: 1646, col: 5, offset: 53427},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1646, col: 5, offset: 53432},
+													pos:   position{line: 1646, col: 5, offset: 53427},
 													label: "prefix",
 													expr: &actionExpr{
-														pos: position{line: 1653, col: 5, offset: 53705},
+														pos: position{line: 1653, col: 5, offset: 53700},
 														run: (*parser).callonListContinuationElement69,
 														expr: &seqExpr{
-															pos: position{line: 1653, col: 5, offset: 53705},
+															pos: position{line: 1653, col: 5, offset: 53700},
 															exprs: []interface{}{
 																&zeroOrMoreExpr{
-																	pos: position{line: 1653, col: 5, offset: 53705},
+																	pos: position{line: 1653, col: 5, offset: 53700},
 																	expr: &actionExpr{
-																		pos: position{line: 2905, col: 10, offset: 91835},
+																		pos: position{line: 2905, col: 10, offset: 91830},
 																		run: (*parser).callonListContinuationElement72,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 91835},
+																			pos:        position{line: 2905, col: 10, offset: 91830},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30427,24 +30427,24 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1654, col: 5, offset: 53717},
+																	pos:   position{line: 1654, col: 5, offset: 53712},
 																	label: "style",
 																	expr: &actionExpr{
-																		pos: position{line: 1655, col: 9, offset: 53733},
+																		pos: position{line: 1655, col: 9, offset: 53728},
 																		run: (*parser).callonListContinuationElement75,
 																		expr: &choiceExpr{
-																			pos: position{line: 1655, col: 10, offset: 53734},
+																			pos: position{line: 1655, col: 10, offset: 53729},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1655, col: 11, offset: 53735},
+																					pos:        position{line: 1655, col: 11, offset: 53730},
 																					val:        "-",
 																					ignoreCase: false,
 																					want:       "\"-\"",
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 1655, col: 18, offset: 53742},
+																					pos: position{line: 1655, col: 18, offset: 53737},
 																					expr: &litMatcher{
-																						pos:        position{line: 1655, col: 19, offset: 53743},
+																						pos:        position{line: 1655, col: 19, offset: 53738},
 																						val:        "*",
 																						ignoreCase: false,
 																						want:       "\"*\"",
@@ -30455,16 +30455,16 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1658, col: 7, offset: 53833},
+																	pos: position{line: 1658, col: 7, offset: 53828},
 																	run: (*parser).callonListContinuationElement80,
 																},
 																&actionExpr{
-																	pos: position{line: 2909, col: 11, offset: 91896},
+																	pos: position{line: 2909, col: 11, offset: 91891},
 																	run: (*parser).callonListContinuationElement81,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2909, col: 11, offset: 91896},
+																		pos: position{line: 2909, col: 11, offset: 91891},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 11, offset: 91896},
+																			pos:        position{line: 2909, col: 11, offset: 91891},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30477,56 +30477,56 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1647, col: 5, offset: 53473},
+													pos:   position{line: 1647, col: 5, offset: 53468},
 													label: "checkstyle",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1647, col: 16, offset: 53484},
+														pos: position{line: 1647, col: 16, offset: 53479},
 														expr: &actionExpr{
-															pos: position{line: 1668, col: 5, offset: 54098},
+															pos: position{line: 1668, col: 5, offset: 54093},
 															run: (*parser).callonListContinuationElement86,
 															expr: &seqExpr{
-																pos: position{line: 1668, col: 5, offset: 54098},
+																pos: position{line: 1668, col: 5, offset: 54093},
 																exprs: []interface{}{
 																	&andExpr{
-																		pos: position{line: 1668, col: 5, offset: 54098},
+																		pos: position{line: 1668, col: 5, offset: 54093},
 																		expr: &litMatcher{
-																			pos:        position{line: 1668, col: 6, offset: 54099},
+																			pos:        position{line: 1668, col: 6, offset: 54094},
 																			val:        "[",
 																			ignoreCase: false,
 																			want:       "\"[\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1668, col: 10, offset: 54103},
+																		pos:   position{line: 1668, col: 10, offset: 54098},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1669, col: 7, offset: 54117},
+																			pos: position{line: 1669, col: 7, offset: 54112},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1669, col: 7, offset: 54117},
+																					pos: position{line: 1669, col: 7, offset: 54112},
 																					run: (*parser).callonListContinuationElement92,
 																					expr: &litMatcher{
-																						pos:        position{line: 1669, col: 7, offset: 54117},
+																						pos:        position{line: 1669, col: 7, offset: 54112},
 																						val:        "[ ]",
 																						ignoreCase: false,
 																						want:       "\"[ ]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1670, col: 7, offset: 54162},
+																					pos: position{line: 1670, col: 7, offset: 54157},
 																					run: (*parser).callonListContinuationElement94,
 																					expr: &litMatcher{
-																						pos:        position{line: 1670, col: 7, offset: 54162},
+																						pos:        position{line: 1670, col: 7, offset: 54157},
 																						val:        "[*]",
 																						ignoreCase: false,
 																						want:       "\"[*]\"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1671, col: 7, offset: 54205},
+																					pos: position{line: 1671, col: 7, offset: 54200},
 																					run: (*parser).callonListContinuationElement96,
 																					expr: &litMatcher{
-																						pos:        position{line: 1671, col: 7, offset: 54205},
+																						pos:        position{line: 1671, col: 7, offset: 54200},
 																						val:        "[x]",
 																						ignoreCase: false,
 																						want:       "\"[x]\"",
@@ -30536,12 +30536,12 @@ var g = &grammar{
 																		},
 																	},
 																	&actionExpr{
-																		pos: position{line: 2909, col: 11, offset: 91896},
+																		pos: position{line: 2909, col: 11, offset: 91891},
 																		run: (*parser).callonListContinuationElement98,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2909, col: 11, offset: 91896},
+																			pos: position{line: 2909, col: 11, offset: 91891},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2909, col: 11, offset: 91896},
+																				pos:        position{line: 2909, col: 11, offset: 91891},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -30555,26 +30555,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1648, col: 5, offset: 53523},
+													pos:   position{line: 1648, col: 5, offset: 53518},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1544, col: 5, offset: 50041},
+														pos: position{line: 1544, col: 5, offset: 50036},
 														run: (*parser).callonListContinuationElement102,
 														expr: &seqExpr{
-															pos: position{line: 1544, col: 5, offset: 50041},
+															pos: position{line: 1544, col: 5, offset: 50036},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1544, col: 5, offset: 50041},
+																	pos:   position{line: 1544, col: 5, offset: 50036},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1544, col: 14, offset: 50050},
+																		pos: position{line: 1544, col: 14, offset: 50045},
 																		expr: &actionExpr{
-																			pos: position{line: 1544, col: 15, offset: 50051},
+																			pos: position{line: 1544, col: 15, offset: 50046},
 																			run: (*parser).callonListContinuationElement106,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1544, col: 15, offset: 50051},
+																				pos: position{line: 1544, col: 15, offset: 50046},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1544, col: 15, offset: 50051},
+																					pos:        position{line: 1544, col: 15, offset: 50046},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30585,28 +30585,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonListContinuationElement110,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30615,9 +30615,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -30630,36 +30630,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1737, col: 5, offset: 56077},
+										pos: position{line: 1737, col: 5, offset: 56072},
 										run: (*parser).callonListContinuationElement117,
 										expr: &seqExpr{
-											pos: position{line: 1737, col: 5, offset: 56077},
+											pos: position{line: 1737, col: 5, offset: 56072},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1737, col: 5, offset: 56077},
+													pos:   position{line: 1737, col: 5, offset: 56072},
 													label: "ref",
 													expr: &actionExpr{
-														pos: position{line: 1743, col: 5, offset: 56274},
+														pos: position{line: 1743, col: 5, offset: 56269},
 														run: (*parser).callonListContinuationElement120,
 														expr: &seqExpr{
-															pos: position{line: 1743, col: 5, offset: 56274},
+															pos: position{line: 1743, col: 5, offset: 56269},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 1743, col: 5, offset: 56274},
+																	pos:        position{line: 1743, col: 5, offset: 56269},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 																&labeledExpr{
-																	pos:   position{line: 1743, col: 9, offset: 56278},
+																	pos:   position{line: 1743, col: 9, offset: 56273},
 																	label: "ref",
 																	expr: &actionExpr{
-																		pos: position{line: 1743, col: 14, offset: 56283},
+																		pos: position{line: 1743, col: 14, offset: 56278},
 																		run: (*parser).callonListContinuationElement124,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1743, col: 14, offset: 56283},
+																			pos: position{line: 1743, col: 14, offset: 56278},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 1743, col: 14, offset: 56283},
+																				pos:        position{line: 1743, col: 14, offset: 56278},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -30669,18 +30669,18 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 1743, col: 62, offset: 56331},
+																	pos:        position{line: 1743, col: 62, offset: 56326},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 																&actionExpr{
-																	pos: position{line: 2909, col: 11, offset: 91896},
+																	pos: position{line: 2909, col: 11, offset: 91891},
 																	run: (*parser).callonListContinuationElement128,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2909, col: 11, offset: 91896},
+																		pos: position{line: 2909, col: 11, offset: 91891},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 11, offset: 91896},
+																			pos:        position{line: 2909, col: 11, offset: 91891},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -30693,26 +30693,26 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1738, col: 5, offset: 56113},
+													pos:   position{line: 1738, col: 5, offset: 56108},
 													label: "description",
 													expr: &actionExpr{
-														pos: position{line: 1544, col: 5, offset: 50041},
+														pos: position{line: 1544, col: 5, offset: 50036},
 														run: (*parser).callonListContinuationElement132,
 														expr: &seqExpr{
-															pos: position{line: 1544, col: 5, offset: 50041},
+															pos: position{line: 1544, col: 5, offset: 50036},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1544, col: 5, offset: 50041},
+																	pos:   position{line: 1544, col: 5, offset: 50036},
 																	label: "rawLines",
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 1544, col: 14, offset: 50050},
+																		pos: position{line: 1544, col: 14, offset: 50045},
 																		expr: &actionExpr{
-																			pos: position{line: 1544, col: 15, offset: 50051},
+																			pos: position{line: 1544, col: 15, offset: 50046},
 																			run: (*parser).callonListContinuationElement136,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1544, col: 15, offset: 50051},
+																				pos: position{line: 1544, col: 15, offset: 50046},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 1544, col: 15, offset: 50051},
+																					pos:        position{line: 1544, col: 15, offset: 50046},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -30723,28 +30723,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonListContinuationElement140,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -30753,9 +30753,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -30768,35 +30768,35 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1680, col: 5, offset: 54398},
+										pos: position{line: 1680, col: 5, offset: 54393},
 										run: (*parser).callonListContinuationElement147,
 										expr: &seqExpr{
-											pos: position{line: 1680, col: 5, offset: 54398},
+											pos: position{line: 1680, col: 5, offset: 54393},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1680, col: 5, offset: 54398},
+													pos:   position{line: 1680, col: 5, offset: 54393},
 													label: "term",
 													expr: &actionExpr{
-														pos: position{line: 1688, col: 5, offset: 54724},
+														pos: position{line: 1688, col: 5, offset: 54719},
 														run: (*parser).callonListContinuationElement150,
 														expr: &seqExpr{
-															pos: position{line: 1688, col: 5, offset: 54724},
+															pos: position{line: 1688, col: 5, offset: 54719},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1688, col: 5, offset: 54724},
+																	pos: position{line: 1688, col: 5, offset: 54719},
 																	expr: &seqExpr{
-																		pos: position{line: 2502, col: 31, offset: 80590},
+																		pos: position{line: 2502, col: 31, offset: 80585},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2502, col: 31, offset: 80590},
+																				pos:        position{line: 2502, col: 31, offset: 80585},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2502, col: 36, offset: 80595},
+																				pos: position{line: 2502, col: 36, offset: 80590},
 																				expr: &litMatcher{
-																					pos:        position{line: 2502, col: 37, offset: 80596},
+																					pos:        position{line: 2502, col: 37, offset: 80591},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
@@ -30806,28 +30806,28 @@ var g = &grammar{
 																	},
 																},
 																&oneOrMoreExpr{
-																	pos: position{line: 1689, col: 5, offset: 54756},
+																	pos: position{line: 1689, col: 5, offset: 54751},
 																	expr: &seqExpr{
-																		pos: position{line: 1689, col: 6, offset: 54757},
+																		pos: position{line: 1689, col: 6, offset: 54752},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1689, col: 6, offset: 54757},
+																				pos: position{line: 1689, col: 6, offset: 54752},
 																				expr: &actionExpr{
-																					pos: position{line: 1694, col: 5, offset: 54907},
+																					pos: position{line: 1694, col: 5, offset: 54902},
 																					run: (*parser).callonListContinuationElement160,
 																					expr: &seqExpr{
-																						pos: position{line: 1694, col: 5, offset: 54907},
+																						pos: position{line: 1694, col: 5, offset: 54902},
 																						exprs: []interface{}{
 																							&labeledExpr{
-																								pos:   position{line: 1694, col: 5, offset: 54907},
+																								pos:   position{line: 1694, col: 5, offset: 54902},
 																								label: "separator",
 																								expr: &actionExpr{
-																									pos: position{line: 1694, col: 16, offset: 54918},
+																									pos: position{line: 1694, col: 16, offset: 54913},
 																									run: (*parser).callonListContinuationElement163,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 1694, col: 16, offset: 54918},
+																										pos: position{line: 1694, col: 16, offset: 54913},
 																										expr: &litMatcher{
-																											pos:        position{line: 1694, col: 17, offset: 54919},
+																											pos:        position{line: 1694, col: 17, offset: 54914},
 																											val:        ":",
 																											ignoreCase: false,
 																											want:       "\":\"",
@@ -30836,7 +30836,7 @@ var g = &grammar{
 																								},
 																							},
 																							&andCodeExpr{
-																								pos: position{line: 1697, col: 5, offset: 54976},
+																								pos: position{line: 1697, col: 5, offset: 54971},
 																								run: (*parser).callonListContinuationElement166,
 																							},
 																						},
@@ -30844,30 +30844,30 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1689, col: 35, offset: 54786},
+																				pos: position{line: 1689, col: 35, offset: 54781},
 																				expr: &choiceExpr{
-																					pos: position{line: 2927, col: 8, offset: 92233},
+																					pos: position{line: 2927, col: 8, offset: 92228},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2914, col: 12, offset: 92006},
+																							pos: position{line: 2914, col: 12, offset: 92001},
 																							run: (*parser).callonListContinuationElement169,
 																							expr: &choiceExpr{
-																								pos: position{line: 2914, col: 13, offset: 92007},
+																								pos: position{line: 2914, col: 13, offset: 92002},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 13, offset: 92007},
+																										pos:        position{line: 2914, col: 13, offset: 92002},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 20, offset: 92014},
+																										pos:        position{line: 2914, col: 20, offset: 92009},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 29, offset: 92023},
+																										pos:        position{line: 2914, col: 29, offset: 92018},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -30876,16 +30876,16 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2924, col: 8, offset: 92183},
+																							pos: position{line: 2924, col: 8, offset: 92178},
 																							expr: &anyMatcher{
-																								line: 2924, col: 9, offset: 92184,
+																								line: 2924, col: 9, offset: 92179,
 																							},
 																						},
 																					},
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1689, col: 40, offset: 54791,
+																				line: 1689, col: 40, offset: 54786,
 																			},
 																		},
 																	},
@@ -30895,24 +30895,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1681, col: 5, offset: 54433},
+													pos:   position{line: 1681, col: 5, offset: 54428},
 													label: "separator",
 													expr: &actionExpr{
-														pos: position{line: 1694, col: 5, offset: 54907},
+														pos: position{line: 1694, col: 5, offset: 54902},
 														run: (*parser).callonListContinuationElement178,
 														expr: &seqExpr{
-															pos: position{line: 1694, col: 5, offset: 54907},
+															pos: position{line: 1694, col: 5, offset: 54902},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 1694, col: 5, offset: 54907},
+																	pos:   position{line: 1694, col: 5, offset: 54902},
 																	label: "separator",
 																	expr: &actionExpr{
-																		pos: position{line: 1694, col: 16, offset: 54918},
+																		pos: position{line: 1694, col: 16, offset: 54913},
 																		run: (*parser).callonListContinuationElement181,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 1694, col: 16, offset: 54918},
+																			pos: position{line: 1694, col: 16, offset: 54913},
 																			expr: &litMatcher{
-																				pos:        position{line: 1694, col: 17, offset: 54919},
+																				pos:        position{line: 1694, col: 17, offset: 54914},
 																				val:        ":",
 																				ignoreCase: false,
 																				want:       "\":\"",
@@ -30921,7 +30921,7 @@ var g = &grammar{
 																	},
 																},
 																&andCodeExpr{
-																	pos: position{line: 1697, col: 5, offset: 54976},
+																	pos: position{line: 1697, col: 5, offset: 54971},
 																	run: (*parser).callonListContinuationElement184,
 																},
 															},
@@ -30929,24 +30929,24 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1682, col: 5, offset: 54478},
+													pos:   position{line: 1682, col: 5, offset: 54473},
 													label: "description",
 													expr: &choiceExpr{
-														pos: position{line: 1705, col: 5, offset: 55225},
+														pos: position{line: 1705, col: 5, offset: 55220},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1707, col: 9, offset: 55291},
+																pos: position{line: 1707, col: 9, offset: 55286},
 																run: (*parser).callonListContinuationElement187,
 																expr: &seqExpr{
-																	pos: position{line: 1707, col: 9, offset: 55291},
+																	pos: position{line: 1707, col: 9, offset: 55286},
 																	exprs: []interface{}{
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1707, col: 9, offset: 55291},
+																			pos: position{line: 1707, col: 9, offset: 55286},
 																			expr: &actionExpr{
-																				pos: position{line: 2905, col: 10, offset: 91835},
+																				pos: position{line: 2905, col: 10, offset: 91830},
 																				run: (*parser).callonListContinuationElement190,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2905, col: 10, offset: 91835},
+																					pos:        position{line: 2905, col: 10, offset: 91830},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -30955,28 +30955,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2927, col: 8, offset: 92233},
+																			pos: position{line: 2927, col: 8, offset: 92228},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2914, col: 12, offset: 92006},
+																					pos: position{line: 2914, col: 12, offset: 92001},
 																					run: (*parser).callonListContinuationElement193,
 																					expr: &choiceExpr{
-																						pos: position{line: 2914, col: 13, offset: 92007},
+																						pos: position{line: 2914, col: 13, offset: 92002},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 13, offset: 92007},
+																								pos:        position{line: 2914, col: 13, offset: 92002},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 20, offset: 92014},
+																								pos:        position{line: 2914, col: 20, offset: 92009},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 29, offset: 92023},
+																								pos:        position{line: 2914, col: 29, offset: 92018},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -30985,15 +30985,15 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1708, col: 9, offset: 55310},
+																			pos: position{line: 1708, col: 9, offset: 55305},
 																			expr: &actionExpr{
 																				pos: position{line: 687, col: 14, offset: 21867},
 																				run: (*parser).callonListContinuationElement201,
@@ -31001,18 +31001,18 @@ var g = &grammar{
 																					pos: position{line: 687, col: 14, offset: 21867},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2922, col: 11, offset: 92169},
+																							pos: position{line: 2922, col: 11, offset: 92164},
 																							expr: &anyMatcher{
-																								line: 2922, col: 13, offset: 92171,
+																								line: 2922, col: 13, offset: 92166,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 687, col: 21, offset: 21874},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonListContinuationElement206,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31021,28 +31021,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonListContinuationElement209,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31051,9 +31051,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -31066,18 +31066,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1714, col: 9, offset: 55439},
+																pos: position{line: 1714, col: 9, offset: 55434},
 																run: (*parser).callonListContinuationElement216,
 																expr: &seqExpr{
-																	pos: position{line: 1714, col: 9, offset: 55439},
+																	pos: position{line: 1714, col: 9, offset: 55434},
 																	exprs: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2909, col: 11, offset: 91896},
+																			pos: position{line: 2909, col: 11, offset: 91891},
 																			run: (*parser).callonListContinuationElement218,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2909, col: 11, offset: 91896},
+																				pos: position{line: 2909, col: 11, offset: 91891},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2909, col: 11, offset: 91896},
+																					pos:        position{line: 2909, col: 11, offset: 91891},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -31086,15 +31086,15 @@ var g = &grammar{
 																			},
 																		},
 																		&labeledExpr{
-																			pos:   position{line: 1715, col: 9, offset: 55512},
+																			pos:   position{line: 1715, col: 9, offset: 55507},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 1715, col: 18, offset: 55521},
+																				pos: position{line: 1715, col: 18, offset: 55516},
 																				run: (*parser).callonListContinuationElement222,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 1715, col: 18, offset: 55521},
+																					pos: position{line: 1715, col: 18, offset: 55516},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 1715, col: 18, offset: 55521},
+																						pos:        position{line: 1715, col: 18, offset: 55516},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -31104,28 +31104,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2927, col: 8, offset: 92233},
+																			pos: position{line: 2927, col: 8, offset: 92228},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2914, col: 12, offset: 92006},
+																					pos: position{line: 2914, col: 12, offset: 92001},
 																					run: (*parser).callonListContinuationElement226,
 																					expr: &choiceExpr{
-																						pos: position{line: 2914, col: 13, offset: 92007},
+																						pos: position{line: 2914, col: 13, offset: 92002},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 13, offset: 92007},
+																								pos:        position{line: 2914, col: 13, offset: 92002},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 20, offset: 92014},
+																								pos:        position{line: 2914, col: 20, offset: 92009},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 29, offset: 92023},
+																								pos:        position{line: 2914, col: 29, offset: 92018},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -31134,9 +31134,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -31154,21 +31154,21 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1567, col: 5, offset: 50660},
+							pos:   position{line: 1567, col: 5, offset: 50655},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1567, col: 16, offset: 50671},
+								pos: position{line: 1567, col: 16, offset: 50666},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1567, col: 17, offset: 50672},
+									pos:  position{line: 1567, col: 17, offset: 50667},
 									name: "BlockAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1568, col: 5, offset: 50694},
+							pos:   position{line: 1568, col: 5, offset: 50689},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1569, col: 9, offset: 50712},
+								pos: position{line: 1569, col: 9, offset: 50707},
 								alternatives: []interface{}{
 									&actionExpr{
 										pos: position{line: 687, col: 14, offset: 21867},
@@ -31177,18 +31177,18 @@ var g = &grammar{
 											pos: position{line: 687, col: 14, offset: 21867},
 											exprs: []interface{}{
 												&andExpr{
-													pos: position{line: 2922, col: 11, offset: 92169},
+													pos: position{line: 2922, col: 11, offset: 92164},
 													expr: &anyMatcher{
-														line: 2922, col: 13, offset: 92171,
+														line: 2922, col: 13, offset: 92166,
 													},
 												},
 												&zeroOrMoreExpr{
 													pos: position{line: 687, col: 21, offset: 21874},
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 10, offset: 91835},
+														pos: position{line: 2905, col: 10, offset: 91830},
 														run: (*parser).callonListContinuationElement243,
 														expr: &charClassMatcher{
-															pos:        position{line: 2905, col: 10, offset: 91835},
+															pos:        position{line: 2905, col: 10, offset: 91830},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31197,28 +31197,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2927, col: 8, offset: 92233},
+													pos: position{line: 2927, col: 8, offset: 92228},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2914, col: 12, offset: 92006},
+															pos: position{line: 2914, col: 12, offset: 92001},
 															run: (*parser).callonListContinuationElement246,
 															expr: &choiceExpr{
-																pos: position{line: 2914, col: 13, offset: 92007},
+																pos: position{line: 2914, col: 13, offset: 92002},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 13, offset: 92007},
+																		pos:        position{line: 2914, col: 13, offset: 92002},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 20, offset: 92014},
+																		pos:        position{line: 2914, col: 20, offset: 92009},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 29, offset: 92023},
+																		pos:        position{line: 2914, col: 29, offset: 92018},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31227,9 +31227,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2924, col: 8, offset: 92183},
+															pos: position{line: 2924, col: 8, offset: 92178},
 															expr: &anyMatcher{
-																line: 2924, col: 9, offset: 92184,
+																line: 2924, col: 9, offset: 92179,
 															},
 														},
 													},
@@ -31238,7 +31238,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1570, col: 11, offset: 50732},
+										pos:  position{line: 1570, col: 11, offset: 50727},
 										name: "AttributeDeclaration",
 									},
 									&actionExpr{
@@ -31294,10 +31294,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 367, col: 49, offset: 11183},
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 10, offset: 91835},
+														pos: position{line: 2905, col: 10, offset: 91830},
 														run: (*parser).callonListContinuationElement265,
 														expr: &charClassMatcher{
-															pos:        position{line: 2905, col: 10, offset: 91835},
+															pos:        position{line: 2905, col: 10, offset: 91830},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31306,28 +31306,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2927, col: 8, offset: 92233},
+													pos: position{line: 2927, col: 8, offset: 92228},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2914, col: 12, offset: 92006},
+															pos: position{line: 2914, col: 12, offset: 92001},
 															run: (*parser).callonListContinuationElement268,
 															expr: &choiceExpr{
-																pos: position{line: 2914, col: 13, offset: 92007},
+																pos: position{line: 2914, col: 13, offset: 92002},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 13, offset: 92007},
+																		pos:        position{line: 2914, col: 13, offset: 92002},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 20, offset: 92014},
+																		pos:        position{line: 2914, col: 20, offset: 92009},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 29, offset: 92023},
+																		pos:        position{line: 2914, col: 29, offset: 92018},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31336,9 +31336,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2924, col: 8, offset: 92183},
+															pos: position{line: 2924, col: 8, offset: 92178},
 															expr: &anyMatcher{
-																line: 2924, col: 9, offset: 92184,
+																line: 2924, col: 9, offset: 92179,
 															},
 														},
 													},
@@ -31399,10 +31399,10 @@ var g = &grammar{
 												&zeroOrMoreExpr{
 													pos: position{line: 369, col: 39, offset: 11304},
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 10, offset: 91835},
+														pos: position{line: 2905, col: 10, offset: 91830},
 														run: (*parser).callonListContinuationElement286,
 														expr: &charClassMatcher{
-															pos:        position{line: 2905, col: 10, offset: 91835},
+															pos:        position{line: 2905, col: 10, offset: 91830},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -31411,28 +31411,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2927, col: 8, offset: 92233},
+													pos: position{line: 2927, col: 8, offset: 92228},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2914, col: 12, offset: 92006},
+															pos: position{line: 2914, col: 12, offset: 92001},
 															run: (*parser).callonListContinuationElement289,
 															expr: &choiceExpr{
-																pos: position{line: 2914, col: 13, offset: 92007},
+																pos: position{line: 2914, col: 13, offset: 92002},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 13, offset: 92007},
+																		pos:        position{line: 2914, col: 13, offset: 92002},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 20, offset: 92014},
+																		pos:        position{line: 2914, col: 20, offset: 92009},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 29, offset: 92023},
+																		pos:        position{line: 2914, col: 29, offset: 92018},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -31441,9 +31441,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2924, col: 8, offset: 92183},
+															pos: position{line: 2924, col: 8, offset: 92178},
 															expr: &anyMatcher{
-																line: 2924, col: 9, offset: 92184,
+																line: 2924, col: 9, offset: 92179,
 															},
 														},
 													},
@@ -31497,10 +31497,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 756, col: 8, offset: 24172},
 																	expr: &actionExpr{
-																		pos: position{line: 2905, col: 10, offset: 91835},
+																		pos: position{line: 2905, col: 10, offset: 91830},
 																		run: (*parser).callonListContinuationElement308,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 91835},
+																			pos:        position{line: 2905, col: 10, offset: 91830},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31509,28 +31509,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonListContinuationElement311,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31539,9 +31539,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -31613,10 +31613,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24172},
 																											expr: &actionExpr{
-																												pos: position{line: 2905, col: 10, offset: 91835},
+																												pos: position{line: 2905, col: 10, offset: 91830},
 																												run: (*parser).callonListContinuationElement336,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2905, col: 10, offset: 91835},
+																													pos:        position{line: 2905, col: 10, offset: 91830},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -31625,28 +31625,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2927, col: 8, offset: 92233},
+																											pos: position{line: 2927, col: 8, offset: 92228},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2914, col: 12, offset: 92006},
+																													pos: position{line: 2914, col: 12, offset: 92001},
 																													run: (*parser).callonListContinuationElement339,
 																													expr: &choiceExpr{
-																														pos: position{line: 2914, col: 13, offset: 92007},
+																														pos: position{line: 2914, col: 13, offset: 92002},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 13, offset: 92007},
+																																pos:        position{line: 2914, col: 13, offset: 92002},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 20, offset: 92014},
+																																pos:        position{line: 2914, col: 20, offset: 92009},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 29, offset: 92023},
+																																pos:        position{line: 2914, col: 29, offset: 92018},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -31655,9 +31655,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2924, col: 8, offset: 92183},
+																													pos: position{line: 2924, col: 8, offset: 92178},
 																													expr: &anyMatcher{
-																														line: 2924, col: 9, offset: 92184,
+																														line: 2924, col: 9, offset: 92179,
 																													},
 																												},
 																											},
@@ -31673,9 +31673,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -31691,21 +31691,21 @@ var g = &grammar{
 																				pos: position{line: 825, col: 5, offset: 26574},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2922, col: 11, offset: 92169},
+																						pos: position{line: 2922, col: 11, offset: 92164},
 																						expr: &anyMatcher{
-																							line: 2922, col: 13, offset: 92171,
+																							line: 2922, col: 13, offset: 92166,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 826, col: 5, offset: 26649},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90361},
+																							pos: position{line: 2851, col: 13, offset: 90356},
 																							run: (*parser).callonListContinuationElement355,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90361},
+																									pos:        position{line: 2851, col: 13, offset: 90356},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -31715,28 +31715,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2927, col: 8, offset: 92233},
+																						pos: position{line: 2927, col: 8, offset: 92228},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2914, col: 12, offset: 92006},
+																								pos: position{line: 2914, col: 12, offset: 92001},
 																								run: (*parser).callonListContinuationElement359,
 																								expr: &choiceExpr{
-																									pos: position{line: 2914, col: 13, offset: 92007},
+																									pos: position{line: 2914, col: 13, offset: 92002},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92007},
+																											pos:        position{line: 2914, col: 13, offset: 92002},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 20, offset: 92014},
+																											pos:        position{line: 2914, col: 20, offset: 92009},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 29, offset: 92023},
+																											pos:        position{line: 2914, col: 29, offset: 92018},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -31745,9 +31745,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2924, col: 8, offset: 92183},
+																								pos: position{line: 2924, col: 8, offset: 92178},
 																								expr: &anyMatcher{
-																									line: 2924, col: 9, offset: 92184,
+																									line: 2924, col: 9, offset: 92179,
 																								},
 																							},
 																						},
@@ -31812,10 +31812,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 756, col: 8, offset: 24172},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonListContinuationElement380,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -31824,28 +31824,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonListContinuationElement383,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -31854,9 +31854,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -31872,9 +31872,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2924, col: 8, offset: 92183},
+																	pos: position{line: 2924, col: 8, offset: 92178},
 																	expr: &anyMatcher{
-																		line: 2924, col: 9, offset: 92184,
+																		line: 2924, col: 9, offset: 92179,
 																	},
 																},
 															},
@@ -31930,10 +31930,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 763, col: 8, offset: 24420},
 																	expr: &actionExpr{
-																		pos: position{line: 2905, col: 10, offset: 91835},
+																		pos: position{line: 2905, col: 10, offset: 91830},
 																		run: (*parser).callonListContinuationElement405,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 91835},
+																			pos:        position{line: 2905, col: 10, offset: 91830},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -31942,28 +31942,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonListContinuationElement408,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -31972,9 +31972,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -32046,10 +32046,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 763, col: 8, offset: 24420},
 																											expr: &actionExpr{
-																												pos: position{line: 2905, col: 10, offset: 91835},
+																												pos: position{line: 2905, col: 10, offset: 91830},
 																												run: (*parser).callonListContinuationElement433,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2905, col: 10, offset: 91835},
+																													pos:        position{line: 2905, col: 10, offset: 91830},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32058,28 +32058,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2927, col: 8, offset: 92233},
+																											pos: position{line: 2927, col: 8, offset: 92228},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2914, col: 12, offset: 92006},
+																													pos: position{line: 2914, col: 12, offset: 92001},
 																													run: (*parser).callonListContinuationElement436,
 																													expr: &choiceExpr{
-																														pos: position{line: 2914, col: 13, offset: 92007},
+																														pos: position{line: 2914, col: 13, offset: 92002},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 13, offset: 92007},
+																																pos:        position{line: 2914, col: 13, offset: 92002},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 20, offset: 92014},
+																																pos:        position{line: 2914, col: 20, offset: 92009},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 29, offset: 92023},
+																																pos:        position{line: 2914, col: 29, offset: 92018},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32088,9 +32088,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2924, col: 8, offset: 92183},
+																													pos: position{line: 2924, col: 8, offset: 92178},
 																													expr: &anyMatcher{
-																														line: 2924, col: 9, offset: 92184,
+																														line: 2924, col: 9, offset: 92179,
 																													},
 																												},
 																											},
@@ -32106,9 +32106,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -32124,21 +32124,21 @@ var g = &grammar{
 																				pos: position{line: 825, col: 5, offset: 26574},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2922, col: 11, offset: 92169},
+																						pos: position{line: 2922, col: 11, offset: 92164},
 																						expr: &anyMatcher{
-																							line: 2922, col: 13, offset: 92171,
+																							line: 2922, col: 13, offset: 92166,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 826, col: 5, offset: 26649},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90361},
+																							pos: position{line: 2851, col: 13, offset: 90356},
 																							run: (*parser).callonListContinuationElement452,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90361},
+																									pos:        position{line: 2851, col: 13, offset: 90356},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32148,28 +32148,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2927, col: 8, offset: 92233},
+																						pos: position{line: 2927, col: 8, offset: 92228},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2914, col: 12, offset: 92006},
+																								pos: position{line: 2914, col: 12, offset: 92001},
 																								run: (*parser).callonListContinuationElement456,
 																								expr: &choiceExpr{
-																									pos: position{line: 2914, col: 13, offset: 92007},
+																									pos: position{line: 2914, col: 13, offset: 92002},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92007},
+																											pos:        position{line: 2914, col: 13, offset: 92002},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 20, offset: 92014},
+																											pos:        position{line: 2914, col: 20, offset: 92009},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 29, offset: 92023},
+																											pos:        position{line: 2914, col: 29, offset: 92018},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32178,9 +32178,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2924, col: 8, offset: 92183},
+																								pos: position{line: 2924, col: 8, offset: 92178},
 																								expr: &anyMatcher{
-																									line: 2924, col: 9, offset: 92184,
+																									line: 2924, col: 9, offset: 92179,
 																								},
 																							},
 																						},
@@ -32245,10 +32245,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 763, col: 8, offset: 24420},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonListContinuationElement477,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -32257,28 +32257,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonListContinuationElement480,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -32287,9 +32287,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -32305,9 +32305,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2924, col: 8, offset: 92183},
+																	pos: position{line: 2924, col: 8, offset: 92178},
 																	expr: &anyMatcher{
-																		line: 2924, col: 9, offset: 92184,
+																		line: 2924, col: 9, offset: 92179,
 																	},
 																},
 															},
@@ -32359,10 +32359,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 774, col: 52, offset: 24832},
 																	expr: &actionExpr{
-																		pos: position{line: 2905, col: 10, offset: 91835},
+																		pos: position{line: 2905, col: 10, offset: 91830},
 																		run: (*parser).callonListContinuationElement501,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 91835},
+																			pos:        position{line: 2905, col: 10, offset: 91830},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32371,28 +32371,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonListContinuationElement504,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32401,9 +32401,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -32437,10 +32437,10 @@ var g = &grammar{
 																				&zeroOrMoreExpr{
 																					pos: position{line: 985, col: 40, offset: 30847},
 																					expr: &actionExpr{
-																						pos: position{line: 2905, col: 10, offset: 91835},
+																						pos: position{line: 2905, col: 10, offset: 91830},
 																						run: (*parser).callonListContinuationElement519,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2905, col: 10, offset: 91835},
+																							pos:        position{line: 2905, col: 10, offset: 91830},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -32449,28 +32449,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2927, col: 8, offset: 92233},
+																					pos: position{line: 2927, col: 8, offset: 92228},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2914, col: 12, offset: 92006},
+																							pos: position{line: 2914, col: 12, offset: 92001},
 																							run: (*parser).callonListContinuationElement522,
 																							expr: &choiceExpr{
-																								pos: position{line: 2914, col: 13, offset: 92007},
+																								pos: position{line: 2914, col: 13, offset: 92002},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 13, offset: 92007},
+																										pos:        position{line: 2914, col: 13, offset: 92002},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 20, offset: 92014},
+																										pos:        position{line: 2914, col: 20, offset: 92009},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 29, offset: 92023},
+																										pos:        position{line: 2914, col: 29, offset: 92018},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -32479,9 +32479,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2924, col: 8, offset: 92183},
+																							pos: position{line: 2924, col: 8, offset: 92178},
 																							expr: &anyMatcher{
-																								line: 2924, col: 9, offset: 92184,
+																								line: 2924, col: 9, offset: 92179,
 																							},
 																						},
 																					},
@@ -32499,21 +32499,21 @@ var g = &grammar{
 																				pos: position{line: 825, col: 5, offset: 26574},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2922, col: 11, offset: 92169},
+																						pos: position{line: 2922, col: 11, offset: 92164},
 																						expr: &anyMatcher{
-																							line: 2922, col: 13, offset: 92171,
+																							line: 2922, col: 13, offset: 92166,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 826, col: 5, offset: 26649},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90361},
+																							pos: position{line: 2851, col: 13, offset: 90356},
 																							run: (*parser).callonListContinuationElement535,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90361},
+																									pos:        position{line: 2851, col: 13, offset: 90356},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32523,28 +32523,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2927, col: 8, offset: 92233},
+																						pos: position{line: 2927, col: 8, offset: 92228},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2914, col: 12, offset: 92006},
+																								pos: position{line: 2914, col: 12, offset: 92001},
 																								run: (*parser).callonListContinuationElement539,
 																								expr: &choiceExpr{
-																									pos: position{line: 2914, col: 13, offset: 92007},
+																									pos: position{line: 2914, col: 13, offset: 92002},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92007},
+																											pos:        position{line: 2914, col: 13, offset: 92002},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 20, offset: 92014},
+																											pos:        position{line: 2914, col: 20, offset: 92009},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 29, offset: 92023},
+																											pos:        position{line: 2914, col: 29, offset: 92018},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32553,9 +32553,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2924, col: 8, offset: 92183},
+																								pos: position{line: 2924, col: 8, offset: 92178},
 																								expr: &anyMatcher{
-																									line: 2924, col: 9, offset: 92184,
+																									line: 2924, col: 9, offset: 92179,
 																								},
 																							},
 																						},
@@ -32583,10 +32583,10 @@ var g = &grammar{
 															&zeroOrMoreExpr{
 																pos: position{line: 985, col: 40, offset: 30847},
 																expr: &actionExpr{
-																	pos: position{line: 2905, col: 10, offset: 91835},
+																	pos: position{line: 2905, col: 10, offset: 91830},
 																	run: (*parser).callonListContinuationElement550,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2905, col: 10, offset: 91835},
+																		pos:        position{line: 2905, col: 10, offset: 91830},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -32595,28 +32595,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2927, col: 8, offset: 92233},
+																pos: position{line: 2927, col: 8, offset: 92228},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2914, col: 12, offset: 92006},
+																		pos: position{line: 2914, col: 12, offset: 92001},
 																		run: (*parser).callonListContinuationElement553,
 																		expr: &choiceExpr{
-																			pos: position{line: 2914, col: 13, offset: 92007},
+																			pos: position{line: 2914, col: 13, offset: 92002},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2914, col: 13, offset: 92007},
+																					pos:        position{line: 2914, col: 13, offset: 92002},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2914, col: 20, offset: 92014},
+																					pos:        position{line: 2914, col: 20, offset: 92009},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2914, col: 29, offset: 92023},
+																					pos:        position{line: 2914, col: 29, offset: 92018},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -32625,9 +32625,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2924, col: 8, offset: 92183},
+																		pos: position{line: 2924, col: 8, offset: 92178},
 																		expr: &anyMatcher{
-																			line: 2924, col: 9, offset: 92184,
+																			line: 2924, col: 9, offset: 92179,
 																		},
 																	},
 																},
@@ -32684,10 +32684,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 770, col: 8, offset: 24666},
 																	expr: &actionExpr{
-																		pos: position{line: 2905, col: 10, offset: 91835},
+																		pos: position{line: 2905, col: 10, offset: 91830},
 																		run: (*parser).callonListContinuationElement572,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 91835},
+																			pos:        position{line: 2905, col: 10, offset: 91830},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -32696,28 +32696,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonListContinuationElement575,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -32726,9 +32726,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -32800,10 +32800,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 770, col: 8, offset: 24666},
 																											expr: &actionExpr{
-																												pos: position{line: 2905, col: 10, offset: 91835},
+																												pos: position{line: 2905, col: 10, offset: 91830},
 																												run: (*parser).callonListContinuationElement600,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2905, col: 10, offset: 91835},
+																													pos:        position{line: 2905, col: 10, offset: 91830},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -32812,28 +32812,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2927, col: 8, offset: 92233},
+																											pos: position{line: 2927, col: 8, offset: 92228},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2914, col: 12, offset: 92006},
+																													pos: position{line: 2914, col: 12, offset: 92001},
 																													run: (*parser).callonListContinuationElement603,
 																													expr: &choiceExpr{
-																														pos: position{line: 2914, col: 13, offset: 92007},
+																														pos: position{line: 2914, col: 13, offset: 92002},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 13, offset: 92007},
+																																pos:        position{line: 2914, col: 13, offset: 92002},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 20, offset: 92014},
+																																pos:        position{line: 2914, col: 20, offset: 92009},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 29, offset: 92023},
+																																pos:        position{line: 2914, col: 29, offset: 92018},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -32842,9 +32842,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2924, col: 8, offset: 92183},
+																													pos: position{line: 2924, col: 8, offset: 92178},
 																													expr: &anyMatcher{
-																														line: 2924, col: 9, offset: 92184,
+																														line: 2924, col: 9, offset: 92179,
 																													},
 																												},
 																											},
@@ -32860,9 +32860,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -32878,21 +32878,21 @@ var g = &grammar{
 																				pos: position{line: 825, col: 5, offset: 26574},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2922, col: 11, offset: 92169},
+																						pos: position{line: 2922, col: 11, offset: 92164},
 																						expr: &anyMatcher{
-																							line: 2922, col: 13, offset: 92171,
+																							line: 2922, col: 13, offset: 92166,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 826, col: 5, offset: 26649},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90361},
+																							pos: position{line: 2851, col: 13, offset: 90356},
 																							run: (*parser).callonListContinuationElement619,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90361},
+																									pos:        position{line: 2851, col: 13, offset: 90356},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -32902,28 +32902,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2927, col: 8, offset: 92233},
+																						pos: position{line: 2927, col: 8, offset: 92228},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2914, col: 12, offset: 92006},
+																								pos: position{line: 2914, col: 12, offset: 92001},
 																								run: (*parser).callonListContinuationElement623,
 																								expr: &choiceExpr{
-																									pos: position{line: 2914, col: 13, offset: 92007},
+																									pos: position{line: 2914, col: 13, offset: 92002},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92007},
+																											pos:        position{line: 2914, col: 13, offset: 92002},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 20, offset: 92014},
+																											pos:        position{line: 2914, col: 20, offset: 92009},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 29, offset: 92023},
+																											pos:        position{line: 2914, col: 29, offset: 92018},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -32932,9 +32932,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2924, col: 8, offset: 92183},
+																								pos: position{line: 2924, col: 8, offset: 92178},
 																								expr: &anyMatcher{
-																									line: 2924, col: 9, offset: 92184,
+																									line: 2924, col: 9, offset: 92179,
 																								},
 																							},
 																						},
@@ -32999,10 +32999,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 770, col: 8, offset: 24666},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonListContinuationElement644,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33011,28 +33011,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonListContinuationElement647,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33041,9 +33041,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -33059,9 +33059,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2924, col: 8, offset: 92183},
+																	pos: position{line: 2924, col: 8, offset: 92178},
 																	expr: &anyMatcher{
-																		line: 2924, col: 9, offset: 92184,
+																		line: 2924, col: 9, offset: 92179,
 																	},
 																},
 															},
@@ -33117,10 +33117,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 785, col: 8, offset: 25204},
 																	expr: &actionExpr{
-																		pos: position{line: 2905, col: 10, offset: 91835},
+																		pos: position{line: 2905, col: 10, offset: 91830},
 																		run: (*parser).callonListContinuationElement669,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 91835},
+																			pos:        position{line: 2905, col: 10, offset: 91830},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33129,28 +33129,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonListContinuationElement672,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33159,9 +33159,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -33233,10 +33233,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25204},
 																											expr: &actionExpr{
-																												pos: position{line: 2905, col: 10, offset: 91835},
+																												pos: position{line: 2905, col: 10, offset: 91830},
 																												run: (*parser).callonListContinuationElement697,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2905, col: 10, offset: 91835},
+																													pos:        position{line: 2905, col: 10, offset: 91830},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33245,28 +33245,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2927, col: 8, offset: 92233},
+																											pos: position{line: 2927, col: 8, offset: 92228},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2914, col: 12, offset: 92006},
+																													pos: position{line: 2914, col: 12, offset: 92001},
 																													run: (*parser).callonListContinuationElement700,
 																													expr: &choiceExpr{
-																														pos: position{line: 2914, col: 13, offset: 92007},
+																														pos: position{line: 2914, col: 13, offset: 92002},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 13, offset: 92007},
+																																pos:        position{line: 2914, col: 13, offset: 92002},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 20, offset: 92014},
+																																pos:        position{line: 2914, col: 20, offset: 92009},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 29, offset: 92023},
+																																pos:        position{line: 2914, col: 29, offset: 92018},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33275,9 +33275,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2924, col: 8, offset: 92183},
+																													pos: position{line: 2924, col: 8, offset: 92178},
 																													expr: &anyMatcher{
-																														line: 2924, col: 9, offset: 92184,
+																														line: 2924, col: 9, offset: 92179,
 																													},
 																												},
 																											},
@@ -33293,9 +33293,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -33311,21 +33311,21 @@ var g = &grammar{
 																				pos: position{line: 825, col: 5, offset: 26574},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2922, col: 11, offset: 92169},
+																						pos: position{line: 2922, col: 11, offset: 92164},
 																						expr: &anyMatcher{
-																							line: 2922, col: 13, offset: 92171,
+																							line: 2922, col: 13, offset: 92166,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 826, col: 5, offset: 26649},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90361},
+																							pos: position{line: 2851, col: 13, offset: 90356},
 																							run: (*parser).callonListContinuationElement716,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90361},
+																									pos:        position{line: 2851, col: 13, offset: 90356},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33335,28 +33335,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2927, col: 8, offset: 92233},
+																						pos: position{line: 2927, col: 8, offset: 92228},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2914, col: 12, offset: 92006},
+																								pos: position{line: 2914, col: 12, offset: 92001},
 																								run: (*parser).callonListContinuationElement720,
 																								expr: &choiceExpr{
-																									pos: position{line: 2914, col: 13, offset: 92007},
+																									pos: position{line: 2914, col: 13, offset: 92002},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92007},
+																											pos:        position{line: 2914, col: 13, offset: 92002},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 20, offset: 92014},
+																											pos:        position{line: 2914, col: 20, offset: 92009},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 29, offset: 92023},
+																											pos:        position{line: 2914, col: 29, offset: 92018},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33365,9 +33365,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2924, col: 8, offset: 92183},
+																								pos: position{line: 2924, col: 8, offset: 92178},
 																								expr: &anyMatcher{
-																									line: 2924, col: 9, offset: 92184,
+																									line: 2924, col: 9, offset: 92179,
 																								},
 																							},
 																						},
@@ -33432,10 +33432,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 785, col: 8, offset: 25204},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonListContinuationElement741,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33444,28 +33444,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonListContinuationElement744,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33474,9 +33474,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -33492,9 +33492,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2924, col: 8, offset: 92183},
+																	pos: position{line: 2924, col: 8, offset: 92178},
 																	expr: &anyMatcher{
-																		line: 2924, col: 9, offset: 92184,
+																		line: 2924, col: 9, offset: 92179,
 																	},
 																},
 															},
@@ -33550,10 +33550,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 799, col: 8, offset: 25680},
 																	expr: &actionExpr{
-																		pos: position{line: 2905, col: 10, offset: 91835},
+																		pos: position{line: 2905, col: 10, offset: 91830},
 																		run: (*parser).callonListContinuationElement766,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 91835},
+																			pos:        position{line: 2905, col: 10, offset: 91830},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -33562,28 +33562,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonListContinuationElement769,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -33592,9 +33592,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -33666,10 +33666,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25680},
 																											expr: &actionExpr{
-																												pos: position{line: 2905, col: 10, offset: 91835},
+																												pos: position{line: 2905, col: 10, offset: 91830},
 																												run: (*parser).callonListContinuationElement794,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2905, col: 10, offset: 91835},
+																													pos:        position{line: 2905, col: 10, offset: 91830},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -33678,28 +33678,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2927, col: 8, offset: 92233},
+																											pos: position{line: 2927, col: 8, offset: 92228},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2914, col: 12, offset: 92006},
+																													pos: position{line: 2914, col: 12, offset: 92001},
 																													run: (*parser).callonListContinuationElement797,
 																													expr: &choiceExpr{
-																														pos: position{line: 2914, col: 13, offset: 92007},
+																														pos: position{line: 2914, col: 13, offset: 92002},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 13, offset: 92007},
+																																pos:        position{line: 2914, col: 13, offset: 92002},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 20, offset: 92014},
+																																pos:        position{line: 2914, col: 20, offset: 92009},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 29, offset: 92023},
+																																pos:        position{line: 2914, col: 29, offset: 92018},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -33708,9 +33708,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2924, col: 8, offset: 92183},
+																													pos: position{line: 2924, col: 8, offset: 92178},
 																													expr: &anyMatcher{
-																														line: 2924, col: 9, offset: 92184,
+																														line: 2924, col: 9, offset: 92179,
 																													},
 																												},
 																											},
@@ -33726,9 +33726,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -33744,21 +33744,21 @@ var g = &grammar{
 																				pos: position{line: 825, col: 5, offset: 26574},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2922, col: 11, offset: 92169},
+																						pos: position{line: 2922, col: 11, offset: 92164},
 																						expr: &anyMatcher{
-																							line: 2922, col: 13, offset: 92171,
+																							line: 2922, col: 13, offset: 92166,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 826, col: 5, offset: 26649},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90361},
+																							pos: position{line: 2851, col: 13, offset: 90356},
 																							run: (*parser).callonListContinuationElement813,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90361},
+																									pos:        position{line: 2851, col: 13, offset: 90356},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -33768,28 +33768,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2927, col: 8, offset: 92233},
+																						pos: position{line: 2927, col: 8, offset: 92228},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2914, col: 12, offset: 92006},
+																								pos: position{line: 2914, col: 12, offset: 92001},
 																								run: (*parser).callonListContinuationElement817,
 																								expr: &choiceExpr{
-																									pos: position{line: 2914, col: 13, offset: 92007},
+																									pos: position{line: 2914, col: 13, offset: 92002},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92007},
+																											pos:        position{line: 2914, col: 13, offset: 92002},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 20, offset: 92014},
+																											pos:        position{line: 2914, col: 20, offset: 92009},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 29, offset: 92023},
+																											pos:        position{line: 2914, col: 29, offset: 92018},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -33798,9 +33798,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2924, col: 8, offset: 92183},
+																								pos: position{line: 2924, col: 8, offset: 92178},
 																								expr: &anyMatcher{
-																									line: 2924, col: 9, offset: 92184,
+																									line: 2924, col: 9, offset: 92179,
 																								},
 																							},
 																						},
@@ -33865,10 +33865,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 799, col: 8, offset: 25680},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonListContinuationElement838,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -33877,28 +33877,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonListContinuationElement841,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -33907,9 +33907,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -33925,9 +33925,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2924, col: 8, offset: 92183},
+																	pos: position{line: 2924, col: 8, offset: 92178},
 																	expr: &anyMatcher{
-																		line: 2924, col: 9, offset: 92184,
+																		line: 2924, col: 9, offset: 92179,
 																	},
 																},
 															},
@@ -33965,36 +33965,36 @@ var g = &grammar{
 																			pos:   position{line: 1010, col: 40, offset: 31590},
 																			label: "comment",
 																			expr: &actionExpr{
-																				pos: position{line: 2497, col: 22, offset: 80369},
+																				pos: position{line: 2497, col: 22, offset: 80364},
 																				run: (*parser).callonListContinuationElement859,
 																				expr: &seqExpr{
-																					pos: position{line: 2497, col: 22, offset: 80369},
+																					pos: position{line: 2497, col: 22, offset: 80364},
 																					exprs: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2502, col: 31, offset: 80590},
+																							pos:        position{line: 2502, col: 31, offset: 80585},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
 																						},
 																						&notExpr{
-																							pos: position{line: 2502, col: 36, offset: 80595},
+																							pos: position{line: 2502, col: 36, offset: 80590},
 																							expr: &litMatcher{
-																								pos:        position{line: 2502, col: 37, offset: 80596},
+																								pos:        position{line: 2502, col: 37, offset: 80591},
 																								val:        "//",
 																								ignoreCase: false,
 																								want:       "\"//\"",
 																							},
 																						},
 																						&labeledExpr{
-																							pos:   position{line: 2497, col: 49, offset: 80396},
+																							pos:   position{line: 2497, col: 49, offset: 80391},
 																							label: "content",
 																							expr: &actionExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								run: (*parser).callonListContinuationElement865,
 																								expr: &zeroOrMoreExpr{
-																									pos: position{line: 2851, col: 13, offset: 90361},
+																									pos: position{line: 2851, col: 13, offset: 90356},
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2851, col: 13, offset: 90361},
+																										pos:        position{line: 2851, col: 13, offset: 90356},
 																										val:        "[^\\r\\n]",
 																										chars:      []rune{'\r', '\n'},
 																										ignoreCase: false,
@@ -34004,28 +34004,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonListContinuationElement869,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34034,9 +34034,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -34063,18 +34063,18 @@ var g = &grammar{
 																					pos: position{line: 687, col: 14, offset: 21867},
 																					exprs: []interface{}{
 																						&andExpr{
-																							pos: position{line: 2922, col: 11, offset: 92169},
+																							pos: position{line: 2922, col: 11, offset: 92164},
 																							expr: &anyMatcher{
-																								line: 2922, col: 13, offset: 92171,
+																								line: 2922, col: 13, offset: 92166,
 																							},
 																						},
 																						&zeroOrMoreExpr{
 																							pos: position{line: 687, col: 21, offset: 21874},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonListContinuationElement884,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -34083,28 +34083,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonListContinuationElement887,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -34113,9 +34113,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -34134,12 +34134,12 @@ var g = &grammar{
 																			pos:   position{line: 1006, col: 5, offset: 31468},
 																			label: "content",
 																			expr: &actionExpr{
-																				pos: position{line: 2855, col: 14, offset: 90428},
+																				pos: position{line: 2855, col: 14, offset: 90423},
 																				run: (*parser).callonListContinuationElement896,
 																				expr: &oneOrMoreExpr{
-																					pos: position{line: 2855, col: 14, offset: 90428},
+																					pos: position{line: 2855, col: 14, offset: 90423},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2855, col: 14, offset: 90428},
+																						pos:        position{line: 2855, col: 14, offset: 90423},
 																						val:        "[^\\r\\n]",
 																						chars:      []rune{'\r', '\n'},
 																						ignoreCase: false,
@@ -34149,28 +34149,28 @@ var g = &grammar{
 																			},
 																		},
 																		&choiceExpr{
-																			pos: position{line: 2927, col: 8, offset: 92233},
+																			pos: position{line: 2927, col: 8, offset: 92228},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2914, col: 12, offset: 92006},
+																					pos: position{line: 2914, col: 12, offset: 92001},
 																					run: (*parser).callonListContinuationElement900,
 																					expr: &choiceExpr{
-																						pos: position{line: 2914, col: 13, offset: 92007},
+																						pos: position{line: 2914, col: 13, offset: 92002},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 13, offset: 92007},
+																								pos:        position{line: 2914, col: 13, offset: 92002},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 20, offset: 92014},
+																								pos:        position{line: 2914, col: 20, offset: 92009},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 29, offset: 92023},
+																								pos:        position{line: 2914, col: 29, offset: 92018},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -34179,9 +34179,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -34201,36 +34201,36 @@ var g = &grammar{
 															pos: position{line: 998, col: 17, offset: 31180},
 															alternatives: []interface{}{
 																&actionExpr{
-																	pos: position{line: 2497, col: 22, offset: 80369},
+																	pos: position{line: 2497, col: 22, offset: 80364},
 																	run: (*parser).callonListContinuationElement910,
 																	expr: &seqExpr{
-																		pos: position{line: 2497, col: 22, offset: 80369},
+																		pos: position{line: 2497, col: 22, offset: 80364},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2502, col: 31, offset: 80590},
+																				pos:        position{line: 2502, col: 31, offset: 80585},
 																				val:        "//",
 																				ignoreCase: false,
 																				want:       "\"//\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2502, col: 36, offset: 80595},
+																				pos: position{line: 2502, col: 36, offset: 80590},
 																				expr: &litMatcher{
-																					pos:        position{line: 2502, col: 37, offset: 80596},
+																					pos:        position{line: 2502, col: 37, offset: 80591},
 																					val:        "//",
 																					ignoreCase: false,
 																					want:       "\"//\"",
 																				},
 																			},
 																			&labeledExpr{
-																				pos:   position{line: 2497, col: 49, offset: 80396},
+																				pos:   position{line: 2497, col: 49, offset: 80391},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2851, col: 13, offset: 90361},
+																					pos: position{line: 2851, col: 13, offset: 90356},
 																					run: (*parser).callonListContinuationElement916,
 																					expr: &zeroOrMoreExpr{
-																						pos: position{line: 2851, col: 13, offset: 90361},
+																						pos: position{line: 2851, col: 13, offset: 90356},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2851, col: 13, offset: 90361},
+																							pos:        position{line: 2851, col: 13, offset: 90356},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34240,28 +34240,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2927, col: 8, offset: 92233},
+																				pos: position{line: 2927, col: 8, offset: 92228},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2914, col: 12, offset: 92006},
+																						pos: position{line: 2914, col: 12, offset: 92001},
 																						run: (*parser).callonListContinuationElement920,
 																						expr: &choiceExpr{
-																							pos: position{line: 2914, col: 13, offset: 92007},
+																							pos: position{line: 2914, col: 13, offset: 92002},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2914, col: 13, offset: 92007},
+																									pos:        position{line: 2914, col: 13, offset: 92002},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2914, col: 20, offset: 92014},
+																									pos:        position{line: 2914, col: 20, offset: 92009},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2914, col: 29, offset: 92023},
+																									pos:        position{line: 2914, col: 29, offset: 92018},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34270,9 +34270,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2924, col: 8, offset: 92183},
+																						pos: position{line: 2924, col: 8, offset: 92178},
 																						expr: &anyMatcher{
-																							line: 2924, col: 9, offset: 92184,
+																							line: 2924, col: 9, offset: 92179,
 																						},
 																					},
 																				},
@@ -34296,36 +34296,36 @@ var g = &grammar{
 																				pos:   position{line: 1010, col: 40, offset: 31590},
 																				label: "comment",
 																				expr: &actionExpr{
-																					pos: position{line: 2497, col: 22, offset: 80369},
+																					pos: position{line: 2497, col: 22, offset: 80364},
 																					run: (*parser).callonListContinuationElement931,
 																					expr: &seqExpr{
-																						pos: position{line: 2497, col: 22, offset: 80369},
+																						pos: position{line: 2497, col: 22, offset: 80364},
 																						exprs: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2502, col: 31, offset: 80590},
+																								pos:        position{line: 2502, col: 31, offset: 80585},
 																								val:        "//",
 																								ignoreCase: false,
 																								want:       "\"//\"",
 																							},
 																							&notExpr{
-																								pos: position{line: 2502, col: 36, offset: 80595},
+																								pos: position{line: 2502, col: 36, offset: 80590},
 																								expr: &litMatcher{
-																									pos:        position{line: 2502, col: 37, offset: 80596},
+																									pos:        position{line: 2502, col: 37, offset: 80591},
 																									val:        "//",
 																									ignoreCase: false,
 																									want:       "\"//\"",
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 2497, col: 49, offset: 80396},
+																								pos:   position{line: 2497, col: 49, offset: 80391},
 																								label: "content",
 																								expr: &actionExpr{
-																									pos: position{line: 2851, col: 13, offset: 90361},
+																									pos: position{line: 2851, col: 13, offset: 90356},
 																									run: (*parser).callonListContinuationElement937,
 																									expr: &zeroOrMoreExpr{
-																										pos: position{line: 2851, col: 13, offset: 90361},
+																										pos: position{line: 2851, col: 13, offset: 90356},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2851, col: 13, offset: 90361},
+																											pos:        position{line: 2851, col: 13, offset: 90356},
 																											val:        "[^\\r\\n]",
 																											chars:      []rune{'\r', '\n'},
 																											ignoreCase: false,
@@ -34335,28 +34335,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2927, col: 8, offset: 92233},
+																								pos: position{line: 2927, col: 8, offset: 92228},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2914, col: 12, offset: 92006},
+																										pos: position{line: 2914, col: 12, offset: 92001},
 																										run: (*parser).callonListContinuationElement941,
 																										expr: &choiceExpr{
-																											pos: position{line: 2914, col: 13, offset: 92007},
+																											pos: position{line: 2914, col: 13, offset: 92002},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 13, offset: 92007},
+																													pos:        position{line: 2914, col: 13, offset: 92002},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 20, offset: 92014},
+																													pos:        position{line: 2914, col: 20, offset: 92009},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 29, offset: 92023},
+																													pos:        position{line: 2914, col: 29, offset: 92018},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34365,9 +34365,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2924, col: 8, offset: 92183},
+																										pos: position{line: 2924, col: 8, offset: 92178},
 																										expr: &anyMatcher{
-																											line: 2924, col: 9, offset: 92184,
+																											line: 2924, col: 9, offset: 92179,
 																										},
 																									},
 																								},
@@ -34394,18 +34394,18 @@ var g = &grammar{
 																						pos: position{line: 687, col: 14, offset: 21867},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2922, col: 11, offset: 92169},
+																								pos: position{line: 2922, col: 11, offset: 92164},
 																								expr: &anyMatcher{
-																									line: 2922, col: 13, offset: 92171,
+																									line: 2922, col: 13, offset: 92166,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 687, col: 21, offset: 21874},
 																								expr: &actionExpr{
-																									pos: position{line: 2905, col: 10, offset: 91835},
+																									pos: position{line: 2905, col: 10, offset: 91830},
 																									run: (*parser).callonListContinuationElement956,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2905, col: 10, offset: 91835},
+																										pos:        position{line: 2905, col: 10, offset: 91830},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34414,28 +34414,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2927, col: 8, offset: 92233},
+																								pos: position{line: 2927, col: 8, offset: 92228},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2914, col: 12, offset: 92006},
+																										pos: position{line: 2914, col: 12, offset: 92001},
 																										run: (*parser).callonListContinuationElement959,
 																										expr: &choiceExpr{
-																											pos: position{line: 2914, col: 13, offset: 92007},
+																											pos: position{line: 2914, col: 13, offset: 92002},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 13, offset: 92007},
+																													pos:        position{line: 2914, col: 13, offset: 92002},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 20, offset: 92014},
+																													pos:        position{line: 2914, col: 20, offset: 92009},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 29, offset: 92023},
+																													pos:        position{line: 2914, col: 29, offset: 92018},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34444,9 +34444,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2924, col: 8, offset: 92183},
+																										pos: position{line: 2924, col: 8, offset: 92178},
 																										expr: &anyMatcher{
-																											line: 2924, col: 9, offset: 92184,
+																											line: 2924, col: 9, offset: 92179,
 																										},
 																									},
 																								},
@@ -34465,12 +34465,12 @@ var g = &grammar{
 																				pos:   position{line: 1006, col: 5, offset: 31468},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2855, col: 14, offset: 90428},
+																					pos: position{line: 2855, col: 14, offset: 90423},
 																					run: (*parser).callonListContinuationElement968,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2855, col: 14, offset: 90428},
+																						pos: position{line: 2855, col: 14, offset: 90423},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2855, col: 14, offset: 90428},
+																							pos:        position{line: 2855, col: 14, offset: 90423},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34480,28 +34480,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2927, col: 8, offset: 92233},
+																				pos: position{line: 2927, col: 8, offset: 92228},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2914, col: 12, offset: 92006},
+																						pos: position{line: 2914, col: 12, offset: 92001},
 																						run: (*parser).callonListContinuationElement972,
 																						expr: &choiceExpr{
-																							pos: position{line: 2914, col: 13, offset: 92007},
+																							pos: position{line: 2914, col: 13, offset: 92002},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2914, col: 13, offset: 92007},
+																									pos:        position{line: 2914, col: 13, offset: 92002},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2914, col: 20, offset: 92014},
+																									pos:        position{line: 2914, col: 20, offset: 92009},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2914, col: 29, offset: 92023},
+																									pos:        position{line: 2914, col: 29, offset: 92018},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34510,9 +34510,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2924, col: 8, offset: 92183},
+																						pos: position{line: 2924, col: 8, offset: 92178},
 																						expr: &anyMatcher{
-																							line: 2924, col: 9, offset: 92184,
+																							line: 2924, col: 9, offset: 92179,
 																						},
 																					},
 																				},
@@ -34521,21 +34521,21 @@ var g = &grammar{
 																	},
 																},
 																&actionExpr{
-																	pos: position{line: 1811, col: 5, offset: 58525},
+																	pos: position{line: 1811, col: 5, offset: 58520},
 																	run: (*parser).callonListContinuationElement979,
 																	expr: &seqExpr{
-																		pos: position{line: 1811, col: 5, offset: 58525},
+																		pos: position{line: 1811, col: 5, offset: 58520},
 																		exprs: []interface{}{
 																			&labeledExpr{
-																				pos:   position{line: 1811, col: 5, offset: 58525},
+																				pos:   position{line: 1811, col: 5, offset: 58520},
 																				label: "content",
 																				expr: &actionExpr{
-																					pos: position{line: 2855, col: 14, offset: 90428},
+																					pos: position{line: 2855, col: 14, offset: 90423},
 																					run: (*parser).callonListContinuationElement982,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2855, col: 14, offset: 90428},
+																						pos: position{line: 2855, col: 14, offset: 90423},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2855, col: 14, offset: 90428},
+																							pos:        position{line: 2855, col: 14, offset: 90423},
 																							val:        "[^\\r\\n]",
 																							chars:      []rune{'\r', '\n'},
 																							ignoreCase: false,
@@ -34545,32 +34545,32 @@ var g = &grammar{
 																				},
 																			},
 																			&andCodeExpr{
-																				pos: position{line: 1812, col: 5, offset: 58549},
+																				pos: position{line: 1812, col: 5, offset: 58544},
 																				run: (*parser).callonListContinuationElement985,
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2927, col: 8, offset: 92233},
+																				pos: position{line: 2927, col: 8, offset: 92228},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2914, col: 12, offset: 92006},
+																						pos: position{line: 2914, col: 12, offset: 92001},
 																						run: (*parser).callonListContinuationElement987,
 																						expr: &choiceExpr{
-																							pos: position{line: 2914, col: 13, offset: 92007},
+																							pos: position{line: 2914, col: 13, offset: 92002},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2914, col: 13, offset: 92007},
+																									pos:        position{line: 2914, col: 13, offset: 92002},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2914, col: 20, offset: 92014},
+																									pos:        position{line: 2914, col: 20, offset: 92009},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2914, col: 29, offset: 92023},
+																									pos:        position{line: 2914, col: 29, offset: 92018},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34579,9 +34579,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2924, col: 8, offset: 92183},
+																						pos: position{line: 2924, col: 8, offset: 92178},
 																						expr: &anyMatcher{
-																							line: 2924, col: 9, offset: 92184,
+																							line: 2924, col: 9, offset: 92179,
 																						},
 																					},
 																				},
@@ -34628,10 +34628,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 792, col: 8, offset: 25435},
 																	expr: &actionExpr{
-																		pos: position{line: 2905, col: 10, offset: 91835},
+																		pos: position{line: 2905, col: 10, offset: 91830},
 																		run: (*parser).callonListContinuationElement1003,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 91835},
+																			pos:        position{line: 2905, col: 10, offset: 91830},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -34640,28 +34640,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonListContinuationElement1006,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -34670,9 +34670,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -34720,10 +34720,10 @@ var g = &grammar{
 																							&zeroOrMoreExpr{
 																								pos: position{line: 792, col: 8, offset: 25435},
 																								expr: &actionExpr{
-																									pos: position{line: 2905, col: 10, offset: 91835},
+																									pos: position{line: 2905, col: 10, offset: 91830},
 																									run: (*parser).callonListContinuationElement1025,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2905, col: 10, offset: 91835},
+																										pos:        position{line: 2905, col: 10, offset: 91830},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -34732,28 +34732,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2927, col: 8, offset: 92233},
+																								pos: position{line: 2927, col: 8, offset: 92228},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2914, col: 12, offset: 92006},
+																										pos: position{line: 2914, col: 12, offset: 92001},
 																										run: (*parser).callonListContinuationElement1028,
 																										expr: &choiceExpr{
-																											pos: position{line: 2914, col: 13, offset: 92007},
+																											pos: position{line: 2914, col: 13, offset: 92002},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 13, offset: 92007},
+																													pos:        position{line: 2914, col: 13, offset: 92002},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 20, offset: 92014},
+																													pos:        position{line: 2914, col: 20, offset: 92009},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 29, offset: 92023},
+																													pos:        position{line: 2914, col: 29, offset: 92018},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -34762,9 +34762,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2924, col: 8, offset: 92183},
+																										pos: position{line: 2924, col: 8, offset: 92178},
 																										expr: &anyMatcher{
-																											line: 2924, col: 9, offset: 92184,
+																											line: 2924, col: 9, offset: 92179,
 																										},
 																									},
 																								},
@@ -34773,9 +34773,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -34791,21 +34791,21 @@ var g = &grammar{
 																				pos: position{line: 825, col: 5, offset: 26574},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2922, col: 11, offset: 92169},
+																						pos: position{line: 2922, col: 11, offset: 92164},
 																						expr: &anyMatcher{
-																							line: 2922, col: 13, offset: 92171,
+																							line: 2922, col: 13, offset: 92166,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 826, col: 5, offset: 26649},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90361},
+																							pos: position{line: 2851, col: 13, offset: 90356},
 																							run: (*parser).callonListContinuationElement1043,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90361},
+																									pos:        position{line: 2851, col: 13, offset: 90356},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -34815,28 +34815,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2927, col: 8, offset: 92233},
+																						pos: position{line: 2927, col: 8, offset: 92228},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2914, col: 12, offset: 92006},
+																								pos: position{line: 2914, col: 12, offset: 92001},
 																								run: (*parser).callonListContinuationElement1047,
 																								expr: &choiceExpr{
-																									pos: position{line: 2914, col: 13, offset: 92007},
+																									pos: position{line: 2914, col: 13, offset: 92002},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92007},
+																											pos:        position{line: 2914, col: 13, offset: 92002},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 20, offset: 92014},
+																											pos:        position{line: 2914, col: 20, offset: 92009},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 29, offset: 92023},
+																											pos:        position{line: 2914, col: 29, offset: 92018},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -34845,9 +34845,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2924, col: 8, offset: 92183},
+																								pos: position{line: 2924, col: 8, offset: 92178},
 																								expr: &anyMatcher{
-																									line: 2924, col: 9, offset: 92184,
+																									line: 2924, col: 9, offset: 92179,
 																								},
 																							},
 																						},
@@ -34892,10 +34892,10 @@ var g = &grammar{
 																			&zeroOrMoreExpr{
 																				pos: position{line: 792, col: 8, offset: 25435},
 																				expr: &actionExpr{
-																					pos: position{line: 2905, col: 10, offset: 91835},
+																					pos: position{line: 2905, col: 10, offset: 91830},
 																					run: (*parser).callonListContinuationElement1063,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2905, col: 10, offset: 91835},
+																						pos:        position{line: 2905, col: 10, offset: 91830},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -34904,28 +34904,28 @@ var g = &grammar{
 																				},
 																			},
 																			&choiceExpr{
-																				pos: position{line: 2927, col: 8, offset: 92233},
+																				pos: position{line: 2927, col: 8, offset: 92228},
 																				alternatives: []interface{}{
 																					&actionExpr{
-																						pos: position{line: 2914, col: 12, offset: 92006},
+																						pos: position{line: 2914, col: 12, offset: 92001},
 																						run: (*parser).callonListContinuationElement1066,
 																						expr: &choiceExpr{
-																							pos: position{line: 2914, col: 13, offset: 92007},
+																							pos: position{line: 2914, col: 13, offset: 92002},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 2914, col: 13, offset: 92007},
+																									pos:        position{line: 2914, col: 13, offset: 92002},
 																									val:        "\n",
 																									ignoreCase: false,
 																									want:       "\"\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2914, col: 20, offset: 92014},
+																									pos:        position{line: 2914, col: 20, offset: 92009},
 																									val:        "\r\n",
 																									ignoreCase: false,
 																									want:       "\"\\r\\n\"",
 																								},
 																								&litMatcher{
-																									pos:        position{line: 2914, col: 29, offset: 92023},
+																									pos:        position{line: 2914, col: 29, offset: 92018},
 																									val:        "\r",
 																									ignoreCase: false,
 																									want:       "\"\\r\"",
@@ -34934,9 +34934,9 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 2924, col: 8, offset: 92183},
+																						pos: position{line: 2924, col: 8, offset: 92178},
 																						expr: &anyMatcher{
-																							line: 2924, col: 9, offset: 92184,
+																							line: 2924, col: 9, offset: 92179,
 																						},
 																					},
 																				},
@@ -34945,9 +34945,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2924, col: 8, offset: 92183},
+																	pos: position{line: 2924, col: 8, offset: 92178},
 																	expr: &anyMatcher{
-																		line: 2924, col: 9, offset: 92184,
+																		line: 2924, col: 9, offset: 92179,
 																	},
 																},
 															},
@@ -35003,10 +35003,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 806, col: 8, offset: 25932},
 																	expr: &actionExpr{
-																		pos: position{line: 2905, col: 10, offset: 91835},
+																		pos: position{line: 2905, col: 10, offset: 91830},
 																		run: (*parser).callonListContinuationElement1087,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 91835},
+																			pos:        position{line: 2905, col: 10, offset: 91830},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35015,28 +35015,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonListContinuationElement1090,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35045,9 +35045,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -35119,10 +35119,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25932},
 																											expr: &actionExpr{
-																												pos: position{line: 2905, col: 10, offset: 91835},
+																												pos: position{line: 2905, col: 10, offset: 91830},
 																												run: (*parser).callonListContinuationElement1115,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2905, col: 10, offset: 91835},
+																													pos:        position{line: 2905, col: 10, offset: 91830},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35131,28 +35131,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2927, col: 8, offset: 92233},
+																											pos: position{line: 2927, col: 8, offset: 92228},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2914, col: 12, offset: 92006},
+																													pos: position{line: 2914, col: 12, offset: 92001},
 																													run: (*parser).callonListContinuationElement1118,
 																													expr: &choiceExpr{
-																														pos: position{line: 2914, col: 13, offset: 92007},
+																														pos: position{line: 2914, col: 13, offset: 92002},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 13, offset: 92007},
+																																pos:        position{line: 2914, col: 13, offset: 92002},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 20, offset: 92014},
+																																pos:        position{line: 2914, col: 20, offset: 92009},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 29, offset: 92023},
+																																pos:        position{line: 2914, col: 29, offset: 92018},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35161,9 +35161,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2924, col: 8, offset: 92183},
+																													pos: position{line: 2924, col: 8, offset: 92178},
 																													expr: &anyMatcher{
-																														line: 2924, col: 9, offset: 92184,
+																														line: 2924, col: 9, offset: 92179,
 																													},
 																												},
 																											},
@@ -35179,9 +35179,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -35197,21 +35197,21 @@ var g = &grammar{
 																				pos: position{line: 825, col: 5, offset: 26574},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2922, col: 11, offset: 92169},
+																						pos: position{line: 2922, col: 11, offset: 92164},
 																						expr: &anyMatcher{
-																							line: 2922, col: 13, offset: 92171,
+																							line: 2922, col: 13, offset: 92166,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 826, col: 5, offset: 26649},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90361},
+																							pos: position{line: 2851, col: 13, offset: 90356},
 																							run: (*parser).callonListContinuationElement1134,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90361},
+																									pos:        position{line: 2851, col: 13, offset: 90356},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35221,28 +35221,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2927, col: 8, offset: 92233},
+																						pos: position{line: 2927, col: 8, offset: 92228},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2914, col: 12, offset: 92006},
+																								pos: position{line: 2914, col: 12, offset: 92001},
 																								run: (*parser).callonListContinuationElement1138,
 																								expr: &choiceExpr{
-																									pos: position{line: 2914, col: 13, offset: 92007},
+																									pos: position{line: 2914, col: 13, offset: 92002},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92007},
+																											pos:        position{line: 2914, col: 13, offset: 92002},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 20, offset: 92014},
+																											pos:        position{line: 2914, col: 20, offset: 92009},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 29, offset: 92023},
+																											pos:        position{line: 2914, col: 29, offset: 92018},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35251,9 +35251,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2924, col: 8, offset: 92183},
+																								pos: position{line: 2924, col: 8, offset: 92178},
 																								expr: &anyMatcher{
-																									line: 2924, col: 9, offset: 92184,
+																									line: 2924, col: 9, offset: 92179,
 																								},
 																							},
 																						},
@@ -35318,10 +35318,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 806, col: 8, offset: 25932},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonListContinuationElement1159,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35330,28 +35330,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonListContinuationElement1162,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35360,9 +35360,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -35378,9 +35378,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2924, col: 8, offset: 92183},
+																	pos: position{line: 2924, col: 8, offset: 92178},
 																	expr: &anyMatcher{
-																		line: 2924, col: 9, offset: 92184,
+																		line: 2924, col: 9, offset: 92179,
 																	},
 																},
 															},
@@ -35436,10 +35436,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 813, col: 8, offset: 26182},
 																	expr: &actionExpr{
-																		pos: position{line: 2905, col: 10, offset: 91835},
+																		pos: position{line: 2905, col: 10, offset: 91830},
 																		run: (*parser).callonListContinuationElement1184,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 91835},
+																			pos:        position{line: 2905, col: 10, offset: 91830},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35448,28 +35448,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonListContinuationElement1187,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35478,9 +35478,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -35552,10 +35552,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 813, col: 8, offset: 26182},
 																											expr: &actionExpr{
-																												pos: position{line: 2905, col: 10, offset: 91835},
+																												pos: position{line: 2905, col: 10, offset: 91830},
 																												run: (*parser).callonListContinuationElement1212,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2905, col: 10, offset: 91835},
+																													pos:        position{line: 2905, col: 10, offset: 91830},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35564,28 +35564,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2927, col: 8, offset: 92233},
+																											pos: position{line: 2927, col: 8, offset: 92228},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2914, col: 12, offset: 92006},
+																													pos: position{line: 2914, col: 12, offset: 92001},
 																													run: (*parser).callonListContinuationElement1215,
 																													expr: &choiceExpr{
-																														pos: position{line: 2914, col: 13, offset: 92007},
+																														pos: position{line: 2914, col: 13, offset: 92002},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 13, offset: 92007},
+																																pos:        position{line: 2914, col: 13, offset: 92002},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 20, offset: 92014},
+																																pos:        position{line: 2914, col: 20, offset: 92009},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 29, offset: 92023},
+																																pos:        position{line: 2914, col: 29, offset: 92018},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -35594,9 +35594,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2924, col: 8, offset: 92183},
+																													pos: position{line: 2924, col: 8, offset: 92178},
 																													expr: &anyMatcher{
-																														line: 2924, col: 9, offset: 92184,
+																														line: 2924, col: 9, offset: 92179,
 																													},
 																												},
 																											},
@@ -35612,9 +35612,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -35630,21 +35630,21 @@ var g = &grammar{
 																				pos: position{line: 825, col: 5, offset: 26574},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2922, col: 11, offset: 92169},
+																						pos: position{line: 2922, col: 11, offset: 92164},
 																						expr: &anyMatcher{
-																							line: 2922, col: 13, offset: 92171,
+																							line: 2922, col: 13, offset: 92166,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 826, col: 5, offset: 26649},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90361},
+																							pos: position{line: 2851, col: 13, offset: 90356},
 																							run: (*parser).callonListContinuationElement1231,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90361},
+																									pos:        position{line: 2851, col: 13, offset: 90356},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -35654,28 +35654,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2927, col: 8, offset: 92233},
+																						pos: position{line: 2927, col: 8, offset: 92228},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2914, col: 12, offset: 92006},
+																								pos: position{line: 2914, col: 12, offset: 92001},
 																								run: (*parser).callonListContinuationElement1235,
 																								expr: &choiceExpr{
-																									pos: position{line: 2914, col: 13, offset: 92007},
+																									pos: position{line: 2914, col: 13, offset: 92002},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92007},
+																											pos:        position{line: 2914, col: 13, offset: 92002},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 20, offset: 92014},
+																											pos:        position{line: 2914, col: 20, offset: 92009},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 29, offset: 92023},
+																											pos:        position{line: 2914, col: 29, offset: 92018},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -35684,9 +35684,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2924, col: 8, offset: 92183},
+																								pos: position{line: 2924, col: 8, offset: 92178},
 																								expr: &anyMatcher{
-																									line: 2924, col: 9, offset: 92184,
+																									line: 2924, col: 9, offset: 92179,
 																								},
 																							},
 																						},
@@ -35751,10 +35751,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 813, col: 8, offset: 26182},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonListContinuationElement1256,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -35763,28 +35763,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonListContinuationElement1259,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -35793,9 +35793,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -35811,9 +35811,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2924, col: 8, offset: 92183},
+																	pos: position{line: 2924, col: 8, offset: 92178},
 																	expr: &anyMatcher{
-																		line: 2924, col: 9, offset: 92184,
+																		line: 2924, col: 9, offset: 92179,
 																	},
 																},
 															},
@@ -35869,10 +35869,10 @@ var g = &grammar{
 																&zeroOrMoreExpr{
 																	pos: position{line: 820, col: 8, offset: 26428},
 																	expr: &actionExpr{
-																		pos: position{line: 2905, col: 10, offset: 91835},
+																		pos: position{line: 2905, col: 10, offset: 91830},
 																		run: (*parser).callonListContinuationElement1281,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 91835},
+																			pos:        position{line: 2905, col: 10, offset: 91830},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -35881,28 +35881,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonListContinuationElement1284,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -35911,9 +35911,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -35985,10 +35985,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 820, col: 8, offset: 26428},
 																											expr: &actionExpr{
-																												pos: position{line: 2905, col: 10, offset: 91835},
+																												pos: position{line: 2905, col: 10, offset: 91830},
 																												run: (*parser).callonListContinuationElement1309,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2905, col: 10, offset: 91835},
+																													pos:        position{line: 2905, col: 10, offset: 91830},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -35997,28 +35997,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2927, col: 8, offset: 92233},
+																											pos: position{line: 2927, col: 8, offset: 92228},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2914, col: 12, offset: 92006},
+																													pos: position{line: 2914, col: 12, offset: 92001},
 																													run: (*parser).callonListContinuationElement1312,
 																													expr: &choiceExpr{
-																														pos: position{line: 2914, col: 13, offset: 92007},
+																														pos: position{line: 2914, col: 13, offset: 92002},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 13, offset: 92007},
+																																pos:        position{line: 2914, col: 13, offset: 92002},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 20, offset: 92014},
+																																pos:        position{line: 2914, col: 20, offset: 92009},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 29, offset: 92023},
+																																pos:        position{line: 2914, col: 29, offset: 92018},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -36027,9 +36027,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2924, col: 8, offset: 92183},
+																													pos: position{line: 2924, col: 8, offset: 92178},
 																													expr: &anyMatcher{
-																														line: 2924, col: 9, offset: 92184,
+																														line: 2924, col: 9, offset: 92179,
 																													},
 																												},
 																											},
@@ -36045,9 +36045,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -36063,21 +36063,21 @@ var g = &grammar{
 																				pos: position{line: 825, col: 5, offset: 26574},
 																				exprs: []interface{}{
 																					&andExpr{
-																						pos: position{line: 2922, col: 11, offset: 92169},
+																						pos: position{line: 2922, col: 11, offset: 92164},
 																						expr: &anyMatcher{
-																							line: 2922, col: 13, offset: 92171,
+																							line: 2922, col: 13, offset: 92166,
 																						},
 																					},
 																					&labeledExpr{
 																						pos:   position{line: 826, col: 5, offset: 26649},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90361},
+																							pos: position{line: 2851, col: 13, offset: 90356},
 																							run: (*parser).callonListContinuationElement1328,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90361},
+																									pos:        position{line: 2851, col: 13, offset: 90356},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -36087,28 +36087,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2927, col: 8, offset: 92233},
+																						pos: position{line: 2927, col: 8, offset: 92228},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2914, col: 12, offset: 92006},
+																								pos: position{line: 2914, col: 12, offset: 92001},
 																								run: (*parser).callonListContinuationElement1332,
 																								expr: &choiceExpr{
-																									pos: position{line: 2914, col: 13, offset: 92007},
+																									pos: position{line: 2914, col: 13, offset: 92002},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92007},
+																											pos:        position{line: 2914, col: 13, offset: 92002},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 20, offset: 92014},
+																											pos:        position{line: 2914, col: 20, offset: 92009},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 29, offset: 92023},
+																											pos:        position{line: 2914, col: 29, offset: 92018},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -36117,9 +36117,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2924, col: 8, offset: 92183},
+																								pos: position{line: 2924, col: 8, offset: 92178},
 																								expr: &anyMatcher{
-																									line: 2924, col: 9, offset: 92184,
+																									line: 2924, col: 9, offset: 92179,
 																								},
 																							},
 																						},
@@ -36184,10 +36184,10 @@ var g = &grammar{
 																						&zeroOrMoreExpr{
 																							pos: position{line: 820, col: 8, offset: 26428},
 																							expr: &actionExpr{
-																								pos: position{line: 2905, col: 10, offset: 91835},
+																								pos: position{line: 2905, col: 10, offset: 91830},
 																								run: (*parser).callonListContinuationElement1353,
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2905, col: 10, offset: 91835},
+																									pos:        position{line: 2905, col: 10, offset: 91830},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -36196,28 +36196,28 @@ var g = &grammar{
 																							},
 																						},
 																						&choiceExpr{
-																							pos: position{line: 2927, col: 8, offset: 92233},
+																							pos: position{line: 2927, col: 8, offset: 92228},
 																							alternatives: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2914, col: 12, offset: 92006},
+																									pos: position{line: 2914, col: 12, offset: 92001},
 																									run: (*parser).callonListContinuationElement1356,
 																									expr: &choiceExpr{
-																										pos: position{line: 2914, col: 13, offset: 92007},
+																										pos: position{line: 2914, col: 13, offset: 92002},
 																										alternatives: []interface{}{
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 13, offset: 92007},
+																												pos:        position{line: 2914, col: 13, offset: 92002},
 																												val:        "\n",
 																												ignoreCase: false,
 																												want:       "\"\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 20, offset: 92014},
+																												pos:        position{line: 2914, col: 20, offset: 92009},
 																												val:        "\r\n",
 																												ignoreCase: false,
 																												want:       "\"\\r\\n\"",
 																											},
 																											&litMatcher{
-																												pos:        position{line: 2914, col: 29, offset: 92023},
+																												pos:        position{line: 2914, col: 29, offset: 92018},
 																												val:        "\r",
 																												ignoreCase: false,
 																												want:       "\"\\r\"",
@@ -36226,9 +36226,9 @@ var g = &grammar{
 																									},
 																								},
 																								&notExpr{
-																									pos: position{line: 2924, col: 8, offset: 92183},
+																									pos: position{line: 2924, col: 8, offset: 92178},
 																									expr: &anyMatcher{
-																										line: 2924, col: 9, offset: 92184,
+																										line: 2924, col: 9, offset: 92179,
 																									},
 																								},
 																							},
@@ -36244,9 +36244,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2924, col: 8, offset: 92183},
+																	pos: position{line: 2924, col: 8, offset: 92178},
 																	expr: &anyMatcher{
-																		line: 2924, col: 9, offset: 92184,
+																		line: 2924, col: 9, offset: 92179,
 																	},
 																},
 															},
@@ -36257,52 +36257,52 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2750, col: 18, offset: 87425},
+										pos: position{line: 2750, col: 18, offset: 87420},
 										run: (*parser).callonListContinuationElement1366,
 										expr: &seqExpr{
-											pos: position{line: 2750, col: 18, offset: 87425},
+											pos: position{line: 2750, col: 18, offset: 87420},
 											exprs: []interface{}{
 												&choiceExpr{
-													pos: position{line: 2751, col: 9, offset: 87435},
+													pos: position{line: 2751, col: 9, offset: 87430},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2751, col: 9, offset: 87435},
+															pos:        position{line: 2751, col: 9, offset: 87430},
 															val:        "'''",
 															ignoreCase: false,
 															want:       "\"'''\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2752, col: 11, offset: 87471},
+															pos:        position{line: 2752, col: 11, offset: 87466},
 															val:        "***",
 															ignoreCase: false,
 															want:       "\"***\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2752, col: 19, offset: 87479},
+															pos:        position{line: 2752, col: 19, offset: 87474},
 															val:        "* * *",
 															ignoreCase: false,
 															want:       "\"* * *\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2752, col: 29, offset: 87489},
+															pos:        position{line: 2752, col: 29, offset: 87484},
 															val:        "---",
 															ignoreCase: false,
 															want:       "\"---\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2752, col: 37, offset: 87497},
+															pos:        position{line: 2752, col: 37, offset: 87492},
 															val:        "- - -",
 															ignoreCase: false,
 															want:       "\"- - -\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2752, col: 47, offset: 87507},
+															pos:        position{line: 2752, col: 47, offset: 87502},
 															val:        "___",
 															ignoreCase: false,
 															want:       "\"___\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2752, col: 55, offset: 87515},
+															pos:        position{line: 2752, col: 55, offset: 87510},
 															val:        "_ _ _",
 															ignoreCase: false,
 															want:       "\"_ _ _\"",
@@ -36310,12 +36310,12 @@ var g = &grammar{
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2753, col: 11, offset: 87573},
+													pos: position{line: 2753, col: 11, offset: 87568},
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 10, offset: 91835},
+														pos: position{line: 2905, col: 10, offset: 91830},
 														run: (*parser).callonListContinuationElement1377,
 														expr: &charClassMatcher{
-															pos:        position{line: 2905, col: 10, offset: 91835},
+															pos:        position{line: 2905, col: 10, offset: 91830},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36324,28 +36324,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2927, col: 8, offset: 92233},
+													pos: position{line: 2927, col: 8, offset: 92228},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2914, col: 12, offset: 92006},
+															pos: position{line: 2914, col: 12, offset: 92001},
 															run: (*parser).callonListContinuationElement1380,
 															expr: &choiceExpr{
-																pos: position{line: 2914, col: 13, offset: 92007},
+																pos: position{line: 2914, col: 13, offset: 92002},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 13, offset: 92007},
+																		pos:        position{line: 2914, col: 13, offset: 92002},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 20, offset: 92014},
+																		pos:        position{line: 2914, col: 20, offset: 92009},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 29, offset: 92023},
+																		pos:        position{line: 2914, col: 29, offset: 92018},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36354,36 +36354,36 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2924, col: 8, offset: 92183},
+															pos: position{line: 2924, col: 8, offset: 92178},
 															expr: &anyMatcher{
-																line: 2924, col: 9, offset: 92184,
+																line: 2924, col: 9, offset: 92179,
 															},
 														},
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2927, col: 8, offset: 92233},
+													pos: position{line: 2927, col: 8, offset: 92228},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2914, col: 12, offset: 92006},
+															pos: position{line: 2914, col: 12, offset: 92001},
 															run: (*parser).callonListContinuationElement1388,
 															expr: &choiceExpr{
-																pos: position{line: 2914, col: 13, offset: 92007},
+																pos: position{line: 2914, col: 13, offset: 92002},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 13, offset: 92007},
+																		pos:        position{line: 2914, col: 13, offset: 92002},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 20, offset: 92014},
+																		pos:        position{line: 2914, col: 20, offset: 92009},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 29, offset: 92023},
+																		pos:        position{line: 2914, col: 29, offset: 92018},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36392,9 +36392,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2924, col: 8, offset: 92183},
+															pos: position{line: 2924, col: 8, offset: 92178},
 															expr: &anyMatcher{
-																line: 2924, col: 9, offset: 92184,
+																line: 2924, col: 9, offset: 92179,
 															},
 														},
 													},
@@ -36403,28 +36403,28 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1574, col: 11, offset: 50874},
+										pos:  position{line: 1574, col: 11, offset: 50869},
 										name: "ImageBlock",
 									},
 									&actionExpr{
-										pos: position{line: 2635, col: 5, offset: 84207},
+										pos: position{line: 2635, col: 5, offset: 84202},
 										run: (*parser).callonListContinuationElement1396,
 										expr: &seqExpr{
-											pos: position{line: 2635, col: 5, offset: 84207},
+											pos: position{line: 2635, col: 5, offset: 84202},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2647, col: 19, offset: 84476},
+													pos:        position{line: 2647, col: 19, offset: 84471},
 													val:        "|===",
 													ignoreCase: false,
 													want:       "\"|===\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2647, col: 26, offset: 84483},
+													pos: position{line: 2647, col: 26, offset: 84478},
 													expr: &actionExpr{
-														pos: position{line: 2905, col: 10, offset: 91835},
+														pos: position{line: 2905, col: 10, offset: 91830},
 														run: (*parser).callonListContinuationElement1400,
 														expr: &charClassMatcher{
-															pos:        position{line: 2905, col: 10, offset: 91835},
+															pos:        position{line: 2905, col: 10, offset: 91830},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -36433,28 +36433,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2927, col: 8, offset: 92233},
+													pos: position{line: 2927, col: 8, offset: 92228},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2914, col: 12, offset: 92006},
+															pos: position{line: 2914, col: 12, offset: 92001},
 															run: (*parser).callonListContinuationElement1403,
 															expr: &choiceExpr{
-																pos: position{line: 2914, col: 13, offset: 92007},
+																pos: position{line: 2914, col: 13, offset: 92002},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 13, offset: 92007},
+																		pos:        position{line: 2914, col: 13, offset: 92002},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 20, offset: 92014},
+																		pos:        position{line: 2914, col: 20, offset: 92009},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 29, offset: 92023},
+																		pos:        position{line: 2914, col: 29, offset: 92018},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -36463,46 +36463,46 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2924, col: 8, offset: 92183},
+															pos: position{line: 2924, col: 8, offset: 92178},
 															expr: &anyMatcher{
-																line: 2924, col: 9, offset: 92184,
+																line: 2924, col: 9, offset: 92179,
 															},
 														},
 													},
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 2636, col: 5, offset: 84231},
+													pos: position{line: 2636, col: 5, offset: 84226},
 													expr: &actionExpr{
-														pos: position{line: 2497, col: 22, offset: 80369},
+														pos: position{line: 2497, col: 22, offset: 80364},
 														run: (*parser).callonListContinuationElement1411,
 														expr: &seqExpr{
-															pos: position{line: 2497, col: 22, offset: 80369},
+															pos: position{line: 2497, col: 22, offset: 80364},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2502, col: 31, offset: 80590},
+																	pos:        position{line: 2502, col: 31, offset: 80585},
 																	val:        "//",
 																	ignoreCase: false,
 																	want:       "\"//\"",
 																},
 																&notExpr{
-																	pos: position{line: 2502, col: 36, offset: 80595},
+																	pos: position{line: 2502, col: 36, offset: 80590},
 																	expr: &litMatcher{
-																		pos:        position{line: 2502, col: 37, offset: 80596},
+																		pos:        position{line: 2502, col: 37, offset: 80591},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 2497, col: 49, offset: 80396},
+																	pos:   position{line: 2497, col: 49, offset: 80391},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2851, col: 13, offset: 90361},
+																		pos: position{line: 2851, col: 13, offset: 90356},
 																		run: (*parser).callonListContinuationElement1417,
 																		expr: &zeroOrMoreExpr{
-																			pos: position{line: 2851, col: 13, offset: 90361},
+																			pos: position{line: 2851, col: 13, offset: 90356},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2851, col: 13, offset: 90361},
+																				pos:        position{line: 2851, col: 13, offset: 90356},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -36512,28 +36512,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonListContinuationElement1421,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -36542,9 +36542,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -36554,21 +36554,21 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2637, col: 5, offset: 84254},
+													pos:   position{line: 2637, col: 5, offset: 84249},
 													label: "lines",
 													expr: &zeroOrMoreExpr{
-														pos: position{line: 2637, col: 11, offset: 84260},
+														pos: position{line: 2637, col: 11, offset: 84255},
 														expr: &actionExpr{
-															pos: position{line: 2638, col: 9, offset: 84270},
+															pos: position{line: 2638, col: 9, offset: 84265},
 															run: (*parser).callonListContinuationElement1430,
 															expr: &seqExpr{
-																pos: position{line: 2638, col: 9, offset: 84270},
+																pos: position{line: 2638, col: 9, offset: 84265},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2638, col: 9, offset: 84270},
+																		pos:   position{line: 2638, col: 9, offset: 84265},
 																		label: "line",
 																		expr: &choiceExpr{
-																			pos: position{line: 2638, col: 15, offset: 84276},
+																			pos: position{line: 2638, col: 15, offset: 84271},
 																			alternatives: []interface{}{
 																				&actionExpr{
 																					pos: position{line: 687, col: 14, offset: 21867},
@@ -36577,18 +36577,18 @@ var g = &grammar{
 																						pos: position{line: 687, col: 14, offset: 21867},
 																						exprs: []interface{}{
 																							&andExpr{
-																								pos: position{line: 2922, col: 11, offset: 92169},
+																								pos: position{line: 2922, col: 11, offset: 92164},
 																								expr: &anyMatcher{
-																									line: 2922, col: 13, offset: 92171,
+																									line: 2922, col: 13, offset: 92166,
 																								},
 																							},
 																							&zeroOrMoreExpr{
 																								pos: position{line: 687, col: 21, offset: 21874},
 																								expr: &actionExpr{
-																									pos: position{line: 2905, col: 10, offset: 91835},
+																									pos: position{line: 2905, col: 10, offset: 91830},
 																									run: (*parser).callonListContinuationElement1439,
 																									expr: &charClassMatcher{
-																										pos:        position{line: 2905, col: 10, offset: 91835},
+																										pos:        position{line: 2905, col: 10, offset: 91830},
 																										val:        "[\\t ]",
 																										chars:      []rune{'\t', ' '},
 																										ignoreCase: false,
@@ -36597,28 +36597,28 @@ var g = &grammar{
 																								},
 																							},
 																							&choiceExpr{
-																								pos: position{line: 2927, col: 8, offset: 92233},
+																								pos: position{line: 2927, col: 8, offset: 92228},
 																								alternatives: []interface{}{
 																									&actionExpr{
-																										pos: position{line: 2914, col: 12, offset: 92006},
+																										pos: position{line: 2914, col: 12, offset: 92001},
 																										run: (*parser).callonListContinuationElement1442,
 																										expr: &choiceExpr{
-																											pos: position{line: 2914, col: 13, offset: 92007},
+																											pos: position{line: 2914, col: 13, offset: 92002},
 																											alternatives: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 13, offset: 92007},
+																													pos:        position{line: 2914, col: 13, offset: 92002},
 																													val:        "\n",
 																													ignoreCase: false,
 																													want:       "\"\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 20, offset: 92014},
+																													pos:        position{line: 2914, col: 20, offset: 92009},
 																													val:        "\r\n",
 																													ignoreCase: false,
 																													want:       "\"\\r\\n\"",
 																												},
 																												&litMatcher{
-																													pos:        position{line: 2914, col: 29, offset: 92023},
+																													pos:        position{line: 2914, col: 29, offset: 92018},
 																													val:        "\r",
 																													ignoreCase: false,
 																													want:       "\"\\r\"",
@@ -36627,9 +36627,9 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 2924, col: 8, offset: 92183},
+																										pos: position{line: 2924, col: 8, offset: 92178},
 																										expr: &anyMatcher{
-																											line: 2924, col: 9, offset: 92184,
+																											line: 2924, col: 9, offset: 92179,
 																										},
 																									},
 																								},
@@ -36638,32 +36638,32 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2654, col: 5, offset: 84595},
+																					pos: position{line: 2654, col: 5, offset: 84590},
 																					run: (*parser).callonListContinuationElement1449,
 																					expr: &seqExpr{
-																						pos: position{line: 2654, col: 5, offset: 84595},
+																						pos: position{line: 2654, col: 5, offset: 84590},
 																						exprs: []interface{}{
 																							&notExpr{
-																								pos: position{line: 2654, col: 5, offset: 84595},
+																								pos: position{line: 2654, col: 5, offset: 84590},
 																								expr: &choiceExpr{
-																									pos: position{line: 2651, col: 22, offset: 84556},
+																									pos: position{line: 2651, col: 22, offset: 84551},
 																									alternatives: []interface{}{
 																										&seqExpr{
-																											pos: position{line: 2647, col: 19, offset: 84476},
+																											pos: position{line: 2647, col: 19, offset: 84471},
 																											exprs: []interface{}{
 																												&litMatcher{
-																													pos:        position{line: 2647, col: 19, offset: 84476},
+																													pos:        position{line: 2647, col: 19, offset: 84471},
 																													val:        "|===",
 																													ignoreCase: false,
 																													want:       "\"|===\"",
 																												},
 																												&zeroOrMoreExpr{
-																													pos: position{line: 2647, col: 26, offset: 84483},
+																													pos: position{line: 2647, col: 26, offset: 84478},
 																													expr: &actionExpr{
-																														pos: position{line: 2905, col: 10, offset: 91835},
+																														pos: position{line: 2905, col: 10, offset: 91830},
 																														run: (*parser).callonListContinuationElement1456,
 																														expr: &charClassMatcher{
-																															pos:        position{line: 2905, col: 10, offset: 91835},
+																															pos:        position{line: 2905, col: 10, offset: 91830},
 																															val:        "[\\t ]",
 																															chars:      []rune{'\t', ' '},
 																															ignoreCase: false,
@@ -36672,28 +36672,28 @@ var g = &grammar{
 																													},
 																												},
 																												&choiceExpr{
-																													pos: position{line: 2927, col: 8, offset: 92233},
+																													pos: position{line: 2927, col: 8, offset: 92228},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2914, col: 12, offset: 92006},
+																															pos: position{line: 2914, col: 12, offset: 92001},
 																															run: (*parser).callonListContinuationElement1459,
 																															expr: &choiceExpr{
-																																pos: position{line: 2914, col: 13, offset: 92007},
+																																pos: position{line: 2914, col: 13, offset: 92002},
 																																alternatives: []interface{}{
 																																	&litMatcher{
-																																		pos:        position{line: 2914, col: 13, offset: 92007},
+																																		pos:        position{line: 2914, col: 13, offset: 92002},
 																																		val:        "\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2914, col: 20, offset: 92014},
+																																		pos:        position{line: 2914, col: 20, offset: 92009},
 																																		val:        "\r\n",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\\n\"",
 																																	},
 																																	&litMatcher{
-																																		pos:        position{line: 2914, col: 29, offset: 92023},
+																																		pos:        position{line: 2914, col: 29, offset: 92018},
 																																		val:        "\r",
 																																		ignoreCase: false,
 																																		want:       "\"\\r\"",
@@ -36702,9 +36702,9 @@ var g = &grammar{
 																															},
 																														},
 																														&notExpr{
-																															pos: position{line: 2924, col: 8, offset: 92183},
+																															pos: position{line: 2924, col: 8, offset: 92178},
 																															expr: &anyMatcher{
-																																line: 2924, col: 9, offset: 92184,
+																																line: 2924, col: 9, offset: 92179,
 																															},
 																														},
 																													},
@@ -36712,59 +36712,59 @@ var g = &grammar{
 																											},
 																										},
 																										&notExpr{
-																											pos: position{line: 2924, col: 8, offset: 92183},
+																											pos: position{line: 2924, col: 8, offset: 92178},
 																											expr: &anyMatcher{
-																												line: 2924, col: 9, offset: 92184,
+																												line: 2924, col: 9, offset: 92179,
 																											},
 																										},
 																									},
 																								},
 																							},
 																							&labeledExpr{
-																								pos:   position{line: 2655, col: 5, offset: 84618},
+																								pos:   position{line: 2655, col: 5, offset: 84613},
 																								label: "content",
 																								expr: &choiceExpr{
-																									pos: position{line: 2656, col: 9, offset: 84636},
+																									pos: position{line: 2656, col: 9, offset: 84631},
 																									alternatives: []interface{}{
 																										&actionExpr{
-																											pos: position{line: 2656, col: 10, offset: 84637},
+																											pos: position{line: 2656, col: 10, offset: 84632},
 																											run: (*parser).callonListContinuationElement1470,
 																											expr: &labeledExpr{
-																												pos:   position{line: 2656, col: 10, offset: 84637},
+																												pos:   position{line: 2656, col: 10, offset: 84632},
 																												label: "cells",
 																												expr: &choiceExpr{
-																													pos: position{line: 2656, col: 17, offset: 84644},
+																													pos: position{line: 2656, col: 17, offset: 84639},
 																													alternatives: []interface{}{
 																														&actionExpr{
-																															pos: position{line: 2664, col: 21, offset: 84840},
+																															pos: position{line: 2664, col: 21, offset: 84835},
 																															run: (*parser).callonListContinuationElement1473,
 																															expr: &seqExpr{
-																																pos: position{line: 2664, col: 21, offset: 84840},
+																																pos: position{line: 2664, col: 21, offset: 84835},
 																																exprs: []interface{}{
 																																	&labeledExpr{
-																																		pos:   position{line: 2664, col: 21, offset: 84840},
+																																		pos:   position{line: 2664, col: 21, offset: 84835},
 																																		label: "cells",
 																																		expr: &oneOrMoreExpr{
-																																			pos: position{line: 2664, col: 27, offset: 84846},
+																																			pos: position{line: 2664, col: 27, offset: 84841},
 																																			expr: &actionExpr{
-																																				pos: position{line: 2669, col: 5, offset: 84921},
+																																				pos: position{line: 2669, col: 5, offset: 84916},
 																																				run: (*parser).callonListContinuationElement1477,
 																																				expr: &seqExpr{
-																																					pos: position{line: 2669, col: 5, offset: 84921},
+																																					pos: position{line: 2669, col: 5, offset: 84916},
 																																					exprs: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2669, col: 5, offset: 84921},
+																																							pos:        position{line: 2669, col: 5, offset: 84916},
 																																							val:        "|",
 																																							ignoreCase: false,
 																																							want:       "\"|\"",
 																																						},
 																																						&zeroOrMoreExpr{
-																																							pos: position{line: 2669, col: 9, offset: 84925},
+																																							pos: position{line: 2669, col: 9, offset: 84920},
 																																							expr: &actionExpr{
-																																								pos: position{line: 2905, col: 10, offset: 91835},
+																																								pos: position{line: 2905, col: 10, offset: 91830},
 																																								run: (*parser).callonListContinuationElement1481,
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2905, col: 10, offset: 91835},
+																																									pos:        position{line: 2905, col: 10, offset: 91830},
 																																									val:        "[\\t ]",
 																																									chars:      []rune{'\t', ' '},
 																																									ignoreCase: false,
@@ -36773,21 +36773,21 @@ var g = &grammar{
 																																							},
 																																						},
 																																						&labeledExpr{
-																																							pos:   position{line: 2669, col: 16, offset: 84932},
+																																							pos:   position{line: 2669, col: 16, offset: 84927},
 																																							label: "content",
 																																							expr: &actionExpr{
-																																								pos: position{line: 2675, col: 5, offset: 85132},
+																																								pos: position{line: 2675, col: 5, offset: 85127},
 																																								run: (*parser).callonListContinuationElement1484,
 																																								expr: &labeledExpr{
-																																									pos:   position{line: 2675, col: 5, offset: 85132},
+																																									pos:   position{line: 2675, col: 5, offset: 85127},
 																																									label: "content",
 																																									expr: &actionExpr{
-																																										pos: position{line: 2675, col: 14, offset: 85141},
+																																										pos: position{line: 2675, col: 14, offset: 85136},
 																																										run: (*parser).callonListContinuationElement1486,
 																																										expr: &zeroOrMoreExpr{
-																																											pos: position{line: 2675, col: 14, offset: 85141},
+																																											pos: position{line: 2675, col: 14, offset: 85136},
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2675, col: 14, offset: 85141},
+																																												pos:        position{line: 2675, col: 14, offset: 85136},
 																																												val:        "[^|\\r\\n]",
 																																												chars:      []rune{'|', '\r', '\n'},
 																																												ignoreCase: false,
@@ -36804,28 +36804,28 @@ var g = &grammar{
 																																		},
 																																	},
 																																	&choiceExpr{
-																																		pos: position{line: 2927, col: 8, offset: 92233},
+																																		pos: position{line: 2927, col: 8, offset: 92228},
 																																		alternatives: []interface{}{
 																																			&actionExpr{
-																																				pos: position{line: 2914, col: 12, offset: 92006},
+																																				pos: position{line: 2914, col: 12, offset: 92001},
 																																				run: (*parser).callonListContinuationElement1490,
 																																				expr: &choiceExpr{
-																																					pos: position{line: 2914, col: 13, offset: 92007},
+																																					pos: position{line: 2914, col: 13, offset: 92002},
 																																					alternatives: []interface{}{
 																																						&litMatcher{
-																																							pos:        position{line: 2914, col: 13, offset: 92007},
+																																							pos:        position{line: 2914, col: 13, offset: 92002},
 																																							val:        "\n",
 																																							ignoreCase: false,
 																																							want:       "\"\\n\"",
 																																						},
 																																						&litMatcher{
-																																							pos:        position{line: 2914, col: 20, offset: 92014},
+																																							pos:        position{line: 2914, col: 20, offset: 92009},
 																																							val:        "\r\n",
 																																							ignoreCase: false,
 																																							want:       "\"\\r\\n\"",
 																																						},
 																																						&litMatcher{
-																																							pos:        position{line: 2914, col: 29, offset: 92023},
+																																							pos:        position{line: 2914, col: 29, offset: 92018},
 																																							val:        "\r",
 																																							ignoreCase: false,
 																																							want:       "\"\\r\"",
@@ -36834,9 +36834,9 @@ var g = &grammar{
 																																				},
 																																			},
 																																			&notExpr{
-																																				pos: position{line: 2924, col: 8, offset: 92183},
+																																				pos: position{line: 2924, col: 8, offset: 92178},
 																																				expr: &anyMatcher{
-																																					line: 2924, col: 9, offset: 92184,
+																																					line: 2924, col: 9, offset: 92179,
 																																				},
 																																			},
 																																		},
@@ -36845,40 +36845,40 @@ var g = &grammar{
 																															},
 																														},
 																														&actionExpr{
-																															pos: position{line: 2681, col: 24, offset: 85277},
+																															pos: position{line: 2681, col: 24, offset: 85272},
 																															run: (*parser).callonListContinuationElement1497,
 																															expr: &labeledExpr{
-																																pos:   position{line: 2681, col: 24, offset: 85277},
+																																pos:   position{line: 2681, col: 24, offset: 85272},
 																																label: "cells",
 																																expr: &oneOrMoreExpr{
-																																	pos: position{line: 2681, col: 30, offset: 85283},
+																																	pos: position{line: 2681, col: 30, offset: 85278},
 																																	expr: &actionExpr{
-																																		pos: position{line: 2686, col: 5, offset: 85359},
+																																		pos: position{line: 2686, col: 5, offset: 85354},
 																																		run: (*parser).callonListContinuationElement1500,
 																																		expr: &seqExpr{
-																																			pos: position{line: 2686, col: 5, offset: 85359},
+																																			pos: position{line: 2686, col: 5, offset: 85354},
 																																			exprs: []interface{}{
 																																				&notExpr{
-																																					pos: position{line: 2686, col: 5, offset: 85359},
+																																					pos: position{line: 2686, col: 5, offset: 85354},
 																																					expr: &choiceExpr{
-																																						pos: position{line: 2651, col: 22, offset: 84556},
+																																						pos: position{line: 2651, col: 22, offset: 84551},
 																																						alternatives: []interface{}{
 																																							&seqExpr{
-																																								pos: position{line: 2647, col: 19, offset: 84476},
+																																								pos: position{line: 2647, col: 19, offset: 84471},
 																																								exprs: []interface{}{
 																																									&litMatcher{
-																																										pos:        position{line: 2647, col: 19, offset: 84476},
+																																										pos:        position{line: 2647, col: 19, offset: 84471},
 																																										val:        "|===",
 																																										ignoreCase: false,
 																																										want:       "\"|===\"",
 																																									},
 																																									&zeroOrMoreExpr{
-																																										pos: position{line: 2647, col: 26, offset: 84483},
+																																										pos: position{line: 2647, col: 26, offset: 84478},
 																																										expr: &actionExpr{
-																																											pos: position{line: 2905, col: 10, offset: 91835},
+																																											pos: position{line: 2905, col: 10, offset: 91830},
 																																											run: (*parser).callonListContinuationElement1507,
 																																											expr: &charClassMatcher{
-																																												pos:        position{line: 2905, col: 10, offset: 91835},
+																																												pos:        position{line: 2905, col: 10, offset: 91830},
 																																												val:        "[\\t ]",
 																																												chars:      []rune{'\t', ' '},
 																																												ignoreCase: false,
@@ -36887,28 +36887,28 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&choiceExpr{
-																																										pos: position{line: 2927, col: 8, offset: 92233},
+																																										pos: position{line: 2927, col: 8, offset: 92228},
 																																										alternatives: []interface{}{
 																																											&actionExpr{
-																																												pos: position{line: 2914, col: 12, offset: 92006},
+																																												pos: position{line: 2914, col: 12, offset: 92001},
 																																												run: (*parser).callonListContinuationElement1510,
 																																												expr: &choiceExpr{
-																																													pos: position{line: 2914, col: 13, offset: 92007},
+																																													pos: position{line: 2914, col: 13, offset: 92002},
 																																													alternatives: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2914, col: 13, offset: 92007},
+																																															pos:        position{line: 2914, col: 13, offset: 92002},
 																																															val:        "\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2914, col: 20, offset: 92014},
+																																															pos:        position{line: 2914, col: 20, offset: 92009},
 																																															val:        "\r\n",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\\n\"",
 																																														},
 																																														&litMatcher{
-																																															pos:        position{line: 2914, col: 29, offset: 92023},
+																																															pos:        position{line: 2914, col: 29, offset: 92018},
 																																															val:        "\r",
 																																															ignoreCase: false,
 																																															want:       "\"\\r\"",
@@ -36917,9 +36917,9 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2924, col: 8, offset: 92183},
+																																												pos: position{line: 2924, col: 8, offset: 92178},
 																																												expr: &anyMatcher{
-																																													line: 2924, col: 9, offset: 92184,
+																																													line: 2924, col: 9, offset: 92179,
 																																												},
 																																											},
 																																										},
@@ -36927,16 +36927,16 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&notExpr{
-																																								pos: position{line: 2924, col: 8, offset: 92183},
+																																								pos: position{line: 2924, col: 8, offset: 92178},
 																																								expr: &anyMatcher{
-																																									line: 2924, col: 9, offset: 92184,
+																																									line: 2924, col: 9, offset: 92179,
 																																								},
 																																							},
 																																						},
 																																					},
 																																				},
 																																				&notExpr{
-																																					pos: position{line: 2687, col: 5, offset: 85382},
+																																					pos: position{line: 2687, col: 5, offset: 85377},
 																																					expr: &actionExpr{
 																																						pos: position{line: 687, col: 14, offset: 21867},
 																																						run: (*parser).callonListContinuationElement1520,
@@ -36944,18 +36944,18 @@ var g = &grammar{
 																																							pos: position{line: 687, col: 14, offset: 21867},
 																																							exprs: []interface{}{
 																																								&andExpr{
-																																									pos: position{line: 2922, col: 11, offset: 92169},
+																																									pos: position{line: 2922, col: 11, offset: 92164},
 																																									expr: &anyMatcher{
-																																										line: 2922, col: 13, offset: 92171,
+																																										line: 2922, col: 13, offset: 92166,
 																																									},
 																																								},
 																																								&zeroOrMoreExpr{
 																																									pos: position{line: 687, col: 21, offset: 21874},
 																																									expr: &actionExpr{
-																																										pos: position{line: 2905, col: 10, offset: 91835},
+																																										pos: position{line: 2905, col: 10, offset: 91830},
 																																										run: (*parser).callonListContinuationElement1525,
 																																										expr: &charClassMatcher{
-																																											pos:        position{line: 2905, col: 10, offset: 91835},
+																																											pos:        position{line: 2905, col: 10, offset: 91830},
 																																											val:        "[\\t ]",
 																																											chars:      []rune{'\t', ' '},
 																																											ignoreCase: false,
@@ -36964,28 +36964,28 @@ var g = &grammar{
 																																									},
 																																								},
 																																								&choiceExpr{
-																																									pos: position{line: 2927, col: 8, offset: 92233},
+																																									pos: position{line: 2927, col: 8, offset: 92228},
 																																									alternatives: []interface{}{
 																																										&actionExpr{
-																																											pos: position{line: 2914, col: 12, offset: 92006},
+																																											pos: position{line: 2914, col: 12, offset: 92001},
 																																											run: (*parser).callonListContinuationElement1528,
 																																											expr: &choiceExpr{
-																																												pos: position{line: 2914, col: 13, offset: 92007},
+																																												pos: position{line: 2914, col: 13, offset: 92002},
 																																												alternatives: []interface{}{
 																																													&litMatcher{
-																																														pos:        position{line: 2914, col: 13, offset: 92007},
+																																														pos:        position{line: 2914, col: 13, offset: 92002},
 																																														val:        "\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2914, col: 20, offset: 92014},
+																																														pos:        position{line: 2914, col: 20, offset: 92009},
 																																														val:        "\r\n",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\\n\"",
 																																													},
 																																													&litMatcher{
-																																														pos:        position{line: 2914, col: 29, offset: 92023},
+																																														pos:        position{line: 2914, col: 29, offset: 92018},
 																																														val:        "\r",
 																																														ignoreCase: false,
 																																														want:       "\"\\r\"",
@@ -36994,9 +36994,9 @@ var g = &grammar{
 																																											},
 																																										},
 																																										&notExpr{
-																																											pos: position{line: 2924, col: 8, offset: 92183},
+																																											pos: position{line: 2924, col: 8, offset: 92178},
 																																											expr: &anyMatcher{
-																																												line: 2924, col: 9, offset: 92184,
+																																												line: 2924, col: 9, offset: 92179,
 																																											},
 																																										},
 																																									},
@@ -37006,17 +37006,17 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 2688, col: 5, offset: 85397},
+																																					pos:   position{line: 2688, col: 5, offset: 85392},
 																																					label: "format",
 																																					expr: &zeroOrOneExpr{
-																																						pos: position{line: 2688, col: 12, offset: 85404},
+																																						pos: position{line: 2688, col: 12, offset: 85399},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2705, col: 20, offset: 85910},
+																																							pos: position{line: 2705, col: 20, offset: 85905},
 																																							run: (*parser).callonListContinuationElement1537,
 																																							expr: &zeroOrMoreExpr{
-																																								pos: position{line: 2705, col: 20, offset: 85910},
+																																								pos: position{line: 2705, col: 20, offset: 85905},
 																																								expr: &charClassMatcher{
-																																									pos:        position{line: 2705, col: 20, offset: 85910},
+																																									pos:        position{line: 2705, col: 20, offset: 85905},
 																																									val:        "[^ |\\r\\n]",
 																																									chars:      []rune{' ', '|', '\r', '\n'},
 																																									ignoreCase: false,
@@ -37027,18 +37027,18 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&litMatcher{
-																																					pos:        position{line: 2688, col: 31, offset: 85423},
+																																					pos:        position{line: 2688, col: 31, offset: 85418},
 																																					val:        "|",
 																																					ignoreCase: false,
 																																					want:       "\"|\"",
 																																				},
 																																				&zeroOrMoreExpr{
-																																					pos: position{line: 2688, col: 35, offset: 85427},
+																																					pos: position{line: 2688, col: 35, offset: 85422},
 																																					expr: &actionExpr{
-																																						pos: position{line: 2905, col: 10, offset: 91835},
+																																						pos: position{line: 2905, col: 10, offset: 91830},
 																																						run: (*parser).callonListContinuationElement1542,
 																																						expr: &charClassMatcher{
-																																							pos:        position{line: 2905, col: 10, offset: 91835},
+																																							pos:        position{line: 2905, col: 10, offset: 91830},
 																																							val:        "[\\t ]",
 																																							chars:      []rune{'\t', ' '},
 																																							ignoreCase: false,
@@ -37047,30 +37047,30 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&zeroOrOneExpr{
-																																					pos: position{line: 2688, col: 42, offset: 85434},
+																																					pos: position{line: 2688, col: 42, offset: 85429},
 																																					expr: &seqExpr{
-																																						pos: position{line: 2688, col: 43, offset: 85435},
+																																						pos: position{line: 2688, col: 43, offset: 85430},
 																																						exprs: []interface{}{
 																																							&actionExpr{
-																																								pos: position{line: 2914, col: 12, offset: 92006},
+																																								pos: position{line: 2914, col: 12, offset: 92001},
 																																								run: (*parser).callonListContinuationElement1546,
 																																								expr: &choiceExpr{
-																																									pos: position{line: 2914, col: 13, offset: 92007},
+																																									pos: position{line: 2914, col: 13, offset: 92002},
 																																									alternatives: []interface{}{
 																																										&litMatcher{
-																																											pos:        position{line: 2914, col: 13, offset: 92007},
+																																											pos:        position{line: 2914, col: 13, offset: 92002},
 																																											val:        "\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2914, col: 20, offset: 92014},
+																																											pos:        position{line: 2914, col: 20, offset: 92009},
 																																											val:        "\r\n",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\\n\"",
 																																										},
 																																										&litMatcher{
-																																											pos:        position{line: 2914, col: 29, offset: 92023},
+																																											pos:        position{line: 2914, col: 29, offset: 92018},
 																																											val:        "\r",
 																																											ignoreCase: false,
 																																											want:       "\"\\r\"",
@@ -37079,38 +37079,38 @@ var g = &grammar{
 																																								},
 																																							},
 																																							&zeroOrMoreExpr{
-																																								pos: position{line: 2688, col: 51, offset: 85443},
+																																								pos: position{line: 2688, col: 51, offset: 85438},
 																																								expr: &actionExpr{
-																																									pos: position{line: 2497, col: 22, offset: 80369},
+																																									pos: position{line: 2497, col: 22, offset: 80364},
 																																									run: (*parser).callonListContinuationElement1552,
 																																									expr: &seqExpr{
-																																										pos: position{line: 2497, col: 22, offset: 80369},
+																																										pos: position{line: 2497, col: 22, offset: 80364},
 																																										exprs: []interface{}{
 																																											&litMatcher{
-																																												pos:        position{line: 2502, col: 31, offset: 80590},
+																																												pos:        position{line: 2502, col: 31, offset: 80585},
 																																												val:        "//",
 																																												ignoreCase: false,
 																																												want:       "\"//\"",
 																																											},
 																																											&notExpr{
-																																												pos: position{line: 2502, col: 36, offset: 80595},
+																																												pos: position{line: 2502, col: 36, offset: 80590},
 																																												expr: &litMatcher{
-																																													pos:        position{line: 2502, col: 37, offset: 80596},
+																																													pos:        position{line: 2502, col: 37, offset: 80591},
 																																													val:        "//",
 																																													ignoreCase: false,
 																																													want:       "\"//\"",
 																																												},
 																																											},
 																																											&labeledExpr{
-																																												pos:   position{line: 2497, col: 49, offset: 80396},
+																																												pos:   position{line: 2497, col: 49, offset: 80391},
 																																												label: "content",
 																																												expr: &actionExpr{
-																																													pos: position{line: 2851, col: 13, offset: 90361},
+																																													pos: position{line: 2851, col: 13, offset: 90356},
 																																													run: (*parser).callonListContinuationElement1558,
 																																													expr: &zeroOrMoreExpr{
-																																														pos: position{line: 2851, col: 13, offset: 90361},
+																																														pos: position{line: 2851, col: 13, offset: 90356},
 																																														expr: &charClassMatcher{
-																																															pos:        position{line: 2851, col: 13, offset: 90361},
+																																															pos:        position{line: 2851, col: 13, offset: 90356},
 																																															val:        "[^\\r\\n]",
 																																															chars:      []rune{'\r', '\n'},
 																																															ignoreCase: false,
@@ -37120,28 +37120,28 @@ var g = &grammar{
 																																												},
 																																											},
 																																											&choiceExpr{
-																																												pos: position{line: 2927, col: 8, offset: 92233},
+																																												pos: position{line: 2927, col: 8, offset: 92228},
 																																												alternatives: []interface{}{
 																																													&actionExpr{
-																																														pos: position{line: 2914, col: 12, offset: 92006},
+																																														pos: position{line: 2914, col: 12, offset: 92001},
 																																														run: (*parser).callonListContinuationElement1562,
 																																														expr: &choiceExpr{
-																																															pos: position{line: 2914, col: 13, offset: 92007},
+																																															pos: position{line: 2914, col: 13, offset: 92002},
 																																															alternatives: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2914, col: 13, offset: 92007},
+																																																	pos:        position{line: 2914, col: 13, offset: 92002},
 																																																	val:        "\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2914, col: 20, offset: 92014},
+																																																	pos:        position{line: 2914, col: 20, offset: 92009},
 																																																	val:        "\r\n",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\\n\"",
 																																																},
 																																																&litMatcher{
-																																																	pos:        position{line: 2914, col: 29, offset: 92023},
+																																																	pos:        position{line: 2914, col: 29, offset: 92018},
 																																																	val:        "\r",
 																																																	ignoreCase: false,
 																																																	want:       "\"\\r\"",
@@ -37150,9 +37150,9 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&notExpr{
-																																														pos: position{line: 2924, col: 8, offset: 92183},
+																																														pos: position{line: 2924, col: 8, offset: 92178},
 																																														expr: &anyMatcher{
-																																															line: 2924, col: 9, offset: 92184,
+																																															line: 2924, col: 9, offset: 92179,
 																																														},
 																																													},
 																																												},
@@ -37165,37 +37165,37 @@ var g = &grammar{
 																																					},
 																																				},
 																																				&labeledExpr{
-																																					pos:   position{line: 2688, col: 72, offset: 85464},
+																																					pos:   position{line: 2688, col: 72, offset: 85459},
 																																					label: "content",
 																																					expr: &zeroOrMoreExpr{
-																																						pos: position{line: 2694, col: 5, offset: 85623},
+																																						pos: position{line: 2694, col: 5, offset: 85618},
 																																						expr: &actionExpr{
-																																							pos: position{line: 2695, col: 9, offset: 85633},
+																																							pos: position{line: 2695, col: 9, offset: 85628},
 																																							run: (*parser).callonListContinuationElement1571,
 																																							expr: &seqExpr{
-																																								pos: position{line: 2695, col: 9, offset: 85633},
+																																								pos: position{line: 2695, col: 9, offset: 85628},
 																																								exprs: []interface{}{
 																																									&notExpr{
-																																										pos: position{line: 2695, col: 9, offset: 85633},
+																																										pos: position{line: 2695, col: 9, offset: 85628},
 																																										expr: &choiceExpr{
-																																											pos: position{line: 2651, col: 22, offset: 84556},
+																																											pos: position{line: 2651, col: 22, offset: 84551},
 																																											alternatives: []interface{}{
 																																												&seqExpr{
-																																													pos: position{line: 2647, col: 19, offset: 84476},
+																																													pos: position{line: 2647, col: 19, offset: 84471},
 																																													exprs: []interface{}{
 																																														&litMatcher{
-																																															pos:        position{line: 2647, col: 19, offset: 84476},
+																																															pos:        position{line: 2647, col: 19, offset: 84471},
 																																															val:        "|===",
 																																															ignoreCase: false,
 																																															want:       "\"|===\"",
 																																														},
 																																														&zeroOrMoreExpr{
-																																															pos: position{line: 2647, col: 26, offset: 84483},
+																																															pos: position{line: 2647, col: 26, offset: 84478},
 																																															expr: &actionExpr{
-																																																pos: position{line: 2905, col: 10, offset: 91835},
+																																																pos: position{line: 2905, col: 10, offset: 91830},
 																																																run: (*parser).callonListContinuationElement1578,
 																																																expr: &charClassMatcher{
-																																																	pos:        position{line: 2905, col: 10, offset: 91835},
+																																																	pos:        position{line: 2905, col: 10, offset: 91830},
 																																																	val:        "[\\t ]",
 																																																	chars:      []rune{'\t', ' '},
 																																																	ignoreCase: false,
@@ -37204,28 +37204,28 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&choiceExpr{
-																																															pos: position{line: 2927, col: 8, offset: 92233},
+																																															pos: position{line: 2927, col: 8, offset: 92228},
 																																															alternatives: []interface{}{
 																																																&actionExpr{
-																																																	pos: position{line: 2914, col: 12, offset: 92006},
+																																																	pos: position{line: 2914, col: 12, offset: 92001},
 																																																	run: (*parser).callonListContinuationElement1581,
 																																																	expr: &choiceExpr{
-																																																		pos: position{line: 2914, col: 13, offset: 92007},
+																																																		pos: position{line: 2914, col: 13, offset: 92002},
 																																																		alternatives: []interface{}{
 																																																			&litMatcher{
-																																																				pos:        position{line: 2914, col: 13, offset: 92007},
+																																																				pos:        position{line: 2914, col: 13, offset: 92002},
 																																																				val:        "\n",
 																																																				ignoreCase: false,
 																																																				want:       "\"\\n\"",
 																																																			},
 																																																			&litMatcher{
-																																																				pos:        position{line: 2914, col: 20, offset: 92014},
+																																																				pos:        position{line: 2914, col: 20, offset: 92009},
 																																																				val:        "\r\n",
 																																																				ignoreCase: false,
 																																																				want:       "\"\\r\\n\"",
 																																																			},
 																																																			&litMatcher{
-																																																				pos:        position{line: 2914, col: 29, offset: 92023},
+																																																				pos:        position{line: 2914, col: 29, offset: 92018},
 																																																				val:        "\r",
 																																																				ignoreCase: false,
 																																																				want:       "\"\\r\"",
@@ -37234,9 +37234,9 @@ var g = &grammar{
 																																																	},
 																																																},
 																																																&notExpr{
-																																																	pos: position{line: 2924, col: 8, offset: 92183},
+																																																	pos: position{line: 2924, col: 8, offset: 92178},
 																																																	expr: &anyMatcher{
-																																																		line: 2924, col: 9, offset: 92184,
+																																																		line: 2924, col: 9, offset: 92179,
 																																																	},
 																																																},
 																																															},
@@ -37244,16 +37244,16 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&notExpr{
-																																													pos: position{line: 2924, col: 8, offset: 92183},
+																																													pos: position{line: 2924, col: 8, offset: 92178},
 																																													expr: &anyMatcher{
-																																														line: 2924, col: 9, offset: 92184,
+																																														line: 2924, col: 9, offset: 92179,
 																																													},
 																																												},
 																																											},
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2696, col: 9, offset: 85660},
+																																										pos: position{line: 2696, col: 9, offset: 85655},
 																																										expr: &actionExpr{
 																																											pos: position{line: 687, col: 14, offset: 21867},
 																																											run: (*parser).callonListContinuationElement1591,
@@ -37261,18 +37261,18 @@ var g = &grammar{
 																																												pos: position{line: 687, col: 14, offset: 21867},
 																																												exprs: []interface{}{
 																																													&andExpr{
-																																														pos: position{line: 2922, col: 11, offset: 92169},
+																																														pos: position{line: 2922, col: 11, offset: 92164},
 																																														expr: &anyMatcher{
-																																															line: 2922, col: 13, offset: 92171,
+																																															line: 2922, col: 13, offset: 92166,
 																																														},
 																																													},
 																																													&zeroOrMoreExpr{
 																																														pos: position{line: 687, col: 21, offset: 21874},
 																																														expr: &actionExpr{
-																																															pos: position{line: 2905, col: 10, offset: 91835},
+																																															pos: position{line: 2905, col: 10, offset: 91830},
 																																															run: (*parser).callonListContinuationElement1596,
 																																															expr: &charClassMatcher{
-																																																pos:        position{line: 2905, col: 10, offset: 91835},
+																																																pos:        position{line: 2905, col: 10, offset: 91830},
 																																																val:        "[\\t ]",
 																																																chars:      []rune{'\t', ' '},
 																																																ignoreCase: false,
@@ -37281,28 +37281,28 @@ var g = &grammar{
 																																														},
 																																													},
 																																													&choiceExpr{
-																																														pos: position{line: 2927, col: 8, offset: 92233},
+																																														pos: position{line: 2927, col: 8, offset: 92228},
 																																														alternatives: []interface{}{
 																																															&actionExpr{
-																																																pos: position{line: 2914, col: 12, offset: 92006},
+																																																pos: position{line: 2914, col: 12, offset: 92001},
 																																																run: (*parser).callonListContinuationElement1599,
 																																																expr: &choiceExpr{
-																																																	pos: position{line: 2914, col: 13, offset: 92007},
+																																																	pos: position{line: 2914, col: 13, offset: 92002},
 																																																	alternatives: []interface{}{
 																																																		&litMatcher{
-																																																			pos:        position{line: 2914, col: 13, offset: 92007},
+																																																			pos:        position{line: 2914, col: 13, offset: 92002},
 																																																			val:        "\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2914, col: 20, offset: 92014},
+																																																			pos:        position{line: 2914, col: 20, offset: 92009},
 																																																			val:        "\r\n",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\\n\"",
 																																																		},
 																																																		&litMatcher{
-																																																			pos:        position{line: 2914, col: 29, offset: 92023},
+																																																			pos:        position{line: 2914, col: 29, offset: 92018},
 																																																			val:        "\r",
 																																																			ignoreCase: false,
 																																																			want:       "\"\\r\"",
@@ -37311,9 +37311,9 @@ var g = &grammar{
 																																																},
 																																															},
 																																															&notExpr{
-																																																pos: position{line: 2924, col: 8, offset: 92183},
+																																																pos: position{line: 2924, col: 8, offset: 92178},
 																																																expr: &anyMatcher{
-																																																	line: 2924, col: 9, offset: 92184,
+																																																	line: 2924, col: 9, offset: 92179,
 																																																},
 																																															},
 																																														},
@@ -37323,22 +37323,22 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&notExpr{
-																																										pos: position{line: 2697, col: 9, offset: 85679},
+																																										pos: position{line: 2697, col: 9, offset: 85674},
 																																										expr: &seqExpr{
-																																											pos: position{line: 2697, col: 11, offset: 85681},
+																																											pos: position{line: 2697, col: 11, offset: 85676},
 																																											exprs: []interface{}{
 																																												&labeledExpr{
-																																													pos:   position{line: 2697, col: 11, offset: 85681},
+																																													pos:   position{line: 2697, col: 11, offset: 85676},
 																																													label: "format",
 																																													expr: &zeroOrOneExpr{
-																																														pos: position{line: 2697, col: 18, offset: 85688},
+																																														pos: position{line: 2697, col: 18, offset: 85683},
 																																														expr: &actionExpr{
-																																															pos: position{line: 2705, col: 20, offset: 85910},
+																																															pos: position{line: 2705, col: 20, offset: 85905},
 																																															run: (*parser).callonListContinuationElement1610,
 																																															expr: &zeroOrMoreExpr{
-																																																pos: position{line: 2705, col: 20, offset: 85910},
+																																																pos: position{line: 2705, col: 20, offset: 85905},
 																																																expr: &charClassMatcher{
-																																																	pos:        position{line: 2705, col: 20, offset: 85910},
+																																																	pos:        position{line: 2705, col: 20, offset: 85905},
 																																																	val:        "[^ |\\r\\n]",
 																																																	chars:      []rune{' ', '|', '\r', '\n'},
 																																																	ignoreCase: false,
@@ -37349,7 +37349,7 @@ var g = &grammar{
 																																													},
 																																												},
 																																												&litMatcher{
-																																													pos:        position{line: 2697, col: 37, offset: 85707},
+																																													pos:        position{line: 2697, col: 37, offset: 85702},
 																																													val:        "|",
 																																													ignoreCase: false,
 																																													want:       "\"|\"",
@@ -37358,15 +37358,15 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&labeledExpr{
-																																										pos:   position{line: 2698, col: 9, offset: 85720},
+																																										pos:   position{line: 2698, col: 9, offset: 85715},
 																																										label: "content",
 																																										expr: &actionExpr{
-																																											pos: position{line: 2698, col: 18, offset: 85729},
+																																											pos: position{line: 2698, col: 18, offset: 85724},
 																																											run: (*parser).callonListContinuationElement1615,
 																																											expr: &zeroOrMoreExpr{
-																																												pos: position{line: 2698, col: 18, offset: 85729},
+																																												pos: position{line: 2698, col: 18, offset: 85724},
 																																												expr: &charClassMatcher{
-																																													pos:        position{line: 2698, col: 18, offset: 85729},
+																																													pos:        position{line: 2698, col: 18, offset: 85724},
 																																													val:        "[^|\\r\\n]",
 																																													chars:      []rune{'|', '\r', '\n'},
 																																													ignoreCase: false,
@@ -37376,33 +37376,33 @@ var g = &grammar{
 																																										},
 																																									},
 																																									&zeroOrOneExpr{
-																																										pos: position{line: 2700, col: 12, offset: 85791},
+																																										pos: position{line: 2700, col: 12, offset: 85786},
 																																										expr: &seqExpr{
-																																											pos: position{line: 2700, col: 13, offset: 85792},
+																																											pos: position{line: 2700, col: 13, offset: 85787},
 																																											exprs: []interface{}{
 																																												&choiceExpr{
-																																													pos: position{line: 2927, col: 8, offset: 92233},
+																																													pos: position{line: 2927, col: 8, offset: 92228},
 																																													alternatives: []interface{}{
 																																														&actionExpr{
-																																															pos: position{line: 2914, col: 12, offset: 92006},
+																																															pos: position{line: 2914, col: 12, offset: 92001},
 																																															run: (*parser).callonListContinuationElement1621,
 																																															expr: &choiceExpr{
-																																																pos: position{line: 2914, col: 13, offset: 92007},
+																																																pos: position{line: 2914, col: 13, offset: 92002},
 																																																alternatives: []interface{}{
 																																																	&litMatcher{
-																																																		pos:        position{line: 2914, col: 13, offset: 92007},
+																																																		pos:        position{line: 2914, col: 13, offset: 92002},
 																																																		val:        "\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2914, col: 20, offset: 92014},
+																																																		pos:        position{line: 2914, col: 20, offset: 92009},
 																																																		val:        "\r\n",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\\n\"",
 																																																	},
 																																																	&litMatcher{
-																																																		pos:        position{line: 2914, col: 29, offset: 92023},
+																																																		pos:        position{line: 2914, col: 29, offset: 92018},
 																																																		val:        "\r",
 																																																		ignoreCase: false,
 																																																		want:       "\"\\r\"",
@@ -37411,46 +37411,46 @@ var g = &grammar{
 																																															},
 																																														},
 																																														&notExpr{
-																																															pos: position{line: 2924, col: 8, offset: 92183},
+																																															pos: position{line: 2924, col: 8, offset: 92178},
 																																															expr: &anyMatcher{
-																																																line: 2924, col: 9, offset: 92184,
+																																																line: 2924, col: 9, offset: 92179,
 																																															},
 																																														},
 																																													},
 																																												},
 																																												&zeroOrMoreExpr{
-																																													pos: position{line: 2700, col: 17, offset: 85796},
+																																													pos: position{line: 2700, col: 17, offset: 85791},
 																																													expr: &actionExpr{
-																																														pos: position{line: 2497, col: 22, offset: 80369},
+																																														pos: position{line: 2497, col: 22, offset: 80364},
 																																														run: (*parser).callonListContinuationElement1629,
 																																														expr: &seqExpr{
-																																															pos: position{line: 2497, col: 22, offset: 80369},
+																																															pos: position{line: 2497, col: 22, offset: 80364},
 																																															exprs: []interface{}{
 																																																&litMatcher{
-																																																	pos:        position{line: 2502, col: 31, offset: 80590},
+																																																	pos:        position{line: 2502, col: 31, offset: 80585},
 																																																	val:        "//",
 																																																	ignoreCase: false,
 																																																	want:       "\"//\"",
 																																																},
 																																																&notExpr{
-																																																	pos: position{line: 2502, col: 36, offset: 80595},
+																																																	pos: position{line: 2502, col: 36, offset: 80590},
 																																																	expr: &litMatcher{
-																																																		pos:        position{line: 2502, col: 37, offset: 80596},
+																																																		pos:        position{line: 2502, col: 37, offset: 80591},
 																																																		val:        "//",
 																																																		ignoreCase: false,
 																																																		want:       "\"//\"",
 																																																	},
 																																																},
 																																																&labeledExpr{
-																																																	pos:   position{line: 2497, col: 49, offset: 80396},
+																																																	pos:   position{line: 2497, col: 49, offset: 80391},
 																																																	label: "content",
 																																																	expr: &actionExpr{
-																																																		pos: position{line: 2851, col: 13, offset: 90361},
+																																																		pos: position{line: 2851, col: 13, offset: 90356},
 																																																		run: (*parser).callonListContinuationElement1635,
 																																																		expr: &zeroOrMoreExpr{
-																																																			pos: position{line: 2851, col: 13, offset: 90361},
+																																																			pos: position{line: 2851, col: 13, offset: 90356},
 																																																			expr: &charClassMatcher{
-																																																				pos:        position{line: 2851, col: 13, offset: 90361},
+																																																				pos:        position{line: 2851, col: 13, offset: 90356},
 																																																				val:        "[^\\r\\n]",
 																																																				chars:      []rune{'\r', '\n'},
 																																																				ignoreCase: false,
@@ -37460,28 +37460,28 @@ var g = &grammar{
 																																																	},
 																																																},
 																																																&choiceExpr{
-																																																	pos: position{line: 2927, col: 8, offset: 92233},
+																																																	pos: position{line: 2927, col: 8, offset: 92228},
 																																																	alternatives: []interface{}{
 																																																		&actionExpr{
-																																																			pos: position{line: 2914, col: 12, offset: 92006},
+																																																			pos: position{line: 2914, col: 12, offset: 92001},
 																																																			run: (*parser).callonListContinuationElement1639,
 																																																			expr: &choiceExpr{
-																																																				pos: position{line: 2914, col: 13, offset: 92007},
+																																																				pos: position{line: 2914, col: 13, offset: 92002},
 																																																				alternatives: []interface{}{
 																																																					&litMatcher{
-																																																						pos:        position{line: 2914, col: 13, offset: 92007},
+																																																						pos:        position{line: 2914, col: 13, offset: 92002},
 																																																						val:        "\n",
 																																																						ignoreCase: false,
 																																																						want:       "\"\\n\"",
 																																																					},
 																																																					&litMatcher{
-																																																						pos:        position{line: 2914, col: 20, offset: 92014},
+																																																						pos:        position{line: 2914, col: 20, offset: 92009},
 																																																						val:        "\r\n",
 																																																						ignoreCase: false,
 																																																						want:       "\"\\r\\n\"",
 																																																					},
 																																																					&litMatcher{
-																																																						pos:        position{line: 2914, col: 29, offset: 92023},
+																																																						pos:        position{line: 2914, col: 29, offset: 92018},
 																																																						val:        "\r",
 																																																						ignoreCase: false,
 																																																						want:       "\"\\r\"",
@@ -37490,9 +37490,9 @@ var g = &grammar{
 																																																			},
 																																																		},
 																																																		&notExpr{
-																																																			pos: position{line: 2924, col: 8, offset: 92183},
+																																																			pos: position{line: 2924, col: 8, offset: 92178},
 																																																			expr: &anyMatcher{
-																																																				line: 2924, col: 9, offset: 92184,
+																																																				line: 2924, col: 9, offset: 92179,
 																																																			},
 																																																		},
 																																																	},
@@ -37526,18 +37526,18 @@ var g = &grammar{
 																												pos: position{line: 687, col: 14, offset: 21867},
 																												exprs: []interface{}{
 																													&andExpr{
-																														pos: position{line: 2922, col: 11, offset: 92169},
+																														pos: position{line: 2922, col: 11, offset: 92164},
 																														expr: &anyMatcher{
-																															line: 2922, col: 13, offset: 92171,
+																															line: 2922, col: 13, offset: 92166,
 																														},
 																													},
 																													&zeroOrMoreExpr{
 																														pos: position{line: 687, col: 21, offset: 21874},
 																														expr: &actionExpr{
-																															pos: position{line: 2905, col: 10, offset: 91835},
+																															pos: position{line: 2905, col: 10, offset: 91830},
 																															run: (*parser).callonListContinuationElement1651,
 																															expr: &charClassMatcher{
-																																pos:        position{line: 2905, col: 10, offset: 91835},
+																																pos:        position{line: 2905, col: 10, offset: 91830},
 																																val:        "[\\t ]",
 																																chars:      []rune{'\t', ' '},
 																																ignoreCase: false,
@@ -37546,28 +37546,28 @@ var g = &grammar{
 																														},
 																													},
 																													&choiceExpr{
-																														pos: position{line: 2927, col: 8, offset: 92233},
+																														pos: position{line: 2927, col: 8, offset: 92228},
 																														alternatives: []interface{}{
 																															&actionExpr{
-																																pos: position{line: 2914, col: 12, offset: 92006},
+																																pos: position{line: 2914, col: 12, offset: 92001},
 																																run: (*parser).callonListContinuationElement1654,
 																																expr: &choiceExpr{
-																																	pos: position{line: 2914, col: 13, offset: 92007},
+																																	pos: position{line: 2914, col: 13, offset: 92002},
 																																	alternatives: []interface{}{
 																																		&litMatcher{
-																																			pos:        position{line: 2914, col: 13, offset: 92007},
+																																			pos:        position{line: 2914, col: 13, offset: 92002},
 																																			val:        "\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2914, col: 20, offset: 92014},
+																																			pos:        position{line: 2914, col: 20, offset: 92009},
 																																			val:        "\r\n",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\\n\"",
 																																		},
 																																		&litMatcher{
-																																			pos:        position{line: 2914, col: 29, offset: 92023},
+																																			pos:        position{line: 2914, col: 29, offset: 92018},
 																																			val:        "\r",
 																																			ignoreCase: false,
 																																			want:       "\"\\r\"",
@@ -37576,9 +37576,9 @@ var g = &grammar{
 																																},
 																															},
 																															&notExpr{
-																																pos: position{line: 2924, col: 8, offset: 92183},
+																																pos: position{line: 2924, col: 8, offset: 92178},
 																																expr: &anyMatcher{
-																																	line: 2924, col: 9, offset: 92184,
+																																	line: 2924, col: 9, offset: 92179,
 																																},
 																															},
 																														},
@@ -37596,38 +37596,38 @@ var g = &grammar{
 																		},
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 2639, col: 9, offset: 84307},
+																		pos: position{line: 2639, col: 9, offset: 84302},
 																		expr: &actionExpr{
-																			pos: position{line: 2497, col: 22, offset: 80369},
+																			pos: position{line: 2497, col: 22, offset: 80364},
 																			run: (*parser).callonListContinuationElement1662,
 																			expr: &seqExpr{
-																				pos: position{line: 2497, col: 22, offset: 80369},
+																				pos: position{line: 2497, col: 22, offset: 80364},
 																				exprs: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2502, col: 31, offset: 80590},
+																						pos:        position{line: 2502, col: 31, offset: 80585},
 																						val:        "//",
 																						ignoreCase: false,
 																						want:       "\"//\"",
 																					},
 																					&notExpr{
-																						pos: position{line: 2502, col: 36, offset: 80595},
+																						pos: position{line: 2502, col: 36, offset: 80590},
 																						expr: &litMatcher{
-																							pos:        position{line: 2502, col: 37, offset: 80596},
+																							pos:        position{line: 2502, col: 37, offset: 80591},
 																							val:        "//",
 																							ignoreCase: false,
 																							want:       "\"//\"",
 																						},
 																					},
 																					&labeledExpr{
-																						pos:   position{line: 2497, col: 49, offset: 80396},
+																						pos:   position{line: 2497, col: 49, offset: 80391},
 																						label: "content",
 																						expr: &actionExpr{
-																							pos: position{line: 2851, col: 13, offset: 90361},
+																							pos: position{line: 2851, col: 13, offset: 90356},
 																							run: (*parser).callonListContinuationElement1668,
 																							expr: &zeroOrMoreExpr{
-																								pos: position{line: 2851, col: 13, offset: 90361},
+																								pos: position{line: 2851, col: 13, offset: 90356},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2851, col: 13, offset: 90361},
+																									pos:        position{line: 2851, col: 13, offset: 90356},
 																									val:        "[^\\r\\n]",
 																									chars:      []rune{'\r', '\n'},
 																									ignoreCase: false,
@@ -37637,28 +37637,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2927, col: 8, offset: 92233},
+																						pos: position{line: 2927, col: 8, offset: 92228},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2914, col: 12, offset: 92006},
+																								pos: position{line: 2914, col: 12, offset: 92001},
 																								run: (*parser).callonListContinuationElement1672,
 																								expr: &choiceExpr{
-																									pos: position{line: 2914, col: 13, offset: 92007},
+																									pos: position{line: 2914, col: 13, offset: 92002},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92007},
+																											pos:        position{line: 2914, col: 13, offset: 92002},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 20, offset: 92014},
+																											pos:        position{line: 2914, col: 20, offset: 92009},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 29, offset: 92023},
+																											pos:        position{line: 2914, col: 29, offset: 92018},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -37667,9 +37667,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2924, col: 8, offset: 92183},
+																								pos: position{line: 2924, col: 8, offset: 92178},
 																								expr: &anyMatcher{
-																									line: 2924, col: 9, offset: 92184,
+																									line: 2924, col: 9, offset: 92179,
 																								},
 																							},
 																						},
@@ -37684,24 +37684,24 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2651, col: 22, offset: 84556},
+													pos: position{line: 2651, col: 22, offset: 84551},
 													alternatives: []interface{}{
 														&seqExpr{
-															pos: position{line: 2647, col: 19, offset: 84476},
+															pos: position{line: 2647, col: 19, offset: 84471},
 															exprs: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2647, col: 19, offset: 84476},
+																	pos:        position{line: 2647, col: 19, offset: 84471},
 																	val:        "|===",
 																	ignoreCase: false,
 																	want:       "\"|===\"",
 																},
 																&zeroOrMoreExpr{
-																	pos: position{line: 2647, col: 26, offset: 84483},
+																	pos: position{line: 2647, col: 26, offset: 84478},
 																	expr: &actionExpr{
-																		pos: position{line: 2905, col: 10, offset: 91835},
+																		pos: position{line: 2905, col: 10, offset: 91830},
 																		run: (*parser).callonListContinuationElement1683,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 91835},
+																			pos:        position{line: 2905, col: 10, offset: 91830},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -37710,28 +37710,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonListContinuationElement1686,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -37740,9 +37740,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -37750,9 +37750,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2924, col: 8, offset: 92183},
+															pos: position{line: 2924, col: 8, offset: 92178},
 															expr: &anyMatcher{
-																line: 2924, col: 9, offset: 92184,
+																line: 2924, col: 9, offset: 92179,
 															},
 														},
 													},
@@ -37761,36 +37761,36 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2497, col: 22, offset: 80369},
+										pos: position{line: 2497, col: 22, offset: 80364},
 										run: (*parser).callonListContinuationElement1695,
 										expr: &seqExpr{
-											pos: position{line: 2497, col: 22, offset: 80369},
+											pos: position{line: 2497, col: 22, offset: 80364},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2502, col: 31, offset: 80590},
+													pos:        position{line: 2502, col: 31, offset: 80585},
 													val:        "//",
 													ignoreCase: false,
 													want:       "\"//\"",
 												},
 												&notExpr{
-													pos: position{line: 2502, col: 36, offset: 80595},
+													pos: position{line: 2502, col: 36, offset: 80590},
 													expr: &litMatcher{
-														pos:        position{line: 2502, col: 37, offset: 80596},
+														pos:        position{line: 2502, col: 37, offset: 80591},
 														val:        "//",
 														ignoreCase: false,
 														want:       "\"//\"",
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 2497, col: 49, offset: 80396},
+													pos:   position{line: 2497, col: 49, offset: 80391},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 2851, col: 13, offset: 90361},
+														pos: position{line: 2851, col: 13, offset: 90356},
 														run: (*parser).callonListContinuationElement1701,
 														expr: &zeroOrMoreExpr{
-															pos: position{line: 2851, col: 13, offset: 90361},
+															pos: position{line: 2851, col: 13, offset: 90356},
 															expr: &charClassMatcher{
-																pos:        position{line: 2851, col: 13, offset: 90361},
+																pos:        position{line: 2851, col: 13, offset: 90356},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -37800,28 +37800,28 @@ var g = &grammar{
 													},
 												},
 												&choiceExpr{
-													pos: position{line: 2927, col: 8, offset: 92233},
+													pos: position{line: 2927, col: 8, offset: 92228},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2914, col: 12, offset: 92006},
+															pos: position{line: 2914, col: 12, offset: 92001},
 															run: (*parser).callonListContinuationElement1705,
 															expr: &choiceExpr{
-																pos: position{line: 2914, col: 13, offset: 92007},
+																pos: position{line: 2914, col: 13, offset: 92002},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 13, offset: 92007},
+																		pos:        position{line: 2914, col: 13, offset: 92002},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 20, offset: 92014},
+																		pos:        position{line: 2914, col: 20, offset: 92009},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 29, offset: 92023},
+																		pos:        position{line: 2914, col: 29, offset: 92018},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -37830,9 +37830,9 @@ var g = &grammar{
 															},
 														},
 														&notExpr{
-															pos: position{line: 2924, col: 8, offset: 92183},
+															pos: position{line: 2924, col: 8, offset: 92178},
 															expr: &anyMatcher{
-																line: 2924, col: 9, offset: 92184,
+																line: 2924, col: 9, offset: 92179,
 															},
 														},
 													},
@@ -37841,94 +37841,94 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1587, col: 5, offset: 51304},
+										pos: position{line: 1587, col: 5, offset: 51299},
 										run: (*parser).callonListContinuationElement1712,
 										expr: &seqExpr{
-											pos: position{line: 1587, col: 5, offset: 51304},
+											pos: position{line: 1587, col: 5, offset: 51299},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 1587, col: 5, offset: 51304},
+													pos:   position{line: 1587, col: 5, offset: 51299},
 													label: "style",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1587, col: 11, offset: 51310},
+														pos: position{line: 1587, col: 11, offset: 51305},
 														expr: &actionExpr{
-															pos: position{line: 1752, col: 5, offset: 56659},
+															pos: position{line: 1752, col: 5, offset: 56654},
 															run: (*parser).callonListContinuationElement1716,
 															expr: &seqExpr{
-																pos: position{line: 1752, col: 5, offset: 56659},
+																pos: position{line: 1752, col: 5, offset: 56654},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 1752, col: 5, offset: 56659},
+																		pos: position{line: 1752, col: 5, offset: 56654},
 																		run: (*parser).callonListContinuationElement1718,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1755, col: 5, offset: 56722},
+																		pos:   position{line: 1755, col: 5, offset: 56717},
 																		label: "style",
 																		expr: &choiceExpr{
-																			pos: position{line: 1755, col: 12, offset: 56729},
+																			pos: position{line: 1755, col: 12, offset: 56724},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 1755, col: 12, offset: 56729},
+																					pos: position{line: 1755, col: 12, offset: 56724},
 																					run: (*parser).callonListContinuationElement1721,
 																					expr: &litMatcher{
-																						pos:        position{line: 1755, col: 12, offset: 56729},
+																						pos:        position{line: 1755, col: 12, offset: 56724},
 																						val:        "TIP: ",
 																						ignoreCase: false,
 																						want:       "\"TIP: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1757, col: 13, offset: 56785},
+																					pos: position{line: 1757, col: 13, offset: 56780},
 																					run: (*parser).callonListContinuationElement1723,
 																					expr: &litMatcher{
-																						pos:        position{line: 1757, col: 13, offset: 56785},
+																						pos:        position{line: 1757, col: 13, offset: 56780},
 																						val:        "NOTE: ",
 																						ignoreCase: false,
 																						want:       "\"NOTE: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1759, col: 13, offset: 56843},
+																					pos: position{line: 1759, col: 13, offset: 56838},
 																					run: (*parser).callonListContinuationElement1725,
 																					expr: &litMatcher{
-																						pos:        position{line: 1759, col: 13, offset: 56843},
+																						pos:        position{line: 1759, col: 13, offset: 56838},
 																						val:        "IMPORTANT: ",
 																						ignoreCase: false,
 																						want:       "\"IMPORTANT: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1761, col: 13, offset: 56911},
+																					pos: position{line: 1761, col: 13, offset: 56906},
 																					run: (*parser).callonListContinuationElement1727,
 																					expr: &litMatcher{
-																						pos:        position{line: 1761, col: 13, offset: 56911},
+																						pos:        position{line: 1761, col: 13, offset: 56906},
 																						val:        "WARNING: ",
 																						ignoreCase: false,
 																						want:       "\"WARNING: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1763, col: 13, offset: 56975},
+																					pos: position{line: 1763, col: 13, offset: 56970},
 																					run: (*parser).callonListContinuationElement1729,
 																					expr: &litMatcher{
-																						pos:        position{line: 1763, col: 13, offset: 56975},
+																						pos:        position{line: 1763, col: 13, offset: 56970},
 																						val:        "CAUTION: ",
 																						ignoreCase: false,
 																						want:       "\"CAUTION: \"",
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 1765, col: 13, offset: 57039},
+																					pos: position{line: 1765, col: 13, offset: 57034},
 																					run: (*parser).callonListContinuationElement1731,
 																					expr: &andExpr{
-																						pos: position{line: 1765, col: 13, offset: 57039},
+																						pos: position{line: 1765, col: 13, offset: 57034},
 																						expr: &actionExpr{
-																							pos: position{line: 2909, col: 11, offset: 91896},
+																							pos: position{line: 2909, col: 11, offset: 91891},
 																							run: (*parser).callonListContinuationElement1733,
 																							expr: &oneOrMoreExpr{
-																								pos: position{line: 2909, col: 11, offset: 91896},
+																								pos: position{line: 2909, col: 11, offset: 91891},
 																								expr: &charClassMatcher{
-																									pos:        position{line: 2909, col: 11, offset: 91896},
+																									pos:        position{line: 2909, col: 11, offset: 91891},
 																									val:        "[\\t ]",
 																									chars:      []rune{'\t', ' '},
 																									ignoreCase: false,
@@ -37947,16 +37947,16 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1588, col: 5, offset: 51333},
+													pos:   position{line: 1588, col: 5, offset: 51328},
 													label: "content",
 													expr: &actionExpr{
-														pos: position{line: 1531, col: 5, offset: 49683},
+														pos: position{line: 1531, col: 5, offset: 49678},
 														run: (*parser).callonListContinuationElement1737,
 														expr: &seqExpr{
-															pos: position{line: 1531, col: 5, offset: 49683},
+															pos: position{line: 1531, col: 5, offset: 49678},
 															exprs: []interface{}{
 																&notExpr{
-																	pos: position{line: 1531, col: 5, offset: 49683},
+																	pos: position{line: 1531, col: 5, offset: 49678},
 																	expr: &actionExpr{
 																		pos: position{line: 687, col: 14, offset: 21867},
 																		run: (*parser).callonListContinuationElement1740,
@@ -37964,18 +37964,18 @@ var g = &grammar{
 																			pos: position{line: 687, col: 14, offset: 21867},
 																			exprs: []interface{}{
 																				&andExpr{
-																					pos: position{line: 2922, col: 11, offset: 92169},
+																					pos: position{line: 2922, col: 11, offset: 92164},
 																					expr: &anyMatcher{
-																						line: 2922, col: 13, offset: 92171,
+																						line: 2922, col: 13, offset: 92166,
 																					},
 																				},
 																				&zeroOrMoreExpr{
 																					pos: position{line: 687, col: 21, offset: 21874},
 																					expr: &actionExpr{
-																						pos: position{line: 2905, col: 10, offset: 91835},
+																						pos: position{line: 2905, col: 10, offset: 91830},
 																						run: (*parser).callonListContinuationElement1745,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2905, col: 10, offset: 91835},
+																							pos:        position{line: 2905, col: 10, offset: 91830},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -37984,28 +37984,28 @@ var g = &grammar{
 																					},
 																				},
 																				&choiceExpr{
-																					pos: position{line: 2927, col: 8, offset: 92233},
+																					pos: position{line: 2927, col: 8, offset: 92228},
 																					alternatives: []interface{}{
 																						&actionExpr{
-																							pos: position{line: 2914, col: 12, offset: 92006},
+																							pos: position{line: 2914, col: 12, offset: 92001},
 																							run: (*parser).callonListContinuationElement1748,
 																							expr: &choiceExpr{
-																								pos: position{line: 2914, col: 13, offset: 92007},
+																								pos: position{line: 2914, col: 13, offset: 92002},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 13, offset: 92007},
+																										pos:        position{line: 2914, col: 13, offset: 92002},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 20, offset: 92014},
+																										pos:        position{line: 2914, col: 20, offset: 92009},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 29, offset: 92023},
+																										pos:        position{line: 2914, col: 29, offset: 92018},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -38014,9 +38014,9 @@ var g = &grammar{
 																							},
 																						},
 																						&notExpr{
-																							pos: position{line: 2924, col: 8, offset: 92183},
+																							pos: position{line: 2924, col: 8, offset: 92178},
 																							expr: &anyMatcher{
-																								line: 2924, col: 9, offset: 92184,
+																								line: 2924, col: 9, offset: 92179,
 																							},
 																						},
 																					},
@@ -38026,23 +38026,23 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1532, col: 5, offset: 49698},
+																	pos: position{line: 1532, col: 5, offset: 49693},
 																	expr: &seqExpr{
-																		pos: position{line: 1562, col: 27, offset: 50524},
+																		pos: position{line: 1562, col: 27, offset: 50519},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 1562, col: 27, offset: 50524},
+																				pos:        position{line: 1562, col: 27, offset: 50519},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																			&zeroOrMoreExpr{
-																				pos: position{line: 1562, col: 31, offset: 50528},
+																				pos: position{line: 1562, col: 31, offset: 50523},
 																				expr: &actionExpr{
-																					pos: position{line: 2905, col: 10, offset: 91835},
+																					pos: position{line: 2905, col: 10, offset: 91830},
 																					run: (*parser).callonListContinuationElement1759,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2905, col: 10, offset: 91835},
+																						pos:        position{line: 2905, col: 10, offset: 91830},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -38051,25 +38051,25 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92006},
+																				pos: position{line: 2914, col: 12, offset: 92001},
 																				run: (*parser).callonListContinuationElement1761,
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 13, offset: 92007},
+																					pos: position{line: 2914, col: 13, offset: 92002},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 13, offset: 92007},
+																							pos:        position{line: 2914, col: 13, offset: 92002},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 20, offset: 92014},
+																							pos:        position{line: 2914, col: 20, offset: 92009},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 29, offset: 92023},
+																							pos:        position{line: 2914, col: 29, offset: 92018},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -38081,20 +38081,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1533, col: 5, offset: 49726},
+																	pos: position{line: 1533, col: 5, offset: 49721},
 																	expr: &actionExpr{
-																		pos: position{line: 1603, col: 5, offset: 51743},
+																		pos: position{line: 1603, col: 5, offset: 51738},
 																		run: (*parser).callonListContinuationElement1767,
 																		expr: &seqExpr{
-																			pos: position{line: 1603, col: 5, offset: 51743},
+																			pos: position{line: 1603, col: 5, offset: 51738},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1603, col: 5, offset: 51743},
+																					pos: position{line: 1603, col: 5, offset: 51738},
 																					expr: &actionExpr{
-																						pos: position{line: 2905, col: 10, offset: 91835},
+																						pos: position{line: 2905, col: 10, offset: 91830},
 																						run: (*parser).callonListContinuationElement1770,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2905, col: 10, offset: 91835},
+																							pos:        position{line: 2905, col: 10, offset: 91830},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38103,27 +38103,27 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1603, col: 12, offset: 51750},
+																					pos:   position{line: 1603, col: 12, offset: 51745},
 																					label: "prefix",
 																					expr: &choiceExpr{
-																						pos: position{line: 1605, col: 9, offset: 51813},
+																						pos: position{line: 1605, col: 9, offset: 51808},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 1605, col: 9, offset: 51813},
+																								pos: position{line: 1605, col: 9, offset: 51808},
 																								run: (*parser).callonListContinuationElement1774,
 																								expr: &seqExpr{
-																									pos: position{line: 1605, col: 9, offset: 51813},
+																									pos: position{line: 1605, col: 9, offset: 51808},
 																									exprs: []interface{}{
 																										&labeledExpr{
-																											pos:   position{line: 1605, col: 9, offset: 51813},
+																											pos:   position{line: 1605, col: 9, offset: 51808},
 																											label: "depth",
 																											expr: &actionExpr{
-																												pos: position{line: 1605, col: 16, offset: 51820},
+																												pos: position{line: 1605, col: 16, offset: 51815},
 																												run: (*parser).callonListContinuationElement1777,
 																												expr: &oneOrMoreExpr{
-																													pos: position{line: 1605, col: 16, offset: 51820},
+																													pos: position{line: 1605, col: 16, offset: 51815},
 																													expr: &litMatcher{
-																														pos:        position{line: 1605, col: 17, offset: 51821},
+																														pos:        position{line: 1605, col: 17, offset: 51816},
 																														val:        ".",
 																														ignoreCase: false,
 																														want:       "\".\"",
@@ -38132,22 +38132,22 @@ var g = &grammar{
 																											},
 																										},
 																										&andCodeExpr{
-																											pos: position{line: 1609, col: 9, offset: 51921},
+																											pos: position{line: 1609, col: 9, offset: 51916},
 																											run: (*parser).callonListContinuationElement1780,
 																										},
 																									},
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1628, col: 11, offset: 52638},
+																								pos: position{line: 1628, col: 11, offset: 52633},
 																								run: (*parser).callonListContinuationElement1781,
 																								expr: &seqExpr{
-																									pos: position{line: 1628, col: 11, offset: 52638},
+																									pos: position{line: 1628, col: 11, offset: 52633},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1628, col: 11, offset: 52638},
+																											pos: position{line: 1628, col: 11, offset: 52633},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1628, col: 12, offset: 52639},
+																												pos:        position{line: 1628, col: 12, offset: 52634},
 																												val:        "[0-9]",
 																												ranges:     []rune{'0', '9'},
 																												ignoreCase: false,
@@ -38155,7 +38155,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1628, col: 20, offset: 52647},
+																											pos:        position{line: 1628, col: 20, offset: 52642},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38164,20 +38164,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1630, col: 13, offset: 52764},
+																								pos: position{line: 1630, col: 13, offset: 52759},
 																								run: (*parser).callonListContinuationElement1786,
 																								expr: &seqExpr{
-																									pos: position{line: 1630, col: 13, offset: 52764},
+																									pos: position{line: 1630, col: 13, offset: 52759},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1630, col: 14, offset: 52765},
+																											pos:        position{line: 1630, col: 14, offset: 52760},
 																											val:        "[a-z]",
 																											ranges:     []rune{'a', 'z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1630, col: 21, offset: 52772},
+																											pos:        position{line: 1630, col: 21, offset: 52767},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38186,20 +38186,20 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1632, col: 13, offset: 52892},
+																								pos: position{line: 1632, col: 13, offset: 52887},
 																								run: (*parser).callonListContinuationElement1790,
 																								expr: &seqExpr{
-																									pos: position{line: 1632, col: 13, offset: 52892},
+																									pos: position{line: 1632, col: 13, offset: 52887},
 																									exprs: []interface{}{
 																										&charClassMatcher{
-																											pos:        position{line: 1632, col: 14, offset: 52893},
+																											pos:        position{line: 1632, col: 14, offset: 52888},
 																											val:        "[A-Z]",
 																											ranges:     []rune{'A', 'Z'},
 																											ignoreCase: false,
 																											inverted:   false,
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1632, col: 21, offset: 52900},
+																											pos:        position{line: 1632, col: 21, offset: 52895},
 																											val:        ".",
 																											ignoreCase: false,
 																											want:       "\".\"",
@@ -38208,15 +38208,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1634, col: 13, offset: 53020},
+																								pos: position{line: 1634, col: 13, offset: 53015},
 																								run: (*parser).callonListContinuationElement1794,
 																								expr: &seqExpr{
-																									pos: position{line: 1634, col: 13, offset: 53020},
+																									pos: position{line: 1634, col: 13, offset: 53015},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1634, col: 13, offset: 53020},
+																											pos: position{line: 1634, col: 13, offset: 53015},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1634, col: 14, offset: 53021},
+																												pos:        position{line: 1634, col: 14, offset: 53016},
 																												val:        "[ivxdlcm]",
 																												chars:      []rune{'i', 'v', 'x', 'd', 'l', 'c', 'm'},
 																												ignoreCase: false,
@@ -38224,7 +38224,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1634, col: 26, offset: 53033},
+																											pos:        position{line: 1634, col: 26, offset: 53028},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -38233,15 +38233,15 @@ var g = &grammar{
 																								},
 																							},
 																							&actionExpr{
-																								pos: position{line: 1636, col: 13, offset: 53153},
+																								pos: position{line: 1636, col: 13, offset: 53148},
 																								run: (*parser).callonListContinuationElement1799,
 																								expr: &seqExpr{
-																									pos: position{line: 1636, col: 13, offset: 53153},
+																									pos: position{line: 1636, col: 13, offset: 53148},
 																									exprs: []interface{}{
 																										&oneOrMoreExpr{
-																											pos: position{line: 1636, col: 13, offset: 53153},
+																											pos: position{line: 1636, col: 13, offset: 53148},
 																											expr: &charClassMatcher{
-																												pos:        position{line: 1636, col: 14, offset: 53154},
+																												pos:        position{line: 1636, col: 14, offset: 53149},
 																												val:        "[IVXDLCM]",
 																												chars:      []rune{'I', 'V', 'X', 'D', 'L', 'C', 'M'},
 																												ignoreCase: false,
@@ -38249,7 +38249,7 @@ var g = &grammar{
 																											},
 																										},
 																										&litMatcher{
-																											pos:        position{line: 1636, col: 26, offset: 53166},
+																											pos:        position{line: 1636, col: 26, offset: 53161},
 																											val:        ")",
 																											ignoreCase: false,
 																											want:       "\")\"",
@@ -38261,12 +38261,12 @@ var g = &grammar{
 																					},
 																				},
 																				&actionExpr{
-																					pos: position{line: 2909, col: 11, offset: 91896},
+																					pos: position{line: 2909, col: 11, offset: 91891},
 																					run: (*parser).callonListContinuationElement1804,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2909, col: 11, offset: 91896},
+																						pos: position{line: 2909, col: 11, offset: 91891},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 11, offset: 91896},
+																							pos:        position{line: 2909, col: 11, offset: 91891},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38279,20 +38279,20 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1534, col: 5, offset: 49756},
+																	pos: position{line: 1534, col: 5, offset: 49751},
 																	expr: &actionExpr{
-																		pos: position{line: 1653, col: 5, offset: 53705},
+																		pos: position{line: 1653, col: 5, offset: 53700},
 																		run: (*parser).callonListContinuationElement1808,
 																		expr: &seqExpr{
-																			pos: position{line: 1653, col: 5, offset: 53705},
+																			pos: position{line: 1653, col: 5, offset: 53700},
 																			exprs: []interface{}{
 																				&zeroOrMoreExpr{
-																					pos: position{line: 1653, col: 5, offset: 53705},
+																					pos: position{line: 1653, col: 5, offset: 53700},
 																					expr: &actionExpr{
-																						pos: position{line: 2905, col: 10, offset: 91835},
+																						pos: position{line: 2905, col: 10, offset: 91830},
 																						run: (*parser).callonListContinuationElement1811,
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2905, col: 10, offset: 91835},
+																							pos:        position{line: 2905, col: 10, offset: 91830},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38301,24 +38301,24 @@ var g = &grammar{
 																					},
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1654, col: 5, offset: 53717},
+																					pos:   position{line: 1654, col: 5, offset: 53712},
 																					label: "style",
 																					expr: &actionExpr{
-																						pos: position{line: 1655, col: 9, offset: 53733},
+																						pos: position{line: 1655, col: 9, offset: 53728},
 																						run: (*parser).callonListContinuationElement1814,
 																						expr: &choiceExpr{
-																							pos: position{line: 1655, col: 10, offset: 53734},
+																							pos: position{line: 1655, col: 10, offset: 53729},
 																							alternatives: []interface{}{
 																								&litMatcher{
-																									pos:        position{line: 1655, col: 11, offset: 53735},
+																									pos:        position{line: 1655, col: 11, offset: 53730},
 																									val:        "-",
 																									ignoreCase: false,
 																									want:       "\"-\"",
 																								},
 																								&oneOrMoreExpr{
-																									pos: position{line: 1655, col: 18, offset: 53742},
+																									pos: position{line: 1655, col: 18, offset: 53737},
 																									expr: &litMatcher{
-																										pos:        position{line: 1655, col: 19, offset: 53743},
+																										pos:        position{line: 1655, col: 19, offset: 53738},
 																										val:        "*",
 																										ignoreCase: false,
 																										want:       "\"*\"",
@@ -38329,16 +38329,16 @@ var g = &grammar{
 																					},
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 1658, col: 7, offset: 53833},
+																					pos: position{line: 1658, col: 7, offset: 53828},
 																					run: (*parser).callonListContinuationElement1819,
 																				},
 																				&actionExpr{
-																					pos: position{line: 2909, col: 11, offset: 91896},
+																					pos: position{line: 2909, col: 11, offset: 91891},
 																					run: (*parser).callonListContinuationElement1820,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2909, col: 11, offset: 91896},
+																						pos: position{line: 2909, col: 11, offset: 91891},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 11, offset: 91896},
+																							pos:        position{line: 2909, col: 11, offset: 91891},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38351,29 +38351,29 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1535, col: 5, offset: 49788},
+																	pos: position{line: 1535, col: 5, offset: 49783},
 																	expr: &actionExpr{
-																		pos: position{line: 1743, col: 5, offset: 56274},
+																		pos: position{line: 1743, col: 5, offset: 56269},
 																		run: (*parser).callonListContinuationElement1824,
 																		expr: &seqExpr{
-																			pos: position{line: 1743, col: 5, offset: 56274},
+																			pos: position{line: 1743, col: 5, offset: 56269},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 1743, col: 5, offset: 56274},
+																					pos:        position{line: 1743, col: 5, offset: 56269},
 																					val:        "<",
 																					ignoreCase: false,
 																					want:       "\"<\"",
 																				},
 																				&labeledExpr{
-																					pos:   position{line: 1743, col: 9, offset: 56278},
+																					pos:   position{line: 1743, col: 9, offset: 56273},
 																					label: "ref",
 																					expr: &actionExpr{
-																						pos: position{line: 1743, col: 14, offset: 56283},
+																						pos: position{line: 1743, col: 14, offset: 56278},
 																						run: (*parser).callonListContinuationElement1828,
 																						expr: &oneOrMoreExpr{
-																							pos: position{line: 1743, col: 14, offset: 56283},
+																							pos: position{line: 1743, col: 14, offset: 56278},
 																							expr: &charClassMatcher{
-																								pos:        position{line: 1743, col: 14, offset: 56283},
+																								pos:        position{line: 1743, col: 14, offset: 56278},
 																								val:        "[0-9]",
 																								ranges:     []rune{'0', '9'},
 																								ignoreCase: false,
@@ -38383,18 +38383,18 @@ var g = &grammar{
 																					},
 																				},
 																				&litMatcher{
-																					pos:        position{line: 1743, col: 62, offset: 56331},
+																					pos:        position{line: 1743, col: 62, offset: 56326},
 																					val:        ">",
 																					ignoreCase: false,
 																					want:       "\">\"",
 																				},
 																				&actionExpr{
-																					pos: position{line: 2909, col: 11, offset: 91896},
+																					pos: position{line: 2909, col: 11, offset: 91891},
 																					run: (*parser).callonListContinuationElement1832,
 																					expr: &oneOrMoreExpr{
-																						pos: position{line: 2909, col: 11, offset: 91896},
+																						pos: position{line: 2909, col: 11, offset: 91891},
 																						expr: &charClassMatcher{
-																							pos:        position{line: 2909, col: 11, offset: 91896},
+																							pos:        position{line: 2909, col: 11, offset: 91891},
 																							val:        "[\\t ]",
 																							chars:      []rune{'\t', ' '},
 																							ignoreCase: false,
@@ -38407,31 +38407,31 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1536, col: 5, offset: 49818},
+																	pos: position{line: 1536, col: 5, offset: 49813},
 																	expr: &seqExpr{
-																		pos: position{line: 1536, col: 7, offset: 49820},
+																		pos: position{line: 1536, col: 7, offset: 49815},
 																		exprs: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 1688, col: 5, offset: 54724},
+																				pos: position{line: 1688, col: 5, offset: 54719},
 																				run: (*parser).callonListContinuationElement1837,
 																				expr: &seqExpr{
-																					pos: position{line: 1688, col: 5, offset: 54724},
+																					pos: position{line: 1688, col: 5, offset: 54719},
 																					exprs: []interface{}{
 																						&notExpr{
-																							pos: position{line: 1688, col: 5, offset: 54724},
+																							pos: position{line: 1688, col: 5, offset: 54719},
 																							expr: &seqExpr{
-																								pos: position{line: 2502, col: 31, offset: 80590},
+																								pos: position{line: 2502, col: 31, offset: 80585},
 																								exprs: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2502, col: 31, offset: 80590},
+																										pos:        position{line: 2502, col: 31, offset: 80585},
 																										val:        "//",
 																										ignoreCase: false,
 																										want:       "\"//\"",
 																									},
 																									&notExpr{
-																										pos: position{line: 2502, col: 36, offset: 80595},
+																										pos: position{line: 2502, col: 36, offset: 80590},
 																										expr: &litMatcher{
-																											pos:        position{line: 2502, col: 37, offset: 80596},
+																											pos:        position{line: 2502, col: 37, offset: 80591},
 																											val:        "//",
 																											ignoreCase: false,
 																											want:       "\"//\"",
@@ -38441,28 +38441,28 @@ var g = &grammar{
 																							},
 																						},
 																						&oneOrMoreExpr{
-																							pos: position{line: 1689, col: 5, offset: 54756},
+																							pos: position{line: 1689, col: 5, offset: 54751},
 																							expr: &seqExpr{
-																								pos: position{line: 1689, col: 6, offset: 54757},
+																								pos: position{line: 1689, col: 6, offset: 54752},
 																								exprs: []interface{}{
 																									&notExpr{
-																										pos: position{line: 1689, col: 6, offset: 54757},
+																										pos: position{line: 1689, col: 6, offset: 54752},
 																										expr: &actionExpr{
-																											pos: position{line: 1694, col: 5, offset: 54907},
+																											pos: position{line: 1694, col: 5, offset: 54902},
 																											run: (*parser).callonListContinuationElement1847,
 																											expr: &seqExpr{
-																												pos: position{line: 1694, col: 5, offset: 54907},
+																												pos: position{line: 1694, col: 5, offset: 54902},
 																												exprs: []interface{}{
 																													&labeledExpr{
-																														pos:   position{line: 1694, col: 5, offset: 54907},
+																														pos:   position{line: 1694, col: 5, offset: 54902},
 																														label: "separator",
 																														expr: &actionExpr{
-																															pos: position{line: 1694, col: 16, offset: 54918},
+																															pos: position{line: 1694, col: 16, offset: 54913},
 																															run: (*parser).callonListContinuationElement1850,
 																															expr: &oneOrMoreExpr{
-																																pos: position{line: 1694, col: 16, offset: 54918},
+																																pos: position{line: 1694, col: 16, offset: 54913},
 																																expr: &litMatcher{
-																																	pos:        position{line: 1694, col: 17, offset: 54919},
+																																	pos:        position{line: 1694, col: 17, offset: 54914},
 																																	val:        ":",
 																																	ignoreCase: false,
 																																	want:       "\":\"",
@@ -38471,7 +38471,7 @@ var g = &grammar{
 																														},
 																													},
 																													&andCodeExpr{
-																														pos: position{line: 1697, col: 5, offset: 54976},
+																														pos: position{line: 1697, col: 5, offset: 54971},
 																														run: (*parser).callonListContinuationElement1853,
 																													},
 																												},
@@ -38479,30 +38479,30 @@ var g = &grammar{
 																										},
 																									},
 																									&notExpr{
-																										pos: position{line: 1689, col: 35, offset: 54786},
+																										pos: position{line: 1689, col: 35, offset: 54781},
 																										expr: &choiceExpr{
-																											pos: position{line: 2927, col: 8, offset: 92233},
+																											pos: position{line: 2927, col: 8, offset: 92228},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2914, col: 12, offset: 92006},
+																													pos: position{line: 2914, col: 12, offset: 92001},
 																													run: (*parser).callonListContinuationElement1856,
 																													expr: &choiceExpr{
-																														pos: position{line: 2914, col: 13, offset: 92007},
+																														pos: position{line: 2914, col: 13, offset: 92002},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 13, offset: 92007},
+																																pos:        position{line: 2914, col: 13, offset: 92002},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 20, offset: 92014},
+																																pos:        position{line: 2914, col: 20, offset: 92009},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 29, offset: 92023},
+																																pos:        position{line: 2914, col: 29, offset: 92018},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38511,16 +38511,16 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2924, col: 8, offset: 92183},
+																													pos: position{line: 2924, col: 8, offset: 92178},
 																													expr: &anyMatcher{
-																														line: 2924, col: 9, offset: 92184,
+																														line: 2924, col: 9, offset: 92179,
 																													},
 																												},
 																											},
 																										},
 																									},
 																									&anyMatcher{
-																										line: 1689, col: 40, offset: 54791,
+																										line: 1689, col: 40, offset: 54786,
 																									},
 																								},
 																							},
@@ -38529,21 +38529,21 @@ var g = &grammar{
 																				},
 																			},
 																			&actionExpr{
-																				pos: position{line: 1694, col: 5, offset: 54907},
+																				pos: position{line: 1694, col: 5, offset: 54902},
 																				run: (*parser).callonListContinuationElement1864,
 																				expr: &seqExpr{
-																					pos: position{line: 1694, col: 5, offset: 54907},
+																					pos: position{line: 1694, col: 5, offset: 54902},
 																					exprs: []interface{}{
 																						&labeledExpr{
-																							pos:   position{line: 1694, col: 5, offset: 54907},
+																							pos:   position{line: 1694, col: 5, offset: 54902},
 																							label: "separator",
 																							expr: &actionExpr{
-																								pos: position{line: 1694, col: 16, offset: 54918},
+																								pos: position{line: 1694, col: 16, offset: 54913},
 																								run: (*parser).callonListContinuationElement1867,
 																								expr: &oneOrMoreExpr{
-																									pos: position{line: 1694, col: 16, offset: 54918},
+																									pos: position{line: 1694, col: 16, offset: 54913},
 																									expr: &litMatcher{
-																										pos:        position{line: 1694, col: 17, offset: 54919},
+																										pos:        position{line: 1694, col: 17, offset: 54914},
 																										val:        ":",
 																										ignoreCase: false,
 																										want:       "\":\"",
@@ -38552,7 +38552,7 @@ var g = &grammar{
 																							},
 																						},
 																						&andCodeExpr{
-																							pos: position{line: 1697, col: 5, offset: 54976},
+																							pos: position{line: 1697, col: 5, offset: 54971},
 																							run: (*parser).callonListContinuationElement1870,
 																						},
 																					},
@@ -38562,7 +38562,7 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 1537, col: 5, offset: 49876},
+																	pos: position{line: 1537, col: 5, offset: 49871},
 																	expr: &actionExpr{
 																		pos: position{line: 738, col: 5, offset: 23528},
 																		run: (*parser).callonListContinuationElement1872,
@@ -38572,7 +38572,7 @@ var g = &grammar{
 																				&notExpr{
 																					pos: position{line: 738, col: 5, offset: 23528},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2795, col: 13, offset: 88930},
+																						pos:        position{line: 2795, col: 13, offset: 88925},
 																						val:        "[\\pL\\pN]",
 																						classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																						ignoreCase: false,
@@ -38622,10 +38622,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 756, col: 8, offset: 24172},
 																											expr: &actionExpr{
-																												pos: position{line: 2905, col: 10, offset: 91835},
+																												pos: position{line: 2905, col: 10, offset: 91830},
 																												run: (*parser).callonListContinuationElement1887,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2905, col: 10, offset: 91835},
+																													pos:        position{line: 2905, col: 10, offset: 91830},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38634,28 +38634,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2927, col: 8, offset: 92233},
+																											pos: position{line: 2927, col: 8, offset: 92228},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2914, col: 12, offset: 92006},
+																													pos: position{line: 2914, col: 12, offset: 92001},
 																													run: (*parser).callonListContinuationElement1890,
 																													expr: &choiceExpr{
-																														pos: position{line: 2914, col: 13, offset: 92007},
+																														pos: position{line: 2914, col: 13, offset: 92002},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 13, offset: 92007},
+																																pos:        position{line: 2914, col: 13, offset: 92002},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 20, offset: 92014},
+																																pos:        position{line: 2914, col: 20, offset: 92009},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 29, offset: 92023},
+																																pos:        position{line: 2914, col: 29, offset: 92018},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38664,9 +38664,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2924, col: 8, offset: 92183},
+																													pos: position{line: 2924, col: 8, offset: 92178},
 																													expr: &anyMatcher{
-																														line: 2924, col: 9, offset: 92184,
+																														line: 2924, col: 9, offset: 92179,
 																													},
 																												},
 																											},
@@ -38711,10 +38711,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 763, col: 8, offset: 24420},
 																											expr: &actionExpr{
-																												pos: position{line: 2905, col: 10, offset: 91835},
+																												pos: position{line: 2905, col: 10, offset: 91830},
 																												run: (*parser).callonListContinuationElement1906,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2905, col: 10, offset: 91835},
+																													pos:        position{line: 2905, col: 10, offset: 91830},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38723,28 +38723,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2927, col: 8, offset: 92233},
+																											pos: position{line: 2927, col: 8, offset: 92228},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2914, col: 12, offset: 92006},
+																													pos: position{line: 2914, col: 12, offset: 92001},
 																													run: (*parser).callonListContinuationElement1909,
 																													expr: &choiceExpr{
-																														pos: position{line: 2914, col: 13, offset: 92007},
+																														pos: position{line: 2914, col: 13, offset: 92002},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 13, offset: 92007},
+																																pos:        position{line: 2914, col: 13, offset: 92002},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 20, offset: 92014},
+																																pos:        position{line: 2914, col: 20, offset: 92009},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 29, offset: 92023},
+																																pos:        position{line: 2914, col: 29, offset: 92018},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38753,9 +38753,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2924, col: 8, offset: 92183},
+																													pos: position{line: 2924, col: 8, offset: 92178},
 																													expr: &anyMatcher{
-																														line: 2924, col: 9, offset: 92184,
+																														line: 2924, col: 9, offset: 92179,
 																													},
 																												},
 																											},
@@ -38796,10 +38796,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 774, col: 52, offset: 24832},
 																											expr: &actionExpr{
-																												pos: position{line: 2905, col: 10, offset: 91835},
+																												pos: position{line: 2905, col: 10, offset: 91830},
 																												run: (*parser).callonListContinuationElement1924,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2905, col: 10, offset: 91835},
+																													pos:        position{line: 2905, col: 10, offset: 91830},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38808,28 +38808,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2927, col: 8, offset: 92233},
+																											pos: position{line: 2927, col: 8, offset: 92228},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2914, col: 12, offset: 92006},
+																													pos: position{line: 2914, col: 12, offset: 92001},
 																													run: (*parser).callonListContinuationElement1927,
 																													expr: &choiceExpr{
-																														pos: position{line: 2914, col: 13, offset: 92007},
+																														pos: position{line: 2914, col: 13, offset: 92002},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 13, offset: 92007},
+																																pos:        position{line: 2914, col: 13, offset: 92002},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 20, offset: 92014},
+																																pos:        position{line: 2914, col: 20, offset: 92009},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 29, offset: 92023},
+																																pos:        position{line: 2914, col: 29, offset: 92018},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38838,9 +38838,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2924, col: 8, offset: 92183},
+																													pos: position{line: 2924, col: 8, offset: 92178},
 																													expr: &anyMatcher{
-																														line: 2924, col: 9, offset: 92184,
+																														line: 2924, col: 9, offset: 92179,
 																													},
 																												},
 																											},
@@ -38885,10 +38885,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 770, col: 8, offset: 24666},
 																											expr: &actionExpr{
-																												pos: position{line: 2905, col: 10, offset: 91835},
+																												pos: position{line: 2905, col: 10, offset: 91830},
 																												run: (*parser).callonListContinuationElement1943,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2905, col: 10, offset: 91835},
+																													pos:        position{line: 2905, col: 10, offset: 91830},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38897,28 +38897,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2927, col: 8, offset: 92233},
+																											pos: position{line: 2927, col: 8, offset: 92228},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2914, col: 12, offset: 92006},
+																													pos: position{line: 2914, col: 12, offset: 92001},
 																													run: (*parser).callonListContinuationElement1946,
 																													expr: &choiceExpr{
-																														pos: position{line: 2914, col: 13, offset: 92007},
+																														pos: position{line: 2914, col: 13, offset: 92002},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 13, offset: 92007},
+																																pos:        position{line: 2914, col: 13, offset: 92002},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 20, offset: 92014},
+																																pos:        position{line: 2914, col: 20, offset: 92009},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 29, offset: 92023},
+																																pos:        position{line: 2914, col: 29, offset: 92018},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -38927,9 +38927,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2924, col: 8, offset: 92183},
+																													pos: position{line: 2924, col: 8, offset: 92178},
 																													expr: &anyMatcher{
-																														line: 2924, col: 9, offset: 92184,
+																														line: 2924, col: 9, offset: 92179,
 																													},
 																												},
 																											},
@@ -38974,10 +38974,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 785, col: 8, offset: 25204},
 																											expr: &actionExpr{
-																												pos: position{line: 2905, col: 10, offset: 91835},
+																												pos: position{line: 2905, col: 10, offset: 91830},
 																												run: (*parser).callonListContinuationElement1962,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2905, col: 10, offset: 91835},
+																													pos:        position{line: 2905, col: 10, offset: 91830},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -38986,28 +38986,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2927, col: 8, offset: 92233},
+																											pos: position{line: 2927, col: 8, offset: 92228},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2914, col: 12, offset: 92006},
+																													pos: position{line: 2914, col: 12, offset: 92001},
 																													run: (*parser).callonListContinuationElement1965,
 																													expr: &choiceExpr{
-																														pos: position{line: 2914, col: 13, offset: 92007},
+																														pos: position{line: 2914, col: 13, offset: 92002},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 13, offset: 92007},
+																																pos:        position{line: 2914, col: 13, offset: 92002},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 20, offset: 92014},
+																																pos:        position{line: 2914, col: 20, offset: 92009},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 29, offset: 92023},
+																																pos:        position{line: 2914, col: 29, offset: 92018},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39016,9 +39016,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2924, col: 8, offset: 92183},
+																													pos: position{line: 2924, col: 8, offset: 92178},
 																													expr: &anyMatcher{
-																														line: 2924, col: 9, offset: 92184,
+																														line: 2924, col: 9, offset: 92179,
 																													},
 																												},
 																											},
@@ -39063,10 +39063,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 799, col: 8, offset: 25680},
 																											expr: &actionExpr{
-																												pos: position{line: 2905, col: 10, offset: 91835},
+																												pos: position{line: 2905, col: 10, offset: 91830},
 																												run: (*parser).callonListContinuationElement1981,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2905, col: 10, offset: 91835},
+																													pos:        position{line: 2905, col: 10, offset: 91830},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39075,28 +39075,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2927, col: 8, offset: 92233},
+																											pos: position{line: 2927, col: 8, offset: 92228},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2914, col: 12, offset: 92006},
+																													pos: position{line: 2914, col: 12, offset: 92001},
 																													run: (*parser).callonListContinuationElement1984,
 																													expr: &choiceExpr{
-																														pos: position{line: 2914, col: 13, offset: 92007},
+																														pos: position{line: 2914, col: 13, offset: 92002},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 13, offset: 92007},
+																																pos:        position{line: 2914, col: 13, offset: 92002},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 20, offset: 92014},
+																																pos:        position{line: 2914, col: 20, offset: 92009},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 29, offset: 92023},
+																																pos:        position{line: 2914, col: 29, offset: 92018},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39105,9 +39105,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2924, col: 8, offset: 92183},
+																													pos: position{line: 2924, col: 8, offset: 92178},
 																													expr: &anyMatcher{
-																														line: 2924, col: 9, offset: 92184,
+																														line: 2924, col: 9, offset: 92179,
 																													},
 																												},
 																											},
@@ -39152,10 +39152,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 806, col: 8, offset: 25932},
 																											expr: &actionExpr{
-																												pos: position{line: 2905, col: 10, offset: 91835},
+																												pos: position{line: 2905, col: 10, offset: 91830},
 																												run: (*parser).callonListContinuationElement2000,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2905, col: 10, offset: 91835},
+																													pos:        position{line: 2905, col: 10, offset: 91830},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39164,28 +39164,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2927, col: 8, offset: 92233},
+																											pos: position{line: 2927, col: 8, offset: 92228},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2914, col: 12, offset: 92006},
+																													pos: position{line: 2914, col: 12, offset: 92001},
 																													run: (*parser).callonListContinuationElement2003,
 																													expr: &choiceExpr{
-																														pos: position{line: 2914, col: 13, offset: 92007},
+																														pos: position{line: 2914, col: 13, offset: 92002},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 13, offset: 92007},
+																																pos:        position{line: 2914, col: 13, offset: 92002},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 20, offset: 92014},
+																																pos:        position{line: 2914, col: 20, offset: 92009},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 29, offset: 92023},
+																																pos:        position{line: 2914, col: 29, offset: 92018},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39194,9 +39194,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2924, col: 8, offset: 92183},
+																													pos: position{line: 2924, col: 8, offset: 92178},
 																													expr: &anyMatcher{
-																														line: 2924, col: 9, offset: 92184,
+																														line: 2924, col: 9, offset: 92179,
 																													},
 																												},
 																											},
@@ -39241,10 +39241,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 813, col: 8, offset: 26182},
 																											expr: &actionExpr{
-																												pos: position{line: 2905, col: 10, offset: 91835},
+																												pos: position{line: 2905, col: 10, offset: 91830},
 																												run: (*parser).callonListContinuationElement2019,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2905, col: 10, offset: 91835},
+																													pos:        position{line: 2905, col: 10, offset: 91830},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39253,28 +39253,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2927, col: 8, offset: 92233},
+																											pos: position{line: 2927, col: 8, offset: 92228},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2914, col: 12, offset: 92006},
+																													pos: position{line: 2914, col: 12, offset: 92001},
 																													run: (*parser).callonListContinuationElement2022,
 																													expr: &choiceExpr{
-																														pos: position{line: 2914, col: 13, offset: 92007},
+																														pos: position{line: 2914, col: 13, offset: 92002},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 13, offset: 92007},
+																																pos:        position{line: 2914, col: 13, offset: 92002},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 20, offset: 92014},
+																																pos:        position{line: 2914, col: 20, offset: 92009},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 29, offset: 92023},
+																																pos:        position{line: 2914, col: 29, offset: 92018},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39283,9 +39283,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2924, col: 8, offset: 92183},
+																													pos: position{line: 2924, col: 8, offset: 92178},
 																													expr: &anyMatcher{
-																														line: 2924, col: 9, offset: 92184,
+																														line: 2924, col: 9, offset: 92179,
 																													},
 																												},
 																											},
@@ -39330,10 +39330,10 @@ var g = &grammar{
 																										&zeroOrMoreExpr{
 																											pos: position{line: 820, col: 8, offset: 26428},
 																											expr: &actionExpr{
-																												pos: position{line: 2905, col: 10, offset: 91835},
+																												pos: position{line: 2905, col: 10, offset: 91830},
 																												run: (*parser).callonListContinuationElement2038,
 																												expr: &charClassMatcher{
-																													pos:        position{line: 2905, col: 10, offset: 91835},
+																													pos:        position{line: 2905, col: 10, offset: 91830},
 																													val:        "[\\t ]",
 																													chars:      []rune{'\t', ' '},
 																													ignoreCase: false,
@@ -39342,28 +39342,28 @@ var g = &grammar{
 																											},
 																										},
 																										&choiceExpr{
-																											pos: position{line: 2927, col: 8, offset: 92233},
+																											pos: position{line: 2927, col: 8, offset: 92228},
 																											alternatives: []interface{}{
 																												&actionExpr{
-																													pos: position{line: 2914, col: 12, offset: 92006},
+																													pos: position{line: 2914, col: 12, offset: 92001},
 																													run: (*parser).callonListContinuationElement2041,
 																													expr: &choiceExpr{
-																														pos: position{line: 2914, col: 13, offset: 92007},
+																														pos: position{line: 2914, col: 13, offset: 92002},
 																														alternatives: []interface{}{
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 13, offset: 92007},
+																																pos:        position{line: 2914, col: 13, offset: 92002},
 																																val:        "\n",
 																																ignoreCase: false,
 																																want:       "\"\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 20, offset: 92014},
+																																pos:        position{line: 2914, col: 20, offset: 92009},
 																																val:        "\r\n",
 																																ignoreCase: false,
 																																want:       "\"\\r\\n\"",
 																															},
 																															&litMatcher{
-																																pos:        position{line: 2914, col: 29, offset: 92023},
+																																pos:        position{line: 2914, col: 29, offset: 92018},
 																																val:        "\r",
 																																ignoreCase: false,
 																																want:       "\"\\r\"",
@@ -39372,9 +39372,9 @@ var g = &grammar{
 																													},
 																												},
 																												&notExpr{
-																													pos: position{line: 2924, col: 8, offset: 92183},
+																													pos: position{line: 2924, col: 8, offset: 92178},
 																													expr: &anyMatcher{
-																														line: 2924, col: 9, offset: 92184,
+																														line: 2924, col: 9, offset: 92179,
 																													},
 																												},
 																											},
@@ -39390,15 +39390,15 @@ var g = &grammar{
 																	},
 																},
 																&labeledExpr{
-																	pos:   position{line: 1538, col: 5, offset: 49896},
+																	pos:   position{line: 1538, col: 5, offset: 49891},
 																	label: "content",
 																	expr: &actionExpr{
-																		pos: position{line: 2855, col: 14, offset: 90428},
+																		pos: position{line: 2855, col: 14, offset: 90423},
 																		run: (*parser).callonListContinuationElement2049,
 																		expr: &oneOrMoreExpr{
-																			pos: position{line: 2855, col: 14, offset: 90428},
+																			pos: position{line: 2855, col: 14, offset: 90423},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2855, col: 14, offset: 90428},
+																				pos:        position{line: 2855, col: 14, offset: 90423},
 																				val:        "[^\\r\\n]",
 																				chars:      []rune{'\r', '\n'},
 																				ignoreCase: false,
@@ -39408,28 +39408,28 @@ var g = &grammar{
 																	},
 																},
 																&choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonListContinuationElement2053,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -39438,9 +39438,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -39461,33 +39461,33 @@ var g = &grammar{
 		},
 		{
 			name: "Callout",
-			pos:  position{line: 1727, col: 1, offset: 55768},
+			pos:  position{line: 1727, col: 1, offset: 55763},
 			expr: &actionExpr{
-				pos: position{line: 1729, col: 5, offset: 55846},
+				pos: position{line: 1729, col: 5, offset: 55841},
 				run: (*parser).callonCallout1,
 				expr: &seqExpr{
-					pos: position{line: 1729, col: 5, offset: 55846},
+					pos: position{line: 1729, col: 5, offset: 55841},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 1729, col: 5, offset: 55846},
+							pos: position{line: 1729, col: 5, offset: 55841},
 							run: (*parser).callonCallout3,
 						},
 						&litMatcher{
-							pos:        position{line: 1732, col: 5, offset: 55913},
+							pos:        position{line: 1732, col: 5, offset: 55908},
 							val:        "<",
 							ignoreCase: false,
 							want:       "\"<\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1732, col: 9, offset: 55917},
+							pos:   position{line: 1732, col: 9, offset: 55912},
 							label: "ref",
 							expr: &actionExpr{
-								pos: position{line: 1732, col: 14, offset: 55922},
+								pos: position{line: 1732, col: 14, offset: 55917},
 								run: (*parser).callonCallout6,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1732, col: 14, offset: 55922},
+									pos: position{line: 1732, col: 14, offset: 55917},
 									expr: &charClassMatcher{
-										pos:        position{line: 1732, col: 14, offset: 55922},
+										pos:        position{line: 1732, col: 14, offset: 55917},
 										val:        "[0-9]",
 										ranges:     []rune{'0', '9'},
 										ignoreCase: false,
@@ -39497,18 +39497,18 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1732, col: 62, offset: 55970},
+							pos:        position{line: 1732, col: 62, offset: 55965},
 							val:        ">",
 							ignoreCase: false,
 							want:       "\">\"",
 						},
 						&zeroOrMoreExpr{
-							pos: position{line: 1732, col: 66, offset: 55974},
+							pos: position{line: 1732, col: 66, offset: 55969},
 							expr: &actionExpr{
-								pos: position{line: 2905, col: 10, offset: 91835},
+								pos: position{line: 2905, col: 10, offset: 91830},
 								run: (*parser).callonCallout11,
 								expr: &charClassMatcher{
-									pos:        position{line: 2905, col: 10, offset: 91835},
+									pos:        position{line: 2905, col: 10, offset: 91830},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -39517,30 +39517,30 @@ var g = &grammar{
 							},
 						},
 						&andExpr{
-							pos: position{line: 1732, col: 73, offset: 55981},
+							pos: position{line: 1732, col: 73, offset: 55976},
 							expr: &choiceExpr{
-								pos: position{line: 1732, col: 75, offset: 55983},
+								pos: position{line: 1732, col: 75, offset: 55978},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2914, col: 12, offset: 92006},
+										pos: position{line: 2914, col: 12, offset: 92001},
 										run: (*parser).callonCallout15,
 										expr: &choiceExpr{
-											pos: position{line: 2914, col: 13, offset: 92007},
+											pos: position{line: 2914, col: 13, offset: 92002},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2914, col: 13, offset: 92007},
+													pos:        position{line: 2914, col: 13, offset: 92002},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2914, col: 20, offset: 92014},
+													pos:        position{line: 2914, col: 20, offset: 92009},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2914, col: 29, offset: 92023},
+													pos:        position{line: 2914, col: 29, offset: 92018},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -39549,13 +39549,13 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2924, col: 8, offset: 92183},
+										pos: position{line: 2924, col: 8, offset: 92178},
 										expr: &anyMatcher{
-											line: 2924, col: 9, offset: 92184,
+											line: 2924, col: 9, offset: 92179,
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1732, col: 81, offset: 55989},
+										pos:  position{line: 1732, col: 81, offset: 55984},
 										name: "Callout",
 									},
 								},
@@ -39567,44 +39567,44 @@ var g = &grammar{
 		},
 		{
 			name: "ShortcutParagraph",
-			pos:  position{line: 1771, col: 1, offset: 57162},
+			pos:  position{line: 1771, col: 1, offset: 57157},
 			expr: &actionExpr{
-				pos: position{line: 1773, col: 5, offset: 57236},
+				pos: position{line: 1773, col: 5, offset: 57231},
 				run: (*parser).callonShortcutParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1773, col: 5, offset: 57236},
+					pos: position{line: 1773, col: 5, offset: 57231},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 1773, col: 5, offset: 57236},
+							pos: position{line: 1773, col: 5, offset: 57231},
 							expr: &seqExpr{
-								pos: position{line: 1773, col: 7, offset: 57238},
+								pos: position{line: 1773, col: 7, offset: 57233},
 								exprs: []interface{}{
 									&charClassMatcher{
-										pos:        position{line: 2795, col: 13, offset: 88930},
+										pos:        position{line: 2795, col: 13, offset: 88925},
 										val:        "[\\pL\\pN]",
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 										ignoreCase: false,
 										inverted:   false,
 									},
 									&notExpr{
-										pos: position{line: 1773, col: 16, offset: 57247},
+										pos: position{line: 1773, col: 16, offset: 57242},
 										expr: &seqExpr{
-											pos: position{line: 1773, col: 18, offset: 57249},
+											pos: position{line: 1773, col: 18, offset: 57244},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 1773, col: 19, offset: 57250},
+													pos:        position{line: 1773, col: 19, offset: 57245},
 													val:        "[.)]",
 													chars:      []rune{'.', ')'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&actionExpr{
-													pos: position{line: 2909, col: 11, offset: 91896},
+													pos: position{line: 2909, col: 11, offset: 91891},
 													run: (*parser).callonShortcutParagraph9,
 													expr: &oneOrMoreExpr{
-														pos: position{line: 2909, col: 11, offset: 91896},
+														pos: position{line: 2909, col: 11, offset: 91891},
 														expr: &charClassMatcher{
-															pos:        position{line: 2909, col: 11, offset: 91896},
+															pos:        position{line: 2909, col: 11, offset: 91891},
 															val:        "[\\t ]",
 															chars:      []rune{'\t', ' '},
 															ignoreCase: false,
@@ -39619,88 +39619,88 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1774, col: 5, offset: 57390},
+							pos:   position{line: 1774, col: 5, offset: 57385},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1774, col: 11, offset: 57396},
+								pos: position{line: 1774, col: 11, offset: 57391},
 								expr: &actionExpr{
-									pos: position{line: 1752, col: 5, offset: 56659},
+									pos: position{line: 1752, col: 5, offset: 56654},
 									run: (*parser).callonShortcutParagraph14,
 									expr: &seqExpr{
-										pos: position{line: 1752, col: 5, offset: 56659},
+										pos: position{line: 1752, col: 5, offset: 56654},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1752, col: 5, offset: 56659},
+												pos: position{line: 1752, col: 5, offset: 56654},
 												run: (*parser).callonShortcutParagraph16,
 											},
 											&labeledExpr{
-												pos:   position{line: 1755, col: 5, offset: 56722},
+												pos:   position{line: 1755, col: 5, offset: 56717},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1755, col: 12, offset: 56729},
+													pos: position{line: 1755, col: 12, offset: 56724},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1755, col: 12, offset: 56729},
+															pos: position{line: 1755, col: 12, offset: 56724},
 															run: (*parser).callonShortcutParagraph19,
 															expr: &litMatcher{
-																pos:        position{line: 1755, col: 12, offset: 56729},
+																pos:        position{line: 1755, col: 12, offset: 56724},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1757, col: 13, offset: 56785},
+															pos: position{line: 1757, col: 13, offset: 56780},
 															run: (*parser).callonShortcutParagraph21,
 															expr: &litMatcher{
-																pos:        position{line: 1757, col: 13, offset: 56785},
+																pos:        position{line: 1757, col: 13, offset: 56780},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1759, col: 13, offset: 56843},
+															pos: position{line: 1759, col: 13, offset: 56838},
 															run: (*parser).callonShortcutParagraph23,
 															expr: &litMatcher{
-																pos:        position{line: 1759, col: 13, offset: 56843},
+																pos:        position{line: 1759, col: 13, offset: 56838},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1761, col: 13, offset: 56911},
+															pos: position{line: 1761, col: 13, offset: 56906},
 															run: (*parser).callonShortcutParagraph25,
 															expr: &litMatcher{
-																pos:        position{line: 1761, col: 13, offset: 56911},
+																pos:        position{line: 1761, col: 13, offset: 56906},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1763, col: 13, offset: 56975},
+															pos: position{line: 1763, col: 13, offset: 56970},
 															run: (*parser).callonShortcutParagraph27,
 															expr: &litMatcher{
-																pos:        position{line: 1763, col: 13, offset: 56975},
+																pos:        position{line: 1763, col: 13, offset: 56970},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1765, col: 13, offset: 57039},
+															pos: position{line: 1765, col: 13, offset: 57034},
 															run: (*parser).callonShortcutParagraph29,
 															expr: &andExpr{
-																pos: position{line: 1765, col: 13, offset: 57039},
+																pos: position{line: 1765, col: 13, offset: 57034},
 																expr: &actionExpr{
-																	pos: position{line: 2909, col: 11, offset: 91896},
+																	pos: position{line: 2909, col: 11, offset: 91891},
 																	run: (*parser).callonShortcutParagraph31,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2909, col: 11, offset: 91896},
+																		pos: position{line: 2909, col: 11, offset: 91891},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 11, offset: 91896},
+																			pos:        position{line: 2909, col: 11, offset: 91891},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -39719,24 +39719,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1775, col: 5, offset: 57418},
+							pos:   position{line: 1775, col: 5, offset: 57413},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1811, col: 5, offset: 58525},
+								pos: position{line: 1811, col: 5, offset: 58520},
 								run: (*parser).callonShortcutParagraph35,
 								expr: &seqExpr{
-									pos: position{line: 1811, col: 5, offset: 58525},
+									pos: position{line: 1811, col: 5, offset: 58520},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1811, col: 5, offset: 58525},
+											pos:   position{line: 1811, col: 5, offset: 58520},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2855, col: 14, offset: 90428},
+												pos: position{line: 2855, col: 14, offset: 90423},
 												run: (*parser).callonShortcutParagraph38,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2855, col: 14, offset: 90428},
+													pos: position{line: 2855, col: 14, offset: 90423},
 													expr: &charClassMatcher{
-														pos:        position{line: 2855, col: 14, offset: 90428},
+														pos:        position{line: 2855, col: 14, offset: 90423},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -39746,32 +39746,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1812, col: 5, offset: 58549},
+											pos: position{line: 1812, col: 5, offset: 58544},
 											run: (*parser).callonShortcutParagraph41,
 										},
 										&choiceExpr{
-											pos: position{line: 2927, col: 8, offset: 92233},
+											pos: position{line: 2927, col: 8, offset: 92228},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2914, col: 12, offset: 92006},
+													pos: position{line: 2914, col: 12, offset: 92001},
 													run: (*parser).callonShortcutParagraph43,
 													expr: &choiceExpr{
-														pos: position{line: 2914, col: 13, offset: 92007},
+														pos: position{line: 2914, col: 13, offset: 92002},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2914, col: 13, offset: 92007},
+																pos:        position{line: 2914, col: 13, offset: 92002},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2914, col: 20, offset: 92014},
+																pos:        position{line: 2914, col: 20, offset: 92009},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2914, col: 29, offset: 92023},
+																pos:        position{line: 2914, col: 29, offset: 92018},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -39780,9 +39780,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2924, col: 8, offset: 92183},
+													pos: position{line: 2924, col: 8, offset: 92178},
 													expr: &anyMatcher{
-														line: 2924, col: 9, offset: 92184,
+														line: 2924, col: 9, offset: 92179,
 													},
 												},
 											},
@@ -39792,28 +39792,28 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1776, col: 5, offset: 57452},
+							pos: position{line: 1776, col: 5, offset: 57447},
 							run: (*parser).callonShortcutParagraph50,
 						},
 						&labeledExpr{
-							pos:   position{line: 1783, col: 5, offset: 57782},
+							pos:   position{line: 1783, col: 5, offset: 57777},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1783, col: 16, offset: 57793},
+								pos: position{line: 1783, col: 16, offset: 57788},
 								expr: &actionExpr{
-									pos: position{line: 1784, col: 9, offset: 57803},
+									pos: position{line: 1784, col: 9, offset: 57798},
 									run: (*parser).callonShortcutParagraph53,
 									expr: &seqExpr{
-										pos: position{line: 1784, col: 9, offset: 57803},
+										pos: position{line: 1784, col: 9, offset: 57798},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2922, col: 11, offset: 92169},
+												pos: position{line: 2922, col: 11, offset: 92164},
 												expr: &anyMatcher{
-													line: 2922, col: 13, offset: 92171,
+													line: 2922, col: 13, offset: 92166,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1785, col: 9, offset: 57819},
+												pos: position{line: 1785, col: 9, offset: 57814},
 												expr: &actionExpr{
 													pos: position{line: 687, col: 14, offset: 21867},
 													run: (*parser).callonShortcutParagraph58,
@@ -39821,18 +39821,18 @@ var g = &grammar{
 														pos: position{line: 687, col: 14, offset: 21867},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2922, col: 11, offset: 92169},
+																pos: position{line: 2922, col: 11, offset: 92164},
 																expr: &anyMatcher{
-																	line: 2922, col: 13, offset: 92171,
+																	line: 2922, col: 13, offset: 92166,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 687, col: 21, offset: 21874},
 																expr: &actionExpr{
-																	pos: position{line: 2905, col: 10, offset: 91835},
+																	pos: position{line: 2905, col: 10, offset: 91830},
 																	run: (*parser).callonShortcutParagraph63,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2905, col: 10, offset: 91835},
+																		pos:        position{line: 2905, col: 10, offset: 91830},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -39841,28 +39841,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2927, col: 8, offset: 92233},
+																pos: position{line: 2927, col: 8, offset: 92228},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2914, col: 12, offset: 92006},
+																		pos: position{line: 2914, col: 12, offset: 92001},
 																		run: (*parser).callonShortcutParagraph66,
 																		expr: &choiceExpr{
-																			pos: position{line: 2914, col: 13, offset: 92007},
+																			pos: position{line: 2914, col: 13, offset: 92002},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2914, col: 13, offset: 92007},
+																					pos:        position{line: 2914, col: 13, offset: 92002},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2914, col: 20, offset: 92014},
+																					pos:        position{line: 2914, col: 20, offset: 92009},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2914, col: 29, offset: 92023},
+																					pos:        position{line: 2914, col: 29, offset: 92018},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -39871,9 +39871,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2924, col: 8, offset: 92183},
+																		pos: position{line: 2924, col: 8, offset: 92178},
 																		expr: &anyMatcher{
-																			line: 2924, col: 9, offset: 92184,
+																			line: 2924, col: 9, offset: 92179,
 																		},
 																	},
 																},
@@ -39883,14 +39883,14 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1786, col: 9, offset: 57838},
+												pos: position{line: 1786, col: 9, offset: 57833},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1786, col: 10, offset: 57839},
+													pos:  position{line: 1786, col: 10, offset: 57834},
 													name: "BlockAttributes",
 												},
 											},
 											&notExpr{
-												pos: position{line: 1787, col: 9, offset: 57863},
+												pos: position{line: 1787, col: 9, offset: 57858},
 												expr: &actionExpr{
 													pos: position{line: 738, col: 5, offset: 23528},
 													run: (*parser).callonShortcutParagraph76,
@@ -39900,7 +39900,7 @@ var g = &grammar{
 															&notExpr{
 																pos: position{line: 738, col: 5, offset: 23528},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2795, col: 13, offset: 88930},
+																	pos:        position{line: 2795, col: 13, offset: 88925},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
@@ -39950,10 +39950,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 756, col: 8, offset: 24172},
 																						expr: &actionExpr{
-																							pos: position{line: 2905, col: 10, offset: 91835},
+																							pos: position{line: 2905, col: 10, offset: 91830},
 																							run: (*parser).callonShortcutParagraph91,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2905, col: 10, offset: 91835},
+																								pos:        position{line: 2905, col: 10, offset: 91830},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -39962,28 +39962,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2927, col: 8, offset: 92233},
+																						pos: position{line: 2927, col: 8, offset: 92228},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2914, col: 12, offset: 92006},
+																								pos: position{line: 2914, col: 12, offset: 92001},
 																								run: (*parser).callonShortcutParagraph94,
 																								expr: &choiceExpr{
-																									pos: position{line: 2914, col: 13, offset: 92007},
+																									pos: position{line: 2914, col: 13, offset: 92002},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92007},
+																											pos:        position{line: 2914, col: 13, offset: 92002},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 20, offset: 92014},
+																											pos:        position{line: 2914, col: 20, offset: 92009},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 29, offset: 92023},
+																											pos:        position{line: 2914, col: 29, offset: 92018},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -39992,9 +39992,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2924, col: 8, offset: 92183},
+																								pos: position{line: 2924, col: 8, offset: 92178},
 																								expr: &anyMatcher{
-																									line: 2924, col: 9, offset: 92184,
+																									line: 2924, col: 9, offset: 92179,
 																								},
 																							},
 																						},
@@ -40039,10 +40039,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 763, col: 8, offset: 24420},
 																						expr: &actionExpr{
-																							pos: position{line: 2905, col: 10, offset: 91835},
+																							pos: position{line: 2905, col: 10, offset: 91830},
 																							run: (*parser).callonShortcutParagraph110,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2905, col: 10, offset: 91835},
+																								pos:        position{line: 2905, col: 10, offset: 91830},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40051,28 +40051,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2927, col: 8, offset: 92233},
+																						pos: position{line: 2927, col: 8, offset: 92228},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2914, col: 12, offset: 92006},
+																								pos: position{line: 2914, col: 12, offset: 92001},
 																								run: (*parser).callonShortcutParagraph113,
 																								expr: &choiceExpr{
-																									pos: position{line: 2914, col: 13, offset: 92007},
+																									pos: position{line: 2914, col: 13, offset: 92002},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92007},
+																											pos:        position{line: 2914, col: 13, offset: 92002},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 20, offset: 92014},
+																											pos:        position{line: 2914, col: 20, offset: 92009},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 29, offset: 92023},
+																											pos:        position{line: 2914, col: 29, offset: 92018},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40081,9 +40081,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2924, col: 8, offset: 92183},
+																								pos: position{line: 2924, col: 8, offset: 92178},
 																								expr: &anyMatcher{
-																									line: 2924, col: 9, offset: 92184,
+																									line: 2924, col: 9, offset: 92179,
 																								},
 																							},
 																						},
@@ -40124,10 +40124,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 774, col: 52, offset: 24832},
 																						expr: &actionExpr{
-																							pos: position{line: 2905, col: 10, offset: 91835},
+																							pos: position{line: 2905, col: 10, offset: 91830},
 																							run: (*parser).callonShortcutParagraph128,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2905, col: 10, offset: 91835},
+																								pos:        position{line: 2905, col: 10, offset: 91830},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40136,28 +40136,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2927, col: 8, offset: 92233},
+																						pos: position{line: 2927, col: 8, offset: 92228},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2914, col: 12, offset: 92006},
+																								pos: position{line: 2914, col: 12, offset: 92001},
 																								run: (*parser).callonShortcutParagraph131,
 																								expr: &choiceExpr{
-																									pos: position{line: 2914, col: 13, offset: 92007},
+																									pos: position{line: 2914, col: 13, offset: 92002},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92007},
+																											pos:        position{line: 2914, col: 13, offset: 92002},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 20, offset: 92014},
+																											pos:        position{line: 2914, col: 20, offset: 92009},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 29, offset: 92023},
+																											pos:        position{line: 2914, col: 29, offset: 92018},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40166,9 +40166,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2924, col: 8, offset: 92183},
+																								pos: position{line: 2924, col: 8, offset: 92178},
 																								expr: &anyMatcher{
-																									line: 2924, col: 9, offset: 92184,
+																									line: 2924, col: 9, offset: 92179,
 																								},
 																							},
 																						},
@@ -40213,10 +40213,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 770, col: 8, offset: 24666},
 																						expr: &actionExpr{
-																							pos: position{line: 2905, col: 10, offset: 91835},
+																							pos: position{line: 2905, col: 10, offset: 91830},
 																							run: (*parser).callonShortcutParagraph147,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2905, col: 10, offset: 91835},
+																								pos:        position{line: 2905, col: 10, offset: 91830},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40225,28 +40225,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2927, col: 8, offset: 92233},
+																						pos: position{line: 2927, col: 8, offset: 92228},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2914, col: 12, offset: 92006},
+																								pos: position{line: 2914, col: 12, offset: 92001},
 																								run: (*parser).callonShortcutParagraph150,
 																								expr: &choiceExpr{
-																									pos: position{line: 2914, col: 13, offset: 92007},
+																									pos: position{line: 2914, col: 13, offset: 92002},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92007},
+																											pos:        position{line: 2914, col: 13, offset: 92002},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 20, offset: 92014},
+																											pos:        position{line: 2914, col: 20, offset: 92009},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 29, offset: 92023},
+																											pos:        position{line: 2914, col: 29, offset: 92018},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40255,9 +40255,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2924, col: 8, offset: 92183},
+																								pos: position{line: 2924, col: 8, offset: 92178},
 																								expr: &anyMatcher{
-																									line: 2924, col: 9, offset: 92184,
+																									line: 2924, col: 9, offset: 92179,
 																								},
 																							},
 																						},
@@ -40302,10 +40302,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 785, col: 8, offset: 25204},
 																						expr: &actionExpr{
-																							pos: position{line: 2905, col: 10, offset: 91835},
+																							pos: position{line: 2905, col: 10, offset: 91830},
 																							run: (*parser).callonShortcutParagraph166,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2905, col: 10, offset: 91835},
+																								pos:        position{line: 2905, col: 10, offset: 91830},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40314,28 +40314,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2927, col: 8, offset: 92233},
+																						pos: position{line: 2927, col: 8, offset: 92228},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2914, col: 12, offset: 92006},
+																								pos: position{line: 2914, col: 12, offset: 92001},
 																								run: (*parser).callonShortcutParagraph169,
 																								expr: &choiceExpr{
-																									pos: position{line: 2914, col: 13, offset: 92007},
+																									pos: position{line: 2914, col: 13, offset: 92002},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92007},
+																											pos:        position{line: 2914, col: 13, offset: 92002},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 20, offset: 92014},
+																											pos:        position{line: 2914, col: 20, offset: 92009},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 29, offset: 92023},
+																											pos:        position{line: 2914, col: 29, offset: 92018},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40344,9 +40344,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2924, col: 8, offset: 92183},
+																								pos: position{line: 2924, col: 8, offset: 92178},
 																								expr: &anyMatcher{
-																									line: 2924, col: 9, offset: 92184,
+																									line: 2924, col: 9, offset: 92179,
 																								},
 																							},
 																						},
@@ -40391,10 +40391,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 799, col: 8, offset: 25680},
 																						expr: &actionExpr{
-																							pos: position{line: 2905, col: 10, offset: 91835},
+																							pos: position{line: 2905, col: 10, offset: 91830},
 																							run: (*parser).callonShortcutParagraph185,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2905, col: 10, offset: 91835},
+																								pos:        position{line: 2905, col: 10, offset: 91830},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40403,28 +40403,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2927, col: 8, offset: 92233},
+																						pos: position{line: 2927, col: 8, offset: 92228},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2914, col: 12, offset: 92006},
+																								pos: position{line: 2914, col: 12, offset: 92001},
 																								run: (*parser).callonShortcutParagraph188,
 																								expr: &choiceExpr{
-																									pos: position{line: 2914, col: 13, offset: 92007},
+																									pos: position{line: 2914, col: 13, offset: 92002},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92007},
+																											pos:        position{line: 2914, col: 13, offset: 92002},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 20, offset: 92014},
+																											pos:        position{line: 2914, col: 20, offset: 92009},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 29, offset: 92023},
+																											pos:        position{line: 2914, col: 29, offset: 92018},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40433,9 +40433,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2924, col: 8, offset: 92183},
+																								pos: position{line: 2924, col: 8, offset: 92178},
 																								expr: &anyMatcher{
-																									line: 2924, col: 9, offset: 92184,
+																									line: 2924, col: 9, offset: 92179,
 																								},
 																							},
 																						},
@@ -40480,10 +40480,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 806, col: 8, offset: 25932},
 																						expr: &actionExpr{
-																							pos: position{line: 2905, col: 10, offset: 91835},
+																							pos: position{line: 2905, col: 10, offset: 91830},
 																							run: (*parser).callonShortcutParagraph204,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2905, col: 10, offset: 91835},
+																								pos:        position{line: 2905, col: 10, offset: 91830},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40492,28 +40492,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2927, col: 8, offset: 92233},
+																						pos: position{line: 2927, col: 8, offset: 92228},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2914, col: 12, offset: 92006},
+																								pos: position{line: 2914, col: 12, offset: 92001},
 																								run: (*parser).callonShortcutParagraph207,
 																								expr: &choiceExpr{
-																									pos: position{line: 2914, col: 13, offset: 92007},
+																									pos: position{line: 2914, col: 13, offset: 92002},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92007},
+																											pos:        position{line: 2914, col: 13, offset: 92002},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 20, offset: 92014},
+																											pos:        position{line: 2914, col: 20, offset: 92009},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 29, offset: 92023},
+																											pos:        position{line: 2914, col: 29, offset: 92018},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40522,9 +40522,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2924, col: 8, offset: 92183},
+																								pos: position{line: 2924, col: 8, offset: 92178},
 																								expr: &anyMatcher{
-																									line: 2924, col: 9, offset: 92184,
+																									line: 2924, col: 9, offset: 92179,
 																								},
 																							},
 																						},
@@ -40569,10 +40569,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 813, col: 8, offset: 26182},
 																						expr: &actionExpr{
-																							pos: position{line: 2905, col: 10, offset: 91835},
+																							pos: position{line: 2905, col: 10, offset: 91830},
 																							run: (*parser).callonShortcutParagraph223,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2905, col: 10, offset: 91835},
+																								pos:        position{line: 2905, col: 10, offset: 91830},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40581,28 +40581,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2927, col: 8, offset: 92233},
+																						pos: position{line: 2927, col: 8, offset: 92228},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2914, col: 12, offset: 92006},
+																								pos: position{line: 2914, col: 12, offset: 92001},
 																								run: (*parser).callonShortcutParagraph226,
 																								expr: &choiceExpr{
-																									pos: position{line: 2914, col: 13, offset: 92007},
+																									pos: position{line: 2914, col: 13, offset: 92002},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92007},
+																											pos:        position{line: 2914, col: 13, offset: 92002},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 20, offset: 92014},
+																											pos:        position{line: 2914, col: 20, offset: 92009},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 29, offset: 92023},
+																											pos:        position{line: 2914, col: 29, offset: 92018},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40611,9 +40611,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2924, col: 8, offset: 92183},
+																								pos: position{line: 2924, col: 8, offset: 92178},
 																								expr: &anyMatcher{
-																									line: 2924, col: 9, offset: 92184,
+																									line: 2924, col: 9, offset: 92179,
 																								},
 																							},
 																						},
@@ -40658,10 +40658,10 @@ var g = &grammar{
 																					&zeroOrMoreExpr{
 																						pos: position{line: 820, col: 8, offset: 26428},
 																						expr: &actionExpr{
-																							pos: position{line: 2905, col: 10, offset: 91835},
+																							pos: position{line: 2905, col: 10, offset: 91830},
 																							run: (*parser).callonShortcutParagraph242,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2905, col: 10, offset: 91835},
+																								pos:        position{line: 2905, col: 10, offset: 91830},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -40670,28 +40670,28 @@ var g = &grammar{
 																						},
 																					},
 																					&choiceExpr{
-																						pos: position{line: 2927, col: 8, offset: 92233},
+																						pos: position{line: 2927, col: 8, offset: 92228},
 																						alternatives: []interface{}{
 																							&actionExpr{
-																								pos: position{line: 2914, col: 12, offset: 92006},
+																								pos: position{line: 2914, col: 12, offset: 92001},
 																								run: (*parser).callonShortcutParagraph245,
 																								expr: &choiceExpr{
-																									pos: position{line: 2914, col: 13, offset: 92007},
+																									pos: position{line: 2914, col: 13, offset: 92002},
 																									alternatives: []interface{}{
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 13, offset: 92007},
+																											pos:        position{line: 2914, col: 13, offset: 92002},
 																											val:        "\n",
 																											ignoreCase: false,
 																											want:       "\"\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 20, offset: 92014},
+																											pos:        position{line: 2914, col: 20, offset: 92009},
 																											val:        "\r\n",
 																											ignoreCase: false,
 																											want:       "\"\\r\\n\"",
 																										},
 																										&litMatcher{
-																											pos:        position{line: 2914, col: 29, offset: 92023},
+																											pos:        position{line: 2914, col: 29, offset: 92018},
 																											val:        "\r",
 																											ignoreCase: false,
 																											want:       "\"\\r\"",
@@ -40700,9 +40700,9 @@ var g = &grammar{
 																								},
 																							},
 																							&notExpr{
-																								pos: position{line: 2924, col: 8, offset: 92183},
+																								pos: position{line: 2924, col: 8, offset: 92178},
 																								expr: &anyMatcher{
-																									line: 2924, col: 9, offset: 92184,
+																									line: 2924, col: 9, offset: 92179,
 																								},
 																							},
 																						},
@@ -40718,23 +40718,23 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1788, col: 9, offset: 57887},
+												pos: position{line: 1788, col: 9, offset: 57882},
 												expr: &seqExpr{
-													pos: position{line: 1562, col: 27, offset: 50524},
+													pos: position{line: 1562, col: 27, offset: 50519},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 1562, col: 27, offset: 50524},
+															pos:        position{line: 1562, col: 27, offset: 50519},
 															val:        "+",
 															ignoreCase: false,
 															want:       "\"+\"",
 														},
 														&zeroOrMoreExpr{
-															pos: position{line: 1562, col: 31, offset: 50528},
+															pos: position{line: 1562, col: 31, offset: 50523},
 															expr: &actionExpr{
-																pos: position{line: 2905, col: 10, offset: 91835},
+																pos: position{line: 2905, col: 10, offset: 91830},
 																run: (*parser).callonShortcutParagraph256,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2905, col: 10, offset: 91835},
+																	pos:        position{line: 2905, col: 10, offset: 91830},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -40743,25 +40743,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2914, col: 12, offset: 92006},
+															pos: position{line: 2914, col: 12, offset: 92001},
 															run: (*parser).callonShortcutParagraph258,
 															expr: &choiceExpr{
-																pos: position{line: 2914, col: 13, offset: 92007},
+																pos: position{line: 2914, col: 13, offset: 92002},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 13, offset: 92007},
+																		pos:        position{line: 2914, col: 13, offset: 92002},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 20, offset: 92014},
+																		pos:        position{line: 2914, col: 20, offset: 92009},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 29, offset: 92023},
+																		pos:        position{line: 2914, col: 29, offset: 92018},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -40773,42 +40773,42 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1789, col: 9, offset: 57919},
+												pos:   position{line: 1789, col: 9, offset: 57914},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1789, col: 15, offset: 57925},
+													pos: position{line: 1789, col: 15, offset: 57920},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2497, col: 22, offset: 80369},
+															pos: position{line: 2497, col: 22, offset: 80364},
 															run: (*parser).callonShortcutParagraph265,
 															expr: &seqExpr{
-																pos: position{line: 2497, col: 22, offset: 80369},
+																pos: position{line: 2497, col: 22, offset: 80364},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2502, col: 31, offset: 80590},
+																		pos:        position{line: 2502, col: 31, offset: 80585},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2502, col: 36, offset: 80595},
+																		pos: position{line: 2502, col: 36, offset: 80590},
 																		expr: &litMatcher{
-																			pos:        position{line: 2502, col: 37, offset: 80596},
+																			pos:        position{line: 2502, col: 37, offset: 80591},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2497, col: 49, offset: 80396},
+																		pos:   position{line: 2497, col: 49, offset: 80391},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2851, col: 13, offset: 90361},
+																			pos: position{line: 2851, col: 13, offset: 90356},
 																			run: (*parser).callonShortcutParagraph271,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2851, col: 13, offset: 90361},
+																				pos: position{line: 2851, col: 13, offset: 90356},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2851, col: 13, offset: 90361},
+																					pos:        position{line: 2851, col: 13, offset: 90356},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40818,28 +40818,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2927, col: 8, offset: 92233},
+																		pos: position{line: 2927, col: 8, offset: 92228},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92006},
+																				pos: position{line: 2914, col: 12, offset: 92001},
 																				run: (*parser).callonShortcutParagraph275,
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 13, offset: 92007},
+																					pos: position{line: 2914, col: 13, offset: 92002},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 13, offset: 92007},
+																							pos:        position{line: 2914, col: 13, offset: 92002},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 20, offset: 92014},
+																							pos:        position{line: 2914, col: 20, offset: 92009},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 29, offset: 92023},
+																							pos:        position{line: 2914, col: 29, offset: 92018},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40848,9 +40848,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2924, col: 8, offset: 92183},
+																				pos: position{line: 2924, col: 8, offset: 92178},
 																				expr: &anyMatcher{
-																					line: 2924, col: 9, offset: 92184,
+																					line: 2924, col: 9, offset: 92179,
 																				},
 																			},
 																		},
@@ -40859,21 +40859,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1811, col: 5, offset: 58525},
+															pos: position{line: 1811, col: 5, offset: 58520},
 															run: (*parser).callonShortcutParagraph282,
 															expr: &seqExpr{
-																pos: position{line: 1811, col: 5, offset: 58525},
+																pos: position{line: 1811, col: 5, offset: 58520},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1811, col: 5, offset: 58525},
+																		pos:   position{line: 1811, col: 5, offset: 58520},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2855, col: 14, offset: 90428},
+																			pos: position{line: 2855, col: 14, offset: 90423},
 																			run: (*parser).callonShortcutParagraph285,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2855, col: 14, offset: 90428},
+																				pos: position{line: 2855, col: 14, offset: 90423},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2855, col: 14, offset: 90428},
+																					pos:        position{line: 2855, col: 14, offset: 90423},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -40883,32 +40883,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1812, col: 5, offset: 58549},
+																		pos: position{line: 1812, col: 5, offset: 58544},
 																		run: (*parser).callonShortcutParagraph288,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2927, col: 8, offset: 92233},
+																		pos: position{line: 2927, col: 8, offset: 92228},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92006},
+																				pos: position{line: 2914, col: 12, offset: 92001},
 																				run: (*parser).callonShortcutParagraph290,
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 13, offset: 92007},
+																					pos: position{line: 2914, col: 13, offset: 92002},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 13, offset: 92007},
+																							pos:        position{line: 2914, col: 13, offset: 92002},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 20, offset: 92014},
+																							pos:        position{line: 2914, col: 20, offset: 92009},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 29, offset: 92023},
+																							pos:        position{line: 2914, col: 29, offset: 92018},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -40917,9 +40917,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2924, col: 8, offset: 92183},
+																				pos: position{line: 2924, col: 8, offset: 92178},
 																				expr: &anyMatcher{
-																					line: 2924, col: 9, offset: 92184,
+																					line: 2924, col: 9, offset: 92179,
 																				},
 																			},
 																		},
@@ -40941,96 +40941,96 @@ var g = &grammar{
 		},
 		{
 			name: "Paragraph",
-			pos:  position{line: 1796, col: 1, offset: 58129},
+			pos:  position{line: 1796, col: 1, offset: 58124},
 			expr: &actionExpr{
-				pos: position{line: 1797, col: 5, offset: 58147},
+				pos: position{line: 1797, col: 5, offset: 58142},
 				run: (*parser).callonParagraph1,
 				expr: &seqExpr{
-					pos: position{line: 1797, col: 5, offset: 58147},
+					pos: position{line: 1797, col: 5, offset: 58142},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1797, col: 5, offset: 58147},
+							pos:   position{line: 1797, col: 5, offset: 58142},
 							label: "style",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1797, col: 11, offset: 58153},
+								pos: position{line: 1797, col: 11, offset: 58148},
 								expr: &actionExpr{
-									pos: position{line: 1752, col: 5, offset: 56659},
+									pos: position{line: 1752, col: 5, offset: 56654},
 									run: (*parser).callonParagraph5,
 									expr: &seqExpr{
-										pos: position{line: 1752, col: 5, offset: 56659},
+										pos: position{line: 1752, col: 5, offset: 56654},
 										exprs: []interface{}{
 											&andCodeExpr{
-												pos: position{line: 1752, col: 5, offset: 56659},
+												pos: position{line: 1752, col: 5, offset: 56654},
 												run: (*parser).callonParagraph7,
 											},
 											&labeledExpr{
-												pos:   position{line: 1755, col: 5, offset: 56722},
+												pos:   position{line: 1755, col: 5, offset: 56717},
 												label: "style",
 												expr: &choiceExpr{
-													pos: position{line: 1755, col: 12, offset: 56729},
+													pos: position{line: 1755, col: 12, offset: 56724},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 1755, col: 12, offset: 56729},
+															pos: position{line: 1755, col: 12, offset: 56724},
 															run: (*parser).callonParagraph10,
 															expr: &litMatcher{
-																pos:        position{line: 1755, col: 12, offset: 56729},
+																pos:        position{line: 1755, col: 12, offset: 56724},
 																val:        "TIP: ",
 																ignoreCase: false,
 																want:       "\"TIP: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1757, col: 13, offset: 56785},
+															pos: position{line: 1757, col: 13, offset: 56780},
 															run: (*parser).callonParagraph12,
 															expr: &litMatcher{
-																pos:        position{line: 1757, col: 13, offset: 56785},
+																pos:        position{line: 1757, col: 13, offset: 56780},
 																val:        "NOTE: ",
 																ignoreCase: false,
 																want:       "\"NOTE: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1759, col: 13, offset: 56843},
+															pos: position{line: 1759, col: 13, offset: 56838},
 															run: (*parser).callonParagraph14,
 															expr: &litMatcher{
-																pos:        position{line: 1759, col: 13, offset: 56843},
+																pos:        position{line: 1759, col: 13, offset: 56838},
 																val:        "IMPORTANT: ",
 																ignoreCase: false,
 																want:       "\"IMPORTANT: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1761, col: 13, offset: 56911},
+															pos: position{line: 1761, col: 13, offset: 56906},
 															run: (*parser).callonParagraph16,
 															expr: &litMatcher{
-																pos:        position{line: 1761, col: 13, offset: 56911},
+																pos:        position{line: 1761, col: 13, offset: 56906},
 																val:        "WARNING: ",
 																ignoreCase: false,
 																want:       "\"WARNING: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1763, col: 13, offset: 56975},
+															pos: position{line: 1763, col: 13, offset: 56970},
 															run: (*parser).callonParagraph18,
 															expr: &litMatcher{
-																pos:        position{line: 1763, col: 13, offset: 56975},
+																pos:        position{line: 1763, col: 13, offset: 56970},
 																val:        "CAUTION: ",
 																ignoreCase: false,
 																want:       "\"CAUTION: \"",
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1765, col: 13, offset: 57039},
+															pos: position{line: 1765, col: 13, offset: 57034},
 															run: (*parser).callonParagraph20,
 															expr: &andExpr{
-																pos: position{line: 1765, col: 13, offset: 57039},
+																pos: position{line: 1765, col: 13, offset: 57034},
 																expr: &actionExpr{
-																	pos: position{line: 2909, col: 11, offset: 91896},
+																	pos: position{line: 2909, col: 11, offset: 91891},
 																	run: (*parser).callonParagraph22,
 																	expr: &oneOrMoreExpr{
-																		pos: position{line: 2909, col: 11, offset: 91896},
+																		pos: position{line: 2909, col: 11, offset: 91891},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2909, col: 11, offset: 91896},
+																			pos:        position{line: 2909, col: 11, offset: 91891},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -41049,24 +41049,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1798, col: 5, offset: 58176},
+							pos:   position{line: 1798, col: 5, offset: 58171},
 							label: "firstLine",
 							expr: &actionExpr{
-								pos: position{line: 1811, col: 5, offset: 58525},
+								pos: position{line: 1811, col: 5, offset: 58520},
 								run: (*parser).callonParagraph26,
 								expr: &seqExpr{
-									pos: position{line: 1811, col: 5, offset: 58525},
+									pos: position{line: 1811, col: 5, offset: 58520},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 1811, col: 5, offset: 58525},
+											pos:   position{line: 1811, col: 5, offset: 58520},
 											label: "content",
 											expr: &actionExpr{
-												pos: position{line: 2855, col: 14, offset: 90428},
+												pos: position{line: 2855, col: 14, offset: 90423},
 												run: (*parser).callonParagraph29,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2855, col: 14, offset: 90428},
+													pos: position{line: 2855, col: 14, offset: 90423},
 													expr: &charClassMatcher{
-														pos:        position{line: 2855, col: 14, offset: 90428},
+														pos:        position{line: 2855, col: 14, offset: 90423},
 														val:        "[^\\r\\n]",
 														chars:      []rune{'\r', '\n'},
 														ignoreCase: false,
@@ -41076,32 +41076,32 @@ var g = &grammar{
 											},
 										},
 										&andCodeExpr{
-											pos: position{line: 1812, col: 5, offset: 58549},
+											pos: position{line: 1812, col: 5, offset: 58544},
 											run: (*parser).callonParagraph32,
 										},
 										&choiceExpr{
-											pos: position{line: 2927, col: 8, offset: 92233},
+											pos: position{line: 2927, col: 8, offset: 92228},
 											alternatives: []interface{}{
 												&actionExpr{
-													pos: position{line: 2914, col: 12, offset: 92006},
+													pos: position{line: 2914, col: 12, offset: 92001},
 													run: (*parser).callonParagraph34,
 													expr: &choiceExpr{
-														pos: position{line: 2914, col: 13, offset: 92007},
+														pos: position{line: 2914, col: 13, offset: 92002},
 														alternatives: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2914, col: 13, offset: 92007},
+																pos:        position{line: 2914, col: 13, offset: 92002},
 																val:        "\n",
 																ignoreCase: false,
 																want:       "\"\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2914, col: 20, offset: 92014},
+																pos:        position{line: 2914, col: 20, offset: 92009},
 																val:        "\r\n",
 																ignoreCase: false,
 																want:       "\"\\r\\n\"",
 															},
 															&litMatcher{
-																pos:        position{line: 2914, col: 29, offset: 92023},
+																pos:        position{line: 2914, col: 29, offset: 92018},
 																val:        "\r",
 																ignoreCase: false,
 																want:       "\"\\r\"",
@@ -41110,9 +41110,9 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2924, col: 8, offset: 92183},
+													pos: position{line: 2924, col: 8, offset: 92178},
 													expr: &anyMatcher{
-														line: 2924, col: 9, offset: 92184,
+														line: 2924, col: 9, offset: 92179,
 													},
 												},
 											},
@@ -41122,24 +41122,24 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1799, col: 5, offset: 58210},
+							pos:   position{line: 1799, col: 5, offset: 58205},
 							label: "otherLines",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 1799, col: 16, offset: 58221},
+								pos: position{line: 1799, col: 16, offset: 58216},
 								expr: &actionExpr{
-									pos: position{line: 1800, col: 9, offset: 58231},
+									pos: position{line: 1800, col: 9, offset: 58226},
 									run: (*parser).callonParagraph43,
 									expr: &seqExpr{
-										pos: position{line: 1800, col: 9, offset: 58231},
+										pos: position{line: 1800, col: 9, offset: 58226},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2922, col: 11, offset: 92169},
+												pos: position{line: 2922, col: 11, offset: 92164},
 												expr: &anyMatcher{
-													line: 2922, col: 13, offset: 92171,
+													line: 2922, col: 13, offset: 92166,
 												},
 											},
 											&notExpr{
-												pos: position{line: 1801, col: 9, offset: 58246},
+												pos: position{line: 1801, col: 9, offset: 58241},
 												expr: &actionExpr{
 													pos: position{line: 687, col: 14, offset: 21867},
 													run: (*parser).callonParagraph48,
@@ -41147,18 +41147,18 @@ var g = &grammar{
 														pos: position{line: 687, col: 14, offset: 21867},
 														exprs: []interface{}{
 															&andExpr{
-																pos: position{line: 2922, col: 11, offset: 92169},
+																pos: position{line: 2922, col: 11, offset: 92164},
 																expr: &anyMatcher{
-																	line: 2922, col: 13, offset: 92171,
+																	line: 2922, col: 13, offset: 92166,
 																},
 															},
 															&zeroOrMoreExpr{
 																pos: position{line: 687, col: 21, offset: 21874},
 																expr: &actionExpr{
-																	pos: position{line: 2905, col: 10, offset: 91835},
+																	pos: position{line: 2905, col: 10, offset: 91830},
 																	run: (*parser).callonParagraph53,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2905, col: 10, offset: 91835},
+																		pos:        position{line: 2905, col: 10, offset: 91830},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -41167,28 +41167,28 @@ var g = &grammar{
 																},
 															},
 															&choiceExpr{
-																pos: position{line: 2927, col: 8, offset: 92233},
+																pos: position{line: 2927, col: 8, offset: 92228},
 																alternatives: []interface{}{
 																	&actionExpr{
-																		pos: position{line: 2914, col: 12, offset: 92006},
+																		pos: position{line: 2914, col: 12, offset: 92001},
 																		run: (*parser).callonParagraph56,
 																		expr: &choiceExpr{
-																			pos: position{line: 2914, col: 13, offset: 92007},
+																			pos: position{line: 2914, col: 13, offset: 92002},
 																			alternatives: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2914, col: 13, offset: 92007},
+																					pos:        position{line: 2914, col: 13, offset: 92002},
 																					val:        "\n",
 																					ignoreCase: false,
 																					want:       "\"\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2914, col: 20, offset: 92014},
+																					pos:        position{line: 2914, col: 20, offset: 92009},
 																					val:        "\r\n",
 																					ignoreCase: false,
 																					want:       "\"\\r\\n\"",
 																				},
 																				&litMatcher{
-																					pos:        position{line: 2914, col: 29, offset: 92023},
+																					pos:        position{line: 2914, col: 29, offset: 92018},
 																					val:        "\r",
 																					ignoreCase: false,
 																					want:       "\"\\r\"",
@@ -41197,9 +41197,9 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2924, col: 8, offset: 92183},
+																		pos: position{line: 2924, col: 8, offset: 92178},
 																		expr: &anyMatcher{
-																			line: 2924, col: 9, offset: 92184,
+																			line: 2924, col: 9, offset: 92179,
 																		},
 																	},
 																},
@@ -41209,49 +41209,49 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 1802, col: 9, offset: 58265},
+												pos: position{line: 1802, col: 9, offset: 58260},
 												expr: &ruleRefExpr{
-													pos:  position{line: 1802, col: 10, offset: 58266},
+													pos:  position{line: 1802, col: 10, offset: 58261},
 													name: "BlockAttributes",
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 1803, col: 9, offset: 58290},
+												pos:   position{line: 1803, col: 9, offset: 58285},
 												label: "line",
 												expr: &choiceExpr{
-													pos: position{line: 1803, col: 15, offset: 58296},
+													pos: position{line: 1803, col: 15, offset: 58291},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2497, col: 22, offset: 80369},
+															pos: position{line: 2497, col: 22, offset: 80364},
 															run: (*parser).callonParagraph67,
 															expr: &seqExpr{
-																pos: position{line: 2497, col: 22, offset: 80369},
+																pos: position{line: 2497, col: 22, offset: 80364},
 																exprs: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2502, col: 31, offset: 80590},
+																		pos:        position{line: 2502, col: 31, offset: 80585},
 																		val:        "//",
 																		ignoreCase: false,
 																		want:       "\"//\"",
 																	},
 																	&notExpr{
-																		pos: position{line: 2502, col: 36, offset: 80595},
+																		pos: position{line: 2502, col: 36, offset: 80590},
 																		expr: &litMatcher{
-																			pos:        position{line: 2502, col: 37, offset: 80596},
+																			pos:        position{line: 2502, col: 37, offset: 80591},
 																			val:        "//",
 																			ignoreCase: false,
 																			want:       "\"//\"",
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2497, col: 49, offset: 80396},
+																		pos:   position{line: 2497, col: 49, offset: 80391},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2851, col: 13, offset: 90361},
+																			pos: position{line: 2851, col: 13, offset: 90356},
 																			run: (*parser).callonParagraph73,
 																			expr: &zeroOrMoreExpr{
-																				pos: position{line: 2851, col: 13, offset: 90361},
+																				pos: position{line: 2851, col: 13, offset: 90356},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2851, col: 13, offset: 90361},
+																					pos:        position{line: 2851, col: 13, offset: 90356},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41261,28 +41261,28 @@ var g = &grammar{
 																		},
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2927, col: 8, offset: 92233},
+																		pos: position{line: 2927, col: 8, offset: 92228},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92006},
+																				pos: position{line: 2914, col: 12, offset: 92001},
 																				run: (*parser).callonParagraph77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 13, offset: 92007},
+																					pos: position{line: 2914, col: 13, offset: 92002},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 13, offset: 92007},
+																							pos:        position{line: 2914, col: 13, offset: 92002},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 20, offset: 92014},
+																							pos:        position{line: 2914, col: 20, offset: 92009},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 29, offset: 92023},
+																							pos:        position{line: 2914, col: 29, offset: 92018},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41291,9 +41291,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2924, col: 8, offset: 92183},
+																				pos: position{line: 2924, col: 8, offset: 92178},
 																				expr: &anyMatcher{
-																					line: 2924, col: 9, offset: 92184,
+																					line: 2924, col: 9, offset: 92179,
 																				},
 																			},
 																		},
@@ -41302,21 +41302,21 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 1811, col: 5, offset: 58525},
+															pos: position{line: 1811, col: 5, offset: 58520},
 															run: (*parser).callonParagraph84,
 															expr: &seqExpr{
-																pos: position{line: 1811, col: 5, offset: 58525},
+																pos: position{line: 1811, col: 5, offset: 58520},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 1811, col: 5, offset: 58525},
+																		pos:   position{line: 1811, col: 5, offset: 58520},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 2855, col: 14, offset: 90428},
+																			pos: position{line: 2855, col: 14, offset: 90423},
 																			run: (*parser).callonParagraph87,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2855, col: 14, offset: 90428},
+																				pos: position{line: 2855, col: 14, offset: 90423},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2855, col: 14, offset: 90428},
+																					pos:        position{line: 2855, col: 14, offset: 90423},
 																					val:        "[^\\r\\n]",
 																					chars:      []rune{'\r', '\n'},
 																					ignoreCase: false,
@@ -41326,32 +41326,32 @@ var g = &grammar{
 																		},
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 1812, col: 5, offset: 58549},
+																		pos: position{line: 1812, col: 5, offset: 58544},
 																		run: (*parser).callonParagraph90,
 																	},
 																	&choiceExpr{
-																		pos: position{line: 2927, col: 8, offset: 92233},
+																		pos: position{line: 2927, col: 8, offset: 92228},
 																		alternatives: []interface{}{
 																			&actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92006},
+																				pos: position{line: 2914, col: 12, offset: 92001},
 																				run: (*parser).callonParagraph92,
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 13, offset: 92007},
+																					pos: position{line: 2914, col: 13, offset: 92002},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 13, offset: 92007},
+																							pos:        position{line: 2914, col: 13, offset: 92002},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 20, offset: 92014},
+																							pos:        position{line: 2914, col: 20, offset: 92009},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 29, offset: 92023},
+																							pos:        position{line: 2914, col: 29, offset: 92018},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -41360,9 +41360,9 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 2924, col: 8, offset: 92183},
+																				pos: position{line: 2924, col: 8, offset: 92178},
 																				expr: &anyMatcher{
-																					line: 2924, col: 9, offset: 92184,
+																					line: 2924, col: 9, offset: 92179,
 																				},
 																			},
 																		},
@@ -41384,16 +41384,16 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedText",
-			pos:  position{line: 1822, col: 1, offset: 59035},
+			pos:  position{line: 1822, col: 1, offset: 59030},
 			expr: &choiceExpr{
-				pos: position{line: 1822, col: 15, offset: 59049},
+				pos: position{line: 1822, col: 15, offset: 59044},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1822, col: 15, offset: 59049},
+						pos:  position{line: 1822, col: 15, offset: 59044},
 						name: "EscapedQuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1822, col: 35, offset: 59069},
+						pos:  position{line: 1822, col: 35, offset: 59064},
 						name: "UnescapedQuotedText",
 					},
 				},
@@ -41401,65 +41401,65 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedQuotedText",
-			pos:  position{line: 1824, col: 1, offset: 59090},
+			pos:  position{line: 1824, col: 1, offset: 59085},
 			expr: &actionExpr{
-				pos: position{line: 1825, col: 5, offset: 59115},
+				pos: position{line: 1825, col: 5, offset: 59110},
 				run: (*parser).callonEscapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1825, col: 5, offset: 59115},
+					pos: position{line: 1825, col: 5, offset: 59110},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1825, col: 5, offset: 59115},
+							pos:   position{line: 1825, col: 5, offset: 59110},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1825, col: 16, offset: 59126},
+								pos: position{line: 1825, col: 16, offset: 59121},
 								expr: &actionExpr{
-									pos: position{line: 1825, col: 17, offset: 59127},
+									pos: position{line: 1825, col: 17, offset: 59122},
 									run: (*parser).callonEscapedQuotedText5,
 									expr: &ruleRefExpr{
-										pos:  position{line: 1825, col: 17, offset: 59127},
+										pos:  position{line: 1825, col: 17, offset: 59122},
 										name: "LongHandAttributes",
 									},
 								},
 							},
 						},
 						&andExpr{
-							pos: position{line: 1828, col: 5, offset: 59195},
+							pos: position{line: 1828, col: 5, offset: 59190},
 							expr: &litMatcher{
-								pos:        position{line: 1828, col: 7, offset: 59197},
+								pos:        position{line: 1828, col: 7, offset: 59192},
 								val:        "\\",
 								ignoreCase: false,
 								want:       "\"\\\\\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1829, col: 5, offset: 59206},
+							pos:   position{line: 1829, col: 5, offset: 59201},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1830, col: 9, offset: 59224},
+								pos: position{line: 1830, col: 9, offset: 59219},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1830, col: 9, offset: 59224},
+										pos:  position{line: 1830, col: 9, offset: 59219},
 										name: "EscapedBoldText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1831, col: 11, offset: 59251},
+										pos:  position{line: 1831, col: 11, offset: 59246},
 										name: "EscapedItalicText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1832, col: 11, offset: 59279},
+										pos:  position{line: 1832, col: 11, offset: 59274},
 										name: "EscapedMonospaceText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1833, col: 11, offset: 59310},
+										pos:  position{line: 1833, col: 11, offset: 59305},
 										name: "EscapedMarkedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1834, col: 11, offset: 59338},
+										pos:  position{line: 1834, col: 11, offset: 59333},
 										name: "EscapedSubscriptText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1835, col: 11, offset: 59369},
+										pos:  position{line: 1835, col: 11, offset: 59364},
 										name: "EscapedSuperscriptText",
 									},
 								},
@@ -41471,36 +41471,36 @@ var g = &grammar{
 		},
 		{
 			name: "UnescapedQuotedText",
-			pos:  position{line: 1840, col: 1, offset: 59489},
+			pos:  position{line: 1840, col: 1, offset: 59484},
 			expr: &actionExpr{
-				pos: position{line: 1841, col: 5, offset: 59531},
+				pos: position{line: 1841, col: 5, offset: 59526},
 				run: (*parser).callonUnescapedQuotedText1,
 				expr: &seqExpr{
-					pos: position{line: 1841, col: 5, offset: 59531},
+					pos: position{line: 1841, col: 5, offset: 59526},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 1841, col: 5, offset: 59531},
+							pos:   position{line: 1841, col: 5, offset: 59526},
 							label: "attributes",
 							expr: &zeroOrOneExpr{
-								pos: position{line: 1841, col: 16, offset: 59542},
+								pos: position{line: 1841, col: 16, offset: 59537},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1841, col: 17, offset: 59543},
+									pos:  position{line: 1841, col: 17, offset: 59538},
 									name: "LongHandAttributes",
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1842, col: 5, offset: 59568},
+							pos:   position{line: 1842, col: 5, offset: 59563},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 1842, col: 14, offset: 59577},
+								pos: position{line: 1842, col: 14, offset: 59572},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 1842, col: 14, offset: 59577},
+										pos:  position{line: 1842, col: 14, offset: 59572},
 										name: "SingleQuotedText",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 1842, col: 33, offset: 59596},
+										pos:  position{line: 1842, col: 33, offset: 59591},
 										name: "DoubleQuotedText",
 									},
 								},
@@ -41512,32 +41512,32 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuotedText",
-			pos:  position{line: 1850, col: 1, offset: 59827},
+			pos:  position{line: 1850, col: 1, offset: 59822},
 			expr: &choiceExpr{
-				pos: position{line: 1851, col: 5, offset: 59852},
+				pos: position{line: 1851, col: 5, offset: 59847},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1851, col: 5, offset: 59852},
+						pos:  position{line: 1851, col: 5, offset: 59847},
 						name: "SingleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1852, col: 7, offset: 59879},
+						pos:  position{line: 1852, col: 7, offset: 59874},
 						name: "SingleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1853, col: 7, offset: 59907},
+						pos:  position{line: 1853, col: 7, offset: 59902},
 						name: "SingleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1854, col: 7, offset: 59939},
+						pos:  position{line: 1854, col: 7, offset: 59934},
 						name: "SingleQuoteMarkedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1855, col: 7, offset: 59967},
+						pos:  position{line: 1855, col: 7, offset: 59962},
 						name: "SubscriptText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1856, col: 7, offset: 59988},
+						pos:  position{line: 1856, col: 7, offset: 59983},
 						name: "SuperscriptText",
 					},
 				},
@@ -41545,24 +41545,24 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuotedText",
-			pos:  position{line: 1858, col: 1, offset: 60006},
+			pos:  position{line: 1858, col: 1, offset: 60001},
 			expr: &choiceExpr{
-				pos: position{line: 1859, col: 5, offset: 60031},
+				pos: position{line: 1859, col: 5, offset: 60026},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 1859, col: 5, offset: 60031},
+						pos:  position{line: 1859, col: 5, offset: 60026},
 						name: "DoubleQuoteBoldText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1860, col: 7, offset: 60057},
+						pos:  position{line: 1860, col: 7, offset: 60052},
 						name: "DoubleQuoteItalicText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1861, col: 7, offset: 60085},
+						pos:  position{line: 1861, col: 7, offset: 60080},
 						name: "DoubleQuoteMonospaceText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1862, col: 7, offset: 60116},
+						pos:  position{line: 1862, col: 7, offset: 60111},
 						name: "DoubleQuoteMarkedText",
 					},
 				},
@@ -41570,26 +41570,26 @@ var g = &grammar{
 		},
 		{
 			name: "QuotedTextElement",
-			pos:  position{line: 1876, col: 1, offset: 60470},
+			pos:  position{line: 1876, col: 1, offset: 60465},
 			expr: &choiceExpr{
-				pos: position{line: 1877, col: 5, offset: 60496},
+				pos: position{line: 1877, col: 5, offset: 60491},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2804, col: 5, offset: 89077},
+						pos: position{line: 2804, col: 5, offset: 89072},
 						run: (*parser).callonQuotedTextElement2,
 						expr: &seqExpr{
-							pos: position{line: 2804, col: 5, offset: 89077},
+							pos: position{line: 2804, col: 5, offset: 89072},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2804, col: 5, offset: 89077},
+									pos:   position{line: 2804, col: 5, offset: 89072},
 									label: "text",
 									expr: &actionExpr{
-										pos: position{line: 2804, col: 11, offset: 89083},
+										pos: position{line: 2804, col: 11, offset: 89078},
 										run: (*parser).callonQuotedTextElement5,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 2804, col: 11, offset: 89083},
+											pos: position{line: 2804, col: 11, offset: 89078},
 											expr: &charClassMatcher{
-												pos:        position{line: 2804, col: 11, offset: 89083},
+												pos:        position{line: 2804, col: 11, offset: 89078},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41599,36 +41599,36 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2807, col: 5, offset: 89141},
+									pos: position{line: 2807, col: 5, offset: 89136},
 									expr: &seqExpr{
-										pos: position{line: 2808, col: 9, offset: 89152},
+										pos: position{line: 2808, col: 9, offset: 89147},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2808, col: 9, offset: 89152},
+												pos:        position{line: 2808, col: 9, offset: 89147},
 												val:        ":",
 												ignoreCase: false,
 												want:       "\":\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2809, col: 9, offset: 89201},
+												pos: position{line: 2809, col: 9, offset: 89196},
 												run: (*parser).callonQuotedTextElement11,
 											},
 										},
 									},
 								},
 								&notExpr{
-									pos: position{line: 2813, col: 5, offset: 89281},
+									pos: position{line: 2813, col: 5, offset: 89276},
 									expr: &seqExpr{
-										pos: position{line: 2814, col: 9, offset: 89292},
+										pos: position{line: 2814, col: 9, offset: 89287},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2814, col: 9, offset: 89292},
+												pos:        position{line: 2814, col: 9, offset: 89287},
 												val:        "@",
 												ignoreCase: false,
 												want:       "\"@\"",
 											},
 											&charClassMatcher{
-												pos:        position{line: 2814, col: 13, offset: 89296},
+												pos:        position{line: 2814, col: 13, offset: 89291},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -41641,12 +41641,12 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2909, col: 11, offset: 91896},
+						pos: position{line: 2909, col: 11, offset: 91891},
 						run: (*parser).callonQuotedTextElement16,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2909, col: 11, offset: 91896},
+							pos: position{line: 2909, col: 11, offset: 91891},
 							expr: &charClassMatcher{
-								pos:        position{line: 2909, col: 11, offset: 91896},
+								pos:        position{line: 2909, col: 11, offset: 91891},
 								val:        "[\\t ]",
 								chars:      []rune{'\t', ' '},
 								ignoreCase: false,
@@ -41655,29 +41655,29 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1879, col: 7, offset: 60559},
+						pos:  position{line: 1879, col: 7, offset: 60554},
 						name: "Replacement",
 					},
 					&actionExpr{
-						pos: position{line: 2515, col: 5, offset: 81086},
+						pos: position{line: 2515, col: 5, offset: 81081},
 						run: (*parser).callonQuotedTextElement20,
 						expr: &seqExpr{
-							pos: position{line: 2515, col: 5, offset: 81086},
+							pos: position{line: 2515, col: 5, offset: 81081},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2515, col: 5, offset: 81086},
+									pos: position{line: 2515, col: 5, offset: 81081},
 									run: (*parser).callonQuotedTextElement22,
 								},
 								&litMatcher{
-									pos:        position{line: 2518, col: 5, offset: 81157},
+									pos:        position{line: 2518, col: 5, offset: 81152},
 									val:        "\\'",
 									ignoreCase: false,
 									want:       "\"\\\\'\"",
 								},
 								&andExpr{
-									pos: position{line: 2518, col: 10, offset: 81162},
+									pos: position{line: 2518, col: 10, offset: 81157},
 									expr: &charClassMatcher{
-										pos:        position{line: 2518, col: 11, offset: 81163},
+										pos:        position{line: 2518, col: 11, offset: 81158},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41688,29 +41688,29 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2524, col: 5, offset: 81355},
+						pos: position{line: 2524, col: 5, offset: 81350},
 						run: (*parser).callonQuotedTextElement26,
 						expr: &seqExpr{
-							pos: position{line: 2524, col: 5, offset: 81355},
+							pos: position{line: 2524, col: 5, offset: 81350},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2524, col: 5, offset: 81355},
+									pos: position{line: 2524, col: 5, offset: 81350},
 									run: (*parser).callonQuotedTextElement28,
 								},
 								&andCodeExpr{
-									pos: position{line: 2527, col: 5, offset: 81426},
+									pos: position{line: 2527, col: 5, offset: 81421},
 									run: (*parser).callonQuotedTextElement29,
 								},
 								&litMatcher{
-									pos:        position{line: 2531, col: 5, offset: 81551},
+									pos:        position{line: 2531, col: 5, offset: 81546},
 									val:        "'",
 									ignoreCase: false,
 									want:       "\"'\"",
 								},
 								&andExpr{
-									pos: position{line: 2531, col: 9, offset: 81555},
+									pos: position{line: 2531, col: 9, offset: 81550},
 									expr: &charClassMatcher{
-										pos:        position{line: 2531, col: 10, offset: 81556},
+										pos:        position{line: 2531, col: 10, offset: 81551},
 										val:        "[\\pL]",
 										classes:    []*unicode.RangeTable{rangeTable("L")},
 										ignoreCase: false,
@@ -41721,27 +41721,27 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2822, col: 5, offset: 89489},
+						pos: position{line: 2822, col: 5, offset: 89484},
 						run: (*parser).callonQuotedTextElement33,
 						expr: &choiceExpr{
-							pos: position{line: 2823, col: 9, offset: 89499},
+							pos: position{line: 2823, col: 9, offset: 89494},
 							alternatives: []interface{}{
 								&charClassMatcher{
-									pos:        position{line: 2823, col: 10, offset: 89500},
+									pos:        position{line: 2823, col: 10, offset: 89495},
 									val:        "[.,;?)!/:\"\\@=-]",
 									chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 									ignoreCase: false,
 									inverted:   false,
 								},
 								&seqExpr{
-									pos: position{line: 2825, col: 13, offset: 89597},
+									pos: position{line: 2825, col: 13, offset: 89592},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2825, col: 13, offset: 89597},
+											pos: position{line: 2825, col: 13, offset: 89592},
 											run: (*parser).callonQuotedTextElement37,
 										},
 										&litMatcher{
-											pos:        position{line: 2828, col: 13, offset: 89697},
+											pos:        position{line: 2828, col: 13, offset: 89692},
 											val:        "[",
 											ignoreCase: false,
 											want:       "\"[\"",
@@ -41749,20 +41749,20 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2828, col: 19, offset: 89703},
+									pos:        position{line: 2828, col: 19, offset: 89698},
 									val:        "]",
 									ignoreCase: false,
 									want:       "\"]\"",
 								},
 								&seqExpr{
-									pos: position{line: 2831, col: 13, offset: 89741},
+									pos: position{line: 2831, col: 13, offset: 89736},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2831, col: 13, offset: 89741},
+											pos: position{line: 2831, col: 13, offset: 89736},
 											run: (*parser).callonQuotedTextElement41,
 										},
 										&charClassMatcher{
-											pos:        position{line: 2834, col: 14, offset: 89834},
+											pos:        position{line: 2834, col: 14, offset: 89829},
 											val:        "[*_`#]",
 											chars:      []rune{'*', '_', '`', '#'},
 											ignoreCase: false,
@@ -41771,18 +41771,18 @@ var g = &grammar{
 									},
 								},
 								&seqExpr{
-									pos: position{line: 2836, col: 12, offset: 89878},
+									pos: position{line: 2836, col: 12, offset: 89873},
 									exprs: []interface{}{
 										&litMatcher{
-											pos:        position{line: 2836, col: 12, offset: 89878},
+											pos:        position{line: 2836, col: 12, offset: 89873},
 											val:        "(",
 											ignoreCase: false,
 											want:       "\"(\"",
 										},
 										&notExpr{
-											pos: position{line: 2836, col: 16, offset: 89882},
+											pos: position{line: 2836, col: 16, offset: 89877},
 											expr: &litMatcher{
-												pos:        position{line: 2836, col: 17, offset: 89883},
+												pos:        position{line: 2836, col: 17, offset: 89878},
 												val:        "(",
 												ignoreCase: false,
 												want:       "\"(\"",
@@ -42140,31 +42140,31 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2918, col: 18, offset: 92106},
+						pos: position{line: 2918, col: 18, offset: 92101},
 						run: (*parser).callonQuotedTextElement116,
 						expr: &seqExpr{
-							pos: position{line: 2918, col: 18, offset: 92106},
+							pos: position{line: 2918, col: 18, offset: 92101},
 							exprs: []interface{}{
 								&actionExpr{
-									pos: position{line: 2914, col: 12, offset: 92006},
+									pos: position{line: 2914, col: 12, offset: 92001},
 									run: (*parser).callonQuotedTextElement118,
 									expr: &choiceExpr{
-										pos: position{line: 2914, col: 13, offset: 92007},
+										pos: position{line: 2914, col: 13, offset: 92002},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2914, col: 13, offset: 92007},
+												pos:        position{line: 2914, col: 13, offset: 92002},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2914, col: 20, offset: 92014},
+												pos:        position{line: 2914, col: 20, offset: 92009},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2914, col: 29, offset: 92023},
+												pos:        position{line: 2914, col: 29, offset: 92018},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -42173,27 +42173,27 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2918, col: 26, offset: 92114},
+									pos: position{line: 2918, col: 26, offset: 92109},
 									expr: &actionExpr{
-										pos: position{line: 2914, col: 12, offset: 92006},
+										pos: position{line: 2914, col: 12, offset: 92001},
 										run: (*parser).callonQuotedTextElement124,
 										expr: &choiceExpr{
-											pos: position{line: 2914, col: 13, offset: 92007},
+											pos: position{line: 2914, col: 13, offset: 92002},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2914, col: 13, offset: 92007},
+													pos:        position{line: 2914, col: 13, offset: 92002},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2914, col: 20, offset: 92014},
+													pos:        position{line: 2914, col: 20, offset: 92009},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2914, col: 29, offset: 92023},
+													pos:        position{line: 2914, col: 29, offset: 92018},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -42206,31 +42206,31 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1884, col: 7, offset: 60726},
+						pos:  position{line: 1884, col: 7, offset: 60721},
 						name: "QuotedText",
 					},
 					&ruleRefExpr{
-						pos:  position{line: 1885, col: 7, offset: 60773},
+						pos:  position{line: 1885, col: 7, offset: 60768},
 						name: "InlineMacro",
 					},
 					&actionExpr{
-						pos: position{line: 2484, col: 5, offset: 79915},
+						pos: position{line: 2484, col: 5, offset: 79910},
 						run: (*parser).callonQuotedTextElement131,
 						expr: &seqExpr{
-							pos: position{line: 2484, col: 5, offset: 79915},
+							pos: position{line: 2484, col: 5, offset: 79910},
 							exprs: []interface{}{
 								&andCodeExpr{
-									pos: position{line: 2484, col: 5, offset: 79915},
+									pos: position{line: 2484, col: 5, offset: 79910},
 									run: (*parser).callonQuotedTextElement133,
 								},
 								&labeledExpr{
-									pos:   position{line: 2487, col: 5, offset: 79991},
+									pos:   position{line: 2487, col: 5, offset: 79986},
 									label: "element",
 									expr: &actionExpr{
-										pos: position{line: 2488, col: 9, offset: 80009},
+										pos: position{line: 2488, col: 9, offset: 80004},
 										run: (*parser).callonQuotedTextElement135,
 										expr: &charClassMatcher{
-											pos:        position{line: 2488, col: 10, offset: 80010},
+											pos:        position{line: 2488, col: 10, offset: 80005},
 											val:        "[<>&]",
 											chars:      []rune{'<', '>', '&'},
 											ignoreCase: false,
@@ -42281,10 +42281,10 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2844, col: 12, offset: 90143},
+						pos: position{line: 2844, col: 12, offset: 90138},
 						run: (*parser).callonQuotedTextElement145,
 						expr: &charClassMatcher{
-							pos:        position{line: 2844, col: 12, offset: 90143},
+							pos:        position{line: 2844, col: 12, offset: 90138},
 							val:        "[^\\r\\n]",
 							chars:      []rune{'\r', '\n'},
 							ignoreCase: false,
@@ -42296,29 +42296,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldText",
-			pos:  position{line: 1903, col: 1, offset: 61243},
+			pos:  position{line: 1903, col: 1, offset: 61238},
 			expr: &actionExpr{
-				pos: position{line: 1904, col: 5, offset: 61271},
+				pos: position{line: 1904, col: 5, offset: 61266},
 				run: (*parser).callonDoubleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1904, col: 5, offset: 61271},
+					pos: position{line: 1904, col: 5, offset: 61266},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1899, col: 38, offset: 61196},
+							pos:        position{line: 1899, col: 38, offset: 61191},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1905, col: 5, offset: 61310},
+							pos:   position{line: 1905, col: 5, offset: 61305},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1905, col: 15, offset: 61320},
+								pos:  position{line: 1905, col: 15, offset: 61315},
 								name: "DoubleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1901, col: 36, offset: 61237},
+							pos:        position{line: 1901, col: 36, offset: 61232},
 							val:        "**",
 							ignoreCase: false,
 							want:       "\"**\"",
@@ -42329,44 +42329,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteBoldTextElements",
-			pos:  position{line: 1910, col: 1, offset: 61480},
+			pos:  position{line: 1910, col: 1, offset: 61475},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1910, col: 32, offset: 61511},
+				pos: position{line: 1910, col: 32, offset: 61506},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1910, col: 32, offset: 61511},
+					pos:  position{line: 1910, col: 32, offset: 61506},
 					name: "DoubleQuoteBoldTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteBoldTextElement",
-			pos:  position{line: 1912, col: 1, offset: 61542},
+			pos:  position{line: 1912, col: 1, offset: 61537},
 			expr: &actionExpr{
-				pos: position{line: 1913, col: 5, offset: 61577},
+				pos: position{line: 1913, col: 5, offset: 61572},
 				run: (*parser).callonDoubleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1913, col: 5, offset: 61577},
+					pos: position{line: 1913, col: 5, offset: 61572},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2922, col: 11, offset: 92169},
+							pos: position{line: 2922, col: 11, offset: 92164},
 							expr: &anyMatcher{
-								line: 2922, col: 13, offset: 92171,
+								line: 2922, col: 13, offset: 92166,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1914, col: 5, offset: 61588},
+							pos: position{line: 1914, col: 5, offset: 61583},
 							expr: &litMatcher{
-								pos:        position{line: 1901, col: 36, offset: 61237},
+								pos:        position{line: 1901, col: 36, offset: 61232},
 								val:        "**",
 								ignoreCase: false,
 								want:       "\"**\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1915, col: 5, offset: 61625},
+							pos:   position{line: 1915, col: 5, offset: 61620},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1915, col: 14, offset: 61634},
+								pos:  position{line: 1915, col: 14, offset: 61629},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42376,29 +42376,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldText",
-			pos:  position{line: 1940, col: 1, offset: 62314},
+			pos:  position{line: 1940, col: 1, offset: 62309},
 			expr: &actionExpr{
-				pos: position{line: 1941, col: 5, offset: 62342},
+				pos: position{line: 1941, col: 5, offset: 62337},
 				run: (*parser).callonSingleQuoteBoldText1,
 				expr: &seqExpr{
-					pos: position{line: 1941, col: 5, offset: 62342},
+					pos: position{line: 1941, col: 5, offset: 62337},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1924, col: 5, offset: 61868},
+							pos:        position{line: 1924, col: 5, offset: 61863},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 1925, col: 5, offset: 61877},
+							pos: position{line: 1925, col: 5, offset: 61872},
 							run: (*parser).callonSingleQuoteBoldText4,
 						},
 						&andExpr{
-							pos: position{line: 1929, col: 5, offset: 61995},
+							pos: position{line: 1929, col: 5, offset: 61990},
 							expr: &notExpr{
-								pos: position{line: 1929, col: 7, offset: 61997},
+								pos: position{line: 1929, col: 7, offset: 61992},
 								expr: &litMatcher{
-									pos:        position{line: 1929, col: 8, offset: 61998},
+									pos:        position{line: 1929, col: 8, offset: 61993},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42406,38 +42406,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1942, col: 5, offset: 62380},
+							pos:   position{line: 1942, col: 5, offset: 62375},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1942, col: 15, offset: 62390},
+								pos:  position{line: 1942, col: 15, offset: 62385},
 								name: "SingleQuoteBoldTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1932, col: 5, offset: 62118},
+							pos:        position{line: 1932, col: 5, offset: 62113},
 							val:        "*",
 							ignoreCase: false,
 							want:       "\"*\"",
 						},
 						&notExpr{
-							pos: position{line: 1933, col: 5, offset: 62127},
+							pos: position{line: 1933, col: 5, offset: 62122},
 							expr: &litMatcher{
-								pos:        position{line: 1933, col: 6, offset: 62128},
+								pos:        position{line: 1933, col: 6, offset: 62123},
 								val:        "*",
 								ignoreCase: false,
 								want:       "\"*\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1934, col: 5, offset: 62191},
+							pos: position{line: 1934, col: 5, offset: 62186},
 							run: (*parser).callonSingleQuoteBoldText13,
 						},
 						&andExpr{
-							pos: position{line: 1938, col: 5, offset: 62300},
+							pos: position{line: 1938, col: 5, offset: 62295},
 							expr: &notExpr{
-								pos: position{line: 1938, col: 7, offset: 62302},
+								pos: position{line: 1938, col: 7, offset: 62297},
 								expr: &charClassMatcher{
-									pos:        position{line: 2795, col: 13, offset: 88930},
+									pos:        position{line: 2795, col: 13, offset: 88925},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42451,20 +42451,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElements",
-			pos:  position{line: 1947, col: 1, offset: 62550},
+			pos:  position{line: 1947, col: 1, offset: 62545},
 			expr: &actionExpr{
-				pos: position{line: 1948, col: 5, offset: 62587},
+				pos: position{line: 1948, col: 5, offset: 62582},
 				run: (*parser).callonSingleQuoteBoldTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 1948, col: 5, offset: 62587},
+					pos: position{line: 1948, col: 5, offset: 62582},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 1948, col: 5, offset: 62587},
+							pos: position{line: 1948, col: 5, offset: 62582},
 							expr: &actionExpr{
-								pos: position{line: 2905, col: 10, offset: 91835},
+								pos: position{line: 2905, col: 10, offset: 91830},
 								run: (*parser).callonSingleQuoteBoldTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2905, col: 10, offset: 91835},
+									pos:        position{line: 2905, col: 10, offset: 91830},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42473,18 +42473,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1949, col: 5, offset: 62626},
+							pos:   position{line: 1949, col: 5, offset: 62621},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 1949, col: 14, offset: 62635},
+								pos: position{line: 1949, col: 14, offset: 62630},
 								expr: &ruleRefExpr{
-									pos:  position{line: 1949, col: 15, offset: 62636},
+									pos:  position{line: 1949, col: 15, offset: 62631},
 									name: "SingleQuoteBoldTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 1950, col: 5, offset: 62670},
+							pos: position{line: 1950, col: 5, offset: 62665},
 							run: (*parser).callonSingleQuoteBoldTextElements9,
 						},
 					},
@@ -42493,49 +42493,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteBoldTextElement",
-			pos:  position{line: 1956, col: 1, offset: 62811},
+			pos:  position{line: 1956, col: 1, offset: 62806},
 			expr: &actionExpr{
-				pos: position{line: 1957, col: 5, offset: 62846},
+				pos: position{line: 1957, col: 5, offset: 62841},
 				run: (*parser).callonSingleQuoteBoldTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 1957, col: 5, offset: 62846},
+					pos: position{line: 1957, col: 5, offset: 62841},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2922, col: 11, offset: 92169},
+							pos: position{line: 2922, col: 11, offset: 92164},
 							expr: &anyMatcher{
-								line: 2922, col: 13, offset: 92171,
+								line: 2922, col: 13, offset: 92166,
 							},
 						},
 						&notExpr{
-							pos: position{line: 1958, col: 5, offset: 62874},
+							pos: position{line: 1958, col: 5, offset: 62869},
 							expr: &seqExpr{
-								pos: position{line: 1932, col: 5, offset: 62118},
+								pos: position{line: 1932, col: 5, offset: 62113},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 1932, col: 5, offset: 62118},
+										pos:        position{line: 1932, col: 5, offset: 62113},
 										val:        "*",
 										ignoreCase: false,
 										want:       "\"*\"",
 									},
 									&notExpr{
-										pos: position{line: 1933, col: 5, offset: 62127},
+										pos: position{line: 1933, col: 5, offset: 62122},
 										expr: &litMatcher{
-											pos:        position{line: 1933, col: 6, offset: 62128},
+											pos:        position{line: 1933, col: 6, offset: 62123},
 											val:        "*",
 											ignoreCase: false,
 											want:       "\"*\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 1934, col: 5, offset: 62191},
+										pos: position{line: 1934, col: 5, offset: 62186},
 										run: (*parser).callonSingleQuoteBoldTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 1938, col: 5, offset: 62300},
+										pos: position{line: 1938, col: 5, offset: 62295},
 										expr: &notExpr{
-											pos: position{line: 1938, col: 7, offset: 62302},
+											pos: position{line: 1938, col: 7, offset: 62297},
 											expr: &charClassMatcher{
-												pos:        position{line: 2795, col: 13, offset: 88930},
+												pos:        position{line: 2795, col: 13, offset: 88925},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42547,10 +42547,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 1959, col: 5, offset: 62911},
+							pos:   position{line: 1959, col: 5, offset: 62906},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1959, col: 14, offset: 62920},
+								pos:  position{line: 1959, col: 14, offset: 62915},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42560,35 +42560,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedBoldText",
-			pos:  position{line: 1964, col: 1, offset: 63008},
+			pos:  position{line: 1964, col: 1, offset: 63003},
 			expr: &choiceExpr{
-				pos: position{line: 1966, col: 5, offset: 63069},
+				pos: position{line: 1966, col: 5, offset: 63064},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 1966, col: 5, offset: 63069},
+						pos: position{line: 1966, col: 5, offset: 63064},
 						run: (*parser).callonEscapedBoldText2,
 						expr: &seqExpr{
-							pos: position{line: 1966, col: 5, offset: 63069},
+							pos: position{line: 1966, col: 5, offset: 63064},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1966, col: 5, offset: 63069},
+									pos:   position{line: 1966, col: 5, offset: 63064},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1872, col: 25, offset: 60416},
+										pos: position{line: 1872, col: 25, offset: 60411},
 										run: (*parser).callonEscapedBoldText5,
 										expr: &seqExpr{
-											pos: position{line: 1872, col: 25, offset: 60416},
+											pos: position{line: 1872, col: 25, offset: 60411},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1872, col: 25, offset: 60416},
+													pos:        position{line: 1872, col: 25, offset: 60411},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1872, col: 30, offset: 60421},
+													pos: position{line: 1872, col: 30, offset: 60416},
 													expr: &litMatcher{
-														pos:        position{line: 1872, col: 30, offset: 60421},
+														pos:        position{line: 1872, col: 30, offset: 60416},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -42599,21 +42599,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1966, col: 40, offset: 63104},
+									pos:        position{line: 1966, col: 40, offset: 63099},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1966, col: 45, offset: 63109},
+									pos:   position{line: 1966, col: 45, offset: 63104},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1966, col: 55, offset: 63119},
+										pos:  position{line: 1966, col: 55, offset: 63114},
 										name: "DoubleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1966, col: 84, offset: 63148},
+									pos:        position{line: 1966, col: 84, offset: 63143},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
@@ -42622,21 +42622,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1970, col: 7, offset: 63312},
+						pos: position{line: 1970, col: 7, offset: 63307},
 						run: (*parser).callonEscapedBoldText14,
 						expr: &seqExpr{
-							pos: position{line: 1970, col: 7, offset: 63312},
+							pos: position{line: 1970, col: 7, offset: 63307},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1970, col: 7, offset: 63312},
+									pos:   position{line: 1970, col: 7, offset: 63307},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1868, col: 25, offset: 60343},
+										pos: position{line: 1868, col: 25, offset: 60338},
 										run: (*parser).callonEscapedBoldText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1868, col: 25, offset: 60343},
+											pos: position{line: 1868, col: 25, offset: 60338},
 											expr: &litMatcher{
-												pos:        position{line: 1868, col: 25, offset: 60343},
+												pos:        position{line: 1868, col: 25, offset: 60338},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42645,21 +42645,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1970, col: 42, offset: 63347},
+									pos:        position{line: 1970, col: 42, offset: 63342},
 									val:        "**",
 									ignoreCase: false,
 									want:       "\"**\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1970, col: 47, offset: 63352},
+									pos:   position{line: 1970, col: 47, offset: 63347},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1970, col: 57, offset: 63362},
+										pos:  position{line: 1970, col: 57, offset: 63357},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1970, col: 86, offset: 63391},
+									pos:        position{line: 1970, col: 86, offset: 63386},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42668,21 +42668,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 1975, col: 7, offset: 63593},
+						pos: position{line: 1975, col: 7, offset: 63588},
 						run: (*parser).callonEscapedBoldText24,
 						expr: &seqExpr{
-							pos: position{line: 1975, col: 7, offset: 63593},
+							pos: position{line: 1975, col: 7, offset: 63588},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 1975, col: 7, offset: 63593},
+									pos:   position{line: 1975, col: 7, offset: 63588},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1868, col: 25, offset: 60343},
+										pos: position{line: 1868, col: 25, offset: 60338},
 										run: (*parser).callonEscapedBoldText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1868, col: 25, offset: 60343},
+											pos: position{line: 1868, col: 25, offset: 60338},
 											expr: &litMatcher{
-												pos:        position{line: 1868, col: 25, offset: 60343},
+												pos:        position{line: 1868, col: 25, offset: 60338},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -42691,21 +42691,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1975, col: 42, offset: 63628},
+									pos:        position{line: 1975, col: 42, offset: 63623},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 1975, col: 46, offset: 63632},
+									pos:   position{line: 1975, col: 46, offset: 63627},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 1975, col: 56, offset: 63642},
+										pos:  position{line: 1975, col: 56, offset: 63637},
 										name: "SingleQuoteBoldTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 1975, col: 85, offset: 63671},
+									pos:        position{line: 1975, col: 85, offset: 63666},
 									val:        "*",
 									ignoreCase: false,
 									want:       "\"*\"",
@@ -42718,29 +42718,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicText",
-			pos:  position{line: 1992, col: 1, offset: 64151},
+			pos:  position{line: 1992, col: 1, offset: 64146},
 			expr: &actionExpr{
-				pos: position{line: 1993, col: 5, offset: 64181},
+				pos: position{line: 1993, col: 5, offset: 64176},
 				run: (*parser).callonDoubleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 1993, col: 5, offset: 64181},
+					pos: position{line: 1993, col: 5, offset: 64176},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 1988, col: 40, offset: 64102},
+							pos:        position{line: 1988, col: 40, offset: 64097},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 1994, col: 5, offset: 64222},
+							pos:   position{line: 1994, col: 5, offset: 64217},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 1994, col: 15, offset: 64232},
+								pos:  position{line: 1994, col: 15, offset: 64227},
 								name: "DoubleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 1990, col: 38, offset: 64145},
+							pos:        position{line: 1990, col: 38, offset: 64140},
 							val:        "__",
 							ignoreCase: false,
 							want:       "\"__\"",
@@ -42751,44 +42751,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteItalicTextElements",
-			pos:  position{line: 1999, col: 1, offset: 64397},
+			pos:  position{line: 1999, col: 1, offset: 64392},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 1999, col: 34, offset: 64430},
+				pos: position{line: 1999, col: 34, offset: 64425},
 				expr: &ruleRefExpr{
-					pos:  position{line: 1999, col: 34, offset: 64430},
+					pos:  position{line: 1999, col: 34, offset: 64425},
 					name: "DoubleQuoteItalicTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteItalicTextElement",
-			pos:  position{line: 2001, col: 1, offset: 64462},
+			pos:  position{line: 2001, col: 1, offset: 64457},
 			expr: &actionExpr{
-				pos: position{line: 2002, col: 5, offset: 64499},
+				pos: position{line: 2002, col: 5, offset: 64494},
 				run: (*parser).callonDoubleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2002, col: 5, offset: 64499},
+					pos: position{line: 2002, col: 5, offset: 64494},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2922, col: 11, offset: 92169},
+							pos: position{line: 2922, col: 11, offset: 92164},
 							expr: &anyMatcher{
-								line: 2922, col: 13, offset: 92171,
+								line: 2922, col: 13, offset: 92166,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2003, col: 5, offset: 64510},
+							pos: position{line: 2003, col: 5, offset: 64505},
 							expr: &litMatcher{
-								pos:        position{line: 1990, col: 38, offset: 64145},
+								pos:        position{line: 1990, col: 38, offset: 64140},
 								val:        "__",
 								ignoreCase: false,
 								want:       "\"__\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2004, col: 5, offset: 64549},
+							pos:   position{line: 2004, col: 5, offset: 64544},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2004, col: 14, offset: 64558},
+								pos:  position{line: 2004, col: 14, offset: 64553},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42798,29 +42798,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicText",
-			pos:  position{line: 2030, col: 1, offset: 65242},
+			pos:  position{line: 2030, col: 1, offset: 65237},
 			expr: &actionExpr{
-				pos: position{line: 2031, col: 5, offset: 65272},
+				pos: position{line: 2031, col: 5, offset: 65267},
 				run: (*parser).callonSingleQuoteItalicText1,
 				expr: &seqExpr{
-					pos: position{line: 2031, col: 5, offset: 65272},
+					pos: position{line: 2031, col: 5, offset: 65267},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2013, col: 5, offset: 64800},
+							pos:        position{line: 2013, col: 5, offset: 64795},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2014, col: 5, offset: 64809},
+							pos: position{line: 2014, col: 5, offset: 64804},
 							run: (*parser).callonSingleQuoteItalicText4,
 						},
 						&andExpr{
-							pos: position{line: 2018, col: 5, offset: 64929},
+							pos: position{line: 2018, col: 5, offset: 64924},
 							expr: &notExpr{
-								pos: position{line: 2018, col: 7, offset: 64931},
+								pos: position{line: 2018, col: 7, offset: 64926},
 								expr: &litMatcher{
-									pos:        position{line: 2018, col: 8, offset: 64932},
+									pos:        position{line: 2018, col: 8, offset: 64927},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -42828,38 +42828,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2032, col: 5, offset: 65312},
+							pos:   position{line: 2032, col: 5, offset: 65307},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2032, col: 15, offset: 65322},
+								pos:  position{line: 2032, col: 15, offset: 65317},
 								name: "SingleQuoteItalicTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2022, col: 5, offset: 65042},
+							pos:        position{line: 2022, col: 5, offset: 65037},
 							val:        "_",
 							ignoreCase: false,
 							want:       "\"_\"",
 						},
 						&notExpr{
-							pos: position{line: 2023, col: 5, offset: 65051},
+							pos: position{line: 2023, col: 5, offset: 65046},
 							expr: &litMatcher{
-								pos:        position{line: 2023, col: 6, offset: 65052},
+								pos:        position{line: 2023, col: 6, offset: 65047},
 								val:        "_",
 								ignoreCase: false,
 								want:       "\"_\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2024, col: 5, offset: 65117},
+							pos: position{line: 2024, col: 5, offset: 65112},
 							run: (*parser).callonSingleQuoteItalicText13,
 						},
 						&andExpr{
-							pos: position{line: 2028, col: 5, offset: 65228},
+							pos: position{line: 2028, col: 5, offset: 65223},
 							expr: &notExpr{
-								pos: position{line: 2028, col: 7, offset: 65230},
+								pos: position{line: 2028, col: 7, offset: 65225},
 								expr: &charClassMatcher{
-									pos:        position{line: 2795, col: 13, offset: 88930},
+									pos:        position{line: 2795, col: 13, offset: 88925},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -42873,20 +42873,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElements",
-			pos:  position{line: 2037, col: 1, offset: 65489},
+			pos:  position{line: 2037, col: 1, offset: 65484},
 			expr: &actionExpr{
-				pos: position{line: 2038, col: 5, offset: 65527},
+				pos: position{line: 2038, col: 5, offset: 65522},
 				run: (*parser).callonSingleQuoteItalicTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2038, col: 5, offset: 65527},
+					pos: position{line: 2038, col: 5, offset: 65522},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2038, col: 5, offset: 65527},
+							pos: position{line: 2038, col: 5, offset: 65522},
 							expr: &actionExpr{
-								pos: position{line: 2905, col: 10, offset: 91835},
+								pos: position{line: 2905, col: 10, offset: 91830},
 								run: (*parser).callonSingleQuoteItalicTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2905, col: 10, offset: 91835},
+									pos:        position{line: 2905, col: 10, offset: 91830},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -42895,18 +42895,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2039, col: 5, offset: 65566},
+							pos:   position{line: 2039, col: 5, offset: 65561},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2039, col: 14, offset: 65575},
+								pos: position{line: 2039, col: 14, offset: 65570},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2039, col: 15, offset: 65576},
+									pos:  position{line: 2039, col: 15, offset: 65571},
 									name: "SingleQuoteItalicTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2040, col: 5, offset: 65611},
+							pos: position{line: 2040, col: 5, offset: 65606},
 							run: (*parser).callonSingleQuoteItalicTextElements9,
 						},
 					},
@@ -42915,49 +42915,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteItalicTextElement",
-			pos:  position{line: 2046, col: 1, offset: 65752},
+			pos:  position{line: 2046, col: 1, offset: 65747},
 			expr: &actionExpr{
-				pos: position{line: 2047, col: 5, offset: 65789},
+				pos: position{line: 2047, col: 5, offset: 65784},
 				run: (*parser).callonSingleQuoteItalicTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2047, col: 5, offset: 65789},
+					pos: position{line: 2047, col: 5, offset: 65784},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2922, col: 11, offset: 92169},
+							pos: position{line: 2922, col: 11, offset: 92164},
 							expr: &anyMatcher{
-								line: 2922, col: 13, offset: 92171,
+								line: 2922, col: 13, offset: 92166,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2048, col: 5, offset: 65800},
+							pos: position{line: 2048, col: 5, offset: 65795},
 							expr: &seqExpr{
-								pos: position{line: 2022, col: 5, offset: 65042},
+								pos: position{line: 2022, col: 5, offset: 65037},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2022, col: 5, offset: 65042},
+										pos:        position{line: 2022, col: 5, offset: 65037},
 										val:        "_",
 										ignoreCase: false,
 										want:       "\"_\"",
 									},
 									&notExpr{
-										pos: position{line: 2023, col: 5, offset: 65051},
+										pos: position{line: 2023, col: 5, offset: 65046},
 										expr: &litMatcher{
-											pos:        position{line: 2023, col: 6, offset: 65052},
+											pos:        position{line: 2023, col: 6, offset: 65047},
 											val:        "_",
 											ignoreCase: false,
 											want:       "\"_\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2024, col: 5, offset: 65117},
+										pos: position{line: 2024, col: 5, offset: 65112},
 										run: (*parser).callonSingleQuoteItalicTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2028, col: 5, offset: 65228},
+										pos: position{line: 2028, col: 5, offset: 65223},
 										expr: &notExpr{
-											pos: position{line: 2028, col: 7, offset: 65230},
+											pos: position{line: 2028, col: 7, offset: 65225},
 											expr: &charClassMatcher{
-												pos:        position{line: 2795, col: 13, offset: 88930},
+												pos:        position{line: 2795, col: 13, offset: 88925},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -42969,10 +42969,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2049, col: 5, offset: 65839},
+							pos:   position{line: 2049, col: 5, offset: 65834},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2049, col: 14, offset: 65848},
+								pos:  position{line: 2049, col: 14, offset: 65843},
 								name: "QuotedTextElement",
 							},
 						},
@@ -42982,35 +42982,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedItalicText",
-			pos:  position{line: 2054, col: 1, offset: 65936},
+			pos:  position{line: 2054, col: 1, offset: 65931},
 			expr: &choiceExpr{
-				pos: position{line: 2056, col: 5, offset: 66001},
+				pos: position{line: 2056, col: 5, offset: 65996},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2056, col: 5, offset: 66001},
+						pos: position{line: 2056, col: 5, offset: 65996},
 						run: (*parser).callonEscapedItalicText2,
 						expr: &seqExpr{
-							pos: position{line: 2056, col: 5, offset: 66001},
+							pos: position{line: 2056, col: 5, offset: 65996},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2056, col: 5, offset: 66001},
+									pos:   position{line: 2056, col: 5, offset: 65996},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1872, col: 25, offset: 60416},
+										pos: position{line: 1872, col: 25, offset: 60411},
 										run: (*parser).callonEscapedItalicText5,
 										expr: &seqExpr{
-											pos: position{line: 1872, col: 25, offset: 60416},
+											pos: position{line: 1872, col: 25, offset: 60411},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1872, col: 25, offset: 60416},
+													pos:        position{line: 1872, col: 25, offset: 60411},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1872, col: 30, offset: 60421},
+													pos: position{line: 1872, col: 30, offset: 60416},
 													expr: &litMatcher{
-														pos:        position{line: 1872, col: 30, offset: 60421},
+														pos:        position{line: 1872, col: 30, offset: 60416},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43021,21 +43021,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2056, col: 40, offset: 66036},
+									pos:        position{line: 2056, col: 40, offset: 66031},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2056, col: 45, offset: 66041},
+									pos:   position{line: 2056, col: 45, offset: 66036},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2056, col: 55, offset: 66051},
+										pos:  position{line: 2056, col: 55, offset: 66046},
 										name: "DoubleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2056, col: 86, offset: 66082},
+									pos:        position{line: 2056, col: 86, offset: 66077},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
@@ -43044,21 +43044,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2060, col: 7, offset: 66247},
+						pos: position{line: 2060, col: 7, offset: 66242},
 						run: (*parser).callonEscapedItalicText14,
 						expr: &seqExpr{
-							pos: position{line: 2060, col: 7, offset: 66247},
+							pos: position{line: 2060, col: 7, offset: 66242},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2060, col: 7, offset: 66247},
+									pos:   position{line: 2060, col: 7, offset: 66242},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1868, col: 25, offset: 60343},
+										pos: position{line: 1868, col: 25, offset: 60338},
 										run: (*parser).callonEscapedItalicText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1868, col: 25, offset: 60343},
+											pos: position{line: 1868, col: 25, offset: 60338},
 											expr: &litMatcher{
-												pos:        position{line: 1868, col: 25, offset: 60343},
+												pos:        position{line: 1868, col: 25, offset: 60338},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43067,21 +43067,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2060, col: 42, offset: 66282},
+									pos:        position{line: 2060, col: 42, offset: 66277},
 									val:        "__",
 									ignoreCase: false,
 									want:       "\"__\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2060, col: 47, offset: 66287},
+									pos:   position{line: 2060, col: 47, offset: 66282},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2060, col: 57, offset: 66297},
+										pos:  position{line: 2060, col: 57, offset: 66292},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2060, col: 88, offset: 66328},
+									pos:        position{line: 2060, col: 88, offset: 66323},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43090,21 +43090,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2065, col: 7, offset: 66569},
+						pos: position{line: 2065, col: 7, offset: 66564},
 						run: (*parser).callonEscapedItalicText24,
 						expr: &seqExpr{
-							pos: position{line: 2065, col: 7, offset: 66569},
+							pos: position{line: 2065, col: 7, offset: 66564},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2065, col: 7, offset: 66569},
+									pos:   position{line: 2065, col: 7, offset: 66564},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1868, col: 25, offset: 60343},
+										pos: position{line: 1868, col: 25, offset: 60338},
 										run: (*parser).callonEscapedItalicText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1868, col: 25, offset: 60343},
+											pos: position{line: 1868, col: 25, offset: 60338},
 											expr: &litMatcher{
-												pos:        position{line: 1868, col: 25, offset: 60343},
+												pos:        position{line: 1868, col: 25, offset: 60338},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43113,21 +43113,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2065, col: 42, offset: 66604},
+									pos:        position{line: 2065, col: 42, offset: 66599},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2065, col: 46, offset: 66608},
+									pos:   position{line: 2065, col: 46, offset: 66603},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2065, col: 56, offset: 66618},
+										pos:  position{line: 2065, col: 56, offset: 66613},
 										name: "SingleQuoteItalicTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2065, col: 87, offset: 66649},
+									pos:        position{line: 2065, col: 87, offset: 66644},
 									val:        "_",
 									ignoreCase: false,
 									want:       "\"_\"",
@@ -43140,29 +43140,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceText",
-			pos:  position{line: 2082, col: 1, offset: 67213},
+			pos:  position{line: 2082, col: 1, offset: 67208},
 			expr: &actionExpr{
-				pos: position{line: 2083, col: 5, offset: 67246},
+				pos: position{line: 2083, col: 5, offset: 67241},
 				run: (*parser).callonDoubleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2083, col: 5, offset: 67246},
+					pos: position{line: 2083, col: 5, offset: 67241},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2078, col: 43, offset: 67161},
+							pos:        position{line: 2078, col: 43, offset: 67156},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2084, col: 5, offset: 67290},
+							pos:   position{line: 2084, col: 5, offset: 67285},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2084, col: 15, offset: 67300},
+								pos:  position{line: 2084, col: 15, offset: 67295},
 								name: "DoubleQuoteMonospaceTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2080, col: 41, offset: 67207},
+							pos:        position{line: 2080, col: 41, offset: 67202},
 							val:        "``",
 							ignoreCase: false,
 							want:       "\"``\"",
@@ -43173,44 +43173,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElements",
-			pos:  position{line: 2089, col: 1, offset: 67475},
+			pos:  position{line: 2089, col: 1, offset: 67470},
 			expr: &oneOrMoreExpr{
-				pos: position{line: 2089, col: 37, offset: 67511},
+				pos: position{line: 2089, col: 37, offset: 67506},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2089, col: 37, offset: 67511},
+					pos:  position{line: 2089, col: 37, offset: 67506},
 					name: "DoubleQuoteMonospaceTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMonospaceTextElement",
-			pos:  position{line: 2091, col: 1, offset: 67578},
+			pos:  position{line: 2091, col: 1, offset: 67573},
 			expr: &actionExpr{
-				pos: position{line: 2092, col: 5, offset: 67618},
+				pos: position{line: 2092, col: 5, offset: 67613},
 				run: (*parser).callonDoubleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2092, col: 5, offset: 67618},
+					pos: position{line: 2092, col: 5, offset: 67613},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2922, col: 11, offset: 92169},
+							pos: position{line: 2922, col: 11, offset: 92164},
 							expr: &anyMatcher{
-								line: 2922, col: 13, offset: 92171,
+								line: 2922, col: 13, offset: 92166,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2093, col: 5, offset: 67629},
+							pos: position{line: 2093, col: 5, offset: 67624},
 							expr: &litMatcher{
-								pos:        position{line: 2080, col: 41, offset: 67207},
+								pos:        position{line: 2080, col: 41, offset: 67202},
 								val:        "``",
 								ignoreCase: false,
 								want:       "\"``\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2094, col: 5, offset: 67671},
+							pos:   position{line: 2094, col: 5, offset: 67666},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2094, col: 14, offset: 67680},
+								pos:  position{line: 2094, col: 14, offset: 67675},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43220,33 +43220,33 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextEndDelimiter",
-			pos:  position{line: 2112, col: 1, offset: 68222},
+			pos:  position{line: 2112, col: 1, offset: 68217},
 			expr: &seqExpr{
-				pos: position{line: 2113, col: 5, offset: 68267},
+				pos: position{line: 2113, col: 5, offset: 68262},
 				exprs: []interface{}{
 					&notExpr{
-						pos: position{line: 2113, col: 5, offset: 68267},
+						pos: position{line: 2113, col: 5, offset: 68262},
 						expr: &ruleRefExpr{
-							pos:  position{line: 2113, col: 6, offset: 68268},
+							pos:  position{line: 2113, col: 6, offset: 68263},
 							name: "QuotationMark",
 						},
 					},
 					&litMatcher{
-						pos:        position{line: 2114, col: 5, offset: 68287},
+						pos:        position{line: 2114, col: 5, offset: 68282},
 						val:        "`",
 						ignoreCase: false,
 						want:       "\"`\"",
 					},
 					&andCodeExpr{
-						pos: position{line: 2115, col: 5, offset: 68295},
+						pos: position{line: 2115, col: 5, offset: 68290},
 						run: (*parser).callonSingleQuoteMonospaceTextEndDelimiter5,
 					},
 					&andExpr{
-						pos: position{line: 2119, col: 5, offset: 68409},
+						pos: position{line: 2119, col: 5, offset: 68404},
 						expr: &notExpr{
-							pos: position{line: 2119, col: 7, offset: 68411},
+							pos: position{line: 2119, col: 7, offset: 68406},
 							expr: &charClassMatcher{
-								pos:        position{line: 2795, col: 13, offset: 88930},
+								pos:        position{line: 2795, col: 13, offset: 88925},
 								val:        "[\\pL\\pN]",
 								classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 								ignoreCase: false,
@@ -43259,29 +43259,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceText",
-			pos:  position{line: 2122, col: 1, offset: 68428},
+			pos:  position{line: 2122, col: 1, offset: 68423},
 			expr: &actionExpr{
-				pos: position{line: 2123, col: 5, offset: 68461},
+				pos: position{line: 2123, col: 5, offset: 68456},
 				run: (*parser).callonSingleQuoteMonospaceText1,
 				expr: &seqExpr{
-					pos: position{line: 2123, col: 5, offset: 68461},
+					pos: position{line: 2123, col: 5, offset: 68456},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2105, col: 5, offset: 68024},
+							pos:        position{line: 2105, col: 5, offset: 68019},
 							val:        "`",
 							ignoreCase: false,
 							want:       "\"`\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2106, col: 5, offset: 68033},
+							pos: position{line: 2106, col: 5, offset: 68028},
 							run: (*parser).callonSingleQuoteMonospaceText4,
 						},
 						&andExpr{
-							pos: position{line: 2110, col: 5, offset: 68156},
+							pos: position{line: 2110, col: 5, offset: 68151},
 							expr: &notExpr{
-								pos: position{line: 2110, col: 7, offset: 68158},
+								pos: position{line: 2110, col: 7, offset: 68153},
 								expr: &litMatcher{
-									pos:        position{line: 2110, col: 8, offset: 68159},
+									pos:        position{line: 2110, col: 8, offset: 68154},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43289,15 +43289,15 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2124, col: 5, offset: 68505},
+							pos:   position{line: 2124, col: 5, offset: 68500},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2124, col: 15, offset: 68515},
+								pos:  position{line: 2124, col: 15, offset: 68510},
 								name: "SingleQuoteMonospaceTextElements",
 							},
 						},
 						&ruleRefExpr{
-							pos:  position{line: 2125, col: 5, offset: 68554},
+							pos:  position{line: 2125, col: 5, offset: 68549},
 							name: "SingleQuoteMonospaceTextEndDelimiter",
 						},
 					},
@@ -43306,20 +43306,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElements",
-			pos:  position{line: 2129, col: 1, offset: 68691},
+			pos:  position{line: 2129, col: 1, offset: 68686},
 			expr: &actionExpr{
-				pos: position{line: 2130, col: 5, offset: 68732},
+				pos: position{line: 2130, col: 5, offset: 68727},
 				run: (*parser).callonSingleQuoteMonospaceTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2130, col: 5, offset: 68732},
+					pos: position{line: 2130, col: 5, offset: 68727},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2130, col: 5, offset: 68732},
+							pos: position{line: 2130, col: 5, offset: 68727},
 							expr: &actionExpr{
-								pos: position{line: 2905, col: 10, offset: 91835},
+								pos: position{line: 2905, col: 10, offset: 91830},
 								run: (*parser).callonSingleQuoteMonospaceTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2905, col: 10, offset: 91835},
+									pos:        position{line: 2905, col: 10, offset: 91830},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43328,18 +43328,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2131, col: 5, offset: 68771},
+							pos:   position{line: 2131, col: 5, offset: 68766},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2131, col: 14, offset: 68780},
+								pos: position{line: 2131, col: 14, offset: 68775},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2131, col: 15, offset: 68781},
+									pos:  position{line: 2131, col: 15, offset: 68776},
 									name: "SingleQuoteMonospaceTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2132, col: 5, offset: 68819},
+							pos: position{line: 2132, col: 5, offset: 68814},
 							run: (*parser).callonSingleQuoteMonospaceTextElements9,
 						},
 					},
@@ -43348,31 +43348,31 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMonospaceTextElement",
-			pos:  position{line: 2138, col: 1, offset: 68960},
+			pos:  position{line: 2138, col: 1, offset: 68955},
 			expr: &actionExpr{
-				pos: position{line: 2139, col: 5, offset: 69000},
+				pos: position{line: 2139, col: 5, offset: 68995},
 				run: (*parser).callonSingleQuoteMonospaceTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2139, col: 5, offset: 69000},
+					pos: position{line: 2139, col: 5, offset: 68995},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2922, col: 11, offset: 92169},
+							pos: position{line: 2922, col: 11, offset: 92164},
 							expr: &anyMatcher{
-								line: 2922, col: 13, offset: 92171,
+								line: 2922, col: 13, offset: 92166,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2140, col: 5, offset: 69011},
+							pos: position{line: 2140, col: 5, offset: 69006},
 							expr: &ruleRefExpr{
-								pos:  position{line: 2140, col: 6, offset: 69012},
+								pos:  position{line: 2140, col: 6, offset: 69007},
 								name: "SingleQuoteMonospaceTextEndDelimiter",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2141, col: 5, offset: 69053},
+							pos:   position{line: 2141, col: 5, offset: 69048},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2141, col: 14, offset: 69062},
+								pos:  position{line: 2141, col: 14, offset: 69057},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43382,35 +43382,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMonospaceText",
-			pos:  position{line: 2146, col: 1, offset: 69150},
+			pos:  position{line: 2146, col: 1, offset: 69145},
 			expr: &choiceExpr{
-				pos: position{line: 2148, col: 5, offset: 69221},
+				pos: position{line: 2148, col: 5, offset: 69216},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2148, col: 5, offset: 69221},
+						pos: position{line: 2148, col: 5, offset: 69216},
 						run: (*parser).callonEscapedMonospaceText2,
 						expr: &seqExpr{
-							pos: position{line: 2148, col: 5, offset: 69221},
+							pos: position{line: 2148, col: 5, offset: 69216},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2148, col: 5, offset: 69221},
+									pos:   position{line: 2148, col: 5, offset: 69216},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1872, col: 25, offset: 60416},
+										pos: position{line: 1872, col: 25, offset: 60411},
 										run: (*parser).callonEscapedMonospaceText5,
 										expr: &seqExpr{
-											pos: position{line: 1872, col: 25, offset: 60416},
+											pos: position{line: 1872, col: 25, offset: 60411},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1872, col: 25, offset: 60416},
+													pos:        position{line: 1872, col: 25, offset: 60411},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1872, col: 30, offset: 60421},
+													pos: position{line: 1872, col: 30, offset: 60416},
 													expr: &litMatcher{
-														pos:        position{line: 1872, col: 30, offset: 60421},
+														pos:        position{line: 1872, col: 30, offset: 60416},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43421,21 +43421,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2148, col: 40, offset: 69256},
+									pos:        position{line: 2148, col: 40, offset: 69251},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2148, col: 45, offset: 69261},
+									pos:   position{line: 2148, col: 45, offset: 69256},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2148, col: 55, offset: 69271},
+										pos:  position{line: 2148, col: 55, offset: 69266},
 										name: "DoubleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2148, col: 89, offset: 69305},
+									pos:        position{line: 2148, col: 89, offset: 69300},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
@@ -43444,21 +43444,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2152, col: 7, offset: 69474},
+						pos: position{line: 2152, col: 7, offset: 69469},
 						run: (*parser).callonEscapedMonospaceText14,
 						expr: &seqExpr{
-							pos: position{line: 2152, col: 7, offset: 69474},
+							pos: position{line: 2152, col: 7, offset: 69469},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2152, col: 7, offset: 69474},
+									pos:   position{line: 2152, col: 7, offset: 69469},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1868, col: 25, offset: 60343},
+										pos: position{line: 1868, col: 25, offset: 60338},
 										run: (*parser).callonEscapedMonospaceText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1868, col: 25, offset: 60343},
+											pos: position{line: 1868, col: 25, offset: 60338},
 											expr: &litMatcher{
-												pos:        position{line: 1868, col: 25, offset: 60343},
+												pos:        position{line: 1868, col: 25, offset: 60338},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43467,21 +43467,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2152, col: 42, offset: 69509},
+									pos:        position{line: 2152, col: 42, offset: 69504},
 									val:        "``",
 									ignoreCase: false,
 									want:       "\"``\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2152, col: 47, offset: 69514},
+									pos:   position{line: 2152, col: 47, offset: 69509},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2152, col: 57, offset: 69524},
+										pos:  position{line: 2152, col: 57, offset: 69519},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2152, col: 91, offset: 69558},
+									pos:        position{line: 2152, col: 91, offset: 69553},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43490,21 +43490,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2157, col: 7, offset: 69764},
+						pos: position{line: 2157, col: 7, offset: 69759},
 						run: (*parser).callonEscapedMonospaceText24,
 						expr: &seqExpr{
-							pos: position{line: 2157, col: 7, offset: 69764},
+							pos: position{line: 2157, col: 7, offset: 69759},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2157, col: 7, offset: 69764},
+									pos:   position{line: 2157, col: 7, offset: 69759},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1868, col: 25, offset: 60343},
+										pos: position{line: 1868, col: 25, offset: 60338},
 										run: (*parser).callonEscapedMonospaceText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1868, col: 25, offset: 60343},
+											pos: position{line: 1868, col: 25, offset: 60338},
 											expr: &litMatcher{
-												pos:        position{line: 1868, col: 25, offset: 60343},
+												pos:        position{line: 1868, col: 25, offset: 60338},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43513,21 +43513,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2157, col: 42, offset: 69799},
+									pos:        position{line: 2157, col: 42, offset: 69794},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2157, col: 46, offset: 69803},
+									pos:   position{line: 2157, col: 46, offset: 69798},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2157, col: 56, offset: 69813},
+										pos:  position{line: 2157, col: 56, offset: 69808},
 										name: "SingleQuoteMonospaceTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2157, col: 90, offset: 69847},
+									pos:        position{line: 2157, col: 90, offset: 69842},
 									val:        "`",
 									ignoreCase: false,
 									want:       "\"`\"",
@@ -43540,29 +43540,29 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedText",
-			pos:  position{line: 2174, col: 1, offset: 70332},
+			pos:  position{line: 2174, col: 1, offset: 70327},
 			expr: &actionExpr{
-				pos: position{line: 2175, col: 5, offset: 70362},
+				pos: position{line: 2175, col: 5, offset: 70357},
 				run: (*parser).callonDoubleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2175, col: 5, offset: 70362},
+					pos: position{line: 2175, col: 5, offset: 70357},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2170, col: 40, offset: 70283},
+							pos:        position{line: 2170, col: 40, offset: 70278},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2176, col: 5, offset: 70403},
+							pos:   position{line: 2176, col: 5, offset: 70398},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2176, col: 15, offset: 70413},
+								pos:  position{line: 2176, col: 15, offset: 70408},
 								name: "DoubleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2172, col: 38, offset: 70326},
+							pos:        position{line: 2172, col: 38, offset: 70321},
 							val:        "##",
 							ignoreCase: false,
 							want:       "\"##\"",
@@ -43573,44 +43573,44 @@ var g = &grammar{
 		},
 		{
 			name: "DoubleQuoteMarkedTextElements",
-			pos:  position{line: 2181, col: 1, offset: 70579},
+			pos:  position{line: 2181, col: 1, offset: 70574},
 			expr: &zeroOrMoreExpr{
-				pos: position{line: 2181, col: 34, offset: 70612},
+				pos: position{line: 2181, col: 34, offset: 70607},
 				expr: &ruleRefExpr{
-					pos:  position{line: 2181, col: 34, offset: 70612},
+					pos:  position{line: 2181, col: 34, offset: 70607},
 					name: "DoubleQuoteMarkedTextElement",
 				},
 			},
 		},
 		{
 			name: "DoubleQuoteMarkedTextElement",
-			pos:  position{line: 2183, col: 1, offset: 70643},
+			pos:  position{line: 2183, col: 1, offset: 70638},
 			expr: &actionExpr{
-				pos: position{line: 2184, col: 5, offset: 70712},
+				pos: position{line: 2184, col: 5, offset: 70707},
 				run: (*parser).callonDoubleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2184, col: 5, offset: 70712},
+					pos: position{line: 2184, col: 5, offset: 70707},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2922, col: 11, offset: 92169},
+							pos: position{line: 2922, col: 11, offset: 92164},
 							expr: &anyMatcher{
-								line: 2922, col: 13, offset: 92171,
+								line: 2922, col: 13, offset: 92166,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2185, col: 5, offset: 70723},
+							pos: position{line: 2185, col: 5, offset: 70718},
 							expr: &litMatcher{
-								pos:        position{line: 2172, col: 38, offset: 70326},
+								pos:        position{line: 2172, col: 38, offset: 70321},
 								val:        "##",
 								ignoreCase: false,
 								want:       "\"##\"",
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2186, col: 5, offset: 70762},
+							pos:   position{line: 2186, col: 5, offset: 70757},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2186, col: 14, offset: 70771},
+								pos:  position{line: 2186, col: 14, offset: 70766},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43620,29 +43620,29 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedText",
-			pos:  position{line: 2211, col: 1, offset: 71453},
+			pos:  position{line: 2211, col: 1, offset: 71448},
 			expr: &actionExpr{
-				pos: position{line: 2212, col: 5, offset: 71483},
+				pos: position{line: 2212, col: 5, offset: 71478},
 				run: (*parser).callonSingleQuoteMarkedText1,
 				expr: &seqExpr{
-					pos: position{line: 2212, col: 5, offset: 71483},
+					pos: position{line: 2212, col: 5, offset: 71478},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2195, col: 5, offset: 71019},
+							pos:        position{line: 2195, col: 5, offset: 71014},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&andCodeExpr{
-							pos: position{line: 2196, col: 5, offset: 71028},
+							pos: position{line: 2196, col: 5, offset: 71023},
 							run: (*parser).callonSingleQuoteMarkedText4,
 						},
 						&andExpr{
-							pos: position{line: 2200, col: 5, offset: 71148},
+							pos: position{line: 2200, col: 5, offset: 71143},
 							expr: &notExpr{
-								pos: position{line: 2200, col: 7, offset: 71150},
+								pos: position{line: 2200, col: 7, offset: 71145},
 								expr: &litMatcher{
-									pos:        position{line: 2200, col: 8, offset: 71151},
+									pos:        position{line: 2200, col: 8, offset: 71146},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43650,38 +43650,38 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2213, col: 5, offset: 71523},
+							pos:   position{line: 2213, col: 5, offset: 71518},
 							label: "elements",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2213, col: 15, offset: 71533},
+								pos:  position{line: 2213, col: 15, offset: 71528},
 								name: "SingleQuoteMarkedTextElements",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2203, col: 5, offset: 71256},
+							pos:        position{line: 2203, col: 5, offset: 71251},
 							val:        "#",
 							ignoreCase: false,
 							want:       "\"#\"",
 						},
 						&notExpr{
-							pos: position{line: 2204, col: 5, offset: 71264},
+							pos: position{line: 2204, col: 5, offset: 71259},
 							expr: &litMatcher{
-								pos:        position{line: 2204, col: 6, offset: 71265},
+								pos:        position{line: 2204, col: 6, offset: 71260},
 								val:        "#",
 								ignoreCase: false,
 								want:       "\"#\"",
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2205, col: 5, offset: 71328},
+							pos: position{line: 2205, col: 5, offset: 71323},
 							run: (*parser).callonSingleQuoteMarkedText13,
 						},
 						&andExpr{
-							pos: position{line: 2209, col: 5, offset: 71439},
+							pos: position{line: 2209, col: 5, offset: 71434},
 							expr: &notExpr{
-								pos: position{line: 2209, col: 7, offset: 71441},
+								pos: position{line: 2209, col: 7, offset: 71436},
 								expr: &charClassMatcher{
-									pos:        position{line: 2795, col: 13, offset: 88930},
+									pos:        position{line: 2795, col: 13, offset: 88925},
 									val:        "[\\pL\\pN]",
 									classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 									ignoreCase: false,
@@ -43695,20 +43695,20 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElements",
-			pos:  position{line: 2218, col: 1, offset: 71700},
+			pos:  position{line: 2218, col: 1, offset: 71695},
 			expr: &actionExpr{
-				pos: position{line: 2219, col: 5, offset: 71738},
+				pos: position{line: 2219, col: 5, offset: 71733},
 				run: (*parser).callonSingleQuoteMarkedTextElements1,
 				expr: &seqExpr{
-					pos: position{line: 2219, col: 5, offset: 71738},
+					pos: position{line: 2219, col: 5, offset: 71733},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2219, col: 5, offset: 71738},
+							pos: position{line: 2219, col: 5, offset: 71733},
 							expr: &actionExpr{
-								pos: position{line: 2905, col: 10, offset: 91835},
+								pos: position{line: 2905, col: 10, offset: 91830},
 								run: (*parser).callonSingleQuoteMarkedTextElements4,
 								expr: &charClassMatcher{
-									pos:        position{line: 2905, col: 10, offset: 91835},
+									pos:        position{line: 2905, col: 10, offset: 91830},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -43717,18 +43717,18 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2220, col: 5, offset: 71777},
+							pos:   position{line: 2220, col: 5, offset: 71772},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2220, col: 14, offset: 71786},
+								pos: position{line: 2220, col: 14, offset: 71781},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2220, col: 15, offset: 71787},
+									pos:  position{line: 2220, col: 15, offset: 71782},
 									name: "SingleQuoteMarkedTextElement",
 								},
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2221, col: 5, offset: 71823},
+							pos: position{line: 2221, col: 5, offset: 71818},
 							run: (*parser).callonSingleQuoteMarkedTextElements9,
 						},
 					},
@@ -43737,49 +43737,49 @@ var g = &grammar{
 		},
 		{
 			name: "SingleQuoteMarkedTextElement",
-			pos:  position{line: 2227, col: 1, offset: 71964},
+			pos:  position{line: 2227, col: 1, offset: 71959},
 			expr: &actionExpr{
-				pos: position{line: 2228, col: 5, offset: 72001},
+				pos: position{line: 2228, col: 5, offset: 71996},
 				run: (*parser).callonSingleQuoteMarkedTextElement1,
 				expr: &seqExpr{
-					pos: position{line: 2228, col: 5, offset: 72001},
+					pos: position{line: 2228, col: 5, offset: 71996},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2922, col: 11, offset: 92169},
+							pos: position{line: 2922, col: 11, offset: 92164},
 							expr: &anyMatcher{
-								line: 2922, col: 13, offset: 92171,
+								line: 2922, col: 13, offset: 92166,
 							},
 						},
 						&notExpr{
-							pos: position{line: 2229, col: 5, offset: 72012},
+							pos: position{line: 2229, col: 5, offset: 72007},
 							expr: &seqExpr{
-								pos: position{line: 2203, col: 5, offset: 71256},
+								pos: position{line: 2203, col: 5, offset: 71251},
 								exprs: []interface{}{
 									&litMatcher{
-										pos:        position{line: 2203, col: 5, offset: 71256},
+										pos:        position{line: 2203, col: 5, offset: 71251},
 										val:        "#",
 										ignoreCase: false,
 										want:       "\"#\"",
 									},
 									&notExpr{
-										pos: position{line: 2204, col: 5, offset: 71264},
+										pos: position{line: 2204, col: 5, offset: 71259},
 										expr: &litMatcher{
-											pos:        position{line: 2204, col: 6, offset: 71265},
+											pos:        position{line: 2204, col: 6, offset: 71260},
 											val:        "#",
 											ignoreCase: false,
 											want:       "\"#\"",
 										},
 									},
 									&andCodeExpr{
-										pos: position{line: 2205, col: 5, offset: 71328},
+										pos: position{line: 2205, col: 5, offset: 71323},
 										run: (*parser).callonSingleQuoteMarkedTextElement10,
 									},
 									&andExpr{
-										pos: position{line: 2209, col: 5, offset: 71439},
+										pos: position{line: 2209, col: 5, offset: 71434},
 										expr: &notExpr{
-											pos: position{line: 2209, col: 7, offset: 71441},
+											pos: position{line: 2209, col: 7, offset: 71436},
 											expr: &charClassMatcher{
-												pos:        position{line: 2795, col: 13, offset: 88930},
+												pos:        position{line: 2795, col: 13, offset: 88925},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
@@ -43791,10 +43791,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2230, col: 5, offset: 72051},
+							pos:   position{line: 2230, col: 5, offset: 72046},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2230, col: 14, offset: 72060},
+								pos:  position{line: 2230, col: 14, offset: 72055},
 								name: "QuotedTextElement",
 							},
 						},
@@ -43804,35 +43804,35 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedMarkedText",
-			pos:  position{line: 2235, col: 1, offset: 72148},
+			pos:  position{line: 2235, col: 1, offset: 72143},
 			expr: &choiceExpr{
-				pos: position{line: 2237, col: 5, offset: 72212},
+				pos: position{line: 2237, col: 5, offset: 72207},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2237, col: 5, offset: 72212},
+						pos: position{line: 2237, col: 5, offset: 72207},
 						run: (*parser).callonEscapedMarkedText2,
 						expr: &seqExpr{
-							pos: position{line: 2237, col: 5, offset: 72212},
+							pos: position{line: 2237, col: 5, offset: 72207},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2237, col: 5, offset: 72212},
+									pos:   position{line: 2237, col: 5, offset: 72207},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1872, col: 25, offset: 60416},
+										pos: position{line: 1872, col: 25, offset: 60411},
 										run: (*parser).callonEscapedMarkedText5,
 										expr: &seqExpr{
-											pos: position{line: 1872, col: 25, offset: 60416},
+											pos: position{line: 1872, col: 25, offset: 60411},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1872, col: 25, offset: 60416},
+													pos:        position{line: 1872, col: 25, offset: 60411},
 													val:        "\\\\",
 													ignoreCase: false,
 													want:       "\"\\\\\\\\\"",
 												},
 												&zeroOrMoreExpr{
-													pos: position{line: 1872, col: 30, offset: 60421},
+													pos: position{line: 1872, col: 30, offset: 60416},
 													expr: &litMatcher{
-														pos:        position{line: 1872, col: 30, offset: 60421},
+														pos:        position{line: 1872, col: 30, offset: 60416},
 														val:        "\\",
 														ignoreCase: false,
 														want:       "\"\\\\\"",
@@ -43843,21 +43843,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2237, col: 40, offset: 72247},
+									pos:        position{line: 2237, col: 40, offset: 72242},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2237, col: 45, offset: 72252},
+									pos:   position{line: 2237, col: 45, offset: 72247},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2237, col: 55, offset: 72262},
+										pos:  position{line: 2237, col: 55, offset: 72257},
 										name: "DoubleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2237, col: 86, offset: 72293},
+									pos:        position{line: 2237, col: 86, offset: 72288},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
@@ -43866,21 +43866,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2241, col: 7, offset: 72458},
+						pos: position{line: 2241, col: 7, offset: 72453},
 						run: (*parser).callonEscapedMarkedText14,
 						expr: &seqExpr{
-							pos: position{line: 2241, col: 7, offset: 72458},
+							pos: position{line: 2241, col: 7, offset: 72453},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2241, col: 7, offset: 72458},
+									pos:   position{line: 2241, col: 7, offset: 72453},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1868, col: 25, offset: 60343},
+										pos: position{line: 1868, col: 25, offset: 60338},
 										run: (*parser).callonEscapedMarkedText17,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1868, col: 25, offset: 60343},
+											pos: position{line: 1868, col: 25, offset: 60338},
 											expr: &litMatcher{
-												pos:        position{line: 1868, col: 25, offset: 60343},
+												pos:        position{line: 1868, col: 25, offset: 60338},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43889,21 +43889,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2241, col: 42, offset: 72493},
+									pos:        position{line: 2241, col: 42, offset: 72488},
 									val:        "##",
 									ignoreCase: false,
 									want:       "\"##\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2241, col: 47, offset: 72498},
+									pos:   position{line: 2241, col: 47, offset: 72493},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2241, col: 57, offset: 72508},
+										pos:  position{line: 2241, col: 57, offset: 72503},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2241, col: 88, offset: 72539},
+									pos:        position{line: 2241, col: 88, offset: 72534},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43912,21 +43912,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2246, col: 7, offset: 72742},
+						pos: position{line: 2246, col: 7, offset: 72737},
 						run: (*parser).callonEscapedMarkedText24,
 						expr: &seqExpr{
-							pos: position{line: 2246, col: 7, offset: 72742},
+							pos: position{line: 2246, col: 7, offset: 72737},
 							exprs: []interface{}{
 								&labeledExpr{
-									pos:   position{line: 2246, col: 7, offset: 72742},
+									pos:   position{line: 2246, col: 7, offset: 72737},
 									label: "backslashes",
 									expr: &actionExpr{
-										pos: position{line: 1868, col: 25, offset: 60343},
+										pos: position{line: 1868, col: 25, offset: 60338},
 										run: (*parser).callonEscapedMarkedText27,
 										expr: &oneOrMoreExpr{
-											pos: position{line: 1868, col: 25, offset: 60343},
+											pos: position{line: 1868, col: 25, offset: 60338},
 											expr: &litMatcher{
-												pos:        position{line: 1868, col: 25, offset: 60343},
+												pos:        position{line: 1868, col: 25, offset: 60338},
 												val:        "\\",
 												ignoreCase: false,
 												want:       "\"\\\\\"",
@@ -43935,21 +43935,21 @@ var g = &grammar{
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2246, col: 42, offset: 72777},
+									pos:        position{line: 2246, col: 42, offset: 72772},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
 								},
 								&labeledExpr{
-									pos:   position{line: 2246, col: 46, offset: 72781},
+									pos:   position{line: 2246, col: 46, offset: 72776},
 									label: "elements",
 									expr: &ruleRefExpr{
-										pos:  position{line: 2246, col: 56, offset: 72791},
+										pos:  position{line: 2246, col: 56, offset: 72786},
 										name: "SingleQuoteMarkedTextElements",
 									},
 								},
 								&litMatcher{
-									pos:        position{line: 2246, col: 87, offset: 72822},
+									pos:        position{line: 2246, col: 87, offset: 72817},
 									val:        "#",
 									ignoreCase: false,
 									want:       "\"#\"",
@@ -43962,29 +43962,29 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptText",
-			pos:  position{line: 2253, col: 1, offset: 73089},
+			pos:  position{line: 2253, col: 1, offset: 73084},
 			expr: &actionExpr{
-				pos: position{line: 2254, col: 5, offset: 73111},
+				pos: position{line: 2254, col: 5, offset: 73106},
 				run: (*parser).callonSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2254, col: 5, offset: 73111},
+					pos: position{line: 2254, col: 5, offset: 73106},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2260, col: 27, offset: 73326},
+							pos:        position{line: 2260, col: 27, offset: 73321},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2255, col: 5, offset: 73138},
+							pos:   position{line: 2255, col: 5, offset: 73133},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2255, col: 14, offset: 73147},
+								pos:  position{line: 2255, col: 14, offset: 73142},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 27, offset: 73326},
+							pos:        position{line: 2260, col: 27, offset: 73321},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -43995,21 +43995,21 @@ var g = &grammar{
 		},
 		{
 			name: "SubscriptTextElement",
-			pos:  position{line: 2262, col: 1, offset: 73331},
+			pos:  position{line: 2262, col: 1, offset: 73326},
 			expr: &choiceExpr{
-				pos: position{line: 2262, col: 25, offset: 73355},
+				pos: position{line: 2262, col: 25, offset: 73350},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2262, col: 25, offset: 73355},
+						pos:  position{line: 2262, col: 25, offset: 73350},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2264, col: 21, offset: 73407},
+						pos: position{line: 2264, col: 21, offset: 73402},
 						run: (*parser).callonSubscriptTextElement3,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2264, col: 21, offset: 73407},
+							pos: position{line: 2264, col: 21, offset: 73402},
 							expr: &charClassMatcher{
-								pos:        position{line: 2264, col: 21, offset: 73407},
+								pos:        position{line: 2264, col: 21, offset: 73402},
 								val:        "[^\\r\\n ~]",
 								chars:      []rune{'\r', '\n', ' ', '~'},
 								ignoreCase: false,
@@ -44022,23 +44022,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSubscriptText",
-			pos:  position{line: 2268, col: 1, offset: 73492},
+			pos:  position{line: 2268, col: 1, offset: 73487},
 			expr: &actionExpr{
-				pos: position{line: 2270, col: 5, offset: 73559},
+				pos: position{line: 2270, col: 5, offset: 73554},
 				run: (*parser).callonEscapedSubscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2270, col: 5, offset: 73559},
+					pos: position{line: 2270, col: 5, offset: 73554},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2270, col: 5, offset: 73559},
+							pos:   position{line: 2270, col: 5, offset: 73554},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1868, col: 25, offset: 60343},
+								pos: position{line: 1868, col: 25, offset: 60338},
 								run: (*parser).callonEscapedSubscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1868, col: 25, offset: 60343},
+									pos: position{line: 1868, col: 25, offset: 60338},
 									expr: &litMatcher{
-										pos:        position{line: 1868, col: 25, offset: 60343},
+										pos:        position{line: 1868, col: 25, offset: 60338},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -44047,21 +44047,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 27, offset: 73326},
+							pos:        position{line: 2260, col: 27, offset: 73321},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2272, col: 5, offset: 73627},
+							pos:   position{line: 2272, col: 5, offset: 73622},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2272, col: 14, offset: 73636},
+								pos:  position{line: 2272, col: 14, offset: 73631},
 								name: "SubscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2260, col: 27, offset: 73326},
+							pos:        position{line: 2260, col: 27, offset: 73321},
 							val:        "~",
 							ignoreCase: false,
 							want:       "\"~\"",
@@ -44072,29 +44072,29 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptText",
-			pos:  position{line: 2280, col: 1, offset: 73899},
+			pos:  position{line: 2280, col: 1, offset: 73894},
 			expr: &actionExpr{
-				pos: position{line: 2281, col: 5, offset: 73923},
+				pos: position{line: 2281, col: 5, offset: 73918},
 				run: (*parser).callonSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2281, col: 5, offset: 73923},
+					pos: position{line: 2281, col: 5, offset: 73918},
 					exprs: []interface{}{
 						&litMatcher{
-							pos:        position{line: 2287, col: 29, offset: 74150},
+							pos:        position{line: 2287, col: 29, offset: 74145},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2282, col: 5, offset: 73953},
+							pos:   position{line: 2282, col: 5, offset: 73948},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2282, col: 14, offset: 73962},
+								pos:  position{line: 2282, col: 14, offset: 73957},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2287, col: 29, offset: 74150},
+							pos:        position{line: 2287, col: 29, offset: 74145},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -44105,21 +44105,21 @@ var g = &grammar{
 		},
 		{
 			name: "SuperscriptTextElement",
-			pos:  position{line: 2289, col: 1, offset: 74155},
+			pos:  position{line: 2289, col: 1, offset: 74150},
 			expr: &choiceExpr{
-				pos: position{line: 2289, col: 27, offset: 74181},
+				pos: position{line: 2289, col: 27, offset: 74176},
 				alternatives: []interface{}{
 					&ruleRefExpr{
-						pos:  position{line: 2289, col: 27, offset: 74181},
+						pos:  position{line: 2289, col: 27, offset: 74176},
 						name: "QuotedText",
 					},
 					&actionExpr{
-						pos: position{line: 2291, col: 23, offset: 74237},
+						pos: position{line: 2291, col: 23, offset: 74232},
 						run: (*parser).callonSuperscriptTextElement3,
 						expr: &oneOrMoreExpr{
-							pos: position{line: 2291, col: 23, offset: 74237},
+							pos: position{line: 2291, col: 23, offset: 74232},
 							expr: &charClassMatcher{
-								pos:        position{line: 2291, col: 23, offset: 74237},
+								pos:        position{line: 2291, col: 23, offset: 74232},
 								val:        "[^\\r\\n ^]",
 								chars:      []rune{'\r', '\n', ' ', '^'},
 								ignoreCase: false,
@@ -44132,23 +44132,23 @@ var g = &grammar{
 		},
 		{
 			name: "EscapedSuperscriptText",
-			pos:  position{line: 2295, col: 1, offset: 74322},
+			pos:  position{line: 2295, col: 1, offset: 74317},
 			expr: &actionExpr{
-				pos: position{line: 2297, col: 5, offset: 74394},
+				pos: position{line: 2297, col: 5, offset: 74389},
 				run: (*parser).callonEscapedSuperscriptText1,
 				expr: &seqExpr{
-					pos: position{line: 2297, col: 5, offset: 74394},
+					pos: position{line: 2297, col: 5, offset: 74389},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2297, col: 5, offset: 74394},
+							pos:   position{line: 2297, col: 5, offset: 74389},
 							label: "backslashes",
 							expr: &actionExpr{
-								pos: position{line: 1868, col: 25, offset: 60343},
+								pos: position{line: 1868, col: 25, offset: 60338},
 								run: (*parser).callonEscapedSuperscriptText4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 1868, col: 25, offset: 60343},
+									pos: position{line: 1868, col: 25, offset: 60338},
 									expr: &litMatcher{
-										pos:        position{line: 1868, col: 25, offset: 60343},
+										pos:        position{line: 1868, col: 25, offset: 60338},
 										val:        "\\",
 										ignoreCase: false,
 										want:       "\"\\\\\"",
@@ -44157,21 +44157,21 @@ var g = &grammar{
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2287, col: 29, offset: 74150},
+							pos:        position{line: 2287, col: 29, offset: 74145},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2299, col: 5, offset: 74464},
+							pos:   position{line: 2299, col: 5, offset: 74459},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2299, col: 14, offset: 74473},
+								pos:  position{line: 2299, col: 14, offset: 74468},
 								name: "SuperscriptTextElement",
 							},
 						},
 						&litMatcher{
-							pos:        position{line: 2287, col: 29, offset: 74150},
+							pos:        position{line: 2287, col: 29, offset: 74145},
 							val:        "^",
 							ignoreCase: false,
 							want:       "\"^\"",
@@ -44182,27 +44182,27 @@ var g = &grammar{
 		},
 		{
 			name: "Section",
-			pos:  position{line: 2308, col: 1, offset: 74942},
+			pos:  position{line: 2308, col: 1, offset: 74937},
 			expr: &actionExpr{
-				pos: position{line: 2309, col: 5, offset: 74958},
+				pos: position{line: 2309, col: 5, offset: 74953},
 				run: (*parser).callonSection1,
 				expr: &seqExpr{
-					pos: position{line: 2309, col: 5, offset: 74958},
+					pos: position{line: 2309, col: 5, offset: 74953},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2309, col: 5, offset: 74958},
+							pos: position{line: 2309, col: 5, offset: 74953},
 							run: (*parser).callonSection3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2312, col: 5, offset: 75021},
+							pos:   position{line: 2312, col: 5, offset: 75016},
 							label: "level",
 							expr: &actionExpr{
-								pos: position{line: 2312, col: 12, offset: 75028},
+								pos: position{line: 2312, col: 12, offset: 75023},
 								run: (*parser).callonSection5,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2312, col: 12, offset: 75028},
+									pos: position{line: 2312, col: 12, offset: 75023},
 									expr: &litMatcher{
-										pos:        position{line: 2312, col: 13, offset: 75029},
+										pos:        position{line: 2312, col: 13, offset: 75024},
 										val:        "=",
 										ignoreCase: false,
 										want:       "\"=\"",
@@ -44211,16 +44211,16 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2316, col: 5, offset: 75137},
+							pos: position{line: 2316, col: 5, offset: 75132},
 							run: (*parser).callonSection8,
 						},
 						&actionExpr{
-							pos: position{line: 2909, col: 11, offset: 91896},
+							pos: position{line: 2909, col: 11, offset: 91891},
 							run: (*parser).callonSection9,
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2909, col: 11, offset: 91896},
+								pos: position{line: 2909, col: 11, offset: 91891},
 								expr: &charClassMatcher{
-									pos:        position{line: 2909, col: 11, offset: 91896},
+									pos:        position{line: 2909, col: 11, offset: 91891},
 									val:        "[\\t ]",
 									chars:      []rune{'\t', ' '},
 									ignoreCase: false,
@@ -44229,36 +44229,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2320, col: 12, offset: 75296},
+							pos:   position{line: 2320, col: 12, offset: 75291},
 							label: "title",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2320, col: 19, offset: 75303},
+								pos:  position{line: 2320, col: 19, offset: 75298},
 								name: "SectionTitle",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2927, col: 8, offset: 92233},
+							pos: position{line: 2927, col: 8, offset: 92228},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2914, col: 12, offset: 92006},
+									pos: position{line: 2914, col: 12, offset: 92001},
 									run: (*parser).callonSection15,
 									expr: &choiceExpr{
-										pos: position{line: 2914, col: 13, offset: 92007},
+										pos: position{line: 2914, col: 13, offset: 92002},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2914, col: 13, offset: 92007},
+												pos:        position{line: 2914, col: 13, offset: 92002},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2914, col: 20, offset: 92014},
+												pos:        position{line: 2914, col: 20, offset: 92009},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2914, col: 29, offset: 92023},
+												pos:        position{line: 2914, col: 29, offset: 92018},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -44267,9 +44267,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2924, col: 8, offset: 92183},
+									pos: position{line: 2924, col: 8, offset: 92178},
 									expr: &anyMatcher{
-										line: 2924, col: 9, offset: 92184,
+										line: 2924, col: 9, offset: 92179,
 									},
 								},
 							},
@@ -44280,24 +44280,24 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitle",
-			pos:  position{line: 2324, col: 1, offset: 75399},
+			pos:  position{line: 2324, col: 1, offset: 75394},
 			expr: &actionExpr{
-				pos: position{line: 2325, col: 5, offset: 75420},
+				pos: position{line: 2325, col: 5, offset: 75415},
 				run: (*parser).callonSectionTitle1,
 				expr: &seqExpr{
-					pos: position{line: 2325, col: 5, offset: 75420},
+					pos: position{line: 2325, col: 5, offset: 75415},
 					exprs: []interface{}{
 						&stateCodeExpr{
-							pos: position{line: 2325, col: 5, offset: 75420},
+							pos: position{line: 2325, col: 5, offset: 75415},
 							run: (*parser).callonSectionTitle3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2330, col: 5, offset: 75535},
+							pos:   position{line: 2330, col: 5, offset: 75530},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2330, col: 14, offset: 75544},
+								pos: position{line: 2330, col: 14, offset: 75539},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2330, col: 15, offset: 75545},
+									pos:  position{line: 2330, col: 15, offset: 75540},
 									name: "SectionTitleElement",
 								},
 							},
@@ -44308,38 +44308,38 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleElement",
-			pos:  position{line: 2334, col: 1, offset: 75626},
+			pos:  position{line: 2334, col: 1, offset: 75621},
 			expr: &actionExpr{
-				pos: position{line: 2335, col: 5, offset: 75653},
+				pos: position{line: 2335, col: 5, offset: 75648},
 				run: (*parser).callonSectionTitleElement1,
 				expr: &seqExpr{
-					pos: position{line: 2335, col: 5, offset: 75653},
+					pos: position{line: 2335, col: 5, offset: 75648},
 					exprs: []interface{}{
 						&notExpr{
-							pos: position{line: 2335, col: 5, offset: 75653},
+							pos: position{line: 2335, col: 5, offset: 75648},
 							expr: &choiceExpr{
-								pos: position{line: 2927, col: 8, offset: 92233},
+								pos: position{line: 2927, col: 8, offset: 92228},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2914, col: 12, offset: 92006},
+										pos: position{line: 2914, col: 12, offset: 92001},
 										run: (*parser).callonSectionTitleElement5,
 										expr: &choiceExpr{
-											pos: position{line: 2914, col: 13, offset: 92007},
+											pos: position{line: 2914, col: 13, offset: 92002},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2914, col: 13, offset: 92007},
+													pos:        position{line: 2914, col: 13, offset: 92002},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2914, col: 20, offset: 92014},
+													pos:        position{line: 2914, col: 20, offset: 92009},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2914, col: 29, offset: 92023},
+													pos:        position{line: 2914, col: 29, offset: 92018},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -44348,46 +44348,46 @@ var g = &grammar{
 										},
 									},
 									&notExpr{
-										pos: position{line: 2924, col: 8, offset: 92183},
+										pos: position{line: 2924, col: 8, offset: 92178},
 										expr: &anyMatcher{
-											line: 2924, col: 9, offset: 92184,
+											line: 2924, col: 9, offset: 92179,
 										},
 									},
 								},
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2336, col: 5, offset: 75662},
+							pos:   position{line: 2336, col: 5, offset: 75657},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2337, col: 9, offset: 75680},
+								pos: position{line: 2337, col: 9, offset: 75675},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2337, col: 10, offset: 75681},
+										pos: position{line: 2337, col: 10, offset: 75676},
 										run: (*parser).callonSectionTitleElement14,
 										expr: &seqExpr{
-											pos: position{line: 2337, col: 10, offset: 75681},
+											pos: position{line: 2337, col: 10, offset: 75676},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2337, col: 10, offset: 75681},
+													pos:   position{line: 2337, col: 10, offset: 75676},
 													label: "element",
 													expr: &ruleRefExpr{
-														pos:  position{line: 2337, col: 19, offset: 75690},
+														pos:  position{line: 2337, col: 19, offset: 75685},
 														name: "SectionTitleInlineElement",
 													},
 												},
 												&andCodeExpr{
-													pos: position{line: 2337, col: 46, offset: 75717},
+													pos: position{line: 2337, col: 46, offset: 75712},
 													run: (*parser).callonSectionTitleElement18,
 												},
 											},
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2844, col: 12, offset: 90143},
+										pos: position{line: 2844, col: 12, offset: 90138},
 										run: (*parser).callonSectionTitleElement19,
 										expr: &charClassMatcher{
-											pos:        position{line: 2844, col: 12, offset: 90143},
+											pos:        position{line: 2844, col: 12, offset: 90138},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -44403,32 +44403,32 @@ var g = &grammar{
 		},
 		{
 			name: "SectionTitleInlineElement",
-			pos:  position{line: 2345, col: 1, offset: 75894},
+			pos:  position{line: 2345, col: 1, offset: 75889},
 			expr: &actionExpr{
-				pos: position{line: 2346, col: 5, offset: 75927},
+				pos: position{line: 2346, col: 5, offset: 75922},
 				run: (*parser).callonSectionTitleInlineElement1,
 				expr: &labeledExpr{
-					pos:   position{line: 2346, col: 5, offset: 75927},
+					pos:   position{line: 2346, col: 5, offset: 75922},
 					label: "element",
 					expr: &choiceExpr{
-						pos: position{line: 2347, col: 9, offset: 75945},
+						pos: position{line: 2347, col: 9, offset: 75940},
 						alternatives: []interface{}{
 							&actionExpr{
-								pos: position{line: 2804, col: 5, offset: 89077},
+								pos: position{line: 2804, col: 5, offset: 89072},
 								run: (*parser).callonSectionTitleInlineElement4,
 								expr: &seqExpr{
-									pos: position{line: 2804, col: 5, offset: 89077},
+									pos: position{line: 2804, col: 5, offset: 89072},
 									exprs: []interface{}{
 										&labeledExpr{
-											pos:   position{line: 2804, col: 5, offset: 89077},
+											pos:   position{line: 2804, col: 5, offset: 89072},
 											label: "text",
 											expr: &actionExpr{
-												pos: position{line: 2804, col: 11, offset: 89083},
+												pos: position{line: 2804, col: 11, offset: 89078},
 												run: (*parser).callonSectionTitleInlineElement7,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2804, col: 11, offset: 89083},
+													pos: position{line: 2804, col: 11, offset: 89078},
 													expr: &charClassMatcher{
-														pos:        position{line: 2804, col: 11, offset: 89083},
+														pos:        position{line: 2804, col: 11, offset: 89078},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -44438,36 +44438,36 @@ var g = &grammar{
 											},
 										},
 										&notExpr{
-											pos: position{line: 2807, col: 5, offset: 89141},
+											pos: position{line: 2807, col: 5, offset: 89136},
 											expr: &seqExpr{
-												pos: position{line: 2808, col: 9, offset: 89152},
+												pos: position{line: 2808, col: 9, offset: 89147},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2808, col: 9, offset: 89152},
+														pos:        position{line: 2808, col: 9, offset: 89147},
 														val:        ":",
 														ignoreCase: false,
 														want:       "\":\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2809, col: 9, offset: 89201},
+														pos: position{line: 2809, col: 9, offset: 89196},
 														run: (*parser).callonSectionTitleInlineElement13,
 													},
 												},
 											},
 										},
 										&notExpr{
-											pos: position{line: 2813, col: 5, offset: 89281},
+											pos: position{line: 2813, col: 5, offset: 89276},
 											expr: &seqExpr{
-												pos: position{line: 2814, col: 9, offset: 89292},
+												pos: position{line: 2814, col: 9, offset: 89287},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2814, col: 9, offset: 89292},
+														pos:        position{line: 2814, col: 9, offset: 89287},
 														val:        "@",
 														ignoreCase: false,
 														want:       "\"@\"",
 													},
 													&charClassMatcher{
-														pos:        position{line: 2814, col: 13, offset: 89296},
+														pos:        position{line: 2814, col: 13, offset: 89291},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -44480,12 +44480,12 @@ var g = &grammar{
 								},
 							},
 							&actionExpr{
-								pos: position{line: 2909, col: 11, offset: 91896},
+								pos: position{line: 2909, col: 11, offset: 91891},
 								run: (*parser).callonSectionTitleInlineElement18,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2909, col: 11, offset: 91896},
+									pos: position{line: 2909, col: 11, offset: 91891},
 									expr: &charClassMatcher{
-										pos:        position{line: 2909, col: 11, offset: 91896},
+										pos:        position{line: 2909, col: 11, offset: 91891},
 										val:        "[\\t ]",
 										chars:      []rune{'\t', ' '},
 										ignoreCase: false,
@@ -44494,25 +44494,25 @@ var g = &grammar{
 								},
 							},
 							&actionExpr{
-								pos: position{line: 2515, col: 5, offset: 81086},
+								pos: position{line: 2515, col: 5, offset: 81081},
 								run: (*parser).callonSectionTitleInlineElement21,
 								expr: &seqExpr{
-									pos: position{line: 2515, col: 5, offset: 81086},
+									pos: position{line: 2515, col: 5, offset: 81081},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2515, col: 5, offset: 81086},
+											pos: position{line: 2515, col: 5, offset: 81081},
 											run: (*parser).callonSectionTitleInlineElement23,
 										},
 										&litMatcher{
-											pos:        position{line: 2518, col: 5, offset: 81157},
+											pos:        position{line: 2518, col: 5, offset: 81152},
 											val:        "\\'",
 											ignoreCase: false,
 											want:       "\"\\\\'\"",
 										},
 										&andExpr{
-											pos: position{line: 2518, col: 10, offset: 81162},
+											pos: position{line: 2518, col: 10, offset: 81157},
 											expr: &charClassMatcher{
-												pos:        position{line: 2518, col: 11, offset: 81163},
+												pos:        position{line: 2518, col: 11, offset: 81158},
 												val:        "[\\pL]",
 												classes:    []*unicode.RangeTable{rangeTable("L")},
 												ignoreCase: false,
@@ -44523,29 +44523,29 @@ var g = &grammar{
 								},
 							},
 							&actionExpr{
-								pos: position{line: 2524, col: 5, offset: 81355},
+								pos: position{line: 2524, col: 5, offset: 81350},
 								run: (*parser).callonSectionTitleInlineElement27,
 								expr: &seqExpr{
-									pos: position{line: 2524, col: 5, offset: 81355},
+									pos: position{line: 2524, col: 5, offset: 81350},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2524, col: 5, offset: 81355},
+											pos: position{line: 2524, col: 5, offset: 81350},
 											run: (*parser).callonSectionTitleInlineElement29,
 										},
 										&andCodeExpr{
-											pos: position{line: 2527, col: 5, offset: 81426},
+											pos: position{line: 2527, col: 5, offset: 81421},
 											run: (*parser).callonSectionTitleInlineElement30,
 										},
 										&litMatcher{
-											pos:        position{line: 2531, col: 5, offset: 81551},
+											pos:        position{line: 2531, col: 5, offset: 81546},
 											val:        "'",
 											ignoreCase: false,
 											want:       "\"'\"",
 										},
 										&andExpr{
-											pos: position{line: 2531, col: 9, offset: 81555},
+											pos: position{line: 2531, col: 9, offset: 81550},
 											expr: &charClassMatcher{
-												pos:        position{line: 2531, col: 10, offset: 81556},
+												pos:        position{line: 2531, col: 10, offset: 81551},
 												val:        "[\\pL]",
 												classes:    []*unicode.RangeTable{rangeTable("L")},
 												ignoreCase: false,
@@ -44556,31 +44556,31 @@ var g = &grammar{
 								},
 							},
 							&ruleRefExpr{
-								pos:  position{line: 2350, col: 11, offset: 76010},
+								pos:  position{line: 2350, col: 11, offset: 76005},
 								name: "Replacement",
 							},
 							&actionExpr{
-								pos: position{line: 2822, col: 5, offset: 89489},
+								pos: position{line: 2822, col: 5, offset: 89484},
 								run: (*parser).callonSectionTitleInlineElement35,
 								expr: &choiceExpr{
-									pos: position{line: 2823, col: 9, offset: 89499},
+									pos: position{line: 2823, col: 9, offset: 89494},
 									alternatives: []interface{}{
 										&charClassMatcher{
-											pos:        position{line: 2823, col: 10, offset: 89500},
+											pos:        position{line: 2823, col: 10, offset: 89495},
 											val:        "[.,;?)!/:\"\\@=-]",
 											chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 											ignoreCase: false,
 											inverted:   false,
 										},
 										&seqExpr{
-											pos: position{line: 2825, col: 13, offset: 89597},
+											pos: position{line: 2825, col: 13, offset: 89592},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2825, col: 13, offset: 89597},
+													pos: position{line: 2825, col: 13, offset: 89592},
 													run: (*parser).callonSectionTitleInlineElement39,
 												},
 												&litMatcher{
-													pos:        position{line: 2828, col: 13, offset: 89697},
+													pos:        position{line: 2828, col: 13, offset: 89692},
 													val:        "[",
 													ignoreCase: false,
 													want:       "\"[\"",
@@ -44588,20 +44588,20 @@ var g = &grammar{
 											},
 										},
 										&litMatcher{
-											pos:        position{line: 2828, col: 19, offset: 89703},
+											pos:        position{line: 2828, col: 19, offset: 89698},
 											val:        "]",
 											ignoreCase: false,
 											want:       "\"]\"",
 										},
 										&seqExpr{
-											pos: position{line: 2831, col: 13, offset: 89741},
+											pos: position{line: 2831, col: 13, offset: 89736},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2831, col: 13, offset: 89741},
+													pos: position{line: 2831, col: 13, offset: 89736},
 													run: (*parser).callonSectionTitleInlineElement43,
 												},
 												&charClassMatcher{
-													pos:        position{line: 2834, col: 14, offset: 89834},
+													pos:        position{line: 2834, col: 14, offset: 89829},
 													val:        "[*_`#]",
 													chars:      []rune{'*', '_', '`', '#'},
 													ignoreCase: false,
@@ -44610,18 +44610,18 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2836, col: 12, offset: 89878},
+											pos: position{line: 2836, col: 12, offset: 89873},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2836, col: 12, offset: 89878},
+													pos:        position{line: 2836, col: 12, offset: 89873},
 													val:        "(",
 													ignoreCase: false,
 													want:       "\"(\"",
 												},
 												&notExpr{
-													pos: position{line: 2836, col: 16, offset: 89882},
+													pos: position{line: 2836, col: 16, offset: 89877},
 													expr: &litMatcher{
-														pos:        position{line: 2836, col: 17, offset: 89883},
+														pos:        position{line: 2836, col: 17, offset: 89878},
 														val:        "(",
 														ignoreCase: false,
 														want:       "\"(\"",
@@ -44633,35 +44633,35 @@ var g = &grammar{
 								},
 							},
 							&ruleRefExpr{
-								pos:  position{line: 2352, col: 11, offset: 76083},
+								pos:  position{line: 2352, col: 11, offset: 76078},
 								name: "Quote",
 							},
 							&ruleRefExpr{
-								pos:  position{line: 2353, col: 11, offset: 76099},
+								pos:  position{line: 2353, col: 11, offset: 76094},
 								name: "InlinePassthrough",
 							},
 							&ruleRefExpr{
-								pos:  position{line: 2354, col: 11, offset: 76127},
+								pos:  position{line: 2354, col: 11, offset: 76122},
 								name: "Link",
 							},
 							&actionExpr{
-								pos: position{line: 2484, col: 5, offset: 79915},
+								pos: position{line: 2484, col: 5, offset: 79910},
 								run: (*parser).callonSectionTitleInlineElement52,
 								expr: &seqExpr{
-									pos: position{line: 2484, col: 5, offset: 79915},
+									pos: position{line: 2484, col: 5, offset: 79910},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2484, col: 5, offset: 79915},
+											pos: position{line: 2484, col: 5, offset: 79910},
 											run: (*parser).callonSectionTitleInlineElement54,
 										},
 										&labeledExpr{
-											pos:   position{line: 2487, col: 5, offset: 79991},
+											pos:   position{line: 2487, col: 5, offset: 79986},
 											label: "element",
 											expr: &actionExpr{
-												pos: position{line: 2488, col: 9, offset: 80009},
+												pos: position{line: 2488, col: 9, offset: 80004},
 												run: (*parser).callonSectionTitleInlineElement56,
 												expr: &charClassMatcher{
-													pos:        position{line: 2488, col: 10, offset: 80010},
+													pos:        position{line: 2488, col: 10, offset: 80005},
 													val:        "[<>&]",
 													chars:      []rune{'<', '>', '&'},
 													ignoreCase: false,
@@ -44673,7 +44673,7 @@ var g = &grammar{
 								},
 							},
 							&ruleRefExpr{
-								pos:  position{line: 2356, col: 11, offset: 76212},
+								pos:  position{line: 2356, col: 11, offset: 76207},
 								name: "InlineIcon",
 							},
 							&actionExpr{
@@ -45062,17 +45062,17 @@ var g = &grammar{
 								},
 							},
 							&actionExpr{
-								pos: position{line: 2367, col: 5, offset: 76625},
+								pos: position{line: 2367, col: 5, offset: 76620},
 								run: (*parser).callonSectionTitleInlineElement136,
 								expr: &seqExpr{
-									pos: position{line: 2367, col: 5, offset: 76625},
+									pos: position{line: 2367, col: 5, offset: 76620},
 									exprs: []interface{}{
 										&andCodeExpr{
-											pos: position{line: 2367, col: 5, offset: 76625},
+											pos: position{line: 2367, col: 5, offset: 76620},
 											run: (*parser).callonSectionTitleInlineElement138,
 										},
 										&labeledExpr{
-											pos:   position{line: 2370, col: 5, offset: 76680},
+											pos:   position{line: 2370, col: 5, offset: 76675},
 											label: "id",
 											expr: &actionExpr{
 												pos: position{line: 411, col: 5, offset: 12580},
@@ -45526,12 +45526,12 @@ var g = &grammar{
 											},
 										},
 										&zeroOrMoreExpr{
-											pos: position{line: 2370, col: 26, offset: 76701},
+											pos: position{line: 2370, col: 26, offset: 76696},
 											expr: &actionExpr{
-												pos: position{line: 2905, col: 10, offset: 91835},
+												pos: position{line: 2905, col: 10, offset: 91830},
 												run: (*parser).callonSectionTitleInlineElement232,
 												expr: &charClassMatcher{
-													pos:        position{line: 2905, col: 10, offset: 91835},
+													pos:        position{line: 2905, col: 10, offset: 91830},
 													val:        "[\\t ]",
 													chars:      []rune{'\t', ' '},
 													ignoreCase: false,
@@ -45540,30 +45540,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2370, col: 33, offset: 76708},
+											pos: position{line: 2370, col: 33, offset: 76703},
 											expr: &choiceExpr{
-												pos: position{line: 2927, col: 8, offset: 92233},
+												pos: position{line: 2927, col: 8, offset: 92228},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2914, col: 12, offset: 92006},
+														pos: position{line: 2914, col: 12, offset: 92001},
 														run: (*parser).callonSectionTitleInlineElement236,
 														expr: &choiceExpr{
-															pos: position{line: 2914, col: 13, offset: 92007},
+															pos: position{line: 2914, col: 13, offset: 92002},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2914, col: 13, offset: 92007},
+																	pos:        position{line: 2914, col: 13, offset: 92002},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2914, col: 20, offset: 92014},
+																	pos:        position{line: 2914, col: 20, offset: 92009},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2914, col: 29, offset: 92023},
+																	pos:        position{line: 2914, col: 29, offset: 92018},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -45572,9 +45572,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2924, col: 8, offset: 92183},
+														pos: position{line: 2924, col: 8, offset: 92178},
 														expr: &anyMatcher{
-															line: 2924, col: 9, offset: 92184,
+															line: 2924, col: 9, offset: 92179,
 														},
 													},
 												},
@@ -45599,12 +45599,12 @@ var g = &grammar{
 											pos:   position{line: 1279, col: 14, offset: 39629},
 											label: "id",
 											expr: &actionExpr{
-												pos: position{line: 2890, col: 7, offset: 91487},
+												pos: position{line: 2890, col: 7, offset: 91482},
 												run: (*parser).callonSectionTitleInlineElement247,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2890, col: 7, offset: 91487},
+													pos: position{line: 2890, col: 7, offset: 91482},
 													expr: &charClassMatcher{
-														pos:        position{line: 2890, col: 7, offset: 91487},
+														pos:        position{line: 2890, col: 7, offset: 91482},
 														val:        "[^[]<>,]",
 														chars:      []rune{'[', ']', '<', '>', ','},
 														ignoreCase: false,
@@ -45638,12 +45638,12 @@ var g = &grammar{
 											pos:   position{line: 1284, col: 10, offset: 39761},
 											label: "id",
 											expr: &actionExpr{
-												pos: position{line: 2890, col: 7, offset: 91487},
+												pos: position{line: 2890, col: 7, offset: 91482},
 												run: (*parser).callonSectionTitleInlineElement255,
 												expr: &oneOrMoreExpr{
-													pos: position{line: 2890, col: 7, offset: 91487},
+													pos: position{line: 2890, col: 7, offset: 91482},
 													expr: &charClassMatcher{
-														pos:        position{line: 2890, col: 7, offset: 91487},
+														pos:        position{line: 2890, col: 7, offset: 91482},
 														val:        "[^[]<>,]",
 														chars:      []rune{'[', ']', '<', '>', ','},
 														ignoreCase: false,
@@ -45662,7 +45662,7 @@ var g = &grammar{
 								},
 							},
 							&ruleRefExpr{
-								pos:  position{line: 2361, col: 11, offset: 76466},
+								pos:  position{line: 2361, col: 11, offset: 76461},
 								name: "InlineFootnote",
 							},
 						},
@@ -45672,52 +45672,52 @@ var g = &grammar{
 		},
 		{
 			name: "NormalGroup",
-			pos:  position{line: 2380, col: 1, offset: 76970},
+			pos:  position{line: 2380, col: 1, offset: 76965},
 			expr: &actionExpr{
-				pos: position{line: 2381, col: 5, offset: 77057},
+				pos: position{line: 2381, col: 5, offset: 77052},
 				run: (*parser).callonNormalGroup1,
 				expr: &seqExpr{
-					pos: position{line: 2381, col: 5, offset: 77057},
+					pos: position{line: 2381, col: 5, offset: 77052},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2381, col: 5, offset: 77057},
+							pos:   position{line: 2381, col: 5, offset: 77052},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2381, col: 14, offset: 77066},
+								pos: position{line: 2381, col: 14, offset: 77061},
 								expr: &actionExpr{
-									pos: position{line: 2383, col: 9, offset: 77092},
+									pos: position{line: 2383, col: 9, offset: 77087},
 									run: (*parser).callonNormalGroup5,
 									expr: &seqExpr{
-										pos: position{line: 2383, col: 9, offset: 77092},
+										pos: position{line: 2383, col: 9, offset: 77087},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2922, col: 11, offset: 92169},
+												pos: position{line: 2922, col: 11, offset: 92164},
 												expr: &anyMatcher{
-													line: 2922, col: 13, offset: 92171,
+													line: 2922, col: 13, offset: 92166,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2384, col: 9, offset: 77107},
+												pos:   position{line: 2384, col: 9, offset: 77102},
 												label: "element",
 												expr: &choiceExpr{
-													pos: position{line: 2385, col: 13, offset: 77129},
+													pos: position{line: 2385, col: 13, offset: 77124},
 													alternatives: []interface{}{
 														&actionExpr{
-															pos: position{line: 2804, col: 5, offset: 89077},
+															pos: position{line: 2804, col: 5, offset: 89072},
 															run: (*parser).callonNormalGroup11,
 															expr: &seqExpr{
-																pos: position{line: 2804, col: 5, offset: 89077},
+																pos: position{line: 2804, col: 5, offset: 89072},
 																exprs: []interface{}{
 																	&labeledExpr{
-																		pos:   position{line: 2804, col: 5, offset: 89077},
+																		pos:   position{line: 2804, col: 5, offset: 89072},
 																		label: "text",
 																		expr: &actionExpr{
-																			pos: position{line: 2804, col: 11, offset: 89083},
+																			pos: position{line: 2804, col: 11, offset: 89078},
 																			run: (*parser).callonNormalGroup14,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 2804, col: 11, offset: 89083},
+																				pos: position{line: 2804, col: 11, offset: 89078},
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2804, col: 11, offset: 89083},
+																					pos:        position{line: 2804, col: 11, offset: 89078},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45727,36 +45727,36 @@ var g = &grammar{
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2807, col: 5, offset: 89141},
+																		pos: position{line: 2807, col: 5, offset: 89136},
 																		expr: &seqExpr{
-																			pos: position{line: 2808, col: 9, offset: 89152},
+																			pos: position{line: 2808, col: 9, offset: 89147},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2808, col: 9, offset: 89152},
+																					pos:        position{line: 2808, col: 9, offset: 89147},
 																					val:        ":",
 																					ignoreCase: false,
 																					want:       "\":\"",
 																				},
 																				&andCodeExpr{
-																					pos: position{line: 2809, col: 9, offset: 89201},
+																					pos: position{line: 2809, col: 9, offset: 89196},
 																					run: (*parser).callonNormalGroup20,
 																				},
 																			},
 																		},
 																	},
 																	&notExpr{
-																		pos: position{line: 2813, col: 5, offset: 89281},
+																		pos: position{line: 2813, col: 5, offset: 89276},
 																		expr: &seqExpr{
-																			pos: position{line: 2814, col: 9, offset: 89292},
+																			pos: position{line: 2814, col: 9, offset: 89287},
 																			exprs: []interface{}{
 																				&litMatcher{
-																					pos:        position{line: 2814, col: 9, offset: 89292},
+																					pos:        position{line: 2814, col: 9, offset: 89287},
 																					val:        "@",
 																					ignoreCase: false,
 																					want:       "\"@\"",
 																				},
 																				&charClassMatcher{
-																					pos:        position{line: 2814, col: 13, offset: 89296},
+																					pos:        position{line: 2814, col: 13, offset: 89291},
 																					val:        "[\\pL\\pN]",
 																					classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																					ignoreCase: false,
@@ -45769,12 +45769,12 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2909, col: 11, offset: 91896},
+															pos: position{line: 2909, col: 11, offset: 91891},
 															run: (*parser).callonNormalGroup25,
 															expr: &oneOrMoreExpr{
-																pos: position{line: 2909, col: 11, offset: 91896},
+																pos: position{line: 2909, col: 11, offset: 91891},
 																expr: &charClassMatcher{
-																	pos:        position{line: 2909, col: 11, offset: 91896},
+																	pos:        position{line: 2909, col: 11, offset: 91891},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -45783,29 +45783,29 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2387, col: 15, offset: 77175},
+															pos:  position{line: 2387, col: 15, offset: 77170},
 															name: "Replacement",
 														},
 														&actionExpr{
-															pos: position{line: 2515, col: 5, offset: 81086},
+															pos: position{line: 2515, col: 5, offset: 81081},
 															run: (*parser).callonNormalGroup29,
 															expr: &seqExpr{
-																pos: position{line: 2515, col: 5, offset: 81086},
+																pos: position{line: 2515, col: 5, offset: 81081},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2515, col: 5, offset: 81086},
+																		pos: position{line: 2515, col: 5, offset: 81081},
 																		run: (*parser).callonNormalGroup31,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2518, col: 5, offset: 81157},
+																		pos:        position{line: 2518, col: 5, offset: 81152},
 																		val:        "\\'",
 																		ignoreCase: false,
 																		want:       "\"\\\\'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2518, col: 10, offset: 81162},
+																		pos: position{line: 2518, col: 10, offset: 81157},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2518, col: 11, offset: 81163},
+																			pos:        position{line: 2518, col: 11, offset: 81158},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45816,29 +45816,29 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2524, col: 5, offset: 81355},
+															pos: position{line: 2524, col: 5, offset: 81350},
 															run: (*parser).callonNormalGroup35,
 															expr: &seqExpr{
-																pos: position{line: 2524, col: 5, offset: 81355},
+																pos: position{line: 2524, col: 5, offset: 81350},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2524, col: 5, offset: 81355},
+																		pos: position{line: 2524, col: 5, offset: 81350},
 																		run: (*parser).callonNormalGroup37,
 																	},
 																	&andCodeExpr{
-																		pos: position{line: 2527, col: 5, offset: 81426},
+																		pos: position{line: 2527, col: 5, offset: 81421},
 																		run: (*parser).callonNormalGroup38,
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2531, col: 5, offset: 81551},
+																		pos:        position{line: 2531, col: 5, offset: 81546},
 																		val:        "'",
 																		ignoreCase: false,
 																		want:       "\"'\"",
 																	},
 																	&andExpr{
-																		pos: position{line: 2531, col: 9, offset: 81555},
+																		pos: position{line: 2531, col: 9, offset: 81550},
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2531, col: 10, offset: 81556},
+																			pos:        position{line: 2531, col: 10, offset: 81551},
 																			val:        "[\\pL]",
 																			classes:    []*unicode.RangeTable{rangeTable("L")},
 																			ignoreCase: false,
@@ -45849,27 +45849,27 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2822, col: 5, offset: 89489},
+															pos: position{line: 2822, col: 5, offset: 89484},
 															run: (*parser).callonNormalGroup42,
 															expr: &choiceExpr{
-																pos: position{line: 2823, col: 9, offset: 89499},
+																pos: position{line: 2823, col: 9, offset: 89494},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2823, col: 10, offset: 89500},
+																		pos:        position{line: 2823, col: 10, offset: 89495},
 																		val:        "[.,;?)!/:\"\\@=-]",
 																		chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&seqExpr{
-																		pos: position{line: 2825, col: 13, offset: 89597},
+																		pos: position{line: 2825, col: 13, offset: 89592},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2825, col: 13, offset: 89597},
+																				pos: position{line: 2825, col: 13, offset: 89592},
 																				run: (*parser).callonNormalGroup46,
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2828, col: 13, offset: 89697},
+																				pos:        position{line: 2828, col: 13, offset: 89692},
 																				val:        "[",
 																				ignoreCase: false,
 																				want:       "\"[\"",
@@ -45877,20 +45877,20 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2828, col: 19, offset: 89703},
+																		pos:        position{line: 2828, col: 19, offset: 89698},
 																		val:        "]",
 																		ignoreCase: false,
 																		want:       "\"]\"",
 																	},
 																	&seqExpr{
-																		pos: position{line: 2831, col: 13, offset: 89741},
+																		pos: position{line: 2831, col: 13, offset: 89736},
 																		exprs: []interface{}{
 																			&andCodeExpr{
-																				pos: position{line: 2831, col: 13, offset: 89741},
+																				pos: position{line: 2831, col: 13, offset: 89736},
 																				run: (*parser).callonNormalGroup50,
 																			},
 																			&charClassMatcher{
-																				pos:        position{line: 2834, col: 14, offset: 89834},
+																				pos:        position{line: 2834, col: 14, offset: 89829},
 																				val:        "[*_`#]",
 																				chars:      []rune{'*', '_', '`', '#'},
 																				ignoreCase: false,
@@ -45899,18 +45899,18 @@ var g = &grammar{
 																		},
 																	},
 																	&seqExpr{
-																		pos: position{line: 2836, col: 12, offset: 89878},
+																		pos: position{line: 2836, col: 12, offset: 89873},
 																		exprs: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2836, col: 12, offset: 89878},
+																				pos:        position{line: 2836, col: 12, offset: 89873},
 																				val:        "(",
 																				ignoreCase: false,
 																				want:       "\"(\"",
 																			},
 																			&notExpr{
-																				pos: position{line: 2836, col: 16, offset: 89882},
+																				pos: position{line: 2836, col: 16, offset: 89877},
 																				expr: &litMatcher{
-																					pos:        position{line: 2836, col: 17, offset: 89883},
+																					pos:        position{line: 2836, col: 17, offset: 89878},
 																					val:        "(",
 																					ignoreCase: false,
 																					want:       "\"(\"",
@@ -45922,25 +45922,25 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2914, col: 12, offset: 92006},
+															pos: position{line: 2914, col: 12, offset: 92001},
 															run: (*parser).callonNormalGroup56,
 															expr: &choiceExpr{
-																pos: position{line: 2914, col: 13, offset: 92007},
+																pos: position{line: 2914, col: 13, offset: 92002},
 																alternatives: []interface{}{
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 13, offset: 92007},
+																		pos:        position{line: 2914, col: 13, offset: 92002},
 																		val:        "\n",
 																		ignoreCase: false,
 																		want:       "\"\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 20, offset: 92014},
+																		pos:        position{line: 2914, col: 20, offset: 92009},
 																		val:        "\r\n",
 																		ignoreCase: false,
 																		want:       "\"\\r\\n\"",
 																	},
 																	&litMatcher{
-																		pos:        position{line: 2914, col: 29, offset: 92023},
+																		pos:        position{line: 2914, col: 29, offset: 92018},
 																		val:        "\r",
 																		ignoreCase: false,
 																		want:       "\"\\r\"",
@@ -46295,35 +46295,35 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2392, col: 15, offset: 77342},
+															pos:  position{line: 2392, col: 15, offset: 77337},
 															name: "Quote",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2393, col: 15, offset: 77362},
+															pos:  position{line: 2393, col: 15, offset: 77357},
 															name: "InlineMacro",
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2394, col: 15, offset: 77451},
+															pos:  position{line: 2394, col: 15, offset: 77446},
 															name: "Callout",
 														},
 														&actionExpr{
-															pos: position{line: 2484, col: 5, offset: 79915},
+															pos: position{line: 2484, col: 5, offset: 79910},
 															run: (*parser).callonNormalGroup133,
 															expr: &seqExpr{
-																pos: position{line: 2484, col: 5, offset: 79915},
+																pos: position{line: 2484, col: 5, offset: 79910},
 																exprs: []interface{}{
 																	&andCodeExpr{
-																		pos: position{line: 2484, col: 5, offset: 79915},
+																		pos: position{line: 2484, col: 5, offset: 79910},
 																		run: (*parser).callonNormalGroup135,
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 2487, col: 5, offset: 79991},
+																		pos:   position{line: 2487, col: 5, offset: 79986},
 																		label: "element",
 																		expr: &actionExpr{
-																			pos: position{line: 2488, col: 9, offset: 80009},
+																			pos: position{line: 2488, col: 9, offset: 80004},
 																			run: (*parser).callonNormalGroup137,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2488, col: 10, offset: 80010},
+																				pos:        position{line: 2488, col: 10, offset: 80005},
 																				val:        "[<>&]",
 																				chars:      []rune{'<', '>', '&'},
 																				ignoreCase: false,
@@ -46357,10 +46357,10 @@ var g = &grammar{
 																	&zeroOrMoreExpr{
 																		pos: position{line: 1240, col: 5, offset: 38477},
 																		expr: &actionExpr{
-																			pos: position{line: 2905, col: 10, offset: 91835},
+																			pos: position{line: 2905, col: 10, offset: 91830},
 																			run: (*parser).callonNormalGroup145,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2905, col: 10, offset: 91835},
+																				pos:        position{line: 2905, col: 10, offset: 91830},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -46371,28 +46371,28 @@ var g = &grammar{
 																	&andExpr{
 																		pos: position{line: 1240, col: 12, offset: 38484},
 																		expr: &choiceExpr{
-																			pos: position{line: 2927, col: 8, offset: 92233},
+																			pos: position{line: 2927, col: 8, offset: 92228},
 																			alternatives: []interface{}{
 																				&actionExpr{
-																					pos: position{line: 2914, col: 12, offset: 92006},
+																					pos: position{line: 2914, col: 12, offset: 92001},
 																					run: (*parser).callonNormalGroup149,
 																					expr: &choiceExpr{
-																						pos: position{line: 2914, col: 13, offset: 92007},
+																						pos: position{line: 2914, col: 13, offset: 92002},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 13, offset: 92007},
+																								pos:        position{line: 2914, col: 13, offset: 92002},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 20, offset: 92014},
+																								pos:        position{line: 2914, col: 20, offset: 92009},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 29, offset: 92023},
+																								pos:        position{line: 2914, col: 29, offset: 92018},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -46401,9 +46401,9 @@ var g = &grammar{
 																					},
 																				},
 																				&notExpr{
-																					pos: position{line: 2924, col: 8, offset: 92183},
+																					pos: position{line: 2924, col: 8, offset: 92178},
 																					expr: &anyMatcher{
-																						line: 2924, col: 9, offset: 92184,
+																						line: 2924, col: 9, offset: 92179,
 																					},
 																				},
 																			},
@@ -46413,7 +46413,7 @@ var g = &grammar{
 															},
 														},
 														&ruleRefExpr{
-															pos:  position{line: 2397, col: 15, offset: 77633},
+															pos:  position{line: 2397, col: 15, offset: 77628},
 															name: "InlinePassthrough",
 														},
 														&actionExpr{
@@ -46456,10 +46456,10 @@ var g = &grammar{
 															},
 														},
 														&actionExpr{
-															pos: position{line: 2844, col: 12, offset: 90143},
+															pos: position{line: 2844, col: 12, offset: 90138},
 															run: (*parser).callonNormalGroup165,
 															expr: &charClassMatcher{
-																pos:        position{line: 2844, col: 12, offset: 90143},
+																pos:        position{line: 2844, col: 12, offset: 90138},
 																val:        "[^\\r\\n]",
 																chars:      []rune{'\r', '\n'},
 																ignoreCase: false,
@@ -46475,9 +46475,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2924, col: 8, offset: 92183},
+							pos: position{line: 2924, col: 8, offset: 92178},
 							expr: &anyMatcher{
-								line: 2924, col: 9, offset: 92184,
+								line: 2924, col: 9, offset: 92179,
 							},
 						},
 					},
@@ -46486,28 +46486,28 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValue",
-			pos:  position{line: 2408, col: 1, offset: 78071},
+			pos:  position{line: 2408, col: 1, offset: 78066},
 			expr: &actionExpr{
-				pos: position{line: 2409, col: 5, offset: 78104},
+				pos: position{line: 2409, col: 5, offset: 78099},
 				run: (*parser).callonAttributeStructuredValue1,
 				expr: &seqExpr{
-					pos: position{line: 2409, col: 5, offset: 78104},
+					pos: position{line: 2409, col: 5, offset: 78099},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2409, col: 5, offset: 78104},
+							pos:   position{line: 2409, col: 5, offset: 78099},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2409, col: 14, offset: 78113},
+								pos: position{line: 2409, col: 14, offset: 78108},
 								expr: &ruleRefExpr{
-									pos:  position{line: 2409, col: 15, offset: 78114},
+									pos:  position{line: 2409, col: 15, offset: 78109},
 									name: "AttributeStructuredValueElement",
 								},
 							},
 						},
 						&notExpr{
-							pos: position{line: 2924, col: 8, offset: 92183},
+							pos: position{line: 2924, col: 8, offset: 92178},
 							expr: &anyMatcher{
-								line: 2924, col: 9, offset: 92184,
+								line: 2924, col: 9, offset: 92179,
 							},
 						},
 					},
@@ -46516,41 +46516,41 @@ var g = &grammar{
 		},
 		{
 			name: "AttributeStructuredValueElement",
-			pos:  position{line: 2413, col: 1, offset: 78211},
+			pos:  position{line: 2413, col: 1, offset: 78206},
 			expr: &actionExpr{
-				pos: position{line: 2414, col: 5, offset: 78251},
+				pos: position{line: 2414, col: 5, offset: 78246},
 				run: (*parser).callonAttributeStructuredValueElement1,
 				expr: &seqExpr{
-					pos: position{line: 2414, col: 5, offset: 78251},
+					pos: position{line: 2414, col: 5, offset: 78246},
 					exprs: []interface{}{
 						&andExpr{
-							pos: position{line: 2922, col: 11, offset: 92169},
+							pos: position{line: 2922, col: 11, offset: 92164},
 							expr: &anyMatcher{
-								line: 2922, col: 13, offset: 92171,
+								line: 2922, col: 13, offset: 92166,
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2415, col: 5, offset: 78262},
+							pos:   position{line: 2415, col: 5, offset: 78257},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2416, col: 9, offset: 78280},
+								pos: position{line: 2416, col: 9, offset: 78275},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 2804, col: 5, offset: 89077},
+										pos: position{line: 2804, col: 5, offset: 89072},
 										run: (*parser).callonAttributeStructuredValueElement7,
 										expr: &seqExpr{
-											pos: position{line: 2804, col: 5, offset: 89077},
+											pos: position{line: 2804, col: 5, offset: 89072},
 											exprs: []interface{}{
 												&labeledExpr{
-													pos:   position{line: 2804, col: 5, offset: 89077},
+													pos:   position{line: 2804, col: 5, offset: 89072},
 													label: "text",
 													expr: &actionExpr{
-														pos: position{line: 2804, col: 11, offset: 89083},
+														pos: position{line: 2804, col: 11, offset: 89078},
 														run: (*parser).callonAttributeStructuredValueElement10,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2804, col: 11, offset: 89083},
+															pos: position{line: 2804, col: 11, offset: 89078},
 															expr: &charClassMatcher{
-																pos:        position{line: 2804, col: 11, offset: 89083},
+																pos:        position{line: 2804, col: 11, offset: 89078},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46560,36 +46560,36 @@ var g = &grammar{
 													},
 												},
 												&notExpr{
-													pos: position{line: 2807, col: 5, offset: 89141},
+													pos: position{line: 2807, col: 5, offset: 89136},
 													expr: &seqExpr{
-														pos: position{line: 2808, col: 9, offset: 89152},
+														pos: position{line: 2808, col: 9, offset: 89147},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2808, col: 9, offset: 89152},
+																pos:        position{line: 2808, col: 9, offset: 89147},
 																val:        ":",
 																ignoreCase: false,
 																want:       "\":\"",
 															},
 															&andCodeExpr{
-																pos: position{line: 2809, col: 9, offset: 89201},
+																pos: position{line: 2809, col: 9, offset: 89196},
 																run: (*parser).callonAttributeStructuredValueElement16,
 															},
 														},
 													},
 												},
 												&notExpr{
-													pos: position{line: 2813, col: 5, offset: 89281},
+													pos: position{line: 2813, col: 5, offset: 89276},
 													expr: &seqExpr{
-														pos: position{line: 2814, col: 9, offset: 89292},
+														pos: position{line: 2814, col: 9, offset: 89287},
 														exprs: []interface{}{
 															&litMatcher{
-																pos:        position{line: 2814, col: 9, offset: 89292},
+																pos:        position{line: 2814, col: 9, offset: 89287},
 																val:        "@",
 																ignoreCase: false,
 																want:       "\"@\"",
 															},
 															&charClassMatcher{
-																pos:        position{line: 2814, col: 13, offset: 89296},
+																pos:        position{line: 2814, col: 13, offset: 89291},
 																val:        "[\\pL\\pN]",
 																classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																ignoreCase: false,
@@ -46602,10 +46602,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2905, col: 10, offset: 91835},
+										pos: position{line: 2905, col: 10, offset: 91830},
 										run: (*parser).callonAttributeStructuredValueElement21,
 										expr: &charClassMatcher{
-											pos:        position{line: 2905, col: 10, offset: 91835},
+											pos:        position{line: 2905, col: 10, offset: 91830},
 											val:        "[\\t ]",
 											chars:      []rune{'\t', ' '},
 											ignoreCase: false,
@@ -46613,31 +46613,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2418, col: 11, offset: 78318},
+										pos:  position{line: 2418, col: 11, offset: 78313},
 										name: "Replacement",
 									},
 									&actionExpr{
-										pos: position{line: 2822, col: 5, offset: 89489},
+										pos: position{line: 2822, col: 5, offset: 89484},
 										run: (*parser).callonAttributeStructuredValueElement24,
 										expr: &choiceExpr{
-											pos: position{line: 2823, col: 9, offset: 89499},
+											pos: position{line: 2823, col: 9, offset: 89494},
 											alternatives: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2823, col: 10, offset: 89500},
+													pos:        position{line: 2823, col: 10, offset: 89495},
 													val:        "[.,;?)!/:\"\\@=-]",
 													chars:      []rune{'.', ',', ';', '?', ')', '!', '/', ':', '"', '\'', '@', '=', '-'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&seqExpr{
-													pos: position{line: 2825, col: 13, offset: 89597},
+													pos: position{line: 2825, col: 13, offset: 89592},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2825, col: 13, offset: 89597},
+															pos: position{line: 2825, col: 13, offset: 89592},
 															run: (*parser).callonAttributeStructuredValueElement28,
 														},
 														&litMatcher{
-															pos:        position{line: 2828, col: 13, offset: 89697},
+															pos:        position{line: 2828, col: 13, offset: 89692},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
@@ -46645,20 +46645,20 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 2828, col: 19, offset: 89703},
+													pos:        position{line: 2828, col: 19, offset: 89698},
 													val:        "]",
 													ignoreCase: false,
 													want:       "\"]\"",
 												},
 												&seqExpr{
-													pos: position{line: 2831, col: 13, offset: 89741},
+													pos: position{line: 2831, col: 13, offset: 89736},
 													exprs: []interface{}{
 														&andCodeExpr{
-															pos: position{line: 2831, col: 13, offset: 89741},
+															pos: position{line: 2831, col: 13, offset: 89736},
 															run: (*parser).callonAttributeStructuredValueElement32,
 														},
 														&charClassMatcher{
-															pos:        position{line: 2834, col: 14, offset: 89834},
+															pos:        position{line: 2834, col: 14, offset: 89829},
 															val:        "[*_`#]",
 															chars:      []rune{'*', '_', '`', '#'},
 															ignoreCase: false,
@@ -46667,18 +46667,18 @@ var g = &grammar{
 													},
 												},
 												&seqExpr{
-													pos: position{line: 2836, col: 12, offset: 89878},
+													pos: position{line: 2836, col: 12, offset: 89873},
 													exprs: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2836, col: 12, offset: 89878},
+															pos:        position{line: 2836, col: 12, offset: 89873},
 															val:        "(",
 															ignoreCase: false,
 															want:       "\"(\"",
 														},
 														&notExpr{
-															pos: position{line: 2836, col: 16, offset: 89882},
+															pos: position{line: 2836, col: 16, offset: 89877},
 															expr: &litMatcher{
-																pos:        position{line: 2836, col: 17, offset: 89883},
+																pos:        position{line: 2836, col: 17, offset: 89878},
 																val:        "(",
 																ignoreCase: false,
 																want:       "\"(\"",
@@ -46690,31 +46690,31 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2420, col: 11, offset: 78391},
+										pos:  position{line: 2420, col: 11, offset: 78386},
 										name: "Quote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2421, col: 11, offset: 78407},
+										pos:  position{line: 2421, col: 11, offset: 78402},
 										name: "InlineMacro",
 									},
 									&actionExpr{
-										pos: position{line: 2484, col: 5, offset: 79915},
+										pos: position{line: 2484, col: 5, offset: 79910},
 										run: (*parser).callonAttributeStructuredValueElement40,
 										expr: &seqExpr{
-											pos: position{line: 2484, col: 5, offset: 79915},
+											pos: position{line: 2484, col: 5, offset: 79910},
 											exprs: []interface{}{
 												&andCodeExpr{
-													pos: position{line: 2484, col: 5, offset: 79915},
+													pos: position{line: 2484, col: 5, offset: 79910},
 													run: (*parser).callonAttributeStructuredValueElement42,
 												},
 												&labeledExpr{
-													pos:   position{line: 2487, col: 5, offset: 79991},
+													pos:   position{line: 2487, col: 5, offset: 79986},
 													label: "element",
 													expr: &actionExpr{
-														pos: position{line: 2488, col: 9, offset: 80009},
+														pos: position{line: 2488, col: 9, offset: 80004},
 														run: (*parser).callonAttributeStructuredValueElement44,
 														expr: &charClassMatcher{
-															pos:        position{line: 2488, col: 10, offset: 80010},
+															pos:        position{line: 2488, col: 10, offset: 80005},
 															val:        "[<>&]",
 															chars:      []rune{'<', '>', '&'},
 															ignoreCase: false,
@@ -46765,25 +46765,25 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2914, col: 12, offset: 92006},
+										pos: position{line: 2914, col: 12, offset: 92001},
 										run: (*parser).callonAttributeStructuredValueElement54,
 										expr: &choiceExpr{
-											pos: position{line: 2914, col: 13, offset: 92007},
+											pos: position{line: 2914, col: 13, offset: 92002},
 											alternatives: []interface{}{
 												&litMatcher{
-													pos:        position{line: 2914, col: 13, offset: 92007},
+													pos:        position{line: 2914, col: 13, offset: 92002},
 													val:        "\n",
 													ignoreCase: false,
 													want:       "\"\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2914, col: 20, offset: 92014},
+													pos:        position{line: 2914, col: 20, offset: 92009},
 													val:        "\r\n",
 													ignoreCase: false,
 													want:       "\"\\r\\n\"",
 												},
 												&litMatcher{
-													pos:        position{line: 2914, col: 29, offset: 92023},
+													pos:        position{line: 2914, col: 29, offset: 92018},
 													val:        "\r",
 													ignoreCase: false,
 													want:       "\"\\r\"",
@@ -46792,10 +46792,10 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 2844, col: 12, offset: 90143},
+										pos: position{line: 2844, col: 12, offset: 90138},
 										run: (*parser).callonAttributeStructuredValueElement59,
 										expr: &charClassMatcher{
-											pos:        position{line: 2844, col: 12, offset: 90143},
+											pos:        position{line: 2844, col: 12, offset: 90138},
 											val:        "[^\\r\\n]",
 											chars:      []rune{'\r', '\n'},
 											ignoreCase: false,
@@ -46811,49 +46811,49 @@ var g = &grammar{
 		},
 		{
 			name: "InlineMacro",
-			pos:  position{line: 2432, col: 1, offset: 78677},
+			pos:  position{line: 2432, col: 1, offset: 78672},
 			expr: &actionExpr{
-				pos: position{line: 2434, col: 5, offset: 78759},
+				pos: position{line: 2434, col: 5, offset: 78754},
 				run: (*parser).callonInlineMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2434, col: 5, offset: 78759},
+					pos: position{line: 2434, col: 5, offset: 78754},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2434, col: 5, offset: 78759},
+							pos: position{line: 2434, col: 5, offset: 78754},
 							run: (*parser).callonInlineMacro3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2437, col: 5, offset: 78824},
+							pos:   position{line: 2437, col: 5, offset: 78819},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2438, col: 9, offset: 78842},
+								pos: position{line: 2438, col: 9, offset: 78837},
 								alternatives: []interface{}{
 									&ruleRefExpr{
-										pos:  position{line: 2438, col: 9, offset: 78842},
+										pos:  position{line: 2438, col: 9, offset: 78837},
 										name: "InlineIcon",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2439, col: 11, offset: 78863},
+										pos:  position{line: 2439, col: 11, offset: 78858},
 										name: "InlineImage",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2440, col: 11, offset: 78886},
+										pos:  position{line: 2440, col: 11, offset: 78881},
 										name: "Link",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2441, col: 11, offset: 78902},
+										pos:  position{line: 2441, col: 11, offset: 78897},
 										name: "InlinePassthrough",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2442, col: 11, offset: 78931},
+										pos:  position{line: 2442, col: 11, offset: 78926},
 										name: "InlineFootnote",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2443, col: 11, offset: 78957},
+										pos:  position{line: 2443, col: 11, offset: 78952},
 										name: "CrossReference",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2444, col: 11, offset: 78983},
+										pos:  position{line: 2444, col: 11, offset: 78978},
 										name: "InlineUserMacro",
 									},
 									&actionExpr{
@@ -46872,12 +46872,12 @@ var g = &grammar{
 													pos:   position{line: 1279, col: 14, offset: 39629},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2890, col: 7, offset: 91487},
+														pos: position{line: 2890, col: 7, offset: 91482},
 														run: (*parser).callonInlineMacro17,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2890, col: 7, offset: 91487},
+															pos: position{line: 2890, col: 7, offset: 91482},
 															expr: &charClassMatcher{
-																pos:        position{line: 2890, col: 7, offset: 91487},
+																pos:        position{line: 2890, col: 7, offset: 91482},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46911,12 +46911,12 @@ var g = &grammar{
 													pos:   position{line: 1284, col: 10, offset: 39761},
 													label: "id",
 													expr: &actionExpr{
-														pos: position{line: 2890, col: 7, offset: 91487},
+														pos: position{line: 2890, col: 7, offset: 91482},
 														run: (*parser).callonInlineMacro25,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 2890, col: 7, offset: 91487},
+															pos: position{line: 2890, col: 7, offset: 91482},
 															expr: &charClassMatcher{
-																pos:        position{line: 2890, col: 7, offset: 91487},
+																pos:        position{line: 2890, col: 7, offset: 91482},
 																val:        "[^[]<>,]",
 																chars:      []rune{'[', ']', '<', '>', ','},
 																ignoreCase: false,
@@ -46935,40 +46935,40 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1323, col: 23, offset: 41245},
+										pos: position{line: 1323, col: 23, offset: 41240},
 										run: (*parser).callonInlineMacro29,
 										expr: &seqExpr{
-											pos: position{line: 1323, col: 23, offset: 41245},
+											pos: position{line: 1323, col: 23, offset: 41240},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1323, col: 23, offset: 41245},
+													pos:        position{line: 1323, col: 23, offset: 41240},
 													val:        "(((",
 													ignoreCase: false,
 													want:       "\"(((\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1323, col: 29, offset: 41251},
+													pos:   position{line: 1323, col: 29, offset: 41246},
 													label: "term1",
 													expr: &actionExpr{
-														pos: position{line: 1330, col: 30, offset: 41582},
+														pos: position{line: 1330, col: 30, offset: 41577},
 														run: (*parser).callonInlineMacro33,
 														expr: &oneOrMoreExpr{
-															pos: position{line: 1330, col: 30, offset: 41582},
+															pos: position{line: 1330, col: 30, offset: 41577},
 															expr: &choiceExpr{
-																pos: position{line: 1330, col: 31, offset: 41583},
+																pos: position{line: 1330, col: 31, offset: 41578},
 																alternatives: []interface{}{
 																	&charClassMatcher{
-																		pos:        position{line: 2795, col: 13, offset: 88930},
+																		pos:        position{line: 2795, col: 13, offset: 88925},
 																		val:        "[\\pL\\pN]",
 																		classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																		ignoreCase: false,
 																		inverted:   false,
 																	},
 																	&actionExpr{
-																		pos: position{line: 2905, col: 10, offset: 91835},
+																		pos: position{line: 2905, col: 10, offset: 91830},
 																		run: (*parser).callonInlineMacro37,
 																		expr: &charClassMatcher{
-																			pos:        position{line: 2905, col: 10, offset: 91835},
+																			pos:        position{line: 2905, col: 10, offset: 91830},
 																			val:        "[\\t ]",
 																			chars:      []rune{'\t', ' '},
 																			ignoreCase: false,
@@ -46981,23 +46981,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1324, col: 5, offset: 41290},
+													pos:   position{line: 1324, col: 5, offset: 41285},
 													label: "term2",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1324, col: 11, offset: 41296},
+														pos: position{line: 1324, col: 11, offset: 41291},
 														expr: &actionExpr{
-															pos: position{line: 1324, col: 12, offset: 41297},
+															pos: position{line: 1324, col: 12, offset: 41292},
 															run: (*parser).callonInlineMacro41,
 															expr: &seqExpr{
-																pos: position{line: 1324, col: 12, offset: 41297},
+																pos: position{line: 1324, col: 12, offset: 41292},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1324, col: 12, offset: 41297},
+																		pos: position{line: 1324, col: 12, offset: 41292},
 																		expr: &actionExpr{
-																			pos: position{line: 2905, col: 10, offset: 91835},
+																			pos: position{line: 2905, col: 10, offset: 91830},
 																			run: (*parser).callonInlineMacro44,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2905, col: 10, offset: 91835},
+																				pos:        position{line: 2905, col: 10, offset: 91830},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47006,18 +47006,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1324, col: 19, offset: 41304},
+																		pos:        position{line: 1324, col: 19, offset: 41299},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1324, col: 23, offset: 41308},
+																		pos: position{line: 1324, col: 23, offset: 41303},
 																		expr: &actionExpr{
-																			pos: position{line: 2905, col: 10, offset: 91835},
+																			pos: position{line: 2905, col: 10, offset: 91830},
 																			run: (*parser).callonInlineMacro48,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2905, col: 10, offset: 91835},
+																				pos:        position{line: 2905, col: 10, offset: 91830},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47026,28 +47026,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1324, col: 30, offset: 41315},
+																		pos:   position{line: 1324, col: 30, offset: 41310},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1330, col: 30, offset: 41582},
+																			pos: position{line: 1330, col: 30, offset: 41577},
 																			run: (*parser).callonInlineMacro51,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1330, col: 30, offset: 41582},
+																				pos: position{line: 1330, col: 30, offset: 41577},
 																				expr: &choiceExpr{
-																					pos: position{line: 1330, col: 31, offset: 41583},
+																					pos: position{line: 1330, col: 31, offset: 41578},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2795, col: 13, offset: 88930},
+																							pos:        position{line: 2795, col: 13, offset: 88925},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2905, col: 10, offset: 91835},
+																							pos: position{line: 2905, col: 10, offset: 91830},
 																							run: (*parser).callonInlineMacro55,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2905, col: 10, offset: 91835},
+																								pos:        position{line: 2905, col: 10, offset: 91830},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47065,23 +47065,23 @@ var g = &grammar{
 													},
 												},
 												&labeledExpr{
-													pos:   position{line: 1325, col: 5, offset: 41382},
+													pos:   position{line: 1325, col: 5, offset: 41377},
 													label: "term3",
 													expr: &zeroOrOneExpr{
-														pos: position{line: 1325, col: 11, offset: 41388},
+														pos: position{line: 1325, col: 11, offset: 41383},
 														expr: &actionExpr{
-															pos: position{line: 1325, col: 12, offset: 41389},
+															pos: position{line: 1325, col: 12, offset: 41384},
 															run: (*parser).callonInlineMacro59,
 															expr: &seqExpr{
-																pos: position{line: 1325, col: 12, offset: 41389},
+																pos: position{line: 1325, col: 12, offset: 41384},
 																exprs: []interface{}{
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1325, col: 12, offset: 41389},
+																		pos: position{line: 1325, col: 12, offset: 41384},
 																		expr: &actionExpr{
-																			pos: position{line: 2905, col: 10, offset: 91835},
+																			pos: position{line: 2905, col: 10, offset: 91830},
 																			run: (*parser).callonInlineMacro62,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2905, col: 10, offset: 91835},
+																				pos:        position{line: 2905, col: 10, offset: 91830},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47090,18 +47090,18 @@ var g = &grammar{
 																		},
 																	},
 																	&litMatcher{
-																		pos:        position{line: 1325, col: 19, offset: 41396},
+																		pos:        position{line: 1325, col: 19, offset: 41391},
 																		val:        ",",
 																		ignoreCase: false,
 																		want:       "\",\"",
 																	},
 																	&zeroOrMoreExpr{
-																		pos: position{line: 1325, col: 23, offset: 41400},
+																		pos: position{line: 1325, col: 23, offset: 41395},
 																		expr: &actionExpr{
-																			pos: position{line: 2905, col: 10, offset: 91835},
+																			pos: position{line: 2905, col: 10, offset: 91830},
 																			run: (*parser).callonInlineMacro66,
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2905, col: 10, offset: 91835},
+																				pos:        position{line: 2905, col: 10, offset: 91830},
 																				val:        "[\\t ]",
 																				chars:      []rune{'\t', ' '},
 																				ignoreCase: false,
@@ -47110,28 +47110,28 @@ var g = &grammar{
 																		},
 																	},
 																	&labeledExpr{
-																		pos:   position{line: 1325, col: 30, offset: 41407},
+																		pos:   position{line: 1325, col: 30, offset: 41402},
 																		label: "content",
 																		expr: &actionExpr{
-																			pos: position{line: 1330, col: 30, offset: 41582},
+																			pos: position{line: 1330, col: 30, offset: 41577},
 																			run: (*parser).callonInlineMacro69,
 																			expr: &oneOrMoreExpr{
-																				pos: position{line: 1330, col: 30, offset: 41582},
+																				pos: position{line: 1330, col: 30, offset: 41577},
 																				expr: &choiceExpr{
-																					pos: position{line: 1330, col: 31, offset: 41583},
+																					pos: position{line: 1330, col: 31, offset: 41578},
 																					alternatives: []interface{}{
 																						&charClassMatcher{
-																							pos:        position{line: 2795, col: 13, offset: 88930},
+																							pos:        position{line: 2795, col: 13, offset: 88925},
 																							val:        "[\\pL\\pN]",
 																							classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																							ignoreCase: false,
 																							inverted:   false,
 																						},
 																						&actionExpr{
-																							pos: position{line: 2905, col: 10, offset: 91835},
+																							pos: position{line: 2905, col: 10, offset: 91830},
 																							run: (*parser).callonInlineMacro73,
 																							expr: &charClassMatcher{
-																								pos:        position{line: 2905, col: 10, offset: 91835},
+																								pos:        position{line: 2905, col: 10, offset: 91830},
 																								val:        "[\\t ]",
 																								chars:      []rune{'\t', ' '},
 																								ignoreCase: false,
@@ -47149,7 +47149,7 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1326, col: 5, offset: 41474},
+													pos:        position{line: 1326, col: 5, offset: 41469},
 													val:        ")))",
 													ignoreCase: false,
 													want:       "\")))\"",
@@ -47158,15 +47158,15 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2447, col: 11, offset: 79062},
+										pos:  position{line: 2447, col: 11, offset: 79057},
 										name: "IndexTerm",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2448, col: 11, offset: 79082},
+										pos:  position{line: 2448, col: 11, offset: 79077},
 										name: "InlineButton",
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2449, col: 11, offset: 79105},
+										pos:  position{line: 2449, col: 11, offset: 79100},
 										name: "InlineMenu",
 									},
 								},
@@ -47178,80 +47178,80 @@ var g = &grammar{
 		},
 		{
 			name: "InlinePassthrough",
-			pos:  position{line: 2453, col: 1, offset: 79162},
+			pos:  position{line: 2453, col: 1, offset: 79157},
 			expr: &actionExpr{
-				pos: position{line: 2455, col: 5, offset: 79250},
+				pos: position{line: 2455, col: 5, offset: 79245},
 				run: (*parser).callonInlinePassthrough1,
 				expr: &seqExpr{
-					pos: position{line: 2455, col: 5, offset: 79250},
+					pos: position{line: 2455, col: 5, offset: 79245},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2455, col: 5, offset: 79250},
+							pos: position{line: 2455, col: 5, offset: 79245},
 							run: (*parser).callonInlinePassthrough3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2458, col: 5, offset: 79327},
+							pos:   position{line: 2458, col: 5, offset: 79322},
 							label: "element",
 							expr: &choiceExpr{
-								pos: position{line: 2459, col: 9, offset: 79345},
+								pos: position{line: 2459, col: 9, offset: 79340},
 								alternatives: []interface{}{
 									&actionExpr{
-										pos: position{line: 1405, col: 26, offset: 44852},
+										pos: position{line: 1405, col: 26, offset: 44847},
 										run: (*parser).callonInlinePassthrough6,
 										expr: &seqExpr{
-											pos: position{line: 1405, col: 26, offset: 44852},
+											pos: position{line: 1405, col: 26, offset: 44847},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1403, col: 32, offset: 44820},
+													pos:        position{line: 1403, col: 32, offset: 44815},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1405, col: 54, offset: 44880},
+													pos:   position{line: 1405, col: 54, offset: 44875},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1409, col: 33, offset: 45093},
+														pos: position{line: 1409, col: 33, offset: 45088},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1409, col: 34, offset: 45094},
+																pos: position{line: 1409, col: 34, offset: 45089},
 																run: (*parser).callonInlinePassthrough11,
 																expr: &zeroOrMoreExpr{
-																	pos: position{line: 1409, col: 34, offset: 45094},
+																	pos: position{line: 1409, col: 34, offset: 45089},
 																	expr: &seqExpr{
-																		pos: position{line: 1409, col: 35, offset: 45095},
+																		pos: position{line: 1409, col: 35, offset: 45090},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1409, col: 35, offset: 45095},
+																				pos: position{line: 1409, col: 35, offset: 45090},
 																				expr: &litMatcher{
-																					pos:        position{line: 1403, col: 32, offset: 44820},
+																					pos:        position{line: 1403, col: 32, offset: 44815},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1409, col: 64, offset: 45124,
+																				line: 1409, col: 64, offset: 45119,
 																			},
 																		},
 																	},
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1411, col: 11, offset: 45297},
+																pos: position{line: 1411, col: 11, offset: 45292},
 																run: (*parser).callonInlinePassthrough17,
 																expr: &zeroOrOneExpr{
-																	pos: position{line: 1411, col: 11, offset: 45297},
+																	pos: position{line: 1411, col: 11, offset: 45292},
 																	expr: &seqExpr{
-																		pos: position{line: 1411, col: 12, offset: 45298},
+																		pos: position{line: 1411, col: 12, offset: 45293},
 																		exprs: []interface{}{
 																			&notExpr{
-																				pos: position{line: 1411, col: 12, offset: 45298},
+																				pos: position{line: 1411, col: 12, offset: 45293},
 																				expr: &actionExpr{
-																					pos: position{line: 2905, col: 10, offset: 91835},
+																					pos: position{line: 2905, col: 10, offset: 91830},
 																					run: (*parser).callonInlinePassthrough21,
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2905, col: 10, offset: 91835},
+																						pos:        position{line: 2905, col: 10, offset: 91830},
 																						val:        "[\\t ]",
 																						chars:      []rune{'\t', ' '},
 																						ignoreCase: false,
@@ -47260,27 +47260,27 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1411, col: 19, offset: 45305},
+																				pos: position{line: 1411, col: 19, offset: 45300},
 																				expr: &actionExpr{
-																					pos: position{line: 2914, col: 12, offset: 92006},
+																					pos: position{line: 2914, col: 12, offset: 92001},
 																					run: (*parser).callonInlinePassthrough24,
 																					expr: &choiceExpr{
-																						pos: position{line: 2914, col: 13, offset: 92007},
+																						pos: position{line: 2914, col: 13, offset: 92002},
 																						alternatives: []interface{}{
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 13, offset: 92007},
+																								pos:        position{line: 2914, col: 13, offset: 92002},
 																								val:        "\n",
 																								ignoreCase: false,
 																								want:       "\"\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 20, offset: 92014},
+																								pos:        position{line: 2914, col: 20, offset: 92009},
 																								val:        "\r\n",
 																								ignoreCase: false,
 																								want:       "\"\\r\\n\"",
 																							},
 																							&litMatcher{
-																								pos:        position{line: 2914, col: 29, offset: 92023},
+																								pos:        position{line: 2914, col: 29, offset: 92018},
 																								val:        "\r",
 																								ignoreCase: false,
 																								want:       "\"\\r\"",
@@ -47290,16 +47290,16 @@ var g = &grammar{
 																				},
 																			},
 																			&notExpr{
-																				pos: position{line: 1411, col: 28, offset: 45314},
+																				pos: position{line: 1411, col: 28, offset: 45309},
 																				expr: &litMatcher{
-																					pos:        position{line: 1403, col: 32, offset: 44820},
+																					pos:        position{line: 1403, col: 32, offset: 44815},
 																					val:        "+++",
 																					ignoreCase: false,
 																					want:       "\"+++\"",
 																				},
 																			},
 																			&anyMatcher{
-																				line: 1411, col: 57, offset: 45343,
+																				line: 1411, col: 57, offset: 45338,
 																			},
 																		},
 																	},
@@ -47309,15 +47309,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1403, col: 32, offset: 44820},
+													pos:        position{line: 1403, col: 32, offset: 44815},
 													val:        "+++",
 													ignoreCase: false,
 													want:       "\"+++\"",
 												},
 												&notExpr{
-													pos: position{line: 1405, col: 121, offset: 44947},
+													pos: position{line: 1405, col: 121, offset: 44942},
 													expr: &charClassMatcher{
-														pos:        position{line: 2795, col: 13, offset: 88930},
+														pos:        position{line: 2795, col: 13, offset: 88925},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47328,45 +47328,45 @@ var g = &grammar{
 										},
 									},
 									&actionExpr{
-										pos: position{line: 1393, col: 26, offset: 44135},
+										pos: position{line: 1393, col: 26, offset: 44130},
 										run: (*parser).callonInlinePassthrough35,
 										expr: &seqExpr{
-											pos: position{line: 1393, col: 26, offset: 44135},
+											pos: position{line: 1393, col: 26, offset: 44130},
 											exprs: []interface{}{
 												&litMatcher{
-													pos:        position{line: 1391, col: 32, offset: 44105},
+													pos:        position{line: 1391, col: 32, offset: 44100},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&labeledExpr{
-													pos:   position{line: 1393, col: 54, offset: 44163},
+													pos:   position{line: 1393, col: 54, offset: 44158},
 													label: "content",
 													expr: &choiceExpr{
-														pos: position{line: 1397, col: 33, offset: 44376},
+														pos: position{line: 1397, col: 33, offset: 44371},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 1397, col: 34, offset: 44377},
+																pos: position{line: 1397, col: 34, offset: 44372},
 																run: (*parser).callonInlinePassthrough40,
 																expr: &seqExpr{
-																	pos: position{line: 1397, col: 34, offset: 44377},
+																	pos: position{line: 1397, col: 34, offset: 44372},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1397, col: 35, offset: 44378},
+																			pos: position{line: 1397, col: 35, offset: 44373},
 																			expr: &litMatcher{
-																				pos:        position{line: 1391, col: 32, offset: 44105},
+																				pos:        position{line: 1391, col: 32, offset: 44100},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1397, col: 64, offset: 44407},
+																			pos: position{line: 1397, col: 64, offset: 44402},
 																			expr: &actionExpr{
-																				pos: position{line: 2905, col: 10, offset: 91835},
+																				pos: position{line: 2905, col: 10, offset: 91830},
 																				run: (*parser).callonInlinePassthrough45,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2905, col: 10, offset: 91835},
+																					pos:        position{line: 2905, col: 10, offset: 91830},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47375,27 +47375,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1397, col: 71, offset: 44414},
+																			pos: position{line: 1397, col: 71, offset: 44409},
 																			expr: &actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92006},
+																				pos: position{line: 2914, col: 12, offset: 92001},
 																				run: (*parser).callonInlinePassthrough48,
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 13, offset: 92007},
+																					pos: position{line: 2914, col: 13, offset: 92002},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 13, offset: 92007},
+																							pos:        position{line: 2914, col: 13, offset: 92002},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 20, offset: 92014},
+																							pos:        position{line: 2914, col: 20, offset: 92009},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 29, offset: 92023},
+																							pos:        position{line: 2914, col: 29, offset: 92018},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47405,25 +47405,25 @@ var g = &grammar{
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1397, col: 80, offset: 44423,
+																			line: 1397, col: 80, offset: 44418,
 																		},
 																		&zeroOrMoreExpr{
-																			pos: position{line: 1397, col: 83, offset: 44426},
+																			pos: position{line: 1397, col: 83, offset: 44421},
 																			expr: &seqExpr{
-																				pos: position{line: 1397, col: 84, offset: 44427},
+																				pos: position{line: 1397, col: 84, offset: 44422},
 																				exprs: []interface{}{
 																					&notExpr{
-																						pos: position{line: 1397, col: 84, offset: 44427},
+																						pos: position{line: 1397, col: 84, offset: 44422},
 																						expr: &seqExpr{
-																							pos: position{line: 1397, col: 86, offset: 44429},
+																							pos: position{line: 1397, col: 86, offset: 44424},
 																							exprs: []interface{}{
 																								&actionExpr{
-																									pos: position{line: 2909, col: 11, offset: 91896},
+																									pos: position{line: 2909, col: 11, offset: 91891},
 																									run: (*parser).callonInlinePassthrough58,
 																									expr: &oneOrMoreExpr{
-																										pos: position{line: 2909, col: 11, offset: 91896},
+																										pos: position{line: 2909, col: 11, offset: 91891},
 																										expr: &charClassMatcher{
-																											pos:        position{line: 2909, col: 11, offset: 91896},
+																											pos:        position{line: 2909, col: 11, offset: 91891},
 																											val:        "[\\t ]",
 																											chars:      []rune{'\t', ' '},
 																											ignoreCase: false,
@@ -47432,7 +47432,7 @@ var g = &grammar{
 																									},
 																								},
 																								&litMatcher{
-																									pos:        position{line: 1391, col: 32, offset: 44105},
+																									pos:        position{line: 1391, col: 32, offset: 44100},
 																									val:        "+",
 																									ignoreCase: false,
 																									want:       "\"+\"",
@@ -47441,36 +47441,36 @@ var g = &grammar{
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1397, col: 122, offset: 44465},
+																						pos: position{line: 1397, col: 122, offset: 44460},
 																						expr: &litMatcher{
-																							pos:        position{line: 1391, col: 32, offset: 44105},
+																							pos:        position{line: 1391, col: 32, offset: 44100},
 																							val:        "+",
 																							ignoreCase: false,
 																							want:       "\"+\"",
 																						},
 																					},
 																					&notExpr{
-																						pos: position{line: 1397, col: 151, offset: 44494},
+																						pos: position{line: 1397, col: 151, offset: 44489},
 																						expr: &actionExpr{
-																							pos: position{line: 2914, col: 12, offset: 92006},
+																							pos: position{line: 2914, col: 12, offset: 92001},
 																							run: (*parser).callonInlinePassthrough65,
 																							expr: &choiceExpr{
-																								pos: position{line: 2914, col: 13, offset: 92007},
+																								pos: position{line: 2914, col: 13, offset: 92002},
 																								alternatives: []interface{}{
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 13, offset: 92007},
+																										pos:        position{line: 2914, col: 13, offset: 92002},
 																										val:        "\n",
 																										ignoreCase: false,
 																										want:       "\"\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 20, offset: 92014},
+																										pos:        position{line: 2914, col: 20, offset: 92009},
 																										val:        "\r\n",
 																										ignoreCase: false,
 																										want:       "\"\\r\\n\"",
 																									},
 																									&litMatcher{
-																										pos:        position{line: 2914, col: 29, offset: 92023},
+																										pos:        position{line: 2914, col: 29, offset: 92018},
 																										val:        "\r",
 																										ignoreCase: false,
 																										want:       "\"\\r\"",
@@ -47480,7 +47480,7 @@ var g = &grammar{
 																						},
 																					},
 																					&anyMatcher{
-																						line: 1397, col: 160, offset: 44503,
+																						line: 1397, col: 160, offset: 44498,
 																					},
 																				},
 																			},
@@ -47489,18 +47489,18 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 1399, col: 11, offset: 44653},
+																pos: position{line: 1399, col: 11, offset: 44648},
 																run: (*parser).callonInlinePassthrough71,
 																expr: &seqExpr{
-																	pos: position{line: 1399, col: 12, offset: 44654},
+																	pos: position{line: 1399, col: 12, offset: 44649},
 																	exprs: []interface{}{
 																		&notExpr{
-																			pos: position{line: 1399, col: 12, offset: 44654},
+																			pos: position{line: 1399, col: 12, offset: 44649},
 																			expr: &actionExpr{
-																				pos: position{line: 2905, col: 10, offset: 91835},
+																				pos: position{line: 2905, col: 10, offset: 91830},
 																				run: (*parser).callonInlinePassthrough74,
 																				expr: &charClassMatcher{
-																					pos:        position{line: 2905, col: 10, offset: 91835},
+																					pos:        position{line: 2905, col: 10, offset: 91830},
 																					val:        "[\\t ]",
 																					chars:      []rune{'\t', ' '},
 																					ignoreCase: false,
@@ -47509,27 +47509,27 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1399, col: 19, offset: 44661},
+																			pos: position{line: 1399, col: 19, offset: 44656},
 																			expr: &actionExpr{
-																				pos: position{line: 2914, col: 12, offset: 92006},
+																				pos: position{line: 2914, col: 12, offset: 92001},
 																				run: (*parser).callonInlinePassthrough77,
 																				expr: &choiceExpr{
-																					pos: position{line: 2914, col: 13, offset: 92007},
+																					pos: position{line: 2914, col: 13, offset: 92002},
 																					alternatives: []interface{}{
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 13, offset: 92007},
+																							pos:        position{line: 2914, col: 13, offset: 92002},
 																							val:        "\n",
 																							ignoreCase: false,
 																							want:       "\"\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 20, offset: 92014},
+																							pos:        position{line: 2914, col: 20, offset: 92009},
 																							val:        "\r\n",
 																							ignoreCase: false,
 																							want:       "\"\\r\\n\"",
 																						},
 																						&litMatcher{
-																							pos:        position{line: 2914, col: 29, offset: 92023},
+																							pos:        position{line: 2914, col: 29, offset: 92018},
 																							val:        "\r",
 																							ignoreCase: false,
 																							want:       "\"\\r\"",
@@ -47539,16 +47539,16 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 1399, col: 28, offset: 44670},
+																			pos: position{line: 1399, col: 28, offset: 44665},
 																			expr: &litMatcher{
-																				pos:        position{line: 1391, col: 32, offset: 44105},
+																				pos:        position{line: 1391, col: 32, offset: 44100},
 																				val:        "+",
 																				ignoreCase: false,
 																				want:       "\"+\"",
 																			},
 																		},
 																		&anyMatcher{
-																			line: 1399, col: 57, offset: 44699,
+																			line: 1399, col: 57, offset: 44694,
 																		},
 																	},
 																},
@@ -47557,15 +47557,15 @@ var g = &grammar{
 													},
 												},
 												&litMatcher{
-													pos:        position{line: 1391, col: 32, offset: 44105},
+													pos:        position{line: 1391, col: 32, offset: 44100},
 													val:        "+",
 													ignoreCase: false,
 													want:       "\"+\"",
 												},
 												&notExpr{
-													pos: position{line: 1393, col: 121, offset: 44230},
+													pos: position{line: 1393, col: 121, offset: 44225},
 													expr: &charClassMatcher{
-														pos:        position{line: 2795, col: 13, offset: 88930},
+														pos:        position{line: 2795, col: 13, offset: 88925},
 														val:        "[\\pL\\pN]",
 														classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 														ignoreCase: false,
@@ -47576,7 +47576,7 @@ var g = &grammar{
 										},
 									},
 									&ruleRefExpr{
-										pos:  position{line: 2459, col: 57, offset: 79393},
+										pos:  position{line: 2459, col: 57, offset: 79388},
 										name: "PassthroughMacro",
 									},
 								},
@@ -47588,16 +47588,16 @@ var g = &grammar{
 		},
 		{
 			name: "Quote",
-			pos:  position{line: 2464, col: 1, offset: 79453},
+			pos:  position{line: 2464, col: 1, offset: 79448},
 			expr: &seqExpr{
-				pos: position{line: 2466, col: 5, offset: 79529},
+				pos: position{line: 2466, col: 5, offset: 79524},
 				exprs: []interface{}{
 					&andCodeExpr{
-						pos: position{line: 2466, col: 5, offset: 79529},
+						pos: position{line: 2466, col: 5, offset: 79524},
 						run: (*parser).callonQuote2,
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2469, col: 5, offset: 79594},
+						pos:  position{line: 2469, col: 5, offset: 79589},
 						name: "QuotedText",
 					},
 				},
@@ -47605,22 +47605,22 @@ var g = &grammar{
 		},
 		{
 			name: "Replacement",
-			pos:  position{line: 2471, col: 1, offset: 79607},
+			pos:  position{line: 2471, col: 1, offset: 79602},
 			expr: &actionExpr{
-				pos: position{line: 2473, col: 5, offset: 79689},
+				pos: position{line: 2473, col: 5, offset: 79684},
 				run: (*parser).callonReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2473, col: 5, offset: 79689},
+					pos: position{line: 2473, col: 5, offset: 79684},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2473, col: 5, offset: 79689},
+							pos: position{line: 2473, col: 5, offset: 79684},
 							run: (*parser).callonReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2476, col: 5, offset: 79760},
+							pos:   position{line: 2476, col: 5, offset: 79755},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2477, col: 9, offset: 79778},
+								pos:  position{line: 2477, col: 9, offset: 79773},
 								name: "Symbol",
 							},
 						},
@@ -47630,103 +47630,103 @@ var g = &grammar{
 		},
 		{
 			name: "Symbol",
-			pos:  position{line: 2535, col: 1, offset: 81608},
+			pos:  position{line: 2535, col: 1, offset: 81603},
 			expr: &choiceExpr{
-				pos: position{line: 2537, col: 5, offset: 81638},
+				pos: position{line: 2537, col: 5, offset: 81633},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2537, col: 5, offset: 81638},
+						pos: position{line: 2537, col: 5, offset: 81633},
 						run: (*parser).callonSymbol2,
 						expr: &seqExpr{
-							pos: position{line: 2537, col: 5, offset: 81638},
+							pos: position{line: 2537, col: 5, offset: 81633},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2537, col: 5, offset: 81638},
+									pos:        position{line: 2537, col: 5, offset: 81633},
 									val:        "\\",
 									ignoreCase: false,
 									want:       "\"\\\\\"",
 								},
 								&choiceExpr{
-									pos: position{line: 2537, col: 10, offset: 81643},
+									pos: position{line: 2537, col: 10, offset: 81638},
 									alternatives: []interface{}{
 										&ruleRefExpr{
-											pos:  position{line: 2537, col: 10, offset: 81643},
+											pos:  position{line: 2537, col: 10, offset: 81638},
 											name: "QuotationMark",
 										},
 										&actionExpr{
-											pos: position{line: 2575, col: 14, offset: 82973},
+											pos: position{line: 2575, col: 14, offset: 82968},
 											run: (*parser).callonSymbol7,
 											expr: &litMatcher{
-												pos:        position{line: 2575, col: 14, offset: 82973},
+												pos:        position{line: 2575, col: 14, offset: 82968},
 												val:        "(C)",
 												ignoreCase: false,
 												want:       "\"(C)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2579, col: 14, offset: 83039},
+											pos: position{line: 2579, col: 14, offset: 83034},
 											run: (*parser).callonSymbol9,
 											expr: &litMatcher{
-												pos:        position{line: 2579, col: 14, offset: 83039},
+												pos:        position{line: 2579, col: 14, offset: 83034},
 												val:        "(TM)",
 												ignoreCase: false,
 												want:       "\"(TM)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2583, col: 15, offset: 83108},
+											pos: position{line: 2583, col: 15, offset: 83103},
 											run: (*parser).callonSymbol11,
 											expr: &litMatcher{
-												pos:        position{line: 2583, col: 15, offset: 83108},
+												pos:        position{line: 2583, col: 15, offset: 83103},
 												val:        "(R)",
 												ignoreCase: false,
 												want:       "\"(R)\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2587, col: 13, offset: 83173},
+											pos: position{line: 2587, col: 13, offset: 83168},
 											run: (*parser).callonSymbol13,
 											expr: &litMatcher{
-												pos:        position{line: 2587, col: 13, offset: 83173},
+												pos:        position{line: 2587, col: 13, offset: 83168},
 												val:        "...",
 												ignoreCase: false,
 												want:       "\"...\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2615, col: 21, offset: 83743},
+											pos: position{line: 2615, col: 21, offset: 83738},
 											run: (*parser).callonSymbol15,
 											expr: &litMatcher{
-												pos:        position{line: 2615, col: 21, offset: 83743},
+												pos:        position{line: 2615, col: 21, offset: 83738},
 												val:        "->",
 												ignoreCase: false,
 												want:       "\"->\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2594, col: 5, offset: 83329},
+											pos: position{line: 2594, col: 5, offset: 83324},
 											run: (*parser).callonSymbol17,
 											expr: &seqExpr{
-												pos: position{line: 2594, col: 5, offset: 83329},
+												pos: position{line: 2594, col: 5, offset: 83324},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2594, col: 5, offset: 83329},
+														pos:        position{line: 2594, col: 5, offset: 83324},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2595, col: 5, offset: 83339},
+														pos: position{line: 2595, col: 5, offset: 83334},
 														run: (*parser).callonSymbol20,
 													},
 													&choiceExpr{
-														pos: position{line: 2599, col: 6, offset: 83426},
+														pos: position{line: 2599, col: 6, offset: 83421},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2905, col: 10, offset: 91835},
+																pos: position{line: 2905, col: 10, offset: 91830},
 																run: (*parser).callonSymbol22,
 																expr: &charClassMatcher{
-																	pos:        position{line: 2905, col: 10, offset: 91835},
+																	pos:        position{line: 2905, col: 10, offset: 91830},
 																	val:        "[\\t ]",
 																	chars:      []rune{'\t', ' '},
 																	ignoreCase: false,
@@ -47734,30 +47734,30 @@ var g = &grammar{
 																},
 															},
 															&andExpr{
-																pos: position{line: 2599, col: 14, offset: 83434},
+																pos: position{line: 2599, col: 14, offset: 83429},
 																expr: &choiceExpr{
-																	pos: position{line: 2927, col: 8, offset: 92233},
+																	pos: position{line: 2927, col: 8, offset: 92228},
 																	alternatives: []interface{}{
 																		&actionExpr{
-																			pos: position{line: 2914, col: 12, offset: 92006},
+																			pos: position{line: 2914, col: 12, offset: 92001},
 																			run: (*parser).callonSymbol26,
 																			expr: &choiceExpr{
-																				pos: position{line: 2914, col: 13, offset: 92007},
+																				pos: position{line: 2914, col: 13, offset: 92002},
 																				alternatives: []interface{}{
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 13, offset: 92007},
+																						pos:        position{line: 2914, col: 13, offset: 92002},
 																						val:        "\n",
 																						ignoreCase: false,
 																						want:       "\"\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 20, offset: 92014},
+																						pos:        position{line: 2914, col: 20, offset: 92009},
 																						val:        "\r\n",
 																						ignoreCase: false,
 																						want:       "\"\\r\\n\"",
 																					},
 																					&litMatcher{
-																						pos:        position{line: 2914, col: 29, offset: 92023},
+																						pos:        position{line: 2914, col: 29, offset: 92018},
 																						val:        "\r",
 																						ignoreCase: false,
 																						want:       "\"\\r\"",
@@ -47766,9 +47766,9 @@ var g = &grammar{
 																			},
 																		},
 																		&notExpr{
-																			pos: position{line: 2924, col: 8, offset: 92183},
+																			pos: position{line: 2924, col: 8, offset: 92178},
 																			expr: &anyMatcher{
-																				line: 2924, col: 9, offset: 92184,
+																				line: 2924, col: 9, offset: 92179,
 																			},
 																		},
 																	},
@@ -47780,53 +47780,53 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2604, col: 5, offset: 83554},
+											pos: position{line: 2604, col: 5, offset: 83549},
 											run: (*parser).callonSymbol33,
 											expr: &seqExpr{
-												pos: position{line: 2604, col: 5, offset: 83554},
+												pos: position{line: 2604, col: 5, offset: 83549},
 												exprs: []interface{}{
 													&litMatcher{
-														pos:        position{line: 2604, col: 5, offset: 83554},
+														pos:        position{line: 2604, col: 5, offset: 83549},
 														val:        "--",
 														ignoreCase: false,
 														want:       "\"--\"",
 													},
 													&andCodeExpr{
-														pos: position{line: 2605, col: 5, offset: 83564},
+														pos: position{line: 2605, col: 5, offset: 83559},
 														run: (*parser).callonSymbol36,
 													},
 													&andExpr{
-														pos: position{line: 2609, col: 5, offset: 83653},
+														pos: position{line: 2609, col: 5, offset: 83648},
 														expr: &choiceExpr{
-															pos: position{line: 2609, col: 7, offset: 83655},
+															pos: position{line: 2609, col: 7, offset: 83650},
 															alternatives: []interface{}{
 																&charClassMatcher{
-																	pos:        position{line: 2795, col: 13, offset: 88930},
+																	pos:        position{line: 2795, col: 13, offset: 88925},
 																	val:        "[\\pL\\pN]",
 																	classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 																	ignoreCase: false,
 																	inverted:   false,
 																},
 																&actionExpr{
-																	pos: position{line: 2914, col: 12, offset: 92006},
+																	pos: position{line: 2914, col: 12, offset: 92001},
 																	run: (*parser).callonSymbol40,
 																	expr: &choiceExpr{
-																		pos: position{line: 2914, col: 13, offset: 92007},
+																		pos: position{line: 2914, col: 13, offset: 92002},
 																		alternatives: []interface{}{
 																			&litMatcher{
-																				pos:        position{line: 2914, col: 13, offset: 92007},
+																				pos:        position{line: 2914, col: 13, offset: 92002},
 																				val:        "\n",
 																				ignoreCase: false,
 																				want:       "\"\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2914, col: 20, offset: 92014},
+																				pos:        position{line: 2914, col: 20, offset: 92009},
 																				val:        "\r\n",
 																				ignoreCase: false,
 																				want:       "\"\\r\\n\"",
 																			},
 																			&litMatcher{
-																				pos:        position{line: 2914, col: 29, offset: 92023},
+																				pos:        position{line: 2914, col: 29, offset: 92018},
 																				val:        "\r",
 																				ignoreCase: false,
 																				want:       "\"\\r\"",
@@ -47835,9 +47835,9 @@ var g = &grammar{
 																	},
 																},
 																&notExpr{
-																	pos: position{line: 2924, col: 8, offset: 92183},
+																	pos: position{line: 2924, col: 8, offset: 92178},
 																	expr: &anyMatcher{
-																		line: 2924, col: 9, offset: 92184,
+																		line: 2924, col: 9, offset: 92179,
 																	},
 																},
 															},
@@ -47847,30 +47847,30 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2619, col: 20, offset: 83813},
+											pos: position{line: 2619, col: 20, offset: 83808},
 											run: (*parser).callonSymbol47,
 											expr: &litMatcher{
-												pos:        position{line: 2619, col: 20, offset: 83813},
+												pos:        position{line: 2619, col: 20, offset: 83808},
 												val:        "<-",
 												ignoreCase: false,
 												want:       "\"<-\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2623, col: 21, offset: 83884},
+											pos: position{line: 2623, col: 21, offset: 83879},
 											run: (*parser).callonSymbol49,
 											expr: &litMatcher{
-												pos:        position{line: 2623, col: 21, offset: 83884},
+												pos:        position{line: 2623, col: 21, offset: 83879},
 												val:        "=>",
 												ignoreCase: false,
 												want:       "\"=>\"",
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2627, col: 20, offset: 83954},
+											pos: position{line: 2627, col: 20, offset: 83949},
 											run: (*parser).callonSymbol51,
 											expr: &litMatcher{
-												pos:        position{line: 2627, col: 20, offset: 83954},
+												pos:        position{line: 2627, col: 20, offset: 83949},
 												val:        "<=",
 												ignoreCase: false,
 												want:       "\"<=\"",
@@ -47882,73 +47882,73 @@ var g = &grammar{
 						},
 					},
 					&ruleRefExpr{
-						pos:  position{line: 2541, col: 7, offset: 81898},
+						pos:  position{line: 2541, col: 7, offset: 81893},
 						name: "QuotationMark",
 					},
 					&actionExpr{
-						pos: position{line: 2575, col: 14, offset: 82973},
+						pos: position{line: 2575, col: 14, offset: 82968},
 						run: (*parser).callonSymbol54,
 						expr: &litMatcher{
-							pos:        position{line: 2575, col: 14, offset: 82973},
+							pos:        position{line: 2575, col: 14, offset: 82968},
 							val:        "(C)",
 							ignoreCase: false,
 							want:       "\"(C)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2579, col: 14, offset: 83039},
+						pos: position{line: 2579, col: 14, offset: 83034},
 						run: (*parser).callonSymbol56,
 						expr: &litMatcher{
-							pos:        position{line: 2579, col: 14, offset: 83039},
+							pos:        position{line: 2579, col: 14, offset: 83034},
 							val:        "(TM)",
 							ignoreCase: false,
 							want:       "\"(TM)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2583, col: 15, offset: 83108},
+						pos: position{line: 2583, col: 15, offset: 83103},
 						run: (*parser).callonSymbol58,
 						expr: &litMatcher{
-							pos:        position{line: 2583, col: 15, offset: 83108},
+							pos:        position{line: 2583, col: 15, offset: 83103},
 							val:        "(R)",
 							ignoreCase: false,
 							want:       "\"(R)\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2587, col: 13, offset: 83173},
+						pos: position{line: 2587, col: 13, offset: 83168},
 						run: (*parser).callonSymbol60,
 						expr: &litMatcher{
-							pos:        position{line: 2587, col: 13, offset: 83173},
+							pos:        position{line: 2587, col: 13, offset: 83168},
 							val:        "...",
 							ignoreCase: false,
 							want:       "\"...\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2594, col: 5, offset: 83329},
+						pos: position{line: 2594, col: 5, offset: 83324},
 						run: (*parser).callonSymbol62,
 						expr: &seqExpr{
-							pos: position{line: 2594, col: 5, offset: 83329},
+							pos: position{line: 2594, col: 5, offset: 83324},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2594, col: 5, offset: 83329},
+									pos:        position{line: 2594, col: 5, offset: 83324},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2595, col: 5, offset: 83339},
+									pos: position{line: 2595, col: 5, offset: 83334},
 									run: (*parser).callonSymbol65,
 								},
 								&choiceExpr{
-									pos: position{line: 2599, col: 6, offset: 83426},
+									pos: position{line: 2599, col: 6, offset: 83421},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2905, col: 10, offset: 91835},
+											pos: position{line: 2905, col: 10, offset: 91830},
 											run: (*parser).callonSymbol67,
 											expr: &charClassMatcher{
-												pos:        position{line: 2905, col: 10, offset: 91835},
+												pos:        position{line: 2905, col: 10, offset: 91830},
 												val:        "[\\t ]",
 												chars:      []rune{'\t', ' '},
 												ignoreCase: false,
@@ -47956,30 +47956,30 @@ var g = &grammar{
 											},
 										},
 										&andExpr{
-											pos: position{line: 2599, col: 14, offset: 83434},
+											pos: position{line: 2599, col: 14, offset: 83429},
 											expr: &choiceExpr{
-												pos: position{line: 2927, col: 8, offset: 92233},
+												pos: position{line: 2927, col: 8, offset: 92228},
 												alternatives: []interface{}{
 													&actionExpr{
-														pos: position{line: 2914, col: 12, offset: 92006},
+														pos: position{line: 2914, col: 12, offset: 92001},
 														run: (*parser).callonSymbol71,
 														expr: &choiceExpr{
-															pos: position{line: 2914, col: 13, offset: 92007},
+															pos: position{line: 2914, col: 13, offset: 92002},
 															alternatives: []interface{}{
 																&litMatcher{
-																	pos:        position{line: 2914, col: 13, offset: 92007},
+																	pos:        position{line: 2914, col: 13, offset: 92002},
 																	val:        "\n",
 																	ignoreCase: false,
 																	want:       "\"\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2914, col: 20, offset: 92014},
+																	pos:        position{line: 2914, col: 20, offset: 92009},
 																	val:        "\r\n",
 																	ignoreCase: false,
 																	want:       "\"\\r\\n\"",
 																},
 																&litMatcher{
-																	pos:        position{line: 2914, col: 29, offset: 92023},
+																	pos:        position{line: 2914, col: 29, offset: 92018},
 																	val:        "\r",
 																	ignoreCase: false,
 																	want:       "\"\\r\"",
@@ -47988,9 +47988,9 @@ var g = &grammar{
 														},
 													},
 													&notExpr{
-														pos: position{line: 2924, col: 8, offset: 92183},
+														pos: position{line: 2924, col: 8, offset: 92178},
 														expr: &anyMatcher{
-															line: 2924, col: 9, offset: 92184,
+															line: 2924, col: 9, offset: 92179,
 														},
 													},
 												},
@@ -48002,53 +48002,53 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2604, col: 5, offset: 83554},
+						pos: position{line: 2604, col: 5, offset: 83549},
 						run: (*parser).callonSymbol78,
 						expr: &seqExpr{
-							pos: position{line: 2604, col: 5, offset: 83554},
+							pos: position{line: 2604, col: 5, offset: 83549},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2604, col: 5, offset: 83554},
+									pos:        position{line: 2604, col: 5, offset: 83549},
 									val:        "--",
 									ignoreCase: false,
 									want:       "\"--\"",
 								},
 								&andCodeExpr{
-									pos: position{line: 2605, col: 5, offset: 83564},
+									pos: position{line: 2605, col: 5, offset: 83559},
 									run: (*parser).callonSymbol81,
 								},
 								&andExpr{
-									pos: position{line: 2609, col: 5, offset: 83653},
+									pos: position{line: 2609, col: 5, offset: 83648},
 									expr: &choiceExpr{
-										pos: position{line: 2609, col: 7, offset: 83655},
+										pos: position{line: 2609, col: 7, offset: 83650},
 										alternatives: []interface{}{
 											&charClassMatcher{
-												pos:        position{line: 2795, col: 13, offset: 88930},
+												pos:        position{line: 2795, col: 13, offset: 88925},
 												val:        "[\\pL\\pN]",
 												classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
 												ignoreCase: false,
 												inverted:   false,
 											},
 											&actionExpr{
-												pos: position{line: 2914, col: 12, offset: 92006},
+												pos: position{line: 2914, col: 12, offset: 92001},
 												run: (*parser).callonSymbol85,
 												expr: &choiceExpr{
-													pos: position{line: 2914, col: 13, offset: 92007},
+													pos: position{line: 2914, col: 13, offset: 92002},
 													alternatives: []interface{}{
 														&litMatcher{
-															pos:        position{line: 2914, col: 13, offset: 92007},
+															pos:        position{line: 2914, col: 13, offset: 92002},
 															val:        "\n",
 															ignoreCase: false,
 															want:       "\"\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2914, col: 20, offset: 92014},
+															pos:        position{line: 2914, col: 20, offset: 92009},
 															val:        "\r\n",
 															ignoreCase: false,
 															want:       "\"\\r\\n\"",
 														},
 														&litMatcher{
-															pos:        position{line: 2914, col: 29, offset: 92023},
+															pos:        position{line: 2914, col: 29, offset: 92018},
 															val:        "\r",
 															ignoreCase: false,
 															want:       "\"\\r\"",
@@ -48057,9 +48057,9 @@ var g = &grammar{
 												},
 											},
 											&notExpr{
-												pos: position{line: 2924, col: 8, offset: 92183},
+												pos: position{line: 2924, col: 8, offset: 92178},
 												expr: &anyMatcher{
-													line: 2924, col: 9, offset: 92184,
+													line: 2924, col: 9, offset: 92179,
 												},
 											},
 										},
@@ -48069,40 +48069,40 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2615, col: 21, offset: 83743},
+						pos: position{line: 2615, col: 21, offset: 83738},
 						run: (*parser).callonSymbol92,
 						expr: &litMatcher{
-							pos:        position{line: 2615, col: 21, offset: 83743},
+							pos:        position{line: 2615, col: 21, offset: 83738},
 							val:        "->",
 							ignoreCase: false,
 							want:       "\"->\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2619, col: 20, offset: 83813},
+						pos: position{line: 2619, col: 20, offset: 83808},
 						run: (*parser).callonSymbol94,
 						expr: &litMatcher{
-							pos:        position{line: 2619, col: 20, offset: 83813},
+							pos:        position{line: 2619, col: 20, offset: 83808},
 							val:        "<-",
 							ignoreCase: false,
 							want:       "\"<-\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2623, col: 21, offset: 83884},
+						pos: position{line: 2623, col: 21, offset: 83879},
 						run: (*parser).callonSymbol96,
 						expr: &litMatcher{
-							pos:        position{line: 2623, col: 21, offset: 83884},
+							pos:        position{line: 2623, col: 21, offset: 83879},
 							val:        "=>",
 							ignoreCase: false,
 							want:       "\"=>\"",
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2627, col: 20, offset: 83954},
+						pos: position{line: 2627, col: 20, offset: 83949},
 						run: (*parser).callonSymbol98,
 						expr: &litMatcher{
-							pos:        position{line: 2627, col: 20, offset: 83954},
+							pos:        position{line: 2627, col: 20, offset: 83949},
 							val:        "<=",
 							ignoreCase: false,
 							want:       "\"<=\"",
@@ -48113,22 +48113,22 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMarkReplacement",
-			pos:  position{line: 2552, col: 1, offset: 82088},
+			pos:  position{line: 2552, col: 1, offset: 82083},
 			expr: &actionExpr{
-				pos: position{line: 2554, col: 5, offset: 82182},
+				pos: position{line: 2554, col: 5, offset: 82177},
 				run: (*parser).callonQuotationMarkReplacement1,
 				expr: &seqExpr{
-					pos: position{line: 2554, col: 5, offset: 82182},
+					pos: position{line: 2554, col: 5, offset: 82177},
 					exprs: []interface{}{
 						&andCodeExpr{
-							pos: position{line: 2554, col: 5, offset: 82182},
+							pos: position{line: 2554, col: 5, offset: 82177},
 							run: (*parser).callonQuotationMarkReplacement3,
 						},
 						&labeledExpr{
-							pos:   position{line: 2557, col: 5, offset: 82253},
+							pos:   position{line: 2557, col: 5, offset: 82248},
 							label: "element",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2557, col: 14, offset: 82262},
+								pos:  position{line: 2557, col: 14, offset: 82257},
 								name: "QuotationMark",
 							},
 						},
@@ -48138,43 +48138,43 @@ var g = &grammar{
 		},
 		{
 			name: "QuotationMark",
-			pos:  position{line: 2561, col: 1, offset: 82314},
+			pos:  position{line: 2561, col: 1, offset: 82309},
 			expr: &choiceExpr{
-				pos: position{line: 2562, col: 5, offset: 82336},
+				pos: position{line: 2562, col: 5, offset: 82331},
 				alternatives: []interface{}{
 					&actionExpr{
-						pos: position{line: 2562, col: 5, offset: 82336},
+						pos: position{line: 2562, col: 5, offset: 82331},
 						run: (*parser).callonQuotationMark2,
 						expr: &seqExpr{
-							pos: position{line: 2562, col: 5, offset: 82336},
+							pos: position{line: 2562, col: 5, offset: 82331},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2562, col: 5, offset: 82336},
+									pos:        position{line: 2562, col: 5, offset: 82331},
 									val:        "`\"",
 									ignoreCase: false,
 									want:       "\"`\\\"\"",
 								},
 								&notExpr{
-									pos: position{line: 2562, col: 11, offset: 82342},
+									pos: position{line: 2562, col: 11, offset: 82337},
 									expr: &seqExpr{
-										pos: position{line: 2105, col: 5, offset: 68024},
+										pos: position{line: 2105, col: 5, offset: 68019},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2105, col: 5, offset: 68024},
+												pos:        position{line: 2105, col: 5, offset: 68019},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2106, col: 5, offset: 68033},
+												pos: position{line: 2106, col: 5, offset: 68028},
 												run: (*parser).callonQuotationMark8,
 											},
 											&andExpr{
-												pos: position{line: 2110, col: 5, offset: 68156},
+												pos: position{line: 2110, col: 5, offset: 68151},
 												expr: &notExpr{
-													pos: position{line: 2110, col: 7, offset: 68158},
+													pos: position{line: 2110, col: 7, offset: 68153},
 													expr: &litMatcher{
-														pos:        position{line: 2110, col: 8, offset: 68159},
+														pos:        position{line: 2110, col: 8, offset: 68154},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -48188,21 +48188,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2565, col: 7, offset: 82495},
+						pos: position{line: 2565, col: 7, offset: 82490},
 						run: (*parser).callonQuotationMark12,
 						expr: &seqExpr{
-							pos: position{line: 2565, col: 7, offset: 82495},
+							pos: position{line: 2565, col: 7, offset: 82490},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2565, col: 7, offset: 82495},
+									pos:        position{line: 2565, col: 7, offset: 82490},
 									val:        "\"`",
 									ignoreCase: false,
 									want:       "\"\\\"`\"",
 								},
 								&notExpr{
-									pos: position{line: 2565, col: 13, offset: 82501},
+									pos: position{line: 2565, col: 13, offset: 82496},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2565, col: 14, offset: 82502},
+										pos:  position{line: 2565, col: 14, offset: 82497},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48210,38 +48210,38 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2568, col: 7, offset: 82652},
+						pos: position{line: 2568, col: 7, offset: 82647},
 						run: (*parser).callonQuotationMark17,
 						expr: &seqExpr{
-							pos: position{line: 2568, col: 7, offset: 82652},
+							pos: position{line: 2568, col: 7, offset: 82647},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2568, col: 7, offset: 82652},
+									pos:        position{line: 2568, col: 7, offset: 82647},
 									val:        "`'",
 									ignoreCase: false,
 									want:       "\"`'\"",
 								},
 								&notExpr{
-									pos: position{line: 2568, col: 12, offset: 82657},
+									pos: position{line: 2568, col: 12, offset: 82652},
 									expr: &seqExpr{
-										pos: position{line: 2105, col: 5, offset: 68024},
+										pos: position{line: 2105, col: 5, offset: 68019},
 										exprs: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2105, col: 5, offset: 68024},
+												pos:        position{line: 2105, col: 5, offset: 68019},
 												val:        "`",
 												ignoreCase: false,
 												want:       "\"`\"",
 											},
 											&andCodeExpr{
-												pos: position{line: 2106, col: 5, offset: 68033},
+												pos: position{line: 2106, col: 5, offset: 68028},
 												run: (*parser).callonQuotationMark23,
 											},
 											&andExpr{
-												pos: position{line: 2110, col: 5, offset: 68156},
+												pos: position{line: 2110, col: 5, offset: 68151},
 												expr: &notExpr{
-													pos: position{line: 2110, col: 7, offset: 68158},
+													pos: position{line: 2110, col: 7, offset: 68153},
 													expr: &litMatcher{
-														pos:        position{line: 2110, col: 8, offset: 68159},
+														pos:        position{line: 2110, col: 8, offset: 68154},
 														val:        "`",
 														ignoreCase: false,
 														want:       "\"`\"",
@@ -48255,21 +48255,21 @@ var g = &grammar{
 						},
 					},
 					&actionExpr{
-						pos: position{line: 2571, col: 7, offset: 82810},
+						pos: position{line: 2571, col: 7, offset: 82805},
 						run: (*parser).callonQuotationMark27,
 						expr: &seqExpr{
-							pos: position{line: 2571, col: 7, offset: 82810},
+							pos: position{line: 2571, col: 7, offset: 82805},
 							exprs: []interface{}{
 								&litMatcher{
-									pos:        position{line: 2571, col: 7, offset: 82810},
+									pos:        position{line: 2571, col: 7, offset: 82805},
 									val:        "'`",
 									ignoreCase: false,
 									want:       "\"'`\"",
 								},
 								&notExpr{
-									pos: position{line: 2571, col: 12, offset: 82815},
+									pos: position{line: 2571, col: 12, offset: 82810},
 									expr: &ruleRefExpr{
-										pos:  position{line: 2571, col: 13, offset: 82816},
+										pos:  position{line: 2571, col: 13, offset: 82811},
 										name: "SingleQuoteMonospaceTextEndDelimiter",
 									},
 								},
@@ -48281,63 +48281,63 @@ var g = &grammar{
 		},
 		{
 			name: "TableColumnsAttribute",
-			pos:  position{line: 2710, col: 1, offset: 86010},
+			pos:  position{line: 2710, col: 1, offset: 86005},
 			expr: &actionExpr{
-				pos: position{line: 2710, col: 26, offset: 86035},
+				pos: position{line: 2710, col: 26, offset: 86030},
 				run: (*parser).callonTableColumnsAttribute1,
 				expr: &seqExpr{
-					pos: position{line: 2710, col: 26, offset: 86035},
+					pos: position{line: 2710, col: 26, offset: 86030},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2710, col: 26, offset: 86035},
+							pos:   position{line: 2710, col: 26, offset: 86030},
 							label: "cols",
 							expr: &zeroOrMoreExpr{
-								pos: position{line: 2710, col: 31, offset: 86040},
+								pos: position{line: 2710, col: 31, offset: 86035},
 								expr: &actionExpr{
-									pos: position{line: 2715, col: 5, offset: 86103},
+									pos: position{line: 2715, col: 5, offset: 86098},
 									run: (*parser).callonTableColumnsAttribute5,
 									expr: &seqExpr{
-										pos: position{line: 2715, col: 5, offset: 86103},
+										pos: position{line: 2715, col: 5, offset: 86098},
 										exprs: []interface{}{
 											&andExpr{
-												pos: position{line: 2922, col: 11, offset: 92169},
+												pos: position{line: 2922, col: 11, offset: 92164},
 												expr: &anyMatcher{
-													line: 2922, col: 13, offset: 92171,
+													line: 2922, col: 13, offset: 92166,
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2718, col: 5, offset: 86229},
+												pos:   position{line: 2718, col: 5, offset: 86224},
 												label: "multiplier",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2718, col: 16, offset: 86240},
+													pos: position{line: 2718, col: 16, offset: 86235},
 													expr: &actionExpr{
-														pos: position{line: 2718, col: 17, offset: 86241},
+														pos: position{line: 2718, col: 17, offset: 86236},
 														run: (*parser).callonTableColumnsAttribute11,
 														expr: &seqExpr{
-															pos: position{line: 2718, col: 17, offset: 86241},
+															pos: position{line: 2718, col: 17, offset: 86236},
 															exprs: []interface{}{
 																&labeledExpr{
-																	pos:   position{line: 2718, col: 17, offset: 86241},
+																	pos:   position{line: 2718, col: 17, offset: 86236},
 																	label: "n",
 																	expr: &actionExpr{
-																		pos: position{line: 2897, col: 12, offset: 91662},
+																		pos: position{line: 2897, col: 12, offset: 91657},
 																		run: (*parser).callonTableColumnsAttribute14,
 																		expr: &seqExpr{
-																			pos: position{line: 2897, col: 13, offset: 91663},
+																			pos: position{line: 2897, col: 13, offset: 91658},
 																			exprs: []interface{}{
 																				&zeroOrOneExpr{
-																					pos: position{line: 2897, col: 13, offset: 91663},
+																					pos: position{line: 2897, col: 13, offset: 91658},
 																					expr: &litMatcher{
-																						pos:        position{line: 2897, col: 13, offset: 91663},
+																						pos:        position{line: 2897, col: 13, offset: 91658},
 																						val:        "-",
 																						ignoreCase: false,
 																						want:       "\"-\"",
 																					},
 																				},
 																				&oneOrMoreExpr{
-																					pos: position{line: 2897, col: 18, offset: 91668},
+																					pos: position{line: 2897, col: 18, offset: 91663},
 																					expr: &charClassMatcher{
-																						pos:        position{line: 2897, col: 18, offset: 91668},
+																						pos:        position{line: 2897, col: 18, offset: 91663},
 																						val:        "[0-9]",
 																						ranges:     []rune{'0', '9'},
 																						ignoreCase: false,
@@ -48349,7 +48349,7 @@ var g = &grammar{
 																	},
 																},
 																&litMatcher{
-																	pos:        position{line: 2718, col: 27, offset: 86251},
+																	pos:        position{line: 2718, col: 27, offset: 86246},
 																	val:        "*",
 																	ignoreCase: false,
 																	want:       "\"*\"",
@@ -48360,38 +48360,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2719, col: 5, offset: 86279},
+												pos:   position{line: 2719, col: 5, offset: 86274},
 												label: "halign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2719, col: 12, offset: 86286},
+													pos: position{line: 2719, col: 12, offset: 86281},
 													expr: &choiceExpr{
-														pos: position{line: 2720, col: 9, offset: 86296},
+														pos: position{line: 2720, col: 9, offset: 86291},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2720, col: 9, offset: 86296},
+																pos: position{line: 2720, col: 9, offset: 86291},
 																run: (*parser).callonTableColumnsAttribute24,
 																expr: &litMatcher{
-																	pos:        position{line: 2720, col: 9, offset: 86296},
+																	pos:        position{line: 2720, col: 9, offset: 86291},
 																	val:        "<",
 																	ignoreCase: false,
 																	want:       "\"<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2721, col: 11, offset: 86343},
+																pos: position{line: 2721, col: 11, offset: 86338},
 																run: (*parser).callonTableColumnsAttribute26,
 																expr: &litMatcher{
-																	pos:        position{line: 2721, col: 11, offset: 86343},
+																	pos:        position{line: 2721, col: 11, offset: 86338},
 																	val:        ">",
 																	ignoreCase: false,
 																	want:       "\">\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2722, col: 11, offset: 86391},
+																pos: position{line: 2722, col: 11, offset: 86386},
 																run: (*parser).callonTableColumnsAttribute28,
 																expr: &litMatcher{
-																	pos:        position{line: 2722, col: 11, offset: 86391},
+																	pos:        position{line: 2722, col: 11, offset: 86386},
 																	val:        "^",
 																	ignoreCase: false,
 																	want:       "\"^\"",
@@ -48402,38 +48402,38 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2724, col: 5, offset: 86441},
+												pos:   position{line: 2724, col: 5, offset: 86436},
 												label: "valign",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2724, col: 12, offset: 86448},
+													pos: position{line: 2724, col: 12, offset: 86443},
 													expr: &choiceExpr{
-														pos: position{line: 2725, col: 9, offset: 86458},
+														pos: position{line: 2725, col: 9, offset: 86453},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2725, col: 9, offset: 86458},
+																pos: position{line: 2725, col: 9, offset: 86453},
 																run: (*parser).callonTableColumnsAttribute33,
 																expr: &litMatcher{
-																	pos:        position{line: 2725, col: 9, offset: 86458},
+																	pos:        position{line: 2725, col: 9, offset: 86453},
 																	val:        ".<",
 																	ignoreCase: false,
 																	want:       "\".<\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2726, col: 11, offset: 86505},
+																pos: position{line: 2726, col: 11, offset: 86500},
 																run: (*parser).callonTableColumnsAttribute35,
 																expr: &litMatcher{
-																	pos:        position{line: 2726, col: 11, offset: 86505},
+																	pos:        position{line: 2726, col: 11, offset: 86500},
 																	val:        ".>",
 																	ignoreCase: false,
 																	want:       "\".>\"",
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2727, col: 11, offset: 86555},
+																pos: position{line: 2727, col: 11, offset: 86550},
 																run: (*parser).callonTableColumnsAttribute37,
 																expr: &litMatcher{
-																	pos:        position{line: 2727, col: 11, offset: 86555},
+																	pos:        position{line: 2727, col: 11, offset: 86550},
 																	val:        ".^",
 																	ignoreCase: false,
 																	want:       "\".^\"",
@@ -48444,32 +48444,32 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2729, col: 5, offset: 86606},
+												pos:   position{line: 2729, col: 5, offset: 86601},
 												label: "weight",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2729, col: 12, offset: 86613},
+													pos: position{line: 2729, col: 12, offset: 86608},
 													expr: &choiceExpr{
-														pos: position{line: 2729, col: 13, offset: 86614},
+														pos: position{line: 2729, col: 13, offset: 86609},
 														alternatives: []interface{}{
 															&actionExpr{
-																pos: position{line: 2897, col: 12, offset: 91662},
+																pos: position{line: 2897, col: 12, offset: 91657},
 																run: (*parser).callonTableColumnsAttribute42,
 																expr: &seqExpr{
-																	pos: position{line: 2897, col: 13, offset: 91663},
+																	pos: position{line: 2897, col: 13, offset: 91658},
 																	exprs: []interface{}{
 																		&zeroOrOneExpr{
-																			pos: position{line: 2897, col: 13, offset: 91663},
+																			pos: position{line: 2897, col: 13, offset: 91658},
 																			expr: &litMatcher{
-																				pos:        position{line: 2897, col: 13, offset: 91663},
+																				pos:        position{line: 2897, col: 13, offset: 91658},
 																				val:        "-",
 																				ignoreCase: false,
 																				want:       "\"-\"",
 																			},
 																		},
 																		&oneOrMoreExpr{
-																			pos: position{line: 2897, col: 18, offset: 91668},
+																			pos: position{line: 2897, col: 18, offset: 91663},
 																			expr: &charClassMatcher{
-																				pos:        position{line: 2897, col: 18, offset: 91668},
+																				pos:        position{line: 2897, col: 18, offset: 91663},
 																				val:        "[0-9]",
 																				ranges:     []rune{'0', '9'},
 																				ignoreCase: false,
@@ -48480,10 +48480,10 @@ var g = &grammar{
 																},
 															},
 															&actionExpr{
-																pos: position{line: 2729, col: 24, offset: 86625},
+																pos: position{line: 2729, col: 24, offset: 86620},
 																run: (*parser).callonTableColumnsAttribute48,
 																expr: &litMatcher{
-																	pos:        position{line: 2729, col: 24, offset: 86625},
+																	pos:        position{line: 2729, col: 24, offset: 86620},
 																	val:        "~",
 																	ignoreCase: false,
 																	want:       "\"~\"",
@@ -48494,15 +48494,15 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2730, col: 5, offset: 86667},
+												pos:   position{line: 2730, col: 5, offset: 86662},
 												label: "style",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2730, col: 11, offset: 86673},
+													pos: position{line: 2730, col: 11, offset: 86668},
 													expr: &actionExpr{
-														pos: position{line: 2730, col: 12, offset: 86674},
+														pos: position{line: 2730, col: 12, offset: 86669},
 														run: (*parser).callonTableColumnsAttribute52,
 														expr: &charClassMatcher{
-															pos:        position{line: 2730, col: 12, offset: 86674},
+															pos:        position{line: 2730, col: 12, offset: 86669},
 															val:        "[adehlms]",
 															chars:      []rune{'a', 'd', 'e', 'h', 'l', 'm', 's'},
 															ignoreCase: false,
@@ -48512,12 +48512,12 @@ var g = &grammar{
 												},
 											},
 											&labeledExpr{
-												pos:   position{line: 2732, col: 5, offset: 86804},
+												pos:   position{line: 2732, col: 5, offset: 86799},
 												label: "comma",
 												expr: &zeroOrOneExpr{
-													pos: position{line: 2732, col: 11, offset: 86810},
+													pos: position{line: 2732, col: 11, offset: 86805},
 													expr: &litMatcher{
-														pos:        position{line: 2732, col: 12, offset: 86811},
+														pos:        position{line: 2732, col: 12, offset: 86806},
 														val:        ",",
 														ignoreCase: false,
 														want:       "\",\"",
@@ -48525,7 +48525,7 @@ var g = &grammar{
 												},
 											},
 											&andCodeExpr{
-												pos: position{line: 2733, col: 5, offset: 86821},
+												pos: position{line: 2733, col: 5, offset: 86816},
 												run: (*parser).callonTableColumnsAttribute57,
 											},
 										},
@@ -48534,9 +48534,9 @@ var g = &grammar{
 							},
 						},
 						&notExpr{
-							pos: position{line: 2924, col: 8, offset: 92183},
+							pos: position{line: 2924, col: 8, offset: 92178},
 							expr: &anyMatcher{
-								line: 2924, col: 9, offset: 92184,
+								line: 2924, col: 9, offset: 92179,
 							},
 						},
 					},
@@ -48545,23 +48545,23 @@ var g = &grammar{
 		},
 		{
 			name: "UserMacroBlock",
-			pos:  position{line: 2760, col: 1, offset: 87830},
+			pos:  position{line: 2760, col: 1, offset: 87825},
 			expr: &actionExpr{
-				pos: position{line: 2761, col: 5, offset: 87853},
+				pos: position{line: 2761, col: 5, offset: 87848},
 				run: (*parser).callonUserMacroBlock1,
 				expr: &seqExpr{
-					pos: position{line: 2761, col: 5, offset: 87853},
+					pos: position{line: 2761, col: 5, offset: 87848},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2761, col: 5, offset: 87853},
+							pos:   position{line: 2761, col: 5, offset: 87848},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2784, col: 18, offset: 88594},
+								pos: position{line: 2784, col: 18, offset: 88589},
 								run: (*parser).callonUserMacroBlock4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2784, col: 19, offset: 88595},
+									pos: position{line: 2784, col: 19, offset: 88590},
 									expr: &charClassMatcher{
-										pos:        position{line: 2784, col: 19, offset: 88595},
+										pos:        position{line: 2784, col: 19, offset: 88590},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48572,25 +48572,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2762, col: 5, offset: 87879},
+							pos: position{line: 2762, col: 5, offset: 87874},
 							run: (*parser).callonUserMacroBlock7,
 						},
 						&litMatcher{
-							pos:        position{line: 2766, col: 5, offset: 88007},
+							pos:        position{line: 2766, col: 5, offset: 88002},
 							val:        "::",
 							ignoreCase: false,
 							want:       "\"::\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2767, col: 5, offset: 88017},
+							pos:   position{line: 2767, col: 5, offset: 88012},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2788, col: 19, offset: 88670},
+								pos: position{line: 2788, col: 19, offset: 88665},
 								run: (*parser).callonUserMacroBlock10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2788, col: 19, offset: 88670},
+									pos: position{line: 2788, col: 19, offset: 88665},
 									expr: &charClassMatcher{
-										pos:        position{line: 2788, col: 19, offset: 88670},
+										pos:        position{line: 2788, col: 19, offset: 88665},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48600,36 +48600,36 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2768, col: 5, offset: 88045},
+							pos:   position{line: 2768, col: 5, offset: 88040},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2768, col: 17, offset: 88057},
+								pos:  position{line: 2768, col: 17, offset: 88052},
 								name: "InlineAttributes",
 							},
 						},
 						&choiceExpr{
-							pos: position{line: 2927, col: 8, offset: 92233},
+							pos: position{line: 2927, col: 8, offset: 92228},
 							alternatives: []interface{}{
 								&actionExpr{
-									pos: position{line: 2914, col: 12, offset: 92006},
+									pos: position{line: 2914, col: 12, offset: 92001},
 									run: (*parser).callonUserMacroBlock16,
 									expr: &choiceExpr{
-										pos: position{line: 2914, col: 13, offset: 92007},
+										pos: position{line: 2914, col: 13, offset: 92002},
 										alternatives: []interface{}{
 											&litMatcher{
-												pos:        position{line: 2914, col: 13, offset: 92007},
+												pos:        position{line: 2914, col: 13, offset: 92002},
 												val:        "\n",
 												ignoreCase: false,
 												want:       "\"\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2914, col: 20, offset: 92014},
+												pos:        position{line: 2914, col: 20, offset: 92009},
 												val:        "\r\n",
 												ignoreCase: false,
 												want:       "\"\\r\\n\"",
 											},
 											&litMatcher{
-												pos:        position{line: 2914, col: 29, offset: 92023},
+												pos:        position{line: 2914, col: 29, offset: 92018},
 												val:        "\r",
 												ignoreCase: false,
 												want:       "\"\\r\"",
@@ -48638,9 +48638,9 @@ var g = &grammar{
 									},
 								},
 								&notExpr{
-									pos: position{line: 2924, col: 8, offset: 92183},
+									pos: position{line: 2924, col: 8, offset: 92178},
 									expr: &anyMatcher{
-										line: 2924, col: 9, offset: 92184,
+										line: 2924, col: 9, offset: 92179,
 									},
 								},
 							},
@@ -48651,23 +48651,23 @@ var g = &grammar{
 		},
 		{
 			name: "InlineUserMacro",
-			pos:  position{line: 2772, col: 1, offset: 88205},
+			pos:  position{line: 2772, col: 1, offset: 88200},
 			expr: &actionExpr{
-				pos: position{line: 2773, col: 5, offset: 88229},
+				pos: position{line: 2773, col: 5, offset: 88224},
 				run: (*parser).callonInlineUserMacro1,
 				expr: &seqExpr{
-					pos: position{line: 2773, col: 5, offset: 88229},
+					pos: position{line: 2773, col: 5, offset: 88224},
 					exprs: []interface{}{
 						&labeledExpr{
-							pos:   position{line: 2773, col: 5, offset: 88229},
+							pos:   position{line: 2773, col: 5, offset: 88224},
 							label: "name",
 							expr: &actionExpr{
-								pos: position{line: 2784, col: 18, offset: 88594},
+								pos: position{line: 2784, col: 18, offset: 88589},
 								run: (*parser).callonInlineUserMacro4,
 								expr: &oneOrMoreExpr{
-									pos: position{line: 2784, col: 19, offset: 88595},
+									pos: position{line: 2784, col: 19, offset: 88590},
 									expr: &charClassMatcher{
-										pos:        position{line: 2784, col: 19, offset: 88595},
+										pos:        position{line: 2784, col: 19, offset: 88590},
 										val:        "[_-\\pL\\pN]",
 										chars:      []rune{'_', '-'},
 										classes:    []*unicode.RangeTable{rangeTable("L"), rangeTable("N")},
@@ -48678,25 +48678,25 @@ var g = &grammar{
 							},
 						},
 						&andCodeExpr{
-							pos: position{line: 2774, col: 5, offset: 88255},
+							pos: position{line: 2774, col: 5, offset: 88250},
 							run: (*parser).callonInlineUserMacro7,
 						},
 						&litMatcher{
-							pos:        position{line: 2778, col: 5, offset: 88383},
+							pos:        position{line: 2778, col: 5, offset: 88378},
 							val:        ":",
 							ignoreCase: false,
 							want:       "\":\"",
 						},
 						&labeledExpr{
-							pos:   position{line: 2779, col: 5, offset: 88392},
+							pos:   position{line: 2779, col: 5, offset: 88387},
 							label: "value",
 							expr: &actionExpr{
-								pos: position{line: 2788, col: 19, offset: 88670},
+								pos: position{line: 2788, col: 19, offset: 88665},
 								run: (*parser).callonInlineUserMacro10,
 								expr: &zeroOrMoreExpr{
-									pos: position{line: 2788, col: 19, offset: 88670},
+									pos: position{line: 2788, col: 19, offset: 88665},
 									expr: &charClassMatcher{
-										pos:        position{line: 2788, col: 19, offset: 88670},
+										pos:        position{line: 2788, col: 19, offset: 88665},
 										val:        "[^:[ \\r\\n]",
 										chars:      []rune{':', '[', ' ', '\r', '\n'},
 										ignoreCase: false,
@@ -48706,10 +48706,10 @@ var g = &grammar{
 							},
 						},
 						&labeledExpr{
-							pos:   position{line: 2780, col: 5, offset: 88420},
+							pos:   position{line: 2780, col: 5, offset: 88415},
 							label: "attributes",
 							expr: &ruleRefExpr{
-								pos:  position{line: 2780, col: 17, offset: 88432},
+								pos:  position{line: 2780, col: 17, offset: 88427},
 								name: "InlineAttributes",
 							},
 						},
@@ -48719,43 +48719,43 @@ var g = &grammar{
 		},
 		{
 			name: "FileLocation",
-			pos:  position{line: 2859, col: 1, offset: 90482},
+			pos:  position{line: 2859, col: 1, offset: 90477},
 			expr: &actionExpr{
-				pos: position{line: 2859, col: 17, offset: 90498},
+				pos: position{line: 2859, col: 17, offset: 90493},
 				run: (*parser).callonFileLocation1,
 				expr: &labeledExpr{
-					pos:   position{line: 2859, col: 17, offset: 90498},
+					pos:   position{line: 2859, col: 17, offset: 90493},
 					label: "path",
 					expr: &actionExpr{
-						pos: position{line: 2876, col: 5, offset: 90952},
+						pos: position{line: 2876, col: 5, offset: 90947},
 						run: (*parser).callonFileLocation3,
 						expr: &labeledExpr{
-							pos:   position{line: 2876, col: 5, offset: 90952},
+							pos:   position{line: 2876, col: 5, offset: 90947},
 							label: "elements",
 							expr: &oneOrMoreExpr{
-								pos: position{line: 2876, col: 14, offset: 90961},
+								pos: position{line: 2876, col: 14, offset: 90956},
 								expr: &choiceExpr{
-									pos: position{line: 2877, col: 9, offset: 90971},
+									pos: position{line: 2877, col: 9, offset: 90966},
 									alternatives: []interface{}{
 										&actionExpr{
-											pos: position{line: 2877, col: 9, offset: 90971},
+											pos: position{line: 2877, col: 9, offset: 90966},
 											run: (*parser).callonFileLocation7,
 											expr: &seqExpr{
-												pos: position{line: 2877, col: 9, offset: 90971},
+												pos: position{line: 2877, col: 9, offset: 90966},
 												exprs: []interface{}{
 													&notExpr{
-														pos: position{line: 2877, col: 9, offset: 90971},
+														pos: position{line: 2877, col: 9, offset: 90966},
 														expr: &litMatcher{
-															pos:        position{line: 2877, col: 10, offset: 90972},
+															pos:        position{line: 2877, col: 10, offset: 90967},
 															val:        "[",
 															ignoreCase: false,
 															want:       "\"[\"",
 														},
 													},
 													&oneOrMoreExpr{
-														pos: position{line: 2878, col: 9, offset: 91000},
+														pos: position{line: 2878, col: 9, offset: 90995},
 														expr: &charClassMatcher{
-															pos:        position{line: 2878, col: 10, offset: 91001},
+															pos:        position{line: 2878, col: 10, offset: 90996},
 															val:        "[^\\r\\n[]�{,;?!.<> ]",
 															chars:      []rune{'\r', '\n', '[', ']', '�', '{', ',', ';', '?', '!', '.', '<', '>', ' '},
 															ignoreCase: false,
@@ -48766,27 +48766,27 @@ var g = &grammar{
 											},
 										},
 										&seqExpr{
-											pos: position{line: 2881, col: 11, offset: 91213},
+											pos: position{line: 2881, col: 11, offset: 91208},
 											exprs: []interface{}{
 												&charClassMatcher{
-													pos:        position{line: 2881, col: 11, offset: 91213},
+													pos:        position{line: 2881, col: 11, offset: 91208},
 													val:        "[,;?!.]",
 													chars:      []rune{',', ';', '?', '!', '.'},
 													ignoreCase: false,
 													inverted:   false,
 												},
 												&andExpr{
-													pos: position{line: 2881, col: 19, offset: 91221},
+													pos: position{line: 2881, col: 19, offset: 91216},
 													expr: &seqExpr{
-														pos: position{line: 2881, col: 21, offset: 91223},
+														pos: position{line: 2881, col: 21, offset: 91218},
 														exprs: []interface{}{
 															&notExpr{
-																pos: position{line: 2881, col: 21, offset: 91223},
+																pos: position{line: 2881, col: 21, offset: 91218},
 																expr: &actionExpr{
-																	pos: position{line: 2905, col: 10, offset: 91835},
+																	pos: position{line: 2905, col: 10, offset: 91830},
 																	run: (*parser).callonFileLocation18,
 																	expr: &charClassMatcher{
-																		pos:        position{line: 2905, col: 10, offset: 91835},
+																		pos:        position{line: 2905, col: 10, offset: 91830},
 																		val:        "[\\t ]",
 																		chars:      []rune{'\t', ' '},
 																		ignoreCase: false,
@@ -48795,11 +48795,11 @@ var g = &grammar{
 																},
 															},
 															&notExpr{
-																pos: position{line: 2881, col: 28, offset: 91230},
+																pos: position{line: 2881, col: 28, offset: 91225},
 																expr: &notExpr{
-																	pos: position{line: 2924, col: 8, offset: 92183},
+																	pos: position{line: 2924, col: 8, offset: 92178},
 																	expr: &anyMatcher{
-																		line: 2924, col: 9, offset: 92184,
+																		line: 2924, col: 9, offset: 92179,
 																	},
 																},
 															},
@@ -49194,10 +49194,10 @@ var g = &grammar{
 											},
 										},
 										&actionExpr{
-											pos: position{line: 2884, col: 11, offset: 91350},
+											pos: position{line: 2884, col: 11, offset: 91345},
 											run: (*parser).callonFileLocation100,
 											expr: &litMatcher{
-												pos:        position{line: 2884, col: 11, offset: 91350},
+												pos:        position{line: 2884, col: 11, offset: 91345},
 												val:        "{",
 												ignoreCase: false,
 												want:       "\"{\"",
diff --git a/pkg/parser/parser.peg b/pkg/parser/parser.peg
index 8906a10..9e1eaaa 100644
--- a/pkg/parser/parser.peg
+++ b/pkg/parser/parser.peg
@@ -1314,7 +1314,7 @@ IndexTerm <- "((" term:(IndexTermContent) "))" {
        return types.NewIndexTerm(term.([]interface{}))
     }
 
-IndexTermContent <- elements:(Alphanums / QuotedText / Space / SpecialCharacter / ElementPlaceHolder / (!"))" .) {
+IndexTermContent <- elements:(Alphanums / Quote / Space / SpecialCharacter / ElementPlaceHolder / (!"))" .) {
     return string(c.text), nil
 })+ {
     return types.NewInlineElements(elements.([]interface{}))
-- 
2.43.0


From 19de4731a76be52629e745c5ee9297d1057ec5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:44 +0000
Subject: [PATCH 073/108] fix: retain special characters when attributes are
 substituted after them

With `subs="specialchars,attributes,quotes"`, the special characters which were
found before the attributes were replaced were emitted as-is after the second parsing.
---
 pkg/parser/document_processing_apply_substitutions.go | 10 +++++++---
 pkg/parser/document_processing_refine_fragments.go    |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 7c635f4..0d62c15 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -626,7 +626,7 @@ func valueForCounter(ctx *ParseContext, c *types.CounterSubstitution) (string, e
 // parseElementsWithSubstitutions parse the elements, using placeholders for existing "structured" elements (ie, not RawLine or StringElements)
 // Also, does not parse the content of the placeholders, but restores them at the end.
 func parseWithSubstitutions(content interface{}, subs *substitutions, opts ...Option) ([]interface{}, error) {
-	serialized, placeholders, err := serialize(content)
+	serialized, placeholders, err := serialize(content, subs)
 	if err != nil {
 		return nil, err
 	}
@@ -677,7 +677,7 @@ func parseWithSubstitutions(content interface{}, subs *substitutions, opts ...Op
 	return elements, nil
 }
 
-func serialize(content interface{}) ([]byte, *placeholders, error) {
+func serialize(content interface{}, subs *substitutions) ([]byte, *placeholders, error) {
 	if log.IsLevelEnabled(log.DebugLevel) {
 		log.Debugf("serializing:\n%v", spew.Sdump(content))
 	}
@@ -697,7 +697,11 @@ func serialize(content interface{}) ([]byte, *placeholders, error) {
 			case *types.StringElement:
 				result.WriteString(element.Content)
 			case *types.SpecialCharacter:
-				result.WriteString(element.Name) // reserialize, so we can detect bare URLs (eg: `a link to <{base_url}>`)
+				if subs.contains(SpecialCharacters) {
+					result.WriteString(element.Name) // reserialize, so we can detect bare URLs (eg: `a link to <{base_url}>`)
+				} else {
+					result.WriteString(placeholders.add(element).String()) // would not be recognized again
+				}
 			default:
 				// replace with placeholder
 				p := placeholders.add(element)
diff --git a/pkg/parser/document_processing_refine_fragments.go b/pkg/parser/document_processing_refine_fragments.go
index cc63b87..77bcea2 100644
--- a/pkg/parser/document_processing_refine_fragments.go
+++ b/pkg/parser/document_processing_refine_fragments.go
@@ -142,7 +142,7 @@ func reparseDelimitedBlock(ctx *ParseContext, b *types.DelimitedBlock) error {
 }
 
 func reparseElements(elements []interface{}, opts ...Option) ([]interface{}, error) {
-	content, placeholders, err := serialize(elements)
+	content, placeholders, err := serialize(elements, normalSubstitutions())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From fa4d17c03efda096f80654add646023783420624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:28 +0000
Subject: [PATCH 074/108] fix: escape the alignment of images

The `float` and `align` attributes were emitted as-is in the `class` attribute.
---
 pkg/renderer/sgml/element_role.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/renderer/sgml/element_role.go b/pkg/renderer/sgml/element_role.go
index 7cb696f..bfe0d3a 100644
--- a/pkg/renderer/sgml/element_role.go
+++ b/pkg/renderer/sgml/element_role.go
@@ -26,10 +26,10 @@ func (r *sgmlRenderer) renderElementRoles(ctx *context, attrs types.Attributes)
 func (r *sgmlRenderer) renderImageRoles(ctx *context, attrs types.Attributes) (string, error) {
 	var result []string
 	if val, found := attrs.GetAsString(types.AttrFloat); found {
-		result = append(result, val)
+		result = append(result, escapeString(val))
 	}
 	if val, found := attrs.GetAsString(types.AttrImageAlign); found {
-		result = append(result, "text-"+val)
+		result = append(result, "text-"+escapeString(val))
 	}
 	if roles, ok := attrs[types.AttrRoles].(types.Roles); ok {
 		for _, e := range roles {
-- 
2.43.0


From 37d654f5b28fa77945b7d6af55fab452fe7e59d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:39 +0000
Subject: [PATCH 075/108] fix: escape the attributes of icons

The values were emitted as-is in the attributes of the generated tags (or as text).
---
 pkg/renderer/sgml/icon.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pkg/renderer/sgml/icon.go b/pkg/renderer/sgml/icon.go
index fa5eab5..2ab8066 100644
--- a/pkg/renderer/sgml/icon.go
+++ b/pkg/renderer/sgml/icon.go
@@ -26,12 +26,12 @@ func (r *sgmlRenderer) renderInlineIcon(ctx *context, icon *types.Icon) (string,
 		ID     string
 		Icon   string
 	}{
-		Class:  icon.Class,
+		Class:  escapeString(icon.Class),
 		Icon:   iconStr,
 		ID:     r.renderElementID(icon.Attributes),
-		Link:   icon.Attributes.GetAsStringWithDefault(types.AttrInlineLink, ""),
-		Window: icon.Attributes.GetAsStringWithDefault(types.AttrImageWindow, ""),
-		Role:   icon.Attributes.GetAsStringWithDefault(types.AttrRoles, ""),
+		Link:   escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrInlineLink, "")),
+		Window: escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrImageWindow, "")),
+		Role:   escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrRoles, "")),
 	})
 }
 
@@ -98,17 +98,17 @@ func (r *sgmlRenderer) renderIcon(ctx *context, icon types.Icon, admonition bool
 		Src        string
 		Admonition bool
 	}{
-		Class:      icon.Class,
-		Alt:        alt,
-		Title:      title,
-		Width:      icon.Attributes.GetAsStringWithDefault(types.AttrWidth, ""),
-		Height:     icon.Attributes.GetAsStringWithDefault(types.AttrHeight, ""),
-		Size:       icon.Attributes.GetAsStringWithDefault(types.AttrIconSize, ""),
-		Rotate:     icon.Attributes.GetAsStringWithDefault(types.AttrIconRotate, ""),
-		Flip:       icon.Attributes.GetAsStringWithDefault(types.AttrIconFlip, ""),
-		Link:       icon.Attributes.GetAsStringWithDefault(types.AttrInlineLink, ""),
-		Window:     icon.Attributes.GetAsStringWithDefault(types.AttrImageWindow, ""),
-		Src:        renderIconPath(ctx, icon.Class),
+		Class:      escapeString(icon.Class),
+		Alt:        escapeString(alt),
+		Title:      escapeString(title),
+		Width:      escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrWidth, "")),
+		Height:     escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrHeight, "")),
+		Size:       escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrIconSize, "")),
+		Rotate:     escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrIconRotate, "")),
+		Flip:       escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrIconFlip, "")),
+		Link:       escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrInlineLink, "")),
+		Window:     escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrImageWindow, "")),
+		Src:        escapeString(renderIconPath(ctx, icon.Class)),
 		Admonition: admonition,
 	}); err != nil {
 		return "", errors.Wrap(err, "unable to render icon")
-- 
2.43.0


From d5778e0f4a03ab24261932612776258d76689fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:33 +0000
Subject: [PATCH 076/108] fix: escape the attributes of images

The values were emitted as-is in the attributes of the generated tags, as well as
the markup of the title of inline images. The `alt` attribute of images was ignored
if it has special characters or symbols.
---
 pkg/renderer/sgml/html_escape.go | 13 ++++++++++
 pkg/renderer/sgml/image.go       | 42 ++++++++++++++++++++------------
 2 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/pkg/renderer/sgml/html_escape.go b/pkg/renderer/sgml/html_escape.go
index 12b2f33..e9925a8 100644
--- a/pkg/renderer/sgml/html_escape.go
+++ b/pkg/renderer/sgml/html_escape.go
@@ -27,3 +27,16 @@ var htmlEscaper = strings.NewReplacer(
 	`'`, "&#39;", // "&#39;" is shorter than "&apos;" and apos was not in HTML until HTML5.
 	`"`, "&#34;", // "&#34;" is shorter than "&quot;".
 )
+
+// escapeURL escapes the characters of a URL which could end the attribute in which it is placed.
+// Ampersands are kept as-is.
+func escapeURL(s string) string {
+	return urlEscaper.Replace(s)
+}
+
+var urlEscaper = strings.NewReplacer(
+	`<`, "%3C",
+	`>`, "%3E",
+	`'`, "%27",
+	`"`, "%22",
+)
diff --git a/pkg/renderer/sgml/image.go b/pkg/renderer/sgml/image.go
index ad4d398..08c29dc 100644
--- a/pkg/renderer/sgml/image.go
+++ b/pkg/renderer/sgml/image.go
@@ -63,15 +63,15 @@ func (r *sgmlRenderer) renderImageBlock(ctx *context, img *types.ImageBlock) (st
 		Height      string
 	}{
 		ID:          r.renderElementID(img.Attributes),
-		Src:         src,
+		Src:         escapeURL(src),
 		Title:       title,
 		ImageNumber: number,
-		Caption:     caption.String(),
+		Caption:     escapeString(caption.String()),
 		Roles:       roles,
-		Href:        img.Attributes.GetAsStringWithDefault(types.AttrInlineLink, ""),
-		Alt:         alt,
-		Width:       img.Attributes.GetAsStringWithDefault(types.AttrWidth, ""),
-		Height:      img.Attributes.GetAsStringWithDefault(types.AttrHeight, ""),
+		Href:        escapeString(img.Attributes.GetAsStringWithDefault(types.AttrInlineLink, "")),
+		Alt:         escapeString(alt),
+		Width:       escapeString(img.Attributes.GetAsStringWithDefault(types.AttrWidth, "")),
+		Height:      escapeString(img.Attributes.GetAsStringWithDefault(types.AttrHeight, "")),
 	})
 }
 
@@ -86,7 +86,7 @@ func (r *sgmlRenderer) renderInlineImage(ctx *context, img *types.InlineImage) (
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render inline image")
 	}
-	title, err := r.renderElementTitle(ctx, img.Attributes)
+	title, err := renderPlainTextAttribute(img.Attributes, types.AttrTitle) // in an attribute of the `img` tag
 	if err != nil {
 		return "", errors.Wrap(err, "unable to render inline image roles")
 	}
@@ -99,13 +99,13 @@ func (r *sgmlRenderer) renderInlineImage(ctx *context, img *types.InlineImage) (
 		Width  string
 		Height string
 	}{
-		Src:    src,
-		Title:  title,
+		Src:    escapeURL(src),
+		Title:  escapeString(title),
 		Roles:  roles,
-		Href:   href,
-		Alt:    alt,
-		Width:  img.Attributes.GetAsStringWithDefault(types.AttrWidth, ""),
-		Height: img.Attributes.GetAsStringWithDefault(types.AttrHeight, ""),
+		Href:   escapeString(href),
+		Alt:    escapeString(alt),
+		Width:  escapeString(img.Attributes.GetAsStringWithDefault(types.AttrWidth, "")),
+		Height: escapeString(img.Attributes.GetAsStringWithDefault(types.AttrHeight, "")),
 	})
 }
 
@@ -132,8 +132,8 @@ func (r *sgmlRenderer) getImageSrc(ctx *context, location *types.Location) strin
 }
 
 func (r *sgmlRenderer) renderImageAlt(attrs types.Attributes, path string) (string, error) {
-	if alt, found := attrs.GetAsString(types.AttrImageAlt); found {
-		return alt, nil
+	if attrs.Has(types.AttrImageAlt) {
+		return renderPlainTextAttribute(attrs, types.AttrImageAlt)
 	}
 	u, err := url.Parse(path)
 	if err != nil {
@@ -146,3 +146,15 @@ func (r *sgmlRenderer) renderImageAlt(attrs types.Attributes, path string) (stri
 	result = strings.ReplaceAll(result, "_", " ")
 	return result, nil
 }
+
+// renderPlainTextAttribute renders the value of the given attribute without any markup
+func renderPlainTextAttribute(attrs types.Attributes, key string) (string, error) {
+	switch v := attrs[key].(type) {
+	case nil:
+		return "", nil
+	case string:
+		return v, nil
+	default:
+		return RenderPlainText(v)
+	}
+}
-- 
2.43.0


From 7c3637b2e4db16a8adc4327eab8da9c390297a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:33 +0000
Subject: [PATCH 077/108] fix: escape the details of the document

The doctype, description, authors, emails and revision were emitted as-is in the HTML head,
in the header and in the footer.
---
 pkg/renderer/sgml/document_details.go | 12 ++++++------
 pkg/renderer/sgml/sgml.go             | 14 +++++++++-----
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/pkg/renderer/sgml/document_details.go b/pkg/renderer/sgml/document_details.go
index 7761e9e..75eaadb 100644
--- a/pkg/renderer/sgml/document_details.go
+++ b/pkg/renderer/sgml/document_details.go
@@ -36,10 +36,10 @@ func (r *sgmlRenderer) renderDocumentDetails(ctx *context) (string, error) {
 		RevRemark string
 	}{
 		Authors:   authors,
-		RevLabel:  revLabel,
-		RevNumber: revNumber,
-		RevDate:   revDate,
-		RevRemark: revRemark,
+		RevLabel:  escapeString(revLabel),
+		RevNumber: escapeString(revNumber),
+		RevDate:   escapeString(revDate),
+		RevRemark: escapeString(revRemark),
 	}); err != nil {
 		return "", errors.Wrap(err, "error while rendering the document details")
 	}
@@ -78,8 +78,8 @@ func (r *sgmlRenderer) renderDocumentAuthorsDetails(ctx *context) (string, error
 				Email string
 			}{
 				Index: index,
-				Name:  author,
-				Email: email,
+				Name:  escapeString(author),
+				Email: escapeString(email),
 			}); err != nil {
 				return "", errors.Wrap(err, "error while rendering the document authors")
 			}
diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index 907667d..5d911cb 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -98,6 +98,10 @@ elements:
 		if err != nil {
 			return metadata, errors.Wrapf(err, "unable to render full document")
 		}
+		stylesheets := make([]string, len(ctx.config.CSS))
+		for i, css := range ctx.config.CSS {
+			stylesheets[i] = escapeURL(css)
+		}
 		err = tmpl.Execute(output, struct {
 			Doctype               string
 			Generator             string
@@ -114,18 +118,18 @@ elements:
 			IncludeHTMLBodyHeader bool
 			IncludeHTMLBodyFooter bool
 		}{
-			Doctype:               ctx.attributes.GetAsStringWithDefault(types.AttrDocType, "article"),
+			Doctype:               escapeString(ctx.attributes.GetAsStringWithDefault(types.AttrDocType, "article")),
 			Generator:             "libasciidoc", // TODO: externalize this value and include the lib version ?
-			Description:           ctx.attributes.GetAsStringWithDefault(types.AttrDescription, ""),
+			Description:           escapeString(ctx.attributes.GetAsStringWithDefault(types.AttrDescription, "")),
 			Title:                 renderedTitle,
-			Authors:               r.renderAuthors(ctx, doc),
+			Authors:               escapeString(r.renderAuthors(ctx, doc)),
 			Header:                renderedHeader,
 			Roles:                 roles,
 			ID:                    r.renderDocumentID(doc),
 			Content:               string(renderedContent),
-			RevNumber:             ctx.attributes.GetAsStringWithDefault("revnumber", ""),
+			RevNumber:             escapeString(ctx.attributes.GetAsStringWithDefault("revnumber", "")),
 			LastUpdated:           ctx.config.LastUpdated.Format(configuration.LastUpdatedFormat),
-			CSS:                   ctx.config.CSS,
+			CSS:                   stylesheets,
 			IncludeHTMLBodyHeader: !ctx.attributes.Has(types.AttrNoHeader),
 			IncludeHTMLBodyFooter: !ctx.attributes.Has(types.AttrNoFooter),
 		})
-- 
2.43.0


From 796a5bf00b53d93731d929a42da1d6d16b3b0195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:41 +0000
Subject: [PATCH 078/108] fix: escape the target of links

The `window` attribute was emitted as-is in the `target` attribute of the generated tag.
---
 pkg/renderer/sgml/link.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/link.go b/pkg/renderer/sgml/link.go
index 3ad8b69..e88d0c7 100644
--- a/pkg/renderer/sgml/link.go
+++ b/pkg/renderer/sgml/link.go
@@ -49,7 +49,7 @@ func (r *sgmlRenderer) renderLink(ctx *context, l *types.InlineLink) (string, er
 		URL:      htmlEscaper.Replace(l.Location.ToString()),
 		Text:     text,
 		Class:    class,
-		Target:   target,
+		Target:   escapeString(target),
 		NoOpener: noopener,
 	})
 }
-- 
2.43.0


From 9cf18cae512f6aa0aa52b28708065b9b315c496b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:49 +0000
Subject: [PATCH 079/108] fix: escape the labels of cross references

Labels made of a single string and default labels (ie: the ID or the location of the
referenced document) were emitted as-is.
---
 pkg/renderer/sgml/cross_reference.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/renderer/sgml/cross_reference.go b/pkg/renderer/sgml/cross_reference.go
index 179aa80..4bc65cc 100644
--- a/pkg/renderer/sgml/cross_reference.go
+++ b/pkg/renderer/sgml/cross_reference.go
@@ -22,7 +22,7 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 		return "", errors.Errorf("unable to process internal cross reference: invalid ID: '%v'", xref.ID)
 	}
 	if xrefLabel, ok := xref.Label.(string); ok {
-		label = xrefLabel
+		label = escapeString(xrefLabel)
 	} else if xrefLabel, ok := xref.Label.([]interface{}); ok {
 		var err error
 		if label, err = r.renderInlineElements(ctx, xrefLabel); err != nil {
@@ -31,7 +31,7 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 	} else if target, found := ctx.elementReferences[xrefID]; found {
 		switch t := target.(type) {
 		case string:
-			label = t
+			label = escapeString(t)
 		case []interface{}:
 			// render as usual except for links as plain text (since the cross reference is already displayed as a link)
 			buff := &strings.Builder{}
@@ -56,7 +56,7 @@ func (r *sgmlRenderer) renderInternalCrossReference(ctx *context, xref *types.In
 			return "", errors.Errorf("unable to process internal cross reference to element of type %T", target)
 		}
 	} else {
-		label = "[" + xrefID + "]"
+		label = "[" + escapeString(xrefID) + "]"
 	}
 	return r.execute(r.internalCrossReference, struct {
 		Href  string
@@ -73,13 +73,13 @@ func (r *sgmlRenderer) renderExternalCrossReference(ctx *context, xref *types.Ex
 	var err error
 	switch l := xref.Attributes[types.AttrXRefLabel].(type) {
 	case string:
-		label = l
+		label = escapeString(l)
 	case []interface{}:
 		if label, err = r.renderInlineElements(ctx, l); err != nil {
 			return "", err
 		}
 	default:
-		label = defaultXrefLabel(xref)
+		label = escapeString(defaultXrefLabel(xref))
 	}
 	return r.execute(r.externalCrossReference, struct {
 		Href  string
-- 
2.43.0


From 14b39966df58621792b3bea3216d804c49da73df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:33 +0000
Subject: [PATCH 080/108] fix: escape the attributes of tables and examples

The caption, and the frame, grid, float and stripes of tables were emitted as-is in the
generated tags.
---
 pkg/renderer/sgml/delimited_block_example.go |  2 +-
 pkg/renderer/sgml/table.go                   | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/renderer/sgml/delimited_block_example.go b/pkg/renderer/sgml/delimited_block_example.go
index 1380e47..405b078 100644
--- a/pkg/renderer/sgml/delimited_block_example.go
+++ b/pkg/renderer/sgml/delimited_block_example.go
@@ -53,7 +53,7 @@ func (r *sgmlRenderer) renderExampleBlock(ctx *context, b *types.DelimitedBlock)
 		Context:       ctx,
 		ID:            r.renderElementID(b.Attributes),
 		Title:         title,
-		Caption:       caption.String(),
+		Caption:       escapeString(caption.String()),
 		Roles:         roles,
 		ExampleNumber: number,
 		Content:       content,
diff --git a/pkg/renderer/sgml/table.go b/pkg/renderer/sgml/table.go
index 4173358..7fc638f 100644
--- a/pkg/renderer/sgml/table.go
+++ b/pkg/renderer/sgml/table.go
@@ -106,13 +106,13 @@ func (r *sgmlRenderer) renderTable(ctx *context, t *types.Table) (string, error)
 		Title:       title,
 		Columns:     columns,
 		TableNumber: number,
-		Caption:     caption.String(),
+		Caption:     escapeString(caption.String()),
 		Roles:       roles,
-		Frame:       frame,
-		Grid:        grid,
+		Frame:       escapeString(frame),
+		Grid:        escapeString(grid),
 		Fit:         fit,
-		Float:       float,
-		Stripes:     stripes,
+		Float:       escapeString(float),
+		Stripes:     escapeString(stripes),
 		Width:       width,
 		Header:      header,
 		Body:        body,
-- 
2.43.0


From 52314b6a703f47da8bb6a28d09f93b3872180310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:41 +0000
Subject: [PATCH 081/108] fix: escape the language of source blocks

The language, the name of the highlighter and the prefix of the classes were emitted as-is
in the attributes of the generated tags.
---
 pkg/renderer/sgml/delimited_block_source.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/renderer/sgml/delimited_block_source.go b/pkg/renderer/sgml/delimited_block_source.go
index 941da8f..65a7ceb 100644
--- a/pkg/renderer/sgml/delimited_block_source.go
+++ b/pkg/renderer/sgml/delimited_block_source.go
@@ -48,9 +48,9 @@ func (r *sgmlRenderer) renderSourceBlock(ctx *context, b *types.DelimitedBlock)
 	}{
 		ID:                r.renderElementID(b.Attributes),
 		Title:             title,
-		SyntaxHighlighter: highlighter,
+		SyntaxHighlighter: escapeString(highlighter),
 		Roles:             roles,
-		Language:          language,
+		Language:          escapeString(language),
 		Nowrap:            nowrap,
 		Content:           strings.Trim(content, "\n"),
 	})
@@ -98,7 +98,7 @@ func (r *sgmlRenderer) renderSourceBlockElements(ctx *context, b *types.Delimite
 		style = styles.Get(s)
 	}
 	options := []html.Option{
-		html.ClassPrefix(ctx.attributes.GetAsStringWithDefault(types.AttrChromaClassPrefix, "tok-")),
+		html.ClassPrefix(escapeString(ctx.attributes.GetAsStringWithDefault(types.AttrChromaClassPrefix, "tok-"))),
 		html.PreventSurroundingPre(true),
 	}
 	// extra option: inline CSS instead of classes
-- 
2.43.0


From 17fa4ae2d5d38287183a6350aa5f37af534a593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:50 +0000
Subject: [PATCH 082/108] fix: escape the titles, kinds, styles and
 attributions of blocks

Values made of a single string were emitted as-is in the output.
---
 pkg/renderer/sgml/attribution.go                | 6 +++---
 pkg/renderer/sgml/delimited_block_admonition.go | 4 ++--
 pkg/renderer/sgml/list.go                       | 4 ++--
 pkg/renderer/sgml/paragraph.go                  | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/pkg/renderer/sgml/attribution.go b/pkg/renderer/sgml/attribution.go
index 2727b6f..c1c7a51 100644
--- a/pkg/renderer/sgml/attribution.go
+++ b/pkg/renderer/sgml/attribution.go
@@ -11,12 +11,12 @@ type Attribution struct { // TODO: unexport this type?
 func newAttribution(b types.WithAttributes) Attribution {
 	result := Attribution{}
 	if author, found := b.GetAttributes().GetAsString(types.AttrQuoteAuthor); found {
-		result.First = author
+		result.First = escapeString(author)
 		if title, found := b.GetAttributes().GetAsString(types.AttrQuoteTitle); found {
-			result.Second = title
+			result.Second = escapeString(title)
 		}
 	} else if title, found := b.GetAttributes().GetAsString(types.AttrQuoteTitle); found {
-		result.First = title
+		result.First = escapeString(title)
 	}
 	return result
 }
diff --git a/pkg/renderer/sgml/delimited_block_admonition.go b/pkg/renderer/sgml/delimited_block_admonition.go
index 55770a2..5c09448 100644
--- a/pkg/renderer/sgml/delimited_block_admonition.go
+++ b/pkg/renderer/sgml/delimited_block_admonition.go
@@ -39,7 +39,7 @@ func (r *sgmlRenderer) renderAdmonitionBlock(ctx *context, b *types.DelimitedBlo
 	}{
 		Context: ctx,
 		ID:      r.renderElementID(b.Attributes),
-		Kind:    kind,
+		Kind:    escapeString(kind),
 		Roles:   roles,
 		Title:   title,
 		Icon:    icon,
@@ -82,7 +82,7 @@ func (r *sgmlRenderer) renderAdmonitionParagraph(ctx *context, p *types.Paragrap
 		Context: ctx,
 		ID:      r.renderElementID(p.Attributes),
 		Title:   title,
-		Kind:    kind,
+		Kind:    escapeString(kind),
 		Roles:   roles,
 		Icon:    icon,
 		Content: content,
diff --git a/pkg/renderer/sgml/list.go b/pkg/renderer/sgml/list.go
index d631ca2..fd90287 100644
--- a/pkg/renderer/sgml/list.go
+++ b/pkg/renderer/sgml/list.go
@@ -66,9 +66,9 @@ func (r *sgmlRenderer) renderOrderedList(ctx *context, l *types.List) (string, e
 		ID:        r.renderElementID(l.Attributes),
 		Title:     title,
 		Roles:     roles,
-		Style:     style,
+		Style:     escapeString(style),
 		ListStyle: r.numberingType(style),
-		Start:     l.Attributes.GetAsStringWithDefault(types.AttrStart, ""),
+		Start:     escapeString(l.Attributes.GetAsStringWithDefault(types.AttrStart, "")),
 		Content:   content.String(),
 		Reversed:  l.Attributes.HasOption("reversed"),
 	})
diff --git a/pkg/renderer/sgml/paragraph.go b/pkg/renderer/sgml/paragraph.go
index f4cdb91..43b2d76 100644
--- a/pkg/renderer/sgml/paragraph.go
+++ b/pkg/renderer/sgml/paragraph.go
@@ -150,7 +150,7 @@ func (r *sgmlRenderer) renderElementTitle(ctx *context, attrs types.Attributes)
 	}
 	switch title := title.(type) {
 	case string:
-		return title, nil
+		return escapeString(title), nil
 	case []interface{}:
 		return r.renderElements(ctx, title)
 	default:
-- 
2.43.0


From 6ac97139c886c3ce3e62cf2f59e2539e8504062e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:00 +0000
Subject: [PATCH 083/108] fix: escape the labels of buttons, menus and
 references to footnotes

The values were emitted as-is in the output.
---
 pkg/renderer/sgml/footnote_reference.go | 8 ++++----
 pkg/renderer/sgml/inline_button.go      | 6 +++++-
 pkg/renderer/sgml/inline_menu.go        | 6 +++++-
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pkg/renderer/sgml/footnote_reference.go b/pkg/renderer/sgml/footnote_reference.go
index ef0796f..78d5f12 100644
--- a/pkg/renderer/sgml/footnote_reference.go
+++ b/pkg/renderer/sgml/footnote_reference.go
@@ -20,7 +20,7 @@ func (r *sgmlRenderer) renderFootnoteReference(note *types.FootnoteReference) (s
 			Ref string
 		}{
 			ID:  note.ID,
-			Ref: note.Ref,
+			Ref: escapeString(note.Ref),
 		}); err != nil {
 			return "", errors.Wrap(err, "unable to render footnote")
 		}
@@ -35,7 +35,7 @@ func (r *sgmlRenderer) renderFootnoteReference(note *types.FootnoteReference) (s
 			Ref string
 		}{
 			ID:  note.ID,
-			Ref: note.Ref,
+			Ref: escapeString(note.Ref),
 		}); err != nil {
 			return "", errors.Wrap(err, "unable to render footnote")
 		}
@@ -48,7 +48,7 @@ func (r *sgmlRenderer) renderFootnoteReference(note *types.FootnoteReference) (s
 		if err := tmpl.Execute(result, struct {
 			Ref string
 		}{
-			Ref: note.Ref,
+			Ref: escapeString(note.Ref),
 		}); err != nil {
 			return "", errors.Wrap(err, "unable to render missing footnote")
 		}
@@ -96,7 +96,7 @@ func (r *sgmlRenderer) renderFootnoteElement(ctx *context, note *types.Footnote)
 	}{
 		Context: ctx,
 		ID:      note.ID,
-		Ref:     note.Ref,
+		Ref:     escapeString(note.Ref),
 		Content: string(content),
 	})
 }
diff --git a/pkg/renderer/sgml/inline_button.go b/pkg/renderer/sgml/inline_button.go
index cc6a677..72926a3 100644
--- a/pkg/renderer/sgml/inline_button.go
+++ b/pkg/renderer/sgml/inline_button.go
@@ -13,7 +13,11 @@ func (r *sgmlRenderer) renderInlineButton(b *types.InlineButton) (string, error)
 	if err != nil {
 		return "", errors.Wrap(err, "unable to load inline button template")
 	}
-	if err = tmpl.Execute(result, b.Attributes[types.AttrButtonLabel]); err != nil {
+	label, err := renderPlainTextAttribute(b.Attributes, types.AttrButtonLabel)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render inline button label")
+	}
+	if err = tmpl.Execute(result, escapeString(label)); err != nil {
 		return "", errors.Wrap(err, "unable to render inline button")
 	}
 	return result.String(), nil
diff --git a/pkg/renderer/sgml/inline_menu.go b/pkg/renderer/sgml/inline_menu.go
index 4998d54..953aa38 100644
--- a/pkg/renderer/sgml/inline_menu.go
+++ b/pkg/renderer/sgml/inline_menu.go
@@ -5,9 +5,13 @@ import (
 )
 
 func (r *sgmlRenderer) renderInlineMenu(m *types.InlineMenu) (string, error) {
+	path := make([]string, len(m.Path))
+	for i, p := range m.Path {
+		path[i] = escapeString(p)
+	}
 	return r.execute(r.inlineMenu, struct {
 		Path []string
 	}{
-		Path: m.Path,
+		Path: path,
 	})
 }
-- 
2.43.0


From 155b1a9d3d927a38683b7bdb15bb5172e01588e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:42 +0000
Subject: [PATCH 084/108] fix: escape the title of the table of contents

A title set by the caller was emitted as-is.
---
 pkg/renderer/sgml/table_of_contents.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/table_of_contents.go b/pkg/renderer/sgml/table_of_contents.go
index 03e9aee..264fe71 100644
--- a/pkg/renderer/sgml/table_of_contents.go
+++ b/pkg/renderer/sgml/table_of_contents.go
@@ -105,7 +105,7 @@ func (r *sgmlRenderer) renderTableOfContentsTitle(ctx *context) (string, error)
 	case nil:
 		return "", nil // attribute without value
 	case string:
-		return title, nil
+		return escapeString(title), nil
 	case []interface{}:
 		return r.renderElements(ctx, title)
 	default:
-- 
2.43.0


From 756c7086b9a8972a791d2a8e36ef27d2a3fb00a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:50 +0000
Subject: [PATCH 085/108] fix: escape the source of unknown macros

The source of a macro which is not registered was emitted as-is.
---
 pkg/renderer/sgml/user_macro.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/renderer/sgml/user_macro.go b/pkg/renderer/sgml/user_macro.go
index 5ddd687..a69b52a 100644
--- a/pkg/renderer/sgml/user_macro.go
+++ b/pkg/renderer/sgml/user_macro.go
@@ -13,12 +13,12 @@ func (r *sgmlRenderer) renderUserMacro(ctx *context, m *types.UserMacro) (string
 		if m.Kind == types.BlockMacro {
 			// fallback to paragraph
 			p, _ := types.NewParagraph(
-				&types.StringElement{Content: m.RawText},
+				&types.StringElement{Content: escapeString(m.RawText)},
 			)
 			return r.renderParagraph(ctx, p)
 		}
 		// fallback to render raw text
-		return m.RawText, nil
+		return escapeString(m.RawText), nil
 	}
 	if err := macro.Execute(buf, m); err != nil {
 		return "", err
-- 
2.43.0


From c5fed7d1e0e5fccf157c001acf80310024f77148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:43 +0000
Subject: [PATCH 086/108] fix: escape the labels and locations in plain texts

The locations of links, the IDs and labels of cross references and the alternate texts of
images were emitted as-is in the title of the HTML document.
---
 pkg/renderer/sgml/render_plain_text.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pkg/renderer/sgml/render_plain_text.go b/pkg/renderer/sgml/render_plain_text.go
index 8ac85b7..3d2837d 100644
--- a/pkg/renderer/sgml/render_plain_text.go
+++ b/pkg/renderer/sgml/render_plain_text.go
@@ -62,9 +62,9 @@ func (r *plaintextRenderer) render(element interface{}) (string, error) {
 	case *types.QuotedText:
 		return r.render(e.Elements)
 	case *types.Icon:
-		return e.Attributes.GetAsStringWithDefault(types.AttrImageAlt, ""), nil
+		return r.escape(e.Attributes.GetAsStringWithDefault(types.AttrImageAlt, "")), nil
 	case *types.InlineImage:
-		return e.Attributes.GetAsStringWithDefault(types.AttrImageAlt, ""), nil
+		return r.escape(e.Attributes.GetAsStringWithDefault(types.AttrImageAlt, "")), nil
 	case *types.InlineLink:
 		return r.renderInlineLink(e)
 	case *types.BlankLine, types.ThematicBreak:
@@ -78,9 +78,9 @@ func (r *plaintextRenderer) render(element interface{}) (string, error) {
 	case *types.StringElement:
 		return e.Content, nil
 	case string:
-		return e, nil
+		return r.escape(e), nil
 	case nil, bool, int, int64, uint64, float64, time.Time, map[interface{}]interface{}:
-		return fmt.Sprint(e), nil // values of the front-matter
+		return r.escape(fmt.Sprint(e)), nil // values of the front-matter
 	case *types.FootnoteReference:
 		return r.renderFootnoteReference(e)
 	case *types.InlinePassthrough:
@@ -141,7 +141,7 @@ func (r *plaintextRenderer) renderSymbol(s *types.Symbol) (string, error) {
 	if v, found := symbols[s.Name]; found {
 		return v, nil
 	}
-	return s.Name, nil
+	return r.escape(s.Name), nil
 }
 
 func (r *plaintextRenderer) renderInlineLink(l *types.InlineLink) (string, error) {
@@ -149,31 +149,31 @@ func (r *plaintextRenderer) renderInlineLink(l *types.InlineLink) (string, error
 	case []interface{}:
 		return r.render(alt)
 	case string:
-		return alt, nil
+		return r.escape(alt), nil
 	default:
-		return l.Location.ToDisplayString(), nil
+		return r.escape(l.Location.ToDisplayString()), nil
 	}
 }
 
 func (r *plaintextRenderer) renderInternalCrossReference(xref *types.InternalCrossReference) (string, error) {
 	switch label := xref.Label.(type) {
 	case string:
-		return label, nil
+		return r.escape(label), nil
 	case []interface{}:
 		return r.render(label)
 	default:
-		return fmt.Sprintf("[%s]", xref.ID), nil
+		return r.escape(fmt.Sprintf("[%s]", xref.ID)), nil
 	}
 }
 
 func (r *plaintextRenderer) renderExternalCrossReference(xref *types.ExternalCrossReference) (string, error) {
 	switch label := xref.Attributes[types.AttrXRefLabel].(type) {
 	case string:
-		return label, nil
+		return r.escape(label), nil
 	case []interface{}:
 		return r.render(label)
 	default:
-		return defaultXrefLabel(xref), nil
+		return r.escape(defaultXrefLabel(xref)), nil
 	}
 }
 
-- 
2.43.0


From 8752c85f3fb9d0669e990848353c1d4c9d9a4111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:21 +0000
Subject: [PATCH 087/108] fix: render the roles of inline icons

The roles were rendered as the list of values between brackets.
---
 pkg/renderer/sgml/icon.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/renderer/sgml/icon.go b/pkg/renderer/sgml/icon.go
index 2ab8066..9a205e7 100644
--- a/pkg/renderer/sgml/icon.go
+++ b/pkg/renderer/sgml/icon.go
@@ -18,6 +18,10 @@ func (r *sgmlRenderer) renderInlineIcon(ctx *context, icon *types.Icon) (string,
 	if err != nil {
 		return "", err
 	}
+	roles, err := r.renderElementRoles(ctx, icon.Attributes)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render icon roles")
+	}
 	return r.execute(r.inlineIcon, struct {
 		Class  string
 		Role   string
@@ -31,7 +35,7 @@ func (r *sgmlRenderer) renderInlineIcon(ctx *context, icon *types.Icon) (string,
 		ID:     r.renderElementID(icon.Attributes),
 		Link:   escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrInlineLink, "")),
 		Window: escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrImageWindow, "")),
-		Role:   escapeString(icon.Attributes.GetAsStringWithDefault(types.AttrRoles, "")),
+		Role:   roles,
 	})
 }
 
-- 
2.43.0


From e17a3b1f96d315c8574675357704f8b4791e3d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:02 +0000
Subject: [PATCH 088/108] fix: accept references to attributes in footnotes

A document with a reference to an attribute in a footnote was refused
("unsupported type of element: *types.AttributeReference").
---
 pkg/parser/document_processing_apply_substitutions.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 0d62c15..2a935bd 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -480,6 +480,12 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 			elements[i] = &types.StringElement{
 				Content: v,
 			}
+		case *types.Footnote:
+			elmts, err := replaceAttributeRefsInElementsAndReparse(ctx, e.Elements, subs, opts...)
+			if err != nil {
+				return nil, err
+			}
+			e.Elements = elmts
 		case types.WithElements: // if `subs=macros,attributes`, then replace within inline macros
 			// in attributes
 			if err := replaceAttributeRefsInAttributeValues(ctx, e.GetAttributes()); err != nil {
-- 
2.43.0


From 957111099274ed1948560574c716498216168f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:10 +0000
Subject: [PATCH 089/108] fix: accept references to attributes in the labels of
 cross references

A document with a reference to an attribute in the label of an internal cross
reference was refused ("unsupported type of element: *types.AttributeReference").
---
 pkg/parser/document_processing_apply_substitutions.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 2a935bd..51bee96 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -486,6 +486,14 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 				return nil, err
 			}
 			e.Elements = elmts
+		case *types.InternalCrossReference:
+			if label, ok := e.Label.([]interface{}); ok {
+				label, err := replaceAttributeRefsInElements(ctx, label) // no need to reparse the label
+				if err != nil {
+					return nil, err
+				}
+				e.Label = types.Reduce(label)
+			}
 		case types.WithElements: // if `subs=macros,attributes`, then replace within inline macros
 			// in attributes
 			if err := replaceAttributeRefsInAttributeValues(ctx, e.GetAttributes()); err != nil {
-- 
2.43.0


From cc4ebe64b87259d760ef17fc5f0824b8498650ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:21 +0000
Subject: [PATCH 090/108] fix: accept references to attributes in the labels of
 buttons

A document with a reference to an attribute in the label of a button was
refused ("unable to render plain string for element of type
'*types.AttributeReference'").
---
 pkg/parser/document_processing_apply_substitutions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 51bee96..fae24d5 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -494,6 +494,10 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 				}
 				e.Label = types.Reduce(label)
 			}
+		case *types.InlineButton:
+			if err := replaceAttributeRefsInAttributeValues(ctx, e.Attributes); err != nil {
+				return nil, err
+			}
 		case types.WithElements: // if `subs=macros,attributes`, then replace within inline macros
 			// in attributes
 			if err := replaceAttributeRefsInAttributeValues(ctx, e.GetAttributes()); err != nil {
-- 
2.43.0


From 6459b5d150f2c37d80c2f3606e31afc2552d4db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:50 +0000
Subject: [PATCH 091/108] fix: replace references to attributes in user macros

The template of a user macro got the unresolved reference to an attribute
instead of its value in the attributes of the macro.
---
 pkg/parser/document_processing_apply_substitutions.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index fae24d5..5fcb6e6 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -77,6 +77,8 @@ func applySubstitutionsOnElement(ctx *ParseContext, element interface{}, opts ..
 		return applySubstitutionsOnTable(ctx, b, opts...)
 	case *types.ListContinuation:
 		return applySubstitutionsOnElement(ctx, b.Element, opts...)
+	case *types.UserMacro:
+		return replaceAttributeRefsInAttributeValues(ctx, b.Attributes)
 	case types.WithElements:
 		return applySubstitutionsOnWithElements(ctx, b, opts...)
 	case types.WithLocation:
@@ -498,6 +500,10 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 			if err := replaceAttributeRefsInAttributeValues(ctx, e.Attributes); err != nil {
 				return nil, err
 			}
+		case *types.UserMacro:
+			if err := replaceAttributeRefsInAttributeValues(ctx, e.Attributes); err != nil {
+				return nil, err
+			}
 		case types.WithElements: // if `subs=macros,attributes`, then replace within inline macros
 			// in attributes
 			if err := replaceAttributeRefsInAttributeValues(ctx, e.GetAttributes()); err != nil {
-- 
2.43.0


From 50e54b4dbe94241e27d1e4ff898703b81c2ab362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:59 +0000
Subject: [PATCH 092/108] fix: arrange lists in delimited blocks attached to
 list elements

A document with a list in a delimited block attached to a list element was
refused ("unsupported type of element: *types.ListElements").
---
 pkg/parser/document_processing_arrange_lists.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/parser/document_processing_arrange_lists.go b/pkg/parser/document_processing_arrange_lists.go
index 06681a6..e433106 100644
--- a/pkg/parser/document_processing_arrange_lists.go
+++ b/pkg/parser/document_processing_arrange_lists.go
@@ -60,6 +60,14 @@ func arrangeListElements(elements []interface{}) ([]interface{}, error) {
 			result = append(result, e)
 		case *types.ListElements:
 			log.Debug("arranging list elements in ListElements")
+			for _, e := range e.Elements {
+				// lists in the blocks attached to the list elements
+				if c, ok := e.(*types.ListContinuation); ok {
+					if _, err := arrangeListElements([]interface{}{c.Element}); err != nil {
+						return nil, err
+					}
+				}
+			}
 			l, err := doArrangeListElements(e.Elements)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 2efc416ae9756ab4ab6db3a82b6a431ee2dd5af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:10 +0000
Subject: [PATCH 093/108] fix: parse the content of delimited blocks in table
 cells

A document with a delimited block in a table cell (of style `a`) was refused
("unsupported type of element: *types.RawLine").
---
 pkg/parser/document_processing_refine_fragments.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/parser/document_processing_refine_fragments.go b/pkg/parser/document_processing_refine_fragments.go
index 77bcea2..f08685f 100644
--- a/pkg/parser/document_processing_refine_fragments.go
+++ b/pkg/parser/document_processing_refine_fragments.go
@@ -110,6 +110,11 @@ func reparseTableCell(ctx *ParseContext, c *types.TableCell) error {
 			return err
 		}
 		c.Elements = elements
+		for _, e := range c.Elements {
+			if err := refineElement(ctx, e); err != nil {
+				return err
+			}
+		}
 	default:
 		// wrap in a paragraph
 		c.Elements = []interface{}{
-- 
2.43.0


From a54fbead375c34fcade956d100b18cad829abcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:22 +0000
Subject: [PATCH 094/108] fix: arrange lists in table cells

A document with a list in a table cell (of style `a`) was refused
("unsupported type of element: *types.ListElements").
---
 .../document_processing_arrange_lists.go      | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/pkg/parser/document_processing_arrange_lists.go b/pkg/parser/document_processing_arrange_lists.go
index e433106..62dbd4b 100644
--- a/pkg/parser/document_processing_arrange_lists.go
+++ b/pkg/parser/document_processing_arrange_lists.go
@@ -58,6 +58,11 @@ func arrangeListElements(elements []interface{}) ([]interface{}, error) {
 				return nil, err
 			}
 			result = append(result, e)
+		case *types.Table:
+			if err := arrangeListElementsInTable(e); err != nil {
+				return nil, err
+			}
+			result = append(result, e)
 		case *types.ListElements:
 			log.Debug("arranging list elements in ListElements")
 			for _, e := range e.Elements {
@@ -83,6 +88,25 @@ func arrangeListElements(elements []interface{}) ([]interface{}, error) {
 	return result, nil
 }
 
+func arrangeListElementsInTable(t *types.Table) error {
+	rows := t.Rows
+	if t.Header != nil {
+		rows = append([]*types.TableRow{t.Header}, rows...)
+	}
+	if t.Footer != nil {
+		rows = append([]*types.TableRow{t.Footer}, rows...)
+	}
+	for _, r := range rows {
+		for _, c := range r.Cells {
+			var err error
+			if c.Elements, err = arrangeListElements(c.Elements); err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
 func doArrangeListElements(elements []interface{}) (interface{}, error) {
 	lists := newListStack() // so we can support delimited blocks in list elements, etc.
 
-- 
2.43.0


From 1bb566b61e321885a0d453c177b6a25d6523009e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:55 +0000
Subject: [PATCH 095/108] fix: render labeled lists with any style

A document with a labeled list whose style is not a layout (eg: `[loweralpha]`)
was refused ("unsupported labeled list layout"). The default layout applies.
---
 pkg/renderer/sgml/list.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pkg/renderer/sgml/list.go b/pkg/renderer/sgml/list.go
index fd90287..fa2af7a 100644
--- a/pkg/renderer/sgml/list.go
+++ b/pkg/renderer/sgml/list.go
@@ -266,8 +266,6 @@ func (r *sgmlRenderer) getLabeledListTmpl(l *types.List) (*texttemplate.Template
 				return nil, nil, errors.Wrap(err, "unable to load horizontal list element template")
 			}
 			return listTmpl, listElementTmpl, nil
-		default:
-			return nil, nil, errors.Errorf("unsupported labeled list layout: %s", layout)
 		}
 	}
 	listTmpl, err := r.labeledList()
-- 
2.43.0


From fd0f7bed249dc7002c2ea946b285591f9630dc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:06 +0000
Subject: [PATCH 096/108] fix: render quote blocks with any style

A document with a quote block whose style is not a kind of block (eg: `[stem]`)
was refused ("unsupported kind of delimited block").
---
 pkg/types/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/types/types.go b/pkg/types/types.go
index b507455..0d194ce 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2452,8 +2452,8 @@ func (b *DelimitedBlock) mapAttributes() {
 			AttrPositional2: AttrQuoteAuthor,
 			AttrPositional3: AttrQuoteTitle,
 		})
-		// override the `kind` with `style` attribute (if exists)
-		if style, exists := b.Attributes[AttrStyle].(string); exists {
+		// override the `kind` if the `style` attribute is `verse`
+		if style, exists := b.Attributes[AttrStyle].(string); exists && style == Verse {
 			b.Kind = style
 		}
 	case Example:
-- 
2.43.0


From 90b5c2857cfdaf4fdb9f6b941056b4703782cc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:17 +0000
Subject: [PATCH 097/108] fix: accept any position of the table of contents

A document with `:toc: left` (or any other position than `preamble`) was
refused ("unsupported table of contents placement").
---
 pkg/renderer/sgml/sgml.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/renderer/sgml/sgml.go b/pkg/renderer/sgml/sgml.go
index 5d911cb..90fdef4 100644
--- a/pkg/renderer/sgml/sgml.go
+++ b/pkg/renderer/sgml/sgml.go
@@ -1,7 +1,6 @@
 package sgml
 
 import (
-	"fmt"
 	"io"
 	"path/filepath"
 	"strconv"
@@ -433,13 +432,11 @@ func (r *sgmlRenderer) renderDocumentBody(ctx *context, source []interface{}, to
 			} else {
 				elements = source
 			}
-		case "", nil:
+		default: // the positions on a side of the page (eg: `left`) apply to the stylesheet
 			log.Debug("inserting ToC as first element")
 			elements = make([]interface{}, len(source)+1)
 			elements[0] = toc
 			copy(elements[1:], source)
-		default:
-			return "", fmt.Errorf("unsupported table of contents placement: '%s'", placement)
 		}
 	} else {
 		log.Debug("not inserting ToC")
-- 
2.43.0


From 7fc715a3636c8a9ae78ac60d0df0a96c54932942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:59 +0000
Subject: [PATCH 098/108] fix: accept any kind of icons

A document with an admonition or an icon and another value of the `icons`
attribute than `font`, `text` and `image` was refused ("unsupported icon type").
---
 pkg/renderer/sgml/icon.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/renderer/sgml/icon.go b/pkg/renderer/sgml/icon.go
index 9a205e7..14edeb0 100644
--- a/pkg/renderer/sgml/icon.go
+++ b/pkg/renderer/sgml/icon.go
@@ -1,7 +1,6 @@
 package sgml
 
 import (
-	fmt "fmt"
 	"path"
 	"strings"
 	texttemplate "text/template"
@@ -58,10 +57,8 @@ func (r *sgmlRenderer) renderIcon(ctx *context, icon types.Icon, admonition bool
 		tmpl, err = r.iconFont()
 	case "text":
 		tmpl, err = r.iconText()
-	case "image", "":
-		tmpl, err = r.iconImage()
 	default:
-		return "", fmt.Errorf("unsupported icon type %s", icons)
+		tmpl, err = r.iconImage()
 	}
 	if err != nil {
 		return "", errors.Wrap(err, "unable to load icon template")
-- 
2.43.0


From bd322db984cbc236bf7769115d2703a7909a4fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:17 +0000
Subject: [PATCH 099/108] fix: parse the attributes of nested blocks with their
 own rules

The options of the enclosing block (including its grammar rule) overrode the rule
for the titles and table columns: a list with a reference to an unknown attribute
in its title was refused ("unsupported type of element:
*types.AttributeReference"), and the columns of a table in a delimited block were
ignored.
---
 pkg/parser/document_processing_apply_substitutions.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 5fcb6e6..d567d37 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -279,14 +279,14 @@ func reparseAttributes(ctx *ParseContext, element types.WithAttributes, opts ...
 			if err := subs.append(Macros); err != nil {
 				return err
 			}
-			v, err := parseWithSubstitutions(v, subs, append(append(ctx.opts, Entrypoint("AttributeStructuredValue")), opts...)...)
+			v, err := parseWithSubstitutions(v, subs, append(append(ctx.opts, opts...), Entrypoint("AttributeStructuredValue"))...)
 			if err != nil {
 				return err
 			}
 			attrs[k] = types.Reduce(v)
 		case types.AttrInlineLinkText:
 			subs := attributeSubstitutions()
-			v, err := parseWithSubstitutions(v, subs, append(append(ctx.opts, Entrypoint("AttributeStructuredValue")), opts...)...)
+			v, err := parseWithSubstitutions(v, subs, append(append(ctx.opts, opts...), Entrypoint("AttributeStructuredValue"))...)
 			if err != nil {
 				return err
 			}
@@ -296,7 +296,7 @@ func reparseAttributes(ctx *ParseContext, element types.WithAttributes, opts ...
 			if err != nil {
 				return err
 			}
-			v, err := parseWithSubstitutions(s, attributeSubstitutions(), append(append(ctx.opts, Entrypoint("TableColumnsAttribute")), opts...)...)
+			v, err := parseWithSubstitutions(s, attributeSubstitutions(), append(append(ctx.opts, opts...), Entrypoint("TableColumnsAttribute"))...)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 6122ba62f1d4ad86b3d21f1b3664cb4e8db47ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:39 +0000
Subject: [PATCH 100/108] fix: accept references to unknown attributes in the
 macros of titles

A document with a reference to an unknown attribute in a macro (eg:
`image:a.png[{unknown}]`) of a block title was refused ("unsupported type of
element: *types.AttributeReference").
---
 ...document_processing_apply_substitutions.go | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index d567d37..fcf469e 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -279,18 +279,18 @@ func reparseAttributes(ctx *ParseContext, element types.WithAttributes, opts ...
 			if err := subs.append(Macros); err != nil {
 				return err
 			}
-			v, err := parseWithSubstitutions(v, subs, append(append(ctx.opts, opts...), Entrypoint("AttributeStructuredValue"))...)
+			v, err := reparseAttributeValue(ctx, v, subs, opts...)
 			if err != nil {
 				return err
 			}
-			attrs[k] = types.Reduce(v)
+			attrs[k] = v
 		case types.AttrInlineLinkText:
 			subs := attributeSubstitutions()
-			v, err := parseWithSubstitutions(v, subs, append(append(ctx.opts, opts...), Entrypoint("AttributeStructuredValue"))...)
+			v, err := reparseAttributeValue(ctx, v, subs, opts...)
 			if err != nil {
 				return err
 			}
-			attrs[k] = types.Reduce(v)
+			attrs[k] = v
 		case types.AttrCols:
 			s, err := serializePlainText(v) // TODO: call sgml.RenderPlainText?
 			if err != nil {
@@ -314,22 +314,22 @@ func reparseInlineAttributes(ctx *ParseContext, element types.WithAttributes, su
 	for k, v := range attrs {
 		switch k {
 		case types.AttrTitle, types.AttrXRefLabel:
-			v, err := parseWithSubstitutions(v, subs, append(append(ctx.opts, opts...), Entrypoint("AttributeStructuredValue"))...)
+			v, err := reparseAttributeValue(ctx, v, subs, opts...)
 			if err != nil {
 				return err
 			}
-			attrs[k] = types.Reduce(v)
+			attrs[k] = v
 		case types.AttrInlineLinkText:
 			// same as above, but do not allow for inline macros (eg: links)
 			subs := subs.clone() // do not alter the substitutions of the other attributes
 			if err := subs.remove(Macros); err != nil {
 				return err
 			}
-			v, err := parseWithSubstitutions(v, subs, append(append(ctx.opts, opts...), Entrypoint("AttributeStructuredValue"))...)
+			v, err := reparseAttributeValue(ctx, v, subs, opts...)
 			if err != nil {
 				return err
 			}
-			attrs[k] = types.Reduce(v)
+			attrs[k] = v
 		default:
 			attrs[k] = v
 		}
@@ -348,6 +348,18 @@ func reparseInlineAttributes(ctx *ParseContext, element types.WithAttributes, su
 	return nil
 }
 
+func reparseAttributeValue(ctx *ParseContext, value interface{}, subs *substitutions, opts ...Option) (interface{}, error) {
+	elements, err := parseWithSubstitutions(value, subs, append(append(ctx.opts, opts...), Entrypoint("AttributeStructuredValue"))...)
+	if err != nil {
+		return nil, err
+	}
+	// also, replace the attribute refs within the inline macros
+	if elements, err = replaceAttributeRefsInElementsAndReparse(ctx, elements, nil); err != nil {
+		return nil, err
+	}
+	return types.Reduce(elements), nil
+}
+
 func replaceAttributeRefsInAttributeValues(ctx *ParseContext, attrs types.Attributes) error {
 	var err error
 	for k, v := range attrs {
-- 
2.43.0


From 03101677be720474442602fa440c437e0ead06b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:50 +0000
Subject: [PATCH 101/108] fix: render any content in the header and footer of a
 table

A document with a table whose header or footer has a cell of style `a` with
blocks was refused ("invalid header content (expected a single paragraph)").
---
 pkg/renderer/sgml/table.go | 65 ++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 34 deletions(-)

diff --git a/pkg/renderer/sgml/table.go b/pkg/renderer/sgml/table.go
index 7fc638f..195f524 100644
--- a/pkg/renderer/sgml/table.go
+++ b/pkg/renderer/sgml/table.go
@@ -1,7 +1,6 @@
 package sgml
 
 import (
-	"fmt"
 	"strconv"
 	"strings"
 
@@ -142,25 +141,19 @@ func (r *sgmlRenderer) renderTableHeader(ctx *context, h *types.TableRow, cols [
 }
 
 func (r *sgmlRenderer) renderTableHeaderCell(ctx *context, c *types.TableCell, col *types.TableColumn) (string, error) {
-	// assume that elements to render are within the first element of the cell, which should be a paragraph
-	if len(c.Elements) == 1 {
-		if p, ok := c.Elements[0].(*types.Paragraph); ok {
-			content, err := r.renderInlineElements(ctx, p.Elements)
-			if err != nil {
-				return "", errors.Wrap(err, "unable to render header cell")
-			}
-			return r.execute(r.tableHeaderCell, struct {
-				HAlign  types.HAlign
-				VAlign  types.VAlign
-				Content string
-			}{
-				HAlign:  col.HAlign,
-				VAlign:  col.VAlign,
-				Content: content,
-			})
-		}
+	content, err := r.renderTableCellContent(ctx, c)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render header cell")
 	}
-	return "", fmt.Errorf("invalid header content (expected a single paragraph)")
+	return r.execute(r.tableHeaderCell, struct {
+		HAlign  types.HAlign
+		VAlign  types.VAlign
+		Content string
+	}{
+		HAlign:  col.HAlign,
+		VAlign:  col.VAlign,
+		Content: content,
+	})
 }
 
 func (r *sgmlRenderer) renderTableFooter(ctx *context, f *types.TableRow, cols []*types.TableColumn) (string, error) {
@@ -189,25 +182,29 @@ func (r *sgmlRenderer) renderTableFooter(ctx *context, f *types.TableRow, cols [
 }
 
 func (r *sgmlRenderer) renderTableFooterCell(ctx *context, c *types.TableCell, col *types.TableColumn) (string, error) {
-	// assume that elements to render are within the first element of the cell, which should be a paragraph
+	content, err := r.renderTableCellContent(ctx, c)
+	if err != nil {
+		return "", errors.Wrap(err, "unable to render footer cell")
+	}
+	return r.execute(r.tableFooterCell, struct {
+		HAlign  types.HAlign
+		VAlign  types.VAlign
+		Content string
+	}{
+		HAlign:  col.HAlign,
+		VAlign:  col.VAlign,
+		Content: content,
+	})
+}
+
+// renders the content of a cell in the header or in the footer
+func (r *sgmlRenderer) renderTableCellContent(ctx *context, c *types.TableCell) (string, error) {
 	if len(c.Elements) == 1 {
 		if p, ok := c.Elements[0].(*types.Paragraph); ok {
-			content, err := r.renderInlineElements(ctx, p.Elements)
-			if err != nil {
-				return "", errors.Wrap(err, "unable to render footer cell")
-			}
-			return r.execute(r.tableFooterCell, struct {
-				HAlign  types.HAlign
-				VAlign  types.VAlign
-				Content string
-			}{
-				HAlign:  col.HAlign,
-				VAlign:  col.VAlign,
-				Content: content,
-			})
+			return r.renderInlineElements(ctx, p.Elements)
 		}
 	}
-	return "", fmt.Errorf("invalid footer content (expected a single paragraph)")
+	return r.renderElements(ctx, c.Elements)
 }
 
 func (r *sgmlRenderer) renderTableBody(ctx *context, rows []*types.TableRow, columns []*types.TableColumn) (string, error) {
-- 
2.43.0


From 6a688740ca904a7f78c39c45ffed68e0482ddc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:25 +0000
Subject: [PATCH 102/108] fix: apply the substitutions on all elements in the
 header of a table

A document with several blocks in a cell (of style `a`) of the header of a table
was refused ("unsupported type of element: *types.RawLine").
---
 pkg/parser/document_processing_apply_substitutions.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index fcf469e..c7db364 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -162,13 +162,8 @@ func applySubstitutionsOnTable(ctx *ParseContext, t *types.Table, opts ...Option
 	}
 	if t.Header != nil {
 		for _, c := range t.Header.Cells {
-			// assume elements to process were wrapped in a paragraph at parse time
-			if len(c.Elements) == 1 {
-				if p, ok := c.Elements[0].(*types.Paragraph); ok {
-					if err := applySubstitutionsOnWithElements(ctx, p, opts...); err != nil {
-						return err
-					}
-				}
+			if err := applySubstitutionsOnWithElements(ctx, c, opts...); err != nil {
+				return err
 			}
 		}
 	}
-- 
2.43.0


From 695dc5b20340620cb2b01da702743385749ad27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:43 +0000
Subject: [PATCH 103/108] fix: process the macros in attributes in a stable
 order

The counters in the macros of several attributes of an element were incremented
in the random order of the iteration on the attributes.
---
 .../document_processing_apply_substitutions.go  | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index c7db364..37a2f2e 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 	"time"
@@ -266,7 +267,8 @@ func applySubstitutionsOnWithElements(ctx *ParseContext, b types.WithElements, o
 func reparseAttributes(ctx *ParseContext, element types.WithAttributes, opts ...Option) error {
 	// in some specific cases, we need to reparse values to support links and quoted texts
 	attrs := element.GetAttributes()
-	for k, v := range attrs {
+	for _, k := range sortedNames(attrs) {
+		v := attrs[k]
 		switch k {
 		case types.AttrTitle, types.AttrXRefLabel:
 			subs := attributeSubstitutions()
@@ -306,7 +308,8 @@ func reparseAttributes(ctx *ParseContext, element types.WithAttributes, opts ...
 func reparseInlineAttributes(ctx *ParseContext, element types.WithAttributes, subs *substitutions, opts ...Option) error {
 	// in some specific cases, we need to reparse values to support links and quoted texts
 	attrs := element.GetAttributes()
-	for k, v := range attrs {
+	for _, k := range sortedNames(attrs) {
+		v := attrs[k]
 		switch k {
 		case types.AttrTitle, types.AttrXRefLabel:
 			v, err := reparseAttributeValue(ctx, v, subs, opts...)
@@ -355,6 +358,16 @@ func reparseAttributeValue(ctx *ParseContext, value interface{}, subs *substitut
 	return types.Reduce(elements), nil
 }
 
+// the names of the attributes, sorted so that counters are processed in the same order each time
+func sortedNames(attrs types.Attributes) []string {
+	names := make([]string, 0, len(attrs))
+	for name := range attrs {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return names
+}
+
 func replaceAttributeRefsInAttributeValues(ctx *ParseContext, attrs types.Attributes) error {
 	var err error
 	for k, v := range attrs {
-- 
2.43.0


From c1585dfbbaf4bbfe642c98b17df641e97b88d2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:21 +0000
Subject: [PATCH 104/108] fix: accept references to attributes in index terms

The references to attributes in the quoted texts of index terms were not replaced, and the document was refused.
---
 pkg/parser/document_processing_apply_substitutions.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 37a2f2e..da579b4 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -508,6 +508,12 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 				return nil, err
 			}
 			e.Elements = elmts
+		case *types.IndexTerm:
+			term, err := replaceAttributeRefsInElementsAndReparse(ctx, e.Term, subs, opts...)
+			if err != nil {
+				return nil, err
+			}
+			e.Term = term
 		case *types.InternalCrossReference:
 			if label, ok := e.Label.([]interface{}); ok {
 				label, err := replaceAttributeRefsInElements(ctx, label) // no need to reparse the label
-- 
2.43.0


From 2df7d15116e82ef329567831b0c9d9d435fec438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:30 +0000
Subject: [PATCH 105/108] fix: accept references to attributes in inline
 passthroughs

The references to attributes in the escaped quoted texts and in the macros of inline passthroughs were not replaced, and the document was refused.
---
 pkg/parser/document_processing_apply_substitutions.go | 6 ++++++
 pkg/types/types.go                                    | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index da579b4..8cf6bae 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -508,6 +508,12 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 				return nil, err
 			}
 			e.Elements = elmts
+		case *types.InlinePassthrough:
+			elmts, err := replaceAttributeRefsInElementsAndReparse(ctx, e.Elements, subs, opts...)
+			if err != nil {
+				return nil, err
+			}
+			e.Elements = elmts
 		case *types.IndexTerm:
 			term, err := replaceAttributeRefsInElementsAndReparse(ctx, e.Term, subs, opts...)
 			if err != nil {
diff --git a/pkg/types/types.go b/pkg/types/types.go
index 0d194ce..aa21132 100644
--- a/pkg/types/types.go
+++ b/pkg/types/types.go
@@ -2999,6 +2999,12 @@ func withLiteralReferences(elements []interface{}) ([]interface{}, error) {
 			elements[i] = &StringElement{Content: e.rawText}
 		case *CounterSubstitution:
 			elements[i] = &StringElement{Content: e.rawText}
+		case []interface{}: // escaped quoted text
+			elmts, err := withLiteralReferences(e)
+			if err != nil {
+				return nil, err
+			}
+			elements[i] = elmts
 		case *QuotedText:
 			elmts, err := withLiteralReferences(e.Elements)
 			if err != nil {
-- 
2.43.0


From 6eda170ddfb6020107fe76cf4fff6798642b149d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:48 +0000
Subject: [PATCH 106/108] fix: replace the counters in the values of attributes

The counters in the attributes of elements were not replaced: their value was ignored, or the document was refused.
---
 .../document_processing_apply_substitutions.go       | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 8cf6bae..d1c6aea 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -370,8 +370,8 @@ func sortedNames(attrs types.Attributes) []string {
 
 func replaceAttributeRefsInAttributeValues(ctx *ParseContext, attrs types.Attributes) error {
 	var err error
-	for k, v := range attrs {
-		if attrs[k], err = replaceAttributeRefsInValue(ctx, v); err != nil {
+	for _, k := range sortedNames(attrs) {
+		if attrs[k], err = replaceAttributeRefsInValue(ctx, attrs[k]); err != nil {
 			return err
 		}
 	}
@@ -381,6 +381,8 @@ func replaceAttributeRefsInAttributeValues(ctx *ParseContext, attrs types.Attrib
 func replaceAttributeRefsInValue(ctx *ParseContext, value interface{}) (interface{}, error) {
 	var err error
 	switch value := value.(type) {
+	case *types.AttributeReference, *types.CounterSubstitution:
+		return replaceAttributeRefsInSlicedValue(ctx, []interface{}{value})
 	case []interface{}:
 		return replaceAttributeRefsInSlicedValue(ctx, value)
 	case types.Roles:
@@ -414,6 +416,12 @@ func replaceAttributeRefsInSlicedValue(ctx *ParseContext, elements []interface{}
 				return nil, err
 			}
 			result = append(result, v)
+		case *types.CounterSubstitution:
+			v, err := valueForCounter(ctx, e)
+			if err != nil {
+				return nil, err
+			}
+			result = append(result, v)
 		case []interface{}: // entries in Roles and Options
 			v, err := replaceAttributeRefsInSlicedValue(ctx, e)
 			if err != nil {
-- 
2.43.0


From f4ed1f01b814f3665c7747cfe77c9aaf394d9e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:32 +0000
Subject: [PATCH 107/108] fix: replace the references to attributes in inline
 icons

The references and counters in the attributes of inline icons were not replaced, and the counters in their roles were refused.
---
 pkg/parser/document_processing_apply_substitutions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index d1c6aea..5683c6f 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -540,6 +540,10 @@ func replaceAttributeRefsInElementsAndReparse(ctx *ParseContext, elements []inte
 			if err := replaceAttributeRefsInAttributeValues(ctx, e.Attributes); err != nil {
 				return nil, err
 			}
+		case *types.Icon:
+			if err := replaceAttributeRefsInAttributeValues(ctx, e.Attributes); err != nil {
+				return nil, err
+			}
 		case *types.UserMacro:
 			if err := replaceAttributeRefsInAttributeValues(ctx, e.Attributes); err != nil {
 				return nil, err
-- 
2.43.0


From 884f8a2585d7646c0f5a9f7ff9d68c0c8254e225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:40 +0000
Subject: [PATCH 108/108] fix: restore the elements in the attributes of inline
 icons, buttons and macros

The elements in the attributes of inline icons, buttons and user macros which were parsed after the replacement of references to attributes remained as placeholders, and the document could be refused.
---
 ...document_processing_apply_substitutions.go | 36 ++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/pkg/parser/document_processing_apply_substitutions.go b/pkg/parser/document_processing_apply_substitutions.go
index 5683c6f..6e01e62 100644
--- a/pkg/parser/document_processing_apply_substitutions.go
+++ b/pkg/parser/document_processing_apply_substitutions.go
@@ -933,9 +933,11 @@ func (p *placeholders) restore(elements []interface{}) ([]interface{}, error) {
 			if err := e.SetElements(elmts); err != nil {
 				return nil, err
 			}
-			if err := p.restoreInAttributes(e); err != nil {
+			attributes, err := p.restoreInAttributes(e.GetAttributes())
+			if err != nil {
 				return nil, err
 			}
+			e.SetAttributes(attributes)
 		case *types.InlinePassthrough:
 			if _, err := p.restore(e.Elements); err != nil {
 				return nil, err
@@ -948,6 +950,24 @@ func (p *placeholders) restore(elements []interface{}) ([]interface{}, error) {
 			if _, err := p.restore(e.Term); err != nil {
 				return nil, err
 			}
+		case *types.InlineButton:
+			attributes, err := p.restoreInAttributes(e.Attributes)
+			if err != nil {
+				return nil, err
+			}
+			e.Attributes = attributes
+		case *types.Icon:
+			attributes, err := p.restoreInAttributes(e.Attributes)
+			if err != nil {
+				return nil, err
+			}
+			e.Attributes = attributes
+		case *types.UserMacro:
+			attributes, err := p.restoreInAttributes(e.Attributes)
+			if err != nil {
+				return nil, err
+			}
+			e.Attributes = attributes
 		case *types.InternalCrossReference:
 			if id, ok := e.ID.(string); ok {
 				e.ID = p.restoreInText(id)
@@ -956,9 +976,11 @@ func (p *placeholders) restore(elements []interface{}) ([]interface{}, error) {
 				e.Label = types.Reduce(p.split(label))
 			}
 		case types.WithLocation:
-			if err := p.restoreInAttributes(e); err != nil {
+			attributes, err := p.restoreInAttributes(e.GetAttributes())
+			if err != nil {
 				return nil, err
 			}
+			e.SetAttributes(attributes)
 			if err := p.restoreInLocation(e.GetLocation()); err != nil {
 				return nil, err
 			}
@@ -967,21 +989,19 @@ func (p *placeholders) restore(elements []interface{}) ([]interface{}, error) {
 	return elements, nil
 }
 
-func (p *placeholders) restoreInAttributes(element types.WithAttributes) error {
-	attributes := element.GetAttributes()
+func (p *placeholders) restoreInAttributes(attributes types.Attributes) (types.Attributes, error) {
 	if len(attributes) == 0 {
-		return nil
+		return attributes, nil
 	}
 	restored := make(types.Attributes, len(attributes))
 	for name, value := range attributes {
 		v, err := p.restoreInValue(value)
 		if err != nil {
-			return err
+			return nil, err
 		}
 		restored[name] = v
 	}
-	element.SetAttributes(restored)
-	return nil
+	return restored, nil
 }
 
 func (p *placeholders) restoreInLocation(location *types.Location) error {
-- 
2.43.0

